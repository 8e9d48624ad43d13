// C31 Random generators and random rotations
// PBT-VARIANTS: plain asan
#include "pbt.hpp"

#include <Eigen/Geometry>
#include <common_robotics_utilities/simple_prngs.hpp>
#include <common_robotics_utilities/random_rotation_generator.hpp>

namespace prngs = common_robotics_utilities::simple_prngs;
namespace rotations = common_robotics_utilities::random_rotation_generator;

namespace
{
// The published algorithms (Steele, Lea & Flood; Vigna), written down from their descriptions.
struct SplitMix
{
  uint64_t x = 0;
  void Seed(const uint64_t s) { x = s; }
  uint64_t Next()
  {
    x += 0x9e3779b97f4a7c15ULL;
    uint64_t z = x;
    z ^= z >> 30; z *= 0xbf58476d1ce4e5b9ULL;
    z ^= z >> 27; z *= 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
};

struct Plus128
{
  std::deque<uint64_t> s;
  void Seed(const uint64_t seed) { SplitMix m; m.Seed(seed); s.clear(); for (int i = 0; i < 2; i++) { s.push_back(m.Next()); } }
  uint64_t Next()
  {
    const uint64_t a = s[0] ^ (s[0] << 23);
    const uint64_t b = s[1];
    const uint64_t next = a ^ b ^ (a >> 18) ^ (b >> 5);
    s.pop_front(); s.push_back(next);
    return next + b;
  }
};

struct Star1024
{
  std::deque<uint64_t> s;  // the state, oldest word last, the word at p first
  void Seed(const uint64_t seed) { SplitMix m; m.Seed(seed); s.clear(); for (int i = 0; i < 16; i++) { s.push_back(m.Next()); } }
  uint64_t Next()
  {
    const uint64_t b = s[0];
    const uint64_t a = s[1] ^ (s[1] << 31);
    s.push_back(s[0]); s.pop_front();
    s[0] = a ^ b ^ (a >> 11) ^ (b >> 30);
    return s[0] * 1181783497276652981ULL;
  }
};

uint64_t Seed(pbt::Src& src)
{
  switch (src.Choose(4))
  {
    case 0: return src.Choose(3);
    case 1: return ~src.Choose(3);
    case 2: return uint64_t{1} << src.Choose(63);
    case 3: return src.Int(-20, 20) * 0x9e3779b97f4a7c15ULL;  // from where the seeding generator passes zero
    default: return src.AnyU64();
  }
}

template<typename Generator, typename Reference>
void History(pbt::Src& src, pbt::Ctx& ctx)
{
  static_assert(Generator::min() == 0 && Generator::max() == ~uint64_t{0}, "the whole range of 64 bits");
  std::vector<Generator> generators;
  std::vector<Reference> references;
  const auto add = [&] (const uint64_t seed) { generators.emplace_back(seed); references.emplace_back(); references.back().Seed(seed); };
  add(Seed(src));
  bool drawn = false, reseeded = false, copied = false;
  const size_t length = src.Size(1, 40);
  for (size_t step = 0; step < length; step++)
  {
    const size_t i = static_cast<size_t>(src.Choose(generators.size() - 1)), j = static_cast<size_t>(src.Choose(generators.size() - 1));
    const uint64_t op = src.Weighted({6, 3, 2, 1, 1, 1, 1, 1});
    ctx << op << "@" << i << " ";
    switch (op)
    {
      case 0:
      {
        for (size_t n = src.Size(1, 30); n > 0; n--)
        {
          const uint64_t expected = references[i].Next(), got = generators[i]();
          PBT_CHECK("sequence", got == expected, "drew ", got, " instead of ", expected);
        }
        drawn = true;
        break;
      }
      case 1:
      {
        const uint64_t n = src.Bool(1, 5) ? (src.Bool(1, 100) ? 65000 + src.Choose(70000) : src.Choose(3000)) : src.Choose(40);
        generators[i].discard(n);
        for (uint64_t k = 0; k < n; k++) { references[i].Next(); }
        drawn = true;
        break;
      }
      case 2:
      {
        const uint64_t seed = Seed(src);
        generators[i].seed(seed);
        references[i].Seed(seed);
        reseeded |= drawn;
        break;
      }
      case 3: if (generators.size() < 5) { const Generator copy = generators[i]; const Reference r = references[i]; generators.push_back(copy); references.push_back(r); copied = true; } break;
      case 4: generators[i] = generators[j]; references[i] = Reference(references[j]); break;
      case 5: { Generator moved(std::move(generators[i])); generators[j] = std::move(moved); const Reference r = references[i]; references[j] = r; generators[i] = generators[j]; break; }
      case 6: if (generators.size() < 5) { add(Seed(src)); } break;
      default:
      {
        // As a source for the standard library.
        Generator a = generators[i], b = generators[i];
        std::uniform_real_distribution<double> d1(-3.0, 5.0), d2(-3.0, 5.0);
        const double v1 = d1(a), v2 = d2(b);
        PBT_CHECK("standard", v1 == v2 && v1 >= -3.0 && v1 <= 5.0, "distributions drew ", v1, " and ", v2);
        break;
      }
    }
  }
  for (size_t i = 0; i < generators.size(); i++)
  {
    for (int k = 0; k < 20; k++) { const uint64_t expected = references[i].Next(), got = generators[i](); PBT_CHECK("sequence", got == expected, "drew ", got, " instead of ", expected); }
  }
  ctx.Label("reseeded after draws", reseeded);
  if (reseeded && copied) { ctx.Nontrivial(); }
}
}  // namespace

PROP(SplitMix64, "a generator was reseeded after draws, and one was copied", 200000, 6000000) { History<prngs::SplitMix64PRNG, SplitMix>(src, ctx); }
PROP(XorShift128Plus, "a generator was reseeded after draws, and one was copied", 200000, 6000000) { History<prngs::XorShift128PlusPRNG, Plus128>(src, ctx); }
PROP(XorShift1024Star, "a generator was reseeded after draws, and one was copied", 200000, 6000000) { History<prngs::XorShift1024StarPRNG, Star1024>(src, ctx); }

PROP(Vectors, "always", 5, 5)
{
  // Published test vectors keep the references honest.
  (void)src;
  ctx.Nontrivial();
  prngs::SplitMix64PRNG g(1234567);
  for (const uint64_t expected : {6457827717110365317ULL, 3203168211198807973ULL, 9817491932198370423ULL, 4593380528125082431ULL, 16408922859458223821ULL})
  {
    const uint64_t got = g();
    PBT_CHECK("vector", got == expected, "drew ", got, " instead of ", expected);
  }
}

namespace
{
// A scripted source of draws from [0, 1), which notices being used after its end.
struct Script
{
  std::vector<double> draws;
  size_t at = 0;
  double operator()() { return draws[at++ % draws.size()]; }
};

Eigen::Matrix3d FromAngles(const Eigen::Vector3d& rpy)
{
  return (Eigen::AngleAxisd(rpy.z(), Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(rpy.y(), Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(rpy.x(), Eigen::Vector3d::UnitX())).toRotationMatrix();
}

void CheckAngles(const Eigen::Vector3d& rpy)
{
  PBT_CHECK("angles", rpy.allFinite() && std::abs(rpy.x()) <= M_PI && std::abs(rpy.z()) <= M_PI, "roll ", rpy.x(), ", yaw ", rpy.z());
  PBT_CHECK("angles", rpy.y() >= -2.0 * M_PI && rpy.y() <= 2.0 * M_PI, "pitch ", rpy.y());
}
}  // namespace

PROP(Rotations, "some draws are at an end of [0, 1)", 300000, 10000000)
{
  Script script;
  bool ends = false;
  for (int i = 0; i < 16; i++)
  {
    switch (src.Choose(4))
    {
      case 0: script.draws.push_back(0.0); ends = true; break;
      case 1: script.draws.push_back(std::nextafter(1.0, 0.0)); ends = true; break;
      case 2: script.draws.push_back(static_cast<double>(src.Choose(7)) / 8.0); break;
      default: script.draws.push_back(std::ldexp(static_cast<double>(src.AnyU64() >> 11), -53)); break;
    }
    ctx << script.draws.back() << " ";
  }
  Script again = script;
  const Eigen::Quaterniond q = rotations::RandomRotationGenerator::GenerateUniformRandomQuaternion(std::ref(script));
  const Eigen::Quaterniond r = rotations::RandomRotationGenerator::GenerateUniformRandomQuaternion(std::ref(again));
  PBT_CHECK("unit", q.coeffs().allFinite() && std::abs(q.norm() - 1.0) < 1e-12, "a quaternion of norm ", q.norm());
  PBT_CHECK("determined", q.coeffs() == r.coeffs(), "the same draws gave another quaternion");
  const Eigen::Vector3d a = rotations::RandomRotationGenerator::GenerateUniformRandomEulerAngles(std::ref(script));
  const Eigen::Vector3d b = rotations::RandomRotationGenerator::GenerateUniformRandomEulerAngles(std::ref(again));
  CheckAngles(a);
  PBT_CHECK("determined", a == b, "the same draws gave other angles");
  if (ends) { ctx.Nontrivial(); }
}

namespace
{
// One history of rotations drawn from a generator, together with everything else drawn from it.
template<typename Generator>
void Draws(pbt::Src& src, pbt::Ctx& ctx, const uint64_t seed)
{
  Generator g(static_cast<typename std::conditional<std::is_same<Generator, std::mt19937_64>::value, std::mt19937_64::result_type, uint64_t>::type>(seed));
  rotations::RandomRotationGenerator first, second;
  std::vector<int> ops;
  const size_t length = src.Size(1, 20);
  for (size_t i = 0; i < length; i++) { ops.push_back(static_cast<int>(src.Choose(4))); ctx << ops.back() << " "; }
  std::set<int> kinds(ops.begin(), ops.end());
  if (kinds.size() >= 3) { ctx.Nontrivial(); }
  for (const int op : ops)
  {
    // The raw forms are the same rotations, and nothing but the generator has a state.
    Generator g1 = g, g2 = g;
    switch (op)
    {
      case 0:
      {
        const Eigen::Quaterniond q = first.GetQuaternion(g);
        const std::vector<double> raw = second.GetRawQuaternion(g1);
        rotations::RandomRotationGenerator fresh;
        const Eigen::Quaterniond again = fresh.GetQuaternion(g2);
        PBT_CHECK("unit", std::abs(q.norm() - 1.0) < 1e-12, "a quaternion of norm ", q.norm());
        PBT_CHECK("determined", q.coeffs() == again.coeffs(), "the same draws gave another quaternion");
        PBT_CHECK("raw", (raw == std::vector<double>{q.x(), q.y(), q.z(), q.w()}), "the raw quaternion differs from the quaternion");
        PBT_CHECK("draws", g1() == g2() && Generator(g)() == Generator(g)(), "another number of draws was used");
        g2 = g; g1 = g;
        break;
      }
      case 1:
      {
        const Eigen::Vector3d a = first.GetEulerAngles(g);
        const std::vector<double> raw = second.GetRawEulerAngles(g1);
        rotations::RandomRotationGenerator fresh;
        const Eigen::Vector3d again = fresh.GetEulerAngles(g2);
        CheckAngles(a);
        PBT_CHECK("determined", a == again, "the same draws gave other angles");
        PBT_CHECK("raw", (raw == std::vector<double>{a.x(), a.y(), a.z()}), "the raw angles differ from the angles");
        break;
      }
      case 2: { const std::vector<double> raw = first.GetRawQuaternion(g); PBT_CHECK("raw", raw.size() == 4, raw.size(), " numbers"); break; }
      case 3: { const std::vector<double> raw = second.GetRawEulerAngles(g); PBT_CHECK("raw", raw.size() == 3, raw.size(), " numbers"); break; }
      default: g(); break;
    }
    if (op <= 1)
    {
      Generator a = g;
      PBT_CHECK("draws", a() == Generator(g)(), "the generator is left in another state");
    }
  }
}
}  // namespace

PROP(Histories, "three kinds of draws", 60000, 2000000)
{
  const uint64_t seed = Seed(src);
  switch (src.Choose(3))
  {
    case 0: Draws<prngs::SplitMix64PRNG>(src, ctx, seed); break;
    case 1: Draws<prngs::XorShift128PlusPRNG>(src, ctx, seed); break;
    case 2: Draws<prngs::XorShift1024StarPRNG>(src, ctx, seed); break;
    default: Draws<std::mt19937_64>(src, ctx, seed); break;
  }
}

namespace
{
// Greatest difference between the sample's distribution and a uniform one over [low, high], times the root of its size.
double Departure(std::vector<double> sample, const double low, const double high)
{
  std::sort(sample.begin(), sample.end());
  const double n = static_cast<double>(sample.size());
  double most = 0.0;
  for (size_t i = 0; i < sample.size(); i++)
  {
    const double cdf = (sample[i] - low) / (high - low);
    most = std::max(most, std::max(std::abs(cdf - static_cast<double>(i) / n), std::abs(static_cast<double>(i + 1) / n - cdf)));
  }
  return most * std::sqrt(n);
}

template<typename Generator>
void Uniformity(pbt::Src& src, pbt::Ctx& ctx, const uint64_t seed)
{
  Generator g(seed);
  rotations::RandomRotationGenerator generator;
  const bool quaternions = src.Bool();
  const size_t n = src.Bool(1, 8) ? 200000 : 3000;
  // A uniformly random rotation stays one when composed with a fixed one, on either side.
  const Eigen::Quaterniond before = generator.GetQuaternion(g), after = generator.GetQuaternion(g);
  const bool turned = src.Bool();
  ctx << (quaternions ? "quaternions" : "angles") << (turned ? ", turned" : "") << " seed " << seed;
  ctx.Nontrivial();
  std::array<std::vector<double>, 9> entries;
  std::array<std::vector<double>, 4> parts;  // each should be uniformly distributed over [0, 1]
  std::vector<double> turn_angles;
  for (size_t i = 0; i < n; i++)
  {
    Eigen::Matrix3d m;
    if (quaternions)
    {
      const Eigen::Quaterniond q = generator.GetQuaternion(g);
      // Coordinates of a uniformly random point of the sphere in four dimensions.
      for (int k = 0; k < 4; k++) { const double c = std::max(-1.0, std::min(1.0, q.coeffs()(k))); parts[static_cast<size_t>(k)].push_back(0.5 + (c * std::sqrt(1.0 - c * c) + std::asin(c)) / M_PI); }
      m = q.toRotationMatrix();
    }
    else
    {
      // Roll and yaw are uniform, the sine of pitch is, and so is the half turn it is in.
      const Eigen::Vector3d rpy = generator.GetEulerAngles(g);
      parts[0].push_back((rpy.x() + M_PI) / (2.0 * M_PI));
      parts[1].push_back(0.5 * (std::sin(rpy.y()) + 1.0));
      parts[2].push_back((rpy.z() + M_PI) / (2.0 * M_PI));
      parts[3].push_back(0.25 * (std::sin(rpy.y()) + 1.0) + (std::cos(rpy.y()) > 0.0 ? 0.5 : 0.0));
      m = FromAngles(rpy);
    }
    if (turned) { m = after.toRotationMatrix() * m * before.toRotationMatrix(); }
    for (int r = 0; r < 3; r++) { for (int c = 0; c < 3; c++) { entries[static_cast<size_t>(r * 3 + c)].push_back(m(r, c)); } }
    // The angle of rotation has the distribution function (angle - sin(angle)) / pi.
    const double angle = std::acos(std::max(-1.0, std::min(1.0, 0.5 * (m.trace() - 1.0))));
    turn_angles.push_back((angle - std::sin(angle)) / M_PI);
  }
  // A uniformly random unit vector has uniformly distributed coordinates.  The limit is passed by chance once in 10^11 cases.
  for (size_t k = 0; k < 9; k++)
  {
    const double d = Departure(entries[k], -1.0, 1.0);
    PBT_CHECK("uniform", d < 3.7, "entry ", k, " of the rotation matrices departs from its distribution by ", d);
  }
  const double d = Departure(turn_angles, 0.0, 1.0);
  PBT_CHECK("uniform", d < 3.7, "the angles of rotation depart from their distribution by ", d);
  for (size_t k = 0; k < 4; k++)
  {
    const double p = Departure(parts[k], 0.0, 1.0);
    PBT_CHECK("uniform", p < 3.7, (quaternions ? "coefficient " : "angle "), k, " departs from its distribution by ", p);
  }
}
}  // namespace

PROP(Uniform, "always", 800, 20000)
{
  const uint64_t seed = Seed(src);
  switch (src.Choose(2))
  {
    case 0: Uniformity<prngs::XorShift128PlusPRNG>(src, ctx, seed); break;
    case 1: Uniformity<prngs::XorShift1024StarPRNG>(src, ctx, seed); break;
    default: Uniformity<prngs::SplitMix64PRNG>(src, ctx, seed); break;
  }
}
