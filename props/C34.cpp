// C34 Gaussian distributions
// PBT-VARIANTS: plain asan
#include "pbt.hpp"

#include <Eigen/Eigenvalues>
#include <Eigen/Geometry>
#include <common_robotics_utilities/gaussian_distributions.hpp>

namespace gd = common_robotics_utilities::gaussian_distributions;

namespace
{
constexpr double kInfinity = std::numeric_limits<double>::infinity();

// Probability of the standard gaussian between a and b (a <= b), precise in both tails.
long double Enclosed(const long double a, const long double b)
{
  const long double root = std::sqrt(2.0L);
  if (a >= 0.0L) { return 0.5L * (std::erfc(a / root) - std::erfc(b / root)); }
  if (b <= 0.0L) { return 0.5L * (std::erfc(-b / root) - std::erfc(-a / root)); }
  return 1.0L - 0.5L * (std::erfc(-a / root) + std::erfc(b / root));
}

struct Shape
{
  double mean = 0.0;
  double deviation = 1.0;
  double lower = -kInfinity;
  double upper = kInfinity;
  double A() const { return (lower - mean) / deviation; }
  double B() const { return (upper - mean) / deviation; }
};

double Positive(pbt::Src& src, const double lo, const double hi) { return lo * std::pow(hi / lo, src.Real(0.0, 1.0)); }

Shape AShape(pbt::Src& src, pbt::Ctx& ctx, const double furthest)
{
  Shape s;
  const bool any_scale = src.Bool(1, 4);
  s.mean = src.Bool() ? static_cast<double>(src.Int(-3, 3)) : src.Real(-100.0, 100.0);
  s.deviation = src.Bool() ? 1.0 : Positive(src, 0.01, 100.0);
  if (any_scale) { s.deviation = Positive(src, 1e-12, 1e12); s.mean = s.deviation * src.Real(-20.0, 20.0); }
  const double side = src.Bool() ? 1.0 : -1.0;
  double a = 0.0, b = 0.0;
  switch (src.Choose(6))
  {
    case 0: a = -kInfinity; b = kInfinity; break;
    case 1: a = -furthest * src.Real(0.0, 1.0); b = kInfinity; break;                                              // one bound on the far side
    case 2: a = -Positive(src, 1e-3, 5.0); b = Positive(src, 1e-3, 5.0); break;                                    // around the mean
    case 3: a = furthest * src.Real(0.0, 1.0); b = kInfinity; break;                                               // a tail
    case 4: a = furthest * src.Real(0.0, 1.0); b = a + Positive(src, 1e-3, 3.0); break;                            // part of a tail
    case 5: a = 0.0; b = src.Bool() ? kInfinity : Positive(src, 1e-3, 5.0); break;                                 // from the mean
    default: a = furthest * src.Real(0.0, 1.0); b = a + Positive(src, 3.0, 100.0); break;                          // most of a tail
  }
  if (side < 0.0) { const double t = a; a = -b; b = -t; }
  s.lower = s.mean + s.deviation * a;
  s.upper = s.mean + s.deviation * b;
  ctx << "mean " << s.mean << " deviation " << s.deviation << " bounds " << s.lower << " " << s.upper << " ";
  return s;
}

template<typename Function>
void Rejects(const char* what, Function&& function)
{
  bool rejected = false;
  try { function(); } catch (const std::invalid_argument&) { rejected = true; }
  PBT_CHECK("rejection", rejected, what, " was not rejected");
}

// Within the given error of what is expected.
void Near(const char* tag, const double got, const long double expected, const long double error)
{
  PBT_CHECK(tag, std::abs(static_cast<long double>(got) - expected) <= error, got, " instead of ", static_cast<double>(expected));
}
}  // namespace

PROP(Functions, "the distribution is truncated on both sides and the value lies between the bounds", 400000, 12000000)
{
  const Shape s = AShape(src, ctx, 4.5);
  const auto value = [&] ()
  {
    switch (src.Choose(6))
    {
      case 0: return s.mean;
      case 1: if (std::isfinite(s.lower)) { return s.lower; } return -kInfinity;
      case 2: if (std::isfinite(s.upper)) { return s.upper; } return kInfinity;
      case 3: return s.mean + s.deviation * src.Real(-8.0, 8.0);
      default:
      {
        const double low = std::max(s.lower, s.mean - 6.0 * s.deviation), high = std::min(s.upper, s.mean + 6.0 * s.deviation);
        return low + (high - low) * src.Real(0.0, 1.0);
      }
    }
  };
  const double v = value(), w = value();
  ctx << "at " << v << " and " << w;
  const auto standard = [&] (const double x) { return (static_cast<long double>(x) - s.mean) / s.deviation; };
  const long double x = standard(v), y = standard(w);
  // Rounding of (value - mean) moves a value by this many deviations.
  const long double moved = 1e-15L + 2e-16L * (std::abs(s.mean) + (std::isfinite(v) ? std::abs(v) : 0.0) + (std::isfinite(w) ? std::abs(w) : 0.0)) / s.deviation;
  const long double density = std::exp(-0.5L * x * x) / (s.deviation * std::sqrt(2.0L * std::acos(-1.0L)));

  Near("cdf", gd::EvaluateGaussianCDF(s.mean, s.deviation, v), Enclosed(-kInfinity, x), 4.0L * moved);
  if (std::isfinite(v)) { Near("pdf", gd::EvaluateGaussianPDF(s.mean, s.deviation, v), density, density * (1e-13L + 20.0L * moved) + 1e-300L); }
  if (v <= w)
  {
    Near("integral", gd::IntegrateGaussian(s.mean, s.deviation, v, w), Enclosed(x, y), 4.0L * moved);
    if (v < w) { Rejects("limits the wrong way round", [&] { gd::IntegrateGaussian(s.mean, s.deviation, w, v); }); }
  }

  const long double a = standard(s.lower), b = standard(s.upper);
  const long double bounds_moved = moved + 2e-16L * ((std::isfinite(s.lower) ? std::abs(s.lower) : 0.0) + (std::isfinite(s.upper) ? std::abs(s.upper) : 0.0)) / s.deviation;
  const long double whole = Enclosed(a, b);
  if (whole < 1e-9L) { throw pbt::Discard(); }  // too little is left of the distribution for double precision
  const long double error = 16.0L * bounds_moved / whole;
  const auto cdf = [&] (const double at) { return at <= s.lower ? 0.0L : (at >= s.upper ? 1.0L : Enclosed(a, standard(at)) / whole); };
  const double got = gd::EvaluateTruncatedGaussianCDF(s.mean, s.lower, s.upper, s.deviation, v);
  Near("truncated cdf", got, cdf(v), (v <= s.lower || v >= s.upper) ? 0.0L : error);
  if (std::isfinite(v))
  {
    const double pdf = gd::EvaluateTruncatedGaussianPDF(s.mean, s.lower, s.upper, s.deviation, v);
    if (v < s.lower || v > s.upper) { PBT_CHECK("truncated pdf", pdf == 0.0, "density ", pdf, " outside the bounds"); }
    else if (v > s.lower && v < s.upper) { Near("truncated pdf", pdf, density / whole, density / whole * (1e-13L + 20.0L * moved + error) + 1e-300L); }
  }
  if (v <= w)
  {
    Near("truncated integral", gd::IntegrateTruncatedGaussian(s.mean, s.lower, s.upper, s.deviation, v, w), cdf(w) - cdf(v), 2.0L * error);
    if (v < w) { Rejects("limits the wrong way round", [&] { gd::IntegrateTruncatedGaussian(s.mean, s.lower, s.upper, s.deviation, w, v); }); }
  }
  if (s.lower < s.upper)
  {
    Rejects("bounds the wrong way round", [&] { gd::EvaluateTruncatedGaussianCDF(s.mean, s.upper, s.lower, s.deviation, v); });
    Rejects("bounds the wrong way round", [&] { gd::EvaluateTruncatedGaussianPDF(s.mean, s.upper, s.lower, s.deviation, v); });
    Rejects("bounds the wrong way round", [&] { gd::IntegrateTruncatedGaussian(s.mean, s.upper, s.lower, s.deviation, std::min(v, w), std::max(v, w)); });
    Rejects("bounds the wrong way round", [&] { gd::TruncatedGaussianDistribution(s.mean, s.deviation, s.upper, s.lower); });
  }
  ctx.Label("one tail", s.A() > 0.0 || s.B() < 0.0);
  if (std::isfinite(s.lower) && std::isfinite(s.upper) && v > s.lower && v < s.upper) { ctx.Nontrivial(); }
}

namespace
{
// Greatest difference between the sample's distribution and a uniform one over [0, 1], times the root of its size.
double Departure(std::vector<double> sample)
{
  std::sort(sample.begin(), sample.end());
  const double n = static_cast<double>(sample.size());
  double most = 0.0;
  for (size_t i = 0; i < sample.size(); i++)
  {
    most = std::max(most, std::max(std::abs(sample[i] - static_cast<double>(i) / n), std::abs(static_cast<double>(i + 1) / n - sample[i])));
  }
  return most * std::sqrt(n);
}
}  // namespace

PROP(Truncated, "both bounds are on the same side of the mean", 4000, 120000)
{
  Shape s = AShape(src, ctx, src.Bool(1, 4) ? 1e4 : 8.0);
  const double tiny = 1e-12 * (std::abs(s.mean) + s.deviation) + (std::isfinite(s.lower) ? 1e-13 * std::abs(s.lower) : 0.0) + (std::isfinite(s.upper) ? 1e-13 * std::abs(s.upper) : 0.0);
  std::mt19937_64 g(src.Choose(~uint64_t{0})), again = g;
  if (src.Bool(1, 20))
  {
    // Nothing left to choose from.
    const double at = s.mean + s.deviation * (src.Bool() ? 0.0 : src.Real(-5.0, 5.0));
    gd::TruncatedGaussianDistribution point(s.mean, s.deviation, at, at);
    const double got = point(g);
    PBT_CHECK("point", std::abs(got - at) <= tiny, "drew ", got, " although only ", at, " is allowed");
    s.lower = s.mean - src.Real(0.0, 3.0); s.upper = s.mean + src.Real(0.0, 3.0);
    gd::TruncatedGaussianDistribution still(s.mean, 0.0, s.lower, s.upper);
    const double mean = still(g);
    PBT_CHECK("no deviation", mean == s.mean, "drew ", mean, " without a deviation");
    return;
  }
  gd::TruncatedGaussianDistribution distribution(s.mean, s.deviation, s.lower, s.upper);
  gd::TruncatedGaussianDistribution copy = distribution;
  const size_t n = src.Bool(1, 16) ? 100000 : 3000;
  ctx << (n > 3000 ? " many" : "");
  std::vector<double> parts, close;
  const long double a = (static_cast<long double>(s.lower) - s.mean) / s.deviation, b = (static_cast<long double>(s.upper) - s.mean) / s.deviation;
  const long double whole = Enclosed(a, b);
  for (size_t i = 0; i < n; i++)
  {
    const double v = distribution(g);
    PBT_CHECK("bounds", v >= s.lower - tiny && v <= s.upper + tiny, "drew ", v, " outside the bounds");
    if (i < 100) { const double w = copy(again); PBT_CHECK("determined", v == w, "a copy drew ", w, " instead of ", v); }
    const long double x = (static_cast<long double>(v) - s.mean) / s.deviation;
    if (whole > 1e-300L) { parts.push_back(static_cast<double>(a > 0.0L ? 1.0L - Enclosed(x, b) / whole : Enclosed(a, x) / whole)); }
    else
    {
      // Far out the tail is exponential, relative to its bound.
      const long double from = a > 0.0L ? a : -b, to = a > 0.0L ? b : -a, at = a > 0.0L ? x : -x;
      parts.push_back(static_cast<double>(-std::expm1(-(at - from) * from) / -std::expm1(-(to - from) * from)));
    }
  }
  // Rounding of values far from zero is visible where the bounds are close together.
  const double resolution = tiny * 1e-3 / std::max(1e-300, static_cast<double>(std::min<long double>(b - a, 1.0L / std::max(1.0L, std::min(std::abs(a), std::abs(b))))) * s.deviation);
  const double d = Departure(parts);
  PBT_CHECK("distribution", d < 3.8 + resolution * std::sqrt(static_cast<double>(n)), "the values drawn depart from the truncated distribution by ", d);
  ctx.Label("one tail", a > 0.0L || b < 0.0L);
  ctx.Label("far out", whole <= 1e-300L);
  if (std::isfinite(s.lower) && std::isfinite(s.upper) && (a > 0.0L || b < 0.0L)) { ctx.Nontrivial(); }
}

// A slightly wrong shape takes very many values to notice.
PROP(Shapes, "both bounds are on the same side of the mean", 48, 2000)
{
  Shape s;
  s.deviation = src.Bool() ? 1.0 : Positive(src, 1e-3, 1e3);
  s.mean = src.Bool() ? 0.0 : s.deviation * src.Real(-3.0, 3.0);
  double a = 0.0, b = 0.0;
  switch (src.Choose(4))
  {
    case 0: a = src.Real(0.1, 3.0); b = a + src.Real(0.3, 1.2); break;
    case 1: a = src.Real(0.1, 3.0); b = a + src.Real(1.2, 4.0); break;
    case 2: a = src.Real(0.0, 2.0); b = kInfinity; break;
    case 3: a = -src.Real(0.1, 1.5); b = src.Real(0.1, 1.5); break;
    default: a = -src.Real(0.1, 4.0); b = src.Bool() ? src.Real(1.5, 4.0) : kInfinity; break;
  }
  if (src.Bool()) { const double t = a; a = -b; b = -t; }
  s.lower = s.mean + s.deviation * a;
  s.upper = s.mean + s.deviation * b;
  ctx << "mean " << s.mean << " deviation " << s.deviation << " bounds " << s.lower << " " << s.upper;
  gd::TruncatedGaussianDistribution distribution(s.mean, s.deviation, s.lower, s.upper);
  std::mt19937_64 g(src.Choose(~uint64_t{0}));
  const size_t n = 600000;
  std::vector<double> parts;
  parts.reserve(n);
  const auto below = [&] (const double x) { return 0.5 * std::erfc(-(x - s.mean) / s.deviation / std::sqrt(2.0)); };
  const double from = below(s.lower), whole = below(s.upper) - from;
  for (size_t i = 0; i < n; i++)
  {
    const double v = distribution(g);
    if (!(v >= s.lower && v <= s.upper)) { parts.push_back(std::max(0.0, std::min(1.0, v < s.lower ? 0.0 : 1.0))); continue; }
    parts.push_back((below(v) - from) / whole);
  }
  const double d = Departure(parts);
  PBT_CHECK("distribution", d < 3.8, "the values drawn depart from the truncated distribution by ", d);
  if (std::isfinite(a) && std::isfinite(b) && (a > 0.0 || b < 0.0)) { ctx.Nontrivial(); }
}

PROP(Multivariate, "three dimensions or more and a covariance that is not diagonal", 3000, 80000)
{
  const Eigen::Index d = static_cast<Eigen::Index>(src.Size(1, 5));
  Eigen::VectorXd mean(d);
  for (Eigen::Index i = 0; i < d; i++) { mean(i) = src.Bool() ? static_cast<double>(src.Int(-2, 2)) : src.Real(-10.0, 10.0); }
  // A covariance of any rank: sums of squares of directions.
  const size_t kind = static_cast<size_t>(src.Choose(3));
  const Eigen::Index rank = kind == 1 ? static_cast<Eigen::Index>(src.Choose(static_cast<uint64_t>(d))) : d;
  Eigen::MatrixXd root = Eigen::MatrixXd::Zero(d, d);
  for (Eigen::Index c = 0; c < rank; c++)
  {
    for (Eigen::Index r = 0; r < d; r++) { root(r, c) = kind == 2 ? (r == c ? Positive(src, 0.01, 10.0) : 0.0) : (src.Bool() ? static_cast<double>(src.Int(-2, 2)) : src.Real(-3.0, 3.0)); }
  }
  const Eigen::MatrixXd covariance = root * root.transpose();
  ctx << "mean " << mean.transpose() << " covariance " << covariance;
  std::mt19937_64 g(src.Choose(~uint64_t{0})), again = g;
  gd::MultivariteGaussianDistribution distribution(mean, covariance);
  gd::MultivariteGaussianDistribution copy(mean, covariance);
  const size_t n = src.Bool(1, 16) ? 100000 : 3000;
  Eigen::MatrixXd sample(d, static_cast<Eigen::Index>(n));
  for (size_t i = 0; i < n; i++)
  {
    const Eigen::VectorXd v = distribution(g);
    PBT_CHECK("size", v.size() == d && v.allFinite(), "drew ", v.transpose());
    if (i < 50) { const Eigen::VectorXd w = copy(again); PBT_CHECK("determined", v == w, "the same generator gave ", w.transpose(), " instead of ", v.transpose()); }
    sample.col(static_cast<Eigen::Index>(i)) = v - mean;
  }
  // Along every direction the values have a gaussian distribution with the variance that the covariance has along it.
  std::vector<Eigen::VectorXd> directions;
  for (Eigen::Index i = 0; i < d; i++) { directions.push_back(Eigen::VectorXd::Unit(d, i)); }
  for (Eigen::Index i = 0; i < d; i++) { for (Eigen::Index j = 0; j < i; j++) { directions.push_back(directions[static_cast<size_t>(i)] + directions[static_cast<size_t>(j)]); directions.push_back(directions[static_cast<size_t>(i)] - directions[static_cast<size_t>(j)]); } }
  const Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> solver(covariance);
  for (Eigen::Index i = 0; i < d; i++) { directions.push_back(solver.eigenvectors().col(i)); }
  { Eigen::VectorXd any(d); for (Eigen::Index i = 0; i < d; i++) { any(i) = src.Real(-1.0, 1.0); } directions.push_back(any); }
  const double scale = std::sqrt(std::max(1e-300, covariance.trace()));
  for (const Eigen::VectorXd& w : directions)
  {
    const double deviation = std::sqrt(std::max(0.0, w.dot(covariance * w)));
    const Eigen::VectorXd along = sample.transpose() * w;
    if (deviation <= 1e-5 * scale * w.norm())
    {
      const double most = along.cwiseAbs().maxCoeff();
      PBT_CHECK("subspace", most <= 1e-4 * scale * w.norm() + 1e-9 * (1.0 + mean.norm()), "values spread by ", most, " along a direction without variance");
      continue;
    }
    if (deviation < 1e-3 * scale * w.norm()) { continue; }
    std::vector<double> parts;
    for (Eigen::Index i = 0; i < along.size(); i++) { parts.push_back(0.5 * std::erfc(-along(i) / deviation / std::sqrt(2.0))); }
    const double departure = Departure(parts);
    PBT_CHECK("distribution", departure < 3.9, "the values along ", w.transpose(), " depart from their distribution by ", departure);
  }
  ctx.Label("not full rank", rank < d);
  if (d >= 3 && kind != 2) { ctx.Nontrivial(); }
}

PROP(Mismatched, "always", 2000, 20000)
{
  const Eigen::Index d = static_cast<Eigen::Index>(src.Size(1, 5)), rows = static_cast<Eigen::Index>(src.Size(1, 5)), cols = static_cast<Eigen::Index>(src.Size(1, 5));
  ctx << d << " and " << rows << "x" << cols;
  ctx.Nontrivial();
  Eigen::MatrixXd covariance = Eigen::MatrixXd::Identity(rows, cols);
  if (rows == d && cols == d)
  {
    gd::MultivariteGaussianDistribution(Eigen::VectorXd::Zero(d), covariance);
    const Eigen::Index r = static_cast<Eigen::Index>(src.Choose(static_cast<uint64_t>(d - 1))), c = static_cast<Eigen::Index>(src.Choose(static_cast<uint64_t>(d - 1)));
    const double bad = src.Bool() ? std::numeric_limits<double>::quiet_NaN() : kInfinity;
    covariance(r, c) = covariance(c, r) = bad;
    bool rejected = false;
    try { gd::MultivariteGaussianDistribution(Eigen::VectorXd::Zero(d), covariance); } catch (const std::exception&) { rejected = true; }
    PBT_CHECK("rejection", rejected, "a covariance with ", bad, " at ", r, ", ", c, " was not rejected");
    return;
  }
  Rejects("a covariance of another size", [&] { gd::MultivariteGaussianDistribution(Eigen::VectorXd::Zero(d), covariance); });
}

namespace
{
const bool kKnown = [] {
  pbt::KnownRegistry().push_back({"the truncated gaussian distribution function is not a number where double precision leaves no probability between the bounds (mean 0, deviation 1, bounds 40 and 41, at 40.5)", [] {
    return !(std::abs(gd::EvaluateTruncatedGaussianCDF(0.0, 40.0, 41.0, 1.0, 40.5) - 1.0) < 1e-3);
  }});
  return true;
}();
}  // namespace
