// C19 Path smoothing, shortcutting and resampling
// PBT-UNSANITIZED: math.cpp
// PBT-VARIANTS: plain asan
#include "pbt.hpp"

#include <deque>

#include <common_robotics_utilities/path_processing.hpp>

namespace pp = common_robotics_utilities::path_processing;

namespace
{
struct P
{
  double x = 0.0;
  double y = 0.0;
  bool operator==(const P& o) const { return x == o.x && y == o.y; }
};

std::ostream& operator<<(std::ostream& s, const P& p) { return s << "(" << p.x << "," << p.y << ")"; }

// The scale of a case: coordinates are multiplied by the one, distances also by the other (both powers of two).
thread_local double t_scale = 1.0;
thread_local double t_weight = 1.0;

void GenScale(pbt::Src& src)
{
  t_scale = src.Bool(2, 3) ? 1.0 : std::ldexp(1.0, static_cast<int>(src.Int(-60, 60)));
  t_weight = src.Bool(2, 3) ? 1.0 : std::ldexp(1.0, static_cast<int>(src.Int(-30, 30)));
}

double Distance(const P& a, const P& b) { return t_weight * std::hypot(b.x - a.x, b.y - a.y); }
P Interpolate(const P& a, const P& b, const double r) { return P{a.x + (b.x - a.x) * r, a.y + (b.y - a.y) * r}; }

template<typename Container>
double Length(const Container& path)
{
  double sum = 0.0;
  for (size_t i = 1; i < path.size(); i++) { sum += Distance(path[i - 1], path[i]); }
  return sum;
}

template<typename Container>
std::string Text(const Container& path)
{
  std::ostringstream s;
  s.precision(17);
  for (size_t i = 0; i < path.size(); i++) { s << (i > 0 ? " " : "") << path[i]; }
  return s.str();
}

struct Disc { double x, y, r; };

// An edge is valid if it misses all discs, or by a hash of its ends.
struct World
{
  std::vector<Disc> discs;
  uint64_t salt = 0;
  uint64_t blocked_of_16 = 0;

  double Clearance(const P& a, const P& b) const
  {
    double least = std::numeric_limits<double>::infinity();
    for (const Disc& d : discs)
    {
      const double dx = b.x - a.x, dy = b.y - a.y;
      const double square = dx * dx + dy * dy;
      const double t = square > 0.0 ? std::max(0.0, std::min(1.0, ((d.x - a.x) * dx + (d.y - a.y) * dy) / square)) : 0.0;
      least = std::min(least, std::hypot(a.x + t * dx - d.x, a.y + t * dy - d.y) - d.r);
    }
    return least;
  }

  static uint64_t Bits(const double x) { uint64_t b; std::memcpy(&b, &x, 8); return b; }

  bool Valid(const P& a, const P& b) const
  {
    if (Clearance(a, b) <= 0.0) { return false; }
    const uint64_t h = pbt::Mix(pbt::Mix(pbt::Mix(pbt::Mix(salt ^ Bits(a.x)) + Bits(a.y)) * 3 + Bits(b.x)) + Bits(b.y));
    return pbt::Mix(h) % 16 >= blocked_of_16;
  }
};

struct Call { P from, to; bool ok; uint64_t draw = 0; };

template<typename Container>
Container GenPath(pbt::Src& src, const size_t lo, const size_t hi)
{
  Container path;
  const size_t n = src.Bool(1, 300) ? static_cast<size_t>(src.Int(100, 700)) : src.Bool(1, 6) ? src.Size(lo, hi) : static_cast<size_t>(src.Int(static_cast<int64_t>(std::min<size_t>(4, hi)), static_cast<int64_t>(hi)));
  const bool lattice = src.Bool(1, 3);
  const bool walk = src.Bool();
  P at;
  for (size_t i = 0; i < n; i++)
  {
    if (i > 0 && src.Bool(1, 16)) { path.push_back(path[src.Choose(i - 1)]); continue; }
    const double reach = walk ? 2.0 : 10.0;
    P p{lattice ? static_cast<double>(src.Int(-4, 4)) : src.Real(-reach, reach), lattice ? static_cast<double>(src.Int(-4, 4)) : src.Real(-reach, reach)};
    p.x *= t_scale;
    p.y *= t_scale;
    if (walk) { p.x += at.x; p.y += at.y; }
    at = p;
    path.push_back(p);
  }
  return path;
}

World GenWorld(pbt::Src& src)
{
  World w;
  w.salt = src.AnyU64();
  if (src.Bool())
  {
    const size_t n = src.Size(0, 5);
    for (size_t i = 0; i < n; i++) { w.discs.push_back({t_scale * src.Real(-8.0, 8.0), t_scale * src.Real(-8.0, 8.0), t_scale * src.Real(0.1, 3.0)}); }
  }
  else { w.blocked_of_16 = static_cast<uint64_t>(src.Pick(std::vector<int>{4, 0, 8, 12, 16})); }
  return w;
}

double Tolerance() { return 1e-9 * t_scale * t_weight; }

// An edge of the result either was there before, or it lies on an edge that
// the validity check accepted (is one, if resampled edges are to be checked).
template<typename Container>
void CheckEdges(const Container& before, const Container& after, const std::vector<Call>& calls, const double interval, const bool marginal, bool& introduced)
{
  for (size_t i = 1; i < after.size(); i++)
  {
    const P& a = after[i - 1];
    const P& b = after[i];
    bool old = false;
    for (size_t k = 1; k < before.size(); k++) { old = old || (before[k - 1] == a && before[k] == b); }
    if (old) { continue; }
    introduced = true;
    bool direct = false, within = false;
    for (const Call& c : calls)
    {
      if (!c.ok) { continue; }
      direct = direct || (c.from == a && c.to == b);
      within = within || Distance(c.from, a) + Distance(a, b) + Distance(b, c.to) <= Distance(c.from, c.to) + Tolerance();
    }
    PBT_CHECK("edge-accepted", direct || (interval > 0.0 && !marginal && within), "new edge ", a, " to ", b, " was not accepted by the validity check");
    if (interval > 0.0) { PBT_CHECK("interval", Distance(a, b) <= interval + Tolerance(), "new edge ", a, " to ", b, " is ", Distance(a, b), " long, resampled at ", interval); }
  }
}

template<typename Container>
void RunSmooth(pbt::Src& src, pbt::Ctx& ctx)
{
  GenScale(src);
  const World w = GenWorld(src);
  Container path = GenPath<Container>(src, 0, 24);
  if (!w.discs.empty())
  {
    // Keep what is collision free, so that the path starts out valid.
    Container clear;
    for (const P& p : path) { if (clear.empty() ? w.Clearance(p, p) > 0.0 : w.Clearance(clear.back(), p) > 0.0) { clear.push_back(p); } }
    path = clear;
  }
  const int64_t limit = path.size() > 40 ? 400 : 40;
  if (path.size() > 40) { ctx.Label("long path"); }
  const uint32_t iterations = src.Bool(1, 12) ? 0 : static_cast<uint32_t>(src.Int(1, limit));
  const uint32_t failures = src.Bool(1, 12) ? 0 : static_cast<uint32_t>(src.Int(1, limit));
  const uint32_t backtracking = static_cast<uint32_t>(src.Choose(4));
  const double fraction = src.Bool(1, 8) ? src.Real(0.0, 3.0) : src.Real(0.0, 1.0);
  const double interval = src.Bool() ? (src.Bool() ? 0.0 : -1.0) : t_scale * t_weight * (src.Bool() ? src.Real(0.05, 4.0) : 1.0);
  const bool marginal = src.Bool();
  ctx << iterations << " iterations " << failures << " failures " << backtracking << " backtracking fraction " << fraction << " interval " << interval << (marginal ? " marginal" : "") << " path " << Text(path);

  std::vector<Call> calls;
  uint64_t draws = 0;
  const std::function<bool(const P&, const P&)> edge = [&] (const P& a, const P& b)
  {
    calls.push_back({a, b, w.Valid(a, b), draws});
    return calls.back().ok;
  };
  const std::function<double(const P&, const P&)> distance = Distance;
  const std::function<P(const P&, const P&, const double)> interpolate = Interpolate;
  const std::function<double()> unit = [&] { draws++; return src.Bool(1, 10) ? 0.0 : src.Bool(1, 10) ? 1.0 - 0x1p-53 : src.Unit(); };
  const Container out = pp::ShortcutSmoothPath<P, Container>(path, iterations, failures, backtracking, fraction, interval, marginal, edge, distance, interpolate, unit);

  if (path.size() <= 2 || iterations == 0 || failures == 0)
  {
    PBT_CHECK("unchanged", std::equal(out.begin(), out.end(), path.begin(), path.end()), "path that cannot be smoothed became ", Text(out));
    PBT_CHECK("unchanged", calls.empty(), "edges were checked though nothing may be done");
    return;
  }
  PBT_CHECK("ends", !out.empty() && *out.begin() == *path.begin() && out[out.size() - 1] == path[path.size() - 1], "path now goes ", Text(out));
  PBT_CHECK("length", Length(out) <= Length(path) + Tolerance(), "path of length ", Length(path), " became ", Length(out), ": ", Text(out));
  bool introduced = false;
  CheckEdges(path, out, calls, interval, marginal, introduced);
  if (!w.discs.empty())
  {
    for (size_t i = 1; i < out.size(); i++) { PBT_CHECK("collision", w.Clearance(out[i - 1], out[i]) > -1e-9 * t_scale, "edge ", i, " of ", Text(out), " collides"); }
  }
  // The states that were kept are in their old order.
  if (interval <= 0.0)
  {
    PBT_CHECK("size", out.size() <= path.size(), path.size(), " states became ", out.size());
    size_t k = 0;
    for (const P& p : out)
    {
      while (k < path.size() && !(path[k] == p)) { k++; }
      PBT_CHECK("subsequence", k < path.size(), "result ", Text(out), " is not a subsequence of the path");
      k++;
    }
  }
  PBT_CHECK("iterations", draws <= 2 * static_cast<uint64_t>(iterations), draws, " random numbers drawn in at most ", iterations, " iterations");
  bool accepted = false;
  for (const Call& c : calls) { accepted = accepted || c.ok; }
  if (!accepted)
  {
    PBT_CHECK("refused", std::equal(out.begin(), out.end(), path.begin(), path.end()), "path changed though every edge was refused: ", Text(out));
    PBT_CHECK("failures", calls.size() <= static_cast<size_t>(failures) * ((size_t(1) << (backtracking + 1)) - 1), calls.size(), " edges checked, at most ", failures, " attempts may fail");
  }
  // Each attempt is the calls between draws; it fails if no edge was accepted.
  std::map<uint64_t, std::vector<Call>> attempts;
  for (const Call& c : calls) { attempts[c.draw].push_back(c); }
  if (interval <= 0.0 || !marginal)
  {
    uint64_t failed = 0;
    for (const auto& a : attempts) { failed += std::none_of(a.second.begin(), a.second.end(), [] (const Call& c) { return c.ok; }) ? 1u : 0u; }
    PBT_CHECK("failures", failed <= failures, failed, " attempts failed, at most ", failures, " may");
    if (draws < 2 * static_cast<uint64_t>(iterations) && out.size() > 2)
    {
      PBT_CHECK("gave-up", failed == failures, "gave up after ", draws, " draws of ", iterations, " iterations and ", failed, " failures of ", failures);
      ctx.Label("stopped by failures");
    }
  }
  // As long as nothing changed, shortcuts span at most the given fraction of the path.
  for (const auto& a : attempts)
  {
    const Call& c = a.second.front();
    int64_t least = std::numeric_limits<int64_t>::max();
    for (size_t i = 0; i < path.size(); i++)
    {
      for (size_t k = i + 1; k < path.size(); k++) { if (path[i] == c.from && path[k] == c.to) { least = std::min(least, static_cast<int64_t>(k - i)); } }
    }
    PBT_CHECK("fraction", static_cast<double>(least) <= std::ceil(fraction * static_cast<double>(path.size())), "a shortcut over ", least, " of ", path.size(), " states, the fraction is ", fraction);
    if (std::any_of(a.second.begin(), a.second.end(), [] (const Call& e) { return e.ok; })) { break; }
  }
  if (introduced) { ctx.Nontrivial(); }
}

// Whether a shortcut should be found: the edge, resampled if wanted, or else
// either half is acceptable.
template<typename Container>
bool Possible(const World& w, const Container& path, const size_t from, const size_t to, const uint32_t depth, const double interval, const bool marginal)
{
  if (w.Valid(path[from], path[to]))
  {
    const double d = Distance(path[from], path[to]);
    const size_t n = interval > 0.0 ? static_cast<size_t>(std::ceil(d / interval)) : 1;
    bool ok = true;
    if (marginal && n > 1)
    {
      P at = path[from];
      for (size_t i = 1; i <= n; i++)
      {
        const P next = i == n ? path[to] : Interpolate(path[from], path[to], static_cast<double>(i) / static_cast<double>(n));
        ok = ok && w.Valid(at, next);
        at = next;
      }
    }
    if (ok) { return true; }
  }
  if (depth == 0 || to - from < 2) { return false; }
  const size_t middle = from + (to - from) / 2;
  return Possible(w, path, from, middle, depth - 1, interval, marginal) || Possible(w, path, middle, to, depth - 1, interval, marginal);
}

template<typename Container>
void RunAttempt(pbt::Src& src, pbt::Ctx& ctx)
{
  GenScale(src);
  const World w = GenWorld(src);
  const Container path = GenPath<Container>(src, 1, 16);
  const size_t from = src.Choose(path.size() - 1);
  const size_t to = src.Bool(1, 12) ? src.Choose(path.size() - 1) : from + src.Choose(path.size() - 1 - from);
  const uint32_t backtracking = static_cast<uint32_t>(src.Choose(4));
  const double interval = src.Bool() ? (src.Bool() ? 0.0 : -1.0) : t_scale * t_weight * src.Real(0.05, 4.0);
  const bool marginal = src.Bool();
  ctx << "shortcut " << from << " to " << to << " backtracking " << backtracking << " interval " << interval << (marginal ? " marginal" : "") << " path " << Text(path);
  std::vector<Call> calls;
  const std::function<bool(const P&, const P&)> edge = [&] (const P& a, const P& b)
  {
    calls.push_back({a, b, w.Valid(a, b)});
    return calls.back().ok;
  };
  const std::function<double(const P&, const P&)> distance = Distance;
  const std::function<P(const P&, const P&, const double)> interpolate = Interpolate;
  const auto attempt = [&] { return pp::AttemptShortcut<P, Container>(path, from, to, backtracking, interval, marginal, edge, distance, interpolate); };
  if (from >= to)
  {
    PBT_CHECK("arguments", pbt::ThrowsA<std::invalid_argument>(attempt), "a shortcut from ", from, " to ", to, " was not rejected");
    return;
  }
  const Container out = attempt();
  const bool possible = Possible(w, path, from, to, backtracking, interval, marginal);
  PBT_CHECK("possible", out.empty() == !possible, possible ? "no shortcut found although there is one" : "found a shortcut that is not valid: ", Text(out));
  if (out.empty()) { return; }
  PBT_CHECK("ends", *out.begin() == path[from] && out[out.size() - 1] == path[to], "shortcut goes ", Text(out));
  const Container before(path.begin() + static_cast<ptrdiff_t>(from), path.begin() + static_cast<ptrdiff_t>(to) + 1);
  PBT_CHECK("length", Length(out) <= Length(before) + Tolerance(), "shortcut ", Text(out), " is longer than the path");
  bool introduced = false;
  CheckEdges(before, out, calls, interval, marginal, introduced);
  if (introduced && to - from >= 3) { ctx.Nontrivial(); }
}

template<typename Container>
void RunResample(pbt::Src& src, pbt::Ctx& ctx)
{
  GenScale(src);
  const Container path = GenPath<Container>(src, 0, 12);
  double step = src.Bool() ? src.Real(0.02, 6.0) : src.Pick(std::vector<double>{1.0, 0.5, 0.1, 100.0});
  step *= t_scale * t_weight;
  const bool bad = src.Bool(1, 10);
  if (bad) { step = src.Bool() ? 0.0 : -src.Unit(); }
  ctx << "step " << step << " path " << Text(path);
  const std::function<double(const P&, const P&)> distance = Distance;
  const std::function<P(const P&, const P&, const double)> interpolate = [] (const P& a, const P& b, const double r)
  {
    PBT_CHECK("ratio", r >= 0.0 && r <= 1.0, "interpolation asked for ratio ", r);
    return Interpolate(a, b, r);
  };
  if (path.size() <= 1)
  {
    if (!bad) { const Container out = pp::ResamplePath<P, Container>(path, step, distance, interpolate); PBT_CHECK("unchanged", std::equal(out.begin(), out.end(), path.begin(), path.end()), "path became ", Text(out)); }
    return;
  }
  if (bad)
  {
    PBT_CHECK("arguments", pbt::ThrowsA<std::invalid_argument>([&] { pp::ResamplePath<P, Container>(path, step, distance, interpolate); }), "step ", step, " was not rejected");
    return;
  }
  const Container out = pp::ResamplePath<P, Container>(path, step, distance, interpolate);
  // Walk along: states of the path, with the least number of evenly spaced
  // ones in between. A repeated state may be there once.
  size_t k = 0;
  const auto near = [&] (const P& a, const P& b) { return Distance(a, b) <= Tolerance(); };
  PBT_CHECK("start", !out.empty() && out[0] == path[0], "result ", Text(out));
  int64_t inserted = 0;
  for (size_t i = 1; i < path.size(); i++)
  {
    const double d = Distance(path[i - 1], path[i]);
    if (d == 0.0) { if (k + 1 < out.size() && out[k + 1] == path[i]) { k++; } continue; }
    const auto matches = [&] (const size_t n)
    {
      if (k + n >= out.size()) { return false; }
      for (size_t s = 1; s <= n; s++) { if (!near(out[k + s], Interpolate(path[i - 1], path[i], static_cast<double>(s) / static_cast<double>(n)))) { return false; } }
      return true;
    };
    const size_t n = static_cast<size_t>(std::ceil(d / step));
    size_t used = 0;
    for (const size_t m : {n, n + 1, n - 1})
    {
      if (m == 0 || static_cast<double>(m) * step < d * (1.0 - 1e-12) || (static_cast<double>(m) - 1.0) * step >= d * (1.0 + 1e-12)) { continue; }
      if (matches(m)) { used = m; break; }
    }
    PBT_CHECK("segment", used > 0, "segment ", i, " of length ", d, " is not divided into ", n, " steps: ", Text(out));
    k += used;
    inserted += static_cast<int64_t>(used) - 1;
    PBT_CHECK("kept", near(out[k], path[i]), "state ", i, " of the path is missing");
  }
  PBT_CHECK("end", k + 1 == out.size(), out.size(), " states, only ", k + 1, " belong to the path: ", Text(out));
  for (size_t i = 1; i < out.size(); i++) { PBT_CHECK("step", Distance(out[i - 1], out[i]) <= step + Tolerance(), "step ", i, " is ", Distance(out[i - 1], out[i]), " long"); }
  PBT_CHECK("length", std::abs(Length(out) - Length(path)) <= Tolerance() * static_cast<double>(out.size()), "length changed from ", Length(path), " to ", Length(out));
  if (path.size() >= 3 && inserted > 0) { ctx.Nontrivial(); }
}
}  // namespace

PROP(Smooth, "the path has edges that were not there before", 60000, 2000000)
{
  if (src.Bool(3, 4)) { RunSmooth<std::vector<P>>(src, ctx); }
  else { RunSmooth<std::deque<P>>(src, ctx); }
}

PROP(Shortcut, "a shortcut over at least two states was found", 60000, 2000000)
{
  if (src.Bool(3, 4)) { RunAttempt<std::vector<P>>(src, ctx); }
  else { RunAttempt<std::deque<P>>(src, ctx); }
}

PROP(Resample, "a path of three states or more got new ones", 60000, 2000000)
{
  if (src.Bool(3, 4)) { RunResample<std::vector<P>>(src, ctx); }
  else { RunResample<std::deque<P>>(src, ctx); }
}

PROP(CollisionFree, "some edges are valid and some are not", 30000, 1000000)
{
  GenScale(src);
  World w = GenWorld(src);
  const auto path = GenPath<std::vector<P>>(src, 0, 12);
  ctx << Text(path);
  const std::function<bool(const P&, const P&)> edge = [&] (const P& a, const P& b) { return w.Valid(a, b); };
  const double share = pp::ComputePercentCollisionFree<P>(path, edge);
  double expected = 1.0;
  if (path.size() == 1) { expected = w.Valid(path[0], path[0]) ? 1.0 : 0.0; }
  if (path.size() >= 2)
  {
    size_t n = 0;
    while (n + 1 < path.size() && w.Valid(path[n], path[n + 1])) { n++; }
    expected = static_cast<double>(n) / static_cast<double>(path.size() - 1);
  }
  PBT_CHECK("share", std::abs(share - expected) <= 1e-12 && (share == 1.0) == (expected == 1.0), "collision free share ", share, ", expected ", expected);
  if (expected > 0.0 && expected < 1.0) { ctx.Nontrivial(); }
}
