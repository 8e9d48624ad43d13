// C28 Time-parametrized trajectories follow the path within all limits
// PBT-UNSANITIZED: math.cpp
// PBT-SOURCES: time_optimal_trajectory_parametrization.cpp
#include "pbt.hpp"

#include <Eigen/Geometry>
#include <common_robotics_utilities/time_optimal_trajectory_parametrization.hpp>

namespace totp = common_robotics_utilities::time_optimal_trajectory_parametrization;
using Vec = Eigen::VectorXd;
using Path = std::vector<Vec>;
using Trajectory = std::unique_ptr<totp::PositionVelocityTrajectoryInterface>;

namespace
{
std::string Text(const Vec& v)
{
  std::ostringstream out;
  out.precision(17);
  out << v.format(Eigen::IOFormat(17, Eigen::DontAlignCols, " ", " ", "", "", "[", "]"));
  return out.str();
}

// The path as followed: straight legs, joined by the largest circular arcs that touch both legs within half of each and stay within the
// deviation of the corner.
struct Piece
{
  bool arc = false;
  double length = 0.0;
  Vec a;
  Vec direction;
  Vec center;
  Vec x;
  Vec y;
  double radius = 0.0;

  Vec Position(const double s) const { return arc ? Vec(center + radius * (x * std::cos(s / radius) + y * std::sin(s / radius))) : Vec(a + direction * s); }
  Vec First(const double s) const { return arc ? Vec(-x * std::sin(s / radius) + y * std::cos(s / radius)) : direction; }
  Vec Second(const double s) const { return arc ? Vec(-(x * std::cos(s / radius) + y * std::sin(s / radius)) / radius) : Vec(Vec::Zero(a.size())); }
};

std::vector<Piece> Pieces(const Path& path, const double deviation)
{
  std::vector<Piece> out;
  Vec at = path[0];
  const auto line = [&] (const Vec& to)
  {
    const double length = (to - at).norm();
    if (length > 1e-9)
    {
      Piece p;
      p.a = at;
      p.direction = (to - at) / length;
      p.length = length;
      out.push_back(p);
      at = to;
    }
  };
  for (size_t i = 1; i < path.size(); i++)
  {
    if (i + 1 == path.size() || !(deviation > 0.0)) { line(path[i]); continue; }
    const double before = (path[i] - path[i - 1]).norm();
    const double after = (path[i + 1] - path[i]).norm();
    const Vec u = (path[i] - path[i - 1]) / before;
    const Vec w = (path[i + 1] - path[i]) / after;
    const double turn = 2.0 * std::atan2((w - u).norm(), (w + u).norm());
    if (turn < 1e-6) { line(path[i]); continue; }
    const double reach = std::min({before / 2.0, after / 2.0, deviation * std::sin(turn / 2.0) / (1.0 - std::cos(turn / 2.0))});
    line(path[i] - reach * u);
    Piece p;
    p.arc = true;
    p.a = at;
    p.radius = reach / std::tan(turn / 2.0);
    p.length = turn * p.radius;
    p.center = path[i] + (w - u).normalized() * p.radius / std::cos(turn / 2.0);
    p.x = (path[i] - reach * u - p.center) / p.radius;
    p.y = u;
    out.push_back(p);
    at = path[i] + reach * w;
  }
  return out;
}

// Least time by dynamic programming over the squared speed along the path (largest speed from which the rest can be followed, then as
// fast as possible from the start).
double LeastTime(const std::vector<Piece>& pieces, const Vec& v, const Vec& a, const int cells)
{
  struct Cell { double ds; Vec first; Vec second; };
  std::vector<Cell> grid;
  std::vector<double> cap;
  double total = 0.0;
  for (const Piece& p : pieces) { total += p.length; }
  const auto limit = [&] (const Vec& tangent)
  {
    double out = 1e12;
    for (Eigen::Index j = 0; j < tangent.size(); j++) { if (tangent(j) != 0.0) { out = std::min(out, v(j) * v(j) / (tangent(j) * tangent(j))); } }
    return out;
  };
  cap.push_back(0.0);
  for (const Piece& p : pieces)
  {
    const int n = std::max(20, static_cast<int>(std::ceil(cells * p.length / total)));
    const double ds = p.length / n;
    cap.back() = std::min(cap.back(), limit(p.First(0.0)));
    for (int k = 0; k < n; k++)
    {
      grid.push_back({ds, p.First((k + 0.5) * ds), p.Second((k + 0.5) * ds)});
      cap.push_back(limit(p.First((k + 1) * ds)));
    }
  }
  const size_t n = grid.size();
  cap[0] = 0.0;
  cap[n] = 0.0;
  // Largest squared speed at the end of the cell, at most k, given that at its start.
  const auto fastest = [&] (const Cell& c, const double start, const double k, double& end)
  {
    double lo = 0.0;
    double hi = k;
    for (Eigen::Index j = 0; j < a.size(); j++)
    {
      const double slope = c.first(j) / (2.0 * c.ds) + c.second(j) / 2.0;
      const double offset = (-c.first(j) / (2.0 * c.ds) + c.second(j) / 2.0) * start;
      if (std::abs(slope) < 1e-12) { if (std::abs(offset) > a(j) * (1.0 + 1e-9)) { return false; } continue; }
      const double one = (-a(j) - offset) / slope;
      const double two = (a(j) - offset) / slope;
      lo = std::max(lo, std::min(one, two));
      hi = std::min(hi, std::max(one, two));
    }
    end = hi;
    return lo <= hi + 1e-12 * (1.0 + std::abs(hi));
  };
  std::vector<double> most(n + 1, 0.0);
  double end = 0.0;
  for (size_t i = n; i-- > 0;)
  {
    double lo = 0.0;
    double hi = cap[i];
    if (fastest(grid[i], hi, most[i + 1], end)) { most[i] = hi; continue; }
    for (int k = 0; k < 50; k++)
    {
      const double mid = 0.5 * (lo + hi);
      (fastest(grid[i], mid, most[i + 1], end) ? lo : hi) = mid;
    }
    most[i] = lo;
  }
  double speed = 0.0;
  double time = 0.0;
  for (size_t i = 0; i < n; i++)
  {
    fastest(grid[i], speed, most[i + 1], end);
    end = std::max(0.0, std::min(end, most[i + 1]));
    time += 2.0 * grid[i].ds / (std::sqrt(speed) + std::sqrt(end));
    speed = end;
  }
  return time;
}

double DistanceToLine(const Vec& p, const Vec& a, const Vec& b, double& along)
{
  const Vec d = b - a;
  const double squared = d.squaredNorm();
  along = squared > 0.0 ? std::max(0.0, std::min(1.0, (p - a).dot(d) / squared)) : 0.0;
  return (p - (a + along * d)).norm();
}

struct Setup
{
  Path path;
  Vec velocity;
  Vec acceleration;
  double deviation = 0.0;
  double timestep = 0.001;
  double sharpest = -1.0;  // cosine of the interior angle of the sharpest corner

  Trajectory Make() const { return totp::ParametrizePathTOTP(path, velocity, acceleration, deviation, timestep); }
};

// Whether a setup that was refused may be refused: roundings that are small for the time step, paths that double back, and failures of the
// integration that some other time step does not share.
bool MayGiveUp(const Setup& setup)
{
  if (setup.deviation < 0.05 || setup.timestep > 0.004 || setup.sharpest > 0.95) { return true; }
  for (const double factor : {0.9, 0.5, 0.2, 1.3})
  {
    Setup other = setup;
    other.timestep *= factor;
    try { other.Make(); return true; } catch (const std::exception&) { }
  }
  return false;
}

double Positive(pbt::Src& src, const double lo, const double hi) { return lo * std::pow(hi / lo, src.Real(0.0, 1.0)); }

// Repeated waypoints removed.
Path Distinct(const Path& path)
{
  Path out;
  for (const Vec& p : path) { if (out.empty() || p != out.back()) { out.push_back(p); } }
  return out;
}

Setup MakeSetup(pbt::Src& src, const bool blended, const size_t longest)
{
  Setup out;
  const Eigen::Index d = static_cast<Eigen::Index>(src.Size(1, 6));
  const size_t n = src.Size(2, longest);
  const bool grid = src.Bool(1, 3);
  const bool straight = d == 1 || src.Bool(1, 8);
  Vec heading(d);
  for (Eigen::Index j = 0; j < d; j++) { heading(j) = grid ? static_cast<double>(src.Int(-1, 1)) : src.Real(-1.0, 1.0); }
  if (!(heading.norm() > 1e-2)) { heading = Vec::Unit(d, 0); }
  const Eigen::Index frozen = d > 1 && src.Bool(1, 6) ? static_cast<Eigen::Index>(src.Choose(static_cast<uint64_t>(d - 1))) : -1;
  while (out.path.size() < n)
  {
    Vec p(d);
    if (straight && !out.path.empty()) { p = out.path.back() + heading * (grid ? 0.25 * static_cast<double>(src.Int(1, 4)) : src.Real(0.02, 1.0)); }
    else { for (Eigen::Index j = 0; j < d; j++) { p(j) = grid ? 0.5 * static_cast<double>(src.Int(-2, 2)) : src.Real(-1.0, 1.0); } }
    if (frozen >= 0 && !out.path.empty() && !straight) { p(frozen) = out.path[0](frozen); }
    if (!out.path.empty() && (p - out.path.back()).norm() < 1e-2)
    {
      if (src.Bool(7, 8)) { p = out.path.back(); p((frozen + 1) % d) += 0.5; }
      else { p = out.path.back(); }
      if (p == out.path.back() && out.path.size() == 1) { p(0) += 1.0; if (frozen == 0) { p(0) -= 1.0; p(d - 1) += 1.0; } }
    }
    out.path.push_back(p);
  }
  out.velocity = Vec(d);
  out.acceleration = Vec(d);
  for (Eigen::Index j = 0; j < d; j++)
  {
    out.velocity(j) = src.Bool(1, 4) ? 1.0 : Positive(src, 0.15, 4.0);
    out.acceleration(j) = src.Bool(1, 4) ? 1.0 : Positive(src, 0.15, 4.0);
  }
  out.deviation = blended ? Positive(src, 0.002, 1.0) : (src.Bool(1, 4) ? -src.Unit() : 0.0);
  out.timestep = src.Bool(1, 3) ? 0.001 : Positive(src, 0.0005, 0.01);
  const Path distinct = Distinct(out.path);
  for (size_t i = 1; i + 1 < distinct.size(); i++)
  {
    out.sharpest = std::max(out.sharpest, -(distinct[i] - distinct[i - 1]).normalized().dot((distinct[i + 1] - distinct[i]).normalized()));
  }
  return out;
}

void Describe(pbt::Ctx& ctx, const Setup& s)
{
  ctx << "deviation " << s.deviation << " step " << s.timestep << " velocity " << Text(s.velocity) << " acceleration " << Text(s.acceleration) << " path";
  for (const Vec& p : s.path) { ctx << " " << Text(p); }
}

// Everything that holds of any trajectory.
// With legs shorter than what is covered in a time step, the corners cannot be told from the samples: velocities are then only looked at if
// corners are rounded off.
void CheckFollows(const Setup& setup, totp::PositionVelocityTrajectoryInterface& t, const bool blended, const bool fine = false)
{
  const Vec& v = setup.velocity;
  const Vec& a = setup.acceleration;
  const double duration = t.Duration();
  const double h = setup.timestep;
  PBT_CHECK("duration", std::isfinite(duration) && duration > 0.0 && duration < 1e4, "duration ", duration);
  const auto first = t.GetPositionVelocityTimePoint(0.0);
  const auto last = t.GetPositionVelocityTimePoint(duration);
  PBT_CHECK("start", (first.Position() - setup.path.front()).norm() <= 2e-6 && first.Time() == 0.0, "starts at ", Text(first.Position()));
  PBT_CHECK("end", (last.Position() - setup.path.back()).norm() <= 1e-9 && last.Time() == duration, "ends at ", Text(last.Position()));
  PBT_CHECK("at-rest", first.Velocity().norm() <= 1e-9 && last.Velocity().norm() <= 1e-9, "starts with velocity ", Text(first.Velocity()), " and ends with ", Text(last.Velocity()));
  const Path path = Distinct(setup.path);
  const double deviation = std::max(0.0, setup.deviation);
  const size_t samples = std::min<size_t>(200000, static_cast<size_t>(duration / h));
  std::vector<Vec> velocities;
  velocities.reserve(samples + 1);
  size_t leg = 0;
  Vec before = first.Position();
  double worst_velocity = 0.0;
  std::vector<bool> corner(samples + 1, false);
  for (size_t i = 0; i <= samples; i++)
  {
    const double time = static_cast<double>(i) * h;
    const auto point = t.GetPositionVelocityTimePoint(time);
    PBT_CHECK("finite", point.Position().allFinite() && point.Velocity().allFinite(), "at ", time, " position ", Text(point.Position()), " velocity ", Text(point.Velocity()));
    PBT_CHECK("time", point.Time() == time, "time ", point.Time(), " when asked for ", time);
    // Along the legs in order, never further than the deviation away.
    double along = 0.0;
    const size_t old = leg;
    double distance = DistanceToLine(point.Position(), path[leg], path[leg + 1], along);
    if (fine)
    {
      while (distance > deviation + 3e-6 && leg + 2 < path.size()) { leg++; distance = DistanceToLine(point.Position(), path[leg], path[leg + 1], along); }
    }
    else if (leg + 2 < path.size())
    {
      double next_along = 0.0;
      const double next = DistanceToLine(point.Position(), path[leg + 1], path[leg + 2], next_along);
      if (next < distance && along > 0.49) { leg++; distance = next; along = next_along; }
    }
    PBT_CHECK("deviation", distance <= deviation + 3e-6, "at ", time, " the position ", Text(point.Position()), " is ", distance, " off the path");
    corner[i] = !fine && old != leg;
    velocities.push_back(point.Velocity());
    if (i > 0)
    {
      PBT_CHECK("continuous", (point.Position() - before).cwiseAbs().maxCoeff() <= (v.maxCoeff() * 1.1 + h * a.maxCoeff()) * h + (fine ? 3e-6 : 1e-9), "jumps from ", Text(before), " to ", Text(point.Position()), " at ", time);
    }
    if (i > 0 && (blended || !fine))
    {
      // Velocity is the derivative of the position (trapezoid rule).
      const Vec mean = 0.5 * (velocities[i] + velocities[i - 1]);
      const double error = (point.Position() - before - h * mean).norm();
      PBT_CHECK("derivative", error <= 4.0 * h * h * a.norm() * 2.0 + (corner[i] || (i > 1 && corner[i - 1]) || !blended ? h * 2.0 * v.norm() : 0.0) + (fine ? 3e-6 : 1e-9), "between ", time - h, " and ", time, " the position moves by ", Text(point.Position() - before), " at a velocity of ", Text(mean));
    }
    before = point.Position();
  }
  if (fine && !blended) { return; }
  for (size_t i = 0; i <= samples; i++)
  {
    // Corners that are not rounded off are taken at once.
    bool near = false;
    for (size_t k = i >= 2 ? i - 2 : 0; !blended && k <= i + 2 && k <= samples; k++) { near = near || corner[k]; }
    if (near) { continue; }
    for (Eigen::Index j = 0; j < v.size(); j++) { worst_velocity = std::max(worst_velocity, std::abs(velocities[i](j)) / v(j)); }
  }
  PBT_CHECK("all-legs", fine || leg + 2 == path.size() || samples < 10, "only ", leg + 1, " of ", path.size() - 1, " legs are followed");
  PBT_CHECK("velocity", worst_velocity <= 1.02, "a velocity of ", worst_velocity, " times the limit");
  // Acceleration, over any window, beyond the limit for no longer than a few steps.
  double worst = 0.0;
  for (size_t w = 1; w <= 512 && w <= samples; w *= 2)
  {
    size_t clear = 0;  // samples since the last corner
    for (size_t i = 0; i <= samples; i++)
    {
      // Corners that are not rounded off are taken at once.
      if (!blended && (corner[i] || (i > 0 && corner[i - 1]) || (i + 1 <= samples && corner[i + 1]) || (i + 2 <= samples && corner[i + 2]))) { clear = 0; continue; }
      clear++;
      if (clear <= w) { continue; }
      for (Eigen::Index j = 0; j < v.size(); j++)
      {
        worst = std::max(worst, std::abs(velocities[i](j) - velocities[i - w](j)) / (a(j) * h) - static_cast<double>(w));
      }
    }
  }
  PBT_CHECK("acceleration", worst <= 40.0, "the velocity changes as much as the limit allows in ", worst, " further time steps");
}

}  // namespace

PROP(Blended, "the path has a corner", 2500, 60000)
{
  const Setup setup = MakeSetup(src, true, 6);
  Describe(ctx, setup);
  Trajectory t;
  try { t = setup.Make(); }
  catch (const std::exception& e)
  {
    ctx.Label("gave up");
    // Blends too small for the time step, or paths that double back on themselves.
    PBT_CHECK("gave-up", MayGiveUp(setup), "no trajectory: ", e.what());
    return;
  }
  if (setup.sharpest > 0.995) { ctx.Label("doubles back"); return; }
  CheckFollows(setup, *t, true);
  const double least = LeastTime(Pieces(Distinct(setup.path), setup.deviation), setup.velocity, setup.acceleration, 800);
  PBT_CHECK("optimal", t->Duration() <= 1.08 * least + 4.0 * setup.timestep, "takes ", t->Duration(), ", ", least, " is possible");
  PBT_CHECK("possible", t->Duration() >= 0.95 * least - 4.0 * setup.timestep, "takes ", t->Duration(), ", at least ", least, " is needed");
  if (setup.sharpest > -0.999) { ctx.Nontrivial(); }
}

PROP(Unblended, "the path has a corner", 1200, 30000)
{
  const Setup setup = MakeSetup(src, false, 6);
  Describe(ctx, setup);
  Trajectory t;
  try { t = setup.Make(); }
  catch (const std::exception& e) { ctx.Label("gave up"); return; }
  if (setup.sharpest > 0.995) { ctx.Label("doubles back"); return; }
  CheckFollows(setup, *t, false);
  // Corners that are not rounded off are taken without slowing down, so only the speed bounds the time from below.
  const Path path = Distinct(setup.path);
  double least = 0.0;
  for (size_t i = 1; i < path.size(); i++) { least += (path[i] - path[i - 1]).cwiseAbs().cwiseQuotient(setup.velocity).maxCoeff(); }
  const double most = LeastTime(Pieces(path, 0.0), setup.velocity, setup.acceleration, 800);
  PBT_CHECK("optimal", t->Duration() <= 1.08 * most + 4.0 * setup.timestep, "takes ", t->Duration(), ", ", most, " is possible");
  PBT_CHECK("possible", t->Duration() >= 0.99 * least, "takes ", t->Duration(), ", at least ", least, " is needed");
  if (setup.sharpest < -0.999) { PBT_CHECK("possible", t->Duration() >= 0.99 * most - 4.0 * setup.timestep, "takes ", t->Duration(), ", at least ", most, " is needed"); }
  else { ctx.Nontrivial(); }
}

// Joints that stand still need no limits.
PROP(Resting, "a joint without limits rests", 600, 10000)
{
  Setup setup = MakeSetup(src, true, 5);
  const size_t before = static_cast<size_t>(setup.velocity.size());
  const size_t extra = src.Size(1, 3);
  const auto place = src.Size(0, before);
  const auto widen = [&] (const Vec& v, const double with)
  {
    Vec out(v.size() + static_cast<Eigen::Index>(extra));
    out << v.head(static_cast<Eigen::Index>(place)), Vec::Constant(static_cast<Eigen::Index>(extra), with), v.tail(static_cast<Eigen::Index>(before - place));
    return out;
  };
  Setup wide = setup;
  const double rest = src.Real(-3.0, 3.0);
  for (Vec& p : wide.path) { p = widen(p, rest); }
  const double limit = src.Bool() ? 0.0 : Positive(src, 0.1, 4.0);
  wide.velocity = widen(setup.velocity, limit);
  wide.acceleration = widen(setup.acceleration, limit);
  Describe(ctx, wide);
  if (setup.sharpest > 0.995) { ctx.Label("doubles back"); return; }
  Trajectory narrow_t;
  Trajectory wide_t;
  try { narrow_t = setup.Make(); } catch (const std::exception&) { }
  try { wide_t = wide.Make(); } catch (const std::exception&) { }
  if (!narrow_t || !wide_t) { PBT_CHECK("gave-up", MayGiveUp(setup), "no trajectory"); ctx.Label("gave up"); return; }
  PBT_CHECK("same", std::abs(narrow_t->Duration() - wide_t->Duration()) <= 0.02 * narrow_t->Duration() + 4.0 * setup.timestep, "takes ", wide_t->Duration(), " with resting joints and ", narrow_t->Duration(), " without");
  for (int k = 0; k <= 10; k++)
  {
    const auto point = wide_t->GetPositionVelocityTimePoint(wide_t->Duration() * k / 10.0);
    for (size_t j = 0; j < extra; j++)
    {
      const Eigen::Index i = static_cast<Eigen::Index>(place + j);
      PBT_CHECK("rests", std::abs(point.Position()(i) - rest) <= 1e-9 && std::abs(point.Velocity()(i)) <= 1e-9, "a resting joint moves to ", point.Position()(i), " at ", point.Velocity()(i));
    }
  }
  if (limit == 0.0) { ctx.Nontrivial(); }
}

// The answer to a query does not depend on the queries before it, nor on what becomes of other copies.
PROP(Histories, "clones and queries going back in time, after a clone's original is gone", 1500, 30000)
{
  const Setup setup = MakeSetup(src, src.Bool(2, 3), 5);
  Describe(ctx, setup);
  Trajectory fresh;
  try { fresh = setup.Make(); }
  catch (const std::exception& e) { ctx.Label("gave up"); return; }
  const double duration = fresh->Duration();
  if (setup.sharpest > 0.999) { ctx.Label("doubles back"); return; }
  // Answers of copies that have never been asked.
  std::vector<double> times;
  const size_t n = src.Size(1, 12);
  for (size_t i = 0; i < n; i++)
  {
    switch (src.Weighted({4, 1, 1, 1, 1}))
    {
      case 0: times.push_back(src.Real(0.0, duration)); break;
      case 1: times.push_back(0.0); break;
      case 2: times.push_back(duration); break;
      case 3: times.push_back(std::min(duration, setup.timestep * static_cast<double>(src.Int(0, 40)))); break;
      default: times.push_back(times.empty() ? 0.0 : times.back()); break;
    }
  }
  std::vector<totp::PositionVelocityTimePoint> answers;
  for (const double time : times) { Trajectory one = setup.Make(); PBT_CHECK("reproducible", one->Duration() == duration, "another duration"); answers.push_back(one->GetPositionVelocityTimePoint(time)); }
  std::vector<Trajectory> alive;
  alive.push_back(std::move(fresh));
  bool orphan = false;
  bool back = false;
  double last = 0.0;
  for (const bool unused : std::vector<bool>(src.Size(2, 40)))
  {
    (void)unused;
    const size_t which = static_cast<size_t>(src.Choose(alive.size() - 1));
    switch (src.Weighted({6, 2, 1}))
    {
      case 0:
      {
        const size_t i = static_cast<size_t>(src.Choose(n - 1));
        const auto point = alive[which]->GetPositionVelocityTimePoint(times[i]);
        PBT_CHECK("history", point.Position() == answers[i].Position() && point.Velocity() == answers[i].Velocity() && point.Time() == times[i], "at ", times[i], " position ", Text(point.Position()), " velocity ", Text(point.Velocity()), ", a fresh trajectory gives ", Text(answers[i].Position()), " and ", Text(answers[i].Velocity()));
        back = back || times[i] < last;
        last = times[i];
        break;
      }
      case 1:
        if (alive.size() < 5)
        {
          alive.push_back(alive[which]->Clone());
          PBT_CHECK("clone", alive.back() != nullptr && alive.back()->Duration() == duration, "the clone has another duration");
        }
        break;
      default:
        if (alive.size() > 1) { alive.erase(alive.begin() + static_cast<std::ptrdiff_t>(which)); orphan = true; }
        break;
    }
  }
  if (orphan && back) { ctx.Nontrivial(); }
}

// Legs that are short, corners that are shallow, and roundings that all but touch, at some distance from the origin.
PROP(Fine, "a leg shorter than a hundredth, a turn of less than a hundredth, or roundings less than a thousandth apart", 8000, 150000)
{
  Setup setup;
  const Eigen::Index d = static_cast<Eigen::Index>(src.Size(2, 5));
  const size_t n = src.Size(3, 6);
  Vec at(d);
  Vec heading(d);
  const double far = src.Bool(1, 3) ? Positive(src, 1.0, 1000.0) : 1.0;
  for (Eigen::Index j = 0; j < d; j++) { at(j) = far * src.Real(-1.0, 1.0); heading(j) = src.Real(-1.0, 1.0); }
  if (!(heading.norm() > 1e-2)) { heading = Vec::Unit(d, 0); }
  heading.normalize();
  setup.path.push_back(at);
  bool fine = false;
  double shortest = 10.0;
  double first_leg = 0.0;
  double first_turn = 0.0;
  while (setup.path.size() < n)
  {
    const double leg = src.Bool(1, 3) ? Positive(src, 2e-4, 1e-2) : Positive(src, 1e-2, 1.0);
    if (setup.path.size() == 1) { first_leg = leg; }
    fine = fine || leg < 1e-2;
    shortest = std::min(shortest, leg);
    at += leg * heading;
    setup.path.push_back(at);
    if (setup.path.size() == n) { break; }
    const double turn = src.Bool() ? Positive(src, 1e-5, 1e-2) : Positive(src, 1e-2, 2.0);
    if (setup.path.size() == 2) { first_turn = turn; }
    fine = fine || turn < 1e-2;
    Vec aside(d);
    for (Eigen::Index j = 0; j < d; j++) { aside(j) = src.Real(-1.0, 1.0); }
    aside -= aside.dot(heading) * heading;
    if (!(aside.norm() > 1e-3)) { aside = Vec::Unit(d, 0); aside -= aside.dot(heading) * heading; if (!(aside.norm() > 1e-3)) { aside = Vec::Unit(d, 1); aside -= aside.dot(heading) * heading; } }
    heading = (std::cos(turn) * heading + std::sin(turn) * aside.normalized()).normalized();
  }
  setup.velocity = Vec(d);
  setup.acceleration = Vec(d);
  for (Eigen::Index j = 0; j < d; j++)
  {
    setup.velocity(j) = src.Bool(1, 4) ? 1.0 : Positive(src, 0.15, 4.0);
    setup.acceleration(j) = src.Bool(1, 4) ? 1.0 : Positive(src, 0.15, 4.0);
  }
  const bool blended = src.Bool(3, 4);
  setup.deviation = blended ? Positive(src, 0.0005, 0.5) : 0.0;
  if (blended && src.Bool(1, 3))
  {
    // The rounding of the first corner begins just after the middle of the first leg.
    const double gap = Positive(src, 2e-6, 1e-3);
    const double reach = first_leg / 2.0 - gap;
    if (reach > 0.1 * first_leg) { setup.deviation = reach * (1.0 - std::cos(first_turn / 2.0)) / std::sin(first_turn / 2.0); fine = true; }
  }
  setup.timestep = Positive(src, 0.0002, 0.002);
  Describe(ctx, setup);
  Trajectory t;
  try { t = setup.Make(); }
  catch (const std::exception& e) { ctx.Label("gave up"); return; }
  bool tiny = false;
  for (const Piece& p : Pieces(setup.path, setup.deviation)) { tiny = tiny || (p.arc && p.length < 1e-3); }
  ctx.Label(!blended ? "not rounded" : tiny ? "tiny roundings" : "rounded");
  CheckFollows(setup, *t, blended && !tiny, true);
  if (fine) { ctx.Nontrivial(); }
}

// Paths that turn back may be refused. If they are not, the answers are sound all the same.
PROP(TurningBack, "the path turns back on itself and is not refused", 2500, 40000)
{
  Setup setup = MakeSetup(src, src.Bool(3, 4), 5);
  // Turn back at some waypoint.
  const size_t where = static_cast<size_t>(src.Choose(setup.path.size() - 2));
  const Vec leg = setup.path[where] - setup.path[where + 1];
  if (!(leg.norm() > 1e-2)) { throw pbt::Discard(); }
  const double share = src.Bool() ? 1.0 : src.Real(0.1, 2.0);
  Vec next = setup.path[where + 1] + share * leg;
  if (src.Bool(1, 4)) { for (Eigen::Index j = 0; j < next.size(); j++) { next(j) += 0.02 * src.Real(-1.0, 1.0); } }
  setup.path.insert(setup.path.begin() + static_cast<std::ptrdiff_t>(where + 2), next);
  Describe(ctx, setup);
  Trajectory t;
  try { t = setup.Make(); }
  catch (const std::exception& e) { ctx.Label("gave up"); return; }
  const double duration = t->Duration();
  PBT_CHECK("duration", std::isfinite(duration) && duration > 0.0 && duration < 1e4, "duration ", duration);
  const auto first = t->GetPositionVelocityTimePoint(0.0);
  const auto last = t->GetPositionVelocityTimePoint(duration);
  PBT_CHECK("start", (first.Position() - setup.path.front()).norm() <= 2e-6 && first.Time() == 0.0, "starts at ", Text(first.Position()));
  PBT_CHECK("end", (last.Position() - setup.path.back()).norm() <= 1e-9 && last.Time() == duration, "ends at ", Text(last.Position()));
  PBT_CHECK("at-rest", first.Velocity().norm() <= 1e-9 && last.Velocity().norm() <= 1e-9, "starts with velocity ", Text(first.Velocity()), " and ends with ", Text(last.Velocity()));
  const Path path = Distinct(setup.path);
  for (int i = 0; i <= 400; i++)
  {
    const double time = std::min(duration, duration * i / 400.0);
    const auto point = t->GetPositionVelocityTimePoint(time);
    PBT_CHECK("finite", point.Position().allFinite() && point.Velocity().allFinite(), "at ", time, " position ", Text(point.Position()), " velocity ", Text(point.Velocity()));
    double distance = std::numeric_limits<double>::infinity();
    double along = 0.0;
    for (size_t k = 1; k < path.size(); k++) { distance = std::min(distance, DistanceToLine(point.Position(), path[k - 1], path[k], along)); }
    PBT_CHECK("deviation", distance <= std::max(0.0, setup.deviation) + 3e-6, "at ", time, " the position ", Text(point.Position()), " is ", distance, " off the path");
  }
  ctx.Nontrivial();
}

PROP(Arguments, "the arguments are invalid in one way", 3000, 60000)
{
  Setup setup = MakeSetup(src, src.Bool(), 4);
  const double nan = src.Bool() ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity();
  const Eigen::Index joint = static_cast<Eigen::Index>(src.Choose(static_cast<uint64_t>(setup.velocity.size() - 1)));
  const size_t point = static_cast<size_t>(src.Choose(setup.path.size() - 1));
  bool moves = false;
  for (const Vec& p : setup.path) { moves = moves || p(joint) != setup.path[0](joint); }
  const auto grown = [] (const Vec& v) { Vec out(v.size() + 1); out << v, 1.0; return out; };
  const uint64_t kind = src.Choose(12);
  switch (kind)
  {
    case 0: setup.path.clear(); break;
    case 1: setup.path.resize(1); break;
    case 2: setup.path.assign(src.Size(2, 4), setup.path[0]); break;
    case 3: setup.timestep = src.Bool() ? 0.0 : -Positive(src, 1e-6, 1.0); break;
    case 4: setup.timestep = nan; break;
    case 5: setup.deviation = nan; break;
    case 6: setup.velocity(joint) = nan; break;
    case 7: setup.acceleration(joint) = nan; break;
    case 8: (src.Bool() ? setup.velocity : setup.acceleration) = grown(setup.velocity); break;
    case 9: setup.path[point] = grown(setup.path[point]); break;
    case 10: setup.path[point](joint) = nan; break;
    case 11: (src.Bool() ? setup.velocity : setup.acceleration)(joint) = -Positive(src, 1e-3, 1.0); break;
    default: if (!moves) { throw pbt::Discard(); } (src.Bool() ? setup.velocity : setup.acceleration)(joint) = 0.0; break;
  }
  Describe(ctx, setup);
  ctx.Label("kind " + std::to_string(kind));
  PBT_CHECK("rejected", pbt::ThrowsA<std::invalid_argument>([&] { setup.Make(); }), "accepted invalid arguments");
  ctx.Nontrivial();
  const Vec five = Vec::Zero(5);
  PBT_CHECK("point", pbt::ThrowsA<std::invalid_argument>([&] { totp::PositionVelocityTimePoint(five, Vec::Zero(static_cast<Eigen::Index>(src.Choose(4))), 1.0); }), "a point whose velocity has another size");
  PBT_CHECK("point", pbt::ThrowsA<std::invalid_argument>([&] { totp::PositionVelocityTimePoint(five, five, -Positive(src, 1e-9, 1.0)); }), "a point before the start");
}
