// C24 Revolute angle arithmetic
// PBT-UNSANITIZED: math.cpp
#include "pbt.hpp"

#include <common_robotics_utilities/math.hpp>

namespace math = common_robotics_utilities::math;

namespace
{
constexpr long double kTurn = 2.0L * 3.14159265358979323846264338327950288L;
constexpr double kEps = std::numeric_limits<double>::epsilon();

// Angles: multiples and fractions of pi, a few representable steps around them, ordinary and large values.
double Angle(pbt::Src& src)
{
  switch (src.Weighted({4, 4, 2, 2, 1}))
  {
    case 0: return src.Real(-4.0, 4.0);
    case 1:
    {
      static const std::vector<double> parts = {1.0, 2.0, 3.0, 4.0, 6.0, 7.0};
      double v = static_cast<double>(src.Int(-12, 12)) * M_PI / src.Pick(parts);
      const int64_t steps = src.Bool() ? src.Int(-4, 4) : 0;
      for (int64_t i = 0; i < std::abs(steps); i++) { v = std::nextafter(v, steps < 0 ? -1e300 : 1e300); }
      return v;
    }
    case 2: return src.Real(-100.0, 100.0);
    case 3: return src.Bool() ? std::ldexp(src.Real(-1.0, 1.0), -static_cast<int>(src.Choose(1000))) : (src.Bool() ? 0.0 : -0.0);
    default: return std::ldexp(src.Real(-1.0, 1.0), static_cast<int>(src.Choose(44)));
  }
}

// Rotation in [0, turn) from a to b, in the positive direction.
long double Forward(const double a, const double b)
{
  long double d = std::fmod(static_cast<long double>(b) - static_cast<long double>(a), kTurn);
  if (d < 0.0L) { d += kTurn; }
  return d;
}

// Distance on the circle.
long double Apart(const long double a, const long double b)
{
  return std::abs(std::remainder(a - b, kTurn));
}

long double Tolerance(std::initializer_list<double> angles)
{
  long double sum = 8.0L;
  for (const double a : angles) { sum += std::abs(static_cast<long double>(a)); }
  return 8.0L * kEps * sum;
}
}  // namespace

PROP(Bounds, "the angle is outside of the bounds", 200000, 5000000)
{
  const double value = Angle(src);
  ctx << "angle " << value;
  const double bounded = math::EnforceContinuousRevoluteBounds(value);
  PBT_CHECK("range", bounded >= -M_PI && bounded <= M_PI, value, " becomes ", bounded);
  PBT_CHECK("equivalent", Apart(bounded, value) <= Tolerance({value}), value, " becomes ", bounded, ", which is another angle");
  const double twice = math::EnforceContinuousRevoluteBounds(bounded);
  PBT_CHECK("idempotent", Apart(twice, bounded) <= Tolerance({}), bounded, " becomes ", twice);
  const double change = Angle(src);
  const double sum = math::AddContinuousRevoluteValues(value, change);
  PBT_CHECK("sum-range", sum >= -M_PI && sum <= M_PI, value, " plus ", change, " is ", sum);
  PBT_CHECK("sum", Apart(sum, static_cast<long double>(value) + static_cast<long double>(change)) <= Tolerance({value, change}), value, " plus ", change, " is ", sum);
  if (std::abs(value) > M_PI) { ctx.Nontrivial(); }
}

PROP(Distance, "the shorter way crosses the half turn", 200000, 5000000)
{
  const double a = Angle(src);
  const double b = src.Bool(1, 6) ? a + static_cast<double>(src.Int(-3, 3)) * M_PI : Angle(src);
  ctx << "from " << a << " to " << b;
  const long double tolerance = Tolerance({a, b});
  const double forth = math::ContinuousRevoluteSignedDistance(a, b);
  const double back = math::ContinuousRevoluteSignedDistance(b, a);
  PBT_CHECK("range", forth >= -M_PI && forth <= M_PI, "signed distance ", forth);
  PBT_CHECK("carries", Apart(static_cast<long double>(a) + forth, b) <= tolerance, a, " turned by ", forth, " is not ", b);
  // A signed distance within the bounds that carries one to the other is the least one, up to the sign of a half turn.
  PBT_CHECK("antisymmetric", std::abs(static_cast<long double>(forth) + back) <= tolerance || std::abs(std::abs(forth) - M_PI) <= tolerance, "from ", a, " to ", b, ": ", forth, ", back ", back);
  const double apart = math::ContinuousRevoluteDistance(a, b);
  PBT_CHECK("magnitude", apart == std::abs(forth), "distance ", apart, ", signed ", forth);
  PBT_CHECK("symmetric", std::abs(static_cast<long double>(apart) - math::ContinuousRevoluteDistance(b, a)) <= tolerance, "distances there and back differ");
  PBT_CHECK("distance", std::abs(apart - Apart(a, b)) <= tolerance, "distance ", apart, ", expected ", static_cast<double>(Apart(a, b)));
  PBT_CHECK("same", math::ContinuousRevoluteDistance(a, a) == 0.0, a, " is at distance ", math::ContinuousRevoluteDistance(a, a), " from itself");

  // Interpolation.
  double ratio = src.Real(0.0, 1.0);
  if (src.Bool(1, 3)) { ratio = src.Bool() ? 0.0 : 1.0; }
  if (src.Bool(1, 8)) { ratio = src.Real(-3.0, 4.0); }
  const long double clamped = std::min(1.0, std::max(0.0, ratio));
  const double between = math::InterpolateContinuousRevolute(a, b, ratio);
  PBT_CHECK("interpolate-range", between >= -M_PI && between <= M_PI, "interpolated to ", between);
  PBT_CHECK("interpolate", Apart(between, static_cast<long double>(a) + clamped * forth) <= tolerance, ratio, " of the way from ", a, " to ", b, " is ", between, ", the distance is ", forth);
  if (ratio >= 1.0) { PBT_CHECK("interpolate-end", Apart(between, b) <= tolerance, "ends at ", between); }
  if (ratio <= 0.0) { PBT_CHECK("interpolate-start", Apart(between, a) <= tolerance, "starts at ", between); }
  const double wa = math::EnforceContinuousRevoluteBounds(a);
  const double wb = math::EnforceContinuousRevoluteBounds(b);
  if (std::abs(wa - wb) > M_PI) { ctx.Nontrivial(); }
}

PROP(Ranges, "the range passes the half turn and the angle is inside of it", 200000, 5000000)
{
  const double start = Angle(src);
  const double end = Angle(src);
  double value = Angle(src);
  if (src.Bool(1, 4)) { value = src.Bool() ? start : end; }
  ctx << "from " << start << " to " << end << ", value " << value;
  const long double tolerance = Tolerance({start, end, value});
  const double range = math::GetContinuousRevoluteRange(start, end);
  PBT_CHECK("range", range >= 0.0 && range <= 2.0 * M_PI, "range ", range);
  PBT_CHECK("carries", Apart(static_cast<long double>(start) + range, end) <= tolerance, start, " turned by ", range, " is not ", end);
  const long double offset = Forward(start, value);
  const long double full = Forward(start, end);
  const auto near_boundary = [&] (const long double limit)
  {
    // Offsets near nothing and near a full turn are the same angle.
    return std::abs(offset - limit) <= tolerance || offset <= tolerance || kTurn - offset <= tolerance;
  };
  const bool inside = math::CheckInContinuousRevoluteBounds(start, end, value);
  if (!near_boundary(full) && full > tolerance && kTurn - full > tolerance)
  {
    PBT_CHECK("bounds", inside == (offset < full), value, inside ? " is" : " is not", " reported between ", start, " and ", end);
    if (inside && math::EnforceContinuousRevoluteBounds(start) > math::EnforceContinuousRevoluteBounds(end)) { ctx.Nontrivial(); }
  }
  double arc = src.Real(0.0, 7.0);
  if (src.Bool(1, 4)) { arc = src.Bool() ? 0.0 : range; }
  if (src.Bool(1, 12)) { arc = -src.Real(0.0, 3.0); }
  const bool in_range = math::CheckInContinuousRevoluteRange(start, arc, value);
  if (arc < 0.0) { PBT_CHECK("negative-range", !in_range, value, " is in a negative range"); }
  else if (!near_boundary(arc))
  {
    PBT_CHECK("in-range", in_range == (offset < arc), value, in_range ? " is" : " is not", " reported in a range of ", arc, " from ", start);
  }
  // A range includes its end, exactly, for angles that are within bounds to begin with.
  if (math::EnforceContinuousRevoluteBounds(start) == start && math::EnforceContinuousRevoluteBounds(value) == value)
  {
    const double reach = math::GetContinuousRevoluteRange(start, value);
    PBT_CHECK("end", math::CheckInContinuousRevoluteRange(start, reach, value), value, " is not in the range of ", reach, " that ends there");
    PBT_CHECK("end", math::CheckInContinuousRevoluteBounds(start, value, value), value, " is not within bounds that end there");
  }
  // The same angle is at the start of every range, exactly.
  PBT_CHECK("start", math::CheckInContinuousRevoluteRange(start, 0.0, start), start, " is not in the range that starts there");
  PBT_CHECK("start", math::CheckInContinuousRevoluteBounds(start, end, start), start, " is not within bounds that start there");
}
