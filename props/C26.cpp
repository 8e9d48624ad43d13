// C26 Projections, planes, averages, norms and multilinear interpolation
// PBT-UNSANITIZED: math.cpp
#include "geometry.hpp"
#include <Eigen/Eigenvalues>

#include <common_robotics_utilities/math.hpp>

namespace math = common_robotics_utilities::math;
namespace par = common_robotics_utilities::parallelism;
using geometry::Difference;
using geometry::Real;
using geometry::Text;
using VectorXr = Eigen::Matrix<Real, Eigen::Dynamic, 1>;

namespace
{
// Vectors of any direction and length whose square neither over- nor underflows.
Eigen::VectorXd AnyVector(pbt::Src& src, const Eigen::Index n, const bool any_length = true)
{
  Eigen::VectorXd v(n);
  const uint64_t style = src.Weighted({4, 2, 2, 1});
  for (Eigen::Index i = 0; i < n; i++)
  {
    switch (style)
    {
      case 0: v(i) = src.Real(-10.0, 10.0); break;
      case 1: v(i) = static_cast<double>(src.Int(-2, 2)); break;
      case 2: v(i) = src.Bool(2, 3) ? 0.0 : src.Real(-1.0, 1.0); break;
      default: v(i) = (src.Bool() ? 1.0 : -1.0) * geometry::Magnitude(src, -60, 10); break;
    }
  }
  for (Eigen::Index i = 0; i < n; i++) { if (std::abs(v(i)) < 1e-50) { v(i) = 0.0; } }
  if (any_length && src.Bool(1, 5)) { v *= std::ldexp(1.0, static_cast<int>(src.Int(-200, 200))); }
  return v;
}

VectorXr R(const Eigen::VectorXd& v) { return v.cast<Real>(); }

template<typename Scalar>
void Project(pbt::Src& src, pbt::Ctx& ctx, const Real eps)
{
  using Vector = Eigen::Matrix<Scalar, Eigen::Dynamic, 1>;
  const Eigen::Index n = static_cast<Eigen::Index>(src.Size(1, 6));
  const bool wide = sizeof(Scalar) == 8;
  const Vector base = AnyVector(src, n, wide).cast<Scalar>();
  Vector v = AnyVector(src, n, wide).cast<Scalar>();
  if (src.Bool(1, 5)) { v = base * static_cast<Scalar>(src.Real(-2.0, 2.0)); }
  ctx << "base " << Text(base.transpose()) << " vector " << Text(v.transpose());
  const VectorXr b = base.template cast<Real>();
  const VectorXr w = v.template cast<Real>();
  const Vector projected = math::VectorProjection(base, v);
  const Vector rejected = math::VectorRejection(base, v);
  const Real tolerance = 16 * eps * (1 + w.norm());
  PBT_CHECK("size", projected.size() == n && rejected.size() == n, "wrong size");
  if (!(base.squaredNorm() > 0))
  {
    PBT_CHECK("zero-base", Difference(projected, Vector(Vector::Zero(n))) == 0 && Difference(rejected, v) == 0, "projecting on nothing gives ", Text(projected.transpose()));
    return;
  }
  const Real own = 16 * eps * w.norm() + std::numeric_limits<Scalar>::min() * 16;
  const VectorXr expected = (b.dot(w) / b.dot(b)) * b;
  PBT_CHECK("projection", Difference(projected, expected) <= own, "projection ", Text(projected.transpose()), ", expected ", Text(expected.transpose()));
  PBT_CHECK("rejection", Difference(rejected, (w - expected).eval()) <= own, "rejection ", Text(rejected.transpose()));
  PBT_CHECK("sum", Difference((projected + rejected).eval(), v) <= own, "the parts do not add up");
  (void)tolerance;
  if (std::abs(b.dot(w)) > 0 && (w - expected).norm() > 0.01L * w.norm()) { ctx.Nontrivial(); }

  const Vector orthogonal = math::VectorRejection(base, v);
  if (n >= 2)
  {
    const Vector any = math::GetArbitraryOrthogonalVector(base);
    const VectorXr a = any.template cast<Real>();
    PBT_CHECK("orthogonal-size", any.size() == n && a.norm() > 0, "orthogonal vector ", Text(any.transpose()));
    PBT_CHECK("orthogonal", std::abs(a.dot(b)) <= 64 * eps * a.norm() * b.norm(), "the vector ", Text(any.transpose()), " is not orthogonal to ", Text(base.transpose()));
  }
  else
  {
    PBT_CHECK("orthogonal-none", pbt::ThrowsA<std::runtime_error>([&] { math::GetArbitraryOrthogonalVector(base); }), "a vector orthogonal to the number ", base(0));
  }
}
}  // namespace

PROP(Projections, "the vector has a part along the base and one across", 100000, 3000000)
{
  if (src.Bool(1, 3)) { Project<float>(src, ctx, std::numeric_limits<float>::epsilon()); }
  else { Project<double>(src, ctx, std::numeric_limits<double>::epsilon()); }
}

PROP(FixedSizes, "the vector has a part along the base and one across", 30000, 1000000)
{
  const Eigen::Vector3d base = geometry::Vector(src);
  const Eigen::Vector3d v = geometry::Vector(src);
  ctx << "base " << Text(base.transpose()) << " vector " << Text(v.transpose());
  const geometry::Vec3 b = base.cast<Real>();
  const geometry::Vec3 w = v.cast<Real>();
  geometry::Vec3 expected = geometry::Vec3::Zero();
  if (base.squaredNorm() > 0) { expected = (b.dot(w) / b.dot(b)) * b; }
  const Real tolerance = 4e-15L * w.norm();
  PBT_CHECK("projection", Difference(Eigen::Vector3d(math::VectorProjection(base, v)), expected) <= tolerance, "projection");
  PBT_CHECK("rejection", Difference(Eigen::Vector3d(math::VectorRejection(base, v)), (w - expected).eval()) <= tolerance, "rejection");
  const Eigen::Vector3d any = math::GetArbitraryOrthogonalVector(base);
  PBT_CHECK("orthogonal", any.norm() > 0 && std::abs(any.cast<Real>().dot(b)) <= 1e-14L * Real(any.norm()) * b.norm(), "the vector ", Text(any.transpose()), " is not orthogonal to ", Text(base.transpose()));
  PBT_CHECK("orthogonal-none", pbt::ThrowsA<std::invalid_argument>([&] { math::GetArbitraryOrthogonalVector(Eigen::VectorXd(0)); }), "a vector orthogonal to an empty one");
  if (std::abs(b.dot(w)) > 0 && (w - expected).norm() > 0.01L * w.norm()) { ctx.Nontrivial(); }

  // Limiting the norm.
  const double limit = src.Bool(1, 4) ? v.norm() : src.Real(0.0, 20.0);
  const Eigen::MatrixXd clamped = math::ClampNorm(v, limit);
  PBT_CHECK("clamp-size", clamped.rows() == 3 && clamped.cols() == 1, "wrong size");
  if (v.norm() <= limit) { PBT_CHECK("clamp", Difference(clamped, v) == 0, "a vector of norm ", v.norm(), " was changed by the limit ", limit); }
  else
  {
    PBT_CHECK("clamp", clamped.norm() <= limit * (1 + 1e-14), "norm ", clamped.norm(), " over the limit ", limit);
    PBT_CHECK("clamp", Difference((clamped * (w.norm() / limit)).eval(), v) <= 1e-13L * w.norm() || limit < 1e-9, "the limited vector points elsewhere");
    PBT_CHECK("clamp", clamped.norm() >= limit * (1 - 1e-14) - 1e-300, "norm ", clamped.norm(), " under the limit ", limit);
  }

  // Equality and closeness.
  Eigen::Vector3d other = v;
  if (src.Bool(2, 3)) { other(static_cast<Eigen::Index>(src.Choose(2))) += src.Bool() ? 1e-3 : src.Bool() ? -0.5 : std::pow(10.0, -1.0 - 14.0 * src.Unit()); }
  bool equal = true;
  Real worst = 0;
  for (int i = 0; i < 3; i++) { equal = equal && v(i) == other(i); worst = std::max(worst, std::abs(Real(v(i)) - Real(other(i)))); }
  PBT_CHECK("equal", math::Equal3d(v, other) == equal && math::Equal3d(other, v) == equal, Text(v.transpose()), " and ", Text(other.transpose()));
  Eigen::Vector4d v4;
  v4 << v, 1.0;
  Eigen::Vector4d other4;
  other4 << other, src.Bool(1, 3) ? (src.Bool() ? 2.0 : 1.0 + std::pow(10.0, -1.0 - 14.0 * src.Unit())) : 1.0;
  PBT_CHECK("equal4", math::Equal4d(v4, other4) == (equal && other4(3) == 1.0), Text(v4.transpose()), " and ", Text(other4.transpose()));
  const double threshold = (src.Bool() ? 1.0 : -1.0) * (src.Bool() ? 1e-2 : 1e-6);
  PBT_CHECK("close", math::CloseEnough(v, other, threshold) == (worst <= std::abs(threshold)), "close within ", threshold, ": ", Text(v.transpose()), " and ", Text(other.transpose()));
  {
    // Exactly at the threshold.
    const double step = std::ldexp(1.0, static_cast<int>(src.Int(-20, 3)));
    const double here = static_cast<double>(src.Int(-8, 8)) * step;
    const double limit = static_cast<double>(src.Int(-3, 3)) * step;
    const double there = here + static_cast<double>(src.Int(-4, 4)) * step;
    const bool close = std::abs(there - here) <= std::abs(limit);
    PBT_CHECK("close", math::CloseEnough(here, there, limit) == close, "close within ", limit, ": ", here, " and ", there);
    Eigen::Vector3d h(here, here, here);
    Eigen::Vector3d t = h;
    t(static_cast<Eigen::Index>(src.Choose(2))) = there;
    PBT_CHECK("close", math::CloseEnough(h, t, limit) == close, "close within ", limit, ": ", Text(h.transpose()), " and ", Text(t.transpose()));
  }
  PBT_CHECK("close", math::CloseEnough(v(0), other(0), threshold) == (std::abs(v(0) - other(0)) <= std::abs(threshold)), "close within ", threshold, ": ", v(0), " and ", other(0));
}

PROP(Planes, "the point is off the plane and the normal is not a unit axis", 60000, 2000000)
{
  const Eigen::Index n = static_cast<Eigen::Index>(src.Size(1, 5));
  const Eigen::VectorXd origin = AnyVector(src, n, false);
  Eigen::VectorXd normal = AnyVector(src, n, false);
  if (!(normal.norm() > 0.01)) { normal = Eigen::VectorXd::Unit(n, static_cast<Eigen::Index>(src.Choose(static_cast<uint64_t>(n - 1)))); }
  if (src.Bool(1, 3)) { normal.normalize(); }
  const Eigen::VectorXd point = AnyVector(src, n, false);
  ctx << "origin " << Text(origin.transpose()) << " normal " << Text(normal.transpose()) << " point " << Text(point.transpose());
  const math::Hyperplane plane(origin, normal);
  const VectorXr o = R(origin);
  const VectorXr d = R(normal) / R(normal).norm();
  const VectorXr offset = R(point) - o;
  const Real height = offset.dot(d);
  const Real tolerance = 1e-14L * (1 + o.norm() + R(point).norm());
  PBT_CHECK("parts", plane.GetDimensionality() == static_cast<size_t>(n) && Difference(plane.GetOrigin(), origin) == 0 && Difference(plane.GetNormal(), normal) == 0, "the plane has another origin or normal");
  PBT_CHECK("distance", std::abs(plane.GetDistanceToPlane(point) - std::abs(height)) <= tolerance, "distance ", plane.GetDistanceToPlane(point), ", expected ", static_cast<double>(std::abs(height)));
  PBT_CHECK("squared-distance", std::abs(plane.GetSquaredDistanceToPlane(point) - height * height) <= tolerance * (1 + 2 * std::abs(height)), "squared distance ", plane.GetSquaredDistanceToPlane(point));
  const Eigen::VectorXd on = plane.ProjectPointOntoPlane(point);
  PBT_CHECK("project-point", Difference(on, (R(point) - height * d).eval()) <= 4 * tolerance, "projected point ", Text(on.transpose()));
  const VectorXr v = R(point);
  PBT_CHECK("project-vector", Difference(plane.ProjectVectorOntoPlane(point), (v - v.dot(d) * d).eval()) <= 4 * tolerance, "projected vector ", Text(plane.ProjectVectorOntoPlane(point).transpose()));
  PBT_CHECK("reject-vector", Difference(plane.RejectVectorOntoPlane(point), (v.dot(d) * d).eval()) <= 4 * tolerance, "rejected vector ", Text(plane.RejectVectorOntoPlane(point).transpose()));
  PBT_CHECK("dot", std::abs(plane.GetRawDotProduct(point) - offset.dot(R(normal))) <= tolerance * (1 + R(normal).norm()), "dot product ", plane.GetRawDotProduct(point));
  if (offset.norm() > 1e-6L)
  {
    PBT_CHECK("normed-dot", std::abs(plane.GetNormedDotProduct(point) - offset.dot(R(normal)) / offset.norm()) <= 1e-14L * (1 + R(normal).norm()) * (1 + (o.norm() + R(point).norm()) / offset.norm()), "dot product ", plane.GetNormedDotProduct(point));
  }
  PBT_CHECK("mismatch", pbt::ThrowsA<std::invalid_argument>([&] { math::Hyperplane(origin, Eigen::VectorXd::Ones(n + 1)); }), "a normal of another dimension was accepted");
  PBT_CHECK("empty", math::Hyperplane().GetDimensionality() == 0, "an empty plane has a dimension");
  if (std::abs(height) > 1e-3L && normal.cwiseAbs().maxCoeff() < 0.99 * normal.norm()) { ctx.Nontrivial(); }

  // A plane fitted to points: unit normal through the centroid, no direction has less spread.
  const size_t count = src.Size(1, 12);
  std::vector<Eigen::VectorXd> points;
  const bool flat = src.Bool();
  VectorXr centroid = VectorXr::Zero(n);
  for (size_t i = 0; i < count; i++)
  {
    Eigen::VectorXd p = AnyVector(src, n, false);
    if (flat) { p = plane.ProjectPointOntoPlane(p); }
    points.push_back(p);
    centroid += R(p);
  }
  centroid /= static_cast<Real>(count);
  const math::Hyperplane fitted = math::FitPlaneToPoints(points);
  Real size = 1 + centroid.norm();
  for (const auto& p : points) { size = std::max(size, R(p).norm()); }
  PBT_CHECK("fit-centroid", Difference(fitted.GetOrigin(), centroid) <= 1e-13L * size, "the plane goes through ", Text(fitted.GetOrigin().transpose()), ", the centroid is ", Text(centroid.transpose()));
  PBT_CHECK("fit-unit", std::abs(fitted.GetNormal().norm() - 1.0) <= 1e-12, "the normal has norm ", fitted.GetNormal().norm());
  Real spread = 0;
  for (const auto& p : points) { const Real h = (R(p) - centroid).dot(R(fitted.GetNormal())); spread += h * h; }
  if (flat || count < 2) { PBT_CHECK("fit-flat", std::sqrt(spread) <= 1e-12L * size * std::sqrt(Real(count)), "points of a plane are ", static_cast<double>(std::sqrt(spread)), " off the plane fitted to them"); }
  for (int trial = 0; trial < 3; trial++)
  {
    VectorXr direction = R(AnyVector(src, n, false));
    if (trial > 0) { direction = R(fitted.GetNormal()) + 0.05L * direction; }
    if (!(direction.norm() > 1e-3L)) { continue; }
    direction /= direction.norm();
    Real other = 0;
    for (const auto& p : points) { const Real h = (R(p) - centroid).dot(direction); other += h * h; }
    PBT_CHECK("fit-best", std::sqrt(spread) <= std::sqrt(other) + 1e-11L * size * std::sqrt(Real(count)), "the plane leaves ", static_cast<double>(std::sqrt(spread)), ", a plane across ", Text(direction.transpose()), " leaves ", static_cast<double>(std::sqrt(other)));
  }
}

PROP(Averages, "the weights differ and one is zero", 60000, 2000000)
{
  const size_t n = src.Bool(1, 12) ? src.Size(13, 80) : src.Size(1, 12);
  const bool weighted = src.Bool(3, 4);
  const double weight_scale = src.Bool(1, 6) ? std::pow(10.0, src.Unit() * 60.0 - 30.0) : 1.0;
  const bool same = src.Bool(1, 8);
  std::vector<double> weights;
  bool zero = false;
  bool differ = false;
  Real total = 0;
  for (size_t i = 0; i < n; i++)
  {
    const double w = src.Bool(1, 5) ? 0.0 : (src.Bool(1, 6) ? -1.0 : 1.0) * (src.Bool() ? static_cast<double>(src.Int(1, 5)) : geometry::Magnitude(src, -10, 10)) * weight_scale;
    if (weighted) { weights.push_back(w); zero = zero || w == 0.0; differ = differ || std::abs(w) != std::abs(weights.front()); }
    total += weighted ? std::abs(Real(w)) : 1;
  }
  std::vector<double> numbers;
  math::VectorVector3d v3;
  math::VectorVector4d v4;
  std::vector<Eigen::VectorXd> vx;
  std::vector<Eigen::Matrix<float, 2, 1>> v2f;
  const Eigen::Index dim = static_cast<Eigen::Index>(src.Size(1, 6));
  for (size_t i = 0; i < n; i++)
  {
    if (same && i > 0) { numbers.push_back(numbers[0]); v3.push_back(v3[0]); v4.push_back(v4[0]); vx.push_back(vx[0]); v2f.push_back(v2f[0]); continue; }
    numbers.push_back(src.Bool() ? static_cast<double>(src.Int(-5, 5)) : src.Real(-1000.0, 1000.0));
    v3.push_back(geometry::Vector(src));
    Eigen::Vector4d f;
    f << geometry::Vector(src), src.Real(-1.0, 1.0);
    v4.push_back(f);
    vx.push_back(AnyVector(src, dim, false));
    v2f.push_back(Eigen::Vector2f(static_cast<float>(src.Int(-9, 9)), static_cast<float>(src.Real(-1.0, 1.0))));
  }
  ctx << n << (weighted ? " weighted" : "") << " items";
  for (const double w : weights) { ctx << " " << w; }
  const auto weight = [&] (const size_t i) { return weighted ? std::abs(Real(weights[i])) : Real(1); };
  if (!(total > 0))
  {
    PBT_CHECK("all-zero", pbt::ThrowsA<std::invalid_argument>([&] { math::AverageStdVectorDouble(numbers, weights); }), "weights that are all zero were accepted");
    PBT_CHECK("all-zero", pbt::ThrowsA<std::invalid_argument>([&] { math::AverageEigenVector3d(v3, weights); }), "weights that are all zero were accepted");
    PBT_CHECK("all-zero", pbt::ThrowsA<std::invalid_argument>([&] { math::AverageEigenVectorXd(vx, weights); }), "weights that are all zero were accepted");
    return;
  }
  const auto check = [&] (const auto& items, const auto& average, const Real eps, const char* name)
  {
    VectorXr expected = VectorXr::Zero(items[0].size());
    Real size = 0;
    for (size_t i = 0; i < n; i++)
    {
      const VectorXr item = items[i].template cast<Real>();
      expected += weight(i) / total * item;
      size = std::max(size, item.norm());
    }
    PBT_CHECK("average", Difference(average, expected) <= eps * 4 * static_cast<Real>(n) * size, name, ": average ", Text(average.transpose()), ", expected ", Text(expected.transpose()));
    if (same) { PBT_CHECK("common", Difference(average, items[0]) <= 0, name, ": the average of equal items is another"); }
  };
  const Real eps = std::numeric_limits<double>::epsilon();
  check(v3, math::AverageEigenVector3d(v3, weights), eps, "Vector3d");
  check(v4, math::AverageEigenVector4d(v4, weights), eps, "Vector4d");
  check(vx, math::AverageEigenVectorXd(vx, weights), eps, "VectorXd");
  if (!weighted) { check(v2f, math::AverageEigenVector(v2f), std::numeric_limits<float>::epsilon(), "Vector2f"); }
  Real mean = 0;
  Real size = 0;
  for (size_t i = 0; i < n; i++) { mean += weight(i) / total * numbers[i]; size = std::max(size, std::abs(Real(numbers[i]))); }
  const Real tolerance = eps * 4 * static_cast<Real>(n) * size;
  PBT_CHECK("average-double", std::abs(math::AverageStdVectorDouble(numbers, weights) - mean) <= tolerance, "average ", math::AverageStdVectorDouble(numbers, weights), ", expected ", static_cast<double>(mean));
  PBT_CHECK("average-revolute", std::abs(math::AverageContinuousRevolute(numbers, weights) - mean) <= tolerance, "average ", math::AverageContinuousRevolute(numbers, weights), ", expected ", static_cast<double>(mean));
  // Sample standard deviation.
  Real plain = 0;
  for (const double x : numbers) { plain += Real(x) / static_cast<Real>(n); }
  Real squares = 0;
  for (const double x : numbers) { squares += (x - plain) * (x - plain); }
  const Real deviation = n == 1 ? 0 : std::sqrt(squares / static_cast<Real>(n - 1));
  PBT_CHECK("deviation", std::abs(math::ComputeStdDevStdVectorDouble(numbers) - deviation) <= 1e-12L * (1 + size), "deviation ", math::ComputeStdDevStdVectorDouble(numbers), ", expected ", static_cast<double>(deviation));
  const double about = src.Real(-10.0, 10.0);
  squares = 0;
  for (const double x : numbers) { squares += (x - Real(about)) * (x - Real(about)); }
  const Real around = n == 1 ? 0 : std::sqrt(squares / static_cast<Real>(n - 1));
  PBT_CHECK("deviation-about", std::abs(math::ComputeStdDevStdVectorDouble(numbers, about) - around) <= 1e-12L * (1 + size), "deviation about ", about, " ", math::ComputeStdDevStdVectorDouble(numbers, about));

  // Rejected input.
  const std::vector<double> wrong(src.Bool() ? n + 1 : (n > 1 ? n - 1 : n + 2), 1.0);
  PBT_CHECK("mismatch", pbt::ThrowsA<std::invalid_argument>([&] { math::AverageStdVectorDouble(numbers, wrong); }), "wrong number of weights");
  PBT_CHECK("mismatch", pbt::ThrowsA<std::invalid_argument>([&] { math::AverageEigenVector3d(v3, wrong); }), "wrong number of weights");
  PBT_CHECK("mismatch", pbt::ThrowsA<std::invalid_argument>([&] { math::AverageEigenVectorXd(vx, wrong); }), "wrong number of weights");
  PBT_CHECK("empty", pbt::ThrowsA<std::invalid_argument>([&] { math::AverageStdVectorDouble({}, {}); }), "average of nothing");
  PBT_CHECK("empty", pbt::ThrowsA<std::invalid_argument>([&] { math::AverageEigenVector3d({}, {}); }), "average of nothing");
  PBT_CHECK("empty", pbt::ThrowsA<std::invalid_argument>([&] { math::ComputeStdDevStdVectorDouble({}); }), "deviation of nothing");
  PBT_CHECK("empty", pbt::ThrowsA<std::invalid_argument>([&] { math::ComputeStdDevStdVectorDouble({}, 0.0); }), "deviation of nothing");
  if (zero && differ) { ctx.Nontrivial(); }
}

PROP(Rotations, "three rotations or more, not all equal, with a clear average", 40000, 1000000)
{
  const size_t n = src.Size(1, 8);
  const bool weighted = src.Bool();
  const bool close = src.Bool();
  const double weight_scale = src.Bool(1, 6) ? std::pow(10.0, src.Unit() * 20.0 - 10.0) : 1.0;
  const Eigen::Quaterniond base = geometry::Rotation(src);
  math::VectorQuaterniond rotations;
  math::VectorIsometry3d poses;
  std::vector<double> weights;
  for (size_t i = 0; i < n; i++)
  {
    Eigen::Quaterniond q = geometry::Rotation(src);
    if (close)
    {
      const double angle = src.Real(-0.5, 0.5);
      const Eigen::Vector3d axis = geometry::UnitVector(src);
      q = base * Eigen::Quaterniond(Eigen::AngleAxisd(angle, axis));
      if (src.Bool()) { q.coeffs() = -q.coeffs(); }
    }
    rotations.push_back(q);
    poses.push_back(geometry::Pose(geometry::Vector(src), q));
    if (weighted) { weights.push_back(src.Bool(1, 8) && i > 0 ? 0.0 : (src.Bool(1, 8) ? -1.0 : 1.0) * src.Real(0.1, 3.0) * weight_scale); }
  }
  ctx << n << " rotations" << (weighted ? ", weighted" : "");
  for (const auto& q : rotations) { ctx << " " << Text(q.coeffs().transpose()); }
  const std::vector<double> wrong(n + 1, 1.0);
  PBT_CHECK("mismatch", pbt::ThrowsA<std::invalid_argument>([&] { math::AverageEigenQuaterniond(rotations, wrong); }), "wrong number of weights");
  PBT_CHECK("mismatch", pbt::ThrowsA<std::invalid_argument>([&] { math::AverageEigenIsometry3d(poses, wrong); }), "wrong number of weights");
  PBT_CHECK("empty", pbt::ThrowsA<std::invalid_argument>([&] { math::AverageEigenQuaterniond({}, {}); }), "average of nothing");
  PBT_CHECK("empty", pbt::ThrowsA<std::invalid_argument>([&] { math::AverageEigenIsometry3d({}, {}); }), "average of nothing");
  if (n == 1)
  {
    PBT_CHECK("zero-weight", pbt::ThrowsA<std::invalid_argument>([&] { math::AverageEigenQuaterniond(rotations, {0.0}); }), "a single rotation of weight zero");
    PBT_CHECK("zero-weight", pbt::ThrowsA<std::invalid_argument>([&] { math::AverageEigenIsometry3d(poses, {0.0}); }), "a single pose of weight zero");
  }
  // The average maximises the sum of squared weighted dot products with the rotations.
  Eigen::Matrix<Real, 4, 4> moment = Eigen::Matrix<Real, 4, 4>::Zero();
  for (size_t i = 0; i < n; i++)
  {
    Eigen::Matrix<Real, 4, 1> c = rotations[i].coeffs().cast<Real>();
    const Real w = weighted ? Real(weights[i]) : 1;
    moment += w * w * c * c.transpose();
  }
  const Eigen::SelfAdjointEigenSolver<Eigen::Matrix<Real, 4, 4>> solver(moment);
  const auto values = solver.eigenvalues();
  const bool clear = values(3) - values(2) > 1e-3L * values(3);
  const Eigen::Quaterniond average = math::AverageEigenQuaterniond(rotations, weights);
  if (!clear) { return; }
  PBT_CHECK("unit", std::abs(average.norm() - 1.0) <= 1e-9, "an average of norm ", average.norm());
  const Eigen::Matrix<Real, 4, 1> c = average.coeffs().cast<Real>();
  PBT_CHECK("rotation", std::abs(std::abs(c.dot(solver.eigenvectors().col(3))) - 1) <= 1e-9L, "average ", Text(average.coeffs().transpose()), ", expected ", Text(solver.eigenvectors().col(3).transpose()));
  if (!weighted && n == 2)
  {
    const Real one = geometry::AngleBetween(geometry::Matrix(rotations[0]), geometry::Matrix(average));
    const Real two = geometry::AngleBetween(geometry::Matrix(average), geometry::Matrix(rotations[1]));
    PBT_CHECK("middle", std::abs(one - two) <= 1e-7L, "the average of two rotations is ", static_cast<double>(one), " and ", static_cast<double>(two), " from them");
  }
  // Order and sign do not matter.
  math::VectorQuaterniond shuffled = rotations;
  std::vector<double> shuffled_weights = weights;
  for (size_t i = n; i-- > 1;)
  {
    const size_t j = src.Choose(i);
    std::swap(shuffled[i], shuffled[j]);
    if (weighted) { std::swap(shuffled_weights[i], shuffled_weights[j]); }
    if (src.Bool()) { shuffled[i].coeffs() = -shuffled[i].coeffs(); }
  }
  const Eigen::Quaterniond again = math::AverageEigenQuaterniond(shuffled, shuffled_weights);
  PBT_CHECK("order", geometry::AngleBetween(geometry::Matrix(average), geometry::Matrix(again)) <= 1e-7L, "the average depends on the order");
  // Poses: both parts at once.
  Real total = 0;
  geometry::Vec3 mean = geometry::Vec3::Zero();
  for (size_t i = 0; i < n; i++)
  {
    const Real w = weighted ? std::abs(Real(weights[i])) : 1;
    total += w;
    mean += w * poses[i].translation().cast<Real>();
  }
  mean /= total;
  const Eigen::Isometry3d pose = math::AverageEigenIsometry3d(poses, weights);
  PBT_CHECK("pose-translation", Difference(Eigen::Vector3d(pose.translation()), mean) <= 1e-12L * 100, "average position ", Text(pose.translation().transpose()), ", expected ", Text(mean.transpose()));
  PBT_CHECK("pose-rotation", geometry::AngleBetween(pose.linear().cast<Real>(), geometry::Matrix(average)) <= 1e-7L, "average orientation differs from the average of the orientations");
  if (n >= 3) { ctx.Nontrivial(); }
}

PROP(Norms, "the weights differ and the vectors have at least two dimensions", 60000, 2000000)
{
  const Eigen::Index n = static_cast<Eigen::Index>(src.Size(1, 6));
  const Eigen::VectorXd a = AnyVector(src, n, false);
  const Eigen::VectorXd b = AnyVector(src, n, false);
  Eigen::VectorXd w(n);
  for (Eigen::Index i = 0; i < n; i++) { w(i) = src.Bool(1, 4) ? 1.0 : src.Real(0.0, 4.0); if (w(i) < 1e-50) { w(i) = 0.0; } }
  {
    // Weights of any sign are fine for the product.
    Eigen::VectorXd any = w;
    Real sum = 0;
    Real scale = 0;
    for (Eigen::Index i = 0; i < n; i++)
    {
      if (src.Bool(1, 3)) { any(i) = -any(i); }
      sum += Real(a(i)) * any(i) * b(i);
      scale += std::abs(Real(a(i)) * any(i) * b(i));
    }
    PBT_CHECK("dot", std::abs(math::WeightedDotProduct(a, b, any) - sum) <= 1e-14L * scale, "dot product ", math::WeightedDotProduct(a, b, any), ", expected ", static_cast<double>(sum), " with weights ", Text(any.transpose()));
  }
  ctx << Text(a.transpose()) << " " << Text(b.transpose()) << " weights " << Text(w.transpose());
  Real dot = 0;
  Real aa = 0;
  Real bb = 0;
  Real magnitude = 0;
  for (Eigen::Index i = 0; i < n; i++)
  {
    dot += Real(a(i)) * w(i) * b(i);
    aa += Real(a(i)) * w(i) * a(i);
    bb += Real(b(i)) * w(i) * b(i);
    magnitude += std::abs(Real(a(i)) * w(i) * b(i));
  }
  const Real eps = 1e-14L;
  PBT_CHECK("dot", std::abs(math::WeightedDotProduct(a, b, w) - dot) <= eps * magnitude, "dot product ", math::WeightedDotProduct(a, b, w), ", expected ", static_cast<double>(dot));
  PBT_CHECK("squared-norm", std::abs(math::WeightedSquaredNorm(a, w) - aa) <= eps * aa, "squared norm ", math::WeightedSquaredNorm(a, w), ", expected ", static_cast<double>(aa));
  PBT_CHECK("norm", std::abs(math::WeightedNorm(a, w) - std::sqrt(aa)) <= eps * std::sqrt(aa), "norm ", math::WeightedNorm(a, w), ", expected ", static_cast<double>(std::sqrt(aa)));
  if (aa > 1e-100L && bb > 1e-100L)
  {
    const Real cosine = std::max(Real(-1), std::min(Real(1), dot / (std::sqrt(aa) * std::sqrt(bb))));
    const double reported = math::WeightedCosineAngleBetweenVectors(a, b, w);
    PBT_CHECK("cosine", reported >= -1.0 && reported <= 1.0 && std::abs(reported - cosine) <= 1e-13L, "cosine ", reported, ", expected ", static_cast<double>(cosine));
    const double angle = math::WeightedAngleBetweenVectors(a, b, w);
    PBT_CHECK("angle", std::abs(angle - std::acos(cosine)) <= 1e-6L, "angle ", angle, ", expected ", static_cast<double>(std::acos(cosine)));
    PBT_CHECK("self-angle", math::WeightedAngleBetweenVectors(a, a, w) <= 1e-7 && math::WeightedAngleBetweenVectors(a, -a, w) >= M_PI - 1e-7, "the angle of a vector with itself or its opposite");
  }
  else if (aa == 0 || bb == 0)
  {
    PBT_CHECK("zero", pbt::ThrowsA<std::invalid_argument>([&] { math::WeightedCosineAngleBetweenVectors(a, b, w); }), "the angle with a vector without length");
    PBT_CHECK("zero", pbt::ThrowsA<std::invalid_argument>([&] { math::WeightedAngleBetweenVectors(a, b, w); }), "the angle with a vector without length");
  }

  // Distances and element-wise arithmetic of plain vectors.
  const std::vector<double> s(a.data(), a.data() + n);
  const std::vector<double> t(b.data(), b.data() + n);
  Real squared = 0;
  Real own = 0;
  Real sum = 0;
  Real absolute = 0;
  for (Eigen::Index i = 0; i < n; i++)
  {
    squared += (Real(b(i)) - a(i)) * (Real(b(i)) - a(i));
    own += Real(a(i)) * a(i);
    sum += a(i);
    absolute += std::abs(Real(a(i)));
  }
  const Real slack = eps * (1 + R(a).norm() + R(b).norm());
  PBT_CHECK("distance", std::abs(math::Distance(a, b) - std::sqrt(squared)) <= slack && std::abs(math::Distance(s, t) - std::sqrt(squared)) <= slack, "distance ", math::Distance(a, b), " and ", math::Distance(s, t), ", expected ", static_cast<double>(std::sqrt(squared)));
  PBT_CHECK("squared-distance", std::abs(math::SquaredDistance(a, b) - squared) <= slack * (1 + std::sqrt(squared)) * 2 && std::abs(math::SquaredDistance(s, t) - squared) <= slack * (1 + std::sqrt(squared)) * 2, "squared distance");
  if (n >= 2)
  {
    const Eigen::Vector2d a2 = a.head<2>();
    const Eigen::Vector2d b2 = b.head<2>();
    const Real d2 = (R(a) - R(b)).head(2).squaredNorm();
    PBT_CHECK("distance2", std::abs(math::Distance(a2, b2) - std::sqrt(d2)) <= slack && std::abs(math::SquaredDistance(a2, b2) - d2) <= slack * (1 + std::sqrt(d2)) * 2, "distance of Vector2d");
  }
  if (n >= 3)
  {
    const Eigen::Vector3d a3 = a.head<3>();
    const Eigen::Vector3d b3 = b.head<3>();
    const Real d3 = (R(a) - R(b)).head(3).squaredNorm();
    PBT_CHECK("distance3", std::abs(math::Distance(a3, b3) - std::sqrt(d3)) <= slack && std::abs(math::SquaredDistance(a3, b3) - d3) <= slack * (1 + std::sqrt(d3)) * 2, "distance of Vector3d");
  }
  PBT_CHECK("squared-norm-std", std::abs(math::SquaredNorm(s) - own) <= eps * own && std::abs(math::Norm(s) - std::sqrt(own)) <= eps * std::sqrt(own), "norm ", math::Norm(s));
  PBT_CHECK("sum", std::abs(math::Sum(s) - sum) <= eps * absolute, "sum ", math::Sum(s), ", expected ", static_cast<double>(sum));
  const double scalar = src.Bool(1, 4) ? 2.0 : src.Bool(1, 8) ? 0.0 : (src.Bool(1, 4) ? -1.0 : 1.0) * src.Real(0.5, 7.0);
  const auto same = [&] (const std::vector<double>& out, const std::function<Real(size_t)>& f, const char* name)
  {
    PBT_CHECK("elements", out.size() == s.size(), name, ": wrong size");
    for (size_t i = 0; i < s.size(); i++)
    {
      const Real expected = f(i);
      if (std::isnan(expected) && std::isnan(out[i])) { continue; }
      if (std::isinf(expected) && std::isinf(out[i]) && std::signbit(expected) == std::signbit(out[i])) { continue; }
      PBT_CHECK("elements", std::abs(out[i] - expected) <= 1e-15L * std::abs(expected) + slack * 0.1L * (name[0] == 'A' || name[0] == 'S' ? 1 : 0), name, ": element ", i, " is ", out[i], ", expected ", static_cast<double>(expected));
    }
  };
  same(math::Abs(s), [&] (size_t i) { return std::abs(Real(s[i])); }, "abs");
  same(math::Multiply(s, scalar), [&] (size_t i) { return Real(s[i]) * scalar; }, "product with a number");
  same(math::Multiply(s, t), [&] (size_t i) { return Real(s[i]) * t[i]; }, "product");
  same(math::Divide(s, scalar), [&] (size_t i) { return Real(s[i]) / scalar; }, "quotient by a number");
  same(math::Divide(s, t), [&] (size_t i) { return Real(s[i]) / t[i]; }, "quotient");
  same(math::Add(s, scalar), [&] (size_t i) { return Real(s[i]) + scalar; }, "Added number");
  same(math::Add(s, t), [&] (size_t i) { return Real(s[i]) + t[i]; }, "Addition");
  same(math::Sub(s, scalar), [&] (size_t i) { return Real(s[i]) - scalar; }, "Subtracted number");
  same(math::Sub(s, t), [&] (size_t i) { return Real(s[i]) - t[i]; }, "Subtraction");
  const std::vector<double> longer(s.size() + 1, 1.0);
  const std::vector<std::function<void(const std::vector<double>&, const std::vector<double>&)>> pairs = {
    [] (const auto& x, const auto& y) { math::Multiply(x, y); }, [] (const auto& x, const auto& y) { math::Divide(x, y); },
    [] (const auto& x, const auto& y) { math::Add(x, y); }, [] (const auto& x, const auto& y) { math::Sub(x, y); },
    [] (const auto& x, const auto& y) { math::Distance(x, y); }, [] (const auto& x, const auto& y) { math::SquaredDistance(x, y); }};
  for (const auto& f : pairs)
  {
    PBT_CHECK("mismatch", pbt::ThrowsA<std::invalid_argument>([&] { f(s, longer); }) && pbt::ThrowsA<std::invalid_argument>([&] { f(longer, s); }), "vectors of different lengths were accepted");
  }
  PBT_CHECK("mismatch", pbt::ThrowsA<std::invalid_argument>([&] { math::Distance(a, Eigen::VectorXd(Eigen::VectorXd::Zero(n + 1))); }), "vectors of different lengths were accepted");
  PBT_CHECK("mismatch", pbt::ThrowsA<std::invalid_argument>([&] { math::SquaredDistance(a, Eigen::VectorXd(Eigen::VectorXd::Zero(n + 1))); })
            && pbt::ThrowsA<std::invalid_argument>([&] { math::SquaredDistance(Eigen::VectorXd(Eigen::VectorXd::Zero(n + 1)), a); })
            && pbt::ThrowsA<std::invalid_argument>([&] { math::Distance(Eigen::VectorXd(Eigen::VectorXd::Zero(n + 1)), a); }), "vectors of different lengths were accepted");
  if (n >= 2 && w(0) != w(1)) { ctx.Nontrivial(); }
}

PROP(Multilinear, "the query is inside of the cell and the corners have at least five values", 60000, 2000000)
{
  Eigen::Vector3d low;
  Eigen::Vector3d high;
  Eigen::Vector3d query;
  for (int i = 0; i < 3; i++)
  {
    low(i) = src.Bool() ? static_cast<double>(src.Int(-3, 3)) : src.Real(-5.0, 5.0);
    high(i) = low(i) + (src.Bool() ? static_cast<double>(src.Int(1, 3)) : src.Real(0.1, 5.0));
    switch (src.Weighted({4, 1, 1, 1}))
    {
      case 0: query(i) = src.Real(low(i), high(i)); break;
      case 1: query(i) = low(i); break;
      case 2: query(i) = high(i); break;
      default: query(i) = src.Real(-10.0, 10.0); break;
    }
  }
  double corner[2][2][2];
  std::set<double> distinct;
  for (auto& plane : corner) { for (auto& row : plane) { for (double& c : row) { c = src.Bool() ? static_cast<double>(src.Int(-20, 20)) : src.Real(-10.0, 10.0); distinct.insert(c); } } }
  ctx << Text(low.transpose()) << " to " << Text(high.transpose()) << " at " << Text(query.transpose());
  const auto part = [&] (const int i) { return (Real(query(i)) - low(i)) / (Real(high(i)) - low(i)); };
  Real reach = 1;
  for (int i = 0; i < 3; i++) { reach *= 1 + 2 * std::abs(part(i)); }
  const Real tolerance = 1e-12L * reach * 20;
  const auto mix = [] (const Real r, const Real a, const Real b) { return (1 - r) * a + r * b; };
  Real by_z[2];
  for (int z = 0; z < 2; z++)
  {
    Real by_y[2];
    for (int y = 0; y < 2; y++) { by_y[y] = mix(part(0), corner[0][y][z], corner[1][y][z]); }
    by_z[z] = mix(part(1), by_y[0], by_y[1]);
    const double plane = math::BilinearInterpolate<double>(low.head<2>(), high.head<2>(), corner[0][0][z], corner[0][1][z], corner[1][0][z], corner[1][1][z], query.head<2>());
    PBT_CHECK("bilinear", std::abs(plane - by_z[z]) <= tolerance, "bilinear ", plane, ", expected ", static_cast<double>(by_z[z]));
  }
  const Real expected = mix(part(2), by_z[0], by_z[1]);
  const double line = math::LinearInterpolate<double>(low(0), high(0), corner[0][0][0], corner[1][0][0], query(0));
  PBT_CHECK("linear", std::abs(line - mix(part(0), corner[0][0][0], corner[1][0][0])) <= tolerance, "linear ", line);
  const double value = math::TrilinearInterpolate<double>(low, high, corner[0][0][0], corner[0][0][1], corner[0][1][0], corner[0][1][1], corner[1][0][0], corner[1][0][1], corner[1][1][0], corner[1][1][1], query);
  PBT_CHECK("trilinear", std::abs(value - expected) <= tolerance, "trilinear ", value, ", expected ", static_cast<double>(expected));
  const auto pair = [&] (const int x, const int y, const int z) { return Eigen::Vector3d(corner[x][y][z], -corner[x][y][z], 1.0); };
  const Eigen::Vector3d vector = math::TrilinearInterpolate<Eigen::Vector3d>(low, high, pair(0, 0, 0), pair(0, 0, 1), pair(0, 1, 0), pair(0, 1, 1), pair(1, 0, 0), pair(1, 0, 1), pair(1, 1, 0), pair(1, 1, 1), query);
  PBT_CHECK("trilinear-vector", Difference(vector, geometry::Vec3(expected, -expected, 1)) <= tolerance, "trilinear ", Text(vector.transpose()), ", expected ", static_cast<double>(expected));
  bool inside = true;
  for (int i = 0; i < 3; i++) { inside = inside && query(i) > low(i) && query(i) < high(i); }
  if (inside && distinct.size() >= 5) { ctx.Nontrivial(); }
}

PROP(DistanceMatrices, "two different data sets of at least two items", 20000, 500000)
{
  struct A { int x; };
  struct B { int x; };
  std::vector<A> first;
  std::deque<B> second;
  const size_t n = src.Size(0, 12);
  const size_t m = src.Size(0, 12);
  for (size_t i = 0; i < n; i++) { first.push_back({static_cast<int>(src.Int(0, 1000))}); }
  for (size_t i = 0; i < m; i++) { second.push_back({static_cast<int>(src.Int(0, 1000))}); }
  const par::DegreeOfParallelism degree = src.Bool() ? par::DegreeOfParallelism::None() : par::DegreeOfParallelism(static_cast<int32_t>(src.Int(1, 6)));
  ctx << n << " by " << m << ", " << degree.GetNumThreads() << " threads";
  const std::function<double(const A&, const B&)> distance = [] (const A& a, const B& b) { return static_cast<double>(a.x * 1000 + b.x); };
  const Eigen::MatrixXd across = math::BuildPairwiseDistanceMatrix<A, B, std::vector<A>, std::deque<B>>(first, second, distance, degree);
  PBT_CHECK("size", across.rows() == static_cast<Eigen::Index>(n) && across.cols() == static_cast<Eigen::Index>(m), across.rows(), " by ", across.cols());
  for (size_t i = 0; i < n; i++)
  {
    for (size_t j = 0; j < m; j++) { PBT_CHECK("across", across(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) == distance(first[i], second[j]), "entry ", i, " ", j); }
  }
  const std::function<double(const A&, const A&)> symmetric = [] (const A& a, const A& b) { return static_cast<double>(std::abs(a.x - b.x)); };
  const Eigen::MatrixXd within = math::BuildPairwiseDistanceMatrix<A>(first, symmetric, degree);
  PBT_CHECK("size", within.rows() == static_cast<Eigen::Index>(n) && within.cols() == static_cast<Eigen::Index>(n), within.rows(), " by ", within.cols());
  for (size_t i = 0; i < n; i++)
  {
    for (size_t j = 0; j < n; j++) { PBT_CHECK("within", within(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) == symmetric(first[i], first[j]), "entry ", i, " ", j); }
  }
  if (n >= 2 && m >= 2) { ctx.Nontrivial(); }
}
