// C25 Rigid body motion algebra and interpolation
// PBT-UNSANITIZED: math.cpp
// PBT-VARIANTS: plain
#include "geometry.hpp"

#include <common_robotics_utilities/math.hpp>

namespace math = common_robotics_utilities::math;
using geometry::Difference;
using geometry::Mat3;
using geometry::Mat4;
using geometry::Real;
using geometry::Text;
using geometry::Vec3;
using Twist = Eigen::Matrix<double, 6, 1>;

namespace
{
Mat3 Hat(const Vec3& v)
{
  Mat3 m;
  m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
  return m;
}

Mat4 Hat6(const Twist& twist)
{
  Mat4 m = Mat4::Zero();
  m.topLeftCorner<3, 3>() = Hat(twist.tail<3>().cast<Real>());
  m.topRightCorner<3, 1>() = twist.head<3>().cast<Real>();
  return m;
}

Twist MakeTwist(pbt::Src& src)
{
  Twist out;
  out.head<3>() = geometry::Vector(src, src.Bool(1, 6) ? 1000.0 : 5.0);
  switch (src.Weighted({4, 2, 1, 1}))
  {
    case 0: out.tail<3>() = geometry::UnitVector(src) * geometry::RotationAngle(src); break;
    case 1: out.tail<3>() = geometry::Vector(src, 5.0); break;
    case 2: out.tail<3>().setZero(); break;
    default: out.tail<3>() = geometry::UnitVector(src) * std::ldexp(1.0, -static_cast<int>(src.Choose(300))); break;
  }
  return out;
}

bool IsRigid(const Eigen::Isometry3d& t, const Real tolerance)
{
  const Mat3 r = t.matrix().topLeftCorner<3, 3>().cast<Real>();
  return Difference((r * r.transpose()).eval(), Mat3(Mat3::Identity())) <= tolerance && r.determinant() > 0
      && t.matrix()(3, 0) == 0.0 && t.matrix()(3, 1) == 0.0 && t.matrix()(3, 2) == 0.0 && t.matrix()(3, 3) == 1.0;
}
}  // namespace

PROP(Hats, "no component is zero", 300000, 6000000)
{
  const Eigen::Vector3d v = geometry::Vector(src, 100.0);
  const Eigen::Vector3d w = geometry::Vector(src, 100.0);
  ctx << Text(v.transpose()) << " " << Text(w.transpose());
  const Eigen::Matrix3d skewed = math::Skew(v);
  PBT_CHECK("skew", Difference(skewed, Hat(v.cast<Real>())) == 0, Text(skewed));
  PBT_CHECK("skew-cross", Difference((skewed * w).eval(), v.cast<Real>().eval().cross(w.cast<Real>().eval())) <= 1e-14L * (1 + v.cast<Real>().norm() * w.cast<Real>().norm()), "the skew matrix does not act as the cross product");
  PBT_CHECK("unskew", Difference(math::Unskew(skewed), v) == 0, Text(math::Unskew(skewed)));
  // The symmetric part of a matrix has no influence.
  Eigen::Matrix3d symmetric = Eigen::Matrix3d::Zero();
  for (int i = 0; i < 3; i++) { for (int j = i; j < 3; j++) { symmetric(i, j) = symmetric(j, i) = static_cast<double>(src.Int(-8, 8)); } }
  PBT_CHECK("unskew-symmetric", Difference(math::Unskew(skewed + symmetric), v) <= 1e-14L * (10 + v.cast<Real>().norm()), Text(math::Unskew(skewed + symmetric)));
  Twist twist;
  twist << v, w;
  const Eigen::Matrix4d hatted = math::TwistHat(twist);
  PBT_CHECK("twist-hat", Difference(hatted, Hat6(twist)) == 0, Text(hatted));
  PBT_CHECK("twist-unhat", Difference(math::TwistUnhat(hatted), twist) == 0, Text(math::TwistUnhat(hatted)));
  if (v.x() * v.y() * v.z() * w.x() * w.y() * w.z() != 0.0) { ctx.Nontrivial(); }
}

PROP(Adjoints, "neither transform is a pure translation or rotation", 300000, 6000000)
{
  const Eigen::Isometry3d a = geometry::Pose(src);
  const Eigen::Isometry3d b = geometry::Pose(src);
  const Twist twist = MakeTwist(src);
  ctx << Text(a.matrix()) << " " << Text(b.matrix()) << " " << Text(twist.transpose());
  const Real size = (1 + Real(a.translation().norm())) * (1 + Real(b.translation().norm()));
  const auto ad_a = math::AdjointFromTransform(a);
  const auto ad_b = math::AdjointFromTransform(b);
  PBT_CHECK("product", Difference(math::AdjointFromTransform(a * b), (ad_a * ad_b).eval()) <= 1e-13L * size, "the adjoint of the product is not the product of the adjoints");
  PBT_CHECK("inverse", Difference((math::AdjointFromTransform(a.inverse()) * ad_a).eval(), Eigen::Matrix<double, 6, 6>(Eigen::Matrix<double, 6, 6>::Identity())) <= 1e-13L * (1 + Real(a.translation().norm())) * (1 + Real(a.translation().norm())), "the adjoint of the inverse is not the inverse");
  const Twist moved = math::TransformTwist(a, twist);
  PBT_CHECK("transform", Difference(moved, (ad_a * twist).eval()) <= 1e-13L * size * (1 + twist.norm()), Text(moved.transpose()));
  const Mat4 ma = geometry::Matrix4(a);
  Mat4 inverse = Mat4::Identity();
  inverse.topLeftCorner<3, 3>() = ma.topLeftCorner<3, 3>().transpose();
  inverse.topRightCorner<3, 1>() = -inverse.topLeftCorner<3, 3>() * ma.topRightCorner<3, 1>();
  const Mat4 conjugated = ma * Hat6(twist) * inverse;
  PBT_CHECK("conjugation", Difference(math::TwistHat(moved), conjugated) <= 1e-13L * size * (1 + twist.norm()), "transformed twist ", Text(moved.transpose()), ", by conjugation ", Text(conjugated));
  const auto pure = [] (const Eigen::Isometry3d& t) { return t.translation().norm() == 0.0 || Difference(t.linear(), Eigen::Matrix3d(Eigen::Matrix3d::Identity())) == 0; };
  if (!pure(a) && !pure(b)) { ctx.Nontrivial(); }
}

PROP(Exponentials, "the twist has both rotation and translation", 300000, 6000000)
{
  const Twist twist = MakeTwist(src);
  double dt = src.Real(-2.0, 2.0);
  if (src.Bool(1, 3)) { dt = static_cast<double>(src.Int(-1, 2)); }
  ctx << Text(twist.transpose()) << " for " << dt;
  const Eigen::Isometry3d moved = math::ExpTwist(twist, dt);
  const Real travel = std::abs(Real(dt)) * twist.head<3>().norm();
  const Real turn = std::abs(Real(dt)) * twist.tail<3>().norm();
  PBT_CHECK("rigid", IsRigid(moved, 1e-13L), "the exponential is not a rigid transform: ", Text(moved.matrix()));
  // Rotations around 1e-8 lose about half of the digits of the translation.
  const Mat4 expected = geometry::Exponential(Hat6(twist) * Real(dt));
  PBT_CHECK("rotation", Difference(Eigen::Matrix3d(moved.linear()), Mat3(expected.topLeftCorner<3, 3>())) <= 1e-13L * (1 + turn), "rotation ", Text(Eigen::Matrix3d(moved.linear())), ", expected ", Text(Mat3(expected.topLeftCorner<3, 3>())));
  PBT_CHECK("translation", Difference(Eigen::Vector3d(moved.translation()), Vec3(expected.topRightCorner<3, 1>())) <= 1e-7L * (travel + 1e-30L), "translation ", Text(moved.translation().transpose()), ", expected ", Text(Vec3(expected.topRightCorner<3, 1>()).transpose()));
  if (turn > 1e-3L || turn == 0)
  {
    PBT_CHECK("translation-exact", Difference(Eigen::Vector3d(moved.translation()), Vec3(expected.topRightCorner<3, 1>())) <= 1e-11L * (travel + 1e-30L), "translation ", Text(moved.translation().transpose()), ", expected ", Text(Vec3(expected.topRightCorner<3, 1>()).transpose()));
  }
  // Motions along one twist add up.
  const double more = src.Real(-1.0, 1.0);
  const Eigen::Isometry3d summed = math::ExpTwist(twist, dt) * math::ExpTwist(twist, more);
  const Eigen::Isometry3d direct = math::ExpTwist(twist, dt + more);
  PBT_CHECK("additive", Difference(summed.matrix(), direct.matrix()) <= 1e-6L * (1 + travel + twist.head<3>().norm()) * (1 + turn), "motions for ", dt, " and ", more, " do not add up");

  // Rotation about a unit axis.
  const Eigen::Vector3d axis = geometry::UnitVector(src);
  const double angle = src.Bool() ? geometry::RotationAngle(src) : src.Real(-20.0, 20.0);
  const Eigen::Matrix3d rotation = math::ExpMatrixExact(math::Skew(axis), angle);
  PBT_CHECK("axis", Difference(rotation, geometry::AboutAxis(axis.cast<Real>(), angle)) <= 1e-14L * (4 + std::abs(Real(angle))), "rotation by ", angle, " about ", Text(axis.transpose()), " is ", Text(rotation));
  const double off = std::pow(10.0, -8.0 + 8.0 * src.Unit());
  const double scale = src.Bool() ? src.Real(0.0, 0.99) : src.Bool() ? src.Real(1.01, 3.0) : src.Bool() ? 1.0 + off : 1.0 - 0.9 * off;
  PBT_CHECK("axis-length", pbt::ThrowsA<std::invalid_argument>([&] { math::ExpMatrixExact(math::Skew(axis * scale), angle); }), "an axis of length ", scale, " was accepted");
  if (travel > 0 && turn > 0) { ctx.Nontrivial(); }
}

PROP(Logarithms, "the poses differ in rotation and translation", 100000, 2000000)
{
  const Eigen::Isometry3d start = geometry::Pose(src);
  Eigen::Isometry3d end = geometry::Pose(src);
  if (src.Bool(1, 3)) { end = start * math::ExpTwist(MakeTwist(src) * 0.3, 1.0); }
  const Real angle = geometry::AngleBetween(start.linear().cast<Real>(), end.linear().cast<Real>());
  ctx << Text(start.matrix()) << " to " << Text(end.matrix()) << " angle " << static_cast<double>(angle);
  if (angle > M_PI - 1e-3) { return; }  // No unique least motion.
  const Twist twist = math::TwistBetweenTransforms(start, end);
  const Real size = 10 + start.translation().norm() + end.translation().norm();
  const Mat4 reached = geometry::Matrix4(start) * geometry::Exponential(Hat6(twist));
  PBT_CHECK("reaches", Difference(reached, geometry::Matrix4(end)) <= 1e-8L * size, "the twist ", Text(twist.transpose()), " leads to ", Text(reached));
  PBT_CHECK("least", std::abs(twist.tail<3>().cast<Real>().norm() - angle) <= 1e-7L, "rotation by ", twist.tail<3>().norm(), ", the poses are ", static_cast<double>(angle), " apart");
  const Eigen::Isometry3d moved = start * math::ExpTwist(twist, 1.0);
  PBT_CHECK("exp-log", Difference(moved.matrix(), end.matrix()) <= 1e-6L * size, "moving along the twist leads to ", Text(moved.matrix()));
  // The logarithm of an exponential.
  Twist small = MakeTwist(src);
  const double turn = small.tail<3>().norm();
  if (turn > 3.0) { small.tail<3>() *= 3.0 / turn; }
  const Twist again = math::TwistBetweenTransforms(start, start * math::ExpTwist(small, 1.0));
  PBT_CHECK("log-exp", Difference(again, small) <= 1e-6L * (size + small.norm()), "the logarithm of the exponential of ", Text(small.transpose()), " is ", Text(again.transpose()));
  if (angle > 1e-6L && (start.translation() - end.translation()).norm() > 1e-6) { ctx.Nontrivial(); }
}

PROP(Interpolation, "the rotations are over 0.1 apart and the ratio is strictly between the ends", 300000, 6000000)
{
  const Eigen::Vector3d v1 = geometry::Vector(src);
  const Eigen::Vector3d v2 = geometry::Vector(src);
  const Eigen::Quaterniond q1 = geometry::Rotation(src);
  const Eigen::Quaterniond q2 = geometry::Rotation(src);
  double ratio = src.Real(0.0, 1.0);
  if (src.Bool(1, 4)) { ratio = src.Bool() ? 0.0 : 1.0; }
  if (src.Bool(1, 8)) { ratio = src.Real(-2.0, 3.0); }
  const Real r = std::min(1.0, std::max(0.0, ratio));
  ctx << Text(v1.transpose()) << " " << Text(v2.transpose()) << " " << Text(q1.coeffs().transpose()) << " " << Text(q2.coeffs().transpose()) << " ratio " << ratio;
  const Mat3 m1 = geometry::Matrix(q1);
  const Mat3 m2 = geometry::Matrix(q2);
  const Real apart = geometry::AngleBetween(m1, m2);

  const auto check_rotation = [&] (const Mat3& m, const char* name)
  {
    const Real from = geometry::AngleBetween(m1, m);
    const Real to = geometry::AngleBetween(m, m2);
    PBT_CHECK("rotation-rate", std::abs(from - r * apart) <= 1e-7L, name, ": ", static_cast<double>(from), " from the start, the ends are ", static_cast<double>(apart), " apart");
    PBT_CHECK("rotation-way", std::abs(to - (1 - r) * apart) <= 1e-7L, name, ": ", static_cast<double>(to), " from the end, the ends are ", static_cast<double>(apart), " apart");
  };
  const auto check_linear = [&] (const auto& a, const auto& b, const auto& between, const char* name)
  {
    PBT_CHECK("size", between.size() == a.size(), name, ": wrong size");
    for (Eigen::Index i = 0; i < a.size(); i++)
    {
      const Real expected = Real(a(i)) * (1 - r) + Real(b(i)) * r;
      PBT_CHECK("linear", std::abs(Real(between(i)) - expected) <= 4e-16L * (std::abs(Real(a(i))) + std::abs(Real(b(i)))), name, ": ", between(i), " between ", a(i), " and ", b(i));
      if (ratio >= 1.0) { PBT_CHECK("linear-end", between(i) == b(i), name, " ends at ", between(i)); }
      if (ratio <= 0.0) { PBT_CHECK("linear-start", between(i) == a(i), name, " starts at ", between(i)); }
    }
  };
  const Eigen::Quaterniond q = math::Interpolate(q1, q2, ratio);
  PBT_CHECK("unit", std::abs(q.norm() - 1.0) <= 1e-7, "a quaternion of norm ", q.norm());
  check_rotation(geometry::Matrix(q), "quaternion");
  check_linear(v1, v2, math::Interpolate3d(v1, v2, ratio), "Vector3d");
  const Eigen::Isometry3d pose = math::Interpolate(geometry::Pose(v1, q1), geometry::Pose(v2, q2), ratio);
  check_rotation(pose.linear().cast<Real>(), "pose");
  check_linear(v1, v2, pose.translation(), "pose");
  PBT_CHECK("pose-rigid", IsRigid(pose, 1e-7L), "the interpolated pose is not rigid");

  const Eigen::Index n = static_cast<Eigen::Index>(src.Size(0, 8));
  Eigen::VectorXd x1(n);
  Eigen::VectorXd x2(n);
  for (Eigen::Index i = 0; i < n; i++) { x1(i) = src.AnyReal(1000.0); x2(i) = src.AnyReal(1000.0); }
  check_linear(x1, x2, math::InterpolateXd(x1, x2, ratio), "VectorXd");
  const std::vector<double> s1(x1.data(), x1.data() + n);
  const std::vector<double> s2(x2.data(), x2.data() + n);
  const std::vector<double> s = math::Interpolate(s1, s2, ratio);
  PBT_CHECK("size", s.size() == s1.size(), "wrong size");
  check_linear(x1, x2, Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(s.data(), n)), "std::vector");
  for (Eigen::Index i = 0; i < n; i++)
  {
    Eigen::VectorXd a(1);
    Eigen::VectorXd b(1);
    Eigen::VectorXd c(1);
    a << x1(i);
    b << x2(i);
    c << math::Interpolate(x1(i), x2(i), ratio);
    check_linear(a, b, c, "double");
  }
  const Eigen::Vector4d f1(v1.x(), v1.y(), v1.z(), v2.x());
  const Eigen::Vector4d f2(v2.y(), v2.x(), v2.z(), v1.y());
  check_linear(f1, f2, math::Interpolate4d(f1, f2, ratio), "Vector4d");
  const Eigen::VectorXd longer = Eigen::VectorXd::Zero(n + 1);
  PBT_CHECK("mismatch", pbt::ThrowsA<std::invalid_argument>([&] { math::InterpolateXd(x1, longer, ratio); }), "vectors of different lengths were interpolated");
  PBT_CHECK("mismatch", pbt::ThrowsA<std::invalid_argument>([&] { math::Interpolate(std::vector<double>(s1.size() + 1), s2, ratio); }), "vectors of different lengths were interpolated");
  PBT_CHECK("mismatch", pbt::ThrowsA<std::invalid_argument>([&] { math::Interpolate(s1, std::vector<double>(s1.size() + 1), ratio); }), "vectors of different lengths were interpolated");
  if (apart > 0.1L && r > 0 && r < 1) { ctx.Nontrivial(); }
}

PROP(Distances, "the poses differ in rotation and translation", 300000, 6000000)
{
  const Eigen::Isometry3d a = geometry::Pose(src);
  const Eigen::Isometry3d b = geometry::Pose(src);
  const Eigen::Quaterniond qa(a.linear());
  Eigen::Quaterniond qb(b.linear());
  if (src.Bool()) { qb.coeffs() = -qb.coeffs(); }
  double alpha = src.Real(0.0, 1.0);
  if (src.Bool(1, 6)) { alpha = src.Real(-2.0, 3.0); }
  const Real weight = std::min(1.0, std::max(0.0, alpha));
  ctx << Text(a.matrix()) << " " << Text(b.matrix()) << " alpha " << alpha;
  const Real apart = geometry::AngleBetween(geometry::Matrix(qa), geometry::Matrix(qb));
  const double rotation = math::Distance(qa, qb);
  PBT_CHECK("rotation", std::abs(rotation - apart) <= 1e-7L, "rotations reported ", rotation, " apart, they are ", static_cast<double>(apart));
  PBT_CHECK("symmetric", std::abs(rotation - math::Distance(qb, qa)) <= 1e-7, "distances there and back differ");
  PBT_CHECK("self", math::Distance(qa, qa) <= 1e-7, "distance to itself");
  Eigen::Quaterniond opposite = qa;
  opposite.coeffs() = -opposite.coeffs();
  PBT_CHECK("same-rotation", math::Distance(qa, opposite) <= 1e-7 && math::Distance(opposite, qa) <= 1e-7, "the two quaternions of one rotation are ", math::Distance(qa, opposite), " apart");
  const Real travel = (a.translation().cast<Real>() - b.translation().cast<Real>()).norm();
  const double pose = math::Distance(a, b, alpha);
  PBT_CHECK("pose", std::abs(pose - (travel * (1 - weight) + apart * weight)) <= 1e-7L * (1 + travel), "poses reported ", pose, " apart, they are ", static_cast<double>(travel), " and ", static_cast<double>(apart), " apart");
  const double half = math::Distance(a, b);
  PBT_CHECK("pose-default", std::abs(half - (travel + apart) / 2) <= 1e-7L * (1 + travel), "poses reported ", half, " apart, they are ", static_cast<double>(travel), " and ", static_cast<double>(apart), " apart");
  if (travel > 0 && apart > 1e-6L) { ctx.Nontrivial(); }
}
