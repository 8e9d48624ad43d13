// C27 Pose, rotation and vector conversions are mutually consistent
// PBT-UNSANITIZED: conversions.cpp
#include "geometry.hpp"

#include <common_robotics_utilities/conversions.hpp>

namespace conversions = common_robotics_utilities::conversions;
using geometry::AboutAxis;
using geometry::Difference;
using geometry::Mat3;
using geometry::Real;
using geometry::Text;
using geometry::Vec3;

namespace
{
double Angle(pbt::Src& src)
{
  // Now and then several turns away.
  return geometry::RotationAngle(src) + (src.Bool(1, 6) ? 2.0 * M_PI * static_cast<double>(src.Int(-5, 5)) : 0.0);
}

// Angles around which the middle rotation aligns the other two axes.
Eigen::Vector3d Angles(pbt::Src& src)
{
  Eigen::Vector3d out(Angle(src), Angle(src), Angle(src));
  if (src.Bool(1, 4))
  {
    out(1) = (src.Bool() ? 1.0 : -1.0) * (M_PI_2 + (src.Bool() ? 0.0 : (src.Bool() ? 1.0 : -1.0) * geometry::Magnitude(src, -50, -3)));
  }
  return out;
}

// Rotate about the body's x, then its y, then its z axis.
Mat3 BodyXYZ(const Eigen::Vector3d& a) { return AboutAxis(Vec3::UnitX(), a(0)) * AboutAxis(Vec3::UnitY(), a(1)) * AboutAxis(Vec3::UnitZ(), a(2)); }

// Rotate about the fixed x, then the fixed y, then the fixed z axis.
Mat3 FixedXYZ(const Eigen::Vector3d& a) { return AboutAxis(Vec3::UnitZ(), a(2)) * AboutAxis(Vec3::UnitY(), a(1)) * AboutAxis(Vec3::UnitX(), a(0)); }

constexpr Real TOL = 1e-13L;

void CheckRotation(const Eigen::Quaterniond& q, const Mat3& expected, const char* what)
{
  PBT_CHECK("unit", std::abs(Real(q.norm()) - 1) <= TOL, what, ": a quaternion of norm ", q.norm());
  PBT_CHECK("rotation", Difference(geometry::Matrix(q), expected) <= TOL, what, ": rotation ", Text(geometry::Matrix(q)), ", expected ", Text(expected));
}

void CheckPose(const Eigen::Isometry3d& t, const Mat3& expected, const Eigen::Vector3d& translation, const char* what)
{
  PBT_CHECK("pose-rotation", Difference(t.linear(), expected) <= TOL, what, ": rotation ", Text(t.linear()), ", expected ", Text(expected));
  PBT_CHECK("pose-translation", Difference(Eigen::Vector3d(t.translation()), translation) == 0, what, ": translation ", Text(t.translation()), ", expected ", Text(translation));
  PBT_CHECK("pose-affine", t.matrix()(3, 0) == 0 && t.matrix()(3, 1) == 0 && t.matrix()(3, 2) == 0 && t.matrix()(3, 3) == 1, what, ": the last row is not that of a transform");
}

void CheckAngles(const Eigen::Vector3d& angles, const Mat3& rotation, const char* what)
{
  PBT_CHECK("angles-range", angles.cwiseAbs().maxCoeff() <= M_PI + 1e-12, what, ": angles ", Text(angles.transpose()));
  PBT_CHECK("angles", Difference(BodyXYZ(angles), rotation) <= 1e-12L, what, ": angles ", Text(angles.transpose()), " make ", Text(BodyXYZ(angles)), ", expected ", Text(rotation));
}
}  // namespace

PROP(FromAngles, "all three angles turn and none is a multiple of a right angle", 60000, 3000000)
{
  const Eigen::Vector3d a = Angles(src);
  const Eigen::Vector3d v = geometry::Vector(src, src.Bool() ? 10.0 : 1e6);
  ctx << "angles " << Text(a.transpose()) << " translation " << Text(v.transpose());
  Eigen::VectorXd six(6);
  six << v, a;
  const Mat3 body = BodyXYZ(a);
  CheckRotation(conversions::QuaternionFromRPY(a(0), a(1), a(2)), body, "QuaternionFromRPY");
  CheckPose(conversions::TransformFromXYZRPY(v(0), v(1), v(2), a(0), a(1), a(2)), body, v, "TransformFromXYZRPY");
  CheckPose(conversions::TransformFromRPY(v, a), body, v, "TransformFromRPY of two vectors");
  CheckPose(conversions::TransformFromRPY(six), body, v, "TransformFromRPY of six numbers");
  const Mat3 fixed = FixedXYZ(a);
  CheckRotation(conversions::QuaternionFromUrdfRPY(a(0), a(1), a(2)), fixed, "QuaternionFromUrdfRPY");
  CheckPose(conversions::TransformFromUrdfXYZRPY(v(0), v(1), v(2), a(0), a(1), a(2)), fixed, v, "TransformFromUrdfXYZRPY");
  CheckPose(conversions::TransformFromUrdfRPY(v, a), fixed, v, "TransformFromUrdfRPY of two vectors");
  CheckPose(conversions::TransformFromUrdfRPY(six), fixed, v, "TransformFromUrdfRPY of six numbers");
  bool general = true;
  for (int i = 0; i < 3; i++) { general = general && std::abs(std::remainder(a(i), M_PI_2)) > 1e-3; }
  if (general) { ctx.Nontrivial(); }
  ctx.Label("gimbal", std::abs(std::abs(a(1)) - M_PI_2) < 1e-3);

  // Back to angles.
  CheckAngles(conversions::EulerAnglesFromQuaternion(conversions::QuaternionFromRPY(a(0), a(1), a(2))), body, "there and back");
  const Eigen::VectorXd back = conversions::TransformToRPY(conversions::TransformFromRPY(six));
  PBT_CHECK("six", back.size() == 6, "TransformToRPY gives ", back.size(), " numbers");
  PBT_CHECK("six", Difference(Eigen::Vector3d(back.head<3>()), v) == 0, "translation ", Text(back.transpose()));
  CheckAngles(back.tail<3>(), body, "TransformToRPY");
}

PROP(ToAngles, "the rotation is about no principal axis", 60000, 3000000)
{
  const Eigen::Quaterniond q = geometry::Rotation(src);
  const Eigen::Vector3d v = geometry::Vector(src, 1e3);
  const Mat3 rotation = geometry::Matrix(q);
  const Eigen::Matrix3d matrix = rotation.cast<double>();
  const Eigen::Isometry3d pose = geometry::Pose(v, q);
  ctx << "quaternion " << Text(q.coeffs().transpose()) << " translation " << Text(v.transpose());
  CheckAngles(conversions::EulerAnglesFromRotationMatrix(matrix), rotation, "EulerAnglesFromRotationMatrix");
  CheckAngles(conversions::EulerAnglesFromQuaternion(q), rotation, "EulerAnglesFromQuaternion");
  CheckAngles(conversions::EulerAnglesFromIsometry3d(pose), rotation, "EulerAnglesFromIsometry3d");
  const Eigen::VectorXd six = conversions::TransformToRPY(pose);
  PBT_CHECK("six", six.size() == 6 && Difference(Eigen::Vector3d(six.head<3>()), v) == 0, "TransformToRPY gives ", Text(six.transpose()));
  CheckAngles(six.tail<3>(), rotation, "TransformToRPY");
  const Eigen::Isometry3d again = conversions::TransformFromRPY(six);
  PBT_CHECK("round-trip", Difference(again.matrix(), pose.matrix()) <= 1e-12L, "the pose returns as ", Text(again.matrix()), ", was ", Text(pose.matrix()));
  // All the routes agree.
  const Eigen::Vector3d a = six.tail<3>();
  PBT_CHECK("routes", Difference(conversions::TransformFromRPY(v, a).matrix(), again.matrix()) <= TOL, "TransformFromRPY of two vectors and of six numbers differ");
  PBT_CHECK("routes", Difference(conversions::QuaternionFromRPY(a(0), a(1), a(2)).toRotationMatrix(), again.linear()) <= TOL, "QuaternionFromRPY and TransformFromRPY differ");
  // A rotation in one order is the inverse of its negation in the other order.
  const Eigen::Matrix3d reversed = conversions::QuaternionFromUrdfRPY(-a(0), -a(1), -a(2)).toRotationMatrix().transpose();
  PBT_CHECK("orders", Difference(reversed, again.linear()) <= TOL, "the two orders are not each other's inverse");
  if (q.vec().cwiseAbs().minCoeff() > 1e-3) { ctx.Nontrivial(); }
}

PROP(Containers, "at least two elements, not all alike", 30000, 1000000)
{
  const size_t n = src.Bool(1, 12) ? src.Size(13, 3000) : src.Size(0, 12);
  std::vector<double> values(n);
  std::set<double> distinct;
  for (double& v : values) { v = src.Bool(1, 3) ? static_cast<double>(src.Int(-5, 5)) : src.AnyReal(1e3); if (std::isnan(v)) { v = 7.0; } distinct.insert(v); }
  for (const double v : values) { ctx << v << " "; }
  const Eigen::VectorXd eigen = conversions::StdVectorDoubleToEigenVectorXd(values);
  PBT_CHECK("vector", eigen.size() == static_cast<Eigen::Index>(n) && std::equal(values.begin(), values.end(), eigen.data()), "the vector became ", Text(eigen.transpose()));
  PBT_CHECK("vector-back", conversions::EigenVectorXdToStdVectorDouble(eigen) == values, "the vector did not come back");
  PBT_CHECK("three", pbt::ThrowsA<std::invalid_argument>([&] { conversions::StdVectorDoubleToEigenVector3d(values); }) == (n != 3), "a vector of ", n, " as Vector3d");
  PBT_CHECK("four", pbt::ThrowsA<std::invalid_argument>([&] { conversions::StdVectorDoubleToEigenQuaterniond(values); }) == (n != 4), "a vector of ", n, " as quaternion");
  PBT_CHECK("six", pbt::ThrowsA<std::invalid_argument>([&] { conversions::TransformFromRPY(eigen); }) == (n != 6), "a vector of ", n, " as pose");
  PBT_CHECK("six", pbt::ThrowsA<std::invalid_argument>([&] { conversions::TransformFromUrdfRPY(eigen); }) == (n != 6), "a vector of ", n, " as pose");
  if (n >= 3)
  {
    const std::vector<double> three(values.begin(), values.begin() + 3);
    const Eigen::Vector3d v = conversions::StdVectorDoubleToEigenVector3d(three);
    PBT_CHECK("three", v(0) == three[0] && v(1) == three[1] && v(2) == three[2], "the vector became ", Text(v.transpose()));
    PBT_CHECK("three-back", conversions::EigenVector3dToStdVectorDouble(v) == three, "the vector did not come back");
  }
  if (n >= 4)
  {
    // x, y, z, w
    const std::vector<double> four(values.begin(), values.begin() + 4);
    const Eigen::Quaterniond q = conversions::StdVectorDoubleToEigenQuaterniond(four);
    PBT_CHECK("four", q.x() == four[0] && q.y() == four[1] && q.z() == four[2] && q.w() == four[3], "the quaternion became ", Text(q.coeffs().transpose()));
    PBT_CHECK("four-back", conversions::EigenQuaterniondToStdVectorDouble(q) == four, "the quaternion did not come back");
  }
  if (n >= 2 && distinct.size() >= 2) { ctx.Nontrivial(); }
}
