// C35 ROS message conversions and helpers, against stand-ins for the messages
// PBT-VARIANTS: ros2 ros1
// PBT-SOURCES: ros_conversions.cpp
#include "pbt.hpp"

#include <random>

#include <common_robotics_utilities/ros_conversions.hpp>
#include <common_robotics_utilities/ros_helpers.hpp>

namespace rc = common_robotics_utilities::ros_conversions;
namespace rh = common_robotics_utilities::ros_helpers;
namespace math = common_robotics_utilities::math;

namespace
{
double Number(pbt::Src& src)
{
  switch (src.Choose(4))
  {
    case 0: return static_cast<double>(src.Int(-3, 3));
    case 1: return src.Real(-1.0, 1.0);
    case 2: return src.Real(-1e6, 1e6);
    case 3: return 5e-324 * static_cast<double>(src.Choose(3));
    default: return src.Bool() ? 1.7976931348623157e308 : -1e300;
  }
}

Eigen::Vector3d AVector(pbt::Src& src) { const double x = Number(src), y = Number(src), z = Number(src); return Eigen::Vector3d(x, y, z); }

Eigen::Quaterniond AQuaternion(pbt::Src& src)
{
  Eigen::Vector4d v;
  for (int i = 0; i < 4; i++) { v(i) = src.Bool(1, 3) ? static_cast<double>(src.Int(-1, 1)) : src.Real(-1.0, 1.0); }
  if (v.norm() < 1e-3) { v = Eigen::Vector4d(0.0, 0.0, 0.0, 1.0); }
  v /= v.norm();
  return Eigen::Quaterniond(v(3), v(0), v(1), v(2));
}

template<typename Message>
void Coordinates(const char* what, const Message& m, const Eigen::Vector3d& v)
{
  PBT_CHECK("coordinates", m.x == v.x() && m.y == v.y() && m.z == v.z(), what, " ", m.x, " ", m.y, " ", m.z, " instead of ", v.transpose());
}

template<typename Message>
Message Make(const Eigen::Vector3d& v)
{
  Message m;
  m.x = v.x(); m.y = v.y(); m.z = v.z();
  return m;
}

rc::GeometryQuaternion Make(const Eigen::Quaterniond& q)
{
  rc::GeometryQuaternion m;
  m.w = q.w(); m.x = q.x(); m.y = q.y(); m.z = q.z();
  return m;
}

// The same rotation: equal coefficients up to the common sign.
void Rotation(const char* what, const rc::GeometryQuaternion& m, const Eigen::Quaterniond& q)
{
  const double dot = m.w * q.w() + m.x * q.x() + m.y * q.y() + m.z * q.z();
  const double norm = std::sqrt(m.w * m.w + m.x * m.x + m.y * m.y + m.z * m.z);
  PBT_CHECK("rotation", std::abs(norm - 1.0) < 1e-12 && std::abs(dot) > 1.0 - 1e-12, what, " has rotation ", m.w, " ", m.x, " ", m.y, " ", m.z, " instead of ", q.coeffs().transpose());
}

// Written down without Eigen's conversions.
Eigen::Matrix3d Matrix(const Eigen::Quaterniond& q)
{
  const double w = q.w(), x = q.x(), y = q.y(), z = q.z();
  Eigen::Matrix3d m;
  m << 1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - z * w), 2.0 * (x * z + y * w),
       2.0 * (x * y + z * w), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - x * w),
       2.0 * (x * z - y * w), 2.0 * (y * z + x * w), 1.0 - 2.0 * (x * x + y * y);
  return m;
}

void Isometry(const char* what, const Eigen::Isometry3d& got, const Eigen::Vector3d& v, const Eigen::Quaterniond& q)
{
  const Eigen::Vector3d t = got.translation();
  PBT_CHECK("coordinates", t == v, what, " is at ", t.transpose(), " instead of ", v.transpose());
  PBT_CHECK("rotation", (got.linear() - Matrix(q)).norm() < 1e-12, what, " is turned by ", got.linear());
  PBT_CHECK("affine", got.matrix().row(3) == Eigen::RowVector4d(0.0, 0.0, 0.0, 1.0), what, " is not a rigid transform");
}

Eigen::Isometry3d Make(const Eigen::Vector3d& v, const Eigen::Quaterniond& q)
{
  Eigen::Isometry3d t = Eigen::Isometry3d::Identity();
  t.linear() = Matrix(q);
  t.translation() = v;
  return t;
}

std::string AName(pbt::Src& src)
{
  static const std::vector<std::string> names = {"", "map", "base_link", "a/b", "tool 0", std::string("x\0y", 3), std::string(100, 'f')};
  return names[static_cast<size_t>(src.Choose(names.size() - 1))];
}
}  // namespace

PROP(Values, "always", 60000, 2000000)
{
  const Eigen::Vector3d v = AVector(src);
  const Eigen::Quaterniond q = AQuaternion(src);
  const std::string frame = AName(src), child = AName(src);
  const double w = Number(src);
  ctx << v.transpose() << " turned " << q.coeffs().transpose() << " in " << frame;
  ctx.Nontrivial();
  Coordinates("point", rc::EigenVector3dToGeometryPoint(v), v);
  Coordinates("vector", rc::EigenVector3dToGeometryVector3(v), v);
  Eigen::Vector4d h;
  h << v, w;
  Coordinates("point", rc::EigenVector4dToGeometryPoint(h), v);
  Coordinates("vector", rc::EigenVector4dToGeometryVector3(h), v);
  const auto point = Make<rc::GeometryPoint>(v);
  const auto vector = Make<rc::GeometryVector3>(v);
  Coordinates("Eigen vector", Make<rc::GeometryPoint>(rc::GeometryPointToEigenVector3d(point)), v);
  Coordinates("Eigen vector", Make<rc::GeometryPoint>(rc::GeometryVector3ToEigenVector3d(vector)), v);
  const Eigen::Vector4d hp = rc::GeometryPointToEigenVector4d(point), hv = rc::GeometryVector3ToEigenVector4d(vector);
  Coordinates("Eigen vector", Make<rc::GeometryPoint>(hp.head<3>()), v);
  Coordinates("Eigen vector", Make<rc::GeometryPoint>(hv.head<3>()), v);
  PBT_CHECK("homogeneous", hp(3) == 1.0 && hv(3) == 0.0, "a point has fourth coordinate ", hp(3), ", a vector ", hv(3));
  const auto stamped = rc::EigenVector3dToGeometryPointStamped(v, frame);
  Coordinates("stamped point", stamped.point, v);
  PBT_CHECK("frame", stamped.header.frame_id == frame, "frame ", stamped.header.frame_id);
  const auto mq = rc::EigenQuaterniondToGeometryQuaternion(q);
  PBT_CHECK("quaternion", mq.w == q.w() && mq.x == q.x() && mq.y == q.y() && mq.z == q.z(), "quaternion ", mq.w, " ", mq.x, " ", mq.y, " ", mq.z);
  const Eigen::Quaterniond eq = rc::GeometryQuaternionToEigenQuaterniond(mq);
  PBT_CHECK("quaternion", eq.coeffs() == q.coeffs(), "quaternion ", eq.coeffs().transpose());

  // Quaternions need not be normalised to be passed on.
  const double any_w = Number(src), any_x = Number(src), any_y = Number(src), any_z = Number(src);
  const Eigen::Quaterniond any(any_w, any_x, any_y, any_z);
  const auto any_message = rc::EigenQuaterniondToGeometryQuaternion(any);
  PBT_CHECK("quaternion", any_message.w == any_w && any_message.x == any_x && any_message.y == any_y && any_message.z == any_z,
            "quaternion ", any_message.w, " ", any_message.x, " ", any_message.y, " ", any_message.z, " instead of ", any_w, " ", any.vec().transpose());
  PBT_CHECK("quaternion", rc::GeometryQuaternionToEigenQuaterniond(any_message).coeffs() == any.coeffs(), "back from the message");

  rc::GeometryPose pose;
  pose.position = point;
  pose.orientation = Make(q);
  Isometry("pose", rc::GeometryPoseToEigenIsometry3d(pose), v, q);
  rc::GeometryTransform transform;
  transform.translation = vector;
  transform.rotation = Make(q);
  Isometry("transform", rc::GeometryTransformToEigenIsometry3d(transform), v, q);
  const Eigen::Isometry3d t = Make(v, q);
  const auto as_pose = rc::EigenIsometry3dToGeometryPose(t);
  Coordinates("pose", as_pose.position, v);
  Rotation("pose", as_pose.orientation, q);
  const auto as_transform = rc::EigenIsometry3dToGeometryTransform(t);
  Coordinates("transform", as_transform.translation, v);
  Rotation("transform", as_transform.rotation, q);
  const auto stamped_pose = rc::EigenIsometry3dToGeometryPoseStamped(t, frame);
  Coordinates("stamped pose", stamped_pose.pose.position, v);
  Rotation("stamped pose", stamped_pose.pose.orientation, q);
  PBT_CHECK("frame", stamped_pose.header.frame_id == frame, "frame ", stamped_pose.header.frame_id);
  const auto stamped_transform = rc::EigenIsometry3dToGeometryTransformStamped(t, frame, child);
  Coordinates("stamped transform", stamped_transform.transform.translation, v);
  Rotation("stamped transform", stamped_transform.transform.rotation, q);
  PBT_CHECK("frame", stamped_transform.header.frame_id == frame && stamped_transform.child_frame_id == child, "frames ", stamped_transform.header.frame_id, " and ", stamped_transform.child_frame_id, " instead of ", frame, " and ", child);
}

namespace
{
void RunContainers(pbt::Ctx& ctx, const std::vector<Eigen::Vector3d>& vs, const std::vector<Eigen::Quaterniond>& qs)
{
  const size_t n = vs.size();
  if (n >= 3) { ctx.Nontrivial(); }
  std::vector<rc::GeometryPoint> points;
  std::vector<rc::GeometryVector3> vectors;
  std::vector<rc::GeometryPose> poses;
  std::vector<rc::GeometryTransform> transforms;
  math::VectorVector3d eigen_points;
  math::VectorIsometry3d isometries;
  Eigen::Matrix3Xd matrix(3, static_cast<Eigen::Index>(n));
  for (size_t i = 0; i < n; i++)
  {
    points.push_back(Make<rc::GeometryPoint>(vs[i]));
    vectors.push_back(Make<rc::GeometryVector3>(vs[i]));
    rc::GeometryPose pose; pose.position = points.back(); pose.orientation = Make(qs[i]); poses.push_back(pose);
    rc::GeometryTransform transform; transform.translation = vectors.back(); transform.rotation = Make(qs[i]); transforms.push_back(transform);
    eigen_points.push_back(vs[i]);
    isometries.push_back(Make(vs[i], qs[i]));
    matrix.col(static_cast<Eigen::Index>(i)) = vs[i];
  }
  const auto count = [&] (const char* what, const size_t got) { PBT_CHECK("size", got == n, what, " has ", got, " elements instead of ", n); };
  const Eigen::Matrix3Xd m = rc::VectorGeometryPointToEigenMatrix3Xd(points);
  count("the matrix", static_cast<size_t>(m.cols()));
  for (size_t i = 0; i < n; i++) { Coordinates("column", Make<rc::GeometryPoint>(m.col(static_cast<Eigen::Index>(i))), vs[i]); }
  const auto p1 = rc::EigenMatrix3XdToVectorGeometryPoint(matrix), p2 = rc::VectorEigenVector3dToVectorGeometryPoint(eigen_points);
  count("the points", p1.size()); count("the points", p2.size());
  const auto e1 = rc::VectorGeometryPointToVectorEigenVector3d(points), e2 = rc::VectorGeometryVector3ToEigenVector3d(vectors);
  count("the vectors", e1.size()); count("the vectors", e2.size());
  const auto i1 = rc::VectorGeometryPoseToVectorIsometry3d(poses), i2 = rc::VectorGeometryPoseToVectorIsometry3d(transforms);
  count("the isometries", i1.size()); count("the isometries", i2.size());
  const auto g1 = rc::VectorIsometry3dToVectorGeometryPose(isometries);
  const auto g2 = rc::VectorIsometry3dToVectorGeometryTransform(isometries);
  count("the poses", g1.size()); count("the transforms", g2.size());
  for (size_t i = 0; i < n; i++)
  {
    Coordinates("point", p1[i], vs[i]); Coordinates("point", p2[i], vs[i]);
    Coordinates("vector", Make<rc::GeometryPoint>(e1[i]), vs[i]); Coordinates("vector", Make<rc::GeometryPoint>(e2[i]), vs[i]);
    Isometry("pose", i1[i], vs[i], qs[i]); Isometry("transform", i2[i], vs[i], qs[i]);
    Coordinates("pose", g1[i].position, vs[i]); Rotation("pose", g1[i].orientation, qs[i]);
    Coordinates("transform", g2[i].translation, vs[i]); Rotation("transform", g2[i].rotation, qs[i]);
  }
}

}  // namespace

PROP(Containers, "three elements or more", 20000, 600000)
{
  const size_t n = src.Size(0, 8);
  std::vector<Eigen::Vector3d> vs;
  std::vector<Eigen::Quaterniond> qs;
  for (size_t i = 0; i < n; i++) { vs.push_back(AVector(src)); qs.push_back(AQuaternion(src)); ctx << vs.back().transpose() << "; "; }
  RunContainers(ctx, vs, qs);
}

PROP(LargeContainers, "three elements or more", 60, 1000)
{
  const size_t n = static_cast<size_t>(src.Bool(1, 3) ? src.Int(33000, 70000) : src.Int(250, 3000));
  std::mt19937_64 random(src.AnyU64());
  std::uniform_real_distribution<double> unit(-1.0, 1.0);
  std::vector<Eigen::Vector3d> vs;
  std::vector<Eigen::Quaterniond> qs;
  for (size_t i = 0; i < n; i++)
  {
    const double x = unit(random), y = unit(random), z = unit(random), w = 2.0 + unit(random);
    vs.emplace_back(x, y, z);
    qs.push_back(Eigen::Quaterniond(w, z, x, y).normalized());
  }
  ctx << n << " elements";
  RunContainers(ctx, vs, qs);
}

PROP(Timestamps, "three messages or more", 20000, 300000)
{
  const size_t n = src.Size(0, 6);
  const int32_t seconds = static_cast<int32_t>(src.Int(0, 2147483647));
  const uint32_t nanoseconds = static_cast<uint32_t>(src.Choose(999999999));
  const rh::RosTime time(seconds, nanoseconds);
  const stub_ros::Stamp stamp = time;
  ctx << n << " at " << seconds << "." << nanoseconds;
  if (n >= 3) { ctx.Nontrivial(); }
  rh::VisualizationMarkerArray array;
  std::vector<rc::GeometryPoseStamped> poses;
  std::list<rc::GeometryPointStamped> points;
  std::vector<std::string> names;
  for (size_t i = 0; i < n; i++)
  {
    rh::VisualizationMarker marker;
    marker.id = static_cast<int32_t>(src.Int(-5, 5)) * 100 + static_cast<int32_t>(i); marker.text = AName(src); marker.ns = AName(src); marker.header.frame_id = AName(src);
    marker.header.stamp.sec = static_cast<int32_t>(src.Choose(3));
    array.markers.push_back(marker);
    names.push_back(AName(src));
    const Eigen::Vector3d v = AVector(src);
    poses.push_back(rc::EigenIsometry3dToGeometryPoseStamped(Make(v, AQuaternion(src)), names.back()));
    points.push_back(rc::EigenVector3dToGeometryPointStamped(v, names.back()));
  }
  const rh::VisualizationMarkerArray before = array;
  const std::vector<rc::GeometryPoseStamped> poses_before = poses;
  rh::SetMessageTimestamps(array, time);
  rh::SetMessageTimestamps<rc::GeometryPoseStamped>(poses, time);
  rh::SetMessageTimestamps<rc::GeometryPointStamped, std::list<rc::GeometryPointStamped>>(points, time);
  PBT_CHECK("size", array.markers.size() == n && poses.size() == n && points.size() == n, "messages were added or lost");
  auto point = points.begin();
  for (size_t i = 0; i < n; i++, ++point)
  {
    PBT_CHECK("stamp", array.markers[i].header.stamp == stamp && poses[i].header.stamp == stamp && point->header.stamp == stamp, "message ", i, " got another time");
    const auto& a = array.markers[i];
    const auto& b = before.markers[i];
    PBT_CHECK("rest", a.id == b.id && a.text == b.text && a.ns == b.ns && a.header.frame_id == b.header.frame_id, "something else of marker ", i, " changed");
    PBT_CHECK("rest", poses[i].header.frame_id == names[i] && point->header.frame_id == names[i], "the frame of message ", i, " changed");
    Coordinates("point", poses[i].pose.position, Eigen::Vector3d(poses_before[i].pose.position.x, poses_before[i].pose.position.y, poses_before[i].pose.position.z));
#if COMMON_ROBOTICS_UTILITIES__SUPPORTED_ROS_VERSION == 2
    std::ostringstream out;
    out << a;
    PBT_CHECK("yaml", out.str() == to_yaml(a, false), "printed ", out.str());
#endif
  }
}
