// Generators and independent formulae for rotations and poses (long double).
#pragma once

#include "pbt.hpp"

#include <Eigen/Geometry>

namespace geometry
{
using Real = long double;
using Vec3 = Eigen::Matrix<Real, 3, 1>;
using Mat3 = Eigen::Matrix<Real, 3, 3>;
using Mat4 = Eigen::Matrix<Real, 4, 4>;
using Quat = Eigen::Quaternion<Real>;

inline double Magnitude(pbt::Src& src, const int lo = -30, const int hi = 20)
{
  return std::ldexp(src.Real(0.5, 1.0), static_cast<int>(src.Int(lo, hi)));
}

inline Eigen::Vector3d Vector(pbt::Src& src, const double scale = 10.0)
{
  Eigen::Vector3d out;
  switch (src.Weighted({4, 2, 1}))
  {
    case 0: for (int i = 0; i < 3; i++) { out(i) = src.Real(-scale, scale); } break;
    case 1: for (int i = 0; i < 3; i++) { out(i) = static_cast<double>(src.Int(-2, 2)); } break;
    default: for (int i = 0; i < 3; i++) { out(i) = src.Bool() ? 0.0 : (src.Bool() ? 1.0 : -1.0) * Magnitude(src, -20, 6); } break;
  }
  return out;
}

inline Eigen::Vector3d UnitVector(pbt::Src& src)
{
  Eigen::Vector3d axis = Eigen::Vector3d::Zero();
  if (src.Bool(1, 3)) { axis(static_cast<Eigen::Index>(src.Choose(2))) = src.Bool() ? 1.0 : -1.0; return axis; }
  axis = Vector(src);
  const double norm = axis.norm();
  if (!(norm > 1e-9)) { return Eigen::Vector3d::UnitX(); }
  return (axis / norm).normalized();
}

// Angles of rotation from tiny to a half turn.
inline double RotationAngle(pbt::Src& src)
{
  switch (src.Weighted({4, 2, 2, 1, 1}))
  {
    case 0: return src.Real(-M_PI, M_PI);
    case 1: return static_cast<double>(src.Int(-4, 4)) * M_PI_4;
    case 2: return (src.Bool() ? 1.0 : -1.0) * Magnitude(src, -50, 1);
    case 3: return (src.Bool() ? 1.0 : -1.0) * (M_PI - Magnitude(src, -40, -2));
    default: return 0.0;
  }
}

inline Eigen::Quaterniond Rotation(pbt::Src& src)
{
  const Eigen::Vector3d axis = UnitVector(src);
  const double angle = RotationAngle(src);
  Eigen::Quaterniond q(std::cos(angle / 2.0), axis.x() * std::sin(angle / 2.0), axis.y() * std::sin(angle / 2.0), axis.z() * std::sin(angle / 2.0));
  if (src.Bool(1, 3)) { q = q * Rotation(src); }
  q.normalize();
  if (src.Bool(1, 4)) { q.coeffs() = -q.coeffs(); }
  return q;
}

// Rotation matrix from the definition.
inline Mat3 Matrix(const Eigen::Quaterniond& qd)
{
  Real w = qd.w();
  Real x = qd.x();
  Real y = qd.y();
  Real z = qd.z();
  const Real n = std::sqrt(w * w + x * x + y * y + z * z);
  w /= n; x /= n; y /= n; z /= n;
  Mat3 m;
  m << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
       2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
       2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  return m;
}

inline Mat3 AboutAxis(const Vec3& axis, const Real angle)
{
  const Vec3 k = axis / axis.norm();
  Mat3 hat;
  hat << 0, -k(2), k(1), k(2), 0, -k(0), -k(1), k(0), 0;
  return Mat3::Identity() + std::sin(angle) * hat + 2 * std::sin(angle / 2) * std::sin(angle / 2) * hat * hat;
}

inline Eigen::Isometry3d Pose(const Eigen::Vector3d& v, const Eigen::Quaterniond& q)
{
  Eigen::Isometry3d t = Eigen::Isometry3d::Identity();
  t.linear() = Matrix(q).cast<double>();
  t.translation() = v;
  return t;
}

inline Eigen::Isometry3d Pose(pbt::Src& src, const double scale = 10.0)
{
  const Eigen::Vector3d v = Vector(src, scale);
  return Pose(v, Rotation(src));
}

inline Mat4 Matrix4(const Eigen::Isometry3d& t) { return t.matrix().cast<Real>(); }

// Angle of the rotation that carries one rotation matrix to another: from the chord for small angles.
inline Real AngleBetween(const Mat3& a, const Mat3& b)
{
  const Mat3 d = a.transpose() * b;
  const Real s = std::sqrt((d(2, 1) - d(1, 2)) * (d(2, 1) - d(1, 2)) + (d(0, 2) - d(2, 0)) * (d(0, 2) - d(2, 0)) + (d(1, 0) - d(0, 1)) * (d(1, 0) - d(0, 1))) / 2;
  const Real c = (d.trace() - 1) / 2;
  return std::atan2(s, c);
}

// Matrix exponential by scaling, Taylor series and squaring.
inline Mat4 Exponential(const Mat4& m)
{
  int halvings = 0;
  Real norm = m.cwiseAbs().rowwise().sum().maxCoeff();
  while (norm > 0.25L && halvings < 60) { norm /= 2; halvings++; }
  const Mat4 scaled = m / std::ldexp(static_cast<Real>(1), halvings);
  Mat4 out = Mat4::Identity();
  Mat4 term = Mat4::Identity();
  for (int i = 1; i < 24; i++)
  {
    term = (term * scaled) / static_cast<Real>(i);
    out += term;
  }
  for (int i = 0; i < halvings; i++) { out = out * out; }
  return out;
}

template<typename A, typename B>
Real Difference(const A& a, const B& b)
{
  if (a.rows() != b.rows() || a.cols() != b.cols()) { return std::numeric_limits<Real>::infinity(); }
  Real worst = 0;
  for (Eigen::Index i = 0; i < a.rows(); i++)
  {
    for (Eigen::Index j = 0; j < a.cols(); j++)
    {
      const Real d = std::abs(static_cast<Real>(a(i, j)) - static_cast<Real>(b(i, j)));
      if (!(d <= worst)) { worst = d; }
    }
  }
  return worst;
}

template<typename A>
std::string Text(const A& m)
{
  std::ostringstream out;
  out.precision(17);
  out << "[" << m.format(Eigen::IOFormat(17, Eigen::DontAlignCols, " ", "; ")) << "]";
  return out.str();
}
}  // namespace geometry
