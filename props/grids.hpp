// Generators shared by the voxel grid harnesses.
#pragma once

#include "pbt.hpp"

#include <Eigen/Geometry>

#include <common_robotics_utilities/voxel_grid.hpp>

namespace grids
{
namespace vg = common_robotics_utilities::voxel_grid;
using LVec = Eigen::Matrix<long double, 3, 1>;

inline Eigen::Quaterniond GenRotation(pbt::Src& src)
{
  switch (src.Choose(5))
  {
    case 0: return Eigen::Quaterniond::Identity();
    case 1:  // quarter turns
    {
      const double half = std::sqrt(0.5);
      const size_t axis = src.Choose(2);
      const double s = src.Bool() ? -half : half;
      return Eigen::Quaterniond(half, axis == 0 ? s : 0, axis == 1 ? s : 0, axis == 2 ? s : 0);
    }
    case 2:  // half turns
    {
      const size_t axis = src.Choose(2);
      return Eigen::Quaterniond(0.0, axis == 0 ? 1 : 0, axis == 1 ? 1 : 0, axis == 2 ? 1 : 0);
    }
    default:
    {
      Eigen::Quaterniond q(src.Unit() * 2 - 1, src.Unit() * 2 - 1, src.Unit() * 2 - 1, src.Unit() * 2 - 1);
      if (q.norm() < 1e-3) { return Eigen::Quaterniond::Identity(); }
      return q.normalized();
    }
  }
}

inline Eigen::Isometry3d GenPose(pbt::Src& src)
{
  if (src.Bool(1, 4)) { return Eigen::Isometry3d::Identity(); }
  const double scale = src.Bool(1, 8) ? 1e5 : 20.0;
  const Eigen::Translation3d t(src.Real(-scale, scale), src.Real(-scale, scale), src.Real(-scale, scale));
  return t * GenRotation(src);
}

inline double GenCell(pbt::Src& src)
{
  switch (src.Choose(6))
  {
    case 6:  // Any scale
      return src.Bool(1, 4) ? std::pow(10.0, src.Unit() * 18.0 - 10.0) : std::pow(10.0, src.Unit() * 6.0 - 3.0);
    case 0: return 1.0;
    case 1: return 0.25 * static_cast<double>(1 + src.Choose(7));
    case 2: return 0.1 * static_cast<double>(1 + src.Choose(20));
    case 3: return 1.0 / static_cast<double>(3 + src.Choose(60));
    case 4: return 0.01 + src.Unit() * 3.0;
    default: return std::pow(10.0, src.Unit() * 6.0 - 3.0);
  }
}

// Independent mapping of a world point into the grid frame.
inline LVec ToFrame(const Eigen::Isometry3d& pose, const Eigen::Vector3d& p)
{
  // Rotations are orthonormal up to rounding.
  const Eigen::Matrix<long double, 3, 3> r = pose.matrix().topLeftCorner<3, 3>().cast<long double>();
  const LVec t = pose.matrix().topRightCorner<3, 1>().cast<long double>();
  return r.transpose() * (p.cast<long double>() - t);
}

inline Eigen::Vector3d FromFrame(const Eigen::Isometry3d& pose, const Eigen::Vector3d& p)
{
  const Eigen::Matrix3d r = pose.matrix().topLeftCorner<3, 3>();
  return r * p + pose.matrix().topRightCorner<3, 1>();
}

// Inclusive range of cell numbers a coordinate may fall in, given an absolute
// uncertainty of the coordinate.
struct CellRange
{
  int64_t lo = 0;
  int64_t hi = 0;
  bool Has(const int64_t i) const { return i >= lo && i <= hi; }
  bool Sharp() const { return lo == hi; }
};

inline CellRange CellOf(const long double coordinate, const double cell, const long double slack)
{
  CellRange r;
  const long double eps = slack + 1e-13L * std::abs(coordinate) + 1e-14L * static_cast<long double>(cell);
  r.lo = static_cast<int64_t>(std::floor((coordinate - eps) / static_cast<long double>(cell)));
  r.hi = static_cast<int64_t>(std::floor((coordinate + eps) / static_cast<long double>(cell)));
  return r;
}
}  // namespace grids
