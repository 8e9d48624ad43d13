#pragma once
#include "../../stub_common.hpp"
namespace ros
{
class Time
{
public:
  Time(const int32_t seconds, const uint32_t nanoseconds) : sec_(seconds), nanosec_(nanoseconds) {}
  operator stub_ros::Stamp() const { stub_ros::Stamp s; s.sec = sec_; s.nanosec = nanosec_; return s; }
private:
  int32_t sec_;
  uint32_t nanosec_;
};
}
