#pragma once
#define STUB_ROS_VERSION 1
#include "../stub_common.hpp"
namespace geometry_msgs {
#include "../messages.inc"
}
