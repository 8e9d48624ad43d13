#pragma once
#define STUB_ROS_VERSION 2
#include "../stub_common.hpp"
namespace geometry_msgs { namespace msg {
#include "../messages.inc"
} }
