#pragma once
#include <type_traits>
namespace rosidl_generator_traits
{
template<typename T> struct is_message : std::false_type {};
}
