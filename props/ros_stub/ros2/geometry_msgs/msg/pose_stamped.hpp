#pragma once
#include <stub_messages.hpp>
