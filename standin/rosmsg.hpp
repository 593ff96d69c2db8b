#pragma once
#include <utility>
namespace rosmsg
{
template <typename T>
struct Start;
}
