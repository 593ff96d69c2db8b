#pragma once
#include <limits>
namespace boost
{
namespace numeric
{
template <typename T>
struct bounds
{
  static T highest() { return std::numeric_limits<T>::max(); }
  static T lowest() { return std::numeric_limits<T>::lowest(); }
};
}  // namespace numeric
}  // namespace boost
