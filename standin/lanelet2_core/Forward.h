// stand-in: the identifiers of lanelet2
#ifndef STANDIN_LANELET2_FORWARD
#define STANDIN_LANELET2_FORWARD
#include <cstdint>
#include <vector>
namespace lanelet
{
using Id = std::int64_t;
using Ids = std::vector<Id>;
constexpr Id InvalId = 0;
}  // namespace lanelet
#endif
