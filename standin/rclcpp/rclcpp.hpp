// Stand-in for the ROS 2 client library, which the sandbox lacks: declarations of what the repository's code names.
// Nothing communicates: publishers drop messages, subscriptions never receive any, parameters have their defaults.
#pragma once
#include <atomic>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <type_traits>
#include <thread>
#include <utility>
#include <vector>

#include <builtin_interfaces/msg/time.hpp>

namespace rclcpp
{
template <typename... Ts> inline bool ok(Ts &&...) { return true; }
inline void init(int, const char * const *) {}
inline void shutdown() {}
struct Duration
{
  int64_t ns;
  explicit Duration(int64_t ns) : ns(ns) {}
  Duration(int32_t s, uint32_t n) : ns(int64_t{s} * 1000000000 + n) {}
  auto nanoseconds() const -> int64_t { return ns; }
  auto seconds() const -> double { return static_cast<double>(ns) / 1e9; }
};
struct Time
{
  int64_t ns = 0;
  Time() = default;
  explicit Time(int64_t ns) : ns(ns) {}
  Time(int32_t s, uint32_t n) : ns(int64_t{s} * 1000000000 + n) {}
  Time(const builtin_interfaces::msg::Time & t) : ns(int64_t{t.sec} * 1000000000 + t.nanosec) {}
  operator builtin_interfaces::msg::Time() const
  {
    builtin_interfaces::msg::Time t;
    t.sec = static_cast<int32_t>(ns / 1000000000);
    t.nanosec = static_cast<uint32_t>(ns % 1000000000);
    return t;
  }
  auto nanoseconds() const -> int64_t { return ns; }
  auto seconds() const -> double { return static_cast<double>(ns) / 1e9; }
  friend auto operator-(const Time & a, const Time & b) -> Duration { return Duration(a.ns - b.ns); }
  friend auto operator+(const Time & a, const Duration & b) -> Time { return Time(a.ns + b.ns); }
};
struct Logger
{
};
inline auto get_logger(const std::string &) -> Logger { return Logger(); }
struct Clock
{
  using SharedPtr = std::shared_ptr<Clock>;
  auto now() const -> Time { return Time(); }
};
struct KeepLast
{
  explicit KeepLast(std::size_t) {}
};
struct QoS
{
  QoS(std::size_t) {}
  QoS(const KeepLast &) {}
  auto reliable() -> QoS & { return *this; }
  auto best_effort() -> QoS & { return *this; }
  auto transient_local() -> QoS & { return *this; }
  auto durability_volatile() -> QoS & { return *this; }
};
struct NodeOptions
{
  auto use_global_arguments(bool) -> NodeOptions & { return *this; }
  auto automatically_declare_parameters_from_overrides(bool) -> NodeOptions & { return *this; }
};
struct PublisherOptions
{
  bool use_agnocast = false;
};
struct SubscriptionOptions
{
};
template <typename T>
struct Publisher
{
  using SharedPtr = std::shared_ptr<Publisher>;
  template <typename U> void publish(U &&) {}
};
template <typename T>
struct Subscription
{
  using SharedPtr = std::shared_ptr<Subscription>;
};
// texts are kept, other values are not
struct ParameterValue
{
  std::string text;
  template <typename T> explicit ParameterValue(const T & x)
  {
    if constexpr (std::is_convertible_v<T, std::string>) text = x;
  }
};
namespace node_interfaces
{
struct Parameter
{
  std::string text;
  template <typename T> auto get_value() const -> T
  {
    if constexpr (std::is_same_v<T, std::string>)
      return text;
    else
      return T();
  }
};
struct NodeParametersInterface
{
  using SharedPtr = std::shared_ptr<NodeParametersInterface>;
  std::map<std::string, std::string> texts;
  auto has_parameter(const std::string & name) const -> bool { return texts.count(name) != 0; }
  auto declare_parameter(const std::string & name, const ParameterValue & value) -> void { texts[name] = value.text; }
  auto get_parameter(const std::string & name) const -> Parameter
  {
    Parameter parameter;
    parameter.text = texts.at(name);
    return parameter;
  }
};
struct NodeBaseInterface
{
  using SharedPtr = std::shared_ptr<NodeBaseInterface>;
};
struct NodeTopicsInterface
{
  using SharedPtr = std::shared_ptr<NodeTopicsInterface>;
};
}  // namespace node_interfaces
struct TimerBase
{
  using SharedPtr = std::shared_ptr<TimerBase>;
};
class Node
{
public:
  using SharedPtr = std::shared_ptr<Node>;
  template <typename... Ts> explicit Node(const std::string &, Ts &&...) {}
  virtual ~Node() = default;
  template <typename T, typename... Ts> auto create_publisher(Ts &&...) -> typename Publisher<T>::SharedPtr
  {
    return std::make_shared<Publisher<T>>();
  }
  template <typename T, typename... Ts> auto create_subscription(Ts &&...) -> typename Subscription<T>::SharedPtr
  {
    return std::make_shared<Subscription<T>>();
  }
  auto now() const -> Time { return Time(); }
  auto get_clock() const -> Clock::SharedPtr { return std::make_shared<Clock>(); }
  auto get_logger() const -> Logger { return Logger(); }
  node_interfaces::NodeParametersInterface::SharedPtr parameters = std::make_shared<node_interfaces::NodeParametersInterface>();
  auto get_node_parameters_interface() -> node_interfaces::NodeParametersInterface::SharedPtr { return parameters; }
  auto get_node_base_interface() -> node_interfaces::NodeBaseInterface::SharedPtr;
};
namespace executors
{
struct SingleThreadedExecutor
{
  template <typename T> void add_node(const T &) {}
  void spin_some() {}
};
}  // namespace executors
}  // namespace rclcpp

#define RCLCPP_DEBUG_STREAM(LOGGER, ...) static_cast<void>(0)
#define RCLCPP_INFO_STREAM(LOGGER, ...) static_cast<void>(0)
#define RCLCPP_WARN_STREAM(LOGGER, ...) static_cast<void>(0)
#define RCLCPP_ERROR_STREAM(LOGGER, ...) static_cast<void>(0)
#define RCLCPP_DEBUG(LOGGER, ...) static_cast<void>(0)
#define RCLCPP_INFO(LOGGER, ...) static_cast<void>(0)
#define RCLCPP_WARN(LOGGER, ...) static_cast<void>(0)
#define RCLCPP_ERROR(LOGGER, ...) static_cast<void>(0)
#define RCLCPP_INFO_ONCE(LOGGER, ...) static_cast<void>(0)
#define RCLCPP_WARN_ONCE(LOGGER, ...) static_cast<void>(0)
