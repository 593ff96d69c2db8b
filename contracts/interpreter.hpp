// Includes shared by the contract units of the interpreter (the repository's build uses a precompiled header).
#ifndef VERIF_CONTRACTS_INTERPRETER_HPP
#define VERIF_CONTRACTS_INTERPRETER_HPP
#include <verif.hpp>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <filesystem>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <valarray>
#include <variant>
#include <vector>

#include <Eigen/Dense>
#include <boost/algorithm/string.hpp>
#include <boost/json.hpp>
#include <boost/lexical_cast.hpp>
#include <boost/math/constants/constants.hpp>
#include <pugixml.hpp>

#include <rclcpp/rclcpp.hpp>
#include <scenario_simulator_exception/exception.hpp>
#include <traffic_simulator/api/api.hpp>

#ifndef VERIF_PUBLIC_ONLY
#define private public
#define protected public
#endif
#include <openscenario_interpreter/expression.hpp>
#include <openscenario_interpreter/pointer.hpp>
#include <openscenario_interpreter/object.hpp>
#include <openscenario_interpreter/simulator_core.hpp>
#endif
