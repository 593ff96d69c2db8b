// stand-in: declared only
#pragma once
#include <string>
namespace ament_index_cpp
{
std::string get_package_share_directory(const std::string &);
}
