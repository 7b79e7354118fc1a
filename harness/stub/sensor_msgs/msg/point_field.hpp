#pragma once
#include <cstdint>
#include <string>
namespace sensor_msgs::msg {
struct PointField {
  static constexpr std::uint8_t INT8 = 1, UINT8 = 2, INT16 = 3, UINT16 = 4, INT32 = 5, UINT32 = 6, FLOAT32 = 7, FLOAT64 = 8;
  std::string name;
  std::uint32_t offset = 0;
  std::uint8_t datatype = 0;
  std::uint32_t count = 0;
};
}  // namespace sensor_msgs::msg
