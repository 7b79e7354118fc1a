#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace rcl_interfaces::msg {
struct ParameterType { static constexpr std::uint8_t PARAMETER_NOT_SET = 0, PARAMETER_BOOL = 1, PARAMETER_INTEGER = 2, PARAMETER_DOUBLE = 3, PARAMETER_STRING = 4; };
struct IntegerRange {
  std::int64_t from_value = 0, to_value = 0;
  std::uint64_t step = 0;
  IntegerRange& set__from_value(std::int64_t v) { from_value = v; return *this; }
  IntegerRange& set__to_value(std::int64_t v) { to_value = v; return *this; }
  IntegerRange& set__step(std::uint64_t v) { step = v; return *this; }
};
struct FloatingPointRange {
  double from_value = 0, to_value = 0, step = 0;
  FloatingPointRange& set__from_value(double v) { from_value = v; return *this; }
  FloatingPointRange& set__to_value(double v) { to_value = v; return *this; }
  FloatingPointRange& set__step(double v) { step = v; return *this; }
};
struct ParameterDescriptor {
  std::string name, description;
  std::uint8_t type = 0;
  bool read_only = false;
  std::vector<IntegerRange> integer_range;
  std::vector<FloatingPointRange> floating_point_range;
  ParameterDescriptor& set__integer_range(const std::vector<IntegerRange>& r) { integer_range = r; return *this; }
  ParameterDescriptor& set__floating_point_range(const std::vector<FloatingPointRange>& r) { floating_point_range = r; return *this; }
};
struct SetParametersResult { bool successful = false; std::string reason; };
}  // namespace rcl_interfaces::msg
