#pragma once
#include <cstdint>
namespace builtin_interfaces::msg {
struct Time {
  std::int32_t sec = 0;
  std::uint32_t nanosec = 0;
  bool operator==(const Time& o) const { return sec == o.sec && nanosec == o.nanosec; }
};
}  // namespace builtin_interfaces::msg
