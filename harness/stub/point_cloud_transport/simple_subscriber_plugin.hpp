#pragma once
#include "rclcpp/rclcpp.hpp"
#include "sensor_msgs/msg/point_cloud2.hpp"
#include "tl/expected.hpp"
namespace point_cloud_transport {
class SubscriberPlugin {
 public:
  using DecodeResult = tl::expected<std::optional<sensor_msgs::msg::PointCloud2::ConstSharedPtr>, std::string>;
  virtual ~SubscriberPlugin() {}
  virtual std::string getTransportName() const = 0;
  virtual std::string getDataType() const = 0;
  virtual void declareParameters() = 0;
};
template <class M> class SimpleSubscriberPlugin : public SubscriberPlugin {
 public:
  virtual DecodeResult decodeTyped(const M& compressed) const = 0;
};
}  // namespace point_cloud_transport
