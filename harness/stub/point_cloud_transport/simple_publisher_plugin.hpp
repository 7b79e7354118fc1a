#pragma once
#include "rclcpp/rclcpp.hpp"
#include "sensor_msgs/msg/point_cloud2.hpp"
#include "tl/expected.hpp"
namespace point_cloud_transport {
using SetParametersCallback = std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<rclcpp::Parameter>&)>;
class PublisherPlugin {
 public:
  virtual ~PublisherPlugin() {}
  virtual std::string getTransportName() const = 0;
  virtual std::string getDataType() const = 0;
  virtual void declareParameters(const std::string& base_topic) = 0;
};
template <class M> class SimplePublisherPlugin : public PublisherPlugin {
 public:
  using TypedEncodeResult = tl::expected<std::optional<const M>, std::string>;
  virtual TypedEncodeResult encodeTyped(const sensor_msgs::msg::PointCloud2& raw) const = 0;
  // of the stub: what the parameter server holds
  std::map<std::string, rclcpp::Parameter::Value> vp_params, vp_overrides;
  SetParametersCallback vp_callback;

 protected:
  template <class T> bool declareParam(const std::string n, const T v, const rcl_interfaces::msg::ParameterDescriptor& = {}) {
    auto it = vp_overrides.find(n);
    vp_params[n] = it != vp_overrides.end() ? it->second : rclcpp::Parameter::Value(v);
    return true;
  }
  template <class T> bool getParam(const std::string n, T& v) const {
    auto it = vp_params.find(n);
    if (it == vp_params.end()) return false;
    v = std::get<T>(it->second);
    return true;
  }
  void setParamCallback(SetParametersCallback c) { vp_callback = c; }
};
}  // namespace point_cloud_transport
