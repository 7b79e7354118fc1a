// Declarations of the parts of rclcpp that the nodes use; a node's parameters, the publishers it sees and what it
// publishes are held in vp_ros.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <string>
#include <variant>
#include <vector>
#include "rcl_interfaces/msg/all.hpp"
enum rmw_qos_reliability_policy_t { RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT, RMW_QOS_POLICY_RELIABILITY_RELIABLE, RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT };
enum rmw_qos_durability_policy_t { RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT, RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL, RMW_QOS_POLICY_DURABILITY_VOLATILE };
struct rmw_qos_profile_t {
  std::size_t depth = 10;
  rmw_qos_reliability_policy_t reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE;
  rmw_qos_durability_policy_t durability = RMW_QOS_POLICY_DURABILITY_VOLATILE;
};
inline const rmw_qos_profile_t rmw_qos_profile_default;
struct rcl_serialized_message_t { uint8_t* buffer = nullptr; size_t buffer_length = 0, buffer_capacity = 0; };
namespace rclcpp {
struct Logger {};
template <class... A> inline void vpLog(const Logger&, const A&...) {}
class QoS {
 public:
  explicit QoS(std::size_t depth) { p_.depth = depth; }
  QoS& reliable() { p_.reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE; return *this; }
  QoS& best_effort() { p_.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT; return *this; }
  QoS& transient_local() { p_.durability = RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL; return *this; }
  QoS& durability_volatile() { p_.durability = RMW_QOS_POLICY_DURABILITY_VOLATILE; return *this; }
  rmw_qos_profile_t& get_rmw_qos_profile() { return p_; }
  const rmw_qos_profile_t& get_rmw_qos_profile() const { return p_; }

 private:
  rmw_qos_profile_t p_;
};
class TopicEndpointInfo {
 public:
  explicit TopicEndpointInfo(const QoS& q) : q_(q) {}
  QoS& qos_profile() { return q_; }
  const QoS& qos_profile() const { return q_; }

 private:
  QoS q_;
};
class SerializedMessage {  // owns its buffer, as in rclcpp
 public:
  SerializedMessage() {}
  explicit SerializedMessage(size_t n) { m_.buffer = (uint8_t*)std::malloc(n); m_.buffer_length = 0; m_.buffer_capacity = n; }
  SerializedMessage(const SerializedMessage&) = delete;
  SerializedMessage& operator=(const SerializedMessage&) = delete;
  ~SerializedMessage() { if (m_.buffer) std::free(m_.buffer); }
  rcl_serialized_message_t& get_rcl_serialized_message() { return m_; }
  const rcl_serialized_message_t& get_rcl_serialized_message() const { return m_; }
  size_t size() const { return m_.buffer_length; }
  size_t capacity() const { return m_.buffer_capacity; }

 private:
  rcl_serialized_message_t m_;
};
class Parameter {
 public:
  using Value = std::variant<std::monostate, bool, int64_t, double, std::string>;
  Parameter() {}
  Parameter(const std::string& n, const Value& v) : n_(n), v_(v) {}
  const std::string& get_name() const { return n_; }
  bool as_bool() const { return get<bool>(); }
  int64_t as_int() const { return get<int64_t>(); }
  double as_double() const { return get<double>(); }
  std::string as_string() const { return get<std::string>(); }
  const Value& value() const { return v_; }

 private:
  template <class T> T get() const { if (!std::holds_alternative<T>(v_)) throw std::runtime_error("parameter type"); return std::get<T>(v_); }
  std::string n_;
  Value v_;
};
}  // namespace rclcpp
namespace vp_ros {
struct Published { std::string topic, type; std::vector<uint8_t> bytes; };
inline std::map<std::string, rclcpp::Parameter::Value> overrides;  // of the parameters
inline std::vector<rclcpp::TopicEndpointInfo> endpoints;            // publishers of the input topic
inline std::vector<Published> published;
inline size_t subscribers = 1;
}  // namespace vp_ros
namespace rclcpp {
class SubscriptionBase {
 public:
  using SharedPtr = std::shared_ptr<SubscriptionBase>;
  virtual ~SubscriptionBase() {}
  const char* get_topic_name() const { return topic.c_str(); }
  std::string topic;
};
class GenericSubscription : public SubscriptionBase {
 public:
  using SharedPtr = std::shared_ptr<GenericSubscription>;
  GenericSubscription(const std::string& t, const std::string& ty, const QoS& q, std::function<void(std::shared_ptr<SerializedMessage>)> c) : type(ty), qos(q), callback(c) { topic = t; }
  std::string type;
  QoS qos;
  std::function<void(std::shared_ptr<SerializedMessage>)> callback;
};
class GenericPublisher {
 public:
  using SharedPtr = std::shared_ptr<GenericPublisher>;
  GenericPublisher(const std::string& t, const std::string& ty, const QoS& q) : topic(t), type(ty), qos(q) {}
  size_t get_subscription_count() const { return vp_ros::subscribers; }
  void publish(const SerializedMessage& m) {
    const auto& r = m.get_rcl_serialized_message();
    vp_ros::published.push_back({topic, type, std::vector<uint8_t>(r.buffer, r.buffer + r.buffer_length)});
  }
  const char* get_topic_name() const { return topic.c_str(); }
  std::string topic, type;
  QoS qos;
};
class NodeOptions {
 public:
  NodeOptions& use_intra_process_comms(bool) { return *this; }
};
class Node;
}  // namespace rclcpp
namespace vp_ros {
inline std::vector<std::shared_ptr<rclcpp::GenericSubscription>> subscriptions;
inline std::vector<std::shared_ptr<rclcpp::GenericPublisher>> publishers;
}  // namespace vp_ros
namespace rclcpp {
class Node {
 public:
  using SharedPtr = std::shared_ptr<Node>;
  explicit Node(const std::string& name, const NodeOptions& = NodeOptions()) : name_(name) {}
  virtual ~Node() {}
  Logger get_logger() const { return {}; }
  const char* get_name() const { return name_.c_str(); }
  template <class T> T declare_parameter(const std::string& n, const T& def) {
    auto it = vp_ros::overrides.find(n);
    params_[n] = it != vp_ros::overrides.end() ? it->second : Parameter::Value(def);
    return std::get<T>(params_[n]);
  }
  Parameter get_parameter(const std::string& n) const {
    auto it = params_.find(n);
    if (it == params_.end()) throw std::runtime_error("parameter not declared");
    return Parameter(n, it->second);
  }
  template <class T> bool get_parameter(const std::string& n, T& v) const {
    auto it = params_.find(n);
    if (it == params_.end()) return false;
    v = std::get<T>(it->second);
    return true;
  }
  std::vector<TopicEndpointInfo> get_publishers_info_by_topic(const std::string&) const { return vp_ros::endpoints; }
  std::shared_ptr<GenericSubscription> create_generic_subscription(const std::string& t, const std::string& ty, const QoS& q, std::function<void(std::shared_ptr<SerializedMessage>)> c) {
    vp_ros::subscriptions.push_back(std::make_shared<GenericSubscription>(t, ty, q, c));
    auto s = vp_ros::subscriptions.back();
    return s;
  }
  std::shared_ptr<GenericPublisher> create_generic_publisher(const std::string& t, const std::string& ty, const QoS& q) {
    vp_ros::publishers.push_back(std::make_shared<GenericPublisher>(t, ty, q));
    return vp_ros::publishers.back();
  }

 private:
  std::string name_;
  std::map<std::string, Parameter::Value> params_;
};
}  // namespace rclcpp
#define RCLCPP_DEBUG(...) ::rclcpp::vpLog(__VA_ARGS__)
#define RCLCPP_INFO(...) ::rclcpp::vpLog(__VA_ARGS__)
#define RCLCPP_WARN(...) ::rclcpp::vpLog(__VA_ARGS__)
#define RCLCPP_ERROR(...) ::rclcpp::vpLog(__VA_ARGS__)
