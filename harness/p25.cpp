// P25: the ROS plugins, the topic converter and the PCL subscriber deliver every cloud once, in order, with its header and content.
#include <thread>
#include <map>
#include <optional>
#include "ros.h"
#include "cloudini_plugin/cloudini_publisher_plugin.hpp"
#include "cloudini_plugin/cloudini_subscriber_plugin.hpp"
#include "cloudini_ros/conversion_utils.hpp"
#include "cloudini_ros/cloudini_subscriber_pcl.hpp"
#include "topic_converter.cpp"
namespace pcl { namespace io { int loadPCDFile(const std::string&, PCLPointCloud2&) { return -1; } } }
using sensor_msgs::msg::PointCloud2;
using point_cloud_interfaces::msg::CompressedPointCloud2;
using cloudini_point_cloud_transport::CloudiniPublisher;
using cloudini_point_cloud_transport::CloudiniSubscriber;
static PointCloud2 rosMsg(const Msg& m) {
  PointCloud2 r;
  r.header.stamp.sec = (int32_t)m.sec; r.header.stamp.nanosec = m.nsec; r.header.frame_id = m.frame;
  r.height = m.height; r.width = m.width; r.point_step = m.step; r.row_step = m.row; r.is_dense = m.dense != 0;
  for (auto& f : m.fields) { sensor_msgs::msg::PointField g; g.name = f.name; g.offset = f.offset; g.datatype = (uint8_t)f.type; g.count = 1; r.fields.push_back(g); }
  r.data = m.data;
  return r;
}
template <class A, class B> static void sameMeta(const A& a, const B& b) {
  vp_check(a.header.stamp.sec == b.header.stamp.sec && a.header.stamp.nanosec == b.header.stamp.nanosec && strEq(a.header.frame_id, b.header.frame_id), "header kept");
  vp_check(a.width == b.width && a.height == b.height && a.point_step == b.point_step && a.row_step == b.row_step, "dimensions kept");
  vp_check(a.is_dense == b.is_dense && !b.is_bigendian, "flags kept");
  vp_check(a.fields.size() == b.fields.size(), "number of fields kept");
  for (size_t i = 0; i < a.fields.size() && i < b.fields.size(); i++)
    vp_check(strEq(a.fields[i].name, b.fields[i].name) && a.fields[i].offset == b.fields[i].offset && a.fields[i].datatype == b.fields[i].datatype && a.fields[i].count == b.fields[i].count, "a field kept");
}
// what the cloud promises after compression with a resolution for FLOAT32 fields (and FLOAT64 fields, for the serialized path)
static EncodingInfo promise(const Cfg& c, double res, bool all) {
  EncodingInfo info = c.info;
  info.encoding_opt = EncodingOptions::LOSSY;
  for (auto& f : info.fields) { f.resolution.reset(); if (f.type == FieldType::FLOAT32 && all) f.resolution = (float)res; }
  return info;
}
static void assumeRange(const EncodingInfo& info, const uint8_t* data) {
  for (auto& f : info.fields)
    if (f.type == FieldType::FLOAT32 && f.resolution)
      for (size_t k = 0; k < (size_t)info.width * info.height; k++) {
        float v;
        memcpy(&v, data + k * info.point_step + f.offset, 4);
        const float lim = *f.resolution * 1073741824.0f;
        vp_assume(v != v || (v <= lim && v >= -lim));
      }
}
static CompressedPointCloud2 encodeWith(const CloudiniPublisher& p, const PointCloud2& raw) {
  auto r = p.encodeTyped(raw);
  vp_check(r.has_value() && r.value().has_value(), "a cloud is encoded");
  return *r.value();
}
static void checkRestored(const Cfg& c, const PointCloud2& raw, const CloudiniSubscriber& s, const CompressedPointCloud2& comp, double res) {
  auto d = s.decodeTyped(comp);
  vp_check(d.has_value() && d.value().has_value() && *d.value(), "a cloud is decoded");
  if (!d.has_value() || !d.value().has_value()) return;
  const PointCloud2& out = **d.value();
  sameMeta(raw, out);
  vp_check(out.data.size() == raw.data.size(), "number of bytes restored");
  if (out.data.size() != raw.data.size()) return;
  const EncodingInfo info = promise(c, res, true);
  assumeRange(info, raw.data.data());
  checkPoints(info, raw.data.data(), out.data.data(), (size_t)c.info.width * c.info.height);
  vp_sink(out.data.data(), out.data.size() < 100 ? out.data.size() : 100, "restored");
}
// ---- transport plugin
static void plugin(const Cfg& c, const Cfg& c2, bool two) {
  CloudiniPublisher p;
  double res = 0.001;
  const int how = vp_choose((int)vp_param("how", 4), "parameters");
  if (how == 1) { p.vp_overrides["cloudini_resolution"] = 0.25; res = 0.25; }
  if (how) p.declareParameters("points");
  if (how >= 2) {
    std::vector<rclcpp::Parameter> ps;
    ps.push_back(rclcpp::Parameter("points.other", rclcpp::Parameter::Value(std::string("x"))));
    if (how == 3) { ps.push_back(rclcpp::Parameter("points.cloudini.cloudini_resolution", rclcpp::Parameter::Value(0.5))); res = 0.5; }
    vp_check(p.vp_callback && p.vp_callback(ps).successful, "parameters are accepted");
  }
  vp_check(p.getTransportName() == "cloudini" && p.getDataType() == "point_cloud_interfaces/msg/CompressedPointCloud2", "names of the transport");
  CloudiniSubscriber s;
  vp_check(s.getTransportName() == p.getTransportName() && s.getDataType() == p.getDataType(), "the subscriber fits the publisher");
  const PointCloud2 raw = rosMsg(genMsg(c, false));
  const CompressedPointCloud2 comp = encodeWith(p, raw);
  sameMeta(raw, comp);
  vp_check(comp.format == "cloudini", "the format is named");
  // the header of the data, as an application reads it
  bool read = true;
  try {
    const EncodingInfo info = ReadEncodingInfo(comp);
    vp_check(info.width == raw.width && info.height == raw.height && info.point_step == raw.point_step && info.fields.size() == raw.fields.size(), "the header of the data");
  } catch (const std::exception&) { read = false; }
  vp_check(read, "ReadEncodingInfo accepts what the plugin publishes");
  if (two) {
    const PointCloud2 raw2 = rosMsg(genMsg(c2, false));
    const CompressedPointCloud2 comp2 = encodeWith(p, raw2);
    sameMeta(raw2, comp2);
    checkRestored(c2, raw2, s, comp2, res);
  }
  checkRestored(c, raw, s, comp, res);
  vp_reach("restored");
}
static void hostile(const Cfg& c) {
  CloudiniPublisher p;
  CloudiniSubscriber s;
  const PointCloud2 raw = rosMsg(genMsg(c, false));
  CompressedPointCloud2 m = encodeWith(p, raw);
  const CompressedPointCloud2 good = m;
  const long what = vp_param("what", 1);
  if (what & 1) { m.width = vp_sym<uint32_t>("width"); m.height = vp_sym<uint32_t>("height"); }
  if (what & 2) m.point_step = vp_sym<uint32_t>("step");
  if (what & 4)
    for (auto& f : m.fields) { f.offset = vp_sym<uint32_t>("offset"); f.datatype = vp_sym<uint8_t>("datatype"); if (f.name.size()) vp_make_symbolic(f.name.data(), f.name.size(), "name"); }
  if (what & 8) { const int n = vp_choose(4, "fields"); m.fields.resize((size_t)n); }
  if (what & 16) m.compressed_data.resize((size_t)vp_choose((int)m.compressed_data.size(), "cut"));
  if (what & 32) {
    const size_t w = (size_t)vp_param("win", 1);
    const size_t at = (size_t)vp_choose((int)(m.compressed_data.size() - w + 1), "at");
    vp_make_symbolic(m.compressed_data.data() + at, w, "window");
  }
  if (what & 64) {  // another cloud's data
    Cfg c2 = loadCfg("cfg2");
    m.compressed_data = encodeWith(p, rosMsg(genMsg(c2, false))).compressed_data;
  }
  bool ok = true;
  try {
    auto d = s.decodeTyped(m);
    if (!d.has_value() || !d.value().has_value() || !*d.value()) ok = false;
    else {
      const PointCloud2& out = **d.value();
      vp_check((unsigned __int128)out.width * out.height * out.point_step == out.data.size(), "the decoded message holds width x height points");
    }
  } catch (const std::exception&) { ok = false; }
  bool same = m.width == good.width && m.height == good.height && m.point_step == good.point_step && m.fields.size() == good.fields.size();
  for (size_t i = 0; same && i < m.fields.size(); i++) same = m.fields[i].offset == good.fields[i].offset && m.fields[i].datatype == good.fields[i].datatype && strEq(m.fields[i].name, good.fields[i].name);
  if (!(what & 112)) vp_check(ok == same, "a message is decoded exactly if it describes the cloud in its data");
  if (what & 16) vp_check(!ok, "shortened data is rejected");
  if (what & 64) vp_check(!ok, "the data of another cloud is rejected");
  vp_reach(ok ? "accepted" : "rejected");
}
// ---- conversions of the headers
static void conversions() {
  PointCloud2 r;
  r.header.stamp.sec = vp_sym<int32_t>("sec"); r.header.stamp.nanosec = vp_sym<uint32_t>("nsec");
  r.header.frame_id.assign(3, 'f');
  vp_make_symbolic(r.header.frame_id.data(), 3, "frame");
  r.width = vp_sym<uint32_t>("width"); r.height = vp_sym<uint32_t>("height"); r.point_step = vp_sym<uint32_t>("step"); r.row_step = vp_sym<uint32_t>("row");
  r.is_dense = vp_sym<uint8_t>("dense") & 1;
  r.is_bigendian = vp_sym<uint8_t>("bigendian") & 1;
  r.data.resize(5);
  const int nf = (int)vp_param("fields", 2);
  for (int i = 0; i < nf; i++) {
    sensor_msgs::msg::PointField f;
    f.name.assign(i == 0 ? 20 : (size_t)i, 'n');
    vp_make_symbolic(f.name.data(), f.name.size(), "name");
    f.offset = vp_sym<uint32_t>("offset"); f.datatype = vp_sym<uint8_t>("datatype"); f.count = vp_sym<uint32_t>("count");
    r.fields.push_back(f);
  }
  const float res = vp_sym<float>("resolution");
  vp_assume(res == res);
  const EncodingInfo e = ConvertToEncodingInfo(r, res);
  vp_check(e.width == r.width && e.height == r.height && e.point_step == r.point_step, "dimensions of the encoding info");
  vp_check(e.fields.size() == r.fields.size(), "fields of the encoding info");
  for (size_t i = 0; i < r.fields.size(); i++) {
    vp_check(strEq(e.fields[i].name, r.fields[i].name) && e.fields[i].offset == r.fields[i].offset && (uint8_t)e.fields[i].type == r.fields[i].datatype, "a field of the encoding info");
    vp_check(e.fields[i].resolution.has_value() == (r.fields[i].datatype == 7), "a resolution on FLOAT32 fields only");
    if (e.fields[i].resolution) vp_check(memcmp(&*e.fields[i].resolution, &res, 4) == 0, "the resolution asked for");
  }
  vp_check(e.encoding_opt == EncodingOptions::LOSSY, "lossy encoding");
  const cloudini_ros::RosPointCloud2 q = ConvertToRosPointCloud2(r);
  vp_check(q.ros_header.stamp_sec == r.header.stamp.sec && q.ros_header.stamp_nsec == r.header.stamp.nanosec && strEq(q.ros_header.frame_id, r.header.frame_id), "header");
  vp_check(q.width == r.width && q.height == r.height && q.point_step == r.point_step && q.row_step == r.row_step && q.is_dense == r.is_dense && q.is_bigendian == r.is_bigendian, "dimensions and flags");
  vp_check(q.data.data() == r.data.data() && q.data.size() == r.data.size(), "the data is not copied");
  vp_check(q.fields.size() == r.fields.size(), "fields");
  for (size_t i = 0; i < r.fields.size() && i < q.fields.size(); i++) vp_check(strEq(q.fields[i].name, r.fields[i].name) && q.fields[i].offset == r.fields[i].offset && (uint8_t)q.fields[i].type == r.fields[i].datatype, "a field");
  vp_reach("converted");
}
// message restored by the library from a serialized compressed message (P15)
static void checkSerialized(const Cfg& c, const Msg& m, const std::vector<uint8_t>& comp, double res, bool unpack) {
  std::vector<uint8_t> out = comp;
  if (unpack) {
    const auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(comp.data(), comp.size()));
    out.clear();
    cloudini_ros::convertCompressedCloudToPointCloud2(pc, out);
  }
  Msg dm = m;
  dm.row = m.step * m.width;
  dm.big = false;
  const std::vector<uint8_t> want = writeMsg(dm);
  vp_check(out.size() == want.size(), "size of the restored message");
  if (out.size() != want.size()) return;
  const size_t at = want.size() - 1 - m.data.size();
  vp_check_mem(out.data() + 4, want.data() + 4, at - 4, "header, dimensions and fields restored");
  vp_check(out.back() == want.back(), "is_dense restored");
  const EncodingInfo info = promise(c, res, res > 0);
  assumeRange(info, m.data.data());
  checkPoints(info, m.data.data(), out.data() + at, m.data.size() / (m.step ? m.step : 1));
}
static void serialize(const Cfg& c) {
  const Msg m = genMsg(c, false);
  std::vector<uint8_t> out(3, 0x77);
  SerializeCompressedPointCloud2(rosMsg(m), 0.25f, out);
  checkSerialized(c, m, out, 0.25, true);
  vp_sink(out.data(), out.size() < 120 ? out.size() : 120, "serialized");
  vp_reach("serialized");
}
static std::shared_ptr<rclcpp::SerializedMessage> serialized(const std::vector<uint8_t>& b) {
  auto m = std::make_shared<rclcpp::SerializedMessage>(b.size() ? b.size() : 1);
  auto& r = m->get_rcl_serialized_message();
  r.buffer_length = b.size();
  if (b.size()) memcpy(r.buffer, b.data(), b.size());
  return m;
}
static std::vector<uint8_t> compressMsg(const std::vector<uint8_t>& raw, double res) {
  auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(raw.data(), raw.size()));
  cloudini_ros::applyResolutionProfile({}, pc.fields, res > 0 ? std::optional<float>((float)res) : std::nullopt);
  auto info = cloudini_ros::toEncodingInfo(pc);
  info.use_threads = false;
  std::vector<uint8_t> out;
  cloudini_ros::convertPointCloud2ToCompressedCloud(pc, info, out);
  return out;
}
// typed messages whose data comes from the library's serialized path (topic converter, MCAP converter)
static void library(const Cfg& c) {
  Msg m = genMsg(c, false);
  m.row = m.step * m.width;
  const PointCloud2 raw = rosMsg(m);
  const std::vector<uint8_t> comp = compressMsg(writeMsg(m), 0.25);
  const auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(comp.data(), comp.size()));
  CompressedPointCloud2 t;
  t.header = raw.header; t.width = pc.width; t.height = pc.height; t.point_step = pc.point_step; t.row_step = pc.row_step;
  t.is_dense = pc.is_dense; t.is_bigendian = pc.is_bigendian;
  t.fields = raw.fields;
  t.compressed_data.assign(pc.data.data(), pc.data.data() + pc.data.size());
  CloudiniSubscriber s;
  checkRestored(c, raw, s, t, 0.25);
  vp_reach("restored");
}
// ---- topic converter
static void converter(const Cfg& c, const Cfg& c2) {
  const bool compressing = vp_choose(2, "direction") != 0;
  double res = 0.001;
  vp_ros::overrides["compressing"] = compressing;
  if (vp_choose(2, "resolution")) { vp_ros::overrides["resolution"] = 0.5; res = 0.5; }
  if (vp_choose(2, "statistics")) vp_ros::overrides["log_compression_stats"] = false;
  const bool named = vp_choose(2, "output topic") != 0;
  if (named) { vp_ros::overrides["topic_input"] = std::string("/in"); vp_ros::overrides["topic_output"] = std::string("/out"); }
  const bool fixed = vp_param("fixed", 1) != 0;
  {
    CloudiniPointcloudConverter node;
    vp_check(vp_ros::subscriptions.size() == 1 && vp_ros::publishers.size() == 1, "one subscription and one publisher");
    auto& sub = *vp_ros::subscriptions[0];
    auto& pub = *vp_ros::publishers[0];
    const std::string P = "sensor_msgs/msg/PointCloud2", Q = "point_cloud_interfaces/msg/CompressedPointCloud2";
    vp_check(sub.type == (compressing ? P : Q) && pub.type == (compressing ? Q : P), "the types of the topics");
    vp_check(sub.topic == (named ? "/in" : "/points") && pub.topic == (named ? "/out" : compressing ? "/points/compressed" : "/points/decompressed"), "the names of the topics");
    const int n = (int)vp_param("messages", 2);
    size_t sent = 0;
    for (int i = 0; i < n; i++) {
      const Cfg& cc = i % 2 ? c2 : c;
      Msg m = genMsg(cc, false, fixed);
      m.sec = 1000 + (uint32_t)i;
      const std::vector<uint8_t> raw = writeMsg(m), in = compressing ? raw : compressMsg(raw, res);
      vp_ros::subscribers = (size_t)vp_choose(2, "subscribers");
      auto msg = serialized(in);
      sub.callback(msg);
      vp_check_mem(msg->get_rcl_serialized_message().buffer, in.data(), in.size(), "the received message is not changed");
      msg.reset();
      sent += vp_ros::subscribers;
      vp_check(vp_ros::published.size() == sent, "each message is published once if there is a subscriber");
      if (!vp_ros::subscribers || vp_ros::published.size() != sent) continue;
      vp_check(vp_ros::published.back().topic == pub.topic, "on the output topic");
      checkSerialized(cc, m, vp_ros::published.back().bytes, res, compressing);
    }
  }
  vp_reach("converted");
}
static void qos() {
  const int n = (int)vp_param("endpoints", 2);
  bool allReliable = n > 0, allTransient = n > 0;
  for (int i = 0; i < n; i++) {
    rclcpp::QoS q(5);
    auto& p = q.get_rmw_qos_profile();
    p.reliability = (rmw_qos_reliability_policy_t)vp_choose(3, "reliability");
    p.durability = (rmw_qos_durability_policy_t)vp_choose(3, "durability");
    allReliable = allReliable && p.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE;
    allTransient = allTransient && p.durability == RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL;
    vp_ros::endpoints.push_back(rclcpp::TopicEndpointInfo(q));
  }
  CloudiniPointcloudConverter node;
  const auto& got = vp_ros::subscriptions[0]->qos.get_rmw_qos_profile();
  if (n) {  // a request that one of the publishers does not offer would receive nothing from it
    vp_check((got.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE) == allReliable, "reliable exactly if every publisher is");
    vp_check((got.durability == RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL) == allTransient, "transient local exactly if every publisher is");
  }
  vp_reach("qos");
}
// ---- subscriber for PCL
static void subscriber(const Cfg& c, const Cfg& c2) {
  rclcpp::Node node("n");
  const int keep = vp_choose(3, "clouds kept");  // none, the last one, all
  std::vector<pcl::PCLPointCloud2::Ptr> kept;
  std::vector<std::vector<uint8_t>> content;
  size_t calls = 0;
  const pcl::PCLPointCloud2* seen = nullptr;
  std::vector<uint8_t> seenData;
  pcl::PCLPointCloud2 got;
  const bool touch = vp_choose(2, "the user changes the cloud") != 0;
  auto* sub = new cloudini_ros::CloudiniSubscriberPCL(&node, "/c", [&](const pcl::PCLPointCloud2::Ptr& p) {
    calls++;
    got = *p;
    if (touch) { p->header.frame_id = "changed"; p->header.stamp = 77; p->is_dense = 9; p->width = 123; p->row_step = 5; p->is_bigendian = 1; p->data.resize(200, 0xEE); }
    if (keep == 1) { kept.clear(); content.clear(); }
    if (keep) { kept.push_back(p); content.push_back(p->data); }
  });
  vp_check(sub->getTopicName() == "/c" && vp_ros::subscriptions[0]->type == "point_cloud_interfaces/msg/CompressedPointCloud2", "the subscription");
  const int n = (int)vp_param("messages", 2);
  const double res = 0.25;
  for (int i = 0; i < n; i++) {
    const Cfg& cc = i % 2 ? c2 : c;
    Msg m = genMsg(cc, false, vp_param("fixed", 1) != 0);
    m.sec = 1000 + (uint32_t)i;
    std::vector<uint8_t> in = compressMsg(writeMsg(m), res);
    const int bad = vp_choose((int)vp_param("bad", 3), "damage");
    if (bad == 1) in.resize(in.size() - 20);
    if (bad == 2) in.resize(30);
    const size_t before = calls;
    auto msg = serialized(in);
    vp_ros::subscriptions[0]->callback(msg);
    msg.reset();
    vp_check(calls == before + (bad == 0), "the callback is called once per valid message");
    for (size_t k = 0; k < kept.size() && k < content.size(); k++) {
      vp_check(kept[k]->data.size() == content[k].size(), "a cloud the user keeps is not changed");
      for (size_t j = 0; j < k; j++) vp_check(kept[j].get() != kept[k].get(), "every message has its own cloud");
    }
    if (bad || calls != before + 1) continue;
    vp_check(got.width == m.width && got.height == m.height && got.point_step == m.step && got.row_step == m.step * m.width, "dimensions delivered");
    vp_check(!got.is_bigendian, "little endian delivered");
    vp_check(strEq(got.header.frame_id, m.frame) && got.header.stamp == (uint64_t)m.sec * 1000000u + m.nsec / 1000u, "stamp and frame delivered");
    vp_check((got.is_dense != 0) == (m.dense != 0), "is_dense delivered");
    vp_check(got.fields.size() == m.fields.size(), "fields delivered");
    for (size_t k = 0; k < m.fields.size() && k < got.fields.size(); k++) vp_check(got.fields[k].name == m.fields[k].name && got.fields[k].offset == m.fields[k].offset && got.fields[k].count == 1, "a field delivered");
    vp_check(got.data.size() == m.data.size(), "data delivered");
    if (got.data.size() == m.data.size()) {
      const EncodingInfo info = promise(cc, res, true);
      assumeRange(info, m.data.data());
      checkPoints(info, m.data.data(), got.data.data(), (size_t)cc.info.width * cc.info.height);
    }
  }
  if (vp_choose(2, "clouds outlive the subscriber")) {
    vp_ros::subscriptions.clear();
    delete sub;
    kept.clear();
  } else {
    kept.clear();
    vp_ros::subscriptions.clear();
    delete sub;
  }
  vp_reach("delivered");
}
// clouds used and released by a thread of the user while the next messages arrive
static void consumer(const Cfg& c, const Cfg& c2) {
  rclcpp::Node node("n");
  pcl::PCLPointCloud2::Ptr handed[4];
  size_t calls = 0;
  auto* sub = new cloudini_ros::CloudiniSubscriberPCL(&node, "/c", [&](const pcl::PCLPointCloud2::Ptr& p) { if (calls < 4) handed[calls++] = p; });
  const int n = (int)vp_param("messages", 2);
  std::vector<uint8_t> in[4];
  Msg m[4];
  for (int i = 0; i < n; i++) {
    m[i] = genMsg(i % 2 ? c2 : c, false, true);
    m[i].sec = 1000 + (uint32_t)i;
    in[i] = compressMsg(writeMsg(m[i]), 0.25);
  }
  auto check = [&](const pcl::PCLPointCloud2::Ptr& p, int i) {
    vp_check(p->header.stamp == (uint64_t)m[i].sec * 1000000u + m[i].nsec / 1000u && p->width == m[i].width && p->point_step == m[i].step, "the cloud of its message");
    vp_check(p->fields.size() == m[i].fields.size() && p->data.size() == m[i].data.size(), "whole");
    if (p->data.size() == m[i].data.size()) {
      const Cfg& cc = i % 2 ? c2 : c;
      checkPoints(promise(cc, 0.25, true), m[i].data.data(), p->data.data(), (size_t)cc.info.width * cc.info.height);
    }
  };
  auto call = [&](int i) { auto s = serialized(in[i]); vp_ros::subscriptions[0]->callback(s); };
  const int before = (int)vp_param("before", 1);
  for (int i = 0; i < before; i++) call(i);
  vp_check(calls == (size_t)before, "delivered");
  if (calls != (size_t)before) return;
  std::vector<std::thread> ts;
  for (int i = 0; i < before; i++) ts.emplace_back([&check, i, p = std::move(handed[i])]() mutable { check(p, i); p.reset(); });
  const bool gone = vp_param("gone", 0) != 0;
  for (int i = before; i < n; i++) call(i);
  vp_check(calls == (size_t)n, "every message is delivered");
  if (gone) { vp_ros::subscriptions.clear(); delete sub; }
  for (int i = before; i < n && (size_t)i < calls; i++) if (handed[i]) check(handed[i], i);
  for (auto& t : ts) t.join();
  for (auto& h : handed) h.reset();
  if (!gone) { vp_ros::subscriptions.clear(); delete sub; }
  vp_reach("consumed");
}
extern "C" void vp_main() {
  switch (vp_param("mode", 0)) {
    case 0: { Cfg c = loadCfg(), c2 = vp_param("two", 0) ? loadCfg("cfg2") : c; plugin(c, c2, vp_param("two", 0) != 0); break; }
    case 1: { Cfg c = loadCfg(); hostile(c); break; }
    case 2: conversions(); break;
    case 3: { Cfg c = loadCfg(); serialize(c); break; }
    case 4: { Cfg c = loadCfg(), c2 = loadCfg("cfg2"); converter(c, c2); break; }
    case 5: qos(); break;
    case 7: { Cfg c = loadCfg(); library(c); break; }
    case 6: { Cfg c = loadCfg(), c2 = loadCfg("cfg2"); subscriber(c, c2); break; }
    case 8: { Cfg c = loadCfg(), c2 = loadCfg("cfg2"); consumer(c, c2); break; }
  }
}
