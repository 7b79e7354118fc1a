// P23: the MCAP converter keeps every channel, message, timestamp and the order, and converts exactly the point clouds.
#include <map>
#include <optional>
#include "ros.h"
namespace defs {  // the variables in it are defined, not declared
#include "cloudini_lib/ros_message_definitions.hpp"
}
using namespace defs;
#include "mcap_converter.hpp"
#include <mcap/reader.hpp>
#include <mcap/writer.hpp>
using namespace mcap;
static const std::string PC = "sensor_msgs/msg/PointCloud2", CC = "point_cloud_interfaces/msg/CompressedPointCloud2";
static const std::string INPUT = "/dev/null";  // the one input file that can be opened
static std::string text(const ByteArray& d) { return std::string((const char*)d.data(), d.size()); }
static bool eqBytes(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b, const char* msg) {
  vp_check(a.size() == b.size(), "payload size");
  if (a.size() == b.size() && a.size()) vp_check_mem(a.data(), b.data(), a.size(), msg);
  return a.size() == b.size();
}
static bool mapEq(const KeyValueMap& a, const KeyValueMap& b) {
  if (a.size() != b.size()) return false;
  for (auto& [k, v] : a) { auto it = b.find(k); if (it == b.end() || !strEq(it->second, v)) return false; }
  return true;
}
static std::string symText(size_t n, const char* what) { std::string s(n, 'q'); if (n) vp_make_symbolic(s.data(), n, what); return s; }
// ---- bags
static SchemaId SID[] = {7, 3, 20};
static ChannelId CID[] = {12, 4, 300};
static Schema makeSchema(int kind, size_t i) {
  const std::string enc = kind == 1 || kind == 2 ? "ros2msg" : symText(3, "schema encoding"), text = symText(2, "schema text");  // in this order
  Schema s(kind == 1 ? PC : kind == 2 ? CC : kind == 3 ? "sensor_msgs/msg/PointCloud" : "std_msgs/msg/String", enc, text);
  s.id = SID[i];
  return s;
}
static std::vector<uint8_t> cloudMsg(const Cfg& c, bool fixed) { return writeMsg(genMsg(c, false, fixed)); }
// the compressed form of a PointCloud2 message, made by the library itself (P15)
static std::vector<uint8_t> compress(const std::vector<uint8_t>& raw, const std::map<std::string, float>& prof, std::optional<float> def, bool viz) {
  auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(raw.data(), raw.size()));
  cloudini_ros::applyResolutionProfile(prof, pc.fields, def);
  if (viz) cloudini_ros::applyVizLossyPreprocessing(pc);
  auto info = cloudini_ros::toEncodingInfo(pc);
  info.compression_opt = CompressionOption::NONE;
  info.use_threads = false;
  std::vector<uint8_t> out;
  cloudini_ros::convertPointCloud2ToCompressedCloud(pc, info, out);
  return out;
}
static std::vector<uint8_t> decompress(const std::vector<uint8_t>& comp) {
  std::vector<uint8_t> out;
  const auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(comp.data(), comp.size()));
  cloudini_ros::convertCompressedCloudToPointCloud2(pc, out);
  return out;
}
static Bag makeBag(const Cfg& c, int ns, int nc, int nm, bool compressed) {
  Bag b;
  b.profile = symText(2, "profile");
  std::vector<int> kind;
  const long kinds = vp_param("kinds", -1);
  for (int i = 0; i < ns; i++) {
    kind.push_back(kinds >= 0 ? (int)(kinds >> (4 * i)) & 15 : vp_choose((int)vp_param("nkinds", 3), "schema kind"));
    b.schemas.push_back(makeSchema(kind[i], (size_t)i));
  }
  std::vector<int> chan;
  for (int i = 0; i < nc; i++) {
    const int s = vp_choose(ns + (vp_param("none", 1) ? 1 : 0), "schema of the channel");
    const std::string enc = s < ns && (kind[s] == 1 || kind[s] == 2) ? "cdr" : symText(3, "message encoding"), qos = symText(2, "qos");
    Channel ch(i == 1 && vp_param("sametopic", 0) ? "/t0" : "/t" + std::to_string(i), enc, s < ns ? SID[s] : 0, {{"offered_qos_profiles", qos}});
    if (i == 1) ch.metadata["k"] = "";
    if (i == 2) ch.metadata.clear();
    ch.id = CID[i];
    b.channels.push_back(ch);
    chan.push_back(s < ns ? kind[s] : 0);
  }
  for (int i = 0; i < nm && nc; i++) {
    BagMessage m;
    const int ch = vp_choose(nc, "channel");
    m.channelId = CID[ch];
    m.sequence = vp_sym<uint32_t>("sequence");
    m.logTime = vp_sym<uint64_t>("logTime");
    m.publishTime = vp_sym<uint64_t>("publishTime");
    if (chan[ch] == 1 || chan[ch] == 2) {
      m.data = cloudMsg(c, vp_param("fixed", 1) != 0);
      if (chan[ch] == 2) m.data = compress(m.data, {}, {}, false);
    } else {
      m.data.resize((size_t)(i == 0 ? 3 : vp_choose(2, "payload size")));
      if (m.data.size()) vp_make_symbolic(m.data.data(), m.data.size(), "payload");
    }
    b.messages.push_back(m);
  }
  const int md = (int)vp_param("metadata", 0);
  for (int i = 0; i < md; i++) b.metadata.push_back(Metadata{i && vp_choose(2, "same name") ? "m0" : "m" + std::to_string(i), {{"key", symText(2, "metadata")}}});
  return b;
}
struct Opt { std::string prof; std::map<std::string, float> profile; std::optional<float> def; bool viz = false; CompressionOption comp = CompressionOption::NONE; };
// everything but the converted payloads
static void compare(const Bag& in, const Bag& out, bool encoding, const Opt& o, bool payloads = true) {
  const std::string from = encoding ? PC : CC, to = encoding ? CC : PC;
  const std::string toData = encoding ? compressed_schema_data : pointcloud_schema_data;
  vp_check(out.opened && out.closed, "the output is complete");
  vp_check(strEq(out.profile, in.profile), "profile of the bag kept");
  vp_check(out.compression == (o.comp == CompressionOption::ZSTD ? Compression::Zstd : o.comp == CompressionOption::LZ4 ? Compression::Lz4 : Compression::None), "compression of the output as asked for");
  vp_check(out.schemas.size() == in.schemas.size(), "number of schemas");
  vp_check(out.channels.size() == in.channels.size(), "number of channels");
  vp_check(out.metadata.size() == in.metadata.size(), "number of metadata records");
  vp_check(out.messages.size() == in.messages.size(), "number of messages");
  if (out.channels.size() != in.channels.size() || out.messages.size() != in.messages.size() || out.metadata.size() != in.metadata.size()) return;
  auto schemaOf = [](const Bag& b, SchemaId id) -> const Schema* { for (auto& s : b.schemas) if (s.id == id) return &s; return nullptr; };
  auto sameSchema = [&](const Schema& a, const Schema& b) {
    const bool conv = a.name == from;
    return b.name == (conv ? to : a.name) && strEq(b.encoding, a.encoding) && strEq(text(b.data), conv ? toData : text(a.data));
  };
  for (auto& s : in.schemas) {
    bool found = false;
    for (auto& t : out.schemas) found = found || sameSchema(s, t);
    vp_check(found, "every schema is kept or converted");
  }
  auto sameChannel = [&](const Channel& a, const Channel& b) {
    if (a.topic != b.topic || !strEq(a.messageEncoding, b.messageEncoding) || !mapEq(a.metadata, b.metadata)) return false;
    const Schema *s = schemaOf(in, a.schemaId), *t = schemaOf(out, b.schemaId);
    return s ? t && sameSchema(*s, *t) : b.schemaId == 0;
  };
  std::map<ChannelId, ChannelId> to_out;
  for (size_t i = 0; i < in.messages.size(); i++) {
    const BagMessage &a = in.messages[i], &b = out.messages[i];
    vp_check(a.sequence == b.sequence && a.logTime == b.logTime && a.publishTime == b.publishTime, "sequence number and times of a message kept, in order");
    const Channel *p = nullptr, *q = nullptr;
    for (auto& c : in.channels) if (c.id == a.channelId) p = &c;
    for (auto& c : out.channels) if (c.id == b.channelId) q = &c;
    vp_check(q != nullptr, "a message refers to a channel of the output");
    if (!q) continue;
    vp_check(sameChannel(*p, *q), "a message stays on its channel");
    for (auto& [x, y] : to_out) vp_check((x == a.channelId) == (y == b.channelId), "one output channel per input channel");
    to_out[a.channelId] = b.channelId;
    const Schema* s = schemaOf(in, p->schemaId);
    if (!s || s->name != from) eqBytes(a.data, b.data, "other messages are copied unchanged");
    else if (payloads) {
      if (encoding) eqBytes(decompress(b.data), decompress(compress(a.data, o.profile, o.def, o.viz)), "a cloud is converted with the options asked for");
      else eqBytes(b.data, decompress(a.data), "a compressed cloud is converted back");
    }
  }
  for (auto& c : in.channels) {
    int n = 0, k = 0;
    for (auto& d : out.channels) n += sameChannel(c, d);
    for (auto& d : in.channels) k += c.topic == d.topic && strEq(c.messageEncoding, d.messageEncoding) && c.schemaId == d.schemaId && mapEq(c.metadata, d.metadata);
    vp_check(n >= k, "every channel is kept with its topic, encoding, schema and metadata");
  }
  for (auto& m : in.metadata) {
    bool found = false;
    for (auto& n : out.metadata) found = found || (n.name == m.name && mapEq(n.metadata, m.metadata));
    vp_check(found, "every metadata record is kept");
  }
}
static void expectTopics(const Bag& b, const McapConverter::TopicsMap& t) {
  size_t n = 0;
  std::map<std::string, bool> seen;
  for (auto& c : b.channels)
    for (auto& s : b.schemas)
      if (s.id == c.schemaId && (s.name == PC || s.name == CC)) {
        auto it = t.find(c.topic);
        vp_check(it != t.end(), "a cloud topic is listed");
        n += !seen[c.topic];
        seen[c.topic] = true;
      }
  vp_check(t.size() == n, "only cloud topics are listed");
}
static Opt options(long sel) {
  static const struct { const char* s; std::map<std::string, float> m; } P[] = {
      {"", {}}, {"xyz:0.5;ring:remove", {{"x", 0.5f}, {"y", 0.5f}, {"z", 0.5f}, {"ring", 0.0f}}}, {" ring : remove ; t:1", {{"ring", 0.0f}, {"t", 1.0f}}}, {"x:0.01", {{"x", 0.01f}}}, {"y:remove;xyz:0.25;x:2", {{"x", 2.0f}, {"y", 0.25f}, {"z", 0.25f}}}};
  Opt o;
  const int p = (sel & 1) ? vp_choose(5, "profile") : 0;
  o.prof = P[p].s;
  o.profile = P[p].m;
  if ((sel & 2) && vp_choose(2, "default resolution")) o.def = 0.125f;
  o.viz = (sel & 4) && vp_choose(2, "viz");
  o.comp = (sel & 8) ? (CompressionOption)vp_choose(3, "compression") : CompressionOption::NONE;
  return o;
}
static Bag encode(McapConverter& conv, const Bag& in, const Opt& o) {
  Bag out;
  stub::source = &in;
  stub::sink = &out;
  expectTopics(in, conv.open(INPUT));
  if (o.prof.size()) conv.addProfile(o.prof);
  conv.encodePointClouds("out.mcap", o.def, o.comp, o.viz);
  vp_check(out.name == "out.mcap", "the file asked for");
  stub::sink = nullptr;
  return out;
}
static Bag decode(McapConverter& conv, const Bag& in, const Opt& o, bool open = true) {
  Bag out;
  if (open) { stub::source = &in; expectTopics(in, conv.open(INPUT)); }
  stub::sink = &out;
  conv.decodePointClouds("out.mcap", o.comp);
  stub::sink = nullptr;
  return out;
}
// ids as a reader of the written file sees them
static Bag reread(const Bag& b) {
  Bag r = b;
  for (size_t i = 0; i < r.schemas.size(); i++) r.schemas[i].id = (SchemaId)(i + 1);
  return r;
}
static void sinkBag(const Bag& b) {
  for (auto& m : b.messages) { vp_sink(&m.logTime, 8, "time"); vp_sink(m.data.data(), m.data.size() < 60 ? m.data.size() : 60, "payload"); }
  for (auto& c : b.channels) vp_sink(c.topic.data(), c.topic.size(), "topic");
}
static std::vector<std::string> members(const char* def) {  // "type name" lines up to the separator
  std::vector<std::string> r;
  std::string line;
  for (const char* p = def;; p++) {
    if (*p && *p != '\n') { line += *p; continue; }
    const size_t h = line.find('#');
    if (h != std::string::npos) line.resize(h);
    std::string w;
    for (char c : line) if (c != ' ' && c != '\t' && c != '\r') w += c; else if (w.size() && w.back() != ' ') w += ' ';
    while (w.size() && w.back() == ' ') w.pop_back();
    line.clear();
    if (w.size() && w[0] == '=') break;
    if (w.size() && w.find('=') == std::string::npos) r.push_back(w);
    if (!*p) break;
  }
  return r;
}
static void definitions() {
  const std::vector<std::string> common = {"std_msgs/Header header", "uint32 height", "uint32 width", "PointField[] fields", "bool is_bigendian", "uint32 point_step", "uint32 row_step"};
  auto a = members(pointcloud_schema_data), b = members(compressed_schema_data);
  vp_check(PC == pointcloud_schema_name && CC == compressed_schema_name, "the names of the message types");
  vp_check(a.size() == 9 && b.size() == 10, "number of members");
  for (size_t i = 0; i < 7; i++) {
    auto ok = [&](const std::string& s) { return s == common[i] || (i == 0 && s == "std_msgs/msg/Header header") || (i == 3 && (s == "sensor_msgs/PointField[] fields" || s == "sensor_msgs/msg/PointField[] fields")); };
    vp_check(i < a.size() && ok(a[i]) && i < b.size() && ok(b[i]), "the members of the header, in the order they are written");
  }
  vp_check(a.size() == 9 && a[7] == "uint8[] data" && a[8] == "bool is_dense", "PointCloud2");
  vp_check(b.size() == 10 && b[7] == "uint8[] compressed_data" && b[8] == "bool is_dense" && b[9] == "string format", "CompressedPointCloud2");
  vp_reach("definitions");
}
static void profiles() {
  static const char* N[] = {"x", "xyz", "ring", ""};
  static const char* R[] = {"0.5", "remove", "abc", "", "-1e-3", " 2 ", "removed", "1:2"};
  static const int OK[] = {1, 1, 0, 0, 1, 1, 0, 0};
  static const float V[] = {0.5f, 0.0f, 0, 0, -1e-3f, 2.0f, 0, 0};
  const int n = (int)vp_param("entries", 2);
  std::string s;
  std::map<std::string, float> want;
  bool ok = true;
  const int shape = vp_choose(3, "shape");  // plain, blanks, a missing colon in the last entry
  for (int i = 0; i < n; i++) {
    const int a = vp_choose(4, "name"), b = vp_choose(8, "resolution");
    if (i) s += ';';
    const bool last = i == n - 1;
    if (shape == 2 && last) vp_assume(b != 7);
    s += std::string(shape == 1 ? " \t" : "") + N[a] + (shape == 1 ? " " : "") + (shape == 2 && last ? "" : ":") + R[b];
    ok = ok && OK[b] && !(shape == 2 && last);
    if (!ok) continue;
    if (a == 1) want["x"] = want["y"] = want["z"] = V[b]; else want[N[a]] = V[b];
  }
  McapConverter c;
  bool accepted = true;
  try { c.addProfile(s); } catch (const std::exception&) { accepted = false; }
  vp_check(accepted == ok, "a profile is accepted exactly if it is well formed");
  if (!accepted) { vp_reach("rejected"); return; }
  const auto got = c.getProfile();
  vp_check(got.size() == want.size(), "number of entries");
  for (auto& [k, v] : got) vp_check(want.count(k) && memcmp(&want[k], &v, 4) == 0, "name and resolution of an entry");
  vp_reach("accepted");
}
static void failures(const Cfg& c) {
  Bag in = makeBag(c, 1, 1, 1, false), out;
  in.metadata.push_back(Metadata{"m", {{"a", "b"}}});
  const int what = vp_choose(10, "failure");
  const bool enc = vp_choose(2, "direction") != 0;
  McapConverter conv;
  stub::source = &in;
  stub::sink = &out;
  CompressionOption comp = CompressionOption::NONE;
  if (what == 1) stub::failOpen = 1;
  if (what == 2) stub::failSummary = 1;
  if (what == 3) stub::failCreate = 1;
  if (what >= 4 && what <= 6) stub::failMetadata = what - 3;
  if (what == 7) stub::failWrite = 0;
  if (what == 8) comp = (CompressionOption)9;
  bool thrown = false;
  try {
    if (what != 9) conv.open(INPUT);
    if (enc) conv.encodePointClouds("out.mcap", 0.5f, comp); else conv.decodePointClouds("out.mcap", comp);
  } catch (const std::exception&) { thrown = true; }
  vp_check(thrown == (what != 0), "a failure to read or write is reported, and nothing else is");
  if (what == 1 || what == 2) {  // the object knows that it has no input
    bool again = false;
    try { if (enc) conv.encodePointClouds("out.mcap", 0.5f, comp); else conv.decodePointClouds("out.mcap", comp); } catch (const std::exception&) { again = true; }
    vp_check(again, "no conversion without an input");
  }
  vp_reach(thrown ? "failed" : "ok");
}
// a cloud message that was cut or changed: the conversion fails with an exception or converts everything else as ever
static void damaged(const Cfg& c) {
  Bag in = makeBag(c, (int)vp_param("schemas", 1), (int)vp_param("channels", 1), (int)vp_param("messages", 1), false), out;
  const bool enc = vp_choose(2, "direction") != 0;
  const std::string& type = enc ? PC : CC;
  const size_t at = (size_t)vp_choose((int)in.messages.size(), "message");
  const Schema* s = nullptr;
  for (auto& ch : in.channels) if (ch.id == in.messages[at].channelId) for (auto& t : in.schemas) if (t.id == ch.schemaId) s = &t;
  if (!s || s->name != type) { vp_reach("not a cloud"); return; }
  auto& d = in.messages[at].data;
  const long win = vp_param("win", 0);
  if (!win) {  // the format at the end of compressed messages is not read
    const auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(d.data(), d.size()));
    d.resize((size_t)vp_choose((int)(pc.data.data() + pc.data.size() + 1 - d.data()), "cut"));
  }
  else vp_make_symbolic(d.data() + vp_choose((int)(d.size() - (size_t)win + 1), "at"), (size_t)win, "window");
  McapConverter conv;
  stub::source = &in;
  stub::sink = &out;
  bool thrown = false;
  try {
    conv.open(INPUT);
    if (enc) conv.encodePointClouds("out.mcap", 0.5f, CompressionOption::NONE); else conv.decodePointClouds("out.mcap", CompressionOption::NONE);
  } catch (const std::exception&) { thrown = true; }
  if (!win) vp_check(thrown, "a message that was cut is reported");
  if (!thrown) {
    vp_check(out.messages.size() == in.messages.size(), "number of messages");
    for (size_t i = 0; i < in.messages.size() && i < out.messages.size(); i++) {
      const BagMessage &a = in.messages[i], &b = out.messages[i];
      vp_check(a.sequence == b.sequence && a.logTime == b.logTime && a.publishTime == b.publishTime, "sequence number and times of a message kept, in order");
    }
  }
  vp_reach(thrown ? "rejected" : "converted");
}
extern "C" void vp_main() {
  const long mode = vp_param("mode", 0);
#ifdef VP_IOSTREAM_H
  static const std::string empty;
  std::vp_file_name = &INPUT;
  std::vp_file_text = &empty;
#endif
  if (mode == 3) { profiles(); return; }
  if (mode == 5) { definitions(); return; }
  Cfg c = loadCfg();
  if (mode == 4) { failures(c); return; }
  if (mode == 8) { damaged(c); return; }
  const Bag in = makeBag(c, (int)vp_param("schemas", 2), (int)vp_param("channels", 2), (int)vp_param("messages", 2), false);
  const Opt o = options(vp_param("options", 0));
  McapConverter conv;
  if (mode == 0) {  // PointCloud2 -> compressed
    const Bag out = encode(conv, in, o);
    compare(in, out, true, o);
    sinkBag(out);
    vp_reach("encoded");
  } else if (mode == 1) {  // compressed -> PointCloud2
    const Bag out = decode(conv, in, o);
    compare(in, out, false, o);
    sinkBag(out);
    vp_reach("decoded");
  } else if (mode == 2) {  // there and back
    const Bag mid = encode(conv, in, o);
    compare(in, mid, true, o, false);
    McapConverter other;
    const Bag out = decode(vp_param("sameobject", 0) ? conv : other, mid, Opt());
    compare(mid, out, false, Opt(), false);
    for (size_t i = 0; i < in.messages.size() && i < out.messages.size(); i++) {
      const BagMessage &a = in.messages[i], &b = out.messages[i];
      const Schema* s = nullptr;
      for (auto& ch : in.channels) if (ch.id == a.channelId) for (auto& t : in.schemas) if (t.id == ch.schemaId) s = &t;
      if (!s || s->name != PC) {
        if (!s || s->name != CC) eqBytes(a.data, b.data, "other messages are the same after both conversions");
        continue;
      }
      if (o.viz) continue;
      // the cloud of the original message, without the fields that were to be removed
      EncodingInfo info = c.info;
      info.encoding_opt = EncodingOptions::LOSSY;
      cloudini_ros::applyResolutionProfile(o.profile, info.fields, o.def);
      const auto x = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(a.data.data(), a.data.size())), y = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(b.data.data(), b.data.size()));
      vp_check(x.width == y.width && x.height == y.height && x.point_step == y.point_step && x.is_dense == y.is_dense, "dimensions restored");
      vp_check(x.ros_header.stamp_sec == y.ros_header.stamp_sec && x.ros_header.stamp_nsec == y.ros_header.stamp_nsec && strEq(x.ros_header.frame_id, y.ros_header.frame_id), "header restored");
      vp_check(y.fields.size() == info.fields.size(), "fields restored");
      for (size_t k = 0; k < info.fields.size() && k < y.fields.size(); k++) vp_check(y.fields[k].name == info.fields[k].name && y.fields[k].offset == info.fields[k].offset && y.fields[k].type == info.fields[k].type, "a field restored");
      vp_check(y.data.size() == x.data.size(), "number of bytes restored");
      for (auto& f : info.fields)  // the range in which the codec promises the tolerance (P04)
        if (f.resolution && f.type == FieldType::FLOAT32)
          for (size_t k = 0; k < (size_t)info.width * info.height; k++) {
            float v;
            memcpy(&v, x.data.data() + k * info.point_step + f.offset, 4);
            const float lim = *f.resolution * 1073741824.0f;
            vp_assume(v != v || (v <= lim && v >= -lim));
          }
      if (y.data.size() == x.data.size()) checkPoints(info, x.data.data(), y.data.data(), (size_t)info.width * info.height);
    }
    sinkBag(out);
    vp_reach("round trip");
  } else if (mode == 6) {  // one object, two conversions of the same input
    const Bag first = encode(conv, in, o);
    Bag second;
    stub::sink = &second;
    const bool back = vp_choose(2, "then decode") != 0;
    if (back) conv.decodePointClouds("out.mcap", CompressionOption::NONE); else conv.encodePointClouds("out.mcap", o.def, o.comp, o.viz);
    compare(in, second, !back, back ? Opt() : o);
    vp_reach("second");
  } else if (mode == 7) {  // one object, two files
    const Bag first = encode(conv, in, Opt());
    // the same numbers stand for other schemas and channels, in another order
    SID[1] = 20; SID[2] = 3;
    CID[1] = 300; CID[2] = 4;
    const Bag next = makeBag(c, (int)vp_param("schemas2", 2), (int)vp_param("channels2", 2), 1, false);
    const bool back = vp_choose(2, "then decode") != 0;
    const Bag second = back ? decode(conv, next, Opt()) : encode(conv, next, Opt());
    compare(in, first, true, Opt());
    compare(next, second, !back, Opt());
    vp_reach("two files");
  }
}
