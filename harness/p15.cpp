// P15: PointCloud2 message -> CompressedPointCloud2 message -> PointCloud2 message.
#include "ros.h"
using namespace cloudini_ros;
static const uint32_t DIMS[] = {0, 1, 2, 3, 5, 255, 65536, 0x10000001u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu};
static uint32_t dim(const char* what) { return DIMS[vp_choose((int)(sizeof DIMS / sizeof *DIMS), what)]; }
// outcome of decompressing the message `bytes`: on success the result has to be consistent in itself
static bool decompress(const std::vector<uint8_t>& bytes, std::vector<uint8_t>& out) {
  Exact x(bytes);
  try {
    const RosPointCloud2 pc = getDeserializedPointCloudMessage(x.view());
    const bool empty = pc.data.size() == 0;
    if (!empty) vp_check(pc.data.data() >= x.p && pc.data.data() + pc.data.size() <= x.p + x.n, "the data view lies inside the message");
    convertCompressedCloudToPointCloud2(pc, out);
    Exact y(out);
    const RosPointCloud2 back = getDeserializedPointCloudMessage(y.view());
    const unsigned __int128 size = (unsigned __int128)back.width * back.height * back.point_step;
    vp_check(size == back.data.size(), "the decompressed message holds width x height points");
    vp_check(back.width == pc.width && back.height == pc.height && back.point_step == pc.point_step, "dimensions carried over");
    return true;
  } catch (const std::exception&) { return false; }
}
static void message(const Cfg& c, long mode) {
  const bool big = vp_param("big", -1) >= 0 ? vp_param("big", 0) != 0 : vp_choose(2, "endianness") != 0;
  Msg m = genMsg(c, big, mode == 4 || (mode == 2 && vp_param("win", 2)));
  if (mode < 2) m.count = vp_sym<uint8_t>("count") & 1;  // some drivers leave it 0
  if (mode == 3) {  // hostile PointCloud2 message into the compressor
    const long what = vp_param("what", 1);
    if (what & 1) for (auto& f : m.fields) f.offset = vp_sym<uint32_t>("offset");
    if (what & 2) for (auto& f : m.fields) f.type = (FieldType)vp_choose(13, "type");
    if (what & 4) m.step = dim("step");
    if (what & 8) m.data.resize((size_t)vp_choose((int)m.data.size() + 4, "data size"));
    if (what & 16) { m.width = dim("width"); m.height = dim("height"); }
  }
  std::vector<uint8_t> raw = writeMsg(m);
  if (mode == 4) {  // one window of arbitrary bytes
    const size_t w = (size_t)vp_param("win", 2);
    const long lo = vp_param("from", 4), hi = vp_param("to", 1 << 20) < (long)(raw.size() - w) ? vp_param("to", 0) : (long)(raw.size() - w);
    if (hi < lo) return;
    const size_t at = (size_t)lo + (size_t)vp_choose((int)(hi - lo + 1), "at");
    vp_make_symbolic(raw.data() + at, w, "window");
  }
  if (mode == 5) raw.resize((size_t)vp_choose((int)raw.size(), "cut"));
  Exact rx(raw);
  std::vector<uint8_t> comp;
  if (vp_param("dirty", 1)) comp.assign(3, 0x77);
  RosPointCloud2 pc;
  EncodingInfo info;
  try {
    pc = getDeserializedPointCloudMessage(rx.view());
    info = toEncodingInfo(pc);
    info.version = c.info.version;
    info.use_threads = c.info.use_threads;
    info.encoding_opt = c.info.encoding_opt;
    info.compression_opt = c.info.compression_opt;
    for (size_t i = 0; i < info.fields.size() && i < c.info.fields.size(); i++) info.fields[i].resolution = c.info.fields[i].resolution;
    convertPointCloud2ToCompressedCloud(pc, info, comp);
  } catch (const std::exception&) {
    vp_check(mode >= 3, "a valid message is compressed");
    vp_reach("rejected");
    return;
  }
  if (mode >= 3) {
    vp_check(mode != 5, "a shortened message is rejected");
    std::vector<uint8_t> out;
    vp_reach(decompress(comp, out) ? "accepted" : "compressed only");
    return;
  }
  // metadata as parsed
  vp_check((uint32_t)pc.ros_header.stamp_sec == m.sec && pc.ros_header.stamp_nsec == m.nsec && strEq(pc.ros_header.frame_id, m.frame), "stamp and frame are read");
  vp_check(pc.height == m.height && pc.width == m.width && pc.point_step == m.step && pc.row_step == m.row && pc.is_dense == (m.dense != 0), "dimensions and flags are read");
  vp_check(pc.data.size() == m.data.size(), "data size read");
  bool same = pc.fields.size() == m.fields.size();
  for (size_t i = 0; same && i < m.fields.size(); i++) same = pc.fields[i].name == m.fields[i].name && pc.fields[i].offset == m.fields[i].offset && pc.fields[i].type == m.fields[i].type;
  vp_check(same, "fields are read");
  // the compressed message, byte for byte except for the cloudini payload
  PointcloudEncoder enc(info);
  Msg cm = m;
  cm.compressed = true;
  cm.count = 1;
  cm.row = m.step * m.width;
  cm.data.clear();
  if (m.data.size()) enc.encode(ConstBufferView(m.data.data(), m.data.size()), cm.data);
  const std::vector<uint8_t> expect = writeMsg(cm);
  vp_check(comp.size() == expect.size(), "compressed message size");
  if (comp.size() == expect.size()) vp_check_mem(comp.data(), expect.data(), comp.size(), "compressed message: metadata, byte order, payload size and format");
  vp_sink(comp.data(), comp.size() < 200 ? comp.size() : 200, "compressed");
  if (mode == 0) {
    std::vector<uint8_t> out(5, 0x55);
    vp_check(decompress(comp, out), "the compressed message is decompressed");
    Msg dm = m;
    dm.count = 1;
    dm.row = m.step * m.width;
    const std::vector<uint8_t> want = writeMsg(dm);
    vp_check(out.size() == want.size(), "decompressed message size");
    if (out.size() != want.size()) return;
    const size_t at = want.size() - 1 - m.data.size();
    vp_check_mem(out.data(), want.data(), at, "decompressed message: metadata and byte order");
    vp_check(out.back() == want.back(), "is_dense restored");
    checkPoints(info, m.data.data(), out.data() + at, m.data.size() / (m.step ? m.step : 1));
    vp_sink(out.data(), out.size() < 200 ? out.size() : 200, "decompressed");
    vp_reach("done");
  } else if (mode == 1) {  // damaged compressed message: outer metadata inconsistent with the payload
    const long what = vp_param("what", 1);
    if (what & 1) cm.width = dim("width");
    if (what & 2) cm.height = dim("height");
    if (what & 4) cm.step = dim("step");
    if (what & 8) cm.data.resize((size_t)vp_choose((int)cm.data.size(), "payload cut"));
    std::vector<uint8_t> out;
    const bool ok = decompress(writeMsg(cm), out);
    const unsigned __int128 outer = (unsigned __int128)cm.width * cm.height * cm.step, inner = (unsigned __int128)m.width * m.height * m.step;
    if (ok) vp_check(outer == 0 || (outer == inner && !(what & 8)), "a message whose payload has another size is rejected");
    vp_reach(ok ? "accepted" : "rejected");
  } else {  // one window of arbitrary bytes, or a cut, anywhere in the compressed message
    std::vector<uint8_t> bad = comp, out;
    const size_t w = (size_t)vp_param("win", 2);
    if (w) {
      const long lo = vp_param("from", 4), hi = vp_param("to", 1 << 20) < (long)(bad.size() - w) ? vp_param("to", 0) : (long)(bad.size() - w);
      if (hi < lo) return;
      const size_t at = (size_t)lo + (size_t)vp_choose((int)(hi - lo + 1), "at");
      vp_make_symbolic(bad.data() + at, w, "window");
    } else bad.resize((size_t)vp_choose((int)bad.size() - 16 /* up to is_dense; the format is not read */, "cut"));
    const bool ok = decompress(bad, out);
    if (!w) vp_check(!ok, "a shortened message is rejected");
    vp_reach(ok ? "accepted" : "rejected");
  }
}
extern "C" void vp_main() {
  Cfg c = loadCfg(), a = loadCfg("a"), b = loadCfg("b");
  // what was converted before makes no difference
  if (!a.info.fields.empty()) message(a, 0);
  if (!b.info.fields.empty()) message(b, vp_param("bmode", 0));
  message(c, vp_param("mode", 0));
}
