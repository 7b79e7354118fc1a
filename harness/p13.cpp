// P13: the encoder with a compression thread, on every schedule of the synchronisation operations.
#include <optional>
#include <thread>
#include "cloud.h"
extern int vp_comp_fail_call, vp_comp_calls, vp_comp_count;
struct Out { bool ok = false; std::vector<uint8_t> bytes; };
static Out enc(PointcloudEncoder& e, const std::vector<uint8_t>& in) {
  Out o;
  try { const size_t n = e.encode(ConstBufferView(in.data(), in.size()), o.bytes); vp_check(n == o.bytes.size(), "encode returns the size of its output"); o.ok = true; } catch (const std::exception&) { o.ok = false; }
  return o;
}
static std::vector<uint8_t> gen(const Cfg& c) {
  const size_t n = (size_t)c.info.width * c.info.height;
  std::vector<uint8_t> in(n * c.info.point_step);
  genCloud(c, in.data(), n);
  return in;
}
static void same(const Out& a, const Out& b) {
  vp_check(a.ok == b.ok, "succeeds exactly when the single-threaded encoder does");
  if (!a.ok || !b.ok) return;
  vp_check(a.bytes.size() == b.bytes.size(), "the size of the single-threaded encoder's output");
  if (a.bytes.size() == b.bytes.size()) vp_check_mem(a.bytes.data(), b.bytes.data(), a.bytes.size(), "the bytes of the single-threaded encoder");
}
extern "C" void vp_main() {
  Cfg c = loadCfg(), a = loadCfg("a");
  const long mode = vp_param("mode", 0), calls = vp_param("calls", 1);
  EncodingInfo info = c.info, single = c.info;
  info.use_threads = true;
  single.use_threads = false;
  std::vector<uint8_t> in[2];
  in[0] = gen(c);
  if (!a.info.fields.empty()) in[1] = gen(a); else in[1] = in[0];
  if (mode == 0) {  // a life of `calls` clouds, alternating between the two; faults: the failing compressor call, per cloud
    const int fails = (int)vp_param("fails", 0);  // 0 none; n: the first faulty cloud fails at one of its first n compressions
    const int bad = fails ? vp_choose((int)calls, "cloud with a failing compressor") : -1;
    const int at = fails ? 1 + vp_choose(fails, "failing compression") : 0;
    const bool twice = fails && vp_param("twice", 0);
    Out want[4], got;
    for (int k = 0; k < calls; k++) {
      PointcloudEncoder s(single);
      if (k == bad || (twice && k == bad + 1)) vp_comp_fail_call = vp_comp_calls + at;
      want[k] = enc(s, in[k & 1]);
      vp_comp_fail_call = 0;
    }
    {
      PointcloudEncoder e(info);
      for (int k = 0; k < calls; k++) {
        if (k == bad || (twice && k == bad + 1)) vp_comp_fail_call = vp_comp_calls + at;
        got = enc(e, in[k & 1]);
        vp_comp_fail_call = 0;
        same(got, want[k]);
      }
      vp_reach("encoded");
    }
    vp_reach(got.ok ? "last cloud encoded" : "last cloud failed");
    vp_sink(got.bytes.data(), got.ok ? got.bytes.size() < 64 ? got.bytes.size() : 64 : 0, "out");
  } else if (mode == 1) {  // a thread cannot be created: at construction, or when the worker is replaced after a failure
    PointcloudEncoder s(single);
    const Out want = enc(s, in[0]);
    std::optional<PointcloudEncoder> e;
    bool made = true;
    try { e.emplace(info); } catch (const std::exception&) { made = false; }
    vp_check(made == (vp_param("thread_start_fails", 0) != 1), "construction fails exactly when the thread cannot be created");
    if (made) {
      vp_comp_fail_call = vp_comp_calls + 1;
      Out o = enc(*e, in[0]);
      vp_comp_fail_call = 0;
      vp_check(!o.ok, "the failing compressor is reported");
      o = enc(*e, in[0]);  // may fail: no thread to be had
      if (o.ok) same(o, want);
      vp_reach(o.ok ? "second cloud encoded" : "second cloud failed");
      o = enc(*e, in[0]);
      vp_check(o.ok, "the encoder is usable again");
      same(o, want);
    }
    vp_reach("done");
  } else if (mode == 2) {  // two user threads, each with its own objects
    Out want[2], got[2];
    std::vector<uint8_t> back[2];
    const EncodingInfo& mine = vp_param("nested", 0) ? info : single;
    EncodingInfo infos[2] = {mine, mine};
    if (!a.info.fields.empty()) { infos[1] = a.info; infos[1].use_threads = mine.use_threads; }
    for (int k = 0; k < 2; k++) { EncodingInfo i1 = infos[k]; i1.use_threads = false; PointcloudEncoder s(i1); want[k] = enc(s, in[k]); }
    vp_comp_count = 0;
    auto body = [&](int k) {
      PointcloudEncoder e(infos[k]);
      got[k] = enc(e, in[k]);
      ConstBufferView v(got[k].bytes.data(), got[k].bytes.size());
      const EncodingInfo h = DecodeHeader(v);
      PointcloudDecoder d;
      back[k].resize(in[k].size());
      d.decode(h, v, BufferView(back[k].data(), back[k].size()));
    };
    std::thread t(body, 1);
    if (vp_param("both", 0)) { std::thread u(body, 0); u.join(); } else body(0);
    t.join();
    for (int k = 0; k < 2; k++) same(got[k], want[k]);
    for (int k = 0; k < 2; k++) if (back[k].size()) vp_sink(back[k].data(), back[k].size() < 64 ? back[k].size() : 64, "back");
    vp_reach("done");
  }
}
