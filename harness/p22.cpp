// P22: the PCL conversions keep dimensions, fields and data; the PCD header reader maps every SIZE and TYPE.
#include <unistd.h>
#include <cstdlib>
#include <iostream>
#include <fstream>
#include <sstream>
#include "cloud.h"
#include "cloudini_lib/pcl_conversion.hpp"
static pcl::PCLPointCloud2 onDisk;
static int loadResult = 0;
namespace pcl { namespace io { int loadPCDFile(const std::string&, PCLPointCloud2& c) { if (loadResult == 0) c = onDisk; return loadResult; } } }
// the oracle's own table of PCL's data types
static FieldType fromPcl(uint8_t d) {
  switch (d) {
    case 1: return FieldType::INT8;
    case 2: return FieldType::UINT8;
    case 3: return FieldType::INT16;
    case 4: return FieldType::UINT16;
    case 5: return FieldType::INT32;
    case 6: return FieldType::UINT32;
    case 7: return FieldType::FLOAT32;
    case 8: return FieldType::FLOAT64;
  }
  return FieldType::UNKNOWN;
}
static uint8_t toPcl(FieldType t) {
  switch (t) {
    case FieldType::INT8: return 1;
    case FieldType::UINT8: return 2;
    case FieldType::INT16: return 3;
    case FieldType::UINT16: return 4;
    case FieldType::INT32: return 5;
    case FieldType::UINT32: return 6;
    case FieldType::FLOAT32: return 7;
    case FieldType::FLOAT64: return 8;
    case FieldType::INT64: return 9;
    case FieldType::UINT64: return 10;
    default: return 0;
  }
}
static std::string symName(size_t n) {
  std::string s(n, 'x');
  for (auto& c : s) {
    c = vp_sym<char>("name");
    vp_assume(c > ' ' && c != '#' && c < 127);
  }
  return s;
}
static void convert() {
  pcl::PCLPointCloud2 pc;
  pc.width = vp_sym<uint32_t>("width"); pc.height = vp_sym<uint32_t>("height"); pc.point_step = vp_sym<uint32_t>("step");
  const double res = vp_sym<double>("resolution");
  const int nf = (int)vp_param("fields", 2);
  for (int i = 0; i < nf; i++) {
    pcl::PCLPointField f;
    f.name = symName(i == 0 ? 20 : (size_t)i);
    f.offset = vp_sym<uint32_t>("offset"); f.datatype = vp_sym<uint8_t>("datatype"); f.count = vp_sym<uint32_t>("count");
    pc.fields.push_back(f);
  }
  const EncodingInfo r = ConvertToEncodingInfo(pc, res);
  vp_check(r.width == pc.width && r.height == pc.height && r.point_step == pc.point_step, "dimensions as in the cloud");
  vp_check(r.fields.size() == pc.fields.size(), "one field per PCL field");
  for (int i = 0; i < nf; i++) {
    const auto& f = pc.fields[i];
    const auto& g = r.fields[i];
    vp_check(g.name == f.name && g.offset == f.offset, "name and offset as in the cloud");
    const FieldType want = fromPcl(f.datatype);
    vp_check(g.type == want || (want == FieldType::UNKNOWN && ((f.datatype == 9 && g.type == FieldType::INT64) || (f.datatype == 10 && g.type == FieldType::UINT64))), "the type is the one of the PCL field");
    const bool has = want == FieldType::FLOAT32 && res > 0.0;
    vp_check(g.resolution.has_value() == has, "a resolution on FLOAT32 fields only");
    if (has && g.resolution) { const float want_r = (float)res; vp_check(memcmp(&*g.resolution, &want_r, 4) == 0, "the resolution asked for"); }
  }
  vp_reach("converted");
}
template <class P> static void points(const char* names, const uint32_t* off, size_t step) {
  pcl::PointCloud<P> pc;
  pc.width = vp_sym<uint32_t>("width"); pc.height = vp_sym<uint32_t>("height");
  const double res = vp_sym<double>("resolution");
  const EncodingInfo r = ConvertToEncodingInfo<P>(pc, res);
  const float fr = (float)res;
  vp_check(r.width == pc.width && r.height == pc.height && r.point_step == step, "dimensions as in the cloud");
  vp_check(r.fields.size() == strlen(names), "the fields of the point type");
  for (size_t i = 0; i < r.fields.size(); i++) {
    const std::string want = names[i] == 'i' ? "intensity" : std::string(1, names[i]);
    vp_check(r.fields[i].name == want && r.fields[i].offset == off[i] && r.fields[i].type == FieldType::FLOAT32, "name, offset and type of the member");
    vp_check(r.fields[i].resolution.has_value() == (i < 3), "a resolution for the coordinates only");
    if (i < 3 && r.fields[i].resolution) vp_check(memcmp(&*r.fields[i].resolution, &fr, 4) == 0, "the resolution asked for");
  }
  vp_reach("points");
}
static pcl::PCLPointCloud2 makeCloud(const Cfg& c) {
  pcl::PCLPointCloud2 pc;
  pc.width = c.info.width; pc.height = c.info.height; pc.point_step = c.info.point_step; pc.row_step = pc.width * pc.point_step;
  pc.is_dense = vp_sym<uint8_t>("dense");
  pc.data.resize((size_t)pc.width * pc.height * pc.point_step);
  genCloud(c, pc.data.data(), (size_t)pc.width * pc.height);
  for (auto& f : c.info.fields) {
    pcl::PCLPointField g;
    g.name = f.name; g.offset = f.offset; g.datatype = toPcl(f.type); g.count = 1;
    pc.fields.push_back(g);
  }
  return pc;
}
static void assumeRange(const Cfg& c, const uint8_t* data, float res) {
  for (auto& f : c.info.fields)
    if (f.type == FieldType::FLOAT32)
      for (size_t k = 0; k < (size_t)c.info.width * c.info.height; k++) {
        float v;
        memcpy(&v, data + k * c.info.point_step + f.offset, 4);
        const float lim = res * 1073741824.0f;
        vp_assume(v != v || (v <= lim && v >= -lim));
      }
}
// what the library itself restores from a header built by hand
static std::vector<uint8_t> reference(const Cfg& c, const uint8_t* data, float res) {
  EncodingInfo info = c.info;
  info.compression_opt = CompressionOption::NONE; info.encoding_opt = EncodingOptions::LOSSY; info.use_threads = false;
  for (auto& f : info.fields) { f.resolution.reset(); if (f.type == FieldType::FLOAT32 && res > 0) f.resolution = res; }
  const size_t n = (size_t)info.width * info.height * info.point_step;
  std::vector<uint8_t> enc, out(n);
  PointcloudEncoder e(info);
  e.encode(ConstBufferView(data, n), enc);
  ConstBufferView v(enc.data(), enc.size());
  const EncodingInfo h = DecodeHeader(v);
  PointcloudDecoder d;
  d.decode(h, v, BufferView(out.data(), out.size()));
  return out;
}
static void checkCloud(const Cfg& c, const pcl::PCLPointCloud2& pc, const pcl::PCLPointCloud2& out, float res) {
  vp_check(out.width == pc.width && out.height == pc.height && out.point_step == pc.point_step && out.row_step == pc.row_step, "dimensions restored");
  vp_check(out.fields.size() == pc.fields.size(), "number of fields restored");
  vp_check(out.data.size() == pc.data.size(), "size of the data restored");
  for (size_t i = 0; i < pc.fields.size() && i < out.fields.size(); i++) {
    const auto &f = pc.fields[i], &g = out.fields[i];
    vp_check(g.name == f.name && g.offset == f.offset && g.datatype == f.datatype && g.count == f.count, "fields restored");
  }
  if (out.data.size() != pc.data.size()) return;
  const std::vector<uint8_t> ref = res > 0 ? reference(c, pc.data.data(), res) : std::vector<uint8_t>();
  for (size_t k = 0; k < (size_t)pc.width * pc.height; k++)
    for (auto& f : c.info.fields) {
      const size_t at = k * pc.point_step + f.offset;
      if (res > 0 && f.type == FieldType::FLOAT32) vp_check_mem(out.data.data() + at, ref.data() + at, 4, "quantised as the codec quantises at this resolution");
      else vp_check_mem(out.data.data() + at, pc.data.data() + at, SizeOf(f.type), "data restored");
    }
  vp_sink(out.data.data(), out.data.size(), "data");
}
static float cfgRes() {
  char b[32];
  if (vp_sparam("res", b, sizeof b) <= 0) return 0;
  const char* p = b;
  return (float)cfgDec(p);
}
static void roundTrip() {
  const Cfg c = loadCfg();
  const float res = cfgRes();
  const pcl::PCLPointCloud2 pc = makeCloud(c);
  if (res > 0) assumeRange(c, pc.data.data(), res);
  std::vector<uint8_t> enc((size_t)vp_param("dirty", 0), 0xEE);
  const size_t got = PCLPointCloudEncode(pc, enc, res);
  vp_check(got == enc.size(), "the number of bytes produced");
  pcl::PCLPointCloud2 out;
  if (vp_param("dirty", 0)) { out.fields.resize(3); out.data.assign(7, 9); out.width = 77; }
  PCLPointCloudDecode(ConstBufferView(enc.data(), enc.size()), out);
  checkCloud(c, pc, out, res);
  vp_reach("round trip");
}
// PCD header: optional comment or blank lines anywhere, CR or LF line ends, any SIZE and TYPE
struct Pcd { std::string text; std::vector<std::string> names; std::vector<char> sizes, types; };
static std::string eol(bool cr) { return cr ? "\r\n" : "\n"; }
static std::string noise(int kind, bool cr) {
  switch (kind) {
    case 1: return "# .PCD v0.7 - Point Cloud Data file format" + eol(cr);
    case 2: return eol(cr);
    case 3: {
      std::string s = "#";
      for (int i = 0; i < 3; i++) { char ch = vp_sym<char>("comment"); vp_assume(ch != '\n'); s.push_back(ch); }
      return s + eol(cr);
    }
    case 4: return "   " + eol(cr);
  }
  return "";
}
static Pcd makePcd(int nf, bool symTypes) {
  Pcd p;
  const bool cr = vp_choose(2, "crlf") == 1;
  const int at = vp_choose((int)vp_param("places", 5), "noise place"), kind = at ? 1 + vp_choose(4, "noise kind") : 0;
  const int tail = (int)vp_param("tail", 0) ? vp_choose(3, "tail") : 0;
  // blanks: one or two between the words, possibly some before the first one
  const int gaps = (int)vp_param("gaps", 0) ? 1 + vp_choose(3, "gaps") : 0;
  const std::string gap = gaps == 1 || gaps == 3 ? "  " : " ", lead = gaps == 2 || gaps == 3 ? " " : "";
  const std::string end = (tail == 1 ? " " : tail == 2 ? " # c" : "") + eol(cr);
  std::string f = lead + "FIELDS", s = lead + "SIZE", t = lead + "TYPE", k = lead + "COUNT";
  for (int i = 0; i < nf; i++) {
    p.names.push_back(symName(i % 2 ? 1 : 3));
    for (int j = 0; j < i; j++) vp_assume(p.names[j] != p.names[i]);
    char sz, ty;
    if (symTypes) { sz = vp_sym<char>("size"); ty = vp_sym<char>("type"); vp_assume(sz >= '0' && sz <= '9' && ty > ' ' && ty != '#' && ty < 127); }
    else { sz = "1248"[vp_choose(4, "size")]; ty = "IUF"[vp_choose(3, "type")]; }
    p.sizes.push_back(sz); p.types.push_back(ty);
    f += gap + p.names[i]; s += gap + sz; t += gap + ty; k += gap + "1";
  }
  int n = 0;
  auto maybe = [&] { n++; if (n == at) p.text += noise(kind, cr); };
  maybe(); p.text += "VERSION .7" + end;
  maybe(); p.text += f + end;
  p.text += s + end;
  maybe(); p.text += t + end;
  p.text += k + end;
  p.text += "WIDTH 2" + end + "HEIGHT 1" + end + "VIEWPOINT 0 0 0 1 0 0 0" + end + "POINTS 2" + end;
  maybe();
  if ((int)vp_param("data", 1)) p.text += lead + "DATA" + gap + "ascii" + end + "FIELDS 1 2 3 4 5 6" + eol(cr);
  return p;
}
static FieldType pcdType(char size, char type) {
  if (type == 'I') return size == '1' ? FieldType::INT8 : size == '2' ? FieldType::INT16 : size == '4' ? FieldType::INT32 : size == '8' ? FieldType::INT64 : FieldType::UNKNOWN;
  if (type == 'U') return size == '1' ? FieldType::UINT8 : size == '2' ? FieldType::UINT16 : size == '4' ? FieldType::UINT32 : size == '8' ? FieldType::UINT64 : FieldType::UNKNOWN;
  if (type == 'F') return size == '4' ? FieldType::FLOAT32 : size == '8' ? FieldType::FLOAT64 : FieldType::UNKNOWN;
  return FieldType::UNKNOWN;
}
static void pcdHeader() {
  const int nf = (int)vp_param("fields", 2);
  const Pcd p = makePcd(nf, vp_param("symtypes", 1) != 0);
  std::istringstream in(p.text);
  std::map<std::string, FieldType> m;
  bool ok = true;
  try { m = ReadEncodingInfoFromPCD(in); } catch (const std::exception&) { ok = false; }
  vp_check(ok, "a well-formed header is accepted");
  if (!ok) return;
  vp_check(m.size() == (size_t)nf, "one entry per field");
  for (int i = 0; i < nf; i++) {
    auto it = m.find(p.names[i]);
    vp_check(it != m.end(), "every field is listed under its name");
    if (it != m.end()) vp_check(it->second == pcdType(p.sizes[i], p.types[i]), "the type is the one of SIZE and TYPE");
  }
  vp_reach("pcd");
}
// a header whose lists have different lengths is rejected; anything else never leaves the process
static void pcdBroken() {
  const int nf = vp_choose(3, "names"), ns = vp_choose(3, "sizes"), nt = vp_choose(3, "types");
  std::string text = "VERSION .7\nFIELDS";
  for (int i = 0; i < nf; i++) text += i ? " b" : " a";
  text += "\nSIZE";
  bool digits = true;
  for (int i = 0; i < ns; i++) { char ch = vp_sym<char>("size"); vp_assume(ch > ' ' && ch != '#'); text += " "; text += ch; if (i < nf && (ch < '0' || ch > '9')) digits = false; }
  text += "\nTYPE";
  for (int i = 0; i < nt; i++) { char ch = vp_sym<char>("type"); vp_assume(ch > ' ' && ch != '#'); text += " "; text += ch; }
  text += "\nDATA ascii\n";
  std::istringstream in(text);
  bool ok = true;
  size_t n = 0;
  try { n = ReadEncodingInfoFromPCD(in).size(); } catch (const std::exception&) { ok = false; }
  vp_check(ok == (nf == ns && nf == nt && digits), "accepted exactly if every field has a numeric size and a type");
  if (ok) vp_check(n == (size_t)nf, "one entry per field");
  vp_reach(ok ? "accepted" : "rejected");
}
static void pcdAny() {
  const size_t n = (size_t)vp_choose((int)vp_param("hi", 8) + 1, "length");
  std::string text(n, ' ');
  if (n) vp_make_symbolic(&text[0], n, "text");
  std::istringstream in((vp_param("lead", 0) ? std::string("FIELDS a\nSIZE 4\n") : std::string()) + text);
  bool ok = true;
  try { ReadEncodingInfoFromPCD(in); } catch (const std::exception&) { ok = false; }
  vp_check(true, "returns or throws");
  vp_reach(ok ? "accepted" : "rejected");
}
template <class P> struct Tr;
template <> struct Tr<pcl::PointXYZ> { static const int n = 3; };
template <> struct Tr<pcl::PointXYZI> { static const int n = 4; };
static float* member(pcl::PointXYZ& p, int i) { return i == 0 ? &p.x : i == 1 ? &p.y : &p.z; }
static float* member(pcl::PointXYZI& p, int i) { return i == 0 ? &p.x : i == 1 ? &p.y : i == 2 ? &p.z : &p.intensity; }
static void genFloat(float* f, char gen, size_t k, int i) {
  switch (gen) {
    case 's': vp_make_symbolic(f, 4, "value"); break;
    case 'l': *f = 1.5f + (float)k; vp_make_symbolic(f, 1, "low"); break;
    case 'c': { const float t[] = {1.234f, -2.5f, __builtin_nanf(""), 0.f, 77.7f}; *f = t[(k + (size_t)i) % 5]; break; }
    case 'z': *f = 0; break;
  }
}
// From: point type encoded by the template (or a packed PCLPointCloud2); To: point type decoded into
template <class To> static void decodeInto(const std::vector<uint8_t>& enc, const std::vector<std::vector<float>>& want, uint32_t w, uint32_t h, bool hasI) {
  pcl::PointCloud<To> out;
  if (vp_param("dirty", 0)) { out.points.resize(3); out.width = 3; }
  bool ok = true;
  try { PointcloudDecode<To>(ConstBufferView(enc.data(), enc.size()), out); } catch (const std::exception&) { ok = false; }
  vp_check(ok, "decoding into the point type succeeds");
  if (!ok) return;
  vp_check(out.width == w && out.height == h && out.points.size() == (size_t)w * h, "dimensions restored");
  if (out.points.size() != (size_t)w * h) return;
  for (size_t k = 0; k < want.size(); k++)
    for (int i = 0; i < Tr<To>::n; i++) {
      if (i == 3 && !hasI) continue;
      vp_check_mem(member(out.points[k], i), &want[k][i], 4, "the members of every point are restored");
    }
  for (size_t k = 0; k < want.size(); k++)
    for (int i = 0; i < (hasI ? Tr<To>::n : 3); i++) vp_sink(member(out.points[k], i), 4, "member");
}
// what the codec restores of the x, y, z columns at this resolution
static std::vector<std::vector<float>> quantised(const std::vector<std::vector<float>>& v, float res) {
  Cfg c;
  c.info.width = (uint32_t)v.size(); c.info.height = 1; c.info.point_step = 12; c.info.version = 5;
  for (int i = 0; i < 3; i++) { PointField f; f.name = std::string(1, (char)('x' + i)); f.offset = 4u * (uint32_t)i; f.type = FieldType::FLOAT32; c.info.fields.push_back(f); }
  std::vector<uint8_t> data(v.size() * 12);
  for (size_t k = 0; k < v.size(); k++) memcpy(data.data() + 12 * k, v[k].data(), 12);
  const std::vector<uint8_t> out = reference(c, data.data(), res);
  std::vector<std::vector<float>> r = v;
  for (size_t k = 0; k < v.size(); k++) memcpy(r[k].data(), out.data() + 12 * k, 12);
  return r;
}
template <class From> static void templates() {
  const uint32_t w = (uint32_t)vp_param("w", 2), h = (uint32_t)vp_param("h", 1);
  const float res = cfgRes();
  char g[8];
  vp_sparam("gen", g, sizeof g);
  pcl::PointCloud<From> pc;
  pc.width = w; pc.height = h;
  pc.points.resize((size_t)w * h);
  std::vector<std::vector<float>> v;
  for (size_t k = 0; k < pc.points.size(); k++) {
    std::vector<float> p;
    for (int i = 0; i < Tr<From>::n; i++) {
      genFloat(member(pc.points[k], i), g[i], k, i);
      const float x = *member(pc.points[k], i), lim = res * 1073741824.0f;
      if (i < 3) vp_assume(x != x || (x <= lim && x >= -lim));
      p.push_back(x);
    }
    v.push_back(p);
  }
  std::vector<uint8_t> enc;
  const size_t got = PointcloudEncode(pc, enc, res);
  vp_check(got == enc.size(), "the number of bytes produced");
  v = quantised(v, res);
  const bool hasI = Tr<From>::n == 4;
  if (vp_param("to", 4) == 4) decodeInto<pcl::PointXYZI>(enc, v, w, h, hasI);
  else decodeInto<pcl::PointXYZ>(enc, v, w, h, hasI);
  vp_reach("templates");
}
// a packed cloud with the fields in another order and other fields between them
static void crossLayout() {
  const Cfg c = loadCfg();
  EncodingInfo info = c.info;
  const size_t n = (size_t)info.width * info.height;
  std::vector<uint8_t> data(n * info.point_step), enc;
  genCloud(c, data.data(), n);
  PointcloudEncoder e(info);
  e.encode(ConstBufferView(data.data(), data.size()), enc);
  // the plain decoding is the reference
  ConstBufferView v(enc.data(), enc.size());
  const EncodingInfo hd = DecodeHeader(v);
  std::vector<uint8_t> plain(n * info.point_step);
  PointcloudDecoder d;
  d.decode(hd, v, BufferView(plain.data(), plain.size()));
  std::vector<std::vector<float>> want(n, std::vector<float>(4, 0.f));
  bool hasI = false, bad = false;
  const bool xyz = vp_param("to", 4) == 3;
  for (auto& f : info.fields) {
    const int at = f.name == "x" ? 0 : f.name == "y" ? 1 : f.name == "z" ? 2 : f.name == "intensity" ? 3 : -1;
    if (at < 0 || (xyz && at == 3)) continue;
    if (at == 3) hasI = true;
    if (f.type != FieldType::FLOAT32) { bad = true; continue; }
    for (size_t k = 0; k < n; k++) memcpy(&want[k][at], plain.data() + k * info.point_step + f.offset, 4);
  }
  if (bad) {
    pcl::PointCloud<pcl::PointXYZI> o4;
    pcl::PointCloud<pcl::PointXYZ> o3;
    bool ok = true;
    try { if (xyz) PointcloudDecode(ConstBufferView(enc.data(), enc.size()), o3); else PointcloudDecode(ConstBufferView(enc.data(), enc.size()), o4); } catch (const std::exception&) { ok = false; }
    vp_check(!ok, "a field of another type than the member is rejected");
    vp_reach("rejected");
    return;
  }
  if (xyz) decodeInto<pcl::PointXYZ>(enc, want, info.width, info.height, hasI);
  else decodeInto<pcl::PointXYZI>(enc, want, info.width, info.height, hasI);
  vp_reach("cross");
}
// arbitrary dimensions and payload
static void hostile() {
  std::vector<uint8_t> b;
  const char* magic = "CLOUDINI_V0";
  b.insert(b.end(), magic, magic + 11);
  b.push_back((uint8_t)('0' + vp_param("ver", 5)));
  const size_t fix = 12, pay = (size_t)vp_param("pay", 6), nf = (size_t)vp_param("nf", 1);
  b.resize(fix + 16);
  static const uint32_t dims[] = {1, 0, 2, 0x10000, 0x80000000u, 0xFFFFFFFFu}, steps[] = {4, 0, 1, 16, 0x40000000u, 0xFFFFFFFFu};
  uint32_t w = dims[vp_choose(6, "width")], h = dims[vp_choose(6, "height")], s = steps[vp_choose(6, "step")];
  memcpy(b.data() + fix, &w, 4); memcpy(b.data() + fix + 4, &h, 4); memcpy(b.data() + fix + 8, &s, 4);
  b[fix + 12] = (uint8_t)vp_param("enc", 1);
  b[fix + 13] = 0;
  b[fix + 14] = (uint8_t)nf; b[fix + 15] = 0;
  for (size_t i = 0; i < nf; i++) {
    const uint8_t f[] = {1, 0, (uint8_t)('x' + i)};
    b.insert(b.end(), f, f + 3);
    const size_t at = b.size();
    b.resize(at + 9);
    vp_make_symbolic(b.data() + at, 4, "offset");
    b[at + 4] = (uint8_t)vp_param("type", 7);
  }
  const size_t at = b.size();
  b.resize(at + pay);
  if (pay) vp_make_symbolic(b.data() + at, pay, "payload");
  if (vp_param("chunk", 1) && pay >= 4) { const uint32_t c = (uint32_t)pay - 4; memcpy(b.data() + at, &c, 4); }
  uint8_t* p = (uint8_t*)malloc(b.size());
  memcpy(p, b.data(), b.size());
  const bool tmpl = vp_param("to", 0) != 0;
  bool ok = true;
  if (tmpl) {
    pcl::PointCloud<pcl::PointXYZ> out;
    try { PointcloudDecode(ConstBufferView(p, b.size()), out); } catch (const std::exception&) { ok = false; }
    if (ok) vp_check(out.width == w && out.height == h && (unsigned __int128)out.points.size() == (unsigned __int128)w * h, "as many points as declared");
  } else {
    pcl::PCLPointCloud2 out;
    try { PCLPointCloudDecode(ConstBufferView(p, b.size()), out); } catch (const std::exception&) { ok = false; }
    if (ok) {
      vp_check(out.width == w && out.height == h && out.point_step == s, "dimensions as stored");
      vp_check((unsigned __int128)out.data.size() == (unsigned __int128)w * h * s, "as much data as declared");
    }
  }
  vp_reach(ok ? "accepted" : "rejected");
  free(p);
}
// the file overload: types that PCL does not know come from the header of the file
static void fromFile() {
  const Cfg c = loadCfg();
  const float res = cfgRes();
  onDisk = makeCloud(c);
  pcl::PCLPointCloud2 want = onDisk;
  std::string f = "FIELDS", s = "SIZE", t = "TYPE";
  const bool forget = vp_param("forget", 1) != 0;
  for (size_t i = 0; i < c.info.fields.size(); i++) {
    const auto& pf = c.info.fields[i];
    f += " " + pf.name; s += " " + std::string(1, (char)('0' + SizeOf(pf.type)));
    const bool fl = pf.type == FieldType::FLOAT32 || pf.type == FieldType::FLOAT64;
    const bool un = pf.type == FieldType::UINT8 || pf.type == FieldType::UINT16 || pf.type == FieldType::UINT32 || pf.type == FieldType::UINT64;
    t += fl ? " F" : un ? " U" : " I";
    if (forget && SizeOf(pf.type) == 8 && !fl) onDisk.fields[i].datatype = (uint8_t)vp_param("lost", 0);
  }
  const std::string text = "# .PCD v0.7 - Point Cloud Data file format\nVERSION 0.7\n" + f + "\n" + s + "\n" + t + "\nDATA binary\n";
  std::string name = "/nowhere/cloud.pcd";
#ifdef VP_IOSTREAM_H
  std::vp_file_name = &name; std::vp_file_text = &text;
#else
  char tmp[] = "/tmp/vp_pcdXXXXXX";
  const int fd = mkstemp(tmp);
  if (fd >= 0) { if (write(fd, text.data(), text.size()) < 0) {} close(fd); }
  name = tmp;
#endif
  loadResult = vp_choose(2, "load") ? -1 : 0;
  std::vector<uint8_t> enc;
  bool ok = true;
  size_t got = 0;
  try { got = PCLPointCloudEncode(std::filesystem::path(name), enc, res); } catch (const std::exception&) { ok = false; }
#ifndef VP_IOSTREAM_H
  unlink(tmp);
#endif
  vp_check(ok == (loadResult == 0), "fails exactly if the file cannot be loaded");
  if (!ok) { vp_reach("load failed"); return; }
  vp_check(got == enc.size(), "the number of bytes produced");
  pcl::PCLPointCloud2 out;
  PCLPointCloudDecode(ConstBufferView(enc.data(), enc.size()), out);
  checkCloud(c, want, out, res);
  vp_reach("file");
}
// fields whose type PCL knows and cloudini does not
static void unknown() {
  pcl::PCLPointCloud2 pc;
  pc.width = 1; pc.height = 1; pc.point_step = 8; pc.row_step = 8;
  pc.data.assign(8, 1);
  pcl::PCLPointField f;
  f.name = "t"; f.offset = 0; f.datatype = vp_sym<uint8_t>("datatype"); f.count = 1;
  vp_assume(f.datatype == 0 || f.datatype > 8);
  pc.fields.push_back(f);
  std::vector<uint8_t> enc;
  bool ok = true;
  try { PCLPointCloudEncode(pc, enc, 0.01); } catch (const std::exception&) { ok = false; }
  vp_check(!ok || f.datatype == 9 || f.datatype == 10, "a field of unknown type is not dropped silently");
  vp_reach(ok ? "encoded" : "rejected");
}
// isSameEncodingInfo: equal dimensions, point step and fields (name, offset, type); nothing else counts
static EncodingInfo symInfo(size_t nf) {
  EncodingInfo r;
  r.width = vp_sym<uint32_t>("width"); r.height = vp_sym<uint32_t>("height"); r.point_step = vp_sym<uint32_t>("step");
  r.version = vp_sym<uint8_t>("version");
  for (size_t i = 0; i < nf; i++) {
    PointField f;
    f.name = symName(i % 2 ? 1 : 2);
    f.offset = vp_sym<uint32_t>("offset");
    const uint8_t t = vp_sym<uint8_t>("type");
    vp_assume(t <= 10);
    f.type = (FieldType)t;
    if (vp_choose(2, "resolution")) f.resolution = 0.5f;
    r.fields.push_back(f);
  }
  return r;
}
static void same() {
  const size_t na = (size_t)vp_choose(3, "fields"), nb = (size_t)vp_choose(3, "fields");
  const EncodingInfo a = symInfo(na), b = symInfo(nb);
  bool want = na == nb;
  want &= a.width == b.width; want &= a.height == b.height; want &= a.point_step == b.point_step;
  for (size_t i = 0; i < na && i < nb; i++) { want &= a.fields[i].name == b.fields[i].name; want &= a.fields[i].offset == b.fields[i].offset; want &= a.fields[i].type == b.fields[i].type; }
  vp_check(isSameEncodingInfo(a, b) == want, "the same layout exactly if dimensions, point step and fields agree");
  vp_check(isSameEncodingInfo(b, a) == want, "in both directions");
  vp_reach(want ? "same" : "different");
}
extern "C" void vp_main() {
  static const uint32_t xyz[] = {0, 4, 8}, xyzi[] = {0, 4, 8, 16};
  switch (vp_param("mode", 0)) {
    case 0: convert(); break;
    case 1: points<pcl::PointXYZ>("xyz", xyz, 16); break;
    case 2: points<pcl::PointXYZI>("xyzi", xyzi, 32); break;
    case 3: roundTrip(); break;
    case 4: pcdHeader(); break;
    case 5: pcdBroken(); break;
    case 6: pcdAny(); break;
    case 7: if (vp_param("from", 4) == 4) templates<pcl::PointXYZI>(); else templates<pcl::PointXYZ>(); break;
    case 8: crossLayout(); break;
    case 9: hostile(); break;
    case 10: fromFile(); break;
    case 11: unknown(); break;
    case 12: same(); break;
  }
}
