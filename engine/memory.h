// Copy-on-write object memory holding concrete, symbolic and uninitialised bytes.
#pragma once
#include <cassert>
#include <functional>
#include <memory>
#include "expr.h"
namespace cse {
constexpr unsigned PG = 512;
struct Page {
  uint8_t st[PG];  // 0 = uninitialised, 1 = concrete, 2 = symbolic
  uint8_t c[PG];
  std::unique_ptr<Ex[]> s;
  Page() { memset(st, 0, PG); memset(c, 0, PG); }
  Page(const Page& o) { memcpy(st, o.st, PG); memcpy(c, o.c, PG); if (o.s) { s.reset(new Ex[PG]); std::copy(o.s.get(), o.s.get() + PG, s.get()); } }
};
// pending stores with a symbolic offset (newest first), all of the same width and alignment
struct LogNode { std::shared_ptr<const LogNode> prev; Ex off, val; unsigned n; unsigned depth; };
enum ObjKind : uint8_t { GLOBAL, STACK, HEAP, FUNC };
struct Obj {
  uint64_t size = 0;
  ObjKind kind = HEAP;
  bool ro = false;
  uint8_t afam = 0;  // allocation family: 0 none, 1 new, 2 new[], 3 malloc
  const std::string* name = nullptr;
  std::vector<std::shared_ptr<Page>> pg;
  std::shared_ptr<const LogNode> log;
};
constexpr unsigned SLOT = 36;
constexpr uint64_t HALF = 1ull << 35;
inline uint64_t baseOf(uint32_t id) { return ((uint64_t)(id + 1) << SLOT) + HALF; }
inline uint32_t idOf(uint64_t a) { return (uint32_t)((a >> SLOT) - 1); }
struct Chunk { std::shared_ptr<Obj> o[64]; };
struct Mem {
  std::vector<std::shared_ptr<Chunk>> ch;
  uint32_t next = 0;
  uint32_t alloc(uint64_t size, ObjKind k, const std::string* name) {
    uint32_t id = next++;
    if (id / 64 >= ch.size()) ch.push_back(std::make_shared<Chunk>());
    auto& c = ch[id / 64];
    if (!c) c = std::make_shared<Chunk>();
    else if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    auto o = std::make_shared<Obj>();
    o->size = size; o->kind = k; o->name = name;
    o->pg.resize((size + PG - 1) / PG);
    c->o[id % 64] = o;
    return id;
  }
  const Obj* get(uint32_t id) const {
    if (id / 64 >= ch.size() || !ch[id / 64]) return nullptr;
    return ch[id / 64]->o[id % 64].get();
  }
  Obj* getW(uint32_t id) {
    auto& c = ch[id / 64];
    if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    auto& o = c->o[id % 64];
    if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
    return o.get();
  }
  void release(uint32_t id) {
    auto& c = ch[id / 64];
    if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    c->o[id % 64].reset();
    if (id / 64 + 1 < ch.size() && id % 64 == 63) {
      bool any = false;
      for (auto& x : c->o) if (x) { any = true; break; }
      if (!any) c.reset();
    }
  }
  static Page* pageW(Obj* o, uint32_t i) {
    auto& p = o->pg[i];
    if (!p) p = std::make_shared<Page>();
    else if (p.use_count() > 1) p = std::make_shared<Page>(*p);
    return p.get();
  }
  // fresh symbol for an uninitialised byte
  static Ex uninit(uint32_t id, uint64_t off);
  Ex readByte(uint32_t id, const Obj* o, uint64_t off) {
    Page* p = o->pg[off / PG].get();
    unsigned i = off % PG;
    if (p) {
      if (p->st[i] == 1) return C(p->c[i], 8);
      if (p->st[i] == 2) return p->s[i];
    }
    Ex e = uninit(id, off);
    writeByte(getW(id), off, e);
    return e;
  }
  static void writeByte(Obj* o, uint64_t off, const Ex& e) {
    Page* p = pageW(o, off / PG);
    unsigned i = off % PG;
    if (e.isC()) { p->st[i] = 1; p->c[i] = (uint8_t)e.v; }
    else { if (!p->s) p->s.reset(new Ex[PG]); p->st[i] = 2; p->s[i] = e; }
  }
  // concrete fast paths; bytes must lie inside the object
  static bool readConc(const Obj* o, uint64_t off, unsigned n, uint64_t& v) {
    unsigned i = off % PG;
    const Page* p = o->pg[off / PG].get();
    if (!p) return false;
    if (i + n <= PG) {
      uint64_t st = 0; v = 0;
      memcpy(&st, p->st + i, n);
      static const uint64_t ones = 0x0101010101010101ull;
      if (st != (n == 8 ? ones : ones & ((1ull << (8 * n)) - 1))) return false;
      memcpy(&v, p->c + i, n);
      return true;
    }
    v = 0;
    for (unsigned k = 0; k < n; k++) {
      const Page* q = o->pg[(off + k) / PG].get();
      if (!q || q->st[(off + k) % PG] != 1) return false;
      v |= (uint64_t)q->c[(off + k) % PG] << (8 * k);
    }
    return true;
  }
  static void writeConc(Obj* o, uint64_t off, unsigned n, uint64_t v) {
    unsigned i = off % PG;
    if (i + n <= PG) {
      Page* p = pageW(o, off / PG);
      memset(p->st + i, 1, n);
      memcpy(p->c + i, &v, n);
      return;
    }
    for (unsigned k = 0; k < n; k++) { Page* p = pageW(o, (off + k) / PG); p->st[(off + k) % PG] = 1; p->c[(off + k) % PG] = (uint8_t)(v >> (8 * k)); }
  }
};
}  // namespace cse
