// Bit streams: real mg bitstream over memory, synchronous files, asynchronous files and a storage answering from another thread,
// compared operation by operation with a plain array of bits.
#include "vh.h"
#define IO_FAULT_IMPL
#include "io_fault.h"
#include "mgcore.h"
#include <mg/core/file.h>
#include <mg/media/TBitstream.h>
#include <algorithm>
#include <chrono>
#include <memory>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <deque>
#include <sys/stat.h>
using namespace mg::core;
using namespace vh;
typedef std::vector<unsigned char> Bytes;

static std::string tmpdir() { static std::string d = [] { const char* e = getenv("VH_TMP"); std::string s = e ? e : "/tmp"; s += fmt("/bs.%d", (int)getpid()); mkdir(s.c_str(), 0755); return s; }(); return d; }
static std::string fname(const char* n) { return tmpdir() + "/vhf." + n; }
static void put_file(const std::string& p, const Bytes& d) { FILE* f = ::fopen(p.c_str(), "wb"); if (!f) abort(); if (d.size() && ::fwrite(d.data(), 1, d.size(), f) != d.size()) abort(); ::fclose(f); }
static Bytes get_file(const std::string& p) { Bytes d; FILE* f = ::fopen(p.c_str(), "rb"); if (!f) return d; unsigned char b[65536]; size_t r; while ((r = ::fread(b, 1, sizeof b, f)) > 0) d.insert(d.end(), b, b + r); ::fclose(f); return d; }

struct MemRd : Ibitstream_storage {
  Bytes d; uint64_t pos = 0;
  void read(uint32_t n, Ibitstream_cb* cb) override {
    uint64_t a = d.size() > pos ? d.size() - pos : 0; uint32_t r = (uint32_t)std::min<uint64_t>(n, a);
    std::unique_ptr<unsigned char[]> exact(new unsigned char[r ? r : 1]); if (r) memcpy(exact.get(), d.data() + pos, r);   // red zones at both ends
    pos += r; cb->read_cb(exact.get(), r);
  }
  void write(const unsigned char*, uint32_t, Ibitstream_cb*) override { abort(); }
  bool eof() override { return pos >= d.size(); }
  void flush() override {}
  uint64_t get_position() const override { return pos; }
  void set_position(uint64_t r) override { pos = r; }
};
struct MemWr : Ibitstream_storage {
  Bytes d; uint64_t pos = 0, calls = 0;
  void read(uint32_t, Ibitstream_cb*) override { abort(); }
  void write(const unsigned char* p, uint32_t n, Ibitstream_cb* cb) override { calls++; if (d.size() < pos + n) d.resize(pos + n); if (n) memcpy(d.data() + pos, p, n); pos += n; cb->write_cb(n); }
  bool eof() override { return true; }
  void flush() override {}
  uint64_t get_position() const override { return pos; }
  void set_position(uint64_t r) override { pos = r; }
};
// answers every read from another thread, after a delay; like the files, its position moves when the read is issued
struct ThrRd : Ibitstream_storage {
  Bytes d; uint64_t pos = 0; Rng rng; std::mutex m; std::condition_variable cv;
  struct Q { uint64_t pos; uint32_t n; Ibitstream_cb* cb; unsigned delay; }; std::deque<Q> q; bool stop = false; std::thread th; uint64_t answered = 0;
  ThrRd() : rng(1) {}
  void start(uint64_t s) { rng = Rng(s); th = std::thread([this] {
    for (;;) { Q x; { std::unique_lock<std::mutex> l(m); while (q.empty() && !stop) cv.wait(l); if (q.empty()) return; x = q.front(); q.pop_front(); }
      if (x.delay) usleep(x.delay);
      std::unique_ptr<unsigned char[]> b(new unsigned char[x.n ? x.n : 1]); if (x.n) memcpy(b.get(), d.data() + x.pos, x.n);
      answered++; x.cb->read_cb(b.get(), x.n); } }); }
  ~ThrRd() { { std::lock_guard<std::mutex> l(m); stop = true; cv.notify_all(); } if (th.joinable()) th.join(); }
  void read(uint32_t n, Ibitstream_cb* cb) override { uint64_t a = d.size() > pos ? d.size() - pos : 0; Q x = {pos, (uint32_t)std::min<uint64_t>(n, a), cb, rng.chance(1, 2) ? 0 : (unsigned)rng.below(rng.chance(1, 6) ? 1500 : 200)}; pos += x.n; std::lock_guard<std::mutex> l(m); q.push_back(x); cv.notify_all(); }
  void write(const unsigned char*, uint32_t, Ibitstream_cb*) override { abort(); }
  bool eof() override { return pos >= d.size(); }
  void flush() override {}
  uint64_t get_position() const override { return pos; }
  void set_position(uint64_t r) override { pos = r; }
};

// the same data, starting far into a storage: every position is moved by base
struct FarRd : MemRd {
  uint64_t base = 0;
  void read(uint32_t n, Ibitstream_cb* cb) override { if (pos < base) { std::unique_ptr<unsigned char[]> z(new unsigned char[n ? n : 1]()); pos += n; cb->read_cb(z.get(), n); return; } uint64_t p = pos; pos -= base; MemRd::read(n, cb); pos = base + std::min<uint64_t>(d.size(), p - base + n); }
  bool eof() override { return pos >= base + d.size(); }
};
struct FarWr : MemWr {
  uint64_t base = 0; bool low = false;
  void write(const unsigned char* p, uint32_t n, Ibitstream_cb* cb) override { if (pos < base) { low |= n > 0; pos += n; cb->write_cb(n); return; } pos -= base; MemWr::write(p, n, cb); pos += base; }
};
struct Shift : IBitstream {
  IBitstream& b; uint64_t base; Shift(IBitstream& x, uint64_t o) : b(x), base(o) {}
  void putbits(uint32_t v, short n) override { b.putbits(v, n); }
  uint32_t getbits(short n) override { return b.getbits(n); }
  uint32_t sgetbits(short n) override { return b.sgetbits(n); }
  uint32_t nextbits(short n) override { return b.nextbits(n); }
  void flush() override { b.flush(); }
  bool eof() override { return b.eof(); }
  void skipbits(short n) override { b.skipbits(n); }
  uint32_t align(int n) override { return b.align(n); }
  uint64_t getpos() override { return b.getpos() - base * 8; }
  uint32_t next(int n, int big, int sign, int alen) override { return b.next(n, big, sign, alen); }
  int little_putbits(unsigned v, int n) override { return b.little_putbits(v, n); }
  uint32_t little_getbits(int n) override { return b.little_getbits(n); }
  uint64_t get_position() const override { return b.get_position() - base; }
  void set_position(uint64_t r) override { b.set_position(r + base); }
  void read(unsigned char* p, uint32_t n, uint32_t* r) override { b.read(p, n, r); }
  void write(const unsigned char* p, uint32_t n) override { b.write(p, n); }
  unsigned nextcode(unsigned code, int n, int alen) override { return b.nextcode(code, n, alen); }
};
static uint64_t far_base(Rng& r) { return (1ULL << r.range(29, 44)) - 4 * r.below(3000); }   // bit positions are 64 bit too: 2^44 * 8 is far below

struct Model {
  Bytes d; uint64_t p = 0;
  uint64_t total() const { return (uint64_t)d.size() * 8; }
  uint32_t peek(uint64_t at, int n) const { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 1 | ((d[(at + i) >> 3] >> (7 - ((at + i) & 7))) & 1); return (uint32_t)v; }
  bool has(uint64_t n) const { return p + n <= total(); }
};
static uint32_t sext(uint32_t v, int n) { if (n > 1 && n < 32 && (v >> (n - 1) & 1)) return v | (0xffffffffu << n); return v; }

// drives one IBistream against the model; byte_ops: also byte reads and repositioning
static void drive_read(Ctx& c, IBitstream& bs, const Bytes& content, bool reposition, unsigned nops, std::string& tr, const char* what) {
  Model m; m.d = content;
  int style = (int)c.rng.below(4);
  uint64_t boundary = 0;
  for (unsigned k = 0; k < nops; k++) {
    int op = (int)c.rng.below(reposition ? 16 : 11);
    if (style == 0 && c.rng.coin()) op = 0;
    if (style == 1 && c.rng.coin()) op = 4;
    if (style == 2 && reposition && c.rng.coin()) op = 11;
    uint64_t before = m.p; bool threw = false, want_throw = false;
    auto pos = [&] { return bs.getpos(); };
    if (tr.size() < 1200) tr += fmt(" %d", op);
    try {
      switch (op) {
        case 0: case 1: { int n = c.rng.chance(1, 3) ? 32 : (int)c.rng.below(33); want_throw = !m.has(n); if (tr.size() < 1200) tr += fmt(":%d", n); uint32_t v = bs.getbits(n); if (!want_throw) { VREQ(c, v == m.peek(m.p, n), "bits:get-value", "%s: getbits(%d) at bit %llu of %llu gave %x, expected %x;%s", what, n, (unsigned long long)m.p, (unsigned long long)m.total(), v, m.peek(m.p, n), tr.c_str()); m.p += n; } break; }
        case 2: { int n = (int)c.rng.range(1, 32); want_throw = !m.has(n); uint32_t v = bs.nextbits(n); if (!want_throw) VREQ(c, v == m.peek(m.p, n), "bits:next-value", "%s: nextbits(%d) at bit %llu gave %x, expected %x;%s", what, n, (unsigned long long)m.p, v, m.peek(m.p, n), tr.c_str()); break; }
        case 3: { int n = (int)c.rng.range(1, 32); want_throw = !m.has(n); uint32_t v = bs.sgetbits(n); if (!want_throw) { VREQ(c, v == sext(m.peek(m.p, n), n), "bits:signed-value", "%s: sgetbits(%d) at bit %llu gave %x, expected %x", what, n, (unsigned long long)m.p, v, sext(m.peek(m.p, n), n)); m.p += n; } break; }
        case 4: case 5: { int n = (int)c.rng.below(c.rng.chance(1, 3) ? 32000 : 90); if (c.rng.chance(1, 8) && m.total() - m.p < 32000) n = (int)(m.total() - m.p) + (int)c.rng.below(2) * (int)c.rng.below(40); if (tr.size() < 1200) tr += fmt(":%d", n); bs.skipbits(n); m.p = std::min<uint64_t>(m.total(), m.p + n); c.count("bit_skips"); break; }
        case 6: { int a = 8 << c.rng.below(3); uint64_t e = (m.p + a - 1) / a * a; if (e > m.total()) { a = 8; e = (m.p + 7) / 8 * 8; } uint32_t s = bs.align(a); VREQ(c, s == e - m.p, "bits:align", "%s: align(%d) at bit %llu skipped %u, expected %llu", what, a, (unsigned long long)m.p, s, (unsigned long long)(e - m.p)); m.p = e; break; }
        case 7: { int n = 8 * (int)c.rng.range(1, 4); if (!m.has(n)) break; uint32_t v = bs.little_getbits(n), e = 0; for (int i = 0; i < n / 8; i++) e |= m.peek(m.p + 8 * i, 8) << (8 * i); VREQ(c, v == e, "bits:little-value", "%s: little_getbits(%d) gave %x, expected %x", what, n, v, e); m.p += n; want_throw = false; break; }
        case 8: { int n = (int)c.rng.range(1, 32), sg = (int)c.rng.below(2), al = c.rng.coin() ? 0 : 8; uint64_t q = al ? (m.p + 7) / 8 * 8 : m.p; want_throw = q + n > m.total(); m.p = before = q; uint32_t v = bs.next(n, 1, sg, al); if (!want_throw) { uint32_t e = m.peek(q, n); if (sg) e = sext(e, n); VREQ(c, v == e, "bits:probe-value", "%s: next(%d,1,%d,%d) at bit %llu gave %x, expected %x", what, n, sg, al, (unsigned long long)q, v, e); } break; }
        case 9: { // search for a code known to lie ahead
          int n = c.rng.coin() ? 8 : 24; if (m.p % 8 || !m.has(8 + n)) break;
          uint64_t left = (m.total() - m.p - n) / 8, k2 = c.rng.below(std::min<uint64_t>(left + 1, 400)); uint32_t code = m.peek(m.p + 8 * k2, n); uint64_t e = 0; while (m.peek(m.p + e, n) != code) e += 8;
          uint32_t s = bs.nextcode(code, n, 8); VREQ(c, s == e, "bits:nextcode", "%s: nextcode(%x,%d,8) at bit %llu skipped %u, expected %llu", what, code, n, (unsigned long long)m.p, s, (unsigned long long)e); m.p += e; c.count("code_searches"); break; }
        case 10: break;
        case 11: case 12: { // bytes
          if (m.p % 8) { bs.align(8); m.p = (m.p + 7) / 8 * 8; before = m.p; }
          uint32_t n = (uint32_t)c.rng.size(content.size() + 20); if (c.rng.chance(1, 5)) n = (uint32_t)((m.total() - m.p) / 8); if (c.rng.chance(1, 6)) n = (uint32_t)std::max<int64_t>(0, (int64_t)((m.total() - m.p) / 8) - (int64_t)c.rng.below(4)); if (n == 0) n = 1;
          if (tr.size() < 1200) tr += fmt(":%u", n);
          std::unique_ptr<unsigned char[]> b(new unsigned char[n]); uint32_t got = 0; bs.read(b.get(), n, &got);
          uint32_t e = (uint32_t)std::min<uint64_t>(n, (m.total() - m.p) / 8);
          VREQ(c, got == e, "bytes:read-count", "%s: read(%u) at byte %llu of %zu gave %u, expected %u;%s", what, n, (unsigned long long)m.p / 8, content.size(), got, e, tr.c_str());
          VREQ(c, !e || !memcmp(b.get(), &content[m.p / 8], e), "bytes:read-content", "%s: read(%u) at byte %llu gave other bytes;%s", what, n, (unsigned long long)m.p / 8, tr.c_str());
          m.p += 8ull * e; c.count("byte_reads"); break; }
        default: { // reposition
          uint64_t q = c.rng.below(content.size() + 1); if (c.rng.chance(1, 3)) q = (uint64_t)std::max<int64_t>(0, std::min<int64_t>((int64_t)content.size(), (int64_t)(m.p / 8) + c.rng.range(-12, 12)));
          if (c.rng.chance(1, 12)) { uint64_t far = content.size() + c.rng.below(40) + 1; if (tr.size() < 1200) tr += fmt(":past%llu", (unsigned long long)far); bs.set_position(far); VREQ(c, bs.eof(), "bytes:position-past-end", "%s: not at the end after set_position(%llu) of %zu bytes;%s", what, (unsigned long long)far, content.size(), tr.c_str()); bool t = false; try { bs.getbits(1); } catch (EndOfData&) { t = true; } VREQ(c, t, "bytes:read-past-end", "%s: a bit was read past the end;%s", what, tr.c_str()); }
          if (tr.size() < 1200) tr += fmt(":%llu", (unsigned long long)q);
          bs.set_position(q); m.p = before = q * 8; c.count("repositions");
          VREQ(c, bs.get_position() == q, "bytes:position", "%s: get_position %llu after set_position(%llu);%s", what, (unsigned long long)bs.get_position(), (unsigned long long)q, tr.c_str()); break; }
      }
    } catch (EndOfData&) { threw = true; }
    VREQ(c, threw == want_throw, threw ? "bits:premature-end" : "bits:made-up-bits", "%s: operation %d at bit %llu of %llu %s;%s", what, op, (unsigned long long)before, (unsigned long long)m.total(), threw ? "threw EndOfData although the data is there" : "did not throw EndOfData", tr.c_str());
    if (threw) { m.p = before; c.count("ends_detected"); }
    VREQ(c, pos() == m.p, "bits:position", "%s: position %llu, expected %llu after operation %d;%s", what, (unsigned long long)pos(), (unsigned long long)m.p, op, tr.c_str());
    VREQ(c, bs.get_position() == m.p / 8, "bits:byte-position", "%s: get_position %llu, expected %llu", what, (unsigned long long)bs.get_position(), (unsigned long long)m.p / 8);
    VREQ(c, bs.eof() == (m.p >= m.total()), "bits:eof", "%s: eof is %d at bit %llu of %llu;%s", what, bs.eof(), (unsigned long long)m.p, (unsigned long long)m.total(), tr.c_str());
    c.count("bit_operations");
    if (m.p == m.total() && !reposition && c.rng.chance(1, 2)) break;
  }
  // whatever happened before, the rest of the stream is exactly the rest of the data
  if (m.p % 8 == 0 || m.has(8 - m.p % 8)) {
    while (m.p < m.total()) { int n = (int)std::min<uint64_t>(m.total() - m.p, 1 + c.rng.below(32)); uint32_t v; try { v = bs.getbits(n); } catch (EndOfData&) { c.fail("bits:premature-end", fmt("%s: EndOfData while draining at bit %llu of %llu;%s", what, (unsigned long long)m.p, (unsigned long long)m.total(), tr.c_str())); return; }
      VREQ(c, v == m.peek(m.p, n), "bits:drain-value", "%s: draining, %d bits at %llu of %llu are %x, expected %x;%s", what, n, (unsigned long long)m.p, (unsigned long long)m.total(), v, m.peek(m.p, n), tr.c_str()); m.p += n; if (m.total() - m.p > 40000) m.p = m.p, bs.skipbits(30000), m.p += 30000; }
    VREQ(c, bs.eof(), "bits:eof", "%s: no eof after the last bit", what);
  }
}

static Bytes rnd_content(Rng& r, uint32_t B) {
  size_t n;
  switch (r.below(5)) { case 0: n = r.below(20); break; case 1: n = B * r.below(5) + (size_t)r.below(9); break; case 2: { int64_t x = (int64_t)B * (int64_t)r.range(1, 4) + r.range(-5, 5); n = x > 0 ? x : 1; break; } default: n = 1 + r.size(6000); }
  Bytes d(n); r.fill(d.data(), n); if (r.chance(1, 4)) for (auto& x : d) x &= 3; return d;
}
static uint32_t rnd_buf(Rng& r) { switch (r.below(4)) { case 0: return (uint32_t)r.range(8, 20); case 1: return (uint32_t)r.range(8, 300); case 2: return 8192; default: return 1u << r.range(3, 11); } }

template <class T> static void run_read(Ctx& c, CResource<T>& st, const Bytes& content, uint32_t B, bool repo, unsigned nops, const char* what) {
  std::string tr = fmt("%s %zu bytes, buffer %u:", what, content.size(), B);
  { bitstream<T> bs(st, B); drive_read(c, bs, content, repo, nops, tr, what); }
  c.feature(tr); c.note(tr); c.count("read_streams");
}
static void mem_read(Ctx& c, bool repo) {
  uint32_t B = rnd_buf(c.rng); Bytes d = rnd_content(c.rng, B);
  CResource<MemRd> st; st.Create(); st->d = d;
  run_read(c, st, d, B, repo, (unsigned)c.rng.range(5, 120), "memory");
}
static void g_far(Ctx& c) {
  Bytes content(1 + c.rng.size(9000)); c.rng.fill(content.data(), content.size()); uint32_t B = rnd_buf(c.rng); CResource<FarRd> st; st.Create(); st->d = content; st->base = far_base(c.rng);
  std::string tr = fmt("%zu bytes at %llu, buffer %u:", content.size(), (unsigned long long)st->base, B);
  { bitstream<FarRd> bs(st, B); bs.set_position(st->base); Shift sh(bs, st->base); drive_read(c, sh, content, true, (unsigned)c.rng.range(3, 120), tr, "far"); }
  c.count("far_streams"); c.feature(tr); c.note(tr);
}
static void g_mem(Ctx& c) { mem_read(c, false); }
static void g_mem_pos(Ctx& c) { mem_read(c, true); }
static void thr_read(Ctx& c, bool repo) {
  uint32_t B = rnd_buf(c.rng); Bytes d = rnd_content(c.rng, B); if (d.size() > 3000) d.resize(3000);
  CResource<ThrRd> st; st.Create(); st->d = d; st->start(c.rng.next());
  run_read(c, st, d, B, repo, (unsigned)c.rng.range(5, 60), "threaded");
  c.count("threaded_answers", st->answered);
}
static void g_thr(Ctx& c) { thr_read(c, false); }
static void g_thr_pos(Ctx& c) { thr_read(c, true); }
static void g_sfile(Ctx& c) {
  uint32_t B = rnd_buf(c.rng); Bytes d = rnd_content(c.rng, B); std::string fn = fname("sf"); put_file(fn, d);
  CResource<sync_file_bitstream> st(new sync_file_bitstream(fn.c_str(), true));
  // feof() is only known after a short read: an empty file has none before the stream has tried
  run_read(c, st, d, B, true, (unsigned)c.rng.range(5, 80), "sync file");
}
static void g_afile(Ctx& c) {
  uint32_t B = rnd_buf(c.rng); Bytes d = rnd_content(c.rng, B); if (d.size() > 4000) d.resize(4000); std::string fn = fname("af"); put_file(fn, d);
  IoPlan plan; for (uint64_t o = 0; o <= d.size(); o++) if (c.rng.chance(1, 20)) plan.rd[o].delay_us = (unsigned)c.rng.below(800);
  g_plan.store(&plan);
  { mg::uv::loopthread t; t.Create(); t->set_wait_time(1); t->start();
    { CResource<file_bitstream> st(new file_bitstream(t)); st->open_sync(fn.c_str()); run_read(c, st, d, B, true, (unsigned)c.rng.range(5, 40), "async file"); }
    t->end(); }
  g_plan.store(nullptr);
}
// classes the media code is built on: a stream over a caller's memory, whole-file streams
static void g_fixedmem(Ctx& c) {
  Bytes d = rnd_content(c.rng, 64); if (d.empty()) d.push_back(7);
  std::unique_ptr<unsigned char[]> exact(new unsigned char[d.size()]); memcpy(exact.get(), d.data(), d.size());
  std::string tr = fmt("fixed memory %zu:", d.size());
  { FixedMemoryBitstream bs(exact.get(), d.size()); drive_read(c, bs, d, true, (unsigned)c.rng.range(5, 100), tr, "fixed memory"); }
  c.feature(tr); c.note(tr); c.count("read_streams");
}

// ------------------------------------------------------------------ writing
struct WModel { std::vector<bool> b; uint64_t p = 0; void put(uint32_t v, int n) { for (int i = n - 1; i >= 0; i--) { if (p >= b.size()) b.resize(p + 1); b[p++] = v >> i & 1; } }
  Bytes bytes(size_t nb) { Bytes o(nb); for (size_t i = 0; i < nb * 8 && i < b.size(); i++) if (b[i]) o[i / 8] |= 0x80 >> (i % 8); return o; } };
struct WOp { int kind; uint32_t v; int n; Bytes d; };
static void drive_write(Ctx& c, IBitstream& bs, WModel& m, std::vector<WOp>& log, bool repos, unsigned nops, std::string& tr, const char* what) {
  for (unsigned k = 0; k < nops; k++) {
    int op = (int)c.rng.below(repos ? 9 : 8);
    if (tr.size() < 900) tr += fmt(" %d", op);
    switch (op) {
      case 0: case 1: case 2: case 3: { int n = c.rng.chance(1, 3) ? 32 : (int)c.rng.below(33); uint32_t v = (uint32_t)c.rng.next(); bs.putbits(v, n); m.put(v, n); log.push_back({0, n == 32 ? v : v & ((1u << n) - 1), n, Bytes()}); break; }
      case 4: { int a = 8 << c.rng.below(3); uint64_t s = (a - m.p % a) % a; uint32_t g = bs.align(a); VREQ(c, g == s, "bitwrite:align", "%s: align(%d) at %llu wrote %u bits, expected %llu", what, a, (unsigned long long)m.p, g, (unsigned long long)s); for (uint64_t i = 0; i < s; i++) m.put(0, 1); if (s) for (uint64_t z = s; z;) { int w = z > 32 ? 32 : (int)z; log.push_back({0, 0, w, Bytes()}); z -= w; } break; }
      case 5: { int n = 8 * (int)c.rng.range(1, 4); uint32_t v = (uint32_t)c.rng.next(); bs.little_putbits(v, n); for (int i = 0; i < n / 8; i++) m.put(v >> (8 * i) & 255, 8); log.push_back({1, n == 32 ? v : v & ((1u << n) - 1), n, Bytes()}); break; }
      case 6: { if (m.p % 8) { int s = 8 - m.p % 8; bs.putbits(0, s); m.put(0, s); log.push_back({0, 0, s, Bytes()}); } Bytes d(1 + c.rng.size(600)); c.rng.fill(d.data(), d.size()); bs.write(d.data(), (uint32_t)d.size()); for (auto x : d) m.put(x, 8); log.push_back({2, 0, 0, d}); c.count("byte_writes"); break; }
      case 7: if (m.p % 8 == 0) bs.flush(); break;
      default: { if (m.p % 8) { int s = 8 - m.p % 8; bs.putbits(0, s); m.put(0, s); } uint64_t q = c.rng.below(m.b.size() / 8 + 1); bs.set_position(q); m.p = q * 8; VREQ(c, bs.get_position() == q, "bitwrite:position", "%s: get_position %llu after set_position(%llu)", what, (unsigned long long)bs.get_position(), (unsigned long long)q); c.count("write_repositions"); }
    }
    VREQ(c, bs.getpos() == m.p && bs.get_position() == m.p / 8, "bitwrite:bit-position", "%s: position %llu, expected %llu", what, (unsigned long long)bs.getpos(), (unsigned long long)m.p);
    c.count("write_operations");
  }
  if (m.p % 8) { uint32_t s = 8 - m.p % 8; uint32_t g = bs.align(8); VREQ(c, g == s, "bitwrite:align", "%s: align(8) wrote %u, expected %u", what, g, s); m.put(0, s); log.push_back({0, 0, (int)s, Bytes()}); }
  bs.flush();
}
static void wcheck(Ctx& c, const Bytes& got, WModel& m, std::string& tr, const char* what) {
  Bytes e = m.bytes((m.b.size() + 7) / 8); size_t k = 0; while (k < got.size() && k < e.size() && got[k] == e[k]) k++;
  VREQ(c, got == e, "bitwrite:content", "%s: %zu bytes written, expected %zu; first difference at %zu: %s instead of %s;%s", what, got.size(), e.size(), k, hex(got.data() + k, got.size() - k, 6).c_str(), hex(e.data() + k, e.size() - k, 6).c_str(), tr.c_str());
}
// reading back what was written gives the same values in the same order
static void readback(Ctx& c, IBitstream& r, std::vector<WOp>& log, std::string& tr, const char* what) {
  for (auto& o : log) {
    if (o.kind == 0) { uint32_t v = r.getbits(o.n); VREQ(c, v == o.v, "bitwrite:readback", "%s: wrote %x in %d bits, read %x;%s", what, o.v, o.n, v, tr.c_str()); }
    else if (o.kind == 1) { uint32_t v = r.little_getbits(o.n); VREQ(c, v == o.v, "bitwrite:readback-little", "%s: wrote %x in %d bits, read %x", what, o.v, o.n, v); }
    else { Bytes b(o.d.size()); uint32_t n = 0; r.read(b.data(), (uint32_t)b.size(), &n); VREQ(c, n == b.size() && b == o.d, "bitwrite:readback-bytes", "%s: %zu bytes written, %u read back differ", what, b.size(), n); }
  }
  VREQ(c, r.eof(), "bitwrite:readback-end", "%s: more data than written", what);
}
static void g_wmem(Ctx& c) {
  uint32_t B = rnd_buf(c.rng); CResource<MemWr> st; st.Create(); WModel m; std::vector<WOp> log; std::string tr = fmt("write, buffer %u:", B); bool repos = c.rng.chance(1, 3);
  { bitstream<MemWr> bs(st, false, B); drive_write(c, bs, m, log, repos, (unsigned)c.rng.range(3, 150), tr, "memory"); }
  wcheck(c, st->d, m, tr, "memory");
  if (!repos && !c.failed) { CResource<MemRd> rd; rd.Create(); rd->d = st->d; bitstream<MemRd> r(rd, rnd_buf(c.rng)); readback(c, r, log, tr, "memory"); c.count("round_trips"); }
  c.feature(tr); c.note(tr); c.count("write_streams");
}
static void g_wfar(Ctx& c) {
  uint32_t B = rnd_buf(c.rng); CResource<FarWr> st; st.Create(); st->base = far_base(c.rng); WModel m; std::vector<WOp> log; std::string tr = fmt("write at %llu, buffer %u:", (unsigned long long)st->base, B); bool repos = c.rng.chance(1, 3);
  { bitstream<FarWr> bs(st, false, B); bs.set_position(st->base); Shift sh(bs, st->base); drive_write(c, sh, m, log, repos, (unsigned)c.rng.range(3, 150), tr, "far"); }
  VREQ(c, !st->low, "bitwrite:far-low", "bytes written before %llu;%s", (unsigned long long)st->base, tr.c_str());
  wcheck(c, st->d, m, tr, "far");
  c.feature(tr); c.note(tr); c.count("far_write_streams");
}
static void g_wfile(Ctx& c) {
  uint32_t B = rnd_buf(c.rng); WModel m; std::vector<WOp> log; bool async = c.rng.coin(), repos = !async && c.rng.chance(1, 3); std::string tr = fmt("write %s file, buffer %u:", async ? "async" : "sync", B); std::string fn = fname("wf"); unlink(fn.c_str());
  IoPlan plan; for (uint64_t o = 0; o <= 3000; o++) if (c.rng.chance(1, 20)) plan.wr[o].delay_us = (unsigned)c.rng.below(600);
  g_plan.store(&plan);
  if (async) { mg::uv::loopthread t; t.Create(); t->set_wait_time(1); t->start();
    { CResource<file_bitstream> st(new file_bitstream(t)); st->open_write_sync(fn.c_str()); { bitstream<file_bitstream> bs(st, false, B); drive_write(c, bs, m, log, repos, (unsigned)c.rng.range(3, 60), tr, "async file"); } st->close(); }
    t->end(); }
  else { CResource<sync_file_bitstream> st(new sync_file_bitstream(fn.c_str(), false)); { bitstream<sync_file_bitstream> bs(st, false, B); drive_write(c, bs, m, log, repos, (unsigned)c.rng.range(3, 80), tr, "sync file"); } st->flush(); st->close(); }
  g_plan.store(nullptr);
  wcheck(c, get_file(fn), m, tr, async ? "async file" : "sync file");
  c.feature(tr); c.note(tr); c.count("write_streams");
}

int main(int argc, char** argv) {
  return vh::run(argc, argv, {{"mem", g_mem}, {"mem_pos", g_mem_pos}, {"thr", g_thr}, {"thr_pos", g_thr_pos}, {"sfile", g_sfile}, {"afile", g_afile}, {"fixedmem", g_fixedmem}, {"wmem", g_wmem}, {"wfile", g_wfile}, {"far", g_far}, {"wfar", g_wfar}});
}
