// Asynchronous files, copying and synchronous file storage: real mg code and real libuv, system calls delayed or made to fail by interposition.
#include "vh.h"
#define IO_FAULT_IMPL
#include "io_fault.h"
#include "mgcore.h"
#include <mg/core/file.h>
#include <algorithm>
#include <chrono>
#include <set>
#include <memory>
#include <thread>
#include <sys/stat.h>
using namespace mg::core;
using namespace vh;
typedef CBuffer<unsigned char> UB;
typedef std::vector<unsigned char> Bytes;

static std::string tmpdir() { static std::string d = [] { const char* e = getenv("VH_TMP"); std::string s = e ? e : "/tmp"; s += fmt("/io.%d", (int)getpid()); mkdir(s.c_str(), 0755); return s; }(); return d; }
static std::string fname(const char* n) { return tmpdir() + "/vhf." + n; }
static int raw_open(const std::string& p, int fl) { return (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), fl, 0644); }
static void put_file(const std::string& p, const Bytes& d, uint64_t base = 0) {
  unlink(p.c_str()); int fd = raw_open(p, O_CREAT | O_WRONLY | O_TRUNC); size_t o = 0; if (base) lseek64(fd, (off64_t)base, SEEK_SET);
  while (o < d.size()) { ssize_t r = syscall(SYS_write, fd, d.data() + o, d.size() - o); if (r <= 0) abort(); o += r; }
  syscall(SYS_close, fd);
}
static Bytes get_file(const std::string& p, uint64_t base = 0) {
  Bytes d; int fd = raw_open(p, O_RDONLY); if (fd < 0) return d;
  if (base) lseek64(fd, (off64_t)base, SEEK_SET);
  unsigned char b[65536]; ssize_t r; while ((r = syscall(SYS_read, fd, b, sizeof b)) > 0) d.insert(d.end(), b, b + r);
  syscall(SYS_close, fd); return d;
}
// where the data of a case starts: mostly at the beginning, sometimes far into a sparse file
static uint64_t far_base(Ctx& c) { if (!c.rng.chance(1, 6)) return 0; c.count("far_positions"); return (1ULL << c.rng.range(31, 40)) - c.rng.below(20000); }
static Bytes rnd(Rng& r, size_t n) { Bytes b(n); r.fill(b.data(), n); return b; }
struct PlanGuard { IoPlan p; PlanGuard() {} void arm() { g_plan.store(&p); } ~PlanGuard() { g_plan.store(nullptr); } };
static unsigned rdelay(Rng& r) { return r.chance(1, 3) ? 0 : (unsigned)r.below(r.chance(1, 8) ? 4000 : 700); }

struct Obs {   // history recorded by the callbacks; appended on the loop thread, read after the file is closed
  std::mutex m; std::vector<int> order; std::map<int, Bytes> data; std::map<int, int> errs; std::map<int, int> calls, ecalls; std::set<std::thread::id>* th = nullptr;
  void value(int i, const unsigned char* p, size_t n) { std::lock_guard<std::mutex> l(m); order.push_back(i); calls[i]++; data[i] = Bytes(p, p + n); }
  void plain(int i) { std::lock_guard<std::mutex> l(m); order.push_back(i); calls[i]++; }
  void error(int i, std::exception_ptr e) { int n = 0; try { std::rethrow_exception(e); } catch (mgexceptionbase& x) { n = x.get_error_number(); } catch (...) { n = 1; } std::lock_guard<std::mutex> l(m); order.push_back(i); ecalls[i]++; errs[i] = n; }
};

static uv_fs_t* dummy;
template <class F> static bool until(F f, int ms) { for (int i = 0; i < ms * 5; i++) { if (f()) return true; usleep(200); } return f(); }
static std::string ordstr(const std::vector<int>& v) { std::string s; for (int i : v) s += fmt(" %d", i); return s; }

// ------------------------------------------------------------------ reads complete in any order, callers see them in theirs
static void g_aread(Ctx& c) {
  Bytes content = rnd(c.rng, 1 + c.rng.size(60000));
  uint64_t base = far_base(c);
  std::string fn = fname("r"); put_file(fn, content, base);
  unsigned n = (unsigned)c.rng.range(1, 24);
  PlanGuard pg; Obs ob; bool async_open = c.rng.chance(1, 3), chained = c.rng.chance(1, 4), multi = false;
  struct Rq { uint64_t pos; uint32_t size; bool seek; };
  std::vector<Rq> rq; uint64_t pos = 0;
  for (unsigned i = 0; i < n && pos < content.size(); i++) {
    Rq q; q.seek = c.rng.chance(1, 5);
    if (q.seek) pos = c.rng.below(content.size());
    q.pos = pos; q.size = (uint32_t)c.rng.range(1, 1 + (int64_t)c.rng.size(content.size() / 2 + 16));
    pos = std::min<uint64_t>(content.size(), pos + q.size);
    rq.push_back(q);
  }
  for (auto& q : rq) { IoFault f; f.delay_us = rdelay(c.rng); pg.p.rd[base + q.pos] = f; }
  pg.p.open_delay = rdelay(c.rng);
  std::string tr = fmt("%zu bytes from %llu:", content.size(), (unsigned long long)base);
  for (auto& q : rq) tr += fmt(" %llu+%u%s", (unsigned long long)q.pos, q.size, q.seek ? "s" : "");
  c.note(tr);
  bool reordered = false;
  {
    mg::uv::loopthread t; t.Create(); t->set_wait_time(1); t->start();
    {
      cfile f(t); pg.arm();
      std::atomic<int> opened(0);
      if (async_open) {
        auto p = f.open(fn.c_str(), O_RDONLY, true);
        p->set_er().set_cb([&](CResource<uv_fs_t>& r) { opened = r->result > 0 ? 1 : -1; });
        VREQ(c, until([&] { return opened != 0; }, 20000) && opened == 1, "file:open-not-reported", "async open result %d", (int)opened);
      } else f.open_sync(fn.c_str(), O_RDONLY);
      VREQ(c, f.size() == base + content.size(), "file:size", "size %llu of a file of %zu", (unsigned long long)f.size(), content.size());
      uint64_t mpos = 0; if (base) f.set_position(base);
      for (size_t i = 0; i < rq.size(); i++) {
        Rq& q = rq[i];
        if (q.seek) { f.set_position(base + q.pos); mpos = q.pos; }
        VREQ(c, f.get_position() == base + mpos && f.eof() == (mpos >= content.size()), "file:position", "position %llu eof %d before read %zu, expected %llu", (unsigned long long)f.get_position(), f.eof(), i, (unsigned long long)mpos);
        int idx = (int)i;
        auto p = f.read(q.size);
        p->set_er([&ob, idx](std::exception_ptr e) -> bool { ob.error(idx, e); return false; });
        if (c.rng.chance(1, 6)) usleep((useconds_t)c.rng.below(800));   // subscribe late
        p->set_cb([&ob, idx](CResource<UB>& b) { ob.value(idx, b->get(), b->size()); });
        mpos = std::min<uint64_t>(content.size(), mpos + q.size);
        if (c.rng.chance(1, 4)) t->loop_now();
      }
      VREQ(c, f.get_position() == base + mpos, "file:position", "position %llu after the last read, expected %llu", (unsigned long long)f.get_position(), (unsigned long long)mpos);
      f.close(c.rng.chance(1, 3));
    }
    t->end();
  }
  std::vector<int> want; for (size_t i = 0; i < rq.size(); i++) want.push_back((int)i);
  for (size_t i = 0; i < rq.size(); i++) {
    VREQ(c, ob.calls[(int)i] == 1 && ob.ecalls[(int)i] == 0, ob.calls[(int)i] ? "file:read-answered-again" : "file:read-not-answered", "read %zu answered %d times (%d errors %d) after close", i, ob.calls[(int)i], ob.ecalls[(int)i], ob.errs[(int)i]);
    Bytes e(content.begin() + rq[i].pos, content.begin() + std::min<uint64_t>(content.size(), rq[i].pos + rq[i].size));
    VREQ(c, ob.data[(int)i] == e, "file:read-content", "read %zu of %llu+%u gave %zu bytes %s, expected %zu bytes %s", i, (unsigned long long)rq[i].pos, rq[i].size, ob.data[(int)i].size(), hex(ob.data[(int)i].data(), ob.data[(int)i].size()).c_str(), e.size(), hex(e.data(), e.size()).c_str());
  }
  VREQ(c, ob.order == want, "file:read-order", "answers came in the order%s", ordstr(ob.order).c_str());
  c.count("async_reads", rq.size());
  c.feature(tr); for (auto& q : rq) c.feature(pg.p.rd[base + q.pos].delay_us);
}

// ------------------------------------------------------------------ each read issued from the callback of the one before
static void g_chain(Ctx& c) {
  Bytes content = rnd(c.rng, 1 + c.rng.size(40000)); std::string fn = fname("c"); put_file(fn, content);
  PlanGuard pg; for (int i = 0; i < 3; i++) { IoFault f; f.delay_us = rdelay(c.rng); pg.p.rd[0] = f; }
  Bytes got; std::atomic<bool> done(false); uint32_t chunk = (uint32_t)c.rng.range(1, 1 + (int64_t)content.size() / 2); int reads = 0;
  {
    mg::uv::loopthread t; t.Create(); t->set_wait_time(1); t->start();
    cfile f(t); f.open_sync(fn.c_str()); pg.arm();
    std::function<void()> next = [&] {
      f.read(chunk)->set_er().set_cb([&](CResource<UB>& b) { reads++; got.insert(got.end(), b->get(), b->get() + b->size()); if (f.eof()) done = true; else next(); });
    };
    next();
    VREQ(c, until([&] { return (bool)done; }, 30000), "file:chain-stalled", "stalled after %zu of %zu bytes", got.size(), content.size());
    f.close();
    t->end();
  }
  VREQ(c, got == content, "file:chain-content", "%zu bytes read, %zu expected", got.size(), content.size());
  c.count("chained_reads", reads); c.feature(fmt("%zu/%u", content.size(), chunk)); c.note(fmt("%zu bytes in reads of %u", content.size(), chunk));
}

// ------------------------------------------------------------------ writes
static void g_awrite(Ctx& c) {
  std::string fn = fname("w"); bool existing = c.rng.chance(1, 3);
  uint64_t base = far_base(c); Bytes model; if (existing) { Bytes old = rnd(c.rng, 100); put_file(fn, old); } else unlink(fn.c_str());
  unsigned n = (unsigned)c.rng.range(1, 24); PlanGuard pg; Obs ob;
  struct Wq { uint64_t pos; Bytes d; };
  std::vector<Wq> wq; uint64_t pos = 0, top = 0; std::string tr = base ? fmt("from %llu:", (unsigned long long)base) : "";
  for (unsigned i = 0; i < n; i++) {
    if (c.rng.chance(1, 8)) pos = top + c.rng.below(500);   // leave a hole
    Wq w; w.pos = pos; w.d = rnd(c.rng, 1 + c.rng.size(9000)); pos += w.d.size(); top = std::max(top, pos);
    tr += fmt(" %llu+%zu", (unsigned long long)w.pos, w.d.size()); wq.push_back(w);
  }
  if (n > 2 && c.rng.chance(1, 3)) { for (size_t i = wq.size(); i > 1; i--) std::swap(wq[i - 1], wq[c.rng.below(i)]); tr += " shuffled"; }
  for (auto& w : wq) { IoFault f; f.delay_us = rdelay(c.rng); pg.p.wr[base + w.pos] = f; if (c.rng.chance(1, 6)) pg.p.wr[base + w.pos].shorten = (int64_t)c.rng.range(1, (int64_t)w.d.size()); }
  for (auto& w : wq) { if (model.size() < w.pos + w.d.size()) model.resize(w.pos + w.d.size()); memcpy(&model[w.pos], w.d.data(), w.d.size()); }
  c.note(tr);
  {
    mg::uv::loopthread t; t.Create(); t->set_wait_time(1); t->start();
    {
      cfile f(t); f.open_write_sync(fn.c_str()); pg.arm();
      for (size_t i = 0; i < wq.size(); i++) {
        int idx = (int)i; Bytes tmp = wq[i].d;
        f.set_position(base + wq[i].pos);
        auto p = f.write(tmp.data(), (uint32_t)tmp.size());
        memset(tmp.data(), 0xEE, tmp.size());     // the caller's buffer is free as soon as write returns
        size_t len = tmp.size();
        p->set_cb([&ob, idx, len](CResource<uv_fs_t>& r) { ob.plain(idx); if (r->result != (ssize_t)len) ob.errs[idx] = (int)r->result; });
        VREQ(c, f.get_position() == base + wq[i].pos + wq[i].d.size(), "file:write-position", "position %llu after writing to %llu", (unsigned long long)f.get_position(), (unsigned long long)(wq[i].pos + wq[i].d.size()));
      }
      f.close(c.rng.coin());
      if (c.rng.coin()) VREQ(c, until([&] { return f.outstanding() == 0; }, 20000), "file:outstanding", "%d operations outstanding after close", f.outstanding());
    }
    t->end();
  }
  for (size_t i = 0; i < wq.size(); i++) VREQ(c, ob.calls[(int)i] == 1 && !ob.errs.count((int)i), "file:write-answer", "write %zu answered %d times, result %d", i, ob.calls[(int)i], ob.errs[(int)i]);
  Bytes got = get_file(fn, base);
  size_t d = 0; while (d < got.size() && d < model.size() && got[d] == model[d]) d++;
  VREQ(c, got == model, "file:write-content", "file has %zu bytes, expected %zu; first difference at %zu;%s", got.size(), model.size(), d, tr.c_str());
  c.count("async_writes", wq.size()); c.feature(tr); for (auto& w : wq) c.feature(pg.p.wr[base + w.pos].delay_us);
  if (base) unlink(fn.c_str());
}

// ------------------------------------------------------------------ failing reads: the handler of that read, and only that one, gets the errno
static void g_aerr(Ctx& c) {
  Bytes content = rnd(c.rng, 4096); std::string fn = fname("e"); put_file(fn, content);
  unsigned n = (unsigned)c.rng.range(1, 16); uint32_t sz = (uint32_t)c.rng.range(1, 4096 / n);
  static const int errs[] = {EIO, ENXIO, ESTALE, EISDIR, EINVAL};
  PlanGuard pg; Obs ob; std::map<int, int> bad; std::string tr = fmt("%u reads of %u:", n, sz);
  for (unsigned i = 0; i < n; i++) { IoFault f; f.delay_us = rdelay(c.rng); if (c.rng.chance(1, 3)) { f.err = errs[c.rng.below(5)]; bad[(int)i] = -f.err; tr += fmt(" %u:%d", i, f.err); } pg.p.rd[i * sz] = f; }
  bool rethrow = c.rng.chance(1, 3); if (rethrow) tr += " unhandled";
  c.note(tr);
  int reported = 0; bool ended = false;
  {
    mg::uv::loopthread t; t.Create(); t->set_wait_time(1); t->start();
    {
      cfile f(t); f.open_sync(fn.c_str()); pg.arm();
      for (unsigned i = 0; i < n; i++) {
        int idx = (int)i;
        auto_lock l(t->loop_lock());   // handlers are in place before the answer can arrive
        auto p = f.read(sz);
        p->set_er([&ob, idx, rethrow](std::exception_ptr e) -> bool { ob.error(idx, e); if (rethrow) std::rethrow_exception(e); return false; });
        p->set_cb([&ob, idx](CResource<UB>& b) { ob.value(idx, b->get(), b->size()); });
      }
      f.close(false);
    }
    if (rethrow && !bad.empty()) ended = t->is_done(20000);
    try { t->end(); } catch (mgexceptionbase& e) { reported = e.get_error_number(); }
  }
  for (unsigned i = 0; i < n; i++) {
    int idx = (int)i;
    VREQ(c, ob.calls[idx] + ob.ecalls[idx] == 1, "file:failed-read-answers", "read %u answered %d times and failed %d times; %s", i, ob.calls[idx], ob.ecalls[idx], tr.c_str());
    if (bad.count(idx)) VREQ(c, ob.ecalls[idx] == 1 && ob.errs[idx] == bad[idx], "file:read-error", "read %u should fail with %d, got %s%d; %s", i, bad[idx], ob.ecalls[idx] ? "error " : "value ", ob.errs[idx], tr.c_str());
    else VREQ(c, ob.calls[idx] == 1 && ob.data[idx] == Bytes(content.begin() + i * sz, content.begin() + (i + 1) * sz), "file:read-beside-error", "read %u should succeed; %s", i, tr.c_str());
  }
  for (unsigned i = 0; i < n; i++) VREQ(c, ob.order[i] == (int)i, "file:error-order", "answers came in the order%s; %s", ordstr(ob.order).c_str(), tr.c_str());
  if (rethrow && !bad.empty()) { VREQ(c, ended, "file:error-loop-runs", "the loop thread still runs after an unhandled error"); VREQ(c, reported == bad.begin()->second, "file:unhandled-error", "end() reported %d, the first error was %d; %s", reported, bad.begin()->second, tr.c_str()); }
  else VREQ(c, reported == 0, "file:handled-error-reported", "end() reported %d although every error was handled", reported);
  c.count("read_faults_injected", bad.size()); c.count("async_reads", n); c.feature(tr);
}

// ------------------------------------------------------------------ failing writes and opens: reported by the loop thread with the errno, nothing hangs
static void g_werr(Ctx& c) {
  std::string fn = fname("we"); unlink(fn.c_str());
  unsigned n = (unsigned)c.rng.range(1, 12); uint32_t sz = (uint32_t)c.rng.range(1, 3000);
  int mode = (int)c.rng.below(3); PlanGuard pg; unsigned at = (unsigned)c.rng.below(n); int want = 0, want2 = 0; std::string tr;
  for (unsigned i = 0; i < n; i++) pg.p.wr[(uint64_t)i * sz].delay_us = rdelay(c.rng);
  if (mode == 0) { static const int e[] = {EIO, EDQUOT, EFBIG}; int x = e[c.rng.below(3)]; pg.p.wr[(uint64_t)at * sz].err = x; want = want2 = -x; tr = fmt("write %u of %u fails with %d", at, n, x); }
  else if (mode == 1) { pg.p.limit = (uint64_t)at * sz + c.rng.below(sz); want = -ENOSPC; want2 = UV_EIO; tr = fmt("disk full at %llu of %u", (unsigned long long)pg.p.limit, n * sz); }
  else { static const int e[] = {EACCES, EMFILE, ENOSPC}; pg.p.open_err = e[c.rng.below(3)]; pg.p.open_delay = rdelay(c.rng); want = want2 = -pg.p.open_err; tr = fmt("open fails with %d", pg.p.open_err); }
  bool sync_open = c.rng.coin();
  c.note(tr);
  int reported = 0, sync_reported = 0; std::atomic<int> okcb(0); std::map<int, int> calls; std::mutex m;
  {
    mg::uv::loopthread t; t.Create(); t->set_wait_time(1); t->start();
    {
      cfile f(t); pg.arm();
      if (mode == 2) {
        try {
          auto p = f.open(fn.c_str(), O_CREAT | O_WRONLY | O_TRUNC, !sync_open);
          if (!sync_open) { p->set_cb([&](CResource<uv_fs_t>&) { okcb++; }); t->is_done(20000); }
        } catch (mgexceptionbase& e) { sync_reported = e.get_error_number(); }
      } else {
        f.open_write_sync(fn.c_str());
        for (unsigned i = 0; i < n; i++) {
          Bytes d = rnd(c.rng, sz); int idx = (int)i;
          f.write(d.data(), sz)->set_cb([&, idx](CResource<uv_fs_t>& r) { okcb++; std::lock_guard<std::mutex> l(m); calls[idx]++; });
        }
        f.close(false);
      }
    }
    try { t->end(); } catch (mgexceptionbase& e) { reported = e.get_error_number(); }
  }
  if (mode == 2) {
    VREQ(c, okcb == 0, "file:failed-open-succeeded", "the value callback of a failed open ran");
    VREQ(c, (sync_open ? sync_reported : reported) == want, "file:open-error", "%s reported as %d / %d", tr.c_str(), sync_reported, reported);
  } else {
    VREQ(c, reported == want || reported == want2, "file:write-error", "%s: end() reported %d", tr.c_str(), reported);
    for (unsigned i = 0; i < n; i++) {
      bool fails = mode == 0 ? i == at : (uint64_t)(i + 1) * sz > pg.p.limit;
      VREQ(c, calls[(int)i] == (fails ? 0 : 1), fails ? "file:failed-write-succeeded" : "file:write-beside-error", "write %u answered %d times; %s", i, calls[(int)i], tr.c_str());
    }
  }
  c.count("write_faults_injected"); c.feature(tr);
}

// a file which does not exist, a directory, operations after a failure: always an error, never a hang
static void g_badopen(Ctx& c) {
  mg::uv::loopthread t; t.Create(); t->set_wait_time(1); t->start();
  int kind = (int)c.rng.below(3), want = 0, got = 0; bool async = c.rng.coin();
  std::string p; int flags = O_RDONLY;
  if (kind == 0) { p = fname("missing"); unlink(p.c_str()); want = -ENOENT; flags = c.rng.coin() ? O_RDONLY : (O_RDONLY | O_EXCL); }
  else if (kind == 1) { p = tmpdir(); flags = O_WRONLY; want = -EISDIR; }
  else { p = fname("plain"); put_file(p, Bytes(3)); p += "/below"; want = -ENOTDIR; }
  int cb = 0;
  { cfile f(t);
    try { auto q = f.open(p.c_str(), flags, async); if (async && q) { q->set_er([&](std::exception_ptr e) -> bool { try { std::rethrow_exception(e); } catch (mgexceptionbase& x) { got = x.get_error_number(); } return false; }); q->set_cb([&](CResource<uv_fs_t>&) { cb++; }); t->is_done(20000); } }
    catch (mgexceptionbase& e) { got = e.get_error_number(); } }
  int rep = 0; try { t->end(); } catch (mgexceptionbase& e) { rep = e.get_error_number(); }
  if (!got) got = rep;
  VREQ(c, cb == 0, "file:failed-open-succeeded", "value callback ran");
  VREQ(c, got == want, "file:open-error", "opening (kind %d async %d) should fail with %d, reported %d", kind, async, want, got);
  c.count("open_faults"); c.feature(fmt("%d%d%d", kind, async, flags)); c.note(fmt("kind %d async %d", kind, async));
}

// ------------------------------------------------------------------ several files on one loop, from several threads (for the race detector)
static void g_multi(Ctx& c) {
  unsigned nt = (unsigned)c.rng.range(2, 3); PlanGuard pg;
  for (int i = 0; i < 20; i++) { pg.p.rd[i * 512].delay_us = rdelay(c.rng); pg.p.wr[i * 512].delay_us = rdelay(c.rng); }
  mg::uv::loopthread t; t.Create(); t->set_wait_time(1); t->start(); pg.arm();
  std::vector<std::thread> th; std::atomic<int> bad(0), ops(0);
  for (unsigned k = 0; k < nt; k++) {
    uint64_t s = c.rng.next();
    th.emplace_back([&, k, s] {
      Rng r(s); Bytes d = rnd(r, 512 * 8); std::string fn = fname(fmt("m%u", k).c_str());
      { cfile f(t); f.open_write_sync(fn.c_str()); for (int i = 0; i < 8; i++) { f.write(&d[i * 512], 512); ops++; f.outstanding(); } f.close(r.coin()); }
      Bytes got; std::atomic<int> n(0);
      { cfile f(t); f.open_sync(fn.c_str());
        for (int i = 0; i < 8; i++) { f.read(512)->set_er().set_cb([&](CResource<UB>& b) { got.insert(got.end(), b->get(), b->get() + b->size()); n++; }); ops++; f.eof(); f.outstanding(); if (r.coin()) t->loop_now(); }
        if (r.coin()) f.close(); }
      if (n != 8 || got != d) bad++;
    });
  }
  for (auto& x : th) x.join();
  t->end();
  VREQ(c, !bad, "file:concurrent-content", "%d of %u threads read something else than they wrote", (int)bad, nt);
  c.count("concurrent_file_operations", ops); c.feature(c.seed); c.note(fmt("%u threads on one loop", nt));
}

// ------------------------------------------------------------------ copy_stream between every pair of storages
struct MemStorage : Ibitstream_storage {
  Bytes d; uint64_t pos = 0, base = 0; bool ok = true;   // base: the data starts there
  void read(uint32_t n, Ibitstream_cb* cb) override { if (pos < base) abort(); uint64_t a = base + d.size() > pos ? base + d.size() - pos : 0; uint32_t r = (uint32_t)std::min<uint64_t>(n, a); uint64_t p = pos - base; pos += r; cb->read_cb(d.data() + p, r); }
  void write(const unsigned char* p, uint32_t n, Ibitstream_cb* cb) override { if (d.size() < pos + n) d.resize(pos + n); memcpy(d.data() + pos, p, n); pos += n; cb->write_cb(n); }
  bool eof() override { return pos >= base + d.size(); }
  void flush() override {}
  uint64_t get_position() const override { return pos; }
  void set_position(uint64_t r) override { pos = r; }
};
static void g_copy(Ctx& c) {
  Bytes content = rnd(c.rng, c.rng.chance(1, 10) ? c.rng.below(3) : 1 + c.rng.size(120000));
  uint64_t base = far_base(c); std::string fi = fname("ci"), fo = fname("co"); put_file(fi, content, base); unlink(fo.c_str());
  int sk = (int)c.rng.below(3), dk = (int)c.rng.below(3);   // 0 memory 1 sync file 2 async file
  uint32_t chunk = (uint32_t)c.rng.range(1, c.rng.chance(1, 2) ? 9000 : 700); if (content.size() / chunk > 200) chunk = (uint32_t)(content.size() / 200 + 1);
  uint64_t a = c.rng.chance(1, 2) ? 0 : c.rng.below(content.size() + 1), b = 0;
  if (c.rng.chance(1, 3) && a < content.size()) b = a + 1 + c.rng.below(content.size() - a + 10);
  PlanGuard pg; for (uint64_t o = a; o < content.size(); o += chunk) { pg.p.rd[base + o].delay_us = c.rng.chance(1, 3) ? rdelay(c.rng) / 3 : 0; pg.p.wr[o - a].delay_us = c.rng.chance(1, 3) ? rdelay(c.rng) / 3 : 0; }
  std::string tr = fmt("%zu bytes from %llu, %d->%d, chunk %u, [%llu,%llu)", content.size(), (unsigned long long)base, sk, dk, chunk, (unsigned long long)a, (unsigned long long)b); c.note(tr);
  Bytes got;
  {
    mg::uv::loopthread t, t2; t.Create(); t->set_wait_time(1); t->start(); t2 = t;
    if (c.rng.coin()) { t2 = mg::uv::loopthread(); t2.Create(); t2->set_wait_time(1); t2->start(); }
    {
      MemStorage ms, md; ms.d = content; ms.base = base; std::unique_ptr<sync_file_bitstream> ss, sd; std::unique_ptr<file_bitstream> as, ad;
      Ibitstream_storage *s = &ms, *d = &md;
      if (sk == 1) { ss.reset(new sync_file_bitstream(fi.c_str(), true)); s = ss.get(); }
      if (sk == 2) { as.reset(new file_bitstream(t)); as->open_sync(fi.c_str()); s = as.get(); }
      if (dk == 1) { sd.reset(new sync_file_bitstream(fo.c_str(), false)); d = sd.get(); }
      if (dk == 2) { ad.reset(new file_bitstream(t2)); ad->open_write_sync(fo.c_str()); d = ad.get(); }
      pg.arm();
      copy_stream(*s, *d, chunk, base + a, b ? base + b : 0);
      if (ad) ad->close();
      sd.reset(); ad.reset();
      got = dk ? get_file(fo) : md.d;
    }
    t->end(); t2->end();
  }
  uint64_t e = b && b < content.size() ? b : content.size();
  Bytes want(content.begin() + std::min<uint64_t>(a, content.size()), content.begin() + std::max<uint64_t>(std::min<uint64_t>(a, content.size()), e));
  size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
  VREQ(c, got == want, "copy:content", "%s: copied %zu bytes, expected %zu; first difference at %zu", tr.c_str(), got.size(), want.size(), k);
  c.count("streams_copied"); c.count("bytes_copied", got.size()); c.feature(tr);
}
static void g_copy_err(Ctx& c) {
  Bytes content = rnd(c.rng, 8000); std::string fi = fname("xi"), fo = fname("xo"); put_file(fi, content); unlink(fo.c_str());
  PlanGuard pg; bool rd = c.rng.coin(); uint32_t chunk = (uint32_t)c.rng.range(100, 900); unsigned nb = 8000 / chunk; unsigned at = (unsigned)c.rng.below(nb);
  for (unsigned i = 0; i <= nb; i++) { pg.p.rd[i * chunk].delay_us = rdelay(c.rng); pg.p.wr[i * chunk].delay_us = rdelay(c.rng); }
  if (rd) pg.p.rd[at * chunk].err = EIO; else pg.p.wr[at * chunk].err = ENOSPC;
  std::string tr = fmt("%s of chunk %u fails, chunk %u", rd ? "read" : "write", at, chunk); c.note(tr);
  struct R { std::atomic<int> done{0}; int got = 0; };
  auto res = std::make_shared<R>(); auto plan = new IoPlan(pg.p); g_plan.store(plan);
  std::thread th([=] {
    {
      mg::uv::loopthread t; t.Create(); t->set_wait_time(1); t->start();
      try { file_bitstream s(t), d(t); s.open_sync(fi.c_str()); d.open_write_sync(fo.c_str()); copy_stream(s, d, chunk); }
      catch (mgexceptionbase& e) { res->got = e.get_error_number(); }
      try { t->end(); } catch (mgexceptionbase& e) { if (!res->got) res->got = e.get_error_number(); }
    }
    res->done = 1;
  });
  bool ok = until([&] { return res->done != 0; }, 8000);
  if (ok) th.join(); else th.detach();
  VREQ(c, ok, "copy:hang-on-error", "copy_stream never returned: %s", tr.c_str());
  VREQ(c, res->got == (rd ? -EIO : -ENOSPC), "copy:error-lost", "%s: reported %d", tr.c_str(), res->got);
  c.count("copy_faults"); c.feature(tr);
}

// ------------------------------------------------------------------ synchronous file storage against a byte model
struct Cap : Ibitstream_cb { Bytes d; uint32_t w = 0; int n = 0; void read_cb(const unsigned char* p, uint32_t r) override { d.assign(p, p + r); n++; } void write_cb(uint32_t x) override { w = x; n++; } };
static void g_sync(Ctx& c) {
  std::string fn = fname("s"); unlink(fn.c_str()); Bytes model; uint64_t pos = 0; std::string tr;
  {
    sync_file_bitstream f(fn.c_str(), false);
    unsigned n = (unsigned)c.rng.range(1, 20);
    for (unsigned i = 0; i < n; i++) {
      if (c.rng.chance(1, 6)) { pos = c.rng.below(model.size() + 200); f.set_position(pos); tr += fmt(" @%llu", (unsigned long long)pos); }
      Bytes d = rnd(c.rng, 1 + c.rng.size(70000)); tr += fmt(" w%zu", d.size());
      if (c.rng.coin()) { Cap k; f.write(d.data(), (uint32_t)d.size(), &k); VREQ(c, k.n == 1 && k.w == d.size(), "syncfile:write-answer", "write answered %d times with %u", k.n, k.w); }
      else VREQ(c, f.write(d.data(), (uint32_t)d.size()) == d.size(), "syncfile:write", "short write");
      if (model.size() < pos + d.size()) model.resize(pos + d.size());
      memcpy(&model[pos], d.data(), d.size()); pos += d.size();
      VREQ(c, f.get_position() == pos, "syncfile:position", "position %llu expected %llu", (unsigned long long)f.get_position(), (unsigned long long)pos);
      if (c.rng.chance(1, 4)) { f.flush(); VREQ(c, get_file(fn) == model, "syncfile:flush", "after flush the file has other bytes;%s", tr.c_str()); }
    }
    if (c.rng.coin()) f.close();
  }
  VREQ(c, get_file(fn) == model, "syncfile:content", "the file has other bytes than written;%s", tr.c_str());
  {
    sync_file_bitstream f(fn.c_str(), true);
    VREQ(c, f.size() == model.size(), "syncfile:size", "size %llu of %zu", (unsigned long long)f.size(), model.size());
    pos = 0;
    for (unsigned i = 0; i < 15; i++) {
      if (c.rng.chance(1, 4)) { pos = c.rng.below(model.size() + 1); f.set_position(pos); }
      uint32_t n = 1 + (uint32_t)c.rng.size(model.size() / 2 + 10); Bytes e(model.begin() + pos, model.begin() + std::min<uint64_t>(model.size(), pos + n));
      VREQ(c, f.get_position() == pos, "syncfile:position", "position %llu expected %llu", (unsigned long long)f.get_position(), (unsigned long long)pos);
      if (c.rng.coin()) { Cap k; f.read(n, &k); VREQ(c, k.n == 1 && k.d == e, "syncfile:read", "read of %u at %llu gave %zu bytes, expected %zu", n, (unsigned long long)pos, k.d.size(), e.size()); }
      else { Bytes b(n); size_t r = f.read(n, b.data()); b.resize(r); VREQ(c, b == e, "syncfile:read", "read of %u at %llu gave %zu bytes, expected %zu", n, (unsigned long long)pos, r, e.size()); }
      pos += e.size();
      VREQ(c, !(f.eof() && pos < model.size()), "syncfile:eof-early", "eof at %llu of %zu", (unsigned long long)pos, model.size());
      VREQ(c, !(e.size() < n && !f.eof()), "syncfile:no-eof", "no eof after a short read");
    }
  }
  bool threw = false; try { sync_file_bitstream f((fn + ".none/x").c_str(), true); } catch (mgexceptionbase&) { threw = true; }
  VREQ(c, threw, "syncfile:open-missing", "opening a missing file did not throw");
  c.count("sync_file_histories"); c.feature(tr); c.note(tr);
}
// far positions, in a sparse file
static void g_sync_far(Ctx& c) {
  std::string fn = fname("far"); unlink(fn.c_str());
  uint64_t pos = (1ULL << c.rng.range(31, 40)) + c.rng.below(1 << 20); Bytes d = rnd(c.rng, 300);
  { sync_file_bitstream f(fn.c_str(), false); f.set_position(pos); f.write(d.data(), 300); VREQ(c, f.get_position() == pos + 300, "syncfile:far-position", "position %llu after writing 300 at %llu", (unsigned long long)f.get_position(), (unsigned long long)pos); }
  struct stat st; stat(fn.c_str(), &st);
  VREQ(c, (uint64_t)st.st_size == pos + 300, "syncfile:far-size", "file size %llu, expected %llu", (unsigned long long)st.st_size, (unsigned long long)pos + 300);
  { sync_file_bitstream f(fn.c_str(), true); f.set_position(pos); Cap k; f.read(300, &k); VREQ(c, k.d == d, "syncfile:far-read", "other bytes read back at %llu", (unsigned long long)pos); }
  { mg::uv::loopthread t; t.Create(); t->set_wait_time(1); t->start(); Bytes got;
    { cfile f(t); f.open_sync(fn.c_str()); f.set_position(pos); f.read(300)->set_er().set_cb([&](CResource<UB>& b) { got.assign(b->get(), b->get() + b->size()); }); f.close(); }
    t->end(); VREQ(c, got == d, "file:far-read", "other bytes read back at %llu", (unsigned long long)pos); }
  unlink(fn.c_str());
  c.count("far_positions"); c.feature(pos); c.note(fmt("position %llu", (unsigned long long)pos));
}

// a disk without space: what could not be stored is never taken for stored
static void g_sync_full(Ctx& c) {
  int err = 0; uint64_t total = 0, told = 0; unsigned n = (unsigned)c.rng.range(1, 30); bool explicit_close = c.rng.coin(); std::string tr = fmt("%u writes to a full disk", n);
  {
    sync_file_bitstream f("/dev/full", false);
    try {
      for (unsigned i = 0; i < n; i++) { Bytes d = rnd(c.rng, 1 + c.rng.size(20000)); total += d.size(); Cap k; f.write(d.data(), (uint32_t)d.size(), &k); told += k.w; }
      if (explicit_close) f.close(); else f.flush();
    } catch (mgexceptionbase& e) { err = e.get_error_number(); }
  }
  VREQ(c, err == -ENOSPC, "syncfile:full-disk", "%s: %llu of %llu bytes reported written, error %d, expected %d", tr.c_str(), (unsigned long long)told, (unsigned long long)total, err, -ENOSPC);
  c.count("full_disks"); c.feature(total); c.note(tr);
}

int main(int argc, char** argv) {
  setenv("UV_THREADPOOL_SIZE", "6", 1);
  int r = vh::run(argc, argv, {{"aread", g_aread}, {"chain", g_chain}, {"awrite", g_awrite}, {"aerr", g_aerr}, {"werr", g_werr}, {"badopen", g_badopen}, {"multi", g_multi},
                              {"copy", g_copy}, {"copy_err", g_copy_err}, {"sync", g_sync}, {"sync_far", g_sync_far}, {"sync_full", g_sync_full}});
  return r;
}
