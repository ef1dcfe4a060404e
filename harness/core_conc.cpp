// Promises, locks, events, threads and the loop thread: real mg code run under many schedules, oracle over the observed history.
#include "vh.h"
#include "mgcore.h"
#include <mg/core/uvbase.h>
#include <mg/promises.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <memory>
#include <thread>
using namespace mg::core;
using namespace vh;

static double now_ms() { return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void jitter(Rng& r) {
  switch (r.below(6)) {
    case 0: std::this_thread::yield(); break;
    case 1: { volatile int x = 0; for (unsigned i = 0, n = (unsigned)r.below(2000); i < n; i++) x += i; break; }
    case 2: usleep((useconds_t)r.below(300)); break;
    case 3: usleep((useconds_t)r.below(30)); break;
    default: break;
  }
}

// ------------------------------------------------------------------ promises, one thread: every order of subscribing and delivering
struct Val { int id; Val(int i) : id(i) {} };
typedef CResource<CPromise<Val>> PR;

struct Node {
  PR p; bool cb = false, er = false; int cb_mode = 0, er_mode = 0;   // cb_mode 1: throws; er_mode 0: stop, 1: pass on
  int got_v = 0, got_e = 0, wrong = 0;                               // observed
};
static void g_promise(Ctx& c) {
  unsigned depth = (unsigned)c.rng.range(1, 4);
  std::vector<Node> n(depth);
  n[0].p.Create();
  for (unsigned i = 1; i < depth; i++) n[i].p = n[i - 1].p->forward();
  for (unsigned i = 1; i < depth; i++) VREQ(c, (CPromise<Val>*)n[i - 1].p->forward() == (CPromise<Val>*)n[i].p, "promise:forward-identity", "forward() gave two different promises");
  int id = (int)c.rng.below(1000000);
  bool err = c.rng.chance(2, 5);
  for (auto& x : n) { x.cb_mode = c.rng.chance(1, 6); x.er_mode = c.rng.chance(2, 3); }
  // actions: 0 deliver, 1+2i set_cb(i), 2+2i set_er(i); some nodes are never subscribed
  std::vector<int> act; act.push_back(0);
  for (unsigned i = 0; i < depth; i++) { if (!c.rng.chance(1, 8)) act.push_back(1 + 2 * i); if (!c.rng.chance(1, 8)) act.push_back(2 + 2 * i); }
  for (size_t i = act.size(); i > 1; i--) std::swap(act[i - 1], act[c.rng.below(i)]);
  // ---- model.  state per node: pending value / pending error, exactly like a mailbox per node
  struct M { bool cb = false, er = false, val = false, eset = false; int v = 0, e = 0; };
  std::vector<M> m(depth);
  std::function<void(unsigned)> mv, me;
  me = [&](unsigned i) { if (!m[i].er) { m[i].eset = true; return; } m[i].e++; if (n[i].er_mode && i + 1 < depth) me(i + 1); };
  mv = [&](unsigned i) {
    if (!m[i].cb) { m[i].val = true; return; }
    m[i].v++;
    if (n[i].cb_mode) { me(i); return; }
    if (i + 1 < depth) mv(i + 1);
  };
  std::string tr = fmt("d%u%s:", depth, err ? "E" : "V");
  CResource<Val> payload(new Val(id));
  for (int a : act) {
    if (a == 0) {
      tr += " deliver";
      if (err) { n[0].p->call_er(std::make_exception_ptr(mgexception(id, "x", 1))); me(0); }
      else { n[0].p->call_cb(payload); mv(0); }
    } else if (a & 1) {
      unsigned i = (a - 1) / 2; tr += fmt(" cb%u%s", i, n[i].cb_mode ? "!" : "");
      Node* x = &n[i];
      n[i].p->set_cb([x, id](CResource<Val>& v) { x->got_v++; if (!v || v->id != id) x->wrong++; if (x->cb_mode) throw mgexception(id, "x", 1); });
      m[i].cb = true; if (m[i].val) { m[i].val = false; mv(i); }
    } else {
      unsigned i = (a - 2) / 2; tr += fmt(" er%u%s", i, n[i].er_mode ? "+" : "");
      Node* x = &n[i];
      n[i].p->set_er([x, id](std::exception_ptr e) -> bool {
        x->got_e++;
        try { std::rethrow_exception(e); } catch (mgexceptionbase& ex) { if (ex.get_error_number() != id) x->wrong++; } catch (...) { x->wrong++; }
        return x->er_mode != 0; });
      m[i].er = true; if (m[i].eset) { m[i].eset = false; me(i); }
    }
    for (unsigned i = 0; i < depth; i++) {
      VREQ(c, n[i].got_v == m[i].v, n[i].got_v < m[i].v ? "promise:value-not-delivered" : "promise:value-delivered-again", "promise %u of the chain got the value %d times, expected %d after%s", i, n[i].got_v, m[i].v, tr.c_str());
      VREQ(c, n[i].got_e == m[i].e, n[i].got_e < m[i].e ? "promise:error-not-delivered" : "promise:error-delivered-again", "promise %u of the chain got the error %d times, expected %d after%s", i, n[i].got_e, m[i].e, tr.c_str());
      VREQ(c, !n[i].wrong, "promise:wrong-payload", "promise %u received something else; after%s", i, tr.c_str());
    }
    c.count("promise_steps");
  }
  // default error handler: rethrows to whoever delivers
  if (c.rng.chance(1, 4)) {
    PR p; p.Create(); p->set_er(); int got = 0;
    try { p->call_er(std::make_exception_ptr(mgexception(id, "x", 1))); } catch (mgexceptionbase& e) { got = e.get_error_number() == id ? 1 : 2; }
    VREQ(c, got == 1, "promise:default-handler", "the default error handler did not rethrow the error");
  }
  c.feature(tr); c.note(tr);
}

static void g_promise_mt(Ctx& c) {
  for (int round = 0; round < 20; round++) {
    PR p; p.Create();
    bool err = c.rng.coin(), chain = c.rng.coin();
    PR f; if (chain) f = p->forward();
    std::atomic<int> gate(0), v0(0), e0(0), v1(0), e1(0), wrong(0);
    int id = (int)c.rng.below(1000000);
    uint64_t s1 = c.rng.next(), s2 = c.rng.next(), s3 = c.rng.next();
    std::thread prod([&] { Rng r(s1); gate++; while (gate < 3) {} jitter(r);
      if (err) p->call_er(std::make_exception_ptr(mgexception(id, "x", 1)));
      else { CResource<Val> v(new Val(id)); p->call_cb(v); } });
    std::thread sub([&] { Rng r(s2); gate++; while (gate < 3) {} jitter(r);
      auto scb = [&] { p->set_cb([&](CResource<Val>& v) { v0++; if (v->id != id) wrong++; }); };
      auto ser = [&] { p->set_er([&](std::exception_ptr) -> bool { e0++; return true; }); };
      if (r.coin()) { scb(); jitter(r); ser(); } else { ser(); jitter(r); scb(); } });
    std::thread third([&] { Rng r(s3); gate++; while (gate < 3) {} jitter(r);
      for (int i = 0; i < 3; i++) { volatile bool sink; sink = p->has_value(); (void)sink; }
      if (chain) { f->set_cb([&](CResource<Val>& v) { v1++; if (v->id != id) wrong++; }); jitter(r); f->set_er([&](std::exception_ptr) -> bool { e1++; return false; }); } });
    prod.join(); sub.join(); third.join();
    int ev = err ? 0 : 1, ee = err ? 1 : 0;
    VREQ(c, v0 == ev && e0 == ee, "promise:concurrent-exactly-once", "value delivered %d times (expected %d), error %d times (expected %d)", (int)v0, ev, (int)e0, ee);
    if (chain) VREQ(c, v1 == ev && e1 == ee, "promise:concurrent-forward-exactly-once", "forward got value %d times (expected %d), error %d times (expected %d)", (int)v1, ev, (int)e1, ee);
    VREQ(c, !wrong, "promise:concurrent-payload", "wrong value");
    c.count("concurrent_promises");
  }
  c.feature(c.seed);
  c.note("20 promises resolved and subscribed from different threads");
}

// ------------------------------------------------------------------ events
// waits on a std primitive with a bound, so that a lost wake-up is a verdict and not a hang
struct Joiner {
  std::atomic<unsigned> done{0};
  void fin() { done++; }
  bool wait(unsigned n, int ms) { double t0 = now_ms(); while (done < n) { if (now_ms() - t0 > ms) return done >= n; usleep(100); } return true; }
};

struct EvState { signal_event ev; Joiner j; std::atomic<int> started{0}; std::atomic<bool> signalled{false}, signalling{false}; std::atomic<int> bad_false{0}, early_false{0}, early_true{0}; std::atomic<int> released{0}, timeouts{0}; };

static void g_event(Ctx& c) {
  unsigned nw = (unsigned)c.rng.range(1, 5);
  auto st = std::make_shared<EvState>();
  std::vector<std::thread> th;
  std::string tr;
  unsigned polls = 0;
  for (unsigned i = 0; i < nw; i++) {
    uint64_t s = c.rng.next(); int kind = (int)c.rng.below(4);
    tr += "wtps"[kind];
    if (kind == 2) polls++;
    th.emplace_back([st, s, kind] {
      Rng r(s); st->started++; jitter(r);
      auto timed = [&](uint32_t ms) {
        bool before = st->signalled; double t0 = now_ms();
        bool g = st->ev.wait(ms);
        double dt = now_ms() - t0;
        if (!g && before) st->bad_false++;
        if (!g && dt < (double)ms - 1.0) st->early_false++;
        if (g && !st->signalling) st->early_true++;
        if (!g) st->timeouts++;
        return g;
      };
      if (kind == 0) { st->ev.wait(); if (!st->signalling) st->early_true++; }
      else if (kind == 1) { while (!timed((uint32_t)r.below(8))) {} }
      else if (kind == 2) { while (true) { bool b = st->signalled; bool g = st->ev.is_signaled(); if (g && !st->signalling) st->early_true++; if (b && !g) { st->bad_false++; break; } if (g) break; jitter(r); } }
      else { timed(20000); }
      st->released++; st->j.fin();
    });
  }
  if (c.rng.coin()) while (st->started < (int)nw) std::this_thread::yield();
  if (c.rng.chance(2, 3)) usleep((useconds_t)c.rng.below(3000));
  unsigned nsig = (unsigned)c.rng.range(1, 3);
  st->signalling = true;
  std::vector<std::thread> extra;
  for (unsigned i = 1; i < nsig; i++) extra.emplace_back([st] { st->ev.signal(); });
  st->ev.signal();
  st->signalled = true;
  for (auto& t : extra) t.join();
  bool ok = st->j.wait(nw, 6000);
  int rel = st->released;
  for (auto& t : th) { if (ok) t.join(); else t.detach(); }
  if (!ok) { static std::vector<std::shared_ptr<EvState>>* leak = new std::vector<std::shared_ptr<EvState>>; leak->push_back(st); }
  VREQ(c, ok, "event:lost-wakeup", "%d of %u waiters (%s) released 6 s after signal()", rel, nw, tr.c_str());
  VREQ(c, st->bad_false == 0, "event:signalled-but-timed-out", "%d waits started after signal() returned false (%s)", (int)st->bad_false, tr.c_str());
  VREQ(c, st->early_false == 0, "event:returned-early", "%d timed waits gave up before their time (%s)", (int)st->early_false, tr.c_str());
  VREQ(c, st->early_true == 0, "event:released-before-signal", "%d waits released before signal() (%s)", (int)st->early_true, tr.c_str());
  VREQ(c, st->ev.is_signaled() && st->ev.wait(0), "event:not-sticky", "the event is not signalled any more");
  st->ev.wait();
  st->ev.reset();
  VREQ(c, !st->ev.is_signaled(), "event:reset", "signalled after reset");
  double t0 = now_ms(); uint32_t ms = (uint32_t)c.rng.below(6); bool g = st->ev.wait(ms); double dt = now_ms() - t0;
  VREQ(c, !g && dt >= ms - 1.0, "event:timeout", "wait(%u) on a reset event gave %d after %.2f ms", ms, g, dt);
  st->ev.signal();
  VREQ(c, st->ev.wait(0), "event:signal-after-reset", "not signalled after reset and signal");
  c.count("event_waiters_released", nw); c.count("event_timeouts_seen", (uint64_t)st->timeouts);
  c.feature(fmt("%s/%u", tr.c_str(), nsig)); c.feature(c.seed & 1023);
  c.note(fmt("waiters %s, %u signallers", tr.c_str(), nsig));
}

// hand a token back and forth: every signal must be seen by the other side
static void g_pingpong(Ctx& c) {
  struct S { signal_event a, b; Joiner j; std::atomic<int> turn{0}; std::atomic<int> n{0}; };
  auto st = std::make_shared<S>();
  int rounds = 60; uint64_t s1 = c.rng.next(), s2 = c.rng.next();
  bool timed = c.rng.coin();
  auto body = [st, rounds, timed](signal_event& mine, signal_event& other, uint64_t s) {
    Rng r(s);
    for (int i = 0; i < rounds; i++) {
      if (timed) { if (!mine.wait(20000)) return; } else mine.wait();
      mine.reset(); st->n++;
      if (r.chance(1, 4)) jitter(r);
      other.signal();
    }
    st->j.fin();
  };
  std::thread t1([=] { body(st->a, st->b, s1); }), t2([=] { body(st->b, st->a, s2); });
  st->a.signal();
  bool ok = st->j.wait(2, 8000);
  int n = st->n;
  if (ok) { t1.join(); t2.join(); } else { t1.detach(); t2.detach(); static auto* leak = new std::vector<std::shared_ptr<S>>; leak->push_back(st); }
  VREQ(c, ok && n == 2 * rounds, "event:lost-handover", "token stopped after %d of %d handovers", n, 2 * rounds);
  c.count("event_handovers", n);
  c.feature(c.seed); c.note(fmt("%d handovers (%s waits)", n, timed ? "timed" : "untimed"));
}

// ------------------------------------------------------------------ locks
static void g_lock(Ctx& c) {
  critical_section cs;
  unsigned nt = (unsigned)c.rng.range(2, 5), iters = 150;
  std::atomic<int> inside(0), bad(0); uint64_t plain = 0; std::atomic<uint64_t> expect(0), tries(0);
  std::vector<std::thread> th; std::atomic<unsigned> gate(0);
  for (unsigned t = 0; t < nt; t++) {
    uint64_t s = c.rng.next();
    th.emplace_back([&, s] {
      Rng r(s); gate++; while (gate < nt) {}
      for (unsigned i = 0; i < iters; i++) {
        int kind = (int)r.below(4);
        auto crit = [&] { if (inside++) bad++; plain++; if (r.chance(1, 8)) jitter(r); if (--inside) bad++; expect++; };
        if (kind == 0) { auto_lock l(cs); crit(); }
        else if (kind == 1) { cs.lock(); { auto_lock l2(cs); cs.lock(); crit(); cs.unLock(); } if (inside++) bad++; inside--; cs.unLock(); }   // re-entrant
        else if (kind == 2) { if (cs.try_lock()) { tries++; if (!cs.try_lock()) bad++; else cs.unLock(); crit(); cs.unLock(); } }
        else { try { auto_lock l(cs); crit(); throw 1; } catch (int) {} }
      }
    });
  }
  for (auto& t : th) t.join();
  VREQ(c, bad == 0, "lock:exclusion", "%d times two threads were inside", (int)bad);
  VREQ(c, plain == expect, "lock:lost-update", "%llu updates counted, %llu made", (unsigned long long)plain, (unsigned long long)expect);
  // try_lock against a holder
  cs.lock(); bool got = true; std::thread([&] { got = cs.try_lock(); if (got) cs.unLock(); }).join(); cs.unLock();
  VREQ(c, !got, "lock:try-while-held", "try_lock succeeded while another thread held the lock");
  std::thread([&] { got = cs.try_lock(); if (got) cs.unLock(); }).join();
  VREQ(c, got, "lock:try-while-free", "try_lock failed on a free lock");
  c.count("lock_sections", expect); c.count("try_locks", tries);
  c.feature(fmt("%u", nt)); c.feature(c.seed); c.note(fmt("%u threads, %llu sections", nt, (unsigned long long)(uint64_t)expect));
}

// ------------------------------------------------------------------ cthread
struct TThread : cthread {
  std::atomic<int> runs{0}, stopped{0}, finished{0}; std::atomic<bool> go{false}; bool by_stop; uint32_t w; int plain = 0;
  TThread(bool b, uint32_t ww) : by_stop(b), w(ww) {}
  void run() override {
    runs++; plain++;
    if (by_stop) { while (!should_stop(w)) { runs++; } stopped++; }
    else while (!go) usleep(50);
    plain++;
    finished++;
  }
};
static void g_cthread(Ctx& c) {
  bool by_stop = c.rng.coin(); uint32_t w = (uint32_t)c.rng.below(4);
  TThread t(by_stop, w);
  bool early_stop = by_stop && c.rng.chance(1, 3);
  if (early_stop) t.stop();
  t.start();
  if (!early_stop) {
    usleep((useconds_t)c.rng.below(1500));
    VREQ(c, !t.is_done() && !t.is_done((uint32_t)c.rng.below(3)), "thread:done-too-early", "is_done before the thread was told to end");
  }
  if (by_stop) t.stop(); else t.go = true;
  if (c.rng.coin()) {
    VREQ(c, t.is_done(20000), "thread:done-not-signalled", "is_done(20 s) false after the thread was told to end");
    VREQ(c, t.finished == 1, "thread:done-before-finished", "is_done true before run() returned");
  }
  t.join();
  VREQ(c, t.finished == 1 && t.plain == 2, "thread:join", "join returned before run() ended");
  VREQ(c, t.is_done() && t.is_done(0), "thread:done-after-join", "is_done false after join");
  t.join();
  c.count("threads_run");
  c.feature(fmt("%d%u%d", by_stop, w, early_stop)); c.feature(c.seed & 255); c.note(fmt("by_stop=%d wait=%u early=%d", by_stop, w, early_stop));
}

// ------------------------------------------------------------------ loop thread
struct Work { uv_work_t w; std::atomic<int>* ran; std::atomic<int>* after; int sleep_us; int throw_no; };
static void work_cb(uv_work_t* w) { Work* k = (Work*)w->data; if (k->sleep_us) usleep(k->sleep_us); (*k->ran)++; }
static std::atomic<uint64_t> g_loop_thread(0);
static void after_cb(uv_work_t* w, int) {
  Work* k = (Work*)w->data;
  (*k->after)++;
  if (k->throw_no) throw mgexception(k->throw_no, "planned", 1);
}
static void g_loop(Ctx& c) {
  std::vector<std::unique_ptr<Work>> works;
  std::atomic<int> ran(0), after(0), bad(0);
  {
    mg::uv::loopthread t; t.Create();
    t->set_wait_time((uint32_t)c.rng.range(1, 3));
    bool pre = c.rng.chance(1, 3);
    unsigned n = (unsigned)c.rng.range(0, 12), posted = 0;
    auto post = [&] {
      std::unique_ptr<Work> k(new Work); k->w.data = k.get(); k->ran = &ran; k->after = &after; k->sleep_us = c.rng.coin() ? (int)c.rng.below(2000) : 0; k->throw_no = 0;
      auto_lock l(t->loop_lock());
      int r = uv_queue_work(t->get_loop(), &k->w, work_cb, after_cb);
      if (r) bad++;
      works.push_back(std::move(k)); posted++;
    };
    if (pre) for (unsigned i = 0; i < 3; i++) post();
    t->start();
    for (unsigned i = 0; i < n; i++) { post(); if (c.rng.chance(1, 3)) usleep((useconds_t)c.rng.below(1500)); if (c.rng.chance(1, 3)) t->loop_now(); }
    VREQ(c, !t->is_done(), "loop:ended-unasked", "the loop thread ended without stop()");
    int how = (int)c.rng.below(3);
    if (how == 0) { t->stop(); VREQ(c, t->is_done(20000), "loop:stop-timeout", "not done 20 s after stop()"); t->end(); }
    else if (how == 1) t->end();
    if (how != 2) {
      VREQ(c, after == (int)posted && ran == (int)posted, "loop:stop-lost-work", "%u operations accepted before stop(), %d completed", posted, (int)after);
      VREQ(c, t->is_done(), "loop:not-done-after-end", "is_done false after end()");
      t->check_exception();
    }
    c.count("loop_operations", posted);
    c.feature(fmt("%d%d%u", how, pre, n)); c.note(fmt("%u operations, end mode %d, queued before start %d", posted, how, pre));
  }
  VREQ(c, after == (int)works.size(), "loop:destructor-lost-work", "%zu operations accepted, %d completed when the loop thread was destroyed", works.size(), (int)after);
  VREQ(c, !bad, "loop:post-failed", "uv_queue_work failed");
}

static void g_loop_exc(Ctx& c) {
  std::atomic<int> ran(0), after(0);
  auto* t = new mg::uv::loopthread; t->Create();   // leaked with its loop: libuv is left mid-callback by design of the error path
  (*t)->set_wait_time(1);
  (*t)->start();
  int no = -(int)c.rng.range(1, 4000);
  auto* k = new Work; k->w.data = k; k->ran = &ran; k->after = &after; k->sleep_us = (int)c.rng.below(500); k->throw_no = no;
  { auto_lock l((*t)->loop_lock()); uv_queue_work((*t)->get_loop(), &k->w, work_cb, after_cb); }
  if (c.rng.coin()) (*t)->loop_now();
  VREQ(c, (*t)->is_done(20000), "loop:exception-hang", "the loop thread did not end after an error in a callback");
  int got = 0, how = (int)c.rng.below(3);
  try { if (how == 0) (*t)->end(); else if (how == 1) { (*t)->join(); (*t)->check_exception(); } else { (*t)->stop(); (*t)->join(); (*t)->end(); } }
  catch (mgexceptionbase& e) { got = e.get_error_number(); }
  VREQ(c, got == no, "loop:exception-lost", "the error %d thrown on the loop thread was reported as %d (way %d)", no, got, how);
  bool again = false;
  try { (*t)->check_exception(); (*t)->end(); } catch (...) { again = true; }
  VREQ(c, !again, "loop:exception-twice", "the error was reported a second time");
  // set_exception / check_exception from the outside
  try { throw mgexception(no, "p", 2); } catch (...) { std::exception_ptr e = std::current_exception(); (*t)->set_exception(e); }
  got = 0; try { (*t)->check_exception(); } catch (mgexceptionbase& e) { got = e.get_error_number(); }
  VREQ(c, got == no, "loop:set-exception", "set_exception(%d) reported %d", no, got);
  c.count("loop_errors_reported");
  c.feature(c.seed); c.note(fmt("error %d on the loop thread, collected way %d", no, how));
}

// many loop threads started and ended at once, with check_exception polled while they run
static void g_loop_mt(Ctx& c) {
  mg::uv::loopthread t; t.Create(); t->set_wait_time(1);
  t->start();
  std::atomic<int> ran(0), after(0); std::atomic<bool> stop(false); unsigned nt = (unsigned)c.rng.range(2, 4);
  std::mutex m; std::vector<std::unique_ptr<Work>> works; std::atomic<int> posted(0);
  std::vector<std::thread> th;
  for (unsigned i = 0; i < nt; i++) {
    uint64_t s = c.rng.next();
    th.emplace_back([&, s] { Rng r(s);
      for (int k = 0; k < 6; k++) {
        std::unique_ptr<Work> w(new Work); w->w.data = w.get(); w->ran = &ran; w->after = &after; w->sleep_us = (int)r.below(200); w->throw_no = 0;
        { auto_lock l(t->loop_lock()); uv_queue_work(t->get_loop(), &w->w, work_cb, after_cb); posted++; }
        { std::lock_guard<std::mutex> l(m); works.push_back(std::move(w)); }
        t->loop_now(); t->check_exception(); jitter(r);
      } });
  }
  for (auto& x : th) x.join();
  t->end();
  VREQ(c, after == (int)posted, "loop:concurrent-lost-work", "%d operations posted by %u threads, %d completed", (int)posted, nt, (int)after);
  c.count("loop_operations", posted); c.feature(c.seed); c.note(fmt("%u threads posted %d operations", nt, (int)posted));
}

int main(int argc, char** argv) {
  return vh::run(argc, argv, {{"promise", g_promise}, {"promise_mt", g_promise_mt}, {"event", g_event}, {"pingpong", g_pingpong}, {"lock", g_lock},
                              {"cthread", g_cthread}, {"loop", g_loop}, {"loop_exc", g_loop_exc}, {"loop_mt", g_loop_mt}});
}
