// Monitors for the in-memory building blocks: buffer, shared handle, string, splitter, command line,
// checked conversions, exceptions.  Each case drives a random history against a small reference model.
#include "vh.h"
#include <mg/cbuffer.h>
#include <mg/cresource.h>
#include <mg/alxstring.h>
#include <mg/exception.h>
#include <mg/splitter.h>
#include <mg/cmdline.h>
#include <mg/core/thread.h>
#include <mg/core/uvbase.h>
#include <memory>
#include <atomic>
#include <thread>
#include <cmath>
#include <sstream>
#include <limits>
using namespace vh;
using namespace mg::core;

// ------------------------------------------------------------------ CBuffer
template <class T, class S>
static void cbuffer_case(Ctx& c, const char* tname) {
  S init = (S)(1 + c.rng.size(c.rng.chance(1, 4) ? 3000 : 40));
  CBuffer<T, S> b(init);
  std::vector<T> m;
  bool tail_zero = true;  // nobody wrote past the committed part
  unsigned nops = (unsigned)c.rng.range(1, 60);
  std::string trace = fmt("%s init=%llu:", tname, (unsigned long long)init);
  uint64_t grew = 0;
  for (unsigned k = 0; k < nops; k++) {
    S before = b.getSize();
    switch (c.rng.below(11)) {
      case 0: case 1: case 2: {
        size_t n = c.rng.size(c.rng.chance(1, 10) ? 5000 : 64);
        std::vector<T> v(n + 1);
        for (auto& x : v) x = (T)c.rng.next();
        b.add(v.data(), (S)n);
        m.insert(m.end(), v.begin(), v.begin() + n);
        trace += fmt(" add%zu", n);
        break;
      }
      case 3: {
        size_t n = 1 + c.rng.size(200);
        b.prepare((S)n);
        VREQ(c, b.getFree() >= n, "buffer:prepare-room", "prepare(%zu) left %llu free", n, (unsigned long long)b.getFree());
        trace += fmt(" prep%zu", n);
        break;
      }
      case 4: case 5: {  // direct write protocol: prepare, write through getCurrent, commit
        size_t n = 1 + c.rng.size(200);
        b.prepare((S)n);
        T* p = b.getCurrent();
        size_t commit = c.rng.coin() ? n : c.rng.below(n + 1);
        std::vector<T> v(n);
        for (auto& x : v) x = (T)(c.rng.next() | 1);
        for (size_t i = 0; i < n; i++) p[i] = v[i];
        b.updatePosition((S)commit);
        m.insert(m.end(), v.begin(), v.begin() + commit);
        if (commit < n) tail_zero = false;
        trace += fmt(" direct%zu/%zu", commit, n);
        break;
      }
      case 6: {
        ResetBuffer<T, S> r(b);
        size_t n = c.rng.size(m.size());
        bool z = c.rng.chance(2, 3);
        if (z) r.Back((S)n); else { r.MoveBack((S)n); if (n) tail_zero = false; }
        m.resize(m.size() - n);
        trace += fmt(" %s%zu", z ? "back" : "moveback", n);
        break;
      }
      case 7: {
        if (!c.rng.chance(1, 4)) break;
        ResetBuffer<T, S> r(&b);
        r.Reset();
        m.clear(); tail_zero = true;
        trace += " reset";
        break;
      }
      case 8: {
        CBuffer<T, S> o((S)(1 + c.rng.below(30)));
        size_t n = c.rng.size(80);
        std::vector<T> v(n + 1);
        for (auto& x : v) x = (T)c.rng.next();
        o.add(v.data(), (S)n);
        b += o;
        m.insert(m.end(), v.begin(), v.begin() + n);
        VREQ(c, o.size() == n && (n == 0 || !memcmp(o.get(), v.data(), n * sizeof(T))), "buffer:append-source-changed", "source of += changed");
        trace += fmt(" cat%zu", n);
        break;
      }
      case 9: {
        if (m.empty()) break;
        size_t i = c.rng.below(m.size());
        T v = (T)c.rng.next();
        if (c.rng.coin()) b.WriteAt((uint32_t)i, &v); else b.getAt((uint32_t)i) = v;
        m[i] = v;
        break;
      }
      case 10: {  // self append
        if (!c.rng.chance(1, 4)) break;
        if (m.size() > 4000) break;
        if (c.rng.coin()) { b += b; std::vector<T> cp = m; m.insert(m.end(), cp.begin(), cp.end()); trace += " self"; }
        else if (!m.empty()) {
          size_t o = c.rng.below(m.size()), n = c.rng.below(m.size() - o + 1);
          std::vector<T> cp(m.begin() + o, m.begin() + o + n);
          b.add(b.get() + o, (S)n);
          m.insert(m.end(), cp.begin(), cp.end());
          trace += fmt(" selfpart%zu", n);
        }
        break;
      }
    }
    if (b.getSize() != before) { grew++; }
    VREQ(c, b.size() == m.size() && b.getFull() == m.size(), "buffer:length", "size %llu model %zu after%s", (unsigned long long)b.size(), m.size(), trace.c_str());
    VREQ(c, m.empty() || !memcmp(b.get(), m.data(), m.size() * sizeof(T)), "buffer:content", "content differs after%s", trace.c_str());
    VREQ(c, b.getSize() >= m.size() && b.getFree() == b.getSize() - m.size(), "buffer:free", "free %llu size %llu full %zu", (unsigned long long)b.getFree(), (unsigned long long)b.getSize(), m.size());
    VREQ(c, b.getCurrent() == b.get() + m.size(), "buffer:current", "getCurrent is not the end of the committed part after%s", trace.c_str());
    if (tail_zero) {
      const T* p = b.get();
      for (S i = (S)m.size(); i < b.getSize(); i++)
        VREQ(c, p[i] == 0, "buffer:tail-not-zero", "uncommitted element %llu is not zero after%s", (unsigned long long)i, trace.c_str());
    }
    // positioned read
    if (sizeof(S) == sizeof(size_t) && c.rng.chance(1, 3)) {
      size_t pos = c.rng.chance(1, 6) ? m.size() + c.rng.below(50) : c.rng.below(m.size() + 1);
      unsigned long want = (unsigned long)c.rng.size(100), got = 12345;
      std::vector<T> out(want + 1, (T)0x5a);
      bool r = b.ReadBuffer(out.data(), want, got, (S)pos);
      if (pos > m.size()) { VREQ(c, !r || got == 0, "buffer:read-past-end", "read at %zu of %zu returned %lu", pos, m.size(), got); c.count("reads_past_end"); }
      else {
        unsigned long exp = std::min<unsigned long>(want, m.size() - pos);
        if (exp) VREQ(c, r, "buffer:read-refused", "read at %zu of %zu refused", pos, m.size());
        if (r) VREQ(c, got == exp && (exp == 0 || !memcmp(out.data(), m.data() + pos, exp * sizeof(T))), "buffer:read-value", "positioned read at %zu want %lu got %lu expected %lu", pos, want, got, exp);
        VREQ(c, out[want] == (T)0x5a, "buffer:read-overrun", "positioned read wrote past its destination");
      }
      c.count("positioned_reads");
    }
    c.count("buffer_ops");
  }
  if (grew) { c.feature(fmt("%s g%llu n%zu", tname, (unsigned long long)grew, m.size())); c.count("growths", grew); }
  c.note(trace);
}
static void g_cbuffer(Ctx& c) {
  switch (c.rng.below(4)) {
    case 0: cbuffer_case<unsigned char, size_t>(c, "u8"); break;
    case 1: cbuffer_case<char, size_t>(c, "char"); break;
    case 2: cbuffer_case<uint32_t, size_t>(c, "u32"); break;
    default: cbuffer_case<unsigned char, uint32_t>(c, "u8/32"); break;
  }
}

// ------------------------------------------------------------------ CResource
struct Tracked {
  static std::atomic<int64_t> live;
  int64_t id;
  CResource<Tracked> next;
  std::atomic<int>* destroyed;
  Tracked() : id(-1), destroyed(nullptr) { live++; }
  Tracked(int64_t i, std::atomic<int>* d) : id(i), destroyed(d) { live++; }
  ~Tracked() { live--; if (destroyed) (*destroyed)++; }
};
std::atomic<int64_t> Tracked::live(0);

struct ResObj { std::atomic<int> destroyed{0}; std::atomic<int> cleaned{0}; std::atomic<int> cleaned_after{0}; int refs = 0; bool cleanup = false; bool ids = true; int next = -1; };

static void g_resource(Ctx& c) {
  int64_t live0 = Tracked::live;
  std::vector<std::unique_ptr<ResObj>> objs;
  std::vector<std::unique_ptr<CResource<Tracked>>> hs;
  std::vector<int> model;  // handle -> object (-1 null)
  size_t nh = 2 + c.rng.below(6);
  for (size_t i = 0; i < nh; i++) { hs.emplace_back(new CResource<Tracked>()); model.push_back(-1); }
  auto newobj = [&]() { objs.emplace_back(new ResObj); return (int)objs.size() - 1; };
  std::function<void(int)> dec = [&](int o) {
    if (o < 0) return;
    if (--objs[o]->refs == 0) { int n = objs[o]->next; objs[o]->next = -1; dec(n); }
  };
  unsigned nops = (unsigned)c.rng.range(5, 80);
  std::string tr;
  for (unsigned k = 0; k < nops; k++) {
    size_t a = c.rng.below(hs.size()), b = c.rng.below(hs.size());
    switch (c.rng.below(10)) {
      case 0: case 1: {  // new object into a
        int o = newobj();
        { CResource<Tracked> t(new Tracked(o, &objs[o]->destroyed)); *hs[a] = t; }
        dec(model[a]); model[a] = o; objs[o]->refs++;
        tr += fmt(" new%zu", a);
        break;
      }
      case 2: case 3: {  // assignment, self included
        if (c.rng.coin()) *hs[a] = *hs[b]; else hs[a]->Assign(*hs[b]);
        int o = model[b]; if (o >= 0) objs[o]->refs++;
        dec(model[a]); model[a] = o;
        tr += fmt(" %zu=%zu", a, b);
        break;
      }
      case 4: {  // copy construct
        hs.emplace_back(new CResource<Tracked>(*hs[b])); model.push_back(model[b]);
        if (model[b] >= 0) objs[model[b]]->refs++;
        tr += fmt(" cp%zu", b);
        break;
      }
      case 5: {  // drop a handle
        if (hs.size() <= 2) break;
        hs.erase(hs.begin() + a); int o = model[a]; model.erase(model.begin() + a); dec(o);
        tr += fmt(" drop%zu", a);
        break;
      }
      case 6: {  // null assignment
        CResource<Tracked> n; *hs[a] = n; dec(model[a]); model[a] = -1;
        break;
      }
      case 7: {  // cleanup function
        if (model[a] < 0) {
          bool threw = false;
          try { hs[a]->add_cleanup_function([](Tracked*) {}); } catch (mgexceptionbase&) { threw = true; }
          VREQ(c, threw, "resource:null-cleanup", "add_cleanup_function on an empty handle did not throw");
        } else if (!objs[model[a]]->cleanup) {
          ResObj* ro = objs[model[a]].get(); ro->cleanup = true;
          int id = model[a];
          hs[a]->add_cleanup_function([ro, id](Tracked* t) { ro->cleaned++; if (ro->destroyed) ro->cleaned_after++; if (t->id != id) ro->ids = false; });
        }
        break;
      }
      case 8: {  // link: object a -> object b (only when it creates no cycle)
        int oa = model[a], ob = model[b];
        if (oa < 0) break;
        int w = ob; bool cyc = false;
        while (w >= 0) { if (w == oa) cyc = true; w = objs[w]->next; }
        if (cyc) break;
        (*hs[a])->next = *hs[b];
        if (ob >= 0) objs[ob]->refs++;
        int old = objs[oa]->next; objs[oa]->next = ob; dec(old);
        tr += fmt(" link%zu>%zu", a, b);
        c.count("links");
        break;
      }
      case 9: {  // advance along a chain: h = h->next (the handle on the right dies with the node)
        int oa = model[a];
        if (oa < 0) break;
        *hs[a] = (*hs[a])->next;
        int ob = objs[oa]->next; if (ob >= 0) objs[ob]->refs++;
        dec(oa); model[a] = ob;
        tr += fmt(" adv%zu", a);
        c.count("chain_advances");
        break;
      }
    }
    int64_t alive = 0;
    for (size_t i = 0; i < objs.size(); i++) {
      ResObj& o = *objs[i];
      if (o.refs > 0) alive++;
      VREQ(c, o.destroyed == (o.refs > 0 ? 0 : 1), o.refs > 0 ? "resource:destroyed-while-held" : "resource:not-destroyed-once", "object %zu refs %d destroyed %d after%s", i, o.refs, (int)o.destroyed, tr.c_str());
      VREQ(c, o.cleaned == ((o.refs == 0 && o.cleanup) ? 1 : 0), "resource:cleanup-count", "object %zu refs %d cleanup ran %d after%s", i, o.refs, (int)o.cleaned, tr.c_str());
      VREQ(c, o.cleaned_after == 0 && o.ids, "resource:cleanup-object", "cleanup ran after destruction or on the wrong object");
    }
    VREQ(c, Tracked::live - live0 == alive, "resource:live-count", "live %lld model %lld", (long long)(Tracked::live - live0), (long long)alive);
    for (size_t i = 0; i < hs.size(); i++) {
      CResource<Tracked>& h = *hs[i];
      VREQ(c, (bool)h == (model[i] >= 0) && !h == (model[i] < 0), "resource:null-test", "handle %zu truth value", i);
      if (model[i] >= 0) {
        VREQ(c, h->id == model[i] && ((Tracked*)h)->id == model[i] && h.GetRef().id == model[i], "resource:target", "handle %zu designates the wrong object", i);
        VREQ(c, h.count() == objs[model[i]]->refs, "resource:count", "count %ld model %d after%s", h.count(), objs[model[i]]->refs, tr.c_str());
      } else {
        VREQ(c, (Tracked*)h == NULL, "resource:null-pointer", "empty handle converts to a pointer");
        if (k % 16 == 0) { bool t = false; try { h.GetRef(); } catch (mgexceptionbase&) { t = true; } VREQ(c, t, "resource:null-ref", "GetRef on an empty handle did not throw"); }
      }
    }
    c.count("handle_ops");
  }
  { // Create
    CResource<Tracked> x; x.Create();
    VREQ(c, (bool)x && x.count() == 1, "resource:create", "Create left the handle empty");
    bool t = false; try { x.Create(); } catch (mgexceptionbase&) { t = true; }
    VREQ(c, t, "resource:create-twice", "Create on a non-empty handle did not throw");
  }
  if (objs.size() > 1) c.feature(tr);
  c.note(tr);
  hs.clear();
  for (auto& o : objs) VREQ(c, o->destroyed == 1, "resource:leak-or-double", "object destroyed %d times at the end", (int)o->destroyed);
  VREQ(c, Tracked::live == live0, "resource:leak", "%lld objects alive at the end", (long long)(Tracked::live - live0));
}

// handles to the same object copied, assigned and dropped from several threads at once
static void g_resource_mt(Ctx& c) {
  int64_t live0 = Tracked::live;
  unsigned nt = (unsigned)c.rng.range(2, 4), rounds = 30;
  std::vector<std::unique_ptr<ResObj>> objs;
  for (unsigned r = 0; r < rounds; r++) objs.emplace_back(new ResObj);
  std::vector<std::vector<CResource<Tracked>>> start(nt);
  for (unsigned r = 0; r < rounds; r++) {
    CResource<Tracked> h(new Tracked(r, &objs[r]->destroyed));
    ResObj* ro = objs[r].get();
    h.add_cleanup_function([ro](Tracked*) { ro->cleaned++; });
    for (unsigned t = 0; t < nt; t++) start[t].push_back(h);
  }
  std::atomic<unsigned> gate(0); std::atomic<uint64_t> early(0);
  std::vector<std::thread> th;
  for (unsigned t = 0; t < nt; t++) {
    uint64_t s = c.rng.next();
    th.emplace_back([&, t, s]() {
      Rng rng(s);
      gate++; while (gate < nt) {}
      for (unsigned r = 0; r < rounds; r++) {
        CResource<Tracked> a = start[t][r], b;
        unsigned n = (unsigned)rng.below(12);
        for (unsigned k = 0; k < n; k++) { CResource<Tracked> d(a); b = d; if (b->id != (int64_t)r) early++; }
        if (objs[r]->destroyed) early++;
        start[t][r] = CResource<Tracked>();
      }
    });
  }
  for (auto& t : th) t.join();
  for (unsigned r = 0; r < rounds; r++) {
    VREQ(c, objs[r]->destroyed == 1 && objs[r]->cleaned == 1, "resource:concurrent-destroy-count", "object shared by %u threads destroyed %d times, cleaned %d times", nt, (int)objs[r]->destroyed, (int)objs[r]->cleaned);
  }
  VREQ(c, early == 0, "resource:concurrent-early-destroy", "object destroyed or replaced while held");
  VREQ(c, Tracked::live == live0, "resource:concurrent-leak", "objects left alive");
  c.count("shared_objects", rounds);
  c.feature(fmt("t%u s%llx", nt, (unsigned long long)c.seed));
  c.note(fmt("%u threads, %u shared objects", nt, rounds));
}

// ------------------------------------------------------------------ Cstring
static std::string rnd_text(Rng& r, size_t max, const char* alpha = nullptr) {
  size_t n = r.size(max);
  std::string s;
  for (size_t i = 0; i < n; i++) {
    if (alpha) s += alpha[r.below(strlen(alpha))];
    else { char ch = (char)r.range(1, 255); s += ch; }
  }
  return s;
}
typedef std::shared_ptr<std::string> SP;

static bool same(const Cstring& s, const std::string& m) {
  const char* p = s;
  return s.size() == m.size() && s.len() == m.size() && !memcmp(p, m.data(), m.size()) && p[m.size()] == 0;
}

static void g_cstring(Ctx& c) {
  const char* alpha = c.rng.coin() ? "ab" : nullptr;
  std::vector<Cstring*> v; std::vector<SP> m;
  struct Del { std::vector<Cstring*>& v; ~Del() { for (auto p : v) delete p; } } del{v};
  for (int i = 0; i < 3; i++) {
    std::string t = rnd_text(c.rng, 20, alpha);
    switch (c.rng.below(3)) {
      case 0: v.push_back(new Cstring(t.c_str())); m.push_back(SP(new std::string(t.c_str()))); break;
      case 1: v.push_back(new Cstring()); m.push_back(SP(new std::string)); break;
      default: v.push_back(new Cstring((uint32_t)c.rng.range(1, 40))); m.push_back(SP(new std::string)); break;
    }
  }
  unsigned nops = (unsigned)c.rng.range(5, 50);
  std::string tr;
  for (unsigned k = 0; k < nops; k++) {
    size_t a = c.rng.below(v.size()), b = c.rng.below(v.size());
    Cstring &A = *v[a], &B = *v[b];
    int op = (int)c.rng.below(22);
    tr += fmt(" %d(%zu,%zu)", op, a, b);
    std::string t = rnd_text(c.rng, c.rng.chance(1, 12) ? 3000 : 24, alpha); t = t.c_str();
    switch (op) {
      case 0: A = t.c_str(); m[a] = SP(new std::string(t)); break;
      case 1: A += t.c_str(); *m[a] += t; break;
      case 2: A.append(t.c_str()); *m[a] += t; break;
      case 3: { if (m[a]->size() + m[b]->size() > 20000) break; A += B; std::string x = *m[b]; *m[a] += x; break; }   // b may alias a
      case 4: { Cstring r = A + t.c_str(); VREQ(c, same(r, *m[a] + t), "string:concat", "operator+ text"); break; }
      case 5: { Cstring r = A + B; VREQ(c, same(r, *m[a] + *m[b]), "string:concat", "operator+ string"); break; }
      case 6: { Cstring r = operator+(t.c_str(), A); VREQ(c, same(r, t + *m[a]), "string:concat", "text + string"); break; }
      case 7: { Cstring r = A.clone(); VREQ(c, same(r, *m[a]), "string:clone", "clone differs"); r += "zz"; VREQ(c, same(A, *m[a]), "string:clone-shares", "writing to a clone changed the original"); break; }
      case 8: { delete v[a]; v[a] = new Cstring(a == b ? Cstring(m[a]->c_str()) : Cstring(B)); if (a == b) m[a] = SP(new std::string(*m[a])); else m[a] = m[b]; break; }  // copy shares
      case 9: if (a != b) { A = B; m[a] = m[b]; } else { A = A; } break;
      case 10: {  // find
        std::string nd = c.rng.coin() && m[a]->size() ? m[a]->substr(c.rng.below(m[a]->size()), 1 + c.rng.below(4)) : rnd_text(c.rng, 4, alpha);
        nd = nd.c_str();
        size_t st = c.rng.below(m[a]->size() + 1);
        int got = A.find(nd.c_str(), (uint32_t)st); size_t e = m[a]->find(nd, st);
        VREQ(c, got == (e == std::string::npos ? -1 : (int)e), "string:find", "find '%s' in '%s' from %zu gave %d", esc(nd).c_str(), esc(*m[a], 80).c_str(), st, got);
        c.count("finds");
        break;
      }
      case 11: {
        std::string nd = c.rng.coin() && m[a]->size() ? m[a]->substr(c.rng.below(m[a]->size()), 1 + c.rng.below(4)) : rnd_text(c.rng, 4, alpha);
        nd = nd.c_str(); if (nd.empty()) break;
        size_t st = c.rng.below(m[a]->size() + 1);
        int got = A.rfind(nd.c_str(), (uint32_t)st); size_t e = m[a]->rfind(nd);
        if (e != std::string::npos && e < st) e = std::string::npos;
        VREQ(c, got == (e == std::string::npos ? -1 : (int)e), "string:rfind", "rfind '%s' in '%s' from %zu gave %d", esc(nd).c_str(), esc(*m[a], 80).c_str(), st, got);
        c.count("finds");
        break;
      }
      case 12: case 13: {
        size_t st = c.rng.below(m[a]->size() + 1), ln = c.rng.size(m[a]->size() + 40);
        Cstring r = A.subString(st, ln);
        std::string e = m[a]->substr(st, ln);
        VREQ(c, same(r, e), "string:substring", "subString(%zu,%zu) of %zu characters gave size %u len %zu, expected %zu", st, ln, m[a]->size(), r.size(), r.len(), e.size());
        r += "!"; VREQ(c, same(r, e + "!"), "string:substring-append", "text appended to a substring is lost");
        VREQ(c, same(A, *m[a]), "string:substring-shares", "writing to a substring changed the original");
        c.count("substrings");
        break;
      }
      case 14: { int64_t x = (int64_t)(c.rng.next() >> c.rng.below(64)) * (c.rng.coin() ? 1 : -1); if (c.rng.chance(1, 20)) x = INT64_MIN; A += x; *m[a] += std::to_string((long long)x); c.count("numbers"); break; }
      case 15: { uint64_t x = c.rng.next() >> c.rng.below(64); if (c.rng.chance(1, 20)) x = UINT64_MAX; A += x; *m[a] += std::to_string((unsigned long long)x); c.count("numbers"); break; }
      case 16: { int x = (int)(c.rng.next() >> c.rng.below(33)); if (c.rng.chance(1, 10)) x = INT32_MIN; A += x; *m[a] += std::to_string(x); c.count("numbers"); break; }
      case 17: { unsigned x = (unsigned)(c.rng.next() >> c.rng.below(33)); A += x; *m[a] += std::to_string(x); c.count("numbers"); break; }
      case 18: { float x = (float)((double)(int64_t)c.rng.next() / (double)(1ULL << c.rng.below(62))); A += x; char q[600]; snprintf(q, sizeof q, "%.6f", x); *m[a] += q; c.count("numbers"); break; }
      case 19: {
        size_t n = 1 + c.rng.size(100); size_t w = c.rng.below(n + 1);
        char* p = A.GetBuffer(n, false);
        for (size_t i = 0; i < w; i++) p[i] = 'A' + (char)(i % 26);
        A.CommitBuffer(w);
        for (size_t i = 0; i < w; i++) *m[a] += (char)('A' + i % 26);
        break;
      }
      case 20: if (c.rng.chance(1, 3)) { A.Clear(); m[a]->clear(); } break;
      case 21: { std::wstring w; size_t n = c.rng.size(60); std::string e; for (size_t i = 0; i < n; i++) { char ch = (char)c.rng.range(32, 126); w += (wchar_t)ch; e += ch; } A += w.c_str(); *m[a] += e; c.count("wide"); break; }
    }
    for (size_t i = 0; i < v.size(); i++)
      VREQ(c, same(*v[i], *m[i]), "string:value", "string %zu has size %u len %zu, model %zu; after%s", i, v[i]->size(), v[i]->len(), m[i]->size(), tr.c_str());
    // comparisons
    VREQ(c, (*v[a] == m[b]->c_str()) == (*m[a] == *m[b]) && (*v[a] != m[b]->c_str()) == (*m[a] != *m[b]) && Equals(*v[a], *v[b]) == (*m[a] == *m[b]), "string:equality", "equality of '%s' and '%s'", esc(*m[a], 60).c_str(), esc(*m[b], 60).c_str());
    VREQ(c, (*v[a] < *v[b]) == (strcmp(m[a]->c_str(), m[b]->c_str()) < 0), "string:order", "order of '%s' and '%s'", esc(*m[a], 60).c_str(), esc(*m[b], 60).c_str());
    if (k % 8 == 0) { std::ostringstream os; os << *v[a]; VREQ(c, os.str() == *m[a], "string:stream", "stream output differs"); }
    c.count("string_ops");
  }
  c.feature(tr);
  c.note(tr);
}

// ------------------------------------------------------------------ number <-> text, hex, formatting
static void g_strnum(Ctx& c) {
  std::string tr;
  { int x = (int)(c.rng.next() >> c.rng.below(64)); if (c.rng.chance(1, 20)) x = c.rng.coin() ? INT32_MIN : INT32_MAX;
    Cstring s(""); s += x; int y = s; VREQ(c, x == y, "number:int", "%d read back as %d", x, y); tr += fmt("%d ", x); }
  { int64_t x = (int64_t)(c.rng.next() >> c.rng.below(64)) * (c.rng.coin() ? 1 : -1); if (c.rng.chance(1, 20)) x = c.rng.coin() ? INT64_MIN : INT64_MAX;
    Cstring s(""); s += x; int64_t y = s; VREQ(c, x == y, "number:int64", "%lld read back as %lld", (long long)x, (long long)y); tr += fmt("%lld ", (long long)x); }
  { uint64_t x = c.rng.next() >> c.rng.below(64); if (c.rng.chance(1, 20)) x = UINT64_MAX;
    Cstring s(""); s += x; uint64_t y = s; VREQ(c, x == y, "number:uint64", "%llu read back as %llu", (unsigned long long)x, (unsigned long long)y); }
  { double x = ((double)(int64_t)c.rng.next()) * std::pow(10.0, (double)c.rng.range(-200, 200)); char b[64]; snprintf(b, sizeof b, "%.17g", x);
    Cstring s(b); double y = s; VREQ(c, x == y, "number:double", "%.17g read back as %.17g", x, y); }
  { // text that is not a number is refused
    static const char* junk[] = {"", "abc", "-", "+", "x12", " ", "--3", "e5", "true", "#1"};
    std::string j = junk[c.rng.below(10)];
    if (c.rng.coin()) { j = rnd_text(c.rng, 12, "ghijklmqrstuvwyz,;[]"); }
    Cstring s(j.c_str()); int bad = 0;
    try { int y = s; (void)y; bad |= 1; } catch (mgexceptionbase&) {}
    try { int64_t y = s; (void)y; bad |= 2; } catch (mgexceptionbase&) {}
    try { uint64_t y = s; (void)y; bad |= 4; } catch (mgexceptionbase&) {}
    VREQ(c, !bad, "number:garbage-accepted", "'%s' accepted as a number (%d)", esc(j).c_str(), bad);
    c.count("garbage_numbers");
  }
  { static const char* w[] = {"1", "true", "yes", "TRUE", "True", "0", "false", "no", "", "T", "11", "truee", " yes", "Yes", "2"};
    size_t i = c.rng.below(15); Cstring s(w[i]); bool y = s; VREQ(c, y == (i < 5), "number:bool", "'%s' read as %d", w[i], (int)y); }
  // hex
  { size_t n = c.rng.size(200); std::vector<unsigned char> d(n + 1), o(n + 1, 0xEE);
    c.rng.fill(d.data(), n);
    std::string pre = rnd_text(c.rng, 6, "xyz");
    Cstring s(pre.c_str()); s.append_hex_buffer(d.data(), (uint32_t)n);
    std::string e = pre; char q[4]; for (size_t i = 0; i < n; i++) { snprintf(q, 4, "%02X", d[i]); e += q; }
    VREQ(c, same(s, e), "hex:append", "hex text of %zu bytes differs", n);
    if (c.rng.coin()) { std::string l = e; for (size_t i = pre.size(); i < l.size(); i++) l[i] = (char)tolower(l[i]); s = l.c_str(); }
    size_t off = n ? c.rng.below(n) : 0, cnt = n ? 1 + c.rng.below(n - off) : 0;
    s.extract_binary_hex(o.data(), (uint32_t)cnt, (uint32_t)(pre.size() + 2 * off));
    VREQ(c, !memcmp(o.data(), d.data() + off, cnt) && o[cnt] == 0xEE, "hex:extract", "hex text read back differently (%zu bytes at %zu)", cnt, off);
    c.count("hex_bytes", n);
    tr += fmt("hex%zu ", n);
  }
  // printf style append
  { int i = (int)c.rng.next(); unsigned u = (unsigned)c.rng.next(); std::string t = rnd_text(c.rng, 40, "abcXYZ 09"); double d = (double)(int32_t)c.rng.next() / 64;
    Cstring s("p:"); char q[4096];
    switch (c.rng.below(5)) {
      case 0: s.append_format("%d|%x|%s", i, u, t.c_str()); snprintf(q, sizeof q, "p:%d|%x|%s", i, u, t.c_str()); break;
      case 1: s.append_format("%5.3f %llu", d, (unsigned long long)u); snprintf(q, sizeof q, "p:%5.3f %llu", d, (unsigned long long)u); break;
      case 2: s.append_format("plain"); snprintf(q, sizeof q, "p:plain"); break;
      case 3: s.append_format("%s%c%%", t.c_str(), 'q'); snprintf(q, sizeof q, "p:%s%c%%", t.c_str(), 'q'); break;
      default: { size_t n = 1900 + c.rng.below(147); std::string big(n, 'k'); s.append_format("%s", big.c_str()); snprintf(q, sizeof q, "p:%s", big.c_str()); break; }
    }
    VREQ(c, same(s, q), "format:append", "append_format gave '%s', expected '%s'", esc((char*)s, 100).c_str(), esc(q, 100).c_str());
    c.count("formats");
    if (c.rng.chance(1, 4)) {  // too long: refused or complete, never an overflow
      std::string big(2040 + c.rng.below(3000), 'L'); Cstring z(""); bool threw = false;
      try { z.append_format("%s", big.c_str()); } catch (mgexceptionbase&) { threw = true; }
      VREQ(c, threw ? same(z, "") : same(z, big), "format:long", "long formatted text was cut to %zu of %zu", z.len(), big.size());
      c.count("long_formats");
    }
  }
  c.feature(tr); c.note(tr);
}

// hex dump: every byte of the buffer appears, in order, as two hex digits
static void g_hexdump(Ctx& c) {
  size_t n = c.rng.size(300); unsigned long w = (unsigned long)c.rng.range(0, 31);
  std::vector<unsigned char> d(n + 1); c.rng.fill(d.data(), n);
  if (c.rng.coin()) for (auto& x : d) x &= 0x1f;
  int bf = c.rng.coin() ? 1 : 0;
  Cstring s = hexformat(d.data(), n, w, bf);
  if (!n) { VREQ(c, s.len() == 0, "hexdump:empty", "dump of nothing has text"); return; }
  std::string t = (char*)s; size_t p = 0, seen = 0;
  while (p < t.size()) {
    size_t e = t.find("\r\n", p); VREQ(c, e != std::string::npos, "hexdump:lines", "line without end");
    std::string line = t.substr(p, e - p); p = e + 2;
    VREQ(c, line.size() >= 3 * (w + 1) + 1 && line[3 * (w + 1)] == '\t', "hexdump:columns", "line has no hex column: '%s'", esc(line).c_str());
    for (unsigned long i = 0; i <= w; i++) {
      char* endp; std::string cell = line.substr(3 * i, 2); unsigned long v = strtoul(cell.c_str(), &endp, 16);
      VREQ(c, *endp == 0 && line[3 * i + 2] == ' ', "hexdump:cell", "bad cell '%s'", esc(line.substr(3 * i, 3)).c_str());
      if (seen < n) { VREQ(c, v == d[seen], "hexdump:byte", "byte %zu shown as %02lx, is %02x", seen, v, d[seen]); seen++; }
    }
  }
  VREQ(c, seen == n, "hexdump:missing", "%zu of %zu bytes shown", seen, n);
  c.count("dumped_bytes", n);
  c.feature(fmt("n%zu w%lu", n, w)); c.note(fmt("%zu bytes, %lu per line", n, w + 1));
}

// ------------------------------------------------------------------ splitter / replace
static std::vector<std::string> msplit(const std::string& s, const std::string& sep) {
  std::vector<std::string> r; size_t p = 0;
  while (true) { size_t e = s.find(sep, p); if (e == std::string::npos) { r.push_back(s.substr(p)); return r; } r.push_back(s.substr(p, e - p)); p = e + sep.size(); }
}
static void g_split(Ctx& c) {
  const char* alpha = c.rng.coin() ? "ab," : "a,";
  Csplitter reuse; bool use_reuse = c.rng.coin();
  unsigned rounds = use_reuse ? 3 : 1;
  std::string tr;
  for (unsigned r = 0; r < rounds; r++) {
    std::string s = rnd_text(c.rng, 60, alpha), sep = rnd_text(c.rng, 3, alpha);
    if (sep.empty()) sep = ",";
    auto e = msplit(s, sep);
    Cstring cs(s.c_str()), csep(sep.c_str());
    Csplitter fresh; Csplitter* sp = use_reuse ? &reuse : &fresh;
    if (use_reuse || c.rng.coin()) sp->split(cs, csep); else { fresh = Csplitter(cs, csep); }
    VREQ(c, sp->getCount() == e.size(), "split:count", "'%s' by '%s' gave %zu pieces, expected %zu (use %u of the object)", s.c_str(), sep.c_str(), sp->getCount(), e.size(), r);
    for (size_t i = 0; i < e.size(); i++) { Cstring p = (*sp)[i]; VREQ(c, same(p, e[i]), "split:piece", "piece %zu of '%s' by '%s' is '%s'", i, s.c_str(), sep.c_str(), (char*)p); }
    VREQ(c, same(cs, s) && same(csep, sep), "split:input-changed", "splitting changed its input");
    VREQ(c, same(sp->getInternalString(), s), "split:source", "remembered text differs");
    std::string in = rnd_text(c.rng, 5, "ab,Z"), exp;
    for (size_t i = 0; i < e.size(); i++) { if (i) exp += in; exp += e[i]; }
    Cstring rep = replace(s.c_str(), in.c_str(), sep.c_str());
    VREQ(c, same(rep, exp), "split:replace", "replacing '%s' by '%s' in '%s' gave '%s'", sep.c_str(), in.c_str(), s.c_str(), (char*)rep);
    c.count("pieces", e.size());
    tr += s + "|" + sep + " ";
    if (e.size() > 1) c.feature(tr);
  }
  c.note(tr);
}

// ------------------------------------------------------------------ command lines
struct Rec { char cmd; std::vector<std::string> args; };
struct CmdProbe : Cmdline {
  std::vector<Rec> got; int usage = 0;
  void put(char k, int n, TCHAR* a[]) { Rec r; r.cmd = k; for (int i = 0; i < n; i++) r.args.push_back(a[i]); got.push_back(r); }
#define PRB(X) virtual void X(int n, TCHAR* a[]) { put(#X[0], n, a); }
  PRB(A) PRB(B) PRB(C) PRB(D) PRB(E) PRB(F) PRB(G) PRB(H) PRB(I) PRB(J) PRB(K) PRB(L) PRB(M) PRB(N) PRB(O) PRB(P) PRB(Q) PRB(R) PRB(S) PRB(T) PRB(U) PRB(V) PRB(W) PRB(X) PRB(Y) PRB(Z)
  virtual void Usage() { usage++; }
  virtual void Defaul_T(int n, TCHAR* a[], TCHAR k) { put(k, n, a); }
};
static void g_cmdline(Ctx& c) {
  std::vector<std::string> args; args.push_back("prog");
  size_t n = c.rng.below(14);
  for (size_t i = 0; i < n; i++) {
    if (c.rng.chance(1, 2)) { std::string s; s += c.rng.coin() ? '-' : '/'; static const char ok[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ019_?"; s += ok[c.rng.below(sizeof ok - 1)]; if (c.rng.chance(1, 4)) s += "tail"; if (c.rng.chance(1, 20)) s.resize(1); args.push_back(s); }
    else { std::string s = rnd_text(c.rng, 10, "ab-/ 12"); if (!s.empty() && (s[0] == '-' || s[0] == '/')) s[0] = 'q'; args.push_back(s); }
  }
  std::vector<char*> av; for (auto& s : args) av.push_back((char*)s.c_str()); av.push_back(nullptr);
  std::vector<Rec> e; int usage = 0; bool help = false; char cur = 0; std::vector<std::string> ca; bool active = false;
  auto disp = [&]() { if (!cur) return; if (cur == '?') { usage++; help = true; } else { Rec r; r.cmd = isalpha((unsigned char)cur) ? (char)toupper(cur) : cur; r.args = ca; e.push_back(r); } };
  if (args.size() < 2) usage++;
  else {
    for (size_t i = 1; i < args.size(); i++) {
      if (args[i][0] == '-' || args[i][0] == '/') { disp(); cur = args[i].size() > 1 ? args[i][1] : 0; ca.clear(); active = true; }
      else ca.push_back(args[i]);
    }
    disp();
  }
  (void)active;
  CmdProbe p; p.process((int)args.size(), av.data());
  std::string tr; for (auto& s : args) tr += "[" + s + "]";
  VREQ(c, p.got.size() == e.size(), "cmdline:dispatch-count", "%zu commands dispatched, expected %zu for %s", p.got.size(), e.size(), tr.c_str());
  for (size_t i = 0; i < e.size(); i++) {
    VREQ(c, p.got[i].cmd == e[i].cmd, "cmdline:command", "command %zu is '%c' expected '%c' for %s", i, p.got[i].cmd, e[i].cmd, tr.c_str());
    VREQ(c, p.got[i].args == e[i].args, "cmdline:args", "arguments of '%c' differ (%zu, expected %zu) for %s", e[i].cmd, p.got[i].args.size(), e[i].args.size(), tr.c_str());
  }
  VREQ(c, p.usage == usage && p.help() == help, "cmdline:usage", "usage %d expected %d", p.usage, usage);
  c.count("dispatches", e.size());
  if (e.size()) c.feature(tr);
  c.note(tr);
}

static void g_console(Ctx& c) {
  static const char* names[] = {"input", "output", "bit-rate", "kid", "verbose", "start", "end", "i2", "dash", "hls", "a", "key_url"};
  console_command cc;
  struct D { console_command::command_type t; bool req; char sc; };
  std::map<std::string, D> decl; std::map<std::string, std::vector<std::string>> val; std::map<std::string, bool> flag_only;
  size_t nd = 1 + c.rng.below(7); std::string scs;
  for (size_t i = 0; i < nd; i++) {
    std::string n = names[c.rng.below(12)];
    console_command::command_type t = (console_command::command_type)c.rng.below(3);
    bool rq = c.rng.chance(1, 5); char sc = 0;
    if (c.rng.coin()) { sc = (char)c.rng.range('A', 'Z'); if (scs.find(sc) != std::string::npos) sc = 0; else scs += sc; }
    if (decl.count(n)) {
      bool threw = false; try { cc.add(n.c_str(), t); } catch (mgexceptionbase&) { threw = true; }
      VREQ(c, threw, "console:duplicate", "declaring '%s' twice was accepted", n.c_str());
      continue;
    }
    if (sc) cc.add(n.c_str(), t, rq, "desc", sc); else cc.add(n.c_str(), t, rq, "desc");
    decl[n] = D{t, rq, sc};
  }
  std::vector<std::string> args; args.push_back("prog");
  size_t na = c.rng.below(10); std::string tr;
  struct Given { std::string name, value; bool hasv; };
  for (size_t i = 0; i < na; i++) {
    int kind = (int)c.rng.below(8);
    if (kind == 0) { std::string s = rnd_text(c.rng, 8, "ab:= 1"); args.push_back(s); if (!s.empty() && s[0] == '-') args.pop_back(); continue; }
    std::string given, key;
    if (kind <= 4 && decl.size()) { auto it = decl.begin(); std::advance(it, c.rng.below(decl.size())); given = key = it->first; if (it->second.sc && c.rng.coin()) { given = std::string(1, it->second.sc); } }
    else if (c.rng.coin()) { given = key = std::string("unk") + (char)('a' + c.rng.below(3)); }
    else { given = key = std::string(1, "xyzu019"[c.rng.below(7)]); c.count("unknown_letters"); }
    std::string s = c.rng.coin() ? "-" : "--"; s += given;
    std::string v; bool hasv = c.rng.chance(4, 5);
    if (hasv) {
      s += c.rng.coin() ? ":" : "=";
      switch (c.rng.below(6)) {
        case 0: v = std::to_string((int)c.rng.next()); break;
        case 1: v = "http://h:80/p?q=1"; break;
        case 2: v = "a=b:c=d"; break;
        case 3: v = "-neg"; break;
        case 4: v = rnd_text(c.rng, 30, "ab:=-/. "); break;
        default: v = rnd_text(c.rng, 10, "pqr"); break;
      }
      s += v;
    }
    args.push_back(s);
    if (!hasv && decl.count(key) && decl[key].t == console_command::type_bool) v = given == key ? "T" : "\x01any";  // a flag: only its presence is promised for the one letter form
    val[key].push_back(v);
    flag_only[fmt("%s#%zu", key.c_str(), val[key].size() - 1)] = !hasv;
  }
  for (auto& s : args) tr += "[" + s + "]";
  std::vector<char*> av; for (auto& s : args) av.push_back((char*)s.c_str()); av.push_back(nullptr);
  std::string missing; for (auto& d : decl) if (d.second.req && !val.count(d.first)) { missing = d.first; break; }
  bool ok = cc.process((int)args.size(), av.data());
  VREQ(c, ok == missing.empty(), "console:required", "process gave %d, missing '%s' for %s", (int)ok, missing.c_str(), tr.c_str());
  if (!ok) { std::string m = (char*)cc.get_error_message(); VREQ(c, m.find(missing) != std::string::npos, "console:error-names-parameter", "message '%s' does not name '%s'", m.c_str(), missing.c_str()); c.count("missing_required"); }
  for (auto& d : decl) {
    std::string n = d.first; size_t cnt = val.count(n) ? val[n].size() : 0;
    VREQ(c, cc.get_command_count(n.c_str()) == cnt && cc.command_specified(n.c_str()) == (cnt > 0), "console:count", "'%s' seen %u times, expected %zu for %s", n.c_str(), cc.get_command_count(n.c_str()), cnt, tr.c_str());
    VREQ(c, !cc.command_specified(n.c_str(), (uint32_t)cnt), "console:specified-index", "'%s' reported at an index past its last value", n.c_str());
  }
  for (auto& kv : val) for (size_t i = 0; i < kv.second.size(); i++) {
    VREQ(c, cc.command_specified(kv.first.c_str(), (uint32_t)i), "console:lost", "value %zu of '%s' lost for %s", i, kv.first.c_str(), tr.c_str());
    Cstring v = cc.get_value(kv.first.c_str(), (uint32_t)i);
    if (kv.second[i] == "\x01any") continue;
    VREQ(c, same(v, kv.second[i]), "console:value", "value %zu of '%s' is '%s', expected '%s' for %s", i, kv.first.c_str(), (char*)v, kv.second[i].c_str(), tr.c_str());
    char* ep; long long n = strtoll(kv.second[i].c_str(), &ep, 10);
    if (*ep == 0 && kv.second[i].size()) { VREQ(c, cc.get_integer64_value(kv.first.c_str(), (uint32_t)i) == n, "console:integer", "integer value differs"); if (i == 0) VREQ(c, cc.get_integer_value(kv.first.c_str()) == (int)n, "console:integer", "integer value differs"); }
    c.count("values");
  }
  VREQ(c, !cc.command_specified("neverdeclared"), "console:phantom", "undeclared command reported");
  std::string h = (char*)cc.get_help();
  for (auto& d : decl) VREQ(c, h.find(d.first + ":[value]") != std::string::npos, "console:help", "help does not list '%s'", d.first.c_str());
  if (val.size()) c.feature(tr);
  c.note(tr);
}

// ------------------------------------------------------------------ checked conversions
template <class F, class T, class Fn>
static void conv1(Ctx& c, const char* name, F v, Fn fn, bool representable, T expect) {
  bool threw = false; T r = T(); int num = 0;
  try { r = fn(v); } catch (mgexceptionbase& e) { threw = true; num = e.get_error_number(); }
  c.count("conversions");
  if (representable) { if (threw) c.fail(std::string("convert:") + name + ":refused", fmt("%s refused a representable value (case %llu)", name, (unsigned long long)c.index)); else if (!(r == expect)) c.fail(std::string("convert:") + name + ":value", std::string(name) + " changed the value"); }
  else { c.count("unrepresentable"); if (!threw) c.fail(std::string("convert:") + name + ":silent", std::string(name) + " silently changed an unrepresentable value"); else if (num >= 0) c.fail(std::string("convert:") + name + ":errno", "overflow without an error number"); }
}
static uint64_t edge(Rng& r) {
  static const uint64_t e[] = {0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull};
  if (r.coin()) return r.next() >> r.below(64);
  return e[r.below(15)] + (uint64_t)r.range(-2, 2);
}
static void g_convert(Ctx& c) {
  for (int k = 0; k < 20; k++) {
    uint64_t u = edge(c.rng);
    conv1(c, "U64_i64", u, [](uint64_t v) { return U64_i64(v); }, u <= (uint64_t)INT64_MAX, (int64_t)u);
    conv1(c, "U64_U32", u, [](uint64_t v) { return U64_U32(v); }, u <= UINT32_MAX, (uint32_t)u);
    conv1(c, "ST_I32", (size_t)u, [](size_t v) { return ST_I32(v); }, u <= INT32_MAX, (int32_t)u);
    conv1(c, "ST_U32", (size_t)u, [](size_t v) { return ST_U32(v); }, u <= UINT32_MAX, (uint32_t)u);
    conv1(c, "IS_U32", (int64_t)u, [](int64_t v) { return IS_U32(v); }, (int64_t)u >= 0 && (int64_t)u <= INT32_MAX, (uint32_t)u);
    conv1(c, "U64_DBL", u, [](uint64_t v) { return U64_DBL(v); }, true, (double)u);
    double d;
    switch (c.rng.below(6)) {
      case 0: d = (double)u; break;
      case 1: d = -(double)u; break;
      case 2: d = std::ldexp(1.0, (int)c.rng.range(-70, 80)) * (1 + (double)c.rng.below(1000) / 1000); break;
      case 3: { static const double sp[] = {0.0, -0.0, 18446744073709551616.0, 18446744073709549568.0, 1e300, -1e-300, -1.0, -0.25, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 0.999}; d = sp[c.rng.below(12)]; break; }
      default: d = (double)c.rng.below(1ull << 53) / 8; break;
    }
    bool rep = d >= 0 && d < 18446744073709551616.0;
    conv1(c, "DBL_U64", d, [](double v) { return DBL_U64(v); }, rep, rep ? (uint64_t)d : (uint64_t)0);
    c.feature(u); c.feature(rep ? (uint64_t)d : 12345);
  }
  c.note(fmt("20 boundary and random values, seed %llx", (unsigned long long)c.seed));
}

// ------------------------------------------------------------------ exceptions
static void g_exception(Ctx& c) {
  int num = (int)(c.rng.next() >> c.rng.below(64)); if (c.rng.coin()) num = -num;
  std::string msg = rnd_text(c.rng, 200, "abc :\r\n%d"), file = rnd_text(c.rng, 60, "/dir.cpp"); int line = (int)c.rng.below(100000);
  bool has = c.rng.coin();
  auto contains = [&](const char* w, const std::string& x) { return x.empty() || strstr(w, x.c_str()); };
  std::unique_ptr<mgexception> keep;
  try {
    if (has) throw mgexception(num, msg.c_str(), file.c_str(), line); else throw mgexception(num, file.c_str(), line);
  } catch (std::exception& e) {
    mgexception* m = dynamic_cast<mgexception*>(&e);
    VREQ(c, m && m->get_error_number() == num, "exception:number", "error number lost");
    VREQ(c, contains(e.what(), std::to_string(num)) && contains(e.what(), file) && contains(e.what(), std::to_string(line)) && (!has || contains(e.what(), msg)), "exception:what", "what() misses the number, message or place: %s", esc(e.what()).c_str());
    VREQ(c, same(m->toString(), e.what()), "exception:tostring", "toString differs from what()");
    keep.reset(new mgexception(*m));
  }
  VREQ(c, keep->get_error_number() == num && contains(keep->what(), file) && (!has || contains(keep->what(), msg)), "exception:copy", "a copy lost its content");
  std::string m2 = "later message " + rnd_text(c.rng, 20, "xyz");
  keep->set_message(m2.c_str());
  VREQ(c, contains(keep->what(), m2), "exception:set-message", "message set afterwards is not reported by what()");
  // negative results are turned into exceptions carrying the number, others are not
  int r = (int)c.rng.range(-4200, 300); bool threw = false; int got = 0;
  try { MGCHECK(r) } catch (mgexception& e) { threw = true; got = e.get_error_number(); }
  VREQ(c, threw == (r < 0) && (!threw || got == r), "exception:check", "MGCHECK(%d) threw %d with %d", r, (int)threw, got);
  threw = false; try { MGBASECHECK(r); } catch (mgexceptionbase& e) { threw = true; got = e.get_error_number(); }
  VREQ(c, threw == (r < 0) && (!threw || got == r), "exception:check", "MGBASECHECK(%d) threw %d with %d", r, (int)threw, got);
  static const int uv[] = {UV_ENOENT, UV_EACCES, UV_EIO, UV_ENOSPC, UV_EBADF, UV_EINVAL, UV_ETIMEDOUT, UV_ECANCELED, 0, 1, 77};
  int u = uv[c.rng.below(11)]; threw = false; std::string w; got = 0; bool full = false;
  try { UVCHECK(u) } catch (mgexception& e) { threw = true; full = true; got = e.get_error_number(); w = e.what(); } catch (mgexceptionbase& e) { threw = true; got = e.get_error_number(); }
  VREQ(c, threw == (u < 0), "exception:uv-check", "UVCHECK(%d) threw %d", u, (int)threw);
  if (threw) { VREQ(c, got == u, "exception:uv-number", "UVCHECK(%d) reported error number %d", u, got); VREQ(c, full && w.find(uv_strerror(u)) != std::string::npos, "exception:uv-message", "UVCHECK(%d) does not report '%s'", u, uv_strerror(u)); c.count("uv_errors"); }
  c.count("exceptions");
  c.feature(fmt("%d %s %d %d", num, msg.c_str(), r, u)); c.note(fmt("%d '%s' at %s:%d", num, esc(msg, 50).c_str(), file.c_str(), line));
}

int main(int argc, char** argv) {
  return run(argc, argv, {{"cbuffer", g_cbuffer}, {"resource", g_resource}, {"resource_mt", g_resource_mt}, {"cstring", g_cstring}, {"strnum", g_strnum}, {"hexdump", g_hexdump},
                          {"split", g_split}, {"cmdline", g_cmdline}, {"console", g_console}, {"convert", g_convert}, {"exception", g_exception}});
}
