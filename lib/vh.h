// Runtime-monitoring harness framework: seeded cases, oracle verdicts, measured coverage.
// A harness executes real mg code; every verdict is taken by an oracle in the harness (vh::Ctx::fail)
// or by a sanitizer.  Output goes to files named on the command line, stdout is left to the code under test.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <mutex>
#include <functional>
#include <exception>

namespace vh {

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ULL; }
  return h;
}
inline uint64_t fnv(const std::string& s, uint64_t h = 0xcbf29ce484222325ULL) { return fnv(s.data(), s.size(), h); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  bool coin() { return next() & 1; }
  void fill(unsigned char* p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = (unsigned char)next(); }
  // sizes that favour small values and boundaries
  uint64_t size(uint64_t max) {
    switch (below(6)) {
      case 0: return below(max < 4 ? max + 1 : 4);
      case 1: return below(max < 17 ? max + 1 : 17);
      case 2: { uint64_t p = 1ULL << below(20); int64_t d = range(-2, 2); int64_t v = (int64_t)p + d; if (v < 0) v = 0; return (uint64_t)v > max ? below(max + 1) : (uint64_t)v; }
      case 3: return below(max / 8 + 1);
      default: return below(max + 1);
    }
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline std::string esc(const std::string& in, size_t cap = 400) {
  std::string o;
  for (size_t i = 0; i < in.size(); i++) {
    if (o.size() > cap) { o += "..."; break; }
    unsigned char c = (unsigned char)in[i];
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}
inline std::string hex(const unsigned char* p, size_t n, size_t cap = 24) {
  std::string o; char b[4];
  for (size_t i = 0; i < n && i < cap; i++) { snprintf(b, sizeof b, "%02x", p[i]); o += b; }
  if (n > cap) o += "..";
  return o;
}
template <class... A> std::string fmt(const char* f, A... a) {
  char b[2048]; snprintf(b, sizeof b, f, a...); return b;
}

struct Ctx;
struct Global {
  std::mutex mu;
  FILE* out = nullptr;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> features;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> viol;   // key -> count
  uint64_t evaluations = 0, nontrivial = 0, failures = 0;
  volatile uint64_t* progress = nullptr;  // [0]=case index+1 being run
  std::string group;
  bool verbose = false;
};
inline Global& G() { static Global* g = new Global; return *g; }

struct Ctx {
  uint64_t index, seed;
  Rng rng;
  bool nontrivial = false;
  uint64_t feat = 0;
  std::string desc;
  bool failed = false;
  bool thorough = false;
  Ctx(uint64_t i, uint64_t s) : index(i), seed(s), rng(s) {}
  void feature(const std::string& f) { nontrivial = true; feat = fnv(f, feat ? feat : 0xcbf29ce484222325ULL); }
  void feature(uint64_t f) { nontrivial = true; feat = mix(feat ^ f); }
  void note(const std::string& d) { if (desc.size() < 1500) desc += d; }
  void count(const char* n, uint64_t k = 1) { std::lock_guard<std::mutex> l(G().mu); G().counters[n] += k; }
  // key identifies the kind of violation (stable, no case-specific data)
  // finding: a violation with a key of its own which does not keep the rest of the case from being judged
  void finding(const std::string& key, const std::string& detail) { fail(key, detail, false); }
  void fail(const std::string& key, const std::string& detail, bool stop = true) {
    std::lock_guard<std::mutex> l(G().mu);
    if (stop) { failed = true; G().failures++; }
    if (G().verbose) fprintf(stderr, "FAIL %s: %s\n  [%s]\n", key.c_str(), detail.c_str(), desc.c_str());
    if (G().viol[key]++ < 3 && G().out) {
      fprintf(G().out, "{\"violation\":\"%s\",\"group\":\"%s\",\"case\":%llu,\"detail\":\"%s\",\"desc\":\"%s\"}\n",
              esc(key, 200).c_str(), G().group.c_str(), (unsigned long long)index, esc(detail, 1500).c_str(), esc(desc, 1500).c_str());
      fflush(G().out);
    }
  }
};
#define VCHECK(c, cond, key, ...) do { if (!(cond)) { (c).fail((key), vh::fmt(__VA_ARGS__)); } } while (0)
#define VREQ(c, cond, key, ...) do { if (!(cond)) { (c).fail((key), vh::fmt(__VA_ARGS__)); return; } } while (0)

typedef std::function<void(Ctx&)> CaseFn;
struct Group { const char* name; CaseFn fn; };

inline void flush_stats() {
  Global& g = G();
  std::lock_guard<std::mutex> l(g.mu);
  if (!g.out) return;
  fprintf(g.out, "{\"stats\":true,\"group\":\"%s\",\"evaluations\":%llu,\"nontrivial\":%llu,\"failures\":%llu,\"counters\":{",
          g.group.c_str(), (unsigned long long)g.evaluations, (unsigned long long)g.nontrivial, (unsigned long long)g.failures);
  bool first = true;
  for (auto& k : g.counters) { fprintf(g.out, "%s\"%s\":%llu", first ? "" : ",", k.first.c_str(), (unsigned long long)k.second); first = false; }
  fprintf(g.out, "},\"features\":[");
  first = true;
  for (auto f : g.features) { fprintf(g.out, "%s\"%llx\"", first ? "" : ",", (unsigned long long)f); first = false; }
  fprintf(g.out, "],\"samples\":[");
  first = true;
  for (auto& s : g.samples) { fprintf(g.out, "%s\"%s\"", first ? "" : ",", esc(s, 700).c_str()); first = false; }
  fprintf(g.out, "]}\n");
  fflush(g.out);
}

// usage: harness <group> --seed S --from A --to B --out F --progress P [--thorough] [--verbose]
inline int run(int argc, char** argv, const std::vector<Group>& groups) {
  if (argc < 2) {
    for (auto& g : groups) printf("%s\n", g.name);
    return 2;
  }
  std::string group = argv[1], out, prog;
  uint64_t seed = 1, from = 0, to = 1; bool thorough = false;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
    else if (a == "--from") from = strtoull(argv[++i], 0, 10);
    else if (a == "--to") to = strtoull(argv[++i], 0, 10);
    else if (a == "--out") out = argv[++i];
    else if (a == "--progress") prog = argv[++i];
    else if (a == "--thorough") thorough = true;
    else if (a == "--verbose") G().verbose = true;
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
  }
  const Group* gr = nullptr;
  for (auto& g : groups) if (group == g.name) gr = &g;
  if (!gr) { fprintf(stderr, "no group %s\n", group.c_str()); return 2; }
  G().group = group;
  if (!out.empty()) { G().out = fopen(out.c_str(), "a"); if (!G().out) return 2; }
  if (!prog.empty()) {
    int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, 4096)) return 2;
    G().progress = (volatile uint64_t*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  }
  uint64_t gh = fnv(group);
  for (uint64_t i = from; i < to; i++) {
    if (G().progress) G().progress[0] = i + 1;
    Ctx c(i, mix(mix(seed ^ gh) + i * 0x9e3779b97f4a7c15ULL));
    c.thorough = thorough;
    try { gr->fn(c); }
    catch (std::exception& e) { c.fail("unexpected-exception", e.what()); }
    catch (...) { c.fail("unexpected-exception", "non-std exception"); }
    {
      std::lock_guard<std::mutex> l(G().mu);
      G().evaluations++;
      if (c.nontrivial) { G().nontrivial++; G().features.insert(c.feat); }
      if (G().samples.size() < 2 && c.nontrivial && !c.desc.empty()) G().samples.push_back(c.desc);
    }
    if (G().failures > 300) { flush_stats(); if (G().progress) G().progress[0] = 0; _exit(0); }
  }
  if (G().progress) G().progress[0] = 0;
  flush_stats();
  if (G().out) fclose(G().out), G().out = nullptr;
  return 0;
}
}  // namespace vh
