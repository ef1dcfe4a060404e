// Helpers shared by the harnesses which run the program.
#pragma once
#include "vh.h"
#include "mp4ref.h"
#include "media_cli.h"
#include <sys/stat.h>
using namespace gen;
using vh::Ctx; using vh::fmt;
inline std::string tmpdir(Ctx& c, const char* k) { std::string d = std::string(getenv("VH_TMP") ? getenv("VH_TMP") : "/tmp") + fmt("/%s%d_%llu", k, (int)getpid(), (unsigned long long)c.index); mkdir(d.c_str(), 0755); return d; }
inline long long ll(uint64_t v) { return (long long)v; }
struct Clean { std::string a, b; ~Clean() { if (!getenv("VH_KEEP")) { ref::wipe(a); ref::wipe(b); } } };
inline std::string tail(const CliResult& r) { std::string s = r.out + r.err; return s.size() > 300 ? s.substr(s.size() - 300) : s; }
inline void describe(Ctx& c, const Movie& m) { if (m.text) c.count("text_tracks"); for (auto& t : m.t) c.note(fmt("%s ts=%u n=%zu dur=%llu delay=%llu first_cts=%llu; ", t.video ? "video" : "audio", t.timescale, t.s.size(), ll(t.duration()), ll(t.delay), ll(t.s[0].cts()))); }
// the same movie encoded again: same times and audio, other pictures, other size
inline Movie variant(Rng& r, const Movie& m, unsigned vsize) {
  Movie v = m; for (auto& t : v.t) if (t.video) {
    do { Sps q = make_sps(r, true); { Rng z = r; if (z.chance(1, 5)) q.sampling(z); } q.level = t.sps_f.level; t.sps_f = q; t.sps = q.nal(); } while (t.sps.size() > 256); t.pps = make_pps(r, 0, true).nal(); t.w = t.sps_f.width(); t.h = t.sps_f.height();
    for (auto& s : t.s) { for (auto& n : s.nals) { int k = n[0] & 31; if (k == 1 || k == 5) n = slice_nal(r, k == 5, (n[0] & 0x60) == 0, (unsigned)r.below(k == 5 ? vsize * 4 : vsize) + 1, true); } s.data.clear(); for (auto& n : s.nals) { u32(s.data, (uint32_t)n.size()); app(s.data, n); } }
  }
  for (auto& t : v.t) { t.chunks.clear(); make_chunks(t, r); } v.mdat_first = r.coin(); v.frag_order = (int)r.below(3); build(v, r); return v;
}
