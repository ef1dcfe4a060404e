// Inputs with ranges, shared by the harnesses which cut and join.
#pragma once
#include "media_pkg.h"
struct Part { const Movie* m; uint64_t s, e; };   // one input with its range in 100 ns
inline uint64_t hns(uint64_t t, uint32_t ts) { return (uint64_t)((unsigned __int128)t * 10000000u / ts); }
inline size_t base_track(const Movie& m) { for (size_t i = 0; i < m.t.size(); i++) if (m.t[i].video) return i; return 0; }
// which sample each track starts with; lo..hi where a time within a tick leaves a choice
inline void starts(const Movie& m, uint64_t s, std::vector<size_t>& lo, std::vector<size_t>& hi) {
  size_t b = base_track(m); lo.assign(m.t.size(), 0); hi = lo; const MTrack& v = m.t[b]; auto off = [&](const MTrack& t) { return hns(t.delay, m.timescale); };
  auto near = [&](const MTrack& t, uint64_t at, size_t& l, size_t& h) { size_t n = t.s.size(), w = 0; while (w + 1 < n && hns(t.s[w].dts, t.timescale) < at) w++; h = l = w; if (l && at - hns(t.s[l - 1].dts, t.timescale) < 10000000ull / t.timescale + 3) l--; if (w == 1) l = 0; if (h + 1 < n && hns(t.s[h].dts, t.timescale) <= at + 1) h++; };
  if (v.stss) { size_t w = 0; while (w + 1 < v.s.size() && hns(v.s[w + 1].dts, v.timescale) <= s) w++; auto sync = [&] { while (w && !v.s[w].sync) w--; }; sync(); while (w && v.ctts && hns(v.s[w].cts(), v.timescale) > s) { w--; sync(); } lo[b] = hi[b] = w; }
  else if (s > off(v)) near(v, s - off(v), lo[b], hi[b]);
  uint64_t c0 = hns(v.s[lo[b]].cts(), v.timescale) + off(v), c1 = hns(v.s[hi[b]].cts(), v.timescale) + off(v);
  for (size_t i = 0; i < m.t.size(); i++) if (i != b) { const MTrack& t = m.t[i]; size_t x; if (c0 > off(t)) near(t, c0 - off(t), lo[i], x); if (c1 > off(t)) near(t, c1 - off(t), x, hi[i]); }
}
inline double src(const Movie& m, const MTrack& t, size_t k) { return t.sec(t.s[k].cts()) + t.delay / (double)m.timescale; }

inline Opt some(Ctx& c) { Opt o; o.seconds = 0.5 + c.rng.below(80) / 10.0; o.vsize = c.rng.coin() ? 60 : 400; o.asize = 80; o.delay = c.rng.chance(1, 3); o.vfr = c.rng.chance(1, 4); unsigned k = (unsigned)c.rng.below(8); o.audio = k != 0; o.video = k != 1; o.audio2 = k == 2; if (c.rng.chance(1, 25)) { slowly(c.rng, o); c.count("long_movies"); } { Rng q = c.rng; o.late = q.chance(1, 10); } return o; }
// another movie of the same make: parameter sets, order of tracks and audio configuration as in m
inline Movie sibling(Ctx& c, const Movie& m, const Opt& o0) {
  Opt o = o0; o.seconds = 0.5 + c.rng.below(50) / 10.0; o.audio2 = false; Movie v = m; for (auto& t : v.t) { MTrack n; if (t.video) { static const uint32_t TS[] = {90000, 3000, 90000, 3003, 90000, 3600, 25, 1, 30000, 1001, 24000, 1001, 12800, 512, 600, 25, 10000000, 400000, 1000, 40, 50000, 1000}; int fps = -1; for (int i = 0; i < 11; i++) if (TS[2 * i] == t.timescale) fps = i; o.fps = c.rng.chance(1, 3) ? -1 : fps; n = make_video(c.rng, o); n.sps = t.sps; n.pps = t.pps; n.sps_f = t.sps_f; n.w = t.w; n.h = t.h; } else { do n = make_audio(c.rng, o); while (n.rate_idx != t.rate_idx || n.chan != t.chan); if (o.delay && c.rng.coin()) n.delay = (uint64_t)c.rng.range(1, m.timescale / 2); } n.id = t.id; n.lang = t.lang; n.co64 = t.co64; make_chunks(n, c.rng); t = n; }
  v.mdat_first = c.rng.coin(); v.frag_order = (int)c.rng.below(3); build(v, c.rng); return v;
}
inline double length(const Movie& m) { double d = 0; for (auto& t : m.t) d = std::max(d, t.sec(t.duration()) + t.delay / (double)m.timescale); return d; }
inline bool empty_part(const Part& p) { std::vector<size_t> lo, hi; starts(*p.m, p.s, lo, hi); for (size_t i = 0; i < p.m->t.size(); i++) { const MTrack& t = p.m->t[i]; bool any = false; for (size_t k = hi[i]; k < t.s.size(); k++) any |= !p.e || hns(t.s[k].cts(), t.timescale) + hns(t.delay, p.m->timescale) < p.e; if (!any) return true; } return false; }
