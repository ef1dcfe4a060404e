// MP4 files turned into one transport stream (MP42TS), read back by an independent reader.
#include "media_parts.h"
#include "tsref.h"
static const int64_t WRAP = 1ll << 33;
static double at90(uint64_t v) { int64_t d = (int64_t)v; if (d > WRAP / 2) d -= WRAP; return d / 90000.0; }
static void judge(Ctx& c, const std::string& file, const std::vector<Part>& parts) {
  tsref::Ts ts; std::string e = tsref::read_ts(load(file), ts); VREQ(c, e.empty(), "stream", "%s", e.c_str()); const Movie& m = *parts[0].m; VREQ(c, ts.st.size() == m.t.size(), "streams", "%zu want %zu", ts.st.size(), m.t.size()); c.count("streams", ts.st.size());
  size_t nt = m.t.size(), b = base_track(m); std::vector<double> end(nt, 0), tol(nt, 0.00055 /* times are written in milliseconds */); std::vector<size_t> at(nt, 0); double doff = 0; bool haved = false; std::vector<std::vector<std::pair<const tsref::Pes*, tsref::Adts>>> fr(nt);
  for (size_t i = 0; i < nt; i++) { const MTrack& t = m.t[i]; const tsref::Stream& q = ts.st[i]; VREQ(c, q.type == (t.video ? 0x1b : 0x0f), "stream-type", "stream %zu is %02x", i, q.type); if (!t.video) for (auto& p : q.pes) { std::vector<tsref::Adts> v; e = tsref::adts(p.data, v); VREQ(c, e.empty() && v.size(), "adts", "%s", e.c_str()); VREQ(c, v.size() == 1 || p.pts_f, "no-pts", "audio"); for (size_t k = 0; k < v.size(); k++) fr[i].push_back({k ? nullptr : &p, v[k]}); } }
  size_t syncs = 0, first_packet = ~size_t(0); for (auto& q : ts.st) if (q.pes.size()) first_packet = std::min(first_packet, q.pes[0].packet); VCHECK(c, first_packet == 2, "tables", "the first PES is in packet %zu", first_packet);
  for (size_t p = 0; p < parts.size(); p++) {
    const Movie& w = *parts[p].m; uint64_t en = parts[p].e; std::vector<size_t> lo, hi; starts(w, parts[p].s, lo, hi); bool have = false; double shift = 0, mingap = 1e9; std::vector<double> nend = end; haved = false;
    for (size_t i = 0; i < nt; i++) {
      const MTrack& t = w.t[i]; const tsref::Stream& q = ts.st[i]; uint64_t off = hns(t.delay, w.timescale); size_t a = lo[i]; size_t n = t.video ? q.pes.size() : fr[i].size(); if (!t.video && at[i] < n) while (a < hi[i] && t.s[a].data != fr[i][at[i]].second.data) a++; double first = 1e18, last = -1e18; bool any = false;
      for (size_t k = a; k < t.s.size(); k++) {
        const MSample& y = t.s[k]; if (en && hns(y.cts(), t.timescale) + off >= en) continue; VREQ(c, at[i] < n, "sample-missing", "part %zu track %zu: sample %zu of %zu (starting at %zu) is not in the output", p, i, k, t.s.size(), a); size_t g = at[i]++; const tsref::Pes* z = t.video ? &q.pes[g] : fr[i][g].first; c.count("samples");
        if (t.video) {
          std::vector<Bytes> want; want.push_back({0x09, 0xf0}); if (y.sync) { want.push_back(t.sps); want.push_back(t.pps); syncs++; } for (auto& x : y.nals) want.push_back(x); std::vector<Bytes> got = tsref::annexb(z->data); VREQ(c, got.size() == want.size(), "video-units", "part %zu video %zu: %zu units, want %zu", p, k, got.size(), want.size()); for (size_t x = 0; x < got.size(); x++) VREQ(c, got[x] == want[x], "video-bytes", "part %zu video %zu unit %zu: %zu bytes want %zu", p, k, x, got[x].size(), want[x].size());
          VREQ(c, z->rai == y.sync, "random-access", "part %zu video %zu sync %d", p, k, y.sync); VREQ(c, (z->sid & 0xf0) == 0xe0, "stream-id", "%02x", z->sid);
          VREQ(c, z->pts_f, "no-pts", "video"); uint64_t d = z->dts_f ? z->dts : z->pts; VREQ(c, at90(z->pts - d) > -0.0011, "pts-dts", "part %zu video %zu: PTS %lld DTS %lld", p, k, ll(z->pts), ll(d)); double o = at90(d) - t.sec(y.dts) - t.delay / (double)w.timescale; if (!haved) { haved = true; doff = o; } VREQ(c, fabs(remainder(o - doff, WRAP / 90000.0)) < 2 * tol[i] + 2e-6, "video-dts", "part %zu video %zu: DTS is moved by %.6f, the first one by %.6f", p, k, o, doff);
          if (y.sync && i == b) VCHECK(c, z->pcr_f, "pcr", "part %zu video %zu: no clock", p, k); if (z->pcr_f) { c.count("clocks"); VCHECK(c, at90((d - z->pcr / 300) & (WRAP - 1)) >= -0.0011 && at90((d - z->pcr / 300) & (WRAP - 1)) < 1, "pcr", "PCR %llu, DTS %llu", ll(z->pcr / 300), ll(d)); }
        } else {
          const tsref::Adts& v = fr[i][g].second; VREQ(c, v.data == y.data, "audio-bytes", "part %zu track %zu audio %zu of %zu: %zu bytes want %zu", p, i, k, t.s.size(), v.data.size(), y.data.size()); VREQ(c, v.profile == t.aot - 1 && v.rate == t.rate_idx && v.chan == (t.chan == 8 ? 7 : t.chan) && v.prot == 1 && v.blocks == 0, "adts-header", "profile %d rate %d channels %d", v.profile, v.rate, v.chan); if (!z) continue; VREQ(c, z->pts_f, "no-pts", "audio"); VREQ(c, (z->sid & 0xe0) == 0xc0, "stream-id", "%02x", z->sid);
        }
        double out = at90(z->pts), s = t.sec(y.cts()) + t.delay / (double)w.timescale; { double near = have ? s + shift : p ? end[i] : out; out = near + remainder(out - near, WRAP / 90000.0); } if (!have) { have = true; shift = out - s; } else VREQ(c, fabs(remainder(out - s - shift, WRAP / 90000.0)) <= 2 * tol[i], "time", "part %zu track %zu sample %zu of %zu: presented at %.6f, in the source at %.6f; others are moved by %.6f", p, i, k, t.s.size(), out, s, shift);
        if (out < first) first = out; double e2 = out + t.sec(y.dur); if (out > last) { last = out; nend[i] = e2; } any = true;
      }
      if (any && p) { double gap = first - end[i]; VREQ(c, gap >= -3 * tol[i], "overlap", "part %zu track %zu starts at %.6f, before the end of the part before at %.6f", p, i, first, end[i]); mingap = std::min(mingap, gap); c.count("joins"); }
    }
    if (p && have) VCHECK(c, mingap <= 0.0017, "gap", "part %zu: every track pauses, for at least %.6f", p, mingap); end = nend;
  }
  for (size_t i = 0; i < nt; i++) { size_t n = m.t[i].video ? ts.st[i].pes.size() : fr[i].size(); VREQ(c, at[i] == n, "samples-left-over", "track %zu: %zu samples written, %zu expected", i, n, at[i]); }
  VCHECK(c, ts.by_pid(ts.pcr_pid) == &ts.st[b], "pcr-pid", "the clock is on 0x%x", ts.pcr_pid); if (m.t[b].video && ts.st[b].pes.size()) VCHECK(c, ts.tables == 2 * (syncs + (ts.st[b].pes[0].packet == first_packet ? 0 : 1)), "tables", "%zu tables for %zu sync samples", ts.tables, syncs); bool pcr = false; for (auto& z : ts.st[b].pes) pcr |= z.pcr_f; VCHECK(c, pcr || ts.st[b].pes.empty(), "no-clock", "no PCR in the stream");
  c.feature(fmt("%zu %zu %zu %u", parts.size(), nt, syncs, m.t[0].timescale));
}
static size_t left(const Part& p) { size_t n = 0; std::vector<size_t> lo, hi; starts(*p.m, p.s, lo, hi); for (size_t i = 0; i < p.m->t.size(); i++) { const MTrack& t = p.m->t[i]; for (size_t k = hi[i]; k < t.s.size(); k++) n += !p.e || hns(t.s[k].cts(), t.timescale) + hns(t.delay, p.m->timescale) < p.e; } return n; }
static void mux(Ctx& c, int nparts) {
  std::string in = tmpdir(c, "in"), out = tmpdir(c, "out"); Clean clean{in, out}; Opt o = some(c); if (o.slow) o.bframes = false; /* M10 has the finding */ if (c.rng.chance(1, 10)) o.vsize = 30000; if (c.rng.chance(1, 12)) { o.asize = 8182; c.count("large_frames"); } if (!o.slow && c.rng.chance(1, 12)) { o.near64k = true; c.count("near_64k"); } std::vector<Movie> mv; mv.reserve(8); mv.push_back(make_movie(c.rng, o)); for (int i = 1; i < nparts; i++) mv.push_back(c.rng.chance(1, 4) ? mv[c.rng.below(mv.size())] : sibling(c, mv[0], o)); std::vector<Part> ps; std::vector<std::string> a = {"-k:MP42TS"};
  for (size_t i = 0; i < mv.size(); i++) {
    save(in + fmt("/%zu.mp4", i), mv[i].file); Part p{&mv[i], 0, 0}; uint64_t L = (uint64_t)(length(mv[i]) * 1e7); if (c.rng.chance(2, 3)) p.s = c.rng.coin() ? c.rng.below(L) : hns(mv[i].t[0].s[c.rng.below(mv[i].t[0].s.size())].dts, mv[i].t[0].timescale); if (c.rng.chance(1, 2)) p.e = p.s + 1 + c.rng.below(L); ps.push_back(p);
    a.push_back("-i:" + in + fmt("/%zu.mp4", i)); a.push_back(fmt("-s:%llu", ll(p.s))); a.push_back(fmt("-e:%llu", ll(p.e))); describe(c, mv[i]);
  }
  a.push_back("-o:" + out + "/o.ts"); if (c.rng.chance(1, 4)) save(out + "/o.ts", Bytes(c.rng.below(400000), 0x55)); for (auto& x : a) c.note(x + " "); bool none = false; for (auto& p : ps) none |= empty_part(p); if (none) c.count("parts_with_an_empty_track");
  CliResult r = mg_tsinfo(a); c.count("runs"); if (none) { if (r.rc) return; if (nparts > 1) return; } VREQ(c, r.rc == 0, "exit-code", "rc=%d %s", r.rc, tail(r).c_str()); auto have = ref::files_in(out); VCHECK(c, have.size() == 1 && have.count("o.ts"), "files", "%zu files", have.size()); if (none && left(ps[0]) == 0) { c.count("nothing_left"); return; } judge(c, out + "/o.ts", ps);
}
static void cut(Ctx& c) { mux(c, 1); }
static void join(Ctx& c) { mux(c, 2 + (int)c.rng.below(3)); }
int main(int argc, char** argv) { return vh::run(argc, argv, {{"cut", cut}, {"join", join}}); }
