// Cutting and joining MP4 files (mux), and putting fragments back together (moof): output read back by an independent reader.
#include "media_parts.h"

// compares one written file with the parts it was made of
static void judge(Ctx& c, const std::string& file, const std::vector<Part>& parts, bool joined_sync = true, double slack = 0) {
  ref::File f; VREQ(c, f.load(file), "boxes", "%s", f.err.c_str()); ref::Mov o; std::string e = ref::read_moov(f, o); VREQ(c, e.empty(), "tables", "%s", e.c_str()); const Movie& m = *parts[0].m; VREQ(c, o.t.size() == m.t.size(), "tracks", "%zu want %zu", o.t.size(), m.t.size()); c.count("movies");
  VCHECK(c, f.root.find("ftyp") && f.root.kids[0].type == "ftyp", "ftyp", "the file does not start with ftyp");
  double sh0 = 0; std::vector<double> end(m.t.size(), 0); std::vector<size_t> at(m.t.size(), 0); std::vector<double> tol(m.t.size()); uint64_t longest = 0, shortest = ~0ull, late = 0;
  for (size_t i = 0; i < m.t.size(); i++) {
    const MTrack& t = m.t[i]; const ref::Trk& q = o.t[i]; VREQ(c, q.handler == (t.video ? "vide" : "soun"), "handler", "track %zu is %s", i, q.handler.c_str()); VREQ(c, q.e.size() == 1, "entries", "%zu", q.e.size()); const ref::Entry& en = q.e[0]; tol[i] = 2.0 / q.timescale + 5e-7 + slack;
    if (t.video) { VCHECK(c, en.sps.size() == 1 && en.sps[0] == t.sps && en.pps.size() == 1 && en.pps[0] == t.pps, "parameter-sets", "SPS or PPS differ"); VCHECK(c, en.w == t.w && en.h == t.h && q.w == t.w && q.h == t.h, "picture-size", "%ux%u / %ux%u want %ux%u", en.w, en.h, q.w, q.h, t.w, t.h); VCHECK(c, en.nlen == 4 && en.prof == t.sps[1] && en.compat == t.sps[2] && en.level == t.sps[3], "avcc", "%d %02x%02x%02x", en.nlen, en.prof, en.compat, en.level); }
    else { VCHECK(c, en.asc == t.asc(), "asc", "%s want %s", vh::hex(en.asc.data(), en.asc.size()).c_str(), vh::hex(t.asc().data(), 2).c_str()); VCHECK(c, (int)en.chan == t.chan && en.rate == (unsigned)(AAC_RATES[t.rate_idx] & 0xffff), "audio-entry", "%u channels %u Hz want %d %d", en.chan, en.rate, t.chan, AAC_RATES[t.rate_idx]); }
    uint64_t d = q.total - (q.s.size() ? q.s.back().dur : 0); VCHECK(c, q.mdur + 2 >= d && q.mdur <= q.total + 2, "mdhd-duration", "track %zu: %llu, samples take %llu", i, ll(q.mdur), ll(q.total)); longest = std::max(longest, (uint64_t)(q.total * (double)o.timescale / q.timescale)); shortest = std::min(shortest, (uint64_t)(d * (double)o.timescale / q.timescale));
    bool coarse = false; for (auto& p : parts) coarse |= p.m->t[i].timescale > q.timescale && q.timescale < 1000;   // frames shorter than a tick
    for (size_t k = 0; k < q.s.size(); k++) { VREQ(c, q.s[k].cto >= 0, "ctts", "track %zu sample %zu: composition offset %d", i, k, q.s[k].cto); late = std::max(late, (uint64_t)(q.s[k].cto * (double)o.timescale / q.timescale)); VREQ(c, q.s[k].dur || coarse || k + 1 == q.s.size(), "stts", "track %zu sample %zu of %zu has no duration", i, k, q.s.size()); }
  }
  VCHECK(c, o.dur + 2 >= shortest && o.dur <= longest + 2 + o.timescale + late, "mvhd-duration", "%llu, the tracks last %llu to %llu", ll(o.dur), ll(shortest), ll(longest));
  for (size_t p = 0; p < parts.size(); p++) {
    const Movie& w = *parts[p].m; uint64_t en = parts[p].e; std::vector<size_t> lo, hi; starts(w, parts[p].s, lo, hi); bool have = false; double shift = 0, mingap = 1e9; size_t who = 0; std::vector<double> nend = end;
    for (size_t i = 0; i < w.t.size(); i++) {
      const MTrack& t = w.t[i]; const ref::Trk& q = o.t[i]; uint64_t off = hns(t.delay, w.timescale); size_t a = lo[i]; if (at[i] < q.s.size()) while (a < hi[i] && t.s[a].data != q.s[at[i]].data) a++;
      double first = 1e18, last = -1e18, fsrc = 0; bool any = false;
      for (size_t k = a; k < t.s.size(); k++) {
        const MSample& y = t.s[k]; if (en && hns(y.cts(), t.timescale) + off >= en) continue; VREQ(c, at[i] < q.s.size(), "sample-missing", "part %zu track %zu: sample %zu of %zu (starting at %zu) is not in the output", p, i, k, t.s.size(), a);
        const ref::Samp& z = q.s[at[i]++]; VREQ(c, z.data == y.data, "sample-bytes", "part %zu track %zu sample %zu (starting at %zu): %zu bytes want %zu", p, i, k, a, z.data.size(), y.data.size()); if (t.video && joined_sync) VREQ(c, z.sync == y.sync, "sync", "part %zu sample %zu: sync %d want %d", p, k, z.sync, y.sync); c.count("samples");
        double out = (z.dts + z.cto) / (double)q.timescale + q.edit_delay / (double)o.timescale, s = src(w, t, k); double T = tol[i] + (q.edit_delay ? 1.0 / o.timescale : 0);
        if (!have) { have = true; shift = out - s; who = i; } else { double TT = T + (i == who ? 0 : tol[who] + 1.0 / o.timescale); VREQ(c, fabs(out - s - shift) <= TT, "composition-time", "part %zu track %zu sample %zu of %zu: presented at %.6f, in the source at %.6f; others are moved by %.6f (allowed %.6f)", p, i, k, t.s.size(), out, s, shift, TT); }
        if (out < first) { first = out; fsrc = s; } double e2 = out + t.sec(y.dur); if (out > last) { last = out; nend[i] = e2; } any = true; (void)fsrc;
      }
      if (any && p) { double gap = first - end[i]; VREQ(c, gap >= -2 * tol[i] - 2e-6, "overlap", "part %zu track %zu starts at %.6f, before the end of the part before at %.6f", p, i, first, end[i]); mingap = std::min(mingap, gap); c.count("joins"); }
    }
    if (p && have) { double T = 2.0 / o.timescale; for (auto x : tol) T = std::max(T, 2 * x + 2e-6); VCHECK(c, mingap <= T, "gap", "part %zu: every track pauses, for at least %.6f", p, mingap); }
    end = nend; if (!p) sh0 = shift;
  }
  for (size_t i = 0; i < m.t.size(); i++) VREQ(c, at[i] == o.t[i].s.size(), "samples-left-over", "track %zu: %zu samples written, %zu expected", i, o.t[i].s.size(), at[i]);
  // the output starts soon: nothing is presented later than the reordering of the source asks for
  double start = 1e18, reorder = 0; for (size_t i = 0; i < m.t.size(); i++) { for (auto& z : o.t[i].s) start = std::min(start, (z.dts + z.cto) / (double)o.t[i].timescale + o.t[i].edit_delay / (double)o.timescale); for (auto& p : parts) for (auto& y : p.m->t[i].s) reorder = std::max(reorder, p.m->t[i].sec(y.cto)); } (void)sh0;
  VCHECK(c, start <= 2 * reorder + 0.003, "start", "the first presentation is at %.6f", start); c.feature(fmt("%zu %zu %d %u", parts.size(), m.t.size(), (int)(start * 100), o.t[0].timescale));
}
static void mux(Ctx& c, int nparts) {
  std::string in = tmpdir(c, "in"), out = tmpdir(c, "out"); Clean clean{in, out}; Opt o = some(c); std::vector<Movie> mv; mv.reserve(8); mv.push_back(make_movie(c.rng, o)); for (int i = 1; i < nparts; i++) mv.push_back(c.rng.chance(1, 4) ? mv[c.rng.below(mv.size())] : sibling(c, mv[0], o)); std::vector<Part> ps; std::vector<std::string> a = {"-k:mux"};
  for (size_t i = 0; i < mv.size(); i++) {
    save(in + fmt("/%zu.mp4", i), mv[i].file); Part p{&mv[i], 0, 0}; uint64_t L = (uint64_t)(length(mv[i]) * 1e7); if (c.rng.chance(2, 3)) p.s = c.rng.coin() ? c.rng.below(L) : hns(mv[i].t[0].s[c.rng.below(mv[i].t[0].s.size())].dts, mv[i].t[0].timescale); if (c.rng.chance(1, 2)) p.e = p.s + 1 + c.rng.below(L); ps.push_back(p);
    a.push_back("-i:" + in + fmt("/%zu.mp4", i)); a.push_back(fmt("-s:%llu", ll(p.s))); a.push_back(fmt("-e:%llu", ll(p.e))); describe(c, mv[i]);
  }
  a.push_back("-o:" + out + "/o.mp4"); if (c.rng.chance(1, 4)) a.push_back(fmt("--maxdistance:%u", (unsigned)(1 + c.rng.below(20000000)))); if (c.rng.chance(1, 6)) a.push_back("--usedecodingdistance:true"); if (c.rng.chance(1, 4)) a.push_back("--ctts:true"); int ats = 0, vts = 0; if (c.rng.chance(1, 4)) a.push_back(fmt("--videotimescale:%d", vts = c.rng.coin() ? 90000 : 10000000)); if (c.rng.chance(1, 4)) a.push_back(fmt("--audiotimescale:%d", ats = c.rng.coin() ? 48000 : 10000000));
  if (c.rng.chance(1, 4)) save(out + "/o.mp4", Bytes(c.rng.below(400000), 0x55));   // an older output
  for (auto& x : a) c.note(x + " "); bool none = false; for (auto& p : ps) none |= empty_part(p); if (none) c.count("parts_with_an_empty_track");
  CliResult r = mg_cli(a); c.count("runs"); if (none) { if (r.rc) return; if (nparts > 1) return; } VREQ(c, r.rc == 0, "exit-code", "rc=%d %s", r.rc, tail(r).c_str()); auto have = ref::files_in(out); VCHECK(c, have.size() == 1 && have.count("o.mp4"), "files", "%zu files are left in the output directory", have.size());
  judge(c, out + "/o.mp4", ps); if (c.failed) return; ref::File f; f.load(out + "/o.mp4"); ref::Mov q; ref::read_moov(f, q, false); bool fa = true; for (size_t i = 0; i < q.t.size(); i++) { const MTrack& t = mv[0].t[i]; uint32_t w = t.timescale; if (t.video && vts) w = (uint32_t)vts; if (!t.video && ats && fa) w = (uint32_t)ats; if (!t.video) fa = false; VCHECK(c, q.t[i].timescale == w, "timescale", "track %zu: %u want %u", i, q.t[i].timescale, w); if (!t.video) VCHECK(c, q.t[i].lang == t.lang, "language", "track %zu: %s want %s", i, q.t[i].lang.c_str(), t.lang.c_str()); }
}
static void cut(Ctx& c) { mux(c, 1); }
static void join(Ctx& c) { mux(c, 2 + (int)c.rng.below(3)); }
// files which do not belong together are refused, and no output which looks complete is left
static void refuse(Ctx& c) {
  std::string in = tmpdir(c, "in"), out = tmpdir(c, "out"); Clean clean{in, out}; Opt o = some(c); o.seconds = 0.5 + c.rng.below(20) / 10.0; o.audio2 = false; Movie a = make_movie(c.rng, o), b = sibling(c, a, o); size_t v = 99, s = 99; for (size_t i = 0; i < b.t.size(); i++) (b.t[i].video ? v : s) = i; const char* how = 0;
  switch (c.rng.below(5)) {
    case 0: if (v == 99) return; { Bytes old = b.t[v].sps; do { Sps q = make_sps(c.rng, true); b.t[v].sps = q.nal(); } while (b.t[v].sps == old || b.t[v].sps.size() > 256); } how = "sps"; break;
    case 1: if (v == 99) return; { Bytes old = b.t[v].pps; do b.t[v].pps = make_pps(c.rng, 0, true).nal(); while (b.t[v].pps == old); } how = "pps"; break;
    case 2: if (s == 99) return; b.t[s].rate_idx = (b.t[s].rate_idx + 1) % 12; how = "rate"; break;
    case 3: if (s == 99) return; b.t[s].chan = b.t[s].chan == 2 ? 1 : 2; how = "channels"; break;
    default: if (b.t.size() != 2) return; if (c.rng.coin()) { std::swap(b.t[0], b.t[1]); how = "order"; } else { b.t.erase(b.t.begin() + c.rng.below(2)); how = "count"; } break;
  }
  build(b, c.rng); save(in + "/a.mp4", a.file); save(in + "/b.mp4", b.file); c.note(how); std::vector<std::string> arg = {"-k:mux", "-i:" + in + "/a.mp4", "-s:0", "-e:0", "-i:" + in + "/b.mp4", "-s:0", "-e:0", "-o:" + out + "/o.mp4"};
  CliResult r = mg_cli(arg); c.count("refusals"); VCHECK(c, r.rc != 0, fmt("accepted/%s", how).c_str(), "two files with different %s were joined", how); VCHECK(c, !ref::files_in(out).count("o.mp4"), "refused-output", "an output file was left after a refusal"); c.feature(how);
}
// fragments packaged by the same program, put back into one file
static void moof(Ctx& c) {
  std::string in = tmpdir(c, "in"), out = tmpdir(c, "out"); Clean clean{in, out}; Opt o = some(c); o.audio2 = false; o.delay = false; Movie m = make_movie(c.rng, o); save(in + "/a.mp4", m.file); describe(c, m); bool enc = c.rng.chance(1, 3); std::vector<std::string> a = {"-k:dash", "-i:" + in + "/a.mp4", "-s:0", "-e:0", "-b:500", "-o:" + in}; if (c.rng.coin()) a.push_back(fmt("--segment:%d", (int)(5000000 + c.rng.below(30000000)))); std::string key;
  if (enc) { Bytes k(16), kid(16); c.rng.fill(k.data(), 16); c.rng.fill(kid.data(), 16); key = vh::hex(k.data(), 16); a.push_back("--key:" + key); a.push_back("--kid:" + vh::hex(kid.data(), 16)); a.push_back("--clearkey:true"); }
  CliResult r = mg_cli(a); VREQ(c, r.rc == 0, "dash", "%s", tail(r).c_str()); std::vector<std::string> b = {"-k:moof", "-o:" + out + "/o.mp4"}; Movie w = m; w.t.clear(); int n = 0; std::vector<Part> ps;
  for (int pass = 0; pass < 2; pass++) for (auto& t : m.t) if (t.video == !pass) { std::vector<std::pair<uint64_t, std::string>> fr; std::string init; const char* ext = t.video ? ".m4v" : ".m4a"; for (auto& f : ref::files_in(in)) if (f.size() > 4 && f.substr(f.size() - 4) == ext) { if (f.size() > 6 && f.substr(f.size() - 6, 2) == "_i") init = f; else fr.push_back({strtoull(f.c_str() + f.rfind('_') + 1, 0, 10), f}); } std::sort(fr.begin(), fr.end()); n++; b.push_back(fmt("--S%d:", n) + in + "/" + init); for (auto& f : fr) b.push_back(fmt("--S%d:", n) + in + "/" + f.second); w.t.push_back(t); c.count("fragments", fr.size()); }
  if (enc) b.push_back("--key:" + key); for (auto& x : b) c.note(x + " "); r = mg_cli(b); c.count("runs"); VREQ(c, r.rc == 0, "moof/exit-code", "rc=%d %s", r.rc, tail(r).c_str()); ps.push_back(Part{&w, 0, 0}); size_t most = 0; for (auto& t : m.t) most = std::max(most, t.s.size()); judge(c, out + "/o.mp4", ps, false, (10 + most) * 1e-7);   // packaging adds rounded durations up
}
int main(int argc, char** argv) { return vh::run(argc, argv, {{"cut", cut}, {"join", join}, {"refuse", refuse}, {"moof", moof}}); }
