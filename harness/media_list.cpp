// The listings of MP4 files and fragments, judged against what the files hold.
#include "media_parts.h"
#include "mp4ref.h"
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); v.push_back(s.substr(i, e - i)); i = e + 1; } return v; }
static std::vector<std::string> cols(const std::string& s) { std::vector<std::string> v; size_t i = 0; while (i <= s.size()) { size_t e = s.find('\t', i); if (e == std::string::npos) e = s.size(); if (e > i) v.push_back(s.substr(i, e - i)); i = e + 1; } return v; }
static bool clock_of(const std::string& s, double& t) { int h, m, q, ms, n = 0; const char* p = s.c_str(); bool neg = *p == '-'; if (neg) p++; if (sscanf(p, "%d:%2d:%2d.%3d%n", &h, &m, &q, &ms, &n) != 4 || p[n] || n < 12) return false; t = h * 3600.0 + m * 60 + q + ms / 1000.0; if (neg) t = -t; return true; }
static bool number(const std::string& s, uint64_t& v) { if (s.empty() || s.find_first_not_of("0123456789") != std::string::npos) return false; v = strtoull(s.c_str(), nullptr, 10); return true; }
// the time listed is cut down to a millisecond
static bool at_ms(double listed, double real) { return listed <= real + 1e-6 && listed > real - 0.0010011; }
#define TIME(S, REAL, KEY, WHAT) do { double t_; VREQ(c, clock_of(S, t_), KEY, "%s is '%s'", WHAT, (S).c_str()); VREQ(c, at_ms(t_, REAL), KEY, "%s is listed as %s, is %.6f", WHAT, (S).c_str(), (double)(REAL)); } while (0)
#define NUM(S, REAL, KEY, WHAT) do { uint64_t n_; VREQ(c, number(S, n_), KEY, "%s is '%s'", WHAT, (S).c_str()); VREQ(c, n_ == (uint64_t)(REAL), KEY, "%s is listed as %llu, is %llu", WHAT, ll(n_), ll((uint64_t)(REAL))); } while (0)
static std::string cell(const std::string& s, const char* a, const char* b) { size_t i = s.find(a); if (i == std::string::npos) return ""; i += strlen(a); size_t e = *b ? s.find(b, i) : s.size(); if (e == std::string::npos) e = s.size(); return s.substr(i, e - i); }
static Opt opts(Ctx& c) { Opt o = some(c); o.seconds = 0.3 + c.rng.below(50) / 10.0; if (c.rng.chance(1, 20)) o.seconds = 70; o.vsize = 80; return o; }
static bool list_run(Ctx& c, const std::vector<std::string>& a, CliResult& r) { for (auto& x : a) c.note(x + " "); r = mg_cli(a); c.count("runs"); VCHECK(c, r.rc == 0, "exit-code", "rc=%d %s", r.rc, tail(r).c_str()); return r.rc == 0; }
// pick: one row for each sample
static void pick(Ctx& c) {
  std::string in = tmpdir(c, "in"); Clean clean{in}; Movie m = make_movie(c.rng, opts(c)); save(in + "/a.mp4", m.file); describe(c, m); double len = length(m); uint64_t s = 0, e = 0; if (c.rng.chance(1, 2)) s = c.rng.coin() ? c.rng.below((uint64_t)(len * 1e7)) : hns(m.t[0].s[c.rng.below(m.t[0].s.size())].dts, m.t[0].timescale); if (c.rng.chance(1, 2)) e = s + 1 + c.rng.below((uint64_t)(len * 1e7)); int only = c.rng.chance(1, 3) ? (int)c.rng.below(m.t.size()) : -1;
  std::vector<std::string> a = {"-k:pick", "-i:" + in + "/a.mp4", fmt("-s:%llu", ll(s)), fmt("-e:%llu", ll(e))}; if (only >= 0) a.push_back(fmt("--stream:%d", only)); CliResult r; if (!list_run(c, a, r)) return; std::vector<std::string> L = lines(r.out); size_t at = 0; while (at < L.size() && L[at].compare(0, 11, " duration: ")) at++; VREQ(c, at < L.size(), "head", "no duration"); { double t_; VREQ(c, clock_of(L[at].substr(11), t_) && t_ <= len + 1e-6 && t_ > len - 0.0011 - 1.0 / m.timescale, "head", "the duration is listed as %s, is %.6f", L[at].c_str(), len); } at++;
  std::vector<size_t> lo, hi; if (s) starts(m, s, lo, hi); else { lo.assign(m.t.size(), 0); hi = lo; }
  for (size_t i = 0; i < m.t.size(); i++, at++) {
    const MTrack& t = m.t[i]; VREQ(c, at < L.size(), "head", "stream %zu is missing", i); const std::string& h = L[at]; NUM(cell(h, "", ")"), i, "head", "the stream"); double d = t.delay / (double)m.timescale; TIME(cell(h, "offset: ", " "), d, "head", "the offset"); TIME(cell(h, " duration: ", " "), t.sec(t.duration()), "head", "the stream duration"); NUM(cell(h, "samples count: ", " "), t.s.size(), "head", "the count"); NUM(cell(h, "timescale: ", ""), t.timescale, "head", "the timescale");
    bool one = true; for (auto& y : t.s) one &= y.dur == t.s[0].dur; { uint64_t z = 0; for (auto& y : t.s) z = std::max(z, y.cts() + y.dur); one &= z - t.s[0].cts() == (uint64_t)t.s[0].dur * t.s.size(); /* no pause */ } if (one) { TIME(cell(h, "sample duration: ", " "), t.sec(t.s[0].dur), "head", "the sample duration"); uint64_t n_, w_ = hns(t.s[0].dur, t.timescale); VREQ(c, number(cell(h, "[", "]"), n_) && n_ + 1 >= w_ && n_ <= w_ + 1, "head", "the sample duration is listed as %llu, is %llu", ll(n_), ll(w_)); } TIME(cell(h, "start time: ", " "), t.sec(t.s[0].cts()), "head", "the start"); c.count("streams");
  }
  VREQ(c, at < L.size() && !L[at].compare(0, 6, "stream"), "head", "no column names"); at++; std::vector<size_t> next(m.t.size(), ~size_t(0)); uint64_t pos = 0; double far = 0; bool done = false, first = true; std::vector<bool> chunk_start; size_t rows = 0;
  for (; at < L.size() && L[at].compare(0, 4, "MAX "); at++) {
    std::vector<std::string> q = cols(L[at]); VREQ(c, q.size() == 10, "row", "'%s'", L[at].c_str()); uint64_t i, k; VREQ(c, number(q[0], i) && i < m.t.size() && number(q[1], k) && k < m.t[i].s.size(), "row", "'%s'", L[at].c_str()); VREQ(c, only < 0 || i == (uint64_t)only, "other-stream", "'%s'", L[at].c_str()); VREQ(c, !done, "after-the-end", "'%s'", L[at].c_str()); const MTrack& t = m.t[i]; const MSample& y = t.s[k]; double d = t.delay / (double)m.timescale;
    if (next[i] == ~size_t(0)) VREQ(c, k >= lo[i] && k <= hi[i], "first", "stream %llu starts at sample %llu, not at %zu..%zu", ll(i), ll(k), lo[i], hi[i]); else VREQ(c, k == next[i], "order", "stream %llu: sample %llu after %zu", ll(i), ll(k), next[i] - 1); next[i] = k + 1;
    double tt; VREQ(c, clock_of(q[2], tt) && tt <= t.sec(y.cts()) + d + 1e-6 && tt > t.sec(y.cts()) + d - 0.00101, "composition", "sample %llu of stream %llu: %s, is %.6f", ll(k), ll(i), q[2].c_str(), t.sec(y.cts()) + d); TIME(q[3], t.sec(y.dts), "decoding", "the decoding time"); TIME(q[4], t.sec(y.dur), "duration", "the duration"); NUM(q[5], y.sync, "sync", "sync"); NUM(q[6], y.offset, "offset", "the offset"); NUM(q[7], y.data.size(), "size", "the size"); NUM(q[8], hns(y.cts(), t.timescale), "hns", "the composition time"); NUM(q[9], y.cts(), "ticks", "the composition time in ticks"); c.count("rows"); rows++;
    if (only < 0) { VREQ(c, first || y.offset > pos || s, "file-order", "sample %llu of stream %llu", ll(k), ll(i)); } first = false; pos = y.offset; far = std::max(far, t.sec(y.cts()) - t.sec(y.dts)); if (e && hns(y.dts, t.timescale) >= e) done = true;
  }
  VREQ(c, at < L.size(), "tail", "no last line"); if (!done) for (size_t i = 0; i < m.t.size(); i++) if (only < 0 || (size_t)only == i) VREQ(c, next[i] == m.t[i].s.size() || (next[i] == ~size_t(0) && lo[i] >= m.t[i].s.size()), "missing", "stream %zu: %zu of %zu", i, next[i], m.t[i].s.size()); TIME(cell(L[at], "MAX DISTANCE: ", " "), far, "distance", "the greatest distance"); c.feature(fmt("%zu %d %d %zu", m.t.size(), done, only, rows / 20));
}
// gop: one row for each sync sample in the range
static void gop(Ctx& c) {
  std::string in = tmpdir(c, "in"); Clean clean{in}; Opt o = opts(c); o.video = true; Movie m = make_movie(c.rng, o); save(in + "/a.mp4", m.file); describe(c, m); size_t b = base_track(m); const MTrack& t = m.t[b]; double len = length(m); uint64_t s = 0, e = 0; if (c.rng.chance(1, 2)) s = c.rng.coin() ? c.rng.below((uint64_t)(t.sec(t.duration()) * 1e7)) : hns(t.s[c.rng.below(t.s.size())].cts(), t.timescale); if (c.rng.chance(1, 2)) e = s + 1 + c.rng.below((uint64_t)(len * 1e7));
  CliResult r; if (!list_run(c, {"-k:gop", "-i:" + in + "/a.mp4", fmt("-s:%llu", ll(s)), fmt("-e:%llu", ll(e))}, r)) return; std::vector<std::string> L = lines(r.out); size_t at = 0; while (at < L.size() && L[at].compare(0, 9, "Duration ")) at++; VREQ(c, at < L.size(), "head", "no duration"); { double t_; VREQ(c, clock_of(L[at].substr(9), t_) && t_ <= len + 1e-6 && t_ > len - 0.0011 - 1.0 / m.timescale, "head", "the duration is listed as %s, is %.6f", L[at].c_str(), len); } at++; uint64_t end = e ? e : hns((uint64_t)(len * 1e6), 1000000); std::vector<size_t> got; std::string last;
  for (; at < L.size() && L[at].size() && isdigit((unsigned char)L[at][0]); at++) { if (L[at] == last) continue; last = L[at]; std::vector<std::string> q = cols(L[at]); uint64_t i, k; VREQ(c, q.size() == 5 && number(q[0], i) && number(q[1], k) && k < t.s.size(), "row", "'%s'", L[at].c_str()); VREQ(c, i == b, "stream", "%llu, the video is %zu", ll(i), b); const MSample& y = t.s[k]; VREQ(c, y.sync, "not-sync", "sample %llu", ll(k)); TIME(q[2], t.sec(y.cts()), "time", "the time"); NUM(q[3], hns(y.cts(), t.timescale), "time", "the time"); TIME(q[4], t.sec(y.dts), "decoding", "the decoding time"); got.push_back((size_t)k); c.count("rows"); }
  std::vector<size_t> all; for (size_t k = 0; k < t.s.size(); k++) if (t.s[k].sync) all.push_back(k); VREQ(c, got.size(), "empty", "no rows"); size_t f = 0; while (f < all.size() && all[f] != got[0]) f++; for (size_t k = 0; k < got.size(); k++) VREQ(c, f + k < all.size() && got[k] == all[f + k], "skipped", "row %zu is sample %zu", k, got[k]);
  auto T = [&](size_t k) { return hns(t.s[k].cts(), t.timescale); }; auto D = [&](size_t k) { return hns(t.s[k].dts, t.timescale); }; VREQ(c, f == 0 || D(all[f]) <= s + 1, "first", "starts at %llu, asked for %llu", ll(D(all[f])), ll(s)); if (f + 1 < all.size()) VREQ(c, D(all[f + 1]) + 1 > s || T(all[f + 1]) > s, "first", "the sync sample at %llu is nearer to %llu than the one at %llu", ll(T(all[f + 1])), ll(s), ll(T(all[f])));
  size_t l = f + got.size() - 1; if (l + 1 < all.size()) VREQ(c, T(all[l]) + 1 >= end, "ended-early", "the last is at %llu, the end at %llu", ll(T(all[l])), ll(end)); if (got.size() > 2) VREQ(c, T(all[l - 2]) < end, "after-the-end", "%llu, the end is %llu", ll(T(all[l - 2])), ll(end)); c.feature(fmt("%zu %d", got.size(), e != 0));
}
// H264Header: one row for each unit
static void units(Ctx& c) {
  std::string in = tmpdir(c, "in"); Clean clean{in}; Opt o = opts(c); o.video = true; o.real = true; Movie m = make_movie(c.rng, o); save(in + "/a.mp4", m.file); describe(c, m); size_t b = base_track(m); const MTrack& t = m.t[b]; CliResult r; if (!list_run(c, {"-k:H264Header", "-i:" + in + "/a.mp4", "-s:0", "-e:0"}, r)) return; std::vector<std::string> L = lines(r.out); size_t at = 0;
  while (at < L.size() && L[at].compare(0, 17, " [H264 SEQUENCE: ")) at++; VREQ(c, at < L.size(), "sequence", "not listed"); const std::string& h = L[at]; const Sps& f = t.sps_f; NUM(cell(h, "Profile: ", " "), f.profile, "sequence", "profile"); NUM(cell(h, "num_ref_frames: ", " "), f.refs, "sequence", "reference frames"); NUM(cell(h, "MaxFrameNum: ", " "), 1u << (f.log2fn + 4), "sequence", "MaxFrameNum"); NUM(cell(h, "pic_order_cnt_type: ", " "), f.poctype, "sequence", "pic_order_cnt_type"); NUM(cell(h, " width: ", " "), 16 * (f.wmb + 1), "sequence", "width"); NUM(cell(h, " height: ", "]"), 16 * (f.hmb + 1), "sequence", "height"); if (f.poctype == 0) NUM(cell(h, "max_pic_order_cnt: ", " "), 1u << (f.log2poc + 4), "sequence", "max_pic_order_cnt");
  NUM(cell(h, "frame_mbs_only_flag: ", " "), f.fmo, "sequence", "frame_mbs_only_flag"); at++; while (at < L.size() && L[at].compare(0, 4, "size")) at++; VREQ(c, at < L.size(), "head", "no column names"); at++; uint64_t end = 0; for (auto& y : t.s) end = std::max(end, hns(y.cts(), t.timescale)); (void)end; uint64_t dur = hns((uint64_t)(length(m) * 1e6), 1000000); uint64_t before = 0;
  for (size_t k = 0; k < t.s.size(); k++) {
    const MSample& y = t.s[k]; size_t sl = 0; uint64_t at_hns = hns(y.cts(), t.timescale); if (at < L.size() && L[at].empty()) at++; bool over = at >= L.size() || !L[at].compare(0, 8, "Edit add"); if (over && k) { VREQ(c, before + 3 + 10000000 / m.timescale >= dur, "ended-early", "at sample %zu of %zu, after %llu of %llu", k, t.s.size(), ll(before), ll(dur)); break; } VREQ(c, before < dur + 11, "after-the-end", "sample %zu, after %llu of %llu", k, ll(before), ll(dur)); before = at_hns; for (size_t u = 0; u < y.nals.size(); u++, at++) {
      const Bytes& n = y.nals[u]; int type = n[0] & 31; if (at < L.size() && L[at].empty()) at++; VREQ(c, at < L.size(), "unit-missing", "unit %zu of sample %zu of %zu", u, k, t.s.size()); c.count("units"); Bytes raw; int z = 0; for (size_t i = 0; i < n.size(); i++) { if (z >= 2 && n[i] == 3) { z = 0; if (i + 1 < n.size()) continue; } z = n[i] ? 0 : z + 1; raw.push_back(n[i]); }
      if (type == 1 || type == 5) { std::vector<std::string> q = cols(L[at]); VREQ(c, q.size() >= 30, "unit", "'%s' for a slice", L[at].c_str()); NUM(q[1], k, "sample", "the sample"); NUM(q[2], type, "type", "the type"); NUM(q[3], n[0] >> 5, "ref-idc", "nal_ref_idc"); uint64_t z2; VREQ(c, number(q[4], z2) && (z2 == raw.size() || z2 == raw.size() + 1 || z2 + 1 == raw.size()), "rbsp", "%s, is %zu", q[4].c_str(), raw.size()); double tt; VREQ(c, clock_of(q[5], tt) && tt <= t.sec(y.cts()) + 1e-6 && tt > t.sec(y.cts()) - 0.00101, "composition", "sample %zu: %s, is %.6f", k, q[5].c_str(), t.sec(y.cts())); TIME(q[6], t.sec(y.dts), "decoding", "the decoding time"); VREQ(c, sl < y.slices.size(), "unit", "slice %zu of sample %zu", sl, k); const Slice& x = y.slices[sl++];
        NUM(q[7], x.fn, "slice", "frame_num"); NUM(q[8], x.lsb, "slice", "pic_order_cnt_lsb"); NUM(q[10], f.fmo, "slice", "frame_mbs_only_flag"); NUM(q[11], x.first, "slice", "first_mb_in_slice"); NUM(q[12], x.type, "slice", "slice_type"); NUM(q[13], 0, "slice", "pic_parameter_set_id"); NUM(q[14], x.idr, "slice", "idr_pic_id"); VREQ(c, atoi(q[15].c_str()) == x.dpb, "slice", "delta_pic_order_cnt_bottom is listed as %s, is %d", q[15].c_str(), x.dpb); NUM(q[16], x.red, "slice", "redundant_pic_cnt"); NUM(q[17], x.l0, "slice", "num_ref_idx_l0_active_minus1"); NUM(q[18], x.l1, "slice", "num_ref_idx_l1_active_minus1"); NUM(q[26], x.field, "slice", "field_pic_flag"); NUM(q[27], x.bottom, "slice", "bottom_field_flag"); NUM(q[28], x.direct, "slice", "direct_spatial_mv_pred_flag"); NUM(q[29], x.over, "slice", "num_ref_idx_active_override_flag"); c.count("slices"); }
      else if (type == 6) VREQ(c, L[at] == "SEI: 5 16", "sei", "'%s'", L[at].c_str()); else VREQ(c, L[at] == fmt("Unparsed Nal: %d", type), "unit", "'%s'", L[at].c_str());
    }
  }
  c.feature(fmt("%zu %zu", m.t.size(), t.s.size() / 10));
}
// simul: the composition times in order
static void simul(Ctx& c) {
  std::string in = tmpdir(c, "in"); Clean clean{in}; Movie m = make_movie(c.rng, opts(c)); save(in + "/a.mp4", m.file); describe(c, m); int st = c.rng.coin() ? (int)c.rng.below(m.t.size()) : -1; std::vector<std::string> a = {"-k:simul", "-i:" + in + "/a.mp4", "-s:0", "-e:0"}; if (st >= 0) a.push_back(fmt("--stream:%d", st)); CliResult r; if (!list_run(c, a, r)) return; const MTrack& t = m.t[st < 0 ? 0 : st]; std::vector<double> so; std::vector<size_t> lo, hi; starts(m, 0, lo, hi); size_t tr = &t - &m.t[0], from = lo[tr]; if (lo[tr] != hi[tr]) { for (auto& l : lines(r.out)) { std::vector<std::string> q = cols(l); double tt; if (q.size() < 7) continue; VREQ(c, clock_of(q[1], tt), "composition", "'%s'", l.c_str()); while (from < hi[tr] && !at_ms(tt, t.sec(t.s[from].cts()))) from++; break; } }
  for (size_t j = from; j < t.s.size(); j++) so.push_back(t.sec(t.s[j].cts())); std::sort(so.begin(), so.end()); size_t k = 0;
  for (auto& l : lines(r.out)) { std::vector<std::string> q = cols(l); if (q.size() < 7) continue; VREQ(c, k < so.size(), "rows", "more than %zu", so.size()); double tt; VREQ(c, clock_of(q[0], tt) && tt <= so[k] + 1e-6 && tt > so[k] - 0.00101, "order", "the time in order is listed as %s, is %.6f", q[0].c_str(), so[k]); double w = t.sec(t.s[from + k].cts()); VREQ(c, clock_of(q[1], tt) && tt <= w + 1e-6 && tt > w - 0.00101, "composition", "the composition time is listed as %s, is %.6f", q[1].c_str(), w); k++; c.count("rows"); } VREQ(c, k == so.size(), "rows", "%zu of %zu", k, so.size()); c.feature(fmt("%zu %d", t.s.size() / 10, st));
}
// analyze: every box of the file
static void expect(const ref::Box& b, std::vector<std::string>& w, size_t lim) { for (auto& k : b.kids) { w.push_back(fmt("%s %zu %zu %zu", k.type.c_str(), k.off, k.size, k.off + k.size)); if (k.open) w.back() = fmt("%s %zu 0 %zu", k.type.c_str(), k.off, k.off); if (k.type == "uuid") /* its size does not count the type */ w.back() = fmt("uuid %zu %zu %zu", k.off, k.size - 16, k.off + k.size - 16); if (k.type != "stsd" && k.type != "dref") expect(k, w, lim); } }
static void judge_tree(Ctx& c, const std::string& path, const std::string& out) {
  ref::File f; VREQ(c, f.load(path), "reference", "%s", f.err.c_str()); std::vector<std::string> want; expect(f.root, want, 0); std::set<std::string> all(want.begin(), want.end()); std::vector<std::string> got; for (auto& l : lines(out)) { char ty[16]; size_t p, s, e; int n = 0; if (sscanf(l.c_str(), "%4c %zu %zu %zu%n", ty, &p, &s, &e, &n) != 4) continue; got.push_back(l.substr(0, n)); }
  size_t i = 0; for (auto& w : want) { size_t k = i; while (k < got.size() && got[k] != w) k++; VREQ(c, k < got.size(), "box-missing", "'%s' of %s", w.c_str(), path.c_str()); i = k + 1; c.count("boxes"); }
}
static void tree(Ctx& c) {
  std::string in = tmpdir(c, "in"), out = tmpdir(c, "out"); Clean clean{in, out}; Opt o = opts(c); bool frag = c.rng.chance(1, 2); if (frag) { o.audio2 = false; o.delay = false; } Movie m = make_movie(c.rng, o); save(in + "/a.mp4", m.file); describe(c, m);
  if (!frag) {
    CliResult r; if (!list_run(c, {"-k:analyze", "-i:" + in + "/a.mp4", "-s:0", "-e:0"}, r)) return; judge_tree(c, in + "/a.mp4", r.out); std::vector<std::string> L = lines(r.out); size_t tk = 0, md = 0; bool mv = false;
    for (size_t i = 0; i + 1 < L.size(); i++) { const std::string& n = L[i + 1]; if (!L[i].compare(0, 5, "mvhd ")) { mv = true; NUM(cell(n, "timescale: ", " "), m.timescale, "mvhd", "the timescale"); } if (!L[i].compare(0, 5, "tkhd ")) { if (tk == m.t.size() && m.text) { tk++; continue; } VREQ(c, tk < m.t.size(), "tkhd", "too many"); const MTrack& t = m.t[tk++]; NUM(cell(n, "track id: ", " "), t.id, "tkhd", "the track"); if (t.video) { NUM(cell(n, "width: ", " "), t.w, "tkhd", "the width"); NUM(cell(n, "height: ", ""), t.h, "tkhd", "the height"); } } if (!L[i].compare(0, 5, "mdhd ")) { if (md == m.t.size() && m.text) { md++; continue; } VREQ(c, md < m.t.size(), "mdhd", "too many"); const MTrack& t = m.t[md++]; NUM(cell(n, "timescale: ", " "), t.timescale, "mdhd", "the timescale"); NUM(cell(n, " duration: ", " "), t.duration(), "mdhd", "the duration"); TIME(cell(n, "duration hns:", " "), t.sec(t.duration()), "mdhd", "the duration"); VREQ(c, cell(n, "(", ")") == t.lang, "mdhd", "language '%s', is %s", cell(n, "(", ")").c_str(), t.lang.c_str()); } }
    VREQ(c, mv && tk == m.t.size() + (m.text ? 1 : 0) && md == tk, "headers", "%zu tkhd, %zu mdhd", tk, md);
  } else {
    std::vector<std::string> a = {"-k:dash", "-i:" + in + "/a.mp4", "-s:0", "-e:0", "-b:500", "-o:" + out, fmt("--segment:%d", (int)(5000000 + c.rng.below(30000000)))}; bool enc = c.rng.coin(); if (enc) { Bytes k(16); c.rng.fill(k.data(), 16); a.push_back("--key:" + vh::hex(k.data(), 16)); a.push_back("--kid:" + vh::hex(k.data(), 16)); a.push_back("--clearkey:true"); } CliResult r; if (!list_run(c, a, r)) return; auto files = ref::files_in(out); size_t left = 4;
    for (auto& n : files) { if (n.size() < 5 || n[n.size() - 4] != '.' || n[n.size() - 3] != 'm' || n[n.size() - 2] != '4') continue; bool init = n[n.size() - 5] == 'i'; if (!init && (!left || c.rng.coin())) continue; if (!init) left--; std::string p = out + "/" + n; if (!list_run(c, {"-k:analyze", "-i:" + p, "-s:0", "-e:0"}, r)) return; judge_tree(c, p, r.out); if (init) continue; c.count("fragments");
      ref::File f; f.load(p); ref::Frag g; std::string e = ref::read_frag(f, g); VREQ(c, e.empty(), "reference", "%s", e.c_str()); size_t k = 0, sub = 0; bool tf = false; std::vector<std::string> L = lines(r.out);
      for (size_t i = 0; i < L.size(); i++) { if (!L[i].compare(0, 18, " sample duration: ")) { VREQ(c, k < g.s.size(), "trun", "more than %zu samples", g.s.size()); const ref::FS& y = g.s[k++]; NUM(cell(L[i], "sample duration: ", " "), y.dur, "trun", "the duration"); NUM(cell(L[i], "sample size: ", " "), y.data.size(), "trun", "the size"); std::string cp = cell(L[i], "sample composition: ", " "); if (cp.size()) NUM(cp, (uint32_t)y.cto, "trun", "the composition offset"); else VREQ(c, y.cto == 0, "trun", "the composition offset of sample %zu is not listed", k - 1); c.count("rows"); }
        if (!L[i].compare(0, 5, "tfdt ") && i + 2 < L.size()) { tf = true; std::vector<std::string> q = cols(L[i + 2]); VREQ(c, q.size() == 2, "tfdt", "'%s'", L[i + 2].c_str()); NUM(q[1], g.tfdt, "tfdt", "the time"); if (g.sidx_ts) TIME(q[0], g.tfdt / (double)g.sidx_ts, "tfdt", "the time"); } if (L[i].find("track_ID: ") != std::string::npos && L[i].find("fragment header") != std::string::npos) NUM(cell(L[i], "track_ID: ", " "), g.track, "tfhd", "the track"); size_t z = L[i].find("BytesOfProtectedData"); if (z != std::string::npos) sub++; }
      VREQ(c, k == g.s.size(), "trun", "%zu of %zu samples", k, g.s.size()); VREQ(c, tf, "tfdt", "not listed"); size_t subs = 0; for (auto& y : g.s) subs += y.sub.size(); VREQ(c, sub == subs, "senc", "%zu of %zu parts", sub, subs);
    }
  }
  c.feature(fmt("%d %zu %d", frag, m.t.size(), m.udta));
}
int main(int argc, char** argv) { return vh::run(argc, argv, {{"pick", pick}, {"gop", gop}, {"units", units}, {"simul", simul}, {"tree", tree}}); }
