// DASH / Smooth Streaming packaging: the whole program run on generated movies, its output read back by an independent reader.
#include "media_pkg.h"
#include "aes.h"

struct Rep { std::string id, init; uint64_t bw; std::vector<std::string> file; };
struct Set { bool video; std::string codecs; unsigned maxw = 0, maxh = 0; std::vector<uint64_t> t, d; std::vector<Rep> r; std::vector<const ref::Xml*> rx; };
static std::string subst(std::string s, const std::string& k, const std::string& v) { size_t i; while ((i = s.find(k)) != std::string::npos) s.replace(i, k.size(), v); return s; }
static std::string read_mpd(const ref::Xml& x, std::vector<Set>& sets, uint64_t& dur) {
  if (x.name != "MPD") return "root is " + x.name; const ref::Xml* p = x.find("Period"); if (!p) return "no Period";
  { std::string d = x.at("mediaPresentationDuration"); uint64_t s; char f[32]; if (sscanf(d.c_str(), "PT%lu.%31[0-9]S", (unsigned long*)&s, f) != 2) return "mediaPresentationDuration is '" + d + "'"; std::string fr(f); while (fr.size() < 7) fr += '0'; if (fr.size() > 7) return "mediaPresentationDuration is '" + d + "'"; dur = s * 10000000 + strtoull(fr.c_str(), 0, 10); }
  for (auto* a : p->all("AdaptationSet")) {
    Set s; s.video = a->at("contentType") == "video"; if (a->at("mimeType") != (s.video ? "video/mp4" : "audio/mp4")) return "mimeType " + a->at("mimeType"); s.codecs = a->at("codecs"); s.maxw = atoi(a->at("maxWidth").c_str()); s.maxh = atoi(a->at("maxHeight").c_str());
    const ref::Xml* t = a->find("SegmentTemplate"); if (!t) return "no SegmentTemplate"; if (t->at("timescale") != "10000000") return "timescale " + t->at("timescale"); const ref::Xml* l = t->find("SegmentTimeline"); if (!l) return "no SegmentTimeline";
    uint64_t at = 0; for (auto* e : l->all("S")) { if (e->has("t")) at = strtoull(e->at("t").c_str(), 0, 10); uint64_t d = strtoull(e->at("d").c_str(), 0, 10); uint64_t r = e->has("r") ? strtoull(e->at("r").c_str(), 0, 10) : 0; if (!d) return "segment without duration"; for (uint64_t i = 0; i <= r; i++) { s.t.push_back(at); s.d.push_back(d); at += d; } }
    std::set<std::string> ids; for (auto* r : a->all("Representation")) { Rep q; q.id = r->at("id"); if (!ids.insert(q.id).second) return "two representations with id " + q.id; q.bw = strtoull(r->at("bandwidth").c_str(), 0, 10); auto f = [&](std::string n, uint64_t time) { n = subst(n, "$Bandwidth$", r->at("bandwidth")); n = subst(n, "$RepresentationID$", q.id); return subst(n, "$Time$", fmt("%llu", (unsigned long long)time)); }; q.init = f(t->at("initialization"), 0); for (auto time : s.t) q.file.push_back(f(t->at("media"), time)); s.r.push_back(q); s.rx.push_back(r); }
    sets.push_back(s);
  }
  return "";
}

struct Conf { uint64_t ats = 10000000, vts = 10000000, seg = 20000000; bool enc = false, aenc = true; Bytes key, kid; int npssh = 0; std::vector<std::string> a; std::string in, out; };
static void options(Ctx& c, Conf& f, std::vector<std::string>& a) {
  if (c.rng.chance(1, 3)) { f.vts = c.rng.coin() ? 90000 : 10000000; f.ats = c.rng.coin() ? 48000 : 90000; a.push_back(fmt("--audiotimescale:%d", (int)f.ats)); a.push_back(fmt("--videotimescale:%d", (int)f.vts)); }
  if (c.rng.chance(1, 3)) { f.seg = c.rng.chance(1, 4) ? 1 + c.rng.below(2000000) : 10000000 + c.rng.below(40000000); a.push_back(fmt("--segment:%d", (int)f.seg)); }
}
// runs the program and reads the manifest; false when the case is over
static bool run(Ctx& c, const Conf& f, const std::vector<std::string>& a, std::vector<Set>& sets, uint64_t& mdur, bool extra_ok = false, const char* kind = "dash") {
  for (auto& x : a) c.note(x + " ");
  CliResult r = mg_cli(a); c.count("runs");
#define STOP(cond, key, ...) do { if (!(cond)) { c.fail(key, fmt(__VA_ARGS__)); return false; } } while (0)
  STOP(r.rc == 0, "dash/exit-code", "rc=%d %s", r.rc, tail(r).c_str());
  ref::Xml x; Bytes mpd = load(f.out + "/index.mpd"); std::string e = ref::xml(mpd, x); STOP(e.empty(), "dash/mpd-xml", "%s", e.c_str());
  e = read_mpd(x, sets, mdur); STOP(e.empty(), "dash/mpd", "%s", e.c_str());
  std::set<std::string> want = {"index.mpd"}; if (strcmp(kind, "dash")) want.insert("index.ism"); if (strcmp(kind, "ssfx")) for (auto& s : sets) for (auto& q : s.r) { want.insert(q.init); for (auto& g : q.file) want.insert(g); }
  std::set<std::string> have = ref::files_in(f.out); for (auto& g : want) VCHECK(c, have.count(g), "dash/missing-file", "manifest names %s which was not written", g.c_str()); if (!extra_ok) for (auto& g : have) VCHECK(c, want.count(g), "dash/extra-file", "%s is written but not in the manifest", g.c_str());
  uint64_t end = 0; for (auto& s : sets) { uint64_t sum = 0; for (auto d : s.d) sum += d; VCHECK(c, mdur >= sum, "dash/mpd-duration", "%llu, %s lasts %llu", ll(mdur), s.video ? "video" : "audio", ll(sum)); if (s.t.size()) end = std::max(end, s.t.back() + s.d.back()); }
  VCHECK(c, mdur <= end, "dash/mpd-duration", "%llu, the last segment ends at %llu", ll(mdur), ll(end));
  for (auto& s : sets) { std::set<uint64_t> bws; for (auto& q : s.r) VCHECK(c, bws.insert(q.bw).second, "dash/bandwidth", "two representations with bandwidth %llu", ll(q.bw)); }
  return !c.failed;
#undef STOP
}
static Bytes ctr(const Bytes& key, const Bytes& iv, const Bytes& in, uint64_t& block_used) {   // AES-CTR, 8 byte IV and 8 byte block counter
  aes_encrypt_ctx cx[1]; aes_encrypt_key(key.data(), 16, cx); Bytes o(in.size()); for (size_t i = 0; i < in.size(); i += 16) { unsigned char b[16], k[16]; memcpy(b, iv.data(), 8); uint64_t n = i / 16; for (int j = 0; j < 8; j++) b[15 - j] = (unsigned char)(n >> (8 * j)); aes_ecb_encrypt(b, k, 16, cx); for (size_t j = i; j < in.size() && j < i + 16; j++) o[j] = in[j] ^ k[j - i]; block_used++; } return o;
}
static bool check_init(Ctx& c, const Conf& f, const Set& s, const Rep& q, const MTrack& t, uint32_t& id) {
  uint64_t ts = s.video ? f.vts : f.ats; const char* K = s.video ? "video" : "audio"; bool enc = f.enc && (s.video || f.aenc);
  ref::File fi; ref::Mov mv; std::string e; if (!fi.load(f.out + "/" + q.init)) e = fi.err; else e = ref::read_moov(fi, mv); if (!e.empty() || mv.t.size() != 1) { c.fail("dash/init", fmt("%s: %s (%zu tracks)", K, e.c_str(), mv.t.size())); return false; } ref::Trk& k2 = mv.t[0]; id = k2.id; c.count("inits");
  VCHECK(c, k2.handler == (s.video ? "vide" : "soun"), "dash/init-handler", "%s", k2.handler.c_str()); VCHECK(c, k2.timescale == ts, "dash/init-timescale", "%u want %llu", k2.timescale, ll(ts)); VCHECK(c, k2.s.empty(), "dash/init-samples", "%zu samples in the init segment", k2.s.size()); VCHECK(c, mv.trex.size() == 1 && mv.trex[0] == k2.id, "dash/init-trex", "trex does not match track %u", k2.id);
  { double sum = 0; for (auto d : s.d) sum += d / 1e7; if (mv.mehd) { double got = mv.mehd / (double)mv.timescale; VCHECK(c, got > sum - 0.01 && got < sum + 0.01, "dash/init-mehd", "the fragments of %s last %f, announced %f", K, sum, got); } VCHECK(c, mv.next_id > k2.id, "dash/init-next-id", "next_track_ID %u, track %u", mv.next_id, k2.id); }
  if (k2.e.size() != (enc ? 2u : 1u)) { c.fail("dash/init-entry", fmt("%zu sample entries", k2.e.size())); return false; }
  for (auto& en : k2.e) {
    if (s.video) { VCHECK(c, en.sps.size() == 1 && en.sps[0] == t.sps, "dash/init-sps", "SPS differs"); VCHECK(c, en.pps.size() == 1 && en.pps[0] == t.pps, "dash/init-pps", "PPS differs"); VCHECK(c, en.nlen == 4, "dash/init-nlen", "%d", en.nlen); VCHECK(c, en.w == t.w && en.h == t.h && k2.w == t.w && k2.h == t.h, "dash/init-size", "%ux%u / %ux%u want %ux%u", en.w, en.h, k2.w, k2.h, t.w, t.h); VCHECK(c, en.prof == t.sps[1] && en.compat == t.sps[2] && en.level == t.sps[3], "dash/init-profile", "%02x%02x%02x want %02x%02x%02x", en.prof, en.compat, en.level, t.sps[1], t.sps[2], t.sps[3]); }
    else { VCHECK(c, en.asc == t.asc(), "dash/init-asc", "%s want %s", vh::hex(en.asc.data(), en.asc.size()).c_str(), vh::hex(t.asc().data(), 2).c_str()); }
  }
  if (enc) { ref::Entry& en = k2.e[0]; VCHECK(c, en.enc, "cenc/entry", "the first sample entry is %s", en.type.c_str()); VCHECK(c, en.type == (s.video ? "encv" : "enca") && en.orig == (s.video ? "avc1" : "mp4a"), "cenc/entry", "%s of %s", en.type.c_str(), en.orig.c_str()); VCHECK(c, en.scheme == "cenc", "cenc/scheme", "%s", vh::esc(en.scheme).c_str()); VCHECK(c, en.prot == 1 && en.ivsize == 8, "cenc/tenc", "isEncrypted %d, IV size %d", en.prot, en.ivsize); VCHECK(c, en.kid == f.kid, "cenc/kid", "%s", vh::hex(en.kid.data(), 16).c_str()); VCHECK(c, (int)mv.pssh.size() == f.npssh, "cenc/pssh-count", "%zu, want %d", mv.pssh.size(), f.npssh);
  } else VCHECK(c, mv.pssh.empty() && !k2.e[0].enc, "cenc/clear", "clear stream with protection information");
  return true;
}
// reads the fragments of one representation, decrypting; checks each against the manifest
static bool check_frags(Ctx& c, const Conf& f, const Set& s, const Rep& q, uint32_t id, std::vector<ref::FS>& all, std::vector<size_t>& nth, bool gaps = true) {
  uint64_t ts = s.video ? f.vts : f.ats, expect_seq = 1; double dend = 0, tick = 1.0 / ts + 1e-7; size_t dcount = 0; bool enc = f.enc && (s.video || f.aenc); std::set<Bytes> ivs;
#define STOP(cond, key, ...) do { if (!(cond)) { c.fail(key, fmt(__VA_ARGS__)); return false; } } while (0)
  for (size_t j = 0; j < q.file.size(); j++) {
    const char* F = q.file[j].c_str(); ref::File ff; STOP(ff.load(f.out + "/" + q.file[j]), "dash/fragment", "%s: %s", F, ff.err.c_str()); ref::Frag g; std::string e = ref::read_frag(ff, g); STOP(e.empty(), "dash/fragment", "%s: %s", F, e.c_str()); c.count("fragments");
    VCHECK(c, g.seq == expect_seq, "dash/sequence", "%s: sequence %u want %llu", F, g.seq, ll(expect_seq)); expect_seq++; VCHECK(c, g.track == id, "dash/track-id", "%u want %u", g.track, id); STOP(g.s.size(), "dash/empty-fragment", "%s", F); STOP(g.has_tfdt, "dash/no-tfdt", "%s", F);
    if (g.has_sidx) { c.count("sidx"); VCHECK(c, g.sidx_ref == id, "dash/sidx-id", "%u", g.sidx_ref); VCHECK(c, g.sidx_sap >> 31 == 1 && !(g.sidx_sap & 0xfffffff), "dash/sidx-sap", "%08x for a segment which starts at a sync sample", g.sidx_sap); VCHECK(c, g.sidx_ts == ts, "dash/sidx-timescale", "%u", g.sidx_ts); VCHECK(c, llabs((long long)g.sidx_dur - (long long)g.dur) <= 1, "dash/sidx-duration", "sidx %llu, samples %llu", ll(g.sidx_dur), ll(g.dur)); }
    STOP(g.enc == enc, "cenc/present", "%s is %sencrypted", F, g.enc ? "" : "not "); uint64_t blocks = 0;
    if (enc) for (auto& y : g.s) { STOP(y.iv.size() == 8, "cenc/iv", "%zu bytes", y.iv.size()); STOP(ivs.insert(y.iv).second, "cenc/iv-reuse", "%s: initialisation vector %s used twice with one key", F, vh::hex(y.iv.data(), 8).c_str()); Bytes ct, pt; size_t o = 0; if (y.sub.empty()) ct = y.data; else for (auto& u : y.sub) { o += u.clear; ct.insert(ct.end(), y.data.begin() + o, y.data.begin() + o + u.prot); o += u.prot; } pt = ctr(f.key, y.iv, ct, blocks); size_t pp = 0; o = 0; if (y.sub.empty()) y.data = pt; else for (auto& u : y.sub) { o += u.clear; std::copy(pt.begin() + pp, pt.begin() + pp + u.prot, y.data.begin() + o); o += u.prot; pp += u.prot; } c.count("decrypted_bytes", pt.size()); }
    double pres = 1e18; for (auto& y : g.s) pres = std::min(pres, ((double)y.dts + y.cto) / ts);
    VCHECK(c, fabs(pres - s.t[j] / 1e7) <= 2 * tick, "dash/fragment-time", "%s: first presentation %.7f, manifest %.7f", F, pres, s.t[j] / 1e7);
    if (g.has_sidx) VCHECK(c, fabs(g.sidx_ept / (double)ts - pres) <= 2 * tick, "dash/sidx-time", "%s: sidx %.7f samples %.7f", F, g.sidx_ept / (double)ts, pres);
    double pend = 0, plast = -1; for (auto& y : g.s) { double p = ((double)y.dts + y.cto) / ts; if (p > plast) { plast = p; pend = p + y.dur / (double)ts; } }
    if (j + 1 == q.file.size() && gaps) VCHECK(c, fabs(pend - pres - s.d[j] / 1e7) <= (4 + g.s.size()) * tick, "dash/fragment-duration", "%s (last): samples are presented for %.7f, manifest %.7f", F, pend - pres, s.d[j] / 1e7);
    if (j && gaps) VCHECK(c, fabs(g.s[0].dts / (double)ts - dend) <= (2 + dcount) * tick, "dash/fragment-gap", "%s starts at %.7f, the samples of the one before end at %.7f", F, g.s[0].dts / (double)ts, dend);
    dend = (g.s[0].dts + g.dur) / (double)ts; dcount = g.s.size();
    for (size_t z = 0; z < g.s.size(); z++) { all.push_back(g.s[z]); nth.push_back(z); }
  }
  c.count("samples", all.size()); return !c.failed;
#undef STOP
}
// the samples of one representation are those of the track, from the start of the video on; delta: output - source presentation time
static bool check_samples(Ctx& c, const Conf& f, const Movie& m, const Set& s, const MTrack& t, const std::vector<ref::FS>& all, const std::vector<size_t>& nth, bool hasv, double vstart, double& delta) {
  uint64_t ts = s.video ? f.vts : f.ats; double tick = 1.0 / ts + 1e-7; const char* K = s.video ? "video" : "audio";
#define STOP(cond, key, ...) do { if (!(cond)) { c.fail(key, fmt(__VA_ARGS__)); return false; } } while (0)
  size_t n0 = 0; if (!s.video && hasv) while (n0 < t.s.size() && t.sec(t.s[n0].dts) + t.delay / (double)m.timescale < vstart - 1e-7) n0++;
  if (!s.video && hasv && n0 < t.s.size() && all.size() + n0 + 1 == t.s.size() && fabs(t.sec(t.s[n0].dts) + t.delay / (double)m.timescale - vstart) < 3e-7) n0++; // a sample within a tick of the start
  STOP(all.size() <= t.s.size(), "dash/too-many-samples", "%s: %zu written, source has %zu", K, all.size(), t.s.size());
  STOP(all.size() == t.s.size() - n0, "dash/sample-count", "%s: %zu written, %zu expected (source %zu, first %zu)", K, all.size(), t.s.size() - n0, t.s.size(), n0);
  bool flat = true; for (auto& y : t.s) flat &= y.cto == t.s[0].cto;   // an offset common to all samples may be dropped
  for (size_t j = 0; j < all.size(); j++) {
    const MSample& y = t.s[n0 + j]; STOP(all[j].data == y.data, "dash/sample-bytes", "%s sample %zu of %zu: %zu bytes, source %zu", K, j, all.size(), all[j].data.size(), y.data.size());
    double src = t.sec(y.dts), base = t.sec(t.s[n0].dts); STOP(fabs((all[j].dts - all[0].dts) / (double)ts - (src - base)) <= (3 + nth[j]) * tick, "dash/decode-time", "%s sample %zu: %.7f after the first, source %.7f", K, j, (all[j].dts - all[0].dts) / (double)ts, src - base);
    STOP(fabs(all[j].cto / (double)ts - (flat && !all[0].cto ? 0 : y.cto) / (double)t.timescale) <= 2 * tick, "dash/composition-offset", "%s sample %zu: %.7f source %.7f", K, j, all[j].cto / (double)ts, y.cto / (double)t.timescale);
  }
  delta = all.size() ? (all[0].dts + all[0].cto) / (double)ts - t.sec(t.s[n0].cts()) - t.delay / (double)m.timescale : 0;
  return true;
#undef STOP
}
static bool check_all(Ctx& c, const Conf& f, const std::vector<const Movie*>& ms, std::vector<Set>& sets, const std::vector<uint64_t>& bws) {
  const Movie& m = *ms[0]; if (sets.size() != m.t.size()) { c.fail("dash/adaptation-sets", fmt("%zu sets for %zu tracks", sets.size(), m.t.size())); return false; }
  bool hasv = false; double vstart = 0; for (auto& t : m.t) if (t.video) { hasv = true; vstart = t.sec(t.s[0].cts()); }
  std::vector<double> delta;
  for (size_t i = 0; i < sets.size(); i++) {
    Set& s = sets[i]; size_t ti = m.t.size(); for (size_t k = 0; k < m.t.size(); k++) if (m.t[k].video == s.video) ti = k; if (ti == m.t.size()) { c.fail("dash/track-kind", fmt("set %zu is %s", i, s.video ? "video" : "audio")); return false; }
    size_t nr = s.video ? bws.size() : 1; if (s.r.size() != nr) { c.fail("dash/representations", fmt("%s: %zu, want %zu", s.video ? "video" : "audio", s.r.size(), nr)); return false; }
    for (auto& q : s.r) {
      size_t mi = 0; if (s.video) { while (mi < bws.size() && bws[mi] * 1000 != q.bw) mi++; if (mi == bws.size()) { c.fail("dash/bandwidth", fmt("video bandwidth %llu", ll(q.bw))); return false; } } else VCHECK(c, q.bw == 96000, "dash/bandwidth", "audio bandwidth %llu", ll(q.bw));
      const MTrack& t = ms[mi]->t[ti]; uint32_t id; if (!check_init(c, f, s, q, t, id)) return false; std::vector<ref::FS> all; std::vector<size_t> nth; double d = 0;
      if (!check_frags(c, f, s, q, id, all, nth) || !check_samples(c, f, *ms[mi], s, t, all, nth, hasv, vstart, d)) return false; delta.push_back(d);
      c.feature(fmt("%s %zu %u %llu", s.video ? "v" : "a", q.file.size(), t.timescale, ll(t.s[0].cts())));
    }
  }
  for (size_t i = 1; i < delta.size(); i++) { c.count("av_pairs"); VCHECK(c, fabs(delta[0] - delta[i]) < 0.0005, "dash/av-sync", "two streams drift apart by %.7f s", delta[0] - delta[i]); }
  return !c.failed;
}
static Opt dash_opt(Ctx& c) { Opt o; o.seconds = 0.4 + c.rng.below(100) / 10.0; o.delay = c.rng.chance(1, 4); unsigned k = (unsigned)c.rng.below(8); o.audio = k != 0; o.video = k != 1; o.vsize = c.rng.chance(1, 2) ? 100 : 600; o.asize = 100; o.vfr = c.rng.chance(1, 4); if (c.rng.chance(1, 25)) { slowly(c.rng, o); c.count("long_movies"); } return o; }

// one movie, one bitrate, everything (M08) ------------------------------------------------------------
static void dash(Ctx& c) {
  Opt o = dash_opt(c); { Rng q = c.rng; if (q.chance(1, 40) && o.seconds < 20) { o.vsize = 120000; o.asize = 1200; c.count("large_pictures"); } }
  Conf f; Movie m = make_movie(c.rng, o); f.in = tmpdir(c, "in"); f.out = tmpdir(c, "out"); Clean clean{f.in, f.out}; save(f.in + "/a.mp4", m.file);
  uint64_t bw = 100 + c.rng.below(4000); std::vector<std::string> a = {"-k:dash", "-i:" + f.in + "/a.mp4", "-s:0", "-e:0", fmt("-b:%d", (int)bw), "-o:" + f.out}; options(c, f, a); describe(c, m);
  std::vector<Set> sets; uint64_t mdur; if (run(c, f, a, sets, mdur)) check_all(c, f, {&m}, sets, {bw});
}

// several bitrates and what the manifests say of them (M09) -----------------------------------------
static std::string hexs(const Bytes& b);
static std::string lower(std::string s);
static void check_mpd(Ctx& c, const std::vector<const Movie*>& ms, const std::vector<uint64_t>& bws, const std::vector<Set>& sets) {
  std::set<std::string> reps; for (auto& s : sets) {
    unsigned mw = 0, mh = 0; for (size_t i = 0; i < s.r.size(); i++) {
      VCHECK(c, reps.insert(s.r[i].id).second, "mpd/representation-id", "%s is used twice in the period", s.r[i].id.c_str()); size_t k = 0; if (s.video) while (k < bws.size() && bws[k] * 1000 != s.r[i].bw) k++; VREQ(c, k < bws.size(), "mpd/bandwidth", "%llu", ll(s.r[i].bw)); const MTrack* t = 0; for (auto& y : ms[k]->t) if (y.video == s.video) t = &y; const ref::Xml& e = *s.rx[i]; c.count("representations");
      std::string cd = lower(e.has("codecs") ? e.at("codecs") : s.codecs), w = s.video ? fmt("avc1.%02x%02x%02x", t->sps[1], t->sps[2], t->sps[3]) : fmt("mp4a.40.%d", t->aot); VCHECK(c, cd == w, "mpd/codecs", "%s, want %s", cd.c_str(), w.c_str());
      if (s.video) {
        VCHECK(c, e.at("width") == fmt("%u", t->w) && e.at("height") == fmt("%u", t->h), "mpd/size", "%sx%s want %ux%u", e.at("width").c_str(), e.at("height").c_str(), t->w, t->h); mw = std::max(mw, t->w); mh = std::max(mh, t->h);
        if (e.has("frameRate")) { unsigned a = 0, b = 1; int n = sscanf(e.at("frameRate").c_str(), "%u/%u", &a, &b); bool same = true; for (auto& y : t->s) same &= y.dur == t->s[0].dur; double fr = (double)t->timescale / t->s[0].dur; if (!same || n < 1 || !b || fabs(a / (double)b - fr) > 0.05) c.finding(e.at("frameRate") == "25" ? "mpd/frame-rate-25" : "mpd/frame-rate", fmt("frameRate=\"%s\", the source has %.3f%s", e.at("frameRate").c_str(), fr, same ? "" : ", variable")); }
        if (e.has("sar")) { const Sps& q = t->sps_f; bool sq = !q.vui || !q.ari || q.idc == 0 || q.idc == 1 || (q.idc == 255 && q.sarw == q.sarh); if (!(sq && e.at("sar") == "1:1")) c.finding(e.at("sar") == "1:1" ? "mpd/sar-1:1" : "mpd/sar", fmt("sar=\"%s\", aspect_ratio_idc %u %u:%u", e.at("sar").c_str(), q.idc, q.sarw, q.sarh)); }
        if (e.has("startWithSAP")) VCHECK(c, e.at("startWithSAP") == "1", "mpd/sap", "%s", e.at("startWithSAP").c_str());
      } else VCHECK(c, e.at("audioSamplingRate") == fmt("%d", AAC_RATES[t->rate_idx]), "mpd/sampling-rate", "%s want %d", e.at("audioSamplingRate").c_str(), AAC_RATES[t->rate_idx]);
    }
    if (s.video) VCHECK(c, s.maxw == mw && s.maxh == mh, "mpd/max-size", "%ux%u, want %ux%u", s.maxw, s.maxh, mw, mh);
  }
}
static void check_ism(Ctx& c, const Conf& f, const std::vector<const Movie*>& ms, const std::vector<uint64_t>& bws, const std::vector<Set>& sets, uint64_t mdur) {
  ref::Xml x; Bytes d = load(f.out + "/index.ism"); std::string e = ref::xml(d, x); VREQ(c, e.empty() && x.name == "SmoothStreamingMedia", "ism/xml", "%s %s", e.c_str(), x.name.c_str()); VCHECK(c, x.at("Duration") == fmt("%llu", ll(mdur)), "ism/duration", "%s, the MPD says %llu", x.at("Duration").c_str(), ll(mdur)); auto si = x.all("StreamIndex"); VREQ(c, si.size() == sets.size(), "ism/streams", "%zu, the MPD has %zu", si.size(), sets.size());
  std::set<std::string> names; for (size_t i = 0; i < si.size(); i++) {
    const ref::Xml& q = *si[i]; const Set& s = sets[i]; VREQ(c, q.at("Type") == (s.video ? "video" : "audio"), "ism/type", "%s", q.at("Type").c_str()); VCHECK(c, names.insert(q.at("Name")).second, "ism/name", "%s twice", q.at("Name").c_str()); auto ck = q.all("c"); auto ql = q.all("QualityLevel"); c.count("ism_streams");
    VCHECK(c, q.at("Chunks") == fmt("%zu", ck.size()), "ism/chunks", "Chunks=%s, %zu present", q.at("Chunks").c_str(), ck.size()); VCHECK(c, q.at("QualityLevels") == fmt("%zu", ql.size()), "ism/levels", "QualityLevels=%s, %zu present", q.at("QualityLevels").c_str(), ql.size()); VREQ(c, ck.size() == s.t.size(), "ism/timeline", "%zu chunks, the MPD has %zu", ck.size(), s.t.size()); VREQ(c, ql.size() == s.r.size(), "ism/levels", "%zu, the MPD has %zu", ql.size(), s.r.size());
    uint64_t at = 0; for (size_t k = 0; k < ck.size(); k++) { if (ck[k]->has("t")) at = strtoull(ck[k]->at("t").c_str(), 0, 10); uint64_t dd = strtoull(ck[k]->at("d").c_str(), 0, 10); VREQ(c, at == s.t[k] && dd == s.d[k], "ism/timeline", "chunk %zu at %llu for %llu, the MPD says %llu for %llu", k, ll(at), ll(dd), ll(s.t[k]), ll(s.d[k])); for (auto* h : ck[k]->all("h")) VCHECK(c, h->at("c") == fmt("%llu", ll(at)) && h->at("p").size(), "ism/hint", "%s", h->at("c").c_str()); VCHECK(c, ck[k]->all("h").size() == s.r.size(), "ism/hints", "%zu source paths for %zu bitrates", ck[k]->all("h").size(), s.r.size()); at += dd; }
    std::set<std::string> idx; for (size_t k = 0; k < ql.size(); k++) {
      const ref::Xml& l = *ql[k]; VCHECK(c, idx.insert(l.at("Index")).second, "ism/index", "%s twice", l.at("Index").c_str()); uint64_t br = strtoull(l.at("Bitrate").c_str(), 0, 10); size_t v = 0; if (s.video) while (v < bws.size() && bws[v] * 1000 != br) v++; VREQ(c, v < bws.size() && (s.video || br == 96000), "ism/bitrate", "%llu", ll(br)); const MTrack* t = 0; for (auto& y : ms[v]->t) if (y.video == s.video) t = &y; VCHECK(c, br == s.r[k].bw, "ism/bitrate", "%llu, the MPD has %llu", ll(br), ll(s.r[k].bw));
      if (s.video) { Bytes w; u32(w, 1); app(w, t->sps); u32(w, 1); app(w, t->pps); VCHECK(c, lower(l.at("CodecPrivateData")) == vh::hex(w.data(), w.size(), 4096), "ism/codec-private-data", "%s want %s", l.at("CodecPrivateData").c_str(), vh::hex(w.data(), w.size(), 4096).c_str()); VCHECK(c, l.at("MaxWidth") == fmt("%u", t->w) && l.at("MaxHeight") == fmt("%u", t->h), "ism/size", "%sx%s want %ux%u", l.at("MaxWidth").c_str(), l.at("MaxHeight").c_str(), t->w, t->h); VCHECK(c, l.at("FourCC") == "AVC1", "ism/fourcc", "%s", l.at("FourCC").c_str()); }
      else VCHECK(c, l.at("SamplingRate") == fmt("%d", AAC_RATES[t->rate_idx]) && l.at("Channels") == fmt("%d", t->chan), "ism/audio", "%s Hz %s channels want %d %d", l.at("SamplingRate").c_str(), l.at("Channels").c_str(), AAC_RATES[t->rate_idx], t->chan); if (!s.video) VCHECK(c, l.at("BitsPerSample") == "16", "ism/bits", "BitsPerSample=%s", l.at("BitsPerSample").c_str());
      for (size_t z = 0; z < s.t.size(); z++) { std::string n = subst(subst(q.at("Url"), "{bitrate}", l.at("Bitrate")), "{start time}", fmt("%llu", ll(s.t[z]))); VCHECK(c, n == s.r[k].file[z], "ism/url", "%s, the MPD names %s", n.c_str(), s.r[k].file[z].c_str()); }
    }
  }
}
static void manifest(Ctx& c) {
  Conf f; Opt o = dash_opt(c); if (o.seconds > 5) o.seconds -= 5; o.vsize = 60; std::vector<Movie> mv; mv.push_back(make_movie(c.rng, o)); bool hasv = false; for (auto& t : mv[0].t) hasv |= t.video; unsigned n = hasv ? 1 + (unsigned)c.rng.below(4) : 1; for (unsigned i = 1; i < n; i++) mv.push_back(variant(c.rng, mv[0], 20 + (unsigned)c.rng.below(100)));
  static const char* K[] = {"dash", "ssf", "ssfx"}; const char* kind = K[c.rng.below(3)]; f.in = tmpdir(c, "in"); f.out = tmpdir(c, "out"); Clean clean{f.in, f.out}; std::set<uint64_t> bs; while (bs.size() < n) bs.insert(50 + c.rng.below(6000)); std::vector<uint64_t> bws(bs.begin(), bs.end()); for (unsigned i = 0; i < n; i++) std::swap(bws[i], bws[i + c.rng.below(n - i)]);
  std::vector<std::string> a = {fmt("-k:%s", kind), "-i:" + f.in + "/0.mp4", "-s:0", "-e:0", fmt("-b:%d", (int)bws[0])}; for (unsigned i = 0; i < n; i++) { save(f.in + fmt("/%u.mp4", i), mv[i].file); if (i) { a.push_back("-j:" + f.in + fmt("/%u.mp4", i)); a.push_back(fmt("-b:%d", (int)bws[i])); } } a.push_back("-o:" + f.out); options(c, f, a); describe(c, mv[0]);
  std::vector<Set> sets; uint64_t mdur; if (!run(c, f, a, sets, mdur, false, kind)) return; std::vector<const Movie*> ms; for (auto& x : mv) ms.push_back(&x); c.feature(fmt("%s %u %zu %u", kind, n, sets.size(), mv[0].t[0].timescale));
  if (sets.size() != mv[0].t.size()) { c.fail("dash/adaptation-sets", fmt("%zu", sets.size())); return; } for (auto& s : sets) VREQ(c, s.r.size() == (s.video ? n : 1), "dash/representations", "%zu", s.r.size());
  ref::Xml x; ref::xml(load(f.out + "/index.mpd"), x); size_t k = 0; for (auto* as : x.find("Period")->all("AdaptationSet")) { auto r = as->all("Representation"); for (size_t i = 0; i < r.size(); i++) sets[k].rx[i] = r[i]; k++; }
  if (strcmp(kind, "ssfx") && !check_all(c, f, ms, sets, bws)) return; check_mpd(c, ms, bws, sets); if (strcmp(kind, "dash")) check_ism(c, f, ms, bws, sets, mdur);
}

// encryption (M12) -----------------------------------------------------------------------------------
static std::string hexs(const Bytes& b) { return vh::hex(b.data(), b.size()); }
static Bytes unb64(std::string s, bool& ok) {
  Bytes o; uint32_t v = 0; int n = 0; ok = true; size_t pad = 0; for (char ch : s) { const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; if (ch == '=') { pad++; continue; } const char* p = ch ? strchr(T, ch) : 0; if (!p || pad) { ok = false; return o; } v = v << 6 | (uint32_t)(p - T); n++; if (n == 4) { u24(o, v); v = 0; n = 0; } }
  if (n == 1 || pad > 2) ok = false; if (n == 2) u8(o, v >> 4); if (n == 3) { u8(o, v >> 10); u8(o, v >> 2); } return o;
}
static std::string b64(const Bytes& b) { const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string s; for (size_t i = 0; i < b.size(); i += 3) { uint32_t v = b[i] << 16 | (i + 1 < b.size() ? b[i + 1] << 8 : 0) | (i + 2 < b.size() ? b[i + 2] : 0); s += T[v >> 18]; s += T[v >> 12 & 63]; s += i + 1 < b.size() ? T[v >> 6 & 63] : '='; s += i + 2 < b.size() ? T[v & 63] : '='; } return s; }
static const unsigned char SYS_PR[16] = {0x9A, 0x04, 0xF0, 0x79, 0x98, 0x40, 0x42, 0x86, 0xAB, 0x92, 0xE6, 0x5B, 0xE0, 0x88, 0x5F, 0x95}, SYS_WV[16] = {0xED, 0xEF, 0x8B, 0xA9, 0x79, 0xD6, 0x4A, 0xCE, 0xA3, 0xC8, 0x27, 0xDC, 0xD5, 0x1D, 0x21, 0xED}, SYS_CK[16] = {0x10, 0x77, 0xEF, 0xEC, 0xC0, 0xB2, 0x4D, 0x02, 0xAC, 0xE3, 0x3C, 0x1E, 0x52, 0xE2, 0xFB, 0x4B};
struct Pssh { int v; Bytes sys, data; std::vector<Bytes> kid; };
static std::string read_pssh(ref::Rd r, Pssh& p) { p.v = r.u8(); r.u24(); p.sys = r.bytes(16); if (p.v) for (uint32_t n = r.u32(); n && r.ok; n--) p.kid.push_back(r.bytes(16)); p.data = r.bytes(r.u32()); return r.ok && !r.left() ? "" : "pssh has the wrong size"; }
static std::string uuid(const Bytes& k) { std::string h = hexs(k); return h.substr(0, 8) + "-" + h.substr(8, 4) + "-" + h.substr(12, 4) + "-" + h.substr(16, 4) + "-" + h.substr(20); }
static std::string lower(std::string s) { for (auto& c : s) c = (char)tolower((unsigned char)c); return s; }
static std::string utf16(const Bytes& b, size_t o) { std::string s; for (; o + 1 < b.size(); o += 2) { if (b[o + 1]) return ""; s += (char)b[o]; } return s; }
static void check_pro(Ctx& c, const Conf& f, const Bytes& d, const std::string& url) {   // PlayReady object
  auto le = [&](size_t o, int n) { uint32_t v = 0; for (int i = 0; i < n; i++) v |= (o + i < d.size() ? d[o + i] : 0) << (8 * i); return v; };
  VREQ(c, d.size() >= 10 && le(0, 4) == d.size(), "cenc/playready-length", "PlayReady object says %u bytes, %zu present", le(0, 4), d.size()); VCHECK(c, le(4, 2) == 1 && le(6, 2) == 1, "cenc/playready-records", "%u records, first of type %u", le(4, 2), le(6, 2)); VCHECK(c, le(8, 2) == d.size() - 10, "cenc/playready-length", "record says %u bytes, %zu present", le(8, 2), d.size() - 10);
  std::string h = utf16(d, 10); ref::Xml x; size_t i = 0; std::string e = ref::xml_parse(h, i, x); VREQ(c, e.empty() && x.name == "WRMHEADER", "cenc/playready-header", "%s: %s", e.c_str(), vh::esc(h.substr(0, 100)).c_str());
  const ref::Xml* dt = x.find("DATA"); VREQ(c, dt && dt->find("KID") && dt->find("CHECKSUM") && dt->find("LA_URL"), "cenc/playready-header", "no KID, CHECKSUM or LA_URL");
  Bytes g = f.kid; std::reverse(g.begin(), g.begin() + 4); std::swap(g[4], g[5]); std::swap(g[6], g[7]); VCHECK(c, dt->find("KID")->text == b64(g), "cenc/playready-kid", "'%s' want '%s'", vh::esc(dt->find("KID")->text).c_str(), b64(g).c_str());
  aes_encrypt_ctx cx[1]; aes_encrypt_key(f.key.data(), 16, cx); unsigned char k[16]; aes_ecb_encrypt(g.data(), k, 16, cx); std::string cs = b64(Bytes(k, k + 8)); VCHECK(c, dt->find("CHECKSUM")->text == cs, "cenc/playready-checksum", "'%s' want '%s'", vh::esc(dt->find("CHECKSUM")->text).c_str(), cs.c_str()); VCHECK(c, dt->find("LA_URL")->text == url, "cenc/playready-url", "%s", dt->find("LA_URL")->text.c_str());
}
static void cenc(Ctx& c) {
  Conf f; Opt o = dash_opt(c); if (c.rng.coin()) { o.vsize = 30; o.asize = 40; } Movie m = make_movie(c.rng, o); f.in = tmpdir(c, "in"); f.out = tmpdir(c, "out"); Clean clean{f.in, f.out}; save(f.in + "/a.mp4", m.file);
  uint64_t bw = 100 + c.rng.below(4000); std::vector<std::string> a = {"-k:dash", "-i:" + f.in + "/a.mp4", "-s:0", "-e:0", fmt("-b:%d", (int)bw), "-o:" + f.out}; options(c, f, a); describe(c, m);
  f.enc = true; f.key.resize(16); f.kid.resize(16); c.rng.fill(f.key.data(), 16); c.rng.fill(f.kid.data(), 16); if (c.rng.chance(1, 4)) f.key[0] = f.kid[0] = 0; a.push_back("--key:" + hexs(f.key)); a.push_back("--kid:" + hexs(f.kid));
  bool ck = c.rng.coin(), pr = c.rng.coin(), wv = c.rng.coin(); std::string url = "http://lic.example/rights?x=1"; Bytes wvb; if (c.rng.chance(1, 4)) { f.aenc = false; a.push_back("--audio_encrypted:false"); } if (c.rng.chance(1, 3)) a.push_back(c.rng.coin() ? "--senc_flags:0" : "--senc_flags:2");
  if (ck) a.push_back("--clearkey:true"); if (pr) a.push_back("--playreadyurl:" + url); if (wv) { wvb.resize(1 + c.rng.below(200)); c.rng.fill(wvb.data(), wvb.size()); a.push_back("--widevinebody:" + b64(wvb)); } f.npssh = ck + pr + wv;
  std::vector<Set> sets; uint64_t mdur; if (!run(c, f, a, sets, mdur, true) || !check_all(c, f, {&m}, sets, {bw})) return;
  // what the manifest and the initialisation segment say
  ref::Xml x; ref::xml(load(f.out + "/index.mpd"), x);
  auto judge = [&](const Pssh& p) {
    c.count("pssh");
    if (p.sys == Bytes(SYS_CK, SYS_CK + 16)) { VCHECK(c, ck && p.v == 1 && p.kid.size() == 1 && p.kid[0] == f.kid && p.data.empty(), "cenc/clearkey-pssh", "version %d, %zu ids, %zu bytes", p.v, p.kid.size(), p.data.size()); }
    else if (p.sys == Bytes(SYS_PR, SYS_PR + 16)) { VREQ(c, pr && p.v == 0, "cenc/playready-pssh", "unexpected"); check_pro(c, f, p.data, url); }
    else if (p.sys == Bytes(SYS_WV, SYS_WV + 16)) VCHECK(c, wv && p.v == 0 && p.data == wvb, "cenc/widevine-pssh", "version %d, %zu bytes want %zu", p.v, p.data.size(), wvb.size());
    else c.fail("cenc/pssh-system", hexs(p.sys));
  };
  const ref::Xml* per = x.find("Period"); size_t si = 0;
  for (auto* as : per->all("AdaptationSet")) {
    Set& s = sets[si++]; bool enc = s.video || f.aenc; auto cps = as->all("ContentProtection"); std::set<std::string> ids; for (auto* p : cps) ids.insert(lower(p->at("schemeIdUri")));
    std::set<std::string> want; if (enc) { if (ck) want.insert("urn:uuid:" + uuid(Bytes(SYS_CK, SYS_CK + 16))); if (pr) { want.insert("urn:uuid:" + uuid(Bytes(SYS_PR, SYS_PR + 16))); want.insert("urn:mpeg:dash:mp4protection:2011"); } if (wv) want.insert("urn:uuid:" + uuid(Bytes(SYS_WV, SYS_WV + 16))); }
    std::set<std::string> lw; for (auto& w : want) lw.insert(lower(w)); VCHECK(c, ids == lw, "cenc/manifest-systems", "%s: %zu protection elements, want %zu", s.video ? "video" : "audio", ids.size(), lw.size());
    for (auto* p : cps) {
      if (p->has("cenc:default_KID")) { c.count("manifest_kid"); VCHECK(c, lower(p->at("cenc:default_KID")) == lower(uuid(f.kid)), "cenc/manifest-kid", "%s want %s", p->at("cenc:default_KID").c_str(), uuid(f.kid).c_str()); }
      if (const ref::Xml* q = p->find("cenc:pssh")) { bool ok; Bytes b = unb64(q->text, ok); VREQ(c, ok, "cenc/manifest-base64", "%s", vh::esc(q->text).c_str()); ref::File bx; bx.d = b; VREQ(c, bx.parse_mem() && bx.root.kids.size() == 1 && bx.root.kids[0].type == "pssh", "cenc/manifest-pssh", "not one pssh box: %s", bx.err.c_str()); Pssh z; std::string e = read_pssh(bx.root.kids[0].rd(), z); VREQ(c, e.empty(), "cenc/manifest-pssh", "%s", e.c_str()); std::string u = "urn:uuid:" + uuid(z.sys); VCHECK(c, lower(u) == lower(p->at("schemeIdUri")), "cenc/manifest-pssh", "system %s under %s", u.c_str(), p->at("schemeIdUri").c_str()); judge(z); }
      if (const ref::Xml* q = p->find("mspr:pro")) { bool ok; Bytes b = unb64(q->text, ok); VREQ(c, ok, "cenc/manifest-base64", "%s", vh::esc(q->text.substr(0, 200)).c_str()); check_pro(c, f, b, url); }
    }
    if (enc) for (auto& q : s.r) { ref::File fi; fi.load(f.out + "/" + q.init); for (auto* b : fi.root.find("moov")->all("pssh")) { Pssh z; std::string e = read_pssh(b->rd(), z); VREQ(c, e.empty(), "cenc/init-pssh", "%s", e.c_str()); judge(z); } }
  }
  if (ck) { Bytes j = load(f.out + "/json.key"); std::string s(j.begin(), j.end()); std::string kb = b64(f.key), ib = b64(f.kid); while (kb.size() && kb.back() == '=') kb.pop_back(); while (ib.size() && ib.back() == '=') ib.pop_back(); std::string t; for (char ch : s) if (!isspace((unsigned char)ch)) t += ch; std::string w = "{\"keys\":[{\"kid\":\"" + ib + "\",\"k\":\"" + kb + "\"}]}"; VCHECK(c, t == w, "cenc/json", "%s want %s", vh::esc(s).c_str(), w.c_str()); }
}
// the AES the product is built with here and the decryption above (M12)
static void aes(Ctx& c) {
  if (c.index == 0) { Bytes k, p; for (int i = 0; i < 16; i++) { k.push_back(i); p.push_back(i * 17); } aes_encrypt_ctx cx[1]; aes_encrypt_key(k.data(), 16, cx); unsigned char o[16]; aes_ecb_encrypt(p.data(), o, 16, cx); VCHECK(c, vh::hex(o, 16) == "69c4e0d86a7b0430d8cdb78070b4c55a", "aes/fips197", "%s", vh::hex(o, 16).c_str()); }
  // the counter functions of the product against arithmetic
  unsigned char b[16], g[16]; c.rng.fill(b, 16); if (c.rng.coin()) for (int i = 15; i > 15 - (int)c.rng.below(9); i--) b[i] = 0xff; if (c.rng.chance(1, 4)) for (int i = 0; i < 8; i++) b[i] = b[i] | (c.rng.coin() ? 0xff : 0); memcpy(g, b, 16);
  auto be = [](const unsigned char* p) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | p[i]; return v; }; uint64_t hi = be(b), lo = be(b + 8);
  unsigned char q[8]; memcpy(q, b, 8); mg_counter8(q); VCHECK(c, be(q) == hi + 1, "aes/counter8", "%016llx became %016llx", ll(hi), ll(be(q))); c.feature(fmt("%d", ~lo ? __builtin_ctzll(~lo) : 64));
  mg_counter(g); uint64_t h2 = be(g), l2 = be(g + 8); VCHECK(c, l2 == lo + 1 && (h2 == hi || lo == ~0ull), "aes/counter", "%016llx %016llx became %016llx %016llx", ll(hi), ll(lo), ll(h2), ll(l2)); c.count("counters");
}

#include "media_parts.h"
// several inputs, each from its own start time on, joined in one presentation
static void joined(Ctx& c, size_t np, int ends) {
  Conf f; Opt o = some(c); o.audio2 = false; if (ends) o.audio = o.video = true, o.delay = false, o.seconds = 7, o.slow = 0, o.gop = 0; std::vector<Movie> mv; mv.push_back(make_movie(c.rng, o)); for (size_t i = 1; i < np; i++) { Movie v = sibling(c, mv[0], o); mv.push_back(v); }
  f.in = tmpdir(c, "in"); f.out = tmpdir(c, "out"); Clean clean{f.in, f.out}; std::vector<std::string> a = {"-k:dash"}; std::vector<Part> ps; uint64_t bw = 200 + c.rng.below(5000); 
  for (size_t i = 0; i < np; i++) {
    save(f.in + fmt("/%zu.mp4", i), mv[i].file); Part p{&mv[i], 0, 0}; uint64_t L = (uint64_t)(length(mv[i]) * 1e7); if (!ends && c.rng.coin()) p.s = c.rng.below(L); if (ends && !i) p.e = L / 2 + L / 7; ps.push_back(p);
    a.push_back("-i:" + f.in + fmt("/%zu.mp4", i)); a.push_back(fmt("-s:%llu", ll(p.s))); a.push_back(fmt("-e:%llu", ll(p.e))); a.push_back(fmt("-b:%llu", ll(bw))); describe(c, mv[i]);
  }
  a.push_back("-o:" + f.out); options(c, f, a); if (!ends && c.rng.chance(1, 4)) { f.enc = true; f.key.resize(16); f.kid.resize(16); c.rng.fill(f.key.data(), 16); c.rng.fill(f.kid.data(), 16); a.push_back("--key:" + hexs(f.key)); a.push_back("--kid:" + hexs(f.kid)); }
  for (auto& p : ps) if (empty_part(p)) { c.count("empty_part"); return; }
  std::vector<Set> sets; uint64_t mdur; if (!run(c, f, a, sets, mdur, f.enc)) return; VREQ(c, sets.size() == mv[0].t.size(), "djoin/adaptation-sets", "%zu", sets.size()); std::vector<std::vector<double>> dl(np), dh(np);
  for (auto& s : sets) {
    const char* K = s.video ? "video" : "audio"; uint64_t ts = s.video ? f.vts : f.ats; uint32_t id; size_t ti = 0; while (ti < mv[0].t.size() && mv[0].t[ti].video != s.video) ti++; VREQ(c, ti < mv[0].t.size(), "djoin/track-kind", "%s", K);
    VREQ(c, s.r.size() == 1, "djoin/representations", "%s %zu", K, s.r.size()); if (!check_init(c, f, s, s.r[0], mv[0].t[ti], id)) return; std::vector<ref::FS> all; std::vector<size_t> nth; if (!check_frags(c, f, s, s.r[0], id, all, nth, np == 1 && !ends)) return;
    size_t at = 0;
    for (size_t p = 0; p < np; p++) {
      std::vector<size_t> lo, hi; starts(*ps[p].m, ps[p].s, lo, hi); const MTrack& t = ps[p].m->t[ti]; size_t x = lo[ti], first = at; if (at < all.size()) while (x < hi[ti] && t.s[x].data != all[at].data) x++;
      double l = 1e18, h = -1e18, base = 0;
      for (size_t k = x; k < t.s.size(); k++) {
        if (ps[p].e && hns(t.s[k].cts(), t.timescale) + hns(t.delay, ps[p].m->timescale) >= ps[p].e) continue;
        VREQ(c, at < all.size(), "djoin/missing", "%s of part %zu: sample %zu of %zu (from %zu)", K, p, k, t.s.size(), x);
        VREQ(c, all[at].data == t.s[k].data, "djoin/bytes", "%s of part %zu: sample %zu of %zu (from %zu..%zu), number %zu of its fragment: %zu bytes, source %zu", K, p, k, t.s.size(), lo[ti], hi[ti], nth[at], all[at].data.size(), t.s[k].data.size());
        if (at - nth[at] < first) { c.count("samples_after_a_join"); at++; continue; }   // in the fragment which began in the part before
        double d = ((double)all[at].dts + all[at].cto) / ts - src(*ps[p].m, t, k); if (nth[at]) VREQ(c, fabs(d - base) <= (3 + nth[at]) * (1.0 / ts + 1e-7), "djoin/drift", "%s of part %zu: sample %zu is moved by %.7f s, the start of its fragment by %.7f", K, p, k, d, base); else { base = d; l = std::min(l, d); h = std::max(h, d); }
        at++;
      }
      if (h >= l) { VCHECK(c, h - l <= 0.0005, "djoin/drift", "%s of part %zu: moved by %.7f to %.7f s", K, p, l, h); dl[p].push_back(l); dh[p].push_back(h); }
    }
    VREQ(c, at == all.size(), "djoin/left-over", "%s: %zu of %zu", K, at, all.size()); c.count("samples", all.size()); c.feature(fmt("%s %zu %zu", K, np, s.r[0].file.size()));
  }
  for (size_t p = 0; p < np; p++) if (dl[p].size() == 2) { c.count("av_pairs"); VCHECK(c, fabs(dh[p][0] - dl[p][1]) <= 0.001 && fabs(dh[p][1] - dl[p][0]) <= 0.001, "djoin/av-sync", "part %zu: one stream is moved by %.7f s, the other one by %.7f", p, dl[p][0], dl[p][1]); }
  static const char* J[] = {"alone", "joins_of_2", "joins_of_3", "joins_of_4"}; c.count(J[np - 1]);
}
static void djoin(Ctx& c) { joined(c, 1 + (size_t)c.rng.below(4), 0); }
// two inputs which are always the same: an end inside of a file, with and without another file after it
static void dend(Ctx& c) { uint64_t n = c.index ? 7 : 4; Ctx k(n, 4711 + n); joined(k, 1 + n % 2, 1); c.feature(n); }
int main(int argc, char** argv) { return vh::run(argc, argv, {{"dash", dash}, {"cenc", cenc}, {"aes", aes}, {"manifest", manifest}, {"djoin", djoin}, {"dend", dend}}); }
