// HLS packaging: the whole program run on generated movies, its transport streams and playlists read back by an independent reader.
#include "media_pkg.h"
#include "tsref.h"
#include "aes.h"
struct Conf { std::string in, out; uint64_t seg = 100000000; bool enc = false; Bytes key; std::vector<uint64_t> bws; };
static const int64_t WRAP = 1ll << 33;
static double diff90(uint64_t a, uint64_t b) { int64_t d = (int64_t)((a - b) & (WRAP - 1)); if (d > WRAP / 2) d -= WRAP; return d / 90000.0; }
static Bytes cbc(const Bytes& key, unsigned seq, const Bytes& in, bool& ok) {
  Bytes o; ok = in.size() && in.size() % 16 == 0; if (!ok) return o; aes_encrypt_ctx cx[1]; aes_encrypt_key(key.data(), 16, cx); unsigned char iv[16] = {0}; for (int i = 0; i < 4; i++) iv[15 - i] = (unsigned char)(seq >> (8 * i)); o.resize(in.size()); aes_cbc_undo(in.data(), o.data(), (int)in.size(), iv, cx); unsigned n = o.back(); if (n < 1 || n > 16) { ok = false; return o; } for (unsigned i = 0; i < n; i++) if (o[o.size() - 1 - i] != n) ok = false; o.resize(o.size() - n); return o;
}
struct Out { tsref::M3u master; std::vector<tsref::M3u> media; std::vector<uint64_t> bw; };
static bool playlists(Ctx& c, const Conf& f, const std::vector<const Movie*>& ms, Out& o) {
#define STOP(cond, key, ...) do { if (!(cond)) { c.fail(key, fmt(__VA_ARGS__)); return false; } } while (0)
  std::string e = tsref::m3u8(load(f.out + "/main.m3u8"), o.master); STOP(e.empty(), "hls/master", "%s", e.c_str()); STOP(o.master.var.size() == f.bws.size(), "hls/master", "%zu variants, want %zu", o.master.var.size(), f.bws.size()); STOP(o.master.seg.empty(), "hls/master", "segments in the master playlist");
  std::set<std::string> want = {"main.m3u8"}, uris; if (f.enc) want.insert("hls3.key"); bool aud = false; for (auto& t : ms[0]->t) aud |= !t.video;
  for (auto& v : o.master.var) {
    uint64_t bw = strtoull(v.a["BANDWIDTH"].c_str(), 0, 10); size_t k = 0; while (k < f.bws.size() && f.bws[k] * 1000 + 96000 != bw) k++; STOP(k < f.bws.size(), "hls/bandwidth", "BANDWIDTH=%llu", ll(bw)); const MTrack* t = nullptr; for (auto& x : ms[k]->t) if (x.video) t = &x; o.bw.push_back(k);
    VCHECK(c, v.a["RESOLUTION"] == fmt("%ux%u", t->w, t->h), "hls/resolution", "%s want %ux%u", v.a["RESOLUTION"].c_str(), t->w, t->h); std::string cd = v.a["CODECS"], w = fmt("avc1.%02x%02x%02x", t->sps[1], t->sps[2], t->sps[3]); for (auto& ch : cd) ch = (char)tolower(ch); VCHECK(c, cd == w + ",mp4a.40.2" || (!aud && cd == w), "hls/codecs", "%s want %s", cd.c_str(), w.c_str());
    STOP(uris.insert(v.uri).second, "hls/variant-address", "%s twice", v.uri.c_str()); want.insert(v.uri); tsref::M3u m; e = tsref::m3u8(load(f.out + "/" + v.uri), m); STOP(e.empty(), "hls/playlist", "%s: %s", v.uri.c_str(), e.c_str()); STOP(m.seg.size(), "hls/playlist", "%s has no segment", v.uri.c_str()); STOP(m.var.empty(), "hls/playlist", "variants in a media playlist");
    STOP(m.end, "hls/endlist", "%s: no EXT-X-ENDLIST", v.uri.c_str()); VCHECK(c, m.target > 0, "hls/target", "%ld", m.target); for (auto& s : m.seg) { VCHECK(c, floor(s.dur + 0.5) <= m.target, "hls/target", "%s: a segment of %.7f s, target duration %ld", v.uri.c_str(), s.dur, m.target); want.insert(s.uri); STOP(uris.insert(s.uri).second, "hls/segment-address", "%s twice", s.uri.c_str()); }
    STOP(f.enc == !m.key.empty(), "hls/key", "%s", m.key.c_str()); if (f.enc) { STOP(m.iv.empty(), "hls/iv", "explicit"); STOP(load(f.out + "/" + m.key) == f.key, "hls/key-file", "%s differs from the key", m.key.c_str()); } o.media.push_back(m); c.count("playlists");
  }
  std::set<std::string> have = ref::files_in(f.out); for (auto& g : want) VCHECK(c, have.count(g), "hls/missing-file", "%s is named but was not written", g.c_str()); for (auto& g : have) VCHECK(c, want.count(g), "hls/extra-file", "%s is written but not named", g.c_str()); return !c.failed;
}
static double off90(uint64_t a, double src) { double x = diff90(a, 0) - src, w = 8589934592.0 / 90000; while (x < -w / 2) x += w; while (x > w / 2) x -= w; return x; } /* how long after src a time stamp is, which wraps */
static bool segments(Ctx& c, const Conf& f, const Movie& m, const tsref::M3u& l) {
  const MTrack *tv = nullptr, *ta = nullptr; for (auto& t : m.t) if (t.video) tv = &t; else if (!ta) ta = &t; double adelay = ta ? ta->delay / (double)m.timescale : 0, vdelay = tv->delay / (double)m.timescale;
  size_t vi = 0, ai = 0; bool astart = false; std::string late; double voff = 0, doff = 0, total = 0; int cc[2] = {0, 0}; double v0 = tv->sec(tv->s[0].cts()); double v1 = 0; for (auto& y : tv->s) v1 = std::max(v1, tv->sec(y.cts() + y.dur));
  for (size_t n = 0; n < l.seg.size(); n++) {
    const char* F = l.seg[n].uri.c_str(); Bytes d = load(f.out + "/" + l.seg[n].uri); if (f.enc) { bool ok; d = cbc(f.key, (unsigned)(l.sequence + n), d, ok); STOP(ok, "hls/decrypt", "%s: not PKCS7 padded AES-CBC", F); c.count("decrypted"); }
    tsref::Ts ts; std::string e = tsref::read_ts(d, ts); STOP(e.empty(), "hls/segment", "%s: %s", F, e.c_str()); c.count("segments"); STOP(ts.st.size() == (ta ? 2u : 1u), "hls/streams", "%s: %zu streams", F, ts.st.size()); tsref::Stream *sv = ts.by_type(0x1b), *sa = ts.by_type(0x0f); STOP(sv && (!!sa == !!ta), "hls/stream-type", "%s", F); STOP(sv->pes.size(), "hls/empty", "%s has no video", F);
    if (n) { VCHECK(c, ts.first_cc[0] == ((cc[0] + 1) & 15) && ts.first_cc[ts.pmt_pid] == ((cc[1] + 1) & 15), "hls/table-continuity", "%s: tables %d %d after %d %d", F, ts.first_cc[0], ts.first_cc[ts.pmt_pid], cc[0], cc[1]); } cc[0] = ts.last_cc[0]; cc[1] = ts.last_cc[ts.pmt_pid]; for (auto& s : ts.st) VCHECK(c, ts.last_cc.count(s.pid) == 0 || (ts.first_cc[s.pid] == 0 && ts.last_cc[s.pid] == 15), "hls/continuity", "%s: PID 0x%x goes from %d to %d", F, s.pid, ts.first_cc[s.pid], ts.last_cc[s.pid]);
    STOP(sv->pes[0].rai, "hls/random-access", "%s: the first picture is not marked", F); bool pcr = false; for (auto& p : (ts.pcr_pid == sv->pid ? sv : sa)->pes) { if (p.pcr_f) { pcr = true; uint64_t x = p.dts_f ? p.dts : p.pts; VCHECK(c, diff90(x, p.pcr / 300) >= -0.0011 && diff90(x, p.pcr / 300) < 1, "hls/pcr", "%s: PCR %llu, DTS %llu", F, ll(p.pcr / 300), ll(x)); } } STOP(pcr, "hls/no-pcr", "%s", F);
    double seg0 = 1e18, seg1 = 0; size_t v_first = vi;
    for (auto& p : sv->pes) {
      STOP(vi < tv->s.size(), "hls/too-much-video", "%s", F); const MSample& y = tv->s[vi]; STOP(p.pts_f, "hls/no-pts", "%s video %zu", F, vi); STOP((p.sid & 0xf0) == 0xe0, "hls/stream-id", "%02x", p.sid);
      std::vector<Bytes> want; want.push_back({0x09, 0xf0}); if (y.sync) { want.push_back(tv->sps); want.push_back(tv->pps); } for (auto& x : y.nals) want.push_back(x); std::vector<Bytes> got = tsref::annexb(p.data); STOP(got.size() == want.size(), "hls/video-units", "%s video %zu: %zu units, want %zu", F, vi, got.size(), want.size()); for (size_t k = 0; k < got.size(); k++) STOP(got[k] == want[k], "hls/video-bytes", "%s video %zu unit %zu: %zu bytes want %zu", F, vi, k, got[k].size(), want[k].size());
      VCHECK(c, p.rai == y.sync, "hls/random-access", "%s video %zu sync %d", F, vi, y.sync); uint64_t dts = p.dts_f ? p.dts : p.pts; if (diff90(p.pts, dts) <= -0.0011 && tv->sec(tv->s[0].cts() - tv->s[0].dts) > 0.2) { if (late.empty()) late = fmt("%s video %zu: PTS is %.5f s before DTS", F, vi, -diff90(p.pts, dts)); } else STOP(diff90(p.pts, dts) > -0.0011, "hls/pts-dts", "%s video %zu: PTS is %.5f s before DTS", F, vi, -diff90(p.pts, dts));
      double o = off90(p.pts, tv->sec(y.cts()) + vdelay); if (!vi) voff = o; STOP(fabs(o - voff) < 0.0022, "hls/video-time", "%s video %zu: PTS is %.5f after the source, the first one %.5f", F, vi, o, voff); double od = off90(dts, tv->sec(y.dts) + vdelay); if (!vi) doff = od; STOP(fabs(od - doff) < 0.0022, "hls/video-dts", "%s video %zu: DTS is %.5f after the source, the first one %.5f", F, vi, od, doff);
      seg0 = std::min(seg0, tv->sec(y.cts())); seg1 = std::max(seg1, tv->sec(y.cts()) + y.dur / (double)tv->timescale); vi++; c.count("video_samples");
    }
    STOP(tv->s[v_first].sync, "hls/segment-start", "%s does not start with a sync sample", F);
    VCHECK(c, fabs(seg1 - seg0 - l.seg[n].dur) < (n + 1 == l.seg.size() ? 0.0011 : 1e-5) + (n + 1 == l.seg.size() ? 4e-7 * tv->s.size() : 0), "hls/extinf", "%s: EXTINF %.7f, its pictures last %.7f", F, l.seg[n].dur, seg1 - seg0); total += l.seg[n].dur;
    if (ta) for (auto& p : sa->pes) {
      STOP(p.pts_f, "hls/no-pts", "%s audio", F); STOP((p.sid & 0xe0) == 0xc0, "hls/stream-id", "%02x", p.sid); std::vector<tsref::Adts> v; e = tsref::adts(p.data, v); STOP(e.empty() && v.size(), "hls/adts", "%s: %s", F, e.c_str());
      for (size_t k = 0; k < v.size(); k++) {
        if (!astart) { astart = true; while (ai < ta->s.size() && ta->sec(ta->s[ai].dts) + adelay < v0 + vdelay - 1e-6) ai++; if (ai < ta->s.size() && ta->s[ai].data != v[k].data && fabs(ta->sec(ta->s[ai].dts) + adelay - v0 - vdelay) < 1e-6) ai++; }
        STOP(ai < ta->s.size(), "hls/too-much-audio", "%s", F); const MSample& y = ta->s[ai]; STOP(v[k].data == y.data, "hls/audio-bytes", "%s audio %zu of %zu: %zu bytes, source %zu", F, ai, ta->s.size(), v[k].data.size(), y.data.size());
        STOP(v[k].profile == ta->aot - 1 && v[k].rate == ta->rate_idx && v[k].chan == (ta->chan == 8 ? 7 : ta->chan) && v[k].prot == 1 && v[k].blocks == 0, "hls/adts-header", "profile %d rate %d channels %d", v[k].profile, v[k].rate, v[k].chan);
        if (!k) { double o = off90(p.pts, ta->sec(y.dts) + adelay); STOP(fabs(o - voff) < 0.0022, "hls/av-sync", "%s audio %zu: PTS is %.5f after the source, the video %.5f", F, ai, o, voff); } ai++; c.count("audio_samples");
      }
    }
  }
  STOP(vi == tv->s.size(), "hls/video-lost", "%zu of %zu samples", vi, tv->s.size()); if (ta && !astart) while (ai < ta->s.size() && ta->sec(ta->s[ai].dts) + adelay < v0 + vdelay - 1e-6) ai++; if (ta) STOP(ai == ta->s.size() || ta->sec(ta->s[ai].dts) + adelay > v1 + vdelay - 1e-4, "hls/audio-lost", "%zu of %zu samples", ai, ta->s.size()); c.feature(fmt("%zu %u %d", l.seg.size(), tv->timescale, ta ? ta->rate_idx : -1)); if (!c.failed) VCHECK(c, late.empty(), "hls/pts-dts-late", "%s", late.c_str()); return !c.failed;
}
#undef STOP
static Opt hls_opt(Ctx& c, bool late = false) { Opt o; o.seconds = 0.4 + c.rng.below(150) / 10.0; o.delay = c.rng.chance(1, 4); o.audio = c.rng.chance(7, 8); unsigned z = (unsigned)c.rng.below(12); o.vsize = z == 0 ? 20000 : z < 6 ? 100 : 800; o.asize = z & 1 ? 300 : 600; if (c.rng.chance(1, 12)) { o.asize = 8182; if (o.seconds > 4) o.seconds = 4; c.count("large_frames"); } if (c.rng.chance(1, 15)) { o.near64k = true; if (o.seconds > 3) o.seconds = 3; c.count("near_64k"); } if (c.rng.chance(1, 25)) { slowly(c.rng, o); o.bframes = late; c.count("long_movies"); } return o; }
static void hls_run(Ctx& c, bool enc) {
  Conf f; Opt o = hls_opt(c, !enc); bool many = !o.slow && c.rng.chance(1, 20); if (many) { o.gop = 1; o.seconds = 11 + c.rng.below(4); o.vsize = 50; o.asize = 40; o.near64k = false; c.count("many_segments"); } Movie m = make_movie(c.rng, o); f.in = tmpdir(c, "in"); f.out = tmpdir(c, "out"); Clean clean{f.in, f.out}; save(f.in + "/a.mp4", m.file); f.bws = {100 + c.rng.below(4000)};
  std::vector<std::string> a = {"-k:hls", "-i:" + f.in + "/a.mp4", "-s:0", "-e:0", fmt("-b:%d", (int)f.bws[0]), "-o:" + f.out}; if (many || c.rng.chance(2, 3)) { f.seg = many ? 250000 + c.rng.below(200000) : 10000000 + c.rng.below(60000000); a.push_back(fmt("--segment:%d", (int)f.seg)); } if (enc) { f.enc = true; f.key.resize(16); c.rng.fill(f.key.data(), 16); a.push_back("--key:" + vh::hex(f.key.data(), 16)); }
  describe(c, m); for (auto& x : a) c.note(x + " "); CliResult r = mg_cli(a); c.count("runs"); if (r.rc) { c.fail("hls/exit-code", fmt("rc=%d %s", r.rc, tail(r).c_str())); return; }
  Out out; if (!playlists(c, f, {&m}, out)) return; for (auto& l : out.media) if (!segments(c, f, m, l)) return;
}
static void playlist(Ctx& c) {   // several bitrates (M11)
  Conf f; Opt o = hls_opt(c); if (o.seconds > 6) o.seconds -= 6; o.vsize = 100; o.asize = 200; std::vector<Movie> mv; mv.push_back(make_movie(c.rng, o)); unsigned n = 1 + (unsigned)c.rng.below(4); for (unsigned i = 1; i < n; i++) mv.push_back(variant(c.rng, mv[0], 20 + (unsigned)c.rng.below(300)));
  f.in = tmpdir(c, "in"); f.out = tmpdir(c, "out"); Clean clean{f.in, f.out}; std::set<uint64_t> bs; while (bs.size() < n) bs.insert(50 + c.rng.below(6000)); f.bws.assign(bs.begin(), bs.end()); for (unsigned i = 0; i < n; i++) std::swap(f.bws[i], f.bws[i + c.rng.below(n - i)]);
  std::vector<std::string> a = {"-k:hls", "-i:" + f.in + "/0.mp4", "-s:0", "-e:0", fmt("-b:%d", (int)f.bws[0])}; for (unsigned i = 0; i < n; i++) { save(f.in + fmt("/%u.mp4", i), mv[i].file); if (i) { a.push_back("-j:" + f.in + fmt("/%u.mp4", i)); a.push_back(fmt("-b:%d", (int)f.bws[i])); } } a.push_back("-o:" + f.out);
  if (c.rng.chance(2, 3)) a.push_back(fmt("--segment:%d", (int)(10000000 + c.rng.below(60000000)))); if (c.rng.chance(1, 4)) { f.enc = true; f.key.resize(16); c.rng.fill(f.key.data(), 16); a.push_back("--key:" + vh::hex(f.key.data(), 16)); }
  describe(c, mv[0]); for (auto& x : a) c.note(x + " "); CliResult r = mg_cli(a); c.count("runs"); if (r.rc) { c.fail("hls/exit-code", fmt("rc=%d %s", r.rc, tail(r).c_str())); return; }
  std::vector<const Movie*> ms; for (auto& x : mv) ms.push_back(&x); Out out; if (!playlists(c, f, ms, out)) return; for (size_t i = 0; i < out.media.size(); i++) if (!segments(c, f, mv[out.bw[i]], out.media[i])) return;
  for (size_t i = 1; i < out.media.size(); i++) { auto &x = out.media[0], &y = out.media[i]; bool same = x.seg.size() == y.seg.size(); for (size_t k = 0; same && k < x.seg.size(); k++) same = fabs(x.seg[k].dur - y.seg[k].dur) < 1e-6; VCHECK(c, same, "hls/variants-aligned", "variant %zu has other segments than the first", i); c.count("aligned_variants"); }
}
static void hls(Ctx& c) { hls_run(c, false); }
static void hlsenc(Ctx& c) { hls_run(c, true); }
int main(int argc, char** argv) { return vh::run(argc, argv, {{"hls", hls}, {"hlsenc", hlsenc}, {"playlist", playlist}}); }
