// Reading transport streams: streams written by an independent writer are turned into MP4 files by the program and read back.
#include "media_pkg.h"
#include "tsgen.h"
#include "memlimit.h"
#include <sstream>
using namespace tsgen;
static Conf conf(Ctx& c, const Movie& m) {
  Rng& r = c.rng; Conf k; int pid = (int)r.range(0x20, 0x1f00); bool len = r.coin(); for (auto& t : m.t) { Es e; e.t = &t; e.pid = pid += (int)r.range(1, 5); e.type = t.video ? 0x1b : 0x0f; e.sid = t.video ? 0xe0 : 0xc0 + (int)r.below(8); e.group = t.video ? 1 : 1 + (unsigned)r.below(8); e.length = len; k.es.push_back(e); } if (r.coin()) std::swap(k.es[0], k.es.back());
  k.base = r.chance(1, 6) ? 0 : r.chance(1, 3) ? 90000ull * r.below(70000) : 126000 + r.below(90000 * 20); k.prog = (int)r.range(1, 65535); do k.pmt = (int)r.range(0x20, 0x1ffe); while (k.pmt >= k.es[0].pid - 60 && k.pmt <= pid + 60); k.pcr_pid = -1; for (auto& e : k.es) if (e.t->video) k.pcr_pid = e.pid;
  k.aud = r.chance(3, 4); k.sc3 = r.coin(); k.trailing = r.chance(1, 4); k.always_dts = r.coin(); k.private_data = r.chance(1, 5); k.splice = r.chance(1, 4); k.desc = r.coin(); k.null_packets = r.coin(); k.other_pid = r.chance(1, 3); k.network = r.chance(1, 5); k.stuffing = r.chance(1, 3) ? (unsigned)r.below(20) : 0; k.tables = (unsigned)r.range(5, 200); k.adapt_only = r.chance(1, 5); k.escr = r.chance(1, 5); k.sps_once = r.chance(1, 4); k.pes_crc = r.chance(1, 5); k.errors = r.chance(1, 5); if (r.chance(1, 5)) k.pmt_desc = (unsigned)r.range(1, 12); if (r.chance(1, 8)) k.base = (1ull << 33) - r.below(90000 * 3); for (auto& e : k.es) if (!e.t->video) e.crc = r.chance(1, 4), e.nopts = r.chance(1, 4); return k;
}
static std::string words(const Conf& k) { std::string s = fmt("base=%llu pmt=%d aud=%d sc3=%d trailing=%d dts=%d priv=%d splice=%d desc=%d null=%d other=%d net=%d stuff=%u tables=%u adapt=%d escr=%d once=%d pcrc=%d err=%d pmtd=%u; ", ll(k.base), k.pmt, k.aud, k.sc3, k.trailing, k.always_dts, k.private_data, k.splice, k.desc, k.null_packets, k.other_pid, k.network, k.stuffing, k.tables, k.adapt_only, k.escr, k.sps_once, k.pes_crc, k.errors, k.pmt_desc); for (auto& e : k.es) s += fmt("pid %d type %d group %u len %d crc %d nopts %d; ", e.pid, e.type, e.group, e.length, e.crc, e.nopts); return s; }
static void judge(Ctx& c, const Movie& m, const Conf& k, const std::string& file) {
  ref::File f; VREQ(c, f.load(file), "boxes", "%s", f.err.c_str()); ref::Mov o; std::string e = ref::read_moov(f, o); VREQ(c, e.empty(), "tables", "%s", e.c_str()); VREQ(c, o.t.size() == m.t.size(), "tracks", "%zu want %zu", o.t.size(), m.t.size()); c.count("movies"); double off0 = 0; bool have = false; std::vector<bool> used(o.t.size());
  for (auto& t : m.t) {
    const ref::Trk* q = nullptr; for (size_t i = 0; i < o.t.size(); i++) if (!used[i] && (o.t[i].handler == "vide") == t.video && (m.t.size() == 2 || t.video || o.t[i].s.empty() || o.t[i].s[0].data == t.s[0].data)) { q = &o.t[i]; used[i] = true; break; } VREQ(c, q, "handler", "no %s track", t.video ? "video" : "audio"); VREQ(c, q->e.size() == 1, "entries", "%zu", q->e.size()); const ref::Entry& en = q->e[0]; const char* W = t.video ? "video" : "audio";
    if (t.video) { VCHECK(c, en.sps.size() == 1 && en.sps[0] == t.sps && en.pps.size() == 1 && en.pps[0] == t.pps, "parameter-sets", "SPS or PPS differ"); VCHECK(c, en.w == t.w && en.h == t.h, "picture-size", "%ux%u want %ux%u", en.w, en.h, t.w, t.h); }
    else { VCHECK(c, en.asc == t.asc(), "asc", "%s want %s", vh::hex(en.asc.data(), en.asc.size()).c_str(), vh::hex(t.asc().data(), 2).c_str()); VCHECK(c, (int)en.chan == t.chan && en.rate == (unsigned)(AAC_RATES[t.rate_idx] & 0xffff), "audio-entry", "%u channels %u Hz want %d %d", en.chan, en.rate, t.chan, AAC_RATES[t.rate_idx]); }
    VREQ(c, q->s.size() == t.s.size(), "samples", "%s: %zu want %zu", W, q->s.size(), t.s.size()); double tol = 2.0 / q->timescale + 0.00002, ed = q->edit_delay / (double)o.timescale, sh = 0; for (auto& x : k.es) if (x.t == &t) sh = x.shift;
    for (size_t i = 0; i < t.s.size(); i++) {
      const MSample& y = t.s[i]; const ref::Samp& z = q->s[i]; Bytes w; if (t.video) { for (auto& n : y.nals) if ((n[0] & 31) != 9) { u32(w, (uint32_t)n.size()); app(w, n); } } else w = y.data;
      VREQ(c, z.data == w, "bytes", "%s sample %zu of %zu: %zu bytes want %zu", W, i, t.s.size(), z.data.size(), w.size()); if (t.video) VREQ(c, z.sync == y.sync, "sync", "sample %zu: sync %d want %d", i, z.sync, y.sync);
      double at = z.cts() / (double)q->timescale + ed - (t.sec(y.cts()) + sh); if (!have) { have = true; off0 = at; } VREQ(c, fabs(at - off0) < tol + (t.video ? 0 : 0.0001), "time", "%s sample %zu of %zu is shown %.6f s after its place in the stream, the first one %.6f", W, i, t.s.size(), at, off0);
      c.count("samples");
    }
  }
  c.feature(fmt("%d%d%d%d %d%d %u", k.es[0].length, k.always_dts, k.sc3, k.trailing, k.adapt_only, k.network, k.stuffing));
}
static void ts2mp4(Ctx& c) {
  Opt o; o.seconds = 0.2 + c.rng.below(40) / 10.0; o.vsize = c.rng.chance(1, 8) ? 20000 : 600; o.asize = 500; o.fps = -1; unsigned z = (unsigned)c.rng.below(10); o.audio = z != 0; o.video = z != 1; o.audio2 = z == 2; Movie m = make_movie(c.rng, o); for (auto& t : m.t) t.delay = 0; Conf k = conf(c, m); Bytes ts = write(k, c.rng);
  { tsref::Ts chk; std::string e; if (!k.trailing && !k.splice && !k.private_data && !k.adapt_only && !k.other_pid && !k.null_packets && !k.escr && !k.network && !k.errors && !k.pes_crc && !k.pmt_desc && k.base < (1ull << 32) && !k.es[0].nopts && !k.es.back().nopts && (k.es.size() < 3 || !k.es[1].nopts) && !k.es[0].crc && !k.es.back().crc && (k.es.size() < 3 || !k.es[1].crc)) { e = tsref::read_ts(ts, chk); if (!e.empty()) { c.fail("generator", e); return; } } }
  std::string in = tmpdir(c, "in"), out = tmpdir(c, "out"); Clean clean{in, out}; save(in + "/a.ts", ts); describe(c, m); c.note(words(k)); std::vector<std::string> a = {"-k:ts2mp4", "-i:" + in + "/a.ts", "-o:" + out + "/o.mp4"}; if (c.rng.coin()) a.push_back(fmt("--size:%d", (int)c.rng.range(1, 300)));
  CliResult r = mg_tsinfo(a); c.count("runs"); VREQ(c, r.rc == 0, "exit-code", "rc=%d %s", r.rc, tail(r).c_str()); judge(c, m, k, out + "/o.mp4");
}
// a damaged stream is read to its end
static void crcfix(unsigned char* p) { size_t k = 4; if (p[3] & 0x20) k += 1 + p[4]; if (k >= 184) return; k += 1 + p[k]; if (k + 12 > 188) return; size_t n = ((p[k + 1] & 15u) << 8) + p[k + 2] + 3; if (n < 12 || k + n > 188) return; uint32_t v = tsref::crc32m(p + k, n - 4); unsigned char* q = p + k + n - 4; q[0] = v >> 24; q[1] = v >> 16; q[2] = v >> 8; q[3] = v; }
static std::string harm(Rng& r, Bytes& b, const Conf& k) {
  size_t n = b.size() / 188; if (!n) return "none"; std::vector<size_t> tab, pay; for (size_t i = 0; i < n; i++) { unsigned pid = (b[i * 188 + 1] & 31u) << 8 | b[i * 188 + 2]; if (pid == 0 || (int)pid == k.pmt) tab.push_back(i); else if (b[i * 188 + 1] & 0x40) pay.push_back(i); }
  size_t p = r.chance(1, 3) && !tab.empty() ? tab[r.chance(1, 2) ? r.below(std::min<size_t>(tab.size(), 2)) : r.below(tab.size())] : r.chance(2, 3) && !pay.empty() ? pay[r.below(pay.size())] : r.below(n); size_t at = p * 188; unsigned pid = (b[at + 1] & 31u) << 8 | b[at + 2]; bool t = pid == 0 || (int)pid == k.pmt; const char* W = pid == 0 ? "pat" : t ? "pmt" : (b[at + 1] & 0x40) ? "start" : "more"; static const unsigned char V[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 183, 184, 185, 187, 188, 0xbc, 0xbd, 0xbe, 0xc0, 0xe0, 0xf0, 0xff, 0xfe};
  switch (r.below(14)) {
    case 0: b[at + r.below(188)] = (unsigned char)r.next(); return fmt("byte:%s", W);
    case 1: case 2: { size_t q = at + 4 + r.below(t ? 40 : 60); b[q] = V[r.below(sizeof V)]; if (t) crcfix(&b[at]); return fmt("field:%s", W); }
    case 3: b[at + r.below(188)] ^= (unsigned char)(1u << r.below(8)); if (t && r.coin()) crcfix(&b[at]); return fmt("bit:%s", W);
    case 4: b[at + 1] ^= 0x40; return fmt("start-flag:%s", W);
    case 5: b[at + 3] ^= (unsigned char)(0x10 << r.below(2)); return fmt("afc:%s", W);
    case 6: b[at + 3] |= 0x20; b[at + 4] = r.coin() ? V[r.below(sizeof V)] : (unsigned char)r.next(); if (r.coin()) b[at + 5] = (unsigned char)r.next(); return fmt("adaptation:%s", W);
    case 7: { size_t m = 1 + r.below(r.chance(1, 4) ? 40 : 3); m = std::min(m, n - p); b.erase(b.begin() + at, b.begin() + at + 188 * m); return fmt("drop:%s", W); }
    case 8: { Bytes x(b.begin() + at, b.begin() + at + 188); size_t to = r.coin() ? p + 1 : r.below(n + 1); b.insert(b.begin() + to * 188, x.begin(), x.end()); return fmt("repeat:%s", W); }
    case 9: { size_t q = r.below(n); std::swap_ranges(b.begin() + at, b.begin() + at + 188, b.begin() + q * 188); return fmt("swap:%s", W); }
    case 10: b.resize(r.chance(1, 2) ? at + r.below(189) : r.below(b.size())); return "truncate";
    case 11: { size_t q = at + r.below(188); if (r.coin()) { Bytes x(1 + r.below(r.chance(1, 4) ? 3000 : 20)); r.fill(x.data(), x.size()); if (r.chance(1, 4)) std::fill(x.begin(), x.end(), 0x47); b.insert(b.begin() + q, x.begin(), x.end()); } else b.erase(b.begin() + q, b.begin() + std::min(b.size(), q + 1 + r.below(20))); return "sync"; }
    case 12: { int to = r.chance(1, 3) ? 0 : r.chance(1, 2) ? k.pmt : r.chance(1, 2) ? k.es[r.below(k.es.size())].pid : (int)r.below(8192); b[at + 1] = (unsigned char)((b[at + 1] & 0xe0) | to >> 8); b[at + 2] = (unsigned char)to; return fmt("pid:%s", W); }
    default: { size_t h = at + 4; if (b[at + 3] & 0x20) h += 1u + b[at + 4]; size_t room = h < at + 188 ? at + 188 - h : 0; if (!room) return "none"; size_t q = h + r.below(std::min<size_t>(room, t ? 60 : 30)); if (r.coin()) r.fill(&b[q], std::min<size_t>(at + 188 - q, 1 + r.below(8))); else std::fill(&b[q], &b[q] + std::min<size_t>(at + 188 - q, 1 + r.below(8)), (unsigned char)(r.coin() ? 0 : 0xff)); if (t) crcfix(&b[at]); return fmt("payload:%s", W); }
  }
}
static void hostile(Ctx& c) {
  Opt o; o.seconds = 0.1 + c.rng.below(12) / 10.0; o.vsize = 500; o.asize = 300; unsigned z = (unsigned)c.rng.below(8); o.audio = z != 0; o.video = z != 1; o.audio2 = z == 2; Movie m = make_movie(c.rng, o); for (auto& t : m.t) t.delay = 0; Conf k = conf(c, m); k.tables = (unsigned)c.rng.range(5, 30); Bytes ts = write(k, c.rng); std::string what; for (unsigned i = 1 + (unsigned)c.rng.below(c.rng.coin() ? 2 : 8); i; i--) what += harm(c.rng, ts, k) + " ";
  std::string in = tmpdir(c, "in"), out = tmpdir(c, "out"); Clean clean{in, out}; save(in + "/a.ts", ts); c.note(what); const char* K[] = {"ts2mp4", "ts2mp4", "ts2mp4", "all", "PES", "auto", "pick"}; const char* kind = K[c.rng.below(7)]; std::vector<std::string> a = {std::string("-k:") + kind, "-i:" + in + "/a.ts"}; if (!strcmp(kind, "ts2mp4")) a.push_back("-o:" + out + "/o.mp4"); if (c.rng.coin()) a.push_back(fmt("--size:%d", (int)c.rng.range(1, 3000))); c.note(kind);
  limited = true; CliResult r = (!strcmp(kind, "all") || !strcmp(kind, "PES")) && c.rng.coin() ? mg_cli(a) : mg_tsinfo(a); limited = false; c.count("streams"); if (r.rc == 0) c.count("read"); else c.count("refused"); VCHECK(c, r.out.size() < 40 * ts.size() + 100000, "output", "%zu bytes are printed for a stream of %zu (%s)", r.out.size(), ts.size(), what.c_str()); c.feature(fmt("%s %s%c", kind, what.substr(0, what.find(' ')).c_str(), r.rc ? '-' : '+'));
}
// packets are lost: what they did not carry stays
static void loss(Ctx& c) {
  Opt o; o.seconds = 0.5 + c.rng.below(40) / 10.0; o.vsize = c.rng.coin() ? 2000 : 600; o.asize = 500; o.fps = -1; unsigned z = (unsigned)c.rng.below(8); o.audio = z != 0; o.video = z != 1; Movie m = make_movie(c.rng, o); for (auto& t : m.t) t.delay = 0; Conf k = conf(c, m); k.errors = false; k.base = 126000; for (auto& e : k.es) e.nopts = false; bool table = c.rng.chance(1, 4); if (table) k.tables = (unsigned)c.rng.range(5, 40); std::vector<Unit> units; std::vector<size_t> tabs; Bytes ts = write(k, c.rng, &units, &tabs); size_t n = ts.size() / 188; std::vector<char> keep(n, 1);
  std::vector<size_t> may; std::vector<bool> seen(k.es.size()); for (auto& u : units) { if (seen[u.es]) for (size_t p = u.p0; p < u.p1; p++) may.push_back(p); seen[u.es] = true; } if (may.empty()) return; unsigned lost = 0; for (unsigned g = 1 + (unsigned)c.rng.below(8); g; g--) { size_t a = c.rng.below(may.size()), q = c.rng.chance(1, 4) ? c.rng.below(30) : 1; for (size_t b = a; b < std::min(a + q, may.size()); b++) { size_t x = may[b]; int pid = (ts[x * 188 + 1] & 31) << 8 | ts[x * 188 + 2]; (void)pid; if (keep[x]) lost++; keep[x] = 0; } }
  std::vector<std::vector<char>> bad(k.es.size()); for (size_t e = 0; e < k.es.size(); e++) bad[e].assign(k.es[e].t->s.size(), 0); std::vector<const Unit*> last(k.es.size(), nullptr);
  for (auto& u : units) { bool hit = false, start = false; for (size_t p = u.p0; p < u.p1; p++) if (!keep[p] && (((ts[p * 188 + 1] & 31) << 8 | ts[p * 188 + 2]) == k.es[u.es].pid)) { hit = true; if (ts[p * 188 + 1] & 0x40) start = true; } if (hit) { for (size_t i = u.first; i < u.first + u.n; i++) bad[u.es][i] = 1; } if (start && last[u.es] && !(last[u.es]->pes[4] | last[u.es]->pes[5])) for (size_t i = last[u.es]->first; i < last[u.es]->first + last[u.es]->n; i++) bad[u.es][i] = 1; last[u.es] = &u; }
  if (table && tabs.size() > 1) { size_t p = tabs[0] + c.rng.below(2), sec = p * 188 + 5, len = (size_t)((ts[sec + 1] & 15) << 8 | ts[sec + 2]) + 3; if (sec + len > (p + 1) * 188) len = (p + 1) * 188 - sec; size_t q = sec + 8 + c.rng.below(len - 8); ts[q] ^= (unsigned char)(1u << c.rng.below(8)); c.count("damaged_tables"); for (auto& u : units) if (u.p0 < tabs[1]) for (size_t i = u.first; i < u.first + u.n; i++) bad[u.es][i] = 1; for (size_t e = 0; e < k.es.size(); e++) if (k.es[e].t->video) { bool out = true; for (auto& u : units) if (u.es == e && u.p0 >= tabs[1]) { if (k.es[e].t->s[u.first].sync && !k.sps_once && !bad[e][u.first]) out = false; if (out) bad[e][u.first] = 1; } } }
  // video of which a PES with a length was damaged is taken up again at the next parameter sets
  for (size_t e = 0; e < k.es.size(); e++) if (k.es[e].t->video) { bool out = false; for (auto& u : units) if (u.es == e) { if (k.es[e].t->s[u.first].sync && !k.sps_once) out = false; if (bad[e][u.first] && (u.pes[4] | u.pes[5])) out = true; if (out) bad[e][u.first] = 1; } }
  for (auto& b : bad) { bool any = false; for (char x : b) if (!x) any = true; if (!any) { c.count("nothing_left"); return; } }
  Bytes cut; for (size_t p = 0; p < n; p++) if (keep[p]) cut.insert(cut.end(), ts.begin() + p * 188, ts.begin() + (p + 1) * 188); std::string in = tmpdir(c, "in"), out = tmpdir(c, "out"); Clean clean{in, out}; save(in + "/a.ts", cut); describe(c, m); c.note(words(k)); c.note(fmt("%u packets lost", lost)); c.count("packets_lost", lost); CliResult r = mg_tsinfo({"-k:ts2mp4", "-i:" + in + "/a.ts", "-o:" + out + "/o.mp4"}); c.count("runs"); VREQ(c, r.rc == 0, "exit-code", "rc=%d %s", r.rc, tail(r).c_str());
  ref::File f; VREQ(c, f.load(out + "/o.mp4"), "boxes", "%s", f.err.c_str()); ref::Mov mo; std::string e = ref::read_moov(f, mo); VREQ(c, e.empty(), "tables", "%s", e.c_str()); VREQ(c, mo.t.size() == m.t.size(), "tracks", "%zu want %zu", mo.t.size(), m.t.size()); bool have = false; double off0 = 0;
  for (size_t x = 0; x < k.es.size(); x++) { const MTrack& t = *k.es[x].t; const ref::Trk* q = nullptr; for (auto& y : mo.t) if ((y.handler == "vide") == t.video) q = &y; VREQ(c, q, "handler", "no %s track", t.video ? "video" : "audio"); size_t at = 0, extra = 0, nbad = 0; double ed = q->edit_delay / (double)mo.timescale; const char* W = t.video ? "video" : "audio"; for (char b : bad[x]) nbad += b;
    for (size_t i = 0; i < t.s.size(); i++) { if (bad[x][i]) { c.count("lost_samples"); continue; } const MSample& y = t.s[i]; Bytes w; if (t.video) { for (auto& u : y.nals) if ((u[0] & 31) != 9) { u32(w, (uint32_t)u.size()); app(w, u); } } else w = y.data; size_t was = at; while (at < q->s.size() && q->s[at].data != w) at++, extra++; VREQ(c, at < q->s.size(), "kept", "%s sample %zu of %zu is not among the %zu samples from %zu on, %zu are damaged", W, i, t.s.size(), q->s.size(), was, nbad);
      double tm = q->s[at].cts() / (double)q->timescale + ed - t.sec(y.cts()); if (!have) { have = true; off0 = tm; } if (extra && fabs(tm - off0) > 1e6) { c.fail("time-after-garbage", fmt("%s sample %zu of %zu is shown %.6f s after its place in the stream, after %zu samples which are not of the stream", W, i, t.s.size(), tm - off0, extra)); return; } VREQ(c, fabs(tm - off0) < 2.5 / q->timescale + 0.00012, "time", "%s sample %zu of %zu is shown %.6f s after its place in the stream, the first one %.6f", W, i, t.s.size(), tm, off0); at++; c.count("samples"); }
    extra += q->s.size() - at; VCHECK(c, extra <= nbad, "extra", "%s: %zu samples more than those of the stream, %zu are damaged", W, extra, nbad); }
  c.feature(fmt("%u %d%d %d", lost, k.es[0].length, k.sc3, k.es.size() > 1));
}
// the list of the PES packets
static std::string clock_ms(uint64_t v) { uint64_t ms = v * 1000 / 9 / 10000; return fmt("%02llu:%02llu:%02llu.%03llu", ll(ms / 3600000), ll(ms / 60000 % 60), ll(ms / 1000 % 60), ll(ms % 1000)); }
static void listing(Ctx& c) {
  Opt o; o.seconds = 0.2 + c.rng.below(30) / 10.0; o.vsize = 600; o.asize = 500; o.fps = -1; unsigned z = (unsigned)c.rng.below(8); o.audio = z != 0; o.video = z != 1; Movie m = make_movie(c.rng, o); for (auto& t : m.t) t.delay = 0; Conf k = conf(c, m); for (auto& e : k.es) e.nopts = false; if (k.base > 1ull << 32) k.base = 90000; std::vector<Unit> units; std::vector<size_t> tabs; Bytes ts = write(k, c.rng, &units, &tabs);
  std::string in = tmpdir(c, "in"); Clean clean{in}; save(in + "/a.ts", ts); describe(c, m); c.note(words(k)); bool all = c.rng.coin(), cli = c.rng.coin(); std::vector<std::string> a = {all ? "-k:all" : "-k:PES", "-i:" + in + "/a.ts"}; CliResult r = cli ? mg_cli(a) : mg_tsinfo(a); c.count("runs"); VREQ(c, r.rc == 0, "exit-code", "rc=%d %s", r.rc, tail(r).c_str());
  std::vector<std::vector<std::vector<std::string>>> got(k.es.size()); size_t streams = 0; bool pat = false, pmt = false; std::stringstream ss(r.out); std::string line; while (std::getline(ss, line)) { std::vector<std::string> f; std::stringstream l(line); std::string x; while (std::getline(l, x, '\t')) f.push_back(x); if (line.find(fmt("Program Number: %d\tProgram Pid: %d", k.prog, k.pmt)) != std::string::npos) pat = true; if (f.size() == 5 && f[0].empty() && f[1].empty()) for (auto& e : k.es) if (f[2] == fmt("%d", e.pid) && f[3] == fmt("%d", e.type) && f[4] == fmt("%d", k.pcr_pid >= 0 ? k.pcr_pid : k.es[0].pid)) streams++, pmt = true; if (f.size() < 3 || f[0] != "ES") continue; for (size_t e = 0; e < k.es.size(); e++) if (f[1] == fmt("%d", k.es[e].sid)) got[e].push_back(f); }
  VCHECK(c, pat && pmt && streams == k.es.size(), "tables", "program %d on %d: pat %d pmt %d streams %zu", k.prog, k.pmt, pat, pmt, streams); std::vector<size_t> at(k.es.size());
  for (auto& u : units) { auto& g = got[u.es]; size_t i = at[u.es]++; const Es& E = k.es[u.es]; VREQ(c, i < g.size(), "packets", "stream %d: %zu PES packets are listed", E.pid, g.size()); auto& f = g[i]; VREQ(c, f.size() >= 11, "line", "%zu fields", f.size()); bool d = u.dts != u.pts || (k.always_dts && E.t->video); std::string wd = d ? clock_ms(u.dts) : "DTS NOT AVL"; unsigned len = u.pes[4] << 8 | u.pes[5];
    VCHECK(c, f[2] == fmt("%zu", i) && f[3] == clock_ms(u.pts) && f[4] == wd, "times", "PES %zu of stream %d is listed as %s %s %s, it has %s %s", i, E.pid, f[2].c_str(), f[3].c_str(), f[4].c_str(), clock_ms(u.pts).c_str(), wd.c_str()); bool pcr = E.pid == (k.pcr_pid >= 0 ? k.pcr_pid : k.es[0].pid); uint64_t pv = (u.dts - 9000) & 0x1ffffffffull; std::string wp = pcr ? clock_ms(pv) : "PCR NOT AVL"; VCHECK(c, f[5] == wp, "pcr", "PES %zu of stream %d is listed with PCR %s, it has %s", i, E.pid, f[5].c_str(), wp.c_str()); VCHECK(c, (f[7] == "1") == (u.rai && !k.no_rai), "random-access", "PES %zu of stream %d: random access %s, it has %d", i, E.pid, f[7].c_str(), u.rai);
    VCHECK(c, f[9] == fmt("%zu", u.pes.size()) && f[10] == fmt("%u", u.pes[8]) && f.size() > 11 && f[11] == fmt("%u", len), "sizes", "PES %zu of stream %d: sizes %s %s %s, it has %zu %u %u", i, E.pid, f[9].c_str(), f[10].c_str(), f.size() > 11 ? f[11].c_str() : "", u.pes.size(), u.pes[8], len); c.count("pes_packets"); }
  for (size_t e = 0; e < k.es.size(); e++) VCHECK(c, at[e] == got[e].size(), "packets", "stream %d: %zu PES packets are listed, it has %zu", k.es[e].pid, got[e].size(), at[e]); c.feature(fmt("list %d%d %d", all, cli, (int)k.es.size()));
}
int main(int argc, char** argv) { return vh::run(argc, argv, {{"ts2mp4", ts2mp4}, {"loss", loss}, {"listing", listing}, {"hostile", hostile}}); }
