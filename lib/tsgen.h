// Independent writer of MPEG-2 transport streams (ISO 13818-1) from generated tracks: nothing here uses the code under test.
#pragma once
#include "tsref.h"
namespace tsgen {
using namespace gen;
struct Es { const MTrack* t = nullptr; int pid = 0, type = 0x1b, sid = 0xe0; unsigned group = 1; bool length = false; bool crc = false, nopts = false; double shift = 0; };
struct Conf {
  std::vector<Es> es; uint64_t base = 126000; int prog = 1, pmt = 0x1000, pcr_pid = -1; bool aud = true, sc3 = false, trailing = false, always_dts = false, private_data = false, splice = false, desc = false, null_packets = false, other_pid = false, network = false; unsigned stuffing = 0, tables = 40; bool adapt_only = false, escr = false, pmt_pad = false; bool no_rai = false, sps_once = false, pes_crc = false, errors = false; unsigned pmt_desc = 0;
};
inline Bytes section(int table, int id, const Bytes& body, int version) { Bytes s; u8(s, table); u16(s, 0xb000 | (uint32_t)(body.size() + 9)); u16(s, (uint32_t)id); u8(s, 0xc1 | version << 1); u8(s, 0); u8(s, 0); app(s, body); u32(s, tsref::crc32m(s.data(), s.size())); return s; }
inline void pts33(Bytes& b, int mark, uint64_t v) { u8(b, (uint32_t)(mark << 4 | (v >> 30 & 7) << 1 | 1)); u16(b, (uint32_t)((v >> 15 & 0x7fff) << 1 | 1)); u16(b, (uint32_t)((v & 0x7fff) << 1 | 1)); }
struct Unit { size_t es; double at; Bytes pes; bool rai; uint64_t dts; size_t first, n; uint64_t pts; size_t p0 = 0, p1 = 0; };
inline uint64_t to90(const MTrack& t, uint64_t v, double shift) { return (uint64_t)(((unsigned __int128)v * 90000 + t.timescale / 2) / t.timescale + (uint64_t)(shift * 90000)); }
inline Bytes annexb(const MTrack& t, const MSample& s, const Conf& c, bool first, Rng& r) {
  Bytes o; bool start = true; auto put = [&](const Bytes& n) { if (!(c.sc3 && !start && r.coin())) u8(o, 0); u24(o, 1); app(o, n); start = false; if (c.trailing && r.chance(1, 4)) for (unsigned k = (unsigned)r.range(1, 5); k; k--) u8(o, 0); };
  if (c.aud) put({0x09, 0xf0}); if (s.sync && (first || !c.sps_once)) { put(t.sps); put(t.pps); } for (auto& n : s.nals) if ((n[0] & 31) != 9) put(n); return o;
}
inline Bytes adts(const MTrack& t, const MSample& s, bool crc) { Bytes b; size_t len = s.data.size() + (crc ? 9 : 7); int ch = t.chan == 8 ? 7 : t.chan; u8(b, 0xff); u8(b, 0xf0 | (crc ? 0 : 1)); u8(b, (t.aot - 1) << 6 | t.rate_idx << 2 | (ch >> 2)); u8(b, (ch & 3) << 6 | (uint32_t)(len >> 11)); u8(b, (uint32_t)(len >> 3)); u8(b, (uint32_t)((len & 7) << 5 | 0x1f)); u8(b, 0xfc); if (crc) u16(b, 0x1234); app(b, s.data); return b; }
// Writes the stream; units tells which samples went into which PES
inline Bytes write(const Conf& c, Rng& r, std::vector<Unit>* units = nullptr, std::vector<size_t>* tabs = nullptr) {
  std::vector<Unit> q;
  for (size_t e = 0; e < c.es.size(); e++) { const Es& E = c.es[e]; const MTrack& t = *E.t; size_t i = 0; while (i < t.s.size()) {
    Unit u; u.es = e; u.first = i; u.n = t.video ? 1 : std::min<size_t>(1 + (E.group > 1 ? r.below(E.group) : 0), t.s.size() - i); u.rai = t.video ? t.s[i].sync : true; u.pts = c.base + to90(t, t.s[i].cts(), E.shift); u.dts = c.base + to90(t, t.s[i].dts, E.shift); u.at = t.sec(t.s[i].dts) + E.shift; Bytes es; if (t.video) es = annexb(t, t.s[i], c, i == 0, r); else for (size_t k = 0; k < u.n; k++) app(es, adts(t, t.s[i + k], E.crc)); i += u.n;
    bool d = u.dts != u.pts || (c.always_dts && t.video), no = E.nopts && !t.video && u.first && r.coin(); Bytes h; u8(h, 0x80 | (r.coin() ? 4 : 0)); bool escr = c.escr && r.chance(1, 4), pv = c.private_data && r.chance(1, 4), pc = c.pes_crc && r.coin(); u8(h, (no ? 0 : d ? 0xc0 : 0x80) | (escr ? 0x20 : 0) | (pc ? 2 : 0) | (pv ? 1 : 0)); Bytes f; if (!no) pts33(f, d ? 3 : 2, u.pts & 0x1ffffffffull); if (d) pts33(f, 1, u.dts & 0x1ffffffffull); if (escr) { u8(f, 0xc4); u8(f, 0); u8(f, 4); u8(f, 0); u8(f, 4); u8(f, 1); } if (pc) u16(f, (uint32_t)r.below(65536)); if (pv) { u8(f, 0x8e); for (int k = 0; k < 16; k++) u8(f, (uint32_t)r.next()); } unsigned st = c.stuffing ? (unsigned)r.below(c.stuffing + 1) : 0; for (unsigned k = 0; k < st; k++) u8(f, 0xff); u8(h, (uint32_t)f.size()); app(h, f);
    Bytes p; u24(p, 1); u8(p, E.sid); size_t len = h.size() + es.size(); u16(p, (!t.video || E.length) && len <= 0xffff ? (uint32_t)len : 0); app(p, h); app(p, es); u.pes = p; q.push_back(u); } }
  std::stable_sort(q.begin(), q.end(), [](const Unit& a, const Unit& b) { return a.at < b.at; });
  int otherpid = 0x1abc; for (bool used = true; used;) { used = otherpid == c.pmt || otherpid == c.pcr_pid; for (auto& E : c.es) used |= E.pid == otherpid; if (used) otherpid--; }
  Bytes o; std::map<int, int> cc; int pcrpid = c.pcr_pid >= 0 ? c.pcr_pid : c.es[0].pid; uint64_t last_table = 0; size_t packets = 0; bool first = true;
  auto raw = [&](int pid, bool start, int afc, const Bytes& af, const unsigned char* d, size_t n) { Bytes p; u8(p, 0x47); u16(p, (start ? 0x4000 : 0) | pid); int& k = cc[pid]; u8(p, afc << 4 | (k & 15)); if (afc & 1) k++; if (afc & 2) app(p, af); p.insert(p.end(), d, d + n); if (p.size() != 188) abort(); app(o, p); packets++; };
  auto table = [&](int pid, const Bytes& s) { Bytes d; u8(d, 0); app(d, s); while (d.size() % 184) u8(d, 0xff); for (size_t k = 0; k < d.size(); k += 184) raw(pid, !k, 1, Bytes(), &d[k], 184); };
  auto tables = [&] { if (tabs) tabs->push_back(packets); Bytes b; if (c.network) { u16(b, 0); u16(b, 0xe010); } u16(b, (uint32_t)c.prog); u16(b, 0xe000 | c.pmt); table(0, section(0, 1, b, 0)); Bytes m; u16(m, 0xe000 | pcrpid); Bytes ds; if (c.desc) { u8(ds, 5); u8(ds, 4); str(ds, "HDMV"); u8(ds, 0x0e); u8(ds, 3); u24(ds, 0xc00100); } for (unsigned k = 0; k < c.pmt_desc; k++) { unsigned n = 20 + k * 7 % 90; u8(ds, 0x80 + k); u8(ds, n); for (unsigned j = 0; j < n; j++) u8(ds, j * 31 + k); } u16(m, 0xf000 | (uint32_t)ds.size()); app(m, ds); for (auto& E : c.es) { u8(m, E.type); u16(m, 0xe000 | E.pid); Bytes x; if (c.desc && !E.t->video) { u8(x, 10); u8(x, 4); str(x, "eng"); u8(x, 0); } u16(m, 0xf000 | (uint32_t)x.size()); app(m, x); } table(c.pmt, section(2, c.prog, m, 0)); last_table = packets; };
  tables();
  for (auto& u : q) {
    const Es& E = c.es[u.es]; if (packets - last_table >= c.tables && !first) tables(); if (c.null_packets && r.chance(1, 5)) { Bytes z(184, 0xff); raw(0x1fff, false, 1, Bytes(), z.data(), 184); } if (c.other_pid && r.chance(1, 6)) { Bytes z(184); r.fill(z.data(), 184); raw(otherpid, r.coin(), 1, Bytes(), z.data(), 184); }
    u.p0 = packets; size_t at = 0; bool start = true; while (at < u.pes.size()) {
      if (c.errors && r.chance(1, 10)) { Bytes p; u8(p, 0x47); u16(p, 0x8000 | (r.coin() ? 0x4000 : 0) | E.pid); while (p.size() < 188) u8(p, (uint32_t)r.next()); app(o, p); packets++; }
      Bytes af; bool pcr = start && E.pid == pcrpid, rai = start && u.rai && !c.no_rai, have = pcr || rai, ext = c.splice && r.chance(1, 10); if (ext) have = true; if (have) { u8(af, (rai ? 0x40 : 0) | (pcr ? 0x10 : 0) | (ext ? 0x06 : 0)); if (pcr) { uint64_t p = (u.dts - 9000) & 0x1ffffffffull; u32(af, (uint32_t)(p >> 1)); u16(af, (uint32_t)((p & 1) << 15 | 0x7e00)); } if (ext) { u8(af, 5); u8(af, 3); u24(af, 0x414243); } if (r.chance(1, 8)) for (unsigned k = (unsigned)r.below(60); k; k--) u8(af, 0xff); }
      size_t left = u.pes.size() - at, room = 184 - (have ? af.size() + 1 : 0); int afc = have ? 3 : 1; size_t n = std::min(left, room);
      if (n < room) { size_t pad = room - n; if (!have) { afc = 3; pad--; if (pad) { u8(af, 0); pad--; } } for (; pad; pad--) u8(af, 0xff); }
      Bytes A; if (afc == 3) { u8(A, (uint32_t)af.size()); app(A, af); } raw(E.pid, start, afc, A, &u.pes[at], n); at += n; start = false; first = false; if (c.adapt_only && r.chance(1, 20)) { Bytes z; u8(z, 183); u8(z, 0); while (z.size() < 184) u8(z, 0xff); Bytes keep; raw(E.pid, false, 2, z, keep.data(), 0); }
    }
    u.p1 = packets;
  }
  if (units) *units = q; return o;
}
}  // namespace tsgen
