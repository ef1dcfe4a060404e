// Independent generator of H.264/AAC material and MP4 files: nothing here uses the code under test.
#pragma once
#include "vh.h"
#include <algorithm>
#include <math.h>
typedef std::vector<unsigned char> Bytes;

namespace gen {
using vh::Rng;

inline void app(Bytes& b, const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); }
inline void u8(Bytes& b, uint32_t v) { b.push_back((unsigned char)v); }
inline void u16(Bytes& b, uint32_t v) { u8(b, v >> 8); u8(b, v); }
inline void u24(Bytes& b, uint32_t v) { u8(b, v >> 16); u16(b, v); }
inline void u32(Bytes& b, uint32_t v) { u16(b, v >> 16); u16(b, v); }
inline void u64(Bytes& b, uint64_t v) { u32(b, (uint32_t)(v >> 32)); u32(b, (uint32_t)v); }
inline void str(Bytes& b, const char* s) { while (*s) u8(b, (unsigned char)*s++); }
inline Bytes box(const char* type, const Bytes& body, bool large = false) {
  Bytes b;
  if (large) { u32(b, 1); str(b, type); u64(b, body.size() + 16); }
  else { u32(b, (uint32_t)body.size() + 8); str(b, type); }
  app(b, body); return b;
}
inline Bytes full(int v, uint32_t f) { Bytes b; u8(b, v); u24(b, f); return b; }

struct BitW {
  Bytes d; int n = 0;
  void bit(int v) { if (n % 8 == 0) d.push_back(0); if (v) d.back() |= 0x80 >> (n % 8); n++; }
  void u(uint64_t v, int w) { for (int i = w - 1; i >= 0; i--) bit((v >> i) & 1); }
  void ue(uint32_t v) { uint64_t x = (uint64_t)v + 1; int l = 0; while (x >> (l + 1)) l++; u(0, l); u(x, l + 1); }
  void se(int32_t v) { ue(v > 0 ? 2u * (uint32_t)v - 1 : 2u * (uint32_t)(-(int64_t)v)); }
  void trailing() { bit(1); while (n % 8) bit(0); }
};
// emulation prevention
inline Bytes nal_escape(const Bytes& r) {
  Bytes o; int z = 0;
  for (auto c : r) { if (z >= 2 && c <= 3) { o.push_back(3); z = 0; } o.push_back(c); z = c ? 0 : z + 1; }
  if (o.size() && o.back() == 0) o.push_back(3);
  return o;
}

struct Hrd { uint32_t cnt = 0, brs, cbs, icd, crd, dod, tol; std::vector<uint32_t> br, cs; std::vector<int> cbr; };
inline Hrd make_hrd(Rng& r) {
  Hrd h; h.cnt = r.chance(1, 4) ? (uint32_t)r.below(32) : (uint32_t)r.below(3); h.brs = r.below(16); h.cbs = r.below(16);
  for (uint32_t i = 0; i <= h.cnt; i++) { h.br.push_back((uint32_t)r.below(r.coin() ? 40 : 1u << 24)); h.cs.push_back((uint32_t)r.below(r.coin() ? 40 : 1u << 24)); h.cbr.push_back(r.coin()); }
  h.icd = r.below(32); h.crd = r.below(32); h.dod = r.below(32); h.tol = r.below(32); return h;
}
inline void put_hrd(BitW& b, const Hrd& h) {
  b.ue(h.cnt); b.u(h.brs, 4); b.u(h.cbs, 4);
  for (uint32_t i = 0; i <= h.cnt; i++) { b.ue(h.br[i]); b.ue(h.cs[i]); b.bit(h.cbr[i]); }
  b.u(h.icd, 5); b.u(h.crd, 5); b.u(h.dod, 5); b.u(h.tol, 5);
}
struct Sps {
  int profile, constraints, set45 = 0, level; uint32_t id, chroma = 1, bdl = 0, bdc = 0, bypass = 0, sepcol = 0; bool scaling = false;
  uint32_t log2fn, poctype, log2poc = 0; int dpoaz = 0, ofnrp = 0, oftbf = 0; std::vector<int> ofrf;
  uint32_t refs; int gaps; uint32_t wmb, hmb; int fmo, mbaff = 0, d8, crop; uint32_t cl = 0, cr = 0, ct = 0, cb = 0; int vui;
  int ari = 0; uint32_t idc = 0, sarw = 0, sarh = 0; int ovi = 0, ova = 0, vst = 0, vf = 5, vfr = 0, cdp = 0; uint32_t cp = 2, tc = 2, mc = 2; int clp = 0; uint32_t clt = 0, clb = 0;
  int ti = 0; uint32_t nuit = 0, tsc = 0; int ffr = 0; int nhrd = 0, vhrd = 0; Hrd nh, vh_; int ldh = 0, psp = 0, br = 0, mvob = 1; uint32_t mbpp = 0, mbpm = 0, mlh = 0, mlv = 0, nrf = 0, mdfb = 0;
  unsigned subw() const { return profile < 100 || chroma == 1 || chroma == 2 ? 2 : 1; } unsigned subh() const { return profile < 100 || chroma == 1 ? 2 : 1; }
  unsigned width() const { return (wmb + 1) * 16 - subw() * (cl + cr); }
  unsigned height() const { return (hmb + 1) * 16 * (2 - fmo) - subh() * (2 - fmo) * (ct + cb); }
  void sampling(Rng& r) { static const int p[] = {110, 122, 244}; int i = (int)r.below(3); profile = p[i]; chroma = (uint32_t)r.below(i + 2); bdl = (uint32_t)r.below(i ? 7 : 3); bdc = (uint32_t)r.below(i ? 7 : 3); }
  Bytes rbsp() const {
    BitW b; b.u(profile, 8); b.u(constraints, 4); b.u(set45, 2); b.u(0, 2); b.u(level, 8); b.ue(id);
    if (profile >= 100) { b.ue(chroma); if (chroma == 3) b.bit(sepcol); b.ue(bdl); b.ue(bdc); b.bit(bypass); b.bit(0); }
    b.ue(log2fn); b.ue(poctype);
    if (poctype == 0) b.ue(log2poc);
    else if (poctype == 1) { b.bit(dpoaz); b.se(ofnrp); b.se(oftbf); b.ue((uint32_t)ofrf.size()); for (int v : ofrf) b.se(v); }
    b.ue(refs); b.bit(gaps); b.ue(wmb); b.ue(hmb); b.bit(fmo); if (!fmo) b.bit(mbaff); b.bit(d8); b.bit(crop);
    if (crop) { b.ue(cl); b.ue(cr); b.ue(ct); b.ue(cb); }
    b.bit(vui);
    if (vui) {
      b.bit(ari); if (ari) { b.u(idc, 8); if (idc == 255) { b.u(sarw, 16); b.u(sarh, 16); } }
      b.bit(ovi); if (ovi) b.bit(ova);
      b.bit(vst); if (vst) { b.u(vf, 3); b.bit(vfr); b.bit(cdp); if (cdp) { b.u(cp, 8); b.u(tc, 8); b.u(mc, 8); } }
      b.bit(clp); if (clp) { b.ue(clt); b.ue(clb); }
      b.bit(ti); if (ti) { b.u(nuit, 32); b.u(tsc, 32); b.bit(ffr); }
      b.bit(nhrd); if (nhrd) put_hrd(b, nh);
      b.bit(vhrd); if (vhrd) put_hrd(b, vh_);
      if (nhrd || vhrd) b.bit(ldh);
      b.bit(psp); b.bit(br);
      if (br) { b.bit(mvob); b.ue(mbpp); b.ue(mbpm); b.ue(mlh); b.ue(mlv); b.ue(nrf); b.ue(mdfb); }
    }
    b.trailing(); return b.d;
  }
  Bytes nal() const { Bytes n = {0x67}; app(n, rbsp()); return nal_escape(n); }
};
inline uint32_t someue(Rng& r) { switch (r.below(4)) { case 0: return 0; case 1: return (uint32_t)r.below(8); case 2: return (uint32_t)r.below(300); default: return (uint32_t)r.below(65536); } }
inline Sps make_sps(Rng& r, bool plain = false) {
  Sps s; static const int prof[] = {66, 77, 88, 100, 110, 122, 244}; s.profile = prof[r.below(plain ? 4 : 7)]; s.constraints = r.below(16); if (plain) s.set45 = (int)r.below(4); static const int lev[] = {10, 11, 12, 13, 20, 21, 22, 30, 31, 32, 40, 41, 42, 50, 51}; s.level = lev[r.below(15)];
  s.id = plain ? 0 : (uint32_t)r.below(32);
  if (s.profile >= 100 && !plain) { s.chroma = (uint32_t)r.below(4); if (s.chroma == 3) s.sepcol = r.coin(); s.bdl = (uint32_t)r.below(7); s.bdc = (uint32_t)r.below(7); s.bypass = r.coin(); }
  s.log2fn = (uint32_t)r.below(13); s.poctype = (uint32_t)r.below(3);
  if (s.poctype == 0) s.log2poc = (uint32_t)r.below(13);
  else if (s.poctype == 1) { s.dpoaz = r.coin(); s.ofnrp = (int)r.range(-200, 200); s.oftbf = (int)r.range(-200, 200); for (unsigned i = r.below(r.chance(1, 5) ? 255 : 4); i; i--) s.ofrf.push_back((int)r.range(-100, 100)); }
  s.refs = (uint32_t)r.below(17); s.gaps = r.coin(); s.wmb = (uint32_t)r.below(r.coin() ? 120 : 256); s.hmb = (uint32_t)r.below(r.coin() ? 68 : 144); s.fmo = r.chance(3, 4); if (!s.fmo) s.mbaff = r.coin(); s.d8 = r.coin();
  s.crop = r.coin(); if (s.crop) { s.cl = (uint32_t)r.below(3); s.cr = (uint32_t)r.below(5); s.ct = (uint32_t)r.below(2); s.cb = (uint32_t)r.below(s.fmo ? 7 : 3); }
  s.vui = r.chance(2, 3);
  if (s.vui) {
    s.ari = r.coin(); if (s.ari) { s.idc = r.chance(1, 3) ? 255 : (uint32_t)r.below(17); s.sarw = (uint32_t)r.below(65536); s.sarh = (uint32_t)r.below(65536); }
    s.ovi = r.coin(); s.ova = r.coin(); s.vst = r.coin(); s.vf = (int)r.below(8); s.vfr = r.coin(); s.cdp = r.coin(); s.cp = r.below(256); s.tc = r.below(256); s.mc = r.below(256);
    s.clp = r.coin(); s.clt = (uint32_t)r.below(6); s.clb = (uint32_t)r.below(6);
    s.ti = r.coin(); s.nuit = r.chance(1, 3) ? (uint32_t)r.next() : (uint32_t)r.range(1, 2002); s.tsc = r.chance(1, 3) ? (uint32_t)r.next() : (uint32_t)r.range(1, 120000); s.ffr = r.coin();
    s.nhrd = r.chance(1, 4); s.nh = make_hrd(r); s.vhrd = r.chance(1, 4); s.vh_ = make_hrd(r); s.ldh = r.coin(); s.psp = r.coin();
    s.br = r.coin(); s.mvob = r.coin(); s.mbpp = (uint32_t)r.below(17); s.mbpm = (uint32_t)r.below(17); s.mlh = (uint32_t)r.below(17); s.mlv = (uint32_t)r.below(17); s.nrf = (uint32_t)r.below(17); s.mdfb = (uint32_t)r.below(17);
  }
  return s;
}
struct Pps {
  uint32_t id, sps; int cabac, po; uint32_t l0, l1; int wp, wbi, qp, qs, cqp, dbf, cip, red; bool ext = false; int t8 = 0; int cqp2 = 0;
  Bytes rbsp() const {
    BitW b; b.ue(id); b.ue(sps); b.bit(cabac); b.bit(po); b.ue(0); b.ue(l0); b.ue(l1); b.bit(wp); b.u(wbi, 2); b.se(qp); b.se(qs); b.se(cqp); b.bit(dbf); b.bit(cip); b.bit(red);
    if (ext) { b.bit(t8); b.bit(0); b.se(cqp2); }
    b.trailing(); return b.d;
  }
  Bytes nal() const { Bytes n = {0x68}; app(n, rbsp()); return nal_escape(n); }
};
inline Pps make_pps(Rng& r, uint32_t sps = 0, bool plain = false) {
  Pps p; p.id = plain ? 0 : (uint32_t)r.below(256); p.sps = sps; p.cabac = r.coin(); p.po = r.coin(); p.l0 = (uint32_t)r.below(32); p.l1 = (uint32_t)r.below(32); p.wp = r.coin(); p.wbi = (int)r.below(3); p.qp = (int)r.range(-26, 25); p.qs = (int)r.range(-26, 25); p.cqp = (int)r.range(-12, 12); p.dbf = r.coin(); p.cip = r.coin(); p.red = r.coin();
  p.ext = !plain && r.coin(); p.t8 = r.coin(); p.cqp2 = (int)r.range(-12, 12); return p;
}

static const int AAC_RATES[13] = {96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350};

struct Slice { unsigned first, type, fn, idr, lsb, red, l0, l1; int field, bottom, dpb, direct, over; };
struct MSample { std::vector<Slice> slices; Bytes data; uint32_t dur = 0; uint32_t cto = 0; bool sync = false; uint64_t dts = 0, offset = 0; std::vector<Bytes> nals; uint64_t cts() const { return dts + cto; } };
struct MTrack {
  bool video = true; uint32_t id = 1, timescale = 90000; std::vector<MSample> s; bool ctts = false, stss = true;
  Bytes sps, pps; std::vector<Bytes> extra_pps; Sps sps_f; unsigned w = 0, h = 0; int nlen = 4;
  int aot = 2, rate_idx = 4, chan = 2; std::string lang = "und"; uint64_t delay = 0 /* in movie timescale, empty edit */; int hv = 0; bool co64 = false, junk = false;
  std::vector<unsigned> chunks;     // samples per chunk
  uint64_t duration() const { uint64_t d = 0; for (auto& x : s) d += x.dur; return d; }
  double sec(uint64_t t) const { return (double)t / timescale; }
  uint64_t hns(uint64_t t) const { return t * 10000000ULL / timescale; }
  Bytes asc() const { BitW b; b.u(aot, 5); b.u(rate_idx, 4); b.u(chan == 8 ? 7 : chan, 4); b.u(0, 3); return b.d; }
  Bytes avcc() const {
    Bytes b; u8(b, 1); u8(b, sps[1]); u8(b, sps[2]); u8(b, sps[3]); u8(b, 0xFC | (nlen - 1)); u8(b, 0xE1); u16(b, (uint32_t)sps.size()); app(b, sps);
    u8(b, 1 + (uint32_t)extra_pps.size()); u16(b, (uint32_t)pps.size()); app(b, pps); for (auto& p : extra_pps) { u16(b, (uint32_t)p.size()); app(b, p); } return b;
  }
};
struct Movie {
  std::vector<MTrack> t; uint32_t timescale = 1000; bool mdat_first = false; bool free_box = false, meta = false, udta = false, large_mdat = false, iods = false, open_mdat = false, junk = false; int frag_order = 0; bool hv = false; bool text = false; // a chapter track after the others
  Bytes file;
};

inline Bytes esds(const MTrack& t, bool long_len) {
  auto desc = [&](int tag, const Bytes& body) { Bytes b; u8(b, tag); if (long_len) { u8(b, 0x80); u8(b, 0x80); u8(b, 0x80 | (body.size() >> 7)); u8(b, body.size() & 127); } else u8(b, (uint32_t)body.size()); app(b, body); return b; };
  Bytes dc; u8(dc, 0x40); u8(dc, 0x15); u24(dc, 6144); u32(dc, 128000); u32(dc, 96000); app(dc, desc(5, t.asc()));
  Bytes es; u16(es, 0); u8(es, 0); app(es, desc(4, dc)); Bytes sl; u8(sl, 2); app(es, desc(6, sl));
  Bytes b = full(0, 0); app(b, desc(3, es)); return box("esds", b);
}
// a box this reader has no use for; large headers are legal for any box
inline Bytes junk_box(Rng& r, bool large_ok = true) { static const char* N[] = {"skip", "wide", "sdtp", "sgpd", "abcd", "udta", "name", "uuid"}; const char* n = N[r.below(8)]; Bytes b(r.below(60)); r.fill(b.data(), b.size()); if (!strcmp(n, "uuid")) { Bytes u(16); r.fill(u.data(), 16); u[0] = 1; app(u, b); b = u; } if (!strcmp(n, "udta")) b = box("abcd", b); if (!strcmp(n, "sdtp") && b.size() >= 4) memset(b.data(), 0, 4); if (!strcmp(n, "sgpd")) { b = full(1, 0); str(b, "roll"); u32(b, 2); u32(b, 1); u16(b, 0xFFFF); } return box(n, b, large_ok && r.chance(1, 4)); }
inline Bytes trak(const Movie& m, const MTrack& t, Rng& r) {
  auto times = [&](Bytes& b, int v, bool with_id) { uint32_t c = 3000000000u; if (v) { u64(b, c); u64(b, c); } else { u32(b, c); u32(b, c); } if (with_id) { u32(b, t.id); u32(b, 0); } };
  uint64_t mdur = t.duration() * m.timescale / t.timescale + t.delay;
  Bytes tk = full(t.hv, 7); times(tk, t.hv, true); if (t.hv) u64(tk, mdur); else u32(tk, (uint32_t)mdur);
  u64(tk, 0); u16(tk, 0); u16(tk, 0); u16(tk, t.video ? 0 : 0x100); u16(tk, 0);
  const uint32_t mat[9] = {0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000}; for (auto v : mat) u32(tk, v);
  u32(tk, t.w << 16); u32(tk, t.h << 16);
  Bytes md = full(t.hv, 0); times(md, t.hv, false); u32(md, t.timescale); if (t.hv) u64(md, t.duration()); else u32(md, (uint32_t)t.duration());
  u16(md, ((t.lang[0] - 0x60) << 10) | ((t.lang[1] - 0x60) << 5) | (t.lang[2] - 0x60)); u16(md, 0);
  Bytes hd = full(0, 0); u32(hd, 0); str(hd, t.video ? "vide" : "soun"); u32(hd, 0); u32(hd, 0); u32(hd, 0); str(hd, t.video ? "VideoHandler" : "SoundHandler"); u8(hd, 0);
  Bytes xh; if (t.video) { xh = full(0, 1); u64(xh, 0); xh = box("vmhd", xh); } else { xh = full(0, 0); u32(xh, 0); xh = box("smhd", xh); }
  Bytes dr = full(0, 0); u32(dr, 1); app(dr, box("url ", full(0, 1))); Bytes dinf = box("dinf", box("dref", dr));
  Bytes se; for (int i = 0; i < 6; i++) u8(se, 0); u16(se, 1);
  if (t.video) {
    u16(se, 0); u16(se, 0); u32(se, 0); u32(se, 0); u32(se, 0); u16(se, t.w); u16(se, t.h); u32(se, 0x480000); u32(se, 0x480000); u32(se, 0); u16(se, 1); for (int i = 0; i < 32; i++) u8(se, 0); u16(se, 0x18); u16(se, 0xffff);
    app(se, box("avcC", t.avcc())); if (r.coin()) { Bytes bt; u32(bt, 0); u32(bt, 900000); u32(bt, 700000); app(se, box("btrt", bt)); } if (r.chance(1, 3)) { Bytes pa; u32(pa, 1); u32(pa, 1); app(se, box("pasp", pa)); }
    se = box("avc1", se);
  } else {
    u32(se, 0); u32(se, 0); u16(se, t.chan); u16(se, 16); u16(se, 0); u16(se, 0); u32(se, (uint32_t)AAC_RATES[t.rate_idx] << 16); app(se, esds(t, r.coin())); se = box("mp4a", se);
  }
  Bytes sd = full(0, 0); u32(sd, 1); app(sd, se); Bytes stbl = box("stsd", sd);
  // times: runs, sometimes split arbitrarily
  Bytes e; uint32_t n = 0; for (size_t i = 0; i < t.s.size();) { size_t k = i; while (k < t.s.size() && t.s[k].dur == t.s[i].dur && !(k > i && r.chance(1, 40))) k++; u32(e, (uint32_t)(k - i)); u32(e, t.s[i].dur); n++; i = k; }
  Bytes b = full(0, 0); u32(b, n); app(b, e); app(stbl, box("stts", b));
  if (t.ctts) { e.clear(); n = 0; for (size_t i = 0; i < t.s.size();) { size_t k = i; while (k < t.s.size() && t.s[k].cto == t.s[i].cto && !(k > i && r.chance(1, 40))) k++; u32(e, (uint32_t)(k - i)); u32(e, t.s[i].cto); n++; i = k; } b = full(0, 0); u32(b, n); app(b, e); app(stbl, box("ctts", b)); }
  if (t.stss) { e.clear(); n = 0; for (size_t i = 0; i < t.s.size(); i++) if (t.s[i].sync) { u32(e, (uint32_t)i + 1); n++; } b = full(0, 0); u32(b, n); app(b, e); app(stbl, box("stss", b)); }
  e.clear(); n = 0; for (size_t i = 0; i < t.chunks.size(); i++) if (i == 0 || t.chunks[i] != t.chunks[i - 1] || r.chance(1, 20)) { u32(e, (uint32_t)i + 1); u32(e, t.chunks[i]); u32(e, 1); n++; }
  b = full(0, 0); u32(b, n); app(b, e); Bytes stsc = box("stsc", b);
  bool same = t.s.size() > 0; for (auto& x : t.s) if (x.data.size() != t.s[0].data.size()) same = false; if (r.chance(1, 4)) same = false;
  b = full(0, 0); u32(b, same ? (uint32_t)t.s[0].data.size() : 0); u32(b, (uint32_t)t.s.size()); if (!same) for (auto& x : t.s) u32(b, (uint32_t)x.data.size()); Bytes stsz = box("stsz", b);
  b = full(0, 0); u32(b, (uint32_t)t.chunks.size()); size_t si = 0; for (auto c : t.chunks) { uint64_t o = t.s[si].offset; if (t.co64) u64(b, o); else u32(b, (uint32_t)o); si += c; }
  Bytes stco = box(t.co64 ? "co64" : "stco", b);
  if (t.junk && r.coin()) app(stbl, junk_box(r)); if (r.coin()) { app(stbl, stsc); app(stbl, stsz); app(stbl, stco); } else { app(stbl, stsz); app(stbl, stsc); app(stbl, stco); }
  if (t.junk && r.coin()) app(stbl, junk_box(r)); Bytes minf = xh; if (t.junk && r.coin()) app(minf, junk_box(r)); app(minf, dinf); app(minf, box("stbl", stbl));
  Bytes mdia = box("mdhd", md); app(mdia, box("hdlr", hd)); app(mdia, box("minf", minf));
  Bytes tr = box("tkhd", tk);
  if (t.delay) { uint64_t ed = t.duration() * m.timescale / t.timescale; bool v1 = m.hv || ed >> 32; Bytes el = full(v1, 0); auto w = [&](uint64_t x) { if (v1) u64(el, x); else u32(el, (uint32_t)x); }; u32(el, 2); w(t.delay); w(~0ull); u16(el, 1); u16(el, 0); w(ed); w(0); u16(el, 1); u16(el, 0); app(tr, box("edts", box("elst", el))); }
  if (t.junk && r.coin()) app(tr, junk_box(r)); app(tr, box("mdia", mdia)); if (t.junk && r.coin()) app(tr, junk_box(r)); return box("trak", tr);
}
// a track of chapter titles: part of the file, no part of what is played
inline Bytes text_trak(const Movie& m, uint64_t at, Rng& r) {
  uint32_t id = (uint32_t)m.t.size() + 1, n = (uint32_t)r.range(1, 6); Bytes tk = full(0, r.coin() ? 0xE : 0); u32(tk, 1); u32(tk, 1); u32(tk, id); u32(tk, 0); u32(tk, m.timescale * n); u64(tk, 0); u32(tk, 0); u32(tk, 0);
  const uint32_t mat[9] = {0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000}; for (auto v : mat) u32(tk, v); u32(tk, 0); u32(tk, 0);
  Bytes md = full(0, 0); u32(md, 1); u32(md, 1); u32(md, 1000); u32(md, 1000 * n); u16(md, 0x55C4); u16(md, 0);
  Bytes hd = full(0, 0); u32(hd, 0); str(hd, "text"); u32(hd, 0); u32(hd, 0); u32(hd, 0); str(hd, "Chapters"); u8(hd, 0);
  Bytes gm = full(0, 0); u16(gm, 0x40); for (int i = 0; i < 10; i++) u8(gm, i < 6 ? 0x80 : 0); gm = r.coin() ? box("gmhd", box("gmin", gm)) : box("nmhd", full(0, 0));
  Bytes dr = full(0, 0); u32(dr, 1); app(dr, box("url ", full(0, 1))); Bytes mi = gm; app(mi, box("dinf", box("dref", dr)));
  Bytes se(43, 0); se[7] = 1; se = box("text", se); Bytes b = full(0, 0); u32(b, 1); app(b, se); Bytes st = box("stsd", b);
  b = full(0, 0); u32(b, 1); u32(b, n); u32(b, 1000); app(st, box("stts", b)); b = full(0, 0); u32(b, 1); u32(b, 1); u32(b, n); u32(b, 1); app(st, box("stsc", b)); b = full(0, 0); u32(b, 1); u32(b, n); app(st, box("stsz", b)); b = full(0, 0); u32(b, 1); u32(b, (uint32_t)at); app(st, box("stco", b)); app(mi, box("stbl", st));
  Bytes me = box("mdhd", md); app(me, box("hdlr", hd)); app(me, box("minf", mi)); Bytes tr = box("tkhd", tk); app(tr, box("mdia", me)); return box("trak", tr);
}
// lays the samples out, fills in offsets and builds the file
inline void build(Movie& m, Rng& r) {
  // order of chunks: by time of the first sample, sometimes track by track, sometimes shuffled between tracks
  struct C { size_t t, first, n; double at; }; std::vector<C> cs;
  for (size_t i = 0; i < m.t.size(); i++) { size_t f = 0; for (auto n : m.t[i].chunks) { cs.push_back({i, f, n, m.t[i].sec(m.t[i].s[f].dts)}); f += n; } }
  if (m.frag_order == 0) std::stable_sort(cs.begin(), cs.end(), [](const C& a, const C& b) { return a.at < b.at; });
  else if (m.frag_order == 2) { std::vector<std::vector<C>> q(m.t.size()); for (auto& c : cs) q[c.t].push_back(c); std::vector<size_t> p(m.t.size(), 0); cs.clear(); for (;;) { std::vector<size_t> live; for (size_t i = 0; i < q.size(); i++) if (p[i] < q[i].size()) live.push_back(i); if (live.empty()) break; size_t k = live[r.below(live.size())]; cs.push_back(q[k][p[k]++]); } }
  Bytes payload; std::vector<uint64_t> rel(cs.size());
  for (size_t i = 0; i < cs.size(); i++) { if (r.chance(1, 30)) for (unsigned k = r.below(20); k; k--) u8(payload, r.next()); rel[i] = payload.size(); for (size_t k = 0; k < cs[i].n; k++) { auto& s = m.t[cs[i].t].s[cs[i].first + k]; s.offset = payload.size(); app(payload, s.data); } }
  Bytes ft; str(ft, "isom"); u32(ft, 512); str(ft, "isom"); str(ft, "avc1"); ft = box("ftyp", ft);
  Bytes fr = m.free_box ? box("free", Bytes(r.below(40), 0)) : Bytes();
  uint64_t mvd = 0; for (auto& t : m.t) mvd = std::max(mvd, t.duration() * m.timescale / t.timescale + t.delay);
  auto moov = [&](uint64_t base, uint64_t seed) {
    Rng rr(seed); for (auto& t : m.t) for (auto& s : t.s) s.offset += base;
    bool v1 = m.hv || mvd >> 32; Bytes mh = full(v1, 0); if (v1) { u64(mh, 1); u64(mh, 1); u32(mh, m.timescale); u64(mh, mvd); } else { u32(mh, 1); u32(mh, 1); u32(mh, m.timescale); u32(mh, (uint32_t)mvd); } u32(mh, 0x10000); u16(mh, 0x100); for (int i = 0; i < 10; i++) u8(mh, 0); const uint32_t mat[9] = {0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000}; for (auto v : mat) u32(mh, v); for (int i = 0; i < 6; i++) u32(mh, 0); u32(mh, (uint32_t)m.t.size() + 1);
    Bytes mo = box("mvhd", mh); if (m.iods) { Bytes io = full(0, 0); const unsigned char x[] = {0x10, 7, 0, 0x4f, 0xff, 0xff, 0xff, 0x7f, 0xff}; io.insert(io.end(), x, x + 9); app(mo, box("iods", io)); } if (m.junk && rr.coin()) app(mo, junk_box(rr));
    for (auto& t : m.t) app(mo, trak(m, t, rr)); if (m.text) app(mo, text_trak(m, base, rr));
    if (m.udta) { Bytes me = full(0, 0); Bytes hd = full(0, 0); u32(hd, 0); str(hd, "mdir"); u32(hd, 0); u32(hd, 0); u32(hd, 0); u8(hd, 0); app(me, box("hdlr", hd)); app(mo, box("udta", box("meta", me))); }
    for (auto& t : m.t) for (auto& s : t.s) s.offset -= base;
    return box("moov", mo);
  };
  uint64_t seed = r.next(); Bytes mo = moov(0, seed); uint64_t hdr = m.large_mdat && !(m.open_mdat && !m.mdat_first) ? 16 : 8;
  uint64_t base = m.mdat_first ? ft.size() + fr.size() + hdr : ft.size() + mo.size() + fr.size() + hdr;
  mo = moov(base, seed); for (auto& t : m.t) for (auto& s : t.s) s.offset += base;
  if (m.open_mdat && !m.mdat_first) { m.file = ft; app(m.file, mo); app(m.file, fr); Bytes md = box("mdat", payload); md[0] = md[1] = md[2] = md[3] = 0; app(m.file, md); return; }
  m.file = ft; if (m.mdat_first) { app(m.file, fr); app(m.file, box("mdat", payload, m.large_mdat)); app(m.file, mo); } else { app(m.file, mo); app(m.file, fr); app(m.file, box("mdat", payload, m.large_mdat)); }
}

struct Opt { bool no_text = false; double seconds = 6; bool audio = true, video = true; int fps = -1; bool bframes = true; bool delay = false; bool vfr = false; unsigned vsize = 600, asize = 300; bool multi_slice = true; bool audio2 = false; int gop = 0; unsigned tail_audio = 0; bool near64k = false; /* pictures of about 65535 bytes, with what comes before them in a transport stream */ unsigned slow = 0; /* pictures last so many times longer, and audio is of the lowest rate: hours in few samples */ bool real = false; /* slice headers which go with the parameter sets */ bool late = false; /* pictures are reordered only after a while */ bool odd = false; /* more than one picture parameter set, pictures shown before those ahead of them */ };
inline Bytes slice_nal(Rng& r, bool idr, bool b, unsigned size, bool first) {
  BitW w; w.u(idr ? 0x65 : b ? 0x01 : 0x41, 8); w.ue(first ? 0 : (uint32_t)r.range(1, 40)); w.ue(idr ? 7 : b ? 6 : 5); w.ue(0); w.u(r.below(16), 4); w.u(r.next(), 8); w.bit(1); while (w.n % 8) w.bit(0);
  for (unsigned i = 0; i < size; i++) w.d.push_back(r.chance(1, 5) ? 0 : (unsigned char)r.next()); w.d.push_back(0x80 | (unsigned char)r.below(128) << 1 | 1);
  return nal_escape(w.d);
}
inline Bytes real_slice(Rng& r, const Sps& w, const Pps& p, bool idr, bool b, unsigned size, bool first, Slice& s) {
  static const unsigned ANY[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}; s.first = first ? 0 : (unsigned)r.range(1, 400); s.type = idr ? (r.coin() ? 7 : 2) : r.chance(1, 5) ? ANY[r.below(10)] : (b ? 1 : 0) + (r.coin() ? 5 : 0); s.fn = (unsigned)r.next() & ((1u << (w.log2fn + 4)) - 1); s.idr = idr ? (unsigned)r.below(65536) : 0; s.field = w.fmo ? 0 : r.coin(); s.bottom = s.field ? r.coin() : 0; s.lsb = w.poctype == 0 ? (unsigned)r.next() & ((1u << (w.log2poc + 4)) - 1) : 0; s.dpb = w.poctype == 0 && p.po && !s.field ? (int)r.range(-3000, 3000) : 0; s.red = p.red ? (unsigned)r.below(128) : 0;
  unsigned t = s.type % 5; bool pred = t == 0 || t == 1 || t == 3; s.direct = t == 1 ? r.coin() : 0; s.over = pred ? r.coin() : 0; s.l0 = s.over ? (unsigned)r.below(32) : 0; s.l1 = s.over && t == 1 ? (unsigned)r.below(32) : 0;
  BitW h; h.u(idr ? 0x65 : b ? 0x01 : 0x41, 8); h.ue(s.first); h.ue(s.type); h.ue(p.id); h.u(s.fn, (int)w.log2fn + 4); if (!w.fmo) { h.bit(s.field); if (s.field) h.bit(s.bottom); } if (idr) h.ue(s.idr); if (w.poctype == 0) { h.u(s.lsb, (int)w.log2poc + 4); if (p.po && !s.field) h.se(s.dpb); } if (w.poctype == 1 && !w.dpoaz) { h.se((int)r.range(-900, 900)); if (p.po && !s.field) h.se((int)r.range(-900, 900)); } if (p.red) h.ue(s.red); if (t == 1) h.bit(s.direct); if (pred) { h.bit(s.over); if (s.over) { h.ue(s.l0); if (t == 1) h.ue(s.l1); } }
  for (int k = 0; k < 100 || h.n % 8; k++) h.bit(r.chance(2, 3)); for (unsigned i = 0; i < size; i++) h.d.push_back(r.chance(1, 5) ? 0 : (unsigned char)r.next()); h.d.push_back(0x80 | (unsigned char)r.below(128) << 1 | 1); return nal_escape(h.d);
}
inline MTrack make_video(Rng& r, const Opt& o) {
  MTrack t; t.video = true; do { t.sps_f = make_sps(r, true); { Rng q = r; if (q.chance(1, 5)) t.sps_f.sampling(q); } t.sps = t.sps_f.nal(); } while (t.sps.size() > 256); Pps pps = make_pps(r, 0, true); t.pps = pps.nal(); t.w = t.sps_f.width(); t.h = t.sps_f.height();
  static const struct { uint32_t ts, d; } F[] = {{90000, 3000}, {90000, 3003}, {90000, 3600}, {25, 1}, {30000, 1001}, {24000, 1001}, {12800, 512}, {600, 25}, {10000000, 400000}, {1000, 40}, {50000, 1000}};
  auto f = F[o.fps >= 0 ? o.fps : (int)r.below(11)]; if (o.slow) f.d *= o.slow; t.timescale = f.ts; unsigned n = (unsigned)std::max<uint64_t>(2, (uint64_t)(o.seconds * f.ts / f.d));
  unsigned B = o.bframes ? (unsigned)r.below(3) : 0; unsigned gop = o.gop ? (unsigned)o.gop : (unsigned)r.range(4, 60); bool vary = r.chance(1, 3);
  // decode order with B frames between references: display index per decode position
  std::vector<unsigned> disp(n); std::vector<bool> idr(n, false), isb(n, false); unsigned d = 0, pos = 0;
  while (pos < n) {
    unsigned g = std::min<unsigned>(n - pos, vary ? (unsigned)r.range(std::max(2u, gop / 2), gop + 4) : gop); idr[pos] = true; disp[pos] = d; unsigned k = 1;
    while (k < g) { unsigned nb = std::min<unsigned>(B, g - k - 1); disp[pos + k] = d + k + nb; for (unsigned j = 0; j < nb; j++) { disp[pos + k + 1 + j] = d + k + j; isb[pos + k + 1 + j] = true; } k += nb + 1; }
    pos += g; d += g;
  }
  unsigned shift = B ? 1 : 0; uint64_t dts = 0; std::vector<uint64_t> at(n + 8);
  std::vector<uint32_t> dur(n + 8, f.d); if (o.vfr) for (auto& x : dur) x = (uint32_t)std::max<int64_t>(1, (int64_t)f.d + r.range(-(int64_t)f.d / 4, f.d / 4));
  for (unsigned i = 0; i < n + 7; i++) at[i + 1] = at[i] + dur[i];
  t.ctts = B > 0; t.s.resize(n);
  for (unsigned i = 0; i < n; i++) {
    auto& s = t.s[i]; s.dur = dur[i]; s.dts = dts; dts += dur[i]; s.sync = idr[i]; s.cto = B ? (uint32_t)(at[disp[i] + shift] - s.dts) : 0;
    std::vector<Bytes> nals; if (r.chance(1, 6)) nals.push_back({0x09, 0xF0}); if (r.chance(1, 8)) { Bytes sei = {0x06, 0x05, 0x10}; for (int k = 0; k < 16; k++) u8(sei, 0x41 + k); u8(sei, 0x80); nals.push_back(nal_escape(sei)); }
    unsigned ns = o.multi_slice && r.chance(1, 5) ? 2 + (unsigned)r.below(2) : 1; for (unsigned k = 0; k < ns; k++) { unsigned z = (unsigned)r.below(idr[i] ? o.vsize * 4 : o.vsize) + 1; if (o.near64k && !idr[i] && ns == 1 && nals.empty() && r.chance(1, 3)) { nals.push_back(slice_nal(r, idr[i], isb[i], 10, true)); Bytes& w = nals.back(); w.resize(r.range(65500, 65534), 0x55); w.back() = 0x80; continue; } if (o.real) { s.slices.resize(s.slices.size() + 1); nals.push_back(real_slice(r, t.sps_f, pps, idr[i], isb[i], z, k == 0, s.slices.back())); } else nals.push_back(slice_nal(r, idr[i], isb[i], z, k == 0)); }
    for (auto& x : nals) { u32(s.data, (uint32_t)x.size()); app(s.data, x); } s.nals = nals;
  }
  if (o.late && B) { unsigned k = 0; for (unsigned i = n / 2; i < n && !k; i++) if (idr[i]) k = i; for (unsigned i = 0; i < k; i++) t.s[i].cto = 0; }
  if (o.odd) { if (r.chance(1, 3)) for (unsigned k = (unsigned)r.range(1, 3); k; k--) t.extra_pps.push_back(make_pps(r, 0, true).nal()); if (r.chance(1, 3)) { t.ctts = true; bool all = r.coin(); for (unsigned i = 0; i < n; i++) if (all || !i || r.chance(1, 5)) t.s[i].cto = (uint32_t)r.below((uint64_t)f.d * 8 + 1); } }
  return t;
}
inline MTrack make_audio(Rng& r, const Opt& o) {
  MTrack t; t.video = false; t.stss = false; t.aot = 2; t.rate_idx = r.chance(2, 3) ? (int)r.range(3, 4) : (int)r.below(12); t.chan = r.chance(3, 4) ? 2 : (r.coin() ? 1 : 6); if (o.slow) t.rate_idx = 11; t.timescale = AAC_RATES[t.rate_idx]; t.w = t.h = 0;
  unsigned n = (unsigned)std::max<uint64_t>(2, (uint64_t)(o.seconds * t.timescale / 1024)) + o.tail_audio; uint64_t dts = 0; t.s.resize(n);
  for (auto& s : t.s) { s.dur = 1024; s.dts = dts; dts += 1024; s.sync = true; s.data.resize(2 + r.below(o.asize)); r.fill(s.data.data(), s.data.size()); }
  return t;
}
inline void make_chunks(MTrack& t, Rng& r) {
  size_t left = t.s.size(); unsigned mode = (unsigned)r.below(4), k = (unsigned)r.range(1, 30);
  while (left) { unsigned n = mode == 0 ? 1 : mode == 1 ? k : mode == 2 ? (unsigned)r.range(1, k) : (r.chance(1, 3) ? (unsigned)r.range(1, k) : k); n = (unsigned)std::min<size_t>(n, left); t.chunks.push_back(n); left -= n; }
}
inline Movie make_movie(Rng& r, const Opt& o) {
  Movie m; m.timescale = r.coin() ? 1000 : (r.coin() ? 600 : 90000); if (o.video) m.t.push_back(make_video(r, o)); if (o.audio) m.t.push_back(make_audio(r, o)); if (o.audio2) { MTrack a = make_audio(r, o); if (o.audio) { } m.t.push_back(a); }
  if (m.t.size() == 2 && r.coin()) std::swap(m.t[0], m.t[1]);
  static const char* L[] = {"und", "eng", "ita", "fra"}; for (size_t i = 0; i < m.t.size(); i++) { auto& t = m.t[i]; t.id = (uint32_t)i + 1; t.lang = L[r.below(4)]; t.hv = r.chance(1, 4); t.co64 = r.chance(1, 6); t.junk = r.chance(1, 4); make_chunks(t, r); if (o.delay && !t.video && r.chance(1, 2)) t.delay = (uint64_t)r.range(1, m.timescale / 2); }
  m.mdat_first = r.coin(); m.free_box = r.coin(); m.udta = r.chance(1, 3); m.iods = r.chance(1, 4); m.frag_order = (int)r.below(3); m.large_mdat = r.chance(1, 6); m.open_mdat = r.chance(1, 6); m.junk = r.chance(1, 4); m.hv = r.chance(1, 5);
  if (o.slow) { for (auto& t : m.t) if (t.duration() >> 32 || (t.duration() * (double)m.timescale / t.timescale) >= 4e9) t.hv = 1; }
  { Rng q = r; m.text = !o.no_text && q.chance(1, 8); }
  build(m, r); return m;
}
// hours of movie: times past 2^32 in 100 ns, and past it in the ticks of a track
inline void slowly(Rng& r, Opt& o) { if (o.audio || o.audio2 || !o.video) { o.seconds = 425 + r.below(250); o.asize = 12; o.slow = (unsigned)r.range(10, 60); o.audio2 = false; } else { o.seconds = r.coin() ? 430 + r.below(3000) : 48000 + r.below(40000); o.slow = (unsigned)(o.seconds / r.range(3, 15)); if (o.slow > 900) o.slow = 900; } o.gop = (int)r.range(2, o.slow > 200 ? 4 : 9); o.vsize = 30; }
inline void save(const std::string& p, const Bytes& d) { FILE* f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); abort(); } if (d.size() && fwrite(d.data(), 1, d.size(), f) != d.size()) abort(); fclose(f); }
inline Bytes load(const std::string& p) { Bytes d; FILE* f = fopen(p.c_str(), "rb"); if (!f) return d; unsigned char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) d.insert(d.end(), b, b + n); fclose(f); return d; }
}  // namespace gen
