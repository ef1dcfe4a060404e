// Independent readers for what the tool writes: MP4 boxes, sample tables, fragments, XML, MPEG-2 TS.
#pragma once
#include "mp4gen.h"
#include <set>
#include <dirent.h>
#include <sys/stat.h>
namespace ref {
struct Rd {   // bounded big endian reader; ok turns false on any read past the end
  const unsigned char* p; size_t n, o = 0; bool ok = true;
  Rd(const unsigned char* d, size_t k) : p(d), n(k) {}
  uint64_t u(int bytes) { uint64_t v = 0; for (int i = 0; i < bytes; i++) { if (o >= n) { ok = false; return 0; } v = v << 8 | p[o++]; } return v; }
  uint32_t u8() { return (uint32_t)u(1); } uint32_t u16() { return (uint32_t)u(2); } uint32_t u24() { return (uint32_t)u(3); } uint32_t u32() { return (uint32_t)u(4); } uint64_t u64() { return u(8); }
  void skip(size_t k) { if (n - o < k) { ok = false; o = n; } else o += k; }
  Bytes bytes(size_t k) { if (n - o < k) { ok = false; return Bytes(); } Bytes b(p + o, p + o + k); o += k; return b; }
  size_t left() const { return n - o; }
};
struct BitR {
  const unsigned char* p; size_t n, o = 0; bool ok = true;
  BitR(const unsigned char* d, size_t k) : p(d), n(k * 8) {}
  uint64_t u(int w) { uint64_t v = 0; for (int i = 0; i < w; i++) { if (o >= n) { ok = false; return 0; } v = v << 1 | ((p[o / 8] >> (7 - o % 8)) & 1); o++; } return v; }
  uint32_t ue() { int z = 0; while (ok && !u(1)) if (++z > 32) { ok = false; return 0; } return (uint32_t)(((uint64_t)1 << z) - 1 + u(z)); }
  int32_t se() { uint32_t k = ue(); return k & 1 ? (int32_t)(k / 2 + 1) : -(int32_t)(k / 2); }
};
struct Box {
  std::string type; bool open = false; size_t off = 0, hdr = 8, size = 0; const unsigned char* base = nullptr; std::vector<Box> kids;
  const unsigned char* body() const { return base + off + hdr; }
  size_t len() const { return size - hdr; }
  Rd rd() const { return Rd(body(), len()); }
  const Box* find(const char* t) const { for (auto& k : kids) if (k.type == t) return &k; return nullptr; }
  std::vector<const Box*> all(const char* t) const { std::vector<const Box*> v; for (auto& k : kids) if (k.type == t) v.push_back(&k); return v; }
  const Box* path(const char* p) const { const Box* b = this; std::string s(p); size_t i = 0; while (b && i < s.size()) { size_t e = s.find('/', i); if (e == std::string::npos) e = s.size(); b = b->find(s.substr(i, e - i).c_str()); i = e + 1; } return b; }
};
inline size_t container_skip(const std::string& t) {   // bytes between the header and the first child, or npos
  static const std::set<std::string> C = {"moov", "trak", "edts", "mdia", "minf", "dinf", "stbl", "mvex", "moof", "traf", "udta", "sinf", "schi", "mfra"};
  if (C.count(t)) return 0; if (t == "stsd" || t == "dref") return 8; if (t == "avc1" || t == "encv") return 78; if (t == "mp4a" || t == "enca") return 28; return (size_t)-1;
}
// err collects the first structural error
inline void parse(const unsigned char* base, size_t a, size_t b, std::vector<Box>& out, std::string& err) {
  size_t o = a;
  while (o < b && err.empty()) {
    Box x; x.base = base; x.off = o; if (b - o < 8) { err = vh::fmt("%zu stray bytes at %zu", b - o, o); return; }
    Rd r(base + o, b - o); uint64_t s = r.u32(); x.type.assign((const char*)base + o + 4, 4); r.skip(4); if (s == 1) { s = r.u64(); x.hdr = 16; } else if (s == 0) { s = b - o; x.open = true; }
    if (!r.ok || s < x.hdr || s > b - o) { err = vh::fmt("box %s at %zu: size %llu does not fit in its parent (%zu bytes left)", vh::esc(x.type).c_str(), o, (unsigned long long)s, b - o); return; }
    x.size = (size_t)s; size_t k = container_skip(x.type); if (k != (size_t)-1) { if (x.len() < k) { err = "box " + x.type + " too short"; return; } parse(base, o + x.hdr + k, o + x.size, x.kids, err); }
    out.push_back(x); o += (size_t)s;
  }
}
struct File { Bytes d; Box root; std::string err; bool load(const std::string& p) { d = gen::load(p); return parse_mem(); } bool parse_mem() { root.kids.clear(); err.clear(); ref::parse(d.data(), 0, d.size(), root.kids, err); return err.empty(); } };

struct Entry {  // one sample entry
  std::string type, orig; unsigned w = 0, h = 0, chan = 0, rate = 0; Bytes avcc; std::vector<Bytes> sps, pps; int nlen = 0; int prof = 0, compat = 0, level = 0; Bytes asc; int oti = 0; bool enc = false; Bytes kid; int ivsize = 0; int prot = 0; std::string scheme;
};
inline std::string read_entry(const Box& b, Entry& e) {
  e.type = b.type; Rd r = b.rd();
  if (b.type == "avc1" || b.type == "encv") {
    r.skip(6); if (r.u16() != 1) return "data_reference_index is not 1"; r.skip(16); e.w = r.u16(); e.h = r.u16();
    const Box* a = b.find("avcC"); if (!a) return "no avcC"; e.avcc.assign(a->body(), a->body() + a->len()); Rd q = a->rd(); if (q.u8() != 1) return "avcC version"; e.prof = q.u8(); e.compat = q.u8(); e.level = q.u8(); e.nlen = (q.u8() & 3) + 1;
    unsigned n = q.u8() & 31; for (unsigned i = 0; i < n; i++) e.sps.push_back(q.bytes(q.u16())); n = q.u8(); for (unsigned i = 0; i < n; i++) e.pps.push_back(q.bytes(q.u16())); if (!q.ok) return "avcC too short";
  } else if (b.type == "mp4a" || b.type == "enca") {
    r.skip(6); if (r.u16() != 1) return "data_reference_index is not 1"; r.skip(8); e.chan = r.u16(); r.skip(6); e.rate = r.u32() >> 16;
    const Box* s = b.find("esds"); if (!s) return "no esds"; Rd q = s->rd(); q.u32();
    auto len = [&]() { uint32_t v = 0; for (int i = 0; i < 4; i++) { uint32_t c = q.u8(); v = v << 7 | (c & 127); if (!(c & 128)) break; } return v; };
    if (q.u8() != 3) return "esds: no ES descriptor"; size_t L = len(); if (L != q.left()) return vh::fmt("esds: ES descriptor length %zu, %zu bytes left", L, q.left()); q.u16(); uint32_t fl = q.u8(); if (fl & 0x80) q.u16(); if (fl & 0x40) q.skip(q.u8()); if (fl & 0x20) q.u16();
    if (q.u8() != 4) return "esds: no decoder config"; L = len(); if (L > q.left()) return "esds: decoder config length"; size_t end = q.o + L; e.oti = q.u8(); q.skip(12); if (q.o < end) { if (q.u8() != 5) return "esds: no specific info"; L = len(); e.asc = q.bytes(L); } if (q.o != end) return "esds: decoder config does not end where it says"; if (!q.ok) return "esds too short";
  } else return "unknown sample entry " + b.type;
  if (b.type == "encv" || b.type == "enca") {
    e.enc = true; const Box* si = b.find("sinf"); if (!si) return "no sinf"; const Box* f = si->find("frma"); const Box* sc = si->find("schm"); const Box* te = si->path("schi/tenc"); if (!f || !sc || !te) return "sinf lacks frma, schm or tenc";
    e.orig.assign((const char*)f->body(), 4); Rd q = sc->rd(); q.u32(); Bytes s4 = q.bytes(4); e.scheme.assign(s4.begin(), s4.end()); Rd t = te->rd(); t.u32(); t.u16(); e.prot = t.u8(); e.ivsize = t.u8(); e.kid = t.bytes(16); if (!t.ok || !q.ok) return "tenc/schm too short";
  }
  return "";
}
struct Samp { uint64_t off = 0; uint32_t size = 0, dur = 0; int32_t cto = 0; bool sync = true; uint64_t dts = 0; Bytes data; int64_t cts() const { return (int64_t)dts + cto; } };
struct Trk { uint32_t id = 0, timescale = 0; uint64_t mdur = 0, tkdur = 0; std::string handler, lang; unsigned w = 0, h = 0; std::vector<Entry> e; std::vector<Samp> s; uint64_t total = 0; int64_t edit_delay = 0; /* movie timescale */ bool stss = false, ctts = false; };
struct Mov { uint32_t timescale = 0, next_id = 0; uint64_t dur = 0; std::vector<Trk> t; std::vector<uint32_t> trex; uint64_t mehd = 0; std::vector<const Box*> pssh; };
inline std::string read_moov(const File& f, Mov& m, bool samples = true) {
  const Box* mo = f.root.find("moov"); if (!mo) return "no moov"; const Box* mh = mo->find("mvhd"); if (!mh) return "no mvhd";
  { Rd r = mh->rd(); int v = r.u8(); r.u24(); r.skip(v ? 16 : 8); m.timescale = r.u32(); m.dur = v ? r.u64() : r.u32(); r.skip(76); m.next_id = r.u32(); if (!r.ok || r.left()) return "mvhd has the wrong size"; }
  for (const Box* t : mo->all("trak")) {
    Trk k; const Box* th = t->find("tkhd"); const Box* md = t->path("mdia/mdhd"); const Box* hd = t->path("mdia/hdlr"); const Box* sb = t->path("mdia/minf/stbl"); if (!th || !md || !hd || !sb) return "trak lacks tkhd, mdhd, hdlr or stbl";
    { Rd r = th->rd(); int v = r.u8(); r.u24(); r.skip(v ? 16 : 8); k.id = r.u32(); r.u32(); k.tkdur = v ? r.u64() : r.u32(); r.skip(52); k.w = r.u32() >> 16; k.h = r.u32() >> 16; if (!r.ok || r.left()) return "tkhd has the wrong size"; }
    { Rd r = md->rd(); int v = r.u8(); r.u24(); r.skip(v ? 16 : 8); k.timescale = r.u32(); k.mdur = v ? r.u64() : r.u32(); uint32_t l = r.u16(); for (int i = 2; i >= 0; i--) k.lang += (char)(((l >> (5 * i)) & 31) + 0x60); r.u16(); if (!r.ok || r.left()) return "mdhd has the wrong size"; }
    { Rd r = hd->rd(); r.u32(); r.u32(); Bytes b = r.bytes(4); k.handler.assign(b.begin(), b.end()); }
    if (const Box* el = t->path("edts/elst")) { Rd r = el->rd(); int v = r.u8(); r.u24(); uint32_t n = r.u32(); for (uint32_t i = 0; i < n; i++) { uint64_t d = v ? r.u64() : r.u32(); int64_t at = v ? (int64_t)r.u64() : (int32_t)r.u32(); r.u32(); if (at == -1) k.edit_delay += d; } if (!r.ok || r.left()) return "elst has the wrong size"; }
    const Box* sd = sb->find("stsd"); if (!sd) return "no stsd"; { Rd r = sd->rd(); r.u32(); if (r.u32() != sd->kids.size()) return "stsd entry count"; } for (auto& e : sd->kids) { Entry x; std::string er = read_entry(e, x); if (!er.empty()) return "sample entry " + e.type + ": " + er; k.e.push_back(x); }
    if (k.handler != "vide" && k.handler != "soun") return "handler " + k.handler; if (!t->path(k.handler == "vide" ? "mdia/minf/vmhd" : "mdia/minf/smhd")) return "no media header"; if (!t->path("mdia/minf/dinf/dref")) return "no dref";
    const Box *tt = sb->find("stts"), *ct = sb->find("ctts"), *sc = sb->find("stsc"), *sz = sb->find("stsz"), *co = sb->find("stco"), *c8 = sb->find("co64"), *ss = sb->find("stss"); if (!tt || !sc || !sz || (!co && !c8)) return "stbl lacks stts, stsc, stsz or stco";
    std::vector<uint32_t> size; { Rd r = sz->rd(); r.u32(); uint32_t one = r.u32(), n = r.u32(); if (!one && r.left() != 4ull * n) return vh::fmt("stsz: %u samples but %zu bytes of table", n, r.left()); if (one && r.left()) return "stsz: constant size and a table"; for (uint32_t i = 0; i < n && n < 10000000; i++) size.push_back(one ? one : r.u32()); }
    size_t N = size.size(); k.s.resize(N); for (size_t i = 0; i < N; i++) k.s[i].size = size[i];
    { Rd r = tt->rd(); r.u32(); uint32_t n = r.u32(); size_t i = 0; for (uint32_t j = 0; j < n; j++) { uint64_t c = r.u32(); uint32_t d = r.u32(); if (!c) return "stts: empty run"; for (; c; c--) { if (i >= N) return vh::fmt("stts describes more samples than stsz (%zu)", N); k.s[i++].dur = d; } } if (!r.ok || r.left()) return "stts has the wrong size"; if (i != N) return vh::fmt("stts describes %zu of %zu samples", i, N); }
    if (ct) { k.ctts = true; Rd r = ct->rd(); int v = r.u8(); r.u24(); uint32_t n = r.u32(); size_t i = 0; for (uint32_t j = 0; j < n; j++) { uint64_t c = r.u32(); uint32_t d = r.u32(); if (!v && d > 0x7fffffffu) return vh::fmt("ctts: offset %u is a negative number in version 0", d); for (; c; c--) { if (i >= N) return vh::fmt("ctts describes more samples than stsz (%zu)", N); k.s[i++].cto = (int32_t)d; } } if (!r.ok || r.left()) return "ctts has the wrong size"; if (i != N) return vh::fmt("ctts describes %zu of %zu samples", i, N); }
    if (ss) { k.stss = true; for (auto& s : k.s) s.sync = false; Rd r = ss->rd(); r.u32(); uint32_t n = r.u32(), last = 0; for (uint32_t j = 0; j < n; j++) { uint32_t i = r.u32(); if (i <= last || i > N) return vh::fmt("stss entry %u is %u after %u of %zu", j, i, last, N); k.s[i - 1].sync = true; last = i; } if (!r.ok || r.left()) return "stss has the wrong size"; }
    std::vector<uint64_t> off; { const Box* o = co ? co : c8; Rd r = o->rd(); r.u32(); uint32_t n = r.u32(); if (r.left() != (co ? 4ull : 8ull) * n) return "stco has the wrong size"; for (uint32_t i = 0; i < n; i++) off.push_back(co ? r.u32() : r.u64()); }
    { Rd r = sc->rd(); r.u32(); uint32_t n = r.u32(); if (r.left() != 12ull * n) return "stsc has the wrong size"; struct R { uint32_t f, s; }; std::vector<R> v; for (uint32_t i = 0; i < n; i++) { R x; x.f = r.u32(); x.s = r.u32(); uint32_t d = r.u32(); if (d < 1 || d > k.e.size()) return "stsc refers to a sample entry which does not exist"; if (v.size() ? x.f <= v.back().f : x.f != 1) return vh::fmt("stsc: first chunks not increasing (%u)", x.f); if (!x.s) return "stsc: chunk without samples"; v.push_back(x); }
      if (n && v.back().f > off.size()) return vh::fmt("stsc speaks of chunk %u of %zu", v.back().f, off.size()); size_t i = 0, q = 0; for (size_t c = 0; c < off.size(); c++) { while (q + 1 < v.size() && v[q + 1].f <= c + 1) q++; if (v.empty()) return "chunks without stsc"; uint64_t o = off[c]; for (uint32_t z = 0; z < v[q].s; z++) { if (i >= N) return vh::fmt("stsc/stco describe more samples than stsz (%zu)", N); k.s[i].off = o; o += k.s[i].size; i++; } } if (i != N) return vh::fmt("stsc/stco describe %zu of %zu samples", i, N); }
    uint64_t d = 0; for (auto& s : k.s) { s.dts = d; d += s.dur; if (samples) { bool in = false; for (auto& b : f.root.kids) if (b.type == "mdat" && s.off >= b.off + b.hdr && s.off + s.size <= b.off + b.size) in = true; if (!in) return vh::fmt("sample at %llu+%u is not inside mdat", (unsigned long long)s.off, s.size); s.data.assign(f.d.data() + s.off, f.d.data() + s.off + s.size); } } k.total = d;
    m.t.push_back(k);
  }
  std::set<uint32_t> ids; for (auto& t : m.t) { if (!t.id || !ids.insert(t.id).second) return "track ids are not unique and non-zero"; if (t.id >= m.next_id) return vh::fmt("next_track_ID %u is not above track %u", m.next_id, t.id); }
  if (const Box* mv = mo->find("mvex")) { for (const Box* t : mv->all("trex")) { Rd r = t->rd(); r.u32(); m.trex.push_back(r.u32()); } if (const Box* h = mv->find("mehd")) { Rd r = h->rd(); m.mehd = r.u8() ? (r.u24(), r.u64()) : (r.u24(), r.u32()); } }
  m.pssh = mo->all("pssh"); return "";
}
struct Sub { uint32_t clear, prot; };
struct FS { Bytes data; uint32_t dur = 0, flags = 0; int32_t cto = 0; uint64_t dts = 0; Bytes iv; std::vector<Sub> sub; };
struct Frag { uint32_t seq = 0, track = 0, sidx_sap = 0; uint64_t tfdt = 0; bool has_tfdt = false; std::vector<FS> s; bool enc = false; uint32_t sidx_ts = 0; uint64_t sidx_ept = 0, sidx_dur = 0, sidx_size = 0; bool has_sidx = false; uint32_t sidx_ref = 0; uint64_t dur = 0; };
// one media segment: [styp][sidx] moof mdat
inline std::string read_frag(const File& f, Frag& g, int ivsize = 8) {
  const Box *mf = f.root.find("moof"), *md = f.root.find("mdat"); if (!mf || !md) return "no moof or mdat"; if (f.root.all("moof").size() != 1 || f.root.all("mdat").size() != 1) return "more than one moof or mdat"; if (mf->off + mf->size != md->off) return "mdat does not follow moof";
  const Box* h = mf->find("mfhd"); if (!h) return "no mfhd"; { Rd r = h->rd(); r.u32(); g.seq = r.u32(); } if (mf->all("traf").size() != 1) return "not exactly one traf"; const Box* tf = mf->find("traf"); const Box *th = tf->find("tfhd"), *td = tf->find("tfdt"), *tr = tf->find("trun"); if (!th || !tr) return "traf lacks tfhd or trun";
  uint64_t base = mf->off; uint32_t dd = 0, ds = 0, df = 0; { Rd r = th->rd(); r.u8(); uint32_t fl = r.u24(); g.track = r.u32(); if (fl & 1) base = r.u64(); if (fl & 2) r.u32(); if (fl & 8) dd = r.u32(); if (fl & 16) ds = r.u32(); if (fl & 32) df = r.u32(); if (!r.ok || r.left()) return "tfhd has the wrong size"; }
  if (td) { Rd r = td->rd(); int v = r.u8(); r.u24(); g.tfdt = v ? r.u64() : r.u32(); g.has_tfdt = true; if (!r.ok || r.left()) return "tfdt has the wrong size"; }
  Rd r = tr->rd(); r.u8(); uint32_t fl = r.u24(), n = r.u32(); int64_t doff = 0; uint32_t first = 0; if (!(fl & 1)) return "trun without data offset"; doff = (int32_t)r.u32(); if (fl & 4) first = r.u32(); uint64_t o = base + doff; uint64_t dts = g.tfdt;
  if (o != md->off + md->hdr) return vh::fmt("trun data offset leads to %llu, mdat payload is at %zu", (unsigned long long)o, md->off + md->hdr);
  for (uint32_t i = 0; i < n && r.ok; i++) { FS s; s.dur = fl & 0x100 ? r.u32() : dd; uint32_t z = fl & 0x200 ? r.u32() : ds; s.flags = fl & 0x400 ? r.u32() : (i == 0 && (fl & 4) ? first : df); s.cto = fl & 0x800 ? (int32_t)r.u32() : 0; if (o + z > md->off + md->size) return "trun describes bytes past mdat"; s.data.assign(f.d.data() + o, f.d.data() + o + z); o += z; s.dts = dts; dts += s.dur; g.dur += s.dur; g.s.push_back(s); }
  if (!r.ok || r.left()) return vh::fmt("trun has the wrong size (%u samples, %zu bytes over)", n, r.left()); if (o != md->off + md->size) return vh::fmt("%llu bytes of mdat belong to no sample", (unsigned long long)(md->off + md->size - o));
  const Box *se = tf->find("senc"), *sz = tf->find("saiz"), *so = tf->find("saio");
  if (se || sz || so) {
    if (!se || !sz || !so) return "senc, saiz and saio do not come together"; g.enc = true; Rd q = se->rd(); q.u8(); uint32_t ef = q.u24(), c = q.u32(); if (c != g.s.size()) return vh::fmt("senc has %u entries for %zu samples", c, g.s.size()); size_t first_aux = se->off + se->hdr + q.o; std::vector<size_t> aux;
    for (uint32_t i = 0; i < c; i++) { size_t b = q.o; g.s[i].iv = q.bytes(ivsize); if (ef & 2) { uint32_t k = q.u16(); uint64_t tot = 0; for (uint32_t j = 0; j < k; j++) { Sub s; s.clear = q.u16(); s.prot = q.u32(); tot += s.clear + (uint64_t)s.prot; g.s[i].sub.push_back(s); } if (q.ok && tot != g.s[i].data.size()) return vh::fmt("sub-samples of sample %u add up to %llu of %zu bytes", i, (unsigned long long)tot, g.s[i].data.size()); } aux.push_back(q.o - b); }
    if (!q.ok || q.left()) return "senc has the wrong size"; Rd z = sz->rd(); z.u8(); uint32_t zf = z.u24(); if (zf & 1) z.skip(8); uint32_t def = z.u8(), cnt = z.u32(); if (cnt != c) return vh::fmt("saiz speaks of %u samples, senc of %u", cnt, c); for (uint32_t i = 0; i < cnt; i++) { uint32_t v = def ? def : z.u8(); if (v != aux[i]) return vh::fmt("saiz gives %u bytes for sample %u, senc has %zu", v, i, aux[i]); } if (!z.ok || z.left()) return "saiz has the wrong size";
    Rd y = so->rd(); int v = y.u8(); uint32_t yf = y.u24(); if (yf & 1) y.skip(8); if (y.u32() != 1) return "saio does not have one entry"; uint64_t at = v ? y.u64() : y.u32(); if (!y.ok || y.left()) return "saio has the wrong size"; if (base + at != first_aux) return vh::fmt("saio leads to %llu, sample auxiliary information is at %zu", (unsigned long long)(base + at), first_aux);
  }
  if (const Box* sx = f.root.find("sidx")) { Rd q = sx->rd(); int v = q.u8(); q.u24(); g.sidx_ref = q.u32(); g.sidx_ts = q.u32(); g.sidx_ept = v ? q.u64() : q.u32(); uint64_t fo = v ? q.u64() : q.u32(); q.u16(); if (q.u16() != 1) return "sidx does not have one reference"; g.sidx_size = q.u32() & 0x7fffffff; g.sidx_dur = q.u32(); g.sidx_sap = q.u32(); g.has_sidx = true; if (!q.ok || q.left()) return "sidx has the wrong size"; if (sx->off + sx->size + fo != mf->off) return "sidx does not point at the moof"; if (g.sidx_size != mf->size + md->size) return vh::fmt("sidx says %llu bytes, moof+mdat are %zu", (unsigned long long)g.sidx_size, mf->size + md->size); }
  return "";
}
// ---- XML: enough for manifests; checks nesting
struct Xml { std::string name; std::map<std::string, std::string> a; std::vector<Xml> kids; std::string text; std::string at(const char* k) const { auto i = a.find(k); return i == a.end() ? "" : i->second; } bool has(const char* k) const { return a.count(k) > 0; } std::vector<const Xml*> all(const char* n) const { std::vector<const Xml*> v; for (auto& k : kids) if (k.name == n) v.push_back(&k); return v; } const Xml* find(const char* n) const { for (auto& k : kids) if (k.name == n) return &k; return nullptr; } };
inline std::string xml_parse(const std::string& s, size_t& i, Xml& x) {
  auto ws = [&] { while (i < s.size() && isspace((unsigned char)s[i])) i++; };
  ws(); while (s.compare(i, 2, "<?") == 0) { i = s.find("?>", i); if (i == std::string::npos) return "unterminated declaration"; i += 2; ws(); }
  if (i >= s.size() || s[i] != '<') return vh::fmt("no element at %zu", i); i++; while (i < s.size() && (isalnum((unsigned char)s[i]) || strchr(":_-.", s[i]))) x.name += s[i++]; if (x.name.empty()) return vh::fmt("element without name at %zu", i);
  for (;;) { ws(); if (i >= s.size()) return "unterminated element " + x.name; if (s.compare(i, 2, "/>") == 0) { i += 2; return ""; } if (s[i] == '>') { i++; break; } std::string k; while (i < s.size() && (isalnum((unsigned char)s[i]) || strchr(":_-.", s[i]))) k += s[i++]; if (k.empty() || s.compare(i, 2, "=\"") != 0) return vh::fmt("bad attribute in %s at %zu", x.name.c_str(), i); i += 2; size_t e = s.find('"', i); if (e == std::string::npos) return "unterminated attribute"; if (x.a.count(k)) return "attribute " + k + " twice in " + x.name; x.a[k] = s.substr(i, e - i); if (x.a[k].find('<') != std::string::npos) return "< in attribute " + k; i = e + 1; }
  for (;;) { while (i < s.size() && s[i] != '<') x.text += s[i++]; if (i >= s.size()) return "element " + x.name + " is not closed"; if (s.compare(i, 4, "<!--") == 0) { i = s.find("-->", i); if (i == std::string::npos) return "unterminated comment"; i += 3; continue; } if (s.compare(i, 2, "</") == 0) { std::string c = "</" + x.name; if (s.compare(i, c.size(), c) != 0) return "element " + x.name + " closed by another"; i += c.size(); ws(); if (i >= s.size() || s[i] != '>') return "bad closing tag " + x.name; i++; return ""; } Xml k; std::string e = xml_parse(s, i, k); if (!e.empty()) return e; x.kids.push_back(k); }
}
inline std::string xml(const Bytes& b, Xml& x) { std::string s(b.begin(), b.end()); size_t i = 0; std::string e = xml_parse(s, i, x); if (!e.empty()) return e; while (i < s.size()) { if (!isspace((unsigned char)s[i]) && s[i]) return vh::fmt("text after the document at %zu", i); i++; } return ""; }
inline std::set<std::string> files_in(const std::string& d) { std::set<std::string> s; DIR* h = opendir(d.c_str()); if (!h) return s; while (dirent* e = readdir(h)) if (e->d_name[0] != '.') s.insert(e->d_name); closedir(h); return s; }
inline void wipe(const std::string& d) { for (auto& f : files_in(d)) unlink((d + "/" + f).c_str()); rmdir(d.c_str()); }
}  // namespace ref
