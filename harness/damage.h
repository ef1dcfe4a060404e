// Damages an MP4 file in one place, knowing its structure.
#pragma once
#include "media_pkg.h"
struct Node { size_t at, hdr, end; std::string type; int depth; size_t parent; };
inline uint32_t r32(const Bytes& b, size_t i) { return (uint32_t)b[i] << 24 | b[i + 1] << 16 | b[i + 2] << 8 | b[i + 3]; }
inline void w32(Bytes& b, size_t i, uint32_t v) { b[i] = v >> 24; b[i + 1] = v >> 16; b[i + 2] = v >> 8; b[i + 3] = v; }
inline void tree(const Bytes& b, size_t a, size_t e, int d, size_t parent, std::vector<Node>& o) {
  while (a + 8 <= e && d < 9) { uint64_t n = r32(b, a); size_t h = 8; if (n == 1 && a + 16 <= e) { n = (uint64_t)r32(b, a + 8) << 32 | r32(b, a + 12); h = 16; } if (n == 0) n = e - a; if (n < h || n > e - a) return; std::string t((const char*)&b[a + 4], 4); size_t me = o.size(); o.push_back(Node{a, h, (size_t)(a + n), t, d, parent});
    size_t in = 0; bool c = true; if (t == "stsd" || t == "dref") in = 8; else if (t == "avc1") in = 78; else if (t == "mp4a") in = 28; else c = t == "moov" || t == "trak" || t == "mdia" || t == "minf" || t == "stbl" || t == "edts" || t == "dinf" || t == "moof" || t == "traf"; if (c && a + h + in < a + n) tree(b, a + h + in, (size_t)(a + n), d + 1, me, o); a += (size_t)n; }
}
inline void grow(Bytes& b, const std::vector<Node>& o, size_t n, long by) { while (n != (size_t)-1) { if (o[n].hdr == 8 && r32(b, o[n].at)) w32(b, o[n].at, r32(b, o[n].at) + (uint32_t)by); n = o[n].parent; } }
// one change; returns its name
inline std::string damage(Rng& r, Bytes& b, const Bytes& other) {
  std::vector<Node> o; tree(b, 0, b.size(), 0, (size_t)-1, o); if (o.empty()) return "none"; std::vector<size_t> meta; for (size_t i = 0; i < o.size(); i++) if (o[i].type != "mdat") meta.push_back(i); if (meta.empty()) return "none"; Node n = o[meta[r.below(meta.size())]]; size_t ni = 0; for (size_t i = 0; i < o.size(); i++) if (o[i].at == n.at && o[i].depth == n.depth) ni = i;
  static const uint32_t V[] = {0, 1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 255, 256, 257, 0x7fff, 0x8000, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x10000000, 0x20000000, 0x3fffffff, 0x40000000, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xfffffffeu, 0xffffffffu};
  bool leaf = true; for (auto& x : o) if (x.parent == ni) leaf = false; size_t body = n.at + n.hdr, len = n.end - body;
  switch (r.below(13)) {
    case 0: if (!len) return "none"; b[body + r.below(len)] = (unsigned char)r.next(); return "byte:" + n.type;
    case 1: case 2: case 3: if (len < 4) return "none"; { size_t p = body + (leaf ? r.below(std::min<size_t>(len - 3, 120)) & ~(size_t)(r.chance(3, 4) ? 3 : 0) : r.below(len - 3)); uint32_t v = V[r.below(sizeof V / 4)]; if (r.chance(1, 4)) v = r32(b, p) + (uint32_t)r.range(-9, 9); if (r.chance(1, 8)) v = (uint32_t)r.next(); w32(b, p, v); } return "field:" + n.type;
    case 4: if (!len) return "none"; b[body + r.below(len)] ^= (unsigned char)(1u << r.below(8)); return "bit:" + n.type;
    case 5: { size_t at = r.chance(1, 3) ? r.below(b.size()) : r.chance(1, 2) ? n.at + r.below(n.end - n.at) : n.end; b.resize(at); } return "truncate:" + n.type;
    case 6: { long d = -(long)(n.end - n.at); bool fix = r.chance(3, 4); if (fix) grow(b, o, n.parent, d); b.erase(b.begin() + n.at, b.begin() + n.end); } return "delete:" + n.type;
    case 7: { Bytes x(b.begin() + n.at, b.begin() + n.end); if (x.size() > 20000) return "none"; if (r.chance(3, 4)) grow(b, o, n.parent, (long)x.size()); b.insert(b.begin() + n.end, x.begin(), x.end()); } return "duplicate:" + n.type;
    case 8: { const Node& m = o[r.below(o.size())]; Bytes x(b.begin() + n.at, b.begin() + n.end); if (x.size() > 20000) return "none"; size_t to = r.coin() ? m.at : std::min(m.at + m.hdr, m.end); if (r.coin()) grow(b, o, m.parent, (long)x.size()); b.insert(b.begin() + to, x.begin(), x.end()); } return "copy:" + n.type;
    case 9: { const char* T[] = {"trak", "mdia", "minf", "stbl", "stsd", "stts", "ctts", "stss", "stsc", "stsz", "stco", "co64", "hdlr", "mdhd", "tkhd", "mvhd", "avc1", "mp4a", "avcC", "esds", "elst", "edts", "uuid", "mdat", "free", "moov", "ftyp", "styp", "meta", "vmhd", "smhd", "dref", "url ", "encv", "enca", "btrt", "pasp", "text", "abcd", "dinf"}; memcpy(&b[n.at + 4], T[r.below(sizeof T / sizeof *T)], 4); } return "type:" + n.type;
    case 10: { uint32_t v; switch (r.below(5)) { case 0: v = (uint32_t)(n.end - n.at) + (uint32_t)r.range(-12, 12); break; case 1: v = (uint32_t)r.below(17); break; case 2: v = V[r.below(sizeof V / 4)]; break; case 3: v = 0; break; default: v = (uint32_t)(b.size() - n.at) + (uint32_t)r.range(-3, 3); } w32(b, n.at, v); if (v == 1 && n.at + 16 <= b.size()) { w32(b, n.at + 8, r.coin() ? 0 : V[r.below(sizeof V / 4)]); w32(b, n.at + 12, V[r.below(sizeof V / 4)]); } } return "size:" + n.type;
    case 11: if (len < 2) return "none"; { size_t k = 1 + r.below(std::min<size_t>(len, 40)), p = body + r.below(len - std::min(len, k) + 1); bool cut = r.coin(); if (cut) { k = std::min(k, n.end - p); grow(b, o, ni, -(long)k); b.erase(b.begin() + p, b.begin() + p + k); } else { Bytes x(k); r.fill(x.data(), k); if (r.coin()) std::fill(x.begin(), x.end(), r.coin() ? 0 : 0xff); grow(b, o, ni, (long)k); b.insert(b.begin() + p, x.begin(), x.end()); } } return "resize:" + n.type;
    default: { std::vector<Node> q; tree(other, 0, other.size(), 0, (size_t)-1, q); std::vector<size_t> same; for (size_t i = 0; i < q.size(); i++) if (q[i].type == n.type && q[i].type != "mdat") same.push_back(i); if (same.empty()) return "none"; const Node& s = q[same[r.below(same.size())]]; Bytes x(other.begin() + s.at, other.begin() + s.end); if (r.chance(3, 4)) grow(b, o, n.parent, (long)x.size() - (long)(n.end - n.at)); b.erase(b.begin() + n.at, b.begin() + n.end); b.insert(b.begin() + n.at, x.begin(), x.end()); } return "splice:" + n.type;
  }
}
