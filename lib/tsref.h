// Independent reader of MPEG-2 transport streams (ISO 13818-1) and m3u8 playlists: nothing here uses the code under test.
#pragma once
#include "mp4gen.h"
#include <map>
#include <set>
namespace tsref {
using vh::fmt;
inline uint32_t crc32m(const unsigned char* p, size_t n) { uint32_t c = 0xffffffff; for (size_t i = 0; i < n; i++) { c ^= (uint32_t)p[i] << 24; for (int k = 0; k < 8; k++) c = c & 0x80000000u ? (c << 1) ^ 0x04C11DB7u : c << 1; } return c; }
struct Pes { int pid = 0, sid = 0; bool pts_f = false, dts_f = false; uint64_t pts = 0, dts = 0; bool rai = false, pcr_f = false; uint64_t pcr = 0 /* 27 MHz */; uint32_t length = 0; size_t hdr = 0, packet = 0; Bytes data; };
struct Stream { int type = 0, pid = 0; std::vector<Pes> pes; };
struct Ts { std::vector<Stream> st; int pmt_pid = -1, pcr_pid = -1; size_t packets = 0, tables = 0, empty = 0; std::map<int, int> last_cc, first_cc; Stream* by_pid(int p) { for (auto& s : st) if (s.pid == p) return &s; return nullptr; } Stream* by_type(int t) { for (auto& s : st) if (s.type == t) return &s; return nullptr; } };
struct Sec { Bytes d; size_t need = 0; };
inline std::string finish(Ts& t, int pid, Bytes& b, Pes& meta) {
  if (b.empty()) return ""; Stream* s = t.by_pid(pid); if (!s) return fmt("PID 0x%x carries a PES but is not in the PMT", pid);
  if (b.size() < 9 || b[0] || b[1] || b[2] != 1) return fmt("PID 0x%x: no PES start code", pid); Pes p = meta; p.pid = pid; p.sid = b[3]; p.length = b[4] << 8 | b[5]; if (p.length && p.length + 6u != b.size()) return fmt("PID 0x%x: PES_packet_length %u but %zu bytes follow", pid, p.length, b.size() - 6); if (!p.length && (p.sid & 0xf0) != 0xe0) return "PES without length is not video";
  if ((b[6] & 0xc0) != 0x80) return "PES marker"; if (b[6] & 0x30) return "scrambled PES"; int f = b[7] >> 6; if (f == 1) return "DTS without PTS"; if (b[7] & 0x3f) return fmt("PES flags %02x", b[7]); size_t h = b[8]; p.hdr = 9 + h; if (p.hdr > b.size()) return "PES header longer than the packet"; size_t o = 9; size_t need = f == 3 ? 10 : f == 2 ? 5 : 0; if (h < need) return fmt("PES header length %zu for flags %d", h, f);
  auto ts = [&](int mark, uint64_t& v) { const unsigned char* q = &b[o]; o += 5; if (q[0] >> 4 != mark || !(q[0] & 1) || !(q[2] & 1) || !(q[4] & 1)) return false; v = (uint64_t)(q[0] >> 1 & 7) << 30 | (uint64_t)q[1] << 22 | (uint64_t)(q[2] >> 1) << 15 | q[3] << 7 | q[4] >> 1; return true; };
  if (f & 2) { p.pts_f = true; if (!ts(f, p.pts)) return "PTS marker bits"; } if (f == 3) { p.dts_f = true; if (!ts(1, p.dts)) return "DTS marker bits"; } for (; o < p.hdr; o++) if (b[o] != 0xff) return "PES stuffing"; p.data.assign(b.begin() + p.hdr, b.end()); s->pes.push_back(p); b.clear(); return "";
}
// cc0: the continuity counters expected for the first packet of each PID may follow those of the previous segment
inline std::string read_ts(const Bytes& d, Ts& t) {
  if (d.size() % 188) return fmt("%zu bytes are not whole packets", d.size()); std::map<int, Bytes> cur; std::map<int, Pes> meta; Bytes first_pat, first_pmt;
  for (size_t n = 0; n < d.size() / 188; n++) {
    const unsigned char* p = &d[n * 188]; t.packets++; if (p[0] != 0x47) return fmt("packet %zu: no sync byte", n); if (p[1] & 0x80) return "transport error"; bool start = p[1] & 0x40; int pid = (p[1] & 0x1f) << 8 | p[2]; if (p[3] >> 6) return "scrambled packet"; int afc = p[3] >> 4 & 3, cc = p[3] & 15; size_t o = 4; bool rai = false, pcr_f = false; uint64_t pcr = 0;
    if (!afc) return fmt("packet %zu: neither payload nor adaptation", n);
    if (t.last_cc.count(pid)) { if (cc != ((t.last_cc[pid] + 1) & 15)) return fmt("packet %zu: continuity counter of PID 0x%x goes from %d to %d", n, pid, t.last_cc[pid], cc); } else t.first_cc[pid] = cc; t.last_cc[pid] = cc;
    if (afc & 2) { size_t l = p[4]; if (l > 183) return fmt("packet %zu: adaptation field of %zu bytes", n, l); o = 5 + l; if (l) { rai = p[5] & 0x40; pcr_f = p[5] & 0x10; size_t used = 1; if (p[5] & 0x2f) return fmt("packet %zu: adaptation flags %02x", n, p[5]); if (pcr_f) { if (l < 7) return "no room for the PCR"; uint64_t base = (uint64_t)p[6] << 25 | (uint64_t)p[7] << 17 | p[8] << 9 | p[9] << 1 | p[10] >> 7; pcr = base * 300 + ((p[10] & 1) << 8 | p[11]); used += 6; } for (size_t k = used; k < l; k++) if (p[5 + k] != 0xff) return fmt("packet %zu: stuffing byte %02x", n, p[5 + k]); } }
    if (!(afc & 1) || o >= 188) { if (start) return "unit start without payload"; t.empty++; continue; }
    if (pid == 0 || pid == t.pmt_pid) {
      if (!start) return "table over several packets"; size_t q = o + 1 + p[o]; if (q + 3 > 188) return "pointer field"; size_t len = (p[q + 1] & 15) << 8 | p[q + 2]; if (!(p[q + 1] & 0x80)) return "section_syntax_indicator"; if (q + 3 + len > 188) return "section does not fit"; if (crc32m(p + q, 3 + len)) return fmt("packet %zu: CRC of the table on PID 0x%x", n, pid); for (size_t k = q + 3 + len; k < 188; k++) if (p[k] != 0xff) return "bytes after the section"; Bytes sec(p + q, p + q + 3 + len); t.tables++; if (!(p[q + 5] & 1)) return "table is not current";
      if (pid == 0) { if (p[q]) return "PAT table id"; if (len != 13) return fmt("PAT of %zu bytes", len); int prog = p[q + 8] << 8 | p[q + 9]; if (!prog) return "program 0"; int pm = (p[q + 10] & 0x1f) << 8 | p[q + 11]; if (t.pmt_pid >= 0 && pm != t.pmt_pid) return "PAT changes"; t.pmt_pid = pm; if (first_pat.size() && first_pat != sec) return "PAT changes"; first_pat = sec; }
      else { if (p[q] != 2) return "PMT table id"; if (first_pmt.size()) { if (first_pmt != sec) return "PMT changes"; continue; } first_pmt = sec; t.pcr_pid = (p[q + 8] & 0x1f) << 8 | p[q + 9]; size_t k = q + 12 + ((p[q + 10] & 15) << 8 | p[q + 11]), e = q + 3 + len - 4; while (k < e) { if (k + 5 > e) return "PMT entry"; Stream s; s.type = p[k]; s.pid = (p[k + 1] & 0x1f) << 8 | p[k + 2]; if (t.by_pid(s.pid)) return "PID twice in the PMT"; t.st.push_back(s); k += 5 + ((p[k + 3] & 15) << 8 | p[k + 4]); } if (k != e) return "PMT length"; if (!t.by_pid(t.pcr_pid)) return fmt("PCR PID 0x%x is not a stream", t.pcr_pid); }
      continue;
    }
    if (t.pmt_pid < 0) return fmt("packet %zu: PID 0x%x before the tables", n, pid); if (!t.by_pid(pid)) return fmt("packet %zu: PID 0x%x is not in the PMT", n, pid);
    if (start) { std::string e = finish(t, pid, cur[pid], meta[pid]); if (!e.empty()) return e; Pes m; m.rai = rai; m.pcr_f = pcr_f; m.pcr = pcr; m.packet = n; meta[pid] = m; cur[pid].clear(); } else { if (cur[pid].empty()) return fmt("packet %zu: PID 0x%x does not start with a PES", n, pid); if (pcr_f && pid != t.pcr_pid) return "PCR on another PID"; }
    cur[pid].insert(cur[pid].end(), p + o, p + 188);
  }
  for (auto& k : cur) { std::string e = finish(t, k.first, k.second, meta[k.first]); if (!e.empty()) return e; } if (t.pmt_pid < 0 || t.st.empty()) return "no tables"; return "";
}
// Annex B: the units between start codes, without them and without trailing zeros
inline std::vector<Bytes> annexb(const Bytes& d) { std::vector<Bytes> v; size_t i = 0; bool in = false; size_t b = 0; auto close = [&](size_t e) { while (e > b && d[e - 1] == 0) e--; v.push_back(Bytes(d.begin() + b, d.begin() + e)); }; while (i + 3 <= d.size()) { if (!d[i] && !d[i + 1] && d[i + 2] == 1) { if (in) close(i); in = true; b = i + 3; i += 3; } else i++; } if (in) close(d.size()); return v; }
struct Adts { int mpeg = 0, layer = 0, prot = 0, profile = 0, rate = 0, chan = 0, blocks = 0; Bytes data; };
inline std::string adts(const Bytes& d, std::vector<Adts>& v) { size_t i = 0; while (i < d.size()) { if (i + 7 > d.size()) return "ADTS header cut"; const unsigned char* p = &d[i]; if (p[0] != 0xff || p[1] >> 4 != 15) return "ADTS syncword"; Adts a; a.mpeg = p[1] >> 3 & 1; a.layer = p[1] >> 1 & 3; a.prot = p[1] & 1; a.profile = p[2] >> 6; a.rate = p[2] >> 2 & 15; a.chan = (p[2] & 1) << 2 | p[3] >> 6; size_t len = (p[3] & 3) << 11 | p[4] << 3 | p[5] >> 5; a.blocks = p[6] & 3; size_t h = a.prot ? 7 : 9; if (a.layer) return "ADTS layer"; if (len < h || i + len > d.size()) return fmt("ADTS frame of %zu bytes, %zu left", len, d.size() - i); a.data.assign(p + h, p + len); v.push_back(a); i += len; } return ""; }
// ---- playlists
struct M3u { bool m3u = false, end = false; int version = -1; long target = -1; long sequence = 0; std::string key, iv; struct Seg { double dur; std::string uri; }; std::vector<Seg> seg; struct Var { std::map<std::string, std::string> a; std::string uri; }; std::vector<Var> var; };
inline std::map<std::string, std::string> attrs(const std::string& s, bool& ok) { std::map<std::string, std::string> m; size_t i = 0; ok = true; while (i < s.size()) { size_t e = s.find('=', i); if (e == std::string::npos) { ok = false; break; } std::string k = s.substr(i, e - i), v; i = e + 1; if (i < s.size() && s[i] == '"') { size_t q = s.find('"', i + 1); if (q == std::string::npos) { ok = false; break; } v = s.substr(i + 1, q - i - 1); i = q + 1; } else { size_t q = s.find(',', i); if (q == std::string::npos) q = s.size(); v = s.substr(i, q - i); i = q; } if (m.count(k)) ok = false; m[k] = v; if (i < s.size()) { if (s[i] != ',') { ok = false; break; } i++; } } return m; }
inline std::string m3u8(const Bytes& b, M3u& m) {
  std::string s(b.begin(), b.end()); std::vector<std::string> l; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) return "last line is not terminated"; std::string x = s.substr(i, e - i); if (x.size() && x.back() == '\r') x.pop_back(); l.push_back(x); i = e + 1; } if (l.empty() || l[0] != "#EXTM3U") return "does not begin with #EXTM3U"; m.m3u = true; double dur = -1; bool have = false, inf = false; M3u::Var v;
  for (size_t n = 1; n < l.size(); n++) { const std::string& x = l[n]; auto tag = [&](const char* t) { return x.compare(0, strlen(t), t) == 0; }; for (char ch : x) if ((unsigned char)ch < 32) return "control character"; if (m.end && x.size()) return "text after ENDLIST"; if (x.empty()) continue;
    if (tag("#EXTM3U")) return "#EXTM3U twice"; else if (tag("#EXT-X-VERSION:")) { if (m.version >= 0) return "version twice"; m.version = atoi(x.c_str() + 15); } else if (tag("#EXT-X-TARGETDURATION:")) { if (m.target >= 0) return "target duration twice"; char* e; m.target = strtol(x.c_str() + 22, &e, 10); if (*e) return "target duration is not an integer"; } else if (tag("#EXT-X-MEDIA-SEQUENCE:")) m.sequence = atol(x.c_str() + 22); else if (tag("#EXT-X-KEY:")) { if (m.seg.size()) return "key after segments"; bool ok; auto a = attrs(x.substr(11), ok); if (!ok || a["METHOD"] != "AES-128") return "key attributes"; m.key = a["URI"]; m.iv = a["IV"]; if (m.key.empty()) return "key without URI"; } else if (tag("#EXT-X-ENDLIST")) m.end = true;
    else if (tag("#EXTINF:")) { if (have) return "two EXTINF"; char* e; dur = strtod(x.c_str() + 8, &e); if (*e != ',' || e == x.c_str() + 8) return "EXTINF " + x; have = true; } else if (tag("#EXT-X-STREAM-INF:")) { bool ok; v = M3u::Var(); v.a = attrs(x.substr(18), ok); if (!ok) return "STREAM-INF " + x; inf = true; } else if (x[0] == '#') continue; else if (have) { m.seg.push_back({dur, x}); have = false; } else if (inf) { v.uri = x; m.var.push_back(v); inf = false; } else return "address without a tag: " + x; }
  if (have || inf) return "tag without an address"; return "";
}
}  // namespace tsref
