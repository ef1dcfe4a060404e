// Small building blocks with an independent oracle each: base64, CRC-32/MPEG-2, calendar time, memory streams, sample queues, time text.
#include "vh.h"
#include "mgcore.h"
#include <mg/core/file.h>
#include <mg/core/ctime.h>
#include <mg/core/util.h>
#include <mg/media/TBitstream.h>
#include <mg/media/fixed_queue.h>
#include <mg/media/media_queue.h>
#include <mg/media/wincrc.h>
#include <b64/include/cdecode.h>
#include <b64/include/cencode.h>
#include <deque>
#include <memory>
#include <thread>
#include <atomic>
#include <time.h>
#include <sys/stat.h>
using namespace mg::core;
using namespace vh;
typedef std::vector<unsigned char> Bytes;
static std::string tmpdir() { static std::string d = [] { const char* e = getenv("VH_TMP"); std::string s = e ? e : "/tmp"; s += fmt("/ms.%d", (int)getpid()); mkdir(s.c_str(), 0755); return s; }(); return d; }
static Bytes rnd(Rng& r, size_t n) { Bytes d(n); r.fill(d.data(), n); return d; }
static Bytes get_file(const std::string& p) { Bytes d; FILE* f = ::fopen(p.c_str(), "rb"); if (!f) return d; unsigned char b[65536]; size_t r; while ((r = ::fread(b, 1, sizeof b, f)) > 0) d.insert(d.end(), b, b + r); ::fclose(f); return d; }

// ------------------------------------------------------------------ base64 (RFC 4648 alphabet; decoding skips everything else)
static std::string ref64(const Bytes& d) {
  static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o;
  for (size_t i = 0; i < d.size(); i += 3) { unsigned v = d[i] << 16 | (i + 1 < d.size() ? d[i + 1] << 8 : 0) | (i + 2 < d.size() ? d[i + 2] : 0); o += A[v >> 18]; o += A[v >> 12 & 63]; o += i + 1 < d.size() ? A[v >> 6 & 63] : '='; o += i + 2 < d.size() ? A[v & 63] : '='; }
  return o;
}
static std::string enc(Rng& r, const Bytes& d) {
  base64_encodestate st; base64_init_encodestate(&st); std::string o; size_t k = 0;
  do { size_t n = r.coin() ? d.size() - k : r.below(d.size() - k + 1); std::unique_ptr<char[]> in(new char[n ? n : 1]); memcpy(in.get(), d.data() + k, n); std::unique_ptr<char[]> out(new char[n * 2 + 4]); int w = base64_encode_block(in.get(), (int)n, out.get(), &st); o.append(out.get(), w); k += n; } while (k < d.size());
  char e[8]; int w = base64_encode_blockend(e, &st); o.append(e, w); return o;
}
static Bytes dec(Rng& r, const std::string& s, bool blocks) {
  base64_decodestate st; base64_init_decodestate(&st); Bytes o; size_t k = 0;
  do { size_t n = !blocks || r.coin() ? s.size() - k : r.below(s.size() - k + 1); std::unique_ptr<char[]> in(new char[n ? n : 1]); memcpy(in.get(), s.data() + k, n); std::unique_ptr<char[]> out(new char[n + 2]); memset(out.get(), 0, n + 2); size_t w = base64_decode_block(in.get(), (int)n, out.get(), &st); if (w > n) abort(); o.insert(o.end(), out.get(), out.get() + w); k += n; } while (k < s.size());
  return o;
}
static void g_base64(Ctx& c) {
  Bytes d = rnd(c.rng, c.rng.size(3000)); std::string e = enc(c.rng, d), want = ref64(d); while (e.size() && e.back() == '\n') e.pop_back();
  VREQ(c, e == want, "base64:encode", "%zu bytes encoded as %s, expected %s", d.size(), e.substr(0, 80).c_str(), want.substr(0, 80).c_str());
  Bytes b = dec(c.rng, want, c.rng.coin());
  VREQ(c, b == d, "base64:round-trip", "%zu bytes became %zu", d.size(), b.size());
  // characters outside the alphabet are skipped
  std::string noisy; uint64_t ins = 0; for (char ch : want) { while (c.rng.chance(1, 5)) { unsigned char x = (unsigned char)c.rng.below(256); if (isalnum(x) || x == '+' || x == '/') continue; noisy += (char)x; ins++; } noisy += ch; }
  Bytes b2 = dec(c.rng, noisy, c.rng.coin());
  VREQ(c, b2 == d, "base64:noise", "with %llu other characters in it, %zu bytes became %zu", (unsigned long long)ins, d.size(), b2.size());
  // every single byte value decodes to its value or to -1
  for (int k = 0; k < 16; k++) { int x = (int)c.rng.below(256); int v = base64_decode_value((char)x); static const std::string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; size_t p = A.find((char)x); int w = p == std::string::npos || !x ? -1 : (int)p; VREQ(c, w >= 0 ? v == w : v < 0, "base64:value", "character %d decodes to %d", x, v); }
  c.count("base64_bytes", d.size()); c.count("base64_noise", ins); c.feature(want); c.note(want.substr(0, 60));
}
// ------------------------------------------------------------------ CRC-32/MPEG-2, bit by bit
static uint32_t refcrc(const unsigned char* p, size_t n, uint32_t c = 0xffffffff) { while (n--) { c ^= (uint32_t)*p++ << 24; for (int i = 0; i < 8; i++) c = c & 0x80000000 ? c << 1 ^ 0x04C11DB7 : c << 1; } return c; }
static void g_crc(Ctx& c) {
  Bytes d = rnd(c.rng, c.rng.size(2000)); size_t off = c.rng.below(8); std::unique_ptr<unsigned char[]> b(new unsigned char[off + d.size() + (d.empty() ? 1 : 0)]); memcpy(b.get() + off, d.data(), d.size());
  CWinCrc w; uint32_t v = w.crc_32(b.get() + off, (unsigned)d.size()), e = refcrc(d.data(), d.size());
  VREQ(c, v == e, "crc:value", "CRC of %zu bytes at alignment %zu is %08x, expected %08x", d.size(), off, v, e);
  d.push_back(e >> 24); d.push_back(e >> 16); d.push_back(e >> 8); d.push_back(e);
  VREQ(c, w.crc_32(d.data(), (unsigned)d.size()) == 0, "crc:residue", "a section followed by its CRC does not give 0");
  c.count("crc_bytes", d.size()); c.feature((uint64_t)e << 8 | off); c.note(fmt("%zu bytes crc %08x", d.size(), e));
}
// ------------------------------------------------------------------ calendar
static int64_t days_from_civil(int64_t y, unsigned m, unsigned d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (int64_t)doe - 719468; }
static int mdays(int y, int m) { static const int k[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && (y % 4 == 0 && (y % 100 || y % 400 == 0)) ? 29 : k[m - 1]; }
static void g_ctime(Ctx& c) {
  static const char* zones[] = {"UTC0", "XXX-5:30", "YYY3", "ZZZ-9", "AAA11:15"}; static const int zmin[] = {0, 330, -180, 540, -675};
  int z = (int)c.rng.below(5); setenv("TZ", zones[z], 1); tzset();
  int y = (int)c.rng.range(1902, 2200), m = (int)c.rng.range(1, 12), d = (int)c.rng.range(1, mdays(y, m)), hh = (int)c.rng.below(24), mi = (int)c.rng.below(60), ss = (int)c.rng.below(60), ms = (int)c.rng.below(1000);
  std::string txt = fmt("%04d-%02d-%02d %02d:%02d:%02d.%03d", y, m, d, hh, mi, ss, ms); c.note(txt + " " + zones[z]);
  Ctime t(txt.c_str(), false);
  int64_t secs = days_from_civil(y, m, d) * 86400 + hh * 3600 + mi * 60 + ss;
  VREQ(c, t.ToDateString() == fmt("%04d-%02d-%02d", y, m, d).c_str(), "time:date-text", "%s prints date %s", txt.c_str(), (const char*)t.ToDateString());
  VREQ(c, t.ToTimeString() == fmt("%02d:%02d:%02d", hh, mi, ss).c_str(), "time:time-text", "%s prints time %s", txt.c_str(), (const char*)t.ToTimeString());
  const SYSTEMTIME& st = t.get_Time(); VREQ(c, st.wYear == y && st.wMonth == m && st.wDay == d && st.wHour == hh && st.wMinute == mi && st.wSecond == ss && st.wMilliseconds == ms, "time:fields", "%s gave %d-%d-%d %d:%d:%d.%d", txt.c_str(), st.wYear, st.wMonth, st.wDay, st.wHour, st.wMinute, st.wSecond, st.wMilliseconds);
  VREQ(c, t.ToXml() == fmt("%04d-%02d-%02dT%02d:%02d:%02d.%03dZ", y, m, d, hh, mi, ss, ms).c_str(), "time:xml", "%s prints %s", txt.c_str(), (const char*)t.ToXml());
  // differences
  int y2 = (int)c.rng.range(1902, 2200), m2 = (int)c.rng.range(1, 12), d2 = (int)c.rng.range(1, mdays(y2, m2)); Ctime t2(y2, m2, d2); int64_t secs2 = days_from_civil(y2, m2, d2) * 86400;
  int64_t diff = t.Seconds(&t2.get_Time()), e = ((secs - secs2) * 1000 + ms) / 1000;
  VREQ(c, diff == e, "time:difference", "%s minus %d-%d-%d is %lld s, expected %lld", txt.c_str(), y2, m2, d2, (long long)diff, (long long)e);
  VREQ(c, t.Minutes(&t2.get_Time()) == e / 60 && t.Hours(&t2.get_Time()) == e / 60 / 60 && t.Days(&t2.get_Time()) == e / 60 / 1440, "time:difference-units", "minutes, hours or days of the difference are wrong");
  // now
  struct timespec a, b; clock_gettime(CLOCK_REALTIME, &a); Ctime now(false); clock_gettime(CLOCK_REALTIME, &b);
  int64_t lo = a.tv_sec * 10000000ll + a.tv_nsec / 100, hi = b.tv_sec * 10000000ll + b.tv_nsec / 100; VREQ(c, now.TotalHNano() >= lo && now.TotalHNano() <= hi, "time:now", "now is %lld, clock says [%lld,%lld]", (long long)now.TotalHNano(), (long long)lo, (long long)hi);
  Ctime ref(1904, 1, 1); int64_t mp4 = now.Seconds(&ref.get_Time()), m0 = a.tv_sec - days_from_civil(1904, 1, 1) * 86400, m1 = b.tv_sec - days_from_civil(1904, 1, 1) * 86400;
  VREQ(c, mp4 >= m0 && mp4 <= m1, "time:since-1904", "%lld s since 1904, expected [%lld,%lld]", (long long)mp4, (long long)m0, (long long)m1);
  VREQ(c, Ctime::GetLocalOffset() == zmin[z], "time:offset", "offset of %s is %lld min", zones[z], (long long)Ctime::GetLocalOffset());
  Ctime loc(true); std::string x = (const char*)loc.ToXml(); int om = zmin[z] < 0 ? -zmin[z] : zmin[z]; std::string tail = zmin[z] ? fmt("%c%02d:%02d", zmin[z] < 0 ? '-' : '+', om / 60, om % 60) : "Z"; VREQ(c, x.size() == 23 + tail.size() && x.substr(23) == tail, "time:xml-offset", "%s in %s", x.c_str(), zones[z]);
  c.count("times"); c.feature(txt);
}
// ------------------------------------------------------------------ memory streams
static void g_memstream(Ctx& c) {
  uint32_t init = (uint32_t)c.rng.range(1, 400), B = (uint32_t)c.rng.range(16, 600); write_memory_bitstream w(init, B); Bytes model; uint64_t pos = 0; std::string tr = fmt("memory stream %u/%u:", init, B);
  unsigned n = (unsigned)c.rng.range(1, 80);
  for (unsigned i = 0; i < n; i++) {
    auto put = [&](const Bytes& d) { if (model.size() < pos + d.size()) model.resize(pos + d.size()); memcpy(&model[pos], d.data(), d.size()); pos += d.size(); };
    switch (c.rng.below(5)) {
      case 0: case 1: { int k = (int)c.rng.range(1, 4); uint32_t v = (uint32_t)c.rng.next(); w.putbits(v, k * 8); Bytes d; for (int j = k - 1; j >= 0; j--) d.push_back(v >> (8 * j)); put(d); tr += fmt(" b%d", k); break; }
      case 2: { Bytes d = rnd(c.rng, 1 + c.rng.size(1500)); w.write(d.data(), (uint32_t)d.size()); put(d); tr += fmt(" w%zu", d.size()); break; }
      case 3: w.flush(); tr += " f"; break;
      case 4: { w.flush(); if (!model.size()) break; pos = c.rng.below(model.size() + 1); if (pos == model.size()) pos--; w.set_position(pos); tr += fmt(" @%llu", (unsigned long long)pos); c.count("memory_seeks"); break; }
    }
    VREQ(c, w.get_position() == pos, "memstream:position", "position %llu, expected %llu;%s", (unsigned long long)w.get_position(), (unsigned long long)pos, tr.c_str());
  }
  w.flush();
  VREQ(c, w.get_size() == model.size(), "memstream:size", "size %llu, expected %zu;%s", (unsigned long long)w.get_size(), model.size(), tr.c_str());
  VREQ(c, model.empty() || !memcmp(w.get_buffer(), model.data(), model.size()), "memstream:content", "other bytes than written;%s", tr.c_str());
  c.count("memory_streams"); c.feature(tr); c.note(tr);
}
// whole-file stream classes the media files are built on
struct IoBase { IBitstream* _p_f = nullptr; };
static void g_filestream(Ctx& c) {
  std::string fn = tmpdir() + "/fs"; unlink(fn.c_str()); bool async = c.rng.coin(); Bytes d = rnd(c.rng, 1 + c.rng.size(60000)); std::string tr = fmt("%s %zu", async ? "async" : "sync", d.size());
  mg::uv::loopthread t; t.Create(); t->set_wait_time(1); t->start();
  {
    std::unique_ptr<base_file_midia_bitstream<IoBase>> w; if (async) w.reset(new file_media_bitstream<IoBase, O_CREAT | O_WRONLY | O_TRUNC>(t, 1000)); else w.reset(new sync_file_media_bitstream<IoBase, false>(1000));
    w->open(fn.c_str()); size_t k = 0;
    while (k < d.size()) { size_t n = std::min<size_t>(d.size() - k, 1 + c.rng.size(5000)); if (c.rng.chance(1, 4)) { n = std::min<size_t>(n, 300); for (size_t j = 0; j < n; j++) w->_p_f->putbits(d[k + j], 8); } else w->_p_f->write(&d[k], (uint32_t)n); k += n; }
    w->close();
    VREQ(c, get_file(fn) == d, "filestream:content", "%s: the closed file has %zu bytes, not those written", tr.c_str(), get_file(fn).size());
  }
  {
    std::unique_ptr<base_file_midia_bitstream<IoBase>> r; if (async) r.reset(new file_media_bitstream<IoBase>(t, 1000)); else r.reset(new sync_file_media_bitstream<IoBase, true>(1000));
    r->open(fn.c_str()); Bytes b(d.size()); uint32_t got = 0; r->_p_f->read(b.data(), (uint32_t)b.size(), &got); VREQ(c, got == d.size() && b == d && r->_p_f->eof(), "filestream:read", "%s: read back %u bytes", tr.c_str(), got); r->close();
  }
  t->end(); unlink(fn.c_str());
  c.count("file_streams"); c.feature(tr); c.note(tr);
}
// ------------------------------------------------------------------ sample queues
struct Tag { int64_t a, b; };
struct QItem { Tag t; Bytes d; };
template <class Q> static bool same_head(Q& q, const QItem& e) { int n = 0; BYTE* p = nullptr; const Tag* t = q.pick_next(&n, &p); return t->a == e.t.a && t->b == e.t.b && n == (int)e.d.size() && !memcmp(p, e.d.data(), n); }
static void g_queue(Ctx& c) {
  int mode = (int)c.rng.below(3);   // 0 drops the oldest, 1 refuses, 2 grows
  int size = (int)c.rng.range(200, 3000); std::string tr = fmt("queue mode %d size %d:", mode, size);
  struct Refuse : cfixed_queue<Tag> { bool delete_on_no_space() override { return false; } };
  cfixed_queue<Tag> drop; Refuse refuse; grow_queue<Tag> grow; cfixed_queue<Tag>* q = mode == 0 ? &drop : mode == 1 ? (cfixed_queue<Tag>*)&refuse : &grow; q->allocate(true, size);
  std::deque<QItem> m; int64_t seq = 0; uint64_t refused = 0, dropped = 0; unsigned n = (unsigned)c.rng.range(5, 150); const int over = 12 + sizeof(Tag);
  for (unsigned i = 0; i < n; i++) {
    int op = (int)c.rng.below(5);
    if (op < 3) {
      size_t mx = mode == 2 ? 700 : (size_t)(size - 24 - over); QItem it = {{seq, (int64_t)c.rng.next()}, rnd(c.rng, 1 + c.rng.size(std::min<size_t>(mx - 1, 500)))}; seq++;
      bool ok = q->push(it.t, it.d.data(), (unsigned)it.d.size(), true); if (tr.size() < 900) tr += fmt(" +%zu%s", it.d.size(), ok ? "" : "!");
      if (ok) m.push_back(it); else { refused++; VREQ(c, mode == 1, "queue:refused", "a push was refused;%s", tr.c_str()); }
      if (mode == 0) { while ((int)m.size() > q->size()) { m.pop_front(); dropped++; } }
    } else if (op == 3 && q->size()) {
      const QItem e = m.front(); std::unique_ptr<BYTE[]> b(new BYTE[e.d.size() + 1]); int rd = 0; int cap = c.rng.chance(1, 6) ? (int)e.d.size() - 1 : (int)e.d.size(); Tag t = q->pop(b.get(), cap, &rd); if (tr.size() < 900) tr += " -";
      VREQ(c, rd == (int)e.d.size() && t.a == e.t.a && t.b == e.t.b, "queue:pop", "popped item %lld of %d bytes, expected %lld of %zu;%s", (long long)t.a, rd, (long long)e.t.a, e.d.size(), tr.c_str());
      if (cap >= rd) { VREQ(c, !memcmp(b.get(), e.d.data(), rd), "queue:pop-content", "other bytes;%s", tr.c_str()); m.pop_front(); } else c.count("queue_small_pops");
    } else if (op == 4 && q->size()) { if (c.rng.chance(1, 12)) { q->clear(); m.clear(); tr += " 0"; } else { q->delete_item(); m.pop_front(); tr += " x"; } }
    VREQ(c, q->size() == (int)m.size(), "queue:size", "size %d, expected %zu;%s", q->size(), m.size(), tr.c_str());
    if (m.size()) VREQ(c, same_head(*q, m.front()), "queue:head", "the head is another item than the oldest one;%s", tr.c_str());
  }
  while (q->size()) { VREQ(c, same_head(*q, m.front()), "queue:order", "draining gives another item;%s", tr.c_str()); q->delete_item(); m.pop_front(); }
  VREQ(c, m.empty(), "queue:lost", "%zu items lost;%s", m.size(), tr.c_str());
  c.count("queue_pushes", seq); c.count("queue_dropped", dropped); c.count("queue_refused", refused); c.feature(tr); c.note(tr);
}
static void g_queue_mt(Ctx& c) {
  grow_queue<Tag> q; q.allocate(true, (int)c.rng.range(300, 2000)); unsigned n = (unsigned)c.rng.range(50, 400); uint64_t s = c.rng.next(); std::atomic<bool> bad(false); std::atomic<unsigned> done(0);
  std::thread pr([&] { Rng r(s); for (unsigned i = 0; i < n; i++) { Bytes d(1 + r.below(200), (unsigned char)i); Tag t = {(int64_t)i, (int64_t)d.size()}; { auto_lock l(q.get_lock()); q.push(t, d.data(), (unsigned)d.size()); } if (r.chance(1, 20)) usleep((useconds_t)r.below(200)); } done = 1; });
  unsigned got = 0; std::vector<BYTE> b(512);
  while (got < n) { if (!q.size()) { if (done == 1 && !q.size() && got < n) { bad = true; break; } usleep(20); continue; } int rd = 0; Tag t = q.pop(b.data(), 512, &rd); if (t.a != (int64_t)got || t.b != rd) { bad = true; break; } for (int i = 0; i < rd; i++) if (b[i] != (unsigned char)got) { bad = true; break; } got++; }
  pr.join();
  VREQ(c, !bad && got == n, "queue:concurrent", "consumer got %u of %u items in order", got, n);
  c.count("queue_handoffs", got); c.feature(s); c.note(fmt("%u items handed between threads", n));
}
static void g_hnano(Ctx& c) {
  int64_t v = (int64_t)(c.rng.next() >> c.rng.range(1, 60)); if (c.rng.coin()) v = -v; if (c.rng.chance(1, 4)) v = v / 10000 * 10000;
  uint64_t a = v < 0 ? -(uint64_t)v : v; uint64_t msr = a / 10000; std::string e = fmt("%s%02llu:%02llu:%02llu.%03llu", v < 0 ? "-" : "", (unsigned long long)(msr / 3600000), (unsigned long long)(msr / 60000 % 60), (unsigned long long)(msr / 1000 % 60), (unsigned long long)(msr % 1000));
  Cstring s = hns(v); VREQ(c, s == e.c_str(), "hnano:text", "%lld hns prints as %s, expected %s", (long long)v, (const char*)s, e.c_str());
  int64_t H = c.rng.below(1000), M = c.rng.below(60), S = c.rng.below(60), L = c.rng.below(1000); HundredNano h(H, M, S, L); VREQ(c, h.H() == H && h.M() == M && h.S() == S && h.ML() == L, "hnano:fields", "%lld:%lld:%lld.%lld comes back as %lld:%lld:%lld.%lld", (long long)H, (long long)M, (long long)S, (long long)L, (long long)h.H(), (long long)h.M(), (long long)h.S(), (long long)h.ML());
  c.count("time_texts"); c.feature((uint64_t)v); c.note(e);
}
// file system helpers
static void g_fs(Ctx& c) {
  std::string d = tmpdir() + fmt("/fs%llu", (unsigned long long)c.index), f = d + "/x"; std::string env = fmt("VH_ENV_%llu", (unsigned long long)c.rng.below(1000)); std::string val; for (uint64_t i = c.rng.below(300); i; i--) val += (char)('a' + c.rng.below(26));
  setenv(env.c_str(), val.c_str(), 1); VREQ(c, get_env_variable(env.c_str()) == val.c_str(), "fs:env", "%s", env.c_str()); unsetenv(env.c_str());
  create_directory(d.c_str()); struct stat st; VREQ(c, !stat(d.c_str(), &st) && S_ISDIR(st.st_mode), "fs:mkdir", "%s not created", d.c_str());
  create_directory(d.c_str());
  { FILE* k = fopen(f.c_str(), "wb"); fclose(k); } delete_file(f.c_str()); VREQ(c, stat(f.c_str(), &st) != 0, "fs:delete", "%s still there", f.c_str());
  rmdir(d.c_str());
  bool threw = false; try { create_directory((d + "/no/such").c_str()); } catch (mgexceptionbase&) { threw = true; } VREQ(c, threw, "fs:mkdir-error", "creating a directory in a missing one did not throw");
  c.count("fs_calls"); c.feature(c.index); c.note(d);
}
int main(int argc, char** argv) {
  return vh::run(argc, argv, {{"base64", g_base64}, {"crc", g_crc}, {"ctime", g_ctime}, {"memstream", g_memstream}, {"filestream", g_filestream}, {"queue", g_queue}, {"queue_mt", g_queue_mt}, {"hnano", g_hnano}, {"fs", g_fs}});
}
