// The MP4 reader on generated movies (everything it reports is compared with what was generated) and on damaged ones.
#include <mgcore.h>
#include <mg/core/file.h>
#include <mg/media/TBitstream.h>
#include "mp4parse.h"
#include "media_pkg.h"
using namespace ALX;
static uint64_t hns(uint64_t t, uint32_t ts) { return (uint64_t)((unsigned __int128)t * 10000000u / ts); }
struct Scratch { std::string f; ~Scratch() { if (!getenv("VH_KEEP")) unlink(f.c_str()); } };
static std::string put(Ctx& c, const Bytes& b) { std::string p = std::string(getenv("VH_TMP") ? getenv("VH_TMP") : "/tmp") + fmt("/m%d_%llu.mp4", (int)getpid(), (unsigned long long)c.index); save(p, b); return p; }
static Opt some_opt(Ctx& c) { Opt o; o.seconds = 0.1 + c.rng.below(c.thorough ? 200 : 80) / 10.0; o.vsize = 60; o.asize = 60; o.delay = c.rng.coin(); o.vfr = c.rng.chance(1, 3); unsigned k = (unsigned)c.rng.below(8); o.audio = k != 0; o.video = k != 1; o.audio2 = k == 2; o.odd = true; return o; }
static void samples(Ctx& c) {
  Opt o = some_opt(c); Movie m = make_movie(c.rng, o); describe(c, m); Scratch sc{put(c, m.file)}; SYNCMP4File f; f.open(sc.f.c_str()); MP4Reader r; r.parse(f);
  VREQ(c, r.stream_count() == m.t.size() + m.text && r.parsable_stream_count() == m.t.size(), "streams", "%zu want %zu", r.stream_count(), m.t.size()); uint64_t mv = 0; for (auto& t : m.t) mv = std::max(mv, t.duration() * m.timescale / t.timescale + t.delay); VCHECK(c, r.get_duration() == hns(mv, m.timescale), "movie-duration", "%lld want %lld", ll(r.get_duration()), ll(hns(mv, m.timescale)));
  int firstv = -1; for (unsigned i = 0; i < m.t.size(); i++) if (m.t[i].video && firstv < 0) firstv = (int)i; VCHECK(c, r.VisualStream() == firstv && r.HasVisual() == (firstv >= 0) && !r.HasLTC(), "visual-stream", "%d want %d", r.VisualStream(), firstv);
  for (unsigned i = 0; i < m.t.size(); i++) {
    const MTrack& t = m.t[i]; size_t n = t.s.size(); uint32_t ts = t.timescale; VREQ(c, r.get_sample_count(i) == n, "sample-count", "%lld want %zu", ll(r.get_sample_count(i)), n);
    VCHECK(c, r.IsVisual(i) == t.video && r.IsSound(i) == !t.video && !r.IsLTC(i), "kind", "stream %u", i); VCHECK(c, t.lang == r.get_language(i), "language", "%s want %s", r.get_language(i), t.lang.c_str()); VCHECK(c, r.get_media_time_scale(i) == ts, "timescale", "%lld want %u", ll(r.get_media_time_scale(i)), ts); VCHECK(c, r.get_duration(i) == hns(t.duration(), ts), "track-duration", "%lld want %lld", ll(r.get_duration(i)), ll(hns(t.duration(), ts)));
    VCHECK(c, r.get_stream_offset(i) == hns(t.delay, m.timescale), "stream-offset", "%lld want %lld", ll(r.get_stream_offset(i)), ll(hns(t.delay, m.timescale))); VCHECK(c, r.has_composition_time(i) == t.ctts && r.has_random_access_point(i) == t.stss, "has", "stream %u", i);
    uint64_t total = 0, c0 = ~0ull, c1 = 0, e1 = 0; for (auto& s : t.s) { total += s.data.size(); c0 = std::min(c0, s.cts()); if (s.cts() >= c1) { c1 = s.cts(); e1 = s.cts() + s.dur; } }
    VCHECK(c, r.get_total_stream_size(i) == total, "total-size", "%lld want %lld", ll(r.get_total_stream_size(i)), ll(total)); VCHECK(c, r.get_start_time(i) == hns(c0, ts), "start-time", "%lld want %lld", ll(r.get_start_time(i)), ll(hns(c0, ts))); VCHECK(c, r.get_end_time(i) == hns(c1, ts), "end-time", "%lld want %lld", ll(r.get_end_time(i)), ll(hns(c1, ts))); VCHECK(c, r.get_end_time_plus_duration(i) == hns(e1, ts), "end-time-plus", "%lld want %lld", ll(r.get_end_time_plus_duration(i)), ll(hns(e1, ts)));
    VCHECK(c, r.get_decoding_start_time(i) == 0, "decoding-start", "%lld", ll(r.get_decoding_start_time(i))); VCHECK(c, r.get_decoding_end_time(i) == hns(t.s[n - 1].dts, ts), "decoding-end", "%lld want %lld", ll(r.get_decoding_end_time(i)), ll(hns(t.s[n - 1].dts, ts)));
    for (size_t k = 0; k < n; k++) {
      const MSample& s = t.s[k]; VREQ(c, r.get_sample_offset(k, i) == s.offset && r.get_sample_size(k, i) == s.data.size(), "sample-place", "stream %u sample %zu: %lld+%lld want %lld+%zu", i, k, ll(r.get_sample_offset(k, i)), ll(r.get_sample_size(k, i)), ll(s.offset), s.data.size()); VREQ(c, r.get_raw_composition_time(k, i) == s.cts() && r.get_raw_decoding_time(k, i) == s.dts, "sample-ticks", "stream %u sample %zu", i, k);
      VREQ(c, r.get_composition_time(k, i) == hns(s.cts(), ts) && r.get_decoding_time(k, i) == hns(s.dts, ts), "sample-time", "stream %u sample %zu: %lld %lld want %lld %lld", i, k, ll(r.get_composition_time(k, i)), ll(r.get_decoding_time(k, i)), ll(hns(s.cts(), ts)), ll(hns(s.dts, ts)));
    }
    c.count("samples", n); VREQ(c, r.entry_count(i) == 1, "entries", "%d", r.entry_count(i));
    if (t.video) {
      auto& e = r.get_visual_entry(0, i); VCHECK(c, (unsigned)e.get_entry().width == t.w && (unsigned)e.get_entry().height == t.h, "picture-size", "%dx%d want %ux%u", (int)e.get_entry().width, (int)e.get_entry().height, t.w, t.h); Bytes a = t.avcc(); VCHECK(c, e.get_body_size() == a.size() && !memcmp(e.get_body(), a.data(), a.size()), "avcc", "%lld bytes want %zu", ll(e.get_body_size()), a.size());
      auto& h = e.get_avcc_header(); VCHECK(c, h.get_sequence_size() == t.sps.size() && !memcmp(h.get_nal_sequence(), t.sps.data(), t.sps.size()), "sps", "%u bytes want %zu", h.get_sequence_size(), t.sps.size()); VREQ(c, h.get_sequence_count() == 1 && h.get_picture_count() == 1 + t.extra_pps.size(), "sets", "%u pictures want %zu", h.get_picture_count(), 1 + t.extra_pps.size()); for (unsigned q = 0; q <= t.extra_pps.size(); q++) { const Bytes& w = q ? t.extra_pps[q - 1] : t.pps; VCHECK(c, h.get_picture_size(q) == w.size() && !memcmp(h.get_nal_picture(q), w.data(), w.size()), "pps", "%u: %u bytes want %zu", q, h.get_picture_size(q), w.size()); } if (!t.extra_pps.empty()) c.count("many_sets"); VCHECK(c, (int)h.get_nal_length_size() == t.nlen, "nal-length-size", "%u", h.get_nal_length_size());
    } else { auto& e = r.get_audio_entry(0, i); VCHECK(c, (int)e.get_aac_info().object_type == t.aot && (int)e.get_aac_info().sample_rate == AAC_RATES[t.rate_idx] && (int)e.get_aac_info().channels == t.chan, "aac", "type %d rate %d channels %d", (int)e.get_aac_info().object_type, (int)e.get_aac_info().sample_rate, (int)e.get_aac_info().channels); VCHECK(c, (int)e.get_entry().get_channelcount() == t.chan && (e.get_entry().get_samplerate() == (unsigned)(AAC_RATES[t.rate_idx] & 0xffff)), "audio-entry", "%d channels %u Hz", (int)e.get_entry().get_channelcount(), e.get_entry().get_samplerate()); }
  }
  // every sample once, in the order of the file
  std::vector<size_t> seen(m.t.size(), 0); uint64_t at = 0; sample_stream_info x; x.offset = 0; bool byoff = true; 
  while (r.next_file_chunks(x)) {
    VREQ(c, x.stream < m.t.size(), "file-order-stream", "%u", x.stream); size_t k = seen[x.stream]++; const MTrack& t = m.t[x.stream]; VREQ(c, k < t.s.size() && x.sample_number == k, "file-order-sample", "stream %u sample %lld want %zu of %zu", x.stream, ll(x.sample_number), k, t.s.size()); const MSample& s = t.s[k]; uint32_t ts = t.timescale;
    VREQ(c, x.offset == s.offset && x.size == s.data.size() && x.composition_time == (int64_t)hns(s.cts(), ts) && x.decoding_time == (int64_t)hns(s.dts, ts) && x.duration == (int64_t)hns(s.dur, ts) && x.bIsSyncPoint == s.sync && !x.discontinuity, "file-order-info", "stream %u sample %zu: offset %lld size %lld cts %lld dts %lld dur %lld sync %d", x.stream, k, ll(x.offset), ll(x.size), ll(x.composition_time), ll(x.decoding_time), ll(x.duration), x.bIsSyncPoint);
    if (x.offset < at) byoff = false; at = x.offset; f.set_position(x.offset); Bytes d(x.size); f.read_bytes(d.data(), d.size()); VREQ(c, d == s.data, "file-order-bytes", "stream %u sample %zu", x.stream, k);
  }
  for (size_t i = 0; i < m.t.size(); i++) VREQ(c, seen[i] == m.t[i].s.size(), "file-order-lost", "stream %zu: %zu of %zu samples", i, seen[i], m.t[i].s.size()); VCHECK(c, byoff, "file-order", "not in the order of the file"); c.count("movies"); if (m.text) { VCHECK(c, !r.IsValidStream((unsigned)m.t.size()), "text-track", "the chapter track counts"); c.count("text_tracks"); } for (auto& t : m.t) { if (t.co64) c.count("co64"); if (t.junk) c.count("other_boxes"); } if (m.open_mdat && !m.mdat_first) c.count("open_mdat"); else if (m.large_mdat) c.count("large_mdat");
  c.feature(fmt("%zu %d %d %d %d", m.t.size(), m.frag_order, m.mdat_first, m.t[0].co64, m.t[0].junk)); for (auto& t : m.t) c.feature(fmt("%u %zu %d", t.timescale, t.s.size() / 20, t.ctts));
}
static void seek(Ctx& c) {
  Opt o = some_opt(c); Movie m = make_movie(c.rng, o); describe(c, m); Scratch sc{put(c, m.file)}; SYNCMP4File f; f.open(sc.f.c_str()); MP4Reader r; r.parse(f); VREQ(c, r.stream_count() == m.t.size() + m.text, "streams", "%zu", r.stream_count());
  for (unsigned i = 0; i < m.t.size(); i++) {
    const MTrack& t = m.t[i]; uint32_t ts = t.timescale; size_t n = t.s.size(); std::vector<uint64_t> times; for (int q = 0; q < 60; q++) { size_t k = c.rng.below(n); uint64_t h = hns(t.s[k].cts(), ts), d = hns(t.s[k].dts, ts); times.push_back(h); times.push_back(d); times.push_back(h + 1); if (d) times.push_back(d - 1); times.push_back(c.rng.below(hns(t.duration(), ts) + 1)); } times.push_back(0); times.push_back(hns(t.s[n - 1].dts, ts));
    for (uint64_t x : times) {
      if (!t.ctts) { size_t w = 0; while (w + 1 < n && hns(t.s[w].dts, ts) < x) w++; size_t lo = w; if (lo && x - hns(t.s[lo - 1].dts, ts) < 10000000ull / ts + 2) lo--; /* a time between two ticks belongs to the first */ size_t got = r.get_composition_sample_number(x, i); VREQ(c, got == w || got == lo || (w == 1 && !got), "sample-at", "stream %u time %lld: sample %lld want %zu", i, ll(x), ll(r.get_composition_sample_number(x, i)), w); c.count("lookups"); }
      size_t w = 0; while (w + 1 < n && hns(t.s[w + 1].dts, ts) <= x) w++; if (t.stss) { while (w && (!t.s[w].sync || hns(t.s[w].cts(), ts) > x)) w--; /* decoded, and shown, no later than x */ VREQ(c, r.get_IFrame_number(x, i) == w, "sync-at", "stream %u time %lld: sample %lld want %zu", i, ll(x), ll(r.get_IFrame_number(x, i)), w); c.count("lookups"); }
    }
    if (t.ctts) for (int q = 0; q < 60; q++) { size_t k = c.rng.below(n); uint64_t h = hns(t.s[k].cts(), ts); bool dup = false; for (size_t j = 0; j < n; j++) dup |= j != k && hns(t.s[j].cts(), ts) == h; if (!dup) { VREQ(c, r.get_composition_sample_number(h, i) == k, "composition-at", "stream %u time %lld: sample %lld want %zu", i, ll(h), ll(r.get_composition_sample_number(h, i)), k); c.count("lookups"); } }
    if (t.ctts) { // the sample for a time: the first one shown at or after it, or the last
      std::vector<std::pair<uint64_t, size_t>> by; for (size_t k = 0; k < n; k++) by.push_back({hns(t.s[k].cts(), ts), k}); std::sort(by.begin(), by.end()); uint64_t tick = 10000000ull / ts + 2;
      auto shown = [&](uint64_t x) { size_t q = 0; while (q + 1 < n && by[q].first < x) q++; return by[q].first; }; times.push_back(by[0].first); times.push_back(by[n - 1].first + 1); times.push_back(by[n - 1].first + hns(t.s[n - 1].dur, ts) - 1);
      for (uint64_t x : times) { size_t got = r.get_composition_sample_number(x, i); VREQ(c, got < n, "shown-at", "stream %u time %lld: sample %zu of %zu", i, ll(x), got, n); uint64_t g = hns(t.s[got].cts(), ts); VREQ(c, g >= shown(x > tick ? x - tick : 0) && g <= shown(x + tick), "shown-at", "stream %u time %lld: sample %zu shown at %lld, want the one at %lld", i, ll(x), got, ll(g), ll(shown(x))); c.count("lookups"); }
    }
    if (t.stss) { r.get_IFrame_number(0, i); for (size_t k = 1; k < n; k++) if (t.s[k].sync) { uint64_t g = r.get_next_IFrame_time(i); VREQ(c, g == hns(t.s[k].cts(), ts), "next-sync", "stream %u: %lld want sample %zu at %lld", i, ll(g), k, ll(hns(t.s[k].cts(), ts))); c.count("sync_steps"); } }
  }
  c.feature(fmt("%zu %u %d", m.t.size(), m.t[0].timescale, m.t[0].ctts)); c.feature(m.t[0].s.size() / 20);
}
int main(int argc, char** argv) { return vh::run(argc, argv, {{"samples", samples}, {"seek", seek}}); }
