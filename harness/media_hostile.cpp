// Damaged MP4 files: whatever the bytes, reading one ends, in bounds, within memory in proportion, and gives back what it took.
#include <mgcore.h>
#include <mg/core/file.h>
#include <mg/media/TBitstream.h>
#include "mp4parse.h"
#include "damage.h"
using namespace ALX;
#include "memlimit.h"
static Opt small(Ctx& c) { Opt o; o.seconds = 0.1 + c.rng.below(15) / 10.0; o.vsize = 40; o.asize = 40; o.delay = c.rng.coin(); o.vfr = c.rng.chance(1, 3); unsigned k = (unsigned)c.rng.below(8); o.audio = k != 0; o.video = k != 1; o.audio2 = k == 2; return o; }
struct Out { bool parsed = false, toomany = false; std::string err; uint64_t samples = 0, refused = 0, steps = 0, total = 0; };
template <class F> static void guarded(Out& o, F f) { try { f(); } catch (std::exception&) { o.refused++; } catch (...) { o.refused++; } }
// everything the reader tells about a file
static void read_all(CMP4& f, Out& o, uint64_t seed) {
  Rng r(seed); MP4Reader rd; try { rd.parse(f); o.parsed = true; } catch (std::exception& e) { o.err = e.what(); } catch (...) { o.err = "other"; }
  volatile uint64_t sink = 0; if (!o.parsed) return; guarded(o, [&] { sink += rd.get_duration(); sink += rd.VisualStream(); sink += rd.HasLTC(); sink += rd.parsable_stream_count(); });
  for (unsigned i = 0; i < rd.stream_count(); i++) {
    uint64_t n = 0; guarded(o, [&] { n = rd.get_sample_count(i); o.total += n; }); std::vector<uint64_t> at; for (uint64_t k = 0; k < std::min<uint64_t>(n, 60); k++) at.push_back(k); for (int k = 0; k < 20 && n; k++) at.push_back(r.below(n)); if (n) at.push_back(n - 1); at.push_back(n); at.push_back(n + 1); at.push_back(~0ull);
#define ASK(x) guarded(o, [&] { sink += (uint64_t)(x); })
    ASK(rd.get_duration(i)); ASK(rd.get_sample_duration(i)); ASK(rd.entry_count(i)); ASK(rd.get_media_time_scale(i)); ASK(rd.get_total_stream_size(i)); ASK(rd.get_stream_bit_rate(i)); ASK(rd.get_stream_offset(i)); ASK(rd.get_start_time(i)); ASK(rd.get_end_time(i)); ASK(rd.get_end_time_plus_duration(i)); ASK(rd.get_decoding_start_time(i)); ASK(rd.get_decoding_end_time(i)); ASK(rd.get_decoding_end_time_plus_duration(i)); ASK(rd.IsVisual(i)); ASK(rd.IsSound(i)); ASK(rd.IsLTC(i)); ASK(rd.IsValidStream(i)); ASK(rd.has_composition_time(i)); ASK(rd.has_random_access_point(i)); ASK(rd.ctts_entry_count(i)); ASK(rd.ctts_stream_offset(i)); ASK(strlen(rd.get_language(i)));
    guarded(o, [&] { if (rd.IsVisual(i)) { auto& e = rd.get_visual_entry(0, i); sink += e.get_entry().width; for (uint64_t k = 0; k < e.get_body_size(); k++) sink += e.get_body()[k]; auto& h = e.get_avcc_header(); sink += h.get_nal_length_size(); const BYTE* s = h.get_nal_sequence(); for (unsigned k = 0; k < h.get_sequence_size(); k++) sink += s[k]; s = h.get_nal_picture(); for (unsigned k = 0; k < h.get_picture_size(); k++) sink += s[k]; sink += h.get_sequence(0).pic_width_in_mbs_minus1; } });
    guarded(o, [&] { if (rd.IsSound(i)) { auto& e = rd.get_audio_entry(0, i); sink += e.get_entry().get_samplerate(); for (uint64_t k = 0; k < e.get_body_size(); k++) sink += e.get_body()[k]; aac_info_mp4 a = e.get_aac_info(); sink += a.sample_rate + a.channels; } });
    for (auto k : at) { ASK(rd.get_sample_offset(k, i)); ASK(rd.get_sample_size(k, i)); ASK(rd.get_composition_time(k, i)); ASK(rd.get_decoding_time(k, i)); ASK(rd.get_raw_composition_time(k, i)); ASK(rd.get_raw_decoding_time(k, i)); o.samples++; }
    uint64_t d = 20000000; guarded(o, [&] { d = rd.get_duration(i); }); for (int k = 0; k < 20; k++) { uint64_t t = k == 0 ? 0 : k == 1 ? d : k == 2 ? d + 1 : k == 3 ? r.next() >> r.below(40) : r.below(d + d / 4 + 10); ASK(rd.get_composition_sample_number(t, i)); ASK(rd.get_IFrame_number(t, i)); ASK(rd.get_next_IFrame_time(i)); }
  }
  auto walk = [&] { sample_stream_info s; uint64_t k = 0, most = std::min<uint64_t>(o.total + 20, 3000); while (k < most && rd.next_file_chunks(s)) { sink += s.size + s.offset + s.composition_time; k++; } o.steps += k; if (k > o.total) o.toomany = true; };
  guarded(o, walk); for (int k = 0; k < 3; k++) { guarded(o, [&] { rd.move(r.below(30000000)); }); guarded(o, walk); }
}
static void file(Ctx& c) {
  Movie m = make_movie(c.rng, small(c)), m2 = make_movie(c.rng, small(c)); Bytes b = m.file; std::string what; int k = 1 + (int)c.rng.below(c.rng.coin() ? 2 : 5); for (int i = 0; i < k; i++) { std::string d = damage(c.rng, b, m2.file); what += d + " "; } c.note(what); uint64_t seed = c.rng.next(); if (b.empty()) return;
  std::string path; bool disk = c.rng.chance(1, 8); if (disk || getenv("VH_KEEP")) { path = std::string(getenv("VH_TMP") ? getenv("VH_TMP") : "/tmp") + fmt("/h%d_%llu.mp4", (int)getpid(), ll(c.index)); save(path, b); }
  Out o; long before = 0, after = 0, p0 = 0, top = 0;
  auto once = [&] { Out x; before = blocks; p0 = live; peak = p0; limited = true; if (disk) { SYNCMP4File f; try { f.open(path.c_str()); read_all(f, x, seed); } catch (std::exception& e) { x.err = e.what(); } } else { Bytes* copy = new Bytes(b); { CMP4Memory f; f.Open(copy->data(), copy->size()); read_all(f, x, seed); } delete copy; } limited = false; top = peak - p0; std::string().swap(x.err); o = x; after = blocks; };
  once(); static bool warm = false; if (!warm) { warm = true; once(); }
  VCHECK(c, !o.toomany, "walk", "a walk gave more samples than the %llu of the tables (%s)", ll(o.total), what.c_str());
  if (after > before) { once(); if (after > before) { once(); VCHECK(c, after <= before, "leak", "%ld blocks of memory are not given back (%s)", after - before, what.c_str()); } }
  if (!path.empty() && !getenv("VH_KEEP")) unlink(path.c_str());
  c.count("files"); if (o.parsed) c.count("parsed"); else c.count("refused"); c.count("questions_refused", o.refused); c.count("samples", o.samples); c.count("steps", o.steps); c.feature(what.substr(0, what.find(' ')) + (o.parsed ? "+" : "-"));
}
int main(int argc, char** argv) { return vh::run(argc, argv, {{"file", file}}); }
