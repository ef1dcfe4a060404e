// Damaged MP4 files given to the commands: whatever the bytes, the command ends, in bounds, with a result or an error.
#include "damage.h"
#include <signal.h>
#include <sys/resource.h>
#include "memlimit.h"
static Opt small(Ctx& c) { Opt o; o.seconds = 0.1 + c.rng.below(30) / 10.0; o.vsize = 60; o.asize = 50; o.delay = c.rng.chance(1, 3); o.vfr = c.rng.chance(1, 4); unsigned k = (unsigned)c.rng.below(8); o.audio = k != 0; o.video = k != 1; o.audio2 = k == 2; return o; }
static Bytes harmed(Ctx& c, const Movie& m, const Movie& other, std::string& what) { Bytes b = m.file; for (int k = 1 + (int)c.rng.below(c.rng.coin() ? 2 : 4); k; k--) what += damage(c.rng, b, other.file) + " "; return b; }
static std::string start(Ctx& c) { return c.rng.coin() ? "0" : fmt("%llu", ll(c.rng.chance(1, 8) ? c.rng.next() >> c.rng.below(60) : c.rng.below(30000000))); }
static CliResult limited_run(Ctx& c, const std::vector<std::string>& a, bool ts) { struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = 64 << 20; setrlimit(RLIMIT_FSIZE, &l); signal(SIGXFSZ, SIG_IGN); for (auto& x : a) c.note(x + " "); limited = true; CliResult r = ts ? mg_tsinfo(a) : mg_cli(a); limited = false; c.count("runs"); c.count(r.rc ? "refused" : "done"); return r; }
static uint64_t size_of(const std::string& dir) { uint64_t n = 0; for (auto& f : ref::files_in(dir)) { struct stat s; if (!stat((dir + "/" + f).c_str(), &s)) n += (uint64_t)s.st_size; } return n; }
// cutting, joining and packaging
static void package(Ctx& c) {
  std::string in = tmpdir(c, "in"), out = tmpdir(c, "out"); Clean clean{in, out}; Movie m = make_movie(c.rng, small(c)), m2 = make_movie(c.rng, small(c)); std::string what; const char* K[] = {"mux", "mux", "dash", "dash", "ssf", "hls", "hls", "MP42TS"}; std::string kind = K[c.rng.below(8)]; std::vector<std::string> a = {"-k:" + kind}; size_t n = 1; bool multi = kind == "dash" || kind == "hls" || kind == "ssf"; if (c.rng.chance(1, 3)) n = 2; size_t bad = c.rng.below(n); uint64_t size = 0;
  for (size_t i = 0; i < n; i++) { Bytes b = i == bad ? harmed(c, m, m2, what) : c.rng.coin() ? m.file : harmed(c, m, m2, what); size += b.size(); save(in + fmt("/%zu.mp4", i), b); if (i && multi) { a.push_back("-j:" + in + fmt("/%zu.mp4", i)); a.push_back(fmt("-b:%d", (int)(100 + 100 * i))); } else { a.push_back("-i:" + in + fmt("/%zu.mp4", i)); a.push_back("-s:" + start(c)); a.push_back("-e:" + start(c)); if (multi) a.push_back("-b:100"); } }
  a.push_back("-o:" + out + (multi ? "" : kind == "mux" ? "/o.mp4" : "/o.ts")); if (multi && c.rng.coin()) a.push_back(fmt("--segment:%d", (int)(1000000 + c.rng.below(40000000)))); if (multi && c.rng.chance(1, 4)) { Bytes k(16); c.rng.fill(k.data(), 16); a.push_back("--key:" + vh::hex(k.data(), 16)); if (kind == "dash") { a.push_back("--kid:" + vh::hex(k.data(), 16)); a.push_back("--clearkey:true"); } } if (kind == "mux") { if (c.rng.chance(1, 4)) a.push_back("--ctts:true"); if (c.rng.chance(1, 4)) a.push_back("--usedecodingdistance:true"); if (c.rng.chance(1, 4)) a.push_back(fmt("--maxdistance:%u", (unsigned)c.rng.below(20000000))); if (c.rng.chance(1, 4)) a.push_back("--aacfix:true"); }
  c.note(what); CliResult r = limited_run(c, a, kind == "MP42TS"); VCHECK(c, r.out.size() + r.err.size() < 200 * size + 1000000, "output", "%zu bytes are printed for files of %llu (%s)", r.out.size(), ll(size), what.c_str()); (void)size_of; c.feature(kind + " " + what.substr(0, what.find(' ')) + (r.rc ? "-" : "+"));
}
static void list(Ctx& c) {
  std::string in = tmpdir(c, "in"); Clean clean{in}; Movie m = make_movie(c.rng, small(c)), m2 = make_movie(c.rng, small(c)); std::string what; Bytes b = harmed(c, m, m2, what); save(in + "/a.mp4", b); const char* K[] = {"analyze", "analyze", "analyze", "pick", "gop", "H264Header", "H264Header", "testvideoindex", "simul", "xml", "ltc", "frame"}; std::string kind = K[c.rng.below(12)];
  c.note(what); std::vector<std::string> a = {"-k:" + kind, "-i:" + in + "/a.mp4", "-s:" + start(c), "-e:" + start(c)}; if (c.rng.chance(1, 3)) a.push_back(fmt("--stream:%d", (int)c.rng.below(4))); if (kind == "frame") a.push_back("-o:" + in); CliResult r = limited_run(c, a, false); VCHECK(c, r.out.size() + r.err.size() < 1000 * b.size() + 1000000, "output", "%zu bytes are printed for a file of %zu (%s)", r.out.size(), b.size(), what.c_str()); c.feature(kind + " " + what.substr(0, what.find(' ')) + (r.rc ? "-" : "+"));
}
// fragments: listed, and put back together
static void fragments(Ctx& c) {
  std::string in = tmpdir(c, "in"), out = tmpdir(c, "out"); Clean clean{in, out}; Opt o = small(c); o.audio2 = false; o.delay = false; if (c.rng.coin()) o.audio = false, o.video = true; Movie m = make_movie(c.rng, o); save(in + "/a.mp4", m.file); bool enc = c.rng.chance(1, 2); std::string key; std::vector<std::string> a = {"-k:dash", "-i:" + in + "/a.mp4", "-s:0", "-e:0", "-b:500", "-o:" + in, fmt("--segment:%d", (int)(5000000 + c.rng.below(30000000)))}; if (enc) { Bytes k(16); c.rng.fill(k.data(), 16); key = vh::hex(k.data(), 16); a.push_back("--key:" + key); a.push_back("--kid:" + key); a.push_back("--clearkey:true"); }
  CliResult r = mg_cli(a); VREQ(c, r.rc == 0, "dash", "%s", tail(r).c_str()); std::vector<std::string> b = {"-k:moof", "-o:" + out + "/o.mp4"}; int n = 0; std::string what, one; std::vector<std::string> all; size_t size = 0;
  for (int pass = 0; pass < 2; pass++) { std::vector<std::pair<uint64_t, std::string>> fr; std::string init; const char* ext = pass ? ".m4a" : ".m4v"; for (auto& f : ref::files_in(in)) if (f.size() > 4 && f.substr(f.size() - 4) == ext) { if (f.size() > 6 && f.substr(f.size() - 6, 2) == "_i") init = f; else fr.push_back({strtoull(f.c_str() + f.rfind('_') + 1, 0, 10), f}); } if (init.empty()) continue; std::sort(fr.begin(), fr.end()); n++; all.push_back(init); b.push_back(fmt("--S%d:", n) + in + "/" + init); for (auto& f : fr) { b.push_back(fmt("--S%d:", n) + in + "/" + f.second); all.push_back(f.second); } }
  if (enc) b.push_back("--key:" + key); std::vector<Bytes> orig; for (auto& f : all) { orig.push_back(load(in + "/" + f)); size += orig.back().size(); } for (int k = 1 + (int)c.rng.below(3); k; k--) { size_t i = c.rng.below(all.size()); Bytes x = load(in + "/" + all[i]); what += damage(c.rng, x, orig[c.rng.below(all.size())]) + " "; save(in + "/" + all[i], x); one = all[i]; } c.note(what);
  if (c.rng.chance(1, 3)) { r = limited_run(c, {"-k:analyze", "-i:" + in + "/" + one, "-s:0", "-e:0"}, false); } else r = limited_run(c, b, false); VCHECK(c, r.out.size() + r.err.size() < 2000 * size + 1000000, "output", "%zu bytes are printed for files of %zu (%s)", r.out.size(), size, what.c_str()); c.feature("moof " + what.substr(0, what.find(' ')) + (r.rc ? "-" : "+"));
}
int main(int argc, char** argv) { return vh::run(argc, argv, {{"package", package}, {"list", list}, {"fragments", fragments}}); }
