#include <mgcore.h>
#include <mg/core/char.h>
#undef _tmain
#define _tmain mg_cli_main
#include "mp4info.cpp"
#include "media_cli.h"
#include <sstream>
static std::string narrow(const std::wstring& w) { std::string s; for (wchar_t c : w) s += c < 256 ? (char)c : '?'; return s; }
template <class F> static CliResult captured(const std::vector<std::string>& args, F run) {
  std::vector<std::vector<char>> st; std::vector<TCHAR*> av;
  auto add = [&](const std::string& a) { st.emplace_back(a.begin(), a.end()); st.back().push_back(0); };
  add("mg"); for (auto& a : args) add(a); for (auto& v : st) av.push_back(v.data()); int ac = (int)av.size(); av.push_back(nullptr);
  std::wstringbuf wo, we; std::stringbuf no, ne; auto a = std::wcout.rdbuf(&wo); auto b = std::wcerr.rdbuf(&we); auto c = std::cout.rdbuf(&no); auto d = std::cerr.rdbuf(&ne);
  std::wcout.clear(); std::wcerr.clear(); std::cout.clear(); std::cerr.clear(); std::wcout << std::dec; std::cout << std::dec;
  CliResult r; r.rc = -999;
  struct Back { decltype(a) a, b; decltype(c) c, d; ~Back() { std::wcout.rdbuf(a); std::wcerr.rdbuf(b); std::cout.rdbuf(c); std::cerr.rdbuf(d); } } back{a, b, c, d};
  r.rc = run(ac, av.data());
  r.out = narrow(wo.str()) + no.str(); r.err = narrow(we.str()) + ne.str(); return r;
}
CliResult mg_cli(const std::vector<std::string>& args) { return captured(args, [](int n, TCHAR** v) { return mg_cli_main(n, v); }); }
CliResult mg_tsinfo(const std::vector<std::string>& args) {
  return captured(args, [](int n, TCHAR** v) { console_command c; c.add(_T("input"), console_command::type_string, false, _T("i"), 'i'); c.add(_T("kind"), console_command::type_string, false, _T("k"), 'k'); c.add(_T("size"), console_command::type_int, false, _T("z"), 'z'); c.add(_T("output"), console_command::type_string, false, _T("o"), 'o'); c.add(_T("starttime"), console_command::type_int, false, _T("s"), 's'); c.add(_T("endtime"), console_command::type_int, false, _T("e"), 'e'); c.add(_T("stream"), console_command::type_int, false, _T("target stream")); c.add(_T("help"), console_command::type_string, false, _T("h"), 'h'); c.add(_T("segment"), console_command::type_int, false, _T("s")); c.add(_T("bitrate"), console_command::type_int, false, _T("b"), 'b'); c.add(_T("path"), console_command::type_string, false, _T("j"), 'j'); c.process(n, v); return tsinfo(c, std::cout); });
}

void mg_counter8(unsigned char* b) { CMP4Fragment::counter8(b); }
void mg_counter(unsigned char* b) { CMP4Fragment::counter(b); }
