// The real command line program, linked into a harness and called in process.
#pragma once
#include <string>
#include <vector>
struct CliResult { int rc; std::string out, err; };
// runs the program's own main with these arguments (without argv[0]); what it prints is captured
CliResult mg_cli(const std::vector<std::string>& args);
// the library's tsinfo() with these arguments, parsed as the program parses its own
CliResult mg_tsinfo(const std::vector<std::string>& args);
void mg_counter8(unsigned char* b);
void mg_counter(unsigned char* b);
