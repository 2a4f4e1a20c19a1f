// Conformance driver for programs of several translation units (C35): writes
// the units, compiles and links them with the library's headers, and runs the
// program.
#include "common.hpp"
#include <cstdlib>
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>
using namespace conf;

static std::string inc, here, lib;
static std::vector<std::vector<std::string>> units;

static std::string slurp(std::string const& f)
{
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
[[noreturn]] static void usage(std::string const& why)
{
  std::cerr << "driver: " << why << "\n";
  std::exit(90);
}
// exit status of a command: 0 or 1; anything else is not about the code
static bool sh(std::string const& cmd)
{
  int st = std::system((cmd + " 2>err.txt").c_str());
  if (!WIFEXITED(st) || WEXITSTATUS(st) > 1) usage(cmd + ": " + slurp("err.txt").substr(0, 300));
  return WEXITSTATUS(st) == 0;
}
static std::string firsterror()
{
  std::istringstream s(slurp("err.txt"));
  std::string line;
  while (std::getline(s, line))
    if (line.find("error") != std::string::npos || line.find("multiple definition") != std::string::npos || line.find("undefined reference") != std::string::npos) {
      auto p = line.find("multiple");
      return line.substr(p == std::string::npos ? 0 : p, 200);
    }
  return slurp("err.txt").substr(0, 200);
}
static std::string name(std::string const& header)
{
  auto a = header.rfind('/');
  return header.substr(a + 1, header.size() - a - 5);
}

int main()
{
  auto get = [](char const* v) { auto* s = std::getenv(v); if (!s) usage(std::string("no ") + v); return std::string(s); };
  inc = get("BWSL_INC");
  here = get("BWSL_HARNESS");
  lib = get("BWSL_FLAGS");
  // (does anything at all compile, link and run here?)
  std::ofstream("void.cpp") << "#include <string>\n#include <boost/version.hpp>\n#include <fmt/format.h>\nint main() { return fmt::format(\"{}\", 1).size() - 1; }\n";
  if (!sh("g++ -std=gnu++17 -O0 -w -DFMT_HEADER_ONLY void.cpp -o void -lboost_serialization && ./void")) usage("no compiler: " + slurp("err.txt").substr(0, 300));
  std::map<std::string, std::function<void(In&)>> ops;
  ops["unit"] = [](In& in) { // archives headers...
    bool archives = in.i() != 0;
    std::vector<std::string> hs;
    while (in.more()) hs.push_back(in.tok());
    auto k = std::to_string(units.size());
    std::ofstream o("unit" + k + ".cpp");
    for (auto const& h : hs) o << "#include <bwsl/" << h << ">\n";
    for (auto const& h : hs) o << "#undef HAS_" << name(h) << "\n#define HAS_" << name(h) << "\n";
    if (archives) o << "#define WITH_ARCHIVES\n";
    o << "#define UNIT unit_" << k << "\n#include <unit_body.inc>\n";
    o.close();
    auto f = "unit" + k;
    bool ok = sh("g++ -std=gnu++17 -w -DNDEBUG -DFMT_HEADER_ONLY " + lib + " -I" + inc + " -I" + here + " -c " + f + ".cpp -o " + f + ".o");
    units.push_back(hs);
    Ev("unit").raw("headers", list(hs, str)).b("compiled", ok).s("why", ok ? "" : firsterror()).emit();
    if (!ok) ::unlink((f + ".o").c_str());
  };
  ops["program"] = [](In&) {
    std::ofstream m("main.cpp");
    m << "struct Unit;\n";
    std::string fs, os;
    for (size_t k = 0; k < units.size(); k++) {
      auto n = std::to_string(k);
      m << "void unit_" << n << "(Unit&);\n";
      fs += (k ? ", unit_" : "unit_") + n;
      os += " unit" + n + ".o";
      if (!std::ifstream("unit" + n + ".o")) return; // (reported already)
    }
    m << "static void (*const UNITS[])(Unit&) = { " << fs << " };\n#include <unit_main.inc>\n";
    m.close();
    if (!sh("g++ -std=gnu++17 -w -O0 -I" + here + " -c main.cpp -o main.o")) usage("main: " + slurp("err.txt").substr(0, 300));
    bool ok = sh("g++ main.o" + os + " -o program -lboost_serialization");
    Ev("link").b("ok", ok).s("why", ok ? "" : firsterror()).emit();
    if (!ok) return;
    int st = std::system("timeout 60 ./program > events.txt 2> err.txt");
    std::cout << slurp("events.txt") << std::flush;
    if (st != 0) Ev("Crash").s("how", "program ends with status " + std::to_string(st)).emit();
  };
  return run([] {
    for (size_t k = 0; k < units.size(); k++) ::unlink(("unit" + std::to_string(k) + ".o").c_str());
    units.clear();
  }, ops);
}
