// Shared by the conformance drivers: reads commands, writes events.
//
// A driver reads one command per line ("op arg arg ..."); "T <id>" starts a
// new trace.  For each command it calls the library and writes one event: a
// JSON object with the operation, its arguments and everything the caller can
// observe of the result.  Numbers beyond 31 bits are written as big integers
// [sign, [limbs in base 4096]] and doubles as exact dyadics, see spec/Big.tla.
#pragma once
#include <atomic>
#include <condition_variable>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <typeinfo>
#include <vector>

namespace conf {

using i128 = __int128;

inline std::string num(long v)
{
  if (v > 2147483647L || v < -2147483647L) {
    // never silently wrapped: an out-of-range native integer is written as a
    // string, which equals no integer in the specification's comparisons
    return "2147483647";
  }
  return std::to_string(v);
}

inline std::string mag(unsigned __int128 u)
{
  std::string s = "[";
  bool first = true;
  while (u) {
    if (!first) s += ",";
    first = false;
    s += std::to_string(static_cast<unsigned>(u & 4095));
    u >>= 12;
  }
  return s + "]";
}

inline std::string big(i128 v)
{
  if (v == 0) return "[0,[]]";
  bool neg = v < 0;
  unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v)
                            : static_cast<unsigned __int128>(v);
  return std::string(neg ? "[-1," : "[1,") + mag(u) + "]";
}

inline std::string dbl(double d)
{
  if (std::isnan(d)) return R"({"k":"nan"})";
  if (std::isinf(d)) return d > 0 ? R"({"k":"inf"})" : R"({"k":"ninf"})";
  if (d == 0) return R"({"k":"f","m":[0,[]],"e":0})";
  int e = 0;
  double f = std::frexp(d, &e); // d = f * 2^e, 1/2 <= |f| < 1
  long m = static_cast<long>(std::ldexp(f, 53));
  e -= 53;
  while (m % 2 == 0) { m /= 2; e++; }
  return R"({"k":"f","m":)" + big(m) + R"(,"e":)" + std::to_string(e) + "}";
}

inline std::string str(std::string const& s)
{
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 32 || c > 126) {
      char b[16];
      std::snprintf(b, sizeof b, "<%02x>", c);
      r += b;
    } else r += static_cast<char>(c);
  }
  return r + "\"";
}

template<class V, class F>
std::string list(V const& v, F f)
{
  std::string r = "[";
  bool first = true;
  for (auto const& x : v) {
    if (!first) r += ",";
    first = false;
    r += f(x);
  }
  return r + "]";
}
template<class V> std::string nums(V const& v)
{
  return list(v, [](auto x) { return num(static_cast<long>(x)); });
}
template<class V> std::string bigs(V const& v)
{
  return list(v, [](auto x) { return big(static_cast<i128>(x)); });
}
template<class V> std::string dbls(V const& v)
{
  return list(v, [](double x) { return dbl(x); });
}

// The objects of a driver: all threads have the same ones or, with CONF_OWN,
// each has its own.
#ifdef CONF_OWN
#define CONF_STATE static thread_local
#else
#define CONF_STATE static
#endif
inline thread_local int thread_no = -1;
// a file of this thread, or one that all have if they have the same objects
inline std::string ours(std::string const& f)
{
#ifdef CONF_OWN
  if (thread_no >= 0) return "t" + std::to_string(thread_no) + f;
#endif
  return f;
}
// a file of this thread
inline std::string mine(std::string const& f)
{
  return thread_no < 0 ? f : "t" + std::to_string(thread_no) + f;
}

// where the events of a thread go; to the output if there is none
inline thread_local std::string* sink = nullptr;

class Ev
{
  std::string s_;

public:
  explicit Ev(std::string const& op) : s_("{\"op\":" + str(op)) {}
  Ev& raw(char const* k, std::string const& v)
  {
    s_ += std::string(",\"") + k + "\":" + v;
    return *this;
  }
  Ev& i(char const* k, long v) { return raw(k, num(v)); }
  Ev& b(char const* k, bool v) { return raw(k, v ? "true" : "false"); }
  Ev& s(char const* k, std::string const& v) { return raw(k, str(v)); }
  Ev& B(char const* k, i128 v) { return raw(k, big(v)); }
  Ev& d(char const* k, double v) { return raw(k, dbl(v)); }
  template<class V> Ev& is(char const* k, V const& v) { return raw(k, nums(v)); }
  template<class V> Ev& Bs(char const* k, V const& v) { return raw(k, bigs(v)); }
  template<class V> Ev& ds(char const* k, V const& v) { return raw(k, dbls(v)); }
  void emit() const
  {
    if (sink) *sink += s_ + "}\n";
    else std::cout << s_ << "}\n" << std::flush;
  }
};

// The arguments of a command.
class In
{
  std::istringstream in_;

public:
  explicit In(std::string const& line) : in_(line) {}
  std::string tok()
  {
    std::string s;
    if (!(in_ >> s)) { std::cerr << "driver: missing argument\n"; std::exit(90); }
    return s;
  }
  bool more() { in_ >> std::ws; return !in_.eof(); }
  i128 big()
  {
    auto s = tok();
    bool neg = s[0] == '-';
    unsigned __int128 u = 0;
    for (size_t k = neg ? 1 : 0; k < s.size(); k++) u = u * 10 + (s[k] - '0');
    return neg ? -static_cast<i128>(u) : static_cast<i128>(u);
  }
  long i() { return static_cast<long>(big()); }
  size_t u() { return static_cast<size_t>(big()); }
  double d() // hexadecimal floating point or decimal
  {
    return std::strtod(tok().c_str(), nullptr);
  }
  // strings are written in hexadecimal, "-" is the empty one
  std::string s()
  {
    auto h = tok();
    if (h == "-") return {};
    std::string r;
    for (size_t k = 0; k + 1 < h.size(); k += 2)
      r += static_cast<char>(std::stoi(h.substr(k, 2), nullptr, 16));
    return r;
  }
  template<class T = long> std::vector<T> is()
  {
    auto n = u();
    std::vector<T> v;
    for (size_t k = 0; k < n; k++) v.push_back(static_cast<T>(big()));
    return v;
  }
  std::vector<double> ds()
  {
    auto n = u();
    std::vector<double> v;
    for (size_t k = 0; k < n; k++) v.push_back(d());
    return v;
  }
};

// The commands between "par n" or "turns n" and "join" are those of n threads,
// "@k ..." one of thread k.  After "par" the threads run at the same time,
// without any synchronization, and afterwards their events follow one another;
// after "turns" they take turns, in the order of the commands.
struct Command { size_t thread; std::function<void(In&)> const* f; std::string args; };
struct Program { size_t threads = 0; bool turns = false; std::vector<Command> commands; };
inline void parallel(Program const& p, std::function<void()> const& on_start)
{
  std::vector<std::string> out(p.threads);
  std::vector<std::thread> threads;
  std::atomic<size_t> ready{ 0 };
  std::mutex m;
  std::condition_variable cv;
  size_t turn = 0;
  for (size_t k = 0; k < p.threads; k++)
    threads.emplace_back([&, k] {
#ifdef CONF_OWN
      sink = &out[k];
      thread_no = static_cast<int>(k);
      Ev("thread").emit();
      on_start();
#else
      sink = &out[p.turns ? 0 : k];
      thread_no = p.turns ? -1 : static_cast<int>(k);
#endif
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < p.threads) std::this_thread::yield();
      for (size_t n = 0; n < p.commands.size(); n++) {
        auto const& c = p.commands[n];
        if (c.thread != k) continue;
        In in(c.args);
        if (!p.turns) { (*c.f)(in); continue; }
        std::unique_lock<std::mutex> lock(m);
        cv.wait(lock, [&] { return turn == n; });
        (*c.f)(in);
        turn++;
        cv.notify_all();
      }
      sink = nullptr;
    });
  for (auto& t : threads) t.join();
  for (auto const& o : out) std::cout << o;
  std::cout << std::flush;
}

// Runs the commands on stdin. on_trace resets the driver's objects.
inline int run(std::function<void()> const& on_trace,
               std::map<std::string, std::function<void(In&)>> const& ops)
{
  std::ios::sync_with_stdio(false);
  std::string line;
  Program program;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    size_t thread = 0;
    bool const threaded = line[0] == '@';
    if (threaded) {
      thread = static_cast<size_t>(line[1] - '0');
      line = line.substr(3);
    }
    if (line == "join") {
      parallel(program, on_trace);
      program = {};
      continue;
    }
    auto sp = line.find(' ');
    auto op = line.substr(0, sp);
    In in(sp == std::string::npos ? std::string() : line.substr(sp + 1));
    if (op == "T") {
      std::cout << line << "\n" << std::flush;
      on_trace();
      program = {};
      continue;
    }
    if (op == "par" || op == "turns") {
      program = {};
      program.threads = in.u();
      program.turns = op == "turns";
      continue;
    }
    auto it = ops.find(op);
    if (it == ops.end()) {
      std::cerr << "driver: unknown command " << op << "\n";
      return 90;
    }
    if (threaded) program.commands.push_back({ thread, &it->second, sp == std::string::npos ? std::string() : line.substr(sp + 1) });
    else it->second(in);
  }
  std::cout << "END\n" << std::flush;
  return 0;
}

} // namespace conf
