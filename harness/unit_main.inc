// The main program of several units (C35): asks each of them, and lets each
// use what the others made, wrote and threw.
#include <units.hpp>
#include <cstdio>
#include "common.hpp"
using conf::Ev;

static std::string tried(std::function<std::string()> const& f)
{
  try { return f(); }
  catch (std::exception const& e) { return std::string("exception: ") + e.what(); }
}

int main()
{
  std::vector<Unit> us;
  for (auto* f : UNITS) {
    us.emplace_back();
    f(us.back());
  }
  for (size_t a = 0; a < us.size(); a++)
    for (auto const& [n, f] : us[a].probes) Ev("probe").i("k", a).s("name", n).s("value", tried(f)).emit();
  for (size_t a = 0; a < us.size(); a++)
    for (auto const& [n, x] : us[a].things)
      for (size_t b = 0; b < us.size(); b++)
        if (us[b].things.count(n)) {
          auto obj = x.make();
          Ev("pass").i("k", a).i("to", b).s("name", n).s("value", tried([&] { return us[b].things[n].ask(obj.get()); })).emit();
        }
  for (size_t a = 0; a < us.size(); a++)
    for (auto const& [n, x] : us[a].saved)
      for (size_t b = 0; b < us.size(); b++)
        if (us[b].saved.count(n)) Ev("archive").i("k", a).i("to", b).s("name", n).s("value", tried([&] { return us[b].saved[n].read(x.write()); })).emit();
  for (size_t a = 0; a < us.size(); a++)
    for (auto const& [n, x] : us[a].faults)
      for (size_t b = 0; b < us.size(); b++) {
        if (!us[b].faults.count(n)) continue;
        auto what = us[b].faults[n].caught(x.raise);
        auto c = what.find(':');
        Ev("fault").i("k", a).i("to", b).s("name", n).s("caught", what.substr(0, c)).s("value", c == std::string::npos ? "" : what.substr(c + 2)).emit();
      }
  Ev("done").emit();
}
