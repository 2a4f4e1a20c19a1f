// Conformance driver for the checkpoints of random engines (C28): engines of
// both word sizes, archives of both kinds, and the dumpmt application.
#include "common.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/string.hpp>
#include <bwsl/RNGUtils.hpp>
#include <memory>
#include <random>
#include <sys/wait.h>
#include <variant>
using namespace conf;
namespace ar = boost::archive;

using Engine = std::variant<std::mt19937, std::mt19937_64>;
CONF_STATE std::map<int, Engine> reg;
struct Slot { bool binary; std::string bytes; };
CONF_STATE std::map<int, Slot> slot;

// what an archive of an engine looks like when its text is arbitrary
struct Text
{
  std::string text;
  template<class A> void serialize(A& a, unsigned) { a& text; }
};

template<class OA> static void write(std::ostream& o, std::vector<int> const& ks)
{
  OA a(o);
  for (int k : ks)
    std::visit([&](auto const& e) { a << e; }, reg.at(k));
}
template<class IA> static void read(std::istream& i, std::vector<int> const& ks)
{
  IA a(i);
  for (int k : ks)
    std::visit([&](auto& e) { a >> e; }, reg.at(k));
}
static std::vector<unsigned long> draw(int k, size_t n)
{
  std::vector<unsigned long> v;
  for (size_t i = 0; i < n; i++)
    v.push_back(std::visit([](auto& e) -> unsigned long { return e(); }, reg.at(k)));
  return v;
}

int main()
{
  return run(
    [] { reg.clear(); slot.clear(); },
    {
      { "seed", [](In& in) {
          int k = in.i(), bits = in.i();
          auto s = in.big();
          if (bits == 64) reg[k] = std::mt19937_64(static_cast<unsigned long>(s));
          else reg[k] = std::mt19937(static_cast<std::uint_fast32_t>(s));
          Ev("seed").i("k", k).i("bits", bits).B("seed", s).emit();
        } },
      { "skip", [](In& in) {
          int k = in.i();
          auto n = in.u();
          for (size_t i = 0; i < n; i++) std::visit([](auto& e) { e(); }, reg.at(k));
          Ev("skip").i("k", k).i("n", n).emit();
        } },
      { "draw", [](In& in) {
          int k = in.i();
          auto v = draw(k, in.u());
          Ev("draw").i("k", k).Bs("v", v).emit();
        } },
      { "copy", [](In& in) {
          int k = in.i(), from = in.i();
          reg[k] = reg.at(from);
          Ev("copy").i("k", k).i("from", from).emit();
        } },
      { "save", [](In& in) {
          int s = in.i();
          auto kind = in.tok();
          auto ks = in.is<int>();
          std::ostringstream o;
          if (kind == "binary") write<ar::binary_oarchive>(o, ks);
          else write<ar::text_oarchive>(o, ks);
          slot[s] = { kind == "binary", o.str() };
          Ev("save").i("s", s).is("ks", ks).emit();
        } },
      { "load", [](In& in) {
          int s = in.i();
          auto ks = in.is<int>();
          std::istringstream i(slot.at(s).bytes);
          std::string thrown = "no";
          try {
            if (slot.at(s).binary) read<ar::binary_iarchive>(i, ks);
            else read<ar::text_iarchive>(i, ks);
          } catch (std::exception const&) { thrown = "yes"; }
          Ev("load").i("s", s).is("ks", ks).s("thrown", thrown).emit();
        } },
      { "badload", [](In& in) {
          // the state of the engine as text, spoilt
          int k = in.i();
          auto kind = in.tok(), how = in.tok();
          auto at = in.u();
          std::ostringstream st;
          std::visit([&](auto const& e) { st << e; }, reg.at(k));
          std::istringstream ws(st.str());
          std::vector<std::string> w;
          for (std::string x; ws >> x;) w.push_back(x);
          at = at % w.size();
          if (how == "cut") w.resize(at);            // numbers are missing
          else if (how == "word") w[at] = "word";    // one is no number
          else if (how == "good") {}                 // as it was
          else { w.clear(); w.push_back(in.s()); }   // some text
          std::string text;
          for (auto const& x : w) text += (text.empty() ? "" : " ") + x;
          std::ostringstream o;
          Text const t{ text };
          if (kind == "binary") { ar::binary_oarchive a(o); a << t; }
          else { ar::text_oarchive a(o); a << t; }
          std::istringstream i(o.str());
          std::string thrown = "no";
          try {
            if (kind == "binary") read<ar::binary_iarchive>(i, { k });
            else read<ar::text_iarchive>(i, { k });
          } catch (std::exception const&) { thrown = "yes"; }
          Ev("badload").i("k", k).b("good", how == "good").s("thrown", thrown).emit();
        } },
      { "dump", [](In& in) {
          bool given = in.i() != 0;
          std::string cmd = std::string("'") + std::getenv("BWSL_DUMPMT") + "'";
          unsigned long seed = 0;
          int k = 0;
          if (given) {
            seed = static_cast<unsigned long>(in.big());
            k = in.i();
            cmd += " " + std::to_string(seed);
          }
          FILE* p = popen((cmd + " 2>/dev/null").c_str(), "r");
          std::string out;
          char b[4096];
          for (size_t n; (n = fread(b, 1, sizeof b, p)) > 0;) out.append(b, n);
          int rc = pclose(p);
          int status = WIFEXITED(rc) ? WEXITSTATUS(rc) : 255;
          std::istringstream i(out);
          std::mt19937_64 e;
          bool readable = static_cast<bool>(i >> e);
          std::string rest;
          if (i >> rest) readable = false;
          if (given) reg[k] = e;
          Ev("dump").b("given", given).B("seed", static_cast<i128>(seed)).i("status", status).b("readable", readable).i("k", k).emit();
        } },
    });
}
