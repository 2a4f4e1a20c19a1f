// Conformance driver for the statistics objects (C14 - C21): registers of
// accumulators, histograms, move statistics and observable groups, with
// checkpoints (archives) and output files.
#include "common.hpp"
#include <cassert>
#include <array>
#include <deque>
#include <list>
#include <memory>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/string.hpp>
#include <bwsl/Accumulators.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include <bwsl/HistAccumulator.hpp>
#include <bwsl/ObservableGroup.hpp>
#include <bwsl/mcutils/MoveStats.hpp>
using namespace bwsl;
using namespace bwsl::accumulators;
using namespace bwsl::montecarlo;
using namespace conf;

namespace ar = boost::archive;

static bool fail(std::string const& why)
{
  std::cerr << "driver: " << why << "\n";
  std::exit(90);
}
static std::vector<int> codes(std::string const& s)
{
  std::vector<int> v;
  for (unsigned char c : s) v.push_back(c);
  return v;
}

struct Obj
{
  virtual ~Obj() = default;
  virtual void reset() = 0;
  virtual void query(Ev& e, In& in) = 0;
  virtual std::unique_ptr<Obj> clone() const = 0;       // copy construction
  virtual std::unique_ptr<Obj> steal() = 0;             // move construction
  virtual void assign(Obj const& that) = 0;             // copy assignment
  virtual void take(Obj& that) = 0;                     // move assignment
  virtual void swap(Obj& that) = 0;
  virtual void save(ar::text_oarchive& a) const = 0;
  virtual void save(ar::binary_oarchive& a) const = 0;
  virtual void load(ar::text_iarchive& a) = 0;
  virtual void load(ar::binary_iarchive& a) = 0;
  virtual std::string name() const { return {}; }
};

template<class T> std::string answers(T& x, In& in);
template<class T> void more(T&, Ev&, In&) {}
template<class T> std::string nameof_(T const&) { return {}; }
template<> std::string nameof_(MoveStats const& m) { return m.GetName(); }
template<class T> void clear(T& x) { x.Reset(); }

template<class T>
struct Hold : Obj
{
  T v;
  template<class... A> explicit Hold(A&&... a) : v(std::forward<A>(a)...) {}
  static T& of(Obj& o)
  {
    auto* h = dynamic_cast<Hold*>(&o);
    if (!h) fail("object of another class");
    return h->v;
  }
  static T const& of(Obj const& o) { return of(const_cast<Obj&>(o)); }
  void reset() override { clear(v); }
  void query(Ev& e, In& in) override
  {
    e.raw("a", answers(v, in));
    more(v, e, in);
  }
  std::unique_ptr<Obj> clone() const override { return std::make_unique<Hold>(v); }
  std::unique_ptr<Obj> steal() override { return std::make_unique<Hold>(std::move(v)); }
  void assign(Obj const& that) override { v = of(that); }
  void take(Obj& that) override { v = std::move(of(that)); }
  void swap(Obj& that) override { std::swap(v, of(that)); }
  void save(ar::text_oarchive& a) const override { a << v; }
  void save(ar::binary_oarchive& a) const override { a << v; }
  void load(ar::text_iarchive& a) override { a >> v; }
  void load(ar::binary_iarchive& a) override { a >> v; }
  std::string name() const override { return nameof_(v); }
};

class Rec
{
  std::string s_ = "{";

public:
  Rec& raw(char const* k, std::string const& v)
  {
    if (s_.size() > 1) s_ += ",";
    s_ += std::string("\"") + k + "\":" + v;
    return *this;
  }
  Rec& b(char const* k, bool v) { return raw(k, v ? "true" : "false"); }
  Rec& i(char const* k, long v) { return raw(k, num(v)); }
  Rec& d(char const* k, double v) { return raw(k, dbl(v)); }
  Rec& B(char const* k, i128 v) { return raw(k, big(v)); }
  template<class V> Rec& is(char const* k, V const& v) { return raw(k, nums(v)); }
  template<class V> Rec& ds(char const* k, V const& v) { return raw(k, dbls(v)); }
  Rec& r(char const* k, std::string const& v) { return raw(k, v); }
  std::string str() const { return s_ + "}"; }
};

template<> std::string answers(KahanAccumulator& x, In&)
{
  return Rec().i("count", x.Count()).d("sum", x.Sum()).d("mean", x.Mean()).str();
}
template<> std::string answers(NeumaierAccumulator& x, In&)
{
  return Rec().i("count", x.Count()).d("sum", x.Sum()).d("mean", x.Mean()).str();
}
template<> std::string answers(KnuthWelfordAccumulator& x, In&)
{
  return Rec().i("count", x.Count()).d("sum", x.Sum()).d("mean", x.Mean())
    .d("var", x.Variance(false)).d("cvar", x.Variance(true)).d("svar", x.ScaledVariance())
    .d("sd", x.StandardDeviation(false)).d("csd", x.StandardDeviation(true))
    .d("err", x.Error(false)).d("cerr", x.Error(true)).str();
}
template<> std::string answers(WestAccumulator& x, In&)
{
  return Rec().i("count", x.Count()).d("sum", x.Sum()).d("mean", x.Mean())
    .d("pop", x.PopulationVariance()).d("freq", x.SampleFrequencyVariance()).d("rel", x.SampleReliabilityVariance()).str();
}
template<> std::string answers(NaiveInteger& x, In&)
{
  return Rec().i("count", x.Count()).B("sum", x.Sum()).d("mean", x.Mean())
    .d("var", x.Variance(false)).d("cvar", x.Variance(true)).d("svar", x.ScaledVariance())
    .d("sd", x.StandardDeviation(false)).d("csd", x.StandardDeviation(true)).str();
}
template<> std::string answers(HistAccumulator& x, In&)
{
  auto n = x.GetNbins();
  std::vector<long> counts;
  std::vector<double> one;
  for (size_t i = 0; i < n && i < 100000; i++) {
    counts.push_back(static_cast<long>(x.GetCount(i)));
    one.push_back(x.GetResult(i));
  }
  return Rec().i("nbins", n).i("count", x.GetCount()).is("counts", counts).ds("one", one)
    .ds("all", x.GetResults()).str();
}
// the results relative to the given bins
template<> void more(HistAccumulator& x, Ev& e, In& in)
{
  std::vector<std::string> rel;
  while (in.more()) {
    auto i = in.u();
    if (i < x.GetNbins()) rel.push_back(Rec().i("i", i).ds("v", x.GetResults(i)).str());
  }
  e.raw("rel", list(rel, [](auto const& s) { return s; }));
}
static std::string printed(MoveStats const& x)
{
  std::ostringstream o;
  o << x;
  return o.str();
}
template<> std::string answers(MoveStats& x, In&)
{
  // the numbers in the printed text, after the name
  auto t = printed(x);
  auto p = t.find(x.GetName());
  t = p == std::string::npos ? t : t.substr(p + x.GetName().size());
  std::vector<double> v;
  for (size_t k = 0; k < t.size(); k++) {
    if (t[k] != '=') continue;
    v.push_back(std::strtod(t.c_str() + k + 1, nullptr));
  }
  return Rec().d("acc", x.GetAcceptedRatio()).d("rej", x.GetRejectedRatio()).d("imp", x.GetImpossibleRatio())
    .d("avg", x.GetAverageProbability()).ds("text", v).str();
}
template<> void more(MoveStats& x, Ev& e, In&)
{
  e.is("name", codes(x.GetName())).b("textname", printed(x).find(x.GetName()) == 0);
}

using IntGroup = ObservableGroup<int>;
using StringGroup = ObservableGroup<std::string>;
template<> void clear(IntGroup&) { fail("reset of a group"); }
template<> void clear(StringGroup&) { fail("reset of a group"); }
template<> std::string answers(IntGroup&, In&) { fail("query of a group"); return {}; }
template<> std::string answers(StringGroup&, In&) { fail("query of a group"); return {}; }

CONF_STATE std::map<long, std::unique_ptr<Obj>> reg;
CONF_STATE std::map<long, std::string> slots;
CONF_STATE std::map<long, std::vector<long>> slotfiles;
CONF_STATE std::map<long, long> filed; // output file of a group register

template<class T> T* as(long k) {
  auto* h = dynamic_cast<Hold<T>*>(reg[k].get());
  return h ? &h->v : nullptr;
}
template<class T> T& must(long k)
{
  auto* p = as<T>(k);
  if (!p) fail("wrong class in register");
  return *p;
}

static std::string path(long f) { return mine("out" + std::to_string(f) + ".csv"); }
static Ev& file(Ev& e, long f)
{
  std::ifstream in(path(f), std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(in)), {});
  std::vector<std::string> lines;
  std::string cur;
  for (char c : s) {
    if (c == '\n') { lines.push_back(cur); cur.clear(); }
    else cur += c;
  }
  return e.raw("lines", list(lines, [](auto const& x) { return nums(codes(x)); })).b("whole", cur.empty());
}
template<class F> void thrown(Ev& e, F f)
{
  std::string t = "no";
  try { f(); }
  catch (bwsl::exception::AccumulatorOverflow const&) { t = "AccumulatorOverflow"; }
  catch (std::exception const&) { t = "yes"; }
  e.s("thrown", t);
}
// the same for move statistics
template<class F> void moves(Ev& e, MoveStats const& m, F f)
{
  std::string t = "no";
  bool named = false;
  try { f(); }
  catch (montecarlo::exception::MoveInvalidSequence const& x) {
    t = "MoveInvalidSequence";
    auto copy = x;
    named = std::string(x.what()).find(m.GetName()) != std::string::npos && std::string(copy.what()) == x.what();
  }
  catch (std::exception const&) { t = "yes"; }
  e.s("thrown", t).b("named", named);
}
template<class A> void feed(std::vector<double> const& xs, long how, A& acc, Ev& e)
{
  A* r = nullptr;
  if (how == 0) r = &apply_accumulator(xs.begin(), xs.end(), acc);
  else if (how == 1) { std::list<double> l(xs.begin(), xs.end()); r = &apply_accumulator(l.begin(), l.end(), acc); }
  else if (how == 2) r = &apply_accumulator(xs.data(), xs.data() + xs.size(), acc);
  else if (how == 3) {
    std::ostringstream o;
    o.precision(17);
    for (auto x : xs) o << x << " ";
    std::istringstream i(o.str());
    r = &apply_accumulator(std::istream_iterator<double>(i), std::istream_iterator<double>(), acc);
  } else { std::deque<double> d(xs.begin(), xs.end()); r = &apply_accumulator(d.cbegin(), d.cend(), acc); }
  e.b("same", r == &acc);
}
template<class G, class K> void group_keys(In& in, std::vector<K>& ks, std::vector<std::string>& out)
{
  auto n = in.u();
  for (size_t i = 0; i < n; i++) {
    if constexpr (std::is_same_v<K, int>) {
      ks.push_back(static_cast<int>(in.i()));
      out.push_back("[" + std::to_string(ks.back()) + "]");
    } else {
      ks.push_back(in.s());
      out.push_back(nums(codes(ks.back())));
    }
  }
}
static std::string plainlist(std::vector<std::string> const& v)
{
  return list(v, [](auto const& s) { return s; });
}

// ------------------------------------------------------- very long histories
// An object after K equal additions, with the count in its text archive set to
// N, stands for one after N additions that no test could wait for.
static constexpr long Short = 9973;
static std::string recount(std::string const& text, std::string const& n, long& found)
{
  std::istringstream in(text);
  std::string out, t;
  while (in >> t) {
    if (t == std::to_string(Short)) { t = n; found++; }
    if (!out.empty()) out += ' ';
    out += t;
  }
  return out;
}
template<class T> struct Huge;
template<class T> struct HugePlain
{
  static T make() { return T{}; }
  static void base(T& x) { x.Add(0.25); }
  static void add(T& x) { x.Add(0.25); }
  static void tell(T& x, std::vector<unsigned long>& n, std::vector<double>& v)
  {
    n = { x.Count() };
    v = { x.Sum(), x.Mean() };
  }
};
template<> struct Huge<KahanAccumulator> : HugePlain<KahanAccumulator> {};
template<> struct Huge<NeumaierAccumulator> : HugePlain<NeumaierAccumulator> {};
template<> struct Huge<KnuthWelfordAccumulator> : HugePlain<KnuthWelfordAccumulator> {};
template<> struct Huge<WestAccumulator> : HugePlain<WestAccumulator>
{
  static void base(WestAccumulator& x) { x.Add(0.25, 2.0); }
  static void add(WestAccumulator& x) { x.Add(0.25, 2.0); }
};
template<> struct Huge<NaiveInteger> : HugePlain<NaiveInteger>
{
  static void base(NaiveInteger& x) { x.Add(2); }
  static void add(NaiveInteger& x) { x.Add(2); }
  static void tell(NaiveInteger& x, std::vector<unsigned long>& n, std::vector<double>& v)
  {
    n = { x.Count() };
    v = { static_cast<double>(x.Sum()), x.Mean(), x.Variance(false), x.Variance(true), x.ScaledVariance() };
  }
};
template<> struct Huge<HistAccumulator>
{
  static HistAccumulator make() { return HistAccumulator(1); }
  static void base(HistAccumulator& x) { x.Add(0, 0.25); }
  static void add(HistAccumulator& x) { x.Add(0, 0.25); }
  static void tell(HistAccumulator& x, std::vector<unsigned long>& n, std::vector<double>& v)
  {
    n = { x.GetCount(), x.GetCount(0) };
    v = x.GetResults();
  }
};
template<> struct Huge<MoveStats>
{
  static MoveStats make() { return MoveStats("m"); }
  static void base(MoveStats& x) { x.Propose(); x.Accept(0.25); }
  static void add(MoveStats& x) { x.Propose(); x.Reject(0.25); }
  static void tell(MoveStats& x, std::vector<unsigned long>& n, std::vector<double>& v)
  {
    n.clear();
    v = { x.GetAcceptedRatio(), x.GetRejectedRatio(), x.GetImpossibleRatio(), x.GetAverageProbability() };
  }
};
// the very many were rejected, or impossible
struct HugeRejected : Huge<MoveStats>
{
  static void base(MoveStats& x) { x.Propose(); x.Reject(0.25); }
  static void add(MoveStats& x) { x.Propose(); x.Accept(0.25); }
};
struct HugeImpossible : Huge<MoveStats>
{
  static void base(MoveStats& x) { x.Propose(); x.Impossible(); }
};
template<> struct Huge<StringGroup>
{
  static StringGroup make() { return StringGroup(path(9), std::vector<std::string>{ "E" }); }
  static void base(StringGroup& x) { x.Measure("E", 0.25); }
  static void add(StringGroup& x) { x.Measure("E", 0.25); }
  static void tell(StringGroup& x, std::vector<unsigned long>& n, std::vector<double>& v)
  {
    StringGroup c(x);
    std::remove(path(9).c_str());
    c.PrintAndReset(16);
    std::ifstream in(path(9));
    std::string l;
    std::getline(in, l);
    auto p = l.rfind(',');
    char* end = nullptr;
    n = { p == std::string::npos ? 0UL : std::strtoul(l.c_str() + p + 1, &end, 10) };
    if (!end || *end) n.clear();
    v = { std::strtod(l.c_str(), nullptr) };
  }
};
template<class T, class H = Huge<T>> std::string hugerun(std::string const& n, std::string const& steps, long& found)
{
  auto x = H::make();
  for (long i = 0; i < Short; i++) H::base(x);
  auto text = [](T const& y) {
    std::ostringstream o;
    { ar::text_oarchive a(o); a << y; }
    return o.str();
  };
  auto back = [](std::string const& s, T& y) {
    std::istringstream i(s);
    ar::text_iarchive a(i);
    a >> y;
  };
  back(recount(text(x), n, found), x);
  if (!found) return "[]";
  std::vector<std::string> out;
  for (char c : "-" + steps) {
    std::string thrown = "no";
    if (c == '-') ;
    else if (c == 'a') {
      try { H::add(x); }
      catch (bwsl::exception::AccumulatorOverflow const&) { thrown = "AccumulatorOverflow"; }
      catch (std::exception const&) { thrown = "yes"; }
    } else if (c == 't') { auto y = H::make(); back(text(x), y); x = y; }
    else if (c == 'b') {
      std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
      { ar::binary_oarchive a(s); a << static_cast<T const&>(x); }
      auto y = H::make();
      { ar::binary_iarchive a(s); a >> y; }
      x = y;
    } else if (c == 'c') { T y(x); x = H::make(); x = y; }
    else if (c == 'm') { T y(std::move(x)); x = H::make(); x = std::move(y); }
    else if (c == 's') { auto y = H::make(); std::swap(x, y); std::swap(y, x); }
    else fail("huge step");
    std::vector<unsigned long> ns;
    std::vector<double> vs;
    H::tell(x, ns, vs);
    out.push_back(Rec().r("add", c == 'a' ? "true" : "false").r("thrown", "\"" + thrown + "\"").r("n", bigs(ns)).ds("v", vs).str());
  }
  return plainlist(out);
}

int main()
{
  std::map<std::string, std::function<void(In&)>> ops;
  ops["begin"] = [](In& in) {
    bool track = in.i();
#ifdef BWSL_ACCUMULATORS_CHECKS
    bool checks = true;
#else
    bool checks = false;
#endif
    Ev("begin").b("track", track).b("checks", checks).emit();
  };
  ops["new"] = [](In& in) {
    auto k = in.i();
    auto c = in.tok();
    Ev e("new");
    e.i("k", k).s("c", c);
    if (c == "kahan") reg[k] = std::make_unique<Hold<KahanAccumulator>>();
    else if (c == "neumaier") reg[k] = std::make_unique<Hold<NeumaierAccumulator>>();
    else if (c == "welford") reg[k] = std::make_unique<Hold<KnuthWelfordAccumulator>>();
    else if (c == "west") reg[k] = std::make_unique<Hold<WestAccumulator>>();
    else if (c == "integer") reg[k] = std::make_unique<Hold<NaiveInteger>>();
    else if (c == "hist") {
      auto n = in.i(); // -1: the default constructor
      if (n < 0) reg[k] = std::make_unique<Hold<HistAccumulator>>();
      else reg[k] = std::make_unique<Hold<HistAccumulator>>(static_cast<size_t>(n));
      e.i("n", n < 0 ? 0 : n);
    } else if (c == "moves") {
      if (in.i()) reg[k] = std::make_unique<Hold<MoveStats>>(in.s());
      else reg[k] = std::make_unique<Hold<MoveStats>>();
      e.is("name", codes(must<MoveStats>(k).GetName()));
    } else if (c == "group") {
      auto kind = in.tok();
      auto f = in.i();
      auto how = in.i(); // 0: keys to the constructor, 1: added after
      std::vector<std::string> out;
      auto make = [&](auto tag, auto key) {
        using G = decltype(tag);
        using K = decltype(key);
        std::vector<K> ks;
        group_keys<G, K>(in, ks, out);
        if (how == 0) reg[k] = std::make_unique<Hold<G>>(path(f), ks);
        else {
          reg[k] = std::make_unique<Hold<G>>(path(f));
          for (auto const& x : ks) must<G>(k).AddObservable(x);
        }
      };
      if (kind == "int") make(IntGroup{}, int{}); else make(StringGroup{}, std::string{});
      filed[k] = f;
      e.s("kind", kind).i("file", f).raw("keys", plainlist(out));
    } else fail("class " + c);
    e.emit();
  };
  ops["add"] = [](In& in) {
    auto k = in.i();
    auto x = in.d();
    Ev e("add");
    e.i("k", k).d("x", x);
    thrown(e, [&] {
      if (auto* a = as<KahanAccumulator>(k)) a->Add(x);
      else if (auto* b = as<NeumaierAccumulator>(k)) b->Add(x);
      else must<KnuthWelfordAccumulator>(k).Add(x);
    });
    e.emit();
  };
  ops["range"] = [](In& in) {
    auto k = in.i(), how = in.i();
    auto xs = in.ds();
    Ev e("range");
    e.i("k", k).ds("xs", xs);
    if (auto* a = as<KahanAccumulator>(k)) feed(xs, how, *a, e);
    else if (auto* b = as<NeumaierAccumulator>(k)) feed(xs, how, *b, e);
    else feed(xs, how, must<KnuthWelfordAccumulator>(k), e);
    e.emit();
  };
  ops["cycle"] = [](In& in) {
    auto k = in.i(), reps = in.i();
    auto xs = in.ds();
    auto go = [&](auto& a) {
      for (long r = 0; r < reps; r++)
        for (auto x : xs) a.Add(x);
    };
    if (auto* a = as<KahanAccumulator>(k)) go(*a); else go(must<NeumaierAccumulator>(k));
    Ev("cycle").i("k", k).i("reps", reps).ds("xs", xs).emit();
  };
  ops["addw"] = [](In& in) {
    auto k = in.i();
    auto x = in.d(), w = in.d();
    Ev e("addw");
    e.i("k", k).d("x", x).d("w", w);
    thrown(e, [&] { must<WestAccumulator>(k).Add(x, w); });
    e.emit();
  };
  ops["addi"] = [](In& in) {
    auto k = in.i();
    auto x = in.i();
    Ev e("addi");
    e.i("k", k).B("x", x);
    thrown(e, [&] { must<NaiveInteger>(k).Add(x); });
    e.emit();
  };
  ops["huge"] = [](In& in) {
    auto c = in.tok();
    auto n = in.tok(), steps = in.tok();
    long found = 0;
    std::string out;
    if (c == "kahan") out = hugerun<KahanAccumulator>(n, steps, found);
    else if (c == "neumaier") out = hugerun<NeumaierAccumulator>(n, steps, found);
    else if (c == "welford") out = hugerun<KnuthWelfordAccumulator>(n, steps, found);
    else if (c == "west") out = hugerun<WestAccumulator>(n, steps, found);
    else if (c == "integer") out = hugerun<NaiveInteger>(n, steps, found);
    else if (c == "hist") out = hugerun<HistAccumulator>(n, steps, found);
    else if (c == "moves") out = hugerun<MoveStats>(n, steps, found);
    else if (c == "rejected") out = hugerun<MoveStats, HugeRejected>(n, steps, found);
    else if (c == "impossible") out = hugerun<MoveStats, HugeImpossible>(n, steps, found);
    else if (c == "group") out = hugerun<StringGroup>(n, steps, found);
    else fail("class " + c);
    Ev("huge").s("c", c).i("k", Short).B("n", static_cast<i128>(std::strtoul(n.c_str(), nullptr, 10))).raw("steps", out).emit();
  };
  ops["reset"] = [](In& in) {
    auto k = in.i();
    reg[k]->reset();
    Ev("reset").i("k", k).emit();
  };
  // histogram values: given as double, float, int, long or not at all
  auto hist = [](char const* name, auto call) {
    return [name, call](In& in) {
      auto k = in.i();
      auto i = in.u();
      auto type = in.tok();
      double x = type == "unit" ? 1.0 : in.d();
      auto& h = must<HistAccumulator>(k);
      call(h, i, type, x);
      Ev(name).i("k", k).i("i", i).d("x", x).emit();
    };
  };
  ops["hadd"] = hist("hadd", [](HistAccumulator& h, size_t i, std::string const& t, double x) {
    if (t == "unit") h.Add(i);
    else if (t == "double") h.Add(i, x);
    else if (t == "float") h.Add(i, static_cast<float>(x));
    else if (t == "int") h.Add(i, static_cast<int>(x));
    else h.Add(i, static_cast<long>(x));
  });
  ops["hforce"] = hist("hforce", [](HistAccumulator& h, size_t i, std::string const& t, double x) {
    if (t == "unit") h.ForceAdd(i);
    else if (t == "double") h.ForceAdd(i, x);
    else if (t == "float") h.ForceAdd(i, static_cast<float>(x));
    else if (t == "int") h.ForceAdd(i, static_cast<int>(x));
    else h.ForceAdd(i, static_cast<long>(x));
  });
  // a histogram of its own with bins far apart: after each step those that are not empty
  ops["hfar"] = [](In& in) {
    auto n0 = in.u(), m = in.u();
    HistAccumulator h(n0);
    std::string out = "[";
    for (size_t k = 0; k < m; k++) {
      auto what = in.tok();
      auto i = in.u();
      double x = what == "resize" || what == "reset" ? 0.0 : in.d();
      if (what == "force") h.ForceAdd(i, x);
      else if (what == "add") h.Add(i, x);
      else if (what == "resize") h.Resize(i);
      else if (what == "reset") h.Reset();
      else fail("hfar " + what);
      auto all = h.GetResults();
      bool same = all.size() == h.GetNbins();
      std::vector<std::string> bins;
      for (size_t b = 0; b < h.GetNbins(); b++) {
        auto r = h.GetResult(b);
        same = same && all[b] == r;
        if (h.GetCount(b) != 0 || r != 0.0) bins.push_back(Rec().i("i", b).i("n", h.GetCount(b)).d("r", r).str());
      }
      out += (k ? "," : "") + Rec().raw("what", conf::str(what)).i("i", i).d("x", x).i("nbins", h.GetNbins()).i("count", h.GetCount())
                                   .b("same", same).raw("bins", list(bins, [](auto const& r) { return r; })).str();
    }
    Ev("hfar").i("k", 0).i("n", n0).raw("steps", out + "]").emit();
  };
  ops["hresize"] = [](In& in) {
    auto k = in.i();
    auto n = in.u();
    must<HistAccumulator>(k).Resize(n);
    Ev("hresize").i("k", k).i("n", n).emit();
  };
  ops["propose"] = [](In& in) {
    auto k = in.i();
    auto& m = must<MoveStats>(k);
    Ev e("propose");
    e.i("k", k);
    moves(e, m, [&] { m.Propose(); });
    e.emit();
  };
  ops["decide"] = [](In& in) {
    auto k = in.i();
    auto how = in.tok();
    auto p = how == "I" ? 0.0 : in.d();
    auto& m = must<MoveStats>(k);
    Ev e("decide");
    e.i("k", k).s("how", how).d("p", p);
    moves(e, m, [&] { if (how == "A") m.Accept(p); else if (how == "R") m.Reject(p); else m.Impossible(); });
    e.emit();
  };
  ops["record"] = [](In& in) {
    auto k = in.i();
    auto how = in.tok();
    auto via = in.i(); // 0: constructor, 1: builder, 2: copied, 3: assigned, 4: moved, 5: default-built
    auto p = in.d();
    auto st = how == "A" ? MoveStatus::Accepted : how == "R" ? MoveStatus::Rejected : MoveStatus::Impossible;
    MoveResult r(st, p);
    if (via == 1) {
      if (how == "A") r = MoveResult::Accept(p);
      else if (how == "R") r = MoveResult::Reject(p);
      else { r = MoveResult::Impossible(); p = 0.0; }
    } else if (via == 2) { MoveResult c(r); r = MoveResult{}; r = MoveResult(c); }
    else if (via == 3) { MoveResult c = MoveResult::Accept(0.125); c = r; r = c; }
    else if (via == 4) { MoveResult c(std::move(r)); r = std::move(c); }
    else if (via == 5) { r = MoveResult{}; how = "I"; p = 0.0; }
    auto& m = must<MoveStats>(k);
    Ev e("record");
    e.i("k", k).s("how", how).d("p", p).b("acc", r.IsAccepted()).b("rej", r.IsRejected()).b("imp", r.IsImpossible());
    e.s("status", r.GetStatus() == MoveStatus::Accepted ? "A" : r.GetStatus() == MoveStatus::Rejected ? "R" : r.GetStatus() == MoveStatus::Impossible ? "I" : "?");
    e.d("prob", r.Probability());
    moves(e, m, [&] { m.Add(r); });
    e.emit();
  };
  ops["measure"] = [](In& in) {
    auto k = in.i();
    Ev e("measure");
    e.i("k", k);
    if (auto* g = as<IntGroup>(k)) {
      auto key = static_cast<int>(in.i());
      auto x = in.d();
      e.raw("key", "[" + std::to_string(key) + "]").d("x", x);
      thrown(e, [&] { g->Measure(key, x); });
    } else {
      auto key = in.s();
      auto x = in.d();
      e.is("key", codes(key)).d("x", x);
      thrown(e, [&] { must<StringGroup>(k).Measure(key, x); });
    }
    e.emit();
  };
  ops["addkeys"] = [](In& in) {
    auto k = in.i();
    auto chain = in.i();
    std::vector<std::string> out;
    auto go = [&](auto& g, auto key) {
      using K = decltype(key);
      std::vector<K> ks;
      group_keys<decltype(g), K>(in, ks, out);
      if (chain) { auto* p = &g; for (auto const& x : ks) p = &p->AddObservable(x); }
      else for (auto const& x : ks) g.AddObservable(x);
    };
    if (auto* g = as<IntGroup>(k)) go(*g, int{}); else go(must<StringGroup>(k), std::string{});
    Ev("addkeys").i("k", k).raw("keys", plainlist(out)).emit();
  };
  ops["headers"] = [](In& in) {
    auto k = in.i();
    if (auto* g = as<IntGroup>(k)) g->PrintHeaders(); else must<StringGroup>(k).PrintHeaders();
    Ev e("headers");
    e.i("k", k);
    file(e, filed[k]).emit();
  };
  ops["print"] = [](In& in) {
    auto k = in.i(), prec = in.i(); // -1: the default
    auto go = [&](auto& g) { if (prec < 0) g.PrintAndReset(); else g.PrintAndReset(static_cast<size_t>(prec)); };
    if (auto* g = as<IntGroup>(k)) go(*g); else go(must<StringGroup>(k));
    Ev e("print");
    e.i("k", k).i("prec", prec < 0 ? 10 : prec);
    file(e, filed[k]).emit();
  };
  ops["look"] = [](In& in) {
    auto f = in.i();
    Ev e("look");
    e.i("f", f);
    file(e, f).emit();
  };
  ops["query"] = [](In& in) {
    auto k = in.i();
    Ev e("query");
    e.i("k", k);
    reg[k]->query(e, in);
    e.emit();
  };
  ops["copy"] = [](In& in) {
    auto how = in.tok();
    auto k = in.i(), j = in.i();
    bool moved = how == "take" || how == "steal";
    if (how == "assign") reg[k]->assign(*reg[j]);
    else if (how == "clone") { auto c = reg[j]->clone(); reg[k] = std::move(c); }
    else if (how == "take") reg[k]->take(*reg[j]);
    else if (how == "steal") { auto c = reg[j]->steal(); reg[k] = std::move(c); }
    else fail("copy " + how);
    filed[k] = filed[j];
    Ev("copy").i("k", k).i("from", j).b("moved", moved && k != j).emit();
  };
  ops["swap"] = [](In& in) {
    auto k = in.i(), j = in.i();
    reg[k]->swap(*reg[j]);
    std::swap(filed[k], filed[j]);
    Ev("swap").i("k", k).i("j", j).emit();
  };
  ops["save"] = [](In& in) {
    auto s = in.i();
    auto fmt = in.tok();
    auto ks = in.is();
    std::ostringstream o(std::ios::binary);
    auto go = [&](auto&& a) { for (auto k : ks) static_cast<Obj const&>(*reg[k]).save(a); };
    if (fmt == "text") go(ar::text_oarchive(o)); else go(ar::binary_oarchive(o));
    slots[s] = (fmt == "text" ? "t" : "b") + o.str();
    slotfiles[s].clear();
    for (auto k : ks) slotfiles[s].push_back(filed[k]);
    Ev("save").i("s", s).is("ks", ks).emit();
  };
  ops["load"] = [](In& in) {
    auto s = in.i();
    auto ks = in.is();
    auto const& data = slots.at(s);
    std::istringstream i(data.substr(1), std::ios::binary);
    Ev e("load");
    e.i("s", s).is("ks", ks);
    thrown(e, [&] {
      auto go = [&](auto&& a) { for (auto k : ks) reg[k]->load(a); };
      if (data[0] == 't') go(ar::text_iarchive(i)); else go(ar::binary_iarchive(i));
    });
    std::vector<std::string> names;
    for (size_t n = 0; n < ks.size(); n++) {
      names.push_back(nums(codes(reg[ks[n]]->name())));
      if (slotfiles[s][n] >= 0) filed[ks[n]] = slotfiles[s][n];
    }
    e.raw("names", plainlist(names)).emit();
  };
  return run([] {
    reg.clear();
    slots.clear();
    filed.clear();
    slotfiles.clear();
    for (long k = 0; k < 100; k++) { // (threads may add none)
      reg[k] = nullptr;
      slots[k].clear();
      filed[k] = -1;
      slotfiles[k].clear();
    }
    for (long f = 0; f < 10; f++) std::remove(path(f).c_str());
  }, ops);
}
