// Conformance driver for the free-standing utilities (C22 - C27, C29).
#include "common.hpp"
#include <array>
#include <deque>
#include <filesystem>
#include <limits>
#include <list>
#include <memory>
#include <numeric>
#include <random>
#include <bwsl/Approx.hpp>
#include <bwsl/EnumString.hpp>
#include <bwsl/FileUtils.hpp>
#include <bwsl/LinSpace.hpp>
#include <bwsl/LogSpace.hpp>
#include <bwsl/MathUtils.hpp>
using namespace conf;

static void fail(std::string const& why)
{
  std::cerr << "driver: " << why << "\n";
  std::exit(90);
}

// ------------------------------- numbers ---------------------------------
template<class T> T get(In& in)
{
  if constexpr (std::is_floating_point_v<T>) return static_cast<T>(in.d());
  else return static_cast<T>(in.big());
}
template<class T> std::vector<T> gets(In& in)
{
  auto n = in.u();
  std::vector<T> v;
  for (size_t i = 0; i < n; i++) v.push_back(get<T>(in));
  return v;
}
template<class T> std::string put(T x)
{
  if constexpr (std::is_floating_point_v<T>) return dbl(static_cast<double>(x));
  else return R"({"k":"f","m":)" + big(static_cast<i128>(x)) + R"(,"e":0})";
}
template<class V> std::string puts_(V const& v)
{
  return list(v, [](auto x) { return put(x); });
}
static std::vector<int> codes(std::string const& s)
{
  std::vector<int> v;
  for (unsigned char c : s) v.push_back(c);
  return v;
}

// -------------------------------- spaces ---------------------------------
struct Space
{
  virtual ~Space() = default;
  virtual std::string value() = 0;
  virtual std::pair<std::string, std::string> step(std::string const& how) = 0;
  virtual std::string collect(size_t n) = 0;
  virtual std::string iterate() = 0;
  virtual std::unique_ptr<Space> end(bool begin) = 0;
  virtual std::unique_ptr<Space> clone() = 0;
  virtual std::unique_ptr<Space> keep(std::string const& how) = 0;
  virtual bool eq(Space& that) = 0;
  virtual bool ne(Space& that) = 0;
};
template<class S> struct SpaceOf : Space
{
  S s;
  size_t n;  // steps of the space
  SpaceOf(S const& x, size_t k) : s(x), n(k) {}
  std::string value() override { return put(*s); }
  std::pair<std::string, std::string> step(std::string const& how) override
  {
    std::string v;
    if (how == "pre") v = put(*(++s));
    else if (how == "post") v = put(*(s++));
    else v = put(s());
    return { v, value() };
  }
  std::string collect(size_t n) override { return puts_(s.Collect(n)); }
  std::string iterate() override
  {
    std::vector<decltype(*s)> v;
    for (auto x : s) {
      v.push_back(x);
      if (v.size() > n + 3) break;  // more than there are
    }
    return puts_(v);
  }
  std::unique_ptr<Space> end(bool b) override
  {
    return std::make_unique<SpaceOf>(b ? s.begin() : s.end(), n);
  }
  std::unique_ptr<Space> clone() override { return std::make_unique<SpaceOf>(s, n); }
  std::unique_ptr<Space> keep(std::string const& how) override
  {
    if (how == "post") return std::make_unique<SpaceOf>(s++, n);
    if (how == "pre") return std::make_unique<SpaceOf>(++s, n);
    return std::make_unique<SpaceOf>(++(++s), n);
  }
  bool eq(Space& that) override { return s == static_cast<SpaceOf&>(that).s; }
  bool ne(Space& that) override { return s != static_cast<SpaceOf&>(that).s; }
};
CONF_STATE std::map<int, std::unique_ptr<Space>> space;

template<class T> void newspace(int k, std::string const& kind, In& in)
{
  std::string r = R"({"kind":")" + kind + "\"";
  if (kind == "pow") {
    long a = in.i(), b = in.i();
    auto n = in.u();
    double base = in.d();
    space[k] = std::make_unique<SpaceOf<bwsl::LogSpace<T>>>(bwsl::LogSpace<T>(a, b, n, base), n);
    r += ",\"base\":" + put(base) + ",\"start\":" + num(a) + ",\"stop\":" + num(b) + ",\"n\":" + num(n);
  } else {
    T a = get<T>(in), b = get<T>(in);
    auto n = in.u();
    if (kind == "lin") space[k] = std::make_unique<SpaceOf<bwsl::LinSpace<T>>>(bwsl::LinSpace<T>(a, b, n), n);
    else if constexpr (std::is_floating_point_v<T>)
      space[k] = std::make_unique<SpaceOf<bwsl::LogSpace<T>>>(bwsl::LogSpace<T>(a, b, n), n);
    r += ",\"first\":" + put(a) + ",\"last\":" + put(b) + ",\"n\":" + num(n);
  }
  r += ",\"bits\":" + num(in.i()) + "}";
  Ev("space").i("k", k).raw("r", r).raw("v", space.at(k)->value()).emit();
}

// ------------------------------- choices ---------------------------------
// Uniform 64-bit numbers: the first one of each choice is given, further
// ones are pseudo-random.
struct Given
{
  using result_type = std::uint64_t;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return ~result_type(0); }
  std::uint64_t first, state;
  bool used = false;
  explicit Given(std::uint64_t f) : first(f), state(f ^ 0x1234567) {}
  result_type operator()()
  {
    if (!used) { used = true; return first; }
    std::uint64_t z = (state += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
};
static std::uint64_t stratum(size_t i, size_t n)
{
  return static_cast<std::uint64_t>(((static_cast<unsigned __int128>(2 * i + 1)) << 63) / n);
}
static std::vector<std::uint64_t> edges()
{
  std::vector<std::uint64_t> v{ 0, 1, 2, ~0ULL, ~0ULL - 1 };
  for (int b = 1; b < 64; b++) {
    v.push_back(1ULL << b);
    v.push_back((1ULL << b) - 1);
    v.push_back(~0ULL - (1ULL << b));
    v.push_back(~0ULL - (1ULL << b) + 1);
  }
  return v;
}
template<class C> C fill(std::vector<typename C::value_type> const& v)
{
  return C(v.begin(), v.end());
}
template<class T, size_t N> struct Fixed : std::array<T, N>
{
  Fixed() = default;
  template<class I> Fixed(I a, I) { for (auto& x : *this) x = *a++; }
};

template<class C> void choices(std::string const& gen, size_t n, In& in)
{
  using T = typename C::value_type;
  long seed = gen == "strata" ? 0 : in.i();
  auto ws = gets<T>(in);
  auto probs = fill<C>(ws);
  std::vector<T> sums(ws.size());
  std::partial_sum(ws.begin(), ws.end(), sums.begin());
  auto psums = fill<C>(sums);
  auto const probs0 = probs, psums0 = psums;
  std::vector<long> counts(ws.size(), 0), edge(ws.size(), 0);
  long outside = 0;
  bool agree = true;
  auto one = [&](auto rng, std::vector<long>& to) {
    auto rng2 = rng;
    C const& cp = probs;
    auto i = bwsl::choose_between(cp, rng);
    auto j = bwsl::choose_between_psums(psums, rng2);
    agree = agree && i == j;
    if (i < to.size()) to[i]++;
    else outside++;
    return rng;
  };
  if (gen == "strata") {
    for (size_t i = 0; i < n; i++) one(Given(stratum(i, n)), counts);
  } else if (gen == "mt32") {
    std::mt19937 r(seed);
    for (size_t i = 0; i < n; i++) r = one(r, counts);
  } else if (gen == "mt64") {
    std::mt19937_64 r(seed);
    for (size_t i = 0; i < n; i++) r = one(r, counts);
  } else if (gen == "minstd") {
    std::minstd_rand r(seed + 1);
    for (size_t i = 0; i < n; i++) r = one(r, counts);
  } else fail("generator " + gen);
  long m = 0;
  for (auto x : edges()) { one(Given(x), edge); m++; }
  Ev("choose").raw("ws", puts_(ws)).i("n", n).is("counts", counts).i("outside", outside).is("edge", edge).i("edges", m)
    .b("unchanged", probs == probs0 && psums == psums0).b("agree", agree).emit();
}
template<class T> void chance(std::string const& gen, size_t n, In& in)
{
  long seed = gen == "strata" ? 0 : in.i();
  T p = get<T>(in);
  long yes = 0, edge = 0, m = 0;
  if (gen == "strata") {
    for (size_t i = 0; i < n; i++) { Given g(stratum(i, n)); yes += bwsl::choose_with_probability(p, g); }
  } else if (gen == "mt32") {
    std::mt19937 r(seed);
    for (size_t i = 0; i < n; i++) yes += bwsl::choose_with_probability(p, r);
  } else {
    std::mt19937_64 r(seed);
    for (size_t i = 0; i < n; i++) yes += bwsl::choose_with_probability(p, r);
  }
  for (auto x : edges()) { Given g(x); edge += bwsl::choose_with_probability(p, g); m++; }
  Ev("chance").raw("p", put(p)).i("n", n).i("yes", yes).i("edge", edge).i("edges", m).emit();
}

// -------------------------------- search ---------------------------------
// a sorted range that is longer than any memory: its elements are computed
struct Stairs
{
  std::vector<double> v;
  std::vector<long> ends;
  mutable long outside = 0;
  double at(long i) const
  {
    if (i < 0 || ends.empty() || i >= ends.back()) { outside++; return std::nan(""); }
    return v[std::upper_bound(ends.begin(), ends.end(), i) - ends.begin()];
  }
};
struct Step
{
  using iterator_category = std::random_access_iterator_tag;
  using value_type = double;
  using difference_type = long;
  using pointer = double const*;
  using reference = double;
  Stairs const* s = nullptr;
  long i = 0;
  double operator*() const { return s->at(i); }
  double operator[](long n) const { return s->at(i + n); }
  Step& operator++() { i++; return *this; }
  Step& operator--() { i--; return *this; }
  Step operator++(int) { auto x = *this; i++; return x; }
  Step operator--(int) { auto x = *this; i--; return x; }
  Step& operator+=(long n) { i += n; return *this; }
  Step& operator-=(long n) { i -= n; return *this; }
  friend Step operator+(Step x, long n) { return x += n; }
  friend Step operator+(long n, Step x) { return x += n; }
  friend Step operator-(Step x, long n) { return x -= n; }
  friend long operator-(Step const& x, Step const& y) { return x.i - y.i; }
  friend bool operator==(Step const& x, Step const& y) { return x.i == y.i; }
  friend bool operator!=(Step const& x, Step const& y) { return x.i != y.i; }
  friend bool operator<(Step const& x, Step const& y) { return x.i < y.i; }
  friend bool operator>(Step const& x, Step const& y) { return x.i > y.i; }
  friend bool operator<=(Step const& x, Step const& y) { return x.i <= y.i; }
  friend bool operator>=(Step const& x, Step const& y) { return x.i >= y.i; }
};
static void stairs(In& in)
{
  Stairs s;
  auto nr = in.u();
  std::string runs = "[";
  long n = 0;
  for (size_t i = 0; i < nr; i++) {
    auto x = get<double>(in);
    auto len = in.i();
    n += len;
    runs += (i ? ",[" : "[") + put(x) + "," + big(len) + "]";
    s.v.push_back(x);
    s.ends.push_back(n);
  }
  auto xs = gets<double>(in);
  std::string got = "[";
  for (auto x : xs) {
    Step a{ &s, 0 }, b{ &s, n };
    got += (got.size() > 1 ? "," : "") + big(bwsl::upper_bound(a, b, x) - a);
  }
  Ev("stairs").raw("runs", runs + "]").raw("xs", puts_(xs)).raw("got", got + "]").i("outside", s.outside).emit();
}
template<class V, class X> void search(std::string const& c, In& in)
{
  auto nr = in.u();
  std::vector<V> v;
  std::string runs = "[";
  for (size_t i = 0; i < nr; i++) {
    V x = get<V>(in);
    auto len = in.u();
    runs += (i ? ",[" : "[") + put(x) + "," + num(len) + "]";
    v.insert(v.end(), len, x);
  }
  runs += "]";
  auto xs = gets<X>(in);
  std::vector<long> got;
  auto ask = [&](auto a, auto b) {
    for (auto const& x : xs) got.push_back(std::distance(a, bwsl::upper_bound(a, b, x)));
  };
  if (c == "vector") ask(v.cbegin(), v.cend());
  else if (c == "mutable") ask(v.begin(), v.end());
  else if (c == "pointer") ask(v.data(), v.data() + v.size());
  else if (c == "deque") { std::deque<V> d(v.begin(), v.end()); ask(d.cbegin(), d.cend()); }
  else if (c == "list") { std::list<V> d(v.begin(), v.end()); ask(d.cbegin(), d.cend()); }
  else if (c == "middle") { // a part of a larger array: nothing around it is read
    std::unique_ptr<V[]> p(new V[v.size() + 1]);
    std::copy(v.begin(), v.end(), p.get() + 1);
    if (!v.empty()) p[0] = v.back();
    ask(p.get() + 1, p.get() + 1 + v.size());
  } else fail("container " + c);
  Ev("search").raw("runs", runs).raw("xs", puts_(xs)).is("got", got).emit();
}

// --------------------------------- enums ---------------------------------
namespace e1 { BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Fruit, (Apple)(ApplePie)(Pear)) }
namespace e2 { BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Single, (Only)) }
namespace e3 { BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Letters, (abc)(ABC)(Abc)(aBc)(abC)) }
namespace e4 { BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(under_score, (_x)(x_)(x)(x1)(x_1)(_)) }
namespace e5 { BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Prefixes, (aaaaa)(aaaa)(aaa)(aa)(a)(ab)(b)) }
namespace e6 { BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Longer, (a)(aa)(aaa)(aaaa)(aaaaa)) }
namespace e7 { BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(E, (Unknown)(unknown)(E1)(enum_)(for_enum)) }
namespace e8 { BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Many,
  (N00)(N01)(N02)(N03)(N04)(N05)(N06)(N07)(N08)(N09)(N10)(N11)(N12)(N13)(N14)(N15)(N16)(N17)(N18)(N19)
  (N20)(N21)(N22)(N23)(N24)(N25)(N26)(N27)(N28)(N29)(N30)(N31)(N32)(N33)(N34)(N35)(N36)(N37)(N38)(N39)
  (N40)(N41)(N42)(N43)(N44)(N45)(N46)(N47)(N48)(N49)(N50)(N51)(N52)(N53)(N54)(N55)(N56)(N57)(N58)(N59)
  (N60)(N61)(N62)(N63)(N64)(N65)(N66)(N67)(N68)(N69)) }
namespace e9 { BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Similar,
  (a_rather_long_name_of_an_enumerator_1)(a_rather_long_name_of_an_enumerator_2)(a_rather_long_name_of_an_enumerator_)) }
class Within // an enumeration that is a member
{
public:
  BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Status, (Ready)(Running)(Done)(Read))
};

struct Enum
{
  std::string name;
  std::vector<std::string> names;
  std::function<std::string(int)> text;
  std::function<void(int&, std::string const&, std::string&, std::string&)> read;
};
template<class En, class Ex, class F, class G> Enum mk(std::string name, std::vector<std::string> names, F text, G read)
{
  return { name, names, [=](int i) { return text(static_cast<En>(i)); },
           [=](int& n, std::string const& s, std::string& thrown, std::string& what) {
             En e = static_cast<En>(n);
             try { read(e, s); thrown = "no"; }
             catch (Ex const& x) { thrown = "conversion"; what = x.what(); }
             catch (std::exception const& x) { thrown = "other"; what = x.what(); }
             n = static_cast<int>(e);
           } };
}
#define ENUM(ns, En, ...) \
  mk<ns::En, ns::EnumStringConversionFailed_##En>(#En, __VA_ARGS__, [](ns::En e) { return ns::ToString(e); }, \
    [](ns::En& e, std::string const& s) { ns::FromString(e, s); })
static std::vector<Enum> enums()
{
  std::vector<std::string> many;
  for (int i = 0; i < 70; i++) many.push_back(std::string("N") + char('0' + i / 10) + char('0' + i % 10));
  std::vector<Enum> v{
    ENUM(e1, Fruit, { "Apple", "ApplePie", "Pear" }),
    ENUM(e2, Single, { "Only" }),
    ENUM(e3, Letters, { "abc", "ABC", "Abc", "aBc", "abC" }),
    ENUM(e4, under_score, { "_x", "x_", "x", "x1", "x_1", "_" }),
    ENUM(e5, Prefixes, { "aaaaa", "aaaa", "aaa", "aa", "a", "ab", "b" }),
    ENUM(e6, Longer, { "a", "aa", "aaa", "aaaa", "aaaaa" }),
    ENUM(e7, E, { "Unknown", "unknown", "E1", "enum_", "for_enum" }),
    ENUM(e8, Many, many),
    ENUM(e9, Similar, { "a_rather_long_name_of_an_enumerator_1", "a_rather_long_name_of_an_enumerator_2",
                        "a_rather_long_name_of_an_enumerator_" }),
    mk<Within::Status, Within::EnumStringConversionFailed_Status>("Status", { "Ready", "Running", "Done", "Read" },
      [](Within::Status e) { return Within().ToString(e); },
      [](Within::Status& e, std::string const& s) { Within().FromString(e, s); }),
  };
  return v;
}
static std::vector<Enum> const all = enums();
CONF_STATE Enum const* en = nullptr;

// --------------------------------- files ---------------------------------
static std::string fname(int f) { return ours("file" + std::to_string(f)); }
static std::string slurp(std::string const& n, long& len)
{
  std::ifstream i(n, std::ios::binary);
  if (!i) { len = -1; return {}; }
  // the hole at the end of an extended file is known by its length
  i.seekg(0, std::ios::end);
  len = static_cast<long>(i.tellg());
  i.seekg(0);
  std::string s(std::min(len, 1L << 22), '\0');
  i.read(&s[0], static_cast<std::streamsize>(s.size()));
  return s + num(len);
}

// -------------------------------- helpers --------------------------------
template<class C, class T> void over(std::string const& n, std::vector<T> const& x, Ev& e)
{
  C const c = fill<C>(x);
  if (n == "product") e.raw("r", put(bwsl::accumulate_product(c)));
  else if (n == "sum") e.raw("r", put(bwsl::accumulate_sum(c)));
  else if (n == "max") e.raw("r", put(bwsl::max(c)));
  else if (n == "min") e.raw("r", put(bwsl::min(c)));
  else if (n == "sumsq") e.raw("r", put(bwsl::sum_squared<C, T>(c)));
  else if (n == "norm") e.raw("r", put(bwsl::l2norm(c)));
  else fail("function " + n);
}
template<class T> void fn(std::string const& n, In& in)
{
  using bwsl::absdiff;
  auto shape = in.tok(); // of containers
  int bits = in.i();
  Ev e("fn");
  e.s("name", n).i("bits", bits);
  if (n == "binomial") {
    T a = get<T>(in), b = get<T>(in);
    e.i("n", static_cast<long>(a)).i("k", static_cast<long>(b)).raw("r", put(bwsl::cbinomial<T>(a, b))).emit();
    return;
  }
  if (shape == "wide") { // into a wider type
    using W = std::conditional_t<std::is_floating_point_v<T>, double, std::conditional_t<std::is_unsigned_v<T>, unsigned long, long>>;
    auto const x = gets<T>(in);
    e.raw("x", puts_(x));
    if (n == "product") e.raw("r", put(bwsl::accumulate_product<std::vector<T>, W>(x)));
    else if (n == "sum") e.raw("r", put(bwsl::accumulate_sum<std::vector<T>, W>(x)));
    else if (n == "sumsq") e.raw("r", put(bwsl::sum_squared<std::vector<T>, W>(x)));
    else if (n == "dsumsq") e.raw("r", put(bwsl::sum_squared<std::vector<T>, double>(x)));
    else fail("wide " + n);
    e.emit();
    return;
  }
  if (n == "lerpi") {
    if constexpr (std::is_floating_point_v<T>) {
      auto i = in.i(), j = in.i();
      auto x = gets<T>(in);
      e.i("i", i).i("j", j).raw("x", puts_(x));
      if (shape == "int") e.raw("r", put(bwsl::lerpi(static_cast<int>(i), static_cast<int>(j), x[0], x[1])));
      else e.raw("r", put(bwsl::lerpi(i, j, x[0], x[1])));
      e.emit();
    }
    return;
  }
  auto x = gets<T>(in);
  e.raw("x", puts_(x));
  if (n == "square") e.raw("r", put(bwsl::square(x[0])));
  else if (n == "cube") e.raw("r", put(bwsl::cube(x[0])));
  else if (n == "sgn") e.raw("r", put(bwsl::sgn(x[0])));
  else if (n == "absdiff") e.raw("r", put(absdiff(x[0], x[1])));
  else if (n == "signeddiff") {
    if constexpr (std::is_unsigned_v<T>) {
      if (shape == "long") e.raw("r", put(bwsl::signeddiff<T, long>(x[0], x[1])));
      else e.raw("r", put(bwsl::signeddiff<T, std::make_signed_t<T>>(x[0], x[1])));
    }
  } else if (n == "gcd") {
    if constexpr (std::is_integral_v<T>) e.raw("r", put(bwsl::get_gcd(x[0], x[1])));
  } else if (n == "heaviside" || n == "heaviside2" || n == "lerp") {
    if constexpr (std::is_floating_point_v<T>) {
      if (n == "heaviside") e.raw("r", put(bwsl::heaviside(x[0])));
      else if (n == "heaviside2") e.raw("r", put(bwsl::heaviside2(x[0])));
      else e.raw("r", put(bwsl::lerp(x[0], x[1], x[2])));
    }
  } else if (shape == "list") over<std::list<T>>(n, x, e);
  else if (shape == "deque") over<std::deque<T>>(n, x, e);
  else if (shape == "array" && x.size() == 3) over<Fixed<T, 3>>(n, x, e);
  else over<std::vector<T>>(n, x, e);
  e.emit();
}
template<class C> void vecfn(std::string const& n, In& in)
{
  using T = typename C::value_type;
  auto x = gets<T>(in), y = gets<T>(in);
  auto a = fill<C>(x);
  auto const b = fill<C>(y), b0 = b;
  Ev e("vec");
  e.s("name", n).raw("x", puts_(x)).raw("y", puts_(y));
  if (n == "get_inverted") {
    C const ca = a;
    auto r = bwsl::get_inverted(a);
    e.raw("r", puts_(r)).b("same", false).raw("left", puts_(a)).b("right", ca == a);
  } else {
    C* p = nullptr;
    if (n == "sum_into") p = &bwsl::sum_into(a, b);
    else if (n == "subtract_into") p = &bwsl::subtract_into(a, b);
    else if (n == "sum_self") p = &bwsl::sum_into(a, a);
    else if (n == "invert") p = &bwsl::invert(a);
    else fail("function " + n);
    e.raw("r", puts_(*p)).b("same", p == &a).raw("left", puts_(a)).b("right", b == b0);
  }
  e.emit();
}
template<class T> void vecfns(std::string const& n, std::string const& shape, In& in)
{
  if (shape == "list") vecfn<std::list<T>>(n, in);
  else if (shape == "deque") vecfn<std::deque<T>>(n, in);
  else if (shape == "array3") vecfn<Fixed<T, 3>>(n, in);
  else vecfn<std::vector<T>>(n, in);
}
template<class F> void typed(std::string const& T, F f)
{
  if (T == "double") f(double{});
  else if (T == "float") f(float{});
  else if (T == "int") f(int{});
  else if (T == "long") f(long{});
  else if (T == "uint") f(unsigned{});
  else if (T == "ulong") f(static_cast<unsigned long>(0));
  else fail("type " + T);
}

int main()
{
  return run(
    [] {
      space.clear();
      for (int f = 0; f < 8; f++) std::remove(fname(f).c_str());
    },
    {
      { "space", [](In& in) {
          int k = in.i();
          auto kind = in.tok(), T = in.tok();
          if (T == "double") newspace<double>(k, kind, in);
          else if (T == "float") newspace<float>(k, kind, in);
          else if (T == "long" && kind == "lin") {
            long a = in.i(), b = in.i();
            auto n = in.u();
            space[k] = std::make_unique<SpaceOf<bwsl::LinSpace<long>>>(bwsl::LinSpace<long>(a, b, n), n);
            Ev("space").i("k", k)
              .raw("r", R"({"kind":"lin","first":)" + put(a) + ",\"last\":" + put(b) + ",\"n\":" + num(n) + ",\"bits\":" + num(in.i()) + "}")
              .raw("v", space.at(k)->value()).emit();
          } else fail("space of " + T);
        } },
      { "step", [](In& in) {
          int k = in.i();
          auto how = in.tok();
          auto r = space.at(k)->step(how);
          Ev("step").i("k", k).s("how", how).raw("v", r.first).raw("now", r.second).emit();
        } },
      { "steps", [](In& in) {
          int k = in.i();
          auto n = in.u();
          std::string now = space.at(k)->value();
          for (size_t i = 0; i < n; i++) now = space.at(k)->step(i % 3 == 0 ? "pre" : i % 3 == 1 ? "post" : "call").second;
          Ev("steps").i("k", k).i("n", n).raw("now", now).emit();
        } },
      { "look", [](In& in) {
          int k = in.i();
          Ev("look").i("k", k).raw("v", space.at(k)->value()).emit();
        } },
      { "collect", [](In& in) {
          int k = in.i();
          auto n = in.u();
          auto vs = space.at(k)->collect(n);
          Ev("collect").i("k", k).i("n", n).raw("vs", vs).raw("now", space.at(k)->value()).emit();
        } },
      { "iterate", [](In& in) {
          int k = in.i();
          auto vs = space.at(k)->iterate();
          Ev("iterate").i("k", k).raw("vs", vs).raw("now", space.at(k)->value()).emit();
        } },
      { "copyspace", [](In& in) {
          int k = in.i(), from = in.i();
          space[k] = space.at(from)->clone();
          Ev("copyspace").i("k", k).i("from", from).emit();
        } },
      { "keep", [](In& in) {
          int k = in.i(), to = in.i();
          auto how = in.tok();
          auto s = space.at(k)->keep(how);
          auto v = s->value(), now = space.at(k)->value();
          space[to] = std::move(s);
          Ev("keep").i("k", k).i("to", to).s("how", how).raw("v", v).raw("now", now).emit();
        } },
      { "ends", [](In& in) {
          int k = in.i(), to = in.i();
          auto how = in.tok();
          auto s = space.at(k)->end(how == "begin");
          auto v = s->value();
          space[to] = std::move(s);
          Ev("ends").i("k", k).i("to", to).s("how", how).raw("v", v).emit();
        } },
      { "samestep", [](In& in) {
          int k = in.i(), j = in.i();
          auto eq = space.at(k)->eq(*space.at(j)), ne = space.at(k)->ne(*space.at(j));
          Ev("samestep").i("k", k).i("j", j).b("eq", eq).b("ne", ne).emit();
        } },
      { "choose", [](In& in) {
          auto shape = in.tok(), T = in.tok(), gen = in.tok();
          auto n = in.u();
          bool d = T == "double";
          if (shape == "vector") { if (d) choices<std::vector<double>>(gen, n, in); else choices<std::vector<float>>(gen, n, in); }
          else if (shape == "deque") { if (d) choices<std::deque<double>>(gen, n, in); else choices<std::deque<float>>(gen, n, in); }
          else if (shape == "list") { if (d) choices<std::list<double>>(gen, n, in); else choices<std::list<float>>(gen, n, in); }
          else if (shape == "array5") { if (d) choices<Fixed<double, 5>>(gen, n, in); else choices<Fixed<float, 5>>(gen, n, in); }
          else fail("shape " + shape);
        } },
      { "chance", [](In& in) {
          auto T = in.tok(), gen = in.tok();
          auto n = in.u();
          if (T == "double") chance<double>(gen, n, in);
          else chance<float>(gen, n, in);
        } },
      { "stairs", [](In& in) { stairs(in); } },
      { "search", [](In& in) {
          auto c = in.tok(), V = in.tok(), X = in.tok();
          if (V == "double" && X == "double") search<double, double>(c, in);
          else if (V == "double" && X == "int") search<double, int>(c, in);
          else if (V == "float") search<float, float>(c, in);
          else if (V == "long") search<long, long>(c, in);
          else if (V == "int") search<int, int>(c, in);
          else if (V == "ulong") search<unsigned long, unsigned long>(c, in);
          else fail("search in " + V);
        } },
      { "enum", [](In& in) {
          en = &all.at(in.u());
          Ev("enum").is("name", codes(en->name)).raw("names", list(en->names, [](auto const& s) { return nums(codes(s)); })).emit();
        } },
      { "tostring", [](In& in) {
          int i = in.i();
          auto s = en->text(i);
          Ev("tostring").i("i", i).is("s", codes(s)).emit();
        } },
      { "fromstring", [](In& in) {
          auto s = in.s();
          int was = in.i(), now = was;
          std::string thrown, what;
          en->read(now, s, thrown, what);
          Ev("fromstring").is("s", codes(s)).i("was", was).i("now", now).s("thrown", thrown).is("what", codes(what)).emit();
        } },
      { "nenums", [](In& in) { Ev("nenums").i("n", all.size()).emit(); } },
      { "approx", [](In& in) {
          double v = in.d(), x = in.d();
          bwsl::Approx a0(v);
          double abs = 0, rel = 100 * std::numeric_limits<double>::epsilon();
          bool same = true;
          while (in.more()) {
            auto w = in.tok();
            double y = in.d();
            if (w == "abs") { same = same && &a0.SetAbs(y) == &a0; abs = y; }
            else { same = same && &a0.SetRel(y) == &a0; rel = y; }
          }
          bwsl::Approx const a(a0);
          Ev("approx").d("value", v).d("x", x).d("abs", abs).d("rel", rel).b("same", same)
            .b("xeq", x == a).b("aeq", a == x).b("xne", x != a).b("ane", a != x)
            .b("xle", x <= a).b("ale", a <= x).b("xge", x >= a).b("age", a >= x)
            .b("xlt", x < a).b("alt", a < x).b("xgt", x > a).b("agt", a > x).emit();
        } },
      { "write", [](In& in) {
          int f = in.i();
          auto n = in.u();
          std::ofstream o(fname(f), std::ios::binary | std::ios::trunc);
          std::string runs = "[";
          for (size_t i = 0; i < n; i++) {
            auto c = in.i();
            auto len = in.u();
            o << std::string(len, static_cast<char>(c));
            runs += (i ? ",[" : "[") + num(c) + "," + num(static_cast<long>(len)) + "]";
          }
          Ev("write").i("f", f).raw("runs", runs + "]").emit();
        } },
      { "extend", [](In& in) {
          int f = in.i();
          auto mib = in.i();
          std::error_code bad;
          auto old = std::filesystem::file_size(fname(f), bad);
          if (!bad) std::filesystem::resize_file(fname(f), old + static_cast<std::uintmax_t>(mib) * 1048576, bad);
          if (bad) fail("no file to extend");
          Ev("extend").i("f", f).i("hole", mib).emit();
        } },
      { "remove", [](In& in) {
          int f = in.i();
          std::remove(fname(f).c_str());
          Ev("remove").i("f", f).emit();
        } },
      { "compare", [](In& in) {
          int a = in.i(), b = in.i();
          long la, lb;
          auto ca = slurp(fname(a), la), cb = slurp(fname(b), lb);
          bool ab = bwsl::compare_files(fname(a), fname(b)), ba = bwsl::compare_files(fname(b), fname(a));
          auto da = slurp(fname(a), la), db = slurp(fname(b), lb);
          Ev("compare").i("a", a).i("b", b).b("ab", ab).b("ba", ba).raw("lena", big(la)).raw("lenb", big(lb)).b("unchanged", ca == da && cb == db).emit();
        } },
      { "fn", [](In& in) {
          auto n = in.tok(), T = in.tok();
          typed(T, [&](auto z) { fn<decltype(z)>(n, in); });
        } },
      { "vec", [](In& in) {
          auto n = in.tok(), T = in.tok(), shape = in.tok();
          if (T == "double") vecfns<double>(n, shape, in);
          else if (T == "float") vecfns<float>(n, shape, in);
          else if (T == "int") vecfns<int>(n, shape, in);
          else vecfns<long>(n, shape, in);
        } },
    });
}
