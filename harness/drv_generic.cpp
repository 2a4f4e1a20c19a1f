// Conformance driver for the relational macros (C30) and the exceptions (C31).
#include "common.hpp"
#include <exception>
#include <memory>
#include <bwsl/Accumulators.hpp>
#include <bwsl/EnumString.hpp>
#include <bwsl/Exceptions.hpp>
#include <bwsl/RationalNum.hpp>
#include <bwsl/RelationalUtils.hpp>
#include <bwsl/mcutils/MoveStats.hpp>
using namespace conf;

static void fail(std::string const& why)
{
  std::cerr << "driver: " << why << "\n";
  std::exit(90);
}

// ------------------------ classes with a user's "<" -----------------------
// ordered by their key; the tag is not compared
struct Card
{
  long key = 0;
  long tag = 0;
};
inline bool operator<(Card const& a, Card const& b) { return a.key < b.key; }
OVERLOADRELATIONAL(Card, Card)

// the same order, with a finer equality of the user's own
struct Item
{
  long key = 0;
  long tag = 0;
};
inline bool operator<(Item const& a, Item const& b) { return a.key < b.key; }
inline bool operator==(Item const& a, Item const& b) { return a.key == b.key && a.tag == b.tag; }
OVERLOADRELATIONALNOEQ(Item, Item)

// compared with another type, from both sides; private members
class Level
{
  long v_;

public:
  explicit Level(long v) : v_(v) {}
  FDEFINEOVERLOADRELATIONAL(Level, Level)
  FDEFINEOVERLOADRELATIONAL(Level, long)
  FDEFINEOVERLOADRELATIONAL(long, Level)
};
inline bool operator<(Level const& a, Level const& b) { return a.v_ < b.v_; }
inline bool operator<(Level const& a, long const& b) { return a.v_ < 2 * b; }
inline bool operator<(long const& a, Level const& b) { return 2 * a < b.v_; }
OVERLOADRELATIONAL(Level, Level)
OVERLOADRELATIONAL(Level, long)
OVERLOADRELATIONAL(long, Level)

// another type, with equality of its own
class Mark
{
  long v_;

public:
  explicit Mark(long v) : v_(v) {}
  FDEFINEOVERLOADRELATIONAL(Mark, long)
  FDEFINEOVERLOADRELATIONAL(long, Mark)
};
inline bool operator<(Mark const& a, long const& b) { return a.v_ < b; }
inline bool operator<(long const& a, Mark const& b) { return a < b.v_; }
inline bool operator==(Mark const& a, long const& b) { return a.v_ == b; }
inline bool operator==(long const& a, Mark const& b) { return a == b.v_; }
OVERLOADRELATIONALNOEQ(Mark, long)
OVERLOADRELATIONALNOEQ(long, Mark)

// the key is that of the derived class, which a copy of the base has lost
struct Beast
{
  virtual ~Beast() = default;
  virtual long Key() const { return 0; }
};
struct Cat : Beast
{
  long key;
  explicit Cat(long k) : key(k) {}
  long Key() const override { return key; }
};
inline bool operator<(Beast const& a, Beast const& b) { return a.Key() < b.Key(); }
inline bool operator<(Beast const& a, long const& b) { return a.Key() < b; }
inline bool operator<(long const& a, Beast const& b) { return a < b.Key(); }
OVERLOADRELATIONAL(Beast, Beast)
OVERLOADRELATIONAL(Beast, long)
OVERLOADRELATIONAL(long, Beast)

// a class template, against itself and against its values
template<class T> struct Box
{
  T a{};
  T b{};
};
template<class T> inline bool operator<(Box<T> const& x, Box<T> const& y)
{
  return x.a < y.a || (!(y.a < x.a) && x.b < y.b);
}
template<class T> inline bool operator<(Box<T> const& x, T const& y) { return x.a < y; }
template<class T> inline bool operator<(T const& x, Box<T> const& y) { return x < y.a; }
TEMPLATEOVERLOADRELATIONAL(Box<G>, Box<G>, G)
TEMPLATEOVERLOADRELATIONAL(Box<G>, G, G)
TEMPLATEOVERLOADRELATIONAL(G, Box<G>, G)

template<class A, class B> void compare(std::string const& kind, In& in, A const& a, B const& b,
                                        std::vector<long> const& x, std::vector<long> const& y)
{
  (void)in;
  Ev("compare").s("kind", kind).is("x", x).is("y", y)
    .b("lt", a < b).b("eq", a == b).b("ne", a != b).b("le", a <= b).b("gt", a > b).b("ge", a >= b)
    .b("rlt", b < a).b("req", b == a).b("rne", b != a).b("rle", b <= a).b("rgt", b > a).b("rge", b >= a)
    .emit();
}

// -------------------------------- exceptions ------------------------------
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Season, (Spring)(Summer))

struct Failure
{
  virtual ~Failure() = default;
  virtual std::string what() const = 0;
  virtual std::unique_ptr<Failure> copy() const = 0;
  virtual void assign(Failure const& o) = 0;
  virtual std::unique_ptr<Failure> thrown() const = 0;
};
template<class E> struct Fail : Failure
{
  E e;
  explicit Fail(E x) : e(std::move(x)) {}
  std::string what() const override { return static_cast<std::exception const&>(e).what(); }
  std::unique_ptr<Failure> copy() const override { return std::make_unique<Fail<E>>(e); }
  void assign(Failure const& o) override { e = dynamic_cast<Fail<E> const&>(o).e; }
  std::unique_ptr<Failure> thrown() const override
  {
    std::exception_ptr p;
    try { throw E(e); }
    catch (std::exception const&) { p = std::current_exception(); }
    try { std::rethrow_exception(p); }
    catch (E const& x) { return std::make_unique<Fail<E>>(x); }
    catch (...) {}
    return nullptr;
  }
};
template<class E> std::unique_ptr<Failure> hold(E e) { return std::make_unique<Fail<E>>(std::move(e)); }

static std::vector<int> codes(std::string const& s)
{
  std::vector<int> v;
  for (unsigned char c : s) v.push_back(c);
  return v;
}

CONF_STATE std::map<long, std::unique_ptr<Failure>> reg;

int main()
{
  auto event = [&](Ev&& e, long k) { e.is("what", codes(reg.at(k)->what())).emit(); };
  return run(
    [&] { reg.clear(); },
    {
      { "compare", [](In& in) {
         auto kind = in.tok();
         auto x = in.is<long>(), y = in.is<long>();
         auto go = [&](auto const& a, auto const& b) { compare(kind, in, a, b, x, y); };
         if (kind == "card") go(Card{ x[0], x[1] }, Card{ y[0], y[1] });
         else if (kind == "item") go(Item{ x[0], x[1] }, Item{ y[0], y[1] });
         else if (kind == "level") go(Level(x[0]), Level(y[0]));
         else if (kind == "levellong") go(Level(x[0]), y[0]);
         else if (kind == "marklong") go(Mark(x[0]), y[0]);
         else if (kind == "beast") go(static_cast<Beast const&>(Cat(x[0])), static_cast<Beast const&>(Cat(y[0])));
         else if (kind == "beastlong") go(static_cast<Beast const&>(Cat(x[0])), y[0]);
         else if (kind == "boxs") {
           // numbers of one width are ordered as their texts
           auto t = [](long v) { return std::to_string(4000000000L + v); };
           go(Box<std::string>{ t(x[0]), t(x[1]) }, Box<std::string>{ t(y[0]), t(y[1]) });
         }
         else if (kind == "box") go(Box<long>{ x[0], x[1] }, Box<long>{ y[0], y[1] });
         else if (kind == "boxd") go(Box<double>{ double(x[0]), double(x[1]) }, Box<double>{ double(y[0]), double(y[1]) });
         else if (kind == "boxlong") go(Box<long>{ x[0], x[1] }, y[0]);
         else fail(kind);
       } },
      { "fail", [&](In& in) {
         auto k = in.i();
         auto kind = in.tok();
         auto a = in.s(); // text, or a number in hexadecimal notation
         double d = 0;
         if (kind == "move") reg[k] = hold(bwsl::montecarlo::exception::MoveInvalidSequence(a));
         else if (kind == "prob") { d = std::strtod(a.c_str(), nullptr); reg[k] = hold(bwsl::montecarlo::exception::InvalidProbability(d)); }
         else if (kind == "parse") reg[k] = hold(bwsl::exception::BadParsing());
         else if (kind == "overflow") reg[k] = hold(bwsl::exception::AccumulatorOverflow());
         else if (kind == "enum") {
           auto got = Spring;
           try { FromString(got, a); fail("no exception"); }
           catch (EnumStringConversionFailed_Season const& e) { reg[k] = hold(e); }
         } else if (kind == "rational") {
           try {
             bwsl::RationalNum<long> r;
             bwsl::FromString(a, r);
             fail("no exception");
           } catch (bwsl::exception::BadParsing const& e) { reg[k] = hold(e); }
         } else if (kind == "sequence") {
           bwsl::montecarlo::MoveStats m(a);
           try { m.Reject(.5); fail("no exception"); }
           catch (bwsl::montecarlo::exception::MoveInvalidSequence const& e) { reg[k] = hold(e); }
         } else fail(kind);
         event(std::move(Ev("fail").i("k", k).s("kind", kind).is("text", codes(a)).d("d", d)), k);
       } },
      { "copy", [&](In& in) {
         auto k = in.i(), from = in.i();
         auto how = in.tok();
         if (how == "assign" && reg.count(k)) reg[k]->assign(*reg.at(from));
         else if (how == "throw") { auto p = reg.at(from)->thrown(); if (!p) { Ev("Crash").s("how", "caught as another type").emit(); return; } reg[k] = std::move(p); }
         else reg[k] = reg.at(from)->copy();
         event(std::move(Ev("copy").i("k", k).i("from", from).s("how", how)), k);
       } },
      { "drop", [&](In& in) { auto k = in.i(); reg.erase(k); Ev("drop").i("k", k).emit(); } },
      { "what", [&](In& in) { auto k = in.i(); event(std::move(Ev("what").i("k", k)), k); } },
    });
}
