// Conformance driver for rational numbers (C11 - C13): a calculator with
// registers.
#include "common.hpp"
#include <bwsl/RationalNum.hpp>
using namespace bwsl;
using namespace conf;

template<class T>
struct Calc
{
  using R = RationalNum<T>;
  std::vector<R> r;

  static Ev& put(Ev& e, R const& x)
  {
    return e.B("num", x.GetNum()).B("den", x.GetDen());
  }
  void describe(Ev& e, R& x)
  {
    put(e, x);
    e.b("isint", x.IsInt()).d("dbl", static_cast<double>(x)).B("trunc", static_cast<T>(x)).emit();
  }
  template<class A, class B>
  static R apply(char op, A const& a, B const& b)
  {
    switch (op) {
      case '+': return a + b;
      case '-': return a - b;
      case '*': return a * b;
      default: return a / b;
    }
  }
  template<class A, class B>
  static void relate(Ev& e, A const& a, B const& b)
  {
    e.b("lt", a < b).b("le", a <= b).b("eq", a == b).b("ne", a != b).b("ge", a >= b).b("gt", a > b);
  }
  void start(size_t n) { r.assign(n, R{}); }

  void make(In& in)
  {
    auto k = in.u();
    auto n = static_cast<T>(in.i()), d = static_cast<T>(in.i());
    r[k] = R(n, d);
    Ev e("make");
    e.i("k", k).B("n", n).B("d", d);
    describe(e, r[k]);
  }
  void op(In& in)
  {
    auto k = in.u();
    auto o = in.tok();
    auto a = in.u(), b = in.u();
    auto x = apply(o[0], r[a], r[b]);
    Ev e("op");
    e.i("k", k).s("o", o).i("a", a).i("b", b);
    e.B("anum", r[a].GetNum()).B("aden", r[a].GetDen()).B("bnum", r[b].GetNum()).B("bden", r[b].GetDen());
    r[k] = x;
    describe(e, r[k]);
  }
  void opi(In& in, bool left)
  {
    auto k = in.u();
    auto o = in.tok();
    auto a = in.u();
    auto i = static_cast<T>(in.i());
    auto x = left ? apply(o[0], i, r[a]) : apply(o[0], r[a], i);
    Ev e(left ? "iop" : "opi");
    e.i("k", k).s("o", o).i("a", a).B("i", i);
    r[k] = x;
    describe(e, r[k]);
  }
  void copy(In& in)
  {
    auto how = in.i();
    auto k = in.u(), a = in.u();
    if (how == 0) r[k] = r[a];
    else if (how == 1) { R x(r[a]); r[k] = std::move(x); }
    else { R x(std::move(r[a])); r[a] = x; r[k] = x; }
    Ev e("copy");
    e.i("k", k).i("a", a);
    describe(e, r[k]);
  }
  void simplify(In& in)
  {
    auto k = in.u();
    r[k].Simplify();
    Ev e("simplify");
    e.i("k", k);
    describe(e, r[k]);
  }
  void rel(In& in)
  {
    auto a = in.u(), b = in.u();
    Ev e("rel");
    e.i("a", a).i("b", b);
    relate(e, r[a], r[b]);
    e.emit();
  }
  void reli(In& in)
  {
    auto a = in.u();
    auto i = static_cast<T>(in.i());
    Ev e("reli"), f("irel");
    e.i("a", a).B("i", i);
    relate(e, r[a], i);
    e.emit();
    f.i("a", a).B("i", i);
    relate(f, i, r[a]);
    f.emit();
  }
  static std::vector<int> codes(std::string const& s)
  {
    std::vector<int> v;
    for (unsigned char c : s) v.push_back(c);
    return v;
  }
  void text(In& in)
  {
    auto k = in.u();
    std::ostringstream o;
    o << r[k];
    auto s = ToString(r[k]);
    Ev e("text");
    e.i("k", k).is("s", codes(s)).b("same", s == o.str());
    R back(7, 3);
    FromString(s, back);
    put(e, back).b("equal", back == r[k]).emit();
  }
  void parse(In& in)
  {
    auto k = in.u();
    auto s = in.s();
    std::string thrown = "no";
    try {
      FromString(s, r[k]);
    } catch (exception::BadParsing const&) {
      thrown = "BadParsing";
    } catch (std::exception const& x) {
      thrown = "other";
    }
    Ev e("parse");
    e.i("k", k).is("s", codes(s)).s("thrown", thrown);
    put(e, r[k]).emit();
  }
  // a stream of several rationals into consecutive registers
  void stream(In& in)
  {
    auto k = in.u(), n = in.u();
    auto s = in.s();
    std::istringstream is(s);
    std::vector<int> ok;
    std::vector<std::string> got;
    for (size_t j = 0; j < n; j++) {
      bool good = static_cast<bool>(is >> r[k + j]);
      ok.push_back(good ? 1 : 0);
      got.push_back("[" + big(r[k + j].GetNum()) + "," + big(r[k + j].GetDen()) + "]");
    }
    Ev("stream").i("k", k).i("n", n).is("s", codes(s)).is("ok", ok).raw("got", list(got, [](auto const& x) { return x; })).emit();
  }
};

CONF_STATE Calc<long> L;
CONF_STATE Calc<int> I;
CONF_STATE bool wide = true;

int main()
{
  std::map<std::string, std::function<void(In&)>> ops;
  ops["type"] = [](In& in) {
    wide = in.tok() == "long";
    auto n = in.u();
    if (wide) L.start(n); else I.start(n);
    Ev("type").s("T", wide ? "long" : "int").i("n", n).emit();
  };
#define CALC(name, call) ops[name] = [](In& in) { if (wide) L.call; else I.call; };
  CALC("make", make(in))
  CALC("op", op(in))
  CALC("opi", opi(in, false))
  CALC("iop", opi(in, true))
  CALC("copy", copy(in))
  CALC("simplify", simplify(in))
  CALC("rel", rel(in))
  CALC("reli", reli(in))
  CALC("text", text(in))
  CALC("parse", parse(in))
  CALC("stream", stream(in))
  return run([] { L.start(0); I.start(0); wide = true; }, ops);
}
