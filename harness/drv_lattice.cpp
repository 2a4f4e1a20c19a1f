// Conformance driver for Bravais lattices and finite lattices (C05 - C10).
#include "common.hpp"
#include <bwsl/Bravais.hpp>
#include <bwsl/Lattice.hpp>
#include <map>
#include <memory>
#include <set>
#include <unistd.h>
using namespace bwsl;
using namespace conf;

CONF_STATE std::unique_ptr<Bravais> bra;
CONF_STATE std::unique_ptr<Lattice> lat;
CONF_STATE std::string kind;
CONF_STATE std::vector<double> sk; // the caller's structure factor
// what was put aside
struct Held
{
  std::unique_ptr<Bravais> bra;
  std::unique_ptr<Lattice> lat;
};
CONF_STATE Held shelf[3];

// to becomes from, in one of the ways a value can
template<class T> void become(std::unique_ptr<T>& to, T& from, std::string const& how)
{
  if (how == "ctor") to = std::make_unique<T>(static_cast<T const&>(from));
  else if (how == "assign") {
    if (!to) { T other = from; to = std::make_unique<T>(std::move(other)); }
    else *to = static_cast<T const&>(from);
  } else if (how == "temp") { // moved from a copy that goes away
    T t(static_cast<T const&>(from));
    if (to) *to = std::move(t);
    else to = std::make_unique<T>(std::move(t));
  } else if (how == "vector") { // in a container that grows and shrinks
    std::vector<T> v(2, from);
    v.push_back(v.front());
    v.insert(v.begin(), from);
    v.erase(v.begin() + 1);
    to = std::make_unique<T>(v.back());
  } else { std::cerr << "driver: no way " << how << "\n"; std::exit(90); }
}

static std::string vecs(std::vector<std::vector<double>> const& v)
{
  return list(v, [](auto const& x) { return dbls(x); });
}

struct Table
{
  std::string header;
  std::vector<std::vector<std::string>> ids;
  std::vector<std::vector<double>> vals;
  bool newline = true;
};

// reads a comma separated file; the first nid columns are indices
static Table slurp(std::string const& f, size_t nid)
{
  Table t;
  std::ifstream in(f);
  std::stringstream ss;
  ss << in.rdbuf();
  auto s = ss.str();
  t.newline = !s.empty() && s.back() == '\n';
  std::istringstream ls(s);
  std::string line;
  bool first = true;
  while (std::getline(ls, line)) {
    if (first) { t.header = line; first = false; continue; }
    std::vector<std::string> id;
    std::vector<double> v;
    size_t pos = 0, k = 0;
    while (pos <= line.size()) {
      auto c = line.find(',', pos);
      if (c == std::string::npos) c = line.size();
      auto w = line.substr(pos, c - pos);
      if (k < nid) id.push_back(w);
      else {
        char* end = nullptr;
        double x = std::strtod(w.c_str(), &end);
        v.push_back(end && *end == 0 && !w.empty() && !std::isspace(w[0]) ? x : std::nan(""));
      }
      k++;
      pos = c + 1;
    }
    t.ids.push_back(id);
    t.vals.push_back(v);
  }
  return t;
}
static void put(Ev& e, Table const& t)
{
  e.s("header", t.header).b("newline", t.newline)
   .raw("ids", list(t.ids, [](auto const& r) { return list(r, [](auto const& s) { return str(s); }); }))
   .raw("vals", vecs(t.vals));
}

template<class T>
static void skop(In& in, bool accumulate, char const* ty)
{
  auto occ = in.ds();
  auto mult = in.d();
  bool defmult = mult == 1.0 && in.i() != 0;
  std::vector<T> o(occ.begin(), occ.end());
  Ev e("sk");
  e.b("accumulate", accumulate).s("type", ty).d("mult", mult);
  e.ds("occ", std::vector<double>(o.begin(), o.end()));
  if (accumulate) {
    e.ds("before", sk);
    if (defmult) lat->AccumulateSk(o, sk); else lat->AccumulateSk(o, sk, mult);
    e.ds("r", sk);
  } else {
    e.ds("r", defmult ? lat->ComputeSk(o) : lat->ComputeSk(o, mult));
  }
  e.ds("occafter", std::vector<double>(o.begin(), o.end()));
  e.emit();
}

int main()
{
  std::map<std::string, std::function<void(In&)>> ops;
  ops["bravais"] = [](In& in) {
    kind = in.tok();
    Ev e("bravais");
    e.s("kind", kind);
    if (kind == "chain") bra = std::make_unique<Bravais>(ChainLattice);
    else if (kind == "square") bra = std::make_unique<Bravais>(SquareLattice);
    else if (kind == "cubic") bra = std::make_unique<Bravais>(CubicLattice);
    else if (kind == "triangular") bra = std::make_unique<Bravais>(TriangularLattice);
    else {
      // den, P, R: component i of vector j is (P[j][i] + R[j][i] sqrt 3)/den
      auto dim = in.u();
      auto den = in.i();
      auto P = in.is(), R = in.is();
      auto piv = in.ds();
      auto nb = in.is();
      std::vector<double> pv(dim * dim);
      for (size_t k = 0; k < dim * dim; k++)
        pv[k] = (static_cast<double>(P[k]) + static_cast<double>(R[k]) * std::sqrt(3.0)) / static_cast<double>(den);
      bra = std::make_unique<Bravais>(dim, 2 * nb.size() / dim, pv, piv, nb);
      auto rows = [dim](std::vector<long> const& m) {
        std::vector<std::vector<long>> r;
        for (size_t k = 0; k < m.size() / dim; k++) r.emplace_back(m.begin() + k * dim, m.begin() + (k + 1) * dim);
        return list(r, [](auto const& x) { return nums(x); });
      };
      e.i("den", den).raw("P", rows(P)).raw("R", rows(R)).raw("nb", rows(nb));
    }
    e.i("dim", bra->GetDim()).i("gamma", bra->GetGamma()).emit();
  };
  ops["real"] = [](In& in) {
    auto c = in.is();
    auto r = bra->GetRealSpace(c);
    Ev("real").Bs("c", c).ds("r", r).ds("inv", bra->GetInverseVector(r)).emit();
  };
  ops["recip"] = [](In& in) {
    auto c = in.is();
    Ev("recip").Bs("c", c).ds("r", bra->GetReciprocalSpace(c)).emit();
  };
  ops["between"] = [](In& in) {
    auto a = in.is(), b = in.is();
    auto dv = bra->GetDistanceVector(a, b);
    Ev("between").Bs("a", a).Bs("b", b).ds("v", bra->GetVector(a, b)).d("d", bra->GetDistance(a, b))
      .d("dd", dv.first).ds("dv", dv.second).emit();
  };
  ops["step"] = [](In& in) { // to neighbour j, to its opposite, and back
    auto c = in.is();
    auto j = in.u();
    auto n = bra->GetNeighbor(c, j);
    auto m = bra->GetNeighbor(c, j ^ 1);
    Ev("step").Bs("c", c).i("j", j).Bs("n", n).Bs("m", m).Bs("nm", bra->GetNeighbor(n, j ^ 1))
      .Bs("mn", bra->GetNeighbor(m, j)).emit();
  };
  ops["lattice"] = [](In& in) {
    auto how = in.i(); // how the boundaries are given
    auto size = in.is<size_t>();
    bool closed = how != 0;
    if (how == 2) lat = std::make_unique<Lattice>(*bra, size);
    else lat = std::make_unique<Lattice>(*bra, size, closed ? Lattice::boundaries_t::Closed : Lattice::boundaries_t::Open);
    sk.assign(lat->GetNumSites(), 0.0);
    Ev("lattice").b("argclosed", closed).is("L", size).i("n", lat->GetNumSites()).is("size", lat->GetSize())
      .b("closed", lat->HasClosedBoundaries()).i("dim", lat->GetDim()).emit();
  };
  ops["copylat"] = [](In&) { // go on with a copy
    Lattice l = *lat;
    Lattice m;
    m = std::move(l);
    lat = std::make_unique<Lattice>(m);
    Ev("copylat").i("n", lat->GetNumSites()).emit();
  };
  ops["shelve"] = [](In& in) {
    auto k = in.u();
    auto how = in.tok();
    become(shelf[k].bra, *bra, how);
    become(shelf[k].lat, *lat, how);
    Ev("shelve").i("k", k).emit();
  };
  ops["fetch"] = [](In& in) {
    auto k = in.u();
    auto how = in.tok();
    bool gone = how == "gone";
    if (gone) { // moved away (what is left may still be assigned to)
      *bra = std::move(*shelf[k].bra);
      *lat = std::move(*shelf[k].lat);
    } else {
      become(bra, *shelf[k].bra, how);
      become(lat, *shelf[k].lat, how);
    }
    sk.assign(lat->GetNumSites(), 0.0);
    Ev("fetch").i("k", k).b("gone", gone).emit();
  };
  ops["exchange"] = [](In& in) {
    auto k = in.u();
    std::swap(*bra, *shelf[k].bra);
    std::swap(*lat, *shelf[k].lat);
    sk.assign(lat->GetNumSites(), 0.0);
    Ev("exchange").i("k", k).emit();
  };
  ops["itself"] = [](In&) {
    auto const& x = *lat;
    auto const& y = *bra;
    *lat = x;
    *bra = y;
    Ev("itself").emit();
  };
  ops["grid"] = [](In& in) { // the grid of a lattice
    auto how = in.tok();
    HyperCubicGrid g;
    if (how == "get") g = lat->GetGrid();
    else if (how == "slice") g = *lat;
    else { HyperCubicGrid h(*lat); auto i = h.GetGrid(); h = HyperCubicGrid({ 2, 3, 2 }, HyperCubicGrid::boundaries_t::Open); std::swap(g, i); }
    auto n = g.GetNumSites();
    std::vector<std::vector<long>> cs;
    std::vector<size_t> idx;
    std::vector<std::vector<size_t>> mapped, unmapped;
    std::vector<std::vector<std::vector<long>>> jump;
    for (size_t a = 0; a < n; a++) {
      cs.push_back(g.GetCoordinates(a));
      idx.push_back(g.GetIndex(cs.back()));
      mapped.emplace_back();
      unmapped.emplace_back();
      jump.emplace_back();
      for (size_t b = 0; b < n; b++) {
        if (g.HasClosedBoundaries()) {
          mapped.back().push_back(g.GetMappedSite(a, b));
          unmapped.back().push_back(g.GetUnMappedSite(b, a));
        }
        jump.back().push_back(g.GetJump(a, b));
      }
    }
    auto f = [](auto const& x) { return nums(x); };
    Ev("grid").is("size", g.GetSize()).i("n", n).i("dim", g.GetDim()).b("closed", g.HasClosedBoundaries()).b("open", g.HasOpenBoundaries())
      .b("valid", g.IndexIsValid(n - 1) && !g.IndexIsValid(n)).raw("cs", list(cs, f)).is("idx", idx).raw("mapped", list(mapped, f))
      .raw("unmapped", list(unmapped, f)).raw("jump", list(jump, [f](auto const& x) { return list(x, f); })).emit();
  };
  ops["neighbors"] = [](In&) {
    auto n = lat->GetNumSites();
    std::vector<std::vector<size_t>> nb, are(n);
    std::vector<size_t> coord;
    for (size_t a = 0; a < n; a++) {
      nb.push_back(lat->GetNeighbors(a));
      coord.push_back(lat->GetCoordination(a));
      for (size_t b = 0; b < n; b++)
        if (lat->AreNeighbors(a, b)) are[a].push_back(b);
    }
    auto f = [](auto const& r) { return nums(r); };
    Ev("neighbors").raw("nb", list(nb, f)).raw("are", list(are, f)).is("coord", coord).i("z", lat->GetCoordination()).emit();
  };
  ops["builtin"] = [](In&) { // all offsets of the Bravais lattice
    std::vector<std::vector<long>> off;
    for (size_t j = 0; j < bra->GetGamma(); j++) off.push_back(bra->GetNeighbor(std::vector<long>(bra->GetDim(), 0L), j));
    Ev("builtin").raw("off", list(off, [](auto const& r) { return nums(r); })).emit();
  };
  ops["vec"] = [](In& in) {
    auto a = in.u(), b = in.u();
    Ev("vec").i("a", a).i("b", b).ds("v", lat->GetVector(a, b)).d("d", lat->GetDistance(a, b)).emit();
  };
  ops["position"] = [](In& in) {
    auto a = in.u();
    Ev("position").i("a", a).ds("p", lat->GetPosition(a)).emit();
  };
  ops["nbof"] = [](In& in) {
    auto a = in.u();
    auto probe = in.is<size_t>();
    auto nb = lat->GetNeighbors(a);
    for (auto x : nb) probe.push_back(x);
    std::vector<bool> are;
    for (auto x : probe) are.push_back(lat->AreNeighbors(a, x));
    Ev("nbof").i("a", a).is("nb", nb).is("probe", probe).i("coord", lat->GetCoordination(a))
      .raw("are", list(are, [](bool b) { return std::string(b ? "true" : "false"); })).emit();
  };
  ops["positions"] = [](In&) {
    std::vector<std::vector<double>> p;
    for (size_t a = 0; a < lat->GetNumSites(); a++) p.push_back(lat->GetPosition(a));
    Ev("positions").raw("p", vecs(p)).emit();
  };
  ops["momenta"] = [](In&) {
    std::vector<std::vector<double>> p;
    for (size_t a = 0; a < lat->GetNumSites(); a++) p.push_back(lat->GetMomentum(a));
    Ev("momenta").raw("k", vecs(p)).emit();
  };
  ops["momof"] = [](In& in) {
    auto at = in.is<size_t>();
    std::vector<std::vector<double>> p;
    for (auto a : at) p.push_back(lat->GetMomentum(a));
    Ev("momof").is("at", at).raw("k", vecs(p)).emit();
  };
  // a few occupied sites on a larger lattice
  ops["sksparse"] = [](In& in) {
    auto sites = in.is<size_t>();
    auto occ = in.ds();
    auto at = in.is<size_t>();
    auto mult = in.d();
    std::vector<double> o(lat->GetNumSites(), 0.0);
    for (size_t i = 0; i < sites.size(); i++) o[sites[i]] = occ[i];
    std::vector<std::vector<double>> p;
    for (auto a : at) p.push_back(lat->GetMomentum(a));
    auto r = lat->ComputeSk(o, mult);
    Ev("sksparse").is("sites", sites).ds("occ", occ).d("mult", mult).is("at", at).raw("k", vecs(p)).ds("r", r).emit();
  };
  ops["skinit"] = [](In& in) { sk = in.ds(); Ev("skinit").ds("r", sk).emit(); };
  ops["sk"] = [](In& in) {
    bool acc = in.i() != 0;
    auto ty = in.tok();
    if (ty == "int") skop<int>(in, acc, "int");
    else if (ty == "long") skop<long>(in, acc, "long");
    else if (ty == "ulong") skop<unsigned long>(in, acc, "ulong");
    else if (ty == "short") skop<short>(in, acc, "short");
    else if (ty == "float") skop<float>(in, acc, "float");
    else if (ty == "uint") skop<unsigned>(in, acc, "uint");
    else if (ty == "uchar") skop<unsigned char>(in, acc, "uchar");
    else if (ty == "char") skop<signed char>(in, acc, "char");
    else if (ty == "bool") skop<bool>(in, acc, "bool");
    else skop<double>(in, acc, "double");
  };
  // all of the pairs of a large lattice: how many rows there are, and those of a few
  ops["somepairs"] = [](In& in) {
    std::string f = mine("table.csv");
    auto n = lat->GetNumSites();
    lat->SavePairs(f);
    auto s = slurp(f, 3);
    ::unlink(f.c_str());
    std::set<std::string> ids; // first column
    std::map<std::pair<std::string, std::string>, std::vector<size_t>> where;
    for (size_t r = 0; r < s.ids.size(); r++) {
      ids.insert(s.ids[r][0]);
      where[{ s.ids[r][1], s.ids[r][2] }].push_back(r);
    }
    auto distinct = where.size();
    auto m = in.u();
    std::string out = "[";
    for (size_t k = 0; k < m; k++) {
      auto a = in.u(), b = in.u();
      auto q = lat->GetVector(0, a);
      for (auto x : lat->GetVector(0, b)) q.push_back(x);
      for (auto x : lat->GetVector(a, b)) q.push_back(x);
      std::vector<std::string> found;
      std::vector<std::vector<double>> vals;
      for (auto r : where[{ std::to_string(a), std::to_string(b) }]) {
        found.push_back(s.ids[r][0]);
        vals.push_back(s.vals[r]);
      }
      out += std::string(k ? "," : "") + "{\"a\":" + std::to_string(a) + ",\"b\":" + std::to_string(b) + ",\"pid\":" +
             std::to_string(pairs::GetPairIndex(a, b, n)) + ",\"ids\":" + list(found, [](auto const& x) { return str(x); }) +
             ",\"vals\":" + vecs(vals) + ",\"q\":" + vecs({ q }) + "}";
    }
    Ev("somepairs").i("n", n).s("header", s.header).b("newline", s.newline).i("rows", s.ids.size()).i("distinct", ids.size())
                   .i("pairs", distinct).raw("some", out + "]").emit();
  };
  ops["save"] = [](In& in) {
    auto what = in.tok();
    auto dirty = in.i(); // what the file held before
    std::string f = mine("table.csv");
    ::unlink(f.c_str());
    if (dirty) {
      std::ofstream o(f);
      for (long k = 0; k < 200 * dirty; k++) o << "old contents " << k << "\n";
    }
    auto n = lat->GetNumSites();
    std::vector<std::vector<double>> q;
    std::vector<size_t> pids;
    Ev e("save");
    e.s("what", what).i("n", n);
    if (what == "positions") {
      lat->SavePositions(f);
      for (size_t a = 0; a < n; a++) q.push_back(lat->GetPosition(a));
    } else if (what == "distances") {
      lat->SaveDistances(f);
      for (size_t a = 0; a < n; a++) q.push_back(lat->GetVector(0, a));
    } else if (what == "momenta") {
      lat->SaveMomenta(f);
      if (lat->HasClosedBoundaries())
        for (size_t a = 0; a < n; a++) q.push_back(lat->GetMomentum(a));
    } else {
      lat->SavePairs(f);
      for (size_t a = 0; a < n; a++)
        for (size_t b = 0; b < n; b++) { // in the order a, b: indexed by the specification
          auto v = lat->GetVector(0, a);
          for (auto x : lat->GetVector(0, b)) v.push_back(x);
          for (auto x : lat->GetVector(a, b)) v.push_back(x);
          q.push_back(v);
          pids.push_back(pairs::GetPairIndex(a, b, n));
        }
    }
    put(e, slurp(f, what == "pairs" ? 3 : 1));
    e.raw("q", vecs(q)).is("pids", pids).emit();
    ::unlink(f.c_str());
  };
  return run([] { bra.reset(); lat.reset(); sk.clear(); for (auto& h : shelf) h = Held(); }, ops);
}
