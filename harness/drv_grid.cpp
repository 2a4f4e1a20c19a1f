// Conformance driver for grids, pairs and walks (C01 - C04).
#include "common.hpp"
#include <bwsl/HyperCubicGrid.hpp>
#include <bwsl/Lattice.hpp>
#include <bwsl/Pairs.hpp>
#include <memory>
using namespace bwsl;
using namespace conf;
using Grid = HyperCubicGrid;

CONF_STATE std::unique_ptr<Grid> g;
CONF_STATE std::unique_ptr<Lattice> lat;
CONF_STATE Grid::coords_t acc; // jumps accumulated along the walk
CONF_STATE size_t here = 0;

static Bravais cubic(size_t dim)
{
  std::vector<double> one(dim * dim, 0.0);
  std::vector<long> nb(dim * dim, 0);
  for (size_t k = 0; k < dim; k++) { one[k * dim + k] = 1.0; nb[k * dim + k] = 1; }
  return Bravais(dim, 2 * dim, one, one, nb);
}

static void describe(Ev& e, bool wide)
{
  e.i("dim", g->GetDim()).b("open", g->HasOpenBoundaries())
   .b("closed", g->HasClosedBoundaries())
   .b("bclosed", g->GetBoundaries() == Grid::boundaries_t::Closed);
  if (wide) e.Bs("size", g->GetSize()).B("n", g->GetNumSites());
  else e.is("size", g->GetSize()).i("n", g->GetNumSites());
}

static void make(In& in, bool wide)
{
  bool closed = in.i() != 0;
  auto size = in.is<size_t>();
  auto bc = closed ? Grid::boundaries_t::Closed : Grid::boundaries_t::Open;
  g = std::make_unique<Grid>(size, bc);
  if (size.size() % 2 == 0) g = std::make_unique<Grid>(g->GetGrid()); // through a copy
  Ev e(wide ? "wnew" : "new");
  e.b("argclosed", closed);
  if (wide) e.Bs("L", size); else e.is("L", size);
  describe(e, wide);
  e.emit();
}

int main()
{
  std::map<std::string, std::function<void(In&)>> ops;
  ops["new"] = [](In& in) { make(in, false); };
  ops["wnew"] = [](In& in) { make(in, true); };
  // every site of the grid
  ops["table"] = [](In&) {
    auto n = g->GetNumSites();
    std::vector<Grid::coords_t> cs;
    std::vector<size_t> idx;
    std::vector<size_t> valid;
    for (size_t k = 0; k < n; k++) {
      cs.push_back(g->GetCoordinates(k));
      idx.push_back(g->GetIndex(cs.back()));
      valid.push_back(g->IndexIsValid(k) && g->IsOnGrid(cs.back()) ? 1 : 0);
    }
    Ev e("table");
    e.raw("cs", list(cs, [](auto const& c) { return nums(c); })).is("idx", idx).is("valid", valid)
     .b("past", g->IndexIsValid(n)).emit();
  };
  ops["coords"] = [](In& in) {
    auto k = in.u();
    auto c = g->GetCoordinates(k);
    Ev("coords").i("i", k).is("c", c).i("back", g->GetIndex(c)).emit();
  };
  ops["wcoords"] = [](In& in) {
    auto k = in.u();
    auto c = g->GetCoordinates(k);
    Ev("wcoords").B("i", k).Bs("c", c).B("back", g->GetIndex(c)).emit();
  };
  ops["windex"] = [](In& in) {
    auto c = in.is();
    auto k = g->GetIndex(c);
    Ev("windex").Bs("c", c).B("i", k).Bs("back", g->GetCoordinates(k)).emit();
  };
  ops["ongrid"] = [](In& in) {
    auto c = in.is();
    Ev("ongrid").is("c", c).b("r", g->IsOnGrid(c)).emit();
  };
  ops["wongrid"] = [](In& in) {
    auto c = in.is();
    Ev("wongrid").Bs("c", c).b("r", g->IsOnGrid(c)).emit();
  };
  ops["enforce"] = [](In& in) {
    auto c = in.is();
    auto r = c;
    g->EnforceBoundaries(r);
    Ev("enforce").is("c", c).is("r", r).emit();
  };
  ops["wenforce"] = [](In& in) {
    auto c = in.is();
    auto r = c;
    g->EnforceBoundaries(r);
    Ev("wenforce").Bs("c", c).Bs("r", r).emit();
  };
  // the same on a lattice (periodic only)
  ops["latenforce"] = [](In& in) {
    auto c = in.is();
    auto r = c;
    lat->EnforceBoundaries(r);
    Ev("latenforce").is("c", c).is("r", r).emit();
  };
  ops["mapped"] = [](In& in) {
    auto a = in.u(), b = in.u();
    Ev("mapped").i("a", a).i("b", b).i("r", g->GetMappedSite(a, b)).emit();
  };
  ops["unmapped"] = [](In& in) {
    auto i = in.u(), a = in.u();
    Ev("unmapped").i("i", i).i("a", a).i("r", g->GetUnMappedSite(i, a)).emit();
  };
  ops["maptable"] = [](In&) {
    auto n = g->GetNumSites();
    std::vector<std::vector<size_t>> m(n), u(n);
    for (size_t a = 0; a < n; a++)
      for (size_t b = 0; b < n; b++) {
        m[a].push_back(g->GetMappedSite(a, b));
        u[a].push_back(g->GetUnMappedSite(a, b));
      }
    auto f = [](auto const& r) { return nums(r); };
    Ev("maptable").raw("m", list(m, f)).raw("u", list(u, f)).emit();
  };
  ops["wmapped"] = [](In& in) {
    auto a = in.u(), b = in.u();
    auto r = g->GetMappedSite(a, b);
    Ev("wmapped").B("a", a).B("b", b).B("r", r)
      .Bs("ca", g->GetCoordinates(a)).Bs("cb", g->GetCoordinates(b)).Bs("cr", g->GetCoordinates(r))
      .B("back", g->GetUnMappedSite(r, a)).emit();
  };
  ops["jump"] = [](In& in) {
    auto a = in.u(), b = in.u();
    Ev("jump").i("a", a).i("b", b).is("r", g->GetJump(a, b)).emit();
  };
  ops["jumptable"] = [](In&) {
    auto n = g->GetNumSites();
    std::vector<std::vector<Grid::coords_t>> j(n);
    for (size_t a = 0; a < n; a++)
      for (size_t b = 0; b < n; b++) j[a].push_back(g->GetJump(a, b));
    auto f = [](auto const& r) { return list(r, [](auto const& c) { return nums(c); }); };
    Ev("jumptable").raw("j", list(j, f)).emit();
  };
  ops["wjump"] = [](In& in) {
    auto a = in.u(), b = in.u();
    Ev("wjump").B("a", a).B("b", b).Bs("ca", g->GetCoordinates(a)).Bs("cb", g->GetCoordinates(b))
      .Bs("r", g->GetJump(a, b)).emit();
  };
  // walks on a lattice with these extents
  ops["start"] = [](In& in) {
    auto closed = in.i() != 0;
    auto size = in.is<size_t>();
    here = in.u();
    lat = std::make_unique<Lattice>(cubic(size.size()), size,
                                    closed ? Grid::boundaries_t::Closed : Grid::boundaries_t::Open);
    g = std::make_unique<Grid>(lat->GetGrid());
    acc = Grid::coords_t(size.size(), 0L);
    Ev e("start");
    e.b("argclosed", closed).is("L", size).i("site", here);
    describe(e, false);
    e.emit();
  };
  ops["hop"] = [](In& in) {
    auto b = in.u();
    auto j = lat->GetJump(here, b);
    sum_into(acc, j);
    here = b;
    Ev("hop").i("b", b).is("j", j).is("acc", acc).is("w", lat->GetWinding(acc)).emit();
  };
  ops["winding"] = [](In& in) { // of an exact multiple of the extents
    auto c = in.is();
    Ev("winding").is("c", c).is("w", lat->GetWinding(c)).emit();
  };
  ops["wwinding"] = [](In& in) {
    auto c = in.is();
    Ev("wwinding").Bs("c", c).Bs("w", lat->GetWinding(c)).emit();
  };
  // pairs
  ops["npairs"] = [](In& in) {
    auto n = in.u();
    Ev("npairs").B("n", n).B("r", pairs::GetNumPairs(n)).emit();
  };
  ops["pair"] = [](In& in) {
    auto n = in.u(), a = in.u(), b = in.u();
    auto k = pairs::GetPairIndex(a, b, n);
    auto k2 = pairs::GetPairIndex(std::make_pair(a, b), n);
    auto p = pairs::GetPair(k, n);
    Ev("pair").B("n", n).B("a", a).B("b", b).B("k", k).B("k2", k2).B("pa", p.first).B("pb", p.second).emit();
  };
  ops["unpair"] = [](In& in) {
    auto n = in.u(), k = in.u();
    auto p = pairs::GetPair(k, n);
    Ev("unpair").B("n", n).B("k", k).B("a", p.first).B("b", p.second)
      .B("back", pairs::GetPairIndex(p.first, p.second, n)).emit();
  };
  ops["pairtable"] = [](In& in) {
    auto n = in.u();
    std::vector<std::vector<size_t>> k(n);
    std::vector<std::vector<size_t>> p;
    for (size_t a = 0; a < n; a++)
      for (size_t b = 0; b < n; b++) k[a].push_back(pairs::GetPairIndex(a, b, n));
    auto np = pairs::GetNumPairs(n);
    for (size_t i = 0; i < np && i < 100000; i++) {
      auto q = pairs::GetPair(i, n);
      p.push_back({ q.first, q.second });
    }
    auto f = [](auto const& r) { return nums(r); };
    Ev("pairtable").i("n", n).i("np", np).raw("k", list(k, f)).raw("p", list(p, f)).emit();
  };
  ops["gridpair"] = [](In& in) {
    auto a = in.u(), b = in.u();
    auto k = g->GetPairIndex(a, b);
    auto p = g->GetIndividualIndices(k);
    Ev("gridpair").B("a", a).B("b", b).B("k", k).B("pa", p.first).B("pb", p.second)
      .B("lib", pairs::GetPairIndex(a, b, g->GetNumSites())).emit();
  };
  return run([] { g.reset(); lat.reset(); acc.clear(); here = 0; }, ops);
}
