// World: simulated clients label regions and merge them (property merge), and number
// regions and extract their contacts (connectivity extraction), for one polygon family.
// Oracles: per-face label sets; contacts on the integer lattice, exactly.
#ifndef VERIF_MERGEWORLD_HPP
#define VERIF_MERGEWORLD_HPP
#include "geom.hpp"
#if FAM == 0
typedef bp::property_merge_90<I, int> Merger; typedef bp::connectivity_extraction_90<I> Extractor;
#elif FAM == 1
typedef bp::property_merge_45<I, int> Merger; typedef bp::connectivity_extraction_45<I> Extractor;
#else
typedef bp::property_merge<I, int> Merger; typedef bp::connectivity_extraction<I> Extractor;
#endif
static const int MS = 3, ES = 2, MAXCL = 5, NP = 6;
static const int PROPS[NP] = {0, 1, -3, 7, 1000000000, 2};

// ------------------------------------------------------------------ exact contacts on the lattice
static long cross(const Pt& a, const Pt& b, const Pt& c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static int sgn(long v) { return v < 0 ? -1 : v > 0; }
static bool on_seg(const Pt& a, const Pt& b, const Pt& p) { return cross(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); }
static bool seg_meet(const Pt& a, const Pt& b, const Pt& c, const Pt& d) {
  if (on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b)) return true;
  return sgn(cross(a, b, c)) * sgn(cross(a, b, d)) < 0 && sgn(cross(c, d, a)) * sgn(cross(c, d, b)) < 0;
}
static bool in_ring(const Ring& r, const Pt& p) {   // strictly inside or not; p is not on the boundary
  bool in = false;
  for (size_t i = 0, j = r.size() - 1; i < r.size(); j = i++) {
    const Pt &a = r[i], &b = r[j];
    if ((a.y > p.y) != (b.y > p.y)) { long c = cross(a, b, p); if ((c > 0) == (b.y > a.y)) in = !in; }
  }
  return in;
}
static bool in_shape(const Shape& s, const Pt& p) { bool in = false; for (const Ring& r : s.rings) if (in_ring(r, p)) in = !in; return in; }
static bool shapes_touch(const Shape& a, const Shape& b) {
  for (const Ring& r : a.rings) for (size_t i = 0; i < r.size(); ++i) for (const Ring& q : b.rings) for (size_t j = 0; j < q.size(); ++j)
    if (seg_meet(r[i], r[(i + 1) % r.size()], q[j], q[(j + 1) % q.size()])) return true;
  return in_shape(a, b.rings[0][0]) || in_shape(b, a.rings[0][0]);
}
// lattice of cell corners and centres met by the closure of a region of the exact families
static void feet(const Reg& m, std::vector<char>& f) {
  int N = G.N, W = 2 * N + 1; f.assign(W * W, 0);
  auto mark = [&](int x, int y) { f[y * W + x] = 1; };
  for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) for (int k = 0; k < G.K; ++k) if (m.b[(j * N + i) * G.K + k]) {
    int x = 2 * i, y = 2 * j;
    if (FAM == F90) { mark(x, y); mark(x + 2, y); mark(x, y + 2); mark(x + 2, y + 2); }
    else { mark(x + 1, y + 1); bool lo_y = k == 0, hi_y = k == 1, lo_x = k == 2;   // order of the samples in Grid::init
      if (lo_y) { mark(x, y); mark(x + 2, y); } else if (hi_y) { mark(x, y + 2); mark(x + 2, y + 2); } else if (lo_x) { mark(x, y); mark(x, y + 2); } else { mark(x + 2, y); mark(x + 2, y + 2); } }
  }
}
static bool regs_touch(const Reg& a, const Reg& b) {
  std::vector<char> f, g; feet(a, f); feet(b, g);
  for (size_t i = 0; i < f.size(); ++i) if (f[i] && g[i]) return true;
  return false;
}

// the geometry concepts the merger of the family accepts
template <typename F> static void merge_geom(const Shape& s, long cls, F f) {
#if FAM == 2
  if (is_rect(s) && cls % 3 == 0) { Rect g = rect_of(s); f(g); }
  else if (s.rings.size() == 1 && (cls & 1)) { PG g = simple_poly<PG>(s.rings[0]); f(g); } else { PGH g = own_geom(s); f(g); }
#else
  with_geom(s, cls, f);
#endif
}

struct Node { Reg m; std::vector<Shape> sh; };
struct MSlot { Merger* p; std::vector<Reg> prop; bool bad; MSlot() : p(0), bad(false) {} void reset() { prop.assign(NP, Reg(G.M())); bad = false; } };
struct ESlot { Extractor* p; std::vector<Node> node; bool bad; std::vector<std::set<int> > graph; ESlot() : p(0), bad(false) {} };

struct MergeWorld : World {
  Plan plan;
  MSlot ms[MAXCL][MS]; ESlot es[MAXCL][ES];
  int cl() const { return current_client() % MAXCL; }
  Shape shape(const OpLine& op, size_t at) { long a[6]; for (int k = 0; k < 6; ++k) a[k] = op.arg(at + k, 1); return decode_shape(G, a, false); }
  int nshapes(const OpLine& op, size_t at) { return op.a.size() >= at + 6 ? (int)std::min<size_t>(4, (op.a.size() - at) / 6) : 1; }

  void setup(const Plan& p) {
    plan = p; G.init(FAM, p.get("exact", 1), (int)p.get("N", 12), p.get("U", 1000), p.get("ox", 0), p.get("oy", 0));
    for (int i = 0; i < MAXCL; ++i) {
      for (int k = 0; k < MS; ++k) { MSlot& s = ms[i][k]; lib([&] { s.p = new Merger(); }); s.reset(); }
      for (int k = 0; k < ES; ++k) { ESlot& s = es[i][k]; lib([&] { s.p = new Extractor(); }); s.node.clear(); s.graph.clear(); s.bad = false; }
    }
  }
  MSlot& mraw(long i) { return ms[cl()][posmod(i, MS)]; }
  ESlot& eraw(long i) { return es[cl()][posmod(i, ES)]; }
  // an insertion that failed half way leaves an incomplete object: it is replaced or assigned
  MSlot& md(long i) {
    MSlot& s = mraw(i); if (!s.bad) return s;
    probe("healed");
    if (current_op().arg(0) & 1) lib([&] { Merger f; *s.p = f; }); else lib([&] { delete s.p; s.p = 0; s.p = new Merger(); });
    s.reset(); return s;
  }
  ESlot& ed(long i) {
    ESlot& s = eraw(i); if (!s.bad) return s;
    probe("healed");
    if (current_op().arg(0) & 1) lib([&] { Extractor f; *s.p = f; }); else lib([&] { delete s.p; s.p = 0; s.p = new Extractor(); });
    s.node.clear(); s.graph.clear(); s.bad = false; return s;
  }
  // a set of several shapes in one of many internal states
  Set* make_set(const OpLine& op, size_t at, long how, Reg& m, std::vector<Shape>& shs) {
    Set* s = 0; lib([&] { s = NEWSET(how); });
    int k = nshapes(op, at); m = Reg(G.M());
    for (int i = 0; i < k; ++i) { Shape sh = shape(op, at + 6 * i); shs.push_back(sh); PMH g = own_geom(sh); lib([&] { s->insert(g); }); m = rop(m, G.of_shape(sh), 0); }
    switch (posmod(how / 2, 6)) {
      case 1: lib([&] { s->clean(); }); break;
      case 2: lib([&] { s->sort(); }); break;
#if FAM != 2
      case 3: { if (k < 2) break; Shape sh = shape(op, at); Reg h = G.of_shape(sh); PMH g = own_geom(sh); lib([&] { s->clean(); s->insert(g, true); s->clean(); }); m = rop(m, h, 5); break; }   // first shape cut out again
#endif
      case 4: lib([&] { bp::transformation<I> t(P(-3, 5)), u(P(3, -5)); s->transform(t); s->transform(u); }); break;
      case 5: lib([&] { Set c(*s); *s = c; }); break;
    }
    return s;
  }

  // ---------------------------------------------------------------- property merge
  static bool loose() { return FAM == FGEN || !G.exact; }
  // is the point in the closed region grown by tol?  (quarter cells, 45-degree model)
  static bool near45(const Reg& m, long x, long y, long tol) {
    long U = G.U;
    for (long j = (y - G.oy) / U - 1; j <= (y - G.oy) / U + 1; ++j) for (long i = (x - G.ox) / U - 1; i <= (x - G.ox) / U + 1; ++i) if (i >= 0 && j >= 0 && i < G.N && j < G.N)
      for (int k = 0; k < 4; ++k) if (m.b[(j * G.N + i) * G.K + k]) {
        long a = x - G.ox - i * U, b = y - G.oy - j * U;   // samples lie below, above, left, right of the centre
        long u = k < 2 ? a : b, v = k == 0 ? b : k == 1 ? U - b : k == 2 ? a : U - a;
        if (v >= -tol && v <= u + 2 * tol && v <= U - u + 2 * tol) return true;
      }
    return false;
  }
  template <typename K> static K key_of(unsigned mask) { std::set<int> s; for (int p = 0; p < NP; ++p) if (mask & (1u << p)) s.insert(PROPS[p]); return K(s.begin(), s.end()); }
  template <typename K> void check_merge(std::map<K, Set>& res, const std::vector<Reg>& prop, long v) {
    std::vector<unsigned> mask(G.M(), 0);
    for (int p = 0; p < NP; ++p) for (size_t i = 0; i < G.M(); ++i) if (prop[p].b[i]) mask[i] |= 1u << p;
    std::map<unsigned, Reg> want; for (size_t i = 0; i < G.M(); ++i) if (mask[i]) { auto q = want.find(mask[i]); if (q == want.end()) q = want.insert(std::make_pair(mask[i], Reg(G.M()))).first; q->second.b[i] = 1; }
    i128 sum2 = 0; size_t found = 0;
    std::map<K, unsigned> known; for (unsigned k = 1; k < (1u << NP); ++k) known[key_of<K>(k)] = k;
    for (auto& e : res) {
      auto kn = known.find(e.first); if (kn == known.end()) violation("wrong-key", "merge: a label set that no point can have");
      observe(kn->second);
      auto w = want.find(kn->second); Reg none(G.M());
      const Reg& m = w == want.end() ? none : w->second; if (w != want.end()) ++found;
      Set& s = e.second;
      if (posmod(v, 3) == 0) { bool em = false; lib([&] { em = s.empty(); }); if (!loose() ? em == m.any() : em && m.any()) violation("wrong-empty", fmt("merge: empty() of the region of label set %u is %d", kn->second, (int)em)); }
      if (!loose() && !m.any()) violation("wrong-key", fmt("merge: label set %u reported, no point has it", kn->second));
      std::vector<PMH> o; lib([&] { s.get(o); });
      Tally t; for (auto& p : o) t.add(p);
      if (o.empty() && (!loose() || m.any())) violation("wrong-key", fmt("merge: label set %u reported with an empty region", kn->second));   // a sliver may vanish in rounding
      check_tally(t, m, "merge", true); sum2 += t.area2;
      if (FAM == F45) for (int p = 0; p < NP; ++p) if (kn->second & (1u << p)) for (auto& g : o) {
        for (auto q = bp::begin_points(g); q != bp::end_points(g); ++q) if (!near45(prop[p], (*q).x(), (*q).y(), G.exact ? 0 : 8))
          violation("wrong-region", fmt("merge: the region of label set %u reaches (%ld,%ld), away from every region labelled %d", kn->second, (long)(*q).x(), (long)(*q).y(), PROPS[p]));
      }
      if (posmod(v, 4) == 1) {
        double a = 0; lib([&] { a = (double)bp::area(s); }); if ((i128)(a * 2) != t.area2 && t.area2 < ((i128)1 << 50)) violation("wrong-area", fmt("merge: area %.1f of a region whose pieces have %.1f", a, (double)t.area2 / 2));
        canon_check(s, m, v / 4);
      } else if (posmod(v, 4) == 2) {   // the region goes on to be used like any other set
        Set c; lib([&] { c = s - s; }); bool em = false; lib([&] { em = c.empty(); }); if (!em) violation("wrong-region", "a merged region minus itself is not empty");
        Set all; Reg un(G.M()); for (auto& r : prop) un = rop(un, r, 0);
        lib([&] { all.insert(s); all.insert(s); }); std::vector<PMH> o2; lib([&] { all.get(o2); }); check_pieces(o2, m, "a merged region inserted into a set twice");
      }
    }
    if (found != want.size()) violation("missing-key", fmt("merge: %zu of %zu label sets reported", found, want.size()));
    if (FAM == FGEN && G.exact && posmod(v, 2)) {   // crossings are integer points, so the pieces tile the union exactly
      Set u; for (auto& e : res) lib([&] { u.insert(e.second); });
      std::vector<PMH> o; lib([&] { u.get(o); }); Tally t; for (auto& p : o) t.add(p);
      if (t.area2 != sum2) violation("not-disjoint", fmt("merge: regions have total doubled area %.1f, their union %.1f", (double)sum2, (double)t.area2));
    }
    probe("merges_checked"); probe("regions_checked", (long)res.size());
  }
  template <typename K> void do_merge(MSlot& s, long v) {
    { std::map<K, Set> res; Outcome o = armed([&] { s.p->merge(res); });
      if (o == OK) { check_merge(res, s.prop, v); return; } }
    probe("merge_failed");
    // the same content again: a fresh merger, a copy of this one, or this one
    std::map<K, Set> res;
    switch (posmod(v, 3)) {
      case 0: lib([&] { s.p->merge(res); }); break;
      case 1: { Merger* c = 0; lib([&] { c = new Merger(*s.p); c->merge(res); }); lib([&] { delete c; }); break; }
      case 2: { Merger* c = 0; lib([&] { c = new Merger(); *c = *s.p; c->merge(res); }); lib([&] { delete c; }); break; }
    }
    check_merge(res, s.prop, v);
  }

  // ---------------------------------------------------------------- connectivity
  // 1 must be linked, 0 must not, -1 undecided (rounding of inexact crossings)
  int want_link(const Node& a, const Node& b) {
    if (FAM != FGEN) return regs_touch(a.m, b.m);
    bool t = false; for (auto& x : a.sh) for (auto& y : b.sh) t = t || shapes_touch(x, y);
    if (!t) return 0;
    if (G.exact || (a.sh.size() == 1 && b.sh.size() == 1)) return 1;
    for (size_t i = 0; i < G.M(); ++i) if (a.m.b[i] && b.m.b[i]) return 1;
    return -1;
  }
  template <typename Graph> void check_graph(Graph& g, const std::vector<Node>& nd, int extra) {
    int n = (int)nd.size();
    long edges = 0;
    for (int i = 0; i < n; ++i) {
      std::set<int> e = get(g, i);
      for (int j : e) { observe(mix2(i, j)); ++edges;
        if (j < 0 || j >= n) violation("wrong-link", fmt("region %d linked to %d, which does not exist", i, j));
        if (j == i) violation("wrong-link", fmt("region %d linked to itself", i));
        if (!get(g, j).count(i)) violation("wrong-link", fmt("region %d is linked to %d but not the other way", i, j)); }
      for (int j = 0; j < n; ++j) if (j != i) {
        int w = want_link(nd[i], nd[j]); bool have = e.count(j);
        if (w == 1 && !have) violation("missing-link", fmt("regions %d and %d share a point but are not linked", i, j));
        if (w == 0 && have) violation("wrong-link", fmt("regions %d and %d are linked but share no point", i, j));
      }
    }
    for (int i = n; i < n + extra; ++i) if (!get(g, i).empty()) violation("wrong-link", "a node beyond the last region has links");
    probe("graphs_checked"); probe("links", edges);
  }
  static std::set<int> get(std::vector<std::set<int> >& g, int i) { return i < (int)g.size() ? g[i] : std::set<int>(); }
  static std::set<int> get(std::map<int, std::set<int> >& g, int i) { auto q = g.find(i); return q == g.end() ? std::set<int>() : q->second; }
  void do_extract(ESlot& s, long kind, long v) {
    switch (posmod(kind, 3)) {
      case 0: { std::vector<std::set<int> > g(s.node.size() + 2); Outcome o = armed([&] { s.p->extract(g); }); if (o == OK) { check_graph(g, s.node, 2); return; } break; }
      case 1: { std::map<int, std::set<int> > g; Outcome o = armed([&] { s.p->extract(g); }); if (o == OK) { check_graph(g, s.node, 1); return; } break; }
      case 2: {   // the same graph is extended as regions are added
        s.graph.resize(s.node.size() + 1); Outcome o = armed([&] { s.p->extract(s.graph); }); if (o == OK) { probe("graph_extended"); check_graph(s.graph, s.node, 1); return; }
        lib([&] { s.p->extract(s.graph); }); probe("extract_failed"); check_graph(s.graph, s.node, 1); return; }
    }
    probe("extract_failed");
    std::vector<std::set<int> > g(s.node.size() + 1);
    switch (posmod(v, 3)) {
      case 0: lib([&] { s.p->extract(g); }); break;
      case 1: { Extractor* c = 0; lib([&] { c = new Extractor(*s.p); c->extract(g); }); lib([&] { delete c; }); break; }
      case 2: { Extractor* c = 0; lib([&] { c = new Extractor(); *c = *s.p; c->extract(g); }); lib([&] { delete c; }); break; }
    }
    check_graph(g, s.node, 1);
  }

  void exec(const OpLine& op) {
    const std::string& n = op.name;
    if (n == "mins") {
      MSlot& s = md(op.arg(0)); int p = (int)posmod(op.arg(1), NP); Shape sh = shape(op, 3); Reg m = rop(s.prop[p], G.of_shape(sh), 0);
      merge_geom(sh, op.arg(2), [&](auto& g) { if (armed([&] { s.p->insert(g, PROPS[p]); }) == OK) s.prop[p] = m; else { probe("insert_failed"); s.bad = true; } });
    } else if (n == "minss") {
      MSlot& s = md(op.arg(0)); int p = (int)posmod(op.arg(1), NP); Reg m; std::vector<Shape> shs;
#if FAM == 2
      int k = nshapes(op, 3); for (int i = 0; i < k; ++i) { Shape sh = shape(op, 3 + 6 * i); PMH g = own_geom(sh); if (armed([&] { s.p->insert(g, PROPS[p]); }) == OK) s.prop[p] = rop(s.prop[p], G.of_shape(sh), 0); else { probe("insert_failed"); s.bad = true; break; } }
#else
      Set* x = make_set(op, 3, op.arg(2), m, shs);
      if (armed([&] { s.p->insert(*x, PROPS[p]); }) == OK) s.prop[p] = rop(s.prop[p], m, 0); else { probe("insert_failed"); s.bad = true; }
      lib([&] { delete x; });
#endif
    } else if (n == "merge") {
      MSlot& s = md(op.arg(0)); 
#if FAM != 2
      if (op.arg(1) & 1) { do_merge<std::vector<int> >(s, op.arg(2)); return; }
#endif
      do_merge<std::set<int> >(s, op.arg(2));
    } else if (n == "mcopy") {
      MSlot& d = mraw(op.arg(0)); MSlot& s = md(op.arg(1)); if (&d == &s) return;
      if (op.arg(2) & 1) { Merger* t = 0; if (armed([&] { t = new Merger(*s.p); }) == OK) { std::swap(t, d.p); d.prop = s.prop; d.bad = false; lib([&] { delete t; }); } }
      else { if (armed([&] { *d.p = *s.p; }) == OK) { d.prop = s.prop; d.bad = false; } else d.bad = true; }
    } else if (n == "mnew") {
      MSlot& d = mraw(op.arg(0));
#if FAM == 2
      if (op.arg(1) & 1) { lib([&] { d.p->clear(); }); d.reset(); return; }
#endif
      lib([&] { delete d.p; d.p = 0; d.p = new Merger(); }); d.reset();
    } else if (n == "eins") {
      ESlot& s = ed(op.arg(0)); Shape sh = shape(op, 3); Node nd; nd.m = G.of_shape(sh); nd.sh.push_back(sh); unsigned id = 0;
      with_geom(sh, op.arg(2), [&](auto& g) { if (armed([&] { id = s.p->insert(g); }) == OK) note(s, nd, id); else { probe("insert_failed"); s.bad = true; } });
    } else if (n == "ebulk") {
      ESlot& s = ed(op.arg(0)); std::vector<Shape> v; bulk_shapes(v, op.arg(1), op.arg(2)); if (v.size() + s.node.size() > 120) v.resize(120 - std::min<size_t>(120, s.node.size()));
      probe("bulk_regions", (long)v.size());
      for (const Shape& sh : v) { Node nd; nd.m = G.of_shape(sh); nd.sh.push_back(sh); unsigned id = 0; if (s.bad) break;
        with_geom(sh, op.arg(2), [&](auto& g) { if (armed([&] { id = s.p->insert(g); }) == OK) note(s, nd, id); else { probe("insert_failed"); s.bad = true; } }); }
    } else if (n == "mbulk") {
      MSlot& s = md(op.arg(0)); std::vector<Shape> v; bulk_shapes(v, op.arg(1), op.arg(2)); if (v.size() > 150) v.resize(150);
      probe("bulk_labelled", (long)v.size()); int i = 0;
      for (const Shape& sh : v) { int p = (int)posmod(op.arg(3) / 7 * i++ + op.arg(3), NP); Reg m = rop(s.prop[p], G.of_shape(sh), 0); if (s.bad) break;
        merge_geom(sh, op.arg(2), [&](auto& g) { if (armed([&] { s.p->insert(g, PROPS[p]); }) == OK) s.prop[p] = m; else { probe("insert_failed"); s.bad = true; } }); }
    } else if (n == "einss") {
      ESlot& s = ed(op.arg(0)); Node nd; unsigned id = 0; Set* x = make_set(op, 3, op.arg(2), nd.m, nd.sh);
      if (armed([&] { id = s.p->insert(*x); }) == OK) note(s, nd, id); else { probe("insert_failed"); s.bad = true; }
      lib([&] { delete x; });
    } else if (n == "extr") {
      ESlot& s = ed(op.arg(0)); do_extract(s, op.arg(1), op.arg(2));
    } else if (n == "ecopy") {
      ESlot& d = eraw(op.arg(0)); ESlot& s = ed(op.arg(1)); if (&d == &s) return;
      if (op.arg(2) & 1) { Extractor* t = 0; if (armed([&] { t = new Extractor(*s.p); }) == OK) { std::swap(t, d.p); d.node = s.node; d.graph = s.graph; d.bad = false; lib([&] { delete t; }); } }
      else { if (armed([&] { *d.p = *s.p; }) == OK) { d.node = s.node; d.graph = s.graph; d.bad = false; } else d.bad = true; }
    } else if (n == "enew") {
      ESlot& d = eraw(op.arg(0)); lib([&] { delete d.p; d.p = 0; d.p = new Extractor(); }); d.node.clear(); d.graph.clear(); d.bad = false;
    }
  }
  void note(ESlot& s, const Node& nd, unsigned id) {
    observe(id);
    if (id != s.node.size()) violation("wrong-id", fmt("insertion returned number %u, %zu regions were inserted before", id, s.node.size()));
    s.node.push_back(nd);
  }
  void finish() {
    for (int i = 0; i < MAXCL; ++i) {
      for (int k = 0; k < MS; ++k) { MSlot& s = ms[i][k]; if (s.bad) continue; std::map<std::set<int>, Set> r; lib([&] { s.p->merge(r); }); check_merge(r, s.prop, i + k); }
      for (int k = 0; k < ES; ++k) { ESlot& s = es[i][k]; if (s.bad) continue; std::vector<std::set<int> > g(s.node.size() + 1); lib([&] { s.p->extract(g); }); check_graph(g, s.node, 1); }
    }
  }
  void teardown() {
    for (int i = 0; i < MAXCL; ++i) { for (int k = 0; k < MS; ++k) lib([&] { delete ms[i][k].p; }); for (int k = 0; k < ES; ++k) lib([&] { delete es[i][k].p; }); }
  }
};

World* make_world() { return new MergeWorld(); }
const char* world_name() { return FAM == 0 ? "wm90" : FAM == 1 ? "wm45" : "wmgen"; }

struct OpSpec { const char* name; int args; int shapes; int weight; int kind; };   // kind: 1 merge, 2 extract
static const OpSpec SPECS[] = {
  {"mins", 3, 1, 20, 1}, {"minss", 3, 3, 12, 1}, {"merge", 3, 0, 14, 1}, {"mcopy", 3, 0, 4, 1}, {"mnew", 2, 0, 2, 1}, {"mbulk", 4, 0, 1, 1},
  {"eins", 3, 1, 20, 2}, {"einss", 3, 3, 12, 2}, {"extr", 3, 0, 14, 2}, {"ecopy", 3, 0, 4, 2}, {"enew", 1, 0, 2, 2}, {"ebulk", 3, 0, 1, 2},
};
// modes: mhist mfault (merge), ehist efault (extraction), iso (both)
void generate_plan(Rng& rng, Plan& p) {
  const std::string& mode = p.mode;
  bool iso = mode == "iso", fault = mode == "mfault" || mode == "efault"; int kind = iso ? 3 : mode[0] == 'm' ? 1 : 2;
  int ncl = iso ? (int)rng.range(2, 4) : (int)rng.range(1, 3);
  p.cfg["N"] = FAM == 0 ? 2 * rng.range(2, 8) : FAM == 1 ? 2 * rng.range(2, 6) : 10;
  long N = p.cfg["N"];
#if FAM == 0
  long us[] = {1, 2, 3, 10, 1000, 4096, 1000000}; long U = us[rng.below(7)];
#elif FAM == 1
  bool ex = kind == 2 || rng.chance(2, 3); p.cfg["exact"] = ex;   // otherwise edges cross at half-integer points
  long us[] = {4, 8, 12, 100, 4000, 1000000}, od[] = {1001, 1003, 4001, 30007, 1000003}; long U = ex ? us[rng.below(6)] : od[rng.below(5)];
#else
  bool ex = rng.chance(1, 2); p.cfg["exact"] = ex;
  long U = ex ? 6000 * rng.range(1, 4) : 100900 * rng.range(1, 2);
#endif
  p.cfg["U"] = U;
  long big = rng.chance(1, 3) ? 400000000L : rng.chance(1, 2) ? 100000 : 0;
  if (FAM == FGEN && big > 1000000) big = p.cfg["exact"] ? 20000000L : 2000000L;
  p.cfg["ox"] = big ? rng.range(-big, big) / 4 * 4 : 0; p.cfg["oy"] = big ? rng.range(-big, big) / 4 * 4 : 0;
  if (FAM == F45 && !p.cfg["exact"]) { p.cfg["ox"] += rng.below(4); p.cfg["oy"] += rng.below(4); }
  if (FAM == FGEN && !p.cfg["exact"] && U > 100900) { p.cfg["ox"] = -N * U / 2 + p.cfg["ox"] % 1000; p.cfg["oy"] = -N * U / 2 + p.cfg["oy"] % 1000; }
  if (p.cfg["ox"] + N * U > 1000000000L) p.cfg["ox"] = 0; if (p.cfg["oy"] + N * U > 1000000000L) p.cfg["oy"] = 0;
  if (iso) p.cfg["iso"] = 1;
  int nops = (int)rng.range(4, rng.chance(1, 4) ? 40 : 18); if (FAM == FGEN) nops = std::min(nops, 24);
  const int NS = sizeof(SPECS) / sizeof(SPECS[0]); int w[NS], tot = 0;
  for (int i = 0; i < NS; ++i) { w[i] = SPECS[i].kind & kind ? SPECS[i].weight : 0; if (rng.chance(1, 6)) w[i] = w[i] ? 1 : 0; else if (rng.chance(1, 8)) w[i] *= 3; if (strstr(SPECS[i].name, "bulk") && !rng.chance(1, 4)) w[i] = 0; tot += w[i]; }
  bool pre = rng.chance(3, 4); bool one = rng.chance(1, 2); int np = (int)rng.range(1, NP);
  auto add = [&](int c, const OpSpec& s) {
    OpLine o; o.client = c; o.name = s.name;
    for (int i = 0; i < s.args; ++i) o.a.push_back(rng.below(420));
    if (one && rng.chance(3, 4)) o.a[0] = 0;
    if (s.kind == 1 && s.shapes) o.a[1] = rng.below(np);
    int k = s.shapes ? (int)rng.range(1, s.shapes) : 0;
    for (int i = 0; i < k; ++i) { long sh[6] = {rng.below(2520), rng.below(N), rng.below(N), rng.range(1, N), rng.range(1, N), rng.below(1024)}; if (rng.chance(1, 2)) { sh[3] = rng.range(1, 3); sh[4] = rng.range(1, 3); } for (int q = 0; q < 6; ++q) o.a.push_back(sh[q]); }
    if ((fault && rng.chance(2, 5)) || (iso && rng.chance(1, 8))) { o.fkind = rng.chance(1, 4) ? F_ALLOCP : F_ALLOC1; o.fk = rng.chance(1, 3) ? rng.range(1, 4) : rng.logu(9); }
    if (pre && ncl > 1 && rng.chance(2, 5)) { int np = (int)rng.range(1, 3); for (int i = 0; i < np; ++i) o.preempt.push_back(rng.chance(1, 3) ? rng.range(1, 60) : rng.logu(14)); }
    p.ops.push_back(o);
  };
  for (int i = 0; i < nops; ++i) { long r = rng.below(tot); int k = 0; while (r >= w[k]) r -= w[k++]; add((int)rng.below(ncl), SPECS[k]); }
}
#endif
