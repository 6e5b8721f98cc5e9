// World: simulated clients own Voronoi builders and diagrams and use them over long lives:
// insert, construct, insert more, construct again, clear, reuse, fail, recover.
// Oracle: structure of the half-edge graph, nearest-site geometry, exact Delaunay duality, and
// identity with a diagram built by fresh objects from the same sites in another order.
#include <boost/polygon/voronoi.hpp>
#include <boost/polygon/polygon.hpp>
#include "sim.hpp"
#include <cmath>
#include <cstring>
#include <set>
#include <algorithm>
namespace bp = boost::polygon;
using namespace sim;
typedef __int128 i128;
typedef bp::default_voronoi_builder VB;
typedef bp::voronoi_diagram<double> VD;
typedef bp::point_data<int> P;
typedef bp::segment_data<int> SG;

static const int NB = 2, ND = 2, MAXCL = 5;
static long posmod(long a, long m) { return m <= 0 ? 0 : ((a % m) + m) % m; }

struct Site { bool seg; long x1, y1, x2, y2; };
struct Loc { bool seg; long a[4]; bool operator<(const Loc& o) const { if (seg != o.seg) return seg < o.seg; for (int i = 0; i < 4; ++i) if (a[i] != o.a[i]) return a[i] < o.a[i]; return false; } bool operator==(const Loc& o) const { return !(*this < o) && !(o < *this); } };
static Loc loc_pt(long x, long y) { Loc l; l.seg = false; l.a[0] = x; l.a[1] = y; l.a[2] = l.a[3] = 0; return l; }
static Loc loc_seg(const Site& s) { Loc l; l.seg = true; bool sw = std::make_pair(s.x2, s.y2) < std::make_pair(s.x1, s.y1); l.a[0] = sw ? s.x2 : s.x1; l.a[1] = sw ? s.y2 : s.y1; l.a[2] = sw ? s.x1 : s.x2; l.a[3] = sw ? s.y1 : s.y2; return l; }

// ------------------------------------------------------------------ which inputs are allowed together
static int orient(long ax, long ay, long bx, long by, long cx, long cy) { i128 d = (i128)(bx - ax) * (cy - ay) - (i128)(by - ay) * (cx - ax); return d > 0 ? 1 : d < 0 ? -1 : 0; }
static bool in_box(const Site& s, long x, long y) { return std::min(s.x1, s.x2) <= x && x <= std::max(s.x1, s.x2) && std::min(s.y1, s.y2) <= y && y <= std::max(s.y1, s.y2); }
static bool inside_seg(const Site& s, long x, long y) {   // strictly inside
  if ((x == s.x1 && y == s.y1) || (x == s.x2 && y == s.y2)) return false;
  return orient(s.x1, s.y1, s.x2, s.y2, x, y) == 0 && in_box(s, x, y);
}
static bool conflict(const Site& a, const Site& b) {
  if (!a.seg && !b.seg) return false;
  if (!a.seg) return inside_seg(b, a.x1, a.y1);
  if (!b.seg) return inside_seg(a, b.x1, b.y1);
  if (loc_seg(a) == loc_seg(b)) return false;
  if (inside_seg(a, b.x1, b.y1) || inside_seg(a, b.x2, b.y2) || inside_seg(b, a.x1, a.y1) || inside_seg(b, a.x2, a.y2)) return true;
  int o1 = orient(a.x1, a.y1, a.x2, a.y2, b.x1, b.y1), o2 = orient(a.x1, a.y1, a.x2, a.y2, b.x2, b.y2);
  int o3 = orient(b.x1, b.y1, b.x2, b.y2, a.x1, a.y1), o4 = orient(b.x1, b.y1, b.x2, b.y2, a.x2, a.y2);
  return o1 * o2 < 0 && o3 * o4 < 0;
}

// ------------------------------------------------------------------ oracle
struct LP { long double x, y; };
static LP foot(const Loc& l, long double x, long double y) {
  LP p; if (!l.seg) { p.x = l.a[0]; p.y = l.a[1]; return p; }
  long double dx = l.a[2] - l.a[0], dy = l.a[3] - l.a[1], t = ((x - l.a[0]) * dx + (y - l.a[1]) * dy) / (dx * dx + dy * dy);
  if (t <= 0) { p.x = l.a[0]; p.y = l.a[1]; } else if (t >= 1) { p.x = l.a[2]; p.y = l.a[3]; } else { p.x = l.a[0] + t * dx; p.y = l.a[1] + t * dy; }
  return p;
}
static long double dist(const Loc& l, long double x, long double y) { LP p = foot(l, x, y); return hypotl(p.x - x, p.y - y); }
static int incircle(const Loc& a, const Loc& b, const Loc& c, const Loc& d) {   // >0: d strictly inside circle(a,b,c); any orientation
  i128 ax = a.a[0] - d.a[0], ay = a.a[1] - d.a[1], bx = b.a[0] - d.a[0], by = b.a[1] - d.a[1], cx = c.a[0] - d.a[0], cy = c.a[1] - d.a[1];
  i128 al = ax * ax + ay * ay, bl = bx * bx + by * by, cl = cx * cx + cy * cy;
  i128 det = ax * (by * cl - cy * bl) - ay * (bx * cl - cx * bl) + al * (bx * cy - cx * by);
  int o = orient(a.a[0], a.a[1], b.a[0], b.a[1], c.a[0], c.a[1]);
  int s = det > 0 ? 1 : det < 0 ? -1 : 0; return s * o;
}
static u64 bits(double d) { u64 u; memcpy(&u, &d, 8); return u; }

static const double EPS = 2.220446049250313e-16, KTOL = 512.0 * EPS;
static bool strict_ties = false;   // judge near-ties of the sweep by the documented precision alone (known finding C08-tie)

// full check of a diagram against its sites; returns a hash of its canonical form (cells named by location)
static u64 check_diagram(const VD& vd, const std::vector<Site>& in, const char* what) {
#define BAD(cls, ...) violation(cls, std::string(what) + ": " + fmt(__VA_ARGS__))
  std::set<Loc> want; bool segs = false; long maxc = 0;
  for (const Site& s : in) {
    want.insert(loc_pt(s.x1, s.y1)); if (s.seg) { segs = true; want.insert(loc_pt(s.x2, s.y2)); want.insert(loc_seg(s)); }
    long v[4] = {s.x1, s.y1, s.seg ? s.x2 : 0, s.seg ? s.y2 : 0}; for (long c : v) maxc = std::max(maxc, labs(c));
  }
  const VD::cell_container_type& cells = vd.cells(); const VD::vertex_container_type& verts = vd.vertices(); const VD::edge_container_type& edges = vd.edges();
  size_t nc = cells.size(), nv = verts.size(), ne = edges.size();
  if (vd.num_cells() != nc || vd.num_vertices() != nv || vd.num_edges() != ne) BAD("wrong-structure", "counts disagree with containers");
  if (nc != want.size()) BAD("wrong-cells", "%zu cells for %zu distinct sites", nc, want.size());
  // cells and their sites
  std::vector<Loc> loc(nc); std::set<Loc> got; size_t degen = 0;
  for (size_t i = 0; i < nc; ++i) {
    const VD::cell_type& c = cells[i];
    if (c.source_index() >= in.size()) BAD("wrong-cells", "cell %zu names source %zu of %zu", i, (size_t)c.source_index(), in.size());
    const Site& s = in[c.source_index()];
    if (c.contains_point() == c.contains_segment()) BAD("wrong-cells", "cell %zu is not either a point or a segment cell", i);
    switch (c.source_category()) {
      case bp::SOURCE_CATEGORY_SINGLE_POINT: if (s.seg) BAD("wrong-cells", "cell %zu: point category for a segment", i); loc[i] = loc_pt(s.x1, s.y1); break;
      case bp::SOURCE_CATEGORY_SEGMENT_START_POINT: if (!s.seg) BAD("wrong-cells", "cell %zu: segment category for a point", i); loc[i] = loc_pt(s.x1, s.y1); break;
      case bp::SOURCE_CATEGORY_SEGMENT_END_POINT: if (!s.seg) BAD("wrong-cells", "cell %zu: segment category for a point", i); loc[i] = loc_pt(s.x2, s.y2); break;
      default: if (!s.seg || !c.contains_segment()) BAD("wrong-cells", "cell %zu: segment category for a point", i); loc[i] = loc_seg(s); break;
    }
    if (loc[i].seg != c.contains_segment()) BAD("wrong-cells", "cell %zu: kind and category disagree", i);
    if (!got.insert(loc[i]).second) BAD("wrong-cells", "two cells for one site");
    if (!want.count(loc[i])) BAD("wrong-cells", "cell %zu belongs to no inserted site", i);
    if (!c.incident_edge()) { ++degen; if (!c.is_degenerate()) BAD("wrong-structure", "cell %zu", i); }
  }
  const VD::edge_type* E0 = ne ? &edges[0] : 0; const VD::vertex_type* V0 = nv ? &verts[0] : 0; const VD::cell_type* C0 = nc ? &cells[0] : 0;
  auto ei = [&](const VD::edge_type* e) -> long { if (!e) return -1; if (e < E0 || e >= E0 + ne) BAD("wrong-structure", "an edge pointer leaves the diagram"); return e - E0; };
  auto vi = [&](const VD::vertex_type* v) -> long { if (!v) return -1; if (v < V0 || v >= V0 + nv) BAD("wrong-structure", "a vertex pointer leaves the diagram"); return v - V0; };
  auto ci = [&](const VD::cell_type* c) -> long { if (c < C0 || c >= C0 + nc || !c) BAD("wrong-structure", "a cell pointer leaves the diagram"); return c - C0; };
  u64 h = mix2(nc, mix2(nv, ne));
  for (size_t i = 0; i < nc; ++i) { h = mix2(h, loc[i].seg); for (int k = 0; k < 4; ++k) h = mix2(h, (u64)loc[i].a[k]); h = mix2(h, (u64)ei(cells[i].incident_edge())); }
  if (want.size() <= 1) { if (ne || nv) BAD("wrong-structure", "edges for a single site"); return h; }
  if (ne % 2) BAD("wrong-structure", "an odd number of half-edges");
  for (size_t i = 0; i < ne; ++i) {
    const VD::edge_type& e = edges[i]; long t = ei(e.twin()), n = ei(e.next()), p = ei(e.prev()), c = ci(e.cell()), v0 = vi(e.vertex0()), v1 = vi(e.vertex1());
    if (t < 0 || n < 0 || p < 0) BAD("wrong-structure", "edge %zu lacks a twin, next or previous edge", i);
    if (t == (long)i || ei(edges[t].twin()) != (long)i) BAD("wrong-structure", "edge %zu: twin links are not inverse", i);
    if (ei(edges[n].prev()) != (long)i || ei(edges[p].next()) != (long)i) BAD("wrong-structure", "edge %zu: next and previous links are not inverse", i);
    if (edges[n].cell() != e.cell()) BAD("wrong-structure", "edge %zu: next edge is in another cell", i);
    if (edges[t].cell() == e.cell()) BAD("wrong-structure", "edge %zu: both sides are one cell", i);
    if (vi(edges[t].vertex0()) != v1) BAD("wrong-structure", "edge %zu: end vertex is not the twin's start vertex", i);
    if (vi(edges[n].vertex0()) != v1) BAD("wrong-structure", "edge %zu: next edge does not start where it ends", i);
    if (e.is_finite() != (v0 >= 0 && v1 >= 0) || e.is_infinite() == e.is_finite()) BAD("wrong-structure", "edge %zu: finite flag", i);
    const Loc& a = loc[c]; const Loc& b = loc[edges[t].cell() - C0];
    bool second = false; if (a.seg != b.seg) { const Loc& s = a.seg ? a : b; const Loc& q = a.seg ? b : a; second = (q.a[0] == s.a[0] && q.a[1] == s.a[1]) || (q.a[0] == s.a[2] && q.a[1] == s.a[3]); }
    bool lin = second || a.seg == b.seg;
    if (e.is_primary() == second || e.is_secondary() != second) BAD("wrong-flags", "edge %zu: primary flag", i);
    if (e.is_linear() != lin || e.is_curved() == lin) BAD("wrong-flags", "edge %zu: linear flag", i);
    if (e.rot_next() != e.prev()->twin() || e.rot_prev() != e.twin()->next()) BAD("wrong-structure", "edge %zu: rotation", i);
    h = mix2(h, (u64)t); h = mix2(h, (u64)n); h = mix2(h, (u64)p); h = mix2(h, (u64)c); h = mix2(h, (u64)v0); h = mix2(h, e.is_primary() + 2 * e.is_linear());
  }
  // every half-edge lies on exactly one cell cycle reached from its cell
  { std::vector<char> seen(ne, 0); size_t tot = 0;
    for (size_t i = 0; i < nc; ++i) { long s = ei(cells[i].incident_edge()), k = s; if (s < 0) continue; size_t guard = 0;
      do { if (edges[k].cell() != &cells[i]) BAD("wrong-structure", "cell %zu: incident edge of another cell", i); if (seen[k]) BAD("wrong-structure", "cell cycles overlap"); seen[k] = 1; ++tot; k = ei(edges[k].next()); } while (k != s && ++guard <= ne); }
    if (tot != ne) BAD("wrong-structure", "%zu of %zu half-edges are reachable from their cells", tot, ne); }
  { std::vector<char> seen(ne, 0); size_t tot = 0, fin = 0;
    for (size_t i = 0; i < ne; ++i) fin += edges[i].vertex0() != 0;
    for (size_t i = 0; i < nv; ++i) { long s = ei(verts[i].incident_edge()), k = s; if (s < 0) BAD("wrong-structure", "vertex %zu has no incident edge", i); size_t guard = 0, deg = 0;
      do { if (edges[k].vertex0() != &verts[i]) BAD("wrong-structure", "vertex %zu: incident edge starts elsewhere", i); if (seen[k]) BAD("wrong-structure", "vertex cycles overlap"); seen[k] = 1; ++tot; ++deg; k = ei(edges[k].rot_next()); } while (k != s && ++guard <= ne);
      if (deg < 3) BAD("wrong-structure", "vertex %zu has degree %zu", i, deg);
      h = mix2(h, bits(verts[i].x())); h = mix2(h, bits(verts[i].y())); h = mix2(h, (u64)s); }
    if (tot != fin) BAD("wrong-structure", "%zu of %zu half-edges are reachable from their vertices", tot, fin); }
  // planar subdivision of the sphere (all rays meet in one point at infinity)
  if ((long)ne / 2 != (long)nv + (long)(nc - degen) - 1) BAD("wrong-structure", "Euler's formula fails: %zu cells (%zu degenerate), %zu vertices, %zu edges", nc, degen, nv, ne / 2);
  // geometry
  bool exact = !segs && maxc <= (1L << 28);
  std::vector<Loc> all(want.begin(), want.end());
  std::vector<char> tied(nv, 0);
  for (size_t i = 0; i < nv; ++i) {
    long double x = verts[i].x(), y = verts[i].y();
    if (!(std::isfinite(verts[i].x()) && std::isfinite(verts[i].y()))) BAD("wrong-vertex", "vertex %zu is not finite", i);
    std::vector<const Loc*> adj; const VD::edge_type* e = verts[i].incident_edge(); do { adj.push_back(&loc[e->cell() - C0]); e = e->rot_next(); } while (e != verts[i].incident_edge());
    long double r = 0; for (const Loc* l : adj) r = std::max(r, dist(*l, x, y));
    long double tol = KTOL * (fabsl(x) + fabsl(y) + r) + 1e-9L * KTOL;
    // The sweep takes a circle event and a site event in either order if they are less than 64 ulps apart; a vertex
    // whose circle ends that close to a site may then be off by the corresponding chord.
    long double slack = 256 * EPS * (fabsl(x) + r + maxc); bool tie = false;
    for (const Loc& l : all) for (int q = 0; q < (l.seg ? 4 : 2); q += 2) if (fabsl(l.a[q] - (x + r)) <= slack) tie = true;
    if (tie) { tied[i] = 1; probe("sweep_ties"); if (!strict_ties) tol += 2 * sqrtl(2 * r * slack) + slack; }
    for (const Loc* l : adj) { long double d = dist(*l, x, y); if (d < r - tol) BAD("wrong-vertex", "vertex %zu (%.17g, %.17g): adjacent sites at distances %.17Lg and %.17Lg", i, verts[i].x(), verts[i].y(), d, r); }
    for (const Loc& l : all) { long double d = dist(l, x, y); if (d < r - tol) BAD("wrong-vertex", "vertex %zu (%.17g, %.17g): another site is nearer (%.17Lg) than the adjacent ones (%.17Lg)", i, verts[i].x(), verts[i].y(), d, r); }
    if (exact && adj.size() == 3 && (!tie || (maxc <= 300 && r <= 3000))) for (const Loc& d : all) if (incircle(*adj[0], *adj[1], *adj[2], d) > 0) BAD("not-delaunay", "vertex %zu: site (%ld,%ld) lies inside the circle of its three sites", i, d.a[0], d.a[1]);
  }
  for (size_t i = 0; i < ne; ++i) {
    const VD::edge_type& e = edges[i]; if (e.is_secondary() || e.is_curved()) continue;
    const Loc& a = loc[e.cell() - C0]; const Loc& b = loc[e.twin()->cell() - C0];
    if (e.is_finite() && !(tied[vi(e.vertex0())] && tied[vi(e.vertex1())])) {
      long double x0 = e.vertex0()->x(), y0 = e.vertex0()->y(), x1 = e.vertex1()->x(), y1 = e.vertex1()->y(); LP f = foot(a, (x0 + x1) / 2, (y0 + y1) / 2);
      long double cr = (x1 - x0) * (f.y - y0) - (y1 - y0) * (f.x - x0), len = hypotl(x1 - x0, y1 - y0);
      long double tol = 4 * KTOL * (fabsl(x0) + fabsl(y0) + fabsl(x1) + fabsl(y1) + maxc) * (len + hypotl(f.x - x0, f.y - y0));
      if (cr < -tol) BAD("wrong-vertex", "edge %zu has its cell's site on the right", i);
    } else if (!e.is_finite() && !segs) {
      // outward direction of the ray; nothing may lie further out than the two sites
      long dx = a.a[1] - b.a[1], dy = -(a.a[0] - b.a[0]);
      for (const Loc& l : all) {
        i128 t = (i128)(l.a[0] - a.a[0]) * dx + (i128)(l.a[1] - a.a[1]) * dy;
        bool ok = e.vertex0() && !e.vertex1() ? t <= 0 : !e.vertex0() && e.vertex1() ? t >= 0 : t == 0;
        if (!ok) BAD("not-delaunay", "ray %zu between sites that are not neighbours on the hull", i);
        if (t == 0) { i128 u = (i128)(l.a[0] - a.a[0]) * (b.a[0] - a.a[0]) + (i128)(l.a[1] - a.a[1]) * (b.a[1] - a.a[1]), n = (i128)(b.a[0] - a.a[0]) * (b.a[0] - a.a[0]) + (i128)(b.a[1] - a.a[1]) * (b.a[1] - a.a[1]); if (u > 0 && u < n) BAD("not-delaunay", "ray %zu passes between two sites that have another one between them", i); }
      }
    }
  }
  probe("diagrams_checked"); if (degen) probe("degenerate_cells"); if (!nv) probe("no_vertices"); if (segs) probe("with_segments");
  if (exact && nv) probe("exact_delaunay"); if (maxc > (1L << 28)) probe("wide_coordinates");
  return h;
}

struct Builder { VB* b; std::vector<Site> in; bool bad; Builder() : b(0), bad(false) {} };
struct Diagram { VD* d; std::vector<Site> of; u64 hash; bool built, bad; Diagram() : d(0), hash(0), built(false), bad(false) {} };

struct VorWorld : World {
  Plan plan; Builder B[MAXCL][NB]; Diagram D[MAXCL][ND];
  int cl() const { return current_client() % MAXCL; }
  void setup(const Plan& p) {
    plan = p; strict_ties = p.get("strict", 0);
    for (int c = 0; c < MAXCL; ++c) { for (int k = 0; k < NB; ++k) lib([&] { B[c][k].b = new VB(); }); for (int k = 0; k < ND; ++k) lib([&] { D[c][k].d = new VD(); }); }
  }
  Builder& bl(long i) { Builder& b = B[cl()][posmod(i, NB)]; if (b.bad) recover(b, i); return b; }
  Builder& braw(long i) { return B[cl()][posmod(i, NB)]; }
  Diagram& dg(long i) { return D[cl()][posmod(i, ND)]; }
  void recover(Builder& b, long v) {
    v += (long)current_op().a.size(); probe("recovered");
    if (posmod(v, 4) == 3) lib([&] { delete b.b; b.b = new VB(); }); else lib([&] { b.b->clear(); });
    b.in.clear(); b.bad = false;
  }
  // sites of an op line, in groups of six numbers from argument `at`, made compatible with what the builder holds
  std::vector<Site> sites(const OpLine& op, size_t at, const std::vector<Site>& have) {
    std::vector<Site> v;
    for (size_t i = at; i + 5 < op.a.size(); i += 6) {
      Site s; s.seg = op.a[i] & 1; s.x1 = op.a[i + 1]; s.y1 = op.a[i + 2]; s.x2 = op.a[i + 3]; s.y2 = op.a[i + 4];
      auto lim = [](long& x) { x = std::max(-2147483648L, std::min(2147483647L, x)); }; lim(s.x1); lim(s.y1); lim(s.x2); lim(s.y2);
      if (s.seg && s.x1 == s.x2 && s.y1 == s.y2) s.seg = false;
      bool ok = true; for (const Site& o : have) if (conflict(o, s)) ok = false; for (const Site& o : v) if (conflict(o, s)) ok = false;
      if (ok) v.push_back(s);
    }
    return v;
  }
  static void put1(VB& b, const Site& s, size_t want) {
    size_t k = s.seg ? b.insert_segment((int)s.x1, (int)s.y1, (int)s.x2, (int)s.y2) : b.insert_point((int)s.x1, (int)s.y1);
    if (k != want) violation("wrong-index", fmt("insertion returned index %zu, %zu objects were inserted before", k, want));
  }
  // rebuild from scratch, in another order, and compare
  u64 fresh(const std::vector<Site>& in, u64 salt) {
    std::vector<Site> v = in; sim::Rng r(salt); for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below((long)i)]);
    VB* b = 0; VD* d = 0; lib([&] { b = new VB(); d = new VD(); for (size_t i = 0; i < v.size(); ++i) put1(*b, v[i], i); b->construct(d); });
    u64 h = check_diagram(*d, v, "fresh objects"); lib([&] { delete d; delete b; }); return h;
  }
  void built(Diagram& d, const std::vector<Site>& in, const char* what) {
    d.of = in; d.hash = check_diagram(*d.d, in, what); d.built = true; d.bad = false; observe(d.hash);
    u64 f = fresh(in, (u64)current_op().arg(2) * 31 + in.size());
    if (f != d.hash) violation("history-dependent", fmt("%s: the diagram differs from the one fresh objects give for the same %zu sites", what, in.size()));
  }
  void clear_diagram(Diagram& d) { lib([&] { d.d->clear(); }); d.built = d.bad = false; d.of.clear(); if (d.d->num_cells() || d.d->num_edges() || d.d->num_vertices()) violation("wrong-clear", "a cleared diagram is not empty"); }
  void construct(Builder& b, Diagram& d, const char* what) {
    clear_diagram(d); Outcome o = armed([&] { b.b->construct(d.d); });
    if (o == OK) { built(d, b.in, what); return; }
    probe("construct_failed"); d.bad = true; long v = posmod(current_op().arg(2), 5);
    if (v == 0) {          // clear both, insert again, construct
      std::vector<Site> in = b.in; lib([&] { b.b->clear(); }); clear_diagram(d);
      lib([&] { for (size_t i = 0; i < in.size(); ++i) put1(*b.b, in[i], i); b.b->construct(d.d); });
      built(d, in, "construct after failure and clear");
    } else if (v == 1) {   // the sites are still there: construct again
      clear_diagram(d); lib([&] { b.b->construct(d.d); }); built(d, b.in, "construct after failure");
    } else if (v == 2) { lib([&] { delete b.b; b.b = new VB(); }); b.in.clear(); clear_diagram(d); }
    else if (v == 3) b.bad = true;   // cleared before next use
    else { b.bad = true; lib([&] { delete d.d; d.d = new VD(); }); d.bad = d.built = false; }
  }
  void chk(Diagram& d) {
    if (d.bad || !d.built) return;
    u64 h = check_diagram(*d.d, d.of, "diagram read again"); observe(h);
    if (h != d.hash) violation("diagram-changed", "a diagram changed after its construction");
  }
  void exec(const OpLine& op) {
    const std::string& n = op.name;
    if (n == "new") { Builder& b = braw(op.arg(0)); lib([&] { delete b.b; b.b = 0; }); if (armed([&] { b.b = new VB(); }) == FAILED) lib([&] { b.b = new VB(); }); b.in.clear(); b.bad = false; }
    else if (n == "clr") { Builder& b = braw(op.arg(0)); lib([&] { b.b->clear(); }); b.in.clear(); b.bad = false; }
    else if (n == "clrd") { clear_diagram(dg(op.arg(0))); }
    else if (n == "add") {
      Builder& b = bl(op.arg(0)); std::vector<Site> v = sites(op, 3, b.in); long route = posmod(op.arg(1), 3); size_t at = b.in.size();
      std::vector<P> pv; std::vector<SG> sv; std::vector<Site> order;
      if (route) { for (const Site& s : v) if (!s.seg) { pv.push_back(P((int)s.x1, (int)s.y1)); order.push_back(s); } for (const Site& s : v) if (s.seg) { sv.push_back(SG(P((int)s.x1, (int)s.y1), P((int)s.x2, (int)s.y2))); order.push_back(s); } }
      else order = v;
      Outcome o = armed([&] {
        if (route == 0) for (size_t i = 0; i < v.size(); ++i) put1(*b.b, v[i], at + i);
        else if (route == 1) { bp::insert(pv.begin(), pv.end(), b.b); bp::insert(sv.begin(), sv.end(), b.b); }
        else { bp::insert(in_iter(pv.begin()), in_iter(pv.end()), b.b); bp::insert(in_iter(sv.begin()), in_iter(sv.end()), b.b); }
      });
      if (o == OK) b.in.insert(b.in.end(), order.begin(), order.end()); else { b.bad = true; probe("insert_failed"); }
    }
    else if (n == "con") { Builder& b = bl(op.arg(0)); construct(b, dg(op.arg(1)), "construct"); }
    else if (n == "one") {
      Diagram& d = dg(op.arg(0)); std::vector<Site> v = sites(op, 3, std::vector<Site>()); long route = posmod(op.arg(1), 4);
      std::vector<P> pv; std::vector<SG> sv; std::vector<Site> ps, ss;
      for (const Site& s : v) if (!s.seg) { pv.push_back(P((int)s.x1, (int)s.y1)); ps.push_back(s); } else { sv.push_back(SG(P((int)s.x1, (int)s.y1), P((int)s.x2, (int)s.y2))); ss.push_back(s); }
      std::vector<Site> in = ps; if (route == 0) ; else if (route == 1) in = ss; else in.insert(in.end(), ss.begin(), ss.end());
      auto f = [&] { if (route == 0) bp::construct_voronoi(pv.begin(), pv.end(), d.d); else if (route == 1) bp::construct_voronoi(sv.begin(), sv.end(), d.d);
        else if (route == 2) bp::construct_voronoi(pv.begin(), pv.end(), sv.begin(), sv.end(), d.d);
        else bp::construct_voronoi(in_iter(pv.begin()), in_iter(pv.end()), in_iter(sv.begin()), in_iter(sv.end()), d.d); };
      clear_diagram(d);
      if (armed(f) == FAILED) { probe("one_failed"); clear_diagram(d); lib(f); }
      built(d, in, "construct_voronoi");
    }
    else if (n == "col") {
      Diagram& d = dg(op.arg(0)); if (!d.built || d.bad) return; size_t k = (size_t)op.arg(1) * 2654435761u % ((size_t)1 << 40);
      std::vector<size_t> was; 
      lib([&] { for (auto i = d.d->cells().begin(); i != d.d->cells().end(); ++i) i->color(k++); for (auto i = d.d->edges().begin(); i != d.d->edges().end(); ++i) i->color(k++); for (auto i = d.d->vertices().begin(); i != d.d->vertices().end(); ++i) i->color(k++); });
      size_t q = (size_t)op.arg(1) * 2654435761u % ((size_t)1 << 40);
      for (auto& c : d.d->cells()) if (c.color() != q++) violation("wrong-colour", "a cell lost its colour");
      for (auto& e : d.d->edges()) if (e.color() != q++) violation("wrong-colour", "an edge lost its colour");
      for (auto& v : d.d->vertices()) if (v.color() != q++) violation("wrong-colour", "a vertex lost its colour");
      chk(d);
    }
    else if (n == "chk") chk(dg(op.arg(0)));
    if (fault_fired()) for (int k = 0; k < ND; ++k) chk(D[cl()][k]);
  }
  void finish() {
    for (int c = 0; c < MAXCL; ++c) for (int k = 0; k < ND; ++k) chk(D[c][k]);
    for (int c = 0; c < MAXCL; ++c) for (int k = 0; k < NB; ++k) if (!B[c][k].in.empty()) {
      Builder& b = B[c][k]; if (b.bad) recover(b, 1);
      VD* d = 0; lib([&] { d = new VD(); b.b->construct(d); }); u64 h = check_diagram(*d, b.in, "last construct"); lib([&] { delete d; });
      if (h != fresh(b.in, 5)) violation("history-dependent", "last construct: the diagram differs from the one fresh objects give");
    }
  }
  void teardown() { for (int c = 0; c < MAXCL; ++c) { for (int k = 0; k < ND; ++k) lib([&] { delete D[c][k].d; }); for (int k = 0; k < NB; ++k) lib([&] { delete B[c][k].b; }); } }
};
World* make_world() { return new VorWorld(); }
const char* world_name() { return "wvor"; }

// ------------------------------------------------------------------ plan generation
void generate_plan(Rng& rng, Plan& p) {
  bool fault = p.mode == "fault", iso = p.mode == "iso";
  int ncl = iso ? (int)rng.range(2, 4) : (int)rng.range(1, 4);
  if (iso) p.cfg["iso"] = 1;
  long scales[] = {2, 4, 7, 12, 40, 300, 10000, 1000000, 1L << 28, 2147483647L};
  long S = scales[rng.below(10)]; bool crowd = rng.chance(1, 12); long off = S <= 1000000 && rng.chance(1, 3) ? rng.range(-(1L << 27), 1L << 27) : 0;
  bool big = S > 1000000; int segw = (int)rng.below(4);    // 0: points only
  auto co = [&]() { long v = big ? rng.range(-S, S) : rng.below(S + 1); return off + v; };
  auto site = [&](OpLine& o, bool seg, long x1, long y1, long x2, long y2) { long a[6] = {seg, x1, y1, x2, y2, 0}; for (long v : a) o.a.push_back(v); };
  auto fill = [&](OpLine& o) {
    int k = crowd && rng.chance(1, 4) ? (int)rng.range(20, 70) : (int)rng.range(1, rng.chance(1, 4) ? 14 : 6);
    long pat = rng.below(10);
    if (segw == 0 && pat >= 6) pat = rng.below(6);
    switch (pat) {
      case 0: case 1: case 2: for (int i = 0; i < k; ++i) { if (segw && rng.chance(segw, 4)) site(o, true, co(), co(), co(), co()); else site(o, false, co(), co(), 0, 0); } break;
      case 3: { long x = co(), y = co(); bool v = rng.chance(1, 2); for (int i = 0; i < k; ++i) site(o, false, v ? x : co(), v ? co() : y, 0, 0); break; }   // on a line
      case 4: { long x = co(), y = co(), m = big ? 1 + rng.below(S / 8) : 1 + rng.below(std::max(1L, S / 8)); static const int c[12][2] = {{5, 0}, {-5, 0}, {0, 5}, {0, -5}, {3, 4}, {-3, 4}, {3, -4}, {-3, -4}, {4, 3}, {-4, 3}, {4, -3}, {-4, -3}}; for (int i = 0; i < k; ++i) { int j = (int)rng.below(12); site(o, false, x + m * c[j][0], y + m * c[j][1], 0, 0); } break; }   // on a circle
      case 5: { long x = co(), y = co(), m = 1 + rng.below(std::max(1L, S / 6)); int w = (int)rng.range(2, 4); for (int i = 0; i < k + 3; ++i) site(o, false, x + m * (i % w), y + m * (i / w), 0, 0); break; }   // lattice
      case 6: { long x = co(), y = co(); for (int i = 0; i < std::min(k, 7); ++i) site(o, true, x, y, co(), co()); break; }                    // star
      case 7: { long x = co(), y = co(), w = 1 + rng.below(std::max(1L, S / 2)), h = 1 + rng.below(std::max(1L, S / 2)); site(o, true, x, y, x + w, y); site(o, true, x + w, y, x + w, y + h); site(o, true, x + w, y + h, x, y + h); site(o, true, x, y + h, x, y); if (rng.chance(1, 2)) site(o, false, co(), co(), 0, 0); break; }   // box
      case 8: { for (int i = 0; i < k; ++i) { long x = co(), y = co(); if (rng.chance(1, 2)) site(o, true, x, y, co(), y); else site(o, true, x, y, x, co()); } break; }   // axis-parallel segments
      default: { long x = co(), y = co(); for (int i = 0; i < k; ++i) { long x2 = rng.chance(1, 3) ? x : co(), y2 = rng.chance(1, 3) ? y : co(); site(o, true, x, y, x2, y2); x = x2; y = y2; } break; }   // chain
    }
  };
  int nops = (int)rng.range(4, rng.chance(1, 4) ? 40 : 16);
  const char* names[] = {"add", "con", "one", "clr", "clrd", "new", "col", "chk"}; int w[] = {30, 26, 8, 8, 4, 3, 4, 5}; int tot = 0;
  for (int i = 0; i < 8; ++i) { if (i > 1 && rng.chance(1, 4)) w[i] = 0; tot += w[i]; }
  bool pre = rng.chance(3, 4);
  auto add = [&](int c, int k) {
    OpLine o; o.client = c; o.name = names[k]; for (int i = 0; i < 3; ++i) o.a.push_back(rng.below(420));
    if (k == 0 || k == 2) fill(o);
    bool f = (k == 0 || k == 1 || k == 2 || k == 5);
    if (f && ((fault && rng.chance(1, 2)) || (iso && rng.chance(1, 8)))) {
      o.fkind = rng.chance(1, 4) ? F_ALLOCP : F_ALLOC1;
      if ((k == 0 && posmod(o.a[1], 3) == 2) || (k == 2 && posmod(o.a[1], 4) == 3)) if (rng.chance(1, 2)) o.fkind = F_IN;
      o.fk = o.fkind == F_IN ? rng.range(1, 6) : k == 0 ? rng.range(1, 4) : rng.chance(1, 3) ? rng.range(1, 6) : rng.range(1, rng.chance(1, 2) ? 30 : 150);
    }
    if (pre && ncl > 1 && rng.chance(2, 5)) { int np = (int)rng.range(1, 3); for (int i = 0; i < np; ++i) o.preempt.push_back(rng.chance(1, 3) ? rng.range(1, 60) : rng.logu(14)); }
    p.ops.push_back(o);
  };
  for (int c = 0; c < ncl; ++c) { add(c, 0); }
  for (int i = 0; i < nops; ++i) { long r = rng.below(tot); int k = 0; while (r >= w[k]) r -= w[k++]; add((int)rng.below(ncl), k); }
}
