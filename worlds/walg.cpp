// World: simulated clients use the library's algorithms on lists of segments (splitting at crossings, envelopes)
// and on arbitrary-angle sets (resizing with mitred and with rounded corners, Minkowski sums), over and over on
// accumulating results, with failures in the middle.
// Oracle: exact rational geometry on the inputs (segments), distances to the boundary of the union (resizing),
// exact intersection of one operand with the reflected other one (Minkowski sums).
#define FAM 2
#include "geom.hpp"
#include <cmath>
typedef bp::segment_data<I> Seg;
typedef long double ld;
static const int NS = 3, NA = 2, MAXCL = 5;
struct Lseg { long x1, y1, x2, y2; };
typedef std::vector<std::pair<long, long> > LRing;

// ------------------------------------------------------------------ segments
struct Frac { i128 num, den; bool operator<(const Frac& o) const { return num * o.den < o.num * den; } bool operator==(const Frac& o) const { return num * o.den == o.num * den; } };
static i128 crs(long ax, long ay, long bx, long by) { return (i128)ax * by - (i128)ay * bx; }
static int sgn(i128 v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
// parameters (along a) of the points a shares with b
static void meets(const Lseg& a, const Lseg& b, std::vector<Frac>& t) {
  long ax = a.x2 - a.x1, ay = a.y2 - a.y1, bx = b.x2 - b.x1, by = b.y2 - b.y1, cx = b.x1 - a.x1, cy = b.y1 - a.y1;
  i128 d = crs(ax, ay, bx, by), l = (i128)ax * ax + (i128)ay * ay;
  if (d == 0) {
    if (crs(ax, ay, cx, cy) != 0) return;
    for (int k = 0; k < 2; ++k) { long px = k ? b.x2 : b.x1, py = k ? b.y2 : b.y1; i128 u = (i128)ax * (px - a.x1) + (i128)ay * (py - a.y1); if (u >= 0 && u <= l) t.push_back(Frac{u, l}); }
    return;
  }
  i128 u = crs(cx, cy, bx, by), v = crs(cx, cy, ax, ay); if (d < 0) { d = -d; u = -u; v = -v; }
  if (u < 0 || u > d || v < 0 || v > d) return;
  t.push_back(Frac{u, d});
}
static void on_point(const Lseg& a, long px, long py, std::vector<Frac>& t) {
  long ax = a.x2 - a.x1, ay = a.y2 - a.y1; if (crs(ax, ay, px - a.x1, py - a.y1) != 0) return;
  i128 u = (i128)ax * (px - a.x1) + (i128)ay * (py - a.y1), l = (i128)ax * ax + (i128)ay * ay; if (u >= 0 && u <= l) t.push_back(Frac{u, l});
}
// do two pieces meet other than at common end points?
static bool bad_meet(const Lseg& a, const Lseg& b) {
  bool same = (a.x1 == b.x1 && a.y1 == b.y1 && a.x2 == b.x2 && a.y2 == b.y2) || (a.x1 == b.x2 && a.y1 == b.y2 && a.x2 == b.x1 && a.y2 == b.y1);
  if (same) return false;
  auto side = [](const Lseg& s, long x, long y) { return sgn(crs(s.x2 - s.x1, s.y2 - s.y1, x - s.x1, y - s.y1)); };
  auto inner = [&](const Lseg& s, long x, long y) { if ((x == s.x1 && y == s.y1) || (x == s.x2 && y == s.y2)) return false; return side(s, x, y) == 0 && x >= std::min(s.x1, s.x2) && x <= std::max(s.x1, s.x2) && y >= std::min(s.y1, s.y2) && y <= std::max(s.y1, s.y2); };
  if (inner(a, b.x1, b.y1) || inner(a, b.x2, b.y2) || inner(b, a.x1, a.y1) || inner(b, a.x2, a.y2)) return true;
  return side(a, b.x1, b.y1) * side(a, b.x2, b.y2) < 0 && side(b, a.x1, a.y1) * side(b, a.x2, a.y2) < 0;
}
static Lseg canon(Lseg s) { if (std::make_pair(s.x2, s.y2) < std::make_pair(s.x1, s.y1)) { std::swap(s.x1, s.x2); std::swap(s.y1, s.y2); } return s; }
static bool lless(const Lseg& a, const Lseg& b) { long p[4] = {a.x1, a.y1, a.x2, a.y2}, q[4] = {b.x1, b.y1, b.x2, b.y2}; for (int i = 0; i < 4; ++i) if (p[i] != q[i]) return p[i] < q[i]; return false; }
static bool lsame(const Lseg& a, const Lseg& b) { return !lless(a, b) && !lless(b, a); }
static Lseg of(const Seg& s) { return Lseg{bp::low(s).x(), bp::low(s).y(), bp::high(s).x(), bp::high(s).y()}; }
static Seg sg(const Lseg& s) { return Seg(P((I)s.x1, (I)s.y1), P((I)s.x2, (I)s.y2)); }

// ------------------------------------------------------------------ regions of shapes
static LRing lring(const Ring& r) { LRing v; for (const Pt& p : r) v.push_back(std::make_pair(G.ox + G.U * p.x, G.oy + G.U * p.y)); return v; }
static ld cross_ld(ld ax, ld ay, ld bx, ld by) { return ax * by - ay * bx; }
template <typename C> static int wind(const std::vector<std::pair<C, C> >& r, ld x, ld y) {
  int w = 0;
  for (size_t i = 0; i < r.size(); ++i) {
    const std::pair<C, C>& a = r[i]; const std::pair<C, C>& b = r[(i + 1) % r.size()];
    if ((a.second <= y) == (b.second <= y)) continue;
    ld c = cross_ld((ld)b.first - a.first, (ld)b.second - a.second, x - a.first, y - a.second);
    if (b.second > a.second ? c > 0 : c < 0) w += b.second > a.second ? 1 : -1;
  }
  return w;
}
typedef std::pair<ld, ld> Q;
typedef std::vector<std::vector<LRing> > Polys;   // each: outer, holes
static bool in_poly(const std::vector<LRing>& p, ld x, ld y) { if (!wind(p[0], x, y)) return false; for (size_t i = 1; i < p.size(); ++i) if (wind(p[i], x, y)) return false; return true; }
static bool in_polys(const Polys& v, ld x, ld y) { for (const std::vector<LRing>& p : v) if (in_poly(p, x, y)) return true; return false; }
struct Bnd { ld x1, y1, x2, y2, nx, ny; };        // n: unit normal pointing out
static ld pdist(ld px, ld py, ld x1, ld y1, ld x2, ld y2) {
  ld ux = x2 - x1, uy = y2 - y1, l = ux * ux + uy * uy, t = l > 0 ? ((px - x1) * ux + (py - y1) * uy) / l : 0; t = t < 0 ? 0 : t > 1 ? 1 : t;
  return hypotl(px - x1 - t * ux, py - y1 - t * uy);
}
static void boundary(const Polys& v, std::vector<Bnd>& out) {
  std::vector<Lseg> e; for (const std::vector<LRing>& p : v) for (const LRing& r : p) for (size_t i = 0; i < r.size(); ++i) { size_t j = (i + 1) % r.size(); e.push_back(Lseg{r[i].first, r[i].second, r[j].first, r[j].second}); }
  for (size_t i = 0; i < e.size(); ++i) {
    std::vector<Frac> t; t.push_back(Frac{0, 1}); t.push_back(Frac{1, 1}); for (size_t j = 0; j < e.size(); ++j) if (j != i) meets(e[i], e[j], t);
    std::vector<ld> q; for (const Frac& f : t) q.push_back((ld)f.num / (ld)f.den); std::sort(q.begin(), q.end());
    ld dx = e[i].x2 - e[i].x1, dy = e[i].y2 - e[i].y1, len = hypotl(dx, dy);
    for (size_t k = 0; k + 1 < q.size(); ++k) {
      if ((q[k + 1] - q[k]) * len < 1e-3L) continue;
      ld m = (q[k] + q[k + 1]) / 2, x = e[i].x1 + m * dx, y = e[i].y1 + m * dy, nx = dy / len, ny = -dx / len, h = 1e-3L;
      bool a = in_polys(v, x + h * nx, y + h * ny), b = in_polys(v, x - h * nx, y - h * ny);
      if (a == b) continue;
      if (a) { nx = -nx; ny = -ny; }
      out.push_back(Bnd{e[i].x1 + q[k] * dx, e[i].y1 + q[k] * dy, e[i].x1 + q[k + 1] * dx, e[i].y1 + q[k + 1] * dy, nx, ny});
    }
  }
}
static ld bdist(const std::vector<Bnd>& b, ld x, ld y) { ld d = 1e30L; for (const Bnd& s : b) d = std::min(d, pdist(x, y, s.x1, s.y1, s.x2, s.y2)); return d; }
// how often do pieces cover (x+1/2, y+1/4)?
static int covers(const std::vector<PGH>& v, long x, long y) {
  int n = 0;
  for (const PGH& p : v) {
    LRing r; ring_of(bp::begin_points(p), bp::end_points(p), r); int w = abs(wind(r, x + 0.5L, y + 0.25L));
    for (auto h = bp::begin_holes(p); h != bp::end_holes(p); ++h) { LRing q; ring_of(bp::begin_points(*h), bp::end_points(*h), q); w -= abs(wind(q, x + 0.5L, y + 0.25L)); }
    n += w;
  }
  return n;
}
// do a and the reflection of b about q/2 (all coordinates times four) share a point?
static bool refl_meet(const Polys& a, const Polys& b, long qx, long qy) {
  auto edges = [](const std::vector<LRing>& p, long s, long tx, long ty) { std::vector<Lseg> e; for (const LRing& r : p) for (size_t i = 0; i < r.size(); ++i) { size_t j = (i + 1) % r.size(); e.push_back(Lseg{s * r[i].first + tx, s * r[i].second + ty, s * r[j].first + tx, s * r[j].second + ty}); } return e; };
  for (const std::vector<LRing>& p : a) for (const std::vector<LRing>& o : b) {
    std::vector<Lseg> x = edges(p, 4, 0, 0), y = edges(o, -4, qx, qy);
    for (const Lseg& s : x) for (const Lseg& t : y) { if (std::max(s.x1, s.x2) < std::min(t.x1, t.x2) || std::max(t.x1, t.x2) < std::min(s.x1, s.x2) || std::max(s.y1, s.y2) < std::min(t.y1, t.y2) || std::max(t.y1, t.y2) < std::min(s.y1, s.y2)) continue; std::vector<Frac> f; meets(s, t, f); if (!f.empty()) return true; }
    // no edges meet: containment
    ld vx = (qx - 4.0L * o[0][0].first) / 4, vy = (qy - 4.0L * o[0][0].second) / 4; if (in_poly(p, vx, vy)) return true;
    ld ux = (qx - 4.0L * p[0][0].first) / 4, uy = (qy - 4.0L * p[0][0].second) / 4; if (in_poly(o, ux, uy)) return true;
  }
  return false;
}

struct Slot { SG* s; std::vector<Shape> sh; bool bad; Slot() : s(0), bad(false) {} };
struct Acc { std::vector<std::pair<std::size_t, Seg> >* a; std::vector<Seg>* b; };

struct AlgWorld : World {
  Plan plan; Slot slot[MAXCL][NS]; Acc acc[MAXCL][NA]; std::vector<std::pair<std::size_t, Seg> > wa[MAXCL][NA]; std::vector<Seg> wb[MAXCL][NA];
  int cl() const { return current_client() % MAXCL; }
  void setup(const Plan& p) {
    plan = p; G.init(FAM, p.get("exact", 1), (int)p.get("N", 10), p.get("U", 6000), p.get("ox", 0), p.get("oy", 0));
    for (int c = 0; c < MAXCL; ++c) { for (int k = 0; k < NS; ++k) lib([&] { slot[c][k].s = new SG(); }); for (int k = 0; k < NA; ++k) lib([&] { acc[c][k].a = new std::vector<std::pair<std::size_t, Seg> >(); acc[c][k].b = new std::vector<Seg>(); }); }
  }
  Slot& sl(long i) { Slot& s = slot[cl()][posmod(i, NS)]; if (s.bad) { lib([&] { s.s->clear(); }); s.sh.clear(); s.bad = false; probe("healed"); } return s; }
  static Polys polys(const Slot& s) { Polys v; for (const Shape& q : s.sh) { std::vector<LRing> p; for (const Ring& r : q.rings) p.push_back(lring(r)); v.push_back(p); } return v; }
  Shape shape(const OpLine& op, size_t at) { long a[6]; for (int k = 0; k < 6; ++k) a[k] = op.arg(at + k, 1); return decode_shape(G, a); }

  // ---------------------------------------------------------------- segments
  std::vector<Lseg> segs(const OpLine& op, size_t at) {
    std::vector<Lseg> v; bool lat = plan.get("lattice", 1); long S = plan.get("S", 100), u = plan.get("SU", 60), ox = plan.get("sox", 0), oy = plan.get("soy", 0);
    static const int D[8][2] = {{1, 0}, {0, 1}, {1, 1}, {1, -1}, {2, 1}, {1, 2}, {2, -1}, {1, -2}};
    for (size_t i = at; i + 3 < op.a.size(); i += 4) {
      Lseg s;
      if (lat) { long x = posmod(op.a[i], 12), y = posmod(op.a[i + 1], plan.get("rows", 12)), d = posmod(op.a[i + 2], 8), L = plan.get("len", 6), n = posmod(op.a[i + 3], 2 * L + 1) - L; s.x1 = ox + u * x; s.y1 = oy + u * y; s.x2 = s.x1 + u * n * D[d][0]; s.y2 = s.y1 + u * n * D[d][1]; }
      else { s.x1 = ox + posmod(op.a[i], S); s.y1 = oy + posmod(op.a[i + 1], S); long L = plan.get("reach", 0); if (L) { s.x2 = s.x1 + posmod(op.a[i + 2], 2 * L + 1) - L; s.y2 = s.y1 + posmod(op.a[i + 3], 2 * L + 1) - L; } else { s.x2 = ox + posmod(op.a[i + 2], S); s.y2 = oy + posmod(op.a[i + 3], S); } }
      v.push_back(s);
    }
    return v;
  }
  static std::string txt(const Lseg& s) { return fmt("(%ld,%ld)-(%ld,%ld)", s.x1, s.y1, s.x2, s.y2); }
  void check_split(const std::vector<Lseg>& in, const std::vector<std::pair<std::size_t, Lseg> >& out, bool ids) {
    bool lat = plan.get("lattice", 1);
    for (const auto& o : out) { observe(o.first); observe(mix2((u64)o.second.x1, (u64)o.second.y1)); observe(mix2((u64)o.second.x2, (u64)o.second.y2));
      if (ids && o.first >= in.size()) violation("wrong-split", fmt("a piece carries index %zu of %zu segments", o.first, in.size()));
      if (o.second.x1 == o.second.x2 && o.second.y1 == o.second.y2) violation("wrong-split", "a piece of zero length: " + txt(o.second)); }
    for (size_t i = 0; i < out.size(); ++i) for (size_t j = i + 1; j < out.size(); ++j) if (bad_meet(out[i].second, out[j].second)) violation("wrong-split", "pieces " + txt(out[i].second) + " and " + txt(out[j].second) + " meet other than at end points");
    if (lat) {
      std::vector<std::pair<std::size_t, Lseg> > want, got;
      for (size_t i = 0; i < in.size(); ++i) {
        std::vector<Frac> t; t.push_back(Frac{0, 1}); t.push_back(Frac{1, 1}); if (in[i].x1 == in[i].x2 && in[i].y1 == in[i].y2) continue;
        for (size_t j = 0; j < in.size(); ++j) if (j != i) { if (in[j].x1 == in[j].x2 && in[j].y1 == in[j].y2) on_point(in[i], in[j].x1, in[j].y1, t); else meets(in[i], in[j], t); }   // a segment of no length still cuts
        std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end());
        for (size_t k = 0; k + 1 < t.size(); ++k) {
          auto at = [&](const Frac& f, long a, long b) { return a + (long)((i128)(b - a) * f.num / f.den); };
          want.push_back(std::make_pair(ids ? i : 0, canon(Lseg{at(t[k], in[i].x1, in[i].x2), at(t[k], in[i].y1, in[i].y2), at(t[k + 1], in[i].x1, in[i].x2), at(t[k + 1], in[i].y1, in[i].y2)})));
        }
      }
      for (const auto& o : out) got.push_back(std::make_pair(ids ? o.first : 0, canon(o.second)));
      auto less = [](const std::pair<std::size_t, Lseg>& a, const std::pair<std::size_t, Lseg>& b) { if (a.first != b.first) return a.first < b.first; return lless(a.second, b.second); };
      std::sort(want.begin(), want.end(), less); std::sort(got.begin(), got.end(), less);
      for (size_t k = 0; k < want.size() || k < got.size(); ++k) {
        if (k >= got.size() || (k < want.size() && less(want[k], got[k]))) violation("wrong-split", "missing piece " + txt(want[k].second) + fmt(" of segment %zu", want[k].first));
        if (k >= want.size() || less(got[k], want[k])) violation("wrong-split", "unexpected piece " + txt(got[k].second) + fmt(" of segment %zu", got[k].first));
      }
      probe("split_exact");
    } else if (ids) {
      // the pieces of a segment form a path from one end to the other that stays near it
      for (size_t i = 0; i < in.size(); ++i) {
        std::map<std::pair<long, long>, int> deg; size_t n = 0; if (in[i].x1 == in[i].x2 && in[i].y1 == in[i].y2) continue;
        for (const auto& o : out) if (o.first == i) { ++n; ++deg[std::make_pair(o.second.x1, o.second.y1)]; ++deg[std::make_pair(o.second.x2, o.second.y2)];
          for (int k = 0; k < 2; ++k) if (pdist(k ? o.second.x2 : o.second.x1, k ? o.second.y2 : o.second.y1, in[i].x1, in[i].y1, in[i].x2, in[i].y2) > 3) violation("wrong-split", "a piece of " + txt(in[i]) + " leaves it: " + txt(o.second)); }
        std::pair<long, long> a(in[i].x1, in[i].y1), b(in[i].x2, in[i].y2); size_t odd = 0; for (auto& d : deg) { if (d.second > 2) violation("wrong-split", "pieces of " + txt(in[i]) + " do not form a path"); if (d.second == 1) ++odd; }
        if (!n || odd != 2 || deg.size() != n + 1 || deg[a] != 1 || deg[b] != 1) violation("wrong-split", fmt("%zu pieces of ", n) + txt(in[i]) + " do not lead from one end to the other");
      }
      probe("split_rounded");
    }
  }
  void isect(const OpLine& op) {
    Acc& A = acc[cl()][posmod(op.arg(0), NA)]; std::vector<std::pair<std::size_t, Seg> >& WA = wa[cl()][posmod(op.arg(0), NA)]; std::vector<Seg>& WB = wb[cl()][posmod(op.arg(0), NA)];
    std::vector<Lseg> in = segs(op, 3); std::vector<Seg> sv; for (const Lseg& s : in) sv.push_back(sg(s)); long route = posmod(op.arg(1), 6), again = posmod(op.arg(2), 4);
    std::vector<std::pair<std::size_t, Lseg> > out; bool ids = route < 2; Outcome o = OK;
    if (route < 2) {
      o = armed([&] { if (route) bp::intersect_segments(*A.a, in_iter(sv.begin()), in_iter(sv.end())); else bp::intersect_segments(*A.a, sv.begin(), sv.end()); });
      for (size_t i = 0; i < WA.size(); ++i) if (i >= A.a->size() || (*A.a)[i].first != WA[i].first || !lsame(of((*A.a)[i].second), of(WA[i].second))) violation("wrong-split", "results gathered earlier were changed");
      if (o == OK) for (size_t i = WA.size(); i < A.a->size(); ++i) out.push_back(std::make_pair((*A.a)[i].first, of((*A.a)[i].second)));
      else { std::vector<std::pair<std::size_t, Seg> > f; probe("isect_failed"); lib([&] { bp::intersect_segments(f, sv.begin(), sv.end()); }); for (auto& x : f) out.push_back(std::make_pair(x.first, of(x.second))); lib([&] { std::vector<std::pair<std::size_t, Seg> >().swap(f); }); }
      if (posmod(op.arg(2) / 4, 3) == 0) lib([&] { A.a->clear(); });
      WA = *A.a;
    } else if (route < 5) {
      o = armed([&] { if (route == 2) bp::intersect_segments(*A.b, in_iter(sv.begin()), in_iter(sv.end())); else bp::intersect_segments(*A.b, sv.begin(), sv.end()); });
      for (size_t i = 0; i < WB.size(); ++i) if (i >= A.b->size() || !lsame(of((*A.b)[i]), of(WB[i]))) violation("wrong-split", "results gathered earlier were changed");
      if (o == OK) for (size_t i = WB.size(); i < A.b->size(); ++i) out.push_back(std::make_pair(0, of((*A.b)[i])));
      else { std::vector<Seg> f; probe("isect_failed"); lib([&] { bp::intersect_segments(f, sv.begin(), sv.end()); }); for (auto& x : f) out.push_back(std::make_pair(0, of(x))); lib([&] { std::vector<Seg>().swap(f); }); }
      if (posmod(op.arg(2) / 4, 3) == 0) lib([&] { A.b->clear(); });
      WB = *A.b;
    } else {
      OutBox<Seg> b; o = armed([&] { bp::intersect_segments(b, sv.begin(), sv.end()); });
      if (o != OK) { probe("isect_failed"); OutBox<Seg> c; lib([&] { bp::intersect_segments(c, sv.begin(), sv.end()); }); b.v = c.v; }
      for (auto& x : b.v) out.push_back(std::make_pair(0, of(x)));
    }
    for (size_t i = 0; i < sv.size(); ++i) if (!lsame(of(sv[i]), in[i])) violation("operand-changed", "an input segment was changed");
    check_split(in, out, ids);
    if (again == 0 && plan.get("lattice", 1)) {   // splitting the pieces once more changes nothing
      std::vector<Seg> p, q; for (auto& x : out) p.push_back(sg(x.second)); lib([&] { bp::intersect_segments(q, p.begin(), p.end()); });
      std::vector<Lseg> a, b; for (auto& x : p) a.push_back(canon(of(x))); for (auto& x : q) b.push_back(canon(of(x))); std::sort(a.begin(), a.end(), lless); std::sort(b.begin(), b.end(), lless);
      if (a.size() != b.size()) violation("wrong-split", fmt("splitting %zu pieces again gives %zu", a.size(), b.size()));
      for (size_t i = 0; i < a.size(); ++i) if (!lsame(a[i], b[i])) violation("wrong-split", "splitting the pieces again changes " + txt(a[i]));
      lib([&] { std::vector<Seg>().swap(q); }); probe("split_again");
    }
  }
  void envel(const OpLine& op) {
    std::vector<Lseg> in = segs(op, 3); if (posmod(op.arg(0), 8) == 0) in.clear(); std::vector<Seg> sv; for (const Lseg& s : in) sv.push_back(sg(s));
    Rect r(1, 2, 3, 4); bool has = false;
    auto f = [&] { has = (op.arg(1) & 1) ? bp::envelope_segments(r, in_iter(sv.begin()), in_iter(sv.end())) : bp::envelope_segments(r, sv.begin(), sv.end()); };
    if (armed(f) == FAILED) { r = Rect(1, 2, 3, 4); lib(f); probe("envelope_failed"); }
    if (has == in.empty()) violation("wrong-envelope", "envelope_segments: wrong result for an empty or non-empty range");
    if (!has) { if (!(r == Rect(1, 2, 3, 4))) violation("wrong-envelope", "envelope_segments changed the rectangle for an empty range"); return; }
    long b[4] = {in[0].x1, in[0].y1, in[0].x1, in[0].y1}; for (const Lseg& s : in) for (int k = 0; k < 2; ++k) { long x = k ? s.x2 : s.x1, y = k ? s.y2 : s.y1; b[0] = std::min(b[0], x); b[2] = std::max(b[2], x); b[1] = std::min(b[1], y); b[3] = std::max(b[3], y); }
    observe((u64)bp::xl(r)); observe((u64)bp::yh(r));
    if (bp::xl(r) != b[0] || bp::yl(r) != b[1] || bp::xh(r) != b[2] || bp::yh(r) != b[3]) violation("wrong-envelope", fmt("envelope_segments: (%d,%d)-(%d,%d), should be (%ld,%ld)-(%ld,%ld)", bp::xl(r), bp::yl(r), bp::xh(r), bp::yh(r), b[0], b[1], b[2], b[3]));
    probe("envelope");
  }

  // ---------------------------------------------------------------- sets
  std::vector<PGH> pieces(SG& s, const char* what) {
    std::vector<PGH> v, r; lib([&] { s.get(v); }); Tally t; for (const PGH& p : v) { t.add(p); LRing q; ring_of(bp::begin_points(p), bp::end_points(p), q); if (shoelace(q) == 0) violation("malformed-output", std::string(what) + ": a polygon of zero area"); }
    if (!t.bad.empty()) violation("malformed-output", std::string(what) + ": " + t.bad);
    double a = 0; lib([&] { a = (double)bp::area(s); }); if (a < 0 || (a > 0) != (t.area2 > 0)) violation("wrong-area", std::string(what) + ": area disagrees with the pieces");
    return v;
  }
  void check_slot(Slot& s) {
    Polys p = polys(s); std::vector<PGH> v; { SG* c = 0; lib([&] { c = new SG(*s.s); }); v = pieces(*c, "get"); lib([&] { delete c; }); }
    Reg m(G.M()); for (const Shape& q : s.sh) m = rop(m, G.of_shape(q), 0);
    check_pieces(v, m, "operand");
  }
  void expect(const std::vector<PGH>& v, ld x, ld y, int want, const char* what, double k, int n) {
    long X = (long)floorl(x), Y = (long)floorl(y); int got = covers(v, X, Y);
    if (got != want) violation("wrong-region", fmt("%s by %.0f (%d segments): the point (%ld.5,%ld.25) is covered %d time(s), should be %d", what, k, n, X, Y, got, want));
  }
  Outcome do_resize(SG*& c, const Slot& s, long k, bool arc, int n, long route) {
    SG* t = 0;
    Outcome o = armed([&] {
      if (posmod(route, 6) == 5 && !arc) { t = k > 0 ? new SG(*s.s + (I)k) : new SG(*s.s - (I)-k); return; }
      t = new SG(*s.s); if (route & 8) t->clean();
      switch (posmod(route, 6)) {
        case 0: case 1: t->resize((I)k, arc, (unsigned)n); break;
        case 2: bp::resize(*t, (I)k, arc, n); break;
        case 3: if (arc) t->resize((I)k, true, (unsigned)n); else if (k > 0) *t += (I)k; else *t -= (I)-k; break;
        case 4: if (arc) bp::resize(*t, (I)k, true, n); else if (k > 0) bp::bloat(*t, (unsigned)k); else bp::shrink(*t, (unsigned)-k); break;
        case 5: t->resize((I)k, arc, (unsigned)n); break;
      }
    });
    if (o == FAILED && t) { lib([&] { t->clear(); delete t; }); t = 0; }   // what is left of a failed target can be cleared and destroyed
    c = t; return o;
  }
  void rsz(const OpLine& op) {
    Slot& s = sl(op.arg(0)); bool arc = op.arg(1) & 1; static const int ns[] = {0, 1, 2, 3, 4, 5, 6, 8, 12, 16, 24, 33}; int n = ns[posmod(op.arg(2), 12)], en = n < 3 ? 4 : n;
    Polys p = polys(s); size_t ne = 0; for (auto& q : p) for (auto& r : q) ne += r.size(); if (arc && ne * en > 260) { n = 4; en = 4; }
    if (ne > 60) return;
    sim::Rng rng(mix((u64)op.arg(3) * 1001 + 7)); long k = arc ? rng.range(30, G.U * 2) : rng.chance(1, 2) ? rng.range(20, G.U / 4) : rng.range(20, G.U); if (rng.chance(1, 2)) k = -k;
    SG* c = 0; std::vector<PGH> before; std::vector<PGH> v;
    if (!arc) { SG* b = 0; lib([&] { b = new SG(*s.s); b->get(before); delete b; }); }
    long route = op.arg(4);
    if (do_resize(c, s, k, arc, n, route) == FAILED) { probe("resize_failed"); check_slot(s); OpLine none; if (do_resize_again(c, s, k, arc, n, route)) return; }
    v = pieces(*c, "resize"); lib([&] { delete c; });
    for (const PGH& q : v) for (auto it = bp::begin_points(q); it != bp::end_points(q); ++it) observe(mix2((u64)(*it).x(), (u64)(*it).y()));
    int din = 0, dout = 0; ld d = k < 0 ? -k : k;
    if (arc) {
      std::vector<Bnd> b; boundary(p, b); if (b.empty()) { if (!v.empty()) violation("wrong-region", "resizing the empty region gives something"); probe("resize_empty"); return; }
      ld tol = 6, r0 = d * cosl(M_PIl / en) - tol, r1 = d + tol;
      for (int t = 0; t < 60; ++t) {
        const Bnd& e = b[rng.below((long)b.size())]; ld u = rng.below(1001) / 1000.0L, x = e.x1 + u * (e.x2 - e.x1), y = e.y1 + u * (e.y2 - e.y1), a = rng.below(6284) / 1000.0L, h;
        long w = rng.below(5); h = w == 0 ? r0 - 2 : w == 1 ? r1 + 2 : w == 2 ? d * rng.below(1000) / 1000.0L : w == 3 ? d + rng.below(3 * G.U) : -(ld)rng.below(2 * G.U);
        if (k < 0) h = -h;
        if (rng.chance(1, 3)) { x = e.x1 + h * cosl(a); y = e.y1 + h * sinl(a); } else { x += h * e.nx; y += h * e.ny; }
        x = floorl(x) + 0.5L; y = floorl(y) + 0.25L;
        bool in = in_polys(p, x, y); ld q = bdist(b, x, y); ld sd = in ? -q : q; int want = -1;
        if (k > 0) { if (sd <= r0) want = 1; else if (sd >= r1) want = 0; } else { if (-sd >= r1) want = 1; else if (-sd <= r0) want = 0; }
        if (want < 0) continue; (want ? din : dout)++;
        expect(v, x, y, want, "resize with arcs", (double)k, n);
      }
      probe("resize_arc"); if (din) probe("resize_arc_in", din); if (dout) probe("resize_arc_out", dout);
    } else {
      // each polygon's edges are moved by the amount and joined by mitres
      std::vector<std::pair<std::vector<Q>, int> > rings; std::vector<Bnd> b;
      for (const PGH& q : before) {
        std::vector<LRing> rr(1); ring_of(bp::begin_points(q), bp::end_points(q), rr[0]); for (auto h = bp::begin_holes(q); h != bp::end_holes(q); ++h) { rr.push_back(LRing()); ring_of(bp::begin_points(*h), bp::end_points(*h), rr.back()); }
        for (size_t i = 0; i < rr.size(); ++i) {
          LRing& r = rr[i]; if (r.size() > 1 && r[0] == r.back()) r.pop_back(); size_t m = r.size(); if (m < 3) return;
          i128 ar = shoelace(r); if ((ar > 0) != (i == 0)) std::reverse(r.begin(), r.end());   // outer rings counterclockwise, holes clockwise: the outside is on the right
          std::vector<Q> o(m);
          for (size_t a = 0; a < m; ++a) {
            const auto &p0 = r[(a + m - 1) % m], &p1 = r[a], &p2 = r[(a + 1) % m];
            ld ax = p1.first - p0.first, ay = p1.second - p0.second, bx = p2.first - p1.first, by = p2.second - p1.second, la = hypotl(ax, ay), lb = hypotl(bx, by); ax /= la; ay /= la; bx /= lb; by /= lb;
            ld n1x = ay, n1y = -ax, n2x = by, n2y = -bx, den = 1 + n1x * n2x + n1y * n2y; if (den < 0.02L) { probe("mitre_too_sharp"); return; }
            o[a] = Q(p1.first + k * (n1x + n2x) / den, p1.second + k * (n1y + n2y) / den);
          }
          bool ok = true, gone = true;
          for (size_t a = 0; a < m; ++a) { const auto &p1 = r[a], &p2 = r[(a + 1) % m]; ld dx = p2.first - p1.first, dy = p2.second - p1.second, ex = o[(a + 1) % m].first - o[a].first, ey = o[(a + 1) % m].second - o[a].second; ld f = (dx * ex + dy * ey) / hypotl(dx, dy); if (f < 8) ok = false; if (f > -8) gone = false; }
          bool shrinks = (i == 0) == (k < 0);
          if (!ok && !(gone && shrinks)) { probe("mitre_unclear"); return; }
          if (gone) { probe("ring_vanished"); if (i == 0) break; continue; }
          for (size_t a = 0; a < m; ++a) b.push_back(Bnd{o[a].first, o[a].second, o[(a + 1) % m].first, o[(a + 1) % m].second, 0, 0});
          rings.push_back(std::make_pair(o, 1));
        }
      }
      if (b.empty()) { if (!v.empty()) violation("wrong-region", fmt("resize by %ld: everything vanishes, but %zu pieces are left", k, v.size())); return; }
      for (int t = 0; t < 60; ++t) {
        const Bnd& e = b[rng.below((long)b.size())]; ld l = hypotl(e.x2 - e.x1, e.y2 - e.y1), nx = (e.y2 - e.y1) / l, ny = -(e.x2 - e.x1) / l, u = rng.below(1001) / 1000.0L;
        ld h = rng.chance(1, 2) ? 8 : (ld)rng.range(8, 2 * G.U); if (rng.chance(1, 2)) h = -h;
        ld x = e.x1 + u * (e.x2 - e.x1) + h * nx, y = e.y1 + u * (e.y2 - e.y1) + h * ny; x = floorl(x) + 0.5L; y = floorl(y) + 0.25L;
        if (bdist(b, x, y) < 6) continue;
        int w = 0; for (auto& r : rings) w += wind(r.first, x, y); if (w < 0) continue;
        int want = w > 0; (want ? din : dout)++;
        expect(v, x, y, want, "resize with mitres", (double)k, 0);
      }
      probe("resize_mitre"); if (din) probe("resize_mitre_in", din); if (dout) probe("resize_mitre_out", dout);
    }
  }
  bool do_resize_again(SG*& c, const Slot& s, long k, bool arc, int n, long) { lib([&] { c = new SG(*s.s); c->resize((I)k, arc, (unsigned)n); }); return false; }
  void mnk(const OpLine& op) {
    Slot& a = sl(op.arg(0)); Slot& b = sl(op.arg(1)); Polys pa = polys(a), pb = polys(b); size_t na = 0, nb = 0; for (auto& q : pa) for (auto& r : q) na += r.size(); for (auto& q : pb) for (auto& r : q) nb += r.size();
    if (na * nb > 160) return;
    SG* r = 0; std::vector<PGH> v; Rect junk((I)G.ox, (I)G.oy, (I)(G.ox + G.U), (I)(G.oy + G.U)); bool dirty = op.arg(2) & 1;
    lib([&] { r = new SG(); if (dirty) r->insert(junk); });
    auto f = [&] { bp::detail::minkowski_offset<I>::convolve_two_polygon_sets(*r, *a.s, *b.s); };
    if (armed(f) == FAILED) { probe("minkowski_failed"); check_slot(a); check_slot(b); lib(f); }
    v = pieces(*r, "Minkowski sum"); lib([&] { delete r; });
    for (const PGH& q : v) for (auto it = bp::begin_points(q); it != bp::end_points(q); ++it) observe(mix2((u64)(*it).x(), (u64)(*it).y()));
    if (pa.empty() || pb.empty()) { if (!v.empty()) violation("wrong-region", "a Minkowski sum with the empty region is not empty"); probe("minkowski_empty"); return; }
    sim::Rng rng(mix((u64)op.arg(3) * 77 + 5)); int din = 0, dout = 0;
    auto vert = [&](const Polys& p) { const auto& q = p[rng.below((long)p.size())]; const LRing& w = q[rng.below((long)q.size())]; return w[rng.below((long)w.size())]; };
    for (int t = 0; t < 40; ++t) {
      auto x = vert(pa), y = vert(pb), x2 = vert(pa), y2 = vert(pb); long u = rng.below(101), w = rng.below(101); long h = rng.chance(1, 2) ? 12 : G.U / 2;
      long X = x.first + y.first + (x2.first - x.first) * u / 100 + (y2.first - y.first) * w / 100 + rng.range(-h, h), Y = x.second + y.second + (x2.second - x.second) * u / 100 + (y2.second - y.second) * w / 100 + rng.range(-h, h);
      int want = -2; bool clear = true;
      for (int i = 0; i < 9 && clear; ++i) { long dx = (i % 3 - 1) * 24, dy = (i / 3 - 1) * 24; int m = refl_meet(pa, pb, 4 * X + 2 + dx, 4 * Y + 1 + dy); if (want == -2) want = m; else if (m != want) clear = false; }
      if (!clear) continue; (want ? din : dout)++;
      int got = covers(v, X, Y); if (got != want) violation("wrong-region", fmt("Minkowski sum: the point (%ld.5,%ld.25) is covered %d time(s), should be %d", X, Y, got, want));
    }
    probe("minkowski"); if (din) probe("minkowski_in", din); if (dout) probe("minkowski_out", dout);
  }
  void exec(const OpLine& op) {
    const std::string& n = op.name;
    if (n == "isx") isect(op);
    else if (n == "env") envel(op);
    else if (n == "ins") { Slot& s = sl(op.arg(0)); if (s.sh.size() >= 4) { lib([&] { s.s->clear(); }); s.sh.clear(); } Shape q = shape(op, 2); PGH g = own_geom(q); if (armed([&] { if (op.arg(1) & 1) *s.s += g; else s.s->insert(g); }) == OK) s.sh.push_back(q); else s.bad = true; }
    else if (n == "cln") { Slot& s = sl(op.arg(0)); if (armed([&] { s.s->clean(); }) == FAILED) probe("clean_failed"); }
    else if (n == "clr") { Slot& s = slot[cl()][posmod(op.arg(0), NS)]; lib([&] { s.s->clear(); }); s.sh.clear(); s.bad = false; }
    else if (n == "cpy") { Slot& s = sl(op.arg(0)); Slot& t = sl(op.arg(1)); if (armed([&] { *s.s = *t.s; }) == OK) s.sh = t.sh; else s.bad = true; }
    else if (n == "chk") check_slot(sl(op.arg(0)));
    else if (n == "rsz") rsz(op);
    else if (n == "mnk") mnk(op);
  }
  void finish() { for (int c = 0; c < MAXCL; ++c) for (int k = 0; k < NS; ++k) if (!slot[c][k].bad) check_slot(slot[c][k]); }
  void teardown() { for (int c = 0; c < MAXCL; ++c) { for (int k = 0; k < NS; ++k) lib([&] { delete slot[c][k].s; }); for (int k = 0; k < NA; ++k) lib([&] { delete acc[c][k].a; delete acc[c][k].b; }); } }
};
World* make_world() { return new AlgWorld(); }
const char* world_name() { return "walg"; }

void generate_plan(Rng& rng, Plan& p) {
  const std::string& m = p.mode; bool seg = m[0] == 's', set = m[0] == 'r', iso = m == "iso", fault = m == "sfault" || m == "rfault";
  int ncl = iso ? (int)rng.range(2, 4) : (int)rng.range(1, 3); if (iso) p.cfg["iso"] = 1;
  bool ex = rng.chance(2, 3); p.cfg["exact"] = ex; p.cfg["N"] = 10; long U = ex ? 6000 * rng.range(1, 4) : 100900; p.cfg["U"] = U;
  long big = rng.chance(1, 2) ? 0 : ex ? 20000000L : 2000000L; p.cfg["ox"] = big ? rng.range(-big, big) / 4 * 4 : 0; p.cfg["oy"] = big ? rng.range(-big, big) / 4 * 4 : 0;
  bool lat = rng.chance(1, 2); p.cfg["lattice"] = lat; long sus[] = {60, 120, 6000, 60000}, ss[] = {8, 20, 100, 1000, 30000, 1000000}; p.cfg["SU"] = sus[rng.below(4)]; long S = ss[rng.below(6)]; p.cfg["S"] = S; bool spread = rng.chance(1, 3); if (spread) { long rw[] = {30, 60, 150}; p.cfg["rows"] = rw[rng.below(3)]; p.cfg["len"] = rng.range(1, 4); p.cfg["reach"] = std::max(2L, S / rng.range(4, 30)); }   // many short segments: the scan is cut into bands
  long so = rng.chance(1, 2) ? 0 : lat ? (p.cfg["SU"] > 6000 ? 1000000L : 20000000L) : S > 30000 ? 0 : 1000000L; if (so) { p.cfg["sox"] = rng.range(-so, so); p.cfg["soy"] = rng.range(-so, so); }
  struct Sp { const char* n; int args; int w; bool seg; } sp[] = {{"isx", 3, 20, true}, {"env", 3, 3, true}, {"ins", 2, 14, false}, {"cln", 1, 4, false}, {"clr", 1, 2, false}, {"cpy", 2, 4, false}, {"chk", 1, 3, false}, {"rsz", 5, 14, false}, {"mnk", 4, 7, false}};
  int tot = 0; for (auto& s : sp) { if ((seg && !s.seg) || (set && s.seg)) s.w = 0; tot += s.w; }
  bool pre = rng.chance(3, 4);
  auto add = [&](int c, int k, long slot) {
    OpLine o; o.client = c; o.name = sp[k].n; for (int i = 0; i < sp[k].args; ++i) o.a.push_back(rng.below(420)); if (slot >= 0) o.a[0] = slot;
    if (sp[k].seg) { int n = (int)(spread && rng.chance(2, 3) ? rng.range(30, 110) : rng.chance(1, 8) ? rng.range(15, 40) : rng.range(0, 12)); for (int i = 0; i < n; ++i) for (int q = 0; q < 4; ++q) o.a.push_back(rng.below(lat ? 100000 : 10000000)); 
      if (!lat && n > 2 && rng.chance(1, 2)) for (int i = 1; i < n; ++i) if (rng.chance(1, 3)) { int j = (int)rng.below(i); int e = (int)rng.below(2), f = (int)rng.below(2); for (int q = 0; q < 2; ++q) o.a[3 + 4 * i + 2 * e + q] = o.a[3 + 4 * j + 2 * f + q]; } }
    if (k == 2) { long sh[6] = {rng.below(2520), rng.below(10), rng.below(10), rng.range(1, 8), rng.range(1, 8), rng.below(1024)}; for (long q : sh) o.a.push_back(q); }
    if (k != 4 && k != 6 && ((fault && rng.chance(1, 2)) || (iso && rng.chance(1, 8)))) {
      o.fkind = rng.chance(1, 4) ? F_ALLOCP : F_ALLOC1; o.fk = rng.chance(1, 3) ? rng.range(1, 5) : rng.logu(10);
      if (k == 0 && posmod(o.a[1], 6) == 5 && rng.chance(1, 2)) { o.fkind = F_OUT; o.fk = rng.range(1, 8); }
      if ((k == 0 && (posmod(o.a[1], 6) == 1 || posmod(o.a[1], 6) == 2)) || (k == 1 && (o.a[1] & 1))) if (rng.chance(1, 2) || k == 1) { o.fkind = F_IN; o.fk = rng.range(1, 12); }
    }
    if (pre && ncl > 1 && rng.chance(2, 5)) { int np = (int)rng.range(1, 3); for (int i = 0; i < np; ++i) o.preempt.push_back(rng.chance(1, 3) ? rng.range(1, 60) : rng.logu(14)); }
    p.ops.push_back(o);
  };
  if (!seg) for (int c = 0; c < ncl; ++c) { add(c, 2, rng.below(NS)); if (rng.chance(1, 2)) add(c, 2, rng.below(NS)); }
  int nops = (int)rng.range(3, 10);
  for (int i = 0; i < nops; ++i) { long r = rng.below(tot); int k = 0; while (r >= sp[k].w) r -= sp[k++].w; add((int)rng.below(ncl), k, -1); }
}
