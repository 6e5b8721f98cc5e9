// What the worlds of one polygon family share: shapes as library geometry, and the
// checking of pieces the library puts out against the point-set model of region.hpp.
#ifndef VERIF_GEOM_HPP
#define VERIF_GEOM_HPP
#include <boost/polygon/polygon.hpp>
#include "region.hpp"
#include <list>
#include <set>
#include <cstring>
namespace bp = boost::polygon;
using namespace sim;
using namespace boost::polygon::operators;

#ifndef FAM
#error FAM must be defined
#endif
typedef int I;
typedef bp::point_data<I> P;
typedef bp::rectangle_data<I> Rect;
typedef bp::polygon_90_data<I> P90;
typedef bp::polygon_90_with_holes_data<I> P90H;
typedef bp::polygon_45_data<I> P45;
typedef bp::polygon_45_with_holes_data<I> P45H;
typedef bp::polygon_data<I> PG;
typedef bp::polygon_with_holes_data<I> PGH;
typedef bp::polygon_90_set_data<I> S90;
typedef bp::polygon_45_set_data<I> S45;
typedef bp::polygon_set_data<I> SG;
#if FAM == 0
typedef S90 Set; typedef P90 PM; typedef P90H PMH;
#elif FAM == 1
typedef S45 Set; typedef P45 PM; typedef P45H PMH;
#else
typedef SG Set; typedef PG PM; typedef PGH PMH;
#endif

static Grid G;

// ------------------------------------------------------------------ shapes -> library geometry
static P ap(const Pt& p) { return P((I)(G.ox + G.U * p.x), (I)(G.oy + G.U * p.y)); }
static std::vector<P> apts(const Ring& r) { std::vector<P> v; for (size_t i = 0; i < r.size(); ++i) v.push_back(ap(r[i])); return v; }
// vertices that change nothing: split edges, repeated vertices, a repeated first vertex, a spike of no width
static std::vector<P> dressed(const Ring& r, unsigned long dress) {
  std::vector<P> v = apts(r); if (!dress) return v;
  sim::Rng rng(sim::mix(dress * 131 + 7)); std::vector<P> o; long style = (long)rng.below(5);
  for (size_t i = 0; i < v.size(); ++i) {
    const Pt &a = r[i], &b = r[(i + 1) % r.size()]; o.push_back(v[i]);
    if ((style == 0 || style == 4) && rng.chance(1, 3)) o.push_back(v[i]);
    long dx = b.x - a.x, dy = b.y - a.y, g = labs(dx), q = labs(dy); while (q) { long t = g % q; g = q; q = t; }
    if ((style == 1 || style == 4) && g > 1) for (long k = 1; k < g; ++k) if (rng.chance(1, 2)) { o.push_back(ap(Pt{a.x + dx / g * k, a.y + dy / g * k})); if (style == 4 && rng.chance(1, 4)) o.push_back(o.back()); }
    if (style == 2 && rng.chance(1, 4)) { long d[8][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {1, 1}, {1, -1}, {-1, 1}, {-1, -1}}; long* e = d[rng.below(8)]; long k = rng.range(1, 3); Pt q{a.x + e[0] * k, a.y + e[1] * k}; if (q.x >= 0 && q.y >= 0 && q.x <= G.N && q.y <= G.N) { o.push_back(ap(q)); o.push_back(v[i]); } }
    if (style == 2 && g > 1 && rng.chance(1, 3)) { o.push_back(ap(Pt{a.x + dx / g, a.y + dy / g})); o.push_back(v[i]); }
  }
  if (style == 3 || (style == 4 && rng.chance(1, 2))) { o.push_back(o[0]); if (rng.chance(1, 4)) o.push_back(o[0]); }
  return o;
}
// The same for Manhattan polygons, which keep every other coordinate only: a straight run is split by a vertex given twice.
static std::vector<P> dressed90(const Ring& r, unsigned long dress) {
  std::vector<P> v = apts(r), o; if (!dress) return v;
  sim::Rng rng(sim::mix(dress * 137 + 11)); std::vector<size_t> starts;
  for (size_t i = 0; i < v.size(); ++i) {
    const Pt &a = r[i], &b = r[(i + 1) % r.size()]; o.push_back(v[i]); long dx = b.x - a.x, dy = b.y - a.y, g = labs(dx + dy);
    for (long k = 1; k < g; ++k) if (rng.chance(1, 3)) {
      Pt m{a.x + dx / g * k, a.y + dy / g * k}; o.push_back(ap(m)); if (dx) starts.push_back(o.size());
      if (rng.chance(1, 4)) { long e = rng.range(1, 2) * (rng.chance(1, 2) ? 1 : -1); Pt q{m.x + (dx ? 0 : e), m.y + (dx ? e : 0)}; if (q.x >= 0 && q.y >= 0 && q.x <= G.N && q.y <= G.N) { o.push_back(ap(q)); o.push_back(ap(q)); } }
      o.push_back(ap(m));
      if (dx && o.size() >= 4 && o[o.size() - 2].y() != o.back().y()) starts.back() = o.size() - 1;
    }
  }
  if (!starts.empty() && rng.chance(1, 2)) std::rotate(o.begin(), o.begin() + starts[rng.below(starts.size())] % o.size(), o.end());
  return o;
}
template <typename T> struct Dressable { enum { v = 1 }; };   // Manhattan polygons keep every other coordinate only
template <> struct Dressable<P90> { enum { v = 0 }; }; template <> struct Dressable<P90H> { enum { v = 0 }; };
template <typename T> T simple_poly(const Ring& r, unsigned long dress = 0) { std::vector<P> v = Dressable<T>::v ? dressed(r, dress) : dressed90(r, dress); T p; bp::set_points(p, v.begin(), v.end()); return p; }
template <typename T, typename HT> T holed_poly(const Shape& s) {
  std::vector<P> v = Dressable<T>::v ? dressed(s.rings[0], s.dress) : dressed90(s.rings[0], s.dress); T p; bp::set_points(p, v.begin(), v.end());
  std::vector<HT> h; for (size_t i = 1; i < s.rings.size(); ++i) h.push_back(simple_poly<HT>(s.rings[i], s.dress ? s.dress + i : 0));
  if (!h.empty()) bp::set_holes(p, h.begin(), h.end());
  return p;
}
static Rect rect_of(const Shape& s) {
  long x0 = s.rings[0][0].x, x1 = x0, y0 = s.rings[0][0].y, y1 = y0;
  for (const Pt& p : s.rings[0]) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
  P a = ap(Pt{x0, y0}), b = ap(Pt{x1, y1});
  return Rect(a.x(), a.y(), b.x(), b.y());
}
// calls f with one of the geometry types able to hold the shape
template <typename F> void with_geom(const Shape& s, long cls, F f) {
  bool holes = s.rings.size() > 1;
  if (s.manh) {
    std::vector<int> c;
    if (is_rect(s)) c.push_back(0);
    if (!holes) c.push_back(1);
    c.push_back(2);
#if FAM >= 1
    if (!holes) c.push_back(3);
    c.push_back(4);
#endif
#if FAM >= 2
    if (!holes) c.push_back(5);
    c.push_back(6);
#endif
    switch (c[posmod(cls, (long)c.size())]) {
      case 0: { Rect g = rect_of(s); f(g); return; }
      case 1: { P90 g = simple_poly<P90>(s.rings[0], s.dress); f(g); return; }
      case 2: { P90H g = holed_poly<P90H, P90>(s); f(g); return; }
#if FAM >= 1
      case 3: { P45 g = simple_poly<P45>(s.rings[0], s.dress); f(g); return; }
      case 4: { P45H g = holed_poly<P45H, P45>(s); f(g); return; }
#endif
#if FAM >= 2
      case 5: { PG g = simple_poly<PG>(s.rings[0], s.dress); f(g); return; }
      case 6: { PGH g = holed_poly<PGH, PG>(s); f(g); return; }
#endif
    }
  }
#if FAM == 1
  if (!holes && (cls & 1)) { P45 g = simple_poly<P45>(s.rings[0], s.dress); f(g); } else { P45H g = holed_poly<P45H, P45>(s); f(g); }
#elif FAM == 2
  if (!holes && (cls & 1)) { PG g = simple_poly<PG>(s.rings[0], s.dress); f(g); } else { PGH g = holed_poly<PGH, PG>(s); f(g); }
#endif
}
// the family's own polygon type
static PMH own_geom(const Shape& s) { return holed_poly<PMH, PM>(s); }

// ------------------------------------------------------------------ output checking
template <typename It> static void ring_of(It b, It e, std::vector<std::pair<long, long> >& v) {
  v.clear(); for (; b != e; ++b) v.push_back(std::make_pair((long)(*b).x(), (long)(*b).y()));
}
static i128 shoelace(const std::vector<std::pair<long, long> >& v) {
  i128 a = 0; for (size_t i = 0; i < v.size(); ++i) { size_t j = (i + 1) % v.size(); a += (i128)v[i].first * v[j].second - (i128)v[j].first * v[i].second; } return a;
}
struct Tally {
  std::vector<int> total; i128 area2; std::string bad; long n; long bb[4]; bool bbany, sliced, loose, wind, ccw;
  explicit Tally(bool sl = false) : total(G.M(), 0), area2(0), n(0), bbany(false), sliced(sl), loose(false), wind(false), ccw(false) {}
  void point(const std::pair<long, long>& p) {
    if (!bbany) { bb[0] = bb[2] = p.first; bb[1] = bb[3] = p.second; bbany = true; }
    bb[0] = std::min(bb[0], p.first); bb[2] = std::max(bb[2], p.first); bb[1] = std::min(bb[1], p.second); bb[3] = std::max(bb[3], p.second);
  }
  void ring(const std::vector<std::pair<long, long> >& v, std::vector<int>& w) {
    for (size_t i = 0; i < v.size(); ++i) { observe(mix2((u64)v[i].first, (u64)v[i].second)); point(v[i]); }
    if (v.size() < 3) bad = fmt("a polygon with %zu vertices", v.size());
    for (size_t i = 0; i < v.size(); ++i) {
      size_t j = (i + 1) % v.size();
      long dx = v[j].first - v[i].first, dy = v[j].second - v[i].second;
      if (FAM == F90 && (dx != 0) == (dy != 0) && !(sliced && dx == 0)) bad = fmt("edge (%ld,%ld) of a Manhattan polygon is degenerate or not axis-parallel", dx, dy);
      if (FAM == F45 && dx && dy && labs(dx) != labs(dy)) bad = fmt("edge (%ld,%ld) of a 45-degree polygon has another slope", dx, dy);
    }
    G.add_winding(v, w);
    for (size_t i = 0; i < w.size(); ++i) { w[i] = abs(w[i]); if (w[i] > 1) bad = "a polygon covers a point more than once"; }
  }
  template <typename T> void simple(const T& p, int sign, std::vector<int>& w) {
    std::vector<std::pair<long, long> > v; ring_of(bp::begin_points(p), bp::end_points(p), v);
    std::vector<int> q(G.M(), 0); ring(v, q);
    i128 a = shoelace(v); if (a * sign < 0 && wind) bad = sign > 0 ? "a clockwise polygon" : "a counterclockwise hole";
    if (a < 0) a = -a; if (a == 0 && !loose) bad = "a polygon of zero area"; area2 += sign * a;
    for (size_t i = 0; i < q.size(); ++i) w[i] += sign * q[i];
  }
  void add(const Rect& r) {
    std::vector<std::pair<long, long> > v; long x0 = bp::xl(r), x1 = bp::xh(r), y0 = bp::yl(r), y1 = bp::yh(r);
    if (x0 >= x1 || y0 >= y1) bad = "an empty rectangle";
    v.push_back({x0, y0}); v.push_back({x1, y0}); v.push_back({x1, y1}); v.push_back({x0, y1});
    std::vector<int> q(G.M(), 0); ring(v, q); area2 += (i128)2 * (x1 - x0) * (y1 - y0);
    for (size_t i = 0; i < q.size(); ++i) total[i] += q[i];
    ++n;
  }
  template <typename T> void add_s(const T& p) { std::vector<int> w(G.M(), 0); wind = ccw; simple(p, 1, w); wind = false; for (size_t i = 0; i < w.size(); ++i) total[i] += w[i]; ++n; observe(91); }
  template <typename T> void add_h(const T& p) {
    wind = FAM != F90 || !sliced;   // documented: polygons counterclockwise, holes clockwise
    std::vector<int> w(G.M(), 0); simple(p, 1, w);
    for (auto h = bp::begin_holes(p); h != bp::end_holes(p); ++h) { observe(92); simple(*h, -1, w); }
    for (size_t i = 0; i < w.size(); ++i) { if (w[i] < 0) bad = "a hole outside its polygon or overlapping another hole"; total[i] += w[i]; }
    wind = false; ++n; observe(93);
  }
  void add(const P90& p) { add_s(p); } void add(const P45& p) { add_s(p); } void add(const PG& p) { add_s(p); }
  void add(const P90H& p) { add_h(p); } void add(const P45H& p) { add_h(p); } void add(const PGH& p) { add_h(p); }
};
static std::string where(size_t i) { return fmt("at (%.1f,%.1f)", G.samp[i].x2 / 2.0, G.samp[i].y2 / 2.0); }
static long differ(const Tally& t, const Reg& m) { long n = 0; for (size_t i = 0; i < G.M(); ++i) n += t.total[i] != (int)m.b[i]; return n; }
static void check_tally(const Tally& t, const Reg& m, const char* what, bool exact_area) {
  if (!t.bad.empty()) violation("malformed-output", std::string(what) + ": " + t.bad);
  for (size_t i = 0; i < G.M(); ++i)
    if (t.total[i] != (int)m.b[i])
      violation("wrong-region", fmt("%s: output covers the point %s %d time(s), the history says %d (%ld of %zu sample points differ)", what, where(i).c_str(), t.total[i], (int)m.b[i], differ(t, m), G.M()));
  if (exact_area && G.exact && FAM != FGEN) {
    i128 want2 = (i128)G.area4(m) * G.U * G.U / 2;
    if (t.area2 != want2) violation("wrong-area", fmt("%s: pieces have total doubled area %.1f, the history says %.1f", what, (double)t.area2, (double)want2));
  }
}
template <typename V> static void check_pieces(const V& v, const Reg& m, const char* what, bool exact_area = true, bool sliced = false) {
  Tally t(sliced); t.loose = FAM == FGEN && !G.exact && strstr(what, "trapezoid");   // a slice cut at rounded points may collapse
  t.ccw = FAM != F90 && !strncmp(what, "get", 3) && !strstr(what, "trapezoid");
  for (typename V::const_iterator i = v.begin(); i != v.end(); ++i) t.add(*i);
  check_tally(t, m, what, exact_area);
}

// Runs get(container) as library code; after an injected failure runs it again unarmed.
template <typename T, typename GetF, typename CheckF> static void read_pieces(GetF get, long variant, CheckF check) {
  if (posmod(variant, 3) == 2) {
    OutBox<T> o; Outcome r = armed([&] { get(o); });
    if (r == OK) { check(o.v); return; }
    probe("read_failed_outbox"); OutBox<T> o2; lib([&] { get(o2); }); check(o2.v);
  } else {
    std::vector<T> o; Outcome r = armed([&] { get(o); });
    if (r == OK) { check(o); return; }
    probe("read_failed_alloc"); std::vector<T> o2; lib([&] { get(o2); }); check(o2);
  }
}

static bp::orientation_2d ori(long o) { return (o & 1) ? bp::orientation_2d(bp::VERTICAL) : bp::orientation_2d(bp::HORIZONTAL); }

#if FAM == 0
#define NEWSET(o) new Set(ori(o))
#else
#define NEWSET(o) new Set()
#endif

// the same region built afresh from its elementary pieces: equality is by region for the exact families
static void canon_set(Set& c, const Reg& m) {
#if FAM != 2
  std::vector<Rect> rc; std::vector<PM> tri;
  for (int j = 0; j < G.N; ++j) for (int i = 0; i < G.N; ++i) {
    long x = G.ox + i * G.U, y = G.oy + j * G.U, U = G.U; int full = 0;
    for (int k = 0; k < G.K; ++k) full += m.b[(j * G.N + i) * G.K + k];
    if (full == G.K) { int e = i + 1; for (;; ++e) { if (e >= G.N) break; int f = 0; for (int k = 0; k < G.K; ++k) f += m.b[(j * G.N + e) * G.K + k]; if (f != G.K) break; } rc.push_back(Rect((I)x, (I)y, (I)(x + (e - i) * U), (I)(y + U))); i = e - 1; continue; }
    for (int k = 0; full && k < G.K; ++k) if (m.b[(j * G.N + i) * G.K + k]) {   // quarter of a cell: samples lie below, above, left, right of the centre
      P c((I)(x + U / 2), (I)(y + U / 2)), a, b; P q[4] = {P((I)x, (I)y), P((I)(x + U), (I)y), P((I)(x + U), (I)(y + U)), P((I)x, (I)(y + U))};
      const Grid::Samp& sm = G.samp[(j * G.N + i) * G.K + k]; long dx = sm.x2 - 2 * c.x(), dy = sm.y2 - 2 * c.y();
      if (labs(dx) < labs(dy)) { a = dy < 0 ? q[0] : q[3]; b = dy < 0 ? q[1] : q[2]; } else { a = dx < 0 ? q[0] : q[1]; b = dx < 0 ? q[3] : q[2]; }
      P t[3] = {a, b, c}; PM p; bp::set_points(p, t, t + 3); tri.push_back(p);
    }
  }
  lib([&] { c.insert(rc.begin(), rc.end()); c.insert(tri.begin(), tri.end()); });
#else
  (void)c; (void)m;
#endif
}
static void canon_check(Set& s, const Reg& m, long v) {
#if FAM != 2
  if (!G.exact) return;
  Set c; bool r = false; canon_set(c, m);
  lib([&] { if (v & 2) r = bp::equivalence(s, c); else r = v & 4 ? s == c : c == s; });
  if (!r) violation("wrong-equality", "an object compares unequal to the same region built from its pieces");
  probe("canonical_equality");
#else
  (void)s; (void)m; (void)v;
#endif
}
// many small shapes: scattered cells, a checkerboard, stripes, nested rings or a crowd of small general shapes
static void bulk_shapes(std::vector<Shape>& out, long style, long seed) {
  sim::Rng rng(sim::mix((u64)seed * 7919 + 3)); long N = G.N; size_t cap = FAM == F90 ? 400 : FAM == F45 ? 120 : 60;
  auto rect = [&](long x, long y, long w, long h) { Shape s; s.rings.push_back(Ring{{x, y}, {x + w, y}, {x + w, y + h}, {x, y + h}}); s.rect = true; if (out.size() < cap) out.push_back(s); };
  switch (posmod(style, 5)) {
    case 0: { long den = rng.range(1, 8); for (long j = 0; j < N; ++j) for (long i = 0; i < N; ++i) if (rng.chance(den, 9)) rect(i, j, 1, 1); break; }
    case 1: { long ph = rng.below(2); for (long j = 0; j < N; ++j) for (long i = 0; i < N; ++i) if ((i + j + ph) % 2 == 0) rect(i, j, 1, 1); break; }
    case 2: { bool v = rng.chance(1, 2); for (long i = 0; i < N; i += 2) { long a = rng.below(N - 1), b = 1 + rng.below(N - a); if (v) rect(i, a, 1, b); else rect(a, i, b, 1); } for (long i = 0; i < N; i += 4) { long a = rng.below(N - 1), b = 1 + rng.below(N - a); if (v) rect(a, i, b, 1); else rect(i, a, 1, b); } break; }
    case 3: for (long k = 0; 2 * k + 2 < N; k += 2) { long w = N - 2 * k; Shape s; s.rings.push_back(Ring{{k, k}, {k + w, k}, {k + w, k + w}, {k, k + w}}); if (w > 2) s.rings.push_back(Ring{{k + 1, k + 1}, {k + w - 1, k + 1}, {k + w - 1, k + w - 1}, {k + 1, k + w - 1}}); out.push_back(s); } break;
    default: { long k = rng.range(10, (long)cap / 3 + 10); for (long i = 0; i < k; ++i) { long a[6] = {(long)rng.below(2520), (long)rng.below(N), (long)rng.below(N), rng.range(1, 3), rng.range(1, 3), (long)rng.below(1024)}; if (posmod(a[0], 15) == 8) a[0] = 0; out.push_back(decode_shape(G, a)); } break; }
  }
  if (out.empty()) rect(0, 0, 1, 1);
}
// how many pieces cover the point (x+1/2, y+1/4), exactly
template <typename It> static int ring_winding(It b, It e, long x4, long y4) {
  int w = 0; std::vector<std::pair<long, long> > r; for (; b != e; ++b) { auto p = *b; r.push_back({4L * p.x(), 4L * p.y()}); }
  for (size_t i = 0; i < r.size(); ++i) {
    long px = r[i].first, py = r[i].second, cx = r[(i + 1) % r.size()].first, cy = r[(i + 1) % r.size()].second;
    if ((py <= y4) != (cy <= y4)) { i128 s = (i128)(cx - px) * (y4 - py) - (i128)(cy - py) * (x4 - px); if (cy > py ? s > 0 : s < 0) w += cy > py ? 1 : -1; }
  }
  return w;
}
template <typename V> static int cover_at(const V& v, long x, long y) {
  long x4 = 4 * x + 2, y4 = 4 * y + 1; int n = 0;
  for (const auto& p : v) {
    int w = abs(ring_winding(bp::begin_points(p), bp::end_points(p), x4, y4));
    for (auto h = bp::begin_holes(p); h != bp::end_holes(p); ++h) w -= abs(ring_winding(bp::begin_points(*h), bp::end_points(*h), x4, y4));
    n += w;
  }
  return n;
}
#endif
