// World: simulated clients run histories of operations on polygon set objects of one
// family (Manhattan, 45-degree, arbitrary angle).  Oracle: region.hpp point-set model.
#ifndef VERIF_SETWORLD_HPP
#define VERIF_SETWORLD_HPP
#include "geom.hpp"
#include "size45.hpp"
static const int OWN = 4, SH = 3, MAXCL = 5;
struct Slot { Set* s; Reg m; bool bad; Slot() : s(0), bad(false) {} };

struct SetWorld : World {
  Plan plan;
  Slot own[MAXCL][OWN], shr[SH];
  bool readers;
  int cl() const { return current_client() % MAXCL; }

  Slot& raw(long i) { return own[cl()][posmod(i, OWN)]; }
  Slot& dst(long i) { Slot& s = raw(i); heal(s, i); return s; }
  Slot& src(long i) { i = posmod(i, OWN + SH); if (i < OWN) return dst(i); return shr[i - OWN]; }

  // a target of a failed mutation is brought back by clearing, assigning or replacing it
  void heal(Slot& s, long v) {
    if (!s.bad) return;
    probe("healed");
    Shape sh; sh.rings.push_back(rectr(1, 1, 3, 2)); sh.rect = true;
    const OpLine& op = current_op(); v = (long)(op.arg(0) + 3 * op.arg(1) + op.a.size() + v);
    if (v & 8) lib([&] { Set c(*s.s); (void)c; });
    switch (posmod(v, 6)) {
      case 0: lib([&] { s.s->clear(); }); s.m = Reg(G.M()); break;
      case 1: { Slot& o = shr[posmod(v / 6, SH)]; lib([&] { *s.s = *o.s; }); s.m = o.m; break; }
      case 2: lib([&] { delete s.s; s.s = NEWSET(v / 6); }); s.m = Reg(G.M()); break;
      case 3: lib([&] { bp::clear(*s.s); }); s.m = Reg(G.M()); break;
      case 4: { Rect r = rect_of(sh); lib([&] { *s.s = r; }); s.m = G.of_shape(sh); break; }
      case 5: { Rect r = rect_of(sh); lib([&] { bp::assign(*s.s, r); }); s.m = G.of_shape(sh); break; }
    }
    s.bad = false;
  }

  Shape shape(const OpLine& op, size_t at, bool manh = false) { long a[6]; for (int k = 0; k < 6; ++k) a[k] = op.arg(at + k, 1); return decode_shape(G, a, manh); }
  int nshapes(const OpLine& op, size_t at) { return op.a.size() >= at + 6 ? (int)std::min<size_t>(5, (op.a.size() - at) / 6) : 1; }

  void build_grid(const Plan& p) {
    long u = p.get("U", 1000), ox = p.get("ox", 0), oy = p.get("oy", 0); bool ex = p.get("exact", 1);
    G.init(FAM, ex, (int)p.get("N", 12), u, ox, oy);
  }
  void setup(const Plan& p) {
    plan = p; readers = p.mode == "readers";
    build_grid(p);
    for (int i = 0; i < MAXCL; ++i) for (int k = 0; k < OWN; ++k) { long o = (p.get("orients", 0) >> (k + i)) & 1; Slot& s = own[i][k]; lib([&] { s.s = NEWSET(o); }); s.m = Reg(G.M()); }
    sim::Rng r((u64)p.get("shseed", 7));
    shared_phase(true);
    for (int k = 0; k < SH; ++k) {
      Slot& s = shr[k]; long o = r.below(2); lib([&] { s.s = NEWSET(o); }); s.m = Reg(G.M());
      int n = (int)r.below(5);
      if (k == 0 && n == 0) n = 2;
      for (int i = 0; i < n; ++i) { long a[6]; for (int q = 0; q < 6; ++q) a[q] = r.below(5000); Shape sh = decode_shape(G, a); PMH g = own_geom(sh); lib([&] { s.s->insert(g); }); s.m = rop(s.m, G.of_shape(sh), 0); }
      lib([&] { s.s->clean(); });
    }
    shared_phase(false);
    protect_shared(true);
  }

  // -------------------------------------------------------------- reading
  static const int POLYKINDS =
#if FAM == 0
    12;
#else
    9;
#endif
  void read_poly(const Set& s, const Reg& m, long kind, long variant, long extra) {
    kind = posmod(kind, POLYKINDS);
    if (FAM == F90 && kind == 8 && !plan.get("slice", 0)) kind = 4;   // known finding C01-slice, replayed on its own
#define READ(T, EXPR, WHAT) read_pieces<T>([&](auto& o) { EXPR; }, variant, [&](const std::vector<T>& v) { check_pieces(v, m, WHAT); })
#if FAM == 0
    switch (kind) {
      case 0: READ(Rect, s.get(o), "get rectangles"); break;
      case 1: READ(Rect, s.get_rectangles(o), "get_rectangles"); break;
      case 2: READ(Rect, s.get_rectangles(o, ori(extra)), "get_rectangles(orientation)"); break;
      case 3: READ(P90, s.get(o), "get polygon_90"); break;
      case 4: READ(P90H, s.get(o), "get polygon_90_with_holes"); break;
      case 5: READ(P90, s.get_polygons(o), "get_polygons"); break;
      case 6: READ(P45H, s.get(o), "get polygon_45_with_holes"); break;
      case 7: READ(PGH, s.get(o), "get polygon_with_holes"); break;
      case 8:   // slicing overload: pieces may repeat a vertex, the region is what counts
        read_pieces<P90H>([&](auto& o) { s.get(o, (size_t)(4 + posmod(extra, 12))); }, variant, [&](const std::vector<P90H>& v) { check_pieces(v, m, "get with vertex limit", true, true); }); break;
      case 9: READ(Rect, bp::get_rectangles(o, s, ori(extra)), "free get_rectangles(orientation)"); break;
      case 10: READ(Rect, bp::get_rectangles(o, s), "free get_rectangles"); break;
      case 11: read_pieces<Rect>([&](auto& o) { bp::get_max_rectangles(o, s); }, variant, [&](const std::vector<Rect>& v) { check_max(v, m); }); break;
    }
#elif FAM == 1
    switch (kind) {
      case 0: READ(P45, s.get(o), "get polygon_45"); break;
      case 1: READ(P45H, s.get(o), "get polygon_45_with_holes"); break;
      case 2: READ(P45, s.get_polygons(o), "get_polygons"); break;
      case 3: READ(P45H, s.get_polygons_with_holes(o), "get_polygons_with_holes"); break;
      case 4: READ(P45, s.get_trapezoids(o), "get_trapezoids"); break;
      case 5: READ(P45, s.get_trapezoids(o, ori(extra)), "get_trapezoids(orientation)"); break;
      case 6: READ(PGH, s.get(o), "get polygon_with_holes"); break;
      case 7: READ(PG, s.get(o), "get polygon"); break;
      case 8: READ(P45, bp::get_trapezoids(o, s, ori(extra)), "free get_trapezoids"); break;
    }
#else
    switch (kind) {
      case 0: READ(PG, s.get(o), "get polygon"); break;
      case 1: READ(PGH, s.get(o), "get polygon_with_holes"); break;
      case 2: READ(PG, s.get_trapezoids(o), "get_trapezoids"); break;
      case 3: READ(PG, s.get_trapezoids(o, ori(extra)), "get_trapezoids(orientation)"); break;
      case 4: READ(PG, bp::get_trapezoids(o, s), "free get_trapezoids"); break;
      case 5: { std::vector<PGH> o; if (armed([&] { bp::assign(o, s); }) == FAILED) { probe("read_failed_alloc"); o.clear(); lib([&] { bp::assign(o, s); }); } check_pieces(o, m, "assign to polygons"); break; }
      case 6: READ(PGH, s.get(o), "get polygon_with_holes"); break;
      case 7: READ(PG, bp::get_trapezoids(o, s, ori(extra)), "free get_trapezoids(orientation)"); break;
      case 8: READ(PG, s.get(o), "get polygon"); break;
    }
#endif
  }
  void check_max(const std::vector<Rect>& v, const Reg& m) {
    // every rectangle must be inside the region and not extendable, every maximal rectangle must be there, once
    int N = G.N; std::vector<std::vector<int> > ps(N + 1, std::vector<int>(N + 1, 0));
    for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) ps[j + 1][i + 1] = ps[j][i + 1] + ps[j + 1][i] - ps[j][i] + (G.cell(m, i, j) ? 1 : 0);
    auto full = [&](int x0, int y0, int x1, int y1) { if (x0 < 0 || y0 < 0 || x1 > N || y1 > N) return false; return ps[y1][x1] - ps[y0][x1] - ps[y1][x0] + ps[y0][x0] == (x1 - x0) * (y1 - y0); };
    std::set<std::vector<int> > want, got;
    for (int y0 = 0; y0 < N; ++y0) for (int x0 = 0; x0 < N; ++x0) if (G.cell(m, x0, y0)) for (int y1 = y0 + 1; y1 <= N && full(x0, y0, x0 + 1, y1); ++y1) {
      if (full(x0 - 1, y0, x0, y1)) continue;
      int x1 = x0 + 1; while (full(x1, y0, x1 + 1, y1)) ++x1;
      if (full(x0, y0 - 1, x1, y0) || full(x0, y1, x1, y1 + 1)) continue;
      want.insert(std::vector<int>{x0, y0, x1, y1});
    }
    for (const Rect& r : v) {
      long q[4] = {(long)bp::xl(r) - G.ox, (long)bp::yl(r) - G.oy, (long)bp::xh(r) - G.ox, (long)bp::yh(r) - G.oy};
      for (int k = 0; k < 4; ++k) { observe((u64)q[k]); if (q[k] % G.U) violation("wrong-region", "get_max_rectangles: a rectangle off the input's coordinates"); }
      std::vector<int> z{(int)(q[0] / G.U), (int)(q[1] / G.U), (int)(q[2] / G.U), (int)(q[3] / G.U)};
      if (!got.insert(z).second) violation("malformed-output", "get_max_rectangles: a rectangle reported twice");
      if (!want.count(z)) violation("wrong-region", fmt("get_max_rectangles: (%d,%d,%d,%d) cells is not a maximal rectangle of the region", z[0], z[1], z[2], z[3]));
    }
    if (got.size() != want.size()) violation("wrong-region", fmt("get_max_rectangles: %zu of %zu maximal rectangles reported", got.size(), want.size()));
    probe("max_rectangles");
  }
  template <typename T, typename Fn> T value(Fn f, const char* failprobe = "read_failed_alloc") {
    T r = T(); Outcome o = armed([&] { r = f(); });
    if (o == FAILED) { probe(failprobe); lib([&] { r = f(); }); }
    return r;
  }
  static bool loose() { return FAM == FGEN || !G.exact; }   // edges may lie a few units off the model's
  static bool area_ok(double a, const Reg& m) {
    if (FAM == F45 && !G.exact) { double w = (double)((long double)G.area4(m) * G.U * G.U / 4), tol = 64.0 * G.N * G.N * G.U; return a > w - tol && a < w + tol; }
    if (!G.exact) return true;
    if (FAM == FGEN) return (a > 0) == m.any() || !m.any();
    return a == (double)((long double)G.area4(m) * G.U * G.U / 4);
  }
  void check_ext(bool has, const Rect& r, const Reg& m, const char* what) {
    observe(has); if (has) { observe((u64)bp::xl(r)); observe((u64)bp::xh(r)); observe((u64)bp::yl(r)); observe((u64)bp::yh(r)); }
    long e[4];
    if (loose()) {
      if (m.any() && !has) violation("wrong-extents", fmt("%s: no extents for a non-empty region", what));
      if (!has) return;
      for (size_t i = 0; i < G.M(); ++i) if (m.b[i]) if (G.samp[i].x2 < 2L * bp::xl(r) || G.samp[i].x2 > 2L * bp::xh(r) || G.samp[i].y2 < 2L * bp::yl(r) || G.samp[i].y2 > 2L * bp::yh(r)) violation("wrong-extents", fmt("%s: extents exclude a covered point", what));
      return;
    }
    bool want = G.bbox(m, e);
    if (want != has) violation("wrong-extents", fmt("%s: returned %d for a region that is %s", what, (int)has, want ? "not empty" : "empty"));
    if (has && (2L * bp::xl(r) != 2 * G.ox + e[0] * G.U || 2L * bp::yl(r) != 2 * G.oy + e[1] * G.U || 2L * bp::xh(r) != 2 * G.ox + e[2] * G.U || 2L * bp::yh(r) != 2 * G.oy + e[3] * G.U))
      violation("wrong-extents", fmt("%s: (%d,%d)-(%d,%d), the history says (%.1f,%.1f)-(%.1f,%.1f)", what, bp::xl(r), bp::yl(r), bp::xh(r), bp::yh(r), G.ox + e[0] * G.U / 2.0, G.oy + e[1] * G.U / 2.0, G.ox + e[2] * G.U / 2.0, G.oy + e[3] * G.U / 2.0));
  }
  void read_value(Set& s, const Reg& m, long kind) {
    switch (posmod(kind, 6)) {
      case 0: { double a = value<double>([&] { return (double)bp::area(s); }); observe((u64)a); if (!area_ok(a, m)) violation("wrong-area", fmt("area is %.1f, the history says %.1f", a, (double)((long double)G.area4(m) * G.U * G.U / 4))); break; }
      case 1: { Rect r; const Set& cs = s; bool h = value<bool>([&] { return bp::extents(r, cs); }); check_ext(h, r, m, "free extents"); break; }
      case 2: { Rect r; bool h = value<bool>([&] { return s.extents(r); }); check_ext(h, r, m, "extents"); break; }
      case 3: { bool e = value<bool>([&] { return s.empty(); }); observe(e); if (loose() ? (e && m.any()) : e == m.any()) violation("wrong-empty", fmt("empty() is %d, the history says %d", (int)e, (int)!m.any())); break; }
      case 4: { bool e = value<bool>([&] { return bp::empty(s); }); observe(e); if (loose() ? (e && m.any()) : e == m.any()) violation("wrong-empty", fmt("free empty() is %d, the history says %d", (int)e, (int)!m.any())); break; }
      case 5: { size_t n = value<size_t>([&] { return s.size(); }); observe(n); if (loose() ? (n == 0 && m.any()) : (n != 0) != m.any()) violation("wrong-empty", fmt("size() is %zu for a region that is %s", n, m.any() ? "not empty" : "empty")); break; }
    }
  }
  void read_eq(Slot& a, Slot& b, long kind) {
    bool r = false, want = a.m == b.m; const char* w = "";
    switch (posmod(kind, 3)) {
      case 0: r = value<bool>([&] { return *a.s == *b.s; }); w = "operator=="; break;
      case 1: r = !value<bool>([&] { return *a.s != *b.s; }); w = "operator!="; break;
      case 2: r = value<bool>([&] { return bp::equivalence(*a.s, *b.s); }); w = "equivalence"; break;
    }
    observe(r);
    if (loose()) { if (r && !want) violation("wrong-equality", fmt("%s holds between different regions", w)); if (!r && &a == &b) violation("wrong-equality", fmt("%s fails on one object", w));
      if (G.exact && posmod(kind, 3) == 2 && want != r) { probe("gen_equiv_false_on_equal"); }
      return; }
    if (r != want) violation("wrong-equality", fmt("%s is %d, the regions are %s", w, (int)r, want ? "equal" : "different"));
  }
  template <typename V> void read_view(const V& v, const Reg& m, long kind, long variant, long extra) {
    // the same view object is read again after a failure
    switch (posmod(kind, 5)) {
      case 0: {
#if FAM == 0
        read_pieces<Rect>([&](auto& o) { bp::get_rectangles(o, v, ori(extra)); }, variant, [&](const std::vector<Rect>& r) { check_pieces(r, m, "rectangles of an expression"); });
#else
        read_pieces<PM>([&](auto& o) { bp::get_trapezoids(o, v, ori(extra)); }, variant, [&](const std::vector<PM>& r) { check_pieces(r, m, "trapezoids of an expression"); });
#endif
        break; }
      case 1: {
        std::vector<PMH> o; if (armed([&] { bp::assign(o, v); }) == FAILED) { probe("view_failed"); std::vector<PMH> o2; lib([&] { bp::assign(o2, v); }); check_pieces(o2, m, "polygons of an expression read again after a failure"); }
        else check_pieces(o, m, "polygons of an expression");
        break; }
      case 2: { double a = value<double>([&] { return (double)bp::area(v); }, "view_failed"); observe((u64)a); if (!area_ok(a, m)) violation("wrong-area", fmt("area of an expression is %.1f, the history says %.1f", a, (double)((long double)G.area4(m) * G.U * G.U / 4))); break; }
      case 3: {
        Set* c = 0; Outcome r = armed([&] { c = new Set(v); });
        if (r == FAILED) { probe("view_failed"); lib([&] { c = new Set(v); }); }
        full_read(*c, m, extra); lib([&] { delete c; }); break; }
      case 4: {
        Set* c = 0; lib([&] { c = NEWSET(extra); });
        Outcome r = armed([&] { bp::assign(*c, v); });
        if (r == FAILED) { probe("view_failed"); lib([&] { bp::assign(*c, v); }); }
        full_read(*c, m, extra); lib([&] { delete c; }); break; }
    }
  }
  // unarmed complete check of an object
  void full_read(Set& s, const Reg& m, long v) {
    if (posmod(v, 3) != 1) canon_check(s, m, v);
    { std::vector<PMH> o; lib([&] { s.get(o); }); check_pieces(o, m, "get"); }
    { double a = 0; lib([&] { a = (double)bp::area(s); }); if (!area_ok(a, m)) violation("wrong-area", fmt("area is %.1f, the history says %.1f", a, (double)((long double)G.area4(m) * G.U * G.U / 4))); }
    if (v & 1) {
#if FAM == 0
      std::vector<Rect> o; lib([&] { bp::get_rectangles(o, s, ori(v >> 1)); }); check_pieces(o, m, "get_rectangles");
#else
      std::vector<PM> o; lib([&] { bp::get_trapezoids(o, s, ori(v >> 1)); }); check_pieces(o, m, "get_trapezoids");
#endif
    }
    { Rect r; bool h = false; lib([&] { h = s.extents(r); }); check_ext(h, r, m, "extents"); }
  }
  // check a copy, so that the lazy state of the object itself is left alone
  void check_copy(Slot& s, long v) { Set* c = 0; lib([&] { c = new Set(*s.s); }); full_read(*c, s.m, v); lib([&] { delete c; }); }

  // -------------------------------------------------------------- mutating
  template <typename Fn> bool mutate(Slot& d, const Reg& after, Fn f) {
    Outcome o = armed(f);
    if (o == FAILED) { probe("mutation_failed"); d.bad = true; return false; }
    d.m = after; return true;
  }
  // a set must behave like a fresh one made of its own pieces, whatever produced it
  void consistent(Set& c, const char* what) {
    std::vector<PMH> v; lib([&] { c.get(v); }); Tally t; for (const PMH& p : v) t.add(p); check_tally_shape(t, what);
    double a = 0; lib([&] { a = (double)bp::area(c); });
    if (2 * (long double)a != (long double)t.area2) violation("wrong-area", fmt("%s: area %.1f, pieces add up to %.1f", what, a, (double)t.area2 / 2));
    Set f; bool eq = false; lib([&] { f.insert(v.begin(), v.end()); f.clean(); eq = f == c; });
    if (!eq) violation("wrong-equality", fmt("%s: the object compares unequal to a set built from its own pieces", what));
    bool e = false, h = false; Rect r; lib([&] { e = c.empty(); h = c.extents(r); });
    if (e != v.empty() || h == v.empty()) violation("wrong-empty", fmt("%s: empty() or extents() disagrees with the pieces", what));
    if (h && (bp::xl(r) != t.bb[0] || bp::yl(r) != t.bb[1] || bp::xh(r) != t.bb[2] || bp::yh(r) != t.bb[3])) violation("wrong-extents", fmt("%s: extents disagree with the pieces", what));
  }
  static void check_tally_shape(const Tally& t, const char* what) { if (!t.bad.empty()) violation("malformed-output", std::string(what) + ": " + t.bad); }
  // Scaling that loses precision: away from every edge the scaled set covers what the original covered.
  static double edge_dist(const std::vector<PMH>& v, double x, double y) {
    double best = 1e30;
    auto ring = [&](auto b, auto e) {
      std::vector<std::pair<long, long> > r; ring_of(b, e, r);
      for (size_t i = 0; i < r.size(); ++i) { const auto &p = r[i], &q = r[(i + 1) % r.size()]; double ux = q.first - p.first, uy = q.second - p.second, wx = x - p.first, wy = y - p.second, l = ux * ux + uy * uy, t = l > 0 ? (wx * ux + wy * uy) / l : 0; t = t < 0 ? 0 : t > 1 ? 1 : t; double ex = wx - t * ux, ey = wy - t * uy; best = std::min(best, std::sqrt(ex * ex + ey * ey)); }
    };
    for (const PMH& p : v) { ring(bp::begin_points(p), bp::end_points(p)); for (auto h = bp::begin_holes(p); h != bp::end_holes(p); ++h) ring(bp::begin_points(*h), bp::end_points(*h)); }
    return best;
  }
  void lossy_scale(Slot& d, long a, long route, long seed) {
    sim::Rng rng(sim::mix((u64)seed * 977 + (u64)a)); long U = G.U; double fx, fy; long k = 0;
    route = posmod(route, 5);
    long pick = posmod(a, 4), ks = pick == 0 ? rng.range(2, 12) : pick == 1 ? std::max(2L, U / (1 + (long)rng.below(40))) : pick == 2 ? rng.range(2, std::max(3L, U * 3)) : std::max(2L, U + rng.range(-3, 3));
    double f = rng.chance(1, 2) ? 1.0 / ks : rng.chance(1, 2) ? (double)rng.range(1, 1000) / 1000 : 1.0 / 3;
    if (route < 2) { k = ks; fx = fy = 1.0 / k; } else { fx = fy = f; }
    double gx = f, gy = rng.chance(1, 2) ? f : (double)rng.range(1, 1400) / 1000;
    long lim = std::max(labs(G.ox) + G.N * U, labs(G.oy) + G.N * U); if (lim > 700000000L) gy = f;
    Set* c = 0;
    Outcome o = armed([&] { c = new Set(*d.s);
      switch (route) {
        case 0: c->scale_down(k); break;
        case 1: bp::scale_down(*c, k); break;
#if FAM == 0
        case 2: c->scale(f); break;
        case 3: c->scale(bp::anisotropic_scale_factor<double>(gx, gy)); break;
        case 4: bp::scale(*c, bp::anisotropic_scale_factor<double>(gx, gy)); break;
#elif FAM == 1
        case 2: case 3: c->scale(f); break;
        case 4: bp::scale(*c, f); break;
#else
        default: c->scale(bp::anisotropic_scale_factor<double>(gx, gy)); break;
#endif
      }
    });
    if (o == FAILED) { probe("mutation_failed"); if (c) lib([&] { c->clear(); delete c; }); return; }
    if (FAM != F45 && route > 2 - (FAM == FGEN)) { fx = gx; fy = gy; }
    std::vector<PMH> before, after; lib([&] { Set b(*d.s); b.get(before); }); check_pieces(before, d.m, "pieces before scaling");
    if (FAM != FGEN) consistent(*c, "after scaling");
    lib([&] { c->get(after); });
    if (rng.chance(1, 2)) {   // the scaled set in use
      std::vector<PMH> w; Set z; lib([&] { z = *c + *c; z.get(w); }); bool e = false; lib([&] { z = *c - *c; e = z.empty(); }); if (!e) violation("wrong-region", "a scaled set minus itself is not empty");
      Tally t1, t2; for (const PMH& p : after) t1.add(p); for (const PMH& p : w) t2.add(p);
      if (FAM != FGEN && t1.area2 != t2.area2) violation("wrong-region", "a scaled set united with itself changed");
    }
    lib([&] { delete c; });
    double tol = FAM == FGEN ? 5 : FAM == F45 ? 5 : 2; long nin = 0, nout = 0, N = G.N;
    for (int t = 0; t < 60; ++t) {
      double x = G.ox + (double)rng.range(-U, (N + 1) * U) + 0.5, y = G.oy + (double)rng.range(-U, (N + 1) * U) + 0.25;
      if (rng.chance(1, 2)) { const auto& q = G.samp[rng.below(G.M())]; x = q.x2 / 2.0; y = q.y2 / 2.0; }
      if (edge_dist(before, x, y) * std::min(fx, fy) < tol) continue;
      int want = cover_at(before, (long)std::floor(x), (long)std::floor(y)), got = cover_at(after, (long)std::floor(x * fx), (long)std::floor(y * fy));
      if (want != got) violation("wrong-region", fmt("scaling by (%g,%g), route %ld: the point (%.2f,%.2f) is covered %d time(s) before and %d after", fx, fy, route, x, y, want, got));
      (want ? nin : nout)++;
    }
    probe("lossy_scaled"); if (nin) probe("lossy_scaled_in", nin); if (nout) probe("lossy_scaled_out", nout);
  }
#define BYOP(op, CALL) switch (op) { case 0: { CALL(|) } break; case 1: { CALL(+) } break; case 2: { CALL(&) } break; case 3: { CALL(*) } break; case 4: { CALL(^) } break; default: { CALL(-) } break; }

  void exec(const OpLine& op) {
    const std::string& n = op.name;
    if (n == "new") {
      Slot& d = raw(op.arg(0)); lib([&] { delete d.s; d.s = 0; });
      Outcome o = armed([&] { d.s = NEWSET(op.arg(1)); });
      if (o == FAILED) lib([&] { d.s = NEWSET(op.arg(1)); });
      d.m = Reg(G.M()); d.bad = false;
    } else if (n == "ins") {
      Slot& d = dst(op.arg(0)); long route = posmod(op.arg(1), 8), cls = op.arg(2); Shape sh = shape(op, 3); Reg m = G.of_shape(sh);
      with_geom(sh, cls, [&](auto& g) {
        switch (route) {
          case 0: case 1: mutate(d, rop(d.m, m, 0), [&] { d.s->insert(g); }); break;
          case 2: mutate(d, rop(d.m, m, 0), [&] { *d.s += g; }); break;
          case 3: mutate(d, rop(d.m, m, 0), [&] { *d.s |= g; }); break;
          case 4: mutate(d, m, [&] { *d.s = g; }); break;
          case 5: mutate(d, m, [&] { bp::assign(*d.s, g); }); break;
          case 6: { bool was = d.m.any(); (void)was; mutate(d, rop(d.m, m, 0), [&] { *d.s = *d.s + g; }); break; }
          case 7: mutate(d, rop(d.m, m, 0), [&] { d.s->insert(&g, &g + 1); }); break;
        }
      });
    } else if (n == "insn") {
      Slot& d = dst(op.arg(0)); int k = nshapes(op, 2); std::vector<PMH> v; Reg m = d.m; std::vector<Rect> rv; bool rects = op.arg(1) & 1;
      for (int i = 0; i < k; ++i) {
        Shape sh = shape(op, 2 + 6 * i);
        if (rects) { if (!is_rect(sh)) { Shape q; long a[6] = {0, op.arg(3 + 6 * i, 1), op.arg(4 + 6 * i, 1), op.arg(5 + 6 * i, 1), op.arg(6 + 6 * i, 1), 0}; sh = decode_shape(G, a, true); } rv.push_back(rect_of(sh)); }
        else v.push_back(own_geom(sh));
        m = rop(m, G.of_shape(sh), 0);
      }
      if (rects) mutate(d, m, [&] { d.s->insert(in_iter(rv.begin()), in_iter(rv.end())); });
      else mutate(d, m, [&] { d.s->insert(in_iter(v.begin()), in_iter(v.end())); });
    } else if (n == "bulk") {   // many small shapes at once
      Slot& d = dst(op.arg(0)); std::vector<Shape> sh; bulk_shapes(sh, op.arg(1), op.arg(2)); Reg m = d.m; std::vector<PMH> v;
      for (const Shape& q : sh) { m = rop(m, G.of_shape(q), 0); v.push_back(own_geom(q)); }
      probe("bulk_shapes", (long)v.size());
      switch (posmod(op.arg(2), 3)) {
        case 0: mutate(d, m, [&] { d.s->insert(v.begin(), v.end()); }); break;
        case 1: mutate(d, m, [&] { for (const PMH& p : v) d.s->insert(p); }); break;
        case 2: mutate(d, m, [&] { *d.s |= v; }); break;
      }
    } else if (n == "junk") {   // geometry that encloses nothing
      Slot& d = dst(op.arg(0)); long x = posmod(op.arg(2), G.N + 1), y = posmod(op.arg(3), G.N + 1), x2 = posmod(op.arg(4), G.N + 1), y2 = posmod(op.arg(5), G.N + 1); bool hole = (op.arg(1) / 16) & 1;
      P a = ap(Pt{x, y}), b = ap(Pt{x2, y}), c = ap(Pt{x, y2}); std::vector<P> v; PM p; probe("junk");
      switch (posmod(op.arg(1), 8)) {
        case 0: break;
        case 1: v.push_back(a); break;
        case 2: v.push_back(a); v.push_back(a); v.push_back(a); v.push_back(a); break;
        case 3: v.push_back(a); v.push_back(b); v.push_back(a); v.push_back(b); break;
        case 4: v.push_back(a); v.push_back(c); v.push_back(a); break;
        case 5: { Rect r(a.x(), a.y(), b.x(), a.y()); mutate(d, d.m, [&] { d.s->insert(r, hole); }); return; }
        case 6: { Rect r(a.x(), a.y(), a.x(), c.y()); mutate(d, d.m, [&] { d.s->insert(r, hole); }); return; }
        case 7: v.push_back(a); v.push_back(b); v.push_back(ap(Pt{x2, y2})); v.push_back(b); break;
      }
      if (!v.empty()) bp::set_points(p, v.begin(), v.end());
      if (op.arg(1) & 8) { PMH q; if (!v.empty()) bp::set_points(q, v.begin(), v.end()); mutate(d, d.m, [&] { d.s->insert(q, hole); }); }
      else mutate(d, d.m, [&] { d.s->insert(p, hole); });
    } else if (n == "insh") {
      Slot& d = dst(op.arg(0)); Shape sh = shape(op, 2); Reg m = rop(d.m, G.of_shape(sh), 5);
      lib([&] { d.s->clean(); });
      with_geom(sh, op.arg(1), [&](auto& g) { mutate(d, m, [&] { d.s->insert(g, true); d.s->clean(); }); });
    } else if (n == "insset") {
      Slot& d = dst(op.arg(0)); Slot& s = src(op.arg(1)); if (&d == &s) return;
      mutate(d, rop(d.m, s.m, 0), [&] { d.s->insert(*s.s); });
    } else if (n == "bopa") {
      Slot& d = dst(op.arg(0)); Slot& s = src(op.arg(2)); int o = (int)posmod(op.arg(1), 6); Reg m = rop(d.m, s.m, o);
      if (&d == &s) probe("aliased_compound");
#define CALL_(X) mutate(d, m, [&] { *d.s X##= *s.s; });
#define CALL(X) CALL_(X)
      BYOP(o, CALL)
#undef CALL
    } else if (n == "bop") {
      Slot& d = dst(op.arg(0)); Slot& a = src(op.arg(1)); Slot& b = src(op.arg(2)); int o = (int)posmod(op.arg(3), 6); long route = posmod(op.arg(4), 4); Reg m = rop(a.m, b.m, o);
#define CALL(X) switch (route) { case 0: mutate(d, m, [&] { *d.s = *a.s X *b.s; }); break; case 1: mutate(d, m, [&] { Set t(*a.s X *b.s); *d.s = t; }); break; \
        case 2: mutate(d, m, [&] { bp::assign(*d.s, *a.s X *b.s); }); break; default: if (&d == &a || &d == &b) mutate(d, m, [&] { *d.s = *a.s X *b.s; }); else mutate(d, m, [&] { d.s->clear(); *d.s += *a.s X *b.s; }); break; }
      BYOP(o, CALL)
#undef CALL
      if (&d == &a || &d == &b) probe("aliased_assign");
    } else if (n == "bop3") {
      Slot& d = dst(op.arg(0)); Slot& a = src(op.arg(1)); Slot& b = src(op.arg(2)); Slot& c = src(op.arg(3)); int o1 = (int)posmod(op.arg(4), 6); long sh = posmod(op.arg(5), 6);
      Reg m;
      switch (sh) {   // a selection of nested shapes; the inner operator ranges over all
        case 0: m = rop(rop(a.m, b.m, o1), c.m, 0); break; case 1: m = rop(rop(a.m, b.m, o1), c.m, 5); break; case 2: m = rop(rop(a.m, b.m, o1), c.m, 2); break;
        case 3: m = rop(c.m, rop(a.m, b.m, o1), 5); break; case 4: m = rop(c.m, rop(a.m, b.m, o1), 4); break; default: m = rop(rop(a.m, b.m, o1), rop(b.m, c.m, 5), 2); break;
      }
#define CALL(X) switch (sh) { case 0: mutate(d, m, [&] { *d.s = (*a.s X *b.s) | *c.s; }); break; case 1: mutate(d, m, [&] { *d.s = (*a.s X *b.s) - *c.s; }); break; case 2: mutate(d, m, [&] { *d.s = (*a.s X *b.s) & *c.s; }); break; \
        case 3: mutate(d, m, [&] { *d.s = *c.s - (*a.s X *b.s); }); break; case 4: mutate(d, m, [&] { *d.s = *c.s ^ (*a.s X *b.s); }); break; default: mutate(d, m, [&] { *d.s = (*a.s X *b.s) & (*b.s - *c.s); }); break; }
      BYOP(o1, CALL)
#undef CALL
    } else if (n == "bopg") {
      Slot& d = dst(op.arg(0)); Slot& a = src(op.arg(1)); int o = (int)posmod(op.arg(2), 6); long side = posmod(op.arg(3), 3); Shape sh = shape(op, 5); Reg g0 = G.of_shape(sh);
      Reg m = side == 0 ? rop(d.m, g0, o) : side == 1 ? rop(a.m, g0, o) : rop(g0, a.m, o);
      auto run = [&](auto& g) {
#define CALL(X) if (side == 0) mutate(d, m, [&] { *d.s X##= g; }); else if (side == 1) mutate(d, m, [&] { *d.s = *a.s X g; }); else mutate(d, m, [&] { *d.s = g X *a.s; });
        BYOP(o, CALL)
#undef CALL
      };
      if (sh.manh && is_rect(sh) && (op.arg(4) & 1)) { Rect g = rect_of(sh); run(g); }
      else { PMH g = own_geom(sh); run(g); }
    } else if (n == "bopv") {
      // operands given as containers of (possibly overlapping) polygons
      Slot& d = dst(op.arg(0)); Slot& a = src(op.arg(1)); int o = (int)posmod(op.arg(2), 6); long side = posmod(op.arg(3), 3); int k = nshapes(op, 4);
      std::vector<PMH> v; Reg g0(G.M()); for (int i = 0; i < k; ++i) { Shape sh = shape(op, 4 + 6 * i); v.push_back(own_geom(sh)); g0 = rop(g0, G.of_shape(sh), 0); }
      Reg m = side == 0 ? rop(d.m, g0, o) : side == 1 ? rop(a.m, g0, o) : rop(g0, a.m, o);
#define CALL(X) if (side == 0) mutate(d, m, [&] { *d.s X##= v; }); else if (side == 1) mutate(d, m, [&] { *d.s = *a.s X v; }); else mutate(d, m, [&] { *d.s = v X *a.s; });
      BYOP(o, CALL)
#undef CALL
    } else if (n == "copy") {
      Slot& d = dst(op.arg(0)); Slot& s = src(op.arg(1));
      switch (posmod(op.arg(2), 8)) {
        case 0: mutate(d, s.m, [&] { *d.s = *s.s; }); break;
        case 1: { Set* t = 0; Outcome r = armed([&] { t = new Set(*s.s); }); if (r == OK) { std::swap(d.s, t); d.m = s.m; lib([&] { delete t; }); } break; }
#if FAM == 0
        case 2: if (&d != &s) mutate(d, s.m, [&] { d.s->set(s.s->begin(), s.s->end(), s.s->orient()); }); break;
        case 3: mutate(d, s.m, [&] { d.s->set(s.s->value(), s.s->orient()); }); break;
        case 5: { Set* t = 0; Outcome r = armed([&] { t = new Set(ori(op.arg(3))); t->insert(*s.s); }); if (r == OK) { std::swap(d.s, t); d.m = s.m; } lib([&] { delete t; }); break; }
#else
        case 2: if (&d != &s) mutate(d, s.m, [&] { d.s->set(s.s->begin(), s.s->end()); }); break;
        case 3: mutate(d, s.m, [&] { d.s->set(s.s->value()); }); break;
        case 5: if (&d != &s) mutate(d, s.m, [&] { bp::clear(*d.s); d.s->insert(s.s->begin(), s.s->end()); }); break;
#endif
        case 4: if (&d != &s) mutate(d, s.m, [&] { bp::assign(*d.s, *s.s); }); break;
        case 6: case 7: {   // construction from geometry: what was read from the other set
          long k = posmod(op.arg(2), 8); std::vector<PMH> v; Set* t = 0; Reg m = s.m;
          Outcome r = armed([&] {
#if FAM == 0
            if (k == 6) { t = new Set(ori(op.arg(3)), *s.s); return; }
            s.s->get(v); t = new Set(ori(op.arg(3)), v.begin(), v.end());
#else
            s.s->get(v);
#if FAM == 1
            if (k == 6 && v.size() == 1) t = new Set(v[0]);
#else
            if (k == 6) t = new Set(v.begin(), v.end());
#endif
            else { t = new Set(); t->insert(v.begin(), v.end()); }
#endif
          });
          if (r == OK) {
#if FAM == 0
            if (t->orient() != ori(op.arg(3))) violation("wrong-orientation", "a set constructed with an orientation has another one");
#endif
            std::swap(d.s, t); d.m = m; probe("constructed");
          }
          lib([&] { delete t; }); break; }
      }
    } else if (n == "clear") {
      Slot& d = raw(op.arg(0));
      if (op.arg(1) & 1) { if (!d.bad || true) { Outcome o = armed([&] { bp::clear(*d.s); }); if (o == FAILED) { lib([&] { d.s->clear(); }); } } } else lib([&] { d.s->clear(); });
      d.m = Reg(G.M()); d.bad = false;
    } else if (n == "xform") {
      Slot& d = dst(op.arg(0)); int t = (int)posmod(op.arg(1), 8);
      // translate the grid centre to the origin, apply the symmetry, translate back.  With an odd doubled centre use a reflection-compatible shift.
      xform(d, t, op.arg(2));
    } else if (n == "move") {
      Slot& d = dst(op.arg(0)); long e[4]; if (!G.cellbox(d.m, e)) { e[0] = e[1] = 0; e[2] = e[3] = G.N - 1; }
      long dx = posmod(op.arg(1), e[0] + G.N - e[2]) - e[0], dy = posmod(op.arg(2), e[1] + G.N - e[3]) - e[1];
      move(d, dx * G.U, dy * G.U, G.shift(d.m, dx, dy), op.arg(3));
    } else if (n == "scale") {
      Slot& d = dst(op.arg(0)); scale(d, op.arg(1), op.arg(2));
    } else if (n == "lscale") {
      lossy_scale(dst(op.arg(0)), op.arg(1), op.arg(2), op.arg(3));
    } else if (n == "self") {
      // self operations act on raw multiplicity: fresh object, several shapes, then the operation
      Slot& d = dst(op.arg(0)); long kind = posmod(op.arg(1), 2); int k = nshapes(op, 3);
      std::vector<PMH> v; std::vector<int> cnt(G.M(), 0);
      for (int i = 0; i < k; ++i) { Shape sh = shape(op, 3 + 6 * i); v.push_back(own_geom(sh)); Reg r = G.of_shape(sh); for (size_t q = 0; q < G.M(); ++q) cnt[q] += r.b[q]; }
      Reg m(G.M()); for (size_t q = 0; q < G.M(); ++q) m.b[q] = kind == 0 ? (cnt[q] & 1) : cnt[q] >= 2;
      self_op(d, v, m, kind, op.arg(2));
    } else if (n == "size") {
      size_op(op);
    } else if (n == "filter") {
      filter_op(op);
    } else if (n == "mixed") {
      mixed_op(op);
    }
    // ---------------------------------------------------------- readers
    else if (n == "rpoly") { Slot& s = src(op.arg(0)); read_poly(*s.s, s.m, op.arg(1), op.arg(2), op.arg(3)); after_fault(s); }
    else if (n == "rval") { Slot& s = src(op.arg(0)); read_value(*s.s, s.m, op.arg(1)); after_fault(s); }
    else if (n == "req") { Slot& a = src(op.arg(0)); Slot& b = src(op.arg(1)); read_eq(a, b, op.arg(2)); after_fault(a); after_fault(b); }
    else if (n == "rview") {
      Slot& a = src(op.arg(0)); Slot& b = src(op.arg(1)); int o = (int)posmod(op.arg(2), 6); Reg m = rop(a.m, b.m, o);
      long k = op.arg(3), v = op.arg(4), e = op.arg(5);
      // readers take the view through one of four operator types ( | and + , & and * build the same type )
      switch (o) {
        case 0: case 1: { auto w = *a.s | *b.s; read_view(w, m, k, v, e); break; }
        case 2: case 3: { auto w = *a.s & *b.s; read_view(w, m, k, v, e); break; }
        case 4: { auto w = *a.s ^ *b.s; read_view(w, m, k, v, e); break; }
        default: { auto w = *a.s - *b.s; read_view(w, m, k, v, e); break; }
      }
      after_fault(a); after_fault(b);
    }
    else if (n == "rclean") { Slot& s = src(op.arg(0)); int k = (int)posmod(op.arg(1), 3);
      auto f = [&] { const Set& c = *s.s; if (k == 0) c.clean(); else if (k == 1) c.sort(); else bp::clean(c); };
      if (armed(f) == FAILED) { probe("clean_failed"); if (op.arg(2) & 1) lib(f); }
      after_fault(s); }
    else if (n == "rcopy") { Slot& s = src(op.arg(0)); Set* c = 0; Outcome r = armed([&] { c = new Set(*s.s); }); if (r == OK) { full_read(*c, s.m, op.arg(1)); lib([&] { delete c; }); } }
    else if (n == "chk") { Slot& s = src(op.arg(0)); check_copy(s, op.arg(1)); }
  }
  void after_fault(Slot& s) { if (fault_fired()) check_copy(s, current_op().arg(1)); }

  // ---------------------------------------------------------------- family specific
  void xform(Slot& d, int t, long route) {
    long cx2 = 2 * G.ox + G.N * G.U, cy2 = 2 * G.oy + G.N * G.U;   // N is even, so these are even
    I cx = (I)(cx2 / 2), cy = (I)(cy2 / 2);
    static const bp::axis_transformation::ATR tab[8] = {
      bp::axis_transformation::NULL_TRANSFORM, bp::axis_transformation::FLIP_X, bp::axis_transformation::FLIP_Y, bp::axis_transformation::FLIP_XY,
      bp::axis_transformation::SWAP_XY, bp::axis_transformation::ROTATE_LEFT, bp::axis_transformation::ROTATE_RIGHT, bp::axis_transformation::FLIP_SWAP_XY };
    bp::axis_transformation at(tab[t]);
    // learn what the named transformation does to points from its documented action on one point
    long sx = 3, sy = 5; { I x = 3, y = 5; at.transform(x, y); sx = x; sy = y; }
    int k = -1; for (int q = 0; q < 8; ++q) { long a, b; Grid::sym(q, 3, 5, a, b); if (a == sx && b == sy) k = q; }
    Reg m = G.symm(d.m, k);
    Outcome o = armed([&] {
      mv(*d.s, -cx, -cy); 
      if (route & 1) bp::transform(*d.s, at); else d.s->transform(at);
      mv(*d.s, cx, cy);
    });
    if (o == FAILED) { probe("mutation_failed"); d.bad = true; } else d.m = m;
  }
#if FAM == 0
  static void mv(Set& s, I x, I y) { s.move(x, y); }
  void move(Slot& d, long dx, long dy, const Reg& m, long route) {
    switch (posmod(route, 3)) {
      case 0: mutate(d, m, [&] { d.s->move((I)dx, (I)dy); }); break;
      case 1: mutate(d, m, [&] { bp::move(*d.s, (I)dx, (I)dy); }); break;
      case 2: mutate(d, m, [&] { bp::move(*d.s, ori(0), (I)dx); bp::move(*d.s, ori(1), (I)dy); }); break;
    }
  }
  void scale(Slot& d, long k, long route) {
    k = 2 + posmod(k, 3);
    long lim = std::max(labs(G.ox) + G.N * G.U, labs(G.oy) + G.N * G.U); if (lim * k > 1000000000L) return;
    switch (posmod(route, 4)) {
      case 0: mutate(d, d.m, [&] { d.s->scale_up(k); d.s->scale_down(k); }); break;
      case 1: mutate(d, d.m, [&] { bp::scale_up(*d.s, k); bp::scale_down(*d.s, k); }); break;
      case 2: mutate(d, d.m, [&] { d.s->scale((double)k); d.s->scale_down(k); }); break;
      case 3: mutate(d, d.m, [&] { d.s->scale_up(k); bp::scale(*d.s, bp::anisotropic_scale_factor<double>(1.0 / k, 1.0 / k)); }); break;
    }
  }
  void self_op(Slot& d, std::vector<PMH>& v, const Reg& m, long kind, long route) {
    mutate(d, m, [&] {
      d.s->clear(); d.s->insert(v.begin(), v.end());
      if (route & 1) { if (kind == 0) bp::self_xor(*d.s); else bp::self_intersect(*d.s); }
      else { if (kind == 0) d.s->self_xor(); else d.s->self_intersect(); }
    });
  }
  // amounts clamped so that the result stays on the grid
  void size_op(const OpLine& op) {
    Slot& d = dst(op.arg(0)); long kind = posmod(op.arg(1), 11); long e[4];
    if (!G.cellbox(d.m, e)) { e[0] = e[1] = 0; e[2] = e[3] = G.N - 1; }
    long room[4] = {e[0], G.N - 1 - e[2], e[1], G.N - 1 - e[3]};   // W E S N
    long a[4]; for (int i = 0; i < 4; ++i) a[i] = posmod(op.arg(2 + i, 0), 4);
    long mn = std::min(std::min(room[0], room[1]), std::min(room[2], room[3]));
    auto clampall = [&] { for (int i = 0; i < 4; ++i) a[i] = std::min(a[i], room[i]); };
    long U = G.U; Set& s = *d.s;
    switch (kind) {
      case 0: clampall(); mutate(d, G.dilate(d.m, a[0], a[1], a[2], a[3]), [&] { s.bloat(a[0] * U, a[1] * U, a[2] * U, a[3] * U); }); break;
      case 1: clampall(); mutate(d, G.dilate(d.m, a[0], a[1], a[2], a[3]), [&] { bp::bloat(s, a[0] * U, a[1] * U, a[2] * U, a[3] * U); }); break;
      case 2: clampall(); mutate(d, G.dilate(d.m, a[0], a[1], a[2], a[3]), [&] { s.bloat2(a[0] * U, a[1] * U, a[2] * U, a[3] * U); }); break;
      case 3: if (G.corner_touch(d.m)) return; mutate(d, G.erode(d.m, a[0], a[1], a[2], a[3]), [&] { s.shrink(a[0] * U, a[1] * U, a[2] * U, a[3] * U); }); break;
      case 4: if (G.corner_touch(d.m)) return; mutate(d, G.erode(d.m, a[0], a[1], a[2], a[3]), [&] { bp::shrink(s, a[0] * U, a[1] * U, a[2] * U, a[3] * U); }); break;
      case 5: mutate(d, G.erode(d.m, a[0], a[1], a[2], a[3]), [&] { s.shrink2(a[0] * U, a[1] * U, a[2] * U, a[3] * U); }); break;
      case 6: { long k = std::min(a[0], mn); if (op.arg(4) & 1) { if (op.arg(3) & 1) mutate(d, G.dilate(d.m, k, k, k, k), [&] { Set t(s + (I)(k * U)); s = t; }); else { if (G.corner_touch(d.m)) return; mutate(d, G.erode(d.m, k, k, k, k), [&] { Set t(s - (I)(k * U)); s = t; }); } }
        else if (op.arg(3) & 1) mutate(d, G.dilate(d.m, k, k, k, k), [&] { s += (I)(k * U); }); else { if (G.corner_touch(d.m)) return; mutate(d, G.erode(d.m, k, k, k, k), [&] { s -= (I)(k * U); }); } break; }
      case 7: { long k = std::min(a[0], mn); if (op.arg(3) & 1) mutate(d, G.dilate(d.m, k, k, k, k), [&] { bp::resize(s, (I)(k * U)); }); else { if (G.corner_touch(d.m)) return; mutate(d, G.erode(d.m, k, k, k, k), [&] { bp::resize(s, (I)(-k * U)); }); } break; }
      case 8: { // one direction
        int dir = (int)posmod(op.arg(3), 4); bool up = op.arg(4) & 1; long k = a[0]; long q[4] = {0, 0, 0, 0}; if (up) k = std::min(k, room[dir]); q[dir] = k;
        bp::direction_2d dd[4] = {bp::WEST, bp::EAST, bp::SOUTH, bp::NORTH};
        if (!up && G.corner_touch(d.m)) return;
        Reg m = up ? G.dilate(d.m, q[0], q[1], q[2], q[3]) : G.erode(d.m, q[0], q[1], q[2], q[3]);
        mutate(d, m, [&] { if (up) { if (op.arg(5) & 1) bp::bloat(s, dd[dir], k * U); else s.bloat(dd[dir], k * U); } else { if (op.arg(5) & 1) bp::shrink(s, dd[dir], k * U); else s.shrink(dd[dir], k * U); } });
        break; }
      case 9: { // member resize with signs, all growing or all shrinking
        bool up = op.arg(6, 0) & 1; if (up) clampall(); else if (G.corner_touch(d.m)) return;
        Reg m = up ? G.dilate(d.m, a[0], a[1], a[2], a[3]) : G.erode(d.m, a[0], a[1], a[2], a[3]); long sg = up ? U : -U;
        mutate(d, m, [&] { s.resize((I)(sg * a[0]), (I)(sg * a[1]), (I)(sg * a[2]), (I)(sg * a[3])); });
        break; }
      case 10: { // orientation
        int o = (int)(op.arg(3) & 1); long k = std::min(a[0], std::min(room[2 * o], room[2 * o + 1])); long q[4] = {0, 0, 0, 0}; q[2 * o] = q[2 * o + 1] = k;
        if (op.arg(4) & 1) mutate(d, G.dilate(d.m, q[0], q[1], q[2], q[3]), [&] { bp::bloat(s, ori(o), k * U); });
        else { if (G.corner_touch(d.m)) return; mutate(d, G.erode(d.m, q[0], q[1], q[2], q[3]), [&] { bp::shrink(s, ori(o), k * U); }); }
        break; }
    }
  }
  void filter_op(const OpLine& op) {
    Slot& d = dst(op.arg(0)); long kind = posmod(op.arg(1), 3);
    if (G.corner_touch(d.m)) return;   // which pieces belong together is not specified at corner contacts
    std::vector<int> lab; int nc = G.components(d.m, lab); int N = G.N;
    // components with holes that the library represents as one fractured polygon are one piece all the same
    if (kind == 0) {          // keep by area / width / height
      long lo_a = posmod(op.arg(2), 12), hi_a = lo_a + posmod(op.arg(3), 80), lo_w = posmod(op.arg(4), 4), hi_w = lo_w + posmod(op.arg(5), N), lo_h = posmod(op.arg(6), 4), hi_h = lo_h + posmod(op.arg(7), N);
      Reg m(G.M()); std::vector<bool> kp(nc);
      for (int c = 0; c < nc; ++c) {
        long x0 = N, x1 = -1, y0 = N, y1 = -1, ar = 0;
        for (int q = 0; q < N * N; ++q) if (lab[q] == c) { ++ar; x0 = std::min<long>(x0, q % N); x1 = std::max<long>(x1, q % N); y0 = std::min<long>(y0, q / N); y1 = std::max<long>(y1, q / N); }
        long w = x1 - x0 + 1, h = y1 - y0 + 1;
        kp[c] = w > lo_w && w <= hi_w && h > lo_h && h <= hi_h && ar >= lo_a && ar <= hi_a;
      }
      for (int q = 0; q < N * N; ++q) if (lab[q] >= 0 && kp[lab[q]]) m.b[q] = 1;
      u64 UU = (u64)G.U * G.U;
      mutate(d, m, [&] { bp::keep(*d.s, lo_a * UU, hi_a * UU, lo_w * G.U, hi_w * G.U, lo_h * G.U, hi_h * G.U); });
    } else if (kind == 1) {   // interact
      Slot& o = src(op.arg(2));
      if (&o == &d) return;
      Reg near4 = rop(rop(G.dilate(o.m, 1, 0, 0, 0), G.dilate(o.m, 0, 1, 0, 0), 0), rop(G.dilate(o.m, 0, 0, 1, 0), G.dilate(o.m, 0, 0, 0, 1), 0), 0), near8 = G.dilate(o.m, 1, 1, 1, 1);
      std::vector<int> st(nc, 0);
      for (int q = 0; q < N * N; ++q) if (lab[q] >= 0) { if (near8.b[q]) st[lab[q]] |= 1; if (near4.b[q]) st[lab[q]] |= 2; }
      Reg m(G.M()); bool amb = false;
      for (int c = 0; c < nc; ++c) if (st[c] == 1) amb = true;
      for (int q = 0; q < N * N; ++q) if (lab[q] >= 0 && st[lab[q]]) m.b[q] = 1;
      if (amb) probe("interact_corner");   // corner contact counts as touching
      mutate(d, m, [&] { if (op.arg(3) & 1) bp::interact(*d.s, *o.s); else d.s->interact(*o.s); });
    } else {                  // grow_and: pairwise overlaps of the grown pieces
      long k = posmod(op.arg(2), 3), e[4]; if (!G.cellbox(d.m, e)) return;
      k = std::min(k, std::min(std::min(e[0], N - 1 - e[2]), std::min(e[1], N - 1 - e[3])));
      std::vector<int> cnt(G.M(), 0);
      for (int c = 0; c < nc; ++c) { Reg r(G.M()); for (int q = 0; q < N * N; ++q) r.b[q] = lab[q] == c; r = G.dilate(r, k, k, k, k); for (size_t q = 0; q < G.M(); ++q) cnt[q] += r.b[q]; }
      Reg m(G.M()); for (size_t q = 0; q < G.M(); ++q) m.b[q] = cnt[q] >= 2;
      mutate(d, m, [&] { bp::grow_and(*d.s, k * G.U); });
    }
  }
  void mixed_op(const OpLine&) {}
#else
  static void mv(Set& s, I x, I y) { bp::transformation<I> t(P(-x, -y)); s.transform(t); }
  void move(Slot& d, long dx, long dy, const Reg& m, long route) {
    bp::transformation<I> t(P((I)-dx, (I)-dy));
    if (route & 1) mutate(d, m, [&] { d.s->transform(t); }); else mutate(d, m, [&] { bp::transform(*d.s, t); });
  }
  void scale(Slot& d, long k, long route) {
    k = 2 + posmod(k, 3);
    long lim = std::max(labs(G.ox) + G.N * G.U, labs(G.oy) + G.N * G.U); if (lim * k > 1000000000L) return;
    if (route & 1) mutate(d, d.m, [&] { bp::scale_up(*d.s, k); bp::scale_down(*d.s, k); });
    else mutate(d, d.m, [&] { d.s->scale_up(k); d.s->scale_down(k); });
  }
  void self_op(Slot& d, std::vector<PMH>& v, const Reg& m, long kind, long route) {
#if FAM == 1
    mutate(d, m, [&] {
      d.s->clear(); d.s->insert(v.begin(), v.end());
      if (route & 1) { if (kind == 0) bp::self_xor(*d.s); else bp::self_intersect(*d.s); }
      else { if (kind == 0) d.s->self_xor(); else d.s->self_intersect(); }
    });
#else
    (void)d; (void)v; (void)m; (void)kind; (void)route;
#endif
  }
#if FAM == 1
  static bp::RoundingOption rnd_opt(int r) { static const bp::RoundingOption t[5] = {bp::CLOSEST, bp::OVERSIZE, bp::UNDERSIZE, bp::SQRT2, bp::SQRT1OVER2}; return t[r]; }
  static bp::CornerOption cor_opt(int c) { static const bp::CornerOption t[3] = {bp::INTERSECTION, bp::ORTHOGONAL, bp::UNFILLED}; return t[c]; }
  static void do_size(Set& s, long k, int rnd, int cor, long route) {
    if (rnd == R_CLOSEST && cor == 0) switch (posmod(route, 7)) {
      case 0: s.resize((I)k); return; case 1: bp::resize(s, (I)k); return;
      case 2: s += (I)k; return; case 3: s -= (I)-k; return;
      case 4: if (k > 0) bp::bloat(s, k); else bp::shrink(s, -k); return;
      case 5: { Set t(s + (I)k); s = t; return; }
      case 6: { Set t(s - (I)-k); s = t; return; }
    }
    if (route & 1) s.resize((I)k, rnd_opt(rnd), cor_opt(cor)); else bp::resize(s, (I)k, rnd_opt(rnd), cor_opt(cor));
  }
  void size_op(const OpLine& op) {
    Slot& d = dst(op.arg(0)); if (!G.exact || vertex_contact(d.m)) return;
    bool grow = op.arg(1) & 1; int rnd = (int)posmod(op.arg(2), 5), cor = (int)posmod(op.arg(3), 3); long route = op.arg(4); long U = G.U;
    if (op.arg(5) & 1) { rnd = R_SQRT2; }
    if (!(op.arg(5) & 6) || U < 1000) {     // amounts that keep every vertex on the lattice: exact, and the object is really changed
      if (has_diagonals(d.m)) rnd = R_SQRT2;
      long e[4]; if (!G.cellbox(d.m, e)) { e[0] = e[1] = 0; e[2] = e[3] = G.N - 1; }
      long k = 1 + posmod(op.arg(6, 0), 2), room = std::min(std::min(e[0], G.N - 1 - e[2]), std::min(e[1], G.N - 1 - e[3]));
      if (grow) k = std::min(k, room); if (k == 0) return;
      SizeModel sm(d.m, grow, (double)(k * U), rnd, cor); Reg r;
      // corner fills may reach further than k
      if (grow) for (const Conv& c : sm.must) for (const V2& v : c.v) if (v.x < 0 || v.y < 0 || v.x > (double)G.N * U || v.y > (double)G.N * U) return;
      if (!sm.exact(r)) { probe("size45_ambiguous"); return; }
      probe("size45_exact"); if (rnd == R_SQRT2 && has_diagonals(d.m)) probe("size45_exact_diag");
      mutate(d, r, [&] { do_size(*d.s, grow ? k * U : -k * U, rnd, cor, route); });
      return;
    }
    sim::Rng rng(sim::mix((u64)op.arg(4) * 131 + (u64)op.arg(6, 0) * 7 + 3)); long k = rng.chance(1, 3) ? U / 2 * rng.range(1, 3) : rng.range(U / 8, U * 3 / 2);
    Set* c = 0; Outcome o = armed([&] { c = new Set(*d.s); do_size(*c, grow ? k : -k, rnd, cor, route); });
    if (o == FAILED) { probe("mutation_failed"); if (c) lib([&] { c->clear(); delete c; }); return; }
    consistent(*c, "after resize");
    std::vector<PMH> v; lib([&] { c->get(v); delete c; });
    SizeModel sm(d.m, grow, (double)k, rnd, cor); long e[4]; int din = 0, dout = 0; bool any = G.cellbox(d.m, e); if (!any) { e[0] = e[1] = 0; e[2] = e[3] = G.N - 1; }
    for (int t = 0; t < 160; ++t) {
      double x, y; const std::vector<Conv>& src = rng.chance(1, 2) ? sm.must : sm.may;
      if (src.empty() || rng.chance(1, 4)) { x = (double)rng.range(e[0] * U - 3 * k, (e[2] + 1) * U + 3 * k); y = (double)rng.range(e[1] * U - 3 * k, (e[3] + 1) * U + 3 * k); }
      else { const Conv& cv = src[rng.below(src.size())]; double s = 0; x = y = 0; for (const V2& q : cv.v) { double w = 1 + rng.below(100); s += w; x += w * q.x; y += w * q.y; } double f = rng.chance(1, 3) ? 1.3 : 1; V2 ce{0, 0}; for (const V2& q : cv.v) { ce.x += q.x / cv.v.size(); ce.y += q.y / cv.v.size(); } x = ce.x + f * (x / s - ce.x); y = ce.y + f * (y / s - ce.y); }
      long X = (long)std::floor(x), Y = (long)std::floor(y); int want = sm.decide(X + 0.5, Y + 0.25, 12);
      if (want < 0) continue;
      (want ? din : dout)++;
      int got = cover_at(v, G.ox + X, G.oy + Y);
      if (got != want) violation("wrong-region", fmt("resize by %ld (rounding %d, corners %d): the point (%ld.5,%ld.25) is covered %d time(s), the history says %d", grow ? k : -k, rnd, cor, G.ox + X, G.oy + Y, got, want));
    }
    probe("size45_sampled"); if (din) probe("size45_decided_in", din); if (dout) probe("size45_decided_out", dout);
  }
  void filter_op(const OpLine& op) {
    Slot& d = dst(op.arg(0)); if (!G.exact || vertex_contact(d.m)) return;
    long kind = posmod(op.arg(1), 3), N = G.N; std::vector<int> lab; int nc = comps45(d.m, lab);
    if (kind == 0) {          // keep by area / width / height, thresholds in half cells
      long lo_a = posmod(op.arg(2), 30), hi_a = lo_a + posmod(op.arg(3), 48) * 6, lo_w = posmod(op.arg(4), 6), hi_w = lo_w + posmod(op.arg(5), 2 * N), lo_h = posmod(op.arg(6), 6), hi_h = lo_h + posmod(op.arg(7), 2 * N);
      Reg m(G.M()); std::vector<bool> kp(nc); int kept = 0;
      for (int c = 0; c < nc; ++c) {
        long x0 = 4 * N, x1 = -1, y0 = 4 * N, y1 = -1, ar = 0;
        for (size_t q = 0; q < G.M(); ++q) if (lab[q] == c) { ++ar; const std::vector<long>& e = G.ext[q]; x0 = std::min(x0, e[0]); y0 = std::min(y0, e[1]); x1 = std::max(x1, e[2]); y1 = std::max(y1, e[3]); }
        long w = x1 - x0, h = y1 - y0;
        kp[c] = w > lo_w && w <= hi_w && h > lo_h && h <= hi_h && ar >= lo_a && ar <= hi_a; kept += kp[c];
      }
      for (size_t q = 0; q < G.M(); ++q) if (lab[q] >= 0 && kp[lab[q]]) m.b[q] = 1;
      double u4 = (double)G.U * G.U / 4; long h = G.U / 2; probe("keep45"); if (kept && kept < nc) probe("keep45_split");
      mutate(d, m, [&] { bp::keep(*d.s, lo_a * u4, hi_a * u4, lo_w * h, hi_w * h, lo_h * h, hi_h * h); });
    } else if (kind == 1) {   // interact: pieces that touch or overlap the other set stay
      Slot& o = src(op.arg(2)); if (&o == &d) return;
      bool n90 = (op.arg(3) & 3) == 3; Reg om = o.m; S90 s9;
      if (n90) { om = Reg(G.M()); for (int i = 0; i < 2; ++i) { long a[6]; for (int q = 0; q < 6; ++q) a[q] = op.arg(4 + i, 1) * (q + 3) + q; Shape sm = decode_shape(G, a, true); P90H q = holed_poly<P90H, P90>(sm); s9.insert(q); om = rop(om, G.of_shape(sm), 0); } }
      std::vector<bool> t; touching(d.m, lab, nc, om, t); Reg m(G.M()); int kept = 0;
      for (bool b : t) kept += b;
      for (size_t q = 0; q < G.M(); ++q) if (lab[q] >= 0 && t[lab[q]]) m.b[q] = 1;
      probe("interact45"); if (kept && kept < nc) probe("interact45_split");
      mutate(d, m, [&] { if (n90) bp::interact(*d.s, s9); else bp::interact(*d.s, *o.s); });
    } else {                  // grow_and: pairwise overlaps of the grown pieces
      bool diag = has_diagonals(d.m); if (nc == 0) return;
      sim::Rng rng(sim::mix((u64)op.arg(2) * 31 + 9)); long U = G.U; bool ex = !diag && ((op.arg(3) & 1) || U < 1000); if (diag && U < 1000) return;
      std::vector<Reg> part(nc, Reg(G.M())); for (size_t q = 0; q < G.M(); ++q) if (lab[q] >= 0) part[lab[q]].b[q] = 1;
      if (nc > 14) return;
      if (ex) {
        long e[4]; if (!G.cellbox(d.m, e)) return; long k = std::min(posmod(op.arg(2), 3), std::min(std::min(e[0], N - 1 - e[2]), std::min(e[1], N - 1 - e[3])));
        std::vector<int> cnt(G.M(), 0);
        for (int c = 0; c < nc; ++c) { Reg r; if (k == 0) r = part[c]; else if (!SizeModel(part[c], true, (double)(k * U), R_CLOSEST, 0).exact(r)) return; for (size_t q = 0; q < G.M(); ++q) cnt[q] += r.b[q]; }
        Reg m(G.M()); for (size_t q = 0; q < G.M(); ++q) m.b[q] = cnt[q] >= 2;
        probe("growand45"); mutate(d, m, [&] { bp::grow_and(*d.s, k * U); });
        return;
      }
      long k = rng.range(U / 8, U * 3 / 2); Set* c = 0;
      Outcome o = armed([&] { c = new Set(*d.s); bp::grow_and(*c, k); });
      if (o == FAILED) { probe("mutation_failed"); if (c) lib([&] { c->clear(); delete c; }); return; }
      consistent(*c, "after grow_and");
      std::vector<PMH> v; lib([&] { c->get(v); delete c; });
      std::vector<SizeModel*> sm; for (int q = 0; q < nc; ++q) sm.push_back(new SizeModel(part[q], true, (double)k, R_CLOSEST, 0));
      int din = 0;
      for (int t = 0; t < 80; ++t) {
        const std::vector<Conv>& src = sm[rng.below(nc)]->must; const Conv& cv = src[rng.below(src.size())]; double s = 0, x = 0, y = 0; for (const V2& q : cv.v) { double w = 1 + rng.below(100); s += w; x += w * q.x; y += w * q.y; }
        long X = (long)std::floor(x / s), Y = (long)std::floor(y / s); int lo = 0, hi = 0;
        for (SizeModel* z : sm) { int r = z->decide(X + 0.5, Y + 0.25, 12); lo += r == 1; hi += r != 0; }
        int want = lo >= 2 ? 1 : hi < 2 ? 0 : -1; if (want < 0) continue; din += want;
        int got = cover_at(v, G.ox + X, G.oy + Y);
        if (got != want) violation("wrong-region", fmt("grow_and by %ld: the point (%ld.5,%ld.25) is covered %d time(s), the history says %d", k, G.ox + X, G.oy + Y, got, want));
      }
      for (SizeModel* z : sm) delete z;
      probe("growand45_sampled"); if (din) probe("growand45_in", din);
    }
  }
#else
  void size_op(const OpLine&) {}
  // Pieces are taken from the library (and checked against the history); which of them a filter keeps is decided here.
  typedef std::vector<std::pair<long, long> > Pts;
  struct Piece { Pts out; std::vector<Pts> holes; Reg cov; i128 area2; long bb[4]; };
  static double seg_dist(const std::pair<long, long>& a, const std::pair<long, long>& b, const std::pair<long, long>& c, const std::pair<long, long>& d) {
    auto cr = [](const std::pair<long, long>& o, const std::pair<long, long>& p, const std::pair<long, long>& q) { i128 v = (i128)(p.first - o.first) * (q.second - o.second) - (i128)(p.second - o.second) * (q.first - o.first); return v > 0 ? 1 : v < 0 ? -1 : 0; };
    if (cr(a, b, c) * cr(a, b, d) < 0 && cr(c, d, a) * cr(c, d, b) < 0) return 0;
    auto pd = [](const std::pair<long, long>& p, const std::pair<long, long>& u, const std::pair<long, long>& v) {
      double ux = v.first - u.first, uy = v.second - u.second, wx = p.first - u.first, wy = p.second - u.second, l = ux * ux + uy * uy, t = l > 0 ? (wx * ux + wy * uy) / l : 0; t = t < 0 ? 0 : t > 1 ? 1 : t;
      double ex = wx - t * ux, ey = wy - t * uy; return std::sqrt(ex * ex + ey * ey); };
    return std::min(std::min(pd(a, c, d), pd(b, c, d)), std::min(pd(c, a, b), pd(d, a, b)));
  }
  static void rings_of(const Piece& p, std::vector<const Pts*>& r) { r.push_back(&p.out); for (const Pts& h : p.holes) r.push_back(&h); }
  bool pieces_of(const Set& s, const Reg& m, std::vector<Piece>& v) {
    std::vector<PMH> o; lib([&] { Set c(s); c.get(o); }); check_pieces(o, m, "pieces before a filter");
    for (const PMH& p : o) {
      Piece q; Tally t; t.add(p); q.cov = Reg(G.M()); for (size_t i = 0; i < G.M(); ++i) q.cov.b[i] = t.total[i] > 0; q.area2 = t.area2; for (int k = 0; k < 4; ++k) q.bb[k] = t.bb[k];
      ring_of(bp::begin_points(p), bp::end_points(p), q.out); for (auto h = bp::begin_holes(p); h != bp::end_holes(p); ++h) { Pts r; ring_of(bp::begin_points(*h), bp::end_points(*h), r); q.holes.push_back(r); }
      v.push_back(q);
    }
    return v.size() <= 40;
  }
  void filter_op(const OpLine& op) {
    Slot& d = dst(op.arg(0)); long kind = posmod(op.arg(1), 2), N = G.N; std::vector<Piece> v; if (!pieces_of(*d.s, d.m, v) || v.empty()) return;
    std::vector<int> st(v.size(), -1);   // 1 kept, 0 dropped, -1 cannot be told
    if (kind == 0) {
      long U = G.U; double cell = (double)U * U; double lo_a = posmod(op.arg(2), 6) * 0.7 * cell, hi_a = lo_a + posmod(op.arg(3), 30) * 0.7 * cell; long lo_w = posmod(op.arg(4), 4) * (U - 7), hi_w = lo_w + posmod(op.arg(5), N) * (U + 11), lo_h = posmod(op.arg(6), 4) * (U - 7), hi_h = lo_h + posmod(op.arg(7), N) * (U + 11);
      for (size_t i = 0; i < v.size(); ++i) {
        const Piece& p = v[i]; double a = (double)p.area2 / 2; long w = p.bb[2] - p.bb[0], h = p.bb[3] - p.bb[1];
        if (std::fabs(a - lo_a) < 1 || std::fabs(a - hi_a) < 1) continue;
        st[i] = w > lo_w && w <= hi_w && h > lo_h && h <= hi_h && a >= lo_a && a <= hi_a;
      }
      filtered(d, v, st, [&] { bp::keep(*d.s, lo_a, hi_a, lo_w, hi_w, lo_h, hi_h); }, "keep");
    } else {
      Slot& o = src(op.arg(2)); if (&o == &d) return;
      std::vector<Piece> w; if (!pieces_of(*o.s, o.m, w)) return;
      for (size_t i = 0; i < v.size(); ++i) {
        bool over = false; for (size_t q = 0; q < G.M(); ++q) if (v[i].cov.b[q] && o.m.b[q]) { over = true; break; }
        if (over) { st[i] = 1; continue; }
        double near = 1e18; std::vector<const Pts*> a; rings_of(v[i], a);
        for (const Piece& x : w) { std::vector<const Pts*> b; rings_of(x, b); for (const Pts* r : a) for (const Pts* q : b) for (size_t e = 0; e < r->size(); ++e) for (size_t f = 0; f < q->size(); ++f) near = std::min(near, seg_dist((*r)[e], (*r)[(e + 1) % r->size()], (*q)[f], (*q)[(f + 1) % q->size()])); }
        // no edges near each other: one contains the other or they are apart; a container shows among the samples unless it is tiny
        if (near > 8 && v[i].cov.any()) { bool tiny = false; for (const Piece& x : w) if (!x.cov.any()) tiny = true; if (!tiny) st[i] = 0; }
        else if (near == 0 && G.exact) { probe("interactgen_contact"); }
      }
      filtered(d, v, st, [&] { if (op.arg(3) & 1) bp::interact(*d.s, *o.s); else d.s->interact(*o.s); }, "interact");
    }
  }
  template <typename F> void filtered(Slot& d, const std::vector<Piece>& v, const std::vector<int>& st, F f, const char* what) {
    int kept = 0, dropped = 0, open = 0; Reg m(G.M()), un(G.M());
    for (size_t i = 0; i < v.size(); ++i) { if (st[i] == 1) { ++kept; m = rop(m, v[i].cov, 0); } else if (st[i] == 0) ++dropped; else { ++open; un = rop(un, v[i].cov, 0); } }
    probe(what); if (kept && dropped) probe("filter_split"); if (open) probe("filter_undecided");
    if (!mutate(d, m, f)) return;
    if (!open) return;
    // take over what the library decided for the undecided pieces, after checking that it is one of the possible answers
    std::vector<PMH> o; lib([&] { Set c(*d.s); c.get(o); }); Tally t; for (const PMH& p : o) t.add(p);
    Reg got(G.M()); for (size_t i = 0; i < G.M(); ++i) got.b[i] = t.total[i] > 0;
    for (size_t i = 0; i < v.size(); ++i) if (st[i] < 0) { bool in = false, outp = false; for (size_t q = 0; q < G.M(); ++q) if (v[i].cov.b[q]) (got.b[q] ? in : outp) = true; if (in && outp) violation("wrong-region", fmt("%s kept a part of a piece", what)); if (in) m = rop(m, v[i].cov, 0); }
    d.m = m;
  }
#endif
  // operands of the narrower families
  void mixed_op(const OpLine& op) {
    Slot& d = dst(op.arg(0)); Slot& a = src(op.arg(1)); int o = (int)posmod(op.arg(2), 6); long route = posmod(op.arg(3), 5); int k = nshapes(op, 5);
    bool raw90 = op.arg(4) & 1;
    S90 s9((op.arg(4) & 2) ? bp::orientation_2d(bp::VERTICAL) : bp::orientation_2d(bp::HORIZONTAL)); S45 s45; Reg m9(G.M()), m45(G.M());
    Grid g45 = G; (void)g45;
    for (int i = 0; i < k; ++i) {
      Shape sm = shape(op, 5 + 6 * i, true); P90H q = holed_poly<P90H, P90>(sm); s9.insert(q); m9 = rop(m9, G.of_shape(sm), 0);
    }
    if (!raw90) s9.clean();
    m45 = m9; { P45H q; for (int i = 0; i < k; ++i) { Shape sm = shape(op, 5 + 6 * i, true); s45.insert(holed_poly<P45H, P45>(sm)); } }
    if (op.arg(4) & 4) s45.clean();
    switch (route) {
      case 0: mutate(d, rop(d.m, m9, 0), [&] { d.s->insert(s9); }); break;
      case 1: {
#define CALL(X) mutate(d, rop(a.m, m9, o), [&] { *d.s = *a.s X s9; });
        BYOP(o, CALL)
#undef CALL
        break; }
      case 2: mutate(d, m9, [&] { bp::assign(*d.s, s9); }); break;
#if FAM == 2
      case 3: mutate(d, rop(d.m, m45, 0), [&] { d.s->insert(s45); }); break;
      case 4: {
#define CALL(X) mutate(d, rop(m45, a.m, o), [&] { *d.s = s45 X *a.s; });
        BYOP(o, CALL)
#undef CALL
        break; }
#else
      case 3: { lib([&] { d.s->clean(); }); mutate(d, rop(d.m, m9, 5), [&] { s9.clean(); d.s->insert(s9, true); d.s->clean(); }); break; }
      case 4: {
#define CALL(X) mutate(d, rop(m9, a.m, o), [&] { *d.s = s9 X *a.s; });
        BYOP(o, CALL)
#undef CALL
        break; }
#endif
    }
  }
#endif

  void finish() {
    for (int i = 0; i < MAXCL; ++i) for (int k = 0; k < OWN; ++k) { Slot& s = own[i][k]; if (s.bad) { lib([&] { Set c(*s.s); }); continue; } full_read(*s.s, s.m, i + k); }
    for (int k = 0; k < SH; ++k) full_read(*shr[k].s, shr[k].m, k);
    probe("objects_checked", MAXCL * OWN + SH);
  }
  void teardown() {
    for (int i = 0; i < MAXCL; ++i) for (int k = 0; k < OWN; ++k) lib([&] { delete own[i][k].s; });
    for (int k = 0; k < SH; ++k) lib([&] { delete shr[k].s; });
  }
};

World* make_world() { return new SetWorld(); }
const char* world_name() { return FAM == 0 ? "w90" : FAM == 1 ? "w45" : "wgen"; }

// ------------------------------------------------------------------ plan generation
struct OpSpec { const char* name; int args; int shapes; int weight; bool reader; };
static const OpSpec SPECS[] = {
  {"new", 2, 0, 3, false}, {"ins", 3, 1, 22, false}, {"insn", 2, 3, 8, false}, {"insh", 2, 1, 6, false}, {"insset", 2, 0, 6, false}, {"bulk", 3, 0, 1, false}, {"junk", 6, 0, 3, false},
  {"bopa", 3, 0, 12, false}, {"bop", 5, 0, 14, false}, {"bop3", 6, 0, 7, false}, {"bopg", 5, 1, 8, false}, {"bopv", 4, 2, 6, false},
  {"copy", 4, 0, 8, false}, {"clear", 2, 0, 3, false}, {"xform", 3, 0, 6, false}, {"move", 4, 0, 6, false}, {"scale", 3, 0, 3, false}, {"lscale", 4, 0, 3, false},
  {"self", 3, 3, 5, false}, {"size", 7, 0, FAM == 0 ? 12 : FAM == 1 ? 10 : 0, false}, {"filter", 8, 0, FAM == 2 ? 6 : 9, false}, {"mixed", 5, 1, FAM == 0 ? 0 : 10, false},
  {"rpoly", 4, 0, 16, true}, {"rval", 2, 0, 10, true}, {"req", 3, 0, 6, true}, {"rview", 6, 0, 12, true}, {"rclean", 3, 0, 7, true}, {"rcopy", 2, 0, 4, true}, {"chk", 2, 0, 3, true},
};
void generate_plan(Rng& rng, Plan& p) {
  const std::string& mode = p.mode;
  bool rf = mode == "rfault", mf = mode == "mfault", rd = mode == "readers", iso = mode == "iso";
  int ncl = rd ? (int)rng.range(2, 5) : iso ? (int)rng.range(2, 4) : (int)rng.range(1, 4);
  p.cfg["N"] = FAM == 0 ? 2 * rng.range(4, 9) : FAM == 1 ? 2 * rng.range(3, 6) : 10;
  long N = p.cfg["N"];
#if FAM == 0
  long us[] = {1, 2, 3, 10, 1000, 4096, 1000000}; long U = us[rng.below(7)];
#elif FAM == 1
  bool ex = rng.chance(2, 3); p.cfg["exact"] = ex;   // otherwise edges cross at half-integer points
  long us[] = {4, 8, 12, 100, 4000, 1000000}, od[] = {1001, 1003, 4001, 30007, 1000003}; long U = ex ? us[rng.below(6)] : od[rng.below(5)];
#else
  bool ex = rng.chance(1, 2); p.cfg["exact"] = ex;
  long U = ex ? 6000 * rng.range(1, 4) : 100900 * rng.range(1, 2);
  bool spread = ex && rng.chance(1, 4); if (spread) { N = p.cfg["N"] = 24; U = 6000; }   // many small shapes: scans are cut into bands
#endif
  p.cfg["U"] = U;
  long big = rng.chance(1, 3) ? 400000000L : rng.chance(1, 2) ? 100000 : 0;
  if (FAM == FGEN && big > 1000000) big = p.cfg["exact"] ? 20000000L : 2000000L;   // products of a coordinate and two lengths stay below 2^64 (see DESIGN.md)
  p.cfg["ox"] = big ? rng.range(-big, big) / 4 * 4 : 0; p.cfg["oy"] = big ? rng.range(-big, big) / 4 * 4 : 0;
  if (FAM == F45 && !p.cfg["exact"]) { p.cfg["ox"] += rng.below(4); p.cfg["oy"] += rng.below(4); }
  if (FAM == FGEN && !p.cfg["exact"] && U > 100900) { p.cfg["ox"] = -N * U / 2 + p.cfg["ox"] % 1000; p.cfg["oy"] = -N * U / 2 + p.cfg["oy"] % 1000; }
  if (p.cfg["ox"] + N * U > 1000000000L) p.cfg["ox"] = 0; if (p.cfg["oy"] + N * U > 1000000000L) p.cfg["oy"] = 0;
  p.cfg["orients"] = rng.chance(1, 3) ? 0 : rng.below(65536);
  p.cfg["shseed"] = rng.below(1000000000);
  if (iso) p.cfg["iso"] = 1;
  int nops = (int)rng.range(4, rng.chance(1, 4) ? 60 : 22);
  if (rd) nops = (int)rng.range(4, 24);
  if (FAM == FGEN) nops = std::min(nops, 30);
  const int NS = sizeof(SPECS) / sizeof(SPECS[0]);
  int w[NS]; int tot = 0;
  for (int i = 0; i < NS; ++i) {
    w[i] = SPECS[i].weight;
    if (rd && !SPECS[i].reader) w[i] = 0;
    if (rng.chance(1, 5)) w[i] = w[i] ? 1 : 0;              // swarm: some operations rare in this run
    else if (rng.chance(1, 8)) w[i] *= 4;
    if (rf && SPECS[i].reader) w[i] *= 2;
    if (!strcmp(SPECS[i].name, "bulk") && !rng.chance(1, 3)) w[i] = 0;
    tot += w[i];
  }
  bool pre = rng.chance(3, 4) || rd, focus = rng.chance(1, 2); long hot[MAXCL] = {0};
  auto add = [&](int c, const OpSpec& s, long forced_slot) {
    OpLine o; o.client = c; o.name = s.name;
    for (int i = 0; i < s.args; ++i) o.a.push_back(rng.below(s.shapes || i > 2 ? 48 : 420));
    for (int i = 0; i < s.args; ++i) if (rng.chance(1, 2)) o.a[i] = rng.below(12);
    if (!rd && focus) {   // stay with one object for a while, so that states in between are met by what comes next
      if (rng.chance(1, 5)) hot[c] = rng.below(OWN);
      if (rng.chance(2, 3)) o.a[0] = hot[c];
      const char* two[] = {"insset", "copy", "req", "rview", "bop", "bop3", "bopg", "bopv", "mixed"}; for (const char* q : two) if (o.name == q && rng.chance(1, 2)) o.a[1] = hot[c];
      if ((o.name == "bopa" || o.name == "bop" || o.name == "bop3") && rng.chance(1, 3)) o.a[2] = hot[c];
    }
    if (forced_slot >= 0) o.a[0] = forced_slot;
    if (rd) { o.a[0] = OWN + rng.below(SH); if (o.a.size() > 1 && (o.name == "req" || o.name == "rview")) o.a[1] = OWN + rng.below(SH); }
    int k = s.shapes ? (s.shapes > 1 ? (int)rng.range(1, s.shapes) : 1) : 0; if (N > 20 && o.name == "insn") k = 5;
    for (int i = 0; i < k; ++i) { long sh[6] = {rng.below(2520), rng.below(N), rng.below(N), rng.range(1, N), rng.range(1, N), rng.below(1024)}; if (rng.chance(1, 3)) { sh[3] = rng.range(1, 3); sh[4] = rng.range(1, 3); } if (N > 20 && rng.chance(5, 6)) { sh[3] = rng.range(1, 4); sh[4] = rng.range(1, 4); } for (int q = 0; q < 6; ++q) o.a.push_back(sh[q]); }
    bool faultable = strcmp(s.name, "chk") != 0;
    if ((rf && s.reader && faultable && rng.chance(1, 2)) || (mf && !s.reader && rng.chance(2, 5)) || (iso && rng.chance(1, 8)) || (rd && faultable && rng.chance(1, 6))) {
      int kind = rng.chance(1, 4) ? F_ALLOCP : F_ALLOC1;
      if (s.reader && (o.name == "rpoly") && rng.chance(1, 2)) { kind = F_OUT; o.a[2] = 2; }
      if (o.name == "insn" && rng.chance(1, 2)) kind = F_IN;
      o.fkind = kind; o.fk = kind == F_IN ? rng.range(1, 4) : kind == F_OUT ? rng.range(1, 6) : rng.chance(1, 3) ? rng.range(1, 4) : rng.logu(8);
    }
    if (pre && ncl > 1 && rng.chance(2, 5)) { int np = (int)rng.range(1, 3); for (int i = 0; i < np; ++i) o.preempt.push_back(rng.chance(1, 3) ? rng.range(1, 60) : rng.logu(14)); }
    p.ops.push_back(o);
  };
  if (!rd) for (int c = 0; c < ncl; ++c) { int k = (int)rng.range(1, 3); for (int i = 0; i < k; ++i) add(c, SPECS[1], rng.below(OWN)); }
  auto spec = [&](const char* n) -> const OpSpec& { for (const OpSpec& s : SPECS) if (!strcmp(s.name, n)) return s; return SPECS[1]; };
  bool bursts = !rd && rng.chance(2, 3);
  for (int i = 0; i < nops; ++i) {
    int c = (int)rng.below(ncl); long r = rng.below(tot); int k = 0; while (r >= w[k]) r -= w[k++];
    if (bursts && rng.chance(1, 4)) {   // an object brought to a certain stage of its evaluation, then one operation on it, then a look
      long h = rng.below(OWN), st = rng.below(6), o = (h + 1 + rng.below(OWN - 1)) % OWN;
      if (st != 5) add(c, spec("insn"), h);
      if (st == 1 || st == 2 || st == 3) { add(c, spec("rclean"), h); OpLine& q = p.ops.back(); q.a[1] = st == 2 ? 0 : 1; q.fkind = 0; }
      if (st == 3) add(c, spec("ins"), h);
      if (st == 4 || st == 5) { add(c, spec("rval"), h); p.ops.back().fkind = 0; }
      add(c, rng.chance(1, 4) ? spec("copy") : SPECS[k], rng.chance(1, 2) ? h : o); OpLine& q = p.ops.back();
      const char* two[] = {"insset", "copy", "req", "rview", "bop", "bop3", "bopg", "bopv", "mixed"}; for (const char* z : two) if (q.name == z && rng.chance(3, 4)) q.a[1] = h;
      if ((q.name == "bopa" || q.name == "bop" || q.name == "bop3") && rng.chance(1, 2)) q.a[2] = h;
      add(c, spec("chk"), q.a[0]); if (rng.chance(1, 2)) add(c, spec("chk"), h);
      continue;
    }
    add(c, SPECS[k], -1);
  }
}
#endif
