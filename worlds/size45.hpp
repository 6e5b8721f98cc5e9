// Reference model of resizing, grouping and touching for 45-degree regions on the sample grid.
// Everything is derived from the model's own elementary triangles, never from library output.
#ifndef VERIF_SIZE45_HPP
#define VERIF_SIZE45_HPP
#include "geom.hpp"
struct V2 { double x, y; };
static const int DX8[8] = {1, 1, 0, -1, -1, -1, 0, 1}, DY8[8] = {0, 1, 1, 1, 0, -1, -1, -1};
struct Conv {   // convex counterclockwise polygon
  std::vector<V2> v;
  bool in(double x, double y) const {
    for (size_t i = 0; i < v.size(); ++i) { const V2 &a = v[i], &b = v[(i + 1) % v.size()]; if ((b.x - a.x) * (y - a.y) - (b.y - a.y) * (x - a.x) < 0) return false; }
    return true;
  }
};
static Conv conv(std::vector<V2> q) {
  double a = 0; for (size_t i = 0; i < q.size(); ++i) { const V2 &p = q[i], &r = q[(i + 1) % q.size()]; a += p.x * r.y - p.y * r.x; }
  if (a < 0) std::reverse(q.begin(), q.end());
  Conv c; c.v = q; return c;
}
static bool in_any(const std::vector<Conv>& s, double x, double y) { for (const Conv& c : s) if (c.in(x, y)) return true; return false; }

struct Faces45 {
  const Reg& m; int N;
  explicit Faces45(const Reg& r) : m(r), N(G.N) {}
  bool f(int i, int j, int k) const { return i >= 0 && j >= 0 && i < N && j < N && m.b[(j * N + i) * 4 + k]; }
  // inside flags of the eight 45-degree sectors around a grid corner / a cell centre
  void corner(int i, int j, bool* s) const {
    s[0] = f(i, j, 0); s[1] = f(i, j, 2); s[2] = f(i - 1, j, 3); s[3] = f(i - 1, j, 0);
    s[4] = f(i - 1, j - 1, 1); s[5] = f(i - 1, j - 1, 3); s[6] = f(i, j - 1, 2); s[7] = f(i, j - 1, 1);
  }
  void centre(int i, int j, bool* s) const {
    s[0] = s[7] = f(i, j, 3); s[1] = s[2] = f(i, j, 1); s[3] = s[4] = f(i, j, 2); s[5] = s[6] = f(i, j, 0);
  }
  // calls fn(x, y, sectors) for every vertex, in half-cell coordinates
  template <typename F> void vertices(F fn) const {
    bool s[8];
    for (int j = 0; j <= N; ++j) for (int i = 0; i <= N; ++i) { corner(i, j, s); fn(2 * i, 2 * j, s); }
    for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) { centre(i, j, s); fn(2 * i + 1, 2 * j + 1, s); }
  }
};
static int runs8(const bool* s) { int n = 0; for (int e = 0; e < 8; ++e) n += s[e] != s[(e + 7) % 8]; return n; }
static bool vertex_contact(const Reg& m) { bool r = false; Faces45(m).vertices([&](int, int, const bool* s) { if (runs8(s) > 2) r = true; }); return r; }
static bool has_diagonals(const Reg& m) {
  bool r = false; Faces45(m).vertices([&](int, int, const bool* s) { for (int e = 1; e < 8; e += 2) if (s[e] != s[e - 1]) r = true; }); return r;
}
static int comps45(const Reg& m, std::vector<int>& lab) {
  int N = G.N, n = 0; lab.assign(G.M(), -1);
  static const int across[4] = {1, 0, 3, 2}, di[4] = {0, 0, -1, 1}, dj[4] = {-1, 1, 0, 0};
  for (size_t s0 = 0; s0 < G.M(); ++s0) if (m.b[s0] && lab[s0] < 0) {
    std::vector<int> st(1, (int)s0); lab[s0] = n;
    while (!st.empty()) {
      int q = st.back(); st.pop_back(); int k = q % 4, c = q / 4, i = c % N, j = c / N;
      auto go = [&](int a, int b, int kk) { if (a < 0 || b < 0 || a >= N || b >= N) return; int z = (b * N + a) * 4 + kk; if (m.b[z] && lab[z] < 0) { lab[z] = n; st.push_back(z); } };
      go(i + di[k], j + dj[k], across[k]);
      if (k < 2) { go(i, j, 2); go(i, j, 3); } else { go(i, j, 0); go(i, j, 1); }
    }
    ++n;
  }
  return n;
}
// which components of m (by lab) meet region o, corner contact included
static void touching(const Reg& m, const std::vector<int>& lab, int nc, const Reg& o, std::vector<bool>& t) {
  t.assign(nc, false); std::vector<Reg> part(nc, Reg(G.M()));
  for (size_t q = 0; q < G.M(); ++q) if (lab[q] >= 0) part[lab[q]].b[q] = 1;
  (void)m;
  Faces45 fo(o); int N = G.N;
  for (int c = 0; c < nc; ++c) {
    Faces45 fc(part[c]); bool a[8], b[8];
    auto any = [](const bool* s) { for (int e = 0; e < 8; ++e) if (s[e]) return true; return false; };
    for (int j = 0; j <= N && !t[c]; ++j) for (int i = 0; i <= N && !t[c]; ++i) { fc.corner(i, j, a); fo.corner(i, j, b); if (any(a) && any(b)) t[c] = true; }
    for (int j = 0; j < N && !t[c]; ++j) for (int i = 0; i < N && !t[c]; ++i) { fc.centre(i, j, a); fo.centre(i, j, b); if (any(a) && any(b)) t[c] = true; }
  }
}

enum { R_CLOSEST = 0, R_OVER, R_UNDER, R_SQRT2, R_HALF };
// The pieces that resizing by k adds (grow) or takes away (shrink): "must" certainly, "may" at most.
struct SizeModel {
  std::vector<Conv> must, may; bool grow; double k, d; int rnd, cor;   // cor: 0 intersection, 1 orthogonal, 2 unfilled
  const Reg& m;
  V2 off(int dir, double ax, double dg) const { double r = dir & 1 ? dg : ax; return V2{DX8[dir & 7] * r, DY8[dir & 7] * r}; }
  V2 at(const V2& p, int dir) const { V2 o = off(dir, k, d); return V2{p.x + o.x, p.y + o.y}; }
  SizeModel(const Reg& reg, bool g, double kk, int rounding, int corner) : grow(g), k(kk), rnd(rounding), cor(corner), m(reg) {
    d = rnd == R_SQRT2 ? k : rnd == R_HALF ? std::floor(k / 2) : k / std::sqrt(2.0);
    double h = G.U / 2.0;
    Faces45(m).vertices([&](int X, int Y, const bool* s) {
      V2 p{X * h, Y * h};
      for (int e = 0; e < 8; ++e) if (s[e] != s[(e + 7) % 8]) {
        bool mine = e & 1 ? (X & 1) : e < 4 && !(X & 1);          // every elementary edge once
        if (!mine) continue;
        double len = e & 1 ? h : 2 * h; V2 q{p.x + DX8[e] * len, p.y + DY8[e] * len};
        int out = s[e] ? e + 6 : e + 2; if (!grow) out += 4;      // the side the boundary moves to
        V2 o = off(out & 7, k, d);
        must.push_back(conv({p, q, V2{q.x + o.x, q.y + o.y}, V2{p.x + o.x, p.y + o.y}}));
        double x = rnd == R_HALF && (e & 1) ? k / 2 + 1 : 0; V2 P{p.x - DX8[e] * x, p.y - DY8[e] * x}, Q{q.x + DX8[e] * x, q.y + DY8[e] * x};
        V2 w = off(out & 7, k, rnd == R_HALF ? k / 2 + 1 : d);
        may.push_back(conv({V2{P.x + w.x, P.y + w.y}, V2{Q.x + w.x, Q.y + w.y}, V2{Q.x - w.x, Q.y - w.y}, V2{P.x - w.x, P.y - w.y}}));
      }
      if (cor == 2 || runs8(s) != 2) return;
      int a = 0, b; while (!(s[a] && !s[(a + 7) % 8])) ++a; b = a + 1; while (s[b & 7]) ++b;
      int th = b - a; if (th == 4) return;
      bool convex = th < 4; if (!convex) { int t = a; a = b; b = t + 8; th = 8 - th; }   // work with the narrow sector a..b
      std::vector<V2> f; bool axis = !(a & 1) && !(b & 1);
      V2 e1 = at(p, (b + 2) & 7), e2 = at(p, (a + 6) & 7);
      if (th == 1 && cor == 1 && rnd != R_HALF) f = {V2{e1.x, e1.y}, V2{e2.x, e1.y}, V2{e2.x, e2.y}, V2{e1.x, e2.y}};
      else {
        double ux = DX8[b & 7], uy = DY8[b & 7], vx = DX8[a & 7], vy = DY8[a & 7], det = ux * vy - uy * vx, wx = e2.x - e1.x, wy = e2.y - e1.y, t = (wx * vy - wy * vx) / det;
        f = {p, e1, V2{e1.x + ux * t, e1.y + uy * t}, e2};
      }
      if (rnd == R_HALF) {
        if (axis && convex == grow) must.push_back(conv(f));
        double r = axis ? k : 2.6 * k + 4; may.push_back(conv({V2{p.x - r, p.y - r}, V2{p.x + r, p.y - r}, V2{p.x + r, p.y + r}, V2{p.x - r, p.y + r}}));
      } else { if (convex == grow) must.push_back(conv(f)); may.push_back(conv(f)); }
    });
  }
  // lower and upper bound of the result at a point given relative to the grid origin; base: the region itself there
  bool lo(bool base, double x, double y) const { return grow ? base || in_any(must, x, y) : base && !in_any(may, x, y); }
  bool hi(bool base, double x, double y) const { return grow ? base || in_any(may, x, y) : base && !in_any(must, x, y); }
  bool base_at(double x, double y) const {
    double u = (double)G.U; long i = (long)std::floor(x / u), j = (long)std::floor(y / u); if (i < 0 || j < 0 || i >= G.N || j >= G.N) return false;
    double a = x - i * u - u / 2, b = y - j * u - u / 2; int kf = std::fabs(a) > std::fabs(b) ? (a > 0 ? 3 : 2) : (b > 0 ? 1 : 0);
    return m.b[(j * G.N + i) * 4 + kf];
  }
  bool exact(Reg& r) const {   // both bounds agree on every sample
    r = Reg(G.M());
    for (size_t q = 0; q < G.M(); ++q) {
      double x = G.samp[q].x2 / 2.0 - G.ox, y = G.samp[q].y2 / 2.0 - G.oy; bool l = lo(m.b[q], x, y), h = hi(m.b[q], x, y);
      if (l != h) return false;
      r.b[q] = l;
    }
    return true;
  }
  // 1 certainly inside, 0 certainly outside, -1 undecided, with edges allowed to be off by tol
  int decide(double x, double y, double tol) const {
    bool allin = true, allout = true;
    for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b) { double X = x + a * tol, Y = y + b * tol; bool z = base_at(X, Y); if (!lo(z, X, Y)) allin = false; if (hi(z, X, Y)) allout = false; if (!allin && !allout) return -1; }
    return allin ? 1 : 0;
  }
};
#endif
