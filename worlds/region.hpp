// Reference model: a region of the plane as the set of sample points it contains.
// Deliberately independent of the library: integer rasterisation by winding number.
#ifndef VERIF_REGION_HPP
#define VERIF_REGION_HPP
#include "sim.hpp"
#include <algorithm>
#include <cstdlib>

enum Fam { F90 = 0, F45 = 1, FGEN = 2 };
typedef __int128 i128;

struct Pt { long x, y; };
typedef std::vector<Pt> Ring;
struct Shape { std::vector<Ring> rings; bool manh; bool rect; unsigned long dress; Shape() : manh(true), rect(false), dress(0) {} };  // rings[0] outer, rest holes; cell units

struct Reg {
  std::vector<unsigned char> b;
  explicit Reg(size_t n = 0) : b(n, 0) {}
  bool operator==(const Reg& o) const { return b == o.b; }
  bool operator!=(const Reg& o) const { return b != o.b; }
  bool any() const { for (size_t i = 0; i < b.size(); ++i) if (b[i]) return true; return false; }
  long count() const { long c = 0; for (size_t i = 0; i < b.size(); ++i) c += b[i]; return c; }
};
// operators: 0 '|', 1 '+', 2 '&', 3 '*', 4 '^', 5 '-'
inline Reg rop(const Reg& a, const Reg& b, int op) {
  Reg r(a.b.size());
  for (size_t i = 0; i < a.b.size(); ++i) {
    bool x = a.b[i], y = b.b[i];
    r.b[i] = op < 2 ? (x || y) : op < 4 ? (x && y) : op == 4 ? (x != y) : (x && !y);
  }
  return r;
}

struct Grid {
  int fam; bool exact;
  int N, K;                 // cells per side, samples per cell
  long U, ox, oy;
  struct Samp { long x2, y2; };          // doubled absolute coordinates
  std::vector<Samp> samp;                // index = (j*N+i)*K+k
  std::vector<long> rowy;                // distinct y2, ascending
  struct Ent { long x2; int idx; };
  std::vector<std::vector<Ent> > rows;
  std::vector<std::vector<int> > perm;   // 8 symmetries of the square about the grid centre: perm[t][i] = image of sample i
  std::vector<std::vector<long> > ext;   // per sample: bounding box of its elementary face in half cells (exact families)

  size_t M() const { return samp.size(); }
  void init(int f, bool ex, int n, long u, long x0, long y0) {
    fam = f; exact = ex; N = n; U = u; ox = x0; oy = y0;
    std::vector<std::pair<long, long> > off;   // doubled offsets in cell, as value*2 in coordinate units
    if (fam == F90) off.push_back(std::make_pair(U, U));
    else if (fam == F45) {
      off.push_back(std::make_pair(U, U / 2)); off.push_back(std::make_pair(U, 2 * U - U / 2));
      off.push_back(std::make_pair(U / 2, U)); off.push_back(std::make_pair(2 * U - U / 2, U));
    } else {
      long a, b;
      if (exact) { a = 2 * (U / 100 * 37); b = 2 * (U / 100 * 13); }
      else { a = 2 * (U / 1009 * 5); b = 2 * (U / 1009 * 182); }
      long q = 2 * U;
      long v[8][2] = {{a, b}, {q - a, b}, {a, q - b}, {q - a, q - b}, {b, a}, {q - b, a}, {b, q - a}, {q - b, q - a}};
      for (int i = 0; i < 8; ++i) off.push_back(std::make_pair(v[i][0], v[i][1]));
    }
    K = (int)off.size();
    samp.clear();
    for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) for (int k = 0; k < K; ++k) {
      Samp s; s.x2 = 2 * (ox + i * U) + off[k].first; s.y2 = 2 * (oy + j * U) + off[k].second; samp.push_back(s);
      std::vector<long> e(4);
      if (fam == F90) { e[0] = 2 * i; e[1] = 2 * j; e[2] = 2 * i + 2; e[3] = 2 * j + 2; }
      else if (fam == F45) {
        e[0] = 2 * i; e[1] = 2 * j; e[2] = 2 * i + 2; e[3] = 2 * j + 2;
        if (k == 0) e[3] = 2 * j + 1; if (k == 1) e[1] = 2 * j + 1; if (k == 2) e[2] = 2 * i + 1; if (k == 3) e[0] = 2 * i + 1;
      }
      ext.push_back(e);
    }
    std::map<long, std::vector<Ent> > r;
    std::map<std::pair<long, long>, int> at;
    for (size_t i = 0; i < samp.size(); ++i) {
      Ent e; e.x2 = samp[i].x2; e.idx = (int)i; r[samp[i].y2].push_back(e); at[std::make_pair(samp[i].x2, samp[i].y2)] = (int)i;
    }
    rowy.clear(); rows.clear();
    for (std::map<long, std::vector<Ent> >::iterator i = r.begin(); i != r.end(); ++i) {
      std::sort(i->second.begin(), i->second.end(), [](const Ent& a, const Ent& b) { return a.x2 < b.x2; });
      rowy.push_back(i->first); rows.push_back(i->second);
    }
    perm.assign(8, std::vector<int>(samp.size()));
    long cx2 = 2 * ox + N * U, cy2 = 2 * oy + N * U;   // doubled centre
    for (int t = 0; t < 8; ++t) for (size_t i = 0; i < samp.size(); ++i) {
      long dx = samp[i].x2 - cx2, dy = samp[i].y2 - cy2, ex, ey;
      sym(t, dx, dy, ex, ey);
      perm[t][i] = at[std::make_pair(cx2 + ex, cy2 + ey)];
    }
  }
  // t: bit0 negate x, bit1 negate y (applied first), bit2 swap afterwards
  static void sym(int t, long x, long y, long& ex, long& ey) {
    if (t & 1) x = -x; if (t & 2) y = -y; if (t & 4) { ex = y; ey = x; } else { ex = x; ey = y; }
  }
  // adds dir * winding of the ring (absolute coordinates) to w
  void add_winding(const std::vector<std::pair<long, long> >& p, std::vector<int>& w) const {
    size_t n = p.size();
    if (n < 3) return;
    std::vector<std::vector<int> > diff;
    diff.resize(rows.size());
    for (size_t k = 0; k < n; ++k) {
      i128 x1 = 2 * (i128)p[k].first, y1 = 2 * (i128)p[k].second, x2 = 2 * (i128)p[(k + 1) % n].first, y2 = 2 * (i128)p[(k + 1) % n].second;
      if (y1 == y2) continue;
      int dir = 1; if (y1 > y2) { std::swap(x1, x2); std::swap(y1, y2); dir = -1; }
      size_t r = 0;
      if (y1 > rowy[0]) r = std::lower_bound(rowy.begin(), rowy.end(), (long)y1) - rowy.begin();
      for (; r < rows.size() && rowy[r] < y2; ++r) {
        const std::vector<Ent>& e = rows[r];
        i128 c = (rowy[r] - y1) * (x2 - x1), d = y2 - y1;
        size_t lo = 0, hi = e.size();
        while (lo < hi) { size_t m = (lo + hi) / 2; if (((i128)e[m].x2 - x1) * d > c) hi = m; else lo = m + 1; }
        if (lo < e.size()) { if (diff[r].empty()) diff[r].resize(e.size(), 0); diff[r][lo] -= dir; }
      }
    }
    for (size_t r = 0; r < rows.size(); ++r) if (!diff[r].empty()) {
      int a = 0;
      for (size_t m = 0; m < rows[r].size(); ++m) { a += diff[r][m]; if (a) w[rows[r][m].idx] += a; }
    }
  }
  Reg of_shape(const Shape& s) const {
    Reg g(M());
    for (size_t r = 0; r < s.rings.size(); ++r) {
      std::vector<std::pair<long, long> > p;
      for (size_t i = 0; i < s.rings[r].size(); ++i) p.push_back(std::make_pair(ox + U * s.rings[r][i].x, oy + U * s.rings[r][i].y));
      std::vector<int> w(M(), 0); add_winding(p, w);
      for (size_t i = 0; i < M(); ++i) if (w[i]) g.b[i] ^= 1;
    }
    return g;
  }
  // bounding box in half cells of a region: false if empty
  bool bbox(const Reg& g, long* e) const {
    bool any = false;
    for (size_t i = 0; i < M(); ++i) if (g.b[i]) {
      const std::vector<long>& q = ext[i];
      if (!any) { for (int k = 0; k < 4; ++k) e[k] = q[k]; any = true; }
      else { e[0] = std::min(e[0], q[0]); e[1] = std::min(e[1], q[1]); e[2] = std::max(e[2], q[2]); e[3] = std::max(e[3], q[3]); }
    }
    return any;
  }
  // cells touched
  bool cellbox(const Reg& g, long* e) const {
    bool any = false;
    for (size_t s = 0; s < M(); ++s) if (g.b[s]) {
      long c = (long)(s / K), i = c % N, j = c / N;
      if (!any) { e[0] = e[2] = i; e[1] = e[3] = j; any = true; }
      else { e[0] = std::min(e[0], i); e[1] = std::min(e[1], j); e[2] = std::max(e[2], i); e[3] = std::max(e[3], j); }
    }
    return any;
  }
  Reg shift(const Reg& g, long dx, long dy) const {
    Reg r(M());
    for (size_t s = 0; s < M(); ++s) if (g.b[s]) {
      long c = (long)(s / K), i = c % N + dx, j = c / N + dy;
      if (i >= 0 && i < N && j >= 0 && j < N) r.b[(j * N + i) * K + s % K] = 1;
    }
    return r;
  }
  Reg symm(const Reg& g, int t) const { Reg r(M()); for (size_t i = 0; i < M(); ++i) if (g.b[i]) r.b[perm[t][i]] = 1; return r; }
  // doubled... area in units where the whole cell is 4
  long area4(const Reg& g) const { return g.count() * (fam == F90 ? 4 : 1); }
  bool cell(const Reg& g, long i, long j) const { return i >= 0 && j >= 0 && i < N && j < N && g.b[(j * N + i) * K]; }
  // Minkowski sum with [-w,e]x[-s,n] in cells (90 model)
  Reg dilate(const Reg& g, long w, long e, long s, long n) const {
    Reg r(M());
    for (long j = 0; j < N; ++j) for (long i = 0; i < N; ++i) if (cell(g, i, j))
      for (long b = j - s; b <= j + n; ++b) for (long a = i - w; a <= i + e; ++a) if (a >= 0 && b >= 0 && a < N && b < N) r.b[b * N + a] = 1;
    return r;
  }
  // boundary moved inwards: west side by w, ...
  Reg erode(const Reg& g, long w, long e, long s, long n) const {
    Reg r(M());
    for (long j = 0; j < N; ++j) for (long i = 0; i < N; ++i) {
      bool ok = true;
      for (long b = j - s; b <= j + n && ok; ++b) for (long a = i - w; a <= i + e && ok; ++a) ok = cell(g, a, b);
      if (ok) r.b[j * N + i] = 1;
    }
    return r;
  }
  // 4-connected components of cells (90 model): label per cell, -1 outside
  int components(const Reg& g, std::vector<int>& lab) const {
    lab.assign(N * N, -1); int n = 0;
    for (int s = 0; s < N * N; ++s) if (g.b[s * K] && lab[s] < 0) {
      std::vector<int> st(1, s); lab[s] = n;
      while (!st.empty()) {
        int c = st.back(); st.pop_back(); int i = c % N, j = c / N;
        int d[4][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
        for (int k = 0; k < 4; ++k) {
          int a = i + d[k][0], b = j + d[k][1];
          if (a < 0 || b < 0 || a >= N || b >= N) continue;
          int q = b * N + a;
          if (g.b[q * K] && lab[q] < 0) { lab[q] = n; st.push_back(q); }
        }
      }
      ++n;
    }
    return n;
  }
  // does any 2x2 block hold exactly two diagonal cells?
  bool corner_touch(const Reg& g) const {
    for (long j = 0; j + 1 < N; ++j) for (long i = 0; i + 1 < N; ++i) {
      bool a = cell(g, i, j), b = cell(g, i + 1, j), c = cell(g, i, j + 1), d = cell(g, i + 1, j + 1);
      if ((a && d && !b && !c) || (b && c && !a && !d)) return true;
    }
    return false;
  }
};

// ------------------------------------------------------------------ shapes
inline long posmod(long a, long m) { return m <= 0 ? 0 : ((a % m) + m) % m; }
inline Ring rectr(long x, long y, long w, long h) { Ring r; r.push_back(Pt{x, y}); r.push_back(Pt{x + w, y}); r.push_back(Pt{x + w, y + h}); r.push_back(Pt{x, y + h}); return r; }

// Decode six integers into a simple shape inside [lo,hi)^2 cells.
inline Shape decode_shape(const Grid& g, const long* a, bool manh_only = false) {
  Shape s;
  long N = g.N;
  int nt = manh_only || g.fam == F90 ? 9 : g.fam == F45 ? 15 : g.exact ? 18 : 21;
  long t = posmod(a[0], nt), x = posmod(a[1], N - 1), y = posmod(a[2], N - 1);
  long w = 1 + posmod(a[3] - 1, N - x), h = 1 + posmod(a[4] - 1, N - y); unsigned long p = (unsigned long)a[5];
  sim::Rng rng(sim::mix(p * 977 + 5));
  bool done = false;
  if (t >= 9 && !(w >= 2 && h >= 2)) t = t >= 18 ? 18 : 8 + (long)(t & 1);
  switch (t) {
    case 1: if (w >= 2 && h >= 2) {  // L, one corner cut
      long cw = 1 + (long)(p % (w - 1)), ch = 1 + (long)((p / 7) % (h - 1)); int c = (int)((p / 49) % 4);
      Ring r;
      if (c == 0) r = Ring{{x + cw, y}, {x + w, y}, {x + w, y + h}, {x, y + h}, {x, y + ch}, {x + cw, y + ch}};
      else if (c == 1) r = Ring{{x, y}, {x + w - cw, y}, {x + w - cw, y + ch}, {x + w, y + ch}, {x + w, y + h}, {x, y + h}};
      else if (c == 2) r = Ring{{x, y}, {x + w, y}, {x + w, y + h - ch}, {x + w - cw, y + h - ch}, {x + w - cw, y + h}, {x, y + h}};
      else r = Ring{{x, y}, {x + w, y}, {x + w, y + h}, {x + cw, y + h}, {x + cw, y + h - ch}, {x, y + h - ch}};
      s.rings.push_back(r); done = true; } break;
    case 2: if (w >= 3 && h >= 3) {  // frame
      s.rings.push_back(rectr(x, y, w, h));
      long hw = 1 + (long)(p % (w - 2)), hh = 1 + (long)((p / 5) % (h - 2));
      long hx = x + 1 + (long)((p / 25) % (w - 1 - hw)), hy = y + 1 + (long)((p / 125) % (h - 1 - hh));
      s.rings.push_back(rectr(hx, hy, hw, hh)); done = true; } break;
    case 3: { // staircase
      long n = std::min(w, h); if (n >= 2) {
        Ring r; r.push_back(Pt{x, y}); r.push_back(Pt{x + n, y});
        for (long k = 1; k <= n; ++k) { r.push_back(Pt{x + n - k + 1, y + k}); r.push_back(Pt{x + n - k, y + k}); }
        s.rings.push_back(r); done = true; } } break;
    case 4: if (w >= 3 && h >= 2) {  // U
      long gw = 1 + (long)(p % (w - 2)), gx = 1 + (long)((p / 5) % (w - 1 - gw)), gh = 1 + (long)((p / 25) % (h - 1));
      if ((p / 125) & 1) s.rings.push_back(Ring{{x, y}, {x + w, y}, {x + w, y + h}, {x + gx + gw, y + h}, {x + gx + gw, y + h - gh}, {x + gx, y + h - gh}, {x + gx, y + h}, {x, y + h}});
      else s.rings.push_back(Ring{{x, y}, {x + gx, y}, {x + gx, y + gh}, {x + gx + gw, y + gh}, {x + gx + gw, y}, {x + w, y}, {x + w, y + h}, {x, y + h}});
      done = true; } break;
    case 5: if (w >= 2) {  // histogram: columns [lo_k,hi_k] with overlapping neighbours
      std::vector<long> lo(w), hi(w);
      for (long k = 0; k < w; ++k) {
        for (int tr = 0; tr < 50; ++tr) {
          lo[k] = rng.below(h); hi[k] = lo[k] + 1 + rng.below(h - lo[k]);
          if (k == 0 || (lo[k] < hi[k - 1] && lo[k - 1] < hi[k])) break;
          if (tr == 49) { lo[k] = lo[k - 1]; hi[k] = hi[k - 1]; }
        }
      }
      Ring r;
      for (long k = 0; k < w; ++k) { if (k == 0 || lo[k] != lo[k - 1]) { r.push_back(Pt{x + k, y + lo[k]}); } if (k == w - 1 || lo[k] != lo[k + 1]) r.push_back(Pt{x + k + 1, y + lo[k]}); }
      for (long k = w - 1; k >= 0; --k) { if (k == w - 1 || hi[k] != hi[k + 1]) r.push_back(Pt{x + k + 1, y + hi[k]}); if (k == 0 || hi[k] != hi[k - 1]) r.push_back(Pt{x + k, y + hi[k]}); }
      s.rings.push_back(r); done = true; } break;
    case 6: if (w >= 3 && h >= 3) {  // plus
      long c = 1 + (long)(p % (w - 2)), d = 1 + (long)((p / 5) % (h - 2)), c2 = c + 1 + (long)((p / 25) % (w - 1 - c)), d2 = d + 1 + (long)((p / 125) % (h - 1 - d));
      s.rings.push_back(Ring{{x + c, y}, {x + c2, y}, {x + c2, y + d}, {x + w, y + d}, {x + w, y + d2}, {x + c2, y + d2}, {x + c2, y + h}, {x + c, y + h}, {x + c, y + d2}, {x, y + d2}, {x, y + d}, {x + c, y + d}});
      done = true; } break;
    case 7: if (w >= 4 && h >= 4) {  // frame with two holes, possibly meeting at a corner
      s.rings.push_back(rectr(x, y, w, h)); s.rings.push_back(rectr(x + 1, y + 1, 1, 1));
      if (p & 1) s.rings.push_back(rectr(x + 2, y + 2, w - 3, h - 3)); else if (w >= 5) s.rings.push_back(rectr(x + 3, y + 1, w - 4, h - 2));
      done = true; } break;
    case 8: { // thin full-width or full-height bar
      if (p & 1) s.rings.push_back(rectr(0, y, N, 1)); else s.rings.push_back(rectr(x, 0, 1, N)); s.rect = true; done = true; } break;
    case 9: case 10: { long n = std::min(w, h); s.manh = false;  // right triangle
      Ring q[4] = {Ring{{x, y}, {x + n, y}, {x, y + n}}, Ring{{x, y}, {x + n, y}, {x + n, y + n}}, Ring{{x + n, y}, {x + n, y + n}, {x, y + n}}, Ring{{x, y}, {x + n, y + n}, {x, y + n}}};
      s.rings.push_back(q[p % 4]); done = true; } break;
    case 11: { long n = std::min(w, h) / 2; s.manh = false;  // diamond
      s.rings.push_back(Ring{{x + n, y}, {x + 2 * n, y + n}, {x + n, y + 2 * n}, {x, y + n}}); done = true; } break;
    case 12: { s.manh = false;  // octagon-like: chamfer corners independently
      long m = std::min(w, h) / 2; long c0 = p % (m + 1), c1 = (p / 5) % (m + 1), c2 = (p / 25) % (m + 1), c3 = (p / 125) % (m + 1);
      Ring r; r.push_back(Pt{x + c0, y}); if (x + w - c1 != x + c0) r.push_back(Pt{x + w - c1, y});
      if (c1) r.push_back(Pt{x + w, y + c1}); if (y + h - c2 != y + c1) r.push_back(Pt{x + w, y + h - c2});
      if (c2) r.push_back(Pt{x + w - c2, y + h}); if (x + c3 != x + w - c2) r.push_back(Pt{x + c3, y + h});
      if (c3) r.push_back(Pt{x, y + h - c3}); if (c0 && y + h - c3 != y + c0) r.push_back(Pt{x, y + c0});
      // drop duplicates
      Ring q; for (size_t i = 0; i < r.size(); ++i) { if (!q.empty() && q.back().x == r[i].x && q.back().y == r[i].y) continue; q.push_back(r[i]); }
      while (q.size() > 1 && q[0].x == q.back().x && q[0].y == q.back().y) q.pop_back();
      s.rings.push_back(q); done = true; } break;
    case 13: { s.manh = false; long n = std::min(h, w - 1);  // parallelogram
      if (n >= 1 && w - n >= 1) {
        if (p & 1) s.rings.push_back(Ring{{x, y}, {x + w - n, y}, {x + w, y + n}, {x + n, y + n}});
        else s.rings.push_back(Ring{{x + n, y}, {x + w, y}, {x + w - n, y + n}, {x, y + n}});
        done = true; } } break;
    case 14: if (w >= 4 && h >= 4) { s.manh = false;  // square with diamond hole or diamond with square hole
      long n = std::min(w, h) / 2;
      if (p & 1) { long m = 1 + (long)((p / 2) % n); s.rings.push_back(rectr(x, y, 2 * n, 2 * n)); if (m < n) s.rings.push_back(Ring{{x + n, y + n - m}, {x + n + m, y + n}, {x + n, y + n + m}, {x + n - m, y + n}}); else s.rings.push_back(Ring{{x + n, y + 1}, {x + 2 * n - 1, y + n}, {x + n, y + 2 * n - 1}, {x + 1, y + n}}); }
      else { s.rings.push_back(Ring{{x + n, y}, {x + 2 * n, y + n}, {x + n, y + 2 * n}, {x, y + n}}); if (n >= 3) s.rings.push_back(rectr(x + n - 1, y + n - 1, 2, 2)); }
      done = true; } break;
    case 15: { s.manh = false; long n = std::min(w, h / 2);  // slope 2 triangle
      if (n >= 1) { s.rings.push_back((p & 1) ? Ring{{x, y}, {x + n, y}, {x + n, y + 2 * n}} : Ring{{x, y}, {x + n, y}, {x, y + 2 * n}}); done = true; } } break;
    case 16: { s.manh = false; long n = std::min(h, w / 2);  // slope 1/2 triangle
      if (n >= 1) { s.rings.push_back((p & 1) ? Ring{{x, y}, {x + 2 * n, y + n}, {x, y + n}} : Ring{{x, y}, {x + 2 * n, y}, {x, y + n}}); done = true; } } break;
    case 17: if (w >= 4 && h >= 4) { s.manh = false; long n = std::min(w, h) / 4;  // four-pointed star of slopes 2 and 1/2... concave kite
      s.rings.push_back(Ring{{x + 2 * n, y}, {x + 3 * n, y + 2 * n}, {x + 2 * n, y + 4 * n}, {x + n, y + 2 * n}}); done = true; } break;
    case 18: { s.manh = false;  // arbitrary triangle
      Pt q[3]; for (int tr = 0; tr < 40; ++tr) {
        for (int k = 0; k < 3; ++k) q[k] = Pt{x + rng.below(w + 1), y + rng.below(h + 1)};
        long c = (q[1].x - q[0].x) * (q[2].y - q[0].y) - (q[1].y - q[0].y) * (q[2].x - q[0].x);
        if (c == 0) continue; if (c < 0) std::swap(q[1], q[2]);
        s.rings.push_back(Ring{q[0], q[1], q[2]}); done = true; break; } } break;
    case 19: { s.manh = false;  // star-shaped polygon about a centre: vertices sorted by exact angle
      long cx = x + w / 2, cy = y + h / 2; std::vector<Pt> v;
      long n = 4 + rng.below(5);
      for (long k = 0; k < n * 3 && (long)v.size() < n; ++k) {
        Pt c{x + rng.below(w + 1) - cx, y + rng.below(h + 1) - cy}; if (c.x == 0 && c.y == 0) continue;
        bool dup = false; for (Pt& o : v) if (o.x * c.y == o.y * c.x && o.x * c.x + o.y * c.y > 0) dup = true;
        if (!dup) v.push_back(c);
      }
      auto half = [](const Pt& a) { return a.y > 0 || (a.y == 0 && a.x > 0) ? 0 : 1; };
      std::sort(v.begin(), v.end(), [&](const Pt& a, const Pt& b) { if (half(a) != half(b)) return half(a) < half(b); return a.x * b.y - a.y * b.x > 0; });
      bool ok = v.size() >= 3;
      for (size_t k = 0; ok && k < v.size(); ++k) { Pt a = v[k], b = v[(k + 1) % v.size()]; if (a.x * b.y - a.y * b.x <= 0) ok = false; }
      if (ok) { Ring r; for (Pt& o : v) r.push_back(Pt{cx + o.x, cy + o.y}); s.rings.push_back(r); done = true; } } break;
    case 20: if (w >= 4 && h >= 4) { s.manh = false;  // box with a triangular hole
      s.rings.push_back(rectr(x, y, w, h));
      s.rings.push_back(Ring{{x + 1, y + 1}, {x + w - 1, y + 1 + (long)(p % (h - 2))}, {x + 1 + (long)((p / 9) % (w - 2)), y + h - 1}});
      { Ring& q = s.rings[1]; long c = (q[1].x - q[0].x) * (q[2].y - q[0].y) - (q[1].y - q[0].y) * (q[2].x - q[0].x); if (c <= 0) s.rings.pop_back(); }
      done = true; } break;
  }
  if (!done) { s.rings.clear(); s.rings.push_back(rectr(x, y, w, h)); s.manh = true; s.rect = true; }
  { unsigned long z = sim::mix((sim::u64)p * 31 + (sim::u64)x + 64 * (sim::u64)y + 4096 * (sim::u64)t); if (z % 4 == 0) s.dress = 1 + (z >> 8) % 100000; }
  // orientation of the outer ring is part of the input space; keep the first edge horizontal for Manhattan rings
  if ((p >> 9) & 1) { Ring& r = s.rings[0]; std::reverse(r.begin(), r.end()); }
  for (size_t k = 0; k < s.rings.size() && s.manh; ++k) { Ring& r = s.rings[k]; if (r[0].y != r[1].y) std::rotate(r.begin(), r.begin() + 1, r.end()); }
  return s;
}
inline bool is_rect(const Shape& s) {
  if (s.rings.size() != 1 || s.rings[0].size() != 4 || !s.manh) return false;
  return true;
}
#endif
