// C18: geometric predicates agree with exact arithmetic.
#include "mesh.h"
using namespace vh;
using namespace msh;

static std::string ps(const std::vector<P2> &v) { std::string s; for (auto &p : v) s += "(" + num(p[0]) + "," + num(p[1]) + ")"; return s; }
static uint64_t ph(const std::vector<P2> &v) { uint64_t h = v.size(); for (auto &p : v) h = mix(h ^ hb(p[0]) ^ mix(hb(p[1]))); return h; }
static double ulps(double x, int k) { if (x == 0) return k * 0x1p-80; for (; k > 0; --k) x = std::nextafter(x, INFINITY); for (; k < 0; ++k) x = std::nextafter(x, -INFINITY); return x; }
static float ulpsf(float x, int k) { for (; k > 0; --k) x = std::nextafterf(x, INFINITY); for (; k < 0; ++k) x = std::nextafterf(x, -INFINITY); return x; }
template <class T> static int sg(T x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static double mag(Rng &r) { return std::ldexp(r.uni(-1, 1), r.i(-30, 30)); }

// triples whose determinant sign is hard for floating point: ends of dyadic or rounded lines moved by ulps, huge offsets, mixed scales
static std::array<P2, 3> hard(Case &c)
{
    Rng &r = c.rng; P2 a, b, d; int k = r.i(0, 6);
    static const char *nm[] = {"random", "rounded_line", "dyadic_line", "ulps_square", "offset", "mixed_scale", "repeated"};
    c.event(std::string("orient/") + nm[k]);
    switch (k)
    {
    case 0: a = {mag(r), mag(r)}; b = {mag(r), mag(r)}; d = {mag(r), mag(r)}; break;
    case 1: { a = {r.uni(-1, 1), r.uni(-1, 1)}; b = {r.uni(-1, 1), r.uni(-1, 1)}; double t = r.coin() ? r.uni(-3, 3) : r.uni(0, 1); d = {a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])}; d[0] = ulps(d[0], r.i(-2, 2)); d[1] = ulps(d[1], r.i(-2, 2)); break; }
    case 2: { double dx = r.i(-1000, 1000), dy = r.i(-1000, 1000), s = std::ldexp(1., r.i(-40, 20)); P2 o{r.i(-1000, 1000) * s, r.i(-1000, 1000) * s}; int i = r.i(-50, 50), j = r.i(-50, 50), l = r.i(-50, 50); a = {o[0] + i * dx * s, o[1] + i * dy * s}; b = {o[0] + j * dx * s, o[1] + j * dy * s}; d = {o[0] + l * dx * s, o[1] + l * dy * s}; if (r.coin(0.6)) d[r.i(0, 1)] = ulps(d[r.i(0, 1)], r.i(-1, 1)); break; }
    case 3: { double x = r.coin() ? 0.5 : r.u01(); a = {ulps(x, r.i(0, 255)), ulps(x, r.i(0, 255))}; b = {12, 12}; d = {24, 24}; if (r.coin(0.3)) std::swap(a, b); break; }
    case 4: { double o = std::ldexp(1., r.i(5, 40)); a = {o + r.uni(-1, 1), o + r.uni(-1, 1)}; b = {o + r.uni(-1, 1), o + r.uni(-1, 1)}; double t = r.uni(-2, 2); d = {a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])}; break; }
    case 5: { a = {mag(r), mag(r)}; double t = std::ldexp(r.uni(-1, 1), r.i(-40, 10)); P2 v{mag(r), mag(r)}; b = {a[0] + v[0], a[1] + v[1]}; d = {a[0] + t * v[0], a[1] + t * v[1]}; break; }
    default: a = {mag(r), mag(r)}; b = {mag(r), mag(r)}; d = r.coin() ? a : b; if (r.coin(0.3)) b = a; if (r.coin(0.3)) d[0] = ulps(d[0], r.i(-1, 1));
    }
    std::array<P2, 3> t{a, b, d}; for (int i = 2; i > 0; --i) std::swap(t[i], t[r.i(0, i)]); return t;
}
FAMILY("orient2d", 60000, 3000000)
{
    auto t = hard(c); c.describe(ps({t.begin(), t.end()})); c.nontrivial(ph({t.begin(), t.end()}));
    int e = orient_exact(t[0], t[1], t[2]); c.event(e == 0 ? "orient/zero" : e > 0 ? "orient/ccw" : "orient/cw");
    double plain = gbs::orient_2d(t[0], t[1], t[2]); if (sg(plain) != e) c.event("orient/plain_formula_wrong");
    int p[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}};
    for (int i = 0; i < 6; ++i) { double x = gbs::orient2d(t[p[i][0]], t[p[i][1]], t[p[i][2]]); c.check(sg(x) == (i < 3 ? e : -e), "orient2d_sign", num(x) + " expected sign " + num(i < 3 ? e : -e)); }
    // magnitude: twice the signed area, to rounding
    ld ref = area2(t[0], t[1], t[2]); ld m = std::fabs((ld(t[0][0]) - t[2][0]) * (ld(t[1][1]) - t[2][1])) + std::fabs((ld(t[0][1]) - t[2][1]) * (ld(t[1][0]) - t[2][0]));
    c.near(gbs::orient2d(t[0], t[1], t[2]), ref, 1e-14L * m, "orient2d_value"); c.near(plain, ref, 1e-14L * m, "orient_2d_value");
    c.near(gbs::tri_area(t[0], t[1], t[2]), std::fabs(ref) / 2, 1e-14L * (m + std::fabs(ref)) + 4e-16L * (std::fabs((ld(t[1][0]) - t[0][0]) * (ld(t[2][1]) - t[0][1])) + std::fabs((ld(t[1][1]) - t[0][1]) * (ld(t[2][0]) - t[0][0]))), "tri_area");
    if (std::fabs(ref) > 1e-14L * m) c.check(bool(gbs::are_ccw(t[0], t[1], t[2])) == (e >= 0), "are_ccw");
}
FAMILY("orient2d_float", 20000, 1000000)
{
    Rng &r = c.rng; using F2 = std::array<float, 2>; F2 t[3]; int k = r.i(0, 3);
    auto f = [&] { return std::ldexp(float(r.uni(-1, 1)), r.i(-8, 8)); };
    for (auto &p : t) p = {f(), f()};
    if (k == 1) { float s = r.uni(-2, 2); t[2] = {t[0][0] + s * (t[1][0] - t[0][0]), t[0][1] + s * (t[1][1] - t[0][1])}; t[2][0] = ulpsf(t[2][0], r.i(-1, 1)); }
    if (k == 2) { t[0] = {ulpsf(0.5f, r.i(0, 255)), ulpsf(0.5f, r.i(0, 255))}; t[1] = {12, 12}; t[2] = {24, 24}; }
    if (k == 3) { float o = std::ldexp(1.f, r.i(4, 15)); for (auto &p : t) p = {o + float(r.uni(-1, 1)), o + float(r.uni(-1, 1))}; float s = r.uni(-2, 2); t[2] = {t[0][0] + s * (t[1][0] - t[0][0]), t[0][1] + s * (t[1][1] - t[0][1])}; }
    P2 q[3]; for (int i = 0; i < 3; ++i) q[i] = {t[i][0], t[i][1]}; c.describe(ps({q, q + 3})); c.nontrivial(ph({q, q + 3}));
    int e = orient_exact(q[0], q[1], q[2]); c.event("float/" + std::string(e ? "nonzero" : "zero"));
    c.check(sg(gbs::orient2d(t[0], t[1], t[2])) == e, "orient2d_float_sign"); c.check(sg(gbs::orient2d(t[1], t[0], t[2])) == -e, "orient2d_float_sign"); c.check(sg(gbs::orient2d(t[2], t[1], t[0])) == -e, "orient2d_float_sign");
}
static P2 pt(Rng &r, double s, P2 o) { return r.coin(0.3) ? P2{o[0] + s * r.i(-4, 4) / 4., o[1] + s * r.i(-4, 4) / 4.} : P2{o[0] + s * r.uni(-1, 1), o[1] + s * r.uni(-1, 1)}; }
FAMILY("circle_triangle", 20000, 1000000)
{
    Rng &r = c.rng; double s = std::pow(10., r.i(-2, 2)); P2 o{}; if (r.coin(0.3)) o = {s * r.uni(-20, 20), s * r.uni(-20, 20)};
    P2 a = pt(r, s, o), b = pt(r, s, o), d = pt(r, s, o), p = pt(r, s, o); int k = r.i(0, 5);
    if (k == 0) { double t = r.uni(-0.5, 1.5); p = {a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])}; }              // on the line of an edge
    if (k == 1) { double an = 6.283185307179586 * r.u01(), q[3]; for (auto &x : q) x = 6.283185307179586 * r.u01(); a = {o[0] + s * std::cos(q[0]), o[1] + s * std::sin(q[0])}; b = {o[0] + s * std::cos(q[1]), o[1] + s * std::sin(q[1])}; d = {o[0] + s * std::cos(q[2]), o[1] + s * std::sin(q[2])}; double h = s * (1 + r.i(-1, 1) * std::pow(10., r.i(-12, -2))); p = {o[0] + h * std::cos(an), o[1] + h * std::sin(an)}; } // near the circle
    if (k == 2) p = r.coin() ? a : r.coin() ? b : d;
    if (k == 3) { double u = r.u01(), v = r.u01() * (1 - u); p = {a[0] + u * (b[0] - a[0]) + v * (d[0] - a[0]), a[1] + u * (b[1] - a[1]) + v * (d[1] - a[1])}; }
    c.describe(ps({a, b, d, p})); c.nontrivial(ph({a, b, d, p}));
    int w = orient_exact(a, b, d); ld A = area2(a, b, d); if (!w || std::fabs(A) < 1e-6 * s * s) { c.event("skipped/flat"); return; }
    ld m; ld x = incircle_val(a, b, d, p, m); double y = gbs::in_circle(a, b, d, p);
    c.near(y, x, 1e-13L * m, "in_circle_value"); if (std::fabs(x) > 1e-13L * m) { int e = incircle_exact(a, b, d, p); c.check(sg(y) == e, "in_circle_sign", num(y)); c.check(sg(gbs::in_circle(b, a, d, p)) == -e, "in_circle_orientation"); c.event("in_circle/judged"); c.event(w * e > 0 ? "in_circle/inside" : "in_circle/outside"); }
    // membership: exact sign of the three edges
    int s1 = orient_exact(a, b, p) * w, s2 = orient_exact(b, d, p) * w, s3 = orient_exact(d, a, p) * w; bool in = s1 >= 0 && s2 >= 0 && s3 >= 0;
    ld near = std::min({std::fabs(area2(a, b, p)), std::fabs(area2(b, d, p)), std::fabs(area2(d, a, p))}), sc = (std::fabs(o[0]) + std::fabs(o[1]) + 2 * s) * s * 1e-14L;
    if (near > sc || p == a || p == b || p == d) { c.check(gbs::in_triangle(a, b, d, p) == in, "in_triangle", in ? "inside" : "outside"); c.event(in ? "triangle/inside" : "triangle/outside"); if (near > sc * 1e3L * (s * s / std::fabs(A)) || p == a || p == b || p == d) c.check(gbs::in_triangle_barycentric(a, b, d, p) == in, "in_triangle_barycentric"); } else c.event("triangle/edge");
    ld cond = s * s / std::fabs(A), tl = 1e-13L * cond * cond * (1 + (std::fabs(o[0]) + std::fabs(o[1])) / s);
    auto [u, v] = gbs::triangle_barycentric_coordinates(a, b, d, p); for (int i = 0; i < 2; ++i) c.near(a[i] + ld(u) * (ld(d[i]) - a[i]) + ld(v) * (ld(b[i]) - a[i]), p[i], 20 * s * tl, "barycentric_rebuild");
    if (A * A > 1e-12) { auto uv = gbs::computeUV<double, 2>(a, b, d, p); for (int i = 0; i < 2; ++i) c.near(a[i] + ld(uv[0]) * (ld(b[i]) - a[i]) + ld(uv[1]) * (ld(d[i]) - a[i]), p[i], 20 * s * tl, "computeUV_rebuild"); }
    auto q = gbs::circle_center(a, b, d); ld R = std::hypot(ld(q[0]) - a[0], ld(q[1]) - a[1]); ld tq = 1e-12L * cond * cond * (s + std::fabs(o[0]) + std::fabs(o[1])) * (1 + R / s); c.check(std::isfinite(q[0]), "circle_center_finite"); c.near(std::hypot(ld(q[0]) - b[0], ld(q[1]) - b[1]), R, tq, "circle_center"); c.near(std::hypot(ld(q[0]) - d[0], ld(q[1]) - d[1]), R, tq, "circle_center");
    auto ic = gbs::incenter(a, b, d); ld per = 0; { ld l[3]; auto dist = [&](P2 e, P2 f) { ld L = std::hypot(ld(e[0]) - f[0], ld(e[1]) - f[1]); per += L; return std::fabs(area2(e, f, P2{ic[0], ic[1]})) / L; }; l[0] = dist(a, b); l[1] = dist(b, d); l[2] = dist(d, a); ld ti = 1e-13L * (s + std::fabs(o[0]) + std::fabs(o[1])) * cond; c.near(l[0], l[1], ti, "incenter"); c.near(l[1], l[2], ti, "incenter"); c.near(l[0], std::fabs(A) / per, ti, "incenter_radius"); }
    c.near(gbs::perimeter(a, b, d), per, 1e-14L * per, "perimeter");
    // the same triangle in space
    using P3 = std::array<double, 3>; double z[3] = {s * r.uni(-1, 1), s * r.uni(-1, 1), s * r.uni(-1, 1)}; P3 a3{a[0], a[1], z[0]}, b3{b[0], b[1], z[1]}, d3{d[0], d[1], z[2]};
    { ld n[3] = {(ld(b3[1]) - a3[1]) * (ld(d3[2]) - a3[2]) - (ld(b3[2]) - a3[2]) * (ld(d3[1]) - a3[1]), (ld(b3[2]) - a3[2]) * (ld(d3[0]) - a3[0]) - (ld(b3[0]) - a3[0]) * (ld(d3[2]) - a3[2]), (ld(b3[0]) - a3[0]) * (ld(d3[1]) - a3[1]) - (ld(b3[1]) - a3[1]) * (ld(d3[0]) - a3[0])};
      c.near(gbs::tri_area(a3, b3, d3), std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]) / 2, 1e-13L * s * s, "tri_area_3d");
      auto g = gbs::sphere_center(a3, b3, d3); auto D = [&](const P3 &e) { return std::sqrt((ld(g[0]) - e[0]) * (ld(g[0]) - e[0]) + (ld(g[1]) - e[1]) * (ld(g[1]) - e[1]) + (ld(g[2]) - e[2]) * (ld(g[2]) - e[2])); }; ld R3 = D(a3), t3 = 1e-12L * cond * cond * (s + std::fabs(o[0]) + std::fabs(o[1])) * (1 + R3 / s); 
      if (s >= 0.1 && std::fabs(A) > 1e-3 * s * s) { c.check(std::isfinite(g[0] + g[1] + g[2]), "sphere_center_finite"); c.near(D(b3), R3, t3, "sphere_center"); c.near(D(d3), R3, t3, "sphere_center"); c.event("sphere_center"); } }
}
FAMILY("segments", 30000, 1500000)
{
    Rng &r = c.rng; double s = std::pow(10., r.i(-1, 2)); P2 o{}; if (r.coin(0.3)) o = {s * r.uni(-20, 20), s * r.uni(-20, 20)};
    P2 a = pt(r, s, o), b = pt(r, s, o), d = pt(r, s, o), e = pt(r, s, o); if (r.coin(0.15)) e = a; if (r.coin(0.1)) d = b; if (r.coin(0.1)) { double t = r.u01(); d = {a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])}; }
    c.describe(ps({a, b, d, e})); c.nontrivial(ph({a, b, d, e}));
    ld L1 = std::hypot(ld(b[0]) - a[0], ld(b[1]) - a[1]), L2 = std::hypot(ld(e[0]) - d[0], ld(e[1]) - d[1]); if (L1 < 1e-3 * s || L2 < 1e-3 * s) { c.event("skipped/short"); return; }
    ld dl = (ld(b[0]) - a[0]) * (ld(e[1]) - d[1]) - (ld(b[1]) - a[1]) * (ld(e[0]) - d[0]);
    int o1 = orient_exact(a, b, d), o2 = orient_exact(a, b, e), o3 = orient_exact(d, e, a), o4 = orient_exact(d, e, b); bool X = o1 * o2 < 0 && o3 * o4 < 0;
    ld k = std::min({std::fabs(area2(a, b, d)), std::fabs(area2(a, b, e)), std::fabs(area2(d, e, a)), std::fabs(area2(d, e, b))});
    bool shared = a == d || a == e || b == d || b == e;
    // a configuration at a distance from every limit, relative to the lengths, or sharing an end, is decided
    if (std::fabs(dl) > 1e-6 * L1 * L2 && (shared || k > 1e-7 * std::fabs(dl))) { bool x = gbs::seg_seg_strict_intersection(a, b, d, e); c.check(x == X, "segments_cross", x ? "reported" : "missed"); c.check(gbs::seg_seg_strict_intersection(e, d, b, a) == X, "segments_cross_symmetric"); c.event(X ? "segments/cross" : shared ? "segments/shared" : "segments/apart"); }
    else c.event("segments/degenerate");
    // half line from d along +x and along a direction
    if (k > 1e-7 * L1 * s && !shared)
    {
        bool straddle = (a[1] > d[1]) != (b[1] > d[1]); bool right = false; if (straddle) { int q = orient_exact(a, b, d); right = b[1] > a[1] ? q > 0 : q < 0; }
        ld dy = std::min(std::fabs(ld(a[1]) - d[1]), std::fabs(ld(b[1]) - d[1])), hh = std::fabs(ld(a[1]) - b[1]); if (dy > 1e-9 * s && hh > 1e-6 * s) { c.check(gbs::seg_H_strict_end_intersection(a, b, d) == (straddle && right), "half_line_crosses"); c.event(straddle && right ? "half_line/cross" : "half_line/apart"); }
        P2 D{e[0] - d[0], e[1] - d[1]}; if (std::fabs(dl) > 1e-6 * L1 * L2) { ld tt = ((ld(D[0])) * (ld(a[1]) - d[1]) - ld(D[1]) * (ld(a[0]) - d[0])) / (ld(D[1]) * (ld(b[0]) - a[0]) - ld(D[0]) * (ld(b[1]) - a[1])); ld ss = (ld(a[0]) + tt * (ld(b[0]) - a[0]) - d[0]) * D[0] + (ld(a[1]) + tt * (ld(b[1]) - a[1]) - d[1]) * D[1]; if (std::fabs(tt) > 1e-7 && std::fabs(tt - 1) > 1e-7 && std::fabs(ss) > 1e-7 * L2 * s) c.check(gbs::seg_D_strict_end_intersection(a, b, d, D) == (tt > 0 && tt < 1 && ss > 0), "direction_crosses"); }
    }
    // point on segment: within 1e-10 of cross product by definition
    { double t = r.uni(-0.5, 1.5); P2 q{a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])}; ld cr = std::fabs(area2(a, b, q)); if (cr < 1e-11 && std::fabs(t) > 1e-9 && std::fabs(t - 1) > 1e-9) { c.check(gbs::on_segment(a, b, q) == (t > 0 && t < 1), "on_segment"); c.event(t > 0 && t < 1 ? "on_segment/on" : "on_segment/beyond"); } c.check(gbs::on_segment(a, b, a) && gbs::on_segment(a, b, b), "on_segment_ends"); if (std::fabs(area2(a, b, d)) > 1e-9) c.check(!gbs::on_segment(a, b, d), "off_segment"); }
}
FAMILY("polygons", 3000, 120000)
{
    using namespace gbs; Rng &r = c.rng; double s = std::pow(10., r.i(0, 2)); int n = r.i(3, 16); P2 o{s * r.uni(-5, 5), s * r.uni(-5, 5)}; std::vector<P2> q; bool grid = r.coin(0.4);
    for (int i = 0; i < n; ++i) { double an = (i + r.uni(-0.3, 0.3)) * 6.283185307179586 / n, R = s * r.uni(0.3, 1); P2 p{o[0] + R * std::cos(an), o[1] + R * std::sin(an)}; if (grid) p = {std::round(p[0] / s * 4) * s / 4, std::round(p[1] / s * 4) * s / 4}; if (q.empty() || q.back() != p) q.push_back(p); }
    while (q.size() > 1 && q.front() == q.back()) q.pop_back(); if (q.size() < 3) return; bool cw = r.coin(); if (cw) std::reverse(q.begin(), q.end()); c.describe(ps(q)); c.nontrivial(ph(q));
    ld A = poly_area(q); if (std::fabs(A) < 1e-3 * s * s) return; std::vector<P2> cc = q; auto hl = make_HalfEdges<double, 2>(cc); auto face = make_shared_h_face<double, 2>(hl); auto ed = getFaceEdges(face);
    if (!grid || true) { c.check(are_edges_2d_ccw<double>(ed) == (A > 0), "edges_ccw", num(double(A))); c.event(A > 0 ? "polygon/ccw" : "polygon/cw"); }
    bool simple = true; for (size_t i = 0; i < q.size() && simple; ++i) for (size_t j = i + 1; j < q.size() && simple; ++j) { auto a = q[i], b = q[(i + 1) % q.size()], d = q[j], e = q[(j + 1) % q.size()]; bool adj = j == i + 1 || (i == 0 && j + 1 == q.size()); if (!adj && (cross_exact(a, b, d, e) || seg_dist(d, a, b) < 1e-9 * s || seg_dist(a, d, e) < 1e-9 * s)) simple = false; }
    if (!simple) { c.event("polygon/not_simple"); return; }
    for (int i = 0; i < 20; ++i)
    {
        P2 p = r.coin(0.3) ? P2{o[0] + s * r.uni(-1.2, 1.2), q[r.i(0, int(q.size()) - 1)][1]} : P2{o[0] + s * r.uni(-1.2, 1.2), o[1] + s * r.uni(-1.2, 1.2)}; if (grid && r.coin()) p = {std::round(p[0] / s * 4) * s / 4, std::round(p[1] / s * 4) * s / 4};
        ld dm = 1e300; for (size_t j = 0; j < q.size(); ++j) dm = std::min(dm, seg_dist(p, q[j], q[(j + 1) % q.size()]));
        if (dm == 0) { c.check(is_inside<double>(p, ed), "on_boundary_is_inside"); c.event("inside/on"); } else if (dm > 1e-7 * s) { bool in = inside_poly(p, A > 0 ? q : std::vector<P2>(q.rbegin(), q.rend())); c.check(is_inside<double>(p, ed) == in, "is_inside", ps({p})); c.event(in ? "inside/in" : "inside/out"); }
    }
    auto [mn, mx] = getCoordsMinMax(q); for (int k = 0; k < 2; ++k) { double lo = 1e300, hi = -1e300; for (auto &p : q) { lo = std::min(lo, p[k]); hi = std::max(hi, p[k]); } c.check(mn[k] == lo && mx[k] == hi, "coords_min_max"); }
}
int main(int a, char **b) { return run(a, b); }
