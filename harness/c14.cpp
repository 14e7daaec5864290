// C14: built surfaces contain the curves they are built from; built conics lie on the shape requested.
#include "gen.h"
#include <gbs/bscbuild.h>
#include <gbs/bssbuild.h>
#include <gbs/curves>
#include <gbs/surfaces>
using namespace vh;
using gbs::operator+;
using gbs::operator-;
using gbs::operator*;
using gbs::operator/;
template <size_t dim> using Pt = std::array<double, dim>;
template <size_t dim, bool rat> using BC = std::conditional_t<rat, gbs::BSCurveRational<double, dim>, gbs::BSCurve<double, dim>>;
template <size_t dim, bool rat> using BS = std::conditional_t<rat, gbs::BSSurfaceRational<double, dim>, gbs::BSSurface<double, dim>>;
static ld maxabs(const ref::Curve &R) { ld m = 0; for (auto &p : R.P) for (size_t k = 0; k < R.dim(); ++k) m = std::max(m, std::fabs(p[k] / (R.rational ? p.back() : 1))); return m + 1e-3; }
// sections: similar shapes stacked along z (3D) or shifted (2D), each with its own degree, knots and domain
struct Opt { bool same_kind = false, plain = false; double dz = 1; bool even = false; };
template <size_t dim, bool rat> static std::vector<BC<dim, rat>> sections(Rng &r, int n, Opt o, const std::vector<double> *z = nullptr)
{
    std::vector<BC<dim, rat>> L; int p0 = r.i(1, 4), s0 = r.i(1, 3); auto k0 = gen::knots<double>(r, p0, s0, o.plain ? 1 : -1); if (o.even) { k0.assign(p0 + 1, 0.); for (int i = 1; i < s0; ++i) k0.push_back(double(i) / s0); k0.insert(k0.end(), p0 + 1, 1.); }
    for (int j = 0; j < n; ++j)
    {
        int p = p0; auto k = k0; if (!o.same_kind && r.coin(0.6)) { p = r.i(1, 4); k = gen::knots<double>(r, p, r.i(1, 3), o.plain ? 1 : -1); }
        size_t np = k.size() - p - 1; std::vector<Pt<dim>> P(np); double zz = z ? (*z)[j] : j * o.dz + r.uni(-0.2, 0.2) * o.dz;
        for (size_t i = 0; i < np; ++i) { double t = np > 1 ? double(i) / (np - 1) : 0; P[i] = {}; P[i][0] = t + r.uni(-0.05, 0.05); P[i][1] = 0.4 * std::sin(3 * t) + r.uni(-0.15, 0.15) + (dim == 2 ? zz : 0); if (dim == 3) P[i][2] = zz + r.uni(-0.05, 0.05); }
        if constexpr (rat) { auto w = gen::weights<double>(r, np); if (o.even || o.dz == 1.5) for (auto &x : w) x = std::pow(x, 0.4); L.emplace_back(P, k, w, p); } else L.emplace_back(P, k, p);
    }
    return L;
}
template <size_t dim, bool rat> static ref::Surf SR(const BS<dim, rat> &S) { return gen::R(S); }
static ld pmax(const ref::Surf &S, bool rat) { ld m = 0; for (auto &p : S.P) for (size_t k = 0; k + (rat ? 1 : 0) < p.size(); ++k) m = std::max(m, std::fabs(p[k] / (rat ? p.back() : 1))); return m; }
// S(.,v) is the curve O, its domain mapped on [A,B]
static void contains(Case &c, Rng &r, const ref::Surf &S, ld A, ld B, ld v, const ref::Curve &O, ld tol, const std::string &key, int n = 7)
{
    auto [a, b] = O.bounds(); for (int i = 0; i < n; ++i) { ld t = i == 0 ? 0 : i == 1 ? 1 : r.u01(); c.near_pt(S.ders(A + t * (B - A), v, 0, 0)[0][0].v, O.value(a + t * (b - a), 0).v, tol, key, "v=" + num(double(v)) + " t=" + num(double(t))); }
}
// parameter v in [v1,v2] where S(.,v) is nearest of the curve O; returns the rms distance as well
static std::pair<ld, ld> locate(const ref::Surf &S, ld A, ld B, ld v1, ld v2, const ref::Curve &O)
{
    auto [a, b] = O.bounds(); std::vector<std::pair<ld, std::vector<ld>>> pts; for (ld t : {0.0L, 0.31L, 0.57L, 0.83L, 1.0L}) pts.push_back({A + t * (B - A), O.value(a + t * (b - a), 0).v});
    auto f = [&](ld v, ld &g) { ld s = 0, n = 0, d2 = 0; for (auto &[u, p] : pts) { auto D = S.ders(u, v, 0, 1); for (size_t k = 0; k < p.size(); ++k) { ld e = D[0][0].v[k] - p[k]; s += e * e; n += e * D[0][1].v[k]; d2 += D[0][1].v[k] * D[0][1].v[k]; } } g = d2 > 0 ? n / d2 : 0; return s; };
    ld best = 1e300L, bv = v1, g; const int N = 600; std::vector<std::pair<ld, ld>> sc; for (int i = 0; i <= N; ++i) { ld v = v1 + (v2 - v1) * i / N; sc.push_back({f(v, g), v}); } std::sort(sc.begin(), sc.end());
    for (int i = 0; i < 12; ++i) { ld v = sc[i].second; for (int it = 0; it < 40; ++it) { ld s = f(v, g); if (s < best) { best = s; bv = v; } ld w = std::min(std::max(v - g, v1), v2); if (std::fabs(w - v) < 1e-17L * (std::fabs(v) + 1)) break; v = w; } ld s = f(v, g); if (s < best) { best = s; bv = v; } }
    return {bv, std::sqrt(best / pts.size())};
}

template <size_t dim, bool rat> static void loft_given(Case &c)
{
    using namespace gbs; Rng &r = c.rng; int n = r.i(2, 7); Opt o; o.same_kind = r.coin(0.2); auto L = sections<dim, rat>(r, n, o);
    std::vector<double> v(n); double x = r.uni(-2, 2); for (auto &y : v) { y = x; x += std::pow(2., r.uni(-1.2, 1.2)); } if (r.coin(0.3)) { double a = v.front(), b = v.back(); for (auto &y : v) y = (y - a) / (b - a); }
    size_t q = r.i(1, 5), qc = std::min<size_t>(q, n - 1); int way = r.i(0, 3); std::string d; uint64_t h = mix(n + 10 * q + 1000 * way); for (auto &s : L) { d += gen::cdesc(s) + "; "; h = mix(h ^ gen::chash(s)); }
    c.describe((rat ? "rational " : "") + num(n) + " sections q " + num(q) + " way " + num(way) + " v " + num(v.front()) + ".." + num(v.back()) + ": " + d); c.nontrivial(h); c.event(rat ? "loft/rational" : "loft/polynomial");
    auto make = [&]() -> BS<dim, rat> {
        if (way == 0) return loft(L, v, q);
        if (way == 1) { std::list<BC<dim, rat>> l(L.begin(), L.end()); return loft(l, v, q); }
        if (way == 2) { c.event("loft/flat_knots"); auto k = build_simple_mult_flat_knots(v, qc); return loft_generic<double, dim>(L, v, k, q); }
        if (n == 3) { c.event("loft/braces"); return loft({L[0], L[1], L[2]}, v, q); }
        if constexpr (!rat) { c.event("loft/pointers"); std::vector<std::shared_ptr<Curve<double, dim>>> P; for (auto &s : L) P.push_back(std::make_shared<BC<dim, rat>>(s)); return loft(P, v, q); }
        return loft_generic<double, dim>(L.begin(), L.end(), v, q); };
    auto L0 = L; auto S = make(); if (q > qc) c.event("loft/degree_clamped");
    c.check(S.degreeV() == qc, "loft_degree_v", num(S.degreeV())); c.check(S.nPolesV() == size_t(n), "loft_poles_v"); size_t pm = 0; for (auto &s : L) pm = std::max(pm, s.degree()); c.check(S.degreeU() == pm, "loft_degree_u");
    for (int j = 0; j < n; ++j) c.check(L[j].poles() == L0[j].poles() && L[j].knotsFlats() == L0[j].knotsFlats(), "loft_sections_unchanged");
    auto R = SR<dim, rat>(S); auto b = S.bounds(); auto b0 = L[0].bounds(); c.near(b[0], b0[0], 1e-13, "loft_domain_u"); c.near(b[1], b0[1], 1e-12, "loft_domain_u"); c.near(b[2], v.front(), 1e-13, "loft_domain_v"); c.near(b[3], v.back(), 1e-13, "loft_domain_v");
    ld pm2 = pmax(R, rat); for (int j = 0; j < n; ++j) { auto O = gen::R(L[j]); contains(c, r, R, b[0], b[1], v[j], O, 1e-9 * (pm2 + maxabs(O)), "loft_section"); c.event("loft/sections"); }
}
FAMILY("loft_given", 500, 15000) { c.rng.coin(0.4) ? (c.rng.coin() ? loft_given<3, true>(c) : loft_given<2, true>(c)) : (c.rng.coin() ? loft_given<3, false>(c) : loft_given<2, false>(c)); }

template <size_t dim, bool rat> static void loft_auto(Case &c)
{
    using namespace gbs; Rng &r = c.rng; int n = r.i(2, 6); Opt o; o.same_kind = r.coin(0.3); auto L = sections<dim, rat>(r, n, o); int deg = 0;
    if (o.same_kind && !rat && r.coin(0.5)) { deg = 1; auto P0 = L[0].poles().front(); for (auto &s : L) { auto P = s.poles(); P.front() = P0; s = BC<dim, rat>(P, s.knotsFlats(), s.degree()); } c.event("auto/common_end"); } // one row of poles is a point
    if (!rat && n == 2 && r.coin(0.1)) { L[1] = L[0]; deg = 2; c.event("auto/coincident"); }
    size_t q = r.i(1, 5), qc = std::min<size_t>(q, n - 1); int way = r.i(0, 2); std::string d; uint64_t h = mix(n + 10 * q + 1000 * way); for (auto &s : L) { d += gen::cdesc(s) + "; "; h = mix(h ^ gen::chash(s)); }
    c.describe((rat ? "rational " : "") + num(n) + " sections q_max " + num(q) + " way " + num(way) + ": " + d); c.nontrivial(h); c.event(rat ? "auto/rational" : "auto/polynomial");
    auto make = [&]() -> BS<dim, rat> {
        if (way == 0) return loft(L, q);
        if (way == 1 && n == 2) return loft({L[0], L[1]}, q);
        if (way == 1) { std::list<BC<dim, rat>> l(L.begin(), L.end()); return loft(l, q); }
        if constexpr (!rat) { std::vector<std::shared_ptr<Curve<double, dim>>> P; for (auto &s : L) P.push_back(std::make_shared<BC<dim, rat>>(s)); return loft(P, q); }
        return loft_generic<double, dim>(L, q); };
    auto S = make(); c.check(S.degreeV() == qc, "auto_degree_v", num(S.degreeV())); auto R = SR<dim, rat>(S); auto b = S.bounds(); auto b0 = L[0].bounds(); c.near(b[0], b0[0], 1e-13, "auto_domain_u"); c.near(b[1], b0[1], 1e-12, "auto_domain_u"); c.near(b[2], 0, 1e-13, "auto_domain_v"); c.near(b[3], 1, 1e-13, "auto_domain_v");
    ld prev = b[2], pm2 = pmax(R, rat);
    for (int j = 0; j < n; ++j)
    {
        auto O = gen::R(L[j]); ld tol = 1e-8 * (pm2 + maxabs(O)), v = b[2]; if (j == n - 1) v = b[3]; else if (j) { auto [w, e] = locate(R, b[0], b[1], prev, b[3], O); v = w; c.event("auto/inner_sections"); c.check(v > prev && v < b[3], "auto_order"); }
        contains(c, r, R, b[0], b[1], v, O, tol, "auto_section"); c.event("auto/sections"); prev = v;
    }
}
FAMILY("loft_auto", 300, 9000) { c.rng.coin(0.4) ? (c.rng.coin() ? loft_auto<3, true>(c) : loft_auto<2, true>(c)) : (c.rng.coin() ? loft_auto<3, false>(c) : loft_auto<2, false>(c)); }

// sections along a spine
template <bool rat> static void loft_spine(Case &c)
{
    using namespace gbs; Rng &r = c.rng; int n = r.i(2, 6); std::vector<double> z(n); double x = 0; bool even = r.coin(0.3); for (auto &y : z) { y = x; x += even ? 1 : std::pow(2., r.uni(-1, 1)); }
    bool approx = r.coin(0.35); Opt o; o.plain = true; o.same_kind = r.coin(0.3); if (approx) o.even = o.same_kind = true; auto L = sections<3, rat>(r, n, o, &z); size_t q = r.i(1, 4); if (o.same_kind && !rat && r.coin(0.4)) { auto P0 = L[0].poles().front(); for (auto &s : L) { auto P = s.poles(); P.front() = P0; s = BC<3, rat>(P, s.knotsFlats(), s.degree()); } c.event("spine/common_end"); }
    // the spine goes through every section near its middle
    auto spine = [&] { int m = r.i(2, 4); points_vector<double, 3> P; double z0 = -0.6, z1 = z.back() + 0.6; for (int i = 0; i < m; ++i) { double t = double(i) / (m - 1); P.push_back({0.5 + r.uni(-0.2, 0.2), 0.3 + r.uni(-0.2, 0.2), z0 + t * (z1 - z0)}); } std::vector<double> k; double a = r.coin() ? 0 : r.uni(-2, 2), w = r.coin() ? 1 : std::pow(2., r.uni(-1, 2)); for (int i = 0; i < m; ++i) k.push_back(a); for (int i = 0; i < m; ++i) k.push_back(a + w); return BSCurve<double, 3>(P, k, m - 1); }();
    std::string d; uint64_t h = mix(n + 10 * q); for (auto &s : L) { d += gen::cdesc(s) + "; "; h = mix(h ^ gen::chash(s)); } h = mix(h ^ gen::chash(spine)); c.describe((rat ? "rational " : "") + std::string(approx ? "approx " : "") + num(n) + " sections q_max " + num(q) + " spine " + gen::cdesc(spine) + ": " + d); c.nontrivial(h); c.event(approx ? (rat ? "spine/approx_rational" : "spine/approx") : rat ? "spine/rational" : "spine/polynomial");
    std::list<BSCurveGeneral<double, 3, rat> *> PL; for (auto &s : L) PL.push_back(&s); size_t qc = std::min<size_t>(q, n - 1);
    auto make = [&]() -> BS<3, rat> { if constexpr (!rat) { if (r.coin()) { std::list<BSCurve<double, 3>> l(L.begin(), L.end()); return approx ? loft_approx(l, spine, q) : loft(l, spine, q); } } return approx ? loft_approx<double, 3, rat>(PL, spine, q) : loft<double, 3, rat>(PL, spine, q); };
    auto S = make(); auto R = SR<3, rat>(S); auto b = S.bounds(); c.check(S.degreeV() == qc, "spine_degree_v", num(S.degreeV()) + " for " + num(qc));
    auto RS = gen::R(spine); ld prev = b[2], pm2 = pmax(R, rat); if (!rat) c.check(pm2 < 1e4, "spine_blown_up", num(double(pm2))); pm2 = std::min<ld>(pm2, 100);
    for (int j = 0; j < n; ++j)
    {
        auto O = gen::R(L[j]); ld tol = (approx ? 1e-6 : 1e-8) * (pm2 + maxabs(O)), v = b[2]; if (j == n - 1) v = b[3]; else if (j) { auto [w, e] = locate(R, b[0], b[1], prev, b[3], O); v = w; c.check(v > prev && v < b[3], "spine_order"); c.event("spine/inner_sections"); }
        contains(c, r, R, b[0], b[1], v, O, tol, approx ? "spine_approx_section" : "spine_section"); prev = v;
        if (!approx)
        {   // tangent along the spine at the point of the spine nearest of the section
            auto e = extrema_curve_curve<double, 3>(spine, L[j], 1e-9); auto t = RS.ders(e[0], 1)[1].v; ld nt = std::sqrt(t[0] * t[0] + t[1] * t[1] + t[2] * t[2]);
            for (int i = 0; i < 4; ++i) { ld u = b[0] + r.u01() * (b[1] - b[0]); auto D = R.ders(u, v, 0, 1)[0][1].v; ld nd = std::sqrt(D[0] * D[0] + D[1] * D[1] + D[2] * D[2]), dot = (D[0] * t[0] + D[1] * t[1] + D[2] * t[2]) / (nd * nt + 1e-30); c.near(dot, 1, 1e-6, "spine_tangent", "section " + num(j)); c.event("spine/tangents"); }
        }
    }
}
FAMILY("loft_spine", 250, 6000) { c.rng.coin() ? loft_spine<true>(c) : loft_spine<false>(c); }
FAMILY("loft_few", 40, 400)
{
    using namespace gbs; Rng &r = c.rng; auto L = sections<3, false>(r, 1, Opt{}); BSCurve<double, 3> sp({{0, 0, 0}, {0, 0, 1}}, {0., 0., 1., 1.}, 1); c.describe("one section"); c.nontrivial(gen::chash(L[0]));
    std::list<BSCurve<double, 3>> l(L.begin(), L.end()), none; int w = r.i(0, 3); c.event("few/" + num(w)); c.check(throws([&] { w == 0 ? (void)loft(l, sp) : w == 1 ? (void)loft(none, sp) : w == 2 ? (void)loft_approx(l, sp) : (void)loft_approx(none, sp); }), "few_accepted", num(w));
}

// curves which are not splines are within the requested deviation
FAMILY("loft_general", 60, 800)
{
    using namespace gbs; Rng &r = c.rng; int n = r.i(2, 4); std::vector<std::shared_ptr<Curve<double, 3>>> L; uint64_t h = 0; auto B = sections<3, false>(r, n, Opt{false, true, 1}); auto T = sections<3, true>(r, n, Opt{true, true, 1.5, true}); for (auto &t : T) while (t.degree() < 2) t = sections<3, true>(r, 1, Opt{true, true, 1.5, true})[0]; std::vector<bool> exact; std::string d;
    for (int j = 0; j < n; ++j) { bool ex = r.coin(); exact.push_back(ex); if (ex) L.push_back(std::make_shared<BSCurve<double, 3>>(B[j])); else { L.push_back(std::make_shared<BSCurveRational<double, 3>>(T[j])); } d += ex ? gen::cdesc(B[j]) : gen::cdesc(T[j]); h = mix(h ^ (ex ? gen::chash(B[j]) : gen::chash(T[j]))); }
    size_t q = r.i(1, 3); std::vector<double> v; for (int j = 0; j < n; ++j) v.push_back(j + 0.3 * r.u01()); double dev = r.coin() ? 0.01 : 0.001; c.describe("dev " + num(dev) + " " + d); c.nontrivial(h);
    auto S = loft(L, v, q, dev, 200, 5); auto R = SR<3, false>(S); auto b = S.bounds();
    for (int j = 0; j < n; ++j) { auto O = exact[j] ? gen::R(B[j]) : gen::R(T[j]); c.event(exact[j] ? "general/kept" : "general/approximated"); auto [a, e] = O.bounds(); if (exact[j]) contains(c, r, R, b[0], b[1], v[j], O, 1e-9 * 30, "general_section"); else { std::vector<std::vector<ld>> dense; for (int k = 0; k <= 1500; ++k) dense.push_back(O.value(a + (e - a) * k / 1500.0L, 0).v);
        for (double t : {0., 1., 0.23, 0.5, 0.71}) { auto x = R.ders(b[0] + t * (b[1] - b[0]), v[j], 0, 0)[0][0].v; if (t == 0 || t == 1) { c.near_pt(x, O.value(t ? e : a, 0).v, 1e-7, "general_ends", "t=" + num(t)); continue; } ld best = 1e30; for (auto &y : dense) { ld s2 = 0; for (int k = 0; k < 3; ++k) s2 += (x[k] - y[k]) * (x[k] - y[k]); best = std::min(best, s2); } c.check(std::sqrt(best) < 1.2 * dev + 2e-3, "general_approximated", "t=" + num(t) + " at " + num(double(std::sqrt(best)))); } } }
}

// network of curves on a smooth surface, shared parameters at the crossings
FAMILY("gordon", 80, 1200)
{
    using namespace gbs; Rng &r = c.rng; size_t p = r.i(2, 3), q = r.i(2, 3); auto kn = [&](size_t p) { std::vector<double> k(p + 1, 0.); int m = r.i(0, 2); for (int i = 1; i <= m; ++i) k.push_back(double(i) / (m + 1)); for (size_t i = 0; i <= p; ++i) k.push_back(1.); double a = r.coin() ? 0 : r.uni(-1, 1), w = r.coin() ? 1 : std::pow(2., r.uni(-1, 1)); for (auto &x : k) x = a + w * x; return k; };
    auto ku = kn(p), kv = kn(q); size_t nu = ku.size() - p - 1, nv = kv.size() - q - 1; points_vector<double, 3> P; for (size_t j = 0; j < nv; ++j) for (size_t i = 0; i < nu; ++i) { double s = double(i) / (nu - 1), t = double(j) / (nv - 1); P.push_back({s + r.uni(-0.04, 0.04), t + r.uni(-0.04, 0.04), 0.3 * std::sin(2 * s + t) + r.uni(-0.15, 0.15)}); }
    BSSurface<double, 3> F(P, ku, kv, p, q); int mu = r.i(2, 5), mv = r.i(2, 5); auto stations = [&](double a, double b, int m) { std::vector<double> s(m); for (int i = 0; i < m; ++i) s[i] = a + (b - a) * (i + (i && i < m - 1 ? r.uni(-0.25, 0.25) : 0)) / (m - 1); return s; };
    auto us = stations(ku.front(), ku.back(), mv), vs = stations(kv.front(), kv.back(), mu); std::vector<BSCurve<double, 3>> U, V; for (auto v : vs) U.push_back(F.isoV(v)); for (auto u : us) V.push_back(F.isoU(u));
    // bend the curves away from the surface, keeping the crossings; different degrees and knots
    bool bend = r.coin(0.7); auto bump = [&](BSCurve<double, 3> C, const std::vector<double> &at) { // C + e * prod (u-at)
        if (!bend) return C; auto [a, b] = C.bounds(); size_t m = at.size(); Pt<3> e{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}; std::vector<std::pair<double, Pt<3>>> dummy; size_t dg = std::max(C.degree(), m); auto D = C; while (D.degree() < dg) D.increaseDegree();
        // poles of the polynomial of degree m as a spline on the knots of D by interpolation at Greville points
        auto k = D.knotsFlats(); size_t n = D.poles().size(); std::vector<double> g(n); for (size_t i = 0; i < n; ++i) { double s = 0; for (size_t j = 1; j <= dg; ++j) s += k[i + j]; g[i] = s / dg; } points_vector<double, 1> Y(n); double sc = std::pow((b - a) / 2.5, double(m)); for (size_t i = 0; i < n; ++i) { double y = 0.08; for (auto x : at) y *= (g[i] - x); Y[i] = {y / sc}; }
        auto pl = build_poles(Y, k, g, dg); auto Q = D.poles(); for (size_t i = 0; i < n; ++i) for (int d = 0; d < 3; ++d) Q[i][d] += e[d] * pl[i][0]; return BSCurve<double, 3>(Q, k, dg); };
    if (bend) { for (auto &C : U) if (r.coin(0.7)) C = bump(C, us); for (auto &C : V) if (r.coin(0.7)) C = bump(C, vs); }
    for (auto &C : U) if (r.coin(0.3)) { C.insertKnot(ku.front() + (ku.back() - ku.front()) * r.uni(0.1, 0.9)); } for (auto &C : V) if (r.coin(0.2)) C.increaseDegree();
    std::string d; uint64_t h = 0; for (auto &C : U) { d += gen::cdesc(C) + "; "; h = mix(h ^ gen::chash(C)); } d += " / "; for (auto &C : V) { d += gen::cdesc(C) + "; "; h = mix(h ^ gen::chash(C)); } c.describe(num(mu) + "x" + num(mv) + " " + d); c.nontrivial(h); c.event(bend ? "gordon/bent" : "gordon/isos");
    bool broken = r.coin(0.15); if (broken) { auto &C = V[r.i(0, mv - 1)]; auto Q = C.poles(); for (auto &x : Q) x[2] += 0.3; C = BSCurve<double, 3>(Q, C.knotsFlats(), C.degree()); c.event("gordon/broken"); c.check(throws([&] { gordon<double, 3>(U.begin(), U.end(), V.begin(), V.end(), 1e-6); }), "gordon_accepted"); return; }
    auto make = [&]() { if (r.coin()) return gordon<double, 3>(U.begin(), U.end(), V.begin(), V.end(), 1e-6); std::list<BSCurve<double, 3>> a(U.begin(), U.end()), b(V.begin(), V.end()); c.event("gordon/lists"); return gordon<double, 3>(a.begin(), a.end(), b.begin(), b.end(), 1e-6); };
    auto S = make(); auto R = SR<3, false>(S); auto b = S.bounds(); c.near(b[0], ku.front(), 1e-5, "gordon_domain"); c.near(b[1], ku.back(), 1e-5, "gordon_domain"); c.near(b[2], kv.front(), 1e-5, "gordon_domain"); c.near(b[3], kv.back(), 1e-5, "gordon_domain");
    for (int i = 0; i < mu; ++i) { auto O = gen::R(U[i]); for (int k = 0; k < 7; ++k) { double u = b[0] + (b[1] - b[0]) * (k == 0 ? 0 : k == 1 ? 1 : r.u01()); c.near_pt(R.ders(u, std::min(std::max(vs[i], b[2]), b[3]), 0, 0)[0][0].v, O.value(std::min(std::max(u, ku.front()), ku.back()), 0).v, 1e-6, "gordon_u_curve", "curve " + num(i) + " u=" + num(u)); c.event("gordon/points"); } }
    for (int i = 0; i < mv; ++i) { auto O = gen::R(V[i]); for (int k = 0; k < 7; ++k) { double v = b[2] + (b[3] - b[2]) * (k == 0 ? 0 : k == 1 ? 1 : r.u01()); c.near_pt(R.ders(std::min(std::max(us[i], b[0]), b[1]), v, 0, 0)[0][0].v, O.value(std::min(std::max(v, kv.front()), kv.back()), 0).v, 1e-6, "gordon_v_curve", "curve " + num(i) + " v=" + num(v)); c.event("gordon/points"); } }
}

FAMILY("revolution", 400, 12000)
{
    using namespace gbs; Rng &r = c.rng; auto C = gen::smooth_curve<double, 2>(r, r.i(1, 4), r.i(1, 4), 1); bool rat = r.coin(0.3); auto w = gen::weights<double>(r, C.poles().size()); BSCurveRational<double, 2> Q(C.poles(), C.knotsFlats(), w, C.degree());
    Pt<3> O{}, X, Y; bool origin = r.coin(0.2); if (!origin) for (auto &x : O) x = r.uni(-3, 3); for (;;) { for (auto &x : X) x = r.uni(-1, 1); for (auto &x : Y) x = r.uni(-1, 1); auto z = cross(X, Y); if (norm(X) > 0.3 && norm(Y) > 0.3 && norm(z) > 0.2) break; } if (r.coin(0.3)) { X = {0, 0, 1}; Y = {1, 0, 0}; } X = X / norm(X); Y = Y - (X * Y) * X; Y = Y / norm(Y);
    double a1 = 0, a2 = 2 * M_PI; if (r.coin(0.5)) { a1 = r.uni(-3, 1); a2 = a1 + r.uni(0.3, 6); } auto &&prof = rat ? gen::R(Q) : gen::R(C);
    c.describe(num(rat) + " axis " + num(O[0]) + "," + num(O[1]) + "," + num(O[2]) + " dir " + num(X[0]) + "," + num(X[1]) + "," + num(X[2]) + " radial " + num(Y[0]) + "," + num(Y[1]) + "," + num(Y[2]) + " span " + num(a1) + ".." + num(a2) + " profile " + (rat ? gen::cdesc(Q) : gen::cdesc(C))); c.nontrivial(mix(gen::chash(C) ^ uint64_t((int64_t)(1e6 * X[0])))); c.event(origin ? "revolution/origin" : "revolution/moved"); if (rat) c.event("revolution/rational");
    ax2<double, 3> ax{O, X, Y}; auto pc = rat ? std::shared_ptr<Curve<double, 2>>(std::make_shared<BSCurveRational<double, 2>>(Q)) : std::shared_ptr<Curve<double, 2>>(std::make_shared<BSCurve<double, 2>>(C)); SurfaceOfRevolution<double> S = !rat && r.coin() ? SurfaceOfRevolution<double>(C, ax, a1, a2) : SurfaceOfRevolution<double>(pc, ax, a1, a2);
    auto b = S.bounds(); auto cb = prof.bounds(); c.check(b[0] == double(cb[0]) && b[1] == double(cb[1]) && b[2] == a1 && b[3] == a2, "revolution_bounds"); auto Zc = cross(X, Y); ld m = maxabs(prof);
    auto us = gen::params(r, C.knotsFlats(), 6); if (r.coin(0.4)) { std::vector<double> g(us.begin(), us.end()); }
    for (auto u : us)
    {
        u = std::min(std::max(u, b[0]), b[1]); ld th = a1 + (a2 - a1) * r.u01(); auto D = prof.ders(u, 2); auto f = [&](int du, int dv) { ld ph = th + dv * M_PIl / 2; std::vector<ld> z(3); for (int k = 0; k < 3; ++k) { ld rad = D[du].v[1] * (std::cos(ph) * Y[k] + std::sin(ph) * Zc[k]), axl = dv ? 0 : D[du].v[0] * X[k]; z[k] = rad + axl + (du || dv ? 0 : O[k]); } return z; };
        for (int du = 0; du <= 2; ++du) for (int dv = 0; dv <= 3 && du + dv <= 3; ++dv) { if (du && rat && false) continue; auto x = S.value(u, double(th), du, dv); c.near_pt(x, f(du, dv), 1e-10 * (D[du].b + m + 5), "revolution_d" + num(du) + num(dv), "u=" + num(u) + " v=" + num(double(th))); c.event("revolution/values"); }
        // on the circle around the axis
        auto x = S.value(u, double(th)); ld ax_ = 0, rr = 0; for (int k = 0; k < 3; ++k) ax_ += (x[k] - O[k]) * X[k]; for (int k = 0; k < 3; ++k) { ld e = x[k] - O[k] - ax_ * X[k]; rr += e * e; } c.near(ax_, D[0].v[0], 1e-11 * (m + 5), "revolution_height"); c.near(std::sqrt(rr), std::fabs(D[0].v[1]), 1e-11 * (m + 5), "revolution_radius");
    }
    int N = r.i(3, 9); std::vector<double> U, V; for (int i = 0; i < N; ++i) { U.push_back(b[0] + (b[1] - b[0]) * r.u01()); V.push_back(a1 + (a2 - a1) * r.u01()); } auto G = S.values(U, V); c.check(G.size() == U.size() * V.size() || G.size() == U.size(), "revolution_batch_size");
}

template <size_t dim> static void primitives(Case &c)
{
    using namespace gbs; Rng &r = c.rng; double sc = std::pow(10., r.uni(-3, 3)); auto pt = [&] { Pt<dim> p; for (auto &x : p) x = r.coin(0.2) ? 0 : sc * r.uni(-1, 1); return p; };
    if (r.coin(0.35))
    {
        auto a = pt(), b = pt(); if (distance(a, b) < 1e-3 * sc) b[0] += sc; bool nrm = r.coin(); c.describe("segment " + num(sc)); c.nontrivial(mix(uint64_t((int64_t)(1e9 * a[0] / sc)) ^ uint64_t((int64_t)(1e9 * b[dim - 1] / sc)))); c.event("primitive/segment"); auto S = build_segment(a, b, nrm); auto [u1, u2] = S.bounds(); ld n = 0; for (size_t k = 0; k < dim; ++k) n += ld(b[k] - a[k]) * (b[k] - a[k]); n = std::sqrt(n);
        c.check(u1 == 0, "segment_bounds"); c.near(u2, nrm ? 1 : n, nrm ? 0 : 1e-14 * n, "segment_bounds"); auto R = gen::R(S); for (double t : {0., 1., r.u01(), r.u01()}) { std::vector<ld> z; for (size_t k = 0; k < dim; ++k) z.push_back(a[k] + t * (ld(b[k]) - a[k])); c.near_pt(S.value(t == 1 ? u2 : t * u2), z, 1e-14 * sc * 10, "segment_point"); if (!nrm) { auto d = S.value(t * u2, 1); c.near(norm(d), 1, 1e-12, "segment_speed"); } } return;
    }
    double r1 = sc * r.uni(0.1, 2), r2 = r.coin(0.5) ? r1 : sc * r.uni(0.1, 2); bool circle = r1 == r2; auto ctr = pt(); if (r.coin(0.3)) ctr = {}; c.describe((circle ? "circle " : "ellipse ") + num(r1) + " " + num(r2)); c.nontrivial(mix(uint64_t((int64_t)(1e9 * r1 / sc)) ^ uint64_t((int64_t)(1e8 * r2 / sc)))); c.event(circle ? "primitive/circle" : "primitive/ellipse"); bool bare = ctr == Pt<dim>{} && r.coin();
    auto E = circle ? (bare ? build_circle<double, dim>(r1) : build_circle<double, dim>(r1, ctr)) : (bare ? build_ellipse<double, dim>(r1, r2) : build_ellipse<double, dim>(r1, r2, ctr)); auto [u1, u2] = E.bounds(); ld turn = 0, pa = 0;
    for (int i = 0; i <= 64; ++i) { double u = u1 + (u2 - u1) * (i == 64 ? 1 : (i + (i % 8 ? 0.7 * r.u01() : 0)) / 64.); auto x = E.value(std::min(u, u2)); ld X = (x[0] - ctr[0]) / r1, Y = (x[1] - ctr[1]) / r2; c.near(X * X + Y * Y, 1, 1e-12 * (1 + std::fabs(ctr[0]) / r1 + std::fabs(ctr[1]) / r2), "conic_on_shape", "u=" + num(u)); for (size_t k = 2; k < dim; ++k) c.near(x[k], ctr[k], 1e-13 * (std::fabs(ctr[k]) + 1e-300), "conic_plane"); ld a = std::atan2(Y, X); if (i) { ld da = a - pa; if (da < -M_PIl) da += 2 * M_PIl; if (da > M_PIl) da -= 2 * M_PIl; turn += da; } pa = a; c.event("primitive/points"); }
    c.near(std::fabs(turn), 2 * M_PIl, 1e-9, "conic_turn"); auto s = E.value(u1), e = E.value(u2); c.near(s[0], ctr[0] + r1, 1e-13 * (r1 + std::fabs(ctr[0])), "conic_start"); c.near(s[1], ctr[1], 1e-13 * (r2 + std::fabs(ctr[1])), "conic_start"); c.near_pt(s, e, 1e-13 * (std::fabs(ctr[0]) + std::fabs(ctr[1]) + r1 + r2), "conic_closed");
}
FAMILY("primitives", 400, 12000) { c.rng.coin() ? primitives<2>(c) : primitives<3>(c); }

template <size_t dim> static void calculus(Case &c)
{
    using namespace gbs; Rng &r = c.rng; int p = r.i(1, 6), mm = r.coin(0.7) ? std::max(1, p - 1) : p; auto C = gen::curve<double, dim>(r, p, r.i(1, 5), mm, 1); c.describe(gen::cdesc(C)); c.nontrivial(gen::chash(C)); auto R = gen::R(C); auto b = C.bounds(); auto us = gen::params(r, C.knotsFlats(), 10); ld m = maxabs(R);
    auto D = build_derivate(C); c.check(D.degree() == size_t(p - 1), "derivative_degree"); auto RD = gen::R(D); for (auto u : us) { bool kn = false; for (auto x : C.knotsFlats()) kn |= x != b[0] && x != b[1] && std::fabs(x - u) < 1e-9 * (b[1] - b[0]); if (kn) continue; auto d = R.ders(u, 1)[1]; c.near_pt(RD.value(u, 0).v, d.v, 1e-10 * (d.b + 1e-6), "derivative_value", "u=" + num(u)); c.event("calculus/derivative"); }
    Pt<dim> P0{}; if (r.coin(0.7)) for (auto &x : P0) x = r.uni(-3, 3); auto I = build_integrate(C, P0); c.check(I.degree() == size_t(p + 1), "integral_degree"); auto RI = gen::R(I); c.near_pt(RI.value(b[0], 0).v, std::vector<ld>(P0.begin(), P0.end()), 1e-13 * 5, "integral_start"); for (auto u : us) { auto d = RI.ders(u, 1)[1]; c.near_pt(d.v, R.value(u, 0).v, 1e-10 * (d.b + m), "integral_derivative", "u=" + num(u)); c.event("calculus/integral"); }
}
FAMILY("calculus", 300, 9000) { c.rng.coin() ? calculus<2>(c) : calculus<3>(c); }
int main(int a, char **b) { return run(a, b); }
