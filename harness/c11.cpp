// C11: lengths, arc length laws, discretisations and local frames against an independent quadrature of the reference evaluator.
#include "gen.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs/bscanalysis.h>
#include <gbs/bssanalysis.h>
#include <gbs/bscbuild.h>
using namespace vh;
using namespace gbs;
using Fn = std::function<ld(ld)>;

// Gauss-Legendre nodes computed here, composite over given break points
static const std::vector<std::pair<ld, ld>> &gl()
{
    static std::vector<std::pair<ld, ld>> G = [] { std::vector<std::pair<ld, ld>> g; int n = 12; for (int i = 0; i < n; ++i) { ld x = std::cos(M_PIl * (i + 0.75L) / (n + 0.5L)), dp = 0; for (int k = 0; k < 60; ++k) { ld p0 = 1, p1 = x; for (int j = 2; j <= n; ++j) { ld p2 = ((2 * j - 1) * x * p1 - (j - 1) * p0) / j; p0 = p1; p1 = p2; } dp = n * (x * p1 - p0) / (x * x - 1); x -= p1 / dp; } g.push_back({x, 2 / ((1 - x * x) * dp * dp)}); } return g; }();
    return G;
}
static ld quad(const Fn &f, std::vector<ld> br, ld a, ld b, int sub = 6)
{
    bool neg = b < a; if (neg) std::swap(a, b); std::vector<ld> B{a}; std::sort(br.begin(), br.end()); for (auto x : br) if (x > B.back() && x < b) B.push_back(x); B.push_back(b); ld s = 0;
    for (size_t i = 0; i + 1 < B.size(); ++i) for (int k = 0; k < sub; ++k) { ld x0 = B[i] + (B[i + 1] - B[i]) * k / sub, x1 = B[i] + (B[i + 1] - B[i]) * (k + 1) / sub; for (auto [x, w] : gl()) s += w * (x1 - x0) / 2 * f((x0 + x1) / 2 + x * (x1 - x0) / 2); }
    return neg ? -s : s;
}
template <class V> static ld nrm(const V &v) { ld s = 0; for (auto x : v) s += ld(x) * x; return std::sqrt(s); }
static ld nrm(ld x) { return std::fabs(x); }
struct Arc { Fn speed; std::vector<ld> br; ld operator()(ld a, ld b) const { return quad(speed, br, a, b); } };
static Arc arc(const ref::Curve &R) { auto p = std::make_shared<ref::Curve>(R); Arc A; A.speed = [p](ld u) { auto v = p->ders(u, 1)[1].v; ld s = 0; for (auto x : v) s += x * x; return std::sqrt(s); }; A.br.assign(p->U.begin(), p->U.end()); return A; }
template <class C> static C sized(Rng &r, C c) { if (r.coin(0.3)) { double s = std::pow(10., r.uni(-3, 3)); auto P = c.poles(); for (auto &p : P) for (size_t k = 0; k < p.size() - (std::is_same_v<C, BSCurveRational<double, 2>> || std::is_same_v<C, BSCurveRational<double, 3>> ? 1 : 0); ++k) p[k] *= s; c.movePoles(P); } return c; }
template <size_t dim> static BSCurveRational<double, dim> rational(Rng &r, const BSCurve<double, dim> &c) { std::vector<double> w(c.poles().size()); for (auto &x : w) x = r.uni(0.6, 1.6); return BSCurveRational<double, dim>(c.poles(), c.knotsFlats(), w, c.degree()); }

template <size_t dim, class C> static void length_case(Case &c, const C &crv)
{
    auto &r = c.rng; auto A = arc(gen::R(crv)); auto [u1, u2] = crv.bounds(); ld L = A(u1, u2); c.describe("length dim " + num(dim) + " " + gen::cdesc(crv)); c.nontrivial(gen::chash(crv));
    bool smooth = true; { size_t m = 1; auto U = crv.knotsFlats(); for (size_t i = crv.degree() + 1, n = 0; i + crv.degree() + 1 < U.size(); ++i) { n = U[i] == U[i - 1] ? n + 1 : 1; m = std::max(m, n); } smooth = crv.degree() >= m + 2; auto K = crv.knots(); for (size_t i = 1; i < K.size(); ++i) smooth &= K[i] - K[i - 1] > 0.08 * (u2 - u1); ld lo = 1e300L, hi = 0; for (int i = 0; i <= 80; ++i) { ld s = A.speed(u1 + (u2 - u1) * i / 80.L); lo = std::min(lo, s); hi = std::max(hi, s); } smooth &= hi < 5 * lo; }
    ld tol = L * (smooth ? 3e-6L : 3e-3L); // the adaptive quadrature aims at 1.5e-8; clustered knots and jumps of the speed limit it
    c.near(length<double, dim>(crv), L, tol, "whole"); c.event(smooth ? "length/smooth" : "length/rough");
    double a = r.uni(u1, u2), b = r.uni(u1, u2), m = r.uni(u1, u2); if (r.coin(0.3)) a = r.pick(crv.knotsFlats());
    ld Lab = A(a, b); double gab = length<double, dim>(crv, a, b); c.near(gab, Lab, tol, "part"); c.near(length<double, dim>(crv, b, a), -Lab, tol, "reversed_limits"); c.near(length<double, dim>(crv, a, m) + length<double, dim>(crv, m, b), Lab, 2 * tol, "additive"); c.event("length/parts");
    auto rev = crv; rev.reverse(); c.near(length<double, dim>(rev), L, tol, "orientation"); c.near(length<double, dim>(rev, u1 + u2 - std::max(a, b), u1 + u2 - std::min(a, b)), std::fabs(Lab), 2 * tol, "orientation_part");
    auto D = gen::R(crv).ders(b, 2); ld s = nrm(D[1].v), dd = 0; for (size_t k = 0; k < dim; ++k) dd += D[1].v[k] * D[2].v[k];
    c.near(length<double, dim>(crv, a, b, 1), s, 1e-10L * (s + nrm(D[1].b)), "derivative1"); if (s > 1e-3L * L / (u2 - u1)) c.near(length<double, dim>(crv, a, b, 2), dd / s, 1e-8L * nrm(D[1].b) * (1 + nrm(D[2].b)) / s * 10 + 1e-9L * std::fabs(dd / s), "derivative2"); c.check(throws([&] { length<double, dim>(crv, a, b, 3); }), "derivative3_rejected");
    c.near(length<double, dim>(crv, 1), A.speed(u2), 1e-10L * (s + L / (u2 - u1) * 10 + nrm(gen::R(crv).ders(u2, 1)[1].b)), "whole_derivative"); c.check(length<double, dim>(crv, a, a) == 0, "empty_range");
    if (crv.knots().size() == 2) { c.near(length<double, dim>(crv, 0, false), L, 1e-4L * L, "fixed_quadrature"); c.event("length/fixed"); }
}
FAMILY("length", 250, 8000)
{
    auto &r = c.rng; size_t p = r.i(1, 6); int sp = r.i(1, 6), mm = r.coin(0.6) ? 1 : int(p); double amp = r.uni(0.05, 0.8);
    switch (r.i(0, 3)) { case 0: length_case<2>(c, sized(r, gen::smooth_curve<double, 2>(r, p, sp, amp, mm))); break; case 1: length_case<3>(c, sized(r, gen::smooth_curve<double, 3>(r, p, sp, amp, mm))); break; case 2: length_case<2>(c, sized(r, rational(r, gen::smooth_curve<double, 2>(r, p, sp, amp, mm)))); break; default: length_case<3>(c, sized(r, rational(r, gen::smooth_curve<double, 3>(r, p, sp, amp, mm)))); }
}
FAMILY("length_kinds", 120, 4000)
{
    auto &r = c.rng; int k = r.i(0, 7); ld want = 0, tol = 1e-6L; double got = 0; std::string what;
    auto base = gen::smooth_curve<double, 2>(r, 3, r.i(1, 4), 0.4); auto [u1, u2] = base.bounds(); auto A = arc(gen::R(base)); c.nontrivial(gen::chash(base) ^ k);
    if (k == 0) { double R = std::pow(10., r.uni(-2, 2)); Circle3d<double> C(R, ax2<double, 3>{point<double, 3>{r.uni(-1, 1), 0., 1.}, point<double, 3>{0., 0., 1.}, point<double, 3>{1., 0., 0.}}); what = "circle"; double a = r.uni(0, 3), b = r.uni(3, 6); got = length<double, 3>(C, a, b); want = R * ld(b - a); tol = 1e-9L; }
    else if (k == 1) { Line<double, 2> Ln(point<double, 2>{r.uni(-1, 1), r.uni(-1, 1)}, point<double, 2>{r.uni(2, 3), r.uni(2, 3)}); double a = r.uni(-5, 5), b = r.uni(-5, 5); what = "line"; got = length<double, 2>(Ln, a, b); want = b - a; tol = 1e-9L; }
    else if (k == 2) { double a = u1 + (u2 - u1) * r.uni(0, 0.4), b = u1 + (u2 - u1) * r.uni(0.5, 1); CurveTrimmed<double, 2> T(std::make_shared<BSCurve<double, 2>>(base), a, b); what = "trimmed"; got = length<double, 2>(T); want = A(a, b); }
    else if (k == 3) { CurveReversed<double, 2> T(std::make_shared<BSCurve<double, 2>>(base)); what = "reversed"; got = length<double, 2>(T); want = A(u1, u2); }
    else if (k == 4) { double d = r.uni(-0.02, 0.02); points_vector<double, 1> P{{d}, {d}}; CurveOffset2D<double, BSCfunction<double>> T(base, BSCfunction<double>(BSCurve<double, 1>(P, {u1, u1, u2, u2}, 1))); what = "offset"; got = length<double, 2>(T); auto R = gen::R(base); want = quad([&](ld u) { auto D = R.ders(u, 2); auto &x = D[1].v, &y = D[2].v; ld s2 = x[0] * x[0] + x[1] * x[1], s = std::sqrt(s2), kap = (x[0] * y[1] - x[1] * y[0]) / (s2 * s); return std::fabs(s * (1 + kap * d)); }, std::vector<ld>(R.U.begin(), R.U.end()), u1, u2, 20);
        ld want2 = quad([&](ld u) { auto D = R.ders(u, 2); auto &x = D[1].v, &y = D[2].v; ld s2 = x[0] * x[0] + x[1] * x[1], s = std::sqrt(s2), kap = (x[0] * y[1] - x[1] * y[0]) / (s2 * s); return std::fabs(s * (1 - kap * d)); }, std::vector<ld>(R.U.begin(), R.U.end()), u1, u2, 20); if (std::fabs(want2 - got) < std::fabs(want - got)) want = want2; tol = 1e-5L; }
    else if (k == 5) { auto e = base.end(); auto b2 = gen::smooth_curve<double, 2>(r, 2, 2, 0.3); auto P = b2.poles(); auto o = P[0]; for (auto &p : P) p = p - o + e; b2.movePoles(P); std::vector<std::shared_ptr<Curve<double, 2>>> V{std::make_shared<BSCurve<double, 2>>(base), std::make_shared<BSCurve<double, 2>>(b2)}; CurveComposite<double, 2> T(V); what = "composite"; got = length<double, 2>(T); want = A(u1, u2) + arc(gen::R(b2))(b2.bounds()[0], b2.bounds()[1]); tol = 3e-5L; }
    else if (k == 6) { // a helix like curve on a cylinder of revolution
        double R = r.uni(0.5, 3), h = r.uni(0.5, 3), th = r.uni(1, 5); points_vector<double, 2> P{{R, 0.}, {R, h}}; std::array<double, 3> z{0., 0., 1.}, x{1., 0., 0.}, o{r.uni(-1, 1), r.uni(-1, 1), 0.}; auto S = std::make_shared<SurfaceOfRevolution<double>>(std::make_shared<BSCurve<double, 2>>(P, std::vector<double>{0., 0., 1., 1.}, 1), ax2<double, 3>{o, z, x}); points_vector<double, 2> Q{{0., 0.1}, {1., 0.1 + th}}; CurveOnSurface<double, 3> T(std::make_shared<BSCurve<double, 2>>(Q, std::vector<double>{0., 0., 1., 1.}, 1), S);
        // the profile's first coordinate may be axial or radial: both lengths are closed forms
        what = "on_surface"; got = length<double, 3>(T); ld w1 = std::sqrt(ld(h) * h + ld(R) * R * th * th); want = w1; auto p0 = S->value(0., 0.), p1 = S->value(1., 0.); ld r0 = nrm(std::array<double, 2>{p0[0] - o[0], p0[1] - o[1]}), r1 = nrm(std::array<double, 2>{p1[0] - o[0], p1[1] - o[1]}); if (std::fabs(r0 - r1) > 1e-9L) want = quad([&](ld u) { ld rr = r0 + (r1 - r0) * u; return std::sqrt((r1 - r0) * (r1 - r0) + (p1[2] - p0[2]) * (p1[2] - p0[2]) + rr * rr * th * th); }, {}, 0, 1, 20); }
    else { auto q = gen::surf<double, 3>(r, 3, 3, 1, 1); auto b = q.bounds(); double v = b[2] + (b[3] - b[2]) * r.u01(); points_vector<double, 2> P{{b[0], v}, {b[1], v}}; CurveOnSurface<double, 3> T(std::make_shared<BSCurve<double, 2>>(P, std::vector<double>{0., 0., 1., 1.}, 1), std::make_shared<BSSurface<double, 3>>(q)); what = "iso"; got = length<double, 3>(T); auto R = gen::R(q); want = quad([&](ld u) { return nrm(R.ders(u, v, 1, 0)[1][0].v); }, {}, b[0], b[1], 60); tol = 1e-5L; }
    c.describe("length of " + what); c.near(got, want, tol * std::fabs(want), what); c.event("kinds/" + what);
}
// a well parametrised curve: the speed varies by less than `ratio`
template <size_t dim> static BSCurve<double, dim> tame(Rng &r, double ratio, int tries = 200)
{
    for (;;) { auto c = gen::smooth_curve<double, dim>(r, r.i(3, 5), r.i(1, 4), r.uni(0.02, 0.25)); auto A = arc(gen::R(c)); auto [a, b] = c.bounds(); ld lo = 1e300L, hi = 0; for (int i = 0; i <= 60; ++i) { ld s = A.speed(a + (b - a) * i / 60.L); lo = std::min(lo, s); hi = std::max(hi, s); } if (hi < ratio * lo || --tries == 0) return c; }
}
template <size_t dim> static void law_case(Case &c)
{
    auto &r = c.rng; auto crv = tame<dim>(r, 4); auto A = arc(gen::R(crv)); auto [b1, b2] = crv.bounds(); double u1 = b1, u2 = b2; if (r.coin()) { u1 = b1 + (b2 - b1) * r.uni(0, 0.4); u2 = b1 + (b2 - b1) * r.uni(0.6, 1); }
    size_t n = r.i(20, 60), p = r.i(1, 4); ld L = A(u1, u2); c.describe("law n " + num(n) + " p " + num(p) + " dim " + num(dim) + " " + gen::cdesc(crv)); c.nontrivial(gen::chash(crv) ^ n);
    bool whole = u1 == b1 && u2 == b2 && r.coin(); auto f = whole ? abs_curv<double, dim>(crv, n, p) : abs_curv<double, dim>(crv, u1, u2, n, p); // parameter as a function of length
    auto fb = f.bounds(); c.near(fb[0], 0, 0, "law_start"); c.near(fb[1], L, 1e-6L * L, "law_end"); c.near(f(0.), u1, 1e-9L * (1 + std::fabs(u1)), "law_u1"); c.near(f(fb[1]), u2, 1e-9L * (1 + std::fabs(u2)), "law_u2");
    ld h = (u2 - u1) / (n - 1), s = 0, up = u1;
    for (size_t i = 1; i + 1 < n; ++i) { ld u = u1 + (u2 - u1) * ld(i) / (n - 1); s += A(up, u); up = u; if (i % 5 == 0) c.near(f(std::min<double>(s, fb[1])), u, 1e-5L * (u2 - u1), "law_nodes", num(i)); }
    double last = f(0.); for (int i = 1; i <= 200; ++i) { double v = f(fb[1] * i / 200.); if (!c.check(v > last, "law_increasing", num(i))) break; last = v; }
    for (int i = 0; i < 10; ++i) { double m = r.uni(0, fb[1]); c.near(A(u1, f(m)), m, 0.25L * L / (n - 1), "law_inverse"); }
    c.event("law/abs_curv"); (void)h;
    // adaptive laws: u(m) and m(u)
    double t = r.coin() ? 1e-3 : std::pow(10., r.uni(-12, -4)); auto g = whole ? curve_length_function<double, dim>(crv, n, p, t) : curve_length_function<double, dim>(crv, u1, u2, n, p, t), q = whole ? abs_curv_adaptive<double, dim>(crv, n, p, t) : abs_curv_adaptive<double, dim>(crv, u1, u2, n, p, t);
    // whichever way they are parametrised, one gives the length from the parameter and the other the parameter from the length
    auto is_length = [&](const BSCfunction<double> &z) { auto b = z.bounds(); return std::fabs(b[0] - u1) <= 1e-9 * (1 + std::fabs(u1)) && std::fabs(b[1] - u2) <= 1e-9 * (1 + std::fabs(u2)) && std::fabs(z(b[0])) <= 1e-9 * double(L); };
    c.check(is_length(g) || (g.bounds()[0] == 0 && std::fabs(g.bounds()[1] - double(L)) < 1e-6 * double(L)), "length_function_domain"); c.check(is_length(q) || (q.bounds()[0] == 0 && std::fabs(q.bounds()[1] - double(L)) < 1e-6 * double(L)), "abs_curv_adaptive_domain");
    for (auto [z, key] : {std::pair<const BSCfunction<double> *, const char *>{&g, "length_function"}, {&q, "abs_curv_adaptive"}}) { bool len = is_length(*z); auto b = z->bounds(); double lp = z->value(b[0]); c.event(len ? "law/length_of_u" : "law/u_of_length"); for (int i = 0; i < 8; ++i) { double x = r.uni(b[0], b[1]), y = z->value(x); len ? c.near(y, A(u1, x), 0.25L * L / (n - 1), key) : c.near(A(u1, y), x, 0.25L * L / (n - 1), key); } for (int i = 1; i <= 100; ++i) { double y = z->value(b[0] + (b[1] - b[0]) * i / 100.); if (!c.check(y > lp, std::string(key) + "_increasing")) break; lp = y; } c.near(z->value(b[1]), len ? L : ld(u2), 1e-6L * (len ? L : 1 + std::fabs(u2)), std::string(key) + "_end"); }
    for (int i = 0; i < 5; ++i) { bool gl_ = is_length(g), ql = is_length(q); if (gl_ == ql) break; auto &F = gl_ ? g : q; auto &G = gl_ ? q : g; double x = r.uni(0, double(L)), u = std::clamp(G(std::min(x, G.bounds()[1])), F.bounds()[0], F.bounds()[1]); c.near(F(u), x, 0.3L * L / (n - 1), "mutual_inverse"); c.event("law/mutual"); }
}
FAMILY("laws", 60, 2500) { if (c.rng.coin()) law_case<2>(c); else law_case<3>(c); }
FAMILY("adaptive_nodes", 60, 2500)
{
    // bumps narrower than the spacing of the quadrature points of an initial interval, beside its middle: the halves see what the whole overlooks
    auto &r = c.rng; size_t p = r.i(3, 5), n = r.i(2, 12); auto crv = gen::smooth_curve<double, 2>(r, p, 1, r.uni(0.05, 0.3)); auto [u1, u2] = crv.bounds(); double h = (u2 - u1) / (n - 1.); size_t bumps = r.i(0, 3); double t = std::pow(10., r.uni(-6, -3));
    std::vector<size_t> cells(n - 1); std::iota(cells.begin(), cells.end(), 0); for (size_t i = 0; i < cells.size(); ++i) std::swap(cells[i], cells[r.i(i, long(cells.size()) - 1)]);
    bumps = std::min(bumps, cells.size());
    for (size_t k = 0; k < bumps; ++k) { double mid = u1 + h * (cells[k] + 0.5), a = mid + 0.003 * h, b = mid + 0.09 * h; std::vector<double> K; for (size_t i = 0; i < p + 2; ++i) K.push_back(a + (b - a) * (i + 0.2 * r.u01()) / (p + 1.2)); for (auto x : K) crv.insertKnot(x, 1); auto U = crv.knotsFlats(); auto P = crv.poles(); size_t q = std::lower_bound(U.begin(), U.end(), K[0] - 1e-12 * (1 + std::fabs(K[0]))) - U.begin(); P[q][1] += r.uni(0.1, 0.5) * (r.coin() ? 1 : -1); crv.movePoles(P); }
    auto A = arc(gen::R(crv)); c.describe("adaptive n " + num(n) + " bumps " + num(bumps) + " tol " + num(t) + " " + gen::cdesc(crv)); c.nontrivial(gen::chash(crv) ^ n);
    auto [u, m] = abs_curv_adaptive_discretzation<double, 2, 15>(crv, u1, u2, n, 3, t); c.event("adaptive/run"); c.event("adaptive/bumps", bumps); c.event("adaptive/inserted", long(u.size()) - long(n));
    if (!c.check(u.size() == m.size() && u.size() >= n, "sizes")) return; c.near(u.front(), u1, 0, "first"); c.near(u.back(), u2, 1e-13L * (1 + std::fabs(u2)), "last"); c.check(m.front() == 0, "first_length"); ld L = A(u1, u2); c.near(m.back(), L, 1e-3L * L, "total");
    for (size_t i = 1; i < u.size(); ++i) { if (!c.check(u[i] > u[i - 1] && m[i] > m[i - 1], "increasing", num(i))) break; c.near(m[i] - m[i - 1], A(u[i - 1], u[i]), 1e-3L * A(u[i - 1], u[i]), "interval_length"); }
    for (size_t i = 0; i < n; ++i) { double x = u1 + (u2 - u1) * i / (n - 1.); auto it = std::lower_bound(u.begin(), u.end(), x - 1e-9); c.check(it != u.end() && std::fabs(*it - x) < 2e-9 * (1 + std::fabs(x)), "initial_kept", num(x)); }
}
FAMILY("uniform", 120, 5000)
{
    auto &r = c.rng; auto run_ = [&](auto D) {
        constexpr size_t dim = decltype(D)::value; auto crv = tame<dim>(r, 4); auto A = arc(gen::R(crv)); auto [b1, b2] = crv.bounds(); double u1 = b1, u2 = b2; bool part = r.coin(0.4); if (part) { u1 = b1 + (b2 - b1) * r.uni(0, 0.4); u2 = b1 + (b2 - b1) * r.uni(0.6, 1); } size_t n = r.i(2, 40), law = r.i(30, 80); c.describe("uniform n " + num(n) + " law " + num(law) + " " + gen::cdesc(crv)); c.nontrivial(gen::chash(crv) ^ n);
        std::list<double> l; try { l = part ? uniform_distrib_params<double, dim>(crv, u1, u2, n, law) : uniform_distrib_params<double, dim>(crv, n, law); } catch (const std::length_error &) { c.event("uniform/refused"); return; }
        c.check(l.size() == n, "count"); c.check(l.front() == u1 && l.back() == u2, "ends"); std::vector<double> u(l.begin(), l.end()); ld step = A(u1, u2) / (n - 1); c.event("uniform/lists"); c.event("uniform/steps", n - 1);
        for (size_t i = 1; i < n; ++i) { c.check(u[i] > u[i - 1], "increasing", num(i)); c.near(A(u[i - 1], u[i]), step, 0.12L * step + 0.12L * A(u1, u2) / law, "spacing", num(i)); }
        if (!part) { try { auto P = discretize<double, dim>(crv, n); auto U = uniform_distrib_params<double, dim>(crv, n); c.check(P.size() == n, "points_count"); size_t i = 0; for (auto x : U) c.near_pt(P[i++], gen::R(crv).value(x, 0).v, 1e-10L * 3, "points"); c.near_pt(P.front(), crv.begin(), 1e-12L, "points_ends"); c.near_pt(P.back(), crv.end(), 1e-12L, "points_ends"); } catch (const std::length_error &) {} }
        size_t few = r.i(0, 1); c.check(throws([&] { uniform_distrib_params<double, dim>(crv, u1, u2, few); }), "too_few_rejected"); };
    if (r.coin()) run_(std::integral_constant<size_t, 2>{}); else run_(std::integral_constant<size_t, 3>{});
}
// deviation driven: angle between the half chord and the chord, measured here at the middle of every interval left
template <class V> static ld angle(const V &a, const V &m, const V &b)
{
    ld n1 = 0, n2 = 0, d = 0; for (size_t k = 0; k < a.size(); ++k) { ld x = m[k] - a[k], y = b[k] - a[k]; n1 += x * x; n2 += y * y; d += x * y; } if (n1 == 0) return 0; if (n2 == 0) return 1; ld s2 = 1 - d * d / (n1 * n2);
    if (s2 < 1e-6L) { ld q = 0; for (size_t i = 0; i < a.size(); ++i) for (size_t j = i + 1; j < a.size(); ++j) { ld w = (m[i] - a[i]) * (b[j] - a[j]) - (m[j] - a[j]) * (b[i] - a[i]); q += w * w; } s2 = q / (n1 * n2); } return std::sqrt(std::max<ld>(0, s2));
}
template <size_t dim, class C> static void deviation_case(Case &c, const C &crv, bool closed)
{
    auto &r = c.rng; auto R = gen::R(crv); auto [b1, b2] = crv.bounds(); double u1 = b1, u2 = b2; bool part = r.coin(0.4) && !closed; if (part) { u1 = b1 + (b2 - b1) * r.uni(0, 0.45); u2 = b1 + (b2 - b1) * r.uni(0.55, 1); } size_t n = r.coin(0.2) ? r.i(0, 2) : r.i(3, 20), cap = r.coin(0.3) ? r.i(2, 60) : 5000; double dev = std::pow(10., r.uni(-2.5, -0.3)); c.describe("deviation n " + num(n) + " cap " + num(cap) + " dev " + num(dev) + (closed ? " closed " : " ") + gen::cdesc(crv)); c.nontrivial(gen::chash(crv) ^ n ^ vh::mix(cap));
    auto l = part ? deviation_based_params<double, dim>(crv, u1, u2, n, dev, cap) : deviation_based_params<double, dim>(crv, n, dev, cap); std::vector<double> u(l.begin(), l.end()); c.event("deviation/lists"); c.event("deviation/params", u.size()); size_t nn = std::max<size_t>(n, 2);
    if (!c.check(u.size() >= 2, "count")) return; c.near(u.front(), u1, 0, "first"); c.near(u.back(), u2, 1e-14L * (1 + std::fabs(u2)), "last"); for (size_t i = 1; i < u.size(); ++i) if (!c.check(u[i] > u[i - 1], "increasing", num(i) + " " + num(u[i - 1]) + " " + num(u[i]))) break;
    size_t inner = 0; for (auto k : crv.knots()) inner += k > u1 && k < u2; c.check(u.size() <= std::max(cap, nn + inner), "limit", num(u.size()) + " > " + num(cap)); c.check(u.size() >= nn, "minimum");
    for (auto k : crv.knots()) if (k > u1 + 1e-9 && k < u2 - 1e-9) { ld d = 1; for (auto x : u) d = std::min(d, std::fabs(ld(x) - k)); c.check(d <= 1e-12L * (1 + std::fabs(k)), "knots_included", num(k)); }
    if (u.size() < cap) { c.event("deviation/reached"); auto v = [&](double x) { return R.value(x, 0).v; }; for (size_t i = 1; i < u.size(); ++i) { if (u[i] - u[i - 1] <= 1e-12 * (1 + std::fabs(u[i]))) continue; ld a = angle(v(u[i - 1]), v(0.5 * (u[i - 1] + u[i])), v(u[i])); if (!c.check(a <= dev * (1 + 1e-7L) + 1e-9L, "deviation", num(i) + " angle " + num(double(a)) + " allowed " + num(dev))) break; } } else c.event("deviation/capped");
    if (!part) { auto P = discretize<double, dim>(crv, n, dev, cap); auto [Q, uq] = discretize_with_params<double, dim>(crv, n, dev, cap); c.check(P.size() == u.size() && uq.size() == u.size() && Q == P, "points"); for (size_t i = 0; i < std::min(P.size(), u.size()); i += std::max<size_t>(1, u.size() / 30)) c.near_pt(P[i], R.value(u[i], 0).v, 1e-10L * (1 + nrm(R.value(u[i], 0).b)), "points_value"); }
    if (closed) c.check(u.size() > 2 || cap <= 2, "closed_refined");
}
FAMILY("deviation", 200, 8000)
{
    auto &r = c.rng; size_t p = r.i(1, 5); int sp = r.i(1, 6); bool closed = r.coin(0.2);
    auto make = [&](auto D) { constexpr size_t dim = decltype(D)::value; auto k = gen::smooth_curve<double, dim>(r, closed ? std::max<size_t>(p, 3) : p, sp, r.uni(0.1, 1), r.coin() ? 1 : int(p)); if (closed) { auto P = k.poles(); P.back() = P.front(); k.movePoles(P); } if (r.coin()) deviation_case<dim>(c, k, closed); else deviation_case<dim>(c, rational(r, k), closed); };
    if (r.coin()) make(std::integral_constant<size_t, 2>{}); else make(std::integral_constant<size_t, 3>{});
}
FAMILY("surfaces", 100, 4000)
{
    auto &r = c.rng; auto s = gen::surf<double, 3>(r, r.i(1, 3), r.i(1, 3), r.i(1, 3), r.i(1, 3), 1, 1.); auto R = gen::R(s); auto b = s.bounds(); size_t nu = r.i(2, 12), nv = r.i(2, 12); c.describe("surface " + num(nu) + "x" + num(nv) + " " + gen::sdesc(s)); c.nontrivial(gen::shash(s));
    auto P = discretize<double, 3>(s, nu, nv); if (c.check(P.size() == nu * nv, "grid_count")) for (size_t j = 0; j < nv; ++j) for (size_t i = 0; i < nu; ++i) c.near_pt(P[j * nu + i], R.value(b[0] + (b[1] - b[0]) * ld(i) / (nu - 1), b[2] + (b[3] - b[2]) * ld(j) / (nv - 1)).v, 1e-9L * 20, "grid", num(i) + "," + num(j)); c.event("surface/grid");
    bool du = r.coin(); int o = du ? 0 : 2; double x1 = b[o], x2 = b[o + 1], w = b[2 - o] + (b[3 - o] - b[2 - o]) * r.u01(); if (r.coin(0.4)) { x1 = b[o] + (b[o + 1] - b[o]) * r.uni(0, 0.4); x2 = b[o] + (b[o + 1] - b[o]) * r.uni(0.6, 1); } size_t n = r.i(0, 15), cap = r.coin(0.3) ? r.i(2, 60) : 5000, nn = std::max<size_t>(n, 2); double dev = std::pow(10., r.uni(-2, -0.3));
    auto l = du ? deviation_based_u_params<double, 3>(s, x1, x2, w, n, dev, cap) : deviation_based_v_params<double, 3>(s, x1, x2, w, n, dev, cap); std::vector<double> u(l.begin(), l.end()); c.event(du ? "surface/u" : "surface/v"); if (!c.check(u.size() >= nn, "iso_minimum")) return; c.near(u.front(), x1, 0, "iso_first"); c.near(u.back(), x2, 1e-14L * (1 + std::fabs(x2)), "iso_last"); c.check(u.size() <= std::max(cap, nn), "iso_limit"); for (size_t i = 1; i < u.size(); ++i) c.check(u[i] > u[i - 1], "iso_increasing");
    auto v = [&](double x) { return du ? R.value(x, w).v : R.value(w, x).v; }; if (u.size() < cap) for (size_t i = 1; i < u.size(); ++i) { if (u[i] - u[i - 1] < 1e-10) continue; ld a = angle(v(u[i - 1]), v(0.5 * (u[i - 1] + u[i])), v(u[i])); if (!c.check(a <= dev * (1 + 1e-6L) + 1e-6L, "iso_deviation", num(double(a)) + " allowed " + num(dev))) break; }
}
FAMILY("directions", 150, 6000)
{
    auto &r = c.rng; auto k2 = gen::smooth_curve<double, 2>(r, r.i(2, 5), r.i(1, 4), 0.5); auto k3 = gen::smooth_curve<double, 3>(r, r.i(2, 5), r.i(1, 4), 0.5); c.describe("directions " + gen::cdesc(k2) + " ; " + gen::cdesc(k3)); c.nontrivial(gen::chash(k2) ^ gen::chash(k3));
    for (int i = 0; i < 4; ++i)
    {
        double u = r.uni(k2.bounds()[0], k2.bounds()[1]); auto D = gen::R(k2).ders(u, 1); ld s = nrm(D[1].v); auto t = tangential_direction<double, 2>(k2, u); auto n = normal_direction<double>(k2, u); for (int q = 0; q < 2; ++q) c.near(t[q], D[1].v[q] / s, 1e-9L, "tangent2"); c.near(nrm(n), 1, 1e-12L, "normal2_unit"); c.near(ld(n[0]) * t[0] + ld(n[1]) * t[1], 0, 1e-12L, "normal2_perpendicular"); c.near(ld(t[0]) * n[1] - ld(t[1]) * n[0], 1, 1e-12L, "normal2_left");
        auto tl = tangential_line<double, 2>(k2, u); auto nl = normal_line<double, 2>(k2, u); c.near_pt(tl[0], D[0].v, 1e-10L * 5, "line_origin"); c.near_pt(tl[1], t, 0, "line_direction"); c.near_pt(nl[0], D[0].v, 1e-10L * 5, "line_origin"); c.near_pt(nl[1], n, 0, "line_direction");
        double w = r.uni(k3.bounds()[0], k3.bounds()[1]); auto E = gen::R(k3).ders(w, 2); auto t3 = tangential_direction<double, 3>(k3, w); ld s3 = nrm(E[1].v); for (int q = 0; q < 3; ++q) c.near(t3[q], E[1].v[q] / s3, 1e-9L, "tangent3");
        auto &a = E[1].v, &b = E[2].v; std::array<ld, 3> x{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; if (nrm(x) > 1e-3L * nrm(a) * nrm(b)) { auto m = normal_direction<double>(k3, w); c.near(nrm(m), 1, 1e-9L, "normal3_unit"); c.near((m[0] * a[0] + m[1] * a[1] + m[2] * a[2]) / s3, 0, 1e-8L, "normal3_perpendicular"); c.near((m[0] * x[0] + m[1] * x[1] + m[2] * x[2]) / nrm(x), 0, 1e-6L, "normal3_osculating"); c.event("directions/normal3"); }
        c.event("directions/points");
    }
    auto P = make_points(k3, std::vector<double>{k3.bounds()[0], k3.bounds()[1]}, 1); c.near_pt(P[0], gen::R(k3).ders(k3.bounds()[0], 1)[1].v, 1e-9L * 100, "make_points_derivative"); c.near_pt(P[1], gen::R(k3).ders(k3.bounds()[1], 1)[1].v, 1e-9L * 100, "make_points_derivative");
}
int main(int a, char **b) { return run(a, b); }
