// C08: approximations are least-squares optima, honour their end mode, limits and ranges.
#include "gen.h"
#include <gbs/bscapprox.h>
#include <gbs/bssapprox.h>
using namespace vh;
using gbs::KnotsCalcMode;
using gbs::operator-;
static const std::array<KnotsCalcMode, 3> modes{KnotsCalcMode::EQUALLY_SPACED, KnotsCalcMode::CHORD_LENGTH, KnotsCalcMode::CENTRIPETAL};

// sites on which the collocation matrix has full rank: one per knot average, plus extra ones
template <class T> static std::vector<T> sites(Rng &r, const std::vector<T> &k, size_t p, size_t extra)
{
    size_t n = k.size() - p - 1; std::vector<T> u;
    for (size_t i = 0; i < n; ++i) { double s = 0; for (size_t j = 1; j <= p; ++j) s += k[i + j]; u.push_back(T(std::min<double>(std::max<double>(s / double(p), k.front()), k.back()))); }
    u.front() = k.front(); u.back() = k.back();
    for (size_t i = 0; i < extra; ++i) u.push_back(T(r.coin(0.1) ? k[r.i(int(p), int(n))] : r.uni(k.front(), k.back())));
    std::sort(u.begin(), u.end());
    return u;
}
static ref::Vec L(const std::vector<double> &k) { return ref::Vec(k.begin(), k.end()); }
static ref::Vec L(const std::vector<float> &k) { return ref::Vec(k.begin(), k.end()); }
// is the least-squares problem well conditioned? (rank-revealing factorisation of the reference collocation matrix)
template <class T> static bool well_posed(const std::vector<T> &k, size_t p, const std::vector<T> &u, bool fixed)
{
    size_t n = k.size() - p - 1, o = fixed ? 1 : 0; auto U = L(k);
    Eigen::MatrixXd N = Eigen::MatrixXd::Zero(Eigen::Index(u.size()), Eigen::Index(n));
    for (size_t i = 0; i < u.size(); ++i) { auto B = ref::basis(n, p, u[i], U, 0); for (size_t j = 0; j <= p; ++j) N(Eigen::Index(i), Eigen::Index(B.s - p + j)) = double(B.D[0][j]); }
    Eigen::MatrixXd M = N.block(Eigen::Index(o), Eigen::Index(o), Eigen::Index(u.size() - 2 * o), Eigen::Index(n - 2 * o));
    if (M.cols() == 0) return true;
    Eigen::ColPivHouseholderQR<Eigen::MatrixXd> q(M); auto r = q.matrixQR().diagonal().cwiseAbs();
    return r(r.size() - 1) > 1e-5 * r(0);
}
template <class T, size_t dim>
static bool optimum(Case &c, const gbs::BSCurve<T, dim> &crv, const std::vector<std::array<T, dim>> &P, const std::vector<T> &u, bool fixed, const char *key)
{
    auto k = L(crv.knotsFlats()); size_t p = crv.degree(), n = crv.poles().size();
    ld m = 0; for (auto &q : crv.poles()) for (auto x : q) { if (!c.check(std::isfinite(x), std::string(key) + "/finite")) return false; m = std::max<ld>(m, std::fabs(x)); }
    for (auto &q : P) for (auto x : q) m = std::max<ld>(m, std::fabs(x));
    std::vector<std::array<ld, dim>> g(n); std::vector<ld> w(n, 0); for (auto &q : g) q.fill(0);
    auto R = gen::R(crv);
    for (size_t i = 0; i < u.size(); ++i)
    {
        auto B = ref::basis(n, p, u[i], k, 0); auto v = R.value(u[i]).v;
        for (size_t j = 0; j <= p; ++j)
        {
            size_t a = B.s - p + j; w[a] += B.D[0][j];
            for (size_t d = 0; d < dim; ++d) g[a][d] += B.D[0][j] * (v[d] - ld(P[i][d]));
        }
    }
    bool ok = true;
    for (size_t a = fixed ? 1 : 0; a < (fixed ? n - 1 : n); ++a)
        for (size_t d = 0; d < dim; ++d) ok = c.near(g[a][d], 0, (sizeof(T) == 4 ? 1e-4L : 1e-11L) * m * std::max<ld>(1, w[a]), std::string(key) + "/stationary", "pole " + num(a)) && ok;
    if (fixed) { ok = c.check(crv.poles().front() == P.front() && crv.poles().back() == P.back(), std::string(key) + "/ends_met") && ok; }
    c.event("optimality");
    return ok;
}
template <class T, size_t dim> static void fixed_knots(Case &c)
{
    size_t p = c.rng.i(1, 6); auto k = gen::knots<T>(c.rng, p, c.rng.i(1, 12), c.rng.coin() ? 1 : int(p));
    size_t n = k.size() - p - 1, extra = c.rng.coin(0.3) ? c.rng.i(100, 260) : c.rng.i(0, 40);
    auto u = sites<T>(c.rng, k, p, extra);
    bool fixed = n > 2 && c.rng.coin(), repro = c.rng.coin(0.4);
    auto P = gen::points<T, dim>(c.rng, u.size());
    gbs::BSCurve<T, dim> src(gen::points<T, dim>(c.rng, n), k, p);
    if (repro) { auto R = gen::R(src); for (size_t i = 0; i < u.size(); ++i) { auto v = R.value(u[i]).v; for (size_t d = 0; d < dim; ++d) P[i][d] = T(v[d]); } }
    c.describe(num(u.size()) + " pts deg " + num(p) + " poles " + num(n) + (fixed ? " fixed" : " free") + (repro ? " on spline" : "")); c.nontrivial(hvec(u) ^ hvec(P[0]));
    c.event(u.size() >= 102 ? "solver/sparse" : "solver/dense");
    auto crv = fixed ? gbs::approx_bound_fixed<T, dim>(P, p, n, u, k) : gbs::approx<T, dim>(P, p, n, u, k);
    c.check(crv.degree() == p && crv.knotsFlats() == k && crv.poles().size() == n, "definition");
    optimum<T, dim>(c, crv, P, u, fixed, "lsq");
    if (repro)
    {
        auto R = gen::R(src); ld s = R.max_pole(); auto Q = gen::R(crv);
        for (auto x : gen::params<T>(c.rng, k, 10)) c.near_pt(Q.value(x).v, R.value(x).v, (sizeof(T) == 4 ? 2e-2L : 1e-7L) * s, "reproduces", "u=" + num(x));
        c.event("reproduction");
    }
    if (c.rng.coin(0.3))
    {   // counts which do not fit
        auto P2 = P; if (c.rng.coin()) P2.pop_back(); else P2.push_back(P[0]);
        c.check(throws([&] { gbs::approx<T, dim>(P2, p, n, u, k); }) && throws([&] { gbs::approx_bound_fixed<T, dim>(P2, p, n, u, k); }), "refused_points");
        size_t nb = c.rng.coin() ? n + 1 : n - 1;
        c.check(throws([&] { gbs::approx<T, dim>(P, p, nb, u, k); }) && throws([&] { gbs::approx_bound_fixed<T, dim>(P, p, nb, u, k); }), "refused_poles");
        c.check(throws([&] { gbs::approx<T, dim>(P, p, P.size() + 1, u, c.rng.coin()); }) && throws([&] { gbs::approx<T, dim>(P, p, p, u, c.rng.coin()); }), "refused_counts");
        c.event("refused", 3);
    }
}
FAMILY("fixed_knots", 1500, 40000) { if (c.rng.coin()) fixed_knots<double, 2>(c); else fixed_knots<double, 3>(c); }
FAMILY("fixed_knots_1d", 300, 8000) { fixed_knots<double, 1>(c); }
FAMILY("fixed_knots_float", 200, 4000) { fixed_knots<float, 2>(c); }

// points along a wavy curve, over any parameter range
template <size_t dim> static std::vector<std::array<double, dim>> wave(Rng &r, size_t n)
{
    double f = r.uni(0.5, 6), a = r.uni(0.1, 2), nz = r.coin(0.4) ? r.uni(0, 0.05) : 0, s = r.coin(0.7) ? 1 : std::pow(10., r.uni(-2, 2));
    std::vector<std::array<double, dim>> P(n);
    for (size_t i = 0; i < n; ++i) { double t = double(i) / double(n - 1); for (size_t d = 0; d < dim; ++d) P[i][d] = s * ((d == 0 ? 3 * t : a * std::sin(f * t * double(d) + double(d))) + nz * r.uni(-1, 1)); }
    return P;
}
// the refined curve stops for one of the announced reasons
template <size_t dim>
static void stop_reason(Case &c, const gbs::BSCurve<double, dim> &crv, const std::vector<std::array<double, dim>> &P, const std::vector<double> &u, size_t n0, size_t p, bool fixed, double d_max, double d_avg, size_t n_max, const char *key)
{
    std::string K(key);
    size_t n = crv.poles().size();
    c.check(crv.degree() == p && crv.knotsFlats().size() == n + p + 1 && std::is_sorted(crv.knotsFlats().begin(), crv.knotsFlats().end()), K + "/definition");
    c.check(crv.bounds()[0] == u.front() && crv.bounds()[1] == u.back(), K + "/bounds");
    c.check(n >= n0 && n <= n0 + n_max, K + "/iterations", num(n));
    c.check(n <= std::max(n0, P.size() >= 5 ? P.size() - 5 : 0), K + "/pole_limit", num(n) + " poles for " + num(P.size()) + " points");
    auto R = gen::R(crv); ld dm = 0, da = 0, cand = 0, sc = 0;
    const auto &k = crv.knotsFlats();
    for (size_t i = 0; i < P.size(); ++i)
    {
        auto v = R.value(u[i]).v; ld d = 0; for (size_t j = 0; j < dim; ++j) { d += (v[j] - P[i][j]) * (v[j] - P[i][j]); sc = std::max<ld>(sc, std::fabs(P[i][j])); }
        d = sqrtl(d); dm = std::max(dm, d); da += d / ld(P.size());
        auto it = std::lower_bound(k.begin(), k.end(), u[i]);
        if (it == k.begin() || it == k.end() || !(*it > *std::prev(it))) continue;
        ld a = (u[i] - *std::prev(it)) / (*it - *std::prev(it));
        if (a > 0.34 && a < 0.66) cand = std::max(cand, d);
    }
    bool conv = dm < d_max * (1 + 1e-9L) + 1e-13L * sc && da < d_avg * (1 + 1e-9L) + 1e-13L * sc;
    bool lim = n + 5 >= P.size() || n == n0 + n_max, full = cand < 1e-12L * sc;
    c.event(conv ? "stop/converged" : lim ? "stop/limit" : "stop/no_room");
    c.check(conv || lim || full, K + "/stopped_early", "max " + num(double(dm)) + " avg " + num(double(da)) + " asked " + num(d_max) + " " + num(d_avg) + " poles " + num(n));
    if (well_posed(k, p, u, fixed)) optimum<double, dim>(c, crv, P, u, fixed, key);
    else c.event("ill_posed_knots");
}
template <size_t dim> static void refine(Case &c)
{
    size_t p = c.rng.i(1, 5), n = c.rng.coin(0.2) ? c.rng.i(int(2 * p), int(2 * p) + 8) : c.rng.i(15, 160);
    n = std::max(n, 2 * p + (p == 1));
    auto P = wave<dim>(c.rng, n);
    double a = 0, l = 1; switch (c.rng.i(0, 3)) { case 0: break; case 1: a = c.rng.uni(-5, 5); l = c.rng.uni(0.2, 10); break; case 2: a = -c.rng.uni(3, 10); l = c.rng.uni(0.5, 2); break; default: a = -1; l = 1; }
    std::vector<double> u(n); double j = c.rng.uni(0, 0.3);
    for (size_t i = 0; i < n; ++i) u[i] = a + l * (i == 0 ? 0 : i + 1 == n ? 1 : (double(i) + c.rng.uni(-j, j)) / double(n - 1));
    bool fixed = c.rng.coin(); size_t n_max = c.rng.coin(0.3) ? c.rng.i(0, 6) : 200;
    double d_max = std::pow(10., c.rng.uni(-6, -1)), d_avg = d_max * c.rng.uni(0.05, 1);
    c.describe(num(n) + " pts deg " + num(p) + " u [" + num(u.front()) + "," + num(u.back()) + "] dmax " + num(d_max) + " davg " + num(d_avg) + " nmax " + num(n_max) + (fixed ? " fixed" : " free")); c.nontrivial(hvec(u) ^ hvec(P[1]));
    if (c.rng.coin())
        stop_reason<dim>(c, gbs::approx<double, dim>(P, u, p, fixed, d_max, d_avg, n_max), P, u, 2 * p, p, fixed, d_max, d_avg, n_max, "refined");
    else
    {
        size_t n0 = p + 1 + size_t(c.rng.i(0, int(std::min<size_t>(n - p - 1, 12)))); if (fixed && n0 < 3) n0 = std::min<size_t>(3, n);
        auto c0 = gbs::approx<double, dim>(P, p, n0, u, fixed);
        c.check(c0.poles().size() == n0, "pole_count");
        auto cr = gbs::refine_approx<double, dim>(P, u, c0, fixed, d_max, d_avg, n_max);
        stop_reason<dim>(c, cr, P, u, n0, p, fixed, d_max, d_avg, n_max, "refine_approx");
        c.check(std::includes(cr.knotsFlats().begin(), cr.knotsFlats().end(), c0.knotsFlats().begin(), c0.knotsFlats().end()), "refine_approx/keeps_knots");
    }
}
FAMILY("refine", 700, 20000) { if (c.rng.coin()) refine<2>(c); else refine<3>(c); }

FAMILY("modes", 400, 10000)
{
    size_t p = c.rng.i(1, 5), n = c.rng.i(int(2 * p) + 2, 60);
    auto P = wave<3>(c.rng, n); auto mode = modes[c.rng.i(0, 2)]; bool adim = c.rng.coin(), fixed = c.rng.coin();
    auto u = gbs::curve_parametrization(P, mode, adim);
    double d_max = std::pow(10., c.rng.uni(-5, -1)), d_avg = d_max * 0.1;
    c.describe(num(n) + " pts deg " + num(p) + " mode " + num(int(mode)) + (adim ? " adim" : "")); c.nontrivial(hvec(u) ^ hvec(P[1]));
    stop_reason<3>(c, gbs::approx<double, 3>(P, p, mode, fixed, d_max, d_avg, 200, adim), P, u, 2 * p, p, fixed, d_max, d_avg, 200, "mode_refined");
    size_t np = std::max<size_t>(3, p + 1 + size_t(c.rng.i(0, int(n - p - 1)))); np = std::min(np, n);
    auto k = gbs::approx<double, 3>(P, p, np, mode, adim);
    c.check(k.poles().size() == np && k.degree() == p && k.bounds()[0] == u.front() && k.bounds()[1] == u.back(), "mode_fixed/definition");
    if (well_posed(k.knotsFlats(), p, u, true)) optimum<double, 3>(c, k, P, u, true, "mode_fixed");
    // batch of point sets, both sides of the parallel threshold
    if (c.rng.coin(0.2))
    {
        std::vector<std::vector<std::array<double, 3>>> B; size_t nb = c.rng.i(0, 20);
        for (size_t i = 0; i < nb; ++i) B.push_back(wave<3>(c.rng, n));
        auto r = gbs::approx<double, 3>(B, p, np, mode, adim);
        if (c.check(r.size() == nb, "batch/count"))
            for (size_t i = 0; i < nb; ++i) { auto s = gbs::approx<double, 3>(B[i], p, np, mode, adim); c.check(s.poles() == r[i].poles() && s.knotsFlats() == r[i].knotsFlats(), "batch/same"); }
        c.event("batch_items", long(nb));
    }
}

template <size_t dim> static void curve(Case &c)
{
    size_t q = c.rng.i(2, 4); auto crv = gen::smooth_curve<double, dim>(c.rng, q, c.rng.i(1, 4), 0.4);
    auto [b1, b2] = crv.bounds();
    size_t p = c.rng.i(2, 5), np = c.rng.i(int(3 * p) + 3, 40); double dev = c.rng.uni(0.02, 0.2), tol = std::pow(10., c.rng.uni(-6, -2));
    auto vec = [](const std::list<double> &l) { return std::vector<double>(l.begin(), l.end()); };
    c.describe(gen::cdesc(crv) + " p " + num(p) + " np " + num(np) + " dev " + num(dev) + " tol " + num(tol)); c.nontrivial(gen::chash(crv));
    auto pts = [&](const std::vector<double> &u) { std::vector<std::array<double, dim>> P; for (auto x : u) P.push_back(crv.value(x)); return P; };
    auto u = vec(gbs::deviation_based_params<double, dim>(crv, np, dev)); auto P = pts(u);
    switch (c.rng.i(0, 6))
    {
    case 0: stop_reason<dim>(c, gbs::approx<double, dim>(crv, dev, tol, p, np), P, u, std::max<size_t>(np / 3, p + 1), p, true, 10 * tol, tol, 200, "curve"); break;
    case 1: { size_t n0 = p + 1 + size_t(c.rng.i(1, 6)); stop_reason<dim>(c, gbs::approx<double, dim>(crv, dev, tol, p, n0, np), P, u, n0, p, true, 10 * tol, tol, 200, "curve_poles"); break; }
    case 2: case 3:
    {
        double l = b2 - b1, u1 = c.rng.coin(0.2) ? b1 : b1 + l * c.rng.uni(0, 0.5), u2 = c.rng.coin(0.2) ? b2 : u1 + (b2 - u1) * c.rng.uni(0.2, 1);
        auto us = vec(gbs::deviation_based_params<double, dim>(crv, u1, u2, np, dev));
        us.front() = u1;
        auto r = gbs::approx<double, dim>(crv, u1, u2, dev, tol, p, np);
        ld e = 1e-14L * (std::fabs(b1) + std::fabs(b2));
        c.near(r.bounds()[0], u1, e, "sub_range/bounds"); c.near(r.bounds()[1], u2, e, "sub_range/bounds");
        c.near_pt(r.begin(), crv.value(u1), 1e-12L, "sub_range/ends"); c.near_pt(r.end(), crv.value(u2), 1e-12L, "sub_range/ends");
        stop_reason<dim>(c, r, pts(us), us, 2 * p, p, true, 10 * tol, tol, 200, "sub_range");
        c.event("sub_ranges"); break;
    }
    case 4:
    {
        double k = c.rng.uni(0.5, 3), t = c.rng.uni(-1, 1);
        std::function<std::array<double, dim>(const std::array<double, dim> &)> f = [k, t](const std::array<double, dim> &x) { auto y = x; for (auto &z : y) z = k * z + t; return y; };
        auto PT = P; for (auto &x : PT) x = f(x);
        stop_reason<dim>(c, gbs::approx<double, dim>(crv, f, dev, tol, p, np), PT, u, 2 * p, p, true, 10 * tol, tol, 200, "transformed"); break;
    }
    case 5:
    {
        size_t n = p + 1 + size_t(c.rng.i(0, 5)); auto k = gbs::build_simple_mult_flat_knots<double>(b1, b2, n, p);
        auto r = gbs::approx<double, dim>(crv, p, n, k, dev, np);
        c.check(r.knotsFlats() == k && r.degree() == p, "given_knots/definition"); optimum<double, dim>(c, r, P, u, true, "given_knots");
        // a curve of that very space is reproduced
        gbs::BSCurve<double, dim> s(gen::points<double, dim>(c.rng, n, 1.), k, p);
        auto r2 = gbs::approx<double, dim>(s, p, n, k, dev, 30 + n);
        auto R = gen::R(s), Q = gen::R(r2); for (auto x : gen::params<double>(c.rng, k, 8)) c.near_pt(Q.value(x).v, R.value(x).v, 1e-7L, "given_knots/reproduces"); break;
    }
    default:
    {
        size_t n = p + 1 + size_t(c.rng.i(0, 6)); auto mode = modes[c.rng.i(0, 2)];
        auto r = gbs::approx<double, dim>(crv, dev, n, p, mode);
        c.check(r.poles().size() == n && r.degree() == p, "n_poles/definition"); c.near_pt(r.begin(), crv.begin(), 1e-12L, "n_poles/ends"); c.near_pt(r.end(), crv.end(), 1e-12L, "n_poles/ends");
        auto r2 = gbs::approx<double, dim>(crv, dev, p, mode, np);
        auto P2 = gbs::discretize(crv, np, dev); auto u2 = gbs::curve_parametrization(P2, mode, false);
        stop_reason<dim>(c, r2, P2, u2, 2 * p, p, true, 1e-3, 1e-4, 200, "curve_mode");
        try { gbs::uniform_distrib_params<double, dim>(crv, np); } catch (const std::length_error &) { c.event("law_refused"); return; } // announced by the arc-length law
        auto r3 = gbs::approx<double, dim>(crv, p, np); auto u3 = vec(gbs::uniform_distrib_params<double, dim>(crv, np));
        c.check(r3.poles().size() == 2 * p && r3.degree() == p, "uniform/definition");
        if (well_posed(r3.knotsFlats(), p, u3, true)) optimum<double, dim>(c, r3, pts(u3), u3, true, "uniform");
    }
    }
}
FAMILY("curve", 500, 12000) { if (c.rng.coin()) curve<2>(c); else curve<3>(c); }

template <class T> static void surf(Case &c)
{
    size_t p = c.rng.i(1, 4), q = c.rng.i(1, 4);
    auto ku = gen::knots<T>(c.rng, p, c.rng.i(1, 5), int(p)), kv = gen::knots<T>(c.rng, q, c.rng.i(1, 5), int(q));
    size_t nu = ku.size() - p - 1, nv = kv.size() - q - 1;
    auto u = sites<T>(c.rng, ku, p, c.rng.i(0, 12)), v = sites<T>(c.rng, kv, q, c.rng.i(0, 12));
    auto Q = gen::points<T, 3>(c.rng, u.size() * v.size()); bool repro = c.rng.coin(0.4);
    gbs::BSSurface<T, 3> src(gen::points<T, 3>(c.rng, nu * nv), ku, kv, p, q); auto RS = gen::R(src);
    if (repro) for (size_t j = 0; j < v.size(); ++j) for (size_t i = 0; i < u.size(); ++i) { auto x = RS.value(u[i], v[j]).v; for (size_t d = 0; d < 3; ++d) Q[i + u.size() * j][d] = T(x[d]); }
    bool cons = c.rng.coin(0.4) && u.size() * v.size() * nu * nv < 40000;
    c.describe(num(u.size()) + "x" + num(v.size()) + " pts " + num(nu) + "x" + num(nv) + " poles deg " + num(p) + "x" + num(q) + (cons ? " constraints" : "") + (repro ? " on surface" : "")); c.nontrivial(hvec(u) ^ mix(hvec(v)));
    std::vector<std::array<T, 3>> poles;
    struct S { size_t i; T u, v; size_t du, dv; }; std::vector<S> st;
    std::vector<std::array<T, 3>> X;
    for (size_t j = 0; j < v.size(); ++j) for (size_t i = 0; i < u.size(); ++i) { st.push_back({st.size(), u[i], v[j], 0, 0}); X.push_back(Q[i + u.size() * j]); }
    if (cons)
    {
        if (c.rng.coin()) for (int t = 0; t < 6; ++t)
        {   // some derivative conditions as well
            S s{st.size(), T(c.rng.uni(ku.front(), ku.back())), T(c.rng.uni(kv.front(), kv.back())), size_t(c.rng.i(0, 1)), size_t(c.rng.i(0, 1))};
            auto x = RS.value(s.u, s.v, s.du, s.dv).v; st.push_back(s); X.push_back(std::array<T, 3>{T(x[0]), T(x[1]), T(x[2])});
        }
        for (size_t i = st.size(); i-- > 1;) std::swap(st[i], st[c.rng.next() % (i + 1)]);
        std::vector<gbs::bss_constraint<T, 3>> C; for (auto &s : st) C.push_back({s.u, s.v, X[s.i], s.du, s.dv});
        auto r = gbs::approx<T, 3>(C, ku, kv, p, q);
        c.check(r.knotsFlatsU() == ku && r.knotsFlatsV() == kv && r.degreeU() == p && r.degreeV() == q, "definition"); poles = r.poles();
        c.event("constraint_sets");
        C.resize(nu * nv - 1); c.check(throws([&] { gbs::approx<T, 3>(C, ku, kv, p, q); }), "refused_constraints"); c.event("refused");
    }
    else poles = gbs::approx<T, 3>(Q, ku, kv, u, v, p, q);
    if (!c.check(poles.size() == nu * nv, "pole_count")) return;
    gbs::BSSurface<T, 3> s(poles, ku, kv, p, q); auto R = gen::R(s);
    ld m = 0; for (auto &x : poles) for (auto y : x) { if (!c.check(std::isfinite(y), "finite")) return; m = std::max<ld>(m, std::fabs(y)); } for (auto &x : X) for (auto y : x) m = std::max<ld>(m, std::fabs(y));
    std::vector<std::array<ld, 3>> g(nu * nv); for (auto &x : g) x.fill(0); ld wmax = 1;
    auto lu = L(ku), lv = L(kv); std::vector<ld> w(nu * nv, 0);
    for (auto &t : st)
    {
        auto A = ref::basis(nu, p, t.u, lu, t.du), B = ref::basis(nv, q, t.v, lv, t.dv); auto x = R.value(t.u, t.v, t.du, t.dv);
        for (size_t j = 0; j <= q; ++j) for (size_t i = 0; i <= p; ++i)
        {
            size_t a = A.s - p + i + nu * (B.s - q + j); ld N = A.D[t.du][i] * B.D[t.dv][j];
            w[a] += std::fabs(N) * std::max<ld>(1, x.b / m); for (size_t d = 0; d < 3; ++d) g[a][d] += N * (x.v[d] - ld(X[t.i][d]));
        }
    }
    for (auto x : w) wmax = std::max(wmax, x);
    for (auto &x : g) for (auto y : x) c.near(y, 0, (sizeof(T) == 4 ? 2e-4L : 1e-10L) * m * wmax, "surface/stationary");
    c.event("optimality");
    if (repro)
    {
        ld sc = RS.max_pole();
        for (int t = 0; t < 8; ++t) { T a = T(c.rng.uni(ku.front(), ku.back())), b = T(c.rng.uni(kv.front(), kv.back())); c.near_pt(R.value(a, b).v, RS.value(a, b).v, (sizeof(T) == 4 ? 5e-2L : 1e-7L) * sc, "surface/reproduces"); }
        c.event("reproduction");
    }
    auto Q2 = Q; Q2.push_back(Q[0]); c.check(throws([&] { gbs::approx<T, 3>(Q2, ku, kv, u, v, p, q); }), "refused_points");
    std::vector<T> us(u.begin(), u.begin() + long(nu) - 1), vs(v.begin(), v.begin() + long(nv)); Q2.resize(us.size() * vs.size());
    c.check(throws([&] { gbs::approx<T, 3>(Q2, ku, kv, us, vs, p, q); }), "refused_too_few"); c.event("refused", 2);
}
FAMILY("surface", 600, 15000) { surf<double>(c); }
FAMILY("surface_float", 60, 1500) { surf<float>(c); }

int main(int a, char **v) { return vh::run(a, v); }
