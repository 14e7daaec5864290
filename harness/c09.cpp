// C09: batch and parallel evaluation equals serial evaluation on every schedule; concurrent read-only use is race free.
#include "gen.h"
#include <barrier>
#include <deque>
#include <list>
#include <thread>
#include <gbs/bscanalysis.h>
#include <gbs/bssanalysis.h>
#include <gbs/bscapprox.h>
#include <gbs/bssapprox.h>
#include <gbs/bssbuild.h>
#include <gbs/bscbuild.h>
#include <gbs/curves>
#include <gbs/transform.h>
#include <gbs/extrema.h>
#include <gbs/offsets.h>
#include <gbs-mesh/tfi.h>
#include <topology/tessellations.h>
#include <topology/halfEdgeMeshQuality.h>
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VH_TSAN 1
#endif
#endif
#ifdef VH_TSAN
static void with_threads(unsigned n, uint64_t seed) { vh_par::state().threads = n; vh_par::state().seed = seed; }
#else
#include <tbb/global_control.h>
static std::unique_ptr<tbb::global_control> ctl;
static void with_threads(unsigned n, uint64_t) { ctl.reset(); ctl = std::make_unique<tbb::global_control>(tbb::global_control::max_allowed_parallelism, n); }
#endif
using namespace vh;
using gbs::operator+;
using gbs::operator*;
using gbs::operator-;
using gbs::operator^;
using P2 = std::array<double, 2>; using P3 = std::array<double, 3>;

struct Gate { size_t old = gbs::parallel_min_size, oldb = gbs::parallel_batch_min_size; ~Gate() { gbs::parallel_min_size = old; gbs::parallel_batch_min_size = oldb; } };
static size_t gate(Case &c) { switch (c.rng.i(0, 3)) { case 0: return size_t(c.rng.i(0, 3)); case 1: return size_t(c.rng.i(4, 200)); case 2: return 1000; default: return size_t(-1); } }
static size_t len(Case &c, size_t g)
{
    switch (c.rng.i(0, 4)) { case 0: return size_t(c.rng.i(0, 3)); case 1: return g < 3000 ? g + size_t(c.rng.i(0, 2)) - (g ? 1 : 0) : 7; case 2: return size_t(c.rng.i(4, 120)); case 3: return size_t(998 + c.rng.i(0, 4)); default: return size_t(c.rng.i(200, 1800)); }
}
static void note(Case &c, size_t n) { c.event(n >= gbs::parallel_min_size ? "lists/parallel" : "lists/serial"); c.event("elements", long(n)); }
template <class A, class B> static bool same(Case &c, const A &a, const B &b, const char *key, const std::string &what = "")
{
    if (!c.check(a.size() == b.size(), std::string(key) + "/length", what)) return false;
    auto i = a.begin(); auto j = b.begin();
    for (size_t k = 0; i != a.end(); ++i, ++j, ++k) if (std::memcmp(&*i, &*j, sizeof(*i)) && !(*i == *j)) return c.check(false, std::string(key) + "/element", what + " [" + num(k) + "]");
    return c.check(true, key);
}
// ---- curves
template <size_t dim> static std::shared_ptr<gbs::Curve<double, dim>> any_curve(Rng &r, int k)
{
    using namespace gbs;
    int p = r.i(1, 5), s = r.i(1, 4);
    auto b = std::make_shared<BSCurve<double, dim>>(gen::smooth_curve<double, dim>(r, p, s));
    switch (k)
    {
    case 0: return std::make_shared<BSCurve<double, dim>>(gen::curve<double, dim>(r, p, s));
    case 1: return std::make_shared<BSCurveRational<double, dim>>(gen::rcurve<double, dim>(r, p, s));
    case 2: { auto [a, e] = b->bounds(); return std::make_shared<CurveTrimmed<double, dim>>(b, a + 0.1 * (e - a), e - 0.2 * (e - a)); }
    case 3: return std::make_shared<CurveReversed<double, dim>>(b);
    default:
        if constexpr (dim == 3)
        {
            auto sf = std::make_shared<BSSurface<double, 3>>(gen::surf<double, 3>(r, r.i(1, 4), r.i(1, 4), r.i(1, 3), r.i(1, 3)));
            auto [u1, u2, v1, v2] = sf->bounds();
            auto uv = std::make_shared<BSCurve<double, 2>>(BSCurve<double, 2>({{u1, v1}, {u2, 0.3 * v1 + 0.7 * v2}, {u1, v2}, {u2, v2}}, {0., 0., 0., 0.4, 1., 1., 1.}, 2));
            return std::make_shared<CurveOnSurface<double, 3>>(uv, sf);
        }
        else return std::make_shared<CurveOffset2D<double, BSCfunction<double>>>(b, BSCfunction<double>(BSCurve<double, 1>({{0.1}, {0.2}}, {b->bounds()[0], b->bounds()[0], b->bounds()[1], b->bounds()[1]}, 1)));
    }
}
template <class C> static std::vector<double> uparams(Rng &r, const C &crv, size_t n)
{
    auto [a, b] = crv.bounds(); std::vector<double> u(n);
    for (auto &x : u) x = r.coin(0.1) ? a : r.coin(0.1) ? b : std::min(std::max(r.uni(a, b), a), b);
    return u;
}
template <size_t dim> static void batch_curve(Case &c)
{
    Gate G; int k = c.rng.i(0, 4); auto crv = any_curve<dim>(c.rng, k);
    gbs::parallel_min_size = gate(c); with_threads(unsigned(c.rng.i(1, 8)), c.rng.next());
    size_t n = len(c, gbs::parallel_min_size), d = size_t(c.rng.i(0, 2)); if (k == 4) d = std::min<size_t>(d, 1);
    auto u = uparams(c.rng, *crv, n);
    c.describe("curve kind " + num(k) + " n " + num(n) + " gate " + num(gbs::parallel_min_size)); c.nontrivial(hvec(u) ^ (uint64_t(k) << 50) ^ n); note(c, n);
    std::vector<std::array<double, dim>> e, m, m2;
    for (auto x : u) { e.push_back(crv->value(x, d)); m.push_back(crv->d_dm(x)); m2.push_back(crv->d_dm2(x)); }
    same(c, crv->values(u, d), e, "values"); same(c, crv->d_dms(u), m, "d_dms"); same(c, crv->d_dm2s(u), m2, "d_dm2s");
    std::list<double> l(u.begin(), u.end()); std::deque<double> q(u.begin(), u.end());
    same(c, crv->values(l, d), e, "values_list"); same(c, crv->values(q, d), e, "values_deque"); same(c, crv->d_dms(l), m, "d_dms_list"); same(c, crv->d_dm2s(q), m2, "d_dm2s_deque");
    same(c, gbs::make_points(*crv, u, d), e, "make_points"); same(c, gbs::make_points(*crv, l, d), e, "make_points_list");
    // an invalid element at any position
    if (n > 0)
    {
        auto [a, b] = crv->bounds(); auto w = u; int bad = c.rng.coin(0.7) ? 1 : 3;
        for (int t = 0; t < bad; ++t) { size_t at = c.rng.coin(0.3) ? n - 1 : c.rng.coin(0.3) ? 0 : size_t(c.rng.i(0, int(n) - 1)); w[at] = c.rng.coin() ? b + c.rng.uni(0.1, 10) : a - c.rng.uni(0.1, 10); }
        bool single = false; for (auto x : w) if (throws([&] { crv->value(x, d); })) single = true;
        std::list<double> wl(w.begin(), w.end());
        c.check(single == throws([&] { crv->values(w, d); }), "invalid/values"); c.check(single == throws([&] { crv->values(wl, d); }), "invalid/values_list");
        c.check(single == throws([&] { gbs::make_points(*crv, w, d); }), "invalid/make_points");
        bool s1 = false; for (auto x : w) if (throws([&] { crv->d_dm(x); })) s1 = true;
        bool s2 = false; for (auto x : w) if (throws([&] { crv->d_dm2(x); })) s2 = true;
        c.check(s1 == throws([&] { crv->d_dms(w); }), "invalid/d_dms"); c.check(s2 == throws([&] { crv->d_dm2s(w); }), "invalid/d_dm2s");
        c.event(single ? "invalid/thrown" : "invalid/accepted");
        if (k < 2)
        {   // the same error as the single call
            try { crv->values(w, d); } catch (const gbs::OutOfBoundsCurveEval<double> &) { c.event("invalid/type"); } catch (...) { c.check(false, "invalid/type"); }
        }
        same(c, crv->values(u, d), e, "values_after_error");
    }
}
FAMILY("batch_curve", 500, 12000) { if (c.rng.coin()) batch_curve<2>(c); else batch_curve<3>(c); }

FAMILY("batch_surface", 350, 9000)
{
    Gate G; bool rat = c.rng.coin();
    std::shared_ptr<gbs::Surface<double, 3>> s;
    if (rat) s = std::make_shared<gbs::BSSurfaceRational<double, 3>>(gen::rsurf<double, 3>(c.rng, c.rng.i(1, 4), c.rng.i(1, 4), c.rng.i(1, 3), c.rng.i(1, 3)));
    else s = std::make_shared<gbs::BSSurface<double, 3>>(gen::surf<double, 3>(c.rng, c.rng.i(1, 4), c.rng.i(1, 4), c.rng.i(1, 3), c.rng.i(1, 3)));
    gbs::parallel_min_size = gate(c); with_threads(unsigned(c.rng.i(1, 8)), c.rng.next());
    size_t n = len(c, gbs::parallel_min_size), du = size_t(c.rng.i(0, 2)), dv = size_t(c.rng.i(0, 2));
    auto [u1, u2, v1, v2] = s->bounds();
    std::vector<P2> uv(n); std::vector<double> U(n), V(n);
    for (size_t i = 0; i < n; ++i) { U[i] = uv[i][0] = c.rng.coin(0.1) ? u2 : std::min(c.rng.uni(u1, u2), u2); V[i] = uv[i][1] = c.rng.coin(0.1) ? v1 : std::min(c.rng.uni(v1, v2), v2); }
    c.describe("n " + num(n) + " gate " + num(gbs::parallel_min_size) + (rat ? " rational" : "")); c.nontrivial(hvec(U) ^ n ^ rat); note(c, n);
    std::vector<P3> e, a, b, a2, b2;
    for (auto &q : uv) { e.push_back(s->value(q[0], q[1], du, dv)); a.push_back(s->d_dmu(q[0], q[1])); b.push_back(s->d_dmv(q[0], q[1])); a2.push_back(s->d_dmu2(q[0], q[1])); b2.push_back(s->d_dmv2(q[0], q[1])); }
    std::list<P2> l(uv.begin(), uv.end()); std::list<double> ul(U.begin(), U.end()), vl(V.begin(), V.end());
    same(c, s->values(uv, du, dv), e, "values_uv"); same(c, s->values(l, du, dv), e, "values_uv_list"); same(c, s->values(U, V, du, dv), e, "values_u_v"); same(c, s->values(ul, vl, du, dv), e, "values_u_v_list");
    same(c, s->d_dmus(uv), a, "d_dmus"); same(c, s->d_dmvs(uv), b, "d_dmvs"); same(c, s->d_dmu2s(uv), a2, "d_dmu2s"); same(c, s->d_dmv2s(uv), b2, "d_dmv2s");
    same(c, s->d_dmus(l), a, "d_dmus_list"); same(c, s->d_dmv2s(l), b2, "d_dmv2s_list");
    // grids
    size_t nu = size_t(c.rng.i(2, 40)), nv = size_t(c.rng.i(2, 40)); auto gu = gbs::make_range(u1, u2, nu), gv = gbs::make_range(v1, v2, nv);
    std::vector<P3> g; for (auto v : gv) for (auto u : gu) g.push_back(s->value(u, v));
    note(c, nu * nv); same(c, gbs::discretize(*s, nu, nv), g, "discretize", num(nu) + "x" + num(nv));
    auto f = gbs::BSSfunction<double>(gen::surf<double, 1>(c.rng, 1, 1, 1, 1));
    { auto bs = f.basisSurface(); bs.changeUBounds(u1, u2); bs.changeVBounds(v1, v2); f = gbs::BSSfunction<double>(bs); }
    std::vector<P3> o; for (auto v : gv) for (auto u : gu) { auto w = s->value(u, v, 1, 0) ^ s->value(u, v, 0, 1); o.push_back(s->value(u, v) + w * (f(u, v) / gbs::norm(w))); }
    { auto got = gbs::offset_points(f, *s, gu, gv); c.check(got.size() == o.size(), "offset_points/length"); bool ok = true; for (size_t i = 0; ok && i < o.size(); ++i) ok = !std::isfinite(gbs::norm(o[i])) || gbs::distance(got[i], o[i]) <= 1e-9 * (1 + gbs::norm(o[i])); c.check(ok, "offset_points"); }
    if (n > 0)
    {
        auto w = uv; size_t at = c.rng.coin(0.3) ? n - 1 : size_t(c.rng.i(0, int(n) - 1)); bool inu = c.rng.coin();
        if (inu) w[at][0] = c.rng.coin() ? u2 + c.rng.uni(0.1, 5) : u1 - c.rng.uni(0.1, 5); else w[at][1] = c.rng.coin() ? v2 + c.rng.uni(0.1, 5) : v1 - c.rng.uni(0.1, 5);
        auto WU = U, WV = V; WU[at] = w[at][0]; WV[at] = w[at][1];
        c.check(throws([&] { s->values(w, du, dv); }), "invalid/values_uv"); c.check(throws([&] { s->values(WU, WV, du, dv); }), "invalid/values_u_v");
        c.check(throws([&] { s->d_dmus(w); }), "invalid/d_dmus"); c.check(throws([&] { s->d_dmvs(w); }), "invalid/d_dmvs"); c.check(throws([&] { s->d_dmu2s(w); }), "invalid/d_dmu2s"); c.check(throws([&] { s->d_dmv2s(w); }), "invalid/d_dmv2s");
        c.event("invalid/thrown");
    }
}

// ---- every algorithm with an internal parallel loop: one thread against several
using Flat = std::vector<double>;
template <size_t n> static void add(Flat &f, const std::array<double, n> &p) { f.insert(f.end(), p.begin(), p.end()); }
static void add(Flat &f, double x) { f.push_back(x); }
template <class C> static void add(Flat &f, const C &v) { for (auto &x : v) add(f, x); }
template <size_t d> static void addc(Flat &f, const gbs::BSCurve<double, d> &c) { add(f, c.poles()); add(f, c.knotsFlats()); }
static void adds(Flat &f, const gbs::BSSurface<double, 3> &s) { add(f, s.poles()); add(f, s.knotsFlatsU()); add(f, s.knotsFlatsV()); }

template <class F> static void schedules(Case &c, const char *key, F fn)
{
    Gate G; gbs::parallel_min_size = size_t(c.rng.i(1, 20)); gbs::parallel_batch_min_size = size_t(c.rng.i(1, 6));
    auto run = [&](Flat &f) -> std::string { try { fn(f); } catch (const std::exception &e) { return e.what(); } return ""; };
    with_threads(1, 1); Flat r; auto e0 = run(r);
    for (int t = 0; t < 3; ++t)
    {
        if (t == 2) { gbs::parallel_min_size = size_t(-1); gbs::parallel_batch_min_size = size_t(-1); }
        with_threads(unsigned(c.rng.i(2, 8)), c.rng.next()); Flat f; auto e = run(f);
        c.check(e == e0, std::string(key) + "/error", e + " instead of " + e0);
        if (e0.empty()) { bool ok = f.size() == r.size(); for (size_t i = 0; ok && i < f.size(); ++i) ok = f[i] == r[i] || (std::isnan(f[i]) && std::isnan(r[i])); c.check(ok, key); }
    }
    c.event(std::string("algorithm/") + key); c.event(e0.empty() ? "runs/result" : "runs/error");
}
FAMILY("schedules", 300, 8000)
{
    using namespace gbs;
    auto crv = gen::smooth_curve<double, 3>(c.rng, c.rng.i(2, 4), c.rng.i(1, 4)); auto [u1, u2] = crv.bounds();
    int k = c.rng.i(0, 11); c.describe("algorithm " + num(k) + " " + gen::cdesc(crv)); c.nontrivial(gen::chash(crv) ^ uint64_t(k));
    switch (k)
    {
    case 0: { size_t n = size_t(c.rng.i(5, 60)); schedules(c, "abs_curv", [&](Flat &f) { addc(f, abs_curv<double, 3>(crv, n).basisCurve()); add(f, uniform_distrib_params<double, 3>(crv, n)); }); break; }
    case 1: { size_t n = size_t(c.rng.i(5, 40)); double tol = std::pow(10., c.rng.uni(-5, -1)); schedules(c, "abs_curv_adaptive", [&](Flat &f) { auto [u, m] = abs_curv_adaptive_discretzation<double, 3>(crv, u1, u2, n, 3, tol); add(f, u); add(f, m); }); break; }
    case 2: { size_t n = size_t(c.rng.i(5, 200)); schedules(c, "discretize", [&](Flat &f) { add(f, discretize(crv, n, 0.01)); }); break; }
    case 3:
    {
        double t = c.rng.uni(-5, 5), s = c.rng.uni(0.5, 2); P3 v{c.rng.uni(-1, 1), t, s};
        auto rc = gen::rcurve<double, 3>(c.rng, 3, 8); auto sf = gen::surf<double, 3>(c.rng, 2, 3, 6, 5); auto rs = gen::rsurf<double, 3>(c.rng, 2, 3, 6, 5);
        schedules(c, "transform", [&](Flat &f) {
            auto trf = [&](const P3 &x) { return x * s + v; };
            auto a = crv; gbs::transform(a, trf); auto b = rc; gbs::transform(b, trf); auto d = sf; gbs::transform(d, trf); auto e = rs; gbs::transform(e, trf);
            add(f, a.poles()); add(f, b.poles()); add(f, d.poles()); add(f, e.poles()); add(f, add_dimension(crv, t).poles()); });
        break;
    }
    case 4: case 5:
    {
        size_t n = size_t(c.rng.i(1, 24)); bool bad = c.rng.coin(0.2); std::vector<points_vector<double, 3>> L;
        for (size_t i = 0; i < n; ++i) { points_vector<double, 3> p; int m = c.rng.i(6, 30); for (int j = 0; j < m; ++j) p.push_back({double(j), c.rng.uni(-1, 1), c.rng.uni(-1, 1)}); L.push_back(p); }
        if (bad) L[size_t(c.rng.i(0, int(n) - 1))].resize(2);
        if (k == 4) schedules(c, "interpolate_batch", [&](Flat &f) { for (auto &x : interpolate<double, 3>(L, size_t(3), KnotsCalcMode::CHORD_LENGTH)) addc(f, x); });
        else schedules(c, "approx_batch", [&](Flat &f) { for (auto &x : approx<double, 3>(L, size_t(3), size_t(5), KnotsCalcMode::CHORD_LENGTH)) addc(f, x); });
        break;
    }
    case 6:
    {
        std::vector<BSCurve<double, 3>> L; size_t n = size_t(c.rng.i(2, 6)), p = size_t(c.rng.i(1, 3)); auto kf = gen::knots<double>(c.rng, p, 3, 1);
        for (size_t i = 0; i < n; ++i) { auto P = gen::points<double, 3>(c.rng, kf.size() - p - 1, 0.3); for (auto &x : P) x[2] += double(i); L.push_back(BSCurve<double, 3>(P, kf, p)); }
        schedules(c, "loft", [&](Flat &f) { adds(f, loft(L, std::min<size_t>(3, n - 1))); });
        break;
    }
    case 7: { P3 x{c.rng.uni(0, 1), c.rng.uni(-1, 1), c.rng.uni(-1, 1)}; schedules(c, "extrema_curve_point", [&](Flat &f) { add(f, extrema_curve_point<double, 3>(crv, x, 1e-6)); }); break; }
    case 8:
    {
        auto s = gen::surf<double, 3>(c.rng, 2, 2, 1, 1, 1, 1.); P3 x{c.rng.uni(-1, 1), c.rng.uni(-1, 1), c.rng.uni(-1, 1)};
        points_vector<double, 3> P; for (int i = 0; i < 6; ++i) P.push_back({c.rng.uni(-1, 1), c.rng.uni(-1, 1), c.rng.uni(-1, 1)});
        schedules(c, "surface_projection", [&](Flat &f) { add(f, extrema_surf_pnt<double, 3>(s, x, 1e-6)); auto Q = P; project_points_on_surface<double, 3>(s, Q, 1e-6); add(f, Q); });
        break;
    }
    case 9:
    {
        std::vector<std::shared_ptr<Curve<double, 3>>> L; for (int i = c.rng.i(1, 8); i-- > 0;) L.push_back(std::make_shared<BSCurve<double, 3>>(gen::smooth_curve<double, 3>(c.rng, 3, 2)));
        schedules(c, "curve_list", [&](Flat &f) { for (auto &x : extrema_curve_curve_lst<double, 3>(crv, L.begin(), L.end(), 1e-6)) add(f, x); });
        break;
    }
    case 10:
    {
        auto sf = std::make_shared<BSSurface<double, 3>>(gen::surf<double, 3>(c.rng, 2, 3, 2, 2, 1, 1.)); auto [a, b, e, g] = sf->bounds();
        std::vector<double> ki{a, b}, ej{e, g}; if (c.rng.coin()) ki.insert(ki.begin() + 1, 0.5 * (a + b)); size_t nu = size_t(c.rng.i(5, 25)), nv = size_t(c.rng.i(5, 25));
        schedules(c, "tfi", [&](Flat &f) { auto t = tfi_mesh_2d<double, 3, 1, 1, true>(sf, ki, ej, nu, nv); add(f, std::get<0>(t)); });
        break;
    }
    default:
    {
        auto f3 = [&](const P3 &x) { return x * 2.; }; std::function<P3(const P3 &)> fn = f3; bool bad = c.rng.coin(0.3);
        std::function<P3(const P3 &)> fb = [](const P3 &) -> P3 { throw std::runtime_error("no"); };
        schedules(c, "approx_transformed", [&](Flat &f) { addc(f, approx<double, 3>(crv, bad ? fb : fn, 0.05, 1e-3, size_t(3), size_t(20))); });
    }
    }
}

// ---- concurrent read-only use of shared objects
template <class F> static void concurrently(Case &c, const char *key, size_t nthreads, F fn)
{   // fn(thread, out): every thread reads the same shared objects; the results are compared with a serial run made afterwards
    std::vector<Flat> out(nthreads); std::vector<std::string> err(nthreads); std::barrier sync{long(nthreads)}; std::vector<std::thread> T; std::vector<uint64_t> jit(nthreads);
    for (auto &j : jit) j = c.rng.next();
    for (size_t t = 0; t < nthreads; ++t) T.emplace_back([&, t] { sync.arrive_and_wait(); for (volatile uint64_t z = 0; z < jit[t] % 2000; z = z + 1) {} try { fn(t, out[t]); } catch (const std::exception &e) { err[t] = e.what(); } });
    for (auto &t : T) t.join();
    for (size_t t = 0; t < nthreads; ++t)
    {
        Flat f; std::string e; try { fn(t, f); } catch (const std::exception &x) { e = x.what(); }
        c.check(e == err[t], std::string(key) + "/error", err[t] + " / " + e); bool ok = f.size() == out[t].size(); for (size_t i = 0; ok && i < f.size(); ++i) ok = f[i] == out[t][i] || (std::isnan(f[i]) && std::isnan(out[t][i])); c.check(ok, key);
        c.event("results_compared", long(f.size()));
    }
    c.event(std::string("shared/") + key); c.event("threads", long(nthreads));
}
FAMILY("concurrent_geometry", 220, 5000)
{
    using namespace gbs; with_threads(1, 1); Gate G; gbs::parallel_min_size = size_t(-1);
    size_t T = size_t(c.rng.i(2, 6)); int k = c.rng.i(0, 4);
    auto crv = any_curve<3>(c.rng, k); auto c2 = any_curve<2>(c.rng, c.rng.i(0, 4));
    auto s = std::make_shared<BSSurface<double, 3>>(gen::surf<double, 3>(c.rng, c.rng.i(1, 4), c.rng.i(1, 4), 2, 3, -1, 1.)); auto rs = std::make_shared<BSSurfaceRational<double, 3>>(gen::rsurf<double, 3>(c.rng, 2, 3, 2, 2, -1, 1.));
    auto reg = gen::smooth_curve<double, 3>(c.rng, 3, 3); P3 x{c.rng.uni(0, 1), c.rng.uni(-1, 1), 0.2};
    auto u = uparams(c.rng, *crv, 40); auto w = uparams(c.rng, *c2, 20); auto [a, b, e, g] = s->bounds(); auto [a2, b2, e2, g2] = rs->bounds(); uint64_t off = c.rng.next();
    std::vector<double> r(40); for (auto &y : r) y = c.rng.u01();
    c.describe("curve kind " + num(k) + " threads " + num(T)); c.nontrivial(hvec(u) ^ T);
    concurrently(c, "geometry", T, [&](size_t t, Flat &f) {
        for (size_t i = 0; i < u.size(); ++i)
        {
            size_t j = (i * 7 + t * (off % 5)) % u.size(); double p = r[j], q = r[(j + 3) % 40];
            add(f, crv->value(u[j], i % 2)); add(f, crv->d_dm(u[j])); if (i % 4 == 0) add(f, crv->d_dm2(u[j]));
            add(f, s->value(a + p * (b - a), e + q * (g - e), i % 3, (i / 2) % 2)); add(f, rs->value(a2 + p * (b2 - a2), e2 + q * (g2 - e2), i % 2, 0));
            if (i < w.size()) add(f, c2->value(w[i], i % 2));
        }
        auto ders = std::vector<P3>(4); crv->derivatives(u[t], 2, ders.data()); add(f, ders);
        add(f, crv->values(u)); add(f, crv->bounds()); add(f, s->values(r, r, 0, 0)[0].size() ? Flat{1.} : Flat{});
        add(f, length<double, 3>(reg)); add(f, extrema_curve_point<double, 3>(reg, x, 1e-6)); add(f, s->isoU(a).poles()); add(f, rs->isoV(e2).poles());
        auto own = reg; own.insertKnot(0.3 * own.bounds()[0] + 0.7 * own.bounds()[1]); own.increaseDegree(); add(f, own.poles()); // private copies may be edited meanwhile
        auto bad = throws([&] { crv->value(crv->bounds()[1] + 1 + double(t)); }); add(f, double(bad));
    });
}
FAMILY("concurrent_build", 120, 3000)
{   // independent builds from shared inputs: no hidden shared state
    using namespace gbs; with_threads(1, 1); Gate G; gbs::parallel_min_size = size_t(-1);
    size_t T = size_t(c.rng.i(2, 6)), n = size_t(c.rng.i(10, 130)); points_vector<double, 3> P; for (size_t i = 0; i < n; ++i) P.push_back({double(i), c.rng.uni(-1, 1), c.rng.uni(-1, 1)});
    std::vector<BSCurve<double, 3>> L; auto kf = gen::knots<double>(c.rng, 2, 3, 1); for (size_t i = 0; i < 4; ++i) { auto Q = gen::points<double, 3>(c.rng, kf.size() - 3, 0.3); for (auto &y : Q) y[2] += double(i); L.push_back(BSCurve<double, 3>(Q, kf, 2)); }
    c.describe(num(n) + " points, " + num(T) + " threads"); c.nontrivial(hvec(P[1]) ^ n);
    concurrently(c, "build", T, [&](size_t t, Flat &f) {
        addc(f, interpolate<double, 3>(P, size_t(1 + t % 4), KnotsCalcMode::CENTRIPETAL)); addc(f, approx<double, 3>(P, size_t(3), size_t(6 + t % 3), KnotsCalcMode::CHORD_LENGTH));
        adds(f, loft(L, size_t(2))); auto cp = L; unify_curves_degree(cp); addc(f, cp[0]);
    });
}
FAMILY("concurrent_mesh", 120, 3000)
{   // read-only queries of one mesh
    using namespace gbs; with_threads(1, 1);
    std::vector<P2> X; int n = c.rng.i(5, 40); for (int i = 0; i < n; ++i) X.push_back({c.rng.uni(0, 1), c.rng.uni(0, 1)});
    auto faces = delaunay2DBoyerWatson<double>(X); repairVertexEdges<double, 2>(faces); size_t T = size_t(c.rng.i(2, 6));
    c.describe(num(n) + " points, " + num(T) + " threads"); c.nontrivial(hvec(X[0]) ^ uint64_t(n));
    concurrently(c, "mesh", T, [&](size_t t, Flat &f) {
        for (auto &h : faces)
        {
            for (auto &v : getFaceVertices(h)) add(f, v->coords);
            for (auto &e : getFaceEdges(h)) { add(f, e->vertex->coords); add(f, double(e->opposite != nullptr)); }
            add(f, double(getNeighboringFaces(h).size())); { double A = sum_area(0., h); add(f, A); }
            auto v = h->edge->vertex; add(f, double(getFacesAttachedToVertex(v).size()));
        }
        { double A = getTriangle2dMeshArea(faces); add(f, A); } if (!faces.empty()) add(f, double(getOrientedFacesBoundary(faces).size())); (void)t;
    });
}
int main(int a, char **v)
{
    int r = vh::run(a, v);
    return r;
}
