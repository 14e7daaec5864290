// C06: interpolating curves meet every prescribed constraint.
#include "gen.h"
#include <gbs/bscinterp.h>
using namespace vh;
using gbs::KnotsCalcMode;

template <class T> static ld rel() { return sizeof(T) == 4 ? 2e-3L : 1e-9L; }

// The observed curve must pass at (u, d, x); judged on its poles and knots by the reference model.
template <class T, size_t dim>
static void meets(Case &c, const gbs::BSCurve<T, dim> &crv, const ref::Curve &R, T u, size_t d, const std::array<T, dim> &x, const char *key, ld extra = 0)
{
    auto v = R.ders(u, d)[d];
    ld m = v.b; for (auto q : x) m = std::max<ld>(m, std::fabs(q));
    c.near_pt(v.v, x, rel<T>() * m + extra, key, "u=" + num(u) + " d=" + num(d));
    auto w = crv.value(u, d);
    c.near_pt(w, x, rel<T>() * 2 * m + extra, key, "value u=" + num(u) + " d=" + num(d));
    c.event("constraints");
}
template <class T, size_t dim>
static void shape(Case &c, const gbs::BSCurve<T, dim> &crv, size_t p, size_t n, T u1, T u2, size_t max_mult)
{
    auto &k = crv.knotsFlats();
    c.check(crv.degree() == p, "degree");
    c.check(crv.poles().size() == n && k.size() == n + p + 1, "pole_count", num(crv.poles().size()));
    c.check(std::is_sorted(k.begin(), k.end()), "knots_sorted");
    c.check(crv.bounds()[0] == u1 && crv.bounds()[1] == u2 && k.front() == u1 && k.back() == u2, "bounds");
    // continuity the scheme promises: interior knots of multiplicity at most max_mult
    for (size_t i = p + 1, m = 1; i < n; ++i) { m = k[i] == k[i - 1] ? m + 1 : 1; c.check(m <= max_mult, "continuity", num(k[i])); }
    for (auto &q : crv.poles()) for (auto x : q) if (!std::isfinite(x)) { c.fail("finite", "non finite pole"); return; }
}
template <size_t dim> static std::vector<std::array<double, dim>> path(Rng &r, size_t n)
{   // points without coincident neighbours, spacing ratio bounded
    std::vector<std::array<double, dim>> P(n);
    double s = r.coin(0.6) ? 1 : std::pow(10., r.uni(-3, 3)); int st = r.i(0, 2);
    std::array<double, dim> x{}; for (auto &q : x) q = r.uni(-3, 3) * s;
    for (auto &q : P)
    {
        q = x;
        for (size_t c = 0; c < dim; ++c) x[c] += s * (c == 0 ? r.uni(st == 0 ? 0.9 : 0.2, 1) : r.uni(-1, 1) * (st == 2 ? 3 : 0.5));
    }
    return P;
}
static std::vector<double> sites(Rng &r, size_t n) { return gen::km<double>(r, 1, int(n) - 1, 1, r.coin(0.2) ? 0 : 1).first; }
static const std::array<KnotsCalcMode, 3> modes{KnotsCalcMode::EQUALLY_SPACED, KnotsCalcMode::CHORD_LENGTH, KnotsCalcMode::CENTRIPETAL};
static size_t count(Rng &r, size_t lo) { return r.coin(0.06) ? size_t(r.i(90, 170)) : lo + size_t(r.i(0, r.coin(0.3) ? 40 : 9)); }

template <size_t dim> static void pts_mode(Case &c)
{
    size_t p = c.rng.i(1, 7), n = count(c.rng, p + 1);
    auto P = path<dim>(c.rng, n);
    auto mode = modes[c.rng.i(0, 2)];
    c.describe("n " + num(n) + " p " + num(p) + " dim " + num(dim)); c.nontrivial(hvec(P[n / 2]) ^ n);
    auto crv = gbs::interpolate<double, dim>(P, p, mode);
    shape(c, crv, p, n, 0., 1., 1);
    auto R = gen::R(crv);
    // the law of the parameters, computed here
    std::vector<ld> u(n); u[0] = 0;
    for (size_t i = 1; i < n; ++i)
    {
        ld s = 0; for (size_t d = 0; d < dim; ++d) { ld x = ld(P[i][d]) - P[i - 1][d]; s += x * x; } s = sqrtl(s);
        u[i] = u[i - 1] + (mode == KnotsCalcMode::CHORD_LENGTH ? s : mode == KnotsCalcMode::CENTRIPETAL ? sqrtl(s) : 1.L);
    }
    for (size_t i = 0; i < n; ++i) meets<double, dim>(c, crv, R, i + 1 == n ? 1. : double(u[i] / u[n - 1]), 0, P[i], "point");
    std::vector<gbs::constrType<double, dim, 1>> Q(n); for (size_t i = 0; i < n; ++i) Q[i] = {P[i]};
    auto crv2 = gbs::interpolate<double, dim>(Q, p, mode);
    c.check(crv2.poles() == crv.poles() && crv2.knotsFlats() == crv.knotsFlats(), "overloads_agree");
}
FAMILY("points_mode", 2500, 60000) { switch (c.rng.i(1, 3)) { case 1: pts_mode<1>(c); break; case 2: pts_mode<2>(c); break; default: pts_mode<3>(c); } }

FAMILY("points_params", 2500, 60000)
{
    size_t p = c.rng.i(1, 9), n = count(c.rng, p + 1);
    auto P = path<2>(c.rng, n); auto u = sites(c.rng, n);
    c.describe("n " + num(n) + " p " + num(p) + " u " + str(u)); c.nontrivial(hvec(u));
    auto crv = gbs::interpolate<double, 2>(P, u, p);
    shape(c, crv, p, n, u.front(), u.back(), 1);
    auto R = gen::R(crv);
    for (size_t i = 0; i < n; ++i) meets<double, 2>(c, crv, R, u[i], 0, P[i], "point");
    std::vector<double> y(n); for (size_t i = 0; i < n; ++i) y[i] = P[i][1];
    auto f = gbs::interpolate<double>(y, u, p);
    for (size_t i = 0; i < n; ++i) c.near(f(u[i]), y[i], 1e-9 * (R.max_pole() + 1), "function");
    c.near(f.bounds()[0], u.front(), 0, "function_bounds"); c.near(f.bounds()[1], u.back(), 0, "function_bounds");
    // polynomials up to the degree are reproduced
    std::vector<double> a(size_t(c.rng.i(1, int(p) + 1))); for (auto &x : a) x = c.rng.uni(-1, 1);
    double L = u.back() - u.front();
    auto poly = [&](ld t) { ld s = 0, z = (t - u.front()) / L; for (size_t i = a.size(); i-- > 0;) s = s * z + a[i]; return s; };
    for (size_t i = 0; i < n; ++i) P[i] = {double(poly(u[i])), y[i]};
    auto c2 = gbs::interpolate<double, 2>(P, u, p);
    auto R2 = gen::R(c2);
    ld mp = 0; for (auto &q : c2.poles()) mp = std::max<ld>(mp, std::fabs(q[0]));
    if (mp < 1e3) for (int i = 0; i <= 10; ++i) { double t = u.front() + L * i / 10; t = std::min(t, u.back()); c.near(R2.value(t, 0).v[0], poly(t), 1e-6, "polynomial_reproduced", num(t)); }
}

FAMILY("points_float", 400, 10000)
{
    size_t p = c.rng.i(1, 4), n = p + 1 + size_t(c.rng.i(0, 10));
    auto Pd = path<3>(c.rng, n); std::vector<std::array<float, 3>> P(n);
    for (size_t i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) P[i][k] = float(Pd[i][k]);
    auto ud = sites(c.rng, n); std::vector<float> u(ud.begin(), ud.end());
    for (size_t i = 1; i < n; ++i) if (!(u[i] > u[i - 1])) return;
    c.describe("float n " + num(n) + " p " + num(p)); c.nontrivial(hvec(u));
    auto crv = gbs::interpolate<float, 3>(P, u, p);
    shape(c, crv, p, n, u.front(), u.back(), 1);
    auto R = gen::R(crv);
    for (size_t i = 0; i < n; ++i) meets<float, 3>(c, crv, R, u[i], 0, P[i], "point");
}

template <size_t dim, size_t nc> static void hermite(Case &c)
{
    size_t n = c.rng.coin(0.05) ? size_t(c.rng.i(50, 90)) : size_t(c.rng.i(2, 14));
    auto P = path<dim>(c.rng, n); auto u = sites(c.rng, n);
    std::vector<gbs::constrType<double, dim, nc>> Q(n);
    double L = 0; for (size_t i = 1; i < n; ++i) L += gbs::distance(P[i], P[i - 1]);
    double V = L / (u.back() - u.front());
    for (size_t i = 0; i < n; ++i)
        for (size_t d = 0; d < nc; ++d)
            if (d == 0) Q[i][0] = P[i];
            else for (auto &x : Q[i][d]) x = c.rng.coin(0.1) ? 0 : c.rng.uni(-1, 1) * V * std::pow(n / (u.back() - u.front()), double(d) - 1);
    c.describe("n " + num(n) + " nc " + num(nc) + " u " + str(u)); c.nontrivial(hvec(u));
    auto chk = [&](const auto &crv, const std::vector<double> &uu, size_t p, size_t m, size_t ncheck) {
        shape(c, crv, p, n * m, uu.front(), uu.back(), m);
        auto R = gen::R(crv);
        ld big = 0; for (size_t i = 0; i < n; ++i) big = std::max(big, R.ders(uu[i], ncheck - 1)[ncheck - 1].b);
        for (size_t i = 0; i < n; ++i) for (size_t d = 0; d < ncheck; ++d) meets<double, dim>(c, crv, R, uu[i], d, Q[i][d], d == 0 ? "point" : "derivative", 1e-13L * big);
        auto [k, mm] = gbs::knots_and_mults(crv.knotsFlats());
        c.check(k == uu, "knots_at_sites");
        return R;
    };
    chk(gbs::interpolate<double, dim, nc>(Q, u), u, 2 * nc - 1, nc, nc);
    {
        auto crv = gbs::interpolate<double, dim, nc>(Q, u, true);
        auto R = chk(crv, u, 2 * nc + 1, nc + 1, nc);
        // natural ends
        for (size_t i : {size_t(0), n - 1}) { auto v = R.ders(u[i], nc)[nc]; c.near_pt(v.v, std::array<double, dim>{}, 1e-9L * v.b, "natural_end"); }
    }
    auto mode = modes[c.rng.i(0, 2)];
    auto crv = gbs::interpolate<double, dim, nc>(Q, mode);
    auto um = gbs::knots_and_mults(crv.knotsFlats()).first;
    if (c.check(um.size() == n, "site_count")) chk(crv, um, 2 * nc - 1, nc, nc);
}
FAMILY("hermite_c1", 1500, 40000) { if (c.rng.coin()) hermite<2, 2>(c); else hermite<3, 2>(c); }
FAMILY("hermite_c2", 1000, 30000) { if (c.rng.coin()) hermite<2, 3>(c); else hermite<3, 3>(c); }
FAMILY("hermite_c0", 500, 15000) { hermite<2, 1>(c); }

// constraints of any order anywhere, in any order
FAMILY("general_constraints", 2500, 60000)
{
    size_t p = c.rng.i(2, 7);
    size_t target = c.rng.coin(0.1) ? size_t(c.rng.i(60, 160)) : p + 1 + size_t(c.rng.i(0, 20));
    auto base = sites(c.rng, target + 1);
    struct K { double u; size_t d; std::array<double, 2> x; };
    std::vector<K> ks; std::vector<double> us;
    for (size_t i = 0; ks.size() < target && i < base.size(); ++i)
    {
        size_t m = c.rng.coin(0.6) ? 1 : size_t(c.rng.i(1, int(p) - 1));
        for (size_t d = 0; d < m; ++d) { ks.push_back({base[i], d, {c.rng.uni(-1, 1), c.rng.uni(-1, 1)}}); us.push_back(base[i]); }
    }
    double u2 = us.back();
    if (us.front() == u2 || ks.size() < p + 1) return;
    auto k = gbs::build_simple_mult_flat_knots(us, p);
    c.describe("p " + num(p) + " u " + str(us)); c.nontrivial(hvec(us));
    std::vector<gbs::constrPoint<double, 2>> Q;
    for (auto &q : ks) Q.push_back({q.x, q.u, q.d});
    if (c.rng.coin(0.7)) for (size_t i = Q.size(); i-- > 1;) std::swap(Q[i], Q[c.rng.next() % (i + 1)]);
    auto poles = gbs::build_poles<double, 2>(Q, k, p);
    gbs::BSCurve<double, 2> crv(poles, k, p);
    auto R = gen::R(crv);
    // elimination mixes rows of different derivative orders: rounding is relative to the largest row
    ld big = 0; for (auto &q : ks) big = std::max(big, R.ders(q.u, q.d)[q.d].b);
    for (auto &q : ks) meets<double, 2>(c, crv, R, q.u, q.d, q.x, "constraint", 1e-12L * big);
    // bounded form: begin and end points, and the constraints in any order
    std::vector<gbs::bsc_constraint<double, 2>> L; std::array<double, 2> xb = ks[0].x, xe{};
    for (size_t i = 1; i < ks.size(); ++i) if (ks[i].u == u2 && ks[i].d == 0) xe = ks[i].x; else L.push_back({ks[i].u, ks[i].x, ks[i].d});
    for (size_t i = L.size(); i-- > 1;) std::swap(L[i], L[c.rng.next() % (i + 1)]);
    if (L.size() + 2 < p + 1) return;
    auto crv2 = gbs::interpolate<double, 2>(gbs::bsc_bound<double, 2>{us.front(), xb}, gbs::bsc_bound<double, 2>{u2, xe}, L, p);
    c.check(crv2.degree() == p && crv2.poles().size() == L.size() + 2, "bounded_shape");
    c.check(crv2.bounds()[0] == us.front() && crv2.bounds()[1] == u2, "bounded_bounds");
    auto R2 = gen::R(crv2);
    big = 0; for (auto &[u, x, d] : L) big = std::max(big, R2.ders(u, d)[d].b);
    meets<double, 2>(c, crv2, R2, us.front(), 0, xb, "begin", 1e-12L * big); meets<double, 2>(c, crv2, R2, u2, 0, xe, "end", 1e-12L * big);
    for (auto &[u, x, d] : L) meets<double, 2>(c, crv2, R2, u, d, x, "bounded_constraint", 1e-12L * big);
}

FAMILY("batch", 150, 3000)
{
    size_t nb = c.rng.i(1, 30), p = c.rng.i(1, 5);
    std::vector<gbs::points_vector<double, 3>> S(nb);
    for (auto &P : S) P = path<3>(c.rng, p + 1 + size_t(c.rng.i(0, 20)));
    c.describe("sets " + num(nb)); c.nontrivial(hvec(S[0][0]) ^ nb);
    auto mode = modes[c.rng.i(0, 2)];
    auto B = gbs::interpolate<double, 3>(S, p, mode);
    c.check(B.size() == nb, "batch_size");
    for (size_t i = 0; i < B.size() && i < nb; ++i)
    {
        auto one = gbs::interpolate<double, 3>(S[i], p, mode);
        c.check(one.poles() == B[i].poles() && one.knotsFlats() == B[i].knotsFlats() && B[i].degree() == p, "batch_equals_single", num(i));
    }
}

// Bessel's three-point tangents are exact on parabolas
FAMILY("tangents", 1000, 20000)
{
    size_t n = c.rng.i(3, 20); auto u = sites(c.rng, n);
    std::array<double, 3> a[3]; for (auto &x : a) x = {c.rng.uni(-1, 1), c.rng.uni(-1, 1), c.rng.uni(-1, 1)};
    std::vector<std::array<double, 3>> P(n);
    for (size_t i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) P[i][k] = a[0][k] + u[i] * (a[1][k] + u[i] * a[2][k]);
    c.describe("u " + str(u)); c.nontrivial(hvec(u));
    auto D = gbs::build_3pt_tg_vec(P, u);
    c.check(D.size() == n, "tangent_count");
    double M = 1 + u.front() * u.front() + u.back() * u.back(), h = 1e9;
    for (size_t i = 1; i < n; ++i) h = std::min(h, u[i] - u[i - 1]);
    for (size_t i = 0; i < n && D.size() == n; ++i)
        for (int k = 0; k < 3; ++k) c.near(D[i][k], ld(a[1][k]) + 2 * ld(u[i]) * a[2][k], 1e-13 * M / h * 10, "tangent", "i=" + num(i));
    auto T = gbs::build_3pt_tg_dir(P, u);
    for (size_t i = 0; i < T.size(); ++i) c.near(gbs::norm(T[i]), 1, 1e-12, "unit_direction", "i=" + num(i));
    // equally spaced parameters: the directions are those of the tangents
    for (size_t i = 0; i < n; ++i) { double t = u.front() + double(i) * (u.back() - u.front()) / (n - 1); for (int k = 0; k < 3; ++k) P[i][k] = a[0][k] + t * (a[1][k] + t * a[2][k]); u[i] = t; }
    T = gbs::build_3pt_tg_dir(P, u);
    for (size_t i = 0; i < n; ++i)
    {
        std::array<double, 3> t; double s = 0; for (int k = 0; k < 3; ++k) { t[k] = a[1][k] + 2 * u[i] * a[2][k]; s += t[k] * t[k]; }
        s = std::sqrt(s); if (s < 1e-2 * M) continue;
        for (int k = 0; k < 3; ++k) c.near(T[i][k], t[k] / s, 1e-8, "direction", "i=" + num(i));
    }
}

FAMILY("refused", 600, 10000)
{
    size_t n = c.rng.i(1, 6), p = n + size_t(c.rng.i(0, 4));
    auto P = path<2>(c.rng, n); auto u = n > 1 ? sites(c.rng, n) : std::vector<double>{0.};
    c.describe("n " + num(n) + " p " + num(p)); c.nontrivial(n * 100 + p + hvec(P[0]));
    c.check(throws([&] { gbs::interpolate<double, 2>(P, p, modes[c.rng.i(0, 2)]); }), "degree_too_high_mode");
    c.check(throws([&] { gbs::interpolate<double, 2>(P, u, p); }), "degree_too_high");
    c.check(throws([&] { std::vector<double> y(n, 1.); gbs::interpolate<double>(y, u, p); }), "degree_too_high_function");
    u.push_back(u.back() + 1);
    c.check(throws([&] { gbs::interpolate<double, 2>(P, u, size_t(1)); }), "count_mismatch");
    std::vector<gbs::bsc_constraint<double, 2>> L;
    c.check(throws([&] { gbs::interpolate<double, 2>(gbs::bsc_bound<double, 2>{0., P[0]}, gbs::bsc_bound<double, 2>{1., P[0]}, L, p + 2); }), "too_few_constraints");
    c.event("refused");
}

int main(int a, char **v) { return vh::run(a, v); }
