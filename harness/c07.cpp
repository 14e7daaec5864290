// C07: interpolating surfaces meet every prescribed constraint.
#include "gen.h"
#include <gbs/bssinterp.h>
using namespace vh;
using gbs::KnotsCalcMode;
static const std::array<KnotsCalcMode, 3> modes{KnotsCalcMode::EQUALLY_SPACED, KnotsCalcMode::CHORD_LENGTH, KnotsCalcMode::CENTRIPETAL};

template <class T, size_t dim>
static void meets(Case &c, const gbs::BSSurface<T, dim> &s, const ref::Surf &R, T u, T v, size_t du, size_t dv, const std::array<T, dim> &x, const char *key, ld extra = 0)
{
    auto w = R.value(u, v, du, dv);
    ld m = w.b; for (auto q : x) m = std::max<ld>(m, std::fabs(q));
    ld tol = (sizeof(T) == 4 ? 5e-3L : 1e-9L) * m + extra;
    std::string at = "u=" + num(u) + " v=" + num(v) + " du=" + num(du) + " dv=" + num(dv);
    c.near_pt(w.v, x, tol, key, at);
    c.near_pt(s.value(u, v, du, dv), x, 2 * tol, key, "value " + at);
    c.event("constraints");
}
template <class T, size_t dim>
static bool shape(Case &c, const gbs::BSSurface<T, dim> &s, size_t p, size_t q, size_t nu, size_t nv, const std::array<T, 4> &b, size_t mu, size_t mv)
{
    c.check(s.degreeU() == p && s.degreeV() == q, "degree");
    bool ok = c.check(s.poles().size() == nu * nv && s.knotsFlatsU().size() == nu + p + 1 && s.knotsFlatsV().size() == nv + q + 1, "pole_count", num(s.poles().size()));
    c.check(std::is_sorted(s.knotsFlatsU().begin(), s.knotsFlatsU().end()) && std::is_sorted(s.knotsFlatsV().begin(), s.knotsFlatsV().end()), "knots_sorted");
    c.check(s.bounds() == b, "bounds");
    auto mm = [&](const auto &k, size_t d, size_t n, size_t mx) { for (size_t i = d + 1, m = 1; i < n; ++i) { m = k[i] == k[i - 1] ? m + 1 : 1; c.check(m <= mx, "continuity"); } };
    if (ok) { mm(s.knotsFlatsU(), p, nu, mu); mm(s.knotsFlatsV(), q, nv, mv); }
    return ok;
}
template <class T, size_t dim> static std::vector<std::array<T, dim>> grid(Rng &r, size_t nu, size_t nv)
{
    double s = r.coin(0.6) ? 1 : std::pow(10., r.uni(-2, 2)), j1 = r.uni(0, 0.3), ax = r.uni(0.3, 3);
    std::vector<std::array<T, dim>> Q(nu * nv);
    for (size_t j = 0; j < nv; ++j) for (size_t i = 0; i < nu; ++i) for (size_t k = 0; k < dim; ++k)
        Q[i + nu * j][k] = T(s * (k == 0 ? double(i) + r.uni(-j1, j1) : k == 1 ? ax * (double(j) + r.uni(-j1, j1)) : r.uni(-1, 1)));
    return Q;
}
template <class T, size_t dim> static void grid_mode(Case &c)
{
    size_t p = c.rng.i(1, 5), q = c.rng.i(1, 5), nu = p + 1 + size_t(c.rng.i(0, 8)), nv = q + 1 + size_t(c.rng.i(0, 8));
    auto Q = grid<T, dim>(c.rng, nu, nv); auto mode = modes[c.rng.i(0, 2)];
    c.describe(num(nu) + "x" + num(nv) + " deg " + num(p) + "x" + num(q)); c.nontrivial(hvec(Q[1]) ^ (nu * 100 + nv));
    auto s = gbs::interpolate<T, dim>(Q, nv, p, q, mode);
    if (!shape<T, dim>(c, s, p, q, nu, nv, {0, 1, 0, 1}, 1, 1)) return;
    // averaged parameters of the rows / columns
    auto par = [&](size_t n, size_t m, auto at) {
        std::vector<ld> u(n, 0);
        for (size_t j = 0; j < m; ++j)
        {
            std::vector<ld> w(n); w[0] = 0;
            for (size_t i = 1; i < n; ++i)
            {
                ld d = 0; for (size_t k = 0; k < dim; ++k) { ld x = ld(at(i, j)[k]) - at(i - 1, j)[k]; d += x * x; } d = sqrtl(d);
                w[i] = w[i - 1] + (mode == KnotsCalcMode::CHORD_LENGTH ? d : mode == KnotsCalcMode::CENTRIPETAL ? sqrtl(d) : 1.L);
            }
            for (size_t i = 0; i < n; ++i) u[i] += w[i] / w[n - 1] / m;
        }
        return u;
    };
    auto U = par(nu, nv, [&](size_t i, size_t j) -> auto & { return Q[i + nu * j]; });
    auto V = par(nv, nu, [&](size_t j, size_t i) -> auto & { return Q[i + nu * j]; });
    auto R = gen::R(s);
    for (size_t j = 0; j < nv; ++j) for (size_t i = 0; i < nu; ++i)
        meets<T, dim>(c, s, R, i + 1 == nu ? T(1) : T(U[i]), j + 1 == nv ? T(1) : T(V[j]), 0, 0, Q[i + nu * j], "grid_point");
}
FAMILY("grid_mode", 1500, 40000) { if (c.rng.coin()) grid_mode<double, 3>(c); else grid_mode<double, 2>(c); }
FAMILY("grid_float", 200, 4000) { grid_mode<float, 3>(c); }

FAMILY("grid_params", 1000, 30000)
{
    size_t p = c.rng.i(1, 6), q = c.rng.i(1, 6), nu = p + 1 + size_t(c.rng.i(0, 10)), nv = q + 1 + size_t(c.rng.i(0, 10));
    auto Q = grid<double, 3>(c.rng, nu, nv);
    auto u = gen::km<double>(c.rng, 1, int(nu) - 1, 1, 1).first, v = gen::km<double>(c.rng, 1, int(nv) - 1, 1, 1).first;
    auto ku = gbs::build_simple_mult_flat_knots(u, p), kv = gbs::build_simple_mult_flat_knots(v, q);
    c.describe(num(nu) + "x" + num(nv) + " deg " + num(p) + "x" + num(q)); c.nontrivial(hvec(u) ^ mix(hvec(v)));
    gbs::BSSurface<double, 3> s(gbs::build_poles<double, 3>(Q, ku, kv, u, v, p, q), ku, kv, p, q);
    auto R = gen::R(s);
    for (size_t j = 0; j < nv; ++j) for (size_t i = 0; i < nu; ++i) meets<double, 3>(c, s, R, u[i], v[j], 0, 0, Q[i + nu * j], "grid_point");
    Q.pop_back();
    c.check(throws([&] { gbs::build_poles<double, 3>(Q, ku, kv, u, v, p, q); }), "refused_size");
}

FAMILY("general_constraints", 1200, 30000)
{
    size_t p = c.rng.i(1, 5), q = c.rng.i(1, 5), mu = c.rng.i(1, int(p)), mv = c.rng.i(1, int(q));
    size_t nu = p + 1 + mu * size_t(c.rng.i(0, 4)), nv = q + 1 + mv * size_t(c.rng.i(0, 4));
    std::array<double, 4> b{0, 1, 0, 1};
    if (c.rng.coin()) { b[0] = c.rng.uni(-3, 3); b[1] = b[0] + c.rng.uni(0.3, 5); b[2] = c.rng.uni(-3, 3); b[3] = b[2] + c.rng.uni(0.3, 5); }
    // a unisolvent tensor set of 1-D sites: averages of the knots, some replaced by end derivatives
    auto sites = [&](double a, double e, size_t n, size_t d, size_t m) {
        auto k = gbs::build_mult_flat_knots<double>(a, e, 2 + (n - d - 1) / m, d, m);
        std::vector<std::pair<double, size_t>> S(n);
        for (size_t i = 0; i < n; ++i) { double s = 0; for (size_t j = 1; j <= d; ++j) s += k[i + j]; S[i] = {std::min(std::max(s / d, a), e), 0}; }
        S.front().first = a; S.back().first = e;
        if (n > 2 && d > 1 && c.rng.coin()) S[1] = {a, 1};
        if (n > 3 && d > 1 && c.rng.coin()) S[n - 2] = {e, 1};
        if (n > 4 && d > 2 && S[1].second == 1 && c.rng.coin()) S[2] = {a, 2};
        return S;
    };
    auto SU = sites(b[0], b[1], nu, p, mu), SV = sites(b[2], b[3], nv, q, mv);
    std::vector<gbs::bss_constraint<double, 3>> Q;
    for (auto &[v, dv] : SV) for (auto &[u, du] : SU) Q.push_back({u, v, {c.rng.uni(-1, 1), c.rng.uni(-1, 1), c.rng.uni(-1, 1)}, du, dv});
    if (c.rng.coin()) for (size_t i = Q.size(); i-- > 1;) std::swap(Q[i], Q[c.rng.next() % (i + 1)]);
    c.describe(num(nu) + "x" + num(nv) + " deg " + num(p) + "x" + num(q) + " mult " + num(mu) + "," + num(mv)); c.nontrivial(hvec(std::get<2>(Q[0])) ^ (nu * 100 + nv));
    auto s = gbs::interpolate<double, 3>(Q, nv, p, q, b, {mu, mv});
    if (!shape<double, 3>(c, s, p, q, nu, nv, b, mu, mv)) return;
    auto R = gen::R(s);
    ld big = 0; for (auto &[u, v, x, du, dv] : Q) big = std::max(big, R.value(u, v, du, dv).b);
    for (auto &[u, v, x, du, dv] : Q) meets<double, 3>(c, s, R, u, v, du, dv, x, du + dv ? "derivative" : "value", 1e-11L * big);
    // misfits
    auto Q2 = Q; Q2.pop_back();
    if (Q2.size() % nv) c.check(throws([&] { gbs::interpolate<double, 3>(Q2, nv, p, q, b, {mu, mv}); }), "refused_size");
    auto Q3 = Q; std::get<0>(Q3[c.rng.i(0, int(Q3.size()) - 1)]) = c.rng.coin() ? b[1] + 0.1 : b[0] - 0.1;
    c.check(throws([&] { gbs::interpolate<double, 3>(Q3, nv, p, q, b, {mu, mv}); }), "refused_outside_u");
    auto Q4 = Q; std::get<1>(Q4[c.rng.i(0, int(Q4.size()) - 1)]) = c.rng.coin() ? b[3] + 0.1 : b[2] - 0.1;
    c.check(throws([&] { gbs::interpolate<double, 3>(Q4, nv, p, q, b, {mu, mv}); }), "refused_outside_v");
    c.check(throws([&] { gbs::interpolate<double, 3>(Q, size_t(0), p, q, b, {mu, mv}); }), "refused_zero");
    c.check(throws([&] { gbs::interpolate<double, 3>(Q, nv, nu + size_t(c.rng.i(0, 3)), q, b, {mu, mv}); }), "refused_degree_u");
    c.check(throws([&] { gbs::interpolate<double, 3>(Q, nv, p, nv + size_t(c.rng.i(0, 3)), b, {mu, mv}); }), "refused_degree_v");
    c.event("refused", 5);
}

FAMILY("refused", 500, 10000)
{
    size_t nu = c.rng.i(2, 6), nv = c.rng.i(2, 6);
    auto Q = grid<double, 3>(c.rng, nu, nv); auto mode = modes[c.rng.i(0, 2)];
    c.describe(num(nu) + "x" + num(nv)); c.nontrivial(hvec(Q[1]) ^ (nu * 100 + nv));
    size_t bad = c.rng.i(0, 12);
    if (bad == 0 || Q.size() % bad) c.check(throws([&] { gbs::interpolate<double, 3>(Q, bad, size_t(1), size_t(1), mode); }), "count_mismatch", num(bad));
    c.check(throws([&] { gbs::interpolate<double, 3>(Q, nv, nu + size_t(c.rng.i(0, 4)), size_t(1), mode); }), "degree_too_high_u");
    c.check(throws([&] { gbs::interpolate<double, 3>(Q, nv, size_t(1), nv + size_t(c.rng.i(0, 4)), mode); }), "degree_too_high_v");
    c.event("refused", 3);
}

int main(int a, char **v) { return vh::run(a, v); }
