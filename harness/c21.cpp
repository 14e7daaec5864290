// C21: shaping satisfies the constraints, keeps the structure and only touches the poles it may touch.
#include "gen.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs/bscshaping.h>
#include <gbs/bssshaping.h>
using namespace vh;
using gbs::operator+;
using gbs::operator-;
template <class V> static ld nrm(const V &v) { ld s = 0; for (auto x : v) s += ld(x) * x; return std::sqrt(s); }
static ld nrm(ld x) { return std::fabs(x); }
// derivatives of the basis functions at u through the reference evaluator of a scalar curve
static std::vector<std::vector<ld>> basis(const std::vector<double> &U, size_t p, double u, size_t d)
{
    size_t n = U.size() - p - 1; std::vector<std::vector<ld>> B(d + 1, std::vector<ld>(n)); for (size_t i = 0; i < n; ++i) { std::vector<std::array<double, 1>> P(n, {0.}); P[i][0] = 1; gbs::BSCurve<double, 1> c(P, U, p); auto D = gen::R(c).ders(u, d); for (size_t k = 0; k <= d; ++k) B[k][i] = D[k].v[0]; } return B;
}
// smallest pivot of the Gram matrix of the rows scaled to one: 0 when they are dependent
static ld independence(std::vector<std::vector<ld>> B)
{
    size_t m = B.size(); for (auto &b : B) { ld s = nrm(b); if (!(s > 1e-9L)) return 0; for (auto &x : b) x /= s; } ld mn = 1; for (size_t i = 0; i < m; ++i) { for (int rep = 0; rep < 2; ++rep) for (size_t j = 0; j < i; ++j) { ld d = 0; for (size_t k = 0; k < B[i].size(); ++k) d += B[i][k] * B[j][k]; for (size_t k = 0; k < B[i].size(); ++k) B[i][k] -= d * B[j][k]; } ld s = nrm(B[i]); mn = std::min(mn, s); if (s < 1e-7L) return 0; for (auto &x : B[i]) x /= s; } return mn;
}
static ld rowscale(const std::vector<ld> &b) { return std::max<ld>(nrm(b), 1e-3L); }
static size_t span(const std::vector<double> &U, size_t p, double u) { size_t n = U.size() - p - 1; if (u >= U[n]) { size_t i = n - 1; while (U[i] == U[n]) --i; return i; } size_t i = p; while (i + 1 < n && U[i + 1] <= u) ++i; return i; }
static double site(Rng &r, const std::vector<double> &U) { double a = U.front(), b = U.back(); switch (r.i(0, 7)) { case 0: return a; case 1: return b; case 2: return r.pick(U); default: return r.uni(a, b); } }
template <size_t dim> static void curve_case(Case &c)
{
    using gbs::bsc_constraint; auto &r = c.rng; size_t p = r.i(1, 6); auto crv = gen::curve<double, dim>(r, p, r.i(1, 6)); auto U = crv.knotsFlats(); auto P0 = crv.poles(); size_t n = P0.size(); auto R0 = gen::R(crv); bool fix = r.coin(0.4); int way = r.i(0, 5); c.nontrivial(gen::chash(crv) ^ way);
    size_t m = way <= 1 ? 1 : r.i(1, 4); std::vector<double> us; std::vector<size_t> ds; std::vector<std::vector<ld>> rows; for (size_t k = 0; k < m; ++k) { us.push_back(site(r, U)); ds.push_back(way <= 1 ? 0 : r.coin(0.5) ? 0 : r.i(1, std::min<size_t>(p, 3))); }
    size_t i1 = n - 1, i2 = 0; for (auto u : us) { size_t s = span(U, p, u); i1 = std::min(i1, s - p); i2 = std::max(i2, s); } if (fix) { i1 = std::max<size_t>(1, i1); i2 = std::min(n - 2, i2); } bool ranged = way == 5; if (ranged) { if (r.coin(0.8)) { i1 = r.i(0, i1); i2 = r.i(i2, n - 1); } else { i1 = r.i(0, n - 1); i2 = r.i(i1, n - 1); } fix = false; }
    c.describe("curve dim " + num(dim) + " way " + num(way) + " fix " + num(fix) + " m " + num(m) + " range " + num(i1) + ".." + num(i2) + " u " + num(us[0]) + " d " + num(ds[0]) + " " + gen::cdesc(crv)); if (i2 + 1 <= i1) { c.event("curve/nothing_free"); return; }
    for (size_t k = 0; k < m; ++k) { auto B = basis(U, p, us[k], ds[k])[ds[k]]; rows.emplace_back(B.begin() + i1, B.begin() + i2 + 1); } ld ind = m <= i2 - i1 + 1 ? independence(rows) : 0; if (ind < 1e-3L) { c.event("curve/ill_posed"); return; }
    std::vector<bsc_constraint<double, dim>> K, D; ld size = 1; for (auto &q : P0) for (auto x : q) size = std::max(size, std::fabs(ld(x))); bool kept = r.coin(0.2);
    for (size_t k = 0; k < m; ++k) { auto v = R0.ders(us[k], ds[k])[ds[k]].v; std::array<double, dim> w, dl; for (size_t q = 0; q < dim; ++q) { dl[q] = kept ? 0 : double(rowscale(rows[k]) * size * r.uni(-1, 1)); w[q] = double(v[q] + dl[q]); } K.push_back({us[k], w, ds[k]}); D.push_back({us[k], dl, ds[k]}); }
    gbs::BSCurve<double, dim> S = crv; if (way == 0) { S = gbs::moved_to_point<double, dim>(crv, std::get<1>(K[0]), us[0], fix); c.event("curve/moved_to_point"); } else if (way == 1) { gbs::move_to_point<double, dim>(S, std::get<1>(K[0]), us[0], fix); c.event("curve/move_to_point"); } else if (way <= 3) { S = gbs::moved_to_constraints<double, dim>(crv, K, fix); c.event("curve/moved_to_constraints"); } else if (way == 4) { gbs::move_to_constraints<double, dim>(S, K, fix); c.event("curve/move_to_constraints"); } else { S = gbs::moved_to_constraints_delta<double, dim>(crv, D, i1, i2); c.event("curve/delta"); }
    c.check(S.degree() == p && S.knotsFlats() == U && S.poles().size() == n, "structure"); c.check(crv.poles() == P0, "argument_untouched"); if (S.poles().size() != n) return; auto Q = S.poles(); for (size_t i = 0; i < n; ++i) if (i < i1 || i > i2) c.check(Q[i] == P0[i], "outside_range", num(i)); if (fix) { c.check(Q[0] == P0[0] && Q[n - 1] == P0[n - 1], "fixed_ends"); c.event("curve/fixed"); }
    auto R = gen::R(S); for (size_t k = 0; k < m; ++k) { auto v = R.ders(us[k], ds[k])[ds[k]]; auto &w = std::get<1>(K[k]); ld tol = 1e-9L * (size * rowscale(rows[k]) / (ind * ind) + nrm(v.b) + nrm(w)); c.near_pt(v.v, w, tol, "constraint", num(us[k]) + " d " + num(ds[k])); c.event("curve/constraints"); if (ds[k]) c.event("curve/derivatives"); }
    if (kept) { for (size_t i = 0; i < n; ++i) c.near_pt(Q[i], P0[i], 1e-9L * size / (ind * ind), "unchanged", num(i)); c.event("curve/kept"); }
}
FAMILY("curve", 900, 30000) { switch (c.rng.i(1, 3)) { case 1: curve_case<1>(c); break; case 2: curve_case<2>(c); break; default: curve_case<3>(c); } }
FAMILY("curve_many", 150, 5000) // as many consistent constraints as poles or more: the geometry that satisfies them all is found
{
    auto &r = c.rng; size_t p = r.i(1, 4); auto crv = gen::smooth_curve<double, 2>(r, p, r.i(1, 4), 0.3, 1); auto U = crv.knotsFlats(); auto P = crv.poles(); size_t n = P.size(); bool fix = r.coin(0.4) && n > 2; auto T = P; for (size_t i = fix ? 1 : 0; i < n - (fix ? 1 : 0); ++i) for (auto &x : T[i]) x += r.uni(-0.3, 0.3); gbs::BSCurve<double, 2> tgt(T, U, p); auto RT = gen::R(tgt); size_t m = n + r.i(fix ? -2 : 0, 6); std::vector<gbs::bsc_constraint<double, 2>> K; std::vector<std::vector<ld>> cols(fix ? n - 2 : n); auto [a, b] = crv.bounds();
    for (size_t k = 0; k < m; ++k) { double u = k == 0 ? a : k + 1 == m ? b : a + (b - a) * (k + r.uni(-0.3, 0.3)) / (m - 1); auto B = basis(U, p, u, 0)[0]; for (size_t i = 0; i < cols.size(); ++i) cols[i].push_back(B[i + fix]); auto v = RT.value(u, 0).v; K.push_back({u, {double(v[0]), double(v[1])}, 0}); }
    c.describe("curve_many m " + num(m) + " fix " + num(fix) + " " + gen::cdesc(crv)); c.nontrivial(gen::chash(crv) ^ m); ld ind = m >= cols.size() ? independence(cols) : 0; if (ind < 0.02L) { c.event("many/ill_posed"); return; } for (size_t k = m; k-- > 1;) std::swap(K[k], K[r.i(0, k)]);
    auto S = gbs::moved_to_constraints<double, 2>(crv, K, fix); for (size_t i = 0; i < n; ++i) c.near_pt(S.poles()[i], T[i], 1e-8L / (ind * ind), "pole", num(i)); c.event(m > cols.size() ? "many/over" : "many/square");
}
FAMILY("nothing", 60, 1000)
{
    auto &r = c.rng; auto crv = gen::curve<double, 3>(r, r.i(1, 5), r.i(1, 4)); auto srf = gen::surf<double, 3>(r, r.i(1, 3), r.i(1, 3), r.i(1, 3), r.i(1, 3)); bool fix = r.coin(); c.describe("nothing " + gen::cdesc(crv)); c.nontrivial(gen::chash(crv)); auto S = gbs::moved_to_constraints<double, 3>(crv, std::vector<gbs::bsc_constraint<double, 3>>{}, fix); c.check(S.poles() == crv.poles() && S.knotsFlats() == crv.knotsFlats(), "no_constraint_curve"); auto Q = gbs::moved_to_constraints<double, 3>(srf, std::vector<gbs::bss_constraint<double, 3>>{}, fix); c.check(Q.poles() == srf.poles(), "no_constraint_surface"); c.event("nothing");
}
template <size_t dim> static void surface_case(Case &c)
{
    using gbs::bss_constraint; auto &r = c.rng; size_t p = r.i(1, 4), q = r.i(1, 4); auto srf = gen::surf<double, dim>(r, p, q, r.i(1, 4), r.i(1, 4)); auto U = srf.knotsFlatsU(), V = srf.knotsFlatsV(); auto P0 = srf.poles(); size_t nu = srf.nPolesU(), nv = srf.nPolesV(); auto R0 = gen::R(srf); bool fix = r.coin(0.4); int way = r.i(0, 4); c.nontrivial(gen::shash(srf) ^ way); size_t m = way <= 1 ? 1 : r.i(1, 4);
    struct S_ { double u, v; size_t du, dv; }; std::vector<S_> s; size_t i1 = nu - 1, i2 = 0, j1 = nv - 1, j2 = 0; for (size_t k = 0; k < m; ++k) { S_ x{site(r, U), site(r, V), 0, 0}; if (way > 1 && r.coin()) { x.du = r.i(0, std::min<size_t>(p, 2)); x.dv = r.i(0, std::min<size_t>(q, 2)); } s.push_back(x); size_t a = span(U, p, x.u), b = span(V, q, x.v); i1 = std::min(i1, a - p); i2 = std::max(i2, a); j1 = std::min(j1, b - q); j2 = std::max(j2, b); }
    if (fix) { i1 = std::max<size_t>(1, i1); i2 = std::min(nu - 2, i2); j1 = std::max<size_t>(1, j1); j2 = std::min(nv - 2, j2); } bool ranged = way == 4; if (ranged) { fix = false; i1 = r.i(0, i1); i2 = r.i(i2, nu - 1); j1 = r.i(0, j1); j2 = r.i(j2, nv - 1); }
    c.describe("surface dim " + num(dim) + " way " + num(way) + " fix " + num(fix) + " m " + num(m) + " u " + num(s[0].u) + " v " + num(s[0].v) + " d " + num(s[0].du) + num(s[0].dv) + " " + gen::sdesc(srf)); if (i2 + 1 <= i1 || j2 + 1 <= j1) { c.event("surface/nothing_free"); return; }
    std::vector<std::vector<ld>> rows; for (auto &x : s) { auto B = basis(U, p, x.u, x.du)[x.du], C = basis(V, q, x.v, x.dv)[x.dv]; std::vector<ld> w; for (size_t j = j1; j <= j2; ++j) for (size_t i = i1; i <= i2; ++i) w.push_back(B[i] * C[j]); rows.push_back(w); } ld ind = m <= rows[0].size() ? independence(rows) : 0; if (ind < 1e-3L) { c.event("surface/ill_posed"); return; }
    std::vector<bss_constraint<double, dim>> K, D; ld size = 1; for (auto &x : P0) for (auto y : x) size = std::max(size, std::fabs(ld(y))); bool kept = r.coin(0.2); for (size_t k = 0; k < m; ++k) { auto &x = s[k]; auto v = R0.ders(x.u, x.v, x.du, x.dv)[x.du][x.dv].v; std::array<double, dim> w, dl; for (size_t d = 0; d < dim; ++d) { dl[d] = kept ? 0 : double(rowscale(rows[k]) * size * r.uni(-1, 1)); w[d] = double(v[d] + dl[d]); } K.push_back({x.u, x.v, w, x.du, x.dv}); D.push_back({x.u, x.v, dl, x.du, x.dv}); }
    auto S = srf; if (way == 0) { S = gbs::moved_to_point<double, dim>(srf, std::get<2>(K[0]), s[0].u, s[0].v, fix); c.event("surface/moved_to_point"); } else if (way == 1) { gbs::move_to_point<double, dim>(S, std::get<2>(K[0]), s[0].u, s[0].v, fix); c.event("surface/move_to_point"); } else if (way <= 3) { S = gbs::moved_to_constraints<double, dim>(srf, K, fix); c.event("surface/moved_to_constraints"); } else { S = gbs::moved_to_constraints_delta<double, dim>(srf, D, i1, i2, j1, j2); c.event("surface/delta"); }
    c.check(S.degreeU() == p && S.degreeV() == q && S.knotsFlatsU() == U && S.knotsFlatsV() == V && S.poles().size() == nu * nv, "surface_structure"); c.check(srf.poles() == P0, "argument_untouched"); if (S.poles().size() != nu * nv) return; auto Q = S.poles(); for (size_t j = 0; j < nv; ++j) for (size_t i = 0; i < nu; ++i) if (i < i1 || i > i2 || j < j1 || j > j2 || (fix && (!i || !j || i + 1 == nu || j + 1 == nv))) c.check(Q[i + nu * j] == P0[i + nu * j], "surface_outside", num(i) + "," + num(j)); if (fix) c.event("surface/fixed");
    auto R = gen::R(S); for (size_t k = 0; k < m; ++k) { auto &x = s[k]; auto v = R.ders(x.u, x.v, x.du, x.dv)[x.du][x.dv]; auto &w = std::get<2>(K[k]); ld tol = 1e-9L * (size * rowscale(rows[k]) / (ind * ind) + nrm(v.b) + nrm(w)); c.near_pt(v.v, w, tol, "surface_constraint", num(k) + " d " + num(x.du) + num(x.dv)); c.event("surface/constraints"); if (x.du || x.dv) c.event("surface/derivatives"); }
    if (kept) { for (size_t i = 0; i < Q.size(); ++i) c.near_pt(Q[i], P0[i], 1e-9L * size / (ind * ind), "surface_unchanged", num(i)); c.event("surface/kept"); }
}
FAMILY("surface", 500, 15000) { switch (c.rng.i(1, 3)) { case 1: surface_case<1>(c); break; case 2: surface_case<2>(c); break; default: surface_case<3>(c); } }
int main(int a, char **b) { return run(a, b); }
