// C19: structured meshes carry their curves and announced sizes; smoothing only moves the interior of its block.
#include "gen.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs-mesh/tfi.h>
#include <gbs-mesh/smoothing.h>
#include <gbs-mesh/mshedge.h>
using namespace vh;
using gbs::operator+;
using gbs::operator-;
using gbs::operator*;
using gbs::operator/;
template <size_t dim> using Pt = std::array<double, dim>;
template <size_t dim> using CP = std::shared_ptr<gbs::Curve<double, dim>>;
template <class V> static ld nrm(const V &v) { ld s = 0; for (auto x : v) s += ld(x) * x; return std::sqrt(s); }
template <size_t dim> static ld dist(const Pt<dim> &a, const Pt<dim> &b) { ld s = 0; for (size_t k = 0; k < dim; ++k) s += (ld(a[k]) - b[k]) * (ld(a[k]) - b[k]); return std::sqrt(s); }
// arc length by the reference evaluator
static ld arclen(const ref::Curve &R, ld a, ld b)
{
    static const ld X[5] = {-0.906179845938663992797626878299L, -0.538469310105683091036314420700L, 0, 0.538469310105683091036314420700L, 0.906179845938663992797626878299L}, W[5] = {0.236926885056189087514264040720L, 0.478628670499366468041291514836L, 0.568888888888888888888888888889L, 0.478628670499366468041291514836L, 0.236926885056189087514264040720L};
    std::vector<ld> B{a}; for (auto k : R.U) if (k > B.back() && k < b) B.push_back(k); B.push_back(b); ld s = 0;
    for (size_t i = 0; i + 1 < B.size(); ++i) for (int k = 0; k < 20; ++k) { ld x0 = B[i] + (B[i + 1] - B[i]) * k / 20, x1 = B[i] + (B[i + 1] - B[i]) * (k + 1) / 20; for (int q = 0; q < 5; ++q) s += W[q] * (x1 - x0) / 2 * nrm(R.ders((x0 + x1) / 2 + X[q] * (x1 - x0) / 2, 1)[1].v); }
    return s;
}
// a smooth, nearly regular surface patch on arbitrary bounds
template <size_t dim> static gbs::BSSurface<double, dim> patch(Rng &r, double amp)
{
    size_t p = r.i(2, 3), q = r.i(2, 3); auto even = [&](size_t p, int spans, double a, double b) { std::vector<double> U(p + 1, a); for (int i = 1; i < spans; ++i) U.push_back(a + (b - a) * i / spans); U.insert(U.end(), p + 1, b); return U; };
    double a = r.coin(0.4) ? 0 : r.uni(-3, 3), b = r.coin(0.4) ? 0 : r.uni(-3, 3); auto U = even(p, r.i(1, 3), a, a + (r.coin(0.4) ? 1 : r.uni(0.5, 3))), V = even(q, r.i(1, 3), b, b + (r.coin(0.4) ? 1 : r.uni(0.5, 3)));
    size_t nu = U.size() - p - 1, nv = V.size() - q - 1; std::vector<Pt<dim>> P(nu * nv); double lx = r.uni(0.5, 3), ly = r.uni(0.5, 3), sh = r.uni(-0.3, 0.3);
    auto gre = [](const std::vector<double> &K, size_t p, size_t i) { double s = 0; for (size_t k = 1; k <= p; ++k) s += K[i + k]; return (s / p - K.front()) / (K.back() - K.front()); };
    for (size_t j = 0; j < nv; ++j) for (size_t i = 0; i < nu; ++i) { double x = gre(U, p, i), y = gre(V, q, j); auto &z = P[i + nu * j]; z[0] = lx * x + sh * y + amp * r.uni(-0.1, 0.1); z[1] = ly * y + amp * r.uni(-0.1, 0.1); if constexpr (dim == 3) z[2] = amp * (std::sin(2 * x + y) + r.uni(-0.1, 0.1)); }
    return gbs::BSSurface<double, dim>(P, U, V, p, q);
}
static std::vector<double> stations(Rng &r, double a, double b, int n) { std::vector<double> x{a}; double s = 0, tiny = r.coin(0.3) ? 0.02 : 1; std::vector<double> w(n - 1); for (auto &v : w) s += v = r.uni(0.5, 1.5) * (r.coin(0.4) ? tiny : 1); double t = 0; for (int i = 0; i + 2 < n; ++i) x.push_back(a + (b - a) * (t += w[i]) / s); x.push_back(b); return x; }
// the sizes announced: mean length of the segments over the target step, one more node
static void sizes(Case &c, const std::vector<ref::Curve> &crv, const std::vector<std::vector<double>> &u, size_t n, const std::vector<size_t> &got, const std::string &key)
{
    if (!c.check(got.size() == u[0].size() - 1, key + "_segments")) return; ld L = 0; for (auto &R : crv) { auto [a, b] = R.bounds(); L += arclen(R, a, b); } ld dm = L / crv.size() / (n - 1);
    for (size_t k = 0; k < got.size(); ++k) { ld l = 0; for (size_t i = 0; i < crv.size(); ++i) l += arclen(crv[i], u[i][k], u[i][k + 1]); ld x = l / crv.size() / dm; if (std::fabs(x - std::floor(x) - 0.5L) < 2e-3L) continue; size_t want = std::max<size_t>(2, size_t(std::floor(x + 0.5L)) + 1); c.check(got[k] == want, key, num(got[k]) + " instead of " + num(want)); c.event("sizes"); if (want == 2) c.event("sizes/short"); }
}
// the mesh holds the discretised curves at the nodes of the hard indices
template <size_t dim> static void carries(Case &c, const gbs::points_vector<double, dim> &pts, size_t nj, size_t ni, const std::vector<size_t> &njs, const std::vector<size_t> &nis, const std::vector<CP<dim>> &ksi_crv, const std::vector<CP<dim>> &eth_crv, const std::vector<ref::Curve> &rk, const std::vector<ref::Curve> &re, const std::vector<std::vector<double>> &uk, const std::vector<std::vector<double>> &ue, ld tol)
{
    if (!c.check(pts.size() == ni * nj, "node_count", num(pts.size()) + " " + num(ni) + " x " + num(nj))) return;
    auto along = [&](const std::vector<size_t> &s) { std::vector<size_t> h{0}; for (auto x : s) h.push_back(h.back() + x - 1); return h; }; auto hi = along(nis), hj = along(njs); if (!c.check(hi.back() + 1 == ni && hj.back() + 1 == nj, "announced_sizes", num(hi.back() + 1) + " " + num(ni) + " " + num(hj.back() + 1) + " " + num(nj))) return;
    auto one = [&](const CP<dim> &crv, const ref::Curve &R, const std::vector<double> &u, const std::vector<size_t> &n, const std::vector<size_t> &h, auto node, const char *key) {
        for (size_t s = 0; s + 1 < u.size(); ++s) { auto l = gbs::uniform_distrib_params<double, dim>(*crv, u[s], u[s + 1], n[s]); size_t k = h[s]; ld prev = -1, step = arclen(R, u[s], u[s + 1]) / (n[s] - 1), up = u[s]; for (auto x : l) { auto &got = node(k); bool ok = c.near_pt(got, R.value(x, 0).v, tol, key, num(k)); (void)prev; if (k > h[s]) { c.near(arclen(R, up, x), step, 0.15L * step + 0.02L * step * (n[s] - 1), std::string(key) + "_spacing"); c.event("curve_nodes"); } up = x; ++k; if (!ok) return; } } };
    for (size_t i = 0; i < ksi_crv.size(); ++i) one(ksi_crv[i], rk[i], uk[i], njs, hj, [&](size_t j) -> auto & { return pts[j + nj * hi[i]]; }, "ksi_curve");
    for (size_t j = 0; j < eth_crv.size(); ++j) one(eth_crv[j], re[j], ue[j], nis, hi, [&](size_t i) -> auto & { return pts[hj[j] + nj * i]; }, "eth_curve");
    c.event("meshes"); c.event("nodes", pts.size());
}
template <size_t dim> struct Net { gbs::BSSurface<double, dim> S; std::vector<double> xi, eta; std::vector<gbs::BSCurve<double, dim>> k, e; std::vector<CP<dim>> pk, pe; std::vector<ref::Curve> rk, re; };
template <size_t dim> static Net<dim> network(Rng &r, double amp, int L, int M, bool rescale, std::vector<std::vector<double>> *ksi = nullptr, std::vector<std::vector<double>> *eth = nullptr)
{
    Net<dim> N; N.S = patch<dim>(r, amp); auto b = N.S.bounds(); N.xi = stations(r, b[0], b[1], L); N.eta = stations(r, b[2], b[3], M);
    auto place = [&](gbs::BSCurve<double, dim> c, const std::vector<double> &u, std::vector<std::vector<double>> *out) { auto v = u; if (rescale) { double a = r.uni(-2, 2), l = r.uni(0.5, 2); auto [x, y] = c.bounds(); c.changeBounds(a, a + l); for (auto &z : v) z = z == u.front() ? a : z == u.back() ? a + l : a + l * (z - x) / (y - x); } if (out) out->push_back(v); return c; };
    for (auto x : N.xi) N.k.push_back(place(N.S.isoU(x), N.eta, eth)); for (auto y : N.eta) N.e.push_back(place(N.S.isoV(y), N.xi, ksi));
    for (auto &c : N.k) { N.pk.push_back(std::make_shared<gbs::BSCurve<double, dim>>(c)); N.rk.push_back(gen::R(c)); } for (auto &c : N.e) { N.pe.push_back(std::make_shared<gbs::BSCurve<double, dim>>(c)); N.re.push_back(gen::R(c)); }
    return N;
}
template <class F> static void modes(Rng &r, F f) { using B0 = std::false_type; using B1 = std::true_type; switch (r.i(0, 3)) { case 0: f(std::integral_constant<size_t, 1>{}, B0{}); break; case 1: f(std::integral_constant<size_t, 1>{}, B1{}); break; case 2: f(std::integral_constant<size_t, 2>{}, B0{}); break; default: f(std::integral_constant<size_t, 2>{}, B1{}); } }
template <size_t dim> static void lattice(Case &c)
{
    auto &r = c.rng; int L = r.i(2, 4), M = r.i(2, 4), way = r.i(0, 2); size_t nk = r.i(6, 22), ne = r.i(6, 22); bool thin = r.coin(0.25); if (thin) { nk = r.i(3, 5); ne = r.i(3, 5); }
    std::vector<std::vector<double>> ksi, eth; auto N = network<dim>(r, r.uni(0, 0.6), L, M, way == 2, &ksi, &eth); ld tol = 1e-9L * 10; c.nontrivial(gen::shash(N.S) ^ nk * 77 ^ ne);
    modes(r, [&](auto P_, auto sl) {
        constexpr size_t P = decltype(P_)::value; constexpr bool slope = decltype(sl)::value; c.describe("lattice dim " + num(dim) + " way " + num(way) + " L " + num(L) + " M " + num(M) + " n " + num(nk) + " " + num(ne) + " P " + num(P) + " slope " + num(slope) + " " + gen::sdesc(N.S));
        auto judge = [&](auto &&t) { auto &[pts, nj, ni, njs, nis] = t; sizes(c, N.rk, eth, nk, njs, "sizes_ksi"); sizes(c, N.re, ksi, ne, nis, "sizes_eth"); std::vector<size_t> a(njs.begin(), njs.end()), b(nis.begin(), nis.end()); carries<dim>(c, pts, nj, ni, a, b, N.pk, N.pe, N.rk, N.re, eth, ksi, tol); };
        if (way == 0) { if (r.coin() || P > 1) judge(gbs::tfi_mesh_2d<double, dim, P, P, slope>(N.pk, N.pe, N.xi, N.eta, nk, ne, std::make_shared<gbs::BSSurface<double, dim>>(N.S))); else judge(gbs::tfi_mesh_2d<double, dim, 1, 1, slope>(N.pk, N.pe, N.xi, N.eta, nk, ne)); c.event("way/common"); }
        else if (way == 1) { std::shared_ptr<gbs::Surface<double, dim>> s = std::make_shared<gbs::BSSurface<double, dim>>(N.S); judge(gbs::tfi_mesh_2d<double, dim, P, P, slope>(s, N.xi, N.eta, nk, ne)); c.event("way/surface"); }
        else { judge(gbs::tfi_mesh_2d<double, dim, 1, 1, slope>(N.pk, N.pe, ksi, eth, nk, ne)); c.event("way/own_parameters"); }
        c.event("mode/P" + num(P) + (slope ? "s" : ""));
        if (way != 2) c.check(gbs::check_curve_lattice<double, dim>(N.pk, N.pe, N.xi, N.eta, 1e-6), "lattice_accepted"); });
    if (way != 2) { auto bad = N.pk; size_t w = r.i(0, L - 1); auto X = N.k[w]; auto P = X.poles(); size_t end = r.coin() ? 0 : P.size() - 1; P[end][r.i(0, dim - 1)] += 1e-3; X.movePoles(P); bad[w] = std::make_shared<gbs::BSCurve<double, dim>>(X); c.check(!gbs::check_curve_lattice<double, dim>(bad, N.pe, N.xi, N.eta, 1e-6), "broken_lattice_refused"); c.event("lattice/broken"); }
}
FAMILY("lattice", 260, 8000) { if (c.rng.coin()) lattice<2>(c); else lattice<3>(c); }
// four curves with common corners, no surface behind
FAMILY("boundary", 150, 5000)
{
    auto &r = c.rng; size_t nk = r.i(3, 25), ne = r.i(3, 25); std::array<Pt<2>, 4> Q{{{0, 0}, {r.uni(1, 3), r.uni(-0.3, 0.3)}, {r.uni(-0.3, 0.3), r.uni(1, 3)}, {0, 0}}}; Q[3] = {Q[1][0] + r.uni(-0.3, 0.3), Q[2][1] + r.uni(-0.3, 0.3)};
    double a = r.uni(-1, 1), la = r.uni(0.5, 2), b = r.uni(-1, 1), lb = r.uni(0.5, 2);
    auto mk = [&](const Pt<2> &A, const Pt<2> &B, double u, double l) { size_t p = r.i(1, 4); size_t n = p + 1 + r.i(0, 2); std::vector<Pt<2>> P(n); for (size_t i = 0; i < n; ++i) { double t = double(i) / (n - 1); for (int k = 0; k < 2; ++k) P[i][k] = A[k] + t * (B[k] - A[k]) + (i && i + 1 < n ? r.uni(-0.12, 0.12) : 0); } P.front() = A; P.back() = B; std::vector<double> U(p + 1, u); for (size_t i = 1; i + p < n; ++i) U.push_back(u + l * i / (n - p)); U.insert(U.end(), p + 1, u + l); return gbs::BSCurve<double, 2>(P, U, p); };
    std::vector<gbs::BSCurve<double, 2>> k{mk(Q[0], Q[2], b, lb), mk(Q[1], Q[3], b, lb)}, e{mk(Q[0], Q[1], a, la), mk(Q[2], Q[3], a, la)}; std::vector<CP<2>> pk, pe; std::vector<ref::Curve> rk, re; for (auto &x : k) { pk.push_back(std::make_shared<gbs::BSCurve<double, 2>>(x)); rk.push_back(gen::R(x)); } for (auto &x : e) { pe.push_back(std::make_shared<gbs::BSCurve<double, 2>>(x)); re.push_back(gen::R(x)); }
    std::vector<double> xi{a, a + la}, eta{b, b + lb}; std::vector<std::vector<double>> U{xi, xi}, V{eta, eta}; c.describe("boundary " + gen::cdesc(k[0]) + " " + gen::cdesc(k[1]) + " " + gen::cdesc(e[0]) + " " + gen::cdesc(e[1])); c.nontrivial(gen::chash(k[0]) ^ gen::chash(e[0]));
    auto judge = [&](auto &&t) { auto &[pts, nj, ni, njs, nis] = t; sizes(c, rk, V, nk, njs, "sizes_ksi"); sizes(c, re, U, ne, nis, "sizes_eth"); c.check(nj == nk && ni == ne, "two_curves_sizes", num(nj) + " " + num(nk)); carries<2>(c, pts, nj, ni, njs, nis, pk, pe, rk, re, V, U, 1e-9L * 10); };
    if (r.coin()) judge(gbs::tfi_mesh_2d<double, 2, 1, 1, false>(pk, pe, xi, eta, nk, ne)); else judge(gbs::tfi_mesh_2d<double, 2, 1, 1, true>(pk, pe, xi, eta, nk, ne)); c.event("boundary");
    // found intersections: a mesh that carries the curves or a refusal
    try { auto [ki, ej] = gbs::lattice_intersections<double, 2>(pk, pe, 1e-5); c.event("intersections/found"); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) c.check(dist<2>(pk[i]->value(ej[i][j]), pe[j]->value(ki[j][i])) <= 1e-5L * 1.01L, "intersections"); } catch (const std::invalid_argument &) { c.event("intersections/refused"); }
}
// crossing curves that extend beyond their network
FAMILY("crossing", 60, 2000)
{
    auto &r = c.rng; int L = r.i(2, 3), M = r.i(2, 3); size_t nk = r.i(6, 15), ne = r.i(6, 15); auto S = patch<2>(r, r.uni(0, 0.4)); auto b = S.bounds(); bool broken = r.coin(0.3); auto x = stations(r, b[0] + 0.05 * (b[1] - b[0]), b[1] - 0.05 * (b[1] - b[0]), L), y = stations(r, b[2] + 0.05 * (b[3] - b[2]), b[3] - 0.05 * (b[3] - b[2]), M);
    std::vector<CP<2>> pk, pe; std::vector<ref::Curve> rk, re; for (auto v : x) { auto k = S.isoU(v); pk.push_back(std::make_shared<gbs::BSCurve<double, 2>>(k)); rk.push_back(gen::R(k)); } for (auto v : y) { auto k = S.isoV(v); if (broken && v == y.back()) { auto P = k.poles(); for (auto &p : P) p[1] += 10; k.movePoles(P); } pe.push_back(std::make_shared<gbs::BSCurve<double, 2>>(k)); re.push_back(gen::R(k)); }
    c.describe("crossing " + num(L) + "x" + num(M) + (broken ? " broken " : " ") + gen::sdesc(S)); c.nontrivial(gen::shash(S) ^ nk); double tol = 1e-5;
    if (broken) { bool t = false; try { gbs::tfi_mesh_2d<double, 2, 1, 1, false>(pk, pe, nk, ne, tol); } catch (const std::invalid_argument &) { t = true; } c.check(t, "unconnected_refused"); c.event("crossing/broken"); return; }
    try { auto [pts, nj, ni, njs, nis] = gbs::tfi_mesh_2d<double, 2, 1, 1, false>(pk, pe, nk, ne, tol); std::vector<std::vector<double>> K, E; for (auto v : y) { (void)v; K.push_back(x); } for (auto v : x) { (void)v; E.push_back(y); } auto [ki, ej] = gbs::lattice_intersections<double, 2>(pk, pe, tol); for (int j = 0; j < M; ++j) for (int i = 0; i < L; ++i) { c.near(ki[j][i], x[i], 3e-4L * (b[1] - b[0]), "crossing_parameter"); c.near(ej[i][j], y[j], 3e-4L * (b[3] - b[2]), "crossing_parameter"); }
        carries<2>(c, pts, nj, ni, njs, nis, pk, pe, rk, re, ej, ki, 5e-5L); c.event("crossing/meshed"); } catch (const std::invalid_argument &) { c.event("crossing/refused"); }
}
// exact reproduction: bilinear patches for linear blending, affine ones for any
FAMILY("reproduction", 150, 5000)
{
    auto &r = c.rng; int L = r.i(2, 4), M = r.i(2, 4); size_t nk = r.i(8, 20), ne = r.i(8, 20); Pt<3> A, B, C, D; for (int k = 0; k < 3; ++k) { A[k] = r.uni(-1, 1); B[k] = r.uni(-1, 1) + (k == 0 ? 3 : 0); C[k] = r.uni(-1, 1) + (k == 1 ? 3 : 0); D[k] = r.uni(-1, 1); } double a = r.uni(-2, 2), la = r.uni(0.5, 2), b = r.uni(-2, 2), lb = r.uni(0.5, 2);
    modes(r, [&](auto P_, auto sl) {
        constexpr size_t P = decltype(P_)::value; constexpr bool slope = decltype(sl)::value; bool bil = P == 1 && !slope; if (!bil) D = {0, 0, 0}; auto S = [&](ld x, ld y) { x = (x - a) / la; y = (y - b) / lb; std::vector<ld> p(3); for (int k = 0; k < 3; ++k) p[k] = A[k] + x * B[k] + y * C[k] + x * y * D[k]; return p; };
        auto pt = [&](ld x, ld y) { auto p = S(x, y); return Pt<3>{double(p[0]), double(p[1]), double(p[2])}; }; std::vector<Pt<3>> poles{pt(a, b), pt(a + la, b), pt(a, b + lb), pt(a + la, b + lb)}; std::shared_ptr<gbs::Surface<double, 3>> srf = std::make_shared<gbs::BSSurface<double, 3>>(poles, std::vector<double>{a, a, a + la, a + la}, std::vector<double>{b, b, b + lb, b + lb}, 1, 1); auto xi = stations(r, a, a + la, L), eta = stations(r, b, b + lb, M);
        c.describe("reproduction P " + num(P) + " slope " + num(slope) + " L " + num(L) + " M " + num(M) + " n " + num(nk) + " " + num(ne)); c.nontrivial(hash_str(num(a) + num(b) + num(la)));
        auto [pts, nj, ni, njs, nis] = gbs::tfi_mesh_2d<double, 3, P, P, slope>(srf, xi, eta, nk, ne); if (!c.check(pts.size() == ni * nj, "node_count")) return;
        auto par = [](const std::vector<double> &h, const std::vector<size_t> &n) { std::vector<ld> x; for (size_t s = 0; s + 1 < h.size(); ++s) for (size_t k = 0; k + 1 < n[s]; ++k) x.push_back(h[s] + (ld(h[s + 1]) - h[s]) * k / (n[s] - 1)); x.push_back(h.back()); return x; }; auto X = par(xi, nis), Y = par(eta, njs); if (!c.check(X.size() == ni && Y.size() == nj, "announced_sizes")) return;
        for (size_t i = 0; i < ni; ++i) for (size_t j = 0; j < nj; ++j) c.near_pt(pts[j + nj * i], S(X[i], Y[j]), 1e-6L, bil ? "bilinear" : "affine", num(i) + "," + num(j)); c.event(bil ? "reproduction/bilinear" : "reproduction/affine"); });
    auto nb = r.i(2, 6); auto x = stations(r, a, a + la, nb); bool sl = r.coin(); auto f = gbs::build_tfi_blend_function<double>(x, sl); c.check(f.size() == size_t(nb), "blend_count"); for (int i = 0; i < nb; ++i) for (int j = 0; j < nb; ++j) { c.near(f[i](x[j]), i == j, 1e-10L, "blend_delta"); if (sl) c.near(f[i](x[j], 1), 0, 1e-8L / la, "blend_slope"); } for (int q = 0; q < 10; ++q) { double t = r.uni(a, a + la); ld s = 0; for (auto &g : f) s += g(t); c.near(s, 1, 1e-10L, "blend_partition"); } c.event("blend");
}
// broken requests are refused
FAMILY("refused", 200, 6000)
{
    auto &r = c.rng; int L = r.i(2, 4), M = r.i(2, 4); auto N = network<2>(r, 0.3, L, M, false); int k = r.i(0, 9); std::string what; c.nontrivial(gen::shash(N.S) ^ k); bool t = false; std::vector<std::vector<double>> ksi(M, N.xi), eth(L, N.eta); auto S2 = [&](size_t n) { std::vector<size_t> v(n, 4); return v; }; c.describe("refused " + num(k) + " L " + num(L) + " M " + num(M));
    auto refused = [&](auto f) { try { f(); } catch (const std::exception &) { t = true; } };
    switch (k) {
    case 0: what = "sizes"; refused([&] { gbs::msh_curves_set<double, 2, 1>(N.pk, S2(r.coin() ? M : M - 2), N.eta); }); break;
    case 1: { what = "bounds"; auto bad = N.pk; auto X = N.k[1]; X.changeBounds(N.eta.front() - 0.5, N.eta.back() + 0.1); bad[1] = std::make_shared<gbs::BSCurve<double, 2>>(X); refused([&] { gbs::msh_curves_set<double, 2, 1>(bad, S2(M - 1), N.eta); }); break; }
    case 2: { what = "no_curves"; std::vector<CP<2>> none; if (r.coin()) refused([&] { gbs::msh_curves_set_sizes<double, 2>(none, eth, size_t(10)); }); else refused([&] { gbs::tfi_mesh_2d<double, 2, 1, 1, false>(none, N.pe, N.xi, N.eta, 10, 10); }); break; }
    case 3: { what = "fewer_curves"; auto bad = N.pk; bad.pop_back(); refused([&] { gbs::tfi_mesh_2d<double, 2, 1, 1, false>(bad, N.pe, N.xi, N.eta, 10, 10); }); break; }
    case 4: { what = "fewer_parameter_lists"; auto bad = eth; bad.pop_back(); refused([&] { gbs::tfi_mesh_2d<double, 2, 1, 1, false>(N.pk, N.pe, ksi, bad, 10, 10); }); break; }
    case 5: { what = "ragged_parameters"; auto bad = eth; bad[r.i(0, L - 1)].push_back(N.eta.back()); refused([&] { gbs::tfi_mesh_2d<double, 2, 1, 1, false>(N.pk, N.pe, ksi, bad, 10, 10); }); break; }
    case 6: { what = "no_parameters"; std::vector<std::vector<double>> none; refused([&] { gbs::msh_curves_set<double, 2, 1>(N.pk, S2(M - 1), none); }); break; }
    case 7: { what = "fewer_lists"; auto bad = eth; bad.pop_back(); refused([&] { gbs::msh_curves_set<double, 2, 1>(N.pk, S2(M - 1), bad); }); break; }
    case 8: { what = "fewer_cross_curves"; auto bad = N.pe; bad.pop_back(); refused([&] { gbs::tfi_mesh_2d<double, 2, 1, 1, true>(N.pk, bad, N.xi, N.eta, 10, 10); }); break; }
    default: { what = "empty_parameters"; std::vector<double> none; refused([&] { gbs::tfi_mesh_2d<double, 2, 1, 1, false>(N.pk, N.pe, N.xi, none, 10, 10); }); } }
    c.check(t, "refused_" + what); c.event("refused/" + what);
}
// smoothing against an independent Jacobi iteration on the elliptic equations, in extended precision
struct Ref2 { std::vector<std::array<ld, 2>> P; size_t nj;
    std::pair<size_t, ld> run(size_t i1, size_t i2, size_t j1, size_t j2, size_t n, ld tol) { size_t ni = P.size() / nj, it = 0; ld dk = 1 / ld(ni - 1), de = 1 / ld(nj - 1), e; do { auto N = P; e = 0; for (size_t i = i1 + 1; i < i2; ++i) for (size_t j = j1 + 1; j < j2; ++j) { auto X = [&](int a, int b) -> std::array<ld, 2> & { return P[(i + a) * nj + j + b]; }; ld g11 = 0, g12 = 0, g22 = 0; for (int d = 0; d < 2; ++d) { ld k = (X(1, 0)[d] - X(-1, 0)[d]) / (2 * dk), h = (X(0, 1)[d] - X(0, -1)[d]) / (2 * de); g11 += k * k; g12 += k * h; g22 += h * h; } ld err = 0; for (int d = 0; d < 2; ++d) { ld cross = (X(1, 1)[d] - X(1, -1)[d] - X(-1, 1)[d] + X(-1, -1)[d]) / (4 * dk * de); ld v = (g22 * (X(1, 0)[d] + X(-1, 0)[d]) / (dk * dk) + g11 * (X(0, 1)[d] + X(0, -1)[d]) / (de * de) - 2 * g12 * cross) / (2 * g22 / (dk * dk) + 2 * g11 / (de * de)); err += std::fabs(v - X(0, 0)[d]); N[i * nj + j][d] = v; } e = std::max(e, err); } P = N; ++it; } while (it < n && e > tol); return {it, e}; } };
FAMILY("smoothing", 250, 8000)
{
    auto &r = c.rng; size_t ni = r.i(3, 14), nj = r.i(3, 14); while (r.coin(0.7) && ni == nj) nj = r.i(3, 14); double lx = r.uni(0.5, 3), ly = r.uni(0.5, 3), sh = r.uni(-0.5, 0.5), amp = r.uni(0, 0.3); gbs::points_vector<double, 2> P(ni * nj);
    for (size_t i = 0; i < ni; ++i) for (size_t j = 0; j < nj; ++j) { double x = double(i) / (ni - 1), y = double(j) / (nj - 1); P[j + nj * i] = {lx * x + sh * y + amp * lx / (ni - 1) * r.uni(-1, 1), ly * y + amp * ly / (nj - 1) * r.uni(-1, 1) + 0.1 * std::sin(3 * x)}; }
    size_t i1 = 0, i2 = ni - 1, j1 = 0, j2 = nj - 1; if (r.coin(0.6)) { i1 = r.i(0, ni - 1); i2 = r.i(i1, ni - 1); j1 = r.i(0, nj - 1); j2 = r.i(j1, nj - 1); } size_t n = r.coin(0.5) ? r.i(1, 5) : r.i(10, 200); double tol = std::pow(10., r.uni(-8, -2)); c.describe("smoothing " + num(ni) + "x" + num(nj) + " block " + num(i1) + ".." + num(i2) + " " + num(j1) + ".." + num(j2) + " n " + num(n) + " tol " + num(tol)); c.nontrivial(hash_str(num(lx) + num(P[1][0])));
    auto Q = P; Ref2 R; R.nj = nj; for (auto &p : P) R.P.push_back({p[0], p[1]}); auto [it, err] = gbs::elliptic_structured_smoothing<double>(Q, nj, i1, i2, j1, j2, n, tol); auto [rit, rerr] = R.run(i1, i2, j1, j2, n, tol);
    if (!c.check(Q.size() == P.size(), "size")) return; for (size_t i = 0; i < ni; ++i) for (size_t j = 0; j < nj; ++j) if (!(i > i1 && i < i2 && j > j1 && j < j2)) c.check(Q[j + nj * i] == P[j + nj * i], "outside_moved", num(i) + "," + num(j));
    c.check(it <= n && it >= 1, "iterations"); c.check(it == n || err <= tol, "stopped_early"); c.check(it == rit || std::fabs(rerr - tol) < 1e-9L || std::fabs(err - tol) < 1e-9, "iteration_count", num(it) + " " + num(rit));
    if (it == rit) { c.near(err, rerr, 1e-10L, "error"); for (size_t k = 0; k < Q.size(); ++k) c.near_pt(Q[k], std::vector<ld>{R.P[k][0], R.P[k][1]}, 1e-9L, "node", num(k)); c.event("smoothing/compared"); c.event("smoothing/nodes", Q.size()); } if (it < n) c.event("smoothing/converged"); if (i1 || j1 || i2 + 1 < ni || j2 + 1 < nj) c.event("smoothing/block");
}
FAMILY("smoothed_convex", 80, 2500)
{
    auto &r = c.rng; size_t ni = r.i(4, 16), nj = r.i(4, 16); std::array<Pt<2>, 4> Q{{{r.uni(-0.2, 0.2), r.uni(-0.2, 0.2)}, {r.uni(1.2, 2), r.uni(-0.2, 0.2)}, {r.uni(-0.2, 0.2), r.uni(1, 2)}, {r.uni(1.2, 2), r.uni(1, 2)}}}; auto at = [&](double x, double y) { Pt<2> p; for (int d = 0; d < 2; ++d) p[d] = (1 - x) * (1 - y) * Q[0][d] + x * (1 - y) * Q[1][d] + (1 - x) * y * Q[2][d] + x * y * Q[3][d]; return p; };
    gbs::points_vector<double, 2> P(ni * nj); for (size_t i = 0; i < ni; ++i) for (size_t j = 0; j < nj; ++j) { bool in = i && j && i + 1 < ni && j + 1 < nj; double amp = in ? 0.45 : 0.; P[j + nj * i] = at((i + amp * r.uni(-1, 1)) / (ni - 1.), (j + amp * r.uni(-1, 1)) / (nj - 1.)); }
    c.describe("smoothed_convex " + num(ni) + "x" + num(nj)); c.nontrivial(hash_str(num(P[nj + 1][0]))); auto [it, err] = gbs::elliptic_structured_smoothing<double>(P, nj, 0, ni - 1, 0, nj - 1, 5000, 1e-9); if (!c.check(it < 5000 && err <= 1e-9, "converges", num(it) + " " + num(err))) return;
    auto cross = [](const Pt<2> &a, const Pt<2> &b, const Pt<2> &p) { return (ld(b[0]) - a[0]) * (ld(p[1]) - a[1]) - (ld(b[1]) - a[1]) * (ld(p[0]) - a[0]); }; std::array<int, 4> H{0, 1, 3, 2}; for (auto &p : P) for (int e = 0; e < 4; ++e) c.check(cross(Q[H[e]], Q[H[(e + 1) % 4]], p) >= -1e-9L, "inside_hull");
    for (size_t i = 0; i + 1 < ni; ++i) for (size_t j = 0; j + 1 < nj; ++j) { auto &a = P[j + nj * i], &b = P[j + nj * (i + 1)], &d = P[j + 1 + nj * i], &e = P[j + 1 + nj * (i + 1)]; c.check(cross(a, b, e) > 0 && cross(a, e, d) > 0, "cell_folded", num(i) + "," + num(j)); } auto B = P; auto [it2, e2] = gbs::elliptic_structured_smoothing<double>(B, nj, 0, ni - 1, 0, nj - 1, 1, 1e-9); c.check(e2 <= 2e-9, "stationary"); (void)it2; c.event("smoothed/convex");
}
// meshed edges
FAMILY("edges", 150, 5000)
{
    auto &r = c.rng; auto crv = gen::smooth_curve<double, 2>(r, r.i(3, 4), r.i(1, 3), r.uni(0.02, 0.15)); auto R = gen::R(crv); auto [u1, u2] = crv.bounds(); { ld lo = 1e300L, hi = 0; for (int i = 0; i <= 60; ++i) { ld s = nrm(R.ders(u1 + (u2 - u1) * i / 60.L, 1)[1].v); lo = std::min(lo, s); hi = std::max(hi, s); } if (hi > 4 * lo) { c.event("edges/skipped"); return; } } CP<2> p = std::make_shared<gbs::BSCurve<double, 2>>(crv);
    bool part = r.coin(0.4); double a = u1, b = u2; if (part) { a = u1 + (u2 - u1) * r.uni(0, 0.4); b = u1 + (u2 - u1) * r.uni(0.6, 1); } size_t n = r.i(0, 30); c.describe("edge n " + num(n) + " " + gen::cdesc(crv)); c.nontrivial(gen::chash(crv) ^ n); auto e = part ? gbs::msh_edge<double, 2>(p, {a, b}) : gbs::msh_edge<double, 2>(p); bool set = r.coin(0.85); if (set) e.set_n_points(n); else c.event("edges/default"); size_t m = set ? std::max<size_t>(2, n) : 2; ld L = arclen(R, a, b);
    double h1 = 0, h2 = 0, g = 0; int law = 0; double s = double(L) / (m - 1); if (m >= 5 && r.coin()) { law = 1; h1 = s * r.uni(0.6, 1.5); h2 = s * r.uni(0.6, 1.5); if (m >= 8 && r.coin()) { law = 2; g = r.uni(0.95, 1.1); e.update_law(h1, h2, g, g); } else e.update_law(h1, h2); }
    e.compute_pnts(); auto P = e.points(); if (!c.check(P.size() == m, "edge_count", num(P.size()))) return; c.near_pt(P.front(), R.value(a, 0).v, 1e-9L, "edge_first"); c.near_pt(P.back(), R.value(b, 0).v, 1e-9L, "edge_last"); c.event("edges/law" + num(law)); c.event("edges/points", m);
    // positions along the curve
    std::vector<ld> S; ld u = a, len = 0; const int K = 4000; std::vector<std::pair<Pt<2>, ld>> tab; { ld prev = a; for (int k = 0; k <= K; ++k) { ld v = a + (ld(b) - a) * k / K; if (k) { auto x = R.value(prev, 0).v, y = R.value(v, 0).v; len += std::hypot(x[0] - y[0], x[1] - y[1]); } auto x = R.value(v, 0).v; tab.push_back({{double(x[0]), double(x[1])}, len}); prev = v; } } (void)u;
    for (auto &q : P) { ld best = 1e300L, at = 0; for (auto &[x, l] : tab) { ld d = dist<2>(x, q); if (d < best) { best = d; at = l; } } c.check(best <= 1.5L * L / K * 4, "edge_on_curve", num(double(best))); S.push_back(at); }
    ld q = L / K * 4; for (size_t i = 1; i < m; ++i) { if (law == 0) c.near(S[i] - S[i - 1], s, 0.15L * s + 0.02L * L + 2 * q, "edge_spacing", num(i)); } if (law) { c.near(S[1], h1, 0.1L * s + 0.02L * L + 2 * q, "edge_first_step"); c.near(L - S[m - 2], h2, 0.1L * s + 0.02L * L + 2 * q, "edge_last_step"); } if (law == 2) { c.near(S[2], h1 * (1 + g), 0.15L * s + 0.02L * L + 2 * q, "edge_second_step"); c.near(L - S[m - 3], h2 * (1 + g), 0.15L * s + 0.02L * L + 2 * q, "edge_second_last_step"); }
}
int main(int a, char **b) { return run(a, b); }
