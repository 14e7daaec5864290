// C12: projection and extremum searches return true stationary minima and the distance found there.
#include "gen.h"
#include <gbs/bscbuild.h>
#include <gbs/bscanalysis.h>
#include <gbs/extrema.h>
#include <gbs/curves>
#include <gbs/surfaces>
using namespace vh;
using gbs::operator+;
using gbs::operator-;
using gbs::operator*;
using gbs::operator/;
template <size_t dim> using Pt = std::array<double, dim>;
// gently bent curve: poles along a line with a bounded transverse move, mild weights, uneven knots and any domain
template <size_t dim> struct Cv { std::shared_ptr<gbs::Curve<double, dim>> c; ref::Curve R; std::string d; uint64_t h; double size; };
template <size_t dim> static Cv<dim> gentle(Rng &r, double bend = 0.3, double size = 0)
{
    using namespace gbs; int p = r.i(2, 4), s = r.i(1, 3); std::vector<double> k(p + 1, 0.); for (int i = 1; i < s; ++i) k.push_back((i + r.uni(-0.2, 0.2)) / s); k.insert(k.end(), p + 1, 1.); double a = r.coin() ? 0 : r.uni(-3, 3), w = r.coin() ? 1 : std::pow(2., r.uni(-2, 2)); for (auto &x : k) x = a + w * x;
    if (size == 0) size = r.coin(0.6) ? 1 : std::pow(10., r.uni(-1, 2)); size_t n = k.size() - p - 1; std::vector<Pt<dim>> P(n); std::vector<double> off(dim); for (auto &x : off) x = r.coin(0.4) ? 0 : size * r.uni(-2, 2); std::array<Pt<dim>, 2> D; for (auto &d : D) { ld q = 0; do { q = 0; for (auto &x : d) { x = r.uni(-1, 1); q += x * x; } } while (q < 0.1 || q > 1); for (auto &x : d) x /= std::sqrt(q); }
    double ph = r.uni(0, 6), fr = r.uni(1, 3.2); for (size_t i = 0; i < n; ++i) { double t = double(i) / (n - 1); for (size_t c = 0; c < dim; ++c) P[i][c] = off[c] + size * ((t + r.uni(-0.02, 0.02)) * D[0][c] + bend * std::sin(ph + fr * t) * D[1][c]); }
    Cv<dim> C{nullptr, {}, "", 0, size}; bool rat = r.coin(0.4); if (rat) { auto q = gen::weights<double>(r, n); for (auto &x : q) x = std::pow(x, 0.3); auto b = std::make_shared<BSCurveRational<double, dim>>(P, k, q, p); C.c = b; C.R = gen::R(*b); C.d = "rational " + gen::cdesc(*b); C.h = gen::chash(*b); }
    else { auto b = std::make_shared<BSCurve<double, dim>>(P, k, p); C.c = b; C.R = gen::R(*b); C.d = gen::cdesc(*b); C.h = gen::chash(*b); } return C;
}
struct Sf { std::shared_ptr<gbs::Surface<double, 3>> s; ref::Surf R; std::string d; uint64_t h; double size; };
static Sf gentle_surf(Rng &r, double bend = 0.2)
{
    using namespace gbs; auto kn = [&](int p) { int s = r.i(1, 3); std::vector<double> k(p + 1, 0.); for (int i = 1; i < s; ++i) k.push_back(double(i) / s); k.insert(k.end(), p + 1, 1.); double a = r.coin() ? 0 : r.uni(-3, 3), w = r.coin() ? 1 : std::pow(2., r.uni(-2, 2)); for (auto &x : k) x = a + w * x; return k; }; int p = r.i(1, 3), q = r.i(1, 3); auto ku = kn(p), kv = kn(q); size_t nu = ku.size() - p - 1, nv = kv.size() - q - 1; double size = r.coin(0.6) ? 1 : std::pow(10., r.uni(-1, 2)); std::vector<Pt<3>> P; double ph = r.uni(0, 6);
    bool smooth = p > 1 && q > 1; for (size_t j = 0; j < nv; ++j) for (size_t i = 0; i < nu; ++i) { double s = double(i) / (nu - 1), t = double(j) / (nv - 1); P.push_back({size * s, size * (t + 0.1 * s), size * (smooth ? bend : 0.) * std::sin(ph + 2 * s + 1.5 * t)}); }
    Sf S{nullptr, {}, "", 0, size}; if (r.coin(0.4)) { auto w = gen::weights<double>(r, P.size()); for (auto &x : w) x = std::pow(x, 0.2); auto b = std::make_shared<BSSurfaceRational<double, 3>>(P, w, ku, kv, p, q); S.s = b; S.R = gen::R(*b); S.d = "rational " + gen::sdesc(*b); S.h = gen::shash(*b); } else { auto b = std::make_shared<BSSurface<double, 3>>(P, ku, kv, p, q); S.s = b; S.R = gen::R(*b); S.d = gen::sdesc(*b); S.h = gen::shash(*b); } return S;
}
static ld dist(const std::vector<ld> &a, const std::vector<ld> &b) { ld s = 0; for (size_t k = 0; k < a.size(); ++k) s += (a[k] - b[k]) * (a[k] - b[k]); return std::sqrt(s); }
template <class A> static std::vector<ld> V(const A &a) { return std::vector<ld>(a.begin(), a.end()); }
// golden refinement of a sampled minimum
template <class F> static ld refine(F f, ld a, ld b) { const ld g = (std::sqrt(5.0L) - 1) / 2; ld x = b - g * (b - a), y = a + g * (b - a), fx = f(x), fy = f(y); for (int i = 0; i < 120; ++i) if (fx < fy) { b = y; y = x; fy = fx; x = b - g * (b - a); fx = f(x); } else { a = x; x = y; fx = fy; y = a + g * (b - a); fy = f(y); } return (a + b) / 2; }
static const std::vector<std::pair<nlopt::algorithm, const char *>> solvers{{nlopt::LN_COBYLA, "cobyla"}, {nlopt::LN_COBYLA, "cobyla"}, {nlopt::LN_COBYLA, "cobyla"}, {nlopt::LD_SLSQP, "slsqp"}};

template <size_t dim> static void curve_point(Case &c)
{
    using namespace gbs; Rng &r = c.rng; auto C = gentle<dim>(r); auto b = C.c->bounds(); double us = r.coin(0.2) ? (r.coin() ? b[0] : b[1]) : b[0] + (b[1] - b[0]) * r.u01(); bool on = r.coin(0.35); auto Q = C.R.value(us, 0).v; auto T = C.R.ders(us, 1)[1].v; Pt<dim> P; ld tt = 0; for (auto x : T) tt += x * x; double off = on ? 0 : C.size * r.uni(0.01, 0.6); std::vector<ld> nrm(dim); { ld q = 0, d = 0; for (auto &x : nrm) x = r.uni(-1, 1); for (size_t k = 0; k < dim; ++k) d += nrm[k] * T[k]; for (size_t k = 0; k < dim; ++k) { nrm[k] -= d * T[k] / tt; q += nrm[k] * nrm[k]; } q = std::sqrt(q) + 1e-12L; for (auto &x : nrm) x /= q; } for (size_t k = 0; k < dim; ++k) P[k] = double(Q[k] + off * nrm[k]);
    auto [sol, sn] = solvers[r.i(0, int(solvers.size()) - 1)]; double tol = r.coin() ? 1e-6 : 1e-8; c.describe(std::string(sn) + " u* " + num(us) + " off " + num(off) + " tol " + num(tol) + " " + C.d); c.nontrivial(mix(C.h ^ uint64_t(1e9 * (us - b[0])))); c.event(std::string("curve_point/") + sn); c.event(on ? "curve_point/on" : "curve_point/off");
    auto f = [&](ld u) { return dist(C.R.value(u, 0).v, V(P)); }; const int N = 400; std::vector<ld> s(N + 1); for (int i = 0; i <= N; ++i) s[i] = f(b[0] + (b[1] - b[0]) * ld(i) / N); std::vector<int> mins; for (int i = 0; i <= N; ++i) if ((i == 0 || s[i] <= s[i - 1]) && (i == N || s[i] <= s[i + 1])) mins.push_back(i);
    int g = int(std::min_element(s.begin(), s.end()) - s.begin()); ld h = (b[1] - b[0]) / ld(N), ug = refine(f, std::max<ld>(b[0], b[0] + h * (g - 1)), std::min<ld>(b[1], b[0] + h * (g + 1))), dg = f(ug); if (f(b[0]) < dg) { ug = b[0]; dg = f(ug); } if (f(b[1]) < dg) { ug = b[1]; dg = f(ug); } if (on) { ug = us; dg = 0; }
    // second best basin
    ld second = 1e300L; for (int i : mins) if (std::abs(i - g) > 2) second = std::min(second, s[i]); bool uni = second > 1e299L; c.event(uni ? "curve_point/unimodal" : "curve_point/multimodal"); bool near = r.coin(); ld tolD = (tol + 1e-6) * C.size; std::array<double, 2> e;
    if (near) { double u0 = std::min(std::max(double(ug + (b[1] - b[0]) * r.uni(-0.05, 0.05)), b[0]), b[1]); if (f(u0) > 0.9 * second) return; e = extrema_curve_point(*C.c, P, u0, tol, sol); c.event("curve_point/near"); }
    else { ld best = 1e300L; for (int i = 0; i < 30; ++i) best = std::min(best, f(b[0] + (b[1] - b[0]) * i / 29.0L)); if (best > 0.98 * second) return; e = extrema_curve_point(*C.c, P, tol, sol); c.event("curve_point/bracketed"); }
    c.check(e[0] >= b[0] && e[0] <= b[1], "curve_point_inside", num(e[0])); ld de = f(e[0]), te = 1e-9 * C.size + 1e-10; bool sq = std::fabs(e[1] - de) > te && std::fabs(e[1] - de * de) <= 1e-9 * C.size * C.size + 1e-10; if (sq) c.check(false, "curve_point_distance_squared", num(e[1]) + " for " + num(double(de))); else c.near(e[1], de, te, "curve_point_distance"); c.check(f(e[0]) <= dg + tolD, "curve_point_minimum", num(double(f(e[0]))) + " for " + num(double(dg)) + " at " + num(e[0]) + " for " + num(double(ug))); if (on) c.near(f(e[0]), 0, tolD, "curve_point_zero");
    auto D = C.R.ders(e[0], 1); ld gr = 0, gt = 0; for (size_t k = 0; k < dim; ++k) { gr += D[1].v[k] * (D[0].v[k] - P[k]); gt += D[1].v[k] * D[1].v[k]; } gr /= std::sqrt(gt); ld tg = 2e-3 * C.size; if (e[0] <= b[0] + 1e-9 * (b[1] - b[0])) c.check(gr > -tg, "curve_point_stationary", num(double(gr))); else if (e[0] >= b[1] - 1e-9 * (b[1] - b[0])) c.check(gr < tg, "curve_point_stationary", num(double(gr))); else c.near(gr, 0, tg, "curve_point_stationary");
}
// a solver other than the default one may stop by telling that it cannot progress any more
template <class F> static void search(Case &c, F f) { try { f(); } catch (const nlopt::roundoff_limited &) { c.event("roundoff_limited"); c.check(c.desc.rfind("cobyla", 0) != 0, "default_solver_failed"); } }
FAMILY("curve_point", 500, 15000) { search(c, [&] { c.rng.coin() ? curve_point<2>(c) : curve_point<3>(c); }); }

// the closest curve of a list, given as values or as pointers, is one at the least distance
template <size_t dim> static void closest(Case &c)
{
    using namespace gbs; Rng &r = c.rng; size_t n = r.i(1, 6); double sc = r.coin(0.6) ? 1 : std::pow(10., r.uni(-1, 2)); std::vector<Cv<dim>> L; for (size_t i = 0; i < n; ++i) L.push_back(gentle<dim>(r, 0.25, sc)); Pt<dim> P; for (auto &x : P) x = sc * r.uni(-2.5, 2.5); if (r.coin(0.3)) { auto &C = L[r.i(0, int(n) - 1)]; auto b = C.c->bounds(); auto q = C.R.value(b[0] + (b[1] - b[0]) * r.u01(), 0).v; for (size_t k = 0; k < dim; ++k) P[k] = double(q[k]); c.event("closest/on"); }
    std::string d; uint64_t h = 0; std::vector<ld> D; std::vector<size_t> keep; for (size_t i = 0; i < n; ++i) { auto &C = L[i]; auto b = C.c->bounds(); auto f = [&](ld u) { return dist(C.R.value(u, 0).v, V(P)); }; const int N = 200; std::vector<ld> s(N + 1); for (int j = 0; j <= N; ++j) s[j] = f(b[0] + (b[1] - b[0]) * ld(j) / N); int m = 0, g = int(std::min_element(s.begin(), s.end()) - s.begin()); for (int j = 0; j <= N; ++j) m += (j == 0 || s[j] <= s[j - 1]) && (j == N || s[j] < s[j + 1]); if (m != 1) continue; ld w = (b[1] - b[0]) / ld(N), u = refine(f, std::max<ld>(b[0], b[0] + w * (g - 1)), std::min<ld>(b[1], b[0] + w * (g + 1))); D.push_back(std::min({f(u), f(b[0]), f(b[1])})); keep.push_back(i); d += " " + C.d; h = mix(h ^ C.h); }
    if (D.empty()) return; bool ptr = r.coin(); double tol = r.coin() ? 1e-6 : 1e-8; c.describe("dim " + num(dim) + (ptr ? " pointers" : " values") + " tol " + num(tol) + " P " + num(P[0]) + " " + num(P[1]) + d); c.nontrivial(h); size_t g = 0;
    if (ptr) { std::vector<std::shared_ptr<Curve<double, dim>>> X; for (auto i : keep) X.push_back(L[i].c); g = std::distance(X.begin(), r.coin() ? closest_p_curve<double, dim>(P, X.begin(), X.end(), tol) : closest_p_curve<double, dim>(P, X.begin(), X.end())); c.event("closest/pointers"); }
    else { std::vector<BSCurveRational<double, dim>> X; for (auto i : keep) { if (auto q = std::dynamic_pointer_cast<BSCurveRational<double, dim>>(L[i].c)) X.push_back(*q); else X.push_back(BSCurveRational<double, dim>(*std::dynamic_pointer_cast<BSCurve<double, dim>>(L[i].c))); } g = std::distance(X.begin(), r.coin() ? closest_curve<double, dim>(P, X.begin(), X.end(), tol) : closest_curve<double, dim>(P, X.begin(), X.end())); c.event("closest/values"); }
    c.check(g < D.size(), "closest_curve_member", num(g)); size_t e = std::min_element(D.begin(), D.end()) - D.begin(); if (g < D.size()) c.check(D[g] <= D[e] + (tol + 1e-5) * sc, "closest_curve", num(g) + " at " + num(double(D[g])) + " for " + num(e) + " at " + num(double(D[e]))); if (D.size() > 1) c.event("closest/several"); if (e + 1 < D.size() && e > 0) c.event("closest/inside_list");
}
FAMILY("closest", 250, 8000) { c.rng.coin() ? closest<2>(c) : closest<3>(c); }

static void surf_point(Case &c)
{
    using namespace gbs; Rng &r = c.rng; auto S = gentle_surf(r); auto b = S.s->bounds(); double us = b[0] + (b[1] - b[0]) * (r.coin(0.15) ? r.i(0, 1) : r.uni(0.02, 0.98)), vs = b[2] + (b[3] - b[2]) * (r.coin(0.15) ? r.i(0, 1) : r.uni(0.02, 0.98)); bool on = r.coin(0.4); auto D = S.R.ders(us, vs, 1, 1); auto &A = D[1][0].v; auto &B = D[0][1].v; std::vector<ld> n{A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]}; ld q = dist(n, {0, 0, 0}); double off = on ? 0 : S.size * r.uni(-0.4, 0.4); Pt<3> P; for (int k = 0; k < 3; ++k) P[k] = double(D[0][0].v[k] + off * n[k] / q);
    auto [sol, sn] = solvers[r.i(0, int(solvers.size()) - 1)]; double tol = r.coin() ? 1e-6 : 1e-8; bool near = r.coin(); c.describe(std::string(sn) + (near ? " near" : " bracketed") + " uv " + num(us) + " " + num(vs) + " off " + num(off) + " " + S.d); c.nontrivial(mix(S.h ^ uint64_t(1e9 * (us - b[0])))); c.event(std::string("surf_point/") + sn); c.event(on ? "surf_point/on" : "surf_point/off");
    auto f = [&](ld u, ld v) { return dist(S.R.ders(u, v, 0, 0)[0][0].v, V(P)); }; ld ds = f(us, vs); std::array<double, 3> e;
    if (near) { double u0 = std::min(std::max(us + (b[1] - b[0]) * r.uni(-0.05, 0.05), b[0]), b[1]), v0 = std::min(std::max(vs + (b[3] - b[2]) * r.uni(-0.05, 0.05), b[2]), b[3]); e = extrema_surf_pnt(*S.s, P, u0, v0, tol, sol); } else e = extrema_surf_pnt(*S.s, P, tol, sol); c.event(near ? "surf_point/near" : "surf_point/bracketed");
    ld t = (tol + 2e-6) * S.size; c.check(e[0] >= b[0] && e[0] <= b[1] && e[1] >= b[2] && e[1] <= b[3], "surf_point_inside"); ld de = f(e[0], e[1]); c.near(e[2], de, 1e-9 * S.size + 1e-10, "surf_point_distance"); c.check(de <= ds + t, "surf_point_minimum", num(double(de)) + " for " + num(double(ds)) + " at " + num(e[0]) + "," + num(e[1])); if (on) c.near(e[2], 0, t, "surf_point_zero");
}

template <size_t dim> static void curve_curve(Case &c)
{
    using namespace gbs; Rng &r = c.rng; auto C1 = gentle<dim>(r, 0.2, 1), C2 = gentle<dim>(r, 0.2, 1); auto b1 = C1.c->bounds(), b2 = C2.c->bounds(); double u = b1[0] + (b1[1] - b1[0]) * r.uni(0.05, 0.95), v = b2[0] + (b2[1] - b2[0]) * r.uni(0.05, 0.95); bool on = dim == 2 || r.coin(); auto P = C1.R.value(u, 0).v, Q = C2.R.value(v, 0).v; auto T = C1.R.ders(u, 1)[1].v, W = C2.R.ders(v, 1)[1].v;
    std::vector<ld> n(dim); double off = 0; if (!on) { n = {T[1] * W[2] - T[2] * W[1], T[2] * W[0] - T[0] * W[2], T[0] * W[1] - T[1] * W[0]}; ld q = dist(n, {0, 0, 0}); if (q < 0.2 * dist(T, {0, 0, 0}) * dist(W, {0, 0, 0})) return; off = r.uni(0.02, 0.3); for (auto &x : n) x *= off / q; }
    ld cs = 0, nt = 0, nw = 0; for (size_t k = 0; k < dim; ++k) { cs += T[k] * W[k]; nt += T[k] * T[k]; nw += W[k] * W[k]; } if (cs * cs > 0.85 * nt * nw) return; // crossing at a clear angle
    Pt<dim> sh; for (size_t k = 0; k < dim; ++k) sh[k] = double(P[k] - Q[k] + n[k]); std::shared_ptr<Curve<double, dim>> c2; ref::Curve R2; if (auto b = std::dynamic_pointer_cast<BSCurve<double, dim>>(C2.c)) { auto x = *b; auto p = x.poles(); for (auto &y : p) y = y + sh; auto z = std::make_shared<BSCurve<double, dim>>(p, x.knotsFlats(), x.degree()); c2 = z; R2 = gen::R(*z); } else { auto x = *std::dynamic_pointer_cast<BSCurveRational<double, dim>>(C2.c); auto p = x.poles(); for (auto &y : p) for (size_t k = 0; k < dim; ++k) y[k] += sh[k] * y[dim]; auto z = std::make_shared<BSCurveRational<double, dim>>(p, x.knotsFlats(), x.degree()); c2 = z; R2 = gen::R(*z); }
    auto f = [&](ld a, ld b) { return dist(C1.R.value(a, 0).v, R2.value(b, 0).v); }; ld ds = f(u, v); auto [sol, sn] = solvers[r.i(0, int(solvers.size()) - 1)]; double tol = r.coin() ? 1e-6 : 1e-8; int way = r.i(0, 2); c.describe(std::string(sn) + " way " + num(way) + " u " + num(u) + " v " + num(v) + " d " + num(double(ds)) + " " + C1.d + " / " + C2.d); c.nontrivial(mix(C1.h ^ C2.h)); c.event(std::string("curve_curve/") + sn); c.event(on ? "curve_curve/crossing" : "curve_curve/apart");
    // the other local minima on a grid must be clearly above
    const int N = 40; std::vector<std::vector<ld>> G(N + 1, std::vector<ld>(N + 1)); std::vector<std::vector<ld>> A, B; for (int i = 0; i <= N; ++i) { A.push_back(C1.R.value(b1[0] + (b1[1] - b1[0]) * i / ld(N), 0).v); B.push_back(R2.value(b2[0] + (b2[1] - b2[0]) * i / ld(N), 0).v); } for (int i = 0; i <= N; ++i) for (int j = 0; j <= N; ++j) G[i][j] = dist(A[i], B[j]); int iu = int(std::lround(N * (u - b1[0]) / (b1[1] - b1[0]))), iv = int(std::lround(N * (v - b2[0]) / (b2[1] - b2[0]))); ld other = 1e300L; for (int i = 0; i <= N; ++i) for (int j = 0; j <= N; ++j) { if (std::abs(i - iu) <= 2 && std::abs(j - iv) <= 2) continue; bool m = true; for (int a = -1; a <= 1 && m; ++a) for (int q = -1; q <= 1; ++q) if (i + a >= 0 && i + a <= N && j + q >= 0 && j + q <= N && G[i + a][j + q] < G[i][j]) { m = false; break; } if (m) other = std::min(other, G[i][j]); }
    if (other < ds + 0.1) { c.event("curve_curve/ambiguous"); return; } std::array<double, 3> e;
    if (way == 0) { double u0 = std::min(std::max(u + (b1[1] - b1[0]) * r.uni(-0.03, 0.03), b1[0]), b1[1]), v0 = std::min(std::max(v + (b2[1] - b2[0]) * r.uni(-0.03, 0.03), b2[0]), b2[1]); e = extrema_curve_curve<double, dim>(*C1.c, *c2, u0, v0, tol, sol); } else if (way == 1) e = extrema_curve_curve<double, dim>(*C1.c, *c2, tol, sol); else { std::vector<std::shared_ptr<Curve<double, dim>>> L{c2, c2}; auto X = extrema_curve_curve_lst<double, dim>(*C1.c, L.begin(), L.end(), tol); c.check(X.size() == 2 && X[0] == X[1], "curve_curve_list"); e = X[0]; c.event("curve_curve/list"); }
    c.check(e[0] >= b1[0] && e[0] <= b1[1] && e[1] >= b2[0] && e[1] <= b2[1], "curve_curve_inside"); ld de = f(e[0], e[1]), t = tol + 2e-6; c.near(e[2], de, 1e-9, "curve_curve_distance"); c.check(de <= ds + t, "curve_curve_minimum", num(double(de)) + " for " + num(double(ds))); if (on) { c.near(e[2], 0, t, "curve_curve_zero"); c.near(e[0], u, 2e-5 * (b1[1] - b1[0]), "curve_curve_parameter"); } c.event("curve_curve/judged");
}
FAMILY("curve_curve", 300, 9000) { search(c, [&] { c.rng.coin() ? curve_curve<2>(c) : curve_curve<3>(c); }); }

FAMILY("surf_point", 150, 4000) { search(c, [&] { surf_point(c); }); }
static void surf_curve(Case &c)
{
    using namespace gbs; Rng &r = c.rng; auto S = gentle_surf(r, 0.1); auto b = S.s->bounds(); double us = b[0] + (b[1] - b[0]) * r.uni(0.1, 0.9), vs = b[2] + (b[3] - b[2]) * r.uni(0.1, 0.9); auto D = S.R.ders(us, vs, 1, 1); auto &A = D[1][0].v; auto &B = D[0][1].v; std::vector<ld> n{A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]}; ld q = dist(n, {0, 0, 0}); for (auto &x : n) x /= q;
    // a curve through the point (or ending above it) along the normal, slightly bent
    bool through = r.coin(0.6); double up = S.size * r.uni(0.3, 0.8), lo = S.size * (through ? -r.uni(0.3, 0.8) : r.uni(0.05, 0.25)); Pt<3> P0, P1, P2; for (int k = 0; k < 3; ++k) { P0[k] = double(D[0][0].v[k] + lo * n[k]); P2[k] = double(D[0][0].v[k] + up * n[k]); P1[k] = (P0[k] + P2[k]) / 2; } double a = r.coin() ? 0 : r.uni(-2, 2), w = std::pow(2., r.uni(-1, 1)); BSCurve<double, 3> C({P0, P1, P2}, {a, a, a, a + w, a + w, a + w}, 2); auto RC = gen::R(C); double tol = 1e-6; auto [sol, sn] = solvers[r.i(0, int(solvers.size()) - 1)]; bool near = r.coin(0.7); c.describe(std::string(sn) + (near ? " near " : " bracketed ") + num(us) + " " + num(vs) + " lo " + num(lo) + " up " + num(up) + " " + S.d); c.nontrivial(mix(S.h ^ uint64_t(1e9 * up))); c.event(std::string("surf_curve/") + sn); c.event(through ? "surf_curve/through" : "surf_curve/apart");
    double wc = through ? a + w * (-lo) / (up - lo) : a; auto f = [&](ld u, ld v, ld t) { return dist(S.R.ders(u, v, 0, 0)[0][0].v, RC.value(t, 0).v); }; ld ds = f(us, vs, wc); std::array<double, 4> e; auto cl = [](double x, double a, double b) { return std::min(std::max(x, a), b); };
    if (near) e = extrema_surf_curve<double, 3>(*S.s, C, cl(wc + 0.03 * w * r.uni(-1, 1), a, a + w), cl(us + 0.03 * (b[1] - b[0]) * r.uni(-1, 1), b[0], b[1]), cl(vs + 0.03 * (b[3] - b[2]) * r.uni(-1, 1), b[2], b[3]), tol, sol); else e = extrema_surf_curve<double, 3>(*S.s, C, tol, sol, 12, 12, 12); c.event(near ? "surf_curve/near" : "surf_curve/bracketed");
    c.check(e[0] >= b[0] && e[0] <= b[1] && e[1] >= b[2] && e[1] <= b[3] && e[2] >= a && e[2] <= a + w, "surf_curve_inside"); if (!(e[0] >= b[0] && e[0] <= b[1] && e[1] >= b[2] && e[1] <= b[3] && e[2] >= a && e[2] <= a + w)) return; ld de = f(e[0], e[1], e[2]), t = 5e-6 * S.size; c.near(e[3], de, 1e-9 * S.size + 1e-10, "surf_curve_distance"); c.check(de <= ds + t, "surf_curve_minimum", num(double(de)) + " for " + num(double(ds)));
}

FAMILY("surf_curve", 60, 900) { search(c, [&] { surf_curve(c); }); }
FAMILY("coordinates", 400, 12000)
{
    using namespace gbs; Rng &r = c.rng; auto C = gentle<3>(r); auto b = C.c->bounds(); size_t k = r.i(0, 2); c.describe("coordinate " + num(k) + " " + C.d); c.nontrivial(mix(C.h + k)); ld lo = 1e300L, hi = -1e300L, dmax = 0; for (int i = 0; i <= 400; ++i) { auto D = C.R.ders(b[0] + (b[1] - b[0]) * i / 400.0L, 1); ld x = D[0].v[k]; lo = std::min(lo, x); hi = std::max(hi, x); dmax = std::max(dmax, std::fabs(D[1].v[k])); }
    auto M = max_coordinate(*C.c, k, 0.), m = min_coordinate(*C.c, k, 0.); ld t = 1e-6 * C.size + 2e-6 * dmax * (b[1] - b[0] + std::fabs(b[0])); auto x = [&](double u) { return C.R.value(u, 0).v[k]; }; c.check(M.first >= b[0] && M.first <= b[1] && m.first >= b[0] && m.first <= b[1], "coordinate_inside"); c.check(x(M.first) >= hi - t, "coordinate_max", num(double(x(M.first))) + " for " + num(double(hi))); c.check(x(m.first) <= lo + t, "coordinate_min", num(double(x(m.first))) + " for " + num(double(lo))); c.near(M.second, x(M.first), 1e-10 * C.size * 4, "coordinate_value"); c.near(m.second, x(m.first), 1e-10 * C.size * 4, "coordinate_value"); c.event(lo < 0 && hi > 0 ? "coordinate/both_signs" : hi < 0 ? "coordinate/negative" : "coordinate/positive"); c.check(throws([&] { max_coordinate(*C.c, 3, 0.); }) && throws([&] { min_coordinate(*C.c, 3, 0.); }) && throws([&] { solve_coordinate(*C.c, 3, 0.); }), "coordinate_index_accepted");
    // monotone coordinate: its equation is solved
    auto P = gen::points<double, 2>(r, 4, 1); for (int i = 0; i < 4; ++i) P[i][1] = i + r.uni(0, 0.6); double a = r.uni(-1, 1); BSCurve<double, 2> Q(P, {a, a, a, a, a + 2, a + 2, a + 2, a + 2}, 3); double ut = a + 2 * r.uni(0.05, 0.95), X = Q(ut)[1]; auto u = solve_coordinate(Q, 1, X, r.coin() ? std::optional<double>{} : std::optional<double>{std::min(std::max(ut + r.uni(-0.3, 0.3), a), a + 2)}); c.near(Q(u)[1], X, 1e-5, "coordinate_solved"); c.event("coordinate/solved");
}
FAMILY("lines", 300, 9000)
{
    using namespace gbs; Rng &r = c.rng; Pt<2> A{r.uni(-5, 5), r.uni(-5, 5)}, B{r.uni(-5, 5), r.uni(-5, 5)}, U, W; do { U = {r.uni(-1, 1), r.uni(-1, 1)}; W = {r.uni(-1, 1), r.uni(-1, 1)}; } while (std::fabs(U[0] * W[1] - U[1] * W[0]) < 0.05); Line<double, 2> L1(ax1<double, 2>{A, U}), L2(ax1<double, 2>{B, W}); c.describe("lines"); c.nontrivial(mix(uint64_t(int64_t(1e8 * A[0])) ^ uint64_t(int64_t(1e8 * W[1])))); auto e = extrema_curve_curve<double>(L1, L2); c.near_pt(L1(e[0]), V(L2(e[1])), 1e-9, "lines_meet"); c.event("lines/meet");
    // deviation of points
    std::vector<BSCurve<double, 2>> cs; int n = r.i(2, 5); for (int i = 0; i < n; ++i) { double y = 2. * i + r.uni(-0.3, 0.3); cs.push_back(BSCurve<double, 2>({{0, y}, {1, y + r.uni(-0.3, 0.3)}, {2, y}}, {0., 0., 0., 1., 1., 1.}, 2)); }
    auto &C = cs[0]; auto R = gen::R(C); std::vector<Pt<2>> pts; ld mx = 0; std::vector<ld> hs; int m = r.i(3, 12); for (int i = 0; i < m; ++i) { ld u = (i + 0.5L) / m; auto D = R.ders(u, 1); ld t = std::sqrt(D[1].v[0] * D[1].v[0] + D[1].v[1] * D[1].v[1]), h = r.uni(-0.2, 0.2); pts.push_back({double(D[0].v[0] - h * D[1].v[1] / t), double(D[0].v[1] + h * D[1].v[0] / t)}); mx = std::max(mx, std::fabs(h)); hs.push_back(h); } auto [um, dm, da] = dev_from_points(pts, C); ld a2 = 0; for (auto &x : hs) a2 += x * x / m; c.near(dm, mx * mx, 1e-5, "deviation_max"); c.near(da, a2, 1e-5, "deviation_average"); c.event("lines/deviation");
}
int main(int a, char **b) { return run(a, b); }
