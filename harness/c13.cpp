// C13: unifying, joining, connecting and extending keep geometry and continuity.
#include "gen.h"
#include <gbs/bsctools.h>
#include <gbs/bsstools.h>
using namespace vh;
using gbs::operator+;
using gbs::operator-;
using gbs::operator*;
using gbs::operator/;
template <size_t dim> using Pt = std::array<double, dim>;
static ld maxabs(const ref::Curve &R) { ld m = 0; for (auto &p : R.P) for (size_t k = 0; k < R.dim(); ++k) m = std::max(m, std::fabs(p[k] / (R.rational ? p.back() : 1))); return m + 1e-3; }
static ld maxabs(const ref::Surf &R, bool rat) { ld m = 0; for (auto &p : R.P) for (size_t k = 0; k + (rat ? 1 : 0) < p.size(); ++k) m = std::max(m, std::fabs(p[k] / (rat ? p.back() : 1))); return m + 1e-3; }
static ld wspan(const ref::Curve &R) { if (!R.rational) return 1; ld a = 1e300, b = 0; for (auto &p : R.P) { a = std::min(a, p.back()); b = std::max(b, p.back()); } return b / a; }
// parameters: ends, knots, inside
static std::vector<double> ups(Rng &r, const std::vector<double> &k, int n) { std::vector<double> u{k.front(), k.back()}; for (int i = 0; i < n; ++i) u.push_back(r.coin(0.3) ? k[r.i(0, int(k.size()) - 1)] : k.front() + (k.back() - k.front()) * r.u01()); return u; }
static std::map<double, size_t> mults(const std::vector<double> &k) { std::map<double, size_t> m; for (auto x : k) { auto it = m.lower_bound(x - 1e-12 * (std::fabs(k.front()) + std::fabs(k.back()))); if (it != m.end() && std::fabs(it->first - x) < 1e-11 * (k.back() - k.front())) ++it->second; else ++m[x]; } return m; }
// N over the image by the affine map of [a,b] on [A,B] is O
static void same_curve(Case &c, const ref::Curve &N, ld A, ld B, const ref::Curve &O, const std::vector<double> &us, const std::string &key, ld rel = 1e-10)
{
    auto [a, b] = O.bounds(); ld m = maxabs(O) * wspan(O);
    for (auto u : us) { ld w = A + (u - a) * (B - A) / (b - a); w = std::min(std::max(w, std::min(A, B)), std::max(A, B)); c.near_pt(N.value(w, 0).v, O.value(u, 0).v, rel * m, key, "u=" + num(u)); }
    for (int i = 0; i + 1 < int(us.size()); ++i)
    {   // strictly inside spans also first derivative
        ld u = (us[i] + 3 * us[i + 1]) / 4; bool kn = false; for (auto x : O.U) kn |= std::fabs(x - u) < 1e-6 * (b - a); if (kn) continue;
        auto d = O.ders(u, 1)[1]; auto n = N.ders(A + (u - a) * (B - A) / (b - a), 1)[1]; ld f = (b - a) / (B - A); for (size_t k = 0; k < d.v.size(); ++k) c.near(n.v[k], d.v[k] * f, 100 * rel * (d.b * std::fabs(f) + n.b), key + "_d1", "u=" + num(double(u)));
    }
}
template <size_t dim, bool rat> using BC = std::conditional_t<rat, gbs::BSCurveRational<double, dim>, gbs::BSCurve<double, dim>>;
template <size_t dim, bool rat> using BS = std::conditional_t<rat, gbs::BSSurfaceRational<double, dim>, gbs::BSSurface<double, dim>>;
template <size_t dim, bool rat> static BC<dim, rat> crv(Rng &r, int pmin = 1, int pmax = 5, int mm = -1) { int p = r.i(pmin, pmax); if constexpr (rat) return gen::rcurve<double, dim>(r, p, r.i(1, 4), mm, 1); else return gen::curve<double, dim>(r, p, r.i(1, 4), mm, 1); }

template <size_t dim, bool rat> static void unify(Case &c)
{
    using namespace gbs; Rng &r = c.rng; int n = r.i(1, 5); std::vector<BC<dim, rat>> L; std::string d; uint64_t h = 0;
    for (int i = 0; i < n; ++i)
    {
        L.push_back(crv<dim, rat>(r)); if (i && r.coin(0.4)) { auto k = L[0].knotsFlats(); size_t p = L[0].degree(); if (r.coin()) { double a = r.uni(-3, 3), b = std::pow(2., r.uni(-2, 2)); for (auto &x : k) x = a + b * x; } if (r.coin(0.6)) { /* shared knots of other multiplicities */ std::map<double, size_t> m; for (size_t j = p + 1; j + p + 1 < k.size(); ++j) ++m[k[j]]; std::vector<double> K(p + 1, k.front()); for (auto [x, q] : m) { q = r.i(1, int(p)); K.insert(K.end(), q, x); } K.insert(K.end(), p + 1, k.back()); k = K; c.event("unify/shared_knots"); } auto P = gen::points<double, dim>(r, k.size() - p - 1, 1); if constexpr (rat) { auto w = gen::weights<double>(r, P.size()); L.back() = BSCurveRational<double, dim>(P, k, w, p); } else L.back() = BSCurve<double, dim>(P, k, p); }
        d += gen::cdesc(L.back()) + "; "; h = mix(h ^ gen::chash(L.back()));
    }
    c.describe((rat ? "rational " : "") + d); c.nontrivial(h); c.event(rat ? "unify/rational" : "unify/polynomial");
    std::vector<ref::Curve> O; for (auto &x : L) O.push_back(gen::R(x)); size_t pm = 0; for (auto &x : L) pm = std::max(pm, x.degree()); bool same = true; for (auto &x : L) same = same && x.degree() == L[0].degree();
    int way = r.i(0, 2); std::vector<ref::Curve> N; auto L0 = L;
    auto after = [&](const std::vector<ref::Curve> &N, const std::string &w) {
        std::map<double, size_t> want; ld A = O[0].bounds()[0], B = O[0].bounds()[1];
        for (size_t i = 0; i < N.size(); ++i)
        {
            c.check(N[i].p == pm, w + "_degree"); c.check(N[i].U.size() == N[0].U.size() && N[i].P.size() == N[0].P.size(), w + "_sizes", num(N[i].U.size()) + " " + num(N[0].U.size())); if (N[i].U.size() == N[0].U.size()) for (size_t k = 0; k < N[0].U.size(); ++k) if (!c.near(N[i].U[k], N[0].U[k], 1e-11 * (B - A) + 1e-13, w + "_knots")) break;
            c.check(N[i].U.size() == N[i].P.size() + pm + 1, w + "_count"); std::vector<double> k(O[i].U.begin(), O[i].U.end()); same_curve(c, N[i], A, B, O[i], ups(r, k, 8), w + "_geometry");
        }
        // no more knots than needed: multiplicity of each knot is the largest one required
        std::vector<std::pair<ld, size_t>> all; for (size_t i = 0; i < O.size(); ++i) { std::vector<double> k(O[i].U.begin(), O[i].U.end()); for (auto [x, m] : mults(k)) all.push_back({A + (x - O[i].U.front()) * (B - A) / (O[i].U.back() - O[i].U.front()), m + pm - O[i].p}); }
        std::sort(all.begin(), all.end()); size_t cnt = 0; for (size_t i = 0; i < all.size();) { size_t j = i, m = 0; while (j < all.size() && all[j].first - all[i].first < 1e-9 * (B - A)) m = std::max(m, all[j++].second); cnt += m; i = j; }
        bool clear = true; for (size_t i = 1; i < all.size(); ++i) { ld g = all[i].first - all[i - 1].first; if (g > 1e-15 * (B - A) && g < 1e-7 * (B - A)) clear = false; } // near-equal knots may be kept apart
        if (clear) { c.check(N[0].U.size() == cnt, w + "_knot_count", num(N[0].U.size()) + " for " + num(cnt)); c.event("unify/knot_count"); } };
    if (way == 0)
    {
        std::vector<BSCurveInfo<double, dim + rat>> I; for (auto &x : L) I.push_back({x.poles(), x.knotsFlats(), x.degree()}); c.event("unify/info");
        auto as = [&](auto &I) { std::vector<ref::Curve> v; for (auto &[P, k, p] : I) v.push_back(ref::Curve(P, k, p, rat)); return v; };
        unify_degree(I); { auto v = as(I); for (size_t i = 0; i < v.size(); ++i) { c.check(v[i].p == pm, "degree_unified"); std::vector<double> k(O[i].U.begin(), O[i].U.end()); same_curve(c, v[i], O[i].bounds()[0], O[i].bounds()[1], O[i], ups(r, k, 5), "degree_geometry"); } }
        if (n > 1) { std::pair<points_vector<double, dim + rat>, std::vector<double>> x{std::get<0>(I[0]), std::get<1>(I[0])}, y{std::get<0>(I[1]), std::get<1>(I[1])}; change_bounds(x.second.front(), x.second.back(), y.second); auto y0 = y; unify_knots(x, y, pm); c.event("unify/pair"); c.check(y == y0, "pair_second_unchanged"); same_curve(c, ref::Curve(x.first, x.second, pm, rat), O[0].bounds()[0], O[0].bounds()[1], O[0], ups(r, L[0].knotsFlats(), 5), "pair_geometry"); for (auto [u, m] : mults(y.second)) { size_t k = 0; for (auto z : x.second) k += std::fabs(z - u) < 1e-9 * (x.second.back() - x.second.front()); c.check(k >= m, "pair_knots", "u=" + num(u)); } }
        unify_knots(I); N = as(I); after(N, "info");
    }
    else if (way == 1)
    {
        c.event("unify/container"); auto M = L; if (!same) c.check(throws([&] { unify_curves_knots(M); }), "different_degrees_rejected"); M = L;
        unify_curves_degree(M); for (size_t i = 0; i < M.size(); ++i) { c.check(M[i].degree() == pm, "degree_unified"); same_curve(c, gen::R(M[i]), O[i].bounds()[0], O[i].bounds()[1], O[i], ups(r, L[i].knotsFlats(), 5), "degree_geometry"); }
        unify_curves_knots(M); for (auto &x : M) N.push_back(gen::R(x)); after(N, "container");
    }
    else { c.event("unify/copy"); auto M = unified_curves(L); for (auto &x : M) N.push_back(gen::R(x)); after(N, "copy"); for (size_t i = 0; i < L.size(); ++i) c.check(L[i].poles() == L0[i].poles() && L[i].knotsFlats() == L0[i].knotsFlats(), "argument_unchanged"); }
}
FAMILY("unify", 600, 25000) { switch (c.rng.i(0, 5)) { case 0: unify<1, false>(c); break; case 1: unify<2, true>(c); break; case 2: unify<3, true>(c); break; case 3: unify<2, false>(c); break; default: unify<3, false>(c); } }

template <size_t dim, bool r1, bool r2> static void joined(Case &c)
{
    using namespace gbs; Rng &r = c.rng; auto a = crv<dim, r1>(r); auto b = crv<dim, r2>(r); bool meet = r.coin(0.75);
    if (meet) { auto P = b.poles(); auto e = a.end(); auto w = 1.; if constexpr (r2) w = P.front().back(); for (size_t k = 0; k < dim; ++k) P.front()[k] = e[k] * w; b = BC<dim, r2>(P, b.knotsFlats(), b.degree()); }
    c.describe(std::string(r1 ? "rational " : "") + gen::cdesc(a) + " + " + (r2 ? "rational " : "") + gen::cdesc(b) + (meet ? " meeting" : " apart")); c.nontrivial(gen::chash(a) ^ mix(gen::chash(b)));
    auto A = gen::R(a), B = gen::R(b); auto j = join(a, b); auto N = gen::R(j); static_assert(std::is_same_v<decltype(j), BC<dim, r1 || r2>>); c.event(r1 == r2 ? r1 ? "join/rational" : "join/polynomial" : "join/mixed");
    auto [a1, a2] = a.bounds(); auto [b1, b2] = b.bounds(); c.near(j.bounds()[0], a1, 0, "join_start"); c.near(j.bounds()[1], ld(a2) + b2 - b1, 1e-13 * (std::fabs(a1) + std::fabs(a2) + std::fabs(b1) + std::fabs(b2)), "join_end"); c.check(j.degree() == std::max(a.degree(), b.degree()), "join_degree");
    ld tolw = 1e-10 * std::max(wspan(A), wspan(B));
    if (meet) { same_curve(c, N, a1, a2, A, ups(r, a.knotsFlats(), 8), "join_first", tolw); same_curve(c, N, a2, ld(a2) + b2 - b1, B, ups(r, b.knotsFlats(), 8), "join_second", tolw); }
    else
    {   // the junction is the middle of the two ends; spans away from it are kept
        c.event("join/apart"); auto v = N.value(a2, 0).v; for (size_t k = 0; k < dim; ++k) c.near(v[k], (ld(a.end()[k]) + b.begin()[k]) / 2, 1e-11 * (maxabs(A) + maxabs(B)), "junction_is_middle");
        ld ua = A.U[A.U.size() - A.p - 2], ub = B.U[B.p + 1]; if (ua > a1 && a.degree() <= j.degree()) { ld u = (a1 + ua) / 2; c.near_pt(N.value(u, 0).v, A.value(u, 0).v, tolw * maxabs(A), "join_first_away"); } if (ub < b2) { ld u = (ub + b2) / 2; c.near_pt(N.value(u - b1 + a2, 0).v, B.value(u, 0).v, tolw * maxabs(B) * 10, "join_second_away"); }
    }
    auto pj = join(static_cast<const BSCurveGeneral<double, dim, r1> *>(&a), static_cast<const BSCurveGeneral<double, dim, r2> *>(&b)); c.check(pj->poles() == j.poles() && pj->knotsFlats() == j.knotsFlats(), "join_pointers");
}
FAMILY("join", 700, 30000) { switch (c.rng.i(0, 7)) { case 0: joined<2, true, true>(c); break; case 1: joined<3, true, false>(c); break; case 2: joined<3, false, true>(c); break; case 3: joined<3, true, true>(c); break; case 4: joined<1, false, false>(c); break; case 5: joined<2, false, false>(c); break; default: joined<3, false, false>(c); } }

template <class C, class A, class B> static void meets(Case &c, const C &n, const A &a, ld ua, const B &b, ld ub, size_t order, const std::string &key, ld s1 = 1, ld s2 = 1, ld third1 = 1, ld third2 = 1)
{
    auto N = gen::R(n); auto [u1, u2] = N.bounds(); auto d1 = N.ders(u1, order), d2 = N.ders(u2, order); auto e1 = a.ders(ua, order), e2 = b.ders(ub, order); ld L = u2 - u1, M = maxabs(a) + maxabs(b); for (size_t o = 0; o <= order; ++o) M = std::max({M, d1[o].b * std::pow(L, ld(o)), d2[o].b * std::pow(L, ld(o))});
    for (size_t o = 0; o <= order; ++o) { ld f1 = (o ? s1 : 1) * (o == 3 ? third1 : 1), f2 = (o ? s2 : 1) * (o == 3 ? third2 : 1); for (size_t k = 0; k < d1[o].v.size(); ++k) { c.near(d1[o].v[k], f1 * e1[o].v[k], 1e-8 * (M / std::pow(L, ld(o)) + e1[o].b), key + "_begin", "order " + num(o)); c.near(d2[o].v[k], f2 * e2[o].v[k], 1e-8 * (M / std::pow(L, ld(o)) + e2[o].b), key + "_end", "order " + num(o)); } }
}
template <size_t dim, bool rat> static void connect(Case &c)
{
    using namespace gbs; Rng &r = c.rng; auto a = crv<dim, rat>(r, 2, 5, 1); auto b = crv<dim, rat>(r, 2, 5, 1); if (r.coin(0.5)) { a.changeBounds(0, r.uni(0.5, 3)); b.changeBounds(-1, r.uni(0, 2)); }
    c.describe((rat ? "rational " : "") + gen::cdesc(a) + " to " + gen::cdesc(b)); c.nontrivial(gen::chash(a) ^ mix(gen::chash(b))); if (norm(a.end() - b.begin()) < 0.2) return;
    auto A = gen::R(a), B = gen::R(b); ld ua = a.bounds()[1], ub = b.bounds()[0];
    int k = r.i(0, 5);
    if (k == 0) { auto n = c2_connect(a, b); c.event("connect/c2"); meets(c, n, A, ua, B, ub, 2, "c2_connect"); }
    if (k == 1) { auto n = c3_connect(a, b); c.event("connect/c3"); meets(c, n, A, ua, B, ub, 3, "c3_connect"); }
    if (k == 2) { size_t o = r.i(0, 3); double du = r.uni(0.3, 3); size_t p = r.i(1, 7); if (p <= o) p = o + 1; auto n = cn_connect<double, dim>(a, b, du, p, o); c.event("connect/cn"); meets(c, n, A, ua, B, ub, o, "cn_connect"); c.near(n.bounds()[0], 0, 0, "cn_bounds"); c.near(n.bounds()[1], du, 1e-14 * du, "cn_bounds"); c.check(n.degree() == std::min<size_t>(p, 2 * o + 1), "cn_degree"); }
    if (k == 3) { double t1 = r.uni(-1, 2), t2 = r.uni(-1, 2); auto n = c2_connect<double, dim>(a, b, t1, t2); c.event("connect/c2_third"); meets(c, n, A, ua, B, ub, 3, "c2_connect_third", 1, 1, t1, t2); }
    if (k == 4) { double e = r.uni(0.2, 1.5); auto n = c2_connect(a, b, e); c.event("connect/c2_ellipse"); meets(c, n, A, ua, B, ub, 2, "c2_connect_ellipse"); }
    if constexpr (dim == 2) if (k == 5)
    {
        if (r.coin()) { double e = r.uni(0.2, 1.5); auto n = c3_connect<double, 2>(a, b, e); c.event("connect/c3_ellipse"); meets(c, n, A, ua, B, ub, 3, "c3_connect_ellipse"); }
        else { double e = r.uni(0.2, 1.5), x = a.bounds()[0] + r.u01() * (a.bounds()[1] - a.bounds()[0]), y = b.bounds()[0] + r.u01() * (b.bounds()[1] - b.bounds()[0]); bool s = r.coin(), t = r.coin(); if (norm(a(x) - b(y)) < 0.2) return; auto n = c2_connect<double>(a, b, x, y, s, t, e); c.event("connect/c2_sides"); meets(c, n, A, x, B, y, 2, "c2_connect_sides", s ? 1 : -1, t ? 1 : -1); }
    }
}
FAMILY("connect", 500, 20000) { switch (c.rng.i(0, 3)) { case 0: connect<2, false>(c); break; case 1: connect<2, true>(c); break; case 2: connect<3, true>(c); break; default: connect<3, false>(c); } }

template <size_t dim, bool rat> static void extend(Case &c)
{
    using namespace gbs; Rng &r = c.rng; auto a = crv<dim, rat>(r, 1, 5, r.coin() ? 1 : -1); size_t p = a.degree(); auto A = gen::R(a); auto [a1, a2] = a.bounds(); std::optional<size_t> mc; if (r.coin()) mc = size_t(r.i(0, int(p) + 1)); bool nat = r.coin(), at_end = r.coin(0.6); 
    c.describe((rat ? "rational " : "") + gen::cdesc(a) + " max_cont " + (mc ? num(*mc) : "-") + (nat ? " natural" : "") + (at_end ? " end" : " start")); c.nontrivial(gen::chash(a)); size_t cont = std::min(p - 1, mc.value_or(p));
    if (norm(a.end(1)) < 0.05 || norm(a.begin(1)) < 0.05) return;
    ld M = maxabs(A) * wspan(A); auto unit = [](auto v) { return v / norm(v); };
    auto near_der = [&](const ref::VB &x, const ref::VB &y, ld f, const std::string &key, const std::string &w) { for (size_t k = 0; k < dim; ++k) c.near(x.v[k], f * y.v[k], 1e-8 * (x.b + y.b), key, w); };
    int k = r.i(0, 2); Pt<dim> target;
    if (k == 0)
    {   // extension alone, from any position
        double u = r.coin() ? a2 : a1 + (a2 - a1) * r.uni(0.1, 1), un = u + r.uni(0.1, 2) * (a2 - a1); bool kn = false; for (auto x : a.knotsFlats()) kn |= u < a2 && std::fabs(x - u) < 1e-6 * (a2 - a1); if (kn) return; auto v = a(u); for (auto &x : v) x += r.uni(-1, 1);
        bool given = r.coin(); if (!given && norm(a(u, 1)) < 0.05) return; if (!given && norm(v - a.end()) < 0.05) return; auto e = given ? extention_to_point(a, v, u, un, nat, mc) : extention_to_point(a, v, u, nat, mc); auto E = gen::R(e); c.event("extend/piece"); c.near(e.bounds()[0], u, 0, "piece_start"); if (given) c.near(e.bounds()[1], un, 1e-14 * std::fabs(un), "piece_end"); else c.check(e.bounds()[1] > u, "piece_end");
        ld L = e.bounds()[1] - u; auto d = E.ders(u, cont), o = A.ders(u, cont); ld K = maxabs(E) * wspan(E); for (size_t i = 0; i <= cont; ++i) for (size_t q = 0; q < dim; ++q) c.near(d[i].v[q], o[i].v[q], 1e-8 * (d[i].b + o[i].b + K / std::pow(L, ld(i))), "piece_continuity", "order " + num(i));
        c.near_pt(E.value(e.bounds()[1], 0).v, v, 1e-9 * (K + M), "piece_reaches"); if (nat && p > 2) { auto z = E.ders(e.bounds()[1], 2)[2]; c.event("extend/natural"); for (size_t q = 0; q < dim; ++q) c.near(z.v[q], 0, 1e-8 * (z.b + K / (L * L)), "natural_end"); }
        return;
    }
    BC<dim, rat> e = a;
    if (k == 1) { target = at_end ? a.end() : a.begin(); do for (auto &x : target) x += r.uni(-1, 1); while (norm(target - (at_end ? a.end() : a.begin())) < 0.1); if (at_end && r.coin()) e = extended_to_point(a, target, nat, mc); else e = extended_to_point(a, target, at_end, nat, mc); c.event("extend/point"); }
    else
    {
        bool rel = r.coin(0.4); double l = r.uni(0.1, 1.5); e = extended(a, l, at_end, rel, nat, mc); c.event(rel ? "extend/relative" : "extend/length"); ld len = l;
        if (rel) { len = 0; auto kk = a.knotsFlats(); for (size_t i = 0; i + 1 < kk.size(); ++i) if (kk[i + 1] > kk[i]) for (int s = 0; s < 400; ++s) { ld h = (ld(kk[i + 1]) - kk[i]) / 400, u = kk[i] + h * (s + 0.5L); auto t = A.ders(u, 1)[1].v; ld q = 0; for (auto x : t) q += x * x; len += std::sqrt(q) * h; } len *= l; }
        auto t = at_end ? a.end(1) : a.begin(1) * -1.; t = unit(t); target = (at_end ? a.end() : a.begin()) + t * double(len); if (rel) { auto tip = at_end ? e.end() : e.begin(); c.near_pt(tip, target, 2e-2 * len, "relative_length"); target = tip; }
    }
    auto E = gen::R(e); auto [e1, e2] = e.bounds(); ld K = maxabs(E) * std::max(wspan(E), wspan(A));
    c.near(at_end ? e1 : e2, at_end ? a1 : a2, 1e-12 * (std::fabs(a1) + std::fabs(a2) + std::fabs(e1) + std::fabs(e2)), "kept_bound"); c.check(at_end ? e2 > a2 : e1 < a1, "extended_bound"); c.near_pt(at_end ? E.value(e2, 0).v : E.value(e1, 0).v, target, 1e-9 * K, "reaches");
    same_curve(c, E, a1, a2, A, ups(r, a.knotsFlats(), 8), "original_part", 1e-10 * wspan(A));
    // continuity at the junction, from the extension side
    ld un = at_end ? ld(a2) : ld(a1), L = at_end ? e2 - a2 : a1 - e1; auto o = A.ders(un, cont); 
    if (at_end) { // evaluate the extension side by restricting the knots right of the junction (reference is right continuous)
        ld x = un; for (auto y : E.U) if (std::fabs(y - un) < 1e-12 * (std::fabs(ld(a1)) + std::fabs(ld(a2)) + (e2 - e1))) x = std::max(x, y); auto d = E.ders(x, cont); for (size_t i = 0; i <= cont; ++i) for (size_t q = 0; q < dim; ++q) c.near(d[i].v[q], o[i].v[q], 1e-7 * (d[i].b + o[i].b + K / std::pow(L, ld(i))), "junction_continuity", "order " + num(i)); }
    else { // mirrored
        ref::Curve V = E; std::reverse(V.P.begin(), V.P.end()); std::reverse(V.U.begin(), V.U.end()); for (auto &x : V.U) x = -x; ld x = -un; for (auto y : V.U) if (std::fabs(y + un) < 1e-12 * (std::fabs(ld(a1)) + std::fabs(ld(a2)) + (e2 - e1))) x = std::max(x, y); auto d = V.ders(x, cont); for (size_t i = 0; i <= cont; ++i) for (size_t q = 0; q < dim; ++q) c.near(d[i].v[q], (i % 2 ? -1 : 1) * o[i].v[q], 1e-7 * (d[i].b + o[i].b + K / std::pow(L, ld(i))), "junction_continuity", "start order " + num(i)); }
    c.event("extend/junctions"); (void)near_der;
}
FAMILY("extend", 800, 30000) { switch (c.rng.i(0, 4)) { case 0: extend<2, true>(c); break; case 1: extend<3, true>(c); break; case 2: extend<2, false>(c); break; case 3: extend<1, false>(c); break; default: extend<3, false>(c); } }

// ---- surfaces
template <size_t dim, bool rat> static BS<dim, rat> srf(Rng &r, int p, int q, int mm = -1) { if constexpr (rat) return gen::rsurf<double, dim>(r, p, q, r.i(1, 3), r.i(1, 3), mm, 1); else return gen::surf<double, dim>(r, p, q, r.i(1, 3), r.i(1, 3), mm, 1); }
// N over the image of the domain of O is O
static void same_surf(Case &c, const ref::Surf &N, std::array<ld, 4> D, const ref::Surf &O, std::array<ld, 4> b, const std::vector<double> &us, const std::vector<double> &vs, ld tol, const std::string &key)
{
    for (auto u : us) for (auto v : vs) { auto m = [](ld x, ld a, ld b, ld A, ld B) { ld y = A + (x - a) * (B - A) / (b - a); return std::min(std::max(y, std::min(A, B)), std::max(A, B)); }; if (!c.near_pt(N.ders(m(u, b[0], b[1], D[0], D[1]), m(v, b[2], b[3], D[2], D[3]), 0, 0)[0][0].v, O.ders(u, v, 0, 0)[0][0].v, tol, key, "u=" + num(u) + " v=" + num(v))) return; }
}
template <size_t dim, bool rat> static void surf_join(Case &c)
{
    using namespace gbs; Rng &r = c.rng; int p = r.i(1, 4), q = r.i(1, 3); auto a = srf<dim, rat>(r, p, q); auto [u1, u2, v1, v2] = a.bounds(); auto RA = gen::R(a); std::array<ld, 4> ba{u1, u2, v1, v2}; ld M = maxabs(RA, rat); auto us = ups(r, a.knotsFlatsU(), 4), vs = ups(r, a.knotsFlatsV(), 4);
    c.describe((rat ? "rational " : "") + gen::sdesc(a)); c.nontrivial(gen::shash(a));
    if (r.coin(0.4))
    {   // split then join
        bool du = r.coin(); double lo = du ? u1 : v1, hi = du ? u2 : v2, t = lo + (hi - lo) * r.uni(0.05, 0.95); if (r.coin(0.3)) { auto &k = du ? a.knotsFlatsU() : a.knotsFlatsV(); t = k[r.i(0, int(k.size()) - 1)]; if (t <= lo || t >= hi) return; }
        auto [s1, s2] = du ? split_u(a, t) : split_v(a, t); c.event("surf/split"); auto R1 = gen::R(s1), R2 = gen::R(s2); auto b1 = s1.bounds(), b2 = s2.bounds();
        std::array<double, 4> w1{u1, du ? t : u2, v1, du ? v2 : t}, w2{du ? t : u1, u2, du ? v1 : t, v2}; for (int i = 0; i < 4; ++i) { c.near(b1[i], w1[i], 1e-12, "split_bounds"); c.near(b2[i], w2[i], 1e-12, "split_bounds"); }
        for (auto &x : {0.05, 0.5, 0.95, 0., 1.}) for (auto &y : {0.1, 0.6, 0., 1.}) { for (int s = 0; s < 2; ++s) { auto &w = s ? w2 : w1; double u = w[0] + x * (w[1] - w[0]), v = w[2] + y * (w[3] - w[2]); c.near_pt((s ? s2 : s1)(u, v), RA.ders(u, v, 0, 0)[0][0].v, 1e-10 * M * 100, "split_geometry"); } }
        if (du) { auto j = join(s1, s2); auto b = j.bounds(); c.event("surf/rejoined"); for (int i = 0; i < 4; ++i) c.near(b[i], ba[i], 1e-12, "rejoin_bounds"); same_surf(c, gen::R(j), ba, RA, ba, us, vs, 1e-9 * M * (rat ? 20 : 1), "rejoin_geometry"); }
        return;
    }
    // second surface with the same v knots, its first row is the last row of the first (weights up to a factor)
    int p2 = r.i(1, 4); auto ku2 = gen::knots<double>(r, p2, r.i(1, 3)); size_t n1 = a.nPolesU(), n2 = ku2.size() - p2 - 1, nv = a.nPolesV(); double f = rat && r.coin() ? r.uni(0.3, 3) : 1; auto P = gen::points<double, dim + rat>(r, n2 * nv, 1); if constexpr (rat) for (auto &x : P) { double w = r.uni(0.5, 2); for (auto &y : x) y *= w; x.back() = w; }
    for (size_t j = 0; j < nv; ++j) { P[j * n2] = a.poles()[j * n1 + n1 - 1]; for (auto &x : P[j * n2]) x *= f; }
    BS<dim, rat> b(P, ku2, a.knotsFlatsV(), p2, q); auto RB = gen::R(b); auto bb = b.bounds(); auto j = join(a, b); c.event(rat ? f == 1 ? "surf/join_rational" : "surf/join_rational_scaled" : "surf/join"); auto RJ = gen::R(j); auto bj = j.bounds(); ld K = 1e-10 * (M + maxabs(RB, rat)) * (rat ? 50 : 1);
    c.check(j.degreeU() == std::max(a.degreeU(), b.degreeU()) && j.degreeV() == a.degreeV(), "surf_join_degree"); c.near(bj[0], u1, 0, "surf_join_bounds"); c.near(bj[1], ld(u2) + bb[1] - bb[0], 1e-12 * (std::fabs(u2) + std::fabs(bb[0]) + std::fabs(bb[1])), "surf_join_bounds");
    same_surf(c, RJ, ba, RA, ba, us, vs, K, "surf_join_first"); same_surf(c, RJ, {u2, bj[1], v1, v2}, RB, {bb[0], bb[1], v1, v2}, ups(r, ku2, 5), vs, K, "surf_join_second");
    { auto kv = gen::knots<double>(r, q, r.i(1, 4)); if (kv != a.knotsFlatsV()) { BS<dim, rat> z(gen::points<double, dim + rat>(r, n2 * (kv.size() - q - 1), 1), ku2, kv, p2, q); double dmax = 0; for (size_t i = 0; i < kv.size() && i < a.knotsFlatsV().size(); ++i) dmax = std::max(dmax, std::fabs(kv[i] - a.knotsFlatsV()[i])); if (kv.size() != a.knotsFlatsV().size() || dmax > 1e-6) c.check(throws([&] { join(a, z); }), "incompatible_rejected"); } }
}
FAMILY("surface_join", 300, 12000) { switch (c.rng.i(0, 2)) { case 0: surf_join<3, true>(c); break; case 1: surf_join<2, false>(c); break; default: surf_join<3, false>(c); } }

FAMILY("surface_unify", 200, 8000)
{
    using namespace gbs; Rng &r = c.rng; int p = r.i(1, 4), q = r.i(1, 4), n = r.i(1, 3); std::vector<BSSurface<double, 3>> L; std::string d; uint64_t h = 0; for (int i = 0; i < n; ++i) { L.push_back(srf<3, false>(r, p, q)); d += gen::sdesc(L.back()) + "; "; h = mix(h ^ gen::shash(L.back())); } c.describe(d); c.nontrivial(h);
    std::vector<BSSurfaceInfo<double, 3>> I; for (auto &s : L) I.push_back(s.info()); unify_knots(I); c.event("surf/unify"); auto b0 = L[0].bounds();
    for (int i = 0; i < n; ++i)
    {
        auto &[P, ku, kv, pu, pv] = I[i]; auto &[P0, ku0, kv0, pu0, pv0] = I[0]; c.check(pu == size_t(p) && pv == size_t(q), "surf_unify_degree"); if (!c.check(ku.size() == ku0.size() && kv.size() == kv0.size(), "surf_unify_sizes")) return;
        for (size_t k = 0; k < ku.size(); ++k) c.near(ku[k], ku0[k], 1e-11 * (b0[1] - b0[0]) + 1e-13, "surf_unify_knots"); for (size_t k = 0; k < kv.size(); ++k) c.near(kv[k], kv0[k], 1e-11 * (b0[3] - b0[2]) + 1e-13, "surf_unify_knots");
        std::vector<std::array<double, 3>> F; for (auto &row : P) F.insert(F.end(), row.begin(), row.end()); if (!c.check(P.size() == kv.size() - q - 1 && F.size() == P.size() * (ku.size() - p - 1), "surf_unify_counts")) return;
        ref::Surf N(F, ku, kv, p, q, false); auto O = gen::R(L[i]); auto b = L[i].bounds(); same_surf(c, N, {b0[0], b0[1], b0[2], b0[3]}, O, {b[0], b[1], b[2], b[3]}, ups(r, L[i].knotsFlatsU(), 4), ups(r, L[i].knotsFlatsV(), 4), 1e-10 * maxabs(O, false) * 10, "surf_unify_geometry");
    }
}

template <bool rat> static void surf_extend(Case &c)
{
    using namespace gbs; constexpr size_t dim = 3; Rng &r = c.rng; int p = r.i(1, 4), q = r.i(1, 3); bool ruled = r.coin(0.5);
    // nearly flat patch so that the tangents at the borders are never null
    auto ku = gen::knots<double>(r, p, r.i(1, 3), 1), kv = gen::knots<double>(r, q, r.i(1, 3), 1); size_t nu = ku.size() - p - 1, nv = kv.size() - q - 1; std::vector<std::array<double, 3 + rat>> P; std::vector<double> gu, gz; for (size_t i = 0; i < nu; ++i) { double s = 0; for (int k = 1; k <= p; ++k) s += ku[i + k] / p; gu.push_back((s - ku.front()) / (ku.back() - ku.front())); gz.push_back(r.uni(-0.2, 0.2)); } std::vector<double> wu(nu), wv(nv); for (auto &x : wu) x = r.uni(0.5, 2); for (auto &x : wv) x = ruled ? 1 : r.uni(0.7, 1.4);
    for (size_t j = 0; j < nv; ++j) { double s = 0; for (int k = 1; k <= q; ++k) s += kv[j + k] / q; double gv = (s - kv.front()) / (kv.back() - kv.front()); for (size_t i = 0; i < nu; ++i) { std::array<double, 3 + rat> x{}; x[0] = 2 * gu[i] + (ruled ? 0 : r.uni(-0.05, 0.05)); x[1] = gv + (ruled ? 0 : r.uni(-0.02, 0.02)); x[2] = ruled ? gz[i] + 0.5 * gv : gz[i] + r.uni(-0.1, 0.1); if constexpr (rat) { double w = wu[i] * wv[j]; for (auto &y : x) y *= w; x[3] = w; } P.push_back(x); } }
    BS<3, rat> a(P, ku, kv, p, q); SurfaceBound loc = std::array{SurfaceBound::U_START, SurfaceBound::U_END, SurfaceBound::V_START, SurfaceBound::V_END}[size_t(r.i(0, 3))]; if (ruled && r.coin()) loc = SurfaceBound::U_END; double l = r.uni(0.1, 1); bool nat = r.coin(); std::optional<size_t> mc; if (r.coin()) mc = size_t(r.i(1, 3));
    c.describe((rat ? "rational " : "") + gen::sdesc(a) + " loc " + num(int(loc)) + " l " + num(l) + (nat ? " natural" : "") + (mc ? " cont " + num(*mc) : "") + (ruled ? " ruled" : "")); c.nontrivial(gen::shash(a));
    bool inV = loc == SurfaceBound::V_START || loc == SurfaceBound::V_END, start = loc == SurfaceBound::U_START || loc == SurfaceBound::V_START; int D = inV ? q : p; auto e = loc == SurfaceBound::U_END && r.coin() ? extended(a, l, nat, mc) : extended(a, l, loc, nat, mc); c.event(std::string("surf/extend_") + (inV ? "v_" : "u_") + (start ? "start" : "end"));
    auto RA = gen::R(a), RE = gen::R(e); auto ab = a.bounds(), eb = e.bounds(); ld M = maxabs(RA, rat) + maxabs(RE, rat);
    int i0 = inV ? 2 : 0, o0 = inV ? 0 : 2; ld ext = (ld(eb[i0 + 1]) - eb[i0]) - (ld(ab[i0 + 1]) - ab[i0]); c.check(ext > 0, "extension_positive"); c.near(eb[o0], ab[o0], 1e-12, "other_bounds"); c.near(eb[o0 + 1], ab[o0 + 1], 1e-12, "other_bounds");
    // original part: at the end the extension is on, the parameters are kept or shifted
    std::array<ld, 4> dom{eb[0], eb[1], eb[2], eb[3]}; if (start) dom[i0] = eb[i0] + ext; else dom[i0 + 1] = eb[i0 + 1] - ext; std::array<ld, 4> AB{ab[0], ab[1], ab[2], ab[3]};
    auto us = ups(r, ku, 4), vs = ups(r, kv, 4); same_surf(c, RE, dom, RA, AB, us, vs, 1e-9 * M, "surf_original_part");
    // reach: along the border tangent, by l; exact at the corners and for translational patches
    ld tb = start ? ab[i0] : ab[i0 + 1], te = start ? eb[i0] : eb[i0 + 1], tj = start ? dom[i0] : dom[i0 + 1]; ld sg = start ? -1 : 1;
    std::vector<ld> ts{ab[o0], ab[o0 + 1]}; if (ruled && !inV) for (int k = 0; k < 4; ++k) ts.push_back(ab[o0] + (ab[o0 + 1] - ab[o0]) * r.u01());
    for (auto t : ts) { auto dd = inV ? RA.ders(t, tb, 0, 1) : RA.ders(tb, t, 1, 0); auto v0 = dd[0][0].v, d = inV ? dd[0][1].v : dd[1][0].v; ld n = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]); std::vector<ld> w(3); for (int k = 0; k < 3; ++k) w[k] = v0[k] + sg * l * d[k] / n; auto g = inV ? RE.ders(t, te, 0, 0) : RE.ders(te, t, 0, 0); c.near_pt(g[0][0].v, w, 1e-8 * M, "surf_reaches", "t=" + num(double(t))); c.event("surf/reach"); }
    // continuity at the junction seen from the extension
    size_t cont = std::min<size_t>(D - 1, mc.value_or(D)); ld x = tj + sg * 1e-9 * ext; 
    for (int k = 0; k < 5; ++k) { ld t = ab[o0] + (ab[o0 + 1] - ab[o0]) * r.u01(); size_t m = std::min<size_t>(cont, 2); auto A1 = inV ? RA.ders(t, tb, 0, m) : RA.ders(tb, t, m, 0); auto E1 = inV ? RE.ders(t, x, 0, m + 1) : RE.ders(x, t, m + 1, 0); for (size_t o = 0; o <= m; ++o) { auto &av = inV ? A1[0][o] : A1[o][0]; auto &ev = inV ? E1[0][o] : E1[o][0]; auto &en = inV ? E1[0][o + 1] : E1[o + 1][0]; for (int q2 = 0; q2 < 3; ++q2) c.near(ev.v[q2], av.v[q2], 1e-7 * (av.b + ev.b) + 2e-9 * ext * en.b, "surf_junction_continuity", "order " + num(o)); } }
    // extension to a given border curve
    if (loc == SurfaceBound::U_END && r.coin())
    {
        std::vector<std::array<double, 3 + rat>> Q; for (size_t j = 0; j < nv; ++j) { auto x = P[j * nu + nu - 1]; double w = 1; if constexpr (rat) w = x[3]; for (int k = 0; k < 3; ++k) x[k] = (x[k] / w + (k == 0 ? 0.7 : r.uni(-0.1, 0.1))) * (rat ? 1 : w); if constexpr (rat) { double w2 = r.coin() ? 1 : r.uni(0.6, 1.6); for (int k = 0; k < 3; ++k) x[k] *= w2; x[3] = w2; } Q.push_back(x); }
        BC<3, rat> B(Q, kv, q); auto g = extended_to_curve(a, B, nat, mc); auto RG = gen::R(g); auto RB = gen::R(B); c.event("surf/to_curve"); ld tu = g.bounds()[1]; for (auto v : vs) c.near_pt(RG.ders(tu, v, 0, 0)[0][0].v, RB.value(v, 0).v, 1e-8 * M * 4, "reaches_curve"); same_surf(c, RG, AB, RA, AB, us, vs, 1e-9 * M * 4, "to_curve_original_part");
        auto h = extention_to_curve(a, B, nat, mc); auto RH = gen::R(h); c.near(h.bounds()[0], ab[1], 1e-12, "piece_bounds"); for (auto v : vs) { c.near_pt(RH.ders(h.bounds()[0], v, 0, 0)[0][0].v, RA.ders(ab[1], v, 0, 0)[0][0].v, 1e-8 * M * 4, "piece_border"); auto d1 = RH.ders(h.bounds()[0], v, 1, 0)[1][0], d0 = RA.ders(ab[1], v, 1, 0)[1][0]; if (cont >= 1) for (int k = 0; k < 3; ++k) c.near(d1.v[k], d0.v[k], 1e-7 * (d1.b + d0.b), "piece_tangent"); }
    }
}
FAMILY("surface_extend", 300, 12000) { if (c.rng.coin(0.35)) surf_extend<true>(c); else surf_extend<false>(c); }
int main(int a, char **b) { return run(a, b); }
