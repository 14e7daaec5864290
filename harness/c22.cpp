// C22: what is handed to the CAD kernel is the same geometry.
#include "gen.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs-occt/curvesbuild.h>
#include <gbs-occt/surfacesbuild.h>
#include <gbs-occt/containers.h>
#include <Standard_Failure.hxx>
using namespace vh;
template <class V> static ld nrm(const V &v) { ld s = 0; for (auto x : v) s += ld(x) * x; return std::sqrt(s); }
static ld nrm(ld x) { return std::fabs(x); }
template <class P> static std::vector<ld> co(const P &p) { if constexpr (requires { p.Z(); }) return {p.X(), p.Y(), p.Z()}; else return {p.X(), p.Y()}; }
static void merged(const std::vector<double> &U, std::vector<double> &k, std::vector<int> &m) { for (auto u : U) if (k.empty() || u - k.back() > 1e-9) { k.push_back(u); m.push_back(1); } else ++m.back(); }
template <class H, class C> static void compare(Case &c, const H &h, const C &crv, const std::vector<double> &w, size_t dim, bool rat, const std::string &what)
{
    auto &r = c.rng; auto R = gen::R(crv); auto U = crv.knotsFlats(); size_t p = crv.degree(); std::vector<double> k; std::vector<int> m; merged(U, k, m); size_t n = crv.poles().size();
    if (!c.check(size_t(h->Degree()) == p && size_t(h->NbPoles()) == n && size_t(h->NbKnots()) == k.size(), what + "_structure")) return; for (size_t i = 0; i < k.size(); ++i) { c.check(h->Knot(i + 1) == k[i], what + "_knot", num(i)); c.check(h->Multiplicity(i + 1) == m[i], what + "_multiplicity", num(i)); }
    for (size_t i = 0; i < n; ++i) { auto P = crv.poles()[i]; std::vector<ld> q(dim); for (size_t d = 0; d < dim; ++d) q[d] = rat ? ld(P[d]) / P[dim] : ld(P[d]); c.near_pt(co(h->Pole(i + 1)), q, 1e-13L * (1 + nrm(q)), what + "_pole", num(i)); /* weights count up to a common factor: the kernel drops equal ones */ if (rat) c.near(ld(h->Weight(i + 1)) * w[0], ld(w[i]) * h->Weight(1), 1e-13L * w[i] * h->Weight(1), what + "_weight", num(i)); else c.check(h->Weight(i + 1) == 1, what + "_weight", num(i)); }
    c.near(h->FirstParameter(), U.front(), 0, what + "_first"); c.near(h->LastParameter(), U.back(), 0, what + "_last");
    for (size_t i = 0; i + 1 < k.size(); ++i) for (int s = 0; s < 3; ++s) { double u = k[i] + (k[i + 1] - k[i]) * r.uni(0.02, 0.98); auto D = R.ders(u, 3); c.near_pt(co(h->Value(u)), D[0].v, 1e-10L * (1 + nrm(D[0].b)), what + "_value", num(u)); for (size_t d = 1; d <= std::min<size_t>(3, p); ++d) c.near_pt(co(h->DN(u, d)), D[d].v, 1e-9L * (1 + nrm(D[d].b)) * (rat ? 20 : 1) * (p > 8 ? 100 : 1), what + "_derivative", num(u) + " d " + num(d)); c.event(what + "/points"); }
    for (size_t i = 0; i < k.size(); ++i) if (size_t(m[i]) <= p || i == 0 || i + 1 == k.size()) { auto V = R.value(k[i], 0); c.near_pt(co(h->Value(k[i])), V.v, 1e-10L * (1 + nrm(V.b)), what + "_knot_value", num(k[i])); }
    c.event(what);
}
template <size_t dim> static void curve_case(Case &c)
{
    auto &r = c.rng; size_t p = r.coin(0.1) ? r.i(9, 16) : r.i(1, 8); auto crv = gen::curve<double, dim>(r, p, r.i(1, 7), int(p)); c.nontrivial(gen::chash(crv)); bool rat = r.coin(); c.describe(std::string(rat ? "rational " : "") + "dim " + num(dim) + " " + gen::cdesc(crv));
    try {
        if (rat) { auto w = gen::weights<double>(r, crv.poles().size()); gbs::BSCurveRational<double, dim> q(crv.poles(), crv.knotsFlats(), w, p); std::vector<double> ww; for (auto &P : q.poles()) ww.push_back(P[dim]); auto h = occt_utils::NURBSplineCurve(q); compare(c, h, q, ww, dim, true, dim == 2 ? "rational2" : "rational3");
            auto [P, W] = occt_utils::extract_weights(q.poles()); c.check(P.size() == ww.size() && W == ww, "extracted_weights"); for (size_t i = 0; i < P.size(); ++i) c.near_pt(P[i], crv.poles()[i], 1e-13L * (1 + nrm(crv.poles()[i])), "extracted_poles");
            if constexpr (dim == 3) { std::vector<double> k; std::vector<int> m; merged(q.knotsFlats(), k, m); compare(c, occt_utils::BSplineCurve(q.poles(), k, m, int(p)), q, ww, 3, true, "weighted4"); } }
        else { auto h = occt_utils::BSplineCurve(crv); compare(c, h, crv, {}, dim, false, dim == 2 ? "curve2" : "curve3"); std::vector<double> k; std::vector<int> m; merged(crv.knotsFlats(), k, m); std::conditional_t<dim == 2, std::vector<gp_Pnt2d>, std::vector<gp_Pnt>> g; for (auto &P : crv.poles()) g.push_back(occt_utils::point(P)); compare(c, occt_utils::BSplineCurve(g, k, m, int(p)), crv, {}, dim, false, dim == 2 ? "points2" : "points3"); }
    } catch (const Standard_Failure &e) { c.check(false, "kernel_refused", e.DynamicType()->Name()); }
}
FAMILY("curves", 500, 16000) { if (c.rng.coin()) curve_case<2>(c); else curve_case<3>(c); }
FAMILY("surfaces", 250, 8000)
{
    auto &r = c.rng; size_t p = r.i(1, 6), q = r.i(1, 6); int su = r.i(1, 5), sv = r.i(1, 5); gbs::BSSurface<double, 3> s = [&] { auto U = gen::knots<double>(r, p, su, int(p)), V = gen::knots<double>(r, q, sv, int(q)); return gbs::BSSurface<double, 3>(gen::points<double, 3>(r, (U.size() - p - 1) * (V.size() - q - 1)), U, V, p, q); }(); c.describe("surface " + gen::sdesc(s)); c.nontrivial(gen::shash(s));
    try {
        auto h = occt_utils::BSplineSurface(s); auto R = gen::R(s); std::vector<double> ku, kv; std::vector<int> mu, mv; merged(s.knotsFlatsU(), ku, mu); merged(s.knotsFlatsV(), kv, mv); size_t nu = s.nPolesU(), nv = s.nPolesV();
        if (!c.check(size_t(h->UDegree()) == p && size_t(h->VDegree()) == q && size_t(h->NbUPoles()) == nu && size_t(h->NbVPoles()) == nv && size_t(h->NbUKnots()) == ku.size() && size_t(h->NbVKnots()) == kv.size(), "surface_structure")) return;
        for (size_t i = 0; i < ku.size(); ++i) c.check(h->UKnot(i + 1) == ku[i] && h->UMultiplicity(i + 1) == mu[i], "surface_u_knots"); for (size_t i = 0; i < kv.size(); ++i) c.check(h->VKnot(i + 1) == kv[i] && h->VMultiplicity(i + 1) == mv[i], "surface_v_knots");
        for (size_t j = 0; j < nv; ++j) for (size_t i = 0; i < nu; ++i) { c.near_pt(co(h->Pole(i + 1, j + 1)), s.poles()[i + nu * j], 0, "surface_pole", num(i) + "," + num(j)); c.check(h->Weight(i + 1, j + 1) == 1, "surface_weight"); }
        for (size_t a = 0; a + 1 < ku.size(); ++a) for (size_t b = 0; b + 1 < kv.size(); ++b) { double u = ku[a] + (ku[a + 1] - ku[a]) * r.uni(0.02, 0.98), v = kv[b] + (kv[b + 1] - kv[b]) * r.uni(0.02, 0.98); auto D = R.ders(u, v, 2, 2); c.near_pt(co(h->Value(u, v)), D[0][0].v, 1e-10L * (1 + nrm(D[0][0].b)), "surface_value"); for (int du = 0; du <= std::min<int>(2, p); ++du) for (int dv = 0; dv <= std::min<int>(2, q); ++dv) if (du + dv > 0) c.near_pt(co(h->DN(u, v, du, dv)), D[du][dv].v, 1e-9L * (1 + nrm(D[du][dv].b)), "surface_derivative", num(du) + num(dv)); c.event("surface/points"); }
        double u1, u2, v1, v2; h->Bounds(u1, u2, v1, v2); auto b = s.bounds(); c.check(u1 == b[0] && u2 == b[1] && v1 == b[2] && v2 == b[3], "surface_bounds"); for (double u : {u1, u2}) for (double v : {v1, v2}) c.near_pt(co(h->Value(u, v)), R.ders(u, v, 0, 0)[0][0].v, 1e-10L * (1 + nrm(R.ders(u, v, 0, 0)[0][0].b)), "surface_corner"); c.event("surface"); if (nu != nv) c.event("surface/not_square");
    } catch (const Standard_Failure &e) { c.check(false, "kernel_refused", e.DynamicType()->Name()); }
}
FAMILY("containers", 150, 4000)
{
    auto &r = c.rng; size_t n = r.i(1, 40); int st = r.coin() ? 1 : int(r.i(-3, 7)); auto p2 = gen::points<double, 2>(r, n); auto p3 = gen::points<double, 3>(r, n); c.describe("containers " + num(n) + " from " + num(st)); c.nontrivial(hash_str(num(p2[0][0]) + num(n)));
    auto a2 = occt_utils::col_from_vec<gp_Pnt2d>(p2, st); auto a3 = occt_utils::col_from_vec<gp_Pnt>(p3, st); auto v3 = occt_utils::col_from_vec<gp_Vec>(p3, st); c.check(a2.Lower() == st && a2.Upper() == st + int(n) - 1 && a3.Lower() == st && a3.Upper() == st + int(n) - 1 && v3.Length() == int(n), "bounds"); for (size_t i = 0; i < n; ++i) { c.near_pt(co(a2(st + i)), p2[i], 0, "points2"); c.near_pt(co(a3(st + i)), p3[i], 0, "points3"); c.near_pt(co(v3(st + i)), p3[i], 0, "vectors3"); }
    std::vector<double> x(n); for (auto &y : x) y = r.uni(-5, 5); auto ax = occt_utils::col_from_vec(x, st); c.check(ax.Lower() == st && ax.Length() == int(n), "values_bounds"); for (size_t i = 0; i < n; ++i) c.check(ax(st + i) == x[i], "values"); auto mv = occt_utils::to_math_vec(x); c.check(mv.Length() == int(n), "math_length"); for (size_t i = 0; i < n; ++i) c.check(mv(i + 1) == x[i], "math_values"); c.check(occt_utils::from_math_vec(mv) == x, "math_round_trip"); math_Vector sh(st, st + int(n) - 1); for (size_t i = 0; i < n; ++i) sh(st + int(i)) = x[i]; c.check(occt_utils::from_math_vec(sh) == x, "math_shifted"); std::list<double> xl(x.begin(), x.end()); auto s1 = occt_utils::col_from_list(x), s2 = occt_utils::col_from_list(xl); c.check(s1.Length() == int(n) && s2.Length() == int(n), "sequence_length"); for (size_t i = 0; i < n; ++i) c.check(s1(i + 1) == x[i] && s2(i + 1) == x[i], "sequence");
    size_t nj = r.i(1, 8), ni = r.i(1, 8); auto g = gen::points<double, 3>(r, ni * nj); auto A = occt_utils::col2_from_vec<gp_Pnt>(g, nj, st); c.check(A.LowerRow() == st && A.LowerCol() == st && A.RowLength() == int(nj) && A.ColLength() == int(ni), "grid_bounds"); for (size_t j = 0; j < nj; ++j) for (size_t i = 0; i < ni; ++i) c.near_pt(co(A(st + i, st + j)), g[i + ni * j], 0, "grid"); if (nj > 1) { g.push_back(g[0]); c.check(throws([&] { occt_utils::col2_from_vec<gp_Pnt>(g, nj, st); }), "bad_grid_refused"); c.event("containers/bad_grid"); }
    c.near_pt(co(occt_utils::coord(p2[0])), p2[0], 0, "coord"); c.near_pt(co(occt_utils::coord(p3[0])), p3[0], 0, "coord"); c.near_pt(co(occt_utils::vector(p2[0])), p2[0], 0, "vector"); c.near_pt(co(occt_utils::vector(p3[0])), p3[0], 0, "vector"); c.near_pt(co(occt_utils::point(p2[0])), p2[0], 0, "point"); c.near_pt(co(occt_utils::point(p3[0])), p3[0], 0, "point"); c.event("containers");
}
int main(int a, char **b) { return run(a, b); }
