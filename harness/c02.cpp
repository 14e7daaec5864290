// C02: surface evaluation against the definition.
#include "gen.h"
#include <list>
using namespace vh;

template <class T, size_t dim, class S>
void check_surf(Case &c, const S &s, bool rational, size_t du, size_t dv)
{
    auto R = gen::R(s);
    const gbs::Surface<T, dim> &sb = s;
    const size_t p = s.degreeU(), q = s.degreeV();
    c.describe(std::string(rational ? "rational " : "") + "dim " + std::to_string(dim) + " " + gen::sdesc(s));
    c.nontrivial(gen::shash(s));
    auto b = s.bounds();
    auto &kU = s.knotsFlatsU(); auto &kV = s.knotsFlatsV();
    c.check(b[0] == kU.front() && b[1] == kU.back() && b[2] == kV.front() && b[3] == kV.back(), "bounds");
    c.check(s.boundsU()[0] == b[0] && s.boundsU()[1] == b[1] && s.boundsV()[0] == b[2] && s.boundsV()[1] == b[3], "boundsUV");
    auto U = gen::params<T>(c.rng, kU, 3), V = gen::params<T>(c.rng, kV, 3);
    std::vector<std::array<T, 2>> UV;
    for (size_t i = 0; i < U.size(); ++i) { UV.push_back({U[i], V[c.rng.i(0, int(V.size()) - 1)]}); UV.push_back({U[c.rng.i(0, int(U.size()) - 1)], T(c.rng.uni(b[2], b[3]))}); }
    UV.push_back({b[0], b[3]}); UV.push_back({b[1], b[2]});
    for (auto uv : UV)
    {
        auto [u, v] = uv;
        if (std::find(kU.begin(), kU.end(), u) != kU.end() || std::find(kV.begin(), kV.end(), v) != kV.end()) c.event("param/knot"); else c.event("param/interior");
        auto D = R.ders(u, v, du, dv);
        std::vector<std::array<T, dim>> K((du + 1) * (dv + 1));
        s.derivatives(u, v, du, dv, K.data());
        for (size_t a = 0; a <= du; ++a)
            for (size_t e = 0; e <= dv; ++e)
            {
                const ld tol = ref::rtol<T>(D[a][e], p + q, a + e) * (rational ? 8 : 1);
                std::string w = "u=" + num(u) + " v=" + num(v) + " du=" + std::to_string(a) + " dv=" + std::to_string(e);
                auto x = s.value(u, v, a, e);
                c.near_pt(x, D[a][e].v, tol, "value", w);
                c.near_pt(K[a * (dv + 1) + e], D[a][e].v, tol, "derivatives", w);
                c.check(s(u, v, a, e) == x && sb.value(uv, a, e) == x && s(uv, a, e) == x, "call_forms", w);
            }
        // iso tangents
        if (du >= 2 && dv >= 2)
        {
            auto iso = [&](const ref::VB &d1, const ref::VB &d2, auto e1, auto e2, const char *k1, const char *k2) {
                ld N = 0, dot = 0; for (size_t i = 0; i < dim; ++i) { N += d1.v[i] * d1.v[i]; dot += d1.v[i] * d2.v[i]; }
                ld n1 = std::sqrt(N); if (!(n1 > 1e-2L * d1.b)) return;
                ld amp = d1.b / n1;
                c.event("iso_tangents");
                for (size_t i = 0; i < dim; ++i)
                {
                    c.near(e1[i], d1.v[i] / n1, ref::eps<T>() * 2000 * (p + q + 1) * amp, k1);
                    c.near(e2[i], (d2.v[i] * N - d1.v[i] * dot) / (N * N), ref::eps<T>() * 16000 * (p + q + 1) * amp * amp * amp * d2.b / N, k2);
                }
            };
            iso(D[1][0], D[2][0], s.d_dmu(u, v), s.d_dmu2(u, v), "d_dmu", "d_dmu2");
            iso(D[0][1], D[0][2], s.d_dmv(u, v), s.d_dmv2(u, v), "d_dmv", "d_dmv2");
            T a = T(c.rng.uni(-2, 2)), e = T(c.rng.uni(-2, 2));
            auto t = s.tangent(u, v, a, e);
            for (size_t i = 0; i < dim; ++i) c.near(t[i], D[1][0].v[i] * a + D[0][1].v[i] * e, (ref::rtol<T>(D[1][0], p + q, 2) + ref::rtol<T>(D[0][1], p + q, 2)) * 16, "tangent");
        }
    }
    // batch
    size_t a = c.rng.i(0, int(std::min<size_t>(du, 2))), e = c.rng.i(0, int(std::min<size_t>(dv, 2)));
    auto x1 = s.values(UV, a, e);
    std::vector<T> lu, lv; for (auto &x : UV) { lu.push_back(x[0]); lv.push_back(x[1]); }
    auto x2 = s.values(lu, lv, a, e);
    std::list<std::array<T, 2>> L(UV.begin(), UV.end());
    auto x3 = s.values(L, a, e);
    c.check(x1.size() == UV.size() && x2.size() == UV.size() && x3.size() == UV.size(), "values_size");
    for (size_t i = 0; i < UV.size(); ++i)
    {
        auto y = sb.value(UV[i], a, e);
        c.check(x1[i] == y && x2[i] == y && x3[i] == y, "values", "batch differs from single");
    }
    if (du >= 1 && dv >= 1)
    {
        auto m = s.d_dmus(UV), n = s.d_dmvs(UV);
        auto m2 = s.d_dmu2s(UV), n2 = s.d_dmv2s(UV);
        auto eq = [](const auto &a, const auto &b) { for (size_t i = 0; i < dim; ++i) if (!(a[i] == b[i]) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false; return true; };
        for (size_t i = 0; i < UV.size(); ++i)
            c.check(eq(m[i], s.d_dmu(UV[i][0], UV[i][1])) && eq(n[i], s.d_dmv(UV[i][0], UV[i][1])) && eq(m2[i], s.d_dmu2(UV[i][0], UV[i][1])) && eq(n2[i], s.d_dmv2(UV[i][0], UV[i][1])), "iso_batches");
    }
    // iso-parametric curves
    for (int t = 0; t < 2; ++t)
    {
        T u = UV[c.rng.i(0, int(UV.size()) - 1)][0], v = UV[c.rng.i(0, int(UV.size()) - 1)][1];
        // knot insertion next to (not at) a knot is ill-conditioned by design: only exact knots or clear interior
        auto clear = [](const std::vector<T> &k, T x) { for (auto y : k) if (x != y && std::fabs(x - y) < 1e-4 * (k.back() - k.front())) return false; return true; };
        if (clear(kU, u) && p > 0)
        {
            auto cu = s.isoU(u);
            c.event("isoU");
            c.check(cu.bounds()[0] == b[2] && cu.bounds()[1] == b[3] && cu.degree() == q, "isoU_def");
            for (int i = 0; i < 3; ++i)
            {
                T w = i == 0 ? b[2] : i == 1 ? b[3] : T(c.rng.uni(b[2], b[3]));
                auto r = R.value(u, w);
                c.near_pt(cu(w), r.v, ref::rtol<T>(r, p + q, 4) * 50, "isoU", "u=" + num(u) + " v=" + num(w));
            }
        }
        if (clear(kV, v) && q > 0)
        {
            auto cv = s.isoV(v);
            c.event("isoV");
            c.check(cv.bounds()[0] == b[0] && cv.bounds()[1] == b[1] && cv.degree() == p, "isoV_def");
            for (int i = 0; i < 3; ++i)
            {
                T w = i == 0 ? b[0] : i == 1 ? b[1] : T(c.rng.uni(b[0], b[1]));
                auto r = R.value(w, v);
                c.near_pt(cv(w), r.v, ref::rtol<T>(r, p + q, 4) * 50, "isoV", "u=" + num(w) + " v=" + num(v));
            }
        }
    }
}
template <class T, size_t dim> void one(Case &c, int pm, int sm, int dm)
{
    size_t p = c.rng.coin(0.04) ? 0 : c.rng.i(1, pm), q = c.rng.coin(0.04) ? 0 : c.rng.i(1, pm);
    int su = c.rng.i(1, sm), sv = c.rng.i(1, sm);
    size_t du = c.rng.i(0, dm), dv = c.rng.i(0, dm);
    if (c.rng.coin()) check_surf<T, dim>(c, gen::surf<T, dim>(c.rng, p, q, su, sv), false, du, dv);
    else check_surf<T, dim>(c, gen::rsurf<T, dim>(c.rng, p, q, su, sv), true, du, dv);
}
FAMILY("surf_double", 8000, 250000)
{
    switch (c.rng.i(0, 2)) { case 0: one<double, 1>(c, 4, 4, 3); break; case 1: one<double, 2>(c, 5, 4, 4); break; default: one<double, 3>(c, 6, 5, 4); }
}
FAMILY("surf_float", 1200, 40000) { one<float, 3>(c, 4, 3, 2); }
FAMILY("surf_high_degree", 500, 15000) { one<double, 2>(c, 10, 3, 6); }
// derivative orders beyond the stack evaluator's capacity
FAMILY("surf_extreme_order", 40, 400)
{
    auto s = gen::rsurf<double, 2>(c.rng, c.rng.i(1, 3), c.rng.i(1, 3), 1, 1);
    auto R = gen::R(s);
    c.describe("extreme order " + gen::sdesc(s)); c.nontrivial(gen::shash(s));
    bool f = c.rng.coin();
    size_t du = f ? c.rng.i(18, 27) : c.rng.i(0, 2), dv = f ? c.rng.i(0, 2) : c.rng.i(18, 27);
    auto b = s.bounds();
    double u = c.rng.uni(b[0], b[1]), v = c.rng.uni(b[2], b[3]);
    auto D = R.ders(u, v, du, dv);
    std::vector<std::array<double, 2>> K((du + 1) * (dv + 1));
    s.derivatives(u, v, du, dv, K.data());
    for (size_t a = 0; a <= du; ++a)
        for (size_t e = 0; e <= dv; ++e)
            c.near_pt(K[a * (dv + 1) + e], D[a][e].v, ref::rtol<double>(D[a][e], 8, a + e) * 16, "derivatives", "du=" + std::to_string(a) + " dv=" + std::to_string(e));
}
FAMILY("constructors", 1500, 50000)
{
    size_t p = c.rng.i(1, 4), q = c.rng.i(1, 4);
    auto [ku, mu] = gen::km<double>(c.rng, p, c.rng.i(1, 4), int(p));
    auto [kv, mv] = gen::km<double>(c.rng, q, c.rng.i(1, 4), int(q));
    auto fu = gen::flat(ku, mu), fv = gen::flat(kv, mv);
    size_t nu = fu.size() - p - 1, nv = fv.size() - q - 1, n = nu * nv;
    auto P = gen::points<double, 3>(c.rng, n); auto w = gen::weights<double>(c.rng, n);
    std::vector<std::array<double, 4>> W(n);
    for (size_t i = 0; i < n; ++i) W[i] = {P[i][0] * w[i], P[i][1] * w[i], P[i][2] * w[i], w[i]};
    gbs::BSSurface<double, 3> a(P, fu, fv, p, q), b(P, ku, kv, mu, mv, p, q);
    gbs::BSSurfaceRational<double, 3> r0(W, fu, fv, p, q), r1(P, w, fu, fv, p, q), r2(P, w, ku, kv, mu, mv, p, q), r3(W, ku, kv, mu, mv, p, q);
    gbs::BSSurface<double, 3> e(a.info());
    ref::Surf RA(P, fu, fv, p, q, false), RW(W, fu, fv, p, q, true);
    c.describe(gen::sdesc(a)); c.nontrivial(gen::shash(a));
    for (int t = 0; t < 4; ++t)
    {
        double u = t == 0 ? fu.front() : t == 1 ? fu.back() : c.rng.uni(fu.front(), fu.back()), v = t == 0 ? fv.back() : c.rng.uni(fv.front(), fv.back());
        size_t du = c.rng.i(0, 2), dv = c.rng.i(0, 2);
        auto x = RA.value(u, v, du, dv), y = RW.value(u, v, du, dv);
        ld ta = ref::rtol<double>(x, p + q, du + dv) * 8, tw = ref::rtol<double>(y, p + q, du + dv) * 8;
        c.near_pt(a(u, v, du, dv), x.v, ta, "ctor_flat"); c.near_pt(b(u, v, du, dv), x.v, ta, "ctor_mults"); c.near_pt(e(u, v, du, dv), x.v, ta, "ctor_info");
        c.near_pt(r0(u, v, du, dv), y.v, tw, "ctor_weighted"); c.near_pt(r1(u, v, du, dv), y.v, tw, "ctor_weights"); c.near_pt(r2(u, v, du, dv), y.v, tw, "ctor_weights_mults"); c.near_pt(r3(u, v, du, dv), y.v, tw, "ctor_weighted_mults");
    }
    c.check(a.knotsU() == ku && a.knotsV() == kv && a.multsU() == mu && a.multsV() == mv, "knots_mults");
    c.check(a.nPolesU() == nu && a.nPolesV() == nv && a.degreeU() == p && a.degreeV() == q && a.orderU() == p + 1 && a.orderV() == q + 1, "counts");
    for (size_t j = 0; j < nv; ++j) { auto row = a.polesU(j); c.check(row.size() == nu, "polesU_size"); for (size_t i = 0; i < nu; ++i) c.check(row[i] == P[i + nu * j], "polesU"); }
    for (size_t i = 0; i < nu; ++i) { auto col = a.polesV(i); c.check(col.size() == nv, "polesV_size"); for (size_t j = 0; j < nv; ++j) c.check(col[j] == P[i + nu * j], "polesV"); }
    auto pp = r0.polesProjected(); auto ww = r0.weights();
    for (size_t i = 0; i < n; ++i) { c.near_pt(pp[i], P[i], 1e-13L * (RA.max_pole() + 1), "poles_projected"); c.check(ww[i] == w[i], "weights"); }
    std::vector<double> s(n); for (size_t i = 0; i < n; ++i) s[i] = P[i][0];
    gbs::BSSfunction<double> F(s, fu, fv, p, q);
    double u = c.rng.uni(fu.front(), fu.back()), v = c.rng.uni(fv.front(), fv.back());
    auto x = RA.value(u, v, 1, 1);
    c.near(F(u, v, 1, 1), x.v[0], ref::rtol<double>(x, p + q, 2) * 8, "bssfunction");
}
int main(int a, char **v) { return vh::run(a, v); }
