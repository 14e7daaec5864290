// C01: curve evaluation against the definition.
#include "gen.h"
#include <list>
#include <deque>
using namespace vh;

template <class T> void count_param(Case &c, const std::vector<T> &k, T u)
{
    if (u == k.front() || u == k.back()) c.event("param/end");
    else if (std::find(k.begin(), k.end(), u) != k.end()) c.event("param/knot");
    else c.event("param/interior");
}

template <class T, size_t dim, class C>
void check_curve_eval(Case &c, const C &crv, bool rational, size_t dmax)
{
    auto R = gen::R(crv);
    auto &k = crv.knotsFlats();
    const size_t p = crv.degree();
    c.describe(std::string(rational ? "rational " : "") + (sizeof(T) == 4 ? "float " : "double ") + "dim " + std::to_string(dim) + " " + gen::cdesc(crv));
    c.nontrivial(gen::chash(crv));
    auto b = crv.bounds();
    c.check(b[0] == k.front() && b[1] == k.back(), "bounds", "bounds differ from the end knots");
    auto U = gen::params<T>(c.rng, k, 6);
    for (T u : U)
    {
        count_param(c, k, u);
        auto D = R.ders(u, dmax);
        std::vector<std::array<T, dim>> CK(dmax + 1);
        crv.derivatives(u, dmax, CK.data());
        for (size_t d = 0; d <= dmax; ++d)
        {
            const ld tol = ref::rtol<T>(D[d], p, d) * (rational ? 8 : 1);
            c.near_pt(CK[d], D[d].v, tol, "derivatives", "u=" + num(u) + " d=" + std::to_string(d));
            // the single-order rational evaluator recurses over all lower orders (cost 2^d)
            if (rational && d > 7) continue;
            auto v = crv.value(u, d);
            c.near_pt(v, D[d].v, tol, "value", "u=" + num(u) + " d=" + std::to_string(d));
            auto v2 = crv(u, d);
            c.check(v2 == v, "call_operator", "operator() differs from value");
            if (!rational && d > p) c.check(std::all_of(v.begin(), v.end(), [](T x) { return x == T(0); }), "above_degree", "derivative above degree not zero");
            if (u == b[0]) c.check(crv.begin(d) == v, "begin", "begin(d) differs from value(bounds[0],d)");
            if (u == b[1]) c.check(crv.end(d) == v, "end", "end(d) differs from value(bounds[1],d)");
        }
        // prefixes of the all-orders evaluator
        for (size_t n = 0; n <= std::min<size_t>(dmax, 2); ++n)
        {
            std::vector<std::array<T, dim>> Cn(n + 1);
            crv.derivatives(u, n, Cn.data());
            for (size_t d = 0; d <= n; ++d) c.near_pt(Cn[d], D[d].v, ref::rtol<T>(D[d], p, d) * (rational ? 8 : 1), "derivatives_prefix", "u=" + num(u) + " n=" + std::to_string(n) + " d=" + std::to_string(d));
        }
        // arc-length derivatives
        if (dmax >= 2)
        {
            ld N = 0, dot = 0, a1 = 0, a2 = 0;
            for (size_t i = 0; i < dim; ++i) { N += D[1].v[i] * D[1].v[i]; dot += D[1].v[i] * D[2].v[i]; }
            ld n1 = std::sqrt(N);
            if (n1 > 1e-2L * D[1].b && n1 > 0)
            {
                c.event("arc_length_derivatives");
                auto e = crv.d_dm(u); auto e2 = crv.d_dm2(u);
                ld amp = D[1].b / n1, tol1 = ref::eps<T>() * 1000 * (p + 1) * amp;
                ld nn2 = 0; for (size_t i = 0; i < dim; ++i) nn2 += D[2].v[i] * D[2].v[i];
                ld t2 = ref::eps<T>() * 8000 * (p + 1) * amp * amp * amp * (D[2].b / N);
                (void)a1; (void)a2;
                for (size_t i = 0; i < dim; ++i)
                {
                    c.near(e[i], D[1].v[i] / n1, tol1, "d_dm", "u=" + num(u));
                    c.near(e2[i], (D[2].v[i] * N - D[1].v[i] * dot) / (N * N), t2, "d_dm2", "u=" + num(u));
                }
            }
        }
    }
    // batch forms over several containers
    size_t d = c.rng.i(0, int(std::min<size_t>(dmax, 3)));
    auto vals = crv.values(U, d);
    std::list<T> L(U.begin(), U.end()); std::deque<T> Q(U.begin(), U.end());
    auto vl = crv.values(L, d); auto vq = crv.values(Q, d);
    c.check(vals.size() == U.size() && vl.size() == U.size() && vq.size() == U.size(), "values_size", "batch size");
    for (size_t i = 0; i < U.size(); ++i)
    {
        auto v = crv.value(U[i], d);
        c.check(vals[i] == v && vl[i] == v && vq[i] == v, "values", "batch differs from single at " + num(U[i]));
    }
}

template <class T, size_t dim> void one(Case &c, size_t p, int spans, size_t dmax, int mode)
{
    if (mode == 0) check_curve_eval<T, dim>(c, gen::curve<T, dim>(c.rng, p, spans), false, dmax);
    else check_curve_eval<T, dim>(c, gen::rcurve<T, dim>(c.rng, p, spans), true, dmax);
}

FAMILY("curve_double", 8000, 300000)
{
    size_t p = c.rng.coin(0.05) ? 0 : c.rng.i(1, 7);
    int spans = c.rng.coin(0.1) ? c.rng.i(10, 25) : c.rng.i(1, 7);
    size_t dmax = size_t(c.rng.i(0, int(p) + 2));
    switch (c.rng.i(0, 3))
    {
    case 0: one<double, 1>(c, p, spans, dmax, c.rng.i(0, 1)); break;
    case 1: one<double, 2>(c, p, spans, dmax, c.rng.i(0, 1)); break;
    case 2: one<double, 3>(c, p, spans, dmax, c.rng.i(0, 1)); break;
    default: one<double, 4>(c, p, spans, dmax, c.rng.i(0, 1)); break;
    }
}
FAMILY("curve_float", 1600, 60000)
{
    size_t p = c.rng.i(1, 5);
    if (c.rng.coin()) one<float, 2>(c, p, c.rng.i(1, 4), size_t(c.rng.i(0, 3)), c.rng.i(0, 1));
    else one<float, 3>(c, p, c.rng.i(1, 4), size_t(c.rng.i(0, 3)), c.rng.i(0, 1));
}
FAMILY("curve_high_degree", 1600, 40000)
{
    size_t p = c.rng.i(8, 24);
    size_t dmax = size_t(c.rng.coin(0.3) ? c.rng.i(0, 3) : c.rng.i(0, std::min(24, int(p) + 1)));
    one<double, 2>(c, p, c.rng.i(1, 3), dmax, c.rng.i(0, 1));
}
// rational derivatives of high order (binomial coefficients beyond the integer range)
FAMILY("curve_rational_high_order", 300, 10000)
{
    size_t p = c.rng.i(1, 6);
    one<double, 2>(c, p, c.rng.i(1, 2), size_t(c.rng.i(10, 24)), 1);
}

// Constructors: the different ways to define the same curve evaluate the same
FAMILY("constructors", 1500, 60000)
{
    size_t p = c.rng.i(1, 5);
    auto [k, m] = gen::km<double>(c.rng, p, c.rng.i(1, 5), int(p));
    auto f = gen::flat(k, m);
    size_t n = f.size() - p - 1;
    auto P = gen::points<double, 3>(c.rng, n); auto w = gen::weights<double>(c.rng, n);
    gbs::BSCurve<double, 3> a(P, f, p), b(P, k, m, p);
    std::vector<std::array<double, 4>> W(n);
    for (size_t i = 0; i < n; ++i) W[i] = {P[i][0] * w[i], P[i][1] * w[i], P[i][2] * w[i], w[i]};
    gbs::BSCurveRational<double, 3> r0(W, f, p), r1(P, f, w, p), r2(P, k, m, w, p), r3(P, w, k, m, p), r4(a), r5(P, f, p);
    c.describe(gen::cdesc(a)); c.nontrivial(gen::chash(a));
    ref::Curve RA(P, f, p, false), RW(W, f, p, true);
    for (double u : gen::params<double>(c.rng, f, 4))
        for (size_t d = 0; d <= 2; ++d)
        {
            auto x = RA.value(u, d), y = RW.value(u, d);
            ld ta = ref::rtol<double>(x, p, d) * 8, tw = ref::rtol<double>(y, p, d) * 8;
            c.near_pt(a(u, d), x.v, ta, "ctor_flat"); c.near_pt(b(u, d), x.v, ta, "ctor_mults");
            c.near_pt(r4(u, d), x.v, ta * 4, "ctor_from_poly"); c.near_pt(r5(u, d), x.v, ta * 4, "ctor_unit_weights");
            c.near_pt(r0(u, d), y.v, tw, "ctor_weighted"); c.near_pt(r1(u, d), y.v, tw, "ctor_weights_flat");
            c.near_pt(r2(u, d), y.v, tw, "ctor_weights_mults"); c.near_pt(r3(u, d), y.v, tw, "ctor_weights_mults2");
        }
    auto pp = r0.polesProjected(); auto ww = r0.weights();
    for (size_t i = 0; i < n; ++i)
    {
        c.near_pt(pp[i], P[i], 1e-13L * (RA.max_pole() + 1), "poles_projected");
        c.check(ww[i] == w[i], "weights", "weights() differ");
    }
    c.check(a.knots() == k && a.mults() == m, "knots_mults", "knots()/mults() differ from the definition");
    c.check(a.degree() == p && a.order() == p + 1, "degree");
    auto [ip, ik, id] = a.info();
    c.check(ip == P && ik == f && id == p, "info");
    for (size_t i = 0; i < n; ++i) c.check(a.pole(i) == P[i], "pole");
    // scalar function wrapper
    std::vector<double> s(n); for (size_t i = 0; i < n; ++i) s[i] = P[i][0];
    gbs::BSCfunction<double> F(s, f, p), F2(s, k, m, p);
    for (double u : gen::params<double>(c.rng, f, 2))
    {
        auto x = RA.value(u, 1);
        c.near(F(u, 1), x.v[0], ref::rtol<double>(x, p, 1), "bscfunction"); c.near(F2.value(u, 1), x.v[0], ref::rtol<double>(x, p, 1), "bscfunction");
    }
    c.check(F.bounds() == a.bounds() && F.begin() == a.begin()[0] && F.end() == a.end()[0], "bscfunction_bounds");
}

// basis functions: definition, partition of unity, non-negativity, locality, derivative sums, spans
FAMILY("basis", 2000, 80000)
{
    size_t p = c.rng.i(0, 6);
    auto f = gen::knots<double>(c.rng, p, c.rng.i(1, 6));
    size_t n = f.size() - p - 1;
    ref::Vec U(f.begin(), f.end());
    c.describe("basis deg " + std::to_string(p) + " knots " + str(f)); c.nontrivial(hvec(f) + p);
    for (double u : gen::params<double>(c.rng, f, 5))
    {
        count_param(c, f, u);
        size_t dmax = p + 1;
        auto B = ref::basis(n, p, u, U, dmax);
        // the recursive evaluator treats parameters within the knot tolerance of the last knot as the end
        bool near_end = std::fabs(u - f.back()) < 1e-12 && u != f.back();
        for (size_t d = 0; d <= dmax; ++d)
        {
            ld sum = 0, mag = 0;
            for (size_t i = 0; i < n; ++i)
            {
                double v = gbs::basis_function(u, i, p, d, f);
                ld r = 0, a = 0;
                if (i + p >= B.s && i <= B.s) { r = B.D[d][i + p - B.s]; a = B.A[d][i + p - B.s]; }
                if (!near_end) c.near(v, r, 1e-13L * (p + 1) * (a + 1e-300L), "basis_value", "i=" + std::to_string(i) + " d=" + std::to_string(d) + " u=" + num(u));
                if (d == 0) c.check(v >= -1e-14 && v <= 1 + 1e-13, "basis_range", "N out of [0,1]: " + num(v));
                sum += v; mag += std::max<ld>(a, std::fabs(v));
            }
            c.near(sum, d == 0 ? 1 : 0, 1e-12L * (mag + 1), "partition_of_unity", "d=" + std::to_string(d) + " u=" + num(u));
        }
        size_t s = gbs::find_span(n, p, u, f) - f.begin();
        c.check(s == B.s, "find_span", "span " + std::to_string(s) + " expected " + std::to_string(B.s) + " u=" + num(u));
        auto [i1, i2] = gbs::find_span_range(n, p, u, f);
        c.check(i1 == B.s - p && i2 == B.s, "find_span_range");
        std::vector<double> N(p + 1);
        gbs::basis_funcs(B.s, p, u, f, N);
        for (size_t r = 0; r <= p; ++r) c.near(N[r], B.D[0][r], 1e-13L * (p + 1), "basis_funcs");
    }
}
// Free evaluators
FAMILY("evaluators", 1000, 40000)
{
    size_t p = c.rng.i(1, 6);
    auto crv = gen::curve<double, 3>(c.rng, p, c.rng.i(1, 6));
    auto R = gen::R(crv);
    c.describe(gen::cdesc(crv)); c.nontrivial(gen::chash(crv));
    for (double u : gen::params<double>(c.rng, crv.knotsFlats(), 5))
    {
        auto x = R.value(u, 0);
        c.near_pt(gbs::eval_value_deboor_cox(u, crv.knotsFlats(), crv.poles(), p), x.v, ref::rtol<double>(x, p, 0), "deboor_cox");
        for (size_t d = 0; d <= p; ++d)
        {
            auto y = R.value(u, d);
            c.near_pt(gbs::eval_value_decasteljau(u, crv.knotsFlats(), crv.poles(), p, d, false), y.v, ref::rtol<double>(y, p, d), "eval_no_span_reduction");
        }
    }
}
int main(int a, char **v) { return vh::run(a, v); }
