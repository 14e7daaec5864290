// C23: knot-vector, parameter-range, pole-grid and weight utilities keep their algebraic contracts.
#include "gen.h"
#include <gbs/knotsfunctions.ixx>
#include <gbs/polestools.h>
using namespace vh;
using gbs::operator*; using gbs::operator^; using gbs::operator-;

template <class T> static bool sorted(const std::vector<T> &v) { return std::is_sorted(v.begin(), v.end()); }

FAMILY("flat_unflat", 6000, 200000)
{
    size_t p = c.rng.i(0, 9);
    auto [k, m] = gen::km<double>(c.rng, p, c.rng.i(1, 12), int(p) + 1);
    if (c.rng.coin(0.3)) { m.front() = size_t(c.rng.i(1, int(p) + 1)); m.back() = size_t(c.rng.i(1, int(p) + 1)); }
    auto f = gbs::flat_knots(k, m);
    c.describe("k " + str(k) + " m " + str(m)); c.nontrivial(hvec(f));
    c.check(f == gen::flat(k, m), "flat", str(f));
    std::vector<size_t> m2; std::vector<double> k2;
    gbs::unflat_knots(f, m2, k2);
    c.check(k2 == k && m2 == m, "unflat", str(k2) + str(m2));
    std::vector<int> mi; std::vector<double> ki{3., 4.}; // stale contents must vanish
    gbs::unflat_knots(f, mi, ki);
    c.check(ki == k && std::equal(mi.begin(), mi.end(), m.begin(), m.end(), [](auto a, auto b) { return size_t(a) == b; }), "unflat_int");
    std::vector<double> k3{1.}; gbs::unflat_knots(f, k3);
    c.check(k3 == k, "unflat_values", str(k3));
    auto [k4, m4] = gbs::knots_and_mults(f);
    c.check(k4 == k && m4 == m, "knots_and_mults");
    auto pr = gbs::unflat_knots(f);
    bool ok = pr.size() == k.size();
    for (size_t i = 0; ok && i < k.size(); ++i) ok = pr[i].first == k[i] && pr[i].second == m[i];
    c.check(ok, "unflat_pairs");
    for (size_t i = 0; i < k.size(); ++i)
    {
        c.check(gbs::multiplicity(f, k[i]) == m[i], "multiplicity", num(k[i]));
        c.check(size_t(gbs::multiplicity(k[i], f)) == m[i], "multiplicity_rev", num(k[i]));
        if (i)
        {
            double x = 0.5 * (k[i] + k[i - 1]);
            c.check(gbs::multiplicity(f, x) == 0 && gbs::multiplicity(x, f) == 0, "multiplicity_absent", num(x));
        }
    }
    // near-equal knots are one knot
    auto g = f; double e = 0.2 * gbs::knot_eps<double>;
    for (size_t i = 1; i < g.size(); ++i) if (g[i] == g[i - 1] || (f[i] == f[i - 1])) g[i] += e * c.rng.u01();
    std::sort(g.begin(), g.end());
    auto [k5, m5] = gbs::knots_and_mults(g);
    bool tiny = std::fabs(k.front()) < 1e3 && std::fabs(k.back()) < 1e3; // eps resolution
    if (tiny) c.check(m5 == m, "tolerant_mults", str(m5));
    m.pop_back();
    c.check(throws([&] { gbs::flat_knots(k, m); }), "length_mismatch");
    c.event("knots", long(k.size()));
}

FAMILY("generated_knots", 4000, 100000)
{
    size_t p = c.rng.i(1, 9), n = p + 1 + size_t(c.rng.i(0, 14));
    auto k = gen::km<double>(c.rng, 1, int(n) - 1, 1).first;
    c.describe("u " + str(k) + " p " + num(p)); c.nontrivial(hvec(k));
    auto chk = [&](const std::vector<double> &f, size_t np, double a, double b, const char *nm) {
        c.check(f.size() == np + p + 1, std::string(nm) + "_size");
        if (f.size() != np + p + 1) return;
        c.check(sorted(f), std::string(nm) + "_sorted", str(f));
        bool e = true; for (size_t i = 0; i <= p; ++i) e = e && f[i] == a && f[f.size() - 1 - i] == b;
        c.check(e, std::string(nm) + "_clamped", str(f));
        if (np > p + 1) c.check(f[p + 1] > a && f[np - 1] < b, std::string(nm) + "_interior", str(f));
    };
    auto f = gbs::build_simple_mult_flat_knots(k, p);
    chk(f, n, k.front(), k.back(), "averaged");
    // averaging law (The NURBS Book 9.8), which also guarantees the Schoenberg-Whitney condition
    if (f.size() == n + p + 1)
    {
        for (size_t j = 1; j + p < n; ++j)
        {
            ld s = 0; for (size_t i = j; i < j + p; ++i) s += k[i];
            c.near(f[j + p], s / p, 1e-13 * (1 + std::fabs(k.front()) + std::fabs(k.back())), "averaged_value");
        }
        bool sw = true;
        for (size_t i = 1; i + 1 < n; ++i) sw = sw && f[i] < k[i] && k[i] < f[i + p + 1];
        c.check(sw, "schoenberg_whitney", str(f));
    }
    auto g = gbs::build_simple_mult_flat_knots(k.front(), k.back(), n, p);
    chk(g, n, k.front(), k.back(), "uniform");
    if (g.size() == n + p + 1)
    {   // interior knots are equally spaced
        for (size_t j = p + 2; j + p + 1 < g.size(); ++j)
            if (j + p + 2 < g.size()) c.near(g[j + 1] - g[j], g[j] - g[j - 1], 1e-12 * (1 + std::fabs(k.front()) + std::fabs(k.back())), "uniform_step");
    }
    size_t mult = c.rng.i(1, int(p));
    auto h = gbs::build_mult_flat_knots(k, p, mult);
    auto [hk, hm] = gbs::knots_and_mults(h);
    bool ok = hk == k && hm.front() == p + 1 && hm.back() == p + 1;
    for (size_t i = 1; i + 1 < hm.size(); ++i) ok = ok && hm[i] == mult;
    c.check(ok, "mult_knots", str(h));
    auto h2 = gbs::build_mult_flat_knots(k.front(), k.back(), n, p, mult);
    auto [gk, gm] = gbs::knots_and_mults(h2);
    ok = gk.size() == n && gm.front() == p + 1 && gm.back() == p + 1 && gk.front() == k.front() && gk.back() == k.back();
    for (size_t i = 1; i + 1 < gm.size(); ++i) ok = ok && gm[i] == mult;
    c.check(ok, "mult_knots_uniform", str(h2));
    for (size_t i = 0; i < gk.size() && gk.size() == n; ++i) c.near(gk[i], k.front() + (ld(k.back()) - k.front()) * i / (n - 1), 1e-13 * n * (1 + std::fabs(k.front()) + std::fabs(k.back())), "mult_knots_uniform_value");
}

FAMILY("bounds", 3000, 100000)
{
    size_t p = c.rng.i(1, 5);
    auto f = gen::knots<double>(c.rng, p, c.rng.i(1, 8));
    c.nontrivial(hvec(f)); c.describe(str(f));
    double a = c.rng.uni(-10, 10), b = a + std::pow(10., c.rng.uni(-2, 2));
    auto g = f; gbs::change_bounds(a, b, g);
    double s = 1 + std::fabs(a) + std::fabs(b);
    c.check(g.size() == f.size() && sorted(g), "change_bounds_sorted");
    for (size_t i = 0; i < f.size(); ++i)
    {
        c.near(g[i], a + (ld(b) - a) * (ld(f[i]) - f.front()) / (ld(f.back()) - f.front()), 1e-14 * 8 * s, "change_bounds_value");
        if (i) c.check((g[i] == g[i - 1]) == (f[i] == f[i - 1]), "change_bounds_mult");
    }
    auto h = f; gbs::adimension(h);
    c.check(h.front() == 0 && h.back() == 1 && sorted(h), "adimension_range", str(h));
    for (size_t i = 0; i < f.size(); ++i) c.near(h[i], (ld(f[i]) - f.front()) / (ld(f.back()) - f.front()), 1e-14, "adimension_value");
}

template <size_t dim> static void param(Case &c)
{
    size_t n = c.rng.i(2, 30);
    auto P = gen::points<double, dim>(c.rng, n);
    for (size_t i = 1; i < n; ++i) if (gbs::distance(P[i], P[i - 1]) == 0) P[i][0] += 1;
    bool ad = c.rng.coin();
    c.describe("n " + num(n) + " dim " + num(dim)); { uint64_t h = 0; for (auto &q : P) h = mix(h ^ hvec(q)); c.nontrivial(h); }
    for (auto mode : {gbs::KnotsCalcMode::EQUALLY_SPACED, gbs::KnotsCalcMode::CHORD_LENGTH, gbs::KnotsCalcMode::CENTRIPETAL})
    {
        auto u = gbs::curve_parametrization(P, mode, ad);
        std::string nm = mode == gbs::KnotsCalcMode::CHORD_LENGTH ? "chord" : mode == gbs::KnotsCalcMode::CENTRIPETAL ? "centripetal" : "equal";
        c.check(u.size() == n && u.front() == 0, nm + "_start");
        if (u.size() != n) continue;
        std::vector<ld> r(n); r[0] = 0;
        for (size_t i = 1; i < n; ++i)
        {
            ld s = 0; for (size_t d = 0; d < dim; ++d) { ld x = ld(P[i][d]) - P[i - 1][d]; s += x * x; }
            s = sqrtl(s);
            r[i] = r[i - 1] + (nm == "chord" ? s : nm == "centripetal" ? sqrtl(s) : 1.L / (n - 1));
            c.check(u[i] > u[i - 1], nm + "_increasing");
        }
        for (size_t i = 0; i < n; ++i)
        {
            ld e = ad ? r[i] / r[n - 1] : r[i];
            c.near(u[i], e, 1e-13 * (ad ? 1 : r[n - 1]), nm + "_value");
        }
        if (ad) c.check(u.back() == 1, nm + "_unit");
    }
}
FAMILY("parametrization", 3000, 100000) { switch (c.rng.i(1, 3)) { case 1: param<1>(c); break; case 2: param<2>(c); break; default: param<3>(c); } }

FAMILY("ordered_insertion", 3000, 100000)
{
    std::vector<double> v; double tol = c.rng.coin() ? gbs::knot_eps<double> : std::pow(10., c.rng.uni(-6, -1));
    std::vector<double> all, in;
    int n = c.rng.i(1, 40);
    for (int i = 0; i < n; ++i)
    {
        double x = v.empty() || c.rng.coin(0.5) ? c.rng.uni(-1, 1) : v[c.rng.i(0, int(v.size()) - 1)] + tol * c.rng.uni(-1.5, 1.5);
        auto before = v;
        ld near = 1e9; for (auto y : v) near = std::min<ld>(near, std::fabs(ld(x) - y));
        gbs::insert_unique_ordered(v, x, tol);
        c.check(sorted(v), "unique_sorted");
        if (near > tol * 1.001L) c.check(v.size() == before.size() + 1 && std::count(v.begin(), v.end(), x) == 1, "unique_inserted", num(x));
        else if (near < tol * 0.999L) c.check(v == before, "unique_kept", num(x));
        std::vector<double> w; std::set_difference(before.begin(), before.end(), v.begin(), v.end(), std::back_inserter(w));
        c.check(w.empty(), "unique_lost");
        gbs::insert_ordered(all, x); in.push_back(x);
    }
    for (size_t i = 1; i < v.size(); ++i) c.check(v[i] - v[i - 1] > 0.999 * tol, "unique_near_duplicates", num(v[i]));
    std::sort(in.begin(), in.end());
    c.check(in == all, "ordered_all");
    c.nontrivial(hvec(in)); c.describe("n " + num(n) + " tol " + num(tol));
}

FAMILY("ranges", 3000, 100000)
{
    double a = c.rng.uni(-5, 5), b = c.rng.uni(-5, 5), d = c.rng.uni(-5, 5), e = c.rng.uni(-5, 5), f = c.rng.uni(-5, 5), g = c.rng.uni(-5, 5);
    size_t n = c.rng.i(2, 60), nu = c.rng.i(2, 8), nv = c.rng.i(2, 8), nw = c.rng.i(2, 5);
    c.nontrivial(hvec(std::vector<double>{a, b, double(n), double(nu), double(nv)})); c.describe(num(n) + " " + num(nu) + "x" + num(nv));
    auto r = gbs::make_range(a, b, n);
    c.check(r.size() == n && r.front() == a && r.back() == b, "range_ends");
    for (size_t i = 0; i < r.size(); ++i) c.near(r[i], a + (ld(b) - a) * i / (n - 1), 1e-14 * n * 10, "range_value");
    c.check(gbs::make_range(std::array<double, 2>{a, b}, n) == r, "range_bounds");
    auto r2 = gbs::make_range(a, b, d, e, nu, nv);
    c.check(r2.size() == nu * nv && r2 == gbs::make_range(std::array<double, 4>{a, b, d, e}, nu, nv), "range2_size");
    for (size_t i = 0; i < nu && r2.size() == nu * nv; ++i) for (size_t j = 0; j < nv; ++j)
    {
        c.near(r2[j + nv * i].first, a + (ld(b) - a) * i / (nu - 1), 1e-13, "range2_u");
        c.near(r2[j + nv * i].second, d + (ld(e) - d) * j / (nv - 1), 1e-13, "range2_v");
    }
    auto r3 = gbs::make_range(a, b, d, e, f, g, nu, nv, nw);
    c.check(r3.size() == nu * nv * nw && r3 == gbs::make_range(std::array<double, 4>{a, b, d, e}, std::array<double, 2>{f, g}, nu, nv, nw), "range3_size");
    for (size_t i = 0; i < nu && r3.size() == nu * nv * nw; ++i) for (size_t j = 0; j < nv; ++j) for (size_t k = 0; k < nw; ++k)
    {
        auto [x, y, z] = r3[k + nw * (j + nv * i)];
        c.near(x, a + (ld(b) - a) * i / (nu - 1), 1e-13, "range3_u");
        c.near(y, d + (ld(e) - d) * j / (nv - 1), 1e-13, "range3_v");
        c.near(z, f + (ld(g) - f) * k / (nw - 1), 1e-13, "range3_w");
    }
    int i0 = c.rng.i(-10, 10), i1 = i0 + c.rng.i(1, 20);
    auto ri = gbs::make_range(i0, i1);
    bool ok = ri.size() == size_t(i1 - i0 + 1); for (size_t i = 0; ok && i < ri.size(); ++i) ok = ri[i] == i0 + int(i);
    c.check(ok, "range_int");
    c.check(throws([&] { gbs::make_range(a, b, size_t(c.rng.i(0, 1))); }), "range_too_short");
    c.check(throws([&] { gbs::make_range(a, b, d, e, size_t(1), nv); }) && throws([&] { gbs::make_range(a, b, d, e, nu, size_t(1)); }), "range2_too_short");
}

FAMILY("pole_grids", 3000, 60000)
{
    size_t nu = c.rng.i(1, 40), nv = c.rng.i(1, 40), bs = c.rng.i(1, 50);
    std::vector<std::vector<std::array<double, 3>>> G(nu, std::vector<std::array<double, 3>>(nv));
    for (auto &row : G) for (auto &q : row) q = {c.rng.uni(-1, 1), c.rng.uni(-1, 1), c.rng.uni(-1, 1)};
    c.nontrivial(mix(nu * 100 + nv) ^ hvec(G[0][0])); c.describe(num(nu) + "x" + num(nv) + " block " + num(bs));
    auto A = gbs::transpose_poles(G); auto B = gbs::transpose_poles(G, bs);
    bool ok = A.size() == nv; for (size_t j = 0; ok && j < nv; ++j) { ok = A[j].size() == nu; for (size_t i = 0; ok && i < nu; ++i) ok = A[j][i] == G[i][j]; }
    c.check(ok, "transpose"); c.check(A == B, "transpose_block");
    c.check(gbs::transpose_poles(A) == G, "transpose_twice");
    auto F = gbs::flatten_poles(G);
    ok = F.size() == nu * nv; for (size_t i = 0; ok && i < nu; ++i) for (size_t j = 0; ok && j < nv; ++j) ok = F[j + nv * i] == G[i][j];
    c.check(ok, "flatten");
    auto w = gen::weights<double>(c.rng, F.size());
    auto M = gbs::merge_weights(F, w), M2 = gbs::add_weights_coord(F, w);
    c.check(M == M2, "merge_vs_add");
    std::vector<std::array<double, 3>> P; std::vector<double> W;
    gbs::separate_weights(M, P, W);
    c.check(W == w, "weights_round_trip");
    for (size_t i = 0; i < F.size(); ++i) c.near_pt(P[i], F[i], 4e-16, "poles_round_trip");
    auto M1 = gbs::add_weights_coord(F);
    ok = true; for (size_t i = 0; i < F.size(); ++i) ok = ok && M1[i][3] == 1 && M1[i][0] == F[i][0] && M1[i][1] == F[i][1] && M1[i][2] == F[i][2];
    c.check(ok, "unit_weights");
    double mv = c.rng.uni(0.5, 4);
    auto S = gbs::scaled_weights(M, mv); auto S2 = M; gbs::scale_weights(S2, mv);
    ld mean = 0; for (auto &q : S) mean += q[3]; mean /= S.size();
    c.near(mean, mv, 1e-12, "scaled_mean"); c.check(S == S2, "scale_vs_scaled");
    gbs::separate_weights(S, P, W);
    for (size_t i = 0; i < F.size(); ++i) c.near_pt(P[i], F[i], 2e-15, "scaled_poles");
    c.check(throws([&] { auto w2 = w; w2.pop_back(); gbs::merge_weights(F, w2); }), "weights_mismatch");
}

FAMILY("scalar_laws", 600, 20000)
{
    int n = c.rng.i(0, 60), k = c.rng.i(0, n);
    ld e = 1; for (int i = 1; i <= k; ++i) e = e * (n - k + i) / i;
    c.nontrivial(n * 100 + k); c.describe(num(n) + " " + num(k));
    c.near(gbs::binomial_law<double>(n, k) / e, 1, 1e-13, "binomial");
    c.near(gbs::binomial_law<double>(size_t(n), size_t(k)) / e, 1, 1e-13, "binomial_unsigned");
    int m = c.rng.i(0, 20); ld fc = 1; for (int i = 2; i <= m; ++i) fc *= i;
    c.near(gbs::factorial(double(m)) / fc, 1, 1e-14, "factorial");
    std::array<double, 4> M{c.rng.uni(-1, 1), c.rng.uni(-1, 1), c.rng.uni(-1, 1), c.rng.uni(-1, 1)};
    c.near(gbs::det(M), ld(M[0]) * M[3] - ld(M[1]) * M[2], 1e-15, "det");
    double a = c.rng.uni(-720, 720);
    c.near(gbs::radians(a), a * 3.14159265358979323846264338327950288L / 180, 1e-14, "radians");
    c.near(gbs::degrees(gbs::radians(a)), a, 1e-12, "degrees");
    std::array<double, 3> x{c.rng.uni(-1, 1), c.rng.uni(-1, 1), c.rng.uni(-1, 1)}, y{c.rng.uni(-1, 1), c.rng.uni(-1, 1), c.rng.uni(-1, 1)};
    ld dt = 0, nx = 0; for (int i = 0; i < 3; ++i) { dt += ld(x[i]) * y[i]; nx += ld(x[i]) * x[i]; }
    c.near(x * y, dt, 1e-15, "dot"); c.near(gbs::norm(x), sqrtl(nx), 1e-15, "norm");
    auto z = x ^ y;
    c.near_pt(z, std::array<ld, 3>{ld(x[1]) * y[2] - ld(x[2]) * y[1], ld(x[2]) * y[0] - ld(x[0]) * y[2], ld(x[0]) * y[1] - ld(x[1]) * y[0]}, 1e-15, "cross");
    std::vector<std::array<double, 3>> V(c.rng.i(1, 20)); for (auto &v : V) v = {c.rng.uni(0.1, 1), c.rng.uni(-1, 1), c.rng.uni(-1, 1)};
    auto V2 = V; gbs::adim(V2);
    for (size_t i = 0; i < V.size(); ++i) { c.near(gbs::norm(V2[i]), 1, 1e-14, "adim_unit"); c.near(V2[i] * V[i], gbs::norm(V[i]), 1e-14, "adim_dir"); }
    ld L = 0; for (size_t i = 1; i < V.size(); ++i) L += gbs::distance(V[i], V[i - 1]);
    c.near(gbs::length(V), L, 1e-13, "polyline_length");
    auto D = gbs::delta(V); bool ok = D.size() == V.size() - 1; for (size_t i = 0; ok && i < D.size(); ++i) ok = D[i] == V[i + 1] - V[i];
    c.check(ok, "delta");
}

int main(int a, char **v) { return vh::run(a, v); }
