// C20: affine transforms commute with evaluation.
#include "gen.h"
#include <gbs/transform.h>
#include <gbs/bsctools.h>
#include <gbs/bsstools.h>
using namespace vh;
using gbs::operator+;
using gbs::operator-;
using gbs::operator*;
using gbs::operator/;
template <size_t dim> struct Aff
{
    std::array<std::array<ld, dim>, dim> A{}; std::array<ld, dim> b{}; ld mag = 1; // bound of the magnitudes met on the way
    Aff() { for (size_t i = 0; i < dim; ++i) A[i][i] = 1; }
    void then(const Aff &o)
    {
        Aff r; for (size_t i = 0; i < dim; ++i) { r.b[i] = o.b[i]; for (size_t j = 0; j < dim; ++j) { r.A[i][j] = 0; r.b[i] += o.A[i][j] * b[j]; for (size_t k = 0; k < dim; ++k) r.A[i][j] += o.A[i][k] * A[k][j]; } }
        A = r.A; b = r.b;
    }
    std::vector<ld> lin(const std::vector<ld> &x) const { std::vector<ld> y(dim, 0); for (size_t i = 0; i < dim; ++i) for (size_t j = 0; j < dim; ++j) y[i] += A[i][j] * x[j]; return y; }
    ld norm() const { ld m = 0; for (auto &r : A) { ld s = 0; for (auto x : r) s += std::fabs(x); m = std::max(m, s); } return m; }
    ld bmax() const { ld m = 0; for (auto x : b) m = std::max(m, std::fabs(x)); return m; }
};
template <size_t dim> static std::array<double, dim> vec(Rng &r, double s) { std::array<double, dim> x; for (auto &y : x) y = r.coin(0.1) ? 0. : r.uni(-s, s); return x; }
static double angle(Rng &r) { switch (r.i(0, 4)) { case 0: return r.i(-8, 8) * std::numbers::pi / 4; case 1: return r.uni(-1e-6, 1e-6); case 2: return r.uni(-50, 50); default: return r.uni(-4, 4); } }
template <size_t dim> static Aff<dim> rot(double a, std::array<double, dim> ax)
{
    Aff<dim> R; ld c = std::cos(ld(a)), s = std::sin(ld(a));
    if constexpr (dim == 2) { R.A = {{{c, -s}, {s, c}}}; }
    else if constexpr (dim == 3)
    {   // Rodrigues
        ld n = 0; for (auto x : ax) n += ld(x) * x; n = std::sqrt(n); std::array<ld, 3> k{ax[0] / n, ax[1] / n, ax[2] / n};
        std::array<std::array<ld, 3>, 3> K{{{0, -k[2], k[1]}, {k[2], 0, -k[0]}, {-k[1], k[0], 0}}};
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { ld kk = 0; for (int l = 0; l < 3; ++l) kk += K[i][l] * K[l][j]; R.A[i][j] = (i == j) + s * K[i][j] + (1 - c) * kk; }
    }
    return R;
}
// frame with perpendicular x
static gbs::ax2<double, 3> frame(Rng &r, bool unit)
{
    std::array<double, 3> z, x; do { z = vec<3>(r, 2); x = gbs::cross(z, vec<3>(r, 2)); } while (gbs::norm(z) < 0.2 || gbs::norm(x) < 0.1);
    if (unit) { z = z / gbs::norm(z); x = x / gbs::norm(x); }
    if (r.coin(0.3)) { int k = r.i(0, 5); std::array<std::array<double, 3>, 3> e{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; z = e[k % 3]; x = e[(k % 3 + 1 + k / 3) % 3]; }
    return {vec<3>(r, 3), z, x};
}
static Aff<3> to_world(const gbs::ax2<double, 3> &R) // local coordinates -> world
{
    Aff<3> M; std::array<ld, 3> z, x, y; ld nz = 0, nx = 0; for (int i = 0; i < 3; ++i) { nz += ld(R[1][i]) * R[1][i]; nx += ld(R[2][i]) * R[2][i]; } nz = std::sqrt(nz); nx = std::sqrt(nx);
    for (int i = 0; i < 3; ++i) { z[i] = R[1][i] / nz; x[i] = R[2][i] / nx; } y = {z[1] * x[2] - z[2] * x[1], z[2] * x[0] - z[0] * x[2], z[0] * x[1] - z[1] * x[0]};
    for (int i = 0; i < 3; ++i) { M.A[i] = {x[i], y[i], z[i]}; M.b[i] = R[0][i]; } return M;
}
static Aff<3> inverse_rigid(const Aff<3> &M) { Aff<3> r; for (int i = 0; i < 3; ++i) { r.b[i] = 0; for (int j = 0; j < 3; ++j) { r.A[i][j] = M.A[j][i]; r.b[i] -= M.A[j][i] * M.b[j]; } } return r; }

// one random transform applied to g through the library; the matching affine map is returned
template <size_t dim, class G> static Aff<dim> step(Case &c, G &g, std::string &hist)
{
    using namespace gbs; Rng &r = c.rng; constexpr bool curve = requires { g.knotsFlats(); };
    Aff<dim> T; int k = r.i(0, 7); auto v = vec<dim>(r, 3);
    switch (k)
    {
    case 0: case 1:
    {
        hist += " rotate"; c.event("op/rotate"); double a = angle(r);
        if constexpr (dim == 2) { rotate(g, a); T = rot<2>(a, {}); }
        else if constexpr (dim == 3) { do v = vec<3>(r, 2); while (gbs::norm(v) < 0.1); if (r.coin(0.3)) { v = {0, 0, 0}; v[size_t(r.i(0, 2))] = r.coin() ? 1 : -3; } rotate(g, a, v); T = rot<3>(a, v); }
        break;
    }
    case 2:
        hist += " translate"; c.event("op/translate");
        if constexpr (curve) translate(g, v); else transform(g, [&](const auto &x) { return translated(x, v); });
        for (size_t i = 0; i < dim; ++i) T.b[i] = v[i];
        break;
    case 3:
    {
        double s = r.coin(0.2) ? -1. : r.coin(0.2) ? 1. : std::pow(2., r.uni(-1.5, 1.5)) * (r.coin(0.2) ? -1 : 1); bool ctr = r.coin(); hist += " scale"; c.event("op/scale");
        if (ctr) scale(g, s, v); else { scale(g, s); v = {}; }
        for (size_t i = 0; i < dim; ++i) { T.A[i][i] = s; T.b[i] = ld(v[i]) - ld(s) * v[i]; }
        break;
    }
    case 4:
    {   // one coordinate: mirror or stretch
        double s = r.coin() ? -1. : std::pow(2., r.uni(-1.5, 1.5)); size_t i = size_t(r.i(0, int(dim) - 1)); bool ctr = r.coin(); hist += " scale_coord" + num(i); c.event("op/scale_coord"); if (!ctr) v = {};
        if constexpr (curve) { if (ctr) scale(g, s, i, v); else scale(g, s, i); } else transform(g, [&](const auto &x) { return scaled(x, s, i, v); });
        T.A[i][i] = s; T.b[i] = ld(v[i]) - ld(s) * v[i];
        break;
    }
    case 5:
        if constexpr (dim == 3)
        {
            hist += " frames"; c.event("op/frames"); bool unit = r.coin(); auto a = frame(r, unit), b = frame(r, unit); auto M = build_trf_matrix<double>(a, b); auto [L, P] = build_trf_loc_and_matrix<double>(a, b);
            if (r.coin()) transform(g, [&](const auto &x) { return transformed(x, M); }); else transform(g, [&, L = L, P = P](const auto &x) { return transformed(x, L, P); });
            T = inverse_rigid(to_world(a)); T.then(to_world(b));
        }
        break;
    case 6:
        if constexpr (dim == 3)
        {
            hist += " frame"; c.event("op/frame"); auto a = frame(r, r.coin()); auto M = build_trf_matrix<double>(a); auto [L, P] = build_trf_loc_and_matrix<double>(a);
            if (r.coin()) transform(g, [&](const auto &x) { return transformed(x, M); }); else transform(g, [&, L = L, P = P](const auto &x) { return transformed(x, L, P); });
            T = to_world(a);
        }
        break;
    default:
    {   // any affine map, by a function
        hist += " map"; c.event("op/map"); for (auto &row : T.A) for (auto &x : row) x += r.uni(-0.3, 0.3); for (size_t i = 0; i < dim; ++i) T.b[i] = v[i];
        transform(g, [&](const auto &x) { auto y = x; for (size_t i = 0; i < dim; ++i) { y[i] = double(T.b[i]); for (size_t j = 0; j < dim; ++j) y[i] += double(T.A[i][j]) * x[j]; } return y; });
        for (auto &row : T.A) for (auto &x : row) x = double(x);
    }
    }
    return T;
}
template <size_t dim, class G> static void curve_case(Case &c, G g)
{
    auto g0 = g; auto R = gen::R(g0); std::string hist; Aff<dim> M; ld mag = R.max_pole() + 1; int n = c.rng.i(1, 8); c.describe(gen::cdesc(g0)); uint64_t h = gen::chash(g0); bool rat = R.rational;
    for (int i = 0; i < n; ++i)
    {
        auto T = step<dim>(c, g, hist); M.then(T); mag = std::max({mag, M.norm() * (R.max_pole() + 1) + M.bmax(), T.norm() * mag + T.bmax()}); h = mix(h ^ hash_str(hist));
        if (!c.check(g.knotsFlats() == g0.knotsFlats() && g.degree() == g0.degree() && g.poles().size() == g0.poles().size() && g.bounds() == g0.bounds(), "definition", hist)) return;
        bool ok = true; auto U = gen::params<double>(c.rng, g0.knotsFlats(), 4);
        for (auto u : U) for (size_t d = 0; d <= 2 && ok; ++d)
        {
            auto e = R.value(u, d); auto y = M.lin(e.v); if (d == 0) for (size_t k = 0; k < dim; ++k) y[k] += M.b[k]; std::array<double, dim> E; for (size_t k = 0; k < dim; ++k) E[k] = double(y[k]);
            // rounding of the transformed poles amplified by the derivative weights
            ld amp = d == 0 ? mag : mag * (e.b / (R.max_pole() + 1e-300L)) + e.b * M.norm(); if (d) { auto q = R.ders(u, d); (void)q; }
            ld wamp = rat && d ? std::pow(20.L, ld(d)) * (1 + e.b) * mag : 0; ld span = 0; { auto BB_ = ref::basis(R.P.size(), R.p, u, R.U, d); for (auto &B : BB_.D[d]) span += std::fabs(B); }
            ok = c.near_pt(g.value(u, d), E, 1e-13L * (1 + amp + span * mag * (rat ? 10 : 1) + wamp), "d" + num(d), "u=" + num(u) + hist); c.event("compared");
        }
        if (!ok) return;
    }
    // the non-mutating form
    auto before = gen::chash(g); auto v = vec<dim>(c.rng, 2); auto t = gbs::transformed(g, [&](const auto &x) { return gbs::translated(x, v); }); c.check(gen::chash(g) == before, "transformed_keeps_argument"); auto m = g; gbs::transform(m, [&](const auto &x) { return gbs::translated(x, v); }); c.check(gen::chash(m) == gen::chash(t), "transformed_same"); 
    // a further coordinate
    double val = c.rng.coin(0.3) ? 0. : c.rng.uni(-3, 3); auto q = gbs::add_dimension(g, val); c.event("op/add_dimension");
    for (auto u : gen::params<double>(c.rng, g0.knotsFlats(), 3)) for (size_t d = 0; d <= 1; ++d) { auto a = g.value(u, d); auto b = q.value(u, d); double s = 1; std::array<double, dim + 1> E; for (size_t k = 0; k < dim; ++k) { E[k] = a[k]; s = std::max(s, std::fabs(a[k])); } E[dim] = d ? 0. : val; ld span = 0; { auto BB_ = ref::basis(R.P.size(), R.p, u, R.U, d); for (auto &B : BB_.D[d]) span += std::fabs(B); } c.near_pt(b, E, 1e-12L * (s + std::fabs(val)) * (1 + (rat ? 20 : 1) * span), "add_dimension", num(d)); }
    c.nontrivial(h);
}
FAMILY("curves2d", 3000, 120000) { int p = c.rng.i(1, 6), s = c.rng.i(1, 6); if (c.rng.coin()) curve_case<2>(c, gen::curve<double, 2>(c.rng, p, s, -1, 1.)); else curve_case<2>(c, gen::rcurve<double, 2>(c.rng, p, s, -1, 1.)); }
FAMILY("curves3d", 3000, 120000) { int p = c.rng.i(1, 6), s = c.rng.i(1, 6); if (c.rng.coin()) curve_case<3>(c, gen::curve<double, 3>(c.rng, p, s, -1, 1.)); else curve_case<3>(c, gen::rcurve<double, 3>(c.rng, p, s, -1, 1.)); }
FAMILY("many_poles", 12, 200) { int s = c.rng.i(900, 1500); if (c.rng.coin()) curve_case<3>(c, gen::curve<double, 3>(c.rng, 2, s, 1, 1.)); else curve_case<3>(c, gen::rcurve<double, 3>(c.rng, 2, s, 1, 1.)); }

template <size_t dim, class G> static void surf_case(Case &c, G g)
{
    auto g0 = g; auto R = gen::R(g0); std::string hist; Aff<dim> M; ld mag = R.max_pole() + 1; int n = c.rng.i(1, 6); c.describe(gen::sdesc(g0)); uint64_t h = gen::shash(g0); bool rat = R.rational;
    for (int i = 0; i < n; ++i)
    {
        auto T = step<dim>(c, g, hist); M.then(T); mag = std::max({mag, M.norm() * (R.max_pole() + 1) + M.bmax(), T.norm() * mag + T.bmax()}); h = mix(h ^ hash_str(hist));
        if (!c.check(g.knotsFlatsU() == g0.knotsFlatsU() && g.knotsFlatsV() == g0.knotsFlatsV() && g.degreeU() == g0.degreeU() && g.degreeV() == g0.degreeV() && g.poles().size() == g0.poles().size() && g.bounds() == g0.bounds(), "definition", hist)) return;
        bool ok = true; auto U = gen::params<double>(c.rng, g0.knotsFlatsU(), 2), V = gen::params<double>(c.rng, g0.knotsFlatsV(), 2);
        for (size_t a = 0; a < U.size(); ++a) for (size_t du = 0; du <= 1 && ok; ++du) for (size_t dv = 0; dv + du <= 2 && ok; ++dv)
        {
            double u = U[a], v = V[c.rng.next() % V.size()]; auto e = R.value(u, v, du, dv); auto y = M.lin(e.v); if (du + dv == 0) for (size_t k = 0; k < dim; ++k) y[k] += M.b[k]; std::array<double, dim> E; for (size_t k = 0; k < dim; ++k) E[k] = double(y[k]);
            ld su = 0, sv = 0; { auto BB_ = ref::basis(R.nu(), R.p, u, R.U, du); for (auto &B : BB_.D[du]) su += std::fabs(B); } { auto BB_ = ref::basis(R.nv(), R.q, v, R.V, dv); for (auto &B : BB_.D[dv]) sv += std::fabs(B); }
            ld wamp = rat && du + dv ? std::pow(20.L, ld(du + dv)) * (1 + e.b) * mag : 0;
            ok = c.near_pt(g.value(u, v, du, dv), E, 1e-13L * (1 + mag + e.b * M.norm() + su * sv * mag * (rat ? 10 : 1) + wamp), "d" + num(du) + num(dv), "u=" + num(u) + " v=" + num(v) + hist); c.event("compared");
        }
        if (!ok) return;
    }
    auto before = gen::shash(g); auto v = vec<dim>(c.rng, 2); auto t = gbs::transformed(g, [&](const auto &x) { return gbs::translated(x, v); }); c.check(gen::shash(g) == before, "transformed_keeps_argument"); auto m = g; gbs::transform(m, [&](const auto &x) { return gbs::translated(x, v); }); c.check(gen::shash(m) == gen::shash(t), "transformed_same");
    double val = c.rng.coin(0.3) ? 0. : c.rng.uni(-3, 3); auto q = gbs::add_dimension(g, val); c.event("op/add_dimension");
    for (int i = 0; i < 4; ++i) { auto b = g.bounds(); double u = i ? std::min(c.rng.uni(b[0], b[1]), b[1]) : b[1], w = std::min(c.rng.uni(b[2], b[3]), b[3]); auto a = g.value(u, w); auto z = q.value(u, w); double s = 1; std::array<double, dim + 1> E; for (size_t k = 0; k < dim; ++k) { E[k] = a[k]; s = std::max(s, std::fabs(a[k])); } E[dim] = val; c.near_pt(z, E, 1e-12L * (s + std::fabs(val)) * (rat ? 10 : 1), "add_dimension"); }
    c.nontrivial(h);
}
FAMILY("surfaces", 3000, 100000)
{
    int p = c.rng.i(1, 4), q = c.rng.i(1, 4), s = c.rng.i(1, 4), t = c.rng.i(1, 4);
    switch (c.rng.i(0, 3)) { case 0: surf_case<2>(c, gen::surf<double, 2>(c.rng, p, q, s, t, -1, 1.)); break; case 1: surf_case<2>(c, gen::rsurf<double, 2>(c.rng, p, q, s, t, -1, 1.)); break; case 2: surf_case<3>(c, gen::surf<double, 3>(c.rng, p, q, s, t, -1, 1.)); break; default: surf_case<3>(c, gen::rsurf<double, 3>(c.rng, p, q, s, t, -1, 1.)); }
}
// ---- points
template <size_t dim> static std::array<double, dim> ap(const Aff<dim> &M, const std::array<double, dim> &x) { std::array<double, dim> y; for (size_t i = 0; i < dim; ++i) { ld s = M.b[i]; for (size_t j = 0; j < dim; ++j) s += M.A[i][j] * x[j]; y[i] = double(s); } return y; }
FAMILY("points", 8000, 300000)
{
    using namespace gbs; Rng &r = c.rng; double sc = std::pow(10., r.uni(-6, 6)); auto tol = [&](double m) { return 1e-13 * (m + sc); };
    std::array<double, 2> x = vec<2>(r, sc); std::array<double, 3> y = vec<3>(r, sc); double a = angle(r); c.describe("points"); c.nontrivial(hvec(x) ^ hvec(y));
    auto R2 = rot<2>(a, {}); c.near_pt(rotated(x, a), ap(R2, x), tol(0), "rotated2"); { auto z = x; rotate(z, a); c.check(z == rotated(x, a), "rotate2_same"); rotate(z, -a); c.near_pt(z, x, tol(0), "rotate2_inverse"); }
    { auto O = vec<2>(r, sc); auto z = x; rotate<double, 2>(z, a, O); Aff<2> M; for (int i = 0; i < 2; ++i) M.b[i] = -ld(O[i]); M.then(R2); for (int i = 0; i < 2; ++i) M.b[i] += O[i]; c.near_pt(z, ap(M, x), tol(0) * 4, "rotate2_centre"); auto o = O; rotate<double, 2>(o, a, O); c.near_pt(o, O, tol(0), "rotate2_fixed_point"); }
    std::array<double, 3> ax; do ax = vec<3>(r, 1); while (norm(ax) < 0.05); double as = std::pow(10., r.uni(-3, 3)); ax = ax * as;
    auto R3 = rot<3>(a, ax); auto z = rotated(y, a, ax); c.near_pt(z, ap(R3, y), tol(0) * 4, "rotated3"); c.near(norm(z), norm(y), tol(0) * 4, "rotation_norm"); { auto w = y; auto keep = ax; rotate(w, a, ax); c.check(w == z && ax == keep, "rotate3_same"); rotate(w, -a, ax); c.near_pt(w, y, tol(0) * 8, "rotate3_inverse"); }
    auto t2 = vec<3>(r, sc); c.near_pt(translated(y, t2), y + t2, 0, "translated"); { auto w = y; translate(w, t2); c.check(w == translated(y, t2), "translate_same"); }
    { std::array<double, 4> w{y[0], y[1], y[2], r.uni(0.1, 3)}; auto w0 = w; translate<double, 3>(w, t2); for (int i = 0; i < 3; ++i) c.near(w[i], ld(w0[i]) + ld(t2[i]) * w0[3], tol(0) * 4, "translate_weighted"); c.check(w[3] == w0[3], "translate_weighted_keeps_weight"); }
    double s = r.uni(-3, 3); auto C = vec<3>(r, sc); for (int k = 0; k < 3; ++k) { auto w = scaled(y, s, C); c.near(w[k], (ld(y[k]) - C[k]) * s + C[k], tol(0) * 8, "scaled"); auto q = y; scale(q, s, C); c.check(q == w, "scale_same"); auto v = scaled(y, s, size_t(k), C); for (int i = 0; i < 3; ++i) c.near(v[i], i == k ? (ld(y[i]) - C[i]) * s + C[i] : ld(y[i]), i == k ? tol(0) * 8 : 0, "scaled_coord"); }
    auto A = frame(r, r.coin()), B = frame(r, r.coin()); auto M = build_trf_matrix<double>(A, B); auto T = inverse_rigid(to_world(A)); T.then(to_world(B));
    c.near_pt(transformed(y, M), ap(T, y), tol(10) * 8, "frames"); c.near_pt(transformed(A[0], M), B[0], tol(10) * 8, "frames_origin"); auto N = build_trf_matrix<double>(B, A); c.near_pt(transformed(transformed(y, M), N), y, tol(20) * 16, "frames_inverse");
    auto dirx = A[0] + A[2] / norm(A[2]), dirz = A[0] + A[1] / norm(A[1]); c.near_pt(transformed(dirx, M), B[0] + B[2] / norm(B[2]), tol(10) * 8, "frames_x"); c.near_pt(transformed(dirz, M), B[0] + B[1] / norm(B[1]), tol(10) * 8, "frames_z");
    auto [L, P] = build_trf_loc_and_matrix<double>(A, B); c.near_pt(transformed(y, L, P), transformed(y, M), tol(10) * 8, "matrix_forms"); { auto w = y; transform(w, M); c.check(w == transformed(y, M), "transform_same"); auto v = y; transform(v, L, P); c.check(v == transformed(y, L, P), "transform_loc_same"); }
    auto W = build_trf_matrix<double>(A); c.near_pt(transformed(y, W), ap(to_world(A), y), tol(10) * 8, "frame");
    auto d = add_dimension<double, 3>(y, s); c.check(d[0] == y[0] && d[1] == y[1] && d[2] == y[2] && d[3] == s, "add_dimension_point"); c.event("points");
}
int main(int a, char **v) { return vh::run(a, v); }
