// C03: invalid definitions and requests are rejected, objects survive them unchanged, memory stays safe.
#include "gen.h"
#include <gbs/bsctools.h>
#include <gbs/bsstools.h>
#include <gbs/curvetrimmed.h>
#include <list>
using namespace vh;
constexpr double EPS = 100 * 2.220446049250313e-16; // documented knot tolerance
template <class V> bool sorted(const V &k) { for (size_t i = 1; i < k.size(); ++i) if (k[i] < k[i - 1] - EPS) return false; return true; }
template <class V> bool clearly_unsorted(const V &k) { for (size_t i = 1; i < k.size(); ++i) if (k[i] < k[i - 1] - 1e-6) return true; return false; }
static void quiet() { static bool done = false; if (!done) { std::cerr.setstate(std::ios::failbit); done = true; } }

FAMILY("curve_definition", 20000, 600000)
{
    quiet(); auto &r = c.rng; size_t p = r.i(0, 5);
    auto [k, m] = gen::km<double>(r, p, r.i(1, 5), std::max<int>(1, p)); auto f = gen::flat(k, m); size_t n = f.size() - p - 1;
    auto P = gen::points<double, 3>(r, n, 1.); auto w = gen::weights<double>(r, n);
    std::string what; size_t deg = p;
    switch (r.i(0, 13))
    {
    case 0: P.pop_back(); what = "missing pole"; break;
    case 1: P.push_back({0, 0, 0}); what = "extra pole"; break;
    case 2: f.pop_back(); m.back()--; what = "missing knot"; break;
    case 3: f.push_back(f.back()); m.back()++; what = "extra knot"; break;
    case 4: deg = p + r.i(1, 3); what = "degree too high"; break;
    case 5: if (p == 0) { f.clear(); k.clear(); m.clear(); what = "no knots"; } else { deg = p - 1; what = "degree too low"; } break;
    case 6: { std::swap(k.front(), k.back()); f = gen::flat(k, m); what = "unsorted knots"; break; }
    case 7: f.clear(); k.clear(); m.clear(); what = "no knots"; break;
    case 8: P.clear(); w.clear(); what = "no poles"; break;
    case 9: deg = r.i(20, 100000); what = "absurd degree"; break;
    case 10: // degenerate: too few poles for the degree although the size equation holds
        { deg = r.i(2, 6); size_t np = r.i(1, int(deg)); P.resize(np); w.resize(np, 1.); f.clear(); for (size_t i = 0; i < np + deg + 1; ++i) f.push_back(i <= (np + deg) / 2 ? 0 : 1); k = {0, 1}; m = {(np + deg) / 2 + 1, f.size() - (np + deg) / 2 - 1}; what = "fewer poles than degree+1"; break; }
    case 11: { if (k.size() > 2) { std::swap(k[1], k[k.size() - 1]); f = gen::flat(k, m); what = "unsorted knots"; } break; }
    default: break; // valid
    }
    bool valid = f.size() == P.size() + deg + 1 && P.size() >= deg + 1 && !f.empty() && sorted(f);
    if (!what.empty() && valid) return; // cannot happen by construction; skip rather than guess
    c.describe((what.empty() ? "valid" : what) + " deg " + std::to_string(deg) + " poles " + std::to_string(P.size()) + " knots " + str(f)); c.nontrivial(hvec(f) ^ mix(P.size() * 131 + deg));
    c.event(valid ? "definition/valid" : "definition/" + what);
    std::vector<std::array<double, 4>> W(P.size()); for (size_t i = 0; i < P.size(); ++i) W[i] = {P[i][0], P[i][1], P[i][2], 1.};
    bool mult_ok = gen::flat(k, m) == f;
    auto expect = [&](const char *key, auto fn) { bool t = throws(fn); c.check(t != valid, key, t ? "valid definition rejected" : "invalid definition accepted"); };
    expect("curve_flat", [&] { gbs::BSCurve<double, 3> x(P, f, deg); (void)x.value(0.5 * (f.front() + f.back())); });
    expect("rational_flat", [&] { gbs::BSCurveRational<double, 3> x(W, f, deg); (void)x.value(0.5 * (f.front() + f.back())); });
    if (mult_ok) { expect("curve_mults", [&] { gbs::BSCurve<double, 3> x(P, k, m, deg); });
        if (w.size() == P.size()) { expect("rational_weights_mults", [&] { gbs::BSCurveRational<double, 3> x(P, k, m, w, deg); }); expect("rational_weights_mults2", [&] { gbs::BSCurveRational<double, 3> x(P, w, k, m, deg); }); } }
    if (w.size() == P.size()) expect("rational_weights_flat", [&] { gbs::BSCurveRational<double, 3> x(P, f, w, deg); });
    if (valid)
    {   // wrong-length companions
        auto w2 = w; if (r.coin() && !w2.empty()) w2.pop_back(); else w2.push_back(1.);
        c.check(throws([&] { gbs::BSCurveRational<double, 3> x(P, f, w2, deg); }), "weights_length", "wrong number of weights accepted");
        c.check(throws([&] { gbs::BSCurveRational<double, 3> x(P, k, m, w2, deg); }), "weights_length_mults", "wrong number of weights accepted");
        c.check(throws([&] { gbs::BSCurveRational<double, 3> x(P, w2, k, m, deg); }), "weights_length_mults2", "wrong number of weights accepted");
        auto m2 = m; if (r.coin()) m2.pop_back(); else m2.push_back(1);
        c.check(throws([&] { gbs::BSCurve<double, 3> x(P, k, m2, deg); }), "mults_length", "wrong number of multiplicities accepted");
    }
}
FAMILY("surface_definition", 16000, 400000)
{
    quiet(); auto &r = c.rng; size_t p = r.i(1, 3), q = r.i(1, 3);
    auto [ku, mu] = gen::km<double>(r, p, r.i(1, 3), int(p)); auto [kv, mv] = gen::km<double>(r, q, r.i(1, 3), int(q));
    auto fu = gen::flat(ku, mu), fv = gen::flat(kv, mv); size_t n = (fu.size() - p - 1) * (fv.size() - q - 1);
    auto P = gen::points<double, 2>(r, n, 1.); auto w = gen::weights<double>(r, n); size_t dp = p, dq = q; std::string what;
    switch (r.i(0, 12))
    {
    case 0: P.pop_back(); what = "missing pole"; break;
    case 1: P.push_back({0, 0}); what = "extra pole"; break;
    case 2: (r.coin() ? fu : fv).pop_back(); what = "missing knot"; break;
    case 3: { auto &f = r.coin() ? fu : fv; f.push_back(f.back()); what = "extra knot"; break; }
    case 4: (r.coin() ? dp : dq) += r.i(1, 2); what = "degree too high"; break;
    case 5: (r.coin() ? dp : dq) -= 1; what = "degree too low"; break;
    case 6: { auto &f = r.coin() ? fu : fv; std::swap(f.front(), f.back()); what = "unsorted knots"; break; }
    case 7: { (r.coin() ? fu : fv).clear(); what = "no knots"; break; }
    case 8: P.clear(); what = "no poles"; break;
    case 9: // both counts wrap around so that their product matches the number of poles
        { size_t a = r.i(1, 3), b = r.i(1, 3); dp = 5; dq = 5; fu.assign(dp + 1 - a, 0.); fv.assign(dq + 1 - b, 0.); P.resize(a * b); what = "knots shorter than the degree"; break; }
    case 10: { size_t nu = fu.size() - p - 1; // pole count right, but too few poles in one direction
        if (nu > p) { dp = 4; fu.assign(3 + dp + 1, 0.); fu.back() = 1; P.resize(3 * (fv.size() - q - 1)); what = "fewer poles than degree+1"; } break; }
    default: break;
    }
    auto cnt = [](const std::vector<double> &f, size_t d) -> long { return long(f.size()) - long(d) - 1; };
    bool valid = cnt(fu, dp) >= long(dp) + 1 && cnt(fv, dq) >= long(dq) + 1 && size_t(cnt(fu, dp) * cnt(fv, dq)) == P.size() && sorted(fu) && sorted(fv);
    if (!what.empty() && valid) return;
    c.describe((what.empty() ? "valid" : what) + " " + std::to_string(dp) + "x" + std::to_string(dq) + " poles " + std::to_string(P.size()) + " kU " + str(fu) + " kV " + str(fv)); c.nontrivial(hvec(fu) ^ mix(hvec(fv) + P.size() * 31 + dp * 7 + dq));
    c.event(valid ? "definition/valid" : "definition/" + what);
    auto expect = [&](const char *key, auto fn) { bool t = throws(fn); c.check(t != valid, key, t ? "valid definition rejected" : "invalid definition accepted"); };
    expect("surface_flat", [&] { gbs::BSSurface<double, 2> s(P, fu, fv, dp, dq); (void)s.value(fu.front(), fv.back()); });
    std::vector<std::array<double, 3>> W(P.size()); for (size_t i = 0; i < P.size(); ++i) W[i] = {P[i][0], P[i][1], 1.};
    expect("surface_rational", [&] { gbs::BSSurfaceRational<double, 2> s(W, fu, fv, dp, dq); (void)s.value(fu.front(), fv.back()); });
    if (valid)
    {
        auto w2 = w; if (r.coin()) w2.pop_back(); else w2.push_back(1.);
        c.check(throws([&] { gbs::BSSurfaceRational<double, 2> s(P, w2, fu, fv, dp, dq); }), "weights_length", "wrong number of weights accepted");
        c.check(throws([&] { gbs::BSSurfaceRational<double, 2> s(P, w2, ku, kv, mu, mv, dp, dq); }), "weights_length_mults", "wrong number of weights accepted");
        c.check(!throws([&] { gbs::BSSurfaceRational<double, 2> s(P, w, ku, kv, mu, mv, dp, dq); }), "valid_mults", "valid definition rejected");
        auto m2 = mu; if (r.coin()) m2.pop_back(); else m2.push_back(1);
        c.check(throws([&] { gbs::BSSurface<double, 2> s(P, ku, kv, m2, mv, dp, dq); }), "mults_length", "wrong number of multiplicities accepted");
    }
}
static double outside(Rng &r, double a, double b)
{
    double L = b - a, s = std::max({std::fabs(a), std::fabs(b), 1.});
    double d = r.coin(0.4) ? 1e-12 * s * r.uni(1, 10) : r.coin() ? L * r.uni(0.001, 2) : std::pow(10., r.uni(-11, 8)) * s;
    return r.coin() ? a - d : b + d;
}
template <class F> void expect_oob(Case &c, const char *key, F fn)
{
    bool ok = false;
    try { fn(); } catch (const std::domain_error &) { ok = true; } catch (const std::exception &) { ok = true; }
    c.check(ok, key, "request outside the domain accepted");
}
template <size_t dim, class C> void curve_oob(Case &c, const C &crv, bool rational)
{
    auto &r = c.rng; auto [a, b] = crv.bounds(); auto h = gen::chash(crv); c.describe(gen::cdesc(crv)); c.nontrivial(h);
    for (int t = 0; t < 4; ++t)
    {
        double u = outside(r, a, b); size_t d = r.i(0, 2); c.event("out_of_domain");
        expect_oob(c, "curve_value", [&] { crv.value(u, d); }); expect_oob(c, "curve_call", [&] { crv(u); });
        expect_oob(c, "curve_derivatives", [&] { std::array<std::array<double, dim>, 3> D; crv.derivatives(u, 2, D.data()); });
        expect_oob(c, "curve_d_dm", [&] { crv.d_dm(u); }); expect_oob(c, "curve_d_dm2", [&] { crv.d_dm2(u); });
        std::vector<double> l{a, b, u}; std::list<double> l2{u, a};
        expect_oob(c, "curve_values", [&] { crv.values(l, d); }); expect_oob(c, "curve_values_list", [&] { crv.values(l2); });
        expect_oob(c, "curve_d_dms", [&] { crv.d_dms(l); }); expect_oob(c, "curve_d_dm2s", [&] { crv.d_dm2s(l); });
    }
    // within the tolerance: accepted, same as the end
    for (int e = 0; e < 2; ++e)
    {
        double u = e ? b : a, v = u + (e ? 1 : -1) * EPS * 0.4; c.event("within_tolerance");
        auto x = crv.value(u), y = crv.value(v);
        ld s = gen::R(crv).ders(u, 1)[1].b * 1e-10L + 1e-9L; c.near_pt(y, x, s, "tolerance_end", "value within tolerance of the end");
    }
    // not-a-number and infinite parameters: anything but a memory error
    for (double u : {std::nan(""), HUGE_VAL, -HUGE_VAL}) { c.event("non_finite"); try { auto x = crv.value(u, r.i(0, 2)); std::array<std::array<double, dim>, 3> D; crv.derivatives(u, 2, D.data()); (void)x; } catch (const std::exception &) {} }
    c.check(gen::chash(crv) == h, "const_unchanged", "evaluation changed the curve");
}
FAMILY("curve_outside", 3000, 100000)
{
    quiet(); size_t p = c.rng.i(1, 5);
    if (c.rng.coin()) curve_oob<3>(c, gen::curve<double, 3>(c.rng, p, c.rng.i(1, 4)), false); else curve_oob<2>(c, gen::rcurve<double, 2>(c.rng, p, c.rng.i(1, 4)), true);
}
template <size_t dim, class S> void surf_oob(Case &c, const S &s)
{
    auto &r = c.rng; auto [u1, u2, v1, v2] = s.bounds(); c.describe(gen::sdesc(s)); c.nontrivial(gen::shash(s)); auto h = gen::shash(s);
    for (int t = 0; t < 4; ++t)
    {
        double u = r.uni(u1, u2), v = r.uni(v1, v2); int which = r.i(0, 2); if (which != 1) u = outside(r, u1, u2); if (which != 0) v = outside(r, v1, v2);
        size_t du = r.i(0, 1), dv = r.i(0, 1); c.event("out_of_domain");
        expect_oob(c, "surf_value", [&] { s.value(u, v, du, dv); }); expect_oob(c, "surf_derivatives", [&] { std::array<std::array<double, dim>, 4> D; s.derivatives(u, v, 1, 1, D.data()); });
        expect_oob(c, "surf_d_dmu", [&] { s.d_dmu(u, v); }); expect_oob(c, "surf_d_dmv2", [&] { s.d_dmv2(u, v); });
        std::vector<std::array<double, 2>> l{{u1, v1}, {u, v}, {u2, v2}}; expect_oob(c, "surf_values", [&] { s.values(l, du, dv); }); { std::vector<double> U{u1, u1, u2}, V{v1}; c.check(throws([&] { s.values(U, V, du, dv); }) && throws([&] { s.values(V, U, du, dv); }), "surf_values_lists_sizes", "lists of different sizes accepted"); }
        if (which != 1) expect_oob(c, "surf_isoU", [&] { s.isoU(u); });
        if (which != 0) expect_oob(c, "surf_isoV", [&] { s.isoV(v); });
    }
    for (double x : {std::nan(""), HUGE_VAL}) { c.event("non_finite"); try { s.value(x, v1); } catch (const std::exception &) {} try { s.value(u1, x, 1, 0); } catch (const std::exception &) {} }
    double e = EPS * 0.4; c.event("within_tolerance");
    c.near_pt(s.value(u1 - e, v2 + e), s.value(u1, v2), 1e-6L * (1 + gen::R(s).max_pole()), "tolerance_end");
    c.near_pt(s.isoU(u1 - e).value(v2), s.value(u1, v2), 1e-6L * (1 + gen::R(s).max_pole()), "tolerance_iso");
    c.near_pt(s.isoV(v2 + e).value(u1), s.value(u1, v2), 1e-6L * (1 + gen::R(s).max_pole()), "tolerance_iso");
    c.check(gen::shash(s) == h, "const_unchanged", "evaluation changed the surface");
}
FAMILY("surface_outside", 3000, 80000)
{
    quiet(); size_t p = c.rng.i(1, 3), q = c.rng.i(1, 3);
    if (c.rng.coin()) surf_oob<3>(c, gen::surf<double, 3>(c.rng, p, q, c.rng.i(1, 3), c.rng.i(1, 3))); else surf_oob<3>(c, gen::rsurf<double, 3>(c.rng, p, q, c.rng.i(1, 3), c.rng.i(1, 3)));
}
// Installing data of the wrong length, addressing missing poles, invalid edits: object unchanged
template <class C> void curve_requests(Case &c, C crv)
{
    auto &r = c.rng; auto k = crv.knotsFlats(); auto P = crv.poles(); size_t p = crv.degree(); auto b = crv.bounds(); const auto h = gen::chash(crv); c.describe(gen::cdesc(crv)); c.nontrivial(h);
    std::vector<std::array<double, 8>> before; auto ev = [&](const C &x) { std::vector<double> o; for (int i = 0; i <= 6; ++i) { auto v = x.value(b[0] + (b[1] - b[0]) * i / 6.); o.insert(o.end(), v.begin(), v.end()); } return o; };
    auto v0 = ev(crv); std::string log;
    for (int t = 0; t < 6; ++t)
    {
        int op = r.i(0, 9); bool must = true, threw = false; auto Q = P;
        try
        {
            switch (op)
            {
            case 0: log = "pole(n)"; (void)crv.pole(P.size() + r.i(0, 3)); break;
            case 1: log = "pole(n) const"; (void)std::as_const(crv).pole(r.coin() ? size_t(-1) : P.size()); break;
            case 2: log = "copyPoles"; if (r.coin()) Q.pop_back(); else Q.push_back(Q[0]); crv.copyPoles(Q); break;
            case 3: { log = "movePoles"; if (r.coin()) Q.pop_back(); else Q.push_back(Q[0]); auto n = Q.size(); try { crv.movePoles(Q); } catch (...) { c.check(Q.size() == n, "rejected_move_keeps_argument", "poles moved away"); throw; } break; }
            case 4: { log = "copyKnots"; auto kk = k; if (r.coin()) kk.pop_back(); else kk.push_back(kk.back()); crv.copyKnots(kk); break; }
            case 5: log = "insertKnot outside"; crv.insertKnot(outside(r, b[0], b[1]), r.i(1, int(p))); break;
            case 6: { log = "removeKnot not a knot"; must = false; double u = r.coin() ? outside(r, b[0], b[1]) : 0.5 * (k[p] + k[p + 1]); if (k[p] == k[p + 1]) break; crv.removeKnot(u, 1e-3, r.i(1, 3)); break; }
            case 7: log = "removeKnot end"; must = false; crv.removeKnot(b[r.i(0, 1)], 1e3, r.i(1, 3)); break;
            case 8: { log = "trim empty"; double u = r.uni(b[0], b[1]); crv.trim(u, u); break; }
            default: { log = "trim outside"; double L = b[1] - b[0]; if (r.coin()) crv.trim(b[1] + 0.1 * L, b[1] + L); else crv.trim(b[0] - L, b[0] - 0.3 * L); break; }
            }
        }
        catch (const std::exception &) { threw = true; }
        c.event("request/" + log);
        if (must) c.check(threw, "request_rejected", log + " accepted");
        if (!c.check(gen::chash(crv) == h && crv.bounds() == b && crv.degree() == p, "request_unchanged", "definition changed after " + log)) return;
        if (!c.check(ev(crv) == v0, "request_same_values", "values changed after " + log)) return;
    }
}
FAMILY("curve_requests", 6000, 200000)
{
    quiet(); size_t p = c.rng.i(1, 4);
    if (c.rng.coin()) curve_requests(c, gen::curve<double, 3>(c.rng, p, c.rng.i(1, 4), 1)); else curve_requests(c, gen::rcurve<double, 2>(c.rng, p, c.rng.i(1, 4), 1));
}
template <class S> void surf_requests(Case &c, S s)
{
    auto &r = c.rng; auto P = s.poles(); auto b = s.bounds(); const auto h = gen::shash(s); c.describe(gen::sdesc(s)); c.nontrivial(h); std::string log;
    auto nu = s.nPolesU(), nv = s.nPolesV(), dp = s.degreeU(), dq = s.degreeV();
    auto ev = [&](const S &x) { std::vector<double> o; for (int i = 0; i <= 3; ++i) for (int j = 0; j <= 3; ++j) { auto v = x.value(b[0] + (b[1] - b[0]) * i / 3., b[2] + (b[3] - b[2]) * j / 3.); o.insert(o.end(), v.begin(), v.end()); } return o; };
    auto v0 = ev(s);
    for (int t = 0; t < 6; ++t)
    {
        bool must = true, threw = false; auto Q = P;
        try
        {
            switch (r.i(0, 10))
            {
            case 0: log = "pole(nu,.)"; (void)s.pole(nu + r.i(0, 2), r.i(0, int(nv) - 1)); break;
            case 1: log = "pole(.,nv)"; (void)std::as_const(s).pole(r.i(0, int(nu) - 1), nv + r.i(0, 2)); break;
            case 2: log = "copyPoles"; if (r.coin()) Q.pop_back(); else Q.push_back(Q[0]); s.copyPoles(Q); break;
            case 3: { log = "movePoles"; if (r.coin()) Q.pop_back(); else Q.push_back(Q[0]); auto n = Q.size(); try { s.movePoles(Q); } catch (...) { c.check(Q.size() == n, "rejected_move_keeps_argument", "poles moved away"); throw; } break; }
            case 4: log = "insertKnotU outside"; s.insertKnotU(outside(r, b[0], b[1]), 1); break;
            case 5: log = "insertKnotV outside"; s.insertKnotV(outside(r, b[2], b[3]), 1); break;
            case 6: { log = "trimU empty"; double u = r.uni(b[0], b[1]); s.trimU(u, u); break; }
            case 7: { log = "trimV empty"; double u = r.uni(b[2], b[3]); s.trimV(u, u); break; }
            case 8: { log = "trimV outside"; double L = b[3] - b[2]; s.trimV(b[3] + 0.1 * L, b[3] + L); break; }
            case 9: { log = "polesU overflow"; must = false; auto x = s.polesU(nv + r.i(0, 2)); c.check(x.size() == nu && x == s.polesU(nv - 1), "poles_overflow", "last row expected"); break; }
            default: { log = "polesV overflow"; must = false; auto x = s.polesV(nu + r.i(0, 2)); c.check(x.size() == nv && x == s.polesV(nu - 1), "poles_overflow", "last row expected"); break; }
            }
        }
        catch (const std::exception &) { threw = true; }
        c.event("request/" + log);
        if (must) c.check(threw, "request_rejected", log + " accepted");
        if (!c.check(gen::shash(s) == h && s.bounds() == b && s.degreeU() == dp && s.degreeV() == dq, "request_unchanged", "definition changed after " + log)) return;
        if (!c.check(ev(s) == v0, "request_same_values", "values changed after " + log)) return;
    }
    // valid addressing
    for (int t = 0; t < 4; ++t)
    {
        size_t i = r.i(0, int(nu) - 1), j = r.i(0, int(nv) - 1);
        c.check(s.pole(i, j) == P[i + nu * j] && s.polesU(j)[i] == P[i + nu * j] && s.polesV(i)[j] == P[i + nu * j], "pole_addressing", "pole(i,j) is not the (i,j) control point");
    }
}
FAMILY("surface_requests", 5000, 150000)
{
    quiet(); size_t p = c.rng.i(1, 3), q = c.rng.i(1, 3);
    if (c.rng.coin()) surf_requests(c, gen::surf<double, 3>(c.rng, p, q, c.rng.i(1, 3), c.rng.i(1, 3), 1)); else surf_requests(c, gen::rsurf<double, 2>(c.rng, p, q, c.rng.i(1, 3), c.rng.i(1, 3), 1));
}
int main(int a, char **v) { return vh::run(a, v); }
