// C04: histories of curve edits keep the geometry; the monitor tracks the affine change of parameter
// from the original curve (long double model) to the edited one and compares after every step.
#include "gen.h"
#include <gbs/bsctools.h>
using namespace vh;

template <size_t dim, class C> struct Mon
{
    Case &c; ref::Curve R0; ld A = 0, B = 1; // original u = A + B * current u
    ld scale, tol; std::string hist; size_t deg; std::array<double, 2> bnd;
    bool rational;
    Mon(Case &c_, const C &crv, bool rat) : c(c_), R0(gen::R(crv)), rational(rat)
    {
        scale = std::max<ld>(R0.max_pole(), 1e-3L); tol = 2e-9L * scale; deg = crv.degree(); bnd = crv.bounds();
    }
    bool structure(const C &crv)
    {
        auto &k = crv.knotsFlats(); size_t p = crv.degree();
        bool ok = c.check(std::is_sorted(k.begin(), k.end()), "knots_sorted", hist);
        ok &= c.check(k.size() == crv.poles().size() + p + 1, "counts", hist);
        ok &= c.check(p == deg, "degree", hist + " degree " + std::to_string(p) + " expected " + std::to_string(deg));
        if (!ok) return false;
        double L = std::fabs(bnd[1] - bnd[0]) + std::fabs(bnd[0]) + std::fabs(bnd[1]);
        for (size_t i = 0; i <= p; ++i)
            ok &= c.near(k[i], bnd[0], 1e-13 * L, "clamped_begin", hist) && c.near(k[k.size() - 1 - i], bnd[1], 1e-13 * L, "clamped_end", hist);
        auto b = crv.bounds();
        ok &= c.near(b[0], bnd[0], 1e-13 * L, "bounds_begin", hist) && c.near(b[1], bnd[1], 1e-13 * L, "bounds_end", hist);
        return ok;
    }
    bool geometry(const C &crv, ld t, const char *key = "geometry")
    {
        auto b = crv.bounds();
        const int n = 9;
        for (int i = 0; i <= n; ++i)
        {
            double u = i == 0 ? b[0] : i == n ? b[1] : b[0] + (b[1] - b[0]) * ((i + c.rng.uni(-0.4, 0.4)) / n);
            // stay in the sub-domain of the model
            ld v = A + B * ld(u); auto b0 = R0.bounds();
            v = std::min(std::max(v, b0[0]), b0[1]);
            auto x = crv.value(u); auto y = R0.value(v);
            if (!c.near_pt(x, y.v, t, key, hist + " u=" + num(u))) return false;
        }
        if (deg >= 1 && !rational)
        {   // first derivative away from the knots (chain rule)
            double u = b[0] + (b[1] - b[0]) * c.rng.uni(0.01, 0.99);
            ld v = A + B * ld(u); bool nearknot = false;
            for (auto k : R0.U) nearknot |= std::fabs(k - v) < 1e-6L * (R0.U.back() - R0.U.front());
            if (!nearknot)
            {
                auto y = R0.value(v, 1); for (auto &q : y.v) q *= B;
                auto D = R0.ders(v, 1);
                if (!c.near_pt(crv.value(u, 1), y.v, t / scale * 100 * D[1].b * std::fabs(B) + t, "derivative", hist + " u=" + num(u))) return false;
            }
        }
        return true;
    }
};

// multiplicity within the documented knot tolerance (100 eps)
template <class V> size_t gbs_mult(const V &k, double u) { return std::count_if(k.begin(), k.end(), [u](double x) { return std::fabs(x - u) <= 100 * 2.220446049250313e-16; }); }
// relative distance to the closest interior knot
template <class V> double knot_gap(const V &k, double u) { double g = 1e9; for (auto x : k) g = std::min<double>(g, std::fabs(x - u)); return g / (k.back() - k.front()); }

template <size_t dim, class C> void history(Case &c, C crv, bool rational, int len)
{
    auto &r = c.rng;
    Mon<dim, C> M(c, crv, rational);
    c.describe((rational ? "rational " : "") + std::string("dim ") + std::to_string(dim) + " " + gen::cdesc(crv));
    c.nontrivial(gen::chash(crv));
    double shrink = 1;
    for (int s = 0; s < len; ++s)
    {
        auto b = crv.bounds(); auto k = crv.knotsFlats(); size_t p = crv.degree(); const size_t np = crv.poles().size();
        double L = b[1] - b[0];
        auto inside = [&]() { for (int t = 0; t < 100; ++t) { double u = r.uni(b[0] + 0.02 * L, b[1] - 0.02 * L); if (knot_gap(k, u) > 0.01) return u; } return 0.5 * (b[0] + b[1]); };
        auto pick = [&]() { auto d = gbs::knots_and_mults(k).first; if (d.size() > 2 && r.coin(0.4)) { double x = d[r.i(1, int(d.size()) - 2)]; if (r.coin(0.15)) x = std::nextafter(x, r.coin() ? b[0] : b[1]); return x; } return inside(); };
        int op = r.i(0, 9);
        switch (op)
        {
        case 0: case 1:
        {
            double u = r.coin(0.06) ? b[r.i(0, 1)] : pick(); size_t m = r.i(1, int(p) + 1);
            size_t m0 = gbs_mult(k, u);
            M.hist += " insert(" + num(u) + "," + std::to_string(m) + ")"; c.event("op/insertKnot");
            auto ik = crv.insertKnot(u, m);
            size_t m1 = gbs_mult(crv.knotsFlats(), u);
            size_t want = m0 >= p ? m0 : std::min(p, m0 + m);
            c.check(m1 == want, "multiplicity", M.hist + " got " + std::to_string(m1) + " expected " + std::to_string(want));
            c.check(crv.poles().size() == np + (want - m0), "pole_count", M.hist);
            if (m1 >= p && ik < crv.poles().size())
            {
                c.event("interpolated_pole");
                auto q = crv.poles()[ik]; auto v = crv.value(u);
                for (size_t i = 0; i < dim; ++i) c.near(rational ? q[i] / q.back() : q[i], v[i], M.tol, "insertion_index", M.hist);
            }
            else c.check(m1 < p, "insertion_index_range", M.hist);
            break;
        }
        case 2:
        {
            std::vector<std::pair<double, size_t>> km; for (int i = r.i(1, 3); i > 0; --i) km.push_back({pick(), size_t(r.i(1, int(p)))});
            // several distinct requested knots must not be close to each other either
            std::vector<std::pair<double, size_t>> kk;
            for (auto &x : km) { bool ok = true; for (auto &y : kk) ok &= std::fabs(x.first - y.first) > 0.01 * L; if (ok) kk.push_back(x); }
            M.hist += " insertKnots(" + std::to_string(kk.size()) + ")"; c.event("op/insertKnots");
            std::vector<size_t> m0; for (auto &x : kk) m0.push_back(gbs::multiplicity(k, x.first));
            crv.insertKnots(kk);
            for (size_t i = 0; i < kk.size(); ++i)
                c.check(gbs::multiplicity(crv.knotsFlats(), kk[i].first) == std::max(m0[i], kk[i].second), "multiplicity_up_to", M.hist);
            break;
        }
        case 3:
        {
            if (p >= 7) break;
            size_t t = r.coin(0.7) ? 1 : 2;
            auto [d0, mm0] = gbs::knots_and_mults(k);
            M.hist += " elevate(" + std::to_string(t) + ")"; c.event("op/increaseDegree");
            crv.increaseDegree(t); M.deg += t;
            auto [d1, mm1] = gbs::knots_and_mults(crv.knotsFlats());
            bool ok = d0.size() == d1.size();
            for (size_t i = 0; ok && i < d0.size(); ++i) ok = mm1[i] == mm0[i] + t;
            c.check(ok, "elevated_multiplicities", M.hist);
            break;
        }
        case 4:
            M.hist += " reverse"; c.event("op/reverse");
            if (r.coin()) crv.reverse();
            else { auto before = gen::chash(crv); auto x = crv.reversed(); c.check(gen::chash(crv) == before, "reversed_const", M.hist); crv = x; }
            M.A = M.A + M.B * (ld(b[0]) + b[1]); M.B = -M.B;
            break;
        case 5:
        {
            double n0 = r.uni(-3, 3), n1 = n0 + r.uni(0.3, 5);
            switch (r.i(0, 7))
            {   // related to the present bounds: round values, pure shift, one end kept, unchanged, scaled
            case 0: case 1: n0 = r.i(-12, 12) / 4.; n1 = n0 + r.i(1, 12) / 4.; break;
            case 2: case 3: { double k = r.i(-16, 16) / 4.; n0 = b[0] + k; n1 = b[1] + k; break; }
            case 4: if (r.coin()) { n0 = b[0]; n1 = n0 + r.uni(0.3, 5); } else { n1 = b[1]; n0 = n1 - r.uni(0.3, 5); } break;
            case 5: if (r.coin()) { n0 = b[0]; n1 = b[1]; } else { n0 = 0.; n1 = 1.; } break;
            default: break;
            }
            M.hist += " bounds(" + num(n0) + "," + num(n1) + ")"; c.event("op/changeBounds");
            if (r.coin()) crv.changeBounds(n0, n1); else crv.changeBounds(std::array<double, 2>{n0, n1});
            // u_old = b0 + (u - n0) * L/(n1-n0)
            ld f = (ld(b[1]) - b[0]) / (ld(n1) - n0);
            M.A = M.A + M.B * (b[0] - f * n0); M.B = M.B * f; M.bnd = {n0, n1};
            break;
        }
        case 6: case 7:
        {
            if (shrink < 0.1) break;
            double a = r.coin(0.3) ? b[0] : pick(), e = r.coin(0.3) ? b[1] : pick();
            if (std::fabs(e - a) < 0.15 * L) break;
            shrink *= std::fabs(e - a) / L;
            bool swp = r.coin(0.2);
            M.hist += " trim(" + num(swp ? e : a) + "," + num(swp ? a : e) + ")"; c.event("op/trim");
            crv.trim(swp ? e : a, swp ? a : e);
            M.bnd = {std::min(a, e), std::max(a, e)};
            break;
        }
        case 8:
        {   // insertion followed by removal restores the curve
            double u = pick(); size_t m0 = gbs_mult(k, u); if (m0 >= p) break;
            size_t m = r.i(1, int(p - m0));
            M.hist += " insert_remove(" + num(u) + "," + std::to_string(m) + ")"; c.event("op/insert_remove");
            crv.insertKnot(u, m); crv.removeKnot(u, double(1e-7L * M.scale), m + (r.coin(0.2) && m0 == 0 ? 3 : 0));
            if (m0 == 0)
            {
                c.check(crv.knotsFlats() == k, "removal_restores_knots", M.hist);
                c.check(crv.poles().size() == np, "removal_restores_count", M.hist);
            }
            else c.check(crv.poles().size() <= np, "removal_restores_count", M.hist);
            break;
        }
        default:
        {   // removal with a tolerance far below the geometry's features: nothing may move
            auto d = gbs::knots_and_mults(k).first; if (d.size() < 3) break;
            double u = d[r.i(0, int(d.size()) - 1)]; size_t m = r.i(1, int(p));
            M.hist += " remove(" + num(u) + "," + std::to_string(m) + ")"; c.event("op/removeKnot");
            crv.removeKnot(u, double(1e-11L * M.scale), m);
            break;
        }
        }
        if (!M.structure(crv)) return;
        if (!M.geometry(crv, M.tol)) return;
        c.event("steps");
    }
}

FAMILY("history_poly", 16000, 150000)
{
    size_t p = c.rng.i(1, 5); int sp = c.rng.i(1, 5), mm = c.rng.coin() ? 1 : int(p);
    int len = c.rng.i(2, 9);
    if (c.rng.coin()) history<3>(c, gen::curve<double, 3>(c.rng, p, sp, mm, 1.), false, len); else history<1>(c, gen::curve<double, 1>(c.rng, p, sp, mm, 1.), false, len);
}
FAMILY("history_rational", 10000, 100000)
{
    size_t p = c.rng.i(1, 4); int sp = c.rng.i(1, 4), mm = c.rng.coin() ? 1 : int(p);
    int len = c.rng.i(2, 8);
    history<2>(c, gen::rcurve<double, 2>(c.rng, p, sp, mm, 1.), true, len);
}
// Bezier decomposition and elevation of the pieces
FAMILY("bezier_pieces", 4000, 40000)
{
    size_t p = c.rng.i(1, 6), t = c.rng.i(1, 4);
    auto crv = gen::curve<double, 2>(c.rng, p, c.rng.i(1, 5), -1, 1.);
    auto R = gen::R(crv); c.describe(gen::cdesc(crv)); c.nontrivial(gen::chash(crv));
    auto seg = gbs::bezier_segments(crv.knotsFlats(), crv.poles(), p);
    auto d = gbs::knots_and_mults(crv.knotsFlats()).first;
    if (!c.check(seg.size() + 1 == d.size(), "segments_count")) return;
    auto bez = [](std::vector<std::array<double, 2>> q, ld s) { std::vector<std::array<ld, 2>> P; for (auto &x : q) P.push_back({x[0], x[1]});
        for (size_t n = P.size(); n > 1; --n) for (size_t i = 0; i + 1 < n; ++i) for (int k = 0; k < 2; ++k) P[i][k] = (1 - s) * P[i][k] + s * P[i + 1][k]; return P[0]; };
    for (size_t i = 0; i < seg.size(); ++i)
    {
        c.check(seg[i].second.first == d[i] && seg[i].second.second == d[i + 1], "segment_range");
        if (!c.check(seg[i].first.size() == p + 1, "segment_poles")) return;
        auto el = gbs::increase_bezier_degree(seg[i].first, p, t);
        if (!c.check(el.size() == p + 1 + t, "elevated_poles")) return;
        for (ld s : {0.0L, 0.3L, 0.71L, 1.0L})
        {
            ld u = d[i] + s * (ld(d[i + 1]) - d[i]); auto y = R.value(u).v;
            if (s == 1.0L && i + 1 < seg.size()) continue; // value at the knot is checked from the next segment
            c.near_pt(bez(seg[i].first, s), y, 1e-11L, "segment_value"); c.near_pt(bez(el, s), y, 1e-11L, "elevated_value");
        }
    }
}
// Removal within tolerance: the deviation never exceeds what was allowed, otherwise nothing changes
FAMILY("removal_tolerance", 10000, 120000)
{
    auto &r = c.rng; size_t p = r.i(2, 5);
    auto crv = gen::smooth_curve<double, 2>(r, p, r.i(2, 6), 0.3);
    // make some knots nearly removable: insert, then perturb the poles
    auto k0 = crv.knotsFlats(); double u = 0; bool ins = r.coin(0.6);
    size_t num_ = r.i(1, 3);
    if (ins)
    {
        for (int t = 0; t < 50; ++t) { u = r.uni(k0.front(), k0.back()); if (knot_gap(k0, u) > 0.03) break; }
        crv.insertKnot(u, num_);
        double amp = std::pow(10., r.uni(-9, -2));
        auto P = crv.poles(); for (auto &q : P) for (auto &x : q) x += r.uni(-amp, amp); crv.copyPoles(P);
    }
    else { auto d = gbs::knots_and_mults(k0).first; if (d.size() < 3) return; u = d[r.i(1, int(d.size()) - 2)]; }
    double tol = std::pow(10., r.uni(-8, -1));
    auto R = gen::R(crv); auto before = crv; c.describe(gen::cdesc(crv) + " remove " + num(u) + " x" + std::to_string(num_) + " tol " + num(tol)); c.nontrivial(gen::chash(crv));
    int mode = r.i(0, 2); size_t m0 = gbs::multiplicity(crv.knotsFlats(), u), removed = 0;
    auto K = crv.knotsFlats(); auto P = crv.poles();
    if (mode == 0) { crv.removeKnot(u, tol, num_); K = crv.knotsFlats(); P = crv.poles(); removed = before.poles().size() - P.size(); }
    else if (mode == 1) removed = gbs::remove_knot(u, p, num_, K, P, tol);
    else { num_ = 1; removed = gbs::remove_knot(u, p, K, P, tol); }
    c.check(removed <= num_ && removed <= m0, "removed_count");
    if (!c.check(P.size() + removed == before.poles().size() && K.size() == P.size() + p + 1, "removed_sizes")) return;
    c.check(gbs::multiplicity(K, u) + removed == m0, "removed_multiplicity");
    c.event(removed ? "removed" : "refused");
    if (!removed) { c.check(P == before.poles() && K == before.knotsFlats(), "refused_unchanged"); return; }
    gbs::BSCurve<double, 2> res(P, K, p);
    ld dev = 0; for (int i = 0; i <= 60; ++i) { double t = K.front() + (K.back() - K.front()) * i / 60.; auto a = res.value(t); auto y = R.value(t).v; dev = std::max(dev, std::hypot(a[0] - y[0], a[1] - y[1])); }
    c.near(dev, 0, ld(removed) * tol * 1.0001L + 1e-12L, "removal_deviation", "removed " + std::to_string(removed));
}
// An exactly removable knot is removed, including from the free functions
FAMILY("removal_exact", 5000, 60000)
{
    auto &r = c.rng; size_t p = r.i(1, 5);
    auto crv = gen::curve<double, 3>(r, p, r.i(1, 5), 1, 1.); auto k0 = crv.knotsFlats(); double u = 0;
    for (int t = 0; t < 200; ++t) { u = r.uni(k0.front(), k0.back()); if (knot_gap(k0, u) > 0.02) break; }
    size_t m = r.i(1, int(p)), q = r.i(1, int(m)); c.describe(gen::cdesc(crv) + " u " + num(u)); c.nontrivial(gen::chash(crv));
    auto R = gen::R(crv); crv.insertKnot(u, m);
    auto K = crv.knotsFlats(); auto P = crv.poles();
    if (r.coin()) { auto n = gbs::remove_knot(u, p, q, K, P, 1e-8); c.check(n == q, "exact_removed_count", std::to_string(n) + " of " + std::to_string(q)); }
    else gbs::remove_knot(u, q, K, P, p);
    if (!c.check(K.size() == P.size() + p + 1 && gbs::multiplicity(K, u) == m - q, "exact_removed_sizes")) return;
    gbs::BSCurve<double, 3> res(P, K, p);
    for (int i = 0; i <= 20; ++i) { double t = K.front() + (K.back() - K.front()) * i / 20.; c.near_pt(res.value(t), R.value(t).v, 1e-8L, "exact_removal_value"); }
}
int main(int a, char **v) { return vh::run(a, v); }
