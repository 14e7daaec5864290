// C05: histories of surface edits keep the geometry.
#include "gen.h"
#include <gbs/bsstools.h>
using namespace vh;
static size_t mult(const std::vector<double> &k, double u) { return std::count_if(k.begin(), k.end(), [u](double x) { return std::fabs(x - u) <= 100 * 2.220446049250313e-16; }); }
static double knot_gap(const std::vector<double> &k, double u) { double g = 1e9; for (auto x : k) g = std::min<double>(g, std::fabs(x - u)); return g / (k.back() - k.front()); }

// current (u,v) -> original: x = A[d] + B[d]*w[d] where d is the axis of the original and w[d] the current
// parameter now carrying it (sw: parameters swapped)
template <size_t dim, class S> struct Mon
{
    Case &c; ref::Surf R0; ld A[2] = {0, 0}, B[2] = {1, 1}; bool sw = false; ld scale, tol; std::string hist; size_t deg[2]; std::array<double, 4> bnd; bool rational;
    Mon(Case &c_, const S &s, bool rat) : c(c_), R0(gen::R(s)), rational(rat)
    {
        scale = std::max<ld>(R0.max_pole(), 1e-3L); tol = 2e-9L * scale; deg[0] = s.degreeU(); deg[1] = s.degreeV(); bnd = s.bounds();
    }
    bool check(const S &s)
    {
        auto &ku = s.knotsFlatsU(); auto &kv = s.knotsFlatsV();
        bool ok = c.check(std::is_sorted(ku.begin(), ku.end()) && std::is_sorted(kv.begin(), kv.end()), "knots_sorted", hist);
        ok &= c.check(s.degreeU() == deg[0] && s.degreeV() == deg[1], "degrees", hist);
        ok &= c.check(s.poles().size() == (ku.size() - s.degreeU() - 1) * (kv.size() - s.degreeV() - 1), "counts", hist);
        ok &= c.check(s.nPolesU() == ku.size() - s.degreeU() - 1 && s.nPolesV() == kv.size() - s.degreeV() - 1, "npoles", hist);
        if (!ok) return false;
        auto b = s.bounds();
        for (int i = 0; i < 4; ++i) ok &= c.near(b[i], bnd[i], 1e-12, "bounds", hist);
        for (size_t i = 0; i <= deg[0]; ++i) ok &= c.near(ku[i], bnd[0], 1e-12, "clamped", hist) && c.near(ku[ku.size() - 1 - i], bnd[1], 1e-12, "clamped", hist);
        for (size_t i = 0; i <= deg[1]; ++i) ok &= c.near(kv[i], bnd[2], 1e-12, "clamped", hist) && c.near(kv[kv.size() - 1 - i], bnd[3], 1e-12, "clamped", hist);
        if (!ok) return false;
        for (int t = 0; t < 14; ++t)
        {
            double w[2];
            for (int d = 0; d < 2; ++d) { double f = c.rng.coin(0.15) ? c.rng.i(0, 1) : c.rng.u01(); w[d] = f == 0 ? b[2 * d] : f == 1 ? b[2 * d + 1] : b[2 * d] + f * (b[2 * d + 1] - b[2 * d]); }
            auto x = s.value(w[0], w[1]);
            ld o[2]; // original parameters
            for (int d = 0; d < 2; ++d) { ld y = w[sw ? 1 - d : d]; o[d] = A[d] + B[d] * y; auto &K = d ? R0.V : R0.U; o[d] = std::min(std::max(o[d], K.front()), K.back()); }
            auto y = R0.value(o[0], o[1]);
            if (!c.near_pt(x, y.v, tol, "geometry", hist + " uv=" + num(w[0]) + "," + num(w[1]))) return false;
            if (t == 0)
            {   // first derivatives (off knots)
                bool nk = false; for (int d = 0; d < 2; ++d) { auto &K = d ? R0.V : R0.U; for (auto k : K) nk |= std::fabs(k - o[d]) < 1e-6L * (K.back() - K.front()); }
                if (!nk && !rational) for (int d = 0; d < 2; ++d)
                {
                    auto D = R0.value(o[0], o[1], d == 0, d == 1); int cur = sw ? 1 - d : d; for (auto &q : D.v) q *= B[d];
                    if (!c.near_pt(s.value(w[0], w[1], cur == 0, cur == 1), D.v, tol * 100 * D.b * std::fabs(B[d]) / scale + tol, "derivative", hist)) return false;
                }
            }
        }
        return true;
    }
};

template <size_t dim, class S> void history(Case &c, S s, bool rational, int len)
{
    auto &r = c.rng; Mon<dim, S> M(c, s, rational);
    c.describe((rational ? "rational " : "") + std::string("dim ") + std::to_string(dim) + " " + gen::sdesc(s)); c.nontrivial(gen::shash(s));
    double shrink[2] = {1, 1};
    for (int st = 0; st < len; ++st)
    {
        int d = r.i(0, 1); // current direction
        int od = M.sw ? 1 - d : d;
        auto b = s.bounds(); const double b0 = b[2 * d], b1 = b[2 * d + 1], L = b1 - b0; auto k = d ? s.knotsFlatsV() : s.knotsFlatsU(); size_t p = d ? s.degreeV() : s.degreeU();
        auto other = d ? s.knotsFlatsU() : s.knotsFlatsV();
        auto pick = [&]() { auto x = gbs::knots_and_mults(k).first; if (x.size() > 2 && r.coin(0.4)) { double y = x[r.i(1, int(x.size()) - 2)]; if (r.coin(0.1)) y = std::nextafter(y, b1); return y; }
            for (int t = 0; t < 100; ++t) { double u = r.uni(b0 + 0.02 * L, b1 - 0.02 * L); if (knot_gap(k, u) > 0.01) return u; } return 0.5 * (b0 + b1); };
        std::string dn = d ? "V" : "U"; bool same_other = true;
        switch (r.i(0, 8))
        {
        case 0: case 1:
        {
            double u = r.coin(0.05) ? b0 : pick(); size_t m = r.i(1, int(p) + 1), m0 = mult(k, u), want = m0 >= p ? m0 : std::min(p, m0 + m);
            M.hist += " insert" + dn + "(" + num(u) + "," + std::to_string(m) + ")"; c.event("op/insert" + dn);
            size_t ik = d ? s.insertKnotV(u, m) : s.insertKnotU(u, m);
            c.check(mult(d ? s.knotsFlatsV() : s.knotsFlatsU(), u) == want, "multiplicity", M.hist);
            if (want >= p && c.check(ik < (d ? s.nPolesV() : s.nPolesU()), "insertion_index_range", M.hist))
            {   // the row of poles at the returned index is the isoparametric curve's
                c.event("iso_row");
                double w = r.uni(b[2 * (1 - d)], b[2 * (1 - d) + 1]);
                auto row = d ? s.polesU(ik) : s.polesV(ik);
                ref::Curve C(row, d ? s.knotsFlatsU() : s.knotsFlatsV(), d ? s.degreeU() : s.degreeV(), rational);
                c.near_pt(d ? s.value(w, u) : s.value(u, w), C.value(w).v, M.tol, "iso_row", M.hist);
            }
            break;
        }
        case 2:
            if (p >= 6) break;
            M.hist += " elevate" + dn; c.event("op/elevate" + dn);
            { auto [x0, m0] = gbs::knots_and_mults(k);
              if (d) s.increaseDegreeV(); else s.increaseDegreeU(); M.deg[d]++;
              auto [x1, m1] = gbs::knots_and_mults(d ? s.knotsFlatsV() : s.knotsFlatsU());
              bool ok = x0.size() == x1.size(); for (size_t i = 0; ok && i < x0.size(); ++i) ok = m1[i] == m0[i] + 1;
              c.check(ok, "elevated_multiplicities", M.hist); }
            break;
        case 3:
            M.hist += " reverse" + dn; c.event("op/reverse" + dn);
            if (d) s.reverseV(); else s.reverseU();
            M.A[od] += M.B[od] * (ld(b0) + b1); M.B[od] = -M.B[od];
            break;
        case 4:
            M.hist += " invertUV"; c.event("op/invertUV"); s.invertUV(); M.sw = !M.sw; std::swap(M.deg[0], M.deg[1]); M.bnd = {b[2], b[3], b[0], b[1]}; same_other = false; std::swap(shrink[0], shrink[1]);
            break;
        case 5:
        {
            double n0 = r.uni(-3, 3), n1 = n0 + r.uni(0.3, 5);
            switch (r.i(0, 7))
            {
            case 0: case 1: n0 = r.i(-12, 12) / 4.; n1 = n0 + r.i(1, 12) / 4.; break;
            case 2: case 3: { double k = r.i(-16, 16) / 4.; n0 = b0 + k; n1 = b1 + k; break; }
            case 4: if (r.coin()) { n0 = b0; n1 = n0 + r.uni(0.3, 5); } else { n1 = b1; n0 = n1 - r.uni(0.3, 5); } break;
            case 5: if (r.coin()) { n0 = b0; n1 = b1; } else { n0 = 0.; n1 = 1.; } break;
            default: break;
            }
            M.hist += " bounds" + dn; c.event("op/bounds" + dn);
            if (d) s.changeVBounds(n0, n1); else s.changeUBounds(n0, n1);
            ld f = ld(L) / (ld(n1) - n0); M.A[od] += M.B[od] * (b0 - f * n0); M.B[od] *= f; M.bnd[2 * d] = n0; M.bnd[2 * d + 1] = n1;
            break;
        }
        case 6:
        {
            if (shrink[d] < 0.1) break;
            double a = r.coin(0.3) ? b0 : pick(), e = r.coin(0.3) ? b1 : pick(); if (std::fabs(e - a) < 0.15 * L) break;
            if (a > e) std::swap(a, e); shrink[d] *= (e - a) / L;
            bool swp = r.coin(0.2);
            M.hist += " trim" + dn + "(" + num(a) + "," + num(e) + ")"; c.event("op/trim" + dn);
            if (d) s.trimV(swp ? e : a, swp ? a : e); else s.trimU(swp ? e : a, swp ? a : e);
            M.bnd[2 * d] = a; M.bnd[2 * d + 1] = e;
            break;
        }
        case 7:
        {
            if (shrink[d] < 0.1) break;
            double u = pick(); if (u - b0 < 0.15 * L || b1 - u < 0.15 * L) break;
            M.hist += " split" + dn + "(" + num(u) + ")"; c.event("op/split" + dn);
            bool first = r.coin(); auto h = gen::shash(s);
            S x = d ? (first ? gbs::split_v(s, u).first : gbs::split_v(s, u).second) : (first ? gbs::split_u(s, u).first : gbs::split_u(s, u).second);
            c.check(h == gen::shash(s), "split_const", M.hist);
            s = x; if (first) M.bnd[2 * d + 1] = u; else M.bnd[2 * d] = u; shrink[d] *= (first ? u - b0 : b1 - u) / L;
            break;
        }
        default:
        {   // isoparametric curves of the edited surface, at knots, bounds and inside
            double u = r.coin(0.2) ? (r.coin() ? b0 : b1) : pick(); c.event("op/iso" + dn);
            auto cv = [&](auto iso) { for (int t = 0; t < 4; ++t) { double w = r.uni(b[2 * (1 - d)], b[2 * (1 - d) + 1]);
                c.near_pt(iso.value(w), d ? s.value(w, u) : s.value(u, w), M.tol, "iso", M.hist + " iso" + dn + " " + num(u)); } };
            if (d) cv(s.isoV(u)); else cv(s.isoU(u));
        }
        }
        if (same_other) c.check((d ? s.knotsFlatsU() : s.knotsFlatsV()) == other, "other_direction_untouched", M.hist);
        if (!M.check(s)) return;
        c.event("steps");
    }
}
FAMILY("history_poly", 8000, 200000)
{
    size_t p = c.rng.i(1, 4), q = c.rng.i(1, 4); int su = c.rng.i(1, 4), sv = c.rng.i(1, 4), mm = c.rng.coin() ? 1 : -1, len = c.rng.i(2, 8);
    if (c.rng.coin(0.7)) history<3>(c, gen::surf<double, 3>(c.rng, p, q, su, sv, mm, 1.), false, len); else history<1>(c, gen::surf<double, 1>(c.rng, p, q, su, sv, mm, 1.), false, len);
}
FAMILY("history_rational", 6000, 150000)
{
    size_t p = c.rng.i(1, 3), q = c.rng.i(1, 3); int su = c.rng.i(1, 3), sv = c.rng.i(1, 3), mm = c.rng.coin() ? 1 : -1, len = c.rng.i(2, 7);
    history<3>(c, gen::rsurf<double, 3>(c.rng, p, q, su, sv, mm, 1.), true, len);
}
int main(int a, char **v) { return vh::run(a, v); }
