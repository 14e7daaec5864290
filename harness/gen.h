// Workload generators: knot vectors, poles, weights, parameters.
#pragma once
#include "ref.h"
#include <gbs/bscurve.h>
#include <gbs/bssurf.h>

namespace gen
{
    using vh::Rng;
    // Clamped knot vector: distinct breakpoints with relative gap >= 1e-3 of the range (or style 3: tight cluster)
    struct Knots { std::vector<double> k; std::vector<size_t> m; };
    template <class T = double>
    inline std::pair<std::vector<T>, std::vector<size_t>> km(Rng &r, size_t p, int spans, int max_mult, int style = -1)
    {
        if (style < 0) style = r.i(0, 5);
        double a = 0, L = 1;
        switch (r.i(0, 5)) { case 0: break; case 1: a = r.uni(-5, 5); L = r.uni(0.5, 10); break; case 2: a = -r.uni(1, 3); L = r.uni(0.1, 2); break;
            case 3: L = spans; break; case 4: a = r.i(-3, 3); L = r.i(1, 8); break; default: a = r.uni(-1, 0); L = 1; }
        std::vector<double> w(spans);
        for (auto &x : w) x = style == 0 ? 1. : style == 3 ? std::pow(10., r.uni(-2, 0)) : r.uni(0.05, 1);
        double s = 0; for (auto x : w) s += x;
        std::vector<T> k{T(a)}; double c = 0;
        for (int i = 0; i < spans; ++i) { c += w[i]; k.push_back(T(i + 1 == spans ? a + L : a + L * c / s)); }
        std::vector<size_t> m(k.size(), 1);
        m.front() = m.back() = p + 1;
        for (size_t i = 1; i + 1 < k.size(); ++i) m[i] = max_mult <= 1 || style == 0 ? 1 : (r.coin(0.5) ? 1 : size_t(r.i(1, max_mult)));
        return {k, m};
    }
    template <class T>
    inline std::vector<T> flat(const std::vector<T> &k, const std::vector<size_t> &m)
    {
        std::vector<T> f; for (size_t i = 0; i < k.size(); ++i) f.insert(f.end(), m[i], k[i]); return f;
    }
    template <class T = double>
    inline std::vector<T> knots(Rng &r, size_t p, int spans, int max_mult = -1)
    {
        auto [k, m] = km<T>(r, p, spans, max_mult < 0 ? std::max<int>(1, int(p)) : max_mult);
        return flat(k, m);
    }
    template <class T, size_t dim>
    inline std::vector<std::array<T, dim>> points(Rng &r, size_t n, double s = 0)
    {
        if (s == 0) s = r.coin(0.7) ? 1. : std::pow(10., r.uni(-3, 3));
        std::array<double, dim> off{}; if (r.coin(0.3)) for (auto &o : off) o = r.uni(-5, 5) * s;
        std::vector<std::array<T, dim>> P(n);
        for (auto &q : P) for (size_t c = 0; c < dim; ++c) q[c] = T(off[c] + r.uni(-s, s));
        return P;
    }
    template <class T>
    inline std::vector<T> weights(Rng &r, size_t n)
    {
        std::vector<T> w(n); int st = r.i(0, 3);
        for (auto &x : w) x = T(st == 0 ? 1. : st == 1 ? r.uni(0.5, 2) : st == 2 ? std::pow(10., r.uni(-1, 1)) : (r.coin() ? 1. : 0.25));
        return w;
    }
    template <class T, size_t dim> gbs::BSCurve<T, dim> curve(Rng &r, size_t p, int spans, int mm = -1, double s = 0)
    {
        auto k = knots<T>(r, p, spans, mm);
        return gbs::BSCurve<T, dim>(points<T, dim>(r, k.size() - p - 1, s), k, p);
    }
    template <class T, size_t dim> gbs::BSCurveRational<T, dim> rcurve(Rng &r, size_t p, int spans, int mm = -1, double s = 0)
    {
        auto k = knots<T>(r, p, spans, mm);
        size_t n = k.size() - p - 1;
        auto P = points<T, dim>(r, n, s); auto w = weights<T>(r, n);
        std::vector<std::array<T, dim + 1>> W(n);
        for (size_t i = 0; i < n; ++i) { for (size_t c = 0; c < dim; ++c) W[i][c] = P[i][c] * w[i]; W[i][dim] = w[i]; }
        return gbs::BSCurveRational<T, dim>(gbs::BSCurveRational<T, dim>(W, k, p));
    }
    // a well-behaved (regular, not self-folding) curve: poles progress along a direction with noise
    template <class T, size_t dim> gbs::BSCurve<T, dim> smooth_curve(Rng &r, size_t p, int spans, double amp = 0.3, int mm = 1)
    {
        auto k = knots<T>(r, p, spans, mm);
        size_t n = k.size() - p - 1;
        std::vector<std::array<T, dim>> P(n);
        for (size_t i = 0; i < n; ++i)
        {   // Greville abscissa along x
            double g = 0; for (size_t j = 1; j <= p; ++j) g += k[i + j]; g /= double(p);
            for (size_t c = 0; c < dim; ++c) P[i][c] = T(c == 0 ? (g - k.front()) / (k.back() - k.front()) : r.uni(-amp, amp));
        }
        return gbs::BSCurve<T, dim>(P, k, p);
    }
    // parameters: ends, knots, just beside knots, interior
    template <class T> std::vector<T> params(Rng &r, const std::vector<T> &k, int n)
    {
        std::vector<T> u{k.front(), k.back()};
        for (int i = 0; i < n; ++i)
        {
            T x;
            switch (r.i(0, 4))
            {
            case 0: x = k[r.i(0, int(k.size()) - 1)]; break;
            case 1: x = std::nextafter(k[r.i(0, int(k.size()) - 1)], r.coin() ? k.front() : k.back()); break;
            default: x = T(r.uni(k.front(), k.back()));
            }
            u.push_back(std::min(std::max(x, k.front()), k.back()));
        }
        return u;
    }
    template <class T, size_t dim> gbs::BSSurface<T, dim> surf(Rng &r, size_t p, size_t q, int su, int sv, int mm = -1, double s = 0)
    {
        auto ku = knots<T>(r, p, su, mm), kv = knots<T>(r, q, sv, mm);
        return gbs::BSSurface<T, dim>(points<T, dim>(r, (ku.size() - p - 1) * (kv.size() - q - 1), s), ku, kv, p, q);
    }
    template <class T, size_t dim> gbs::BSSurfaceRational<T, dim> rsurf(Rng &r, size_t p, size_t q, int su, int sv, int mm = -1, double s = 0)
    {
        auto ku = knots<T>(r, p, su, mm), kv = knots<T>(r, q, sv, mm);
        size_t n = (ku.size() - p - 1) * (kv.size() - q - 1);
        auto P = points<T, dim>(r, n, s); auto w = weights<T>(r, n);
        std::vector<std::array<T, dim + 1>> W(n);
        for (size_t i = 0; i < n; ++i) { for (size_t c = 0; c < dim; ++c) W[i][c] = P[i][c] * w[i]; W[i][dim] = w[i]; }
        return gbs::BSSurfaceRational<T, dim>(W, ku, kv, p, q);
    }
    template <class C> std::string cdesc(const C &c) { return "deg " + std::to_string(c.degree()) + " knots " + vh::str(c.knotsFlats()) + " npoles " + std::to_string(c.poles().size()); }
    template <class S> std::string sdesc(const S &s) { return "deg " + std::to_string(s.degreeU()) + "x" + std::to_string(s.degreeV()) + " kU " + vh::str(s.knotsFlatsU()) + " kV " + vh::str(s.knotsFlatsV()); }
    template <class T, size_t dim> ref::Curve R(const gbs::BSCurve<T, dim> &c) { return ref::Curve(c.poles(), c.knotsFlats(), c.degree(), false); }
    template <class T, size_t dim> ref::Curve R(const gbs::BSCurveRational<T, dim> &c) { return ref::Curve(c.poles(), c.knotsFlats(), c.degree(), true); }
    template <class T, size_t dim> ref::Surf R(const gbs::BSSurface<T, dim> &s) { return ref::Surf(s.poles(), s.knotsFlatsU(), s.knotsFlatsV(), s.degreeU(), s.degreeV(), false); }
    template <class T, size_t dim> ref::Surf R(const gbs::BSSurfaceRational<T, dim> &s) { return ref::Surf(s.poles(), s.knotsFlatsU(), s.knotsFlatsV(), s.degreeU(), s.degreeV(), true); }
    template <class C> uint64_t chash(const C &c) { uint64_t h = vh::hvec(c.knotsFlats()); for (auto &p : c.poles()) h = vh::mix(h ^ vh::hvec(p)); return h; }
    template <class S> uint64_t shash(const S &s) { uint64_t h = vh::hvec(s.knotsFlatsU()) ^ vh::mix(vh::hvec(s.knotsFlatsV())); for (auto &p : s.poles()) h = vh::mix(h ^ vh::hvec(p)); return h; }
}
