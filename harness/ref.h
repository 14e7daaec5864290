// Independent reference model of B-spline / NURBS curves and surfaces in long double.
// Written from the definition (Cox-de Boor recursion over all index functions, half-open spans, the
// last non-empty span closed at the end); every quantity comes with a magnitude (the same recursion
// with absolute values), from which rounding tolerances are derived.
#pragma once
#include "vh.h"
#include <algorithm>

namespace ref
{
    using vh::ld;
    using Vec = std::vector<ld>;

    struct VB { Vec v; ld b = 0; }; // value, magnitude bound

    // span index s with U[s] <= u < U[s+1] within [p, n-1]; the last non-empty span for u >= U[n]
    inline size_t span(size_t n, size_t p, ld u, const Vec &U)
    {
        size_t s = p;
        for (size_t i = p; i < n; ++i)
            if (U[i] < U[i + 1]) { if (u >= U[i]) s = i; else break; }
        // if u is before every non-empty span, the first non-empty one
        if (!(U[s] < U[s + 1])) for (size_t i = p; i < n; ++i) if (U[i] < U[i + 1]) { s = i; break; }
        return s;
    }

    // D[d][i - (s-p)] : d-th derivative of N_{i,p}, i = s-p..s, and magnitudes A
    struct Basis { size_t s; std::vector<Vec> D, A; };
    inline Basis basis(size_t n, size_t p, ld u, const Vec &U, size_t dmax)
    {
        Basis B; B.s = span(n, p, u, U);
        const size_t s = B.s;
        // N[q][k], function index i = s - q + k, k = 0..q
        std::vector<std::vector<Vec>> D(dmax + 1), A(dmax + 1);
        for (size_t d = 0; d <= dmax; ++d)
        {
            D[d].resize(p + 1); A[d].resize(p + 1);
            for (size_t q = 0; q <= p; ++q)
            {
                D[d][q].assign(q + 1, 0); A[d][q].assign(q + 1, 0);
                if (q == 0) { D[d][0][0] = d == 0; A[d][0][0] = d == 0; continue; }
                for (size_t k = 0; k <= q; ++k)
                {
                    const size_t i = s - q + k; // s >= p >= q
                    auto get = [&](const std::vector<std::vector<Vec>> &M, size_t dd, size_t ii) -> ld { // N_{ii,q-1}
                        const size_t lo = s - (q - 1);
                        if (ii < lo || ii > s) return 0;
                        return M[dd][q - 1][ii - lo];
                    };
                    ld v = 0, a = 0;
                    const ld d1 = U[i + q] - U[i], d2 = U[i + q + 1] - U[i + 1];
                    if (d == 0)
                    {
                        if (d1 > 0) { v += (u - U[i]) / d1 * get(D, 0, i); a += std::fabs((u - U[i]) / d1) * get(A, 0, i); }
                        if (d2 > 0) { v += (U[i + q + 1] - u) / d2 * get(D, 0, i + 1); a += std::fabs((U[i + q + 1] - u) / d2) * get(A, 0, i + 1); }
                    }
                    else
                    {
                        if (d1 > 0) { v += ld(q) / d1 * get(D, d - 1, i); a += ld(q) / d1 * get(A, d - 1, i); }
                        if (d2 > 0) { v -= ld(q) / d2 * get(D, d - 1, i + 1); a += ld(q) / d2 * get(A, d - 1, i + 1); }
                    }
                    D[d][q][k] = v; A[d][q][k] = a;
                }
            }
        }
        for (size_t d = 0; d <= dmax; ++d) { B.D.push_back(D[d][p]); B.A.push_back(A[d][p]); }
        return B;
    }

    inline ld binom(size_t n, size_t k) { ld r = 1; for (size_t i = 1; i <= k; ++i) r = r * ld(n - k + i) / ld(i); return r; }

    struct Curve
    {
        size_t p = 0; Vec U; std::vector<Vec> P; bool rational = false; // P homogeneous (weighted) when rational
        Curve() = default;
        template <class T, size_t D>
        Curve(const std::vector<std::array<T, D>> &poles, const std::vector<T> &k, size_t deg, bool rat) : p(deg), U(k.begin(), k.end()), rational(rat)
        {
            for (auto &x : poles) P.emplace_back(x.begin(), x.end());
        }
        size_t dim() const { return P[0].size() - (rational ? 1 : 0); }
        std::array<ld, 2> bounds() const { return {U[p], U[U.size() - p - 1]}; }
        // all orders 0..d; VB.b bounds the magnitude of what a rounding analysis sees
        std::vector<VB> ders(ld u, size_t d) const
        {
            const size_t n = P.size(), D = P[0].size();
            Basis B = basis(n, p, u, U, d);
            std::vector<VB> H(d + 1);
            std::vector<Vec> HA(d + 1, Vec(D, 0));
            for (size_t k = 0; k <= d; ++k)
            {
                H[k].v.assign(D, 0);
                for (size_t r = 0; r <= p; ++r)
                    for (size_t c = 0; c < D; ++c)
                    {
                        H[k].v[c] += B.D[k][r] * P[B.s - p + r][c];
                        HA[k][c] += B.A[k][r] * std::fabs(P[B.s - p + r][c]);
                    }
                for (size_t c = 0; c < D; ++c) H[k].b = std::max(H[k].b, HA[k][c]);
            }
            if (!rational) return H;
            std::vector<VB> S(d + 1);
            const ld w0 = H[0].v[D - 1];
            for (size_t k = 0; k <= d; ++k)
            {
                S[k].v.assign(D - 1, 0);
                ld a = 0;
                for (size_t c = 0; c + 1 < D; ++c) { S[k].v[c] = H[k].v[c]; a = std::max(a, HA[k][c]); }
                for (size_t i = 1; i <= k; ++i)
                {
                    for (size_t c = 0; c + 1 < D; ++c) S[k].v[c] -= binom(k, i) * H[i].v[D - 1] * S[k - i].v[c];
                    a += binom(k, i) * HA[i][D - 1] * S[k - i].b;
                }
                for (auto &x : S[k].v) x /= w0;
                S[k].b = a / std::fabs(w0);
            }
            return S;
        }
        VB value(ld u, size_t d = 0) const { return ders(u, d)[d]; }
        ld max_pole() const { ld m = 0; for (auto &q : P) for (size_t c = 0; c < dim(); ++c) m = std::max(m, std::fabs(rational ? q[c] / q.back() : q[c])); return m; }
    };

    struct Surf
    {
        size_t p = 0, q = 0; Vec U, V; std::vector<Vec> P; bool rational = false; // P[i + nu*j]
        Surf() = default;
        template <class T, size_t D>
        Surf(const std::vector<std::array<T, D>> &poles, const std::vector<T> &ku, const std::vector<T> &kv, size_t pu, size_t pv, bool rat)
            : p(pu), q(pv), U(ku.begin(), ku.end()), V(kv.begin(), kv.end()), rational(rat)
        {
            for (auto &x : poles) P.emplace_back(x.begin(), x.end());
        }
        size_t nu() const { return U.size() - p - 1; }
        size_t nv() const { return V.size() - q - 1; }
        size_t dim() const { return P[0].size() - (rational ? 1 : 0); }
        std::vector<std::vector<VB>> ders(ld u, ld v, size_t du, size_t dv) const
        {
            const size_t D = P[0].size();
            Basis A = basis(nu(), p, u, U, du), B = basis(nv(), q, v, V, dv);
            std::vector<std::vector<VB>> H(du + 1, std::vector<VB>(dv + 1));
            std::vector<std::vector<Vec>> HA(du + 1, std::vector<Vec>(dv + 1, Vec(D, 0)));
            for (size_t a = 0; a <= du; ++a)
                for (size_t b = 0; b <= dv; ++b)
                {
                    auto &h = H[a][b]; h.v.assign(D, 0);
                    for (size_t j = 0; j <= q; ++j)
                        for (size_t i = 0; i <= p; ++i)
                        {
                            const Vec &pt = P[(A.s - p + i) + nu() * (B.s - q + j)];
                            const ld w = A.D[a][i] * B.D[b][j], wa = A.A[a][i] * B.A[b][j];
                            for (size_t c = 0; c < D; ++c) { h.v[c] += w * pt[c]; HA[a][b][c] += wa * std::fabs(pt[c]); }
                        }
                    for (size_t c = 0; c < D; ++c) h.b = std::max(h.b, HA[a][b][c]);
                }
            if (!rational) return H;
            std::vector<std::vector<VB>> S(du + 1, std::vector<VB>(dv + 1));
            const ld w0 = H[0][0].v[D - 1];
            for (size_t a = 0; a <= du; ++a)
                for (size_t b = 0; b <= dv; ++b)
                {
                    auto &s = S[a][b]; s.v.assign(D - 1, 0); ld m = 0;
                    for (size_t c = 0; c + 1 < D; ++c) { s.v[c] = H[a][b].v[c]; m = std::max(m, HA[a][b][c]); }
                    for (size_t i = 0; i <= a; ++i)
                        for (size_t j = 0; j <= b; ++j)
                        {
                            if (i == 0 && j == 0) continue;
                            const ld f = binom(a, i) * binom(b, j);
                            for (size_t c = 0; c + 1 < D; ++c) s.v[c] -= f * H[i][j].v[D - 1] * S[a - i][b - j].v[c];
                            m += f * HA[i][j][D - 1] * S[a - i][b - j].b;
                        }
                    for (auto &x : s.v) x /= w0;
                    s.b = m / std::fabs(w0);
                }
            return S;
        }
        VB value(ld u, ld v, size_t du = 0, size_t dv = 0) const { return ders(u, v, du, dv)[du][dv]; }
        ld max_pole() const { ld m = 0; for (auto &x : P) for (size_t c = 0; c < dim(); ++c) m = std::max(m, std::fabs(rational ? x[c] / x.back() : x[c])); return m; }
    };

    template <class T> ld eps() { return std::numeric_limits<T>::epsilon(); }
    // rounding tolerance for a quantity of magnitude b computed with ~p*(d+1) dependent operations
    template <class T> ld rtol(const VB &x, size_t p, size_t d) { return eps<T>() * ld(40 * (p + 2) * (d + 1)) * x.b + std::numeric_limits<T>::min(); }
}
