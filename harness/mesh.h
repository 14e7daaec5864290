// Oracles for half-edge meshes: exact planar predicates and a structural validator working on the plain set of faces.
#pragma once
#include "gen.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <topology/tessellations.h>
#include <topology/halfEdgeMeshQuality.h>
#include <set>
#include <map>
namespace msh
{
    using Int = boost::multiprecision::cpp_int;
    using P2 = std::array<double, 2>;
    using F = std::shared_ptr<gbs::HalfEdgeFace<double, 2>>;
    using E = std::shared_ptr<gbs::HalfEdge<double, 2>>;
    using V = std::shared_ptr<gbs::HalfEdgeVertex<double, 2>>;
    using L = std::list<F>;
    using vh::ld; using vh::Case; using vh::num;

    // ---- exact arithmetic on doubles: every value is an integer times 2^e0
    inline int lowexp(double x) { if (x == 0) return 1 << 20; int e; std::frexp(x, &e); return e - 53; }
    inline Int ival(double x, int e0)
    {
        if (x == 0) return 0; int e; double m = std::frexp(x, &e); Int i = (long long)std::ldexp(m, 53); i <<= (e - 53 - e0); return i;
    }
    template <class... A> int lowest(A... a) { return std::min({lowexp(a)...}); }
    inline int sgn(const Int &i) { return i > 0 ? 1 : i < 0 ? -1 : 0; }
    // sign of det [a-c; b-c], exactly
    inline int orient_exact(P2 a, P2 b, P2 c)
    {
        int e = lowest(a[0], a[1], b[0], b[1], c[0], c[1]); if (e >= 1 << 20) return 0;
        Int ax = ival(a[0], e) - ival(c[0], e), ay = ival(a[1], e) - ival(c[1], e), bx = ival(b[0], e) - ival(c[0], e), by = ival(b[1], e) - ival(c[1], e);
        return sgn(ax * by - ay * bx);
    }
    inline int orient(P2 a, P2 b, P2 c)
    {
        ld ax = ld(a[0]) - c[0], ay = ld(a[1]) - c[1], bx = ld(b[0]) - c[0], by = ld(b[1]) - c[1], d = ax * by - ay * bx, m = std::fabs(ax * by) + std::fabs(ay * bx);
        if (std::fabs(d) > 1e-17L * m && m > 1e-280L) return d > 0 ? 1 : -1;
        return orient_exact(a, b, c);
    }
    // > 0 iff d strictly inside the circle of the counter-clockwise a b c
    inline int incircle_exact(P2 a, P2 b, P2 c, P2 d)
    {
        int e = lowest(a[0], a[1], b[0], b[1], c[0], c[1]); e = std::min(e, lowest(d[0], d[1])); if (e >= 1 << 20) return 0;
        auto v = [&](double x, double y) { return Int(ival(x, e) - ival(y, e)); };
        Int A = v(a[0], d[0]), B = v(a[1], d[1]), D = v(b[0], d[0]), G = v(b[1], d[1]), H = v(c[0], d[0]), K = v(c[1], d[1]);
        Int q1 = A * A + B * B, q2 = D * D + G * G, q3 = H * H + K * K;
        return sgn(A * (G * q3 - K * q2) - B * (D * q3 - H * q2) + q1 * (D * K - H * G));
    }
    inline int incircle(P2 a, P2 b, P2 c, P2 d)
    {
        ld A = ld(a[0]) - d[0], B = ld(a[1]) - d[1], D = ld(b[0]) - d[0], G = ld(b[1]) - d[1], H = ld(c[0]) - d[0], K = ld(c[1]) - d[1];
        ld q1 = A * A + B * B, q2 = D * D + G * G, q3 = H * H + K * K;
        ld x = A * (G * q3 - K * q2) - B * (D * q3 - H * q2) + q1 * (D * K - H * G);
        ld m = std::fabs(A) * (std::fabs(G) * q3 + std::fabs(K) * q2) + std::fabs(B) * (std::fabs(D) * q3 + std::fabs(H) * q2) + q1 * (std::fabs(D * K) + std::fabs(H * G));
        if (std::fabs(x) > 1e-16L * m && m > 1e-280L) return x > 0 ? 1 : -1;
        return incircle_exact(a, b, c, d);
    }
    inline ld incircle_val(P2 a, P2 b, P2 c, P2 d, ld &m) // determinant and magnitude of its terms
    {
        ld A = ld(a[0]) - d[0], B = ld(a[1]) - d[1], D = ld(b[0]) - d[0], G = ld(b[1]) - d[1], H = ld(c[0]) - d[0], K = ld(c[1]) - d[1];
        ld q1 = A * A + B * B, q2 = D * D + G * G, q3 = H * H + K * K;
        ld x = A * (G * q3 - K * q2) - B * (D * q3 - H * q2) + q1 * (D * K - H * G);
        m = std::fabs(A) * (std::fabs(G) * q3 + std::fabs(K) * q2) + std::fabs(B) * (std::fabs(D) * q3 + std::fabs(H) * q2) + q1 * (std::fabs(D * K) + std::fabs(H * G));
        return x;
    }
    inline ld area2(P2 a, P2 b, P2 c) { return (ld(a[0]) - c[0]) * (ld(b[1]) - c[1]) - (ld(a[1]) - c[1]) * (ld(b[0]) - c[0]); }
    // strict crossing or overlap of open segments (exact)
    inline bool cross_exact(P2 a, P2 b, P2 c, P2 d)
    {
        int o1 = orient(a, b, c), o2 = orient(a, b, d), o3 = orient(c, d, a), o4 = orient(c, d, b);
        return o1 * o2 < 0 && o3 * o4 < 0;
    }
    inline ld seg_dist(P2 p, P2 a, P2 b)
    {
        ld dx = b[0] - a[0], dy = b[1] - a[1], l = dx * dx + dy * dy, t = l > 0 ? std::clamp<ld>(((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l, 0, 1) : 0;
        return std::hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy);
    }
    inline bool inside_poly(P2 p, const std::vector<P2> &poly) // winding by exact orientation; p not on the boundary
    {
        int w = 0; for (size_t i = 0; i < poly.size(); ++i) { auto a = poly[i], b = poly[(i + 1) % poly.size()]; if (a[1] <= p[1]) { if (b[1] > p[1] && orient(a, b, p) > 0) ++w; } else if (b[1] <= p[1] && orient(a, b, p) < 0) --w; }
        return w != 0;
    }
    inline ld poly_area(const std::vector<P2> &q) { ld s = 0; for (size_t i = 0; i < q.size(); ++i) { auto a = q[i], b = q[(i + 1) % q.size()]; s += ld(a[0]) * b[1] - ld(a[1]) * b[0]; } return s / 2; }

    // ---- plain view of the mesh
    using Tri = std::array<P2, 3>; // counter-clockwise, smallest vertex first
    inline Tri norm_tri(P2 a, P2 b, P2 c) { Tri t{a, b, c}; std::rotate(t.begin(), std::min_element(t.begin(), t.end()), t.end()); return t; }
    // triangle whose vertices follow the face loop
    inline Tri tri(const F &f) { auto e = f->edge; return norm_tri(e->vertex->coords, e->next->vertex->coords, e->next->next->vertex->coords); }
    inline std::multiset<Tri> tris(const L &l) { std::multiset<Tri> s; for (auto &f : l) s.insert(tri(f)); return s; }
    inline ld area(const L &l) { ld s = 0; for (auto &f : l) { auto t = tri(f); s += area2(t[0], t[1], t[2]) / 2; } return s; }
    template <class S> ld area_of(const S &l) { ld s = 0; for (auto &t : l) s += area2(t[0], t[1], t[2]) / 2; return s; }

    struct View
    {
        std::map<std::pair<const void *, const void *>, E> he; // directed edges by end vertices
        std::map<V, std::vector<F>> star;                      // faces around each vertex
        std::set<const void *> faces, edges;
        bool bowtie(const V &v) const // more than one fan around v
        {
            auto &s = star.at(v); std::set<const void *> todo; for (auto &f : s) todo.insert(f.get());
            std::vector<F> st{s.front()}; todo.erase(s.front().get());
            while (!st.empty())
            {
                auto f = st.back(); st.pop_back(); auto e = f->edge;
                for (int i = 0; i < 3; ++i, e = e->next) { const void *a = e->previous->vertex.get(), *b = e->vertex.get(); if (a != v.get() && b != v.get()) continue; auto it = he.find({b, a}); if (it != he.end() && todo.erase(it->second->face.get())) st.push_back(it->second->face); }
            }
            return !todo.empty();
        }
        bool open(const V &v) const { for (auto &f : star.at(v)) { auto e = f->edge; for (int i = 0; i < 3; ++i, e = e->next) { const void *a = e->previous->vertex.get(), *b = e->vertex.get(); if ((a == v.get() || b == v.get()) && !he.count({b, a})) return true; } } return false; }
    };

    // Full structural check. Stops at the first broken face so that later traversals stay safe.
    inline bool validate(Case &c, const L &l, const std::string &when, View &v, bool ccw = true, bool vertex_edges = true)
    {
        v = {};
        for (auto &f : l) { if (!c.check(f && v.faces.insert(f.get()).second, "face_listed_once", when)) return false; }
        for (auto &f : l)
        {
            auto e = f->edge; if (!c.check(bool(e), "face_has_edge", when)) return false;
            for (int i = 0; i < 3; ++i)
            {
                bool ok = e && e->next && e->previous && e->vertex && e->face == f && e->next->previous == e && e->previous->next == e;
                if (!c.check(ok, "face_loop", when)) return false;
                e = e->next;
            }
            if (!c.check(e == f->edge, "face_is_triangle", when)) return false;
            for (int i = 0; i < 3; ++i, e = e->next)
            {
                v.edges.insert(e.get()); if (!v.star.count(e->vertex)) v.star[e->vertex];
                v.star[e->vertex].push_back(f);
                if (!c.check(e->vertex != e->previous->vertex, "edge_not_degenerate", when)) return false;
                if (!c.check(v.he.insert({{e->previous->vertex.get(), e->vertex.get()}, e}).second, "directed_edge_once", when)) return false;
            }
            if (ccw) { auto t = tri(f); if (!c.check(orient(t[0], t[1], t[2]) > 0, "face_ccw", when + " " + vh::str(std::vector<double>{t[0][0], t[0][1], t[1][0], t[1][1], t[2][0], t[2][1]}))) return false; }
        }
        bool ok = true;
        for (auto &[k, e] : v.he)
        {
            auto it = v.he.find({k.second, k.first});
            if (it == v.he.end()) ok &= c.check(!e->opposite, "opposite_outside_mesh", when);
            else ok &= c.check(e->opposite == it->second, "opposite_is_the_other_side", when);
        }
        if (vertex_edges) for (auto &[vx, s] : v.star) ok &= c.check(vx->edge && vx->edge->vertex == vx && v.edges.count(vx->edge.get()), "vertex_edge", when);
        c.event("validations"); c.event("faces_validated", long(l.size()));
        return ok;
    }
    // No two triangles overlap: area of the union equals the sum is implied by orientation + every boundary loop simple; checked directly on small meshes.
    inline bool no_overlap(Case &c, const L &l, const std::string &when)
    {
        std::vector<Tri> T; for (auto &f : l) T.push_back(tri(f));
        for (size_t i = 0; i < T.size(); ++i) for (size_t j = 0; j < i; ++j)
        {
            auto sep = [](const Tri &a, const Tri &b) { for (int k = 0; k < 3; ++k) { bool all = true; for (auto &p : b) all &= orient(a[k], a[(k + 1) % 3], p) <= 0; if (all) return true; } return false; };
            if (!c.check(sep(T[i], T[j]) || sep(T[j], T[i]), "triangles_overlap", when)) return false;
        }
        return true;
    }
}
