// C24: wires stay chained, edges carry their vertices.
#include "gen.h"
#include <gbs/curves>
#include <gbs/bscanalysis.h>
#include <topology/vertex.h>
#include <topology/edge.h>
#include <topology/wire.h>
using namespace vh;
template <size_t d> using Pt = std::array<double, d>;
template <size_t d> using VP = std::shared_ptr<gbs::Vertex<double, d>>;
template <size_t d> using EP = std::shared_ptr<gbs::Edge<double, d>>;
template <size_t d> static ld dist(const Pt<d> &a, const Pt<d> &b) { ld s = 0; for (size_t i = 0; i < d; ++i) s += (ld(a[i]) - b[i]) * (ld(a[i]) - b[i]); return std::sqrt(s); }
template <size_t d> static Pt<d> unit(Rng &r) { Pt<d> v; ld n; do { n = 0; for (auto &x : v) { x = r.uni(-1, 1); n += x * x; } } while (n > 1 || n < 0.05); for (auto &x : v) x /= std::sqrt(double(n)); return v; }
template <size_t d> static Pt<d> off(Pt<d> a, const Pt<d> &v, double s) { for (size_t i = 0; i < d; ++i) a[i] += s * v[i]; return a; }
// an arc going once from a to b, bent sideways: projections on it are unambiguous
template <size_t d> static gbs::BSCurve<double, d> arc(Rng &r, const Pt<d> &a, const Pt<d> &b)
{
    size_t p = r.i(1, 4); int n = int(p) + 1 + r.i(0, 3); auto k = gen::knots<double>(r, p, n - int(p), 1); std::vector<Pt<d>> P(k.size() - p - 1); double L = double(dist<d>(a, b)), A = r.uni(0, 0.15) * L; auto w = unit<d>(r);
    for (size_t i = 0; i < P.size(); ++i) { double t = 0; for (size_t j = 1; j <= p; ++j) t += k[i + j]; t = (t / p - k.front()) / (k.back() - k.front()); for (size_t j = 0; j < d; ++j) P[i][j] = a[j] + (b[j] - a[j]) * t + A * w[j] * std::sin(3.14159265358979 * t); }
    P.front() = a; P.back() = b; return gbs::BSCurve<double, d>(P, k, p);
}
template <size_t d> static void edge_case(Case &c)
{
    auto &r = c.rng; using namespace gbs; double sc = std::ldexp(1., r.i(-2, 5)); Pt<d> a, b; for (auto &x : a) x = r.uni(-sc, sc); b = off<d>(a, unit<d>(r), sc * r.uni(0.5, 2)); int kind = r.i(0, 3); c.describe("edge " + num(kind) + " dim " + num(d) + " from " + num(a[0]) + "," + num(a[1]) + " to " + num(b[0]) + "," + num(b[1])); c.nontrivial(hash_str(num(a[0]) + num(b[0]) + num(kind)));
    EP<d> e;
    if (kind == 0) { e = std::make_shared<Edge<double, d>>(a, b); c.check(e->vertex1()->point() == a && e->vertex2()->point() == b, "ends"); c.event("edge/points"); }
    else if (kind == 1) { auto v1 = std::make_shared<Vertex<double, d>>(a), v2 = std::make_shared<Vertex<double, d>>(b); e = std::make_shared<Edge<double, d>>(v1, v2); c.check(e->vertex1() == v1 && e->vertex2() == v2, "vertices_kept"); c.event("edge/vertices"); }
    else { auto crv = std::make_shared<BSCurve<double, d>>(arc<d>(r, a, b)); if (kind == 2) e = std::make_shared<Edge<double, d>>(crv); else { Vertex<double, d> tol{a}; double tp = r.uni(1e-7, 1e-5), ta = r.uni(1e-5, 1e-2); tol.setPrecisionTolerance(tp); tol.setApproximationTolerance(ta); e = std::make_shared<Edge<double, d>>(crv, tol); c.check(e->precisionTolerance() == tp && e->approximationTolerance() == ta, "tolerances"); } c.check(e->curve() == crv, "curve_kept"); c.event("edge/curve"); }
    auto at = [&](const EP<d> &e, const std::string &k) { auto [u1, u2] = e->bounds(); c.check(dist<d>((*e->curve())(u1), e->vertex1()->point()) <= e->approximationTolerance() * (1 + 1e-9), k + "_vertex1"); c.check(dist<d>((*e->curve())(u2), e->vertex2()->point()) <= e->approximationTolerance() * (1 + 1e-9), k + "_vertex2"); };
    auto bd = e->curve()->bounds(); { auto [u1, u2] = e->bounds(); c.check(u1 == bd[0] && u2 == bd[1], "bounds"); c.near_pt(e->vertex1()->point(), (*e->curve())(bd[0]), 1e-12 * sc, "start"); c.near_pt(e->vertex2()->point(), (*e->curve())(bd[1]), 1e-12 * sc, "end"); at(e, "built"); }
    if (r.coin()) { e->setApproximationTolerance(std::pow(10., r.uni(-5, -2)) * sc); }
    double tol = e->approximationTolerance();
    for (int i = 0; i < 4; ++i)
    {
        bool first = r.coin(); auto b0 = e->bounds(); auto v1 = e->vertex1(), v2 = e->vertex2(); double t = r.coin(0.3) ? (first ? 0. : 1.) : first ? r.uni(0.02, 0.45) : r.uni(0.55, 0.98), u = bd[0] + (bd[1] - bd[0]) * t; auto q = (*e->curve())(u); double off_ = 0; int w = r.i(0, 3);
        if (w == 1) off_ = tol * r.uni(0, 0.6); if (w >= 2) off_ = std::min(tol * std::pow(10., r.uni(0.2, 3)), 0.3 * sc); if (w >= 2 && off_ < 1.4 * tol) continue;
        auto T = (*e->curve())(u, 1); Pt<d> n; if constexpr (d == 2) n = {-T[1], T[0]}; else { auto z = unit<d>(r); n = {T[1] * z[2] - T[2] * z[1], T[2] * z[0] - T[0] * z[2], T[0] * z[1] - T[1] * z[0]}; } ld nn = dist<d>(n, Pt<d>{}); if (nn < 1e-3 * sc) continue; for (auto &x : n) x /= double(nn); q = off<d>(q, n, off_);
        // true distance to the curve, by sampling the reference
        ld D = 1e300; auto *bs = dynamic_cast<const BSCurve<double, d> *>(e->curve().get()); auto R = gen::R(*bs); for (int k = 0; k <= 400; ++k) { auto V = R.value(bd[0] + (bd[1] - bd[0]) * k / 400, 0).v; ld s = 0; for (size_t j = 0; j < d; ++j) s += (V[j] - q[j]) * (V[j] - q[j]); D = std::min(D, std::sqrt(s)); }
        auto nv = std::make_shared<Vertex<double, d>>(q); bool ok = first ? e->setVertex1(nv) : e->setVertex2(nv);
        if (off_ <= 0.6 * tol) { c.check(ok, "vertex_on_curve_accepted", "off " + num(off_) + " tol " + num(tol)); c.event("vertex/accepted"); if (off_ > 0) c.event("vertex/near"); }
        else if (D - 3 * sc / 400. * (D < 3 * sc / 400. ? 1 : 0) > 1.2 * tol && D > 10 * sc / 400.) { c.check(!ok, "far_vertex_refused", "off " + num(off_) + " tol " + num(tol)); c.event("vertex/far"); }
        if (kind <= 1 && off_ > 1.3 * tol) { c.check(!ok, "far_vertex_of_segment_refused", "off " + num(off_) + " tol " + num(tol)); c.event("vertex/far_segment"); }
        if (ok) { c.check((first ? e->vertex1() : e->vertex2()) == nv, "vertex_set"); c.check(first ? e->vertex2() == v2 && e->bounds().second == b0.second : e->vertex1() == v1 && e->bounds().first == b0.first, "other_end_untouched"); at(e, "set"); }
        else { c.check(e->vertex1() == v1 && e->vertex2() == v2 && e->bounds() == b0, "refused_unchanged"); c.event("vertex/refused"); }
    }
    e->tessellate(); c.event("edge/tessellated");
}
FAMILY("edges", 400, 14000) { if (c.rng.coin()) edge_case<2>(c); else edge_case<3>(c); }

template <size_t d> static void wire_case(Case &c)
{
    auto &r = c.rng; using namespace gbs; int n = r.i(1, 8); double sc = std::ldexp(1., r.i(-1, 4)); bool loop = n > 2 && r.coin(0.7); std::vector<Pt<d>> P; Pt<d> o; for (auto &x : o) x = r.uni(-sc, sc);
    for (int i = 0; i <= n; ++i) { Pt<d> q = o; double t = 6.28318530717959 * i / (n + (loop ? 0 : 3)); q[0] += sc * std::cos(t) * r.uni(0.8, 1.2); q[1] += sc * std::sin(t) * r.uni(0.8, 1.2); if (d == 3) q[2] += r.uni(-0.3, 0.3) * sc; P.push_back(q); } if (loop) P.back() = P.front();
    std::vector<VP<d>> V; for (auto &p : P) V.push_back(std::make_shared<Vertex<double, d>>(p)); if (loop) V.back() = V.front();
    const double tol = 1e-5; std::vector<EP<d>> E; std::vector<int> way; std::string ds; for (int i = 0; i < n; ++i)
    {
        int w = r.i(0, 3); way.push_back(w); ds += num(w); Pt<d> a = P[i], b = P[i + 1]; if (w >= 2) { a = off<d>(a, unit<d>(r), tol * r.uni(0, 0.3)); b = off<d>(b, unit<d>(r), tol * r.uni(0, 0.3)); }
        if (w == 0) E.push_back(std::make_shared<Edge<double, d>>(V[i], V[i + 1])); else if (w == 1) E.push_back(std::make_shared<Edge<double, d>>(P[i], P[i + 1])); else if (w == 2) E.push_back(std::make_shared<Edge<double, d>>(a, b)); else E.push_back(std::make_shared<Edge<double, d>>(std::make_shared<BSCurve<double, d>>(arc<d>(r, a, b))));
    }
    std::vector<int> ord(n); for (int i = 0; i < n; ++i) ord[i] = i; for (int i = n - 1; i > 0; --i) std::swap(ord[i], ord[r.i(0, i)]); int s0 = ord[0]; c.describe((loop ? "loop of " : "open chain of ") + num(n) + " dim " + num(d) + " ways " + ds + " from " + num(s0)); c.nontrivial(hash_str(ds + num(s0) + num(P[0][0])));
    bool copies = r.coin(0.3); if (copies) c.event("wire/copies");
    std::shared_ptr<Wire<double, d>> wp; if (copies) wp = std::make_shared<Wire<double, d>>(*E[s0]); else wp = std::make_shared<Wire<double, d>>(E[s0]); auto &W = *wp;
    int lo = s0, hi = s0; std::vector<bool> in(n, false); in[s0] = true; auto sz = [&] { return size_t(std::distance(W.begin(), W.end())); };
    auto audit = [&](const std::string &k) {
        std::vector<EP<d>> L(W.begin(), W.end()); if (!c.check(!L.empty(), k + "_empty")) return; c.check(W.front() == L.front() && W.back() == L.back() && W.vertex1() == L.front()->vertex1() && W.vertex2() == L.back()->vertex2(), k + "_ends");
        for (size_t i = 0; i + 1 < L.size(); ++i) c.check(L[i]->vertex2() == L[i + 1]->vertex1(), k + "_chained", num(i)); c.check(W.isClosed() == (L.front()->vertex1() == L.back()->vertex2()), k + "_closed_flag");
        for (auto &e : L) { auto [u1, u2] = e->bounds(); c.check(dist<d>((*e->curve())(u1), e->vertex1()->point()) <= 2.5 * tol && dist<d>((*e->curve())(u2), e->vertex2()->point()) <= 2.5 * tol, k + "_edge_ends"); } };
    audit("start"); int done = 1, guard = 0;
    while (done < n && ++guard < 200)
    {
        int i = r.coin(0.6) ? (r.coin() ? hi + 1 : lo - 1) : ord[r.i(0, n - 1)]; if (loop) i = ((i % n) + n) % n; if (i < 0 || i >= n) continue; if (in[i]) continue;
        bool fb = loop ? i == (hi + 1) % n : i == hi + 1, ff = loop ? i == ((lo - 1) % n + n) % n : i == lo - 1, expect = fb || ff; auto before = std::vector<EP<d>>(W.begin(), W.end());
        bool got = copies ? W.addEdge(*E[i]) : W.addEdge(E[i]); c.check(got == expect, expect ? "adjacent_edge_added" : "apart_edge_refused", "edge " + num(i)); auto after = std::vector<EP<d>>(W.begin(), W.end());
        if (!got) { c.check(before == after, "refused_unchanged"); c.event("wire/refused"); if (expect) return; continue; }
        c.check(after.size() == before.size() + 1, "one_more"); bool kept = std::equal(before.begin(), before.end(), after.begin()) || std::equal(before.begin(), before.end(), after.begin() + 1); c.check(kept, "others_untouched"); in[i] = true; ++done; if (fb) hi = i; else lo = i; if (fb && ff) { lo = i; } c.event("wire/added"); audit("added");
        if (done < n) c.check(!W.isClosed(), "still_open");
    }
    if (done < n) return;
    c.check(W.isClosed() == loop, "closed"); c.check(sz() == size_t(n), "size");
    if (!loop) { auto b = std::vector<EP<d>>(W.begin(), W.end()); if (r.coin()) { auto q = off<d>(P[n], unit<d>(r), tol * std::pow(10., r.uni(0.8, 2))); Edge<double, d> far{q, off<d>(q, unit<d>(r), sc)}; if (dist<d>(far.vertex2()->point(), P[0]) > 10 * tol) { c.check(!W.addEdge(far), "gap_refused"); c.check(std::vector<EP<d>>(W.begin(), W.end()) == b, "gap_unchanged"); c.event("wire/gap"); } } if (n > 1 || true) { auto a1 = W.vertex1(), a2 = W.vertex2(); W.close(); c.check(W.isClosed(), "close_closes"); audit("close"); auto L = std::vector<EP<d>>(W.begin(), W.end()); c.check(L.size() == b.size() + 1, "close_one_edge"); bool found = false; for (auto &e : L) found |= e->vertex1() == a2 && e->vertex2() == a1; c.check(found, "closing_edge"); c.event("wire/close"); } }
    else c.event("wire/loop");
    auto L = std::vector<EP<d>>(W.begin(), W.end()); Edge<double, d> x{P[0], off<d>(P[0], unit<d>(r), sc)}; c.check(!W.addEdge(x), "closed_refuses"); W.close(); c.check(std::vector<EP<d>>(W.begin(), W.end()) == L, "closed_unchanged"); W.tessellate(); audit("end"); c.event("wire/closed");
}
FAMILY("wires", 500, 16000) { if (c.rng.coin()) wire_case<2>(c); else wire_case<3>(c); }
// a closed curve makes a closed wire on its own, and vertices on its seam keep the whole period
FAMILY("closed_edges", 100, 3000)
{
    auto &r = c.rng; using namespace gbs; size_t p = r.i(2, 4); int n = r.i(5, 9); auto k = gen::knots<double>(r, p, n - int(p) + 1, 1); std::vector<Pt<2>> P(k.size() - p - 1); for (size_t i = 0; i < P.size(); ++i) { double t = 6.28318530717959 * i / (P.size() - 1.); P[i] = {std::cos(t) * 2, std::sin(t) * 2}; } double gap = r.coin() ? 0 : r.coin() ? r.uni(1e-6, 8e-6) : r.uni(2e-5, 1e-1); P.back() = {P[0][0] + gap, P[0][1]}; c.describe("closed edge degree " + num(p) + " poles " + num(P.size()) + " gap " + num(gap)); c.nontrivial(hash_str(num(k[p + 1]) + num(gap)));
    auto e = std::make_shared<Edge<double, 2>>(std::make_shared<BSCurve<double, 2>>(P, k, p)); Wire<double, 2> W{e}; c.check(W.isClosed() == (gap < 1e-5), "closed", num(gap)); if (gap == 0) { auto [u1, u2] = e->bounds(); c.check(u1 == k.front() && u2 == k.back(), "whole_period"); c.event("closed/exact"); } else if (gap < 1e-5) c.event("closed/near"); else { c.event("closed/open"); W.close(); c.check(W.isClosed() && std::distance(W.begin(), W.end()) == 2, "close"); } W.tessellate();
    if (gap == 0) { auto v = std::make_shared<Vertex<double, 2>>(P[0]); c.check(e->setVertex1(v) && e->setVertex2(v), "seam_vertex"); auto [u1, u2] = e->bounds(); c.check(std::fabs(u1 - k.front()) < 1e-6 * (k.back() - k.front()) && std::fabs(u2 - k.back()) < 1e-6 * (k.back() - k.front()), "seam_bounds", num(u1) + " " + num(u2)); }
}
int main(int a, char **b) { return run(a, b); }
