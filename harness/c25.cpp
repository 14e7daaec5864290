// C25: mesh quality criteria report the worst defect of a triangle and where it is.
#include "mesh.h"
#include "gen.h"
#include <gbs/surfaces>
using namespace vh;
using namespace msh;
using P3 = std::array<double, 3>;
using LV = std::vector<ld>;
static LV operator-(const LV &a, const LV &b) { LV r(a); for (size_t i = 0; i < r.size(); ++i) r[i] -= b[i]; return r; }
static ld nrm(const LV &a) { ld s = 0; for (auto x : a) s += x * x; return std::sqrt(s); }
static LV crs(const LV &a, const LV &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
// an announced place with the value found there, judged against every place that could have been announced
struct Place { std::array<ld, 2> at; ld v; };
struct Ed { P2 a, b; bool open; };
static std::vector<Ed> edges(const F &f) { std::vector<Ed> r; auto e = f->edge, s = e; do { r.push_back({e->previous->vertex->coords, e->vertex->coords, !e->opposite}); e = e->next; } while (e != s); return r; }
static P2 uvd(const std::array<ld, 2> &x) { return {double(x[0]), double(x[1])}; }
static void judge(Case &c, const std::pair<double, P2> &got, const std::vector<Place> &L, ld floor_, ld tolv, ld tolp, const std::string &w)
{
    ld m = floor_; for (auto &p : L) m = std::max(m, p.v); if (!c.near(got.first, m, tolv, w + "_value")) return; c.event("criteria/" + w);
    if (m <= floor_ + 3 * tolv) { c.event("nothing_to_report"); return; } // every place is as good as another
    bool ok = false; for (auto &p : L) if (p.v >= m - 3 * tolv && std::fabs(got.second[0] - p.at[0]) <= tolp && std::fabs(got.second[1] - p.at[1]) <= tolp) ok = true; c.check(ok, w + "_place", num(got.second[0]) + "," + num(got.second[1])); c.event("places/" + w);
}
struct Meas
{
    ref::Surf S; ld size; std::array<double, 4> b; // size of the poles, domain
    LV at(const std::array<ld, 2> &q) const { return S.ders(double(q[0]), double(q[1]), 0, 0)[0][0].v; }
    LV at(const P2 &q) const { return S.ders(q[0], q[1], 0, 0)[0][0].v; }
    ld mid_dist(const std::vector<P2> &p, std::array<ld, 2> &g) const { g = {0, 0}; LV m(3, 0); for (auto &x : p) { g[0] += x[0] / ld(p.size()); g[1] += x[1] / ld(p.size()); auto s = at(x); for (int k = 0; k < 3; ++k) m[k] += s[k] / p.size(); } return nrm(m - at(uvd(g))); }
};
static ld extent3(const ref::Surf &s) { ld m = 0; for (auto &p : s.P) { ld w = s.rational ? p[3] : 1; for (int k = 0; k < 3; ++k) m = std::max<ld>(m, std::fabs(p[k] / w)); } return m; }
// places of each criterion for one face, from its definition
static std::vector<Place> places(const Meas &M, const F &f, const std::string &k)
{
    std::vector<Place> r; auto es = edges(f); std::vector<P2> t; for (auto &e : es) t.push_back(e.b); std::array<ld, 2> g;
    if (k == "distance") { auto &b = M.b; for (auto &q : t) if (q[0] < b[0] || q[0] > b[1] || q[1] < b[2] || q[1] > b[3]) return r; ld v = M.mid_dist(t, g); r.push_back({g, v}); for (auto &e : es) { v = M.mid_dist({e.a, e.b}, g); r.push_back({g, v}); } }
    if (k == "distance3") { ld v = M.mid_dist(t, g); r.push_back({g, v}); for (auto &e : es) if (!e.open) { v = M.mid_dist({e.a, e.b}, g); r.push_back({g, v}); } }
    if (k == "distance2") for (auto &e : es) if (!e.open) { g = {(ld(e.a[0]) + e.b[0]) / 2, (ld(e.a[1]) + e.b[1]) / 2}; auto A = M.at(e.a), B = M.at(e.b), C = M.at(g); ld l = nrm(A - B); r.push_back({g, (nrm(C - A) + nrm(C - B) - l) / l}); }
    if (k == "deviation2") for (auto &e : es) if (!e.open) { g = {(ld(e.a[0]) + e.b[0]) / 2, (ld(e.a[1]) + e.b[1]) / 2}; ld du = ld(e.b[0]) - e.a[0], dv = ld(e.b[1]) - e.a[1]; auto T = [&](const P2 &q) { auto D = M.S.ders(q[0], q[1], 1, 1); LV x(3); for (int i = 0; i < 3; ++i) x[i] = D[1][0].v[i] * du + D[0][1].v[i] * dv; return x; }; auto A = T(e.a), B = T(e.b); r.push_back({g, nrm(crs(A, B)) / (nrm(A) * nrm(B))}); }
    if (k == "deviation") { g = {(ld(t[0][0]) + t[1][0] + t[2][0]) / 3, (ld(t[0][1]) + t[1][1] + t[2][1]) / 3}; auto A = M.at(t[0]), B = M.at(t[1]), C = M.at(t[2]); auto n = crs(B - A, C - A); auto D = M.S.ders(double(g[0]), double(g[1]), 1, 1); auto m = crs(D[1][0].v, D[0][1].v); ld a = nrm(n), b = nrm(m); LV d(3); for (int i = 0; i < 3; ++i) d[i] = n[i] / a - m[i] / b; r.push_back({g, nrm(d)}); }
    if (k == "edge_surface") for (auto &e : es) if (!e.open) { g = {(ld(e.a[0]) + e.b[0]) / 2, (ld(e.a[1]) + e.b[1]) / 2}; ld l = nrm(M.at(e.a) - M.at(e.b)); r.push_back({g, l * l}); }
    return r;
}
// conditioning of the angular criteria: lengths and crossing angle of the tangents, size of the chords
static bool sane(const Meas &M, const F &f, ld &amp)
{
    amp = 1; if (M.S.p < 2 || M.S.q < 2) return false; // no kinks
    for (auto &e : edges(f)) { auto A = M.at(e.a), B = M.at(e.b); ld l = nrm(A - B); if (l < 1e-4L * M.size) return false; amp = std::max(amp, M.size / l); auto D = M.S.ders(e.b[0], e.b[1], 1, 1); ld du = ld(e.b[0]) - e.a[0], dv = ld(e.b[1]) - e.a[1]; ld a = nrm(D[1][0].v), b = nrm(D[0][1].v), n = nrm(crs(D[1][0].v, D[0][1].v)); LV t(3); for (int i = 0; i < 3; ++i) t[i] = D[1][0].v[i] * du + D[0][1].v[i] * dv; if (n < 1e-2L * a * b || nrm(t) < 1e-2L * (a * std::fabs(du) + b * std::fabs(dv)) || nrm(t) < 1e-4L * M.size) return false; amp = std::max(amp, M.size / nrm(t)); }
    auto es = edges(f); P2 g{(es[0].a[0] + es[1].a[0] + es[2].a[0]) / 3, (es[0].a[1] + es[1].a[1] + es[2].a[1]) / 3}; auto D = M.S.ders(g[0], g[1], 1, 1); if (nrm(crs(D[1][0].v, D[0][1].v)) < 1e-2L * nrm(D[1][0].v) * nrm(D[0][1].v)) return false; auto A = M.at(es[0].a), B = M.at(es[1].a), C = M.at(es[2].a); ld x = nrm(crs(B - A, C - A)); if (x < 1e-2L * nrm(B - A) * nrm(C - A)) return false; amp = std::max(amp, 100 * M.size / std::min(nrm(B - A), nrm(C - A))); return true;
}
template <class Sf> static void criteria(Case &c, const Sf &srf, const std::string &d, uint64_t h)
{
    using namespace gbs; Rng &r = c.rng; auto [u1, u2, v1, v2] = srf.bounds(); size_t nu = r.i(2, 5), nv = r.i(2, 5); c.describe(d + " nu " + num(nu) + " nv " + num(nv)); auto l = delaunay2DBoyerWatsonSurfaceBase<double, 3>(srf, nu, nv, 0.5); int n = r.i(0, 12); for (int i = 0; i < n; ++i) { P2 q{r.uni(u1, u2), r.uni(v1, v2)}; boyerWatson<double>(l, q); } View v; if (!validate(c, l, "mesh", v)) return; c.nontrivial(mix(h ^ l.size()));
    Meas M{gen::R(srf), 0, srf.bounds()}; M.size = extent3(M.S) + 1e-300L; ld tp = 1e-13L * (std::fabs(u1) + std::fabs(u2) + std::fabs(v1) + std::fabs(v2)), e = 1e-12L * M.size; const Surface<double, 3> &s = srf;
    for (auto &f : l)
    {
        judge(c, DistanceMeshSurface<double, 3>{s}(f), places(M, f, "distance"), 0, e, tp, "distance"); judge(c, DistanceMeshSurface3<double, 3>{s}(f), places(M, f, "distance3"), 0, e, tp, "distance3"); judge(c, MaxEdgeSizeSurface<double, 3>{s}(f), places(M, f, "edge_surface"), 0, e * M.size * 10, tp, "edge_surface");
        ld amp; if (!sane(M, f, amp)) { c.event("ill_conditioned"); continue; } ld q = 1e-12L * amp;
        judge(c, DistanceMeshSurface2<double, 3>{s}(f), places(M, f, "distance2"), 0, q, tp, "distance2"); judge(c, DeviationMeshSurface<double, 3>{s}(f), places(M, f, "deviation"), 0, q, tp, "deviation"); judge(c, DeviationMeshSurface2<double, 3>{s}(f), places(M, f, "deviation2"), 0, q, tp, "deviation2");
    }
    // a triangle going out of the surface is exempted
    P2 a{u1 - 0.1 * (u2 - u1) * r.i(0, 1), v1 - 0.1 * (v2 - v1)}, b{u2, v1}, t{u1, v2}; if (r.coin()) { a = {u1, v1}; (r.coin() ? b : t)[r.i(0, 1)] = r.coin() ? u2 + v2 + 1 + std::fabs(u2 - u1) * 2 + std::fabs(v2 - v1) : u1 + v1 - std::fabs(u1) - std::fabs(v1) - 1 - std::fabs(u2) - std::fabs(v2); } auto fl = {make_shared_h_edge<double, 2>(a), make_shared_h_edge<double, 2>(b), make_shared_h_edge<double, 2>(t)}; auto res = DistanceMeshSurface<double, 3>{s}(make_shared_h_face<double, 2>(fl)); bool out = false; for (auto &q : {a, b, t}) out |= q[0] < u1 || q[0] > u2 || q[1] < v1 || q[1] > v2; if (out) { c.check(res.first == 0, "outside_exempted", num(res.first)); c.event("outside"); }
}
FAMILY("surface_criteria", 150, 5000)
{
    Rng &r = c.rng; int p = r.i(1, 4), q = r.i(1, 4); if (r.coin(0.6)) { auto s = gen::surf<double, 3>(r, p, q, r.i(1, 3), r.i(1, 3), 1); criteria(c, s, gen::sdesc(s), gen::shash(s)); } else { auto s = gen::rsurf<double, 3>(r, p, q, r.i(1, 3), r.i(1, 3), 1); criteria(c, s, "rational " + gen::sdesc(s), gen::shash(s)); }
}
// planar criteria and the mesh area
static L planar(Case &c, std::string &d, uint64_t &h, ld &A)
{
    using namespace gbs; Rng &r = c.rng; double s = std::pow(10., r.i(-2, 2)); P2 o{r.coin() ? 0 : s * r.uni(-3, 3), r.coin() ? 0 : s * r.uni(-3, 3)}; std::vector<P2> poly; int n = r.i(3, 12); bool star = r.coin(0.4); for (int i = 0; i < n; ++i) { double a = 6.283185307179586 * (i + r.uni(-0.2, 0.2)) / n, q = s * (star ? r.uni(0.5, 1) : 1.); poly.push_back({o[0] + q * std::cos(a), o[1] + q * std::sin(a)}); } auto l = delaunay2DConstrained<double>(poly); A = poly_area(poly); int m = r.i(0, 8); for (int i = 0; i < m; ++i) { P2 q{o[0] + 0.4 * s * r.uni(-1, 1), o[1] + 0.4 * s * r.uni(-1, 1)}; if (!star) boyerWatson<double>(l, q); } d = "polygon"; h = n; for (auto &q : poly) { d += " (" + num(q[0]) + "," + num(q[1]) + ")"; h = mix(h ^ hb(q[0]) ^ mix(hb(q[1]))); } return l;
}
template <size_t dim> static void shape(Case &c, const std::shared_ptr<gbs::HalfEdgeFace<double, dim>> &f, double lim, ld size)
{
    using namespace gbs; std::vector<std::array<LV, 2>> es; std::vector<bool> open; auto e = f->edge, s = e; do { auto &a = e->previous->vertex->coords, &b = e->vertex->coords; es.push_back({LV(a.begin(), a.end()), LV(b.begin(), b.end())}); open.push_back(!e->opposite); e = e->next; } while (e != s);
    std::vector<ld> len; for (auto &x : es) len.push_back(nrm(x[0] - x[1])); ld mx = *std::max_element(len.begin(), len.end()), mn = *std::min_element(len.begin(), len.end()), in = -1; for (size_t i = 0; i < len.size(); ++i) if (!open[i]) in = std::max(in, len[i]); ld t = 1e-13L * size; if (mn < 1e-6L * size) return;
    auto near_at = [&](const std::array<double, dim> &p, const LV &q) { ld m = 0; for (size_t k = 0; k < dim; ++k) m = std::max<ld>(m, std::fabs(p[k] - q[k])); return m <= 10 * t; }; auto mid = [&](size_t i) { LV q(dim); for (size_t k = 0; k < dim; ++k) q[k] = (es[i][0][k] + es[i][1][k]) / 2; return q; }; LV g(dim); for (size_t k = 0; k < dim; ++k) g[k] = (es[0][0][k] + es[1][0][k] + es[2][0][k]) / 3;
    auto best = [&](const std::array<double, dim> &p) { for (size_t i = 0; i < len.size(); ++i) if (!open[i] && len[i] >= in - 4 * t && near_at(p, mid(i))) return true; return false; };
    auto a = MaxEdgeSize<double, dim>{}(f); ld w = in < 0 ? 0 : in * in; c.near(a.first, w, 1e-12L * (w + size * t), "edge_value"); if (in > 0) { c.check(best(a.second), "edge_place"); c.event("shapes/edge"); } else c.event("shapes/closed_by_border");
    if (std::fabs(mx - lim) > 10 * t)
    {
        bool small = mx < lim; auto b = TriangleShape<double, dim>{lim}(f), d = TriangleShapeEdgeSplit<double, dim>{lim}(f); c.event(small ? "shapes/small" : "shapes/ratio"); ld ra = mx / mn, tr = 1e-12L * ra + 4 * ra * t / mn;
        if (small) { c.check(b.first < -1e300 && d.first < -1e300, "small_triangle_discarded", num(b.first) + " " + num(d.first)); } else { c.near(b.first, ra, tr, "shape_value"); c.near(d.first, ra, tr, "shape_split_value"); } c.check(near_at(b.second, g), "shape_place"); if (in > 0) c.check(best(d.second), "shape_split_place", "longest " + num(double(mx)) + " inner " + num(double(in)) + " lengths " + num(double(len[0])) + " " + num(double(len[1])) + " " + num(double(len[2])) + " open " + num(int(open[0])) + num(int(open[1])) + num(int(open[2])) + " at " + num(d.second[0]) + "," + num(d.second[1]) + " edges " + num(double(mid(0)[0])) + "," + num(double(mid(1)[0])) + "," + num(double(mid(2)[0])));
    }
}
FAMILY("planar_criteria", 300, 9000)
{
    using namespace gbs; Rng &r = c.rng; std::string d; uint64_t h; ld A; auto l = planar(c, d, h, A); c.describe(d); c.nontrivial(mix(h ^ l.size())); View v; if (!validate(c, l, "mesh", v)) return; ld size = 0; for (auto &[x, s] : v.star) size = std::max<ld>(size, std::max(std::fabs(x->coords[0]), std::fabs(x->coords[1]))); double lim = double(std::sqrt(A)) * std::pow(10., r.uni(-1.5, 0.5));
    for (auto &f : l) shape<2>(c, f, lim, size); c.near(getTriangle2dMeshArea(l), A, 1e-11L * (A + size * size * 1e-3L), "mesh_area"); c.near(getTriangle2dMeshAreaPar(l), A, 1e-11L * (A + size * size * 1e-3L), "mesh_area_parallel"); std::vector<F> vl(l.begin(), l.end()); c.near(getTriangle2dMeshAreaPar(vl), area(l), 1e-11L * (A + size * size * 1e-3L), "mesh_area_parallel_vector"); c.event("areas");
    for (auto &f : l) // the edges of a face as a range
    {
        auto b = begin(*f), e = end(*f); c.check(b != e && !(b == e) && e == end(*f) && b == begin(*f) && !(b != begin(*f)), "edge_range_ends"); std::vector<E> es; for (auto it = b; it != e && es.size() < 9; ++it) es.push_back(*it); c.check(es.size() == 3 && std::distance(b, e) == 3, "edge_range_size"); if (es.size() != 3) continue; c.check(es[0] == f->edge && es[1] == es[0]->next && es[2] == es[1]->next, "edge_range_order"); auto w = b; w++; c.check(w != b && !(w == b) && *w == es[1], "edge_range_next");
        auto less = [](const auto &x, const auto &y) { return edge_sq_length(x) < edge_sq_length(y); }; c.check(*std::max_element(b, e, less) == *std::max_element(es.begin(), es.end(), less) && *std::min_element(b, e, less) == *std::min_element(es.begin(), es.end(), less), "edge_range_extremes"); CyclicHalfEdgeFaceEdgeRange<double, 2> R{*f}; CyclicHalfEdgeFaceEdgeView<double, 2> W{es[1]}; c.check(std::equal(R.begin(), R.end(), es.begin(), es.end()), "edge_range_cycle"); std::rotate(es.begin(), es.begin() + 1, es.end()); c.check(std::equal(W.begin(), W.end(), es.begin(), es.end()), "edge_view_cycle"); c.event("edge_ranges");
    }
    L none; c.check(getTriangle2dMeshArea(none) == 0 && getTriangle2dMeshAreaPar(none) == 0, "area_of_nothing");
    // in space: a fan of triangles around a vertex
    int n = r.i(3, 7); auto o = make_shared_h_vertex<double, 3>({r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}); std::vector<std::shared_ptr<HalfEdgeVertex<double, 3>>> w; for (int i = 0; i < n; ++i) w.push_back(make_shared_h_vertex<double, 3>({std::cos(6.28 * i / n), std::sin(6.28 * i / n), r.uni(-1, 1)})); std::vector<std::shared_ptr<HalfEdgeFace<double, 3>>> fs; std::vector<std::array<std::shared_ptr<HalfEdge<double, 3>>, 3>> E3; for (int i = 0; i < n; ++i) { std::array<std::shared_ptr<HalfEdge<double, 3>>, 3> q{make_shared_h_edge<double, 3>(o), make_shared_h_edge<double, 3>(w[i]), make_shared_h_edge<double, 3>(w[(i + 1) % n])}; E3.push_back(q); fs.push_back(make_shared_h_face<double, 3>(q)); } for (int i = 0; i < n; ++i) { auto &x = E3[i][0], &y = E3[(i + 1) % n][1]; if (r.coin(0.8)) { x->opposite = y; y->opposite = x; } } for (auto &f : fs) shape<3>(c, f, lim, 2); c.event("space_fans"); for (auto &q : E3) for (auto &e : q) e->opposite = nullptr;
}
// a mesh refined until its criterion is met does meet it, as measured from the surface itself
FAMILY("refined_surfaces", 60, 2000)
{
    using namespace gbs; Rng &r = c.rng; auto srf = gen::surf<double, 3>(r, r.i(2, 4), r.i(2, 4), r.i(1, 2), r.i(1, 2), 1); auto [u1, u2, v1, v2] = srf.bounds(); Meas M{gen::R(srf), 0, srf.bounds()}; M.size = extent3(M.S); size_t nu = r.i(2, 5), nv = r.i(2, 5), nmax = r.i(5, 60); double dev = 0.3; int k = r.i(0, 3); static const char *nm[] = {"distance", "distance2", "distance3", "edge_surface"}; std::string w = nm[k]; ld top = 0; auto base = delaunay2DBoyerWatsonSurfaceBase<double, 3>(srf, nu, nv, dev); for (auto &f : base) for (auto &q : places(M, f, w)) top = std::max(top, q.v); double crit = double(top) * std::pow(10., r.uni(-1, -0.05)); if (!(crit > 1e-6)) return; View v; if (!validate(c, base, "base", v)) return; size_t n0 = v.star.size();
    c.describe(w + " crit " + num(crit) + " nu " + num(nu) + " nv " + num(nv) + " max " + num(nmax) + " " + gen::sdesc(srf)); c.nontrivial(mix(gen::shash(srf) ^ hb(crit)));
    const Surface<double, 3> &s = srf; auto go = [&](auto fn) {
        using Q = decltype(fn); auto l = delaunay2DBoyerWatsonSurfaceMesh<double, 3, Q>(s, crit, nmax, nu, nv, dev);
        if (!validate(c, l, w, v)) return; ld A = (ld(u2) - u1) * (ld(v2) - v1); c.near(area(l), A, 1e-9L * A, "surface_covered"); c.near(getTriangle2dMeshArea(l), A, 1e-9L * A, "surface_area"); size_t n1 = v.star.size(); c.check(n1 >= n0 && n1 <= n0 + nmax, "points_added", num(n1 - n0)); ld worst = 0; F at; for (auto &f : l) for (auto &q : places(M, f, w)) if (q.v > worst) { worst = q.v; at = f; }
        if (worst <= crit * (1 + 1e-9L)) { c.event("refined/met"); if (n1 > n0) c.event("refined/met_by_points"); return; }
        // the place proposed for the worst triangle cannot be inserted (on an edge up to rounding, on a vertex): the refinement ends there
        if (n1 == n0 + nmax) { c.event("refined/limited"); return; } auto q = fn(at).second; L m(l.begin(), l.end()); bool in = bool(std::get<0>(boyerWatson<double>(m, q))); c.event("refined/refused"); c.check(!in, "criterion_not_met", w + " " + num(double(worst)) + " > " + num(crit) + " with " + num(n1 - n0) + " points");
    };
    if (k == 0) go(DistanceMeshSurface<double, 3>{s}); else if (k == 1) go(DistanceMeshSurface2<double, 3>{s}); else if (k == 2) go(DistanceMeshSurface3<double, 3>{s}); else go(MaxEdgeSizeSurface<double, 3>{s});
}
FAMILY("refined_polygons", 100, 3000)
{
    using namespace gbs; Rng &r = c.rng; std::string d; uint64_t h; ld A; auto l = planar(c, d, h, A); View v; if (!validate(c, l, "mesh", v)) return; size_t n0 = v.star.size(), nmax = r.i(5, 80); double lim = double(A) / r.i(2, 25); std::set<P2> border; for (auto &[x, q] : v.star) if (v.open(x)) border.insert(x->coords); auto inner = [](const L &l, ld &m, P2 &at) { m = 0; for (auto &f : l) for (auto &e : edges(f)) if (!e.open) { ld q = std::pow(std::hypot(ld(e.a[0]) - e.b[0], ld(e.a[1]) - e.b[1]), 2); if (q > m) { m = q; at = {(e.a[0] + e.b[0]) / 2, (e.a[1] + e.b[1]) / 2}; } } }; ld m0, m; P2 at; inner(l, m0, at);
    c.describe("lim " + num(lim) + " max " + num(nmax) + " " + d); c.nontrivial(mix(h ^ hb(lim))); auto q = delaunay2DBoyerWatsonMeshRefine<double, 2, MaxEdgeSize<double, 2>>(l, lim, nmax); if (!validate(c, q, "refined", v)) return; c.near(area(q), A, 1e-9L * A, "polygon_covered"); size_t n1 = v.star.size(); c.check(n1 >= n0 && n1 <= n0 + nmax, "points_added"); std::set<P2> b2; for (auto &[x, st] : v.star) if (v.open(x)) b2.insert(x->coords); c.check(b2 == border, "border_kept"); inner(q, m, at);
    if (m < lim * (1 + 1e-9L)) { c.event("polygons/met"); if (n1 > n0) c.event("polygons/met_by_points"); return; } if (n1 == n0 + nmax) { c.event("polygons/limited"); return; } L t(q.begin(), q.end()); bool in = bool(std::get<0>(boyerWatson<double>(t, at))); c.event("polygons/refused"); c.check(!in, "edges_too_long", num(double(m)) + " > " + num(lim));
}
int main(int a, char **b) { return run(a, b); }
