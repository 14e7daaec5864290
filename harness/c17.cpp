// C17: triangulations are valid, Delaunay and cover the meshed domain.
#include "mesh.h"
using namespace vh;
using namespace msh;

static std::string pstr(const std::vector<P2> &v) { std::string s; for (auto &p : v) s += "(" + num(p[0]) + "," + num(p[1]) + ")"; return s.size() > 1500 ? s.substr(0, 1500) + "..." : s; }
static uint64_t phash(const std::vector<P2> &v) { uint64_t h = v.size(); for (auto &p : v) h = mix(h ^ hb(p[0]) ^ mix(hb(p[1]))); return h; }
static std::vector<P2> cloud(Case &c, int n, int &kind)
{
    Rng &r = c.rng; std::vector<P2> v; double s = std::pow(10., r.i(-1, 2)); kind = r.i(0, 8); double ox = r.coin(0.3) ? r.uni(-10, 10) * s : 0, oy = r.coin(0.3) ? r.uni(-10, 10) * s : 0;
    static const char *nm[] = {"random", "random", "grid", "cocircular", "collinear", "clustered", "duplicates", "near_duplicates", "two_lines"}; c.event(std::string("cloud/") + nm[kind]);
    for (int i = 0; i < n; ++i)
    {
        P2 p{};
        switch (kind)
        {
        case 2: p = {double(r.i(0, 4)) * s, double(r.i(0, 4)) * s}; break;
        case 3: { double a = 6.283185307179586 * (r.coin(0.3) ? r.i(0, 11) / 12. : r.u01()); p = {s * std::cos(a), s * std::sin(a)}; break; }
        case 4: { double t = r.i(0, 40) / 8.; p = {ox + s * t, oy + s * t * 0.5}; if (i < 2) p = {ox + s * r.u01(), oy - s * r.u01()}; break; }
        case 5: { double w = r.coin(0.5) ? s : s * (n > 20 ? 1e-2 : 1e-4); p = {ox + w * r.uni(-1, 1), oy + w * r.uni(-1, 1)}; break; }
        case 6: if (!v.empty() && r.coin(0.4)) { p = v[r.i(0, int(v.size()) - 1)]; break; } p = {ox + s * r.uni(-1, 1), oy + s * r.uni(-1, 1)}; break;
        case 7: if (!v.empty() && r.coin(0.4)) { p = v[r.i(0, int(v.size()) - 1)]; double e = std::pow(10., r.i(-4, -2)) * s, a = 6.3 * r.u01(); p[0] += e * std::cos(a); p[1] += e * std::sin(a); break; } p = {ox + s * r.uni(-1, 1), oy + s * r.uni(-1, 1)}; break;
        case 8: p = {s * r.uni(-1, 1), r.coin() ? s : -s}; break;
        default: p = {ox + s * r.uni(-1, 1), oy + s * r.uni(-1, 1)};
        }
        v.push_back(p);
    }
    return v;
}
static ld extent(const std::vector<P2> &v) { auto [a, b] = gbs::getCoordsMinMax(v); return std::max(b[0] - a[0], b[1] - a[1]); }
// every interior edge locally Delaunay, up to rounding (relative), absolute slack atol
static void delaunay_edges(Case &c, const View &v, const std::string &w, ld rel, ld atol, const std::set<std::pair<P2, P2>> &except = {})
{
    for (auto &[k, e] : v.he)
    {
        if (!e->opposite) continue; auto a = e->previous->vertex->coords, b = e->vertex->coords; if (except.count({a, b}) || except.count({b, a})) { c.event("edges/constrained"); continue; }
        auto t = tri(e->face); ld m; ld x = incircle_val(t[0], t[1], t[2], e->opposite->next->vertex->coords, m); c.event("edges/delaunay_checked");
        if (!c.check(x <= rel * m + atol, "edge_not_delaunay", w + " in_circle " + num(double(x)) + " terms " + num(double(m)))) return;
    }
}

FAMILY("points", 1500, 60000)
{
    using namespace gbs; Rng &r = c.rng; int kind; auto pts = cloud(c, r.i(3, 14), kind); c.describe(pstr(pts)); c.nontrivial(phash(pts));
    auto [mn, mx] = getCoordsMinMax(pts); if (!(mx[0] > mn[0]) || !(mx[1] > mn[1])) return;
    auto box = getEncompassingMesh(pts); std::set<P2> corner; for (auto &f : box) for (auto &p : tri(f)) corner.insert(p);
    View v; if (!validate(c, box, "box", v)) return;
    for (auto &q : pts) { bool in = false; for (auto &f : box) { auto t = tri(f); in |= orient(t[0], t[1], q) >= 0 && orient(t[1], t[2], q) >= 0 && orient(t[2], t[0], q) >= 0; } c.check(in && !corner.count(q), "box_contains_points"); }
    L inc = box; std::set<P2> dist; 
    ld ar = area(box), ext = extent(pts);
    for (auto &q : pts)
    {
        auto [vx, del, add] = boyerWatson<double>(inc, q); bool fresh = dist.insert(q).second;
        if (!c.check(bool(vx) == fresh, "distinct_points_inserted", "point " + num(q[0]) + "," + num(q[1]) + (fresh ? " refused" : " inserted twice"))) return;
        if (vx) c.check(vx->coords == q, "inserted_at_point");
    }
    if (!validate(c, inc, "box+points", v)) return;
    std::set<P2> used; for (auto &[x, s] : v.star) used.insert(x->coords);
    std::set<P2> want = dist; want.insert(corner.begin(), corner.end()); c.check(used == want && v.star.size() == want.size(), "vertices_are_the_points");
    c.near(area(inc), ar, 1e-12 * ar, "covers_box"); if (!no_overlap(c, inc, "box+points")) return;
    c.check(inc.size() == 2 * dist.size() + 2, "triangle_count", num(inc.size()) + " for " + num(dist.size()));
    delaunay_edges(c, v, "box+points", 1e-11, 0);
    // global empty-circle test
    std::vector<P2> all(want.begin(), want.end()); bool general = true;
    for (auto &f : inc) { auto t = tri(f); for (auto &p : all) { if (p == t[0] || p == t[1] || p == t[2]) continue; ld m; ld x = incircle_val(t[0], t[1], t[2], p, m); if (std::fabs(x) < 1e-11 * m) general = false; else if (!c.check(x < 0, "circumcircle_empty", "det " + num(double(x)))) return; c.event("circles_checked"); } }
    // triangulation of the points alone keeps the triangles that do not touch the box
    auto l = delaunay2DBoyerWatson<double>(pts); if (!validate(c, l, "points", v)) return;
    std::multiset<Tri> exp; for (auto &t : tris(inc)) { bool touch = false; for (auto &p : t) touch |= corner.count(p); if (!touch) exp.insert(t); }
    c.check(tris(l) == exp, "points_triangulation"); c.event("triangles/points", long(l.size()));
    if (general)
    {   // unique: any order of insertion gives the same set
        c.event("general_position"); auto q = pts; for (size_t i = q.size(); i > 1; --i) std::swap(q[i - 1], q[r.i(0, int(i) - 1)]);
        L l2 = box; l2 = getEncompassingMesh(pts); for (auto &p : q) boyerWatson<double>(l2, p); c.check(tris(l2) == tris(inc), "order_independent");
        // brute force: every ccw triple with an empty circumcircle is a triangle
        if (all.size() <= 12) { auto T = tris(inc); for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < all.size(); ++j) for (size_t k = j + 1; k < all.size(); ++k) { if (i >= j) continue; P2 a = all[i], b = all[j], d = all[k]; int o = orient(a, b, d); if (!o) continue; if (o < 0) std::swap(b, d); bool empty = true, close = false; for (auto &p : all) if (p != a && p != b && p != d) { ld m; ld x = incircle_val(a, b, d, p, m); close |= std::fabs(x) < 1e-11 * m; empty &= x < 0; } if (empty && !close) { c.check(T.count(norm_tri(a, b, d)) == 1, "delaunay_triangle_missing"); c.event("brute_triangles"); } } }
    }
    (void)ext;
}
FAMILY("many_points", 40, 1200)
{
    using namespace gbs; Rng &r = c.rng; int kind; auto pts = cloud(c, r.i(40, 220), kind); c.describe(pstr(pts)); c.nontrivial(phash(pts));
    auto [mn, mx] = getCoordsMinMax(pts); if (!(mx[0] > mn[0]) || !(mx[1] > mn[1])) return;
    auto l = getEncompassingMesh(pts); ld ar = area(l); std::set<P2> want; for (auto &f : l) for (auto &p : tri(f)) want.insert(p);
    for (auto &q : pts) { boyerWatson<double>(l, q); want.insert(q); }
    View v; if (!validate(c, l, "box+points", v)) return; std::set<P2> used; for (auto &[x, s] : v.star) used.insert(x->coords);
    c.check(used == want && v.star.size() == want.size(), "vertices_are_the_points", num(used.size()) + " of " + num(want.size())); c.near(area(l), ar, 1e-11 * ar, "covers_box"); c.check(l.size() == 2 * (want.size() - 4) + 2, "triangle_count");
    delaunay_edges(c, v, "box+points", 1e-11, 0); c.event("triangles/points", long(l.size()));
    std::set<P2> corner; auto bx = getEncompassingMesh(pts); for (auto &f : bx) for (auto &p : tri(f)) corner.insert(p);
    std::multiset<Tri> exp; for (auto &t : tris(l)) { bool touch = false; for (auto &p : t) touch |= corner.count(p); if (!touch) exp.insert(t); }
    auto l2 = delaunay2DBoyerWatson<double>(pts); c.check(tris(l2) == exp, "points_triangulation");
}
// ---- constrained triangulation
// star-shaped polygon around o; also combs and spirals
static std::vector<P2> polygon(Rng &r, P2 o, double s, int &kind)
{
    std::vector<P2> v; kind = r.i(0, 4);
    switch (kind)
    {
    case 0: { int n = r.i(3, 30); std::vector<double> a; for (int i = 0; i < n; ++i) a.push_back((i + r.uni(-0.3, 0.3)) * 6.283185307179586 / n); for (auto x : a) { double q = s * r.uni(0.25, 1); v.push_back({o[0] + q * std::cos(x), o[1] + q * std::sin(x)}); } break; }
    case 1: { int n = r.i(3, 40); for (int i = 0; i < n; ++i) { double x = i * 6.283185307179586 / n; v.push_back({o[0] + s * std::cos(x), o[1] + 0.6 * s * std::sin(x)}); } break; } // cocircular after scaling, convex
    case 2:
    {   // comb with long teeth
        int n = r.i(2, 7); double w = 2 * s / (2 * n - 1); v.push_back({o[0] - s, o[1] - s}); v.push_back({o[0] + s, o[1] - s});
        for (int i = n - 1; i >= 0; --i) { double x1 = o[0] - s + (2 * i + 1) * w, x0 = o[0] - s + 2 * i * w; if (i == n - 1) x1 = o[0] + s; double h = r.uni(0.3, 1) * s; v.push_back({x1, o[1] + h}); v.push_back({x0, o[1] + h * r.uni(0.8, 1)}); if (i) { double b = -r.uni(0.3, 0.9) * s; v.push_back({x0, o[1] + b}); v.push_back({x0 - w, o[1] + b}); } }
        break;
    }
    case 3:
    {   // rectilinear staircase on a grid (many collinear and cocircular points)
        int n = r.i(2, 7); double h = s / n; v.push_back({o[0] - s / 2, o[1] - s / 2}); v.push_back({o[0] - s / 2 + n * h, o[1] - s / 2});
        for (int i = n; i > 0; --i) { v.push_back({o[0] - s / 2 + i * h, o[1] - s / 2 + (n - i + 1) * h}); if (i > 1) v.push_back({o[0] - s / 2 + (i - 1) * h, o[1] - s / 2 + (n - i + 1) * h}); }
        v.push_back({o[0] - s / 2, o[1] - s / 2 + n * h}); break;
    }
    default:
    {   // spiral band
        int n = r.i(6, 24); double tu = r.uni(0.7, 2.2); std::vector<P2> in, out; for (int i = 0; i <= n; ++i) { double t = double(i) / n, a = 6.283185307179586 * tu * t, q = s * (0.25 + 0.75 * t) , d = 0.12 * s; in.push_back({o[0] + (q - d) * std::cos(a), o[1] + (q - d) * std::sin(a)}); out.push_back({o[0] + q * std::cos(a), o[1] + q * std::sin(a)}); }
        v = out; v.insert(v.end(), in.rbegin(), in.rend());
    }
    }
    v.erase(std::unique(v.begin(), v.end()), v.end()); if (v.size() > 1 && v.back() == v.front()) v.pop_back();
    return v;
}
// simple with clearance: vertices away from non incident edges
static bool clean(const std::vector<std::vector<P2>> &rings, ld clear)
{
    struct S { P2 a, b; }; std::vector<S> e; std::vector<P2> p; for (auto &r : rings) for (size_t i = 0; i < r.size(); ++i) { e.push_back({r[i], r[(i + 1) % r.size()]}); p.push_back(r[i]); }
    for (auto &s : e) for (auto &q : p) if (q != s.a && q != s.b && seg_dist(q, s.a, s.b) < clear) return false;
    for (size_t i = 0; i < e.size(); ++i) { if (std::hypot(e[i].a[0] - e[i].b[0], e[i].a[1] - e[i].b[1]) < clear) return false; for (size_t j = 0; j < i; ++j) if (cross_exact(e[i].a, e[i].b, e[j].a, e[j].b)) return false; }
    return true;
}
FAMILY("constrained", 1500, 60000)
{
    using namespace gbs; Rng &r = c.rng; double s = std::pow(10., r.i(0, 2)); P2 o{r.coin(0.3) ? r.uni(-5, 5) * s : 0, r.coin(0.3) ? r.uni(-5, 5) * s : 0}; int kind, k2;
    auto outer = polygon(r, o, s, kind); if (poly_area(outer) < 0 || !clean({outer}, 2e-3 * s)) { c.event("skipped/outer"); return; }
    if (r.coin(0.5)) std::rotate(outer.begin(), outer.begin() + r.i(0, int(outer.size()) - 1), outer.end());
    std::vector<std::vector<P2>> holes, rings{outer}; ld A = poly_area(outer); int nh = r.i(0, 3);
    for (int h = 0; h < nh; ++h)
        for (int k = 0; k < 12; ++k)
        {
            P2 q{o[0] + s * r.uni(-0.8, 0.8), o[1] + s * r.uni(-0.8, 0.8)}; auto p = polygon(r, q, s * r.uni(0.05, 0.35), k2); bool in = poly_area(p) > 0; for (auto &x : p) { in = in && inside_poly(x, outer); for (auto &g : holes) in = in && !inside_poly(x, g); } if (in) for (auto &g : holes) for (auto &x : g) in = in && !inside_poly(x, p);
            auto t = rings; t.push_back(p); if (!in || !clean(t, 1e-3 * s)) continue;
            holes.push_back(p); rings.push_back(p); A -= poly_area(p); break;
        }
    std::string d = "outer " + pstr(outer); uint64_t hh = phash(outer); for (auto &g : holes) { d += " hole " + pstr(g); hh = mix(hh ^ phash(g)); } c.describe(d); c.nontrivial(hh);
    static const char *nm[] = {"star", "ellipse", "comb", "staircase", "spiral"}; c.event(std::string("polygon/") + nm[kind]); c.event("holes/" + std::to_string(holes.size()));
    auto l = holes.empty() && r.coin() ? delaunay2DConstrained<double>(outer) : delaunay2DConstrained<double>(outer, holes);
    View v; if (!validate(c, l, "constrained", v)) return;
    c.near(area(l), A, 1e-11 * A, "covers_polygon"); std::set<std::pair<P2, P2>> bound; std::set<P2> want, used;
    for (size_t k = 0; k < rings.size(); ++k) for (size_t i = 0; i < rings[k].size(); ++i) { auto a = rings[k][i], b = rings[k][(i + 1) % rings[k].size()]; want.insert(a); if (k) std::swap(a, b); bound.insert({a, b}); }
    std::set<std::pair<P2, P2>> got; for (auto &[k, e] : v.he) if (!e->opposite) got.insert({e->previous->vertex->coords, e->vertex->coords}); for (auto &[x, q] : v.star) used.insert(x->coords);
    c.check(got == bound, "boundary_is_the_polygon", num(got.size()) + " boundary edges for " + num(bound.size())); c.check(used == want && v.star.size() == want.size(), "vertices_are_the_polygon", num(used.size()) + "/" + num(want.size()));
    size_t nexp = want.size() + 2 * holes.size() - 2; c.check(l.size() == nexp, "triangle_count", num(l.size()) + " for " + num(nexp));
    if (l.size() <= 120) no_overlap(c, l, "constrained");
    delaunay_edges(c, v, "constrained", 1e-11, 1e-9, {}); c.event("triangles/constrained", long(l.size()));
    for (auto &f : l) { auto t = tri(f); P2 g{(t[0][0] + t[1][0] + t[2][0]) / 3, (t[0][1] + t[1][1] + t[2][1]) / 3}; bool in = inside_poly(g, outer); for (auto &h : holes) in = in && !inside_poly(g, h); c.check(in, "triangle_outside"); }
}
FAMILY("recover_edge", 600, 20000)
{
    using namespace gbs; Rng &r = c.rng; std::vector<P2> pts; int n = r.i(4, 30); double s = std::pow(10., r.i(0, 2)); for (int i = 0; i < n; ++i) pts.push_back(r.coin(0.2) ? P2{s * r.i(-3, 3) / 3., s * r.i(-3, 3) / 3.} : P2{s * r.uni(-1, 1), s * r.uni(-1, 1)});
    auto [mn, mx] = getCoordsMinMax(pts); if (!(mx[0] > mn[0]) || !(mx[1] > mn[1])) return;
    auto l = getEncompassingMesh(pts); std::map<P2, V> vx; for (auto &p : pts) { auto [x, d, a] = boyerWatson<double>(l, p); if (x) vx[p] = x; }
    View v; if (!validate(c, l, "start", v)) return; ld ar = area(l); auto T0 = tris(l); c.describe(pstr(pts)); c.nontrivial(phash(pts));
    std::vector<std::pair<P2, P2>> done;
    for (int k = 0; k < 8; ++k)
    {
        auto a = std::next(vx.begin(), r.i(0, int(vx.size()) - 1)), b = std::next(vx.begin(), r.i(0, int(vx.size()) - 1)); if (a == b) { c.check(!recoverEdge<double>(l, a->second, b->second), "recover_null_edge"); continue; }
        bool ok = std::hypot(a->first[0] - b->first[0], a->first[1] - b->first[1]) > 1e-3 * s; for (auto &[x, st] : v.star) if (x->coords != a->first && x->coords != b->first) ok = ok && seg_dist(x->coords, a->first, b->first) > 1e-3 * s;
        for (auto &e : done) ok = ok && !cross_exact(e.first, e.second, a->first, b->first); if (!ok) continue;
        auto T1 = tris(l); auto e = recoverEdge<double>(l, a->second, b->second); c.event("edges/recovered");
        if (!c.check(bool(e), "edge_recovered")) { if (!validate(c, l, "recovery", v)) return; continue; }
        c.check(e->vertex == b->second && e->previous->vertex == a->second, "recovered_edge_ends"); if (!validate(c, l, "recovery", v)) return; auto it = v.he.find({a->second.get(), b->second.get()}); c.check(it != v.he.end() && it->second == e, "recovered_edge_in_mesh"); c.near(area(l), ar, 1e-12 * ar, "recovery_area");
        done.push_back({a->first, b->first}); for (auto &x : done) c.check(v.he.count({vx[x.first].get(), vx[x.second].get()}), "earlier_edge_lost");
        // only triangles met by the segment are replaced
        auto T2 = tris(l); for (auto &t : T1) if (!T2.count(t)) { bool met = false; for (int i = 0; i < 3; ++i) met |= cross_exact(a->first, b->first, t[i], t[(i + 1) % 3]); c.check(met, "untouched_triangle_replaced"); }
    }
    no_overlap(c, l, "recovery");
}
// ---- surfaces
FAMILY("surface", 150, 4000)
{
    using namespace gbs; Rng &r = c.rng; int p = r.i(2, 4), q = r.i(2, 4); auto srf = gen::surf<double, 3>(r, p, q, r.i(1, 3), r.i(1, 3), 1); // smooth: the deviation criterion cannot be met at a kink
    size_t nu = r.i(2, 7), nv = r.i(2, 7); double dev = std::pow(10., r.uni(-2.5, 0)); c.describe(gen::sdesc(srf) + " nu " + num(nu) + " nv " + num(nv) + " dev " + num(dev)); c.nontrivial(gen::shash(srf));
    auto [u1, u2, v1, v2] = srf.bounds(); auto bd = meshSurfaceBoundary<double, 3>(srf, nu, nv, dev);
    auto us = deviation_based_u_params<double, 3>(srf, u1, u2, v1, nu, dev);
    std::set<P2> B(bd.begin(), bd.end()); double eu = 1e-14 * (std::fabs(u1) + std::fabs(u2)), ev = 1e-14 * (std::fabs(v1) + std::fabs(v2));
    ld per = 0; for (size_t i = 0; i < bd.size(); ++i) { auto a = bd[i], b = bd[(i + 1) % bd.size()]; per += std::hypot(a[0] - b[0], a[1] - b[1]); bool on = a[0] == u1 || a[0] == u2 || a[1] == v1 || a[1] == v2; c.check(on, "boundary_points_on_the_bounds", num(a[0]) + "," + num(a[1])); c.check(a[0] >= u1 - eu && a[0] <= u2 + eu && a[1] >= v1 - ev && a[1] <= v2 + ev, "boundary_points_in_domain"); }
    c.near(per, 2 * (ld(u2) - u1 + v2 - v1), 1e-10 * per, "boundary_walk_length");
    auto l = delaunay2DBoyerWatsonSurfaceBase<double, 3>(srf, nu, nv, dev); View v; if (!validate(c, l, "base", v)) return;
    ld A = (ld(u2) - u1) * (ld(v2) - v1); c.near(area(l), A, 1e-9 * A, "covers_domain"); std::set<P2> used; for (auto &[x, s] : v.star) { used.insert(x->coords); auto k = x->coords; c.check(k[0] >= u1 - eu && k[0] <= u2 + eu && k[1] >= v1 - ev && k[1] <= v2 + ev, "vertex_in_domain", num(k[0]) + "," + num(k[1])); } c.check(used == B, "boundary_points_used");
    c.event("surface/boundary_points", long(B.size()));
    double crit = std::pow(10., r.uni(-3, -1)); size_t nmax = r.i(1, 60); size_t nv0 = v.star.size();
    auto go = [&](auto fn, const char *nm) {
        auto q = delaunay2DBoyerWatsonSurfaceBase<double, 3>(srf, nu, nv, dev); using Q = decltype(fn);
        auto m = delaunay2DBoyerWatsonSurfaceMeshRefine<double, 3, Q>(srf, q, crit, nmax); if (!validate(c, m, nm, v)) return;
        c.near(area(m), A, 1e-9 * A, std::string("refined_covers_domain_") + nm); for (auto &[x, s] : v.star) { auto k = x->coords; c.check(k[0] >= u1 - eu && k[0] <= u2 + eu && k[1] >= v1 - ev && k[1] <= v2 + ev, "vertex_in_domain"); }
        c.check(v.star.size() <= nv0 + nmax, "refine_count");
        double sep = 1e300; for (auto i = v.star.begin(); i != v.star.end(); ++i) for (auto j = std::next(i); j != v.star.end(); ++j) sep = std::min(sep, std::hypot(i->first->coords[0] - j->first->coords[0], i->first->coords[1] - j->first->coords[1]));
        if (sep > 1e-4 * (u2 - u1 + v2 - v1)) { delaunay_edges(c, v, nm, 1e-11, 0); c.event("surface/delaunay_checked"); } else c.event("surface/too_close"); c.event(std::string("surface/") + nm); c.event("surface/inner_points", long(v.star.size() - nv0));
        double w = 0; P2 at{}; Q f2{srf}; for (auto &f : m) { auto [x, uv] = f2(f); if (x > w) { w = x; at = uv; } }
        // a proposed point that cannot be inserted (on the border, confused with a vertex) ends the refinement
        bool refused = false; if (w > crit) { L m2(m.begin(), m.end()); auto [x, de, ad] = boyerWatson<double>(m2, at); refused = !x; }
        if (refused) c.event("surface/refused"); else if (v.star.size() < nv0 + nmax) { c.check(w <= crit * (1 + 1e-9), std::string("refine_criterion_") + nm, num(w) + " > " + num(crit)); c.event("surface/converged"); } else c.event("surface/limited");
    };
    if (r.coin()) go(DistanceMeshSurface2<double, 3>{srf}, "distance"); else go(DeviationMeshSurface<double, 3>{srf}, "deviation");
}
// deviation criterion: a triangle that follows a surface has a small deviation, whatever its first edge
FAMILY("deviation", 400, 8000)
{
    using namespace gbs; Rng &r = c.rng; auto srf = gen::surf<double, 3>(r, r.i(2, 4), r.i(2, 4), 1, 1, 1); auto [u1, u2, v1, v2] = srf.bounds(); double h = 1e-4 * std::min(u2 - u1, v2 - v1); P2 g{r.uni(u1 + 0.1 * (u2 - u1), u2 - 0.1 * (u2 - u1)), r.uni(v1 + 0.1 * (v2 - v1), v2 - 0.1 * (v2 - v1))};
    P2 a{g[0] - h, g[1] - h}, b{g[0] + h, g[1] - h * r.uni(-0.3, 0.9)}, d{g[0] + h * r.uni(-0.9, 0.9), g[1] + h}; auto S = gen::R(srf); auto D = S.ders(g[0], g[1], 1, 1); auto su = D[1][0].v, sv = D[0][1].v; ld nx = su[1] * sv[2] - su[2] * sv[1], ny = su[2] * sv[0] - su[0] * sv[2], nz = su[0] * sv[1] - su[1] * sv[0], nn = std::sqrt(nx * nx + ny * ny + nz * nz), nu_ = std::sqrt(su[0] * su[0] + su[1] * su[1] + su[2] * su[2]), nv_ = std::sqrt(sv[0] * sv[0] + sv[1] * sv[1] + sv[2] * sv[2]);
    if (nn < 0.2 * nu_ * nv_ || nu_ * h < 1e-6 || nv_ * h < 1e-6 || !(area2(a, b, d) > 0.2 * h * h)) return; c.describe(gen::sdesc(srf)); c.nontrivial(gen::shash(srf) ^ hb(g[0]));
    auto lst = {make_shared_h_edge<double, 2>(a), make_shared_h_edge<double, 2>(b), make_shared_h_edge<double, 2>(d)}; auto f = make_shared_h_face<double, 2>(lst);
    DeviationMeshSurface<double, 3> q{srf}; auto res = q(f); c.check(res.first < 0.1, "deviation_of_a_fine_triangle", num(res.first)); c.near(res.second[0], (a[0] + b[0] + d[0]) / 3, 1e-12 * (std::fabs(u1) + std::fabs(u2) + 1), "deviation_point"); c.event("deviations");
    c.check(surface_triangle_deviation<double, 3>(srf, a, b, d) < 0.1, "triangle_deviation"); c.check(surface_triangle_deviation<double, 3>(srf, a, d, b) > 1.9, "reversed_triangle_deviation");
}
// cutting a disc out of (or keeping it in) a triangulated box
FAMILY("bounds", 200, 5000)
{
    using namespace gbs; Rng &r = c.rng; double s = std::pow(10., r.i(0, 2)); P2 o{s * r.uni(-1, 1), s * r.uni(-1, 1)}; std::vector<P2> disc, box; int n = r.i(8, 40); double q = s * r.uni(0.5, 2), ph = r.uni(0, 6); for (int i = 0; i < n; ++i) { double a = ph + 6.283185307179586 * i / n; disc.push_back({o[0] + q * std::cos(a), o[1] + 0.9 * q * std::sin(a)}); }
    int m = r.i(2, 6); double W = 3 * q; for (int i = 0; i < m; ++i) { double t = -1 + 2. * i / m; box.push_back({o[0] + W * t, o[1] - W}); } for (int i = 0; i < m; ++i) { double t = -1 + 2. * i / m; box.push_back({o[0] + W, o[1] + W * t}); } for (int i = 0; i < m; ++i) { double t = 1 - 2. * i / m; box.push_back({o[0] + W * t, o[1] + W}); } for (int i = 0; i < m; ++i) { double t = 1 - 2. * i / m; box.push_back({o[0] - W, o[1] + W * t}); }
    c.describe("disc " + pstr(disc) + " box " + pstr(box)); c.nontrivial(phash(disc) ^ mix(phash(box))); ld Ab = 4 * ld(W) * W, Ad = poly_area(disc); View v;
    auto l = delaunay2DBoyerWatson<double>(box); if (!validate(c, l, "box", v)) return; c.near(area(l), Ab, 1e-10 * Ab, "convex_outline_covered");
    auto l2 = l; // faces are shared, use one copy per run
    if (r.coin())
    {
        auto taken = delaunay2DBoyerWatsonAddInnerBound<double, 2>(l, disc); if (!validate(c, l, "inner", v)) return; c.near(area(l), Ab - Ad, 1e-10 * Ab, "inner_bound_area"); c.near(area(taken), Ad, 1e-10 * Ab, "inner_taken_area"); c.event("bounds/inner");
        std::set<P2> used; for (auto &[x, st] : v.star) used.insert(x->coords); for (auto &p : disc) c.check(used.count(p), "inner_bound_points");
    }
    else { auto taken = delaunay2DBoyerWatsonAddOuterBound<double, 2>(l, disc); if (!validate(c, l, "outer", v)) return; c.near(area(l), Ad, 1e-10 * Ab, "outer_bound_area"); c.near(area(taken), Ab - Ad, 1e-10 * Ab, "outer_taken_area"); c.event("bounds/outer"); }
    // two-container form: the points of the inner bound are part of the first container
    auto all = box; all.insert(all.end(), disc.begin(), disc.end()); auto l3 = delaunay2DBoyerWatson<double>(all, disc, 1e-10); if (!validate(c, l3, "two bounds", v)) return; c.near(area(l3), Ab - Ad, 1e-10 * Ab, "two_bounds_area");
}
int main(int a, char **b) { return run(a, b); }
