// C16: half-edge meshes stay consistent through any edit history.
#include "mesh.h"
using namespace vh;
using namespace msh;

struct Hist
{
    Case &c; L l; View v; std::string log; double size = 1; bool dead = false;
    Rng &r() { return c.rng; }
    bool val(const std::string &w) { bool ok = validate(c, l, log + " after " + w, v); if (!ok) dead = true; return ok; }
    F face(int i) { return *std::next(l.begin(), i); }
    F rface() { return face(r().i(0, int(l.size()) - 1)); }
    E redge() { auto e = rface()->edge; for (int k = r().i(0, 2); k > 0; --k) e = e->next; return e; }
    V rvtx() { return redge()->vertex; }
    P2 bary(const F &f) { auto t = tri(f); double a = r().uni(0.02, 1), b = r().uni(0.02, 1), d = r().uni(0.02, 1), s = a + b + d; return {(a * t[0][0] + b * t[1][0] + d * t[2][0]) / s, (a * t[0][1] + b * t[1][1] + d * t[2][1]) / s}; }
};
static std::string ps(P2 p) { return "(" + num(p[0]) + "," + num(p[1]) + ")"; }

static void start(Hist &h)
{
    using namespace gbs; Rng &r = h.r(); h.size = std::pow(10., r.i(-2, 3)); double s = h.size;
    switch (r.i(0, 3))
    {
    case 0: { std::vector<P2> pts; int n = r.i(2, 6); for (int i = 0; i < n; ++i) pts.push_back({r.uni(-s, s), r.uni(-s, s)}); h.l = getEncompassingMesh(pts); h.log = "box"; break; }
    case 1:
    {
        P2 a, b, d; do { a = {r.uni(-s, s), r.uni(-s, s)}; b = {r.uni(-s, s), r.uni(-s, s)}; d = {r.uni(-s, s), r.uni(-s, s)}; } while (area2(a, b, d) < 0.05 * s * s);
        auto lst = {make_shared_h_edge<double, 2>(a), make_shared_h_edge<double, 2>(b), make_shared_h_edge<double, 2>(d)};
        h.l = {make_shared_h_face<double, 2>(lst)}; h.log = "tri"; break;
    }
    case 2:
    {   // integer grid, highly degenerate
        int n = r.i(1, 3), m = r.i(1, 3); std::vector<P2> box{{0, 0}, {double(n), double(m)}}; h.l = getEncompassingMesh(box, 0.);
        for (int i = 0; i <= n; ++i) for (int j = 0; j <= m; ++j) boyerWatson<double>(h.l, P2{double(i), double(j)});
        h.size = 1; h.log = "grid"; break;
    }
    default:
    {
        std::vector<P2> pts; int n = r.i(4, 12); for (int i = 0; i < n; ++i) pts.push_back({r.uni(-s, s), r.uni(-s, s)});
        h.l = delaunay2DBoyerWatson<double>(pts, 1e-10); h.log = "delaunay";
        if (h.l.empty()) { h.l = getEncompassingMesh(pts); h.log = "box"; }
    }
    }
}

static void queries(Hist &h)
{
    using namespace gbs; Case &c = h.c; auto &v = h.v; Rng &r = h.r(); std::string w = h.log;
    auto fset = [](auto &&x) { std::multiset<const void *> s; for (auto &f : x) s.insert(f.get()); return s; };
    std::vector<V> vs; for (auto &[x, s] : v.star) vs.push_back(x);
    for (auto &x : vs)
    {
        bool bow = v.bowtie(x); c.event(bow ? "vertices/pinched" : v.open(x) ? "vertices/boundary" : "vertices/inner");
        auto got = fset(getFacesAttachedToVertex(x)), want = fset(v.star.at(x));
        if (bow) { for (auto *f : got) c.check(want.count(f) == got.count(f), "attached_faces_pinched", w); continue; }
        c.check(got == want, "attached_faces", w + " got " + num(got.size()) + " want " + num(want.size()));
        std::set<const void *> nb; for (auto &f : v.star.at(x)) { auto e = f->edge; for (int i = 0; i < 3; ++i, e = e->next) if (e->vertex != x) nb.insert(e->vertex.get()); }
        std::multiset<const void *> gn; for (auto &y : getNeighboringVertices(*x)) gn.insert(y.get());
        c.check(gn == std::multiset<const void *>(nb.begin(), nb.end()), "neighbor_vertices", w + " got " + num(gn.size()) + " want " + num(nb.size()));
        c.check(is_boundary(*x) == v.open(x), "is_boundary", w);
        auto y = vs[r.i(0, int(vs.size()) - 1)]; auto it = v.he.find({x.get(), y.get()});
        auto e = findHalfEdge(x, y); c.check(e == (it == v.he.end() ? E{} : it->second), "find_half_edge", w);
        for (auto *q : nb) { auto jt = v.he.find({x.get(), q}); if (jt != v.he.end()) c.check(findHalfEdge(x, jt->second->vertex) == jt->second, "find_half_edge_existing", w); }
        c.event("vertex_queries");
    }
    size_t nbound = 0; for (auto &[k, e] : v.he) nbound += !v.he.count({k.second, k.first});
    auto bd = getFacesBoundary(h.l); std::set<const void *> bs; for (auto &e : bd) bs.insert(e.get());
    c.check(bd.size() == nbound && bs.size() == nbound, "faces_boundary", w);
    for (auto &e : bd) c.check(v.edges.count(e.get()) && !v.he.count({e->vertex.get(), e->previous->vertex.get()}), "faces_boundary_edge", w);
    auto loops = getOrientedFacesBoundaries(h.l); size_t tot = 0; std::set<const void *> seen;
    for (auto &lp : loops)
    {
        tot += lp.size(); bool ok = !lp.empty(); const E *pr = nullptr;
        for (auto &e : lp) { seen.insert(e.get()); if (pr) ok &= (*pr)->vertex == e->previous->vertex; pr = &e; }
        ok &= lp.back()->vertex == lp.front()->previous->vertex;
        c.check(ok, "boundary_loop_closed", w);
    }
    c.check(tot == nbound && seen == bs, "boundary_loops_partition", w);
    auto vm = getVerticesMapFromFaces<double, 2>(h.l); auto vv = getVerticesVectorFromFaces<double, 2>(h.l); auto em = getEdgesMap<double, 2>(h.l);
    bool ok = vm.size() == vs.size() && vv.size() == vs.size(); std::set<size_t> ids;
    for (auto &[x, i] : vm) { ok &= v.star.count(x) == 1 && i < vs.size(); ids.insert(i); } ok &= ids.size() == vs.size();
    std::set<const void *> vvs; for (auto &x : vv) { vvs.insert(x.get()); ok &= v.star.count(x) == 1; } ok &= vvs.size() == vs.size();
    c.check(ok, "vertices_of_faces", w);
    c.check(em.size() == v.edges.size(), "edges_of_faces", w);
    for (int k = 0; k < 4; ++k)
    {
        auto f = h.rface(); std::multiset<const void *> want; auto e = f->edge;
        for (int i = 0; i < 3; ++i, e = e->next) { auto it = v.he.find({e->vertex.get(), e->previous->vertex.get()}); if (it != v.he.end()) want.insert(it->second->face.get()); }
        c.check(fset(getNeighboringFaces(f)) == want, "neighbor_faces", w);
        auto g = h.rface(); auto [c1, c2] = getCommonEdges(f, g); bool adj = want.count(g.get());
        if (f != g && want.count(g.get()) <= 1) { c.check(bool(c1) == adj && bool(c2) == adj, "common_edges", w); if (c1 && c2) c.check(c1->face == f && c2->face == g && c1->opposite == c2, "common_edges_match", w); c.check(bool(getCommonEdge(f, g)) == adj, "common_edge", w); }
        auto x = h.rvtx(); auto fe = getFaceEdge(f, x); bool in = std::count(v.star.at(x).begin(), v.star.at(x).end(), f);
        c.check(bool(fe) == in && (!fe || (fe->face == f && fe->vertex == x)), "face_edge", w);
        c.check(getNextFace(e) == (e->opposite ? e->opposite->face : nullptr), "next_face", w);
        auto fv = getFaceVertices(f); auto tv = getTriangleVertices(f); auto fc = getFaceCoords(f);
        c.check(fv.size() == 3 && fc.size() == 3 && std::equal(fv.begin(), fv.end(), fc.begin(), fc.end(), [](auto &a, auto &b) { return a->coords == b; }) && tv.size() == 3 && [&] { std::vector<V> a(fv.begin(), fv.end()), b(tv.begin(), tv.end()); auto m = std::find(b.begin(), b.end(), a[0]); if (m == b.end()) return false; std::rotate(b.begin(), m, b.end()); return a == b; }(), "face_vertices", w);
    }
    c.near(getTriangle2dMeshArea(h.l), area(h.l), 1e-12 * (area(h.l) + h.size * h.size), "mesh_area", w);
    if (!h.l.empty() && loops.size() == 1)
    {
        bool bow = false; for (auto &x : vs) bow |= v.bowtie(x);
        size_t ne = (v.he.size() + nbound) / 2; if (!bow) { c.check(vs.size() + h.l.size() == ne + 1, "euler", w + " V " + num(vs.size()) + " E " + num(ne) + " F " + num(h.l.size())); c.event("euler"); }
    }
}

static void insert(Hist &h)
{
    using namespace gbs; Case &c = h.c; Rng &r = h.r(); P2 p; int k = r.i(0, 9);
    if (k < 5) p = h.bary(h.rface());
    else if (k < 7) { auto e = h.redge(); auto a = e->previous->vertex->coords, b = e->vertex->coords; double t = k == 5 ? 0.5 : r.i(1, 7) / 8.; p = {a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])}; }
    else if (k == 7) p = h.rvtx()->coords;
    else { auto q = h.rvtx()->coords; p = {q[0] + r.uni(-1, 1) * h.size, q[1] + r.uni(-1, 1) * h.size}; if (r.coin(0.2)) p = {q[0] + 20 * h.size, q[1]}; }
    // where does the point lie ?
    bool dup = false, in = false, on_inner = false;
    for (auto &[x, s] : h.v.star) dup |= x->coords == p;
    for (auto &f : h.l)
    {
        auto e = f->edge; int o[3]; E ed[3]; for (int i = 0; i < 3; ++i, e = e->next) { ed[i] = e; o[i] = orient(e->previous->vertex->coords, e->vertex->coords, p); }
        if (o[0] > 0 && o[1] > 0 && o[2] > 0) in = true;
        for (int i = 0; i < 3; ++i) if (o[i] == 0 && o[(i + 1) % 3] > 0 && o[(i + 2) % 3] > 0 && ed[i]->opposite) on_inner = true;
    }
    bool expect = !dup && (in || on_inner); auto before = tris(h.l); ld ar = area(h.l); size_t nf = h.l.size(), nv = h.v.star.size();
    auto [vtx, del, add] = boyerWatson<double>(h.l, p);
    std::string w = "insert" + ps(p); h.log += " i"; c.event(expect ? (in ? "insert/inside" : "insert/on_edge") : dup ? "insert/duplicate" : "insert/outside_or_boundary");
    if (!h.val(w)) return;
    c.check(bool(vtx) == expect, "insert_accepts", h.log + " " + w + (expect ? " expected" : " not expected"));
    if (!vtx) { c.check(tris(h.l) == before && del.empty() && add.empty(), "refused_insert_changes_mesh", h.log + w); return; }
    c.check(vtx->coords == p && h.v.star.count(vtx) && h.v.star.size() == nv + 1, "insert_uses_point", h.log + w);
    c.check(h.l.size() == nf + 2, "insert_face_count", h.log + w + " " + num(nf) + "->" + num(h.l.size()));
    c.near(area(h.l), ar, 1e-13 * (ar + h.size * h.size), "insert_area", h.log + w);
    auto after = tris(h.l); for (auto &f : del) { c.check(before.count(tri(f)) || true, "x"); c.check(!h.v.faces.count(f.get()), "deleted_face_listed", h.log + w); }
    size_t with = h.v.star.count(vtx) ? h.v.star.at(vtx).size() : 0; c.check(with == add.size(), "new_faces_reported", h.log + w);
    for (auto &f : add) c.check(h.v.faces.count(f.get()), "new_face_listed", h.log + w);
    for (auto &t : before) if (!after.count(t)) c.event("cavity_faces");
    c.check(del.size() + h.l.size() == nf + add.size(), "insert_balance", h.log + w);
}
static void do_flip(Hist &h)
{
    using namespace gbs; Case &c = h.c; E e; bool ok = false; P2 A, B, C, D;
    for (int k = 0; k < 20 && !ok; ++k)
    {
        e = h.redge(); if (!e->opposite) continue;
        A = e->previous->vertex->coords; B = e->vertex->coords; C = e->next->vertex->coords; D = e->opposite->next->vertex->coords;
        ok = orient(C, D, B) > 0 && orient(D, C, A) > 0 && !h.v.he.count({e->next->vertex.get(), e->opposite->next->vertex.get()}) && !h.v.he.count({e->opposite->next->vertex.get(), e->next->vertex.get()});
    }
    if (!ok) return;
    auto before = tris(h.l); auto f1 = e->face, f2 = e->opposite->face; if (h.r().coin()) std::swap(f1, f2); flip(f1, f2); h.log += " f"; c.event("flips");
    if (!h.val("flip")) return;
    auto rm = [&](Tri t) { auto it = before.find(t); if (it != before.end()) before.erase(it); };
    rm(norm_tri(A, B, C)); rm(norm_tri(B, A, D)); before.insert(norm_tri(C, D, B)); before.insert(norm_tri(D, C, A));
    c.check(tris(h.l) == before, "flip_result", h.log);
}
static void do_split(Hist &h)
{
    using namespace gbs; Case &c = h.c; auto e = h.redge(); bool opp = bool(e->opposite);
    P2 A = e->previous->vertex->coords, B = e->vertex->coords, C = e->next->vertex->coords, D{}; if (opp) D = e->opposite->next->vertex->coords;
    P2 M{0.5 * (A[0] + B[0]), 0.5 * (A[1] + B[1])};
    auto okt = [](P2 a, P2 b, P2 d) { ld l = std::max({std::hypot(a[0] - b[0], a[1] - b[1]), std::hypot(a[0] - d[0], a[1] - d[1]), std::hypot(b[0] - d[0], b[1] - d[1])}); return area2(a, b, d) > 1e-9 * l * l; };
    if (!okt(A, B, C) || (opp && !okt(B, A, D))) return;
    auto before = tris(h.l); ld ar = area(h.l); size_t nf = h.l.size(), nv = h.v.star.size();
    auto vx = splitHalfEdge(e, h.l); h.log += opp ? " s" : " sb"; c.event(opp ? "splits/inner" : "splits/boundary");
    if (!h.val("split")) return;
    c.check(vx && h.v.star.count(vx) && h.v.star.size() == nv + 1 && h.l.size() == nf + (opp ? 2 : 1), "split_counts", h.log);
    auto m = vx->coords; ld tol = 1e-14 * (std::fabs(A[0]) + std::fabs(A[1]) + std::fabs(B[0]) + std::fabs(B[1])); c.near(m[0], M[0], tol, "split_point"); c.near(m[1], M[1], tol, "split_point");
    auto rm = [&](Tri t) { auto it = before.find(t); if (it != before.end()) before.erase(it); };
    rm(norm_tri(A, B, C)); before.insert(norm_tri(A, m, C)); before.insert(norm_tri(m, B, C));
    if (opp) { rm(norm_tri(B, A, D)); before.insert(norm_tri(B, m, D)); before.insert(norm_tri(m, A, D)); }
    c.check(tris(h.l) == before, "split_result", h.log); c.near(area(h.l), ar, 1e-12 * (ar + h.size * h.size), "split_area", h.log);
}
static void do_add_face(Hist &h)
{
    using namespace gbs; Case &c = h.c; auto bd = getFacesBoundary(h.l); if (bd.empty()) return;
    auto e = *std::next(bd.begin(), h.r().i(0, int(bd.size()) - 1)); P2 A = e->previous->vertex->coords, B = e->vertex->coords;
    double d = h.r().uni(0.05, 0.5), t = h.r().uni(0.2, 0.8); P2 q{A[0] + t * (B[0] - A[0]) + d * (B[1] - A[1]), A[1] + t * (B[1] - A[1]) - d * (B[0] - A[0])};
    for (auto &[k, o] : h.v.he) { auto a = o->previous->vertex->coords, b = o->vertex->coords; if (cross_exact(A, q, a, b) || cross_exact(B, q, a, b) || orient(a, b, q) == 0) return; }
    for (auto &f : h.l) { auto t3 = tri(f); if (orient(t3[0], t3[1], q) >= 0 && orient(t3[1], t3[2], q) >= 0 && orient(t3[2], t3[0], q) >= 0) return; }
    for (auto &[x, s] : h.v.star) { auto p = x->coords; if (p != A && p != B && orient(B, A, p) >= 0 && orient(A, q, p) >= 0 && orient(q, B, p) >= 0) return; }
    auto before = tris(h.l); F nf; auto old = e->face; nf = h.r().coin() ? add_face(e, q) : add_face(old, e, q); h.log += " a";
    if (!c.check(bool(nf), "add_face_refused", h.log)) { h.dead = true; return; }
    h.l.push_back(nf); c.event("faces_added"); if (!h.val("add_face")) return;
    before.insert(norm_tri(B, A, q)); c.check(tris(h.l) == before, "add_face_result", h.log);
    c.check(!add_face(e, q), "add_face_on_shared_edge", h.log); h.val("refused add_face");
}
static void do_add_vertex(Hist &h)
{
    using namespace gbs; Case &c = h.c; auto it = std::next(h.l.begin(), h.r().i(0, int(h.l.size()) - 1)); auto f = *it; auto t = tri(f); P2 p = h.bary(f);
    if (!(orient(t[0], t[1], p) > 0 && orient(t[1], t[2], p) > 0 && orient(t[2], t[0], p) > 0)) return;
    auto before = tris(h.l); before.erase(before.find(t)); for (int k = 0; k < 3; ++k) before.insert(norm_tri(t[k], t[(k + 1) % 3], p));
    auto vx = make_shared_h_vertex(p); auto nw = add_vertex(f, vx); h.l.erase(it); for (auto &x : nw) h.l.push_back(x); h.log += " v"; c.event("vertices_added");
    if (!h.val("add_vertex")) return; c.check(tris(h.l) == before, "add_vertex_result", h.log);
}
static void do_remove(Hist &h)
{
    using namespace gbs; Case &c = h.c; if (h.l.size() < 3) return; auto before = tris(h.l); int k = h.r().i(0, 3);
    if (k == 0)
    {
        auto it = std::next(h.l.begin(), h.r().i(0, int(h.l.size()) - 1)); auto t = tri(*it); auto nx = std::next(it); auto rt = eraseFace(h.l, it); before.erase(before.find(t)); h.log += " e"; c.event("erased/one");
        c.check(rt == nx, "erase_returns_next", h.log);
    }
    else if (k == 1)
    {
        auto x = h.rvtx(); if (h.v.star.at(x).size() >= h.l.size()) return; size_t n = h.v.star.at(x).size();
        for (auto &f : h.v.star.at(x)) before.erase(before.find(tri(f)));
        auto got = remove_faces(h.l, x); h.log += " r"; c.event("erased/around_vertex"); c.check(got == n, "remove_faces_count", h.log + " " + num(got) + "/" + num(n));
    }
    else
    {   // faces whose centroid lies inside / outside a polygon
        P2 o = h.bary(h.rface()); std::vector<P2> poly; int n = h.r().i(3, 7); double rad = h.size * h.r().uni(0.1, 1), ph = h.r().uni(0, 6);
        for (int i = 0; i < n; ++i) { double q = rad * h.r().uni(0.4, 1), a = ph + 6.283185307179586 * i / n; poly.push_back({o[0] + q * std::cos(a), o[1] + q * std::sin(a)}); }
        bool in = k == 2; std::multiset<Tri> want, taken, border;
        for (auto &f : h.l) { auto t = tri(f); P2 g{(t[0][0] + t[1][0] + t[2][0]) / 3, (t[0][1] + t[1][1] + t[2][1]) / 3}; ld dm = 1e300L; for (size_t i = 0; i < poly.size(); ++i) dm = std::min(dm, seg_dist(g, poly[i], poly[(i + 1) % poly.size()])); if (dm < 1e-6 * h.size) return; if (inside_poly(g, poly) == in) want.insert(t); }
        if (want.size() >= h.l.size() || want.empty()) return;
        auto bd = make_HalfEdges(poly); auto got = in ? takeInternalFaces<double>(h.l, bd) : takeExternalFaces<double>(h.l, bd); for (auto &f : got) taken.insert(tri(f));
        h.log += in ? " ti" : " te"; c.event(in ? "erased/internal" : "erased/external"); c.check(taken == want, "taken_faces", h.log + " " + num(taken.size()) + "/" + num(want.size()));
        for (auto &t : want) before.erase(before.find(t));
    }
    if (!h.val("removal")) return; c.check(tris(h.l) == before, "removal_result", h.log);
}
static void do_smooth(Hist &h)
{
    using namespace gbs; Case &c = h.c; auto x = h.rvtx(); if (h.v.bowtie(x)) return; bool open = h.v.open(x); auto p = x->coords; ld ar = area(h.l);
    std::map<V, P2> pos; for (auto &[y, s] : h.v.star) pos[y] = y->coords;
    laplacian_smoothing(h.l, *x); h.log += " l"; c.event(open ? "smooth/boundary" : "smooth/inner");
    for (auto &[y, q] : pos) if (y != x) c.check(y->coords == q, "smoothing_moves_others", h.log);
    if (open) c.check(x->coords == p, "smoothing_moves_boundary", h.log);
    if (!h.val("smoothing")) return; c.near(area(h.l), ar, 1e-12 * (ar + h.size * h.size), "smoothing_area", h.log); if (x->coords != p) c.event("smooth/moved");
}

FAMILY("history", 1500, 60000)
{
    Hist h{c}; start(h); if (!h.val("start")) return;
    int n = c.rng.i(8, 45), mode = c.rng.i(0, 4);
    for (int i = 0; i < n && !h.dead && !h.l.empty(); ++i)
    {
        int k = c.rng.i(0, 19); size_t nf = h.l.size();
        if (nf > 60) k = 13 + c.rng.i(0, 6);
        if (mode == 0 && k > 9) k -= 10; // growth only
        if (k < 7) insert(h); else if (k < 10) do_flip(h); else if (k < 13) do_split(h); else if (k < 14) do_add_face(h); else if (k < 15) do_add_vertex(h); else if (k < 17) do_remove(h); else do_smooth(h);
        if (!h.dead && !h.l.empty() && (c.rng.coin(0.3) || i + 1 == n)) queries(h);
    }
    if (!h.dead && h.l.size() <= 40) { bool overl = false; (void)overl; no_overlap(c, h.l, h.log); c.event("overlap_checked"); }
    c.describe(h.log); uint64_t hs = hash_str(h.log); for (auto &f : h.l) for (auto &p : tri(f)) hs = mix(hs ^ hb(p[0]) ^ mix(hb(p[1]))); c.nontrivial(hs);
}
// refinement driven by a user criterion: keeps the domain, keeps the mesh valid, ends under the criterion or at the limit
struct Crit
{
    P2 o; double k = 1; int kind = 0;
    std::pair<double, P2> operator()(const F &f) const
    {
        auto t = tri(f); P2 g{(t[0][0] + t[1][0] + t[2][0]) / 3, (t[0][1] + t[1][1] + t[2][1]) / 3}; ld a = area2(t[0], t[1], t[2]) / 2; double d = std::hypot(g[0] - o[0], g[1] - o[1]);
        return {double(kind == 0 ? a : a * (1 + k * std::exp(-d))), g};
    }
};
FAMILY("refine", 250, 6000)
{
    using namespace gbs; Rng &r = c.rng; double s = std::pow(10., r.i(-1, 1)); std::vector<P2> poly; L l; ld A;
    if (r.coin()) { int n = r.i(3, 14); for (int i = 0; i < n; ++i) { double a = 6.283185307179586 * (i + r.uni(-0.2, 0.2)) / n, q = s * (r.coin(0.5) ? 1. : 1.); poly.push_back({q * std::cos(a), q * std::sin(a)}); } l = delaunay2DConstrained<double>(poly); A = poly_area(poly); }
    else { poly = {{0, 0}, {s * r.uni(0.5, 2), s * r.uni(0.5, 2)}}; l = getEncompassingMesh(poly, 0.); A = area(l); }
    View v; if (!validate(c, l, "start", v)) return; c.near(area(l), A, 1e-10 * A, "start_area");
    Crit cr; cr.o = {r.uni(-s, s), r.uni(-s, s)}; cr.k = r.uni(0, 5); cr.kind = r.i(0, 1); size_t nmax = size_t(r.i(1, 60)); double crit = double(A) / r.uni(3, 120); size_t nv0 = v.star.size(); std::set<P2> bnd; for (auto &[x, q] : v.star) if (v.open(x)) bnd.insert(x->coords);
    std::string w = "refine " + num(A) + " crit " + num(crit) + " max " + num(nmax); c.describe(w + vh::str(std::vector<double>{cr.o[0], cr.o[1], cr.k}) + num(poly.size()));
    auto out = delaunay2DBoyerWatsonMeshRefine<double, 2>(l, crit, cr, nmax);
    if (!validate(c, out, w, v)) return;
    c.near(area(out), A, 1e-10 * A, "refine_area", w); c.check(v.star.size() <= nv0 + nmax, "refine_count", w);
    std::set<P2> b2; for (auto &[x, q] : v.star) if (v.open(x)) b2.insert(x->coords); c.check(b2 == bnd, "refine_boundary", w);
    if (out.size() <= 90) no_overlap(c, out, w);
    double worst = 0; for (auto &f : out) worst = std::max(worst, cr(f).first);
    if (v.star.size() < nv0 + nmax) { c.check(worst <= crit * (1 + 1e-9), "refine_criterion", w + " worst " + num(worst)); c.event("refine/converged"); } else c.event("refine/limited");
    for (auto &[k, e] : v.he) if (e->opposite) { auto t = tri(e->face); ld m; ld x = incircle_val(t[0], t[1], t[2], e->opposite->next->vertex->coords, m); c.check(x <= 1e-10L + 1e-12L * m, // the library's absolute tolerance
                "refine_delaunay", w); c.event("refine/delaunay_edges"); }
    c.nontrivial(hb(worst) ^ v.star.size() ^ hb(double(A)));
}
int main(int a, char **b) { return run(a, b); }
