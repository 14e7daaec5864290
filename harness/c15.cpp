// C15: what is written to JSON text and read back is the same geometry; malformed documents are rejected with an error.
#include "gen.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs-io/tojson.h>
#include <gbs-io/fromjson.h>
#include <gbs-io/fromjson2.h>
#include <gbs-io/fromtext.h>
#include <fstream>
using namespace vh;
using namespace gbs;
using Doc = rapidjson::Document;
using Val = rapidjson::Value;

static std::string text(const Val &v) { rapidjson::StringBuffer b; rapidjson::Writer<rapidjson::StringBuffer> w(b); bool ok = v.Accept(w); return ok && w.IsComplete() ? b.GetString() : std::string("!incomplete ") + b.GetString(); }
template <class O> static std::string written(const O &o) { Doc d; auto v = make_json(o, d.GetAllocator()); return text(v); }
static std::string scratch() { static std::string s = [] { const char *t = std::getenv("VERIF_WORK"); std::string d = std::string(t ? t : "/tmp") + "/c15_" + std::to_string(getpid()); return d; }(); return s; }
// the default JSON parser is exact within a few units in the last place
template <class T> static ld ulps(ld x, int n) { return n * ld(std::numeric_limits<T>::epsilon()) * std::fabs(x) + ld(std::numeric_limits<T>::denorm_min()) * 4; }
template <class T, class V> static bool close_vec(Case &c, const V &a, const V &b, int n, const std::string &key)
{
    if (!c.check(a.size() == b.size(), key, "sizes " + num(a.size()) + " " + num(b.size()))) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!c.near(a[i], b[i], ulps<T>(b[i], n), key, "[" + num(i) + "]")) return false;
    return true;
}
template <class T, class V> static void close_pts(Case &c, const V &a, const V &b, int n, const std::string &key)
{
    if (!c.check(a.size() == b.size(), key, "sizes " + num(a.size()) + " " + num(b.size()))) return;
    for (size_t i = 0; i < a.size(); ++i) for (size_t k = 0; k < a[i].size(); ++k) if (!c.near(a[i][k], b[i][k], ulps<T>(b[i][k], n), key, "[" + num(i) + "][" + num(k) + "]")) return;
}
template <class T, size_t dim> static auto scaled(Rng &r, std::vector<std::array<T, dim>> P)
{
    T s = 1; int k = r.i(0, 9); if (k == 0) s = T(std::is_same_v<T, float> ? 1e30 : 1e290); else if (k == 1) s = T(std::is_same_v<T, float> ? 1e-30 : 1e-290); else if (k == 2) s = T(1e-9);
    for (auto &p : P) for (auto &x : p) { x *= s; if (r.coin(0.1)) x = r.coin() ? T(0) : T(-0.); else if (r.coin(0.05)) x = T(r.i(-9, 9)); }
    return P;
}
template <class T, size_t dim> static BSCurve<T, dim> rnd_curve(Rng &r) { size_t p = r.i(1, 6); auto k = gen::knots<T>(r, p, r.i(1, 6)); return BSCurve<T, dim>(scaled(r, gen::points<T, dim>(r, k.size() - p - 1)), k, p); }
template <class T, size_t dim> static BSCurveRational<T, dim> rnd_rcurve(Rng &r) { size_t p = r.i(1, 6); auto k = gen::knots<T>(r, p, r.i(1, 6)); auto n = k.size() - p - 1; return BSCurveRational<T, dim>(scaled(r, gen::points<T, dim>(r, n)), k, gen::weights<T>(r, n), p); }
template <class T, size_t dim> static BSSurface<T, dim> rnd_surf(Rng &r) { size_t p = r.i(1, 4), q = r.i(1, 4); auto ku = gen::knots<T>(r, p, r.i(1, 4)), kv = gen::knots<T>(r, q, r.i(1, 4)); return BSSurface<T, dim>(scaled(r, gen::points<T, dim>(r, (ku.size() - p - 1) * (kv.size() - q - 1))), ku, kv, p, q); }
template <class T, size_t dim> static BSSurfaceRational<T, dim> rnd_rsurf(Rng &r)
{
    size_t p = r.i(1, 4), q = r.i(1, 4); auto ku = gen::knots<T>(r, p, r.i(1, 4)), kv = gen::knots<T>(r, q, r.i(1, 4)); auto n = (ku.size() - p - 1) * (kv.size() - q - 1);
    auto P = scaled(r, gen::points<T, dim>(r, n)); return BSSurfaceRational<T, dim>(add_weights_coord(P, gen::weights<T>(r, n)), ku, kv, p, q);
}
// values and derivatives of what was read against what was written
template <class T, size_t dim> static void same_values(Case &c, const Curve<T, dim> &a, const Curve<T, dim> &b, const std::string &key, ld tol = 1e-12L)
{
    auto [u1, u2] = a.bounds(); auto bb = b.bounds();
    c.near(bb[0], u1, ulps<T>(u1, 4), key + "_bounds"); c.near(bb[1], u2, ulps<T>(u2, 4), key + "_bounds");
    for (int i = 0; i <= 8; ++i)
    {
        T u = i == 8 ? std::min(u2, bb[1]) : i == 0 ? std::max(u1, bb[0]) : T(u1 + (u2 - u1) * c.rng.uni(0.001, 0.999));
        std::array<T, dim> x = a.value(u), y = b.value(u); ld m = 0; for (int j = 0; j <= 4; ++j) for (auto z : a.value(std::min(u2, T(u1 + (u2 - u1) * j / 4)))) m = std::max(m, std::fabs(ld(z)));
        for (auto z : x) m = std::max(m, std::fabs(ld(z)));
        if (!c.near_pt(y, x, tol * (m + (m < 1e-200L ? 1e-300L : 0)) * (std::is_same_v<T, float> ? 1e8L : 1), key + "_value", "u=" + num(u))) return;
    }
}
template <class T, size_t dim> static void same_curve(Case &c, const Curve<T, dim> *back, const BSCurve<T, dim> &o, const std::string &key)
{
    auto b = dynamic_cast<const BSCurve<T, dim> *>(back); if (!c.check(b != nullptr, key + "_kind")) return;
    c.check(b->degree() == o.degree(), key + "_degree"); close_vec<T>(c, b->knotsFlats(), o.knotsFlats(), 4, key + "_knots"); close_pts<T>(c, b->poles(), o.poles(), 4, key + "_poles");
}
template <class T, size_t dim> static void same_curve(Case &c, const Curve<T, dim> *back, const BSCurveRational<T, dim> &o, const std::string &key)
{
    auto b = dynamic_cast<const BSCurveRational<T, dim> *>(back); if (!c.check(b != nullptr, key + "_kind")) return;
    c.check(b->degree() == o.degree(), key + "_degree"); close_vec<T>(c, b->knotsFlats(), o.knotsFlats(), 4, key + "_knots"); close_pts<T>(c, b->poles(), o.poles(), 12, key + "_poles");
}
template <class T, size_t dim, class S> static void same_surf(Case &c, const Surface<T, dim> *back, const S &o, const std::string &key, int n)
{
    auto b = dynamic_cast<const S *>(back); if (!c.check(b != nullptr, key + "_kind")) return;
    c.check(b->degreeU() == o.degreeU() && b->degreeV() == o.degreeV(), key + "_degree"); close_vec<T>(c, b->knotsFlatsU(), o.knotsFlatsU(), 4, key + "_knotsU"); close_vec<T>(c, b->knotsFlatsV(), o.knotsFlatsV(), 4, key + "_knotsV"); close_pts<T>(c, b->poles(), o.poles(), n, key + "_poles");
    auto x = b->bounds(), y = o.bounds(); for (int i = 0; i < 4; ++i) c.near(x[i], y[i], ulps<T>(y[i], 4), key + "_bounds");
}
static bool parse(Case &c, Doc &d, const std::string &s) { d.Parse(s.c_str()); return c.check(!d.HasParseError(), "text_is_json", s.substr(0, 200)); }
// a document writes the fields it announces
template <class T> static void fields(Case &c, const Val &v, entity_type t, size_t dim) { c.check(v.IsObject() && v.HasMember("type") && v["type"].IsInt() && v["type"].GetInt() == int(t), "written_type"); c.check(v.IsObject() && v.HasMember("dim") && v["dim"].IsUint() && v["dim"].GetUint() == dim, "written_dim"); }

template <class T, size_t dim> static void curve_case(Case &c)
{
    auto &r = c.rng; Doc d; std::string s;
    if (r.coin())
    {
        auto o = rnd_curve<T, dim>(r); c.describe("curve dim " + num(dim) + " " + gen::cdesc(o)); c.nontrivial(gen::chash(o)); c.event(std::is_same_v<T, float> ? "curve/float" : "curve/double");
        switch (r.i(0, 2)) { case 0: s = written(o); break; case 1: { std::shared_ptr<Curve<T, dim>> p = std::make_shared<BSCurve<T, dim>>(o); s = written(p); break; } default: { auto p = std::make_shared<BSCurve<T, dim>>(o); const Curve<T, dim> *q = p.get(); Doc e; s = text(make_json(q, e.GetAllocator())); } }
        if (!parse(c, d, s)) return; fields<T>(c, d, entity_type::BSCurve, dim);
        auto b = make_curve<T, dim>(d); same_curve(c, b.get(), o, "curve"); same_values<T, dim>(c, o, *b, "curve");
        auto x = make_bscurve<T, dim>(d), y = bscurve_direct<T, dim>(d), z = bscurve_direct_mults<T, dim>(d); same_curve<T, dim>(c, &x, o, "make_bscurve"); same_curve<T, dim>(c, &y, o, "direct"); same_curve<T, dim>(c, &z, o, "direct_mults");
        auto s2 = written(o); Doc e; e.Parse(s2.c_str()); c.check(written(o) == s2, "deterministic"); c.event("readers/polynomial");
    }
    else
    {
        auto o = rnd_rcurve<T, dim>(r); c.describe("rational curve dim " + num(dim) + " " + gen::cdesc(o)); c.nontrivial(gen::chash(o)); c.event(std::is_same_v<T, float> ? "rational/float" : "rational/double");
        if (r.coin()) s = written(o); else { std::shared_ptr<Curve<T, dim>> p = std::make_shared<BSCurveRational<T, dim>>(o); s = written(p); }
        if (!parse(c, d, s)) return; fields<T>(c, d, entity_type::BSCurveRational, dim);
        auto b = make_curve<T, dim>(d); same_curve(c, b.get(), o, "rational"); same_values<T, dim>(c, o, *b, "rational");
        c.check(throws([&] { make_bscurve<T, dim>(d); }), "rational_is_not_bscurve"); c.check(throws([&] { bscurve_direct<T, dim>(d); }), "rational_is_not_direct"); c.check(throws([&] { bscurve_direct_mults<T, dim>(d); }), "rational_is_not_direct_mults");
    }
    c.check(throws([&] { make_curve<T, dim == 3 ? 2 : 3>(d); }), "wrong_dimension_rejected"); c.check(throws([&] { make_surface<T, 3>(d); }), "curve_is_not_surface"); c.check(throws([&] { make_surface<T>(d); }), "curve_is_not_surface3");
    c.event("curve/wrong_dimension");
}
FAMILY("curves", 500, 20000) { switch (c.rng.i(0, 4)) { case 0: curve_case<double, 1>(c); break; case 1: curve_case<double, 2>(c); break; case 2: curve_case<float, 3>(c); break; case 3: curve_case<float, 2>(c); break; default: curve_case<double, 3>(c); } }

template <class T, size_t dim> static void surf_case(Case &c)
{
    auto &r = c.rng; Doc d; std::string s; std::shared_ptr<Surface<T, dim>> b;
    auto samples = [&](const Surface<T, dim> &o, const Surface<T, dim> &b) {
        auto q = o.bounds(), w = b.bounds();
        for (int i = 0; i < 6; ++i) { T u = i == 0 ? std::max(q[0], w[0]) : i == 1 ? std::min(q[1], w[1]) : T(q[0] + (q[1] - q[0]) * r.uni(0.001, 0.999)), v = i == 0 ? std::min(q[3], w[3]) : T(q[2] + (q[3] - q[2]) * r.uni(0.001, 0.999)); ld m = 0; for (int j = 0; j <= 9; ++j) for (auto z : o.value(std::min(q[1], T(q[0] + (q[1] - q[0]) * (j % 4) / 3)), std::min(q[3], T(q[2] + (q[3] - q[2]) * (j / 4) / 2)))) m = std::max(m, std::fabs(ld(z))); auto x = o.value(u, v); for (auto z : x) m = std::max(m, std::fabs(ld(z))); c.near_pt(b.value(u, v), x, 1e-12L * (m + (m < 1e-200L ? 1e-300L : 0)) * (std::is_same_v<T, float> ? 1e8L : 1), "surface_value"); } };
    if (r.coin())
    {
        auto o = rnd_surf<T, dim>(r); c.describe("surface dim " + num(dim) + " " + gen::sdesc(o)); c.nontrivial(gen::shash(o)); c.event(std::is_same_v<T, float> ? "surface/float" : "surface/double");
        if (r.coin()) s = written(o); else { std::shared_ptr<Surface<T, dim>> p = std::make_shared<BSSurface<T, dim>>(o); s = written(p); }
        if (!parse(c, d, s)) return; fields<T>(c, d, entity_type::BSSurface, dim);
        b = make_surface<T, dim>(d); same_surf<T, dim>(c, b.get(), o, "surface", 4); samples(o, *b);
        auto x = make_bssurface<T, dim>(d), y = bssurface_direct<T, dim>(d); same_surf<T, dim>(c, &x, o, "make_bssurface", 4); same_surf<T, dim>(c, &y, o, "direct", 4);
    }
    else
    {
        auto o = rnd_rsurf<T, dim>(r); c.describe("rational surface dim " + num(dim) + " " + gen::sdesc(o)); c.nontrivial(gen::shash(o)); c.event(std::is_same_v<T, float> ? "rsurface/float" : "rsurface/double");
        if (r.coin()) s = written(o); else { std::shared_ptr<Surface<T, dim>> p = std::make_shared<BSSurfaceRational<T, dim>>(o); s = written(p); }
        if (!parse(c, d, s)) return; fields<T>(c, d, entity_type::BSSurfaceRational, dim);
        b = make_surface<T, dim>(d); same_surf<T, dim>(c, b.get(), o, "rsurface", 12); samples(o, *b);
        c.check(throws([&] { make_bssurface<T, dim>(d); }), "rational_is_not_bssurface"); c.check(throws([&] { bssurface_direct<T, dim>(d); }), "rational_is_not_direct");
    }
    if constexpr (dim == 3) { auto b3 = make_surface<T>(d); samples(*b, *b3); c.event("surface/generic"); }
    c.check(throws([&] { make_surface<T, dim == 3 ? 2 : 3>(d); }), "wrong_dimension_rejected"); c.check(throws([&] { make_curve<T, dim>(d); }), "surface_is_not_curve");
}
FAMILY("surfaces", 300, 12000) { switch (c.rng.i(0, 4)) { case 0: surf_case<double, 1>(c); break; case 1: surf_case<double, 2>(c); break; case 2: surf_case<float, 3>(c); break; default: surf_case<double, 3>(c); } }

// profile in the half plane
static std::shared_ptr<Curve<double, 2>> profile(Rng &r, std::string &what, int depth = 0);
static SurfaceOfRevolution<double> rnd_rev(Rng &r, std::string &what, int depth = 0)
{
    std::array<double, 3> o{r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3)}, z{r.uni(-1, 1), r.uni(-1, 1), r.uni(0.2, 1)}, x{r.uni(0.2, 1), r.uni(-1, 1), r.uni(-1, 1)};
    z = z / norm(z); x = x - (x * z) * z; x = x / norm(x); double a = r.coin() ? 0 : r.uni(-3, 3);
    return SurfaceOfRevolution<double>(profile(r, what, depth), ax2<double, 3>{o, z, x}, a, a + (r.coin(0.3) ? 2 * M_PI : r.uni(0.2, 6)));
}
static std::shared_ptr<Surface<double, 3>> rnd_surface3(Rng &r, std::string &what, int depth = 0)
{
    switch (r.i(0, 2)) { case 0: what += " surface"; return std::make_shared<BSSurface<double, 3>>(gen::surf<double, 3>(r, r.i(1, 3), r.i(1, 3), r.i(1, 3), r.i(1, 3))); case 1: what += " rsurface"; return std::make_shared<BSSurfaceRational<double, 3>>(gen::rsurf<double, 3>(r, r.i(1, 3), r.i(1, 3), r.i(1, 3), r.i(1, 3)));
        default: what += " revolution"; return std::make_shared<SurfaceOfRevolution<double>>(rnd_rev(r, what, depth + 1)); }
}
// a 2D curve that stays inside of the bounds b
template <class B> static std::shared_ptr<Curve<double, 2>> inner2(Rng &r, const B &b, std::string &what)
{
    auto k = gen::knots<double>(r, 3, r.i(1, 4)); std::vector<std::array<double, 2>> P(k.size() - 4); for (auto &q : P) q = {b[0] + (b[1] - b[0]) * r.uni(0.05, 0.95), b[2] + (b[3] - b[2]) * r.uni(0.05, 0.95)};
    if (r.coin()) { what += " curve2d"; return std::make_shared<BSCurve<double, 2>>(P, k, 3); } what += " rcurve2d"; return std::make_shared<BSCurveRational<double, 2>>(P, k, gen::weights<double>(r, P.size()), 3);
}
static std::shared_ptr<Curve<double, 2>> profile(Rng &r, std::string &what, int depth)
{
    auto k = r.i(0, depth > 1 ? 1 : 2); if (k < 2) { std::array<double, 4> b{0.5, 2, -1, 3}; return inner2(r, b, what); }
    what += " curveonsurface2d"; auto s = std::make_shared<BSSurface<double, 2>>(gen::surf<double, 2>(r, 2, 2, 2, 2)); return std::make_shared<CurveOnSurface<double, 2>>(inner2(r, s->bounds(), what), s);
}
FAMILY("revolution", 150, 6000)
{
    auto &r = c.rng; std::string what; auto o = rnd_rev(r, what); c.describe("revolution of" + what + " bounds " + str(o.bounds())); c.nontrivial(hvec(o.bounds()) ^ hash_str(what)); Doc d; std::string s;
    if (r.coin()) s = written(o); else { std::shared_ptr<Surface<double, 3>> p = std::make_shared<SurfaceOfRevolution<double>>(o); s = written(p); }
    if (!parse(c, d, s)) return;
    auto b = r.coin() ? make_surface<double>(d) : make_surface<double, 3>(d); c.check(dynamic_cast<SurfaceOfRevolution<double> *>(b.get()), "revolution_kind");
    auto x = o.bounds(), y = b->bounds(); for (int i = 0; i < 4; ++i) c.near(y[i], x[i], ulps<double>(x[i], 4), "revolution_bounds");
    for (int i = 0; i < 8; ++i) { double u = std::clamp(r.uni(x[0], x[1]), std::max(x[0], y[0]), std::min(x[1], y[1])), v = std::clamp(r.uni(x[2], x[3]), std::max(x[2], y[2]), std::min(x[3], y[3])); int du = r.i(0, 1), dv = r.i(0, 2); c.near_pt(b->value(u, v, du, dv), o.value(u, v, du, dv), 1e-10L * (10 + norm(o.value(u, v, du, dv))), "revolution_value"); c.event("revolution/values"); }
    auto ax = dynamic_cast<SurfaceOfRevolution<double> *>(b.get()); if (ax) { auto A = ax->axis2(), B = o.axis2(); for (int i = 0; i < 3; ++i) c.near_pt(A[i], B[i], 1e-14L * 5, "revolution_axis"); }
    c.check(throws([&] { make_surface<double, 2>(d); }), "revolution_is_3d"); c.check(throws([&] { make_bssurface<double, 3>(d); }), "revolution_is_not_bssurface"); c.check(throws([&] { make_curve<double, 3>(d); }), "revolution_is_not_curve");
}
FAMILY("curve_on_surface", 250, 10000)
{
    auto &r = c.rng; std::string what; Doc d; std::string s;
    if (r.coin(0.8))
    {
        auto sf = rnd_surface3(r, what); auto o = std::make_shared<CurveOnSurface<double, 3>>(inner2(r, sf->bounds(), what), sf); c.describe("curve on" + what); c.nontrivial(hvec(o->value(o->bounds()[0])) ^ hvec(o->bounds()));
        if (r.coin()) s = written(*o); else { std::shared_ptr<Curve<double, 3>> p = o; s = written(p); }
        if (!parse(c, d, s)) return; fields<double>(c, d, entity_type::CurveOnSurface, 3); c.event(what.find("revolution") != std::string::npos ? "nested/on_revolution" : "nested/on_surface");
        auto b = make_curve<double, 3>(d); auto q = dynamic_cast<CurveOnSurface<double, 3> *>(b.get()); if (!c.check(q, "nested_kind")) return;
        same_values<double, 3>(c, *o, *b, "nested", 1e-9L); c.check(typeid(q->basisSurface()) == typeid(o->basisSurface()), "nested_surface_kind"); c.check(typeid(q->basisCurve()) == typeid(o->basisCurve()), "nested_curve_kind");
        auto bad = r.coin() ? "surface" : "curve2d"; d.RemoveMember(bad); c.check(throws([&] { make_curve<double, 3>(d); }), "nested_missing_part", bad);
    }
    else
    {
        auto sf = std::make_shared<BSSurface<double, 2>>(gen::surf<double, 2>(r, 2, 2, 2, 2)); std::shared_ptr<Curve<double, 2>> in = inner2(r, sf->bounds(), what); auto o = std::make_shared<CurveOnSurface<double, 2>>(in, sf); c.describe("plane curve on" + what); c.nontrivial(hvec(o->value(o->bounds()[0])) ^ 7);
        std::shared_ptr<Curve<double, 2>> p = o; s = written(p); if (!parse(c, d, s)) return; c.event("nested/plane"); auto b = make_curve<double, 2>(d); same_values<double, 2>(c, *o, *b, "nested_plane", 1e-9L);
    }
}
// entities without a reader: the document must still hold the whole entity, and the reader must refuse it
static void whole(Case &c, const Val &v, const std::string &path)
{
    c.check(!v.IsNull(), "written_null", path);
    if (v.IsObject()) for (auto &m : v.GetObject()) whole(c, m.value, path + "/" + m.name.GetString()); else if (v.IsArray()) for (auto &x : v.GetArray()) whole(c, x, path + "[]");
}
template <size_t dim> static void derived_case(Case &c)
{
    auto &r = c.rng; Doc d; std::shared_ptr<Curve<double, dim>> base; std::string kind, what;
    auto rnd_base = [&]() -> std::shared_ptr<Curve<double, dim>> {
        switch (r.i(0, 3)) { case 0: return std::make_shared<BSCurve<double, dim>>(gen::curve<double, dim>(r, r.i(1, 4), r.i(1, 4))); case 1: return std::make_shared<BSCurveRational<double, dim>>(gen::rcurve<double, dim>(r, r.i(1, 4), r.i(1, 4)));
        case 2: if constexpr (dim == 3) { auto sf = rnd_surface3(r, what); return std::make_shared<CurveOnSurface<double, 3>>(inner2(r, sf->bounds(), what), sf); } else { auto b = gen::curve<double, 2>(r, 3, 3); auto f = gen::curve<double, 1>(r, 2, 2); f.changeBounds(b.bounds()[0], b.bounds()[1]); what += " offset"; c.event("derived/inner_offset"); return std::make_shared<CurveOffset2D<double, BSCfunction<double>>>(b, BSCfunction<double>(f)); }
        default: if constexpr (dim == 3) { auto b = gen::curve<double, 3>(r, 3, 3); auto f = gen::curve<double, 1>(r, 2, 2); f.changeBounds(b.bounds()[0], b.bounds()[1]); what += " offset"; c.event("derived/inner_offset"); return std::make_shared<CurveOffset3D<double, BSCfunction<double>>>(std::make_shared<BSCurve<double, 3>>(b), BSCfunction<double>(f), std::array<double, 3>{0., 0., 1.}); } else { auto sf = std::make_shared<BSSurface<double, 2>>(gen::surf<double, 2>(r, 2, 2, 2, 2)); return std::make_shared<CurveOnSurface<double, 2>>(inner2(r, sf->bounds(), what), sf); } } };
    int k = r.i(0, 1);
    if (k == 0)
    {
        auto b = rnd_base(); auto [u1, u2] = b->bounds(); double a = u1 + (u2 - u1) * r.uni(0, 0.4), e = u1 + (u2 - u1) * r.uni(0.5, 1); std::shared_ptr<Curve<double, dim>> o = std::make_shared<CurveTrimmed<double, dim>>(b, a, e); kind = "trimmed";
        auto s = written(o); if (!parse(c, d, s)) return; fields<double>(c, d, entity_type::CurveTrimmed, dim); c.near(d["u1"].GetDouble(), a, ulps<double>(a, 4), "trimmed_bounds"); c.near(d["u2"].GetDouble(), e, ulps<double>(e, 4), "trimmed_bounds");
        if (d["curve"].IsObject() && d["curve"].HasMember("type") && d["curve"]["type"].GetInt() != int(entity_type::Curve2dOffset)) { auto x = make_curve<double, dim>(d["curve"]); same_values<double, dim>(c, *b, *x, "trimmed_basis", 1e-9L); }
    }
    else
    {
        std::vector<std::shared_ptr<Curve<double, dim>>> L; for (int i = r.i(1, 4); i > 0; --i) L.push_back(rnd_base()); kind = "composite"; std::shared_ptr<Curve<double, dim>> o;
        try { o = std::make_shared<CurveComposite<double, dim>>(L); } catch (std::exception &) { c.event("derived/refused"); return; }
        auto s = written(o); if (!parse(c, d, s)) return; fields<double>(c, d, entity_type::CurveComposite, dim); auto &n = static_cast<const CurveComposite<double, dim> &>(*o).curves(); if (!c.check(d["curves"].Size() == n.size(), "composite_count")) return;
        for (size_t i = 0; i < n.size(); ++i) { auto &v = d["curves"][i]; if (v.IsObject() && v["type"].GetInt() != int(entity_type::Curve2dOffset)) { auto x = make_curve<double, dim>(v); same_values<double, dim>(c, *n[i], *x, "composite_part", 1e-9L); } }
    }
    c.describe(kind + " dim " + num(dim) + what); c.nontrivial(hash_str(text(d))); c.event("derived/" + kind); whole(c, d, ""); c.check(throws([&] { make_curve<double, dim>(d); }), "unsupported_rejected");
}
FAMILY("derived", 200, 8000)
{
    auto &r = c.rng; int k = r.i(0, 4);
    if (k < 2) derived_case<2>(c); else if (k < 4) derived_case<3>(c); else
    {
        auto b = gen::curve<double, 2>(r, r.i(1, 4), r.i(1, 4)); auto f = gen::curve<double, 1>(r, r.i(1, 3), r.i(1, 3)); f.changeBounds(b.bounds()[0], b.bounds()[1]); CurveOffset2D<double, BSCfunction<double>> o(b, BSCfunction<double>(f)); c.describe("offset of " + gen::cdesc(b)); c.nontrivial(gen::chash(b) ^ gen::chash(f));
        Doc d; std::string s; if (r.coin()) s = written(o); else { std::shared_ptr<Curve<double, 2>> p = std::make_shared<CurveOffset2D<double, BSCfunction<double>>>(o); s = written(p); } if (!parse(c, d, s)) return; fields<double>(c, d, entity_type::Curve2dOffset, 2); whole(c, d, ""); c.event("derived/offset");
        auto x = make_curve<double, 2>(d["curve"]); same_curve(c, x.get(), b, "offset_basis"); c.check(d["function"]["type"].GetInt() == int(entity_type::BSCfunction), "function_type"); auto y = make_curve<double, 1>(d["function"]["curve"]); same_curve(c, y.get(), f, "offset_function"); c.check(throws([&] { make_curve<double, 2>(d); }), "unsupported_rejected");
    }
}
// collections through a file
FAMILY("files", 40, 800)
{
    auto &r = c.rng; Doc d; d.SetObject(); auto &al = d.GetAllocator(); std::vector<BSCurve<double, 2>> A; std::vector<BSSurface<double, 3>> B; Val cv(rapidjson::kArrayType), sv(rapidjson::kArrayType); std::string ids;
    for (int i = r.i(0, 6); i > 0; --i) { A.push_back(rnd_curve<double, 2>(r)); cv.PushBack(make_json(A.back(), al), al); } for (int i = r.i(0, 4); i > 0; --i) { B.push_back(rnd_surf<double, 3>(r)); sv.PushBack(make_json(B.back(), al), al); }
    d.AddMember("curves", cv, al); d.AddMember("surfaces", sv, al); c.describe(num(A.size()) + " curves " + num(B.size()) + " surfaces"); c.nontrivial(hash_str(text(d)));
    auto fn = scratch() + ".json"; write_js_doc(d, fn.c_str()); Doc e; parse_file(fn.c_str(), e); c.check(!e.HasParseError() && e.IsObject(), "file_parsed");
    if (e.IsObject() && c.check(e["curves"].Size() == A.size() && e["surfaces"].Size() == B.size(), "file_counts")) { for (size_t i = 0; i < A.size(); ++i) { auto x = make_curve<double, 2>(e["curves"][i]); same_curve(c, x.get(), A[i], "file_curve"); c.event("files/curves"); } for (size_t i = 0; i < B.size(); ++i) { auto x = make_surface<double, 3>(e["surfaces"][i]); same_surf<double, 3>(c, x.get(), B[i], "file_surface", 4); c.event("files/surfaces"); } }
    // a truncated file, as left by an interrupted writer, gives no geometry
    auto s = text(d); size_t cut = r.i(0, int(s.size()) - 1); { std::ofstream f(fn); f << s.substr(0, cut); } Doc t; parse_file(fn.c_str(), t); c.check(t.HasParseError(), "truncated_file"); c.check(throws([&] { make_curve<double, 2>(t); }) && throws([&] { make_surface<double, 3>(t); }) && throws([&] { make_bscurve<double, 2>(t); }) && throws([&] { make_bssurface<double, 3>(t); }), "truncated_rejected"); c.event("files/truncated");
    std::remove(fn.c_str()); c.check(throws([&] { Doc z; parse_file(fn.c_str(), z); }), "missing_file_rejected");
}
// legacy documents: direct and interpolation
static std::string arr(const std::vector<double> &v) { std::ostringstream o; o.precision(17); o << "["; for (size_t i = 0; i < v.size(); ++i) { std::ostringstream t; t.precision(17); t << v[i]; auto s = t.str(); if (s.find_first_of(".en") == std::string::npos) s += ".0"; o << (i ? "," : "") << s; } o << "]"; return o.str(); }
template <size_t dim> static std::string parr(const std::vector<std::array<double, dim>> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + arr({v[i].begin(), v[i].end()}); return s + "]"; }
FAMILY("documents", 250, 10000)
{
    auto &r = c.rng; Doc d; int k = r.i(0, 4);
    if (k == 0) { auto o = gen::curve<double, 3>(r, r.i(1, 5), r.i(1, 5)); c.describe("bscurve " + gen::cdesc(o)); c.nontrivial(gen::chash(o)); if (!parse(c, d, "{\"type\":\"bscurve\",\"deg\":" + num(o.degree()) + ",\"knots\":" + arr(o.knotsFlats()) + ",\"poles\":" + parr(o.poles()) + "}")) return; auto x = make_bscurve<double, 3>(d); same_curve<double, 3>(c, &x, o, "bscurve"); c.event("documents/bscurve"); return; }
    int n = r.i(4, 9); auto Q = gen::points<double, 2>(r, n, 1.); std::vector<double> u{r.coin() ? 0. : r.uni(-1, 1)}; for (int i = 1; i < n; ++i) u.push_back(u.back() + r.uni(0.2, 1)); size_t p = r.i(1, 3); const char *modes[] = {"EQUALLY_SPACED", "CHORD_LENGTH", "CENTRIPETAL"}; int m = r.i(0, 2); auto mode = m == 0 ? KnotsCalcMode::EQUALLY_SPACED : m == 1 ? KnotsCalcMode::CHORD_LENGTH : KnotsCalcMode::CENTRIPETAL;
    c.nontrivial(hvec(u)); c.describe("interpolation document " + num(k) + " n " + num(n) + " p " + num(p)); auto at = [&](const BSCurve<double, 2> &x, const std::vector<double> &w, const char *key) { for (int i = 0; i < n; ++i) c.near_pt(x.value(w[i]), Q[i], 1e-8L, key, num(i)); };
    if (k == 1) { if (!parse(c, d, "{\"type\":\"bscurve_interp_cn\",\"deg\":" + num(p) + ",\"params\":" + arr(u) + ",\"points\":" + parr(Q) + "}")) return; auto x = make_bscurve<double, 2>(d); at(x, u, "interp_params"); c.check(x.degree() == p, "interp_degree"); c.event("documents/interp_params"); }
    else if (k == 2) { bool def = r.coin(0.3); if (def) mode = KnotsCalcMode::CHORD_LENGTH; if (!parse(c, d, "{\"type\":\"bscurve_interp_cn\",\"deg\":" + num(p) + (def ? "" : std::string(",\"param_calc_mode\":\"") + modes[m] + "\"") + ",\"points\":" + parr(Q) + "}")) return; auto x = make_bscurve<double, 2>(d); at(x, curve_parametrization(Q, mode, true), "interp_mode"); c.check(x.degree() == p, "interp_degree"); c.event("documents/interp_mode"); }
    else
    {
        bool two = r.coin(); auto D = gen::points<double, 2>(r, n, 1.); std::string cs = "[" + parr(Q) + (two ? "," + parr(D) : "") + "]"; bool given = r.coin();
        if (!parse(c, d, std::string("{\"type\":\"bscurve_interp\",\"param_calc_mode\":") + (given ? "\"SPECIFIED\",\"params\":" + arr(u) : "\"" + std::string(modes[m]) + "\"") + ",\"constraints\":" + cs + "}")) return;
        auto x = make_bscurve<double, 2>(d); auto w = given ? u : curve_parametrization(Q, mode, false); at(x, w, "interp_constraints"); if (two) for (int i = 0; i < n; ++i) c.near_pt(x.value(w[i], 1), D[i], 1e-6L, "interp_derivatives", num(i)); c.event(two ? "documents/interp_two" : "documents/interp_one");
        auto y = make_bscurve<double, 2>(d, u); at(y, u, "interp_given");
        // constraint lists of different lengths, or without points
        Doc e; auto S = D; int cut = r.i(1, n); S.resize(n - cut); bool first = r.coin(); auto &A = first ? S : Q; auto &B = first ? Q : S; if (!parse(c, e, "{\"type\":\"bscurve_interp\",\"constraints\":[" + parr(A) + "," + parr(B) + "]}")) return; c.check(throws([&] { make_bscurve<double, 2>(e); }), "ragged_constraints"); c.check(throws([&] { make_bscurve<double, 2>(e, u); }), "ragged_constraints_u"); c.event("documents/ragged");
    }
}
// malformed documents: remove, retype, resize or replace something somewhere; readers throw or give an entity that can be used
static void nodes(Val &v, std::vector<Val *> &L) { L.push_back(&v); if (v.IsObject()) for (auto &m : v.GetObject()) nodes(m.value, L); else if (v.IsArray()) for (auto &x : v.GetArray()) nodes(x, L); }
static Val junk(Rng &r, Doc::AllocatorType &al)
{
    switch (r.i(0, 8)) { case 0: return Val(); case 1: return Val(true); case 2: return Val(-1); case 3: return Val(r.i(0, 200)); case 4: return Val(r.uni(-1e3, 1e3)); case 5: return Val("bscurve", al); case 6: return Val(rapidjson::kArrayType); case 7: return Val(rapidjson::kObjectType); default: { Val a(rapidjson::kArrayType); for (int i = r.i(1, 4); i > 0; --i) a.PushBack(r.coin() ? Val(r.i(0, 3)) : Val(r.uni(-1, 1)), al); return a; } }
}
template <class F> static bool reads(Case &c, F f)
{
    try { f(); c.event("malformed/accepted"); return true; } catch (const std::exception &) { c.event("malformed/rejected"); return false; }
}
static void read_all(Case &c, const Val &d)
{
    auto cu = [&](auto x) { auto b = x->bounds(); for (int i = 0; i <= 4; ++i) x->value(b[0] + (b[1] - b[0]) * i / 4.); }; auto su = [&](auto x) { auto b = x->bounds(); for (int i = 0; i <= 4; ++i) x->value(b[0] + (b[1] - b[0]) * i / 4., b[2] + (b[3] - b[2]) * (4 - i) / 4.); };
    reads(c, [&] { cu(make_curve<double, 2>(d)); }); reads(c, [&] { cu(make_curve<double, 3>(d)); }); reads(c, [&] { su(make_surface<double, 2>(d)); }); reads(c, [&] { su(make_surface<double, 3>(d)); }); reads(c, [&] { su(make_surface<double>(d)); });
    reads(c, [&] { auto x = make_bscurve<double, 2>(d); cu(&x); }); reads(c, [&] { auto x = make_bscurve<double, 3>(d, {0., 1., 2., 3.}); cu(&x); }); reads(c, [&] { auto x = make_bssurface<double, 3>(d); su(&x); });
    reads(c, [&] { auto x = bscurve_direct<double, 2>(d); cu(&x); }); reads(c, [&] { auto x = bscurve_direct_mults<double, 2>(d); cu(&x); }); reads(c, [&] { auto x = bssurface_direct<double, 3>(d); su(&x); }); reads(c, [&] { auto x = bscurve_interp<double, 2>(d); cu(&x); }); reads(c, [&] { auto x = bscurve_interp_cn<double, 2>(d); cu(&x); });
}
static std::string rnd_text(Rng &r)
{
    std::string w; switch (r.i(0, 6)) { case 0: return written(gen::curve<double, 2>(r, r.i(1, 3), r.i(1, 3))); case 1: return written(gen::rcurve<double, 3>(r, r.i(1, 3), r.i(1, 3))); case 2: return written(gen::surf<double, 3>(r, r.i(1, 2), r.i(1, 2), r.i(1, 2), r.i(1, 2))); case 3: return written(gen::rsurf<double, 3>(r, r.i(1, 2), r.i(1, 2), r.i(1, 2), r.i(1, 2))); case 4: return written(rnd_rev(r, w));
        case 5: { auto sf = rnd_surface3(r, w); return written(CurveOnSurface<double, 3>(inner2(r, sf->bounds(), w), sf)); }
        default: { int n = r.i(4, 6); auto Q = gen::points<double, 2>(r, n, 1.), D = gen::points<double, 2>(r, n, 1.); return r.coin() ? "{\"type\":\"bscurve_interp\",\"param_calc_mode\":\"CHORD_LENGTH\",\"constraints\":[" + parr(Q) + "," + parr(D) + "]}" : "{\"type\":\"bscurve_interp_cn\",\"deg\":2,\"param_calc_mode\":\"CENTRIPETAL\",\"points\":" + parr(Q) + "}"; } }
}
FAMILY("malformed", 600, 40000)
{
    auto &r = c.rng; auto s = rnd_text(r); Doc d; if (!parse(c, d, s)) return; auto &al = d.GetAllocator(); std::string what;
    for (int e = r.i(1, 3); e > 0; --e)
    {
        std::vector<Val *> L; nodes(d, L); auto *v = L[r.i(0, 5) < 3 ? r.i(0, std::min<int>(12, int(L.size()) - 1)) : r.i(0, int(L.size()) - 1)]; int k = r.i(0, 4);
        if (k == 0 && v->IsObject() && v->MemberCount()) { auto it = v->MemberBegin() + r.i(0, int(v->MemberCount()) - 1); what += std::string(" remove ") + it->name.GetString(); v->RemoveMember(it); }
        else if (k == 1 && v->IsArray() && v->Size()) { what += " shorten"; if (r.coin(0.3)) v->Clear(); else v->PopBack(); }
        else if (k == 2 && v->IsArray()) { what += " lengthen"; if (v->Size() && r.coin()) { Val x(*(v->Begin() + r.i(0, int(v->Size()) - 1)), al); v->PushBack(x, al); } else v->PushBack(junk(r, al), al); }
        else if (k == 3 && v->IsNumber()) { what += " number"; if (v->IsInt() && r.coin(0.7)) v->SetInt(r.coin() ? v->GetInt() + r.i(-2, 2) : (int[]){0, -1, 1, 125, 126, 127, 128, 142, 120, 138, 1000}[r.i(0, 10)]); else *v = r.coin() ? Val(r.uni(-2, 2)) : Val(r.coin() ? 1e308 : -1e308); }
        else { what += " replace"; *v = junk(r, al); }
    }
    c.describe("malformed" + what + " : " + text(d).substr(0, 160)); c.nontrivial(hash_str(text(d))); c.event("malformed/documents"); read_all(c, d);
}
// certainly broken documents must be refused
FAMILY("rejected", 400, 20000)
{
    auto &r = c.rng; auto s = rnd_text(r); Doc d; if (!parse(c, d, s)) return; auto &al = d.GetAllocator(); std::string what; bool ints = d["type"].IsInt();
    int k = r.i(0, 6); std::vector<std::string> M; for (auto &m : d.GetObject()) { std::string n = m.name.GetString(); if (n != "dim" && n != "param_calc_mode") M.push_back(n); } auto nm = r.pick(M); auto &v = d[nm.c_str()];
    if (k == 0) { d.RemoveMember(nm.c_str()); what = "removed " + nm; }
    else if (k == 1) { what = "null " + nm; v.SetNull(); }
    else if (k == 2) { what = "string " + nm; v.SetString("nonsense", al); }
    else if (k == 3) { what = "other type"; if (ints) d["type"].SetInt(r.coin() ? 100 : -125); else d["type"].SetString("circle", al); }
    else if (k == 4 && v.IsArray() && v.Size() && (nm == "poles" || nm == "weights" || nm == "mults" || nm.substr(0, 5) == "mults" || nm == "axis2")) { what = "shortened " + nm; v.PopBack(); }
    else if (k == 5 && nm.substr(0, 6) == "degree") { what = "degree " + nm; v.SetInt(r.coin() ? v.GetInt() + r.i(1, 3) : -1); }
    else if (k == 6) { what = "not an object"; Val a; switch (r.i(0, 3)) { case 0: a.SetArray(); break; case 1: a.SetString("x", al); break; case 2: a.SetDouble(1.5); break; default:; } static_cast<Val &>(d) = a; }
    else { what = "coordinate"; std::vector<Val *> L, P; nodes(v, L); for (auto *x : L) if (x->IsDouble()) P.push_back(x); if (P.empty()) { what = "removed " + nm; d.RemoveMember(nm.c_str()); } else P[r.i(0, int(P.size()) - 1)]->SetString("0.5", al); }
    c.describe("broken (" + what + ") : " + text(d).substr(0, 160)); c.nontrivial(hash_str(text(d))); c.event("rejected/documents");
    c.check(throws([&] { make_curve<double, 2>(d); }), "curve2"); c.check(throws([&] { make_curve<double, 3>(d); }), "curve3"); c.check(throws([&] { make_surface<double, 3>(d); }), "surface3"); c.check(throws([&] { make_surface<double>(d); }), "surface"); c.check(throws([&] { make_bscurve<double, 2>(d); }), "bscurve"); c.check(throws([&] { make_bscurve<double, 3>(d); }), "bscurve3"); c.check(throws([&] { make_bssurface<double, 3>(d); }), "bssurface");
}
// text point files
FAMILY("points_text", 60, 1500)
{
    auto &r = c.rng; int n = r.i(6, 30); auto f = gen::smooth_curve<double, 2>(r, 3, 3); auto [u1, u2] = f.bounds(); auto fn = scratch() + ".txt"; std::vector<std::array<double, 2>> Q; char sep = r.coin() ? ' ' : r.coin() ? ',' : ';'; int skip = r.i(0, 2); bool crlf = r.coin(0.3), lead = r.coin(0.3);
    { std::ofstream o(fn); o.precision(17); for (int i = 0; i < skip; ++i) o << "header " << i << "\n"; for (int i = 0; i < n; ++i) { auto p = f.value(u1 + (u2 - u1) * i / (n - 1)); Q.push_back(p); o << (lead && sep == ' ' ? "  " : "") << p[0] << sep << (lead ? " " : "") << p[1] << (crlf ? "\r\n" : "\n"); } }
    c.describe("text n " + num(n) + " sep " + sep); c.nontrivial(hvec(Q[1]) ^ n); size_t p = r.i(1, 3);
    auto x = bscurve_approx_from_points<double, 2>(fn, p, KnotsCalcMode::CHORD_LENGTH, skip, sep), y = approx(Q, p, KnotsCalcMode::CHORD_LENGTH, true); c.check(x.degree() == y.degree() && x.poles().size() == y.poles().size(), "text_kind"); if (x.poles().size() == y.poles().size()) for (size_t i = 0; i < x.poles().size(); ++i) c.near_pt(x.poles()[i], y.poles()[i], 1e-7L, "text_poles");
    c.near_pt(x.begin(), Q.front(), 1e-9L, "text_begin"); c.near_pt(x.end(), Q.back(), 1e-9L, "text_end"); c.event("text/read");
    { std::ofstream o(fn, std::ios::app); switch (r.i(0, 2)) { case 0: o << "1.0" << sep << "2.0" << sep << "3.0\n"; break; case 1: o << "abc" << sep << "2.0\n"; break; default: o << "1.0\n"; } } c.check(throws([&] { bscurve_approx_from_points<double, 2>(fn, p, KnotsCalcMode::CHORD_LENGTH, skip, sep); }), "text_bad_line"); std::remove(fn.c_str()); c.check(throws([&] { bscurve_approx_from_points<double, 2>(fn, p, KnotsCalcMode::CHORD_LENGTH, skip, sep); }), "text_missing"); c.event("text/bad");
}
int main(int a, char **b) { return run(a, b); }
