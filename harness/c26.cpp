// C26: what the Python module returns is what the library computes. The module is built from the repository's sources and loaded
// into an interpreter embedded in this process; every call goes through the Python attribute, its counterpart is called directly.
#include <pybind11/embed.h>
#include <pybind11/stl.h>
#include <pybind11/functional.h>
#include <pybind11/numpy.h>
#include "gen.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs/bscinterp.h>
#include <gbs/bssinterp.h>
#include <gbs/bscbuild.h>
#include <gbs/bssbuild.h>
#include <gbs/bsctools.h>
#include <gbs/bsstools.h>
#include <gbs/bscapprox.h>
#include <gbs/bssapprox.h>
#include <gbs/bscanalysis.h>
#include <gbs/bssanalysis.h>
#include <gbs/bscshaping.h>
#include <gbs/bssshaping.h>
#include <gbs/extrema.h>
#include <gbs/transform.h>
#include <gbs-io/tojson.h>
#include <gbs-mesh/tfi.h>
#include <gbs-mesh/smoothing.h>
namespace py = pybind11;
using namespace vh;
void gbs_bind_render(py::module &) {}
extern "C" PyObject *PyInit_gbs();
static py::object *G = nullptr, *PK = nullptr, *CP = nullptr;
template <class... A> static py::object call(const std::string &n, A &&...a) { return G->attr(n.c_str())(std::forward<A>(a)...); }
template <class... A> static py::object meth(const py::object &o, const char *n, A &&...a) { return o.attr(n)(std::forward<A>(a)...); }
static py::object pickled(const py::object &o) { return PK->attr("loads")(PK->attr("dumps")(o)); }
static py::object copied(const py::object &o) { return CP->attr("copy")(o); }
using D = double;
template <size_t d> using P = std::array<D, d>;
template <size_t d> using PV = std::vector<P<d>>;
// exact up to the last digits: both sides run the same library code
static bool eq(D a, D b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 1e-11 * (1 + std::fabs(b)); }
static bool eq(size_t a, size_t b) { return a == b; }
static bool eq(bool a, bool b) { return a == b; }
template <class T> static bool eq(const std::vector<T> &, const std::vector<T> &);
template <class T, size_t d> static bool eq(const std::array<T, d> &, const std::array<T, d> &);
template <class A, class B> static bool eq(const std::pair<A, B> &a, const std::pair<A, B> &b) { return eq(a.first, b.first) && eq(a.second, b.second); }
template <class T, size_t d> static bool eq(const std::array<T, d> &a, const std::array<T, d> &b) { for (size_t i = 0; i < d; ++i) if (!eq(a[i], b[i])) return false; return true; }
template <class T> static bool eq(const std::vector<T> &a, const std::vector<T> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!eq(a[i], b[i])) return false; return true; }
template <class A> static bool same(Case &c, const py::object &o, const A &b, const std::string &key, const std::string &what = "") { c.event("calls"); try { return c.check(eq(py::cast<A>(o), b), key, what); } catch (const py::cast_error &e) { return c.check(false, key + "_type", what); } }
template <size_t d> static bool same_array(Case &c, const py::object &o, const PV<d> &b, const std::string &key) // numpy (n, d) arrays
{
    c.event("arrays"); auto a = py::cast<py::array_t<D>>(o); if (!c.check(a.ndim() == 2 && size_t(a.shape(0)) == b.size() && size_t(a.shape(1)) == d, key + "_shape")) return false; auto x = a.template unchecked<2>(); bool ok = true; for (size_t i = 0; i < b.size(); ++i) for (size_t k = 0; k < d; ++k) ok = ok && eq(x(i, k), b[i][k]); return c.check(ok, key);
}
static std::vector<D> flat1(const py::object &o) { return py::cast<std::vector<D>>(py::object(py::cast<py::array_t<D>>(o).attr("tolist")())); }
// either both accept and agree or both refuse
template <class FP, class FC, class CMP> static void both(Case &c, FP &&fp, FC &&fc, CMP &&cmp, const std::string &key)
{
    using RC = decltype(fc()); std::optional<RC> b; std::string why; bool refused = false; try { b = fc(); } catch (const std::exception &e) { refused = true; why = e.what(); }
    py::object o; bool prefused = false; std::string pwhy; try { o = fp(); } catch (py::error_already_set &e) { prefused = true; pwhy = e.what(); }
    if (!c.check(refused == prefused, key + "_outcome", refused ? "library: " + why : "python: " + pwhy)) return; c.event(refused ? "refused" : "done"); if (!refused) cmp(o, *b);
}
template <size_t d> static std::string nm(const char *s) { return std::string(s) + num(d) + "d"; }
template <size_t d, bool rat> using BC = std::conditional_t<rat, gbs::BSCurveRational<D, d>, gbs::BSCurve<D, d>>;
template <size_t d, bool rat> using BS = std::conditional_t<rat, gbs::BSSurfaceRational<D, d>, gbs::BSSurface<D, d>>;
template <size_t d, bool rat> static BC<d, rat> gcurve(Rng &r, int pmin = 1) { size_t p = r.i(pmin, 5); if constexpr (rat) return gen::rcurve<D, d>(r, p, r.i(1, 4)); else return gen::curve<D, d>(r, p, r.i(1, 4)); }
template <size_t d, bool rat> static BS<d, rat> gsurf(Rng &r) { size_t p = r.i(1, 4), q = r.i(1, 4); if constexpr (rat) return gen::rsurf<D, d>(r, p, q, r.i(1, 3), r.i(1, 3)); else return gen::surf<D, d>(r, p, q, r.i(1, 3), r.i(1, 3)); }
template <size_t d> static std::vector<D> ins(Rng &r, const gbs::Curve<D, d> &t, int n) { auto [a, b] = t.bounds(); std::vector<D> u{a, b}; for (int i = 0; i < n; ++i) u.push_back(a + (b - a) * r.uni(0, 1)); return u; }
// any curve
template <size_t d> static void evals(Case &c, const py::object &o, const gbs::Curve<D, d> &t, const std::string &k, size_t dmax = 2)
{
    auto us = ins(c.rng, t, 3); auto [a, b] = t.bounds(); same(c, meth(o, "bounds"), std::array<D, 2>{a, b}, k + "bounds"); same(c, meth(o, "midPosition"), t.midPosition(), k + "mid");
    for (size_t j = 0; j <= dmax; ++j) {
        for (auto u : us) { same(c, meth(o, "value", u, j), t.value(u, j), k + "value", num(u) + " d " + num(j)); same(c, o(u, j), t.value(u, j), k + "call", num(u) + " d " + num(j)); }
        same_array<d>(c, meth(o, "value", us, j), t.values(us, j), k + "values"); same_array<d>(c, o(us, j), t.values(us, j), k + "calls"); same(c, meth(o, "begin", j), t.begin(j), k + "begin"); same(c, meth(o, "end", j), t.end(j), k + "end");
    }
    same(c, meth(o, "value", us[2]), t.value(us[2], 0), k + "value_default"); same(c, o(us[2]), t.value(us[2], 0), k + "call_default"); same_array<d>(c, meth(o, "value", us), t.values(us, 0), k + "values_default");
    if (dmax >= 2) { same(c, meth(o, "d_dm", us[2]), t.d_dm(us[2]), k + "d_dm"); same(c, meth(o, "d_dm2", us[2]), t.d_dm2(us[2]), k + "d_dm2"); same_array<d>(c, meth(o, "d_dm", us), t.d_dms(us), k + "d_dms"); same_array<d>(c, meth(o, "d_dm2", us), t.d_dm2s(us), k + "d_dm2s"); }
    c.event("evaluated");
}
template <class C> static std::string json_of(const C &t) { rapidjson::StringBuffer s; rapidjson::Writer<rapidjson::StringBuffer> w(s); rapidjson::Document d; d.SetObject(); auto v = gbs::make_json(t, d.GetAllocator()); v.Accept(w); return s.GetString(); }
template <size_t d, bool rat> static void state(Case &c, const py::object &o, const BC<d, rat> &t, const std::string &k)
{
    same(c, meth(o, "degree"), t.degree(), k + "degree"); same(c, meth(o, "knotsFlats"), t.knotsFlats(), k + "knots_flats"); same(c, meth(o, "knots"), t.knots(), k + "knots"); same(c, meth(o, "mults"), t.mults(), k + "mults"); same(c, meth(o, "poles"), t.poles(), k + "poles");
    if constexpr (rat) { same(c, meth(o, "polesProjected"), t.polesProjected(), k + "poles_projected"); same(c, meth(o, "weights"), t.weights(), k + "weights"); }
    auto R = gen::R(t); auto us = gen::params<D>(c.rng, t.knotsFlats(), 3); for (auto u : us) for (int j = 0; j <= 1; ++j) { auto v = R.ders(u, j)[j]; ld s = 1e-9L; s += 1e-9L * v.b; if (j == 0 || u != t.knotsFlats().back()) { bool atk = false; for (auto q : t.knotsFlats()) atk = atk || q == u; if (j == 0 || !atk) c.near_pt(py::cast<P<d>>(o(u, j)), v.v, s * (rat ? 100 : 1), k + "reference", num(u) + " d " + num(j)); } }
}
template <size_t d, bool rat> static void curve_case(Case &c)
{
    auto &r = c.rng; auto t = gcurve<d, rat>(r); c.describe((rat ? "rational " : "") + nm<d>("curve ") + " " + gen::cdesc(t)); c.nontrivial(gen::chash(t)); std::string n = nm<d>(rat ? "BSCurveRational" : "BSCurve"); std::string k = rat ? "rational/" : "curve/";
    py::object o; int how = r.i(0, rat ? 4 : 2);
    if (how == 0) o = call(n, t.poles(), t.knotsFlats(), t.degree()); else if (how == 1) o = call(n, t.poles(), t.knots(), t.mults(), t.degree()); else if (how == 2) o = call(n, py::cast(t));
    if constexpr (rat) { if (how == 3) o = call(n, py::arg("poles") = t.polesProjected(), py::arg("knots_flats") = t.knotsFlats(), py::arg("weights") = t.weights(), py::arg("degree") = t.degree()); else if (how == 4) o = call(n, py::arg("poles") = t.polesProjected(), py::arg("knots") = t.knots(), py::arg("mults") = t.mults(), py::arg("weights") = t.weights(), py::arg("degree") = t.degree());
        if (how >= 3) t = BC<d, rat>(t.polesProjected(), t.knotsFlats(), t.weights(), t.degree()); }
    c.event(k + "built" + num(how)); state<d, rat>(c, o, t, k); evals<d>(c, o, t, k); D out = t.bounds()[1] + 1; c.check(throws([&] { o(out); }) == throws([&] { t.value(out); }), k + "outside");
    int steps = r.i(1, 4); for (int s = 0; s < steps; ++s) {
        auto [a, b] = t.bounds(); D u1 = a + (b - a) * r.uni(0.05, 0.45), u2 = a + (b - a) * r.uni(0.55, 0.95); std::string op;
        switch (r.i(0, 8)) {
        case 0: { size_t m = r.i(1, t.degree()); op = "insert"; if (r.coin()) { meth(o, "insertKnot", u1, m); t.insertKnot(u1, m); } else { meth(o, "insertKnot", u1); t.insertKnot(u1); } break; }
        case 1: op = "reverse"; meth(o, "reverse"); t.reverse(); break;
        case 2: { op = "reversed"; o = meth(o, "reversed"); t = BC<d, rat>(t.reversed()); break; }
        case 3: op = "trim"; if (r.coin()) { meth(o, "trim", u1, u2); t.trim(u1, u2); } else { meth(o, "trim", u1, u2, true); t.trim(u1, u2, true); } break;
        case 4: op = "bounds"; { D k1 = r.uni(-3, 3), k2 = k1 + r.uni(0.2, 4); if (r.coin()) { meth(o, "changeBounds", k1, k2); t.changeBounds(k1, k2); } else { meth(o, "changeBounds", std::array<D, 2>{k1, k2}); t.changeBounds(std::array<D, 2>{k1, k2}); } } break;
        case 5: { op = "degree"; if (t.degree() > 6) break; if (r.coin()) { meth(o, "increaseDegree"); t.increaseDegree(); } else { size_t st = r.i(1, 2); meth(o, "increaseDegree", st); t.increaseDegree(st); } break; }
        case 6: { op = "remove"; auto kn = t.knots(); if (kn.size() < 3) break; D u = kn[r.i(1, kn.size() - 2)]; D tol = r.coin() ? 1e-9 : 1e6; if (r.coin()) { meth(o, "removeKnot", u, tol); t.removeKnot(u, tol); } else { size_t m = 1; meth(o, "removeKnot", u, tol, m); t.removeKnot(u, tol, m); } break; }
        case 7: { op = "copies"; auto kn = t.knotsFlats(); for (auto &x : kn) x = 2 * x + 1; auto po = t.poles(); for (auto &x : po) x[0] += 0.25 * x.back(); meth(o, "copyKnots", kn); t.copyKnots(kn); meth(o, "copyPoles", po); t.copyPoles(po); break; }
        default: op = "pole"; { size_t i = r.i(0, t.poles().size() - 1); same(c, meth(o, "pole", i), std::as_const(t).pole(i), k + "pole"); }
        }
        state<d, rat>(c, o, t, k + op + "/"); evals<d>(c, o, t, k + op + "/"); c.event(k + op);
    }
    auto keep = t; auto cp = copied(o), pk = pickled(o), c2 = call(n, o); c.check(py::cast<std::string>(py::repr(o)) == json_of(t), k + "repr"); meth(o, "changeBounds", -7., -5.); for (auto &x : {cp, pk, c2}) state<d, rat>(c, x, keep, k + "copy/"); c.event(k + "copies"); // copies are independent of the original
}
FAMILY("curves", 260, 9000) { switch (c.rng.i(0, 5)) { case 0: curve_case<1, false>(c); break; case 1: curve_case<2, false>(c); break; case 2: curve_case<3, false>(c); break; case 3: curve_case<1, true>(c); break; case 4: curve_case<2, true>(c); break; default: curve_case<3, true>(c); } }
template <size_t d> static void sevals(Case &c, const py::object &o, const gbs::Surface<D, d> &t, const std::string &k, bool arc = true)
{
    auto &r = c.rng; auto [u1, u2, v1, v2] = t.bounds(); same(c, meth(o, "bounds"), t.bounds(), k + "bounds"); std::vector<std::array<D, 2>> uv{{u1, v1}, {u2, v2}, {u1, v2}}; std::vector<D> us, vs; for (int i = 0; i < 4; ++i) { uv.push_back({u1 + (u2 - u1) * r.uni(0, 1), v1 + (v2 - v1) * r.uni(0, 1)}); us.push_back(uv.back()[0]); vs.push_back(uv.back()[1]); }
    auto vl = vs; vl.pop_back(); c.check(throws([&] { meth(o, "value", us, vl); }) && throws([&] { o(vl, us); }), k + "list_sizes");
    for (size_t a = 0; a <= 1; ++a) for (size_t b = 0; b <= 1; ++b) { for (auto &q : uv) { auto v = t.value(q[0], q[1], a, b); same(c, meth(o, "value", q[0], q[1], a, b), v, k + "value", num(a) + num(b)); same(c, meth(o, "value", q, a, b), v, k + "value_uv"); same(c, o(q[0], q[1], a, b), v, k + "call"); same(c, o(q, a, b), v, k + "call_uv"); }
        same_array<d>(c, meth(o, "value", uv, a, b), t.values(uv, a, b), k + "values"); same_array<d>(c, o(uv, a, b), t.values(uv, a, b), k + "calls"); same_array<d>(c, meth(o, "value", us, vs, a, b), t.values(us, vs, a, b), k + "grid"); same_array<d>(c, o(us, vs, a, b), t.values(us, vs, a, b), k + "grid_call"); }
    auto q = uv[3]; same(c, o(q[0], q[1]), t.value(q[0], q[1], 0, 0), k + "call_default"); same(c, meth(o, "value", q), t.value(q[0], q[1], 0, 0), k + "value_default");
    if (arc) { same(c, meth(o, "d_dmu", q[0], q[1]), t.d_dmu(q[0], q[1]), k + "d_dmu"); same(c, meth(o, "d_dmv", q[0], q[1]), t.d_dmv(q[0], q[1]), k + "d_dmv"); same(c, meth(o, "d_dmu2", q[0], q[1]), t.d_dmu2(q[0], q[1]), k + "d_dmu2"); same(c, meth(o, "d_dmv2", q[0], q[1]), t.d_dmv2(q[0], q[1]), k + "d_dmv2"); same_array<d>(c, meth(o, "d_dmu", uv), t.d_dmus(uv), k + "d_dmus"); same_array<d>(c, meth(o, "d_dmv", uv), t.d_dmvs(uv), k + "d_dmvs"); same_array<d>(c, meth(o, "d_dmu2", uv), t.d_dmu2s(uv), k + "d_dmu2s"); same_array<d>(c, meth(o, "d_dmv2", uv), t.d_dmv2s(uv), k + "d_dmv2s"); }
    c.event("surface_evaluated");
}
template <size_t d, bool rat> static void sstate(Case &c, const py::object &o, const BS<d, rat> &t, const std::string &k)
{
    same(c, meth(o, "degreeU"), t.degreeU(), k + "degree_u"); same(c, meth(o, "degreeV"), t.degreeV(), k + "degree_v"); same(c, meth(o, "nPolesU"), t.nPolesU(), k + "n_poles_u"); same(c, meth(o, "nPolesV"), t.nPolesV(), k + "n_poles_v"); same(c, meth(o, "knotsFlatsU"), t.knotsFlatsU(), k + "flats_u"); same(c, meth(o, "knotsFlatsV"), t.knotsFlatsV(), k + "flats_v"); same(c, meth(o, "knotsU"), t.knotsU(), k + "knots_u"); same(c, meth(o, "knotsV"), t.knotsV(), k + "knots_v"); same(c, meth(o, "multsU"), t.multsU(), k + "mults_u"); same(c, meth(o, "multsV"), t.multsV(), k + "mults_v"); same(c, meth(o, "poles"), t.poles(), k + "poles");
    if constexpr (rat) { same(c, meth(o, "polesProjected"), t.polesProjected(), k + "poles_projected"); same(c, meth(o, "weights"), t.weights(), k + "weights"); }
    auto R = gen::R(t); auto [u1, u2, v1, v2] = t.bounds(); for (int i = 0; i < 3; ++i) { D u = u1 + (u2 - u1) * c.rng.uni(0, 1), v = v1 + (v2 - v1) * c.rng.uni(0, 1); auto x = R.ders(u, v, 0, 0)[0][0]; ld s = 1e-9L; s += 1e-9L * x.b; c.near_pt(py::cast<P<d>>(o(u, v)), x.v, s, k + "reference"); }
}
template <size_t d, bool rat> static void surf_case(Case &c)
{
    auto &r = c.rng; auto t = gsurf<d, rat>(r); c.describe((rat ? "rational " : "") + nm<d>("surface ") + " " + gen::sdesc(t)); c.nontrivial(gen::shash(t)); std::string n = nm<d>(rat ? "BSSurfaceRational" : "BSSurface"), k = rat ? "rsurface/" : "surface/"; py::object o; int how = r.i(0, rat ? 4 : 2);
    if (how == 0) o = call(n, t.poles(), t.knotsFlatsU(), t.knotsFlatsV(), t.degreeU(), t.degreeV()); else if (how == 1) o = call(n, t.poles(), t.knotsU(), t.knotsV(), t.multsU(), t.multsV(), t.degreeU(), t.degreeV()); else if (how == 2) o = call(n, py::cast(t));
    if constexpr (rat) { if (how == 3) o = call(n, py::arg("poles") = t.polesProjected(), py::arg("weights") = t.weights(), py::arg("knots_flatsU") = t.knotsFlatsU(), py::arg("knots_flatsV") = t.knotsFlatsV(), py::arg("degreeU") = t.degreeU(), py::arg("degreeV") = t.degreeV()); else if (how == 4) o = call(n, py::arg("poles") = t.polesProjected(), py::arg("weights") = t.weights(), py::arg("knotsU") = t.knotsU(), py::arg("knotsV") = t.knotsV(), py::arg("multsU") = t.multsU(), py::arg("multsV") = t.multsV(), py::arg("degreeU") = t.degreeU(), py::arg("degreeV") = t.degreeV());
        if (how >= 3) t = BS<d, rat>(t.polesProjected(), t.weights(), t.knotsFlatsU(), t.knotsFlatsV(), t.degreeU(), t.degreeV()); }
    c.event(k + "built" + num(how)); sstate<d, rat>(c, o, t, k); sevals<d>(c, o, t, k); auto bb = t.bounds(); c.check(throws([&] { o(bb[1] + 1, bb[2]); }) == throws([&] { t.value(bb[1] + 1, bb[2]); }), k + "outside");
    int steps = r.i(1, 4); for (int s = 0; s < steps; ++s) {
        auto [a, b, e, f] = t.bounds(); D u1 = a + (b - a) * r.uni(0.05, 0.45), u2 = a + (b - a) * r.uni(0.55, 0.95), v1 = e + (f - e) * r.uni(0.05, 0.45), v2 = e + (f - e) * r.uni(0.55, 0.95); std::string op;
        switch (r.i(0, 10)) {
        case 0: { size_t m = r.i(1, t.degreeU()); op = "insert_u"; if (r.coin()) { meth(o, "insertKnotU", u1, m); t.insertKnotU(u1, m); } else { meth(o, "insertKnotU", u1); t.insertKnotU(u1, 1); } break; }
        case 1: { size_t m = r.i(1, t.degreeV()); op = "insert_v"; if (r.coin()) { meth(o, "insertKnotV", v1, m); t.insertKnotV(v1, m); } else { meth(o, "insertKnotV", v1); t.insertKnotV(v1, 1); } break; }
        case 2: op = "invert"; meth(o, "invertUV"); t.invertUV(); break;
        case 3: op = "reverse_u"; meth(o, "reverseU"); t.reverseU(); break;
        case 4: op = "reverse_v"; meth(o, "reverseV"); t.reverseV(); break;
        case 5: op = "trim_u"; meth(o, "trimU", u1, u2); t.trimU(u1, u2); break;
        case 6: op = "trim_v"; meth(o, "trimV", v1, v2); t.trimV(v1, v2); break;
        case 7: op = "bounds_u"; meth(o, "changeUBounds", u1, u2); t.changeUBounds(u1, u2); break;
        case 8: op = "bounds_v"; meth(o, "changeVBounds", v1, v2); t.changeVBounds(v1, v2); break;
        case 9: op = "isos"; evals<d>(c, meth(o, "isoU", u1), t.isoU(u1), k + "iso_u/", 1); evals<d>(c, meth(o, "isoV", v1), t.isoV(v1), k + "iso_v/", 1); break;
        default: op = "pole"; { size_t i = r.i(0, t.nPolesU() - 1), j = r.i(0, t.nPolesV() - 1); same(c, meth(o, "pole", i, j), std::as_const(t).pole(i, j), k + "pole"); }
        }
        sstate<d, rat>(c, o, t, k + op + "/"); sevals<d>(c, o, t, k + op + "/", false); c.event(k + op);
    }
    auto keep = t; auto cp = copied(o), pk = pickled(o), c2 = call(n, o); c.check(py::cast<std::string>(py::repr(o)) == json_of(t), k + "repr"); meth(o, "changeUBounds", -7., -5.); for (auto &x : {cp, pk, c2}) sstate<d, rat>(c, x, keep, k + "copy/"); c.event(k + "copies");
}
FAMILY("surfaces", 220, 7000) { switch (c.rng.i(0, 5)) { case 0: surf_case<1, false>(c); break; case 1: surf_case<2, false>(c); break; case 2: surf_case<3, false>(c); break; case 3: surf_case<1, true>(c); break; case 4: surf_case<2, true>(c); break; default: surf_case<3, true>(c); } }
static gbs::BSCfunction<D> law(Rng &r, D a, D b) { auto f = gen::smooth_curve<D, 1>(r, r.i(2, 4), r.i(1, 3)); for (size_t i = 0; i < f.poles().size(); ++i) ; gbs::BSCfunction<D> g(f); g.changeBounds(a, b); return g; }
static void fsame(Case &c, const py::object &o, const gbs::BSCfunction<D> &f, const std::string &k) { auto [a, b] = f.bounds(); same(c, meth(o, "bounds"), std::array<D, 2>{a, b}, k + "bounds"); for (int i = 0; i < 4; ++i) { D u = a + (b - a) * c.rng.uni(0, 1); for (size_t j = 0; j < 3; ++j) { same(c, o(u, j), f(u, j), k + "call"); same(c, meth(o, "value", u, j), f.value(u, j), k + "value"); } same(c, o(u), f(u), k + "default"); } }
template <size_t d> static void wrap_case(Case &c)
{
    auto &r = c.rng; auto b = std::make_shared<gbs::BSCurve<D, d>>(gen::smooth_curve<D, d>(r, r.i(2, 4), r.i(1, 3))); auto pb = py::cast(*b); auto [a, e] = b->bounds(); c.describe(nm<d>("wrappers ") + " " + gen::cdesc(*b)); c.nontrivial(gen::chash(*b));
    { auto A = gen::points<D, d>(r, 2); gbs::Line<D, d> l(A[0], A[1]); auto o = call(nm<d>("Line"), A[0], A[1]); auto T = [&](const py::object &x, const char *k) { for (auto u : {0., 0.3, 1., -2.}) for (size_t j = 0; j < 3; ++j) same(c, meth(x, "value", u, j), l.value(u, j), std::string("line/") + k); }; T(o, "points"); T(copied(o), "copy"); T(pickled(o), "pickle"); T(call(nm<d>("Line"), o), "constructor"); T(call(nm<d>("Line"), l.getAx()), "axis"); c.check(py::cast<std::string>(py::repr(o)) == json_of(l), "line/repr"); }
    D u1 = a + (e - a) * r.uni(0.05, 0.4), u2 = a + (e - a) * r.uni(0.6, 0.95);
    { gbs::CurveTrimmed<D, d> t(b, u1, u2); auto o = call(nm<d>("CurveTrimmed"), pb, u1, u2); evals<d>(c, o, t, "trimmed/"); evals<d>(c, call(nm<d>("CurveTrimmed"), o), t, "trimmed/copy/"); }
    { bool cl = r.coin(); gbs::CurveExtended<D, d> t(b, cl); auto o = r.coin() ? call(nm<d>("CurveExtended"), pb, cl) : call(nm<d>("CurveExtended"), py::arg("crv") = pb, py::arg("clamped") = cl); for (auto &x : {o, pickled(o)}) { c.check(py::cast<bool>(meth(x, "isClamped")) == cl, "extended/clamped"); for (D u : {a - 0.5, u1, u2, e + 0.7}) for (size_t j = 0; j < 2; ++j) same(c, meth(x, "value", u, j), t.value(u, j), "extended/value", num(u)); state<d, false>(c, meth(x, "basisCurve"), *b, "extended/basis/"); } }
    { gbs::CurveReversed<D, d> t(b); auto o = call(nm<d>("CurveReversed"), pb); evals<d>(c, o, t, "reversed/"); evals<d>(c, pickled(o), t, "reversed/pickle/"); }
    { auto f = gbs::BSCfunction<D>(gbs::BSCurve<D, 1>({{a}, {u1}, {e}}, {0., 0., 0., 1., 1., 1.}, 2)); gbs::CurveReparametrized<D, d> t(b, f); auto o = call(nm<d>("CurveReparametrized"), pb, py::cast(f)); evals<d>(c, o, t, "reparametrized/"); evals<d>(c, pickled(o), t, "reparametrized/pickle/"); fsame(c, meth(o, "paramFunction"), f, "reparametrized/function/"); auto f2 = gbs::BSCfunction<D>(gbs::BSCurve<D, 1>({{a}, {u2}, {e}}, {0., 0., 0., 1., 1., 1.}, 2)); meth(o, "setParamFunction", py::cast(f2)); t.setParamFunction(f2); evals<d>(c, o, t, "reparametrized/set/"); }
    { auto s = std::make_shared<gbs::BSSurface<D, d>>(gen::surf<D, d>(r, r.i(2, 3), r.i(2, 3), r.i(1, 2), r.i(1, 2), 1)); auto [x1, x2, y1, y2] = s->bounds(); auto in = [&] { return P<2>{x1 + (x2 - x1) * r.uni(0.05, 0.95), y1 + (y2 - y1) * r.uni(0.05, 0.95)}; }; auto cc = std::make_shared<gbs::BSCurve<D, 2>>(PV<2>{in(), in(), in()}, std::vector<D>{0., 0., 0., 1., 1., 1.}, size_t(2)); gbs::CurveOnSurface<D, d> t(cc, s); auto o = call(nm<d>("CurveOnSurface"), py::cast(*cc), py::cast(*s)); evals<d>(c, o, t, "on_surface/", 1); evals<d>(c, copied(o), t, "on_surface/copy/", 1); evals<d>(c, pickled(o), t, "on_surface/pickle/", 1); state<2, false>(c, meth(o, "basisCurve"), *cc, "on_surface/basis/"); sstate<d, false>(c, meth(o, "basisSurface"), *s, "on_surface/surface/"); c.check(py::cast<std::string>(py::repr(o)) == json_of(t), "on_surface/repr"); }
    c.event("wrappers" + num(d));
}
FAMILY("wrappers", 90, 3000)
{
    switch (c.rng.i(0, 2)) { case 0: wrap_case<1>(c); break; case 1: wrap_case<2>(c); break; default: wrap_case<3>(c); }
    auto &r = c.rng; auto b2 = std::make_shared<gbs::BSCurve<D, 2>>(gen::smooth_curve<D, 2>(r, r.i(3, 4), r.i(1, 3))); auto b3 = std::make_shared<gbs::BSCurve<D, 3>>(gen::smooth_curve<D, 3>(r, r.i(3, 4), r.i(1, 3))); auto f = law(r, b2->bounds()[0], b2->bounds()[1]), f3 = law(r, b3->bounds()[0], b3->bounds()[1]);
    { gbs::CurveOffset2D<D, gbs::BSCfunction<D>> t(b2, f); auto o = call("CurveOffset2d_bs", py::cast(*b2), py::cast(f)); evals<2>(c, o, t, "offset2/", 1); evals<2>(c, copied(o), t, "offset2/copy/", 1); evals<2>(c, pickled(o), t, "offset2/pickle/", 1); evals<2>(c, call("make_shared", o), t, "offset2/shared/", 1); fsame(c, meth(o, "offset"), f, "offset2/law/"); state<2, false>(c, meth(o, "basisCurve"), *b2, "offset2/basis/"); c.check(py::cast<std::string>(py::repr(o)) == json_of(t), "offset2/repr"); }
    { std::function<D(D, size_t)> g = [](D u, size_t d) { return d == 0 ? 0.1 + 0.2 * u + 0.05 * u * u : d == 1 ? 0.2 + 0.1 * u : d == 2 ? 0.1 : 0.; }; gbs::CurveOffset2D<D, std::function<D(D, size_t)>> t(b2, g); auto o = call("CurveOffset2d_func", py::cast(*b2), py::cpp_function([g](D u, size_t d) { return g(u, d); })); evals<2>(c, o, t, "offset2f/", 0); evals<2>(c, copied(o), t, "offset2f/copy/", 0); for (D u : ins(r, t, 2)) same(c, meth(o, "value", u, size_t(1)), t.value(u, 1), "offset2f/derivative"); }
    { auto dir = gen::points<D, 3>(r, 1)[0]; gbs::CurveOffset3D<D, gbs::BSCfunction<D>> t(b3, f3, dir); auto o = call("CurveOffset3d_bs", py::cast(*b3), py::cast(f3), dir); evals<3>(c, o, t, "offset3/", 1); evals<3>(c, copied(o), t, "offset3/copy/", 1); evals<3>(c, pickled(o), t, "offset3/pickle/", 1); same(c, meth(o, "direction"), P<3>(t.direction()), "offset3/direction"); fsame(c, meth(o, "offset"), f3, "offset3/law/"); state<3, false>(c, meth(o, "basisCurve"), *b3, "offset3/basis/"); c.check(py::cast<std::string>(py::repr(o)) == json_of(t), "offset3/repr"); }
    { auto o = py::cast(f); fsame(c, o, f, "function/"); fsame(c, copied(o), f, "function/copy/"); fsame(c, pickled(o), f, "function/pickle/"); fsame(c, call("BSCfunction", o), f, "function/constructor/"); auto bc = f.basisCurve(); std::vector<D> po; for (auto &x : bc.poles()) po.push_back(x[0]); fsame(c, call("BSCfunction", py::cast(bc)), f, "function/curve/"); fsame(c, call("BSCfunction", po, bc.knotsFlats(), bc.degree()), f, "function/flat/"); fsame(c, call("BSCfunction", bc.poles(), bc.knotsFlats(), bc.degree()), f, "function/points/"); fsame(c, call("BSCfunction", po, bc.knots(), bc.mults(), bc.degree()), f, "function/mults/"); state<1, false>(c, meth(o, "basisCurve"), bc, "function/basis/"); c.check(py::cast<std::string>(py::repr(o)) == json_of(f), "function/repr"); auto g = f; auto og = copied(o); meth(og, "changeBounds", 2., 3.5); g.changeBounds(2., 3.5); fsame(c, og, g, "function/bounds/"); meth(og, "changeBounds", std::array<D, 2>{-1., 1.}); g.changeBounds(std::array<D, 2>{-1., 1.}); fsame(c, og, g, "function/bounds2/"); fsame(c, o, f, "function/untouched/"); }
    { D R = r.uni(0.2, 4); auto C2 = gen::points<D, 2>(r, 1)[0]; gbs::Circle2d<D> t(R, C2); auto o = call("Circle2d", R, C2); auto T = [&](const py::object &x, const char *k) { for (auto u : {0., 0.3, 1., 5.}) for (size_t j = 0; j < 3; ++j) { same(c, meth(x, "value", u, j), t.value(u, j), std::string("circle2/") + k); same(c, x(u, j), t.value(u, j), std::string("circle2/call/") + k); } same(c, meth(x, "c"), P<2>(t.getC()), std::string("circle2/center/") + k); c.check(py::cast<D>(x.attr("r")) == t.getR(), std::string("circle2/radius/") + k); }; T(o, "built"); T(pickled(o), "pickle"); T(call("Circle2d", o), "copy"); o.attr("r") = R + 1; t.setR(R + 1); T(o, "set"); }
    { D R = r.uni(0.2, 4); auto A = gen::points<D, 3>(r, 3); gbs::ax1<D, 3> a1{A[0], A[1]}; gbs::ax2<D, 3> a2{A[0], A[1], A[2]}; bool two = r.coin(); auto t = two ? gbs::Circle3d<D>(R, a2) : gbs::Circle3d<D>(R, a1); auto o = two ? call("Circle3d", R, a2) : call("Circle3d", R, a1); auto T = [&](const py::object &x, const char *k) { for (auto u : {0., 0.3, 1., 5.}) for (size_t j = 0; j < 3; ++j) { same(c, meth(x, "value", u, j), t.value(u, j), std::string("circle3/") + k); same(c, x(u, j), t.value(u, j), std::string("circle3/call/") + k); } same(c, meth(x, "c"), P<3>(t.getC()), std::string("circle3/center/") + k); same(c, meth(x, "z"), P<3>(t.getZ()), std::string("circle3/normal/") + k); same(c, meth(x, "r"), t.getR(), std::string("circle3/radius/") + k); }; T(o, "built"); T(pickled(o), "pickle"); T(call("Circle3d", o), "copy"); }
    { auto prof = std::make_shared<gbs::BSCurve<D, 2>>(gen::smooth_curve<D, 2>(r, 3, r.i(1, 3))); gbs::ax2<D, 3> ax{{{0.3, -1, 2}, {0, 0, 1}, {1, 0, 0}}}; if (r.coin()) ax = {{{1, 2, 3}, {0, 1, 0}, {0, 0, 1}}}; D a1 = r.uni(0, 1), a2 = a1 + r.uni(0.5, 4); gbs::SurfaceOfRevolution<D> t(prof, ax, a1, a2); auto o = call("SurfaceOfRevolution", py::cast(*prof), ax, a1, a2); sevals<3>(c, o, t, "revolution/", false); sevals<3>(c, copied(o), t, "revolution/copy/", false); sevals<3>(c, pickled(o), t, "revolution/pickle/", false); sevals<3>(c, call("make_shared", o), t, "revolution/shared/", false); c.check(py::cast<std::string>(py::repr(o)) == json_of(t), "revolution/repr"); auto od = call("SurfaceOfRevolution", py::cast(*prof)); gbs::SurfaceOfRevolution<D> td(prof, gbs::ax2<D, 3>{{{0, 0, 0}, {0, 0, 1}, {1, 0, 0}}}, 0., 2 * std::numbers::pi); sevals<3>(c, od, td, "revolution/default/", false); }
    { auto s = gen::surf<D, 1>(r, r.i(1, 3), r.i(1, 3), r.i(1, 3), r.i(1, 3)); gbs::BSSfunction<D> t(s); std::vector<D> po; for (auto &x : s.poles()) po.push_back(x[0]); auto T = [&](const py::object &x, const char *k) { auto [u1, u2, v1, v2] = s.bounds(); for (int i = 0; i < 3; ++i) { D u = u1 + (u2 - u1) * r.uni(0, 1), v = v1 + (v2 - v1) * r.uni(0, 1); for (size_t a = 0; a < 2; ++a) for (size_t b = 0; b < 2; ++b) same(c, x(u, v, a, b), t(u, v, a, b), std::string("function2/") + k); } same(c, meth(x, "bounds"), t.bounds(), std::string("function2/bounds/") + k); sstate<1, false>(c, meth(x, "basisSurface"), s, std::string("function2/basis/") + k); }; auto o = call("BSSfunction", py::cast(s)); T(o, "surface"); T(copied(o), "copy"); T(pickled(o), "pickle"); T(call("BSSfunction", o), "constructor"); T(call("BSSfunction", po, s.knotsFlatsU(), s.knotsFlatsV(), s.degreeU(), s.degreeV()), "flat"); T(call("BSSfunction", po, s.knotsU(), s.knotsV(), s.multsU(), s.multsV(), s.degreeU(), s.degreeV()), "mults"); }
    c.event("wrappers");
}
template <size_t d, bool rat> static void tools_case(Case &c)
{
    auto &r = c.rng; auto a = gcurve<d, rat>(r, 2), b = gcurve<d, rat>(r, 2); c.describe((rat ? "rational " : "") + nm<d>("tools ") + " " + gen::cdesc(a)); c.nontrivial(gen::chash(a)); auto pa = py::cast(a), pb = py::cast(b); using C = BC<d, rat>;
    auto cmp = [&](const char *k) { return [&c, k](const py::object &o, const auto &t) { state<d, rat>(c, o, C(t), k); }; };
    both(c, [&] { return call("join", pa, pb); }, [&] { return gbs::join(a, b); }, cmp("join/"), "join");
    auto pt = gen::points<D, d>(r, 1)[0]; bool ne = r.coin(), end = r.coin(), rel = r.coin(); std::optional<size_t> mc; if (r.coin()) mc = r.i(0, 2); D u = a.bounds()[r.i(0, 1)]; D l = r.uni(0.1, 2);
    const gbs::BSCurveGeneral<D, d, rat> &ga = a;
    both(c, [&] { return call("extention_to_point", pa, pt, u, ne, mc); }, [&] { return gbs::extention_to_point(ga, pt, u, ne, mc); }, cmp("extention_to_point/"), "extention_to_point");
    both(c, [&] { return call("extended_to_point", pa, pt, end, ne, mc); }, [&] { return gbs::extended_to_point(ga, pt, end, ne, mc); }, cmp("extended_to_point/"), "extended_to_point");
    both(c, [&] { return call("extended", pa, py::arg("l") = l, py::arg("at_end") = end, py::arg("relative") = rel, py::arg("natural_end") = ne, py::arg("max_cont") = mc); }, [&] { return gbs::extended(ga, l, end, rel, ne, mc); }, cmp("extended/"), "extended");
    auto s = gsurf<d, rat>(r), s2 = gsurf<d, rat>(r); const gbs::BSSurfaceGeneral<D, d, rat> &gs = s; const gbs::BSSurfaceGeneral<D, d, rat> &gs2 = s2; auto ps = py::cast(s), ps2 = py::cast(s2); auto [u1, u2, v1, v2] = s.bounds(); D us = u1 + (u2 - u1) * r.uni(0.1, 0.9), vs = v1 + (v2 - v1) * r.uni(0.1, 0.9); using S = BS<d, rat>;
    auto scmp = [&](const char *k) { return [&c, k](const py::object &o, const auto &t) { sstate<d, rat>(c, o, S(t), k); }; };
    auto two = [&](const char *k) { return [&c, k](const py::object &o, const auto &t) { auto [x, y] = t; py::sequence q = o; if (!c.check(py::len(q) == 2, k)) return; sstate<d, rat>(c, py::object(q[0]), S(x), k); sstate<d, rat>(c, py::object(q[1]), S(y), k); }; };
    both(c, [&] { return call("split_u", ps, us); }, [&] { return gbs::split_u(gs, us); }, two("split_u/"), "split_u"); both(c, [&] { return call("split_v", ps, vs); }, [&] { return gbs::split_v(gs, vs); }, two("split_v/"), "split_v");
    both(c, [&] { return call("join", ps, ps2); }, [&] { return gbs::join(gs, gs2); }, scmp("surface_join/"), "surface_join");
    auto e = r.i(0, 7) ? s.isoU(u2) : s.isoV(v2); auto ec = BC<d, rat>(e); auto po = ec.poles(); for (auto &x : po) for (size_t k = 0; k < d; ++k) x[k] += (rat ? x.back() : 1.) * (0.7 + 0.1 * k); ec.copyPoles(po); const gbs::BSCurveGeneral<D, d, rat> &gec = ec; auto pec = py::cast(ec);
    both(c, [&] { return call("extention_to_curve", ps, pec, ne, mc); }, [&] { return gbs::extention_to_curve(gs, gec, ne, mc); }, scmp("extention_to_curve/"), "extention_to_curve");
    both(c, [&] { return call("extended_to_curve", ps, pec, ne, mc); }, [&] { return gbs::extended_to_curve(gs, gec, ne, mc); }, scmp("extended_to_curve/"), "extended_to_curve");
    auto loc = std::array{gbs::SurfaceBound::U_START, gbs::SurfaceBound::U_END, gbs::SurfaceBound::V_START, gbs::SurfaceBound::V_END}[r.i(0, 3)]; const char *ln = loc == gbs::SurfaceBound::U_START ? "U_START" : loc == gbs::SurfaceBound::U_END ? "U_END" : loc == gbs::SurfaceBound::V_START ? "V_START" : "V_END";
    both(c, [&] { return call("extended", ps, l, G->attr("SurfaceBound").attr(ln), ne, mc); }, [&] { return gbs::extended(gs, l, loc, ne, mc); }, scmp("surface_extended/"), "surface_extended");
    if constexpr (d < 3) { D z = r.uni(-2, 2); both(c, [&] { return call("add_dimension", ps, z); }, [&] { return gbs::add_dimension(gs, z); }, [&](const py::object &o, const auto &t) { sstate<d + 1, rat>(c, o, BS<d + 1, rat>(t), "add_dimension/"); }, "add_dimension"); if constexpr (d == 2 && !rat) { state<3, false>(c, call("to_bscurve_3d", pa, z), gbs::add_dimension(a, z), "to_3d/"); state<3, false>(c, call("to_bscurve_3d", pa), gbs::add_dimension(a, 0.), "to_3d_default/"); sstate<3, false>(c, call("to_bssurface_3d", ps, z), gbs::BSSurface<D, 3>(gbs::add_dimension(s, z)), "surface_to_3d/"); } }
    c.event("tools");
}
FAMILY("tools", 150, 5000) { switch (c.rng.i(0, 4)) { case 0: tools_case<2, false>(c); break; case 1: tools_case<3, false>(c); break; case 2: tools_case<2, true>(c); break; case 3: tools_case<3, true>(c); break; default: tools_case<1, false>(c); } }
template <size_t d> static void build_case(Case &c)
{
    auto &r = c.rng; auto A = gen::points<D, d>(r, 2); c.describe(nm<d>("builders ") + " " + num(A[0][0])); c.nontrivial(vh::hvec(A[0]));
    bool nrm = r.coin(); state<d, false>(c, call(nm<d>("build_segment"), A[0], A[1], nrm), gbs::BSCurve<D, d>(gbs::build_segment<D, d>(A[0], A[1], nrm)), "segment/"); state<d, false>(c, call(nm<d>("build_segment"), A[0], A[1]), gbs::BSCurve<D, d>(gbs::build_segment<D, d>(A[0], A[1], false)), "segment_default/");
    if constexpr (d > 1) { D r1 = r.uni(0.2, 3), r2 = r.uni(0.2, 3); state<d, true>(c, call(nm<d>("build_ellipse"), r1, r2, A[0]), gbs::build_ellipse<D, d>(r1, r2, A[0]), "ellipse/"); state<d, true>(c, call(nm<d>("build_ellipse"), r1, r2), gbs::build_ellipse<D, d>(r1, r2, P<d>{}), "ellipse_default/"); state<d, true>(c, call(nm<d>("build_circle"), r1, A[0]), gbs::build_circle<D, d>(r1, A[0]), "circle/"); state<d, true>(c, call(nm<d>("build_circle"), r1), gbs::build_circle<D, d>(r1, P<d>{}), "circle_default/"); }
    auto t = gen::smooth_curve<D, d>(r, r.i(2, 5), r.i(1, 4)); auto pt = py::cast(t); state<d, false>(c, call("build_derivate", pt), gbs::build_derivate<D, d>(t), "derivate/"); state<d, false>(c, call("build_integrate", pt, A[1]), gbs::build_integrate<D, d>(t, A[1]), "integrate/"); state<d, false>(c, call("build_integrate", pt), gbs::build_integrate<D, d>(t, P<d>{}), "integrate_default/");
    std::list<gbs::BSCurve<D, d>> lst; std::vector<std::shared_ptr<gbs::Curve<D, d>>> sp; int n = r.i(3, 5); std::vector<D> v; for (int i = 0; i < n; ++i) { auto q = gen::smooth_curve<D, d>(r, r.i(2, 3), r.i(1, 3)); q.changeBounds(0., 1.); auto po = q.poles(); for (auto &x : po) x[d - 1] += i; q.copyPoles(po); lst.push_back(q); sp.push_back(std::make_shared<gbs::BSCurve<D, d>>(q)); v.push_back(i ? v.back() + r.uni(0.3, 1) : 0.); }
    std::vector<py::object> pl; for (auto &q : lst) pl.push_back(py::cast(q)); size_t q = r.i(1, n - 1); auto S = [&](const char *k) { return [&c, k](const py::object &o, const auto &s) { sstate<d, false>(c, o, gbs::BSSurface<D, d>(s), k); }; };
    both(c, [&] { return call("loftbs", pl, q); }, [&] { return gbs::loft_generic<D, d>(lst.begin(), lst.end(), q); }, S("loft/"), "loft"); both(c, [&] { return call("loftbs", pl, v, q); }, [&] { return gbs::loft_generic<D, d>(lst.begin(), lst.end(), v, q); }, S("loft_v/"), "loft_v");
    auto fv = gbs::build_simple_mult_flat_knots<D>(v, q); both(c, [&] { return call("loftbs", pl, v, fv, q); }, [&] { return gbs::loft_generic<D, d>(lst.begin(), lst.end(), v, fv, q); }, S("loft_flat/"), "loft_flat");
    both(c, [&] { return call("loft", pl, py::arg("v_degree_max") = q); }, [&] { return gbs::loft<D, d>(sp, q, 0.01, size_t(100), size_t(5)); }, S("loft_any/"), "loft_any"); both(c, [&] { return call("loft", pl, py::arg("v") = v, py::arg("q") = q, py::arg("dev") = 0.02); }, [&] { return gbs::loft<D, d>(sp, v, q, 0.02, size_t(100), size_t(5)); }, S("loft_any_v/"), "loft_any_v");
    c.event("builders");
}
FAMILY("builders", 60, 2000) { switch (c.rng.i(0, 2)) { case 0: build_case<1>(c); break; case 1: build_case<2>(c); break; default: build_case<3>(c); } }
template <size_t d> static void interp_case(Case &c)
{
    auto &r = c.rng; size_t n = r.i(5, 14); PV<d> pts(n); std::vector<D> u(n); for (size_t i = 0; i < n; ++i) { u[i] = i ? u[i - 1] + r.uni(0.3, 1) : r.uni(-1, 1); for (size_t k = 0; k < d; ++k) pts[i][k] = k == 0 ? D(i) + r.uni(0, 0.3) : r.uni(-1, 1); } c.describe(nm<d>("interpolation ") + " n " + num(n)); c.nontrivial(vh::hvec(u));
    auto C = [&](const char *k) { return [&c, k](const py::object &o, const auto &t) { state<d, false>(c, o, gbs::BSCurve<D, d>(t), k); }; }; size_t p = r.i(2, 4); static const gbs::KnotsCalcMode MD[] = {gbs::KnotsCalcMode::EQUALLY_SPACED, gbs::KnotsCalcMode::CHORD_LENGTH, gbs::KnotsCalcMode::CENTRIPETAL}; static const char *MN[] = {"EQUALLY_SPACED", "CHORD_LENGTH", "CENTRIPETAL"}; int mi = r.i(0, 2); auto M = MD[mi]; py::object pm = G->attr("KnotsCalcMode").attr(MN[mi]); auto CL = gbs::KnotsCalcMode::CHORD_LENGTH;
    for (bool ad : {false, true}) same(c, call("curve_parametrization", pts, pm, ad), gbs::curve_parametrization(pts, M, ad), "parametrization");
    both(c, [&] { return call("interpolate_cn", pts, p, pm); }, [&] { return gbs::interpolate<D, d>(pts, p, M); }, C("cn/"), "cn"); both(c, [&] { return call("interpolate_cn", pts, p); }, [&] { return gbs::interpolate<D, d>(pts, p, CL); }, C("cn_default/"), "cn_default"); both(c, [&] { return call("interpolate_cn", pts, u, p); }, [&] { return gbs::interpolate<D, d>(pts, u, p); }, C("cn_u/"), "cn_u");
    std::vector<gbs::constrType<D, d, 1>> Q1(n); std::vector<gbs::constrType<D, d, 2>> Q2(n); std::vector<gbs::constrType<D, d, 3>> Q3(n); auto T = gen::points<D, d>(r, 2 * n, 1.); for (size_t i = 0; i < n; ++i) { Q1[i] = {pts[i]}; Q2[i] = {pts[i], T[i]}; Q3[i] = {pts[i], T[i], T[n + i]}; }
    both(c, [&] { return call("interpolate_c1", Q2, pm); }, [&] { return gbs::interpolate<D, d, 2>(Q2, M, false); }, C("c1/"), "c1"); both(c, [&] { return call("interpolate_c1", Q2, u); }, [&] { return gbs::interpolate<D, d, 2>(Q2, u, false); }, C("c1_u/"), "c1_u"); both(c, [&] { return call("interpolate_c2", Q3, pm); }, [&] { return gbs::interpolate<D, d, 3>(Q3, M, false); }, C("c2/"), "c2"); both(c, [&] { return call("interpolate_c2", Q3, u); }, [&] { return gbs::interpolate<D, d, 3>(Q3, u, false); }, C("c2_u/"), "c2_u"); both(c, [&] { return call("interpolate_c2", Q2, u); }, [&] { return gbs::interpolate<D, d, 2>(Q2, u, true); }, C("c2_natural/"), "c2_natural"); both(c, [&] { return call("interpolate_c2", Q2, pm); }, [&] { return gbs::interpolate<D, d, 2>(Q2, M, true); }, C("c2_natural_mode/"), "c2_natural_mode"); both(c, [&] { return call("interpolate_c1", pts, u); }, [&] { return gbs::interpolate<D, d, 1>(Q1, u, true); }, C("c1_natural/"), "c1_natural"); both(c, [&] { return call("interpolate_c1", pts, pm); }, [&] { return gbs::interpolate<D, d, 1>(Q1, M, true); }, C("c1_natural_mode/"), "c1_natural_mode");
    { gbs::bsc_bound<D, d> b{u.front(), pts.front()}, e{u.back(), pts.back()}; std::vector<gbs::bsc_constraint<D, d>> K; for (size_t i = 1; i + 1 < n; ++i) K.push_back({u[i], pts[i], 0}); both(c, [&] { return call("interpolate", b, e, K, p); }, [&] { return gbs::interpolate<D, d>(b, e, K, p); }, C("constrained/"), "constrained"); }
    both(c, [&] { return call("build_3pt_tg_vec", pts, u); }, [&] { return gbs::build_3pt_tg_vec<D, d>(pts, u); }, [&](const py::object &o, const auto &t) { same(c, o, t, "bessel"); }, "bessel");
    { auto kf = gbs::build_simple_mult_flat_knots<D>(u, p); both(c, [&] { return call("build_poles", pts, kf, u, p); }, [&] { return gbs::build_poles<D, d>(pts, kf, u, p); }, [&](const py::object &o, const auto &t) { same(c, o, t, "poles"); }, "poles"); }
    { size_t nu = r.i(3, 6), nv = r.i(3, 6), pu = r.i(1, 2), pv = r.i(1, 2); PV<d> Q(nu * nv); for (size_t j = 0; j < nv; ++j) for (size_t i = 0; i < nu; ++i) for (size_t k = 0; k < d; ++k) Q[i + nu * j][k] = k == 0 ? D(i) + r.uni(0, .2) : k == 1 ? D(j) + r.uni(0, .2) : r.uni(-1, 1); both(c, [&] { return call("interpolate_cn", Q, nv, pu, pv, pm); }, [&] { return gbs::interpolate<D, d>(Q, nv, pu, pv, M); }, [&](const py::object &o, const auto &t) { sstate<d, false>(c, o, gbs::BSSurface<D, d>(t), "surface_cn/"); }, "surface_cn"); }
    // approximation
    size_t np = r.i(p + 1, std::max<size_t>(p + 1, n - 2)); auto ff = [&](const char *k) { return C(k); };
    both(c, [&] { return call("approx", pts, p, np, pm); }, [&] { return gbs::approx<D, d>(pts, p, np, M, false); }, ff("approx_n/"), "approx_n"); bool fb = r.coin(); both(c, [&] { return call("approx", pts, py::arg("p") = p, py::arg("n_poles") = np, py::arg("u") = u, py::arg("fix_bound") = fb); }, [&] { return gbs::approx<D, d>(pts, p, np, u, fb); }, ff("approx_u/"), "approx_u"); both(c, [&] { return call("approx", pts, py::arg("u") = u, py::arg("p") = p, py::arg("fix_bound") = fb, py::arg("d_max") = 0.05, py::arg("d_avg") = 0.02, py::arg("n_max") = size_t(20)); }, [&] { return gbs::approx<D, d>(pts, u, p, fb, 0.05, 0.02, size_t(20)); }, ff("approx_refined/"), "approx_refined"); both(c, [&] { return call("approx", pts, py::arg("deg") = p, py::arg("mode") = pm, py::arg("fix_bound") = fb, py::arg("d_max") = 0.05, py::arg("d_avg") = 0.02, py::arg("n_max") = size_t(20), py::arg("adimensionnal") = true); }, [&] { return gbs::approx<D, d>(pts, p, M, fb, 0.05, 0.02, size_t(20), true); }, ff("approx_mode/"), "approx_mode");
    auto t = gen::smooth_curve<D, d>(r, r.i(3, 4), r.i(1, 4)); auto pt = py::cast(t); auto [a, b] = t.bounds(); D u1 = a + (b - a) * 0.2, u2 = a + (b - a) * 0.8; both(c, [&] { return call("approx", pt, 0.01, 1e-3, p); }, [&] { return gbs::approx<D, d>(t, 0.01, 1e-3, p, size_t(30)); }, ff("approx_curve/"), "approx_curve"); both(c, [&] { return call("approx", pt, py::arg("u1") = u1, py::arg("u2") = u2, py::arg("deviation") = 0.01, py::arg("tol") = 1e-3, py::arg("p") = p, py::arg("bp") = size_t(20)); }, [&] { return gbs::approx<D, d>(t, u1, u2, 0.01, 1e-3, p, size_t(20)); }, ff("approx_range/"), "approx_range"); both(c, [&] { return call("approx", pt, py::arg("deviation") = 0.01, py::arg("tol") = 1e-3, py::arg("p") = p, py::arg("n_poles") = np, py::arg("bp") = size_t(25)); }, [&] { return gbs::approx<D, d>(t, 0.01, 1e-3, p, np, size_t(25)); }, ff("approx_curve_n/"), "approx_curve_n"); if constexpr (d > 1) both(c, [&] { return call("approx", pt, py::arg("p") = p, py::arg("np") = size_t(40)); }, [&] { return gbs::approx<D, d>(t, p, size_t(40)); }, ff("approx_points/"), "approx_points");
    c.event("interpolation");
}
FAMILY("interpolation", 60, 2000) { switch (c.rng.i(0, 2)) { case 0: interp_case<1>(c); break; case 1: interp_case<2>(c); break; default: interp_case<3>(c); } }
template <size_t d> static void analysis_case(Case &c)
{
    auto &r = c.rng; auto t = gen::smooth_curve<D, d>(r, r.i(3, 4), r.i(1, 4)), t2 = gen::smooth_curve<D, d>(r, r.i(2, 4), r.i(1, 3)); auto pt = py::cast(t), pt2 = py::cast(t2); auto [a, b] = t.bounds(); D u1 = a + (b - a) * r.uni(0.05, 0.4), u2 = a + (b - a) * r.uni(0.6, 0.95); c.describe(nm<d>("analysis ") + " " + gen::cdesc(t)); c.nontrivial(gen::chash(t)); auto V = [&](const char *k) { return [&c, k](const py::object &o, const auto &x) { same(c, o, x, k); }; };
    for (size_t dd : {0, 1}) for (bool ad : {false, true}) { both(c, [&] { return call("length", pt, dd, ad); }, [&] { return gbs::length<D, d, 100>(t, dd, ad); }, V("length"), "length"); both(c, [&] { return call("length", pt, u1, u2, dd, ad); }, [&] { return gbs::length<D, d, 100>(t, u1, u2, dd, ad); }, V("length_range"), "length_range"); both(c, [&] { return call("length_fast", pt, dd, ad); }, [&] { return gbs::length<D, d, 15>(t, dd, ad); }, V("length_fast"), "length_fast"); both(c, [&] { return call("length_fast", pt, u1, u2, dd, ad); }, [&] { return gbs::length<D, d, 15>(t, u1, u2, dd, ad); }, V("length_fast_range"), "length_fast_range"); }
    same(c, call("length", pt), gbs::length<D, d, 100>(t, 0, false), "length_default"); same(c, call("length_adaptive_15", pt), gbs::length<D, d, 15>(t, 0, true), "adaptive15"); same(c, call("length_adaptive_15", pt, u1, u2), gbs::length<D, d, 15>(t, u1, u2, 0, true), "adaptive15_range"); same(c, call("length_adaptive_31", pt), gbs::length<D, d, 31>(t, 0, true), "adaptive31"); same(c, call("length_adaptive_31", pt, u1, u2), gbs::length<D, d, 31>(t, u1, u2, 0, true), "adaptive31_range");
    fsame(c, call("abs_curv", pt, size_t(12), size_t(3)), gbs::abs_curv<D, d, 31>(t, size_t(12), size_t(3)), "abs_curv/"); fsame(c, call("abs_curv", pt, u1, u2, size_t(12), size_t(2)), gbs::abs_curv<D, d, 31>(t, u1, u2, size_t(12), size_t(2)), "abs_curv_range/"); fsame(c, call("abs_curv", pt), gbs::abs_curv<D, d, 31>(t, size_t(30), size_t(3)), "abs_curv_default/"); both(c, [&] { return call("abs_curv_adaptive", pt, py::arg("n") = size_t(10)); }, [&] { return gbs::abs_curv_adaptive<D, d, 31>(t, 10, 3, 0.001); }, [&](const py::object &o, const auto &f) { fsame(c, o, f, "abs_curv_adaptive/"); }, "abs_curv_adaptive"); both(c, [&] { return call("abs_curv_adaptive", pt, py::arg("u1") = u1, py::arg("u2") = u2, py::arg("n") = size_t(10)); }, [&] { return gbs::abs_curv_adaptive<D, d, 31>(t, u1, u2, 10, 3, 0.001); }, [&](const py::object &o, const auto &f) { fsame(c, o, f, "abs_curv_adaptive_range/"); }, "abs_curv_adaptive_range");
    same(c, call("normal_direction", pt, u1), gbs::normal_direction<D>(t, u1), "normal"); same(c, call("tangential_direction", pt, u1), gbs::tangential_direction<D, d>(t, u1), "tangent");
    // sampling
    auto L = [](const auto &l) { return std::vector<D>(l.begin(), l.end()); }; auto F = [&](const char *k) { return [&c, k, L](const py::object &o, const auto &x) { c.check(eq(flat1(o), L(x)), k); c.event("calls"); }; }; auto A = [&](const char *k) { return [&c, k](const py::object &o, const auto &x) { same_array<d>(c, o, x, k); }; };
    size_t np = r.i(3, 12); D dev = std::pow(10., r.uni(-4, -1)); size_t nm = r.coin() ? r.i(5, 25) : 5000; auto us = ins(r, t, 4);
    for (size_t j : {0, 1}) same_array<d>(c, call("make_points", pt, us, j), gbs::make_points(t, us, j), "make_points");
    both(c, [&] { return call("discretize_curve_unif", pt, np); }, [&] { return gbs::discretize(t, np); }, A("discretize_unif"), "discretize_unif"); both(c, [&] { return call("discretize_curve", pt, np, dev, nm); }, [&] { return gbs::discretize(t, np, dev, nm); }, A("discretize_deviation"), "discretize_deviation"); both(c, [&] { return call("discretize_curve", pt); }, [&] { return gbs::discretize(t, 30, 0.01); }, A("discretize_default"), "discretize_default"); both(c, [&] { return call("deviation_based_params", pt, py::arg("np") = np, py::arg("dev") = dev, py::arg("n_max_pts") = nm); }, [&] { return gbs::deviation_based_params<D, d>(t, np, dev, nm); }, F("deviation_params"), "deviation_params"); both(c, [&] { return call("deviation_based_params", pt, py::arg("u1") = u1, py::arg("u2") = u2, py::arg("np") = np, py::arg("dev") = dev, py::arg("n_max_pts") = nm); }, [&] { return gbs::deviation_based_params<D, d>(t, u1, u2, np, dev, nm); }, F("deviation_params_range"), "deviation_params_range"); both(c, [&] { return call("uniform_distrib_params", pt, u1, u2, np); }, [&] { return gbs::uniform_distrib_params<D, d>(t, u1, u2, np, 30); }, F("uniform_params"), "uniform_params"); if (nm < 5000) c.event("sampling/limited");
    auto s = gen::surf<D, d>(r, r.i(2, 3), r.i(2, 3), r.i(1, 2), r.i(1, 2), 1); auto ps = py::cast(s); size_t nu = r.i(2, 6), nv = r.i(2, 6); both(c, [&] { return call("discretize_surface_unif", ps, nu, nv); }, [&] { return gbs::discretize(s, nu, nv); }, A("discretize_surface"), "discretize_surface");
    // extrema
    auto q = t.value(u1); for (auto &x : q) x += r.uni(-0.2, 0.2); D tol = 1e-8; both(c, [&] { return call("extrema_curve_point", pt, q, tol); }, [&] { return gbs::extrema_curve_point<D, d>(t, q, tol, gbs::default_nlopt_algo, 30); }, V("curve_point"), "curve_point"); both(c, [&] { return call("extrema_curve_point", pt, q, py::arg("u0") = u2, py::arg("tol_u") = tol); }, [&] { return gbs::extrema_curve_point<D, d>(t, q, u2, tol, gbs::default_nlopt_algo); }, V("curve_point_start"), "curve_point_start");
    both(c, [&] { return call("extrema_curve_curve", pt, pt2, tol); }, [&] { return gbs::extrema_curve_curve<D, d>(t, t2, tol); }, V("curve_curve"), "curve_curve"); auto m2 = t2.midPosition(); both(c, [&] { return call("extrema_curve_curve", pt, pt2, u1, m2, tol); }, [&] { return gbs::extrema_curve_curve<D, d>(t, t2, u1, m2, tol); }, V("curve_curve_start"), "curve_curve_start");
    auto [su1, su2, sv1, sv2] = s.bounds(); D s0 = su1 + (su2 - su1) * 0.4, w0 = sv1 + (sv2 - sv1) * 0.7; auto qs = s.value(s0, w0); for (auto &x : qs) x += 0.05; both(c, [&] { return call("extrema_surf_pnt", ps, qs, s0, w0, tol); }, [&] { return gbs::extrema_surf_pnt<D, d>(s, qs, s0, w0, tol); }, V("surf_point_start"), "surf_point_start"); both(c, [&] { return call("extrema_surf_pnt", ps, qs, tol); }, [&] { return gbs::extrema_surf_pnt<D, d>(s, qs, tol); }, V("surf_point"), "surf_point"); if constexpr (d == 3) both(c, [&] { return call("extrema_surf_curve", ps, pt, u1, s0, w0, tol); }, [&] { return gbs::extrema_surf_curve<D, d>(s, t, u1, s0, w0, tol); }, V("surf_curve"), "surf_curve");
    for (size_t i = 0; i < d; ++i) { D X = t.value(u1)[i]; both(c, [&] { return call("solve_coordinate", pt, i, X); }, [&] { return gbs::solve_coordinate<D, d>(t, i, X); }, V("coordinate"), "coordinate"); both(c, [&] { return call("max_coordinate", pt, i, X); }, [&] { return gbs::max_coordinate<D, d>(t, i, X); }, V("coordinate_max"), "coordinate_max"); both(c, [&] { return call("min_coordinate", pt, i, X); }, [&] { return gbs::min_coordinate<D, d>(t, i, X); }, V("coordinate_min"), "coordinate_min"); }
    if constexpr (d == 2) { auto X = gen::points<D, 2>(r, 4); gbs::Line<D, 2> l1(X[0], X[1]), l2(X[2], X[3]); both(c, [&] { return call("extrema_curve_curve", py::cast(l1), py::cast(l2)); }, [&] { return gbs::extrema_curve_curve<D>(l1, l2); }, V("line_line"), "line_line"); }
    c.event("analysis");
}
FAMILY("analysis", 40, 1200) { if (c.rng.coin()) analysis_case<2>(c); else analysis_case<3>(c); }
template <size_t d> static void misc_case(Case &c)
{
    auto &r = c.rng; auto t = gcurve<d, false>(r); auto X = gen::points<D, d>(r, 3); c.describe(nm<d>("misc ") + " " + gen::cdesc(t)); c.nontrivial(gen::chash(t)); auto V = [&](const char *k) { return [&c, k](const py::object &o, const auto &x) { same(c, o, x, k); }; };
    // bases
    auto k = t.knotsFlats(); size_t p = t.degree(), n = t.poles().size(); auto [a, b] = t.bounds(); auto tr = gcurve<d, true>(r); auto s = gsurf<d, false>(r); for (int q = 0; q < 3; ++q) { D u = a + (b - a) * r.uni(0, 1); for (size_t j : {0, 1, 2}) { same(c, call("eval", u, k, t.poles(), p, j), gbs::eval_value_decasteljau(u, k, t.poles(), p, j), "eval"); same(c, call("eval", u, k, t.poles(), p, j, false), gbs::eval_value_decasteljau(u, k, t.poles(), p, j, false), "eval_full"); size_t i = r.i(0, n - 1); same(c, call("basis_function", u, i, p, j, k), gbs::basis_function<D>(u, i, p, j, k), "basis"); }
        auto [ra, rb] = tr.bounds(); D ur = ra + (rb - ra) * r.uni(0, 1); for (size_t j : {0, 1}) same(c, call("eval", ur, tr.knotsFlats(), tr.polesProjected(), tr.weights(), tr.degree(), j), gbs::eval_rational_value_simple<D, d>(ur, tr.knotsFlats(), gbs::add_weights_coord(tr.polesProjected(), tr.weights()), tr.degree(), j, true), "eval_rational"); { auto x = gen::R(tr).value(ur, 0); ld sc = 1e-9L; sc += 1e-8L * x.b; c.near_pt(py::cast<P<d>>(call("eval", ur, tr.knotsFlats(), tr.polesProjected(), tr.weights(), tr.degree())), x.v, sc, "eval_rational_reference"); }
        auto [u1, u2, v1, v2] = s.bounds(); D su = u1 + (u2 - u1) * r.uni(0, 1), sv = v1 + (v2 - v1) * r.uni(0, 1); for (size_t du : {0, 1}) for (size_t dv : {0, 1}) same(c, call("eval", su, sv, s.knotsFlatsU(), s.knotsFlatsV(), s.poles(), s.degreeU(), s.degreeV(), du, dv), gbs::eval_value_decasteljau(su, sv, s.knotsFlatsU(), s.knotsFlatsV(), s.poles(), s.degreeU(), s.degreeV(), du, dv), "eval_surface"); }
    { auto [kk, mm] = std::pair(t.knots(), t.mults()); same(c, call("flat_knots", kk, mm), k, "flat_knots"); { std::vector<std::pair<D, size_t>> kq; for (size_t i = 0; i < kk.size(); ++i) kq.push_back({kk[i], mm[i]}); same(c, call("unflat_knots", k), kq, "unflat_knots"); } auto o = call("knots_and_mults", k); auto x = gbs::knots_and_mults<D>(k); V("knots_and_mults")(o, x); size_t np = r.i(p + 1, p + 9); same(c, call("build_simple_mult_flat_knots", a, b, np, p), gbs::build_simple_mult_flat_knots<D>(a, b, np, p), "simple_knots"); std::vector<D> uu{a}; for (size_t i = 0; i < p + 3; ++i) uu.push_back(uu.back() + r.uni(0.1, 1)); same(c, call("build_simple_mult_flat_knots", uu, p), gbs::build_simple_mult_flat_knots<D>(uu, p), "simple_knots_u"); }
    if constexpr (d > 1) {
        using gbs::operator+; using gbs::operator-; using gbs::operator*; using gbs::operator/; using gbs::operator^; auto x = X[0], y = X[1]; D sc = r.uni(-3, 3); auto C = X[2]; D an = r.uni(-4, 4); ld dot = 0, nx = 0, ny = 0, ds = 0; P<d> su, di, mu, ne, un; for (size_t i = 0; i < d; ++i) { dot += ld(x[i]) * y[i]; nx += ld(x[i]) * x[i]; ny += ld(y[i]) * y[i]; ds += ld(x[i] - y[i]) * (x[i] - y[i]); su[i] = x[i] + y[i]; di[i] = x[i] - y[i]; mu[i] = sc * x[i]; ne[i] = -x[i]; } for (size_t i = 0; i < d; ++i) un[i] = x[i] / std::sqrt(nx);
        same(c, call("add", x, y), su, "add"); same(c, call("sub", x, y), di, "sub"); same(c, call("mult", sc, x), mu, "mult"); same(c, call("neg", x), ne, "neg"); same(c, call("adim", x), un, "adim"); c.near(py::cast<D>(call("dot", x, y)), dot, 1e-12L * (1 + std::sqrt(nx * ny)), "dot"); c.near(py::cast<D>(call("norm", x)), std::sqrt(nx), 1e-12L * (1 + std::sqrt(nx)), "norm"); c.near(py::cast<D>(call("dist", x, y)), std::sqrt(ds), 1e-12L * (1 + std::sqrt(ds)), "dist"); c.near(py::cast<D>(call("length", x, y)), std::sqrt(ds), 1e-12L * (1 + std::sqrt(ds)), "point_length"); same(c, call("angle", x, y), gbs::angle(x, y), "angle"); if constexpr (d == 3) same(c, call("cross", x, y), P<3>{x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]}, "cross");
        // transformations
        auto q = gbs::BSCurve<D, d>(t); auto o = py::cast(q); call("translate", o, x); gbs::translate(q, x); state<d, false>(c, o, q, "translate/"); for (size_t i = 0; i < q.poles().size(); ++i) { P<d> e; for (size_t j = 0; j < d; ++j) e[j] = t.poles()[i][j] + x[j]; c.near_pt(q.poles()[i], e, 1e-11L * (1 + std::sqrt(nx)), "translated_poles"); } call("scale", o, sc, C); gbs::scale(q, sc, C); state<d, false>(c, o, q, "scale/"); call("scale", o, sc); gbs::scale(q, sc); state<d, false>(c, o, q, "scale_default/"); same(c, call("scaled", x, sc, C), gbs::scaled<D, d>(x, sc, C), "scaled"); auto ss = s; auto os = py::cast(ss); call("scale", os, sc, C); gbs::scale(ss, sc, C); sstate<d, false>(c, os, ss, "scale_surface/");
        if constexpr (d == 2) { call("rotate", o, an); gbs::rotate(q, an); state<2, false>(c, o, q, "rotate/"); same(c, call("rotated", x, an, C), gbs::rotated<D, 2>(x, an, C), "rotated"); same(c, call("rotated", x, an), gbs::rotated<D, 2>(x, an, P<2>{0., 0.}), "rotated_default"); } else { call("rotate", o, an, y); gbs::rotate(q, an, y); state<3, false>(c, o, q, "rotate/"); call("rotate", os, an, y); gbs::rotate(ss, an, y); sstate<3, false>(c, os, ss, "rotate_surface/"); same(c, call("rotated", x, an, y), gbs::rotated<D>(x, an, y), "rotated"); same(c, call("rotated", x, an), gbs::rotated<D>(x, an, P<3>{0., 0., 1.}), "rotated_default"); same(c, call("translated", x, y), gbs::translated<D, 3>(x, y), "translated"); }
    }
    // moving curves and surfaces
    { auto q = gen::smooth_curve<D, d>(r, 3, r.i(3, 6)); auto [qa, qb] = q.bounds(); D u = qa + (qb - qa) * r.uni(0.2, 0.8); auto w = q.value(u); for (auto &x : w) x += r.uni(-0.3, 0.3); bool fb = r.coin(); auto C = [&](const char *k) { return [&c, k](const py::object &o, const auto &t) { state<d, false>(c, o, gbs::BSCurve<D, d>(t), k); }; }; auto pq = py::cast(q); both(c, [&] { return call("moved_to_point", pq, w, u, fb); }, [&] { return gbs::moved_to_point<D, d>(q, w, u, fb); }, C("moved/"), "moved"); both(c, [&] { auto z = copied(pq); call("move_to_point", z, w, u, fb); return z; }, [&] { auto z = q; gbs::move_to_point<D, d>(z, w, u, fb); return z; }, C("move/"), "move"); std::vector<gbs::bsc_constraint<D, d>> K{{u, w, 0}}; if (r.coin()) K.push_back({u, q.value(u, 1), 1}); both(c, [&] { return call("moved_to_constraints", pq, K, fb); }, [&] { return gbs::moved_to_constraints<D, d>(q, K, fb); }, C("moved_constraints/"), "moved_constraints"); both(c, [&] { auto z = copied(pq); call("move_to_constraints", z, K, fb); return z; }, [&] { auto z = q; gbs::move_to_constraints<D, d>(z, K, fb); return z; }, C("move_constraints/"), "move_constraints"); both(c, [&] { return call("convert_constraints_to_delta", pq, K); }, [&] { return gbs::convert_constraints_to_delta<D, d>(q, K); }, [&](const py::object &o, const auto &t) { auto x = py::cast<std::vector<gbs::bsc_constraint<D, d>>>(o); bool ok = x.size() == t.size(); for (size_t i = 0; ok && i < x.size(); ++i) ok = eq(std::get<0>(x[i]), std::get<0>(t[i])) && eq(std::get<1>(x[i]), std::get<1>(t[i])) && std::get<2>(x[i]) == std::get<2>(t[i]); c.check(ok, "deltas"); }, "deltas");
        auto g = gen::surf<D, d>(r, 2, 2, 3, 3, 1); auto pg = py::cast(g); auto [g1, g2, h1, h2] = g.bounds(); D gu = g1 + (g2 - g1) * r.uni(0.3, 0.7), gv = h1 + (h2 - h1) * r.uni(0.3, 0.7); auto gw = g.value(gu, gv); for (auto &x : gw) x += 0.1; auto S = [&](const char *k) { return [&c, k](const py::object &o, const auto &t) { sstate<d, false>(c, o, gbs::BSSurface<D, d>(t), k); }; }; both(c, [&] { return call("moved_to_point", pg, gw, gu, gv, fb); }, [&] { return gbs::moved_to_point<D, d>(g, gw, gu, gv, fb); }, S("moved_surface/"), "moved_surface"); std::vector<gbs::bss_constraint<D, d>> GK{{gu, gv, gw, 0, 0}}; both(c, [&] { return call("moved_to_constraints", pg, GK, fb); }, [&] { return gbs::moved_to_constraints<D, d>(g, GK, fb); }, S("moved_surface_constraints/"), "moved_surface_constraints"); }
    c.event("misc");
}
FAMILY("functions", 120, 4000) { switch (c.rng.i(0, 2)) { case 0: misc_case<1>(c); break; case 1: misc_case<2>(c); break; default: misc_case<3>(c); } }
FAMILY("meshes", 40, 1200)
{
    auto &r = c.rng; size_t n = r.i(5, 9), m = r.i(5, 9); gbs::points_vector<D, 2> g(n * m); for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) g[j + n * i] = {D(i) + r.uni(-.2, .2), D(j) + r.uni(-.2, .2)}; c.describe("mesh " + num(n) + "x" + num(m)); c.nontrivial(hash_str(num(g[0][0]) + num(g[1][1])));
    size_t it = r.i(0, 30); D tol = 1e-9; auto want = g; gbs::elliptic_structured_smoothing<D>(want, n, 1, m - 2, 1, n - 2, it, tol); auto o = call("elliptic_structured_smoothing", g, n, size_t(1), m - 2, size_t(1), n - 2, it, tol); same(c, o, want, "elliptic", num(it)); if (it > 0) c.check(!eq(want, g), "elliptic_moves"); c.event("elliptic");
    auto q = gen::surf<D, 3>(r, 2, 2, 2, 2, 1); q.changeUBounds(0., 1.); q.changeVBounds(0., 1.); auto sp = std::make_shared<gbs::BSSurface<D, 3>>(q); std::shared_ptr<gbs::Surface<D, 3>> ss = sp; std::vector<D> ki{0., r.uni(0.3, 0.7), 1.}, ei{0., r.uni(0.3, 0.7), 1.}; both(c, [&] { return call("tfi_mesh", py::cast(*sp), ki, ei, n, m); }, [&] { return gbs::tfi_mesh_2d<D, 3, 1, 1, true>(ss, ki, ei, n, m); }, [&](const py::object &o, const auto &t) { auto &[pts, ni, nj, a, b] = t; py::tuple tp = o; same(c, tp[0], pts, "tfi_surface"); c.check(py::cast<size_t>(tp[1]) == ni && py::cast<size_t>(tp[2]) == nj, "tfi_sizes"); c.event("tfi"); }, "tfi");
    c.event("meshes");
}
int main(int a, char **b)
{
    PyImport_AppendInittab("gbs", &PyInit_gbs); py::scoped_interpreter guard; py::module_::import("sys").attr("path").attr("append")("/opt/veriftools/pyvenv/lib/python3.12/site-packages");
    py::object g = py::module_::import("gbs"), p = py::module_::import("pickle"), cp = py::module_::import("copy"); py::module_::import("numpy"); G = &g; PK = &p; CP = &cp; return run(a, b);
}
