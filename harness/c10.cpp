// C10: derived curves take the values (and derivatives) their definition prescribes from the underlying geometry.
#include "gen.h"
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs/offsets.h>
#include <gbs/bscbuild.h>
#include <memory>
using namespace vh;
using gbs::operator+;
using gbs::operator-;
using gbs::operator*;

// ---- truncated Taylor series in long double: the definitions are evaluated on them
static constexpr int N = 5;
struct J
{
    std::array<ld, N + 1> c{};
    J(ld x = 0) { c[0] = x; }
    static J var(ld x) { J j(x); j.c[1] = 1; return j; }
};
static J operator+(J a, const J &b) { for (int i = 0; i <= N; ++i) a.c[i] += b.c[i]; return a; }
static J operator-(J a, const J &b) { for (int i = 0; i <= N; ++i) a.c[i] -= b.c[i]; return a; }
static J operator*(const J &a, const J &b) { J r; for (int i = 0; i <= N; ++i) for (int j = 0; i + j <= N; ++j) r.c[i + j] += a.c[i] * b.c[j]; return r; }
static J operator/(const J &a, const J &b) { J r; for (int i = 0; i <= N; ++i) { ld s = a.c[i]; for (int j = 1; j <= i; ++j) s -= b.c[j] * r.c[i - j]; r.c[i] = s / b.c[0]; } return r; }
static J sqrtj(const J &a) { J r; r.c[0] = std::sqrt(a.c[0]); for (int i = 1; i <= N; ++i) { ld s = a.c[i]; for (int j = 1; j < i; ++j) s -= r.c[j] * r.c[i - j]; r.c[i] = s / (2 * r.c[0]); } return r; }
static J dj(const J &a) { J r; for (int i = 0; i < N; ++i) r.c[i] = a.c[i + 1] * (i + 1); return r; }
static J compose(const J &outer, J inner) { inner.c[0] = 0; J r(outer.c[N]); for (int i = N; i-- > 0;) r = r * inner + J(outer.c[i]); return r; } // outer expanded at inner's value
using V = std::vector<J>;
static ld fact(int n) { ld f = 1; for (int i = 2; i <= n; ++i) f *= i; return f; }
static J from_derivs(const std::vector<std::vector<ld>> &D, size_t k) { J j; for (int i = 0; i <= N; ++i) j.c[i] = D[i][k] / fact(i); return j; }
static V cross3(const V &a, const V &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static J dot(const V &a, const V &b) { J r; for (size_t i = 0; i < a.size(); ++i) r = r + a[i] * b[i]; return r; }

template <size_t dim> struct DC
{
    std::shared_ptr<gbs::Curve<double, dim>> c;
    std::function<V(ld)> f;          // definition
    std::array<ld, 2> b;             // its domain
    std::vector<ld> brk;             // parameters where it may not be smooth
    int dsup = 4;                    // derivative orders offered
    std::string d;
    bool checked = true;             // refuses parameters out of its domain
    ld scale = 1;
};
template <size_t dim> static V jet(const ref::Curve &R, ld u)
{
    u = std::min(std::max(u, R.bounds()[0]), R.bounds()[1]);
    std::vector<std::vector<ld>> D; for (auto &x : R.ders(u, N)) D.emplace_back(x.v.begin(), x.v.end());
    V v; for (size_t k = 0; k < dim; ++k) v.push_back(from_derivs(D, k)); return v;
}
template <size_t dim> static DC<dim> spline(Case &c, int pmin = 1)
{
    DC<dim> r; int p = c.rng.i(pmin, 5), s = c.rng.i(1, 4); auto b = gen::smooth_curve<double, dim>(c.rng, p, s, 0.3, p > 3 && c.rng.coin(0.3) ? 2 : 1);
    if (c.rng.coin(0.35))
    {
        auto w = gen::weights<double>(c.rng, b.poles().size()); gbs::BSCurveRational<double, dim> q(b.poles(), b.knotsFlats(), w, b.degree());
        r.c = std::make_shared<gbs::BSCurveRational<double, dim>>(q); auto R = std::make_shared<ref::Curve>(gen::R(q)); r.f = [R](ld u) { return jet<dim>(*R, u); }; r.d = "nurbs";
    }
    else { r.c = std::make_shared<gbs::BSCurve<double, dim>>(b); auto R = std::make_shared<ref::Curve>(gen::R(b)); r.f = [R](ld u) { return jet<dim>(*R, u); }; r.d = "bs"; }
    r.b = {b.bounds()[0], b.bounds()[1]}; for (auto k : b.knotsFlats()) r.brk.push_back(k); r.d += num(p); return r;
}
template <size_t dim> static std::array<double, dim> rpt(Rng &r, double s) { std::array<double, dim> x; for (auto &y : x) y = r.uni(-s, s); return x; }
template <size_t dim> static DC<dim> conic(Case &c)
{   // circle or line
    using namespace gbs; DC<dim> r; r.checked = false;
    double R = std::pow(10., c.rng.uni(-1, 1)); auto C = rpt<dim>(c.rng, 3);
    if (c.rng.coin(0.4))
    {
        auto q = rpt<dim>(c.rng, 3); while (gbs::distance(q, C) < 0.1) q = rpt<dim>(c.rng, 3);
        bool ax = c.rng.coin(); r.c = ax ? std::make_shared<Line<double, dim>>(ax1<double, dim>{C, q - C}) : std::make_shared<Line<double, dim>>(C, q);
        ld n = 0; std::vector<ld> t; for (size_t k = 0; k < dim; ++k) { t.push_back(ld(q[k]) - C[k]); n += t[k] * t[k]; } n = std::sqrt(n);
        r.f = [=](ld u) { V v; for (size_t k = 0; k < dim; ++k) v.push_back(J(C[k]) + J(t[k] / n) * J::var(u)); return v; };
        auto b = r.c->bounds(); c.check(b[0] <= -1e100 && b[1] >= 1e100, "line_bounds", num(b[0]) + " " + num(b[1]));
        r.b = {-20, 20}; r.d = ax ? "line_ax" : "line"; return r;
    }
    r.b = {0, 2 * std::numbers::pi};
    std::vector<ld> x(dim), y(dim);
    if constexpr (dim == 2)
    {
        auto p = std::make_shared<Circle2d<double>>(R, C); r.d = "circle";
        if (c.rng.coin(0.4)) { R = std::pow(10., c.rng.uni(-1, 1)); p->setR(R); r.d += "+setR"; }
        c.check(p->getR() == R, "circle_radius"); c.check(p->getC() == C, "circle_centre"); r.c = p; x = {R, 0}; y = {0, R};
    }
    else
    {
        std::array<double, 3> z; int k = c.rng.i(0, 2);
        if (k == 0) { z = {0, 0, 0}; z[size_t(c.rng.i(0, 2))] = c.rng.coin() ? 1 : -1; }
        else z = rpt<3>(c.rng, 2); while (gbs::norm(z) < 0.3) z = rpt<3>(c.rng, 2);
        if (k == 1) z[size_t(c.rng.i(0, 2))] = 0.; if (gbs::norm(z) < 0.1) z = {1, 1, 0};
        std::shared_ptr<Circle3d<double>> p;
        ld nz = std::sqrt(ld(z[0]) * z[0] + ld(z[1]) * z[1] + ld(z[2]) * z[2]);
        if (c.rng.coin())
        {   // frame with a perpendicular x direction
            auto a = rpt<3>(c.rng, 2); std::array<double, 3> X = gbs::cross(z, a); if (gbs::norm(X) < 0.05) { a = {z[1] + 1, z[2] - 2, z[0] + 0.5}; X = gbs::cross(z, a); }
            p = std::make_shared<Circle3d<double>>(R, ax2<double, 3>{C, z, X}); r.d = "circle_ax2"; ld n = 0; for (auto q : X) n += ld(q) * q; n = std::sqrt(n);
            for (int i = 0; i < 3; ++i) x[i] = X[i] / n * R;
        }
        else
        {   // only the axis is prescribed: any start in the plane of the circle
            p = std::make_shared<Circle3d<double>>(R, ax1<double, 3>{C, z}); r.d = "circle_ax1"; auto s = p->value(0.); ld n = 0, h = 0; for (int i = 0; i < 3; ++i) { x[i] = ld(s[i]) - C[i]; n += x[i] * x[i]; h += x[i] * z[i] / nz; }
            c.near(double(std::sqrt(n)), double(R), 1e-11 * (1 + 10), "circle_start_radius", r.d); c.near(double(h), 0., 1e-11 * (1 + 10), "circle_start_in_plane", r.d);
        }
        if (c.rng.coin(0.4)) { double R2 = std::pow(10., c.rng.uni(-1, 1)); p->setR(R2); for (auto &q : x) q *= ld(R2) / R; R = R2; r.d += "+setR"; }
        c.check(p->getR() == R, "circle_radius"); y = {(z[1] * x[2] - z[2] * x[1]) / nz, (z[2] * x[0] - z[0] * x[2]) / nz, (z[0] * x[1] - z[1] * x[0]) / nz}; r.c = p;
    }
    r.f = [=](ld u) { V v; for (size_t k = 0; k < dim; ++k) { J j; for (int i = 0; i <= N; ++i) { ld a = u + i * std::numbers::pi_v<ld> / 2; j.c[i] = (x[k] * std::cos(a) + y[k] * std::sin(a) + (i ? 0 : C[k])) / fact(i); } v.push_back(j); } return v; };
    r.scale = R + 3; return r;
}
template <size_t dim> static DC<dim> derived(Case &c, int depth, bool regular);

template <size_t dim> static DC<dim> offset(Case &c, int depth)
{
    DC<dim> in = depth > 1 && c.rng.coin(0.5) ? derived<dim>(c, depth - 1, true) : c.rng.coin(0.3) ? conic<dim>(c) : spline<dim>(c, 3);
    if (in.d.rfind("line", 0) == 0) { in.c = std::make_shared<gbs::CurveTrimmed<double, dim>>(in.c, double(in.b[0]), double(in.b[1])); in.checked = true; }
    DC<dim> r = in;
    ld B0 = in.b[0], B1 = in.b[1];
    // offset law: constant, linear or smooth
    int k = c.rng.i(0, 3); double o0 = c.rng.uni(-0.3, 0.3), o1 = c.rng.uni(-0.2, 0.2), w = c.rng.uni(0.5, 2);
    std::shared_ptr<ref::Curve> L; std::shared_ptr<gbs::BSCfunction<double>> F;
    double a = double(B0), e = double(B1);
    if (k < 3)
    {
        if (k == 0) F = std::make_shared<gbs::BSCfunction<double>>(std::vector<double>{o0, o0}, std::vector<double>{a, a, e, e}, 1);
        else if (k == 1) F = std::make_shared<gbs::BSCfunction<double>>(std::vector<double>{o0, o0 + o1}, std::vector<double>{a, a, e, e}, 1);
        else { std::vector<double> kn(4, a); double m = a + c.rng.uni(0.2, 0.8) * (e - a); kn.push_back(m); for (int i = 0; i < 4; ++i) kn.push_back(e); std::vector<double> po; for (int i = 0; i < 5; ++i) po.push_back(o0 + c.rng.uni(-0.1, 0.1)); F = std::make_shared<gbs::BSCfunction<double>>(po, kn, 3); r.brk.push_back(m); }
        L = std::make_shared<ref::Curve>(gen::R(F->basisCurve()));
    }
    auto law = [=](ld u) { if (L) return jet<1>(*L, u)[0]; J j; for (int i = 0; i <= N; ++i) j.c[i] = (i ? 0 : o0) + o1 * std::pow(ld(w), i) * std::sin(w * u + i * std::numbers::pi_v<ld> / 2) / fact(i); return j; };
    auto fn = [=](double u, size_t d = 0) { return (d ? 0. : o0) + o1 * std::pow(w, double(d)) * std::sin(w * u + double(d) * std::numbers::pi / 2); };
    r.dsup = std::min(2, in.dsup - 1); r.d = "offset" + num(k) + "(" + in.d + ")"; auto g = in.f;
    if constexpr (dim == 2)
    {
        if (F) r.c = c.rng.coin() ? std::make_shared<gbs::CurveOffset2D<double, gbs::BSCfunction<double>>>(in.c, *F) : std::make_shared<gbs::CurveOffset2D<double, gbs::BSCfunction<double>>>(in.c, F);
        else r.c = std::make_shared<gbs::CurveOffset2D<double, decltype(fn)>>(in.c, fn);
        r.f = [=](ld u) { auto p = g(u); V t{dj(p[0]), dj(p[1])}; if (t[0].c[0] * t[0].c[0] + t[1].c[0] * t[1].c[0] < 1e-4L) return V(2, J(NAN)); auto n = sqrtj(dot(t, t)); auto o = law(u); return V{p[0] - o * t[1] / n, p[1] + o * t[0] / n}; };
    }
    else
    {
        std::array<double, 3> dir{c.rng.uni(-0.4, 0.4), c.rng.uni(-0.4, 0.4), c.rng.coin() ? 1. : -2.}; if (c.rng.coin(0.3)) dir = {0, 0, 1};
        if (F) r.c = c.rng.coin() ? std::make_shared<gbs::CurveOffset3D<double, gbs::BSCfunction<double>>>(in.c, *F, dir) : std::make_shared<gbs::CurveOffset3D<double, gbs::BSCfunction<double>>>(in.c, F, dir);
        else r.c = std::make_shared<gbs::CurveOffset3D<double, decltype(fn)>>(in.c, fn, dir);
        r.f = [=](ld u) { auto p = g(u); V t{dj(p[0]), dj(p[1]), dj(p[2])}; auto m = cross3({J(dir[0]), J(dir[1]), J(dir[2])}, t); { ld a = 0, b = 0, e = 0; for (int k = 0; k < 3; ++k) { a += m[k].c[0] * m[k].c[0]; b += t[k].c[0] * t[k].c[0]; e += ld(dir[k]) * dir[k]; } if (a < 1e-4L * e || a < 1e-3L * b * e) return V(3, J(NAN)); } auto n = sqrtj(dot(m, m)); auto o = law(u); return V{p[0] + o * m[0] / n, p[1] + o * m[1] / n, p[2] + o * m[2] / n}; };
    }
    r.checked = in.checked || F != nullptr; return r;
}
template <size_t dim> static DC<dim> derived(Case &c, int depth, bool regular)
{
    if (depth == 0) return c.rng.coin(0.3) ? conic<dim>(c) : spline<dim>(c, regular ? 3 : 1);
    int k = c.rng.i(0, 6);
    switch (k)
    {
    case 0:
    {   // trimmed
        auto r = derived<dim>(c, depth - 1, regular); ld L = r.b[1] - r.b[0]; ld a = c.rng.coin(0.2) ? r.b[0] : r.b[0] + L * ld(c.rng.uni(0, 0.4)), e = c.rng.coin(0.2) ? r.b[1] : r.b[1] - L * ld(c.rng.uni(0, 0.4));
        double A = double(a), E = double(e); r.c = std::make_shared<gbs::CurveTrimmed<double, dim>>(r.c, A, E); r.b = {A, E}; r.d = "trim(" + r.d + ")"; r.checked = true; c.event("kind/trimmed"); return r;
    }
    case 1:
    {   // reversed; a line has no finite domain to reverse
        auto r = derived<dim>(c, depth - 1, regular); if (r.d.rfind("line", 0) == 0) { r.c = std::make_shared<gbs::CurveTrimmed<double, dim>>(r.c, double(r.b[0]), double(r.b[1])); r.checked = true; }
        ld s = r.b[0] + r.b[1]; auto g = r.f; r.f = [g, s](ld u) { auto v = g(s - u); for (auto &j : v) for (int i = 1; i <= N; i += 2) j.c[i] = -j.c[i]; return v; };
        for (auto &x : r.brk) x = s - x; r.c = std::make_shared<gbs::CurveReversed<double, dim>>(r.c); r.d = "rev(" + r.d + ")"; c.event("kind/reversed"); return r;
    }
    case 2:
    {   // reparametrised by an increasing law onto the domain
        auto r = derived<dim>(c, depth - 1, regular); double a = c.rng.uni(-3, 3), e = a + c.rng.uni(0.5, 4); int q = c.rng.i(1, 3); double B0 = double(r.b[0]), B1 = double(r.b[1]);
        std::vector<double> kn(size_t(q + 1), a); for (int i = 0; i <= q; ++i) kn.push_back(e); std::vector<double> po{B0}; for (int i = 1; i < q; ++i) po.push_back(B0 + (B1 - B0) * (i + c.rng.uni(-0.25, 0.25)) / q); po.push_back(B1);
        gbs::BSCfunction<double> F(po, kn, size_t(q)); auto L = std::make_shared<ref::Curve>(gen::R(F.basisCurve())); auto g = r.f;
        std::vector<ld> nb; // the kinks of the basis, mapped back
        for (auto x : r.brk) { ld lo = a, hi = e; for (int i = 0; i < 80; ++i) { ld m = (lo + hi) / 2; (L->value(m).v[0] < x ? lo : hi) = m; } nb.push_back(lo); }
        auto p = std::make_shared<gbs::CurveReparametrized<double, dim>>(r.c, F); if (c.rng.coin(0.2)) p->setParamFunction(F);
        r.c = p; r.f = [g, L](ld u) { auto w = jet<1>(*L, u)[0]; auto v = g(w.c[0]); for (auto &j : v) j = compose(j, w); return v; };
        r.brk = nb; r.b = {a, e}; r.dsup = std::min(2, r.dsup); r.d = "reparam" + num(q) + "(" + r.d + ")"; r.checked = true; c.event("kind/reparametrized"); return r;
    }
    case 3:
    {   // composite: the pieces one after the other, lengths of parameter kept
        int n = c.rng.i(1, 4); std::vector<std::shared_ptr<gbs::Curve<double, dim>>> L; std::vector<std::function<V(ld)>> G; std::vector<ld> U, B; DC<dim> r; r.d = "comp(";
        for (int i = 0; i < n; ++i)
        {
            auto q = derived<dim>(c, depth - 1, regular); if (q.d.rfind("line", 0) == 0) { q.b = {-1, 2}; q.c = std::make_shared<gbs::CurveTrimmed<double, dim>>(q.c, -1., 2.); q.checked = true; }
            if (!i) U.push_back(q.b[0]); L.push_back(q.c); G.push_back(q.f); B.push_back(q.b[0]); for (auto x : q.brk) r.brk.push_back(x - q.b[0] + U.back()); r.brk.push_back(U.back()); U.push_back(U.back() + (q.b[1] - q.b[0])); r.dsup = std::min(r.dsup, q.dsup); r.d += q.d + ";"; if (i == 0 || i == n - 1) r.checked = r.checked && q.checked; r.scale = std::max(r.scale, q.scale);
        }
        r.d += ")"; auto p = std::make_shared<gbs::CurveComposite<double, dim>>(L); c.check(p->curves().size() == size_t(n), "composite_count"); r.c = p; r.b = {U.front(), U.back()};
        r.f = [=](ld u) { size_t i = 0; while (i + 1 < G.size() && u >= U[i + 1]) ++i; return G[i](u - U[i] + B[i]); }; c.event("kind/composite"); return r;
    }
    case 4:
    {   // extended: linear (or clamped) beyond its ends
        auto in = derived<dim>(c, depth - 1, regular), r = in; if (r.d.rfind("line", 0) == 0) return r; bool cl = !regular && c.rng.coin(0.4); ld b0 = r.b[0], b1 = r.b[1]; auto g = r.f;
        auto e = std::make_shared<gbs::CurveExtended<double, dim>>(r.c, cl); c.check(e->isClamped() == cl, "extended_clamped"); auto b = e->bounds(); c.check(b[0] < -1e100 && b[1] > 1e100, "extended_bounds");
        r.f = [=](ld u) { if (u >= b0 && u <= b1) return g(u); ld x = u < b0 ? b0 : b1; auto v = g(x); if (cl) return v; for (auto &j : v) { j.c[0] += j.c[1] * (u - x); for (int i = 2; i <= N; ++i) j.c[i] = 0; } return v; };
        ld L = b1 - b0; r.b = {double(b0 - L * ld(c.rng.uni(0, 2))), double(b1 + L * ld(c.rng.uni(0, 2)))}; r.brk.push_back(b0); r.brk.push_back(b1);
        // keep the extension inside a finite, checkable domain
        r.c = std::make_shared<gbs::CurveTrimmed<double, dim>>(e, double(r.b[0]), double(r.b[1])); r.d = (cl ? "clamp(" : "ext(") + r.d + ")"; r.checked = true; c.event("kind/extended"); return r;
    }
    case 5: c.event("kind/offset"); return offset<dim>(c, depth);
    default:
    {   // curve on a surface
        auto q = spline<2>(c, regular ? 3 : 1); // inside the unit-ish box after fitting
        bool rat = c.rng.coin(0.4); auto bs = gen::surf<double, dim>(c.rng, c.rng.i(1, 4), c.rng.i(1, 4), c.rng.i(1, 3), c.rng.i(1, 3), 1, 1.);
        std::shared_ptr<gbs::Surface<double, dim>> s; std::shared_ptr<ref::Surf> R;
        if (rat) { auto w = gen::weights<double>(c.rng, bs.poles().size()); gbs::BSSurfaceRational<double, dim> rs(bs.poles(), w, bs.knotsFlatsU(), bs.knotsFlatsV(), bs.degreeU(), bs.degreeV()); s = std::make_shared<gbs::BSSurfaceRational<double, dim>>(rs); R = std::make_shared<ref::Surf>(gen::R(rs)); }
        else { s = std::make_shared<gbs::BSSurface<double, dim>>(bs); R = std::make_shared<ref::Surf>(gen::R(bs)); }
        auto [u1, u2, v1, v2] = s->bounds();
        // a parameter curve inside the domain, kept off the surface's knots' kinks by giving the surface simple knots only
        int p = c.rng.i(1, 4); std::vector<std::array<double, 2>> P; int n = p + 1 + c.rng.i(0, 3); for (int i = 0; i < n; ++i) P.push_back({u1 + (u2 - u1) * (0.02 + 0.96 * (i + c.rng.uni(0, 0.9)) / n), v1 + (v2 - v1) * c.rng.uni(0.02, 0.98)});
        std::vector<double> kn(size_t(p + 1), 0.); for (int i = 0; i < n - p - 1; ++i) kn.push_back(double(i + 1) / (n - p)); for (int i = 0; i <= p; ++i) kn.push_back(1.);
        gbs::BSCurve<double, 2> pc(P, kn, size_t(p)); auto L = std::make_shared<ref::Curve>(gen::R(pc)); DC<dim> r; r.b = {0, 1}; for (auto k : kn) r.brk.push_back(k);
        r.c = !rat && c.rng.coin(0.3) ? std::make_shared<gbs::CurveOnSurface<double, dim>>(pc, bs) : std::make_shared<gbs::CurveOnSurface<double, dim>>(std::make_shared<gbs::BSCurve<double, 2>>(pc), s);
        // crossings of the surface's knots
        auto ku = bs.knotsFlatsU(), kv = bs.knotsFlatsV(); for (auto *k : {&ku, &kv}) { auto e = std::minmax_element(k->begin(), k->end()); double lo = *e.first, hi = *e.second; k->erase(std::unique(k->begin(), k->end()), k->end()); std::erase_if(*k, [&](double x) { return x == lo || x == hi; }); }
        for (int d = 0; d < 2; ++d) for (auto k : d ? kv : ku) { ld prev = L->value(0.L).v[d] - k; for (int i = 1; i <= 150; ++i) { ld x = i / 150.L, cur = L->value(x).v[d] - k; if ((prev < 0) != (cur < 0)) { ld lo = x - 1 / 150.L, hi = x; bool up = prev < 0; for (int t = 0; t < 60; ++t) { ld m = (lo + hi) / 2; ((L->value(m).v[d] - k < 0) == up ? lo : hi) = m; } r.brk.push_back(lo); } prev = cur; } }
        r.f = [=](ld u) {
            auto w = jet<2>(*L, u); J a = w[0], b = w[1]; ld x = a.c[0], y = b.c[0]; a.c[0] = b.c[0] = 0; V v(dim);
            auto T = R->ders(x, y, N, N); J pa(1); for (int i = 0; i <= N; ++i) { J pb(1); for (int j = 0; i + j <= N; ++j) { auto &D = T[i][j].v; for (size_t k = 0; k < dim; ++k) v[k] = v[k] + J(D[k] / fact(i) / fact(j)) * pa * pb; pb = pb * b; } pa = pa * a; }
            return v; };
        r.dsup = 2; r.d = std::string("on_surface") + (rat ? "R" : ""); c.event("kind/on_surface"); (void)q; return r;
    }
    }
}
template <size_t dim> static void check(Case &c, const DC<dim> &r)
{
    auto &crv = *r.c; std::string cls = r.d.substr(0, r.d.find_first_of("(0123456789")); c.describe(r.d); uint64_t h = hash_str(r.d);
    if (r.checked) { auto b = crv.bounds(); c.near(b[0], double(r.b[0]), 1e-9 * (1 + std::fabs(b[0])), "bounds/" + cls, r.d); c.near(b[1], double(r.b[1]), 1e-9 * (1 + std::fabs(b[1])), "bounds/" + cls, r.d); }
    ld L = r.b[1] - r.b[0]; std::vector<double> U{double(r.b[0]), double(r.b[1])}; if (r.checked) U = {crv.bounds()[0], crv.bounds()[1]};
    for (auto x : r.brk) if (c.rng.coin(0.3) && x > r.b[0] && x < r.b[1]) U.push_back(double(x));
    for (int i = 0; i < 8; ++i) U.push_back(double(r.b[0] + L * ld(c.rng.u01())));
    bool any = false;
    // a steep parameter law inside can push the rounding of an end value out of what it feeds: then check just inside
    bool rounded = false; if (r.d.find("reparam", 1) != std::string::npos) for (int n = 0; n < 2; ++n) if (throws([&] { crv.value(U[size_t(n)]); })) { rounded = true; U[size_t(n)] += (n ? -1 : 1) * 1e-12 * (1 + std::fabs(U[size_t(n)])); }
    for (size_t n = 0; n < U.size(); ++n)
    {
        double u = U[n]; bool end = n < 2; ld clear = 1e30; for (auto x : r.brk) if (!(end && std::fabs(x - u) <= 1e-9 * (1 + std::fabs(u)))) clear = std::min(clear, std::fabs(x - u));
        ld uu = end ? r.b[n] : ld(u); auto v = r.f(uu); h ^= hvec(std::vector<double>{u, double(v[0].c[0])});
        for (int d = 0; d <= r.dsup; ++d)
        {
            if (clear < 1e-6 * L && d > 0) break; // one-sided derivatives at kinks are not prescribed for all kinds
            ld mag = 0, low = 0; for (auto &j : v) { mag = std::max(mag, std::fabs(j.c[d])); for (int i = 0; i <= std::min(N, d + 1); ++i) low = std::max(low, std::fabs(j.c[i]) * std::pow(1 / L, ld(d - i))); }
            bool sing = false; for (auto &j : v) for (auto x : j.c) if (!(std::fabs(x) < 1e12L)) sing = true; // a normal direction is not defined near a vanishing tangent
            if (sing || mag > 1e7) continue;
            if (clear < 1e-6 * L && d == 0 && r.d.find("comp") != std::string::npos) { continue; }
            if (clear < 1e-6 * L && d == 0 && r.d.find("offset") != std::string::npos && (r.d.find("comp") != std::string::npos || r.d.find("ext") != std::string::npos || r.d.find("clamp") != std::string::npos || r.d.find("on_surface") != std::string::npos)) { continue; } // nor which normal at a kink // which piece rounding selects at a joint is open
            auto x = crv.value(u, size_t(d)); std::array<double, dim> e; for (size_t k = 0; k < dim; ++k) e[k] = double(v[k].c[d] * fact(d));
            double tol = double(1e-9L * (1 + mag * fact(d) + low * fact(d) + r.scale)); any = true;
            c.near_pt(x, e, tol, "value" + num(d) + "/" + cls, "u=" + num(u) + " " + r.d);
            c.event("compared/order" + num(d));
        }
    }
    // the other ways of asking
    if (r.checked)
    {
        auto b = crv.bounds(); if (!rounded) c.check(crv.begin() == crv.value(b[0]), "begin/" + cls); if (!rounded) c.check(crv.end() == crv.value(b[1]), "end/" + cls);
        int nd = std::min(r.dsup, 2); double u = U.back(); std::vector<std::array<double, dim>> D(size_t(nd) + 1); crv.derivatives(u, size_t(nd), D.data());
        for (int d = 0; d <= nd; ++d) { auto x = crv.value(u, size_t(d)); double t = 0; for (auto y : x) t = std::max(t, std::fabs(y)); c.near_pt(D[size_t(d)], x, 1e-12 * (1 + t), "derivatives/" + cls, r.d); }
        double out = double(L) * c.rng.uni(0.01, 3); bool lo = c.rng.coin(); double w = lo ? b[0] - out : b[1] + out;
        c.check(throws([&] { crv.value(w); }), "outside/" + cls, "u=" + num(w) + " " + r.d); c.event("outside");
        c.check(throws([&] { crv.values(std::vector<double>{b[0], w}); }), "outside_list/" + cls);
    }
    if (any) c.nontrivial(h);
}
FAMILY("derived2d", 5000, 200000) { check<2>(c, derived<2>(c, c.rng.i(1, 3), false)); }
FAMILY("derived3d", 5000, 200000) { check<3>(c, derived<3>(c, c.rng.i(1, 3), false)); }
FAMILY("conics", 1500, 50000) { if (c.rng.coin()) check<2>(c, conic<2>(c)); else check<3>(c, conic<3>(c)); }
FAMILY("offsets", 2500, 80000) { if (c.rng.coin()) check<2>(c, offset<2>(c, c.rng.i(1, 2))); else check<3>(c, offset<3>(c, c.rng.i(1, 2))); }
FAMILY("offset_surface_points", 300, 8000)
{   // points of a surface moved along its unit normal by a law of (u,v)
    auto s = gen::surf<double, 3>(c.rng, c.rng.i(2, 4), c.rng.i(2, 4), 2, 2, 1, 1.); auto [u1, u2, v1, v2] = s.bounds(); auto f0 = gen::surf<double, 1>(c.rng, 2, 1, 1, 1, 1, 0.3); f0.changeUBounds(u1, u2); f0.changeVBounds(v1, v2);
    gbs::BSSfunction<double> f(f0); auto R = gen::R(s), F = gen::R(f0); size_t nu = size_t(c.rng.i(2, 12)), nv = size_t(c.rng.i(2, 12)); auto gu = gbs::make_range(u1, u2, nu), gv = gbs::make_range(v1, v2, nv);
    c.describe(num(nu) + "x" + num(nv)); c.nontrivial(gen::shash(s) ^ nu * 131 ^ nv); auto P = gbs::offset_points(f, s, gu, gv); if (!c.check(P.size() == nu * nv, "offset_points/count")) return;
    for (size_t j = 0; j < nv; ++j) for (size_t i = 0; i < nu; ++i)
    {
        auto p = R.value(gu[i], gv[j], 0, 0).v, a = R.value(gu[i], gv[j], 1, 0).v, b = R.value(gu[i], gv[j], 0, 1).v; ld o = F.value(gu[i], gv[j], 0, 0).v[0];
        std::array<ld, 3> w{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; ld n = std::sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]); if (n < 1e-3) continue;
        std::array<double, 3> e; for (int k = 0; k < 3; ++k) e[k] = double(p[k] + o * w[k] / n); c.near_pt(P[i + nu * j], e, 1e-9, "offset_points"); c.event("offset_points");
    }
}
int main(int a, char **v) { return vh::run(a, v); }
