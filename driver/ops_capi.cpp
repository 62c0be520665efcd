// Functions of the C interface for which the library's own answer is the yardstick: asked both ways.
#ifdef VP_CAPI
#include "driver.h"
#include <functional>
#include "capi.h"
#undef NurbsCurve
#undef NurbsSurface
#undef Interpolation
#undef ValidationUtils

struct Says
{
    J v = J::arr();
    void n(double d) { v.push(J(d)); }
    void i(int k) { v.push(J(k)); }
    void p(const XYZ& q) { n(q.GetX()); n(q.GetY()); n(q.GetZ()); }
    void c(const LN_NurbsCurve& k) { v.push(out(k)); }
    void s(const LN_NurbsSurface& k) { v.push(out(k)); }
};
// the answer, or the fact that it was refused
static J says(std::function<void(Says&)> f)
{
    Says s;
    try { f(s); }
    catch (const std::exception&) { return J(std::string("refused")); }
    std::string t;
    s.v.print(t);
    return J(t);
}
static LN_NurbsCurve_C arg(const cap::Cur& k) { return k; }

OP("CSame")
{
    std::string f = e["f"].s;
    std::function<void(Says&)> lib, c;
    if (f == "Offset")
    {
        lib = [&](Says& s) { LN_NurbsCurve r; NurbsCurve::Offset(x.c(e), e["d"].d(), (OffsetType)e["ty"].n(), r); s.c(r); };
        c = [&](Says& s) { cap::Cur k(x.c(e)); LN_NurbsCurve_C r{}; LNLIB_NURBSCUR_offset(arg(k), e["d"].d(), (LNLIB_ENUMS_OffsetType_C)e["ty"].n(), &r); s.c(cap::l(r)); };
    }
    else if (f == "Excessive")
    {
        lib = [&](Says& s) { LN_NurbsCurve r; NurbsCurve::RemoveExcessiveKnots(x.c(e), r); s.c(r); };
        c = [&](Says& s) { cap::Cur k(x.c(e)); LN_NurbsCurve_C r{}; LNLIB_NURBSCUR_remove_excessive_knots(arg(k), &r); s.c(cap::l(r)); };
    }
    else if (f == "Bound")
    {
        lib = [&](Says& s) { s.n(NurbsCurve::ComputerRemoveKnotErrorBound(x.c(e), (int)e["i"].n())); };
        c = [&](Says& s) { cap::Cur k(x.c(e)); s.n(LNLIB_NURBSCUR_computer_remove_knot_error_bound(arg(k), (int)e["i"].n())); };
    }
    else if (f == "ByBound")
    {
        std::vector<double> us = dvec(e["us"]);
        lib = [=, &x, &e](Says& s)
        {
            LN_NurbsCurve r; std::vector<double> er(us.size());
            NurbsCurve::RemoveKnotsByGivenBound(x.c(e), us, er, e["d"].d(), r);
            s.i((int)er.size()); for (double d : er) s.n(d); s.c(r);
        };
        c = [=, &x, &e](Says& s)
        {
            cap::Cur k(x.c(e)); LN_NurbsCurve_C r{}; auto er = cap::room1(); int n = -1;
            LNLIB_NURBSCUR_remove_knots_by_given_bound(arg(k), us.data(), (int)us.size(), e["d"].d(), er.data(), &n, &r);
            s.i(n); for (int j = 0; j < n; j++) s.n(er[j]); s.c(cap::l(r));
        };
    }
    else if (f == "Weighted")
    {
        auto P = pvec(e["P"]), T = pvec(e["T"]); auto W = dvec(e["W"]), V = dvec(e["V"]); auto I = ivec(e["I"]); int p = (int)e["p"].n(), n = (int)e["n"].n();
        lib = [=](Says& s) { LN_NurbsCurve r; bool b = NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(p, P, W, T, I, V, n, r); s.i(b); if (b) s.c(r); };
        c = [=](Says& s)
        {
            auto q = cap::c(P), t = cap::c(T); LN_NurbsCurve_C r{};
            int b = LNLIB_NURBSCUR_weighted_constrained_least_squares(p, q.data(), W.data(), t.data(), I.data(), V.data(), (int)T.size(), n, &r);
            s.i(b); if (b) s.c(cap::l(r));
        };
    }
    else if (f == "Swung")
    {
        lib = [&](Says& s) { LN_NurbsSurface r; bool b = NurbsSurface::CreateSwungSurface(x.c(e), x.C.at(e["c2"].n()), e["d"].d(), r); s.i(b); if (b) s.s(r); };
        c = [&](Says& s)
        {
            cap::Cur k(x.c(e)), t(x.C.at(e["c2"].n())); LN_NurbsSurface_C r{};
            int b = LNLIB_NURBSSUR_create_swung_surface(arg(k), arg(t), e["d"].d(), &r);
            s.i(b); if (b) s.s(cap::l(r));
        };
    }
    else if (f == "Fillet")
    {
        lib = [&](Says& s) { LN_NurbsSurface r; NurbsSurface::MakeCornerFilletSurface(x.c(e), r); s.s(r); };
        c = [&](Says& s) { cap::Cur k(x.c(e)); LN_NurbsSurface_C r{}; LNLIB_NURBSSUR_make_corner_fillet_surface(arg(k), &r); s.s(cap::l(r)); };
    }
    else if (f == "Weight3")
    {
        XYZ a = xyz(e["a"]), b = xyz(e["b"]), q = xyz(e["q"]);
        lib = [=](Says& s) { double w = 0; s.i(Interpolation::ComputerWeightForRationalQuadraticInterpolation(a, b, q, w)); s.n(w); };
        c = [=](Says& s) { double w = 0; s.i(LNLIB_INTERPOLATION_computer_weight_for_rational_quadratic_interpolation(cap::c(a), cap::c(b), cap::c(q), &w)); s.n(w); };
    }
    else if (f == "Room")       // less room than pieces: as many as fit, and nothing beyond
    {
        int n = (int)e["n"].n();
        lib = [=, &x, &e](Says& s)
        {
            auto b = NurbsCurve::DecomposeToBeziers(x.c(e));
            int k = std::min(n, (int)b.size()); s.i(k); for (int j = 0; j < k; j++) s.c(b[j]); s.i(1);
            std::vector<XYZ> P; std::vector<double> t; NurbsCurve::EquallyTessellate(x.c(e), P, t);
            k = std::min(n, (int)P.size()); for (int j = 0; j < k; j++) { s.p(P[j]); s.n(t[j]); } s.i(1);
        };
        c = [=, &x, &e](Says& s)
        {
            cap::Cur k(x.c(e)); LN_NurbsCurve_C none{}; none.degree = -7; std::vector<LN_NurbsCurve_C> r(400, none);
            int m = LNLIB_NURBSCUR_decompose_to_beziers(arg(k), r.data(), n);
            s.i(m); for (int j = 0; j < m && j < 400; j++) s.c(cap::l(r[j]));
            bool clean = true; for (int j = std::max(0, m); j < 400; j++) clean = clean && r[j].degree == -7; s.i(clean);
            auto P = cap::room3(); auto t = cap::room1();
            LNLIB_NURBSCUR_equally_tessellate(arg(k), n, P.data(), t.data());
            clean = true;
            for (int j = 0; j < (int)t.size(); j++)
                if (j < n && t[j] == t[j]) { s.p(cap::l(P[j])); s.n(t[j]); }
                else clean = clean && t[j] != t[j] && P[j].x != P[j].x;
            s.i(clean);
        };
    }
    else if (f == "Chain")      // what one call returned is the argument of the next
    {
        double u = e["u"].d();
        lib = [=, &x, &e](Says& s)
        {
            LN_NurbsCurve a, b, d; NurbsCurve::InsertKnot(x.c(e), u, 1, a); NurbsCurve::ElevateDegree(a, 1, b); NurbsCurve::Reverse(b, d); s.c(d);
            LN_NurbsCurve l, r; bool ok = NurbsCurve::SplitAt(d, u, l, r); s.i(ok); if (ok) { LN_NurbsCurve q; NurbsCurve::Reverse(r, q); s.c(q); }
        };
        c = [=, &x, &e](Says& s)
        {
            cap::Cur k(x.c(e)); LN_NurbsCurve_C a{}, b{}, d{}; LNLIB_NURBSCUR_insert_knot(arg(k), u, 1, &a); LNLIB_NURBSCUR_elevate_degree(a, 1, &b); LNLIB_NURBSCUR_reverse(b, &d); s.c(cap::l(d));
            LN_NurbsCurve_C l{}, r{}; int ok = LNLIB_NURBSCUR_split_at(d, u, &l, &r); s.i(ok); if (ok) { LN_NurbsCurve_C q{}; LNLIB_NURBSCUR_reverse(r, &q); s.c(cap::l(q)); }
        };
    }
    else if (f == "GSA")
    {
        lib = [&](Says& s) { UV t = NurbsSurface::GetParamOnSurfaceByGSA(x.s(e), xyz(e["q"])); s.n(t.GetU()); s.n(t.GetV()); };
        c = [&](Says& s) { cap::Sur k(x.s(e)); UV t = cap::l(LNLIB_NURBSSUR_get_param_on_surface_by_gsa(k, cap::c(xyz(e["q"])))); s.n(t.GetU()); s.n(t.GetV()); };
    }
    else if (f == "SChain")
    {
        lib = [&](Says& s) { LN_NurbsSurface a, b; NurbsSurface::Swap(x.s(e), a); NurbsSurface::Reverse(a, (SurfaceDirection)e["dir"].n(), b); s.s(b); };
        c = [&](Says& s) { cap::Sur k(x.s(e)); LN_NurbsSurface_C a{}, b{}; LNLIB_NURBSSUR_swap(k, &a); LNLIB_NURBSSUR_reverse(a, (int)e["dir"].n(), &b); s.s(cap::l(b)); };
    }
    else throw std::logic_error("driver: no such function " + f);
    J r = J::obj();
    r.set("lib", says(lib)).set("c", says(c));
    return r;
}
END;
#endif
