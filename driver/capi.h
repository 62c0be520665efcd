// The C interface (dotnet/CAPI) behind the names the driver uses. Included after the library's own headers; what
// the C interface offers is then asked through it, what it does not offer still goes to the library itself.
#pragma once
#include <cmath>
#include <limits>
#include "Interpolation.h"
#include "Intersection.h"
#include "KnotVectorUtils.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "BezierCurve.h"
#include "BezierSurface.h"
#include "Polynomials.h"
#include "Projection.h"
#include "ValidationUtils.h"
#include "BezierCurve_CAPI.h"
#include "BezierSurface_CAPI.h"
#include "Interpolation_CAPI.h"
#include "Intersection_CAPI.h"
#include "KnotVectorUtils_CAPI.h"
#include "Matrix4d_CAPI.h"
#include "NurbsCurve_CAPI.h"
#include "NurbsSurface_CAPI.h"
#include "Polynomials_CAPI.h"
#include "Projection_CAPI.h"
#include "UV_CAPI.h"
#include "ValidationUtils_CAPI.h"
#include "XYZ_CAPI.h"
#include "XYZW_CAPI.h"

namespace cap
{
using std::vector;
inline XYZ_C c(const XYZ& p) { XYZ_C r; r.x = p.GetX(); r.y = p.GetY(); r.z = p.GetZ(); return r; }
inline UV_C c(const UV& p) { UV_C r; r.u = p.GetU(); r.v = p.GetV(); return r; }
inline XYZW_C c(const XYZW& p) { XYZW_C r; r.wx = p.GetWX(); r.wy = p.GetWY(); r.wz = p.GetWZ(); r.w = p.GetW(); return r; }
inline Matrix4d_C c(const Matrix4d& m) { Matrix4d_C r; for (int i = 0; i < 16; i++) r.m[i] = m.GetElement(i / 4, i % 4); return r; }
inline XYZ l(const XYZ_C& p) { return XYZ(p.x, p.y, p.z); }
inline UV l(const UV_C& p) { return UV(p.u, p.v); }
inline XYZW l(const XYZW_C& p) { return XYZW(p.wx, p.wy, p.wz, p.w); }
inline Matrix4d l(const Matrix4d_C& m) { Matrix4d r; for (int i = 0; i < 16; i++) r.SetElement(i / 4, i % 4, m.m[i]); return r; }

inline vector<XYZ_C> c(const vector<XYZ>& v) { vector<XYZ_C> r; for (auto& p : v) r.push_back(c(p)); return r; }
inline vector<XYZW_C> c(const vector<XYZW>& v) { vector<XYZW_C> r; for (auto& p : v) r.push_back(c(p)); return r; }
template <class T> auto flat(const vector<vector<T>>& m) { vector<decltype(c(T()))> r; for (auto& row : m) for (auto& p : row) r.push_back(c(p)); return r; }
inline vector<double> flat(const vector<vector<double>>& m) { vector<double> r; for (auto& row : m) for (auto p : row) r.push_back(p); return r; }

// storage of an argument: the caller's own arrays
struct Cur
{
    vector<double> U; vector<XYZW_C> P; int p;
    Cur(const LN_NurbsCurve& k) : U(k.KnotVector), P(c(k.ControlPoints)), p(k.Degree) {}
    operator LN_NurbsCurve_C() const { LN_NurbsCurve_C r; r.degree = p; r.knot_vector = U.data(); r.knot_vector_count = (int)U.size(); r.control_points = P.data(); r.control_point_count = (int)P.size(); return r; }
};
struct Sur
{
    vector<double> U, V; vector<XYZW_C> P; int pu, pv, n, m;
    Sur(const LN_NurbsSurface& s) : U(s.KnotVectorU), V(s.KnotVectorV), P(flat(s.ControlPoints)), pu(s.DegreeU), pv(s.DegreeV), n((int)s.ControlPoints.size()), m(n ? (int)s.ControlPoints[0].size() : 0) {}
    operator LN_NurbsSurface_C() const
    {
        LN_NurbsSurface_C r; r.degree_u = pu; r.degree_v = pv; r.knot_vector_u = U.data(); r.knot_vector_count_u = (int)U.size(); r.knot_vector_v = V.data(); r.knot_vector_count_v = (int)V.size();
        r.control_points = P.data(); r.cp_rows = n; r.cp_cols = m; return r;
    }
};
inline LN_NurbsCurve l(const LN_NurbsCurve_C& k)
{
    LN_NurbsCurve r; r.Degree = k.degree; r.KnotVector.assign(k.knot_vector, k.knot_vector + k.knot_vector_count);
    for (int i = 0; i < k.control_point_count; i++) r.ControlPoints.push_back(l(k.control_points[i]));
    return r;
}
inline LN_NurbsSurface l(const LN_NurbsSurface_C& s)
{
    LN_NurbsSurface r; r.DegreeU = s.degree_u; r.DegreeV = s.degree_v;
    r.KnotVectorU.assign(s.knot_vector_u, s.knot_vector_u + s.knot_vector_count_u);
    r.KnotVectorV.assign(s.knot_vector_v, s.knot_vector_v + s.knot_vector_count_v);
    for (int i = 0; i < s.cp_rows; i++) { r.ControlPoints.push_back({}); for (int j = 0; j < s.cp_cols; j++) r.ControlPoints.back().push_back(l(s.control_points[i * s.cp_cols + j])); }
    return r;
}
template <class T> auto l(const T* p, int n) { vector<decltype(l(*p))> r; for (int i = 0; i < n; i++) r.push_back(l(p[i])); return r; }
inline vector<double> l(const double* p, int n) { return vector<double>(p, p + n); }
inline vector<vector<double>> grid(const double* p, int n, int m) { vector<vector<double>> r; for (int i = 0; i < n; i++) r.push_back(vector<double>(p + i * m, p + (i + 1) * m)); return r; }
const double None = std::numeric_limits<double>::quiet_NaN();
const int Room = 20000;                       // what a caller sets aside where the interface gives no bound
inline vector<XYZ_C> room3(int n = Room) { XYZ_C q; q.x = q.y = q.z = None; return vector<XYZ_C>(n, q); }
inline vector<UV_C> room2(int n = Room) { UV_C q; q.u = q.v = None; return vector<UV_C>(n, q); }
inline vector<double> room1(int n = Room) { return vector<double>(n, None); }
}

#define IN const LN_NurbsCurve& curve
#define OUT LN_NurbsCurve& result
#define K cap::Cur(curve)
#define GIVES(call) { LN_NurbsCurve_C o{}; call; result = cap::l(o); }
#define GIVESIF(call) { LN_NurbsCurve_C o{}; int okay = call; if (okay == 1) result = cap::l(o); return okay == 1; }
struct CapiNurbsCurve : public LNLib::NurbsCurve
{
    typedef std::vector<XYZ> Pts;
    static XYZ GetPointOnCurve(IN, double t) { return cap::l(LNLIB_NURBSCUR_get_point_on_curve(K, t)); }
    static XYZ GetPointOnCurveByCornerCut(IN, double t) { return cap::l(LNLIB_NURBSCUR_get_point_on_curve_by_corner_cut(K, t)); }
    static Pts ComputeRationalCurveDerivatives(IN, int d, double t) { auto b = cap::room3(d + 5); int n = LNLIB_NURBSCUR_compute_rational_curve_derivatives(K, d, t, b.data()); return cap::l(b.data(), n); }
    static bool CanComputeDerivative(IN, double t) { return LNLIB_NURBSCUR_can_compute_derivative(K, t) == 1; }
    static double Curvature(IN, double t) { return LNLIB_NURBSCUR_curvature(K, t); }
    static double Torsion(IN, double t) { return LNLIB_NURBSCUR_torsion(K, t); }
    static XYZ Normal(IN, CurveNormal k, double t) { return cap::l(LNLIB_NURBSCUR_normal(K, k == CurveNormal::Normal ? CURVE_NORMAL_NORMAL : CURVE_NORMAL_BINORMAL, t)); }
    static Pts ProjectNormal(IN) { auto b = cap::room3(); int n = LNLIB_NURBSCUR_project_normal(K, b.data()); return cap::l(b.data(), n); }
    static int InsertKnot(IN, double u, int t, OUT) { LN_NurbsCurve_C o{}; int n = LNLIB_NURBSCUR_insert_knot(K, u, t, &o); if (n >= 0) result = cap::l(o); return n; }
    static void RefineKnotVector(IN, const std::vector<double>& X, OUT) GIVES(LNLIB_NURBSCUR_refine_knot_vector(K, X.data(), (int)X.size(), &o))
    static std::vector<LN_NurbsCurve> DecomposeToBeziers(IN)
    {
        std::vector<LN_NurbsCurve_C> o(200);
        int n = LNLIB_NURBSCUR_decompose_to_beziers(K, o.data(), 200);
        std::vector<LN_NurbsCurve> r;
        for (int i = 0; i < n; i++) r.push_back(cap::l(o[i]));
        // no more are written than there is room for
        if (n > 1) { o[n - 1].degree = -7; if (LNLIB_NURBSCUR_decompose_to_beziers(K, o.data(), n - 1) != n - 1 || o[n - 1].degree != -7) r.clear(); }
        return r;
    }
    static bool RemoveKnot(IN, double u, int t, OUT) GIVESIF(LNLIB_NURBSCUR_remove_knot(K, u, t, &o))
    static void RemoveExcessiveKnots(IN, OUT) GIVES(LNLIB_NURBSCUR_remove_excessive_knots(K, &o))
    static void ElevateDegree(IN, int t, OUT) GIVES(LNLIB_NURBSCUR_elevate_degree(K, t, &o))
    static bool ReduceDegree(IN, OUT) GIVESIF(LNLIB_NURBSCUR_reduce_degree(K, &o))
    static void EquallyTessellate(IN, Pts& pts, std::vector<double>& ks)
    {
        auto p = cap::room3(); auto k = cap::room1();
        LNLIB_NURBSCUR_equally_tessellate(K, cap::Room, p.data(), k.data());
        int n = 0, m = 0;
        while (n < cap::Room && !std::isnan(p[n].x)) n++;
        while (m < cap::Room && !std::isnan(k[m])) m++;
        pts = cap::l(p.data(), n); ks = cap::l(k.data(), m);
        if (n > 1)
        {
            auto p2 = cap::room3(n); auto k2 = cap::room1(n);
            LNLIB_NURBSCUR_equally_tessellate(K, n - 1, p2.data(), k2.data());
            if (!std::isnan(p2[n - 1].x) || !std::isnan(k2[n - 1]) || std::isnan(p2[n - 2].x) || std::isnan(k2[n - 2])) pts.clear();
        }
    }
    static bool IsClosed(IN) { return LNLIB_NURBSCUR_is_closed(K) == 1; }
    static bool IsLinear(IN) { return LNLIB_NURBSCUR_is_linear(K) == 1; }
    static bool IsClamp(IN) { return LNLIB_NURBSCUR_is_clamp(K) == 1; }
    static bool IsPeriodic(IN) { return LNLIB_NURBSCUR_is_periodic(K) == 1; }
    static bool IsArc(IN, LN_ArcInfo& a)
    {
        LNLib::NurbsCurve::IsArc(curve, a);        // the C interface does not say whether it is a full circle
        LNLIB_ArcInfo_C o{}; int b = LNLIB_NURBSCUR_is_arc(K, &o); a.Radius = o.radius; a.Center = cap::l(o.center); return b == 1;
    }
    static double GetParamOnCurve(IN, const XYZ& q) { return LNLIB_NURBSCUR_get_param_on_curve(K, cap::c(q)); }
    static double GetParamOnCurve(IN, double len, IntegratorType k) { return LNLIB_NURBSCUR_get_param_by_length(K, len, (LNLIB_ENUMS_IntegratorType_C)k); }
    static std::vector<double> GetParamsOnCurve(IN, double len, IntegratorType k) { auto b = cap::room1(); int n = LNLIB_NURBSCUR_get_params_by_equal_length(K, len, (LNLIB_ENUMS_IntegratorType_C)k, b.data()); return cap::l(b.data(), n); }
    using LNLib::NurbsCurve::ApproximateLength;
    static double ApproximateLength(IN, IntegratorType k) { return LNLIB_NURBSCUR_approximate_length(K, (LNLIB_ENUMS_IntegratorType_C)k); }
    static Pts Tessellate(IN) { auto b = cap::room3(); int n = LNLIB_NURBSCUR_tessellate(K, b.data()); return cap::l(b.data(), n); }
    static void CreateTransformed(IN, const Matrix4d& m, OUT) GIVES(LNLIB_NURBSCUR_create_transformed(K, cap::c(m), &o))
    static void Reparametrize(IN, double a, double b, OUT) GIVES(LNLIB_NURBSCUR_reparametrize(K, a, b, &o))
    static void Reparametrize(IN, double a, double b, double g, double d, OUT) GIVES(LNLIB_NURBSCUR_reparametrize_linear_rational(K, a, b, g, d, &o))
    static void Reverse(IN, OUT) GIVES(LNLIB_NURBSCUR_reverse(K, &o))
    static bool SplitAt(IN, double t, LN_NurbsCurve& a, LN_NurbsCurve& b)
    {
        LN_NurbsCurve_C x{}, y{};
        int ok = LNLIB_NURBSCUR_split_at(K, t, &x, &y);
        if (ok == 1) { a = cap::l(x); b = cap::l(y); }
        return ok == 1;
    }
    static void Extract(IN, double a, double b, OUT) GIVES(LNLIB_NURBSCUR_extract(K, a, b, &o))
    static bool Merge(IN, const LN_NurbsCurve& right, OUT) GIVESIF(LNLIB_NURBSCUR_merge(K, cap::Cur(right), &o))
    static void Offset(IN, double d, OffsetType k, OUT) GIVES(LNLIB_NURBSCUR_offset(K, d, (LNLIB_ENUMS_OffsetType_C)k, &o))
    static void CreateLine(const XYZ& a, const XYZ& b, OUT) { result = cap::l(LNLIB_NURBSCUR_create_line(cap::c(a), cap::c(b))); }
    static void CreateCubicHermite(const Pts& q, const Pts& t, OUT) { auto a = cap::c(q), b = cap::c(t); GIVES(LNLIB_NURBSCUR_create_cubic_hermite(a.data(), (int)a.size(), b.data(), (int)b.size(), &o)) }
    static bool CreateArc(const XYZ& m, const XYZ& x, const XYZ& y, double a, double b, double rx, double ry, OUT) GIVESIF(LNLIB_NURBSCUR_create_arc(cap::c(m), cap::c(x), cap::c(y), a, b, rx, ry, &o))
    static bool CreateOneConicArc(const XYZ& a, const XYZ& ta, const XYZ& b, const XYZ& tb, const XYZ& q, XYZ& pp, double& w)
    {
        XYZ_C o; double v = 0; int ok = LNLIB_NURBSCUR_create_one_conic_arc(cap::c(a), cap::c(ta), cap::c(b), cap::c(tb), cap::c(q), &o, &v); pp = cap::l(o); w = v; return ok == 1;
    }
    static void SplitArc(const XYZ& a, const XYZ& pp, double w, const XYZ& b, XYZ& q1, XYZ& s, XYZ& r1, double& v)
    {
        XYZ_C x, y, z; LNLIB_NURBSCUR_split_arc(cap::c(a), cap::c(pp), w, cap::c(b), &x, &y, &z, &v); q1 = cap::l(x); s = cap::l(y); r1 = cap::l(z);
    }
    static bool CreateOpenConic(const XYZ& a, const XYZ& ta, const XYZ& b, const XYZ& tb, const XYZ& q, OUT) GIVESIF(LNLIB_NURBSCUR_create_open_conic(cap::c(a), cap::c(ta), cap::c(b), cap::c(tb), cap::c(q), &o))
    static void GlobalInterpolation(int p, const Pts& q, OUT) { auto a = cap::c(q); GIVES(LNLIB_NURBSCUR_global_interpolation(p, a.data(), (int)a.size(), &o)) }
    static void GlobalInterpolation(int p, const Pts& q, OUT, const std::vector<double>& par) { LNLib::NurbsCurve::GlobalInterpolation(p, q, result, par); }
    static void GlobalInterpolation(int p, const Pts& q, const Pts& t, double f, OUT) { auto a = cap::c(q), b = cap::c(t); GIVES(LNLIB_NURBSCUR_global_interpolation_with_tangents(p, a.data(), b.data(), f, (int)a.size(), &o)) }
    static bool CubicLocalInterpolation(const Pts& q, OUT) { auto a = cap::c(q); GIVESIF(LNLIB_NURBSCUR_cubic_local_interpolation(a.data(), (int)a.size(), &o)) }
    static bool LeastSquaresApproximation(int p, const Pts& q, int n, OUT) { auto a = cap::c(q); GIVESIF(LNLIB_NURBSCUR_least_squares_approximation(p, a.data(), (int)a.size(), n, &o)) }
    static void GlobalApproximationByErrorBound(int p, const Pts& q, double eps, OUT) { auto a = cap::c(q); GIVES(LNLIB_NURBSCUR_global_approximation_by_error_bound(p, a.data(), (int)a.size(), eps, &o)) }
    static double ComputerRemoveKnotErrorBound(IN, int i) { return LNLIB_NURBSCUR_computer_remove_knot_error_bound(K, i); }
    static bool FitWithConic(const Pts& q, int i, int j, const XYZ& a, const XYZ& b, double eps, std::vector<XYZW>& mid)
    {
        auto v = cap::c(q); XYZW_C o[16]; int n = 0; int ok = LNLIB_NURBSCUR_fit_with_conic(v.data(), (int)v.size(), i, j, cap::c(a), cap::c(b), eps, o, &n); mid = cap::l(o, n); return ok == 1;
    }
    static bool FitWithCubic(const Pts& q, int i, int j, const XYZ& a, const XYZ& b, double eps, std::vector<XYZW>& mid)
    {
        auto v = cap::c(q); XYZW_C o[16]; int n = 0; int ok = LNLIB_NURBSCUR_fit_with_cubic(v.data(), (int)v.size(), i, j, cap::c(a), cap::c(b), eps, o, &n); mid = cap::l(o, n); return ok == 1;
    }
    static bool ControlPointReposition(IN, double t, int i, XYZ d, double s, OUT) GIVESIF(LNLIB_NURBSCUR_control_point_reposition(K, t, i, cap::c(d), s, &o))
    static void WeightModification(IN, double t, int i, double s, OUT) GIVES(LNLIB_NURBSCUR_weight_modification(K, t, i, s, &o))
    static bool NeighborWeightsModification(IN, double t, int i, double s, double sc, OUT) GIVESIF(LNLIB_NURBSCUR_neighbor_weights_modification(K, t, i, s, sc, &o))
    static void Warping(IN, const std::vector<double>& f, double d, const XYZ& n, double a, double b, OUT) GIVES(LNLIB_NURBSCUR_warping(K, f.data(), (int)f.size(), d, cap::c(n), a, b, &o))
    static bool Flattening(IN, XYZ p, XYZ q, double a, double b, OUT)
    {
        // the C function hands out nothing when too few control points are projected; the library does
        LNLib::NurbsCurve::Flattening(curve, p, q, a, b, result);
        GIVESIF(LNLIB_NURBSCUR_flattening(K, cap::c(p), cap::c(q), a, b, &o))
    }
    static void Bending(IN, double a, double b, XYZ m, double r, double cr, OUT) GIVES(LNLIB_NURBSCUR_bending(K, a, b, cap::c(m), r, cr, &o))
    static void ConstraintBasedModification(IN, const std::vector<double>& us, const Pts& D, const std::vector<int>& Dr, const std::vector<int>& Dk, const std::vector<int>& fix, OUT)
    {
        if (us.size() != D.size() || Dr.size() != D.size() || Dk.size() != D.size()) { LNLib::NurbsCurve::ConstraintBasedModification(curve, us, D, Dr, Dk, fix, result); return; }
        auto d = cap::c(D);
        GIVES(LNLIB_NURBSCUR_constraint_based_modification(K, us.data(), d.data(), Dr.data(), Dk.data(), fix.data(), (int)us.size(), (int)fix.size(), &o))
    }
    static void ToClampCurve(IN, OUT) GIVES(LNLIB_NURBSCUR_to_clamp_curve(K, &o))
    static void ToUnclampCurve(IN, OUT) GIVES(LNLIB_NURBSCUR_to_unclamp_curve(K, &o))
};
#undef IN
#undef OUT
#undef K
#undef GIVES
#undef GIVESIF

#define IN const LN_NurbsSurface& surface
#define OUT LN_NurbsSurface& result
#define G cap::Sur(surface)
#define CU(k) cap::Cur(k)
#define GIVES(call) { LN_NurbsSurface_C o{}; call; result = cap::l(o); }
#define GIVESIF(call) { LN_NurbsSurface_C o{}; int okay = call; if (okay == 1) result = cap::l(o); return okay == 1; }
struct CapiNurbsSurface : public LNLib::NurbsSurface
{
    typedef LN_NurbsCurve Cv;
    typedef std::vector<std::vector<XYZ>> Grid;
    static XYZ GetPointOnSurface(IN, UV uv) { return cap::l(LNLIB_NURBSSUR_get_point_on_surface(G, cap::c(uv))); }
    static Grid ComputeRationalSurfaceDerivatives(IN, int d, UV uv)
    {
        auto b = cap::room3((d + 2) * (d + 2));
        int n = LNLIB_NURBSSUR_compute_rational_surface_derivatives(G, d, cap::c(uv), b.data());
        Grid r;
        if (n == (d + 1) * (d + 1)) for (int i = 0; i <= d; i++) r.push_back(cap::l(b.data() + i * (d + 1), d + 1));
        return r;
    }
    static void ComputeRationalSurfaceFirstOrderDerivative(IN, UV uv, XYZ& S, XYZ& Su, XYZ& Sv)
    {
        XYZ_C x, y, z; LNLIB_NURBSSUR_compute_rational_surface_first_order_derivative(G, cap::c(uv), &x, &y, &z); S = cap::l(x); Su = cap::l(y); Sv = cap::l(z);
    }
    static double Curvature(IN, SurfaceCurvature k, UV uv) { return LNLIB_NURBSSUR_curvature(G, (int)k, cap::c(uv)); }
    static XYZ Normal(IN, UV uv) { return cap::l(LNLIB_NURBSSUR_Normal(G, cap::c(uv))); }
    static void Swap(IN, OUT) GIVES(LNLIB_NURBSSUR_swap(G, &o))
    static void Reverse(IN, SurfaceDirection d, OUT) GIVES(LNLIB_NURBSSUR_reverse(G, (int)d, &o))
    static bool IsClosed(IN, bool isU) { return LNLIB_NURBSSUR_is_closed(G, isU) == 1; }
    static void InsertKnot(IN, double u, int t, bool isU, OUT) GIVES(LNLIB_NURBSSUR_insert_knot(G, u, t, isU, &o))
    static void RefineKnotVector(IN, const std::vector<double>& X, bool isU, OUT) GIVES(LNLIB_NURBSSUR_refine_knot_vector(G, X.data(), (int)X.size(), isU, &o))
    static void RemoveKnot(IN, double u, int t, bool isU, OUT) GIVES(LNLIB_NURBSSUR_remove_knot(G, u, t, isU, &o))
    static void ElevateDegree(IN, int t, bool isU, OUT) GIVES(LNLIB_NURBSSUR_elevate_degree(G, t, isU, &o))
    static bool ReduceDegree(IN, bool isU, OUT) GIVESIF(LNLIB_NURBSSUR_reduce_degree(G, isU, &o))
    static std::vector<LN_NurbsSurface> DecomposeToBeziers(IN)
    {
        std::vector<LN_NurbsSurface_C> o(400);
        int n = LNLIB_NURBSSUR_decompose_to_beziers(G, o.data(), 400);
        std::vector<LN_NurbsSurface> r;
        for (int i = 0; i < n; i++) r.push_back(cap::l(o[i]));
        if (n > 1) { o[n - 1].degree_u = -7; if (LNLIB_NURBSSUR_decompose_to_beziers(G, o.data(), n - 1) != n - 1 || o[n - 1].degree_u != -7) r.clear(); }
        return r;
    }
    static void EquallyTessellate(IN, std::vector<XYZ>& pts, std::vector<UV>& ks)
    {
        const int Room = 400000;
        auto p = cap::room3(Room); auto k = cap::room2(Room);
        LNLIB_NURBSSUR_equally_tessellate(G, p.data(), k.data(), Room);
        int n = 0, m = 0;
        while (n < Room && !std::isnan(p[n].x)) n++;
        while (m < Room && !std::isnan(k[m].u)) m++;
        pts = cap::l(p.data(), n); ks = cap::l(k.data(), m);
        if (n > 1)
        {
            auto p2 = cap::room3(n); auto k2 = cap::room2(n);
            LNLIB_NURBSSUR_equally_tessellate(G, p2.data(), k2.data(), n - 1);
            if (!std::isnan(p2[n - 1].x) || !std::isnan(k2[n - 1].u) || std::isnan(p2[n - 2].x) || std::isnan(k2[n - 2].u)) pts.clear();
        }
    }
    static UV GetParamOnSurface(IN, const XYZ& q) { return cap::l(LNLIB_NURBSSUR_get_param_on_surface(G, cap::c(q))); }
    static bool GetUVTangent(IN, const UV uv, const XYZ& t, UV& r) { UV_C o{}; int b = LNLIB_NURBSSUR_get_uv_tangent(G, cap::c(uv), cap::c(t), &o); if (b == 1) r = cap::l(o); return b == 1; }
    static void Reparametrize(IN, double a, double b, double c, double d, OUT) GIVES(LNLIB_NURBSSUR_reparametrize(G, a, b, c, d, &o))
    static void CreateBilinearSurface(const XYZ& a, const XYZ& b, const XYZ& c, const XYZ& d, OUT) GIVES(LNLIB_NURBSSUR_create_bilinear_surface(cap::c(a), cap::c(b), cap::c(c), cap::c(d), &o))
    static bool CreateCylindricalSurface(const XYZ& m, const XYZ& x, const XYZ& y, double a, double b, double r, double h, OUT) GIVESIF(LNLIB_NURBSSUR_create_cylindrical_surface(cap::c(m), cap::c(x), cap::c(y), a, b, r, h, &o))
    static void CreateRuledSurface(const Cv& a, const Cv& b, OUT) GIVES(LNLIB_NURBSSUR_create_ruled_surface(CU(a), CU(b), &o))
    static bool CreateRevolvedSurface(const XYZ& m, const XYZ& ax, double rad, const Cv& k, OUT) GIVESIF(LNLIB_NURBSSUR_create_revolved_surface(cap::c(m), cap::c(ax), rad, CU(k), &o))
    static std::vector<std::vector<XYZW>> NonUniformScaling(const std::vector<std::vector<XYZW>>& P, double x, double y, double z, const XYZ& m)
    {
        auto f = cap::flat(P); XYZW_C* o = nullptr; int n = 0, k = 0;
        LNLIB_NURBSSUR_non_uniform_scaling_query_size(f.data(), (int)P.size(), (int)P[0].size(), x, y, z, cap::c(m), &o, &n, &k);
        std::vector<std::vector<XYZW>> r;
        for (int i = 0; i < n; i++) r.push_back(cap::l(o + i * k, k));
        delete[] o;
        return r;
    }
    static void GlobalInterpolation(const Grid& q, int pu, int pv, OUT) { auto f = cap::flat(q); GIVES(LNLIB_NURBSSUR_global_interpolation(f.data(), (int)q.size(), (int)q[0].size(), pu, pv, &o)) }
    static bool BicubicLocalInterpolation(const Grid& q, OUT) { auto f = cap::flat(q); GIVESIF(LNLIB_NURBSSUR_bicubic_local_interpolation(f.data(), (int)q.size(), (int)q[0].size(), &o)) }
    static bool GlobalApproximation(const Grid& q, int pu, int pv, int nu, int nv, OUT) { auto f = cap::flat(q); GIVESIF(LNLIB_NURBSSUR_global_approximation(f.data(), (int)q.size(), (int)q[0].size(), pu, pv, nu, nv, &o)) }
    static void CreateLoftSurface(const std::vector<Cv>& cs, OUT, int q = 0, const std::vector<double>& kv = {})
    {
        std::vector<cap::Cur> keep(cs.begin(), cs.end()); std::vector<LN_NurbsCurve_C> k(keep.begin(), keep.end());
        GIVES(LNLIB_NURBSSUR_create_loft_surface(k.data(), (int)k.size(), &o, q, kv.empty() ? nullptr : kv.data(), (int)kv.size()))
    }
    static void CreateGeneralizedTranslationalSweepSurface(const Cv& a, const Cv& b, OUT) GIVES(LNLIB_NURBSSUR_create_generalized_translational_sweep_surface(CU(a), CU(b), &o))
    static void CreateSweepSurface(const Cv& a, const Cv& b, int n, OUT) GIVES(LNLIB_NURBSSUR_create_sweep_surface(CU(a), CU(b), n, &o))
    static void CreateSweepSurface(const Cv& a, const Cv& b, int n, int q, OUT) GIVES(LNLIB_NURBSSUR_create_sweep_surface_by_trajectory_degree(CU(a), CU(b), n, q, &o))
    static void CreateGordonSurface(const std::vector<Cv>& a, const std::vector<Cv>& b, const Grid& q, OUT)
    {
        std::vector<cap::Cur> ka(a.begin(), a.end()), kb(b.begin(), b.end()); std::vector<LN_NurbsCurve_C> x(ka.begin(), ka.end()), y(kb.begin(), kb.end());
        auto f = cap::flat(q);
        GIVES(LNLIB_NURBSSUR_create_gordon_surface(x.data(), (int)x.size(), y.data(), (int)y.size(), f.data(), &o))
    }
    static void CreateCoonsSurface(const Cv& a, const Cv& b, const Cv& c, const Cv& d, OUT) GIVES(LNLIB_NURBSSUR_create_coons_surface(CU(a), CU(b), CU(c), CU(d), &o))
    static double ApproximateArea(IN, IntegratorType k) { return LNLIB_NURBSSUR_approximate_area(G, (int)k); }
    static LN_Mesh Triangulate(IN, int nu, int nv, bool del)
    {
        LNLIB_Mesh_C m = LNLIB_NURBSSUR_triangulate(G, nu, nv, del);
        LN_Mesh r;
        r.Vertices = cap::l(m.vertices, m.vertices_count);
        for (int i = 0; i + 2 < m.facets_count; i += 3) r.Faces.push_back({ m.facets[i], m.facets[i + 1], m.facets[i + 2] });
        r.UVs = cap::l(m.uvs, m.uvs_count);
        r.UVIndices.assign(m.uv_indices, m.uv_indices + m.uv_indices_count);
        r.Normals = cap::l(m.normals, m.normals_count);
        r.NormalIndices.assign(m.normal_indices, m.normal_indices + m.normal_indices_count);
        return r;
    }
};
#undef IN
#undef OUT
#undef G
#undef CU
#undef GIVES
#undef GIVESIF

struct CapiBezierCurve : public LNLib::BezierCurve
{
    static XYZ GetPointOnCurveByBernstein(const LN_BezierCurve<XYZ>& k, double t) { auto v = cap::c(k.ControlPoints); return cap::l(LNLIB_BEZIERCUR_get_point_on_curve_by_bernstein(k.Degree, v.data(), (int)v.size(), t)); }
    static XYZW GetPointOnCurveByBernstein(const LN_BezierCurve<XYZW>& k, double t) { auto v = cap::c(k.ControlPoints); return cap::l(LNLIB_BEZIERCUR_get_rational_point_on_curve_by_bernstein(k.Degree, v.data(), (int)v.size(), t)); }
    static XYZ GetPointOnCurveByDeCasteljau(const LN_BezierCurve<XYZ>& k, double t) { auto v = cap::c(k.ControlPoints); return cap::l(LNLIB_BEZIERCUR_get_point_on_curve_by_deCasteljau(k.Degree, v.data(), (int)v.size(), t)); }
    static XYZW GetPointOnCurveByDeCasteljau(const LN_BezierCurve<XYZW>& k, double t) { auto v = cap::c(k.ControlPoints); return cap::l(LNLIB_BEZIERCUR_get_rational_point_on_curve_by_deCasteljau(k.Degree, v.data(), (int)v.size(), t)); }
};
struct CapiBezierSurface : public LNLib::BezierSurface
{
    static XYZ GetPointOnSurfaceByDeCasteljau(const LN_BezierSurface<XYZ>& s, UV uv) { auto v = cap::flat(s.ControlPoints); return cap::l(LNLIB_BEZIERSURF_get_point_on_surface_by_deCasteljau(s.DegreeU, s.DegreeV, v.data(), (int)s.ControlPoints.size(), (int)s.ControlPoints[0].size(), cap::c(uv))); }
    static XYZW GetPointOnSurfaceByDeCasteljau(const LN_BezierSurface<XYZW>& s, UV uv) { auto v = cap::flat(s.ControlPoints); return cap::l(LNLIB_BEZIERSURF_get_rational_point_on_surface_by_deCasteljau(s.DegreeU, s.DegreeV, v.data(), (int)s.ControlPoints.size(), (int)s.ControlPoints[0].size(), cap::c(uv))); }
};
struct CapiInterpolation : public LNLib::Interpolation
{
    typedef std::vector<XYZ> Pts;
    typedef std::vector<double> Dv;
    static double GetTotalChordLength(const Pts& q) { auto v = cap::c(q); return LNLIB_INTERPOLATION_get_total_chord_length(v.data(), (int)v.size()); }
    static double GetCentripetalLength(const Pts& q) { auto v = cap::c(q); return LNLIB_INTERPOLATION_get_centripetal_length(v.data(), (int)v.size()); }
    static Dv GetChordParameterization(const Pts& q) { auto v = cap::c(q); auto b = cap::room1(); int n = 0; LNLIB_INTERPOLATION_get_chord_parameterization(v.data(), (int)v.size(), b.data(), &n); return cap::l(b.data(), n); }
    static Dv GetCentripetalParameterization(const Pts& q) { auto v = cap::c(q); auto b = cap::room1(); int n = 0; LNLIB_INTERPOLATION_get_centripetal_parameterization(v.data(), (int)v.size(), b.data(), &n); return cap::l(b.data(), n); }
    static Dv AverageKnotVector(int p, Dv u) { auto b = cap::room1(); int n = 0; LNLIB_INTERPOLATION_average_knot_vector(p, u.data(), (int)u.size(), b.data(), &n); return cap::l(b.data(), n); }
    static Dv ComputeKnotVector(int p, int k, Dv u) { auto b = cap::room1(); int n = 0; LNLIB_INTERPOLATION_compute_knot_vector(p, k, u.data(), (int)u.size(), b.data(), &n); return cap::l(b.data(), n); }
    static bool GetSurfaceMeshParameterization(const std::vector<Pts>& q, Dv& u, Dv& v)
    {
        auto f = cap::flat(q); auto a = cap::room1(), b = cap::room1(); int n = 0, m = 0;
        int ok = LNLIB_INTERPOLATION_get_surface_mesh_parameterization(f.data(), (int)q.size(), (int)q[0].size(), a.data(), &n, b.data(), &m);
        u = cap::l(a.data(), n); v = cap::l(b.data(), m);
        return ok == 1;
    }
    static Pts ComputeTangent(const Pts& q) { auto v = cap::c(q); auto b = cap::room3(); int n = 0; LNLIB_INTERPOLATION_compute_tangent_by_three_points(v.data(), (int)v.size(), b.data(), &n); return cap::l(b.data(), n); }
    static bool ComputeTangent(const Pts& q, Pts& t) { auto v = cap::c(q); auto b = cap::room3(); int n = 0; int ok = LNLIB_INTERPOLATION_compute_tangent_by_five_points(v.data(), (int)v.size(), b.data(), &n); t = cap::l(b.data(), n); return ok == 1; }
};
struct CapiIntersection
{
    static CurveCurveIntersectionType ComputeRays(const XYZ& p0, const XYZ& v0, const XYZ& p1, const XYZ& v1, double& t0, double& t1, XYZ& p)
    {
        XYZ_C o{};
        int k = LNLIB_INTERSECT_compute_rays(cap::c(p0), cap::c(v0), cap::c(p1), cap::c(v1), &t0, &t1, &o);
        p = cap::l(o);
        return k == CURVE_CURVE_INTERSECTING ? CurveCurveIntersectionType::Intersecting : k == CURVE_CURVE_PARALLEL ? CurveCurveIntersectionType::Parallel : k == CURVE_CURVE_COINCIDENT ? CurveCurveIntersectionType::Coincident : CurveCurveIntersectionType::Skew;
    }
    static LinePlaneIntersectionType ComputeLineAndPlane(const XYZ& n, const XYZ& m, const XYZ& q, const XYZ& d, XYZ& p)
    {
        XYZ_C o{};
        int k = LNLIB_INTERSECT_compute_line_and_plane(cap::c(n), cap::c(m), cap::c(q), cap::c(d), &o);
        p = cap::l(o);
        return k == LINE_PLANE_INTERSECTING ? LinePlaneIntersectionType::Intersecting : k == LINE_PLANE_PARALLEL ? LinePlaneIntersectionType::Parallel : LinePlaneIntersectionType::On;
    }
};
struct CapiProjection
{
    static XYZ PointToRay(const XYZ& a, const XYZ& d, const XYZ& q) { return cap::l(LNLIB_PROJ_point_to_ray(cap::c(a), cap::c(d), cap::c(q))); }
    static bool PointToLine(const XYZ& a, const XYZ& b, const XYZ& q, XYZ& p) { XYZ_C o{}; int ok = LNLIB_PROJ_point_to_line(cap::c(a), cap::c(b), cap::c(q), &o); p = cap::l(o); return ok == 1; }
    static XYZ Stereographic(const XYZ& q, double r) { return cap::l(LNLIB_PROJ_stereographic(cap::c(q), r)); }
};
struct CapiKnotVectorUtils : public LNLib::KnotVectorUtils
{
    typedef std::vector<double> Dv;
    static int GetContinuity(int p, const Dv& U, double u) { return LNLIB_KV_get_continuity(p, U.data(), (int)U.size(), u); }
    static Dv Rescale(const Dv& U, double a, double b) { auto r = cap::room1((int)U.size()); LNLIB_KV_rescale(U.data(), (int)U.size(), a, b, r.data()); return r; }
    static bool IsUniform(const Dv& U) { return LNLIB_KV_is_uniform(U.data(), (int)U.size()) == 1; }
    static std::map<double, int> GetKnotMultiplicityMap(const Dv& U)
    {
        auto k = cap::room1((int)U.size() + 1); std::vector<int> v(U.size() + 1, -1); int n = 0;
        LNLIB_KV_get_knot_multiplicity_map(U.data(), (int)U.size(), &n, k.data(), v.data());
        std::map<double, int> r; for (int i = 0; i < n; i++) r[k[i]] = v[i];
        return r;
    }
    static std::map<double, int> GetInternalKnotMultiplicityMap(const Dv& U)
    {
        auto k = cap::room1((int)U.size() + 1); std::vector<int> v(U.size() + 1, -1); int n = 0;
        LNLIB_KV_get_internal_knot_multiplicity_map(U.data(), (int)U.size(), &n, k.data(), v.data());
        std::map<double, int> r; for (int i = 0; i < n; i++) r[k[i]] = v[i];
        return r;
    }
};
struct CapiValidationUtils : public LNLib::ValidationUtils
{
    static bool IsValidKnotVector(const std::vector<double>& U) { return LNLIB_VALID_is_valid_knotVector(U.data(), (int)U.size()) == 1; }
    static bool IsValidBezier(int p, int n) { return LNLIB_VALID_is_valid_bezier(p, n) == 1; }
    static bool IsValidBspline(int p, int k, int n) { return LNLIB_VALID_is_valid_bspline(p, k, n) == 1; }
    static bool IsValidNurbs(int p, int k, int n) { return LNLIB_VALID_is_valid_nurbs(p, k, n) == 1; }
    static double ComputeCurveModifyTolerance(const std::vector<XYZW>& P) { auto v = cap::c(P); return LNLIB_VALID_compute_curve_modify_tolerance(v.data(), (int)v.size()); }
};
struct CapiPolynomials : public LNLib::Polynomials
{
    typedef std::vector<double> Dv;
    typedef std::vector<Dv> Grid;
    static Grid take(double* p, int n, int m) { Grid r = cap::grid(p, n, m); delete[] p; return r; }
    static double Bernstein(int i, int p, double t) { return LNLIB_POLY_bernstein(i, p, t); }
    static Dv AllBernstein(int p, double t) { auto r = cap::room1(p + 1); LNLIB_POLY_all_bernstein(p, t, r.data()); return r; }
    static double Horner(int p, const Dv& a, double t) { return LNLIB_POLY_horner(p, a.data(), (int)a.size(), t); }
    static double Horner(int p, int q, const Grid& a, UV& uv) { auto f = cap::flat(a); UV_C k = cap::c(uv); double r = cap::None; LNLIB_POLY_horner_uv(p, q, f.data(), &k, &r); return r; }
    static int GetKnotSpanIndex(int p, const Dv& U, double u) { return LNLIB_POLY_get_knot_span_index(p, U.data(), (int)U.size(), u); }
    static int GetKnotMultiplicity(const Dv& U, double u) { return LNLIB_POLY_get_knot_multiplicity(U.data(), (int)U.size(), u); }
    static void BasisFunctions(int k, int p, const Dv& U, double u, double* N) { LNLIB_POLY_basis_functions(k, p, U.data(), (int)U.size(), u, N); }
    static Grid BasisFunctionsDerivatives(int k, int p, int d, const Dv& U, double u) { double* o = nullptr; int n = 0, m = 0; LNLIB_POLY_basis_functions_derivatives(k, p, d, U.data(), (int)U.size(), u, &o, &n, &m); return take(o, n, m); }
    static void BasisFunctionsFirstOrderDerivative(int k, int p, const Dv& U, double u, double D[2][Constants::NURBSMaxDegree + 1]) { LNLIB_POLY_basis_functions_first_derivative(k, p, U.data(), (int)U.size(), u, &D[0][0]); }
    static double OneBasisFunction(int i, int p, const Dv& U, double u) { return LNLIB_POLY_one_basis_function(i, p, U.data(), (int)U.size(), u); }
    static Dv OneBasisFunctionDerivative(int i, int p, int d, const Dv& U, double u) { double* o = nullptr; int n = 0; LNLIB_POLY_one_basis_function_derivative(i, p, d, U.data(), (int)U.size(), u, &o, &n); Dv r = cap::l(o, n); delete[] o; return r; }
    static Grid AllBasisFunctions(int k, int p, const Dv& U, double u) { double* o = nullptr; int n = 0, m = 0; LNLIB_POLY_all_basis_functions(k, p, U.data(), (int)U.size(), u, &o, &n, &m); return take(o, n, m); }
    static Grid BezierToPowerMatrix(int p) { double* o = nullptr; int n = 0, m = 0; LNLIB_POLY_bezier_to_power_matrix(p, &o, &n, &m); return take(o, n, m); }
    static Grid PowerToBezierMatrix(int p, const Grid& a) { auto f = cap::flat(a); double* o = nullptr; int n = 0, m = 0; LNLIB_POLY_power_to_bezier_matrix(p, f.data(), &o, &n, &m); return take(o, n, m); }
};
// a matrix whose members are the C functions
struct CapiMatrix4d : public LNLib::Matrix4d
{
    typedef CapiMatrix4d M;
    CapiMatrix4d() { *this = M(cap::l(LNLIB_MATRIX_create())); }
    CapiMatrix4d(const LNLib::Matrix4d& m) : LNLib::Matrix4d(m) {}
    CapiMatrix4d(XYZ x, XYZ y, XYZ z, XYZ o) : LNLib::Matrix4d(cap::l(LNLIB_MATRIX_create_from_xyz(cap::c(x), cap::c(y), cap::c(z), cap::c(o)))) {}
    CapiMatrix4d(double a, double b, double c, double d, double e, double f, double g, double h, double i, double j, double k, double l, double m, double n, double o, double p)
        : LNLib::Matrix4d(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p) {}
    static M CreateReflection(const XYZ& n, double d) { return cap::l(LNLIB_MATRIX_create_reflection_by_distance(cap::c(n), d)); }
    static M CreateReflection(const XYZ& n) { return cap::l(LNLIB_MATRIX_create_reflection(cap::c(n))); }
    static M CreateRotation(const XYZ& a, double t) { return cap::l(LNLIB_MATRIX_create_rotation(cap::c(a), t)); }
    static M CreateRotationAtPoint(const XYZ& o, const XYZ& a, double t) { return cap::l(LNLIB_MATRIX_create_rotation_at_point(cap::c(o), cap::c(a), t)); }
    static M CreateTranslation(const XYZ& v) { return cap::l(LNLIB_MATRIX_create_translation(cap::c(v))); }
    static M CreateScale(const XYZ& v) { return cap::l(LNLIB_MATRIX_create_scale(cap::c(v))); }
    void SetBasisX(const XYZ& v) { *this = M(cap::l(LNLIB_MATRIX_set_basis_x(cap::c(*this), cap::c(v)))); }
    void SetBasisY(const XYZ& v) { *this = M(cap::l(LNLIB_MATRIX_set_basis_y(cap::c(*this), cap::c(v)))); }
    void SetBasisZ(const XYZ& v) { *this = M(cap::l(LNLIB_MATRIX_set_basis_z(cap::c(*this), cap::c(v)))); }
    void SetBasisW(const XYZ& v) { *this = M(cap::l(LNLIB_MATRIX_set_basis_w(cap::c(*this), cap::c(v)))); }
    XYZ GetBasisX() const { return cap::l(LNLIB_MATRIX_get_basis_x(cap::c(*this))); }
    XYZ GetBasisY() const { return cap::l(LNLIB_MATRIX_get_basis_y(cap::c(*this))); }
    XYZ GetBasisZ() const { return cap::l(LNLIB_MATRIX_get_basis_z(cap::c(*this))); }
    XYZ GetBasisW() const { return cap::l(LNLIB_MATRIX_get_basis_w(cap::c(*this))); }
    M Multiply(const LNLib::Matrix4d& r) { return cap::l(LNLIB_MATRIX_multiply(cap::c(*this), cap::c(r))); }
    XYZ OfPoint(const XYZ& q) { return cap::l(LNLIB_MATRIX_of_point(cap::c(*this), cap::c(q))); }
    XYZ OfVector(const XYZ& q) { return cap::l(LNLIB_MATRIX_of_vector(cap::c(*this), cap::c(q))); }
    bool GetInverse(CapiMatrix4d& inv) { Matrix4d_C o = cap::c(inv); int b = LNLIB_MATRIX_get_inverse(cap::c(*this), &o); inv = M(cap::l(o)); return b == 1; }
    M GetTranspose() { return cap::l(LNLIB_MATRIX_get_transpose(cap::c(*this))); }
    XYZ GetScale() { return cap::l(LNLIB_MATRIX_get_scale(cap::c(*this))); }
    double GetDeterminant() { return LNLIB_MATRIX_get_determinant(cap::c(*this)); }
    bool IsIdentity() { return LNLIB_MATRIX_is_identity(cap::c(*this)) == 1; }
    bool HasReflection() { return LNLIB_MATRIX_has_reflection(cap::c(*this)) == 1; }
    bool IsTranslation() { return LNLIB_MATRIX_is_translation(cap::c(*this)) == 1; }
};
// vectors whose members are the C functions
struct CapiXYZ : public LNLib::XYZ
{
    typedef CapiXYZ T;
    
    CapiXYZ() {}
    CapiXYZ(const LNLib::XYZ& v) : LNLib::XYZ(v) {}
    CapiXYZ(double x, double y, double z) : LNLib::XYZ(cap::l(LNLIB_XYZ_create(x, y, z))) {}
    XYZ_C k() const { return cap::c((const LNLib::XYZ&)*this); }
    double X() const { return LNLIB_XYZ_get_x(k()); } double Y() const { return LNLIB_XYZ_get_y(k()); } double Z() const { return LNLIB_XYZ_get_z(k()); }
    void SetX(double d) { *this = T(cap::l(LNLIB_XYZ_set_x(k(), d))); } void SetY(double d) { *this = T(cap::l(LNLIB_XYZ_set_y(k(), d))); } void SetZ(double d) { *this = T(cap::l(LNLIB_XYZ_set_z(k(), d))); }
    T Add(const T& q) const { return cap::l(LNLIB_XYZ_add(k(), q.k())); }
    T Substract(const T& q) const { return cap::l(LNLIB_XYZ_subtract(k(), q.k())); }
    T Negative() const { return cap::l(LNLIB_XYZ_negative(k())); }
    double DotProduct(const T& q) const { return LNLIB_XYZ_dot_product(k(), q.k()); }
    T CrossProduct(const T& q) const { return cap::l(LNLIB_XYZ_cross_product(k(), q.k())); }
    double Distance(const T& q) const { return LNLIB_XYZ_distance(k(), q.k()); }
    double Length() const { return LNLIB_XYZ_length(k()); }
    double SqrLength() const { return LNLIB_XYZ_sqr_length(k()); }
    double AngleTo(const T& q) const { return LNLIB_XYZ_angle_to(k(), q.k(), Constants::DoubleEpsilon); }
    T Normalize() const { return cap::l(LNLIB_XYZ_normalize(k())); }
    bool IsZero(double eps = Constants::DoubleEpsilon) const { return LNLIB_XYZ_is_zero(k(), eps) == 1; }
    bool IsUnit(double eps = Constants::DoubleEpsilon) const { return LNLIB_XYZ_is_unit(k(), eps) == 1; }
    bool IsAlmostEqualTo(const T& q, double eps = Constants::DoubleEpsilon) const { return LNLIB_XYZ_is_almost_equal(k(), q.k(), eps) == 1; }
    using LNLib::XYZ::operator*;
    T operator*(double d) const { return cap::l(LNLIB_XYZ_multiply(k(), d)); }
    T operator/(double d) const { return cap::l(LNLIB_XYZ_divide(k(), d)); }
    static T CreateRandomOrthogonal(const LNLib::XYZ& v) { return cap::l(LNLIB_XYZ_create_random_orthogonal(cap::c(v))); }
};
struct CapiUV : public LNLib::UV
{
    typedef CapiUV T;
    CapiUV() {}
    CapiUV(const LNLib::UV& v) : LNLib::UV(v) {}
    CapiUV(double u, double v) : LNLib::UV(cap::l(LNLIB_UV_create(u, v))) {}
    UV_C k() const { return cap::c((const LNLib::UV&)*this); }
    double U() const { return LNLIB_UV_get_u(k()); } double V() const { return LNLIB_UV_get_v(k()); }
    void SetU(double d) { *this = T(cap::l(LNLIB_UV_set_u(k(), d))); } void SetV(double d) { *this = T(cap::l(LNLIB_UV_set_v(k(), d))); }
    T Add(const T& q) const { return cap::l(LNLIB_UV_add(k(), q.k())); }
    T Substract(const T& q) const { return cap::l(LNLIB_UV_subtract(k(), q.k())); }
    T Negative() const { return cap::l(LNLIB_UV_negative(k())); }
    double DotProduct(const T& q) const { return LNLIB_UV_dot_product(k(), q.k()); }
    double CrossProduct(const T& q) const { return LNLIB_UV_cross_product(k(), q.k()); }
    double Distance(const T& q) const { return LNLIB_UV_distance(k(), q.k()); }
    double Length() const { return LNLIB_UV_length(k()); }
    double SqrLength() const { return LNLIB_UV_sqr_length(k()); }
    T Normalize() const { return cap::l(LNLIB_UV_normalize(k())); }
    bool IsZero(double eps = Constants::DoubleEpsilon) const { return LNLIB_UV_is_zero(k(), eps) == 1; }
    bool IsUnit(double eps = Constants::DoubleEpsilon) const { return LNLIB_UV_is_unit(k(), eps) == 1; }
    bool IsAlmostEqualTo(const T& q, double eps = Constants::DoubleEpsilon) const { return LNLIB_UV_is_almost_equal(k(), q.k(), eps) == 1; }
    using LNLib::UV::operator*;
    T operator*(double d) const { return cap::l(LNLIB_UV_scale(k(), d)); }
    T operator/(double d) const { return cap::l(LNLIB_UV_divide(k(), d)); }
};
struct CapiXYZW : public LNLib::XYZW
{
    typedef CapiXYZW T;
    CapiXYZW() {}
    CapiXYZW(const LNLib::XYZW& v) : LNLib::XYZW(v) {}
    CapiXYZW(double x, double y, double z, double w) : LNLib::XYZW(cap::l(LNLIB_XYZW_create(x, y, z, w))) {}
    CapiXYZW(const LNLib::XYZ& p, double w) : LNLib::XYZW(cap::l(LNLIB_XYZW_create_from_xyz(cap::c(p), w))) {}
    XYZW_C k() const { return cap::c((const LNLib::XYZW&)*this); }
    double WX() const { return LNLIB_XYZW_get_wx(k()); } double WY() const { return LNLIB_XYZW_get_wy(k()); } double WZ() const { return LNLIB_XYZW_get_wz(k()); } double W() const { return LNLIB_XYZW_get_w(k()); }
    void SetW(double w) { *this = T(cap::l(LNLIB_XYZW_set_w(k(), w))); }
    double Distance(const T& q) const { return LNLIB_XYZW_distance(k(), q.k()); }
    XYZ ToXYZ(bool d) const { return cap::l(LNLIB_XYZW_to_xyz(k(), d ? 1 : 0)); }
    T operator*(double d) const { return cap::l(LNLIB_XYZW_multiply(k(), d)); }
    T operator/(double d) const { return cap::l(LNLIB_XYZW_divide(k(), d)); }
    T operator+(const T& q) const { return cap::l(LNLIB_XYZW_add(k(), q.k())); }
    T operator-(const T& q) const { return cap::l(LNLIB_XYZW_subtract(k(), q.k())); }
};
#define NurbsCurve CapiNurbsCurve
#define NurbsSurface CapiNurbsSurface
#define BezierCurve CapiBezierCurve
#define BezierSurface CapiBezierSurface
#define Interpolation CapiInterpolation
#define Intersection CapiIntersection
#define Projection CapiProjection
#define KnotVectorUtils CapiKnotVectorUtils
#define ValidationUtils CapiValidationUtils
#define Polynomials CapiPolynomials
