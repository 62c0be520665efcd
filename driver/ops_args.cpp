// One call of one public function with the given arguments: was it refused, and was the result argument left alone?
#include "driver.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "BezierCurve.h"
#include "BezierSurface.h"
#include "BsplineCurve.h"
#include "BsplineSurface.h"
#include "Polynomials.h"
#include "KnotVectorUtils.h"
#include "Intersection.h"
#include "MathUtils.h"

namespace
{
struct Args
{
    LN_NurbsCurve c, c2; LN_NurbsSurface s;
    std::vector<int> i, I; std::vector<double> d, L, M; std::vector<XYZ> v, W; std::vector<std::vector<XYZ>> G;
    LN_NurbsCurve rc; LN_NurbsSurface rs;      // result arguments
    double D(int k) const { return d.at(k); }
    int N(int k) const { return i.at(k); }
    XYZ V(int k) const { return v.at(k); }
    bool u() const { return i.back() != 0; }
    UV uv() const { return UV(d.at(0), d.at(1)); }
};
template <class T> LN_BsplineCurve<T> bc(const LN_NurbsCurve& c);
template <> LN_BsplineCurve<XYZW> bc(const LN_NurbsCurve& c) { LN_BsplineCurve<XYZW> b; b.Degree = c.Degree; b.KnotVector = c.KnotVector; b.ControlPoints = c.ControlPoints; return b; }
LN_BezierCurve<XYZW> zc(const LN_NurbsCurve& c) { LN_BezierCurve<XYZW> b; b.Degree = c.Degree; b.ControlPoints = c.ControlPoints; return b; }
LN_BsplineSurface<XYZW> bs(const LN_NurbsSurface& s) { LN_BsplineSurface<XYZW> b; b.DegreeU = s.DegreeU; b.DegreeV = s.DegreeV; b.KnotVectorU = s.KnotVectorU; b.KnotVectorV = s.KnotVectorV; b.ControlPoints = s.ControlPoints; return b; }
LN_BezierSurface<XYZW> zs(const LN_NurbsSurface& s) { LN_BezierSurface<XYZW> b; b.DegreeU = s.DegreeU; b.DegreeV = s.DegreeV; b.ControlPoints = s.ControlPoints; return b; }
typedef std::function<void(Args&)> Fn;
#define F(name, ...) {name, [](Args& a) { __VA_ARGS__; }}
const std::map<std::string, Fn> calls = {
    // objects
    F("Check", NurbsCurve::Check(a.c)), F("CheckB", BsplineCurve::Check(bc<XYZW>(a.c))), F("CheckZ", BezierCurve::Check(zc(a.c))),
    F("SCheck", NurbsSurface::Check(a.s)), F("SCheckB", BsplineSurface::Check(bs(a.s))), F("SCheckZ", BezierSurface::Check(zs(a.s))),
    // curve evaluation
    F("Point", NurbsCurve::GetPointOnCurve(a.c, a.D(0))), F("CornerCut", NurbsCurve::GetPointOnCurveByCornerCut(a.c, a.D(0))),
    F("Ders", NurbsCurve::ComputeRationalCurveDerivatives(a.c, a.N(0), a.D(0))), F("Curvature", NurbsCurve::Curvature(a.c, a.D(0))),
    F("Torsion", NurbsCurve::Torsion(a.c, a.D(0))), F("Normal", NurbsCurve::Normal(a.c, CurveNormal::Normal, a.D(0))), F("Binormal", NurbsCurve::Normal(a.c, CurveNormal::Binormal, a.D(0))),
    F("BPoint", BsplineCurve::GetPointOnCurve(bc<XYZW>(a.c), a.D(0))), F("BDers", BsplineCurve::ComputeDerivatives(bc<XYZW>(a.c), a.N(0), a.D(0))),
    F("BDersAll", BsplineCurve::ComputeDerivativesByAllBasisFunctions(bc<XYZW>(a.c), a.N(0), a.D(0))),
    F("ZBernstein", BezierCurve::GetPointOnCurveByBernstein(zc(a.c), a.D(0))), F("ZCasteljau", BezierCurve::GetPointOnCurveByDeCasteljau(zc(a.c), a.D(0))),
    F("ZQuad", BezierCurve::GetPointOnQuadraticArc(XYZW(a.V(0), 1), XYZW(a.V(1), 1), XYZW(a.V(2), 1), a.D(0))),
    // surface evaluation
    F("SPoint", NurbsSurface::GetPointOnSurface(a.s, a.uv())), F("SDers", NurbsSurface::ComputeRationalSurfaceDerivatives(a.s, a.N(0), a.uv())),
    F("SDer1", XYZ p; XYZ q; XYZ r; NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(a.s, a.uv(), p, q, r)),
    F("SCurvature", NurbsSurface::Curvature(a.s, SurfaceCurvature::Gauss, a.uv())), F("SNormal", NurbsSurface::Normal(a.s, a.uv())),
    F("SBPoint", BsplineSurface::GetPointOnSurface(bs(a.s), a.uv())), F("SBDers", BsplineSurface::ComputeDerivatives(bs(a.s), a.N(0), a.uv())),
    F("SBDersAll", BsplineSurface::ComputeDerivativesByAllBasisFunctions(bs(a.s), a.N(0), a.uv())),
    F("SZCasteljau", BezierSurface::GetPointOnSurfaceByDeCasteljau(zs(a.s), a.uv())),
    // polynomials and knots
    F("Horner", Polynomials::Horner(a.N(0), a.L, a.D(0))), F("Bernstein", Polynomials::Bernstein(a.N(0), a.N(1), a.D(0))), F("AllBernstein", Polynomials::AllBernstein(a.N(0), a.D(0))),
    F("Multiplicity", Polynomials::GetKnotMultiplicity(a.L, a.D(0))), F("Span", Polynomials::GetKnotSpanIndex(a.N(0), a.L, a.D(0))),
    F("Basis", double b[Constants::NURBSMaxDegree + 1]; Polynomials::BasisFunctions(a.N(1), a.N(0), a.L, a.D(0), b)),
    F("BasisDers", Polynomials::BasisFunctionsDerivatives(a.N(1), a.N(0), a.N(2), a.L, a.D(0))),
    F("BasisDer1", double b[2][Constants::NURBSMaxDegree + 1]; Polynomials::BasisFunctionsFirstOrderDerivative(a.N(1), a.N(0), a.L, a.D(0), b)),
    F("One", Polynomials::OneBasisFunction(a.N(1), a.N(0), a.L, a.D(0))), F("OneDers", Polynomials::OneBasisFunctionDerivative(a.N(1), a.N(0), a.N(2), a.L, a.D(0))),
    F("All", Polynomials::AllBasisFunctions(a.N(1), a.N(0), a.L, a.D(0))),
    F("Continuity", KnotVectorUtils::GetContinuity(a.N(0), a.L, a.D(0))), F("KvClampInsert", KnotVectorUtils::GetInsertedKnotElement(a.N(0), a.L, a.D(0), a.D(1))),
    // curve operations
    F("InsertKnot", NurbsCurve::InsertKnot(a.c, a.D(0), a.N(0), a.rc)), F("Refine", NurbsCurve::RefineKnotVector(a.c, a.L, a.rc)),
    F("RemoveKnot", NurbsCurve::RemoveKnot(a.c, a.D(0), a.N(0), a.rc)), F("Elevate", NurbsCurve::ElevateDegree(a.c, a.N(0), a.rc)),
    F("Moebius", NurbsCurve::Reparametrize(a.c, a.D(0), a.D(1), a.D(2), a.D(3), a.rc)), F("Extract", NurbsCurve::Extract(a.c, a.D(0), a.D(1), a.rc)),
    F("RemovalError", NurbsCurve::ComputerRemoveKnotErrorBound(a.c, a.N(0))),
    F("RemoveErr", std::vector<double> m = a.M; NurbsCurve::RemoveKnotsByGivenBound(a.c, a.L, m, a.D(0), a.rc)),
    F("Reposition", NurbsCurve::ControlPointReposition(a.c, a.D(0), a.N(0), a.V(0), a.D(1), a.rc)), F("WeightMod", NurbsCurve::WeightModification(a.c, a.D(0), a.N(0), a.D(1), a.rc)),
    F("NeighborMod", NurbsCurve::NeighborWeightsModification(a.c, a.D(0), a.N(0), a.D(1), a.D(2), a.rc)),
    F("Warp", NurbsCurve::Warping(a.c, a.L, a.D(0), a.V(0), a.D(1), a.D(2), a.rc)), F("Flatten", NurbsCurve::Flattening(a.c, a.V(0), a.V(1), a.D(0), a.D(1), a.rc)),
    F("Bend", NurbsCurve::Bending(a.c, a.D(0), a.D(1), a.V(0), a.D(2), a.D(3), a.rc)),
    F("Constrain", std::vector<int> f(a.v.size(), 0); NurbsCurve::ConstraintBasedModification(a.c, a.L, a.v, a.i, a.I, f, a.rc)),
    // curve constructions
    F("Line", NurbsCurve::CreateLine(a.V(0), a.V(1), a.rc)), F("Hermite", NurbsCurve::CreateCubicHermite(a.v, a.W, a.rc)),
    F("Arc", NurbsCurve::CreateArc(a.V(0), a.V(1), a.V(2), a.D(0), a.D(1), a.D(2), a.D(3), a.rc)),
    F("ConicOne", XYZ p; double w; NurbsCurve::CreateOneConicArc(a.V(0), a.V(1), a.V(2), a.V(3), a.V(4), p, w)),
    F("ConicOpen", NurbsCurve::CreateOpenConic(a.V(0), a.V(1), a.V(2), a.V(3), a.V(4), a.rc)),
    F("Interp", NurbsCurve::GlobalInterpolation(a.N(0), a.v, a.rc, a.L)), F("InterpTan", NurbsCurve::GlobalInterpolation(a.N(0), a.v, a.W, a.D(0), a.rc)),
    F("CubicLocal", NurbsCurve::CubicLocalInterpolation(a.v, a.rc)), F("LeastSquares", NurbsCurve::LeastSquaresApproximation(a.N(0), a.v, a.N(1), a.rc)),
    F("WLeastSquares", NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(a.N(0), a.v, a.L, a.W, a.I, a.M, a.N(1), a.rc)),
    F("ErrApprox", NurbsCurve::GlobalApproximationByErrorBound(a.N(0), a.v, a.D(0), a.rc)),
    F("FitConic", std::vector<XYZW> m; NurbsCurve::FitWithConic(a.v, a.N(0), a.N(1), a.W.at(0), a.W.at(1), a.D(0), m)),
    F("FitCubic", std::vector<XYZW> m; NurbsCurve::FitWithCubic(a.v, a.N(0), a.N(1), a.W.at(0), a.W.at(1), a.D(0), m)),
    F("Rays", double s; double t; XYZ p; Intersection::ComputeRays(a.V(0), a.V(1), a.V(2), a.V(3), s, t, p)),
    // surfaces
    F("SInsert", NurbsSurface::InsertKnot(a.s, a.D(0), a.N(0), a.u(), a.rs)), F("SRefine", NurbsSurface::RefineKnotVector(a.s, a.L, a.u(), a.rs)),
    F("SRemove", NurbsSurface::RemoveKnot(a.s, a.D(0), a.N(0), a.u(), a.rs)), F("SElevate", NurbsSurface::ElevateDegree(a.s, a.N(0), a.u(), a.rs)),
    F("Cylinder", NurbsSurface::CreateCylindricalSurface(a.V(0), a.V(1), a.V(2), a.D(0), a.D(1), a.D(2), a.D(3), a.rs)),
    F("Ruled", NurbsSurface::CreateRuledSurface(a.c, a.c2, a.rs)), F("Revolved", NurbsSurface::CreateRevolvedSurface(a.V(0), a.V(1), a.D(0), a.c, a.rs)),
    F("SInterp", NurbsSurface::GlobalInterpolation(a.G, a.N(0), a.N(1), a.rs)), F("SLocal", NurbsSurface::BicubicLocalInterpolation(a.G, a.rs)),
    F("SApprox", NurbsSurface::GlobalApproximation(a.G, a.N(0), a.N(1), a.N(2), a.N(3), a.rs)),
};
}

OP("Call")
{
    Args a;
    if (e.has("c")) a.c = curve(e["c"]);
    if (e.has("c2")) a.c2 = curve(e["c2"]);
    if (e.has("s")) a.s = surface(e["s"]);
    if (e.has("i")) a.i = ivec(e["i"]);
    if (e.has("I")) a.I = ivec(e["I"]);
    if (e.has("d")) a.d = dvec(e["d"]);
    if (e.has("L")) a.L = dvec(e["L"]);
    if (e.has("M")) a.M = dvec(e["M"]);
    if (e.has("v")) a.v = pvec(e["v"]);
    if (e.has("W")) a.W = pvec(e["W"]);
    if (e.has("G")) a.G = pmat(e["G"]);
    // a result argument that already holds something
    a.rc.Degree = 1; a.rc.KnotVector = { 0, 0, 5, 5 }; a.rc.ControlPoints = { XYZW(1, 2, 3, 1), XYZW(4, 5, 6, 1) };
    a.rs.DegreeU = a.rs.DegreeV = 1; a.rs.KnotVectorU = a.rs.KnotVectorV = { 0, 0, 5, 5 };
    a.rs.ControlPoints = { a.rc.ControlPoints, a.rc.ControlPoints };
    std::string c0, s0, c1, s1, how;
    out(a.rc).print(c0); out(a.rs).print(s0);
    auto it = calls.find(e["f"].s);
    if (it == calls.end()) throw std::logic_error("driver: no call " + e["f"].s);
    try { it->second(a); }
    catch (const std::out_of_range& ex) { std::string w = ex.what(); how = w.find("vector::") == 0 || w.find("map::") == 0 ? "stl" : "range"; }
    catch (const std::invalid_argument& ex) { how = "argument"; }
    catch (const std::exception& ex) { how = ex.what(); }
    out(a.rc).print(c1); out(a.rs).print(s1);
    J r = J::obj();
    r.set("how", how).set("kept", c0 == c1 && s0 == s1);
    return r;
}
END;
