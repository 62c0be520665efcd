#include "driver.h"
#include "NurbsCurve.h"
#include "BezierCurve.h"
#include "BsplineCurve.h"
#include "Polynomials.h"
#include "MathUtils.h"
#ifdef VP_CAPI
#include "capi.h"
#endif

static J one(Ctx& x, const LN_NurbsCurve& c)
{
    x.C[x.cur] = c;
    J r = J::obj();
    r.set("c", out(c));
    return r;
}
static J many(Ctx& x, const std::vector<LN_NurbsCurve>& v)
{
    (void)x;
    J r = J::obj();
    J a = J::arr();
    for (auto& c : v) a.push(out(c));
    r.set("cs", a);
    return r;
}

OP("DefCurve") { return one(x, curve(e["c0"])); } END;

// every evaluator at u
OP("Eval")
{
    const LN_NurbsCurve& c = x.c(e); double u = e["u"].d();
    J r = J::obj();
    r.set("pt", out(NurbsCurve::GetPointOnCurve(c, u)));
    r.set("cut", out(NurbsCurve::GetPointOnCurveByCornerCut(c, u)));
    r.set("h", out(BsplineCurve::GetPointOnCurve(c, u)));
    LN_BsplineCurve<XYZ> b; b.Degree = c.Degree; b.KnotVector = c.KnotVector;
    for (auto& p : c.ControlPoints) b.ControlPoints.push_back(p.ToXYZ(true));
    r.set("poly", out(BsplineCurve::GetPointOnCurve(b, u)));
    return r;
}
END;

OP("BezierEval")
{
    const LN_NurbsCurve& c = x.c(e); double u = e["u"].d();
    LN_BezierCurve<XYZW> b; b.Degree = c.Degree; b.ControlPoints = c.ControlPoints;
    LN_BezierCurve<XYZ> q; q.Degree = c.Degree;
    for (auto& p : c.ControlPoints) q.ControlPoints.push_back(p.ToXYZ(true));
    J r = J::obj();
    r.set("bern", out(BezierCurve::GetPointOnCurveByBernstein(b, u)));
    r.set("cast", out(BezierCurve::GetPointOnCurveByDeCasteljau(b, u)));
    r.set("pbern", out(BezierCurve::GetPointOnCurveByBernstein(q, u)));
    r.set("pcast", out(BezierCurve::GetPointOnCurveByDeCasteljau(q, u)));
    if (c.Degree == 2) r.set("quad", out(BezierCurve::GetPointOnQuadraticArc(c.ControlPoints[0], c.ControlPoints[1], c.ControlPoints[2], u)));
    return r;
}
END;

OP("Ders")
{
    const LN_NurbsCurve& c = x.c(e); double u = e["u"].d(); int d = e["d"].n();
    J r = J::obj();
    r.set("rat", out(NurbsCurve::ComputeRationalCurveDerivatives(c, d, u)));
    r.set("h", out(BsplineCurve::ComputeDerivatives(c, d, u)));
    if (d <= c.Degree) r.set("hall", out(BsplineCurve::ComputeDerivativesByAllBasisFunctions(c, d, u)));
    LN_BsplineCurve<XYZ> b; b.Degree = c.Degree; b.KnotVector = c.KnotVector;
    for (auto& p : c.ControlPoints) b.ControlPoints.push_back(p.ToXYZ(true));
    r.set("poly", out(BsplineCurve::ComputeDerivatives(b, d, u)));
    return r;
}
END;

OP("CanDer") { J r = J::obj(); r.set("b", NurbsCurve::CanComputeDerivative(x.c(e), e["u"].d())); return r; } END;

OP("Frenet")
{
    const LN_NurbsCurve& c = x.c(e); double u = e["u"].d();
    J r = J::obj();
    r.set("k", NurbsCurve::Curvature(c, u));
    r.set("t", NurbsCurve::Torsion(c, u));
    r.set("n", out(NurbsCurve::Normal(c, CurveNormal::Normal, u)));
    r.set("b", out(NurbsCurve::Normal(c, CurveNormal::Binormal, u)));
    return r;
}
END;

OP("ProjNormals") { J r = J::obj(); r.set("n", out(NurbsCurve::ProjectNormal(x.c(e)))); return r; } END;

OP("InsertKnot")
{
    LN_NurbsCurve res;
    int n = NurbsCurve::InsertKnot(x.c(e), e["u"].d(), e["t"].n(), res);
    J r = one(x, res);
    r.set("n", n);
    return r;
}
END;

OP("Refine") { LN_NurbsCurve res; NurbsCurve::RefineKnotVector(x.c(e), dvec(e["X"]), res); return one(x, res); } END;
OP("Decompose") { return many(x, NurbsCurve::DecomposeToBeziers(x.c(e))); } END;
OP("RemoveKnot")
{
    LN_NurbsCurve res;
    bool b = NurbsCurve::RemoveKnot(x.c(e), e["u"].d(), e["t"].n(), res);
    J r = b ? one(x, res) : J::obj();
    r.set("b", b);
    return r;
}
END;
OP("RemoveExcessive") { LN_NurbsCurve res; NurbsCurve::RemoveExcessiveKnots(x.c(e), res); return one(x, res); } END;
OP("Elevate") { LN_NurbsCurve res; NurbsCurve::ElevateDegree(x.c(e), e["t"].n(), res); return one(x, res); } END;
OP("Reduce")
{
    LN_NurbsCurve res;
    bool b = NurbsCurve::ReduceDegree(x.c(e), res);
    J r = b ? one(x, res) : J::obj();
    r.set("b", b);
    return r;
}
END;
OP("Reverse") { LN_NurbsCurve res; NurbsCurve::Reverse(x.c(e), res); return one(x, res); } END;
OP("Reparam") { LN_NurbsCurve res; NurbsCurve::Reparametrize(x.c(e), e["lo"].d(), e["hi"].d(), res); return one(x, res); } END;
OP("Moebius") { LN_NurbsCurve res; NurbsCurve::Reparametrize(x.c(e), e["al"].d(), e["be"].d(), e["ga"].d(), e["de"].d(), res); return one(x, res); } END;
OP("Split")
{
    LN_NurbsCurve l, rr;
    bool b = NurbsCurve::SplitAt(x.c(e), e["u"].d(), l, rr);
    J r = J::obj();
    r.set("b", b);
    if (b) r.set("l", out(l)).set("r", out(rr));
    if (b) x.C[x.cur] = e.has("right") && e["right"].b() ? rr : l;
    if (b) r.set("c", out(x.C[x.cur]));
    return r;
}
END;
OP("Extract") { LN_NurbsCurve res; NurbsCurve::Extract(x.c(e), e["lo"].d(), e["hi"].d(), res); return one(x, res); } END;
OP("Merge")
{
    LN_NurbsCurve res;
    bool b = NurbsCurve::Merge(x.c(e, "c1"), x.c(e, "c2"), res);
    J r = b ? one(x, res) : J::obj();
    r.set("b", b);
    return r;
}
END;
OP("SplitMerge")
{
    LN_NurbsCurve l, rr, res;
    bool b = NurbsCurve::SplitAt(x.c(e), e["u"].d(), l, rr);
    bool m = b && NurbsCurve::Merge(l, rr, res);
    J r = m ? one(x, res) : J::obj();
    r.set("b", b).set("m", m);
    return r;
}
END;
static Matrix4d mat(const J& j)
{
    Matrix4d m;
    for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) m.SetElement(i, k, j.at(i).at(k).d());
    return m;
}
OP("Transform") { LN_NurbsCurve res; NurbsCurve::CreateTransformed(x.c(e), mat(e["m"]), res); return one(x, res); } END;
OP("Predicates")
{
    const LN_NurbsCurve& c = x.c(e);
    J r = J::obj();
    r.set("closed", NurbsCurve::IsClosed(c)).set("clamp", NurbsCurve::IsClamp(c)).set("periodic", NurbsCurve::IsPeriodic(c)).set("linear", NurbsCurve::IsLinear(c));
    return r;
}
END;
OP("IsArc")
{
    LN_ArcInfo info;
    bool b = NurbsCurve::IsArc(x.c(e), info);
    J r = J::obj();
    r.set("b", b).set("radius", info.Radius).set("center", out(info.Center)).set("circle", info.IsCircle);
    return r;
}
END;
OP("ToClamp") { LN_NurbsCurve res; NurbsCurve::ToClampCurve(x.c(e), res); return one(x, res); } END;
OP("ToUnclamp") { LN_NurbsCurve res; NurbsCurve::ToUnclampCurve(x.c(e), res); return one(x, res); } END;
OP("ParamOfPoint")
{
    J r = J::obj();
    r.set("u", NurbsCurve::GetParamOnCurve(x.c(e), xyz(e["q"])));
    return r;
}
END;
OP("AllParamsOfPoint")
{
    J r = J::obj();
    r.set("us", out(NurbsCurve::GetAllParamsOnCurve(x.c(e), xyz(e["q"]))));
    return r;
}
END;
OP("EqTess")
{
    std::vector<XYZ> pts; std::vector<double> ks;
    NurbsCurve::EquallyTessellate(x.c(e), pts, ks);
    J r = J::obj();
    r.set("pts", out(pts)).set("ks", out(ks));
    return r;
}
END;
OP("Tess") { J r = J::obj(); r.set("pts", out(NurbsCurve::Tessellate(x.c(e)))); return r; } END;
OP("Length") { J r = J::obj(); r.set("len", NurbsCurve::ApproximateLength(x.c(e), (IntegratorType)e["m"].n())); return r; } END;
OP("LengthRange") { J r = J::obj(); r.set("len", NurbsCurve::ApproximateLength(x.c(e), e["lo"].d(), e["hi"].d(), (IntegratorType)e["m"].n())); return r; } END;
OP("ParamByLength") { J r = J::obj(); r.set("u", NurbsCurve::GetParamOnCurve(x.c(e), e["len"].d(), (IntegratorType)e["m"].n())); return r; } END;
OP("ParamsByLength") { J r = J::obj(); r.set("us", out(NurbsCurve::GetParamsOnCurve(x.c(e), e["len"].d(), (IntegratorType)e["m"].n()))); return r; } END;
OP("Line") { LN_NurbsCurve res; NurbsCurve::CreateLine(xyz(e["a"]), xyz(e["b"]), res); return one(x, res); } END;
OP("Hermite") { LN_NurbsCurve res; NurbsCurve::CreateCubicHermite(pvec(e["q"]), pvec(e["t"]), res); return one(x, res); } END;
OP("Arc")
{
    LN_NurbsCurve res;
    bool b = NurbsCurve::CreateArc(xyz(e["o"]), xyz(e["xa"]), xyz(e["ya"]), e["a0"].d(), e["a1"].d(), e["rx"].d(), e["ry"].d(), res);
    J r = b ? one(x, res) : J::obj();
    r.set("b", b);
    return r;
}
END;
OP("ConicOne")
{
    XYZ pp; double w = 0;
    bool b = NurbsCurve::CreateOneConicArc(xyz(e["a"]), xyz(e["ta"]), xyz(e["b"]), xyz(e["tb"]), xyz(e["q"]), pp, w);
    J r = J::obj();
    r.set("b", b).set("pp", out(pp)).set("w", w);
    return r;
}
END;
OP("SplitArc")
{
    XYZ q1, sp, r1; double w = 0;
    NurbsCurve::SplitArc(xyz(e["a"]), xyz(e["pp"]), e["w"].d(), xyz(e["b"]), q1, sp, r1, w);
    J r = J::obj();
    r.set("q1", out(q1)).set("s", out(sp)).set("r1", out(r1)).set("w", w);
    return r;
}
END;
OP("ConicOpen")
{
    LN_NurbsCurve res;
    bool b = NurbsCurve::CreateOpenConic(xyz(e["a"]), xyz(e["ta"]), xyz(e["b"]), xyz(e["tb"]), xyz(e["q"]), res);
    J r = b ? one(x, res) : J::obj();
    r.set("b", b);
    return r;
}
END;
OP("Interp")
{
    LN_NurbsCurve res;
    if (e.has("par")) NurbsCurve::GlobalInterpolation(e["p"].n(), pvec(e["q"]), res, dvec(e["par"]));
    else NurbsCurve::GlobalInterpolation(e["p"].n(), pvec(e["q"]), res);
    return one(x, res);
}
END;
OP("InterpTan") { LN_NurbsCurve res; NurbsCurve::GlobalInterpolation(e["p"].n(), pvec(e["q"]), pvec(e["t"]), e["f"].d(), res); return one(x, res); } END;
OP("CubicLocal")
{
    LN_NurbsCurve res;
    bool b = NurbsCurve::CubicLocalInterpolation(pvec(e["q"]), res);
    J r = b ? one(x, res) : J::obj();
    r.set("b", b);
    return r;
}
END;
OP("LeastSquares")
{
    LN_NurbsCurve res;
    bool b = NurbsCurve::LeastSquaresApproximation(e["p"].n(), pvec(e["q"]), e["n"].n(), res);
    J r = b ? one(x, res) : J::obj();
    r.set("b", b);
    return r;
}
END;
OP("WLeastSquares")
{
    LN_NurbsCurve res;
    bool b = NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(e["p"].n(), pvec(e["q"]), dvec(e["w"]), pvec(e["t"]), ivec(e["ti"]), dvec(e["tw"]), e["n"].n(), res);
    J r = b ? one(x, res) : J::obj();
    r.set("b", b);
    return r;
}
END;
OP("ErrApprox") { LN_NurbsCurve res; NurbsCurve::GlobalApproximationByErrorBound(e["p"].n(), pvec(e["q"]), e["eps"].d(), res); return one(x, res); } END;
OP("RemoveErr") { J r = J::obj(); r.set("e", NurbsCurve::ComputerRemoveKnotErrorBound(x.c(e), e["i"].n())); return r; } END;
OP("Offset") { LN_NurbsCurve res; NurbsCurve::Offset(x.c(e), e["d"].d(), (OffsetType)e["ty"].n(), res); return one(x, res); } END;
OP("Extend") { LN_NurbsCurve res; NurbsCurve::Extend(x.c(e), e["d"].d(), e["st"].b(), (ExtensionType)e["ty"].n(), res); return one(x, res); } END;
OP("Reposition")
{
    LN_NurbsCurve res;
    bool b = NurbsCurve::ControlPointReposition(x.c(e), e["u"].d(), e["i"].n(), xyz(e["dir"]), e["d"].d(), res);
    J r = b ? one(x, res) : J::obj();
    r.set("b", b);
    return r;
}
END;
OP("WeightMod") { LN_NurbsCurve res; NurbsCurve::WeightModification(x.c(e), e["u"].d(), e["i"].n(), e["d"].d(), res); return one(x, res); } END;
OP("ProjNormal") { J r = J::obj(); r.set("ns", out(NurbsCurve::ProjectNormal(x.c(e)))); return r; } END;
OP("CheckCurve") { NurbsCurve::Check(x.c(e)); return J::obj(); } END;
OP("NeighborMod")
{
    LN_NurbsCurve res;
    bool b = NurbsCurve::NeighborWeightsModification(x.c(e), e["u"].d(), e["i"].n(), e["d"].d(), e["sc"].d(), res);
    J r = b ? one(x, res) : J::obj();
    r.set("b", b);
    return r;
}
END;
OP("Warp") { LN_NurbsCurve res; NurbsCurve::Warping(x.c(e), dvec(e["f"]), e["d"].d(), xyz(e["nrm"]), e["lo"].d(), e["hi"].d(), res); return one(x, res); } END;
OP("Flatten")
{
    LN_NurbsCurve res;
    bool b = NurbsCurve::Flattening(x.c(e), xyz(e["a"]), xyz(e["b"]), e["lo"].d(), e["hi"].d(), res);
    J r = one(x, res);
    r.set("b", b);
    return r;
}
END;
OP("Bend") { LN_NurbsCurve res; NurbsCurve::Bending(x.c(e), e["lo"].d(), e["hi"].d(), xyz(e["o"]), e["rad"].d(), e["cr"].d(), res); return one(x, res); } END;
OP("Constrain") { LN_NurbsCurve res; NurbsCurve::ConstraintBasedModification(x.c(e), dvec(e["us"]), pvec(e["D"]), ivec(e["Dr"]), ivec(e["Dk"]), ivec(e["fix"]), res); return one(x, res); } END;
