#include "driver.h"
#include "NurbsSurface.h"
#include "NurbsCurve.h"
#include "BezierSurface.h"
#include "BsplineSurface.h"
#include "MathUtils.h"
#ifdef VP_CAPI
#include "capi.h"
#endif

static J one(Ctx& x, const LN_NurbsSurface& s)
{
    x.S[x.cur] = s;
    J r = J::obj();
    r.set("s", out(s));
    return r;
}
static J oneIf(Ctx& x, bool b, const LN_NurbsSurface& s)
{
    J r = b ? one(x, s) : J::obj();
    r.set("b", b);
    return r;
}
static UV uv(const J& e) { return UV(e["u"].d(), e["v"].d()); }
static LN_BsplineSurface<XYZ> poly(const LN_NurbsSurface& s)
{
    LN_BsplineSurface<XYZ> b; b.DegreeU = s.DegreeU; b.DegreeV = s.DegreeV; b.KnotVectorU = s.KnotVectorU; b.KnotVectorV = s.KnotVectorV;
    for (auto& row : s.ControlPoints) { b.ControlPoints.push_back({}); for (auto& p : row) b.ControlPoints.back().push_back(p.ToXYZ(true)); }
    return b;
}

OP("DefSurf") { return one(x, surface(e["s0"])); } END;

OP("SEval")
{
    const LN_NurbsSurface& s = x.s(e);
    J r = J::obj();
    r.set("pt", out(NurbsSurface::GetPointOnSurface(s, uv(e))));
    r.set("h", out(BsplineSurface::GetPointOnSurface(s, uv(e))));
    r.set("poly", out(BsplineSurface::GetPointOnSurface(poly(s), uv(e))));
    return r;
}
END;
OP("SBezEval")
{
    const LN_NurbsSurface& s = x.s(e);
    LN_BezierSurface<XYZW> b; b.DegreeU = s.DegreeU; b.DegreeV = s.DegreeV; b.ControlPoints = s.ControlPoints;
    LN_BezierSurface<XYZ> q; q.DegreeU = s.DegreeU; q.DegreeV = s.DegreeV; q.ControlPoints = poly(s).ControlPoints;
    J r = J::obj();
    r.set("cast", out(BezierSurface::GetPointOnSurfaceByDeCasteljau(b, uv(e))));
    r.set("pcast", out(BezierSurface::GetPointOnSurfaceByDeCasteljau(q, uv(e))));
    return r;
}
END;
OP("SDers")
{
    const LN_NurbsSurface& s = x.s(e); int d = e["d"].n();
    J r = J::obj();
    r.set("rat", out(NurbsSurface::ComputeRationalSurfaceDerivatives(s, d, uv(e))));
    r.set("h", out(BsplineSurface::ComputeDerivatives(s, d, uv(e))));
    r.set("hall", out(BsplineSurface::ComputeDerivativesByAllBasisFunctions(s, d, uv(e))));
    r.set("poly", out(BsplineSurface::ComputeDerivatives(poly(s), d, uv(e))));
    XYZ S, Su, Sv;
    NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(s, uv(e), S, Su, Sv);
    J f = J::arr(); f.push(out(S)).push(out(Su)).push(out(Sv));
    r.set("first", f);
    XYZW H[2][2];
    BsplineSurface::ComputeFirstOrderDerivative(s, uv(e), H);
    J g = J::arr(); g.push(out(H[0][0])).push(out(H[1][0])).push(out(H[0][1])).push(out(H[1][1]));
    r.set("hfirst", g);
    return r;
}
END;
OP("SGeom")
{
    const LN_NurbsSurface& s = x.s(e);
    J r = J::obj();
    J k = J::arr();
    for (int i = 0; i < 6; i++) k.push(NurbsSurface::Curvature(s, (SurfaceCurvature)i, uv(e)));
    r.set("k", k).set("n", out(NurbsSurface::Normal(s, uv(e))));
    return r;
}
END;
OP("SUVTangent")
{
    UV t;
    bool b = NurbsSurface::GetUVTangent(x.s(e), uv(e), xyz(e["t"]), t);
    J r = J::obj();
    r.set("b", b).set("uv", out(t));
    return r;
}
END;
OP("SIso")
{
    LN_NurbsCurve c = NurbsSurface::GetIsoCurve(x.s(e), e["w"].d(), e["isu"].b());
    x.C[x.cur] = c;
    J r = J::obj(); r.set("c", out(c));
    return r;
}
END;
OP("SInsert") { LN_NurbsSurface res; NurbsSurface::InsertKnot(x.s(e), e["u"].d(), e["t"].n(), e["isu"].b(), res); return one(x, res); } END;
OP("SRefine") { LN_NurbsSurface res; NurbsSurface::RefineKnotVector(x.s(e), dvec(e["X"]), e["isu"].b(), res); return one(x, res); } END;
OP("SRemove") { LN_NurbsSurface res; NurbsSurface::RemoveKnot(x.s(e), e["u"].d(), e["t"].n(), e["isu"].b(), res); return one(x, res); } END;
OP("SElevate") { LN_NurbsSurface res; NurbsSurface::ElevateDegree(x.s(e), e["t"].n(), e["isu"].b(), res); return one(x, res); } END;
OP("SReduce") { LN_NurbsSurface res; bool b = NurbsSurface::ReduceDegree(x.s(e), e["isu"].b(), res); return oneIf(x, b, res); } END;
OP("SSwap") { LN_NurbsSurface res; NurbsSurface::Swap(x.s(e), res); return one(x, res); } END;
OP("SReverse") { LN_NurbsSurface res; NurbsSurface::Reverse(x.s(e), (SurfaceDirection)e["dir"].n(), res); return one(x, res); } END;
OP("SReparam") { LN_NurbsSurface res; NurbsSurface::Reparametrize(x.s(e), e["ulo"].d(), e["uhi"].d(), e["vlo"].d(), e["vhi"].d(), res); return one(x, res); } END;
OP("SDecompose")
{
    auto v = NurbsSurface::DecomposeToBeziers(x.s(e));
    J a = J::arr();
    for (auto& s : v) a.push(out(s));
    J r = J::obj(); r.set("ss", a);
    return r;
}
END;
OP("SCheck") { NurbsSurface::Check(x.s(e)); return J::obj(); } END;
OP("SClosed") { J r = J::obj(); r.set("u", NurbsSurface::IsClosed(x.s(e), true)).set("v", NurbsSurface::IsClosed(x.s(e), false)); return r; } END;
OP("SBox")
{
    LN_BoundingBox3d b = NurbsSurface::GetBoundingBox(x.s(e));
    J r = J::obj(); r.set("lo", out(b.MinPoint)).set("hi", out(b.MaxPoint));
    return r;
}
END;
OP("SOBB")
{
    LN_OrientedBoundingBox3d b = NurbsSurface::GetOrientedBoundingBox(x.s(e));
    J ax = J::arr(); for (int i = 0; i < 3; i++) ax.push(out(b.Axes[i]));
    J h = J::arr(); for (int i = 0; i < 3; i++) h.push(b.HalfExtents[i]);
    J r = J::obj(); r.set("o", out(b.Center)).set("ax", ax).set("h", h);
    return r;
}
END;
OP("SParam") { J r = J::obj(); r.set("uv", out(NurbsSurface::GetParamOnSurface(x.s(e), xyz(e["q"])))); return r; } END;
OP("SAllParams") { J r = J::obj(); r.set("uvs", out(NurbsSurface::GetAllParamsOnSurface(x.s(e), xyz(e["q"])))); return r; } END;
OP("SParamGSA") { J r = J::obj(); r.set("uv", out(NurbsSurface::GetParamOnSurfaceByGSA(x.s(e), xyz(e["q"])))); return r; } END;
OP("SArea") { J r = J::obj(); r.set("a", NurbsSurface::ApproximateArea(x.s(e), (IntegratorType)e["m"].n())); return r; } END;
OP("SSdf") { J r = J::obj(); r.set("d", NurbsSurface::ComputeSignedDistanceFunction(x.s(e), xyz(e["q"]))); return r; } END;
OP("SEqTess")
{
    std::vector<XYZ> pts; std::vector<UV> ks;
    NurbsSurface::EquallyTessellate(x.s(e), pts, ks);
    // a part of the long list: every step-th entry, the last one, and the ends of the rows about them
    J r = J::obj(), id = J::arr(), p = J::arr(), k = J::arr();
    size_t n = std::min(pts.size(), ks.size()), step = e["step"].n();
    for (size_t i = 0; i < n; i++)
        if (i % step == 0 || i + 1 == n || i < 3) { id.push(i); p.push(out(pts[i])); k.push(out(ks[i])); }
    r.set("n", pts.size()).set("m", ks.size()).set("idx", id).set("pts", p).set("ks", k);
    return r;
}
END;
OP("STri")
{
    LN_Mesh m = NurbsSurface::Triangulate(x.s(e), e["nu"].n(), e["nv"].n(), e["del"].b());
    J r = J::obj();
    r.set("V", out(m.Vertices)).set("F", out(m.Faces)).set("UV", out(m.UVs)).set("UI", out(m.UVIndices)).set("N", out(m.Normals)).set("NI", out(m.NormalIndices));
    return r;
}
END;
// constructions
OP("Bilinear") { LN_NurbsSurface res; NurbsSurface::CreateBilinearSurface(xyz(e["tl"]), xyz(e["tr"]), xyz(e["bl"]), xyz(e["br"]), res); return one(x, res); } END;
OP("Cylinder")
{
    LN_NurbsSurface res;
    bool b = NurbsSurface::CreateCylindricalSurface(xyz(e["o"]), xyz(e["xa"]), xyz(e["ya"]), e["a0"].d(), e["a1"].d(), e["rad"].d(), e["h"].d(), res);
    return oneIf(x, b, res);
}
END;
OP("Ruled") { LN_NurbsSurface res; NurbsSurface::CreateRuledSurface(x.c(e, "c1"), x.c(e, "c2"), res); return one(x, res); } END;
OP("Revolved") { LN_NurbsSurface res; bool b = NurbsSurface::CreateRevolvedSurface(xyz(e["o"]), xyz(e["ax"]), e["rad"].d(), x.c(e), res); return oneIf(x, b, res); } END;
OP("NUScale")
{
    const LN_NurbsSurface& s = x.s(e);
    LN_NurbsSurface res = s;
    res.ControlPoints = NurbsSurface::NonUniformScaling(s.ControlPoints, e["fx"].d(), e["fy"].d(), e["fz"].d(), xyz(e["o"]));
    return one(x, res);
}
END;
OP("Fillet") { LN_NurbsSurface res; NurbsSurface::MakeCornerFilletSurface(x.c(e), res); return one(x, res); } END;
OP("SInterp") { LN_NurbsSurface res; NurbsSurface::GlobalInterpolation(pmat(e["q"]), e["pu"].n(), e["pv"].n(), res); return one(x, res); } END;
OP("SLocal") { LN_NurbsSurface res; bool b = NurbsSurface::BicubicLocalInterpolation(pmat(e["q"]), res); return oneIf(x, b, res); } END;
OP("SApprox") { LN_NurbsSurface res; bool b = NurbsSurface::GlobalApproximation(pmat(e["q"]), e["pu"].n(), e["pv"].n(), e["nu"].n(), e["nv"].n(), res); return oneIf(x, b, res); } END;
OP("Swung") { LN_NurbsSurface res; bool b = NurbsSurface::CreateSwungSurface(x.c(e, "c1"), x.c(e, "c2"), e["f"].d(), res); return oneIf(x, b, res); } END;
OP("Loft")
{
    std::vector<LN_NurbsCurve> cs;
    for (auto& i : e["cs"].a) cs.push_back(x.C.at(i.n()));
    LN_NurbsSurface res;
    if (e.has("kv")) NurbsSurface::CreateLoftSurface(cs, res, e["q"].n(), dvec(e["kv"]));
    else if (e.has("q")) NurbsSurface::CreateLoftSurface(cs, res, e["q"].n());
    else NurbsSurface::CreateLoftSurface(cs, res);
    return one(x, res);
}
END;
OP("TransSweep") { LN_NurbsSurface res; NurbsSurface::CreateGeneralizedTranslationalSweepSurface(x.c(e, "c1"), x.c(e, "c2"), res); return one(x, res); } END;
OP("Sweep1") { LN_NurbsSurface res; NurbsSurface::CreateSweepSurface(x.c(e, "c1"), x.c(e, "c2"), e["n"].n(), res); return one(x, res); } END;
OP("Sweep2") { LN_NurbsSurface res; NurbsSurface::CreateSweepSurface(x.c(e, "c1"), x.c(e, "c2"), e["n"].n(), e["q"].n(), res); return one(x, res); } END;
OP("Gordon")
{
    std::vector<LN_NurbsCurve> a, b;
    for (auto& i : e["cu"].a) a.push_back(x.C.at(i.n()));
    for (auto& i : e["cv"].a) b.push_back(x.C.at(i.n()));
    LN_NurbsSurface res;
    NurbsSurface::CreateGordonSurface(a, b, pmat(e["q"]), res);
    return one(x, res);
}
END;
OP("Coons") { LN_NurbsSurface res; NurbsSurface::CreateCoonsSurface(x.c(e, "c1"), x.c(e, "c2"), x.c(e, "c3"), x.c(e, "c4"), res); return one(x, res); } END;
