#include "driver.h"
#include "Polynomials.h"
#include "KnotVectorUtils.h"
#include "BezierCurve.h"
#include "BsplineCurve.h"
#include "MathUtils.h"
#include "Interpolation.h"
#include "ValidationUtils.h"
#ifdef VP_CAPI
#include "capi.h"
#endif

// e: p, U, u
OP("Basis")
{
    (void)x;
    int p = e["p"].n(); std::vector<double> U = dvec(e["U"]); double u = e["u"].d(); int d = e["d"].n();
    J r = J::obj();
    int k = Polynomials::GetKnotSpanIndex(p, U, u);
    r.set("span", k);
    double N[Constants::NURBSMaxDegree + 1];
    Polynomials::BasisFunctions(k, p, U, u, N);
    r.set("N", J(std::vector<double>(N, N + p + 1)));
    r.set("ders", out(Polynomials::BasisFunctionsDerivatives(k, p, d, U, u)));
    double D[2][Constants::NURBSMaxDegree + 1];
    Polynomials::BasisFunctionsFirstOrderDerivative(k, p, U, u, D);
    J f = J::arr();
    f.push(J(std::vector<double>(D[0], D[0] + p + 1))).push(J(std::vector<double>(D[1], D[1] + p + 1)));
    r.set("first", f);
    J one = J::arr(), oned = J::arr();
    int n = (int)U.size() - p - 1;
    for (int i = 0; i < n; i++)
    {
        one.push(J(Polynomials::OneBasisFunction(i, p, U, u)));
        oned.push(out(Polynomials::OneBasisFunctionDerivative(i, p, d, U, u)));
    }
    r.set("one", one).set("oned", oned);
    r.set("all", out(Polynomials::AllBasisFunctions(k, p, U, u)));
    r.set("mult", Polynomials::GetKnotMultiplicity(U, u));
    r.set("cont", KnotVectorUtils::GetContinuity(p, U, u));
    return r;
}
END;

// the same queries at many parameters of one knot vector
OP("Spans")
{
    (void)x;
    int p = e["p"].n(); std::vector<double> U = dvec(e["U"]);
    J sp = J::arr(), mu = J::arr(), co = J::arr(), nn = J::arr();
    for (double u : dvec(e["us"]))
    {
        int k = Polynomials::GetKnotSpanIndex(p, U, u);
        sp.push(k);
        mu.push(Polynomials::GetKnotMultiplicity(U, u));
        co.push(KnotVectorUtils::GetContinuity(p, U, u));
        double N[Constants::NURBSMaxDegree + 1];
        Polynomials::BasisFunctions(k, p, U, u, N);
        nn.push(J(std::vector<double>(N, N + p + 1)));
    }
    J r = J::obj();
    r.set("spans", sp).set("mults", mu).set("conts", co).set("N", nn);
    return r;
}
END;

OP("Bernstein")
{
    (void)x;
    int p = e["p"].n(); double t = e["u"].d();
    J r = J::obj(), one = J::arr();
    for (int i = 0; i <= p; i++) one.push(J(Polynomials::Bernstein(i, p, t)));
    r.set("one", one).set("all", out(Polynomials::AllBernstein(p, t)));
    return r;
}
END;

OP("Horner")
{
    (void)x;
    J r = J::obj();
    r.set("y", Polynomials::Horner(e["p"].n(), dvec(e["a"]), e["u"].d()));
    return r;
}
END;

OP("Horner2")
{
    (void)x;
    UV uv(e["u"].d(), e["t"].d());
    J r = J::obj();
    r.set("y", Polynomials::Horner(e["p"].n(), e["q"].n(), dmat(e["a"]), uv));
    return r;
}
END;

OP("PowerMatrices")
{
    (void)x;
    auto m = Polynomials::BezierToPowerMatrix(e["p"].n());
    auto im = Polynomials::PowerToBezierMatrix(e["p"].n(), m);
    J r = J::obj();
    r.set("m", out(m)).set("im", out(im));
    return r;
}
END;

OP("KvMaps")
{
    (void)x;
    auto m = KnotVectorUtils::GetKnotMultiplicityMap(dvec(e["U"]));
    auto im = KnotVectorUtils::GetInternalKnotMultiplicityMap(dvec(e["U"]));
    J a = J::arr(), b = J::arr();
    for (auto& p : m) { J q = J::arr(); q.push(p.first).push(p.second); a.push(q); }
    for (auto& p : im) { J q = J::arr(); q.push(p.first).push(p.second); b.push(q); }
    J r = J::obj();
    r.set("all", a).set("in", b).set("uniform", KnotVectorUtils::IsUniform(dvec(e["U"])));
    r.set("valid", ValidationUtils::IsValidKnotVector(dvec(e["U"])));
    return r;
}
END;

// degree p, k knots, n control points; P: weighted control points
OP("Counts")
{
    (void)x;
    int p = e["p"].n(), k = e["k"].n(), n = e["n"].n();
    J r = J::obj();
    r.set("bezier", ValidationUtils::IsValidBezier(p, n)).set("bspline", ValidationUtils::IsValidBspline(p, k, n)).set("nurbs", ValidationUtils::IsValidNurbs(p, k, n));
    r.set("reduce", ValidationUtils::IsValidDegreeReduction(p)).set("tol", ValidationUtils::ComputeCurveModifyTolerance(hvec(e["P"])));
    return r;
}
END;

OP("KvRescale")
{
    (void)x;
    J r = J::obj();
    r.set("U", out(KnotVectorUtils::Rescale(dvec(e["U"]), e["lo"].d(), e["hi"].d())));
    return r;
}
END;

OP("KvClampInsert")
{
    (void)x;
    J r = J::obj();
    r.set("X", out(KnotVectorUtils::GetInsertedKnotElement(e["p"].n(), dvec(e["U"]), e["lo"].d(), e["hi"].d())));
    return r;
}
END;

OP("KvMerge2")
{
    (void)x;
    std::vector<double> a, b;
    KnotVectorUtils::GetInsertedKnotElement(dvec(e["A"]), dvec(e["B"]), a, b);
    J r = J::obj();
    r.set("a", out(a)).set("b", out(b));
    return r;
}
END;

OP("KvMergeAll")
{
    (void)x;
    J r = J::obj();
    r.set("X", out(KnotVectorUtils::GetInsertedKnotElements(dmat(e["L"]))));
    return r;
}
END;

OP("KvMidInsert")
{
    (void)x;
    J r = J::obj();
    r.set("X", out(KnotVectorUtils::GetInsertedKnotElements(e["k"].n(), dvec(e["U"]))));
    return r;
}
END;

OP("KvAverage")
{
    (void)x;
    J r = J::obj();
    r.set("U", out(Interpolation::AverageKnotVector(e["p"].n(), dvec(e["t"]))));
    return r;
}
END;
