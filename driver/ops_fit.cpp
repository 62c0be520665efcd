// Data parametrization and fitting of conic and cubic segments.
#include "driver.h"
#include "Interpolation.h"
#include "NurbsCurve.h"
#include "ControlPointsUtils.h"
#ifdef VP_CAPI
#include "capi.h"
#endif

OP("Params")
{
    (void)x;
    std::vector<XYZ> q = pvec(e["q"]);
    J r = J::obj();
    std::vector<double> u = Interpolation::GetChordParameterization(q), v = Interpolation::GetCentripetalParameterization(q);
    r.set("len", q.empty() ? 0.0 : Interpolation::GetTotalChordLength(q)).set("clen", Interpolation::GetCentripetalLength(q));
    r.set("u", out(u)).set("v", out(v));
    r.set("t3", out(Interpolation::ComputeTangent(q)));
    std::vector<XYZ> t;
    bool b = Interpolation::ComputeTangent(q, t);
    r.set("b5", b).set("t5", b ? out(t) : J::arr());
    return r;
}
END;

OP("Knots")
{
    (void)x;
    std::vector<double> u = dvec(e["u"]);
    J av = J::arr(), cv = J::arr();
    for (int p : ivec(e["ps"])) av.push(out(Interpolation::AverageKnotVector(p, u)));
    for (auto& g : e["pn"].a) cv.push(out(Interpolation::ComputeKnotVector(g.at(0).n(), g.at(1).n(), u)));
    J r = J::obj();
    r.set("av", av).set("cv", cv);
    return r;
}
END;

OP("MeshParams")
{
    (void)x;
    std::vector<double> u, v;
    bool b = Interpolation::GetSurfaceMeshParameterization(pmat(e["q"]), u, v);
    J r = J::obj();
    r.set("b", b);
    if (b) r.set("u", out(u)).set("v", out(v));
    return r;
}
END;

// parameter of a point of the curve with Bezier control points P (homogeneous) that is nearest to q: fine search, then narrowing
static double nearest(const std::vector<XYZW>& P, const XYZ& q)
{
    auto dist = [&](double t)
    {
        std::vector<double> X, Y, Z, W;
        for (auto& p : P) { X.push_back(p.GetWX()); Y.push_back(p.GetWY()); Z.push_back(p.GetWZ()); W.push_back(p.GetW()); }
        for (size_t n = P.size(); n > 1; n--)
            for (size_t i = 0; i + 1 < n; i++)
                for (auto* v : { &X, &Y, &Z, &W }) (*v)[i] = (1 - t) * (*v)[i] + t * (*v)[i + 1];
        double dx = X[0] / W[0] - q.GetX(), dy = Y[0] / W[0] - q.GetY(), dz = Z[0] / W[0] - q.GetZ();
        return dx * dx + dy * dy + dz * dz;
    };
    const int N = 2000;
    int best = 0;
    double d = dist(0);
    for (int i = 1; i <= N; i++) { double k = dist(double(i) / N); if (k < d) { d = k; best = i; } }
    double lo = std::max(0, best - 1) / double(N), hi = std::min(N, best + 1) / double(N);
    for (int i = 0; i < 80; i++)
    {
        double a = lo + (hi - lo) / 3, b = hi - (hi - lo) / 3;
        if (dist(a) < dist(b)) hi = b; else lo = a;
    }
    return (lo + hi) / 2;
}

static J fitted(const J& e, bool b, const std::vector<XYZW>& mid, const std::vector<XYZ>& q)
{
    J r = J::obj();
    r.set("b", b).set("mid", out(mid));
    int i = e["i"].n(), j = e["j"].n();
    if (b && j - i > 1 && (mid.size() == 1 || mid.size() == 2))
    {
        std::vector<XYZW> P = { XYZW(q[i], 1) };
        for (auto& m : mid) P.push_back(m);
        P.push_back(XYZW(q[j], 1));
        J w = J::arr();
        for (int k = i + 1; k < j; k++) w.push(J(nearest(P, q[k])));
        r.set("at", w);
    }
    return r;
}

OP("FitConic")
{
    (void)x;
    std::vector<XYZ> q = pvec(e["q"]);
    std::vector<XYZW> mid;
    bool b = NurbsCurve::FitWithConic(q, e["i"].n(), e["j"].n(), xyz(e["ts"]), xyz(e["te"]), e["eps"].d(), mid);
    return fitted(e, b, mid, q);
}
END;

OP("FitCubic")
{
    (void)x;
    std::vector<XYZ> q = pvec(e["q"]);
    std::vector<XYZW> mid;
    bool b = NurbsCurve::FitWithCubic(q, e["i"].n(), e["j"].n(), xyz(e["ts"]), xyz(e["te"]), e["eps"].d(), mid);
    return fitted(e, b, mid, q);
}
END;
