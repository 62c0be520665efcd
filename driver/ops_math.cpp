// Vectors, matrices, linear algebra, quadrature, transforms, lines and planes, neighbour search.
#include "driver.h"
#include <array>
#include "MathUtils.h"
#include "ControlPointsUtils.h"
#include "Integrator.h"
#include "FFT.h"
#include "Intersection.h"
#include "Projection.h"
#include "Octree.h"
#ifdef VP_CAPI
#include "capi.h"
#endif

#ifdef VP_CAPI
typedef CapiMatrix4d Mat; typedef CapiXYZ P3; typedef CapiUV P2; typedef CapiXYZW P4;
#else
typedef Matrix4d Mat; typedef XYZ P3; typedef UV P2; typedef XYZW P4;
#endif

static J outM(const Matrix4d& m)
{
    J r = J::arr();
    for (int i = 0; i < 4; i++)
    {
        J row = J::arr();
        for (int j = 0; j < 4; j++) row.push(m.GetElement(i, j));
        r.push(row);
    }
    return r;
}
static Matrix4d keep(Ctx& x, const Matrix4d& m) { x.M[x.cur] = m; return m; }
static XYZ vec(const J& j) { return xyz(j); }

OP("MatMake")
{
    std::string k = e["k"].s;
    Mat m;
    if (k == "identity") m = Mat();
    else if (k == "translation") m = Mat::CreateTranslation(vec(e["a"]));
    else if (k == "scale") m = Mat::CreateScale(vec(e["a"]));
    else if (k == "rotation") m = Mat::CreateRotation(vec(e["a"]), e["t"].d());
    else if (k == "rotationAt") m = Mat::CreateRotationAtPoint(vec(e["o"]), vec(e["a"]), e["t"].d());
    else if (k == "reflection") m = Mat::CreateReflection(vec(e["a"]));
    else if (k == "reflectionAt") m = Mat::CreateReflection(vec(e["a"]), e["t"].d());
    else if (k == "basis") m = Mat(vec(e["g"].at(0)), vec(e["g"].at(1)), vec(e["g"].at(2)), vec(e["g"].at(3)));
    else if (k == "setters")
    {
        m.SetBasisX(vec(e["g"].at(0))); m.SetBasisY(vec(e["g"].at(1))); m.SetBasisZ(vec(e["g"].at(2))); m.SetBasisW(vec(e["g"].at(3)));
    }
    else
    {
        auto g = dmat(e["g"]);
        if (k == "elements") m = Mat(g[0][0], g[0][1], g[0][2], g[0][3], g[1][0], g[1][1], g[1][2], g[1][3], g[2][0], g[2][1], g[2][2], g[2][3], g[3][0], g[3][1], g[3][2], g[3][3]);
        else for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m.SetElement(i, j, g[i][j]);
    }
    J r = J::obj();
    r.set("m", outM(keep(x, m)));
    return r;
}
END;
OP("MatMul")
{
    Mat a = x.M.at(e["a"].n()), b = x.M.at(e["b"].n());
    J r = J::obj();
    r.set("m", outM(keep(x, a.Multiply(b)))).set("op", outM(a * b)).set("add", outM(a + b)).set("sub", outM(a - b));
    r.set("same", outM(a)).set("same2", outM(b));
    return r;
}
END;
OP("MatInv")
{
    Mat a = x.M.at(e["a"].n()), b;
    bool ok = a.GetInverse(b);
    J r = J::obj();
    if (ok) keep(x, b);
    r.set("ok", ok).set("m", outM(b));
    return r;
}
END;
OP("MatT")
{
    J r = J::obj();
    Mat a = x.M.at(e["a"].n());
    r.set("m", outM(keep(x, a.GetTranspose())));
    return r;
}
END;
OP("MatAsk")
{
    Mat a = x.M.at(e["a"].n());
    J r = J::obj();
    r.set("det", a.GetDeterminant()).set("scale", out(a.GetScale())).set("ident", a.IsIdentity()).set("trans", a.IsTranslation()).set("refl", a.HasReflection());
    J b = J::arr();
    b.push(out(a.GetBasisX())).push(out(a.GetBasisY())).push(out(a.GetBasisZ())).push(out(a.GetBasisW()));
    r.set("basis", b);
    return r;
}
END;
OP("MatApply")
{
    Mat a = x.M.at(e["a"].n());
    J r = J::obj();
    r.set("p", out(a.OfPoint(xyz(e["q"])))).set("v", out(a.OfVector(xyz(e["q"])))).set("h", out(a.OfWeightedPoint(XYZW(xyz(e["q"]), e["w"].d()))));
    return r;
}
END;

// the vector predicates with a tolerance of the caller's
OP("VecTol")
{
    (void)x;
    std::vector<double> a = dvec(e["a"]), b = dvec(e["b"]);
    double k = e["eps"].d();
    P3 p(a[0], a[1], a[2]), q(b[0], b[1], b[2]);
    P2 s(a[0], a[1]), t(b[0], b[1]);
    J r = J::obj();
    r.set("zero", p.IsZero(k)).set("unit", p.IsUnit(k)).set("zero2", s.IsZero(k)).set("unit2", s.IsUnit(k));
#ifdef VP_CAPI
    r.set("eq", p.IsAlmostEqualTo(q, k)).set("eq2", s.IsAlmostEqualTo(t, k));
#else
    bool v[3];
    for (int i = 0; i < 3; i++) v[i] = MathUtils::IsAlmostEqualTo(a[i], b[i], k);
    r.set("eq", v[0] && v[1] && v[2]).set("eq2", v[0] && v[1]);
#endif
    return r;
}
END;

// every operation of the vector classes on a, b (4 numbers each) and the number k
OP("Vec")
{
    std::vector<double> a = dvec(e["a"]), b = dvec(e["b"]);
    double k = e["k"].d();
    J r = J::obj();
    {
        P3 p(a[0], a[1], a[2]), q(b[0], b[1], b[2]);
        J t = J::obj();
        t.set("add", out(p + q)).set("add2", out(p.Add(q))).set("sub", out(p - q)).set("sub2", out(p.Substract(q))).set("neg", out(-p)).set("neg2", out(p.Negative()));
        t.set("dot", p.DotProduct(q)).set("dot2", p * q).set("cross", out(p.CrossProduct(q))).set("cross2", out(p ^ q)).set("dist", p.Distance(q)).set("len", p.Length()).set("sqr", p.SqrLength());
        t.set("mul", out(p * k)).set("mul2", out(k * p)).set("div", out(p / k));
        P3 n = p.Normalize();
        t.set("norm", out(n)).set("unit", n.IsUnit()).set("punit", p.IsUnit()).set("zero", p.IsZero()).set("eq", p.IsAlmostEqualTo(q)).set("eqself", p.IsAlmostEqualTo(p)).set("angle", p.AngleTo(q));
        P3 s = p; s += q; t.set("iadd", out(s)); s = p; s -= q; t.set("isub", out(s)); s = p; s *= k; t.set("imul", out(s)); s = p; s /= k; t.set("idiv", out(s));
        P3 g; g.SetX(a[0]); g.SetY(a[1]); g.SetZ(a[2]); t.set("set", out(g));
        P3 i; i[0] = p.X(); i[1] = p.Y(); i[2] = p.Z(); t.set("idx", out(i));
        t.set("same", out(p));
        r.set("xyz", t);
    }
    {
        UVW p(a[0], a[1], a[2]), g, i;
        g.SetU(a[0]); g.SetV(a[1]); g.SetW(a[2]); i.U() = p.U(); i.V() = p.V(); i.W() = p.W();
        J t = J::obj();
        t.set("get", out(p)).set("set", out(g)).set("idx", out(i));
        r.set("uvw", t);
    }
    {
        P2 p(a[0], a[1]), q(b[0], b[1]);
        J t = J::obj();
        t.set("add", out(p + q)).set("add2", out(p.Add(q))).set("sub", out(p - q)).set("sub2", out(p.Substract(q))).set("neg", out(-p)).set("neg2", out(p.Negative()));
        t.set("dot", p.DotProduct(q)).set("dot2", p * q).set("cross", p.CrossProduct(q)).set("cross2", p ^ q).set("dist", p.Distance(q)).set("len", p.Length()).set("sqr", p.SqrLength());
        t.set("mul", out(p * k)).set("mul2", out(k * p)).set("div", out(p / k));
        P2 n = p.Normalize();
        t.set("norm", out(n)).set("unit", n.IsUnit()).set("punit", p.IsUnit()).set("zero", p.IsZero()).set("eq", p.IsAlmostEqualTo(q)).set("eqself", p.IsAlmostEqualTo(p));
        P2 s = p; s += q; t.set("iadd", out(s)); s = p; s -= q; t.set("isub", out(s)); s = p; s *= k; t.set("imul", out(s)); s = p; s /= k; t.set("idiv", out(s));
        P2 g; g.SetU(a[0]); g.SetV(a[1]); t.set("set", out(g));
        P2 i; i[0] = p.U(); i[1] = p.V(); t.set("idx", out(i));
        t.set("same", out(p));
        r.set("uv", t);
    }
    {
        P4 p(a[0], a[1], a[2], a[3]), q(b[0], b[1], b[2], b[3]);
        J t = J::obj();
        t.set("add", out(p + q)).set("sub", out(p - q)).set("mul", out(p * k)).set("mul2", out(k * p)).set("div", out(p / k)).set("dist", p.Distance(q));
        P4 s = p; s += q; t.set("iadd", out(s));
        t.set("point", out(p.ToXYZ(true))).set("raw", out(p.ToXYZ(false))).set("eq", p.IsAlmostEqualTo(q)).set("eqscaled", p.IsAlmostEqualTo(p * k));
        P4 w = p; w.SetW(k); t.set("setw", out(w));
        t.set("of", out(P4(P3(a[0], a[1], a[2]), a[3])));
        P4 i; i[0] = p.WX(); i[1] = p.WY(); i[2] = p.WZ(); i[3] = p.W(); t.set("idx", out(i));
        r.set("xyzw", t);
    }
    return r;
}
END;
OP("Orth")
{
    J l = J::arr();
    for (int i = 0; i < 6; i++) l.push(out(P3::CreateRandomOrthogonal(xyz(e["a"]))));
    J r = J::obj();
    r.set("l", l);
    return r;
}
END;

// comparisons with tolerance
OP("Compare")
{
    double a = e["a"].d(), b = e["b"].d(), t = e["t"].d();
    J r = J::obj();
    r.set("eq", MathUtils::IsAlmostEqualTo(a, b, t)).set("gt", MathUtils::IsGreaterThan(a, b, t)).set("ge", MathUtils::IsGreaterThanOrEqual(a, b, t));
    r.set("lt", MathUtils::IsLessThan(a, b, t)).set("le", MathUtils::IsLessThanOrEqual(a, b, t));
    r.set("inf", MathUtils::IsInfinite(a)).set("nan", MathUtils::IsNaN(a));
    return r;
}
END;
OP("Numbers")
{
    int n = e["n"].n();
    J b = J::arr();
    for (int i = -1; i <= n + 1; i++) b.push(MathUtils::Binomial(n, i));
    J r = J::obj();
    r.set("binom", b);
    r.set("fact", n <= 20 ? (double)MathUtils::Factorial(n) : -1.0);
    r.set("deg", MathUtils::RadiansToAngle(e["t"].d())).set("rad", MathUtils::AngleToRadians(e["t"].d()));
    return r;
}
END;
OP("Cubic") { J r = J::obj(); auto c = dvec(e["a"]); r.set("t", MathUtils::ComputerCubicEquationsWithOneVariable(c[0], c[1], c[2], c[3])); return r; } END;
OP("LinMul")
{
    auto a = dmat(e["a"]), b = dmat(e["b"]);
    J r = J::obj();
    std::vector<std::vector<double>> t;
    MathUtils::Transpose(a, t);
    r.set("m", out(MathUtils::MatrixMultiply(a, b))).set("t", out(t)).set("col", out(MathUtils::GetColumn(a, (int)a[0].size() - 1)));
    r.set("zero", out(MathUtils::CreateMatrix((int)a.size(), (int)b[0].size()))).set("one", out(MathUtils::MakeDiagonal((int)a.size())));
    return r;
}
END;
OP("CtrlGrid")
{
    auto P = hmat(e["P"]);
    auto a = dmat(e["a"]), b = dmat(e["b"]);
    auto grid = [](const auto& g) { J r = J::arr(); for (auto& l : g) { J q = J::arr(); for (auto& p : l) q.push(out(p)); r.push(q); } return r; };
    J r = J::obj(), row = J::arr();
    auto Q = ControlPointsUtils::ToXYZ(P);
    for (auto& p : ControlPointsUtils::ToXYZ(P[0])) row.push(out(p));
    r.set("pb", grid(ControlPointsUtils::Multiply(P, b))).set("ap", grid(ControlPointsUtils::Multiply(a, P))).set("q", grid(Q)).set("row", row).set("h", grid(ControlPointsUtils::ToXYZW(Q)));
    return r;
}
END;
OP("LinSolve")
{
    auto a = dmat(e["a"]), b = dmat(e["b"]);
    J r = J::obj();
    r.set("m", out(MathUtils::SolveLinearSystem(a, b)));
    if (a.size() == a[0].size())
    {
        std::vector<std::vector<double>> inv;
        bool ok = MathUtils::MakeInverse(a, inv);
        r.set("det", MathUtils::GetDeterminant(a)).set("ok", ok);
        r.set("inv", ok ? out(inv) : J::arr());
    }
    return r;
}
END;
OP("LinBand")
{
    auto a = dmat(e["a"]), b = dmat(e["b"]);
    std::vector<std::vector<double>> res(b.size(), std::vector<double>(b[0].size(), 0.0));
    bool ok = MathUtils::SolveLinearSystemBanded((int)a.size(), a, e["bw"].n(), b, res);
    J r = J::obj();
    r.set("ok", ok).set("m", out(res));
    return r;
}
END;
static double horner(const std::vector<double>& c, double t) { double s = 0; for (size_t i = c.size(); i-- > 0;) s = s * t + c[i]; return s; }
struct Poly1 : public IntegrationFunction { double operator()(double t, void* d) override { return horner(*(std::vector<double>*)d, t); } };
struct Poly2 : public BinaryIntegrationFunction
{
    double operator()(double u, double v, void* d) const override
    {
        auto& c = *(std::vector<std::vector<double>>*)d;
        double s = 0;
        for (size_t i = c.size(); i-- > 0;) s = s * u + horner(c[i], v);
        return s;
    }
};
OP("Quad1")
{
    auto c = dvec(e["a"]);
    double a = e["lo"].d(), b = e["hi"].d();
    Poly1 f;
    J r = J::obj();
    r.set("simpson", Integrator::Simpson(f, &c, a, b));
    std::vector<double> s = Integrator::ChebyshevSeries();
    r.set("cc", Integrator::ClenshawCurtisQuadrature(f, &c, a, b, s));
    // the table serves several integrals
    r.set("cc2", Integrator::ClenshawCurtisQuadrature(f, &c, a, b, s));
    std::vector<double> s2 = Integrator::ChebyshevSeries();
    r.set("ccv", Integrator::ClenshawCurtisQuadrature2(f, &c, a, b, s2));
    double g = 0;
    for (size_t i = 0; i < Integrator::GaussLegendreAbscissae.size(); i++)
        g += Integrator::GaussLegendreWeights[i] * horner(c, (b - a) * 0.5 * Integrator::GaussLegendreAbscissae[i] + (a + b) * 0.5);
    r.set("gl", g * (b - a) * 0.5);
    return r;
}
END;
OP("Quad2")
{
    auto c = dmat(e["a"]);
    auto q = dvec(e["box"]);
    Poly2 f;
    J r = J::obj();
    r.set("simpson", Integrator::Simpson(f, &c, q[0], q[1], q[2], q[3]));
    return r;
}
END;
// kinds as the header names them; s = 1 or -1: the sign of the sine
OP("FFT")
{
    std::string k = e["k"].s;
    auto a = dvec(e["a"]);
    int n = e["n"].n();
    double s = e["s"].n();
    double pi = std::acos(-1.0);
    if (k == "cdft") LNLib::cdft(2 * n, std::cos(pi / n), s * std::sin(pi / n), a);
    if (k == "rdft") LNLib::rdft(n, std::cos(pi / n), s * std::sin(pi / n), a);
    if (k == "ddct") LNLib::ddct(n, std::cos(pi / n / 2), s * std::sin(pi / n / 2), a);
    if (k == "ddst") LNLib::ddst(n, std::cos(pi / n / 2), s * std::sin(pi / n / 2), a);
    if (k == "dfct") LNLib::dfct(n, std::cos(pi / n), std::sin(pi / n), a);
    if (k == "dfst") LNLib::dfst(n, std::cos(pi / n), std::sin(pi / n), a);
    J r = J::obj();
    r.set("a", out(a));
    return r;
}
END;

OP("Rays")
{
    double t0 = 0, t1 = 0; XYZ p;
    auto k = Intersection::ComputeRays(xyz(e["p0"]), xyz(e["v0"]), xyz(e["p1"]), xyz(e["v1"]), t0, t1, p);
    const char* n = k == CurveCurveIntersectionType::Intersecting ? "Intersecting" : k == CurveCurveIntersectionType::Parallel ? "Parallel" : k == CurveCurveIntersectionType::Coincident ? "Coincident" : "Skew";
    J r = J::obj();
    r.set("k", n).set("t0", t0).set("t1", t1).set("p", out(p));
    return r;
}
END;
OP("LinePlane")
{
    XYZ p;
    auto k = Intersection::ComputeLineAndPlane(xyz(e["n"]), xyz(e["o"]), xyz(e["q"]), xyz(e["d"]), p);
    J r = J::obj();
    r.set("k", k == LinePlaneIntersectionType::Intersecting ? "Intersecting" : k == LinePlaneIntersectionType::Parallel ? "Parallel" : "On").set("p", out(p));
    return r;
}
END;
OP("Project")
{
    XYZ p;
    J r = J::obj();
    r.set("ray", out(Projection::PointToRay(xyz(e["a"]), xyz(e["b"]) - xyz(e["a"]), xyz(e["q"]))));
    bool ok = Projection::PointToLine(xyz(e["a"]), xyz(e["b"]), xyz(e["q"]), p);
    r.set("ok", ok).set("p", out(p));
    return r;
}
END;
OP("Stereo") { J r = J::obj(); r.set("p", out(Projection::Stereographic(xyz(e["q"]), e["t"].d()))); return r; } END;
static void walk(Octant* o, int n, std::vector<int>& seen, bool& nested, bool& parts)
{
    if (!o) return;
    std::vector<int> sub;
    bool any = false;
    for (auto* c : o->Children) if (c)
    {
        any = true;
        if (c->Extent > o->Extent) nested = false;
        for (int i : c->PointIndices) sub.push_back(i);
        walk(c, n, seen, nested, parts);
    }
    if (o->IsLeaf) { if (any) parts = false; for (int i : o->PointIndices) if (i >= 0 && i < n) seen[i]++; }
    else if (sub.size() != o->PointIndices.size()) parts = false;
}
OP("Octree")
{
    auto db = pvec(e["P"]);
    Octant* root = OctreeConstruction(db, e["leaf"].n(), e["ext"].d());
    J r = J::obj();
    std::vector<int> seen(db.size(), 0);
    bool nested = true, parts = true;
    walk(root, (int)db.size(), seen, nested, parts);
    r.set("seen", out(seen)).set("parts", nested && parts);
    J rad = J::arr(), radf = J::arr(), knn = J::arr(), cnt = J::arr();
    for (auto& q : e["Q"].a)
    {
        J a = J::arr(), b = J::arr(), c = J::arr(), d = J::arr();
        for (double t : dvec(e["R"]))
        {
            RadiusNnResultSet s(t); OctreeRadiusSearch(root, db, s, xyz(q)); a.push(s.Size());
            RadiusNnResultSet f(t); OctreeRadiusSearchFast(root, db, f, xyz(q)); b.push(f.Size());
        }
        for (int k : ivec(e["K"])) { KnnResultSet s(k); OctreeKnnSearch(root, db, s, xyz(q)); c.push(s.WorstDist()); d.push(s.Size()); }
        rad.push(a); radf.push(b); knn.push(c); cnt.push(d);
    }
    delete root;
    r.set("rad", rad).set("radf", radf).set("knn", knn).set("cnt", cnt);
    return r;
}
END;
