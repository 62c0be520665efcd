// Conformance driver: executes scenarios (one JSON object per line) against the library and
// logs, per event, what was asked and what the library answered.
#pragma once
#include "json.h"
#include <functional>
#include "Constants.h"
#include "UV.h"
#include "UVW.h"
#include "XYZ.h"
#include "XYZW.h"
#include "Matrix4d.h"
#include "LNObject.h"
#include "LNEnums.h"

using namespace LNLib;

struct Ctx
{
    std::map<int, LN_NurbsCurve> C;       // event index (1-based) -> object
    std::map<int, LN_NurbsSurface> S;
    std::map<int, LN_NurbsVolume> V;
    std::map<std::pair<int,int>, LN_NurbsCurve> CL;
    std::map<int, Matrix4d> M;
    int cur = 0;
    const LN_NurbsCurve& c(const J& e, const char* key = "c") const { return C.at(e[key].n()); }
    const LN_NurbsSurface& s(const J& e, const char* key = "s") const { return S.at(e[key].n()); }
    const LN_NurbsVolume& v(const J& e, const char* key = "v") const { return V.at(e[key].n()); }
};

inline XYZ xyz(const J& j) { return XYZ(j.at(0).d(), j.at(1).d(), j.at(2).d()); }
inline XYZW xyzw(const J& j) { return XYZW(j.at(0).d(), j.at(1).d(), j.at(2).d(), j.at(3).d()); }
inline std::vector<double> dvec(const J& j) { std::vector<double> r; for (auto& x : j.a) r.push_back(x.d()); return r; }
inline std::vector<int> ivec(const J& j) { std::vector<int> r; for (auto& x : j.a) r.push_back(x.n()); return r; }
inline std::vector<XYZ> pvec(const J& j) { std::vector<XYZ> r; for (auto& x : j.a) r.push_back(xyz(x)); return r; }
inline std::vector<XYZW> hvec(const J& j) { std::vector<XYZW> r; for (auto& x : j.a) r.push_back(xyzw(x)); return r; }
inline std::vector<std::vector<double>> dmat(const J& j) { std::vector<std::vector<double>> r; for (auto& x : j.a) r.push_back(dvec(x)); return r; }
inline std::vector<std::vector<XYZ>> pmat(const J& j) { std::vector<std::vector<XYZ>> r; for (auto& x : j.a) r.push_back(pvec(x)); return r; }
inline std::vector<std::vector<XYZW>> hmat(const J& j) { std::vector<std::vector<XYZW>> r; for (auto& x : j.a) r.push_back(hvec(x)); return r; }

inline J out(const XYZ& p) { J j = J::arr(); j.push(p.GetX()).push(p.GetY()).push(p.GetZ()); return j; }
inline J out(const UV& p) { J j = J::arr(); j.push(p.GetU()).push(p.GetV()); return j; }
inline J out(const UVW& p) { J j = J::arr(); j.push(p.GetU()).push(p.GetV()).push(p.GetW()); return j; }
inline J out(const XYZW& p) { J j = J::arr(); j.push(p.GetWX()).push(p.GetWY()).push(p.GetWZ()).push(p.GetW()); return j; }
inline J out(double x) { return J(x); }
inline J out(int x) { return J(x); }
template <class T> J out(const std::vector<T>& v) { J j = J::arr(); for (const auto& x : v) j.push(out(x)); return j; }
inline J out(const LN_NurbsCurve& c)
{
    J j = J::obj();
    j.set("p", c.Degree).set("U", out(c.KnotVector)).set("P", out(c.ControlPoints));
    return j;
}
inline J out(const LN_NurbsSurface& s)
{
    J j = J::obj();
    j.set("pu", s.DegreeU).set("pv", s.DegreeV).set("U", out(s.KnotVectorU)).set("V", out(s.KnotVectorV)).set("P", out(s.ControlPoints));
    return j;
}
inline J out(const LN_NurbsVolume& s)
{
    J j = J::obj();
    j.set("pu", s.DegreeU).set("pv", s.DegreeV).set("pw", s.DegreeW).set("U", out(s.KnotVectorU)).set("V", out(s.KnotVectorV)).set("W", out(s.KnotVectorW)).set("P", out(s.ControlPoints));
    return j;
}
inline LN_NurbsCurve curve(const J& j)
{
    LN_NurbsCurve c; c.Degree = j["p"].n(); c.KnotVector = dvec(j["U"]); c.ControlPoints = hvec(j["P"]); return c;
}
inline LN_NurbsSurface surface(const J& j)
{
    LN_NurbsSurface c; c.DegreeU = j["pu"].n(); c.DegreeV = j["pv"].n(); c.KnotVectorU = dvec(j["U"]); c.KnotVectorV = dvec(j["V"]); c.ControlPoints = hmat(j["P"]); return c;
}
inline LN_NurbsVolume volume(const J& j)
{
    LN_NurbsVolume c; c.DegreeU = j["pu"].n(); c.DegreeV = j["pv"].n(); c.DegreeW = j["pw"].n();
    c.KnotVectorU = dvec(j["U"]); c.KnotVectorV = dvec(j["V"]); c.KnotVectorW = dvec(j["W"]);
    for (auto& x : j["P"].a) c.ControlPoints.push_back(hmat(x));
    return c;
}

// An operation: reads its arguments from e, returns the logged result; may define an object under x.cur.
typedef std::function<J(const J& e, Ctx& x)> Op;
std::map<std::string, Op>& ops();
struct Reg { Reg(const char* n, Op f) { ops()[n] = f; } };
#define OP2(n, l) static Reg reg_##l(n, [](const J& e, Ctx& x) -> J
#define OP1(n, l) OP2(n, l)
#define OP(n) OP1(n, __LINE__)
#define END )
