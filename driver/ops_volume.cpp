#include "driver.h"
#include "NurbsVolume.h"

static J one(Ctx& x, const LN_NurbsVolume& s)
{
    x.V[x.cur] = s;
    J r = J::obj();
    r.set("v", out(s));
    return r;
}
static UVW uvw(const J& e) { return UVW(e["u"].d(), e["q"].d(), e["w"].d()); }
static VolumeDirection dir(const J& e) { return (VolumeDirection)e["dir"].n(); }

OP("DefVol") { return one(x, volume(e["v0"])); } END;
OP("VEval") { J r = J::obj(); r.set("pt", out(NurbsVolume::GetPointOnVolume(x.v(e), uvw(e)))); return r; } END;
OP("VDers") { J r = J::obj(); r.set("d", out(NurbsVolume::ComputeVolumeRationalDerivatives(x.v(e), e["d"].n(), uvw(e)))); return r; } END;
OP("VIso")
{
    LN_NurbsCurve c = NurbsVolume::GetIsoCurve(x.v(e), uvw(e));
    x.C[x.cur] = c;
    J r = J::obj(); r.set("c", out(c));
    return r;
}
END;
OP("VInsert") { LN_NurbsVolume res; NurbsVolume::InsertKnot(x.v(e), e["u"].d(), e["t"].n(), dir(e), res); return one(x, res); } END;
OP("VRefine") { LN_NurbsVolume res; NurbsVolume::RefineKnotVector(x.v(e), dvec(e["X"]), dir(e), res); return one(x, res); } END;
OP("VElevate") { LN_NurbsVolume res; NurbsVolume::ElevateDegree(x.v(e), e["t"].n(), dir(e), res); return one(x, res); } END;
OP("VReverse") { LN_NurbsVolume res; NurbsVolume::Reverse(x.v(e), dir(e), res); return one(x, res); } END;
OP("VSwap") { LN_NurbsVolume res; NurbsVolume::Swap(x.v(e), dir(e), (VolumeDirection)e["dir2"].n(), res); return one(x, res); } END;
OP("VSplit")
{
    LN_NurbsVolume a, b;
    bool ok = NurbsVolume::SplitAt(x.v(e), e["u"].d(), dir(e), a, b);
    J r = J::obj();
    r.set("b", ok);
    if (ok) r.set("l", out(a)).set("r", out(b));
    if (ok) { x.V[x.cur] = e.has("right") && e["right"].b() ? b : a; r.set("v", out(x.V[x.cur])); }
    return r;
}
END;
OP("VExtract")
{
    LN_NurbsSurface s;
    bool ok = NurbsVolume::Extract(x.v(e), e["u"].d(), dir(e), s);
    J r = J::obj();
    r.set("b", ok).set("s", out(s));
    x.S[x.cur] = s;
    return r;
}
END;
OP("VClosed") { J r = J::obj(); r.set("b", NurbsVolume::IsClosed(x.v(e), dir(e))); return r; } END;
OP("VParam") { J r = J::obj(); r.set("uvw", out(NurbsVolume::GetParamOnVolume(x.v(e), xyz(e["q"])))); return r; } END;
