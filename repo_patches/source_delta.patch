From 9d32c58800b023387201115104d306bb3f5796ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:52 +0000
Subject: [PATCH 01/79] fix: DecomposeToBeziers advances over interior knots of
 multiplicity >= degree

With an interior knot of full multiplicity the segment counter and the
control point copy were skipped, so later segments were wrong; with degree
one and any interior knot the loop never ended.
---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index e63ba68..626e644 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -717,18 +717,18 @@ std::vector<LNLib::LN_NurbsCurve> LNLib::NurbsCurve::DecomposeToBeziers(const LN
 					beziers[nb + 1].ControlPoints[save] = beziers[nb].ControlPoints[degree];
 				}
 			}
+		}
 
-			nb++;
-			if (b < m)
+		nb++;
+		if (b < m)
+		{
+			for (int i = std::max(0, degree - multi); i <= degree; i++)
 			{
-				for (int i = degree - multi; i <= degree; i++)
-				{
-					beziers[nb].ControlPoints[i] = controlPoints[b - degree + i];
-				}
-
-				a = b;
-				b += 1;
+				beziers[nb].ControlPoints[i] = controlPoints[b - degree + i];
 			}
+
+			a = b;
+			b += 1;
 		}
 	}
 	return beziers;
-- 
2.43.0


From 56f30992b5cfc188c196a80c4a60f68aaa5743d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:52 +0000
Subject: [PATCH 02/79] fix: ElevateDegree sizes its result by distinct
 interior knots

Interior knots were counted with multiplicity, so curves with repeated
interior knots got surplus zero knots and control points.
---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 626e644..8824483 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -936,7 +936,14 @@ void LNLib::NurbsCurve::ElevateDegree(const LN_NurbsCurve& curve, int times, LN_
 
 	int startIdx = degree + 1;
 	int endIdx = static_cast<int>(knotVector.size()) - (degree + 1);
-	int uniqueCount = endIdx - startIdx;
+	int uniqueCount = 0;
+	for (int i = startIdx; i < endIdx; i++)
+	{
+		if (!MathUtils::IsAlmostEqualTo(knotVector[i], knotVector[i - 1]))
+		{
+			uniqueCount++;
+		}
+	}
 	int nh = n + (uniqueCount + 1) * times;
 
 	int moresize = nh + 1;
-- 
2.43.0


From b28d90e35b554d990a92cdde542cdafb9de43eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:52 +0000
Subject: [PATCH 03/79] fix: RemoveKnot drops as many knots as it removed
 control points

When fewer than the requested number of copies can be removed the knot
vector still lost all of them, leaving a curve that violates m = n + p + 1.
---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 8824483..2f936f5 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -753,17 +753,6 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 	int first = r - degree;
 	int last = r - s;
 
-	std::vector<double> restKnotVector = knotVector;
-	int m = n + degree + 1;
-	for (int k = r + 1; k <= m; k++)
-	{
-		restKnotVector[k - times] = restKnotVector[k];
-	}
-	for (int i = 0; i < times; i++)
-	{
-		restKnotVector.pop_back();
-	}
-
 	std::vector<XYZW> updatedControlPoints = controlPoints;
 	std::vector<XYZW> temp(2 * degree + 1);
 
@@ -835,6 +824,17 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 		return false;
 	}
 
+	std::vector<double> restKnotVector = knotVector;
+	int m = n + degree + 1;
+	for (int k = r + 1; k <= m; k++)
+	{
+		restKnotVector[k - t] = restKnotVector[k];
+	}
+	for (int i = 0; i < t; i++)
+	{
+		restKnotVector.pop_back();
+	}
+
 	int j = (2 * r - s - degree) / 2;
 	int i = j;
 
-- 
2.43.0


From 80140ed10dd145bc5e563278cc67e5d2c3cce316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:04 +0000
Subject: [PATCH 04/79] fix: Bernstein evaluates every index

The de Casteljau triangle was started at row 'index' instead of 1, so
Bernstein(i, n, t) with 1 < i < n was wrong (e.g. i = 2, n = 3).
---
 src/LNLib/Algorithm/Polynomials.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Algorithm/Polynomials.cpp b/src/LNLib/Algorithm/Polynomials.cpp
index 124a398..b9fc014 100644
--- a/src/LNLib/Algorithm/Polynomials.cpp
+++ b/src/LNLib/Algorithm/Polynomials.cpp
@@ -49,7 +49,7 @@ double Polynomials::Bernstein(int index, int degree, double paramT)
 	temp[degree - index] = 1.0;
 	double t1 = 1.0 - paramT;
 
-	for (int k = index; k <= degree; k++)
+	for (int k = 1; k <= degree; k++)
 	{
 		for (int j = degree; j >= k; j--)
 		{
-- 
2.43.0


From 65471d85082d2b4c6ddb35f85c9d915f99f907c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:07 +0000
Subject: [PATCH 05/79] fix: GetPointOnQuadraticArc divides each point by its
 own weight

---
 src/LNLib/Geometry/Curve/BezierCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/BezierCurve.cpp b/src/LNLib/Geometry/Curve/BezierCurve.cpp
index 443de54..fb3fb51 100644
--- a/src/LNLib/Geometry/Curve/BezierCurve.cpp
+++ b/src/LNLib/Geometry/Curve/BezierCurve.cpp
@@ -29,9 +29,9 @@ XYZ LNLib::BezierCurve::GetPointOnQuadraticArc(const XYZW& startPoint, const XYZ
 	double w0 = startPoint.GetW();
 	XYZ P0 = XYZ(startPoint.GetWX()/w0, startPoint.GetWY()/w0, startPoint.GetWZ()/w0);
 	double w1 = middlePoint.GetW();
-	XYZ P1 = XYZ(middlePoint.GetWX() / w0, middlePoint.GetWY() / w0, middlePoint.GetWZ() / w0);
+	XYZ P1 = XYZ(middlePoint.GetWX() / w1, middlePoint.GetWY() / w1, middlePoint.GetWZ() / w1);
 	double w2 = endPoint.GetW();
-	XYZ P2 = XYZ(endPoint.GetWX() / w0, endPoint.GetWY() / w0, endPoint.GetWZ() / w0);
+	XYZ P2 = XYZ(endPoint.GetWX() / w2, endPoint.GetWY() / w2, endPoint.GetWZ() / w2);
 
 	return  ((1 - paramT) * (1 - paramT) * w0 * P0 + 2 * paramT * (1 - paramT) * w1 * P1 + paramT * paramT * w2 * P2) / ((1 - paramT) * (1 - paramT) * w0 + 2 * paramT * (1 - paramT) * w1 + paramT * paramT * w2);
 }
-- 
2.43.0


From f6e4f49685aecdc938361c0f5e5e975468c120ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:19 +0000
Subject: [PATCH 06/79] fix: Curvature, Normal and Torsion do not assume
 arc-length parametrization at unit speed

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 42 +++++--------------------
 1 file changed, 7 insertions(+), 35 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 2f936f5..9125abd 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -313,10 +313,6 @@ double LNLib::NurbsCurve::Curvature(const LN_NurbsCurve& curve, double paramT)
 	std::vector<XYZ> derivatives = ComputeRationalCurveDerivatives(curve, 2, paramT);
 	XYZ d1 = derivatives[1];
 	XYZ d2 = derivatives[2];
-	if (MathUtils::IsAlmostEqualTo(d1.Length(), 1.0))
-	{
-		return d2.Length();
-	}
 	double numerator = d1.CrossProduct(d2).Length();
 	double denominator = pow(d1.Length(), 3);
 	return numerator / denominator;
@@ -333,29 +329,14 @@ LNLib::XYZ LNLib::NurbsCurve::Normal(const LN_NurbsCurve& curve, CurveNormal nor
 	std::vector<XYZ> derivatives = ComputeRationalCurveDerivatives(curve, 2, paramT);
 	XYZ tangent = derivatives[1];
 	XYZ der2 = derivatives[2];
-	if (MathUtils::IsAlmostEqualTo(tangent.Length(), 1.0))
+	XYZ b = tangent.CrossProduct(der2) / (tangent.CrossProduct(der2).Length());
+	if (normalType == CurveNormal::Binormal)
 	{
-		XYZ curveNormal = der2 / der2.Length();
-		if (normalType == CurveNormal::Normal)
-		{
-			return curveNormal;
-		}
-		else
-		{
-			return tangent.CrossProduct(curveNormal);
-		}
+		return b;
 	}
 	else
 	{
-		XYZ b = tangent.CrossProduct(der2) / (tangent.CrossProduct(der2).Length());
-		if (normalType == CurveNormal::Binormal)
-		{
-			return b;
-		}
-		else
-		{
-			return b.Normalize().CrossProduct(tangent.Normalize());
-		}
+		return b.Normalize().CrossProduct(tangent.Normalize());
 	}
 }
 
@@ -431,18 +412,9 @@ double LNLib::NurbsCurve::Torsion(const LN_NurbsCurve& curve, double paramT)
 	XYZ tangent = derivatives[1];
 	XYZ der2 = derivatives[2];
 	XYZ der3 = derivatives[3];
-	if (MathUtils::IsAlmostEqualTo(tangent.Length(), 1.0))
-	{
-		double numerator = (tangent.CrossProduct(der2)).DotProduct(der3);
-		double denominator = der2.DotProduct(der2);
-		return numerator / denominator;
-	}
-	else
-	{
-		double numerator = (tangent.CrossProduct(der2)).DotProduct(der3);
-		double denominator = (tangent.CrossProduct(der2).DotProduct(tangent.CrossProduct(der2)));
-		return numerator / denominator;
-	}
+	double numerator = (tangent.CrossProduct(der2)).DotProduct(der3);
+	double denominator = (tangent.CrossProduct(der2).DotProduct(tangent.CrossProduct(der2)));
+	return numerator / denominator;
 }
 
 int LNLib::NurbsCurve::InsertKnot(const LN_NurbsCurve& curve, double insertKnot, int times, LN_NurbsCurve& result)
-- 
2.43.0


From 91f2b41ad4e12226763dae1aed2f08f381c62f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:12 +0000
Subject: [PATCH 07/79] fix: use std::abs for doubles instead of the integer
 abs

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp     | 10 +++++-----
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 9125abd..af854e4 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -53,7 +53,7 @@ namespace LNLib
 
 		double differ = left + right - simpson;
 		if (MathUtils::IsAlmostEqualTo(differ, 0.0) || 
-			MathUtils::IsLessThan(abs(differ) / 15.0, tolearance))
+			MathUtils::IsLessThan(std::abs(differ) / 15.0, tolearance))
 		{
 			length = left + right + differ / 15.0;
 		}
@@ -1471,7 +1471,7 @@ void LNLib::NurbsCurve::Reparametrize(const LN_NurbsCurve& curve, double alpha,
 			double lambda = updatedKnotVector[i + j] * gamma - alpha;
 			temp = temp * lambda;
 		}
-		double newW = abs(controlPoints[i].GetW() * temp);
+		double newW = std::abs(controlPoints[i].GetW() * temp);
 		updatedControlPoints[i] = XYZW(const_cast<XYZW&>(controlPoints[i]).ToXYZ(true), newW);
 	}
 
@@ -3282,8 +3282,8 @@ bool LNLib::NurbsCurve::NeighborWeightsModification(const LN_NurbsCurve& curve,
 	double abk = D.Distance(movePoint2) / controlLegLength;
 	double abk1 = C.Distance(movePoint1) / controlLegLength;
 
-	if (MathUtils::IsLessThan(abs(ak), 0.0) || MathUtils::IsLessThan(abs(ak1), 0.0) ||
-		MathUtils::IsLessThan(abs(abk), 0.0) || MathUtils::IsLessThan(abs(abk1), 0.0))
+	if (MathUtils::IsLessThan(std::abs(ak), 0.0) || MathUtils::IsLessThan(std::abs(ak1), 0.0) ||
+		MathUtils::IsLessThan(std::abs(abk), 0.0) || MathUtils::IsLessThan(std::abs(abk1), 0.0))
 	{
 		return false;
 	}
@@ -3327,7 +3327,7 @@ void LNLib::NurbsCurve::Warping(const LN_NurbsCurve& curve, const std::vector<do
 	{
 		double weight = temp[i].GetW();
 		XYZ currentPoint = temp[i].ToXYZ(true);
-		XYZ newPoint = currentPoint + warpShape[i] * abs(warpDistance) * W.Normalize();
+		XYZ newPoint = currentPoint + warpShape[i] * std::abs(warpDistance) * W.Normalize();
 		resultControlPoints.emplace_back(XYZW(newPoint, weight));
 	}
 	
diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 73ab061..001feda 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -290,8 +290,8 @@ double LNLib::NurbsSurface::Curvature(const LN_NurbsSurface& surface, SurfaceCur
 
 	double K = (L * N - M * M) / denominator;
 	double H = (E * N + G * L - 2 * F * M) / (2 * denominator);
-	double k1 = H + std::sqrt(abs(H * H - K));
-	double k2 = H - std::sqrt(abs(H * H - K));
+	double k1 = H + std::sqrt(std::abs(H * H - K));
+	double k2 = H - std::sqrt(std::abs(H * H - K));
 
 	if (curvature == SurfaceCurvature::Gauss)
 	{
@@ -311,7 +311,7 @@ double LNLib::NurbsSurface::Curvature(const LN_NurbsSurface& surface, SurfaceCur
 	}
 	else if (curvature == SurfaceCurvature::Abs)
 	{
-		return abs(k1) + abs(k2);
+		return std::abs(k1) + std::abs(k2);
 	}
 	else if (curvature == SurfaceCurvature::Rms)
 	{
@@ -1602,7 +1602,7 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurfaceByGSA(const LN_NurbsSurface& sur
 		double a2 = (c1 * c1 * s2 - c1 * c2 * s1 - c1 * F * s3 + c2 * E * s3 - E * s2 + F * s1)/(c1 * c1 * G - 2 * c1 * c2 * F + c2 * c2 * E - E * G + F * F);
 
 		double curvature = (L * a1 * a1 + 2 * M * a1* a2 + N * a2 * a2)/(E * a1 * a1 + 2 * F * a1 * a2 + G * a2 * a2);
-		double radius = 1 / abs(curvature);
+		double radius = 1 / std::abs(curvature);
 
 		XYZ m = p0 + radius * normal;
 		XYZ q = givenPoint + (m - givenPoint) * (1 - radius / (m.Distance(givenPoint)));
@@ -1619,8 +1619,8 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurfaceByGSA(const LN_NurbsSurface& sur
 		u0 = ut;
 		v0 = vt;
 
-		bool condition1 = MathUtils::IsLessThanOrEqual(abs(deltaU), Constants::DoubleEpsilon) && MathUtils::IsLessThanOrEqual(abs(deltaV), Constants::DoubleEpsilon);
-		bool condition2 = MathUtils::IsLessThanOrEqual((abs(deltaU) * abs(deltaU) + abs(deltaV) * abs(deltaV)), Constants::DoubleEpsilon);
+		bool condition1 = MathUtils::IsLessThanOrEqual(std::abs(deltaU), Constants::DoubleEpsilon) && MathUtils::IsLessThanOrEqual(std::abs(deltaV), Constants::DoubleEpsilon);
+		bool condition2 = MathUtils::IsLessThanOrEqual((std::abs(deltaU) * std::abs(deltaU) + std::abs(deltaV) * std::abs(deltaV)), Constants::DoubleEpsilon);
 
 		if (condition1 || condition2)
 		{
-- 
2.43.0


From 10709479e6654e8c4371c7d628f8617b483fcb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:41 +0000
Subject: [PATCH 08/79] fix: ReduceDegree refuses degree one instead of reading
 out of bounds

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index af854e4..306ebbb 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1081,7 +1081,7 @@ bool LNLib::NurbsCurve::ReduceDegree(const LN_NurbsCurve& curve, LN_NurbsCurve&
 
 	int size = controlPoints.size();
 	bool isBezier = ValidationUtils::IsValidBezier(degree, size);
-	if (!isBezier) return false;
+	if (!isBezier || degree <= 1) return false;
 
 	int r = floor((degree - 1) / 2);
 	std::vector<XYZW> updatedControlPoints(degree);
-- 
2.43.0


From 79c1eda0b0957c6a132c73a617c7569a44ff72fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:55 +0000
Subject: [PATCH 09/79] fix: Extract cuts out a valid curve over the requested
 range

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 28 ++++++++-----------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 306ebbb..852ceeb 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1575,27 +1575,17 @@ void LNLib::NurbsCurve::Extract(const LN_NurbsCurve& curve, double startParamete
 	VALIDATE_ARGUMENT(MathUtils::IsLessThan(startParameter, endParameter), "endParameter", "startParameter must less than endParameter.");
 
 	LN_NurbsCurve tempCurve = curve;
-
-	std::map<double, int> kmap = KnotVectorUtils::GetKnotMultiplicityMap(knotVector);
-
-	int mult_start = kmap[startParameter];
-	int insert_count_start = (degree + 1) - mult_start;
-	if (insert_count_start > 0) {
-		InsertKnot(tempCurve, startParameter, insert_count_start, tempCurve);
+	LN_NurbsCurve left;
+	LN_NurbsCurve right;
+	if (SplitAt(tempCurve, startParameter, left, right))
+	{
+		tempCurve = right;
 	}
-
-	int mult_end = kmap[endParameter];
-	int insert_count_end = (degree + 1) - mult_end;
-	if (insert_count_end > 0) {
-		InsertKnot(tempCurve, endParameter, insert_count_end, tempCurve);
+	if (SplitAt(tempCurve, endParameter, left, right))
+	{
+		tempCurve = left;
 	}
-
-	int ks = Polynomials::GetKnotSpanIndex(degree, tempCurve.KnotVector, startParameter);
-	int ke = Polynomials::GetKnotSpanIndex(degree, tempCurve.KnotVector, endParameter);
-
-	result.Degree = degree;
-	result.KnotVector.assign(tempCurve.KnotVector.begin() + ks, tempCurve.KnotVector.begin() + ke + 2);
-	result.ControlPoints.assign(tempCurve.ControlPoints.begin() + ks - degree, tempCurve.ControlPoints.begin() + ke + 1);
+	result = tempCurve;
 }
 
 bool LNLib::NurbsCurve::Merge(const LN_NurbsCurve& left, const LN_NurbsCurve& right, LN_NurbsCurve& result)
-- 
2.43.0


From e36a8f7185866160635b83df67e5757dbad5eefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:43 +0000
Subject: [PATCH 10/79] fix: InsertKnot hands back the curve when it inserts
 nothing

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 852ceeb..e9db6a7 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -434,6 +434,7 @@ int LNLib::NurbsCurve::InsertKnot(const LN_NurbsCurve& curve, double insertKnot,
 	}
 	if (times <= 0)
 	{
+		result = curve;
 		return 0;
 	}
 	
-- 
2.43.0


From 136c709941162eb67c624bb69debcd34e18a5b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:39 +0000
Subject: [PATCH 11/79] fix: AverageKnotVector spans the parameters it is given

---
 src/LNLib/Algorithm/Interpolation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Algorithm/Interpolation.cpp b/src/LNLib/Algorithm/Interpolation.cpp
index aeeb627..56f6bb3 100644
--- a/src/LNLib/Algorithm/Interpolation.cpp
+++ b/src/LNLib/Algorithm/Interpolation.cpp
@@ -155,10 +155,10 @@ std::vector<double> LNLib::Interpolation::AverageKnotVector(int degree, const st
 {
 	int n = static_cast<int>(params.size()) - 1;
 	int m = n + degree + 1;
-	std::vector<double> knotVector(m + 1, 0.0);
+	std::vector<double> knotVector(m + 1, params[0]);
 
 	for (int i = m - degree; i <= m; ++i) {
-		knotVector[i] = 1.0;
+		knotVector[i] = params[n];
 	}
 
 	if (n <= degree) {
-- 
2.43.0


From 469ee63cd8e3a8ba538022685dc4e1c8e2f664a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:45 +0000
Subject: [PATCH 12/79] fix: surface derivatives of an order above the degree
 threw instead of being zero

---
 src/LNLib/include/BsplineSurface.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/include/BsplineSurface.h b/src/LNLib/include/BsplineSurface.h
index 4c669da..e4d0aed 100644
--- a/src/LNLib/include/BsplineSurface.h
+++ b/src/LNLib/include/BsplineSurface.h
@@ -105,14 +105,14 @@ namespace LNLib
 
 			std::vector<std::vector<T>> derivatives(derivative + 1, std::vector<T>(derivative + 1));
 
+			int du = std::min(derivative, degreeU);
+			int dv = std::min(derivative, degreeV);
+
 			int uSpanIndex = Polynomials::GetKnotSpanIndex(degreeU, knotVectorU, uv.GetU());
-			std::vector<std::vector<double>> Nu = Polynomials::BasisFunctionsDerivatives(uSpanIndex, degreeU, derivative, knotVectorU, uv.GetU());
+			std::vector<std::vector<double>> Nu = Polynomials::BasisFunctionsDerivatives(uSpanIndex, degreeU, du, knotVectorU, uv.GetU());
 
 			int vSpanIndex = Polynomials::GetKnotSpanIndex(degreeV, knotVectorV, uv.GetV());
-			std::vector<std::vector<double>> Nv = Polynomials::BasisFunctionsDerivatives(vSpanIndex, degreeV, derivative, knotVectorV, uv.GetV());
-
-			int du = std::min(derivative, degreeU);
-			int dv = std::min(derivative, degreeV);
+			std::vector<std::vector<double>> Nv = Polynomials::BasisFunctionsDerivatives(vSpanIndex, degreeV, dv, knotVectorV, uv.GetV());
 
 			std::vector<T> temp(degreeV + 1);
 
-- 
2.43.0


From 47c844dd48afdf8ac3f3594ec6b1a2a464ddb626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:10 +0000
Subject: [PATCH 13/79] fix: control points of derivative surfaces ignored the
 v knots and the last row and column

---
 src/LNLib/include/BsplineSurface.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/include/BsplineSurface.h b/src/LNLib/include/BsplineSurface.h
index e4d0aed..b686767 100644
--- a/src/LNLib/include/BsplineSurface.h
+++ b/src/LNLib/include/BsplineSurface.h
@@ -239,13 +239,16 @@ namespace LNLib
 					}
 				}
 			}
-			std::vector<double> tempKv(knotVectorV.size(), minSpanIndexV);
-			for (int k = 0; k < du; k++)
+			std::vector<double> tempKv(knotVectorV.begin() + minSpanIndexV, knotVectorV.end());
+			for (int k = 0; k <= du; k++)
 			{
+				int dd = std::min(derivative - k, dv);
+				if (dd == 0)
+				{
+					continue;
+				}
 				for (int i = 0; i <= rangeU - k; i++)
 				{
-					int dd = std::min(derivative - k, dv);
-
 					LN_BsplineCurve<T> bsplineCurve;
 					bsplineCurve.Degree = degreeV;
 					bsplineCurve.KnotVector = tempKv;
@@ -254,7 +257,7 @@ namespace LNLib
 					std::vector<std::vector<T>> temp = BsplineCurve::ComputeControlPointsOfDerivatives(bsplineCurve, dd, 0, rangeV);
 					for (int l = 1; l <= dd; l++)
 					{
-						for (int j = 0; j < rangeV - l; j++)
+						for (int j = 0; j <= rangeV - l; j++)
 						{
 							PKL[k][l][i][j] = temp[l][j];
 						}
-- 
2.43.0


From a67737b524cbfcc0e95d94e57cdc31926e3d46a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:33 +0000
Subject: [PATCH 14/79] fix: surface Reverse lost the knots of the other
 direction and mis-sized or half-reversed the control points

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 001feda..cfe9f53 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -481,6 +481,8 @@ void LNLib::NurbsSurface::Reverse(const LN_NurbsSurface& surface, SurfaceDirecti
 
 	result.DegreeU = degreeU;
 	result.DegreeV = degreeV;
+	result.KnotVectorU = knotVectorU;
+	result.KnotVectorV = knotVectorV;
 
 	if (direction == SurfaceDirection::All || direction == SurfaceDirection::UDirection)
 	{
@@ -529,17 +531,19 @@ void LNLib::NurbsSurface::Reverse(const LN_NurbsSurface& surface, SurfaceDirecti
 	else if (direction == SurfaceDirection::VDirection)
 	{
 		int size = controlPoints.size();
-		std::vector<std::vector<XYZW>> newControlPoints(size);
 		for (int i = 0; i < size; i++)
 		{
 			std::reverse(controlPoints[i].begin(), controlPoints[i].end());
-			newControlPoints.emplace_back(controlPoints[i]);
 		}
-		result.ControlPoints = newControlPoints;
+		result.ControlPoints = controlPoints;
 	}
 	else
 	{
 		std::reverse(controlPoints.begin(), controlPoints.end());
+		for (int i = 0; i < controlPoints.size(); i++)
+		{
+			std::reverse(controlPoints[i].begin(), controlPoints[i].end());
+		}
 		result.ControlPoints = controlPoints;
 	}
 
-- 
2.43.0


From 12dd913ace9068b4666b9273c16b2e348c5ce09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:47 +0000
Subject: [PATCH 15/79] fix: surface Reparametrize ignored one direction when
 the other already had the asked range

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index cfe9f53..0ab0063 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1645,7 +1645,7 @@ void LNLib::NurbsSurface::Reparametrize(const LN_NurbsSurface& surface, double m
 	std::vector<double> knotVectorU = surface.KnotVectorU;
 	std::vector<double> knotVectorV = surface.KnotVectorV;
 
-	if ((MathUtils::IsAlmostEqualTo(minU, knotVectorU[0]) && MathUtils::IsAlmostEqualTo(maxU, knotVectorU[knotVectorU.size() - 1])) ||
+	if ((MathUtils::IsAlmostEqualTo(minU, knotVectorU[0]) && MathUtils::IsAlmostEqualTo(maxU, knotVectorU[knotVectorU.size() - 1])) &&
 		(MathUtils::IsAlmostEqualTo(minV, knotVectorV[0]) && MathUtils::IsAlmostEqualTo(maxV, knotVectorV[knotVectorV.size() - 1])))
 	{
 		result = surface;
-- 
2.43.0


From 9f2fdfcc3056dc205f9ee1dfa2c7825a77401384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:29 +0000
Subject: [PATCH 16/79] fix: volume derivatives mixed up the partial sums and
 threw for orders above a degree

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 3ed0070..e0b7e31 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -223,13 +223,13 @@ std::vector<std::vector<std::vector<LNLib::XYZ>>> LNLib::NurbsVolume::ComputeVol
 	double w = uvw.GetW();
 
 	int uspan = LNLib::Polynomials::GetKnotSpanIndex(degreeU, kvU, u);
-	std::vector<std::vector<double>> Nu = LNLib::Polynomials::BasisFunctionsDerivatives(uspan, degreeU, derivative, kvU, u);
+	std::vector<std::vector<double>> Nu = LNLib::Polynomials::BasisFunctionsDerivatives(uspan, degreeU, du, kvU, u);
 
 	int vspan = LNLib::Polynomials::GetKnotSpanIndex(degreeV, kvV, v);
-	std::vector<std::vector<double>> Nv = LNLib::Polynomials::BasisFunctionsDerivatives(vspan, degreeV, derivative, kvV, v);
+	std::vector<std::vector<double>> Nv = LNLib::Polynomials::BasisFunctionsDerivatives(vspan, degreeV, dv, kvV, v);
 
 	int wspan = LNLib::Polynomials::GetKnotSpanIndex(degreeW, kvW, w);
-	std::vector<std::vector<double>> Nw = LNLib::Polynomials::BasisFunctionsDerivatives(wspan, degreeW, derivative, kvW, w);
+	std::vector<std::vector<double>> Nw = LNLib::Polynomials::BasisFunctionsDerivatives(wspan, degreeW, dw, kvW, w);
 
 	for (int a = 0; a <= du; ++a)
 	{
@@ -249,7 +249,7 @@ std::vector<std::vector<std::vector<LNLib::XYZ>>> LNLib::NurbsVolume::ComputeVol
 				}
 				for (int y = 0; y <= degreeV; ++y)
 				{
-					temp2[z] += Nv[b][y] * temp2[y];
+					temp2[z] += Nv[b][y] * temp1[y];
 				}
 			}
 			int ddc = std::min(derivative - a - b, dw);
-- 
2.43.0


From d876aee0134f97105ae6d4cc220727828015b220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:37 +0000
Subject: [PATCH 17/79] fix: volume RefineKnotVector wrote past the end of the
 new control points

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index e0b7e31..a0ec4f5 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -865,7 +865,7 @@ void LNLib::NurbsVolume::RefineKnotVector(const LN_NurbsVolume& volume, const st
 
 	std::vector<std::vector<std::vector<LNLib::XYZW>>> newControlPoints;
 
-	int times = insertKnotElements.size() - 1;
+	int times = insertKnotElements.size();
 	if (direction == VolumeDirection::U)
 	{
 		newControlPoints.resize(n + times + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
-- 
2.43.0


From 8218e1ff143274e3f7e7452d88481ea76adfee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:45 +0000
Subject: [PATCH 18/79] fix: volume ElevateDegree mis-sized the control points
 at multiple knots

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index a0ec4f5..abe5f9d 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -14,6 +14,7 @@
 #include "XYZW.h"
 #include "Polynomials.h"
 #include "MathUtils.h"
+#include "KnotVectorUtils.h"
 #include "NurbsCurve.h"
 
 #include <algorithm>
@@ -1016,9 +1017,7 @@ void LNLib::NurbsVolume::ElevateDegree(const LN_NurbsVolume& volume, int times,
 		std::vector<double> newkvV = kvV;
 		std::vector<double> newkvW = kvW;
 
-		int startIdx = degreeU + 1;
-		int endIdx = static_cast<int>(kvU.size()) - (degreeU + 1);
-		int uniqueCount = endIdx - startIdx;
+		int uniqueCount = KnotVectorUtils::GetInternalKnotMultiplicityMap(kvU).size();
 		int nh = n + (uniqueCount + 1) * times;
 
 		newControlPoints.resize(nh + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
@@ -1066,9 +1065,7 @@ void LNLib::NurbsVolume::ElevateDegree(const LN_NurbsVolume& volume, int times,
 		std::vector<double> newkvV;
 		std::vector<double> newkvW = kvW;
 
-		int startIdx = degreeV + 1;
-		int endIdx = static_cast<int>(kvV.size()) - (degreeV + 1);
-		int uniqueCount = endIdx - startIdx;
+		int uniqueCount = KnotVectorUtils::GetInternalKnotMultiplicityMap(kvV).size();
 		int mh = m + (uniqueCount + 1) * times;
 
 		newControlPoints.resize(n + 1, std::vector<std::vector<LNLib::XYZW>>(mh + 1, std::vector<LNLib::XYZW>(l + 1)));
@@ -1116,9 +1113,7 @@ void LNLib::NurbsVolume::ElevateDegree(const LN_NurbsVolume& volume, int times,
 		std::vector<double> newkvV = kvV;
 		std::vector<double> newkvW;
 
-		int startIdx = degreeW + 1;
-		int endIdx = static_cast<int>(kvW.size()) - (degreeW + 1);
-		int uniqueCount = endIdx - startIdx;
+		int uniqueCount = KnotVectorUtils::GetInternalKnotMultiplicityMap(kvW).size();
 		int lh = l + (uniqueCount + 1) * times;
 
 		newControlPoints.resize(n + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(lh + 1)));
-- 
2.43.0


From c79dc61ee6039bc6aae5bb78486cac44e3a3ed7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:52 +0000
Subject: [PATCH 19/79] fix: volume Reverse in v and w wrote into an empty
 control net

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index abe5f9d..6408427 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1472,6 +1472,8 @@ void LNLib::NurbsVolume::Reverse(const LN_NurbsVolume& volume, VolumeDirection d
 		std::vector<double> kvR = kvU;
 		std::vector<double> kvT = kvW;
 
+		newControlPoints.resize(n + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
+
 		std::vector<double> kvS;
 
 		for (int sep = 0; sep <= l; sep++)
@@ -1511,6 +1513,8 @@ void LNLib::NurbsVolume::Reverse(const LN_NurbsVolume& volume, VolumeDirection d
 		std::vector<double> kvR = kvU;
 		std::vector<double> kvS = kvV;
 
+		newControlPoints.resize(n + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
+
 		std::vector<double> kvT;
 
 		for (int col = 0; col <= m; col++)
-- 
2.43.0


From 521179378a6b2c9019010e7422029ff777f52289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:01 +0000
Subject: [PATCH 20/79] fix: volume Swap ignored the directions given in the
 other order

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 6408427..e77a92c 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1568,7 +1568,8 @@ void LNLib::NurbsVolume::Swap(const LN_NurbsVolume& volume, VolumeDirection dire
 	int v = controlPoints[0].size();
 	int w = controlPoints[0][0].size();
 
-	if (direction == VolumeDirection::U && swap == VolumeDirection::V)
+	if ((direction == VolumeDirection::U && swap == VolumeDirection::V) ||
+		(direction == VolumeDirection::V && swap == VolumeDirection::U))
 	{
 		result.DegreeU = degreeV;
 		result.DegreeV = degreeU;
@@ -1594,7 +1595,8 @@ void LNLib::NurbsVolume::Swap(const LN_NurbsVolume& volume, VolumeDirection dire
 
 		result.ControlPoints = newContrlPoints;
 	}
-	else if (direction == VolumeDirection::U && swap == VolumeDirection::W)
+	else if ((direction == VolumeDirection::U && swap == VolumeDirection::W) ||
+		(direction == VolumeDirection::W && swap == VolumeDirection::U))
 	{
 		result.DegreeU = degreeW;
 		result.DegreeV = degreeV;
@@ -1618,7 +1620,8 @@ void LNLib::NurbsVolume::Swap(const LN_NurbsVolume& volume, VolumeDirection dire
 
 		result.ControlPoints = newContrlPoints;
 	}
-	else if (direction == VolumeDirection::V && swap == VolumeDirection::W)
+	else if ((direction == VolumeDirection::V && swap == VolumeDirection::W) ||
+		(direction == VolumeDirection::W && swap == VolumeDirection::V))
 	{
 		result.DegreeU = degreeU;
 		result.DegreeV = degreeW;
-- 
2.43.0


From 4fc8e91395a2e97a679291a156426abe25ccd452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:09 +0000
Subject: [PATCH 21/79] fix: volume Extract returned its section by value and
 left degrees and knots unset or exchanged

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 41 +++++++++--------------
 src/LNLib/include/NurbsVolume.h           |  2 +-
 2 files changed, 17 insertions(+), 26 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index e77a92c..77479cc 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -671,7 +671,7 @@ bool LNLib::NurbsVolume::SplitAt(const LN_NurbsVolume& volume, double parameter,
 	return true;
 }
 
-bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface surface)
+bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface& surface)
 {
 	int degreeU = volume.DegreeU;
 	int degreeV = volume.DegreeV;
@@ -719,12 +719,12 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 				s = LNLib::Polynomials::GetKnotMultiplicity(kvU, parameter);
 			}
 			Pwc = controlPoints[k - s];
-
-			newDegreeU = degreeV;
-			newDegreeV = degreeW;
-			newKvU = kvV;
-			newKvV = kvW;
 		}
+
+		newDegreeU = degreeV;
+		newDegreeV = degreeW;
+		newKvU = kvV;
+		newKvV = kvW;
 	}
 	else if (direction == VolumeDirection::V)
 	{
@@ -764,21 +764,12 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 			for (size_t i = 0; i < controlPoints.size(); ++i) {
 				Pwc[i] = controlPoints[i][k - s];
 			}
-
-			std::vector<std::vector<LNLib::XYZW>> tempPwc(Pwc.size());
-			for (size_t i = 0; i < Pwc.size(); ++i) {
-				tempPwc[i].resize(Pwc[i].size());
-				for (size_t j = 0; j < Pwc[i].size(); ++j) {
-					tempPwc[i][j] = Pwc[i][j];
-				}
-			}
-			Pwc = tempPwc;
-
-			newDegreeU = degreeW;
-			newDegreeV = degreeU;
-			newKvU = kvW;
-			newKvV = kvU;
 		}
+
+		newDegreeU = degreeU;
+		newDegreeV = degreeW;
+		newKvU = kvU;
+		newKvV = kvW;
 	}
 	else if (direction == VolumeDirection::W)
 	{
@@ -827,12 +818,12 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 					Pwc[i][j] = controlPoints[i][j][k - s];
 				}
 			}
-
-			newDegreeU = degreeU;
-			newDegreeV = degreeV;
-			newKvU = kvU;
-			newKvV = kvV;
 		}
+
+		newDegreeU = degreeU;
+		newDegreeV = degreeV;
+		newKvU = kvU;
+		newKvV = kvV;
 	}
 
 	surface.DegreeU = newDegreeU;
diff --git a/src/LNLib/include/NurbsVolume.h b/src/LNLib/include/NurbsVolume.h
index 1230ec1..2da659a 100644
--- a/src/LNLib/include/NurbsVolume.h
+++ b/src/LNLib/include/NurbsVolume.h
@@ -37,7 +37,7 @@ namespace LNLib
 
         static bool SplitAt(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LN_NurbsVolume& first, LN_NurbsVolume& second);
 
-        static bool Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface surface);
+        static bool Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface& surface);
 
         static void RefineKnotVector(const LN_NurbsVolume& volume, const std::vector<double>& insertKnotElements, VolumeDirection direction, LN_NurbsVolume& result);
 
-- 
2.43.0


From e6369b7d36f0116de1a27a7af25de1056b87498e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:26 +0000
Subject: [PATCH 22/79] fix: surface RemoveKnot returned a surface without
 knots or with ragged control points when a row kept the knot

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 0ab0063..fe1c1f3 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -995,7 +995,12 @@ void LNLib::NurbsSurface::RemoveKnot(const LN_NurbsSurface& surface, double remo
 
 			LN_NurbsCurve newtc;
 
-			NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc);
+			// The knot can only be removed from the surface when it can be removed from every row.
+			if (!NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc) ||
+				(i > 0 && newtc.KnotVector.size() != tempKnotVector.size()))
+			{
+				return;
+			}
 			tempControlPoints.emplace_back(newtc.ControlPoints);
 			tempKnotVector = newtc.KnotVector;
 		}
@@ -1015,7 +1020,11 @@ void LNLib::NurbsSurface::RemoveKnot(const LN_NurbsSurface& surface, double remo
 			tc.ControlPoints = controlPoints[i];
 
 			LN_NurbsCurve newtc;
-			NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc);
+			if (!NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc) ||
+				(i > 0 && newtc.KnotVector.size() != tempKnotVector.size()))
+			{
+				return;
+			}
 			tempControlPoints.emplace_back(newtc.ControlPoints);
 			tempKnotVector = newtc.KnotVector;
 		}
-- 
2.43.0


From caaabd8b634cb7c534921a9c81f9819bde28aea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:53 +0000
Subject: [PATCH 23/79] fix: IsClosed compared points outside the domain and
 took repeated control points for a closed curve

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 40 ++++---------------------
 1 file changed, 5 insertions(+), 35 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index e9db6a7..bb23ee6 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1172,46 +1172,16 @@ void LNLib::NurbsCurve::EquallyTessellate(const LN_NurbsCurve& curve, std::vecto
 
 bool LNLib::NurbsCurve::IsClosed(const LN_NurbsCurve& curve)
 {
-	std::vector<double> knotVector = curve.KnotVector;
-	double first = knotVector[0];
-	double end = knotVector[knotVector.size() - 1];
+	int degree = curve.Degree;
+	const auto& knotVector = curve.KnotVector;
+	double first = knotVector[degree];
+	double end = knotVector[knotVector.size() - degree - 1];
 
 	XYZ startPoint = GetPointOnCurve(curve, first);
 	XYZ endPoint = GetPointOnCurve(curve, end);
 
 	double distance = startPoint.Distance(endPoint);
-	bool isMatch = MathUtils::IsAlmostEqualTo(distance, 0.0);
-	if (isMatch) return true;
-
-	std::vector<XYZW> controlPoints = curve.ControlPoints;
-	int n = controlPoints.size() - 1;
-	XYZ last = controlPoints[n].ToXYZ(true);
-
-	bool flag = false;
-	int index = 0;
-	for (int i = 0; i < n; i++)
-	{
-		XYZ current = controlPoints[i].ToXYZ(true);
-		if (last.IsAlmostEqualTo(current))
-		{
-			index = i;
-			flag = true;
-			break;
-		}
-	}
-
-	if (!flag) return false;
-	if (index == 0) return true;
-	for (int i = index; i >= 0; i--)
-	{
-		XYZ current = controlPoints[i].ToXYZ(true);
-		XYZ another = controlPoints[n - index + i].ToXYZ(true);
-		if (!another.IsAlmostEqualTo(current))
-		{
-			return false;
-		}
-	}
-	return true;
+	return MathUtils::IsAlmostEqualTo(distance, 0.0);
 }
 
 double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ& givenPoint)
-- 
2.43.0


From 3f27ecabd0a68996bf738aaeee35e1d9ed68a2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:06 +0000
Subject: [PATCH 24/79] fix: curve point inversion could return a parameter
 outside the domain

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index bb23ee6..22527ef 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1258,11 +1258,6 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 		double deltaT = f / df;
 		double newT = paramT - deltaT;
 
-		if (std::abs(deltaT * Ct.Length()) < Constants::DistanceEpsilon) {
-			paramT = newT;
-			break;
-		}
-
 		if (!isClosed) {
 			newT = std::max(minParam, std::min(maxParam, newT));
 		}
@@ -1272,6 +1267,11 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 			while (newT > maxParam) newT -= range;
 		}
 
+		if (std::abs(deltaT * Ct.Length()) < Constants::DistanceEpsilon) {
+			paramT = newT;
+			break;
+		}
+
 		paramT = newT;
 	}
 
@@ -1355,18 +1355,18 @@ std::vector<double> LNLib::NurbsCurve::GetAllParamsOnCurve(const LN_NurbsCurve&
 			double deltaT = f / df;
 			double newT = paramT - deltaT;
 
-			if (MathUtils::IsAlmostEqualTo(std::abs(deltaT * Ct.Length()), 0.0)) {
-				paramT = newT;
-				break;
-			}
-
 			if (!isClosed) {
 				newT = std::max(minParam, std::min(maxParam, newT));
 			}
 			else {
 				double range = maxParam - minParam;
-				while (MathUtils::IsLessThan(newT, minParam)) newT += range;
-				while (MathUtils::IsGreaterThan(newT, maxParam)) newT -= range;
+				while (newT < minParam) newT += range;
+				while (newT > maxParam) newT -= range;
+			}
+
+			if (MathUtils::IsAlmostEqualTo(std::abs(deltaT * Ct.Length()), 0.0)) {
+				paramT = newT;
+				break;
 			}
 
 			paramT = newT;
-- 
2.43.0


From ee58f3b1130439a593a40ebb4c1f36f221a9bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:18 +0000
Subject: [PATCH 25/79] fix: surface point inversion could return a parameter
 outside the domain

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 28 ++++++++++-----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index fe1c1f3..e00ca4c 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1370,12 +1370,6 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface,
 		double newU = param.GetU() + deltaU;
 		double newV = param.GetV() + deltaV;
 
-		XYZ deltaWorld = Su * deltaU + Sv * deltaV;
-		if (MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0)) {
-			param = UV(newU, newV);
-			break;
-		}
-
 		if (isClosedU) {
 			double rangeU = maxU - minU;
 			while (newU < minU) newU += rangeU;
@@ -1394,6 +1388,12 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface,
 			newV = std::max(minV, std::min(maxV, newV));
 		}
 
+		XYZ deltaWorld = Su * deltaU + Sv * deltaV;
+		if (MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0)) {
+			param = UV(newU, newV);
+			break;
+		}
+
 		param = UV(newU, newV);
 	}
 
@@ -1509,16 +1509,10 @@ std::vector<LNLib::UV> LNLib::NurbsSurface::GetAllParamsOnSurface(const LN_Nurbs
 			double newU = param.GetU() + deltaU;
 			double newV = param.GetV() + deltaV;
 
-			XYZ deltaWorld = Su * deltaU + Sv * deltaV;
-			if (MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0)) {
-				param = UV(newU, newV);
-				break;
-			}
-
 			if (isClosedU) {
 				double rangeU = maxU - minU;
-				while (MathUtils::IsLessThan(newU, minU)) newU += rangeU;
-				while (MathUtils::IsGreaterThan(newU, maxU)) newU -= rangeU;
+				while (newU < minU) newU += rangeU;
+				while (newU > maxU) newU -= rangeU;
 			}
 			else {
 				newU = std::max(minU, std::min(maxU, newU));
@@ -1533,6 +1527,12 @@ std::vector<LNLib::UV> LNLib::NurbsSurface::GetAllParamsOnSurface(const LN_Nurbs
 				newV = std::max(minV, std::min(maxV, newV));
 			}
 
+			XYZ deltaWorld = Su * deltaU + Sv * deltaV;
+			if (MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0)) {
+				param = UV(newU, newV);
+				break;
+			}
+
 			param = UV(newU, newV);
 		}
 
-- 
2.43.0


From e76eef3a93bc4deca4dd9bb59d53ff2fd455ed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:25 +0000
Subject: [PATCH 26/79] fix: volume point inversion could return a parameter
 outside the domain

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 77479cc..ae3396a 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1356,12 +1356,6 @@ LNLib::UVW LNLib::NurbsVolume::GetParamOnVolume(const LN_NurbsVolume& volume, co
 		double newV = param.GetV() + deltaV;
 		double newW = param.GetW() + deltaW;
 
-		XYZ deltaWorld = Vu * deltaU + Vv * deltaV + Vw * deltaW;
-		if (MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0, LNLib::Constants::DistanceEpsilon)) {
-			param = UVW(newU, newV, newW);
-			break;
-		}
-
 		if (isClosedU) {
 			double range = maxU - minU;
 			while (newU < minU) newU += range;
@@ -1389,6 +1383,12 @@ LNLib::UVW LNLib::NurbsVolume::GetParamOnVolume(const LN_NurbsVolume& volume, co
 			newW = std::max(minW, std::min(maxW, newW));
 		}
 
+		XYZ deltaWorld = Vu * deltaU + Vv * deltaV + Vw * deltaW;
+		if (MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0, LNLib::Constants::DistanceEpsilon)) {
+			param = UVW(newU, newV, newW);
+			break;
+		}
+
 		param = UVW(newU, newV, newW);
 	}
 
-- 
2.43.0


From 5dfcef90dc8ae05565ccdc4af6310a4b1ac47683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:47 +0000
Subject: [PATCH 27/79] fix: ToClampCurve threw for clamped curves and did not
 keep the shape of open ones

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 72 ++++++++++++-------------
 1 file changed, 35 insertions(+), 37 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 22527ef..b779f36 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3488,47 +3488,45 @@ void LNLib::NurbsCurve::ConstraintBasedModification(const LN_NurbsCurve& curve,
 
 void LNLib::NurbsCurve::ToClampCurve(const LN_NurbsCurve& curve, LN_NurbsCurve& result)
 {
-	int degree = curve.Degree;
-	std::vector<double> knotVector = curve.KnotVector;
-	std::vector<XYZW> controlPoints = curve.ControlPoints;
+	auto clampStart = [](const LN_NurbsCurve& origin)
+		{
+			int degree = origin.Degree;
+			double start = origin.KnotVector[degree];
 
-	int m = knotVector.size() - 1;
-	double up = knotVector[degree];
-	double ump = knotVector[m - degree];
+			LN_NurbsCurve clamped = origin;
+			int times = degree - Polynomials::GetKnotMultiplicity(origin.KnotVector, start);
+			if (times > 0)
+			{
+				InsertKnot(origin, start, times, clamped);
+			}
 
-	int upMulti = Polynomials::GetKnotMultiplicity(knotVector, up);
-	int umpMulti = Polynomials::GetKnotMultiplicity(knotVector, ump);
-	
-	LN_NurbsCurve tc;
-	int t1 = InsertKnot(curve, up, degree + 1 - upMulti, tc);
-	LN_NurbsCurve temp;
-	temp = tc;
-	int t2 = InsertKnot(temp, ump, degree + 1 - umpMulti, tc);
-
-	std::vector<double> kv = tc.KnotVector;
-	std::vector<XYZW> cps = tc.ControlPoints;
-	knotVector.resize(kv.size() - t1 - t2, 0.0);
-	controlPoints.resize(knotVector.size() - degree - 1);
-	for (int i = knotVector.size() - 1; i >= 0; i--)
-	{
-		knotVector[i] = kv[i + degree];
-		if (i < controlPoints.size())
-		{
-			controlPoints[i] = cps[i + degree];
-		}
-	}
+			std::vector<double> knotVector(degree + 1, start);
+			for (int i = degree + 1; i < clamped.KnotVector.size(); i++)
+			{
+				if (MathUtils::IsGreaterThan(clamped.KnotVector[i], start))
+				{
+					knotVector.emplace_back(clamped.KnotVector[i]);
+				}
+			}
+			int count = knotVector.size() - degree - 1;
+			clamped.ControlPoints.erase(clamped.ControlPoints.begin(), clamped.ControlPoints.end() - count);
+			clamped.KnotVector = knotVector;
+			return clamped;
+		};
 
-	result.Degree = tc.Degree;
-	result.KnotVector = knotVector;
-	result.ControlPoints = controlPoints;
+	auto mirror = [](const LN_NurbsCurve& origin)
+		{
+			LN_NurbsCurve mirrored = origin;
+			std::reverse(mirrored.ControlPoints.begin(), mirrored.ControlPoints.end());
+			std::reverse(mirrored.KnotVector.begin(), mirrored.KnotVector.end());
+			for (double& knot : mirrored.KnotVector)
+			{
+				knot = -knot;
+			}
+			return mirrored;
+		};
 
-	bool isClosed = IsClosed(curve);
-	bool isNowClosed = IsClosed(result);
-	if (isClosed && !isNowClosed)
-	{
-		controlPoints[controlPoints.size() - 1] = controlPoints[0];
-		result.ControlPoints = controlPoints;
-	}
+	result = mirror(clampStart(mirror(clampStart(curve))));
 }
 
 bool LNLib::NurbsCurve::IsPeriodic(const LN_NurbsCurve& curve)
-- 
2.43.0


From 6b8daf3d6eff51b65c2b0fd26b3cc045ef85364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:53 +0000
Subject: [PATCH 28/79] fix: CreateArc used the tangents of a circle for
 ellipses

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index b779f36..ae008b5 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1766,7 +1766,7 @@ bool LNLib::NurbsCurve::CreateArc(const XYZ& center, const XYZ& xAxis, const XYZ
 	XYZ nX = const_cast<XYZ&>(xAxis).Normalize();
 	XYZ nY = const_cast<XYZ&>(yAxis).Normalize();
 	XYZ P0 = center + xRadius * cos(startRad) * nX + yRadius * sin(startRad) * nY;
-	XYZ T0 = -sin(startRad) * nX + cos(startRad) * nY;
+	XYZ T0 = (-xRadius * sin(startRad) * nX + yRadius * cos(startRad) * nY).Normalize();
 
 	controlPoints[0] = XYZW(P0, 1);
 	int index = 0;
@@ -1776,7 +1776,7 @@ bool LNLib::NurbsCurve::CreateArc(const XYZ& center, const XYZ& xAxis, const XYZ
 		angle += dtheta;
 		XYZ P2 = center + xRadius * cos(angle) * nX + yRadius * sin(angle) * nY;
 		controlPoints[index + 2] = XYZW(P2, 1);
-		XYZ T2 = -sin(angle) * nX + cos(angle) * nY;
+		XYZ T2 = (-xRadius * sin(angle) * nX + yRadius * cos(angle) * nY).Normalize();
 
 		double param0, param2 = 0.0;
 		XYZ P1;
-- 
2.43.0


From f1f2252b74c1dd186829eca4e57ddbef98a2c552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:54 +0000
Subject: [PATCH 29/79] fix: SplitArc split conic arcs wrongly and dropped the
 weight of the halves

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 11 +++++++----
 src/LNLib/include/NurbsCurve.h          |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index ae008b5..57587e3 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1866,12 +1866,15 @@ bool LNLib::NurbsCurve::CreateOneConicArc(const XYZ& start, const XYZ& startTang
 	return false;
 }
 
-void LNLib::NurbsCurve::SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double insertWeight)
+void LNLib::NurbsCurve::SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double& insertWeight)
 {
-	insertPointAtStartSide = start + projectPoint;
-	insertPointAtEndSide = end + projectPoint;
+	// A zero weight denotes an infinite control point, projectPoint is a vector then.
+	bool isInfinite = projectPointWeight == 0.0;
+	XYZ weighted = isInfinite ? projectPoint : projectPointWeight * projectPoint;
+	insertPointAtStartSide = (start + weighted) / (1.0 + projectPointWeight);
+	insertPointAtEndSide = (weighted + end) / (1.0 + projectPointWeight);
 	splitPoint = (insertPointAtStartSide + insertPointAtEndSide) / 2.0;
-	insertWeight = std::sqrt(1 + projectPointWeight) / 2.0;
+	insertWeight = std::sqrt((1.0 + projectPointWeight) / 2.0);
 }
 
 bool LNLib::NurbsCurve::CreateOpenConic(const XYZ& start, const XYZ& startTangent, const XYZ& end, const XYZ& endTangent, const XYZ& pointOnConic, LN_NurbsCurve& curve)
diff --git a/src/LNLib/include/NurbsCurve.h b/src/LNLib/include/NurbsCurve.h
index 62f28d9..f256034 100644
--- a/src/LNLib/include/NurbsCurve.h
+++ b/src/LNLib/include/NurbsCurve.h
@@ -209,7 +209,7 @@ namespace LNLib
 		/// The NURBS Book 2nd Edition Page317
 		/// Split arc.
 		/// </summary>
-		static void SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double insertWeight);
+		static void SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double& insertWeight);
 
 		/// <summary>
 		/// The NURBS Book 2nd Edition Page317
-- 
2.43.0


From df52f54aa7ce6b8e7621fb469d99d54819ecfe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:13 +0000
Subject: [PATCH 30/79] fix: interpolation with tangents used singular knot
 vectors for degrees two and three

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 57587e3..8d70e39 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2071,8 +2071,8 @@ void LNLib::NurbsCurve::GlobalInterpolation(int degree, const std::vector<XYZ>&
 		}
 		for (int i = 0; i < size - 1; ++i)
 		{
-			knotVector[degree + 2 * i] = uk[i];
-			knotVector[degree + 2 * i + 1] = uk[i + 1];
+			knotVector[degree + 2 * i + 1] = (uk[i] + uk[i + 1]) / 2.0;
+			knotVector[degree + 2 * i + 2] = uk[i + 1];
 		}
 	}
 	else if (degree == 3)
@@ -2082,15 +2082,11 @@ void LNLib::NurbsCurve::GlobalInterpolation(int degree, const std::vector<XYZ>&
 			knotVector[i] = 0.0;
 			knotVector[knotVector.size() - 1 - i] = 1.0;
 		}
-		knotVector[4] = uk[1];
-		knotVector[5] = uk[1];
-		for (int i = 1; i < size - 2; ++i)
+		for (int i = 1; i < size - 1; ++i)
 		{
-			knotVector[degree + 2 * i] = uk[i + 1];
-			knotVector[degree + 2 * i + 1] = uk[i + 1];
+			knotVector[degree + 2 * i - 1] = uk[i];
+			knotVector[degree + 2 * i] = uk[i];
 		}
-		knotVector[knotVector.size() - 6] = uk[size - 2];
-		knotVector[knotVector.size() - 5] = uk[size - 2];
 	}
 	else
 	{
-- 
2.43.0


From 9a7846d6021ee28860c49e86e2842f8581770b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:37 +0000
Subject: [PATCH 31/79] fix: tangents of collinear points were not a number

---
 src/LNLib/Algorithm/Interpolation.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Algorithm/Interpolation.cpp b/src/LNLib/Algorithm/Interpolation.cpp
index 56f6bb3..edb0cf9 100644
--- a/src/LNLib/Algorithm/Interpolation.cpp
+++ b/src/LNLib/Algorithm/Interpolation.cpp
@@ -26,7 +26,13 @@ namespace LNLib
 
 	double Getak(const XYZ& qk_1, const XYZ& qk, const XYZ& qk1, const XYZ& qk2)
 	{
-		return (qk_1.CrossProduct(qk)).Length() / ((qk_1.CrossProduct(qk).Length()) + (qk1.CrossProduct(qk2)).Length());
+		double numerator = qk_1.CrossProduct(qk).Length();
+		double denominator = numerator + qk1.CrossProduct(qk2).Length();
+		if (MathUtils::IsAlmostEqualTo(denominator, 0.0))
+		{
+			return 0.5;
+		}
+		return numerator / denominator;
 	}
 
 	XYZ GetTk(const XYZ& qk_1, const XYZ& qk, const XYZ& qk1, const XYZ& qk2)
-- 
2.43.0


From 3159e77b977ee00721c1750fa5067e06c4387ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:18 +0000
Subject: [PATCH 32/79] fix: cubic local interpolation did not pass through its
 points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 8d70e39..33d0832 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2209,10 +2209,15 @@ bool LNLib::NurbsCurve::CubicLocalInterpolation(const std::vector<XYZ>& throughP
 		knotVector[knotVector.size() - 1 - i] = 1.0;
 	}
 
-	double step = 1.0 / (numCtrlPts - degree);
-	for (int i = 1; i <= numCtrlPts - degree - 1; ++i)
+	// Every segment is a Bezier segment over its chord length.
+	double length = 0.0;
+	for (int i = 1; i < size - 1; ++i)
 	{
-		knotVector[degree + i] = i * step;
+		length += chordLengths[i - 1];
+		for (int j = 0; j < degree; ++j)
+		{
+			knotVector[degree * i + 1 + j] = length / totalLength;
+		}
 	}
 
 	curve.Degree = degree;
-- 
2.43.0


From 27356005732d3b5181b9ddcfdb07af645d4db297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:10 +0000
Subject: [PATCH 33/79] fix: weighted least squares applied the weights twice
 to the data

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 33d0832..782b417 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2451,7 +2451,7 @@ bool LNLib::NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(
 				}
 			}
 			W_vec[mu_idx] = wp;
-			S[mu_idx] = wp * throughPoints[i];
+			S[mu_idx] = throughPoints[i];
 			mu_idx++;
 		}
 		else if (MathUtils::IsLessThan(wp, 0.0)) {
@@ -2483,7 +2483,7 @@ bool LNLib::NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(
 					}
 				}
 				W_vec[mu_idx] = wt;
-				S[mu_idx] = wt * tangentVec;
+				S[mu_idx] = tangentVec;
 				mu_idx++;
 			}
 			else if (MathUtils::IsLessThan(wt, 0.0)) {
-- 
2.43.0


From f5a28393f439f161820533a43303a9d1f0152f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:59 +0000
Subject: [PATCH 34/79] fix: approximation by error bound threw for degree one

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 782b417..d63886d 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2864,8 +2864,11 @@ void LNLib::NurbsCurve::GlobalApproximationByErrorBound(int degree, const std::v
 	tc.KnotVector = knotVector;
 	tc.ControlPoints = controlPoints;
 
-	LN_NurbsCurve newtc;
-	ElevateDegree(tc, degree - 1, newtc);
+	LN_NurbsCurve newtc = tc;
+	if (degree > 1)
+	{
+		ElevateDegree(tc, degree - 1, newtc);
+	}
 	RemoveKnotsByGivenBound(newtc, uk, errors, maxError, result);
 }
 
-- 
2.43.0


From 490d35e577b5c7e29864dd12554f96bf43306911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:33 +0000
Subject: [PATCH 35/79] fix: least squares with two control points wrote into
 empty arrays

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index d63886d..9d087a3 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2247,6 +2247,14 @@ bool LNLib::NurbsCurve::LeastSquaresApproximation(int degree, const std::vector<
 		knotVector[degree + j] = (1 - a) * uk[i - 1] + a * uk[i];
 	}
 
+	if (n == 1)
+	{
+		curve.Degree = degree;
+		curve.KnotVector = knotVector;
+		curve.ControlPoints = { XYZW(throughPoints[0], 1), XYZW(throughPoints[m], 1) };
+		return true;
+	}
+
 	std::vector<int> start(n - 1);
 	std::vector<int> end(n - 1);
 	std::vector<int> index(m - 1);
-- 
2.43.0


From de50ef93c5cd2979bf64763a5ea4f6e598da1c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:44 +0000
Subject: [PATCH 36/79] fix: curve point inversion could end farther away than
 where it started

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 9d087a3..e3b8d6a 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1233,6 +1233,10 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 	double paramT = bestT;
 	int maxIterations = 20;
 
+	// The iteration may leave the nearest point, for example at a corner.
+	double closestT = bestT;
+	double closestDist = std::numeric_limits<double>::max();
+
 	for (int iter = 0; iter < maxIterations; ++iter)
 	{
 		std::vector<XYZ> derivatives = ComputeRationalCurveDerivatives(curve, 2, paramT);
@@ -1247,6 +1251,10 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 		if (currentDist < Constants::DistanceEpsilon) {
 			return paramT;
 		}
+		if (currentDist < closestDist) {
+			closestDist = currentDist;
+			closestT = paramT;
+		}
 
 		double f = Ct.DotProduct(diff);
 		double df = Ct.DotProduct(Ct) + diff.DotProduct(Ctt);
@@ -1275,6 +1283,9 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 		paramT = newT;
 	}
 
+	if (GetPointOnCurve(curve, paramT).Distance(givenPoint) > closestDist) {
+		paramT = closestT;
+	}
 	return paramT;
 }
 
-- 
2.43.0


From 77c6b432b4818eadc64c76c4223841f5a012c498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 37/79] fix: Chebyshev arc length integrates each segment with
 its own end speeds

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index e3b8d6a..cb60acd 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3773,9 +3773,7 @@ double LNLib::NurbsCurve::ApproximateLength(const LN_NurbsCurve& curve, Integrat
 	LN_NurbsCurve reCurve;
 	Reparametrize(curve, 0.0, 1.0, reCurve);
 
-	int degree = reCurve.Degree;
 	std::vector<double> knotVector = reCurve.KnotVector;
-	std::vector<XYZW> controlPoints = reCurve.ControlPoints;
 
 	double length = 0.0;
 	switch (type)
@@ -3823,12 +3821,14 @@ double LNLib::NurbsCurve::ApproximateLength(const LN_NurbsCurve& curve, Integrat
 		case IntegratorType::Chebyshev:
 		{
 			std::vector<double> series = Integrator::ChebyshevSeries();
-			for (int i = degree; i < controlPoints.size(); i++) 
+			// At a knot the speed of the whole curve is that of the following segment, so integrate every segment on its own.
+			std::vector<LN_NurbsCurve> bezierCurves = DecomposeToBeziers(reCurve);
+			for (int i = 0; i < bezierCurves.size(); i++)
 			{
-				double a = knotVector[i];
-				double b = knotVector[i + 1];
+				double a = bezierCurves[i].KnotVector.front();
+				double b = bezierCurves[i].KnotVector.back();
 				FirstDerivativeLengthFunction function;
-				length += Integrator::ClenshawCurtisQuadrature(function, (void*)&reCurve, a, b, series);
+				length += Integrator::ClenshawCurtisQuadrature(function, (void*)&bezierCurves[i], a, b, series);
 			}
 			break;
 		}
@@ -4096,7 +4096,7 @@ std::vector<double> LNLib::NurbsCurve::GetParamsOnCurve(const LN_NurbsCurve& cur
 		LN_NurbsCurve left;
 		LN_NurbsCurve right;
 		bool isSplited = SplitAt(curve, param, left, right);
-		if (!isSplited) continue;
+		if (!isSplited) break;
 		param = GetParamOnCurve(right, givenLength, type);
 	}
 	return result;
-- 
2.43.0


From 24b6e339fde2b5eb8b0f46e651f643529f679a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:48 +0000
Subject: [PATCH 38/79] fix: curve tessellation keeps both ends and follows
 symmetric curves

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index cb60acd..a58bbba 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -107,7 +107,18 @@ namespace LNLib
 		XYZ chordMid = (p0 + p2) * 0.5;
 		double deviation = p1.Distance(chordMid);
 
-		if (LNLib::MathUtils::IsAlmostEqualTo(deviation,0.0)) {
+		// A curve that is symmetric about the middle of its chord passes through that point without being flat.
+		bool isFlat = LNLib::MathUtils::IsAlmostEqualTo(deviation, 0.0);
+		for (double quarter : { (start + mid) * 0.5, (mid + end) * 0.5 }) {
+			if (!isFlat) break;
+			XYZ p = NurbsCurve::GetPointOnCurve(curve, quarter);
+			XYZ chord = p2 - p0;
+			double sqrLength = chord.SqrLength();
+			double t = sqrLength > 0.0 ? (p - p0).DotProduct(chord) / sqrLength : 0.0;
+			isFlat = LNLib::MathUtils::IsAlmostEqualTo(p.Distance(p0 + chord * t), 0.0);
+		}
+
+		if (isFlat) {
 			parameters.emplace_back(mid);
 		}
 		else {
@@ -4137,17 +4148,17 @@ std::vector<LNLib::XYZ> LNLib::NurbsCurve::Tessellate(const LN_NurbsCurve& curve
 
 		for (double t : internalParams) {
 			if (parameters.empty()) continue;
-			if (t > u0 && t < u1 && (MathUtils::IsGreaterThan(t, parameters.back())) ) {
+			if (t > u0 && t < u1 && t > parameters.back()) {
 				parameters.emplace_back(t);
 			}
 		}
 
-		if (MathUtils::IsGreaterThan(u1, parameters.back())) {
+		if (u1 > parameters.back()) {
 			parameters.emplace_back(u1);
 		}
 	}
 
-	if (parameters.empty() || !MathUtils::IsAlmostEqualTo(parameters.back(), u_end)) {
+	if (parameters.empty() || parameters.back() < u_end) {
 		parameters.emplace_back(u_end);
 	}
 
-- 
2.43.0


From 2cdbb5fe42caf79a0c651906af2fdb393cf29ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:59 +0000
Subject: [PATCH 39/79] fix: shape modification uses the rational basis of the
 moved point, extension matches end weights

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 50 +++++++++++++++++++------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index a58bbba..c6b050a 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -64,6 +64,23 @@ namespace LNLib
 		return length;
 	}
 
+	// Influence of the control point on the curve point at the parameter.
+	double RationalBasisFunction(const LN_NurbsCurve& curve, int index, double parameter)
+	{
+		int degree = curve.Degree;
+		int spanIndex = Polynomials::GetKnotSpanIndex(degree, curve.KnotVector, parameter);
+		if (index < spanIndex - degree || index > spanIndex) return 0.0;
+
+		double basis[Constants::NURBSMaxDegree + 1];
+		Polynomials::BasisFunctions(spanIndex, degree, curve.KnotVector, parameter, basis);
+		double sum = 0.0;
+		for (int i = 0; i <= degree; i++)
+		{
+			sum += basis[i] * curve.ControlPoints[spanIndex - degree + i].GetW();
+		}
+		return basis[index - spanIndex + degree] * curve.ControlPoints[index].GetW() / sum;
+	}
+
 	double GetParamByLength(const LN_NurbsCurve& curve, double start, double end, double givenLength, IntegratorType type)
 	{
 		double middle = (start + end) / 2.0;
@@ -3177,11 +3194,8 @@ bool LNLib::NurbsCurve::ControlPointReposition(const LN_NurbsCurve& curve, doubl
 	VALIDATE_ARGUMENT(!moveDirection.IsZero(), "moveDirection", "MoveDirection must not be zero vector.");
 	VALIDATE_ARGUMENT(!MathUtils::IsAlmostEqualTo(moveDistance,0.0), "moveDistance", "MoveDistance must not be zero.")
 
-	int spanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, parameter);
-	double basis[Constants::NURBSMaxDegree + 1];
-	Polynomials::BasisFunctions(spanIndex, degree, knotVector, parameter, basis);
-	double Rkp = basis[0];
-	if (MathUtils::IsLessThan(Rkp, 0.0))
+	double Rkp = RationalBasisFunction(curve, moveIndex, parameter);
+	if (MathUtils::IsAlmostEqualTo(Rkp, 0.0))
 	{
 		return false;
 	}
@@ -3210,10 +3224,12 @@ void LNLib::NurbsCurve::WeightModification(const LN_NurbsCurve& curve, double pa
 	XYZ point = GetPointOnCurve(curve, parameter);
 	XYZ movePoint = const_cast<XYZW&>(controlPoints[moveIndex]).ToXYZ(true);
 	double distance =  point.Distance(movePoint);
-	int spanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, parameter);
-	double basis[Constants::NURBSMaxDegree + 1];
-	Polynomials::BasisFunctions(spanIndex, degree, knotVector, parameter, basis);
-	double Rkp = basis[0];
+	double Rkp = RationalBasisFunction(curve, moveIndex, parameter);
+	if (MathUtils::IsAlmostEqualTo(Rkp, 0.0))
+	{
+		result = curve;
+		return;
+	}
 	double coefficient = 1 + moveDistance / (Rkp * (distance - moveDistance));
 	std::vector<XYZW> updatedControlPoints = controlPoints;
 	updatedControlPoints[moveIndex] = XYZW(movePoint, updatedControlPoints[moveIndex].GetW() * coefficient);
@@ -3230,7 +3246,7 @@ bool LNLib::NurbsCurve::NeighborWeightsModification(const LN_NurbsCurve& curve,
 	const auto& controlPoints = curve.ControlPoints;
 
 	VALIDATE_ARGUMENT_RANGE(parameter, knotVector[0], knotVector[knotVector.size() - 1]);
-	VALIDATE_ARGUMENT_RANGE(moveIndex, 0, controlPoints.size() - 1);
+	VALIDATE_ARGUMENT_RANGE(moveIndex, 0, (int)controlPoints.size() - 2);
 	VALIDATE_ARGUMENT(!MathUtils::IsAlmostEqualTo(moveDistance, 0.0), "moveDistance", "MoveDistance must not be zero.");
 	VALIDATE_ARGUMENT(!MathUtils::IsAlmostEqualTo(scale, 0.0), "scale", "Scale must not be zero.");
 
@@ -3874,11 +3890,21 @@ void LNLib::NurbsCurve::Extend(const LN_NurbsCurve& curve, double delta, bool is
 
 	LN_NurbsCurve extend;
 
+	// Curves are merged where their control points, weight included, coincide. A common factor does not change the extension.
+	double endWeight = isFromStart ? controlPoints.front().GetW() : controlPoints.back().GetW();
+	auto matchEndWeight = [endWeight](LN_NurbsCurve& extension) {
+		for (auto& controlPoint : extension.ControlPoints)
+		{
+			controlPoint = controlPoint * endWeight;
+		}
+		};
+
 	switch (type)
 	{
 		case ExtensionType::Tangent:
 		{
 			isFromStart ? CreateLine(point - tangent.Normalize() * delta, point, extend): CreateLine(point, point + tangent.Normalize() * delta, extend);
+			matchEndWeight(extend);
 			isFromStart ? Merge(extend, curve, result) : Merge(curve, extend, result);
 			break;
 		}	
@@ -3907,7 +3933,9 @@ void LNLib::NurbsCurve::Extend(const LN_NurbsCurve& curve, double delta, bool is
 				endRad = atan2(y, x);
 			}
 
-			CreateArc(center, xAxis, yAxis, startRad, endRad, radius, radius, extend);
+			bool isCreated = CreateArc(center, xAxis, yAxis, startRad, endRad, radius, radius, extend);
+			if (!isCreated) return;
+			matchEndWeight(extend);
 			isFromStart ? Merge(extend, curve, result) : Merge(curve, extend, result);
 			break;
 		}
-- 
2.43.0


From 6039926ae6095e1f73ea366dc1c708a91028c507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:24 +0000
Subject: [PATCH 40/79] fix: make a revolved surface for an axis that is not of
 unit length

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index e00ca4c..e4a24c7 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1861,6 +1861,7 @@ void LNLib::NurbsSurface::CreateRuledSurface(const LN_NurbsCurve& curve0, const
 bool LNLib::NurbsSurface::CreateRevolvedSurface(const XYZ& origin, const XYZ& axis, double rad, const LN_NurbsCurve& profile, LN_NurbsSurface& surface)
 {
 	VALIDATE_ARGUMENT(!axis.IsZero(), "axis", "Axis must not be zero vector.");
+	XYZ unitAxis = const_cast<XYZ&>(axis).Normalize();
 	std::vector<double> knotVectorU;
 
 	int narcs = 0;
@@ -1928,11 +1929,11 @@ bool LNLib::NurbsSurface::CreateRevolvedSurface(const XYZ& origin, const XYZ& ax
 		XYZW gp = profile.ControlPoints[j];
 		XYZ p = gp.ToXYZ(true);
 
-		XYZ O = Projection::PointToRay(origin, axis, p);
+		XYZ O = Projection::PointToRay(origin, unitAxis, p);
 		X = p - O;
 
 		r = X.Normalize().Length();
-		Y = axis.CrossProduct(X);
+		Y = unitAxis.CrossProduct(X);
 
 		if (MathUtils::IsGreaterThan(r, 0.0))
 		{
-- 
2.43.0


From 465d7ecbd560de363d0c3712b97081deea6665e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:36 +0000
Subject: [PATCH 41/79] fix: interpolate the points of a surface in the given
 grid orientation

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index e4a24c7..9a45a4b 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2176,7 +2176,7 @@ void LNLib::NurbsSurface::GlobalInterpolation(
 	VALIDATE_ARGUMENT(rows > degreeV, "throughPoints", "Row size must be greater than degreeV.");
 
 	std::vector<double> uk, vl;
-	Interpolation::GetSurfaceMeshParameterization(throughPoints, uk, vl);
+	Interpolation::GetSurfaceMeshParameterization(throughPoints, vl, uk);
 
 	std::vector<double> knotVectorU = Interpolation::AverageKnotVector(degreeU, uk);
 	std::vector<double> knotVectorV = Interpolation::AverageKnotVector(degreeV, vl);
@@ -2232,12 +2232,12 @@ void LNLib::NurbsSurface::GlobalInterpolation(
 	}
 
 	auto result = MathUtils::SolveLinearSystem(A, right);
-	std::vector<std::vector<XYZW>> controlPoints(rows, std::vector<XYZW>(cols));
+	std::vector<std::vector<XYZW>> controlPoints(cols, std::vector<XYZW>(rows));
 	for (int i = 0; i < rows; ++i) {
 		for (int j = 0; j < cols; ++j) {
 			int idx = i * cols + j;
 			XYZ pt(result[idx][0], result[idx][1], result[idx][2]);
-			controlPoints[i][j] = XYZW(pt, 1.0);
+			controlPoints[j][i] = XYZW(pt, 1.0);
 		}
 	}
 
@@ -2998,10 +2998,8 @@ void LNLib::NurbsSurface::CreateGordonSurface(const std::vector<LN_NurbsCurve>&
 
 	int degreeU = std::min(columns - 1, degree_u_max);
 	int degreeV = std::min(rows - 1, degree_v_max);
-	GlobalInterpolation(intersectionPoints, degreeU, degreeV, ts);
-	MathUtils::Transpose(ts.ControlPoints, transposedControlPoints);
 	LN_NurbsSurface interpolatedSurface;
-	Swap(ts, interpolatedSurface);
+	GlobalInterpolation(intersectionPoints, degreeU, degreeV, interpolatedSurface);
 
 	{
 		int lsu_degreeU = loftSurfaceU.DegreeU;
-- 
2.43.0


From feb18fa650c79ce723401b64ef7f8c3668365609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:51 +0000
Subject: [PATCH 42/79] fix: return the surface approximation in the given grid
 orientation

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 9a45a4b..f717e25 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2511,14 +2511,11 @@ bool LNLib::NurbsSurface::GlobalApproximation(
 		}
 	}
 
-	std::vector<std::vector<XYZ>> surfaceControlPoints;
-	MathUtils::Transpose(finalControlPoints, surfaceControlPoints);
-
 	surface.DegreeU = degreeU;
 	surface.DegreeV = degreeV;
 	surface.KnotVectorU = knotVectorU;
 	surface.KnotVectorV = knotVectorV;
-	surface.ControlPoints = ControlPointsUtils::ToXYZW(surfaceControlPoints);
+	surface.ControlPoints = ControlPointsUtils::ToXYZW(finalControlPoints);
 	return true;
 }
 
-- 
2.43.0


From a9a9babdd3e00b238a1f812e24ea9c0000af8d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:04 +0000
Subject: [PATCH 43/79] fix: orient the boundary curves of a Coons surface
 consistently

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index f717e25..a53ec06 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3141,8 +3141,8 @@ void LNLib::NurbsSurface::CreateCoonsSurface(const LN_NurbsCurve& leftCurve, con
 
 	{
 		LN_NurbsCurve tc;
-		NurbsCurve::Reverse(nurbs[2], tc);
-		nurbs[2] = tc;
+		NurbsCurve::Reverse(nurbs[0], tc);
+		nurbs[0] = tc;
 	}
 
 	{
@@ -3159,10 +3159,10 @@ void LNLib::NurbsSurface::CreateCoonsSurface(const LN_NurbsCurve& leftCurve, con
 		nurbs[i] = tc;
 	}
 
-	bool isP00 = NurbsCurve::GetPointOnCurve(nurbs[0], 0).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[3], 0));
-	bool isP01 = NurbsCurve::GetPointOnCurve(nurbs[2], 0).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[3], 1));
-	bool isP10 = NurbsCurve::GetPointOnCurve(nurbs[0], 1).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[1], 0));
-	bool isP11 = NurbsCurve::GetPointOnCurve(nurbs[2], 1).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[1], 1));
+	bool isP00 = NurbsCurve::GetPointOnCurve(nurbs[0], 0).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[1], 0));
+	bool isP01 = NurbsCurve::GetPointOnCurve(nurbs[2], 0).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[1], 1));
+	bool isP10 = NurbsCurve::GetPointOnCurve(nurbs[0], 1).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[3], 0));
+	bool isP11 = NurbsCurve::GetPointOnCurve(nurbs[2], 1).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[3], 1));
 
 	VALIDATE_ARGUMENT(isP00 & isP01 & isP10 & isP11, "Curves", "Four Corners must be connected.");
 
-- 
2.43.0


From 3147a61da892f6686580681e965c8bc5edbd829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:19 +0000
Subject: [PATCH 44/79] fix: make loft sections compatible and keep their
 weights

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 33 ++++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index a53ec06..146cb2a 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2647,10 +2647,26 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 			current.KnotVector = tc.KnotVector;
 			current.ControlPoints = tc.ControlPoints;
 		}
-		curvesControlPoints[k] = current.ControlPoints;
 		internals[k] = current;
 	}
 
+	std::vector<std::vector<double>> knotVectors(size);
+	for (int k = 0; k < size; k++)
+	{
+		knotVectors[k] = internals[k].KnotVector;
+	}
+	auto insertElements = KnotVectorUtils::GetInsertedKnotElements(knotVectors);
+	for (int k = 0; k < size; k++)
+	{
+		if (insertElements[k].size() > 0)
+		{
+			LN_NurbsCurve tc;
+			NurbsCurve::RefineKnotVector(internals[k], insertElements[k], tc);
+			internals[k] = tc;
+		}
+		curvesControlPoints[k] = internals[k].ControlPoints;
+	}
+
 	int degreeU = degree_max;
 	int degreeV = degree_max;
 
@@ -2693,22 +2709,23 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 	int column = curvesControlPoints[0].size();
 	for (int c = 0; c < column; c++)
 	{
+		// Interpolate homogeneous coordinates, so that rational sections are reproduced.
 		std::vector<XYZ> temp(size);
-		std::vector<double> weightCache(size);
+		std::vector<XYZ> weights(size);
 		for (int k = 0; k < size; k++)
 		{
 			XYZW cp = curvesControlPoints[k][c];
-			double w = cp.GetW();
-			weightCache[k] = w;
-			temp[k] = XYZ(cp.GetWX() / w, cp.GetWY() / w, cp.GetWZ() / w);
+			temp[k] = XYZ(cp.GetWX(), cp.GetWY(), cp.GetWZ());
+			weights[k] = XYZ(cp.GetW(), 0, 0);
 		}
 		LN_NurbsCurve tc;
 		NurbsCurve::GlobalInterpolation(degreeV, temp, tc, vl);
+		LN_NurbsCurve wc;
+		NurbsCurve::GlobalInterpolation(degreeV, weights, wc, vl);
 		for (int i = 0; i < tc.ControlPoints.size(); i++)
 		{
-			XYZW cp = tc.ControlPoints[i];
-			double w = cp.GetW();
-			tc.ControlPoints[i] = XYZW(XYZ(cp.GetWX() / w, cp.GetWY() / w, cp.GetWZ() / w), weightCache[i]);
+			XYZ cp = tc.ControlPoints[i].ToXYZ(true);
+			tc.ControlPoints[i] = XYZW(cp.GetX(), cp.GetY(), cp.GetZ(), wc.ControlPoints[i].ToXYZ(true).GetX());
 		}
 		controlPoints.emplace_back(tc.ControlPoints);
 	}
-- 
2.43.0


From c9e0a303e1360089a05a5a552bca6d94d3ab333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:34 +0000
Subject: [PATCH 45/79] fix: triangulate over the whole parameter domain

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 146cb2a..a3d7c3d 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3919,13 +3919,18 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 		std::vector<std::vector<XYZ>> points(resolutionU, std::vector<XYZ>(resolutionV));
 		std::vector<std::vector<UV>> uvs(resolutionU, std::vector<UV>(resolutionV));
 
+		double minU = surface.KnotVectorU.front();
+		double maxU = surface.KnotVectorU.back();
+		double minV = surface.KnotVectorV.front();
+		double maxV = surface.KnotVectorV.back();
+
 		for (int i = 0; i < resolutionU; ++i)
 		{
 			double u = (double)i / (resolutionU - 1);
 			for (int j = 0; j < resolutionV; ++j)
 			{
 				double v = (double)j / (resolutionV - 1);
-				points[i][j] = GetPointOnSurface(surface, UV(u, v));
+				points[i][j] = GetPointOnSurface(surface, UV(minU + u * (maxU - minU), minV + v * (maxV - minV)));
 				uvs[i][j] = { u, v };
 			}
 		}
-- 
2.43.0


From 21195659018b2b9c7fb9481064466ffe7ec0fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:49 +0000
Subject: [PATCH 46/79] fix: make local surface interpolation pass through its
 points

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 40 +++++++++------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index a3d7c3d..0a324a6 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -78,11 +78,15 @@ namespace LNLib
 	std::vector<int> GetIndex(int size)
 	{
 		std::vector<int> ind;
-		ind.reserve(size);
-		for (int i = 0; i < size; ++i)
+		// The first and last control point and the two inner ones of every segment.
+		ind.reserve(2 * size);
+		ind.push_back(0);
+		for (int i = 0; i < size - 1; ++i)
 		{
-			ind.push_back(3 * i);
+			ind.push_back(3 * i + 1);
+			ind.push_back(3 * i + 2);
 		}
+		ind.push_back(3 * (size - 1));
 		return ind;
 	}
 }
@@ -2331,16 +2335,6 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 	}
 	vb[m] = 1.0;
 
-	std::vector<double> rowTotalLen(row);
-	std::vector<double> colTotalLen(column);
-	for (int i = 0; i < row; ++i) {
-		rowTotalLen[i] = Interpolation::GetTotalChordLength(throughPoints[i]);
-	}
-	for (int j = 0; j < column; ++j) {
-		auto col = MathUtils::GetColumn(throughPoints, j);
-		colTotalLen[j] = Interpolation::GetTotalChordLength(col);
-	}
-
 	std::vector<std::vector<XYZ>> bezierControlPoints(3 * row - 2, std::vector<XYZ>(3 * column - 2, XYZ(0, 0, 0)));
 
 	for (int i = 0; i < row; i++)
@@ -2348,7 +2342,7 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		std::vector<XYZ> T;
 		for (int l = 0; l <= m; l++)
 		{
-			T.emplace_back(td[i][l][1]);
+			T.emplace_back(td[i][l][0]);
 		}
 
 		std::vector<XYZ> temp(3 * column - 2, XYZ(0, 0, 0));
@@ -2358,9 +2352,9 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		}
 		for (int j = 0; j < column - 1; j++)
 		{
-			double a = (ub[j + 1] - ub[j]) * rowTotalLen[i];
+			double a = vb[j + 1] - vb[j];
 			temp[3 * j + 1] = throughPoints[i][j] + a / 3.0 * T[j];
-			temp[3 * j + 2] = throughPoints[i][j + 1] - a / 3.0 * T[j];
+			temp[3 * j + 2] = throughPoints[i][j + 1] - a / 3.0 * T[j + 1];
 		}
 		bezierControlPoints[3 * i] = temp;
 	}
@@ -2371,7 +2365,7 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		std::vector<XYZ> T;
 		for (int k = 0; k <= n; k++)
 		{
-			T.emplace_back(td[k][j][0]);
+			T.emplace_back(td[k][j][1]);
 		}
 
 		std::vector<XYZ> temp(3 * row - 2, XYZ(0, 0, 0));
@@ -2381,9 +2375,9 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		}
 		for (int i = 0; i < row - 1; i++)
 		{
-			double a = (vb[i + 1] - vb[i]) * colTotalLen[j];
+			double a = ub[i + 1] - ub[i];
 			temp[3 * i + 1] = columnData[i] + a / 3.0 * T[i];
-			temp[3 * i + 2] = columnData[i + 1] - a / 3.0 * T[i];
+			temp[3 * i + 2] = columnData[i + 1] - a / 3.0 * T[i + 1];
 		}
 		for (int i = 0; i < static_cast<int>(temp.size()); i++)
 		{
@@ -2398,8 +2392,8 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		{
 			double bl = (vb[l] - vb[l - 1]) / ((vb[l] - vb[l - 1]) + (vb[l + 1] - vb[l]));
 
-			XYZ dvukl = (1 - ak) * (td[k][l][1] - td[k - 1][l][1]) / (ub[k] - ub[k - 1]) + ak * (td[k + 1][l][1] - td[k][l][1]) / (ub[k + 1] - ub[k]);
-			XYZ duvkl = (1 - bl) * (td[k][l][0] - td[k][l - 1][0]) / (vb[l] - vb[l - 1]) + bl * (td[k][l + 1][0] - td[k][l][0]) / (vb[l + 1] - vb[l]);
+			XYZ dvukl = (1 - ak) * (td[k][l][0] - td[k - 1][l][0]) / (ub[k] - ub[k - 1]) + ak * (td[k + 1][l][0] - td[k][l][0]) / (ub[k + 1] - ub[k]);
+			XYZ duvkl = (1 - bl) * (td[k][l][1] - td[k][l - 1][1]) / (vb[l] - vb[l - 1]) + bl * (td[k][l + 1][1] - td[k][l][1]) / (vb[l + 1] - vb[l]);
 
 			td[k][l][2] = (ak * duvkl + bl * dvukl) / (ak + bl);
 		}
@@ -2439,14 +2433,14 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 	knotVectorU.resize(nu + degreeU + 1);
 	for (int i = 0; i <= degreeU; ++i) knotVectorU[i] = 0.0;
 	for (int i = 1; i < nu - degreeU; ++i) {
-		knotVectorU[degreeU + i] = ub[i];
+		knotVectorU[degreeU + i] = ub[(i + 1) / 2];
 	}
 	for (int i = nu; i < static_cast<int>(knotVectorU.size()); ++i) knotVectorU[i] = 1.0;
 
 	knotVectorV.resize(nv + degreeV + 1);
 	for (int i = 0; i <= degreeV; ++i) knotVectorV[i] = 0.0;
 	for (int i = 1; i < nv - degreeV; ++i) {
-		knotVectorV[degreeV + i] = vb[i];
+		knotVectorV[degreeV + i] = vb[(i + 1) / 2];
 	}
 	for (int i = nv; i < static_cast<int>(knotVectorV.size()); ++i) knotVectorV[i] = 1.0;
 
-- 
2.43.0


From 98cd669387c8abb45f9831836ce55efc31cec973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:01 +0000
Subject: [PATCH 47/79] fix: keep weights in non-uniform scaling of a surface

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 0a324a6..1578eb5 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2010,7 +2010,7 @@ std::vector<std::vector<LNLib::XYZW>> LNLib::NurbsSurface::NonUniformScaling(con
 				double y = current.GetWY() / weight;
 				double z = current.GetWZ() / weight;
 
-				row.emplace_back(XYZW(x * xFactor, y * yFactor, z * zFactor, weight));
+				row.emplace_back(XYZW(XYZ(x * xFactor, y * yFactor, z * zFactor), weight));
 			}
 			result.emplace_back(row);
 		}
@@ -2032,7 +2032,7 @@ std::vector<std::vector<LNLib::XYZW>> LNLib::NurbsSurface::NonUniformScaling(con
 				double newY = y * yFactor + (1 - yFactor) * referencePoint[1];
 				double newZ = z * zFactor + (1 - zFactor) * referencePoint[2];
 
-				row.emplace_back(XYZW(newX, newY, newZ, weight));
+				row.emplace_back(XYZW(XYZ(newX, newY, newZ), weight));
 			}
 			result.emplace_back(row);
 		}
-- 
2.43.0


From 0230a9a23637f0c5fc70aea19f1e7f733d43513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:05 +0000
Subject: [PATCH 48/79] fix: treat knots equal within tolerance as one when
 merging knot vectors

---
 src/LNLib/Algorithm/KnotVectorUtils.cpp | 32 +++++++++++++++++++------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/LNLib/Algorithm/KnotVectorUtils.cpp b/src/LNLib/Algorithm/KnotVectorUtils.cpp
index 9d8c456..e7ba013 100644
--- a/src/LNLib/Algorithm/KnotVectorUtils.cpp
+++ b/src/LNLib/Algorithm/KnotVectorUtils.cpp
@@ -143,6 +143,24 @@ std::map<double, int> LNLib::KnotVectorUtils::GetInternalKnotMultiplicityMap(con
 	return result;
 }
 
+namespace LNLib
+{
+	// Knots equal within tolerance are one knot, for example after a reversal.
+	static std::map<double, int>::iterator FindKnot(std::map<double, int>& map, double knot)
+	{
+		auto next = map.lower_bound(knot);
+		if (next != map.end() && MathUtils::IsAlmostEqualTo(next->first, knot))
+		{
+			return next;
+		}
+		if (next != map.begin() && MathUtils::IsAlmostEqualTo(std::prev(next)->first, knot))
+		{
+			return std::prev(next);
+		}
+		return map.end();
+	}
+}
+
 void LNLib::KnotVectorUtils::GetInsertedKnotElement(const std::vector<double>& knotVector0, const std::vector<double>& knotVector1, std::vector<double>& insertElements0, std::vector<double>& insertElements1)
 {
 	std::map<double, int> map0 = GetKnotMultiplicityMap(knotVector0);
@@ -153,7 +171,7 @@ void LNLib::KnotVectorUtils::GetInsertedKnotElement(const std::vector<double>& k
 		double key0 = it->first;
 		int count0 = it->second;
 
-		auto got = map1.find(key0);
+		auto got = FindKnot(map1, key0);
 		if (got == map1.end())
 		{
 			for (int i = 0; i < count0; i++)
@@ -169,7 +187,7 @@ void LNLib::KnotVectorUtils::GetInsertedKnotElement(const std::vector<double>& k
 				int times = count0 - count1;
 				for (int j = 0; j < times; j++)
 				{
-					insertElements1.emplace_back(key0);
+					insertElements1.emplace_back(got->first);
 				}
 			}
 			else
@@ -188,7 +206,7 @@ void LNLib::KnotVectorUtils::GetInsertedKnotElement(const std::vector<double>& k
 		double key1 = it->first;
 		int count1 = it->second;
 
-		auto got = map0.find(key1);
+		auto got = FindKnot(map0, key1);
 		if (got == map0.end())
 		{
 			for (int i = 0; i < count1; i++)
@@ -213,7 +231,7 @@ std::vector<std::vector<double>> LNLib::KnotVectorUtils::GetInsertedKnotElements
 		{
 			double key = it->first;
 			int count = it->second;
-			auto got = finalMap.find(key);
+			auto got = FindKnot(finalMap, key);
 			if (got == finalMap.end())
 			{
 				finalMap.insert({ key, count });
@@ -223,7 +241,7 @@ std::vector<std::vector<double>> LNLib::KnotVectorUtils::GetInsertedKnotElements
 				int currentCount = got->second;
 				if (currentCount < count)
 				{
-					finalMap[key] = count;
+					got->second = count;
 				}
 			}
 		}
@@ -241,7 +259,7 @@ std::vector<std::vector<double>> LNLib::KnotVectorUtils::GetInsertedKnotElements
 			double key = it->first;
 			int count = it->second;
 
-			auto got = map.find(key);
+			auto got = FindKnot(map, key);
 			if (got == map.end())
 			{
 				for (int j = 0; j < count; j++)
@@ -255,7 +273,7 @@ std::vector<std::vector<double>> LNLib::KnotVectorUtils::GetInsertedKnotElements
 				int times = count - currentCount;
 				for (int j = 0; j < times; j++)
 				{
-					insertElements.emplace_back(key);
+					insertElements.emplace_back(got->first);
 				}
 			}
 		}
-- 
2.43.0


From 399d1c314a0c996fe0c13035ed5711f3c63f538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:21 +0000
Subject: [PATCH 49/79] fix: find surface parameters at edges and midway
 between samples

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 1578eb5..ece10e9 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1444,20 +1444,17 @@ std::vector<LNLib::UV> LNLib::NurbsSurface::GetAllParamsOnSurface(const LN_Nurbs
 
 	std::vector<UV> initialGuesses;
 
-	for (int i = 1; i < numU - 1; ++i)
+	// Neighbours at the same distance are both kept, the point may lie between them.
+	for (int i = 0; i < numU; ++i)
 	{
-		for (int j = 1; j < numV - 1; ++j)
+		for (int j = 0; j < numV; ++j)
 		{
 			int idx = i * numV + j;
-			int idxUp = (i - 1) * numV + j;
-			int idxDown = (i + 1) * numV + j;
-			int idxLeft = i * numV + (j - 1);
-			int idxRight = i * numV + (j + 1);
-
-			if (MathUtils::IsLessThan(distSq[idx],distSq[idxUp]) &&
-				MathUtils::IsLessThan(distSq[idx],distSq[idxDown]) &&
-				MathUtils::IsLessThan(distSq[idx],distSq[idxLeft]) &&
-				MathUtils::IsLessThan(distSq[idx],distSq[idxRight]))
+
+			if ((i == 0 || distSq[idx] <= distSq[idx - numV]) &&
+				(i == numU - 1 || distSq[idx] <= distSq[idx + numV]) &&
+				(j == 0 || distSq[idx] <= distSq[idx - 1]) &&
+				(j == numV - 1 || distSq[idx] <= distSq[idx + 1]))
 			{
 				initialGuesses.push_back(correspondingKnots[idx]);
 			}
-- 
2.43.0


From 1b7c8577a06e25ba56e8cdb83e0766487ec69fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:42 +0000
Subject: [PATCH 50/79] fix: surface inversion does not start from chords
 between sample rows

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index ece10e9..5cd7fa3 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1314,7 +1314,12 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface,
 		double segLenSq = seg.DotProduct(seg);
 		double t = 0.5;
 
-		if (MathUtils::IsGreaterThan(segLenSq, 0.0))
+		if (UV0.GetU() != UV1.GetU())
+		{
+			// The next sample starts another row, the chord is not near the surface.
+			t = 0.0;
+		}
+		else if (MathUtils::IsGreaterThan(segLenSq, 0.0))
 		{
 			t = (givenPoint - P0).DotProduct(seg) / segLenSq;
 			t = std::max(0.0, std::min(1.0, t));
-- 
2.43.0


From edccf9ec400edc000d278fecfca4adcf8a20962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:43 +0000
Subject: [PATCH 51/79] fix: Chebyshev area integrates each patch with its own
 derivatives

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 5cd7fa3..3382e4e 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3563,19 +3563,18 @@ double LNLib::NurbsSurface::ApproximateArea(const LN_NurbsSurface& surface, Inte
 		{
 			std::vector<double> series = Integrator::ChebyshevSeries();
 			AreaWrapperFunction function;
-			AreaData data(reSurface, series);
 
-			for (int i = degreeU; i < controlPoints.size(); i++) 
+			// At a knot the derivatives of the whole surface are those of the following patch, so integrate every patch on its own.
+			std::vector<LN_NurbsSurface> bezierSurfaces = DecomposeToBeziers(reSurface);
+			for (int i = 0; i < bezierSurfaces.size(); i++)
 			{
-				data.CurrentKnotU = knotVectorU[i];
-				data.NextKnotU = knotVectorU[i + 1];
-				for (int j = degreeV; j < controlPoints[0].size(); j++) 
-				{
-					data.CurrentKnotV = knotVectorV[j];
-					data.NextKnotV = knotVectorV[j + 1];
-					
-					area += Integrator::ClenshawCurtisQuadrature2(function, (void*)&data, data.CurrentKnotV, data.NextKnotV, series);
-				}
+				AreaData data(bezierSurfaces[i], series);
+				data.CurrentKnotU = bezierSurfaces[i].KnotVectorU.front();
+				data.NextKnotU = bezierSurfaces[i].KnotVectorU.back();
+				data.CurrentKnotV = bezierSurfaces[i].KnotVectorV.front();
+				data.NextKnotV = bezierSurfaces[i].KnotVectorV.back();
+
+				area += Integrator::ClenshawCurtisQuadrature2(function, (void*)&data, data.CurrentKnotV, data.NextKnotV, series);
 			}
 			break;
 		}
-- 
2.43.0


From d49044f7f3fdc8f4f18ca80b0d95ac3301b5ff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:51 +0000
Subject: [PATCH 52/79] fix: matrices whose off-diagonal entries cancel are not
 identities or translations

---
 src/LNLib/Mathematics/Math/Matrix4d.cpp | 40 +++++++++++++++++--------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/LNLib/Mathematics/Math/Matrix4d.cpp b/src/LNLib/Mathematics/Math/Matrix4d.cpp
index d9518a5..a09857d 100644
--- a/src/LNLib/Mathematics/Math/Matrix4d.cpp
+++ b/src/LNLib/Mathematics/Math/Matrix4d.cpp
@@ -363,15 +363,22 @@ bool LNLib::Matrix4d::IsIdentity()
 		return false;
 	}
 
-	double sum = m_matrix4d[0][1] + m_matrix4d[0][2] + m_matrix4d[0][3] +
-		         m_matrix4d[1][0] + m_matrix4d[1][2] + m_matrix4d[1][3] +
-		         m_matrix4d[2][0] + m_matrix4d[2][1] + m_matrix4d[2][3] +
-		         m_matrix4d[3][0] + m_matrix4d[3][1] + m_matrix4d[3][2];
-	bool c4 = MathUtils::IsAlmostEqualTo(sum, 0.0);
+	bool c4 = MathUtils::IsAlmostEqualTo(m_matrix4d[3][3], 1);
 	if (!c4)
 	{
 		return false;
 	}
+
+	for (int i = 0; i < 4; i++)
+	{
+		for (int j = 0; j < 4; j++)
+		{
+			if (i != j && !MathUtils::IsAlmostEqualTo(m_matrix4d[i][j], 0.0))
+			{
+				return false;
+			}
+		}
+	}
 	return true;
 }
 
@@ -387,14 +394,23 @@ bool LNLib::Matrix4d::IsTranslation()
 	bool c1 = MathUtils::IsAlmostEqualTo(m_matrix4d[0][0], 1);
 	bool c2 = MathUtils::IsAlmostEqualTo(m_matrix4d[1][1], 1);
 	bool c3 = MathUtils::IsAlmostEqualTo(m_matrix4d[2][2], 1);
+	bool c4 = MathUtils::IsAlmostEqualTo(m_matrix4d[3][3], 1);
+	if (!(c1 && c2 && c3 && c4))
+	{
+		return false;
+	}
 
-	double sum = m_matrix4d[0][1] + m_matrix4d[0][2] +
-				 m_matrix4d[1][0] + m_matrix4d[1][2] +
-				 m_matrix4d[2][0] + m_matrix4d[2][1] +
-				 m_matrix4d[3][0] + m_matrix4d[3][1] + m_matrix4d[3][2];
-
-	bool c4 = MathUtils::IsAlmostEqualTo(sum, 0.0);
-	return c1 && c2 && c3 && c4;
+	for (int i = 0; i < 4; i++)
+	{
+		for (int j = 0; j < 3; j++)
+		{
+			if (i != j && !MathUtils::IsAlmostEqualTo(m_matrix4d[i][j], 0.0))
+			{
+				return false;
+			}
+		}
+	}
+	return true;
 }
 
 
-- 
2.43.0


From ec22ab25b7df3ea94111b224592fed1b9a30e634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:27 +0000
Subject: [PATCH 53/79] fix: singular matrices have no inverse

---
 src/LNLib/Mathematics/Utils/MathUtils.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Mathematics/Utils/MathUtils.cpp b/src/LNLib/Mathematics/Utils/MathUtils.cpp
index ec6dca1..9744e73 100644
--- a/src/LNLib/Mathematics/Utils/MathUtils.cpp
+++ b/src/LNLib/Mathematics/Utils/MathUtils.cpp
@@ -211,7 +211,12 @@ bool LNLib::MathUtils::MakeInverse(const std::vector<std::vector<double>>& matri
         m.row(i) = Eigen::VectorXd::Map(&matrix[i][0], matrix[i].size());
     }
 
-    auto result = m.inverse();
+    Eigen::FullPivLU<Eigen::MatrixXd> lu(m);
+    if (!lu.isInvertible())
+    {
+        return false;
+    }
+    Eigen::MatrixXd result = lu.inverse();
     inverse.resize(row);
     for (int k = 0; k < row; k++)
     {
-- 
2.43.0


From 3ef2c2f1682b9ae559e1641a2711be0db3eb1351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:31 +0000
Subject: [PATCH 54/79] fix: an orthogonal vector exists for every direction

---
 src/LNLib/Mathematics/Math/XYZ.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Mathematics/Math/XYZ.cpp b/src/LNLib/Mathematics/Math/XYZ.cpp
index f555bfa..8f496dc 100644
--- a/src/LNLib/Mathematics/Math/XYZ.cpp
+++ b/src/LNLib/Mathematics/Math/XYZ.cpp
@@ -175,12 +175,17 @@ XYZ LNLib::XYZ::CreateRandomOrthogonal(const XYZ& xyz)
 {
 	XYZ current = xyz;
 	XYZ normal = current.Normalize();
-	XYZ tangent = normal.CrossProduct(XYZ(-normal.GetZ(), normal.GetX(), normal.GetY()));
+	// The axis of the smallest component is never parallel to the normal.
+	double x = std::fabs(normal.GetX());
+	double y = std::fabs(normal.GetY());
+	double z = std::fabs(normal.GetZ());
+	XYZ axis = x <= y && x <= z ? XYZ(1, 0, 0) : (y <= z ? XYZ(0, 1, 0) : XYZ(0, 0, 1));
+	XYZ tangent = normal.CrossProduct(axis).Normalize();
 	XYZ bitangent = normal.CrossProduct(tangent);
 
 	std::random_device rd;
 	std::mt19937 gen(rd());
-	std::uniform_int_distribution<> distrib(-Constants::Pi, Constants::Pi);
+	std::uniform_real_distribution<double> distrib(-Constants::Pi, Constants::Pi);
 	double angle = distrib(gen);
 	return (tangent * std::sin(angle) + bitangent * std::cos(angle)).Normalize();
 }
-- 
2.43.0


From fa75be79ce8c471c783a20646a62e8d2d1e2fbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:35 +0000
Subject: [PATCH 55/79] fix: octree searches compare exactly, small distances
 were pruned

---
 src/LNLib/Algorithm/Octree/Octree.cpp | 42 +++++++++++++--------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/LNLib/Algorithm/Octree/Octree.cpp b/src/LNLib/Algorithm/Octree/Octree.cpp
index 4c3c33b..e153bfd 100644
--- a/src/LNLib/Algorithm/Octree/Octree.cpp
+++ b/src/LNLib/Algorithm/Octree/Octree.cpp
@@ -34,7 +34,7 @@ bool LNLib::Inside(const LNLib::XYZ& query, double radius, LNLib::Octant* octant
     double ax = std::fabs(queryOffset.X());
     double ay = std::fabs(queryOffset.Y());
     double az = std::fabs(queryOffset.Z());
-    return (MathUtils::IsLessThan(ax + radius,octant->Extent)) && (MathUtils::IsLessThan(ay + radius,octant->Extent)) && (MathUtils::IsLessThan(az + radius,octant->Extent));
+    return (ax + radius < octant->Extent) && (ay + radius < octant->Extent) && (az + radius < octant->Extent);
 }
 
 bool LNLib::Overlaps(const LNLib::XYZ& query, double radius, LNLib::Octant* octant) {
@@ -44,12 +44,12 @@ bool LNLib::Overlaps(const LNLib::XYZ& query, double radius, LNLib::Octant* octa
     double az = std::fabs(queryOffset.Z());
 
     double maxDist = radius + octant->Extent;
-    if (MathUtils::IsGreaterThan(ax,maxDist) || MathUtils::IsGreaterThan(ay,maxDist) || MathUtils::IsGreaterThan(az,maxDist)) return false;
+    if (ax > maxDist || ay > maxDist || az > maxDist) return false;
 
     int count = 0;
-    if (MathUtils::IsLessThan(ax,octant->Extent)) count++;
-    if (MathUtils::IsLessThan(ay,octant->Extent)) count++;
-    if (MathUtils::IsLessThan(az,octant->Extent)) count++;
+    if (ax < octant->Extent) count++;
+    if (ay < octant->Extent) count++;
+    if (az < octant->Extent) count++;
     if (count >= 2) return true;
 
     double xDiff = std::max(ax - octant->Extent, 0.0);
@@ -57,7 +57,7 @@ bool LNLib::Overlaps(const LNLib::XYZ& query, double radius, LNLib::Octant* octa
     double zDiff = std::max(az - octant->Extent, 0.0);
 
     LNLib::XYZ diff(xDiff, yDiff, zDiff);
-    return  MathUtils::IsLessThan(diff.SqrLength(),(radius * radius));
+    return diff.SqrLength() <= radius * radius;
 }
 
 bool LNLib::Contains(const LNLib::XYZ& query, double radius, LNLib::Octant* octant) {
@@ -89,9 +89,9 @@ LNLib::Octant* OctreeRecursiveBuild(LNLib::Octant* root, const std::vector<LNLib
         for (int pointIdx : pointIndices) {
             const LNLib::XYZ& pointDb = db[pointIdx];
             int mortonCode = 0;
-            if (LNLib::MathUtils::IsGreaterThan(pointDb.X(),center.X())) mortonCode |= 1;
-            if (LNLib::MathUtils::IsGreaterThan(pointDb.Y(),center.Y())) mortonCode |= 2;
-            if (LNLib::MathUtils::IsGreaterThan(pointDb.Z(),center.Z())) mortonCode |= 4;
+            if (pointDb.X() > center.X()) mortonCode |= 1;
+            if (pointDb.Y() > center.Y()) mortonCode |= 2;
+            if (pointDb.Z() > center.Z()) mortonCode |= 4;
             childrenPointIndices[mortonCode].push_back(pointIdx);
         }
 
@@ -125,13 +125,13 @@ LNLib::Octant* LNLib::OctreeConstruction(const std::vector<LNLib::XYZ>& db, int
 
     for (const auto& p : db) {
 
-        if (LNLib::MathUtils::IsLessThan(p.X(),dbMin.X())) dbMin.X() = p.X();
-        if (LNLib::MathUtils::IsLessThan(p.Y(),dbMin.Y())) dbMin.Y() = p.Y();
-        if (LNLib::MathUtils::IsLessThan(p.Z(),dbMin.Z())) dbMin.Z() = p.Z();
+        if (p.X() < dbMin.X()) dbMin.X() = p.X();
+        if (p.Y() < dbMin.Y()) dbMin.Y() = p.Y();
+        if (p.Z() < dbMin.Z()) dbMin.Z() = p.Z();
 
-        if (LNLib::MathUtils::IsGreaterThan(p.X(),dbMax.X())) dbMax.X() = p.X();
-        if (LNLib::MathUtils::IsGreaterThan(p.Y(),dbMax.Y())) dbMax.Y() = p.Y();
-        if (LNLib::MathUtils::IsGreaterThan(p.Z(),dbMax.Z())) dbMax.Z() = p.Z();
+        if (p.X() > dbMax.X()) dbMax.X() = p.X();
+        if (p.Y() > dbMax.Y()) dbMax.Y() = p.Y();
+        if (p.Z() > dbMax.Z()) dbMax.Z() = p.Z();
     }
 
     double dbExtent = std::max({ dbMax.X() - dbMin.X(),
@@ -189,9 +189,9 @@ bool LNLib::OctreeRadiusSearch(LNLib::Octant* root, const std::vector<LNLib::XYZ
     }
 
     int mortonCode = 0;
-    if (LNLib::MathUtils::IsGreaterThan(query.X(),root->Center.X())) mortonCode |= 1;
-    if (LNLib::MathUtils::IsGreaterThan(query.Y(),root->Center.Y())) mortonCode |= 2;
-    if (LNLib::MathUtils::IsGreaterThan(query.Z(),root->Center.Z())) mortonCode |= 4;
+    if (query.X() > root->Center.X()) mortonCode |= 1;
+    if (query.Y() > root->Center.Y()) mortonCode |= 2;
+    if (query.Z() > root->Center.Z()) mortonCode |= 4;
 
     if (LNLib::OctreeRadiusSearch(root->Children[mortonCode], db, resultSet, query))
         return true;
@@ -218,9 +218,9 @@ bool LNLib::OctreeKnnSearch(LNLib::Octant* root, const std::vector<LNLib::XYZ>&
     }
 
     int mortonCode = 0;
-    if (LNLib::MathUtils::IsGreaterThan(query.X(),root->Center.X())) mortonCode |= 1;
-    if (LNLib::MathUtils::IsGreaterThan(query.Y(),root->Center.Y())) mortonCode |= 2;
-    if (LNLib::MathUtils::IsGreaterThan(query.Z(),root->Center.Z())) mortonCode |= 4;
+    if (query.X() > root->Center.X()) mortonCode |= 1;
+    if (query.Y() > root->Center.Y()) mortonCode |= 2;
+    if (query.Z() > root->Center.Z()) mortonCode |= 4;
 
     if (LNLib::OctreeKnnSearch(root->Children[mortonCode], db, resultSet, query))
         return true;
-- 
2.43.0


From b74178e176400b1679acbb4c3be691d06f87ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:40 +0000
Subject: [PATCH 56/79] fix: BezierSurface::Check compiles

---
 src/LNLib/include/BezierSurface.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/include/BezierSurface.h b/src/LNLib/include/BezierSurface.h
index 8c44c70..d779e1d 100644
--- a/src/LNLib/include/BezierSurface.h
+++ b/src/LNLib/include/BezierSurface.h
@@ -30,7 +30,7 @@ namespace LNLib {
 		{
 			int degreeU = surface.DegreeU;
 			int degreeV = surface.DegreeV;
-			std::vector<T> controlPoints = surface.ControlPoints;
+			std::vector<std::vector<T>> controlPoints = surface.ControlPoints;
 
 			VALIDATE_ARGUMENT(degreeU > 0, "degreeU", "Degree must be greater than zero.");
 			VALIDATE_ARGUMENT(degreeV > 0, "degreeV", "Degree must be greater than zero.");
-- 
2.43.0


From f26392d80ac655d6f7e246889f56f1eab27107c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:59 +0000
Subject: [PATCH 57/79] fix: surface checks look at every row of control points

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 5 ++++-
 src/LNLib/include/BezierSurface.h           | 5 ++++-
 src/LNLib/include/BsplineSurface.h          | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 3382e4e..c6295f3 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -107,7 +107,10 @@ void  LNLib::NurbsSurface::Check(const LN_NurbsSurface& surface)
 	VALIDATE_ARGUMENT(ValidationUtils::IsValidKnotVector(knotVectorV), "knotVectorV", "KnotVector must be a nondecreasing sequence of real numbers.");
 	VALIDATE_ARGUMENT(controlPoints.size() > 0, "controlPoints", "ControlPoints must contain one point at least.");
 	VALIDATE_ARGUMENT(ValidationUtils::IsValidNurbs(degreeU, knotVectorU.size(), controlPoints.size()), "controlPoints", "Arguments must be fit: m = n + p + 1");
-	VALIDATE_ARGUMENT(ValidationUtils::IsValidNurbs(degreeV, knotVectorV.size(), controlPoints[0].size()), "controlPoints", "Arguments must be fit: m = n + p + 1");
+	for (int i = 0; i < controlPoints.size(); i++)
+	{
+		VALIDATE_ARGUMENT(ValidationUtils::IsValidNurbs(degreeV, knotVectorV.size(), controlPoints[i].size()), "controlPoints", "Arguments must be fit: m = n + p + 1");
+	}
 }
 
 LNLib::LN_NurbsCurve LNLib::NurbsSurface::GetIsoCurve(const LN_NurbsSurface& surface, double fixedParam, bool isUDirection)
diff --git a/src/LNLib/include/BezierSurface.h b/src/LNLib/include/BezierSurface.h
index d779e1d..004943b 100644
--- a/src/LNLib/include/BezierSurface.h
+++ b/src/LNLib/include/BezierSurface.h
@@ -36,7 +36,10 @@ namespace LNLib {
 			VALIDATE_ARGUMENT(degreeV > 0, "degreeV", "Degree must be greater than zero.");
 			VALIDATE_ARGUMENT(controlPoints.size() > 0, "controlPoints", "ControlPoints must contain one point at least.");
 			VALIDATE_ARGUMENT(degreeU + 1 == controlPoints.size(), "controlPoints", "ControlPoints row size equals degreeU plus one.");
-			VALIDATE_ARGUMENT(degreeV + 1 == controlPoints[0].size(), "controlPoints", "ControlPoints column size equals degreeV plus one.");
+			for (int i = 0; i < controlPoints.size(); i++)
+			{
+				VALIDATE_ARGUMENT(degreeV + 1 == controlPoints[i].size(), "controlPoints", "ControlPoints column size equals degreeV plus one.");
+			}
 		}
 
 		/// <summary>
diff --git a/src/LNLib/include/BsplineSurface.h b/src/LNLib/include/BsplineSurface.h
index b686767..988529d 100644
--- a/src/LNLib/include/BsplineSurface.h
+++ b/src/LNLib/include/BsplineSurface.h
@@ -43,7 +43,10 @@ namespace LNLib
 			VALIDATE_ARGUMENT(ValidationUtils::IsValidKnotVector(knotVectorV), "knotVectorV", "KnotVector must be a nondecreasing sequence of real numbers.");
 			VALIDATE_ARGUMENT(controlPoints.size() > 0, "controlPoints", "ControlPoints must contains one point at least.");
 			VALIDATE_ARGUMENT(ValidationUtils::IsValidBspline(degreeU, knotVectorU.size(), controlPoints.size()), "controlPoints", "Arguments must be fit: m = n + p + 1");
-			VALIDATE_ARGUMENT(ValidationUtils::IsValidBspline(degreeV, knotVectorV.size(), controlPoints[0].size()), "controlPoints", "Arguments must be fit: m = n + p + 1");
+			for (int i = 0; i < controlPoints.size(); i++)
+			{
+				VALIDATE_ARGUMENT(ValidationUtils::IsValidBspline(degreeV, knotVectorV.size(), controlPoints[i].size()), "controlPoints", "Arguments must be fit: m = n + p + 1");
+			}
 		}
 
 		/// <summary>
-- 
2.43.0


From 4b78fa997a86f2577478e6100768644cec5267ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:16 +0000
Subject: [PATCH 58/79] fix: surface knot insertion refuses non-positive times

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index c6295f3..e7468d5 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -564,6 +564,7 @@ void LNLib::NurbsSurface::InsertKnot(const LN_NurbsSurface& surface, double inse
 	std::vector<double> knotVectorV = surface.KnotVectorV;
 	std::vector<std::vector<XYZW>> controlPoints = surface.ControlPoints;
 
+	VALIDATE_ARGUMENT(times > 0, "times", "Times must be greater than zero.");
 	if (isUDirection)
 	{
 		VALIDATE_ARGUMENT(ValidationUtils::IsValidNurbs(degreeU, knotVectorU.size(), controlPoints.size()), "controlPoints", "Arguments must be fit: m = n + p + 1");
-- 
2.43.0


From 71899dada9adc67e1fdd32b0c75f902fdf61897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:33 +0000
Subject: [PATCH 59/79] fix: surface refinement refuses knots outside the
 domain before changing the result

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index e7468d5..a3884eb 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -717,6 +717,11 @@ void LNLib::NurbsSurface::RefineKnotVector(const LN_NurbsSurface& surface, const
 	std::vector<std::vector<XYZW>> controlPoints = surface.ControlPoints;
 
 	VALIDATE_ARGUMENT(insertKnotElements.size() > 0, "insertKnotElements", "insertKnotElements size must be greater than zero.");
+	const std::vector<double>& knotVector = isUDirection ? knotVectorU : knotVectorV;
+	for (int i = 0; i < insertKnotElements.size(); i++)
+	{
+		VALIDATE_ARGUMENT_RANGE(insertKnotElements[i], knotVector[0], knotVector[knotVector.size() - 1]);
+	}
 
 	std::vector<double> tempKnotVector;
 	std::vector<std::vector<XYZW>> tempControlPoints;
-- 
2.43.0


From 101dc908958eff17fb911967a03a6dea1722b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:48 +0000
Subject: [PATCH 60/79] fix: removing what is not an interior knot removes
 nothing

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index c6b050a..9744516 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -749,6 +749,11 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 
 	int order = degree + 1;
 	int s = Polynomials::GetKnotMultiplicity(knotVector, removeKnot);
+	if (s == 0 || s > degree)
+	{
+		// Not an interior knot, there is nothing to remove.
+		return false;
+	}
 	int r = Polynomials::GetKnotSpanIndex(degree, knotVector, removeKnot);
 
 	int first = r - degree;
-- 
2.43.0


From 3d81601370414fc6910ff93cf401f73a9c4647af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:06 +0000
Subject: [PATCH 61/79] fix: inserting an end knot into a surface leaves it
 unchanged

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index a3884eb..f88b731 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -579,7 +579,7 @@ void LNLib::NurbsSurface::InsertKnot(const LN_NurbsSurface& surface, double inse
 	int knotSpanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, insertKnot);
 	int multiplicity = Polynomials::GetKnotMultiplicity(knotVector, insertKnot);
 
-	if (multiplicity == degree)
+	if (multiplicity >= degree)
 	{
 		result = surface;
 		return;
-- 
2.43.0


From 1c2722d0e8eef0978d48f911da204fa513cd7e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:59 +0000
Subject: [PATCH 62/79] fix: tangents at doubled data points are finite

---
 src/LNLib/Algorithm/Interpolation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Algorithm/Interpolation.cpp b/src/LNLib/Algorithm/Interpolation.cpp
index edb0cf9..8a3415d 100644
--- a/src/LNLib/Algorithm/Interpolation.cpp
+++ b/src/LNLib/Algorithm/Interpolation.cpp
@@ -411,10 +411,10 @@ std::vector<LNLib::XYZ> LNLib::Interpolation::ComputeTangent(const std::vector<X
 			tangents[i] = XYZ(0, 0, 0);
 		}
 		else if (MathUtils::IsAlmostEqualTo(w1, 0.0)) {
-			tangents[i] = dP[i] / du[i];
+			tangents[i] = dP[i - 1] / du[i - 1];
 		}
 		else if (MathUtils::IsAlmostEqualTo(w2, 0.0)) {
-			tangents[i] = dP[i - 1] / du[i - 1];
+			tangents[i] = dP[i] / du[i];
 		}
 		else {
 			double a = w2 / (w1 + w2);
-- 
2.43.0


From a3b998a180af30e4dd26c82d4aaf881b22e38937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:14 +0000
Subject: [PATCH 63/79] fix: fitting a conic uses the conic through each point
 with the given tangents

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 9744516..50ef64b 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2971,7 +2971,7 @@ bool LNLib::NurbsCurve::FitWithConic(const std::vector<XYZ>& throughPoints, int
 			return false;	
 		}
 		double wi = 0.0;
-		if (CreateOneConicArc(startPoint, V, R, V1, throughPoints[i], dummy, wi))
+		if (CreateOneConicArc(startPoint, startTangent, endPoint, endTangent, throughPoints[i], dummy, wi))
 		{
 			s = s + wi / (1 + wi);
 		}
-- 
2.43.0


From 8666f53b012f1c5340377d638cc06cf1820937a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:29 +0000
Subject: [PATCH 64/79] fix: a conic fit with a non-positive weight is no fit

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 50ef64b..f229a75 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2979,6 +2979,10 @@ bool LNLib::NurbsCurve::FitWithConic(const std::vector<XYZ>& throughPoints, int
 	
 	s = s / (endPointIndex - startPointIndex - 1);
 	double w = s / (1.0 - s);
+	if (MathUtils::IsLessThanOrEqual(w, 0.0))
+	{
+		return false;
+	}
 
 	std::vector<XYZW> controlPoints = { XYZW(startPoint,1), XYZW(R,w), XYZW(endPoint,1) };
 	std::vector<double> knotVectors = { 0,0,0,1.0,1.0,1.0 };
-- 
2.43.0


From bffda8e82307f83682da5ec6fecbb812c2312377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:44 +0000
Subject: [PATCH 65/79] fix: fitting a cubic looks at all points before calling
 them a line

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index f229a75..b286227 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3051,7 +3051,7 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 	int dk = endPointIndex - startPointIndex;
 	bool isLine = true;
 	XYZ tempStandard(0, 0, 0);
-	for (int i = startPointIndex; i < dk + 1; i++)
+	for (int i = startPointIndex; i <= endPointIndex; i++)
 	{
 		XYZ tp = throughPoints[i];
 		XYZ direction = (tp - startPoint).Normalize();
-- 
2.43.0


From 9ed4afb41d3c655b520249277805a30d4b7f7444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:59 +0000
Subject: [PATCH 66/79] fix: fitting a cubic to points in space follows the
 points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index b286227..623db30 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3126,30 +3126,35 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 		else
 		{
 			XYZ Pd(0, 0, 0);
-			LinePlaneIntersectionType type0 = Intersection::ComputeLineAndPlane(normalPi, startPoint, throughPoints[k + startPointIndex], startTangent, Pd);
-			if (!(type0 == LinePlaneIntersectionType::Intersecting)) continue;
+			LinePlaneIntersectionType type0 = Intersection::ComputeLineAndPlane(normalPi, startPoint, throughPoints[k + startPointIndex], endTangent, Pd);
+			if (!(type0 == LinePlaneIntersectionType::Intersecting)) return false;
 			double param0 = 0.0; double param1 = 0.0;
 			XYZ Pc(0, 0, 0);
 			CurveCurveIntersectionType type1 = Intersection::ComputeRays(startPoint, endPoint - startPoint, Pd, startTangent, param0, param1, Pc);
-			if (!(type1 == CurveCurveIntersectionType::Intersecting)) continue;
-			double gamma = Pc.Distance(endPoint) / startPoint.Distance(endPoint);
-			if (MathUtils::IsLessThan(gamma, 0.0) || MathUtils::IsGreaterThan(gamma, 1.0))
+			if (!(type1 == CurveCurveIntersectionType::Intersecting)) return false;
+			double gamma = 1.0 - param0;
+			if (!MathUtils::IsGreaterThan(gamma, 0.0) || !MathUtils::IsLessThan(gamma, 1.0))
 			{
 				return false;
 			}
-			uh[k] = MathUtils::ComputerCubicEquationsWithOneVariable(2, -3, 0, 1 - gamma);
+			// The root of 2u^3 - 3u^2 + 1 - gamma between 0 and 1.
+			uh[k] = 0.5 - std::sin(std::asin(2.0 * gamma - 1.0) / 3.0);
 			if (MathUtils::IsLessThan(uh[k], 0.0) || MathUtils::IsGreaterThan(uh[k], 1.0))
 			{
 				return false;
 			}
 			else
 			{
-				double a = Pc.Distance(Pd);
-				double b = -Pd.Distance(throughPoints[k + startPointIndex]);
+				double a = (Pd - Pc).DotProduct(startTangent) / startTangent.DotProduct(startTangent);
+				double b = (throughPoints[k + startPointIndex] - Pd).DotProduct(endTangent) / endTangent.DotProduct(endTangent);
 				double b13 = Polynomials::Bernstein(1, 3, uh[k]);
 				double b23 = Polynomials::Bernstein(2, 3, uh[k]);
 				alphak[k] = a / b13;
 				betak[k] = b / b23;
+				if (!MathUtils::IsGreaterThan(alphak[k], 0.0) || !MathUtils::IsLessThan(betak[k], 0.0))
+				{
+					return false;
+				}
 			}
 		}
 	}
-- 
2.43.0


From 50df911aac5e852f91845728c0e91412963f57d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:13 +0000
Subject: [PATCH 67/79] fix: fitting a cubic to points in a plane solves for
 the control points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 623db30..3701040 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3076,7 +3076,7 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 		middleControlPoints.emplace_back(P2);
 		return true;
 	}
-	std::vector<XYZ> newThroughPoints(endPointIndex - startPointIndex + 1);
+	std::vector<XYZ> newThroughPoints;
 	for (int i = startPointIndex; i <= endPointIndex; i++)
 	{
 		newThroughPoints.emplace_back(throughPoints[i]);
@@ -3098,19 +3098,16 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 
 			XYZ a1 = 3 * pow(s, 2) * t * startTangent;
 			XYZ b1 = 3 * s * pow(t, 2) * endTangent;
-			XYZ c1 = throughPoints[k] - (pow(s, 3) + 3 * pow(s, 2) * t) * startPoint - (pow(t, 3) + 3 * s * pow(t, 2)) * endPoint;
+			XYZ c1 = throughPoints[k + startPointIndex] - (pow(s, 3) + 3 * pow(s, 2) * t) * startPoint - (pow(t, 3) + 3 * s * pow(t, 2)) * endPoint;
 
-			double alk = (uh[k] - uh[k - 1]) / (uh[k + 1] - uh[k - 1]);
-			XYZ dk = (throughPoints[k] - throughPoints[k - 1]) / (uh[k] - uh[k - 1]);
-			XYZ dk1 = (throughPoints[k + 1] - throughPoints[k]) / (uh[k + 1] - uh[k]);
-			XYZ Dk = ((1 - alk) * dk + alk * dk1).Normalize();
-
-			XYZ a2 = s * (s - 2 * t) * (Dk.CrossProduct(startTangent));
-			XYZ b2 = t * (2 * s - t) * (Dk.CrossProduct(endTangent));
-			XYZ c2 = 2 * s * t * (Dk.CrossProduct(startPoint - endPoint));
-
-			ak = (c1 * b2 - c2 * b1) / (a1 * b2 - a2 * b1);
-			bk = (c1 * a2 - c2 * a1) / (b1 * a2 - b2 * a1);
+			// All of them lie in one plane: a1 * ak + b1 * bk = c1 has one solution unless the tangents are parallel.
+			XYZ n = a1.CrossProduct(b1);
+			if (n.IsZero())
+			{
+				return false;
+			}
+			ak = c1.CrossProduct(b1).DotProduct(n) / n.DotProduct(n);
+			bk = a1.CrossProduct(c1).DotProduct(n) / n.DotProduct(n);
 
 			if (MathUtils::IsGreaterThan(ak, 0.0) &&
 				MathUtils::IsLessThan(bk, 0.0))
-- 
2.43.0


From dafece62f155be0732f494df8a2ab4bca722ad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:25 +0000
Subject: [PATCH 68/79] fix: a cubic fit checks the error of every point before
 adding control points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 3701040..4aeadb4 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3166,14 +3166,12 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 	beta = beta / (dk - 1);
 	XYZ P1 = throughPoints[startPointIndex] + alpha * startTangent;
 	XYZ P2 = throughPoints[endPointIndex] + beta * endTangent;
-	middleControlPoints.emplace_back(XYZW(P1, 1));
-	middleControlPoints.emplace_back(XYZW(P2, 1));
 	for (int k = 1; k < dk; k++)
 	{
 		double u = uh[k];
 		double deltaAk = alphak[k] - alpha;
 		double deltaBk = betak[k] - beta;
-		double e = (deltaAk * Polynomials::Bernstein(1, 3, u) * startTangent).Distance(deltaBk * Polynomials::Bernstein(2, 3, u) * endTangent);
+		double e = (deltaAk * Polynomials::Bernstein(1, 3, u) * startTangent + deltaBk * Polynomials::Bernstein(2, 3, u) * endTangent).Length();
 		if (MathUtils::IsLessThanOrEqual(e, maxError)) continue;
 		else
 		{
@@ -3191,6 +3189,8 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 			}
 		}
 	}
+	middleControlPoints.emplace_back(XYZW(P1, 1));
+	middleControlPoints.emplace_back(XYZW(P2, 1));
 	return true;
 }
 
-- 
2.43.0


From 91b0cae5f94e5a3ec96dbaa8a25e30c453e32a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:38 +0000
Subject: [PATCH 69/79] fix: differentiability is decided by the one-sided
 derivatives

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 26 ++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 4aeadb4..fda1db1 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -321,13 +321,29 @@ bool LNLib::NurbsCurve::CanComputeDerivative(const LN_NurbsCurve& curve, double
 		return true;
 	}
 
-	auto pt = GetPointOnCurve(curve, paramT);
+	int degree = curve.Degree;
+	const auto& knotVector = curve.KnotVector;
+	const auto& controlPoints = curve.ControlPoints;
+
+	int multiplicity = Polynomials::GetKnotMultiplicity(knotVector, paramT);
+	if (multiplicity < degree)
+	{
+		return true;
+	}
+
+	// The curve meets these control points at the knot, coming from the left and from the right.
+	int spanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, paramT);
+	int leftIndex = spanIndex - multiplicity;
+	int rightIndex = spanIndex - degree;
+	XYZW leftPoint = controlPoints[leftIndex];
+	XYZW rightPoint = controlPoints[rightIndex];
+	XYZW leftDerivative = (leftPoint - controlPoints[leftIndex - 1]) * (degree / (knotVector[spanIndex] - knotVector[leftIndex]));
+	XYZW rightDerivative = (controlPoints[rightIndex + 1] - rightPoint) * (degree / (knotVector[spanIndex + 1] - knotVector[spanIndex]));
 
-	double eps = 1e-8;
-	XYZ left = (GetPointOnCurve(curve, paramT - eps) - pt) / - eps;
-	XYZ right = (GetPointOnCurve(curve, paramT + eps) - pt) / eps;
+	XYZ left = (leftDerivative.ToXYZ(false) - leftDerivative.GetW() * leftPoint.ToXYZ(true)) / leftPoint.GetW();
+	XYZ right = (rightDerivative.ToXYZ(false) - rightDerivative.GetW() * rightPoint.ToXYZ(true)) / rightPoint.GetW();
 
-	return left.IsAlmostEqualTo(right);
+	return leftPoint.ToXYZ(true).IsAlmostEqualTo(rightPoint.ToXYZ(true)) && left.IsAlmostEqualTo(right);
 }
 
 double LNLib::NurbsCurve::Curvature(const LN_NurbsCurve& curve, double paramT)
-- 
2.43.0


From c17eaa0e16125f7d02f3c9755b73b8b83f2195cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:53 +0000
Subject: [PATCH 70/79] fix: normals projected along a closed curve stay in
 bounds and perpendicular

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index fda1db1..b114ce8 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -426,19 +426,23 @@ std::vector<LNLib::XYZ> LNLib::NurbsCurve::ProjectNormal(const LN_NurbsCurve& cu
 	{
 		Blist[m] = Blist[0];
 
-		std::vector<XYZ> Baver(m);
+		std::vector<XYZ> Baver(size);
 		Baver[m] = Blist[0];
 
 		for (int i = m - 1; i >= 1; i--)
 		{
-			XYZ Ti1 = ComputeRationalCurveDerivatives(curve, 1, knotVector[i + 1])[1].Normalize();
-			XYZ bi = Baver[i + 1] + Ti1;
+			XYZ Ti = ComputeRationalCurveDerivatives(curve, 1, knotVector[i])[1].Normalize();
+			XYZ bi = Baver[i + 1] - (Baver[i + 1].DotProduct(Ti)) * Ti;
 			Baver[i] = bi.Normalize();
 		}
 
 		for (int i = 1; i <= m - 1; i++)
 		{
-			Blist[i] = 0.5 * (Blist[i] + Baver[i]);
+			XYZ average = Blist[i] + Baver[i];
+			if (!average.IsZero())
+			{
+				Blist[i] = average.Normalize();
+			}
 		}
 	}
 	return Blist;
-- 
2.43.0


From c139c32c9f0a5f398332af62de6f79f2e691d365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:38 +0000
Subject: [PATCH 71/79] fix: swept sections stay perpendicular to the
 trajectory

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index f88b731..073bc3b 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2828,7 +2828,7 @@ void LNLib::NurbsSurface::CreateSweepSurface(const LN_NurbsCurve& profile, const
 		// Build local coordinate system for the section.
 		XYZ zdir = NurbsCurve::ComputeRationalCurveDerivatives(trajectoryCopy, 1, vk[k])[1].Normalize();
 		int spanIndex = Polynomials::GetKnotSpanIndex(trajectoryCopy.Degree, trajectoryCopy.KnotVector, vk[k]);
-		const XYZ& xdir = Bv[spanIndex];
+		XYZ xdir = (Bv[spanIndex] - Bv[spanIndex].DotProduct(zdir) * zdir).Normalize();
 		XYZ ydir = zdir.CrossProduct(xdir).Normalize();
 
 		// Transform the input profile to the lofting position.
@@ -2882,7 +2882,7 @@ void LNLib::NurbsSurface::CreateSweepSurface(const LN_NurbsCurve& profile, const
 	{
 		XYZ zdir = NurbsCurve::ComputeRationalCurveDerivatives(path, 1, segments[k])[1].Normalize();
 		int spanIndex = Polynomials::GetKnotSpanIndex(path.Degree, path.KnotVector, segments[k]);
-		XYZ xdir = Bv[spanIndex];
+		XYZ xdir = (Bv[spanIndex] - Bv[spanIndex].DotProduct(zdir) * zdir).Normalize();
 		XYZ ydir = zdir.CrossProduct(xdir).Normalize();
 
 		std::vector<XYZW> transformedControlPoints(profileCpSize);
-- 
2.43.0


From d0bcf613f3ef2b6f85dd69ca4f00a736aee12359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:50 +0000
Subject: [PATCH 72/79] fix: the sections of an interpolated sweep reach the
 end of the trajectory

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 073bc3b..1564b03 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2868,10 +2868,11 @@ void LNLib::NurbsSurface::CreateSweepSurface(const LN_NurbsCurve& profile, const
 	std::vector<double> segments(nsect);
 	segments[0] = 0.0;
 	std::vector<double> params = NurbsCurve::GetParamsOnCurve(path, stepLength);
-	for (int i = 0; i < params.size(); i++)
+	for (int i = 0; i < params.size() && i + 1 < nsect - 1; i++)
 	{
 		segments[i + 1] = params[i];
 	}
+	segments[nsect - 1] = 1.0;
 
 	std::vector<XYZ> Bv = NurbsCurve::ProjectNormal(path);
 	const std::vector<XYZW>& profileControlPoints = profile.ControlPoints;
-- 
2.43.0


From 191be145a095d4e05101ca7e5261cf4aa1744920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:02 +0000
Subject: [PATCH 73/79] fix: the three surfaces of a Gordon surface interpolate
 alike

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 1564b03..8d17d1c 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3003,10 +3003,17 @@ void LNLib::NurbsSurface::CreateGordonSurface(const std::vector<LN_NurbsCurve>&
 	int rows = intersectionPoints.size();
 	int columns = intersectionPoints[0].size();
 
+	int degreeU = std::min(columns - 1, degree_u_max);
+	int degreeV = std::min(rows - 1, degree_v_max);
+
+	// All three surfaces interpolate at the same parameters with the same degrees, otherwise the sum misses the curves.
+	std::vector<double> uk, vl;
+	Interpolation::GetSurfaceMeshParameterization(intersectionPoints, vl, uk);
+
 	LN_NurbsSurface loftSurfaceV;
-	CreateLoftSurface(uInternals, loftSurfaceV);
+	CreateLoftSurface(uInternals, loftSurfaceV, degreeV, vl);
 	LN_NurbsSurface ts;
-	CreateLoftSurface(vInternals, ts);
+	CreateLoftSurface(vInternals, ts, degreeU, uk);
 	std::vector<std::vector<XYZW>> transposedControlPoints;
 	MathUtils::Transpose(ts.ControlPoints, transposedControlPoints);
 	LN_NurbsSurface loftSurfaceU;
@@ -3016,8 +3023,6 @@ void LNLib::NurbsSurface::CreateGordonSurface(const std::vector<LN_NurbsCurve>&
 	loftSurfaceU.KnotVectorV = ts.KnotVectorU;
 	loftSurfaceU.ControlPoints = transposedControlPoints;
 
-	int degreeU = std::min(columns - 1, degree_u_max);
-	int degreeV = std::min(rows - 1, degree_v_max);
 	LN_NurbsSurface interpolatedSurface;
 	GlobalInterpolation(intersectionPoints, degreeU, degreeV, interpolatedSurface);
 
-- 
2.43.0


From 9e572a0243bcd798dbb75fa9f12b43b5082d6322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:00 +0000
Subject: [PATCH 74/79] fix: splitting next to a knot splits at the knot

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index b114ce8..1e296b2 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1565,6 +1565,16 @@ bool LNLib::NurbsCurve::SplitAt(const LN_NurbsCurve& curve, double parameter, LN
 		return false;
 	}
 
+	// A knot within the tolerance is the place to split, not a second knot next to it.
+	for (int i = 0; i < knotVector.size(); i++)
+	{
+		if (MathUtils::IsAlmostEqualTo(knotVector[i], parameter))
+		{
+			parameter = knotVector[i];
+			break;
+		}
+	}
+
 	int multi = Polynomials::GetKnotMultiplicity(knotVector, parameter);
 	std::vector<double> insert(degree + 1 - multi, parameter);
 	left = curve;
-- 
2.43.0


From 5dcb6fb2d9e615bf0403ef3d1f59f60dd1936194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:18 +0000
Subject: [PATCH 75/79] fix: corner cutting at the end of an unclamped domain

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 1e296b2..ebf66de 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -566,6 +566,12 @@ LNLib::XYZ LNLib::NurbsCurve::GetPointOnCurveByCornerCut(const LN_NurbsCurve& cu
 	int knotSpanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, paramT);
 	int originMultiplicity = Polynomials::GetKnotMultiplicity(knotVector, paramT);
 
+	if (MathUtils::IsGreaterThan(paramT, knotVector[knotSpanIndex]))
+	{
+		// At the end of an unclamped domain the knots lie behind the span.
+		originMultiplicity = 0;
+	}
+
 	int times = degree - originMultiplicity;
 	std::vector<XYZW> temp(times + 1);
 	for (int i = 0; i <= times; i++)
-- 
2.43.0


From b450956f0a76cc9a73ca666f2f1d2f2d1634ac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:58 +0000
Subject: [PATCH 76/79] fix: the C interface compiles with any standard library

---
 dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp | 1 +
 dotnet/CAPI/src/Matrix4d_CAPI.cpp        | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp b/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp
index f32a8c0..5910756 100644
--- a/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp
+++ b/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp
@@ -10,6 +10,7 @@
 
 #include "KnotVectorUtils_CAPI.h"
 #include "KnotVectorUtils.h"
+#include <cstring>
 #include <vector>
 #include <map>
 
diff --git a/dotnet/CAPI/src/Matrix4d_CAPI.cpp b/dotnet/CAPI/src/Matrix4d_CAPI.cpp
index da1c9cc..83845af 100644
--- a/dotnet/CAPI/src/Matrix4d_CAPI.cpp
+++ b/dotnet/CAPI/src/Matrix4d_CAPI.cpp
@@ -35,7 +35,7 @@ Matrix4d_C LNLIB_MATRIX_create()
 }
 Matrix4d_C LNLIB_MATRIX_create_from_xyz(XYZ_C basis_x, XYZ_C basis_y, XYZ_C basis_z, XYZ_C origin)
 {
-	return FromMatrix4d(LNLib::Matrix4d::Matrix4d(ToXYZ(basis_x), ToXYZ(basis_y), ToXYZ(basis_z), ToXYZ(origin)));
+	return FromMatrix4d(LNLib::Matrix4d(ToXYZ(basis_x), ToXYZ(basis_y), ToXYZ(basis_z), ToXYZ(origin)));
 }
 
 Matrix4d_C LNLIB_MATRIX_create_translation(XYZ_C vector)
-- 
2.43.0


From 2a24313c9213c682838fc6b73a716f2d5e9011c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:16 +0000
Subject: [PATCH 77/79] fix: the C interface returns the inverted power matrix

---
 dotnet/CAPI/src/Polynomials_CAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dotnet/CAPI/src/Polynomials_CAPI.cpp b/dotnet/CAPI/src/Polynomials_CAPI.cpp
index 3d26db0..3fe72f9 100644
--- a/dotnet/CAPI/src/Polynomials_CAPI.cpp
+++ b/dotnet/CAPI/src/Polynomials_CAPI.cpp
@@ -306,7 +306,7 @@ void LNLIB_POLY_power_to_bezier_matrix(
 
 	for (int i = 0; i < n; ++i) {
 		for (int j = 0; j < n; ++j) {
-			flat[i * n + j] = out_matrix[i][j];
+			flat[i * n + j] = result[i][j];
 		}
 	}
 
-- 
2.43.0


From 7ef061b0de9dd69c79cb095d2e1f386c5da4c01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:16 +0000
Subject: [PATCH 78/79] fix: curves and surfaces returned together by the C
 interface keep their own data

---
 dotnet/CAPI/include/NurbsCurve_CAPI.h | 18 +++++++++++++++---
 dotnet/CAPI/src/NurbsCurve_CAPI.cpp   |  4 ++--
 dotnet/CAPI/src/NurbsSurface_CAPI.cpp | 20 +++++++++++++++-----
 3 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/dotnet/CAPI/include/NurbsCurve_CAPI.h b/dotnet/CAPI/include/NurbsCurve_CAPI.h
index d7f97c4..5e7a8f8 100644
--- a/dotnet/CAPI/include/NurbsCurve_CAPI.h
+++ b/dotnet/CAPI/include/NurbsCurve_CAPI.h
@@ -15,6 +15,10 @@
  #include "Matrix4d_CAPI.h"
  #include "LNEnums_CAPI.h"
  #include "LNObject_CAPI.h"
+#ifdef __cplusplus
+#include <deque>
+#include <vector>
+#endif
 
 #ifdef __cplusplus
 extern "C" {
@@ -264,10 +268,18 @@ inline LNLib::LN_NurbsCurve FromCAPI(LN_NurbsCurve_C c) {
     return s;
 }
 
-inline LN_NurbsCurve_C ToCAPI(const LNLib::LN_NurbsCurve& s) {
-    static thread_local std::vector<double> g_knot_buffer;
+// A call that returns several curves gives each of them its own slot.
+inline LN_NurbsCurve_C ToCAPI(const LNLib::LN_NurbsCurve& s, size_t slot = 0) {
+    static thread_local std::deque<std::vector<double>> g_knot_buffers;
+    static thread_local std::deque<std::vector<XYZW_C>> g_cp_flat_buffers;
     static thread_local std::vector<LNLib::XYZW> g_cp_2d_buffer;
-    static thread_local std::vector<XYZW_C> g_cp_flat_buffer;
+
+    if (slot >= g_knot_buffers.size()) {
+        g_knot_buffers.resize(slot + 1);
+        g_cp_flat_buffers.resize(slot + 1);
+    }
+    std::vector<double>& g_knot_buffer = g_knot_buffers[slot];
+    std::vector<XYZW_C>& g_cp_flat_buffer = g_cp_flat_buffers[slot];
 
     g_knot_buffer = s.KnotVector;
     g_cp_2d_buffer = s.ControlPoints;
diff --git a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
index 883b6b2..5a592ad 100644
--- a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
@@ -301,7 +301,7 @@ int LNLIB_NURBSCUR_split_at(
 	bool ok = NurbsCurve::SplitAt(FromCAPI(curve), param_t, left, right);
 	if (ok) {
 		*out_left = ToCAPI(left);
-		*out_right = ToCAPI(right);
+		*out_right = ToCAPI(right, 1);
 	}
 	return ok ? 1 : 0;
 }
@@ -338,7 +338,7 @@ int LNLIB_NURBSCUR_decompose_to_beziers(
 	auto segments = NurbsCurve::DecomposeToBeziers(FromCAPI(curve));
 	int n = std::min(static_cast<int>(segments.size()), max_segments);
 	for (int i = 0; i < n; ++i) {
-		out_segments[i] = ToCAPI(segments[i]);
+		out_segments[i] = ToCAPI(segments[i], i);
 	}
 	return n;
 }
diff --git a/dotnet/CAPI/src/NurbsSurface_CAPI.cpp b/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
index 4805100..937cbfa 100644
--- a/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
@@ -12,15 +12,16 @@
 #include "NurbsSurface.h"
 #include "NurbsCurve_CAPI.h"
 #include "LNLibDefinitions.h"
+#include <deque>
 #include <vector>
 #include <thread>
 
 using namespace LNLib;
 
-static thread_local std::vector<double> g_knot_u_buffer;
-static thread_local std::vector<double> g_knot_v_buffer;
+static thread_local std::deque<std::vector<double>> g_knot_u_buffers;
+static thread_local std::deque<std::vector<double>> g_knot_v_buffers;
 static thread_local std::vector<std::vector<XYZW>> g_cp_2d_buffer;
-static thread_local std::vector<XYZW> g_cp_flat_buffer;
+static thread_local std::deque<std::vector<XYZW>> g_cp_flat_buffers;
 static thread_local std::vector<LN_NurbsSurface> g_surface_buffer;
 static thread_local std::vector<XYZ> g_xyz_buffer;
 static thread_local std::vector<UV> g_uv_buffer;
@@ -41,7 +42,16 @@ static LN_NurbsSurface FromCAPI(LN_NurbsSurface_C c) {
 	return s;
 }
 
-static LN_NurbsSurface_C ToCAPI(const LN_NurbsSurface& s) {
+// A call that returns several surfaces gives each of them its own slot.
+static LN_NurbsSurface_C ToCAPI(const LN_NurbsSurface& s, size_t slot = 0) {
+	if (slot >= g_knot_u_buffers.size()) {
+		g_knot_u_buffers.resize(slot + 1);
+		g_knot_v_buffers.resize(slot + 1);
+		g_cp_flat_buffers.resize(slot + 1);
+	}
+	std::vector<double>& g_knot_u_buffer = g_knot_u_buffers[slot];
+	std::vector<double>& g_knot_v_buffer = g_knot_v_buffers[slot];
+	std::vector<XYZW>& g_cp_flat_buffer = g_cp_flat_buffers[slot];
 	g_knot_u_buffer = s.KnotVectorU;
 	g_knot_v_buffer = s.KnotVectorV;
 	g_cp_2d_buffer = s.ControlPoints;
@@ -157,7 +167,7 @@ int LNLIB_NURBSSUR_decompose_to_beziers(LN_NurbsSurface_C surface, LN_NurbsSurfa
 	auto patches = NurbsSurface::DecomposeToBeziers(FromCAPI(surface));
 	int n = std::min(static_cast<int>(patches.size()), max_patches);
 	for (int i = 0; i < n; ++i) {
-		out_patches[i] = ToCAPI(patches[i]);
+		out_patches[i] = ToCAPI(patches[i], i);
 	}
 	return n;
 }
-- 
2.43.0


From 57a13d54953c79d8748e57a82320b3b0ab0e5562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:13 +0000
Subject: [PATCH 79/79] fix: the C interface serves the removal of knots within
 a bound

---
 dotnet/CAPI/src/NurbsCurve_CAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
index 5a592ad..a91c855 100644
--- a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
@@ -175,7 +175,7 @@ void LNLIB_NURBSCUR_remove_knots_by_given_bound(LN_NurbsCurve_C curve, const dou
 {
 	std::vector<double> ps(params_count);
 	for (int i = 0; i < params_count; ++i) ps[i] = params[i];
-	std::vector<double> errs;
+	std::vector<double> errs(params_count);
 	LN_NurbsCurve result;
 	NurbsCurve::RemoveKnotsByGivenBound(FromCAPI(curve), ps, errs, maxError, result);
 	for (size_t i = 0; i < errs.size(); ++i) {
-- 
2.43.0

