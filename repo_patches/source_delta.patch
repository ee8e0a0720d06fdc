From 0519792a7d309d28de07cf1f72851391bac5766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 01/28] fix: upper bound of an atom without data at its start
 time is TOP, not BOTTOM

---
 src/interval_transducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index e88ce64..76a3f7f 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -33,7 +33,7 @@ namespace STLRom {
 #endif
         compute_robustness();
         if (z.endTime < start_time) {
-            z_up.appendSample(start_time, BOTTOM); 
+            z_up.appendSample(start_time, TOP); 
         }
         else
             z_up = z;
-- 
2.43.0


From f7b4ed5203d07dde7f4f835b175b0dc6573d082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 02/28] fix: ev/alw bounds compare the known end with the start
 of the window, also for t0>0

---
 src/interval_transducer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 76a3f7f..31682e4 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -163,7 +163,7 @@ namespace STLRom {
         if (!get_param(I->end_str,b)) b = I->end;
 
         child->compute_lower_rob();
-        if (child->z_low.endTime < a) {
+        if (child->z_low.endTime < start_time + a) {
             z_low.appendSample(start_time, BOTTOM); 
             return BOTTOM;
         }
@@ -197,7 +197,7 @@ namespace STLRom {
 
         child->compute_upper_rob();
 
-        if (child->z_up.endTime < a) {
+        if (child->z_up.endTime < start_time + a) {
             z_up.appendSample(start_time, TOP); 
             return TOP;
         }
@@ -234,7 +234,7 @@ namespace STLRom {
 
         child->compute_lower_rob();
 
-        if (child->z_low.endTime < a) {
+        if (child->z_low.endTime < start_time + a) {
             z_low.appendSample(start_time,BOTTOM);        
             return BOTTOM;
         }
@@ -268,7 +268,7 @@ namespace STLRom {
         if (!get_param(I->end_str,b)) b = I->end;
 
         child->compute_upper_rob();
-        if (child->z_up.endTime < a) {
+        if (child->z_up.endTime < start_time + a) {
             z_up.appendSample(start_time, TOP); 
             return TOP;
         }
-- 
2.43.0


From 38837edcb523e4f0cfa34328617a506e4b71ba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 03/28] fix: ev must not trim its child's signal, which the
 interval bounds still need

---
 src/transducer.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/transducer.cpp b/src/transducer.cpp
index dae6f67..a51b3fd 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -174,7 +174,6 @@ namespace STLRom {
         
 
         double et = min(z.endTime,end_time);
-        (child->z).resize(et-b, (child->z).endTime, 0.);
 
         z.resize(start_time,max(start_time,et), 0.);
 
-- 
2.43.0


From 4eeb1c78b0f7e6cb0ef33c9b8115846dc79aad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 04/28] fix: Signal::resize keeps the slope when s lies after
 the last breakpoint

---
 src/signal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal.cpp b/src/signal.cpp
index 7be1ab0..e798f92 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -180,7 +180,7 @@ namespace STLRom {
             }
             if (empty()) {
                 //			cout << "push empty " << first << endl;
-                push_front(Sample(s, first.valueAt(s), 0));
+                push_front(Sample(s, first.valueAt(s), endTime > s ? first.derivative : 0.));
                 if (endTime < s)
                     endTime = s;
             }
-- 
2.43.0


From 751d1399861eb733b4dc2a8afa83202126d6e0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 05/28] fix: Signal::simplify goes through all samples once,
 even with several at beginTime

---
 src/signal.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/signal.cpp b/src/signal.cpp
index e798f92..b6e42f9 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -124,9 +124,11 @@ namespace STLRom {
         cout << "IN: " << *this << endl;
 #endif
 
+        // go through all samples once (several of them can be at beginTime)
+        size_t nb_samples = size();
         push_back(front());
         pop_front();
-        while (front().time != beginTime) {
+        for (size_t k = 1; k < nb_samples; k++) {
             if( back().valueAt(front().time) != front().value || back().derivative != front().derivative ) {
                 push_back(front());
             }
-- 
2.43.0


From f694ca2043b3dee1ef8b7452160b374bc425b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 06/28] fix: keep the value of and/or/ev/alw at the end of a
 signal that jumps there

---
 src/robustness.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 7ccd64d..aa282b6 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -15,6 +15,14 @@ using namespace std;
 
 namespace STLRom { 
 
+// value at time t, i.e., of the last sample not after t (signals are right-continuous)
+static double valueAtTime(const Signal &x, double t) {
+	auto i = x.rbegin();
+	while (i->time > t && i != x.rend()-1)
+		i++;
+	return i->valueAt(t);
+}
+
 void Signal::compute_boolean(const Signal &y) {
 	clear();
 	beginTime = y.beginTime;
@@ -130,6 +138,7 @@ void Signal::compute_and(const Signal &x, const Signal &y) {
 
 	computePartialAnd(this, i, j, this->beginTime, this->endTime);
 	simplify();
+	back().value = fmin(valueAtTime(x, endTime), valueAtTime(y, endTime)); // may jump at endTime
 
 }
 
@@ -149,6 +158,7 @@ void Signal::compute_or(const Signal &x, const Signal &y) {
 
 	computePartialOr(this, i, j, beginTime, endTime);
 	simplify();
+	back().value = fmax(valueAtTime(x, endTime), valueAtTime(y, endTime)); // may jump at endTime
 
 }
 
@@ -686,6 +696,7 @@ Signal * computeAnd(Signal * x, Signal * y) {
 
 	computePartialAnd(z, i, j, z->beginTime, z->endTime);
 	z->simplify();
+	z->back().value = fmin(valueAtTime(*x, z->endTime), valueAtTime(*y, z->endTime)); // may jump at endTime
 
 	return z;
 }
@@ -727,6 +738,7 @@ Signal * computeOr(Signal * x, Signal * y) {
 
 	computePartialOr(z, i, j, z->beginTime, z->endTime);
 	z->simplify();
+	z->back().value = fmax(valueAtTime(*x, z->endTime), valueAtTime(*y, z->endTime)); // may jump at endTime
 
 #ifdef DEBUG__
 	cout << "<  computeOr:                                 OUT." << endl;
@@ -861,6 +873,7 @@ Signal * computeBoundedEventually(Signal * x, double a) {
 
 	delete z3;
 	z->simplify();
+	z->back().value = valueAtTime(*x, z->endTime); // x may jump at endTime
 
 #ifdef DEBUG__
 	cout << "OUT: " << *z << endl;
@@ -895,6 +908,7 @@ Signal * computeBoundedGlobally(Signal * x, double a) {
 	z = computeAnd(x, z3);
 	delete z3;
 	z->simplify();
+	z->back().value = valueAtTime(*x, z->endTime); // x may jump at endTime
 
 	return z;
 }
-- 
2.43.0


From c3736bfb0e79f4168c150817ab89d705a605063c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 07/28] fix: rounding must not put crossing times outside their
 segment or overrun a window

---
 src/robustness.cpp | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index aa282b6..aae5a49 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -23,6 +23,23 @@ static double valueAtTime(const Signal &x, double t) {
 	return i->valueAt(t);
 }
 
+// t0 or its closest bound when rounding errors put it out of [s, t] 
+static double clampTime(double t0, double s, double t) {
+	if (!(t0 > s))
+		return s;
+	return (t0 < t) ? t0 : t;
+}
+
+// time in [s, t] at which x and y cross
+static double crossTime(const Sample &x, const Sample &y, double s, double t) {
+	return clampTime(x.timeIntersect(y), s, t);
+}
+
+// time in [s, t] at which x reaches v
+static double reachTime(const Sample &x, double v, double s, double t) {
+	return clampTime(x.time + (v - x.value) / x.derivative, s, t);
+}
+
 void Signal::compute_boolean(const Signal &y) {
 	clear();
 	beginTime = y.beginTime;
@@ -954,7 +971,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 	while (s > i.time) {
 		if (i.valueAt(t) < j->valueAt(t)) {
 			if (i.valueAt(s) > j->value) {
-				t = i.timeIntersect(*j);
+				t = crossTime(i, *j, s, t);
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				z->push_front(Sample(s, j->value, j->derivative));
 				continued = false;
@@ -974,7 +991,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 				if (continued) {
 					z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				}
-				t = i.timeIntersect(*j);
+				t = crossTime(i, *j, s, t);
 				z->push_front(Sample(t, j->valueAt(t), j->derivative));
 				continued = true;
 			} else {
@@ -997,7 +1014,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 	s = i.time;
 	if (i.valueAt(t) < j->valueAt(t)) {
 		if (i.value > j->valueAt(s)) {
-			t = i.timeIntersect(*j);
+			t = crossTime(i, *j, s, t);
 			z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			z->push_front(Sample(s, j->valueAt(s), j->derivative));
 		} else {
@@ -1017,7 +1034,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 			if (continued) {
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			}
-			t = i.timeIntersect(*j);
+			t = crossTime(i, *j, s, t);
 			z->push_front(Sample(t, j->valueAt(t), j->derivative));
 			z->push_front(i);
 		} else {
@@ -1065,7 +1082,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 	while (s > i.time) {
 		if (i.valueAt(t) > j->valueAt(t)) {
 			if (i.valueAt(s) < j->value) {
-				t = i.timeIntersect(*j);
+				t = crossTime(i, *j, s, t);
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				z->push_front(Sample(s, j->value, j->derivative));
 				continued = false;
@@ -1085,7 +1102,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 				if (continued) {
 					z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				}
-				t = i.timeIntersect(*j);
+				t = crossTime(i, *j, s, t);
 				z->push_front(Sample(t, j->valueAt(t), j->derivative));
 				continued = true;
 			} else {
@@ -1108,7 +1125,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 	s = i.time;
 	if (i.valueAt(t) > j->valueAt(t)) {
 		if (i.value < j->valueAt(s)) {
-			t = i.timeIntersect(*j);
+			t = crossTime(i, *j, s, t);
 			z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			z->push_front(Sample(s, j->valueAt(s), j->derivative));
 		} else {
@@ -1128,7 +1145,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 			if (continued) {
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			}
-			t = i.timeIntersect(*j);
+			t = crossTime(i, *j, s, t);
 			z->push_front(Sample(t, j->valueAt(t), j->derivative));
 			z->push_front(i);
 		} else {
@@ -1201,7 +1218,7 @@ void computePartialEventually(Signal* z, Signal::const_reverse_iterator & i, dou
 			//z->push_front(Sample(i->time, z_max, 0));
 		} else {
 			z->push_front(
-					Sample(i->time + (z_max - i->value) / i->derivative, z_max,
+					Sample(reachTime(*i, z_max, i->time, t), z_max,
 							0)); //time at which y reaches value next_z
 			z->push_front(*i);
 			z_max = i->value;
@@ -1230,7 +1247,7 @@ void computePartialEventually(Signal* z, Signal::const_reverse_iterator & i, dou
 	} else if (z_max >= i->valueAt(s)) {
 		z->push_front(Sample(s, z_max, 0));
 	} else {
-		z->push_front(Sample(s + (z_max - i->value) / i->derivative, z_max, 0)); //time at which y reaches value next_z
+		z->push_front(Sample(reachTime(*i, z_max, s, t), z_max, 0)); //time at which y reaches value next_z
 		z->push_front(Sample(s, i->valueAt(s), i->derivative));
 	}
 
@@ -1319,7 +1336,7 @@ Signal * plateauMax(Signal * x, double a) {
 	//INIT: read values in [0, a)
 	i = y.begin();
 
-	while (i->time < x->beginTime + a) {
+	while (i != y.end() && i->time < x->beginTime + a) {
 		while (!M.empty() && i->value >= M.back().value) {
 			M.pop_back();
 		}
@@ -1333,7 +1350,7 @@ Signal * plateauMax(Signal * x, double a) {
 	cout << "M:" << M << endl;
 	#endif
 	
-	if (i->time == x->beginTime + a)
+	if (i != y.end() && i->time == x->beginTime + a)
 		new_candidate = true;
 	else
 		new_candidate = false;
@@ -1491,14 +1508,14 @@ Signal * plateauMin(Signal * x, double a) {
 
 	//INIT: read values in [0, a)
 	i = y.begin();
-	while (i->time < x->beginTime + a) {
+	while (i != y.end() && i->time < x->beginTime + a) {
 		while (!M.empty() && i->value <= M.back().value) {
 			M.pop_back();
 		}
 		M.push_back(*i);
 		i++;
 	}
-	if (i->time == x->beginTime + a)
+	if (i != y.end() && i->time == x->beginTime + a)
 		new_candidate = true;
 	else
 		new_candidate = false;
-- 
2.43.0


From 6df5593096dfcac53bb6f934682bf1d164ea29c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 08/28] fix: until away from time 0, at jumps, and with bounds
 on partial data

---
 src/interval_transducer.cpp | 35 +++++++++++++++++++++--------------
 src/robustness.cpp          | 25 ++++++++++++++-----------
 src/transducer.cpp          |  3 ++-
 3 files changed, 37 insertions(+), 26 deletions(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 31682e4..69afabf 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -297,18 +297,20 @@ namespace STLRom {
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
         
-        if (childL->compute_lower_rob()==BOTTOM) return BOTTOM;
-        if (childR->compute_lower_rob()==BOTTOM) return BOTTOM;
+        childL->compute_lower_rob();
+        childR->compute_lower_rob();
+        if (min(childL->z_low.endTime, childR->z_low.endTime) < start_time + a) {
+            z_low.appendSample(start_time, BOTTOM);
+            return BOTTOM;
+        }
 
         z_low.compute_timed_until(childL->z_low,childR->z_low, a, b);
         double et =min(z_low.endTime,end_time);
         z_low.resize(start_time,max(start_time,et),0.);
-        
-        
+
         if (z_low.empty())
-            return BOTTOM;
-        else
-            return z_low.front().value;
+            z_low.appendSample(start_time, BOTTOM);
+        return z_low.front().value;
 
     }
 
@@ -318,17 +320,22 @@ namespace STLRom {
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
 
-        if (childL->compute_upper_rob()==TOP) return TOP;
-        if (childR->compute_upper_rob()==TOP) return TOP;
+        childL->compute_upper_rob();
+        childR->compute_upper_rob();
+
+        // Only keep values computed with complete data
+        double et = min(min(childL->z_up.endTime, childR->z_up.endTime)-b, end_time);
+        if (et < start_time - 1e-14) {
+            z_up.appendSample(start_time, TOP);
+            return TOP;
+        }
 
         z_up.compute_timed_until(childL->z_up,childR->z_up, a, b);
-        double et =min(z_up.endTime-b,end_time);
-        z_up.resize(start_time,max(start_time,et),0.);
+        z_up.resize(start_time,et,0.);
 
         if (z_up.empty())
-            return TOP;
-        else
-            return z_up.front().value;
+            z_up.appendSample(start_time, TOP);
+        return z_up.front().value;
     }
 
 }
diff --git a/src/robustness.cpp b/src/robustness.cpp
index aae5a49..a057869 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -411,12 +411,12 @@ void Signal::compute_timed_until(const Signal& x , const Signal& y, double a, do
 	}
 
 
-	if(b > std::min(y1.endTime, y2.endTime))
+	if(b > std::min(y1.endTime, y2.endTime) - y1.beginTime)
 	{
 		if (a==0)
 			yunt = computeUntil(&y1,&y2);
 		else
-			if (a > y1.endTime) {
+			if (a > y1.endTime - y1.beginTime) {
 				yunt = computeGlobally(&y1);
 			}
 			else
@@ -706,9 +706,9 @@ Signal * computeAnd(Signal * x, Signal * y) {
 	z->beginTime = fmax(x->beginTime, y->beginTime);
 	z->endTime = fmin(x->endTime, y->endTime);
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != y->rend()-1)
 		j++;
 
 	computePartialAnd(z, i, j, z->beginTime, z->endTime);
@@ -742,9 +742,9 @@ Signal * computeOr(Signal * x, Signal * y) {
 #endif
 
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != y->rend()-1)
 		j++;
 
 
@@ -835,13 +835,14 @@ Signal * computeUntil(Signal * x, Signal * y) {
 	z->beginTime = fmax(x->beginTime, y->beginTime);
 	z->endTime = fmin(x->endTime, y->endTime);
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != y->rend()-1)
 		j++;
 
 	s = z->beginTime;
 	t = z->endTime;
+	z_max = fmin(valueAtTime(*x, t), valueAtTime(*y, t)); // may jump at endTime
 
 	while (i->time > s) {
 
@@ -861,6 +862,7 @@ Signal * computeUntil(Signal * x, Signal * y) {
 				z_max);
 
 	z->simplify();
+	z->back().value = fmin(valueAtTime(*x, z->endTime), valueAtTime(*y, z->endTime)); // may jump at endTime
 
 #ifdef DEBUG__
 	cout << "<  computeUntil:                              OUT." << endl;
@@ -934,9 +936,10 @@ Signal * computeBoundedGlobally(Signal * x, double a) {
 Signal * computeTimedUntil(Signal * x, Signal * y, double a, double b) {
 	Signal *z, *z2, *z3, *z4;
 
-	z = new Signal();
-
-	z2 = computeBoundedEventually(y, b - a);
+	if (b - a > 0)
+		z2 = computeBoundedEventually(y, b - a);
+	else
+		z2 = new Signal(*y);
 
 	z3 = computeUntil(x, y);
 	z4 = computeAnd(z2, z3);
diff --git a/src/transducer.cpp b/src/transducer.cpp
index a51b3fd..1caf164 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -280,7 +280,8 @@ namespace STLRom {
         childR->compute_robustness();
 
         z.compute_timed_until(childL->z, childR->z, a, b);
-        z.resize(0.,z.endTime,0.);
+        double et = min(z.endTime,end_time);
+        z.resize(start_time,max(start_time,et),0.);
         return z.front().value;
     }
 
-- 
2.43.0


From b5522494b11baef487ed4347ef1a624cc071e86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 09/28] fix: right time robustness looks for the end of the
 Boolean signal it iterates

---
 src/robustness.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index a057869..e91bb60 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -115,7 +115,7 @@ void Signal::compute_right_time_rob(const Signal &y) {
 		double next_time;
 		auto next_i = std::next(i);
 		
-		if (next_i == y.end())
+		if (next_i == y_bool.end())
 			next_time = endTime;
 		else 
 			next_time = next_i->time;
-- 
2.43.0


From 50ca90e7fc9e1f927d06af4be7658e70ba952636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 10/28] fix: Boolean signal of a single sample, of a jump at
 the end and of a rise from 0

---
 src/robustness.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index e91bb60..177a9c1 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -63,6 +63,9 @@ void Signal::compute_boolean(const Signal &y) {
 					push_back(Sample(t_zero_cross, 0. , 0.));
 			}		
 		}
+		else if ((v==0.)&&(d>0.)&&(i->time < next_time)) {
+			push_back(Sample(i->time, 1. , 0.));  // becomes positive right away
+		}
 		else {
 			push_back(Sample(i->time, 0. , 0.));
 			if ((v<0.)&&(d>0.)) {
@@ -73,7 +76,8 @@ void Signal::compute_boolean(const Signal &y) {
 		}
 	}
 	simplify();
-	if (!empty() && back().time == endTime) {
+	// last sample is redundant, unless it is the only one or the signal jumps there
+	if (size() > 1 && back().time == endTime && back().value == std::prev(end(), 2)->value) {
 		pop_back();
 	}
 }
-- 
2.43.0


From b1878d3448fec39206f41c47e74af820488b82ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 11/28] fix: a sample replaced at the same time holds nowhere,
 simplify must drop it

---
 src/signal.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/signal.cpp b/src/signal.cpp
index b6e42f9..51a3fb2 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -129,7 +129,10 @@ namespace STLRom {
         push_back(front());
         pop_front();
         for (size_t k = 1; k < nb_samples; k++) {
-            if( back().valueAt(front().time) != front().value || back().derivative != front().derivative ) {
+            if( back().time == front().time ) {
+                back() = front(); // previous sample holds nowhere
+            }
+            else if( back().valueAt(front().time) != front().value || back().derivative != front().derivative ) {
                 push_back(front());
             }
             pop_front();
-- 
2.43.0


From 97a45e925f9535a06fbb5b6c18948f7ead920664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 12/28] fix: arithmetic expressions keep the end of their
 operands' signals

---
 src/signal_expr.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/signal_expr.cpp b/src/signal_expr.cpp
index 1089e80..2bfaa83 100644
--- a/src/signal_expr.cpp
+++ b/src/signal_expr.cpp
@@ -9,11 +9,20 @@
 #include <exception>
 #include "signal_expr.h"
 #include <cmath>
+#include <algorithm>
 
 using namespace std;
 
 namespace STLRom {
 
+// children signals may be known after their last sample, until endTime where z has to reach value v
+static void extendLastSample(Signal &z, double endTime, double v) {
+	if (endTime > z.endTime) {
+		z.back().derivative = (v - z.back().value) / (endTime - z.back().time);
+		z.endTime = endTime;
+	}
+}
+
 /* Unary operators on signals */
 
 double abs_transducer::compute_robustness() {
@@ -29,6 +38,8 @@ double abs_transducer::compute_robustness() {
 		double v = (*iter).value;
 		z.appendSample(t, fabs(v));
 	}
+	double et = child->z.endTime;
+	extendLastSample(z, et, fabs(child->z.back().valueAt(et)));
 	return z.front().value;
 }
 
@@ -51,6 +62,8 @@ double plus_transducer::compute_robustness() {
 		double vR = (*iterR).value;
 		z.appendSample(t, vL+vR);
 	}
+	double et = std::min(childL->z.endTime, childR->z.endTime);
+	extendLastSample(z, et, childL->z.back().valueAt(et) + childR->z.back().valueAt(et));
 	return z.front().value;
 }
 
@@ -69,6 +82,8 @@ double minus_transducer::compute_robustness() {
 		double vR = (*iterR).value;
 		z.appendSample(t, vL-vR);
 	}
+	double et = std::min(childL->z.endTime, childR->z.endTime);
+	extendLastSample(z, et, childL->z.back().valueAt(et) - childR->z.back().valueAt(et));
 	return z.front().value;
 }
 
@@ -87,6 +102,8 @@ double mult_transducer::compute_robustness() {
 		double vR = (*iterR).value;
 		z.appendSample(t, vL*vR);
 	}
+	double et = std::min(childL->z.endTime, childR->z.endTime);
+	extendLastSample(z, et, childL->z.back().valueAt(et) * childR->z.back().valueAt(et));
 	return z.front().value;
 }
 
-- 
2.43.0


From b07c74ccd7f3eeaa6458a2dce22459afdc2cbca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 13/28] fix: stl_test owns its formula, copying or clearing a
 driver must not free it twice

---
 include/stl_driver.h | 20 ++++++++++++++++++++
 src/stl_driver.cpp   | 17 +----------------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/include/stl_driver.h b/include/stl_driver.h
index 34df455..def1505 100644
--- a/include/stl_driver.h
+++ b/include/stl_driver.h
@@ -38,6 +38,26 @@ namespace STLRom
                                                             is_error(_is_err) {
                                                             };
 
+        // a test owns its formula
+        stl_test(const stl_test &other) : test_id(other.test_id),
+                                          param_map(other.param_map),
+                                          formula(other.formula ? other.formula->clone() : nullptr),
+                                          report_positive(other.report_positive),
+                                          report_negative(other.report_negative),
+                                          is_error(other.is_error) {
+                                          };
+
+        stl_test &operator=(stl_test other)
+        {
+            std::swap(test_id, other.test_id);
+            std::swap(param_map, other.param_map);
+            std::swap(formula, other.formula);
+            std::swap(report_positive, other.report_positive);
+            std::swap(report_negative, other.report_negative);
+            std::swap(is_error, other.is_error);
+            return *this;
+        }
+
         ~stl_test()
         {
             delete formula;
diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index d5bd812..f1e7ef5 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -219,17 +219,7 @@ namespace STLRom
 		param_map.clear();
 		stl_test_map.clear();
 
-		while (!trace_test_queue.empty())
-		{
-			transducer *formula = get_next_formula();
-			while (formula != nullptr)
-			{
-				delete formula;
-				trace_test_queue.front().tests.pop_front();
-				formula = get_next_formula();
-			}
-			trace_test_queue.pop_front();
-		}
+		trace_test_queue.clear();
 		report.clear();
 		test_log.clear();
 		error_flag = false;
@@ -402,7 +392,6 @@ namespace STLRom
 			if ((elem = stl_test_map.find(test_id)) != stl_test_map.end())
 			{
 				trace_test_queue.back().tests.push_back(elem->second);
-				trace_test_queue.back().tests.back().formula = (elem->second).formula->clone();
 				trace_test_queue.back().tests.back().param_map.clear();
 			}
 		}
@@ -428,7 +417,6 @@ namespace STLRom
 				//				cout << endl;
 
 				trace_test_queue.back().tests.push_back(elem->second);
-				trace_test_queue.back().tests.back().formula = (elem->second).formula->clone();
 				trace_test_queue.back().tests.back().param_map = local_param_map;
 			}
 		}
@@ -451,10 +439,7 @@ namespace STLRom
 			//			cout << endl;
 
 			stl_test_map[test_id] = stl_test(test_id, local_param_map, formula->clone(), report_pos, report_neg, is_err);
-			stl_test_map[test_id].param_map = local_param_map;
-			stl_test_map[test_id].formula = formula->clone();
 			trace_test_queue.back().tests.push_back(stl_test_map[test_id]);
-			trace_test_queue.back().tests.back().formula = formula->clone();
 		}
 	}
 
-- 
2.43.0


From 4c7ade7a6e850920bed0875cc80174d4200e3557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 14/28] fix: run_tests and dump evaluate on the data,
 parameters and semantics of the driver

---
 src/stl_driver.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index f1e7ef5..2222afd 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -278,12 +278,14 @@ namespace STLRom
 	void STLDriver::dump()
 	{
 
-		// transducer::param_map = param_map; FIXME
-
+		Signal::semantics = semantics;
+		Signal::interpol = interpol;
 		for (auto formula = formula_map.begin(); formula != formula_map.end(); formula++)
 		{
-			formula->second->trace_data_ptr = &data;
-			formula->second->init_horizon();
+			formula->second->set_trace_data_ptr(data);
+			formula->second->set_param_map_ptr(param_map);
+			formula->second->reset();
+			formula->second->set_horizon(0., 0.);
 			formula->second->compute_robustness();
 			(formula->second->z).dumpFile(formula->first + ".out");
 		}
@@ -295,6 +297,8 @@ namespace STLRom
 
 		error_flag = false;
 		string indent("    ");
+		Signal::semantics = semantics;
+		Signal::interpol = interpol;
 		if (!trace_test_queue.empty())
 		{
 
@@ -303,19 +307,17 @@ namespace STLRom
 
 			report.append("stl_test " + trace_test_queue.front().id + "\n");
 
-			// Initialize global parameters
-			// transducer->param_map =  param_map; FIXME
-
 			while (formula != nullptr)
 			{
 
-				// initialize local parameters FIXME
-				// for (auto elem = curr_test->param_map.begin(); elem != curr_test->param_map.end(); elem++){
-				//	transducer->param_map[elem->first] = elem->second;
-				//}
+				// local parameters of the test, then global parameters
+				map<string, double> test_params = curr_test->param_map;
+				test_params.insert(param_map.begin(), param_map.end());
 
-				formula->trace_data_ptr = &data;
-				formula->init_horizon();
+				formula->set_trace_data_ptr(data);
+				formula->set_param_map_ptr(test_params);
+				formula->reset();
+				formula->set_horizon(0., 0.);
 				double rob = formula->compute_robustness();
 
 				test_log.append(curr_test->test_id + ": " + d_to_s(rob) + "\n");
@@ -342,9 +344,9 @@ namespace STLRom
 				formula = get_next_formula();
 				curr_test = get_next_stl_test();
 			}
+			trace_test_queue.pop_front();
 		}
 		report += "\n";
-		trace_test_queue.pop_front();
 		return error_flag;
 	}
 
-- 
2.43.0


From 9d930d48c854d2d7ad40b7c8fe25dc53a8a92fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 15/28] fix: read_trace reads the last line and no value after
 a trailing space

---
 src/tools.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index c14223e..0d6da22 100755
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -115,15 +115,15 @@ bool read_trace(const string &trace_file_name, vector< vector<double> > &data)
 	}
 
 	string line;
-	while (!std::getline(file, line, '\n').eof()) {
+	while (std::getline(file, line, '\n')) {
 		istringstream reader(line);
 		vector<double> lineData;
-		while (!reader.eof()) {
-			double val;
-			reader >> val;
+		double val;
+		while (reader >> val) {
 			lineData.push_back(val);
 		}
-		data.push_back(lineData);
+		if (!lineData.empty())
+			data.push_back(lineData);
 	}
 	file.close();
 	return true;
-- 
2.43.0


From 9fe1ae8da04126a0a7b05dea7b5f3887611e5f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 16/28] fix: names of no signal are the empty string

---
 src/tools.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools.cpp b/src/tools.cpp
index 0d6da22..738dbda 100755
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -42,6 +42,8 @@ trace_data rand_trace_data( int m, int n) {
 
 string signal_map_to_string(map<string, int> signal_map)
 	{
+		if (signal_map.empty())
+			return "";
 	// get number of signals
 		int n_signals = signal_map.size();
 		// cout << "n_signals:" << n_signals << endl;
-- 
2.43.0


From 8f8982abbf0974370d8b246dd2abb2851b3d2343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:33 +0000
Subject: [PATCH 17/28] fix: compute_eventually keeps no samples of the
 target's old value

---
 src/robustness.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 177a9c1..7d6c37a 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -194,6 +194,7 @@ void Signal::compute_implies(const Signal &x, const Signal &y) {
 
 void Signal::compute_eventually(const Signal &x) {
 
+	clear();
 	beginTime = x.beginTime;
 	endTime = x.endTime;
 	Signal::const_reverse_iterator i = x.rbegin();
-- 
2.43.0


From e8b0c8ecba797b517772eb15b9e1ba08cb269b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:33 +0000
Subject: [PATCH 18/28] fix: compute_until of signals that end at different
 times read samples out of bounds

---
 src/robustness.cpp | 39 +++++----------------------------------
 1 file changed, 5 insertions(+), 34 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 7d6c37a..c6b4fc0 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -227,41 +227,12 @@ void Signal::compute_until(const Signal &x, const Signal &y) {
 		return;
 	}
 
-	double s, t;
-	double z_max = BOTTOM;
-
-	Signal::const_reverse_iterator i = x.rbegin();
-	Signal::const_reverse_iterator j = y.rbegin();
-
-	beginTime = fmax(x.beginTime, y.beginTime);
-	endTime = fmin(x.endTime, y.endTime);
-
-	while (i->time >= endTime)
-		i++;
-	while (j->time >= endTime)
-		j++;
-
-	s = beginTime;
-	t = endTime;
-
-	while (i->time > s) {
-
-		computeSegmentUntil(this, *i, t, j, z_max);
-		z_max = front().value;
-
-		if (j->time == i->time)
-			j++;
-		t = i->time;
-		i++;
-	}
-
-	if (i->time == s)
-		computeSegmentUntil(this, *i, t, j, z_max);
-	else
-		computeSegmentUntil(this, Sample(s, i->valueAt(s), i->derivative), t, j,
-				z_max);
+	Signal y1 = x;
+	Signal y2 = y;
+	Signal *yunt = computeUntil(&y1, &y2);
 
-	simplify();
+	*this = *yunt;
+	delete yunt;
 
 #ifdef DEBUG__
 	cout << "<<<Signal::compute_until                      OUT" << endl;
-- 
2.43.0


From 649d9e47f0a06862e114e0f09af92e57654e2e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:33 +0000
Subject: [PATCH 19/28] fix: bounded eventually/globally dropped the part of
 the window at the end of the signal

---
 src/robustness.cpp | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index c6b4fc0..08d2c7b 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -251,15 +251,7 @@ void Signal::compute_bounded_eventually(const Signal& x, double a) {
 		return;
 	}
 
-	Signal z1, z2, z3;
-
-	z1.compute_plateau_max(x, a);
-	z2.resize(x.beginTime + a, x.endTime + a, BOTTOM);
-	z2.shift(-a);
-	z3.compute_or(z2, z1);
-
-	compute_or(x, z3);
-	simplify();
+	compute_timed_eventually(x, 0., a);
 
   #ifdef DEBUG__
 	cout << "<  Signal::compute_bounded_eventually         OUT." << endl;
@@ -319,15 +311,7 @@ void Signal::compute_bounded_globally(const Signal& x, double a) {
 		return;
 	}
 
-	Signal z1, z2, z3;
-
-	z1.compute_plateau_min(x, a);
-	z2.resize(x.beginTime + a, x.endTime + a, TOP);
-	z2.shift(-a);
-	z3.compute_and(z2, z1);
-
-	compute_and(x, z3);
-	simplify();
+	compute_timed_globally(x, 0., a);
 
 }
 
-- 
2.43.0


From 6026f3d0061cdbc3a7ca051d322d32b6103fb490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 20/28] fix: the signal of a monitor without a formula is empty
 instead of a null access

---
 include/stl_monitor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stl_monitor.h b/include/stl_monitor.h
index 9cd3de0..da96375 100644
--- a/include/stl_monitor.h
+++ b/include/stl_monitor.h
@@ -247,7 +247,7 @@ namespace STLRom
 
         inline Signal get_signal() const
         {
-            return formula->get_signal();
+            return formula ? formula->get_signal() : Signal();
         }
 
         // display stuff
-- 
2.43.0


From a0bb36dcb5ce41e8a69c53b450719d2d280a7c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 21/28] fix: Python drivers and monitors of subclasses were
 deleted twice

---
 src/pybind11/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybind11/main.cpp b/src/pybind11/main.cpp
index e369234..4c06426 100644
--- a/src/pybind11/main.cpp
+++ b/src/pybind11/main.cpp
@@ -137,7 +137,7 @@ PYBIND11_MODULE(stlrom, m) {
 		.def("copy", [](const STLRom::STLMonitor &self) { return STLRom::STLMonitor(self); })
 		.def("__copy__", [](const STLRom::STLMonitor &self) { return STLRom::STLMonitor(self); })
 		.def("__deepcopy__", [](const STLRom::STLMonitor &self, py::dict) { return STLRom::STLMonitor(self); })
-		.def("__del__", [](STLRom::STLMonitor *instance) { delete instance; }) // Bind the destructor
+		.def("__del__", [](STLRom::STLMonitor &self) {})
 
 		.def_readwrite("rob",&STLRom::STLMonitor::rob)
 		.def_readwrite("lower_rob",&STLRom::STLMonitor::lower_rob)
@@ -174,5 +174,5 @@ PYBIND11_MODULE(stlrom, m) {
 		.def("copy", [](const STLRom::STLDriver &self) { return STLRom::STLDriver(self); })
 		.def("__copy__", [](const STLRom::STLDriver &self) { return STLRom::STLDriver(self); })
 		.def("__deepcopy__", [](const STLRom::STLDriver &self, py::dict) { return STLRom::STLDriver(self); })
-		.def("__del__", [](STLRom::STLDriver *instance) {delete instance; }); // Bind the destructor
+		.def("__del__", [](STLRom::STLDriver &self) {});
 }
-- 
2.43.0


From 2f7e6848ecc55cea4944082d6d6840a3b15da1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:27 +0000
Subject: [PATCH 22/28] fix: a sample older than the declaration of a signal
 was read past its end

---
 src/stl_atom.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index 49ce337..13949ca 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -80,8 +80,8 @@ namespace STLRom {
             
         if (i) {
             while ( (td_idx <= trace_data_ptr->size()-1)  && t<=end_time)   {
-                t = (trace_data_ptr->at(td_idx))[0];
-                v = (trace_data_ptr->at(td_idx))[i];
+                t = trace_data_ptr->at(td_idx).at(0);
+                v = trace_data_ptr->at(td_idx).at(i); // throws if the sample is older than the signal
                 // cout << "t: " << t << " v: " << v << endl;
                 z.appendSample(t, v);
                 td_idx++;
@@ -120,7 +120,7 @@ namespace STLRom {
         double t=0.;  
             
         while ((td_idx <= trace_data_ptr->size()-1) && t<=end_time)   {
-            t = (trace_data_ptr->at(td_idx))[0];
+            t = trace_data_ptr->at(td_idx).at(0);
             z.appendSample(t, value);
             td_idx++;
         }
-- 
2.43.0


From 86f5d7ad1e37cbe04372247bc9f8409ceb75a29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:10 +0000
Subject: [PATCH 23/28] fix: read samples at negative times when evaluating at
 a negative time

---
 src/stl_atom.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index 13949ca..47e0bc1 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -5,6 +5,7 @@
 #include <sstream>
 #include <string>
 #include <map>
+#include <cmath>
 #include "tools.h"
 #include <exception>
 #include "signal_expr.h"
@@ -75,7 +76,7 @@ namespace STLRom {
         cout<< "start_time:" << start_time << " end_time:" << end_time << endl;
 #endif
         short i = signal_map[variable];
-        double t=0., v=0.;  
+        double t=-HUGE_VAL, v=0.;  // samples and evaluation times can be negative
         double res= 0.;
             
         if (i) {
@@ -117,7 +118,7 @@ namespace STLRom {
                 cout << "Parameter " << param << " not found (?)." << endl;                
         }
 
-        double t=0.;  
+        double t=-HUGE_VAL;  
             
         while ((td_idx <= trace_data_ptr->size()-1) && t<=end_time)   {
             t = trace_data_ptr->at(td_idx).at(0);
-- 
2.43.0


From 20d3084a7b8e9d9a0b8455b9d6ce33602d9789eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:39 +0000
Subject: [PATCH 24/28] fix: on partial data an implication is estimated like
 the disjunction it stands for

---
 src/transducer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transducer.cpp b/src/transducer.cpp
index 1caf164..c337ab9 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -263,6 +263,8 @@ namespace STLRom {
         Signal z1= childL->z;
         Signal z2= childR->z;
         double et = max(z1.endTime, z2.endTime);
+        z1.endTime = et;
+        z2.endTime = et;
 
         z.compute_implies(z1,z2);
 
-- 
2.43.0


From 7f429e79ed02ff656990a214bd08d305a7340bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:39 +0000
Subject: [PATCH 25/28] fix: rounding made until with a point interval ignore
 its right operand

---
 src/robustness.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 08d2c7b..7c1f59f 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -371,12 +371,12 @@ void Signal::compute_timed_until(const Signal& x , const Signal& y, double a, do
 	}
 
 
-	if(b > std::min(y1.endTime, y2.endTime) - y1.beginTime)
+	if(y1.beginTime + b > std::min(y1.endTime, y2.endTime))
 	{
 		if (a==0)
 			yunt = computeUntil(&y1,&y2);
 		else
-			if (a > y1.endTime - y1.beginTime) {
+			if (y1.beginTime + a > y1.endTime) {
 				yunt = computeGlobally(&y1);
 			}
 			else
@@ -910,6 +910,8 @@ Signal * computeTimedUntil(Signal * x, Signal * y, double a, double b) {
 	if (a > 0) {
 		Signal * z1 = computeBoundedGlobally(x, a);
 		z4->shift(-a);
+		if (z4->endTime < x->beginTime) // rounding error when y is a single point
+			z4->shift(x->beginTime - z4->endTime);
 		z = computeAnd(z1, z4);
 		delete z1;
 	} else
-- 
2.43.0


From c14a549381d624ea5c36f08194c56abfb9e0da92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:39 +0000
Subject: [PATCH 26/28] fix: rounding of interval bounds loses nothing of what
 is known

---
 include/transducer.h        | 12 ++++++++++++
 src/interval_transducer.cpp | 26 +++++++++++++-------------
 src/transducer.cpp          | 12 ++++++------
 3 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/include/transducer.h b/include/transducer.h
index 4f64f84..d842a75 100644
--- a/include/transducer.h
+++ b/include/transducer.h
@@ -54,6 +54,18 @@ namespace STLRom {
             init_horizon();
         }
 
+        // end of what is known in [start_time, end_time] from a signal known until t, looked at
+        // with delay d. Compares in the way init_horizon computes, so that rounding loses nothing.
+        inline double known_end(double t, double d) const {
+            return (t >= end_time + d) ? end_time : std::min(t - d, end_time);
+        }
+
+        // keeps what is known of s
+        inline void trim(Signal &s, double et) const {
+            if (s.endTime < et) s.endTime = et; // rounding error
+            s.resize(start_time, et, 0.);
+        }
+
         // set trace data 
         // TODO should be done at the constructor, parser and cloning level...
         virtual void set_trace_data_ptr(const trace_data &trace) 
diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 69afabf..5379876 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -169,8 +169,8 @@ namespace STLRom {
         }
     
         z_low.compute_timed_eventually(child->z_low, a, b);
-        double et =min(z_low.endTime,end_time);
-        z_low.resize(start_time,max(start_time,et), 0.);
+        double et = known_end(child->z_low.endTime, a);
+        trim(z_low, max(start_time, et));
 
         if (z_low.empty()) 
             z_low.appendSample(start_time, BOTTOM); 
@@ -205,8 +205,8 @@ namespace STLRom {
         z_up.compute_timed_eventually(child->z_up, a, b);
 
         // Here we remove values computed with partial data 
-        double et =min(z_up.endTime-b+a,end_time);
-        z_up.resize(start_time,et, 0.);
+        double et = known_end(child->z_up.endTime, b);
+        trim(z_up, et);
 
         if (z_up.empty()) 
             z_up.appendSample(start_time, TOP); 
@@ -242,8 +242,8 @@ namespace STLRom {
         z_low.compute_timed_globally(child->z_low, a, b);
 
         // Here we remove values computed with partial data 
-        double et =min(z_low.endTime-b+a,end_time);
-        z_low.resize(start_time,et, 0.);
+        double et = known_end(child->z_low.endTime, b);
+        trim(z_low, et);
 	
         if (z_low.empty()) 
             z_low.appendSample(start_time,BOTTOM);        
@@ -275,8 +275,8 @@ namespace STLRom {
 
         //    cout << "child->z_up:" << child->z_up << endl;
         z_up.compute_timed_globally(child->z_up, a, b);
-        double et =min(z_up.endTime,end_time);
-        z_up.resize(start_time,max(start_time,et), 0.);
+        double et = known_end(child->z_up.endTime, a);
+        trim(z_up, max(start_time, et));
 
         if (z_up.empty()) 
             z_up.appendSample(start_time, TOP); 
@@ -305,8 +305,8 @@ namespace STLRom {
         }
 
         z_low.compute_timed_until(childL->z_low,childR->z_low, a, b);
-        double et =min(z_low.endTime,end_time);
-        z_low.resize(start_time,max(start_time,et),0.);
+        double et = known_end(min(childL->z_low.endTime, childR->z_low.endTime), b);
+        trim(z_low, max(start_time, max(et, min(z_low.endTime, end_time))));
 
         if (z_low.empty())
             z_low.appendSample(start_time, BOTTOM);
@@ -324,14 +324,14 @@ namespace STLRom {
         childR->compute_upper_rob();
 
         // Only keep values computed with complete data
-        double et = min(min(childL->z_up.endTime, childR->z_up.endTime)-b, end_time);
-        if (et < start_time - 1e-14) {
+        double et = known_end(min(childL->z_up.endTime, childR->z_up.endTime), b);
+        if (et < start_time) {
             z_up.appendSample(start_time, TOP);
             return TOP;
         }
 
         z_up.compute_timed_until(childL->z_up,childR->z_up, a, b);
-        z_up.resize(start_time,et,0.);
+        trim(z_up, et);
 
         if (z_up.empty())
             z_up.appendSample(start_time, TOP);
diff --git a/src/transducer.cpp b/src/transducer.cpp
index c337ab9..884ae33 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -173,9 +173,9 @@ namespace STLRom {
         //    }
         
 
-        double et = min(z.endTime,end_time);
+        double et = known_end(child->z.endTime, a);
 
-        z.resize(start_time,max(start_time,et), 0.);
+        trim(z, max(start_time, et));
 
 #ifdef DEBUG__
         cout << "OUT:" << z << endl;
@@ -197,8 +197,8 @@ namespace STLRom {
         child->compute_robustness();
 
         z.compute_timed_globally(child->z, a, b);
-        double et =min(z.endTime,end_time);
-        z.resize(start_time,max(start_time, et ),0.);
+        double et = known_end(child->z.endTime, a);
+        trim(z, max(start_time, et));
 
 #ifdef DEBUG__
         cout << "OUT:" << z << endl;
@@ -282,8 +282,8 @@ namespace STLRom {
         childR->compute_robustness();
 
         z.compute_timed_until(childL->z, childR->z, a, b);
-        double et = min(z.endTime,end_time);
-        z.resize(start_time,max(start_time,et),0.);
+        double et = known_end(min(childL->z.endTime, childR->z.endTime), b);
+        trim(z, max(start_time, max(et, min(z.endTime, end_time))));
         return z.front().value;
     }
 
-- 
2.43.0


From 4bdba10663b720c563235d548970d01c667b1b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:26 +0000
Subject: [PATCH 27/28] fix: get_BigM returns the value that was set, not its
 integer part

---
 include/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/signal.h b/include/signal.h
index bd2639d..114a834 100644
--- a/include/signal.h
+++ b/include/signal.h
@@ -136,7 +136,7 @@ public:
 		BigM=val;
 	}
 
-	inline static int get_BigM(){
+	inline static double get_BigM(){
 		return BigM;
 	}
 
-- 
2.43.0


From f7a9391c6cc9b3fda681e39ed8d1650d12e07386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:26 +0000
Subject: [PATCH 28/28] fix: values beyond BigM are not cut when the traces
 cover the formula

---
 src/robustness.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 7c1f59f..320d0d5 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -2,6 +2,7 @@
 #include "robustness.h"
 #include <list>
 #include <algorithm>
+#include <limits>
 // needed sometimes when compiling under windows 
 #undef min
 #undef max
@@ -83,6 +84,9 @@ void Signal::compute_boolean(const Signal &y) {
 }
 
 // TODO be better that
+// Below and above every value. (BigM only stands for values that are unknown.)
+#define LOWEST (std::numeric_limits<double>::lowest())
+#define HIGHEST (std::numeric_limits<double>::max())
 #define ZERO_POS 1e-14
 #define ZERO_NEG -1e-14
 
@@ -416,7 +420,7 @@ void Signal::compute_plateau_max(const Signal &x, double a) {
 
 	//PRECOMPUTATION: list the local maximums of x
 	t = x.endTime;
-	v = BOTTOM;
+	v = LOWEST;
 	for (j = x.rbegin(); j != x.rend(); j++) {
 		y.push_front(Point(t, fmax(v, j->valueAt(t))));
 		//    cout << "y.time:" << y.front().time << " y->value:" << y.front().value << endl;
@@ -537,7 +541,7 @@ void Signal::compute_plateau_min(const Signal &x, double a) {
 
 	//PRECOMPUTATION: list the local minimums of x
 	t = x.endTime;
-	v = TOP;
+	v = HIGHEST;
 	for (j = x.rbegin(); j != x.rend(); j++) {
 		y.push_front(Point(t, fmin(v, j->valueAt(t))));
 		t = j->time;
@@ -786,7 +790,7 @@ Signal * computeUntil(Signal * x, Signal * y) {
 #endif
 
 	double s, t;
-	double z_max = BOTTOM;
+	double z_max = LOWEST;
 	Signal * z = new Signal();
 
 	Signal::const_reverse_iterator i = x->rbegin();
@@ -840,7 +844,7 @@ Signal * computeBoundedEventually(Signal * x, double a) {
 
 	z1 = plateauMax(x, a);
 	z2 = new Signal(*x);
-	z2->resize(x->beginTime + a, x->endTime + a, BOTTOM);
+	z2->resize(x->beginTime + a, x->endTime + a, LOWEST);
 	z2->shift(-a);
 
 	z3 = computeOr(z2, z1);
@@ -872,7 +876,7 @@ Signal * computeBoundedGlobally(Signal * x, double a) {
 
 	z2 = new Signal(*x);
 	//cout << *z2 << endl;
-	z2->resize(x->beginTime + a, x->endTime + a, TOP);
+	z2->resize(x->beginTime + a, x->endTime + a, HIGHEST);
 	z2->shift(-a);
 
 	//cout << *z1 << endl;
@@ -1160,7 +1164,7 @@ void computePartialOr(Signal * z, Signal::const_reverse_iterator & i,
 //TODO  this routine is unconvential but safe memory-wise (no new/delete) so fix not urgent
 void computePartialEventually(Signal* z, Signal::const_reverse_iterator & i, double s, double t) {
 	bool continued = false;
-	double z_max = BOTTOM;
+	double z_max = LOWEST;
 	while (i->time > s) {
 		if (i->derivative >= 0) {
 			if (z_max < i->valueAt(t)) {
@@ -1286,7 +1290,7 @@ Signal * plateauMax(Signal * x, double a) {
 
 	//PRECOMPUTATION: list the local maximums of x
 	t = x->endTime;
-	v = BOTTOM;
+	v = LOWEST;
 	for (j = x->rbegin(); j != x->rend(); j++) {
 		y.push_front(Point(t, fmax(v, j->valueAt(t))));
 		t = j->time;
@@ -1369,7 +1373,7 @@ Signal * plateauMax(Signal * x, double a) {
 			#ifdef DEBUG___
 			cout << "No candidate." << endl;
 			#endif
-			z->push_back(Sample(t, BOTTOM, 0));
+			z->push_back(Sample(t, LOWEST, 0));
 		}
            //next best candidate
         else {
@@ -1463,7 +1467,7 @@ Signal * plateauMin(Signal * x, double a) {
 
 	//PRECOMPUTATION: list the local minimums of x
 	t = x->endTime;
-	v = TOP;
+	v = HIGHEST;
 	for (j = x->rbegin(); j != x->rend(); j++) {
 		y.push_front(Point(t, fmin(v, j->valueAt(t))));
 		t = j->time;
@@ -1520,7 +1524,7 @@ Signal * plateauMin(Signal * x, double a) {
 		//OUTPUT OF NEW MINIMUM
 		//no candidate
         if (M.empty()) {
-             z->push_back(Sample(t, TOP, 0)); //  => Why ? otherwise crashes :)
+             z->push_back(Sample(t, HIGHEST, 0)); //  => Why ? otherwise crashes :)
          }
 
         else //next best candidate
-- 
2.43.0

