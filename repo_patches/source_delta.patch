From 1c3bade42259920e1b3b563e1ca1196d81818cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:18 +0000
Subject: [PATCH 01/13] fix: copy-constructed filters use their own coefficient
 and pole/zero storage

The defaulted copy constructor of PoleFilter copied the pointers into the
source object, so setup() of either filter changed the other one and the copy
dangled when the source was destroyed.
---
 iir/Cascade.cpp  |  6 ++++++
 iir/Cascade.h    |  3 +++
 iir/Layout.h     |  7 +++++++
 iir/PoleFilter.h | 20 +++++++++++++++++++-
 4 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/iir/Cascade.cpp b/iir/Cascade.cpp
index de22560..15de951 100644
--- a/iir/Cascade.cpp
+++ b/iir/Cascade.cpp
@@ -49,6 +49,12 @@ namespace Iir {
 		m_stageArray = storage.stageArray;
 	}
 
+	void Cascade::rebindCascadeStorage (const Storage& storage)
+	{
+		m_maxStages = storage.maxStages;
+		m_stageArray = storage.stageArray;
+	}
+
 	complex_t Cascade::response (double normalizedFrequency) const
 	{
 		if (normalizedFrequency > 0.5) throw_invalid_argument(maxFError);
diff --git a/iir/Cascade.h b/iir/Cascade.h
index 57578d2..e332ac1 100644
--- a/iir/Cascade.h
+++ b/iir/Cascade.h
@@ -95,6 +95,9 @@ namespace Iir {
 
         void setCascadeStorage (const Storage& storage);
 
+        // Points to other storage which already contains our biquads
+        void rebindCascadeStorage (const Storage& storage);
+
         void applyScale (double scale);
 
         void setLayout (const LayoutBase& proto);
diff --git a/iir/Layout.h b/iir/Layout.h
index b69d2ec..bd5b81b 100644
--- a/iir/Layout.h
+++ b/iir/Layout.h
@@ -83,6 +83,13 @@ namespace Iir {
 			m_pair = other.m_pair;
 		}
 
+		// Points to other storage which already contains our poles/zeros
+		void rebindStorage (const LayoutBase& other)
+		{
+			m_maxPoles = other.m_maxPoles;
+			m_pair = other.m_pair;
+		}
+
 		void reset ()
 		{
 			m_numPoles = 0;
diff --git a/iir/PoleFilter.h b/iir/PoleFilter.h
index a5dd6e0..223dc4c 100644
--- a/iir/PoleFilter.h
+++ b/iir/PoleFilter.h
@@ -100,6 +100,14 @@ namespace Iir {
 			m_analogProto.setStorage (analogStorage);
 			m_digitalProto = digitalStorage;
 		}
+
+		// Points to the storage given here but keeps the poles/zeros
+		void rebindPrototypeStorage (const LayoutBase& analogStorage,
+					     const LayoutBase& digitalStorage)
+		{
+			m_analogProto.rebindStorage (analogStorage);
+			m_digitalProto.rebindStorage (digitalStorage);
+		}
 		
 	protected:
 		AnalogPrototype m_analogProto = {};
@@ -127,7 +135,17 @@ namespace Iir {
 				CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>::reset();
 			}
 		
-		PoleFilter(const PoleFilter&) = default;
+		PoleFilter(const PoleFilter& other)
+			: BaseClass (other)
+			, CascadeStages <(MaxDigitalPoles + 1) / 2 , StateType> (other)
+			, m_analogStorage (other.m_analogStorage)
+			, m_digitalStorage (other.m_digitalStorage)
+			{
+				// The base classes have copied the pointers to the
+				// storage of the other filter: use our own copy instead.
+				BaseClass::rebindCascadeStorage (this->getCascadeStorage());
+				BaseClass::rebindPrototypeStorage (m_analogStorage, m_digitalStorage);
+			}
 		
 		PoleFilter& operator=(const PoleFilter&)
 			{
-- 
2.43.0


From 3bc04abe1c8697e75f8852dc7bd861b02f0c1413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:16 +0000
Subject: [PATCH 02/13] fix: Cascade::response rejects NaN as an out-of-range
 frequency

---
 iir/Cascade.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iir/Cascade.cpp b/iir/Cascade.cpp
index 15de951..a3a9f26 100644
--- a/iir/Cascade.cpp
+++ b/iir/Cascade.cpp
@@ -57,7 +57,8 @@ namespace Iir {
 
 	complex_t Cascade::response (double normalizedFrequency) const
 	{
-		if (normalizedFrequency > 0.5) throw_invalid_argument(maxFError);
+		// also rejects NaN
+		if (!(normalizedFrequency <= 0.5)) throw_invalid_argument(maxFError);
 		if (normalizedFrequency < 0.0) throw_invalid_argument(minFError);
 		double w = 2 * doublePi * normalizedFrequency;
 		const complex_t czn1 = std::polar (1., -w);
-- 
2.43.0


From 93c34e698977751c1fca68e65891fe29b935cdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:57 +0000
Subject: [PATCH 03/13] fix: a design that throws no longer leaves a matching
 cache key behind

A prototype design that was rejected half-way (for example because of a
negative ripple) had already stored its parameters, so that repeating the
same setup() was served the incomplete prototype instead of being rejected.
---
 iir/Butterworth.cpp | 8 ++++++--
 iir/ChebyshevI.cpp  | 8 ++++++--
 iir/ChebyshevII.cpp | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index 1a96d04..356cf62 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -50,7 +50,7 @@ void AnalogLowPass::design (int numPoles)
 {
   if (m_numPoles != numPoles)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // stays invalid if an exception is thrown below
 
     reset ();
 
@@ -64,6 +64,8 @@ void AnalogLowPass::design (int numPoles)
 
     if (numPoles & 1)
       add (-1, infinity());
+
+    m_numPoles = numPoles;
   }
 }
 
@@ -80,7 +82,7 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
   if (m_numPoles != numPoles ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // stays invalid if an exception is thrown below
     m_gainDb = gainDb;
 
     reset ();
@@ -99,6 +101,8 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
     
     if (numPoles & 1)
       add (gp, gz);
+
+    m_numPoles = numPoles;
   }
 }
 
diff --git a/iir/ChebyshevI.cpp b/iir/ChebyshevI.cpp
index 23730f4..77e5f2f 100644
--- a/iir/ChebyshevI.cpp
+++ b/iir/ChebyshevI.cpp
@@ -51,7 +51,7 @@ void AnalogLowPass::design (int numPoles,
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // stays invalid if an exception is thrown below
     m_rippleDb = rippleDb;
 
     reset ();
@@ -81,6 +81,8 @@ void AnalogLowPass::design (int numPoles,
     {
       setNormal (0, pow (10, -rippleDb/20.));
     }
+
+    m_numPoles = numPoles;
   }
 }
 
@@ -106,7 +108,7 @@ void AnalogLowShelf::design (int numPoles,
       m_rippleDb != rippleDb ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // stays invalid if an exception is thrown below
     m_rippleDb = rippleDb;
     m_gainDb = gainDb;
 
@@ -151,6 +153,8 @@ void AnalogLowShelf::design (int numPoles,
 
     if (numPoles & 1)
       add (-sinh_u, -sinh_v);
+
+    m_numPoles = numPoles;
   }
 }
 
diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index f9647ab..db42eec 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -55,7 +55,7 @@ void AnalogLowPass::design (int numPoles,
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // stays invalid if an exception is thrown below
     m_stopBandDb = stopBandDb;
 
     reset ();
@@ -81,6 +81,8 @@ void AnalogLowPass::design (int numPoles,
     {
       add (1 / sinh_v0, infinity());
     }
+
+    m_numPoles = numPoles;
   }
 }
 
@@ -107,7 +109,7 @@ void AnalogLowShelf::design (int numPoles,
       m_stopBandDb != stopBandDb ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // stays invalid if an exception is thrown below
     m_stopBandDb = stopBandDb;
     m_gainDb = gainDb;
 
@@ -152,6 +154,8 @@ void AnalogLowShelf::design (int numPoles,
 
     if (numPoles & 1)
       add (-sinh_u, -sinh_v);
+
+    m_numPoles = numPoles;
   }
 }
 
-- 
2.43.0


From 4382d646d1bafbeebaa5de56554ee01fee7c8537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:38 +0000
Subject: [PATCH 04/13] fix: setup rejects a requested order below 1

Orders of zero or less were accepted and left a filter without any stage
which passed the signal unfiltered.
---
 iir/Butterworth.cpp | 6 ++++++
 iir/ChebyshevI.cpp  | 6 ++++++
 iir/ChebyshevII.cpp | 6 ++++++
 iir/Common.h        | 1 +
 4 files changed, 19 insertions(+)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index 356cf62..05c8bf7 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -48,6 +48,9 @@ AnalogLowPass::AnalogLowPass ()
 
 void AnalogLowPass::design (int numPoles)
 {
+  if (numPoles < 1)
+    throw_invalid_argument (orderTooLow);
+
   if (m_numPoles != numPoles)
   {
     m_numPoles = -1; // stays invalid if an exception is thrown below
@@ -79,6 +82,9 @@ AnalogLowShelf::AnalogLowShelf ()
 
 void AnalogLowShelf::design (int numPoles, double gainDb)
 {
+  if (numPoles < 1)
+    throw_invalid_argument (orderTooLow);
+
   if (m_numPoles != numPoles ||
       m_gainDb != gainDb)
   {
diff --git a/iir/ChebyshevI.cpp b/iir/ChebyshevI.cpp
index 77e5f2f..2a18287 100644
--- a/iir/ChebyshevI.cpp
+++ b/iir/ChebyshevI.cpp
@@ -48,6 +48,9 @@ AnalogLowPass::AnalogLowPass ()
 void AnalogLowPass::design (int numPoles,
                             double rippleDb)
 {
+  if (numPoles < 1)
+    throw_invalid_argument (orderTooLow);
+
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb)
   {
@@ -104,6 +107,9 @@ void AnalogLowShelf::design (int numPoles,
                              double gainDb,
                              double rippleDb)
 {
+  if (numPoles < 1)
+    throw_invalid_argument (orderTooLow);
+
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb ||
       m_gainDb != gainDb)
diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index db42eec..4443a2f 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -52,6 +52,9 @@ AnalogLowPass::AnalogLowPass ()
 void AnalogLowPass::design (int numPoles,
                             double stopBandDb)
 {
+  if (numPoles < 1)
+    throw_invalid_argument (orderTooLow);
+
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb)
   {
@@ -105,6 +108,9 @@ void AnalogLowShelf::design (int numPoles,
                              double gainDb,
                              double stopBandDb)
 {
+  if (numPoles < 1)
+    throw_invalid_argument (orderTooLow);
+
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb ||
       m_gainDb != gainDb)
diff --git a/iir/Common.h b/iir/Common.h
index d8f8f4f..9022fc9 100644
--- a/iir/Common.h
+++ b/iir/Common.h
@@ -67,6 +67,7 @@
 #include <stdexcept> // for invalid_argument
 
 static const char orderTooHigh[] = "Requested order is too high. Provide a higher order for the template.";
+static const char orderTooLow[] = "Requested order is too low. It needs to be at least 1.";
 
 #define DEFAULT_FILTER_ORDER 4
 
-- 
2.43.0


From 4cd57b8f650eb8660c72f49a138b96a91f900033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:08 +0000
Subject: [PATCH 05/13] fix: Chebyshev shelves accept a gain of 0 dB

---
 iir/ChebyshevI.cpp  | 4 +++-
 iir/ChebyshevII.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/iir/ChebyshevI.cpp b/iir/ChebyshevI.cpp
index 2a18287..6ce457e 100644
--- a/iir/ChebyshevI.cpp
+++ b/iir/ChebyshevI.cpp
@@ -135,8 +135,10 @@ void AnalogLowShelf::design (int numPoles,
     double eps;
     if (Gb != G0 )
       eps = sqrt((G*G-Gb*Gb)/(Gb*Gb-G0*G0));
-    else
+    else if (G != G0)
       eps = G-1; // This is surely wrong
+    else
+      eps = 1; // 0 dB gain: poles and zeros coincide for any eps
 
     const double b = pow (G/eps+Gb*sqrt(1+1/(eps*eps)), 1./numPoles);
     const double u = log (b / g0);
diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index 4443a2f..606b566 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -136,8 +136,10 @@ void AnalogLowShelf::design (int numPoles,
     double eps;
     if (Gb != G0 )
       eps = sqrt((G*G-Gb*Gb)/(Gb*Gb-G0*G0));
-    else
+    else if (G != G0)
       eps = G-1; // This is surely wrong
+    else
+      eps = 1; // 0 dB gain: poles and zeros coincide for any eps
 
     const double b = pow (G/eps+Gb*sqrt(1+1/(eps*eps)), 1./numPoles);
     const double u = log (b / g0);
-- 
2.43.0


From 2045ee47af4537186fdb25894ec46fa26a008473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:54 +0000
Subject: [PATCH 06/13] fix: reject coefficients that become NaN by
 normalisation or scaling

---
 iir/Biquad.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index 47f7102..9b92ea8 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -130,6 +130,11 @@ namespace Iir {
 		if (Iir::is_nan (b1)) throw_invalid_argument("b1 is NaN");
 		if (Iir::is_nan (b2)) throw_invalid_argument("b2 is NaN");
 
+		// 0/0 or inf/inf
+		if (Iir::is_nan (a1/a0) || Iir::is_nan (a2/a0) ||
+		    Iir::is_nan (b0/a0) || Iir::is_nan (b1/a0) || Iir::is_nan (b2/a0))
+			throw_invalid_argument("normalised coefficient is NaN");
+
 		m_a0 = a0;
 		m_a1 = a1/a0;
 		m_a2 = a2/a0;
@@ -213,6 +218,9 @@ namespace Iir {
 
 	void Biquad::applyScale (double scale)
 	{
+		if (Iir::is_nan (m_b0*scale) || Iir::is_nan (m_b1*scale) || Iir::is_nan (m_b2*scale))
+			throw_invalid_argument("scaled coefficient is NaN");
+
 		m_b0 *= scale;
 		m_b1 *= scale;
 		m_b2 *= scale;
-- 
2.43.0


From 3ab705df0119f9d9a3b60bbea34359517ee6fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:15 +0000
Subject: [PATCH 07/13] fix: pole and zero of a first-order section are -a1/a0
 and -b1/b0

---
 iir/Biquad.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index 9b92ea8..1abb89c 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -51,8 +51,8 @@ namespace Iir {
 		if (a2 == 0 && b2 == 0)
 		{
 			// single pole
-			poles.first = -a1;
-			zeros.first = -b0 / b1;
+			poles.first = -a1 / a0;
+			zeros.first = -b1 / b0;
 			poles.second = 0;
 			zeros.second = 0;
 		}
-- 
2.43.0


From f77dd1b0895b6fbaf0b3c49794919d32dcdf3019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:40 +0000
Subject: [PATCH 08/13] fix: Chebyshev shelves with a ripple at or above the
 gain no longer get a wrong gain

---
 iir/ChebyshevI.cpp  | 4 +---
 iir/ChebyshevII.cpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/iir/ChebyshevI.cpp b/iir/ChebyshevI.cpp
index 6ce457e..d5682f4 100644
--- a/iir/ChebyshevI.cpp
+++ b/iir/ChebyshevI.cpp
@@ -123,7 +123,7 @@ void AnalogLowShelf::design (int numPoles,
     gainDb = -gainDb;
 
     if (rippleDb >= fabs(gainDb))
-      rippleDb = fabs (gainDb);
+      rippleDb = fabs (gainDb) / 2; // needs to be less than the gain
     if (gainDb<0)
       rippleDb = -rippleDb;
 
@@ -135,8 +135,6 @@ void AnalogLowShelf::design (int numPoles,
     double eps;
     if (Gb != G0 )
       eps = sqrt((G*G-Gb*Gb)/(Gb*Gb-G0*G0));
-    else if (G != G0)
-      eps = G-1; // This is surely wrong
     else
       eps = 1; // 0 dB gain: poles and zeros coincide for any eps
 
diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index 606b566..c07cbd6 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -124,7 +124,7 @@ void AnalogLowShelf::design (int numPoles,
     gainDb = -gainDb;
 
     if (stopBandDb >= fabs(gainDb))
-      stopBandDb = fabs (gainDb);
+      stopBandDb = fabs (gainDb) / 2; // needs to be less than the gain
     if (gainDb<0)
       stopBandDb = -stopBandDb;
 
@@ -136,8 +136,6 @@ void AnalogLowShelf::design (int numPoles,
     double eps;
     if (Gb != G0 )
       eps = sqrt((G*G-Gb*Gb)/(Gb*Gb-G0*G0));
-    else if (G != G0)
-      eps = G-1; // This is surely wrong
     else
       eps = 1; // 0 dB gain: poles and zeros coincide for any eps
 
-- 
2.43.0


From 2f4a85afbbdd2fe9b47f1e1c49551e762bb8dca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:11 +0000
Subject: [PATCH 09/13] fix: a rejected layout leaves the stage count of the
 cascade unchanged

---
 iir/Cascade.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/iir/Cascade.cpp b/iir/Cascade.cpp
index a3a9f26..1b422df 100644
--- a/iir/Cascade.cpp
+++ b/iir/Cascade.cpp
@@ -107,9 +107,10 @@ namespace Iir {
 	void Cascade::setLayout (const LayoutBase& proto)
 	{
 		const int numPoles = proto.getNumPoles();
-		m_numStages = (numPoles + 1)/ 2;
-		if (m_numStages > m_maxStages)
+		const int numStages = (numPoles + 1)/ 2;
+		if (numStages > m_maxStages)
 			throw_invalid_argument("Number of stages is larger than the max stages.");
+		m_numStages = numStages;
 
 		Biquad* stage = m_stageArray;
 		for (int i = 0; i < m_maxStages; ++i, ++stage)
-- 
2.43.0


From bed014b60e043f80e9e303af3dadbc83797af958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:01 +0000
Subject: [PATCH 10/13] fix: Butterworth shelves no longer pass a negative
 radius to std::polar

---
 iir/Butterworth.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index 05c8bf7..4904bb4 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -102,7 +102,9 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
     for (int i = 1; i <= pairs; ++i)
     {
       const double theta = doublePi * (0.5 - (2 * i - 1) / n2);
-      addPoleZeroConjugatePairs (std::polar (gp, theta), std::polar (gz, theta));
+      // std::polar is undefined for a negative or NaN radius
+      addPoleZeroConjugatePairs (complex_t (gp * cos (theta), gp * sin (theta)),
+                                 complex_t (gz * cos (theta), gz * sin (theta)));
     }
     
     if (numPoles & 1)
-- 
2.43.0


From a672cf594c2384969b9db753069eadfce6d9058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:01 +0000
Subject: [PATCH 11/13] fix: TwoPole accepts or rejects any radius itself
 instead of std::polar

---
 iir/Custom.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/iir/Custom.cpp b/iir/Custom.cpp
index e1cebdf..853b885 100644
--- a/iir/Custom.cpp
+++ b/iir/Custom.cpp
@@ -54,8 +54,9 @@ void TwoPole::setup (double scale,
                      double zeroRho,
                      double zeroTheta)
 {
-  complex_t pole = std::polar (poleRho, poleTheta);
-  complex_t zero = std::polar (zeroRho, zeroTheta);
+  // std::polar is undefined for a negative or NaN radius
+  complex_t pole (poleRho * cos (poleTheta), poleRho * sin (poleTheta));
+  complex_t zero (zeroRho * cos (zeroTheta), zeroRho * sin (zeroTheta));
 
   setTwoPole (pole, zero, std::conj(pole), std::conj(zero));
   applyScale (scale);
-- 
2.43.0


From da143e06a290f5c5812e9d292ec4c9c0fada07be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:04 +0000
Subject: [PATCH 12/13] fix: a pair of real poles of which one is zero is a
 matched pair

An odd-order band-stop or band-pass has a pair of real poles. For some
widths (e.g. BandStop<1> with a width of a quarter of the sampling rate)
one of them is exactly zero and setup() then rejected valid parameters
with "Poles not complex conjugate."
---
 iir/Types.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/iir/Types.h b/iir/Types.h
index 72c5516..687ad19 100644
--- a/iir/Types.h
+++ b/iir/Types.h
@@ -67,16 +67,14 @@ namespace Iir {
 
 		/**
 		 * Returns true if this is either a conjugate pair,
-		 * or a pair of reals where neither is zero.
+		 * or a pair of reals.
 		 */
 		bool isMatchedPair () const
 		{
 			if (first.imag() != 0)
 				return second == std::conj (first);
 			else
-				return second.imag () == 0 &&
-					second.real () != 0 &&
-					first.real () != 0;
+				return second.imag () == 0;
 		}
 
 		bool is_nan () const
-- 
2.43.0


From 4f9ec6bbe39f2afb859104d0f9a22acfafdd0681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:48 +0000
Subject: [PATCH 13/13] fix: a band beyond the frequency limits does not turn
 inside out

A band that lies entirely below 1e-8 (or above pi-1e-8) had only its lower
(upper) edge moved to the limit, so that the edges changed places and the
poles lay outside the unit circle.
---
 iir/PoleFilter.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/iir/PoleFilter.cpp b/iir/PoleFilter.cpp
index d54a5eb..0d5dc90 100644
--- a/iir/PoleFilter.cpp
+++ b/iir/PoleFilter.cpp
@@ -155,9 +155,18 @@ BandPassTransform::BandPassTransform (double fc,
 	
 	// what is this crap?
 	if (wc2 < 1e-8)
+	{
 		wc2 = 1e-8;
+		// the upper edge stays above the lower one
+		if (wc < 2e-8)
+			wc = 2e-8;
+	}
 	if (wc  > doublePi-1e-8)
+	{
 		wc  = doublePi-1e-8;
+		if (wc2 > doublePi-2e-8)
+			wc2 = doublePi-2e-8;
+	}
 	
 	a =     cos ((wc + wc2) * 0.5) /
 		cos ((wc - wc2) * 0.5);
@@ -238,9 +247,18 @@ BandStopTransform::BandStopTransform (double fc,
 	
 	// this is crap
 	if (wc2 < 1e-8)
+	{
 		wc2 = 1e-8;
+		// the upper edge stays above the lower one
+		if (wc < 2e-8)
+			wc = 2e-8;
+	}
 	if (wc  > doublePi-1e-8)
+	{
 		wc  = doublePi-1e-8;
+		if (wc2 > doublePi-2e-8)
+			wc2 = doublePi-2e-8;
+	}
 	
 	a = cos ((wc + wc2) * .5) /
 		cos ((wc - wc2) * .5);
-- 
2.43.0

