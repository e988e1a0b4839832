From e5b12c4cf5b3fd608757b4056e5930e8e779004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 01/62] fix: pga: zero - blade returned a reference to a
 destroyed temporary

---
 include/altruct/structure/math/pga.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/pga.h b/include/altruct/structure/math/pga.h
index 0a61d32..9e75971 100644
--- a/include/altruct/structure/math/pga.h
+++ b/include/altruct/structure/math/pga.h
@@ -552,7 +552,7 @@ auto operator + (const BL& bl, const BR& br) {
 
 // subtract
 template<typename B, typename T, IF_BLADE_TYPE(B, T)> const B& operator - (const B& b, zero<T>) { return b; }
-template<typename B, typename T, IF_NONZERO_BLADE_TYPE(B, T)> const B& operator - (zero<T>, const B& b) { return -b; }
+template<typename B, typename T, IF_NONZERO_BLADE_TYPE(B, T)> B operator - (zero<T>, const B& b) { return -b; }
 
 template<typename BL, typename BR, typename T = typename get<BL>::type, IF_NONZERO_BLADE_TYPE(BL, T), IF_NONZERO_BLADE_TYPE(BR, T)>
 auto operator - (const BL& bl, const BR& br) {
-- 
2.43.0


From 1680fa9c8d8d5da3a9fb1148bbc40c137299948b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 02/62] fix: clifford3: constructors took the zero for the
 missing parts from a moved-from or absent value

---
 include/altruct/structure/math/clifford3.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/altruct/structure/math/clifford3.h b/include/altruct/structure/math/clifford3.h
index 624c340..028c01d 100644
--- a/include/altruct/structure/math/clifford3.h
+++ b/include/altruct/structure/math/clifford3.h
@@ -24,7 +24,7 @@ public:
     T yz, zx, xy; // bivectors
 
     rotor() : s(1), yz(0), zx(0), xy(0) {}
-    rotor(T s) : s(std::move(s)), yz(zeroOf(s)), zx(zeroOf(s)), xy(zeroOf(s)) {}
+    rotor(T s) : s(s), yz(zeroOf(s)), zx(zeroOf(s)), xy(zeroOf(s)) {}
     rotor(T s, T yz, T zx, T xy) : s(std::move(s)), yz(std::move(yz)), zx(std::move(zx)), xy(std::move(xy)) {}
 
     bool operator == (const rotor& r) const { return (s == r.s) && (yz == r.yz) && (zx == r.zx) && (xy == r.xy); }
@@ -120,7 +120,7 @@ public:
     T w;       // trivector (volume)
 
     vector() : x(0), y(0), z(0), w(0) {}
-    vector(T x, T y, T z) : x(std::move(x)), y(std::move(y)), z(std::move(z)), w(zeroOf(z)) {}
+    vector(T x, T y, T z) : x(std::move(x)), y(std::move(y)), z(z), w(zeroOf(z)) {}
     vector(T x, T y, T z, T w) : x(std::move(x)), y(std::move(y)), z(std::move(z)), w(std::move(w)) {}
 
     bool operator == (const vector& v) const { return (x == v.x) && (y == v.y) && (z == v.z) && (w == v.w); }
@@ -251,7 +251,7 @@ public:
     vector<T> v;  // odd part
 
     multivector() {}
-    multivector(rotor<T> r) : r(std::move(r)) {}
+    multivector(rotor<T> r) : r(r), v(zeroOf(r.s), zeroOf(r.s), zeroOf(r.s), zeroOf(r.s)) {}
     multivector(vector<T> v) : r(zeroOf(v.w)), v(std::move(v)) {}
     multivector(rotor<T> r, vector<T> v) : r(std::move(r)), v(std::move(v)) {}
 
-- 
2.43.0


From e353927498d257a5c5f875e9389fbc4f6a45f72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 03/62] fix: clifford3: compound operators used an operand that
 is part of the target after changing it

---
 include/altruct/structure/math/clifford3.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/altruct/structure/math/clifford3.h b/include/altruct/structure/math/clifford3.h
index 028c01d..0ca28f5 100644
--- a/include/altruct/structure/math/clifford3.h
+++ b/include/altruct/structure/math/clifford3.h
@@ -44,8 +44,8 @@ public:
     rotor& operator *= (const rotor& r) { return *this = *this * r; }
     rotor& operator /= (const rotor& r) { return *this = *this / r; }
 
-    rotor& operator *= (const T& t) { s *= t; yz *= t; zx *= t; xy *= t; return *this; }
-    rotor& operator /= (const T& t) { s /= t; yz /= t; zx /= t; xy /= t; return *this; }
+    rotor& operator *= (const T& t) { return *this = *this * t; }
+    rotor& operator /= (const T& t) { return *this = *this / t; }
 
     rotor  operator +  (const rotor& r) const { return rotor(s + r.s, yz + r.yz, zx + r.zx, xy + r.xy); }
     rotor  operator -  (const rotor& r) const { return rotor(s - r.s, yz - r.yz, zx - r.zx, xy - r.xy); }
@@ -141,8 +141,8 @@ public:
     vector& operator *= (const rotor<T>& r) { return *this = *this * r; }
     vector& operator /= (const rotor<T>& r) { return *this = *this / r; }
 
-    vector& operator *= (const T& t) { x *= t; y *= t; z *= t; w *= t; return *this; }
-    vector& operator /= (const T& t) { x /= t; y /= t; z /= t; w /= t; return *this; }
+    vector& operator *= (const T& t) { return *this = *this * t; }
+    vector& operator /= (const T& t) { return *this = *this / t; }
 
     vector   operator +  (const vector& v) const { return vector(x + v.x, y + v.y, z + v.z, w + v.w); }
     vector   operator -  (const vector& v) const { return vector(x - v.x, y - v.y, z - v.z, w - v.w); }
@@ -271,8 +271,8 @@ public:
     multivector& operator += (const multivector& m) { r += m.r; v += m.v; return *this; }
     multivector& operator -= (const multivector& m) { r -= m.r; v -= m.v; return *this; }
 
-    multivector& operator *= (const rotor<T>& r2) { r *= r2; v *= r2; return *this; }
-    multivector& operator /= (const rotor<T>& r2) { r /= r2; v /= r2; return *this; } // return *this *= r2.inv();
+    multivector& operator *= (const rotor<T>& r2) { return *this = *this * r2; }
+    multivector& operator /= (const rotor<T>& r2) { return *this = *this / r2; } // return *this *= r2.inv();
 
     multivector& operator *= (const vector<T>& v2) { return *this = *this * v2; }
     multivector& operator /= (const vector<T>& v2) { return *this = *this / v2; }
@@ -280,8 +280,8 @@ public:
     multivector& operator *= (const multivector& m) { return *this = *this * m; }
     multivector& operator /= (const multivector& m) { return *this = *this / m; }
 
-    multivector& operator *= (const T& t) { r *= t; v *= t; return *this; }
-    multivector& operator /= (const T& t) { r /= t; v /= t; return *this; }
+    multivector& operator *= (const T& t) { return *this = *this * t; }
+    multivector& operator /= (const T& t) { return *this = *this / t; }
 
     multivector  operator +  (const rotor<T>& r2) const { return multivector(r + r2, v); }
     multivector  operator -  (const rotor<T>& r2) const { return multivector(r - r2, v); }
@@ -294,8 +294,8 @@ public:
 
     multivector  operator -  ()                     const { return multivector(-r, -v); }
 
-    multivector  operator *  (const rotor<T>& r2)  const { multivector res = *this; res *= r2; return res; }
-    multivector  operator /  (const rotor<T>& r2)  const { multivector res = *this; res /= r2; return res; }
+    multivector  operator *  (const rotor<T>& r2)  const { return multivector(r * r2, v * r2); }
+    multivector  operator /  (const rotor<T>& r2)  const { return multivector(r / r2, v / r2); }
 
     multivector  operator *  (const vector<T>& v2)  const { return multivector(v * v2, r * v2); }
     multivector  operator /  (const vector<T>& v2)  const { return multivector(v / v2, r / v2); } // return *this * v2.inv();
-- 
2.43.0


From 1158a113750e0a0dc8afe72a7ab4524aaf2e2969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 04/62] fix: pga: zero parts of composite blades lost the
 element context (e.g. run-time modulus)

---
 include/altruct/structure/math/pga.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/altruct/structure/math/pga.h b/include/altruct/structure/math/pga.h
index 9e75971..dd35330 100644
--- a/include/altruct/structure/math/pga.h
+++ b/include/altruct/structure/math/pga.h
@@ -213,7 +213,7 @@ public:
     blade0<T> b0;
     blade2E<T> b2E;
 
-    PGA_CONSTRUCTORS_2(blade02E, blade0<T>, b0, zeroOf(b2E.biE.z), blade2E<T>, b2E, zeroOf(b0.s));
+    PGA_CONSTRUCTORS_2(blade02E, blade0<T>, b0, zeroOf(b2E.biE.z), blade2E<T>, b2E, make_zero_vec(b0.s));
     PGA_CLOSED_OPERATORS_2(blade02E, T, b0, b2E);
     PGA_COMPOSITE_GETTERS(blade02E, b0, b2E);
     auto inv() const { return rev() / norm2(); }
@@ -225,7 +225,7 @@ public:
     blade0<T> b0;
     blade2e<T> b2e;
 
-    PGA_CONSTRUCTORS_2(blade02e, blade0<T>, b0, zeroOf(b2e.bie.z), blade2e<T>, b2e, zeroOf(b0.s));
+    PGA_CONSTRUCTORS_2(blade02e, blade0<T>, b0, zeroOf(b2e.bie.z), blade2e<T>, b2e, make_zero_vec(b0.s));
     PGA_CLOSED_OPERATORS_2(blade02e, T, b0, b2e);
     PGA_COMPOSITE_GETTERS(blade02e, b0, b2e);
     auto inv() const { return rev() / norm2(); }
@@ -237,7 +237,7 @@ public:
     blade2E<T> b2E;
     blade2e<T> b2e;
 
-    PGA_CONSTRUCTORS_2(blade22, blade2E<T>, b2E, zeroOf(b2e.bie.z), blade2e<T>, b2e, zeroOf(b2E.biE.z));
+    PGA_CONSTRUCTORS_2(blade22, blade2E<T>, b2E, make_zero_vec(b2e.bie.z), blade2e<T>, b2e, make_zero_vec(b2E.biE.z));
     PGA_CLOSED_OPERATORS_2(blade22, T, b2E, b2e);
     PGA_COMPOSITE_GETTERS(blade22, b2E, b2e);
     auto inv() const { return rev() / norm2(); } // only works when b2E and b2e are perpendicular! use blade024::inv() otherwise
@@ -249,7 +249,7 @@ public:
     blade2E<T> b2E;
     blade4<T> b4;
 
-    PGA_CONSTRUCTORS_2(blade2E4, blade2E<T>, b2E, zeroOf(b4.e0123), blade4<T>, b4, zeroOf(b2E.biE.z));
+    PGA_CONSTRUCTORS_2(blade2E4, blade2E<T>, b2E, make_zero_vec(b4.e0123), blade4<T>, b4, zeroOf(b2E.biE.z));
     PGA_CLOSED_OPERATORS_2(blade2E4, T, b2E, b4);
     PGA_COMPOSITE_GETTERS(blade2E4, b2E, b4);
     auto inv() const { return rev() / norm2(); }
@@ -261,7 +261,7 @@ public:
     blade2e<T> b2e;
     blade4<T> b4;
 
-    PGA_CONSTRUCTORS_2(blade2e4, blade2e<T>, b2e, zeroOf(b4.e0123), blade4<T>, b4, zeroOf(b2e.bie.z));
+    PGA_CONSTRUCTORS_2(blade2e4, blade2e<T>, b2e, make_zero_vec(b4.e0123), blade4<T>, b4, zeroOf(b2e.bie.z));
     PGA_CLOSED_OPERATORS_2(blade2e4, T, b2e, b4);
     PGA_COMPOSITE_GETTERS(blade2e4, b2e, b4);
     auto inv() const { return rev() / norm2(); }
@@ -829,9 +829,9 @@ template<typename T> auto operator % (const blade1<T>& a, const blade13<T>& b) {
 template<typename T> auto operator % (const blade2E<T>& a, const blade0<T>& b) { return a * b.norm2(); }
 template<typename T> auto operator % (const blade2E<T>& a, const blade1<T>& b) { return blade2E<T>(a.biE * b.diff2() - b.v * ((a.biE & b.v) * castOf(a.biE.z, 2))) + blade2e<T>(b.e0 * castOf(a.biE.z, 2) * (a.biE ^ b.v)); }
 template<typename T> auto operator % (const blade2E<T>& a, const blade2E<T>& b) { return blade2E<T>(a.biE * b.diff2() + b.biE * ((a.biE & b.biE) * castOf(a.biE.z, 2))); }
-template<typename T> auto operator % (const blade2E<T>& a, const blade2e<T>& b) { return blade2E<T>(zeroOf(a.biE.z)); }
+template<typename T> auto operator % (const blade2E<T>& a, const blade2e<T>& b) { return blade2E<T>(make_zero_vec(a.biE.z)); }
 template<typename T> auto operator % (const blade2E<T>& a, const blade3<T>& b) { return blade2E<T>(a.biE * b.diff2()) + blade2e<T>(b.e123 * castOf(a.biE.z, 2) * (a.biE ^ b.triP)); }
-template<typename T> auto operator % (const blade2E<T>& a, const blade4<T>& b) { return blade2E<T>(zeroOf(a.biE.z)); }
+template<typename T> auto operator % (const blade2E<T>& a, const blade4<T>& b) { return blade2E<T>(make_zero_vec(a.biE.z)); }
 template<typename T> auto operator % (const blade2E<T>& a, const blade02E<T>& b) {
     const auto c2 = castOf(a.biE.z, 2); PGA_DOT_CROSS(a.biE, b.b2E.biE, abiE_o_bbiE, abiE_x_bbiE);
     return blade2E<T>(a.biE * b.diff2() + (b.b2E.biE * abiE_o_bbiE + b.b0.s * abiE_x_bbiE) * c2);
@@ -849,7 +849,7 @@ template<typename T> auto operator % (const blade2E<T>& a, const blade2E4<T>& b)
     return blade2E<T>(a.biE * b.diff2() + b.b2E.biE * (abiE_o_bbiE * c2)) + blade2e<T>(-c2 * b.b4.e0123 * abiE_x_bbiE);
 }
 template<typename T> auto operator % (const blade2E<T>& a, const blade2e4<T>& b) {
-    return blade2E<T>(zeroOf(a.biE.z));
+    return blade2E<T>(make_zero_vec(a.biE.z));
 }
 template<typename T> auto operator % (const blade2E<T>& a, const blade024<T>& b) {
     PGA_DEF_024(b, c2); PGA_DOT_CROSS(a.biE, bbiE, abiE_o_bbiE, abiE_x_bbiE); PGA_DOT_CROSS(a.biE, bbie, abiE_o_bbie, abiE_x_bbie);
@@ -865,9 +865,9 @@ template<typename T> auto operator % (const blade2E<T>& a, const blade13<T>& b)
 template<typename T> auto operator % (const blade2e<T>& a, const blade0<T>& b) { return a * b.norm2(); }
 template<typename T> auto operator % (const blade2e<T>& a, const blade1<T>& b) { return blade2e<T>(a.bie * -b.diff2() + b.v * (a.bie & b.v) * castOf(a.bie.z, 2)); }
 template<typename T> auto operator % (const blade2e<T>& a, const blade2E<T>& b) { return blade2e<T>(a.bie * b.diff2() + b.biE * ((a.bie & b.biE) * castOf(a.bie.z, 2))); }
-template<typename T> auto operator % (const blade2e<T>& a, const blade2e<T>& b) { return blade2e<T>(zeroOf(a.bie.z)); }
+template<typename T> auto operator % (const blade2e<T>& a, const blade2e<T>& b) { return blade2e<T>(make_zero_vec(a.bie.z)); }
 template<typename T> auto operator % (const blade2e<T>& a, const blade3<T>& b) { return a * b.norm2(); }
-template<typename T> auto operator % (const blade2e<T>& a, const blade4<T>& b) { return blade2e<T>(zeroOf(a.bie.z)); }
+template<typename T> auto operator % (const blade2e<T>& a, const blade4<T>& b) { return blade2e<T>(make_zero_vec(a.bie.z)); }
 template<typename T> auto operator % (const blade2e<T>& a, const blade02E<T>& b) {
     const auto c2 = castOf(a.bie.z, 2); PGA_DOT_CROSS(a.bie, b.b2E.biE, abie_o_bbiE, abie_x_bbiE);
     return blade2e<T>(a.bie * b.diff2() + (b.b0.s * abie_x_bbiE + b.b2E.biE * abie_o_bbiE) * c2);
@@ -875,7 +875,7 @@ template<typename T> auto operator % (const blade2e<T>& a, const blade02E<T>& b)
 template<typename T> auto operator % (const blade2e<T>& a, const blade02e<T>& b) { return a * b.norm2(); }
 template<typename T> auto operator % (const blade2e<T>& a, const blade22<T>& b) { return a % b.b2E; }
 template<typename T> auto operator % (const blade2e<T>& a, const blade2E4<T>& b) { return a % b.b2E; }
-template<typename T> auto operator % (const blade2e<T>& a, const blade2e4<T>& b) { return blade2e<T>(zeroOf(a.bie.z)); }
+template<typename T> auto operator % (const blade2e<T>& a, const blade2e4<T>& b) { return blade2e<T>(make_zero_vec(a.bie.z)); }
 template<typename T> auto operator % (const blade2e<T>& a, const blade024<T>& b) {
     PGA_DEF_024(b, c2); PGA_DOT_CROSS(a.bie, bbiE, abie_o_bbiE, abie_x_bbiE);
     return blade2e<T>(a.bie * b.diff2() + (bs * abie_x_bbiE + bbiE * abie_o_bbiE) * c2);
-- 
2.43.0


From fb52f2b02b852dbef94da2ab618a8f86f4d4bd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 05/62] fix: math: compound scalar operators read an operand
 that is part of the target after changing it

---
 include/altruct/structure/math/matrix.h    |  6 ++++--
 include/altruct/structure/math/polynom.h   |  6 ++++--
 include/altruct/structure/math/quadratic.h |  4 ++--
 include/altruct/structure/math/vector2d.h  |  4 ++--
 include/altruct/structure/math/vector3d.h  |  4 ++--
 include/altruct/structure/math/vectorNd.h  | 10 +++++-----
 6 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/include/altruct/structure/math/matrix.h b/include/altruct/structure/math/matrix.h
index d4d2422..0743e1d 100644
--- a/include/altruct/structure/math/matrix.h
+++ b/include/altruct/structure/math/matrix.h
@@ -117,7 +117,8 @@ public:
         return matrix(*this) *= rhs;
     }
 
-    matrix& operator *= (const T& s) {
+    matrix& operator *= (const T& val) {
+        const T s = val; // `val` may be an element of this matrix
         int n = rows(), m = cols();
         for (int i = 0; i < n; i++) {
             for (int j = 0; j < m; j++) {
@@ -137,7 +138,8 @@ public:
         return matrix(*this) *= rhs.inverse();
     }
 
-    matrix& operator /= (const T& s) {
+    matrix& operator /= (const T& val) {
+        const T s = val; // `val` may be an element of this matrix
         int n = rows(), m = cols();
         for (int i = 0; i < n; i++) {
             for (int j = 0; j < m; j++) {
diff --git a/include/altruct/structure/math/polynom.h b/include/altruct/structure/math/polynom.h
index 3d4b5ed..b0a299e 100644
--- a/include/altruct/structure/math/polynom.h
+++ b/include/altruct/structure/math/polynom.h
@@ -274,7 +274,8 @@ public:
 
     // pr = p1 * s; O(l1)
     // it is allowed for `p1` and `pr` to be the same instance
-    static void mul(polynom &pr, const polynom &p1, const T &s) {
+    static void mul(polynom &pr, const polynom &p1, const T &val) {
+        const T s = val; // `val` may be a coefficient of `pr`
         int lr = p1.deg();
         pr.resize(lr + 1, p1.ZERO_COEFF);
         for (int i = 0; i <= lr; i++) {
@@ -284,7 +285,8 @@ public:
 
     // pr = p1 / s; O(l1)
     // it is allowed for `p1` and `pr` to be the same instance
-    static void div(polynom &pr, const polynom &p1, const T &s) {
+    static void div(polynom &pr, const polynom &p1, const T &val) {
+        const T s = val; // `val` may be a coefficient of `pr`
         int lr = p1.deg();
         pr.resize(lr + 1, p1.ZERO_COEFF);
         for (int i = 0; i <= lr; i++) {
diff --git a/include/altruct/structure/math/quadratic.h b/include/altruct/structure/math/quadratic.h
index 2f49b94..ada0423 100644
--- a/include/altruct/structure/math/quadratic.h
+++ b/include/altruct/structure/math/quadratic.h
@@ -81,8 +81,8 @@ public:
     quadratic& operator /= (const quadratic& rhs) { return *this = *this * rhs.conjugate() / rhs.norm(); }
     quadratic& operator %= (const quadratic& rhs) { return *this = *this - rhs * (*this / rhs); }
 
-    quadratic& operator *= (const T& rhs) { a *= rhs; b *= rhs; return *this; }
-    quadratic& operator /= (const T& rhs) { a /= rhs; b /= rhs; return *this; }
+    quadratic& operator *= (const T& val) { const T rhs = val; a *= rhs; b *= rhs; return *this; }
+    quadratic& operator /= (const T& val) { const T rhs = val; a /= rhs; b /= rhs; return *this; }
 
     quadratic conjugate() const { return quadratic(a, -b, this->D()); }
     T norm() const { return a * a - b * b * this->D(); }
diff --git a/include/altruct/structure/math/vector2d.h b/include/altruct/structure/math/vector2d.h
index fa2ccd6..19e2c26 100644
--- a/include/altruct/structure/math/vector2d.h
+++ b/include/altruct/structure/math/vector2d.h
@@ -29,8 +29,8 @@ public:
     vector2d& operator *= (const vector2d& v) { x *= v.x; y *= v.y; return *this; } // (element by element)
     vector2d& operator /= (const vector2d& v) { x /= v.x; y /= v.y; return *this; } // (element by element)
 
-    vector2d& operator *= (const T& t) { x *= t; y *= t; return (*this); }
-    vector2d& operator /= (const T& t) { x /= t; y /= t; return (*this); }
+    vector2d& operator *= (const T& val) { const T t = val; x *= t; y *= t; return (*this); }
+    vector2d& operator /= (const T& val) { const T t = val; x /= t; y /= t; return (*this); }
 
     vector2d  operator +  (const vector2d& v) const { return vector2d(x + v.x, y + v.y); }
     vector2d  operator -  (const vector2d& v) const { return vector2d(x - v.x, y - v.y); }
diff --git a/include/altruct/structure/math/vector3d.h b/include/altruct/structure/math/vector3d.h
index 0b88d2d..498231c 100644
--- a/include/altruct/structure/math/vector3d.h
+++ b/include/altruct/structure/math/vector3d.h
@@ -29,8 +29,8 @@ public:
     vector3d& operator *= (const vector3d& v) { x *= v.x; y *= v.y; z *= v.z; return *this; } // element by element
     vector3d& operator /= (const vector3d& v) { x /= v.x; y /= v.y; z /= v.z; return *this; } // element by element
 
-    vector3d& operator *= (const T& t) { x *= t; y *= t; z *= t; return *this; }
-    vector3d& operator /= (const T& t) { x /= t; y /= t; z /= t; return *this; }
+    vector3d& operator *= (const T& val) { const T t = val; x *= t; y *= t; z *= t; return *this; }
+    vector3d& operator /= (const T& val) { const T t = val; x /= t; y /= t; z /= t; return *this; }
 
     vector3d  operator +  ()                  const { return vector3d(+x, +y, +z); }
     vector3d  operator -  ()                  const { return vector3d(-x, -y, -z); }
diff --git a/include/altruct/structure/math/vectorNd.h b/include/altruct/structure/math/vectorNd.h
index 2219482..93a869c 100644
--- a/include/altruct/structure/math/vectorNd.h
+++ b/include/altruct/structure/math/vectorNd.h
@@ -68,11 +68,11 @@ public:
     vectorNd& operator /= (const vectorNd& rhs) { for (int i = 0; i < N; i++) a[i] /= rhs.a[i]; return *this; }
     vectorNd& operator %= (const vectorNd& rhs) { for (int i = 0; i < N; i++) a[i] %= rhs.a[i]; return *this; }
 
-    vectorNd& operator += (const T& rhs) { for (int i = 0; i < N; i++) a[i] += rhs; return *this; }
-    vectorNd& operator -= (const T& rhs) { for (int i = 0; i < N; i++) a[i] -= rhs; return *this; }
-    vectorNd& operator *= (const T& rhs) { for (int i = 0; i < N; i++) a[i] *= rhs; return *this; }
-    vectorNd& operator /= (const T& rhs) { for (int i = 0; i < N; i++) a[i] /= rhs; return *this; }
-    vectorNd& operator %= (const T& rhs) { for (int i = 0; i < N; i++) a[i] %= rhs; return *this; }
+    vectorNd& operator += (const T& val) { const T rhs = val; for (int i = 0; i < N; i++) a[i] += rhs; return *this; }
+    vectorNd& operator -= (const T& val) { const T rhs = val; for (int i = 0; i < N; i++) a[i] -= rhs; return *this; }
+    vectorNd& operator *= (const T& val) { const T rhs = val; for (int i = 0; i < N; i++) a[i] *= rhs; return *this; }
+    vectorNd& operator /= (const T& val) { const T rhs = val; for (int i = 0; i < N; i++) a[i] /= rhs; return *this; }
+    vectorNd& operator %= (const T& val) { const T rhs = val; for (int i = 0; i < N; i++) a[i] %= rhs; return *this; }
 
     T abs2() const { T r = 0; for (int i = 0; i < N; i++) r += a[i] * a[i]; return r; }
 };
-- 
2.43.0


From 3ceba2800bb09dac93f73da06f50d953d90e7d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 06/62] fix: vectorNd: abs2 lost the element context (e.g.
 run-time modulus)

---
 include/altruct/structure/math/vectorNd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/vectorNd.h b/include/altruct/structure/math/vectorNd.h
index 93a869c..534ad5c 100644
--- a/include/altruct/structure/math/vectorNd.h
+++ b/include/altruct/structure/math/vectorNd.h
@@ -74,7 +74,7 @@ public:
     vectorNd& operator /= (const T& val) { const T rhs = val; for (int i = 0; i < N; i++) a[i] /= rhs; return *this; }
     vectorNd& operator %= (const T& val) { const T rhs = val; for (int i = 0; i < N; i++) a[i] %= rhs; return *this; }
 
-    T abs2() const { T r = 0; for (int i = 0; i < N; i++) r += a[i] * a[i]; return r; }
+    T abs2() const { T r = zeroOf(a[0]); for (int i = 0; i < N; i++) r += a[i] * a[i]; return r; }
 };
 
 template<typename T, int N>
-- 
2.43.0


From 894fba7bb3b3c42b4b3e74609dfecbc1995c1b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:22 +0000
Subject: [PATCH 07/62] fix: base: infinityT of floating point types was not
 usable (non-static member)

---
 include/altruct/algorithm/math/base.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index 97b7e7d..9fd71fe 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -101,9 +101,9 @@ struct infinityT {
         return false;
     }
 };
-template<> struct infinityT<float> { bool is(const float& x) { return isinf(x); } };
-template<> struct infinityT<double> { bool is(const double& x) { return isinf(x); } };
-template<> struct infinityT<long double> { bool is(const long double& x) { return isinf(x); } };
+template<> struct infinityT<float> { static bool is(const float& x) { return std::isinf(x); } };
+template<> struct infinityT<double> { static bool is(const double& x) { return std::isinf(x); } };
+template<> struct infinityT<long double> { static bool is(const long double& x) { return std::isinf(x); } };
 
 /**
  * Gives the conjugate value of x.
-- 
2.43.0


From ae3afdb1c82f471e5952764917c6309e51b58675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:24 +0000
Subject: [PATCH 08/62] fix: with_infinity: negating the point at infinity gave
 a finite value

---
 include/altruct/structure/math/with_infinity.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/with_infinity.h b/include/altruct/structure/math/with_infinity.h
index 4a3f38b..70ca98a 100644
--- a/include/altruct/structure/math/with_infinity.h
+++ b/include/altruct/structure/math/with_infinity.h
@@ -47,7 +47,7 @@ public:
 
     with_infinity  operator +  (const with_infinity &rhs) const { with_infinity t(*this); t += rhs; return t; }
     with_infinity  operator -  (const with_infinity &rhs) const { with_infinity t(*this); t -= rhs; return t; }
-    with_infinity  operator -  ()                         const { with_infinity t(-v);              return t; }
+    with_infinity  operator -  ()                         const { with_infinity t(-v, is_inf);      return t; }
     with_infinity  operator *  (const with_infinity &rhs) const { with_infinity t(*this); t *= rhs; return t; }
     with_infinity  operator /  (const with_infinity &rhs) const { with_infinity t(*this); t /= rhs; return t; }
     with_infinity  operator %  (const with_infinity &rhs) const { with_infinity t(*this); t %= rhs; return t; }
-- 
2.43.0


From 50651ec98c1124a5a69e33132756ec8090a9f500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:31 +0000
Subject: [PATCH 09/62] fix: bits: make_ones and next_combination shifted by
 the full width of the type

---
 include/altruct/algorithm/math/bits.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/bits.h b/include/altruct/algorithm/math/bits.h
index 33e798e..334c40c 100644
--- a/include/altruct/algorithm/math/bits.h
+++ b/include/altruct/algorithm/math/bits.h
@@ -25,7 +25,7 @@ const int bit_size<T>::value;
 /** Makes the bit at the given position. */
 template<typename T> T make_bit(int pos) { return T(1) << pos; }
 /** Makes `cnt` ones in a row. */
-template<typename T> T make_ones(int cnt) { return make_bit<T>(cnt) - 1; }
+template<typename T> T make_ones(int cnt) { return (cnt < bit_size<T>::value) ? T(make_bit<T>(cnt) - 1) : T(~T(0)); }
 /** Gets the bit at the given position. */
 template<typename T> T get_bit(T val, int pos) { return (val >> pos) & 1; }
 /** Sets the bit at the given position. */
@@ -227,6 +227,7 @@ I sign_mag(I x) {
  */
 template<typename I>
 bool next_combination(I& x, int size) {
+    if (x == 0) return false;
     I v = (x + lo_bit(x)) & make_ones<I>(size);
     I w = (v ^ x) >> tzc(x);
     I y = (v | (w >> 2));
-- 
2.43.0


From 767d060127bf69c7de4c2c46b38560c849ac65f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:12 +0000
Subject: [PATCH 10/62] fix: modulo: signed addition overflowed and normalizing
 the lowest signed value did not terminate

---
 include/altruct/structure/math/modulo.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/altruct/structure/math/modulo.h b/include/altruct/structure/math/modulo.h
index bd6d54d..ca445cd 100644
--- a/include/altruct/structure/math/modulo.h
+++ b/include/altruct/structure/math/modulo.h
@@ -53,9 +53,10 @@ U modulo_add_uint(U x, U y, U M) { // y = M is allowed
 }
 template<typename S>
 S modulo_add_int(S x, S y, S M) { // y = M is allowed
-    // TODO: use add_overflow when MSVC adds intrinsics
-    S r = x + y; bool of = (r < 0);
-    return (!of && r < M) ? r : (r - M);
+    // no overflow in the unsigned counterpart, as both `x` and `y` fit in `S`
+    using U = typename std::make_unsigned<S>::type;
+    U r = U(x) + U(y);
+    return S((r < U(M)) ? r : U(r - U(M)));
 }
 template<typename U, typename std::enable_if_t<std::is_unsigned<U>::value, bool> = true>
 U modulo_add(U x, U y, U M) { return modulo_add_uint(x, y, M); }
@@ -132,8 +133,9 @@ I modulo_normalize(U v, I M) {
 }
 template<typename S, typename I, typename std::enable_if_t<std::is_signed<S>::value && std::is_integral<I>::value, bool> = true>
 I modulo_normalize(S v, I M) {
-    if (v < 0) return modulo_neg_int(modulo_normalize(-v, M), M);
-    return modulo_normalize(static_cast<typename std::make_unsigned<S>::type>(v), M);
+    using U = typename std::make_unsigned<S>::type; // `-v` would overflow for the lowest `S`
+    if (v < 0) return modulo_neg_int(modulo_normalize(static_cast<U>(U(0) - static_cast<U>(v)), M), M);
+    return modulo_normalize(static_cast<U>(v), M);
 }
 
 
-- 
2.43.0


From 183c2784bf7b72d79598d17a3b31178ebc255be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:39 +0000
Subject: [PATCH 11/62] fix: series::shift by more than N places and pow of a
 series with zero constant term

---
 include/altruct/structure/math/series.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/series.h b/include/altruct/structure/math/series.h
index 19aff45..e2ae978 100644
--- a/include/altruct/structure/math/series.h
+++ b/include/altruct/structure/math/series.h
@@ -140,6 +140,7 @@ public:
 
     // s(x)*x^l - shifts coefficients of s(x) by l places
     series shift(int l) const {
+        l = std::max(-this->N(), std::min(l, this->N())); // everything is shifted out
         if (l < 0) {
             polynom<T> t(p.c.begin() - l, p.c.end());
             t.c.insert(t.c.end(), -l, p.ZERO_COEFF);
@@ -324,7 +325,8 @@ public:
             return powT(*this, a);
         } else if (p[0] == p.ZERO_COEFF) {
             int l = p.lowest();
-            return shift(-p.lowest()).pow(a).shift(p.lowest() * int(a));
+            if (a > 0 && (p[l] == p.ZERO_COEFF || a > (this->N() - 1) / l)) return zeroOf(*this);
+            return shift(-l).pow(a).shift(l * int(a));
         } else if (p[0] == id_coeff()) {
             return (ln() * castOf(p[0], a)).exp();
         } else {
-- 
2.43.0


From e598b6fde25c51d3e347995c40df80982791b290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:46 +0000
Subject: [PATCH 12/62] fix: matrix::gauss lost rank when a column has no pivot

---
 include/altruct/structure/math/matrix.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/altruct/structure/math/matrix.h b/include/altruct/structure/math/matrix.h
index 0743e1d..966a01d 100644
--- a/include/altruct/structure/math/matrix.h
+++ b/include/altruct/structure/math/matrix.h
@@ -175,26 +175,26 @@ public:
                 det = e0;
                 continue;
             }
-            rank++;
+            const int r = rank++; // the pivot row
             // rows transposition
-            if (i != j) {
-                std::swap(mat.a[i], mat.a[j]);
-                std::swap(inv.a[i], inv.a[j]);
+            if (i != r) {
+                std::swap(mat.a[i], mat.a[r]);
+                std::swap(inv.a[i], inv.a[r]);
                 det = -det;
             }
             // normalize row
-            T pi = e1 / mat.a[j][j];
-            det *= mat.a[j][j];
+            T pi = e1 / mat.a[r][j];
+            det *= mat.a[r][j];
             for (k = 0; k < n; k++) {
-                mat.a[j][k] *= pi;
-                inv.a[j][k] *= pi;
+                mat.a[r][k] *= pi;
+                inv.a[r][k] *= pi;
             }
             // eliminate below
             for (i = rank; i < n; i++) {
                 T p = mat.a[i][j]; if (p == e0) continue;
                 for (k = 0; k < n; k++) {
-                    mat.a[i][k] -= mat.a[j][k] * p;
-                    inv.a[i][k] -= inv.a[j][k] * p;
+                    mat.a[i][k] -= mat.a[r][k] * p;
+                    inv.a[i][k] -= inv.a[r][k] * p;
                 }
             }
         }
-- 
2.43.0


From 655b736661a6afddfebcfe806058017515f5ff7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:11 +0000
Subject: [PATCH 13/62] fix: ranges: inverses of an empty range wrote to its
 end

---
 include/altruct/algorithm/math/ranges.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/altruct/algorithm/math/ranges.h b/include/altruct/algorithm/math/ranges.h
index c0937be..b176e94 100644
--- a/include/altruct/algorithm/math/ranges.h
+++ b/include/altruct/algorithm/math/ranges.h
@@ -98,6 +98,7 @@ std::vector<T> make_inv_factorials(size_t n, T fact_k = T(1), size_t k = 1) {
  */
 template<typename It, typename T = typename std::iterator_traits<It>::value_type>
 void inverses_from_ifact(It begin, It end, T id = T(1)) {
+    if (begin == end) return;
     T fact = id, i = id;
     *begin = zeroOf(id);
     for (It it = ++begin; it != end; ++it) {
-- 
2.43.0


From 95b7ca7c32bbc6b2ac92d2cc3f210a8652c9ce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:03 +0000
Subject: [PATCH 14/62] fix: divisor_sums: multiplicative Dirichlet divisions
 ignored g(1)

---
 include/altruct/algorithm/math/divisor_sums.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/divisor_sums.h b/include/altruct/algorithm/math/divisor_sums.h
index a93a1a2..9e90a6c 100644
--- a/include/altruct/algorithm/math/divisor_sums.h
+++ b/include/altruct/algorithm/math/divisor_sums.h
@@ -218,6 +218,7 @@ void dirichlet_division_multiplicative(TBL& h, F1 f, F2 g, int n, int* pa, int m
     for (int i = 1; i < n; i++) {
         h[i] = e1;
     }
+    auto ig1 = e1 / castOf(e1, g(1));
     int q[32]; T gq[32], hq[32];
     for (int i = 0; i < m && pa[i] < n; i++) {
         int m = 0;
@@ -231,6 +232,7 @@ void dirichlet_division_multiplicative(TBL& h, F1 f, F2 g, int n, int* pa, int m
             for (int j = 0; j < k; j++) {
                 hq[k] -= gq[k - j] * hq[j];
             }
+            hq[k] *= ig1;
             h[q[k]] = hq[k];
         }
     }
@@ -330,11 +332,12 @@ void dirichlet_convolution_completely_multiplicative(TBL& h, F1 f, F2 g, int n,
 template<typename F1, typename F2, typename TBL>
 void dirichlet_division_completely_multiplicative(TBL& h, F1 f, F2 g, int n, int* pf) {
     auto e1 = identityOf(castOf(h[0], f(1))); // TODO: pass via argument?
+    auto ig1 = e1 / castOf(e1, g(1));
     for (int i = 1; i < n; i++) {
         h[i] = e1;
     }
     for (int p = 2; p < n; p++) {
-        if (pf[p] == p) h[p] = castOf(e1, f(p)) - castOf(e1, g(p));
+        if (pf[p] == p) h[p] = (castOf(e1, f(p)) - castOf(e1, g(p))) * ig1;
     }
     calc_completely_multiplicative(h, n, pf);
 }
-- 
2.43.0


From e786c880f72490518c30b57793d85e2f90c52e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:03 +0000
Subject: [PATCH 15/62] fix: divisor_sums: sum_multiplicative read before the
 prime table and missed p^3 when no prime lies between the cube and square
 root

---
 include/altruct/algorithm/math/divisor_sums.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/altruct/algorithm/math/divisor_sums.h b/include/altruct/algorithm/math/divisor_sums.h
index 9e90a6c..42f8d15 100644
--- a/include/altruct/algorithm/math/divisor_sums.h
+++ b/include/altruct/algorithm/math/divisor_sums.h
@@ -967,7 +967,7 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
     int c = icbrt(n);   // n^(1/3)
     int d = c;          // ~ n^(1/3)
     int64_t nd = n / d; // ~ n^(2/3)
-    int h = int(nd / pa1[psz]) + 1; // h <= n^(1/6)
+    int h = (psz > 0 ? int(nd / pa1[psz]) : 0) + 1; // h <= n^(1/6)
     int nq = int(n / (q + 1));      // ~ n^(1/2)
     int tsz = q + 1 + nq;           // ~ n^(1/2) * 2
 
@@ -987,8 +987,8 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
 
     // step 2: calculate F_k for k = pi(n^(1/3)) + 1; O(n^(2/3) / log(n))
     {
-        int k; for (k = 1; k < psz && pa1[k] <= c; k++);
-        int p_k = pa1[k];
+        int k; for (k = 1; k <= psz && pa1[k] <= c; k++);
+        int p_k = (k <= psz) ? pa1[k] : q + 1; // no more primes up to q
         int64_t p_k2 = isq(p_k);
         // m < p_k; only 1 is included in the sum
         F_k[0] = zero;
@@ -997,7 +997,7 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
         }
         // p_k <= m < p_k^2; also includes primes >= p_k in the sum
         T b = id - F_prime[p_k - 1];
-        for (int64_t m = pa1[k]; m <= q; m++) {
+        for (int64_t m = p_k; m <= q; m++) {
             F_k[m] = b + F_prime[m];
         }
         for (int i = nq; i >= 1; i--) {
@@ -1032,7 +1032,7 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
         for (int64_t m = 1; m <= q; m++) Ft.add(m, F_k[m]), Ft.add(m + 1, -F_k[m]);
         for (int i = nq; i > d; i--) Ft.add(tsz - i, F_k[n / i]), Ft.add(tsz - i + 1, -F_k[n / i]);
         // main loop
-        for (int k = last_k - 1; pa1[k] > h; k--) {
+        for (int k = last_k - 1; k >= 1 && pa1[k] > h; k--) {
             int p_k = pa1[k];
             // m >= nd; compute directly
             F_k1.swap(F_k);
-- 
2.43.0


From 01e320354d04b031d1e474138c79be2af5965f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:36 +0000
Subject: [PATCH 16/62] fix: divisor_sums: sieve_sqfree_count lost the element
 context at index 0

---
 include/altruct/algorithm/math/divisor_sums.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/divisor_sums.h b/include/altruct/algorithm/math/divisor_sums.h
index 42f8d15..eea8e33 100644
--- a/include/altruct/algorithm/math/divisor_sums.h
+++ b/include/altruct/algorithm/math/divisor_sums.h
@@ -620,7 +620,7 @@ T sum_m(F t, I n, TBL& tbl, T id) {
 template<typename T, typename TBL>
 void sieve_sqfree_count(TBL& sqfc, int n, const int* pa, int m, T id = T(1)) {
     auto e0 = zeroOf(id);
-    sqfc[0] = 0;
+    sqfc[0] = e0;
     for (int i = 1; i < n; i++) {
         sqfc[i] = id;
     }
-- 
2.43.0


From 9a0ae3292fdae09d143070ecb3260a68e8f05e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:16 +0000
Subject: [PATCH 17/62] fix: sums: sum_pow kept the Bernoulli numbers of the
 first element context for all later calls

---
 include/altruct/algorithm/math/sums.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/altruct/algorithm/math/sums.h b/include/altruct/algorithm/math/sums.h
index 187ac4e..eadccf2 100644
--- a/include/altruct/algorithm/math/sums.h
+++ b/include/altruct/algorithm/math/sums.h
@@ -85,12 +85,8 @@ T sum_pow(int p, I N, const std::vector<T>& B) {
  */
 template<typename T, typename I>
 T sum_pow(int p, I n, T id = T(1)) {
-    static std::vector<T> B;
-    if (B.size() < p + 1) {
-        int sz = (int)(B.size() + B.size() / 2);
-        B = bernoulli_b<T>(std::max(p, sz), id);
-    }
-    return sum_pow(p, n, B);
+    // no table kept across calls: it would hold the context (e.g. modulus) of the first one
+    return sum_pow(p, n, (p > 3) ? bernoulli_b<T>(p, id) : std::vector<T>{ id });
 }
 
 /**
-- 
2.43.0


From 818367338c442f7f88044faf3ee95d2f97396de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:16 +0000
Subject: [PATCH 18/62] fix: recurrence: berlekamp_massey used zero
 coefficients without element context and did not terminate for run-time
 moduli

---
 include/altruct/algorithm/math/recurrence.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/recurrence.h b/include/altruct/algorithm/math/recurrence.h
index 5275f0c..c158088 100644
--- a/include/altruct/algorithm/math/recurrence.h
+++ b/include/altruct/algorithm/math/recurrence.h
@@ -144,8 +144,9 @@ polynom<T> berlekamp_massey_poly(const std::vector<A>& a, T id = T(1)) {
     T e0 = zeroOf(id), e1 = identityOf(id);
     int n = (int)a.size() / 2;
     int m = 2 * n - 1;
-    polynom<A> R, R0, R1;
-    polynom<T> V, V0, V1, Q;
+    A a0 = zeroOf(a[0]); // zero coefficients must have the context of the elements
+    polynom<A> R{ a0 }, R0{ a0 }, R1{ a0 };
+    polynom<T> V{ e0 }, V0{ e0 }, V1{ e0 }, Q{ e0 };
     R0[m + 1] = identityOf(a[0]);
     for (int i = 0; i <= m; i++) {
         R1[i] = a[m - i];
-- 
2.43.0


From ef055fa4ab0ac3dd28a527eba432830ca29542b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:03 +0000
Subject: [PATCH 19/62] fix: binary_search_tree::clear frees every node, and
 never the nil node

---
 include/altruct/structure/container/binary_search_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/container/binary_search_tree.h b/include/altruct/structure/container/binary_search_tree.h
index f714a76..e5af415 100644
--- a/include/altruct/structure/container/binary_search_tree.h
+++ b/include/altruct/structure/container/binary_search_tree.h
@@ -335,7 +335,7 @@ public: // constructor & size
     }
 
     void clear() {
-        _free(root_ptr());
+        _free_all(root_ptr());
         nil->left = nil;
         nil->right = nil;
     }
-- 
2.43.0


From ae698ff1d93675978aee82fc98aa1fbc339eb487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:03 +0000
Subject: [PATCH 20/62] fix: treap and lazy_treap never rotate a node above the
 nil node when a priority is negative

---
 include/altruct/structure/container/lazy_treap.h | 2 +-
 include/altruct/structure/container/treap.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/container/lazy_treap.h b/include/altruct/structure/container/lazy_treap.h
index 2769297..db6844a 100644
--- a/include/altruct/structure/container/lazy_treap.h
+++ b/include/altruct/structure/container/lazy_treap.h
@@ -361,7 +361,7 @@ protected: // balancing
         auto it = remove_const(_it).it;
         if (it == tree.end()) return it;
         it.balance() = rnd();
-        while (it.balance() < it.parent().balance()) {
+        while (it.parent() != tree.end() && it.balance() < it.parent().balance()) {
             if (it.parent().left() == it) {
                 tree.rotate_right(it.parent());
             } else {
diff --git a/include/altruct/structure/container/treap.h b/include/altruct/structure/container/treap.h
index 954ac88..fdffe8f 100644
--- a/include/altruct/structure/container/treap.h
+++ b/include/altruct/structure/container/treap.h
@@ -266,7 +266,7 @@ protected:
     typename bst_t::iterator retrace_up(typename bst_t::iterator it) {
         if (it == tree.end()) return it;
         it.balance() = rnd();
-        while (it.balance() < it.parent().balance()) {
+        while (it.parent() != tree.end() && it.balance() < it.parent().balance()) {
             if (it.parent().left() == it) {
                 tree.rotate_right(it.parent());
             } else {
-- 
2.43.0


From f9805ca7b332310b31a47fa39cf25636b709ce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:07 +0000
Subject: [PATCH 21/62] fix: lazy_treap keeps the aggregates of rotated nodes,
 swaps its functors, and get() compiles

---
 include/altruct/structure/container/lazy_treap.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/altruct/structure/container/lazy_treap.h b/include/altruct/structure/container/lazy_treap.h
index db6844a..22242ea 100644
--- a/include/altruct/structure/container/lazy_treap.h
+++ b/include/altruct/structure/container/lazy_treap.h
@@ -154,6 +154,9 @@ public:
     void swap(lazy_treap& rhs) {
         tree.swap(rhs.tree);
         std::swap(rnd, rhs.rnd);
+        std::swap(f_up, rhs.f_up);
+        std::swap(f_down, rhs.f_down);
+        std::swap(id, rhs.id);
     }
 
     void clear() {
@@ -301,7 +304,7 @@ public: // query & update
         }
         T re = id;
         for (bool was_right = true; e != a; e = e.parent()) {
-            if (was_right) dummy = re, re = *e, f_up(re, _val_or_id(e.left(), dummy)); // aggregate e and its left child
+            if (was_right) dummy = re, re = *e, f_up(re, _val_or_id(e.left()), dummy); // aggregate e and its left child
             was_right = (e == e.parent().right());
         }
         T r = *a; f_up(r, rb, re); // aggregate a
@@ -362,11 +365,14 @@ protected: // balancing
         if (it == tree.end()) return it;
         it.balance() = rnd();
         while (it.parent() != tree.end() && it.balance() < it.parent().balance()) {
-            if (it.parent().left() == it) {
-                tree.rotate_right(it.parent());
+            auto par = it.parent();
+            if (par.left() == it) {
+                tree.rotate_right(par);
             } else {
-                tree.rotate_left(it.parent());
+                tree.rotate_left(par);
             }
+            // the rotation has changed the children of the old parent
+            f_up(*par, _val_or_id(par.left()), _val_or_id(par.right()));
         }
         return it;
     }
-- 
2.43.0


From 4552d578b4ef2122ca5ad4e044472d25957dd44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:21 +0000
Subject: [PATCH 22/62] fix: prim_spanning_tree re-parented nodes that were
 already in the tree (cycle instead of a tree)

---
 .../include/altruct/algorithm/graph/prim_spanning_tree.h      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h b/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
index 0b2853b..898b3b9 100644
--- a/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
+++ b/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
@@ -24,14 +24,16 @@ template<typename E, typename W>
 std::vector<E> prim_spanning_tree(const graph<E>& g, int root, W inf) {
     std::vector<E> res(g.size(), { -1, inf });
     res[root] = { root, 0 };
+    std::vector<bool> in_tree(g.size(), false);
     std::set<std::pair<W, int>> q{ { 0, root } };
     while (!q.empty()) {
         int u = q.begin()->second;
         q.erase(q.begin());
+        in_tree[u] = true;
         for (const auto& e : g[u]) {
             int v = e.v;
             auto d_new = e.w;
-            if (d_new < res[v].w && res[u].v != v) {
+            if (!in_tree[v] && d_new < res[v].w) {
                 q.erase({ res[v].w, v });
                 res[v] = { u, d_new };
                 q.insert({ res[v].w, v });
-- 
2.43.0


From 584c01495dfe8684a615bfa58f7af72195ba27ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:53 +0000
Subject: [PATCH 23/62] fix: heavy_light_decomposition exchanged the targets of
 two edges but not their weights

---
 .../include/altruct/algorithm/graph/heavy_light_decomposition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h b/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
index 6ea2c31..089127c 100644
--- a/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
+++ b/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
@@ -58,7 +58,7 @@ public:
                     heavy_i = i, heavy_size = sizes[v];
                 }
             }
-            std::swap(g[u][0].v, g[u][heavy_i].v);
+            std::swap(g[u][0], g[u][heavy_i]);
         }
         int pos = 0, par = -2;
         iterative_dfs(g, [&](int root, int parent, int node, int depth) {
-- 
2.43.0


From 0271a379f13ab8d9f7d9c9446f542544aab75cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:53 +0000
Subject: [PATCH 24/62] fix: heavy_light_decomposition_ex::parent(u) was
 ambiguous

---
 .../include/altruct/algorithm/graph/heavy_light_decomposition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h b/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
index 089127c..44ce448 100644
--- a/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
+++ b/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
@@ -119,7 +119,7 @@ public:
 
     // `k-th` parent (ancestor) of `u`;
     // -1 if `u` has less than `k` ancestors
-    int parent(int u, int k = 1) {
+    int parent(int u, int k) {
         if (k < 0 || k > lca.depth(u)) return -1;
         int d = lca.depth(u) - k;
         while (true) {
-- 
2.43.0


From 61606b3a035e786ccc2fb66c7243fc3eefc1e6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:53 +0000
Subject: [PATCH 25/62] fix: hungarian used max and min without std

---
 experimental/include/altruct/algorithm/graph/hungarian.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/include/altruct/algorithm/graph/hungarian.h b/experimental/include/altruct/algorithm/graph/hungarian.h
index 54e2136..d9fd7b0 100644
--- a/experimental/include/altruct/algorithm/graph/hungarian.h
+++ b/experimental/include/altruct/algorithm/graph/hungarian.h
@@ -114,7 +114,7 @@ private:
         for (x = 0; x < n; x++) {
             lx[x] = cost(x, 0);
             for (y = 0; y < n; y++) {
-                lx[x] = max(lx[x], cost(x, y));
+                lx[x] = std::max(lx[x], cost(x, y));
             }
         }
 
@@ -158,7 +158,7 @@ private:
                 for (y = 0; y < n; y++)                              // initial delta (instead of INF)
                     if (!T[y]) { delta = slack[y]; break; }
                 for (y = 0; y < n; y++)                              // calculate delta using slack
-                    if (!T[y]) delta = min(delta, slack[y]);
+                    if (!T[y]) delta = std::min(delta, slack[y]);
                 for (y = 0; y < n; y++)                              // update slack array
                     if (!T[y]) slack[y] -= delta;
                 for (x = 0; x < n; x++)                              // update X labels
-- 
2.43.0


From 8ae1543561933d665f938656121f6135d15d56be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:44 +0000
Subject: [PATCH 26/62] fix: bipartite_matching selected both copies of a
 repeated edge

---
 .../include/altruct/algorithm/graph/bipartite_matching.h        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/algorithm/graph/bipartite_matching.h b/experimental/include/altruct/algorithm/graph/bipartite_matching.h
index c0c51da..4de7d42 100644
--- a/experimental/include/altruct/algorithm/graph/bipartite_matching.h
+++ b/experimental/include/altruct/algorithm/graph/bipartite_matching.h
@@ -29,7 +29,7 @@ std::vector<E> bipartite_matching(int nodes, const std::vector<E>& edges) {
     d.calc_max_flow(src, sink);
     std::vector<E> selected;
     for (const auto& e : edges) {
-        if (d.flow[e.u][e.v]) selected.push_back(e);
+        if (d.flow[e.u][e.v] > 0) selected.push_back(e), d.flow[e.u][e.v] = 0;
     }
     return selected;
 }
-- 
2.43.0


From db983da7a9d9b743d20c5ec4f74ec3bebef54a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:37 +0000
Subject: [PATCH 27/62] fix: suffix_array no longer reads past the end of the
 text, nor the maximum of an empty range

---
 .../include/altruct/structure/container/suffix_array.h      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experimental/include/altruct/structure/container/suffix_array.h b/experimental/include/altruct/structure/container/suffix_array.h
index da69bfc..fb9e6aa 100644
--- a/experimental/include/altruct/structure/container/suffix_array.h
+++ b/experimental/include/altruct/structure/container/suffix_array.h
@@ -45,8 +45,8 @@ private:
 
     template<typename It>
     void build_suffix_array(It begin, It end) {
-        alpha_t max_elem = *std::max_element(begin, end);
-        build_suffix_array(begin, end, (index_t)max_elem + 1);
+        index_t alpha_size = (begin == end) ? 0 : (index_t)*std::max_element(begin, end) + 1;
+        build_suffix_array(begin, end, alpha_size);
     }
 
     template<typename It>
@@ -108,7 +108,7 @@ private:
                 diff = true;
             } else {
                 for (index_t j = pos, k = prev_pos;; j++, k++) {
-                    if (str[j] != str[k] || types[j] != types[k]) {
+                    if (j == n || k == n || str[j] != str[k] || types[j] != types[k]) {
                         diff = true;
                         break;
                     } else if (j != pos && ((types[j] && !types[j - 1]) || (types[k] && !types[k - 1]))) {
-- 
2.43.0


From ea5983c11a5949da529a374248e12a30aa1b56d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:37 +0000
Subject: [PATCH 28/62] fix: palindrome_tree::add_all accepts pointers

---
 .../include/altruct/structure/container/palindrome_tree.h       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/structure/container/palindrome_tree.h b/experimental/include/altruct/structure/container/palindrome_tree.h
index 8dea23a..42fbf0d 100644
--- a/experimental/include/altruct/structure/container/palindrome_tree.h
+++ b/experimental/include/altruct/structure/container/palindrome_tree.h
@@ -63,7 +63,7 @@ public:
 
     template<typename It, typename F>
     index_t add_all(It begin, It end, F ordinal) {
-        auto len = distance(begin, end);
+        auto len = std::distance(begin, end);
         collections::reserve_more(_string, len);
         collections::reserve_more(_nodes, len);
         index_t c = 0;
-- 
2.43.0


From ad75e5e1b63d5472b43b8f10f55028342b35d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:06 +0000
Subject: [PATCH 29/62] fix: prefix_tree copies shared and freed the same nodes
 twice

---
 .../include/altruct/structure/container/prefix_tree.h        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/experimental/include/altruct/structure/container/prefix_tree.h b/experimental/include/altruct/structure/container/prefix_tree.h
index bd748a3..a33858f 100644
--- a/experimental/include/altruct/structure/container/prefix_tree.h
+++ b/experimental/include/altruct/structure/container/prefix_tree.h
@@ -3,6 +3,8 @@
 #include "altruct/algorithm/collections/collections.h"
 
 #include <stdint.h>
+#include <memory>
+#include <string>
 #include <vector>
 #include <iterator>
 #include <functional>
@@ -52,6 +54,9 @@ public:
         _init();
     }
 
+    prefix_tree(const prefix_tree&) = delete;
+    prefix_tree& operator= (const prefix_tree&) = delete;
+
     ~prefix_tree() {
         words.clear();
         _free_all(root);
-- 
2.43.0


From cc9b7d89762308a2f3aa7dff4bfc6026380d097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:06 +0000
Subject: [PATCH 30/62] fix: lohi_map::at found absent low keys, erased values
 came back

---
 include/altruct/structure/container/lohi_map.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/altruct/structure/container/lohi_map.h b/include/altruct/structure/container/lohi_map.h
index c989713..2a97554 100644
--- a/include/altruct/structure/container/lohi_map.h
+++ b/include/altruct/structure/container/lohi_map.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <stdexcept>
 #include <vector>
 #include <unordered_map>
 
@@ -23,7 +24,16 @@ class lohi_map {
     std::vector<T> tbl_lo;
     std::unordered_map<I, T> tbl_hi;
 
-    int get_and_set(int& cnt, int new_cnt) { int prev_cnt = cnt; cnt = new_cnt; return prev_cnt; }
+    int erase_lo(const I& k) {
+        if (!cnt_lo[k]) return 0;
+        cnt_lo[k] = 0;
+        tbl_lo[k] = T();
+        return 1;
+    }
+
+    void check_lo(const I& k) const {
+        if (!cnt_lo.at(k)) throw std::out_of_range("invalid lohi_map<I, T> key");
+    }
 
 public:
     typedef I key_type;
@@ -40,11 +50,11 @@ public:
     }
 
     const T& at(const I& k) const {
-        return (k <= max_lo_key) ? tbl_lo.at(k) : tbl_hi.at(k);
+        return (k <= max_lo_key) ? (check_lo(k), tbl_lo[k]) : tbl_hi.at(k);
     }
 
     T& at(const I& k) {
-        return (k <= max_lo_key) ? tbl_lo.at(k) : tbl_hi.at(k);
+        return (k <= max_lo_key) ? (check_lo(k), tbl_lo[k]) : tbl_hi.at(k);
     }
 
     T& operator [] (const I& k) {
@@ -65,7 +75,7 @@ public:
     }
 
     int erase(const I& k) {
-        return (k <= max_lo_key) ? get_and_set(cnt_lo[k], 0) : (int)tbl_hi.erase(k);
+        return (k <= max_lo_key) ? erase_lo(k) : (int)tbl_hi.erase(k);
     }
 };
 
-- 
2.43.0


From a6c645c8650b6fe11a9b5849fefebd9d880202a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:06 +0000
Subject: [PATCH 31/62] fix: sqrt_map kept erased and reset values, max_key was
 uninitialised

---
 include/altruct/structure/container/sqrt_map.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/altruct/structure/container/sqrt_map.h b/include/altruct/structure/container/sqrt_map.h
index dc85e06..bd1a2c7 100644
--- a/include/altruct/structure/container/sqrt_map.h
+++ b/include/altruct/structure/container/sqrt_map.h
@@ -27,7 +27,12 @@ class sqrt_map {
     std::vector<T> tbl_hi;
 
 
-    int get_and_set(char& cnt, char new_cnt) { int prev_cnt = cnt; cnt = new_cnt; return prev_cnt; }
+    int erase_at(char& cnt, T& val) {
+        if (!cnt) return 0;
+        cnt = 0;
+        val = T();
+        return 1;
+    }
 
     void throw_oor() const {
         throw std::out_of_range("invalid sqrt_map<I, T> key");
@@ -44,7 +49,7 @@ public:
     }
 
     sqrt_map(I max_lo_key) :
-        max_lo_key(max_lo_key),
+        max_lo_key(max_lo_key), max_key(0),
         cnt_lo(max_lo_key + 1, 0),
         tbl_lo(max_lo_key + 1) {}
 
@@ -60,7 +65,7 @@ public:
     void reset_max(I max_key = 0) {
         this->max_key = max_key;
         cnt_hi.assign(max_key / max_lo_key + 1, 0);
-        tbl_hi.resize(max_key / max_lo_key + 1);
+        tbl_hi.assign(max_key / max_lo_key + 1, T());
     }
 
     int count(const I& k) const {
@@ -160,7 +165,7 @@ public:
     }
 
     int erase(const I& k) {
-        return (k <= max_lo_key) ? get_and_set(cnt_lo[k], 0) : get_and_set(cnt_hi[max_key / k], 0);
+        return (k <= max_lo_key) ? erase_at(cnt_lo[k], tbl_lo[k]) : erase_at(cnt_hi[max_key / k], tbl_hi[max_key / k]);
     }
 };
 
-- 
2.43.0


From feef824ed24fa2d051d17c83d35a2cfbef773f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:06 +0000
Subject: [PATCH 32/62] fix: direct_rmq copies pointed into the original,
 size() counted padding

---
 .../structure/container/range_minimum_query.h | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/experimental/include/altruct/structure/container/range_minimum_query.h b/experimental/include/altruct/structure/container/range_minimum_query.h
index 15abb68..a51890a 100644
--- a/experimental/include/altruct/structure/container/range_minimum_query.h
+++ b/experimental/include/altruct/structure/container/range_minimum_query.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <algorithm>
+#include <cstdint>
 #include <vector>
 #include <iterator>
 #include <functional>
@@ -48,13 +50,13 @@ public:
         small_index_t idx[BLOCK_SIZE][BLOCK_SIZE];
     };
 
-    direct_rmq(compare_t comp = compare_t()) : comp(comp) {
+    direct_rmq(compare_t comp = compare_t()) : comp(comp), len(0), blocks(0) {
         calc_ballot_numbers();
     }
 
     template<typename It>
     void build(It begin, It end) {
-        index_t len = (index_t)std::distance(begin, end);
+        len = (index_t)std::distance(begin, end);
         blocks = (len + BLOCK_SIZE - 1) / BLOCK_SIZE;
         _array.assign(begin, end);
         _array.resize(blocks * BLOCK_SIZE);
@@ -69,35 +71,40 @@ public:
     index_t get_index(index_t begin, index_t end) const {
         index_t l = begin, r = end - 1;
         index_t x = l / BLOCK_SIZE, y = r / BLOCK_SIZE, z = y - x;
-        if (z == 0) return x * BLOCK_SIZE + _block_tree[x]->idx[l % BLOCK_SIZE][r % BLOCK_SIZE];
+        if (z == 0) return x * BLOCK_SIZE + block_tree(x).idx[l % BLOCK_SIZE][r % BLOCK_SIZE];
         if (z == 1) return min_index(
-            x * BLOCK_SIZE + _block_tree[x]->idx[l % BLOCK_SIZE][BLOCK_SIZE - 1],
-            y * BLOCK_SIZE + _block_tree[y]->idx[0][r % BLOCK_SIZE]);
+            x * BLOCK_SIZE + block_tree(x).idx[l % BLOCK_SIZE][BLOCK_SIZE - 1],
+            y * BLOCK_SIZE + block_tree(y).idx[0][r % BLOCK_SIZE]);
         int k = log2_32(z - 2);
         return min_index(
             min_index(
-                x * BLOCK_SIZE + _block_tree[x]->idx[l % BLOCK_SIZE][BLOCK_SIZE - 1],
+                x * BLOCK_SIZE + block_tree(x).idx[l % BLOCK_SIZE][BLOCK_SIZE - 1],
                 _sparse_table[x + 1 + blocks * k]
             ),
             min_index(
                 _sparse_table[y + blocks * k - (1 << k)],
-                y * BLOCK_SIZE + _block_tree[y]->idx[0][r % BLOCK_SIZE]
+                y * BLOCK_SIZE + block_tree(y).idx[0][r % BLOCK_SIZE]
             ));
     }
 
-    index_t size() {
-        return (index_t)_array.size();
+    index_t size() const {
+        return len;
     }
 
 private:
     compare_t comp;
+    index_t len;
     index_t blocks;
     std::vector<value_t> _array;
     std::vector<tree_t> _trees;
-    std::vector<tree_t*> _block_tree;
+    std::vector<int> _block_tree; // indices into `_trees`, so that copies are independent
     std::vector<index_t> _sparse_table;
     int _ballot[BLOCK_SIZE + 1][BLOCK_SIZE + 1];
 
+    const tree_t& block_tree(index_t i) const {
+        return _trees[_block_tree[i]];
+    }
+
     void build_block_trees() {
         value_t rp[BLOCK_SIZE + 1];
         _trees.resize(_ballot[BLOCK_SIZE][BLOCK_SIZE]);
@@ -116,9 +123,9 @@ private:
                 }
                 rp[q + j - BLOCK_SIZE + 1] = p[j];
             }
-            _block_tree[i] = &_trees[N];
+            _block_tree[i] = N;
             // populate tree
-            tree_t* table = _block_tree[i];
+            tree_t* table = &_trees[N];
             if (table->idx[0][0] != -1) continue;
             for (int left = 0; left < BLOCK_SIZE; left++) {
                 int min_idx = left;
@@ -138,7 +145,7 @@ private:
         if (height == 0) return;
         index_t *b = _sparse_table.data();
         for (index_t i = 0; i < blocks; i++) {
-            b[i] = i * BLOCK_SIZE + _block_tree[i]->idx[0][BLOCK_SIZE - 1];
+            b[i] = i * BLOCK_SIZE + block_tree(i).idx[0][BLOCK_SIZE - 1];
         }
         for (index_t t = 1; t * 2 < blocks; t *= 2) {
             std::copy(b, b + blocks, b + blocks);
-- 
2.43.0


From 91aadbbd90e20cf6df26720dcb2e69916525581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:25 +0000
Subject: [PATCH 33/62] fix: link_cut_tree copies shared and freed the same
 nodes twice

---
 include/altruct/structure/container/link_cut_tree.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/altruct/structure/container/link_cut_tree.h b/include/altruct/structure/container/link_cut_tree.h
index 941024e..6f2fea0 100644
--- a/include/altruct/structure/container/link_cut_tree.h
+++ b/include/altruct/structure/container/link_cut_tree.h
@@ -68,6 +68,9 @@ class link_cut_tree {
     std::vector<node_ptr> nodes;
 
 public: // constructor / destructor
+    link_cut_tree(const link_cut_tree&) = delete;
+    link_cut_tree& operator= (const link_cut_tree&) = delete;
+
     ~link_cut_tree() {
         _destroy();
     }
-- 
2.43.0


From cd629e92aad28833419d68eff9d0f8f57c2e21d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:25 +0000
Subject: [PATCH 34/62] fix: bounded_contiguous_allocator copies shared and
 freed the same pool

---
 .../container/bounded_contiguous_allocator.h          | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/altruct/structure/container/bounded_contiguous_allocator.h b/include/altruct/structure/container/bounded_contiguous_allocator.h
index 89206cf..f9863c3 100644
--- a/include/altruct/structure/container/bounded_contiguous_allocator.h
+++ b/include/altruct/structure/container/bounded_contiguous_allocator.h
@@ -35,6 +35,17 @@ struct bounded_contiguous_allocator {
         clear();
     }
 
+    bounded_contiguous_allocator(const bounded_contiguous_allocator& allocator) NOEXCEPT
+        : bounded_contiguous_allocator(allocator.capacity()) {
+    }
+
+    bounded_contiguous_allocator& operator= (const bounded_contiguous_allocator& allocator) NOEXCEPT{
+        if (this == &allocator) return *this;
+        clear();
+        available_ = capacity_ = allocator.capacity();
+        return *this;
+    }
+
     template <class U>
     bounded_contiguous_allocator(const bounded_contiguous_allocator<U>& allocator) NOEXCEPT
         : bounded_contiguous_allocator(allocator.capacity()) {
-- 
2.43.0


From 0578d715b2a11b22e286913d6357b9d296427688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:26 +0000
Subject: [PATCH 35/62] fix: bit_vector: left shift overwrote words it still
 had to read and left bits past the end, shifts by the size or more went out
 of bounds, v[i] = v[j] did nothing

---
 include/altruct/structure/container/bit_vector.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/altruct/structure/container/bit_vector.h b/include/altruct/structure/container/bit_vector.h
index e87fc01..0a4dafd 100644
--- a/include/altruct/structure/container/bit_vector.h
+++ b/include/altruct/structure/container/bit_vector.h
@@ -31,7 +31,9 @@ public:
         size_t pos;
         bit_vector* owner;
         bit_proxy(bit_vector* owner, size_t pos) : pos(pos), owner(owner) {}
-        operator int() { return owner->bit_at(pos); }
+        bit_proxy(const bit_proxy&) = default;
+        operator int() const { return owner->bit_at(pos); }
+        bit_proxy& operator = (const bit_proxy& that) { return *this = int(that); }
         bit_proxy& operator = (int val) { owner->set(pos, val & 1); return *this; }
         bit_proxy& operator ^= (int val) { if (val == 1) owner->set(pos, -1); return *this; }
         bit_proxy& operator |= (int val) { if (val == 1) owner->set(pos, 1); return *this; }
@@ -88,6 +90,7 @@ public:
     bit_vector& operator >>= (int cnt) {
         size_t wsz = words.size() - 1; // there is always one extra 0-word at the end
         size_t q = cnt / L; int r = cnt % L;
+        if (q > wsz) q = wsz;
         for (size_t i = 0; i < wsz - q; i++) {
             words[i] = word_at(i + q, r);
         }
@@ -100,13 +103,15 @@ public:
     bit_vector& operator <<= (int cnt) {
         size_t wsz = words.size() - 1; // there is always one extra 0-word at the end
         size_t q = cnt / L; int r = cnt % L;
-        for (size_t i = q + 1; i < wsz; i++) {
+        if (q > wsz) q = wsz;
+        for (size_t i = wsz; i-- > q + 1; ) { // backwards, lower words are still to be read
             words[i] = (r == 0) ? words[i - q] : ((words[i - q - 1] >> (L - r)) | (words[i - q] << r));
         }
-        words[q] = (words[0] << r); // words[-1] is considered to be 0
+        if (q < wsz) words[q] = (words[0] << r); // words[-1] is considered to be 0
         for (size_t i = 0; i < q; i++) {
             words[i] = W0;
         }
+        words[sz / L] &= first_bits(sz % L); // bits past the end are always 0
         return *this;
     }
 
@@ -203,7 +208,7 @@ public:
     // swaps the two ranges
     // result is undefined if the two ranges overlap
     bit_vector& swap(size_t begin1, size_t end1, size_t begin2, size_t end2) {
-        if (begin1 > begin2) return swap(begin2, end2, begin1, end1);
+        if (begin1 > begin2 || (begin1 == begin2 && end1 > end2)) return swap(begin2, end2, begin1, end1);
         reverse(begin1, end1); reverse(end1, begin2); reverse(begin2, end2); reverse(begin1, end2);
         return *this;
     }
-- 
2.43.0


From dcb9c93b2ac50a04d765961a154920ad0b71cfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:00 +0000
Subject: [PATCH 36/62] fix: double_int postfix increments, left shift and
 prim_int negation

---
 .../include/altruct/structure/math/double_int.h      | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/experimental/include/altruct/structure/math/double_int.h b/experimental/include/altruct/structure/math/double_int.h
index 4c685ed..649f612 100644
--- a/experimental/include/altruct/structure/math/double_int.h
+++ b/experimental/include/altruct/structure/math/double_int.h
@@ -78,8 +78,8 @@ public:
     // INCREMENT / DECREMENT
     double_int& operator ++ () { int carry = 1; return assign_adc(0, carry); }
     double_int& operator -- () { int borrow = 1;return assign_sbb(0, borrow); }
-    double_int operator ++ (int) { double_int r(*this); return ++r; }
-    double_int operator -- (int) { double_int r(*this); return --r; }
+    double_int operator ++ (int) { double_int r(*this); ++*this; return r; }
+    double_int operator -- (int) { double_int r(*this); --*this; return r; }
 
     // ADDITION / SUBTRACTION
     double_int& operator += (const double_int& rhs) { int carry = 0; return assign_adc(rhs, carry); }
@@ -181,7 +181,7 @@ public:
             lo = 0;
         } else if (cnt > 0) {
             hi <<= cnt;
-            hi |= double_int(lo).assign_unsigned_shr(T::type_bits - cnt);
+            hi |= T(lo).assign_unsigned_shr(T::type_bits - cnt);
             lo <<= cnt;
         }
         return *this;
@@ -365,7 +365,7 @@ public:
     prim_int operator | (const prim_int& rhs) const { return prim_int(v | rhs.v); }
     prim_int operator ^ (const prim_int& rhs) const { return prim_int(v ^ rhs.v); }
 
-    prim_int operator << (int cnt) const { return prim_int(v << cnt); }
+    prim_int operator << (int cnt) const { return prim_int(sT(uT(v) << cnt)); }
     prim_int operator >> (int cnt) const { return prim_int(v >> cnt); }
 
     prim_int& operator ++ () { ++v; return *this; } // ++prim_int
@@ -377,13 +377,13 @@ public:
     prim_int& operator /= (const prim_int& rhs) { v /= rhs.v; return *this; }
     prim_int& operator %= (const prim_int& rhs) { v %= rhs.v; return *this; }
 
-    prim_int& negate() { return prim_int(-v); }
+    prim_int& negate() { v = -v; return *this; }
 
     prim_int& operator &= (const prim_int& rhs) { v &= rhs.v; return *this; }
     prim_int& operator |= (const prim_int& rhs) { v |= rhs.v; return *this; }
     prim_int& operator ^= (const prim_int& rhs) { v ^= rhs.v; return *this; }
 
-    prim_int& operator <<= (int cnt) { v <<= cnt; return *this; }
+    prim_int& operator <<= (int cnt) { v = sT(uT(v) << cnt); return *this; }
     prim_int& operator >>= (int cnt) { v >>= cnt; return *this; }
 
     // UNSIGNED COMPARISON
-- 
2.43.0


From abe42a76d2a502acb4ca4cb30d8fe41d2980ace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:21 +0000
Subject: [PATCH 37/62] fix: readers return bytes as 0..255 and read the least
 integer without overflow

---
 include/altruct/io/reader.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/altruct/io/reader.h b/include/altruct/io/reader.h
index 190d3e5..265188c 100644
--- a/include/altruct/io/reader.h
+++ b/include/altruct/io/reader.h
@@ -2,9 +2,11 @@
 
 #include <cmath>
 #include <cstdio>
+#include <cstring>
 #include <string>
 #include <iostream>
 #include <algorithm>
+#include <type_traits>
 
 namespace altruct {
 namespace io {
@@ -108,7 +110,7 @@ public:
             read_failed = true;
             return -1;
         }
-        return in[pos++];
+        return (unsigned char)in[pos++];
     }
 
     size_t read(char* buffer, size_t count) override {
@@ -232,7 +234,7 @@ public:
             read_failed = true;
             return -1;
         }
-        return *ptr++;
+        return (unsigned char)*ptr++;
     }
 
     size_t read(char* buffer, size_t count) override {
@@ -268,7 +270,7 @@ public:
     std::string read_line(char delimiter = '\n') {
         std::string s;
         int c = read_char();
-        while (c != delimiter && c != -1) {
+        while (c != (unsigned char)delimiter && c != -1) {
             s.push_back((char)c);
             c = read_char();
         }
@@ -327,8 +329,10 @@ public:
     I read_integral_number() {
         skip_whitespaces();
         int s = read_sign();
-        I d = read_digits<I>();
-        return (s < 0) ? -d : d;
+        // accumulate as unsigned so that the minimum value doesn't overflow
+        typedef typename std::make_unsigned<I>::type U;
+        U d = read_digits<U>();
+        return I((s < 0) ? U(0) - d : d);
     }
 
     // Reads a single signed decimal floating-point number of type F.
-- 
2.43.0


From cab60ab5735ae2ec1c94b42c136b172d4f8d6497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:21 +0000
Subject: [PATCH 38/62] fix: simple_writer writes the least integer and keeps
 no shared digit buffer

---
 include/altruct/io/writer.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/altruct/io/writer.h b/include/altruct/io/writer.h
index 1766d93..9c472a1 100644
--- a/include/altruct/io/writer.h
+++ b/include/altruct/io/writer.h
@@ -2,6 +2,7 @@
 
 #include <cmath>
 #include <cstdio>
+#include <cstring>
 #include <string>
 #include <iostream>
 #include <algorithm>
@@ -245,13 +246,13 @@ public:
     template<typename I>
     simple_writer& write_integral_number(I d, int len = 1) {
         int i;
-        static char tc[50];
+        char tc[50];
         if (d < 0) {
-            d = -d;
             write_char('-');
         }
-        for (i = 0; (d > 0 || i < len) && i < sizeof(tc); i++) {
-            tc[i] = (d % 10) + '0';
+        for (i = 0; (d != 0 || i < len) && i < sizeof(tc); i++) {
+            int r = int(d % 10); // not positive if `d` is negative
+            tc[i] = char((r < 0 ? -r : r) + '0');
             d /= 10;
         }
         while (i > 0) {
-- 
2.43.0


From e12e114f0ff2417d12cf4e22e61d7e575c4729d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:21 +0000
Subject: [PATCH 39/62] fix: fast_io byte values, least integers, strings with
 NUL, skip past the end, copies

---
 include/altruct/io/fast_io.h | 47 +++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index dfc0eef..cd1486d 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -3,9 +3,11 @@
 #include <algorithm>
 #include <cmath>
 #include <cstdio>
+#include <cstring>
 #include <vector>
 #include <string>
 #include <iostream>
+#include <type_traits>
 
 namespace altruct {
 namespace io {
@@ -41,6 +43,14 @@ public:
         cnt = 0;
     }
 
+    // The buffer has a single owner, copies would release it twice.
+    fast_read(const fast_read&) = delete;
+    fast_read& operator = (const fast_read&) = delete;
+    fast_read(fast_read&& rhs) : fin(rhs.fin), buff(rhs.buff), ptr(rhs.ptr), end(rhs.end), capacity(rhs.capacity), cnt(rhs.cnt) {
+        rhs.buff = rhs.ptr = rhs.end = nullptr;
+        rhs.capacity = 0;
+    }
+
     ~fast_read() {
         delete[] buff;
     }
@@ -60,6 +70,7 @@ public:
             available += len;
             end += len;
         }
+        *end = 0;
         return available;
     }
 
@@ -98,7 +109,7 @@ public:
 
     // Skips `count` characters.
     void skip(size_t count) {
-        ptr += count;
+        ptr += std::min(count, available());
     }
 
     // Unreads the last read character.
@@ -115,7 +126,7 @@ public:
             refill();
             if (ptr >= end) return -1;
         }
-        return *ptr++;
+        return (unsigned char)*ptr++;
     }
 
     // Reads a string of characters until a whitespace.
@@ -170,8 +181,10 @@ public:
     I read_integral_number() {
         skip_whitespaces();
         int s = read_sign();
-        I d = read_digits<I>();
-        return (s < 0) ? -d : d;
+        // accumulate as unsigned so that the minimum value doesn't overflow
+        typedef typename std::make_unsigned<I>::type U;
+        U d = read_digits<U>();
+        return I((s < 0) ? U(0) - d : d);
     }
 
     // Reads a single signed decimal floating-point number of type F.
@@ -257,7 +270,7 @@ class fast_write {
     int cnt; // used for formatted input
 
 public:
-    fast_write(FILE* fout = stdout, size_t buffer_size = 1 << 20) : fout(fout) {
+    fast_write(FILE* fout = stdout, size_t buffer_size = 1 << 20) : fout(fout), cnt(0) {
         capacity = buffer_size;
         buff = new char[capacity + 1];
         buff[capacity] = 0;
@@ -265,8 +278,16 @@ public:
         end = buff + capacity;
     }
 
+    // The buffer has a single owner, copies would flush and release it twice.
+    fast_write(const fast_write&) = delete;
+    fast_write& operator = (const fast_write&) = delete;
+    fast_write(fast_write&& rhs) : fout(rhs.fout), buff(rhs.buff), ptr(rhs.ptr), end(rhs.end), capacity(rhs.capacity), cnt(rhs.cnt) {
+        rhs.buff = rhs.ptr = rhs.end = nullptr;
+        rhs.capacity = 0;
+    }
+
     ~fast_write() {
-        flush();
+        if (buff) flush();
         delete[] buff;
     }
 
@@ -275,6 +296,7 @@ public:
         fwrite(buff, 1, ptr - buff, fout);
         fflush(fout);
         ptr = buff;
+        *ptr = 0;
         return end - ptr;
     }
 
@@ -321,19 +343,22 @@ public:
     }
 
     fast_write& write_string(const std::string& s) {
-        return write_string(s.c_str());
+        for (char c : s) {
+            write_char(c);
+        }
+        return *this;
     }
 
     template<typename I>
     fast_write& write_integral_number(I d, int len = 1) {
         int i;
-        static char tc[50];
+        char tc[50];
         if (d < 0) {
-            d = -d;
             write_char('-');
         }
-        for (i = 0; (d > 0 || i < len) && i < sizeof(tc); i++) {
-            tc[i] = (d % 10) + '0';
+        for (i = 0; (d != 0 || i < len) && i < sizeof(tc); i++) {
+            int r = int(d % 10); // not positive if `d` is negative
+            tc[i] = char((r < 0 ? -r : r) + '0');
             d /= 10;
         }
         while (i > 0) {
-- 
2.43.0


From 0df5d3eca7ddceb1696a3e6a149ab65af09e41e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:32 +0000
Subject: [PATCH 40/62] fix: permutation comparison depended on the order of
 cycles and of elements within them

---
 include/altruct/structure/math/permutation.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/permutation.h b/include/altruct/structure/math/permutation.h
index 3433019..fd1d2dd 100644
--- a/include/altruct/structure/math/permutation.h
+++ b/include/altruct/structure/math/permutation.h
@@ -41,6 +41,8 @@ public:
 
     // to cycles notation
     cycles_t to_cycles() const { return cycles; }
+    // to cycles with the smallest element first, ordered by it, and without 1-cycles
+    cycles_t canonical_cycles() const { return line_to_cycles(to_line()); }
     // to cycles including 1-cycles
     cycles_t to_all_cycles() const { return all_cycles(cycles, n); }
     // to line notation
@@ -49,9 +51,10 @@ public:
     transpositions_t to_transpositions() const { return cycles_to_transpositions(cycles); }
 
     // comparison operators; note: size `n` of the list matters for the comparison
-    bool operator == (const permutation& p2) const { return n == p2.n && cycles == p2.cycles; }
+    // also, the same permutation is equal to itself no matter which of its cycle notations it's given in
+    bool operator == (const permutation& p2) const { return n == p2.n && (cycles == p2.cycles || canonical_cycles() == p2.canonical_cycles()); }
     bool operator != (const permutation& p2) const { return !(*this == p2); }
-    bool operator <  (const permutation& p2) const { return (n != p2.n) ? (n < p2.n) : (cycles < p2.cycles); }
+    bool operator <  (const permutation& p2) const { return (n != p2.n) ? (n < p2.n) : (canonical_cycles() < p2.canonical_cycles()); }
     bool operator >  (const permutation& p2) const { return (p2 < *this); }
     bool operator <= (const permutation& p2) const { return !(p2 < *this); }
     bool operator >= (const permutation& p2) const { return !(*this < p2); }
-- 
2.43.0


From 3568203fb28f9916583e1dd15bbfa9eed111c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:32 +0000
Subject: [PATCH 41/62] fix: reduce_max identity for unsigned types, reduce_mex
 with repeated or negative elements

---
 include/altruct/algorithm/math/reduce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/reduce.h b/include/altruct/algorithm/math/reduce.h
index bb1fd70..89d6290 100644
--- a/include/altruct/algorithm/math/reduce.h
+++ b/include/altruct/algorithm/math/reduce.h
@@ -64,7 +64,7 @@ T reduce_min(const C& c, T id = +std::numeric_limits<T>::max()) {
  * @param id - identity element, default -infinity
  */
 template<typename C, typename T = typename C::value_type>
-T reduce_max(const C& c, T id = -std::numeric_limits<T>::max()) {
+T reduce_max(const C& c, T id = std::numeric_limits<T>::is_signed ? -std::numeric_limits<T>::max() : 0) {
     return reduce(c, [](const T& r, const T& e) { return r < e ? e : r; }, id);
 }
 
@@ -76,7 +76,7 @@ T reduce_max(const C& c, T id = -std::numeric_limits<T>::max()) {
  */
 template<typename C, typename T = typename C::value_type>
 T reduce_mex(const C& c, T id = 0) {
-    return reduce(c, [](const T& r, const T& e) { return r < e ? r : r + 1; }, id);
+    return reduce(c, [](const T& r, const T& e) { return r == e ? r + 1 : r; }, id);
 }
 
 } // math
-- 
2.43.0


From 3062bdc2782cc551a82c853d27aa623b8ee8ec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:32 +0000
Subject: [PATCH 42/62] fix: farey_neighbour from infinity for negative
 fractions

---
 include/altruct/algorithm/math/fractions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/fractions.h b/include/altruct/algorithm/math/fractions.h
index bf70a92..27a11bd 100644
--- a/include/altruct/algorithm/math/fractions.h
+++ b/include/altruct/algorithm/math/fractions.h
@@ -21,7 +21,7 @@ template<typename I>
 fraction<I> farey_neighbour(const I& n, const fraction<I>& f_prev, const fraction<I>& f) {
     I p = f_prev.p, q = f_prev.q;
     if (f_prev.q == 0) {
-        gcd_ex(f.q, f.p, &p, &q);
+        if (gcd_ex(f.q, f.p, &p, &q) < 0) p = -p, q = -q;
         (f_prev.p < 0) ? p = -p : q = -q;
     }
     I k = (n + q) / f.q;
-- 
2.43.0


From 9f9b50b0c9b13ea146e2b4ad4e84559d2e105150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:32 +0000
Subject: [PATCH 43/62] fix: prefix operator popped operators still waiting for
 their operand; f() counted one argument

---
 include/altruct/algorithm/parser/shunting_yard.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/parser/shunting_yard.h b/include/altruct/algorithm/parser/shunting_yard.h
index 8e484e3..448cd06 100644
--- a/include/altruct/algorithm/parser/shunting_yard.h
+++ b/include/altruct/algorithm/parser/shunting_yard.h
@@ -77,6 +77,8 @@ std::vector<postfix_token> infix_to_postfix(
       std::vector<infix_token> &infix_tokens,
       std::vector<operator_desc> operators) {
     int num_args = 0;
+    bool after_operand = false;  // an operator can be a prefix one only if not after an operand
+    bool after_left = false;     // right parenthesis immediately after the left one: no arguments
     std::vector<postfix_token> res;
     std::vector<infix_token> stk;
     auto pop_operators = [&](int id) {
@@ -93,7 +95,8 @@ std::vector<postfix_token> infix_to_postfix(
                 res.push_back({ postfix_token::type_t::OPERAND, t.id, 0 });
                 break;
             case infix_token::type_t::OPERATOR:
-                pop_operators(t.id);
+                // prefix operator applies to what follows; operators before it don't have their operand yet
+                if (after_operand || operators[t.id].arity == operator_desc::arity_t::BINARY) pop_operators(t.id);
                 stk.push_back(t);
                 break;
             case infix_token::type_t::LEFT_PARENTHESIS:
@@ -101,7 +104,7 @@ std::vector<postfix_token> infix_to_postfix(
                 break;
             case infix_token::type_t::RIGHT_PARENTHESIS:
                 pop_operators(-1);
-                num_args = 1;
+                num_args = after_left ? 0 : 1;
                 while (!stk.empty() && stk.back().type == infix_token::type_t::SEPARATOR) {
                     num_args++; stk.pop_back();
                 }
@@ -121,6 +124,9 @@ std::vector<postfix_token> infix_to_postfix(
                 stk.push_back(t);
                 break;
         }
+        bool unary_operator = t.type == infix_token::type_t::OPERATOR && operators[t.id].arity == operator_desc::arity_t::UNARY;
+        after_operand = t.type == infix_token::type_t::OPERAND || t.type == infix_token::type_t::RIGHT_PARENTHESIS || (unary_operator && after_operand);
+        after_left = t.type == infix_token::type_t::LEFT_PARENTHESIS;
     }
     pop_operators(-1);
     return res;
@@ -148,7 +154,7 @@ std::vector<T> evaluate_postfix(
                 break;
             case postfix_token::type_t::FUNCTION:
                 int pos = (int)stk.size() - t.num_args;
-                T r = evaluators[t.id](&stk[pos]);
+                T r = evaluators[t.id](stk.data() + pos);
                 stk.resize(pos);
                 stk.push_back(r);
                 break;
-- 
2.43.0


From 208672b912139f48a9efc3e74dd1b7c5b2bb7468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:32 +0000
Subject: [PATCH 44/62] fix: sieves accessed memory out of bounds for n below
 2, for empty segments and past an exact-size prime table

---
 src/algorithm/math/primes.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/algorithm/math/primes.cpp b/src/algorithm/math/primes.cpp
index d3776ed..fcdb481 100644
--- a/src/algorithm/math/primes.cpp
+++ b/src/algorithm/math/primes.cpp
@@ -11,6 +11,7 @@ namespace math {
 int primes(int *p, char *q, int n) {
     // if q not specified, use p for both
     // last n chars of p are used for q
+    bool own_q = !q;
     if (!q) q = (char *) (p + n) - n;
     // initialize q
     if (n > 0) q[0] = 0;
@@ -28,13 +29,14 @@ int primes(int *p, char *q, int n) {
         for (int j = i * i; j < n; j += i)
             q[j] = 0;
     }
-    if (p) p[m] = 0;
+    // if both are specified, `p` may be just large enough to hold the primes
+    if (own_q && n > 0) p[m] = 0;
     return m;
 }
 
 void prime_pi(int *pi, int n, const int *p, int m) {
     for (int i = 0, l = 0; i < n; i++) {
-        if (i == p[l]) l++;
+        if (l < m && i == p[l]) l++;
         pi[i] = l;
     }
 }
@@ -48,7 +50,7 @@ void euler_phi(int *phi, int n, const int *p, int m) {
 }
 
 void moebius_mu(int *mu, int n, const int* p, int m) {
-    mu[0] = 0;
+    if (n > 0) mu[0] = 0;
     for (int i = 1; i < n; i++)
         mu[i] = 1;
     for (int i = 2; i * i < n; i++) {
@@ -77,8 +79,8 @@ void prime_nu(int *nu, int n, const int* p, int m) {
 
 void segmented_q(char* q, int64_t b, int64_t e, const int *p, int m) {
     char* _q = q - b;
-    if (b == 0) _q[b++] = 0;
-    if (b == 1) _q[b++] = 0;
+    if (b == 0 && b < e) _q[b++] = 0;
+    if (b == 1 && b < e) _q[b++] = 0;
     for (int64_t a = b; a < e; a++)
         _q[a] = 1;
     for (int i = 0; i < m; i++) {
@@ -91,7 +93,7 @@ void segmented_q(char* q, int64_t b, int64_t e, const int *p, int m) {
 
 void segmented_phi(int64_t *phi, int64_t *tmp, int64_t b, int64_t e, const int *p, int m) {
     int64_t *_phi = phi - b, *_tmp = tmp - b;
-    if (b == 0) _phi[b++] = 0;
+    if (b == 0 && b < e) _phi[b++] = 0;
     for (int64_t q = b; q < e; q++)
         _phi[q] = 1, _tmp[q] = q;
     for (int i = 0; i < m; i++) {
@@ -108,7 +110,7 @@ void segmented_phi(int64_t *phi, int64_t *tmp, int64_t b, int64_t e, const int *
 
 void segmented_mu(int64_t *mu, int64_t b, int64_t e, const int *p, int m) {
     int64_t *_mu = mu - b;
-    if (b == 0) _mu[b++] = 0;
+    if (b == 0 && b < e) _mu[b++] = 0;
     for (int64_t q = b; q < e; q++)
         _mu[q] = 1;
     for (int i = 0; i < m; i++) {
@@ -158,7 +160,7 @@ void smallest_factor(int* spf, size_t n) {
             spf[j] = 1;
         }
     }
-    for (size_t i = n - 1; i >= 2; i--) {
+    for (size_t i = n; i-- > 2;) {
         if (spf[i] || i > n / i) continue;
         for (size_t j = i * i; j < n; j += i) {
             spf[j] = (int)i;
@@ -167,7 +169,8 @@ void smallest_factor(int* spf, size_t n) {
 }
 
 void factor(int *bpf, int n, const int *p, int m) {
-    bpf[0] = 0, bpf[1] = 1;
+    if (n > 0) bpf[0] = 0;
+    if (n > 1) bpf[1] = 1;
     for (int i = 0; i < m; i++)
         for (int j = p[i]; j < n; j += p[i])
             bpf[j] = p[i];
-- 
2.43.0


From e65b58e94fdf7e30f0ec580d24f676f517f9b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:32 +0000
Subject: [PATCH 45/62] fix: next_combination skipped combinations of repeated
 elements

---
 include/altruct/algorithm/math/combinatorics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/combinatorics.h b/include/altruct/algorithm/math/combinatorics.h
index 00fd1b4..c1cf3b9 100644
--- a/include/altruct/algorithm/math/combinatorics.h
+++ b/include/altruct/algorithm/math/combinatorics.h
@@ -15,7 +15,8 @@ bool next_combination(BidIt begin, BidIt mid, BidIt end) {
     BidIt rd, wr;
     for (BidIt cur = mid; cur != begin;) {
         for (BidIt cmp = wr = --cur; wr != mid; cmp = wr, ++wr) {
-            for (rd = wr; rd != end && !(*cmp < *rd); ++rd);
+            // first one needs to be greater than before, those that follow may repeat an equal element
+            for (rd = wr; rd != end && (cmp == wr ? !(*cmp < *rd) : *rd < *cmp); ++rd);
             if (rd != end) {
                 std::swap(*wr, *rd);
                 // bubble(wr, rd, end)
-- 
2.43.0


From 871228e8a9ce73afc5f97473e939965c8048c22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:48 +0000
Subject: [PATCH 46/62] fix: garner with a modulus below an earlier one, jacobi
 symbol of negative numbers

---
 include/altruct/algorithm/math/modulos.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/modulos.h b/include/altruct/algorithm/math/modulos.h
index 2ccf959..5f81e0a 100644
--- a/include/altruct/algorithm/math/modulos.h
+++ b/include/altruct/algorithm/math/modulos.h
@@ -57,12 +57,13 @@ T chinese_remainder(T a1, T n1, T a2, T n2) {
  */
 template<typename V>
 V garner(const V& vap) {
+    typedef typename V::value_type M;
     V vx(vap.size());
     for (int i = 0; i < vx.size(); i++) {
         auto y = vap[i];
         for (int j = 0; j < i; j++) {
-            y -= vx[j];
-            y /= vap[j].M();
+            y -= M(vx[j].v, y.M());
+            y /= M(vap[j].M(), y.M());
         }
         vx[i] = y;
     }
@@ -89,6 +90,7 @@ int jacobi(I n, I m) {
         if (m == 1) return j;
         n %= m;
         if (n == 0) return 0;
+        if (n < 0) n += m;
         for (e = 0; (n % 2) == 0; e++) n /= 2;
         if ((e % 2) == 1 && (m % 8) == 3) j = -j;
         if ((e % 2) == 1 && (m % 8) == 5) j = -j;
-- 
2.43.0


From b097144f550fca0fdef7f76871b054333296e8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:28 +0000
Subject: [PATCH 47/62] fix: euler_function and partitions_p_slow wrote past an
 empty table

---
 include/altruct/algorithm/math/counting.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/counting.h b/include/altruct/algorithm/math/counting.h
index 30c79db..b2778ef 100644
--- a/include/altruct/algorithm/math/counting.h
+++ b/include/altruct/algorithm/math/counting.h
@@ -168,7 +168,7 @@ std::vector<T> euler_function(int n, T id = T(1)) {
     // See https://en.wikipedia.org/wiki/Pentagonal_number_theorem
     T e0 = zeroT<T>::of(id);
     std::vector<T> e(n, e0);
-    e[0] = id;
+    if (n > 0) e[0] = id;
     for (int k = 4, m = 1; m < n; m += k, k += 3) {
         e[m] = (k % 2 == 0) ? -id : id;
     }
@@ -191,7 +191,7 @@ std::vector<T> partitions_p_slow(int n, T id = T(1)) {
     // See https://en.wikipedia.org/wiki/Pentagonal_number_theorem
     T e0 = zeroT<T>::of(id);
     std::vector<T> p(n, e0);
-    p[0] = id;
+    if (n > 0) p[0] = id;
     for (int i = 1; i < n; i++) {
         for (int k = 4, m = 1; m <= i; m += k, k += 3) {
             p[i] += (k % 2 == 0) ? p[i - m] : -p[i - m];
-- 
2.43.0


From 62cf2f7d5f640a8c40f993d237ef74933eaf3127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:28 +0000
Subject: [PATCH 48/62] fix: mertens_even truncated arguments above 2^31

---
 include/altruct/algorithm/math/mertens.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/mertens.h b/include/altruct/algorithm/math/mertens.h
index 135b6b2..f84bc94 100644
--- a/include/altruct/algorithm/math/mertens.h
+++ b/include/altruct/algorithm/math/mertens.h
@@ -145,7 +145,7 @@ altruct::container::sqrt_map<int64_t, T> mertens_odd(int64_t n, PI_TBL& pi_tbl,
 template<typename T, typename I, typename TBL>
 T mertens_even(I n, TBL& tbl, T id = T(1)) {
     auto zero = zeroOf(id);
-    auto t = [&](int k) { return (k > 1) ? -id : zero; };
+    auto t = [&](I k) { return (k > 1) ? -id : zero; };
     auto s = [&](I k) { return castOf<T>(id, (k + 1) / 2); };
     return sum_m<T>(t, s, n, tbl, id);
 }
-- 
2.43.0


From 8a94eab072bb7904d73c023d87ce5a9d7edfd5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:23 +0000
Subject: [PATCH 49/62] fix: pell missed solution classes found before the
 period or starting negative

---
 include/altruct/algorithm/math/pell.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/altruct/algorithm/math/pell.h b/include/altruct/algorithm/math/pell.h
index b246c47..696b1db 100644
--- a/include/altruct/algorithm/math/pell.h
+++ b/include/altruct/algorithm/math/pell.h
@@ -170,11 +170,12 @@ int pell_mz(I D, I m, I z, I& x0, I& y0) {
     // check for solution by testing Q[i] == (-1)^i sign(m)
     if (Q[i] != ((i % 2 == 1) ? -ms : +ms)) {
         // G[i-1]^2 - D B[i-1]^2 = (-1)^i Q[i] |m| = -m;
-        // do another period to get +m
+        // do another period to get +m; note that Q[i] may belong
+        // to the pre-period, in which case it doesn't repeat
         pell_PQa<I>(D, P, Q, a, A, B, G);
-        i += l;
+        while (i < (int)Q.size() && Q[i] != ((i % 2 == 1) ? -ms : +ms)) i++;
     }
-    if (Q[i] != ((i % 2 == 1) ? -ms : +ms)) {
+    if (i >= (int)Q.size()) {
         // G[i-1]^2 - D B[i-1]^2 = (-1)^i Q[i] |m| = -m;
         // -m again, +m will never happen
         return 0;
@@ -271,17 +272,17 @@ void pell(I D, I N, const std::vector<std::pair<P, int>>& fN, I x_max, I y_max,
     if (pell1<I>(D, 1, s1.a, s1.b)) {
         auto vs = pell<I>(D, N, fN);
         while (true) {
-            auto size0 = size;
+            auto size0 = size; bool more = false;
             for (auto& s : vs) {
                 auto t = s; s *= s1;
                 if (s.a <= 0 && s.b <= 0) s = -s;
-                if (t.a < 0 || t.b < 0) continue;
+                if (t.a < 0 || t.b < 0) { more = true; continue; }
                 if (x_max > 0 && t.a > x_max) continue;
                 if (y_max > 0 && t.b > y_max) continue;
                 if (count > 0 && size >= count) continue;
                 visitor(t); size++;
             }
-            if (size == size0) break;
+            if (size == size0 && !more) break;
         }
     }
 }
-- 
2.43.0


From 5a898a41e444d5dc9cfdb0222cfb04c3be517399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:40 +0000
Subject: [PATCH 50/62] fix: headers that did not compile unless others were
 included first

---
 .../include/altruct/algorithm/graph/chain_decomposition.h        | 1 +
 .../include/altruct/algorithm/graph/lowest_common_ancestor.h     | 1 +
 include/altruct/algorithm/math/base.h                            | 1 +
 include/altruct/algorithm/math/triples.h                         | 1 +
 include/altruct/algorithm/random/mersenne_twister.h              | 1 +
 include/altruct/structure/container/binary_search_tree.h         | 1 +
 .../altruct/structure/container/bounded_contiguous_allocator.h   | 1 +
 7 files changed, 7 insertions(+)

diff --git a/experimental/include/altruct/algorithm/graph/chain_decomposition.h b/experimental/include/altruct/algorithm/graph/chain_decomposition.h
index 5811261..0935db7 100644
--- a/experimental/include/altruct/algorithm/graph/chain_decomposition.h
+++ b/experimental/include/altruct/algorithm/graph/chain_decomposition.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "altruct/algorithm/graph/iterative_dfs.h"
 #include "altruct/structure/graph/graph.h"
 
 #include <vector>
diff --git a/experimental/include/altruct/algorithm/graph/lowest_common_ancestor.h b/experimental/include/altruct/algorithm/graph/lowest_common_ancestor.h
index 31334f0..bd09989 100644
--- a/experimental/include/altruct/algorithm/graph/lowest_common_ancestor.h
+++ b/experimental/include/altruct/algorithm/graph/lowest_common_ancestor.h
@@ -6,6 +6,7 @@
 #include "altruct/structure/container/segment_tree.h"
 
 #include <algorithm>
+#include <limits>
 #include <vector>
 
 namespace altruct {
diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index 9fd71fe..5031c0f 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -3,6 +3,7 @@
 #include <cmath>
 #include <stdint.h>
 #include <type_traits>
+#include <utility>
 
 namespace altruct {
 namespace math {
diff --git a/include/altruct/algorithm/math/triples.h b/include/altruct/algorithm/math/triples.h
index bc7b866..6c99586 100644
--- a/include/altruct/algorithm/math/triples.h
+++ b/include/altruct/algorithm/math/triples.h
@@ -6,6 +6,7 @@
 
 #include "altruct/algorithm/math/base.h"
 #include "altruct/algorithm/math/primes.h"
+#include "altruct/structure/math/modulo.h"
 
 namespace altruct {
 namespace math {
diff --git a/include/altruct/algorithm/random/mersenne_twister.h b/include/altruct/algorithm/random/mersenne_twister.h
index 878fedd..5d6f6c4 100644
--- a/include/altruct/algorithm/random/mersenne_twister.h
+++ b/include/altruct/algorithm/random/mersenne_twister.h
@@ -55,6 +55,7 @@
 
 #pragma once
 
+#include <climits>
 #include <cmath>
 #include <cstdint>
 #include <iostream>
diff --git a/include/altruct/structure/container/binary_search_tree.h b/include/altruct/structure/container/binary_search_tree.h
index e5af415..acfcd90 100644
--- a/include/altruct/structure/container/binary_search_tree.h
+++ b/include/altruct/structure/container/binary_search_tree.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <iterator>
+#include <limits>
 #include <type_traits>
 #include <algorithm>
 
diff --git a/include/altruct/structure/container/bounded_contiguous_allocator.h b/include/altruct/structure/container/bounded_contiguous_allocator.h
index f9863c3..848a98f 100644
--- a/include/altruct/structure/container/bounded_contiguous_allocator.h
+++ b/include/altruct/structure/container/bounded_contiguous_allocator.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cstdlib>
 #include <memory>
 
 #if _MSC_VER < 1900
-- 
2.43.0


From 99272f4c50eeea7de908c791e3d1a6dcdaa47c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:52 +0000
Subject: [PATCH 51/62] fix: copies of mtrand read the numbers of the generator
 they were copied from

---
 include/altruct/algorithm/random/mersenne_twister.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/altruct/algorithm/random/mersenne_twister.h b/include/altruct/algorithm/random/mersenne_twister.h
index 5d6f6c4..dff9128 100644
--- a/include/altruct/algorithm/random/mersenne_twister.h
+++ b/include/altruct/algorithm/random/mersenne_twister.h
@@ -95,6 +95,8 @@ public:
     mtrand(const uint32& oneSeed);  // initialize with a simple uint32
     mtrand(uint32 *const bigSeed, uint32 const seedLength = N);  // or an array
     mtrand();  // auto-initialize with /dev/urandom or time() and clock()
+    mtrand(const mtrand& rhs) { *this = rhs; }
+    mtrand& operator=(const mtrand& rhs);  // `pNext` points into own `state`
 
     // Access to 32-bit random numbers
     double rand();                          // real number in [0,1]
@@ -158,6 +160,13 @@ inline mtrand::mtrand() {
     seed();
 }
 
+inline mtrand& mtrand::operator=(const mtrand& rhs) {
+    for (int i = 0; i < N; i++) state[i] = rhs.state[i];
+    pNext = state + (rhs.pNext - rhs.state);
+    left = rhs.left;
+    return *this;
+}
+
 inline double mtrand::rand() {
     return double(randInt()) * (1.0 / 4294967295.0);
 }
-- 
2.43.0


From 24cdd818f7dcce9613c237f6e5530a16ac35e9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:12 +0000
Subject: [PATCH 52/62] fix: complex_root_wrapper invalidated earlier wrappers
 when its table grew, and was out of range for l = 1

---
 include/altruct/structure/math/root_wrapper.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/altruct/structure/math/root_wrapper.h b/include/altruct/structure/math/root_wrapper.h
index 1d818cf..7b007e2 100644
--- a/include/altruct/structure/math/root_wrapper.h
+++ b/include/altruct/structure/math/root_wrapper.h
@@ -46,17 +46,18 @@ template<typename F>
 root_wrapper<complex<F>> complex_root_wrapper(int l) {
     typedef complex<F> cplx;
     static const auto _2_PI = 2 * acos(F(-1));
-    static std::vector<cplx> roots{F(1)};
-    int size = (int)roots.size();
-    if (size < l) {
-        while (size < l) size *= 2;
+    static std::vector<cplx> tables[31]; // one per size, so that the earlier wrappers remain valid
+    int size = 1, k = 0;
+    while (size < l) size *= 2, k++;
+    auto& roots = tables[k];
+    if (roots.empty()) {
         roots.resize(size);
         for (int i = 0; i < size; i++) {
             auto A = _2_PI * i / size;
             roots[i] = cplx(cos(A), sin(A));
         }
     }
-    return root_wrapper<cplx>(roots.data(), size, 1);
+    return root_wrapper<cplx>(roots.data(), size, 1 % size);
 }
 
 } // math
-- 
2.43.0


From 5138258a58006d8cf0637b1eca10c7bef4302b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:41 +0000
Subject: [PATCH 53/62] fix: sqrt_mod and pythagorean_triples_generators did
 not compile for 64-bit integers

---
 include/altruct/algorithm/math/modulos.h |  4 ++--
 include/altruct/algorithm/math/triples.h | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/altruct/algorithm/math/modulos.h b/include/altruct/algorithm/math/modulos.h
index 5f81e0a..d71f6d4 100644
--- a/include/altruct/algorithm/math/modulos.h
+++ b/include/altruct/algorithm/math/modulos.h
@@ -205,12 +205,12 @@ std::vector<I> sqrt_mod(I y, const std::vector<std::pair<P, int>>& vf) {
         sr0.swap(sr);
         I q = powT<I>(f.first, f.second);
         if (f.first == 2) {
-            auto x = sqrt_hensel_lift_p2(y, f.second);
+            auto x = sqrt_hensel_lift_p2<I>(y, f.second);
             add(sr0, x.first, q);
             add(sr0, x.second, q);
         }
         else {
-            auto x = sqrt_hensel_lift(y, f.first, f.second);
+            auto x = sqrt_hensel_lift<I>(y, f.first, f.second);
             add(sr0, x, q);
         }
         m *= q;
diff --git a/include/altruct/algorithm/math/triples.h b/include/altruct/algorithm/math/triples.h
index 6c99586..0ffdb63 100644
--- a/include/altruct/algorithm/math/triples.h
+++ b/include/altruct/algorithm/math/triples.h
@@ -93,7 +93,7 @@ bool is_pythagorean_triple_generator(const triple<I>& t) {
  */
 template<typename I>
 std::vector<triple<I>> pythagorean_triples_generators(I k) {
-    std::vector<triple<int>> vg;
+    std::vector<triple<I>> vg;
     if (k == 0) {
         vg.push_back({ 3, 4, 5 });
     }
@@ -101,13 +101,13 @@ std::vector<triple<I>> pythagorean_triples_generators(I k) {
         vg.push_back({ 2, 2, 3 });
     }
     else if (k >= 2) {
-        int a_max = isqrt(k) * 2;
-        for (int a = 0; a <= a_max; a++) {
-            int b_max = k / std::max(a, 1) + a;
-            for (int b = a; b <= b_max; b++) {
+        I a_max = I(isqrt(k)) * 2;
+        for (I a = 0; a <= a_max; a++) {
+            I b_max = k / std::max(a, I(1)) + a;
+            for (I b = a; b <= b_max; b++) {
                 int64_t c2 = isq(a) + isq(b) + k; // TODO: isq, isqrt
-                int c = isqrt(c2);
-                triple<int> t{ a, b, c };
+                I c = isqrt(c2);
+                triple<I> t{ a, b, c };
                 if (isq(c) == c2 && is_pythagorean_triple_generator(t)) vg.push_back(t);
             }
         }
-- 
2.43.0


From 007614c6c23fcd9930c4dd6116f0d15803626a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:00 +0000
Subject: [PATCH 54/62] fix: gmp_helpers defined non-inline functions (two
 users did not link) and overran a stack buffer for large values

---
 include/altruct/algorithm/math/gmp_helpers.h | 35 ++++++++++----------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/include/altruct/algorithm/math/gmp_helpers.h b/include/altruct/algorithm/math/gmp_helpers.h
index 9308090..8739d39 100644
--- a/include/altruct/algorithm/math/gmp_helpers.h
+++ b/include/altruct/algorithm/math/gmp_helpers.h
@@ -16,39 +16,40 @@ typedef mpq_class mpq;
 typedef mpf_class mpf;
 
 // casts
-template<> unsigned long altruct::math::castT<unsigned long, mpz>::of(const mpz& x) {
+template<> inline unsigned long altruct::math::castT<unsigned long, mpz>::of(const mpz& x) {
     unsigned long res = (unsigned long)x.get_ui();
     if (mpz_sgn(x.get_mpz_t()) < 0) res = -res;
     return res;
 };
-template<> long altruct::math::castT<long, mpz>::of(const mpz& x) {
+template<> inline long altruct::math::castT<long, mpz>::of(const mpz& x) {
     return (long)castOf<unsigned long>(x);
 };
-template<> unsigned int altruct::math::castT<unsigned int, mpz>::of(const mpz& x) {
+template<> inline unsigned int altruct::math::castT<unsigned int, mpz>::of(const mpz& x) {
     return (unsigned int)castOf<unsigned long>(x);
 };
-template<> int altruct::math::castT<int, mpz>::of(const mpz& x) {
+template<> inline int altruct::math::castT<int, mpz>::of(const mpz& x) {
     return (int)castOf<unsigned int>(x);
 };
-template<> unsigned long long altruct::math::castT<unsigned long long, mpz>::of(const mpz& x) {
-    // allocating on the stack is kind of free, assuming 100 words is enough; possible buffer overrun
-    unsigned long long res[100]; res[0] = 0;
-    mpz_export(res, 0, -1, sizeof res[0], 0, 0, x.get_mpz_t());
-    if (mpz_sgn(x.get_mpz_t()) < 0) res[0] = -res[0];
-    return res[0];
+template<> inline unsigned long long altruct::math::castT<unsigned long long, mpz>::of(const mpz& x) {
+    // only the lowest 64 bits fit
+    mpz low; mpz_tdiv_r_2exp(low.get_mpz_t(), x.get_mpz_t(), 64);
+    unsigned long long res = 0;
+    mpz_export(&res, 0, -1, sizeof res, 0, 0, low.get_mpz_t());
+    if (mpz_sgn(x.get_mpz_t()) < 0) res = -res;
+    return res;
 };
-template<> long long altruct::math::castT<long long, mpz>::of(const mpz& x) {
+template<> inline long long altruct::math::castT<long long, mpz>::of(const mpz& x) {
     return (long long)castOf<unsigned long long>(x);
 };
-template<> mpz altruct::math::castT<mpz, unsigned long long>::of(const unsigned long long& x) {
+template<> inline mpz altruct::math::castT<mpz, unsigned long long>::of(const unsigned long long& x) {
     mpz res(0);
     mpz_import(res.get_mpz_t(), 1, -1, sizeof x, 0, 0, &x);
     return res;
 };
-template<> mpz altruct::math::castT<mpz, long long>::of(const long long& x) {
+template<> inline mpz altruct::math::castT<mpz, long long>::of(const long long& x) {
     return (x < 0) ? -castOf<mpz>((unsigned long long) - x) : castOf<mpz>((unsigned long long)x);
 };
-template<> mpz altruct::math::castT<mpz, mpf>::of(const mpf& x) {
+template<> inline mpz altruct::math::castT<mpz, mpf>::of(const mpf& x) {
     mpz res;
     mpz_set_f(res.get_mpz_t(), x.get_mpf_t());
     return res;
@@ -107,6 +108,6 @@ template<> inline mpz altruct::math::modulo_div(const mpz& x, const mpz& y, cons
 template<> inline mpz altruct::math::modulo_power(const mpz& x, const mpz& y, const mpz& M) { return z_powmod(x, y, M); }
 template<> inline mpz altruct::math::modulo_power(const mpz& x, const int64_t& y, const mpz& M) { return z_powmod(x, int64_to_mpz(y), M); }
 
-std::ostream& operator << (std::ostream& os, const mpz& rhs) { return os << rhs.get_str(); }
-std::ostream& operator << (std::ostream& os, const mpq& rhs) { return os << rhs.get_str(); }
-std::ostream& operator << (std::ostream& os, const mpf& rhs) { mp_exp_t exp = 0; return os << "0." << rhs.get_str(exp) << "e" << exp; }
+inline std::ostream& operator << (std::ostream& os, const mpz& rhs) { return os << rhs.get_str(); }
+inline std::ostream& operator << (std::ostream& os, const mpq& rhs) { return os << rhs.get_str(); }
+inline std::ostream& operator << (std::ostream& os, const mpf& rhs) { mp_exp_t exp = 0; return os << "0." << rhs.get_str(exp) << "e" << exp; }
-- 
2.43.0


From e60e7e178551d4770db648b75b8bdb840ca53225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:34 +0000
Subject: [PATCH 55/62] fix: parallel_execute called create_worker without
 synchronization

---
 include/altruct/concurrency/concurrency.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/altruct/concurrency/concurrency.h b/include/altruct/concurrency/concurrency.h
index b42992a..0ecb08c 100644
--- a/include/altruct/concurrency/concurrency.h
+++ b/include/altruct/concurrency/concurrency.h
@@ -53,8 +53,11 @@ template<typename RESULT_COLLECTOR, typename JOB_PROVIDER, typename WORKER_PROVI
 void parallel_execute(RESULT_COLLECTOR& result_collector, JOB_PROVIDER& job_provider, WORKER_PROVIDER& worker_provider, int num_threads) {
     std::mutex job_provider_mutex;
     std::mutex result_collector_mutex;
+    std::mutex worker_provider_mutex;
     auto func = [&]() {
+        std::unique_lock<std::mutex> worker_provider_lock(worker_provider_mutex);
         auto worker = worker_provider.create_worker();
+        worker_provider_lock.unlock();
         while (true) {
             std::unique_lock<std::mutex> job_provider_lock(job_provider_mutex);
             if (!job_provider.has_next_job()) break;
-- 
2.43.0


From 378ef26320cce510d5e396c1cf2eca3fa74fa3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:03 +0000
Subject: [PATCH 56/62] fix: binary_heap.h and push_relabel_flow.h used
 <algorithm> without including it

---
 experimental/include/altruct/algorithm/graph/push_relabel_flow.h | 1 +
 include/altruct/structure/container/binary_heap.h                | 1 +
 2 files changed, 2 insertions(+)

diff --git a/experimental/include/altruct/algorithm/graph/push_relabel_flow.h b/experimental/include/altruct/algorithm/graph/push_relabel_flow.h
index bf04060..35771d4 100644
--- a/experimental/include/altruct/algorithm/graph/push_relabel_flow.h
+++ b/experimental/include/altruct/algorithm/graph/push_relabel_flow.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <deque>
 #include <vector>
 #include <limits>
diff --git a/include/altruct/structure/container/binary_heap.h b/include/altruct/structure/container/binary_heap.h
index 5576057..237eea9 100644
--- a/include/altruct/structure/container/binary_heap.h
+++ b/include/altruct/structure/container/binary_heap.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <vector>
 #include <iterator>
 
-- 
2.43.0


From 556222ce728d58dae6c410a2a138fd3cc65e1336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:04 +0000
Subject: [PATCH 57/62] fix: break inside LOCK ran its body a second time

---
 include/altruct/concurrency/concurrency.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/concurrency/concurrency.h b/include/altruct/concurrency/concurrency.h
index 0ecb08c..4bad060 100644
--- a/include/altruct/concurrency/concurrency.h
+++ b/include/altruct/concurrency/concurrency.h
@@ -18,7 +18,7 @@ namespace concurrency {
  *   }
  */
 #define LOCK(_mutex) \
-    for (bool first = true; first;) \
+    for (bool first = true; first; first = false) \
         for (std::lock_guard<std::mutex> lock(_mutex); first; first = false)
             // { /* locked */  }
 
-- 
2.43.0


From f0ef4086e1c916215ef1f448f4775bb94c5d37bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:55 +0000
Subject: [PATCH 58/62] fix: treap and lazy_treap range erase returned a
 default iterator for an empty range

---
 include/altruct/structure/container/lazy_treap.h | 5 ++---
 include/altruct/structure/container/treap.h      | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/altruct/structure/container/lazy_treap.h b/include/altruct/structure/container/lazy_treap.h
index 22242ea..8462bf4 100644
--- a/include/altruct/structure/container/lazy_treap.h
+++ b/include/altruct/structure/container/lazy_treap.h
@@ -284,9 +284,8 @@ public: // query & update
     }
 
     iterator erase(const_iterator b, const_iterator e, int cnt = std::numeric_limits<int>::max()) {
-        iterator res;
-        while (b != e) res = erase(b++, cnt);
-        return res;
+        while (b != e) erase(b++, cnt);
+        return remove_const(b);
     }
 
     iterator erase(const_iterator it, int cnt = std::numeric_limits<int>::max()) {
diff --git a/include/altruct/structure/container/treap.h b/include/altruct/structure/container/treap.h
index fdffe8f..8549e2e 100644
--- a/include/altruct/structure/container/treap.h
+++ b/include/altruct/structure/container/treap.h
@@ -253,9 +253,8 @@ public: // query & update
     }
 
     iterator erase(const_iterator b, const_iterator e, int cnt = std::numeric_limits<int>::max()) {
-        iterator res;
-        while (b != e) res = erase(b++, cnt);
-        return res;
+        while (b != e) erase(b++, cnt);
+        return tree.remove_const(b.it);
     }
 
     iterator erase(const_iterator it, int cnt = std::numeric_limits<int>::max()) {
-- 
2.43.0


From 81239bffc840134242bc4919377dfe3b6935687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:55 +0000
Subject: [PATCH 59/62] fix: cumulative_hash::assign kept the hashes of the
 previous sequence

---
 include/altruct/algorithm/hash/polynomial_hash.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/altruct/algorithm/hash/polynomial_hash.h b/include/altruct/algorithm/hash/polynomial_hash.h
index e679f7a..66b2fda 100644
--- a/include/altruct/algorithm/hash/polynomial_hash.h
+++ b/include/altruct/algorithm/hash/polynomial_hash.h
@@ -278,6 +278,7 @@ public:
     void assign(It begin, It end) {
         HASH h;
         size_t pos = 0;
+        vh.clear();
         h.ensure(std::distance(begin, end));
         for (It it = begin; it != end; ++it) {
             h.add(*it, pos++);
-- 
2.43.0


From 93e335d7e0662cb04c6d18a70ab2852ac304f24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:43 +0000
Subject: [PATCH 60/62] fix: div_round of an unsigned zero

---
 include/altruct/algorithm/math/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index 5031c0f..c384b27 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -367,7 +367,7 @@ I div_ceil(I a, I b) {
 template<typename I>
 I div_round(I a, I b) {
     if (b < 0) a = -a, b = -b;
-    return (a > 0) ? I((a + b / 2) / b) : I((a - b / 2) / b);
+    return (a >= 0) ? I((a + b / 2) / b) : I((a - b / 2) / b);
 }
 
 /**
-- 
2.43.0


From 172f3f87a3e31b696f54ed19ddefef505caf4912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:19 +0000
Subject: [PATCH 61/62] fix: moving a bounded_contiguous_allocator keeps its
 range

---
 .../container/bounded_contiguous_allocator.h  | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/altruct/structure/container/bounded_contiguous_allocator.h b/include/altruct/structure/container/bounded_contiguous_allocator.h
index 848a98f..b7d3e9f 100644
--- a/include/altruct/structure/container/bounded_contiguous_allocator.h
+++ b/include/altruct/structure/container/bounded_contiguous_allocator.h
@@ -2,6 +2,7 @@
 
 #include <cstdlib>
 #include <memory>
+#include <utility>
 
 #if _MSC_VER < 1900
 #define NOEXCEPT
@@ -47,6 +48,24 @@ struct bounded_contiguous_allocator {
         return *this;
     }
 
+    // moving transfers the range along with the elements allocated in it
+    bounded_contiguous_allocator(bounded_contiguous_allocator&& allocator) NOEXCEPT
+        : bounded_contiguous_allocator(allocator.capacity()) {
+        swap(allocator);
+    }
+
+    bounded_contiguous_allocator& operator= (bounded_contiguous_allocator&& allocator) NOEXCEPT{
+        swap(allocator);
+        return *this;
+    }
+
+    void swap(bounded_contiguous_allocator& allocator) NOEXCEPT{
+        std::swap(capacity_, allocator.capacity_);
+        std::swap(data_, allocator.data_);
+        std::swap(available_, allocator.available_);
+        std::swap(ptrs_, allocator.ptrs_);
+    }
+
     template <class U>
     bounded_contiguous_allocator(const bounded_contiguous_allocator<U>& allocator) NOEXCEPT
         : bounded_contiguous_allocator(allocator.capacity()) {
-- 
2.43.0


From 8e93c7f1cf31d9b1f919ca314df37335afb4a627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:19 +0000
Subject: [PATCH 62/62] fix: monotonic_search for a value other than zero

---
 include/altruct/algorithm/math/polynoms.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/math/polynoms.h b/include/altruct/algorithm/math/polynoms.h
index 61720fd..a0353e1 100644
--- a/include/altruct/algorithm/math/polynoms.h
+++ b/include/altruct/algorithm/math/polynoms.h
@@ -22,16 +22,16 @@ namespace math {
 template<typename P, typename F>
 F monotonic_search(const P &p, const F &b, const F& e, const F& y, const F& epsy = 0, const F& epsx = 0, int max_iter = 200) {
     F lo = b, hi = e, mid = e;
-    F val_b = p(b), val_e = p(e);
+    F val_b = p(b) - y, val_e = p(e) - y;
     if (-epsy <= val_b && val_b <= epsy) return b;
     if (-epsy <= val_e && val_e <= epsy) return e;
     int s = (val_b > val_e) ? -1 : +1;
     while (hi - lo > epsx && max_iter-- > 0) {
         mid = (lo + hi) / 2;
         if (mid == lo || mid == hi) return mid;
-        F val = p(mid);
+        F val = p(mid) - y;
         if (-epsy <= val && val <= epsy) return mid;
-        if ((s > 0) ? (val < y) : (val > y)) {
+        if ((s > 0) ? (val < 0) : (val > 0)) {
             lo = mid;
         }
         else {
-- 
2.43.0

