From d931f39411c6a081024a2ee096fe1f4bc8276a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 01/74] fix: clear the list of sinks when a space is loaded

---
 libvvhd/src/TSpace.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 4c796a6..4a810b1 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -40,6 +40,7 @@ void Space::load(const char* fname, metainfo_t *info)
     BodyList.clear();
     VortexList.clear();
     HeatList.clear();
+    SourceList.clear();
     StreakSourceList.clear();
     StreakList.clear();
 
-- 
2.43.0


From 86af51b68e6f904924a6aee92a6b282e250a3c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 02/74] fix: do not truncate the name of a saved file to 63
 characters

---
 libvvhd/src/TSpace.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 4a810b1..d309859 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -69,10 +69,12 @@ void Space::save(const char* format)
         lbody->validate(/*critical=*/true);
     }
 
-    char fname[64];
-    snprintf(fname, 64, format, int(time/dt+0.5));
+    const int step = int(time/dt+0.5);
+    std::string fname(snprintf(NULL, 0, format, step) + 1, '\0');
+    snprintf(&fname[0], fname.size(), format, step);
+    fname.pop_back();
     H5Eset_auto(H5E_DEFAULT, NULL, NULL);
-    hid_t fid = H5Fcreate(fname, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
+    hid_t fid = H5Fcreate(fname.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
     if (fid < 0)
         h5_throw("H5Fcreate", fname);
 
-- 
2.43.0


From e4ac313353849a94dd8f9d76322de1b188761054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 03/74] fix: keep the order of bodies when more than 100 of
 them are loaded

---
 libvvhd/src/TSpace_load_hdf.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index 21f9553..a924d9a 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -6,7 +6,14 @@
 #include "vvhdf.h"
 
 #include <map>
-typedef std::map<std::string, std::shared_ptr<TBody>> body_map_t;
+
+// "body99" goes before "body100"
+struct body_name_less {
+    bool operator() (const std::string& a, const std::string& b) const {
+        return a.size() != b.size() ? a.size() < b.size() : a < b;
+    }
+};
+typedef std::map<std::string, std::shared_ptr<TBody>, body_name_less> body_map_t;
 
 static void dataset_read_list(hid_t fid, std::string name, std::vector<TObj>& list)
 {
-- 
2.43.0


From 89871f58d357c5f0f6117ca27ae5564e034dd2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 04/74] fix: parse decimal time exactly

---
 libvvhd/headers/TTime.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/libvvhd/headers/TTime.hpp b/libvvhd/headers/TTime.hpp
index 4ac5d3a..9409623 100644
--- a/libvvhd/headers/TTime.hpp
+++ b/libvvhd/headers/TTime.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cmath>
 #include <cstdint>
 #include <string>
 
@@ -22,12 +23,16 @@ class TTime
         static TTime makeWithSecondsDecimal(double seconds)
         {
             uint32_t newTS = 1;
-            while ((int32_t(seconds*newTS)/double(newTS) != seconds) && (newTS<0x19999999)/*0xffffffff/10*/)
+            // round, because 0.29*100 is less than 29
+            while ((rint(seconds*newTS)/double(newTS) != seconds)
+                && (newTS<0x19999999)/*0xffffffff/10*/
+                && (fabs(seconds)*newTS*10 < 0x7fffffff + 0.5))
             { newTS*= 10; }
-            while (!(int32_t(seconds*newTS)%10) && (newTS > 1))
-            { newTS/= 10; }
-            //fprintf(stderr, "%lf sec -> %d / %u\n", seconds, int32_t(seconds*newTS), newTS);
-            return TTime(int32_t(seconds*newTS), newTS);
+            int32_t newValue = int32_t(rint(seconds*newTS));
+            while (!(newValue%10) && (newTS > 1))
+            { newValue/= 10; newTS/= 10; }
+            //fprintf(stderr, "%lf sec -> %d / %u\n", seconds, newValue, newTS);
+            return TTime(newValue, newTS);
         }
 
         static TTime add(TTime time1, TTime time2)
-- 
2.43.0


From f6dc363bd3a1b74a5b64053816749165e8c2eba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 05/74] fix: do not terminate when an expression fails at some
 t

---
 libvvhd/src/TEval.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/libvvhd/src/TEval.cpp b/libvvhd/src/TEval.cpp
index 4fe2f0d..2a4fa90 100644
--- a/libvvhd/src/TEval.cpp
+++ b/libvvhd/src/TEval.cpp
@@ -168,6 +168,7 @@ double TEval::eval(double t) const
         return 0;
 
     double ret = 0;
+    std::string error; // must not be thrown inside of the critical section
 #pragma omp critical
     {
         if (t == cacheTime2) {
@@ -181,24 +182,26 @@ double TEval::eval(double t) const
 
             lua_getglobal(L, "_evaluator");
             err = lua_pcall(L, 0, 1, 0);
+            int isnum = 0;
             if (err) {
-                std::string e = lua_tostring(L, -1);
-                lua_pop(L, 1);
-                throw std::invalid_argument(e);
+                error = lua_tostring(L, -1) ?: "unknown error";
+            } else {
+                ret = lua_tonumberx(L, -1, &isnum);
+                if (!isnum) error = "invalid return type";
             }
-            int isnum;
-            ret = lua_tonumberx(L, -1, &isnum);
             lua_pop(L, 1);
-            if (!isnum) {
-                throw std::invalid_argument("invalid return type");
-            }
 
-            cacheTime2 = cacheTime1;
-            cacheValue2 = cacheValue1;
-            cacheTime1 = t;
-            cacheValue1 = ret;
+            if (isnum) {
+                cacheTime2 = cacheTime1;
+                cacheValue2 = cacheValue1;
+                cacheTime1 = t;
+                cacheValue1 = ret;
+            }
         }
     }
 
+    if (!error.empty())
+        throw std::invalid_argument(error);
+
     return ret;
 }
-- 
2.43.0


From 62d1f370a39a82caa3bb17be6c1140f3e60f631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 06/74] fix: let a failed TEval:eval() be an ordinary Lua error

---
 utils/vvflow/lua_teval.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/vvflow/lua_teval.cpp b/utils/vvflow/lua_teval.cpp
index 8e3f2b8..5130bfa 100644
--- a/utils/vvflow/lua_teval.cpp
+++ b/utils/vvflow/lua_teval.cpp
@@ -9,7 +9,11 @@ static int teval_eval(lua_State *L) {
     TEval* script = checkTEval(L, 1);
     lua_Number val = luaL_checknumber(L, 2);
 
-    lua_pushnumber(L, script->eval(val));
+    try {
+        lua_pushnumber(L, script->eval(val));
+    } catch (const std::exception &e) {
+        return luaL_error(L, "%s", e.what());
+    }
     return 1;
 }
 
-- 
2.43.0


From 0120c04bf1e587beebe44bcfce8b98217f7ce142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 07/74] fix: let failed S:load() and S:save() be ordinary Lua
 errors

---
 utils/vvflow/lua_space.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/utils/vvflow/lua_space.cpp b/utils/vvflow/lua_space.cpp
index adea519..a136551 100644
--- a/utils/vvflow/lua_space.cpp
+++ b/utils/vvflow/lua_space.cpp
@@ -9,7 +9,11 @@ static int space_load(lua_State *L) {
     Space **ptr = (Space**)luaL_checkudata(L, 1, "S");
     Space *S = *ptr;
     const char* fname = luaL_checkstring(L, 2);
-    S->load(fname);
+    try {
+        S->load(fname);
+    } catch (const std::exception &e) {
+        return luaL_error(L, "%s", e.what());
+    }
     return 0;
 }
 
@@ -19,8 +23,8 @@ static int space_save(lua_State *L) {
     const char* fname = luaL_checkstring(L, 2);
     try {
         S->save(fname);
-    } catch (const std::invalid_argument &e) {
-        return luaL_error(L, e.what());
+    } catch (const std::exception &e) {
+        return luaL_error(L, "%s", e.what());
     }
     return 0;
 }
-- 
2.43.0


From b84da1168a606356dce315e7936d7d74f3e9dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 08/74] fix: report an unreadable input file instead of
 aborting

---
 utils/vvflow/vvflow.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 4f5d477..202050c 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -150,7 +150,7 @@ int main(int argc, char* const* argv)
     }
     lua_setglobal(L, "arg");
 
-    if (H5Fis_hdf5(opt::input)) {
+    if (H5Fis_hdf5(opt::input) > 0) {
         lua_getglobal(L, "S");
         Space **ptr = (Space**)lua_touserdata(L, -1);
         lua_pop(L, 1);
@@ -159,7 +159,12 @@ int main(int argc, char* const* argv)
             throw std::runtime_error("Internal error 0x180");
         }
         Space &S = **ptr;
-        S.load(opt::input);
+        try {
+            S.load(opt::input);
+        } catch (const std::exception& e) {
+            fprintf(stderr, "%s\n", e.what());
+            return 8;
+        }
         ret = luaL_dostring(L, "simulate()");
     } else {
         ret = luaL_dofile(L, opt::input);
-- 
2.43.0


From a962a12042c89c49526d57e01a2c04c637604b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 09/74] fix: make simulate() fail with a Lua error

---
 utils/vvflow/vvflow.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 202050c..2abf4ff 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -179,6 +179,7 @@ int main(int argc, char* const* argv)
     return 0;
 }
 
+static void simulate (Space &S);
 int simulate (lua_State *L) {
     lua_getglobal(L, "S");
     Space **ptr = (Space**)lua_touserdata(L, -1);
@@ -187,12 +188,20 @@ int simulate (lua_State *L) {
     if (!ptr) {
         throw std::runtime_error("Internal error 0x180");
     }
-    Space &S = **ptr;
 
+    try {
+        simulate(**ptr);
+        return 0;
+    } catch (const std::exception& e) {
+        lua_pushfstring(L, "vvflow ERROR: %s", e.what());
+    }
+
+    return lua_error(L);
+}
+
+static void simulate (Space &S) {
     // error checking
-    #define RAISE(STR) { cerr << "vvflow ERROR: " << STR << endl; return -1; }
-    if (S.re <= 0) RAISE("invalid value re<=0");
-    #undef RAISE
+    if (S.re <= 0) throw std::invalid_argument("invalid value re<=0");
     bool is_viscous = (S.re != std::numeric_limits<double>::infinity());
 
     char f_stepdata[256]; snprintf(f_stepdata, 256, "stepdata_%s.h5", S.caption.c_str());
@@ -272,6 +281,4 @@ int simulate (lua_State *L) {
 
     if (opt::show_progress)
         fprintf(stderr, "\n");
-
-    return 0;
 }
-- 
2.43.0


From 95b0e9a6a659bcc660e734320485a6d8e73305d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 10/74] fix: draw an isoline whose level equals a value of the
 field

---
 libvvhd/src/XIsoline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/XIsoline.cpp b/libvvhd/src/XIsoline.cpp
index f1ca96f..07087f0 100644
--- a/libvvhd/src/XIsoline.cpp
+++ b/libvvhd/src/XIsoline.cpp
@@ -70,7 +70,7 @@ XIsoline::XIsoline(
 inline static
 bool inrange(float z1, float z2, float c)
 {
-    return (z1 <= c && c < z2) || (z1 >= c && c > z2);
+    return (z1 <= c && c < z2) || (z2 <= c && c < z1);
 }
 
 void XIsoline::merge_lines(TLine* dst, bool dst_side)
-- 
2.43.0


From ed467035d135a1ed7a5a5ab104ac3de5d78444f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 11/74] fix: report a failing speed expression instead of
 terminating in a parallel region

---
 libvvhd/src/MConvectiveFast.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index a8012f0..3ca1934 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -37,6 +37,9 @@ void MConvectiveFast::process_all_lists()
 {
     auto& bnodes = tree->getBottomNodes();
 
+    // it may throw, which isn't allowed inside of the omp region
+    const TVec inf_speed = S->inf_speed();
+
     //FIXME omp here
     for (auto llbnode = bnodes.begin(); llbnode < bnodes.end(); llbnode++)
     {
@@ -77,7 +80,7 @@ void MConvectiveFast::process_all_lists()
             {
                 if (!lobj->g) {continue;}
                 TVec dr_local = lobj->r - nodeCenter;
-                lobj->v += S->inf_speed();
+                lobj->v += inf_speed;
                 lobj->v += near_nodes_influence(*lbnode, lobj->r);
                 lobj->v += sink_list_influence(lobj->r);
                 lobj->v += body_list_influence(lobj->r);
@@ -90,7 +93,7 @@ void MConvectiveFast::process_all_lists()
             {
                 if (!lobj->g) {continue;}
                 TVec dr_local = lobj->r - nodeCenter;
-                lobj->v += S->inf_speed();
+                lobj->v += inf_speed;
                 lobj->v += near_nodes_influence(*lbnode, lobj->r);
                 lobj->v += sink_list_influence(lobj->r);
                 lobj->v += body_list_influence(lobj->r);
@@ -102,7 +105,7 @@ void MConvectiveFast::process_all_lists()
             for (TObj *lobj = lbnode->sRange.first; lobj < lbnode->sRange.last; lobj++)
             {
                 TVec dr_local = lobj->r - nodeCenter;
-                lobj->v += S->inf_speed();
+                lobj->v += inf_speed;
                 lobj->v += near_nodes_influence(*lbnode, lobj->r);
                 lobj->v += sink_list_influence(lobj->r);
                 lobj->v += body_list_influence(lobj->r);
@@ -975,6 +978,9 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
     }
 #undef addJob
 
+    // it may throw, which isn't allowed inside of the omp region
+    S->inf_speed();
+
     #pragma omp parallel for
     for (auto job = jobs.begin(); job < jobs.end(); job++)
     {
-- 
2.43.0


From 2af4cb4a8fc255d6fb02adc2dccc41d56ad23332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 12/74] fix: sign of a term in the influence of a rotating
 segment on close points

---
 libvvhd/src/MConvectiveFast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index 3ca1934..2c0fd0c 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -454,7 +454,7 @@ TVec MConvectiveFast::SegmentInfluence_linear_source(TVec p, const TAtt &seg, do
     //complex<double> i(0,1);
 
     //cerr << z2 << "\t" << z1 << endl;
-    zV = ( (q2-q1) - conj(q2*z1 - q1*z2)/conj(dz)*log(conj(z2)/conj(z1))) / conj(dz);
+    zV = ( (q1-q2) - conj(q2*z1 - q1*z2)/conj(dz)*log(conj(z2)/conj(z1))) / conj(dz);
     //cerr << zV << endl;
     return TVec(zV.real(), zV.imag());
 }
-- 
2.43.0


From 910f29eabf9cf28c07871aa010b31745df1a27ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 13/74] fix: core radius of a sink was computed from its
 integer strength

---
 libvvhd/src/MConvectiveFast.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index 2c0fd0c..6937f22 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -1,6 +1,7 @@
 #include "MConvectiveFast.hpp"
 #include "elementary.h"
 
+#include <cmath>
 #include <complex>
 #include <sys/stat.h>
 #include <sys/types.h>
@@ -165,7 +166,7 @@ TVec MConvectiveFast::sink_list_influence(const TVec &p) const
     for (const auto& src: S->SourceList)
     {
         TVec dr = p - src.r;
-        res += dr*(src.g / (dr.abs2() + eps2_div_srcg*abs(src.g)) );
+        res += dr*(src.g / (dr.abs2() + eps2_div_srcg*fabs(src.g)) );
     }
 
     res *= C_1_2PI;
-- 
2.43.0


From 3f5043fe519a4c919cae5335c9b1a81b8c1fc647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 14/74] fix: find points in the thermal layer outside of the
 wall's extents and after the body has moved

---
 libvvhd/src/TBody.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 0143ceb..3ea44cd 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -199,6 +199,8 @@ void TBody::move(TVec3D deltaHolder, TVec3D deltaBody)
 
 void TBody::doUpdateSegments()
 {
+    heat_layer.clear();
+
     if (!alist.size()) {
         return;
     }
@@ -216,6 +218,14 @@ void TBody::doUpdateSegments()
 
 TAtt* TBody::isPointInvalid(TVec p)
 {
+    if ( !isInsideValid() && (
+        p.x < _min_rect_bl.x ||
+        p.y < _min_rect_bl.y ||
+        p.x > _min_rect_tr.x ||
+        p.y > _min_rect_tr.y ||
+        (p-_cofm).abs2() > _min_disc_r2
+        )) return NULL;
+
     return isPointInContour(p, alist);
 }
 
@@ -239,14 +249,6 @@ template <class T>
 TAtt* TBody::isPointInContour(TVec p, std::vector<T> &list)
 {
     bool inContour = isInsideValid();
-    if ( !inContour && (
-        p.x < _min_rect_bl.x ||
-        p.y < _min_rect_bl.y ||
-        p.x > _min_rect_tr.x ||
-        p.y > _min_rect_tr.y ||
-        (p-_cofm).abs2() > _min_disc_r2
-        )) return NULL;
-
     TAtt *nearest = NULL;
     double nearest_dr2 = std::numeric_limits<double>::max();
 
-- 
2.43.0


From b6570ea8a7fcb5bd6694178ea01621e1e4862636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 15/74] fix: apply the slip property of a body set from a
 script

---
 utils/vvflow/lua_tbody.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/vvflow/lua_tbody.cpp b/utils/vvflow/lua_tbody.cpp
index 21e610e..8ed99ff 100644
--- a/utils/vvflow/lua_tbody.cpp
+++ b/utils/vvflow/lua_tbody.cpp
@@ -20,6 +20,7 @@ int luavvd_setslip(lua_State *L) {
     for (auto& latt: body->alist) {
         latt.slip = val;
     }
+    body->doFillProperties();
     return 0;
 }
 
-- 
2.43.0


From f0e12df39f096e527c61beae91c5a940de70dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 16/74] fix: judge points at the level of a corner of a body
 correctly

---
 libvvhd/src/TBody.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 3ea44cd..bd14092 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -261,7 +261,7 @@ TAtt* TBody::isPointInContour(TVec p, std::vector<T> &list)
                     (vi.y < vj.y) && (vi.y < p.y) && (p.y <= vj.y) &&
                     ((vj.y - vi.y) * (p.x - vi.x) > (vj.x - vi.x) * (p.y - vi.y))
             ) || (
-                (vi.y > vj.y) && (vi.y > p.y) && (p.y >= vj.y) &&
+                (vi.y > vj.y) && (vi.y >= p.y) && (p.y > vj.y) &&
                 ((vj.y - vi.y) * (p.x - vi.x) < (vj.x - vi.x) * (p.y - vi.y))
                 )) inContour = !inContour;
     }
-- 
2.43.0


From b829732d0a279b5358e76c7c4082860ca7e8aaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 17/74] fix: centre of a flat body after it is rotated

---
 libvvhd/src/TBody.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index bd14092..7d8127f 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -301,7 +301,8 @@ void TBody::doFillProperties()
 
     }
 
-    if (_area == 0) {
+    if (fabs(_area) <= 1e-12 * _slen * _slen) {
+        // the contour is flat, up to rounding errors
         TVec _L_cofm = TVec(0., 0.);
 
         for (auto latt=alist.begin(); latt<alist.end()-1; latt++) {
-- 
2.43.0


From 942c090a676883f9339405aaf947472eb4ef9402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 18/74] fix: core size of a lone vortex overflowed when squared

---
 libvvhd/src/MEpsilonFast.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/MEpsilonFast.cpp b/libvvhd/src/MEpsilonFast.cpp
index b23fd2f..67a7a07 100644
--- a/libvvhd/src/MEpsilonFast.cpp
+++ b/libvvhd/src/MEpsilonFast.cpp
@@ -44,7 +44,8 @@ void MEpsilonFast::CalcEpsilonFast(bool merge)
 
         double eps_restriction = nearestAtt ?
             nearestAtt->dl.abs()*(1.0/3.0)
-            : 0;
+            // a lone vortex has no neighbours to measure, but neither eps^2 nor 1/eps^2 may overflow
+            : 1e-100;
 
         for (TObj *lobj = lbnode->vRange.first; lobj < lbnode->vRange.last; lobj++)
         {
-- 
2.43.0


From d464ef4e9db8591bfd430ba217513f3961b16722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:20 +0000
Subject: [PATCH 19/74] fix: moment of friction is taken about the axis like
 the other moments

---
 libvvhd/src/TSpace.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index d309859..83688d5 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -103,6 +103,8 @@ void Space::calc_forces()
         double tmp_gsum = 0;
         //TObj tmp_fric(0,0,0);
         lbody->friction = TVec3D();
+        // like all other moments, the one of friction is taken about the axis
+        const TVec axis = lbody->get_axis();
 
         for (TAtt& latt: lbody->alist)
         {
@@ -112,7 +114,7 @@ void Space::calc_forces()
             latt.Nu += latt.hsum * (re*pr / latt.dl.abs());
 
             lbody->friction.r -= latt.dl * (latt.fric * C_Nyu_Pi / latt.dl.abs());
-            lbody->friction.o -= (rotl(latt.r)* latt.dl) * (latt.fric  * C_Nyu_Pi / latt.dl.abs());
+            lbody->friction.o -= (rotl(latt.r - axis)* latt.dl) * (latt.fric  * C_Nyu_Pi / latt.dl.abs());
             lbody->nusselt += latt.hsum * (re*pr);
         }
 
-- 
2.43.0


From 3925e47fb6edd961d29f78aa8743830d00456086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 20/74] fix: horizontal speed carried over from the root is
 taken at the axis, as the vertical one

---
 libvvhd/src/MConvectiveFast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index 6937f22..4bc0ec4 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -821,7 +821,7 @@ void MConvectiveFast::fillSpeedXEquation(unsigned eq_no, TBody* ibody, bool righ
     {
         *matrix.getCell(eq_no, &root_body->speed_slae.r.x) = -1;
         *matrix.getCell(eq_no, &root_body->speed_slae.r.y) = 0;
-        *matrix.getCell(eq_no, &root_body->speed_slae.o)   = (ibody->holder.r - root_body->get_axis()).y;
+        *matrix.getCell(eq_no, &root_body->speed_slae.o)   = (ibody->get_axis() - root_body->get_axis()).y;
     }
 }
 
-- 
2.43.0


From 2678b59ca58e274330fef8f4ec5ae417c2fefb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 21/74] fix: sign of the influence of a rotating surface on a
 segment inside its core

---
 libvvhd/src/MConvectiveFast.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index 4bc0ec4..177b4f1 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -345,8 +345,10 @@ TVec MConvectiveFast::_2PI_Xi(const TVec &p, const TAtt &seg, double rd)
     }
     else if ( dr1_sqr<=rd_sqr && dr2_sqr<=rd_sqr )
     {
-        TVec dp = p-seg.r;
-        return TVec(dp*seg.dl, dp*rotl(seg.dl))/sqr(rd);
+        return TVec(
+                _2PI_Xi_g_near(p, seg.r, seg.dl, rd),
+                _2PI_Xi_q_near(p, seg.r, seg.dl, rd)
+                );
     }
     else
     {
-- 
2.43.0


From f450ebfb3141f729f1130d77cb0561b5a65b8252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 22/74] fix: a collision was forgotten when another elastic
 component was filled first

---
 libvvhd/src/MConvectiveFast.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index 177b4f1..98cbbe6 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -931,8 +931,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.r.x;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
@@ -948,8 +948,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.r.y;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
@@ -966,8 +966,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.o;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
-- 
2.43.0


From 4063f65934deac1ba91e06a9236f6bfade432fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:07 +0000
Subject: [PATCH 23/74] fix: a body resting at its collision limit moved the
 flow back in time

---
 libvvhd/src/MFlowmove.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libvvhd/src/MFlowmove.cpp b/libvvhd/src/MFlowmove.cpp
index bd4af5d..176b4c2 100644
--- a/libvvhd/src/MFlowmove.cpp
+++ b/libvvhd/src/MFlowmove.cpp
@@ -2,6 +2,7 @@
 
 #include <ctime>
 #include <cmath>
+#include <algorithm>
 #include <map>
 
 using std::shared_ptr;
@@ -42,10 +43,12 @@ void MFlowmove::move_and_clean(bool remove, const void** collision, size_t* clea
             double dt_ = d_nan;
             if (TBody::isrigid(*kspring_[i])) {
                 /* do nothing */
-            } else if (new_pos[i] > max[i]) {
-                dt_ = (max[i] - cur_pos[i]) / speed[i];
-            } else if (new_pos[i] < min[i]) {
-                dt_ = (min[i] - cur_pos[i]) / speed[i];
+            // a body may be beyond the limit by a rounding error:
+            // it neither moves back in time nor collides unless it goes further
+            } else if (new_pos[i] > max[i] && new_pos[i] > cur_pos[i]) {
+                dt_ = std::max(0., (max[i] - cur_pos[i]) / speed[i]);
+            } else if (new_pos[i] < min[i] && new_pos[i] < cur_pos[i]) {
+                dt_ = std::max(0., (min[i] - cur_pos[i]) / speed[i]);
             }
 
             if (dt_ < current_dt) {
-- 
2.43.0


From 30a0ab097c996252cb43c8ffbe786b1d071a5000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:35 +0000
Subject: [PATCH 24/74] fix: a snapshot lacked the core sizes and wall
 friction, so a resumed run differed from the uninterrupted one

---
 libvvhd/src/TSpace_load_hdf.cpp | 31 ++++++++++++++++++++++++++++
 libvvhd/src/TSpace_save_hdf.cpp | 36 +++++++++++++++++++++++++++++++++
 2 files changed, 67 insertions(+)

diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index a924d9a..7051366 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -51,6 +51,31 @@ static void dataset_read_list(hid_t fid, std::string name, std::vector<TObj>& li
         h5_throw("H5Dclose", name);
 }
 
+static std::vector<double> dataset_read_aux(hid_t fid, std::string name, size_t size)
+{
+    std::vector<double> values(size, 0.);
+    if (!H5Lexists(fid, name.c_str(), H5P_DEFAULT))
+        return values;
+
+    hid_t h5d = H5Dopen(fid, name.c_str(), H5P_DEFAULT);
+    if (h5d < 0)
+        h5_throw("H5Dopen", name);
+
+    hsize_t dims[2] = {size, 1};
+    hid_t h5s_mem = H5Screate_simple(2, dims, dims);
+    if (h5s_mem < 0)
+        h5_throw("H5Screate_simple", name);
+
+    herr_t err = H5Dread(h5d, H5T_NATIVE_DOUBLE, h5s_mem, H5S_ALL, H5P_DEFAULT, values.data());
+    if (err < 0)
+        h5_throw("H5Dread", name);
+    err = H5Dclose(h5d);
+    if (err < 0)
+        h5_throw("H5Dclose", name);
+    H5Sclose(h5s_mem);
+    return values;
+}
+
 static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
 {
     TBody& body = *body_map[name];
@@ -211,6 +236,9 @@ void Space::load_hdf(int64_t fid, metainfo_t *info)
     }
 
     dataset_read_list(fid, "vort", VortexList);
+    std::vector<double> vort_eps = dataset_read_aux(fid, "vort_1_eps", VortexList.size());
+    for (size_t i = 0; i < VortexList.size(); i++)
+        VortexList[i]._1_eps = vort_eps[i];
     dataset_read_list(fid, "heat", HeatList);
     dataset_read_list(fid, "ink", StreakList);
     dataset_read_list(fid, "ink_source", StreakSourceList);
@@ -224,6 +252,9 @@ void Space::load_hdf(int64_t fid, metainfo_t *info)
         const std::shared_ptr<TBody>& lbody = pair.second;
 
         dataset_read_body(fid, name, body_map);
+        std::vector<double> fric = dataset_read_aux(fid, "fric_" + name, lbody->size());
+        for (size_t i = 0; i < lbody->size(); i++)
+            lbody->alist[i].fric = fric[i];
         BodyList.push_back(lbody);
     }
 
diff --git a/libvvhd/src/TSpace_save_hdf.cpp b/libvvhd/src/TSpace_save_hdf.cpp
index f96cfdb..054f067 100644
--- a/libvvhd/src/TSpace_save_hdf.cpp
+++ b/libvvhd/src/TSpace_save_hdf.cpp
@@ -48,6 +48,33 @@ static void dataset_write_list(hid_t fid, std::string name, const std::vector<TO
         h5_throw("H5Dclose", name);
 }
 
+// Auxiliary values the simulation resumes from, one per element.
+// Omitted when there is nothing to remember.
+static void dataset_write_aux(hid_t fid, std::string name, const std::vector<double>& values)
+{
+    bool empty = true;
+    for (double val: values) empty &= (val == 0);
+    if (empty)
+        return;
+
+    hsize_t dims[2] = {values.size(), 1};
+    hid_t h5s_file = H5Screate_simple(2, dims, dims);
+    if (h5s_file < 0)
+        h5_throw("H5Screate_simple", name);
+
+    hid_t h5d = H5Dcreate(fid, name.c_str(), H5T_NATIVE_DOUBLE, h5s_file, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
+    if (h5d < 0)
+        h5_throw("H5Dcreate", name);
+
+    herr_t err = H5Dwrite(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, h5s_file, H5P_DEFAULT, values.data());
+    if (err < 0)
+        h5_throw("H5Dwrite", name);
+    err = H5Dclose(h5d);
+    if (err < 0)
+        h5_throw("H5Dclose", name);
+    H5Sclose(h5s_file);
+}
+
 static void dataset_write_body(hid_t fid, std::string name, std::string root_name, const TBody& body)
 {
     bool can_simplify_slip = true;
@@ -189,6 +216,10 @@ void Space::save_hdf(int64_t fid)
     h5a_write<std::string const&> (fid, "time_local", timestr);
 
     dataset_write_list(fid, "vort", VortexList);
+    std::vector<double> vort_eps;
+    for (const TObj& obj: VortexList)
+        vort_eps.push_back(obj._1_eps);
+    dataset_write_aux(fid, "vort_1_eps", vort_eps);
     dataset_write_list(fid, "heat", HeatList);
     dataset_write_list(fid, "ink", StreakList);
     dataset_write_list(fid, "ink_source", StreakSourceList);
@@ -214,6 +245,11 @@ void Space::save_hdf(int64_t fid)
         }
 
         dataset_write_body(fid, body_name.c_str(), root_name, *lbody);
+
+        std::vector<double> fric;
+        for (const TAtt& att: lbody->alist)
+            fric.push_back(att.fric);
+        dataset_write_aux(fid, "fric_" + body_name, fric);
     }
 
     h5t_commit_all(fid);
-- 
2.43.0


From b2229d5be7572ae0740f924676022c0ab2fd8ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:35 +0000
Subject: [PATCH 25/74] fix: vortices given by the problem had no core size in
 the first solution

---
 utils/vvflow/vvflow.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 2abf4ff..925ca5b 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -224,6 +224,17 @@ static void simulate (Space &S) {
         S.BodyList->at(0)->overrideMoi_c(OVERRIDEMOI);
     #endif
 
+    // vortices which have not been simulated yet have no core size,
+    // but the first solution for the circulation depends on it
+    bool has_new_vortices = false;
+    for (const TObj& lobj: S.VortexList) has_new_vortices |= (lobj.g && !lobj._1_eps);
+    if (has_new_vortices)
+    {
+        dbg(tr.build());
+        dbg(epsilon.CalcEpsilonFast(/*merge=*/false));
+        dbg(tr.destroy());
+    }
+
     const void* collision = nullptr;
     while (S.time < S.finish + S.dt/2)
     {
-- 
2.43.0


From 24f903aa85ddea824653dcdf0e87f7526f897055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 26/74] fix: a run resumed right after a collision forgot it

---
 libvvhd/headers/TBody.hpp       |  2 ++
 libvvhd/src/TBody.cpp           |  2 ++
 libvvhd/src/TSpace_load_hdf.cpp |  1 +
 libvvhd/src/TSpace_save_hdf.cpp |  2 ++
 utils/vvflow/vvflow.cpp         | 15 +++++++++++++++
 5 files changed, 22 insertions(+)

diff --git a/libvvhd/headers/TBody.hpp b/libvvhd/headers/TBody.hpp
index d67231e..4e40788 100644
--- a/libvvhd/headers/TBody.hpp
+++ b/libvvhd/headers/TBody.hpp
@@ -85,6 +85,8 @@ class TBody
         TVec3D collision_min;
         TVec3D collision_max;
         double bounce;
+        // the component which reached its limit in the last step: 0 - none, 1 - x, 2 - y, 3 - o
+        int32_t collision_state;
 
         //double kx, ky, ka;
         double density; //in doc rho_b/rho_0
diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 7d8127f..8fa6e7f 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -22,6 +22,7 @@ TBody::TBody():
     collision_min(NaN, NaN, NaN),
     collision_max(NaN, NaN, NaN),
     bounce(),
+    collision_state(0),
 
     density(1.0),
     special_segment_no(0),
@@ -73,6 +74,7 @@ TBody& TBody::operator= (const TBody& copy)
     collision_min = copy.collision_min;
     collision_max = copy.collision_max;
     bounce = copy.bounce;
+    collision_state = copy.collision_state;
     density = copy.density;
     special_segment_no = copy.special_segment_no;
     boundary_condition = copy.boundary_condition;
diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index 7051366..59c1d82 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -113,6 +113,7 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
     body.collision_min = h5a_read<TVec3D> (h5d, "collision_min");
     body.collision_max = h5a_read<TVec3D> (h5d, "collision_max");
     body.bounce = h5a_read<double> (h5d, "bounce");
+    body.collision_state = h5a_read<int32_t> (h5d, "collision_state");
 
     std::string root_name = h5a_read<std::string> (h5d, "root_body");
     if (root_name.empty()) {
diff --git a/libvvhd/src/TSpace_save_hdf.cpp b/libvvhd/src/TSpace_save_hdf.cpp
index 054f067..6c0d45e 100644
--- a/libvvhd/src/TSpace_save_hdf.cpp
+++ b/libvvhd/src/TSpace_save_hdf.cpp
@@ -171,6 +171,8 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
     h5a_write<TVec3D> (h5d, "collision_min", body.collision_min);
     h5a_write<TVec3D> (h5d, "collision_max", body.collision_max);
     h5a_write<double> (h5d, "bounce", body.bounce);
+    if (body.collision_state)
+        h5a_write<int32_t> (h5d, "collision_state", body.collision_state);
 
     h5a_write<double> (h5d, "area", body.get_area());
     h5a_write<TVec> (h5d, "cofm", body.get_cofm());
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 925ca5b..bedec1b 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -235,7 +235,15 @@ static void simulate (Space &S) {
         dbg(tr.destroy());
     }
 
+    // go on with the collision the previous run has ended with
     const void* collision = nullptr;
+    for (auto& lbody: S.BodyList)
+    {
+        const double* kspring[] = {&lbody->kspring.r.x, &lbody->kspring.r.y, &lbody->kspring.o};
+        if (lbody->collision_state >= 1 && lbody->collision_state <= 3)
+            collision = kspring[lbody->collision_state - 1];
+    }
+
     while (S.time < S.finish + S.dt/2)
     {
         if (S.BodyList.size())
@@ -280,6 +288,13 @@ static void simulate (Space &S) {
         dbg(tr.destroy());
 
         dbg(flowmove.move_and_clean(true, &collision));
+        for (auto& lbody: S.BodyList)
+        {
+            lbody->collision_state =
+                collision == &lbody->kspring.r.x ? 1 :
+                collision == &lbody->kspring.r.y ? 2 :
+                collision == &lbody->kspring.o   ? 3 : 0;
+        }
             #ifdef OVERRIDEMOI
                     S.BodyList->at(0)->overrideMoi_c(OVERRIDEMOI);
             #endif
-- 
2.43.0


From 9f85db6d81de24218d0c0073d355c2a97921c69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 27/74] fix: two snapshots got the same step number when the
 start is half a step off

---
 libvvhd/src/TSpace.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 83688d5..f57e315 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -62,6 +62,18 @@ void Space::load(const char* fname, metainfo_t *info)
         h5_throw("H5Fclose", fname);
 }
 
+// number of the step at the given time: floor(time/dt + 1/2).
+// In floating point 0.05/0.1 and 0.15/0.1 would both give step 1.
+static int step_number(TTime time, TTime dt)
+{
+    const __int128 num = __int128(time.value)*dt.timescale;
+    const __int128 den = __int128(dt.value)*time.timescale;
+    if (den <= 0)
+        return int(double(time)/double(dt)+0.5);
+    const __int128 twice = 2*num + den;
+    return int(twice >= 0 ? twice/(2*den) : -((2*den - 1 - twice)/(2*den)));
+}
+
 void Space::save(const char* format)
 {
     for (std::shared_ptr<TBody>& lbody: BodyList)
@@ -69,7 +81,7 @@ void Space::save(const char* format)
         lbody->validate(/*critical=*/true);
     }
 
-    const int step = int(time/dt+0.5);
+    const int step = step_number(time, dt);
     std::string fname(snprintf(NULL, 0, format, step) + 1, '\0');
     snprintf(&fname[0], fname.size(), format, step);
     fname.pop_back();
@@ -87,7 +99,7 @@ void Space::save(const char* format)
 
 FILE* Space::open_file(const char* format)
 {
-    char fname[64]; sprintf(fname, format, int(time/dt+0.5));
+    char fname[64]; sprintf(fname, format, step_number(time, dt));
     FILE *fout;
     fout = fopen(fname, "w");
     if (!fout) { perror("Error opening file"); return NULL; }
-- 
2.43.0


From a5dc96cba8793b9801ac0a2f00fb9d928aa4301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 28/74] fix: rows before a snapshot could be missing from the
 step record after a kill

---
 libvvhd/src/MStepdata.cpp | 14 +++++++++++---
 utils/vvflow/vvflow.cpp   |  3 ++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/libvvhd/src/MStepdata.cpp b/libvvhd/src/MStepdata.cpp
index c68a7d5..9d11867 100644
--- a/libvvhd/src/MStepdata.cpp
+++ b/libvvhd/src/MStepdata.cpp
@@ -124,6 +124,9 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
 
         H5Gclose(body_h5g);
     }
+
+    // leave a valid file on the disk even if nothing else gets there
+    flush();
 }
 
 Stepdata::~Stepdata()
@@ -147,7 +150,13 @@ Stepdata::~Stepdata()
 
 void Stepdata::flush()
 {
-    last_flush_time = 0;
+    herr_t err = H5Fflush(h5f, H5F_SCOPE_GLOBAL);
+    if (err < 0)
+        h5_throw("H5Fflush", "stepdata");
+
+    struct timespec clk;
+    clock_gettime(CLOCK_MONOTONIC, &clk);
+    last_flush_time = clk.tv_sec;
 }
 
 void Stepdata::write()
@@ -186,8 +195,7 @@ void Stepdata::write()
     clock_gettime(CLOCK_MONOTONIC, &clk);
     if (clk.tv_sec - last_flush_time > 20)
     {
-        H5Fflush(h5f, H5F_SCOPE_GLOBAL);
-        last_flush_time = clk.tv_sec;
+        flush();
     }
 }
 
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index bedec1b..7463e2e 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -263,10 +263,11 @@ static void simulate (Space &S) {
 
         if (S.time.divisibleBy(S.dt_save)  && (double(S.time) >= 0))
         {
+            // whoever resumes from this file needs the steps before it
+            stepdata.flush();
             char tmp_filename[256];
             snprintf(tmp_filename, 256, "%s/%%06d.h5", f_results);
             S.save(tmp_filename);
-            stepdata.flush();
         }
 
         dbg(flowmove.vortex_shed());
-- 
2.43.0


From 43ec0c0001440a08bc3c9840baa15b8c785b51a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:52 +0000
Subject: [PATCH 29/74] fix: the step record told steps apart in single
 precision only, and ignored an unreadable time

---
 libvvhd/headers/MStepdata.hpp |  1 +
 libvvhd/src/MStepdata.cpp     | 22 ++++++++++++++++------
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/libvvhd/headers/MStepdata.hpp b/libvvhd/headers/MStepdata.hpp
index 3da5c8b..8bc78dc 100644
--- a/libvvhd/headers/MStepdata.hpp
+++ b/libvvhd/headers/MStepdata.hpp
@@ -16,6 +16,7 @@ class Stepdata
 
     private:
         int64_t h5d_init(int64_t loc_id, const char *name, size_t rows, size_t cols);
+        int64_t h5d_init(int64_t loc_id, const char *name, size_t rows, size_t cols, int64_t type);
         void append(int64_t h5d, const void* buf);
         void append(int64_t h5d, double value);
         void append(int64_t h5d, TVec3D value);
diff --git a/libvvhd/src/MStepdata.cpp b/libvvhd/src/MStepdata.cpp
index 9d11867..7c5e99e 100644
--- a/libvvhd/src/MStepdata.cpp
+++ b/libvvhd/src/MStepdata.cpp
@@ -66,19 +66,24 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
                 h5_throw("H5Dget_space", "time");
             hsize_t dims[2];
             H5Sget_simple_extent_dims(h5s, dims, NULL);
-            float* tbuf = new float[dims[0]*dims[1]];
-            H5Dread(h5d, H5T_NATIVE_FLOAT, h5s, h5s, H5P_DEFAULT, tbuf);
-            for (rows=0; rows<dims[0] && tbuf[rows*dims[1]] < float(S->time); rows++)
+            std::vector<double> tbuf(dims[0]*dims[1]);
+            if (H5Dread(h5d, H5T_NATIVE_DOUBLE, h5s, h5s, H5P_DEFAULT, tbuf.data()) < 0)
+                h5_throw("H5Dread", "time");
+            // files written by older versions hold single precision
+            hid_t h5t = H5Dget_type(h5d);
+            const double now = H5Tget_size(h5t) < sizeof(double) ? float(S->time) : double(S->time);
+            H5Tclose(h5t);
+            for (rows=0; rows<dims[0] && tbuf[rows*dims[1]] < now; rows++)
             {
                 /* DO NOTHING */;
             }
             H5Sclose(h5s);
             H5Dclose(h5d);
-            delete [] tbuf;
         }
     }
 
-    time_h5d = h5d_init(h5f, "time", rows, 1);
+    // single precision does not tell the steps of a long run apart
+    time_h5d = h5d_init(h5f, "time", rows, 1, H5T_NATIVE_DOUBLE);
     for (auto& lbody: S->BodyList)
     {
         size_t body_n = S->get_body_index(lbody.get());
@@ -261,6 +266,11 @@ void Stepdata::append(int64_t h5d, TVec3D value)
 }
 
 int64_t Stepdata::h5d_init(int64_t loc_id, const char *name, size_t rows, size_t cols)
+{
+    return h5d_init(loc_id, name, rows, cols, H5T_NATIVE_FLOAT);
+}
+
+int64_t Stepdata::h5d_init(int64_t loc_id, const char *name, size_t rows, size_t cols, int64_t type)
 {
     hid_t h5d;
     herr_t err;
@@ -289,7 +299,7 @@ int64_t Stepdata::h5d_init(int64_t loc_id, const char *name, size_t rows, size_t
         hsize_t cur_dims[2] = {rows, cols};
         hsize_t max_dims[2] = {H5S_UNLIMITED, cols};
         hid_t h5s = H5Screate_simple(2, cur_dims, max_dims);
-        h5d = H5Dcreate(loc_id, name, H5T_NATIVE_FLOAT, h5s, H5P_DEFAULT, h5p, H5P_DEFAULT);
+        h5d = H5Dcreate(loc_id, name, type, h5s, H5P_DEFAULT, h5p, H5P_DEFAULT);
         H5Sclose(h5s);
         H5Pclose(h5p);
     }
-- 
2.43.0


From feb9a08f05d88bcf395e7b6e2fcf206a808980d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 30/74] fix: list:append left a part behind when it failed,
 load_bin raised no error for a missing file

---
 libvvhd/src/TSpace.cpp       | 16 ++++++++++++++--
 utils/vvflow/lua_objlist.cpp | 13 ++++++++++---
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index f57e315..77008e4 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -165,13 +165,20 @@ int Space::load_list_txt(std::vector<TObj>& li, const char* filename)
     FILE *fin = fopen(filename, "r");
     if (!fin) { return errno; }
 
+    // nothing is loaded from a file which can not be read
+    std::vector<TObj> loaded;
     TObj obj(0, 0, 0);
     while ( fscanf(fin, "%lf %lf %lf", &obj.r.x, &obj.r.y, &obj.g)==3 )
     {
-        li.push_back(obj);
+        loaded.push_back(obj);
     }
 
+    int err = ferror(fin) ? (errno?:EIO) : 0;
     fclose(fin);
+    if (err)
+        return err;
+
+    li.insert(li.end(), loaded.begin(), loaded.end());
     return 0;
 }
 
@@ -181,13 +188,18 @@ int Space::load_list_bin(std::vector<TObj>& li, const char* filename)
     fin.open(filename, ios::in | ios::binary);
     if (!fin) { return errno; }
 
+    std::vector<TObj> loaded;
     TObj obj(0, 0, 0);
     while ( fin.read(reinterpret_cast<char*>(&obj), 3*sizeof(double)) )
     {
-        li.push_back(obj);
+        loaded.push_back(obj);
     }
 
+    if (fin.bad())
+        return errno?:EIO;
+
     fin.close();
+    li.insert(li.end(), loaded.begin(), loaded.end());
     return 0;
 }
 
diff --git a/utils/vvflow/lua_objlist.cpp b/utils/vvflow/lua_objlist.cpp
index dab6d4f..9cd918b 100644
--- a/utils/vvflow/lua_objlist.cpp
+++ b/utils/vvflow/lua_objlist.cpp
@@ -12,12 +12,16 @@ static int objlist_append(lua_State *L) {
     vector<TObj> *li = checkObjList(L, 1);
     int isobj;
 
+    // check all of them before the list is changed
     for (int i=2; i<=lua_gettop(L); i++) {
-        TObj obj = lua_toTObjx(L, i, &isobj);
+        lua_toTObjx(L, i, &isobj);
         if (!isobj) {
             luaL_argerror(L, i, "expected TObj");
         }
-        li->push_back(obj);
+    }
+
+    for (int i=2; i<=lua_gettop(L); i++) {
+        li->push_back(lua_toTObjx(L, i, &isobj));
     }
 
     return 0;
@@ -42,7 +46,10 @@ static int objlist_load_txt(lua_State *L) {
 static int objlist_load_bin(lua_State *L) {
     vector<TObj> *li = checkObjList(L, 1);
     const char* fname = luaL_checkstring(L, 2);
-    Space::load_list_bin(*li, fname);
+    int err = Space::load_list_bin(*li, fname);
+    if (err) {
+        luaL_error(L, "can not load '%s' (%s)", fname, strerror(err));
+    }
     return 0;
 }
 
-- 
2.43.0


From 35cb8aaf716ba3487fa225055441f4653139f31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 31/74] fix: script handles of list elements and of parts of
 bodies outlived what they point to

---
 utils/vvflow/getset.cpp      | 10 ++++++++++
 utils/vvflow/getset.h        |  4 ++++
 utils/vvflow/lua_objlist.cpp |  6 +++---
 utils/vvflow/lua_tbody.cpp   |  2 ++
 utils/vvflow/lua_tobj.cpp    | 33 +++++++++++++++++---------------
 utils/vvflow/lua_tobj.h      |  8 +++++---
 utils/vvflow/lua_tvec.cpp    | 37 +++++++++++++++++++++++++++++-------
 utils/vvflow/lua_tvec.h      |  5 ++++-
 utils/vvflow/lua_tvec3d.cpp  |  1 +
 9 files changed, 77 insertions(+), 29 deletions(-)

diff --git a/utils/vvflow/getset.cpp b/utils/vvflow/getset.cpp
index cd428aa..c4d7c40 100644
--- a/utils/vvflow/getset.cpp
+++ b/utils/vvflow/getset.cpp
@@ -3,6 +3,16 @@
 
 #include <lua.hpp>
 
+void luavvd_setowner(lua_State *L, int idx) {
+    if (lua_type(L, -1) != LUA_TUSERDATA)
+        return;
+
+    lua_createtable(L, 1, 0);
+    lua_pushvalue(L, idx);
+    lua_rawseti(L, -2, 1);
+    lua_setuservalue(L, -2);
+}
+
 int luavvd_setdouble(lua_State *L) {
     double* dbl = (double*)lua_touserdata(L, 1);
     
diff --git a/utils/vvflow/getset.h b/utils/vvflow/getset.h
index 914aa30..4351080 100644
--- a/utils/vvflow/getset.h
+++ b/utils/vvflow/getset.h
@@ -34,6 +34,10 @@ int luavvd_getTEval(lua_State *L);  // lua_newuserdata(TEval*, "TEval")
 int luavvd_getObjList(lua_State *L); // lua_newuserdata(std::vector<TObj>*, "ObjList")
 int luavvd_getBodyList(lua_State *L); // lua_newuserdata(std::vector<shared_ptr<TBody>>*, "BodyList")
 
+/* keep the userdata at index alive as long as the userdata on the top of the stack,
+   which points into it. Anything else on the top is left alone. */
+void luavvd_setowner(lua_State *L, int idx);
+
 struct luavvd_member {
     const char *name;
     lua_CFunction getter;
diff --git a/utils/vvflow/lua_objlist.cpp b/utils/vvflow/lua_objlist.cpp
index 9cd918b..d7a7c51 100644
--- a/utils/vvflow/lua_objlist.cpp
+++ b/utils/vvflow/lua_objlist.cpp
@@ -63,7 +63,7 @@ static int objlist_totable(lua_State *L) {
     vector<TObj> *li = checkObjList(L, 1);
     lua_newtable(L);
     for (int i=0; i<li->size(); i++) {
-        lua_pushTObj(L, &li->at(i));
+        lua_pushTObj(L, li, i);
         lua_rawseti(L, -2, i+1);
     }
     return 1;
@@ -96,7 +96,7 @@ static int objlist_getindex(lua_State *L) {
     if (lua_isnumber(L, 2)) {
         lua_Integer idx = lua_tointeger(L, 2)-1;
         if (idx >= 0 && idx < li->size()) {
-            lua_pushTObj(L, &li->at(idx));
+            lua_pushTObj(L, li, idx);
             return 1;
         }
     } else if (lua_isstring(L, 2)) {
@@ -121,7 +121,7 @@ static int objlist_getnext(lua_State *L) {
         return 1;
     } else {
         lua_pushinteger(L, idx+1);
-        lua_pushTObj(L, &li->at(idx));
+        lua_pushTObj(L, li, idx);
         return 2;
     }
 }
diff --git a/utils/vvflow/lua_tbody.cpp b/utils/vvflow/lua_tbody.cpp
index 8ed99ff..695d1cc 100644
--- a/utils/vvflow/lua_tbody.cpp
+++ b/utils/vvflow/lua_tbody.cpp
@@ -141,6 +141,7 @@ static int tbody_totable(lua_State *L) {
     lua_newtable(L);
     for (int i=0; i<body->alist.size(); i++) {
         lua_pushTVec(L, &body->alist[i].corner);
+        luavvd_setowner(L, 1);
         lua_rawseti(L, -2, i+1);
     }
     return 1;
@@ -256,6 +257,7 @@ static int tbody_getindex(lua_State *L) {
         PUSH_MEMBER();
         body.reset();
         lua_call(L, 1, 1);
+        luavvd_setowner(L, 1);
         return 1;
     }
 
diff --git a/utils/vvflow/lua_tobj.cpp b/utils/vvflow/lua_tobj.cpp
index e81c9a7..72fd781 100644
--- a/utils/vvflow/lua_tobj.cpp
+++ b/utils/vvflow/lua_tobj.cpp
@@ -1,4 +1,5 @@
 #include "lua_tobj.h"
+#include "lua_tvec.h"
 #include "getset.h"
 
 // #include <stdio.h>
@@ -51,6 +52,7 @@ static int tobj_getindex(lua_State *L) {
         lua_pushcfunction(L, f->getter);
         lua_pushlightuserdata(L, (char*)obj + f->offset);
         lua_call(L, 1, 1);
+        lua_bindTVec(L, 1, f->offset);
         return 1;
     }
 
@@ -80,16 +82,25 @@ int luaopen_tobj (lua_State *L) {
     return 0;
 }
 
-void lua_pushTObj(lua_State *L, TObj* obj) {
-    TObj** udat = (TObj**)lua_newuserdata(L, sizeof(void*));
-    *udat = obj;
+/* lists move their elements as they grow, so it is not the address what is kept */
+struct LuaTObj {
+    std::vector<TObj>* li;
+    size_t idx;
+};
+
+void lua_pushTObj(lua_State *L, std::vector<TObj>* li, size_t idx) {
+    LuaTObj* udat = (LuaTObj*)lua_newuserdata(L, sizeof(LuaTObj));
+    udat->li = li;
+    udat->idx = idx;
     luaL_getmetatable(L, "TObj");
     lua_setmetatable(L, -2);
 }
 
 TObj* lua_checkTObj(lua_State *L, int idx) {
-    TObj** udat = (TObj**)luaL_checkudata(L, idx, "TObj");
-    return *udat;
+    LuaTObj* udat = (LuaTObj*)luaL_checkudata(L, idx, "TObj");
+    if (udat->idx >= udat->li->size())
+        luaL_error(L, "the TObj is not in its list any more");
+    return &udat->li->at(udat->idx);
 }
 
 
@@ -120,12 +131,11 @@ TObj lua_toTObjx(lua_State *L, int idx, int* isobj) {
         *isobj = 1;
         return res;
     } else if (lua_type(L, idx) == LUA_TUSERDATA) {
-        TObj** udata = (TObj**)luaL_testudata(L, idx, "TObj");
-        if (!udata)
+        if (!luaL_testudata(L, idx, "TObj"))
             goto fail;
 
         *isobj = 1;
-        return **udata;
+        return *lua_checkTObj(L, idx);
     }
 
 fail:
@@ -147,10 +157,3 @@ int luavvd_setTObj(lua_State *L) {
     *ptr = obj;
     return 0;
 }
-
-/* getter */
-int luavvd_getTObj(lua_State *L) {
-    TObj* obj = (TObj*)lua_touserdata(L, 1);    
-    lua_pushTObj(L, obj);
-    return 1;
-}
diff --git a/utils/vvflow/lua_tobj.h b/utils/vvflow/lua_tobj.h
index 0f9fa89..5608cd8 100644
--- a/utils/vvflow/lua_tobj.h
+++ b/utils/vvflow/lua_tobj.h
@@ -1,13 +1,15 @@
 #pragma once
 
 #include "TObj.hpp"
+#include <vector>
 #include <lua.hpp>
 
 int luaopen_tobj(lua_State *L);
 
-/* push userdata with (TObj*) and set metatable "TObj" */
-void  lua_pushTObj(lua_State *L, TObj* obj);
-/* get userdata (TObj*) and check metatable is "TObj" */
+/* push userdata with the place of an element and set metatable "TObj" */
+void  lua_pushTObj(lua_State *L, std::vector<TObj>* li, size_t idx);
+/* get (TObj*) and check metatable is "TObj". Error if there is no such element any more.
+   The pointer is good until the list changes. */
 TObj* lua_checkTObj(lua_State *L, int idx);
 /* get value at index and convert it to TObj */
 TObj  lua_toTObjx(lua_State *L, int idx, int* isobj);
diff --git a/utils/vvflow/lua_tvec.cpp b/utils/vvflow/lua_tvec.cpp
index 3528cc9..8e89dcd 100644
--- a/utils/vvflow/lua_tvec.cpp
+++ b/utils/vvflow/lua_tvec.cpp
@@ -1,4 +1,5 @@
 #include "lua_tvec.h"
+#include "lua_tobj.h"
 #include "getset.h"
 
 // #include <stdio.h>
@@ -105,16 +106,39 @@ int luaopen_tvec (lua_State *L) {
     return 0;
 }
 
+struct LuaTVec {
+    TVec* vec; // NULL when it is a part of the TObj in the uservalue
+    size_t offset;
+};
+
 void  lua_pushTVec(lua_State *L, TVec* vec) {
-    TVec** udat = (TVec**)lua_newuserdata(L, sizeof(TVec*));
-    *udat = vec;
+    LuaTVec* udat = (LuaTVec*)lua_newuserdata(L, sizeof(LuaTVec));
+    udat->vec = vec;
+    udat->offset = 0;
     luaL_getmetatable(L, "TVec");
     lua_setmetatable(L, -2);
 }
 
 TVec* lua_checkTVec(lua_State *L, int idx) {
-    TVec** udat = (TVec**)luaL_checkudata(L, idx, "TVec");
-    return *udat;
+    LuaTVec* udat = (LuaTVec*)luaL_checkudata(L, idx, "TVec");
+    if (udat->vec)
+        return udat->vec;
+
+    lua_getuservalue(L, idx);
+    lua_rawgeti(L, -1, 1);
+    TObj* obj = lua_checkTObj(L, -1);
+    lua_pop(L, 2);
+    return (TVec*)((char*)obj + udat->offset);
+}
+
+void lua_bindTVec(lua_State *L, int idx, size_t offset) {
+    LuaTVec* udat = (LuaTVec*)luaL_testudata(L, -1, "TVec");
+    if (!udat)
+        return;
+
+    luavvd_setowner(L, idx);
+    udat->vec = NULL;
+    udat->offset = offset;
 }
 
 TVec lua_toTVecx(lua_State *L, int idx, int* isvec) {
@@ -140,12 +164,11 @@ TVec lua_toTVecx(lua_State *L, int idx, int* isvec) {
         *isvec = 1;
         return res;
     } else if (lua_type(L, idx) == LUA_TUSERDATA) {
-        TVec** udata = (TVec**)luaL_testudata(L, idx, "TVec");
-        if (!udata)
+        if (!luaL_testudata(L, idx, "TVec"))
             goto fail;
 
         *isvec = 1;
-        return **udata;
+        return *lua_checkTVec(L, idx);
     }
 
 fail:
diff --git a/utils/vvflow/lua_tvec.h b/utils/vvflow/lua_tvec.h
index f38923c..3e0bc4b 100644
--- a/utils/vvflow/lua_tvec.h
+++ b/utils/vvflow/lua_tvec.h
@@ -7,7 +7,10 @@ int luaopen_tvec (lua_State *L);
 
 /* push userdata with (TVec*) and set metatable "TVec" */
 void  lua_pushTVec(lua_State *L, TVec* vec);
-/* get userdata (TVec*) and check metatable is "TVec" */
+/* the TVec on the top of the stack belongs to the TObj at index: look it up each time.
+   Anything else on the top is left alone. */
+void  lua_bindTVec(lua_State *L, int idx, size_t offset);
+/* get (TVec*) and check metatable is "TVec". Error if its TObj is gone. */
 TVec* lua_checkTVec(lua_State *L, int idx);
 /* get value at index and convert it to TVec */
 TVec  lua_toTVecx(lua_State *L, int idx, int* isvec);
diff --git a/utils/vvflow/lua_tvec3d.cpp b/utils/vvflow/lua_tvec3d.cpp
index 033ffdd..148c415 100644
--- a/utils/vvflow/lua_tvec3d.cpp
+++ b/utils/vvflow/lua_tvec3d.cpp
@@ -88,6 +88,7 @@ static int tvec3d_getindex(lua_State *L) {
         lua_pushcfunction(L, f->getter);
         lua_pushlightuserdata(L, (char*)vec + f->offset);
         lua_call(L, 1, 1);
+        luavvd_setowner(L, 1);
         return 1;
     }
 
-- 
2.43.0


From cc4ae45c54020b6d7cdb4182884ebc4aaf8a4965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 32/74] fix: values a script assigned were truncated instead of
 refused

Strings and expressions were cut at a zero byte, integers lost their
fraction or upper bits, times that do not fit were stored as others.
---
 utils/vvflow/getset.cpp    | 43 +++++++++++++++++++++++++++++---------
 utils/vvflow/lua_teval.cpp | 11 ++++++++--
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/utils/vvflow/getset.cpp b/utils/vvflow/getset.cpp
index c4d7c40..c563089 100644
--- a/utils/vvflow/getset.cpp
+++ b/utils/vvflow/getset.cpp
@@ -1,6 +1,9 @@
 #include "getset.h"
 #include "TTime.hpp"
 
+#include <cmath>
+#include <cstdint>
+#include <cstring>
 #include <lua.hpp>
 
 void luavvd_setowner(lua_State *L, int idx) {
@@ -31,10 +34,13 @@ int luavvd_setint32(lua_State *L) {
     int32_t* num = (int32_t*)lua_touserdata(L, 1);
     
     int isnum;
-    lua_Integer val = lua_tointegerx(L, 2, &isnum);
+    lua_Number val = lua_tonumberx(L, 2, &isnum);
     if (!isnum) {
         lua_pushfstring(L, "integer expected, got %s", luaL_typename(L, 2));
         return 1;
+    } else if (!(val >= INT32_MIN && val <= INT32_MAX && val == floor(val))) {
+        lua_pushfstring(L, "integer expected, got %f", val);
+        return 1;
     }
 
     *num = val;
@@ -48,7 +54,14 @@ int luavvd_setstring(lua_State *L) {
         lua_pushfstring(L, "string expected, got %s", luaL_typename(L, 2));
         return 1;
     }
-    *str = lua_tostring(L, 2);
+
+    size_t len;
+    const char* val = lua_tolstring(L, 2, &len);
+    if (strlen(val) != len) {
+        lua_pushstring(L, "string contains a zero byte");
+        return 1;
+    }
+    *str = val;
 
     return 0;
 }
@@ -78,9 +91,13 @@ int luavvd_setTTime(lua_State *L) {
     int isnum[2];
     switch (lua_type(L, 2)) {
     case LUA_TNUMBER:
+        if (!(fabs(lua_tonumber(L, 2)) <= INT32_MAX)) {
+            lua_pushfstring(L, "TTime can not represent %f", lua_tonumber(L, 2));
+            return 1;
+        }
         *t = TTime::makeWithSecondsDecimal(lua_tonumber(L, 2));
         return 0;
-    case LUA_TTABLE:
+    case LUA_TTABLE: {
         for (size_t rawlen = lua_rawlen(L, 2); rawlen != 2; ) {
             lua_pushfstring(L, "TTime needs table with two elements, got %d", rawlen);
             return 1;
@@ -88,27 +105,33 @@ int luavvd_setTTime(lua_State *L) {
 
         lua_rawgeti(L, 2, 1); // push table[1]
         lua_rawgeti(L, 2, 2); // push table[2]        
-        nt.value = lua_tointegerx(L, -2, &isnum[0]);
-        nt.timescale = lua_tointegerx(L, -1, &isnum[1]);
+        lua_Number value = lua_tonumberx(L, -2, &isnum[0]);
+        lua_Number timescale = lua_tonumberx(L, -1, &isnum[1]);
         if (!isnum[0] || !isnum[1]) {
             const char *typ1 = luaL_typename(L, -2);
             const char *typ2 = luaL_typename(L, -1);
             lua_pushfstring(L, "TTime needs two integers, got %s and %s", typ1, typ2);
             return 1;
-        } else if (lua_tointeger(L, -1)<1) {
-            lua_pushfstring(L, "TTime timescale must be positive, got %d", nt.timescale);
+        } else if (timescale < 1) {
+            lua_pushfstring(L, "TTime timescale must be positive, got %f", timescale);
+            return 1;
+        } else if (!(value >= INT32_MIN && value <= INT32_MAX && value == floor(value)) ||
+                   !(timescale <= UINT32_MAX && timescale == floor(timescale))) {
+            lua_pushfstring(L, "TTime needs two integers, got %f and %f", value, timescale);
             return 1;
         }
-        *t = nt;
+        *t = TTime(int32_t(value), uint32_t(timescale));
         return 0;
+    }
     case LUA_TSTRING:
-        const char* s = lua_tostring(L, 2);
+        size_t len;
+        const char* s = lua_tolstring(L, 2, &len);
 
         bool fail = false;
         int  slen = 0;
 
         fail = sscanf(s, "%d/%u %n", &nt.value, &nt.timescale, &slen) < 2;
-        fail = fail || s[slen]!='\0';
+        fail = fail || size_t(slen) != len;
         if (fail) {
             lua_pushfstring(L, "TTime can not parse '%s'", s);
             return 1;
diff --git a/utils/vvflow/lua_teval.cpp b/utils/vvflow/lua_teval.cpp
index 5130bfa..7085e78 100644
--- a/utils/vvflow/lua_teval.cpp
+++ b/utils/vvflow/lua_teval.cpp
@@ -67,9 +67,16 @@ int luavvd_setTEval(lua_State *L) {
     std::string str;
 
     switch (lua_type(L, 2)) {
-    case LUA_TSTRING:
-        str = lua_tostring(L, 2);
+    case LUA_TSTRING: {
+        size_t len;
+        const char* val = lua_tolstring(L, 2, &len);
+        if (strlen(val) != len) {
+            lua_pushstring(L, "expression contains a zero byte");
+            return 1;
+        }
+        str = val;
         break;
+    }
     case LUA_TUSERDATA: {
         TEval** udata = (TEval**)luaL_testudata(L, 2, "TEval");
 
-- 
2.43.0


From bf79c0e7618fc60557758a6a7a2311934371793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 33/74] fix: name of a body's group in the step record was used
 after it was freed

...and overflowed its buffer from the 1000th body on.
---
 libvvhd/src/MStepdata.cpp | 3 ++-
 libvvhd/src/TSpace.cpp    | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/MStepdata.cpp b/libvvhd/src/MStepdata.cpp
index 7c5e99e..a96ea9e 100644
--- a/libvvhd/src/MStepdata.cpp
+++ b/libvvhd/src/MStepdata.cpp
@@ -88,7 +88,8 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
     {
         size_t body_n = S->get_body_index(lbody.get());
         if (body_n > blsize) continue;
-        const char *bname = S->get_body_name(lbody.get()).c_str();
+        const std::string body_name = S->get_body_name(lbody.get());
+        const char *bname = body_name.c_str();
         hid_t body_h5g;
         if (!H5Lexists(h5f, bname, H5P_DEFAULT))
         {
diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 77008e4..4be8ef3 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -247,7 +247,7 @@ int Space::get_body_index(const TBody* body) const
 
 std::string Space::get_body_name(const TBody* body) const
 {
-    char name[8];
-    sprintf(name, "body%02d", get_body_index(body));
+    char name[16];
+    snprintf(name, sizeof(name), "body%02d", get_body_index(body));
     return std::string(name);
 }
-- 
2.43.0


From cf8fd06def81b914b1c78cc5f563fcf1b1ee4b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 34/74] fix: saving a body without segments crashed, and a
 large one overflowed the stack

---
 libvvhd/src/TSpace_load_hdf.cpp |  9 +++++----
 libvvhd/src/TSpace_save_hdf.cpp | 17 +++++++++--------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index 59c1d82..8c95aee 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -5,6 +5,7 @@
 #include "elementary.h"
 #include "vvhdf.h"
 
+#include <array>
 #include <map>
 
 // "body99" goes before "body100"
@@ -125,9 +126,9 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
         body.root_body = body_map[root_name];
     }
 
-    double att_array[N][4] = {0};
-    uint32_t slip_array[N] = {0};
-    herr_t err = H5Dread(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, h5s_file, H5P_DEFAULT, att_array);
+    std::vector<std::array<double, 4>> att_array(N);
+    std::vector<uint32_t> slip_array(N);
+    herr_t err = H5Dread(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, h5s_file, H5P_DEFAULT, att_array.data());
     if (err < 0)
         h5_throw("H5Dread", name);
 
@@ -169,7 +170,7 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
         {
             // slip_array = (uint32_t*)malloc(dims[0] * sizeof(uint32_t));
             hid_t aid = H5Aopen(h5d, "slip", H5P_DEFAULT);
-            H5Aread(aid, H5T_NATIVE_UINT32, slip_array);
+            H5Aread(aid, H5T_NATIVE_UINT32, slip_array.data());
             H5Aclose(aid);
         }
         else
diff --git a/libvvhd/src/TSpace_save_hdf.cpp b/libvvhd/src/TSpace_save_hdf.cpp
index 6c0d45e..c91d267 100644
--- a/libvvhd/src/TSpace_save_hdf.cpp
+++ b/libvvhd/src/TSpace_save_hdf.cpp
@@ -5,6 +5,7 @@
 #include "elementary.h"
 #include "vvhdf.h"
 
+#include <array>
 #include <map>
 
 
@@ -83,13 +84,13 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
     hsize_t N = body.size();
     hsize_t dims[2] = {N, 4};
 
-    double att_array[N][4] = {0};
+    std::vector<std::array<double, 4>> att_array(N);
 
-    uint32_t general_slip = body.alist.front().slip;
-    uint32_t slip_array[N] = {0};
+    uint32_t general_slip = N ? body.alist.front().slip : 0;
+    std::vector<uint32_t> slip_array(N);
 
-    float heat_const = body.alist.front().heat_const;
-    float heat_array[N] = {0};
+    float heat_const = N ? body.alist.front().heat_const : 0;
+    std::vector<float> heat_array(N);
 
     for (hsize_t i=0; i<N; i++) {
         const TAtt& att = body.alist[i];
@@ -104,7 +105,7 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
         can_simplify_heat &= (att.heat_const == heat_const);
     }
 
-    hsize_t chunkdims[2] = {std::min<hsize_t>(512, N), 4};
+    hsize_t chunkdims[2] = {std::max<hsize_t>(1, std::min<hsize_t>(512, N)), 4};
     hid_t prop = H5Pcreate(H5P_DATASET_CREATE);
     H5Pset_chunk(prop, 2, chunkdims);
     H5Pset_deflate(prop, 9);
@@ -128,7 +129,7 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
         if (aid < 0)
             h5_throw("H5Acreate", name);
 
-        herr_t err = H5Awrite(aid, h5t<uint32_t>::id, slip_array);
+        herr_t err = H5Awrite(aid, h5t<uint32_t>::id, slip_array.data());
         if (err < 0)
             h5_throw("H5Awrite", name);
 
@@ -183,7 +184,7 @@ static void dataset_write_body(hid_t fid, std::string name, std::string root_nam
     h5a_write<bc_t> (h5d, "boundary_condition", body.boundary_condition);
     h5a_write<hc_t> (h5d, "heat_condition", body.heat_condition);
 
-    herr_t err = H5Dwrite(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, h5s_file, H5P_DEFAULT, att_array);
+    herr_t err = H5Dwrite(h5d, H5T_NATIVE_DOUBLE, H5S_ALL, h5s_file, H5P_DEFAULT, att_array.data());
     if (err < 0)
         h5_throw("H5Dwrite", name);
     err = H5Dclose(h5d);
-- 
2.43.0


From ef473c2164514c3a38fe5c5694ba1f3d2ec23497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 35/74] fix: reading the slip property of a body without
 segments crashed

---
 utils/vvflow/lua_tbody.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/vvflow/lua_tbody.cpp b/utils/vvflow/lua_tbody.cpp
index 695d1cc..bab45ba 100644
--- a/utils/vvflow/lua_tbody.cpp
+++ b/utils/vvflow/lua_tbody.cpp
@@ -27,6 +27,11 @@ int luavvd_setslip(lua_State *L) {
 int luavvd_getslip(lua_State *L) {
     TBody* body = (TBody*)lua_touserdata(L, 1);
 
+    if (body->alist.empty()) {
+        lua_pushnil(L);
+        return 1;
+    }
+
     uint32_t slip = body->alist.begin()->slip;
     for (auto& latt: body->alist) {
         if (latt.slip != slip) {
-- 
2.43.0


From e53e0d4d8d09e671bbf13eeac03a339c52579e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 36/74] fix: a percent sign in a file name or a caption was
 taken for a format

Snapshots of such a simulation could not be written, saving to such a file
crashed. Long captions were cut and shared the files of each other.
---
 utils/vvflow/lua_space.cpp |  5 ++++-
 utils/vvflow/vvflow.cpp    | 21 ++++++++++++---------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/utils/vvflow/lua_space.cpp b/utils/vvflow/lua_space.cpp
index a136551..06a1b60 100644
--- a/utils/vvflow/lua_space.cpp
+++ b/utils/vvflow/lua_space.cpp
@@ -22,7 +22,10 @@ static int space_save(lua_State *L) {
     Space *S = *ptr;
     const char* fname = luaL_checkstring(L, 2);
     try {
-        S->save(fname);
+        // Space::save() takes a format, and scripts give a filename
+        std::string format;
+        for (const char* c = fname; *c; c++) format.append(*c == '%' ? 2 : 1, *c);
+        S->save(format.c_str());
     } catch (const std::exception &e) {
         return luaL_error(L, "%s", e.what());
     }
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 7463e2e..c6d14d5 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -204,12 +204,17 @@ static void simulate (Space &S) {
     if (S.re <= 0) throw std::invalid_argument("invalid value re<=0");
     bool is_viscous = (S.re != std::numeric_limits<double>::infinity());
 
-    char f_stepdata[256]; snprintf(f_stepdata, 256, "stepdata_%s.h5", S.caption.c_str());
-    char f_results[240]; snprintf(f_results, 240, "results_%s", S.caption.c_str());
-    char f_sensors_output[256]; snprintf(f_sensors_output, 256, "velocity_%s", S.caption.c_str());
-    mkdir(f_results, 0777);
+    const std::string f_stepdata = "stepdata_" + S.caption + ".h5";
+    const std::string f_results = "results_" + S.caption;
+    const std::string f_sensors_output = "velocity_" + S.caption;
+    mkdir(f_results.c_str(), 0777);
 
-    Stepdata stepdata = {&S, f_stepdata, !!opt::save_profile};
+    // Space::save() takes a format, and the caption may contain a percent sign
+    std::string f_snapshot;
+    for (char c: f_results) f_snapshot.append(c == '%' ? 2 : 1, c);
+    f_snapshot += "/%06d.h5";
+
+    Stepdata stepdata = {&S, f_stepdata.c_str(), !!opt::save_profile};
 
     double dl = S.average_segment_length();
     double min_node_size = dl>0 ? dl*5 : 0;
@@ -219,7 +224,7 @@ static void simulate (Space &S) {
     MEpsilonFast epsilon = {&S, &tr};
     MDiffusiveFast diffusive = {&S, &tr};
     MFlowmove flowmove = {&S};
-    sensors sens(&S, &convective, opt::sensors_file, f_sensors_output);
+    sensors sens(&S, &convective, opt::sensors_file, f_sensors_output.c_str());
     #ifdef OVERRIDEMOI
         S.BodyList->at(0)->overrideMoi_c(OVERRIDEMOI);
     #endif
@@ -265,9 +270,7 @@ static void simulate (Space &S) {
         {
             // whoever resumes from this file needs the steps before it
             stepdata.flush();
-            char tmp_filename[256];
-            snprintf(tmp_filename, 256, "%s/%%06d.h5", f_results);
-            S.save(tmp_filename);
+            S.save(f_snapshot.c_str());
         }
 
         dbg(flowmove.vortex_shed());
-- 
2.43.0


From f1ebc836da7d8cd90cf13f2e52ea74600117c1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 37/74] fix: a loop of root bodies hung the simulation

---
 utils/vvflow/vvflow.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index c6d14d5..38a1d14 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -19,6 +19,7 @@
 
 #include <iostream>
 #include <fstream>
+#include <set>
 #include <cstdio>
 
 #include <sys/stat.h>
@@ -202,6 +203,15 @@ int simulate (lua_State *L) {
 static void simulate (Space &S) {
     // error checking
     if (S.re <= 0) throw std::invalid_argument("invalid value re<=0");
+    for (auto& lbody: S.BodyList)
+    {
+        std::set<TBody*> chain;
+        for (auto root = lbody->root_body.lock(); root; root = root->root_body.lock())
+        {
+            if (!chain.insert(root.get()).second)
+                throw std::invalid_argument("the roots of bodies form a loop");
+        }
+    }
     bool is_viscous = (S.re != std::numeric_limits<double>::infinity());
 
     const std::string f_stepdata = "stepdata_" + S.caption + ".h5";
-- 
2.43.0


From 85dac939ee9eadc4d93744db71adf0f5f90a9bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 38/74] fix: vvxtract swapped the numbers of streaks and their
 sources, garbled names of bodies without a label

--info of a step record did not exit as documented when datasets were given,
and a body without segments crashed it.
---
 utils/vvxtract/vvxtract.cpp | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/utils/vvxtract/vvxtract.cpp b/utils/vvxtract/vvxtract.cpp
index 04fa51c..4e4db75 100644
--- a/utils/vvxtract/vvxtract.cpp
+++ b/utils/vvxtract/vvxtract.cpp
@@ -103,21 +103,16 @@ int main(int argc, char **argv)
         printf("-- #S.body_list = %zd -- number of elements\n", long(S.BodyList.size()));
         printf("-- #S.vort_list = %zd\n", long(S.VortexList.size()));
         printf("-- #S.sink_list = %zd\n", long(S.SourceList.size()));
-        printf("-- #S.streak_source_list = %zd\n", long(S.StreakList.size()));
-        printf("-- #S.streak_domain_list = %zd\n", long(S.StreakSourceList.size()));
+        printf("-- #S.streak_source_list = %zd\n", long(S.StreakSourceList.size()));
+        printf("-- #S.streak_domain_list = %zd\n", long(S.StreakList.size()));
 
         for (shared_ptr<TBody>& lbody: S.BodyList)
         {
             const TBody& b = *lbody;
             printf("\n");
-            const char* blabel;
-            printf("-- %s (%s)", S.get_body_name(&b).c_str(), b.label.c_str());
-            if (!b.label.empty()){
-                blabel = b.label.c_str();
-            } else {
-                blabel = S.get_body_name(&b).c_str();
-            }
-            printf("\n");
+            const std::string bname = b.label.empty() ? S.get_body_name(&b) : b.label;
+            const char* blabel = bname.c_str();
+            printf("-- %s (%s)\n", S.get_body_name(&b).c_str(), b.label.c_str());
             #define S2D(v) v.x, v.y
             #define S3D(v) v.r.x, v.r.y, v.o
             #define S4D(v) v.r.x, v.r.y, v.o, v.o*180./C_PI
@@ -136,7 +131,7 @@ int main(int argc, char **argv)
             printf("%s.collision_max = {%lg, %lg, %lg} -- .d = %lg\n", blabel, S4D(b.collision_max));
             printf("%s.bounce = %lg\n", blabel, b.bounce);
 
-            uint32_t slip = b.alist.begin()->slip;
+            uint32_t slip = b.alist.empty() ? 0 : b.alist.begin()->slip;
             for (auto& latt: b.alist) {
                 if (latt.slip != slip) {
                     slip = 3;
@@ -150,13 +145,8 @@ int main(int argc, char **argv)
                 printf("%s.root = nil\n", blabel);
             } else {
                 shared_ptr<TBody> lroot = b.root_body.lock();
-                const char* rlabel;
-                if (!lroot->label.empty()){
-                    rlabel = lroot->label.c_str();
-                } else {
-                    rlabel = S.get_body_name(lroot.get()).c_str();
-                }
-                printf("%s.root = %s\n", blabel, rlabel);
+                const std::string rname = lroot->label.empty() ? S.get_body_name(lroot.get()) : lroot->label;
+                printf("%s.root = %s\n", blabel, rname.c_str());
             }
 
             printf("-- #%s = %zd -- number of segments\n", blabel, b.size());
@@ -167,6 +157,9 @@ int main(int argc, char **argv)
             printf("-- %s.get_moi_cofm() = %lg\n", blabel, b.get_moi_cofm());
             printf("-- %s.get_moi_axis() = %lg\n", blabel, b.get_moi_axis());
         }
+    }
+
+    if (opt::b_info) {
         return 0;
     }
 
-- 
2.43.0


From ee93f1c077564be9f6f152e7a33be74f62ce9384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 39/74] fix: awk scripts did not run with mawk

It refuses the number 1e400 and the operator ** in a program.
---
 utils/scripts/vvawk.ampl  | 4 ++--
 utils/scripts/vvawk.avg   | 4 ++--
 utils/scripts/vvawk.sd    | 6 +++---
 utils/scripts/vvawk.zeros | 4 ++--
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/utils/scripts/vvawk.ampl b/utils/scripts/vvawk.ampl
index 8052370..1556a69 100755
--- a/utils/scripts/vvawk.ampl
+++ b/utils/scripts/vvawk.ampl
@@ -11,8 +11,8 @@ BEGIN{
     }
     col =  col ? col+0 : 2
     span = span ? span+0. : 5
-    xmin = xmin ? xmin+0. : -1e400
-    xmax = xmax ? xmax+0. : +1e400
+    xmin = xmin ? xmin+0. : -1e308
+    xmax = xmax ? xmax+0. : +1e308
     smax = smin = 0
     nmax = nmin = 0
 }
diff --git a/utils/scripts/vvawk.avg b/utils/scripts/vvawk.avg
index 8adaa8b..1c376d7 100755
--- a/utils/scripts/vvawk.avg
+++ b/utils/scripts/vvawk.avg
@@ -11,8 +11,8 @@ BEGIN{
 		exit 0
 	}
 	col =  col ? col+0 : 2
-	xmin = xmin ? xmin+0. : -1e400
-	xmax = xmax ? xmax+0. : +1e400
+	xmin = xmin ? xmin+0. : -1e308
+	xmax = xmax ? xmax+0. : +1e308
 }
 
 {
diff --git a/utils/scripts/vvawk.sd b/utils/scripts/vvawk.sd
index a57418f..1dcf2b4 100755
--- a/utils/scripts/vvawk.sd
+++ b/utils/scripts/vvawk.sd
@@ -12,14 +12,14 @@ BEGIN{
 		exit 0
 	}
 	col =  col ? col+0 : 2
-	xmin = xmin ? xmin+0. : -1e400
-	xmax = xmax ? xmax+0. : +1e400
+	xmin = xmin ? xmin+0. : -1e308
+	xmax = xmax ? xmax+0. : +1e308
 }
 
 {
 	if($1>xmin && $1<xmax) {
 		sum+= $col;
-		sum2+= $col**2;
+		sum2+= $col^2;
 		n++;
 	}
 }
diff --git a/utils/scripts/vvawk.zeros b/utils/scripts/vvawk.zeros
index 62cd12a..62baef1 100755
--- a/utils/scripts/vvawk.zeros
+++ b/utils/scripts/vvawk.zeros
@@ -9,8 +9,8 @@ BEGIN{
 		exit 0
 	}
 	col =  col ? col+0 : 2
-	xmin = xmin ? xmin+0. : -1e400
-	xmax = xmax ? xmax+0. : +1e400
+	xmin = xmin ? xmin+0. : -1e308
+	xmax = xmax ? xmax+0. : +1e308
 	yprev = 0
 }
 
-- 
2.43.0


From 2ff8d7f7aacfc648f1776cf4788f7cbd5d59c74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 40/74] fix: awk scripts ignored a limit of the range equal to
 zero

---
 utils/scripts/vvawk.ampl  | 4 ++--
 utils/scripts/vvawk.avg   | 4 ++--
 utils/scripts/vvawk.sd    | 4 ++--
 utils/scripts/vvawk.zeros | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/utils/scripts/vvawk.ampl b/utils/scripts/vvawk.ampl
index 1556a69..dbd8b1a 100755
--- a/utils/scripts/vvawk.ampl
+++ b/utils/scripts/vvawk.ampl
@@ -11,8 +11,8 @@ BEGIN{
     }
     col =  col ? col+0 : 2
     span = span ? span+0. : 5
-    xmin = xmin ? xmin+0. : -1e308
-    xmax = xmax ? xmax+0. : +1e308
+    xmin = (xmin != "") ? xmin+0. : -1e308
+    xmax = (xmax != "") ? xmax+0. : +1e308
     smax = smin = 0
     nmax = nmin = 0
 }
diff --git a/utils/scripts/vvawk.avg b/utils/scripts/vvawk.avg
index 1c376d7..0fb4722 100755
--- a/utils/scripts/vvawk.avg
+++ b/utils/scripts/vvawk.avg
@@ -11,8 +11,8 @@ BEGIN{
 		exit 0
 	}
 	col =  col ? col+0 : 2
-	xmin = xmin ? xmin+0. : -1e308
-	xmax = xmax ? xmax+0. : +1e308
+	xmin = (xmin != "") ? xmin+0. : -1e308
+	xmax = (xmax != "") ? xmax+0. : +1e308
 }
 
 {
diff --git a/utils/scripts/vvawk.sd b/utils/scripts/vvawk.sd
index 1dcf2b4..54b3b77 100755
--- a/utils/scripts/vvawk.sd
+++ b/utils/scripts/vvawk.sd
@@ -12,8 +12,8 @@ BEGIN{
 		exit 0
 	}
 	col =  col ? col+0 : 2
-	xmin = xmin ? xmin+0. : -1e308
-	xmax = xmax ? xmax+0. : +1e308
+	xmin = (xmin != "") ? xmin+0. : -1e308
+	xmax = (xmax != "") ? xmax+0. : +1e308
 }
 
 {
diff --git a/utils/scripts/vvawk.zeros b/utils/scripts/vvawk.zeros
index 62baef1..333fd0d 100755
--- a/utils/scripts/vvawk.zeros
+++ b/utils/scripts/vvawk.zeros
@@ -9,8 +9,8 @@ BEGIN{
 		exit 0
 	}
 	col =  col ? col+0 : 2
-	xmin = xmin ? xmin+0. : -1e308
-	xmax = xmax ? xmax+0. : +1e308
+	xmin = (xmin != "") ? xmin+0. : -1e308
+	xmax = (xmax != "") ? xmax+0. : +1e308
 	yprev = 0
 }
 
-- 
2.43.0


From 6e29a8837761f6ebd65203019b6c4db2be31f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 41/74] fix: awk scripts took the heading of vvxtract output
 for a sample

---
 utils/scripts/vvawk.ampl  | 9 ++++++---
 utils/scripts/vvawk.avg   | 2 ++
 utils/scripts/vvawk.drv   | 4 +++-
 utils/scripts/vvawk.mavg  | 7 +++++--
 utils/scripts/vvawk.sd    | 2 ++
 utils/scripts/vvawk.zeros | 2 ++
 6 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/utils/scripts/vvawk.ampl b/utils/scripts/vvawk.ampl
index dbd8b1a..8de6005 100755
--- a/utils/scripts/vvawk.ampl
+++ b/utils/scripts/vvawk.ampl
@@ -17,18 +17,21 @@ BEGIN{
     nmax = nmin = 0
 }
 
+/^[ \t]*#/ {next}
+
 {
     # круговой буффер
-    mod = NR%span
+    n++
+    mod = n%span
     y[mod] = $col
     x[mod] = $1
 
     # пока буффер не наполнился - наполняем
-    if(NR<span)
+    if(n<span)
         next;
 
     # берём точку по центру окна
-    c = (NR-span/2)%span
+    c = (n-span/2)%span
     yc = y[c]
     xc = x[c]
 
diff --git a/utils/scripts/vvawk.avg b/utils/scripts/vvawk.avg
index 0fb4722..9dffb97 100755
--- a/utils/scripts/vvawk.avg
+++ b/utils/scripts/vvawk.avg
@@ -15,6 +15,8 @@ BEGIN{
 	xmax = (xmax != "") ? xmax+0. : +1e308
 }
 
+/^[ \t]*#/ {next}
+
 {
 	if($1>xmin && $1<xmax) {
 		sum+= $col;
diff --git a/utils/scripts/vvawk.drv b/utils/scripts/vvawk.drv
index 47aba93..2e282f0 100755
--- a/utils/scripts/vvawk.drv
+++ b/utils/scripts/vvawk.drv
@@ -12,9 +12,11 @@ BEGIN{
     div = div ? div+0. : 1
 }
 
+/^[ \t]*#/ {print; next}
+
 {
     ycurr = $col
-    if (NR == 1) {
+    if (++n == 1) {
         yprev = ycurr
         next
     }
diff --git a/utils/scripts/vvawk.mavg b/utils/scripts/vvawk.mavg
index 6de8e8a..51edd87 100755
--- a/utils/scripts/vvawk.mavg
+++ b/utils/scripts/vvawk.mavg
@@ -13,10 +13,13 @@ BEGIN{
     span = span ? span+0 : 20
 }
 
+/^[ \t]*#/ {print; next}
+
 {
     # circular index
-    mod = NR % span
-    if (NR<=span) count++
+    n++
+    mod = n % span
+    if (n<=span) count++
     else sum -= array[mod]
     sum+= $col
     array[mod]=$col
diff --git a/utils/scripts/vvawk.sd b/utils/scripts/vvawk.sd
index 54b3b77..1c46e09 100755
--- a/utils/scripts/vvawk.sd
+++ b/utils/scripts/vvawk.sd
@@ -16,6 +16,8 @@ BEGIN{
 	xmax = (xmax != "") ? xmax+0. : +1e308
 }
 
+/^[ \t]*#/ {next}
+
 {
 	if($1>xmin && $1<xmax) {
 		sum+= $col;
diff --git a/utils/scripts/vvawk.zeros b/utils/scripts/vvawk.zeros
index 333fd0d..146f0a0 100755
--- a/utils/scripts/vvawk.zeros
+++ b/utils/scripts/vvawk.zeros
@@ -18,6 +18,8 @@ function abs(v) {
 	return v < 0 ? -v : v
 }
 
+/^[ \t]*#/ {next}
+
 {
 	xcurr = $1
 	ycurr = $col
-- 
2.43.0


From b1cbd256ac9787cffd863a633b89474b95221071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 42/74] fix: vvawk.ampl found nothing with an odd span, which
 is the default

---
 utils/scripts/vvawk.ampl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/scripts/vvawk.ampl b/utils/scripts/vvawk.ampl
index 8de6005..ae297c0 100755
--- a/utils/scripts/vvawk.ampl
+++ b/utils/scripts/vvawk.ampl
@@ -31,7 +31,7 @@ BEGIN{
         next;
 
     # берём точку по центру окна
-    c = (n-span/2)%span
+    c = (n-int(span/2))%span
     yc = y[c]
     xc = x[c]
 
-- 
2.43.0


From 8dda784a1bb625c9ef36dc655c7c8903a45b3df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 43/74] fix: vvawk.sd printed nan for constant columns because
 of rounding

---
 utils/scripts/vvawk.sd | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/scripts/vvawk.sd b/utils/scripts/vvawk.sd
index 1c46e09..7b282bb 100755
--- a/utils/scripts/vvawk.sd
+++ b/utils/scripts/vvawk.sd
@@ -28,5 +28,6 @@ BEGIN{
 
 END {
 	nn = (n>0) ? 1.0/n : 0
-	printf "%.6e\n", sqrt(sum2*nn-(sum*nn)^2)
+	var = sum2*nn-(sum*nn)^2
+	printf "%.6e\n", (var>0) ? sqrt(var) : 0
 }
-- 
2.43.0


From fd68783290e87583935b3ffebd80235d23aec221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 44/74] fix: generators emptied the table of parameters given
 to them

---
 utils/vvflow/gen_body.cpp          | 16 ++++++++++++++++
 utils/vvflow/gen_body.h            |  2 ++
 utils/vvflow/gen_box.cpp           |  2 +-
 utils/vvflow/gen_cylinder.cpp      |  4 ++--
 utils/vvflow/gen_ellipse.cpp       |  2 +-
 utils/vvflow/gen_gis.cpp           |  2 +-
 utils/vvflow/gen_parallelogram.cpp |  2 +-
 utils/vvflow/gen_plate.cpp         |  2 +-
 utils/vvflow/gen_savonius.cpp      |  2 +-
 9 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/utils/vvflow/gen_body.cpp b/utils/vvflow/gen_body.cpp
index 8b9fe84..7559154 100644
--- a/utils/vvflow/gen_body.cpp
+++ b/utils/vvflow/gen_body.cpp
@@ -6,6 +6,22 @@
 #include <cstdio>
 #include <cstring>
 
+void check_params(lua_State *L) {
+    luaL_checktype(L, 1, LUA_TTABLE);
+    // get_param() strikes parameters off the table, the one of the caller must stay as it is
+    lua_settop(L, 1);
+    lua_newtable(L);
+    for (lua_pushnil(L); lua_next(L, 1);) {
+        lua_pushvalue(L, -2);
+        lua_insert(L, -2);
+        lua_rawset(L, 2);
+    }
+    if (lua_getmetatable(L, 1)) {
+        lua_setmetatable(L, 2);
+    }
+    lua_replace(L, 1);
+}
+
 lua_Number get_param(
     lua_State *L,
     const char* param,
diff --git a/utils/vvflow/gen_body.h b/utils/vvflow/gen_body.h
index 31b9053..3912d5e 100644
--- a/utils/vvflow/gen_body.h
+++ b/utils/vvflow/gen_body.h
@@ -3,6 +3,8 @@
 #include <vector>
 #include <limits>
 
+void check_params(lua_State *L);
+
 lua_Number get_param(
     lua_State *L,
     const char* param,
diff --git a/utils/vvflow/gen_box.cpp b/utils/vvflow/gen_box.cpp
index 5b0ea83..427b968 100644
--- a/utils/vvflow/gen_box.cpp
+++ b/utils/vvflow/gen_box.cpp
@@ -8,7 +8,7 @@ static const auto dblmin = numeric_limits<lua_Number>::min();
 static const auto dbleps = numeric_limits<lua_Number>::epsilon();
 
 int luavvd_gen_chamber_box(lua_State *L) {
-    luaL_checktype(L, 1, LUA_TTABLE);
+    check_params(L);
 
     lua_Number  dln=0.0;
     lua_Number  dls=0.0;
diff --git a/utils/vvflow/gen_cylinder.cpp b/utils/vvflow/gen_cylinder.cpp
index 91d6d49..a96c22a 100644
--- a/utils/vvflow/gen_cylinder.cpp
+++ b/utils/vvflow/gen_cylinder.cpp
@@ -4,7 +4,7 @@
 #include "gen_body.h"
 
 int luavvd_gen_cylinder(lua_State *L) {
-    luaL_checktype(L, 1, LUA_TTABLE);
+    check_params(L);
 
     lua_Integer N=0;
     lua_Number  dl=0.0;
@@ -44,7 +44,7 @@ int luavvd_gen_cylinder(lua_State *L) {
 }
 
 int luavvd_gen_semicyl(lua_State *L) {
-    luaL_checktype(L, 1, LUA_TTABLE);
+    check_params(L);
 
     lua_Integer N = 0;
     lua_Number  dl = 0.0;
diff --git a/utils/vvflow/gen_ellipse.cpp b/utils/vvflow/gen_ellipse.cpp
index 862759d..c3f0bdf 100644
--- a/utils/vvflow/gen_ellipse.cpp
+++ b/utils/vvflow/gen_ellipse.cpp
@@ -5,7 +5,7 @@
 #include "elementary.h"
 
 int luavvd_gen_ellipse(lua_State *L) {
-    luaL_checktype(L, 1, LUA_TTABLE);
+    check_params(L);
 
     lua_Integer N=0;
     lua_Number  dl=0.0;
diff --git a/utils/vvflow/gen_gis.cpp b/utils/vvflow/gen_gis.cpp
index b2073f2..6d6a9b8 100644
--- a/utils/vvflow/gen_gis.cpp
+++ b/utils/vvflow/gen_gis.cpp
@@ -4,7 +4,7 @@
 #include "gen_body.h"
 
 int luavvd_gen_chamber_gpj(lua_State *L) {
-    luaL_checktype(L, 1, LUA_TTABLE);
+    check_params(L);
 
     lua_Number  dln=0.0;
     lua_Number  dls=0.0;
diff --git a/utils/vvflow/gen_parallelogram.cpp b/utils/vvflow/gen_parallelogram.cpp
index 2a46d43..7276b16 100644
--- a/utils/vvflow/gen_parallelogram.cpp
+++ b/utils/vvflow/gen_parallelogram.cpp
@@ -4,7 +4,7 @@
 #include "gen_body.h"
 
 int luavvd_gen_parallelogram(lua_State *L) {
-    luaL_checktype(L, 1, LUA_TTABLE);
+    check_params(L);
 
     lua_Integer N=0;
     lua_Number  dl=0.0;
diff --git a/utils/vvflow/gen_plate.cpp b/utils/vvflow/gen_plate.cpp
index 8dc94d9..b91d52c 100644
--- a/utils/vvflow/gen_plate.cpp
+++ b/utils/vvflow/gen_plate.cpp
@@ -4,7 +4,7 @@
 #include "gen_body.h"
 
 int luavvd_gen_plate(lua_State *L) {
-    luaL_checktype(L, 1, LUA_TTABLE);
+    check_params(L);
 
     lua_Integer N=0;
     lua_Number  dl=0.0;
diff --git a/utils/vvflow/gen_savonius.cpp b/utils/vvflow/gen_savonius.cpp
index c8a5860..08815f2 100644
--- a/utils/vvflow/gen_savonius.cpp
+++ b/utils/vvflow/gen_savonius.cpp
@@ -4,7 +4,7 @@
 #include "gen_body.h"
 
 int luavvd_gen_savonius(lua_State *L) {
-    luaL_checktype(L, 1, LUA_TTABLE);
+    check_params(L);
 
     lua_Integer N=0;
     lua_Number  dl=0.0;
-- 
2.43.0


From e573a2a9070d7eea2dc116bee1a16b4cc754a5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 45/74] fix: gen_plate made a body of NaN when one circle is
 inside the other, and took start >= stop

---
 utils/vvflow/gen_plate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/vvflow/gen_plate.cpp b/utils/vvflow/gen_plate.cpp
index b91d52c..86aed83 100644
--- a/utils/vvflow/gen_plate.cpp
+++ b/utils/vvflow/gen_plate.cpp
@@ -43,6 +43,8 @@ int luavvd_gen_plate(lua_State *L) {
         /*max*/ std::numeric_limits<double>::infinity(),
         /*default*/ 0
     );
+    luaL_argcheck(L, Ll>=fabs(R2-R1), 1, "'L' must be >= |R2-R1|");
+    luaL_argcheck(L, start<stop, 1, "'start' must be less than 'stop'");
 
     lua_pushnil(L);
     if (lua_next(L, 1)) {
-- 
2.43.0


From 8e8ee5d8d91151d147715a3e570d68658e0d7e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 46/74] fix: gen_parallelogram without the angle made an
 infinite body

---
 utils/vvflow/gen_parallelogram.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils/vvflow/gen_parallelogram.cpp b/utils/vvflow/gen_parallelogram.cpp
index 7276b16..7281999 100644
--- a/utils/vvflow/gen_parallelogram.cpp
+++ b/utils/vvflow/gen_parallelogram.cpp
@@ -27,8 +27,7 @@ int luavvd_gen_parallelogram(lua_State *L) {
     H_ = get_param(L, "H",  "positive", std::numeric_limits<lua_Number>::min());
     d_ = get_param(L, "d", "in range (0, 180)",
         /*min*/ std::numeric_limits<lua_Number>::min(),
-        /*max*/ 180*(1 - std::numeric_limits<lua_Number>::epsilon()),
-        /*default*/ 0);
+        /*max*/ 180*(1 - std::numeric_limits<lua_Number>::epsilon()));
 
     lua_pushnil(L);
     if (lua_next(L, 1)) {
-- 
2.43.0


From 96a4aedc488e84988942268de5a04e5d46103175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 47/74] fix: generators returned bodies with a contour that
 crosses itself or encloses nothing when the discretization is too low

---
 utils/vvflow/gen_body.cpp          | 54 ++++++++++++++++++++++++++++++
 utils/vvflow/gen_body.h            |  2 ++
 utils/vvflow/gen_box.cpp           |  6 +---
 utils/vvflow/gen_cylinder.cpp      | 10 ++----
 utils/vvflow/gen_ellipse.cpp       |  5 +--
 utils/vvflow/gen_gis.cpp           |  6 +---
 utils/vvflow/gen_parallelogram.cpp |  6 +---
 utils/vvflow/gen_plate.cpp         |  6 +---
 utils/vvflow/gen_savonius.cpp      |  5 +--
 9 files changed, 64 insertions(+), 36 deletions(-)

diff --git a/utils/vvflow/gen_body.cpp b/utils/vvflow/gen_body.cpp
index 7559154..a9281bc 100644
--- a/utils/vvflow/gen_body.cpp
+++ b/utils/vvflow/gen_body.cpp
@@ -2,6 +2,7 @@
 #include "lua_tbody.h"
 
 #include <lua.hpp>
+#include <algorithm>
 #include <cmath>
 #include <cstdio>
 #include <cstring>
@@ -58,6 +59,59 @@ lua_Number get_param(
     return luaL_argerror(L, 1, lua_tostring(L, -1));
 }
 
+// is the contour closed around some area without touching itself
+static bool is_simple(const std::vector<TAtt>& alist) {
+    const size_t N = alist.size();
+    if (N < 3) return false;
+
+    struct TEdge { TVec a, b; size_t i; double xmin, xmax; };
+    std::vector<TEdge> edges;
+    for (size_t i=0; i<N; i++) {
+        TVec a = alist[i].corner;
+        TVec b = alist[(i+1)%N].corner;
+        if (!std::isfinite(a.x) || !std::isfinite(a.y)) return false;
+        edges.push_back({a, b, i, std::min(a.x, b.x), std::max(a.x, b.x)});
+    }
+    std::sort(edges.begin(), edges.end(), [](const TEdge& e, const TEdge& f) { return e.xmin < f.xmin; });
+
+    auto side = [](TVec a, TVec b, TVec c) { return (b.x-a.x)*(c.y-a.y) - (b.y-a.y)*(c.x-a.x); };
+    for (size_t k=0; k<N; k++) {
+        const TEdge& e = edges[k];
+        if (e.a.x == e.b.x && e.a.y == e.b.y) return false;
+        for (size_t l=k+1; l<N && edges[l].xmin<=e.xmax; l++) {
+            const TEdge& f = edges[l];
+            if (f.i == (e.i+1)%N || e.i == (f.i+1)%N) {
+                // adjacent edges always touch, but must not fold
+                TVec p = f.i == (e.i+1)%N ? e.a : f.a;
+                TVec q = f.i == (e.i+1)%N ? e.b : f.b;
+                TVec r = f.i == (e.i+1)%N ? f.b : e.b;
+                if (side(p, q, r) == 0 && (q.x-p.x)*(r.x-q.x) + (q.y-p.y)*(r.y-q.y) < 0) return false;
+                continue;
+            }
+            if (std::max(e.a.y, e.b.y) < std::min(f.a.y, f.b.y)) continue;
+            if (std::max(f.a.y, f.b.y) < std::min(e.a.y, e.b.y)) continue;
+            if (side(e.a, e.b, f.a)*side(e.a, e.b, f.b) <= 0 && side(f.a, f.b, e.a)*side(f.a, f.b, e.b) <= 0) return false;
+        }
+    }
+
+    return true;
+}
+
+int push_generated(lua_State *L, std::shared_ptr<TBody> body) {
+    if (!is_simple(body->alist)) {
+        body.reset();
+        return luaL_argerror(L, 1, "discretization too low");
+    }
+    body->doUpdateSegments();
+    body->doFillProperties();
+    if (body->get_area() <= 0) {
+        body.reset();
+        return luaL_argerror(L, 1, "discretization too low");
+    }
+    pushTBody(L, body);
+    return 1;
+}
+
 void gen_seg_N(
     std::vector<TAtt>& alist,
     TVec p1,
diff --git a/utils/vvflow/gen_body.h b/utils/vvflow/gen_body.h
index 3912d5e..95e0319 100644
--- a/utils/vvflow/gen_body.h
+++ b/utils/vvflow/gen_body.h
@@ -1,4 +1,5 @@
 #pragma once
+#include "TBody.hpp"
 #include "TVec.hpp"
 #include <vector>
 #include <limits>
@@ -23,6 +24,7 @@ int luavvd_gen_chamber_gpj(lua_State *L);
 int luavvd_gen_chamber_box(lua_State *L);
 int luavvd_gen_savonius(lua_State *L);
 
+int push_generated(lua_State *L, std::shared_ptr<TBody> body);
 void gen_seg_N(std::vector<TAtt>& alist, TVec p1, TVec p2, size_t N, uint32_t slip = 0);
 void gen_seg_dl(std::vector<TAtt>& alist, TVec p1, TVec p2, double dl, uint32_t slip = 0);
 void gen_arc_N(std::vector<TAtt>& alist, TVec c, double R, double a1, double a2, size_t N, uint32_t slip = 0);
diff --git a/utils/vvflow/gen_box.cpp b/utils/vvflow/gen_box.cpp
index 427b968..c57b776 100644
--- a/utils/vvflow/gen_box.cpp
+++ b/utils/vvflow/gen_box.cpp
@@ -53,9 +53,5 @@ int luavvd_gen_chamber_box(lua_State *L) {
     gen_seg_dl(body->alist, TVec(+L2  ,   0.), TVec(+L2  ,   _H), dls, true);  // inner right
     gen_seg_dl(body->alist, TVec(+L2  ,   _H), TVec(0.   ,   _H), dls, true);  // inner top right
 
-    body->doUpdateSegments();
-    body->doFillProperties();
-
-    pushTBody(L, body);
-    return 1;
+    return push_generated(L, std::move(body));
 }
diff --git a/utils/vvflow/gen_cylinder.cpp b/utils/vvflow/gen_cylinder.cpp
index a96c22a..022bffb 100644
--- a/utils/vvflow/gen_cylinder.cpp
+++ b/utils/vvflow/gen_cylinder.cpp
@@ -37,10 +37,7 @@ int luavvd_gen_cylinder(lua_State *L) {
         gen_arc_N(body->alist, TVec(0, 0), R, 2*M_PI, 0, N);
     }
 
-    body->doUpdateSegments();
-    body->doFillProperties();
-    pushTBody(L, body);
-    return 1;
+    return push_generated(L, std::move(body));
 }
 
 int luavvd_gen_semicyl(lua_State *L) {
@@ -80,8 +77,5 @@ int luavvd_gen_semicyl(lua_State *L) {
     gen_arc_dl(body->alist, TVec(0, 0), R, 2*M_PI, M_PI, dl);
     gen_seg_dl(body->alist, TVec(-R, 0.), TVec(0., 0.), dl);
 
-    body->doUpdateSegments();
-    body->doFillProperties();
-    pushTBody(L, body);
-    return 1;
+    return push_generated(L, std::move(body));
 }
\ No newline at end of file
diff --git a/utils/vvflow/gen_ellipse.cpp b/utils/vvflow/gen_ellipse.cpp
index c3f0bdf..51f3db0 100644
--- a/utils/vvflow/gen_ellipse.cpp
+++ b/utils/vvflow/gen_ellipse.cpp
@@ -62,8 +62,5 @@ int luavvd_gen_ellipse(lua_State *L) {
         body->alist.emplace_back(-Rx*cos(a), Ry*sin(a));
     }
 
-    body->doUpdateSegments();
-    body->doFillProperties();
-    pushTBody(L, body);
-    return 1;
+    return push_generated(L, std::move(body));
 }
diff --git a/utils/vvflow/gen_gis.cpp b/utils/vvflow/gen_gis.cpp
index 6d6a9b8..d314823 100644
--- a/utils/vvflow/gen_gis.cpp
+++ b/utils/vvflow/gen_gis.cpp
@@ -57,9 +57,5 @@ int luavvd_gen_chamber_gpj(lua_State *L) {
     gen_seg_dl(body->alist, TVec(X3, -Y3), TVec(X3, -Y4), dls2, true);  // bbox right bottom
     gen_seg_dl(body->alist, TVec(X3, -Y4), TVec(X4, -Y4), dls,  true);  // bbox bottom
 
-    body->doUpdateSegments();
-    body->doFillProperties();
-
-    pushTBody(L, body);
-    return 1;
+    return push_generated(L, std::move(body));
 }
diff --git a/utils/vvflow/gen_parallelogram.cpp b/utils/vvflow/gen_parallelogram.cpp
index 7281999..5040fbf 100644
--- a/utils/vvflow/gen_parallelogram.cpp
+++ b/utils/vvflow/gen_parallelogram.cpp
@@ -51,9 +51,5 @@ int luavvd_gen_parallelogram(lua_State *L) {
     gen_seg_dl(body->alist, TVec(   L2, H_), TVec(L_+L2, H_), dl);
     gen_seg_dl(body->alist, TVec(L_+L2, H_), TVec(L_   ,  0), dl);
 
-    body->doUpdateSegments();
-    body->doFillProperties();
-
-    pushTBody(L, body);
-    return 1;
+    return push_generated(L, std::move(body));
 }
diff --git a/utils/vvflow/gen_plate.cpp b/utils/vvflow/gen_plate.cpp
index 86aed83..3582674 100644
--- a/utils/vvflow/gen_plate.cpp
+++ b/utils/vvflow/gen_plate.cpp
@@ -88,9 +88,5 @@ int luavvd_gen_plate(lua_State *L) {
                             TVec(c2, 0)+r2*TVec(cos(phi2), +sin(phi2)), dl, false);
     gen_arc_dl(body->alist, TVec(c2, 0), r2, +phi2, +phi1,              dl, stop<1);
 
-    body->doUpdateSegments();
-    body->doFillProperties();
-
-    pushTBody(L, body);
-    return 1;
+    return push_generated(L, std::move(body));
 }
diff --git a/utils/vvflow/gen_savonius.cpp b/utils/vvflow/gen_savonius.cpp
index 08815f2..6e1b4c5 100644
--- a/utils/vvflow/gen_savonius.cpp
+++ b/utils/vvflow/gen_savonius.cpp
@@ -52,8 +52,5 @@ int luavvd_gen_savonius(lua_State *L) {
     gen_arc_dl(body->alist, TVec(-R*2, 0), h2  , 2*M_PI, M_PI  , dl);   // shell end, left
     gen_arc_dl(body->alist, TVec(-R  , 0), R+h2, M_PI  , 0     , dl);   // outer shell, left
 
-    body->doUpdateSegments();
-    body->doFillProperties();
-    pushTBody(L, body);
-    return 1;
+    return push_generated(L, std::move(body));
 }
-- 
2.43.0


From e9daf500213cb484448be78ce2898eb934d47966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 48/74] fix: crash at exit after a failed save, whose file
 remained open

---
 libvvhd/headers/vvhdf.h   |  1 +
 libvvhd/src/TSpace.cpp    | 14 ++++++++++++--
 libvvhd/src/vvhdf_h5t.cpp | 19 +++++++++++++++++++
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/libvvhd/headers/vvhdf.h b/libvvhd/headers/vvhdf.h
index 97d4290..78a586b 100644
--- a/libvvhd/headers/vvhdf.h
+++ b/libvvhd/headers/vvhdf.h
@@ -29,6 +29,7 @@ void h5t_close();
 
 void h5t_commit_all(hid_t hid);
 void h5t_close_all();
+void h5t_forget_all(); // same, ignoring errors
 
 template<typename T>
 // <int32_t>
diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 4be8ef3..bb901e8 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -86,11 +86,21 @@ void Space::save(const char* format)
     snprintf(&fname[0], fname.size(), format, step);
     fname.pop_back();
     H5Eset_auto(H5E_DEFAULT, NULL, NULL);
-    hid_t fid = H5Fcreate(fname.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
+    // closing the file closes everything left open in it by a failure
+    hid_t fapl = H5Pcreate(H5P_FILE_ACCESS);
+    H5Pset_fclose_degree(fapl, H5F_CLOSE_STRONG);
+    hid_t fid = H5Fcreate(fname.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, fapl);
+    H5Pclose(fapl);
     if (fid < 0)
         h5_throw("H5Fcreate", fname);
 
-    save_hdf(fid);
+    try {
+        save_hdf(fid);
+    } catch (...) {
+        h5t_forget_all();
+        H5Fclose(fid);
+        throw;
+    }
 
     herr_t err = H5Fclose(fid);
     if (err < 0)
diff --git a/libvvhd/src/vvhdf_h5t.cpp b/libvvhd/src/vvhdf_h5t.cpp
index c651b56..471f4fb 100644
--- a/libvvhd/src/vvhdf_h5t.cpp
+++ b/libvvhd/src/vvhdf_h5t.cpp
@@ -8,6 +8,10 @@
 
 #include <stdexcept>
 
+// All files are closed explicitly. After a failed write the library
+// would crash on an attempt to close the file once again at exit.
+static const herr_t dont_atexit __attribute__((unused)) = H5dont_atexit();
+
 // ID
 template<> hid_t h5t<int32_t>::id = H5T_NATIVE_INT32;
 template<> hid_t h5t<uint32_t>::id = H5T_NATIVE_UINT32;
@@ -127,3 +131,18 @@ void h5t_close_all()
     h5t_close<const char*>();
     h5t_close<TTime>();
 }
+
+template<typename T>
+static void h5t_forget()
+{
+    if (h5t<T>::id >= 0) H5Tclose(h5t<T>::id);
+    h5t<T>::id = -1;
+}
+
+void h5t_forget_all()
+{
+    h5t_forget<TVec>();
+    h5t_forget<TVec3D>();
+    h5t_forget<const char*>();
+    h5t_forget<TTime>();
+}
-- 
2.43.0


From ae4d113c3dd867516545a8d3a03042cba5c0f305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 49/74] fix: failures to close the step record were ignored

---
 libvvhd/headers/MStepdata.hpp |  2 ++
 libvvhd/src/MStepdata.cpp     | 53 ++++++++++++++++++++++++++---------
 utils/vvflow/vvflow.cpp       |  2 ++
 3 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/libvvhd/headers/MStepdata.hpp b/libvvhd/headers/MStepdata.hpp
index 8bc78dc..0a11a4f 100644
--- a/libvvhd/headers/MStepdata.hpp
+++ b/libvvhd/headers/MStepdata.hpp
@@ -13,8 +13,10 @@ class Stepdata
         ~Stepdata();
         void write();
         void flush();
+        void close(); // after the last write, throws if something is lost
 
     private:
+        bool close_all();
         int64_t h5d_init(int64_t loc_id, const char *name, size_t rows, size_t cols);
         int64_t h5d_init(int64_t loc_id, const char *name, size_t rows, size_t cols, int64_t type);
         void append(int64_t h5d, const void* buf);
diff --git a/libvvhd/src/MStepdata.cpp b/libvvhd/src/MStepdata.cpp
index a96ea9e..930f271 100644
--- a/libvvhd/src/MStepdata.cpp
+++ b/libvvhd/src/MStepdata.cpp
@@ -14,7 +14,7 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
     b_save_profile(b_save_profile),
     blsize(S->BodyList.size()),
     last_flush_time(0),
-    h5f(),
+    h5f(-1),
     time_h5d(-1),
     force_hydro_h5d(),
     force_holder_h5d(),
@@ -118,13 +118,15 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
             {
                 // shrink dataset
                 hid_t h5d = h5d_init(body_h5g, "pressure", rows, lbody->size());
-                H5Dclose(h5d);
+                if (H5Dclose(h5d) < 0)
+                    h5_throw("H5Dclose", bname);
             }
             if (H5Lexists(body_h5g, "friction", H5P_DEFAULT) > 0)
             {
                 // shrink dataset
                 hid_t h5d = h5d_init(body_h5g, "friction", rows, lbody->size());
-                H5Dclose(h5d);
+                if (H5Dclose(h5d) < 0)
+                    h5_throw("H5Dclose", bname);
             }
         }
 
@@ -137,21 +139,40 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
 
 Stepdata::~Stepdata()
 {
-    H5Dclose(time_h5d);
+    close_all();
+}
+
+void Stepdata::close()
+{
+    if (!close_all())
+        h5_throw("H5Fclose", "stepdata");
+}
+
+bool Stepdata::close_all()
+{
+    bool ok = true;
+    auto close = [&ok](int64_t& h5d) {
+        if (h5d >= 0) ok &= H5Dclose(h5d) >= 0;
+        h5d = -1;
+    };
+
+    close(time_h5d);
     for (size_t i=0; i<blsize; i++)
     {
-        if (force_hydro_h5d[i]    >= 0) H5Dclose(force_hydro_h5d[i]);
-        if (force_holder_h5d[i]   >= 0) H5Dclose(force_holder_h5d[i]);
-        if (force_friction_h5d[i] >= 0) H5Dclose(force_friction_h5d[i]);
-        if (nusselt_h5d[i]        >= 0) H5Dclose(nusselt_h5d[i]);
-        if (position_h5d[i]       >= 0) H5Dclose(position_h5d[i]);
-        if (spring_h5d[i]         >= 0) H5Dclose(spring_h5d[i]);
-        if (speed_h5d[i]          >= 0) H5Dclose(speed_h5d[i]);
-        if (pressure_h5d[i]       >= 0) H5Dclose(pressure_h5d[i]);
-        if (friction_h5d[i]       >= 0) H5Dclose(friction_h5d[i]);
+        close(force_hydro_h5d[i]);
+        close(force_holder_h5d[i]);
+        close(force_friction_h5d[i]);
+        close(nusselt_h5d[i]);
+        close(position_h5d[i]);
+        close(spring_h5d[i]);
+        close(speed_h5d[i]);
+        close(pressure_h5d[i]);
+        close(friction_h5d[i]);
     }
 
-    H5Fclose(h5f);
+    if (h5f >= 0) ok &= H5Fclose(h5f) >= 0;
+    h5f = -1;
+    return ok;
 }
 
 void Stepdata::flush()
@@ -278,6 +299,8 @@ int64_t Stepdata::h5d_init(int64_t loc_id, const char *name, size_t rows, size_t
     if (H5Lexists(loc_id, name, H5P_DEFAULT))
     {
         h5d = H5Dopen(loc_id, name, H5P_DEFAULT);
+        if (h5d < 0)
+            h5_throw("H5Dopen", name);
         hid_t h5s = H5Dget_space(h5d);
 
         hsize_t cur_dims[2];
@@ -303,6 +326,8 @@ int64_t Stepdata::h5d_init(int64_t loc_id, const char *name, size_t rows, size_t
         h5d = H5Dcreate(loc_id, name, type, h5s, H5P_DEFAULT, h5p, H5P_DEFAULT);
         H5Sclose(h5s);
         H5Pclose(h5p);
+        if (h5d < 0)
+            h5_throw("H5Dcreate", name);
     }
 
     return h5d;
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 38a1d14..2abe5d9 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -319,6 +319,8 @@ static void simulate (Space &S) {
             fprintf(stderr, "\rt=%-10g \tN=%-10zd", double(S.time), S.VortexList.size());
     }
 
+    stepdata.close();
+
     if (opt::show_progress)
         fprintf(stderr, "\n");
 }
-- 
2.43.0


From 0019866562a009c2f8f62ee55f8a457e416bc6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 50/74] fix: failures to write sensors were ignored

---
 utils/vvflow/sensors.cpp | 24 ++++++++++++++++++++++--
 utils/vvflow/vvflow.cpp  |  1 +
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/utils/vvflow/sensors.cpp b/utils/vvflow/sensors.cpp
index 20c3b48..350a283 100644
--- a/utils/vvflow/sensors.cpp
+++ b/utils/vvflow/sensors.cpp
@@ -1,6 +1,10 @@
 #include "MConvectiveFast.hpp"
 
 // #include <cstdio>
+#include <cerrno>
+#include <cstring>
+#include <stdexcept>
+#include <string>
 #include <vector>
 
 using std::vector;
@@ -15,6 +19,7 @@ class sensors
 		~sensors();
 		void loadFile(const char* file);
 		void output();
+		void close();
 
 	private:
 		Space *S;
@@ -30,7 +35,11 @@ sensors::sensors(Space* S, MConvectiveFast *conv, const char* sensors_file, cons
 	slist()
 {
 	loadFile(sensors_file);
-	if (slist.size()) fout = fopen(output, "a");
+	if (slist.size())
+	{
+		fout = fopen(output, "a");
+		if (!fout) throw std::runtime_error(std::string("can't open ") + output + ": " + strerror(errno));
+	}
 }
 
 sensors::~sensors()
@@ -66,5 +75,16 @@ void sensors::output()
 		fprintf(fout, " \t%lg \t%lg", tmp.x, tmp.y);
 	}
 	fprintf(fout, "\n");
-	fflush(fout);
+	if (fflush(fout) || ferror(fout))
+		throw std::runtime_error(std::string("can't write sensors: ") + strerror(errno));
+}
+
+void sensors::close()
+{
+	if (!fout) return;
+
+	FILE* f = fout;
+	fout = nullptr;
+	if (fclose(f))
+		throw std::runtime_error(std::string("can't write sensors: ") + strerror(errno));
 }
diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 2abe5d9..ebaebff 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -320,6 +320,7 @@ static void simulate (Space &S) {
     }
 
     stepdata.close();
+    sens.close();
 
     if (opt::show_progress)
         fprintf(stderr, "\n");
-- 
2.43.0


From 13844f5a0e3af7a521358cee628285399a759894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 51/74] fix: vvxtract ignored failures to write its output

---
 utils/vvxtract/vvxtract.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/utils/vvxtract/vvxtract.cpp b/utils/vvxtract/vvxtract.cpp
index 4e4db75..5731dc3 100644
--- a/utils/vvxtract/vvxtract.cpp
+++ b/utils/vvxtract/vvxtract.cpp
@@ -41,8 +41,19 @@ namespace opt {
     char* const* argv;
 }
 
+// The output is lost if it does not fit until it is written out
+static void check_output()
+{
+    if (fflush(stdout) || ferror(stdout))
+    {
+        perror("can't write output");
+        _exit(4);
+    }
+}
+
 int main(int argc, char **argv)
 {
+    atexit(check_output);
     opt::parse(argc, argv);
 
     H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
-- 
2.43.0


From 1230ea5340f03ff0f5650089df060a38494e0b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 52/74] fix: vvplot ignored failures to write a plot

---
 utils/vvplot/gnuplotter.cpp | 64 ++++++++++++++++++++++++++++++-------
 utils/vvplot/vvplot.cpp     | 13 +++++---
 2 files changed, 61 insertions(+), 16 deletions(-)

diff --git a/utils/vvplot/gnuplotter.cpp b/utils/vvplot/gnuplotter.cpp
index f982b05..d353c23 100644
--- a/utils/vvplot/gnuplotter.cpp
+++ b/utils/vvplot/gnuplotter.cpp
@@ -3,6 +3,7 @@
 #include <cstring>
 #include <errno.h>
 #include <fcntl.h> /* O_RDONLY */
+#include <unistd.h>
 
 /* libarchive */
 #include <archive.h>
@@ -13,8 +14,25 @@ Gnuplotter::Gnuplotter():
     files()
 {}
 
+static void throw_errno(const std::string& what)
+{
+    throw std::runtime_error(what + ": " + strerror(errno));
+}
+
+static void archive_check(struct archive *a, const std::string& filename, ssize_t rc)
+{
+    // entries are written even if there was something to warn about
+    if (rc >= ARCHIVE_WARN) return;
+
+    const char* reason = archive_error_string(a);
+    std::string err = "Error writing '" + filename + "': ";
+    err += reason ?: "unknown error";
+    throw std::runtime_error(err);
+}
+
 static void archive(
     struct archive *a,
+    const std::string& filename,
     const std::string& name,
     const std::string& data,
     int perm = 0644)
@@ -24,25 +42,33 @@ static void archive(
     archive_entry_set_size(e, data.size());
     archive_entry_set_filetype(e, AE_IFREG);
     archive_entry_set_perm(e, perm);
-    archive_write_header(a, e);
-    archive_write_data(a, data.c_str(), data.size());
+    ssize_t rc = archive_write_header(a, e);
     archive_entry_free(e);
+    archive_check(a, filename, rc);
+    archive_check(a, filename, archive_write_data(a, data.c_str(), data.size()));
 }
 
 void Gnuplotter::save(const std::string& filename)
 {
+    // libarchive does not tell if closing fails
+    int fd = open(filename.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0666);
+    if (fd < 0)
+        throw_errno("Error opening '" + filename + "'");
+
     struct archive *a = archive_write_new();
 
     archive_write_set_format_pax_restricted(a);
-    archive_write_open_filename(a, filename.c_str());
+    archive_check(a, filename, archive_write_open_fd(a, fd));
 
-    archive(a, "plot.gp", script.str(), 0755);
+    archive(a, filename, "plot.gp", script.str(), 0755);
     for (auto& f: files) {
-        archive(a, f.first, f.second);
+        archive(a, filename, f.first, f.second);
     }
 
-    archive_write_close(a);
+    archive_check(a, filename, archive_write_close(a));
     archive_write_free(a);
+    if (close(fd) < 0)
+        throw_errno("Error writing '" + filename + "'");
 }
 
 void Gnuplotter::load(const std::string& filename)
@@ -93,24 +119,39 @@ void Gnuplotter::load(const std::string& filename)
     archive_read_free(a);
 }
 
+static int memory_file(const std::string& name, const std::string& content)
+{
+    int memfd = syscall(SYS_memfd_create, name.c_str(), 0);
+    size_t done = 0;
+    ssize_t ws = 0;
+    while (memfd >= 0 && ws >= 0 && done < content.size()) {
+        ws = write(memfd, content.data() + done, content.size() - done);
+        if (ws > 0) done += ws;
+    }
+    if (memfd < 0 || ws < 0)
+        throw_errno("Error storing '" + name + "'");
+
+    return memfd;
+}
+
 void Gnuplotter::exec(const std::string& filename)
 {
     std::string script_str = script.str();
 
-    int fd = open(filename.c_str(), O_WRONLY|O_CREAT, 0644);
+    int fd = open(filename.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644);
     if (fd < 0) {
         std::string err = "Error opening '" + filename + "': ";
         err += strerror(errno);
         throw std::runtime_error(err);
     }
-    dup2(fd, 1);
+    if (dup2(fd, 1) < 0)
+        throw_errno("Error writing '" + filename + "'");
 
     for (auto& f: files) {
         std::string name = f.first;
         std::string content = f.second;
 
-        int memfd = syscall(SYS_memfd_create, name.c_str(), 0);
-        size_t ws = write(memfd, content.data(), content.size());
+        int memfd = memory_file(name, content);
 
         std::string old_str = strfmt("'%s'", name.c_str());
         std::string new_str = strfmt("'/dev/fd/%d'", memfd);
@@ -120,8 +161,7 @@ void Gnuplotter::exec(const std::string& filename)
         }
     }
 
-    int memfd = syscall(SYS_memfd_create, "plot.gp", 0);
-    size_t ws = write(memfd, script_str.data(), script_str.size());
+    int memfd = memory_file("plot.gp", script_str);
 
     int rc = execlp("gnuplot", "gnuplot", strfmt("/dev/fd/%d", memfd).c_str(), NULL);
     if (rc < 0) {
diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index bc53b46..7b73fc1 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -566,9 +566,14 @@ int main(int argc, char **argv)
 {
     opt::parse(argc, argv);
 
-    if (opt::ifmt == ffmt::hdf) {
-        return main_hdf(argc, argv);
-    } else {
-        return main_tar(argc, argv);
+    try {
+        if (opt::ifmt == ffmt::hdf) {
+            return main_hdf(argc, argv);
+        } else {
+            return main_tar(argc, argv);
+        }
+    } catch (const std::exception& e) {
+        fprintf(stderr, "%s: %s\n", argv[0], e.what());
+        return 1;
     }
 }
-- 
2.43.0


From 3a172e496fe12f1169f2862a4885019cf0a7a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 53/74] fix: neighbours of a point outside the tree nodes could
 be far from it

findNode() went down by the halves of the plane, so a point beside a node
could get the neighbours of a distant one. The fields then missed nearby
elements or replaced them with a single one.
---
 libvvhd/src/TSortedTree.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/TSortedTree.cpp b/libvvhd/src/TSortedTree.cpp
index be03672..7a8746e 100644
--- a/libvvhd/src/TSortedTree.cpp
+++ b/libvvhd/src/TSortedTree.cpp
@@ -281,12 +281,36 @@ const vector<TSortedNode*>& stree::getBottomNodes() const
     return bottomNodes;
 }
 
+// distance from the point to the node, 0 inside
+static double distance2(const TSortedNode* node, TVec p)
+{
+    double dx = std::max(fabs(p.x - node->x) - node->w*0.5, 0.0);
+    double dy = std::max(fabs(p.y - node->y) - node->h*0.5, 0.0);
+    return dx*dx + dy*dy;
+}
+
+static void findNearest(const TSortedNode* node, TVec p, const TSortedNode** nearest, double* nearest_dr2)
+{
+    double dr2 = distance2(node, p);
+    if (!(dr2 < *nearest_dr2))
+        return;
+
+    if (!node->ch1) {
+        *nearest = node;
+        *nearest_dr2 = dr2;
+        return;
+    }
+
+    findNearest(node->ch1, p, nearest, nearest_dr2);
+    findNearest(node->ch2, p, nearest, nearest_dr2);
+}
+
 const TSortedNode* stree::findNode(TVec p) const
 {
     if (!rootNode) {
         throw std::invalid_argument("TTree::findNode(): tree is not built");
     }
-    TSortedNode *Node = rootNode;
+    const TSortedNode *Node = rootNode;
 
     while (Node->ch1)
     {
@@ -299,6 +323,11 @@ const TSortedNode* stree::findNode(TVec p) const
             Node = (p.y < Node->y) ? Node->ch1 : Node->ch2 ;
         }
     }
+
+    // Nodes don't cover the whole plane. Neighbours of the found one
+    // are of no use if there is another node closer to the point.
+    double dr2 = distance2(Node, p);
+    findNearest(rootNode, p, &Node, &dr2);
     return Node;
 }
 
-- 
2.43.0


From 55fa017ba483629d361c62c6d65a07f4d2ea85b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:00 +0000
Subject: [PATCH 54/74] fix: evaluating a field changed the bodies of the space

Copies of a space share its bodies, so shedding the vortices for XVorticity
and XPressure increased the sums of the original ones, and the next pressure
field was different.
---
 libvvhd/src/XPressure.cpp  | 4 ++++
 libvvhd/src/XVorticity.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/libvvhd/src/XPressure.cpp b/libvvhd/src/XPressure.cpp
index b05a24f..a7a1646 100644
--- a/libvvhd/src/XPressure.cpp
+++ b/libvvhd/src/XPressure.cpp
@@ -56,6 +56,10 @@ void XPressure::evaluate()
     S.HeatList.clear();
     S.StreakList.clear();
     S.StreakSourceList.clear();
+    // bodies are shared with the original space, which has to stay intact
+    for (auto& lbody: S.BodyList) {
+        lbody = std::make_shared<TBody>(*lbody);
+    }
     flowmove.vortex_shed();
 
     //дано: условие непротекания выполнено, неизвестные вихри найдены и рождены.
diff --git a/libvvhd/src/XVorticity.cpp b/libvvhd/src/XVorticity.cpp
index aa86e7b..ae139af 100644
--- a/libvvhd/src/XVorticity.cpp
+++ b/libvvhd/src/XVorticity.cpp
@@ -34,6 +34,10 @@ void XVorticity::evaluate()
     S.HeatList.clear();
     S.StreakList.clear();
     S.StreakSourceList.clear();
+    // bodies are shared with the original space, which has to stay intact
+    for (auto& lbody: S.BodyList) {
+        lbody = std::make_shared<TBody>(*lbody);
+    }
     MFlowmove flowmove = {&S};
     flowmove.vortex_shed();
 
-- 
2.43.0


From b4ca454ced55cdecc1ccff912d0af2c84a570d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:00 +0000
Subject: [PATCH 55/74] fix: the body reference frame of a flow without bodies
 crashed

---
 libvvhd/src/XPressure.cpp       | 2 ++
 libvvhd/src/XStreamfunction.cpp | 2 ++
 libvvhd/src/XVelocity.cpp       | 4 +++-
 utils/vvplot/vvplot.cpp         | 4 ++++
 4 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/XPressure.cpp b/libvvhd/src/XPressure.cpp
index a7a1646..7556aa2 100644
--- a/libvvhd/src/XPressure.cpp
+++ b/libvvhd/src/XPressure.cpp
@@ -44,6 +44,8 @@ void XPressure::evaluate()
         ref_frame_speed = S.inf_speed();
         break;
     case 'b':
+        if (S.BodyList.empty())
+            throw std::invalid_argument("XPressure(): no body for ref_frame");
         ref_frame_speed = S.BodyList[0]->speed_slae.r;
         break;
     default:
diff --git a/libvvhd/src/XStreamfunction.cpp b/libvvhd/src/XStreamfunction.cpp
index 1e906f7..184219c 100644
--- a/libvvhd/src/XStreamfunction.cpp
+++ b/libvvhd/src/XStreamfunction.cpp
@@ -57,6 +57,8 @@ void XStreamfunction::evaluate()
         ref_frame_speed = S.inf_speed();
         break;
     case 'b':
+        if (S.BodyList.empty())
+            throw std::invalid_argument("XStreamfunction(): no body for ref_frame");
         ref_frame_speed = S.BodyList[0]->speed_slae.r;
         break;
     default:
diff --git a/libvvhd/src/XVelocity.cpp b/libvvhd/src/XVelocity.cpp
index 3672c62..a72322d 100644
--- a/libvvhd/src/XVelocity.cpp
+++ b/libvvhd/src/XVelocity.cpp
@@ -31,6 +31,8 @@ void XVelocity::evaluate()
         ref_frame_speed = S.inf_speed();
         break;
     case 'b':
+        if (S.BodyList.empty())
+            throw std::invalid_argument("XVelocity(): no body for ref_frame");
         ref_frame_speed = S.BodyList[0]->speed_slae.r;
         break;
     default:
@@ -38,7 +40,7 @@ void XVelocity::evaluate()
     }
 
     if (mode != 'x' && mode != 'y') {
-        throw std::invalid_argument("XPressure(): bad mode");
+        throw std::invalid_argument("XVelocity(): bad mode");
     }
 
     if (evaluated)
diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index 7b73fc1..e68e60b 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -98,6 +98,10 @@ int main_hdf(int argc, char **argv)
     }
     gp << "\n" << std::endl;
 
+    if (strchr("bxy", opt::ref_xy) && S.BodyList.empty()) {
+        throw std::invalid_argument("--ref-xy: there are no bodies");
+    }
+
     if (opt::ref_xy == 'o') {
         // do nothing
     } else if (opt::ref_xy == 'f') {
-- 
2.43.0


From ee24ce969f0108fc0300b8206947474bba5a2a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:00 +0000
Subject: [PATCH 56/74] fix: XField: check arguments and stored data before use

- percentiles of a few values were read before the first one
- a stored field of a single row was read beyond the end
- fields with zero, negative or NaN steps were accepted
- fields away from the origin could not be read back because of rounding
---
 libvvhd/src/XField.cpp | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/libvvhd/src/XField.cpp b/libvvhd/src/XField.cpp
index f9af7cd..8c551fc 100644
--- a/libvvhd/src/XField.cpp
+++ b/libvvhd/src/XField.cpp
@@ -1,6 +1,7 @@
 #include "XField.hpp"
 
 #include <cmath>
+#include <limits>
 #include <stdexcept>
 #include <algorithm>
 
@@ -10,7 +11,7 @@ XField::XField(
 ):
     xmin(xmin), ymin(ymin), dxdy(dxdy),
     xres(xres), yres(yres),
-    map(new float[xres*yres]),
+    map(nullptr),
     gaps(),
     evaluated(false)
 {
@@ -22,12 +23,14 @@ XField::XField(
         throw std::invalid_argument("XField(): dxdy must be finite");
     if (dxdy <= 0)
         throw std::invalid_argument("XField(): dxdy must be positive");
+
+    map = new float[size_t(xres)*yres];
 }
 
 XField::XField(const std::string& str):
     xmin(0), ymin(0), dxdy(0),
     xres(0), yres(0),
-    map(new float[xres*yres]),
+    map(nullptr),
     gaps(),
     evaluated(false)
 {
@@ -38,29 +41,36 @@ XField::XField(const std::string& str):
 
     const float* data = reinterpret_cast<const float*>(str.c_str());
     float N = data[0];
-    if (!std::isfinite(N) || N <= 1 || fmod(N, 1) != 0) {
+    if (!std::isfinite(N) || N <= 1 || fmod(N, 1) != 0 || N > str.size()) {
         fprintf(stderr, "N = %lg\n", N);
         throw std::invalid_argument("XField(str): invalid data");
     }
 
     xres = N;
     yres = str.size()/sizeof(float)/(xres+1) - 1;
-    if (str.size() != sizeof(float)*(xres+1)*(yres+1))
+    if (str.size() != sizeof(float)*(xres+1)*(yres+1) || yres <= 1)
         throw std::invalid_argument("XField(str): can't factorize matrix");
 
-    float dx = data[2] - data[1];
-    float dy = data[2*(xres+1)] - data[1*(xres+1)];
-    if (fabs(dx-dy) > std::min(fabs(dx), fabs(dy))/1000 ) {
+    // coordinates are rounded, so the further they are apart the better
+    float x1 = data[1], x2 = data[xres];
+    float y1 = data[1*(xres+1)], y2 = data[yres*(xres+1)];
+    double dx = (double(x2) - x1)/(xres-1);
+    double dy = (double(y2) - y1)/(yres-1);
+    double rounding = std::numeric_limits<float>::epsilon()*(
+        std::max(fabs(x1), fabs(x2))/(xres-1) +
+        std::max(fabs(y1), fabs(y2))/(yres-1)
+    );
+    if (!(dx > 0 && dy > 0 && fabs(dx-dy) <= std::min(dx, dy)/1000 + rounding)) {
         fprintf(stderr, "Bad spacing: %lg != %lg (diff %lg)\n",
             dx, dy, fabs(dx-dy)
         );
         throw std::invalid_argument("XField(str): non-uniform grid");
     }
 
-    xmin = data[1];
-    ymin = data[1*(xres+1)];
-    dxdy = data[2]-data[1];
-    map = new float[xres*yres];
+    xmin = x1;
+    ymin = y1;
+    dxdy = (xres > yres) ? dx : dy;
+    map = new float[size_t(xres)*yres];
     for (int yj=0; yj<yres; yj++)
     {
         for (int xi=0; xi<xres; xi++)
@@ -116,7 +126,10 @@ float XField::percentile(float p) const
     auto it = std::copy_if(&map[0], &map[xres*yres], v.begin(), [](float x){return x!=0;});
     v.resize(std::distance(v.begin(),it));
 
-    size_t N = std::floor(v.size()*p);
+    if (v.empty())
+        return 0;
+
+    size_t N = std::max<size_t>(std::floor(v.size()*p), 1);
     std::partial_sort(v.begin(), v.begin()+N, v.end(), cmp);
     return v[N-1];
 }
-- 
2.43.0


From ac152abc609d1cd3127b71d0e3e9e2a98a78315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 57/74] fix: vvplot: ranges and sizes in the script were
 rounded to six digits

---
 utils/vvplot/vvplot.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index e68e60b..0f936ad 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -138,8 +138,8 @@ int main_hdf(int argc, char **argv)
     gp << "set zeroaxis" << std::endl;
     gp << "unset xtics" << std::endl;
     gp << "unset ytics" << std::endl
-    << strfmt( "set xrange [%lg:%lg]", opt::rect.xmin, opt::rect.xmax) << std::endl
-    << strfmt( "set yrange [%lg:%lg]", opt::rect.ymin, opt::rect.ymax) << std::endl;
+    << strfmt( "set xrange [%.15lg:%.15lg]", opt::rect.xmin, opt::rect.xmax) << std::endl
+    << strfmt( "set yrange [%.15lg:%.15lg]", opt::rect.ymin, opt::rect.ymax) << std::endl;
     if (opt::colorbox) {
         gp << "set format cb \"\"" << std::endl;
         gp << "set colorbox horizontal user";
@@ -195,7 +195,7 @@ int main_hdf(int argc, char **argv)
             float pmax = vrt.percentile(0.98);
             opt::Gmax = std::max(-pmin, pmax);
         }
-        gp << strfmt( "set cbrange [%lg:%lg]\n", -opt::Gmax, opt::Gmax);
+        gp << strfmt( "set cbrange [%.15lg:%.15lg]\n", -opt::Gmax, opt::Gmax);
         gp << strfmt( "set label 61 \"%.1lf\"\n", -opt::Gmax);
         gp << strfmt( "set label 62 \"%.1lf\"\n", opt::Gmax);
 
@@ -237,7 +237,7 @@ int main_hdf(int argc, char **argv)
             ")" << std::endl;
         }
 
-        gp << strfmt( "set cbrange [%lg:%lg]\n", opt::Pmin, opt::Pmax);
+        gp << strfmt( "set cbrange [%.15lg:%.15lg]\n", opt::Pmin, opt::Pmax);
         gp << strfmt( "set label 61 \"%.1lf\"\n", opt::Pmin);
         gp << strfmt( "set label 62 \"%.1lf\"\n", opt::Pmax);
 
@@ -297,7 +297,7 @@ int main_hdf(int argc, char **argv)
             opt::Umax/1 << " \"red\"" <<
         ")" << std::endl;
 
-        gp << strfmt( "set cbrange [%lg:%lg]\n", opt::Umin, opt::Umax);
+        gp << strfmt( "set cbrange [%.15lg:%.15lg]\n", opt::Umin, opt::Umax);
         gp << strfmt( "set label 61 \"%.1lf\"\n", opt::Umin);
         gp << strfmt( "set label 62 \"%.1lf\"\n", opt::Umax);
 
@@ -326,7 +326,7 @@ int main_hdf(int argc, char **argv)
             plot_cmd << DELIMITER;
             plot_cmd << "''";
             plot_cmd << " binary format='%3float'";
-            plot_cmd << strfmt(  " u 1:2:(%lf):(color($3))", opt::Vcirc);
+            plot_cmd << strfmt(  " u 1:2:(%.15lg):(color($3))", opt::Vcirc);
             plot_cmd << " with circles lc rgb variable fs transparent solid 0.3 noborder";
         }
     }
@@ -415,6 +415,8 @@ int main_hdf(int argc, char **argv)
     if (opt::holder || opt::spring) {
         std::stringstream body_holders;
         std::stringstream body_springs;
+        body_holders.precision(15);
+        body_springs.precision(15);
         for (const std::shared_ptr<TBody>& lbody: S.BodyList) {
             TVec p_h = lbody->holder.r;
             body_holders << p_h.x << " " << p_h.y;
@@ -431,19 +433,19 @@ int main_hdf(int argc, char **argv)
         if (opt::holder) {
             plot_cmd << DELIMITER;
             plot_cmd << "'body_holders'";
-            plot_cmd << strfmt(  " u 1:2:(1.5*%lf)", opt::Vcirc);
+            plot_cmd << strfmt(  " u 1:2:(1.5*%.15lg)", opt::Vcirc);
             plot_cmd << " w circles lc rgb 'black' fs solid noborder";
         }
         if (opt::spring) {
             plot_cmd << DELIMITER;
             plot_cmd << "'body_springs'";
-            plot_cmd << strfmt(  " u 1:2:(1.5*%lf)", opt::Vcirc);
+            plot_cmd << strfmt(  " u 1:2:(1.5*%.15lg)", opt::Vcirc);
             plot_cmd << " w circles lc rgb 'black' fs solid noborder";
             plot_cmd << DELIMITER;
             plot_cmd << "''";
             plot_cmd << " u 1:2:3:4";
             plot_cmd << " w vectors";
-            plot_cmd << strfmt(" head size %lf,135", opt::Vcirc*3);
+            plot_cmd << strfmt(" head size %.15lg,135", opt::Vcirc*3);
             plot_cmd << " lc rgb 'black' lw 1.5";
         }
     }
-- 
2.43.0


From e30acd5eeb63fdcf4ce856eb07c7a05f29695f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 58/74] fix: vvplot: large items of a package overflowed the
 stack

---
 utils/vvplot/gnuplotter.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/utils/vvplot/gnuplotter.cpp b/utils/vvplot/gnuplotter.cpp
index d353c23..60d14bd 100644
--- a/utils/vvplot/gnuplotter.cpp
+++ b/utils/vvplot/gnuplotter.cpp
@@ -99,10 +99,9 @@ void Gnuplotter::load(const std::string& filename)
         }
 
         std::string pathname = archive_entry_pathname(entry);
-        size_t esize = archive_entry_size(entry);
-        char buf[esize];
+        std::string buf(archive_entry_size(entry), '\0');
 
-        size_t rsize = archive_read_data(a, buf, esize);
+        ssize_t rsize = archive_read_data(a, &buf[0], buf.size());
         if (rsize < 0) {
             std::string err = "Error reading '" + filename + "' (" + pathname + "): ";
             err += archive_error_string(a);
@@ -110,9 +109,9 @@ void Gnuplotter::load(const std::string& filename)
         }
 
         if (pathname == "plot.gp") {
-            script.write(buf, rsize);
+            script.write(buf.data(), rsize);
         } else {
-            files[pathname] = std::string(buf, rsize);
+            files[pathname] = buf.substr(0, rsize);
         }
     }
 
-- 
2.43.0


From a0b44a8dfe55a32472eb93839125a0d4763e5d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 59/74] fix: vvplot: only the first reference to an item of a
 package was resolved

---
 utils/vvplot/gnuplotter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/vvplot/gnuplotter.cpp b/utils/vvplot/gnuplotter.cpp
index 60d14bd..06bef51 100644
--- a/utils/vvplot/gnuplotter.cpp
+++ b/utils/vvplot/gnuplotter.cpp
@@ -154,9 +154,10 @@ void Gnuplotter::exec(const std::string& filename)
 
         std::string old_str = strfmt("'%s'", name.c_str());
         std::string new_str = strfmt("'/dev/fd/%d'", memfd);
-        size_t pos = script_str.find(old_str);
-        if (pos != std::string::npos) {
+        size_t pos = 0;
+        while ((pos = script_str.find(old_str, pos)) != std::string::npos) {
             script_str.replace(pos, old_str.size(), new_str);
+            pos += new_str.size();
         }
     }
 
-- 
2.43.0


From 0fcd4b1cd96c30a0a2f0802bad059624fc6e8750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 60/74] fix: vvplot: a body without segments crashed

---
 utils/vvplot/vvplot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index 0f936ad..6562dd1 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -403,7 +403,7 @@ int main_hdf(int argc, char **argv)
             float f[2] = {float(p.x), float(p.y)};
             bin.write(reinterpret_cast<const char*>(f), sizeof(f));
         }
-        { /* close the curve */
+        if (!b.alist.empty()) { /* close the curve */
             TVec p = b.alist.front().corner;
             float f[2] = {float(p.x), float(p.y)};
             bin.write(reinterpret_cast<const char*>(f), sizeof(f));
-- 
2.43.0


From 938ea707186f87a649cd1a0db21682d1d710a07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 61/74] fix: vvplot: gnuplot failed on fields of one value or
 one sign

---
 utils/vvplot/vvplot.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index 6562dd1..8938475 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -194,6 +194,7 @@ int main_hdf(int argc, char **argv)
             float pmin = vrt.percentile(0.02);
             float pmax = vrt.percentile(0.98);
             opt::Gmax = std::max(-pmin, pmax);
+            if (opt::Gmax == 0) opt::Gmax = 1; // gnuplot refuses an empty range
         }
         gp << strfmt( "set cbrange [%.15lg:%.15lg]\n", -opt::Gmax, opt::Gmax);
         gp << strfmt( "set label 61 \"%.1lf\"\n", -opt::Gmax);
@@ -289,12 +290,22 @@ int main_hdf(int argc, char **argv)
         if (!std::isfinite(opt::Umin)) opt::Umin = field->min();
         if (!std::isfinite(opt::Umax)) opt::Umax = field->max();
 
+        if (opt::Umin == opt::Umax) { // gnuplot refuses an empty range
+            double du = opt::Umin ? fabs(opt::Umin)/2 : 1;
+            opt::Umin -= du;
+            opt::Umax += du;
+        }
+
+        // zero is green, unless it is out of range
+        bool sym = opt::Umin <= 0 && opt::Umax >= 0;
+        double pmin = sym ? opt::Umin : -1;
+        double pmax = sym ? opt::Umax : +1;
         gp << "set palette defined (" <<
-            opt::Umin/1 << " \"#0829d5\", " <<
-            opt::Umin/3 << " \"#1ffcff\", " <<
-                    0.0 << " \"#2ef62e\", " <<
-            opt::Umax/3 << " \"yellow\", " <<
-            opt::Umax/1 << " \"red\"" <<
+            pmin/1 << " \"#0829d5\", " <<
+            pmin/3 << " \"#1ffcff\", " <<
+               0.0 << " \"#2ef62e\", " <<
+            pmax/3 << " \"yellow\", " <<
+            pmax/1 << " \"red\"" <<
         ")" << std::endl;
 
         gp << strfmt( "set cbrange [%.15lg:%.15lg]\n", opt::Umin, opt::Umax);
-- 
2.43.0


From 3dc482e776f4db5d5383091390f7c3c5a360ad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 62/74] fix: vvplot: streamlines of a still flow were an error

---
 utils/vvplot/vvplot.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index 8938475..2e14ff0 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -385,7 +385,8 @@ int main_hdf(int argc, char **argv)
         }
 
         std::stringstream bin_streamline;
-        bin_streamline << XIsoline(*field, opt::Smin, opt::Smax, opt::Sstep);
+        if (opt::Sstep > 0) // there are no streamlines in a still flow
+            bin_streamline << XIsoline(*field, opt::Smin, opt::Smax, opt::Sstep);
         gp.add("streamlines", bin_streamline.str());
 
         plot_cmd << DELIMITER;
@@ -571,7 +572,8 @@ int main_tar(int argc, char **argv)
         }
 
         std::stringstream bin_streamline;
-        bin_streamline << XIsoline(psi, opt::Smin, opt::Smax, opt::Sstep);
+        if (opt::Sstep > 0)
+            bin_streamline << XIsoline(psi, opt::Smin, opt::Smax, opt::Sstep);
         gp.add("streamlines", bin_streamline.str());
     }
 
-- 
2.43.0


From 84a1cbb3bee548f29b57d43a38718be6de79d54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:04 +0000
Subject: [PATCH 63/74] fix: vvplot: labels of bodies could clash with each
 other, other items of a package and gnuplot syntax

---
 utils/vvplot/vvplot.cpp | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index 2e14ff0..5e1615d 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -83,6 +83,34 @@ namespace opt {
     int ofmt = ffmt::png;
 }
 
+/* Items of a package are files, and gnuplot refers to them in quotes */
+static bool is_item_name(const std::string& str)
+{
+    for (const char& c: str) {
+        bool alnum = isalnum((unsigned char)c) || (unsigned char)c >= 0x80 || c == '_';
+        bool other = strchr("-+. ()", c) && c;
+        if (!(alnum || (other && &c != &str.front())))
+            return false;
+    }
+    return !str.empty() && str.size() < 64;
+}
+
+/* The names of items other than bodies */
+static bool is_reserved(const std::string& str)
+{
+    static const char* const names[] = {
+        "plot.gp", "map_vorticity", "map_pressure", "isopressure",
+        "map_velocity_x", "map_velocity_y", "vortex_list",
+        "map_streamfunction", "streamlines",
+        "body_holders", "body_springs",
+        "ttree_bottom_nodes", "ttree_near_nodes", "ttree_find_node",
+    };
+    for (const char* name: names) {
+        if (str == name) return true;
+    }
+    return false;
+}
+
 int main_hdf(int argc, char **argv)
 {
     Space S;
@@ -398,9 +426,12 @@ int main_hdf(int argc, char **argv)
     for (const std::shared_ptr<TBody>& lbody: S.BodyList) {
         const TBody& b = *lbody;
         std::string blabel = b.label;
-        if (blabel.empty()){
+        if (!is_item_name(blabel)) {
             blabel = S.get_body_name(&b);
         }
+        while (gp.get(blabel) || is_reserved(blabel)) {
+            blabel += "_";
+        }
 
         if (opt::B) {
             plot_cmd << DELIMITER;
-- 
2.43.0


From 94f9e07d7156f9e95c4d67c906f3b64fc650ab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:42 +0000
Subject: [PATCH 64/74] fix: vvplot: an empty file instead of a picture when
 there was nothing to draw

---
 utils/vvplot/vvplot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/vvplot/vvplot.cpp b/utils/vvplot/vvplot.cpp
index 5e1615d..dbf5e37 100644
--- a/utils/vvplot/vvplot.cpp
+++ b/utils/vvplot/vvplot.cpp
@@ -566,6 +566,10 @@ int main_hdf(int argc, char **argv)
             plot_cmd << " with vectors nohead lc rgb 'black'";
         }
     }
+    if (!plot_cmd.tellp()) {
+        // there is nothing to plot, but the frame is still to be drawn
+        plot_cmd << DELIMITER << "NaN";
+    }
     #undef DELIMITER
 
     gp << plot_cmd.str() << std::endl;
-- 
2.43.0


From 3222fc8708df4f3959c018bdd3c1cf5bc7a7764a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 65/74] fix: vvplot: files that are not packages were drawn as
 nothing

---
 utils/vvplot/gnuplotter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/vvplot/gnuplotter.cpp b/utils/vvplot/gnuplotter.cpp
index 06bef51..f61785d 100644
--- a/utils/vvplot/gnuplotter.cpp
+++ b/utils/vvplot/gnuplotter.cpp
@@ -116,6 +116,9 @@ void Gnuplotter::load(const std::string& filename)
     }
 
     archive_read_free(a);
+
+    if (script.str().empty())
+        throw std::runtime_error("Error reading '" + filename + "': there is no plot.gp");
 }
 
 static int memory_file(const std::string& name, const std::string& content)
-- 
2.43.0


From b2e7c1b5e957782d1965e0540c6f0f8731c04cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 66/74] fix: sums and multiples of times with large timescales

The least common multiple was computed in 32 bits and overflowed, so that
sums were silently wrong and the divisibility test could divide by zero.
Sums are exact now, or an error when the result cannot be represented.
---
 libvvhd/headers/TTime.hpp | 62 +++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/libvvhd/headers/TTime.hpp b/libvvhd/headers/TTime.hpp
index 9409623..6be6edc 100644
--- a/libvvhd/headers/TTime.hpp
+++ b/libvvhd/headers/TTime.hpp
@@ -2,6 +2,7 @@
 
 #include <cmath>
 #include <cstdint>
+#include <stdexcept>
 #include <string>
 
 class TTime
@@ -37,11 +38,21 @@ class TTime
 
         static TTime add(TTime time1, TTime time2)
         {
-            uint32_t newTS = lcm(time1.timescale, time2.timescale);
-            return TTime(
-                    time1.value*(newTS/time1.timescale)
-                    + time2.value*(newTS/time2.timescale)
-                    , newTS);
+            if (!time1.timescale || !time2.timescale)
+                throw std::invalid_argument("invalid time: zero timescale");
+            uint64_t newTS = lcm(time1.timescale, time2.timescale);
+            // neither of the products exceeds 2^63
+            __int128 newValue = __int128(time1.value)*(newTS/time1.timescale)
+                              + __int128(time2.value)*(newTS/time2.timescale);
+            if (!fits(newValue, newTS))
+            {
+                uint64_t common = gcd(newTS, uint64_t(newValue < 0 ? -newValue : newValue));
+                newTS /= common;
+                newValue /= __int128(common);
+                if (!fits(newValue, newTS))
+                    throw std::overflow_error("time is out of range");
+            }
+            return TTime(int32_t(newValue), uint32_t(newTS));
         }
 
         bool divisibleBy(TTime divisor)
@@ -49,10 +60,9 @@ class TTime
             // divisible = кратно
             // dividend = делимое
             // divisor = делитель
-            if (!divisor.value || !divisor.timescale)
+            if (!divisor.value || !divisor.timescale || !timescale)
                 return false;
-            uint32_t lcm_ts = lcm(timescale, divisor.timescale);
-            return !((int64_t(value)*lcm_ts/timescale) % (int64_t(divisor.value)*lcm_ts/divisor.timescale));
+            return !((int64_t(value)*divisor.timescale) % (__int128(divisor.value)*timescale));
         }
 
     public:
@@ -65,28 +75,24 @@ class TTime
         }
 
     private:
-        static uint32_t lcm(uint32_t x, uint32_t y)
+        static bool fits(__int128 value, uint64_t timescale)
+        {
+            return int32_t(value) == value && uint32_t(timescale) == timescale;
+        }
+
+        static uint64_t gcd(uint64_t x, uint64_t y)
         {
-            if (x == y) return x;
-            if (!x || !y) return 1;
-            uint32_t result = 1;
-            uint32_t k = 2;
-            while ((x!=1) || (y!=1))
+            while (y)
             {
-                bool kIsPrime = true;
-                for (uint32_t d = 2; d<k/2; d++) { if (!k%d) {kIsPrime = false; break;}}
-                if (!kIsPrime) {k++; continue;}
-                int xk(x%k), yk(y%k);
-                if (!xk || !yk)
-                {
-                    if (result > (1<<31)/k) { /*overflow*/ return result; }
-                    result*=k;
-                    if (!xk) x/=k;
-                    if (!yk) y/=k;
-                    k = 2; continue;
-                }
-                k++;
+                uint64_t rest = x % y;
+                x = y;
+                y = rest;
             }
-            return result;
+            return x;
+        }
+
+        static uint64_t lcm(uint32_t x, uint32_t y)
+        {
+            return x/gcd(x, y)*y;
         }
 };
-- 
2.43.0


From 4f6bce39c94abb85644acedb540b0f647f61d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 67/74] fix: refuse to simulate with a time step that does not
 advance

simulate() with a zero or negative dt never ended.
---
 utils/vvflow/vvflow.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index ebaebff..cfcd43c 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -203,6 +203,8 @@ int simulate (lua_State *L) {
 static void simulate (Space &S) {
     // error checking
     if (S.re <= 0) throw std::invalid_argument("invalid value re<=0");
+    // the time would never reach the finish
+    if (S.dt.value <= 0) throw std::invalid_argument("invalid value dt<=0");
     for (auto& lbody: S.BodyList)
     {
         std::set<TBody*> chain;
-- 
2.43.0


From 7591bbdae33ad778d34a034bf157fd716b0e79b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 68/74] fix: body load: long lines, the slip of another line

---
 libvvhd/src/TBody.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 8fa6e7f..554adc2 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -1,7 +1,9 @@
 #include "TBody.hpp"
 
 #include <cstdio>
+#include <fstream>
 #include <limits>
+#include <string>
 
 using std::numeric_limits;
 static const double inf = numeric_limits<double>::infinity();
@@ -357,24 +359,21 @@ int TBody::load_txt(const char* filename)
 {
     alist.clear();
 
-    FILE *fin = fopen(filename, "r");
+    std::ifstream fin(filename);
     if (!fin) { return errno; }
 
-    TVec corner;
-    uint32_t slip = false;
-    int  err = 0;
-    char line[128];
-    while ( !err && !feof(fin) && !ferror(fin) && fgets(line, sizeof(line), fin) )
+    std::string line;
+    while ( std::getline(fin, line) )
     {
-        err |= sscanf(line, "%lf %lf %u", &corner.x, &corner.y, &slip) < 2;
+        TVec corner;
+        uint32_t slip = false;
+        if (sscanf(line.c_str(), "%lf %lf %u", &corner.x, &corner.y, &slip) < 2)
+            return EINVAL;
         alist.emplace_back(corner, slip);
     }
 
-    err |= ferror(fin);
-    fclose(fin);
-
-    if (err) {
-        return errno?:EINVAL;
+    if (fin.bad()) {
+        return errno?:EIO;
     }
 
     doUpdateSegments();
-- 
2.43.0


From 7055b597a69c0df472042bc58e8bd6258a652ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 69/74] fix: legacy files: refuse damaged ones with an error,
 load what they hold

---
 libvvhd/src/TSpace_load_v13.cpp | 139 ++++++++++++++++++++------------
 1 file changed, 88 insertions(+), 51 deletions(-)

diff --git a/libvvhd/src/TSpace_load_v13.cpp b/libvvhd/src/TSpace_load_v13.cpp
index b6f1897..becdc2b 100644
--- a/libvvhd/src/TSpace_load_v13.cpp
+++ b/libvvhd/src/TSpace_load_v13.cpp
@@ -1,5 +1,10 @@
 #include "TSpace.hpp"
 
+#include <cerrno>
+#include <cstring>
+#include <memory>
+#include <stdexcept>
+
 static int eq(const char *str1, const char *str2)
 {
     for (int i=0; i<8; i++)
@@ -9,14 +14,29 @@ static int eq(const char *str1, const char *str2)
     return 9;
 }
 
-static void LoadList(std::vector<TObj> &list, FILE* fin)
+// what the file does not hold is not made up
+static void read(FILE* fin, void* ptr, size_t size)
+{
+    if (fread(ptr, 1, size, fin) != size)
+        throw std::runtime_error("the file is damaged, or is not a vvd file");
+}
+
+static int64_t read_size(FILE* fin)
 {
     int64_t size;
-    (void)fread(&size, 8, 1, fin);
+    read(fin, &size, 8);
+    if (size < 0)
+        throw std::runtime_error("the file is damaged: negative size");
+    return size;
+}
+
+static void LoadList(std::vector<TObj> &list, FILE* fin)
+{
+    int64_t size = read_size(fin);
     TObj obj;
     for (int64_t i=0; i<size; i++)
     {
-        fread(&obj, 24, 1, fin);
+        read(fin, &obj, 24);
         list.push_back(obj);
     }
 }
@@ -24,56 +44,66 @@ static void LoadList(std::vector<TObj> &list, FILE* fin)
 static void read_shell_script(FILE* file, TEval &script)
 {
     int32_t len;
-    fread(&len, 4, 1, file);
-    char str[len+1];
-    fread(&str, 1, len, file);
-    str[len] = 0;
-    script = str;
+    read(file, &len, 4);
+    if (len < 0)
+        throw std::runtime_error("the file is damaged: negative size");
+    std::string str;
+    for (char buf[256]; len > 0; len -= sizeof(buf))
+    {
+        size_t part = std::min(size_t(len), sizeof(buf));
+        read(file, buf, part);
+        str.append(buf, part);
+    }
+    script = str.c_str();
 }
 
 void Space::load_v13(const char* fname)
 {
-    FILE *fin = fopen(fname, "rb");
-    if (!fin) { perror("Error loading the space"); return; }
+    std::unique_ptr<FILE, int(*)(FILE*)> file(fopen(fname, "rb"), fclose);
+    FILE *fin = file.get();
+    if (!fin)
+        throw std::runtime_error(std::string("can not load '") + fname + "' (" + strerror(errno) + ")");
 
     //loading different lists
     int64_t tmp = 0;
     char comment[9] = {};
+    bool has_header = false;
     for (int i=0; i<64; i++)
     {
         fseek(fin, i*16, SEEK_SET);
-        fread(&tmp, 8, 1, fin);
-        fread(comment, 8, 1, fin);
+        read(fin, &tmp, 8);
+        read(fin, comment, 8);
         if (!tmp) continue;
-        fseek(fin, tmp, SEEK_SET);
+        if (fseek(fin, tmp, SEEK_SET))
+            throw std::runtime_error("the file is damaged: bad offset");
 
         if (eq(comment, "Header  ")>8)
         {
-            char version[8]; fread(&version, 8, 1, fin);
+            char version[8]; read(fin, &version, 8);
             if (eq(version, "v: 1.3  ") <= 8)
             {
-                fprintf(stderr, "Cant read binary file version \"%s\".\n", version);
-                exit(1);
+                throw std::runtime_error("can not read binary file version '" + std::string(version, 8) + "'");
             }
 
+            has_header = true;
             char name[64];
-            fread(name, 1, 64, fin);
-            caption = name;
-            fread(&time, 8, 1, fin);
-            fread(&dt, 8, 1, fin);
-            fread(&dt_save, 8, 1, fin);
-            fread(&dt_streak, 8, 1, fin);
-            fread(&dt_profile, 8, 1, fin);
-            fread(&re, 8, 1, fin);
-            fread(&pr, 8, 1, fin);
-            fread(&inf_marker, 16, 1, fin);
+            read(fin, name, 64);
+            caption = std::string(name, strnlen(name, 64));
+            read(fin, &time, 8);
+            read(fin, &dt, 8);
+            read(fin, &dt_save, 8);
+            read(fin, &dt_streak, 8);
+            read(fin, &dt_profile, 8);
+            read(fin, &re, 8);
+            read(fin, &pr, 8);
+            read(fin, &inf_marker, 16);
             read_shell_script(fin, inf_vx);
             read_shell_script(fin, inf_vy);
-            fread(&inf_g, 8, 1, fin);
-            fread(&gravity, 16, 1, fin);
-            fread(&finish, 8, 1, fin);
+            read(fin, &inf_g, 8);
+            read(fin, &gravity, 16);
+            read(fin, &finish, 8);
 
-            int64_t rawtime; fread(&rawtime, 8, 1, fin);
+            int64_t rawtime; read(fin, &rawtime, 8);
         }
         else if (eq(comment, "Vortexes")>8) LoadList(VortexList, fin);
         else if (eq(comment, "Heat    ")>8) LoadList(HeatList, fin);
@@ -83,55 +113,62 @@ void Space::load_v13(const char* fname)
         {
             std::shared_ptr<TBody> body(new TBody());
 
-            fread(&body->holder, 24, 1, fin);
-            fread(&body->dpos, 24, 1, fin);
+            read(fin, &body->holder, 24);
+            read(fin, &body->dpos, 24);
             read_shell_script(fin, body->speed_x);
             read_shell_script(fin, body->speed_y);
             read_shell_script(fin, body->speed_o);
-            fread(&body->speed_slae, 24, 1, fin);
-            fread(&body->speed_slae_prev, 24, 1, fin);
+            read(fin, &body->speed_slae, 24);
+            read(fin, &body->speed_slae_prev, 24);
 
-            fread(&body->kspring, 24, 1, fin);
-            fread(&body->density, 8, 1, fin);
+            read(fin, &body->kspring, 24);
+            read(fin, &body->density, 8);
 
-            fread(&body->force_hydro, 24, 1, fin);
-            fread(&body->fdt_dead, 24, 1, fin);
-            fread(&body->friction_prev, 24, 1, fin);
+            read(fin, &body->force_hydro, 24);
+            read(fin, &body->fdt_dead, 24);
+            read(fin, &body->friction_prev, 24);
 
             BodyList.push_back(body);
         }
         else if (eq(comment, "Body    ")>8)
         {
+            if (BodyList.empty())
+                throw std::runtime_error("the file is damaged: no data of a body");
             auto body = BodyList.back();
 
             TAtt att(0.0, 0.0);
-            int64_t size; fread(&size, 8, 1, fin);
+            int64_t size = read_size(fin);
             for (int64_t i=0; i<size; i++)
             {
                 int64_t bc, hc;
                 double heat_const;
-                fread(&att.corner, 16, 1, fin);
-                fread(&att.g, 8, 1, fin);
-                fread(&bc, 8, 1, fin);
-                fread(&hc, 8, 1, fin);
-                fread(&heat_const, 8, 1, fin);
-                fread(&att.gsum, 8, 1, fin);
+                read(fin, &att.corner, 16);
+                read(fin, &att.g, 8);
+                read(fin, &bc, 8);
+                read(fin, &hc, 8);
+                read(fin, &heat_const, 8);
+                read(fin, &att.gsum, 8);
                 att.heat_const = heat_const;
                 if (bc == 'l' || bc == 'n')
                     att.slip = bc == 'l';
                 else
+                {
+                    body->special_segment_no = i;
                     switch (bc)
                     {
-                        case 's': 
+                        case 's':
                         case 'i': body->boundary_condition = bc_t::steady; break;
                         case 'z': body->boundary_condition = bc_t::kutta; break;
+                        default: throw std::runtime_error("the file is damaged: unknown boundary condition");
                     }
+                }
                 switch (hc)
                 {
                     case 'n': body->heat_condition = hc_t::neglect; break;
                     case 'i': body->heat_condition = hc_t::isolate; break;
                     case 't': body->heat_condition = hc_t::const_t; break;
                     case 'w': body->heat_condition = hc_t::const_w; break;
+                    default: throw std::runtime_error("the file is damaged: unknown heat condition");
                 }
 
                 body->alist.push_back(att);
@@ -140,12 +177,12 @@ void Space::load_v13(const char* fname)
             body->doFillProperties();
         }
         else {
-            fprintf(stderr, "S->Load(): ignoring field \"%s\"\n", comment);
-            exit(-1);
+            throw std::runtime_error("unknown field '" + std::string(comment) + "', the file is damaged, or is not a vvd file");
         }
     }
 
-    EnumerateBodies();
+    if (!has_header)
+        throw std::runtime_error("the file is damaged, or is not a vvd file");
 
-    return;
+    EnumerateBodies();
 }
-- 
2.43.0


From 3bfe25b97f3dcb5299b4027bccfd40b200f8d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 70/74] fix: refuse HDF5 files that do not hold a problem,
 close the file after a refusal

---
 libvvhd/src/TSpace.cpp          | 13 ++++++++++--
 libvvhd/src/TSpace_load_hdf.cpp | 36 +++++++++++++++++++++++++--------
 libvvhd/src/vvhdf.cpp           |  7 +++++++
 3 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index bb901e8..2015aad 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -51,11 +51,20 @@ void Space::load(const char* fname, metainfo_t *info)
         return;
     }
 
-    hid_t fid = H5Fopen(fname, H5F_ACC_RDONLY, H5P_DEFAULT);
+    hid_t fapl = H5Pcreate(H5P_FILE_ACCESS);
+    H5Pset_fclose_degree(fapl, H5F_CLOSE_STRONG);
+    hid_t fid = H5Fopen(fname, H5F_ACC_RDONLY, fapl);
+    H5Pclose(fapl);
     if (fid < 0)
         h5_throw("H5Fopen", fname);
 
-    load_hdf(fid, info);
+    try {
+        load_hdf(fid, info);
+    } catch (...) {
+        h5t_forget_all();
+        H5Fclose(fid);
+        throw;
+    }
 
     herr_t err = H5Fclose(fid);
     if (err < 0)
diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index 8c95aee..c8c94c2 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -6,7 +6,9 @@
 #include "vvhdf.h"
 
 #include <array>
+#include <cstring>
 #include <map>
+#include <stdexcept>
 
 // "body99" goes before "body100"
 struct body_name_less {
@@ -16,6 +18,19 @@ struct body_name_less {
 };
 typedef std::map<std::string, std::shared_ptr<TBody>, body_name_less> body_map_t;
 
+// number of rows in a dataset with the given number of columns
+static hsize_t dataset_rows(hid_t h5s, std::string name, hsize_t columns)
+{
+    hsize_t dims[2];
+    if (H5Sget_simple_extent_ndims(h5s) != 2)
+        throw std::runtime_error("bad dataset (" + name + ")");
+    if (H5Sget_simple_extent_dims(h5s, dims, NULL) < 0)
+        h5_throw("H5Sget_simple_extent_dims", name);
+    if (dims[1] != columns)
+        throw std::runtime_error("bad dataset (" + name + ")");
+    return dims[0];
+}
+
 static void dataset_read_list(hid_t fid, std::string name, std::vector<TObj>& list)
 {
     if (!H5Lexists(fid, name.c_str(), H5P_DEFAULT))
@@ -29,9 +44,7 @@ static void dataset_read_list(hid_t fid, std::string name, std::vector<TObj>& li
     if (h5s_file < 0)
         h5_throw("H5Dget_space", name);
 
-    hsize_t dims1[2];
-    H5Sget_simple_extent_dims(h5s_file, dims1, dims1);
-
+    hsize_t dims1[2] = {dataset_rows(h5s_file, name, 3), 3};
     hsize_t dims2[2] = {dims1[0]*2, dims1[1]};
     hid_t h5s_mem = H5Screate_simple(2, dims2, dims2);
     if (h5s_mem < 0)
@@ -88,9 +101,7 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
     hid_t h5s_file = H5Dget_space(h5d);
     if (h5s_file < 0)
         h5_throw("H5Dget_space", name);
-    hsize_t dims[2];
-    H5Sget_simple_extent_dims(h5s_file, dims, dims);
-    hsize_t N = dims[0];
+    hsize_t N = dataset_rows(h5s_file, name, 4);
 
     body. label = h5a_read<std::string> (h5d, "label");
     body.holder = h5a_read<TVec3D> (h5d, "holder_position");
@@ -170,7 +181,12 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
         {
             // slip_array = (uint32_t*)malloc(dims[0] * sizeof(uint32_t));
             hid_t aid = H5Aopen(h5d, "slip", H5P_DEFAULT);
-            H5Aread(aid, H5T_NATIVE_UINT32, slip_array.data());
+            hid_t h5s_slip = H5Aget_space(aid);
+            if (hsize_t(H5Sget_simple_extent_npoints(h5s_slip)) != N)
+                throw std::runtime_error("bad attribute (slip)");
+            if (H5Aread(aid, H5T_NATIVE_UINT32, slip_array.data()) < 0)
+                h5_throw("H5Aread", "slip");
+            H5Sclose(h5s_slip);
             H5Aclose(aid);
         }
         else
@@ -206,7 +222,7 @@ static void dataset_read_body(hid_t hid, std::string name, body_map_t& body_map)
 static herr_t list_bodies(hid_t g_id, const char* name, const H5L_info_t*, void *op_data)
 {
     body_map_t& body_map = *(body_map_t*)op_data;
-    if (std::string(name, 4) == "body") {
+    if (!strncmp(name, "body", 4)) {
         body_map[name] = std::make_shared<TBody>();
     }
     return 0;
@@ -214,6 +230,10 @@ static herr_t list_bodies(hid_t g_id, const char* name, const H5L_info_t*, void
 
 void Space::load_hdf(int64_t fid, metainfo_t *info)
 {
+    // other attributes may be absent
+    if (H5Aexists(fid, "dt") <= 0)
+        throw std::runtime_error("the file does not hold a problem");
+
     caption = h5a_read<std::string> (fid, "caption");
     time = h5a_read<TTime> (fid, "time");
     dt = h5a_read<TTime> (fid, "dt");
diff --git a/libvvhd/src/vvhdf.cpp b/libvvhd/src/vvhdf.cpp
index 8796dc8..915bb34 100644
--- a/libvvhd/src/vvhdf.cpp
+++ b/libvvhd/src/vvhdf.cpp
@@ -32,6 +32,13 @@ T h5a_read(hid_t hid, const char* name) {
     if (aid < 0)
         h5_throw("H5Aopen", name);
 
+    hid_t h5s = H5Aget_space(aid);
+    if (h5s < 0)
+        h5_throw("H5Aget_space", name);
+    if (H5Sget_simple_extent_npoints(h5s) != 1)
+        throw std::runtime_error(std::string("bad attribute (") + name + ")");
+    H5Sclose(h5s);
+
     T ret = T();
     herr_t err = H5Aread(aid, h5t<T>::id, &ret);
     if (err < 0)
-- 
2.43.0


From 3fd1db354fa51f89cc23c3e719dc3645484d6de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:50 +0000
Subject: [PATCH 71/74] fix: an empty legacy file is still loaded as an empty
 problem

---
 libvvhd/src/TSpace_load_v13.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libvvhd/src/TSpace_load_v13.cpp b/libvvhd/src/TSpace_load_v13.cpp
index becdc2b..4e192f2 100644
--- a/libvvhd/src/TSpace_load_v13.cpp
+++ b/libvvhd/src/TSpace_load_v13.cpp
@@ -64,6 +64,10 @@ void Space::load_v13(const char* fname)
     if (!fin)
         throw std::runtime_error(std::string("can not load '") + fname + "' (" + strerror(errno) + ")");
 
+    // an empty file holds nothing
+    if (fgetc(fin) == EOF && !ferror(fin))
+        return;
+
     //loading different lists
     int64_t tmp = 0;
     char comment[9] = {};
-- 
2.43.0


From 719ecc6f8141a6e9169d12a0ffc9c8a0e1704b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:10 +0000
Subject: [PATCH 72/74] fix: a corner moved by a script updates the segments
 and properties of its body

---
 utils/vvflow/lua_tvec.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/utils/vvflow/lua_tvec.cpp b/utils/vvflow/lua_tvec.cpp
index 8e89dcd..d8fb330 100644
--- a/utils/vvflow/lua_tvec.cpp
+++ b/utils/vvflow/lua_tvec.cpp
@@ -1,5 +1,6 @@
 #include "lua_tvec.h"
 #include "lua_tobj.h"
+#include "lua_tbody.h"
 #include "getset.h"
 
 // #include <stdio.h>
@@ -48,6 +49,22 @@ static const struct luavvd_method tvec_methods[] = {
     {NULL, NULL}
 };
 
+/* a vector which belongs to a body is its corner, and the segments and
+   properties of the body depend on it */
+static void tvec_updatebody(lua_State *L, int idx) {
+    lua_getuservalue(L, idx);
+    if (lua_istable(L, -1)) {
+        lua_rawgeti(L, -1, 1);
+        if (luaL_testudata(L, -1, "TBody")) {
+            std::shared_ptr<TBody> body = checkTBody(L, -1);
+            body->doUpdateSegments();
+            body->doFillProperties();
+        }
+        lua_pop(L, 1);
+    }
+    lua_pop(L, 1);
+}
+
 static int tvec_newindex(lua_State *L) {
     TVec* vec = lua_checkTVec(L, 1);
     const char *name = luaL_checkstring(L, 2);
@@ -61,6 +78,7 @@ static int tvec_newindex(lua_State *L) {
         if (!lua_isnil(L, -1)) {
             luaL_error(L, "bad value for TVec.%s (%s)", name, lua_tostring(L, -1));
         }
+        tvec_updatebody(L, 1);
         return 0;
     }
 
-- 
2.43.0


From 0e5ca8c0cba9437986a4e719aa664c5a78a259c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:26 +0000
Subject: [PATCH 73/74] fix: vvflow --version names vvflow

---
 utils/vvflow/optparse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/vvflow/optparse.cpp b/utils/vvflow/optparse.cpp
index 32cdcb4..5391b61 100644
--- a/utils/vvflow/optparse.cpp
+++ b/utils/vvflow/optparse.cpp
@@ -58,7 +58,7 @@ void opt::parse(int argc, char* const* argv) {
 
         switch (c) {
         case 'v': // -v, --version
-            printf("vvplot %s\n", libvvhd_gitinfo);
+            printf("vvflow %s\n", libvvhd_gitinfo);
             printf("revision: %s\n", libvvhd_gitrev);
             if (libvvhd_gitdiff[0] == '\0') exit(0);
             printf("git_diff: %s\n", libvvhd_gitdiff);
-- 
2.43.0


From ae8bbfb1932b60201ec8f558ced492412d9e09b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:26 +0000
Subject: [PATCH 74/74] fix: vvplot refuses the option -n with a message

---
 utils/vvplot/optparse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/vvplot/optparse.cpp b/utils/vvplot/optparse.cpp
index b5ac195..bb5bd73 100644
--- a/utils/vvplot/optparse.cpp
+++ b/utils/vvplot/optparse.cpp
@@ -167,7 +167,7 @@ void opt::parse(int argc, char **argv) {
         /* getopt_long stores the option index here. */
         int option_index = 0;
 
-        int c = getopt_long(argc, argv, "nvhBVSGPU:x:y:s:", long_options, &option_index);
+        int c = getopt_long(argc, argv, "vhBVSGPU:x:y:s:", long_options, &option_index);
 
         if (c == -1) {
             break;
-- 
2.43.0

