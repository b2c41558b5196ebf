From a8a4a785aca7c0a9eed49efd1c515744979a2a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:21 +0000
Subject: [PATCH 1/3] fix: construct both operand states in binary operation
 roots

getRoot of BddAnd, BddOr and ZddIntersection returned as soon as the first
operand decided the result, leaving the second operand's state raw although
destruct() always destroys both.
---
 include/tdzdd/op/BinaryOperation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/op/BinaryOperation.hpp b/include/tdzdd/op/BinaryOperation.hpp
index 9650a41..80bb841 100644
--- a/include/tdzdd/op/BinaryOperation.hpp
+++ b/include/tdzdd/op/BinaryOperation.hpp
@@ -171,8 +171,8 @@ struct BddAnd_
 
     int getRoot(Word* p) {
         int i1 = base::spec1.get_root(base::state1(p));
-        if (i1 == 0) return 0;
         int i2 = base::spec2.get_root(base::state2(p));
+        if (i1 == 0) return 0;
         if (i2 == 0) return 0;
         base::setLevel1(p, i1);
         base::setLevel2(p, i2);
@@ -241,8 +241,8 @@ struct BddOr_
 
     int getRoot(Word* p) {
         int i1 = base::spec1.get_root(base::state1(p));
-        if (i1 < 0) return -1;
         int i2 = base::spec2.get_root(base::state2(p));
+        if (i1 < 0) return -1;
         if (i2 < 0) return -1;
         base::setLevel1(p, i1);
         base::setLevel2(p, i2);
@@ -345,8 +345,8 @@ public:
 
     int getRoot(Word* p) {
         int i1 = spec1.get_root(state1(p));
-        if (i1 == 0) return 0;
         int i2 = spec2.get_root(state2(p));
+        if (i1 == 0) return 0;
         if (i2 == 0) return 0;
 
         while (i1 != i2) {
-- 
2.43.0


From df6605547813813af9b4f56b0e7bf5a063ca2a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:04 +0000
Subject: [PATCH 2/3] fix: HybridDdSpec::destruct destroys the scalar state it
 constructed

---
 include/tdzdd/DdSpec.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/DdSpec.hpp b/include/tdzdd/DdSpec.hpp
index bd21a21..216df11 100644
--- a/include/tdzdd/DdSpec.hpp
+++ b/include/tdzdd/DdSpec.hpp
@@ -614,6 +614,7 @@ public:
     }
 
     void destruct(void* p) {
+        s_state(p).~S_State();
     }
 
     void destructLevel(int level) {
-- 
2.43.0


From 490e11f9b12cb2685b76d4c505eacbb6fb6416d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:47 +0000
Subject: [PATCH 3/3] fix: keep the node table alive on self-assignment of
 NodeTableHandler

---
 include/tdzdd/dd/NodeTable.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/dd/NodeTable.hpp b/include/tdzdd/dd/NodeTable.hpp
index 0cf4536..6b19765 100644
--- a/include/tdzdd/dd/NodeTable.hpp
+++ b/include/tdzdd/dd/NodeTable.hpp
@@ -436,9 +436,10 @@ public:
     }
 
     NodeTableHandler& operator=(NodeTableHandler const& o) {
+        Object* const p = o.pointer;
+        p->ref(); // before deref() in case of self-assignment
         pointer->deref();
-        pointer = o.pointer;
-        pointer->ref();
+        pointer = p;
         return *this;
     }
 
-- 
2.43.0

