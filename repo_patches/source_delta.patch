From 96517bbf10f4151fc6865807fa41a24d1a02cfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 01/25] fix: single-path adders drop the small operand when
 exponents differ by wF+2

At that distance the hidden bit is still below the guard bit and decides
rounding at a power of two; the sum was off by one unit in the last place.
---
 include/thls/tops/fp_flopoco_add_single_v1.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v2.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v3.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v4.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v5.hpp | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v1.hpp b/include/thls/tops/fp_flopoco_add_single_v1.hpp
index f0ddef3..d17a09c 100644
--- a/include/thls/tops/fp_flopoco_add_single_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v1.hpp
@@ -310,7 +310,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     }
 
     //vhdl<<tab<<declare("shiftedOut") << " <= '1' when (expDiff >= "<<wF+2<<") else '0';"<<endl;
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff > (wF+2);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v2.hpp b/include/thls/tops/fp_flopoco_add_single_v2.hpp
index a7722f7..6c040fe 100644
--- a/include/thls/tops/fp_flopoco_add_single_v2.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v2.hpp
@@ -244,7 +244,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
         std::cerr<<"  expDiff = "<<expDiff<<"\n";
     }
 
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff > (wF+2);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v3.hpp b/include/thls/tops/fp_flopoco_add_single_v3.hpp
index a85454c..a8007b2 100644
--- a/include/thls/tops/fp_flopoco_add_single_v3.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v3.hpp
@@ -279,7 +279,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
         std::cerr<<"  expDiff = "<<expDiff<<"\n";
     }
 
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff > (wF+2);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index 64c1eb1..cb66d0f 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -300,7 +300,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     }
 
     //vhdl<<tab<<declare("shiftedOut") << " <= '1' when (expDiff >= "<<wF+2<<") else '0';"<<endl;
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff > (wF+2);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v5.hpp b/include/thls/tops/fp_flopoco_add_single_v5.hpp
index b8e6c84..9cf2154 100644
--- a/include/thls/tops/fp_flopoco_add_single_v5.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v5.hpp
@@ -140,7 +140,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
         std::cerr<<"  expDiff = "<<expDiff<<"\n";
     }
 
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff > (wF+2);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
     fw_uint<sizeRightShift> shiftVal;
-- 
2.43.0


From ee6e17b8be8a947250fbe17b8155d8846f2091b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 02/25] fix: single-path adders abort when exponent field is
 not wider than the shift amount

With wE equal to the shift width the clamp was skipped and a shift out of
range followed; with wE smaller the width of the shift amount did not match.
---
 include/thls/tops/fp_flopoco_add_single_v1.hpp | 8 ++------
 include/thls/tops/fp_flopoco_add_single_v2.hpp | 7 ++-----
 include/thls/tops/fp_flopoco_add_single_v3.hpp | 7 ++-----
 include/thls/tops/fp_flopoco_add_single_v4.hpp | 8 ++------
 include/thls/tops/fp_flopoco_add_single_v5.hpp | 7 ++-----
 5 files changed, 10 insertions(+), 27 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v1.hpp b/include/thls/tops/fp_flopoco_add_single_v1.hpp
index d17a09c..6e5cc3f 100644
--- a/include/thls/tops/fp_flopoco_add_single_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v1.hpp
@@ -320,18 +320,14 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     fw_uint<sizeRightShift> shiftVal;
 
-    if (wE>sizeRightShift) {
+    if (wE>=sizeRightShift) {
         //vhdl<<tab<<declare("shiftVal",sizeRightShift) << " <= expDiff("<< sizeRightShift-1<<" downto 0)"
         //<< " when shiftedOut='0' else CONV_STD_LOGIC_VECTOR("<<wFX+3<<","<<sizeRightShift<<") ;" << endl;
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
-    else if (wE==sizeRightShift) {
-        //vhdl<<tab<<declare("shiftVal", sizeRightShift) << " <= expDiff" << range(sizeRightShift-1,0) << ";" << endl ;
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
-    }
     else 	{ //  wE< sizeRightShift
         //vhdl<<tab<<declare("shiftVal",sizeRightShift) << " <= CONV_STD_LOGIC_VECTOR(0,"<<sizeRightShift-wE <<") & expDiff;" <<	endl;
-        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
+        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), get_bits<wE-1,0>(expDiff)) );
 
     }
     if(DEBUG){
diff --git a/include/thls/tops/fp_flopoco_add_single_v2.hpp b/include/thls/tops/fp_flopoco_add_single_v2.hpp
index 6c040fe..454915b 100644
--- a/include/thls/tops/fp_flopoco_add_single_v2.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v2.hpp
@@ -250,14 +250,11 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     fw_uint<sizeRightShift> shiftVal;
 
-    if (wE>sizeRightShift) {
+    if (wE>=sizeRightShift) {
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
-    else if (wE==sizeRightShift) {
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
-    }
     else 	{ //  wE< sizeRightShift
-        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
+        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), get_bits<wE-1,0>(expDiff)) );
 
     }
     if(DEBUG){
diff --git a/include/thls/tops/fp_flopoco_add_single_v3.hpp b/include/thls/tops/fp_flopoco_add_single_v3.hpp
index a8007b2..822316a 100644
--- a/include/thls/tops/fp_flopoco_add_single_v3.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v3.hpp
@@ -285,14 +285,11 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     fw_uint<sizeRightShift> shiftVal;
 
-    if (wE>sizeRightShift) {
+    if (wE>=sizeRightShift) {
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
-    else if (wE==sizeRightShift) {
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
-    }
     else 	{ //  wE< sizeRightShift
-        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
+        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), get_bits<wE-1,0>(expDiff)) );
 
     }
     if(DEBUG){
diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index cb66d0f..de87fff 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -310,18 +310,14 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
 
     fw_uint<sizeRightShift> shiftVal;
 
-    if (wE>sizeRightShift) {
+    if (wE>=sizeRightShift) {
         //vhdl<<tab<<declare("shiftVal",sizeRightShift) << " <= expDiff("<< sizeRightShift-1<<" downto 0)"
         //<< " when shiftedOut='0' else CONV_STD_LOGIC_VECTOR("<<wFX+3<<","<<sizeRightShift<<") ;" << endl;
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
-    else if (wE==sizeRightShift) {
-        //vhdl<<tab<<declare("shiftVal", sizeRightShift) << " <= expDiff" << range(sizeRightShift-1,0) << ";" << endl ;
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
-    }
     else 	{ //  wE< sizeRightShift
         //vhdl<<tab<<declare("shiftVal",sizeRightShift) << " <= CONV_STD_LOGIC_VECTOR(0,"<<sizeRightShift-wE <<") & expDiff;" <<	endl;
-        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
+        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), get_bits<wE-1,0>(expDiff)) );
 
     }
     if(DEBUG){
diff --git a/include/thls/tops/fp_flopoco_add_single_v5.hpp b/include/thls/tops/fp_flopoco_add_single_v5.hpp
index 9cf2154..b93824e 100644
--- a/include/thls/tops/fp_flopoco_add_single_v5.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v5.hpp
@@ -145,14 +145,11 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
     //shiftVal=the number of positions that fracY must be shifted to the right
     fw_uint<sizeRightShift> shiftVal;
 
-    if (wE>sizeRightShift) {
+    if (wE>=sizeRightShift) {
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
-    else if (wE==sizeRightShift) {
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
-    }
     else 	{ //  wE< sizeRightShift
-        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
+        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), get_bits<wE-1,0>(expDiff)) );
 
     }
     if(DEBUG){
-- 
2.43.0


From e43868f5cc89717b4779941930b6491c5f7c69d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 03/25] fix: add_single v4 adds the rounding bit in exactly the
 wrong case

The increment belongs in every case except a tie with an even last bit.
---
 include/thls/tops/fp_flopoco_add_single_v4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index de87fff..1aca1b8 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -481,7 +481,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     /*auto addToRoundBit = select(
         lsb==0 && grd==1 && rnd==0 && stk==0, zg<1>(),
         og<1>());*/
-    auto addToRoundBit = concat(lsb,grd,rnd,stk) ==cg<4>(0b0100);
+    auto addToRoundBit = concat(lsb,grd,rnd,stk) !=cg<4>(0b0100);
     //round
 
     //IntAdder *ra = new IntAdder(target, wE+2+wF+1, inDelayMap("X", getCriticalPath() ) );
-- 
2.43.0


From 6ec05cb3658cb30363e6ea19f599055e4d46babc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 04/25] fix: single-path adders return infinity for exact
 cancellation with small exponents

The exponent after renormalising a zero sum wraps, so the classification
has to use the operand flags rather than the ones derived from it.
---
 include/thls/tops/fp_flopoco_add_single_v1.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v2.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v3.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v4.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v5.hpp | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v1.hpp b/include/thls/tops/fp_flopoco_add_single_v1.hpp
index 6e5cc3f..7dd56b5 100644
--- a/include/thls/tops/fp_flopoco_add_single_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v1.hpp
@@ -576,7 +576,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     // TODO
     // TODO - I think it should be NaN
     // TODO
-    auto excR = select(eqdiffsign==1 && EffSub==1 && excRt2==0b01, zg<2>(), excRt2);
+    auto excR = select(eqdiffsign==1 && EffSub==1 && excRt==0b01, zg<2>(), excRt2);
 
     // IEEE standard says in 6.3: if exact sum is zero, it should be +zero in RN
     //vhdl<<tab<<declare("signR2") << " <= '0' when (eqdiffsign='1' and EffSub='1') else signR;"<<endl;
diff --git a/include/thls/tops/fp_flopoco_add_single_v2.hpp b/include/thls/tops/fp_flopoco_add_single_v2.hpp
index 454915b..f553448 100644
--- a/include/thls/tops/fp_flopoco_add_single_v2.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v2.hpp
@@ -396,7 +396,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     // TODO
     // TODO - I think it should be NaN
     // TODO
-    auto excR = select(eqdiffsign==1 && EffSub==1 && excRt2==0b01, zg<2>(), excRt2);
+    auto excR = select(eqdiffsign==1 && EffSub==1 && excRt==0b01, zg<2>(), excRt2);
 
     // IEEE standard says in 6.3: if exact sum is zero, it should be +zero in RN
     auto signR2 = select(eqdiffsign==1 && EffSub==1 && excR==0b00, zg<1>(), signR);
diff --git a/include/thls/tops/fp_flopoco_add_single_v3.hpp b/include/thls/tops/fp_flopoco_add_single_v3.hpp
index 822316a..dafc29e 100644
--- a/include/thls/tops/fp_flopoco_add_single_v3.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v3.hpp
@@ -442,7 +442,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     // TODO
     // TODO - I think it should be NaN
     // TODO
-    auto excR = select(eqdiffsign==1 && EffSub==1 && excRt2==0b01, zg<2>(), excRt2);
+    auto excR = select(eqdiffsign==1 && EffSub==1 && excRt==0b01, zg<2>(), excRt2);
 
     // IEEE standard says in 6.3: if exact sum is zero, it should be +zero in RN
     auto signR2 = select(eqdiffsign==1 && EffSub==1 && excR==0b00, zg<1>(), signR);
diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index 1aca1b8..e1cf150 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -549,7 +549,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     // TODO - I think it should be NaN
     // TODO
     //auto excR = select(eqdiffsign==1 && EffSub==1 && excRt2==0b01, zg<2>(), excRt2);
-    auto excR = select( concat(eqdiffsign,EffSub,excRt2)==cg<4>(0b1101), zg<2>(), excRt2);
+    auto excR = select( concat(eqdiffsign,EffSub,excRt)==cg<4>(0b1101), zg<2>(), excRt2);
 
     // IEEE standard says in 6.3: if exact sum is zero, it should be +zero in RN
     //vhdl<<tab<<declare("signR2") << " <= '0' when (eqdiffsign='1' and EffSub='1') else signR;"<<endl;
diff --git a/include/thls/tops/fp_flopoco_add_single_v5.hpp b/include/thls/tops/fp_flopoco_add_single_v5.hpp
index b93824e..df1f296 100644
--- a/include/thls/tops/fp_flopoco_add_single_v5.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v5.hpp
@@ -296,7 +296,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
     // TODO
     // TODO - I think it should be NaN
     // TODO
-    auto excR = select(eqdiffsign==1 && EffSub==1 && excRt2==0b01, zg<2>(), excRt2);
+    auto excR = select(eqdiffsign==1 && EffSub==1 && excRt==0b01, zg<2>(), excRt2);
 
     // IEEE standard says in 6.3: if exact sum is zero, it should be +zero in RN
     auto signR2 = select(eqdiffsign==1 && EffSub==1 && excR==0b00, zg<1>(), signR);
-- 
2.43.0


From 8263b88b8572a8741ee9ad872353c4a1c406ad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 05/25] fix: exact-width multiplication returns NaN on
 underflow

The rounded path flushes to zero; the path used when no rounding is needed
has to do the same.
---
 include/thls/tops/fp_flopoco_mul_v1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_mul_v1.hpp b/include/thls/tops/fp_flopoco_mul_v1.hpp
index fbb3c99..90c5282 100644
--- a/include/thls/tops/fp_flopoco_mul_v1.hpp
+++ b/include/thls/tops/fp_flopoco_mul_v1.hpp
@@ -107,7 +107,7 @@ THLS_INLINE fp_flopoco<wER,wFR> mul_v1(const fp_flopoco<wEX,wFX> &x, const fp_fl
         fw_uint<2> excPostNorm = select(
             expPostNormB==0b00, fw_uint<2>(0b01),
             expPostNormB==0b01, fw_uint<2>(0b10),
-            (expPostNormB==0b11) || (expPostNormB==0b10) , fw_uint<2>(0b11),
+            (expPostNormB==0b11) || (expPostNormB==0b10) , fw_uint<2>(0b00),
             fw_uint<2>(0b11)// Impossible last case?
         ); 
 
-- 
2.43.0


From 0479b1f6abfb3bf4608ebebf3849433e67b40f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 06/25] fix: inv always aborts because its constant one is
 written in octal

0100 is 64 and does not fit four bits; the bit pattern 0b0100 was meant.
---
 include/thls/tops/fp_flopoco_inv_v1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_inv_v1.hpp b/include/thls/tops/fp_flopoco_inv_v1.hpp
index bf2285f..5e05e49 100644
--- a/include/thls/tops/fp_flopoco_inv_v1.hpp
+++ b/include/thls/tops/fp_flopoco_inv_v1.hpp
@@ -34,7 +34,7 @@ THLS_INLINE fp_flopoco<wER,wFR> inv_v1(const fp_flopoco<wEY,wFY> &y, int DEBUG)
     static const int wE=wEY;
     static const int wF=wFY;
 
-    auto X=concat(cg<4>(0100),og<wE-1>(),zg<wF>());
+    auto X=concat(cg<4>(0b0100),og<wE-1>(),zg<wF>());
     auto Y=y.bits;
 
 
-- 
2.43.0


From 2e38970a719fcabc7d7f0d0bd5221ce86150617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 07/25] fix: format conversion turns special values with
 saturated payload bits into infinity

convert() between formats with equal exponent width set the infinity flags
whenever the fraction rounding wrapped with an all-ones exponent field, also
for zeros and nans, whose exponent and fraction bits are don't cares.
---
 include/thls/tops/fp_convert.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_convert.hpp b/include/thls/tops/fp_convert.hpp
index 5c3da9a..9b81d67 100644
--- a/include/thls/tops/fp_convert.hpp
+++ b/include/thls/tops/fp_convert.hpp
@@ -153,7 +153,8 @@ void convert(fp_flopoco<ER,FR> &dst, const fp_flopoco<EX,FX> &src)
         const int ADJ = (1<<(ER-1)) - (1<<(EX-1));
         rExp = checked_cast<ER>(zpad_hi<ER-EX>(xExp)) + fw_uint<ER>(ADJ) + zpad_hi<ER-1>(fracWrappedUp);
     }else if(ER == EX){
-        if( (fracWrappedUp & (checked_cast<ER>(xExp)==og<ER>())).to_bool() ){
+        // Special values may carry any exponent and fraction, they must keep their class
+        if( (src.is_normal() & fracWrappedUp & (checked_cast<ER>(xExp)==og<ER>())).to_bool() ){
             rFlags=fw_uint<2>(0b10); // infinity
         }
         rExp = checked_cast<ER>( xExp ) + zpad_hi<ER-1>(fracWrappedUp);
-- 
2.43.0


From dd16fdc01c25f5dd27ee69ef64230360bcad8f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 08/25] fix: nextdown is off by almost a binade at exponent
 boundaries

Stepping down from a positive power of two must give an all-ones fraction in
the binade below, stepping down from the largest number of a negative binade
must give an all-zeros fraction in the binade above.
---
 include/thls/tops/fp_flopoco.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 8144f63..2ebeadc 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -451,7 +451,7 @@ THLS_INLINE fp_flopoco<ExpBits,FracBits> nextdown(const fp_flopoco<ExpBits,FracB
             select(x.get_frac_bits()==zg<FracBits>(),
                 select(x.get_exp_bits()==zg<ExpBits>(),
                     traits::pos_zero(),
-                    fp_t(concat(fw_uint<3>(0b010),x.get_exp_bits()-1,zg<FracBits>()))
+                    fp_t(concat(fw_uint<3>(0b010),x.get_exp_bits()-1,og<FracBits>()))
                 ),
                 fp_t(concat(fw_uint<3>(0b010),x.get_exp_bits(),x.get_frac_bits()-1))
             ),
@@ -463,7 +463,7 @@ THLS_INLINE fp_flopoco<ExpBits,FracBits> nextdown(const fp_flopoco<ExpBits,FracB
             select(x.get_frac_bits()==og<FracBits>(),
                 select(x.get_exp_bits()==og<ExpBits>(),
                     traits::neg_infinity(),
-                    fp_t(concat(fw_uint<3>(0b011),x.get_exp_bits()+1,og<FracBits>()))
+                    fp_t(concat(fw_uint<3>(0b011),x.get_exp_bits()+1,zg<FracBits>()))
                 ),
                 fp_t(concat(fw_uint<3>(0b011),x.get_exp_bits(),x.get_frac_bits()+1))
             ),
-- 
2.43.0


From d3759b5608e091ea053f7fcb99111a12ed028cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 09/25] fix: comparisons look at the don't care bits of
 infinities

Operators produce infinities with arbitrary exponent and fraction fields, two
infinities of the same sign must nevertheless compare equal.
---
 include/thls/tops/fp_flopoco_ordering.hpp | 29 +++++++++++++++--------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_ordering.hpp b/include/thls/tops/fp_flopoco_ordering.hpp
index a8cf000..fbe0248 100644
--- a/include/thls/tops/fp_flopoco_ordering.hpp
+++ b/include/thls/tops/fp_flopoco_ordering.hpp
@@ -7,6 +7,15 @@
 namespace thls
 {
 
+namespace detail
+{
+    //! Flags, exponent, and fraction, with the don't care bits of zeros and infinities cleared
+    template<int wE,int wF>
+    THLS_INLINE fw_uint<2+wE+wF> ordering_magnitude(const fp_flopoco<wE,wF> &x)
+    {
+        return concat(x.get_flags(), select(x.is_normal(), x.get_exp_frac_bits(), zg<wE+wF>()));
+    }
+};
 
 //! Does an IEEE style comparison
 /*! \note This considers nans to be uncomparable
@@ -29,7 +38,7 @@ THLS_INLINE fw_uint<1> equal(const fp_flopoco<wEA,wFA> &a, const fp_flopoco<wEB,
         na.is_zero(),
             og<1>(), // Any two zeros are the same
         // else
-            na.get_sign()==nb.get_sign() && na.get_exp_frac_bits()==nb.get_exp_frac_bits()
+            na.get_sign()==nb.get_sign() && detail::ordering_magnitude(na)==detail::ordering_magnitude(nb)
     );
 }
 
@@ -51,7 +60,7 @@ THLS_INLINE fw_uint<1> not_equal(const fp_flopoco<wEA,wFA> &a, const fp_flopoco<
         na.is_zero(),
             zg<1>(), // Any two zeros are the same
         // else
-            na.get_sign() != nb.get_sign() || na.get_exp_frac_bits()!=nb.get_exp_frac_bits()
+            na.get_sign() != nb.get_sign() || detail::ordering_magnitude(na)!=detail::ordering_magnitude(nb)
     );
 }
 
@@ -80,9 +89,9 @@ THLS_INLINE fw_uint<1> less_than(const fp_flopoco<wEA,wFA> &a, const fp_flopoco<
                 na.is_negative(), // If different signs, first must be negative for less than
             // Pre: not nan, not _both_ zero, same sign
             na.is_negative(),
-                na.get_flags_exp_frac_bits()>nb.get_flags_exp_frac_bits(),
+                detail::ordering_magnitude(na)>detail::ordering_magnitude(nb),
             // na.is_positive()
-                na.get_flags_exp_frac_bits()<nb.get_flags_exp_frac_bits()
+                detail::ordering_magnitude(na)<detail::ordering_magnitude(nb)
     );
 }
 
@@ -109,9 +118,9 @@ THLS_INLINE fw_uint<1> less_than_equal(const fp_flopoco<wEA,wFA> &a, const fp_fl
             na.is_negative(), // If different signs, first must be negative for less than equal
         // Pre: not nan, not _both_ zero, same sign
         na.is_negative(),
-            na.get_flags_exp_frac_bits()>=nb.get_flags_exp_frac_bits(),
+            detail::ordering_magnitude(na)>=detail::ordering_magnitude(nb),
         // na.is_positive()
-            na.get_flags_exp_frac_bits()<=nb.get_flags_exp_frac_bits()
+            detail::ordering_magnitude(na)<=detail::ordering_magnitude(nb)
     );
 }
 
@@ -135,9 +144,9 @@ THLS_INLINE fw_uint<1> greater_than(const fp_flopoco<wEA,wFA> &a, const fp_flopo
                 na.is_positive(), // If different signs, first must be negative for greater than
             // Pre: not nan, not _both_ zero, same sign
             na.is_negative(),
-                na.get_flags_exp_frac_bits()<nb.get_flags_exp_frac_bits(),
+                detail::ordering_magnitude(na)<detail::ordering_magnitude(nb),
             // na.is_positive()
-                na.get_flags_exp_frac_bits()>nb.get_flags_exp_frac_bits()
+                detail::ordering_magnitude(na)>detail::ordering_magnitude(nb)
     );
 }
 
@@ -161,9 +170,9 @@ THLS_INLINE fw_uint<1> greater_than_equal(const fp_flopoco<wEA,wFA> &a, const fp
                 na.is_positive(), // If different signs, first must be positive for greater than equal
             // Pre: not nan, not _both_ zero, same sign
             na.is_negative(),
-                na.get_flags_exp_frac_bits()<=nb.get_flags_exp_frac_bits(),
+                detail::ordering_magnitude(na)<=detail::ordering_magnitude(nb),
             // na.is_positive()
-              na.get_flags_exp_frac_bits()>=nb.get_flags_exp_frac_bits()
+              detail::ordering_magnitude(na)>=detail::ordering_magnitude(nb)
     );
 }
 
-- 
2.43.0


From f9507f570a73d8af5fbca9cb6c06b1b47274abd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 10/25] fix: promoting an IEEE number to a wider exponent loses
 zero, infinity and nan

The reserved exponent codes were re-biased like ordinary exponents, so zero
became a normal number and infinity and nan became finite.
---
 include/thls/tops/fp_promote.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_promote.hpp b/include/thls/tops/fp_promote.hpp
index 7cb7298..87f551a 100644
--- a/include/thls/tops/fp_promote.hpp
+++ b/include/thls/tops/fp_promote.hpp
@@ -66,10 +66,18 @@ namespace detail
         
         static fp_ieee<DstE,DstF> to_ieee(const fp_ieee<SrcE,SrcF> &src)
         {
+            // The exponent codes for zero, and for infinity and nan, depend on the width
             return fp_ieee<DstE,DstF>(
                 concat(
                     src.get_sign(),
-                    promote_exp_impl<DstE,SrcE>::go(src.get_exp_bits()),
+                    select(
+                        src.get_exp_bits()==zg<SrcE>(),
+                            zg<DstE>(),
+                        src.get_exp_bits()==og<SrcE>(),
+                            og<DstE>(),
+                        // default: normal
+                            promote_exp_impl<DstE,SrcE>::go(src.get_exp_bits())
+                    ),
                     promote_frac_impl<DstF,SrcF>::go(src.get_frac_bits())
                 )
             );
-- 
2.43.0


From 47fbfc80ae69324b35ba97653e428a50ace23f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 11/25] fix: promoting an IEEE number to the internal format
 returns the wrong type

The widening overload built an fp_ieee where an fp_flopoco is returned and did
not compile, the same-format one returned a reference to a temporary.
---
 include/thls/tops/fp_promote.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_promote.hpp b/include/thls/tops/fp_promote.hpp
index 87f551a..a8745f2 100644
--- a/include/thls/tops/fp_promote.hpp
+++ b/include/thls/tops/fp_promote.hpp
@@ -85,7 +85,7 @@ namespace detail
         
         static fp_flopoco<DstE,DstF> to_flopoco(const fp_ieee<SrcE,SrcF> &src)
         {
-            return fp_ieee<DstE,DstF>(
+            return fp_flopoco<DstE,DstF>(
                 concat(
                     src.get_flags(),
                     src.get_sign(),
@@ -134,7 +134,7 @@ namespace detail
         static const fp_ieee<E,F> &to_ieee(const fp_ieee<E,F> &src)
         { return src; }
         
-        static const fp_flopoco<E,F> &to_flopoco(const fp_ieee<E,F> &src)
+        static fp_flopoco<E,F> to_flopoco(const fp_ieee<E,F> &src)
         { 
             return fp_flopoco<E,F>(
                 concat(
-- 
2.43.0


From bd0a563f8ebd1cf62803788607a823a3b9b2c406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:38 +0000
Subject: [PATCH 12/25] fix: the signalling nan of fp_ieee is the bit pattern
 of infinity

The comment says it is a quiet nan with the top fraction bit set.
---
 include/thls/tops/fp_ieee.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_ieee.hpp b/include/thls/tops/fp_ieee.hpp
index 59d7879..286b217 100644
--- a/include/thls/tops/fp_ieee.hpp
+++ b/include/thls/tops/fp_ieee.hpp
@@ -245,7 +245,7 @@ namespace std
         static THLS_CONSTEXPR T signalling_NaN()
         {
             // This just returns a quiet nan (MSB of fraction is one)
-            return T(concat(thls::zg<1>(),thls::og<ExpBits>() ,thls::zg<FracBits>()));
+            return T(concat(thls::zg<1>(),thls::og<ExpBits>() ,thls::og<FracBits>()));
         }
 
         static THLS_CONSTEXPR T denorm_min()
-- 
2.43.0


From 7db90d45f332f17be067f0d41336e0932c9dec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 13/25] fix: or-ing a fixed-width integer with the all-ones int
 aborts

The range check excluded the largest value of the width, so x|1 on one bit or
x|0xff on eight bits failed the assertion.
---
 include/thls/tops/fw_uint_on_masked_uint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fw_uint_on_masked_uint.hpp b/include/thls/tops/fw_uint_on_masked_uint.hpp
index a7bad98..a53b098 100644
--- a/include/thls/tops/fw_uint_on_masked_uint.hpp
+++ b/include/thls/tops/fw_uint_on_masked_uint.hpp
@@ -595,7 +595,7 @@ struct fw_uint
 
     THLS_INLINE fw_uint operator|(int b) const
     {
-        assert(b>=0 && b< MASK());
+        assert(b>=0 && bits_t(b)<= MASK());
         return fw_uint( bits_t(bits|b) & MASK(), detail::init_from_bits());
     }
 
-- 
2.43.0


From 0a62cae0ca4b5f0cd456f9726ee149b3da046360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:02 +0000
Subject: [PATCH 14/25] fix: the direct-table reciprocal does not compile for
 narrow formats

---
 include/thls/tops/fp_flopoco_inv_nr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_inv_nr.hpp b/include/thls/tops/fp_flopoco_inv_nr.hpp
index 97b3b17..3a0f9e4 100644
--- a/include/thls/tops/fp_flopoco_inv_nr.hpp
+++ b/include/thls/tops/fp_flopoco_inv_nr.hpp
@@ -318,7 +318,7 @@ namespace thls
     {
         template<int LSBR,int LSBY>
         static fw_fix<0,LSBR> go(const fw_fix<0,LSBY> &x)
-        { return inv_frac_direct_table<LSBR>(x); }
+        { return inv_frac_direct_table<0,LSBR>(x); }
     };
 
     template<>
-- 
2.43.0


From d8d7bfe04ea64e96db07d0781de3c70003abdb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:02 +0000
Subject: [PATCH 15/25] fix: subtracting fixed-point values adds them

---
 include/thls/tops/fp_flopoco_inv_nr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_inv_nr.hpp b/include/thls/tops/fp_flopoco_inv_nr.hpp
index 3a0f9e4..6e1586d 100644
--- a/include/thls/tops/fp_flopoco_inv_nr.hpp
+++ b/include/thls/tops/fp_flopoco_inv_nr.hpp
@@ -100,7 +100,7 @@ namespace thls
 
     template<int MSB,int LSB>
     THLS_INLINE_STRONG fw_fix<MSB,LSB> operator-(const fw_fix<MSB,LSB> &x, const fw_fix<MSB,LSB> &y)
-    { return fw_fix<MSB,LSB>(x.bits+y.bits); }
+    { return fw_fix<MSB,LSB>(x.bits-y.bits); }
 
     template<int MSB0,int LSB0,int MSB1,int LSB1>
     THLS_INLINE_STRONG fw_fix<thls_ctMax(MSB0,MSB1),thls_ctMin(LSB0,LSB1)> sub_match(const fw_fix<MSB0,LSB0> &x, const fw_fix<MSB1,LSB1> &y) {
-- 
2.43.0


From a0dd514292cb1a23dbd8c3421b3afc7f5e18a39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:02 +0000
Subject: [PATCH 16/25] fix: rounding a fixed-point value leaves one bit out of
 the sticky bit

---
 include/thls/tops/fp_flopoco_inv_nr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_inv_nr.hpp b/include/thls/tops/fp_flopoco_inv_nr.hpp
index 6e1586d..d818261 100644
--- a/include/thls/tops/fp_flopoco_inv_nr.hpp
+++ b/include/thls/tops/fp_flopoco_inv_nr.hpp
@@ -51,7 +51,7 @@ namespace thls
             auto happy=take_msbs<wFR>(x);
             auto lsb=get_bit<D>(x);
             auto guard=get_bit<D-1>(x);
-            auto sticky=take_lsbs<D-2>(x)!=zg<D-2>();
+            auto sticky=take_lsbs<D-1>(x)!=zg<D-1>();
             auto extres=add_cin(zpad_hi<1>(happy), lsb.to_bool() ? guard : guard&sticky  );
             overflow=take_msb(extres);
             res=drop_msb(extres);
-- 
2.43.0


From dba9f18440c38dd4fa025d76ff535995cb01537d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:02 +0000
Subject: [PATCH 17/25] fix: reciprocal of numbers just below the largest
 exponent wraps to a huge value

---
 include/thls/tops/fp_flopoco_inv_nr.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_inv_nr.hpp b/include/thls/tops/fp_flopoco_inv_nr.hpp
index d818261..819ddda 100644
--- a/include/thls/tops/fp_flopoco_inv_nr.hpp
+++ b/include/thls/tops/fp_flopoco_inv_nr.hpp
@@ -369,18 +369,19 @@ THLS_INLINE fp_flopoco<wER,wFR> inv_table_newton(const fp_flopoco<wEY,wFY> &y, i
     fw_fix<0,-wFY> frac_in_fix(opad_hi<1>(y.get_frac_bits()));
     fw_fix<0,-wFR-1> frac_out_fix=inv_frac_table_newton<-wFR-1>(frac_in_fix);
     fw_uint<wFR> frac_out=drop_msbs<2>(frac_out_fix.bits);
-    fw_uint<wER> exp=(og<wEY>() - fw_uint<wEY>(2)) - y.get_exp_bits();
+    fw_uint<wER+1> exp_ext=zpad_hi<1>(og<wEY>() - fw_uint<wEY>(2)) - zpad_hi<1>(y.get_exp_bits());
     //if((y.get_frac_bits()==zg<wFY>()).to_bool()){
     if(take_msb(frac_out_fix.bits).to_bool()){
-        exp=exp+fw_uint<wER>(1);
+        exp_ext=exp_ext+fw_uint<wER+1>(1);
     }
+    fw_uint<wER> exp=drop_msb(exp_ext);
 
     switch(flags.to_int()){
     case 0:
         flags=fw_uint<2>(0b10);
         break;
     case 1:
-        if((y.get_exp_bits()==og<wEY>()).to_bool()){
+        if(take_msb(exp_ext).to_bool()){
             flags=fw_uint<2>(0b00);
         }else {
             flags = fw_uint<2>(0b01);
@@ -409,17 +410,18 @@ THLS_INLINE fp_flopoco<wER,wFR> inv_table_newton(const fp_flopoco<wEY,wFY> &y, i
         fw_fix<0,-wFY> frac_in_fix(opad_hi<1>(y.get_frac_bits()));
         auto frac_out_fix=inv_frac_direct_table<0,-wFR-1,0,-wFY>(frac_in_fix);
         fw_uint<wFR> frac=take_lsbs<wFR>(frac_out_fix.bits);
-        fw_uint<wER> exp=(og<wEY>() - fw_uint<wEY>(2)) - y.get_exp_bits();
-        if((y.get_frac_bits()==zg<wFY>()).to_bool()){
-            exp=exp+fw_uint<wER>(1);
+        fw_uint<wER+1> exp_ext=zpad_hi<1>(og<wEY>() - fw_uint<wEY>(2)) - zpad_hi<1>(y.get_exp_bits());
+        if(take_msb(frac_out_fix.bits).to_bool()){
+            exp_ext=exp_ext+fw_uint<wER+1>(1);
         }
+        fw_uint<wER> exp=drop_msb(exp_ext);
 
         switch(flags.to_int()){
             case 0:
                 flags=fw_uint<2>(0b10);
                 break;
             case 1:
-                if((y.get_exp_bits()==og<wEY>()).to_bool()){
+                if(take_msb(exp_ext).to_bool()){
                     flags=fw_uint<2>(0b00);
                 }else {
                     flags = fw_uint<2>(0b01);
-- 
2.43.0


From 0a77cb59216f085f540f3711c28f1a3259ef4dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 18/25] fix: four-term dot product loses a carry from the bits
 shifted out

---
 include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
index 082d7c3..1259c70 100644
--- a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
+++ b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
@@ -227,7 +227,10 @@ fp_flopoco<WE,WF> dot4_pos_rndd(
     auto shift3=x0_exp-x3_exp;
 
     const int WAB=2*WF;
-    const int PAD_LOW=2*WAB-1;
+    // Two shifted products can each lose bits off the bottom, and their
+    // truncated parts can add up to a carry. Below this width they can not
+    // reach up into bits already filled by the two bigger products.
+    const int PAD_LOW=2*WAB+3;
 
     auto x0_frac_full=concat(zg<2>(), x0_frac, zg<PAD_LOW>());
     auto x1_frac_full=concat(zg<2>(), x1_frac, zg<PAD_LOW>());
-- 
2.43.0


From 6f1429a98c42051c7bb20a4e682d27d3dcaab27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 19/25] fix: converting negative native floats to the internal
 format aborts

---
 include/thls/tops/policy_flopoco.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/thls/tops/policy_flopoco.hpp b/include/thls/tops/policy_flopoco.hpp
index 649f153..1c8fd1b 100644
--- a/include/thls/tops/policy_flopoco.hpp
+++ b/include/thls/tops/policy_flopoco.hpp
@@ -242,7 +242,8 @@ struct to_impl<fp_flopoco_wrapper <wE, wF>,TPolicy,float>
         static_assert( (TPolicy&(allow_overflow|allow_underflow)) || (wE>=8), "Conversion could cause under/over-flow" );
         static_assert( (TPolicy&(allow_precision_loss)) || (wF>=23), "Conversion could cause precision loss" );
         
-        fw_uint<32> bits( *(uint32_t*)&src );
+        // the sign bit makes this negative as an int, so it has to be taken as bits
+        auto bits=fw_uint<32>::from_bits( *(uint32_t*)&src );
         
         fp_ieee<8,23> ieee(bits);
         fp_flopoco<wE,wF> res;
-- 
2.43.0


From 644c71a7b071ab966a702bd76a78108d5f4a95dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 20/25] fix: constructing from an infinite double gives NaN

---
 include/thls/tops/fp_flopoco.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 2ebeadc..18f9b27 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -59,7 +59,9 @@ struct fp_flopoco
         fw_uint<ExpBits> exp(0);
         fw_uint<FracBits> frac(0);
         switch(std::fpclassify(x)){
-        case FP_INFINITE:  ;
+        case FP_INFINITE:
+            flags=fw_uint<2>(0b10);
+            break;
         case FP_NAN:
             flags=fw_uint<2>(0b11);
             break;
-- 
2.43.0


From a2e8eb9e46e10f5f2e9dea9db518bd0f5542db75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 21/25] fix: constructing from a negative zero double loses the
 sign

---
 include/thls/tops/fp_flopoco.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 18f9b27..86c4c25 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -51,7 +51,7 @@ struct fp_flopoco
     explicit fp_flopoco(double x)
     {
         fw_uint<1> sign(0);
-        if(x<0){
+        if(std::signbit(x)){
             sign=fw_uint<1>(1);
             x=-x;
         }
-- 
2.43.0


From 8ac7a80266573363c73bd82defcf8ebedb12cd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 22/25] fix: constructing a format with more than 31 fraction
 bits from a double aborts

---
 include/thls/tops/fp_flopoco.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 86c4c25..16a274b 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -80,7 +80,7 @@ struct fp_flopoco
                 }else{
                     assert(1.0<=f && f<2.0);
                     uint64_t fx=ldexp(f-1.0, FracBits);
-                    frac=fw_uint<FracBits>(fx);
+                    frac=fw_uint<FracBits>::from_uint64(fx);
                     exp=fw_uint<ExpBits>(e+bias);
                     //std::cerr<<"  x="<<x<<", f="<<f<<", e="<<e<<", fx="<<fx<<", exp="<<exp<<", frac="<<frac<<"\n";
 
-- 
2.43.0


From 14d122a20af01abba6301297586886481d13b110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 23/25] fix: to_double of a negative number returns a huge
 positive value

---
 include/thls/tops/fp_flopoco.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 16a274b..f0849ca 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -1002,7 +1002,7 @@ double fp_flopoco<ExpBits,FracBits>::to_double() const
     if(is_zero().to_bool()){
         return is_negative().to_bool() ? neg_zero : pos_zero;
     }else if(is_normal().to_bool()){
-        uint64_t frac=concat(og<1>(), get_frac_bits()).to_uint64();
+        double frac=concat(og<1>(), get_frac_bits()).to_uint64();
         if(is_negative().to_bool()){
             frac=-frac;
         }
-- 
2.43.0


From be7af94db09991aadf1710c8f5b263f18fe94580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:32 +0000
Subject: [PATCH 24/25] fix: dual adder aborted for fractions of 61 bits with a
 7-bit exponent (far shift wider than the shifted value)

---
 include/thls/tops/fp_flopoco_add_dual_v1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_add_dual_v1.hpp b/include/thls/tops/fp_flopoco_add_dual_v1.hpp
index 571d523..594a2ae 100644
--- a/include/thls/tops/fp_flopoco_add_dual_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_dual_v1.hpp
@@ -347,7 +347,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_dual(const fp_flopoco<wEX,wFX> &xPre, const
     // HACK: This is a complete hack to get very specific widths to
     // pass. It has a small cost, but seems to be benign   
     // TODO: WTF is going on here?
-    static const int pad1=(wF==5 || wF==13 || wF==29) ? 2 : 0;
+    static const int pad1=((wF+3)&(wF+2))==0 ? 2 : 0; // wF+3 is a power of two, so shiftVal can be as large as 2*wF+5
     auto preFracNewY=zpad_lo<wF+3+pad1>(fracNewY);
     //sstd::cerr<<"shiftVal="<<shiftVal<<", pad="<<pad1<<"\n";
     fw_uint<2*wF+4+pad1> shiftedFracYp = preFracNewY >> shiftVal.to_int();    
-- 
2.43.0


From fc7b106da72ebe3451811b66418d4a467eadaef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:32 +0000
Subject: [PATCH 25/25] fix: numeric limits of the IEEE policy type gave the
 exponent range of the internal format

---
 include/thls/tops/policy_ieee_on_flopoco.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/policy_ieee_on_flopoco.hpp b/include/thls/tops/policy_ieee_on_flopoco.hpp
index 0bbe9f7..e1b6cc7 100644
--- a/include/thls/tops/policy_ieee_on_flopoco.hpp
+++ b/include/thls/tops/policy_ieee_on_flopoco.hpp
@@ -117,8 +117,8 @@ namespace std
 
         static const int bias = (1<<(ExpBits-1))-1;
 
-        static const int min_exponent = 0-bias;
-        static const int max_exponent = 0+bias+1;
+        static const int min_exponent = base_t::min_exponent;
+        static const int max_exponent = base_t::max_exponent;
 
         //one more than the smallest negative power of the radix that is a valid normalized floating-point value
         // static const int min_exponent10 = TODO;
-- 
2.43.0

