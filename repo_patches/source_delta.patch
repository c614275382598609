From dfb009758c24ea09ed8da0eab854f721fef71dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 01/43] fix: i64.clz, i64.ctz and i64.popcnt write the whole
 64-bit result

---
 pwart/extfunc.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index d7bce97..7437080 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -25,9 +25,9 @@ static void insn_i64clz(void *fp){
       x >>= 4, c -= 4;
     if (x >> 2)
       x >>= 2, c -= 2;
-    *(uint32_t *)fp = c - (x >> 1);
+    *(uint64_t *)fp = c - (x >> 1);
   } else {
-    *(uint32_t *)fp = 64;
+    *(uint64_t *)fp = 64;
   }
 }
 static void insn_i64ctz(void *fp){
@@ -46,9 +46,9 @@ static void insn_i64ctz(void *fp){
       x <<= 2, c -= 2;
     if (x << 1)
       c -= 1;
-    *(uint32_t *)fp = c;
+    *(uint64_t *)fp = c;
   } else {
-    *(uint32_t *)fp = 64;
+    *(uint64_t *)fp = 64;
   }
 }
 static void insn_i64popcount(void *fp){
@@ -56,7 +56,7 @@ static void insn_i64popcount(void *fp){
   x -= (x & 0xaaaaaaaaaaaaaaaaull) >> 1;
   x = (x & 0x3333333333333333ull) + ((x & 0xccccccccccccccccull) >> 2);
   x = ((x * 0x11) & 0xf0f0f0f0f0f0f0f0ull) >> 4;
-  *(uint32_t *)fp = (uint32_t)((x * 0x0101010101010101ull) >> 56);
+  *(uint64_t *)fp = (x * 0x0101010101010101ull) >> 56;
 }
 
 static void insn_i32clz(void *fp){
-- 
2.43.0


From f55a30b3728a54783545c7cfb28395149c6a303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 02/43] fix: f32/f64 min and max propagate NaN and order signed
 zeros

---
 pwart/extfunc.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 7437080..34e9541 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -222,20 +222,32 @@ static void insn_i64shrs(int64_t *fp){ *fp = (*fp) >> (*(fp + 1)); }
 static void insn_i64shru(uint64_t *fp){ *fp = (*fp) >> (*(fp + 1)); }
 
 static void insn_f32max(float *fp){
-  *fp = (*fp) > *(fp + 1) ? (*fp) : *(fp + 1);
+  float x = *fp, y = *(fp + 1);
+  if (x != x || y != y) *fp = x + y;
+  else if (x == y) *fp = signbit(x) ? y : x;
+  else *fp = x > y ? x : y;
 }
 static void insn_f32min(float *fp){
-  *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
+  float x = *fp, y = *(fp + 1);
+  if (x != x || y != y) *fp = x + y;
+  else if (x == y) *fp = signbit(x) ? x : y;
+  else *fp = x < y ? x : y;
 }
 static void insn_f32copysign(float *fp){
   *fp = signbit(*fp) ? -fabs(*(fp + 1)) : fabs(*(fp + 1));
 }
 
 static void insn_f64max(double *fp){
-  *fp = (*fp) > *(fp + 1) ? (*fp) : *(fp + 1);
+  double x = *fp, y = *(fp + 1);
+  if (x != x || y != y) *fp = x + y;
+  else if (x == y) *fp = signbit(x) ? y : x;
+  else *fp = x > y ? x : y;
 }
 static void insn_f64min(double *fp){
-  *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
+  double x = *fp, y = *(fp + 1);
+  if (x != x || y != y) *fp = x + y;
+  else if (x == y) *fp = signbit(x) ? x : y;
+  else *fp = x < y ? x : y;
 }
 static void insn_f64copysign(double *fp){
   *fp = signbit(*fp) ? -fabs(*(fp + 1)) : fabs(*(fp + 1));
-- 
2.43.0


From 4891e5fb226c096daa6ea99573afc28d3c910459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 03/43] fix: copysign takes the magnitude from the first
 operand and the sign from the second

---
 pwart/extfunc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 34e9541..0474291 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -234,7 +234,8 @@ static void insn_f32min(float *fp){
   else *fp = x < y ? x : y;
 }
 static void insn_f32copysign(float *fp){
-  *fp = signbit(*fp) ? -fabs(*(fp + 1)) : fabs(*(fp + 1));
+  uint32_t *bits = (uint32_t *)fp;
+  bits[0] = (bits[0] & 0x7fffffffu) | (bits[1] & 0x80000000u);
 }
 
 static void insn_f64max(double *fp){
@@ -250,7 +251,8 @@ static void insn_f64min(double *fp){
   else *fp = x < y ? x : y;
 }
 static void insn_f64copysign(double *fp){
-  *fp = signbit(*fp) ? -fabs(*(fp + 1)) : fabs(*(fp + 1));
+  uint64_t *bits = (uint64_t *)fp;
+  bits[0] = (bits[0] & 0x7fffffffffffffffull) | (bits[1] & 0x8000000000000000ull);
 }
 
 static void insn_i32truncf32u(uint32_t *fp){
-- 
2.43.0


From 1db2b45487b4d50580bc703098b353126fe57581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 04/43] fix: i64.extend16_s and i64.extend32_s extend from 16
 and 32 bits on 64-bit hosts

---
 pwart/opgen_num.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_num.c b/pwart/opgen_num.c
index 5cb9b74..7c43ed0 100644
--- a/pwart/opgen_num.c
+++ b/pwart/opgen_num.c
@@ -1294,7 +1294,7 @@ static void opgen_GenConvertOp(ModuleCompiler *m,int opcode){
                      sv->val.tworeg.opr2, 0, SLJIT_IMM, 31);
     } else {
       a = pwart_GetFreeReg(m, RT_INTEGER, 1);
-      sljit_emit_op1(m->jitc, SLJIT_MOV_S8, a, 0, sv->val.op, sv->val.opw);
+      sljit_emit_op1(m->jitc, SLJIT_MOV_S16, a, 0, sv->val.op, sv->val.opw);
       sv->val.op = a;
       sv->val.opw = 0;
     }
@@ -1307,7 +1307,7 @@ static void opgen_GenConvertOp(ModuleCompiler *m,int opcode){
                      sv->val.tworeg.opr1, 0, SLJIT_IMM, 31);
     } else {
       a = pwart_GetFreeReg(m, RT_INTEGER, 1);
-      sljit_emit_op1(m->jitc, SLJIT_MOV_S8, a, 0, sv->val.op, sv->val.opw);
+      sljit_emit_op1(m->jitc, SLJIT_MOV_S32, a, 0, sv->val.op, sv->val.opw);
       sv->val.op = a;
       sv->val.opw = 0;
     }
-- 
2.43.0


From 72d6f0c4ccd9784ef45677ea66adc077afb36828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 05/43] fix: rem_s of the minimum integer by -1 yields 0
 instead of trapping

---
 pwart/opgen_num.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pwart/opgen_num.c b/pwart/opgen_num.c
index 7c43ed0..1e50ede 100644
--- a/pwart/opgen_num.c
+++ b/pwart/opgen_num.c
@@ -316,6 +316,13 @@ static void opgen_GenCompareOp(ModuleCompiler *m,int opcode){
   }
 }
 
+// r0 % -1 is 0 by definition, but the division of the minimum integer by -1 overflows on the host.
+static void pwart_EmitAvoidRemOverflow(ModuleCompiler *m, int cmp_type) {
+  struct sljit_jump *j = sljit_emit_cmp(m->jitc, cmp_type, SLJIT_R1, 0, SLJIT_IMM, -1);
+  sljit_emit_op1(m->jitc, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 0);
+  sljit_set_label(j, sljit_emit_label(m->jitc));
+}
+
 static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
   StackValue *sv, *sv2;
   int32_t a, b;
@@ -513,6 +520,7 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
         pwart_EmitLoadReg(m, sv2, SLJIT_R1);
       }
       a = SLJIT_R1;
+      pwart_EmitAvoidRemOverflow(m, SLJIT_NOT_EQUAL | SLJIT_32);
       sljit_emit_op0(m->jitc, SLJIT_DIVMOD_S32);
     } break;
     case 0x70: // i32.rem_u
@@ -657,6 +665,7 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
           pwart_EmitLoadReg(m, sv2, SLJIT_R1);
         }
         a = SLJIT_R1;
+        pwart_EmitAvoidRemOverflow(m, SLJIT_NOT_EQUAL);
         sljit_emit_op0(m->jitc, SLJIT_DIVMOD_SW);
       } break;
       case 0x82: // i64.rem_u
-- 
2.43.0


From 2506379475c52b878c55a3d3484aa4a765a06c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 06/43] fix: sign-extend signed LEB128 values longer than 31
 bits

---
 pwart/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/util.c b/pwart/util.c
index 2bcd459..a9801cc 100644
--- a/pwart/util.c
+++ b/pwart/util.c
@@ -89,7 +89,7 @@ static uint64_t read_LEB_(uint8_t *bytes, uint32_t *pos, uint32_t maxbits, int s
     }
     if (sign && (shift < maxbits) && (byte & 0x40)) {
         // Sign extend
-        result |= - (1 << shift);
+        result |= - ((uint64_t)1 << shift);
     }
     return result;
 }
-- 
2.43.0


From d04d4fc6cbc1ac93e89af3314c44c756c2e962e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 07/43] fix: read the memory index before the offset when
 choosing the cached memory

---
 pwart/wagen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index 2a0a59f..f05d7ac 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -224,8 +224,8 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
     case 0x28:  case 0x29:  case 0x2a:  case 0x2b:  case 0x2c:  case 0x2d:  case 0x2e:  case 0x2f:  case 0x30:  case 0x31:  case 0x32:  case 0x33:  case 0x34:  case 0x35:  case 0x36:  case 0x37:  case 0x38:  case 0x39:  case 0x3a:  case 0x3b:  case 0x3c:  case 0x3d:  case 0x3e: 
       midx=0;
       arg = read_LEB(m->bytes, &m->pc, 32);
-      offset = read_LEB(m->bytes, &m->pc, 32);
       if(arg&0x40)midx=read_LEB(m->bytes, &m->pc, 32);
+      offset = read_LEB(m->bytes, &m->pc, 32);
       if(m->cached_midx<0 && (*dynarr_get(m->context->memories,Memory *,midx))->bytes!=NULL){
         m->mem_base_local = -2;
         m->cached_midx=midx;
-- 
2.43.0


From ac12b8c7b2b8ade7cb515f0827e3e0c7d7815a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:05 +0000
Subject: [PATCH 08/43] fix: spill a float stack value instead of using a
 register past the last float register

---
 pwart/opgen_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 5be0754..d6c1196 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -564,7 +564,7 @@ static sljit_s32 pwart_GetFreeReg(ModuleCompiler *m, sljit_s32 regtype, int upst
     }
   } else {
     for (fr = SLJIT_FR0;
-         fr <= SLJIT_FR0 + SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS; fr++) {
+         fr < SLJIT_FR0 + SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS; fr++) {
       if (m->float_registers_status[fr - SLJIT_FR0] & RS_RESERVED) {
         continue;
       }
-- 
2.43.0


From 8154a3f23dae07f56ad5d34c1378e81f3b9ac5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 09/43] fix: place call and tail-call arguments contiguously at
 the callee frame whatever their alignment

---
 pwart/opgen_utils.c | 80 +++++++++++++++++++++------------------------
 1 file changed, 37 insertions(+), 43 deletions(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index d6c1196..68f0021 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -358,11 +358,24 @@ static void stackvalue_EmitSwapTopTwoValue(ModuleCompiler *m) {
 }
 
 
+//offset of argument 'idx' in the callee frame at 'offset', 'args' is the first argument.
+static int pwart_GetArgumentOffset(StackValue *args,int idx,int offset){
+  int i,next=offset;
+  for(i=0;i<=idx;i++){
+    offset=next;
+    if(pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN){
+      offset=stackvalue_GetAlignedOffset(args+i,offset,&next);
+    }else{
+      next=offset+stackvalue_GetSizeAndAlign(args+i,NULL);
+    }
+  }
+  return offset;
+}
+
 static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg,
                               sljit_sw offset,int callReturn) {
   StackValue *sv;
   int a, b, len,func_frame_offset;
-  int i;
   //Caution: Do not use scratch register before sljit_emit_icall to avoid overwrite [memreg,offset]
   //XXX: Maybe we need use RS_RESERVED to avoid unexpected overwrite.
   len = strlen((const char *)type->params);
@@ -381,53 +394,34 @@ static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg
   }
   sv = m->stack+m->sp + 1; // first argument
 
-  if((pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN) && ((sv->frame_offset&7)>0)){
+  //offset of callee frame. Tail call reuse the frame of current function.
+  func_frame_offset=callReturn?0:sv->frame_offset;
+  if(pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN){
     //XXX: move stack value to align frame to 8 ,we should avoid this happen.
-    sv->frame_offset+=4;
-    if(len>0){
-      b=sv->frame_offset+stackvalue_GetSizeAndAlign(sv,NULL);
-      m->sp+=len;
-      for(a=1;a<len;a++){
-        sv++;
-        sv->frame_offset = stackvalue_GetAlignedOffset(sv,b,&b);
-      }
-      //re-save stackvalue from last to head, to avoid stack overwriting
-      sv=m->stack+m->sp;
-      for(a=0;a<len;a++){
-        pwart_EmitSaveStack(m,sv);
-        sv--;
-      }
-      //move sp back
-      m->sp-=len;
-      sv=m->stack+m->sp+1; // first argument
+    func_frame_offset=(func_frame_offset+7)&~7;
+  }
+  if(callReturn){
+    //the arguments may be read from the frame we are going to overwrite.
+    for(a=0;a<len;a++){
+      pwart_EmitSaveStack(m,sv+a);
     }
-  }else if(callReturn){
-    //tail call
-    sv->frame_offset=0;
-    if(len>0){
-      pwart_EmitSaveStack(m,sv);
-      b=sv->frame_offset+stackvalue_GetSizeAndAlign(sv,NULL);
-      m->sp+=len;
-      for(a=1;a<len;a++){
-        sv++;
-        sv->frame_offset = stackvalue_GetAlignedOffset(sv,b,&b);
-        pwart_EmitSaveStack(m,sv);
-      }
-      //move sp back
-      m->sp-=len;
-      sv=m->stack+m->sp+1; // first argument
+  }
+  //arguments that move up, from last to head, to avoid stack overwriting
+  for(a=len-1;a>=0;a--){
+    b=pwart_GetArgumentOffset(sv,a,func_frame_offset);
+    if(b>=sv[a].frame_offset){
+      sv[a].frame_offset=b;
+      pwart_EmitSaveStack(m,sv+a);
     }
-  }else{
-    for(i=len;i>0;i--){
-      m->sp++;
-      pwart_EmitSaveStack(m,&m->stack[m->sp]);
+  }
+  //arguments that move down, from head to last.
+  for(a=0;a<len;a++){
+    b=pwart_GetArgumentOffset(sv,a,func_frame_offset);
+    if(b<sv[a].frame_offset){
+      sv[a].frame_offset=b;
+      pwart_EmitSaveStack(m,sv+a);
     }
-    //move sp back
-    m->sp-=len;
-    sv=m->stack+m->sp+1; // first argument
   }
-
-  func_frame_offset=sv->frame_offset;
   
   sljit_emit_op2(m->jitc, SLJIT_ADD, SLJIT_R0, 0, SLJIT_S0, 0, SLJIT_IMM,func_frame_offset);
 
-- 
2.43.0


From bb1d66c2cbb70069fb9f606a0af226501e71eee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 10/43] fix: save results read from the argument area before
 the result area is written

---
 pwart/opgen_utils.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 68f0021..c0a6f01 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -475,6 +475,13 @@ static char *pwart_EmitFuncReturn(ModuleCompiler *m) {
     /* maybe unreachable code, Do nothing */
     return NULL;
   }
+  //results still read from the argument area will be overwritten by other results, save them first.
+  for (idx = 0; idx < len; idx++) {
+    sv = &m->stack[m->sp - len + idx + 1];
+    if(sv->jit_type==SVT_GENERAL && sv->val.op==SLJIT_MEM1(SLJIT_S0)){
+      pwart_EmitSaveStack(m,sv);
+    }
+  }
   for (idx = 0; idx < len; idx++) {
     sv = &m->stack[m->sp - len + idx + 1];
     if(pwart_gcfg.stack_flags & PWART_STACK_FLAGS_AUTO_ALIGN){
-- 
2.43.0


From c932bc728e2f40d9dae0829085bbc41480e55014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:08 +0000
Subject: [PATCH 11/43] fix: branches leave block results in the result slot,
 may target the function body and end reachable code

A value carried by br, br_if or br_table, and the result of a then branch or of a
call moved for alignment, stayed where it was computed instead of the slot the
code after the block reads.  Branching to the function level crashed the
compiler.  br_table decremented the register of a local used as its index.  Code
following an unconditional branch was compiled with a wrong operand stack.
select with a type immediate was rejected although implemented.
---
 pwart/def.h       |   3 +-
 pwart/opgen_ctl.c | 181 +++++++++++++++++++++++++++++-----------------
 pwart/wagen.c     |  37 ++++++++--
 3 files changed, 149 insertions(+), 72 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index f0cfee0..5cf2acf 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -67,6 +67,7 @@ typedef struct Block {
                               // 0x02: block, 0x03: loop, 0x04: if
     int8_t     stack_offset;  //stack offset after block end.
     int16_t    saved_sp;      //sp when enter block.
+    uint8_t    result_type;   //wasm type of the block result, 0 if none.
     //Type      *type;           params/results type
     struct sljit_jump *else_jump;     // if block only
     struct sljit_label *br_label;       // blocks only
@@ -198,7 +199,7 @@ typedef struct ModuleCompiler {
     struct dynarr *blocks; // block stacks, block type
     struct dynarr *br_table; // br_table branch indexes, uint32_t type
     uint8_t eof;      // end of function
-    int8_t block_returned; //the block has br/return out.
+    int8_t block_returned; //the block has br/return out, 2 if by unreachable.
 
     //prepare info, used in compile time
     #if DEBUG_BUILD
diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index e5325c4..172c268 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -8,16 +8,67 @@
 
 static void opgen_GenUnreachable(ModuleCompiler *m) {
   //just do nothing now.
+  m->block_returned=2;
 }
 
-static void opgen_GenBlock(ModuleCompiler *m,int stackOffset) {
+//offset of the result of block, base on SLJIT_S0.
+static int pwart_GetBlockResultOffset(ModuleCompiler *m,Block *block){
+  StackValue res;
+  int off=m->first_stackvalue_offset;
+  if(block->saved_sp>=0){
+    off=m->stack[block->saved_sp].frame_offset+stackvalue_GetSizeAndAlign(m->stack+block->saved_sp,NULL);
+    if(pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN){
+      res.wasm_type=block->result_type;
+      off=stackvalue_GetAlignedOffset(&res,off,NULL);
+    }
+  }
+  return off;
+}
+
+//move stack top to where the result of block is expected.
+static void pwart_EmitBlockResult(ModuleCompiler *m,Block *block){
+  if(block->stack_offset>0 && m->sp>block->saved_sp){
+    pwart_EmitStoreStackValue(m,m->stack+m->sp,SLJIT_MEM1(SLJIT_S0),pwart_GetBlockResultOffset(m,block));
+  }
+}
+
+//if stack[sp] can be taken as result of block without move. stack[sp] should be saved already.
+static int pwart_IsBlockResultInPlace(ModuleCompiler *m,Block *block,int sp){
+  if(block->block_type==0x00)return 0;
+  if(block->stack_offset==0 || sp<=block->saved_sp)return 1;
+  return m->stack[sp].frame_offset==pwart_GetBlockResultOffset(m,block);
+}
+
+//set branch target to the end of block, or the begin of loop.
+static void pwart_SetBranchTarget(ModuleCompiler *m,Block *block,struct sljit_jump *jump){
+  if (block->br_label != NULL) {
+    sljit_set_label(jump, block->br_label);
+  } else {
+    *dynarr_push_type(&block->br_jump, struct sljit_jump *) = jump;
+  }
+}
+
+//branch to block unconditionally, all stack value should be saved already.
+static void pwart_EmitBranch(ModuleCompiler *m,Block *block){
+  if(block->block_type==0x00){
+    pwart_EmitFuncReturn(m);
+  }else{
+    if(block->block_type!=0x3){
+      pwart_EmitBlockResult(m,block);
+    }
+    pwart_SetBranchTarget(m,block,sljit_emit_jump(m->jitc, SLJIT_JUMP));
+  }
+}
+
+static void opgen_GenBlock(ModuleCompiler *m,int resultType) {
   Block *block;
   pwart_EmitSaveStackAll(m);
   block = dynarr_push_type(&m->blocks, Block);
   block->block_type = 0x2;
   dynarr_init(&block->br_jump, sizeof(struct sljit_jump *));
   block->else_jump = NULL;
-  block->stack_offset=stackOffset;
+  block->stack_offset=resultType!=0?1:0;
+  block->result_type=resultType;
   block->saved_sp=m->sp;
   #if PWART_DEBUG_RUNTIME_PROBE
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
@@ -25,13 +76,14 @@ static void opgen_GenBlock(ModuleCompiler *m,int stackOffset) {
   #endif
 }
 /* blktype 0x40 indicating the empty type. */
-static void opgen_GenLoop(ModuleCompiler *m,int stackOffset) {
+static void opgen_GenLoop(ModuleCompiler *m,int resultType) {
   Block *block;
   pwart_EmitSaveStackAll(m);
   block = dynarr_push_type(&m->blocks, Block);
   block->block_type = 0x3;
   block->br_label = sljit_emit_label(m->jitc);
-  block->stack_offset=stackOffset;
+  block->stack_offset=resultType!=0?1:0;
+  block->result_type=resultType;
   block->saved_sp=m->sp;
   #if PWART_DEBUG_RUNTIME_PROBE
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
@@ -39,7 +91,7 @@ static void opgen_GenLoop(ModuleCompiler *m,int stackOffset) {
   #endif
 }
 /* blktype 0x40 indicating the empty type. */
-static void opgen_GenIf(ModuleCompiler *m,int stackOffset) {
+static void opgen_GenIf(ModuleCompiler *m,int resultType) {
   Block *block;
   StackValue *sv;
   struct sljit_jump *jump;
@@ -63,22 +115,25 @@ static void opgen_GenIf(ModuleCompiler *m,int stackOffset) {
   } else {
     // sljit_emit_cmp always use machine word length, So load to register first.
     pwart_EmitStackValueLoadReg(m, sv);
-    jump = sljit_emit_cmp(m->jitc, SLJIT_EQUAL, sv->val.op, sv->val.opw,
+    jump = sljit_emit_cmp(m->jitc, SLJIT_EQUAL | SLJIT_32, sv->val.op, sv->val.opw,
                           SLJIT_IMM, 0);
   }
   block->else_jump = jump;
   m->sp--;
-  block->stack_offset=stackOffset;
+  block->stack_offset=resultType!=0?1:0;
+  block->result_type=resultType;
   block->saved_sp=m->sp;
   
 }
 
 static void opgen_GenElse(ModuleCompiler *m) {
   Block *block;
-  pwart_EmitSaveStackAll(m);
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1);
-  *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-      sljit_emit_jump(m->jitc, SLJIT_JUMP);
+  if(!m->block_returned){
+    pwart_EmitSaveStackAll(m);
+    pwart_EmitBranch(m,block);
+  }
+  m->block_returned=0;
   sljit_set_label(block->else_jump, sljit_emit_label(m->jitc));
   block->else_jump = NULL;
   m->sp=block->saved_sp;
@@ -92,8 +147,12 @@ static void opgen_GenEnd(ModuleCompiler *m) {
   struct sljit_jump *sj;
   Block *block = dynarr_pop_type(&m->blocks, Block);
   int a;
-  if (block->block_type == 0x2 || block->block_type == 0x4) {
+  StackValue *sv;
+  if (block->block_type != 0x00 && !m->block_returned) {
     pwart_EmitSaveStackAll(m);
+    pwart_EmitBlockResult(m,block);
+  }
+  if (block->block_type == 0x2 || block->block_type == 0x4) {
     // if block
     block->br_label = sljit_emit_label(m->jitc);
     for (a = 0; a < block->br_jump->len; a++) {
@@ -108,10 +167,17 @@ static void opgen_GenEnd(ModuleCompiler *m) {
     // function
     if(!m->block_returned){
       pwart_EmitFuncReturn(m);
+    }else if(m->block_returned==2){
+      sljit_emit_return_void(m->jitc);
     }
     m->eof = 1;
   } 
-  m->sp=block->saved_sp+block->stack_offset;
+  m->sp=block->saved_sp;
+  if(block->stack_offset>0){
+    sv=stackvalue_Push(m,block->result_type);
+    sv->val.op=SLJIT_MEM1(SLJIT_S0);
+    sv->val.opw=sv->frame_offset;
+  }
   if (block->br_jump != NULL) {
     dynarr_free(&block->br_jump);
   }
@@ -130,20 +196,15 @@ static void opgen_GenBr(ModuleCompiler *m, int32_t depth) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-  if (block->br_label != NULL) {
-    sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_JUMP), block->br_label);
-  } else {
-    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-        sljit_emit_jump(m->jitc, SLJIT_JUMP);
-  }
-  if(block->block_type==0x2 || block->block_type==0x4){
-    m->block_returned=1;
-  }
+  pwart_EmitBranch(m,block);
+  m->block_returned=1;
 }
 
 static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
   StackValue *sv;
   Block *block;
+  struct sljit_jump *jump;
+  int direct;
   StackValue *stack = m->stack;
   sv = &stack[m->sp];
   // stack top will be remove soon. Don't save it here.
@@ -156,29 +217,24 @@ static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
+  //branch over the result moving and return, if needed.
+  direct = block->block_type==0x3 || pwart_IsBlockResultInPlace(m,block,m->sp-1);
   if (sv->jit_type == SVT_CMP) {
-    if (block->br_label != NULL) {
-      sljit_set_label(sljit_emit_jump(m->jitc, sv->val.cmp.flag),
-                      block->br_label);
-    } else {
-      *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-          sljit_emit_jump(m->jitc, sv->val.cmp.flag);
-    }
+    jump = sljit_emit_jump(m->jitc, direct ? sv->val.cmp.flag : sv->val.cmp.flag^0x1);
   } else if (sv->jit_type == SVT_GENERAL) {
-    // sljit_emit_cmp always use machine word length, So load to register first.
     pwart_EmitStackValueLoadReg(m, sv);
-    if (block->br_label != NULL) {
-      sljit_set_label(sljit_emit_cmp(m->jitc, SLJIT_NOT_EQUAL, sv->val.op,
-                                     sv->val.opw, SLJIT_IMM, 0),
-                      block->br_label);
-    } else {
-      *dynarr_push_type(&block->br_jump, struct sljit_jump *) = sljit_emit_cmp(
-          m->jitc, SLJIT_NOT_EQUAL, sv->val.op, sv->val.opw, SLJIT_IMM, 0);
-    }
+    jump = sljit_emit_cmp(m->jitc, (direct ? SLJIT_NOT_EQUAL : SLJIT_EQUAL) | SLJIT_32,
+                          sv->val.op, sv->val.opw, SLJIT_IMM, 0);
   } else {
     SLJIT_UNREACHABLE();
   }
   m->sp--;
+  if(direct){
+    pwart_SetBranchTarget(m,block,jump);
+  }else{
+    pwart_EmitBranch(m,block);
+    sljit_set_label(jump, sljit_emit_label(m->jitc));
+  }
 }
 
 static void opgen_GenBrTable(ModuleCompiler *m) {
@@ -186,6 +242,7 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
   int a, count;
   Block *block;
   StackValue *sv;
+  struct sljit_jump *jump;
   sv=m->stack+m->sp;
   count = m->br_table->len-1;
   for (int i = 0; i < m->sp; i++) {
@@ -197,34 +254,25 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   pwart_EmitStackValueLoadReg(m, sv);
+  m->sp--;
   for (a = 0; a < count; a++) {
     depth = *dynarr_get(m->br_table, uint32_t, a);
     block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-    if (a == 0) {
-      sljit_emit_op2u(m->jitc, SLJIT_AND | SLJIT_SET_Z, sv->val.op, sv->val.opw,
-                      sv->val.op, sv->val.opw);
-    } else {
-      sljit_emit_op2(m->jitc, SLJIT_SUB32 | SLJIT_SET_Z, sv->val.op,
-                     sv->val.opw, sv->val.op, sv->val.opw, SLJIT_IMM, 1);
-    }
-    if (block->br_label != NULL) {
-      sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_ZERO), block->br_label);
-    } else {
-      *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-          sljit_emit_jump(m->jitc, SLJIT_ZERO);
+    if(block->block_type==0x3 || pwart_IsBlockResultInPlace(m,block,m->sp)){
+      pwart_SetBranchTarget(m,block,sljit_emit_cmp(m->jitc, SLJIT_EQUAL | SLJIT_32,
+                            sv->val.op, sv->val.opw, SLJIT_IMM, a));
+    }else{
+      jump=sljit_emit_cmp(m->jitc, SLJIT_NOT_EQUAL | SLJIT_32, sv->val.op, sv->val.opw, SLJIT_IMM, a);
+      pwart_EmitBranch(m,block);
+      sljit_set_label(jump, sljit_emit_label(m->jitc));
     }
   }
 
   // default
   depth = *dynarr_get(m->br_table, uint32_t, count);
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-  if (block->br_label != NULL) {
-    sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_JUMP), block->br_label);
-  } else {
-    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-        sljit_emit_jump(m->jitc, SLJIT_JUMP);
-  }
-  m->sp--;
+  pwart_EmitBranch(m,block);
+  m->block_returned=1;
 }
 
 static void opgen_GenReturn(ModuleCompiler *m) {
@@ -248,6 +296,8 @@ static void opgen_GenCall(ModuleCompiler *m, int32_t fidx, int callReturn) {
     sljit_emit_op1(m->jitc, SLJIT_MOV, a, 0, SLJIT_IMM,(sljit_uw)(m->context->funcentries+fidx));
     type = dynarr_get(m->types, Type, fn->tidx);
     pwart_EmitCallFunc2(m, type, SLJIT_MEM1(a), 0,callReturn);
+  }else if(callReturn){
+    opgen_GenReturn(m);
   }
 }
 
@@ -278,7 +328,7 @@ static void opgen_GenSelect(ModuleCompiler *m) {
   } else if (sv->jit_type == SVT_GENERAL) {
     // sljit_emit_cmp always use machine word length, So load to register first.
     pwart_EmitStackValueLoadReg(m,sv);
-    jump = sljit_emit_cmp(m->jitc, SLJIT_NOT_EQUAL, sv->val.op, sv->val.opw,
+    jump = sljit_emit_cmp(m->jitc, SLJIT_NOT_EQUAL | SLJIT_32, sv->val.op, sv->val.opw,
                           SLJIT_IMM, 0);
   } else {
     SLJIT_UNREACHABLE();
@@ -292,12 +342,12 @@ static void opgen_GenSelect(ModuleCompiler *m) {
   sljit_set_label(jump, sljit_emit_label(m->jitc));
 }
 
-static char *opgen_ParseBlockStackOffset(ModuleCompiler *m,int *stackOffset){
+static char *opgen_ParseBlockResultType(ModuleCompiler *m,int *resultType){
   if(*(m->bytes+m->pc)==0x40){
-    *stackOffset=0;
+    *resultType=0;
     m->pc++;
   }else if(((*(m->bytes+m->pc))&0xC0)==0x40){
-    *stackOffset=1;
+    *resultType=*(m->bytes+m->pc);
     m->pc++;
   }else{
     return "Not support type index for block type";
@@ -316,15 +366,15 @@ static char *opgen_GenCtlOp(ModuleCompiler *m, int opcode) {
   case 0x01: // nop
     break;
   case 0x02: // block
-    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count));
+    ReturnIfErr(opgen_ParseBlockResultType(m,&count));
     opgen_GenBlock(m,count);
     break;
   case 0x03: // loop
-    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count));
+    ReturnIfErr(opgen_ParseBlockResultType(m,&count));
     opgen_GenLoop(m,count);
     break;
   case 0x04: // if
-    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count));
+    ReturnIfErr(opgen_ParseBlockResultType(m,&count));
     opgen_GenIf(m,count);
     break;
   case 0x05: // else
@@ -362,7 +412,7 @@ static char *opgen_GenCtlOp(ModuleCompiler *m, int opcode) {
   case WASMOPC_call_indirect:
   case WASMOPC_return_call_indirect:
     tidx = read_LEB(bytes, &m->pc, 32);
-    tabidx=read_LEB(bytes, &m->pc, 1); // tableidx. only support 1 table now.
+    tabidx=read_LEB(bytes, &m->pc, 32); // tableidx. only support 1 table now.
     opgen_GenCallIndirect(m, tidx, tabidx,opcode==WASMOPC_return_call_indirect);
     break;
   //
@@ -372,7 +422,8 @@ static char *opgen_GenCtlOp(ModuleCompiler *m, int opcode) {
     opgen_GenDrop(m);
     break;
   case WASMOPC_select_t:                     // select t
-    m->pc++;
+    count = read_LEB(bytes, &m->pc, 32);
+    m->pc+=count;
   case WASMOPC_select:                     // select
     opgen_GenSelect(m);
     break;
diff --git a/pwart/wagen.c b/pwart/wagen.c
index f05d7ac..0a6533b 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -21,7 +21,8 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     break;
   // varuint32, varint32
   case 0x0c: case 0x0d: // br, br_if
-  case 0x10:          // call
+  case 0x10: case 0x12: // call, return_call
+  case 0x25: case 0x26: // table.get, table.set
     read_LEB(bytes, pos, 32);
     break;
   case 0x20: //local.get
@@ -43,12 +44,13 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     read_LEB(bytes, pos, 32);
     break;
   // varuint32 + varuint1
-  case 0x11: // call_indirect
+  case 0x11: case 0x13: // call_indirect, return_call_indirect
+    read_LEB(bytes, pos, 32);
     read_LEB(bytes, pos, 32);
-    read_LEB(bytes, pos, 1);
     break;
   case 0x1c: // select t
-    read_LEB(bytes, pos, 32);
+    count = read_LEB(bytes, pos, 32);
+    *pos += count;
     break;
   // varint64
   case 0x42: // i64.const
@@ -107,6 +109,26 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
 
 
 
+//skip the code can't be reached, stop at the 'else' or 'end' of current block.
+static void pwart_SkipUnreachableCode(ModuleCompiler *m){
+  int depth=0,opcode;
+  while(m->pc < m->byte_count){
+    opcode=m->bytes[m->pc];
+    if(opcode==0x02 || opcode==0x03 || opcode==0x04){
+      depth++;
+    }else if(opcode==WASMOPC_end){
+      if(depth==0)return;
+      depth--;
+    }else if(opcode==0x05 && depth==0){
+      return;
+    }
+    wasm_SkipImmediates(m->bytes,&m->pc);
+    #if DEBUG_BUILD
+    m->insnCnt--;
+    #endif
+  }
+}
+
 static char *pwart_PrepareFunc(ModuleCompiler *m) {
   uint8_t *bytes = m->bytes;
   StackValue *stack = m->stack;
@@ -203,7 +225,7 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
     case WASMOPC_call_indirect:
     case WASMOPC_return_call_indirect:
       tidx = read_LEB(bytes, &m->pc, 32); //type
-      tabidx=read_LEB(bytes, &m->pc, 1); //table index
+      tabidx=read_LEB(bytes, &m->pc, 32); //table index
       if(tabidx==0)m->table_entries_local = -2;
       break;
     case 0x23: // global.get
@@ -334,7 +356,7 @@ static char *pwart_GenCode(ModuleCompiler *m) {
       pwart_EmitStackValueLoadReg(m, &m->stack[m->sp]);
     }
 
-    if (opcode >= 0 && opcode <= 0x1b) {
+    if (opcode >= 0 && opcode <= WASMOPC_select_t) {
       ReturnIfErr(opgen_GenCtlOp(m, opcode));
     } else if (opcode <= 0x44) {
       ReturnIfErr(opgen_GenMemOp(m, opcode));
@@ -343,6 +365,9 @@ static char *pwart_GenCode(ModuleCompiler *m) {
     } else {
       ReturnIfErr(opgen_GenMiscOp(m, opcode));
     }
+    if(m->block_returned && !m->eof){
+      pwart_SkipUnreachableCode(m);
+    }
   }
 
   #if DEBUG_BUILD
-- 
2.43.0


From f022aa31de6a6ecf978cb8009f06356667f602e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 12/43] fix: zero f64 locals with 64 bits and save float values
 in every scratch register before calls

Zero initialisation of an f64 local wrote 32 bits only.  Saving of values held in
scratch registers compared float registers with the first saved integer register,
so a float in a later register did not survive a call.
---
 pwart/opgen_utils.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index c0a6f01..e8fd5bc 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -234,7 +234,11 @@ static char* pwart_EmitSaveScratchRegisterAll(ModuleCompiler *m,int upstack) {
   for (i = 0; i <= m->sp-upstack; i++) {
     if(m->stack[i].jit_type==SVT_GENERAL){
       usereg=SLJIT_GET_REG_PART(m->stack[i].val.op);
-      if(usereg!=0 && usereg< SLJIT_FIRST_SAVED_REG){
+      if(stackvalue_IsFloat(&m->stack[i]) && (m->stack[i].val.op & SLJIT_MEM)==0){
+        if(usereg!=0 && usereg< SLJIT_FIRST_SAVED_FLOAT_REG){
+          pwart_EmitSaveStack(m,m->stack+i);
+        }
+      }else if(usereg!=0 && usereg< SLJIT_FIRST_SAVED_REG){
         pwart_EmitSaveStack(m,m->stack+i);
       }
     }else if(m->stack[i].jit_type==SVT_TWO_REG){
@@ -759,7 +763,7 @@ static char* pwart_EmitFuncEnter(ModuleCompiler *m) {
         opgen_GenF32Const(m,(uint8_t *)&f32zero);
         break;
         case WVT_F64:
-        opgen_GenF32Const(m,(uint8_t *)&f64zero);
+        opgen_GenF64Const(m,(uint8_t *)&f64zero);
         break;
         case WVT_I32:
         opgen_GenI32Const(m,0);
-- 
2.43.0


From 6cfe8e07bbe1596707ce80304fb41023d374be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:18 +0000
Subject: [PATCH 13/43] fix: local.set and local.tee keep a reinterpreted
 pending value of the local

A value read from a local in memory and reinterpreted was not saved before the
local is written, because only values of the same register class were compared.
---
 pwart/opgen_mem.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 629d9ed..d537acb 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -20,7 +20,7 @@ static void opgen_GenLocalSet(ModuleCompiler *m, uint32_t idx) {
   // check if local variable still on stack.
   for (int i = 0; i < m->sp; i++) {
     // XXX: If we use SLJIT_MEM(SLJIT_Sx), here need change.
-    if (stack[i].jit_type==SVT_GENERAL && stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
+    if (stack[i].jit_type==SVT_GENERAL && ((sv->val.op & SLJIT_MEM)!=0 || stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv)) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
       pwart_EmitSaveStack(m, &stack[i]);
     }
   }
@@ -36,7 +36,7 @@ static void opgen_GenLocalTee(ModuleCompiler *m, uint32_t idx) {
   // check if local variable still on stack.
   for (int i = 0; i < m->sp; i++) {
     // XXX: If we use SLJIT_MEM(SLJIT_Sx), here need change.
-    if (stack[i].jit_type==SVT_GENERAL && stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
+    if (stack[i].jit_type==SVT_GENERAL && ((sv->val.op & SLJIT_MEM)!=0 || stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv)) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
       pwart_EmitSaveStack(m, &stack[i]);
     }
   }
-- 
2.43.0


From 01555ca95819d753ab213fd3ff8199795ea66253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:53 +0000
Subject: [PATCH 14/43] fix: keep load and store offsets of 2^31 and more
 positive

The offset passed through int on the way to the emitted address.
---
 pwart/opgen_mem.c   | 2 +-
 pwart/opgen_utils.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index d537acb..933f2b6 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -152,7 +152,7 @@ static void opgen_GenMemoryGrow(ModuleCompiler *m,uint32_t index) {
                      (sljit_sw)&insn_memorygrow);
 }
 
-static void opgen_GenI32Load(ModuleCompiler *m, int32_t opcode, int offset) {
+static void opgen_GenI32Load(ModuleCompiler *m, int32_t opcode, sljit_sw offset) {
   StackValue *sv=m->stack+m->sp;
   int a=pwart_GetFreeReg(m,RT_INTEGER,1);
   switch (opcode) {
diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index e8fd5bc..0811505 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -111,7 +111,7 @@ static StackValue *stackvalue_FindSvalueUseReg(ModuleCompiler *m, sljit_s32 r,
 }
 
 static char *pwart_EmitStoreStackValue(ModuleCompiler *m, StackValue *sv, int memreg,
-                                     int offset) {
+                                     sljit_sw offset) {
   if (sv->jit_type == SVT_GENERAL) {
     if(memreg==sv->val.op && offset==sv->val.opw)return 0;
     if (m->target_ptr_size == 64) {
-- 
2.43.0


From 276a7ec8136badd98b5f0132c5683e285da660f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:14 +0000
Subject: [PATCH 15/43] fix: constant expressions read the ref.null type and
 earlier globals of the same module

The heap type of ref.null was taken as an instruction, and global.get of a global
the module itself defines dereferenced an offset.
---
 pwart/extfunc.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 0474291..b25f243 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -528,15 +528,21 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
       {
         uint32_t arg = read_LEB(m->bytes, &m->pc, 32);
         StackValue *sv = dynarr_get(m->globals, StackValue, arg);
+        void *addr = (void *)sv->val.opw;
+        if (sv->val.op == SLJIT_IMM) {
+          //own global when still parsing global section, opw is offset.
+          addr = (uint8_t *)m->context->own_globals->data + sv->val.opw;
+        }
         if (stackvalue_GetSizeAndAlign(sv, NULL) == 8) {
-          *(uint64_t *)sp = *(uint64_t *)(sv->val.opw);
+          memmove(sp,addr,8);
           sp+=8;
         } else {
-          *(uint32_t *)sp = *(uint32_t *)(sv->val.opw);
+          memmove(sp,addr,4);
           sp+=4;
         }
       } break;
       case 0xd0: //ref.null
+        read_LEB(m->bytes, &m->pc, 32); //heap type
         *(void **)sp=NULL;
         sp+=m->target_ptr_size/8;
         break;
-- 
2.43.0


From b47ac8ac21a395a27c236fc84374b60da2a9015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:42 +0000
Subject: [PATCH 16/43] fix: element segments of every kind, references to
 functions in globals and imported tables

Passive and declarative segments were written to table 0 at an undefined offset,
segments of expressions were misparsed, references in imported tables and in
globals pointed to compiler structures, and a 64-bit data offset overran its
variable.
---
 pwart/modparser.c | 86 ++++++++++++++++++++++++++---------------------
 1 file changed, 48 insertions(+), 38 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index f1f40c3..1a7bdda 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -72,6 +72,15 @@ static Export *get_export(RuntimeContext *rc, const char *name, uint32_t *kind)
 }
 
 
+//a function of this module is referred by WasmFunction until code is generated.
+static void *resolve_funcref(ModuleCompiler *m,void *ref){
+    WasmFunction *first=(WasmFunction *)m->functions->data;
+    if(ref>=(void *)first && ref<(void *)(first+m->functions->len)){
+        return ((WasmFunction *)ref)->func_ptr;
+    }
+    return ref;
+}
+
 static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count) {
     uint8_t   vt;
     char err;
@@ -429,37 +438,33 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             for(uint32_t c=0; c<element_count; c++) {
                 uint32_t flags = read_LEB(bytes, &pos, 32);
                 uint32_t index=0;
-                uint32_t offset;
-                void *elem_expr;
-                switch(flags){
-                    case 0:case 4:
-                    index=0;
+                uint64_t offset=0;
+                //bit 0: passive or declarative, bit 1: explicit table index(active), bit 2: items are expressions.
+                if(flags>7)return "Illegal segment flags.";
+                if(!(flags&1)){
+                    if(flags&2)index=read_LEB(bytes, &pos, 32);
                     // Run the init_expr to get offset
                     m->pc=pos;ReturnIfErr(waexpr_run_const(m,&offset));pos=m->pc;
-                    break;
-                    case 1:case 3:
-                    index=0;
-                    pos++; //extern_kind, ignored.
-                    break;
-                    case 2:
-                    index=read_LEB(bytes, &pos, 32);
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&offset));pos=m->pc;
-                    pos++;
-                    break;
-                    case 6:
-                    index=read_LEB(bytes, &pos, 32);
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&elem_expr));pos=m->pc;
-                    case 5:case 7:
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&elem_expr));pos=m->pc;
+                    offset=(uint32_t)offset;
+                }
+                if(flags&3){
+                    pos++; //extern_kind or reference type, ignored.
                 }
                 
                 uint32_t num_elem = read_LEB(bytes, &pos, 32);
-                Table *dtab=*dynarr_get(m->context->tables,Table *,index);
-                wa_debug("  table.entries: %p, offset: 0x%x\n", dtab->entries, offset);
+                Table *dtab=(flags&1)?NULL:*dynarr_get(m->context->tables,Table *,index);
+                wa_debug("  offset: 0x%x\n", (uint32_t)offset);
                 for (uint32_t n=0; n<num_elem; n++) {
-                    wa_debug("  write table entries %p, offset: 0x%x, n: 0x%x, addr: %p\n",
-                            dtab->entries, offset, n, &dtab->entries[offset+n]);
-                    dtab->entries[offset+n] = dynarr_get(m->functions,WasmFunction,read_LEB(bytes, &pos, 32));
+                    void *elem[2]={NULL,NULL};
+                    if(flags&4){
+                        m->pc=pos;ReturnIfErr(waexpr_run_const(m,elem));pos=m->pc;
+                    }else{
+                        elem[0]=dynarr_get(m->functions,WasmFunction,read_LEB(bytes, &pos, 32));
+                    }
+                    //passive and declarative segments write nothing.
+                    if(dtab!=NULL){
+                        dtab->entries[offset+n]=elem[0];
+                    }
                 }
             }
             pos = start_pos+slen;
@@ -471,7 +476,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             for (uint32_t s=0; s<seg_count; s++) {
                 uint32_t flags = read_LEB(bytes, &pos, 32);
                 uint32_t midx;
-                uint32_t offset;
+                uint64_t offset=0; //64bit memory has i64 offset.
                 switch(flags){
                     case 0:  //active
                     midx=0;
@@ -558,18 +563,23 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     for(int i=0;i<m->functions->len;i++){
         m->context->funcentries[i]=dynarr_get(m->functions,WasmFunction,i)->func_ptr;
     }
-    wa_debug("table count %x\n",m->context->own_tables_count);
-    //update table entries to real function entries.
-    for(int i1=0;i1<m->context->own_tables_count;i1++){
-        Table *tab=m->context->own_tables+i1;
-        wa_debug("table type %x\n",tab->elem_type);
-        if(tab->elem_type==WVT_FUNC){
-            for(int i=0;i<tab->size;i++){
-                if(tab->entries[i]!=NULL){
-                    wa_debug("function entry update:%p->%p\n",tab->entries[i],((WasmFunction *)tab->entries[i])->func_ptr);
-                    tab->entries[i]=((WasmFunction *)tab->entries[i])->func_ptr;
-                }
-            }
+    //update function references in tables and globals to real function entries.
+    for(int i1=0;i1<m->context->tables->len;i1++){
+        Table *tab=*dynarr_get(m->context->tables,Table *,i1);
+        if(tab->elem_type==WVT_REF)continue;
+        for(int i=0;i<tab->size;i++){
+            tab->entries[i]=resolve_funcref(m,tab->entries[i]);
+        }
+    }
+    for(int i1=0;i1<m->globals->len;i1++){
+        StackValue *sv=dynarr_get(m->globals,StackValue,i1);
+        uint8_t *addr=(uint8_t *)sv->val.opw;
+        if(sv->wasm_type==WVT_FUNC && addr>=m->context->own_globals->data
+            && addr<m->context->own_globals->data+m->context->own_globals->len){
+            void *ref;
+            memmove(&ref,addr,sizeof(void *));
+            ref=resolve_funcref(m,ref);
+            memmove(addr,&ref,sizeof(void *));
         }
     }
 
-- 
2.43.0


From 6ca21bd9df4f1941b1ec126f958e720076fa7c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:42 +0000
Subject: [PATCH 17/43] fix: allocate function entries for a module without
 code

A module that imports functions and defines none wrote them through NULL.
---
 pwart/modparser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 1a7bdda..644d5ff 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -558,6 +558,11 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
 
     }
 
+    if(m->context->funcentries==NULL){
+        //module without code section.
+        m->context->funcentries_count=m->import_count;
+        m->context->funcentries=wa_malloc((m->import_count+1)*sizeof(WasmFunctionEntry));
+    }
     //set functionentry
     m->context->import_funcentries_count=m->import_count;
     for(int i=0;i<m->functions->len;i++){
-- 
2.43.0


From 39e787908f14188d6c319dfa169a756117c03bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:17 +0000
Subject: [PATCH 18/43] fix: memory.grow fails for fixed memories, on overflow
 of the page count and when the allocation fails

---
 pwart/extfunc.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index b25f243..5f9ff97 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -306,16 +306,22 @@ static void insn_memorygrow(void *fp){
   uint32_t index=pwart_rstack_get_i32(&sp); // memory index
   RuntimeContext *m=pwart_rstack_get_ref(&sp);
   Memory *mem=*dynarr_get(m->memories,Memory *,index);
-  int32_t prev_pages = mem->pages;
-  if (delta + prev_pages > mem->maximum) {
+  uint32_t prev_pages = mem->pages;
+  if (mem->fixed || prev_pages > mem->maximum || delta > mem->maximum - prev_pages) {
     sp=fp;
     pwart_rstack_put_i32(&sp,-1);
     return;
   }
-  mem->pages += delta;
-  if(!mem->fixed){
-    mem->bytes = wa_realloc(mem->bytes, mem->pages * PAGE_SIZE);
-    memset(mem->bytes+prev_pages*PAGE_SIZE,0,delta*PAGE_SIZE);
+  if(delta > 0){
+    uint8_t *bytes = wa_realloc(mem->bytes, (size_t)(prev_pages + delta) * PAGE_SIZE);
+    if(bytes == NULL){
+      sp=fp;
+      pwart_rstack_put_i32(&sp,-1);
+      return;
+    }
+    memset(bytes + (size_t)prev_pages * PAGE_SIZE, 0, (size_t)delta * PAGE_SIZE);
+    mem->bytes = bytes;
+    mem->pages += delta;
   }
   sp=fp;
   pwart_rstack_put_i32(&sp,prev_pages);
-- 
2.43.0


From a03582f3a4379f6b6eb7e3b7325d987806535118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:17 +0000
Subject: [PATCH 19/43] fix: memory.size reads the page count when it is
 executed

---
 pwart/opgen_mem.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 933f2b6..680211d 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -140,9 +140,10 @@ static void opgen_GenCurrentMemory(ModuleCompiler *m,uint32_t index) {
   StackValue *sv;
   a = pwart_GetFreeReg(m, RT_INTEGER, 0);
   sljit_emit_op1(m->jitc,SLJIT_MOV,a,0,SLJIT_IMM,(sljit_uw)(&(*dynarr_get(m->context->memories,Memory *,index))->pages));
+  sljit_emit_op1(m->jitc,SLJIT_MOV32,a,0,SLJIT_MEM1(a),0);
   sv = stackvalue_Push(m, WVT_I32);
   sv->jit_type = SVT_GENERAL;
-  sv->val.op = SLJIT_MEM1(a);
+  sv->val.op = a;
   sv->val.opw = 0;
 }
 static void opgen_GenMemoryGrow(ModuleCompiler *m,uint32_t index) {
-- 
2.43.0


From 98240b487776427bc2e5a655af01e73240e9189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:17 +0000
Subject: [PATCH 20/43] fix: allocate the initial pages of an own memory with a
 64-bit byte count

---
 pwart/modparser.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 644d5ff..0868a4a 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -337,11 +337,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 Memory *memory=m->context->own_memories+i;
                 parse_memory_type(m, &pos,memory);
                 //XXX: custom memory creator?
-                if(memory->fixed){
-                    memory->bytes = wa_calloc(memory->initial*PAGE_SIZE);
-                }else{
-                    memory->bytes = wa_calloc(memory->maximum*PAGE_SIZE);
-                }
+                memory->bytes = wa_calloc((size_t)memory->initial*PAGE_SIZE);
                 *dynarr_push_type(&m->context->memories,Memory *)=memory;
             }
         }
-- 
2.43.0


From 95be4b77c6f0d75f8ac3a991c91677a8567995dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:49 +0000
Subject: [PATCH 21/43] fix: memory.size, memory.grow and memory.fill take and
 return 64-bit values for memories indexed by i64

---
 pwart/def.h       |  2 ++
 pwart/extfunc.c   | 40 +++++++++++++++++++++++++---------------
 pwart/modparser.c |  5 +++++
 pwart/opgen_mem.c | 14 ++++++++++++++
 4 files changed, 46 insertions(+), 15 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index 5cf2acf..4a19444 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -185,6 +185,8 @@ typedef struct ModuleCompiler {
 
     struct dynarr *functions;      //functions, type WasmFunction
 
+    struct dynarr *memories_is64;  //1 if the memory of this index is indexed by i64, type uint8_t
+
     struct pwart_symbol_resolver *import_resolver;
 
     uint8_t compile_succeeded;
diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 5f9ff97..a9ea6d9 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -298,34 +298,41 @@ static void insn_f64converti64s(double *fp){
 static void insn_f64converti64u(double *fp){
   *fp = (double)(*(uint64_t *)fp);
 }
-// keep argument aligned, to avoid effect from PWART_STACK_FLAGS_AUTO_ALIGN.
-// (i32 delta, i32 memory_index,ref runtime_context)
-static void insn_memorygrow(void *fp){
-  void *sp=fp;
-  uint32_t delta = pwart_rstack_get_i32(&sp);
-  uint32_t index=pwart_rstack_get_i32(&sp); // memory index
-  RuntimeContext *m=pwart_rstack_get_ref(&sp);
+static int64_t memory_grow(RuntimeContext *m,uint32_t index,uint64_t delta){
   Memory *mem=*dynarr_get(m->memories,Memory *,index);
   uint32_t prev_pages = mem->pages;
   if (mem->fixed || prev_pages > mem->maximum || delta > mem->maximum - prev_pages) {
-    sp=fp;
-    pwart_rstack_put_i32(&sp,-1);
-    return;
+    return -1;
   }
   if(delta > 0){
     uint8_t *bytes = wa_realloc(mem->bytes, (size_t)(prev_pages + delta) * PAGE_SIZE);
     if(bytes == NULL){
-      sp=fp;
-      pwart_rstack_put_i32(&sp,-1);
-      return;
+      return -1;
     }
     memset(bytes + (size_t)prev_pages * PAGE_SIZE, 0, (size_t)delta * PAGE_SIZE);
     mem->bytes = bytes;
     mem->pages += delta;
   }
+  return prev_pages;
+}
+// keep argument aligned, to avoid effect from PWART_STACK_FLAGS_AUTO_ALIGN.
+// (i32 delta, i32 memory_index,ref runtime_context)
+static void insn_memorygrow(void *fp){
+  void *sp=fp;
+  uint32_t delta = pwart_rstack_get_i32(&sp);
+  uint32_t index=pwart_rstack_get_i32(&sp); // memory index
+  RuntimeContext *m=pwart_rstack_get_ref(&sp);
+  sp=fp;
+  pwart_rstack_put_i32(&sp,memory_grow(m,index,delta));
+}
+// (i64 delta, ref runtime_context, i32 memory_index)
+static void insn_memorygrow64(void *fp){
+  void *sp=fp;
+  uint64_t delta = pwart_rstack_get_i64(&sp);
+  RuntimeContext *m=pwart_rstack_get_ref(&sp);
+  uint32_t index=pwart_rstack_get_i32(&sp); // memory index
   sp=fp;
-  pwart_rstack_put_i32(&sp,prev_pages);
-  return;
+  pwart_rstack_put_i64(&sp,memory_grow(m,index,delta));
 }
 //get pwart version
 static void insn_version(uint32_t *fp){
@@ -462,6 +469,8 @@ static uint8_t types_f64_f64[] = {WVT_F64, WVT_F64, 0};
 
 static uint8_t types_i32_i32_ref[] = {WVT_I32, WVT_I32, WVT_REF,0};
 
+static uint8_t types_i64_ref_i32[] = {WVT_I64, WVT_REF, WVT_I32,0};
+
 static uint8_t types_ref_ref_i32[]={WVT_REF, WVT_REF,WVT_I32,0};
 
 static uint8_t types_ref_i32_i32_ref_i32[]={WVT_REF,WVT_I32,WVT_I32,WVT_REF,WVT_I32,0};
@@ -497,6 +506,7 @@ static Type func_type_i64_ret_f64 = {.params = types_i64, .results = types_f64};
 
 
 static Type func_type_i32_i32_ref_ret_i32 = {.params = types_i32_i32_ref, .results = types_i32};
+static Type func_type_i64_ref_i32_ret_i64 = {.params = types_i64_ref_i32, .results = types_i64};
 static Type func_type_ref_ref_i32_void={.params=types_ref_ref_i32,.results=types_void};
 static Type func_type_memoryfill={.params=types_ref_i32_i32_ref_i32,.results=types_void};
 
diff --git a/pwart/modparser.c b/pwart/modparser.c
index 0868a4a..aafbddd 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -42,6 +42,7 @@ static void parse_table_type(ModuleCompiler *m, uint32_t *pos,Table *table) {
 
 static void parse_memory_type(ModuleCompiler *m, uint32_t *pos,Memory *mem) {
   uint32_t flags = read_LEB(m->bytes, pos, 32);
+  *dynarr_push_type(&m->memories_is64,uint8_t) = (flags & 0x4) ? 1 : 0;
   uint32_t pages = read_LEB(m->bytes, pos, 32); // Initial size
   mem->initial = pages;
   mem->pages = pages;
@@ -108,6 +109,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     dynarr_init(&m->context->tables,sizeof(Table *));
     dynarr_init(&m->context->own_globals,sizeof(uint8_t));
     dynarr_init(&m->functions,sizeof(WasmFunction));
+    dynarr_init(&m->memories_is64,sizeof(uint8_t));
     m->context->resolver=m->import_resolver;
     m->context->start_function = 0xffffffff;
 
@@ -660,6 +662,9 @@ static char *free_module(ModuleCompiler *m){
     if(m->functions!=NULL){
         dynarr_free(&m->functions);
     }
+    if(m->memories_is64!=NULL){
+        dynarr_free(&m->memories_is64);
+    }
     if(m->types_pool.chunks!=NULL){
         pool_free(&m->types_pool);
     }
diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 680211d..70933a2 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -145,8 +145,18 @@ static void opgen_GenCurrentMemory(ModuleCompiler *m,uint32_t index) {
   sv->jit_type = SVT_GENERAL;
   sv->val.op = a;
   sv->val.opw = 0;
+  if(*dynarr_get(m->memories_is64,uint8_t,index)){
+    opgen_GenNumOp(m,WASMOPC_i64_extend_i32_u);
+  }
 }
 static void opgen_GenMemoryGrow(ModuleCompiler *m,uint32_t index) {
+  if(*dynarr_get(m->memories_is64,uint8_t,index)){
+    opgen_GenRefConst(m,m->context);
+    opgen_GenI32Const(m,index);
+    pwart_EmitCallFunc(m, &func_type_i64_ref_i32_ret_i64, SLJIT_IMM,
+                       (sljit_sw)&insn_memorygrow64);
+    return;
+  }
   opgen_GenI32Const(m,index);
   opgen_GenRefConst(m,m->context);
   pwart_EmitCallFunc(m, &func_type_i32_i32_ref_ret_i32, SLJIT_IMM,
@@ -451,6 +461,10 @@ static void opgen_GenMemoryFill(ModuleCompiler *m,int midx){
   sv2 = sv=m->stack+m->sp-2;    //n;
   sv = stackvalue_PushStackValueLike(m, sv2);
   sv2->jit_type=SVT_DUMMY;
+  if(sv->wasm_type==WVT_I64){
+    //XXX: 32bit count, see opgen_GenMemoryCopy
+    opgen_GenNumOp(m,0xa7);//i32.wrap_i64
+  }
 
   opgen_GenRefNull(m,0);
   opgen_GenI32Const(m,0);
-- 
2.43.0


From 9fa160c25286c347f98dedbe7db9dfc0b1d7dbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:53 +0000
Subject: [PATCH 22/43] fix: table.copy and table.fill make the entries of
 table 0 available by themselves

---
 pwart/wagen.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index 0a6533b..7341eeb 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -256,6 +256,20 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
     case 0xd2: // ref.func
       fidx = read_LEB(bytes, &m->pc, 32);
       break;
+    case 0xfc: // misc op
+      arg = read_LEB(bytes, &m->pc, 32);
+      if(arg==0x0e){ // table.copy
+        tidx = read_LEB(bytes, &m->pc, 32);
+        tabidx = read_LEB(bytes, &m->pc, 32);
+        if(tidx==0 || tabidx==0)m->table_entries_local = -2;
+      }else if(arg==0x11){ // table.fill
+        tabidx = read_LEB(bytes, &m->pc, 32);
+        if(tabidx==0)m->table_entries_local = -2;
+      }else{
+        m->pc = cur_pc;
+        wasm_SkipImmediates(bytes, &m->pc);
+      }
+      break;
     case 0x20: //local.get
       arg=read_LEB(bytes, &m->pc, 32);
       sv=dynarr_get(m->locals,StackValue,arg);
-- 
2.43.0


From bcceb21843a9a7dd43a04ef892d06e033b778db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:47 +0000
Subject: [PATCH 23/43] fix: table.size reads the size when it is executed

---
 pwart/opgen_misc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index e7c4cb3..f11fc16 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -48,9 +48,10 @@ static void opgen_GenTableSize(ModuleCompiler *m,int tabidx){
   r = pwart_GetFreeReg(m, RT_INTEGER, 0);
   Table *tab=*dynarr_get(m->context->tables,Table *,tabidx);
   sljit_emit_op1(m->jitc,SLJIT_MOV,r,0,SLJIT_IMM,(sljit_sw)&tab->size);
+  sljit_emit_op1(m->jitc,SLJIT_MOV32,r,0,SLJIT_MEM1(r),0);
   sv = stackvalue_Push(m, WVT_I32);
   sv->jit_type = SVT_GENERAL;
-  sv->val.op = SLJIT_MEM1(r);
+  sv->val.op = r;
   sv->val.opw = 0;
 }
 
-- 
2.43.0


From e8e12450212b77a808b1ca108cc64cea7d6cb7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 24/43] fix: read table, memory and misc sub-opcode immediates
 as unsigned LEB128

---
 pwart/opgen_misc.c | 19 +++++++++----------
 pwart/wagen.c      |  3 +--
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index f11fc16..9dabe69 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -99,24 +99,24 @@ static char *opgen_GenMiscOp_FC(ModuleCompiler *m,int opcode){
     opgen_GenNumOp(m,0xb1);
     break; 
     case 0x0a: //memory.copy
-    a=read_LEB_signed(m->bytes,&m->pc,32); //destination memory index
-    b=read_LEB_signed(m->bytes,&m->pc,32); //source memory index
+    a=read_LEB(m->bytes,&m->pc,32); //destination memory index
+    b=read_LEB(m->bytes,&m->pc,32); //source memory index
     opgen_GenMemoryCopy(m,a,b);
     break;
     case 0x0b: //memory.fill
-    a=read_LEB_signed(m->bytes,&m->pc,32); //destination memory index
+    a=read_LEB(m->bytes,&m->pc,32); //destination memory index
     opgen_GenMemoryFill(m,a);
     break;
     case 0x0e: //table.copy
     {
-      int32_t dtab=read_LEB_signed(m->bytes,&m->pc,32); //destination table index
-      int32_t stab=read_LEB_signed(m->bytes,&m->pc,32); //source table index
+      int32_t dtab=read_LEB(m->bytes,&m->pc,32); //destination table index
+      int32_t stab=read_LEB(m->bytes,&m->pc,32); //source table index
       opgen_GenTableCopy(m,dtab,stab);
     }
     break;
     case 0x0f: //table.grow
     //table are not allowed to grow
-    read_LEB_signed(m->bytes,&m->pc,32); //table index
+    read_LEB(m->bytes,&m->pc,32); //table index
     m->sp-=2;
     sv=stackvalue_Push(m,WVT_I32);
     sv->val.op=SLJIT_IMM;
@@ -124,13 +124,13 @@ static char *opgen_GenMiscOp_FC(ModuleCompiler *m,int opcode){
     break;
     case 0x10: //table.size
     {
-      uint32_t tabidx=read_LEB_signed(m->bytes,&m->pc,32);
+      uint32_t tabidx=read_LEB(m->bytes,&m->pc,32);
       opgen_GenTableSize(m,tabidx);
     }
     break;
     case 0x11:  //table.fill
     {
-      uint32_t tabidx=read_LEB_signed(m->bytes,&m->pc,32);
+      uint32_t tabidx=read_LEB(m->bytes,&m->pc,32);
       opgen_GenTableFill(m,tabidx);
     }
     break;
@@ -157,8 +157,7 @@ static char *opgen_GenMiscOp(ModuleCompiler *m, int opcode) {
     opgen_GenRefFunc(m, fidx);
     break;
   case 0xfc: // misc prefix
-    opcode2=m->bytes[m->pc];
-    m->pc++;
+    opcode2=read_LEB(bytes, &m->pc, 32);
     ReturnIfErr(opgen_GenMiscOp_FC(m,opcode2));
     break;
   default:
diff --git a/pwart/wagen.c b/pwart/wagen.c
index 7341eeb..680bed4 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -87,8 +87,7 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     break;
   case 0xfc: //misc op.
   {
-    int opc2=bytes[*pos];
-    *pos = *pos + 1;
+    int opc2=read_LEB(bytes,pos,32);
     switch(opc2){
       case 0xa:
       case 0xe:
-- 
2.43.0


From 16389a6c45a583f7940e285bef616baa4fb17937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 25/43] fix: functions with more than 255 locals abort the
 process (pool_alloc)

---
 pwart/util.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pwart/util.c b/pwart/util.c
index a9801cc..fd60a15 100644
--- a/pwart/util.c
+++ b/pwart/util.c
@@ -202,11 +202,16 @@ static void pool_init(struct pool *p,int chunk_size){
     p->chunk_size=chunk_size;
 }
 
-//alloc size must less than chunk_size
 static char *pool_alloc(struct pool *p,int size){
-    wa_assert(size<=p->chunk_size,"pool_alloc require size<chunk_size");
     char *r;
-    if(p->used+size<=p->chunk_size){
+    if(size>p->chunk_size){
+        //too big to share a chunk
+        r=wa_calloc(size);
+        *dynarr_push_type(&p->chunks,char *)=r;
+        //no space left in current chunk
+        p->cur=p->chunks->len-1;
+        p->used=p->chunk_size;
+    }else if(p->used+size<=p->chunk_size){
         r=*dynarr_get(p->chunks,char *,p->cur)+p->used;
         p->used+=size;
     }else{
-- 
2.43.0


From afc701169fb8044d5e6edbbd0ab1d2f2af6f14ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 26/43] fix: custom sections with long or short contents reject
 or over-read a valid module

---
 pwart/modparser.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index aafbddd..7280047 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -131,16 +131,12 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             wa_debug("Parsing Custom(0) section (length: 0x%x)\n", slen);
             uint32_t end_pos = pos+slen;
             char *name = m->import_name_buffer;
-            if(read_string(bytes, &pos, 512,name)>500){
-                return "section name too long,must less than 500.";
-            }
+            name[0]='\0'; // a name that does not fit is of no interest
+            read_string(bytes, &pos, 512,name);
             wa_debug("  Section name '%s'\n", name);
             if (strncmp(name, "dylink", 7) == 0) {
                 // https://github.com/WebAssembly/tool-conventions/blob/master/DynamicLinking.md
                 // TODO: make use of these
-                uint32_t memorysize = read_LEB(bytes, &pos, 32);
-                uint32_t tablesize = read_LEB(bytes, &pos, 32);
-                (void)memorysize; (void)tablesize;
             } else {
                 wa_debug("Ignoring unknown custom section '%s'\n", name);
             }
-- 
2.43.0


From e4a97d7b2a76c6f7ff785c566a9de677b018938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 27/43] fix: freeing a compiler whose code section failed frees
 uninitialised pointers

---
 pwart/modparser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 7280047..57b2e6a 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -505,7 +505,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             uint32_t body_count = read_LEB(bytes, &pos, 32);
             //we must allocate space for function entries here, for code generator.
             m->context->funcentries_count=m->import_count+body_count;
-            m->context->funcentries=wa_malloc(m->context->funcentries_count*sizeof(WasmFunctionEntry));
+            m->context->funcentries=wa_calloc(m->context->funcentries_count*sizeof(WasmFunctionEntry));
+            m->context->import_funcentries_count=m->import_count;
             for (uint32_t b=0; b<body_count; b++) {
                 wa_debug("generate code for function %d\n",b);
                 WasmFunction *function = dynarr_get(m->functions,WasmFunction,m->import_count+b);
@@ -539,6 +540,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 }
                 m->pc=pos;
                 ReturnIfErr(pwart_EmitFunction(m,function));
+                m->context->funcentries[m->import_count+b]=function->func_ptr;
                 pos=m->pc;
                 wa_assert(bytes[pos-1] == 0x0b,
                        "Code section did not end with 0x0b\n");
@@ -632,7 +634,7 @@ static int free_runtimectx(RuntimeContext *rc){
     if(rc->funcentries!=NULL){
         //only free code generate by module self.
         for(i=rc->import_funcentries_count;i<rc->funcentries_count;i++){
-            if(rc->funcentries!=NULL)
+            if(rc->funcentries[i]!=NULL)
                 pwart_FreeFunction(rc->funcentries[i]);
         }
         wa_free(rc->funcentries);
-- 
2.43.0


From e458f06ced68990aab77e8bdb52b139c622107d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 28/43] fix: namespace keeps pointers to the caller's module
 names and leaks its module list and failed compilers

---
 pwart/namespace.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pwart/namespace.c b/pwart/namespace.c
index 06c8389..6c85b60 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -74,7 +74,9 @@ extern char *pwart_namespace_delete(pwart_namespace ns){
                 ReturnIfErr(pwart_free_module_state(m->val.wasm));
                 break;
         }
+        wa_free((void *)m->name);
     }
+    dynarr_free(&n->mods);
     if(n->nsmeta!=NULL){
         wa_free(n->nsmeta);
     }
@@ -116,13 +118,19 @@ extern char *pwart_namespace_remove_module(pwart_namespace ns,const char *name){
 extern char *pwart_namespace_define_module(pwart_namespace ns,struct pwart_named_module *mod){
     Namespace *n=(Namespace *)ns;
     struct pwart_named_module *m;
+    char *name;
     m=pwart_namespace_find_module(ns,mod->name);
     if(m!=NULL){
         pwart_namespace_remove_module(ns,m->name);
+        name=(char *)m->name;
     }else{
         m=dynarr_push_type(&n->mods,struct pwart_named_module);
+        name=wa_malloc(strlen(mod->name)+1);
+        strcpy(name,mod->name);
     }
     memmove(m,mod,sizeof(struct pwart_named_module));
+    //caller may not hold the name
+    m->name=name;
     switch(m->type){
         case PWART_MODULE_TYPE_HOST_MODULE:
         m->val.host->namespace2=ns;
@@ -150,6 +158,7 @@ extern pwart_module_state *pwart_namespace_define_wasm_module(pwart_namespace ns
         state=pwart_get_module_state(m);
     }else{
         if(err_msg!=NULL)*err_msg=err;
+        pwart_free_module_compiler(m);
         return NULL;
     }
     pwart_free_module_compiler(m);
-- 
2.43.0


From ab7f13bb65fb2869aa37b1ab05354080a24fc53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:37 +0000
Subject: [PATCH 29/43] fix: long constant expressions overflow the evaluation
 stack

---
 pwart/extfunc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index a9ea6d9..e2896d1 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -513,11 +513,15 @@ static Type func_type_memoryfill={.params=types_ref_i32_i32_ref_i32,.results=typ
 static char *waexpr_run_const(ModuleCompiler *m, void *result) {
   int opcode=0;
   //const stack
-  uint64_t stack[16];
+  uint64_t stack[32];
   void *sp=&stack;
   int eof=0;
   while(m->pc<=m->byte_count && !eof){
     opcode=m->bytes[m->pc];
+    //only end and binary operators don't push a new value.
+    if(opcode!=WASMOPC_end && sp+8>(void *)(stack+32) && (opcode<WASMOPC_i32_add || opcode>WASMOPC_i64_mul)){
+      return "const expr too complex, should keep less than 256 byte of operands.";
+    }
     m->pc++;
     switch (opcode) {
       case 0x41: // i32.const
-- 
2.43.0


From 14670ca2dada0ef99f1a59909bd8ce618da5d425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 30/43] fix: x86: destination register used in the address of
 the second operand

emit_cum_binary and emit_non_cum_binary overwrote the address before
the operand was read; emit_mul computed into a temporary and never
moved the result.
---
 sljit/sljit_src/sljitNativeX86_common.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 76e9a76..2c3f82c 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2109,7 +2109,7 @@ static sljit_s32 emit_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst)) {
+	if (FAST_IS_REG(dst) && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
@@ -2182,7 +2182,7 @@ static sljit_s32 emit_non_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst) && dst != src2) {
+	if (FAST_IS_REG(dst) && dst != src2 && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
@@ -2311,7 +2311,7 @@ static sljit_s32 emit_mul(struct sljit_compiler *compiler,
 		FAIL_IF(emit_groupf(compiler, IMUL_r_rm, dst_r, src2, src2w));
 	}
 
-	if (dst & SLJIT_MEM)
+	if (dst != dst_r)
 		EMIT_MOV(compiler, dst, dstw, TMP_REG1, 0);
 
 	return SLJIT_SUCCESS;
-- 
2.43.0


From f7b3e5c13b13d78f0716b27fb22d0c670285f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 31/43] fix: x86: shifts whose count or source lives in rcx or
 needs a temporary

sljit_emit_shift_into left the destination unset for an immediate count
of zero, lost a source in rcx when the destination holds the count, and
overwrote the address of the count; emit_shift lost rcx when the address
of the count needs TMP_REG2.
---
 sljit/sljit_src/sljitNativeX86_common.c | 39 +++++++++++++++++++------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 2c3f82c..f01d1f1 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2617,12 +2617,25 @@ static sljit_s32 emit_shift(struct sljit_compiler *compiler,
 	EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_PREF_SHIFT_REG, 0);
 #else /* !SLJIT_CONFIG_X86_32 */
 	mode32 = compiler->mode32;
-	compiler->mode32 = 0;
-	EMIT_MOV(compiler, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
-	compiler->mode32 = mode32;
+	if (src2 & SLJIT_MEM) {
+		/* TMP_REG2 may be needed for computing the address. */
+		EMIT_MOV(compiler, TMP_REG2, 0, src2, src2w);
+		compiler->mode32 = 0;
+		inst = emit_x86_instruction(compiler, 1, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+		FAIL_IF(!inst);
+		*inst = XCHG_r_rm;
+		compiler->mode32 = mode32;
+		src2 = SLJIT_PREF_SHIFT_REG;
+		src2w = 0;
+	} else {
+		compiler->mode32 = 0;
+		EMIT_MOV(compiler, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+		compiler->mode32 = mode32;
+	}
 #endif /* SLJIT_CONFIG_X86_32 */
 
-	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
+	if (src2 != SLJIT_PREF_SHIFT_REG)
+		EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 	inst = emit_x86_instruction(compiler, 1 | EX86_SHIFT_INS, SLJIT_PREF_SHIFT_REG, 0, TMP_REG1, 0);
 	FAIL_IF(!inst);
 	inst[1] |= mode;
@@ -2860,9 +2873,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 #else /* !SLJIT_CONFIG_X86_32 */
 		src3w &= (op & SLJIT_32) ? 0x1f : 0x3f;
 #endif /* SLJIT_CONFIG_X86_32 */
-
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
 	}
 
 	is_left = (GET_OPCODE(op) == SLJIT_SHL || GET_OPCODE(op) == SLJIT_MSHL);
@@ -2871,6 +2881,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	CHECK_EXTRA_REGS(src1_reg, src1w, (void)0);
 	CHECK_EXTRA_REGS(src2_reg, src2w, (void)0);
 
+	if (src3 == SLJIT_IMM && src3w == 0)
+		return emit_mov(compiler, dst_reg, dstw, src1_reg, src1w);
+
 	if (is_rotate)
 		return emit_shift(compiler, is_left ? ROL : ROR, dst_reg, dstw, src1_reg, src1w, src3, src3w);
 
@@ -2921,7 +2934,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		move_src1 = 0;
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
 		if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
@@ -2945,7 +2958,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 				restore_sp4 = src1_reg;
 			}
 		} else if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
@@ -2975,6 +2988,14 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		}
 
 		if (move_src1) {
+			/* The original value of ecx has been saved. */
+			if (src1_reg == SLJIT_PREF_SHIFT_REG && restore_ecx) {
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+				src1_reg = TMP_REG1;
+#else /* !SLJIT_CONFIG_X86_64 */
+				src1_reg = (restore_ecx == 1) ? TMP_REG1 : SLJIT_MEM1(SLJIT_SP);
+#endif /* SLJIT_CONFIG_X86_64 */
+			}
 			EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 			src1_reg = dst_reg;
 			src1w = 0;
-- 
2.43.0


From 6ef56fc472b1f0a6c936986755ad707d2d792dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 32/43] fix: sljit x86-64: op_addr measures the distance from
 the end of the lea

generate_mov_addr_code shortens the load of an address to a lea, which ends
three bytes before the end of the full mov; the range check used the latter.
---
 sljit/sljit_src/sljitNativeX86_64.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitNativeX86_64.c b/sljit/sljit_src/sljitNativeX86_64.c
index 8737d68..9216c25 100644
--- a/sljit/sljit_src/sljitNativeX86_64.c
+++ b/sljit/sljit_src/sljitNativeX86_64.c
@@ -408,7 +408,8 @@ static sljit_u8* generate_mov_addr_code(struct sljit_jump *jump, sljit_u8 *code_
 		addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(code, executable_offset) + jump->u.label->size;
 
 	if (addr > 0xffffffffl) {
-		diff = (sljit_sw)addr - (sljit_sw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
+		/* Relative to the end of the lea, which is three bytes shorter. */
+		diff = (sljit_sw)addr - (sljit_sw)SLJIT_ADD_EXEC_OFFSET(code_ptr - (SSIZE_OF(s32) - 1), executable_offset);
 
 		if (diff <= HALFWORD_MAX && diff >= HALFWORD_MIN) {
 			SLJIT_ASSERT(((jump->flags >> JUMP_SIZE_SHIFT) & 0x1f) >= 7);
-- 
2.43.0


From 090e950cd31fee729555204d10183af5350c84d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 33/43] fix: sljit x86-64: the limits of a near jump are those
 of its two lengths

An unconditional jump is five bytes long and a conditional one six: a forward
distance is largest from the shorter one, a backward one from the longer.
---
 sljit/sljit_src/sljitNativeX86_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index f01d1f1..34bd1dd 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -692,7 +692,7 @@ static sljit_u8* detect_near_jump_type(struct sljit_jump *jump, sljit_u8 *code_p
 		label_addr = jump->u.target - (sljit_uw)executable_offset;
 
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
-	if ((sljit_sw)(label_addr - (jump_addr + 6)) > HALFWORD_MAX || (sljit_sw)(label_addr - (jump_addr + 5)) < HALFWORD_MIN)
+	if ((sljit_sw)(label_addr - (jump_addr + 5)) > HALFWORD_MAX || (sljit_sw)(label_addr - (jump_addr + 6)) < HALFWORD_MIN)
 		return detect_far_jump_type(jump, code_ptr);
 #endif /* SLJIT_CONFIG_X86_64 */
 
-- 
2.43.0


From 2f581b4aafa5ba93d50668527346f3215fab9774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 34/43] fix: sljit x86-64: op_addr may load any 32 bit unsigned
 address

The address is loaded by a zero extending mov, so the assertion has to accept
values above 0x7fffffff as well.
---
 sljit/sljit_src/sljitNativeX86_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 34bd1dd..d90524a 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -747,7 +747,7 @@ static void generate_jump_or_mov_addr(struct sljit_jump *jump, sljit_sw executab
 			addr -= (sljit_uw)SLJIT_ADD_EXEC_OFFSET((sljit_u8*)jump_addr, executable_offset);
 			SLJIT_ASSERT((sljit_sw)addr <= HALFWORD_MAX && (sljit_sw)addr >= HALFWORD_MIN);
 		} else {
-			SLJIT_ASSERT(addr <= HALFWORD_MAX);
+			SLJIT_ASSERT(addr <= 0xffffffffl);
 		}
 		sljit_unaligned_store_s32((void*)(jump_addr - sizeof(sljit_s32)), (sljit_s32)addr);
 #endif /* !SLJIT_CONFIG_X86_32 */
-- 
2.43.0


From 1a7de795eb2d101996f0a697687a0e731e5392ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:40 +0000
Subject: [PATCH 35/43] fix: regex: characters above 0x7f in a pattern never
 match

---
 sljit/regex_src/regexJIT.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 3f95469..945a8c1 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -662,11 +662,18 @@ static int parse_iterator(const regex_char_t *regex_string, int length, struct s
 	return (int)(regex_string - base_from);
 }
 
+/* The characters of the input are zero extended by the compiled code, plain char may be signed. */
+#ifdef REGEX_USE_8BIT_CHARS
+#define CHAR_VALUE(chr)	((sljit_u8)(chr))
+#else /* !REGEX_USE_8BIT_CHARS */
+#define CHAR_VALUE(chr)	(chr)
+#endif /* REGEX_USE_8BIT_CHARS */
+
 static int parse_char_range(const regex_char_t *regex_string, int length, struct compiler_common *compiler_common)
 {
 	struct stack* stack = &compiler_common->stack;
 	const regex_char_t *base_from = regex_string;
-	regex_char_t left_char, right_char, tmp_char;
+	int left_char, right_char, tmp_char;
 
 	length--;
 	regex_string++;
@@ -708,13 +715,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			break;
 
 		if (*regex_string != '\\')
-			left_char = *regex_string;
+			left_char = CHAR_VALUE(*regex_string);
 		else {
 			regex_string++;
 			length--;
 			if (length == 0)
 				return -2;
-			left_char = *regex_string;
+			left_char = CHAR_VALUE(*regex_string);
 		}
 		regex_string++;
 		length--;
@@ -725,13 +732,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			length--;
 
 			if (*regex_string != '\\')
-				right_char = *regex_string;
+				right_char = CHAR_VALUE(*regex_string);
 			else {
 				regex_string++;
 				length--;
 				if (length == 0)
 					return -2;
-				right_char = *regex_string;
+				right_char = CHAR_VALUE(*regex_string);
 			}
 			regex_string++;
 			length--;
@@ -801,7 +808,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 			regex_string++;
 			if (length == 0)
 				return REGEX_INVALID_REGEX;
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, CHAR_VALUE(*regex_string)))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
@@ -901,7 +908,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 				compiler_common->flags |= REGEX_MATCH_END;
 				break;
 			}
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, CHAR_VALUE(*regex_string)))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
-- 
2.43.0


From 612eedbc06de66e24f3e29ffe8b8210b05343545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:40 +0000
Subject: [PATCH 36/43] fix: regex: an anchored pattern matched when more
 characters follow its end

---
 sljit/regex_src/regexJIT.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 945a8c1..d4ba2b3 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2176,6 +2176,11 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 			EMIT_CMP(jump, SLJIT_NOT_EQUAL, R_NEXT_HEAD, 0, SLJIT_IMM, 0);
 			sljit_set_label(jump, start_label);
 		}
+		else if (compiler_common.flags & REGEX_MATCH_END) {
+			/* The end is reached, but it is a match only if no more characters follow. */
+			EMIT_CMP(jump, SLJIT_NOT_EQUAL, SLJIT_MEM1(R_CURR_STATE), TERM_REL_OFFSET_OF(0, 1), SLJIT_IMM, -1);
+			sljit_set_label(jump, start_label);
+		}
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(R_REGEX_MATCH), SLJIT_OFFSETOF(struct regex_match, fast_quit), SLJIT_IMM, 1);
 	}
 
-- 
2.43.0


From bb4daa16b26e5c556db3c3993610dcfb8089e000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:40 +0000
Subject: [PATCH 37/43] fix: regex: the line searches apply to all alternatives
 of a pattern

---
 sljit/regex_src/regexJIT.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index d4ba2b3..a53e972 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -801,6 +801,10 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 		/* Begin intentionally kept as 1. */
 	}
 
+	/* The new-line searches apply to all alternatives. */
+	if ((compiler_common->flags & REGEX_NEWLINE) && stack_push(stack, type_open_br, 0))
+		return REGEX_MEMORY_ERROR;
+
 	while (length > 0) {
 		switch (*regex_string) {
 		case '\\' :
@@ -921,6 +925,9 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 	if (depth != 0)
 		return REGEX_INVALID_REGEX;
 
+	if ((compiler_common->flags & REGEX_NEWLINE) && stack_push(stack, type_close_br, 0))
+		return REGEX_MEMORY_ERROR;
+
 	if ((compiler_common->flags & (REGEX_MATCH_END | REGEX_NEWLINE)) == (REGEX_MATCH_END | REGEX_NEWLINE)) {
 		/* Replace REGEX_MATCH_END flag to REGEX_FAKE_MATCH_END */
 		compiler_common->flags &= ~REGEX_MATCH_END;
-- 
2.43.0


From 20e784db4cec88b235cf5ab1b871dedcbe4f7df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:40 +0000
Subject: [PATCH 38/43] fix: regex: no fast forward over an empty match at the
 end of a line

---
 sljit/regex_src/regexJIT.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index a53e972..97b5e0c 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -1961,6 +1961,9 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 				SLJIT_ASSERT(compiler_common.dfa_transitions[ind].type != type_end);
 				if (compiler_common.dfa_transitions[ind].type == type_rng_start && compiler_common.dfa_transitions[ind].value)
 					suggest_fast_forward = 0;
+				/* An empty match at the end of a line or of the input. */
+				if (compiler_common.dfa_transitions[ind].type == type_newline && compiler_common.dfa_transitions[ind].value)
+					suggest_fast_forward = 0;
 			}
 			compiler_common.search_states[ind].value = -1;
 		}
-- 
2.43.0


From b9f71e42e2bdff0f260e6d5ee4d6463f4ba11c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:40 +0000
Subject: [PATCH 39/43] fix: regex: a match which reaches the end of the input
 may start before an earlier line end

---
 sljit/regex_src/regexJIT.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 97b5e0c..443d960 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2463,12 +2463,14 @@ int regex_get_result(struct regex_match *match, int *end, int *id)
 
 	if (flags & REGEX_FAKE_MATCH_END) {
 		SLJIT_ASSERT(!(flags & (REGEX_MATCH_BEGIN | REGEX_MATCH_END)));
-		if (match->best_begin != -1)
-			return (int)match->best_begin;
-
 		no_states = match->machine->no_states;
 		if (match->current[no_states + 1] == -1)
-			return -1;
+			return (int)match->best_begin;
+		/* A match which ends at the end of the input is preferred to those which are
+		   found at the end of an earlier line if it starts before them. */
+		if (match->best_begin != -1 && (match->current[no_states + 2] > match->best_begin
+				|| (match->current[no_states + 2] == match->best_begin && (flags & REGEX_MATCH_NON_GREEDY))))
+			return (int)match->best_begin;
 		if (flags & REGEX_ID_CHECK)
 			*id = (int)match->current[no_states + 3];
 		if (!(flags & REGEX_FAKE_MATCH_BEGIN))
-- 
2.43.0


From daf1caed44079162d2a322a4d9df474075a46552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:17 +0000
Subject: [PATCH 40/43] fix: libffi binding: closures were allocated with 4
 bytes

---
 pwart_syslib/libffi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart_syslib/libffi.c b/pwart_syslib/libffi.c
index a80c35c..86e6d7c 100644
--- a/pwart_syslib/libffi.c
+++ b/pwart_syslib/libffi.c
@@ -115,7 +115,7 @@ static void wasm__ffi_closure_alloc(void *fp){
     void *sp=fp;
     void *code=NULL;
     sp=fp;
-    void *closure=ffi_closure_alloc(sizeof(FFI_CLOSURES),&code);
+    void *closure=ffi_closure_alloc(sizeof(ffi_closure),&code);
     pwart_rstack_put_ref(&sp,closure);
     pwart_rstack_put_ref(&sp,code);
 }
@@ -182,7 +182,7 @@ static void wasm__ffix_new_c_callback(void *fp){
     void **userdata2=wa_malloc(sizeof(void *)*2);
     userdata2[0]=fn;
     userdata2[1]=user_data;
-    void *closure=ffi_closure_alloc(sizeof(FFI_CLOSURES),&code);
+    void *closure=ffi_closure_alloc(sizeof(ffi_closure),&code);
     ffi_status stat=ffi_prep_closure_loc(closure,cif,(void *)&wasmcb__c2wasm_adapter,userdata2,code);
     pwart_rstack_put_ref(&sp,closure); 
     pwart_rstack_put_ref(&sp,code); 
-- 
2.43.0


From 6b5bc4c0652631e8080d33c89b546bdc0ffe0d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:17 +0000
Subject: [PATCH 41/43] fix: libffi binding: a callback freed its data in the
 first call

---
 pwart_syslib/libffi.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pwart_syslib/libffi.c b/pwart_syslib/libffi.c
index 86e6d7c..e653abb 100644
--- a/pwart_syslib/libffi.c
+++ b/pwart_syslib/libffi.c
@@ -116,6 +116,7 @@ static void wasm__ffi_closure_alloc(void *fp){
     void *code=NULL;
     sp=fp;
     void *closure=ffi_closure_alloc(sizeof(ffi_closure),&code);
+    if(closure!=NULL)((ffi_closure *)closure)->user_data=NULL;
     pwart_rstack_put_ref(&sp,closure);
     pwart_rstack_put_ref(&sp,code);
 }
@@ -123,12 +124,12 @@ static void wasm__ffi_closure_free(void *fp){
     void *sp=fp;
     _wargref(closure)
     sp=fp;
+    wa_free(((ffi_closure *)closure)->user_data);
     ffi_closure_free(closure);
 }
 static void wasmcb__ffi_closurecb(ffi_cif* cif,void *ret, void* args[],void **userdata2){
     void *fn2=userdata2[0];
     void *user_data=userdata2[1];
-    wa_free(userdata2);
     void *stackbase=pwart_allocate_stack(4096);
     void *sp=stackbase;
     pwart_rstack_put_ref(&sp,cif);
@@ -156,7 +157,6 @@ static void wasm__ffi_prep_closure_loc(void *fp){
 static void wasmcb__c2wasm_adapter(ffi_cif* cif,void *ret, void* args[],void **userdata2){
     void *wasmfn=userdata2[0];
     void *user_data=userdata2[1];
-    wa_free(userdata2);
     void *stackbase=pwart_allocate_stack(4096);
     void *sp=stackbase;
     for(int i=0;i<cif->nargs;i++){
@@ -192,6 +192,7 @@ static void wasm__ffix_del_c_callback(void *fp){
     void *sp=fp;
     _wargref(closure)
     sp=fp;
+    wa_free(((ffi_closure *)closure)->user_data);
     ffi_closure_free(closure);
 }
 
-- 
2.43.0


From c7e2e6f9f5656f007ad25e1ccd2801d6e279bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:17 +0000
Subject: [PATCH 42/43] fix: libuv binding: a thread ran on its handle instead
 of its stack

---
 pwart_syslib/libuv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart_syslib/libuv.c b/pwart_syslib/libuv.c
index 82901af..69ebffc 100644
--- a/pwart_syslib/libuv.c
+++ b/pwart_syslib/libuv.c
@@ -53,7 +53,7 @@ static void wasm__uv_wasmthreadentry(void *awt){
     wt->stack=pwart_allocate_stack(64*1024);
     void *sp=wt->stack;
     pwart_rstack_put_i64(&sp,wt->arg);
-    pwart_call_wasm_function(wt->wasmentry,wt);
+    pwart_call_wasm_function(wt->wasmentry,wt->stack);
     pwart_free_stack(wt->stack);
     wa_free(wt);
 }
-- 
2.43.0


From 7b9824c485ba726046bfdb8b17753482f172537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:17 +0000
Subject: [PATCH 43/43] fix: libuv binding: trylock and timedwait wrote their
 result behind their arguments

---
 pwart_syslib/libuv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pwart_syslib/libuv.c b/pwart_syslib/libuv.c
index 69ebffc..e25ac42 100644
--- a/pwart_syslib/libuv.c
+++ b/pwart_syslib/libuv.c
@@ -94,6 +94,7 @@ static void wasm__uv_mutex_trylock(void *fp){
     void *sp=fp;
     _wargref(mut)
     int err=uv_mutex_trylock(mut);
+    sp=fp;
     pwart_rstack_put_i32(&sp,err);
 }
 
@@ -138,6 +139,7 @@ static void wasm__uv_cond_timedwait(void *fp){
     _wargref(mut)
     _wargi64(timeout)
     int r=uv_cond_timedwait(cond,mut,timeout);
+    sp=fp;
     pwart_rstack_put_i32(&sp,r);
 }
 
-- 
2.43.0

