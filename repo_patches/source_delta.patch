From 0174621923ea2b9bb99f8e88a24d89ea6ccb88fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 01/43] fix: x86: do not clobber the base/index of a memory
 operand in binary operations

When the second source operand of a binary operation is a memory operand
whose address depends on the destination register, the first source must
not be loaded into the destination before the second one is read.
---
 sljit_src/sljitNativeX86_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 9a6a37e..3ed33f3 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2109,7 +2109,7 @@ static sljit_s32 emit_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst)) {
+	if (FAST_IS_REG(dst) && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
@@ -2182,7 +2182,7 @@ static sljit_s32 emit_non_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst) && dst != src2) {
+	if (FAST_IS_REG(dst) && dst != src2 && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
-- 
2.43.0


From 8e9ca78d9772084743db5271b12d2b11b961ad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 02/43] fix: x86-64: 32 bit absolute addresses are zero
 extended

The short form of the move address instruction is used for any address
below 4 GB, but an assertion rejected those above 2 GB.
---
 sljit_src/sljitNativeX86_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 3ed33f3..8c04cc1 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -747,7 +747,7 @@ static void generate_jump_or_mov_addr(struct sljit_jump *jump, sljit_sw executab
 			addr -= (sljit_uw)SLJIT_ADD_EXEC_OFFSET((sljit_u8*)jump_addr, executable_offset);
 			SLJIT_ASSERT((sljit_sw)addr <= HALFWORD_MAX && (sljit_sw)addr >= HALFWORD_MIN);
 		} else {
-			SLJIT_ASSERT(addr <= HALFWORD_MAX);
+			SLJIT_ASSERT(addr <= 0xffffffffl);
 		}
 		sljit_unaligned_store_s32((void*)(jump_addr - sizeof(sljit_s32)), (sljit_s32)addr);
 #endif /* !SLJIT_CONFIG_X86_32 */
-- 
2.43.0


From 6bb089451b51cf33283f63997c6b82dd1321e6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 03/43] fix: serialize the vector and float register counts

After deserialization the code generation can be continued, but the
vector register counts and the unmerged float register counts were not
restored: float and vector operations were rejected by the argument
checks, and on platforms with separate vector registers the saved vector
registers were not restored by the return instructions.
---
 sljit_src/sljitSerialize.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitSerialize.c b/sljit_src/sljitSerialize.c
index 042cc18..ddb105b 100644
--- a/sljit_src/sljitSerialize.c
+++ b/sljit_src/sljitSerialize.c
@@ -65,6 +65,8 @@ struct sljit_serialized_compiler {
 	sljit_s32 saveds;
 	sljit_s32 fscratches;
 	sljit_s32 fsaveds;
+	sljit_s32 vscratches;
+	sljit_s32 vsaveds;
 	sljit_s32 local_size;
 	sljit_uw size;
 
@@ -97,6 +99,10 @@ struct sljit_serialized_debug_info {
 	sljit_sw last_flags;
 	sljit_s32 last_return;
 	sljit_s32 logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	sljit_s32 real_fscratches;
+	sljit_s32 real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 };
 
 struct sljit_serialized_label {
@@ -124,7 +130,7 @@ struct sljit_serialized_const {
 #else /* !SLJIT_LITTLE_ENDIAN */
 #define SLJIT_SERIALIZE_SIGNATURE 0x544a4c53
 #endif /* SLJIT_LITTLE_ENDIAN */
-#define SLJIT_SERIALIZE_VERSION 1
+#define SLJIT_SERIALIZE_VERSION 2
 
 SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compiler *compiler,
 	sljit_s32 options, sljit_uw *size)
@@ -212,6 +218,16 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compile
 	serialized_compiler->saveds = compiler->saveds;
 	serialized_compiler->fscratches = compiler->fscratches;
 	serialized_compiler->fsaveds = compiler->fsaveds;
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS) \
+		|| (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS) \
+		|| (defined SLJIT_DEBUG && SLJIT_DEBUG) \
+		|| (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
+	serialized_compiler->vscratches = compiler->vscratches;
+	serialized_compiler->vsaveds = compiler->vsaveds;
+#else /* !(SLJIT_SEPARATE_VECTOR_REGISTERS || SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG || SLJIT_VERBOSE) */
+	serialized_compiler->vscratches = -1;
+	serialized_compiler->vsaveds = -1;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS || SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG || SLJIT_VERBOSE */
 	serialized_compiler->local_size = compiler->local_size;
 	serialized_compiler->size = compiler->size;
 
@@ -309,6 +325,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compile
 		serialized_debug_info->last_flags = compiler->last_flags;
 		serialized_debug_info->last_return = compiler->last_return;
 		serialized_debug_info->logical_local_size = compiler->logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+		serialized_debug_info->real_fscratches = compiler->real_fscratches;
+		serialized_debug_info->real_fsaveds = compiler->real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 		serialized_compiler->cpu_type |= SLJIT_SERIALIZE_DEBUG;
 #if (defined SLJIT_DEBUG && SLJIT_DEBUG)
 		ptr += sizeof(struct sljit_serialized_debug_info);
@@ -366,6 +386,13 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->saveds = serialized_compiler->saveds;
 	compiler->fscratches = serialized_compiler->fscratches;
 	compiler->fsaveds = serialized_compiler->fsaveds;
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS) \
+		|| (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS) \
+		|| (defined SLJIT_DEBUG && SLJIT_DEBUG) \
+		|| (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
+	compiler->vscratches = serialized_compiler->vscratches;
+	compiler->vsaveds = serialized_compiler->vsaveds;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS || SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG || SLJIT_VERBOSE */
 	compiler->local_size = serialized_compiler->local_size;
 	compiler->size = serialized_compiler->size;
 
@@ -573,6 +600,10 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->last_flags = (sljit_s32)serialized_debug_info->last_flags;
 	compiler->last_return = serialized_debug_info->last_return;
 	compiler->logical_local_size = serialized_debug_info->logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	compiler->real_fscratches = serialized_debug_info->real_fscratches;
+	compiler->real_fsaveds = serialized_debug_info->real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 #endif /* SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG */
 
 	return compiler;
-- 
2.43.0


From c717588e759436b73d6e93452ff0e89b87e50c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 04/43] fix: print the alignment suffix of memory operations to
 the verbose stream

The .unal, .al16 and .al32 suffixes were printed to the standard output
regardless of the stream passed to sljit_compiler_verbose.
---
 sljit_src/sljitLir.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 14d1e95..7675808 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2839,11 +2839,11 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_mem(struct sljit_compiler
 				!(type & SLJIT_32) ? "" : "32", op1_types[(type & 0xff) - SLJIT_OP1_BASE]);
 
 		if (type & SLJIT_MEM_UNALIGNED)
-			printf(".unal");
+			fprintf(compiler->verbose, ".unal");
 		else if (type & SLJIT_MEM_ALIGNED_16)
-			printf(".al16");
+			fprintf(compiler->verbose, ".al16");
 		else if (type & SLJIT_MEM_ALIGNED_32)
-			printf(".al32");
+			fprintf(compiler->verbose, ".al32");
 
 		if (reg & REG_PAIR_MASK) {
 			fprintf(compiler->verbose, " {");
@@ -2936,11 +2936,11 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fmem(struct sljit_compile
 			!(type & SLJIT_32) ? "f64" : "f32");
 
 		if (type & SLJIT_MEM_UNALIGNED)
-			printf(".unal");
+			fprintf(compiler->verbose, ".unal");
 		else if (type & SLJIT_MEM_ALIGNED_16)
-			printf(".al16");
+			fprintf(compiler->verbose, ".al16");
 		else if (type & SLJIT_MEM_ALIGNED_32)
-			printf(".al32");
+			fprintf(compiler->verbose, ".al32");
 
 		fprintf(compiler->verbose, " ");
 		sljit_verbose_freg(compiler, freg);
-- 
2.43.0


From c1782f12eb0688e94fe3e1bb9f8170a5e52692a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 05/43] fix: regex: clear the end state when a match is reset

regex_reset_match() left the flag of the end state set, so a match which
was reset after its whole input matched still reported a result.
---
 regex_src/regexJIT.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 3f95469..89eb670 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2416,6 +2416,8 @@ void regex_reset_match(struct regex_match *match)
 			current_ptr[ind] = -1;
 		} while (current != 0);
 	}
+	/* The end state is never a member of the list above. */
+	match->current[1] = -1;
 	match->head = machine->u.call_init(match->current, match);
 }
 
-- 
2.43.0


From d1e3b7b81d527c3ff12d0abc47b2ad699cb840fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 06/43] fix: regex: report memory errors of bounded iterations

iterate() returns with the change of the size, so a failed allocation
must be reported as -1. REGEX_MEMORY_ERROR is positive and was handled
as a valid size by the caller.
---
 regex_src/regexJIT.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 89eb670..931316a 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -479,9 +479,9 @@ static int iterate(struct stack *stack, int min, int max)
 		stack_clone(&it, stack);
 		/* and put an empty bracket expression instead of it. */
 		if (stack_push(stack, type_open_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		if (stack_push(stack, type_close_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		return len;
 	}
 
@@ -515,7 +515,7 @@ static int iterate(struct stack *stack, int min, int max)
 				if (stack_push_copy(stack, count, count))
 					return -1;
 				if (stack_push(stack, type_qestion_mark, 0))
-					return REGEX_MEMORY_ERROR;
+					return -1;
 				count++;
 				max--;
 			}
@@ -525,7 +525,7 @@ static int iterate(struct stack *stack, int min, int max)
 			max--;
 			count++;
 			if (stack_push(stack, type_qestion_mark, 0))
-				return REGEX_MEMORY_ERROR;
+				return -1;
 		}
 
 		while (max > 0) {
@@ -546,12 +546,12 @@ static int iterate(struct stack *stack, int min, int max)
 		}
 
 		if (stack_push(stack, type_plus_sign, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 	}
 
 	/* Close the opened bracket. */
 	if (stack_push(stack, type_close_br, 0))
-		return REGEX_MEMORY_ERROR;
+		return -1;
 
 	return len;
 }
-- 
2.43.0


From 8c90a1d6c96cbfe2b0aae7fa66e5f6ddffe9c046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 07/43] fix: do not query the executable offset of a failed
 allocation

The protected executable allocator reads the offset from the header of
the block, so sljit_generate_code() crashed when it ran out of memory.
---
 sljit_src/sljitLir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 7675808..c252a12 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -752,7 +752,7 @@ static SLJIT_INLINE void* allocate_executable_memory(sljit_uw size, sljit_s32 op
 
 	if (SLJIT_LIKELY(!(options & SLJIT_GENERATE_CODE_BUFFER))) {
 		code = SLJIT_MALLOC_EXEC(size, exec_allocator_data);
-		*executable_offset = SLJIT_EXEC_OFFSET(code);
+		*executable_offset = (code != NULL) ? SLJIT_EXEC_OFFSET(code) : 0;
 		return code;
 	}
 
-- 
2.43.0


From 9f0550f3e673c9c725cb41344efdfc7cb6b2c1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 08/43] fix: x86-32: atomic store with the expected value in R1
 and the address in R0

When the stored value needs a temporary register, the address was copied
to R1 before the expected value was loaded from there, so the compare
and exchange never succeeded.
---
 sljit_src/sljitNativeX86_common.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 8c04cc1..6b1166d 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -5029,8 +5029,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_atomic_store(struct sljit_compiler
 		if (src_reg == TMP_REG1) {
 			if (mem_reg == SLJIT_R0) {
 				EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_R1, 0);
-				EMIT_MOV(compiler, SLJIT_R1, 0, SLJIT_R0, 0);
-				EMIT_MOV(compiler, SLJIT_R0, 0, temp_reg, tempw);
+				if (temp_reg == SLJIT_R1) {
+					FAIL_IF(emit_byte(compiler, U8(XCHG_EAX_r | reg_map[SLJIT_R1])));
+				} else {
+					EMIT_MOV(compiler, SLJIT_R1, 0, SLJIT_R0, 0);
+					EMIT_MOV(compiler, SLJIT_R0, 0, temp_reg, tempw);
+				}
 
 				mem_reg = SLJIT_R1;
 				saved_reg = SLJIT_R1;
-- 
2.43.0


From 64500bfb8e0488c03f0841c7e67de56b10a1a7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 09/43] fix: ARM32/Thumb2: keep the stack aligned when floats
 and kept registers are saved

---
 sljit_src/sljitNativeARM_32.c    | 3 ++-
 sljit_src/sljitNativeARM_T2_32.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 5e2a0f6..1549bf2 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -1523,7 +1523,8 @@ static sljit_s32 emit_stack_frame_release(struct sljit_compiler *compiler, sljit
 				FAIL_IF(push_inst(compiler, VPOP | VD(SLJIT_FS0) | ((sljit_ins)fsaveds << 1)));
 		}
 
-		local_size = GET_SAVED_REGISTERS_SIZE(compiler->scratches, compiler->saveds, 1) & 0x7;
+		tmp = compiler->saveds - SLJIT_KEPT_SAVEDS_COUNT(compiler->options);
+		local_size = GET_SAVED_REGISTERS_SIZE(compiler->scratches, tmp, 1) & 0x7;
 	}
 
 	if (frame_size < 0) {
diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index fde821d..b1b6ad0 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -1714,7 +1714,8 @@ static sljit_s32 emit_stack_frame_release(struct sljit_compiler *compiler, sljit
 				FAIL_IF(push_inst32(compiler, VPOP | VD4(SLJIT_FS0) | ((sljit_uw)fsaveds << 1)));
 		}
 
-		local_size = GET_SAVED_REGISTERS_SIZE(compiler->scratches, compiler->saveds, 1) & 0x7;
+		tmp = compiler->saveds - SLJIT_KEPT_SAVEDS_COUNT(compiler->options);
+		local_size = GET_SAVED_REGISTERS_SIZE(compiler->scratches, tmp, 1) & 0x7;
 	}
 
 	if (frame_size < 0) {
-- 
2.43.0


From ff685df0e71d5f0a9b17d70dcb25e772c92be264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 10/43] fix: ARMv6: read the serialized constant pool from its
 place

---
 sljit_src/sljitSerialize.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitSerialize.c b/sljit_src/sljitSerialize.c
index ddb105b..1153c1b 100644
--- a/sljit_src/sljitSerialize.c
+++ b/sljit_src/sljitSerialize.c
@@ -406,6 +406,8 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->args_size = serialized_compiler->args_size;
 #endif /* SLJIT_CONFIG_X86_32 || (SLJIT_CONFIG_ARM_32 && __SOFTFP__) || SLJIT_CONFIG_MIPS_32 */
 
+	ptr += sizeof(struct sljit_serialized_compiler);
+
 #if (defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6)
 	used_size = serialized_compiler->cpool_fill;
 	aligned_size = SLJIT_SERIALIZE_ALIGN(used_size * (sizeof(sljit_uw) + 1));
@@ -431,7 +433,6 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 		goto error;
 #endif /* SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG */
 
-	ptr += sizeof(struct sljit_serialized_compiler);
 	i = serialized_compiler->buf_segment_count;
 	last_buf = NULL;
 	while (i > 0) {
-- 
2.43.0


From bb263573f6a4e6dbd45a035a25c8088ce24cd047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 11/43] fix: allow a constant right after a conditional jump of
 reduced size

---
 sljit_src/sljitLir.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index c252a12..9a7c004 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -790,10 +790,10 @@ static SLJIT_INLINE void* allocate_executable_memory(sljit_uw size, sljit_s32 op
 static SLJIT_INLINE sljit_uw sljit_get_next_min(sljit_uw next_label_size,
 	sljit_uw next_jump_addr, sljit_uw next_const_addr)
 {
+	/* The address of a constant can be the same as the address of the preceding
+	   conditional jump when the size of the latter is reduced to zero. */
 	sljit_uw result = next_jump_addr;
 
-	SLJIT_ASSERT(result == SLJIT_MAX_ADDRESS || result != next_const_addr);
-
 	if (next_const_addr < result)
 		result = next_const_addr;
 
-- 
2.43.0


From 0cbac26cb3edd583cefbdf3649f4a07f5db000c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:53 +0000
Subject: [PATCH 12/43] fix: adjust the local offset of copysign operands only
 once

---
 sljit_src/sljitLir.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 9a7c004..c24996a 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -3521,8 +3521,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fop2r(struct sljit_compiler *compi
 {
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_fop2r(compiler, op, dst_freg, src1, src1w, src2, src2w));
-	ADJUST_LOCAL_OFFSET(src1, src1w);
-	ADJUST_LOCAL_OFFSET(src2, src2w);
 
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_fop2(compiler, op, dst_freg, 0, src1, src1w, src2, src2w);
-- 
2.43.0


From 75af6fca4ac21ffb37965f31032022fc2af7b07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:53 +0000
Subject: [PATCH 13/43] fix: RISC-V: testing simd_sign must not emit
 instructions

---
 sljit_src/sljitNativeRISCV_common.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index f4ce41f..d14b369 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -4409,6 +4409,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 	if (((type & SLJIT_SIMD_FLOAT) && elem_size < 2) || elem_size > 3)
 		return SLJIT_ERR_UNSUPPORTED;
 
+	if (type & SLJIT_SIMD_TEST)
+		return SLJIT_SUCCESS;
+
 	FAIL_IF(sljit_emit_vsetivli(compiler, type, 0));
 	FAIL_IF(push_inst(compiler, VMV_VI | VRD(TMP_VREG1) | (0x0 << 15)));
 	FAIL_IF(push_inst(compiler, VMSLE_VI | VRD(TMP_VREG1) | (0x1f << 15) | VRS2(vreg)));
-- 
2.43.0


From 1f24dd942518863fb3f034c25d425289cca956cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 14/43] fix: RISC-V: report the size of the generated code in
 bytes

---
 sljit_src/sljitNativeRISCV_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index d14b369..9b8fa26 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1039,7 +1039,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 
 	compiler->error = SLJIT_ERR_COMPILED;
 	compiler->executable_offset = executable_offset;
-	compiler->executable_size = (sljit_uw)(code_ptr - code) * sizeof(sljit_ins);
+	compiler->executable_size = (sljit_uw)(code_ptr - code) * sizeof(sljit_u16);
 
 	code = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(code, executable_offset);
 	code_ptr = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
-- 
2.43.0


From ab95f9e46da4863934aaf4be2c12c98ba96b65a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 15/43] fix: LoongArch/MIPS/RISC-V: add the executable offset
 to the label after the last instruction

---
 sljit_src/sljitNativeLOONGARCH_64.c | 2 +-
 sljit_src/sljitNativeMIPS_common.c  | 2 +-
 sljit_src/sljitNativeRISCV_common.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 697863e..db93399 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -774,7 +774,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 		if (label->u.index >= SLJIT_LABEL_ALIGNED)
 			code_ptr = process_extended_label(code_ptr, (struct sljit_extended_label*)label);
 
-		label->u.addr = (sljit_uw)code_ptr;
+		label->u.addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
 		label->size = (sljit_uw)(code_ptr - code);
 		label = label->next;
 	}
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 79e41de..111a8a3 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -810,7 +810,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 		if (label->u.index >= SLJIT_LABEL_ALIGNED)
 			code_ptr = process_extended_label(code_ptr, (struct sljit_extended_label*)label);
 
-		label->u.addr = (sljit_uw)code_ptr;
+		label->u.addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
 		label->size = (sljit_uw)(code_ptr - code);
 		label = label->next;
 	}
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 9b8fa26..c89ed79 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -978,7 +978,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 		if (label->u.index >= SLJIT_LABEL_ALIGNED)
 			code_ptr = process_extended_label(code_ptr, (struct sljit_extended_label*)label);
 
-		label->u.addr = (sljit_uw)code_ptr;
+		label->u.addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
 		label->size = (sljit_uw)(code_ptr - code);
 		label = label->next;
 	}
-- 
2.43.0


From b25f21023bb4edd10ecafdc51340cb4482608f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:46 +0000
Subject: [PATCH 16/43] fix: LoongArch: far relative jumps when bit 11 of the
 distance is set

---
 sljit_src/sljitNativeLOONGARCH_64.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index db93399..fe8c776 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -547,7 +547,8 @@ static SLJIT_INLINE void load_addr_to_reg(struct sljit_jump *jump, sljit_sw exec
 
 		SLJIT_ASSERT((sljit_sw)addr >= S32_MIN && (sljit_sw)addr <= S32_MAX);
 
-		if ((addr & 0x800) != 0)
+		/* The immediate of JIRL is not sign extended from 12 bits. */
+		if ((flags & JUMP_MOV_ADDR) && (addr & 0x800) != 0)
 			addr += 0x1000;
 
 		ins[0] = PCADDU12I | RD(reg) | IMM_I20(addr);
-- 
2.43.0


From 6492808f3f8f2f311a51c9b892adfc0769889277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:07 +0000
Subject: [PATCH 17/43] fix: PPC64 LE: reserve enough space for calls whose
 entry address is passed

---
 sljit_src/sljitNativePPC_common.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index e1d120e..f981c6d 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -553,6 +553,19 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 			total_size = JUMP_MAX_SIZE - 1;
 
 			if (!(jump->flags & SLJIT_REWRITABLE_JUMP)) {
+#if (defined SLJIT_PASS_ENTRY_ADDR_TO_CALL && SLJIT_PASS_ENTRY_ADDR_TO_CALL)
+				if (jump->flags & IS_CALL) {
+					/* The absolute address of the target is always loaded. */
+#if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
+					if (jump->flags & JUMP_ADDR) {
+						if (jump->u.target < 0x80000000l)
+							total_size = 4 - 1;
+						else if (jump->u.target < 0x800000000000l)
+							total_size = 6 - 1;
+					}
+#endif /* SLJIT_CONFIG_PPC_64 */
+				} else
+#endif /* SLJIT_PASS_ENTRY_ADDR_TO_CALL */
 				if (jump->flags & JUMP_ADDR) {
 					if (jump->u.target <= 0x01ffffff)
 						total_size = 1 - 1;
-- 
2.43.0


From c879800e2626c652ef4cafa3890122d10c699575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 18/43] fix: Thumb2: flush both halfwords of a modified byte
 constant

---
 sljit_src/sljitNativeARM_T2_32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index b1b6ad0..0158ec1 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -4537,5 +4537,5 @@ SLJIT_API_FUNC_ATTRIBUTE void sljit_set_const(sljit_uw addr, sljit_s32 op, sljit
 	inst[1] = (sljit_u16)((new_constant & 0xff) | (inst[1] & 0xf00));
 	SLJIT_UPDATE_WX_FLAGS(inst, inst + 2, 1);
 	inst = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(inst, executable_offset);
-	SLJIT_CACHE_FLUSH(inst + 1, inst + 2);
+	SLJIT_CACHE_FLUSH(inst, inst + 2);
 }
-- 
2.43.0


From 8723cb89ece22b022443536a49e7ae9436553b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 19/43] fix: MIPS: detect the cpu features before the first
 compilation

---
 sljit_src/sljitLir.c               | 5 +++--
 sljit_src/sljitNativeMIPS_common.c | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index c24996a..170d415 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -476,12 +476,13 @@ struct sljit_extended_label {
 /*  Public functions                                                     */
 /* --------------------------------------------------------------------- */
 
-#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86) || (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV)
+#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86) || (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV) \
+	|| (defined SLJIT_CONFIG_MIPS && SLJIT_CONFIG_MIPS)
 #define SLJIT_NEEDS_COMPILER_INIT 1
 static sljit_s32 compiler_initialized = 0;
 /* A thread safe initialization. */
 static void init_compiler(void);
-#endif /* SLJIT_CONFIG_X86 || SLJIT_CONFIG_RISCV */
+#endif /* SLJIT_CONFIG_X86 || SLJIT_CONFIG_RISCV || SLJIT_CONFIG_MIPS */
 
 SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler* sljit_create_compiler(void *allocator_data)
 {
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 111a8a3..81863ab 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -473,6 +473,13 @@ static void get_cpu_features(void)
 	cpu_feature_list = feature_list;
 }
 
+static void init_compiler(void)
+{
+	/* The code generator depends on the detected features. */
+	if (!cpu_feature_list)
+		get_cpu_features();
+}
+
 /* dest_reg is the absolute name of the register
    Useful for reordering instructions in the delay slot. */
 static sljit_s32 push_inst(struct sljit_compiler *compiler, sljit_ins ins, sljit_s32 delay_slot)
-- 
2.43.0


From 959460297be7b4c3bd15a7cff0fcb4067aed2884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 20/43] fix: RISC-V/LoongArch/MIPS: compute the carry when an
 operand is the zero register

---
 sljit_src/sljitNativeLOONGARCH_64.c | 16 +++++++++-------
 sljit_src/sljitNativeMIPS_common.c  | 16 +++++++++-------
 sljit_src/sljitNativeRISCV_common.c | 16 +++++++++-------
 3 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index fe8c776..bbcdcf0 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -1455,7 +1455,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 	case SLJIT_ADD:
 		/* Overflow computation (both add and sub): overflow = src1_sign ^ src2_sign ^ result_sign ^ carry_flag */
 		is_overflow = GET_FLAG_TYPE(op) == SLJIT_OVERFLOW;
-		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_r = 0;
 
 		if (flags & SRC2_IMM) {
 			if (is_overflow) {
@@ -1477,7 +1478,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else if (op & SLJIT_SET_Z)
 				FAIL_IF(push_inst(compiler, INST(ADD, op) | RD(EQUAL_FLAG) | RJ(src1) | RK(src2)));
 
-			if (is_overflow || carry_src_r != 0) {
+			if (is_overflow || is_carry) {
 				if (src1 != dst)
 					carry_src_r = (sljit_s32)src1;
 				else if (src2 != dst)
@@ -1494,7 +1495,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (is_overflow || carry_src_r != 0) {
+		if (is_overflow || is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(OTHER_FLAG) | RJ(dst) | IMM_I12(src2)));
 			else
@@ -1511,12 +1512,13 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return push_inst(compiler, XOR | RD(OTHER_FLAG) | RJ(TMP_REG1) | RK(OTHER_FLAG));
 
 	case SLJIT_ADDC:
-		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_r = 0;
 
 		if (flags & SRC2_IMM) {
 			FAIL_IF(push_inst(compiler, ADDI_D | RD(dst) | RJ(src1) | IMM_I12(src2)));
 		} else {
-			if (carry_src_r != 0) {
+			if (is_carry) {
 				if (src1 != dst)
 					carry_src_r = (sljit_s32)src1;
 				else if (src2 != dst)
@@ -1531,7 +1533,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (carry_src_r != 0) {
+		if (is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(EQUAL_FLAG) | RJ(dst) | IMM_I12(src2)));
 			else
@@ -1540,7 +1542,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 
 		FAIL_IF(push_inst(compiler, ADD_D | RD(dst) | RJ(dst) | RK(OTHER_FLAG)));
 
-		if (carry_src_r == 0)
+		if (!is_carry)
 			return SLJIT_SUCCESS;
 
 		/* Set ULESS_FLAG (dst == 0) && (OTHER_FLAG == 1). */
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 81863ab..bc5c541 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -1879,7 +1879,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 	case SLJIT_ADD:
 		/* Overflow computation (both add and sub): overflow = src1_sign ^ src2_sign ^ result_sign ^ carry_flag */
 		is_overflow = GET_FLAG_TYPE(op) == SLJIT_OVERFLOW;
-		carry_src_ar = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_ar = 0;
 
 		if (flags & SRC2_IMM) {
 			if (is_overflow) {
@@ -1901,7 +1902,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else if (op & SLJIT_SET_Z)
 				FAIL_IF(push_inst(compiler, SELECT_OP(DADDU, ADDU) | S(src1) | T(src2) | DA(EQUAL_FLAG), EQUAL_FLAG));
 
-			if (is_overflow || carry_src_ar != 0) {
+			if (is_overflow || is_carry) {
 				if (src1 != dst)
 					carry_src_ar = DR(src1);
 				else if (src2 != dst)
@@ -1918,7 +1919,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (is_overflow || carry_src_ar != 0) {
+		if (is_overflow || is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTIU | S(dst) | TA(OTHER_FLAG) | IMM(src2), OTHER_FLAG));
 			else
@@ -1935,12 +1936,13 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return push_inst(compiler, XOR | S(TMP_REG1) | TA(OTHER_FLAG) | DA(OTHER_FLAG), OTHER_FLAG);
 
 	case SLJIT_ADDC:
-		carry_src_ar = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_ar = 0;
 
 		if (flags & SRC2_IMM) {
 			FAIL_IF(push_inst(compiler, SELECT_OP(DADDIU, ADDIU) | S(src1) | T(dst) | IMM(src2), DR(dst)));
 		} else {
-			if (carry_src_ar != 0) {
+			if (is_carry) {
 				if (src1 != dst)
 					carry_src_ar = DR(src1);
 				else if (src2 != dst)
@@ -1955,7 +1957,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (carry_src_ar != 0) {
+		if (is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTIU | S(dst) | TA(EQUAL_FLAG) | IMM(src2), EQUAL_FLAG));
 			else
@@ -1964,7 +1966,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 
 		FAIL_IF(push_inst(compiler, SELECT_OP(DADDU, ADDU) | S(dst) | TA(OTHER_FLAG) | D(dst), DR(dst)));
 
-		if (carry_src_ar == 0)
+		if (!is_carry)
 			return SLJIT_SUCCESS;
 
 		/* Set ULESS_FLAG (dst == 0) && (OTHER_FLAG == 1). */
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index c89ed79..a913bd1 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -2014,7 +2014,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 	case SLJIT_ADD:
 		/* Overflow computation (both add and sub): overflow = src1_sign ^ src2_sign ^ result_sign ^ carry_flag */
 		is_overflow = GET_FLAG_TYPE(op) == SLJIT_OVERFLOW;
-		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_r = 0;
 
 		if (flags & SRC2_IMM) {
 			if (is_overflow) {
@@ -2043,7 +2044,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else if (op & SLJIT_SET_Z)
 				FAIL_IF(push_inst(compiler, ADD | WORD | RD(EQUAL_FLAG) | RS1(src1) | RS2(src2)));
 
-			if (is_overflow || carry_src_r != 0) {
+			if (is_overflow || is_carry) {
 				if (src1 != dst)
 					carry_src_r = (sljit_s32)src1;
 				else if (src2 != dst)
@@ -2060,7 +2061,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (is_overflow || carry_src_r != 0) {
+		if (is_overflow || is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(OTHER_FLAG) | RS1(dst) | IMM_I(src2)));
 			else
@@ -2081,7 +2082,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return push_inst(compiler, XOR | RD(OTHER_FLAG) | RS1(TMP_REG1) | RS2(OTHER_FLAG));
 
 	case SLJIT_ADDC:
-		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_r = 0;
 
 		if (flags & SRC2_IMM) {
 			SLJIT_ASSERT(src2 != 0);
@@ -2090,7 +2092,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else
 				FAIL_IF(push_inst(compiler, ADDI | WORD | RD(dst) | RS1(src1) | IMM_I(src2)));
 		} else {
-			if (carry_src_r != 0) {
+			if (is_carry) {
 				if (src1 != dst)
 					carry_src_r = (sljit_s32)src1;
 				else if (src2 != dst)
@@ -2108,7 +2110,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (carry_src_r != 0) {
+		if (is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(EQUAL_FLAG) | RS1(dst) | IMM_I(src2)));
 			else
@@ -2120,7 +2122,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		else
 			FAIL_IF(push_inst(compiler, ADD | WORD | RD(dst) | RS1(dst) | RS2(OTHER_FLAG)));
 
-		if (carry_src_r == 0)
+		if (!is_carry)
 			return SLJIT_SUCCESS;
 
 		/* Set ULESS_FLAG (dst == 0) && (OTHER_FLAG == 1). */
-- 
2.43.0


From c4d831f050d1a4426ea6080cf2c438a16bb7f8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 21/43] fix: MIPS: xor of -1 and another immediate

---
 sljit_src/sljitNativeMIPS_common.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index bc5c541..e3b9ff8 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -2654,7 +2654,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 		return emit_op(compiler, op, flags | CUMULATIVE_OP, dst, dstw, src1, src1w, src2, src2w);
 
 	case SLJIT_XOR:
-		if ((src1 == SLJIT_IMM && src1w == -1) || (src2 == SLJIT_IMM && src2w == -1)) {
+		if (src1 == SLJIT_IMM && src1w == -1) {
+			/* The other operand can be an immediate as well. */
+			return emit_op(compiler, op, flags | CUMULATIVE_OP | IMM_OP, dst, dstw, src2, src2w, src1, src1w);
+		}
+
+		if (src2 == SLJIT_IMM && src2w == -1) {
 			return emit_op(compiler, op, flags | CUMULATIVE_OP | IMM_OP, dst, dstw, src1, src1w, src2, src2w);
 		}
 		/* fallthrough */
-- 
2.43.0


From 60561e8ae60e3fb3977d1ea7c2ba688e8da02444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 22/43] fix: x86: check the result of instruction allocation

---
 sljit_src/sljitNativeX86_32.c     | 1 +
 sljit_src/sljitNativeX86_common.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/sljit_src/sljitNativeX86_32.c b/sljit_src/sljitNativeX86_32.c
index f5f5cc2..d7d6cae 100644
--- a/sljit_src/sljitNativeX86_32.c
+++ b/sljit_src/sljitNativeX86_32.c
@@ -1180,6 +1180,7 @@ static SLJIT_INLINE sljit_s32 emit_fmov_before_return(struct sljit_compiler *com
 	}
 
 	inst = emit_x86_instruction(compiler, 1 | EX86_SSE2_OP1, 0, 0, src, srcw);
+	FAIL_IF(!inst);
 	*inst = (op & SLJIT_32) ? FLDS : FLDL;
 
 	return SLJIT_SUCCESS;
diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 6b1166d..2b57c47 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -3301,6 +3301,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fop1(struct sljit_compiler *compil
 		FAIL_IF(emit_groupf(compiler, PCMPEQD_x_xm | EX86_PREF_66 | EX86_SSE2, dst_r, dst_r, 0));
 
 		inst = emit_x86_instruction(compiler, 2 | EX86_PREF_66 | EX86_SSE2_OP2, 0, 0, dst_r, 0);
+		FAIL_IF(!inst);
 		inst[0] = GROUP_0F;
 		/* Same as PSRLD_x / PSRLQ_x */
 		inst[1] = (op & SLJIT_32) ? PSLLD_x_i8 : PSLLQ_x_i8;
-- 
2.43.0


From fed7ed96d37f4154b71f77496313e35feab53238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:24 +0000
Subject: [PATCH 23/43] fix: RISC-V: narrow stores must not modify their source
 with Zbb

---
 sljit_src/sljitNativeRISCV_common.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index a913bd1..2340fe3 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1916,11 +1916,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_S8:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, SEXTB | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, SEXTB | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(24)));
 			return push_inst(compiler, SRAI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(24));
 		}
@@ -1928,11 +1928,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_U16:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, ZEXTH | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, ZEXTH | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(16)));
 			return push_inst(compiler, SRLI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(16));
 		}
@@ -1940,11 +1940,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_S16:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, SEXTH | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, SEXTH | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(16)));
 			return push_inst(compiler, SRAI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(16));
 		}
-- 
2.43.0


From 02beb54313e17febfe7be0d7b64f5d309796f5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 24/43] fix: x86: AVX is not usable without OSXSAVE

---
 sljit_src/sljitNativeX86_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 2b57c47..c1867f8 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -592,7 +592,7 @@ static void get_cpu_features(void)
 			feature_list |= CPU_FEATURE_LZCNT;
 	}
 
-	if ((feature_list & CPU_FEATURE_OSXSAVE) && (execute_get_xcr0_low() & 0x4) == 0)
+	if (!(feature_list & CPU_FEATURE_OSXSAVE) || (execute_get_xcr0_low() & 0x4) == 0)
 		feature_list &= ~(sljit_u32)(CPU_FEATURE_AVX | CPU_FEATURE_AVX2);
 
 	cpu_feature_list = feature_list;
-- 
2.43.0


From 0e2c4e291aa266f3e1e4c9d75d3dc6f35360c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 25/43] fix: MIPS: branch distances of the unsigned to float
 conversion on revision 1

---
 sljit_src/sljitNativeMIPS_common.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index e3b9ff8..a95a69d 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -3061,9 +3061,9 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_uw(struct sljit_comp
 	FAIL_IF(push_inst(compiler, ANDI | S(src) | T(TMP_REG2) | IMM(1), DR(TMP_REG2)));
 
 	FAIL_IF(push_inst(compiler, MTC1 | flags | T(src) | FS(TMP_FREG1), MOVABLE_INS));
-#if !defined(SLJIT_MIPS_REV)
+#if !defined(SLJIT_MIPS_REV) || SLJIT_MIPS_REV <= 1
 	FAIL_IF(push_inst(compiler, NOP, UNMOVABLE_INS));
-#endif /* !SLJIT_MIPS_REV */
+#endif /* SLJIT_MIPS_REV <= 1 */
 
 	FAIL_IF(push_inst(compiler, CVT_S_S | flags | (4 << 21) | ((~(sljit_ins)op & SLJIT_32) >> 8) | FS(TMP_FREG1) | FD(dst_r), MOVABLE_INS));
 
@@ -3082,9 +3082,9 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_uw(struct sljit_comp
 	FAIL_IF(push_inst(compiler, OR | S(TMP_REG1) | T(TMP_REG2) | D(TMP_REG1), DR(TMP_REG1)));
 
 	FAIL_IF(push_inst(compiler, MTC1 | flags | T(TMP_REG1) | FS(TMP_FREG1), MOVABLE_INS));
-#if !defined(SLJIT_MIPS_REV)
+#if !defined(SLJIT_MIPS_REV) || SLJIT_MIPS_REV <= 1
 	FAIL_IF(push_inst(compiler, NOP, UNMOVABLE_INS));
-#endif /* !SLJIT_MIPS_REV */
+#endif /* SLJIT_MIPS_REV <= 1 */
 
 	FAIL_IF(push_inst(compiler, CVT_S_S | flags | (4 << 21) | ((~(sljit_ins)op & SLJIT_32) >> 8) | FS(TMP_FREG1) | FD(dst_r), MOVABLE_INS));
 	FAIL_IF(push_inst(compiler, ADD_S | FMT(op) | FT(dst_r) | FS(dst_r) | FD(dst_r), UNMOVABLE_INS));
-- 
2.43.0


From a51ecb9869727a725a23ac6c9169975a11d79726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 26/43] fix: MIPS: double precision registers of FR=1 processes
 on builds for earlier revisions

---
 sljit_src/sljitNativeMIPS_32.c     | 10 ----------
 sljit_src/sljitNativeMIPS_common.c | 18 +++---------------
 2 files changed, 3 insertions(+), 25 deletions(-)

diff --git a/sljit_src/sljitNativeMIPS_32.c b/sljit_src/sljitNativeMIPS_32.c
index 8397961..88f7e57 100644
--- a/sljit_src/sljitNativeMIPS_32.c
+++ b/sljit_src/sljitNativeMIPS_32.c
@@ -35,12 +35,10 @@ static sljit_s32 emit_copysign(struct sljit_compiler *compiler, sljit_s32 op,
 
 	if (!is_32) {
 		switch (cpu_feature_list & CPU_FEATURE_FR) {
-#if defined(SLJIT_MIPS_REV) && SLJIT_MIPS_REV >= 2
 		case CPU_FEATURE_FR:
 			mfhc = MFHC1;
 			mthc = MTHC1;
 			break;
-#endif /* SLJIT_MIPS_REV >= 2 */
 		default:
 			src1_r |= (1 << 11);
 			src2_r |= (1 << 11);
@@ -115,10 +113,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fset64(struct sljit_compiler *comp
 
 	FAIL_IF(push_inst(compiler, MTC1 | (u.bin.lo != 0 ? T(TMP_REG1) : TA(0)) | FS(freg), MOVABLE_INS));
 	switch (cpu_feature_list & CPU_FEATURE_FR) {
-#if defined(SLJIT_MIPS_REV) && SLJIT_MIPS_REV >= 2
 	case CPU_FEATURE_FR:
 		return push_inst(compiler, MTHC1 | (u.bin.hi != 0 ? T(TMP_REG2) : TA(0)) | FS(freg), MOVABLE_INS);
-#endif /* SLJIT_MIPS_REV >= 2 */
 	default:
 		FAIL_IF(push_inst(compiler, MTC1 | (u.bin.hi != 0 ? T(TMP_REG2) : TA(0)) | FS(freg) | (1 << 11), MOVABLE_INS));
 		break;
@@ -153,24 +149,20 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fcopy(struct sljit_compiler *compi
 			FAIL_IF(push_inst(compiler, MFC1 | inst, DR(reg2)));
 
 		inst = FS(freg) | (1 << 11);
-#if defined(SLJIT_MIPS_REV) && SLJIT_MIPS_REV >= 2
 		if (cpu_feature_list & CPU_FEATURE_FR) {
 			mthc = MTHC1;
 			mfhc = MFHC1;
 			inst = FS(freg);
 		}
-#endif /* SLJIT_MIPS_REV >= 2 */
 	}
 
 	inst |= T(reg);
 	if (!is_32 && !reg2) {
 		switch (cpu_feature_list & CPU_FEATURE_FR) {
-#if defined(SLJIT_MIPS_REV) && SLJIT_MIPS_REV >= 2
 		case CPU_FEATURE_FR:
 			mthc = MTHC1;
 			mfhc = MFHC1;
 			break;
-#endif /* SLJIT_MIPS_REV >= 2 */
 		default:
 			inst |= (1 << 11);
 			break;
@@ -291,11 +283,9 @@ static sljit_s32 call_with_args(struct sljit_compiler *compiler, sljit_s32 arg_t
 				 * and its starting offset must be 8 because of alignment. */
 				SLJIT_ASSERT((*offsets_ptr >> 2) == 2);
 				switch (cpu_feature_list & CPU_FEATURE_FR) {
-#if defined(SLJIT_MIPS_REV) && SLJIT_MIPS_REV >= 2
 				case CPU_FEATURE_FR:
 					prev_ins = MFHC1 | f64_hi | FS(float_arg_count);
 					break;
-#endif /* SLJIT_MIPS_REV >= 2 */
 				default:
 					prev_ins = MFC1 | f64_hi | FS(float_arg_count) | (1 << 11);
 					break;
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index a95a69d..211db39 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -257,9 +257,7 @@ static const sljit_u8 freg_map[SLJIT_NUMBER_OF_FLOAT_REGISTERS + 4] = {
 #define LWR		(HI(38))
 #define LWC1		(HI(49))
 #define MFC1		(HI(17))
-#if defined(SLJIT_MIPS_REV) && SLJIT_MIPS_REV >= 2
 #define MFHC1		(HI(17) | (3 << 21))
-#endif /* SLJIT_MIPS_REV >= 2 */
 #if (defined SLJIT_MIPS_REV && SLJIT_MIPS_REV >= 6)
 #define MOD		(HI(0) | (3 << 6) | LO(26))
 #define MODU		(HI(0) | (3 << 6) | LO(27))
@@ -268,9 +266,7 @@ static const sljit_u8 freg_map[SLJIT_NUMBER_OF_FLOAT_REGISTERS + 4] = {
 #define MFLO		(HI(0) | LO(18))
 #endif /* SLJIT_MIPS_REV >= 6 */
 #define MTC1		(HI(17) | (4 << 21))
-#if defined(SLJIT_MIPS_REV) && SLJIT_MIPS_REV >= 2
 #define MTHC1		(HI(17) | (7 << 21))
-#endif /* SLJIT_MIPS_REV >= 2 */
 #if (defined SLJIT_MIPS_REV && SLJIT_MIPS_REV >= 6)
 #define MUH		(HI(0) | (3 << 6) | LO(24))
 #define MUHU		(HI(0) | (3 << 6) | LO(25))
@@ -1095,11 +1091,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_enter(struct sljit_compiler *compi
 			} else if (arg_count < 4) {
 				FAIL_IF(push_inst(compiler, MTC1 | TA(4 + arg_count) | FS(float_arg_count), MOVABLE_INS));
 				switch (cpu_feature_list & CPU_FEATURE_FR) {
-#if defined(SLJIT_MIPS_REV) && SLJIT_MIPS_REV >= 2
 				case CPU_FEATURE_FR:
 					FAIL_IF(push_inst(compiler, MTHC1 | TA(5 + arg_count) | FS(float_arg_count), MOVABLE_INS));
 					break;
-#endif /* SLJIT_MIPS_REV >= 2 */
 				default:
 					FAIL_IF(push_inst(compiler, MTC1 | TA(5 + arg_count) | FS(float_arg_count) | (1 << 11), MOVABLE_INS));
 					break;
@@ -3033,18 +3027,16 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_uw(struct sljit_comp
 		FAIL_IF(push_inst(compiler, LUI | T(TMP_REG2) | IMM(0x41e0), UNMOVABLE_INS));
 		FAIL_IF(push_inst(compiler, MTC1 | TA(0) | FS(TMP_FREG2), UNMOVABLE_INS));
 		switch (cpu_feature_list & CPU_FEATURE_FR) {
-#if defined(SLJIT_MIPS_REV) && SLJIT_MIPS_REV >= 2
 		case CPU_FEATURE_FR:
 			FAIL_IF(push_inst(compiler, MTHC1 | T(TMP_REG2) | FS(TMP_FREG2), UNMOVABLE_INS));
 			break;
-#endif /* SLJIT_MIPS_REV >= 2 */
 		default:
 			FAIL_IF(push_inst(compiler, MTC1 | T(TMP_REG2) | FS(TMP_FREG2) | (1 << 11), UNMOVABLE_INS));
-#if !defined(SLJIT_MIPS_REV) || SLJIT_MIPS_REV <= 1
-			FAIL_IF(push_inst(compiler, NOP, UNMOVABLE_INS));
-#endif /* MIPS III */
 			break;
 		}
+#if !defined(SLJIT_MIPS_REV) || SLJIT_MIPS_REV <= 1
+		FAIL_IF(push_inst(compiler, NOP, UNMOVABLE_INS));
+#endif /* MIPS III */
 		FAIL_IF(push_inst(compiler, ADD_S | FMT(op) | FT(TMP_FREG2) | FS(dst_r) | FD(dst_r), UNMOVABLE_INS));
 
 		if (dst & SLJIT_MEM)
@@ -4251,11 +4243,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fmem(struct sljit_compiler *compil
 		FAIL_IF(push_inst(compiler, SWL | S(mem) | T(TMP_REG2) | IMM_F64_FIRST_LEFT(memw), MOVABLE_INS));
 		FAIL_IF(push_inst(compiler, SWR | S(mem) | T(TMP_REG2) | IMM_F64_FIRST_RIGHT(memw), MOVABLE_INS));
 		switch (cpu_feature_list & CPU_FEATURE_FR) {
-#if defined(SLJIT_MIPS_REV) && SLJIT_MIPS_REV >= 2
 		case CPU_FEATURE_FR:
 			FAIL_IF(push_inst(compiler, MFHC1 | T(TMP_REG2) | FS(freg), DR(TMP_REG2)));
 			break;
-#endif /* SLJIT_MIPS_REV >= 2 */
 		default:
 			FAIL_IF(push_inst(compiler, MFC1 | T(TMP_REG2) | FS(freg) | (1 << 11), DR(TMP_REG2)));
 #if !defined(SLJIT_MIPS_REV) || SLJIT_MIPS_REV <= 1
@@ -4295,10 +4285,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fmem(struct sljit_compiler *compil
 	FAIL_IF(push_inst(compiler, LWL | S(mem) | T(TMP_REG2) | IMM_F64_SECOND_LEFT(memw), DR(TMP_REG2)));
 	FAIL_IF(push_inst(compiler, LWR | S(mem) | T(TMP_REG2) | IMM_F64_SECOND_RIGHT(memw), DR(TMP_REG2)));
 	switch (cpu_feature_list & CPU_FEATURE_FR) {
-#if defined(SLJIT_MIPS_REV) && SLJIT_MIPS_REV >= 2
 	case CPU_FEATURE_FR:
 		return push_inst(compiler, MTHC1 | T(TMP_REG2) | FS(freg), MOVABLE_INS);
-#endif /* SLJIT_MIPS_REV >= 2 */
 	default:
 		FAIL_IF(push_inst(compiler, MTC1 | T(TMP_REG2) | FS(freg) | (1 << 11), MOVABLE_INS));
 		break;
-- 
2.43.0


From bff57d8d74e3a0b042cd6c5788a714c93419e0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:15 +0000
Subject: [PATCH 27/43] fix: x86-32: memory barrier on processors without SSE2

---
 sljit_src/sljitNativeX86_common.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index c1867f8..62e78b8 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -1528,6 +1528,20 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op0(struct sljit_compiler *compile
 #endif
 		break;
 	case SLJIT_MEMORY_BARRIER:
+#if (defined SLJIT_DETECT_SSE2 && SLJIT_DETECT_SSE2)
+		if (!(cpu_feature_list & CPU_FEATURE_SSE2)) {
+			/* The mfence is not available: lock or dword [esp], 0 */
+			inst = (sljit_u8*)ensure_buf(compiler, 1 + 5);
+			FAIL_IF(!inst);
+			INC_SIZE(5);
+			inst[0] = GROUP_LOCK;
+			inst[1] = GROUP_BINARY_83;
+			inst[2] = 0x0c;
+			inst[3] = 0x24;
+			inst[4] = 0;
+			return SLJIT_SUCCESS;
+		}
+#endif /* SLJIT_DETECT_SSE2 */
 		inst = (sljit_u8*)ensure_buf(compiler, 1 + 3);
 		FAIL_IF(!inst);
 		INC_SIZE(3);
-- 
2.43.0


From 8d08c6cda9992b3a8911b6df5592943babf8049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 28/43] fix: LoongArch: the scaled index of an operand
 overwrites the cached address

---
 sljit_src/sljitNativeLOONGARCH_64.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index bbcdcf0..1e04efb 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -1259,8 +1259,12 @@ static sljit_s32 getput_arg(struct sljit_compiler *compiler, sljit_s32 flags, sl
 	if (SLJIT_UNLIKELY(arg & OFFS_REG_MASK)) {
 		argw &= 0x3;
 
-		if (SLJIT_UNLIKELY(argw))
+		if (SLJIT_UNLIKELY(argw)) {
+			/* The register may contain a cached address. */
+			compiler->cache_arg = 0;
+			compiler->cache_argw = 0;
 			FAIL_IF(push_inst(compiler, SLLI_D | RD(TMP_REG3) | RJ(OFFS_REG(arg)) | IMM_I12(argw)));
+		}
 		return push_mem_inst(compiler, flags, reg, SLJIT_MEM2(base, TMP_REG3), 0);
 	}
 
-- 
2.43.0


From 19efd3d396d52754e39e3486eace3ec27fba40a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 29/43] fix: ARMv6: a constant pool can be pushed before the
 instruction of jumps and constants

---
 sljit_src/sljitNativeARM_32.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 1549bf2..958e323 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -3539,8 +3539,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_ijump(struct sljit_compiler *compi
 #if (defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6)
 	if (type >= SLJIT_FAST_CALL)
 		FAIL_IF(prepare_blx(compiler));
-	jump->addr = compiler->size;
 	FAIL_IF(push_inst_with_unique_literal(compiler, EMIT_DATA_TRANSFER(WORD_SIZE | LOAD_DATA, 1, type <= SLJIT_JUMP ? TMP_PC : TMP_REG1, TMP_PC, 0), 0));
+	/* A constant pool might be pushed before the instruction. */
+	jump->addr = compiler->size - 1;
 	if (type >= SLJIT_FAST_CALL) {
 		jump->addr = compiler->size;
 		FAIL_IF(emit_blx(compiler));
@@ -4806,6 +4807,11 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_const* sljit_emit_const(struct sljit_compi
 #endif /* SLJIT_CONFIG_ARM_V6 */
 	}
 
+#if (defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6)
+	/* A constant pool might be pushed before the instruction. */
+	const_->addr = compiler->size - 1;
+#endif /* SLJIT_CONFIG_ARM_V6 */
+
 	if (dst & SLJIT_MEM)
 		PTR_FAIL_IF(emit_op_mem(compiler, mem_flags, TMP_REG2, dst, dstw, TMP_REG1));
 
-- 
2.43.0


From bdbebb8bb5a6a9d7128539e8e8f683c917e8ff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 30/43] fix: ARM32: xor of -1 and another immediate

---
 sljit_src/sljitNativeARM_32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 958e323..40b4a8c 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -2525,7 +2525,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 
 	case SLJIT_XOR:
 		inp_flags = ALLOW_IMM | ALLOW_DOUBLE_IMM;
-		if ((src1 == SLJIT_IMM && src1w == -1) || (src2 == SLJIT_IMM && src2w == -1)) {
+		if ((src1 == SLJIT_IMM && src1w == -1 && src2 != SLJIT_IMM) || (src2 == SLJIT_IMM && src2w == -1)) {
 			inp_flags |= ALLOW_INV_IMM;
 		}
 		return emit_op(compiler, op, inp_flags, dst, dstw, src1, src1w, src2, src2w);
-- 
2.43.0


From d8a349150a17663b36628a5fcc97b68076edafd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:55 +0000
Subject: [PATCH 31/43] fix: RISC-V: compressed move of the zero register is a
 jump

---
 sljit_src/sljitNativeRISCV_common.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 2340fe3..da662bb 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -2020,7 +2020,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		if (flags & SRC2_IMM) {
 			if (is_overflow) {
 				if (src2 >= 0) {
-					if (RISCV_HAS_COMPRESSED(200))
+					if (RISCV_HAS_COMPRESSED(200) && src1 != TMP_ZERO)
 						FAIL_IF(push_inst16(compiler, C_MV | C_RD(EQUAL_FLAG) | C_RS2(src1)));
 					else
 						FAIL_IF(push_inst(compiler, ADDI | RD(EQUAL_FLAG) | RS1(src1) | IMM_I(0)));
@@ -2098,7 +2098,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 				else if (src2 != dst)
 					carry_src_r = (sljit_s32)src2;
 				else {
-					if (RISCV_HAS_COMPRESSED(200))
+					if (RISCV_HAS_COMPRESSED(200) && src1 != TMP_ZERO)
 						FAIL_IF(push_inst16(compiler, C_MV | C_RD(EQUAL_FLAG) | C_RS2(src1)));
 					else
 						FAIL_IF(push_inst(compiler, ADDI | RD(EQUAL_FLAG) | RS1(src1) | IMM_I(0)));
@@ -2209,7 +2209,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		if (flags & SRC2_IMM) {
 			if (is_overflow) {
 				if (src2 >= 0) {
-					if (RISCV_HAS_COMPRESSED(200))
+					if (RISCV_HAS_COMPRESSED(200) && src1 != TMP_ZERO)
 						FAIL_IF(push_inst16(compiler, C_MV | C_RD(EQUAL_FLAG) | C_RS2(src1)));
 					else
 						FAIL_IF(push_inst(compiler, ADDI | RD(EQUAL_FLAG) | RS1(src1) | IMM_I(0)));
-- 
2.43.0


From f046b75f62a26b4b2048992c5d08108c61ecf3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:34 +0000
Subject: [PATCH 32/43] fix: MIPS: range check of J ignored the executable
 offset

---
 sljit_src/sljitNativeMIPS_common.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 211db39..f359f82 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -506,6 +506,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 {
 	sljit_sw diff;
 	sljit_uw target_addr;
+	sljit_uw jump_addr;
 	sljit_ins *inst;
 	sljit_ins saved_inst;
 
@@ -569,8 +570,10 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 		}
 	}
 
+	jump_addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(jump->addr, executable_offset);
+
 	if (jump->flags & IS_COND) {
-		if ((jump->flags & IS_MOVABLE) && (target_addr & ~(sljit_uw)0xfffffff) == ((jump->addr + 2 * sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
+		if ((jump->flags & IS_MOVABLE) && (target_addr & ~(sljit_uw)0xfffffff) == ((jump_addr + 2 * sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
 			jump->flags |= PATCH_J;
 			saved_inst = inst[0];
 			inst[0] = inst[-1];
@@ -579,7 +582,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 			inst[2] = NOP;
 			return inst + 2;
 		}
-		else if ((target_addr & ~(sljit_uw)0xfffffff) == ((jump->addr + 3 * sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
+		else if ((target_addr & ~(sljit_uw)0xfffffff) == ((jump_addr + 3 * sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
 			jump->flags |= PATCH_J;
 			inst[0] = (inst[0] & 0xffff0000) | 3;
 			inst[1] = NOP;
@@ -591,7 +594,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 	}
 	else {
 		/* J instuctions. */
-		if ((jump->flags & IS_MOVABLE) && (target_addr & ~(sljit_uw)0xfffffff) == (jump->addr & ~(sljit_uw)0xfffffff)) {
+		if ((jump->flags & IS_MOVABLE) && (target_addr & ~(sljit_uw)0xfffffff) == (jump_addr & ~(sljit_uw)0xfffffff)) {
 			jump->flags |= PATCH_J;
 			inst[0] = inst[-1];
 			inst[-1] = (jump->flags & IS_JAL) ? JAL : J;
@@ -599,7 +602,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 			return inst;
 		}
 
-		if ((target_addr & ~(sljit_uw)0xfffffff) == ((jump->addr + sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
+		if ((target_addr & ~(sljit_uw)0xfffffff) == ((jump_addr + sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
 			jump->flags |= PATCH_J;
 			inst[0] = (jump->flags & IS_JAL) ? JAL : J;
 			/* Keep inst[1] */
-- 
2.43.0


From f12619e6f41a3f2e19f5e0548ca8ef205ac7dc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 33/43] fix: MIPS: the region of a conditional J was computed
 from the instruction after its delay slot

---
 sljit_src/sljitNativeMIPS_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index f359f82..d8629ad 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -573,7 +573,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 	jump_addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(jump->addr, executable_offset);
 
 	if (jump->flags & IS_COND) {
-		if ((jump->flags & IS_MOVABLE) && (target_addr & ~(sljit_uw)0xfffffff) == ((jump_addr + 2 * sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
+		if ((jump->flags & IS_MOVABLE) && (target_addr & ~(sljit_uw)0xfffffff) == ((jump_addr + sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
 			jump->flags |= PATCH_J;
 			saved_inst = inst[0];
 			inst[0] = inst[-1];
@@ -582,7 +582,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 			inst[2] = NOP;
 			return inst + 2;
 		}
-		else if ((target_addr & ~(sljit_uw)0xfffffff) == ((jump_addr + 3 * sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
+		else if ((target_addr & ~(sljit_uw)0xfffffff) == ((jump_addr + 2 * sizeof(sljit_ins)) & ~(sljit_uw)0xfffffff)) {
 			jump->flags |= PATCH_J;
 			inst[0] = (inst[0] & 0xffff0000) | 3;
 			inst[1] = NOP;
-- 
2.43.0


From d6b1794f70c78344d3c0f678e4050695865ed966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:18 +0000
Subject: [PATCH 34/43] fix: s390x: cache flush and permission change covered
 the wrong range of the generated code

---
 sljit_src/sljitNativeS390X.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index da5c4dd..bc3eec6 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -1644,7 +1644,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 		compiler->executable_size += (pad_size + pool_size);
 
 	code = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(code, executable_offset);
-	code_ptr = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
+	code_ptr = (sljit_u16 *)((sljit_u8 *)code + compiler->executable_size);
 	SLJIT_CACHE_FLUSH(code, code_ptr);
 	SLJIT_UPDATE_WX_FLAGS(code, code_ptr, 1);
 	return code;
-- 
2.43.0


From 7b98877445637f4f0470dd4021a12a5302128560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:56 +0000
Subject: [PATCH 35/43] fix: PPC: reserve enough space for conditional jumps to
 low absolute addresses

---
 sljit_src/sljitNativePPC_common.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index f981c6d..0fed7d3 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -567,8 +567,10 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 				} else
 #endif /* SLJIT_PASS_ENTRY_ADDR_TO_CALL */
 				if (jump->flags & JUMP_ADDR) {
-					if (jump->u.target <= 0x01ffffff)
-						total_size = 1 - 1;
+					if (jump->u.target <= 0x01ffffff) {
+						/* A conditional jump might need an inverted conditional branch. */
+						total_size = (jump->flags & IS_COND) ? (2 - 1) : (1 - 1);
+					}
 #if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
 					else if (jump->u.target < 0x80000000l)
 						total_size = 4 - 1;
-- 
2.43.0


From 3a7bdae67512eff4decb9357cd0963d10b7ba116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:05 +0000
Subject: [PATCH 36/43] fix: PPC: the target of an absolute conditional branch
 is sign extended

---
 sljit_src/sljitNativePPC_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index 0fed7d3..cd5711d 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -354,7 +354,7 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 			jump->flags |= PATCH_B;
 			return code_ptr;
 		}
-		if (target_addr <= 0xffff) {
+		if (target_addr <= 0x7fff) {
 			jump->flags |= PATCH_B | PATCH_ABS_B;
 			return code_ptr;
 		}
@@ -455,7 +455,7 @@ static void generate_jump_or_mov_addr(struct sljit_jump *jump, sljit_sw executab
 				SLJIT_ASSERT((sljit_sw)addr <= 0x7fff && (sljit_sw)addr >= -0x8000);
 				ins[0] = BCx | ((sljit_ins)addr & 0xfffc) | (ins[0] & 0x03ff0001);
 			} else {
-				SLJIT_ASSERT(addr <= 0xffff);
+				SLJIT_ASSERT(addr <= 0x7fff);
 				ins[0] = BCx | ((sljit_ins)addr & 0xfffc) | 0x2 | ((*ins) & 0x03ff0001);
 			}
 			return;
-- 
2.43.0


From 968b28582c23dbe5956f71c35a42375ca69b606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:07 +0000
Subject: [PATCH 37/43] fix: RISC-V: limits of 32 and 52 bit absolute addresses
 (carry of the low part)

---
 sljit_src/sljitNativeRISCV_common.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index da662bb..f38d47a 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -402,7 +402,7 @@ static const sljit_u8 vreg_map[SLJIT_NUMBER_OF_VECTOR_REGISTERS + 3] = {
 #define S32_MAX		(0x7ffff7ffl)
 #define S32_MIN		(-0x80000000l)
 #define S44_MAX		(0x7fffffff7ffl)
-#define S52_MAX		(0x7ffffffffffffl)
+#define S52_MAX		(0x7fffffffff7ffl)
 #endif /* SLJIT_CONFIG_RISCV_64 */
 
 #define C_ADDI_W(word)	(C_ADDI | (sljit_u16)((word) << 10))
@@ -683,7 +683,7 @@ static SLJIT_INLINE void load_addr_to_reg(struct sljit_jump *jump, sljit_sw exec
 #else /* !SLJIT_CONFIG_RISCV_32 */
 
 	if (flags & PATCH_ABS32) {
-		SLJIT_ASSERT(addr <= S32_MAX);
+		SLJIT_ASSERT(addr <= 0x7fffffffl);
 		ins = LUI | RD(reg) | (sljit_ins)((sljit_sw)addr & ~0xfff);
 		buf[0] = (sljit_u16)ins;
 		buf[1] = (sljit_u16)(ins >> 16);
@@ -722,7 +722,7 @@ static SLJIT_INLINE void load_addr_to_reg(struct sljit_jump *jump, sljit_sw exec
 			high = ~high;
 
 		if (flags & PATCH_ABS52) {
-			SLJIT_ASSERT(addr <= S52_MAX);
+			SLJIT_ASSERT(addr <= 0x7ffffffffffffl);
 			ins = LUI | RD(TMP_REG3) | (sljit_ins)(high << 12);
 			buf[0] = (sljit_u16)ins;
 			buf[1] = (sljit_u16)(ins >> 16);
-- 
2.43.0


From e5b4db0db27bfed25b2d766802409da336b25e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 38/43] fix: Thumb2: reserve enough space for the address of a
 label about 4 KB before

---
 sljit_src/sljitNativeARM_T2_32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index 0158ec1..4ce5fdc 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -592,7 +592,7 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 					diff -= (sljit_sw)size_reduce;
 				}
 
-				if (diff <= (0xffd / SSIZE_OF(u16)) && diff >= (-0xfff / SSIZE_OF(u16)))
+				if (diff <= (0xffd / SSIZE_OF(u16)) && diff >= ((-0xfff + 2 * SSIZE_OF(u16)) / SSIZE_OF(u16)))
 					total_size = 1;
 			}
 
-- 
2.43.0


From 1731e8386ac5e316104ab3fe7a544954a1e1111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:59 +0000
Subject: [PATCH 39/43] fix: LoongArch: a PC-relative address load near +2 GB
 overflowed the range of pcaddu12i

---
 sljit_src/sljitNativeLOONGARCH_64.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 1e04efb..c4e7fb2 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -512,7 +512,8 @@ static SLJIT_INLINE sljit_sw mov_addr_get_length(struct sljit_jump *jump, sljit_
 
 	diff = (sljit_sw)addr - (sljit_sw)SLJIT_ADD_EXEC_OFFSET(jump_addr, executable_offset);
 
-	if (diff >= S32_MIN && diff <= S32_MAX) {
+	/* The immediate of ADDI is sign extended, so the upper part may be incremented. */
+	if (diff >= S32_MIN && diff <= S32_MAX - 0x800) {
 		SLJIT_ASSERT(jump->flags >= ((sljit_uw)1 << JUMP_SIZE_SHIFT));
 		jump->flags |= PATCH_REL32;
 		return 1;
-- 
2.43.0


From 0bad89f78ea9dbc6b0efd239278a36c1ea516144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 40/43] fix: x86-64: the range check of relative jumps confused
 the sizes of conditional and unconditional jumps

---
 sljit_src/sljitNativeX86_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 62e78b8..4a242e2 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -692,7 +692,7 @@ static sljit_u8* detect_near_jump_type(struct sljit_jump *jump, sljit_u8 *code_p
 		label_addr = jump->u.target - (sljit_uw)executable_offset;
 
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
-	if ((sljit_sw)(label_addr - (jump_addr + 6)) > HALFWORD_MAX || (sljit_sw)(label_addr - (jump_addr + 5)) < HALFWORD_MIN)
+	if ((sljit_sw)(label_addr - (jump_addr + 5)) > HALFWORD_MAX || (sljit_sw)(label_addr - (jump_addr + 6)) < HALFWORD_MIN)
 		return detect_far_jump_type(jump, code_ptr);
 #endif /* SLJIT_CONFIG_X86_64 */
 
-- 
2.43.0


From 82a72b932ca96e087f09cf3188ececce5ba45535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 41/43] fix: x86-64: the range check of lea was computed from
 the end of the longer mov instruction

---
 sljit_src/sljitNativeX86_64.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_64.c b/sljit_src/sljitNativeX86_64.c
index 8737d68..6b52010 100644
--- a/sljit_src/sljitNativeX86_64.c
+++ b/sljit_src/sljitNativeX86_64.c
@@ -408,7 +408,8 @@ static sljit_u8* generate_mov_addr_code(struct sljit_jump *jump, sljit_u8 *code_
 		addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(code, executable_offset) + jump->u.label->size;
 
 	if (addr > 0xffffffffl) {
-		diff = (sljit_sw)addr - (sljit_sw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
+		/* The instruction becomes shorter by 3 bytes. */
+		diff = (sljit_sw)addr - (sljit_sw)SLJIT_ADD_EXEC_OFFSET(code_ptr - (SSIZE_OF(s32) - 1), executable_offset);
 
 		if (diff <= HALFWORD_MAX && diff >= HALFWORD_MIN) {
 			SLJIT_ASSERT(((jump->flags >> JUMP_SIZE_SHIFT) & 0x1f) >= 7);
-- 
2.43.0


From 35a70c6212cb51aeabea477a6ef493a619f08cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:06 +0000
Subject: [PATCH 42/43] fix: ARMv6: range of near calls

The BL instruction is placed one instruction before the address the
distance was measured from, so a call whose target is exactly at the
upper limit was encoded as a branch to an address 64 MB lower.
---
 sljit_src/sljitNativeARM_32.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 40b4a8c..ca6a6d8 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -530,6 +530,8 @@ static SLJIT_INLINE sljit_s32 detect_jump_type(struct sljit_jump *jump, sljit_uw
 
 #if (defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6)
 	if (jump->flags & IS_BL) {
+		/* The BL instruction replaces the load instruction before the BLX. */
+		diff += (sljit_sw)sizeof(sljit_ins);
 		if (diff <= 0x01ffffff && diff >= -0x02000000) {
 			*code_ptr = (BL - CONDITIONAL) | (*(code_ptr + 1) & COND_MASK);
 			jump->flags |= PATCH_B;
-- 
2.43.0


From 47bd92bf7dbf87596fdd9828f79947cfb4fe3845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:00 +0000
Subject: [PATCH 43/43] fix: deserialize a compiler without labels when
 allocating zero bytes gives NULL

An intact buffer was rejected with allocators whose result for zero bytes
is a null pointer.
---
 sljit_src/sljitSerialize.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitSerialize.c b/sljit_src/sljitSerialize.c
index 1153c1b..14ec368 100644
--- a/sljit_src/sljitSerialize.c
+++ b/sljit_src/sljitSerialize.c
@@ -475,9 +475,12 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	if ((sljit_uw)(end - ptr) < i)
 		goto error;
 
-	label_list = (struct sljit_label **)SLJIT_MALLOC(label_count * sizeof(struct sljit_label*), allocator_data);
-	if (label_list == NULL)
-		goto error;
+	/* The result of allocating zero bytes can be NULL. */
+	if (label_count > 0) {
+		label_list = (struct sljit_label **)SLJIT_MALLOC(label_count * sizeof(struct sljit_label*), allocator_data);
+		if (label_list == NULL)
+			goto error;
+	}
 
 	label_list_ptr = label_list;
 	for (i = 0; i < label_count; i++) {
@@ -564,7 +567,8 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	}
 	compiler->last_jump = last_jump;
 
-	SLJIT_FREE(label_list, allocator_data);
+	if (label_list != NULL)
+		SLJIT_FREE(label_list, allocator_data);
 	label_list = NULL;
 
 	last_const = NULL;
-- 
2.43.0

