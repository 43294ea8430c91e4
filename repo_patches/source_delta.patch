From 8943b868bd5735b8eeeb61226870c0df91068b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 01/58] fix: keep the zero register zero after generic
 instruction handlers

---
 lib/libloong/bytecode_impl.cpp | 2 ++
 lib/libloong/cpu.cpp           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index bf048c0..b95b27a 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -1029,6 +1029,7 @@ INSTRUCTION(LA64_BC_FUNCTION, execute_decoded_function)
 	const auto handler = DECODER().get_handler();
 	//printf("Slow-path pc=0x%lx for instr %08X\n", RECONSTRUCT_PC(), DECODER().instr);
 	handler(CPU(), la_instruction{DECODER().instr});
+	REG(0) = 0; // The zero register is constant
 	NEXT_INSTR();
 }
 INSTRUCTION(LA64_BC_FUNCTION2, execute_function_extended)
@@ -1036,6 +1037,7 @@ INSTRUCTION(LA64_BC_FUNCTION2, execute_function_extended)
 	// Call the cached handler for this instruction
 	const auto handler = DECODER().get_extended_handler();
 	handler(CPU(), la_instruction{DECODER().instr});
+	REG(0) = 0; // The zero register is constant
 	NEXT_INSTR();
 }
 
diff --git a/lib/libloong/cpu.cpp b/lib/libloong/cpu.cpp
index 83f6398..fecf4a9 100644
--- a/lib/libloong/cpu.cpp
+++ b/lib/libloong/cpu.cpp
@@ -70,6 +70,8 @@ namespace loongarch
 	{
 		const auto& handler = decode(instr);
 		handler.handler(*this, instr);
+		// Handlers may write to rd=0, but the zero register is constant
+		reg(0) = 0;
 	}
 
 	bool CPU::is_executable(address_t addr) const noexcept
-- 
2.43.0


From 9c70e3033a63d2e6c8c024e7a6f4aa7c181cf58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 02/58] fix: do not truncate the instruction count of blocks
 longer than 255 instructions

---
 lib/libloong/decoder_cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/decoder_cache.hpp b/lib/libloong/decoder_cache.hpp
index 9fab1cc..18f302e 100644
--- a/lib/libloong/decoder_cache.hpp
+++ b/lib/libloong/decoder_cache.hpp
@@ -16,7 +16,7 @@ namespace loongarch
 
 		// Calculate number of instructions in this block (LoongArch = 4 bytes per instruction)
 		// This includes the current (diverging) instruction: block instructions + 1
-		uint8_t instruction_count() const noexcept { return (block_bytes / 4) + 1; }
+		uint32_t instruction_count() const noexcept { return (block_bytes / 4u) + 1; }
 
 		// Bytecode accessors for threaded dispatch
 		uint8_t get_bytecode() const noexcept { return bytecode; }
-- 
2.43.0


From 4539bf080ddcf4833a147e516bb61bfd1f75ad1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 03/58] fix: keep the full range of branch offsets in the
 decoder cache

---
 lib/libloong/bytecode_impl.cpp      | 20 ++++++++++----------
 lib/libloong/threaded_bytecodes.hpp | 18 +++++++++++-------
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index b95b27a..f1d9c4e 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -460,7 +460,7 @@ INSTRUCTION(LA64_BC_BEQZ, la64_beqz)
 {
 	auto fi = *(FasterLA64_RI21_Branch *)&DECODER().instr;
 	if (REG(fi.rj) == 0) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -470,7 +470,7 @@ INSTRUCTION(LA64_BC_BNEZ, la64_bnez)
 {
 	auto fi = *(FasterLA64_RI21_Branch *)&DECODER().instr;
 	if (REG(fi.rj) != 0) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -480,7 +480,7 @@ INSTRUCTION(LA64_BC_BEQ, la64_beq)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) == REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -490,7 +490,7 @@ INSTRUCTION(LA64_BC_BNE, la64_bne)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) != REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -500,7 +500,7 @@ INSTRUCTION(LA64_BC_BLT, la64_blt)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if ((saddress_t)REG(fi.rj) < (saddress_t)REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -510,7 +510,7 @@ INSTRUCTION(LA64_BC_BGE, la64_bge)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if ((saddress_t)REG(fi.rj) >= (saddress_t)REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -520,7 +520,7 @@ INSTRUCTION(LA64_BC_BLTU, la64_bltu)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) < REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -530,7 +530,7 @@ INSTRUCTION(LA64_BC_BGEU, la64_bgeu)
 {
 	auto fi = *(FasterLA64_RI16_Branch *)&DECODER().instr;
 	if (REG(fi.rj) >= REG(fi.rd)) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -718,7 +718,7 @@ INSTRUCTION(LA64_BC_BCEQZ, la64_bceqz)
 {
 	auto fi = *(FasterLA64_RI21_Branch *)&DECODER().instr;
 	if (REGISTERS().cf(fi.rj) == 0) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
@@ -728,7 +728,7 @@ INSTRUCTION(LA64_BC_BCNEZ, la64_bcnez)
 {
 	auto fi = *(FasterLA64_RI21_Branch *)&DECODER().instr;
 	if (REGISTERS().cf(fi.rj) != 0) {
-		PERFORM_BRANCH(fi.offset);
+		PERFORM_BRANCH(fi.get_offset());
 	}
 	NEXT_BLOCK_UNCHECKED(4);
 }
diff --git a/lib/libloong/threaded_bytecodes.hpp b/lib/libloong/threaded_bytecodes.hpp
index 7d1e6da..c2996f6 100644
--- a/lib/libloong/threaded_bytecodes.hpp
+++ b/lib/libloong/threaded_bytecodes.hpp
@@ -411,13 +411,15 @@ namespace loongarch
 		uint32_t whole;
 		struct {
 			uint8_t rj;      // bits [4:0] - register to test (or condition flag for BC*)
-			uint8_t padding; // bits [12:5] - unused, available for future use
-			int16_t offset;  // bits [28:13] - pre-computed offset (sign-extended, already << 2)
+			uint8_t offset[3]; // branch offset in instructions (sign-extended)
 		};
 		void set_offset(int32_t offs) {
 			// The offset has already been << 2 in the optimizer
-			// Store it as a 16-bit value (will be valid if within segment)
-			this->offset = (int16_t)offs;
+			// Store all 21 significant bits of it above the register
+			this->whole = (uint32_t(offs >> 2) << 8) | this->rj;
+		}
+		int32_t get_offset() const {
+			return (int32_t(this->whole) >> 8) * 4;
 		}
 	};
 
@@ -427,12 +429,14 @@ namespace loongarch
 		struct {
 			uint8_t rd;      // bits [4:0] - first register
 			uint8_t rj;      // bits [9:5] - second register
-			int16_t offset;  // bits [25:10] - pre-computed offset (sign-extended, already << 2)
+			int16_t offset;  // bits [25:10] - offset in instructions (sign-extended)
 		};
 		void set_offset(int32_t offs) {
 			// The offset has already been << 2 in the optimizer
-			// Store it as a 16-bit value (will be valid if within segment)
-			this->offset = (int16_t)offs;
+			this->offset = (int16_t)(offs >> 2);
+		}
+		int32_t get_offset() const {
+			return this->offset * 4;
 		}
 	};
 
-- 
2.43.0


From 95dd3c55bf25c33010740672f07c228ebc06de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 04/58] fix: BSTRPICK/BSTRINS of full-width bit fields,
 sign-extend BSTRPICK.W

---
 lib/libloong/bytecode_impl.cpp | 8 ++++----
 lib/libloong/la_instr_impl.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index f1d9c4e..1d12481 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -194,7 +194,7 @@ INSTRUCTION(LA64_BC_BSTRPICK_D, la64_bstrpick_d)
 	auto fi = *(FasterLA64_BitField *)&DECODER().instr;
 	const address_t src = REG(fi.rj);
 	const uint32_t width = fi.msbd - fi.lsbd + 1;
-	const address_t mask = (1ULL << width) - 1;
+	const address_t mask = ~0ULL >> (64 - width);
 	REG(fi.rd) = (src >> fi.lsbd) & mask;
 	NEXT_INSTR();
 }
@@ -308,8 +308,8 @@ INSTRUCTION(LA64_BC_BSTRPICK_W, la64_bstrpick_w)
 	auto fi = *(FasterLA64_BitFieldW *)&DECODER().instr;
 	const uint32_t src = (uint32_t)REG(fi.rj);
 	const uint32_t width = fi.msbw - fi.lsbw + 1;
-	const uint32_t mask = (1U << width) - 1;
-	REG(fi.rd) = (src >> fi.lsbw) & mask;
+	const uint32_t mask = ~0U >> (32 - width);
+	REG(fi.rd) = (int32_t)((src >> fi.lsbw) & mask);
 	NEXT_INSTR();
 }
 
@@ -419,7 +419,7 @@ INSTRUCTION(LA64_BC_BSTRINS_D, la64_bstrins_d)
 	// Valid when msbd >= lsbd
 	if (fi.msbd >= fi.lsbd) {
 		uint32_t width = fi.msbd - fi.lsbd + 1;
-		uint64_t mask = ((1ULL << width) - 1) << fi.lsbd;
+		uint64_t mask = (~0ULL >> (64 - width)) << fi.lsbd;
 		uint64_t bits = (src << fi.lsbd) & mask;
 		REG(fi.rd) = (dst & ~mask) | bits;
 	}
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index f170aff..220e624 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -592,7 +592,7 @@ struct InstrImpl {
 		// Valid when msbd >= lsbd
 		if (msbd >= lsbd) {
 			uint32_t width = msbd - lsbd + 1;
-			uint64_t mask = ((1ULL << width) - 1) << lsbd;
+			uint64_t mask = (~0ULL >> (64 - width)) << lsbd;
 			uint64_t bits = (src << lsbd) & mask;
 			cpu.reg(instr.ri16.rd) = (dst & ~mask) | bits;
 		}
@@ -606,7 +606,7 @@ struct InstrImpl {
 
 		// Extract the bit field
 		uint32_t width = msbd - lsbd + 1;
-		uint64_t mask = (1ULL << width) - 1;
+		uint64_t mask = ~0ULL >> (64 - width);
 		uint64_t result = (src >> lsbd) & mask;
 		cpu.reg(instr.ri16.rd) = result;
 	}
@@ -622,7 +622,7 @@ struct InstrImpl {
 		// Valid when msbw >= lsbw
 		if (msbw >= lsbw) {
 			uint32_t width = msbw - lsbw + 1;
-			uint32_t mask = ((1U << width) - 1) << lsbw;
+			uint32_t mask = (~0U >> (32 - width)) << lsbw;
 			uint32_t bits = (src << lsbw) & mask;
 			uint32_t result = (dst & ~mask) | bits;
 			// Sign-extend to 64 bits
@@ -639,7 +639,7 @@ struct InstrImpl {
 
 		// Extract the bit field
 		uint32_t width = msbw - lsbw + 1;
-		uint32_t mask = (1U << width) - 1;
+		uint32_t mask = ~0U >> (32 - width);
 		uint32_t result = (src >> lsbw) & mask;
 		cpu.reg(instr.ri16.rd) = (int32_t)result;
 	}
-- 
2.43.0


From 6ffef9e5577050114084fcde8b03a45e27562db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 05/58] fix: BYTEPICK.D selects the bytes below the top of
 [rk:rj]

---
 lib/libloong/bytecode_impl.cpp | 4 ++--
 lib/libloong/la_instr_impl.hpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 1d12481..59a20f1 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -752,9 +752,9 @@ INSTRUCTION(LA64_BC_BYTEPICK_D, la64_bytepick_d)
 	uint32_t shift = fi.sa3 * 8;
 	uint64_t result;
 	if (shift == 0) {
-		result = rj_val;
+		result = rk_val;
 	} else {
-		result = (rk_val << (64 - shift)) | (rj_val >> shift);
+		result = (rk_val << shift) | (rj_val >> (64 - shift));
 	}
 	REG(fi.rd) = result;
 	NEXT_INSTR();
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 220e624..c462615 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -164,7 +164,7 @@ struct InstrImpl {
 	static void BYTEPICK_D(cpu_t& cpu, la_instruction instr) {
 		// BYTEPICK.D rd, rj, rk, sa3
 		// Concatenates rk and rj as a 128-bit value [rk:rj]
-		// Then extracts 64 bits starting at byte offset sa3
+		// Then extracts the 64 bits sa3 bytes below the top
 		uint32_t sa3 = (instr.whole >> 15) & 0x7;
 		uint64_t rj_val = cpu.reg(instr.r3.rj);
 		uint64_t rk_val = cpu.reg(instr.r3.rk);
@@ -172,12 +172,12 @@ struct InstrImpl {
 		// Shift amount in bits = sa3 * 8
 		uint32_t shift = sa3 * 8;
 
-		// Result is (rk << (64 - shift)) | (rj >> shift)
+		// Result is (rk << shift) | (rj >> (64 - shift))
 		uint64_t result;
 		if (shift == 0) {
-			result = rj_val;
+			result = rk_val;
 		} else {
-			result = (rk_val << (64 - shift)) | (rj_val >> shift);
+			result = (rk_val << shift) | (rj_val >> (64 - shift));
 		}
 		cpu.reg(instr.r3.rd) = result;
 	}
-- 
2.43.0


From 56fae2dc33789ad26be51241e719265b3c1130ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 06/58] fix: signed division overflow must not trap in the host

---
 lib/libloong/la_instr_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index c462615..6c0eef3 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -62,13 +62,13 @@ struct InstrImpl {
 	static void DIV_W(cpu_t& cpu, la_instruction instr) {
 		int32_t a = static_cast<int32_t>(cpu.reg(instr.r3.rj));
 		int32_t b = static_cast<int32_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int64_t>(a / b) : 0;
+		cpu.reg(instr.r3.rd) = (b == -1) ? static_cast<int64_t>(static_cast<int32_t>(0 - uint32_t(a))) : (b != 0) ? static_cast<int64_t>(a / b) : 0;
 	}
 
 	static void MOD_W(cpu_t& cpu, la_instruction instr) {
 		int32_t a = static_cast<int32_t>(cpu.reg(instr.r3.rj));
 		int32_t b = static_cast<int32_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int64_t>(a % b) : 0;
+		cpu.reg(instr.r3.rd) = (b != 0 && b != -1) ? static_cast<int64_t>(a % b) : 0;
 	}
 
 	static void DIV_WU(cpu_t& cpu, la_instruction instr) {
@@ -86,13 +86,13 @@ struct InstrImpl {
 	static void DIV_D(cpu_t& cpu, la_instruction instr) {
 		int64_t a = static_cast<int64_t>(cpu.reg(instr.r3.rj));
 		int64_t b = static_cast<int64_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? (a / b) : 0;
+		cpu.reg(instr.r3.rd) = (b == -1) ? (0 - uint64_t(a)) : (b != 0) ? (a / b) : 0;
 	}
 
 	static void MOD_D(cpu_t& cpu, la_instruction instr) {
 		int64_t a = static_cast<int64_t>(cpu.reg(instr.r3.rj));
 		int64_t b = static_cast<int64_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? (a % b) : 0;
+		cpu.reg(instr.r3.rd) = (b != 0 && b != -1) ? (a % b) : 0;
 	}
 
 	static void DIV_DU(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From 83ac42e5ea6de424e9c7cc9c07a48881eb900a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 07/58] fix: PCADDU18I offset needs 38 bits

---
 lib/libloong/la_instr_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 6c0eef3..3bb1b30 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -570,7 +570,7 @@ struct InstrImpl {
 
 	static void PCADDU18I(cpu_t& cpu, la_instruction instr) {
 		int32_t si20 = InstructionHelpers::sign_extend_20(instr.ri20.imm);
-		int64_t offset = (int64_t)(si20 << 18);
+		int64_t offset = (int64_t)si20 << 18;
 		cpu.reg(instr.ri20.rd) = cpu.pc() + offset;
 	}
 
-- 
2.43.0


From bc7c3e31ab901e50d43f409e2b25380fb673d0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 08/58] fix: BCEQZ/BCNEZ handlers use the full 21-bit offset

---
 lib/libloong/la_instr_impl.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 3bb1b30..97cc9fb 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -3029,11 +3029,7 @@ struct InstrImpl {
 		// BCNEZ: Branch if condition flag is not equal to zero
 		// Format: 0x48xxxxxx
 		uint32_t cj = (instr.whole >> 5) & 0x7;
-		int32_t offset = ((instr.whole >> 10) & 0xFFFF) << 2;
-		// Sign extend
-		if (offset & 0x20000) {
-			offset |= 0xFFFC0000;
-		}
+		int32_t offset = InstructionHelpers::sign_extend_21(instr.ri21.offs_lo, instr.ri21.offs_hi) << 2;
 
 		if (cpu.registers().cf(cj) != 0) {
 			cpu.increment_pc(offset-4);
@@ -3043,10 +3039,7 @@ struct InstrImpl {
 	static void BCEQZ(cpu_t& cpu, la_instruction instr) {
 		// BCEQZ: Branch if condition flag equals zero
 		uint32_t cj = (instr.whole >> 5) & 0x7;
-		int32_t offset = ((instr.whole >> 10) & 0xFFFF) << 2;
-		if (offset & 0x20000) {
-			offset |= 0xFFFC0000;
-		}
+		int32_t offset = InstructionHelpers::sign_extend_21(instr.ri21.offs_lo, instr.ri21.offs_hi) << 2;
 
 		if (cpu.registers().cf(cj) == 0) {
 			cpu.increment_pc(offset-4);
-- 
2.43.0


From e56a9be9f5303760c4b7f0b479788f8c7cc05660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 09/58] fix: FCLASS result bits follow the ISA

---
 lib/libloong/la_instr_impl.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 97cc9fb..ed8bf45 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -1143,15 +1143,15 @@ struct InstrImpl {
 		// FCLASS returns a 10-bit mask indicating the class
 		uint32_t result = 0;
 		if (fpclass == FP_NAN) {
-			if (std::isnan(val)) result = is_neg ? 0x001 : 0x200; // sNaN or qNaN
+			result = (vr_j.wu[0] & 0x00400000) ? 0x002 : 0x001; // qNaN or sNaN
 		} else if (fpclass == FP_INFINITE) {
-			result = is_neg ? 0x002 : 0x100;
+			result = is_neg ? 0x004 : 0x040;
 		} else if (fpclass == FP_ZERO) {
-			result = is_neg ? 0x004 : 0x080;
+			result = is_neg ? 0x020 : 0x200;
 		} else if (fpclass == FP_SUBNORMAL) {
-			result = is_neg ? 0x008 : 0x040;
+			result = is_neg ? 0x010 : 0x100;
 		} else if (fpclass == FP_NORMAL) {
-			result = is_neg ? 0x010 : 0x020;
+			result = is_neg ? 0x008 : 0x080;
 		}
 		vr_d.wu[0] = result;
 	}
@@ -1171,15 +1171,15 @@ struct InstrImpl {
 		// FCLASS returns a 10-bit mask indicating the class
 		uint64_t result = 0;
 		if (fpclass == FP_NAN) {
-			if (std::isnan(val)) result = is_neg ? 0x001 : 0x200; // sNaN or qNaN
+			result = (vr_j.du[0] & 0x0008000000000000ULL) ? 0x002 : 0x001; // qNaN or sNaN
 		} else if (fpclass == FP_INFINITE) {
-			result = is_neg ? 0x002 : 0x100;
+			result = is_neg ? 0x004 : 0x040;
 		} else if (fpclass == FP_ZERO) {
-			result = is_neg ? 0x004 : 0x080;
+			result = is_neg ? 0x020 : 0x200;
 		} else if (fpclass == FP_SUBNORMAL) {
-			result = is_neg ? 0x008 : 0x040;
+			result = is_neg ? 0x010 : 0x100;
 		} else if (fpclass == FP_NORMAL) {
-			result = is_neg ? 0x010 : 0x020;
+			result = is_neg ? 0x008 : 0x080;
 		}
 		vr_d.du[0] = result;
 	}
-- 
2.43.0


From 877d6f60526f8394581b99f04295682817b25219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 10/58] fix: scalar multiply-add instructions are fused

---
 lib/libloong/bytecode_impl.cpp      |  2 +-
 lib/libloong/la_instr_impl.hpp      | 16 ++++++++--------
 lib/libloong/threaded_bytecodes.hpp |  2 ++
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 59a20f1..ef9c5b8 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -689,7 +689,7 @@ INSTRUCTION(LA64_BC_FMADD_D, la64_fmadd_d)
 	const auto& vr_a = REGISTERS().getvr(fi.ra);
 	auto& vr_d = REGISTERS().getvr(fi.rd);
 
-	vr_d.df[0] = vr_a.df[0] + vr_j.df[0] * vr_k.df[0];
+	vr_d.df[0] = std::fma(vr_j.df[0], vr_k.df[0], vr_a.df[0]);
 	NEXT_INSTR();
 }
 
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index ed8bf45..2e00912 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -1400,7 +1400,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = vr_a.f[0] + vr_j.f[0] * vr_k.f[0];
+		vr_d.f[0] = std::fma(vr_j.f[0], vr_k.f[0], vr_a.f[0]);
 	}
 
 	static void FMSUB_S(cpu_t& cpu, la_instruction instr) {
@@ -1410,7 +1410,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = vr_k.f[0] * vr_j.f[0] - vr_a.f[0];
+		vr_d.f[0] = std::fma(vr_j.f[0], vr_k.f[0], -vr_a.f[0]);
 	}
 
 	static void FLDX_S(cpu_t& cpu, la_instruction instr) {
@@ -1451,7 +1451,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = vr_k.df[0] * vr_j.df[0] - vr_a.df[0];
+		vr_d.df[0] = std::fma(vr_j.df[0], vr_k.df[0], -vr_a.df[0]);
 	}
 
 	static void FMADD_D(cpu_t& cpu, la_instruction instr) {
@@ -1461,7 +1461,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = vr_a.df[0] + vr_j.df[0] * vr_k.df[0];
+		vr_d.df[0] = std::fma(vr_j.df[0], vr_k.df[0], vr_a.df[0]);
 	}
 
 	static void FNMADD_S(cpu_t& cpu, la_instruction instr) {
@@ -1471,7 +1471,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = -(vr_a.f[0] + vr_j.f[0] * vr_k.f[0]);
+		vr_d.f[0] = -std::fma(vr_j.f[0], vr_k.f[0], vr_a.f[0]);
 	}
 
 	static void FNMADD_D(cpu_t& cpu, la_instruction instr) {
@@ -1481,7 +1481,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = -(vr_a.df[0] + vr_j.df[0] * vr_k.df[0]);
+		vr_d.df[0] = -std::fma(vr_j.df[0], vr_k.df[0], vr_a.df[0]);
 	}
 
 	static void FNMSUB_S(cpu_t& cpu, la_instruction instr) {
@@ -1491,7 +1491,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = vr_a.f[0] - vr_j.f[0] * vr_k.f[0];
+		vr_d.f[0] = -std::fma(vr_j.f[0], vr_k.f[0], -vr_a.f[0]);
 	}
 
 	static void FNMSUB_D(cpu_t& cpu, la_instruction instr) {
@@ -1501,7 +1501,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = vr_a.df[0] - vr_j.df[0] * vr_k.df[0];
+		vr_d.df[0] = -std::fma(vr_j.df[0], vr_k.df[0], -vr_a.df[0]);
 	}
 
 	static void CLO_W(cpu_t& cpu, la_instruction instr) {
diff --git a/lib/libloong/threaded_bytecodes.hpp b/lib/libloong/threaded_bytecodes.hpp
index c2996f6..709df0f 100644
--- a/lib/libloong/threaded_bytecodes.hpp
+++ b/lib/libloong/threaded_bytecodes.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include <cmath>
+#include <cstdint>
 
 namespace loongarch
 {
-- 
2.43.0


From 9e298af17ffda62f3d5ad87764b888b34a1ba459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 11/58] fix: vector multiply-add instructions are fused and
 have the signs of the ISA

---
 lib/libloong/bytecode_impl.cpp |  4 +--
 lib/libloong/la_instr_impl.hpp | 62 +++++++++++++++++-----------------
 2 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index ef9c5b8..aa2d262 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -615,8 +615,8 @@ INSTRUCTION(LA64_BC_VFMADD_D, la64_vfmadd_d)
 	const auto& src_k = REGISTERS().getvr(fi.rk);
 	const auto& src_a = REGISTERS().getvr(fi.ra);
 
-	dst.df[0] = src_a.df[0] + src_j.df[0] * src_k.df[0];
-	dst.df[1] = src_a.df[1] + src_j.df[1] * src_k.df[1];
+	dst.df[0] = std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+	dst.df[1] = std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
 	NEXT_INSTR();
 }
 
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 2e00912..63a0279 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -2873,8 +2873,8 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(instr.r4.ra);
 		auto& dst = cpu.registers().getvr(instr.r4.rd);
 
-		dst.df[0] = src_a.df[0] + src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] + src_j.df[1] * src_k.df[1];
+		dst.df[0] = std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+		dst.df[1] = std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
@@ -2882,14 +2882,14 @@ struct InstrImpl {
 
 	static void VFNMADD_D(cpu_t& cpu, la_instruction instr) {
 		// VFNMADD.D: Vector fused negative multiply-add (double precision, 2x64-bit)
-		// 4R-type format: vd = -(vj * vk) + va = va - vj * vk
+		// 4R-type format: vd = -(vj * vk + va)
 		const auto& src_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& src_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& src_a = cpu.registers().getvr(instr.r4.ra);
 		auto& dst = cpu.registers().getvr(instr.r4.rd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
+		dst.df[0] = -std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+		dst.df[1] = -std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
@@ -3874,7 +3874,7 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = src_a.f[i] + src_j.f[i] * src_k.f[i];
+			dst.f[i] = std::fma(src_j.f[i], src_k.f[i], src_a.f[i]);
 		}
 	}
 
@@ -3891,15 +3891,15 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = src_a.df[0] + src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] + src_j.df[1] * src_k.df[1];
-		dst.df[2] = src_a.df[2] + src_j.df[2] * src_k.df[2];
-		dst.df[3] = src_a.df[3] + src_j.df[3] * src_k.df[3];
+		dst.df[0] = std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+		dst.df[1] = std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
+		dst.df[2] = std::fma(src_j.df[2], src_k.df[2], src_a.df[2]);
+		dst.df[3] = std::fma(src_j.df[3], src_k.df[3], src_a.df[3]);
 	}
 
 	static void XVFMSUB_S(cpu_t& cpu, la_instruction instr) {
 		// XVFMSUB.S: LASX vector fused multiply-subtract (single precision, 8x32-bit)
-		// 4R-type format: xd = xa - xj * xk
+		// 4R-type format: xd = xj * xk - xa
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3911,13 +3911,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = src_a.f[i] - src_j.f[i] * src_k.f[i];
+			dst.f[i] = std::fma(src_j.f[i], src_k.f[i], -src_a.f[i]);
 		}
 	}
 
 	static void XVFMSUB_D(cpu_t& cpu, la_instruction instr) {
 		// XVFMSUB.D: LASX vector fused multiply-subtract (double precision, 4x64-bit)
-		// 4R-type format: xd = xa - xj * xk
+		// 4R-type format: xd = xj * xk - xa
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3928,15 +3928,15 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
-		dst.df[2] = src_a.df[2] - src_j.df[2] * src_k.df[2];
-		dst.df[3] = src_a.df[3] - src_j.df[3] * src_k.df[3];
+		dst.df[0] = std::fma(src_j.df[0], src_k.df[0], -src_a.df[0]);
+		dst.df[1] = std::fma(src_j.df[1], src_k.df[1], -src_a.df[1]);
+		dst.df[2] = std::fma(src_j.df[2], src_k.df[2], -src_a.df[2]);
+		dst.df[3] = std::fma(src_j.df[3], src_k.df[3], -src_a.df[3]);
 	}
 
 	static void XVFNMADD_S(cpu_t& cpu, la_instruction instr) {
 		// XVFNMADD.S: LASX vector fused negative multiply-add (single precision, 8x32-bit)
-		// 4R-type format: xd = -(xj * xk) + xa = xa - xj * xk
+		// 4R-type format: xd = -(xj * xk + xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3948,13 +3948,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = src_a.f[i] - src_j.f[i] * src_k.f[i];
+			dst.f[i] = -std::fma(src_j.f[i], src_k.f[i], src_a.f[i]);
 		}
 	}
 
 	static void XVFNMADD_D(cpu_t& cpu, la_instruction instr) {
 		// XVFNMADD.D: LASX vector fused negative multiply-add (double precision, 4x64-bit)
-		// 4R-type format: xd = -(xj * xk) + xa = xa - xj * xk
+		// 4R-type format: xd = -(xj * xk + xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3965,15 +3965,15 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
-		dst.df[2] = src_a.df[2] - src_j.df[2] * src_k.df[2];
-		dst.df[3] = src_a.df[3] - src_j.df[3] * src_k.df[3];
+		dst.df[0] = -std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+		dst.df[1] = -std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
+		dst.df[2] = -std::fma(src_j.df[2], src_k.df[2], src_a.df[2]);
+		dst.df[3] = -std::fma(src_j.df[3], src_k.df[3], src_a.df[3]);
 	}
 
 	static void XVFNMSUB_S(cpu_t& cpu, la_instruction instr) {
 		// XVFNMSUB.S: LASX vector fused negative multiply-subtract (single precision, 8x32-bit)
-		// 4R-type format: xd = -(xj * xk) - xa = -xa - xj * xk
+		// 4R-type format: xd = -(xj * xk - xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3985,13 +3985,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = -(src_a.f[i] + src_j.f[i] * src_k.f[i]);
+			dst.f[i] = -std::fma(src_j.f[i], src_k.f[i], -src_a.f[i]);
 		}
 	}
 
 	static void XVFNMSUB_D(cpu_t& cpu, la_instruction instr) {
 		// XVFNMSUB.D: LASX vector fused negative multiply-subtract (double precision, 4x64-bit)
-		// 4R-type format: xd = -(xj * xk) - xa = -xa - xj * xk
+		// 4R-type format: xd = -(xj * xk - xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4002,10 +4002,10 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = -(src_a.df[0] + src_j.df[0] * src_k.df[0]);
-		dst.df[1] = -(src_a.df[1] + src_j.df[1] * src_k.df[1]);
-		dst.df[2] = -(src_a.df[2] + src_j.df[2] * src_k.df[2]);
-		dst.df[3] = -(src_a.df[3] + src_j.df[3] * src_k.df[3]);
+		dst.df[0] = -std::fma(src_j.df[0], src_k.df[0], -src_a.df[0]);
+		dst.df[1] = -std::fma(src_j.df[1], src_k.df[1], -src_a.df[1]);
+		dst.df[2] = -std::fma(src_j.df[2], src_k.df[2], -src_a.df[2]);
+		dst.df[3] = -std::fma(src_j.df[3], src_k.df[3], -src_a.df[3]);
 	}
 
 	static void XVORI_B(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From bec2e255875fe70ec2d01fbe6e78ff091f053f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 12/58] fix: implement all floating-point compare conditions

---
 lib/libloong/la_instr_impl.hpp | 102 ++++++++++++++++++++++++++++++++-
 1 file changed, 100 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 63a0279..70c52fb 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -910,6 +910,9 @@ struct InstrImpl {
 		bool result = false;
 
 		switch (cond) {
+			case 0x00: // CAF - (Quiet) Always False
+			case 0x01: // SAF - Signaling Always False
+				break;
 			case 0x02: // CLT - (Quiet) Less Than (ordered)
 			case 0x03: // SLT - Signaling Less Than (ordered)
 				result = !is_unordered && (fj_val < fk_val);
@@ -931,6 +934,7 @@ struct InstrImpl {
 				result = is_unordered || (fj_val <= fk_val);
 				break;
 			case 0x14: // COR - (Quiet) Ordered
+			case 0x15: // SOR - Signaling Ordered
 				result = !is_unordered;
 				break;
 			case 0x18: // CUNE - (Quiet) Unordered or Not Equal
@@ -941,6 +945,14 @@ struct InstrImpl {
 			case 0xB: // SULT - Signaling Less than or incomparable
 				result = (fj_val < fk_val) || is_unordered;
 				break;
+			case 0x0C: // CUEQ - (Quiet) Unordered or Equal
+			case 0x0D: // SUEQ - Signaling Unordered or Equal
+				result = is_unordered || (fj_val == fk_val);
+				break;
+			case 0x10: // CNE - (Quiet) Not Equal (ordered)
+			case 0x11: // SNE - Signaling Not Equal (ordered)
+				result = !is_unordered && (fj_val != fk_val);
+				break;
 			default:
 				// Unknown condition code - this should not happen in normal execution
 				throw MachineException(ILLEGAL_OPCODE,
@@ -967,6 +979,9 @@ struct InstrImpl {
 		bool result = false;
 
 		switch (cond) {
+			case 0x00: // CAF - (Quiet) Always False
+			case 0x01: // SAF - Signaling Always False
+				break;
 			case 0x02: // CLT - (Quiet) Less Than (ordered)
 			case 0x03: // SLT - Signaling Less Than (ordered)
 				result = !is_unordered && (fj_val < fk_val);
@@ -988,6 +1003,7 @@ struct InstrImpl {
 				result = is_unordered || (fj_val <= fk_val);
 				break;
 			case 0x14: // COR - (Quiet) Ordered
+			case 0x15: // SOR - Signaling Ordered
 				result = !is_unordered;
 				break;
 			case 0x18: // CUNE - (Quiet) Unordered or Not Equal
@@ -998,6 +1014,14 @@ struct InstrImpl {
 			case 0xB: // SULT - Signaling Less than or incomparable
 				result = (fj_val < fk_val) || is_unordered;
 				break;
+			case 0x0C: // CUEQ - (Quiet) Unordered or Equal
+			case 0x0D: // SUEQ - Signaling Unordered or Equal
+				result = is_unordered || (fj_val == fk_val);
+				break;
+			case 0x10: // CNE - (Quiet) Not Equal (ordered)
+			case 0x11: // SNE - Signaling Not Equal (ordered)
+				result = !is_unordered && (fj_val != fk_val);
+				break;
 			default:
 				// Unknown condition code - this should not happen in normal execution
 				throw MachineException(ILLEGAL_OPCODE,
@@ -1024,6 +1048,10 @@ struct InstrImpl {
 			double val1 = src1.df[i];
 			double val2 = src2.df[i];
 			switch (cond) {
+				case 0x00: // CAF - (Quiet) Always False
+				case 0x01: // SAF - Signaling Always False
+					dst.du[i] = 0;
+					break;
 				case 0x02: // CLT - (Quiet) Less Than (ordered)
 				case 0x03: // SLT - Signaling Less Than (ordered)
 					if (std::isnan(val1) || std::isnan(val2)) {
@@ -1057,6 +1085,7 @@ struct InstrImpl {
 					}
 					break;
 				case 0x14: // COR - (Quiet) Ordered
+				case 0x15: // SOR - Signaling Ordered
 					if (std::isnan(val1) || std::isnan(val2)) {
 						dst.du[i] = 0;
 					} else {
@@ -1071,6 +1100,38 @@ struct InstrImpl {
 						dst.du[i] = (val1 != val2) ? UINT64_MAX : 0;
 					}
 					break;
+				case 0x08: // CUN - (Quiet) Unordered
+				case 0x09: // SUN - Signaling Unordered
+					if (std::isnan(val1) || std::isnan(val2)) {
+						dst.du[i] = UINT64_MAX;
+					} else {
+						dst.du[i] = 0;
+					}
+					break;
+				case 0x0A: // CULT - (Quiet) Unordered or Less Than
+				case 0x0B: // SULT - Signaling Unordered or Less Than
+					if (std::isnan(val1) || std::isnan(val2)) {
+						dst.du[i] = UINT64_MAX;
+					} else {
+						dst.du[i] = (val1 < val2) ? UINT64_MAX : 0;
+					}
+					break;
+				case 0x0C: // CUEQ - (Quiet) Unordered or Equal
+				case 0x0D: // SUEQ - Signaling Unordered or Equal
+					if (std::isnan(val1) || std::isnan(val2)) {
+						dst.du[i] = UINT64_MAX;
+					} else {
+						dst.du[i] = (val1 == val2) ? UINT64_MAX : 0;
+					}
+					break;
+				case 0x10: // CNE - (Quiet) Not Equal (ordered)
+				case 0x11: // SNE - Signaling Not Equal (ordered)
+					if (std::isnan(val1) || std::isnan(val2)) {
+						dst.du[i] = 0;
+					} else {
+						dst.du[i] = (val1 != val2) ? UINT64_MAX : 0;
+					}
+					break;
 				default:
 					throw MachineException(ILLEGAL_OPCODE,
 						"VFCMP.COND.D: Unsupported condition code", instr.whole);
@@ -2183,6 +2244,10 @@ struct InstrImpl {
 			double val1 = src1.df[i];
 			double val2 = src2.df[i];
 			switch (cond) {
+				case 0x00: // CAF - (Quiet) Always False
+				case 0x01: // SAF - Signaling Always False
+					dst.du[i] = 0;
+					break;
 				case 0x02: // CLT - (Quiet) Less Than (ordered)
 				case 0x03: // SLT - Signaling Less Than (ordered)
 					if (std::isnan(val1) || std::isnan(val2)) {
@@ -2216,6 +2281,7 @@ struct InstrImpl {
 					}
 					break;
 				case 0x14: // COR - (Quiet) Ordered
+				case 0x15: // SOR - Signaling Ordered
 					if (std::isnan(val1) || std::isnan(val2)) {
 						dst.du[i] = 0;
 					} else {
@@ -2230,9 +2296,41 @@ struct InstrImpl {
 						dst.du[i] = (val1 != val2) ? UINT64_MAX : 0;
 					}
 					break;
-				default:
-					dst.du[i] = 0;
+				case 0x08: // CUN - (Quiet) Unordered
+				case 0x09: // SUN - Signaling Unordered
+					if (std::isnan(val1) || std::isnan(val2)) {
+						dst.du[i] = UINT64_MAX;
+					} else {
+						dst.du[i] = 0;
+					}
+					break;
+				case 0x0A: // CULT - (Quiet) Unordered or Less Than
+				case 0x0B: // SULT - Signaling Unordered or Less Than
+					if (std::isnan(val1) || std::isnan(val2)) {
+						dst.du[i] = UINT64_MAX;
+					} else {
+						dst.du[i] = (val1 < val2) ? UINT64_MAX : 0;
+					}
+					break;
+				case 0x0C: // CUEQ - (Quiet) Unordered or Equal
+				case 0x0D: // SUEQ - Signaling Unordered or Equal
+					if (std::isnan(val1) || std::isnan(val2)) {
+						dst.du[i] = UINT64_MAX;
+					} else {
+						dst.du[i] = (val1 == val2) ? UINT64_MAX : 0;
+					}
 					break;
+				case 0x10: // CNE - (Quiet) Not Equal (ordered)
+				case 0x11: // SNE - Signaling Not Equal (ordered)
+					if (std::isnan(val1) || std::isnan(val2)) {
+						dst.du[i] = 0;
+					} else {
+						dst.du[i] = (val1 != val2) ? UINT64_MAX : 0;
+					}
+					break;
+				default:
+					throw MachineException(ILLEGAL_OPCODE,
+						"XVFCMP.COND.D: Unsupported condition code", instr.whole);
 			}
 		}
 	}
-- 
2.43.0


From ddc7140280b421f0646255e238694d7b78c67bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 13/58] fix: VHADDW/XVHADDW add odd elements of vj to even
 elements of vk

---
 lib/libloong/bytecode_impl.cpp |  6 +++---
 lib/libloong/la_instr_impl.hpp | 35 +++++++++++++++-------------------
 2 files changed, 18 insertions(+), 23 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index aa2d262..914df53 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -628,9 +628,9 @@ INSTRUCTION(LA64_BC_VHADDW_D_W, la64_vhaddw_d_w)
 	const auto& src1 = REGISTERS().getvr(fi.rj);
 	const auto& src2 = REGISTERS().getvr(fi.rk);
 
-	// Add adjacent pairs: vj[0]+vj[1], vk[0]+vk[1]
-	const int64_t res1 = (int64_t)(int32_t)src1.w[0] + (int64_t)(int32_t)src1.w[1];
-	const int64_t res2 = (int64_t)(int32_t)src2.w[0] + (int64_t)(int32_t)src2.w[1];
+	// Add the odd words of vj to the even words of vk: vj[1]+vk[0], vj[3]+vk[2]
+	const int64_t res1 = (int64_t)(int32_t)src1.w[1] + (int64_t)(int32_t)src2.w[0];
+	const int64_t res2 = (int64_t)(int32_t)src1.w[3] + (int64_t)(int32_t)src2.w[2];
 	dst.d[0] = res1;
 	dst.d[1] = res2;
 	// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 70c52fb..56c5ada 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -2125,14 +2125,13 @@ struct InstrImpl {
 
 	static void VHADDW_D_W(cpu_t& cpu, la_instruction instr) {
 		// VHADDW.D.W: Vector horizontal add with widening (word to doubleword)
-		// Adds adjacent pairs of 32-bit signed words and produces 64-bit results
+		// Adds odd words of vj to even words of vk and produces 64-bit results
 		const auto& src1 = cpu.registers().getvr(instr.r3.rj);
 		const auto& src2 = cpu.registers().getvr(instr.r3.rk);
 		auto& dst = cpu.registers().getvr(instr.r3.rd);
 
-		// Add adjacent pairs: vj[0]+vj[1], vk[0]+vk[1]
-		const int64_t res1 = (int64_t)src1.w[0] + (int64_t)src1.w[1];
-		const int64_t res2 = (int64_t)src2.w[0] + (int64_t)src2.w[1];
+		const int64_t res1 = (int64_t)src1.w[1] + (int64_t)src2.w[0];
+		const int64_t res2 = (int64_t)src1.w[3] + (int64_t)src2.w[2];
 		dst.d[0] = res1;
 		dst.d[1] = res2;
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
@@ -2142,22 +2141,19 @@ struct InstrImpl {
 
 	static void XVHADDW_D_W(cpu_t& cpu, la_instruction instr) {
 		// XVHADDW.D.W: LASX vector horizontal add with widening (word to doubleword, 256-bit)
-		// Adds adjacent pairs of 32-bit signed words from xj and produces 64-bit results
-		// Takes all 8 words from xj, produces 4 doublewords
+		// Adds odd words of xj to even words of xk and produces 64-bit results
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
-		//uint32_t xk = (instr.whole >> 10) & 0x1F;
+		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
 		const auto& src_j = cpu.registers().getvr(xj);
-		//const auto& src_k = cpu.registers().getvr(xk);
+		const auto& src_k = cpu.registers().getvr(xk);
 
 		// Read all inputs first to handle register aliasing
-		// Takes all 8 words from xj: pairs (0,1), (2,3), (4,5), (6,7) → 4 doublewords
-		// xk is unused (or maybe used for other operand in 3-register form)
-		int64_t r0 = (int64_t)src_j.w[0] + (int64_t)src_j.w[1];
-		int64_t r1 = (int64_t)src_j.w[2] + (int64_t)src_j.w[3];
-		int64_t r2 = (int64_t)src_j.w[4] + (int64_t)src_j.w[5];
-		int64_t r3 = (int64_t)src_j.w[6] + (int64_t)src_j.w[7];
+		int64_t r0 = (int64_t)src_j.w[1] + (int64_t)src_k.w[0];
+		int64_t r1 = (int64_t)src_j.w[3] + (int64_t)src_k.w[2];
+		int64_t r2 = (int64_t)src_j.w[5] + (int64_t)src_k.w[4];
+		int64_t r3 = (int64_t)src_j.w[7] + (int64_t)src_k.w[6];
 
 		auto& dst = cpu.registers().getvr(xd);
 		dst.d[0] = r0;
@@ -2337,18 +2333,17 @@ struct InstrImpl {
 
 	static void XVHADDW_Q_D(cpu_t& cpu, la_instruction instr) {
 		// XVHADDW.Q.D: LASX vector horizontal add with widening (doubleword to quadword, 256-bit)
-		// Adds adjacent pairs of 64-bit signed doublewords and produces 128-bit results
+		// Adds odd doublewords of xj to even doublewords of xk and produces 128-bit results
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
-		//uint32_t xk = (instr.whole >> 10) & 0x1F;
+		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
 		const auto& src1 = cpu.registers().getvr(xj);
-		//const auto& src2 = cpu.registers().getvr(xk);
+		const auto& src2 = cpu.registers().getvr(xk);
 
 		// Read all inputs first to handle register aliasing
-		// Takes all 4 doublewords from xj: pairs (0,1), (2,3) → 2 quadwords
-		__int128 q0 = (__int128)src1.d[0] + (__int128)src1.d[1];
-		__int128 q1 = (__int128)src1.d[2] + (__int128)src1.d[3];
+		__int128 q0 = (__int128)src1.d[1] + (__int128)src2.d[0];
+		__int128 q1 = (__int128)src1.d[3] + (__int128)src2.d[2];
 
 		// Store quadwords as pairs of doublewords
 		auto& dst = cpu.registers().getvr(xd);
-- 
2.43.0


From c52c76b81c2d03cf83b7f9682a8707dbdfcb7455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 14/58] fix: VPICKEV.W/XVPICKEV.W element order and aliasing of
 destination and sources

---
 lib/libloong/la_instr_impl.hpp | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 56c5ada..8e5ae25 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -2538,8 +2538,9 @@ struct InstrImpl {
 		uint32_t vj = (instr.whole >> 5) & 0x1F;
 		uint32_t vk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(vj);
-		const auto& src_k = cpu.registers().getvr(vk);
+		// Copy the sources, as vd may alias them
+		const auto src_j = cpu.registers().getvr(vj);
+		const auto src_k = cpu.registers().getvr(vk);
 		auto& dst = cpu.registers().getvr(vd);
 
 		// Pick even words: dst = [vk[0], vk[2], vj[0], vj[2]]
@@ -4262,25 +4263,25 @@ struct InstrImpl {
 	static void XVPICKEV_W(cpu_t& cpu, la_instruction instr) {
 		// XVPICKEV.W: LASX vector pick even word (256-bit)
 		// Picks even-indexed words from both sources
-		// dst[0] = xj[0], dst[1] = xj[2], dst[2] = xj[4], dst[3] = xj[6]
-		// dst[4] = xk[0], dst[5] = xk[2], dst[6] = xk[4], dst[7] = xk[6]
+		// Each 128-bit lane: xk even words first, then xj even words
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(xj);
-		const auto& src_k = cpu.registers().getvr(xk);
+		// Copy the sources, as xd may alias them
+		const auto src_j = cpu.registers().getvr(xj);
+		const auto src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pick even words (indices 0, 2, 4, 6) from both sources
-		dst.w[0] = src_j.w[0];
-		dst.w[1] = src_j.w[2];
-		dst.w[2] = src_j.w[4];
-		dst.w[3] = src_j.w[6];
-		dst.w[4] = src_k.w[0];
-		dst.w[5] = src_k.w[2];
-		dst.w[6] = src_k.w[4];
-		dst.w[7] = src_k.w[6];
+		// Pick even words from both sources, in each 128-bit lane
+		dst.w[0] = src_k.w[0];
+		dst.w[1] = src_k.w[2];
+		dst.w[2] = src_j.w[0];
+		dst.w[3] = src_j.w[2];
+		dst.w[4] = src_k.w[4];
+		dst.w[5] = src_k.w[6];
+		dst.w[6] = src_j.w[4];
+		dst.w[7] = src_j.w[6];
 	}
 
 	static void XVPICKOD_D(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From 5c8136f5251c2cdacc1d98a7610572898a71e45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 15/58] fix: XVILVL.D interleaves within 128-bit lanes

---
 lib/libloong/la_instr_impl.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 8e5ae25..c9d9fba 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -4145,16 +4145,16 @@ struct InstrImpl {
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src_j = cpu.registers().getvr(xj);
-		const auto& src_k = cpu.registers().getvr(xk);
+		// Copy the sources, as xd may alias them
+		const auto src_j = cpu.registers().getvr(xj);
+		const auto src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Interleave: dst[0] = src_k[0], dst[1] = src_j[0], dst[2] = src_k[1], dst[3] = src_j[1]
-		// For LASX (256-bit), we interleave the low 2 double-words (128-bit) from each source
+		// Interleave the low double-words of each 128-bit lane
 		dst.du[0] = src_k.du[0];
 		dst.du[1] = src_j.du[0];
-		dst.du[2] = src_k.du[1];
-		dst.du[3] = src_j.du[1];
+		dst.du[2] = src_k.du[2];
+		dst.du[3] = src_j.du[2];
 	}
 
 	static void XVILVH_D(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From 3edef153e55422e5b98d56df903b025e33fd38ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 16/58] fix: XVREPLVE.D selects with rk, within 128-bit lanes

---
 lib/libloong/la_instr_impl.hpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index c9d9fba..a4f5308 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -3934,24 +3934,22 @@ struct InstrImpl {
 
 	static void XVREPLVE_D(cpu_t& cpu, la_instruction instr) {
 		// XVREPLVE.D: LASX vector replicate element from register (double precision)
-		// Replicates element selected by rj to all elements in xd from vector xk
-		// Format: xd[i] = xk[rj % 4] for all i
+		// Replicates the element of xj selected by general register rk in each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
-		uint32_t xk = (instr.whole >> 10) & 0x1F;
+		uint32_t rk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src = cpu.registers().getvr(xk);
+		const auto& src = cpu.registers().getvr(xj);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Get the element index from register rj (modulo 4 for double elements)
-		uint32_t idx = cpu.reg(xj) & 0x3;
-
-		// Replicate the selected element to all 4 positions
-		uint64_t value = src.du[idx];
-		dst.du[0] = value;
-		dst.du[1] = value;
-		dst.du[2] = value;
-		dst.du[3] = value;
+		// Get the element index from register rk (modulo 2 elements per lane)
+		const uint32_t idx = cpu.reg(rk) & 0x1;
+		const uint64_t low = src.du[idx];
+		const uint64_t high = src.du[2 + idx];
+		dst.du[0] = low;
+		dst.du[1] = low;
+		dst.du[2] = high;
+		dst.du[3] = high;
 	}
 
 	static void XVFMADD_S(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From 358223f39b4355eb17c895b872142b31589141b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 17/58] fix: VFRSTPI.B stores the index of the first negative
 byte

---
 lib/libloong/la_instr_impl.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index a4f5308..bcaede8 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -3095,8 +3095,7 @@ struct InstrImpl {
 
 	static void VFRSTPI_B(cpu_t& cpu, la_instruction instr) {
 		// VFRSTPI.B vd, vj, ui5
-		// Find first set position in vector (starting from ui5)
-		// Sets vd[0] to the position of first non-zero byte starting from position ui5
+		// Find the first negative byte in vj, and store its index (or 16) in vd[ui5 % 16]
 		uint32_t vd = instr.whole & 0x1F;
 		uint32_t vj = (instr.whole >> 5) & 0x1F;
 		uint32_t ui5 = (instr.whole >> 10) & 0x1F;
@@ -3104,19 +3103,18 @@ struct InstrImpl {
 		const auto& src = cpu.registers().getvr(vj);
 		auto& dst = cpu.registers().getvr(vd);
 
-		// Find first non-zero byte starting from ui5
 		uint8_t pos = 16; // Default: not found
-		for (int i = ui5; i < 16; i++) {
-			uint8_t byte = src.bu[i];
-			if (byte != 0) {
+		for (int i = 0; i < 16; i++) {
+			if (src.b[i] < 0) {
 				pos = i;
 				break;
 			}
 		}
 
-		// Store result in first byte of vd, clear rest
-		dst.du[0] = pos;
-		dst.du[1] = 0;
+		dst.bu[ui5 & 0xF] = pos;
+		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
+		dst.du[2] = 0;
+		dst.du[3] = 0;
 	}
 
 	static void BCNEZ(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From 07deeecbc1832c61de76bce1ab0ae158ea2e5429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 18/58] fix: XVMSKNZ.B creates one mask per 128-bit lane

---
 lib/libloong/la_instr_impl.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index bcaede8..2c34ee0 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -3690,26 +3690,23 @@ struct InstrImpl {
 
 	static void XVMSKNZ_B(cpu_t& cpu, la_instruction instr) {
 		// XVMSKNZ.B xd, xj
-		// Create a 32-bit mask where each bit indicates if corresponding byte is non-zero
+		// Create a 16-bit mask in each 128-bit lane where each bit indicates if corresponding byte is non-zero
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 
 		const auto& src = cpu.registers().getvr(xj);
 		auto& dst = cpu.registers().getvr(xd);
 
-		uint32_t mask = 0;
-		for (int i = 0; i < 4; i++) {
-			for (int j = 0; j < 8; j++) {
-				uint8_t byte = (src.du[i] >> (j * 8)) & 0xFF;
-				if (byte != 0) {
-					mask |= (1u << (i * 8 + j));
-				}
+		uint64_t mask[2] = {0, 0};
+		for (int i = 0; i < 32; i++) {
+			if (src.bu[i] != 0) {
+				mask[i / 16] |= 1u << (i % 16);
 			}
 		}
 
-		dst.du[0] = mask;
+		dst.du[0] = mask[0];
 		dst.du[1] = 0;
-		dst.du[2] = 0;
+		dst.du[2] = mask[1];
 		dst.du[3] = 0;
 	}
 
-- 
2.43.0


From 2fd6450eafd3174c34ef8b5312b68cf879dbb2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 19/58] fix: PC-relative and LU12I.W bytecodes must not write
 the zero register

---
 lib/libloong/threaded_rewriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 5ce172a..89ac854 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -226,6 +226,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		case LA64_BC_PCADDI:
 		case LA64_BC_PCALAU12I:
 		case LA64_BC_LU12I_W:
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			// No optimization needed - use original instruction bits
 			return instruction_bits;
 		case LA64_BC_LDPTR_D: {
@@ -676,9 +677,11 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		} break;
 		case LA64_BC_PCADDU12I:
 			// PCADDU12I uses PC, handled as diverging instruction
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			return instruction_bits;
 		case LA64_BC_PCADDU18I:
 			// PCADDU18I uses PC, handled as diverging instruction
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			return instruction_bits;
 		case LA64_BC_ANDN: {
 			// ANDN rd, rj, rk - uses R3 format
-- 
2.43.0


From 42b30552a489b6dfd98ba52070446d1526a53e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 20/58] fix: ORI with low destination and source bits clear is
 not a register move

---
 lib/libloong/decoder_cache.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 6f0b101..0e487f2 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -64,14 +64,7 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 				return LA64_BC_OR;
 			}
 		case InstrId::ORI:
-			// MOVE is ORI with imm==0
-			{
-				const uint32_t imm = instr & 0xFFF;
-				if (imm == 0) {
-					return LA64_BC_MOVE;
-				}
-				return LA64_BC_ORI;
-			}
+			return LA64_BC_ORI;
 
 		case InstrId::LD_D: return LA64_BC_LD_D;
 		case InstrId::ST_D: return LA64_BC_ST_D;
-- 
2.43.0


From 03c4061dc10303b82d90acb181b67c7ccbd093b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 21/58] fix: SLTUI bytecode compares with the sign-extended
 immediate

---
 lib/libloong/threaded_rewriter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 89ac854..9ba88d5 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -639,12 +639,11 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			return fi.whole;
 		} break;
 		case LA64_BC_SLTUI: {
-			// SLTUI rd, rj, imm12 - uses RI12 format with zero-extended immediate
+			// SLTUI rd, rj, imm12 - uses RI12 format with sign-extended immediate
 			auto fi = *(FasterLA64_RI12 *)&instruction_bits;
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
-			// SLTUI uses zero-extended immediate for unsigned comparison
-			fi.imm = original.ri12.imm & 0xFFF;
+			fi.set_imm(original.ri12.imm);
 			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
-- 
2.43.0


From 243a13ad221b958fa86848a902a08c0c51b1d065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 22/58] fix: STX.B of the zero register is a store

---
 lib/libloong/threaded_rewriter.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 9ba88d5..71e5839 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -697,7 +697,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_EXT_W_H: {
-- 
2.43.0


From 7e159895abb36f13e0053f5a4dc6ad7ce938883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 23/58] fix: decode AMXOR by its real encoding

---
 lib/libloong/la64.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/libloong/la64.cpp b/lib/libloong/la64.cpp
index 291f6fa..0a060c2 100644
--- a/lib/libloong/la64.cpp
+++ b/lib/libloong/la64.cpp
@@ -916,14 +916,11 @@ namespace loongarch
 						return is_64bit ? DECODED_INSTR(AMAND_D) : DECODED_INSTR(AMAND_W);
 					case 3: case 12: // AMOR (guessed)
 						return is_64bit ? DECODED_INSTR(AMOR_D) : DECODED_INSTR(AMOR_W);
-					// TODO: Verify AMXOR, AMMAX, AMMIN encodings when encountered
+					case 4: case 13: // AMXOR
+						return is_64bit ? DECODED_INSTR(AMXOR_D) : DECODED_INSTR(AMXOR_W);
+					// TODO: Implement AMMAX, AMMIN (5-8, 14-15 and 0x387xxxxx)
 				}
 			}
-			// AMXOR: bits [31:20] = 0x387
-			if ((instr.whole & 0xFFF00000) == 0x38700000) {
-				bool is_64bit = ((instr.whole >> 15) & 1);
-				return is_64bit ? DECODED_INSTR(AMXOR_D) : DECODED_INSTR(AMXOR_W);
-			}
 			break;
 		case 0x0B: // VLD / VST / XVLD / XVST instructions (op6 = 0x0B for 0x2Cxxxxxx)
 			// Example VLD: 2c0041a2
-- 
2.43.0


From 9733ce7818af197a6cb3695b3f10421ddb861e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 24/58] fix: guest loads and stores of vectors must not require
 host alignment

---
 lib/libloong/memory_inline.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/memory_inline.hpp b/lib/libloong/memory_inline.hpp
index b147ff9..7d58a9f 100644
--- a/lib/libloong/memory_inline.hpp
+++ b/lib/libloong/memory_inline.hpp
@@ -20,7 +20,10 @@ inline T Memory::read(address_t addr) const
 		}
 	}
 
-	return *reinterpret_cast<const T*>(&m_arena[addr]);
+	// Guest accesses may be unaligned
+	T value;
+	std::memcpy(&value, &m_arena[addr], sizeof(T));
+	return value;
 }
 
 template <typename T, bool EnableSegReg>
@@ -38,7 +41,8 @@ inline void Memory::write(address_t addr, T value)
 		}
 	}
 
-	*reinterpret_cast<T*>(&m_arena[addr]) = value;
+	// Guest accesses may be unaligned
+	std::memcpy(&m_arena[addr], &value, sizeof(T));
 }
 
 template <typename T>
-- 
2.43.0


From a48d31e3f963d997696d3440d2bade534f485c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 25/58] fix: STOP and SYSCALL with an immediate end a block,
 BREAK does not Their program counter and instruction count were those of the
 end of the enclosing straight-line code, and code after a BREAK ran with the
 program counter of the BREAK.

---
 lib/libloong/decoder_cache.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 0e487f2..2d89fcb 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -31,9 +31,10 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 			return true;
 		}
 
-		// System calls (exact match required)
-		if (instr == Opcode::SYSCALL) return true;
-		if (instr == Opcode::BREAK) return true;
+		// System calls, with and without an immediate
+		if ((instr & 0xFFFFFC00) == Opcode::SYSCALL) return true;
+		// MOVE zero, zero is the STOP instruction
+		if (instr == Opcode::OR) return true;
 
 		return false;
 	}
-- 
2.43.0


From 937966d3210af60add29963455fda5f2e0291e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:13 +0000
Subject: [PATCH 26/58] fix: bulk guest memory accesses must lie inside memory
 as a whole Only the first byte of the range was compared (or an end that can
 wrap around), so long ranges reached beyond the arena.

---
 lib/libloong/memory.cpp        |  6 +++---
 lib/libloong/memory.hpp        |  7 +++++++
 lib/libloong/memory_inline.hpp |  4 ++--
 lib/libloong/memory_rw.cpp     | 12 ++++++------
 4 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index dd289d8..00f38b8 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -262,9 +262,9 @@ void Memory::process_rela_section(size_t offset, size_t size, const MachineOptio
 
 size_t Memory::strlen(address_t addr, size_t maxlen) const
 {
-	const address_t end_addr = std::min(addr + maxlen, m_arena_size);
-	if (end_addr <= addr) return 0;
-	const address_t size = end_addr - addr;
+	if (addr >= m_arena_size) return 0;
+	const address_t size = std::min<address_t>(maxlen, m_arena_size - addr);
+	if (size == 0) return 0;
 	const char* ptr = memarray<char>(addr, size);
 	return ::strnlen(ptr, size);
 }
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index 8216215..3f0eead 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -151,6 +151,13 @@ namespace loongarch
 		inline bool is_writable(address_t addr, size_t size = sizeof(address_t)) const noexcept {
 			return addr - m_data_start < m_arena_end_sub_data;
 		}
+		// The whole range must be accessible
+		inline bool is_readable_range(address_t addr, size_t size) const noexcept {
+			return is_readable(addr, size) && size <= m_arena_size - addr;
+		}
+		inline bool is_writable_range(address_t addr, size_t size) const noexcept {
+			return is_writable(addr, size) && size <= m_arena_size - addr;
+		}
 		[[noreturn]] LA_COLD_PATH() static void protection_fault(address_t addr, const char* message);
 	};
 
diff --git a/lib/libloong/memory_inline.hpp b/lib/libloong/memory_inline.hpp
index 7d58a9f..6df090e 100644
--- a/lib/libloong/memory_inline.hpp
+++ b/lib/libloong/memory_inline.hpp
@@ -48,7 +48,7 @@ inline void Memory::write(address_t addr, T value)
 template <typename T>
 inline const T* Memory::memarray(address_t addr, size_t count) const
 {
-	if (LA_UNLIKELY(!is_readable(addr, count * sizeof(T)))) {
+	if (LA_UNLIKELY(count > m_arena_size / sizeof(T) || !is_readable_range(addr, count * sizeof(T)))) {
 		throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr);
 	}
 
@@ -58,7 +58,7 @@ inline const T* Memory::memarray(address_t addr, size_t count) const
 template <typename T>
 inline T* Memory::writable_memarray(address_t addr, size_t count)
 {
-	if (LA_UNLIKELY(!is_writable(addr, count * sizeof(T)))) {
+	if (LA_UNLIKELY(count > m_arena_size / sizeof(T) || !is_writable_range(addr, count * sizeof(T)))) {
 		throw MachineException(PROTECTION_FAULT, "Write to read-only memory", addr);
 	}
 
diff --git a/lib/libloong/memory_rw.cpp b/lib/libloong/memory_rw.cpp
index aff9036..d808c46 100644
--- a/lib/libloong/memory_rw.cpp
+++ b/lib/libloong/memory_rw.cpp
@@ -15,7 +15,7 @@ namespace loongarch
 			if (LA_UNLIKELY(dest + len >= LA_MASKED_MEMORY_SIZE)) {
 				throw MachineException(PROTECTION_FAULT, "Write to out-of-bounds memory", dest);
 			}
-		} else if (LA_UNLIKELY(!is_writable(dest, len))) {
+		} else if (LA_UNLIKELY(!is_writable_range(dest, len))) {
 			throw MachineException(PROTECTION_FAULT, "Write to read-only memory", dest);
 		}
 
@@ -33,7 +33,7 @@ namespace loongarch
 			if (LA_UNLIKELY(src + len >= LA_MASKED_MEMORY_SIZE)) {
 				throw MachineException(PROTECTION_FAULT, "Read from out-of-bounds memory", src);
 			}
-		} else if (LA_UNLIKELY(src < m_rodata_start || src + len >= m_arena_size)) {
+		} else if (LA_UNLIKELY(!is_readable_range(src, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", src);
 		}
 
@@ -42,7 +42,7 @@ namespace loongarch
 
 	void Memory::memset(address_t dest, uint8_t value, size_t len)
 	{
-		if (LA_UNLIKELY(!is_writable(dest, len))) {
+		if (LA_UNLIKELY(!is_writable_range(dest, len))) {
 			throw MachineException(PROTECTION_FAULT, "Write to read-only memory", dest);
 		}
 
@@ -51,10 +51,10 @@ namespace loongarch
 
 	int Memory::memcmp(address_t addr1, address_t addr2, size_t len) const
 	{
-		if (LA_UNLIKELY(addr1 < m_rodata_start || addr1 + len >= m_arena_size)) {
+		if (LA_UNLIKELY(!is_readable_range(addr1, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr1);
 		}
-		if (LA_UNLIKELY(addr2 < m_rodata_start || addr2 + len >= m_arena_size)) {
+		if (LA_UNLIKELY(!is_readable_range(addr2, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr2);
 		}
 
@@ -68,7 +68,7 @@ namespace loongarch
 
 	void Memory::copy_into_arena_unsafe(address_t dest, const void* src, size_t len)
 	{
-		if (LA_UNLIKELY(dest + len >= m_arena_size)) {
+		if (LA_UNLIKELY(dest > m_arena_size || len > m_arena_size - dest)) {
 			throw MachineException(PROTECTION_FAULT, "Write to out-of-bounds memory", dest);
 		}
 		std::memcpy(&m_arena[dest], src, len);
-- 
2.43.0


From 9c8987a038e0a182155e5d02cb82ad45ac0038e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 27/58] fix: straight-line code longer than 64 KB must keep the
 right program counter and count The length of a block is kept in 16 bits and
 wrapped around: blocks are now ended before that.

---
 lib/libloong/bytecode_impl.cpp           | 8 ++++++++
 lib/libloong/decoder_cache.cpp           | 6 ++++++
 lib/libloong/tailcall_bytecode_array.hpp | 1 +
 lib/libloong/threaded_bytecode_array.hpp | 1 +
 lib/libloong/threaded_bytecodes.hpp      | 2 ++
 5 files changed, 18 insertions(+)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 914df53..64f440d 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -1041,6 +1041,14 @@ INSTRUCTION(LA64_BC_FUNCTION2, execute_function_extended)
 	NEXT_INSTR();
 }
 
+// LA64_BC_FUNCBLOCK: The last instruction before the block length limit
+INSTRUCTION(LA64_BC_FUNCBLOCK, execute_function_block)
+{
+	REGISTERS().pc = pc;
+	CPU().execute(la_instruction{DECODER().instr});
+	NEXT_BLOCK_UNCHECKED(4);
+}
+
 // LA64_BC_TRANSLATOR is implemented in each dispatch file separately
 
 INSTRUCTION(LA64_BC_LIVEPATCH, execute_livepatch) {
diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 2d89fcb..1fc3080 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -239,6 +239,12 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 				// Diverging instruction: block_bytes = 0
 				cache[i].block_bytes = 0;
 				accumulated_bytes = 0;
+			} else if (accumulated_bytes + 4 > UINT16_MAX) {
+				// The length of the block no longer fits: end it here
+				cache[i].bytecode = LA64_BC_FUNCBLOCK;
+				cache[i].instr = instr;
+				cache[i].block_bytes = 0;
+				accumulated_bytes = 0;
 			} else {
 				// Non-diverging: accumulate bytes to next diverge
 				accumulated_bytes += 4;
diff --git a/lib/libloong/tailcall_bytecode_array.hpp b/lib/libloong/tailcall_bytecode_array.hpp
index 0909d7d..5c3fc6b 100644
--- a/lib/libloong/tailcall_bytecode_array.hpp
+++ b/lib/libloong/tailcall_bytecode_array.hpp
@@ -113,6 +113,7 @@
 
 [LA64_BC_FUNCTION]  = execute_decoded_function,
 [LA64_BC_FUNCTION2] = execute_function_extended,
+[LA64_BC_FUNCBLOCK] = execute_function_block,
 [LA64_BC_SYSCALL]   = la64_syscall,
 [LA64_BC_SYSCALLIMM]= la64_syscall_imm,
 [LA64_BC_NOP]       = la64_nop,
diff --git a/lib/libloong/threaded_bytecode_array.hpp b/lib/libloong/threaded_bytecode_array.hpp
index 0340a6e..f26ac51 100644
--- a/lib/libloong/threaded_bytecode_array.hpp
+++ b/lib/libloong/threaded_bytecode_array.hpp
@@ -114,6 +114,7 @@ static constexpr void *computed_opcode[] = {
 
 	[LA64_BC_FUNCTION]  = &&execute_decoded_function,
 	[LA64_BC_FUNCTION2] = &&execute_function_extended,
+	[LA64_BC_FUNCBLOCK] = &&execute_function_block,
 	[LA64_BC_SYSCALL]   = &&la64_syscall,
 	[LA64_BC_SYSCALLIMM]= &&la64_syscall_imm,
 	[LA64_BC_NOP]       = &&la64_nop,
diff --git a/lib/libloong/threaded_bytecodes.hpp b/lib/libloong/threaded_bytecodes.hpp
index 709df0f..2dbfd07 100644
--- a/lib/libloong/threaded_bytecodes.hpp
+++ b/lib/libloong/threaded_bytecodes.hpp
@@ -125,6 +125,7 @@ namespace loongarch
 		// Generic handlers
 		LA64_BC_FUNCTION,          // Non-PC-modifying instruction (simple handler call)
 		LA64_BC_FUNCTION2,         // Extended generic handler (for > 255 handlers)
+		LA64_BC_FUNCBLOCK,         // Generic instruction that ends a block (block length limit)
 		LA64_BC_SYSCALL,           // System call (needs special handling)
 		LA64_BC_SYSCALLIMM,        // System call with immediate number (most likely patched in)
 		LA64_BC_NOP,               // No operation (DBAR, etc)
@@ -247,6 +248,7 @@ namespace loongarch
 		case LA64_BC_BGEU: return "BGEU";
 		case LA64_BC_FUNCTION: return "FUNCTION";
 		case LA64_BC_FUNCTION2: return "FUNCTION";
+		case LA64_BC_FUNCBLOCK: return "FUNCTION";
 		case LA64_BC_SYSCALL: return "SYSCALL";
 		case LA64_BC_SYSCALLIMM: return "SYSCALL+IMM";
 		case LA64_BC_NOP: return "NOP";
-- 
2.43.0


From 29b38a0166bcc090bbd0df92f36688f0a30b4de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 28/58] fix: runs and calls that reach the instruction limit
 must say so simulate() left the limit at UINT64_MAX, so
 instruction_limit_reached() stayed false and vmcall, timed_vmcall and preempt
 returned a meaningless result instead of throwing MACHINE_TIMEOUT. stopped()
 is about stop(), not the limit.

---
 lib/libloong/debug.cpp             |  2 +-
 lib/libloong/machine.hpp           |  2 +-
 lib/libloong/machine_vmcall.hpp    | 10 ++++------
 lib/libloong/tailcall_dispatch.cpp |  2 +-
 lib/libloong/threaded_dispatch.cpp |  4 ++++
 lib/libloong/tr_compiler.cpp       |  2 +-
 6 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/libloong/debug.cpp b/lib/libloong/debug.cpp
index 4d708d4..cf38004 100644
--- a/lib/libloong/debug.cpp
+++ b/lib/libloong/debug.cpp
@@ -9,7 +9,7 @@ namespace loongarch
 	void DebugMachine::simulate(uint64_t max_instructions)
 	{
 		this->machine.set_max_instructions(max_instructions);
-		while (!this->machine.stopped()) {
+		while (!this->machine.stopped() && !this->machine.instruction_limit_reached()) {
 			if (this->verbose_instructions)
 				print_instruction();
 			this->machine.cpu.step_one();
diff --git a/lib/libloong/machine.hpp b/lib/libloong/machine.hpp
index 5ad2615..474f91e 100644
--- a/lib/libloong/machine.hpp
+++ b/lib/libloong/machine.hpp
@@ -55,7 +55,7 @@ namespace loongarch
 		bool simulate(uint64_t max_instructions = UINT64_MAX, uint64_t counter = 0);
 
 		void stop() noexcept { m_max_instructions = 0; }
-		bool stopped() const noexcept { return m_counter >= m_max_instructions; }
+		bool stopped() const noexcept { return m_max_instructions == 0; }
 		bool instruction_limit_reached() const noexcept { return m_counter >= m_max_instructions && m_max_instructions != 0; }
 
 		// Instruction counting
diff --git a/lib/libloong/machine_vmcall.hpp b/lib/libloong/machine_vmcall.hpp
index 68185a1..5b1ee55 100644
--- a/lib/libloong/machine_vmcall.hpp
+++ b/lib/libloong/machine_vmcall.hpp
@@ -114,8 +114,7 @@ namespace loongarch
 		if constexpr (MAX_INSTRUCTIONS == UINT64_MAX) {
 			cpu.simulate_inaccurate(func_addr);
 		} else {
-			this->simulate(MAX_INSTRUCTIONS, 0);
-			if (this->instruction_limit_reached()) {
+			if (!this->simulate(MAX_INSTRUCTIONS, 0)) {
 				throw MachineException(MACHINE_TIMEOUT,
 					"vmcall: Instruction limit reached", func_addr);
 			}
@@ -167,8 +166,7 @@ namespace loongarch
 		cpu.registers().pc = func_addr;
 
 		// Execute until the function returns and calls exit
-		this->simulate(max_instructions, 0);
-		if (this->instruction_limit_reached()) {
+		if (!this->simulate(max_instructions, 0)) {
 			throw MachineException(MACHINE_TIMEOUT,
 				"timed_vmcall: Instruction limit reached", func_addr);
 		}
@@ -195,7 +193,7 @@ namespace loongarch
 		cpu.registers().pc = func_addr;
 
 		// Execute with instruction limit
-		this->simulate(max_instr, 0);
+		[[maybe_unused]] const bool completed = this->simulate(max_instr, 0);
 
 		// Restore registers if needed
 		if constexpr (StoreRegs) {
@@ -206,7 +204,7 @@ namespace loongarch
 		}
 
 		if constexpr (Throw) {
-			if (this->instruction_limit_reached()) {
+			if (!completed) {
 				throw MachineException(MACHINE_TIMEOUT,
 					"preempt: Instruction limit reached", func_addr);
 			}
diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index 15af969..4e10317 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -210,7 +210,7 @@ namespace loongarch
 		const address_t new_pc = EXECUTE_INSTR();
 
 		cpu.registers().pc = new_pc;
-		MACHINE().set_instruction_counter(counter.value());
+		counter.apply(MACHINE());
 
 		// Machine stopped normally?
 		return counter.max() == 0;
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index e073e5f..fad4931 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -134,6 +134,8 @@ INSTRUCTION(LA64_BC_STOP, la64_stop)
 {
 	REGISTERS().pc = pc + 4;
 	machine().set_instruction_counter(counter);
+	// A completed run is no longer limited
+	machine().set_max_instructions(UINT64_MAX);
 	return true;
 }
 
@@ -168,6 +170,8 @@ new_execute_segment:
 stop_execution:
 		m_regs.pc = pc;
 		machine().set_instruction_counter(counter);
+		// Make the limit visible to Machine::instruction_limit_reached()
+		machine().set_max_instructions(max_counter);
 		if (machine().has_current_exception()) {
 			const auto ex = machine().current_exception();
 			machine().clear_current_exception();
diff --git a/lib/libloong/tr_compiler.cpp b/lib/libloong/tr_compiler.cpp
index 62c6433..5e03750 100644
--- a/lib/libloong/tr_compiler.cpp
+++ b/lib/libloong/tr_compiler.cpp
@@ -182,7 +182,7 @@ namespace loongarch
 				cpu.registers().pc = pc;
 				cpu.machine().set_max_instructions(max_ic);
 				cpu.machine().system_call(sysnum);
-				return cpu.machine().stopped() || (cpu.pc() != pc);
+				return cpu.machine().stopped() || cpu.machine().instruction_limit_reached() || (cpu.pc() != pc);
 			} catch (...) {
 				cpu.machine().set_current_exception(std::current_exception());
 				cpu.machine().stop();
-- 
2.43.0


From caa97a34f53257231343d54f3e5ce4ef542a073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:27 +0000
Subject: [PATCH 29/58] fix: preempt must leave the interrupted program as it
 was The arguments and frame of the nested call overwrote the top of the live
 stack, and an exception or the nested run's instruction limit leaked into the
 interrupted program, which then could run forever or stop early.

---
 lib/libloong/machine_vmcall.hpp | 61 ++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/lib/libloong/machine_vmcall.hpp b/lib/libloong/machine_vmcall.hpp
index 5b1ee55..e36a8b4 100644
--- a/lib/libloong/machine_vmcall.hpp
+++ b/lib/libloong/machine_vmcall.hpp
@@ -36,8 +36,8 @@ namespace loongarch
 		// Set return address to exit function
 		cpu.reg(REG_RA) = exit_addr;
 
-		// Reset stack pointer to initial position
-		address_t sp = machine.memory.stack_address();
+		// Arguments are pushed below the current stack pointer
+		address_t sp = cpu.reg(REG_SP);
 
 		// Initialize argument registers
 		int iarg = REG_A0; // Integer argument registers: A0-A7
@@ -104,7 +104,8 @@ namespace loongarch
 		// Use the exit address set via memory.set_exit_address()
 		const address_t exit_addr = memory.exit_address();
 
-		// Setup the call with arguments
+		// Setup the call with arguments, on a fresh stack
+		cpu.reg(REG_SP) = memory.stack_address();
 		setup_call(*this, exit_addr, std::forward<Args>(args)...);
 
 		// Set PC to the function address
@@ -159,7 +160,8 @@ namespace loongarch
 		// Use the exit address set via memory.set_exit_address()
 		const address_t exit_addr = memory.exit_address();
 
-		// Setup the call with arguments
+		// Setup the call with arguments, on a fresh stack
+		cpu.reg(REG_SP) = memory.stack_address();
 		setup_call(*this, exit_addr, std::forward<Args>(args)...);
 
 		// Set PC to the function address
@@ -179,30 +181,41 @@ namespace loongarch
 		// Use the exit address set via memory.set_exit_address()
 		const address_t exit_addr = memory.exit_address();
 
-		// Optionally save CPU registers
+		// Optionally save the state of the interrupted program
 		Registers saved_regs;
+		const uint64_t saved_counter = this->m_counter;
+		const uint64_t saved_max = this->m_max_instructions;
 		if constexpr (StoreRegs) {
 			saved_regs = cpu.registers();
 		}
-
-		// Allocate 16 bytes on stack for execution context
-		cpu.reg(REG_SP) -= 16;
-
-		// Setup the call
-		setup_call(*this, exit_addr, std::forward<Args>(args)...);
-		cpu.registers().pc = func_addr;
-
-		// Execute with instruction limit
-		[[maybe_unused]] const bool completed = this->simulate(max_instr, 0);
-
-		// Restore registers if needed
-		if constexpr (StoreRegs) {
-			// Keep return value in A0
-			const address_t retval = cpu.reg(REG_A0);
-			cpu.registers() = saved_regs;
-			cpu.reg(REG_A0) = retval;
+		const auto restore = [&] {
+			if constexpr (StoreRegs) {
+				cpu.registers() = saved_regs;
+				this->m_counter = saved_counter;
+				this->m_max_instructions = saved_max;
+			}
+		};
+
+		[[maybe_unused]] bool completed = false;
+		address_t retval = 0;
+		try {
+			// Allocate 16 bytes on stack for execution context
+			cpu.reg(REG_SP) -= 16;
+
+			// Setup the call, below the stack of the interrupted program
+			setup_call(*this, exit_addr, std::forward<Args>(args)...);
+			cpu.registers().pc = func_addr;
+
+			// Execute with instruction limit
+			completed = this->simulate(max_instr, 0);
+			retval = cpu.reg(REG_A0);
+		} catch (...) {
+			restore();
+			throw;
 		}
 
+		restore();
+
 		if constexpr (Throw) {
 			if (!completed) {
 				throw MachineException(MACHINE_TIMEOUT,
@@ -210,7 +223,9 @@ namespace loongarch
 			}
 		}
 
-		return cpu.reg(REG_A0);
+		// Keep return value in A0
+		cpu.reg(REG_A0) = retval;
+		return retval;
 	}
 
 	// preempt: Call by symbol name with instruction limit
-- 
2.43.0


From a0bad7e539653ccdbaead37e77cf2d3b7ece947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:27 +0000
Subject: [PATCH 30/58] fix: an execute segment is shared only once it is
 decoded When decoding failed with an exception, the shared cache kept a
 segment without decoder cache, which the next machine with the same program
 then used.

---
 lib/libloong/memory.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 00f38b8..e8bb352 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -332,10 +332,13 @@ DecodedExecuteSegment& Memory::create_execute_segment(
 			std::lock_guard<std::mutex> lock(entry.mutex);
 			// Double-check in case another thread created it
 			if (!entry.segment) {
-				entry.segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
-				populate_decoder_cache(m_machine, options, entry.segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
+				// Publish the segment only when it is complete
+				segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
+				populate_decoder_cache(m_machine, options, segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
+				entry.segment = segment;
+			} else {
+				segment = entry.segment;
 			}
-			segment = entry.segment;
 		}
 	} else {
 		// Not using shared segments, create a new one
-- 
2.43.0


From 0187bc688f3f22375f5e285520d4d8a4fc58c2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:15 +0000
Subject: [PATCH 31/58] fix: a .text section that wraps around the address
 space is not inside a segment

Its size was used for the execute segment, which then decoded beyond the end of the binary.
---
 lib/libloong/elf_loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 5fa7e69..11bcc6b 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -235,7 +235,7 @@ void Memory::binary_loader(const MachineOptions& options)
 					const address_t seg_end = phdr->vaddr + phdr->filesz;
 					const address_t text_end = text_bounds.start + text_bounds.size;
 
-					if (text_bounds.start >= seg_start && text_end <= seg_end) {
+					if (text_bounds.start >= seg_start && text_end >= text_bounds.start && text_end <= seg_end) {
 						exec_vaddr = text_bounds.start;
 						exec_size  = text_bounds.size & ~size_t(3); // Align to instruction boundary
 						file_offset = phdr->offset + (text_bounds.start - seg_start);
-- 
2.43.0


From a0bb647c3ef15c2764cd52d6a70c035492518e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:15 +0000
Subject: [PATCH 32/58] fix: symbol and string tables must lie inside the
 binary

The end of a table could wrap around, and the last name need not be terminated: both read beyond the end of the binary.
---
 lib/libloong/memory.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index e8bb352..a07a565 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -193,8 +193,10 @@ void Memory::parse_symbol_table(const Elf::SectionHeader* symtab,
                                     const MachineOptions& options)
 {
 	// Validate section offsets and sizes
-	if (symtab->offset + symtab->size > m_binary.size() ||
-	    strtab->offset + strtab->size > m_binary.size()) {
+	const auto is_inside = [this] (const Elf::SectionHeader* section) {
+		return section->offset <= m_binary.size() && section->size <= m_binary.size() - section->offset;
+	};
+	if (!is_inside(symtab) || !is_inside(strtab)) {
 		if (options.verbose_loader) {
 			fprintf(stderr, "Warning: Invalid symbol or string table section\n");
 		}
@@ -214,7 +216,8 @@ void Memory::parse_symbol_table(const Elf::SectionHeader* symtab,
 			if (sym.name + 1 < strtab->size && sym.name + 1 > sym.name) {
 				const char* name = string_table + sym.name;
 				if (name[0] != '\0') {
-					m_symbols.push_back({static_cast<address_t>(sym.value), static_cast<address_t>(sym.size), name});
+					m_symbols.push_back({static_cast<address_t>(sym.value), static_cast<address_t>(sym.size),
+						std::string(name, ::strnlen(name, strtab->size - sym.name))});
 
 					if (false && options.verbose_loader) {
 						fprintf(stderr, "Symbol: 0x%lx %s (size=%lu)\n",
-- 
2.43.0


From 68f2cdda1ae611b34d4eebcca856261adfc9eb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:15 +0000
Subject: [PATCH 33/58] fix: a custom arena must hold the start of the
 program's data

Otherwise the size of the writable area was negative, and every address was writable.
---
 lib/libloong/memory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index a07a565..b0f33d0 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -108,6 +108,9 @@ void Memory::use_custom_arena(void* ptr, size_t size)
 	if (LA_MASKED_MEMORY_BITS != 0 && size < LA_MASKED_MEMORY_SIZE + LA_OVER_ALLOCATE_SIZE) {
 		throw MachineException(INVALID_PROGRAM, "Custom arena size too small for masked memory");
 	}
+	if (m_rodata_start > size - LA_OVER_ALLOCATE_SIZE || m_data_start > size - LA_OVER_ALLOCATE_SIZE) {
+		throw MachineException(INVALID_PROGRAM, "Custom arena size too small for the program");
+	}
 	if (this->m_arena) free_arena();
 	this->m_arena = (uint8_t*)ptr;
 	this->m_arena_size = size - LA_OVER_ALLOCATE_SIZE;
-- 
2.43.0


From 6de75dd66d327e1453de3389797198005db40b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:15 +0000
Subject: [PATCH 34/58] fix: not enough memory for stack and brk must be an
 error

Only the start of the heap was compared with the memory limit, so the stack could start beyond the end of memory.
---
 lib/libloong/elf_loader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 11bcc6b..c949477 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -164,7 +164,8 @@ void Memory::binary_loader(const MachineOptions& options)
 	const address_t stack_base = this->mmap_allocate(options.stack_size);
 	this->m_stack_address = stack_base + options.stack_size;
 
-	if (this->m_heap_address >= options.memory_max) {
+	if (this->m_heap_address >= options.memory_max ||
+		this->m_mmap_address > options.memory_max || this->m_mmap_address < this->m_heap_address) {
 		if (options.verbose_loader) {
 			fprintf(stderr, "Error: Not enough memory for stack and brk:\n");
 			fprintf(stderr, "  heap_begin: 0x%lx\n", (unsigned long)this->m_heap_address);
-- 
2.43.0


From d2f32b536b222a69b47b67a44bd590932dbbf0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:15 +0000
Subject: [PATCH 35/58] fix: every executable ELF segment is executable

The last one replaced the others.
---
 lib/libloong/elf_loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index c949477..532ea39 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -250,7 +250,7 @@ void Memory::binary_loader(const MachineOptions& options)
 
 				create_execute_segment(options,
 					(const void*)(m_binary.data() + file_offset),
-					exec_vaddr, exec_size, true, false);
+					exec_vaddr, exec_size, m_main_exec_segment == nullptr, false);
 			}
 		}
 	}
-- 
2.43.0


From 0d80a21250a7e72e18d6fb18c7d8cf0326174532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:54 +0000
Subject: [PATCH 36/58] fix: a symbol that ends at the end of the address space
 contains its addresses

Its end wrapped around, so a lookup returned another symbol.
---
 lib/libloong/memory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index b0f33d0..2ec8959 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -426,7 +426,7 @@ const Symbol* Memory::lookup_symbol(address_t addr) const
 	const Symbol* best_match = nullptr;
 	for (const auto& sym : m_symbols) {
 		// Check if address is within symbol range
-		if (addr >= sym.address && addr < sym.address + sym.size) {
+		if (addr >= sym.address && addr - sym.address < sym.size) {
 			return &sym;
 		}
 		// Also track the closest symbol before this address (for functions with unknown size)
-- 
2.43.0


From a8483f249e1e5b6d4d530453e955b43f7e4e3869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:54 +0000
Subject: [PATCH 37/58] fix: clock_gettime of an unknown clock is an error

Uninitialized host stack was copied to the guest.
---
 lib/libloong/linux/syscalls.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 1780252..38c00be 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -239,7 +239,10 @@ namespace loongarch
 			machine.template sysargs<int, address_t>();
 		if (tp != 0) {
 			struct timespec ts;
-			clock_gettime(clockid, &ts);
+			if (clock_gettime(clockid, &ts) != 0) {
+				machine.set_result(-LA_EINVAL);
+				return;
+			}
 			machine.memory.copy_to_guest(tp, &ts, sizeof(ts));
 		}
 		machine.set_result(0);
-- 
2.43.0


From 27409dc7e263d968fd3052dff4978ac18d56415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:54 +0000
Subject: [PATCH 38/58] fix: an allocation of almost the whole address space
 must fail

Its size wrapped around to 16 bytes.
---
 lib/libloong/native/heap.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/libloong/native/heap.hpp b/lib/libloong/native/heap.hpp
index ba250b5..4cd41fc 100644
--- a/lib/libloong/native/heap.hpp
+++ b/lib/libloong/native/heap.hpp
@@ -101,6 +101,9 @@ struct Arena
 		return (size + (ALIGNMENT-1)) & ~(ALIGNMENT-1);
 	}
 	static size_t fixup_size(size_t size) {
+		// Sizes that would wrap around when aligned cannot be allocated
+		if (LA_UNLIKELY(size > SIZE_MAX - (ALIGNMENT-1)))
+			return SIZE_MAX;
 		// The minimum allocation is 8 bytes
 		return std::max(ALIGNMENT, word_align(size));
 	}
-- 
2.43.0


From 2d706e966eb7e0df7cea8211f9b626af133d7830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:54 +0000
Subject: [PATCH 39/58] fix: calloc must fail when its size overflows

---
 lib/libloong/machine_accelerate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index e98425c..4568313 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -211,6 +211,10 @@ void Machine::setup_accelerated_heap(address_t arena_base, size_t arena_size)
 	{
 		const auto [count, size] =
 			machine.template sysargs<address_t, address_t> ();
+		if (size != 0 && count > SIZE_MAX / size) {
+			machine.set_result<address_t>(0);
+			return;
+		}
 		const size_t len = count * size;
 		auto data = machine.arena().malloc(len);
 		HPRINT("SYSCALL calloc(%zu, %zu) = 0x%lX\n",
-- 
2.43.0


From 6f8d8904066121e71a3cc3e695d15828d274b862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:03 +0000
Subject: [PATCH 40/58] fix: accelerated strlen and strcmp must not stop at
 4096 characters

---
 lib/libloong/machine_accelerate.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index 4568313..cccd232 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -132,7 +132,7 @@ void Machine::setup_accelerated_syscalls()
 	install_syscall_handler(SYS_native_strlen,
 	[] (Machine& machine) {
 		const address_t str_addr = machine.cpu.reg(REG_A0);
-		machine.set_result(machine.memory.strlen(str_addr));
+		machine.set_result(machine.memory.strlen(str_addr, SIZE_MAX));
 	});
 
 	install_syscall_handler(SYS_native_strnlen,
@@ -146,8 +146,8 @@ void Machine::setup_accelerated_syscalls()
 	[] (Machine& machine) {
 		const address_t str1_addr = machine.cpu.reg(REG_A0);
 		const address_t str2_addr = machine.cpu.reg(REG_A1);
-		const size_t len1 = machine.memory.strlen(str1_addr);
-		const size_t len2 = machine.memory.strlen(str2_addr);
+		const size_t len1 = machine.memory.strlen(str1_addr, SIZE_MAX);
+		const size_t len2 = machine.memory.strlen(str2_addr, SIZE_MAX);
 		const size_t cmp_len = std::min(len1, len2);
 		const char* s1 = machine.memory.template memarray<char>(str1_addr, cmp_len + 1);
 		const char* s2 = machine.memory.template memarray<char>(str2_addr, cmp_len + 1);
-- 
2.43.0


From 381fbfd85e189afb7832e975b5a64056155f7fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:03 +0000
Subject: [PATCH 41/58] fix: accelerated strncmp must stop at the end of the
 strings

---
 lib/libloong/machine_accelerate.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index cccd232..5ddf334 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -168,9 +168,19 @@ void Machine::setup_accelerated_syscalls()
 		const address_t str1_addr = machine.cpu.reg(REG_A0);
 		const address_t str2_addr = machine.cpu.reg(REG_A1);
 		const size_t n            = machine.cpu.reg(REG_A2);
-		const char* s1 = machine.memory.template memarray<char>(str1_addr, n);
-		const char* s2 = machine.memory.template memarray<char>(str2_addr, n);
-		const int result = std::memcmp(s1, s2, n);
+		const size_t len1 = machine.memory.strlen(str1_addr, n);
+		const size_t len2 = machine.memory.strlen(str2_addr, n);
+		const size_t cmp_len = std::min(len1, len2);
+		const char* s1 = machine.memory.template memarray<char>(str1_addr, cmp_len);
+		const char* s2 = machine.memory.template memarray<char>(str2_addr, cmp_len);
+		int result = std::memcmp(s1, s2, cmp_len);
+		if (result == 0) {
+			if (len1 < len2) {
+				result = -1;
+			} else if (len1 > len2) {
+				result = 1;
+			}
+		}
 
 		machine.set_result<int>(result);
 	});
-- 
2.43.0


From 6238b08c034e09463f5139d9a0228ff8155e4545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:03 +0000
Subject: [PATCH 42/58] fix: accelerated memchr of more than the rest of the
 arena

---
 lib/libloong/machine_accelerate.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index 5ddf334..67c260a 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -116,7 +116,11 @@ void Machine::setup_accelerated_syscalls()
 	[] (Machine& machine) {
 		const address_t ptr = machine.cpu.reg(REG_A0);
 		const int value     = machine.cpu.reg(REG_A1);
-		const size_t n      = machine.cpu.reg(REG_A2);
+		size_t n            = machine.cpu.reg(REG_A2);
+		// The search may end long before n, so n may exceed the arena
+		if (ptr < machine.memory.arena_size()) {
+			n = std::min<size_t>(n, machine.memory.arena_size() - ptr);
+		}
 		// Perform native memchr
 		const uint8_t* p = machine.memory.template memarray<uint8_t>(ptr, n);
 		const void* result = std::memchr(p, value, n);
-- 
2.43.0


From b0a15387849fda7fb866d56b9a2f06a6b1b3cc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 43/58] fix: an exited thread must not stay in the queues

A thread that was ended by another one (tgkill) was still in the suspended or
blocked queue, and its freed registers were resumed later.
---
 lib/libloong/posix/threads.cpp | 9 +++++++++
 lib/libloong/posix/threads.hpp | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index 7ac53cf..d9d9132 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -160,8 +160,17 @@ Thread* MultiThreading::create(
 	return thread;
 }
 
+void MultiThreading::dequeue(const Thread* thread)
+{
+	m_suspended.erase(std::remove(m_suspended.begin(), m_suspended.end(), thread), m_suspended.end());
+	m_blocked.erase(std::remove(m_blocked.begin(), m_blocked.end(), thread), m_blocked.end());
+}
+
 void MultiThreading::erase_thread(int tid)
 {
+	if (auto* thread = get_thread(tid)) {
+		dequeue(thread);
+	}
 	m_threads.erase(tid);
 }
 
diff --git a/lib/libloong/posix/threads.hpp b/lib/libloong/posix/threads.hpp
index 90985fa..e300e5c 100644
--- a/lib/libloong/posix/threads.hpp
+++ b/lib/libloong/posix/threads.hpp
@@ -58,6 +58,8 @@ namespace loongarch
 		bool      block(address_t retval, uint32_t reason, uint32_t extra = 0);
 		void      unblock(int tid);
 		size_t    wakeup_blocked(size_t max, uint32_t reason, uint32_t mask = ~0U);
+		/* Remove a thread from the suspended and blocked threads. */
+		void      dequeue(const Thread* thread);
 		/* A suspended thread can at any time be resumed. */
 		auto&     suspended_threads() { return m_suspended; }
 		/* A blocked thread can only be resumed by unblocking it. */
-- 
2.43.0


From fb7da4dff23a3ead56f57df8ebd5954ec2ad6195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 44/58] fix: a running thread must not stay in the queues

The main thread resumed while it was blocked, and a thread resumed by
yield_to, were resumed again later with their old registers.
---
 lib/libloong/posix/threads.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index d9d9132..3a5f9c1 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -38,6 +38,8 @@ void MultiThreading::wakeup_next()
 		next->resume();
 	} else {
 		auto* next = get_thread(0);
+		// the main thread may be blocked
+		dequeue(next);
 		next->resume();
 	}
 }
@@ -244,6 +246,7 @@ bool MultiThreading::yield_to(int tid, bool store_retval, address_t retval)
 	else
 		current->suspend();
 
+	dequeue(thread);
 	thread->resume();
 	return true;
 }
-- 
2.43.0


From 42d9fc2a020ad90f0b76a71f5171b0d15751148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 45/58] fix: thread IDs and futexes are 32-bit, and a thread
 exit wakes up its joiner

---
 lib/libloong/linux/syscalls_threads.cpp | 2 +-
 lib/libloong/posix/threads.cpp          | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index 641a639..c714323 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -51,7 +51,7 @@ namespace loongarch
 					return;
 				}
 				// Deadlock - unlock and continue
-				machine.memory.write<address_t>(addr, 0);
+				machine.memory.write<uint32_t>(addr, 0);
 				machine.set_result(0);
 				return;
 			}
diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index 3a5f9c1..c67c344 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -78,7 +78,9 @@ bool Thread::exit()
 	const int tid = this->tid;
 	// CLONE_CHILD_CLEARTID: set userspace TID value to zero
 	if (this->clear_tid) {
-		threading.machine.memory.write<address_t>(this->clear_tid, 0);
+		threading.machine.memory.write<uint32_t>(this->clear_tid, 0);
+		// CLONE_CHILD_CLEARTID: and wake up one thread waiting for it
+		threading.wakeup_blocked(1, this->clear_tid);
 	}
 	// Delete this thread (except main thread)
 	if (tid != 0) {
-- 
2.43.0


From ef7cbe92afd01622bcff223da5e26c942f4577c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 46/58] fix: set_tid_address must keep the whole address

---
 lib/libloong/linux/syscalls_threads.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index c714323..b60bbc5 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -106,7 +106,7 @@ namespace loongarch
 		// set_tid_address
 		this->install_syscall_handler(96,
 		[](Machine& machine) {
-			const int clear_tid = machine.sysarg<address_t>(0);
+			const auto clear_tid = machine.sysarg<address_t>(0);
 			// With initialized threads
 			if (machine.has_threads()) {
 				machine.threads().get_thread()->clear_tid = clear_tid;
-- 
2.43.0


From 76e46e5cdd0e1cb71766a13b44e711f6d3c33610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 47/58] fix: a futex wait without bitset must be woken by every
 wake

---
 lib/libloong/linux/syscalls_threads.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index b60bbc5..a6d21cd 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -47,7 +47,7 @@ namespace loongarch
 				thprint(machine,
 					"FUTEX: Waiting (blocked)... uaddr=0x%llx val=%d, bitset=%d\n",
 					static_cast<unsigned long long>(addr), val, is_bitset);
-				if (machine.threads().block(0, addr, is_bitset ? val3 : 0x0)) {
+				if (machine.threads().block(0, addr, is_bitset ? val3 : ~0x0)) {
 					return;
 				}
 				// Deadlock - unlock and continue
-- 
2.43.0


From 6ea52765f685610915eb5f943ac605ef3dba29cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 48/58] fix: futex, sched_yield and tgkill must always set
 their result

---
 lib/libloong/linux/syscalls_threads.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index a6d21cd..2c8a09a 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -59,7 +59,9 @@ namespace loongarch
 				"FUTEX: Wait condition EAGAIN... uaddr=0x%llx val=%d, bitset=%d\n",
 				static_cast<unsigned long long>(addr), val, is_bitset);
 			// This thread isn't blocked, but yielding may be necessary
-			machine.threads().suspend_and_yield(-LA_EAGAIN);
+			if (!machine.threads().suspend_and_yield(-LA_EAGAIN)) {
+				machine.set_result(-LA_EAGAIN);
+			}
 			return;
 		} else if ((futex_op & 0xF) == FUTEX_WAKE || (futex_op & 0xF) == FUTEX_WAKE_BITSET) {
 			const bool is_bitset = (futex_op & 0xF) == FUTEX_WAKE_BITSET;
@@ -135,7 +137,9 @@ namespace loongarch
 		this->install_syscall_handler(124,
 		[](Machine& machine) {
 			thprint(machine, "%s\n", ">>> sched_yield()");
-			machine.threads().suspend_and_yield();
+			if (!machine.threads().suspend_and_yield()) {
+				machine.set_result(0);
+			}
 		});
 
 		// tgkill (update to work with threads)
@@ -149,8 +153,13 @@ namespace loongarch
 			if (thread != nullptr) {
 				// If the signal is unhandled, exit the thread
 				if (sig != 0 && machine.sigaction(sig).is_unset()) {
-					if (!thread->exit())
+					const bool exiting_myself = (machine.threads().get_thread() == thread);
+					if (!thread->exit()) {
+						if (!exiting_myself) {
+							machine.set_result(0);
+						}
 						return;
+					}
 				} else {
 					// Jump to signal handler and change to altstack, if set
 					machine.signals().enter(machine, sig);
-- 
2.43.0


From 70ffea8b140b658123f5d5783f181fa2871fc5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 49/58] fix: mmap must not hand out memory beyond the arena

---
 lib/libloong/linux/syscalls.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 38c00be..114cd36 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -14,6 +14,7 @@ namespace loongarch
 	static constexpr int64_t LA_EBADF = 9;
 	static constexpr int64_t LA_EINVAL = 22;
 	static constexpr int64_t LA_EAGAIN = 11;
+	static constexpr int64_t LA_ENOMEM = 12;
 	static constexpr int64_t LA_ENOTTY = 25;
 
 	// Syscall numbers (LoongArch Linux ABI)
@@ -590,6 +591,15 @@ namespace loongarch
 	}
 
 	// MMAP syscall
+	static address_t allocate_mapping(Machine& machine, size_t length)
+	{
+		const address_t begin = machine.memory.mmap_address();
+		const address_t end = machine.memory.arena_size();
+		if (begin > end || length > end - begin || ((length + 4095) & ~size_t(4095)) > end - begin) {
+			return -LA_ENOMEM;
+		}
+		return machine.memory.mmap_allocate(length);
+	}
 	static void syscall_mmap(Machine& machine)
 	{
 		auto [addr, length, prot, flags, fd, offset] =
@@ -598,11 +608,11 @@ namespace loongarch
 		// Simple implementation: allocate memory from our heap
 		if (addr == 0) {
 			// Anonymous mapping - allocate new memory
-			auto new_addr = machine.memory.mmap_allocate(length);
+			auto new_addr = allocate_mapping(machine, length);
 			machine.set_result(new_addr);
 		} else if ((flags & 0x10) == 0x0) {
 			// no fixed flag - force into new allocation
-			auto new_addr = machine.memory.mmap_allocate(length);
+			auto new_addr = allocate_mapping(machine, length);
 			machine.set_result(new_addr);
 		} else if (addr < machine.memory.mmap_address()) {
 			// It's within the mmap region - allow
-- 
2.43.0


From b798d2d74d5aef2cd2aa29db2983cab6ee1b3ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 50/58] fix: mmap must not return the old contents of unmapped
 memory

The length of munmap was not rounded up to whole pages, too, so that an
unaligned mapping was never returned, or the next mappings were not page-aligned.
---
 lib/libloong/memory.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 2ec8959..64d4d7a 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -299,7 +299,12 @@ address_t Memory::mmap_allocate(size_t size)
 void Memory::mmap_deallocate(address_t addr, size_t size)
 {
 	// Allow relaxation of mmap area by moving m_mmap_address back
-	if (addr + size == this->m_mmap_address) {
+	size = (size + 4095) & ~size_t(4095); // As in mmap_allocate
+	if (addr % 4096 == 0 && addr < this->m_mmap_address && size == this->m_mmap_address - addr) {
+		// New mappings are zero-initialized
+		if (is_writable_range(addr, size)) {
+			std::memset(&m_arena[addr], 0, size);
+		}
 		this->m_mmap_address = addr;
 	}
 }
-- 
2.43.0


From 369111e1db2160112f7ba507a08b19d93d321277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:22 +0000
Subject: [PATCH 51/58] fix: the initial stack pointer must be 16-byte aligned

---
 lib/libloong/machine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/libloong/machine.cpp b/lib/libloong/machine.cpp
index 477e3d5..3c3bf8b 100644
--- a/lib/libloong/machine.cpp
+++ b/lib/libloong/machine.cpp
@@ -118,6 +118,12 @@ namespace loongarch
 		auxv.push_back({AT_PHDR, memory.elf_phdr_addr()});
 		auxv.push_back({AT_NULL, 0});
 
+		// The final stack pointer must be 16-byte aligned
+		const size_t num_words = auxv.size() * 2 + (env_ptrs.size() + 1) + (arg_ptrs.size() + 1) + 1;
+		if (num_words % 2 != 0) {
+			sp -= sizeof(address_t);
+		}
+
 		// Push auxiliary vector (already in reverse order)
 		sp -= auxv.size() * 2 * sizeof(address_t);
 		memory.copy_to_guest(sp, auxv.data(), auxv.size() * 2 * sizeof(address_t));
-- 
2.43.0


From 0adfc4fafc2c838f8bcc89588a5fde3445825807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:06 +0000
Subject: [PATCH 52/58] fix: an arena of almost the whole address space must be
 refused

The size of the mapping wrapped around, and the arena was much larger than it.
---
 lib/libloong/memory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 64d4d7a..d06dd0c 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -60,6 +60,9 @@ void Memory::allocate_arena(size_t size)
 	if constexpr (LA_MASKED_MEMORY_BITS) {
 		size = LA_MASKED_MEMORY_SIZE;
 	}
+	if (size + LA_OVER_ALLOCATE_SIZE < size) {
+		throw MachineException(OUT_OF_MEMORY, "Failed to allocate memory arena");
+	}
 	if (this->m_arena) free_arena();
 #ifdef __unix__
 	this->m_arena = static_cast<uint8_t*>(mmap(nullptr, size + LA_OVER_ALLOCATE_SIZE,
-- 
2.43.0


From 2403ccfb210d2acd8efb1ad04cc35f7f99673bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:30 +0000
Subject: [PATCH 53/58] fix: nothing is writable without an arena

After a failed reallocation, writes into the former arena passed the check.
---
 lib/libloong/memory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index d06dd0c..e2a229c 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -135,6 +135,8 @@ void Memory::free_arena()
 	free_arena_internal(this->m_arena, this->m_arena_size);
 	this->m_arena = nullptr;
 	this->m_arena_size = 0;
+	this->m_arena_end_sub_rodata = 0;
+	this->m_arena_end_sub_data = 0;
 }
 
 
-- 
2.43.0


From 83e13f7a81ea0769b4f7507184109b654a72b870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:51 +0000
Subject: [PATCH 54/58] fix: the first machine must not remove installed system
 call handlers

---
 lib/libloong/machine.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/machine.cpp b/lib/libloong/machine.cpp
index 3c3bf8b..b27d9ab 100644
--- a/lib/libloong/machine.cpp
+++ b/lib/libloong/machine.cpp
@@ -17,11 +17,15 @@ namespace loongarch
 		// Initialize all system call handlers to a throwing stub on first creation (thread-safe)
 		static std::once_flag init_flag;
 		std::call_once(init_flag, []() {
-			m_unknown_syscall_handler = [](Machine& m, int sysnum) {
-				throw MachineException(UNIMPLEMENTED_SYSCALL,
-					"Unimplemented system call", sysnum);
-			};
+			// Handlers may have been installed before the first machine
+			if (m_unknown_syscall_handler == nullptr) {
+				m_unknown_syscall_handler = [](Machine& m, int sysnum) {
+					throw MachineException(UNIMPLEMENTED_SYSCALL,
+						"Unimplemented system call", sysnum);
+				};
+			}
 			for (auto& handler : m_syscall_handlers) {
+				if (handler != nullptr) continue;
 				handler = [](Machine& m) {
 					const int sysnum = static_cast<int>(m.cpu.reg(REG_A7));
 					m_unknown_syscall_handler(m, sysnum);
-- 
2.43.0


From 0483a8cd860ee0dbe5a4b9beab1bf85c5cc74d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:20 +0000
Subject: [PATCH 55/58] fix: stepping over a system call with an immediate

The dispatchers use the immediate as the number and return to RA, single-stepping used A7 and fell through.
---
 lib/libloong/la_instr_impl.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 2c34ee0..ba41bb7 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -647,7 +647,12 @@ struct InstrImpl {
 	// === System Instructions ===
 
 	static void SYSCALL(cpu_t& cpu, la_instruction instr) {
-		(void)instr;
+		// A system call with an immediate has that number, and returns to its caller
+		if (const uint32_t imm = instr.whole & 0x3FF; imm != 0) {
+			cpu.machine().system_call(imm);
+			cpu.registers().pc = cpu.reg(REG_RA) - 4;
+			return;
+		}
 		const int syscall_nr = static_cast<uint32_t>(cpu.reg(REG_A7));
 		cpu.machine().system_call(syscall_nr);
 	}
-- 
2.43.0


From 43491c6f86f484dd90fa05b717beacab9ffcfd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:51 +0000
Subject: [PATCH 56/58] fix: BREAK must reach its handler whatever its index

With more than 256 known handlers, the low byte of the index named a handler of another instruction.
---
 lib/libloong/decoder_cache.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 1fc3080..284ff02 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -50,7 +50,7 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 		case InstrId::SYSCALL:
 			return LA64_BC_SYSCALL;
 		case InstrId::BREAK:
-			return LA64_BC_FUNCTION;
+			return LA64_BC_FUNCTION + (handler_idx >> 8);
 		case InstrId::NOP:
 			return LA64_BC_NOP;
 
-- 
2.43.0


From bbcd531c25aef8bfd3a649494e66dc2a0902cd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:04 +0000
Subject: [PATCH 57/58] fix: pass unsigned 32-bit arguments sign-extended, as
 the LP64 ABI says

---
 lib/libloong/machine_vmcall.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/machine_vmcall.hpp b/lib/libloong/machine_vmcall.hpp
index e36a8b4..d6df3ed 100644
--- a/lib/libloong/machine_vmcall.hpp
+++ b/lib/libloong/machine_vmcall.hpp
@@ -67,7 +67,11 @@ namespace loongarch
 			}
 			else if constexpr (std::is_integral_v<T>) {
 				// Integer types go to integer registers (A0-A7)
-				cpu.reg(iarg++) = static_cast<address_t>(args);
+				// The LP64 ABI keeps 32-bit integers sign-extended, unsigned ones too
+				if constexpr (sizeof(T) == 4)
+					cpu.reg(iarg++) = static_cast<address_t>(static_cast<int32_t>(args));
+				else
+					cpu.reg(iarg++) = static_cast<address_t>(args);
 			}
 			else if constexpr (std::is_floating_point_v<T>) {
 				// Floating-point types go to FP registers (FA0-FA7)
@@ -80,7 +84,10 @@ namespace loongarch
 			else if constexpr (std::is_enum_v<T>) {
 				// Enums are treated as their underlying integer type
 				using UnderlyingType = std::underlying_type_t<T>;
-				cpu.reg(iarg++) = static_cast<address_t>(static_cast<UnderlyingType>(args));
+				if constexpr (sizeof(T) == 4)
+					cpu.reg(iarg++) = static_cast<address_t>(static_cast<int32_t>(args));
+				else
+					cpu.reg(iarg++) = static_cast<address_t>(static_cast<UnderlyingType>(args));
 			}
 			else if constexpr (std::is_standard_layout_v<T> && std::is_trivially_copyable_v<T>) {
 				// Standard layout structs: Push onto stack, pass pointer as integer
-- 
2.43.0


From f4512a414afcad782222507451fc2aa273639ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:04 +0000
Subject: [PATCH 58/58] fix: do not sign-extend unsigned 8- and 16-bit results
 of system calls

---
 lib/libloong/machine_inline.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/machine_inline.hpp b/lib/libloong/machine_inline.hpp
index a09c5d3..5ee7afc 100644
--- a/lib/libloong/machine_inline.hpp
+++ b/lib/libloong/machine_inline.hpp
@@ -42,8 +42,8 @@ namespace loongarch
 	{
 		if constexpr (std::is_integral_v<remove_cvref_t<T>>) {
 			if constexpr (sizeof(T) < sizeof(address_t) && !std::is_same_v<T, bool>)
-				// Sign-extend all arguments smaller than the word size
-				cpu.reg(REG_A0) = static_cast<address_t>(static_cast<std::make_signed_t<T>>(value));
+				// Extend 8- and 16-bit results by their own sign, then sign-extend from 32 bits
+				cpu.reg(REG_A0) = static_cast<address_t>(static_cast<int32_t>(value));
 			else
 				cpu.reg(REG_A0) = static_cast<address_t>(value);
 		} else if constexpr (std::is_floating_point_v<remove_cvref_t<T>>) {
-- 
2.43.0

