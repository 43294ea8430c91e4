#include "api.hpp"
static const u64 base = 0x10000;
static u32 op2(P& p) { // registers 4..9 are used by the programs
	u32 d = 4 + p.below(6), j = 4 + p.below(6), k = 4 + p.below(6); static const u32 ops[] = {0x00108000 /*add.d*/, 0x00118000 /*sub.d*/, 0x00120000 /*slt*/, 0x00150000 /*or*/, 0x00158000 /*xor*/, 0x00100000 /*add.w*/};
	if (p.coin()) return 0x02c00000 | (u32)((p.below(5) - 2) & 0xFFF) << 10 | j << 5 | d;
	return ops[p.below(6)] | k << 10 | j << 5 | d;
}
static std::vector<u32> program(P& p, u64 words) {
	std::vector<u32> c(words);
	for (u64 i = 0; i + 1 < words; i++) {
		c[i] = op2(p); if (c[i] == 0x00150000) c[i] = 0x02c00400 | 4 << 5 | 4;
		if (p.below(4)) continue;
		int64_t o = (int64_t)p.below(words) - (int64_t)i; u32 j = 4 + p.below(6), d = 4 + p.below(6);
		switch (p.below(6)) {
		case 0: c[i] = 0x50000000 | (u32)(o & 0xFFFF) << 10 | ((o >> 16) & 0x3FF); break;           // b
		case 1: c[i] = 0x54000000 | (u32)(o & 0xFFFF) << 10 | ((o >> 16) & 0x3FF); break;           // bl
		case 2: c[i] = 0x40000000 | (u32)(o & 0xFFFF) << 10 | j << 5 | ((o >> 16) & 0x1F); break;   // beqz
		case 3: c[i] = 0x44000000 | (u32)(o & 0xFFFF) << 10 | j << 5 | ((o >> 16) & 0x1F); break;   // bnez
		case 4: c[i] = (0x58000000 + (u32)p.below(6) * 0x04000000) | (u32)(o & 0xFFFF) << 10 | j << 5 | d; break; // beq ... bgeu
		case 5: c[i] = 0x4c000000 | (u32)((int)p.below(3) - 1 & 0xFFFF) << 10 | 1 << 5 | (p.coin() ? 0 : 3); break; // jirl by the link register
		}
	}
	c[words - 1] = 0x00150000; return c;
}
static void load(G& g, const std::vector<u32>& c, u64 at) {
	Machine& m = *g.m; memcpy(g.arena + base, c.data(), c.size() * 4); MachineOptions o; o.use_shared_execute_segments = false; m.memory.create_execute_segment(o, (u8*)c.data(), base, c.size() * 4, true); m.cpu.registers().pc = at;
}
static void regs(P& p, G& a, G& b) { for (int i = 1; i < 10; i++) a.m->cpu.reg(i) = b.m->cpu.reg(i) = i == 1 ? base : p.coin() ? p.below(8) : p.r(); }
static void same(G& a, G& b, const char* w) { for (int i = 0; i < 32; i++) REQUIRE(a.m->cpu.reg(i) == b.m->cpu.reg(i), std::string(w) + ": register " + std::to_string(i)); REQUIRE(a.m->cpu.pc() == b.m->cpu.pc(), std::string(w) + ": program counter " + hx(a.m->cpu.pc()) + " instead of " + hx(b.m->cpu.pc())); }
// a counted run, in pieces, against single steps
UNIT(run) {
	u64 seed = p.get("seed", [&] { return p.r(); }), words = 3 + seed % 30; P q; q.rng.seed(seed); auto code = program(q, words); u64 at = base + 4 * q.below(words);
	G a(0x20000, 0x1000, 0x1000, nullptr), b(0x20000, 0x1000, 0x1000, nullptr); load(a, code, at); load(b, code, at); regs(q, a, b); u64 c0 = p.get("counter", [&] { return p.coin() ? 0 : p.below(1000); }), steps = 0; a.m->set_instruction_counter(~0ull); b.m->set_instruction_counter(c0);
	for (int piece = 0; piece < 6; piece++) {
		u64 lim = p.get("limit" + std::to_string(piece), [&] { return c0 + 1 + p.below(60); }); if (lim <= c0) throw Skip{};
		bool done = false, fault = false; try { done = a.m->cpu.simulate(a.m->cpu.pc(), c0, lim); } catch (const MachineException& e) { REQUIRE(e.type() == EXECUTION_SPACE_PROTECTION_FAULT, "exception"); fault = true; }
		if (fault) { for (int k = 0; k < 5000; k++) { u64 pc = b.m->cpu.pc(); if (pc < base || pc >= base + 4 * words) break; b.m->cpu.step_one(true); } same(a, b, "at the fault"); return; }
		u64 c1 = a.m->instruction_counter(), n = c1 - c0; REQUIRE(c1 >= c0 && n <= 60 + words, "counter " + std::to_string(c1)); REQUIRE(done || c1 >= lim, "stopped before the limit"); REQUIRE(c1 < lim + words, "ran on behind the limit");
		for (u64 k = 0; k < n; k++) b.m->cpu.step_one(true);
		REQUIRE(b.m->instruction_counter() == c1, "counter of single steps"); same(a, b, "after the run"); REQUIRE(!a.m->stopped(), "not stopped"); REQUIRE(a.m->instruction_limit_reached() == !done, "instruction_limit_reached");
		if (done) { REQUIRE(a.m->cpu.pc() == base + 4 * words, "end"); return; }
		c0 = c1;
	}
}
UNIT(precise) {
	u64 seed = p.get("seed", [&] { return p.r(); }), words = 3 + seed % 30; P q; q.rng.seed(seed); auto code = program(q, words); u64 at = base + 4 * q.below(words);
	G a(0x20000, 0x1000, 0x1000, nullptr), b(0x20000, 0x1000, 0x1000, nullptr); load(a, code, at); load(b, code, at); regs(q, a, b); u64 c0 = p.get("m_counter", [&] { return p.below(50); }), lim = p.get("m_max", [&] { return p.below(90); }); if (c0 > lim + 100000 || lim > c0 + 100000) throw Skip{};
	a.m->set_instruction_counter(c0); a.m->set_max_instructions(lim); bool fa = false, fb = false; u64 n = 0;
	try { a.m->cpu.simulate_precise(); } catch (const MachineException&) { fa = true; }
	try { for (u64 k = c0; k < lim; k++) { b.m->cpu.step_one(false); n++; } } catch (const MachineException&) { fb = true; }
	REQUIRE(fa == fb, "exception"); same(a, b, "precise run"); REQUIRE(a.m->instruction_counter() == c0 + n, "counter"); REQUIRE(b.m->instruction_counter() == 0, "steps that are not counted"); REQUIRE(a.m->max_instructions() == lim, "limit");
}
UNIT(flags) {
	Machine m{std::string_view{}}; u64 c = p.get("m_counter", [&] { return p.coin() ? p.below(4) : p.r(); }), x = p.get("m_max", [&] { return p.coin() ? p.below(4) : p.near({c, ~0ull}); }), k = p.get("k", [&] { return p.r(); });
	m.set_instruction_counter(c); m.set_max_instructions(x); REQUIRE(m.instruction_counter() == c && m.max_instructions() == x, "values");
	REQUIRE(m.stopped() == (x == 0), "stopped"); REQUIRE(m.instruction_limit_reached() == (x != 0 && c >= x), "instruction_limit_reached"); m.increment_counter(k); REQUIRE(m.instruction_counter() == c + k && m.max_instructions() == x, "increment_counter");
	m.stop(); REQUIRE(m.stopped() && !m.instruction_limit_reached() && m.instruction_counter() == c + k, "stop");
}
int main() { return api_main(); }
