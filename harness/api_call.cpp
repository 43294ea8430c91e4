#include "api.hpp"
#include <utility>
struct HandlerThrow {};
static std::function<void(Machine&, u32)> act; static int calls = 0;
template <int N> static void tramp(Machine& m) { calls++; act(m, N); }
template <int... I> static void fill(std::integer_sequence<int, I...>) { Machine::syscall_t* t[] = {tramp<I>...}; for (size_t i = 0; i < sizeof...(I); i++) Machine::install_syscall_handler(i, t[i]); }
static void unknown(Machine& m, int n) { calls++; act(m, (u32)n); }
static void prepare() {
	static bool done = false; if (done) return; done = true;
	// many handlers are known before the first BREAK
	std::vector<u32> w; for (u32 i = 0; i < 1u << 17; i++) { u32 x = i << 15; if (x >= 0x002a0000 && x < 0x002b0000) continue; w.push_back(x); }
	Machine m{std::string_view{}}; auto s = std::make_shared<DecodedExecuteSegment>(0x1000, 0x1000 + w.size() * 4); MachineOptions o; populate_decoder_cache(m, o, s, 0x1000, (const u8*)w.data(), w.size() * 4, false);
	fill(std::make_integer_sequence<int, 512>{}); Machine::set_unknown_syscall_handler(unknown);
}
static void call(P& p, int eng) {
	prepare(); const u64 base = 0x10000, words = 24; u64 N = 0x20000;
	G g(N, 0x1000, 0x1000, [](u64) { return u8(0); }); Machine& m = *g.m;
	u64 kind = p.get("kind", [&] { return p.below(3); }), k = p.get("at", [&] { return p.below(words - 2); }), s = p.get("start", [&] { return eng ? p.below(k + 1) : k; }); if (k >= words - 1 || s > k || kind > 2) throw Skip{};
	u64 imm = p.get("imm", [&] { return kind ? 1 + p.below(1023) : 0; }) & 0x3FF; if (kind == 1 && !imm) imm = 1; if (kind == 0) imm = 0;
	u64 a7 = p.get("a7", [&] { return p.coin(3) ? p.r() : p.coin() ? p.below(512) : p.near({511, 512, 1ull << 32, (1ull << 32) + 5, 1ull << 31}); });
	u64 max = p.get("max", [&] { return p.coin() ? ~0ull : p.below(60); }), what = p.get("what", [&] { return p.below(6); }), t = p.get("target", [&] { return p.coin(6) ? 100 : p.below(words); }), lim = p.get("limit", [&] { return p.coin() ? p.below(60) : p.r(); });
	std::vector<u32> code(words, 0x02c00400 | (12 << 5) | 12); code[words - 1] = 0x00150000; code[k] = (kind == 2 ? 0x002a0000 : 0x002b0000) | (u32)imm;
	memcpy(g.arena + base, code.data(), words * 4); MachineOptions o; o.use_shared_execute_segments = false; m.memory.create_execute_segment(o, (u8*)code.data(), base, words * 4, true);
	for (int i = 1; i < 32; i++) m.cpu.reg(i) = p.r();
	u64 tgt = base + 4 * t; if (t >= words) tgt = p.near({0, 0x50000, base + 4 * words, base - 4}) & ~3ull;
	m.cpu.reg(1) = kind == 1 ? tgt : p.r(); m.cpu.reg(11) = a7; u64 r12 = m.cpu.reg(12), seen = 0; int n = 0; calls = 0; std::string err; u64 P = base + 4 * k, nreg = p.r(), nidx = 1 + p.below(31);
	u32 number = kind == 0 ? (u32)a7 : kind == 1 ? (u32)imm : 0; if (kind == 2 && (what == 1 || what == 2 || what == 3)) what = 0;
	u64 maxat = max; if (what == 4 && nidx == 1 && kind == 1) nidx = 5;
	act = [&](Machine& mm, u32 num) {
		n++; if (&mm != &m) err = "another machine"; if (num != number) err = "handler " + std::to_string(num) + " instead of " + std::to_string(number);
		if (kind != 2 || eng == 0) if (mm.cpu.pc() != P) err = "program counter during the call " + hx(mm.cpu.pc());
		if (eng == 1 && kind != 2 && mm.max_instructions() != maxat) err = "limit during the call";
		if (n > 1) { if (n > 50) { mm.stop(); } return; }
		seen = mm.cpu.reg(12);
		switch (what) {
		case 1: mm.cpu.registers().pc = tgt - 4; break; case 2: mm.stop(); break; case 3: mm.set_max_instructions(lim); break;
		case 4: mm.cpu.reg(nidx) = nreg; break; case 5: throw HandlerThrow{};
		}
	};
	m.cpu.registers().pc = base + 4 * s;
	// reference
	bool thr = false, fault = false, res = true; u64 pc = base + 4 * s, cnt = 0, mx = eng == 2 ? ~0ull : max, e12 = r12; int ecalls = 0; bool stop = false;
	auto inside = [&](u64 a) { return a >= base && a < base + 4 * words; };
	if (eng == 0) {
		cnt = 7; m.set_instruction_counter(7); m.set_max_instructions(max); ecalls = 1; u64 p1 = P; if (what == 1) p1 = tgt - 4; if (what == 2) mx = 0; if (what == 3) mx = lim; pc = p1 + 4; if (kind == 1) pc = m.cpu.reg(1); cnt = 8; if (what == 5) { thr = true; pc = P; cnt = 7; }
		if (what == 4 && nidx == 12) e12 = nreg;
	} else if (eng == 1 && max == 0) { mx = 0; // nothing may run
	} else for (int rounds = 0; !stop; ) {
		if (rounds++ > 60) throw Skip{};
		u64 i = (pc - base) / 4, j = i; while (j != k && j != words - 1) j++;
		if (kind == 2 && j == k && rounds == 1) { /* no end of a block */ }
		cnt += j - i + 1; e12 += j - i; pc = base + 4 * j;
		if (j == words - 1) { pc += 4; mx = ~0ull; break; }
		ecalls++; bool first = ecalls == 1; if (ecalls > 50) throw Skip{};
		u64 p1 = P; if (first) { if (what == 5) { thr = true; break; } if (what == 1) p1 = tgt - 4; if (what == 2) mx = 0; if (what == 3) mx = lim; if (what == 4 && nidx == 12) e12 = nreg; }
		if (kind == 2) { pc = P + 4; continue; }
		if (kind == 0 && mx != 0 && p1 == P) { pc = P + 4; maxat = maxat; continue; }
		pc = kind == 0 ? p1 + 4 : tgt; if (kind == 1 && first && what == 4 && nidx == 1) pc = nreg;
		if (eng == 1 ? cnt >= mx : mx == 0) { res = mx == 0; stop = true; break; }
		if (!inside(pc)) { fault = true; break; }
	}
	if (eng && kind != 2 && what == 3) { auto old = act; act = [&, old](Machine& mm, u32 x) { maxat = n == 0 ? max : lim; old(mm, x); }; }
	bool gthr = false, gfault = false, gres = true; u64 gdata = 0;
	try { if (eng == 0) m.cpu.step_one(true); else if (eng == 1) gres = m.cpu.simulate(m.cpu.pc(), 0, max); else m.cpu.simulate_inaccurate(m.cpu.pc()); }
	catch (const HandlerThrow&) { gthr = true; } catch (const MachineException& e) { gfault = e.type() == EXECUTION_SPACE_PROTECTION_FAULT; gdata = e.data(); if (!gfault) throw; }
	REQUIRE(err.empty(), err); REQUIRE(calls == ecalls, "calls " + std::to_string(calls) + " instead of " + std::to_string(ecalls)); REQUIRE(gthr == thr, "exception of the handler"); REQUIRE(gfault == fault, "execution fault"); if (fault) REQUIRE(gdata == pc, "address of the fault");
	if (!(kind == 2 && thr && eng)) REQUIRE(m.cpu.pc() == pc, "program counter " + hx(m.cpu.pc()) + " instead of " + hx(pc));
	if (!thr && !fault) { REQUIRE(m.cpu.reg(12) == e12, "instructions executed"); if (eng == 1) { REQUIRE(gres == res, "result"); REQUIRE(m.instruction_counter() == cnt, "counter " + std::to_string(m.instruction_counter()) + " instead of " + std::to_string(cnt)); REQUIRE(m.max_instructions() == mx, "limit afterwards"); if (stop) REQUIRE(m.instruction_limit_reached() == (mx != 0) && m.stopped() == (mx == 0), "stopped and instruction_limit_reached"); } }
	if (eng == 0) { REQUIRE(m.instruction_counter() == cnt, "counter"); REQUIRE(m.max_instructions() == mx, "limit"); }
	REQUIRE(m.cpu.reg(0) == 0, "register zero"); if (what == 4 && nidx != 12 && calls && !thr) REQUIRE(m.cpu.reg(nidx) == nreg, "result of the handler lost");
}
UNIT(calls_step) { call(p, 0); }
UNIT(calls_sim) { call(p, 1); }
UNIT(calls_simi) { call(p, 2); }
static int last = -1; static Machine* lastm = nullptr;
static void h0(Machine& m) { last = 0; lastm = &m; } static void h1(Machine& m) { last = 1; lastm = &m; } static void h2(Machine&) { last = 2; throw HandlerThrow{}; }
static void u0(Machine& m, int n) { last = 1000000 + n; lastm = &m; }
static Machine::syscall_t* early[3]; static u64 early_n[3] = {5, 77, 511}; static int early_u = 0;
// handlers installed before the first machine stay, the other numbers report themselves
static void first() {
	static bool done = false; if (done) return; done = true;
	early_u = getpid() & 1; for (int i = 0; i < 3; i++) Machine::install_syscall_handler(early_n[i], early[i] = i == 1 ? h1 : h0); if (early_u) Machine::set_unknown_syscall_handler(u0);
	Machine m{std::string_view{}};
	for (u32 i = 0; i < 530; i++) {
		bool mine = i == 5 || i == 77 || i == 511; last = -1; u64 a7 = i * 3 + 1; m.cpu.reg(REG_A7) = a7; bool thr = false; u64 data = 0; try { m.system_call(i); } catch (const MachineException& e) { thr = e.type() == UNIMPLEMENTED_SYSCALL; data = e.data(); }
		std::string w = " (system call " + std::to_string(i) + ")"; u64 num = i < 512 ? a7 : i;
		if (mine) REQUIRE(last == (i == 77 ? 1 : 0), "handler installed before the first machine is gone" + w);
		else if (early_u) REQUIRE(last == int(1000000 + num), "handler of unknown numbers installed before the first machine is gone" + w);
		else REQUIRE(thr && data == num, "default handler" + w);
	}
	if (early_u) { Machine::set_unknown_syscall_handler(u0); }
}
UNIT(table) {
	first(); Machine m{std::string_view{}}; Machine::set_unknown_syscall_handler(u0); Machine::syscall_t* h[] = {h0, h1, h2}; static std::map<u32, int> have{{5, 0}, {77, 1}, {511, 0}};
	for (int k = 0; k < 4; k++) { u32 n = p.get("n" + std::to_string(k), [&] { return p.coin(3) ? p.near({511, 512, 0, 1u << 31}) : p.below(512); }); int w = p.below(3); Machine::install_syscall_handler(n, h[w]); if (n < 512) have[n] = w; }
	u32 n = p.get("n", [&] { return p.coin(3) ? p.near({511, 512, 0, 1u << 31, ~0u}) : p.coin() ? have.begin()->first : p.below(520); }); m.cpu.reg(REG_A7) = p.below(1 << 20); bool thr = false; last = -1; lastm = nullptr; bool un = n < 512 && p.coin();
	try { if (un) m.unchecked_system_call(n); else m.system_call(n); } catch (const HandlerThrow&) { thr = true; }
	if (n >= 512) { REQUIRE(last == int(1000000 + (int)n) && lastm == &m, "handler of unknown numbers"); return; }
	auto it = have.find(n); if (it == have.end()) { REQUIRE(last == int(1000000 + (int)m.cpu.reg(REG_A7)), "default handler"); return; }
	REQUIRE(last == it->second && thr == (it->second == 2), "handler of number " + std::to_string(n)); if (!thr) REQUIRE(lastm == &m, "another machine");
}
int main() { return api_main(); }
