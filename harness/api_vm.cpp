#include "api.hpp"
#include <libloong/machine_vmcall.hpp>
static const u64 base = 0x10000, N = 0x40000, EXITA = base + 16;
static std::function<void(Machine&)> act; static int calls = 0;
static void handler(Machine& m, int) { calls++; if (act) act(m); }
struct HT {};
// base: a system call (any number: the handler of unknown ones); base+4: back to the caller; base+8: for ever; base+16: stop
static std::unique_ptr<G> mkvm(P& p, u64 fill = 1) {
	auto g = std::make_unique<G>(N, 0x1000, 0x1000, [=](u64 i) { return u8(i * 31 + fill); }); Machine& m = *g->m; calls = 0; act = nullptr; Machine::set_unknown_syscall_handler(handler);
	u32 code[] = {0x002b0000, 0x4c000020, 0x50000000, 0x00150000 | 1 << 5 | 1, 0x00150000, 0x00150000}; memcpy(g->arena + base, code, sizeof code); memcpy(g->was.data() + base, code, sizeof code);
	MachineOptions o; o.use_shared_execute_segments = false; m.memory.create_execute_segment(o, (u8*)code, base, sizeof code, true);
	for (int i = 1; i < 32; i++) { m.cpu.reg(i) = p.r(); for (int j = 0; j < 4; j++) m.cpu.registers().getvr(i).du[j] = p.r(); }
	for (int j = 0; j < 4; j++) m.cpu.registers().getvr(0).du[j] = p.r();
	m.cpu.registers().set_fcsr(p.below(32)); for (int i = 0; i < 8; i++) m.cpu.registers().set_cf(i, p.coin()); m.memory.set_exit_address(EXITA); m.memory.set_stack_address(p.get("stack", [&] { return 0x20000 + p.below(0x10000); })); m.cpu.registers().pc = p.r() & ~3ull;
	return g;
}
static u64 al(u64 n) { return (n + 15) & ~15ull; }
template <class T> static u64 bits(T v) { u64 r = 0; memcpy(&r, &v, sizeof v); return r; }
struct S16 { u64 a; u32 b; u8 c; }; struct S40 { u64 a[5]; }; struct S3 { u8 a[3]; };
enum class E32 : u32 { A }; enum class E8 : int8_t { A }; enum Plain { PA, PB };
// expected state at the entry of the function
struct Want { std::vector<u64> ints; std::vector<std::pair<u64, int>> fl; std::vector<std::pair<u64, std::string>> stack; u64 sp; };
static Want W; 
static void top(u64 sp) { W = Want{}; W.sp = sp; }
static void wi(u64 v) { W.ints.push_back(v); } static void wf(float v) { W.fl.push_back({bits(v), 4}); } static void wd(double v) { W.fl.push_back({bits(v), 8}); }
static void ws(const void* d, size_t n) { W.sp -= al(n); W.stack.push_back({W.sp, std::string((const char*)d, n)}); W.ints.push_back(W.sp); }
static void check(G& g, const Registers& before, const char* what) {
	auto& r = g.m->cpu.registers(); std::string t = std::string(what) + ": ";
	for (size_t i = 0; i < W.ints.size(); i++) REQUIRE(r.get(REG_A0 + i) == W.ints[i], t + "integer argument " + std::to_string(i) + " is " + hx(r.get(REG_A0 + i)) + " instead of " + hx(W.ints[i]));
	for (size_t i = 0; i < W.fl.size(); i++) REQUIRE(memcmp(&r.getvr(i), &W.fl[i].first, W.fl[i].second) == 0, t + "floating-point argument " + std::to_string(i));
	for (auto& s : W.stack) REQUIRE(memcmp(g.arena + s.first, s.second.data(), s.second.size()) == 0, t + "argument on the stack");
	REQUIRE(r.get(REG_SP) == (W.sp & ~15ull), t + "stack pointer " + hx(r.get(REG_SP)) + " instead of " + hx(W.sp & ~15ull)); REQUIRE(r.get(REG_RA) == EXITA, t + "return address");
	for (int i = 1; i < 32; i++) if (i != 1 && i != 3 && (i < 4 || i >= 4 + (int)W.ints.size())) REQUIRE(r.get(i) == before.get(i), t + "register " + std::to_string(i) + " changed");
	for (int i = W.fl.size(); i < 32; i++) REQUIRE(memcmp(&r.getvr(i), &before.getvr(i), 32) == 0, t + "vector register " + std::to_string(i) + " changed");
	std::vector<u8> m(g.was); for (auto& s : W.stack) memcpy(m.data() + s.first, s.second.data(), s.second.size()); REQUIRE(memcmp(m.data(), g.arena, N) == 0, t + "memory");
}
// calls m.vmcall etc. with the arguments of shape k
template <class F> static void shapes(P& p, u64 k, u64 sp, F f) {
	int32_t i = p.r(); u32 u = p.r() | (p.coin() ? 1u << 31 : 0); int64_t l = p.r(); u64 ul = p.r(); int8_t c = p.r(); u8 uc = p.r(); int16_t s = p.r(); uint16_t us = p.r(); float fl = p.r() / 3.0f; double d = p.r() / 7.0; std::string str(p.below(60), 'x'); for (auto& x : str) x = 1 + p.below(255);
	S16 s16; memset((void*)&s16, 0, sizeof s16); s16.a = p.r(); s16.b = p.r(); s16.c = p.r(); S40 s40; for (auto& x : s40.a) x = p.r(); S3 s3; for (auto& x : s3.a) x = p.r(); E32 e32 = (E32)u; E8 e8 = (E8)c; bool b = p.coin(); char ch[7] = "abcdef"; const char* cs = str.c_str(); std::string_view sv = str; size_t cl = strlen(cs) + 1; (void)sv;
	top(sp);
	switch (k) {
	case 0: f(); break;
	case 1: wi((int64_t)i); wi((int64_t)(int32_t)u); wi(l); wi(ul); wi((int64_t)c); wi(uc); wi((int64_t)s); wi(us); f(i, u, l, ul, c, uc, s, us); break;
	case 2: wi(b); wi((int64_t)(int32_t)u); wi((int64_t)c); wi(1); f(b, e32, e8, PB); break;
	case 3: wf(fl); wi((int64_t)i); wd(d); wd(-d); wf(-fl); wi(ul); wd(d * 2); wd(d * 3); wd(d * 5); wf(fl * 7); f(fl, i, d, -d, -fl, ul, d * 2, d * 3, d * 5, fl * 7); break;
	case 4: ws(cs, cl); wi((int64_t)i); f(cs, i); break;
	case 5: ws(str.c_str(), str.size() + 1); wi(ul); f(str, ul); break;
	case 6: ws(&s16, 16); wi((int64_t)i); ws(&s40, 40); ws(&s3, 3); f(s16, i, s40, s3); break;
	case 7: wd(d); ws(str.c_str(), str.size() + 1); ws(&s40, 40); wi((int64_t)i); ws(cs, cl); f(d, str, s40, i, cs); break;
	default: throw Skip{};
	}
}
UNIT(setup) {
	auto g = mkvm(p); Machine& m = *g->m; u64 sp = p.get("sp", [&] { return 0x8000 + p.below(0x8000); }), ex = EXITA; m.cpu.reg(REG_SP) = sp; Registers before = m.cpu.registers();
	if (sp < 0x8000 || sp > N) throw Skip{};
	shapes(p, p.get("shape", [&] { return p.below(8); }), sp, [&](auto&&... a) { setup_call(m, ex, a...); check(*g, before, "setup_call"); });
	REQUIRE(m.cpu.pc() == before.pc, "setup_call: program counter");
}
UNIT(push) {
	auto g = mkvm(p); Machine& m = *g->m; u64 n = p.get("n", [&] { return p.below(100); }), sp = p.get("sp", [&] { return p.coin(4) ? p.near({0, 0x1000, N, 0x1010}) : 0x8000 + p.below(0x8000); }), s0 = sp; if (n > 100) throw Skip{}; std::string d(n, 0); for (auto& c : d) c = p.r();
	u64 to = sp - al(n); bool ok = inside(to, n, 0x1000, N) , th = false, served = false; u64 data = 0; Registers before = m.cpu.registers();
	try { u64 r = m.stack_push(sp, d.data(), n); served = true; REQUIRE(r == to && sp == to, "push: address"); } catch (const MachineException& e) { th = e.type() == PROTECTION_FAULT; data = e.data(); }
	if (n == 0) return; REQUIRE(served == ok && th == !ok, "push: fault"); if (th) REQUIRE(data == to, "push: fault address"); (void)s0;
	std::vector<u8> w(g->was); if (ok) memcpy(w.data() + to, d.data(), n); REQUIRE(memcmp(w.data(), g->arena, N) == 0, "push: memory"); REQUIRE(memcmp(&before, &m.cpu.registers(), sizeof before) == 0, "push: registers");
}
template <class R> static bool eq(R a, R b) { return memcmp(&a, &b, sizeof a) == 0; }
UNIT(vmcall) {
	auto g = mkvm(p); Machine& m = *g->m; u64 shape = p.get("shape", [&] { return p.below(8); }), what = p.get("what", [&] { return p.below(6); }), ret = p.get("ret", [&] { return p.below(7); }), lim = p.get("limited", [&] { return p.below(2); }); u64 st = m.memory.stack_address(); if (st < 0x20000 || st > 0x30000 || what > 5 || ret > 6) throw Skip{};
	Registers before = m.cpu.registers(); u64 a0 = p.coin(3) ? p.below(3) << 8 : p.r(); double d0 = p.r() / 3.0; bool thr = what == 1, stop = what == 2, loop = what == 3, inf = loop && lim; if (loop && !lim) loop = false; u64 fn = loop ? base + 8 : base;
	act = [&](Machine& mm) { REQUIRE(mm.cpu.pc() == base, "vmcall: program counter"); check(*g, before, "vmcall"); if (thr) throw HT{}; if (stop) mm.stop(); mm.cpu.reg(REG_A0) = a0; mm.cpu.registers().getfl64(0) = d0; if (ret == 5) { float f = d0; memcpy(&mm.cpu.registers().getvr(0), &f, 4); } };
	bool gthr = false, gto = false; u64 gd = 0;
	auto run = [&](auto&&... a) {
		try {
			#define RUN(T, X) { if (lim) { T r = m.vmcall<T, 1000>(fn, a...); REQUIRE(eq<T>(r, X), "vmcall: result"); } else { T r = m.vmcall<T>(fn, a...); REQUIRE(eq<T>(r, X), "vmcall: result"); } }
			switch (ret) { case 0: RUN(u64, a0) break; case 1: RUN(int, (int)a0) break; case 2: RUN(bool, (a0 != 0)) break; case 3: RUN(u8, (u8)a0) break; case 4: RUN(int64_t, (int64_t)a0) break; case 5: RUN(float, (float)d0) break; case 6: RUN(double, d0) break; }
		} catch (const HT&) { gthr = true; } catch (const MachineException& e) { gto = e.type() == MACHINE_TIMEOUT; gd = e.data(); if (!gto) throw; }
	};
	shapes(p, shape, st, run); REQUIRE(gthr == thr, "vmcall: exception of the guest"); REQUIRE(gto == inf, "vmcall: timeout"); if (inf) REQUIRE(gd == fn, "vmcall: timeout names the function"); else REQUIRE(calls == 1, "vmcall: runs once");
	if (!thr && !inf && !stop) { REQUIRE(m.cpu.pc() == EXITA + 4, "vmcall: ends at the exit address"); if (ret < 5) REQUIRE(m.return_value<u64>() == a0 && m.return_value<int32_t>() == (int32_t)a0 && m.return_value<double>() == d0, "return_value"); }
}
UNIT(timed) {
	auto g = mkvm(p); Machine& m = *g->m; u64 max = p.get("max", [&] { return 1 + p.below(50); }), x = p.r(), loop = p.get("loop", [&] { return p.below(2); }), fn = loop ? base + 8 : base; Registers before = m.cpu.registers(); top(m.memory.stack_address()); wi(x); if (!max || max > 100000) throw Skip{};
	bool to = false; act = [&](Machine& mm) { check(*g, before, "timed_vmcall"); REQUIRE(mm.max_instructions() == max, "timed_vmcall: limit"); };
	try { m.timed_vmcall(fn, max, x); } catch (const MachineException& e) { to = e.type() == MACHINE_TIMEOUT && e.data() == fn; REQUIRE(to, "timed_vmcall: exception"); }
	// the system call does not test the limit, the return does
	REQUIRE(to == (loop || max <= 2), "timed_vmcall: timeout"); if (loop) REQUIRE(m.instruction_counter() == max, "timed_vmcall: instructions");
}
template <bool T, bool S> static void pre(P& p, bool byname) {
	auto g = mkvm(p); Machine& m = *g->m; u64 x = p.r(), loop = p.get("loop", [&] { return p.below(2); }), max = p.get("max", [&] { return 3 + p.below(100); }), thr = p.get("throws", [&] { return p.below(2); }), fn = loop ? base + 8 : base; if (max < 3 || max > 100000) throw Skip{};
	u64 sp = m.cpu.reg(REG_SP) = 0x20000 + p.below(0x10000); m.set_instruction_counter(p.r()); m.set_max_instructions(p.r()); u64 c0 = m.instruction_counter(), m0 = m.max_instructions(), a0 = p.r(); Registers before = m.cpu.registers(); top(sp - 16); wi(x); bool gt = false, to = false; u64 r = 0;
	act = [&](Machine& mm) { check(*g, before, "preempt"); for (int i = 1; i < 32; i++) if (i != REG_RA) { mm.cpu.reg(i) = p.r(); mm.cpu.registers().getvr(i).du[p.below(4)] = p.r(); } mm.cpu.registers().set_cf(3, p.coin()); mm.cpu.registers().set_fcsr(7); mm.cpu.reg(REG_A0) = a0; if (thr) throw HT{}; };
	if (byname) m.memory.m_symbols.push_back({fn, 8, "some_function"});
	try { r = byname ? m.preempt<T, S>(max, std::string("some_function"), x) : m.preempt<T, S>(max, fn, x); } catch (const HT&) { gt = true; } catch (const MachineException& e) { to = e.type() == MACHINE_TIMEOUT && e.data() == fn; REQUIRE(to, "preempt: exception"); }
	REQUIRE(gt == (thr && !loop), "preempt: exception of the guest"); REQUIRE(to == (loop && T), "preempt: timeout"); bool ret = !gt && !to; if (ret) REQUIRE(r == (loop ? x : a0) && m.cpu.reg(REG_A0) == r, "preempt: result");
	if (S) {
		Registers now = m.cpu.registers(); if (ret) now.get(REG_A0) = before.get(REG_A0); for (int i = 0; i < 32; i++) { REQUIRE(now.get(i) == before.get(i), "preempt: register " + std::to_string(i) + " not restored"); REQUIRE(!memcmp(&now.getvr(i), &before.getvr(i), 32), "preempt: vector register not restored"); }
		REQUIRE(now.pc == before.pc && now.fcsr() == before.fcsr(), "preempt: program counter or control"); for (int i = 0; i < 8; i++) REQUIRE(now.cf(i) == before.cf(i), "preempt: flag"); REQUIRE(m.instruction_counter() == c0 && m.max_instructions() == m0, "preempt: counter and limit");
	}
}
UNIT(preempt) { bool n = p.coin(); switch (p.get("mode", [&] { return p.below(4); })) { case 0: pre<true, false>(p, n); break; case 1: pre<true, true>(p, n); break; case 2: pre<false, true>(p, n); break; default: pre<false, false>(p, n); } }
UNIT(names) {
	auto g = mkvm(p); Machine& m = *g->m; u64 has = p.get("has", [&] { return p.below(2); }); if (has) m.memory.m_symbols.push_back({base, 8, "here"}); m.memory.m_symbols.push_back({base + 8, 8, "her"}); u64 a0 = p.r(); act = [&](Machine& mm) { mm.cpu.reg(REG_A0) = a0; }; bool refused = false, lim = p.coin(); u64 r = 0; Registers before = m.cpu.registers();
	try { r = lim ? m.vmcall<u64, 1000>(std::string("here"), 1) : m.vmcall<u64>(std::string("here"), 1); } catch (const MachineException& e) { refused = e.type() == INVALID_PROGRAM; REQUIRE(refused, "exception"); }
	REQUIRE(refused == !has, "function by name"); if (has) REQUIRE(r == a0, "result"); else REQUIRE(!memcmp(&before, &m.cpu.registers(), sizeof before) && g->same(), "no function: no effect");
}
// ---- system call results and arguments
UNIT(results) {
	auto g = mkvm(p); Machine& m = *g->m; u64 v = p.get("v", [&] { return p.coin() ? p.r() : p.near({0, 0x80, 0x8000, 1ull << 31, 1ull << 32, 1ull << 63}); }); Registers before = m.cpu.registers();
	auto t = [&](u64 want, const char* w) { REQUIRE(m.cpu.reg(REG_A0) == want, std::string("result of type ") + w + " is " + hx(m.cpu.reg(REG_A0)) + " instead of " + hx(want)); Registers r = m.cpu.registers(); r.get(REG_A0) = before.get(REG_A0); REQUIRE(!memcmp(&r, &before, sizeof r), "another register changed"); };
	#define RES(T, X) { T x = (T)v; m.set_result(x); t(X, #T); REQUIRE(m.return_value<T>() == x, "return_value of type " #T); }
	RES(int8_t, (u64)(int64_t)x) RES(u8, (u64)x) RES(int16_t, (u64)(int64_t)x) RES(uint16_t, (u64)x) RES(int32_t, (u64)(int64_t)x) RES(u32, (u64)(int64_t)(int32_t)x) RES(int64_t, (u64)x) RES(u64, x) RES(bool, (u64)x)
	float f = v / 3.0f; double d = v / 3.0; m.set_result(f); REQUIRE(m.return_value<float>() == f && m.sysarg<float>(0) == f, "float"); m.set_result(d); REQUIRE(m.return_value<double>() == d && m.sysarg<double>(0) == d, "double");
}
UNIT(args) {
	auto g = mkvm(p); Machine& m = *g->m; auto A = [&](int i) { return m.cpu.reg(REG_A0 + i); };
	{ auto [a, b, c, d, e, f, h, i] = m.sysargs<u64, int32_t, uint16_t, int8_t, u8, u64, int64_t, u32>(); REQUIRE(a == A(0) && b == (int32_t)A(1) && c == (uint16_t)A(2) && d == (int8_t)A(3) && e == (u8)A(4) && f == A(5) && h == (int64_t)A(6) && i == (u32)A(7), "integer arguments"); }
	{ auto [a, b, c, d, e] = m.sysargs<float, u64, double, E8, float>(); REQUIRE(eq(a, m.cpu.registers().getfl32(0)) && b == A(0) && eq(c, m.cpu.registers().getfl64(1)) && d == (E8)A(1) && eq(e, m.cpu.registers().getfl32(2)), "mixed arguments"); }
	u64 at = p.get("addr", [&] { return p.coin(3) ? p.near({0, 0x1000, N, N - 40, ~0ull}) : p.below(N); }), len = p.get("len", [&] { return p.below(60); }); m.cpu.reg(REG_A1) = at; m.cpu.reg(REG_A2) = len;
	{ bool th = false; try { auto [z, v, q] = m.sysargs<u64, std::string_view, int>(); REQUIRE(z == A(0) && v.size() == len && (len == 0 || v.data() == (const char*)g->arena + at) && q == (int)A(3), "view"); } catch (const MachineException& e) { th = true; REQUIRE(e.type() == PROTECTION_FAULT, "view: exception"); } if (len) REQUIRE(th == !inside(at, len, 0x1000, N), "view: fault"); }
	{ bool th = false; try { auto [z, s, q] = m.sysargs<u64, S40, int>(); REQUIRE(z == A(0) && !memcmp(&s, g->arena + at, 40) && q == (int)A(2), "struct"); } catch (const MachineException&) { th = true; } REQUIRE(th == !inside(at, 40, 0x1000, N), "struct: fault"); }
	{ bool th = false; try { auto [z, s, q] = m.sysargs<u64, u64*, int>(); REQUIRE(z == A(0) && (u8*)s == g->arena + at && q == (int)A(2), "pointer"); } catch (const MachineException&) { th = true; } REQUIRE(th == !inside(at, 8, 0x1000, N), "pointer: fault"); }
	if (at >= 0x1000 && at < N) { size_t n = strnlen((char*)g->arena + at, N - at); if (at + n < N && n < 1000) { auto [z, s, q] = m.sysargs<u64, std::string, int>(); REQUIRE(z == A(0) && s == std::string((char*)g->arena + at, n) && q == (int)A(2), "string"); } }
	REQUIRE(g->same(), "memory");
}
int main() { return api_main(); }
