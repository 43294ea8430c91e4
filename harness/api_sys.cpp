#include "api.hpp"
#include <libloong/posix/signals.hpp>
// ---------------------------------------------------------------- arenas
UNIT(arenas) {
	std::unique_ptr<Machine> m(new Machine(std::string_view{})); auto& me = m->memory;
	auto limits = [&](u64 n, u64 ro, u64 da, const char* w) {
		REQUIRE(me.m_arena_size == n, std::string(w) + ": size " + hx(me.m_arena_size)); REQUIRE(me.m_rodata_start == ro && me.m_data_start == da, std::string(w) + ": bounds moved");
		REQUIRE(me.m_arena_end_sub_rodata == n - ro && me.m_arena_end_sub_data == n - da, std::string(w) + ": derived limits");
	};
	me.m_rodata_start = me.m_data_start = 0;
	u64 first = p.get("has", [&] { return p.below(2); }), n0 = p.get("n0", [&] { return p.near({4096, 100, 65536}); }); u64 ro = 0, da = 0, cur = 0;
	if (first) {
		me.allocate_arena(n0); cur = n0; limits(n0, 0, 0, "allocate_arena"); for (u64 i = 0; i < std::min<u64>(n0 + 64, 1 << 17); i += 37) REQUIRE(me.m_arena[i] == 0, "fresh arena not zero"); me.m_arena[n0 + 63] = 1;
		if (p.coin()) { da = ro = p.below(n0); da += p.below(n0 - ro); me.m_rodata_start = ro; me.m_data_start = da; me.m_arena_end_sub_rodata = n0 - ro; me.m_arena_end_sub_data = n0 - da; }
	}
	u64 kind = p.get("kind", [&] { return p.below(4); }), n = p.get("size", [&] { return p.near({0, 4096, n0, ro, da, 64, da + 64, ~0ull, 1ull << 63, 1ull << 60}); });
	auto kept = [&](const char* w) { REQUIRE((me.m_arena != nullptr) == (cur != 0), std::string(w) + ": arena lost by a refused request"); limits(cur, ro, da, w); };
	if (kind == 0) {
		bool thrown = false; try { me.allocate_arena(n); } catch (const MachineException& e) { thrown = true; REQUIRE(e.type() == OUT_OF_MEMORY, "allocate_arena: exception type"); }
		if (n < (1u << 20)) { REQUIRE(!thrown, "allocate_arena: refused"); REQUIRE(me.m_arena, "allocate_arena: no arena"); limits(n, ro, da, "allocate_arena"); for (u64 i = 0; i < n + 64; i += 4001) REQUIRE(me.m_arena[i] == 0, "fresh arena not zero"); me.m_arena[n + 63] = 1; }
		else REQUIRE(n < (1ull << 47) || thrown, "allocate_arena: impossible size accepted");
		if (thrown && me.m_arena) { REQUIRE(me.m_arena_size == cur, "allocate_arena: size without an arena"); }
	} else if (kind == 1) {
		u64 r2 = p.get("rodata", [&] { return p.near({0, n, n / 2, 4096}); }), d2 = p.get("data", [&] { return p.near({r2, n, 0, 4096}); }); bool ok = r2 <= d2 && d2 < n; if (ok && n > (1u << 20)) throw Skip{};
		bool thrown = false; try { me.allocate_custom_arena(n, r2, d2); } catch (const MachineException& e) { thrown = true; REQUIRE(e.type() == INVALID_PROGRAM, "allocate_custom_arena: exception type"); }
		REQUIRE(thrown == !ok, "allocate_custom_arena: decision"); if (!thrown) { limits(n, r2, d2, "allocate_custom_arena"); me.m_arena[n + 63] = 1; } else kept("allocate_custom_arena");
	} else if (kind == 2) {
		bool ok = n >= 64 && ro <= n - 64 && da <= n - 64; void* host = nullptr; if (n < (1u << 20) && n) host = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (ok && !host) throw Skip{};
		bool thrown = false; try { me.use_custom_arena(host, n); } catch (const MachineException& e) { thrown = true; REQUIRE(e.type() == INVALID_PROGRAM, "use_custom_arena: exception type"); }
		REQUIRE(thrown == !ok, "use_custom_arena: decision"); if (!thrown) { REQUIRE(me.m_arena == host, "use_custom_arena: not the host's memory"); limits(n - 64, ro, da, "use_custom_arena"); } else { kept("use_custom_arena"); if (host) munmap(host, n); }
	} else { me.free_arena(); REQUIRE(!me.m_arena && !me.m_arena_size && !me.m_arena_end_sub_rodata && !me.m_arena_end_sub_data, "free_arena: something is left"); }
}
static void linux_() { static bool done = (Machine(std::string_view{}), Machine::setup_linux_syscalls(), true); (void)done; }
static void accel_(Machine& m) { static bool done = (m.setup_accelerated_syscalls(), true); (void)done; }
// ---------------------------------------------------------------- one call
struct Call {
	G& g; Machine& m; u64 a[6]; u64 regs[32]; bool threw = false; ExceptionType type; u64 data = 0, r = 0; std::string out;
	std::vector<u8> want;
	Call(P& p, G& g) : g(g), m(*g.m) { for (int i = 0; i < 6; i++) a[i] = 0; want = g.was; for (int i = 1; i < 32; i++) m.cpu.reg(i) = p.r(); }
	void go(int n, bool arena = true) {
		for (int i = 0; i < 6; i++) m.cpu.reg(REG_A0 + i) = a[i];
		for (int i = 0; i < 32; i++) regs[i] = m.cpu.reg(i);
		captured();
		try { m.system_call(n); } catch (const MachineException& e) { threw = true; type = e.type(); data = e.data(); }
		out = captured(); r = m.cpu.reg(REG_A0);
		for (int i = 1; i < 32; i++) if (i != REG_A0 && i != REG_SP) REQUIRE(m.cpu.reg(i) == regs[i], "register " + std::to_string(i) + " changed");
	}
	void fault(bool ok, u64 addr, bool any = false) { REQUIRE(ok || threw, "a bad pointer is served"); REQUIRE(!ok || !threw, "a valid call is refused"); if (threw) { REQUIRE(type == PROTECTION_FAULT, "exception type"); REQUIRE(any || data == addr, "fault address " + hx(data)); REQUIRE(r == a[0], "result of a faulting call"); } }
	void is(u64 v) { if (!threw) REQUIRE(r == v, "result " + hx(r) + " instead of " + hx(v)); }
	void put(u64 at, const void* src, u64 n) { memcpy(want.data() + at, src, n); }
	void mem() { REQUIRE(!memcmp(g.arena, want.data(), g.N), "memory differs"); }
	void silent() { REQUIRE(out.empty(), "something is printed"); }
};
#define SYS linux_(); std::unique_ptr<G> gp(mk(p)); G& g = *gp; Call c(p, g); for (int i = 0; i < 6; i++) c.a[i] = p.r()
static u64 arg(P& p, Call& c, int i, std::function<u64()> f) { return c.a[i] = p.get("a" + std::to_string(i), f); }
static u64 ptr(P& p, Call& c, int i) { return arg(p, c, i, [&] { u64 v; G& g = c.g; if (p.coin(5)) return u64(0); v = p.coin() ? g.DA + p.below(g.N - g.DA + 1) : p.coin(3) ? p.below(g.N) : p.near({0, g.RO, g.DA, g.N, g.N - 8, g.N - 16, g.N - 24, g.N - 32, g.N - 128, 0 - 1ull, 1ull << 63}); return v; }); }
static u64 fd_(P& p, Call& c, int i = 0) { return arg(p, c, i, [&] { return p.coin(6) ? p.r() : p.below(6) - 1 + (p.coin(4) ? 1ull << 32 : 0); }); }
static u64 len(P& p, Call& c, int i, u64 a) { return arg(p, c, i, [&] { return p.coin(3) ? p.below(64) : p.near({0, c.g.N - a, c.g.N, c.g.DA - a, 0 - a, 1ull << 63, 0 - 1ull, 1}); }); }
#define CONST(name, n, v) UNIT(sys_##name) { SYS; for (int i = 0; i < 6; i++) if (p.coin()) fd_(p, c, i); c.go(n); c.fault(true, 0); c.is(u64(v)); c.mem(); c.silent(); }
CONST(openat, 56, -2) CONST(fcntl, 25, 0) CONST(fstatat, 291, -38) CONST(brk, 214, 0) CONST(mprotect, 226, 0) CONST(madvise, 233, 0) CONST(set_robust_list, 99, 0) CONST(getpid, 172, 0)
CONST(getuid, 174, 1000) CONST(geteuid, 175, 1000) CONST(getgid, 176, 1000) CONST(getegid, 177, 1000) CONST(rt_sigprocmask, 135, 0) CONST(prctl, 167, 0) CONST(gettid, 178, c.m.gettid()) CONST(set_tid_address, 96, c.m.gettid())
#define FDC(name, n, v) UNIT(sys_##name) { SYS; int fd = fd_(p, c); c.go(n); c.fault(true, 0); c.is(fd >= 0 && fd <= 2 ? u64(v) : u64(-9)); c.mem(); c.silent(); }
FDC(close, 57, 0) FDC(ioctl, 29, -25)
static void ex(P& p, int n) { SYS; c.m.set_max_instructions(77); c.go(n); c.fault(true, 0); REQUIRE(c.m.stopped(), "the machine goes on"); c.is(c.a[0]); c.mem(); c.silent(); }
UNIT(sys_exit) { ex(p, 93); } UNIT(sys_exit_group) { ex(p, 94); }
UNIT(sys_read) { SYS; int fd = fd_(p, c); ptr(p, c, 1); c.go(63); c.fault(true, 0); c.is(fd == 0 ? 0 : -9); c.mem(); c.silent(); }
UNIT(sys_write) { SYS; int fd = fd_(p, c); u64 b = ptr(p, c, 1), n = len(p, c, 2, b); bool o = fd == 1 || fd == 2, ok = inside(b, n, g.RO, g.N); c.go(64); c.fault(!o || ok, b); c.is(o ? n : -1ull); c.mem();
	if (o && !c.threw) REQUIRE(c.out == std::string((char*)g.arena + b, n), "printed text"); else c.silent(); }
UNIT(sys_writev) { SYS; int fd = fd_(p, c); bool o = fd == 1 || fd == 2; u64 n = arg(p, c, 2, [&] { return p.coin(4) ? p.near({1024, 0, ~0ull}) : p.below(5); }); u64 v = ptr(p, c, 1);
	if (inside(v, 16, g.DA, g.N) && p.coin(1)) for (u64 i = 0; i < n && inside(v + 16 * i, 16, g.DA, g.N) && i < 8; i++) { u64 e[2] = {p.coin(6) ? p.near({g.N, 0, g.RO}) : g.RO + p.below(g.N - g.RO), p.below(40)}; memcpy(g.arena + v + 16 * i, e, 16); }
	memcpy(c.want.data(), g.arena, g.N); c.go(66);
	if (n > 1024) { REQUIRE(c.threw && c.type == ILLEGAL_OPERATION, "too many buffers accepted"); return; } if (!o) { c.fault(true, 0); c.is(-1ull); c.silent(); c.mem(); return; }
	std::string w; if (v < g.N && 16 * n > g.N - v) throw Skip{}; bool bad = n && !(g.RO <= v && v < g.N); for (u64 i = 0; i < n && !bad; i++) { u64 e[2]; memcpy(e, g.arena + v + 16 * i, 16); if (e[1] >= (1 << 20)) throw Skip{}; if (e[1] && !inside(e[0], e[1], g.RO, g.N)) { bad = true; break; } if (!e[1] && !inside(e[0], 0, g.RO, g.N)) throw Skip{}; w += std::string((char*)g.arena + e[0], e[1]); }
	if (bad) { REQUIRE(c.threw && c.type == PROTECTION_FAULT, "a bad buffer is served"); return; } c.fault(true, 0); c.is(w.size()); REQUIRE(c.out == w, "printed text"); c.mem(); }
static void wr(P& p, Call& c, int n, bool use, u64 at, const void* src, u64 k, u64 yes, u64 no, bool any = false) { G& g = c.g; bool ok = inside(at, k, g.DA, g.N); c.go(n); c.fault(!use || ok, at, any); c.is(use ? yes : no); if (use && !c.threw) c.put(at, src, k); if (!c.threw) c.mem(); c.silent(); }
UNIT(sys_fstat) { SYS; int fd = fd_(p, c); u64 b = ptr(p, c, 1); u8 z[128] = {}; wr(p, c, 80, fd >= 0 && fd <= 2 && b, b, z, 128, 0, -9, true); }
UNIT(sys_getrandom) { SYS; u64 b = ptr(p, c, 0), n = len(p, c, 1, b); if (n > (1 << 16) && n < (1ull << 62)) throw Skip{}; bool ok = n == 0 || inside(b, n, g.DA, g.N); c.go(278); c.fault(ok, b, true); c.is(n); if (!c.threw) { if (n) REQUIRE(g.same(b, b + n), "other memory changed"); else c.mem(); } c.silent(); }
UNIT(sys_clock_gettime) { SYS; u64 id = arg(p, c, 0, [&] { return p.coin(4) ? p.r() | 0x100 : p.below(2); }), b = ptr(p, c, 1); timespec t; bool bad = clock_gettime(int(id), &t) != 0, ok = inside(b, 16, g.DA, g.N); c.go(113); c.fault(!b || bad || ok, b); c.is(b && bad ? -22 : 0);
	if (b && !bad && !c.threw) { timespec u; memcpy(&u, g.arena + b, 16); REQUIRE(u.tv_sec - t.tv_sec <= 5 && u.tv_sec >= t.tv_sec && u.tv_nsec < 1000000000, "not that clock's time"); REQUIRE(g.same(b, b + 16), "other memory changed"); } else c.mem(); }
UNIT(sys_gettimeofday) { SYS; u64 b = ptr(p, c, 0); timespec t; clock_gettime(CLOCK_REALTIME, &t); bool ok = inside(b, 16, g.DA, g.N); c.go(169); c.fault(!b || ok, b); c.is(0);
	if (b && !c.threw) { u64 u[2]; memcpy(u, g.arena + b, 16); REQUIRE(u[0] - t.tv_sec <= 5 && u[1] < 1000000, "not the time"); REQUIRE(g.same(b, b + 16), "other memory changed"); } else c.mem(); }
UNIT(sys_nanosleep) { SYS; u64 q = ptr(p, c, 0), b = ptr(p, c, 1); bool ok = !q || (inside(q, 16, g.RO, g.N) && (!b || inside(b, 16, g.DA, g.N))); c.go(101); c.fault(ok, 0, true); c.is(0); u8 z[16] = {}; if (q && b && !c.threw) c.put(b, z, 16); c.mem(); }
UNIT(sys_sched_getaffinity) { SYS; u64 n = arg(p, c, 1, [&] { return p.near({8, 0, 128}); }), b = ptr(p, c, 2); u8 z[8] = {1}; wr(p, c, 123, n >= 8 && b, b, z, 8, 8, -22); }
UNIT(sys_prlimit64) { SYS; u64 k = arg(p, c, 1, [&] { return p.coin() ? p.pick({3, 7}) : p.below(16); }), b = ptr(p, c, 3); u64 v[2] = {~0ull, ~0ull}; if (u32(k) == 3) v[0] = 8 << 20; if (u32(k) == 7) v[0] = 1024, v[1] = 4096; if (b && b >= g.DA && b < g.N && b + 16 > g.N) throw Skip{}; wr(p, c, 261, b, b, v, 16, 0, 0, true); }
UNIT(sys_futex) { SYS; u64 op = arg(p, c, 1, [&] { return p.coin(5) ? p.r() : p.below(4) + (p.coin() ? 128 : 0); }); int o = int(op) & ~128; c.go(98); c.fault(true, 0); c.is(o == 0 ? -11 : o == 1 ? 0 : -38); c.mem(); c.silent(); }
UNIT(sys_ppoll) { SYS; u64 b = ptr(p, c, 0), n = arg(p, c, 1, [&] { return p.coin(4) ? p.near({1024, ~0ull, 0}) : p.below(6); }); if (p.coin() && inside(b, 8 * std::min<u64>(n, 9), g.DA, g.N)) for (u64 i = 0; i < n && i < 9; i++) { int f = int(p.below(5)) - 1; memcpy(g.arena + b + 8 * i, &f, 4); }
	memcpy(c.want.data(), g.arena, g.N); bool big = n > 1024, ok = g.DA <= b && b < g.N && (big || 8 * n <= g.N - b); c.go(73);
	if (big) { REQUIRE(c.threw && c.type == ILLEGAL_OPERATION, "too many descriptors accepted"); c.mem(); return; } c.fault(ok, b); c.is(0);
	if (!c.threw) for (u64 i = 0; i < n; i++) { int f; memcpy(&f, c.want.data() + b + 8 * i, 4); if (f >= 0 && f <= 2) memcpy(c.want.data() + b + 8 * i + 6, c.want.data() + b + 8 * i + 4, 2); else memset(c.want.data() + b + 8 * i + 6, 0, 2); } c.mem(); c.silent(); }
UNIT(sys_readlinkat) { SYS; u64 s = ptr(p, c, 1), b = ptr(p, c, 2), n = len(p, c, 3, b); const char me[] = "/proc/self/exe"; bool put = inside(s, 15, g.DA, g.N) && p.coin(); if (put) memcpy(g.arena + s, me, 15); if (!inside(s, 15, g.RO, g.N)) throw Skip{};
	memcpy(c.want.data(), g.arena, g.N); bool self = !memcmp(g.arena + s, me, 15); u64 k = std::min<u64>(n, 12); bool ok = inside(b, k, g.DA, g.N); c.go(78); c.fault(!self || ok, b); c.is(self ? k : -2ull); if (self && !c.threw) c.put(b, "/tmp/program", k); c.mem(); c.silent(); }
static SignalAction* act(P& p, Call& c, int sig) { if (sig < 0 || sig > 64) return nullptr; auto& s = c.m.signals().get(sig); s.handler = p.get("sig_handler", [&] { return p.coin(3) ? p.pick({0, ~0ull}) : p.below(1 << 20) * 4; }); s.altstack = p.get("sig_altstack", [&] { return p.below(2); }); s.mask = p.get("sig_mask", [&] { return p.r() & ~0u; }); return &s; }
UNIT(sys_rt_sigaction) { SYS; int sig = arg(p, c, 0, [&] { return p.coin(4) ? p.near({0, 64, ~0ull}) : p.below(65); }); u64 a = ptr(p, c, 1), o = ptr(p, c, 2); auto* s = act(p, c, sig); SignalAction old; if (s) old = *s; bool ok = s && (!o || inside(o, 32, g.DA, g.N)) && (!a || inside(a, 32, g.RO, g.N));
	c.go(134); if (!s) { REQUIRE(c.threw && c.type == INVALID_PROGRAM, "bad signal accepted"); c.mem(); return; } c.fault(ok, 0, true); c.is(0); if (c.threw) return;
	if (o) { u64 v[4] = {old.handler & ~3ull, old.altstack ? 0x08000000u : 0, 0, old.mask}; c.put(o, v, 32); } c.mem();
	if (a) { u64 v[4]; memcpy(v, g.arena + a, 32); REQUIRE(s->handler == (v[0] & ~3ull) && s->altstack == !!(v[1] & 0x08000000) && s->mask == u32(v[3]), "the new action"); } else REQUIRE(s->handler == old.handler && s->altstack == old.altstack && s->mask == old.mask, "the action changed"); }
UNIT(sys_sigaltstack) { SYS; u64 s = ptr(p, c, 0), o = ptr(p, c, 1); auto& st = c.m.signals().per_thread(c.m.gettid()).stack; memset((void*)&st, 0, sizeof(st)); st.ss_sp = p.r(); st.ss_flags = p.r(); st.ss_size = p.r(); u8 was[24]; memcpy(was, &st, 24); bool ok = (!o || inside(o, 24, g.DA, g.N)) && (!s || inside(s, 24, g.RO, g.N));
	c.go(132); c.fault(ok, 0, true); c.is(0); if (c.threw) return; if (o) c.put(o, was, 24); c.mem(); if (s) memcpy(was, g.arena + s, 24); SignalStack w; memcpy((void*)&w, was, 24); REQUIRE(st.ss_sp == w.ss_sp && st.ss_flags == w.ss_flags && st.ss_size == w.ss_size, "the new stack"); }
static void kill_(P& p, int n, int idx, bool ab) { SYS; int sig = arg(p, c, idx, [&] { return p.coin(4) ? p.near({0, 64, ~0ull, 6}) : p.below(65); }); auto* s = act(p, c, sig); auto& st = c.m.signals().per_thread(c.m.gettid()).stack; st.ss_sp = p.r(); st.ss_size = p.below(1 << 20); u64 pc = c.m.cpu.registers().pc = 0x1234, sp = c.m.cpu.reg(REG_SP); c.go(n);
	if (!s) { REQUIRE(c.threw && c.type == INVALID_PROGRAM, "bad signal accepted"); return; } bool un = s->handler == 0 || s->handler == ~0ull; if (ab && sig == 6 && un) { REQUIRE(c.threw && c.type == GUEST_ABORT, "abort not reported"); return; }
	c.fault(true, 0); c.is(0); bool go = sig != 0 && !un; REQUIRE(c.m.cpu.registers().pc == (go ? s->handler - 4 : pc), "PC"); REQUIRE(c.m.cpu.reg(REG_SP) == (go && s->altstack ? st.ss_sp + st.ss_size : sp), "SP"); c.mem(); }
UNIT(sys_tkill) { kill_(p, 130, 1, false); } UNIT(sys_tgkill) { kill_(p, 131, 2, true); }
// ---------------------------------------------------------------- mmap
UNIT(mmaps) { SYS; auto& me = c.m.memory; u64 top = p.get("mmap_address", [&] { return p.coin() ? p.below(g.N / 4096 + 2) * 4096 : p.near({g.N, 0, 4096, ~0ull}); }); me.m_mmap_address = top; u64 kind = p.get("kind", [&] { return p.below(4); });
	u64 x = arg(p, c, 0, [&] { return p.coin(3) ? 0 : p.near({top, top - 4096, 4096, 0}); }), n = arg(p, c, 1, [&] { return p.near({0, 4096, g.N - top, top - x, g.N, ~0ull, 1}); }); u64 fl = arg(p, c, 3, [&] { return p.pick({0x22, 0x32, 0x10, 2}); });
	unsigned __int128 up = ((unsigned __int128)n + 4095) / 4096 * 4096; u64 up64 = u64(up);
	if (kind == 0) { REQUIRE(me.mmap_allocate(n) == top, "mmap_allocate: not the end"); REQUIRE(me.m_mmap_address == top + up64, "mmap_allocate: new end"); c.mem(); return; }
	if (kind == 1) { c.go(222); c.fault(true, 0); bool fixed = x && (fl & 0x10), fit = (unsigned __int128)top + up <= g.N;
		c.is(fixed ? (x < top ? x : -1ull) : fit ? top : -12ull); REQUIRE(me.m_mmap_address == (fixed || !fit ? top : top + up64), "mmap: new end"); c.mem(); return; }
	if (kind == 2) me.mmap_deallocate(x, n); else { c.go(215); c.fault(true, 0); c.is(0); }
	bool last = x % 4096 == 0 && x < top && up64 == top - x; REQUIRE(me.m_mmap_address == (last ? x : top), "munmap: new end"); if (last && inside(x, top - x, g.DA, g.N)) memset(c.want.data() + x, 0, top - x); c.mem(); }
// ---------------------------------------------------------------- accelerated
#define ACC std::unique_ptr<G> gp(mk(p)); G& g = *gp; Call c(p, g); accel_(c.m); auto sgn = [](u64 v) { int i = int(v); return i < 0 ? -1 : i > 0; }; (void)sgn
static void cpy(P& p, int n) { ACC; u64 d = ptr(p, c, 0), s = ptr(p, c, 1), k = len(p, c, 2, p.coin() ? d : s); bool ok = inside(d, k, g.DA, g.N) && inside(s, k, g.RO, g.N); if (n == 508 && ok && (s - d < k || d - s < k)) throw Skip{}; if (n == 508 && !k) ok = true;
	c.go(n); c.fault(ok, 0, true); c.is(d); if (!c.threw && k) memmove(c.want.data() + d, g.was.data() + s, k); c.mem(); }
UNIT(acc_memcpy) { cpy(p, 508); } UNIT(acc_memmove) { cpy(p, 511); }
UNIT(acc_memset) { ACC; u64 d = ptr(p, c, 0), v = arg(p, c, 1, [&] { return p.r(); }), k = len(p, c, 2, d); bool ok = inside(d, k, g.DA, g.N); c.go(509); c.fault(ok, d); c.is(d); if (!c.threw) memset(c.want.data() + d, int(v), k); c.mem(); }
static void twins(P& p, Call& c, u64 a, u64 b) { G& g = c.g; u64 n = p.below(60); if (!p.replay && p.coin() && inside(a, n, 0, g.N) && inside(b, n, 0, g.N)) { memmove(g.arena + b, g.arena + a, n); if (n && p.coin()) g.arena[b + p.below(n)] = p.coin() ? 0 : p.r(); } memcpy(c.want.data(), g.arena, g.N); }
UNIT(acc_memcmp) { ACC; u64 a = ptr(p, c, 0), b = ptr(p, c, 1), k = len(p, c, 2, p.coin() ? a : b); twins(p, c, a, b); bool ok = inside(a, k, g.RO, g.N) && inside(b, k, g.RO, g.N); int w = ok ? memcmp(g.arena + a, g.arena + b, k) : 0; c.go(510); c.fault(ok, 0, true); if (!c.threw) REQUIRE(sgn(c.r) == (w < 0 ? -1 : w > 0) && u64(int64_t(int(c.r))) == c.r, "order"); c.mem(); }
UNIT(acc_memchr) { ACC; u64 a = ptr(p, c, 0), v = arg(p, c, 1, [&] { return p.r() & (p.coin() ? 0xff : ~0ull); }), k = len(p, c, 2, a); if (a < g.N) k = std::min(k, g.N - a); bool ok = inside(a, k, g.RO, g.N); c.go(507); c.fault(ok, a); if (c.threw) return; u64 w = 0; for (u64 i = 0; i < k; i++) if (g.arena[a + i] == u8(v)) { w = a + i; break; } c.is(w); c.mem(); }
static void sl(P& p, int n) { ACC; u64 a = ptr(p, c, 0), mx = arg(p, c, 1, [&] { return p.coin() ? p.below(80) : p.near({0, g.N - a, ~0ull}); }); if (n == 500) mx = ~0ull; u64 lim = a < g.N ? std::min(mx, g.N - a) : 0; c.go(n); bool ok = a >= g.RO || lim == 0; c.fault(ok, a); if (c.threw) return; u64 i = 0; while (i < lim && g.arena[a + i]) i++; c.is(i); c.mem(); }
UNIT(acc_strlen) { sl(p, 500); } UNIT(acc_strnlen) { sl(p, 501); }
static void sc(P& p, int n) { ACC; u64 a = ptr(p, c, 0), b = ptr(p, c, 1), mx = arg(p, c, 2, [&] { return p.coin() ? p.below(80) : p.near({0, g.N - a, ~0ull}); }); if (n == 502) mx = ~0ull; twins(p, c, a, b); if (!inside(a, 1, g.RO, g.N) || !inside(b, 1, g.RO, g.N)) throw Skip{};
	u64 i = 0; int w = 0; bool off = false; for (; i < mx; i++) { if (a + i >= g.N || b + i >= g.N) { off = true; break; } u8 x = g.arena[a + i], y = g.arena[b + i]; if (x != y) { w = x < y ? -1 : 1; break; } if (!x) break; }
	c.go(n); if (c.threw) { REQUIRE(c.type == PROTECTION_FAULT, "exception"); if (n == 503) REQUIRE(off, "a valid call is refused"); else { bool za = memchr(g.arena + a, 0, g.N - a), zb = memchr(g.arena + b, 0, g.N - b); REQUIRE(!(za && zb), "a valid call is refused"); } return; }
	if (!off) REQUIRE(sgn(c.r) == w, "order"); c.mem(); }
UNIT(acc_strcmp) { sc(p, 502); } UNIT(acc_strncmp) { sc(p, 503); }
int main() { return api_main(); }
