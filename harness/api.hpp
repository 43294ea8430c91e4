// Native units: the real library functions run on concrete inputs and compared
// with a reference written from the property.  "run UNIT k=v ..." replays one
// input, "search UNIT seed n" tries n pseudo-random ones.
#pragma once
#include <libloong/machine.hpp>
#include <libloong/decoder_cache.hpp>
#include <sys/mman.h>
#include <unistd.h>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>
namespace loongarch {
extern void populate_decoder_cache(Machine&, const MachineOptions&, std::shared_ptr<DecodedExecuteSegment>&, address_t exec_begin, const uint8_t* code, size_t code_size, bool is_initial);
}
using namespace loongarch;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
struct Skip {};
struct Bad { std::string text; };
struct P {
	std::map<std::string, std::string> in; bool replay = false; std::mt19937_64 rng; std::vector<std::pair<std::string, u64>> used;
	u64 r() { return rng(); }
	u64 below(u64 n) { return n ? rng() % n : 0; }
	bool coin(unsigned k = 2) { return rng() % k == 0; }
	u64 get(const std::string& n, std::function<u64()> g) {
		u64 v;
		auto it = in.find(n);
		if (replay && it != in.end()) v = std::stoull(it->second, nullptr, 0); else v = g();
		used.push_back({n, v}); return v;
	}
	u64 pick(std::initializer_list<u64> l) { return l.begin()[below(l.size())]; }
	// an address or length near one of the interesting values
	u64 near(std::initializer_list<u64> l, u64 spread = 20) {
		u64 b = pick(l);
		switch (below(4)) { case 0: return b; case 1: return b + below(spread); case 2: return b - below(spread); default: return b + below(4) - 2; }
	}
};
#define REQUIRE(c, t) do { if (!(c)) throw Bad{std::string(t)}; } while (0)
inline std::string hx(u64 v) { char b[32]; snprintf(b, 32, "%#llx", (unsigned long long)v); return b; }
// a machine whose arena ends at an inaccessible page
struct G {
	Machine* m; u8* base; u8* arena; size_t map; u64 N, RO, DA; std::vector<u8> was;
	G(u64 N, u64 RO, u64 DA, std::function<u8(u64)> fill) : N(N), RO(RO), DA(DA) {
		if (N > (64u << 20) || RO > DA || DA > N) throw Skip{};
		const size_t PG = 4096, len = (N + 64 + PG - 1) / PG * PG; map = len + 2 * PG;
		base = (u8*)mmap(nullptr, map, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (base == MAP_FAILED) throw Skip{};
		mprotect(base + PG, len, PROT_READ | PROT_WRITE);
		arena = base + PG + (len - N - 64);
		was.resize(N + 64); for (u64 i = 0; i < N + 64; i++) was[i] = fill ? fill(i) : 0;
		memcpy(arena, was.data(), N + 64);
		m = new Machine(std::string_view{});
		auto& me = m->memory; me.m_arena = arena; me.m_arena_size = N; me.m_rodata_start = RO; me.m_data_start = DA; me.m_arena_end_sub_rodata = N - RO; me.m_arena_end_sub_data = N - DA;
	}
	~G() { auto& me = m->memory; me.m_arena = nullptr; me.m_arena_size = 0; delete m; munmap(base, map); }
	bool same(u64 lo = 0, u64 hi = 0) { // unchanged outside [lo, hi)
		if (lo >= hi) return memcmp(arena, was.data(), N) == 0;
		return memcmp(arena, was.data(), lo) == 0 && (hi >= N || memcmp(arena + hi, was.data() + hi, N - hi) == 0);
	}
};
struct E24 { u64 a, b, c; };
inline u64 genN(P& p) { return p.coin() ? 4096 + p.below(3) * 4096 : 70 + p.below(5000); }
inline G* mk(P& p) {
	u64 N = p.get("N", [&] { return genN(p); });
	u64 RO = p.get("RO", [&] { return p.coin(4) ? 0 : p.below(N); });
	u64 DA = p.get("DA", [&] { return p.coin(5) ? RO : RO + p.below(N - RO); });
	u64 s = p.get("fill", [&] { return p.r(); });
	return new G(N, RO, DA, [=](u64 i) { u64 x = (i + s) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; u8 b = x >> 32; return (b & 0xF0) ? b : 0; });
}
inline u64 ad(P& p, const char* n, G& g) { return p.get(n, [&] { return p.coin(3) ? p.below(g.N) : p.near({0, g.RO, g.DA, g.N, g.N - 8, g.N + 64, 0 - 1ull, 1ull << 63}); }); }
inline u64 ln(P& p, const char* n, G& g, u64 a) { return p.get(n, [&] { return p.coin(3) ? p.below(64) : p.near({0, g.N - a, g.N, g.DA - a, 0 - a, 1ull << 63, 0 - 1ull, 1}); }); }
inline bool inside(u64 a, u64 n, u64 lo, u64 hi) { return lo <= a && a < hi && n <= hi - a; }
template <class F> inline bool faults(F f, u64 a, const char* what) {
	try { f(); return false; }
	catch (const MachineException& e) { REQUIRE(e.type() == PROTECTION_FAULT, std::string(what) + ": wrong exception type"); REQUIRE(e.data() == a, std::string(what) + ": fault address " + hx(e.data()) + " instead of " + hx(a)); return true; }
}
inline void judge(bool ok, bool fault, const char* what, u64 a, u64 n) {
	REQUIRE(ok || fault, std::string(what) + ": range outside guest memory accepted: " + hx(a) + "+" + hx(n)); REQUIRE(!ok || !fault, std::string(what) + ": range inside guest memory refused: " + hx(a) + "+" + hx(n));
}
#define START std::unique_ptr<G> gp(mk(p)); G& g = *gp; auto& me = g.m->memory; u64 a = ad(p, "addr", g); (void)me
typedef std::function<void(P&)> Unit;
inline std::map<std::string, Unit>& units() { static std::map<std::string, Unit> u; return u; }
struct Reg { Reg(const char* n, Unit u) { units()[n] = u; } };
#define UNIT(name) static void name(P&); static Reg reg_##name(#name, name); static void name(P& p)
// the guest's output goes to a scratch file, answers to the real standard output
inline FILE*& proto() { static FILE* f = nullptr; return f; }
inline int& memf() { static int f = -1; return f; }
inline std::string captured() {
	fflush(stdout); std::string s; off_t n = lseek(memf(), 0, SEEK_END); s.resize(n > 0 ? n : 0);
	if (n > 0 && pread(memf(), s.data(), n, 0) != n) s = "?";
	if (ftruncate(memf(), 0)) {} lseek(memf(), 0, SEEK_SET); return s;
}
inline int api_main() {
	proto() = fdopen(dup(1), "w"); memf() = memfd_create("out", 0); dup2(memf(), 1);
	std::string line;
	auto one = [](Unit& u, P& p) -> std::string {
		alarm(10);
		std::string r = "ok";
		try { u(p); } catch (const Skip&) { r = "skip"; } catch (const Bad& b) { r = "bad " + b.text; }
		catch (const std::exception& e) { r = std::string("bad unexpected exception: ") + e.what(); }
		alarm(0);
		return r;
	};
	while (std::getline(std::cin, line)) {
		std::istringstream is(line); std::string cmd, name, tok; is >> cmd >> name;
		auto it = units().find(name);
		if (it == units().end()) { fprintf(proto(), "none\n"); fflush(proto()); continue; }
		std::string out;
		if (cmd == "run") {
			P p; p.replay = true; p.rng.seed(1);
			while (is >> tok) { auto e = tok.find('='); if (e != std::string::npos) p.in[tok.substr(0, e)] = tok.substr(e + 1); }
			out = one(it->second, p);
		} else {
			u64 seed = 0, n = 0; is >> seed >> n; u64 used = 0;
			for (u64 i = 0; i < n; i++) {
				P p; p.rng.seed(seed + i * 7919);
				std::string r = one(it->second, p);
				if (r == "skip") continue;
				used++;
				if (r != "ok") { out = r + " |"; for (auto& x : p.used) out += " " + x.first + "=" + hx(x.second); break; }
			}
			if (out.empty()) out = "ok " + std::to_string(used);
		}
		for (auto& c : out) if (c == '\n') c = ' ';
		fprintf(proto(), "%s\n", out.c_str()); fflush(proto());
	}
	return 0;
}
