#include "api.hpp"
UNIT(copy_to_guest) { START; u64 n = ln(p, "len", g, a); bool ok = inside(a, n, g.DA, g.N); std::vector<u8> h(std::min<u64>(n, 1 << 20)); if (ok && n > h.size()) throw Skip{}; for (auto& x : h) x = p.r();
	bool f = faults([&] { me.copy_to_guest(a, h.data(), n); }, a, "copy_to_guest"); judge(ok, f, "copy_to_guest", a, n);
	if (f) REQUIRE(g.same(), "copy_to_guest: memory changed by a refused copy"); else { REQUIRE(!memcmp(g.arena + a, h.data(), n), "copy_to_guest: bytes differ"); REQUIRE(!n ? g.same() : g.same(a, a + n), "copy_to_guest: other memory changed"); } }
UNIT(copy_into_arena_unsafe) { START; u64 n = ln(p, "len", g, a); bool ok = a <= g.N && n <= g.N - a; std::vector<u8> h(std::min<u64>(n, 1 << 20)); if (ok && n > h.size()) throw Skip{}; for (auto& x : h) x = p.r();
	bool f = faults([&] { me.copy_into_arena_unsafe(a, h.data(), n); }, a, "copy_into_arena"); judge(ok, f, "copy_into_arena", a, n);
	if (!f) { REQUIRE(!memcmp(g.arena + a, h.data(), n), "copy_into_arena: bytes differ"); REQUIRE(!n ? g.same() : g.same(a, a + n), "copy_into_arena: other memory changed"); } }
UNIT(copy_from_guest) { START; u64 n = ln(p, "len", g, a); bool ok = inside(a, n, g.RO, g.N); std::vector<u8> h(ok ? n + 16 : 16, 0xA5);
	bool f = faults([&] { me.copy_from_guest(h.data(), a, n); }, a, "copy_from_guest"); judge(ok, f, "copy_from_guest", a, n);
	if (!f) { REQUIRE(!memcmp(g.was.data() + a, h.data(), n) && h[n] == 0xA5, "copy_from_guest: bytes differ"); } REQUIRE(g.same(), "copy_from_guest: memory changed"); }
UNIT(mem_set) { START; u64 n = ln(p, "len", g, a); u8 v = p.get("value", [&] { return p.r() & 255; }); bool ok = inside(a, n, g.DA, g.N);
	bool f = faults([&] { me.memset(a, v, n); }, a, "memset"); judge(ok, f, "memset", a, n);
	if (f) REQUIRE(g.same(), "memset: memory changed by a refused fill"); else { for (u64 i = 0; i < n; i++) REQUIRE(g.arena[a + i] == v, "memset: byte not set"); REQUIRE(!n ? g.same() : g.same(a, a + n), "memset: other memory changed"); } }
UNIT(mem_cmp) { START; u64 b = ad(p, "addr2", g); u64 n = ln(p, "len", g, p.coin() ? a : b); bool oa = inside(a, n, g.RO, g.N), ob = inside(b, n, g.RO, g.N); int r = 0;
	if (oa && ob && p.coin() && !p.replay) { memmove(g.arena + b, g.arena + a, n); if (n && p.coin()) g.arena[b + p.below(n)] ^= 1 + p.below(255); }
	int want = oa && ob ? memcmp(g.arena + a, g.arena + b, n) : 0;
	bool f = faults([&] { r = me.memcmp(a, b, n); }, !oa ? a : b, "memcmp"); judge(oa && ob, f, "memcmp", !oa ? a : b, n);
	if (!f) REQUIRE((r < 0) == (want < 0) && (r > 0) == (want > 0), "memcmp: wrong order"); }
template <class T> static void arr(P& p, bool wr) { START; u64 c = p.get("count", [&] { return p.coin(3) ? p.below(40) : p.near({0, (g.N - a) / sizeof(T), g.N / sizeof(T), (0 - a) / sizeof(T), ~0ull / sizeof(T), 1}); });
	unsigned __int128 n = (unsigned __int128)c * sizeof(T); u64 lo = wr ? g.DA : g.RO; bool ok = lo <= a && a < g.N && n <= g.N - a; const void* q = nullptr;
	bool f = faults([&] { q = wr ? (const void*)me.template writable_memarray<T>(a, c) : (const void*)me.template memarray<T>(a, c); }, a, "memarray"); judge(ok, f, "memarray", a, c);
	if (!f) REQUIRE(q == g.arena + a, "memarray: not the guest bytes"); REQUIRE(g.same(), "memarray: memory changed"); }
UNIT(memarray1) { arr<u8>(p, false); } UNIT(memarray8) { arr<u64>(p, false); } UNIT(memarray24) { arr<E24>(p, false); }
UNIT(wmemarray1) { arr<u8>(p, true); } UNIT(wmemarray8) { arr<u64>(p, true); } UNIT(wmemarray24) { arr<E24>(p, true); }
UNIT(mem_strlen) { START; u64 mx = p.get("maxlen", [&] { return p.coin(3) ? p.below(64) : p.near({0, g.N - a, 4096, g.N, 0 - 1ull, 1ull << 63}); }); u64 lim = std::min(mx, a < g.N ? g.N - a : 0), r = 0;
	bool f = faults([&] { r = me.strlen(a, mx); }, a, "strlen"); if (f) { REQUIRE(a < g.RO, "strlen: range inside guest memory refused"); return; }
	REQUIRE(r <= lim, "strlen: beyond the limit"); REQUIRE(a >= g.RO || lim == 0, "strlen: unreadable memory accepted"); for (u64 i = 0; i < r; i++) REQUIRE(g.arena[a + i], "strlen: passes a terminator"); REQUIRE(r == lim || !g.arena[a + r], "strlen: stops early"); }
UNIT(mem_string) { START; u64 mx = p.get("maxlen", [&] { return p.coin(3) ? p.below(64) : p.near({0, g.N - a, 4096, g.N}); }); u64 lim = std::min(mx, a < g.N ? g.N - a : 0), e = 0; std::string r; bool in = a >= g.RO && a < g.N;
	bool f = faults([&] { r = me.memstring(a, mx); }, a, "memstring"); if (f) { REQUIRE(!in, "memstring: range inside guest memory refused"); return; }
	REQUIRE(in, "memstring: unreadable memory accepted"); while (e < lim && g.arena[a + e]) e++; REQUIRE(r == std::string((char*)g.arena + a, e), "memstring: wrong string"); }
UNIT(mem_view) { START; u64 n = ln(p, "len", g, a); bool ok = inside(a, n, g.RO, g.N); std::string_view r;
	bool f = faults([&] { r = me.memview(a, n); }, a, "memview"); judge(ok, f, "memview", a, n); if (!f) REQUIRE(r.size() == n && r.data() == (char*)g.arena + a, "memview: not the guest bytes"); }
int main() { return api_main(); }
