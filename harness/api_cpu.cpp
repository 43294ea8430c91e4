#include "api.hpp"
static const u32 STOPW = 0x00150000, SYSW = 0x002b0000, INVW = 0;
// words of every kind, among them the ones that end a block
static u32 word(std::mt19937_64& r, int mix) {
	if (mix == 2) return 0x02c00400 | (r() & 31);                  // addi.d only: one long block
	switch (r() % 12) {
	case 0: return (u32)((0x10 + r() % 12) << 26) | (u32)(r() & 0x3FFFFFF);
	case 1: return SYSW | (r() % 3 ? 0 : r() & 0x3FF);
	case 2: return STOPW; case 3: return (u32)r(); case 4: return INVW;
	case 5: return 0x00150000 | (r() & 0x7FFF);
	case 6: return 0x002a0000 | (r() & 0x3FF);
	case 7: return 0x28800000 | (r() & 0x17FFFFF);
	case 8: return 0x38000000 | (r() & 0x7FFFFF);
	default: return 0x02800000 | (r() & 0x17FFFFF);
	}
}
static bool ends(u32 w) { u32 op = w >> 26; return (op >= 0x10 && op <= 0x1B) || (w & 0xFFFFFC00) == SYSW || w == STOPW; }
// (the bounds of the segment decide how branches are rewritten: [lo, hi) is the whole segment)
static std::shared_ptr<DecodedExecuteSegment> populate(Machine& m, u64 at, const u8* code, u64 len, u64 lo, u64 hi) {
	auto s = std::make_shared<DecodedExecuteSegment>(lo, hi); MachineOptions o; populate_decoder_cache(m, o, s, at, code, len, false); return s;
}
UNIT(dec_cache) {
	u64 n = p.get("words", [&] { return p.coin(30) ? 16300 + p.below(300) : p.below(200); }), tail = p.get("tail", [&] { return p.coin(4) ? p.below(4) : 0; }), mix = p.get("mix", [&] { return n > 16000 ? 2 : p.below(2); }), seed = p.get("seed", [&] { return p.r(); });
	u64 at = p.get("exec_begin", [&] { return p.coin() ? 0x10000 : p.r() & ~3ull; });
	if (n > 1 << 20) throw Skip{};
	u64 len = n * 4 + tail; std::mt19937_64 r(seed); std::vector<u8> code(len + 8); for (u64 i = 0; i < n; i++) { u32 w = word(r, mix); memcpy(&code[4 * i], &w, 4); }
	Machine m{std::string_view{}}; auto s = populate(m, at, code.data(), len, at, at + len);
	REQUIRE(s->decoder_cache_size() == n, "number of entries");
	if (!n) { REQUIRE(!s->decoder_cache(), "cache without code"); return; }
	auto* c = s->decoder_cache(); u64 next = 0; auto* H = DecoderData::get_handlers_array();
	for (u64 i = n; i-- > 0;) {
		u32 w; memcpy(&w, &code[4 * i], 4); auto& e = c[i]; std::string where = " of word " + hx(w) + " at index " + std::to_string(i);
		auto one = populate(m, at + 4 * i, &code[4 * i], 4, at, at + len); auto& f = one->decoder_cache()[0];
		REQUIRE(e.handler_idx == f.handler_idx, "handler index" + where);
		auto want = CPU::decode(la_instruction{w}).handler; auto got1 = H[e.handler_idx];
		bool found = got1 == want || (e.handler_idx + 256u < DecoderData::m_handlers.size() && H[256 + e.handler_idx] == want);
		REQUIRE(found, "handler" + where);
		if (ends(w)) { REQUIRE(e.block_bytes == 0, "block length" + where); REQUIRE(e.bytecode == f.bytecode && e.instr == f.instr, "bytecode or bits" + where); next = 0; }
		else if (e.block_bytes == 0) { REQUIRE(next + 4 > 65531, "block ended early" + where); REQUIRE(e.instr == w, "bits of a block end" + where); next = 0; }
		else { REQUIRE(e.block_bytes == next + 4, "block length" + where); REQUIRE(e.bytecode == f.bytecode && e.instr == f.instr, "bytecode or bits" + where); next = e.block_bytes; }
	}
	auto one = populate(m, at, (const u8*)&INVW, 4, at, at + 4); REQUIRE(c[n].bytecode == one->decoder_cache()[1].bytecode && c[n].block_bytes == 0, "entry behind the code");
}
UNIT(exec_segment_for) {
	Machine m{std::string_view{}}; MachineOptions o; o.use_shared_execute_segments = false; std::vector<u8> code(4096);
	u64 k = p.get("segments", [&] { return p.below(5); }); struct S { u64 b, e; DecodedExecuteSegment* p; }; std::vector<S> v; S mainS{0, 0, nullptr};
	for (u64 i = 0; i < k && i < 8; i++) {
		u64 b = p.get("b" + std::to_string(i), [&] { return p.coin(4) ? p.near({0, 0 - 4ull, 0 - 64ull, 1ull << 63}) : 0x1000 + p.below(64) * 4; }), n = p.get("n" + std::to_string(i), [&] { return p.below(40) * 4; }); bool init = p.get("main" + std::to_string(i), [&] { return p.coin(4); });
		if (n > 4096) throw Skip{};
		auto& s = m.memory.create_execute_segment(o, code.data(), b, n, init); S x{b, b + n, &s}; if (init) mainS = x; else v.push_back(x);
		REQUIRE(s.exec_begin() == b && s.exec_end() == b + n, "bounds of a created segment");
	}
	u64 pc = p.get("pc", [&] { return v.empty() || p.coin(5) ? p.near({0, 0x1000, 0x1100, 0 - 4ull, 0 - 64ull}) : p.near({v[0].b, v[0].e, v.back().b, v.back().e, mainS.b, mainS.e}, 12); });
	auto in = [&](const S& s) { unsigned __int128 a = pc; return s.p && s.b <= s.e && a >= s.b && a + 4 <= s.e; };
	DecodedExecuteSegment* want = nullptr; if (in(mainS)) want = mainS.p; else for (auto& s : v) if (in(s)) { want = s.p; break; }
	auto got = m.memory.exec_segment_for(pc);
	if (want) REQUIRE(got.get() == want, "wrong segment for " + hx(pc)); else REQUIRE(got.get() == CPU::empty_execute_segment().get(), "a segment although none contains " + hx(pc));
	bool threw = false; u64 data = 0; int ty = -1;
	try { auto r = m.cpu.next_execute_segment(pc); REQUIRE(r.exec == want && r.pc == pc && &m.cpu.current_execute_segment() == want, "next_execute_segment"); } catch (const MachineException& e) { threw = true; data = e.data(); ty = e.type(); }
	REQUIRE(threw == !want, "next_execute_segment: faults exactly without a segment"); if (threw) REQUIRE(ty == EXECUTION_SPACE_PROTECTION_FAULT && data == pc, "next_execute_segment: kind of fault");
	m.memory.evict_execute_segments(); REQUIRE(m.memory.execute_segments_count() == 0 && m.memory.exec_segment_for(pc).get() == CPU::empty_execute_segment().get() && &m.cpu.current_execute_segment() == CPU::empty_execute_segment().get(), "eviction");
}
int main() { return api_main(); }
