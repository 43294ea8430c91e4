// Replays one-instruction states against the real library code (compiled from
// /repo's sources).  Reads one case per line on stdin, writes one result line.
#include <libloong/machine.hpp>
#include <libloong/decoder_cache.hpp>
#include <sys/mman.h>
#include <unistd.h>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
namespace loongarch {
extern void populate_decoder_cache(Machine&, const MachineOptions&, std::shared_ptr<DecodedExecuteSegment>&, address_t exec_begin, const uint8_t* code, size_t code_size, bool is_initial);
}
using namespace loongarch;
static sigjmp_buf jb; static volatile int in_run = 0;
static void on_sig(int s) { if (in_run) siglongjmp(jb, s); _exit(90); }
static uint64_t u(const std::string& s) { return std::stoull(s, nullptr, 0); }
static constexpr uint32_t NOPW = 0x03400000, STOPW = 0x00150000;
static uint64_t slow_handler(Machine&) { return 0x1234567; }

int main() {
	struct sigaction sa{}; sa.sa_handler = on_sig; sa.sa_flags = SA_NODEFER;
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
	Machine::m_rdtime_handler = slow_handler;
	std::string line;
	while (std::getline(std::cin, line)) {
		std::istringstream is(line); std::map<std::string, std::string> kv; std::string tok;
		while (is >> tok) { auto e = tok.find('='); if (e != std::string::npos) kv[tok.substr(0, e)] = tok.substr(e + 1); }
		const std::string eng = kv["eng"];
		const uint64_t N = u(kv["N"]), RO = u(kv["RO"]), DA = u(kv["DA"]), P = u(kv["P"]);
		const size_t PG = 65536, len = (N + 64 + PG - 1) / PG * PG;
		char* base = (char*)mmap(nullptr, len + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (base == MAP_FAILED) { printf("skip cannot-map\n"); fflush(stdout); continue; }
		uint8_t* arena = (uint8_t*)base + PG;
		mprotect(arena, len, PROT_READ | PROT_WRITE);
		Machine* m = new Machine(std::string_view{});
		auto& me = m->memory;
		me.m_arena = arena; me.m_arena_size = N; me.m_rodata_start = RO; me.m_data_start = DA;
		me.m_arena_end_sub_rodata = N - RO; me.m_arena_end_sub_data = N - DA;
		std::map<uint64_t, uint8_t> init;
		auto poke = [&](uint64_t a, uint8_t v) { if (a < N + 64) { arena[a] = v; init[a] = v; } };
		{ std::istringstream ms(kv["mem"]); std::string p; while (std::getline(ms, p, ',')) { if (p.empty()) continue; auto c = p.find(':'); poke(u(p.substr(0, c)), (uint8_t)u(p.substr(c + 1))); } }
		const uint32_t word = (uint32_t)u(kv["word"]);
		for (int i = 0; i < 4; i++) poke(P + i, (uint8_t)(word >> (8 * i)));
		auto& R = m->cpu.registers();
		{ std::istringstream ms(kv["regs"]); std::string p; int i = 0; while (std::getline(ms, p, ',')) { if (i < 32) m->cpu.reg(i) = u(p); i++; } }
		{ std::istringstream ms(kv["vr"]); std::string p; while (std::getline(ms, p, ',')) { if (p.empty()) continue; auto c = p.find(':'); int i = (int)u(p.substr(0, c)); std::string h = p.substr(c + 1);
			uint8_t b[32] = {}; for (int k = 0; k < 32; k++) b[k] = (uint8_t)std::stoul(h.substr(62 - 2 * k, 2), nullptr, 16); memcpy(&R.getvr(i), b, 32); } }
		R.m_fcc = (uint8_t)u(kv["fcc"]); m->cpu.m_ll_bit = u(kv["ll"]) != 0; R.pc = P;
		R.set_fcsr(0);
		DecoderData* dc = nullptr; size_t dcn = 0; std::shared_ptr<DecodedExecuteSegment> seg;
		MachineOptions opt;
		bool skip = false;
		if (eng != "step") {
			const uint64_t B = u(kv["begin"]), E = u(kv["end"]), npc = u(kv["npc"]); const unsigned acc = (unsigned)u(kv["acc"]), nb = (unsigned)u(kv["nb"]);
			dcn = ((E - B) / 4 + 64 + acc + nb) * sizeof(DecoderData); dcn = (dcn + PG - 1) / PG * PG;
			dc = (DecoderData*)mmap(nullptr, dcn, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (dc == MAP_FAILED) { dc = nullptr; skip = true; }
			else {
				seg = std::make_shared<DecodedExecuteSegment>(B, E);
				// word + NOPs + stop at P; NOPs + stop at the next pc
				std::map<uint64_t, uint32_t> prog;
				auto put = [&](uint64_t a, uint32_t w) { if (!prog.count(a)) prog[a] = w; };
				put(P, word);
				const bool near = npc == P + 4;
				if (near) { for (unsigned i = 0; i < nb; i++) put(P + 4 + 4 * i, NOPW); put(P + 4 + 4 * nb, STOPW); }
				else { for (unsigned i = 0; i < nb; i++) put(npc + 4 * i, NOPW); put(npc + 4 * nb, STOPW); put(P + 4, STOPW); }
				// build the cache for each contiguous run with the real code
				for (auto it = prog.begin(); it != prog.end();) {
					uint64_t a = it->first; std::vector<uint32_t> run; uint64_t q = a;
					while (it != prog.end() && it->first == q) { run.push_back(it->second); q += 4; ++it; }
					if (a < B || a >= E) continue;
					populate_decoder_cache(*m, opt, seg, a, (const uint8_t*)run.data(), run.size() * 4, false);
					DecoderData* got = seg->decoder_cache();
					for (size_t k = 0; k < run.size(); k++) dc[(a - B) / 4 + k] = got[k];
					delete[] got; seg->set_decoder_cache(nullptr, 0);
				}
				seg->set_decoder_cache(dc, (E - B) / 4);
				m->cpu.set_execute_segment(*seg);
			}
		}
		std::string kind = "ret"; uint64_t rv = 1, data = 0; int type = -1;
		if (skip) kind = "skip";
		else {
			alarm(2);
			int sg = sigsetjmp(jb, 1);
			if (sg == 0) {
				in_run = 1;
				try {
					if (eng == "step") { m->set_instruction_counter(u(kv["counter"])); m->cpu.step_one(true); }
					else if (eng == "sim") rv = m->cpu.simulate(P, u(kv["counter"]), u(kv["max"]));
					else m->cpu.simulate_inaccurate(P);
				} catch (const MachineException& e) { kind = "throw"; type = (int)e.type(); data = e.data(); }
				catch (const std::exception& e) { kind = "other"; }
				in_run = 0;
			} else { in_run = 0; kind = sg == SIGALRM ? "hang" : "crash"; type = sg; }
			alarm(0);
		}
		printf("%s type=%d data=%llu rv=%llu pc=%llu counter=%llu fcc=%d ll=%d regs=", kind.c_str(), type, (unsigned long long)data, (unsigned long long)rv,
			(unsigned long long)R.pc, (unsigned long long)m->instruction_counter(), (int)R.m_fcc, (int)m->cpu.ll_bit());
		for (int i = 0; i < 32; i++) printf("%s%llu", i ? "," : "", (unsigned long long)m->cpu.reg(i));
		printf(" vr=");
		for (int i = 0; i < 32; i++) { const uint8_t* b = (const uint8_t*)&R.getvr(i); bool z = true; for (int k = 0; k < 32; k++) z = z && !b[k]; if (z) continue; printf("%d:", i); for (int k = 31; k >= 0; k--) printf("%02x", b[k]); printf(","); }
		printf(" mem=");
		if (len <= (1ull << 38)) {
			std::vector<unsigned char> vec(1 << 20); int n = 0;
			for (size_t o = 0; o < len && n < 600; o += (4096ull << 20)) {
				size_t l = std::min<size_t>(len - o, 4096ull << 20);
				if (mincore(arena + o, l, vec.data())) break;
				for (size_t pg = 0; pg < (l + 4095) / 4096; pg++) if (vec[pg] & 1) for (size_t k = 0; k < 4096; k++) {
					uint64_t a = o + pg * 4096 + k; auto it = init.find(a); uint8_t was = it == init.end() ? 0 : it->second;
					if (arena[a] != was && n++ < 600) printf("%llu:%d,", (unsigned long long)a, arena[a]);
				}
			}
		}
		printf("\n"); fflush(stdout);
		m->cpu.set_execute_segment(*CPU::empty_execute_segment());
		if (seg) seg->set_decoder_cache(nullptr, 0);
		me.m_arena = nullptr; me.m_arena_size = 0;
		if (kind != "crash" && kind != "hang") delete m;
		if (dc) munmap(dc, dcn);
		munmap(base, len + 2 * PG);
	}
	return 0;
}
