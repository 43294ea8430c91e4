// Prints the object layout of the real classes (compiled against /repo headers on every run).
#include <libloong/machine.hpp>
#include <libloong/la_instr.hpp>
#include <libloong/shared_exec_segment.hpp>
#include <libloong/threaded_bytecodes.hpp>
#include <cstdio>
#include <cstddef>
using namespace loongarch;
#define O(n, T, m) printf("\"%s\": %zu,\n", n, (size_t)offsetof(T, m))
#define S(n, T) printf("\"%s\": %zu,\n", n, sizeof(T))
int main() {
	printf("{\n");
	S("Machine", Machine); S("Memory", Memory); S("CPU", CPU); S("Registers", Registers);
	S("Segment", DecodedExecuteSegment); S("DecoderData", DecoderData); S("MachineException", MachineException);
	S("VR", Registers::VectorReg256);
	O("cpu", Machine, cpu); O("memory", Machine, memory);
	O("m_counter", Machine, m_counter); O("m_max", Machine, m_max_instructions);
	O("m_options", Machine, m_options); O("m_arena_heap", Machine, m_arena);
	O("m_signals", Machine, m_signals); O("m_mt", Machine, m_mt); O("m_curexc", Machine, m_current_exception);
	O("m_userdata", Machine, m_userdata);
	O("pc", Machine, cpu.m_regs.pc); O("regs", Machine, cpu.m_regs.m_regs); O("vr", Machine, cpu.m_regs.m_vr);
	O("fcsr", Machine, cpu.m_regs.m_fcsr); O("fcc", Machine, cpu.m_regs.m_fcc);
	O("cpu.m_machine", CPU, m_exec); O("exec", Machine, cpu.m_exec); O("ll_bit", Machine, cpu.m_ll_bit);
	O("mem.arena", Memory, m_arena); O("mem.size", Memory, m_arena_size);
	O("mem.rodata", Memory, m_rodata_start); O("mem.end_sub_rodata", Memory, m_arena_end_sub_rodata);
	O("mem.data", Memory, m_data_start); O("mem.end_sub_data", Memory, m_arena_end_sub_data);
	O("mem.binary", Memory, m_binary); O("mem.main_seg", Memory, m_main_exec_segment); O("mem.exec", Memory, m_exec);
	O("mem.start", Memory, m_start_address); O("mem.stack", Memory, m_stack_address); O("mem.exit", Memory, m_exit_address);
	O("mem.heap", Memory, m_heap_address); O("mem.brk", Memory, m_brk_address); O("mem.mmap", Memory, m_mmap_address);
	O("mem.phdr", Memory, m_elf_phdr_addr); O("mem.phent", Memory, m_elf_phentsize); O("mem.phnum", Memory, m_elf_phnum);
	O("mem.symbols", Memory, m_symbols);
	O("seg.begin", DecodedExecuteSegment, m_exec_begin); O("seg.end", DecodedExecuteSegment, m_exec_end);
	O("seg.cache", DecodedExecuteSegment, m_decoder_cache.cache); O("seg.cache_size", DecodedExecuteSegment, m_decoder_cache.size);
	O("seg.stale", DecodedExecuteSegment, m_stale); O("seg.xo", DecodedExecuteSegment, m_execute_only); O("seg.crc", DecodedExecuteSegment, m_crc32c_hash);
	O("dd.bytecode", DecoderData, bytecode); O("dd.handler_idx", DecoderData, handler_idx);
	O("dd.block_bytes", DecoderData, block_bytes); O("dd.instr", DecoderData, instr);
	O("in.handler", Instruction, handler); O("in.id", Instruction, id);
	O("exc.type", MachineException, m_type); O("exc.data", MachineException, m_data);
	O("opt.memory_max", MachineOptions, memory_max); O("opt.stack_size", MachineOptions, stack_size); O("opt.brk_size", MachineOptions, brk_size);
	O("opt.verbose_loader", MachineOptions, verbose_loader); O("opt.custom_ptr", MachineOptions, custom_arena_pointer); O("opt.custom_size", MachineOptions, custom_arena_size);
	O("opt.shared", MachineOptions, use_shared_execute_segments); O("key.pc", SegmentKey, pc); O("key.crc", SegmentKey, crc); O("key.size", SegmentKey, arena_size);
	S("Options", MachineOptions);
	printf("\"in.idsize\": %zu,\n\"bc.INVALID\": %d,\n\"bc.FUNCBLOCK\": %d,\n", sizeof(((Instruction*)0)->id), (int)LA64_BC_INVALID, (int)LA64_BC_FUNCBLOCK);
	printf("\"bc.SYSCALLIMM\": %d,\n", (int)LA64_BC_SYSCALLIMM);
	printf("\"OVER\": %d, \"SYSMAX\": %d\n}\n", LA_OVER_ALLOCATE_SIZE, LA_SYSCALLS_MAX);
}
