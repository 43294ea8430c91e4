"""The properties, and how each is decided."""
TECH = 'contract-based deductive verification of the compiled real code (LLVM IR of /repo, contracts, z3)'
NOTES = 'irv (in /verif/irv) is a deductive verifier for the LLVM IR of the real sources, recompiled on every run; contracts are in /verif/spec and /verif/checks. See DESIGN.md.'
PROPS = []
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), note='', technique=TECH, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                      anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state], 'observe_at': list(observe), 'hook_needed': None},
                      technique=technique, note=note, **kw))
L = 'lib/libloong/'
ISA_FILES = [L + 'la64.cpp', L + 'la_instr_impl.hpp', L + 'la_instr_atomic.hpp', L + 'bytecode_impl.cpp', L + 'threaded_rewriter.cpp', L + 'decoder_cache.cpp', L + 'threaded_dispatch.cpp', L + 'threaded_inaccurate_dispatch.cpp', L + 'cpu.cpp', L + 'cpu_inline.hpp', L + 'memory_inline.hpp', L + 'registers.hpp']
ISA_MECH = [('decoder', L + 'la64.cpp CPU::decode'), ('instruction handlers', L + 'la_instr_impl.hpp'), ('decoder cache and rewriter', L + 'decoder_cache.cpp, ' + L + 'threaded_rewriter.cpp'), ('bytecode handlers', L + 'bytecode_impl.cpp'), ('dispatch loops', L + 'threaded_dispatch.cpp, ' + L + 'threaded_inaccurate_dispatch.cpp')]
ISA_STATE = [('registers', 'general, vector/floating-point, condition flags, program counter', L + 'registers.hpp'), ('guest memory', 'flat arena', L + 'memory.hpp')]
ISA_NOTE = ('Every instruction class of the group is run symbolically through the real decoder, handler, decoder-cache construction and dispatch code of each engine, over all operand fields, register and memory contents, and every outcome '
            'is discharged against the instruction contract of spec/isa.py (result, untouched registers, flags, memory, program counter, counter, faults). No bound on values. Assumes the IR front end, z3, and for floating point that the host operators are IEEE-754 (they are uninterpreted). '
            'Only when changed code leaves the reach of the verifier does a bounded native comparison stand in, reported as undecided and not counted as discharged.')
def isa(id, title, st, what):
    P(id, title, st, ['inputs', 'programs'], 'for every encoding of the group, all register, flag and memory contents, and in each interpreter engine (stepping, counted and uncounted dispatch): ' + what,
      'Unit tests run a few operand values per instruction on one engine; wrong results for particular operands, registers (zero, aliased source and destination) or in another engine go unnoticed.', ISA_FILES, ISA_MECH, ISA_STATE, ['register file, memory and exceptions after one instruction'], ISA_NOTE)
isa('I01', 'Integer arithmetic, logic, shift and bit-field results',
    'Every supported integer arithmetic, logical, shift, bit-field, bit-manipulation, upper-immediate and PC-relative instruction writes to its destination exactly the value the LoongArch64 ISA defines for its operands, and changes no other register, flag or memory. The zero register always reads as zero. The same holds whichever interpreter engine executes it: single-stepping, the instruction-counting dispatcher or the non-counting dispatcher.',
    'the destination register gets the ISA value and nothing else changes')
isa('I02', 'Multiplication, division and remainder results',
    'Every supported multiply, divide and remainder instruction writes the value the LoongArch64 ISA defines for its operands, including high halves, signedness and 32-bit sign extension, and changes nothing else. No operand values, including zero divisors and the most negative dividend divided by -1, crash or trap the host process. The same holds in every interpreter engine.',
    'destination gets the ISA product, quotient or remainder and the host never traps')
isa('I03', 'Loads and stores access the right bytes, only inside guest memory',
    'Every supported integer, floating-point and vector load or store accesses exactly the bytes at its effective address with the ISA width and extension, whatever the alignment, and changes nothing else. An access whose address lies outside the readable (for loads) or writable (for stores) part of guest memory raises a protection fault carrying that address, before any register or memory change, and no access ever touches host memory outside the arena. The same holds in every interpreter engine.',
    'effective address, width, extension, byte order, fault condition and frame')
isa('I04', 'Branches, jumps and calls reach the ISA target',
    'Every supported conditional branch, jump, call and indirect jump continues at the address the LoongArch64 ISA defines, over the full offset range, and writes the link register and nothing else. Execution never continues outside an executable segment: such a target raises an exception. The same holds in every interpreter engine, and the stop instruction returns to the caller with the program counter just behind it.',
    'next program counter, link register, frame; target outside the segment traps')
isa('I05', 'Atomic memory operations and load-linked/store-conditional',
    'Every supported atomic read-modify-write returns the old memory value, sign-extended as the ISA says, and stores the ISA result at its address; load-linked sets a reservation and store-conditional stores and reports 1 exactly when one is held, reports 0 without storing otherwise, and clears it. Accesses outside writable guest memory raise a protection fault without any effect. The same holds in every interpreter engine.',
    'old value, stored value, reservation, fault condition and frame')
isa('I06', 'Scalar floating-point results',
    'Every supported scalar floating-point instruction applies the operation the LoongArch64 ISA names to the operands it names: arithmetic, fused multiply-add with one rounding, compare conditions with NaN, min/max, classification, sign operations, moves, conversions and selects. It writes only its destination register or condition flag. The same holds in every interpreter engine.',
    'destination register or flag, frame; IEEE operators of the host are taken as given')
isa('I07', '128-bit vector (LSX) results',
    'Every supported 128-bit vector instruction writes in each lane of its destination the value the LoongArch64 ISA defines from the corresponding source lanes, also when destination and source registers coincide. It changes no other register, flag or memory. The same holds in every interpreter engine.',
    'each destination lane, frame, aliasing')
isa('I08', '256-bit vector (LASX) results',
    'Every supported 256-bit vector instruction writes in each lane of its destination the value the LoongArch64 ISA defines from the corresponding source lanes, with the ISA rules for 128-bit halves, also when destination and source registers coincide. It changes no other register, flag or memory. The same holds in every interpreter engine.',
    'each destination lane, frame, aliasing')
FN_NOTE = ('Each function is run symbolically from the compiled real code of /repo, over all states and arguments that satisfy its precondition; every path must satisfy the postcondition, the bounds of every access and the frame. Callees with a contract are replaced by it '
           '(listed in the evidence), loops are cut by invariants found and proved inductive in the run (partial correctness). A native unit with the same reference replays counterexamples and is the bounded stand-in, reported undecided and not counted, when changed code leaves the reach of the verifier.')
P('M01', 'Bulk guest memory accesses stay inside memory and move the right bytes',
  'Every bulk access the embedder can make to guest memory - copying to and from the guest, filling, comparing, measuring and reading strings, and obtaining views or arrays - serves a range exactly when the whole of it lies inside the readable (or writable) part of guest memory, whatever the address, length or element count, also when their sum wraps around. Otherwise it raises a protection fault with the address. When served, exactly the named bytes are moved, compared or returned, and nothing else in the guest or the machine changes. Strings end at the first terminator, at the given maximum or at the end of memory.',
  ['inputs', 'memory layouts'], 'for every address, length, element count, memory layout and contents', 'Tests use small ranges in the middle of memory; the wrap-around of address plus length, ranges ending one byte too far, and wrong element sizes only show at particular values.',
  [L + 'memory.cpp', L + 'memory.hpp', L + 'memory_inline.hpp'], [('bulk access functions', L + 'memory.cpp'), ('range predicates', L + 'memory.hpp')], [('arena', 'm_arena, m_arena_size, m_rodata_start, m_data_start', L + 'memory.hpp')], ['returned views, copied bytes and exceptions'], FN_NOTE)
P('E03', 'The decoder cache describes the code it was built from',
  'For any code bytes, address and length, building the decoder cache of an execute segment yields one entry for every whole 4-byte instruction. Each entry names the handler the decoder selects for exactly that instruction word, the bytecode and rewritten bits that stand for it, and the distance to the end of its straight-line block, where blocks end at every instruction that changes control flow, also in code longer than 64 KB. The entry behind the code traps, and the hash stored covers all of the code.',
  ['inputs'], 'for every code length and content, by an inductive invariant of the construction loop', 'Tests execute particular programs; a wrong block length or a stale handler for one instruction pattern or position (long blocks, last instruction) only shows when control flow enters exactly there.',
  [L + 'decoder_cache.cpp', L + 'decoded_exec_segment.hpp', L + 'decoder_cache.hpp'], [('populate_decoder_cache', L + 'decoder_cache.cpp'), ('handler table', L + 'decoder_cache.cpp DecoderData::compute_handler_for')], [('decoder cache', 'one DecoderData per instruction and a trap entry', L + 'decoder_cache.hpp')], ['the entries of the decoder cache'], FN_NOTE)
P('E04', 'An address executes from the segment that contains it, or not at all',
  'Looking up the execute segment of an address returns the main segment if the instruction there lies inside it, otherwise the first created segment that contains it, and otherwise the empty segment; it never fails. Continuing at an address that no segment contains raises an execution-space protection fault with that address, and otherwise continues at exactly that address in the segment that contains it. Created segments have the bounds they were created with, and after evicting all segments none is found.',
  ['inputs', 'histories'], 'for every set of segments, in number and bounds, and every address', 'Tests have one or two segments; addresses at segment ends, wrap-around bounds, or several overlapping segments are not exercised.',
  [L + 'memory.cpp', L + 'memory.hpp', L + 'decoded_exec_segment.hpp', L + 'cpu.cpp'], [('segment lookup', L + 'memory.cpp Memory::exec_segment_for'), ('segment change', L + 'cpu.cpp CPU::next_execute_segment')], [('execute segments', 'm_main_exec_segment, m_exec', L + 'memory.hpp')], ['the segment and faults at the program counter'], FN_NOTE)
P('M02', 'The arena has the size and bounds it was asked for, or is refused whole',
  'Allocating guest memory, allocating it with custom read-only and writable bounds, or adopting memory supplied by the host, gives an arena of exactly the size asked for (less the 64 bytes of slack for host-supplied memory), whose limits for readable and writable accesses are consistent with it. Fresh memory is zero, and no size is accepted whose slack does not fit. A request with impossible bounds or size is refused by an exception, and never leaves limits that would admit accesses to memory that is not there. Freeing returns the memory and leaves nothing accessible.',
  ['inputs'], 'for every size, bounds, earlier arena and host answer', 'Tests allocate a few ordinary sizes; wrap-around sizes, bounds beyond the end and failed host allocations are not exercised.',
  [L + 'memory.cpp', L + 'memory.hpp'], [('arena allocation', L + 'memory.cpp Memory::allocate_arena, allocate_custom_arena, use_custom_arena, free_arena')], [('arena', 'pointer, size, bounds and derived limits', L + 'memory.hpp')], ['the limits of guest memory and exceptions'], FN_NOTE)
P('M03', 'Guest mappings are fresh, zeroed, disjoint and inside guest memory',
  'The mmap system call without a fixed address returns a fresh page-rounded area that begins at the current end of the mapped areas and lies wholly inside guest memory, and moves that end behind it; when it does not fit, also by wrap-around, it returns the out-of-memory error and changes nothing. A fixed address is accepted only below the end. Unmapping gives back exactly the last area, fills it with zeroes so that the next mapping is zero, and otherwise changes nothing.',
  ['inputs', 'histories'], 'for every address, length, flags and end of the mapped areas', 'Tests map a few pages; lengths that wrap or end exactly at the end of memory, and partial unmapping, are not sampled.',
  [L + 'memory.cpp', L + 'linux/syscalls.cpp'], [('reservation', L + 'memory.cpp Memory::mmap_allocate, mmap_deallocate'), ('system calls', L + 'linux/syscalls.cpp syscall_mmap, syscall_munmap')], [('end of mappings', 'm_mmap_address', L + 'memory.hpp')], ['result register and end of the mapped areas'], FN_NOTE)
P('S01', 'Linux system calls give the documented result and touch only their buffers',
  'Every emulated Linux system call installed by the Linux setup returns the result or negative error number its interface defines for its arguments, writes exactly the guest bytes its interface defines (and only for a pointer that lies inside writable guest memory), prints exactly the bytes the program passes to write or writev, and changes no other register, memory or machine state. A pointer outside guest memory raises a protection fault with no result written; it never reaches host memory. Signal calls set and report the action, stack and mask of exactly the signal named and enter its handler on the configured stack.',
  ['inputs'], 'for each of the 37 calls, all argument register values, memory contents and layouts', 'Test programs pass well-formed arguments; descriptor and signal numbers out of range, buffers at the end of memory, huge lengths and counts, overlapping structures and upper register halves are not sampled.',
  [L + 'linux/syscalls.cpp', L + 'posix/signals.cpp', L + 'posix/signals.hpp', L + 'machine_inline.hpp', L + 'machine.cpp', L + 'memory_inline.hpp'], [('system call handlers', L + 'linux/syscalls.cpp'), ('signals', L + 'posix/signals.cpp')], [('signal actions and stacks', 'Signals', L + 'posix/signals.hpp')], ['result register, guest memory, printed bytes, exceptions'], FN_NOTE)
P('A01', 'Accelerated memory and string functions equal the C functions',
  'The accelerated replacements of memcpy, memmove, memset, memcmp, memchr, strlen, strnlen, strcmp and strncmp return the value and leave the memory the C functions define for every argument, without a limit on the length of a string. They access no guest byte outside the range the arguments name, and a range outside guest memory raises a protection fault before any change. Setting them up replaces exactly the functions of those names found in the program, each by its own replacement.',
  ['inputs'], 'for all arguments, memory contents and layouts, and symbol lists', 'Tests call them on short strings; long or unterminated strings, zero lengths, overlapping ranges, bytes above 127 and ranges at the end of memory are not sampled.',
  [L + 'machine_accelerate.cpp', L + 'memory.cpp', L + 'memory_inline.hpp'], [('handlers', L + 'machine_accelerate.cpp Machine::setup_accelerated_syscalls'), ('patching', L + 'machine_accelerate.cpp patch')], [('guest memory', 'flat arena', L + 'memory.hpp')], ['result register and memory'], FN_NOTE)

P('E01', 'Instruction counts are exact and the instruction limit is honoured',
  'A counted run adds to the instruction counter exactly the number of instructions it executes, and single-stepping counts each step once. No jump, branch or repeated system call is taken once the counter has reached the limit, so no program runs on behind its limit in a loop. A run that ends reports truthfully whether it reached a stop or was stopped (true), or reached its limit (false, with the instruction-limit query true), with the counter stored and the program counter at the next instruction, so that the run can be resumed. The precise loop executes no instruction at the limit and ends only there.',
  ['inputs', 'programs'], 'for every instruction, position in its block, counter and limit', 'Tests run a loop with one limit; the counter being wrong for one instruction kind, branch direction, block length or entry point, or a limit missed on one kind of jump, is not sampled.',
  [L + 'threaded_dispatch.cpp', L + 'bytecode_impl.cpp', L + 'decoder_cache.cpp', L + 'cpu.cpp', L + 'machine.hpp', L + 'machine_inline.hpp'], [('dispatch loop', L + 'threaded_dispatch.cpp CPU::simulate'), ('stepping', L + 'cpu.cpp CPU::step_one, simulate_precise'), ('queries', L + 'machine.hpp stop, stopped, instruction_limit_reached')], [('counter and limit', 'm_counter, m_max_instructions', L + 'machine.hpp')], ['counter, limit and program counter after a run'], ISA_NOTE)
P('E02', 'System call instructions reach the handler of their number',
  'A system call instruction calls, exactly once, the handler installed for its number: the value in A7, the immediate of the instruction if it has one, or 0 for a break. Numbers outside the table, and numbers without a handler, reach the unknown-call handler, which by default raises an exception carrying the number; handlers installed before the first machine are kept. The handler sees the machine with the program counter of the instruction and the current limit. Afterwards execution goes on behind the instruction, at the program counter the handler set, or for an immediate at the return address, and a limit or stop set by the handler is honoured at once; exceptions of the handler reach the caller. The same holds in every interpreter engine.',
  ['inputs', 'handlers'], 'for every number, immediate, handler effect (registers, memory, program counter, limit, exception) and state', 'Tests install a few handlers; numbers at the end of the table, immediates, handlers that move the program counter, stop the machine or throw in each engine are not combined.',
  [L + 'machine.hpp', L + 'machine.cpp', L + 'machine_inline.hpp', L + 'threaded_dispatch.cpp', L + 'threaded_inaccurate_dispatch.cpp', L + 'la_instr_impl.hpp', L + 'decoder_cache.cpp'], [('table of handlers', L + 'machine.hpp system_call, install_syscall_handler'), ('defaults', L + 'machine.cpp Machine::Machine'), ('instructions', L + 'threaded_dispatch.cpp SYSCALL, SYSCALLIMM; ' + L + 'la_instr_impl.hpp')], [('handlers', 'm_syscall_handlers, m_unknown_syscall_handler', L + 'machine.hpp')], ['which handler runs, with what machine state, and where execution continues'], FN_NOTE)
P('E05', 'Calls from the host into guest functions follow the ABI and restore state',
  'Calling a guest function passes the integer arguments in A0 to A7, widened as the LP64 ABI says, and floating-point arguments in FA0 to FA7, each class in order; strings and structures are copied onto the guest stack, aligned to 16 bytes, and passed by address. The function starts with the exit address as return address, an aligned stack pointer below the pushed data, and every other register and memory byte unchanged, and the result is what it leaves in A0 or FA0. A limited call raises a timeout naming the function exactly when it reaches the limit. A name that is not a function of the program is refused without effect. A preempting call that is asked to restore brings back all registers, the counter and the limit, also when the call ends by an exception.',
  ['inputs', 'guest programs'], 'for every argument value, stack position, limit, and everything the called function may do to registers and memory', 'Tests call a few functions with small arguments; widening of each type, mixed argument classes, strings at the end of the stack, limits hit exactly and exceptions during a preempting call are not sampled.',
  [L + 'machine_vmcall.hpp', L + 'machine.hpp', L + 'machine_inline.hpp', L + 'machine.cpp'], [('argument passing', L + 'machine_vmcall.hpp setup_call'), ('calls', L + 'machine_vmcall.hpp vmcall, timed_vmcall, preempt'), ('pushes', L + 'machine.cpp stack_push')], [('stack and exit address', 'm_stack_address, m_exit_address', L + 'memory.hpp')], ['registers and memory at the entry of the function, result, exception and state afterwards'], FN_NOTE)
P('E07', 'System call handlers receive their arguments and return their results exactly',
  'Reading the arguments of a system call gives integer arguments from A0 to A7 narrowed to their type and floating-point ones from FA0 to FA7, each class in order; a string view takes an address and a length register, a string, pointer or structure the register holding its address, and each is read from guest memory only after the range was checked, so an argument outside guest memory raises a protection fault instead of exposing host memory. Setting a result writes A0 or FA0 with the value widened as the ABI says and changes nothing else, and reading the return value gives it back for every type.',
  ['inputs'], 'for every value, argument type list, address and length', 'Tests read small positive arguments; sign and zero extension of each width, mixed classes, arguments behind a view, and ranges that end outside guest memory are not sampled.',
  [L + 'machine.hpp', L + 'machine_inline.hpp', L + 'memory_inline.hpp'], [('arguments', L + 'machine_inline.hpp sysarg, sysargs'), ('results', L + 'machine_inline.hpp set_result, return_value')], [('registers', 'CPU register file', L + 'registers.hpp')], ['argument values, result registers, exceptions'], FN_NOTE)
