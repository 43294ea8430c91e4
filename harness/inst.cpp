// Instantiations of the header templates under contract (compiled from /repo's headers on every run).
#include <libloong/machine.hpp>
#include <libloong/machine_vmcall.hpp>
using namespace loongarch;
template const uint8_t* Memory::memarray<uint8_t>(address_t, size_t) const;
template const uint64_t* Memory::memarray<uint64_t>(address_t, size_t) const;
struct Elem24 { uint64_t a, b, c; };
template const Elem24* Memory::memarray<Elem24>(address_t, size_t) const;
template uint8_t* Memory::writable_memarray<uint8_t>(address_t, size_t);
template uint64_t* Memory::writable_memarray<uint64_t>(address_t, size_t);
template Elem24* Memory::writable_memarray<Elem24>(address_t, size_t);
// inline functions under contract
void inst_calls(Machine& m, unsigned n, Machine::syscall_t* h, Machine::unknown_syscall_t* u) {
	m.system_call(n); m.unchecked_system_call(n); Machine::install_syscall_handler(n, h); Machine::set_unknown_syscall_handler(u);
}
uint64_t inst_limit(Machine& m, uint64_t a, uint64_t b) {
	m.set_instruction_counter(a); m.set_max_instructions(b); m.increment_counter(a); m.stop();
	return m.simulate(a, b) + m.stopped() + m.instruction_limit_reached() + m.instruction_counter() + m.max_instructions();
}
