// Instantiations of the calling templates (machine_vmcall.hpp, machine_inline.hpp) under contract.
#include <libloong/machine.hpp>
#include <libloong/machine_vmcall.hpp>
using namespace loongarch;
struct S16 { uint64_t a; uint32_t b; uint8_t c; }; struct S40 { uint64_t a[5]; }; struct S3 { uint8_t a[3]; };
enum class E32 : uint32_t { A = 1 }; enum class E8 : int8_t { A = 1 }; enum class E64 : uint64_t { A = 1 }; enum Plain { PA, PB = 7 };
extern "C" {
void ic_push(Machine& m, address_t& sp, const void* p, size_t n) { m.stack_push(sp, p, n); }
void ic_none(Machine& m, address_t e) { setup_call(m, e); }
void ic_ints(Machine& m, address_t e, int32_t a, uint32_t b, int64_t c, uint64_t d, int8_t f, uint8_t g, int16_t h, uint16_t i) { setup_call(m, e, a, b, c, d, f, g, h, i); }
void ic_bool(Machine& m, address_t e, bool a, char b, long long c) { setup_call(m, e, a, b, c); }
void ic_enums(Machine& m, address_t e, E32 a, E8 b, E64 c, Plain d) { setup_call(m, e, a, b, c, d); }
void ic_floats(Machine& m, address_t e, float a, int b, double c, double d, float f, uint64_t g, double h, double i, double j, float k) { setup_call(m, e, a, b, c, d, f, g, h, i, j, k); }
void ic_cstr(Machine& m, address_t e, const char* a, int b) { setup_call(m, e, a, b); }
void ic_str(Machine& m, address_t e, const std::string& a, uint64_t b) { setup_call(m, e, a, b); }
void ic_struct(Machine& m, address_t e, const S16& a, int b, const S40& c, S3& d) { setup_call(m, e, a, b, c, d); }
void ic_mix(Machine& m, address_t e, double a, const std::string& b, const S40& c, int d, const char* f) { setup_call(m, e, a, b, c, d, f); }
uint64_t ic_vm_u64(Machine& m, address_t a, uint64_t x) { return m.vmcall<uint64_t>(a, x); }
int ic_vm_int(Machine& m, address_t a, uint64_t x) { return m.vmcall<int>(a, x); }
bool ic_vm_bool(Machine& m, address_t a, uint64_t x) { return m.vmcall<bool>(a, x); }
uint8_t ic_vm_u8(Machine& m, address_t a, uint64_t x) { return m.vmcall<uint8_t>(a, x); }
void ic_vm_void(Machine& m, address_t a, uint64_t x) { m.vmcall<void>(a, x); }
float ic_vm_float(Machine& m, address_t a, uint64_t x) { return m.vmcall<float>(a, x); }
double ic_vm_double(Machine& m, address_t a, uint64_t x) { return m.vmcall<double>(a, x); }
uint64_t ic_vm_lim(Machine& m, address_t a, uint64_t x) { return m.vmcall<uint64_t, 12345>(a, x); }
double ic_vm_limd(Machine& m, address_t a, uint64_t x) { return m.vmcall<double, 12345>(a, x); }
uint64_t ic_vm_name(Machine& m, const std::string& n, uint64_t x) { return m.vmcall<uint64_t>(n, x); }
uint64_t ic_vm_namelim(Machine& m, const std::string& n, uint64_t x) { return m.vmcall<uint64_t, 12345>(n, x); }
void ic_timed(Machine& m, address_t a, uint64_t max, uint64_t x) { m.timed_vmcall(a, max, x); }
uint64_t ic_pre(Machine& m, uint64_t max, address_t a, uint64_t x) { return m.preempt(max, a, x); }
uint64_t ic_pre_tt(Machine& m, uint64_t max, address_t a, uint64_t x) { return m.preempt<true, true>(max, a, x); }
uint64_t ic_pre_tf(Machine& m, uint64_t max, address_t a, uint64_t x) { return m.preempt<true, false>(max, a, x); }
uint64_t ic_pre_ft(Machine& m, uint64_t max, address_t a, uint64_t x) { return m.preempt<false, true>(max, a, x); }
uint64_t ic_pre_ff(Machine& m, uint64_t max, address_t a, uint64_t x) { return m.preempt<false, false>(max, a, x); }
uint64_t ic_pre_name(Machine& m, uint64_t max, const std::string& n, uint64_t x) { return m.preempt<true, true>(max, n, x); }
// results and arguments of system calls
void ic_res_i8(Machine& m, int8_t v) { m.set_result(v); } void ic_res_u8(Machine& m, uint8_t v) { m.set_result(v); } void ic_res_i16(Machine& m, int16_t v) { m.set_result(v); } void ic_res_u16(Machine& m, uint16_t v) { m.set_result(v); }
void ic_res_i32(Machine& m, int32_t v) { m.set_result(v); } void ic_res_u32(Machine& m, uint32_t v) { m.set_result(v); } void ic_res_i64(Machine& m, int64_t v) { m.set_result(v); } void ic_res_u64(Machine& m, uint64_t v) { m.set_result(v); }
void ic_res_bool(Machine& m, bool v) { m.set_result(v); } void ic_res_float(Machine& m, float v) { m.set_result(v); } void ic_res_double(Machine& m, double v) { m.set_result(v); }
int32_t ic_ret_i32(const Machine& m) { return m.return_value<int32_t>(); } uint64_t ic_ret_u64(const Machine& m) { return m.return_value<uint64_t>(); } uint8_t ic_ret_u8(const Machine& m) { return m.return_value<uint8_t>(); } bool ic_ret_bool(const Machine& m) { return m.return_value<bool>(); } float ic_ret_float(const Machine& m) { return m.return_value<float>(); } double ic_ret_double(const Machine& m) { return m.return_value<double>(); }
struct Out8 { uint64_t a; int32_t b; uint16_t c; int8_t d; uint8_t e; uint64_t f; int64_t g; uint32_t h; };
void ic_args_ints(const Machine& m, Out8& o) { auto [a, b, c, d, e, f, g, h] = m.sysargs<uint64_t, int32_t, uint16_t, int8_t, uint8_t, uint64_t, int64_t, uint32_t>(); o = {a, b, c, d, e, f, g, h}; }
struct OutF { float a; uint64_t b; double c; E8 d; double e; float f; };
void ic_args_floats(const Machine& m, OutF& o) { auto [a, b, c, d, e, f] = m.sysargs<float, uint64_t, double, E8, double, float>(); o = {a, b, c, d, e, f}; }
struct OutV { uint64_t z; std::string_view a; uint64_t b; const uint64_t* c; int d; };
void ic_args_views(const Machine& m, OutV& o) { auto [z, a, b, c, d] = m.sysargs<uint64_t, std::string_view, uint64_t, uint64_t*, int>(); o = {z, a, b, c, d}; }
struct OutS { uint64_t z; S40 a; uint64_t b; S16 c; };
void ic_args_structs(const Machine& m, OutS& o) { auto [z, a, b, c] = m.sysargs<uint64_t, S40, uint64_t, S16>(); o = {z, a, b, c}; }
uint64_t ic_args_string(const Machine& m, std::string& s) { auto [s1, n] = m.sysargs<std::string, uint64_t>(); s = std::move(s1); return n; }
uint64_t ic_arg_i(const Machine& m) { return m.sysarg<uint64_t>(3); } int ic_arg_int(const Machine& m) { return m.sysarg<int>(7); } float ic_arg_f(const Machine& m) { return m.sysarg<float>(2); } double ic_arg_d(const Machine& m) { return m.sysarg<double>(5); }
}
