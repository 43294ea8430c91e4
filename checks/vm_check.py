"""E05: calling guest functions from the host; E07: arguments and results of system calls."""
from irv.fnv import *
from irv.loops import per_index
SRCS = ['machine.cpp', ('%s/harness/inst_call.cpp' % build.HERE, 'instcall')]
SP, RA, A0 = 3, 1, 4
CTG = r'^loongarch::Memory::copy_to_guest\('
def ctx(mods): return Ctx(mods)
def exact(c, name, args, st=None): return c.ex.call(name, args, (st or c.st).copy())
def reg(c, st, i): return c.w.reg(st, z3.BitVecVal(i, 5))
def fr(c, st, j): return T.extract(63, 0, c.w.vreg(st, z3.BitVecVal(j, 5)))
def al(n): return (n + 15) & ~15 if isint(n) else (n + 15) & ~T.bv(15, 64)
def u1(v): return T.b2bv(v, 1) if isinstance(v, z3.BoolRef) else v

def copying(c):
    """contract of Memory::copy_to_guest (property M01): moves the bytes, or faults without effect"""
    def f(ex, st, a, ins, name):
        c.ob(st, int(isinstance(a[0], Ptr) and a[0].r is c.w.machine) and T.eq(a[0].off, c.L['memory'], 64), 'pushes go to the memory of this machine')
        need_read(ex, st, a[2], a[3], 'copy_to_guest')
        bad = st.copy(); st.ghost = dict(st.ghost); k = st.ghost.get(('npush',), 0); st.ghost[('npush',)] = k + 1; st.ghost[('push', k)] = Rec((a[1], a[2], a[3])); st.mem[c.w.arena.id] = z3.Array(T.fresh_name('arena'), z3.BitVecSort(64), z3.BitVecSort(8))
        return [Out('ret', st, None), Out('throw', bad, (MEXC, EXC['PROTECTION_FAULT'], a[1]))]
    c.on(CTG, f)
def pushes(st): return [st.ghost[('push', k)] for k in range(st.ghost.get(('npush',), 0))]

def u_push(mods):
    c = ctx(mods); copying(c); n = c.sym('n'); c.st.assume(z3.ULT(n, 1 << 62)); buf = c.bytes('data', n); cell = c.obj('sp', 8); sp = c.sym('sp'); c.ex.write(c.st, Ptr(cell, 0), sp, 8)
    for o in exact(c, c.fn('loongarch::Machine::stack_push('), [c.m, Ptr(cell, 0), Ptr(buf, 0), n]):
        new = sp - al(n)
        if o.kind == 'throw': c.ob(o.st, c.is_exc(o, 'PROTECTION_FAULT', new), 'push: fault at the new top'); continue
        c.ob(o.st, T.eq(o.val, new, 64), 'push: returns the address'); c.ob(o.st, T.eq(c.ex.read(o.st, Ptr(cell, 0), 8), new, 64), 'push: stack pointer, kept aligned'); ps = pushes(o.st); c.ob(o.st, int(len(ps) == 1), 'push: one copy')
        for a, p, k in ps: c.ob(o.st, T.land(T.eq(a, new, 64), int(isinstance(p, Ptr) and p.r is buf) and T.eq(p.off, 0, 64), T.eq(k, n, 64)), 'push: the bytes given')
        c.frame(o.st, [])
    return c

class Arg: pass
def setup(mods, fn, args):
    """args: list of (kind, width...) as passed to the wrapper; ('int', w, signed) ('f', 32|64) ('cstr',) ('str',) ('struct', n)"""
    c = ctx(mods); copying(c); e = c.sym('exit'); actual = []; ints = []; fls = []; want = []
    for k, a in enumerate(args):
        nm = 'a%d' % k
        if a[0] == 'int':
            v = c.sym(nm, a[1]) if a[1] > 1 else z3.Bool(nm); actual.append(v)
            x = T.zext(T.b2bv(v, 1), 1, 64) if a[1] == 1 else v if a[1] == 64 else T.sext(v, 32, 64) if a[1] == 32 else (T.sext if a[2] else T.zext)(v, a[1], 64)
            ints.append(('v', x))
        elif a[0] == 'f': v = c.sym(nm, a[1]); actual.append(v); fls.append((v, a[1]))
        elif a[0] == 'struct': r = c.obj(nm, a[1]); actual.append(Ptr(r, 0)); ints.append(('p', len(want))); want.append((r, a[1]))
        elif a[0] == 'cstr':
            n = c.sym(nm + '_len'); c.st.assume(z3.ULT(n, 1 << 40)); r = c.bytes(nm, n + 1); actual.append(Ptr(r, 0)); ints.append(('p', len(want))); want.append((r, n + 1)); r.slen = n
        elif a[0] == 'str':
            n = c.sym(nm + '_len'); c.st.assume(z3.ULT(n, 1 << 40)); r = c.bytes(nm, n + 1); s = c.obj(nm + '_string', 32, {0: (Ptr(r, 0), 8), 8: (n, 8)}); actual.append(Ptr(s, 0)); ints.append(('p', len(want))); want.append((r, n + 1))
    def strlen(ex, st, a, ins, name):
        if not isinstance(a[0], Ptr) or not hasattr(a[0].r, 'slen'): raise Unsupported('strlen')
        c.ob(st, T.eq(a[0].off, 0, 64), 'length of the string'); return [Out('ret', st, a[0].r.slen)]
    c.ex.contracts['strlen'] = strlen; sp0 = reg(c, c.st, SP); live = 0
    for o in exact(c, fn, [c.m, e] + actual):
        ps = pushes(o.st); top = sp0; addr = []
        for k, (a, p, n) in enumerate(ps):
            if k >= len(want): break
            top = T.sub(top, al(want[k][1]), 64); addr.append(top)
            c.ob(o.st, T.land(T.eq(a, top, 64), int(isinstance(p, Ptr) and p.r is want[k][0]) and T.eq(p.off, 0, 64), T.eq(n, want[k][1], 64)), 'argument on the stack: bytes and place')
        if o.kind == 'throw': c.ob(o.st, T.land(c.is_exc(o, 'PROTECTION_FAULT'), T.eq(o.val[2], T.sub(top, al(want[len(ps)][1]), 64), 64) if len(ps) < len(want) else 0), 'fault: only when the stack has no room'); continue
        live += 1; c.ob(o.st, int(len(ps) == len(want)), 'arguments on the stack: all of them, once'); w = c.w
        c.ob(o.st, T.eq(reg(c, o.st, SP), T.band(top, ~15 & T.mask(64), 64), 64), 'stack pointer: below the arguments, 16-aligned'); c.ob(o.st, T.eq(reg(c, o.st, RA), e, 64), 'return address: the exit address')
        for i, (t, x) in enumerate(ints):
            v = x if t == 'v' else addr[x] if x < len(addr) else None
            if v is not None: c.ob(o.st, T.eq(reg(c, o.st, A0 + i), v, 64), 'integer argument %d' % i)
        for j, (v, n) in enumerate(fls): c.ob(o.st, T.eq(T.extract(n - 1, 0, w.vreg(o.st, z3.BitVecVal(j, 5))), v, n), 'floating-point argument %d' % j)
        q = z3.BitVec('q5', 5); used = [SP, RA] + [A0 + i for i in range(len(ints))]
        c.ob(o.st, z3.Or(*[q == u for u in used], T.zb(T.eq(w.reg(o.st, q), w.reg(c.st, q), 64))), 'other registers unchanged'); c.ob(o.st, z3.Or(*[q == j for j in range(len(fls))], T.zb(T.eq(w.vreg(o.st, q), w.vreg(c.st, q), 256))), 'other vector registers unchanged'); c.frame(o.st, [], regs=False)
    c.ob(c.st, int(live > 0), 'can succeed'); return c
I = lambda w, s=1: ('int', w, s)
SETUP = [('ic_none', []), ('ic_ints', [I(32), I(32, 0), I(64), I(64, 0), I(8), I(8, 0), I(16), I(16, 0)]), ('ic_bool', [I(1), I(8), I(64)]), ('ic_enums', [I(32, 0), I(8), I(64, 0), I(32, 0)]),
         ('ic_floats', [('f', 32), I(32), ('f', 64), ('f', 64), ('f', 32), I(64), ('f', 64), ('f', 64), ('f', 64), ('f', 32)]), ('ic_cstr', [('cstr',), I(32)]), ('ic_str', [('str',), I(64)]), ('ic_struct', [('struct', 16), I(32), ('struct', 40), ('struct', 3)]), ('ic_mix', [('f', 64), ('str',), ('struct', 40), I(32), ('cstr',)])]

# ---------------------------------------------------------------- running the guest
LIM = 12345
def running(c, want):
    """contract of the dispatchers: anything the guest can do, or an exception; want(c, st, kind, args) gives the obligations at entry"""
    w, L = c.w, c.L; c.R1 = z3.Array('regs_after', z3.BitVecSort(5), z3.BitVecSort(64)); c.V1 = z3.Array('vr_after', z3.BitVecSort(5), z3.BitVecSort(8 * w.vr.stride)); c.A1 = z3.Array('arena_after', z3.BitVecSort(64), z3.BitVecSort(8)); c.done = z3.Bool('completed'); c.after = {}
    def f(kind):
        def g(ex, st, a, ins, name):
            c.ob(st, int(('ran',) not in st.ghost), 'the guest runs once'); c.ob(st, int(isinstance(a[0], Ptr) and a[0].r is w.machine), 'this machine runs'); want(c, st, kind, a[1:])
            m = ex.content(st, w.machine).copy(); m.segs = dict(m.segs); m.segs['regs'] = ((None, z3.Store(c.R1, z3.BitVecVal(0, 5), z3.BitVecVal(0, 64))),); m.segs['vr'] = ((None, c.V1),); st.mem[w.machine.id] = m; st.mem[w.arena.id] = c.A1
            for nm, n in (('pc', 8), ('m_counter', 8), ('m_max', 8), ('fcc', 1), ('fcsr', 4), ('ll_bit', 1)): v = c.after[nm] = z3.BitVec(nm + '_after', 8 * n); ex.write(st, Ptr(w.machine, L[nm]), v, n)
            st.ghost = dict(st.ghost); st.ghost[('ran',)] = 1; bad = st.copy()
            return [Out('ret', st, c.done if kind == 'counted' else None), Out('throw', bad, ('guest',))]
        return g
    c.on(r'^loongarch::CPU::simulate_inaccurate\(', f('uncounted')); c.on(r'^loongarch::CPU::simulate\(unsigned long, unsigned long, unsigned long\)', f('counted'))
def entered(c, st, fn, x, sp, what, saved=False):
    """the guest starts at the function with the argument, the exit address and the stack"""
    w = c.w; q = z3.BitVec('q5', 5)
    c.ob(st, T.eq(c.field(st, 'pc'), fn, 64), what + ': program counter at the function'); c.ob(st, T.eq(reg(c, st, A0), x, 64), what + ': argument'); c.ob(st, T.eq(reg(c, st, RA), c.memfield(c.st, 'mem.exit'), 64), what + ': returns to the exit address'); c.ob(st, T.eq(reg(c, st, SP), T.band(sp, ~15 & T.mask(64), 64), 64), what + ': stack')
    c.ob(st, z3.Or(*[q == u for u in (SP, RA, A0)], T.zb(T.eq(w.reg(st, q), w.reg(c.st, q), 64))), what + ': other registers'); c.ob(st, int(c.arena(st) is c.arena(c.st) or c.arena(st).eq(c.arena(c.st))), what + ': memory unchanged'); c.frame(st, [(c.L['pc'], 8)], regs=False)
def kept(c, st, allow=()):
    """after the run: the state is what the guest left"""
    w = c.w; q = z3.BitVec('q5', 5)
    c.ob(st, z3.Or(*[q == u for u in allow], T.zb(T.eq(w.reg(st, q), z3.If(q == 0, z3.BitVecVal(0, 64), z3.Select(c.R1, q)), 64))), 'registers as the guest left them'); c.ob(st, T.eq(w.vreg(st, q), z3.Select(c.V1, q), 256), 'vector registers as the guest left them'); c.ob(st, int(c.arena(st).eq(c.A1)), 'memory as the guest left it')
    for nm, v in c.after.items(): c.ob(st, T.eq(c.field(st, nm, v.size() // 8), v, v.size()), nm + ' as the guest left it')
def a0(c): return z3.Select(c.R1, z3.BitVecVal(A0, 5))
def vr0(c): return z3.Select(c.V1, z3.BitVecVal(0, 5))
def addr_of(c, name_obj, found):
    def f(ex, st, a, ins, name): c.ob(st, int(isinstance(a[1], Ptr) and a[1].r is name_obj and isinstance(a[0], Ptr) and a[0].r is c.w.machine), 'looks up the name given'); return [Out('ret', st, found)]
    c.on(r'^loongarch::Machine::address_of\(', f)

def vmcall(mods, fn, ret, limited=False, byname=False):
    c = ctx(mods); x = c.sym('x'); fa = c.sym('func'); arg = fa
    if byname: nm = c.obj('name', 32); addr_of(c, nm, fa); arg = Ptr(nm, 0)
    def want(c, st, kind, a):
        c.ob(st, int(kind == ('counted' if limited else 'uncounted')), 'vmcall: engine'); c.ob(st, T.eq(a[0], fa, 64), 'vmcall: starts at the function')
        if limited and kind == 'counted': c.ob(st, T.land(T.eq(a[1], 0, 64), T.eq(a[2], LIM, 64)), 'vmcall: counts from zero to the limit')
        entered(c, st, fa, x, c.memfield(c.st, 'mem.stack'), 'vmcall')
    running(c, want); seen = {}
    for o in exact(c, fn, [c.m, arg, x]):
        st = o.st
        if o.kind == 'throw':
            if o.val == ('guest',): seen['guest'] = 1; c.ob(st, int(('ran',) in st.ghost), 'vmcall: exceptions of the guest'); kept(c, st); continue
            if ('ran',) in st.ghost: seen['timeout'] = 1; c.ob(st, c.is_exc(o, 'MACHINE_TIMEOUT', fa), 'vmcall: timeout'); c.ob(st, T.land(int(limited), T.lnot(c.done)), 'vmcall: timeout only at the limit'); kept(c, st)
            else: seen['none'] = 1; c.ob(st, T.land(int(byname), T.eq(fa, 0, 64)), 'vmcall: refused only when there is no such function'); c.ob(st, c.is_exc(o, 'INVALID_PROGRAM'), 'vmcall: exception without a function'); c.frame(st, [])
            continue
        seen['ret'] = 1; c.ob(st, int(('ran',) in st.ghost), 'vmcall: runs the guest'); kept(c, st)
        if limited: c.ob(st, c.done, 'vmcall: returns only a completed call')
        if byname: c.ob(st, T.lnot(T.eq(fa, 0, 64)), 'vmcall: the function exists')
        v = u1(o.val); exp = {'u64': lambda: a0(c), 'i32': lambda: T.extract(31, 0, a0(c)), 'u8': lambda: T.extract(7, 0, a0(c)), 'bool': lambda: T.b2bv(a0(c) != 0, 1), 'f': lambda: T.extract(31, 0, vr0(c)), 'd': lambda: T.extract(63, 0, vr0(c))}
        if ret: c.ob(st, T.eq(v, exp[ret](), {'u64': 64, 'i32': 32, 'u8': 8, 'bool': 1, 'f': 32, 'd': 64}[ret]), 'vmcall: result')
    c.ob(c.st, int(set(seen) == {'ret', 'guest'} | ({'timeout'} if limited else set()) | ({'none'} if byname else set())), 'vmcall: every outcome is possible'); return c
VM = [('ic_vm_u64', 'u64'), ('ic_vm_int', 'i32'), ('ic_vm_bool', 'bool'), ('ic_vm_u8', 'u8'), ('ic_vm_void', None), ('ic_vm_float', 'f'), ('ic_vm_double', 'd'), ('ic_vm_lim', 'u64', True), ('ic_vm_limd', 'd', True), ('ic_vm_name', 'u64', False, True), ('ic_vm_namelim', 'u64', True, True)]

def u_timed(mods):
    c = ctx(mods); x, mx, fa = c.sym('x'), c.sym('max'), c.sym('func')
    def want(c, st, kind, a): c.ob(st, int(kind == 'counted') and T.land(T.eq(a[0], fa, 64), T.eq(a[1], 0, 64), T.eq(a[2], mx, 64)), 'timed: counts from zero to the limit'); entered(c, st, fa, x, c.memfield(c.st, 'mem.stack'), 'timed')
    running(c, want); seen = {}
    for o in exact(c, 'ic_timed', [c.m, fa, mx, x]):
        kept(c, o.st)
        if o.kind == 'ret': seen['ret'] = 1; c.ob(o.st, c.done, 'timed: returns only a completed call')
        elif o.val == ('guest',): seen['guest'] = 1
        else: seen['timeout'] = 1; c.ob(o.st, T.land(c.is_exc(o, 'MACHINE_TIMEOUT', fa), T.lnot(c.done)), 'timed: timeout exactly at the limit')
    c.ob(c.st, int(len(seen) == 3), 'timed: every outcome is possible'); return c

def preempt(mods, fn, thr, store, byname=False):
    c = ctx(mods); x, mx, fa = c.sym('x'), c.sym('max'), c.sym('func'); arg = fa; w = c.w
    if byname: nm = c.obj('name', 32); addr_of(c, nm, fa); arg = Ptr(nm, 0)
    def want(c, st, kind, a):
        c.ob(st, int(kind == 'counted') and T.land(T.eq(a[0], fa, 64), T.eq(a[1], 0, 64), T.eq(a[2], mx, 64)), 'preempt: counts from zero to the limit'); entered(c, st, fa, x, T.sub(reg(c, c.st, SP), 16, 64), 'preempt')
    running(c, want); seen = {}
    def back(st, ret):
        """registers, counter and limit of the interrupted program"""
        q = z3.BitVec('q5', 5); L = c.L
        c.ob(st, z3.Or(T.zb(T.land(int(ret), T.eq(q, A0, 5))), T.zb(T.eq(w.reg(st, q), w.reg(c.st, q), 64))), 'preempt: registers restored'); c.ob(st, T.eq(w.vreg(st, q), w.vreg(c.st, q), 256), 'preempt: vector registers restored')
        for nm, n in (('pc', 8), ('fcc', 1), ('fcsr', 4), ('m_counter', 8), ('m_max', 8)): c.ob(st, T.eq(c.field(st, nm, n), c.field(c.st, nm, n), 8 * n), 'preempt: %s restored' % nm)
        c.ob(st, int(c.arena(st).eq(c.A1)), 'preempt: memory as the guest left it'); c.frame(st, [(L['ll_bit'], 1), (L['regs'] - 8, L['fcc'] + 1 - L['regs'] + 8), (L['m_counter'], 8), (L['m_max'], 8)], regs=False)
    for o in exact(c, fn, [c.m, mx, arg, x]):
        st = o.st
        if o.kind == 'throw' and ('ran',) not in st.ghost: seen['none'] = 1; c.ob(st, T.land(int(byname), T.eq(fa, 0, 64), c.is_exc(o, 'INVALID_PROGRAM')), 'preempt: refused only when there is no such function'); c.frame(st, []); continue
        if store: back(st, o.kind == 'ret')
        else: kept(c, st)
        if o.kind == 'throw':
            if o.val == ('guest',): seen['guest'] = 1; continue
            seen['timeout'] = 1; c.ob(st, T.land(int(thr), c.is_exc(o, 'MACHINE_TIMEOUT', fa), T.lnot(c.done)), 'preempt: timeout exactly at the limit'); continue
        seen['ret'] = 1; c.ob(st, T.eq(o.val, a0(c), 64), 'preempt: result'); c.ob(st, T.eq(reg(c, st, A0), a0(c), 64), 'preempt: result in A0')
        if thr: c.ob(st, c.done, 'preempt: returns only a completed call')
    c.ob(c.st, int(set(seen) == {'ret', 'guest'} | ({'timeout'} if thr else set()) | ({'none'} if byname else set())), 'preempt: every outcome is possible'); return c
PRE = [('ic_pre', True, False), ('ic_pre_tt', True, True), ('ic_pre_tf', True, False), ('ic_pre_ft', False, True), ('ic_pre_ff', False, False), ('ic_pre_name', True, True, True)]

# ---------------------------------------------------------------- E07: results and arguments of system calls
def widen(v, w, s): return T.zext(u1(v), 1, 64) if w == 1 else v if w == 64 else T.sext(v, 32, 64) if w == 32 else (T.sext if s else T.zext)(v, w, 64)
def u_results(mods):
    cs = []
    for nm, w, s in (('i8', 8, 1), ('u8', 8, 0), ('i16', 16, 1), ('u16', 16, 0), ('i32', 32, 1), ('u32', 32, 0), ('i64', 64, 1), ('u64', 64, 0), ('bool', 1, 0), ('float', 32, 'f'), ('double', 64, 'f')):
        c = ctx(mods); v = c.sym('v', w) if w > 1 else z3.Bool('v'); q = z3.BitVec('q5', 5); W = c.w
        for o in exact(c, 'ic_res_' + nm, [c.m, v]):
            st = o.st; c.ob(st, int(o.kind == 'ret'), 'result %s: never throws' % nm)
            if s == 'f': c.ob(st, T.eq(T.extract(w - 1, 0, W.vreg(st, z3.BitVecVal(0, 5))), v, w), 'result %s: FA0' % nm)
            else: c.ob(st, T.eq(reg(c, st, A0), widen(v, w, s), 64), 'result %s: A0' % nm)
            c.ob(st, z3.Or(T.zb(int(s != 'f')) if s == 'f' else q == A0, T.zb(T.eq(W.reg(st, q), W.reg(c.st, q), 64))), 'result %s: other registers' % nm); c.ob(st, z3.Or(T.zb(T.land(int(s == 'f'), T.eq(q, 0, 5))), T.zb(T.eq(W.vreg(st, q), W.vreg(c.st, q), 256))), 'result %s: other vector registers' % nm)
            c.frame(st, [], regs=False); c.ob(st, int(c.arena(st) is c.arena(c.st) or c.arena(st).eq(c.arena(c.st))), 'result: memory')
        cs.append(c)
    return cs
def u_returns(mods):
    cs = []
    for nm, f, w in (('ret_i32', lambda c: T.extract(31, 0, reg(c, c.st, 4)), 32), ('ret_u64', lambda c: reg(c, c.st, 4), 64), ('ret_u8', lambda c: T.extract(7, 0, reg(c, c.st, 4)), 8), ('ret_bool', lambda c: T.b2bv(T.lnot(T.eq(reg(c, c.st, 4), 0, 64)), 1), 1), ('ret_float', lambda c: T.extract(31, 0, fr(c, c.st, 0)), 32), ('ret_double', lambda c: fr(c, c.st, 0), 64),
                     ('arg_i', lambda c: reg(c, c.st, 7), 64), ('arg_int', lambda c: T.extract(31, 0, reg(c, c.st, 11)), 32), ('arg_f', lambda c: T.extract(31, 0, fr(c, c.st, 2)), 32), ('arg_d', lambda c: fr(c, c.st, 5), 64)):
        c = ctx(mods)
        for o in exact(c, 'ic_' + nm, [c.m]):
            c.ob(o.st, int(o.kind == 'ret') and T.eq(u1(o.val), f(c), w), nm); c.frame(o.st, [])
        cs.append(c)
    return cs
def outs(c, nm, size):
    r = c.obj('out', size); 
    for o in exact(c, nm, [c.m, Ptr(r, 0)]): yield o, lambda off, n, o=o: c.ex.read(o.st, Ptr(r, off), n)
def u_ints(mods):
    c = ctx(mods); n = 0
    for o, g in outs(c, 'ic_args_ints', 48):
        n += 1; c.ob(o.st, int(o.kind == 'ret'), 'integers: never throws'); off = 0
        for i, (at, k) in enumerate(((0, 8), (8, 4), (12, 2), (14, 1), (15, 1), (16, 8), (24, 8), (32, 4))): c.ob(o.st, T.eq(g(at, k), T.extract(8 * k - 1, 0, reg(c, c.st, A0 + i)), 8 * k), 'integer argument %d' % i)
        c.frame(o.st, [])
    c.ob(c.st, int(n > 0), 'returns'); return c
def u_floats(mods):
    c = ctx(mods); n = 0
    for o, g in outs(c, 'ic_args_floats', 48):
        n += 1; c.ob(o.st, int(o.kind == 'ret'), 'floats: never throws')
        for at, k, v in ((0, 4, T.extract(31, 0, fr(c, c.st, 0))), (8, 8, reg(c, c.st, 4)), (16, 8, fr(c, c.st, 1)), (24, 1, T.extract(7, 0, reg(c, c.st, 5))), (32, 8, fr(c, c.st, 2)), (40, 4, T.extract(31, 0, fr(c, c.st, 3)))): c.ob(o.st, T.eq(g(at, k), v, 8 * k), 'argument at %d' % at)
        c.frame(o.st, [])
    c.ob(c.st, int(n > 0), 'returns'); return c
def fault(c, a, st): return ('throw', st, (MEXC, EXC['PROTECTION_FAULT'], a))
def u_views(mods):
    """string views take two registers; pointers are checked (contracts of memview and memarray: M01)"""
    c = ctx(mods); seen = set(); vb = c.bytes('view', c.sym('viewlen')); pa = c.bytes('array', 8)
    def mv(ex, st, a, ins, name):
        ok = len(a) >= 3; p = a[-3:] if isinstance(a[-3], Ptr) and a[-3].r is c.w.machine else a[-3:]
        c.ob(st, T.land(T.eq(a[1], reg(c, c.st, 5), 64), T.eq(a[2], reg(c, c.st, 6), 64)), 'view: address and length registers'); bad = st.copy(); return [Out('ret', st, [a[2], Ptr(vb, 0)]), Out('throw', bad, (MEXC, EXC['PROTECTION_FAULT'], a[1]))]
    def ma(ex, st, a, ins, name):
        c.ob(st, T.land(T.eq(a[1], reg(c, c.st, 8), 64), T.eq(a[2], 1, 64)), 'pointer: one element at the register'); bad = st.copy(); return [Out('ret', st, Ptr(pa, 0)), Out('throw', bad, (MEXC, EXC['PROTECTION_FAULT'], a[1]))]
    c.on(r'^loongarch::Memory::memview\(', mv); c.on(r' loongarch::Memory::memarray<unsigned long>\(', ma)
    for o, g in outs(c, 'ic_args_views', 48):
        c.frame(o.st, [])
        if o.kind == 'throw': seen.add('fault'); c.ob(o.st, c.is_exc(o, 'PROTECTION_FAULT'), 'views: only faults of the accesses'); continue
        seen.add('ret'); c.ob(o.st, T.eq(g(0, 8), reg(c, c.st, 4), 64), 'first argument'); c.ob(o.st, T.eq(g(8, 8), reg(c, c.st, 6), 64), 'view: length'); v = g(16, 8); c.ob(o.st, int(isinstance(v, Ptr) and v.r is vb), 'view: data'); c.ob(o.st, T.eq(g(24, 8), reg(c, c.st, 7), 64), 'argument behind a view'); p = g(32, 8); c.ob(o.st, int(isinstance(p, Ptr) and p.r is pa), 'pointer'); c.ob(o.st, T.eq(g(40, 4), T.extract(31, 0, reg(c, c.st, 9)), 32), 'last argument')
    c.ob(c.st, int(seen == {'ret', 'fault'}), 'views: both outcomes'); return c
def u_structs(mods):
    c = ctx(mods); seen = set(); data = {}
    def cf(ex, st, a, ins, name):
        n = a[3]; k = st.ghost.get(('n',), 0); st.ghost = dict(st.ghost); st.ghost[('n',)] = k + 1; c.ob(st, int(k < 2) and T.land(T.eq(a[2], reg(c, c.st, (5, 7)[min(k, 1)]), 64), T.eq(n, (40, 16)[min(k, 1)], 64)), 'struct: copied from its register'); bad = st.copy()
        for i in range(0, n, 8): ex.write(st, ptr_add(a[1], i), data.setdefault((k, i), z3.BitVec('struct%d_%d' % (k, i), 64)), 8)
        return [Out('ret', st, None), Out('throw', bad, (MEXC, EXC['PROTECTION_FAULT'], a[2]))]
    c.on(r'^loongarch::Memory::copy_from_guest\(', cf)
    for o, g in outs(c, 'ic_args_structs', 72):
        c.frame(o.st, [])
        if o.kind == 'throw': seen.add('fault'); c.ob(o.st, c.is_exc(o, 'PROTECTION_FAULT'), 'structs: only faults of the copies'); continue
        seen.add('ret'); c.ob(o.st, T.eq(g(0, 8), reg(c, c.st, 4), 64), 'first argument'); c.ob(o.st, T.eq(g(48, 8), reg(c, c.st, 6), 64), 'argument behind a struct')
        for i in range(0, 40, 8): c.ob(o.st, T.eq(g(8 + i, 8), data[0, i], 64), 'struct: contents')
        c.ob(o.st, T.eq(g(56, 8), data[1, 0], 64), 'struct: contents'); c.ob(o.st, T.eq(g(64, 5), T.extract(39, 0, data[1, 8]), 40), 'struct: contents')
    c.ob(c.st, int(seen == {'ret', 'fault'}), 'structs: both outcomes'); return c
def u_string(mods):
    """std::string arguments: the string read from guest memory (contract of memstring: M01), moved to the caller"""
    cs = []
    for local in (False,):      # short strings are copied by the library code: native unit only
        c = ctx(mods); seen = set(); n = c.sym('len'); c.st.assume(T.zb(T.ule(n, 15, 64)) if local else z3.And(z3.UGT(n, 15), z3.ULT(n, 1 << 30))); heap = c.bytes('chars', n + 1); lo, hi = z3.BitVec('chars0', 64), z3.BitVec('chars1', 64)
        out = c.obj('out', 32); c.ex.write(c.st, Ptr(out, 0), Ptr(out, 16), 8); c.ex.write(c.st, Ptr(out, 8), 0, 8); c.ex.write(c.st, Ptr(out, 16), 0, 1)
        def ms(ex, st, a, ins, name):
            c.ob(st, T.eq(a[2], reg(c, c.st, 4), 64), 'string: address register'); bad = st.copy(); s = a[0]
            if local: ex.write(st, s, ptr_add(s, 16), 8); ex.write(st, ptr_add(s, 16), lo, 8); ex.write(st, ptr_add(s, 24), hi, 8)
            else: ex.write(st, s, Ptr(heap, 0), 8); ex.write(st, ptr_add(s, 16), n, 8)
            ex.write(st, ptr_add(s, 8), n, 8); return [Out('ret', st, None), Out('throw', bad, (MEXC, EXC['PROTECTION_FAULT'], a[2]))]
        c.on(r'^loongarch::Memory::memstring\[?', ms)
        for o in exact(c, 'ic_args_string', [c.m, Ptr(out, 0)]):
            c.frame(o.st, [])
            if o.kind == 'throw': seen.add('fault'); c.ob(o.st, c.is_exc(o, 'PROTECTION_FAULT', reg(c, c.st, 4)), 'string: only faults of the access'); continue
            seen.add('ret'); c.ob(o.st, T.eq(o.val, reg(c, c.st, 5), 64), 'argument behind a string'); c.ob(o.st, T.eq(c.ex.read(o.st, Ptr(out, 8), 8), n, 64), 'string: length'); p = c.ex.read(o.st, Ptr(out, 0), 8)
            if not local: c.ob(o.st, int(isinstance(p, Ptr) and p.r is heap), 'string: characters')
            else:
                c.ob(o.st, int(isinstance(p, Ptr) and p.r is out) and T.eq(p.off, 16, 64), 'string: in place'); k = z3.BitVec('k', 64); ch = c.ex.read(o.st, Ptr(out, 16), 8), c.ex.read(o.st, Ptr(out, 24), 8)
        c.ob(c.st, int(seen == {'ret', 'fault'}), 'string: both outcomes'); cs.append(c)
    return cs

def run(rep):
    rep.assumptions += ['templates of the calling interface are verified for the argument lists of harness/inst_call.cpp (every kind of argument, alone and mixed, up to eight registers of each class)', 'Memory::copy_to_guest and Machine::address_of by their contracts (properties M01 and L02)', 'the run of the guest by the contract of the dispatchers (properties E01, I01-I08)']
    us = [('Machine::stack_push', u_push, Native('push', 1500))]
    for f, a in SETUP: us.append(('setup_call ' + f, (lambda f, a: lambda m: setup(m, f, a))(f, a), Native('setup', 1500)))
    for t in VM: us.append(('vmcall ' + t[0], (lambda t: lambda m: vmcall(m, *t))(t), Native('names' if len(t) > 3 else 'vmcall', 1500)))
    us.append(('timed_vmcall', u_timed, Native('timed', 1500)))
    for t in PRE: us.append(('preempt ' + t[0], (lambda t: lambda m: preempt(m, *t))(t), Native('preempt', 1500)))
    run_units(rep, us, SRCS, harness='api_vm')
def run7(rep):
    rep.assumptions += ['templates of the argument and result interface are verified for the type lists of harness/inst_call.cpp', 'Memory::memview, memarray, memstring and copy_from_guest by their contracts (property M01)', 'std::string arguments: strings longer than the in-place buffer; short ones by the native unit (bounded)']
    run_units(rep, [(n, f, Native(u, 1500)) for n, f, u in (('set_result', u_results, 'results'), ('return_value', u_returns, 'results'), ('sysargs integers', u_ints, 'args'), ('sysargs floats', u_floats, 'args'), ('sysargs views', u_views, 'args'), ('sysargs structs', u_structs, 'args'), ('sysargs string', u_string, 'args'))], SRCS, harness='api_vm')
