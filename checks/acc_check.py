"""A01: accelerated memory and string functions."""
from irv.fnv import *
from mm_check import regs_only
from sys_check import installed, K, A0, B64, PR
SRCS = ['machine_accelerate.cpp', 'memory.cpp', 'memory_rw.cpp', 'machine.cpp', 'cpu.cpp']
STR = r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::'
NAMES = {508: ('memcpy', ['lsx', 'lasx', 'aligned', 'unaligned']), 509: ('memset', ['lsx', 'lasx', 'aligned', 'unaligned']), 510: ('memcmp', ['lsx', 'lasx', 'aligned']), 511: ('memmove', ['lsx', 'lasx', 'aligned', 'unaligned']), 507: ('memchr', ['lsx', 'lasx', 'aligned']),
         500: ('strlen', ['lsx', 'lasx', 'aligned']), 501: ('strnlen', ['lsx', 'lasx', 'aligned']), 502: ('strcmp', ['lsx', 'lasx', 'aligned']), 503: ('strncmp', ['lsx', 'lasx', 'aligned'])}

def literal(ex, st, p):
    b = b''
    for i in range(200):
        x = ex.read(st, ptr_add(p, i), 1)
        if not isint(x): raise Unsupported('literal')
        if x == 0: return b.decode()
        b += bytes([x])
    raise Unsupported('literal')
def lists(c):
    """std::string and std::vector<std::string> of literals, by contract"""
    def string(ex, st, a, ins, name): st.ghost = dict(st.ghost); st.ghost[('str', a[0].r.id, a[0].off)] = literal(ex, st, a[1]); return [Out('ret', st, None)]
    def vector(ex, st, a, ins, name):
        n = a[2]; st.ghost = dict(st.ghost); st.ghost[('vec', a[0].r.id)] = tuple(st.ghost[('str', a[1].r.id, a[1].off + 32 * i)] for i in range(n)); return [Out('ret', st, None)]
    def patch(ex, st, a, ins, name):
        st.ghost = dict(st.ghost); st.ghost[('patched',)] = st.ghost.get(('patched',), ()) + ((st.ghost[('vec', a[1].r.id)], a[2]),); return [Out('ret', st, None)]
    c.on(STR + r'basic_string.*\(char const\*, std::allocator<char> const&\)', string); c.on(STR + r'~basic_string\(\)', c_nop); c.on(r'^std::allocator<.*>::~?allocator\(', c_nop)
    V = r'^std::vector<std::__cxx11::basic_string.*>::'
    c.on(V + r'vector\(std::initializer_list', vector); c.on(V + r'~vector\(\)', c_nop); c.on(r'^loongarch::patch\(', patch)

_inst = {}
def accel(mods):
    if id(mods) not in _inst: 
        def prep(c): lists(c); return [c.m]
        _inst[id(mods)] = installed(mods, 'loongarch::Machine::setup_accelerated_syscalls(', prep)
    return _inst[id(mods)]
def u_table(mods):
    tab, c0 = accel(mods); c = Ctx(mods)
    for n in NAMES: c.ob(c.st, int(n in tab), 'accelerated %s is installed' % NAMES[n][0])
    c.ob(c.st, int(not set(tab) - set(NAMES)), 'no further system call is installed')
    lists(c); c.on(r'^loongarch::Machine::install_syscall_handler\(', c_nop)
    for o in c.call('loongarch::Machine::setup_accelerated_syscalls(', [c.m]):
        if o.kind != 'ret': c.unreachable(o.st, 'setup never throws'); continue
        for syms, num in o.st.ghost.get(('patched',), ()):
            for s in syms: c.ob(o.st, int(isint(num) and num in NAMES and s in ['__%s_%s' % (NAMES[num][0], x) for x in NAMES[num][1]]), '%s is replaced by its own accelerated version' % s)
        done = {s for syms, num in o.st.ghost.get(('patched',), ()) for s in syms}
        for n, (nm, vs) in NAMES.items():
            for v in vs: c.ob(o.st, int('__%s_%s' % (nm, v) in done), '__%s_%s is replaced' % (nm, v))
        c.frame(o.st, [], 'setup: frame')
    return c
def u_patch(mods):
    r = []
    for n in range(5): r.append(patch_n(mods, n))
    return r
def patch_n(mods, n):
    c = Ctx(mods); v = c.obj('symbols', 24); num = c.sym('number', 32); ss = c.obj('strings', max(32 * n, 1)); addrs = [c.sym('address%d' % i) for i in range(n)]; log = []
    c.st.mem[v.id] = ObjMem({0: (Ptr(ss, 0), 8), 8: (Ptr(ss, 32 * n), 8), 16: (Ptr(ss, 32 * n), 8)})
    seg = c.obj('segment', 64)
    def address_of(ex, st, a, ins, name):
        p = a[1]; i = len([1 for x in st.ghost if x[0] == 'asked']); st.ghost = dict(st.ghost); st.ghost[('asked', i)] = p
        ex.oblige(st, int(isinstance(p, Ptr) and p.r is ss and isint(p.off) and p.off == 32 * i), 'patch: asks for every symbol in turn', name); return [Out('ret', st, addrs[i])]
    sp = c.obj('segment pointer', 16); c.st.mem[sp.id] = ObjMem({0: (Ptr(seg, 0), 8), 8: (0, 8)})
    def segment_for(ex, st, a, ins, name):
        st.ghost = dict(st.ghost); st.ghost[('segfor',)] = a[-1]
        if len(a) == 2: return [Out('ret', st, Ptr(sp, 0))]
        ex.write(st, a[0], Ptr(seg, 0), 8); ex.write(st, ptr_add(a[0], 8), 0, 8); return [Out('ret', st, None)]
    def set_(ex, st, a, ins, name):
        e = a[2]; e = ex.read(st, e, 8) if isinstance(e, Ptr) else e; st.ghost = dict(st.ghost); i = len([1 for x in st.ghost if x[0] == 'asked']) - 1; st.ghost[('set', i)] = (a[1], e)
        ex.oblige(st, T.eq(st.ghost[('segfor',)], a[1], 64), 'patch: the segment of the address', name); return [Out('ret', st, None)]
    c.on(r'^loongarch::Machine::address_of\(', address_of); c.on(r'^loongarch::Memory::exec_segment_for\(', segment_for); c.on(r'^loongarch::DecodedExecuteSegment::set\(', set_)
    for o in c.call('loongarch::patch(', [c.m, Ptr(v, 0), num]):
        if o.kind != 'ret': c.unreachable(o.st, 'patch never throws'); continue
        for i in range(n):
            c.ob(o.st, int(('asked', i) in o.st.ghost), 'patch: every symbol is looked up')
            if ('set', i) in o.st.ghost:
                a, e = o.st.ghost[('set', i)]; L = c.L
                c.ob(o.st, T.land(T.lnot(T.eq(addrs[i], 0, 64)), T.eq(a, addrs[i], 64)), 'patch: at the symbol')
                c.ob(o.st, T.eq(e, T.concat([(num, 32), (0, 16), (0, 8), (BC_SYSCALLIMM(mods), 8)]), 64), 'patch: a system call of that number')
            else: c.ob(o.st, T.eq(addrs[i], 0, 64), 'patch: every symbol found is replaced')
        c.frame(o.st, [], 'patch: frame')
    return c
def BC_SYSCALLIMM(mods): return layout()['bc.SYSCALLIMM']

class H(K):
    def __init__(self, mods, fname):
        self.lens = []
        def prep(k):
            c = k.c
            def strlen(ex, st, a, ins, name):      # contract of Memory::strlen (checked with M01)
                v = T.fresh('strlen', 64); self.lens.append((a[1], a[2], v)); bad = st.copy(); n = T.sub(self.w.N, a[1], 64)
                st.assume(z3.ULE(v, T.bv(a[2], 64))); st.assume(z3.Or(v == 0, z3.And(z3.ULE(self.w.RO, T.bv(a[1], 64)), z3.ULT(T.bv(a[1], 64), self.w.N), z3.ULE(v, n))))
                bad.assume(z3.And(z3.ULT(T.bv(a[1], 64), self.w.RO), T.bv(a[2], 64) != 0))
                outs = [Out('ret', st, v)]
                if ex.feasible(bad, 1): outs.append(Out('throw', bad, (MEXC, EXC['PROTECTION_FAULT'], a[1])))
                return outs
            k.w = c.w; c.on(r'^loongarch::Memory::strlen\(', strlen)
        K.__init__(self, mods, fname, prep=prep)
    def len_of(self, a):
        r = [v for x, m, v in self.lens if T.same(x, a)]
        if len(r) != 1: raise Unsupported('length of a string asked %d times' % len(r))
        return r[0]
def a_copy(move):
    def f(mods, fname):
        k = H(mods, fname); d, s, n = k.a[:3]; nm = 'memmove' if move else 'memcpy'; ok = T.land(k.inside(d, n, True), k.inside(s, n))
        if not move: ok = T.lor(n == 0, ok)
        for o in k.outs:
            if o.kind == 'throw': k.fault(o, ok, None, nm); continue
            k.c.ob(o.st, ok, nm + ': a range outside the arena is a fault'); k.res(o, d, nm); k.quiet(o, nm, arena=True)
            x = T.fresh('anybyte', 64)
            k.c.ob(o.st, z3.Select(k.c.arena(o.st), x) == z3.If(z3.ULT(x - d, n), k.was(s + (x - d)), k.was(x)), nm + ': the bytes')
        return k.c
    return f
def a_memset(mods, fname):
    k = H(mods, fname); d, v, n = k.a[:3]; ok = k.inside(d, n, True)
    for o in k.outs:
        if o.kind == 'throw': k.fault(o, ok, d, 'memset'); continue
        k.c.ob(o.st, ok, 'memset: a range outside the arena is a fault'); k.res(o, d, 'memset'); k.quiet(o, 'memset', arena=True)
        k.mem(o, lambda x: z3.If(z3.ULT(x - d, n), z3.Extract(7, 0, v), k.was(x)), 'memset')
    return k.c
def compared(k, o, p, q, n, what):
    """the result of the one native comparison of [p, p+n) and [q, q+n) on this path"""
    L = getattr(k.c.ex, 'cmp_log', []); c = []
    for a, b, m, r in L:
        c.append((T.land(T.eq(to_int(a), T.add(k.w.arena.base, p, 64), 64), T.eq(to_int(b), T.add(k.w.arena.base, q, 64), 64), T.eq(m, n, 64)), r))
    if len(c) != 1: raise Unsupported('%d native comparisons' % len(c))
    k.c.ob(o.st, c[0][0], what + ': compares these bytes'); return c[0][1]
def a_memcmp(mods, fname):
    k = H(mods, fname); p, q, n = k.a[:3]; ok = T.land(k.inside(p, n), k.inside(q, n))
    for o in k.outs:
        if o.kind == 'throw': k.fault(o, ok, None, 'memcmp'); continue
        k.c.ob(o.st, ok, 'memcmp: a range outside the arena is a fault'); r = compared(k, o, p, q, n, 'memcmp'); k.res(o, z3.SignExt(32, r), 'memcmp'); k.quiet(o, 'memcmp')
    return k.c
def a_memchr(mods, fname):
    k = K(mods, fname, contracts={'memchr': memchr}); p, v, n0 = k.a[:3]; w = k.w; n = z3.If(z3.And(z3.ULT(p, w.N), z3.UGT(n0, w.N - p)), w.N - p, n0); ok = k.inside(p, n); b = z3.Extract(7, 0, v)
    for o in k.outs:
        if o.kind == 'throw': k.fault(o, ok, p, 'memchr'); continue
        k.c.ob(o.st, ok, 'memchr: an address outside the arena is a fault'); k.quiet(o, 'memchr'); r = w.reg(o.st, A0); at = r - p
        asked = o.st.ghost.get(('memchr',)); k.c.ob(o.st, int(asked is not None), 'memchr: searches')
        if asked is None: continue
        a, vv, m, found, idx = asked
        k.c.ob(o.st, T.land(T.eq(to_int(a), T.add(w.arena.base, p, 64), 64), T.eq(T.extract(7, 0, vv), b, 8), T.eq(m, n, 64)), 'memchr: searches these bytes')
        k.res(o, z3.If(found, p + idx, B64(0)), 'memchr')
    return k.c
def memchr(ex, st, a, ins, name):
    need_read(ex, st, a[0], a[2], name); f = z3.Bool(T.fresh_name('found')); i = z3.BitVec(T.fresh_name('at'), 64); st.ghost = dict(st.ghost); st.ghost[('memchr',)] = (a[0], a[1], a[2], f, i)
    t = st.copy().assume(f).assume(z3.ULT(i, T.bv(a[2], 64))); u = st.copy().assume(z3.Not(f)); return [Out('ret', t, ptr_add(a[0], i)), Out('ret', u, 0)]
def a_strlen(bounded):
    def f(mods, fname):
        k = H(mods, fname); s = k.a[0]; mx = k.a[1] if bounded else B64(-1); nm = 'strnlen' if bounded else 'strlen'
        for o in k.outs:
            if o.kind == 'throw': k.fault(o, T.lor(T.ule(k.w.RO, s, 64), T.eq(mx, 0, 64)), s, nm); continue
            k.c.ob(o.st, int(len(k.lens) == 1) and T.land(T.eq(k.lens[0][0], s, 64), T.eq(k.lens[0][1], mx, 64)), nm + ': measures this string'); k.res(o, k.lens[0][2], nm); k.quiet(o, nm)
        return k.c
    return f
def a_strcmp(bounded):
    def f(mods, fname):
        k = H(mods, fname); s, t, n = k.a[:3]; mx = n if bounded else B64(-1); nm = 'strncmp' if bounded else 'strcmp'
        for o in k.outs:
            if o.kind == 'throw': k.c.ob(o.st, k.c.is_exc(o, 'PROTECTION_FAULT'), nm + ': only faults'); k.quiet(o, nm + ' (fault)', ()); continue
            k.c.ob(o.st, T.land(*[T.eq(m, mx, 64) for a, m, v in k.lens] + [1, 1]), nm + ': measures both strings'); l1, l2 = k.len_of(s), k.len_of(t)
            m = z3.If(z3.ULT(l1, l2), l1, l2); r = compared(k, o, s, t, m, nm)
            want = z3.If(r != 0, z3.SignExt(32, r), z3.If(z3.ULT(l1, l2), B64(-1), z3.If(z3.ULT(l2, l1), B64(1), B64(0)))); k.res(o, want, nm); k.quiet(o, nm)
            # a string that ends inside the arena is needed for a verdict
            x = m if bounded else m + 1
            k.c.ob(o.st, T.land(k.inside(s, x), k.inside(t, x)), nm + ': reads only inside the arena')
        return k.c
    return f
TABLE = {508: a_copy(False), 511: a_copy(True), 509: a_memset, 510: a_memcmp, 507: a_memchr, 500: a_strlen(False), 501: a_strlen(True), 502: a_strcmp(False), 503: a_strcmp(True)}
def by_number(n, f):
    def u(mods):
        tab, c = accel(mods)
        if n not in tab: raise Unsupported('system call %d is not installed' % n)
        return f(mods, tab[n])
    return u
def run(rep):
    rep.assumptions += ['memcmp, memchr, memmove by their C contracts', 'std::string and std::vector<std::string> of the symbol lists by their library contracts', 'lists of up to four symbols (the longest there is)', 'memcpy of overlapping ranges, which a program must not ask for, is taken as memmove']
    units = [('accelerated functions installed and patched', u_table, None), ('patch', u_patch, None)]
    for n, f in sorted(TABLE.items()): units.append(('%d %s' % (n, NAMES[n][0]), by_number(n, f), Native('acc_%s' % NAMES[n][0], 1500)))
    run_units(rep, units, SRCS, harness='api_sys')
