"""M01: host access to guest memory."""
from irv.fnv import *
SRCS = ['memory.cpp', 'memory_rw.cpp', ('%s/harness/inst.cpp' % build.HERE, 'inst')]

def range_ok(a, n, lo, hi):
    """[a, a+n) lies inside [lo, hi), starting inside"""
    return T.land(T.ule(lo, a, 64), T.ult(a, hi, 64), T.ule(n, T.sub(hi, a, 64), 64))

def fault_posts(c, o, ok, addr, what):
    """a throwing outcome: protection fault with the address, only outside the range, nothing changed"""
    c.ob(o.st, T.lnot(ok), what + ': a range inside is served')
    c.ob(o.st, c.is_exc(o, 'PROTECTION_FAULT'), what + ': protection fault')
    c.ob(o.st, c.is_exc(o, None, addr), what + ': fault address')
    c.ob(o.st, c.arena(o.st) == c.w.arena0 if c.arena(o.st) is not c.w.arena0 else 1, what + ': a fault leaves memory unchanged')
    c.frame(o.st, [], what + ' (fault): frame')

def arena_is(c, st, fn, name):
    """every byte k of memory is fn(k)"""
    k = T.fresh('anybyte', 64)
    c.ob(st, z3.Select(c.arena(st), k) == T.bv(fn(k), 8), name)

def u_copy_to(fname, lo):
    def f(mods):
        c = Ctx(mods); w = c.w; a = c.sym('addr'); n = c.sym('len'); host = c.bytes('host', n)
        c.st.assume(T.ule(n, 1 << 60, 64))
        low = {'data': w.DA, 'zero': 0}[lo]
        for o in c.call(fname, [c.mem, a, Ptr(host, 0), n]):
            ok = range_ok(a, n, low, w.N)
            if lo == 'zero': ok = T.land(T.ule(a, w.N, 64), T.ule(n, T.sub(w.N, a, 64), 64))
            if o.kind == 'throw': fault_posts(c, o, ok, a, 'copy'); continue
            c.ob(o.st, ok, 'copy: only a range inside is written')
            arena_is(c, o.st, lambda k: z3.If(z3.ULT(k - a, n), z3.Select(host.init_arr, k - a), z3.Select(w.arena0, k)), 'copy: exactly the range gets the bytes')
            c.frame(o.st, [], 'copy: frame')
        return c
    return f

def u_copy_from(mods):
    c = Ctx(mods); w = c.w; a = c.sym('addr'); n = c.sym('len'); host = c.bytes('host', n); c.st.assume(T.ule(n, 1 << 60, 64))
    for o in c.call('loongarch::Memory::copy_from_guest(', [c.mem, Ptr(host, 0), a, n]):
        ok = range_ok(a, n, w.RO, w.N)
        if o.kind == 'throw': fault_posts(c, o, ok, a, 'read'); continue
        c.ob(o.st, ok, 'read: only a range inside is read')
        k = T.fresh('anybyte', 64)
        c.ob(o.st, T.lor(T.ule(n, k, 64), z3.Select(o.st.mem[host.id], k) == z3.Select(w.arena0, a + k)), 'read: the host gets the bytes')
        c.ob(o.st, 1 if c.arena(o.st) is w.arena0 else c.arena(o.st) == w.arena0, 'read: memory unchanged'); c.frame(o.st, [], 'read: frame')
    return c

def u_memset(mods):
    c = Ctx(mods); w = c.w; a = c.sym('addr'); n = c.sym('len'); v = c.sym('value', 8)
    for o in c.call('loongarch::Memory::memset(', [c.mem, a, v, n]):
        ok = range_ok(a, n, w.DA, w.N)
        if o.kind == 'throw': fault_posts(c, o, ok, a, 'fill'); continue
        c.ob(o.st, ok, 'fill: only a range inside is written')
        arena_is(c, o.st, lambda k: z3.If(z3.ULT(k - a, n), v, z3.Select(w.arena0, k)), 'fill: exactly the range is filled'); c.frame(o.st, [], 'fill: frame')
    return c

def u_memcmp(mods):
    c = Ctx(mods); w = c.w; a = c.sym('addr'); b = c.sym('addr2'); n = c.sym('len')
    for o in c.call('loongarch::Memory::memcmp(', [c.mem, a, b, n]):
        oka = range_ok(a, n, w.RO, w.N); okb = range_ok(b, n, w.RO, w.N)
        if o.kind == 'throw':
            c.ob(o.st, T.lnot(T.land(oka, okb)), 'compare: ranges inside are served')
            c.ob(o.st, T.lor(T.land(T.lnot(oka), c.is_exc(o, 'PROTECTION_FAULT', a)), T.land(T.lnot(okb), c.is_exc(o, 'PROTECTION_FAULT', b))), 'compare: protection fault with the address'); continue
        c.ob(o.st, T.land(oka, okb), 'compare: only ranges inside are read')
        lg = getattr(c.ex, 'cmp_log', [])
        good = [x for x in lg if val_same(to_int(x[3]), to_int(o.val)) or x[3] is o.val]
        c.ob(o.st, int(bool(good)), 'compare: the result is that of comparing bytes')
        for x in good[:1]:
            c.ob(o.st, T.land(T.eq(to_int(x[0]), T.add(w.arena.base, a, 64), 64), T.eq(to_int(x[1]), T.add(w.arena.base, b, 64), 64), T.eq(x[2], n, 64)), 'compare: of these two ranges, in this order')
        c.frame(o.st, [], 'compare: frame')
    return c

def u_array(pat, size, lo):
    def f(mods):
        c = Ctx(mods); w = c.w; a = c.sym('addr'); k = c.sym('count')
        low = {'ro': w.RO, 'data': w.DA}[lo]
        for o in c.call(pat, [c.mem, a, k]):
            # in wide arithmetic: no wrap
            W = lambda x: z3.ZeroExt(64, T.bv(x, 64))
            ok = T.land(T.ule(low, a, 64), T.ult(a, w.N, 64), z3.ULE(W(k) * size + W(a), W(w.N)))
            if o.kind == 'throw': fault_posts(c, o, ok, a, 'view'); continue
            c.ob(o.st, ok, 'view: the whole array is inside'); c.ob(o.st, T.eq(to_int(o.val), T.add(w.arena.base, a, 64), 64), 'view: points at the guest bytes'); c.frame(o.st, [], 'view: frame')
        return c
    return f

def u_strlen(mods):
    c = Ctx(mods); w = c.w; a = c.sym('addr'); mx = c.sym('maxlen')
    j = T.fresh('anyidx', 64); c.ex.inst_idx = [j]
    for o in c.call('loongarch::Memory::strlen(', [c.mem, a, mx]):
        if o.kind == 'throw':
            c.ob(o.st, c.is_exc(o, 'PROTECTION_FAULT', a), 'strlen: protection fault with the address'); c.ob(o.st, T.ult(a, w.RO, 64), 'strlen: faults only below the readable memory'); continue
        r = o.val; lim = T.ite(T.ult(a, w.N, 64), T.sub(w.N, a, 64), 0, 64)
        c.ob(o.st, T.land(T.ule(r, mx, 64), T.ule(r, lim, 64)), 'strlen: at most maxlen, and inside')
        c.ob(o.st, T.lor(T.ule(r, j, 64), z3.Select(w.arena0, T.bv(T.add(a, j, 64), 64)) != 0), 'strlen: no terminator before the end')
        c.ob(o.st, T.lor(T.eq(r, mx, 64), T.eq(r, lim, 64), z3.Select(w.arena0, T.bv(T.add(a, r, 64), 64)) == 0), 'strlen: stops at the terminator, maxlen or the end of memory')
        c.frame(o.st, [], 'strlen: frame')
    return c

def c_string_ctor(ex, st, args, ins, name):
    """std::string(const char* p, size_t n): reads [p, p+n)"""
    need_read(ex, st, args[1], args[2], 'std::string')
    st.ghost = dict(st.ghost); st.ghost[('string', args[0].r.id)] = (args[1], args[2])
    return [Out('ret', st, None)]

def u_memstring(mods):
    STR = {n: c_string_ctor for n, d in demangled(mods) if re.match(r'std::__cxx11::basic_string<char.*>::basic_string(<.*>)?\(char const\*, unsigned long', d)}
    STR['_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC2IS3_EEPKcmRKS3_'] = c_string_ctor; STR['_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC1EPKcmRKS3_'] = c_string_ctor
    c = Ctx(mods, contracts=STR); w = c.w; a = c.sym('addr'); mx = c.sym('maxlen')
    def c_strlen(ex, st, args, ins, name):      # contract of Memory::strlen, checked above
        r = z3.BitVec(T.fresh_name('slen'), 64); n = T.ite(T.ult(args[1], w.N, 64), T.sub(w.N, args[1], 64), 0, 64)
        t = st.copy().assume(T.ult(args[1], w.RO, 64)); s = st.assume(T.land(T.ule(r, args[2], 64), T.ule(r, n, 64)))
        outs = [Out('ret', s, r)]
        if ex.feasible(t, 1): outs.append(Out('throw', t, (MEXC, EXC['PROTECTION_FAULT'], args[1])))
        s.ghost = dict(s.ghost); s.ghost[('slen',)] = (r,)
        return outs
    c.ex.contracts[c.fn('loongarch::Memory::strlen(')] = c_strlen
    out = c.obj('result', 32)
    for o in c.call('loongarch::Memory::memstring[abi:cxx11](', [Ptr(out, 0), c.mem, a, mx]):
        if o.kind == 'throw':
            c.ob(o.st, c.is_exc(o, 'PROTECTION_FAULT', a), 'memstring: protection fault with the address'); c.ob(o.st, T.lor(T.ult(a, w.RO, 64), T.ule(w.N, a, 64)), 'memstring: faults only outside'); continue
        g = o.st.ghost.get(('string', out.id)); c.ob(o.st, int(g is not None), 'memstring: makes the string')
        if g:
            r = o.st.ghost.get(('slen',), (None,))[0]
            c.ob(o.st, T.land(T.eq(to_int(g[0]), T.add(w.arena.base, a, 64), 64), T.eq(g[1], r, 64) if r is not None else 0), 'memstring: of the guest bytes up to the terminator')
    return c

def u_memview(mods):
    c = Ctx(mods); w = c.w; a = c.sym('addr'); n = c.sym('len')
    for o in c.call('loongarch::Memory::memview(', [c.mem, a, n]):
        ok = range_ok(a, n, w.RO, w.N)
        if o.kind == 'throw': fault_posts(c, o, ok, a, 'memview'); continue
        c.ob(o.st, ok, 'memview: the whole view is inside')
        c.ob(o.st, T.land(T.eq(o.val[0], n, 64), T.eq(to_int(o.val[1]), T.add(w.arena.base, a, 64), 64)), 'memview: the guest bytes'); c.frame(o.st, [], 'memview: frame')
    return c

M = 'loongarch::Memory::'
def run(rep):
    N = Native
    units = [('copy_to_guest', u_copy_to(M + 'copy_to_guest(', 'data'), N('copy_to_guest')), ('copy_into_arena_unsafe', u_copy_to(M + 'copy_into_arena_unsafe(', 'zero'), N('copy_into_arena_unsafe')), ('copy_from_guest', u_copy_from, N('copy_from_guest')),
             ('memset', u_memset, N('mem_set')), ('memcmp', u_memcmp, N('mem_cmp')), ('strlen', u_strlen, N('mem_strlen')), ('memstring', u_memstring, N('mem_string')), ('memview', u_memview, N('mem_view'))]
    for ty, s in (('unsigned char', 1), ('unsigned long', 8), ('Elem24', 24)):
        units.append(('memarray<%s>' % ty, u_array(r'^%s const\* loongarch::Memory::memarray<%s>\(' % (ty, ty), s, 'ro'), N('memarray%d' % s)))
        units.append(('writable_memarray<%s>' % ty, u_array(r'^%s\* loongarch::Memory::writable_memarray<%s>\(' % (ty, ty), s, 'data'), N('wmemarray%d' % s)))
    run_units(rep, units, SRCS, harness='api_mem')
