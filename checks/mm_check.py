"""M02: the memory arena.  M03: mapping and unmapping guest memory."""
from irv.fnv import *
M = 'loongarch::Memory::'
SRCS = ['memory.cpp', ('%s/harness/inst.cpp' % build.HERE, 'inst')]
SRCS3 = ['linux/syscalls.cpp', 'memory.cpp', 'machine.cpp']
FAILED = 0xFFFFFFFFFFFFFFFF

def fields(L): return ['mem.arena', 'mem.size', 'mem.rodata', 'mem.data', 'mem.end_sub_rodata', 'mem.end_sub_data']

def c_mmap(c):
    def f(ex, st, a, ins, name):
        n = a[1]
        ex.oblige(st, T.land(T.eq(a[2], 3, 32), T.eq(a[3], 0x22, 32)), 'the mapping is private, anonymous, readable and writable', name)
        r = Region('mapping', 'bytes', n); ex.regions[r.id] = r; st.mem[r.id] = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8)); r.pre = True
        bad = st.copy(); st.assume(T.land(T.ult(0, n, 64), T.ule(n, 1 << 47, 64)))
        st.ghost = dict(st.ghost); st.ghost[('mapped',)] = st.ghost.get(('mapped',), ()) + (r,)
        return [Out('ret', st, Ptr(r, 0)), Out('ret', bad, FAILED)]
    return f
def c_munmap(ex, st, a, ins, name):
    for cc, p in cases(a[0]):
        s = st.copy().assume(T.zb(cc))
        if not isinstance(p, Ptr): ex.oblige(s, 0, 'unmaps the arena', name); continue
        ex.oblige(s, T.land(T.eq(p.off, 0, 64), T.eq(a[1], p.r.size, 64)), 'unmaps exactly the arena', name)
        st.ghost = dict(st.ghost); st.ghost[('unmapped',)] = st.ghost.get(('unmapped',), ()) + (p.r,)
    return [Out('ret', st, 0)]

def setup(mods):
    """a Memory with an arena (invariant) or without one (size 0); the program's bounds are arbitrary"""
    c = Ctx(mods, inv=False, contracts={'munmap': c_munmap}); w = c.w; L = c.L; MM = L['memory']
    c.ex.contracts['mmap'] = c_mmap(c)
    has = c.has = z3.Bool('has_arena'); c.watch['has'] = T.bv(has, 64)
    w.extra.update({(MM + L['mem.size'], 8): z3.If(has, w.N, z3.BitVecVal(0, 64)), (MM + L['mem.end_sub_rodata'], 8): c.sym('esr'), (MM + L['mem.end_sub_data'], 8): c.sym('esd'), (MM + L['mem.arena'], 8): PIte(has, Ptr(w.arena, 0), 0)})
    old = w.init_field
    w.machine.init = lambda off, n: w.extra.get((off, n)) if (off, n) in w.extra else old(off, n)
    c.st.assume(z3.Implies(has, z3.ULE(w.N, z3.BitVecVal(1 << 47, 64)))); c.st.assume(w.arena.size == w.N + L['OVER'])
    return c
ALL6 = lambda L: [(L['memory'] + L[f], 8) for f in fields(L)]

def good(c, st, size, ro, da, region, what, order=True):
    """the fields describe exactly `region` with size+64 bytes, and the derived limits fit"""
    f = lambda n: c.memfield(st, n)
    c.ob(st, T.eq(f('mem.size'), size, 64), what + ': arena size'); c.ob(st, T.land(T.eq(f('mem.rodata'), ro, 64), T.eq(f('mem.data'), da, 64)), what + ': start of the read-only and of the writable part')
    c.ob(st, T.land(T.eq(f('mem.end_sub_rodata'), T.sub(size, ro, 64), 64), T.eq(f('mem.end_sub_data'), T.sub(size, da, 64), 64)), what + ': derived limits')
    p = f('mem.arena')
    def ok(q): return T.land(T.eq(q.off, 0, 64), z3.ULE(T.bv(T.add(size, c.L['OVER'], 64), 64), T.bv(q.r.size, 64)), z3.ULE(T.bv(size, 64), z3.BitVecVal(1 << 62, 64))) if isinstance(q, Ptr) and (region is None or q.r is region) else 0
    for cc, q in cases(p): c.ob(st.copy().assume(T.zb(cc)), ok(q), what + ': the arena has the size and the 64 spare bytes')
    for cc, q in cases(p):
        if isinstance(q, Ptr): c.ob(st.copy().assume(T.zb(cc)), int(q.r not in st.ghost.get(('unmapped',), ())), what + ': the arena is mapped')
    if order: c.ob(st, T.land(T.ule(ro, da, 64), T.ule(da, size, 64)), what + ': the parts are in order')
    c.frame(st, ALL6(c.L), what + ': frame')

def gone(c, o, what):
    """after running out of memory there is no arena"""
    c.ob(o.st, T.eq(to_int(c.memfield(o.st, 'mem.arena')), 0, 64), what + ': no arena is left'); c.ob(o.st, T.eq(c.memfield(o.st, 'mem.size'), 0, 64), what + ': and its size is 0'); c.ob(o.st, T.land(T.eq(c.memfield(o.st, 'mem.end_sub_data'), 0, 64), T.eq(c.memfield(o.st, 'mem.end_sub_rodata'), 0, 64)), what + ': nothing is accessible'); c.frame(o.st, ALL6(c.L), what + ': frame of the failure')

def kept(c, o, what):
    """a failure leaves the arena as it was, or none"""
    if all(val_same(c.memfield(o.st, f), c.memfield(c.st, f)) for f in fields(c.L)): c.frame(o.st, [], what + ': nothing changed'); return
    for cc, q in cases(c.memfield(o.st, 'mem.arena')):
        c.ob(o.st.copy().assume(T.zb(cc)), T.lor(T.eq(to_int(q), 0, 64), int(isinstance(q, Ptr) and q.r is c.w.arena and c.w.arena not in o.st.ghost.get(('unmapped',), ()))), what + ': the old arena or none')
        if isint(q): gone(c, Out('throw', o.st.copy().assume(T.zb(cc)).assume(T.zb(c.has)), o.val), what)

def u_allocate(mods):
    c = setup(mods); w = c.w; n = c.sym('size')
    for o in c.call(M + 'allocate_arena(', [c.mem, n]):
        if o.kind == 'throw':
            c.ob(o.st, c.is_exc(o, 'OUT_OF_MEMORY'), 'allocation: out of memory'); kept(c, o, 'allocation'); continue
        good(c, o.st, n, w.RO, w.DA, None, 'allocation', order=False)
        ar = c.memfield(o.st, 'mem.arena')
        k = T.fresh('anybyte', 64)
        for cc, q in cases(ar):
            if isinstance(q, Ptr): c.ob(o.st.copy().assume(T.zb(cc)), z3.Select(o.st.mem[q.r.id], k) == 0, 'allocation: new memory is zero')
    return c

def u_custom(mods):
    c = setup(mods); w = c.w; n = c.sym('size'); ro = c.sym('rodata'); da = c.sym('data')
    for o in c.call(M + 'allocate_custom_arena(', [c.mem, n, ro, da]):
        valid = T.land(T.ult(ro, n, 64), T.ult(da, n, 64), T.ule(ro, da, 64))
        if o.kind == 'throw':
            c.ob(o.st, T.lor(T.land(T.lnot(valid), c.is_exc(o, 'INVALID_PROGRAM')), T.land(valid, c.is_exc(o, 'OUT_OF_MEMORY'))), 'custom bounds: invalid ones are refused, valid ones are not')
            s = o.st.copy().assume(T.zb(T.lnot(valid))); c.frame(s, [], 'custom bounds: refused without effect'); s = o.st.copy().assume(T.zb(valid)); kept(c, Out('throw', s, o.val), 'custom bounds'); continue
        c.ob(o.st, valid, 'custom bounds: only valid ones are accepted'); good(c, o.st, n, ro, da, None, 'custom bounds')
    return c

def u_use(mods):
    c = setup(mods); w = c.w; n = c.sym('size'); host = c.bytes('host_arena', n); c.st.assume(z3.ULE(n, z3.BitVecVal(1 << 47, 64)))
    c.st.assume(z3.ULE(w.RO, w.DA))          # the loader's order of the program's parts
    for o in c.call(M + 'use_custom_arena(', [c.mem, Ptr(host, 0), n]):
        fits = T.land(T.ule(64, n, 64), T.ule(w.RO, T.sub(n, 64, 64), 64), T.ule(w.DA, T.sub(n, 64, 64), 64))
        if o.kind == 'throw':
            c.ob(o.st, T.land(T.lnot(fits), c.is_exc(o, 'INVALID_PROGRAM')), 'host arena: refused only when too small'); c.frame(o.st, [], 'host arena: refused without effect'); continue
        c.ob(o.st, fits, 'host arena: one that is too small is refused'); good(c, o.st, T.sub(n, 64, 64), w.RO, w.DA, host, 'host arena')
    return c

def u_free(mods):
    c = setup(mods)
    for o in c.call(M + 'free_arena(', [c.mem]):
        if o.kind != 'ret': c.unreachable(o.st, 'freeing never throws'); continue
        gone(c, o, 'freeing')
        c.ob(o.st, T.lor(T.lnot(c.has), int(c.w.arena in o.st.ghost.get(('unmapped',), ()))), 'freeing: the arena is returned')
    return c

# ---------------------------------------------------------------- M03
PG = 4095
def up(n): return T.band(T.add(n, PG, 64), ~PG & T.mask(64), 64) if hasattr(T, 'band') else (T.bv(n, 64) + PG) & z3.BitVecVal(~PG & T.mask(64), 64)
def fits(begin, n, end):
    W = lambda x: z3.ZeroExt(8, T.bv(x, 64))
    rounded = ((W(n) + PG) / 4096) * 4096 if False else z3.Concat(z3.Extract(71, 12, W(n) + PG), z3.BitVecVal(0, 12))
    return z3.ULE(W(begin) + rounded, W(end))

def setup3(mods):
    c = Ctx(mods); L = c.L; c.top = c.sym('mmap_address'); c.w.extra[(L['memory'] + L['mem.mmap'], 8)] = c.top
    c.opt = z3.Bool('verbose'); c.on(r'^void loongarch::sysprint', c_nop)
    c.a = [c.sym('a%d' % i) for i in range(6)]
    for i in range(6): c.st.assume(c.w.reg(c.st, 4 + i) == c.a[i])
    return c
TOP = lambda c: (c.L['memory'] + c.L['mem.mmap'], 8)

def regs_only(c, st, what, allowed=(4,)):
    """among the registers only the given ones changed"""
    m = c.ex.content(st, c.w.machine)
    for s, ok in ((c.w.regs, allowed), (c.w.vr, ())):
        if m.segs.get(s.name):
            i = T.fresh('any_reg', 5); new = c.ex.seg_lookup(s, m.segs[s.name], i); old = c.ex.seg_lookup(s, (), i)
            c.ob(st, T.lor(T.eq(to_int(new), to_int(old), 8 * s.stride), *[i == k for k in ok]), what + ': other registers unchanged')

def u_mm_alloc(mods):
    c = setup3(mods); n = c.sym('size')
    for o in c.call(M + 'mmap_allocate(', [c.mem, n]):
        if o.kind != 'ret': c.unreachable(o.st, 'never throws'); continue
        c.ob(o.st, T.eq(o.val, c.top, 64), 'reserve: the area starts at the old end'); c.ob(o.st, T.eq(c.memfield(o.st, 'mem.mmap'), T.add(c.top, up(n), 64), 64), 'reserve: the end moves by whole pages'); c.frame(o.st, [TOP(c)], 'reserve: frame'); c.ob(o.st, int(c.arena(o.st) is c.w.arena0), 'reserve: memory unchanged')
    return c

def u_mmap(mods):
    c = setup3(mods); w = c.w; addr, length, flags = c.a[0], c.a[1], z3.Extract(31, 0, c.a[3])
    for o in c.call('loongarch::syscall_mmap(', [c.m]):
        if o.kind != 'ret': c.unreachable(o.st, 'mmap never throws'); continue
        r = w.reg(o.st, 4); top2 = c.memfield(o.st, 'mem.mmap'); fixed = z3.And(addr != 0, flags & 0x10 != 0); fit = fits(c.top, length, w.N)
        c.ob(o.st, T.lor(fixed, T.lnot(fit), T.land(r == c.top, T.eq(top2, T.add(c.top, up(length), 64), 64))), 'mmap: a fresh area at the end, that inside the arena')
        c.ob(o.st, T.lor(fixed, fit, T.land(r == z3.BitVecVal(-12, 64), T.eq(top2, c.top, 64))), 'mmap: out of memory when it does not fit')
        c.ob(o.st, T.lor(z3.Not(fixed), T.land(T.eq(top2, c.top, 64), r == z3.If(z3.ULT(addr, c.top), addr, z3.BitVecVal(-1, 64)))), 'mmap: a fixed address is only accepted below the end')
        regs_only(c, o.st, 'mmap'); c.frame(o.st, [TOP(c)], 'mmap: frame', regs=False); c.ob(o.st, int(c.arena(o.st) is w.arena0), 'mmap: memory unchanged')
    return c

def freed(c, addr, n): return T.land(z3.Extract(11, 0, addr) == 0, z3.ULT(addr, c.top), up(n) == c.top - addr)
def after_free(c, st, addr, n, what):
    w = c.w; last = freed(c, addr, n); top2 = c.memfield(st, 'mem.mmap'); k = T.fresh('anybyte', 64); size = c.top - addr
    c.ob(st, T.eq(top2, z3.If(T.zb(last), addr, c.top), 64), what + ': exactly the last area is given back')
    inside = T.land(last, T.ule(w.DA, addr, 64), T.ult(addr, w.N, 64), T.ule(size, w.N - addr, 64))
    now = z3.Select(c.arena(st), k); was = z3.Select(w.arena0, k)
    c.ob(st, z3.If(z3.And(T.zb(inside), z3.ULT(k - addr, size)), now == 0, now == was), what + ': the area given back is zero, everything else unchanged')

def u_mm_free(mods):
    c = setup3(mods); addr = c.sym('addr'); n = c.sym('size')
    for o in c.call(M + 'mmap_deallocate(', [c.mem, addr, n]):
        if o.kind != 'ret': c.unreachable(o.st, 'never throws'); continue
        after_free(c, o.st, addr, n, 'give back'); c.frame(o.st, [TOP(c)], 'give back: frame')
    return c

def u_munmap(mods):
    c = setup3(mods); w = c.w
    for o in c.call('loongarch::syscall_munmap(', [c.m]):
        if o.kind != 'ret': c.unreachable(o.st, 'munmap never throws'); continue
        after_free(c, o.st, c.a[0], c.a[1], 'munmap'); c.ob(o.st, w.reg(o.st, 4) == 0, 'munmap: result 0'); regs_only(c, o.st, 'munmap'); c.frame(o.st, [TOP(c)], 'munmap: frame', regs=False)
    return c

def run(rep):
    rep.assumptions += ['mmap returns a zero-filled mapping of the size asked for, at most 2^47 bytes, or MAP_FAILED; munmap has no effect besides returning it', 'an arena supplied by the host becomes the machine\'s (it is unmapped like an own one)']
    run_units(rep, [('allocate_arena', u_allocate, Native('arenas', 1500)), ('allocate_custom_arena', u_custom, Native('arenas', 1500)), ('use_custom_arena', u_use, Native('arenas', 1500)), ('free_arena', u_free, Native('arenas', 1500))], SRCS, harness='api_sys')
def run3(rep):
    rep.assumptions += ['the lists of unmapped areas between live ones are not reused (a mapping is only given back at the end)']
    run_units(rep, [('mmap_allocate', u_mm_alloc, Native('mmaps', 1500)), ('mmap_deallocate', u_mm_free, Native('mmaps', 1500)), ('syscall_mmap', u_mmap, Native('mmaps', 1500)), ('syscall_munmap', u_munmap, Native('mmaps', 1500))], SRCS3, harness='api_sys')
