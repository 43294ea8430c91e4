"""S01: Linux system calls.  A01: accelerated memory and string system calls."""
from irv.fnv import *
from irv.loops import mem_is, Inv
from mm_check import regs_only
SRCS = ['linux/syscalls.cpp', 'memory.cpp', 'memory_rw.cpp', 'posix/signals.cpp', 'machine.cpp', 'cpu.cpp']
SRCSA = ['machine_accelerate.cpp', 'memory.cpp', 'memory_rw.cpp', 'machine.cpp']
A0 = 4
PR = '!printed'; GHOST_W[PR] = 64
B64 = lambda v: z3.BitVecVal(v & T.mask(64), 64)

def installed(mods, setup, prepare=None):
    """number -> function, as the setup function installs them"""
    c = Ctx(mods); tab = {}
    def install(ex, st, a, ins, name):
        n = a[0]
        if not isint(n): raise Unsupported('installation of a computed system call number')
        fs = [q for cc, q in cases(a[1])]
        st.ghost = dict(st.ghost); st.ghost[('installed', n)] = tuple(fs); return [Out('ret', st, None)]
    c.on(r'^loongarch::Machine::install_syscall_handler\(', install)
    args = prepare(c) if prepare else []
    outs = c.call(setup, args)
    for o in outs:
        if o.kind != 'ret': continue
        for k, v in o.st.ghost.items():
            if k[0] == 'installed':
                if len(v) != 1 or not isinstance(v[0], Fn): raise Unsupported('handler of system call %d' % k[1])
                if tab.setdefault(k[1], v[0].name) != v[0].name: raise Unsupported('handler of system call %d varies' % k[1])
    return tab, c

class K:
    """one run of a handler"""
    def __init__(self, mods, fname, cut=None, contracts=None, prep=None):
        c = self.c = Ctx(mods); w = self.w = c.w; ex = c.ex; ex.contracts.update(contracts or {})
        if prep: prep(self)
        self.a = []
        for i in range(6):
            v = w.reg(c.st, A0 + i); c.watch['a%d' % i] = v; self.a.append(v)
        self.i = [z3.Extract(31, 0, v) for v in self.a]
        c.on(r'^void loongarch::sysprint', c_nop); c.on(r'^loongarch::Machine::print\(char const', self.c_print)
        self.tid = c.sym('tid', 32); c.on(r'^loongarch::Machine::gettid\(\)', ret(self.tid))
        self.sig = c.obj('sigaction', 16); self.exe = z3.Bool('handler_executable'); c.on(r'^loongarch::CPU::is_executable\(', ret(self.exe)); self.handler = c.sym('sig_handler'); self.alt = c.sym('sig_altstack', 8); self.mask = c.sym('sig_mask', 32); c.st.assume(z3.ULE(self.alt, 1))
        self.sig.init = lambda o, n: {(0, 8): self.handler, (8, 1): self.alt, (12, 4): self.mask}.get((o, n)); self.sig.pre = True
        self.ss = [c.sym('ss_sp'), c.sym('ss_flags', 32), c.sym('ss_pad', 32), c.sym('ss_size')]
        self.per = c.obj('per_thread', 24 + 4096, {0: (z3.Concat(*reversed(self.ss)), 24)}); self.per.pre = True
        self.signals = c.obj('signals', 64 * 16 + 64); c.on(r'^loongarch::Machine::signals\(\)', ret(Ptr(self.signals, 0))); self.sigs = []
        def get(ex, st, a, ins, name):          # contract of Signals::get, checked below
            s = a[-1]; self.sigs.append(s); bad = T.lor(T.slt(s, 0, 32), T.slt(64, s, 32)); t = st.copy().assume(T.zb(bad)); st.assume(T.zb(T.lnot(bad)))
            outs = [Out('ret', st, Ptr(self.sig, 0))]
            if ex.feasible(t, 1): outs.append(Out('throw', t, (MEXC, EXC['INVALID_PROGRAM'], T.sext(s, 32, 64))))
            return outs
        c.on(r'^loongarch::Machine::sigaction\(', get); c.on(r'^loongarch::Signals::get\(', get)
        def per(ex, st, a, ins, name):
            ex.oblige(st, T.eq(a[-1], self.tid, 32), 'the signal stack of the current thread', name); return [Out('ret', st, Ptr(self.per, 0))]
        c.on(r'^loongarch::Signals::per_thread\(', per)
        if cut: ex.cut = lambda fn, b, k: cut(self) if fn == fname else None
        c.st.ghost = dict(c.st.ghost); c.st.ghost[PR] = z3.BitVecVal(0, 64)
        self.outs = ex.call(fname, [c.m], c.st)
    def c_print(self, ex, st, a, ins, name):
        need_read(ex, st, a[1], a[2], 'print'); st.ghost = dict(st.ghost); st.ghost[PR] = T.add(st.ghost[PR], a[2], 64); st.ghost[('print',)] = st.ghost.get(('print',), ()) + ((a[1], a[2]),); return [Out('ret', st, None)]
    # -- what a handler may leave changed
    def res(self, o, want, what): self.c.ob(o.st, T.eq(self.w.reg(o.st, A0), want, 64), what + ': result')
    def quiet(self, o, what, regs=(A0,), fields=(), arena=False):
        c = self.c; regs_only(c, o.st, what, regs); c.frame(o.st, list(fields), what + ': machine unchanged', regs=False)
        if not arena: c.ob(o.st, 1 if c.arena(o.st) is self.w.arena0 else c.arena(o.st) == self.w.arena0, what + ': memory unchanged')
        if ('print',) not in getattr(self, 'prints', ()): pass
    def silent(self, o, what): self.c.ob(o.st, T.eq(o.st.ghost.get(PR, 0), 0, 64), what + ': nothing is printed')
    def mem(self, o, fn, what):
        k = T.fresh('anybyte', 64); self.c.ob(o.st, z3.Select(self.c.arena(o.st), k) == T.bv(fn(k), 8), what + ': memory')
    def was(self, a): return z3.Select(self.w.arena0, T.bv(a, 64))
    def rd(self, a, n): return z3.Concat(*[self.was(a + i) for i in reversed(range(n))]) if n > 1 else self.was(a)
    def inside(self, a, n, w=False):
        lo = self.w.DA if w else self.w.RO
        return T.land(T.ule(lo, a, 64), T.ult(a, self.w.N, 64), T.ule(n, T.sub(self.w.N, a, 64), 64))
    def fault(self, o, ok, addr, what, changed=False):
        c = self.c; c.ob(o.st, T.lnot(ok), what + ': a valid pointer is served'); c.ob(o.st, T.land(c.is_exc(o, 'PROTECTION_FAULT'), c.is_exc(o, None, addr)) if addr is not None else c.is_exc(o, 'PROTECTION_FAULT'), what + ': a bad pointer is a protection fault')
        if not changed: self.quiet(o, what + ' (fault)', regs=())

def byteof(v, j):
    """byte j (a term) of value v"""
    return z3.Extract(7, 0, z3.LShR(v, z3.ZeroExt(v.size() - 64, j * 8) if v.size() > 64 else z3.Extract(v.size() - 1, 0, j * 8)))

# ------------------------------------------------------------- handlers
def const(v):
    def f(mods, fname):
        k = K(mods, fname)
        for o in k.outs:
            if o.kind != 'ret': k.c.unreachable(o.st, 'never throws'); continue
            k.res(o, v & T.mask(64), 'call'); k.quiet(o, 'call'); k.silent(o, 'call')
        return k.c
    return f
def fdcall(val, other=-9):
    """val for the standard descriptors, other for the rest"""
    def f(mods, fname):
        k = K(mods, fname); fd = k.i[0]; std = z3.And(fd >= 0, fd <= 2)
        for o in k.outs:
            if o.kind != 'ret': k.c.unreachable(o.st, 'never throws'); continue
            k.res(o, z3.If(std, B64(val), B64(other)), 'call'); k.quiet(o, 'call'); k.silent(o, 'call')
        return k.c
    return f
def s_exit(mods, fname):
    k = K(mods, fname); L = k.c.L
    for o in k.outs:
        if o.kind != 'ret': k.c.unreachable(o.st, 'never throws'); continue
        k.c.ob(o.st, T.eq(k.c.field(o.st, 'm_max'), 0, 64), 'exit: the machine stops'); k.quiet(o, 'exit', (), [(L['m_max'], 8)]); k.silent(o, 'exit')
    return k.c
def s_read(mods, fname):
    k = K(mods, fname)
    for o in k.outs:
        if o.kind != 'ret': k.c.unreachable(o.st, 'never throws'); continue
        k.res(o, z3.If(k.i[0] == 0, B64(0), B64(-9)), 'read'); k.quiet(o, 'read'); k.silent(o, 'read')
    return k.c
def s_write(mods, fname):
    k = K(mods, fname); out = z3.Or(k.i[0] == 1, k.i[0] == 2); ok = T.lor(z3.Not(out), k.inside(k.a[1], k.a[2]))
    for o in k.outs:
        if o.kind == 'throw': k.fault(o, ok, k.a[1], 'write'); k.silent(o, 'write (fault)'); continue
        k.c.ob(o.st, ok, 'write: a bad buffer is a fault'); k.res(o, z3.If(out, k.a[2], B64(-1)), 'write'); k.quiet(o, 'write')
        p = o.st.ghost.get(('print',), ())
        k.c.ob(o.st, T.land(out, int(len(p) == 1) and T.land(T.eq(to_int(p[0][0]), T.add(k.w.arena.base, k.a[1], 64), 64), T.eq(p[0][1], k.a[2], 64))) if p else z3.Not(out), 'write: exactly the bytes of the buffer are printed')
    return k.c
def s_writev(mods, fname):
    def cut(k):
        def mk(ex, vs, syms):
            r = []
            for v in vs:
                if v.regions or v.w != 64: continue
                f = lambda I, v=v: T.eq(v.get(I), I.st.ghost[PR], 64); f.text = 'printed == %s' % v.name; r.append(f)
            return r
        mk.maker = True; return [mk]
    k = K(mods, fname, cut); out = z3.Or(k.i[0] == 1, k.i[0] == 2)
    for o in k.outs:
        if o.kind == 'throw':
            k.c.ob(o.st, T.lor(T.land(T.ult(1024, k.a[2], 64), k.c.is_exc(o, 'ILLEGAL_OPERATION')), T.land(out, z3.ULE(k.a[2], 1024), k.c.is_exc(o, 'PROTECTION_FAULT'))), 'writev: refuses too many buffers and bad ones'); k.quiet(o, 'writev (fault)', ()); continue
        k.c.ob(o.st, T.ule(k.a[2], 1024, 64), 'writev: more than 1024 buffers are refused')
        k.res(o, z3.If(out, T.bv(o.st.ghost[PR], 64), B64(-1)), 'writev: the number of bytes printed'); k.c.ob(o.st, T.lor(out, T.eq(o.st.ghost[PR], 0, 64)), 'writev: other descriptors print nothing'); k.quiet(o, 'writev')
    return k.c
def counted(f, text):
    """candidates f(i) for every 64-bit (or 32-bit) counter i of the loop"""
    def mk(ex, vs, syms):
        r = []
        for v in vs:
            g = v.index(None, 1)
            if g is None: continue
            c = lambda I, g=g: f(T.bv(g(I), 64)); c.text = '%s(%s)' % (text, v.name); r.append(c)
        return r
    mk.maker = True; return mk
def W8(x): return z3.ZeroExt(8, T.bv(x, 64))
def filled(n_of, byte):
    """memory after a loop that fills [buf, buf+i) byte by byte, all of it writable"""
    def cut(k):
        buf = n_of(k); return [mem_is(k.w.arena, None, lambda x, i: z3.If(z3.ULT(x - buf, T.bv(i, 64)), byte(x - buf), k.was(x))),
                               counted(lambda i: z3.Or(i == 0, z3.And(z3.ULE(k.w.DA, buf), z3.ULE(W8(buf) + W8(i), W8(k.w.N)))), 'writable so far')]
    return cut
def s_fstat(mods, fname):
    k = K(mods, fname, filled(lambda k: k.a[1], lambda j: z3.BitVecVal(0, 8))); buf = k.a[1]; use = z3.And(k.i[0] >= 0, k.i[0] <= 2, buf != 0); W = lambda x: z3.ZeroExt(8, x)
    ok = z3.And(z3.ULE(k.w.DA, buf), z3.ULE(W(buf) + 128, W(k.w.N)))
    for o in k.outs:
        if o.kind == 'throw': k.c.ob(o.st, z3.And(use, z3.Not(ok)), 'fstat: a valid pointer is served'); k.c.ob(o.st, k.c.is_exc(o, 'PROTECTION_FAULT'), 'fstat: a bad pointer is a protection fault'); k.quiet(o, 'fstat (fault)', (), arena=True); k.silent(o, 'fstat'); continue
        k.c.ob(o.st, z3.Or(z3.Not(use), ok), 'fstat: a bad pointer is a fault'); k.res(o, z3.If(use, B64(0), B64(-9)), 'fstat'); k.quiet(o, 'fstat', arena=True); k.silent(o, 'fstat')
        k.mem(o, lambda x: z3.If(z3.And(use, z3.ULT(x - buf, 128)), z3.BitVecVal(0, 8), k.was(x)), 'fstat: 128 zero bytes')
    return k.c
def s_getrandom(mods, fname):
    byte = lambda j: z3.Extract(7, 0, j * 17 + 31)
    k = K(mods, fname, filled(lambda k: k.a[0], byte)); buf, n = k.a[0], k.a[1]
    W = lambda x: z3.ZeroExt(8, x); ok = z3.Or(n == 0, z3.And(z3.ULE(k.w.DA, buf), z3.ULE(W(buf) + W(n), W(k.w.N))))
    for o in k.outs:
        if o.kind == 'throw': k.c.ob(o.st, z3.Not(ok), 'getrandom: a valid buffer is filled'); k.c.ob(o.st, k.c.is_exc(o, 'PROTECTION_FAULT'), 'getrandom: a bad buffer is a protection fault'); k.quiet(o, 'getrandom (fault)', (), arena=True); continue
        k.c.ob(o.st, ok, 'getrandom: a bad buffer is a fault'); k.res(o, n, 'getrandom'); k.quiet(o, 'getrandom', arena=True); k.silent(o, 'getrandom'); x = T.fresh('anybyte', 64)
        k.c.ob(o.st, z3.Or(z3.ULT(x - buf, n), z3.Select(k.c.arena(o.st), x) == k.was(x)), 'getrandom: only the buffer is written')
    return k.c
def s_clock(mods, fname):
    v = z3.BitVec('host_time', 128); rc = z3.BitVec('clock_result', 32); cell = []
    def clock(ex, st, a, ins, name):
        ex.oblige(st, T.eq(a[0], cell[0].i[0], 32), 'the clock the program names', name)
        ex.write(st, a[1], z3.Extract(63, 0, v), 8); ex.write(st, ptr_add(a[1], 8), z3.Extract(127, 64, v), 8); st.assume(z3.Or(rc == 0, rc == z3.BitVecVal(-1, 32))); return [Out('ret', st, rc)]
    k = K(mods, fname, contracts={'clock_gettime': clock}, prep=cell.append); tp = k.a[1]; use = tp != 0; ok = k.inside(tp, 16, True)
    for o in k.outs:
        if o.kind == 'throw': k.fault(o, T.lor(z3.Not(use), rc != 0, ok), tp, 'clock_gettime'); continue
        k.c.ob(o.st, T.lor(z3.Not(use), rc != 0, ok), 'clock_gettime: a bad pointer is a fault'); k.res(o, z3.If(z3.And(use, rc != 0), B64(-22), B64(0)), 'clock_gettime'); k.quiet(o, 'clock_gettime', arena=True); k.silent(o, 'clock_gettime')
        k.mem(o, lambda x: z3.If(z3.And(use, rc == 0, z3.ULT(x - tp, 16)), byteof(v, x - tp), k.was(x)), 'clock_gettime: the time of that clock')
    return k.c
def s_gettimeofday(mods, fname):
    v = z3.BitVec('host_time', 128)
    def clock(ex, st, a, ins, name):
        ex.write(st, a[0], z3.Extract(63, 0, v), 8); ex.write(st, ptr_add(a[0], 8), z3.Extract(127, 64, v), 8); return [Out('ret', st, 0)]
    k = K(mods, fname, contracts={'gettimeofday': clock}); tp = k.a[0]; use = tp != 0; ok = k.inside(tp, 16, True)
    for o in k.outs:
        if o.kind == 'throw': k.fault(o, T.lor(z3.Not(use), ok), tp, 'gettimeofday'); continue
        k.c.ob(o.st, T.lor(z3.Not(use), ok), 'gettimeofday: a bad pointer is a fault'); k.res(o, 0, 'gettimeofday'); k.quiet(o, 'gettimeofday', arena=True); k.silent(o, 'gettimeofday')
        k.mem(o, lambda x: z3.If(z3.And(use, z3.ULT(x - tp, 16)), byteof(v, x - tp), k.was(x)), 'gettimeofday: the time')
    return k.c
def s_nanosleep(mods, fname):
    k = K(mods, fname); rq, rm = k.a[0], k.a[1]; ok1 = T.lor(rq == 0, k.inside(rq, 16)); ok2 = T.lor(rq == 0, rm == 0, k.inside(rm, 16, True))
    for o in k.outs:
        if o.kind == 'throw': k.fault(o, T.land(ok1, ok2), None, 'nanosleep'); continue
        k.c.ob(o.st, T.land(ok1, ok2), 'nanosleep: a bad pointer is a fault'); k.res(o, 0, 'nanosleep'); k.quiet(o, 'nanosleep', arena=True)
        k.mem(o, lambda x: z3.If(z3.And(rq != 0, rm != 0, z3.ULT(x - rm, 16)), z3.BitVecVal(0, 8), k.was(x)), 'nanosleep: no time remains')
    return k.c
def s_gettid(mods, fname):
    k = K(mods, fname)
    for o in k.outs:
        if o.kind != 'ret': k.c.unreachable(o.st, 'never throws'); continue
        k.res(o, z3.SignExt(32, k.tid), 'gettid'); k.quiet(o, 'gettid'); k.silent(o, 'gettid')
    return k.c
def s_affinity(mods, fname):
    k = K(mods, fname); n, m = k.a[1], k.a[2]; use = z3.And(z3.UGE(n, 8), m != 0); ok = k.inside(m, 8, True)
    for o in k.outs:
        if o.kind == 'throw': k.fault(o, T.lor(z3.Not(use), ok), m, 'sched_getaffinity'); continue
        k.c.ob(o.st, T.lor(z3.Not(use), ok), 'sched_getaffinity: a bad pointer is a fault'); k.res(o, z3.If(use, B64(8), B64(-22)), 'sched_getaffinity'); k.quiet(o, 'sched_getaffinity', arena=True)
        k.mem(o, lambda x: z3.If(z3.And(use, z3.ULT(x - m, 8)), z3.If(x == m, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), k.was(x)), 'sched_getaffinity: one CPU')
    return k.c
def s_sigaltstack(mods, fname):
    k = K(mods, fname); ss, old = k.a[0], k.a[1]; ok = T.land(T.lor(old == 0, k.inside(old, 24, True)), T.lor(ss == 0, k.inside(ss, 24))); cur = z3.Concat(*reversed(k.ss))
    for o in k.outs:
        st = o.st
        if o.kind == 'throw':
            k.c.ob(st, T.lnot(ok), 'sigaltstack: valid pointers are served'); k.c.ob(st, k.c.is_exc(o, 'PROTECTION_FAULT'), 'sigaltstack: a bad pointer is a protection fault'); k.quiet(o, 'sigaltstack (fault)', (), arena=True)
        else:
            k.c.ob(st, ok, 'sigaltstack: a bad pointer is a fault'); k.res(o, 0, 'sigaltstack'); k.quiet(o, 'sigaltstack', arena=True)
            for off, w in ((0, 64), (8, 32), (16, 64)):
                was = z3.Extract(off * 8 + w - 1, off * 8, cur); now = z3.Concat(*[z3.Select(k.c.arena(st), ss + off + i) for i in reversed(range(w // 8))])
                k.c.ob(st, T.eq(k.c.ex.read(st, Ptr(k.per, off), w // 8), z3.If(ss != 0, now, was), w), 'sigaltstack: the new stack at +%d' % off)
        k.mem(o, lambda x: z3.If(z3.And(old != 0, T.zb(k.inside(old, 24, True)), z3.ULT(x - old, 24)), byteof(cur, x - old), k.was(x)), 'sigaltstack: the old stack')
    return k.c
def s_sigaction(mods, fname):
    k = K(mods, fname); act, old = k.a[1], k.a[2]; sig = k.i[0]; oks = z3.And(sig >= 0, sig <= 64); okp = T.land(T.lor(old == 0, k.inside(old, 32, True)), T.lor(act == 0, k.inside(act, 32)))
    oldv = z3.Concat(z3.ZeroExt(32, k.mask), B64(0), z3.If(k.alt != 0, B64(0x08000000), B64(0)), k.handler & B64(~3))
    for o in k.outs:
        st = o.st
        if o.kind == 'throw':
            k.c.ob(st, T.lor(T.land(z3.Not(oks), k.c.is_exc(o, 'INVALID_PROGRAM')), T.land(oks, T.lnot(okp), k.c.is_exc(o, 'PROTECTION_FAULT'))), 'rt_sigaction: refuses bad signals and pointers'); k.quiet(o, 'rt_sigaction (fault)', (), arena=True); continue
        k.c.ob(st, T.land(oks, okp), 'rt_sigaction: a bad signal or pointer is a fault'); k.res(o, 0, 'rt_sigaction'); k.quiet(o, 'rt_sigaction', arena=True)
        k.c.ob(st, int(bool(k.sigs)) and T.land(*([T.eq(s, sig, 32) for s in k.sigs] + [1, 1])), 'rt_sigaction: the action of that signal')
        k.mem(o, lambda x: z3.If(z3.And(old != 0, z3.ULT(x - old, 32)), byteof(oldv, x - old), k.was(x)), 'rt_sigaction: the old action')
        f = lambda off, n: z3.Concat(*[z3.Select(k.c.arena(st), act + off + i) for i in reversed(range(n))])
        k.c.ob(st, T.eq(k.c.ex.read(st, Ptr(k.sig, 0), 8), z3.If(act != 0, f(0, 8) & B64(~3), k.handler), 64), 'rt_sigaction: the new handler')
        k.c.ob(st, T.eq(k.c.ex.read(st, Ptr(k.sig, 8), 1), z3.If(act != 0, z3.If(f(8, 8) & B64(0x08000000) != 0, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), k.alt), 8), 'rt_sigaction: the new stack choice')
        k.c.ob(st, T.eq(k.c.ex.read(st, Ptr(k.sig, 12), 4), z3.If(act != 0, f(24, 4), k.mask), 32), 'rt_sigaction: the new mask')
    return k.c
def entered(k, o, sig, what):
    """the handler runs: PC is its address, SP the signal stack's top if it asks for it"""
    st = o.st; L = k.c.L
    k.c.ob(st, T.eq(k.c.field(st, 'pc'), k.handler - 4, 64), what + ': jumps to the handler')
    k.c.ob(st, T.eq(k.w.reg(st, 3), z3.If(k.alt != 0, k.ss[0] + k.ss[3], k.w.reg(k.c.st, 3)), 64), what + ': stack of the handler')
def s_kill(idx, abort):
    def f(mods, fname):
        k = K(mods, fname); sig = k.i[idx]; unset = z3.Or(k.handler == 0, k.handler == B64(-1)); L = k.c.L; rng = z3.And(sig >= 0, sig <= 64); ab = z3.And(sig == 6, unset) if abort else z3.BoolVal(False); 
        for o in k.outs:
            st = o.st
            if o.kind == 'throw':
                k.c.ob(st, T.lor(T.land(z3.Not(rng), k.c.is_exc(o, 'INVALID_PROGRAM')), T.land(ab, k.c.is_exc(o, 'GUEST_ABORT')), T.land(rng, z3.Not(ab), sig != 0, z3.Not(unset), z3.Not(k.exe), k.c.is_exc(o, 'EXECUTION_SPACE_PROTECTION_FAULT'))), 'kill: refuses bad signals, aborts on an unhandled abort')
                continue
            k.c.ob(st, z3.And(rng, z3.Not(ab)), 'kill: a bad signal or an abort is reported'); k.quiet(o, 'kill', (3, A0), [(L['pc'], 8)]); k.res(o, 0, 'kill')
            go = z3.And(sig != 0, z3.Not(unset)); s2 = Out('ret', st.copy().assume(go)); entered(k, s2, sig, 'kill'); s3 = st.copy().assume(z3.Not(go)); regs_only(k.c, s3, 'kill ignored'); k.c.frame(s3, [], 'kill ignored: frame', regs=False)
        return k.c
    return f
def s_readlinkat(mods, fname):
    isself = z3.Bool('is_self_exe'); txt = b'/tmp/program'; k = K(mods, fname, prep=lambda k: strings(k, isself)); buf, n = k.a[2], k.a[3]; m = z3.If(z3.ULT(n, 12), n, B64(12)); okp = k.inside(buf, m, True)
    for o in k.outs:
        if o.kind == 'throw': k.c.ob(o.st, T.lor(int(o.val[0] == 'memstring'), T.land(isself, T.lnot(okp), k.c.is_exc(o, 'PROTECTION_FAULT'), k.c.is_exc(o, None, buf))), 'readlinkat: faults only for bad pointers'); k.quiet(o, 'readlinkat (fault)', ()); continue
        k.c.ob(o.st, T.lor(z3.Not(isself), okp), 'readlinkat: a bad buffer is a fault'); k.res(o, z3.If(isself, m, B64(-2)), 'readlinkat'); k.quiet(o, 'readlinkat', arena=True)
        T0 = z3.Concat(*[z3.BitVecVal(b, 8) for b in reversed(txt + b'\0\0\0\0')])
        k.mem(o, lambda x: z3.If(z3.And(isself, z3.ULT(x - buf, m)), byteof(T0, x - buf), k.was(x)), 'readlinkat: the fake path')
    return k.c
def strings(K, isself):
    """std::string and Memory::memstring by contract"""
    c = K.c; k = K
    def memstring(ex, st, a, ins, name):
        ex.oblige(st, T.land(T.eq(a[2], k.a[1], 64), T.eq(a[3], 256, 64)), 'readlinkat: reads the path argument', name); t = st.copy(); ex.write(st, a[0], z3.BitVec('path_ptr', 64), 8); st.ghost = dict(st.ghost); st.ghost[('str', a[0].r.id)] = ('path',)
        return [Out('ret', st, None), Out('throw', t, ('memstring',))]
    def lit(ex, st, p):
        b = b''
        for i in range(64):
            x = ex.read(st, ptr_add(p, i), 1)
            if not isint(x): raise Unsupported('literal')
            if x == 0: return b
            b += bytes([x])
        raise Unsupported('literal')
    def equal(ex, st, a, ins, name):
        p = a[0] if isinstance(a[0], Ptr) and ('str', a[0].r.id) in st.ghost else a[1]; q = a[1] if p is a[0] else a[0]
        ex.oblige(st, int(st.ghost.get(('str', p.r.id)) == ('path',) and lit(ex, st, q) == b'/proc/self/exe'), 'readlinkat: compares the path with /proc/self/exe', name)
        return [Out('ret', st, isself)]
    def assign(ex, st, a, ins, name):
        b = lit(ex, st, a[1]); st.ghost = dict(st.ghost); st.ghost[('str', a[0].r.id)] = ('lit', b); return [Out('ret', st, a[0])]
    def size(ex, st, a, ins, name): return [Out('ret', st, len(st.ghost[('str', a[0].r.id)][1]))]
    def data(ex, st, a, ins, name):
        b = st.ghost[('str', a[0].r.id)][1]; r = Region('literal', 'obj', len(b), const=True); ex.regions[r.id] = r; st.mem[r.id] = ObjMem({i: (x, 1) for i, x in enumerate(b)}); return [Out('ret', st, Ptr(r, 0))]
    S = r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::'
    c.on(r'^loongarch::Memory::memstring', memstring); c.on(r'^bool std::operator==<char', equal); c.on(S + r'operator=\(char const\*\)', assign); c.on(S + r'(size|length)\(\) const', size); c.on(S + r'(data|c_str)\(\)', data); c.on(S + r'~?basic_string\(\)', c_nop)
def s_prlimit(mods, fname):
    k = K(mods, fname); res, p = k.i[1], k.a[3]; use = p != 0; W = lambda x: z3.ZeroExt(8, x); ok = z3.And(z3.ULE(k.w.DA, p), z3.ULT(W(p) + 8, W(k.w.N)))
    v = z3.If(res == 3, z3.Concat(B64(-1), B64(8 << 20)), z3.If(res == 7, z3.Concat(B64(4096), B64(1024)), z3.Concat(B64(-1), B64(-1))))
    for o in k.outs:
        if o.kind == 'throw': k.c.ob(o.st, z3.And(use, z3.Not(ok)), 'prlimit64: a valid pointer is served'); k.c.ob(o.st, k.c.is_exc(o, 'PROTECTION_FAULT'), 'prlimit64: a bad pointer is a protection fault'); k.quiet(o, 'prlimit64 (fault)', (), arena=True); continue
        k.c.ob(o.st, z3.Or(z3.Not(use), ok), 'prlimit64: a bad pointer is a fault'); k.res(o, 0, 'prlimit64'); k.quiet(o, 'prlimit64', arena=True)
        k.mem(o, lambda x: z3.If(z3.And(use, z3.ULT(x - p, 16)), byteof(v, x - p), k.was(x)), 'prlimit64: the limits')
    return k.c
def s_futex(mods, fname):
    k = K(mods, fname); op = k.i[1] & ~128
    for o in k.outs:
        if o.kind != 'ret': k.c.unreachable(o.st, 'never throws'); continue
        k.res(o, z3.If(op == 0, B64(-11), z3.If(op == 1, B64(0), B64(-38))), 'futex'); k.quiet(o, 'futex'); k.silent(o, 'futex')
    return k.c
def s_ppoll(mods, fname):
    def want(k, x, i):
        j = x - k.a[0]; e = k.a[0] + (j & B64(~7)); fd = k.rd(e, 4); ev = z3.If(j & 1 == 0, k.was(e + 4), k.was(e + 5))
        return z3.If(z3.And(z3.ULT(j, i * 8), z3.UGE(z3.Extract(2, 0, j), 6)), z3.If(z3.And(fd >= 0, fd <= 2), ev, z3.BitVecVal(0, 8)), k.was(x))
    k = K(mods, fname, lambda k: [mem_is(k.w.arena, None, lambda x, i: want(k, x, T.bv(i, 64))),
        counted(lambda i: z3.Or(i == 0, z3.And(z3.ULE(i, 1024), z3.ULE(k.w.DA, k.a[0]), z3.ULE(W8(k.a[0]) + W8(i) * 8, W8(k.w.N)))), 'writable so far')]); p, n = k.a[0], k.a[1]
    ok = T.land(T.ule(k.w.DA, p, 64), T.ult(p, k.w.N, 64), z3.ULE(z3.ZeroExt(8, n) * 8, z3.ZeroExt(8, k.w.N - p)))
    for o in k.outs:
        big = z3.UGT(n, 1024)
        if o.kind == 'throw': k.c.ob(o.st, T.lor(T.land(big, k.c.is_exc(o, 'ILLEGAL_OPERATION')), T.land(z3.Not(big), T.lnot(ok), k.c.is_exc(o, 'PROTECTION_FAULT'))), 'ppoll: refuses too many and bad descriptors'); k.quiet(o, 'ppoll (fault)', ()); continue
        k.c.ob(o.st, T.land(z3.Not(big), ok), 'ppoll: a bad array is a fault'); k.res(o, 0, 'ppoll'); k.quiet(o, 'ppoll', arena=True); k.mem(o, lambda x: want(k, x, n), 'ppoll: the standard descriptors are ready, others are not')
    return k.c

TABLE = {93: ('exit', s_exit), 94: ('exit_group', s_exit), 64: ('write', s_write), 66: ('writev', s_writev), 63: ('read', s_read), 56: ('openat', const(-2)), 57: ('close', fdcall(0)), 80: ('fstat', s_fstat), 29: ('ioctl', fdcall(-25)),
         25: ('fcntl', const(0)), 78: ('readlinkat', s_readlinkat), 291: ('fstatat', const(-38)), 73: ('ppoll', s_ppoll), 214: ('brk', const(0)), 226: ('mprotect', const(0)), 233: ('madvise', const(0)), 96: ('set_tid_address', s_gettid), 99: ('set_robust_list', const(0)),
         98: ('futex', s_futex), 178: ('gettid', s_gettid), 123: ('sched_getaffinity', s_affinity), 172: ('getpid', const(0)), 174: ('getuid', const(1000)), 175: ('geteuid', const(1000)), 176: ('getgid', const(1000)), 177: ('getegid', const(1000)),
         261: ('prlimit64', s_prlimit), 113: ('clock_gettime', s_clock), 169: ('gettimeofday', s_gettimeofday), 101: ('nanosleep', s_nanosleep), 130: ('tkill', s_kill(1, False)), 131: ('tgkill', s_kill(2, True)), 132: ('sigaltstack', s_sigaltstack),
         134: ('rt_sigaction', s_sigaction), 135: ('rt_sigprocmask', const(0)), 278: ('getrandom', s_getrandom), 167: ('prctl', const(0))}
OTHER = {215: 'munmap', 222: 'mmap'}

_inst = {}
def linux(mods):
    if id(mods) not in _inst: _inst[id(mods)] = installed(mods, 'loongarch::Machine::setup_linux_syscalls(')
    return _inst[id(mods)]
def u_table(mods):
    tab, c = linux(mods); c = Ctx(mods)
    for n in sorted(set(TABLE) | set(OTHER)): c.ob(c.st, int(n in tab), 'system call %d is installed' % n)
    extra = sorted(set(tab) - set(TABLE) - set(OTHER))
    c.ob(c.st, int(not extra), 'no further system call is installed %s' % (extra or ''))
    return c
def by_number(n, f):
    def u(mods):
        tab, c = linux(mods)
        if n not in tab: raise Unsupported('system call %d is not installed' % n)
        return f(mods, tab[n])
    return u
def u_sigget(mods):
    c = Ctx(mods); sig = c.sym('sig', 32); s = c.obj('signals', 64 * 16 + 64)
    for o in c.call('loongarch::Signals::get(', [Ptr(s, 0), sig]):
        ok = z3.And(sig >= 0, sig <= 64)
        if o.kind == 'throw': c.ob(o.st, T.land(z3.Not(ok), c.is_exc(o, 'INVALID_PROGRAM')), 'signals: refused only outside 0 to 64'); continue
        c.ob(o.st, ok, 'signals: outside 0 to 64 is refused')
        off = T.sub(to_int(o.val), s.base, 64); c.ob(o.st, T.eq(off, z3.If(sig == 0, B64(0), (z3.ZeroExt(32, sig) - 1) * 16), 64), 'signals: each signal has its own action inside the table')
    return c
def u_print(mods):
    log = []
    def fwrite(ex, st, a, ins, name):
        need_read(ex, st, a[0], T.mul(a[1], a[2], 64), name); log.append(a); return [Out('ret', st, a[2])]
    c = Ctx(mods, contracts={'fwrite': fwrite}); n = c.sym('len'); b = c.bytes('text', n, const=True)
    for o in c.call('loongarch::Machine::print(char const*, unsigned long', [c.m, Ptr(b, 0), n]):
        if o.kind != 'ret': c.unreachable(o.st, 'never throws'); continue
        c.ob(o.st, int(len(log) == 1) and T.land(T.eq(to_int(log[0][0]), b.base, 64), T.eq(T.mul(log[0][1], log[0][2], 64), n, 64)), 'print: writes exactly the text'); c.frame(o.st, [], 'print: frame')
    return c

def run(rep):
    rep.assumptions += ['host clock_gettime, gettimeofday and fwrite by their C contracts; the tracing output of verbose_syscalls has no other effect', 'std::string (of readlinkat) by its library contracts', 'Signals::per_thread returns the entry of its argument (std::map)']
    units = [('table of system calls', u_table, None), ('Signals::get', u_sigget, None), ('Machine::print', u_print, None)]
    for n, (nm, f) in sorted(TABLE.items()): units.append(('%d %s' % (n, nm), by_number(n, f), Native('sys_%s' % nm, 1500)))
    run_units(rep, units, SRCS, harness='api_sys')
