"""E02: system call instructions reach the handler of their number."""
from irv.fnv import *
from irv import insncheck
from irv.insncheck import Checker, Run, Verifier, N_SIM, N_SIMI, Unsupported
from irv.loops import per_index
import z3
SYSCALL, BREAK = 0x002b0000, 0x002a0000
NAMES = {'sys': 'system call with the number in A7', 'imm': 'system call with an immediate', 'brk': 'break'}
SRCS = ['machine.cpp', ('%s/harness/inst.cpp' % build.HERE, 'inst')]
B64 = z3.BitVecSort(64)

class Any: pass
class CallChecker(Checker):
    """one system call instruction on one engine; the handler is arbitrary: it may change registers,
    memory, the program counter and the limit, or throw"""
    def __init__(self, v, kind, eng, deadline=200):
        f = z3.BitVec('code', 10)
        w = SYSCALL if kind == 'sys' else T.concat([((SYSCALL if kind == 'imm' else BREAK) >> 10, 22), (f, 10)])
        Checker.__init__(self, v, kind, eng, word=w, deadline=deadline); self.kind = kind; self.code = f
    def handler(self, n_calls):
        run, w, L = self.run, self.w, self.w.L
        self.R1 = z3.Array('regs_after', z3.BitVecSort(5), B64); self.A1 = z3.Array('arena_after', B64, z3.BitVecSort(8)); self.pc1 = z3.BitVec('pc_after', 64); self.max1 = z3.BitVec('max_after', 64); self.cnt1 = z3.BitVec('counter_after', 64)
        def f(ex, st, a, ins, name):
            num = {'sys': T.trunc(self.a7(st), 64, 32), 'imm': T.zext(self.code, 10, 32), 'brk': 0}[self.kind]
            self.ob(ex, st, T.eq(T.bv(a[1], 32) if not isint(a[1]) else a[1], num, 32), 'number of the call')
            self.ob(ex, st, int(isinstance(a[0], Ptr) and a[0].r is w.machine) and T.eq(a[0].off, 0, 64), 'the handler gets this machine')
            if self.kind != 'brk' or self.eng == 'step': self.ob(ex, st, T.eq(w.get(st, 'pc'), run.P, 64), 'during the call the program counter is that of the instruction')
            if self.eng == 'sim' and self.kind != 'brk': self.ob(ex, st, T.eq(w.get(st, 'm_max'), run.max0, 64), 'during the call the instruction limit is visible')
            self.ob(ex, st, int(('called',) not in st.ghost), 'one call only')
            q = z3.BitVec('q5', 5); self.ob(ex, st, T.lor(q == 0, T.eq(w.reg(st, q), z3.Select(w.regs.base, q), 64)), 'registers are unchanged at the call')
            self.ob(ex, st, int(st.mem[w.arena.id].eq(w.arena0)), 'memory is unchanged at the call')
            st.ghost = dict(st.ghost); st.ghost[('called',)] = 1
            bad = st.copy()
            m = ex.content(st, w.machine).copy(); m.segs = dict(m.segs); m.segs['regs'] = ((None, z3.Store(self.R1, z3.BitVecVal(0, 5), z3.BitVecVal(0, 64))),); st.mem[w.machine.id] = m; st.mem[w.arena.id] = self.A1
            ex.write(st, Ptr(w.machine, L['pc']), self.pc1, 8); ex.write(st, Ptr(w.machine, L['m_max']), self.max1, 8); ex.write(st, Ptr(w.machine, L['m_counter']), self.cnt1, 8)
            if self.kind == 'brk': st.assume(self.pc1 == T.bv(run.P, 64))
            return [Out('ret', st, None), Out('throw', bad, ('handler',))]
        return f
    def a7(self, st): return z3.Select(self.w.regs.base, z3.BitVecVal(11, 5))
    def ob(self, ex, st, c, name): self.prove(st, T.zb(c) if isinstance(c, z3.BoolRef) else c, 'call: ' + name)
    def go(self):
        try:
            self.run = Run(self.v, self.word, self.eng, deadline=self.deadline); self.ex = self.run.ex; self.w = self.run.w
            self.s = Any(); self.s.faults = []; self.s.npc = None; self.s.fault = 0
            if self.kind == 'imm': self.w.st.assume(self.code != 0)
            nm = None
            for n, d in allnames(self.v.mods):
                if d.startswith('loongarch::Machine::system_call('): self.ex.contracts[n] = self.handler(0); nm = n
            if nm is None: raise Unsupported('no system_call')
            outs = self.run.run_step() if self.eng == 'step' else self.run.run_dispatch(N_SIM if self.eng == 'sim' else N_SIMI)
            live = thrown = 0
            for o in outs:
                if o.kind == 'throw':
                    if o.val == ('handler',): thrown += 1; self.passed_on(o)
                    else: self.out(o)
                else: live += 1; self.back(o)
            for b in self.ex.obls: self.add('exec: %s at %s' % (b.name, b.where), b.ok, model=b.model if b.ok is not True else None)
            self.add('reachable: return and exception', bool(live and thrown))
        except Unsupported as e: self.res.err = 'unsupported: %s' % e
        except RecursionError: self.res.err = 'recursion'
        if hasattr(self, 'ex'): self.res.solver_s = self.ex.solver.time; self.res.queries = self.ex.solver.n; self.res.funcs = sorted(self.ex.inlined)
        return self.res
    # where execution goes on
    def target(self):
        if self.kind == 'brk': return T.add(self.run.P, 4, 64)
        if self.kind == 'sys': return T.bv(self.pc1, 64) + 4
        return z3.Select(self.R1, z3.BitVecVal(1, 5))
    def moved(self):
        """the call does not simply go on behind the instruction"""
        if self.kind == 'imm': return 1
        if self.kind == 'brk': return 0
        return T.lor(self.max1 == 0, self.pc1 != T.bv(self.run.P, 64))
    def passed_on(self, o):
        st, w = o.st, self.w
        self.prove(st, int(('called',) in st.ghost), 'exception: comes from the handler')
        if self.kind != 'brk': self.prove(st, T.eq(w.get(st, 'pc'), self.run.P, 64), 'exception: the program counter is that of the instruction')
    def out(self, o):
        st, w, run = o.st, self.w, self.run; k = o.val; t = self.target()
        if self.eng != 'step' and k[0] == insncheck.MEXC and T.isint(k[1]) and k[1] == EXC['EXECUTION_SPACE_PROTECTION_FAULT'] and st.ghost.get(('segfor',)) == 'none' and ('called',) in st.ghost:
            self.prove(st, self.moved(), 'fault: not behind an ordinary call')
            self.prove(st, T.lnot(T.land(T.ule(w.begin, t, 64), T.ult(t, w.end, 64))), 'fault: only outside the segment'); self.prove(st, T.eq(k[2], t, 64), 'fault: reports the target'); return
        self.prove(st, 0, 'no-trap: raises %s' % (k[:2],))
    def regs_kept(self, st):
        w = self.w; q = z3.BitVec('q5', 5)
        self.prove(st, T.eq(w.reg(st, q), z3.Select(self.R1, q), 64), 'registers: as the handler left them', [q != 0]); self.prove(st, T.eq(w.reg(st, 0), 0, 64), 'zero: register zero reads zero')
        self.prove(st, T.eq(w.vreg(st, q), z3.Select(w.vr.base, q), 256), 'registers: vector registers'); self.prove(st, int(st.mem[w.arena.id].eq(self.A1)), 'memory: as the handler left it'); self.misc_cells(st)
    def back(self, o):
        st, w, run = o.st, self.w, self.run; t = self.target()
        self.prove(st, int(('called',) in st.ghost), 'call: the handler runs'); self.regs_kept(st)
        if self.eng == 'step':
            self.prove(st, T.eq(w.get(st, 'pc'), t, 64), 'next: program counter'); self.prove(st, T.eq(w.get(st, 'm_counter'), T.add(self.cnt1, 1, 64), 64), 'counter: one instruction'); self.prove(st, T.eq(w.get(st, 'm_max'), self.max1, 64), 'limit: as the handler left it'); return
        if self.kind == 'brk': self.npc = t; self.check_dispatch(o); return
        sim = self.eng == 'sim'; nxt = st.ghost.get(('next',)); mv = self.moved(); done = T.add(run.cnt0, 1, 64) if sim else None
        if nxt is None:
            self.prove(st, T.eq(w.get(st, 'm_max'), self.max1, 64), 'limit: as the handler left it')
            self.prove(st, mv, 'stop: not behind an ordinary call'); self.prove(st, T.eq(w.get(st, 'pc'), t, 64), 'stop: program counter')
            if not sim: self.prove(st, self.max1 == 0, 'stop: only when the handler stopped the machine'); return
            self.prove(st, T.eq(w.get(st, 'm_counter'), done, 64), 'stop: counter'); self.prove(st, T.ule(self.max1, done, 64), 'stop: only at the limit')
            self.prove(st, T.eq(T.b2bv(o.val, 1) if isinstance(o.val, z3.BoolRef) else o.val, T.b2bv(self.max1 == 0, 1), 1), 'stop: the result tells stop from limit'); return
        dec, base = nxt; begin = run.begin if dec is run.dec else run.begin2
        self.prove(st, T.lor(T.lnot(mv), T.ult(done, self.max1, 64) if sim else self.max1 != 0), 'next: stops at the limit')
        if dec is run.dec: self.prove(st, T.lor(T.lnot(mv), T.land(T.ule(w.begin, t, 64), T.ult(t, w.end, 64))), 'next: inside the segment')
        else: self.prove(st, T.land(mv, T.ule(run.begin2, t, 64), T.ult(t, run.end2, 64)), 'next: inside the other segment')
        self.prove(st, T.eq(base, T.shl(T.sub(T.lshr(t, 2, 64), T.lshr(begin, 2, 64), 64), 3, 64), 64), 'next: instruction')
        b2 = T.zext(run.b2v, 16, 64); self.prove(st, T.eq(w.get(st, 'pc'), T.add(T.add(t, b2, 64), 4, 64), 64), 'next: program counter')
        if sim: self.prove(st, T.eq(w.get(st, 'm_counter'), T.add(T.add(run.cnt0, 2, 64), T.lshr(b2, 2, 64), 64), 64), 'next: counter')

# ---------------------------------------------------------------- the table of handlers
class Table:
    """m_syscall_handlers seen through one arbitrary entry j"""
    def __init__(self, c, size=512):
        self.c = c; ex = c.ex; self.j = c.sym('j'); c.st.assume(z3.ULT(self.j, size)); self.old = z3.BitVec('handler_j', 64); self.size = size; self.fns = {}
        g = ex.global_ptr(self.glob('m_syscall_handlers'), None); self.r = g.r; g.r.kind = 'hook'; g.r.const = False; g.r.hook = self; g.r.pre = True
        c.st.mem[g.r.id] = ObjMem()
        u = ex.global_ptr(self.glob('m_unknown_syscall_handler'), None); self.u = u.r; u.r.kind = 'obj'; u.r.const = False; self.unk = z3.BitVec('unknown_handler', 64); c.st.mem[u.r.id] = ObjMem({0: (self.unk, 8)})
        c.st.ghost = dict(c.st.ghost); c.st.ghost['!entry'] = self.old
        self.HND = z3.Function('handler', B64, B64); c.st.assume(self.HND(self.j) == self.old)
        self.calls = []
        ex.contracts['*indirect'] = self.invoke
    def glob(self, nm):
        for m in self.c.mods:
            for g in m.globals:
                if nm in g: return g
        raise Unsupported('no global ' + nm)
    def idx(self, ex, st, off, where):
        ex.oblige(st, T.eq(T.extract(2, 0, off) if not isint(off) else off & 7, 0, 3), 'aligned access to the handler table', where)
        i = T.lshr(off, 3, 64); ex.oblige(st, T.ult(i, self.size, 64), 'bounds of the handler table', where); return i
    def read(self, ex, st, off, n, where):
        if n != 8: raise Unsupported('part of a handler')
        i = self.idx(ex, st, off, where); cur = st.ghost['!entry']
        return T.ite(T.eq(i, self.j, 64), cur, self.HND(T.bv(i, 64)), 64)      # other entries: any value
    def write(self, ex, st, off, v, n, where):
        if n != 8: raise Unsupported('part of a handler')
        i = self.idx(ex, st, off, where); st.ghost = dict(st.ghost)
        for cc, x in cases(v):
            if isinstance(x, Fn): self.fns[x.name] = x
        st.ghost['!entry'] = T.ite(T.eq(i, self.j, 64), to_int(v), st.ghost['!entry'], 64)
    def invoke(self, ex, st, a, ins, v):
        st.ghost = dict(st.ghost); st.ghost[('invoked',)] = Rec((to_int(v),) + tuple(a)); bad = st.copy()
        return [Out('ret', st, None), Out('throw', bad, ('handler',))]
def invoked(c, t, o, who, args, what):
    r = o.st.ghost.get(('invoked',))
    if r is None: c.unreachable(o.st, what + ': a handler runs'); return
    c.ob(o.st, T.eq(r[0], who, 64), what + ': the handler of that number')
    c.ob(o.st, int(len(r) == 1 + len(args) and isinstance(r[1], Ptr) and r[1].r is c.w.machine) and T.eq(r[1].off, 0, 64), what + ': gets this machine')
    for x, y in zip(r[2:], args[1:]): c.ob(o.st, T.eq(x, y, 32), what + ': gets the number')
    if o.kind == 'throw': c.ob(o.st, int(o.val == ('handler',)), what + ': passes the exception on')
    c.frame(o.st, [], what + ': nothing else happens'); c.ob(o.st, T.eq(o.st.ghost['!entry'], t.old, 64), what + ': the table is unchanged')

def u_call(mods):
    c = Ctx(mods, inv=False); t = Table(c); n = c.sym('n', 32); N = z3.ZeroExt(32, n)
    for o in c.call('loongarch::Machine::system_call(', [c.m, n]):
        known = z3.ULT(N, 512); s = o.st.copy().assume(known); r = Out(o.kind, s, o.val); s2 = o.st.copy().assume(z3.Not(known))
        k = o.st.ghost.get(('invoked',))
        if k is None: c.unreachable(o.st, 'system_call: a handler runs'); continue
        if c.ex.feasible(o.st, known): invoked(c, t, r, t.HND(N), [0], 'system_call')
        if c.ex.feasible(o.st, z3.Not(known)): invoked(c, t, Out(o.kind, s2, o.val), t.unk, [0, n], 'system_call of an unknown number')
    return c
def u_unchecked(mods):
    c = Ctx(mods, inv=False); t = Table(c); n = c.sym('n', 32); c.st.assume(z3.ULT(n, 512))
    for o in c.call('loongarch::Machine::unchecked_system_call(', [c.m, n]): invoked(c, t, o, t.HND(z3.ZeroExt(32, n)), [0], 'unchecked_system_call')
    return c
def u_install(mods):
    c = Ctx(mods, inv=False); t = Table(c); n = c.sym('n', 32); h = z3.BitVec('new_handler', 64)
    for o in c.call('loongarch::Machine::install_syscall_handler(', [n, h]):
        if o.kind != 'ret': c.unreachable(o.st, 'never throws'); continue
        c.ob(o.st, T.eq(o.st.ghost['!entry'], z3.If(z3.ZeroExt(32, n) == t.j, h, t.old), 64), 'install: exactly that entry'); c.ob(o.st, T.eq(to_int(c.ex.read(o.st, Ptr(t.u, 0), 8)), t.unk, 64), 'install: the handler of unknown numbers is kept')
    return c
def u_unknown(mods):
    c = Ctx(mods, inv=False); t = Table(c); h = z3.BitVec('new_handler', 64)
    for o in c.call('loongarch::Machine::set_unknown_syscall_handler(', [h]):
        if o.kind != 'ret': c.unreachable(o.st, 'never throws'); continue
        c.ob(o.st, T.eq(to_int(c.ex.read(o.st, Ptr(t.u, 0), 8)), h, 64), 'unknown numbers: the new handler'); c.ob(o.st, T.eq(o.st.ghost['!entry'], t.old, 64), 'unknown numbers: the table is kept')
    return c
def u_first(mods):
    """the first machine: every number without a handler gets the default, which reports the number in A7"""
    c = Ctx(mods, inv=False, deadline=120); t = Table(c); ex = c.ex
    fin = [(n, d) for n, d in allnames(mods) if re.match(r'^loongarch::Machine::Machine\(std::basic_string_view.*::\$_\d+::operator\(\)\(\) const$', d)]
    if len(fin) != 1: raise Unsupported('the initialisation of the handlers is elsewhere')
    f = fin[0][0]
    def entry(I, i):
        cur = I.st.ghost['!entry']; dflt = [fn_addr(n) for n in t.fns]
        new = t.old
        for d in dflt: new = z3.If(t.old == 0, T.bv(d, 64), t.old); break
        return T.eq(cur, z3.If(z3.ULT(t.j, T.bv(i, 64)), new, t.old), 64)
    ex.cut = lambda fname, b, k: [per_index(t.r, 8, entry)]
    base = c.st.copy()
    for o in c.ex.call(f, [Ptr(c.obj('closure', 8), 0)], c.st.copy()):
        if o.kind != 'ret': c.unreachable(o.st, 'first machine: never throws'); continue
        cur = o.st.ghost['!entry']; u = c.ex.read(o.st, Ptr(t.u, 0), 8); names = list(t.fns)
        c.ob(o.st, T.lor(t.old == 0, T.eq(cur, t.old, 64)), 'first machine: installed handlers are kept')
        c.ob(o.st, T.lor(t.old != 0, *[T.eq(cur, fn_addr(n), 64) for n in names]) if names else t.old != 0, 'first machine: every other number gets a default')
        for cc, x in cases(u):
            s = o.st.copy().assume(T.zb(cc))
            if isinstance(x, Fn):
                c.ob(s, t.unk == 0, 'first machine: an installed handler of unknown numbers is kept')
                n = c.sym('sysnum', 32)
                for p in c.ex.call(x.name, [c.m, n], s.copy()):
                    c.ob(p.st, c.is_exc(p, 'UNIMPLEMENTED_SYSCALL', T.sext(n, 32, 64)), 'default for unknown numbers: raises an exception with the number'); c.frame(p.st, [], 'default for unknown numbers: no effect')
            else: c.ob(s, T.land(t.unk != 0, T.eq(x, t.unk, 64)), 'first machine: the handler of unknown numbers is set')
        for n in names:
            s = base.copy()
            for p in c.ex.call(n, [c.m], s): invoked(c, t, p, t.unk, [0, z3.Extract(31, 0, T.bv(c.w.reg(c.st, 11), 64))], 'default handler')
    return c

def run(rep):
    from irv import pool
    rep.assumptions += ['a handler may change registers, memory, the program counter and the limit, or throw, but does not replace or evict the segment that is executing', 'std::call_once runs its function once, for the first machine', 'the decoder cache entry of the instruction is the one the real construction produces']
    v = Verifier(timeout=40000); tasks = [(k, e) for k in ('sys', 'imm', 'brk') for e in ('step', 'sim', 'simi')]
    res = pool.run(tasks, lambda t: CallChecker(v, t[0], t[1]).go(), limit=300, total=500); bad = []
    for i, (k, e) in enumerate(tasks):
        q, r = res[i]; name = '%s in engine %s' % (NAMES[k], e); rp = Native('calls_' + e, 1500)
        if q != 'ok': bad.append((name, rp, [('exploration', None, {'error': str(r)})])); continue
        nb = r.bad(); rep.count(name, len(r.obls), len(r.obls) - len(nb)); rep.solver_s += r.solver_s; rep.queries += r.queries; rep.funcs.update(r.funcs)
        if r.err: nb = nb + [('exploration', None, {'error': r.err})]
        if nb: bad.append((name, rp, [(n, ok, None if not isinstance(x, dict) or 'error' not in x else x) for n, ok, x in nb]))
    if bad: judge(rep, bad, 'api_call')
    cross(rep, [('engine ' + e, Native('calls_' + e, 1500)) for e in ('step', 'sim', 'simi')] if not bad else [], 'api_call')
    run_units(rep, [('system_call', u_call, Native('table', 1500)), ('unchecked_system_call', u_unchecked, Native('table', 1500)), ('install_syscall_handler', u_install, Native('table', 1500)), ('set_unknown_syscall_handler', u_unknown, Native('table', 1500)), ('first machine', u_first, Native('table', 1500))], SRCS, harness='api_call')
