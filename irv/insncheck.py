"""Obligations for one instruction class on one engine: the outcomes of the
real code (irv.insn.Run) against the instruction's contract (spec.isa)."""
import time
import z3
from . import terms as T, world
from .engine import *
from .world import MEXC, TEXC, EXC, layout
from .insn import *
from spec import isa

class Res:
    """result of one (mnemonic, engine) run: named obligations"""
    def __init__(self, mn, eng):
        self.mn = mn; self.eng = eng; self.obls = []; self.err = None; self.solver_s = 0.0; self.queries = 0; self.wall = 0.0; self.funcs = []
    def bad(self): return [o for o in self.obls if o[1] is not True]

def chunks(v, W):
    """bit ranges of v along its concatenation structure"""
    if T.isint(v): return [(W - 1, 0)]
    out = []; t = W
    for c in T.cat_children(v):
        out.append((t - 1, t - c.size())); t -= c.size()
    # merge slivers below 8 bits
    m = []
    for hi, lo in out:
        if m and (m[-1][0] - m[-1][1] + 1 < 8): m[-1] = (m[-1][0], lo)
        else: m.append((hi, lo))
    return m

class Checker:
    def __init__(self, v, mn, eng, word=None, spec=True, want=None, deadline=100):
        self.v = v; self.mn = mn; self.eng = eng; self.res = Res(mn, eng); self.want = want; self.deadline = deadline
        self.word = word if word is not None else STOPWORD if mn == 'stop' else make_word(*isa.table()[mn])
    def add(self, name, ok, st=None, cond=None, model=None):
        self.res.obls.append((name, ok, self.describe(model) if ok is not True else None))
    def describe(self, model):
        if model is None: return None
        d = {}
        try:
            def ev(x): 
                r = model.eval(T.bv(x, 1) if isinstance(x, int) else x, model_completion=True)
                return r.as_long() if z3.is_bv_value(r) else str(r)
            d['word'] = ev(T.bv(self.word, 32)); d['pc'] = ev(T.bv(self.run.P, 64))
            R = self.run.w.regs.base; V = self.run.w.vr.base
            d['regs'] = [0] + [ev(z3.Select(R, z3.BitVecVal(i, 5))) for i in range(1, 32)]
            vs = {}
            for i in range(32):
                x = ev(z3.Select(V, z3.BitVecVal(i, 5)))
                if x: vs[i] = '%#x' % x
            d['vr'] = vs
            d['fcc'] = ev(self.run.fcc); d['ll'] = ev(self.run.ll)
            d['N'] = ev(self.run.w.N); d['RO'] = ev(self.run.w.RO); d['DA'] = ev(self.run.w.DA)
            mem = {}
            def rd(a):
                if a not in mem: mem[a] = ev(z3.Select(self.w.arena0, z3.BitVecVal(a, 64)))
                return mem[a]
            if self.eng != 'step':
                d['begin'] = ev(T.bv(self.run.begin, 64)); d['end'] = ev(self.run.end); d['next_block'] = ev(z3.BitVec('b_next', 14)); d['acc'] = ev(z3.BitVec('acc', 14)); d['counter'] = ev(self.run.cnt0) if hasattr(self.run, 'cnt0') else 0; d['max'] = ev(self.run.max0) if hasattr(self.run, 'max0') else 0
            from . import concrete
            if self.mn in isa.SPEC: concrete.spec_on(self.mn, d, rd)
            d['mem'] = {a: b for a, b in mem.items() if a < d['N'] + 64 and not 0 <= a - d['pc'] < 4}
        except Exception as e:
            d['model_error'] = repr(e)
        return d
    def prove(self, st, cond, name, extra=()):
        if self.want and not self.want(name): return True
        if T.isint(cond):
            if cond: self.add(name, True); return True
            q = list(st.pc) + [T.zb(e) for e in extra]
        else:
            if cond.get_id() in st.pcids: self.add(name, True); return True
            q = list(st.pc) + [T.zb(e) for e in extra] + [z3.Not(cond)]
        if self.s.faults and name[:5] in ('fault', 'mem: '):
            # the address computation does not matter: any address will do
            sub = [(T.bv(a, 64), z3.BitVec('anyaddr%d' % i, 64)) for i, a in enumerate(self.s.faults) if not T.isint(a) and a.num_args()]
            if sub and self.ex.solver.check([z3.substitute(x, *sub) for x in q])[0] == 'unsat': self.add(name, True); return True
        r = self.ex.solver.check(q)
        if r[0] == 'unsat': self.add(name, True); return True
        if r[0] == 'sat': r = self.nicer(q, r)
        self.add(name, False if r[0] == 'sat' else None, model=r[1])
        return False
    def nicer(self, q, r):
        """a counterexample small enough to be run, if there is one"""
        w = self.w
        base = [z3.ULE(w.N, 1 << 30)]
        extra = [z3.UGE(w.RO, 64)]
        if self.eng != 'step':
            base += [z3.ULE(w.end, 1 << 31)]
            extra += [z3.ULE(z3.BitVec('acc', 14), 4), z3.ULE(z3.BitVec('b_next', 14), 4)]
            if hasattr(self.run, 'cnt0'): extra += [z3.ULE(self.run.cnt0, 1000), z3.UGE(self.run.max0, 1 << 40)]
        for c in (base + extra, base):
            x = self.ex.solver.check(list(q) + c, 10000)
            if x[0] == 'sat': return x
        return r
    def go(self):
        t0 = time.time()
        try:
            self.run = Run(self.v, self.word, self.eng, deadline=self.deadline)
            self.ex = self.run.ex; self.w = self.run.w
            s = self.s = self.run.spec('or' if self.mn == 'stop' else self.mn)
            if not T.isint(s.pre): self.w.st.assume(s.pre)
            elif T.isint(s.pre) and not s.pre: raise Unsupported('vacuous precondition')
            if getattr(s, 'indirect', False): self.w.st.assume(T.eq(T.extract(1, 0, s.npc), 0, 2))
            if self.mn == 'or' and self.eng != 'step': self.w.st.assume(T.lnot(T.eq(self.word, STOPWORD, 32)))
            self.npc = s.npc if s.npc is not None else T.add(self.run.P, 4, 64)
            outs = self.run.run_step() if self.eng == 'step' else self.run.run_dispatch(N_SIM if self.eng == 'sim' else N_SIMI)
            live = 0
            for o in outs:
                if o.kind == 'throw': self.check_throw(o)
                else: live += 1; self.check_ret(o)
            # engine-level obligations (bounds, absence of undefined behaviour)
            for b in self.ex.obls:
                if self.want and not self.want('exec: ' + b.name): continue
                self.add('exec: %s at %s' % (b.name, short(b.where)), b.ok, model=b.model if b.ok is not True else None)
            # vacuity: some normal outcome must be reachable
            if not live: self.add('reachable: normal completion', False)
            elif not any(self.ex.solver.check(list(o.st.pc))[0] == 'sat' for o in outs if o.kind != 'throw'): self.add('reachable: normal completion', False)
        except Unsupported as e:
            self.res.err = 'unsupported: %s' % e
        except RecursionError as e:
            self.res.err = 'recursion'
        if hasattr(self, 'ex'):
            self.res.solver_s = self.ex.solver.time; self.res.queries = self.ex.solver.n; self.res.funcs = sorted(self.ex.inlined)
        self.res.wall = time.time() - t0
        return self.res

    def check_throw(self, o):
        s, st, w = self.s, o.st, self.w
        kind = o.val
        if kind[0] not in (MEXC, TEXC):
            self.prove(st, 0, 'no-trap: raises %s' % kind[0]); return
        ty = kind[1]
        if T.isint(ty) and ty == EXC['PROTECTION_FAULT']:
            if not self.prove(st, s.fault, 'fault: raised only outside the permitted memory'): return
            a = 0
            for x in s.faults: a = T.lor(a, T.eq(kind[2], x, 64))
            self.prove(st, a, 'fault: reports the faulting address')
            self.frame(st, 'fault')
            return
        if self.eng != 'step' and s.npc is not None:
            if T.isint(ty) and ty == EXC['EXECUTION_SPACE_PROTECTION_FAULT']:
                if st.ghost.get(('segfor',)) == 'none':
                    self.prove(st, T.lnot(T.land(T.ule(self.w.begin, self.npc, 64), T.ult(self.npc, self.w.end, 64))), 'branch: execution fault only outside the segment')
                    self.prove(st, T.eq(kind[2], self.npc, 64), 'branch: execution fault reports the target')
                    self.frame(st, 'branch-out', link=True)
                    return
            if T.isint(ty) and ty == EXC['ILLEGAL_OPCODE'] and not getattr(s, 'indirect', False):
                e4 = T.add(s.target, 4, 64)
                self.prove(st, T.lnot(T.land(T.land(T.ule(self.w.begin, s.target, 64), T.ult(s.target, self.w.end, 64)), T.land(T.ult(s.target, e4, 64), T.ule(e4, self.w.end, 64)))), 'branch: trap only when the target is outside the segment')
                return
        self.prove(st, 0, 'no-trap: raises exception type %s' % (ty,))

    def frame(self, st, tag, link=False):
        """nothing architectural changed"""
        w = self.w
        q = z3.BitVec('q5', 5)
        if not link: self.prove(st, T.eq(w.reg(st, q), z3.Select(w.regs.base, q), 64), '%s: registers unchanged' % tag, [q != 0])
        self.prove(st, T.eq(w.vreg(st, q), z3.Select(w.vr.base, q), 256), '%s: vector registers unchanged' % tag)
        a = st.mem[w.arena.id]
        if not a.eq(w.arena0):
            p = z3.BitVec('p64', 64)
            self.prove(st, T.eq(self.ex.bsel(a, p), z3.Select(w.arena0, p), 8), '%s: memory unchanged' % tag)

    def val(self, st, got, want, W, name, extra=()):
        if callable(want): self.prove(st, want(got), name, extra); return
        if T.same(got, want): self.add(name, True); return
        e = T.eq(got, want, W)
        if T.isint(e) and e: self.add(name, True); return
        ch = chunks(want, W)
        if len(ch) == 1: ch = chunks(got, W)
        for hi, lo in ch:
            self.prove(st, T.eq(T.extract(hi, lo, got), T.extract(hi, lo, want), hi - lo + 1), name, extra)

    def check_ret(self, o):
        s, st, w, run, ex = self.s, o.st, self.w, self.run, self.ex
        # a load whose destination is register zero may be dropped altogether
        nz = [T.lnot(T.eq(s.gw[0][0], 0, 5))] if len(s.gw) == 1 and not s.stores and not T.isint(s.fault) and not T.isint(s.gw[0][0]) else []
        if not self.prove(st, T.lnot(s.fault), 'fault: raised whenever the access is not permitted', nz):
            if not T.isint(s.fault): st.assume(T.lnot(s.fault))
        # general registers
        idxs = []
        for idx, v in s.gw:
            idxs.append(idx)
            nz = T.lnot(T.eq(idx, 0, 5))
            if T.isint(nz) and not nz: continue
            self.val(st, w.reg(st, idx), v, 64, 'gpr: destination', [] if T.isint(nz) else [nz])
        q = z3.BitVec('q5', 5)
        ne = [z3.Not(q == T.bv(i, 5)) for i in idxs + s.free_gr]
        fq = self.lookup_except(w.regs, st, q, idxs + s.free_gr)
        self.prove(st, T.eq(fq, z3.Select(w.regs.base, q), 64), 'gpr: others unchanged', ne + [q != 0])
        self.prove(st, T.eq(w.reg(st, 0), 0, 64), 'zero: register zero still reads zero')
        # vector / fp registers
        vidx = []
        for idx, v, W in s.vw:
            vidx.append(idx)
            got = T.extract(W - 1, 0, w.vreg(st, idx))
            self.val(st, got, v, W, 'vr: destination')
        ne = [z3.Not(q == T.bv(i, 5)) for i in vidx]
        fq = self.lookup_except(w.vr, st, q, vidx)
        self.prove(st, T.eq(fq, z3.Select(w.vr.base, q), 256), 'vr: others unchanged', ne)
        # condition flags
        fcc = w.get(st, 'fcc', 1); exp = run.fcc
        for i, b in s.cw:
            bits = [T.extract(k, k, exp) for k in range(8)]
            exp = T.concat([(T.ite(T.eq(i, k, 3), T.b2bv(b, 1), bits[k], 1), 1) for k in reversed(range(8))])
        self.prove(st, T.eq(fcc, exp, 8), 'fcc: flags')
        # link bit
        ll = w.get(st, 'll_bit', 1)
        nll = run.ll if s.nll is None else s.nll
        self.prove(st, T.eq(ll, T.zext(nll, 1, 8), 8), 'll: reservation')
        # memory
        a = st.mem[w.arena.id]
        arr = w.arena0; p = z3.BitVec('p64', 64)
        if not s.stores and a.eq(w.arena0): self.add('mem: contents', True)
        else:
            exp = ex.bsel(arr, p)
            for c, addr, n, v in s.stores:
                if all(T.isint(c) and c for c in (c,)):
                    arr2 = arr
                    for i in range(n): arr2 = z3.Store(arr2, T.bv(T.add(addr, i, 64), 64), T.bv(T.extract(8 * i + 7, 8 * i, v), 8))
                    if arr2.eq(a): exp = None; break
                d = T.sub(p, addr, 64)
                for i in range(n): exp = T.ite(T.land(c, T.eq(d, i, 64)), T.extract(8 * i + 7, 8 * i, v), exp, 8)
            if exp is None: self.add('mem: contents', True)
            else: self.prove(st, T.eq(ex.bsel(a, p), exp, 8), 'mem: contents')
        self.misc_cells(st)
        # program counter
        if self.eng == 'step':
            self.prove(st, T.eq(w.get(st, 'pc'), self.npc, 64), 'pc: next instruction')
            self.prove(st, T.eq(w.get(st, 'm_counter'), T.add(self.w.cnt_init, 1, 64), 64), 'counter: one instruction')
        else: self.check_dispatch(o)

    def lookup_except(self, seg, st, q, idxs):
        c = self.ex.content(st, self.w.machine)
        for i in idxs: self.ex.declare_distinct(i, q)
        return self.ex.seg_lookup(seg, c.segs.get(seg.name, ()), q)

    def misc_cells(self, st):
        w, L, ex = self.w, self.w.L, self.ex
        allowed = {L['pc'], L['fcc'], L['ll_bit'], L['m_counter'], L['m_max'], L['m_curexc']}
        if self.eng != 'step': allowed.add(L['exec'])
        m = ex.content(st, w.machine)
        bad = []
        for off, (v, n) in m.cells.items():
            if off in allowed: continue
            init = w.machine_initial(off, n)
            if init is not None and val_same(v, init): continue
            bad.append((off, n))
        self.add('frame: no other machine state changes', not bad) if not bad else self.add('frame: no other machine state changes (offset %s)' % bad[:4], False)

    def check_dispatch(self, o):
        s, st, w, run, ex = self.s, o.st, self.w, self.run, self.ex
        B = run.B_of(st); B = T.zext(B, 16, 64) if not T.isint(B) else B
        nxt = st.ghost.get(('next',))
        npc = self.npc; b2 = T.zext(run.b2v, 16, 64)
        pcv = w.get(st, 'pc')
        branch = s.npc is not None
        if self.mn == 'stop':
            if nxt is not None: self.prove(st, 0, 'stop: execution stops'); return
            self.prove(st, T.eq(pcv, npc, 64), 'stop: pc is behind the stop instruction')
            if self.eng == 'sim':
                self.prove(st, T.eq(w.get(st, 'm_counter'), T.add(run.cnt0, 1, 64), 64), 'stop: instructions counted')
                self.prove(st, T.eq(T.b2bv(o.val, 1) if isinstance(o.val, z3.BoolRef) else o.val, 1, 1), 'stop: reports a normal stop')
            return
        Bz = T.isint(B) and B == 0
        if branch and not Bz:
            self.prove(st, 0, 'block: a branch ends its block'); return
        sim = self.eng == 'sim'
        if nxt is None:
            if not sim: self.prove(st, 0, 'limit: stops without reaching a stop'); return
            self.prove(st, T.eq(pcv, npc, 64), 'limit: resumes at the next instruction')
            cnt = w.get(st, 'm_counter')
            self.prove(st, T.eq(cnt, T.add(run.cnt0, 1, 64), 64), 'limit: counter')
            self.prove(st, T.ule(run.max0, cnt, 64), 'limit: stops only when the limit is reached')
            self.prove(st, T.eq(o.val, T.b2bv(T.eq(run.max0, 0, 64), 1), 1) if not isinstance(o.val, z3.BoolRef) else T.eq(T.b2bv(o.val, 1), T.b2bv(T.eq(run.max0, 0, 64), 1), 1), 'limit: result tells stop from limit')
            return
        dec, base = nxt
        if dec is run.dec:
            want = T.shl(T.sub(T.lshr(npc, 2, 64), T.lshr(run.begin, 2, 64), 64), 3, 64)
            self.prove(st, T.eq(base, want, 64), 'pc: next instruction')
            if branch: self.prove(st, T.land(T.ule(w.begin, npc, 64), T.ule(npc, w.end, 64)), 'pc: stays in the segment')
        elif dec is run.dec2:
            want = T.shl(T.sub(T.lshr(npc, 2, 64), T.lshr(run.begin2, 2, 64), 64), 3, 64)
            self.prove(st, T.eq(base, want, 64), 'pc: next instruction')
            self.prove(st, T.land(T.ule(run.begin2, npc, 64), T.ult(npc, run.end2, 64)), 'pc: stays in the segment')
            self.prove(st, T.lnot(T.land(T.ule(w.begin, npc, 64), T.ult(npc, w.end, 64))), 'pc: leaves the segment only when outside')
        if Bz:
            self.prove(st, T.eq(pcv, T.add(T.add(npc, b2, 64), 4, 64), 64), 'pc: value at the next block')
            cexp = T.add(T.add(run.cnt0, 2, 64), T.lshr(b2, 2, 64), 64)
        else:
            self.prove(st, T.eq(pcv, T.add(T.add(run.P, B, 64), 4, 64), 64), 'pc: value inside the block')
            cexp = T.add(T.add(run.cnt0, 1, 64), T.lshr(B, 2, 64), 64)
        if sim:
            self.prove(st, T.eq(w.get(st, 'm_counter'), cexp, 64), 'counter: instructions executed')
            if branch: self.prove(st, T.lor(T.eq(npc, T.add(run.P, 4, 64), 64), T.ult(T.add(run.cnt0, 1, 64), run.max0, 64)), 'limit: a jump is taken only below the limit')
        self.prove(st, T.b2bv(o.val, 1) == 1 if isinstance(o.val, z3.BoolRef) else T.eq(o.val, 1, 1) if o.val is not None else 1, 'stop: reports a normal stop')

def short(w): return w.split('::')[-1][-60:] if w else ''
