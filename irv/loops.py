"""Loops by invariant: a loop that is cut is entered once, in an arbitrary state
satisfying the invariant (everything the body changes is arbitrary), its body is
run once, and the invariant is re-established on every back edge.  Invariants are
conjunctions of candidates (given, or generated from the loop's own comparisons)
that survive: those not true on entry or not preserved are dropped until the rest
is inductive.  Obligations are only recorded in the last pass, under the
invariant found.  Partial correctness: termination is not shown."""
import math, time
import z3
from . import terms as T
from . import ir
from .engine import Exec, Unsupported, Ptr, PIte, Fn, BA, Region, ObjMem, State, Out, is_ptrish, isint, to_int, to_ptr, val_same, val_ite, bitwidth, GHOST_W
from .ir import IntTy, FloatTy, PtrTy, StructTy, ArrTy, VecTy

class Shape:
    """what a pointer variable may be: constants, regions, anything else"""
    def __init__(self): self.items = []; self.opaque = False
    def add(self, v):
        ch = False
        if isinstance(v, PIte):
            a = self.add(v.a); b = self.add(v.b); return a or b
        if isinstance(v, Ptr): k = ('r', v.r)
        elif isinstance(v, Fn): k = ('f', v.name)
        elif isinstance(v, BA): k = ('b', v)
        elif isint(v): k = ('c', v)
        else:
            if not self.opaque: self.opaque = True; return True
            return False
        if not any(self.same(k, x) for x in self.items): self.items.append(k); return True
        return False
    @staticmethod
    def same(a, b): return a[0] == b[0] and (a[1] is b[1] if a[0] == 'r' else a[1] == b[1] if a[0] in 'cf' else a[1].label == b[1].label)
    def value(self, name, st):
        out = None
        for k, x in self.items:
            if k == 'r':
                if x.id not in st.mem and getattr(x, 'const', False) is False and x.kind != 'hook' and x.id not in st.mem:
                    return T.fresh(name + '_dead', 64)       # an object of an earlier iteration: nothing is known
                v = Ptr(x, T.fresh(name, 64))
            elif k == 'c': v = x
            elif k == 'f': v = Fn(x)
            else: v = x
            out = v if out is None else PIte(T.fresh(name + '_which', 'bool'), v, out)
        return out

def natural_loops(info):
    if hasattr(info, 'loops'): return info.loops
    succ = info.succ; blocks = list(info.blocks); entry = info.f.entry
    preds = {n: [] for n in blocks}
    for n in blocks:
        for s in succ[n]: preds[s].append(n)
    reach = set(); todo = [entry]
    while todo:
        n = todo.pop()
        if n in reach: continue
        reach.add(n); todo += succ[n]
    dom = {n: set(reach) for n in reach}; dom[entry] = {entry}
    ch = True; order = sorted(reach, key=lambda n: info.order[n])
    while ch:
        ch = False
        for n in order:
            if n == entry: continue
            ps = [dom[p] for p in preds[n] if p in reach]
            d = set.intersection(*ps) if ps else set()
            d = d | {n}
            if d != dom[n]: dom[n] = d; ch = True
    loops = {}
    for u in reach:
        for h in succ[u]:
            if h in dom[u]:
                body = {h}; st = [u]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st += [p for p in preds[x] if p in reach]
                loops.setdefault(h, set()).update(body)
    info.loops = loops
    return loops

class Inv:
    """what a candidate or a harness may look at: the state at the loop head"""
    def __init__(self, ex, st, env, entry): self.ex = ex; self.st = st; self.env = env; self.entry = entry
    def read(self, p, n): return self.ex.read_quiet(self.st, p, n)

class LVar:
    def __init__(self, name, get, regions, w): self.name = name; self.get = get; self.regions = regions; self.w = w
    def index(self, region, stride):
        """getter of the element index this variable stands for, or None"""
        if region is not None and any(r is region for r in self.regions):
            def g(I):
                v = self.get(I)
                if not isinstance(v, Ptr) or v.r is not region: raise KeyError
                return udiv_c(v.off, stride)
            return g
        if not self.regions and self.w in (32, 64):
            return lambda I: T.zext(self.get(I), self.w, 64) if self.w == 32 else to_int(self.get(I))
        return None
def udiv_c(a, k):
    if k & (k - 1) == 0: return T.lshr(a, k.bit_length() - 1, 64)
    return a // k if isint(a) else z3.UDiv(a, z3.BitVecVal(k, 64))
def per_index(region, stride, f):
    """candidate maker: f(I, idx) for every variable that may count elements of region"""
    def mk(ex, vs, syms):
        out = []
        for v in vs:
            g = v.index(region, stride)
            if g is None: continue
            c = lambda I, g=g: f(I, g(I)); c.text = '%s(%s)' % (getattr(f, '__name__', 'inv'), v.name); out.append(c)
        return out
    mk.maker = True
    return mk

def mem_is(region, base_index, f, entry_array=None):
    """invariant: every byte k of region equals f(k, i) for the loop counter i (one candidate per variable).
    Assumed by substitution (for all k), proved for an arbitrary k."""
    def mk(ex, vs, syms):
        out = []
        for v in vs:
            g = v.index(None, 1)
            if g is None and base_index: g = v.index(*base_index)
            if g is None: continue
            def c(I, g=g):
                k = T.fresh('anybyte', 64); return z3.Select(I.st.mem[region.id], k) == T.bv(f(k, g(I)), 8)
            def define(I, g=g):
                k = z3.BitVec(T.fresh_name('k'), 64); I.st.mem[region.id] = z3.Lambda([k], T.bv(f(k, g(I)), 8))
            c.define = define; c.text = 'memory as a function of %s' % v.name; out.append(c)
        return out
    mk.maker = True
    return mk

class LoopExec(Exec):
    """cut: fn(fn_name, header, ordinal) -> None (unroll) or list of candidate makers"""
    cut = None
    quiet = 0
    maxcand = 400
    def loop_spec(self, fn, info, b):
        if self.cut is None: return None
        lp = natural_loops(info)
        if b not in lp: return None
        ordn = sorted(lp, key=lambda n: info.order[n]).index(b)
        return self.cut(fn.name, b, ordn)

    def oblige(self, st, cond, name, where='', gen=None):
        if self.quiet:
            if isint(cond):
                if cond: return True
                st.assume(0); return False
            st.assume(cond); return True
        return Exec.oblige(self, st, cond, name, where, gen)

    def read_quiet(self, st, p, n):
        self.quiet += 1
        try: return self.read(st.copy(), p, n)
        finally: self.quiet -= 1

    def _run(self, fn, args, st):
        info = self.info(fn)
        env = {}
        if len(args) < len(fn.params): raise Unsupported('arity ' + fn.name)
        for (t, nm, at), a in zip(fn.params, args): env[nm] = a
        work = {fn.entry: [(st, env, None)]}
        outs = []
        self._drain(fn, info, work, outs, None, None)
        return self.merge_outs(outs, fn.ret)

    def _drain(self, fn, info, work, outs, within, head):
        """run the worklist; with `within`, edges to the loop head or out of the loop are collected"""
        visits = {}; backs = []; exits = {}
        while True:
            if within is not None:
                for k in list(work):
                    if k == head: backs += work.pop(k)
                    elif k not in within: exits.setdefault(k, []).extend(work.pop(k))
            if not work: break
            b = min(work, key=lambda n: info.order[n])
            items = work.pop(b)
            visits[b] = visits.get(b, 0) + 1
            if visits[b] > self.maxvisits: raise Unsupported('loop in %s does not unroll' % fn.name)
            if self.deadline and time.time() > self.deadline: raise Unsupported('time limit in %s' % fn.name)
            if self.block_hook:
                items = self.block_hook(self, fn, info, b, items, visits[b])
                if not items: continue
            spec = self.loop_spec(fn, info, b)
            for s, e in self.merge_items(info, b, items):
                if spec is not None: self.cut_loop(fn, info, b, spec, s, e, work, outs)
                else: self.run_block(fn, info, b, s, e, work, outs)
        return backs, exits

    # ------------------------------------------------------------------
    def cut_loop(self, fn, info, h, spec, st0, env0, work, outs):
        body = natural_loops(info)[h]
        phis = info.blocks[h].phis
        mod = {}          # (rid, off, n) -> Shape
        bmod = set(); smod = set(); gmod = set(); psh = {}
        for p in phis:
            s = psh[p.res] = Shape(); s.add(env0[p.res])
        user = [c for c in spec if not getattr(c, 'maker', False)]; makers = [c for c in spec if getattr(c, 'maker', False)]
        entry = Inv(self, st0, env0, None)
        def head(cands):
            st = st0.copy(); env = dict(env0); syms = []
            for p in phis:
                v0 = env0[p.res]; env[p.res] = self.havoc_val(p.res.lstrip('%'), p.ty, v0, psh[p.res], st, syms)
            for rid in bmod: st.mem[rid] = z3.Array(T.fresh_name('loop_bytes'), z3.BitVecSort(64), z3.BitVecSort(8))
            for (rid, off, n), sh in sorted(mod.items()):
                r = self.regions[rid]; m = self.content(st, r); v0 = self.read_cells(r, m, off, n)
                m = m.copy(); v = self.havoc_cell('%s+%d' % (r.name, off), n, v0, sh, st, syms)
                self.write_cell(r, m, off, v, n); st.mem[rid] = m
            for rid, nm in smod:
                r = self.regions[rid]; m = self.content(st, r).copy(); sg = next(s for s in r.segs if s.name == nm)
                m.segs = dict(m.segs); m.segs[nm] = ((None, z3.Array(T.fresh_name('loop_' + nm), z3.BitVecSort(sg.idxw), z3.BitVecSort(8 * sg.stride))),)
                st.mem[rid] = m
            for k in gmod:
                st.ghost = dict(st.ghost)
                st.ghost[k] = z3.BitVec(T.fresh_name('loop_ghost'), GHOST_W.get(k, 64)) if k[0] == '!' else ('havoc',)
            inv = Inv(self, st, env, entry)
            for c in cands:
                if hasattr(c, 'define'):     # a quantified fact about memory: assumed by substitution
                    try: c.define(inv)
                    except (KeyError, AttributeError, TypeError, Unsupported): pass
                    continue
                x = self.cand(c, inv)
                if x is not None: st.assume(T.boolof(x) if not isint(x) and not isinstance(x, z3.BoolRef) else x)
            return st, env, syms
        # candidates that hold on entry
        def on_entry(c):
            x = self.cand(c, Inv(self, st0, env0, entry))
            if x is None: return False
            if isint(x): return bool(x)
            return self.solver.check(list(st0.pc) + [z3.Not(x)], 5000)[0] == 'unsat'
        cands = [c for c in user if on_entry(c)]
        self.quiet += 1
        try:
            for rnd in range(12):
                st, env, syms = head(cands)
                hst = st.copy(); henv = dict(env); sy = syms
                backs, exits, _ = self.body_pass(fn, info, h, body, st, env)
                ch = False
                for bs, be, frm in backs: ch |= self.collect(phis, hst, henv, bs, be, psh, mod, bmod, smod, gmod)
                if not ch: break
            else: raise Unsupported('loop in %s: changed memory does not settle' % fn.name)
            auto = [c for c in self.auto(sy, hst, henv, backs, exits, phis) if on_entry(c)]
            vs = self.loop_vars(phis, psh, mod, hst, henv)
            made = [c for mk in makers for c in mk(self, vs, sy)]
            user += made
            cands += [c for c in made if on_entry(c)] + auto[:self.maxcand]
            # inductive subset
            while True:
                st, env, syms = head(cands)
                base = len(st.pc)
                backs, exits, _ = self.body_pass(fn, info, h, body, st, env)
                bad = set()
                for bs, be, frm in backs:
                    inv = Inv(self, bs, be, entry)
                    left = [i for i in range(len(cands)) if i not in bad]
                    terms = []
                    for i in left:
                        x = self.cand(cands[i], inv)
                        if x is None or isint(x) and not x: bad.add(i)
                        elif not isint(x): terms.append((i, x))
                    while terms:
                        q = list(bs.pc) + [z3.Not(z3.And(*[x for _, x in terms])) if len(terms) > 1 else z3.Not(terms[0][1])]
                        r, m = self.solver.check(q, 30000 if any(cands[i] in user for i, _ in terms) else 10000)
                        if r == 'unsat': break
                        drop = None
                        if r == 'sat':
                            drop = {i for i, x in terms if z3.is_false(m.eval(x, model_completion=True))}
                        if not drop:     # undecided together: one by one
                            res = {i: self.solver.check(list(bs.pc) + [z3.Not(x)], 40000 if cands[i] in user else 5000)[0] for i, x in terms}
                            drop = {i for i in res if res[i] != 'unsat'}
                            for i in drop:      # a given invariant lost to the solver's time limit: what fails later is undecided, not refuted
                                if res[i] != 'sat' and cands[i] in user: self.weak = getattr(cands[i], 'text', '?')
                            bad |= drop; break
                        bad |= drop; terms = [(i, x) for i, x in terms if i not in drop]
                    # memory changed that was thought unchanged?
                    if self.collect(phis, st, env, bs, be, psh, mod, bmod, smod, gmod, probe=True):
                        raise Unsupported('loop in %s: changed memory does not settle' % fn.name)
                if not bad: break
                cands = [c for i, c in enumerate(cands) if i not in bad]
        finally: self.quiet -= 1
        self.loops_cut = getattr(self, 'loops_cut', 0) + 1
        self.last_inv = cands
        if getattr(self, 'loop_log', None) is not None: self.loop_log.append((fn.name, h, [getattr(c, 'text', '?') for c in cands]))
        req = [c for c in user if getattr(c, 'required', False) and c not in cands]
        for c in req:
            st = st0.copy()
            self.obls_fail(st, 'loop invariant: %s' % getattr(c, 'text', '?'), fn.name)
        st, env, syms = head(cands)
        backs, exits, os = self.body_pass(fn, info, h, body, st, env)
        outs += os
        for k, v in exits.items(): work.setdefault(k, []).extend(v)

    def obls_fail(self, st, name, where):
        if self.quiet: return
        from .engine import Obl
        self.obls.append(Obl(name, None, None, where, 'not inductive', st.pc, None))

    def cand(self, c, inv):
        try: return c(inv)
        except (KeyError, AttributeError, TypeError, Unsupported): return None

    def body_pass(self, fn, info, h, body, st, env):
        w = {}; outs = []
        self.run_block(fn, info, h, st.copy(), dict(env), w, outs)
        backs, exits = self._drain(fn, info, w, outs, body, h)
        return [(s, e, f) for s, e, f in backs if not self.dead(s)], exits, outs
    def dead(self, s): return any(z3.is_false(c) for c in s.pc)

    def havoc_val(self, name, ty, v0, shape, st, syms):
        if isinstance(ty, PtrTy) or any(k == 'r' for k, x in shape.items):
            if shape.opaque and not any(k == 'r' for k, x in shape.items):
                v = T.fresh(name, 64); syms.append((v, v0 if not is_ptrish(v0) else None, 64, ('phi', '%' + name))); return v
            if shape.opaque: return T.fresh(name + '_any', 64)
            v = shape.value(name, st)
            if isinstance(v, Ptr) and isinstance(v0, Ptr) and v0.r is v.r: syms.append((v.off, v0.off, 64, ('phi', '%' + name)))
            return v
        if isinstance(ty, (StructTy, ArrTy, VecTy)): raise Unsupported('aggregate phi at a loop head')
        w = bitwidth(ty)
        if w == 1: return T.fresh(name, 'bool')
        v = T.fresh(name, w); syms.append((v, v0, w, ('phi', '%' + name))); return v

    def havoc_cell(self, name, n, v0, shape, st, syms):
        if any(k in 'rfb' for k, x in shape.items):
            if shape.opaque: return T.fresh(name + '_any', 64)
            v = shape.value(name, st)
            if isinstance(v, Ptr) and isinstance(v0, Ptr) and v0.r is v.r: syms.append((v.off, v0.off, 64, None))
            return v
        v = T.fresh(name, 8 * n)
        if n <= 8: syms.append((v, v0 if not is_ptrish(v0) else None, 8 * n, None))
        return v

    def settle(self, v, hst):
        """a pointer to an object made inside the iteration means nothing to the next one"""
        if isinstance(v, PIte): return PIte(v.c, self.settle(v.a, hst), self.settle(v.b, hst))
        if isinstance(v, Ptr) and v.r.kind != 'hook' and not v.r.const and v.r.id not in hst.mem and not v.r.name.startswith('@') and not getattr(v.r, 'pre', False): return T.fresh('stale', 64)
        return v
    def collect(self, phis, hst, henv, bs, be, psh, mod, bmod, smod, gmod, probe=False):
        ch = False
        for p in phis:
            if isinstance(p.ty, PtrTy) or any(k == 'r' for k, x in psh[p.res].items):
                v = be[p.res]
                if probe and val_same(v, henv[p.res]): continue
                ch |= psh[p.res].add(self.settle(v, hst))
        for rid in set(hst.mem) | set(bs.mem):
            m1 = hst.mem.get(rid); m2 = bs.mem.get(rid)
            if m1 is m2 or m2 is None: continue
            r = self.regions.get(rid)
            if r is None: continue
            if m1 is None:
                if r.id > getattr(self, 'region_mark', 0) and not self.preexisting(r, hst): continue
                m1 = self.content(hst, r)
            if not isinstance(m2, ObjMem):
                if m1.eq(m2) or rid in bmod: continue
                bmod.add(rid); ch = True; continue
            if m1.cells is not m2.cells:
                for off, (v, n) in list(m2.cells.items()):
                    c = m1.cells.get(off)
                    if c is not None and c[1] == n:
                        if val_same(c[0], v): continue
                    else:
                        old = self.read_cells(r, m1, off, n)
                        if val_same(old, v): continue
                    ch |= self.addmod(mod, rid, off, n, v, self.read_cells(r, m1, off, n), hst)
                for off, (v, n) in m1.cells.items():
                    if off in m2.cells: continue
                    # split at the back edge: covered by the pieces above
            for nm in set(m1.segs) | set(m2.segs):
                w1 = m1.segs.get(nm, ()); w2 = m2.segs.get(nm, ())
                if w1 is w2 or (rid, nm) in smod: continue
                if len(w1) == len(w2) and all((a[0] is b[0] or a[0] is not None and b[0] is not None and T.same(a[0], b[0])) and val_same(a[1], b[1]) for a, b in zip(w1, w2)): continue
                smod.add((rid, nm)); ch = True
        for k in set(hst.ghost) | set(bs.ghost):
            if k in gmod: continue
            if not val_same(hst.ghost.get(k), bs.ghost.get(k)): gmod.add(k); ch = True
        return ch

    def preexisting(self, r, st):
        """an object that existed before the loop although nothing was stored yet"""
        return not r.name.split('@')[0] in () and getattr(r, 'pre', False)

    def addmod(self, mod, rid, off, n, v, old, hst):
        k = (rid, off, n); v = self.settle(v, hst)
        if k in mod:
            s = mod[k]
        else:
            over = [x for x in mod if x[0] == rid and x[1] < off + n and x[1] + x[2] > off]
            if over:
                # refine to common pieces
                cuts = sorted({off, off + n} | {x[1] for x in over} | {x[1] + x[2] for x in over})
                for x in over: del mod[x]
                for a, b in zip(cuts, cuts[1:]):
                    s = mod[(rid, a, b - a)] = Shape(); s.add(T.fresh('piece', 8 * (b - a)))
                return True
            s = mod[k] = Shape(); s.add(old if is_ptrish(old) or isint(old) else old)
            s.add(v); return True
        return s.add(v) if is_ptrish(v) or any(q in 'rfb' for q, x in s.items) else False

    def loop_vars(self, phis, psh, mod, hst, henv):
        """every variable of the loop: LVar(get(inv) -> value, regions it may point into, width)"""
        out = []
        for p in phis:
            out.append(LVar(p.res, lambda I, nm=p.res: I.env[nm], [x for k, x in psh[p.res].items if k == 'r'], None if isinstance(p.ty, PtrTy) else bitwidth(p.ty)))
        for (rid, off, n), sh in mod.items():
            def g(I, rid=rid, off=off, n=n):
                r = self.regions[rid]; return self.read_cells(r, self.content(I.st, r), off, n)
            rs = [x for k, x in sh.items if k == 'r']
            out.append(LVar('%s+%d' % (self.regions[rid].name, off), g, rs, None if rs else 8 * n))
        return out

    # ---------------------------------------------------------------- candidates
    def auto(self, syms, hst, henv, backs, exits, phis):
        """order and equality against the values the loop itself compares with, and linear relations"""
        ids = {}
        for v, v0, w, key in syms: ids[v.get_id()] = (v, v0, w, key)
        out = []; seen = set()
        # next values
        strides = {}
        for v, v0, w, key in syms:
            ds = set()
            for bs, be, frm in backs:
                nv = self.current(v, key, hst, henv, bs, be)
                if nv is None: ds = {None}; break
                d = T.sub(nv, v, w)
                ds.add(d if isint(d) else None)
            if len(ds) == 1 and None not in ds: strides[v.get_id()] = ds.pop()
        def put(text, f):
            if text in seen: return
            seen.add(text); f.text = text; out.append(f)
        getters = {}
        for v, v0, w, key in syms: getters[v.get_id()] = self.getter(v, key, hst, henv)
        for v, v0, w, key in syms:
            if v0 is None: continue
            g = getters[v.get_id()]
            if g is None: continue
            put('%s >= entry' % v, lambda I, g=g, v0=v0, w=w: T.ule(v0, g(I), w))
            put('%s <= entry' % v, lambda I, g=g, v0=v0, w=w: T.ule(g(I), v0, w))
            put('%s == entry' % v, lambda I, g=g, v0=v0, w=w: T.eq(g(I), v0, w))
            s = strides.get(v.get_id())
            if s:
                s = min(s, (-s) & T.mask(w)); tz = (s & -s).bit_length() - 1
                if tz: put('%s - entry multiple of %d' % (v, 1 << tz), lambda I, g=g, v0=v0, w=w, tz=tz: T.eq(T.extract(tz - 1, 0, T.sub(g(I), v0, w)), 0, tz))
        sl = [(ids[i], s) for i, s in strides.items() if s and ids[i][1] is not None and getters[i]]
        for a in range(len(sl)):
            for b in range(a + 1, len(sl)):
                (x, x0, wx, kx), dx = sl[a]; (y, y0, wy, ky), dy = sl[b]
                if wx != wy: continue
                sx = T.sgn(dx, wx) if hasattr(T, 'sgn') else dx; sy = T.sgn(dy, wx)
                gq = math.gcd(sx, sy); kx_, ky_ = sy // gq, sx // gq
                gx, gy = getters[x.get_id()], getters[y.get_id()]
                put('%s ~ %s' % (x, y), lambda I, gx=gx, gy=gy, x0=x0, y0=y0, p=kx_, q=ky_, w=wx: T.eq(T.mul(T.sub(gx(I), x0, w), p & T.mask(w), w), T.mul(T.sub(gy(I), y0, w), q & T.mask(w), w), w))
        atoms = []; base = set(hst.pcids)
        def walk(c, d=0):
            if not isinstance(c, z3.BoolRef) or d > 6: return
            k = c.decl().kind() if z3.is_app(c) else None
            if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
                for x in c.children(): walk(x, d + 1)
            elif k in (z3.Z3_OP_EQ, z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT) and z3.is_bv(c.arg(0)):
                atoms.append((T.norm(c.arg(0)), T.norm(c.arg(1))))
        done = set()
        for bs in [x[0] for x in backs] + [x[0] for v in exits.values() for x in v]:
            for c in bs.pc:
                if c.get_id() in base or c.get_id() in done: continue
                done.add(c.get_id()); walk(c)
        for a, b in atoms:
            w = a.size() if not isint(a) else (b.size() if not isint(b) else 64)
            d = {}
            t = T.sub(a, b, w)
            if isint(t): continue
            T._lin_full(t, 1, d, w)
            hs = [(i, k) for i, (x, k) in d.items() if i in ids]
            if len(hs) != 1 or hs[0][1] not in (1, -1): continue
            i, k = hs[0]
            if any(self.mentions(x, ids) for j, (x, kk) in d.items() if j != i): continue
            v, v0, wv, key = ids[i]; g = getters[i]
            if wv != w or g is None: continue
            B = T.sub(v, t, w) if k == 1 else T.add(v, t, w)
            if not isint(B) and self.mentions(B, ids): continue
            put('%s <= %s' % (v, B), lambda I, g=g, B=B, w=w: T.ule(g(I), B, w))
            put('%s < %s' % (v, B), lambda I, g=g, B=B, w=w: T.ult(g(I), B, w))
            put('%s >= %s' % (v, B), lambda I, g=g, B=B, w=w: T.ule(B, g(I), w))
            put('%s > %s' % (v, B), lambda I, g=g, B=B, w=w: T.ult(B, g(I), w))
            put('%s s<= %s' % (v, B), lambda I, g=g, B=B, w=w: T.sle(g(I), B, w))
            put('%s s>= %s' % (v, B), lambda I, g=g, B=B, w=w: T.sle(B, g(I), w))
            if v0 is not None: put('%s within %s' % (v, B), lambda I, g=g, B=B, w=w, v0=v0: T.ule(T.sub(g(I), v0, w), T.sub(B, v0, w), w))
        return out

    def mentions(self, t, ids):
        todo = [t]; seen = set()
        while todo:
            x = todo.pop()
            if isint(x): continue
            i = x.get_id()
            if i in ids: return True
            if i in seen: continue
            seen.add(i); todo += x.children()
        return False

    def getter(self, v, key, hst, henv):
        """how to read variable v (a head symbol) in any state at the loop head"""
        if key and key[0] == 'phi':
            nm = key[1]
            def g(I):
                x = I.env[nm]
                if isinstance(x, Ptr): return x.off
                if is_ptrish(x): raise KeyError
                return x
            return g
        for rid, m in hst.mem.items():
            if not isinstance(m, ObjMem): continue
            for off, (x, n) in m.cells.items():
                y = x.off if isinstance(x, Ptr) else x
                if not isint(y) and isinstance(y, z3.ExprRef) and y.eq(v):
                    def g(I, rid=rid, off=off, n=n, isp=isinstance(x, Ptr)):
                        r = self.regions[rid]
                        z = self.read_cells(r, self.content(I.st, r), off, n)
                        if isinstance(z, Ptr): return z.off
                        if is_ptrish(z) or isp: raise KeyError
                        return z
                    return g
        return None
    def current(self, v, key, hst, henv, bs, be):
        g = self.getter(v, key, hst, henv)
        if g is None: return None
        try: return g(Inv(self, bs, be, None))
        except KeyError: return None
