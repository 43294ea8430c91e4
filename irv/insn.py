"""Single-instruction verification: real decoder + real handlers / real dispatch
loops against spec.isa."""
import json, os, time
import z3
from . import terms as T, build, engine, world
from .engine import *
from .world import World, layout, MEXC, TEXC, EXC

N_DECODE = '_ZN9loongarch3CPU6decodeENS_14la_instructionE'
N_STEP = '_ZN9loongarch3CPU8step_oneEb'
N_POP = '_ZN9loongarch22populate_decoder_cacheERNS_7MachineERKNS_14MachineOptionsERSt10shared_ptrINS_21DecodedExecuteSegmentEEmPKhmb'
N_SIM = '_ZN9loongarch3CPU8simulateEmmm'
N_SIMI = '_ZN9loongarch3CPU19simulate_inaccurateEm'
N_SEGFOR = '_ZNK9loongarch6Memory16exec_segment_forEm'
N_CHF = '_ZN9loongarch11DecoderData19compute_handler_forEPFvRNS_3CPUENS_14la_instructionEE'
SOURCES = ['la64.cpp', 'cpu.cpp', 'memory.cpp', 'memory_rw.cpp', 'machine.cpp', 'decoder_cache.cpp', 'threaded_rewriter.cpp', 'threaded_dispatch.cpp', 'threaded_inaccurate_dispatch.cpp']
STOPWORD = 0x00150000
CUTS = (4, 9, 14, 19)

def make_word(ma, mk, prefix='f'):
    parts = []; b = 31
    while b >= 0:
        c = b
        if mk >> b & 1:
            while c >= 0 and mk >> c & 1: c -= 1
            parts.append(((ma >> (c + 1)) & T.mask(b - c), b - c))
        else:
            while c >= 0 and not mk >> c & 1 and not (c < b and c in CUTS): c -= 1
            parts.append((z3.BitVec('%s%d_%d' % (prefix, b, c + 1), b - c), b - c))
        b = c
    return T.concat(parts)

def c_fresh64(ex, st, args, ins, name): return [Out('ret', st, T.fresh('ext', 64))]
def c_fresh32(ex, st, args, ins, name): return [Out('ret', st, T.fresh('ext', 32))]
def c_fma(w): return lambda ex, st, args, ins, name: [Out('ret', st, engine.uf('fma%d' % w, args[:3], [w] * 3, w))]
def c_u1(nm, w): return lambda ex, st, args, ins, name: [Out('ret', st, engine.uf(nm, args[:1], [w], w))]
def minmax(op): return lambda w: lambda ex, st, args, ins, name: [Out('ret', st, engine.f_minmax(op, args[0], args[1], w))]
LIBM = {'fma': c_fma(64), 'fmaf': c_fma(32), 'sqrt': c_u1('sqrt64', 64), 'sqrtf': c_u1('sqrt32', 32), 'trunc': c_u1('trunc64', 64), 'truncf': c_u1('trunc32', 32),
        'fmax': minmax('max')(64), 'fmaxf': minmax('max')(32), 'fmin': minmax('min')(64), 'fminf': minmax('min')(32),
        '_ZNSt6chrono3_V212steady_clock3nowEv': c_fresh64, '_ZNSt6chrono3_V212system_clock3nowEv': c_fresh64, '_ZNSt6chrono3_V221high_resolution_clock3nowEv': c_fresh64,
        'fprintf': c_fresh32, 'printf': c_fresh32, 'fwrite': c_fresh64, 'fputs': c_fresh32, 'fflush': c_fresh32, 'clock_gettime': c_fresh32,
        '_ZN9loongarch4util6crc32cEPKvm': c_fresh32,
        '_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm': lambda ex, st, args, ins, name: [Out('ret', st, [0, 0])]}

def c_indirect(ex, st, args, ins, v):
    # the embedder's clock callback: any value, no effect on the machine
    if 'm_rdtime_handler' in repr(v): return [Out('ret', st, T.fresh('rdtime', 64))]
    raise Unsupported('indirect call to %r' % (v,))
LIBM['*indirect'] = c_indirect

class Decoder:
    """hook for the decoder cache as seen by the dispatch loop: one real entry,
    and a stop marker wherever control goes next"""
    def __init__(self, vf, region):
        self.vf = vf; self.region = region
    def read(self, ex, st, off, n, where):
        vf = self.vf
        tz, k = T.low_known(off)
        if tz < 3: raise Unsupported('decoder cache access pattern at ' + where)
        k &= 7
        base = T.sub(off, k, 64)
        ent = st.ghost.get(('ent',))
        if ent is None:
            ent = NextRef(self, base)
            st.ghost = dict(st.ghost); st.ghost[('ent',)] = ent
            ex.oblige(st, T.land(int(self is vf.dec), T.eq(base, vf.xoff, 64)), 'entry of the starting pc', where)
        if ('next',) not in st.ghost and ent[0] is self and T.same(base, ent[1]):
            return self.field(vf.entry, k, n)
        st.ghost = dict(st.ghost)
        prev = st.ghost.get(('next',))
        if prev is not None and not (prev[0] is self and T.same(prev[1], base)):
            raise Unsupported('dispatch proceeds past the stop marker')
        st.ghost[('next',)] = NextRef(self, base)
        return self.field((vf.stop_bc, vf.stop_h, vf.b2, vf.stop_instr), k, n)
    def field(self, e, k, n):
        L = layout()
        full = {}
        for nm, w, v in (('dd.bytecode', 1, e[0]), ('dd.handler_idx', 1, e[1]), ('dd.block_bytes', 2, e[2]), ('dd.instr', 4, e[3])): full[L[nm]] = (v, w)
        if k in full and full[k][1] == n: return full[k][0]
        for o, (v, m) in full.items():
            if o <= k and k + n <= o + m: return T.extract(8 * (k - o + n) - 1, 8 * (k - o), v)
        raise Unsupported('decoder entry field access %d:%d' % (k, n))
    def write(self, ex, st, off, v, n, where):
        raise Unsupported('write to decoder cache')
class NextRef(tuple):
    def __new__(c, d, o): return tuple.__new__(c, (d, o))
    def __eq__(a, b): return isinstance(b, tuple) and a[0] is b[0] and T.same(a[1], b[1])
    def __hash__(a): return 1

class HandlerTable:
    def __init__(self, vf): self.vf = vf
    def read(self, ex, st, off, n, where):
        vf = self.vf
        if isint(off) and off == 0: return vf.invalid_handler
        for h, hx in vf.handlers:
            want = T.shl(T.zext(hx, 16, 64), 3, 64)
            if ex.oblige(st, T.eq(off, want, 64), 'handler index', where): return h
            return h
        raise Unsupported('handler table')
    def write(self, *a): raise Unsupported('write to handler table')

class Verifier:
    """holds the loaded modules; one per process"""
    def __init__(self, timeout=20000):
        self.mods = build.load(SOURCES)
        self.timeout = timeout; layout()

    def new(self, word, engine_name):
        return Run(self, word, engine_name)

class Run:
    def __init__(self, v, word, eng, deadline=120, low=0):
        self.eng = eng; self.word = word
        C = dict(world.BASE_CONTRACTS); C.update(LIBM)
        ex = self.ex = Exec(v.mods, C, Solver(v.timeout))
        ex.deadline = time.time() + deadline
        ex.regions = dict(Exec.regions) if False else {}
        w = self.w = World(ex)
        self.p62 = z3.BitVec('pc_hi', 62)
        self.P = T.concat([(self.p62, 62), (0, 2)])
        st = w.st
        # the instruction word is in guest memory at pc
        st.assume(T.ule(w.RO, self.P, 64)); st.assume(T.ult(self.P, w.N, 64))
        arr = st.mem[w.arena.id]
        for i in range(4):
            b = T.extract(8 * i + 7, 8 * i, word)
            arr = z3.Store(arr, T.bv(T.add(self.P, i, 64), 64), T.bv(b, 8))
        st.mem[w.arena.id] = arr; w.arena0 = arr
        L = w.L
        w.extra[(L['pc'], 8)] = self.P
        self.fcc = z3.BitVec('fcc', 8); w.extra[(L['fcc'], 1)] = self.fcc
        self.ll = z3.BitVec('ll', 1); w.extra[(L['ll_bit'], 1)] = T.zext(self.ll, 1, 8)
        w.cnt_init = w.extra[(L['m_counter'], 8)] = z3.BitVec('m_counter', 64)
        w.extra[(L['m_curexc'], 8)] = 0          # entry condition: no pending exception
        self.b2 = z3.BitVec('b_next', 14)
        self.handlers = []

    # --- spec view
    def spec(self, mn):
        from spec import isa
        w = self.w; R = w.regs.base; V = w.vr.base
        def gr(i):
            if isint(i): return 0 if i == 0 else z3.Select(R, z3.BitVecVal(i, 5))
            return z3.If(i == 0, z3.BitVecVal(0, 64), z3.Select(R, i))
        def vr(i): return z3.Select(V, T.bv(i, 5))
        def cf(i):
            if isint(i): return T.boolof(T.extract(i, i, self.fcc))
            return T.boolof(T.extract(0, 0, T.lshr(self.fcc, T.zext(i, 3, 8), 8)))
        def mem(a): return self.ex.bsel(w.arena0, a)
        s = isa.S(self.word, gr, vr, self.P, cf, mem, w.RO, w.DA, w.N, T.boolof(self.ll))
        isa.SPEC[mn](s)
        return s

    # --- engines
    def run_step(self):
        ex, w = self.ex, self.w
        return ex.call(N_STEP, [Ptr(w.machine, 0), 1], w.st)

    def populate(self, st, word, seg):
        """real populate_decoder_cache on a one-instruction segment at pc"""
        ex, w, L = self.ex, self.w, self.w.L
        code = Region('code', 'obj', 4); ex.add_region(st, code); st.mem[code.id] = ObjMem({0: (word, 4)})
        sp = Region('shared_ptr', 'obj', 16); ex.add_region(st, sp); st.mem[sp.id] = ObjMem({0: (Ptr(seg, 0), 8), 8: (0, 8)})
        opt = Region('options', 'obj', L['Options']); ex.add_region(st, opt); st.mem[opt.id] = ObjMem()
        n0 = len(ex.obls)
        o = ex.call(N_POP, [Ptr(w.machine, 0), Ptr(opt, 0), Ptr(sp, 0), self.P, Ptr(code, 0), 4, 0], st)
        return o

    def read_entry(self, st, seg, k=0):
        ex, L = self.ex, self.w.L
        p = ex.read(st, Ptr(seg, L['seg.cache']), 8)
        e = []
        for nm, n in (('dd.bytecode', 1), ('dd.handler_idx', 1), ('dd.block_bytes', 2), ('dd.instr', 4)):
            e.append(ex.read(st, ptr_add(p, k * L['DecoderData'] + L[nm]), n))
        return e

    def run_dispatch(self, fname):
        """returns list of outcomes; sets self.entry etc"""
        ex, w, L = self.ex, self.w, self.w.L
        st = w.st
        # segment geometry
        self.bhi = z3.BitVec('begin_hi', 62); begin = self.begin = T.concat([(self.bhi, 62), (0, 2)])
        end = self.end = w.end
        w.begin = begin
        st.assume(T.ule(begin, self.P, 64)); st.assume(T.ule(T.add(self.P, 4, 64), end, 64)); st.assume(T.ule(end, 1 << 47, 64))
        # contract of compute_handler_for (checked in its own right): index 0 is
        # the invalid handler, any other handler has one fixed index below 512
        self.hidx = z3.BitVec('hidx', 9)
        def chf(ex, st, args, ins, name):
            h = args[0]
            h0 = self.invalid_handler
            if h0 is None: self.invalid_handler = h; return [Out('ret', st, 0)]
            if val_same(h, h0): return [Out('ret', st, 0)]
            hx = T.zext(self.hidx, 9, 16)
            if not any(val_same(h, x[0]) for x in self.handlers): self.handlers.append((h, hx))
            return [Out('ret', st, hx)]
        self.invalid_handler = None
        if ex.find_func(N_CHF) is not None: ex.contracts[N_CHF] = chf
        st.assume(T.ult(0, self.hidx, 9))
        # real cache construction for this word, and for the stop marker
        st0 = st.copy()
        o = self.populate(st0, STOPWORD, w.segment)
        if len(o) != 1 or o[0].kind != 'ret': raise Unsupported('populate(stop marker)')
        e = self.read_entry(o[0].st, w.segment)
        if not isint(e[0]): raise Unsupported('stop marker')
        self.stop_bc, self.stop_h, self.stop_instr = e[0], e[1], e[3]
        self.handlers = []; self.invalid_handler = None
        o = self.populate(st, self.word, w.segment)
        res = []
        rets = [x for x in o if x.kind == 'ret']
        if any(x.kind != 'ret' for x in o): raise Unsupported('populate throws')
        if not rets: raise Unsupported('populate')
        if len(self.handlers) > 1: raise Unsupported('several handlers for one instruction class')
        for x in rets: res += self.dispatch_one(fname, x.st)
        return res

    def B_of(self, st): return self.Bmore if st.ghost.get(('B',)) else 0

    def dispatch_one(self, fname, st):
        ex, w, L = self.ex, self.w, self.w.L
        bc, h, bb, ins = self.read_entry(st, w.segment)
        # the entry may sit anywhere in a block: more instructions follow a
        # non-diverging one
        return self.split_entry(fname, st, [bc, h, bb, ins])

    def split_entry(self, fname, st, e):
        cs = []
        for v in e: T.top_ites(v, cs)
        if not cs:
            if not isint(e[2]): raise Unsupported('block size of a single instruction')
            return self.dispatch_entry(fname, st, *e)
        c = cs[0]; res = []
        for truth, s in ((True, st.copy()), (False, st)):
            cc = c if truth else T.lnot(c)
            if not self.ex.feasible(s, cc): continue
            s.assume(cc)
            res += self.split_entry(fname, s, [T.reduce_ite(v, c, truth) for v in e])
        return res

    def dispatch_entry(self, fname, st, bc, h, bb, ins):
        ex, w, L = self.ex, self.w, self.w.L
        acc = z3.BitVec('acc', 14)
        if bb == 0: B = 0
        else:
            B = T.concat([(acc, 14), (0, 2)]); st.assume(T.lnot(T.eq(acc, 0, 14)))
        self.B = B; self.Bmore = T.concat([(acc, 14), (0, 2)])
        st.ghost = dict(st.ghost); st.ghost[('B',)] = 0 if bb == 0 else 1
        self.entry = (bc, h, B, ins)
        dreg = Region('decoder', 'hook', None); self.dec = Decoder(self, dreg); dreg.hook = self.dec
        ex.add_region(st, dreg)
        self.xoff = T.sub(T.shl(T.zext(self.p62, 62, 64), 3, 64), T.shl(T.zext(self.bhi, 62, 64), 3, 64), 64)
        self.b2v = T.concat([(self.b2, 14), (0, 2)])
        self.b2, keep = self.b2v, self.b2
        # decoder cache pointer now refers to the abstract cache
        m = st.mem[w.segment.id].copy(); m.cells[L['seg.cache']] = (Ptr(dreg, 0), 8); st.mem[w.segment.id] = m
        # handler table
        ht = Region('handlers', 'hook', None); ht.hook = HandlerTable(self); ex.add_region(st, ht)
        hv = ex.global_ptr('_ZN9loongarch11DecoderData10m_handlersE', None)
        st.mem[hv.r.id] = ObjMem({0: (Ptr(ht, 0), 8), 8: (Ptr(ht, 8 * 600), 8), 16: (Ptr(ht, 8 * 600), 8)})
        # other segments
        seg2 = Region('segment2', 'obj', L['Segment']); ex.add_region(st, seg2)
        d2 = Region('decoder2', 'hook', None); d2.hook = Decoder(self, d2); ex.add_region(st, d2); self.dec2 = d2.hook
        self.b2hi = z3.BitVec('begin2_hi', 62); self.begin2 = T.concat([(self.b2hi, 62), (0, 2)]); self.end2 = z3.BitVec('exec_end2', 64)
        st.mem[seg2.id] = ObjMem({L['seg.begin']: (self.begin2, 8), L['seg.end']: (self.end2, 8), L['seg.cache']: (Ptr(d2, 0), 8)})
        eseg = Region('segment_empty', 'obj', L['Segment']); ex.add_region(st, eseg)
        st.mem[eseg.id] = ObjMem({L['seg.begin']: (0, 8), L['seg.end']: (0, 8), L['seg.cache']: (0, 8)})
        def seg_for(ex, st, args, ins, name):
            a = args[-1]
            s1 = st.copy(); s2 = st
            outs = []
            for s, seg, tag in ((s1, eseg, 'none'), (s2, seg2, 'other')):
                if len(args) == 3: sp = args[0]; rv = None       # returned by value
                else:
                    spr = Region('sp', 'obj', 16); ex.add_region(s, spr); sp = rv = Ptr(spr, 0)
                ex.write(s, sp, Ptr(seg, 0), 8); ex.write(s, ptr_add(sp, 8), 0, 8)
                s.ghost = dict(s.ghost); s.ghost[('segfor',)] = tag
                outs.append(Out('ret', s, rv))
            s2.assume(T.ule(self.begin2, a, 64)); s2.assume(T.ult(a, self.end2, 64)); s2.assume(T.ule(self.end2, 1 << 47, 64))
            return outs
        ex.contracts[N_SEGFOR] = seg_for
        self.cnt0 = z3.BitVec('counter0', 64); self.max0 = z3.BitVec('max0', 64)
        st.assume(T.ule(self.cnt0, 1 << 62, 64))
        args = [Ptr(w.machine, 0), self.P]
        if fname == N_SIM: args += [self.cnt0, self.max0]
        self.st_entry = st
        try: return ex.call(fname, args, st)
        finally: self.b2 = keep
