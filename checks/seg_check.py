"""E04: executable segments."""
from irv.fnv import *
from irv.loops import per_index
SRCS = ['memory.cpp', 'cpu.cpp', 'shared_exec_segment.cpp']
M = 'loongarch::Memory::'
STRIDE = 1024
class Segs:
    """the segment list of a machine: an optional main segment, n further ones (any n), and the empty segment"""
    def __init__(self, c):
        self.c = c; L = c.L; w = c.w; ex = c.ex
        self.n = c.sym('segments'); c.st.assume(z3.ULT(self.n, z3.BitVecVal(1 << 40, 64)))
        self.B = z3.Array('seg_begin', z3.BitVecSort(64), z3.BitVecSort(64)); self.E = z3.Array('seg_end', z3.BitVecSort(64), z3.BitVecSort(64))
        # segment objects, as one family addressed by index
        self.objs = Region('segments', 'hook', None); self.objs.hook = ArrayHook('segments', self.n, STRIDE, self.rd_obj); ex.regions[self.objs.id] = self.objs; c.st.mem[self.objs.id] = ObjMem()
        self.vec = Region('m_exec', 'hook', None); self.vec.hook = ArrayHook('m_exec', self.n, 16, self.rd_vec); ex.regions[self.vec.id] = self.vec; c.st.mem[self.vec.id] = ObjMem()
        self.ctrl = c.obj('ctrl', 64)
        MM = L['memory']
        self.main = c.obj('main_segment', L['Segment']); self.mb = c.sym('main_begin'); self.me = c.sym('main_end'); self.has = z3.Bool('has_main'); c.watch['has_main'] = T.bv(self.has, 64)
        self.main.init = lambda off, n: {L['seg.begin']: self.mb, L['seg.end']: self.me}.get(off) if n == 8 else None
        self.empty = c.obj('empty_segment', L['Segment']); self.empty.init = lambda off, n: 0 if n == 8 and off in (L['seg.begin'], L['seg.end']) else None
        w.extra.update({(MM + L['mem.exec'], 8): Ptr(self.vec, 0), (MM + L['mem.exec'] + 8, 8): Ptr(self.vec, T.shl_c(self.n, 4, 64)),
                        (MM + L['mem.main_seg'], 8): PIte(self.has, Ptr(self.main, 0), 0), (MM + L['mem.main_seg'] + 8, 8): Ptr(self.ctrl, 0)})
        self.es = c.obj('empty_shared', 16, {0: (Ptr(self.empty, 0), 8), 8: (Ptr(self.ctrl, 0), 8)})
        ex.contracts[c.fn('loongarch::CPU::empty_execute_segment()')] = lambda ex, st, args, ins, name: [Out('ret', st, Ptr(self.es, 0))]
    def rd_obj(self, idx, inner, n):
        L = self.c.L
        if n == 8 and inner == L['seg.begin']: return z3.Select(self.B, T.bv(idx, 64))
        if n == 8 and inner == L['seg.end']: return z3.Select(self.E, T.bv(idx, 64))
        raise Unsupported('other field of a segment')
    def rd_vec(self, idx, inner, n):
        if n == 8 and inner == 0: return Ptr(self.objs, T.shl_c(idx, 10, 64))
        if n == 8 and inner == 8: return Ptr(self.ctrl, 0)
        raise Unsupported('part of a shared_ptr')
    def within(self, b, e, pc):
        """[pc, pc+4) inside [b, e)"""
        W = lambda x: z3.ZeroExt(8, T.bv(x, 64))
        return T.land(T.ule(b, pc, 64), z3.ULE(W(pc) + 4, W(e)))
    def win(self, i, pc): return self.within(z3.Select(self.B, T.bv(i, 64)), z3.Select(self.E, T.bv(i, 64)), pc)
    def main_in(self, pc): return T.land(self.has, self.within(self.mb, self.me, pc))

def is_obj(c, v, r, off=0):
    return int(isinstance(v, Ptr) and v.r is r) and T.eq(v.off, off, 64) if isinstance(v, Ptr) else 0

def which(v, f):
    """condition that pointer v satisfies f, through selections"""
    if isinstance(v, PIte): return T.ite(v.c, which(v.a, f), which(v.b, f), 1)
    return f(v)

def is_seg_for(s, v, pc, any_j):
    """v is the segment that holds pc: main first, then the first in the list, else the empty one"""
    def f(p):
        if not isinstance(p, Ptr): return 0
        if p.r is s.main: return T.land(s.main_in(pc), T.eq(p.off, 0, 64))
        if p.r is s.empty: return T.land(T.lnot(s.main_in(pc)), T.lor(T.ule(s.n, any_j, 64), T.lnot(s.win(any_j, pc))), T.eq(p.off, 0, 64))
        if p.r is s.objs:
            i = T.lshr(p.off, 10, 64)
            return T.land(T.lnot(s.main_in(pc)), s.win(i, pc), T.ult(i, s.n, 64), T.lor(T.ule(i, any_j, 64), T.lnot(s.win(any_j, pc))), T.eq(T.extract(9, 0, p.off), 0, 10))
        return 0
    return which(v, f)

def u_exec_segment_for(mods):
    c = Ctx(mods); s = Segs(c); pc = c.sym('pc'); j = T.fresh('anyseg', 64)
    f = c.fn(M + 'exec_segment_for(')
    def none_before(I, idx): return T.lor(T.ule(idx, j, 64), T.lnot(s.win(j, pc)))
    c.ex.cut = lambda fname, b, k: [per_index(s.vec, 16, none_before)] if fname == f else None
    out = c.obj('result', 16)
    for o in c.call(M + 'exec_segment_for(', [Ptr(out, 0), c.mem, pc]):
        if o.kind != 'ret': c.unreachable(o.st, 'the lookup never throws'); continue
        v = c.ex.read(o.st, Ptr(out, 0), 8)
        c.ob(o.st, is_seg_for(s, v, pc, j), 'the segment that contains the address, or the empty one')
        c.frame(o.st, [], 'lookup: frame')
    return c

def shared_counts(c):
    """reference counts: copying and releasing a shared_ptr has no effect the contracts speak of"""
    c.on(r'^std::_Sp_counted_base<.*>::(_M_release|_M_add_ref_copy)\(\)', c_nop); c.on(r'^std::(__)?shared_ptr<.*>::~(__)?shared_ptr\(\)', c_nop); c.on(r'^std::mutex::(un)?lock\(\)', c_nop)

def u_next(mods):
    c = Ctx(mods); s = Segs(c); shared_counts(c); pc = c.sym('pc'); w = c.w; L = c.L; i0 = T.fresh('seg_i', 64); j = T.fresh('anyseg', 64)
    # a created segment may be empty: then it contains nothing (is_within), which the lookup contract covers
    def lookup(ex, st, args, ins, name):      # contract of exec_segment_for, checked above
        ex.oblige(st, T.eq(args[2], pc, 64), 'looks up the address it was given', name)
        v = PIte(T.fresh('is_main', 'bool'), Ptr(s.main, 0), PIte(T.fresh('is_listed', 'bool'), Ptr(s.objs, T.shl_c(i0, 10, 64)), Ptr(s.empty, 0)))
        st.assume(z3.ULT(i0, T.bv(s.n, 64))); st.assume(T.zb(is_seg_for(s, v, pc, i0)))
        ex.write(st, args[0], v, 8); ex.write(st, ptr_add(args[0], 8), Ptr(s.ctrl, 0), 8); c.got = v
        return [Out('ret', st, None)]
    c.on(r'^loongarch::Memory::exec_segment_for\(', lookup); c.ex.contracts[c.fn('loongarch::Memory::exec_segment_for(')] = lookup
    for o in c.call('loongarch::CPU::next_execute_segment(', [c.cpu, pc]):
        inside = which(c.got, lambda p: int(p.r is not s.empty))
        if o.kind == 'throw':
            c.ob(o.st, T.lnot(inside), 'change of segment: faults only where no segment contains the address'); c.ob(o.st, c.is_exc(o, 'EXECUTION_SPACE_PROTECTION_FAULT', pc), 'change of segment: kind and address of the fault'); continue
        c.ob(o.st, inside, 'change of segment: faults where no segment contains the address')
        same = lambda v: ptr_same(v, c.got)
        c.ob(o.st, T.land(same(o.val[0]), T.eq(o.val[1], pc, 64)), 'change of segment: that segment, and exactly that address')
        c.ob(o.st, same(c.ex.read(o.st, Ptr(w.machine, L['exec']), 8)), 'change of segment: it becomes the current one'); c.frame(o.st, [(L['exec'], 8)], 'change of segment: frame')
    return c

def ptr_same(a, b):
    if isinstance(a, PIte): return T.ite(a.c, ptr_same(a.a, b), ptr_same(a.b, b), 1)
    if isinstance(b, PIte): return T.ite(b.c, ptr_same(a, b.a), ptr_same(a, b.b), 1)
    if isinstance(a, Ptr) and isinstance(b, Ptr): return T.eq(a.off, b.off, 64) if a.r is b.r else 0
    return 0

CRC = z3.BitVec('crc_of_code', 32)
def u_create(mods):
    """the segment is shared by key or built for exactly this code, and published only when complete"""
    c = Ctx(mods); s = Segs(c); shared_counts(c); w = c.w; L = c.L; addr = c.sym('addr'); n = c.sym('len'); c.st.assume(z3.ULE(n, z3.BitVecVal(1 << 40, 64))); code = c.bytes('code', n, const=True)
    opt = c.obj('options', L['Options']); init = z3.Bool('is_initial'); has = z3.Bool('shared_exists'); sh = c.sym('use_shared', 8); opt.init = lambda o, k: {(L['opt.shared'], 1): sh}.get((o, k)); c.st.assume(z3.ULE(sh, 1))
    entry = c.obj('entry', 128); old = c.obj('shared_segment', L['Segment']); entry.init = lambda o, k: {(0, 8): PIte(has, Ptr(old, 0), 0), (8, 8): PIte(has, Ptr(s.ctrl, 0), 0)}.get((o, k))
    cache = c.obj('shared_cache', 128); mk = []; ev = []
    c.on(r'^loongarch::util::crc32c\(', lambda ex, st, a, i, nm: (ex.oblige(st, T.land(T.eq(to_int(a[-2]), to_int(Ptr(code, 0)), 64), T.eq(a[-1], n, 64)), 'the key hashes all of the code', 'create'), [Out('ret', st, CRC)])[1])
    c.on(r'^loongarch::get_shared_execute_segments', lambda ex, st, a, i, nm: [Out('ret', st, Ptr(cache, 0))])
    def get_segment(ex, st, a, i, nm):
        k = a[2] if len(a) == 3 else None
        rd = lambda o, m: ex.read(st, ptr_add(a[-1], o), m)
        ex.oblige(st, T.land(T.eq(rd(L['key.pc'], 8), addr, 64), T.eq(rd(L['key.crc'], 4), CRC, 32), T.eq(rd(L['key.size'], 8), w.N, 64)), 'the key is the address, the hash and the memory size', 'create')
        return [Out('ret', st, Ptr(entry, 0))]
    c.on(r'^loongarch::SharedExecuteSegments::get_segment\(', get_segment)
    def make(ex, st, a, i, nm):
        r = Region('new_segment', 'obj', L['Segment']); ex.add_region(st, r); st.mem[r.id] = ObjMem(); mk.append(r)
        b, e = ex.read(st, a[1], 8), ex.read(st, a[2], 8)
        outs = []
        for o in ex.call(c.fn('loongarch::DecodedExecuteSegment::DecodedExecuteSegment('), [Ptr(r, 0), b, e], st):
            if o.kind != 'ret': raise Unsupported('segment constructor')
            ex.write(o.st, a[0], Ptr(r, 0), 8); ex.write(o.st, ptr_add(a[0], 8), Ptr(s.ctrl, 0), 8); outs.append(Out('ret', o.st, None))
        return outs
    c.on(r'std::make_shared<loongarch::DecodedExecuteSegment, unsigned long', make)
    def populate(ex, st, a, i, nm):           # E03; may also throw
        sg = ex.read(st, a[2], 8)
        ok = int(isinstance(sg, Ptr) and sg.r in mk and bool(T.eq(sg.off, 0, 64)))
        ex.oblige(st, T.land(ok, T.eq(a[3], addr, 64), T.eq(to_int(a[4]), to_int(Ptr(code, 0)), 64), T.eq(a[5], n, 64)), 'decodes exactly this code into the new segment', 'create')
        pub = ex.read(st, Ptr(entry, 0), 8)
        for cc, q in cases(pub):
            if isinstance(q, Ptr) and q.r in mk: ex.oblige(st.copy().assume(T.zb(cc)), 0, 'a segment is shared before it is decoded', 'create')
        t = st.copy(); st.ghost = dict(st.ghost); st.ghost[('populated', sg.r.id)] = (1,) if ok else (0,)
        return [Out('ret', st, None), Out('throw', t, ('_ZTISt9bad_alloc',))]
    c.on(r'^loongarch::populate_decoder_cache\(', populate)
    def push(ex, st, a, i, nm):
        st.ghost = dict(st.ghost); st.ghost[('pushed',)] = (ex.read(st, a[1], 8), a[0]); return [Out('ret', st, None)]
    c.on(r'^std::vector<std::shared_ptr<loongarch::DecodedExecuteSegment>.*>::push_back\(', push)
    MM = L['memory']
    for o in c.call(M + 'create_execute_segment(', [c.mem, Ptr(opt, 0), Ptr(code, 0), addr, n, init, 0]):
        st = o.st
        pub = c.ex.read(st, Ptr(entry, 0), 8)
        def published(p):
            if not isinstance(p, Ptr): return T.eq(to_int(p), 0, 64)
            return 1 if p.r is old else int(p.r in mk and st.ghost.get(('populated', p.r.id), (0,))[0] == 1)
        c.ob(st, which(pub, published), 'only complete segments are shared')
        main = c.ex.read(st, Ptr(w.machine, MM + L['mem.main_seg']), 8); pushed = st.ghost.get(('pushed',))
        oldmain = PIte(s.has, Ptr(s.main, 0), 0)
        if o.kind == 'throw':
            ok = T.lor(c.is_exc(o, 'INVALID_PROGRAM'), int(o.val[0] == '_ZTISt9bad_alloc')); c.ob(st, ok, 'kind of failure')
            c.ob(st, T.lor(int(o.val[0] == '_ZTISt9bad_alloc'), T.lnot(T.eq(T.extract(1, 0, n), 0, 2))), 'refused only when the length is no multiple of 4')
            c.ob(st, int(pushed is None) and T.land(*[T.ite(cc, int(q is oldmain.a or val_same(q, oldmain.a) or isint(q)), 1, 1) for cc, q in cases(main)]), 'a failure adds no segment'); c.frame(st, [], 'failure: frame'); continue
        c.ob(st, T.eq(T.extract(1, 0, n), 0, 2), 'a length that is no multiple of 4 is refused')
        def right(p):
            if not isinstance(p, Ptr): return 0
            if p.r is old: return T.land(has, T.lnot(T.eq(sh, 0, 8)), T.eq(p.off, 0, 64))
            if p.r in mk and st.ghost.get(('populated', p.r.id), (0,))[0] == 1:
                return T.land(T.eq(c.ex.read(st, Ptr(p.r, L['seg.begin']), 8), addr, 64), T.eq(c.ex.read(st, Ptr(p.r, L['seg.end']), 8), T.add(addr, n, 64), 64), T.eq(p.off, 0, 64))
            return 0
        c.ob(st, which(o.val, right), 'the segment has exactly these bounds and this code, or is the shared one with this key')
        isin = init
        c.ob(st, T.lor(T.lnot(isin), ptr_same(main, o.val)), 'an initial segment becomes the main segment')
        c.ob(st, T.lor(isin, ptr_same(pushed[0], o.val) if pushed else 0), 'a further segment is added to the list')
        c.ob(st, T.lor(T.lnot(isin), int(pushed is None)) if not isint(isin) else 1, 'an initial segment is not listed') if pushed is None else c.ob(st, T.lnot(isin), 'an initial segment is not listed')
        if pushed: c.ob(st, T.eq(to_int(pushed[1]), to_int(Ptr(w.machine, MM + L['mem.exec'])), 64), 'the list of this memory')
        c.frame(st, [(MM + L['mem.main_seg'], 16)], 'creation: frame')
    return c

def run(rep):
    rep.assumptions += ['std::shared_ptr, std::mutex and std::vector::push_back by their library contracts', 'two pieces of code at the same address and memory size with the same CRC32-C share a segment (the key is a hash)', 'partial correctness: termination of the lookup loop is not shown']
    N = Native('exec_segment_for', 2000)
    run_units(rep, [('exec_segment_for', u_exec_segment_for, N), ('next_execute_segment', u_next, N), ('create_execute_segment', u_create, N)], SRCS, harness='api_cpu')
