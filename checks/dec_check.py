"""E03: decoder cache construction."""
from irv.fnv import *
from irv.loops import per_index
SRCS = ['decoder_cache.cpp']
B8, B16, B32, B64 = [z3.BitVecSort(n) for n in (8, 16, 32, 64)]
HND = z3.Function('decoded_handler', B32, B64); IID = z3.Function('decoded_id', B32, B32)
HIDX = z3.Function('handler_index', B64, B16); INVH = z3.BitVecVal(0x1111, 64)
DBC = z3.Function('determined_bytecode', B32, B32, B16, B8)
OBC = z3.Function('optimized_bytecode', B8, B64, B32, B8); OIN = z3.Function('optimized_bits', B8, B64, B32, B32)
CRC = z3.BitVec('crc_of_code', 32)
def diverging(w):
    """ends a block: branches, jumps, calls, system calls, and the STOP instruction"""
    op6 = T.extract(31, 26, w)
    return T.lor(T.land(T.ule(0x10, op6, 6), T.ule(op6, 0x1B, 6)), T.eq(T.extract(31, 10, w), 0x002B0000 >> 10, 22), T.eq(w, 0x00150000, 32))

class Cache:
    """symbolic code, contracts of decode / handler table / bytecode selection"""
    def __init__(self, mods):
        self.idsize = layout()['in.idsize']
        c = self.c = Ctx(mods, contracts={'_Znam': self.c_new, '_Znwm': c_new_sym}); ex = c.ex; L = c.L
        self.size = c.sym('code_size'); c.st.assume(T.ule(self.size, 1 << 50, 64))
        self.code = c.bytes('code', self.size); self.n = T.lshr(self.size, 2, 64); self.begin = c.sym('exec_begin')
        self.seg = c.obj('segment_obj', L['Segment']); self.sp = c.obj('segment_sp', 16, {0: (Ptr(self.seg, 0), 8), 8: (0, 8)})
        self.opt = c.obj('options', L['Options']); self.cache = None
        self.inst = c.obj('decoded', 64)
        K = {}
        K['loongarch::CPU::decode('] = self.c_decode; K['loongarch::CPU::get_invalid_instruction('] = self.c_invalid
        K['loongarch::DecoderData::compute_handler_for('] = self.c_hidx; K['loongarch::util::crc32c('] = lambda ex, st, a, i, n: self.c_crc(ex, st, a)
        K['loongarch::DecodedExecuteSegment::optimize_bytecode('] = self.c_opt; K[r'determine_bytecode\('] = self.c_det
        for n, d in allnames(mods):
            for k, f in K.items():
                if (d.startswith(k) or ('\\' in k and re.search(k, d))) and 'unordered' not in d: ex.contracts[n] = f
            if re.match(r'std::unordered_map<.*>::find\(', d): ex.contracts[n] = self.m_find
            elif re.match(r'(std::pair<.*> )?std::unordered_map<.*>::insert_or_assign.*\(', d): ex.contracts[n] = self.m_put
            elif re.match(r'std::unordered_map<.*>::end\(\)', d): ex.contracts[n] = lambda ex, st, a, i, n: [Out('ret', st, 0)]
            elif re.match(r'std::unordered_map<.*>::~?unordered_map\(', d): ex.contracts[n] = c_nop
            elif re.match(r'std::unordered_map<.*>::size\(\)', d): ex.contracts[n] = lambda ex, st, a, i, n: [Out('ret', st, T.fresh('mapsize', 64))]
        w_ = ex
    def c_new(self, ex, st, args, ins, name):
        r = Region('cache', 'bytes', args[0]); ex.add_region(st, r); self.cache = r; r.pre = True
        return [Out('ret', st, Ptr(r, 0))]
    def c_crc(self, ex, st, a):
        need_read(ex, st, a[-2], a[-1], 'crc32c'); ex.oblige(st, T.land(T.eq(to_int(a[-2]), to_int(Ptr(self.code, 0)), 64), T.eq(a[-1], self.size, 64)), 'hash covers the whole code', 'post')
        return [Out('ret', st, CRC)]
    def instr_of(self, ex, st, a):
        if is_ptrish(a): return ex.read(st, a, 4)
        return T.trunc(a, a.size(), 32) if not isint(a) and a.size() > 32 else a
    def mkinst(self, ex, st, h, i):
        L = self.c.L
        r = Region('decoded_instr', 'obj', 64); ex.add_region(st, r); st.mem[r.id] = ObjMem({L['in.handler']: (h, 8), L['in.id']: (T.trunc(i, 32, 8 * self.idsize) if self.idsize < 4 else i, self.idsize)})
        return Ptr(r, 0)
    def c_decode(self, ex, st, args, ins, name):
        w = T.bv(self.instr_of(ex, st, args[0]), 32)
        return [Out('ret', st, self.mkinst(ex, st, HND(w), IID(w)))]
    def c_invalid(self, ex, st, args, ins, name): return [Out('ret', st, self.mkinst(ex, st, INVH, z3.BitVecVal(0, 32)))]
    def c_hidx(self, ex, st, args, ins, name):
        h = T.bv(to_int(args[0]), 64)
        return [Out('ret', st, 0 if h.eq(INVH) else HIDX(h))]
    def c_det(self, ex, st, args, ins, name):
        i = args[0]; i = T.zext(T.bv(i, 8 * self.idsize), 8 * self.idsize, 32) if self.idsize < 4 else T.bv(i, 32)
        return [Out('ret', st, DBC(i, T.bv(args[1], 32), T.bv(args[2], 16)))]
    def c_opt(self, ex, st, args, ins, name):
        bc = T.bv(ex.read(st, args[1], 1), 8); pc = T.bv(args[2], 64); w = T.bv(args[3], 32)
        ex.write(st, args[1], OBC(bc, pc, w), 1)
        return [Out('ret', st, OIN(bc, pc, w))]
    def m_find(self, ex, st, args, ins, name):
        h = T.bv(to_int(ex.read(st, args[1], 8)), 64)
        r = Region('map_node', 'obj', 64); ex.add_region(st, r); st.mem[r.id] = ObjMem({8: (h, 8), 16: (HIDX(h), 2)})
        return [Out('ret', st, PIte(T.fresh('in_map', 'bool'), Ptr(r, 0), 0))]
    def m_put(self, ex, st, args, ins, name):
        h = T.bv(to_int(ex.read(st, args[1], 8)), 64); v = ex.read(st, args[2], 2)
        ex.oblige(st, T.eq(v, T.zext(HIDX(h), 16, 16), 16), 'the map of known handlers holds their index', name)
        return [Out('ret', st, [0, 0])]
    # ---- contents
    def word(self, i): return z3.Concat(*[z3.Select(self.code.init_arr, T.bv(T.add(T.shl_c(i, 2, 64), k, 64), 64)) for k in (3, 2, 1, 0)])
    def fld(self, arr, i, name, n):
        o = T.add(T.shl_c(i, 3, 64), self.c.L['dd.' + name], 64)
        b = [z3.Select(arr, T.bv(T.add(o, k, 64), 64)) for k in reversed(range(n))]
        return z3.Concat(*b) if n > 1 else b[0]
    def want(self, i):
        w = self.word(i); h = HND(w); idw = z3.ZeroExt(32 - 8 * self.idsize, z3.Extract(8 * self.idsize - 1, 0, IID(w))) if self.idsize < 4 else IID(w)
        bc = DBC(idw, w, HIDX(h)); pc = T.bv(T.add(self.begin, T.shl_c(i, 2, 64), 64), 64)
        return w, h, OBC(bc, pc, w), OIN(bc, pc, w)
    def nextbb(self, arr, i): return T.ite(T.eq(T.add(i, 1, 64), self.n, 64), 0, self.fld(arr, T.add(i, 1, 64), 'block_bytes', 2), 16)
    def slot_parts(self, arr, i):
        """entry i is right: its handler, its bytecode and bits, and its distance to the end of its block"""
        w, h, bc, bits = self.want(i)
        bb = self.fld(arr, i, 'block_bytes', 2); nb = self.nextbb(arr, i); FB = self.c.L['bc.FUNCBLOCK']
        div = diverging(w); gbc = self.fld(arr, i, 'bytecode', 1); gin = self.fld(arr, i, 'instr', 4)
        normal = z3.And(gbc == bc, gin == bits); split = z3.And(gbc == FB, gin == w)
        return [('handler index', self.fld(arr, i, 'handler_idx', 1) == z3.Extract(7, 0, HIDX(h))),
                ('bytecode and instruction bits', z3.If(z3.And(z3.Not(T.zb(div)), bb == 0), split, normal)),
                ('length of the block', z3.If(T.zb(div), bb == 0, z3.Or(bb == 0, z3.And(bb == nb + 4, z3.ULE(nb, 65531), nb & 3 == 0))))]
def u_populate(mods):
    s = Cache(mods); c = s.c; j = T.fresh('anyslot', 64)
    f = c.fn('loongarch::populate_decoder_cache(')
    def arr(I): return I.st.mem[s.cache.id]
    def mkslot(k):
        def done(I, i): return T.lor(T.ule(s.n, j, 64), T.ult(j, i, 64), s.slot_parts(arr(I), j)[k][1])
        done.__name__ = 'slots from i on: ' + s.slot_parts(s.code.init_arr, j)[k][0]
        return done
    def acc(ex, vs, syms):
        out = []
        for v in vs:
            if v.regions or v.w not in (16, 32, 64): continue
            u = lambda I, v=v: T.zext(T.trunc(to_int(v.get(I)), v.w, v.w), v.w, 64) if v.w < 64 else to_int(v.get(I))
            c1 = lambda I, u=u: T.ule(u(I), 65532, 64); c1.text = v.name + ' <= 65532'
            c2 = lambda I, u=u: T.eq(T.extract(1, 0, u(I)), 0, 2); c2.text = v.name + ' multiple of 4'
            out += [c1, c2]
            for x in vs:
                g = x.index(None, 1)
                if g is None or x is v: continue
                c3 = lambda I, u=u, g=g: T.eq(u(I), T.zext(T.ite(T.eq(g(I), s.n, 64), 0, s.fld(arr(I), g(I), 'block_bytes', 2), 16), 16, 64), 64)
                c3.text = '%s = block length at %s' % (v.name, x.name); out.append(c3)
        return out
    acc.maker = True
    c.ex.cut = lambda fname, b, k: [per_index(None, 1, mkslot(0)), per_index(None, 1, mkslot(1)), per_index(None, 1, mkslot(2)), acc] if fname == f else None
    L = c.L
    for o in c.call('loongarch::populate_decoder_cache(', [c.m, Ptr(s.opt, 0), Ptr(s.sp, 0), s.begin, Ptr(s.code, 0), s.size, c.sym('is_initial', 1)]):
        st = o.st
        if o.kind != 'ret': c.unreachable(st, 'construction does not throw'); continue
        ptr = c.ex.read(st, Ptr(s.seg, L['seg.cache']), 8); sz = c.ex.read(st, Ptr(s.seg, L['seg.cache_size']), 8)
        c.ob(st, T.eq(sz, s.n, 64), 'size: one entry per whole instruction'); c.ob(st, T.eq(c.ex.read(st, Ptr(s.seg, L['seg.crc']), 4), CRC, 32), 'hash of the code is stored')
        for cond, q in cases(ptr):
            t = st.copy().assume(T.zb(cond)) if not isint(cond) else st
            if not isinstance(q, Ptr): c.ob(t, T.land(T.eq(to_int(q), 0, 64), T.eq(s.n, 0, 64)), 'no cache only for code without a whole instruction'); continue
            c.ob(t, T.eq(q.off, 0, 64) if q.r is s.cache else 0, 'the cache that was built is installed')
            if q.r is not s.cache: continue
            a = t.mem[s.cache.id]
            for nm, x in s.slot_parts(a, j): c.ob(t, T.lor(T.ule(s.n, j, 64), x), 'every entry: ' + nm)
            c.ob(t, T.land(T.eq(s.fld(a, s.n, 'bytecode', 1), L['bc.INVALID'], 8), T.eq(s.fld(a, s.n, 'block_bytes', 2), 0, 16)), 'the entry behind the code traps')
        c.frame(st, [], 'machine unchanged')
    return c

def run(rep):
    rep.assumptions += ['decode, optimize_bytecode, determine_bytecode and crc32c are functions of their arguments (I01..I08 run their real code); compute_handler_for by its contract', 'partial correctness: termination of the loop is not shown', 'the code lies in one host object smaller than 2^50 bytes']
    run_units(rep, [('populate_decoder_cache', u_populate, Native('dec_cache', 1200))], SRCS, harness='api_cpu')
