"""Symbolic machine: the real object layout with symbolic contents."""
import json, os, subprocess
import z3
from . import terms as T, build
from .engine import *
_layout = None
def layout():
    global _layout
    if _layout is None:
        d = build.workdir(); exe = os.path.join(d, 'layout'); js = os.path.join(d, 'layout.json')
        if not os.path.exists(js):
            r = subprocess.run(['clang++', '-std=c++20', '-O0', '-w', '-fno-access-control', '-Wno-invalid-offsetof', '-I' + build.settings_dir(), '-I' + os.path.join(build.REPO, 'lib'),
                                '-I' + os.path.join(build.REPO, 'lib/libloong'), os.path.join(build.HERE, 'harness', 'layout.cpp'), '-o', exe, '-Wl,--unresolved-symbols=ignore-all'], capture_output=True, text=True)
            if r.returncode: raise build.BuildError('layout probe: ' + r.stderr[-3000:])
            o = subprocess.run([exe], capture_output=True, text=True, check=True).stdout
            with open(js + '.%d' % os.getpid(), 'w') as f: f.write(o)
            os.rename(js + '.%d' % os.getpid(), js)
        _layout = json.load(open(js))
    return _layout

MEXC = '_ZTIN9loongarch16MachineExceptionE'
TEXC = '_ZTIN9loongarch23MachineTimeoutExceptionE'
EXC_BASES[MEXC] = ['_ZTISt13runtime_error', '_ZTISt9exception']
EXC_BASES[TEXC] = [MEXC, '_ZTISt13runtime_error', '_ZTISt9exception']
EXCL = ['ILLEGAL_OPCODE', 'ILLEGAL_OPERATION', 'PROTECTION_FAULT', 'EXECUTION_SPACE_PROTECTION_FAULT', 'MISALIGNED_INSTRUCTION',
       'UNIMPLEMENTED_INSTRUCTION', 'MACHINE_TIMEOUT', 'OUT_OF_MEMORY', 'INVALID_PROGRAM', 'FEATURE_DISABLED', 'UNIMPLEMENTED_SYSCALL', 'GUEST_ABORT']
EXC = {n: i for i, n in enumerate(EXCL)}

def c_throw2(ex, st, args, ins, name):
    obj, ti = args[0], args[1]
    tn = ti.r.name.lstrip('@') if isinstance(ti, Ptr) else '?'
    if tn in (MEXC, TEXC) and isinstance(obj, Ptr):
        L = layout()
        ty = ex.read(st, Ptr(obj.r, L['exc.type']), 4); da = ex.read(st, Ptr(obj.r, L['exc.data']), 8)
        return [Out('throw', st, (tn, ty, da))]
    return [Out('throw', st, (tn,))]

def c_rt_error(ex, st, args, ins, name): return [Out('ret', st, None)]

BASE_CONTRACTS = {
    '__cxa_throw': c_throw2,
    '_ZNSt13runtime_errorC2EPKc': c_rt_error, '_ZNSt13runtime_errorC1EPKc': c_rt_error,
    '_ZNSt13runtime_errorD2Ev': c_nop, '_ZNSt13runtime_errorD1Ev': c_nop,
}

class World:
    """a Machine object with symbolic registers and memory"""
    def __init__(self, ex, arena=True, inv=True):
        L = self.L = layout()
        self.ex = ex
        st = State()
        m = Region('machine', 'obj', L['Machine'], init=self.init_field)
        self.machine = m
        ex.add_region(st, m)
        st.mem[m.id] = ObjMem()
        self.regs = Seg('regs', L['regs'], 32, 8, 5)
        self.vr = Seg('vr', L['vr'], 32, L['VR'], 5)
        self.regs.base0 = self.regs.base; self.regs.zero = 0
        m.segs = [self.regs, self.vr]
        # the zero register reads as zero at entry
        R = self.regs.base
        self.regs.reader = lambda idx: z3.If(T.bv(idx, 5) == 0, z3.BitVecVal(0, 64), z3.Select(R, idx)) if not isint(idx) else (0 if idx == 0 else z3.Select(R, z3.BitVecVal(idx, 5)))
        self.N = z3.BitVec('arena_size', 64); self.RO = z3.BitVec('rodata_start', 64); self.DA = z3.BitVec('data_start', 64)
        self.arena = Region('arena', 'bytes', self.N + z3.BitVecVal(L['OVER'], 64))
        ex.add_region(st, self.arena)
        self.arena0 = st.mem[self.arena.id]
        self.segment = Region('segment', 'obj', L['Segment'], init=self.init_seg)
        ex.add_region(st, self.segment); st.mem[self.segment.id] = ObjMem()
        self.begin = z3.BitVec('exec_begin', 64); self.end = z3.BitVec('exec_end', 64)
        self.extra = {}
        # representation invariant of Memory (established by the arena property)
        self.inv = [z3.ULE(self.RO, self.DA), z3.ULE(self.DA, self.N), z3.ULE(self.N, z3.BitVecVal(1 << 47, 64)), self.arena.size == self.N + L['OVER']]
        for c in self.inv[:3] if inv else (): st.assume(c)
        self.st = st

    def init_field(self, off, n):
        L = self.L; M = L['memory']
        if n == 8:
            if off == M + L['mem.arena']: return Ptr(self.arena, 0)
            if off == M + L['mem.size']: return self.N
            if off == M + L['mem.rodata']: return self.RO
            if off == M + L['mem.data']: return self.DA
            if off == M + L['mem.end_sub_rodata']: return self.N - self.RO
            if off == M + L['mem.end_sub_data']: return self.N - self.DA
            if off == L['exec']: return Ptr(self.segment, 0)
        return self.extra.get((off, n))

    def init_seg(self, off, n):
        L = self.L
        if n == 8:
            if off == L['seg.begin']: return self.begin
            if off == L['seg.end']: return self.end
        return self.extra.get(('seg', off, n))

    def machine_initial(self, off, n): return self.ex.read_cells(self.machine, ObjMem(), off, n)

    # accessors on a state
    def get(self, st, name, n=8):
        return self.ex.read(st, Ptr(self.machine, self.L[name]), n)
    def reg(self, st, i):
        c = self.ex.content(st, self.machine)
        return self.ex.seg_lookup(self.regs, c.segs.get('regs', ()), i)
    def vreg(self, st, i):
        c = self.ex.content(st, self.machine)
        return self.ex.seg_lookup(self.vr, c.segs.get('vr', ()), i)
