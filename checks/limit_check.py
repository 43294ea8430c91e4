"""E01: instruction counting and the instruction limit."""
from irv.fnv import *
from irv import pool
from irv.insncheck import Checker, Verifier
from spec import isa
import isa_check
SRCS = ['cpu.cpp', 'machine.cpp', ('%s/harness/inst.cpp' % build.HERE, 'inst')]
WANT = ('counter', 'limit', 'stop', 'pc', 'block', 'reachable')
def ctx(mods, **kw):
    c = Ctx(mods, contracts=kw.pop('contracts', {}), **kw); c.watch['m_counter'] = c.field(c.st, 'm_counter'); c.watch['m_max'] = c.field(c.st, 'm_max'); return c
def still(c, st, *names): c.frame(st, [(c.L[n], 8) for n in names]); c.ob(st, int(c.arena(st) is c.arena(c.st) or c.arena(st).eq(c.arena(c.st))), 'frame: memory')

def u_accessors(mods):
    cs = []
    def one(fn, args, check, *changed):
        c = ctx(mods); cnt, mx = c.watch['m_counter'], c.watch['m_max']; a = [c.sym('k')] if args else []
        outs = c.call('loongarch::Machine::%s(' % fn, [c.m] + a)
        for o in outs:
            if o.kind != 'ret': c.unreachable(o.st, fn + ': never throws'); continue
            c.ob(o.st, check(c, o, cnt, mx, *a), fn); still(c, o.st, *changed)
        cs.append(c)
    b = lambda o: T.b2bv(o.val, 1) if isinstance(o.val, z3.BoolRef) else T.trunc(o.val, o.val.size(), 1) if not isint(o.val) and o.val.size() > 1 else o.val
    one('stop', 0, lambda c, o, cnt, mx: T.eq(c.field(o.st, 'm_max'), 0, 64), 'm_max')
    one('stopped', 0, lambda c, o, cnt, mx: T.eq(b(o), T.b2bv(T.eq(mx, 0, 64), 1), 1))
    one('instruction_limit_reached', 0, lambda c, o, cnt, mx: T.eq(b(o), T.b2bv(T.land(T.ule(mx, cnt, 64), T.lnot(T.eq(mx, 0, 64))), 1), 1))
    one('instruction_counter', 0, lambda c, o, cnt, mx: T.eq(o.val, cnt, 64)); one('max_instructions', 0, lambda c, o, cnt, mx: T.eq(o.val, mx, 64))
    one('set_instruction_counter', 1, lambda c, o, cnt, mx, k: T.eq(c.field(o.st, 'm_counter'), k, 64), 'm_counter'); one('set_max_instructions', 1, lambda c, o, cnt, mx, k: T.eq(c.field(o.st, 'm_max'), k, 64), 'm_max')
    one('increment_counter', 1, lambda c, o, cnt, mx, k: T.eq(c.field(o.st, 'm_counter'), T.add(cnt, k, 64), 64), 'm_counter')
    return cs

def u_simulate(mods):
    """Machine::simulate runs the counted dispatcher from the program counter, once"""
    c = ctx(mods); mx, k = c.sym('maxarg'), c.sym('counterarg'); res = z3.Bool('run_result'); calls = []
    def sim(ex, st, a, ins, name):
        c.ob(st, T.land(int(isinstance(a[0], Ptr) and a[0].r is c.w.machine), T.eq(a[1], c.field(st, 'pc'), 64), T.eq(a[2], k, 64), T.eq(a[3], mx, 64)), 'simulate: from the program counter, with this counter and limit'); c.ob(st, int(('ran',) not in st.ghost), 'simulate: once'); still(c, st)
        st.ghost = dict(st.ghost); st.ghost[('ran',)] = 1; bad = st.copy(); return [Out('ret', st, res), Out('throw', bad, ('run',))]
    c.on(r'^loongarch::CPU::simulate\(unsigned long, unsigned long, unsigned long\)', sim)
    n = {'ret': 0, 'throw': 0}
    for o in c.call('loongarch::Machine::simulate(', [c.m, mx, k]):
        n[o.kind] += 1; c.ob(o.st, int(('ran',) in o.st.ghost), 'simulate: runs')
        if o.kind == 'ret': c.ob(o.st, T.eq(T.b2bv(o.val, 1) if isinstance(o.val, z3.BoolRef) else o.val, T.b2bv(res, 1), 1), 'simulate: result of the run')
        else: c.ob(o.st, int(o.val == ('run',)), 'simulate: exceptions of the run')
    c.ob(c.st, int(n['ret'] and n['throw']), 'simulate: returns and throws'); return c

def stepc(c):
    """contract of one step: counts itself, and may change anything else the guest can change (the limit too)"""
    def f(ex, st, a, ins, name):
        c.ob(st, T.land(int(isinstance(a[0], Ptr) and a[0].r is c.w.machine), T.eq(T.b2bv(a[1], 1) if isinstance(a[1], z3.BoolRef) else a[1], 1, 1)), 'precise: a counted step of this machine')
        g = st.ghost['!steps']; cnt, mx = c.field(st, 'm_counter'), c.field(st, 'm_max'); c.ob(st, T.ult(cnt, mx, 64), 'precise: no step at the limit')
        bad = st.copy(); st.ghost = dict(st.ghost); st.ghost['!steps'] = T.add(g, 1, 64)
        ex.write(st, Ptr(c.w.machine, c.L['m_counter']), T.add(cnt, 1, 64), 8); ex.write(st, Ptr(c.w.machine, c.L['m_max']), T.fresh('limit', 64), 8)
        return [Out('ret', st, None), Out('throw', bad, ('step',))]
    return f
def u_precise(mods):
    c = ctx(mods); c.on(r'^loongarch::CPU::step_one\(', stepc(c)); c.st.ghost = dict(c.st.ghost); c.st.ghost['!steps'] = z3.BitVecVal(0, 64); cnt0 = c.watch['m_counter']
    inv = lambda I: T.eq(c.field(I.st, 'm_counter'), T.add(cnt0, I.st.ghost['!steps'], 64), 64)
    inv.text = 'counter = start + steps'; c.ex.cut = lambda fname, b, k: [inv]; n = {'ret': 0, 'throw': 0}
    for o in c.call('loongarch::CPU::simulate_precise(', [c.cpu]):
        n[o.kind] += 1; cnt, mx = c.field(o.st, 'm_counter'), c.field(o.st, 'm_max'); c.ob(o.st, T.eq(cnt, T.add(cnt0, o.st.ghost['!steps'], 64), 64), 'precise: every step is counted')
        if o.kind == 'ret': c.ob(o.st, T.ule(mx, cnt, 64), 'precise: ends only at the limit')
        else: c.ob(o.st, int(o.val == ('step',)), 'precise: exceptions of a step')
        c.frame(o.st, [(c.L['m_counter'], 8), (c.L['m_max'], 8)])
    c.ob(c.st, int(n['ret'] and n['throw']), 'precise: returns and throws'); return c

def u_step(mods):
    """CPU::step_one: reads the word at pc, executes exactly it, moves on by 4, counts when asked"""
    c = ctx(mods); use = c.sym('use', 1); word = z3.BitVec('word', 32); pc0 = c.field(c.st, 'pc'); pc1 = z3.BitVec('pc_after', 64); cnt1 = z3.BitVec('counter_after', 64)
    def rd(ex, st, a, ins, name):
        still(c, st); st.ghost = dict(st.ghost); st.ghost[('read',)] = 1; bad = st.copy(); return [Out('ret', st, word), Out('throw', bad, ('read',))]
    def exe(ex, st, a, ins, name):
        c.ob(st, T.land(int(('read',) in st.ghost and ('exec',) not in st.ghost), T.eq(a[1], word, 32)), 'step: executes the word it read, once'); still(c, st)
        st.ghost = dict(st.ghost); st.ghost[('exec',)] = 1; bad = st.copy(); ex.write(st, Ptr(c.w.machine, c.L['pc']), pc1, 8); ex.write(st, Ptr(c.w.machine, c.L['m_counter']), cnt1, 8)
        return [Out('ret', st, None), Out('throw', bad, ('exec',))]
    c.on(r'^loongarch::CPU::read_current_instruction\(', rd); c.on(r'^loongarch::CPU::execute\(', exe); n = {}
    for o in c.call('loongarch::CPU::step_one(', [c.cpu, use == 1]):
        k = o.kind if o.kind == 'ret' else o.val[0]; n[k] = 1
        if o.kind == 'throw': c.ob(o.st, int(o.val in (('read',), ('exec',))), 'step: exceptions of the instruction'); still(c, o.st); continue
        c.ob(o.st, T.eq(c.field(o.st, 'pc'), T.add(pc1, 4, 64), 64), 'step: program counter'); c.ob(o.st, T.eq(c.field(o.st, 'm_counter'), T.ite(use == 1, T.add(cnt1, 1, 64), cnt1, 64), 64), 'step: counter'); still(c, o.st, 'pc', 'm_counter')
    c.ob(c.st, int(len(n) == 3), 'step: every outcome'); return c

def run(rep):
    isa_check.run(rep, lambda m: True, want=lambda n: n.startswith(WANT), engs=('sim', 'step'), extra=(('stop', 'sim'),))
    rep.assumptions += ['one step (step_one) counts itself: proved per instruction class in engine step', 'a counted run is the sequence of its instructions: each instruction\'s contract holds at every position of a block (per-instruction induction step)']
    run_units(rep, [('accessors', u_accessors, Native('flags', 3000)), ('Machine::simulate', u_simulate, Native('run', 1500)), ('CPU::simulate_precise', u_precise, Native('precise', 1500)), ('CPU::step_one', u_step, Native('precise', 1500))], SRCS, harness='api_run')
