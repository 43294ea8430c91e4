"""Instruction properties: every supported instruction class, in every engine."""
import json, os, random, time
from irv import pool, native, concrete, build
from irv.insncheck import *
ENGS = ('step', 'sim', 'simi')
ASSUME = ['registers other than r0 and guest memory are arbitrary; r0 reads zero on entry (established by every instruction and by reset)',
          'representation invariant rodata_start <= data_start <= arena_size <= 2^47 and arena backing of arena_size + over-allocation bytes (property M02)',
          'dispatch loops: the segment lies below 2^47, the decoder cache is the one the real cache construction produces for the instruction (irv.insn.populate runs it)',
          'compute_handler_for: index 0 is the invalid handler, any other handler has one fixed index below 512 (contract; see property D02)',
          'floating-point arithmetic operators (add, mul, div, fma, sqrt, conversions) are uninterpreted: the code must apply the operator the ISA names to the operands it names; IEEE-754 behaviour of the host is trusted',
          'C++ exceptions: allocation of the exception object does not fail; stdio is side-effect free on the machine',
          'the fast-math / rounding environment is the host default (round to nearest even)']

def supported(): return json.load(open(os.path.join(build.HERE, 'spec', 'supported.json')))

def search(mn, eng, exe, n, seed, tlimit=60):
    """random native inputs -> first mismatch"""
    rg = random.Random('%s/%s/%s' % (seed, mn, eng)); p = native.Proc(exe); used = 0; t0 = time.time()
    concrete.random_state.tab = isa.table()
    if mn not in isa.SPEC: return 0, None
    try:
        for _ in range(n):
            if time.time() - t0 > tlimit: break
            d = concrete.random_state(rg, mn, eng)
            r = concrete.replay(mn, eng, d, p)
            if r is None: continue
            used += 1
            if r[0]: return used, (d, r)
    finally: p.close()
    return used, None

def stop_replay(eng, m, p):
    d = dict(m); d['nb'] = 0
    lo = d['pc']; d['begin'] = max(d['begin'], lo - 4096) & ~3; d['end'] = min(d['end'], lo + 4096); d['counter'] = 5; d['max'] = 1 << 40
    line = concrete.case_line(eng, d, d['pc'] + 4).replace('nb=0', 'nb=2'); raw = p.ask(line); r = native.fields(raw); iss = []
    if r['kind'] != 'ret': iss.append('stop instruction ends with %s' % r['kind'])
    elif int(r['pc']) != d['pc'] + 4: iss.append('pc after the stop instruction at %#x is %#x' % (d['pc'], int(r['pc'])))
    elif eng == 'sim' and int(r['counter']) != 6: iss.append('the stop instruction adds %d to the counter' % (int(r['counter']) - 5))
    return iss, line, raw

def run(rep, select, want=None, engs=ENGS, limit=400, total=700, n_random=4000, extra=()):
    concrete.random_state.tab = isa.table()
    v = Verifier(timeout=40000)
    mns = [m for m in supported() if select(m)]
    slow = ('st', 'x', 'v', 'f', 'am')
    tasks = [(m, e) for m in mns for e in engs]
    tasks += [t for t in extra if t[1] in engs]
    tasks.sort(key=lambda t: (not t[0].startswith(('fst', 'vst', 'xvst', 'stx', 'fldx')), not t[0].startswith(('xvf', 'vf')), t[1] == 'step'))
    res = pool.run(tasks, lambda t: Checker(v, t[0], t[1], want=want, deadline=300).go(), limit=limit, total=total)
    rep.assumptions = ASSUME
    bad = []
    for i, (mn, eng) in enumerate(tasks):
        k, r = res[i]
        if k != 'ok': bad.append((mn, eng, None, [('exploration', None, {'error': r})])); continue
        nb = r.bad(); rep.count('%s/%s' % (isa.CLASS.get(mn, 'other'), eng), len(r.obls), len(r.obls) - len(nb))
        rep.solver_s += r.solver_s; rep.queries += r.queries; rep.funcs.update(r.funcs)
        if r.err: nb = nb + [('exploration', None, {'error': r.err})]
        if nb: bad.append((mn, eng, r, nb))
    rep.cov['instruction_classes'] = len(mns); rep.cov['engines'] = list(engs); rep.cov['proof_tasks'] = len(tasks)
    if bad: judge(rep, bad, n_random)
    return v

def judge(rep, bad, n_random):
    try: exe = native.harness('replay')
    except build.BuildError as e:
        exe = None; rep.cov['native_replay'] = 'not available: %s' % str(e)[:300]
    def one(b):
        mn, eng, r, obs = b
        if exe is None: return None, 0, 'no native harness'
        p = native.Proc(exe)
        try:
            for nm, ok, m in obs:
                if not m or 'regs' not in m: continue
                try: x = concrete.replay(mn, eng, m, p) if mn in isa.SPEC else stop_replay(eng, m, p)
                except Exception as e: x = None
                if x and x[0]: return (nm, m, x), 0, ''
        finally: p.close()
        n, f = search(mn, eng, exe, n_random, rep.seed)
        if f: return (obs[0][0], f[0], f[1]), n, ''
        return None, n, ''
    res = pool.run(bad, one, limit=150, mem=0, total=240)
    for i, (mn, eng, r, obs) in enumerate(bad):
        k, x = res[i]
        found, n, why = x if k == 'ok' else (None, 0, str(x)[:200])
        names = [o[0] for o in obs]
        key = '%s/%s' % (mn, eng)
        rep.cov['native_inputs_tried'] = rep.cov.get('native_inputs_tried', 0) + n
        if found:
            nm, d, (iss, line, raw) = found
            rep.violation('%s: %s' % (key, nm), '%s in engine %s: %s' % (mn, eng, '; '.join(iss[:3])), {'instruction': mn, 'engine': eng, 'failed_obligations': names, 'state': d, 'harness_input': line, 'real_code_result': raw, 'mismatches': iss})
        elif any(o[1] is False for o in obs):
            nm = [o[0] for o in obs if o[1] is False][0]
            rep.violation('%s: %s' % (key, nm), '%s in engine %s: obligation "%s" fails (solver: satisfiable negation)' % (mn, eng, nm), {'instruction': mn, 'engine': eng, 'failed_obligations': names, 'verifier_model': [o[2] for o in obs][:3], 'random_inputs_tried': n, 'note': why}, found=False)
        else:
            t = '%s [%s] %s (%d native inputs agree)' % (key, ', '.join(sorted(set(names)))[:120], str((obs[0][2] or {}).get('error', ''))[:160], n)
            if n >= 200: rep.undecided.append(t)
            else: rep.error('undecided: ' + t + ' ' + why)
