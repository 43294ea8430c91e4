"""property id -> check"""
from spec import isa
import isa_check
PROPS = {}
def prop(pid):
    def d(f): PROPS[pid] = f; return f
    return d
def isa_prop(pid, classes, extra=()):
    def f(rep): isa_check.run(rep, lambda m: isa.CLASS[m] in classes, extra=extra)
    PROPS[pid] = f
isa_prop('I01', ('alu', 'bits')); isa_prop('I02', ('muldiv',)); isa_prop('I03', ('mem',)); isa_prop('I04', ('branch',), (('stop', 'sim'), ('stop', 'simi'))); isa_prop('I05', ('atomic',))
isa_prop('I06', ('fp',)); isa_prop('I07', ('lsx',)); isa_prop('I08', ('lasx',))

def mod(pid, m, fn='run'):
    def f(rep):
        import importlib; getattr(importlib.import_module(m), fn)(rep)
    PROPS[pid] = f
mod('M01', 'mem_check')
mod('E04', 'seg_check')
mod('E03', 'dec_check')
mod('M02', 'mm_check')
mod('M03', 'mm_check', 'run3')
mod('S01', 'sys_check')
mod('A01', 'acc_check')
mod('E01', 'limit_check')
mod('E02', 'call_check')
mod('E05', 'vm_check')
mod('E07', 'vm_check', 'run7')
