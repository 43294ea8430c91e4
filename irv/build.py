"""Compile the real sources of /repo to LLVM IR, on every run."""
import os, subprocess, hashlib, tempfile, sys
from concurrent.futures import ThreadPoolExecutor
from . import ir
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPT = '/usr/lib/llvm-18/bin/opt'
FLAGS = ['-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-access-control', '-ffp-contract=off', '-fwrapv',
         '-fno-strict-aliasing', '-w', '-I' + os.path.join(REPO, 'lib'), '-I' + os.path.join(REPO, 'lib', 'libloong')]
PASSES = 'function(sroa,early-cse,instsimplify,simplifycfg)'

class BuildError(Exception): pass

def workdir():
    d = os.environ.get('VERIF_WORK')
    if not d:
        d = tempfile.mkdtemp(prefix='irv-')
        os.environ['VERIF_WORK'] = d
        import atexit, shutil
        pid = os.getpid()
        def rm():
            if os.getpid() == pid: shutil.rmtree(d, ignore_errors=True)
        atexit.register(rm)
    os.makedirs(d, exist_ok=True)
    return d

DEFINED = {'LA_THREADED': ''}            # default configuration of lib/CMakeLists.txt
VALUES = {'LA_MASKED_MEMORY_BITS': '0'}
def settings_dir(defined=None, values=None, tag='settings'):
    """render libloong_settings.h.in as cmake would"""
    import re
    d = os.path.join(workdir(), tag); f = os.path.join(d, 'libloong_settings.h')
    if not os.path.exists(f):
        os.makedirs(d, exist_ok=True)
        de = DEFINED if defined is None else defined; va = dict(VALUES); va.update(values or {})
        src = open(os.path.join(REPO, 'lib', 'libloong_settings.h.in')).read()
        out = []
        for l in src.split('\n'):
            m = re.match(r'\s*#\s*cmakedefine\s+(\w+)(.*)', l)
            if m: l = '#define %s%s' % (m.group(1), m.group(2)) if m.group(1) in de else '/* #undef %s */' % m.group(1)
            l = re.sub(r'@(\w+)@', lambda m: va.get(m.group(1), ''), l)
            l = re.sub(r'\$\{(\w+)\}', lambda m: va.get(m.group(1), ''), l)
            out.append(l)
        with open(f + '.%d' % os.getpid(), 'w') as o: o.write('\n'.join(out))
        os.rename(f + '.%d' % os.getpid(), f)
    return d

def compile_ir(src, tag=None, extra=()):
    """src: path relative to /repo/lib/libloong, or absolute. -> path of .ll"""
    d = workdir()
    p = src if os.path.isabs(src) else os.path.join(REPO, 'lib', 'libloong', src)
    tag = tag or os.path.basename(p).replace('.', '_')
    raw = os.path.join(d, tag + '.raw.ll'); out = os.path.join(d, tag + '.ll')
    if os.path.exists(out): return out
    r = subprocess.run(['clang++'] + FLAGS + ['-S', '-emit-llvm', '-I' + settings_dir()] + list(extra) + [p, '-o', raw], capture_output=True, text=True)
    if r.returncode: raise BuildError('clang++ failed on %s:\n%s' % (p, r.stderr[-4000:]))
    r = subprocess.run([OPT, '-S', '-passes=' + PASSES, raw, '-o', out + '.tmp'], capture_output=True, text=True)
    if r.returncode: raise BuildError('opt failed on %s:\n%s' % (p, r.stderr[-4000:]))
    os.rename(out + '.tmp', out)
    os.unlink(raw)
    return out

def load(srcs):
    """list of sources -> list of ir.Module"""
    settings_dir()
    with ThreadPoolExecutor(8) as ex:
        paths = list(ex.map(lambda s: compile_ir(*s) if isinstance(s, tuple) else compile_ir(s), srcs))
    mods = []
    for p in paths:
        with open(p) as f: mods.append(ir.Module(f.read(), os.path.basename(p)))
    return mods
