"""Build and drive the native harnesses: the real library sources, compiled as
they are, executing concrete inputs."""
import os, subprocess, glob
from concurrent.futures import ThreadPoolExecutor
from . import build
LIBSRC = ['cpu.cpp', 'elf_loader.cpp', 'la64.cpp', 'machine.cpp', 'machine_accelerate.cpp', 'machine_backtrace.cpp', 'machine_bytecode_stats.cpp',
          'memory.cpp', 'memory_rw.cpp', 'decoder_cache.cpp', 'decoded_exec_segment.cpp', 'shared_exec_segment.cpp', 'util/crc32c.cpp', 'debug.cpp',
          'serialize.cpp', 'threaded_rewriter.cpp', 'posix/signals.cpp', 'posix/threads.cpp', 'linux/syscalls.cpp', 'linux/syscalls_threads.cpp',
          'threaded_dispatch.cpp', 'threaded_inaccurate_dispatch.cpp']
NFLAGS = ['-std=c++20', '-O1', '-g0', '-w', '-fno-access-control', '-ffp-contract=off']

def objects(flags=(), tag='nat', opt=None):
    d = os.path.join(build.workdir(), tag); os.makedirs(d, exist_ok=True)
    inc = ['-I' + build.settings_dir(), '-I' + os.path.join(build.REPO, 'lib'), '-I' + os.path.join(build.REPO, 'lib/libloong')]
    def one(s):
        o = os.path.join(d, s.replace('/', '_') + '.o')
        if os.path.exists(o): return o
        r = subprocess.run(['clang++'] + NFLAGS + list(flags) + inc + ['-c', os.path.join(build.REPO, 'lib/libloong', s), '-o', o + '.t'], capture_output=True, text=True)
        if r.returncode: raise build.BuildError('native build of %s: %s' % (s, r.stderr[-2000:]))
        os.rename(o + '.t', o); return o
    srcs = [s for s in LIBSRC if os.path.exists(os.path.join(build.REPO, 'lib/libloong', s))]
    with ThreadPoolExecutor(8) as ex: return list(ex.map(one, srcs)), inc

def harness(name, flags=(), tag='nat'):
    exe = os.path.join(build.workdir(), tag + '-' + name)
    if os.path.exists(exe): return exe
    objs, inc = objects(flags, tag)
    r = subprocess.run(['clang++'] + NFLAGS + list(flags) + inc + [os.path.join(build.HERE, 'harness', name + '.cpp')] + objs + ['-o', exe, '-lpthread', '-ldl'], capture_output=True, text=True)
    if r.returncode: raise build.BuildError('native harness %s: %s' % (name, r.stderr[-3000:]))
    return exe

class Proc:
    """a harness process answering one line per case; restarted when it dies"""
    def __init__(self, exe): self.exe = exe; self.p = None
    def ask(self, line):
        for _ in range(2):
            if self.p is None:
                self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            try:
                self.p.stdin.write(line + '\n'); self.p.stdin.flush()
                r = self.p.stdout.readline()
            except (BrokenPipeError, OSError): r = ''
            if r: return r.rstrip('\n')
            rc = self.p.wait(); self.p = None
            return 'died rc=%s' % rc
    def close(self):
        if self.p:
            try: self.p.stdin.close(); self.p.wait(5)
            except Exception: self.p.kill()
            self.p = None

def fields(r):
    p = r.split(); d = {'kind': p[0] if p else 'none'}
    for t in p[1:]:
        if '=' in t: k, v = t.split('=', 1); d[k] = v
    return d
