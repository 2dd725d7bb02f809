"""Mechanical extraction: /repo/src/c/*.cc -> LLVM IR (clang -O0 + sroa), re-done on every run."""
import os, subprocess, glob, sys, hashlib, concurrent.futures as cf
from ir import parse_module
from engine import Program

REPO = os.environ.get('PV_REPO', '/repo')
CLANG = 'clang++-18'
OPT = '/usr/lib/llvm-18/bin/opt'


def one(src):
    r = subprocess.run([CLANG, '-std=c++20', '-include', 'limits.h', '-I', REPO + '/src/c', '-I', REPO + '/src', '-I', REPO + '/_build/src', '-I', REPO + '/_build',
                        '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-g', '-S', '-emit-llvm', '-w', '-o', '-', src], capture_output=True, text=True)
    if r.returncode:
        return src, None, r.stderr[-2000:]
    r2 = subprocess.run([OPT, '-S', '-passes=sroa'], input=r.stdout, capture_output=True, text=True)
    if r2.returncode:
        return src, None, r2.stderr[-2000:]
    return src, r2.stdout, ''


def extract(files=None):
    srcs = sorted(glob.glob(REPO + '/src/c/*.cc'))
    if files:
        srcs = [s for s in srcs if os.path.basename(s)[:-3] in files]
    mods, errs = [], []
    with cf.ThreadPoolExecutor(8) as ex:
        for src, txt, err in ex.map(one, srcs):
            if txt is None:
                errs.append((src, err))
                continue
            mods.append(parse_module(txt, os.path.basename(src)[:-3]))
    return Program(mods), errs


if __name__ == '__main__':
    import time
    t = time.time()
    p, e = extract()
    print(len(p.modules), 'modules', e[:2], time.time() - t)
