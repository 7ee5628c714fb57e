"""Replay against the real sources compiled without optimisation, with or without AddressSanitizer.

A data race or an access outside an array does not necessarily show in the optimised build (the
compiler may keep a shared value in a register, the memory beyond an array may be readable).  The
counterexamples the regular build does not confirm are replayed on the unoptimised code.
"""
import ctypes
import glob
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from . import fbuild

KINDS = {'plain': [], 'asan': ['-fsanitize=address,undefined', '-fno-omit-frame-pointer']}


def build(kind):
    src = fbuild.build()
    out = f'{src}/{kind}.so'
    if os.path.exists(out):
        return out
    tmp = f'{src}/{kind}.{os.getpid()}'
    os.makedirs(tmp + '/mod')
    files = [os.path.basename(p)[:-4] for p in glob.glob(src + '/*.f90')]

    def comp(f):
        r = subprocess.run(['gfortran', *fbuild.FLAGS, *KINDS[kind], '-I' + src, '-J' + tmp + '/mod', '-c',
                            f'{src}/{f}.f90', '-o', f'{tmp}/{f}.o'], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(r.stderr)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(comp, files))
    subprocess.run(['gfortran', '-shared', '-fopenmp', *KINDS[kind], '-o', out + '.tmp'] +
                   [f'{tmp}/{f}.o' for f in files], check=True, capture_output=True)
    os.rename(out + '.tmp', out)
    import shutil
    shutil.rmtree(tmp)
    return out


def environment(kind):
    env = {'VERIF_DEBUGLIB': kind, 'PYTHONMALLOC': 'malloc' if kind == 'asan' else ''}
    if kind == 'asan':
        lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
        ub = subprocess.run(['gcc', '-print-file-name=libubsan.so'], capture_output=True, text=True).stdout.strip()
        env.update(LD_PRELOAD=f'{os.path.realpath(lib)} {os.path.realpath(ub)}',
                   ASAN_OPTIONS='detect_leaks=0:halt_on_error=1:exitcode=77:allocator_may_return_null=1',
                   UBSAN_OPTIONS='halt_on_error=0:print_stacktrace=0')
    return {k: v for k, v in env.items() if v}


def install(kind):
    """Swap the compiled module for the debug library in this process."""
    import pysimulators  # noqa
    from . import shim, sym
    from .gimple import Program
    shim.State.clib = ctypes.CDLL(f'{fbuild.build()}/{kind}.so')
    shim.install(Program(), sym.Codec())


CT = {('int', 1): ctypes.c_int8, ('int', 2): ctypes.c_int16, ('int', 4): ctypes.c_int32, ('int', 8): ctypes.c_int64,
      ('real', 4): ctypes.c_float, ('real', 8): ctypes.c_double, ('logical', 1): ctypes.c_int8,
      ('logical', 4): ctypes.c_int32, ('logical', 8): ctypes.c_int64}


def ccall(sf, f, sig, params, low, env, arrays, dims):
    from .shim import State
    asm = f.asm
    fn = getattr(State.clib, asm)
    names = {r.lower(): r for r in sig.ret}
    argv, keep, post, outs = [], [], [], {}
    alias = {}
    for p, full in zip(params, f.params):
        t = f.types[full]
        sub = t.sub if t.k == 'ptr' and t.sub is not None else t
        while sub.k == 'array' and sub.sub is not None:
            sub = sub.sub
        if p in low and low[p] in arrays:
            arr, orig, inout, ch = arrays[low[p]]
            # exact size allocation, so that the sanitizer sees the bounds
            key = arr.__array_interface__['data'][0], arr.nbytes
            a = alias.get(key) if arr.nbytes else None
            if a is None:
                a = np.array(arr, order='F', copy=True)
                alias[key] = a
            keep.append(a)
            argv.append(ctypes.c_void_p(a.ctypes.data))
            if inout:
                post.append((orig, a))
        elif p in low:
            c = CT[sub.k, sub.size](env[low[p]] if sub.k == 'real' else int(env[low[p]]))
            keep.append(c)
            argv.append(ctypes.byref(c))
        elif p in names:
            info = sig.info[names[p]]
            if 'array' in info:
                ch = re.search(r"array\('(.)'\)", info)[1]
                a = np.zeros(dims(info), dtype=ch, order='F')
                keep.append(a)
                outs[names[p]] = a
                argv.append(ctypes.c_void_p(a.ctypes.data))
            else:
                c = CT[sub.k, sub.size]()
                outs[names[p]] = c
                argv.append(ctypes.byref(c))
        else:
            raise RuntimeError(f'{sig.name}: parameter {p}')
    res = None
    if any(r not in outs for r in sig.ret):
        r = [r for r in sig.ret if r not in outs][0]
        rt = f.rettype() if hasattr(f, 'rettype') else None
        fn.restype = CT[rt.k, rt.size] if rt is not None else (
            ctypes.c_double if 'float' in sig.info[r] else ctypes.c_int32)
    else:
        fn.restype = None
    res = fn(*argv)
    for orig, a in post:
        orig[...] = a.reshape(orig.shape, order='F')
    out = []
    for r in sig.ret:
        v = outs.get(r)
        out.append(res if v is None else v if isinstance(v, np.ndarray) else v.value)
    if not out:
        return None
    return out[0] if len(out) == 1 else tuple(out)
