"""Regenerate the compiler IR of the Fortran sources of /repo (scratch directory).

Templates are rendered with /repo/tools/generate_fortran.py, each source is compiled with
the gfortran of the real build and the same semantic flags, and GCC's GIMPLE after OpenMP
expansion is dumped, with assembler names and unique ids.  DWARF gives the layouts of the
derived types.
"""
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys

REPO = '/repo'
FLAGS = ['-O0', '-g', '-DNDEBUG', '-D_FILE_OFFSET_BITS=64', '-DGFORTRAN', '-DPRECISION_REAL=8',
         '-fPIC', '-fopenmp', '-cpp', '-fpack-derived']


def scratch():
    base = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), '.build')
    os.makedirs(base, exist_ok=True)
    return base


def _sources(repo):
    d = os.path.join(repo, 'src', 'flib')
    return d, sorted(glob.glob(d + '/*.f90')), sorted(glob.glob(d + '/*.j2'))


def source_hash(repo=REPO):
    d, f90, j2 = _sources(repo)
    h = hashlib.sha256()
    for p in f90 + j2 + [repo + '/tools/generate_fortran.py', os.path.abspath(__file__)]:
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def build(repo=REPO, verbose=False):
    """Return the directory with the dumps for the current sources (cached by content)."""
    h = source_hash(repo)
    root = scratch()
    out = os.path.join(root, 'ir-' + h)
    if os.path.exists(out + '/OK'):
        return out
    tmp = f'{out}.{os.getpid()}'
    os.makedirs(tmp)
    d, f90, j2 = _sources(repo)
    for t in j2:
        subprocess.run([sys.executable, repo + '/tools/generate_fortran.py', t, '-o', tmp,
                        '--precision-real', '8'], check=True, stdout=subprocess.DEVNULL)
    for p in f90:
        shutil.copy(p, tmp)
    files = [os.path.basename(p)[:-4] for p in glob.glob(tmp + '/*.f90')]
    uses, defs = {}, {}
    for f in files:
        txt = open(f'{tmp}/{f}.f90', errors='replace').read()
        uses[f] = {m.lower() for m in re.findall(r'^\s*use\s*(?:,[^:\n]*)?(?:::)?\s*(\w+)', txt,
                                                 re.I | re.M)}
        for m in re.findall(r'^\s*module\s+(\w+)\s*$', txt, re.I | re.M):
            defs[m.lower()] = f
    done, order = set(), []

    def visit(f, stack=()):
        if f in done or f in stack:
            return
        for u in sorted(uses[f]):
            if u in defs and defs[u] != f:
                visit(defs[u], stack + (f,))
        done.add(f)
        order.append(f)

    for f in sorted(files):
        visit(f)
    for f in order:
        r = subprocess.run(['gfortran', *FLAGS, '-I.', '-J.', '-fdump-tree-ompexp-uid-asmname',
                            '-c', f + '.f90'], cwd=tmp, capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr)
            raise RuntimeError(f'gfortran failed on {f}')
        r = subprocess.run(['readelf', '-wi', f + '.o'], cwd=tmp, capture_output=True, text=True)
        with open(f'{tmp}/{f}.dw', 'w') as o:
            o.write(r.stdout)
    for o in glob.glob(tmp + '/*.o'):
        os.remove(o)
    open(tmp + '/OK', 'w').close()
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp)
    # keep the two most recent only
    olds = sorted((p for p in glob.glob(root + '/ir-*') if os.path.exists(p + '/OK') and p != out),
                  key=os.path.getmtime)
    for p in olds[:-2]:
        shutil.rmtree(p, ignore_errors=True)
    return out


# ---------------------------------------------------------------------------- DWARF
def parse_dwarf(path):
    """name -> (size, {field: (offset, typedesc)}); typedesc = ('base',size,enc)|('array',n,t)|..."""
    dies = {}
    cur = None
    stack = {}
    for line in open(path):
        m = re.match(r'\s*<(\d+)><([0-9a-f]+)>: Abbrev Number: \d+ \((DW_TAG_\w+)\)', line)
        if m:
            depth, off, tag = int(m[1]), int(m[2], 16), m[3]
            cur = {'tag': tag, 'children': []}
            dies[off] = cur
            stack[depth] = cur
            if depth and depth - 1 in stack:
                stack[depth - 1]['children'].append(cur)
            continue
        m = re.match(r'\s*<[0-9a-f]+>\s+(DW_AT_\w+)\s*: (.*)', line)
        if m and cur is not None:
            v = m[2].strip()
            if v.startswith('(') and '): ' in v:
                v = v.split('): ', 1)[1]
            cur[m[1]] = v
    def ref(v):
        m = re.search(r'<(0x)?([0-9a-f]+)>', v)
        return int(m[2], 16)

    def num(v, default=None):
        try:
            return int(v.split()[0], 0)
        except Exception:
            return default

    def desc(off, depth=0):
        d = dies.get(off)
        if d is None or depth > 6:
            return ('unknown',)
        t = d['tag']
        if t == 'DW_TAG_base_type':
            return ('base', num(d['DW_AT_byte_size']), d.get('DW_AT_name', ''))
        if t == 'DW_TAG_structure_type':
            return ('struct', d.get('DW_AT_name', '').lower())
        if t == 'DW_TAG_array_type':
            n = 1
            for c in d['children']:
                if c['tag'] == 'DW_TAG_subrange_type':
                    lo = num(c.get('DW_AT_lower_bound', '1'), 1)
                    up = num(c.get('DW_AT_upper_bound', ''), None)
                    n = n * (up - lo + 1) if up is not None and n is not None else None
            return ('array', n, desc(ref(d['DW_AT_type']), depth + 1))
        if t in ('DW_TAG_pointer_type', 'DW_TAG_reference_type'):
            return ('base', 8, 'pointer')
        if t == 'DW_TAG_string_type':
            return ('base', num(d.get('DW_AT_byte_size', ''), None), 'string')
        if t in ('DW_TAG_const_type', 'DW_TAG_typedef', 'DW_TAG_volatile_type',
                 'DW_TAG_restrict_type') and 'DW_AT_type' in d:
            return desc(ref(d['DW_AT_type']), depth + 1)
        return ('unknown',)

    out = {}
    for off, d in dies.items():
        if d['tag'] == 'DW_TAG_structure_type' and 'DW_AT_byte_size' in d and 'DW_AT_name' in d:
            f = {}
            for c in d['children']:
                if c['tag'] == 'DW_TAG_member':
                    f[c['DW_AT_name'].lower()] = (num(c['DW_AT_data_member_location']),
                                                  desc(ref(c['DW_AT_type'])))
            out[d['DW_AT_name'].lower()] = (num(d['DW_AT_byte_size']), f)
    return out
