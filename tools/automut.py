"""automut.py SEED N [pattern]: mutants generated from the source, N per 100
statements of each file, run against the checks of that file (for development only).

Prints one line per mutant; SURVIVED ones are to be looked at.
"""
import ast, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
MAP = [
 ('tracking/tracker', 'P03 P01 P02 P04 P05 P11 P09 P06 P07 P08 P10'),
 ('fields/rz_wakefield', 'P16 P17 P08 P18 P28 P27 P13 P07 P03 P19'),
 ('fields/gather', 'P13 P17 P04 P14'), ('fields/', 'P13 P04 P03 P17 P14 P31'),
 ('fields/interpolation', 'P17 P16'),
 ('particles/push/transfer', 'P21 P33 P23'), ('particles/push', 'P14 P01 P11 P32'),
 ('particles/deposition', 'P16 P28 P32 P08'), ('particles/interpolation', 'P17 P32 P28'),
 ('particles/particle_bunch', 'P10 P12 P09 P25 P26 P11 P08 P16 P05'),
 ('diagnostics/openpmd', 'P07 P08'), ('diagnostics/bunch_analysis', 'P26'),
 ('beamline_elements/tm_elements', 'P21 P22 P34 P23 P33 P24 P06 P07'),
 ('beamline_elements/beamline', 'P06 P07 P24'),
 ('beamline_elements/field_element', 'P01 P06 P07 P05 P03'),
 ('beamline_elements/field_quad', 'P15'), ('beamline_elements/active', 'P15 P27 P28 P01'),
 ('beamline_elements/plasma', 'P27 P28 P31 P18 P16 P01 P03 P08 P35'),
 ('em_fields', 'P15'), ('collective', 'P24 P06 P07'),
 ('beam_optics', 'P33 P23'), ('laser/laser_pulse', 'P20 P18 P19 P35'), ('laser/', 'P19 P18'),
 ('plasma_wakefields/qs_', 'P28 P30 P32 P27 P18 P08 P35'),
 ('plasma_wakefields', 'P31 P27'),
 ('utilities/bunch_gen', 'P29'), ('utilities/bunch_sav', 'P25'),
 ('utilities/bunch_man', 'P12 P26 P23 P25 P29'), ('utilities/other', 'P25 P27 P29'),
]
VDIR = os.environ.get('VDIR', '/verif')   # a copy can be used while /verif is edited
SWAP = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
        ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
        ast.NotEq: '==', ast.And: 'or', ast.Or: 'and', ast.Is: 'is not', ast.IsNot: 'is'}


def candidates(src):
    tree = ast.parse(src)
    off = [0]
    for l in src.split('\n'):
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno-1] + n.col_offset, off[n.end_lineno-1] + n.end_col_offset)
    out = []
    def op(a, c, o, line):
        i, j = pos(a)[1], pos(c)[0]
        mid = b[i:j].decode()
        pat = {'Add': r'\+', 'Sub': '-', 'Mult': r'\*', 'Div': '/', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=',
               'Eq': '==', 'NotEq': '!=', 'And': 'and', 'Or': 'or', 'Is': 'is', 'IsNot': 'is not'}[type(o).__name__]
        m = re.search(pat, mid)
        if m:
            out.append((i + m.start(), i + m.end(), SWAP[type(o)], line))
    def visit(n, doc=False):
        for f, v in ast.iter_fields(n):
            for c in (v if isinstance(v, list) else [v]):
                if not isinstance(c, ast.AST):
                    continue
                if isinstance(c, ast.FunctionDef) and c.name in ('_print_element_properties', '__repr__', '__str__'):
                    continue
                if isinstance(c, (ast.Raise, ast.Assert, ast.JoinedStr, ast.Import, ast.ImportFrom)):
                    continue
                if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                    continue
                if f in ('decorator_list', 'annotation', 'returns'):
                    continue
                if isinstance(c, ast.Call) and getattr(c.func, 'id', '') in ('print', 'warn', 'njit'):
                    continue
                l = c.lineno if hasattr(c, 'lineno') else 0
                if isinstance(c, ast.BinOp) and type(c.op) in SWAP:
                    op(c.left, c.right, c.op, l)
                if isinstance(c, ast.Compare) and type(c.ops[0]) in SWAP:
                    op(c.left, c.comparators[0], c.ops[0], l)
                if isinstance(c, ast.BoolOp):
                    op(c.values[0], c.values[1], c.op, l)
                if isinstance(c, ast.Constant) and isinstance(c.value, (int, float)) and not isinstance(c.value, bool):
                    i, j = pos(c)
                    out.append((i, j, f'({c.value} + 1)' if isinstance(c.value, int) else f'({c.value!r} * 1.25 + 1e-6)', l))
                if isinstance(c, ast.Constant) and isinstance(c.value, bool):
                    i, j = pos(c); out.append((i, j, str(not c.value), l))
                if isinstance(c, ast.If):
                    i, j = pos(c.test); out.append((i, j, f'not ({b[i:j].decode()})', l))
                if isinstance(c, ast.UnaryOp) and isinstance(c.op, (ast.USub, ast.Not)):
                    i, j = pos(c); out.append((i, j, b[pos(c.operand)[0]:pos(c.operand)[1]].decode(), l))
                if isinstance(c, (ast.AugAssign, ast.Break, ast.Continue)) or isinstance(c, ast.Expr) or \
                        (isinstance(c, ast.Assign) and isinstance(c.targets[0], (ast.Attribute, ast.Subscript))):
                    i, j = pos(c); out.append((i, j, 'pass', l))
                visit(c)
    visit(tree)
    return [o for o in out]


def one(m):
    f, props, (i, j, new, line) = m
    w = tempfile.mkdtemp(prefix='/tmp/amut_')
    try:
        shutil.copytree('/repo', w + '/repo', symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        p = f'{w}/repo/{f}'
        b = open(p, 'rb').read()
        old = b[i:j].decode()
        open(p, 'wb').write(b[:i] + new.encode() + b[j:])
        tag = f"{f[7:]}:{line}: {old[:60]!r} -> {new[:40]!r} | {b.decode().splitlines()[line-1].strip()[:70]}"
        os.makedirs(w + '/ev')
        for k in props.split():
            try:
                q = subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {w}/repo /repo && mount --bind {w}/ev {VDIR}/evidence && timeout -k 5 400 {VDIR}/bin/check {k}'], capture_output=True, text=True, errors='replace')
            except Exception as e:
                return f'ERR {k} {e} {tag}'
            if q.returncode == 1:
                return f'CAUGHT {k} {tag}'
            if q.returncode != 0:
                return f'RC{q.returncode} {k} {tag} {q.stdout[-200:]!r} {q.stderr[-200:]!r}'
        return f'SURVIVED {tag}'
    finally:
        shutil.rmtree(w, ignore_errors=True)


seed, n = int(sys.argv[1]), float(sys.argv[2])
pat = sys.argv[3] if len(sys.argv) > 3 else ''
files = subprocess.run(['git', '-C', '/repo', 'ls-files', 'wake_t/*.py'], capture_output=True, text=True).stdout.split()
todo = []
for f in files:
    props = next((p for k, p in sorted(MAP, key=lambda t: -len(t[0])) if k in f), None)
    if not props or not re.search(pat, f) or '__init__' in f:
        continue
    src = open('/repo/' + f).read()
    c = candidates(src)
    rng = random.Random(f'{seed}{f}')
    k = min(len(c), max(2, int(n * len(src.splitlines()) / 100)))
    todo += [(f, props, x) for x in rng.sample(c, k)]
print(len(todo), 'mutants', flush=True)
with ThreadPoolExecutor(int(os.environ.get('J', 5))) as ex:
    for r in ex.map(one, todo):
        print(r, flush=True)
