"""vacuity.py P13 ...: which clauses and observations of the specification bite.

Records the traces of a check as usual, damages one observation in copies of
them and lets TLC judge the copies.  Prints the clauses of the specification
that rejected none of the copies, and for every kind of observation how many
of its damaged copies were rejected.  (For development only.)
"""
import collections, importlib, json, os, random, re, sys, tempfile
os.environ.setdefault('VERIF_SEED', '1'); os.environ.setdefault('VERIF_TIER', 'quick')
sc = tempfile.mkdtemp(prefix='/tmp/vac_')
os.environ.update(VERIF_SCRATCH=sc, HOME=sc, NUMBA_CACHE_DIR=sc + '/nb', WAKET_DISABLE_CACHING='1', WAKET_NUM_THREADS='1',
                  NUMBA_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg', HDF5_USE_FILE_LOCKING='FALSE')
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here + '/harness', '/repo']
os.chdir(sc)
import registry, vlib
pid = sys.argv[1]
N = int(sys.argv[2]) if len(sys.argv) > 2 else 400
suite = registry.PROPS[pid][0]
if suite in registry.NOJIT:
    os.environ['NUMBA_DISABLE_JIT'] = '1'
got = collections.defaultdict(list)
vlib.Check.validate = lambda self, module, traces, label=None, batch=400: got[module].extend(
    {'cfg': t['cfg'], 'ev': t['ev']} for t in traces)
vlib.Check.model = lambda *a, **k: None
chk = vlib.Check(pid)
importlib.import_module(suite).run(chk, pid)
rng = random.Random(5)


def leaves(o, path=()):
    if isinstance(o, dict):
        for k, v in o.items():
            yield from leaves(v, path + (k,))
    elif isinstance(o, list):
        for i, v in enumerate(o):
            yield from leaves(v, path + (i,))
    else:
        yield path, o


def damage(v, big=False):
    if isinstance(v, bool):
        return not v
    if big:
        return 2 * 10**9
    if isinstance(v, int):
        return rng.choice([v + 1, v - 1, 10**9 if v != 10**9 else 0])
    if isinstance(v, str):
        return v + 'x'
    return v


def run(module, items, out):
    p = f'{sc}/t.json'
    with open(p, 'w') as f:
        json.dump([t for t, _ in items], f)
    rc, o = vlib.tlc(module, env={'TRACE_FILE': p})
    if rc:
        if len(items) == 1:
            out[items[0][1]] = {'ANY.not-evaluable'}
            return
        h = len(items) // 2
        run(module, items[:h], out); run(module, items[h:], out)
        return
    for tr, pos, c in re.findall(r'BAD (\d+) (\d+) ([\w.\-]+)', o):
        out.setdefault(items[int(tr) - 1][1], set()).add(c)


for module, traces in got.items():
    kinds = collections.defaultdict(list)
    for ti, t in enumerate(traces):
        for ei, e in enumerate(t['ev']):
            for path, v in leaves(e):
                if path[-1] == 'a' or v is None:
                    continue
                key = (e['a'], e.get('law', '') if e['a'] == 'law' else '',
                       '.'.join('*' if isinstance(q, int) else q for q in path))
                kinds[key].append((ti, ei, path))
    items, which = [], []
    per = max(3, N // max(1, len(kinds)))
    for key, places in sorted(kinds.items()):
        for ti, ei, path in rng.sample(places, min(per, len(places))):
            t = json.loads(json.dumps({'cfg': traces[ti]['cfg'], 'ev': traces[ti]['ev'][:ei + 12]}))
            o = t['ev'][ei]
            for q in path[:-1]:
                o = o[q]
            o[path[-1]] = damage(o[path[-1]], path[-1] == 'dev')
            items.append((t, len(items))); which.append(key)
    out = {}
    for i in range(0, len(items), 50):
        run(module, items[i:i + 50], out)
    src = open(f'{here}/spec/{module[5:]}.tla').read()
    clauses = set(re.findall(r'"(P\d\d\.[\w-]+)"', src))
    hit = set().union(*out.values()) if out else set()
    print('==', module, len(traces), 'traces', len(items), 'copies')
    print('   clauses that rejected nothing:', ' '.join(sorted(clauses - hit)) or 'none')
    for key in sorted(kinds):
        n = [i for i, k in enumerate(which) if k == key]
        bad = sum(i in out for i in n)
        if bad < len(n) * .5:
            print('   weak', key, f'{bad}/{len(n)}')
import shutil; shutil.rmtree(sc)
os._exit(0)
