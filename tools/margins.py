"""margins.py P30 [seed ...]: how close measured deviations come to their bounds.

Prints, for every clause decided by a bound on a measured deviation, the
largest ratio deviation / bound over the given seeds, and the trace that
reaches it.  (For development only: a ratio near 1 is a false alarm waiting.)
"""
import collections, importlib, os, subprocess, sys, tempfile
if len(sys.argv) > 3:
    best = {}
    for s in sys.argv[2:]:
        o = subprocess.run([sys.executable, __file__, sys.argv[1], s], capture_output=True, text=True)
        if o.returncode:
            print(o.stderr[-2000:])
        for l in o.stdout.splitlines():
            r, c, i = l.split(None, 2)
            best[c] = max(best.get(c, (0., '')), (float(r), i))
    for c, (r, i) in sorted(best.items(), key=lambda q: -q[1][0]):
        print(f'{r:8.3f} {c:32} {i}')
    sys.exit()
os.environ['VERIF_SEED'] = sys.argv[2] if len(sys.argv) > 2 else '1'
os.environ.setdefault('VERIF_TIER', 'quick')
sc = tempfile.mkdtemp(prefix='/tmp/mar_')
os.environ.update(VERIF_SCRATCH=sc, HOME=sc, NUMBA_CACHE_DIR=sc + '/nb', WAKET_DISABLE_CACHING='1', WAKET_NUM_THREADS='1',
                  NUMBA_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg', HDF5_USE_FILE_LOCKING='FALSE')
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here + '/harness', '/repo']
os.chdir(sc)
import registry, vlib
pid = sys.argv[1]
suite = registry.PROPS[pid][0]
if suite in registry.NOJIT:
    os.environ['NUMBA_DISABLE_JIT'] = '1'
top = {}


def validate(self, module, traces, label=None, batch=400):
    for t in traces:
        for e in t['ev']:
            if e.get('a') == 'fail':
                top['fail'] = (9., t['id'])
            if e.get('a') == 'law' and 'dev' in e:
                b = e.get('bound', e.get('max'))
                if b is None:
                    continue
                r = e['dev'] / b if b else float(e['dev'] > 0) * 9
                top[e['law']] = max(top.get(e['law'], (-1., '')), (r, t['id']))


vlib.Check.validate = validate
vlib.Check.model = lambda *a, **k: None
importlib.import_module(suite).run(vlib.Check(pid), pid)
for c, (r, i) in sorted(top.items(), key=lambda q: -q[1][0]):
    print(f'{r:8.3f} {c:32} {i}')
import shutil; shutil.rmtree(sc, ignore_errors=True)
