"""cov.py P01 P06 ...: lines of wake_t that the checks do not execute (development only)."""
import importlib, os, sys, tempfile, dis, types
sc = tempfile.mkdtemp(prefix='/tmp/cov_')
os.environ.update(VERIF_SEED='1', VERIF_TIER='quick', VERIF_SCRATCH=sc, HOME=sc, NUMBA_CACHE_DIR=sc + '/nb',
                  WAKET_DISABLE_CACHING='1', WAKET_NUM_THREADS='1', NUMBA_NUM_THREADS='1', MPLBACKEND='Agg',
                  HDF5_USE_FILE_LOCKING='FALSE', NUMBA_DISABLE_JIT='1')
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here + '/harness', '/repo']
os.chdir(sc)
mon = sys.monitoring
mon.use_tool_id(1, 'cov')
seen = set()
def line(code, ln):
    if code.co_filename.startswith('/repo/wake_t'):
        seen.add((code.co_filename, ln))
    return mon.DISABLE
mon.register_callback(1, mon.events.LINE, line)
mon.set_events(1, mon.events.LINE)
import registry, vlib
vlib.Check.validate = lambda *a, **k: None
vlib.Check.model = lambda *a, **k: None
for pid in sys.argv[1:]:
    importlib.import_module(registry.PROPS[pid][0]).run(vlib.Check(pid), pid)
mon.set_events(1, 0)
def lines(co):
    for _, _, ln in co.co_lines():
        if ln:
            yield ln
    for c in co.co_consts:
        if isinstance(c, types.CodeType):
            yield from lines(c)
import json
out = {}
for root, _, fs in os.walk('/repo/wake_t'):
    for f in fs:
        if f.endswith('.py'):
            p = f'{root}/{f}'
            src = open(p).read()
            all_ = set(lines(compile(src, p, 'exec')))
            out[p] = [sorted(all_), sorted(l for q, l in seen if q == p)]
json.dump(out, open(f'/tmp/cov_{sys.argv[1]}.json', 'w'))
import shutil; shutil.rmtree(sc)
os._exit(0)
