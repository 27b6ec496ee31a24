"""Common machinery of all checks: TLC runs, trace validation, verdicts."""
import contextlib
import importlib
import json
import os
import re
import signal
import subprocess
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
SCRATCH = os.environ.get('VERIF_SCRATCH', '/tmp')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
OFF = -999999   # an observation that is not on the grid of ticks


class MachineryError(Exception):
    pass


class Timeout(Exception):
    pass


class time_limit:
    """Turns an endless loop of the code under test into an exception."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(sig, frame):
            raise Timeout(f'no end after {self.seconds} s')
        self.old = signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def tick(value, unit, tol=1e-3):
    """Nearest integer multiple of `unit`, or OFF."""
    try:
        q = float(value) / unit
        n = round(q)
    except (ValueError, OverflowError, TypeError):
        return OFF
    if abs(q - n) > tol or abs(n) > 2**30:
        return OFF
    return int(n)


def tlc(module, cfg=None, env=None, timeout=800, workers=8, heap='8g',
        extra=()):
    """Run TLC on spec/<module>.tla. Returns its output."""
    meta = os.path.join(SCRATCH, f'tlc_{module}_{time.time_ns()}')
    os.makedirs(meta)
    e = dict(os.environ)
    e['JAVA_TOOL_OPTIONS'] = f'-Xmx{heap} -Xss256m -Djava.io.tmpdir={meta}'
    if env:
        e.update(env)
    cmd = ['tlc', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-config', os.path.join(SPEC, cfg or module + '.cfg'), *extra,
           os.path.join(SPEC, module + '.tla')]
    p = subprocess.run(cmd, env=e, cwd=meta, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def states_of(out):
    m = re.findall(r'([\d,]+) states generated.*?, ([\d,]+) distinct', out)
    if not m:
        return 0, 0
    gen, dist = m[-1]
    return int(dist.replace(',', '')), int(gen.replace(',', ''))


class Check:
    """One property being decided."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.distinct = set()
        self.samples = []
        self.violations = []     # (clause, description, replay path)
        self.models = []
        self.notes = []
        self.known = load_known(pid)
        self.pending = []
        self.unevaluable = False

    # -- design model -----------------------------------------------------
    def model(self, module, cfg=None, workers=4, timeout=800):
        """Exhaustive check of a design model, in the background; it must
        hold (see join)."""
        res = {}

        def work():
            t = time.time()
            try:
                res['rc'], res['out'] = tlc(module, cfg, timeout=timeout,
                                            workers=workers)
            except Exception as e:
                res['rc'], res['out'] = -1, repr(e)
            res['wall'] = time.time() - t
        th = threading.Thread(target=work, daemon=True)
        th.start()
        self.pending.append((module, cfg, th, res))

    def join(self):
        for module, cfg, th, res in self.pending:
            th.join()
            out = res['out']
            if res['rc'] != 0 or 'No error has been found' not in out:
                raise MachineryError(f'TLC failed on {module}/{cfg}:\n{out[-3000:]}')
            d, g = states_of(out)
            self.states += d
            self.transitions += g
            self.models.append({'module': cfg or module, 'distinct_states': d,
                                'states_generated': g,
                                'wall_s': round(res['wall'], 1)})
        self.pending = []

    # -- traces -----------------------------------------------------------
    def validate(self, module, traces, label=None, batch=400):
        """Check recorded traces of the real code with a trace model.

        `traces` is a list of {'cfg':..., 'ev': [...], 'id':...}. Every trace
        has to be consumed completely by TLC; failing clauses of this
        property become violations.
        """
        label = label or module
        for i in range(0, len(traces), batch):
            self._validate(module, traces[i:i + batch], label)

    def _validate(self, module, traces, label):
        if not traces:
            return
        path = os.path.join(SCRATCH, f'{label}_{time.time_ns()}.json')
        with open(path, 'w') as f:
            json.dump([{'cfg': t['cfg'], 'ev': t['ev']} for t in traces], f)
        rc, out = tlc(module, env={'TRACE_FILE': path})
        os.remove(path)
        if rc != 0 and 'evaluat' in out.lower():
            # An observation of a shape the specification has no case for.
            if len(traces) > 1:
                h = len(traces) // 2
                self._validate(module, traces[:h], label)
                if not self.unevaluable:
                    self._validate(module, traces[h:], label)
                return
            if len(traces) == 1:
                self.unevaluable = True
                t = traces[0]
                self.violation('ANY.not-evaluable', {
                    'module': module, 'clause': 'ANY.not-evaluable',
                    'id': t.get('id'), 'scenario': t.get('scenario'),
                    'cfg': t['cfg'], 'event': t['ev'][:3],
                    'error': out[-600:]})
                return
        if rc != 0:
            raise MachineryError(f'TLC failed on {module}:\n{out[:1500]}\n...\n{out[-2500:]}')
        done = set(int(n) for n in re.findall(r'DONE (\d+)', out))
        if done != set(range(1, len(traces) + 1)):
            raise MachineryError(f'{module}: traces not consumed: '
                                 f'{sorted(set(range(1, len(traces)+1)) - done)[:5]}\n{out[-2500:]}')
        d, g = states_of(out)
        self.states += d
        self.transitions += g
        self.traces += len(traces)
        self.events += sum(len(t['ev']) for t in traces)
        for t in traces:
            self.distinct.add(json.dumps([t['cfg'], t['ev']], sort_keys=True)
                              if len(t['ev']) > 1 or t.get('nontrivial', True)
                              else '')
        if traces and len(self.samples) < 3:
            t = traces[len(traces) // 2]
            self.samples.append({'module': module, 'id': t.get('id'),
                                 'cfg': t['cfg'], 'first_events': t['ev'][:4]})
        for tr, pos, clause in sorted(
                set(re.findall(r'BAD (\d+) (\d+) ([\w.\-]+)', out)),
                key=lambda x: (int(x[0]), int(x[1]))):
            if clause.split('.')[0] not in (self.pid, 'ANY'):
                continue
            t = traces[int(tr) - 1]
            self.violation(clause, {
                'module': module, 'clause': clause, 'id': t.get('id'),
                'scenario': t.get('scenario'), 'cfg': t['cfg'],
                'event_index': int(pos), 'event': t['ev'][int(pos) - 1],
                'events_before': t['ev'][max(0, int(pos) - 6):int(pos) - 1],
                'error': t.get('error')})

    def violation(self, clause, data):
        key = f"{clause} {data.get('id')}"
        for k in self.known:
            if k == key:
                print(f'KNOWN-FINDING: property={self.pid} {key}')
                return
        d = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        n = len(self.violations)
        path = os.path.join(d, f'{self.pid}_{n:03d}.json')
        if n < 50:
            with open(path, 'w') as f:
                json.dump(data, f, indent=1, default=str)
        self.violations.append((clause, data, path))

    # -- end --------------------------------------------------------------
    def finish(self, level, assumptions=()):
        ev = {
            'property': self.pid, 'tier': 'thorough' if THOROUGH else 'quick',
            'seed': SEED, 'level': level,
            'coverage': {
                'states': self.states, 'transitions': self.transitions,
                'traces_validated_against_impl': self.traces,
                'events_validated': self.events,
                'evaluations': self.traces,
                'distinct_nontrivial': len(self.distinct - {''}),
                'rule': 'a trace is one execution of the real code recorded as'
                        ' events and checked by TLC against the specification;'
                        ' distinct if configuration or events differ',
                'models': self.models,
                'samples': self.samples or [{'none': True}],
                'notes': self.notes,
            },
            'assumptions': list(assumptions),
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            seen = set()
            for clause, data, path in self.violations:
                if clause in seen:
                    continue
                seen.add(clause)
                print(f'  {clause}: {data.get("id")} event {data.get("event_index")}'
                      f' {json.dumps(data.get("event"), default=str)[:300]}'
                      f' {str(data.get("error") or "")[-400:]}')
                print(f'VIOLATION property={self.pid} replay={path}')
            return 1
        print(f'OK property={self.pid} traces={self.traces} events={self.events}'
              f' states={self.states} wall={time.time()-self.t0:.1f}s')
        return 0


def load_known(pid):
    path = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\w+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


class NoInterface(Exception):
    """An internal function is not there any more, or takes other arguments."""


def internal(path):
    """An internal function of the code under test, 'module:name'. What is not
    part of the public interface may be renamed, moved or given other
    arguments: then calling it raises NoInterface and that part is skipped."""
    module, name = path.split(':')
    try:
        fn = getattr(importlib.import_module(module), name)
    except (ImportError, AttributeError):
        fn = None

    def call(*args, **kw):
        if fn is None:
            raise NoInterface(path)
        try:
            return fn(*args, **kw)
        except TypeError as e:
            inside = any(f.filename.startswith(REPO)
                         for f in traceback.extract_tb(e.__traceback__))
            if not inside and re.search(r'argument', str(e)):
                raise NoInterface(f'{path}: {e}')
            raise
    return call


def collect(chk, makers):
    """The traces made by the given functions, without those that need an
    interface that is not there."""
    out, missing = [], {}
    for m in makers:
        try:
            t = m()
        except NoInterface as e:
            missing[str(e)] = missing.get(str(e), 0) + 1
            continue
        if t is not None:
            out.append(t)
    for k, n in missing.items():
        chk.notes.append(f'{n} traces skipped: no internal function {k}')
        print(f'NOTE property={chk.pid}: {n} traces skipped, no internal function {k}')
    return out


_hangs = []
_calls = []
_start = time.time()


def guarded(fn, *args, limit=120, **kw):
    """Run code under test; returns (value, error text or None).

    Once something did not come to an end (a violation), the rest of the
    check is given less time, so that it ends in any case.
    """
    if _hangs:
        if time.time() - _start > 500:
            return None, _hangs[0]
        limit = min(limit, 20 if len(_hangs) < 4 else 4)
    with contextlib.ExitStack() as stack:
        if kw.get('show_progress_bar') is False:
            # what is shown makes no difference
            _calls.append(1)
            if len(_calls) % 7 == 3:
                kw.pop('show_progress_bar')
                if len(_calls) % 2:
                    kw['show_progress_bar'] = True
                null = stack.enter_context(open(os.devnull, 'w'))
                stack.enter_context(contextlib.redirect_stdout(null))
                stack.enter_context(contextlib.redirect_stderr(null))
        return _guarded(fn, args, limit, kw)


def _guarded(fn, args, limit, kw):
    try:
        with time_limit(limit):
            return fn(*args, **kw), None
    except (MachineryError, NoInterface):
        raise
    except Timeout:
        _hangs.append(traceback.format_exc())
        return None, _hangs[-1]
    except Exception:
        return None, traceback.format_exc()
