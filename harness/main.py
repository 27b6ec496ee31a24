import importlib
import os
import re
import sys
import traceback

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, '/repo')

import vlib  # noqa: E402


def main():
    pid = sys.argv[1]
    import registry
    suite, level, assumptions = registry.PROPS[pid]
    chk = vlib.Check(pid)
    if '--crashed' in sys.argv:
        chk.violation('ANY.no-failure', {
            'id': 'the code under test brought the interpreter down',
            'error': f'exit status {sys.argv[-1]} of the run that called it'})
        return chk.finish(level, assumptions)
    if suite in registry.NOJIT:
        os.environ['NUMBA_DISABLE_JIT'] = '1'
    if suite == 'grid_suite':
        os.environ['NUMBA_NUM_THREADS'] = '4'
    try:
        mod = importlib.import_module(suite)
        import wake_t
        if not wake_t.__file__.startswith('/repo/'):
            raise vlib.MachineryError(f'wrong wake_t: {wake_t.__file__}')
        mod.run(chk, pid)
        chk.join()
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith('/repo/wake_t') for f in tb):
            chk.violation('ANY.no-failure', {
                'id': 'unexpected exception in the code under test',
                'error': traceback.format_exc()})
        elif isinstance(e, (ValueError, OverflowError, ArithmeticError)) \
                and re.search(r'nan|infinit|finite|infs', str(e).lower()):
            chk.violation('ANY.finite', {
                'id': 'the code under test gave non-finite numbers',
                'error': traceback.format_exc()})
        traceback.print_exc()
        print(f'ERROR property={pid}: the check could not be completed')
        if chk.violations:
            return chk.finish(level, assumptions)
        return 2
    return chk.finish(level, assumptions)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
