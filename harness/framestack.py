"""Calls both implementations of the frame stack on real call chains."""
import glob, importlib, os, shutil, subprocess, sys, threading
try:
    import _thread
except ImportError:
    import thread as _thread
from hlib import main, REPO

SCRATCH = os.environ['VERIF_SCRATCH']
NS = {}
for name in 'abcd':
    exec('def %s(chain, k):\n    if len(chain) > 1:\n        return NS[chain[1]](chain[1:], k)\n    k()\n' % name, globals())
    NS[name] = globals()[name]


def foreign():
    return sys._getframe()


def variant(name):
    """Imports a copy of the package without or with the C implementation."""
    d = os.path.join(SCRATCH, name)
    shutil.copytree(os.path.join(REPO, 'profiling'), os.path.join(d, 'profiling'),
                    ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyd'))
    if name == 'c':
        from distutils import sysconfig
        so = 'speedup' + (sysconfig.get_config_var('EXT_SUFFIX') or '.so')
        subprocess.check_call(['gcc', '-shared', '-fPIC', '-w', '-O1', '-I' + sysconfig.get_python_inc(),
                               os.path.join(d, 'profiling', 'speedup.c'), '-o', os.path.join(d, 'profiling', so)])
    for m in [m for m in sys.modules if m.split('.')[0] == 'profiling']:
        del sys.modules[m]
    sys.path.insert(0, d)
    utils = importlib.import_module('profiling.utils')
    assert bool(utils.speedup) == (name == 'c'), name
    profiler = importlib.import_module('profiling.profiler')
    sys.path.pop(0)
    return utils, profiler


KINDS = [tuple, list, set, frozenset]


def run(payload):
    main_utils, main_profiler = variant('python')
    c_utils, _ = variant('c')
    res, errors = [], []

    for chain, cases in payload:
        chain_of(chain, cases, main_utils, main_profiler, c_utils, res, errors)
        if errors:
            raise RuntimeError(errors[0])
    return res


def chain_of(chain, cases, utils, profiler, c_utils, res, errors):
    lock = _thread.allocate_lock()
    lock.acquire()

    def at_end():
        try:
            top = sys._getframe(1)
            frames, f = [], top
            while f is not None:
                frames.insert(0, f)
                f = f.f_back
            assert [f.f_code.co_name for f in frames] == list(chain), frames
            other = foreign()

            def index(stack):
                return [frames.index(f) + 1 if f in frames else 0 for f in stack]
            for n, (base, bcode, ignf, ignc) in enumerate(cases):
                bf = None if base == 0 else other if base < 0 else frames[base - 1]
                bc = None if not bcode else foreign.__code__ if bcode == 'foreign' else NS[bcode].__code__
                kind = KINDS[n % 4]
                igf = kind(frames[i - 1] for i in ignf)
                igc = kind(NS[x].__code__ for x in ignc)
                p = profiler.Profiler(bf, bc, igf, igc)
                res.append(dict(chain=chain, base=base, bcode=bcode, ignf=ignf, ignc=ignc,
                                python=index(utils.frame_stack(top, bf, bc, igf, igc)),
                                c=index(c_utils.frame_stack(top, bf, bc, igf, igc)),
                                profiler=index(p.frame_stack(top))))
        except BaseException:
            import traceback
            errors.append(traceback.format_exc())
        finally:
            lock.release()
    _thread.start_new_thread(NS[chain[0]], (list(chain), at_end))
    lock.acquire()


if __name__ == '__main__':
    main(run)
