"""Common parts of the harnesses (run by PyPy on the code under test)."""
import json, os, sys, traceback

REPO = os.environ['VERIF_REPO']


def check_import():
    import profiling
    got = os.path.realpath(profiling.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit('profiling imported from %s, not %s' % (got, REPO))


def main(run):
    """run(payload) -> result, JSON in both directions.  A run that raises is
    reported as a crash of the driver."""
    with open(sys.argv[1]) as f:
        payload = json.load(f)
    check_import()
    res = run(payload)
    tmp = sys.argv[2] + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(res, f)
    os.rename(tmp, sys.argv[2])
    sys.stdout.flush()
    os._exit(0)


class Injected(Exception):
    """A failure injected by the driver."""


class BodyError(Exception):
    """An exception raised by the body of a with block."""


def outcome(exc):
    if exc is None:
        return 'ok'
    if isinstance(exc, Injected):
        return 'Fault'
    if isinstance(exc, BodyError):
        return 'Body'
    if isinstance(exc, RuntimeError):
        return 'RuntimeError'
    if isinstance(exc, TypeError):
        return 'TypeError'
    return type(exc).__name__


def tree_names(stats):
    """All names in a statistics tree (iterative, only __iter__ and name)."""
    todo, res = [stats], set()
    while todo:
        s = todo.pop()
        res.add(s.name)
        todo.extend(s)
    return res
