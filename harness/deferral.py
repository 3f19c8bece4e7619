"""Uses the deferral helper as the scenarios say and records what is called when."""
from hlib import main


class Failure(Exception):
    pass


class Interrupt(BaseException):
    pass


def run_scenario(ops):
    from profiling.utils import deferral
    trace, state = [], {'last': 0}

    def new_id():
        state['last'] += 1
        return state['last']

    latest = {}

    def register(defer, b, kind):
        i = new_id()
        if kind == 'same':
            call, args, kwargs = latest[b]
            defer(call, *args, **kwargs)
            return
        # different shapes of arguments
        args, kwargs = [((), {}), ((i,), {}), ((i, [i]), {'k': i}), ((), {'k': i, 'b': 2})][i % 4]

        def call(*a, **k):
            trace.append(dict(op='call', b=b, id=i, args=(a, k) == (args, kwargs)))
            if kind in ('regok', 'failreg'):
                register(defer, b, 'ok')
            elif kind == 'regfail':
                register(defer, b, 'fail')
            if kind in ('fail', 'failreg'):
                raise Failure(i)
        latest[b] = call, args, kwargs
        defer(call, *args, **kwargs)

    def body(b):
        with deferral() as defer:
            how = yield
            while True:
                if how[0] == 'reg':
                    register(defer, b, how[1])
                elif how[1] == 'error':
                    raise Failure(0)
                elif how[1] == 'interrupt':
                    raise Interrupt(0)
                else:
                    return
                how = yield

    gens = {}
    for b in (1, 2):
        gens[b] = body(b)
        next(gens[b])
    for op in ops:
        b = op[1]
        if op[0] == 'reg':
            gens[b].send(('reg', op[2]))
            trace.append(dict(op='reg', b=b, kind=op[2]))
        else:
            trace.append(dict(op='end', b=b, how=op[2]))
            raised = -1
            try:
                if op[2] == 'close':
                    gens[b].close()
                else:
                    gens[b].send(('end', op[2]))
            except StopIteration:
                pass
            except (Failure, Interrupt) as e:
                raised = e.args[0]
            except BaseException as e:
                raised = -2
            trace.append(dict(op='left', b=b, raised=raised))
    return trace


def run(payload):
    return [run_scenario(ops) for ops in payload]


if __name__ == '__main__':
    main(run)
