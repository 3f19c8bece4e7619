"""Which check decides which property, and what the manifest says about it."""

CHECKS = {
    'C01': ('lifecycle', 'run'),
    'C02': ('lifecycle', 'run'),
    'C03': ('deferral', 'run'),
    'C04': ('calltree', 'run'),
    'C05': ('calltree', 'run'),
    'C06': ('calltree', 'run'),
    'C07': ('sampler', 'run'),
    'C08': ('framestack', 'run'),
    'C13': ('timers', 'run'),
    'C14': ('session', 'run'),
    'C15': ('wire', 'run'),
    'C16': ('server', 'run'),
    'C17': ('server', 'run'),
    'C18': ('server', 'run'),
    'C19': ('server', 'run'),
    'C20': ('client', 'run'),
    'C21': ('background', 'run'),
    'C22': ('viewer', 'run'),
    'C23': ('viewer', 'run'),
    'C24': ('viewer', 'run'),
    'C25': ('oneshot', 'run'),
    'C26': ('config', 'run'),
    'C27': ('remote', 'run'),
    'C12': ('statstree', 'run'),
    'C11': ('statstree', 'run'),
    'C10': ('statstree', 'run'),
    'C09': ('statstree', 'run'),
}

TECHNIQUE = {
    '*': 'TLA+ specification model-checked with TLC; traces of the real code, driven by behaviours of the specification, validated against it by TLC',
}

LEVEL = {}

NOTES = {
    'C01': 'Exhaustive on the specification for two runnables of every kind within bounded sessions; on the code, edge-covering and random behaviours of it with every injectable failure.',
    'C02': 'As C01; the observed hooks, signal disposition, interval timer and recorded work items of the real process are compared after each step.',
    'C03': 'Exhaustive on the specification for bounded numbers of deferred calls; every behaviour of it is executed with the real helper and the observed calls and errors are validated.',
    'C04': 'Random programs (behaviours of the specification: recursion, generators, exceptions, threads, restarts, base and ignored frames) are executed under the real tracing profiler; each result is compared with the tree the specification predicts.',
    'C05': 'As C04, with clocks driven by the harness: process clock and per-thread clocks, and time passing inside the hook itself.',
    'C06': 'As C04 for the sampling profiler, with samples taken directly and by the signal of the interval timer.',
    'C07': 'Random behaviours of the specification (threads with harness-driven CPU clocks, beginning, ending, reusing identifiers, more than 10000 samples) under the real sampler; every sampling decision is compared.',
    'C08': 'Every call chain within bounds, with every base and ignored set the specification enumerates, through both the pure Python and the freshly compiled C implementation.',
    'C09': 'Random sequences of tree operations from the specification on real trees; every derived figure of every node compared after each operation, also on chains deeper than the recursion limit.',
    'C10': 'As C09 with pickling round trips of all protocols, loaded in a fresh process as well, at random points.',
    'C11': 'As C09 with flattening of the whole tree or a subtree, recorded or frozen, compared with the flat table of the specification.',
    'C12': 'As C09 with every sort key and inverted key on nested, frozen and flat statistics.',
    'C13': 'Exhaustive on the specification for explicit contexts and for greenlet schedules with repeated sessions; random behaviours of it on the real timers with a harness clock, every reading compared.',
    'C14': 'Exhaustive on the specification within bounded sessions; random behaviours of it on real tracing and sampling profilers, bare and wrapped, with harness clocks: every result, dump file (all protocols), viewer and `view` command screen compared.',
    'C15': 'Exhaustive on the specification for every way small messages arrive in portions, with liveness; random streams of it (messages up to hundreds of kilobytes, cut anywhere, closed or reset) over real sockets, blocking and not; every received message compared.',
    'C16': 'Exhaustive on the specification for bounded clients and results; random schedules of it on the base class (tasks that send in parts, failures of any kind, nested and spawned loops), every byte parsed; the select, gevent and asyncio servers with real sockets and misbehaving clients.',
    'C17': 'As C16; every result each client received is compared with what was produced while it was connected.',
    'C18': 'As C16, with liveness on the specification; starts, stops and results of the profiler compared with who was connected.',
    'C19': 'As C16, with liveness; no error escapes, lost clients are closed once, and a client of good manners is served after all misbehaviour.',
    'C20': 'Histories of server availability (TCP, Unix socket, given socket), messages, losses, refusals and alarms of the model replayed on the real clients with real sockets and a scripted event loop; viewer calls, watches, alarms and open sockets compared with the model after every step; reconnection is a liveness property of the model.',
    'C21': 'Handshake model-checked for every interleaving with liveness (every request returns); random request histories of it with real threads, signals, slow and failing inner profilers and a busy main thread; outcome, acting thread and state at return compared.',
    'C22': 'Viewer state and table model-checked over small trees; its random histories (results, keys, kinds, connection, pauses) over random trees replayed on the real viewer, the rendered screen read back after every step and compared with the model: kind, state, title, times, functions and figures of the result that is to be shown.',
    'C23': 'As C22; focus and folding marks of every rendered row compared with the model after every key and result.',
    'C24': 'As C22; the rendered rows must be exactly those below what is expanded, sorted by the current key, with figures within the rounding of their format, and the current column marked; trees with up to a hundred rows.',
    'C25': 'The life of a profiled program model-checked (kinds of source, endings, what the program does to profiler, directory and streams); random behaviours of it generate real programs which are run by Python and by the real command, and the observations (output, streams, status, effects, dump, hooks, frames) compared with each other and with the model.',
    'C26': 'The resolution of every setting from command line, .profiling, setup.cfg and defaults specified and its independence checked on every combination; random combinations of it, valid and invalid, given to the real commands, which record the profiler and parameters they construct.',
    'C27': 'The life of a live program and its viewer (kinds of program, endings, signals, forks, errors, interrupts, closings) model-checked; random behaviours of it executed with the real live-profile and remote-profile commands, under a pseudo-terminal viewer or a client, and the observations compared with the model.',
}

NOT_APPLICABLE = {}
