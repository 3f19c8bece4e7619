"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(qtext.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

p('C01', 'Start/stop discipline of profilers, timers and samplers',
  '''A profiler, timer or sampler is running exactly from a successful start until the next stop:
  starting one that runs and stopping one that does not are both refused with RuntimeError and change nothing,
  not even statistics collected so far.
  A start that fails (another profiler is registered, a part cannot start, the run body does not yield exactly
  once and without a value) leaves it not running, so that a later start works;
  each successful start/stop pair, also in a with block left by an exception, executes the set-up and the clean-up half exactly once.''',
  ['histories', 'fault_sequences'],
  '''every finite history of start, stop, with-block entry/exit, foreign profiler (un)registration, over
  every kind of runnable, with a failure injected at any set-up or clean-up step''',
  '''test_runnable and test_setprofile walk one history each and never look at the state after a refused or failed call;
  the guarantee is over all histories and failure points.''',
  ['profiling/utils.py', 'profiling/profiler.py', 'profiling/tracing/__init__.py', 'profiling/sampling/__init__.py', 'profiling/remote/background.py'],
  [('Runnable.start/stop drive a one-yield generator', 'profiling/utils.py:Runnable'),
   ('Profiler.start resets the session', 'profiling/profiler.py:Profiler.start')],
  [('_running', 'the suspended run() generator or None', 'profiling/utils.py:Runnable')],
  ['is_running()', 'exceptions of start()/stop()', 'result() statistics'])

p('C02', 'Profiling hooks and signal timers are installed only while running',
  '''While a tracing profiler runs, its hook is active in the starting thread and in every thread started meanwhile;
  a tracing profiler refuses to start over another profiling hook and leaves that hook alone.
  Once a profiler stops, or its start fails at any step, or its clean-up partly fails, no hook of it remains in that thread or
  for future threads, nothing that still runs in any thread is recorded any more, and timer and sampler are stopped.
  The signal-based sampler likewise gives SIGPROF and the interval timer back as it found them, except that a default SIGPROF
  disposition becomes "ignore" so that a late signal cannot kill the process.''',
  ['histories', 'fault_sequences'],
  '''every history of start/stop of tracing and sampling profilers with every sampler and timer, from every initial hook,
  SIGPROF disposition and interval-timer setting, nested in last-in-first-out order, with failures at any set-up or clean-up step''',
  '''The tests check one clean start/stop from one initial state; leaks show up only on failing paths, on
  nested use and in threads that outlive the session.''',
  ['profiling/tracing/__init__.py', 'profiling/sampling/__init__.py', 'profiling/sampling/samplers.py', 'profiling/tracing/timers.py', 'profiling/utils.py'],
  [('hooks installed and undone through deferral()', 'profiling/tracing/__init__.py:TracingProfiler.run'),
   ('previous handler and itimer restored', 'profiling/sampling/samplers.py:ItimerSampler.run')],
  [], ['sys.getprofile() in this and in new threads', 'signal.getsignal(SIGPROF)', 'signal.getitimer(ITIMER_PROF)', 'timer/sampler is_running()', 'statistics after stop'])

p('C03', 'Deferred clean-up runs completely, once, in reverse order',
  '''Every call registered with the deferral helper is executed exactly once when its with block ends, in the reverse
  order of registration and with the registered arguments, whether the block ends normally or by an exception.
  A failing deferred call does not keep the others from being executed, and a failure of the block or of a deferred
  call is not swallowed.''',
  ['histories', 'fault_sequences'],
  'every sequence of registrations, including from a deferred call, every subset of failing calls, block ending normally or by any exception',
  'No test exercises deferral directly; only clean endings of two and three registrations are reached through the profilers.',
  ['profiling/utils.py'],
  [('deferral context manager', 'profiling/utils.py:deferral')], [('deferred', 'stack of registered calls', 'profiling/utils.py:deferral')],
  ['order of executed calls', 'exception leaving the with block'])

p('C04', 'Tracing result is the calling-context tree of the profiled program',
  '''For every profiled program the tracing profiler's statistics form the tree of call paths that were executed below the
  base frame: a function called on a path has there exactly as many calls as it was entered on that path while the
  profiler ran, including recursion, generator resumption, calls left by exceptions and calls in threads started meanwhile.
  Functions that were already active when profiling started appear only as ancestors and count only the calls made to them later;
  ignored code and frames never appear and are treated as inlined into their caller, and calls of built-ins are not recorded.''',
  ['programs', 'schedules'],
  '''all programs (call trees with recursion, exceptions, generators, built-in calls), all points at which profiling starts and
  stops inside them, all choices of base frame, base code and ignored frames/codes, all thread interleavings''',
  'The tests profile three fixed call chains; test_profile even feeds the events by hand.',
  ['profiling/tracing/__init__.py', 'profiling/stats.py', 'profiling/utils.py', 'profiling/profiler.py'],
  [('_profile walks the frame stack and records into the node', 'profiling/tracing/__init__.py:TracingProfiler._profile'),
   ('ensure_child creates recording/void nodes', 'profiling/stats.py:RecordingStatistics.ensure_child')],
  [('stats', 'root of the recorded tree', 'profiling/profiler.py:Profiler.stats')],
  ['profiler.result() tree: names, own hits, deep hits, children'])

p('C05', 'Tracing attributes exactly the elapsed timer time of calls, without overhead',
  '''In the tracing result the inclusive time of a node is the sum, over the completed calls on that path, of the profiler's timer
  time between entering and leaving the call minus the time the profiler itself spent meanwhile on that timer; calls that were entered
  before profiling started or not left before it stopped contribute nothing, and no time is ever negative.
  An ancestor that was never itself entered while profiling has the time of its recorded descendants.
  The reported CPU time is the process CPU time of the session minus that overhead.''',
  ['programs', 'schedules'],
  'all programs as in C04, all clock readings (including clocks that advance inside the profiler by any amount), sessions restarted on the same profiler',
  'Tests use real clocks and compare durations loosely (one greater than another); exact attribution over all programs cannot be sampled that way.',
  ['profiling/tracing/__init__.py', 'profiling/stats.py', 'profiling/tracing/timers.py'],
  [('overhead compensation', 'profiling/tracing/__init__.py:TracingProfiler._profile'),
   ('entry times keyed by frame', 'profiling/tracing/__init__.py:record_entering/record_leaving'),
   ('void node time', 'profiling/stats.py:VoidRecordingStatistics.deep_time')],
  [('overhead', 'timer time spent inside the profiler', 'profiling/tracing/__init__.py')],
  ['profiler.result() tree: deep and own times', 'cpu time of result()'])

p('C06', 'Every sample counts once, at the sampled call path',
  '''Each frame sampled by the sampling profiler adds exactly one hit, to the function that was executing, at its call path
  below the base frame; ancestors on the path get no own hit for it but include it in their inclusive hits.
  Hence the inclusive hits of the whole result always equal the number of samples taken in the session, whatever order the paths are
  seen in, and a sample inside ignored code counts for the nearest caller that is not ignored.''',
  ['histories', 'programs'],
  'all sequences of sampled stacks, in particular a function first seen as ancestor and later as leaf or the reverse; all base/ignored settings; samples delivered by either sampler',
  'The tests compare the ratio of two functions that are leaves only, with tolerance, and cannot see lost samples.',
  ['profiling/sampling/__init__.py', 'profiling/sampling/samplers.py', 'profiling/stats.py'],
  [('sample() records one leaf hit', 'profiling/sampling/__init__.py:SamplingProfiler.sample'),
   ('void nodes for absent frames', 'profiling/stats.py:VoidRecordingStatistics')],
  [], ['profiler.result() tree: own and deep hits per path'])

p('C07', 'The tracing sampler samples each thread once per interval',
  '''The event-driven sampler takes a sample at an event of a thread exactly when that thread has consumed at least one sampling
  interval of its own CPU time since its previous sample (since its beginning for the first one).
  Threads do not influence each other, however many samples are taken, and a new thread that gets the identifier of a finished
  one is not held back by it.''',
  ['histories', 'schedules'],
  'all sequences of events of any number of threads with any thread CPU clock readings, long histories (more than 10000 samples), reuse of thread identifiers',
  'The two tests of this sampler are skipped here (yappi) and use one thread and three events.',
  ['profiling/sampling/samplers.py'],
  [('_profile compares the thread clock with the last sample', 'profiling/sampling/samplers.py:TracingSampler._profile'),
   ('_clear_for_dead_threads bounds the table', 'profiling/sampling/samplers.py:TracingSampler._clear_for_dead_threads')],
  [('sampled_times', 'last sample time per thread', 'profiling/sampling/samplers.py:TracingSampler')],
  ['samples received by the profiler per event'])

p('C08', 'The frame stack is the call chain above the base, without ignored frames',
  '''The frame stack of a frame is the chain of its callers from the outermost to the frame itself, cut off just above the
  nearest frame that is the base frame or executes the base code, with ignored frames and frames of ignored code left out and all
  others kept in order.
  The C implementation and the pure Python implementation return the same frames for the same arguments.''',
  ['inputs'],
  'all call chains, base frames, base codes and sets of ignored frames/codes, including bases that are ignored, absent, repeated (recursion) or the frame itself',
  'test_frame_stack checks three settings on one chain with the Python version; the C version is never built or run by the tests.',
  ['profiling/utils.py', 'profiling/speedup.c', 'profiling/profiler.py'],
  [('frame_stack', 'profiling/utils.py:frame_stack'), ('C frame_stack', 'profiling/speedup.c:frame_stack')],
  [], ['return value of frame_stack() in both implementations'])

p('C09', 'Statistics figures are consistent along the tree',
  '''For every statistics tree, recorded or frozen, the inclusive hits of a node are the sum of the own hits of the node and all its
  descendants, its exclusive time is its inclusive time minus that of its direct children but never below zero, and the per-call figures are
  the respective time divided by the own hits, or zero without hits.
  Adding, ensuring, excluding, removing and clearing children change exactly the addressed subtree, and ensuring an existing child returns
  it without losing anything recorded below it.''',
  ['inputs', 'histories'],
  'all statistics trees and all sequences of tree operations on them',
  'test_stats and test_recording evaluate a handful of single nodes.',
  ['profiling/stats.py', 'profiling/profiler.py'],
  [('derived properties', 'profiling/stats.py:Statistics'), ('spread_stats traversal', 'profiling/stats.py:spread_stats')],
  [], ['deep_hits', 'own_time', 'deep_time_per_call', 'own_time_per_call', 'children, len, in'])

p('C10', 'Pickling a result preserves the whole statistics tree',
  '''Pickling any statistics tree and loading it again, with every pickle protocol, gives a tree of the same shape and order of children whose nodes carry
  the same name, file, line, module, own hits and inclusive time, and with it the same derived figures; it does not depend on the process or code objects that recorded it.
  This holds for recording, absent-frame and already frozen nodes and at any depth, and loading does not alter the original.''',
  ['inputs'],
  'all statistics trees (any branching, depth beyond the recursion limit), all pickle protocols, repeated round trips',
  'test_pickle round-trips a single node; test_frozen, which covers a node with a child, fails on current Pythons and is not part of the stable suite.',
  ['profiling/stats.py'],
  [('__reduce__ freezes', 'profiling/stats.py:Statistics.__reduce__'),
   ('breadth-first member list and its inverse', 'profiling/stats.py:make_frozen_stats_tree, frozen_stats_from_tree')],
  [], ['tree before pickling versus tree after loading'])

p('C11', 'The flat layout conserves hits and exclusive time',
  '''Flattening a statistics tree yields one row per distinct function (name, file, line and module) occurring below the root, whose own hits, inclusive hits,
  exclusive time and inclusive time are the sums over all occurrences of that function; the root figures are those of the original root.
  So the total of own hits and of exclusive time is the same in the nested and in the flat layout.''',
  ['inputs'],
  'all statistics trees, with functions occurring repeatedly on one path, on several paths, and functions that differ in one of the identifying attributes only',
  'test_flatten adds up own hits of one five-node tree.',
  ['profiling/stats.py'],
  [('FlatFrozenStatistics.flatten', 'profiling/stats.py:FlatFrozenStatistics.flatten')], [],
  ['flattened children versus the nested tree'])

p('C12', 'Every sort order of statistics is total and goes the documented way',
  '''Sorting the children of any statistics by any of the offered keys succeeds and orders them by the documented figure: names and modules ascending, every
  hits and time figure descending.
  Statistics without a name or module are sorted like the others instead of failing, and the inverted key gives the reverse order.''',
  ['inputs'],
  'all sets of sibling statistics, including missing names/modules, zero hits, equal figures; all keys and inverted keys',
  'test_sorting (not in the stable suite on current Pythons) sorts three named siblings by five keys.',
  ['profiling/sortkeys.py', 'profiling/stats.py'],
  [('sort keys', 'profiling/sortkeys.py'), ('Statistics.sorted', 'profiling/stats.py:Statistics.sorted')], [],
  ['order of Statistics.sorted(key)'])

p('C13', 'Contextual timers count only the time a context runs',
  '''A contextual timer's reading for a context advances with the clock while that context is resumed and stands still while it is paused, never runs backwards across
  pause and resume, and is not affected by other contexts.
  With the greenlet timer each greenlet of the thread that started the session is such a context during it: between two readings in a greenlet exactly the time in which that greenlet was
  the running one passes, in every session started with the timer, whichever greenlet starts it and whatever happened in earlier sessions.''',
  ['schedules', 'histories'],
  'all sequences of pause/resume/read over any number of contexts, all greenlet switch schedules, repeated sessions',
  'One real-time test with two greenlets compares two durations.',
  ['profiling/tracing/timers.py'],
  [('per-context accumulated time', 'profiling/tracing/timers.py:ContextualTimer'), ('greenlet trace function', 'profiling/tracing/timers.py:GreenletTimer')],
  [('_contextual_times', 'paused/resumed stamps per context', 'profiling/tracing/timers.py:ContextualTimer')],
  ['timer() readings per context'])

p('C14', 'A result covers exactly its session and survives the dump file',
  '''A profiler's result holds only what was recorded since its latest start, together with the CPU and wall time from that start until the stop (or until now while running, zero before any start or after one that failed);
  after the stop, repeated calls give the same figures.
  A result dumped to a file, with any pickle protocol and also through a wrapping profiler, is loaded and shown with the profiler's kind of table, the same statistics tree and the same times.''',
  ['histories', 'inputs'],
  'all histories of start, work, stop, idle time, result, dump and view over every profiler kind and wrapper',
  'test_result and test_dump look at one profiler that recorded nothing and never reload into a viewer.',
  ['profiling/profiler.py', 'profiling/tracing/__init__.py', 'profiling/__main__.py', 'profiling/viewer.py'],
  [('result() and dump()', 'profiling/profiler.py:Profiler'), ('view command loads the dump', 'profiling/__main__.py:view'), ('ProfilerWrapper delegates', 'profiling/profiler.py:ProfilerWrapper')],
  [], ['result()', 'dump file contents', 'viewer made from the result or the file'])

p('C15', 'A receiver gets exactly the sent messages, whatever the fragmentation',
  '''Messages packed by the server and received by a client arrive complete, unchanged and in order for every way the byte stream is split or delayed in transit, on blocking and on non-blocking sockets.
  If the connection ends inside a message, the receiver gets a connection error for it, never a partial or misaligned message.''',
  ['inputs', 'schedules', 'fault_sequences'],
  'all message sequences (any size, method, protocol), all fragmentations and delays, connection end at any byte',
  'No test covers the remote protocol.',
  ['profiling/remote/__init__.py', 'profiling/remote/client.py'],
  [('pack_msg/recv_msg framing', 'profiling/remote/__init__.py')], [],
  ['messages returned by recv_msg', 'errors raised by it'])

p('C16', 'Each client sees a well-formed stream: welcome, profiler, results',
  '''The bytes a profiling server sends to a client always form, up to the end of the connection, a sequence of whole messages: first the welcome with protocol and version, then
  the kind of profiler (the innermost one, not its wrappers), then results only.
  Once a send to a client has failed or broken off, nothing more is sent to that client and it is disconnected.''',
  ['schedules', 'fault_sequences'],
  'all orders of connects, disconnects and profiling cycles, all result sizes, send failures of any kind (closed, reset, would block) at any point, all server implementations',
  'No test covers the servers.',
  ['profiling/remote/__init__.py', 'profiling/remote/select.py', 'profiling/remote/gevent.py', 'profiling/remote/asyncio.py'],
  [('connected() greets, profiling() broadcasts', 'profiling/remote/__init__.py:ProfilingServer')], [('clients', 'connected clients', 'profiling/remote/__init__.py')],
  ['bytes received by each client'])

p('C17', 'Every result is broadcast to every connected client',
  '''Every result a profiling server produces is sent to all clients that are connected at that time, once and in the order of production; a client that connects later first gets the latest result there is (while it is still being given that, later results may be replaced by the latest).
  A client that leaves or fails, even during a broadcast, is dropped and does not keep any other client from getting any result.''',
  ['schedules', 'fault_sequences'],
  'all orders of connects, disconnects, failures and profiling cycles with any number of clients, including changes of the client set during a broadcast',
  'No test covers the servers.',
  ['profiling/remote/__init__.py', 'profiling/remote/select.py', 'profiling/remote/gevent.py'],
  [('broadcast loop', 'profiling/remote/__init__.py:ProfilingServer.profiling'), ('latest result for late clients', 'profiling/remote/__init__.py:ProfilingServer.connected')],
  [('_latest_result_data', 'last broadcast message', 'profiling/remote/__init__.py')], ['results received by each client'])

p('C18', 'The server profiles exactly while somebody watches',
  '''A profiling server leaves the program unprofiled as long as no client is connected, profiles as soon as one is, and stops at the end of the cycle in which the last client left (a cycle lasts an interval, or less where a client comes or goes meanwhile).
  At any time at most one profiling cycle is in progress: each result stems from one start and one stop, also when the last client leaves and another connects within the same cycle. A cycle in which the profiler cannot be started gives no result and ends nothing.''',
  ['schedules'],
  'all orders of connects, disconnects and cycle ends, including both in one dispatch, for all server implementations',
  'No test covers the servers; the overlap needs a particular interleaving.',
  ['profiling/remote/__init__.py', 'profiling/remote/select.py', 'profiling/remote/gevent.py', 'profiling/remote/asyncio.py'],
  [('profiling() loop while there are clients', 'profiling/remote/__init__.py:ProfilingServer.profiling'), ('first client starts it', 'profiling/remote/__init__.py:ProfilingServer.connected')],
  [], ['profiler start/stop calls', 'profiler.is_running()', 'results per start'])

p('C19', 'No client can bring the profiling server down',
  '''Whatever its clients do and whenever their connections break - before or during the greeting, while waiting, sending something, resetting, several at once - the server goes on accepting and serving clients and
  keeps no client that is gone: each is dropped once and its connection closed.''',
  ['schedules', 'fault_sequences'],
  'all schedules of client actions and connection failures relative to the server steps, all socket error kinds',
  'No test covers the servers.',
  ['profiling/remote/__init__.py', 'profiling/remote/select.py', 'profiling/remote/gevent.py', 'profiling/remote/asyncio.py'],
  [('dispatch_sockets', 'profiling/remote/select.py'), ('connected/disconnected', 'profiling/remote/__init__.py')],
  [], ['server keeps dispatching', 'clients set', 'service of a fresh client afterwards'])

p('C20', 'The client shows live results and reconnects until it succeeds',
  '''A profiling client activates its viewer on the server's welcome, selects the table of the announced profiler, shows each result it receives, and inactivates the viewer when the connection is lost, keeping the last result.
  The fail-over client then keeps trying to connect until a server is there, immediately after a lost connection and after a delay when the server refuses or its socket file is missing; it never gives up nor crashes, and it watches and holds at most one socket at a time.''',
  ['histories', 'fault_sequences'],
  'all histories of server availability, connection loss at any point, messages and timers, for TCP and Unix sockets',
  'No test covers the clients.',
  ['profiling/remote/client.py'],
  [('protocol handlers', 'profiling/remote/client.py'), ('connect/disconnect/erred', 'profiling/remote/client.py:FailoverProfilingClient')],
  [('sock', 'current connection', 'profiling/remote/client.py')], ['viewer state', 'event loop watches and alarms', 'open sockets'])

p('C21', 'Background start and stop take effect in the main thread before they return',
  '''Starting (stopping) a profiler through the background wrapper makes the main thread start (stop) the wrapped profiler, and returns only after it has done so; wrapper and wrapped profiler always agree on whether they run.
  If the wrapped profiler cannot start or stop, the caller gets the error, the main program is not disturbed, and the wrapper remains usable.''',
  ['schedules', 'fault_sequences'],
  'all interleavings of the requesting thread with the main thread, repeated sessions, failing inner profilers, any signal number',
  'No test covers the background profiler.',
  ['profiling/remote/background.py', 'profiling/profiler.py'],
  [('signal + event handshake', 'profiling/remote/background.py:BackgroundProfiler')], [('event', 'set when the handler has run', 'profiling/remote/background.py')],
  ['thread that runs the inner start/stop', 'state when start()/stop() return', 'exceptions in both threads'])

p('C22', 'The viewer shows the latest result, or the one at which it was paused',
  '''While not paused the viewer shows the latest result it was given; while paused it shows the result that was the latest when it was paused, however many arrive meanwhile, and resuming shows the latest one.
  This holds for statistics, times and title alike, and the header always tells whether the viewer is paused or inactive.
  Changing the kind of profiler switches the table once and is otherwise without effect on the shown result.''',
  ['histories'],
  'all sequences of results, pause, resume, activation, connection loss and profiler-kind messages',
  'The viewer tests only format numbers.',
  ['profiling/viewer.py'],
  [('set_result/pause/resume/update_result', 'profiling/viewer.py:StatisticsViewer')],
  [('_final_result', 'latest result', 'profiling/viewer.py'), ('_paused_result', 'result frozen by pause', 'profiling/viewer.py')],
  ['rendered table and header'])

p('C23', 'Navigation state survives new results, sorting and paging through layouts',
  '''When the shown table is refreshed by a new result, another sort order or layout, the focus stays on the same call path as far as it still exists (otherwise on its nearest existing ancestor), and functions the user expanded stay expanded, those collapsed stay collapsed.
  Expanding, folding, defocusing and going to the hotspot change focus and expansion as their keys say; the hotspot is reached by following the first row at each level.''',
  ['histories'],
  'all sequences of key presses and new results over all result trees',
  'No test presses a key or refreshes a table.',
  ['profiling/viewer.py'],
  [('get_path/find_node', 'profiling/viewer.py:StatisticsTable'), ('expanded statistics by hash', 'profiling/viewer.py:StatisticsTable'), ('keypress', 'profiling/viewer.py:StatisticsTable.keypress')],
  [('_expanded_stat_hashes', 'expanded functions', 'profiling/viewer.py')], ['rendered rows', 'focused row'])

p('C24', 'The table lists the shown result completely in the chosen order and layout',
  '''In the nested layout the rows below an expanded node (or the root) are all its children, in the flat layout all distinct functions once, in both cases ordered by the current sort column; each row shows the figures of its own statistics.
  The keys for changing the sort column step cyclically through the sortable columns in both directions, and the layout key toggles; the header marks the current column.''',
  ['histories', 'inputs'],
  'all results, all key sequences, both profiler kinds',
  'No test renders a table.',
  ['profiling/viewer.py', 'profiling/tracing/__init__.py', 'profiling/sampling/__init__.py'],
  [('load_child_keys sorts', 'profiling/viewer.py:StatisticsNode'), ('refresh/shift_order/set_layout', 'profiling/viewer.py:StatisticsTable'), ('make_cells', 'profiling/tracing/__init__.py, profiling/sampling/__init__.py')],
  [('order', 'current sort key', 'profiling/viewer.py'), ('layout', 'NESTED or FLAT', 'profiling/viewer.py')], ['rendered rows and header'])

p('C25', 'One-shot profiling runs the program as a script and always delivers the result',
  '''The profile command runs a script, module or command string once, as __main__ with the given arguments and with output and effects as if run by Python, and then delivers its profile to the dump file or viewer, however the program ended (normally, by exit or by an exception, whose traceback is shown).
  The result contains the program's calls and none of the profiler's own frames, and profiling is off afterwards; the timeit command does the same for a statement executed the given number of times after its set-up.''',
  ['programs', 'configurations'],
  'all program endings, kinds of source, arguments, profilers, timers, samplers, dump protocols',
  'test_cli covers option parsing and help texts only; no program is run.',
  ['profiling/__main__.py', 'profiling/profiler.py'],
  [('__profile__', 'profiling/__main__.py:__profile__'), ('Script/Module/Command types', 'profiling/__main__.py')], [],
  ['what the program observes', 'dump file', 'hooks afterwards'])

p('C26', 'Options override configuration files, which override defaults',
  '''The profiler kind, timer, sampler, sampling interval, pickle protocol, update interval, spawn mode, signal and endpoint used by a command are those given on the command line, else those of the .profiling file, else those of setup.cfg, else the documented defaults, each setting independently of the others.
  A value that is not valid is rejected with a usage error and nothing is profiled.''',
  ['configurations', 'inputs'],
  'all combinations of command line options and the two configuration files, valid and invalid values',
  'test_config tries three combinations of two files and no command line option.',
  ['profiling/__main__.py'],
  [('config_default/config_flag/read_config', 'profiling/__main__.py'), ('profiler_options', 'profiling/__main__.py')], [],
  ['the profiler and parameters a command constructs'])

p('C27', 'Live and remote profiling leave the program alone and report while it runs',
  '''Under the remote-profile and live-profile commands the program runs to its own end with its own arguments and effects while clients come and go, is profiled only while one is connected, and every connected client receives welcome, profiler kind and results that show the program's functions.
  Live profiling passes the program's error output and exit status on when the viewer is closed.''',
  ['schedules', 'programs'],
  'all orders of client connects and disconnects relative to the program, program endings, spawn modes',
  'No test runs these commands beyond --help.',
  ['profiling/__main__.py', 'profiling/remote/select.py', 'profiling/remote/background.py'],
  [('live_profile/remote_profile', 'profiling/__main__.py'), ('spawn', 'profiling/__main__.py:spawn')], [],
  ['client streams', 'program output and exit status'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
