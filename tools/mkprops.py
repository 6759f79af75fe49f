"""Regenerates /verif/properties.jsonl (the property texts live here so they can be edited readably)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=' '.join(statement.split()),
             quantifier=dict(over=over, text=' '.join(qtext.split())),
             why_tests_cant=' '.join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = hook
    assert len(title) <= 80, title
    P.append(d)

PAR = ['slash/parallel/server.py', 'slash/parallel/worker.py', 'slash/parallel/parallel_manager.py']
# ------------------------------------------------------------------ parallel
prop('P01', 'Parallel: every collected test is executed and accounted exactly once',
     """In a parallel run whose workers all stay alive, every collected test is started on at most one worker and never twice,
        and the parent's final results hold exactly one entry per collected test. Every test is run unless the run was stopped early (it is then
        reported as not run) or no worker may run it (the run then fails with a timeout); a test that ran anywhere is never reported as not run.""",
     ['schedules', 'configurations', 'fault_sequences'],
     """every worker count, suite, order in which requests of different workers reach the parent, message delay, and worker stall shorter than the
        configured timeouts""",
     """tests run a handful of suites with 1-3 real workers under whatever timing the machine gives; the interleavings of requests from several
        workers are not chosen and mostly never occur""",
     PAR + ['slash/parallel/tests_distributer.py', 'slash/runner.py'],
     [('request handlers keep the per-worker executing test and the finished list', 'slash/parallel/server.py'),
      ('unstarted-test list', 'slash/parallel/tests_distributer.py')],
     observe=['test bodies executing in workers', 'session results of the parent'],
     state=[('executing/finished tests', 'which test each worker runs, which indices are accounted', 'slash/parallel/server.py:Server')])
prop('P02', "Parallel: a worker's test result reaches the parent undistorted",
     """The result the parent holds for a test run by a live worker has the same outcome as the worker observed: the same errors and failures
        (messages and kinds), skips, details, and interrupted state, attached to the same test. In particular a test that had an
        error or failure in its worker is never reported successful by the parent, whatever objects the exception, skip reason or details carry.""",
     ['inputs', 'schedules', 'fault_sequences'],
     'every outcome kind, combination of outcomes in a test, exception class and payload (picklable or not), and message schedule',
     'tests cover plain failures, errors and skips and one unpicklable case; payloads and combinations are unbounded',
     ['slash/core/result.py', 'slash/core/error.py'] + PAR[:2],
     [('per-attribute result serialization', 'slash/core/result.py'), ('result reporting to parent', 'slash/parallel/worker.py'),
      ('result intake', 'slash/parallel/server.py')],
     observe=['worker-side result at the end of the test', 'parent-side results and exit code'])
prop('P03', 'Parallel: no test starts before all workers joined with the same collection',
     """No worker starts a test before every configured worker has connected and has been confirmed to have collected the same tests as the parent.
        If any worker collected something different, no test is run twice or misattributed, that worker runs nothing, and the session does not report success.""",
     ['schedules', 'fault_sequences', 'configurations'],
     'every connection order, delay, retransmission of a handshake request, and difference between worker collections',
     'tests check one mismatch and the normal order only; a retransmitted handshake request or a late worker never happens in them',
     PAR[:2], [('handshake states', 'slash/parallel/server.py'), ('worker handshake', 'slash/parallel/worker.py')],
     observe=['first test start on any worker', 'exit code'])
prop('P04', 'Parallel: forced and excluded tests respect their placement',
     """A test forced to a worker only ever runs on that worker, and a test excluded from a worker never runs on it
        (a test given by number is the one at that position in the order of the run). Every test that some
        live worker may run is run in a run that is not stopped early, whatever order workers ask for work.""",
     ['schedules', 'configurations'], 'every assignment of forced/excluded tests to workers and every request order',
     'tests pin a few assignments; which worker asks first is decided by the machine',
     ['slash/parallel/tests_distributer.py', 'slash/parallel/worker_configuration.py', 'slash/parallel/server.py'],
     [('placement rules', 'slash/parallel/tests_distributer.py'), ('force/exclude API', 'slash/parallel/worker_configuration.py')],
     observe=['worker each test body ran on', 'parent results'])
prop('P05', 'Parallel: stop-on-error and fatal errors stop the hand-out of tests',
     """Once the parent has received a failing result under stop-on-error, or a result with a fatal error, it hands out no further test;
        tests already running elsewhere still complete and keep their results, and all others are reported as not run. Without stop-on-error a plain failure stops nothing.""",
     ['schedules', 'configurations'], 'every failure position, worker count and interleaving of results and requests',
     'tests use one fixed failing position and uncontrolled timing',
     ['slash/parallel/server.py', 'slash/runner.py'], [('stop decision on result intake', 'slash/parallel/server.py')],
     observe=['tests started after the failing result was received', 'parent results'])
prop('P06', 'Parallel: a dead worker is noticed and its test is not lost',
     """If a worker dies at any point, the session still ends, does not report success unless that worker had already finished and left, and
        the test it was running is reported as interrupted or with the result it delivered, exactly once. The death of a connected worker is noticed within
        the communication timeout (give or take a few seconds). Results delivered before the death are kept, no test is
        executed twice, and the tests never started are reported as not run (or left without a result if the parent gives up with a timeout error).""",
     ['crash_points', 'schedules', 'fault_sequences'], 'every point at which one or more workers may die or freeze forever, including between two messages, and every schedule of the others',
     'tests kill a worker at two or three fixed points with real timeouts',
     PAR, [('liveness tracking', 'slash/parallel/parallel_manager.py'), ('failure accounting', 'slash/parallel/server.py'), ('keep-alive', 'slash/parallel/worker.py')],
     observe=['exit code', 'parent results', 'test bodies started'])
prop('P07', 'Parallel: every run ends, and healthy workers are never declared dead',
     """Every parallel run reaches its end: within a bound given by the configured timeouts after the last fault and the last test body, the parent has stopped its
        servers and returned an exit code, whatever delays, lost connections, failed worker starts, worker deaths and stalls occurred. In a run where no worker is
        disturbed for longer than the configured timeouts, no worker is declared dead and no timeout error is raised, however long tests take.""",
     ['schedules', 'fault_sequences', 'configurations'], 'every schedule, test duration, and fault sequence of the kinds listed, and every setting of the timeouts',
     'liveness under faults cannot be sampled with real 20-60 s timeouts; tests shorten them and try one fault each',
     PAR + ['slash/parallel/worker_configuration.py'], [('wait loops and timeouts', 'slash/parallel/parallel_manager.py'), ('worker process control', 'slash/parallel/worker_configuration.py')],
     observe=['virtual time of return', 'exit code', 'timeout reports'])
prop('P08', 'Parallel: interrupting the parent stops workers and leaves nothing behind',
     """If the parent is interrupted (Ctrl-C or SIGTERM) at any point of a parallel run at which a worker is alive, it terminates every worker it started, shuts down its servers, returns a non-zero
        exit code and reports the session interrupted; results received before the interruption are kept.""",
     ['crash_points', 'schedules'], 'every instant at which the interruption arrives in the parent and every state its workers are in',
     'tests interrupt once at a fixed state', PAR + ['slash/app.py'],
     [('interruption path', 'slash/parallel/parallel_manager.py'), ('worker termination', 'slash/parallel/worker_configuration.py')],
     observe=['worker processes alive after return', 'open listening sockets', 'exit code', 'results'])
prop('P09', 'Parallel: outcome equals that of a sequential run',
     """For a suite whose tests do not depend on one another, a parallel run in which nothing dies gives every test the same outcome (success, skip with its reasons, failures and errors
        with their messages) as a sequential run of the same suite, and the same exit code.""",
     ['schedules', 'programs', 'configurations'], 'every such suite, worker count and schedule',
     'tests compare a few suites by totals only', PAR + ['slash/runner.py', 'slash/core/result.py'],
     [('result transfer', 'slash/core/result.py'), ('distribution', 'slash/parallel/server.py')], observe=['results of both runs'])
prop('P10', 'Parallel: worker-level errors and warnings reach the parent',
     """An error that happens in a worker outside any single test, or in a cleanup or hook after the test's result was sent, makes the parent session report failure.
        Every warning emitted inside a worker whose content can be transferred appears exactly once among the parent's warnings, and one that cannot be transferred never harms the run.""",
     ['schedules', 'inputs', 'fault_sequences'], 'every place in a worker session an error or warning may arise, and every message schedule',
     'tests check a session-level error in one hook and a plain warning', PAR[:2] + ['slash/warnings.py', 'slash/core/result.py'],
     [('session error report', 'slash/parallel/worker.py'), ('warning report', 'slash/parallel/worker.py')], observe=['exit code', 'parent warnings'])
# ------------------------------------------------------------------ session semantics
prop('S11', 'Cleanups run exactly once, in reverse order, at the end of their scope',
     """Every cleanup registered in a run that is not interrupted is called exactly once (success-only ones: at most once), in reverse order of registration within its scope,
        after the code of the scope it belongs to has finished and before anything of the next scope starts. This holds whatever errors the test, fixtures, hooks or other cleanups raise, and for cleanups registered by cleanups.""",
     ['programs', 'fault_sequences', 'histories'], 'every arrangement of cleanups over test, module and session scopes and every sequence of errors raised at any point of user code',
     'tests raise one error at one place; combinations of raising cleanups, hooks and fixtures across scopes are unbounded',
     ['slash/core/cleanup_manager.py', 'slash/core/scope_manager.py', 'slash/cleanups.py', 'slash/runner.py'],
     [('scope stacks', 'slash/core/cleanup_manager.py'), ('scope push/pop', 'slash/core/scope_manager.py')], observe=['cleanup calls in order'])
prop('S12', 'Interruption runs critical cleanups only; success-only cleanups need success',
     """When a run is interrupted (Ctrl-C or termination) while user code of a test, fixture, cleanup or hook executes, every pending critical cleanup still runs exactly once and no non-critical cleanup
        starts after the interruption. A success-only cleanup registered for a test runs if and only if the code of the test ended without error, failure or interruption.""",
     ['crash_points', 'programs', 'fault_sequences'], 'every user-code point at which the interruption may land (also inside cleanups), combined with errors before it',
     'tests interrupt from a test body or one cleanup only', ['slash/core/cleanup_manager.py', 'slash/core/scope_manager.py', 'slash/runner.py', 'slash/app.py'],
     [('selection at scope end', 'slash/core/cleanup_manager.py')], observe=['cleanup calls'])
prop('S13', 'Fixtures: one set-up per scope, exactly one teardown, dependents first',
     """Within one activation of its scope a fixture that was set up is not set up again while its parameters stay the same, and never torn down while a test or another live fixture still uses it. Without
        interruption, everything a fixture registered for teardown is called exactly once, at the end of its scope or when its parameters change, dependents before their dependencies,
        whatever set-ups and teardowns fail.""",
     ['programs', 'fault_sequences', 'histories'], 'every fixture graph, scope and parametrization, and every sequence of failures in set-up, test or teardown code',
     'tests have fixed graphs with at most one failing fixture', ['slash/core/fixtures/fixture_store.py', 'slash/core/fixtures/active_fixture.py', 'slash/core/fixtures/fixture.py', 'slash/core/scope_manager.py'],
     [('active-fixture table per scope', 'slash/core/fixtures/fixture_store.py'), ('teardown stack', 'slash/core/fixtures/active_fixture.py')], observe=['set-up and teardown calls in order'])
prop('S14', "Fixtures: a test sees exactly its variation's values",
     """Every value a test receives, directly or through fixtures, is the one its variation declares; two fixtures of the same test that share a dependency see the same instance,
        and no test receives a value from a fixture instance whose set-up failed or that was torn down. This still holds after any earlier test, fixture or teardown failed or was skipped.""",
     ['programs', 'fault_sequences', 'histories'], 'every fixture graph, parametrization and failure history',
     'tests do not combine parametrized wide-scope fixtures with failures in earlier variations', ['slash/core/fixtures/fixture_store.py', 'slash/core/variation.py', 'slash/core/variation_factory.py', 'slash/core/fixtures/parameters.py'],
     [('validity of cached values', 'slash/core/fixtures/fixture_store.py')], observe=['arguments received by tests and fixtures'])
prop('S15', 'Lifecycle notifications are paired, ordered and match the outcome',
     """Subscribers see each session start that completes followed by exactly one session end, and each started test announced once and ended once, in between, with test and session accessible; a test that is skipped beforehand is announced only as avoided.
        Between the start and end of a test that is not interrupted exactly one outcome notification is sent (success, failure, error or skip) and it agrees with what had been recorded by then. An interruption of a test is announced exactly once for it and for the session, and never without one. Failing subscribers change none of this.""",
     ['programs', 'fault_sequences', 'schedules'], 'every outcome combination and every sequence of errors raised by tests, fixtures, cleanups and subscribers themselves',
     'tests subscribe to hooks in well-behaved runs; failing subscribers in combination with failing tests are not covered',
     ['slash/runner.py', 'slash/core/session.py', 'slash/hooks.py'], [('start/end pairing', 'slash/runner.py'), ('session hooks', 'slash/core/session.py')], observe=['subscriber calls'])
prop('S16', 'No error is lost, duplicated or charged to the wrong test',
     """Every error, failure or skip raised or reported during a run is recorded exactly once: with the test that was running (for a cleanup, the test that registered it), or with the session when no test was; and nothing
        else is recorded. Exceptions count as failures if and only if they are assertion or explicit-failure exceptions, and each test's reported outcome follows from what was recorded.""",
     ['programs', 'fault_sequences'], 'every sequence of exceptions of every kind raised at any user-code points of a run, including several in one test',
     'tests look at one error at a time; multiple errors in one test across phases are combinatorial', ['slash/exception_handling.py', 'slash/core/result.py', 'slash/core/error.py', 'slash/core/cleanup_manager.py', 'slash/runner.py'],
     [('once-only handling marks', 'slash/exception_handling.py'), ('result recording', 'slash/core/result.py')], observe=['errors, failures and skips in all results'])
prop('S17', 'Exit status is zero exactly when everything that had to succeed did',
     """The run returns exit status zero if and only if tests were collected, every one of them ran and succeeded or was skipped, no session-level error occurred and nothing interrupted the run. Any error
        at any stage, including configuration, collection, session start, cleanup and session end, gives a non-zero status.""",
     ['fault_sequences', 'programs', 'crash_points'], 'every error, interruption or exit request at any user-code point from configuration to session end',
     'tests check the status for a few single faults', ['slash/app.py', 'slash/frontend/slash_run.py', 'slash/core/result.py', 'slash/core/session.py'],
     [('exit-code decision', 'slash/frontend/slash_run.py'), ('error exit', 'slash/app.py')], observe=['exit status'])
prop('S18', 'Every collected test is accounted for, in order, and stopping really stops',
     """At the end of a run every collected test has exactly one result, with a distinct identifier; the tests that ran form a prefix of the collection order, the others are marked not run, and the totals per
        category agree with the individual results. After a fatal error, or after an unsuccessful test under stop-on-error, or an interruption, no further test starts; otherwise none is left out.""",
     ['programs', 'fault_sequences', 'configurations'], 'every suite, every outcome sequence and stop setting',
     'tests use one failing test at a fixed position', ['slash/runner.py', 'slash/core/result.py', 'slash/utils/iteration.py'],
     [('run loop', 'slash/runner.py'), ('unrun marking', 'slash/runner.py')], observe=['results', 'started tests'])
prop('S19', 'An interruption at any instant ends the run cleanly',
     """If the user interrupts the run at any instant of a session, including while the framework itself is working between user code, no further test starts, the exit status is non-zero, the results recorded for tests that had already ended
        stay as they were, and the interrupted test is never reported successful. Session-end processing still happens exactly once if the session had started, and the process-wide state the run had changed is restored.""",
     ['crash_points', 'schedules'], 'every instant between entering and leaving the session at which the interruption can be delivered',
     'tests deliver interruptions from test bodies and a few hooks; the framework code in between is never hit', ['slash/app.py', 'slash/core/session.py', 'slash/runner.py', 'slash/frontend/slash_run.py'],
     [('interruption paths', 'slash/core/session.py')], observe=['started tests', 'exit status', 'results', 'restored state'])
prop('S20', 'A finished run leaves no trace in the process',
     """However a run ends (success, errors at any stage, interruption, disk errors while logging), after it the current session and test are unset, configuration changed by the command line is back to its previous values, the signal handlers, warning hook, log handler stacks and
        open log files are as before, and a following run in the same process behaves like a first one.""",
     ['fault_sequences', 'histories'], 'every fault at every stage of one run, and sequences of runs in one process',
     'tests rely on each test starting with a clean process state and do not combine failing runs', ['slash/app.py', 'slash/core/session.py', 'slash/ctx.py', 'slash/log.py', 'slash/utils/warning_capture.py', 'slash/utils/cli_utils.py'],
     [('exit stacks', 'slash/app.py'), ('activation/deactivation', 'slash/core/session.py')], observe=['process state before and after'])
prop('S21', 'Registered signal handlers act while active and originals always return',
     """While the signal-handling plugin is active every registered handler, and only the latest one per signal, receives its signal; once it is deactivated every signal has the handler it had before activation,
        for any sequence of registrations, activations (also failing ones), deactivations and deliveries in the main thread. The skip-test signal skips exactly the running test; delivered when no test is running, it changes nothing.""",
     ['histories', 'crash_points'], 'every history of registrations, activations, deactivations and signal deliveries at any user-code point',
     'tests use one activation and one registration', ['slash/plugins/builtin/signal_handling.py'], [('original-handler table', 'slash/plugins/builtin/signal_handling.py')], observe=['handlers invoked', 'installed handlers'])
# ------------------------------------------------------------------ resume
prop('R22', 'Resume picks exactly what did not succeed; rerun what it should',
     """Resuming a recorded session runs exactly its tests that failed, had an error, were interrupted, were skipped, or were planned and not run, each as often as that happened, in their original order, and never one recorded as successful;
        the options for failed, unstarted or skipped tests only narrow or reorder this selection as documented. Re-running a session runs all its tests in their original order, the successful and the unfinished ones included. Selection depends only on
        the outcomes of that session, also over chains of resumed and re-run sessions.""",
     ['histories', 'fault_sequences', 'programs'], 'every outcome assignment, early stop or interruption, and every chain of sessions, resumes and reruns',
     'tests resume one session once with a few outcomes', ['slash/resuming.py', 'slash/frontend/slash_run.py'], [('recorded outcomes', 'slash/resuming.py'), ('selection query', 'slash/resuming.py')], observe=['tests run by the resumed session'])
prop('R23', 'The record of a session is atomic and survives crashes and database errors',
     """A session's resume record is written all or nothing: after a crash at any database step, later commands see either the complete record or none of it, and records of earlier sessions are unchanged.
        A transient database error while recording is retried and the full record is stored exactly once; a lasting one may be reported by the exit status, but changes no result of any test and no stored record.""",
     ['crash_points', 'fault_sequences'], 'every statement at which the process may die or the database may report an error, once or repeatedly',
     'tests mock a single failing call', ['slash/resuming.py'], [('transaction and retry', 'slash/resuming.py')], observe=['database content after restart', 'resume selection'])
prop('R24', 'Retention keeps recent records; resume-last picks the latest session here',
     """Cleaning old records removes exactly the sessions older than the retention period with all their tests, and nothing else. Resuming without naming a session picks the most recently recorded session of the same folder, whatever sessions of other folders or concurrent
        processes were recorded in between (of sessions recorded concurrently, either may count as the latest; the clock is assumed not to run backwards).""",
     ['histories', 'schedules'], 'every history of sessions in several folders recorded at any times, with clock advances, and interleaved by other processes',
     'tests patch the date once with a single folder', ['slash/resuming.py'], [('retention', 'slash/resuming.py'), ('latest session query', 'slash/resuming.py')], observe=['database content', 'chosen session'])
# ------------------------------------------------------------------ logs & reports
prop('L25', 'Log records land in the right file and every log file is closed once',
     """Every record logged while a test runs is in that test's log file (and no other test's), every record logged outside tests is in the session log, in order and without loss or duplication; at the end every log file opened by the session is closed and announced closed exactly once.
        Links to the last, last-failed and last-session logs point to the right files. With log cleanup off all log files stay; with it on exactly the chosen ones are removed, those of failed tests and sessions only if configured. Failing to create a link or to remove an old file never affects test outcomes.""",
     ['programs', 'fault_sequences', 'histories'], 'every sequence of test outcomes, log settings and disk errors on links and removals', 'tests check a fixed suite without disk faults',
     ['slash/log.py'], [('per-test log context', 'slash/log.py'), ('link maintenance', 'slash/log.py')], observe=['content of log files', 'log-closed notifications', 'links'])
prop('L26', 'Neither a failing console nor what is shown on it changes the outcome of a run',
     """If the console stream raises I/O errors on any write from any point on (closed pipe, full device), the same tests run in the same order with the same recorded results, cleanups and exit status as with a working console. The same holds for any console verbosity, traceback detail,
        colours and other display options, and whatever the messages, skip reasons, details and exceptions shown contain, even if they cannot be represented (skip reasons excepted).""",
     ['fault_sequences', 'crash_points', 'inputs'], 'every write operation at which the console starts or temporarily fails, for every combination of display options and objects shown', 'tests have one always-failing stream case',
     ['slash/reporting/console_reporter.py', 'slash/log.py', 'slash/core/error.py'], [('swallowed terminal errors', 'slash/reporting/console_reporter.py')], observe=['results', 'exit status', 'order of execution'])
prop('L27', 'The xUnit report is complete, well-formed and agrees with the results',
     """After a session with the xUnit report enabled, the report file is well-formed XML with exactly one entry per started test, whose errors, failures and skips and the totals agree with the session results (and the errors the session itself got before it ended), whatever text messages, skip reasons, details and addresses contain
        and however the session ended. An error while writing it makes the exit status non-zero and otherwise ends the run normally with
        unchanged test results; without one, results, course of the run and exit status are those of the same run without the report.""",
     ['inputs', 'fault_sequences', 'programs'], 'every outcome combination, text content, and I/O error while writing', 'tests use fixed printable messages and a working disk',
     ['slash/plugins/builtin/xunit.py'], [('report generation at session end', 'slash/plugins/builtin/xunit.py')], observe=['report file', 'exit status'])
prop('G28', 'Plugins receive hooks exactly while active, for any activation history',
     """After any sequence of install, activate, deactivate and uninstall operations, including operations that fail midway, each active plugin receives every notification exactly once (session_end only if it was active when the session started) and an inactive one receives none; its
        successful activation and its deactivation callbacks alternate. A failed activation leaves the plugin inactive and receiving nothing; installing a plugin in place of an active one of the same name deactivates the old one.""",
     ['histories', 'fault_sequences'], 'every history of plugin operations with failures at any callback', 'tests perform one or two operations',
     ['slash/plugins/plugin_manager.py', 'slash/plugins/interface.py'], [('hook registration tokens', 'slash/plugins/plugin_manager.py')], observe=['notifications received'])
prop('W29', 'Every warning is recorded once, unless filtered',
     """Each warning emitted during a session by the warnings module or logged at warning level is recorded exactly once in the session's warnings with its origin, announced once to subscribers, and none matching an ignore rule
        active at that time is recorded; the ignore rules and the warning machinery are restored when their context ends, even by an exception.""",
     ['programs', 'histories', 'fault_sequences'], 'every sequence of warnings, nested ignore contexts and exceptions leaving them', 'tests emit one or two warnings in straight-line code',
     ['slash/warnings.py', 'slash/utils/warning_capture.py', 'slash/log.py'], [('capture callback', 'slash/warnings.py')], observe=['session warnings', 'subscriber calls'])
prop('N30', 'Each notification channel is attempted once per qualifying event',
     """Each enabled and configured notification channel (HTTP services, e-mail, Slack) is attempted exactly once for each session end which qualifies (duration at least the threshold; not successful if only failures are to be notified) and for each entry of the debugger if configured so
        (not for errors of the notifications themselves), whatever network errors other channels hit; others are not attempted. Messages state the true result and include what subscribers of prepare_notification added. A failing channel is reported as a session error; test results and the
        remaining end-of-session processing are those of the same run without notifications.""",
     ['fault_sequences', 'programs'], 'every combination of channel configurations, network errors at every step of every channel, session durations and outcomes', 'tests only format one message; no delivery at all is tested',
     ['slash/plugins/builtin/notifications.py'], [('per-channel containment', 'slash/plugins/builtin/notifications.py')], observe=['HTTP requests and mails issued', 'results', 'exit status'])
prop('D31', 'The debugger is entered once per qualifying exception, changing no outcome',
     """With debugging on, the debugger is entered exactly once for each exception of user code handled by the framework which qualifies (skips only if configured, never interruptions, only those matching the filters if any), with its traceback and preceded by one entering_debugger notification; and not for
        others. The tests run, their results, the order of execution and the exit status are those without debugging. If the debugger or one of the hooks around it fails, what was being debugged is recorded all the same and the exit status is non-zero.""",
     ['programs', 'fault_sequences'], 'every program raising exceptions anywhere, every debugging configuration, failures of the debugger and hooks', 'tests enter the debugger once from a test or a fixture',
     ['slash/utils/debug.py', 'slash/exception_handling.py', 'slash/app.py'], [('exception handlers', 'slash/exception_handling.py'), ('debugger entry', 'slash/utils/debug.py')], observe=['debugger entries', 'hooks', 'results', 'exit status'])
prop('T35', 'Notices about slow phases are printed exactly when the phase is slow',
     """The notice of a phase which may be slow (session initialization, handling of an interruption, any use of notify_if_slow_context within a session) is printed exactly once if the phase lasts longer than its threshold and not at all if it is shorter, its end message exactly when the notice was printed,
        and its helper thread never outlives the phase, however the phase ends (exception, skip, interruption, signal).""",
     ['schedules', 'fault_sequences'], 'every phase duration, threshold, way of leaving the phase and schedule of the helper thread', 'tests use real sleeps and a normal end only',
     ['slash/utils/interactive.py', 'slash/core/session.py', 'slash/core/result.py'], [('notice thread', 'slash/utils/interactive.py')], observe=['console messages', 'threads'])
# ------------------------------------------------------------------ not simulation targets
prop('F31', 'Test selection expressions select exactly the matching tests',
     """A filter expression selects exactly the tests whose address or tags satisfy it under the documented boolean semantics, in collection order.""",
     ['inputs'], 'every expression and set of tests', 'tests list a few expressions', ['slash/utils/pattern_matching.py', 'slash/core/tagging.py'], [('matcher', 'slash/utils/pattern_matching.py')])
prop('F32', 'Suite files expand to the listed tests in order',
     """A suite file expands to exactly the test paths it lists, in order, with includes, comments, filters and repetition applied as documented.""",
     ['inputs'], 'every suite file content', 'tests list a few files', ['slash/utils/suite_files.py'], [('parser', 'slash/utils/suite_files.py')])
prop('F33', 'Parametrization expands to the full, duplicate-free product of values',
     """The variations of a test are exactly the product of the values of all parameters it depends on, each once, minus excluded combinations, with stable distinct addresses.""",
     ['inputs', 'programs'], 'every parametrization', 'tests list a few graphs', ['slash/core/variation_factory.py', 'slash/core/exclusions.py'], [('product iteration', 'slash/core/variation_factory.py')])
prop('F34', 'Command line and configuration options reach the configuration unchanged',
     """Each option given on the command line sets exactly its configuration value, with the documented type, and unknown options are rejected.""",
     ['inputs'], 'every argument vector', 'tests try single options', ['slash/utils/cli_utils.py', 'slash/utils/conf_utils.py', 'slash/conf.py'], [('argument parser', 'slash/utils/cli_utils.py')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
