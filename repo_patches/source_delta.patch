From 727441b964b896ab82c432037b9260fca1175fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 01/61] fix: call the remaining cleanups of a scope when one of
 them is skipped, interrupted, or before_test_cleanups fails

---
 slash/core/cleanup_manager.py | 36 +++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/slash/core/cleanup_manager.py b/slash/core/cleanup_manager.py
index ce29f71..c197ab3 100644
--- a/slash/core/cleanup_manager.py
+++ b/slash/core/cleanup_manager.py
@@ -6,7 +6,7 @@ from sentinels import Sentinel
 from .. import hooks
 from ..ctx import context
 from ..exception_handling import handling_exceptions
-from ..exceptions import CannotAddCleanup, IncorrectScope, SlashInternalError
+from ..exceptions import CannotAddCleanup, IncorrectScope, INTERRUPTION_EXCEPTIONS, SlashInternalError
 
 _logger = logbook.Logger(__name__)
 
@@ -142,18 +142,20 @@ class CleanupManager(object):
             scope = self._scope_stack[-1]
             _logger.trace('Deducing last scope={0.name!r}', scope)
 
+        deferred = _DeferredExceptions()
+
         if scope.name == 'test': # pylint: disable=no-member
-            with handling_exceptions():
+            with deferred, handling_exceptions():
                 hooks.before_test_cleanups()  # pylint: disable=no-member
 
         stack = scope.cleanups # pylint: disable=no-member
         while stack:
             cleanup = stack.pop()
-            if in_interruption and not cleanup.critical:
+            if (in_interruption or deferred.is_interrupted()) and not cleanup.critical:
                 continue
             if (in_failure or in_interruption) and cleanup.success_only:
                 continue
-            with handling_exceptions(swallow=True):
+            with deferred, handling_exceptions(swallow=True):
                 _logger.trace("Calling cleanup: {0}", cleanup)
                 previous_scope = self._current_scope
                 self._current_scope = scope
@@ -162,6 +164,32 @@ class CleanupManager(object):
                 finally:
                     self._current_scope = previous_scope
 
+        deferred.reraise()
+
+
+class _DeferredExceptions(object):
+    """Keeps exceptions which are never swallowed (e.g. skips or interruptions) from preventing the remaining cleanups
+    of a scope. Interruptions are raised again once all cleanups are done - anything else had already been handled
+    """
+
+    def __init__(self):
+        super(_DeferredExceptions, self).__init__()
+        self._exceptions = []
+
+    def __enter__(self):
+        return self
+
+    def __exit__(self, exc_type, exc_value, exc_tb):
+        if exc_value is not None and not isinstance(exc_value, Exception):
+            self._exceptions.append(exc_value)
+        return True
+
+    def is_interrupted(self):
+        return any(isinstance(e, INTERRUPTION_EXCEPTIONS) for e in self._exceptions)
+
+    def reraise(self):
+        if self._exceptions:
+            raise self._exceptions[0]
 
 
 class _Cleanup(object):
-- 
2.43.0


From 531feda325cc719d097c73d089835018df798731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:44 +0000
Subject: [PATCH 02/61] fix: pop all remaining scopes when the cleanups of one
 of them are interrupted

---
 slash/utils/python.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/slash/utils/python.py b/slash/utils/python.py
index 8db6109..e1392de 100644
--- a/slash/utils/python.py
+++ b/slash/utils/python.py
@@ -103,8 +103,10 @@ def call_all_raise_first(_funcs, *args, **kwargs):
     for func in _funcs:
         try:
             func(*args, **kwargs)
-        except Exception:  # pylint: disable=broad-except
-            exc_info = sys.exc_info()
+        except BaseException:  # pylint: disable=broad-except
+            # errors must not hide interruptions
+            if exc_info is None or isinstance(exc_info[1], Exception):
+                exc_info = sys.exc_info()
     if exc_info is not None:
         reraise(*exc_info)
 
-- 
2.43.0


From 7a2cea7669f3574222c55c1ef65430bb27d95c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:27 +0000
Subject: [PATCH 03/61] fix: a skip raised by a fixture teardown does not
 prevent the remaining teardowns of the scope

---
 slash/core/scope_manager.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/slash/core/scope_manager.py b/slash/core/scope_manager.py
index 7f820ee..aac73c6 100644
--- a/slash/core/scope_manager.py
+++ b/slash/core/scope_manager.py
@@ -65,10 +65,19 @@ class ScopeManager(object):
         if popped != scope:
             raise SlashInternalError('Popped scope {}, expected {}'.format(popped, scope))
 
-        call_all_raise_first([self._session.cleanups.pop_scope, self._session.fixture_store.pop_scope],
+        call_all_raise_first([self._session.cleanups.pop_scope, self._pop_fixtures],
                              scope)
         _logger.trace('Popped scope {0}', popped)
 
+    def _pop_fixtures(self, scope):
+        while True:
+            try:
+                self._session.fixture_store.pop_scope(scope)
+            except self._session.get_skip_exception_types():
+                # already handled. The fixture whose teardown skipped is no longer active, but the remaining ones are
+                continue
+            break
+
     def flush_remaining_scopes(self):
         _logger.trace('Flushing remaining scopes: {}', self._scopes)
         call_all_raise_first([functools.partial(self._pop_scope, s)
-- 
2.43.0


From 492590b778901016468d24ec093eaa58dffe4cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:49 +0000
Subject: [PATCH 04/61] fix: an exception in after() does not make the run go
 on after an interruption

---
 slash/core/test.py          |  4 ++--
 slash/exception_handling.py | 13 +++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/slash/core/test.py b/slash/core/test.py
index d2bb14f..745ab5f 100644
--- a/slash/core/test.py
+++ b/slash/core/test.py
@@ -2,7 +2,7 @@ import functools
 import itertools
 from types import GeneratorType
 
-from ..exception_handling import handling_exceptions
+from ..exception_handling import handling_exceptions, preserving_interruptions
 from ..exceptions import SkipTest, InvalidTest
 from .fixtures.parameters import bound_parametrizations_context
 from .runnable_test import RunnableTest
@@ -127,7 +127,7 @@ class Test(RunnableTest):
                         raise InvalidTest('{} is a generator. Running generators is not supported'.format(method))
 
             finally:
-                with handling_exceptions():
+                with preserving_interruptions(), handling_exceptions():
                     _call_with_fixtures(self.after, trigger_test_end=True)
 
     def before(self):
diff --git a/slash/exception_handling.py b/slash/exception_handling.py
index f949eee..14fc4ed 100644
--- a/slash/exception_handling.py
+++ b/slash/exception_handling.py
@@ -99,6 +99,19 @@ def handling_exceptions(fake_traceback=True, **kwargs):
     return _HandlingException(fake_tbs, swallow_types, passthrough_types, kwargs)
 
 
+@contextmanager
+def preserving_interruptions():
+    """Makes sure exceptions (which are assumed to be already handled) do not replace an interruption currently being propagated
+    """
+    propagated = sys.exc_info()[1]
+    try:
+        yield
+    except Exception:  # pylint: disable=broad-except
+        if propagated is None or isinstance(propagated, Exception):
+            raise
+        _logger.debug('Exception raised while propagating {!r}', propagated, exc_info=True)
+
+
 class _HandledException(object):
     exception = None
 
-- 
2.43.0


From ae26d68efedebdc802450e4dbf0f9edfe603b7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 05/61] fix: a zero exit status is not possible when an exit
 request leaves the session unsuccessful

---
 slash/app.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/slash/app.py b/slash/app.py
index e885f55..f881220 100644
--- a/slash/app.py
+++ b/slash/app.py
@@ -145,6 +145,8 @@ class Application(object):
             _logger.error("Failed to debug_if_needed: {!r}", e, exc_info=True, extra={'capture': False})
         if exc_value is not None:
             self._exit_code = exc_value.code if isinstance(exc_value, SystemExit) else 1
+            if not self._exit_code and self._is_session_unsuccessful():
+                self._exit_code = 1
 
             if should_inhibit_unhandled_exception_traceback(exc_value):
                 self.get_reporter().report_error_message(str(exc_value))
@@ -164,6 +166,11 @@ class Application(object):
         trigger_hook.app_quit()  # pylint: disable=no-member
         return True
 
+    def _is_session_unsuccessful(self):
+        if self.session is None or not self.session.results.global_result.is_started():
+            return False
+        return not self.session.results.is_success(allow_skips=True)
+
     def _capture_native_warning(self, message, category, filename, lineno, file=None, line=None): # pylint: disable=unused-argument
         self._prelude_warning_records.append(RecordedWarning.from_native_warning(message, category, filename, lineno))
 
-- 
2.43.0


From 0cdf350bdacf30b8a137c6e20671e20840c57b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 06/61] fix: session_end is notified and the session end is
 reported even if session-global cleanups are interrupted

---
 slash/core/session.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/slash/core/session.py b/slash/core/session.py
index 37c1bf2..13c127c 100644
--- a/slash/core/session.py
+++ b/slash/core/session.py
@@ -1,3 +1,4 @@
+import functools
 import itertools
 import sys
 import socket
@@ -12,6 +13,7 @@ from ..interfaces import Activatable
 from ..reporting.null_reporter import NullReporter
 from ..utils.id_space import IDSpace
 from ..utils.interactive import notify_if_slow_context
+from ..utils.python import call_all_raise_first
 from ..warnings import SessionWarnings
 from .fixtures.fixture_store import FixtureStore
 from .result import SessionResults
@@ -133,15 +135,11 @@ class Session(Activatable):
             self._started = False
             self.end_time = time.time()
 
-            with handling_exceptions():
-                self.cleanups.pop_scope('session-global')
-
+            end_steps = [functools.partial(self.cleanups.pop_scope, 'session-global')]
             if session_start_called:
-                with handling_exceptions():
-                    hooks.session_end()  # pylint: disable=no-member
-                with handling_exceptions():
-                    hooks.after_session_end()  # pylint: disable=no-member
-            self.reporter.report_session_end(self)
+                end_steps.extend([hooks.session_end, hooks.after_session_end])  # pylint: disable=no-member
+            end_steps.append(functools.partial(self.reporter.report_session_end, self))
+            call_all_raise_first([functools.partial(_call_handling_exceptions, step) for step in end_steps])
 
     def initiate_cleanup(self):
         if not self.scope_manager.has_active_scopes():
@@ -168,3 +166,8 @@ class Session(Activatable):
 
     def increment_total_num_tests(self, increment):
         self._total_num_tests += increment
+
+
+def _call_handling_exceptions(func):
+    with handling_exceptions():
+        func()
-- 
2.43.0


From c1b7156f1e386135772fc4c6a36990cd2fff4e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 07/61] fix: announce a test having both an error and a skip
 with test_error

---
 slash/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/runner.py b/slash/runner.py
index fe26826..dc27780 100644
--- a/slash/runner.py
+++ b/slash/runner.py
@@ -191,7 +191,7 @@ def _fire_test_summary_hooks(test, result): # pylint: disable=unused-argument
     with handling_exceptions():
         if result.is_just_failure():
             hooks.test_failure()  # pylint: disable=no-member
-        elif result.is_skip():
+        elif result.is_skip() and not result.is_error():
             hooks.test_skip(reason=result.get_skips()[0]) # pylint: disable=no-member
         elif result.is_success():
             hooks.test_success()  # pylint: disable=no-member
-- 
2.43.0


From ff8d3f4180798e165bb8663ac30b36504469e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:50 +0000
Subject: [PATCH 08/61] fix: an interruption or an error in test_start is known
 to the test's result before its cleanups are called

---
 slash/runner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slash/runner.py b/slash/runner.py
index dc27780..cb1d310 100644
--- a/slash/runner.py
+++ b/slash/runner.py
@@ -108,7 +108,8 @@ def _run_single_test(test, test_iterator):
                         with handling_exceptions(swallow=True):
                             context.session.scope_manager.begin_test(test)
                             try:
-                                controller.start()
+                                with handling_exceptions():
+                                    controller.start()
                                 with handling_exceptions(swallow=True):
                                     test.run()
                             finally:
-- 
2.43.0


From b9166982cc5a4eb0c5cf470ec386a6d92d8977d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:04 +0000
Subject: [PATCH 09/61] fix: an exception in a test_end handler does not make
 the run go on after an interruption

---
 slash/runner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slash/runner.py b/slash/runner.py
index cb1d310..811a4e1 100644
--- a/slash/runner.py
+++ b/slash/runner.py
@@ -6,7 +6,7 @@ from . import hooks
 from . import log
 from .conf import config
 from .ctx import context
-from .exception_handling import handling_exceptions
+from .exception_handling import handling_exceptions, preserving_interruptions
 from .exceptions import NoActiveSession, SlashInternalError
 from .core.function_test import FunctionTest
 from .core.metadata import ensure_test_metadata
@@ -185,7 +185,8 @@ class TestStartEndController(object):
 
 
     def __exit__(self, *args):
-        self.end()
+        with preserving_interruptions(), handling_exceptions():
+            self.end()
 
 
 def _fire_test_summary_hooks(test, result): # pylint: disable=unused-argument
-- 
2.43.0


From fee57a38d6543a77fa32a75f3464a924e440ed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:12 +0000
Subject: [PATCH 10/61] fix: a session that fails to be activated or
 deactivated does not stay the current one

---
 slash/core/session.py | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/slash/core/session.py b/slash/core/session.py
index 13c127c..5b901f4 100644
--- a/slash/core/session.py
+++ b/slash/core/session.py
@@ -4,7 +4,7 @@ import sys
 import socket
 import time
 import uuid
-from contextlib import contextmanager
+from contextlib import ExitStack, contextmanager
 from ..conf import config
 from .. import ctx, hooks, log, exceptions
 from .cleanup_manager import CleanupManager
@@ -39,6 +39,7 @@ class Session(Activatable):
         self._complete = False
         self._active = False
         self._active_context = None
+        self._exit_stack = None
         self.parallel_manager = None
         self.fixture_store = FixtureStore()
         self.warnings = SessionWarnings()
@@ -75,18 +76,19 @@ class Session(Activatable):
 
     def activate(self):
         assert not self._active, 'Attempted to activate an already-active session'
-        with handling_exceptions():
-            ctx.push_context()
-            assert ctx.context.session is None
-            assert ctx.context.result is None
-            ctx.context.session = self
-            ctx.context.result = self.results.global_result
-            self.results.global_result.mark_started()
-            self._logging_context = self.logging.get_session_logging_context()
-            self._logging_context.__enter__()  # https://github.com/PyCQA/pylint/issues/2056: pylint: disable=no-member,unnecessary-dunder-call
-
-            self._warning_capture_context = self.warnings.capture_context()
-            self._warning_capture_context.__enter__()  # https://github.com/PyCQA/pylint/issues/2056: pylint: disable=no-member,unnecessary-dunder-call
+        with ExitStack() as exit_stack:
+            with handling_exceptions():
+                ctx.push_context()
+                exit_stack.callback(ctx.pop_context)
+                assert ctx.context.session is None
+                assert ctx.context.result is None
+                ctx.context.session = self
+                ctx.context.result = self.results.global_result
+                self.results.global_result.mark_started()
+                exit_stack.callback(self.results.global_result.mark_finished)
+                exit_stack.enter_context(self.logging.get_session_logging_context())
+                exit_stack.enter_context(self.warnings.capture_context())
+            self._exit_stack = exit_stack.pop_all()
         self._active = True
 
     def deactivate(self):
@@ -94,15 +96,8 @@ class Session(Activatable):
         self._active = False
         self.results.global_result.mark_finished()
 
-        exc_info = sys.exc_info()
-
-        self._warning_capture_context.__exit__(*exc_info) # pylint: disable=no-member
-        self._warning_capture_context = None
-
-        self._logging_context.__exit__(*exc_info) # pylint: disable=no-member
-        self._logging_context = None
-        self.results.global_result.mark_finished()
-        ctx.pop_context()
+        exit_stack, self._exit_stack = self._exit_stack, None
+        exit_stack.__exit__(*sys.exc_info())
 
     @property
     def duration(self):
-- 
2.43.0


From cd2f3d4716c0e0ddf1ade47fbac4fb096f5d0269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:12 +0000
Subject: [PATCH 11/61] fix: an exception while a run's exit is being reported
 does not leave the run's context in place

---
 slash/app.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/slash/app.py b/slash/app.py
index f881220..2f830de 100644
--- a/slash/app.py
+++ b/slash/app.py
@@ -139,6 +139,19 @@ class Application(object):
 
     def __exit__(self, exc_type, exc_value, exc_tb):
         exc_info = (exc_type, exc_value, exc_tb)
+        try:
+            self._handle_exit_exception(exc_info)
+        finally:
+            exit_stack, self._exit_stack = self._exit_stack, None
+            try:
+                exit_stack.__exit__(exc_type, exc_value, exc_tb)
+            finally:
+                self._reset_parser()
+                trigger_hook.app_quit()  # pylint: disable=no-member
+        return True
+
+    def _handle_exit_exception(self, exc_info):
+        exc_type, exc_value, _ = exc_info
         try:
             debug_if_needed(exc_info)
         except Exception as e:  # pylint: disable=broad-except
@@ -160,11 +173,6 @@ class Application(object):
 
         if exc_type is not None:
             trigger_hook.result_summary() # pylint: disable=no-member
-        self._exit_stack.__exit__(exc_type, exc_value, exc_tb)
-        self._exit_stack = None
-        self._reset_parser()
-        trigger_hook.app_quit()  # pylint: disable=no-member
-        return True
 
     def _is_session_unsuccessful(self):
         if self.session is None or not self.session.results.global_result.is_started():
-- 
2.43.0


From e31bdd277ca2beda43081ca577a173ed6a827e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:18 +0000
Subject: [PATCH 12/61] fix: the console color option is not left in the
 process environment

---
 slash/reporting/console_reporter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/slash/reporting/console_reporter.py b/slash/reporting/console_reporter.py
index d3a223d..e02f52c 100644
--- a/slash/reporting/console_reporter.py
+++ b/slash/reporting/console_reporter.py
@@ -2,7 +2,6 @@
 from __future__ import division
 import functools
 import itertools
-import os
 import sys
 
 import vintage
@@ -53,9 +52,9 @@ class TerminalWriterWrapper(object):
 
     def __init__(self, file):
         super(TerminalWriterWrapper, self).__init__()
-        if config.root.log.color_console is not None:
-            os.environ['PY_COLORS'] = '1' if config.root.log.color_console else '0'
         self._writer = TerminalWriter(file=file)
+        if config.root.log.color_console is not None:
+            self._writer.hasmarkup = bool(config.root.log.color_console)
         self._isatty = file.isatty()
         self._line = ''
 
-- 
2.43.0


From 69d803a36cfb68703f71bc364f054cf6177518d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:46 +0000
Subject: [PATCH 13/61] fix: an interruption while a traceback is being built
 is not swallowed

---
 slash/utils/traceback_proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/utils/traceback_proxy.py b/slash/utils/traceback_proxy.py
index 6d7b333..3b7a8a7 100644
--- a/slash/utils/traceback_proxy.py
+++ b/slash/utils/traceback_proxy.py
@@ -144,7 +144,7 @@ else:
         def create_traceback():
             try:
                 1 / 0
-            except:
+            except ZeroDivisionError:
                 tb = sys.exc_info()[2]
             return tb  # pylint: disable=used-before-assignment
 
-- 
2.43.0


From 3703b78a01f370add9afba773b49f4dd90b1a825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:54 +0000
Subject: [PATCH 14/61] fix: a worker goes on sending keep-alives after one of
 them is lost

---
 slash/parallel/worker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slash/parallel/worker.py b/slash/parallel/worker.py
index 5719994..7049577 100644
--- a/slash/parallel/worker.py
+++ b/slash/parallel/worker.py
@@ -5,6 +5,7 @@ import pickle
 import time
 import collections
 import platform
+from http.client import HTTPException
 from six.moves import xmlrpc_client
 from .server import NO_MORE_TESTS, PROTOCOL_ERROR, WAITING_FOR_CLIENTS
 from ..exceptions import INTERRUPTION_EXCEPTIONS
@@ -30,7 +31,10 @@ class Worker(object):
     def keep_alive(self, stop_event):
         proxy = xmlrpc_client.ServerProxy(self.keepalive_server_addr)
         while not stop_event.is_set():
-            proxy.keep_alive(self.client_id)
+            try:
+                proxy.keep_alive(self.client_id)
+            except (OSError, HTTPException) as err:
+                _logger.debug("Failed to send keep_alive, error: {}", err)
             stop_event.wait(1)
 
     def warning_added(self, warning):
-- 
2.43.0


From a288a9f3dd720bb50a6a338553bea63a89cc0aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:54 +0000
Subject: [PATCH 15/61] fix: a worker that is lost before its first keep-alive
 is noticed

---
 slash/parallel/parallel_manager.py | 2 +-
 slash/parallel/server.py           | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/slash/parallel/parallel_manager.py b/slash/parallel/parallel_manager.py
index 65d79fc..c9ec086 100644
--- a/slash/parallel/parallel_manager.py
+++ b/slash/parallel/parallel_manager.py
@@ -90,7 +90,7 @@ class ParallelManager(object):
         for worker_id in self.server.get_connected_clients():
             worker_last_connection_time = workers_last_connection_time.get(worker_id, None)
             if worker_last_connection_time is None: #worker keepalive thread didn't started yet
-                continue
+                worker_last_connection_time = self.server.clients_connection_time[worker_id]
             if time.time() - worker_last_connection_time > config.root.parallel.communication_timeout_secs:
                 _logger.error("Worker {} is down, terminating session", worker_id, extra={'capture': False})
                 self.report_worker_error_logs()
diff --git a/slash/parallel/server.py b/slash/parallel/server.py
index a2586b3..c905443 100644
--- a/slash/parallel/server.py
+++ b/slash/parallel/server.py
@@ -76,6 +76,7 @@ class Server(object):
         self.num_collections_validated = 0
         self.start_time = time.time()
         self.worker_to_pid = {}
+        self.clients_connection_time = {}
         self.connected_clients = set()
         self.collection = [[test.__slash__.file_path,
                             test.__slash__.function_name,
@@ -122,6 +123,7 @@ class Server(object):
 
     def connect(self, client_id, client_pid):
         _logger.notice("Client_id {} connected", client_id)
+        self.clients_connection_time[client_id] = time.time()
         self.connected_clients.add(client_id)
         client_session_id = '{}_{}'.format(context.session.id.split('_')[0], client_id)
         context.session.logging.create_worker_symlink(self._get_worker_session_id(client_id), client_session_id)
-- 
2.43.0


From 59ced80e55d1180308ff77f03e0cf643dbf3f75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:54 +0000
Subject: [PATCH 16/61] fix: parallel timeouts do not depend on the wall clock

---
 slash/parallel/parallel_manager.py | 6 +++---
 slash/parallel/server.py           | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/slash/parallel/parallel_manager.py b/slash/parallel/parallel_manager.py
index c9ec086..65f1e61 100644
--- a/slash/parallel/parallel_manager.py
+++ b/slash/parallel/parallel_manager.py
@@ -80,7 +80,7 @@ class ParallelManager(object):
 
     def wait_all_workers_to_connect(self):
         while self.server.state == ServerStates.WAIT_FOR_CLIENTS:
-            if time.time() - self.server.start_time > config.root.parallel.worker_connect_timeout * self.workers_num:
+            if time.monotonic() - self.server.start_time > config.root.parallel.worker_connect_timeout * self.workers_num:
                 self.handle_error("Timeout: Not all clients connected to server, terminating.\n\
                                    Clients connected: {}".format(self.server.connected_clients))
             time.sleep(TIME_BETWEEN_CHECKS)
@@ -91,14 +91,14 @@ class ParallelManager(object):
             worker_last_connection_time = workers_last_connection_time.get(worker_id, None)
             if worker_last_connection_time is None: #worker keepalive thread didn't started yet
                 worker_last_connection_time = self.server.clients_connection_time[worker_id]
-            if time.time() - worker_last_connection_time > config.root.parallel.communication_timeout_secs:
+            if time.monotonic() - worker_last_connection_time > config.root.parallel.communication_timeout_secs:
                 _logger.error("Worker {} is down, terminating session", worker_id, extra={'capture': False})
                 self.report_worker_error_logs()
                 self.workers[worker_id].handle_timeout()
                 get_xmlrpc_proxy(config.root.parallel.server_addr, self.server.port).report_client_failure(worker_id)
 
     def check_no_requests_timeout(self):
-        if time.time() - self.keepalive_server.last_request_time > config.root.parallel.no_request_timeout:
+        if time.monotonic() - self.keepalive_server.last_request_time > config.root.parallel.no_request_timeout:
             _logger.error("No request sent to server for {} seconds, terminating",
                           config.root.parallel.no_request_timeout, extra={'capture': False})
             if self.server.has_connected_clients():
diff --git a/slash/parallel/server.py b/slash/parallel/server.py
index c905443..fcbdbc6 100644
--- a/slash/parallel/server.py
+++ b/slash/parallel/server.py
@@ -31,14 +31,14 @@ class KeepaliveServer(object):
     def __init__(self):
         super(KeepaliveServer, self).__init__()
         self.clients_last_communication_time = {}
-        self.last_request_time = time.time()
+        self.last_request_time = time.monotonic()
         self.state = ServerStates.NOT_INITIALIZED
         self.port = None
         self._lock = threading.Lock()
 
     def keep_alive(self, client_id):
         with self._lock:
-            self.clients_last_communication_time[client_id] = self.last_request_time = time.time()
+            self.clients_last_communication_time[client_id] = self.last_request_time = time.monotonic()
         _logger.debug("Client_id {} sent keep_alive", client_id)
 
     def stop_serve(self):
@@ -74,7 +74,7 @@ class Server(object):
         self.executing_tests = {}
         self.finished_tests = []
         self.num_collections_validated = 0
-        self.start_time = time.time()
+        self.start_time = time.monotonic()
         self.worker_to_pid = {}
         self.clients_connection_time = {}
         self.connected_clients = set()
@@ -123,7 +123,7 @@ class Server(object):
 
     def connect(self, client_id, client_pid):
         _logger.notice("Client_id {} connected", client_id)
-        self.clients_connection_time[client_id] = time.time()
+        self.clients_connection_time[client_id] = time.monotonic()
         self.connected_clients.add(client_id)
         client_session_id = '{}_{}'.format(context.session.id.split('_')[0], client_id)
         context.session.logging.create_worker_symlink(self._get_worker_session_id(client_id), client_session_id)
-- 
2.43.0


From aa368f083faa6320eea31c0957d60ccb168c1e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:54 +0000
Subject: [PATCH 17/61] fix: a worker that disconnects just before it is
 declared lost does not fail the run

---
 slash/parallel/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slash/parallel/server.py b/slash/parallel/server.py
index fcbdbc6..06abcde 100644
--- a/slash/parallel/server.py
+++ b/slash/parallel/server.py
@@ -95,6 +95,9 @@ class Server(object):
         return len(self.finished_tests) < len(self.tests)
 
     def report_client_failure(self, client_id):
+        if client_id not in self.connected_clients:
+            _logger.debug("Client {} has already disconnected", client_id)
+            return
         self.connected_clients.remove(client_id)
         test_index = self.executing_tests.get(client_id, None)
         if test_index is not None:
-- 
2.43.0


From 079f483ca638e847863b9c134f2d3a7fbdeb2bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:45 +0000
Subject: [PATCH 18/61] fix: errors and skips of a parallel test are reported
 even if they refer to objects which cannot be pickled

---
 slash/core/error.py   | 12 +++++++++++-
 slash/core/result.py  |  8 +++++---
 slash/utils/python.py |  7 +++++++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/slash/core/error.py b/slash/core/error.py
index 1b3f020..ea59558 100644
--- a/slash/core/error.py
+++ b/slash/core/error.py
@@ -10,7 +10,7 @@ from ..conf import config
 from ..exception_handling import is_exception_fatal, get_exception_frame_correction
 from ..exceptions import FAILURE_EXCEPTION_TYPES
 from ..utils.formatter import Formatter
-from ..utils.python import safe_set_attribute
+from ..utils.python import is_picklable, safe_set_attribute
 from ..utils.traceback_utils import distill_call_stack, distill_traceback, distill_object_attributes
 
 
@@ -60,6 +60,16 @@ class Error(object):
         for frame in self.traceback.frames:
             frame.forget_python_frame()
 
+    def __getstate__(self):
+        returned = self.__dict__.copy()
+        for key in ('exception_type', 'arg', 'exc_info'):
+            if key in returned and not is_picklable(returned[key]):
+                returned[key] = None
+        if self._exception_attributes is not None:
+            returned['_exception_attributes'] = {key: value if is_picklable(value) else repr(value)
+                                                 for key, value in self._exception_attributes.items()}
+        return returned
+
     def log_added(self):
         tb = self.traceback.to_string(include_vars=config.root.log.traceback_variables)
         _logger.trace('Error added: {}\n{}', self, tb, extra={'highlight': True})
diff --git a/slash/core/result.py b/slash/core/result.py
index 856631a..29d9830 100644
--- a/slash/core/result.py
+++ b/slash/core/result.py
@@ -15,7 +15,7 @@ from ..exception_handling import capture_sentry_exception, handling_exceptions
 from .. import exceptions
 from ..utils.exception_mark import ExceptionMarker
 from ..utils.interactive import notify_if_slow_context
-from ..utils.python import unpickle
+from ..utils.python import is_picklable, unpickle
 from .details import Details
 from .error import Error
 
@@ -58,9 +58,11 @@ class Result(object):
         serialized_object = {}
         for key, value in vars(self).items():
             if key not in Result.pickle_key_blacklist:
+                if key == '_skips':
+                    value = [reason if is_picklable(reason) else repr(reason) for reason in value]
                 try:
                     serialized_object[key] = pickle.dumps(value)
-                except (pickle.PicklingError, TypeError):
+                except Exception:  # pylint: disable=broad-except
                     _logger.debug('Failed serializing result, skipping this value. key = {}', key)
                     capture_sentry_exception()
         return serialized_object
@@ -69,7 +71,7 @@ class Result(object):
         for key, value in result_dict.items():
             try:
                 self.__dict__[key] = unpickle(value)
-            except TypeError:
+            except Exception:  # pylint: disable=broad-except
                 _logger.error('Error when deserialize reult, skipping this value. key = {}', key,
                               extra={'capture': False})
         for failure in self._failures:
diff --git a/slash/utils/python.py b/slash/utils/python.py
index e1392de..793494d 100644
--- a/slash/utils/python.py
+++ b/slash/utils/python.py
@@ -49,6 +49,13 @@ def unpickle(thing):
         return thing
     return pickle.loads(thing.data)
 
+def is_picklable(thing):
+    try:
+        pickle.loads(pickle.dumps(thing))
+    except Exception:  # pylint: disable=broad-except
+        return False
+    return True
+
 def get_underlying_func(func):
     while True:
         underlying = getattr(func, "__wraps__", None)
-- 
2.43.0


From bf82fcc3b8f88a90b2f7ed70cdba185f96feb760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:45 +0000
Subject: [PATCH 19/61] fix: a warning which cannot be pickled does not fail
 the parallel test which emitted it

---
 slash/parallel/server.py | 5 +++--
 slash/parallel/worker.py | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/slash/parallel/server.py b/slash/parallel/server.py
index 06abcde..7ae3aa8 100644
--- a/slash/parallel/server.py
+++ b/slash/parallel/server.py
@@ -211,9 +211,10 @@ class Server(object):
         _logger.notice("Client_id {} sent warning", client_id)
         try:
             warning = unpickle(pickled_warning)
-            context.session.warnings.add(warning)
-        except TypeError:
+        except Exception:  # pylint: disable=broad-except
             _logger.error('Error when deserializing warning, not adding it', extra={'capture': False})
+        else:
+            context.session.warnings.add(warning)
 
     def report_session_error(self, message):
         self.worker_error_reported = True
diff --git a/slash/parallel/worker.py b/slash/parallel/worker.py
index 7049577..12067d2 100644
--- a/slash/parallel/worker.py
+++ b/slash/parallel/worker.py
@@ -39,11 +39,12 @@ class Worker(object):
 
     def warning_added(self, warning):
         try:
-            warning = pickle.dumps(warning)
-            self.client.report_warning(self.client_id, warning)
-        except (pickle.PicklingError, TypeError):
+            pickled_warning = pickle.dumps(warning)
+        except Exception:  # pylint: disable=broad-except
             _logger.error("Failed to pickle warning. Message: {}, File: {}, Line: {}",
                           warning.message, warning.filename, warning.lineno, extra={'capture': False})
+        else:
+            self.client.report_warning(self.client_id, pickled_warning)
 
     def error_added(self, error, result):
         if result.is_global_result():
-- 
2.43.0


From 55ec5e0fac23e785340d2ec7f9e6a8f6fca6ce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:07 +0000
Subject: [PATCH 20/61] fix: failing to start a worker process does not leave
 the other workers and the servers running

---
 slash/parallel/parallel_manager.py     | 21 ++++++++++++++-------
 slash/parallel/worker_configuration.py |  5 +++--
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/slash/parallel/parallel_manager.py b/slash/parallel/parallel_manager.py
index 65f1e61..880ebf5 100644
--- a/slash/parallel/parallel_manager.py
+++ b/slash/parallel/parallel_manager.py
@@ -127,11 +127,18 @@ class ParallelManager(object):
             get_xmlrpc_proxy(config.root.parallel.server_addr, self.server.port).session_interrupted()
             self.kill_workers()
             raise
+        except Exception:
+            self.kill_workers()
+            raise
         finally:
-            for worker in list(self.workers.values()):
-                worker.wait_to_finish()
-
-            get_xmlrpc_proxy(config.root.parallel.server_addr, self.server.port).stop_serve()
-            get_xmlrpc_proxy(config.root.parallel.server_addr, self.keepalive_server.port).stop_serve()
-            self.server_thread.join()
-            self.keepalive_server_thread.join()
+            try:
+                for worker in list(self.workers.values()):
+                    worker.wait_to_finish()
+            finally:
+                self.stop_servers()
+
+    def stop_servers(self):
+        get_xmlrpc_proxy(config.root.parallel.server_addr, self.server.port).stop_serve()
+        get_xmlrpc_proxy(config.root.parallel.server_addr, self.keepalive_server.port).stop_serve()
+        self.server_thread.join()
+        self.keepalive_server_thread.join()
diff --git a/slash/parallel/worker_configuration.py b/slash/parallel/worker_configuration.py
index 1960fe0..1eb53e2 100644
--- a/slash/parallel/worker_configuration.py
+++ b/slash/parallel/worker_configuration.py
@@ -109,10 +109,11 @@ class ProcessWorkerConfiguration(WorkerConfiguration):
             self._pid.kill()
 
     def is_active(self):
-        return self._pid.poll() is None
+        return self._pid is not None and self._pid.poll() is None
 
     def wait_to_finish(self):
-        self._pid.wait()
+        if self._pid is not None:
+            self._pid.wait()
 
 class TmuxWorkerConfiguration(WorkerConfiguration):
     def __init__(self, basic_args, worker_id):
-- 
2.43.0


From 0cfa60de020ae077ed72e0cd1da3b04c3fd6d447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:07 +0000
Subject: [PATCH 21/61] fix: tests forced to a worker in before_worker_start
 are run by that worker

---
 slash/parallel/tests_distributer.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/slash/parallel/tests_distributer.py b/slash/parallel/tests_distributer.py
index de45076..39b6b75 100644
--- a/slash/parallel/tests_distributer.py
+++ b/slash/parallel/tests_distributer.py
@@ -8,18 +8,20 @@ class TestsDistributer(object):
     def __init__(self, num_tests):
         self._unstarted_tests_indices = [i for i in range(num_tests)]
         self._current_tests_index = 0
-        workers_config = ctx.session.parallel_manager.workers.values()
+        self._workers_config = ctx.session.parallel_manager.workers.values()
         self._workers_excluded_tests = {config.get_worker_id(): config.get_excluded_tests() \
-                                        for config in workers_config}
-        self._forced_tests_dict = {}
-        for config in workers_config:
-            for test_index in config.get_forced_tests():
-                self._forced_tests_dict[test_index] = config.get_worker_id()
-        _logger.debug("forced_tests_dict: {}", self._forced_tests_dict)
+                                        for config in self._workers_config}
+
+    def _get_forced_worker(self, test_index):
+        returned = None
+        for config in self._workers_config:
+            if test_index in config.get_forced_tests():
+                returned = config.get_worker_id()
+        return returned
 
     def _can_execute_test(self, test_index, client_id):
         _logger.debug("_can_execute_test - client_id: {}, test_index: {}", client_id, test_index)
-        forced_worker = self._forced_tests_dict.get(test_index)
+        forced_worker = self._get_forced_worker(test_index)
         if forced_worker is not None:
             return forced_worker == client_id
         return test_index not in self._workers_excluded_tests[client_id]
-- 
2.43.0


From a668f8ff16bf834cf8b9d23a044f1e4977d4e9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:07 +0000
Subject: [PATCH 22/61] fix: forcing and excluding parallel tests applies to
 the requested tests if their order is changed

---
 slash/parallel/server.py            | 2 +-
 slash/parallel/tests_distributer.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/slash/parallel/server.py b/slash/parallel/server.py
index 7ae3aa8..9f19fc3 100644
--- a/slash/parallel/server.py
+++ b/slash/parallel/server.py
@@ -83,7 +83,7 @@ class Server(object):
                             test.__slash__.variation.dump_variation_dict()]
                            for test in self.tests]
         self._sorted_collection = sorted(self.collection)
-        self._tests_distrubuter = TestsDistributer(len(self._sorted_collection))
+        self._tests_distrubuter = TestsDistributer([test.__slash__.parallel_index for test in self.tests])
 
     def has_connected_clients(self):
         return len(self.connected_clients) > 0
diff --git a/slash/parallel/tests_distributer.py b/slash/parallel/tests_distributer.py
index 39b6b75..db96e55 100644
--- a/slash/parallel/tests_distributer.py
+++ b/slash/parallel/tests_distributer.py
@@ -5,8 +5,9 @@ from logbook import Logger
 _logger = Logger(__name__)
 
 class TestsDistributer(object):
-    def __init__(self, num_tests):
-        self._unstarted_tests_indices = [i for i in range(num_tests)]
+    def __init__(self, parallel_indices):
+        self._parallel_indices = parallel_indices
+        self._unstarted_tests_indices = [i for i in range(len(parallel_indices))]
         self._current_tests_index = 0
         self._workers_config = ctx.session.parallel_manager.workers.values()
         self._workers_excluded_tests = {config.get_worker_id(): config.get_excluded_tests() \
@@ -29,7 +30,7 @@ class TestsDistributer(object):
     def get_next_test_for_client(self, client_id):
         ret = None
         for test_index in self._unstarted_tests_indices:
-            if self._can_execute_test(test_index, client_id):
+            if self._can_execute_test(self._parallel_indices[test_index], client_id):
                 ret = test_index
                 break
             else:
-- 
2.43.0


From ce722e1b12629a79b58a05c9344bca4da5c192ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:09 +0000
Subject: [PATCH 23/61] fix: an error of a parallel worker's session cleanup is
 reported if it is charged to a test which was already reported

---
 slash/parallel/worker.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slash/parallel/worker.py b/slash/parallel/worker.py
index 12067d2..2736fda 100644
--- a/slash/parallel/worker.py
+++ b/slash/parallel/worker.py
@@ -27,6 +27,7 @@ class Worker(object):
         self.keepalive_server_addr = 'http://{}:{}'.format(config.root.parallel.server_addr, config.root.parallel.keepalive_port)
         self._stop_event = None
         self._watchdog_thread = None
+        self._reported_tests = set()
 
     def keep_alive(self, stop_event):
         proxy = xmlrpc_client.ServerProxy(self.keepalive_server_addr)
@@ -49,6 +50,9 @@ class Worker(object):
     def error_added(self, error, result):
         if result.is_global_result():
             self.client.report_session_error("Session error in client id {}: {}".format(self.client_id, error.message))
+        elif result.test_id in self._reported_tests:
+            self.client.report_session_error("Error in client id {} after the result of {} was reported: {}".format(
+                self.client_id, result.test_metadata.address, error.message))
 
     def write_to_error_file(self, msg):
         try:
@@ -120,6 +124,7 @@ class Worker(object):
                         result = context.session.results[test]
                         _logger.debug("Client {} finished test, sending results", self.client_id)
                         ret = self.client.finished_test(self.client_id, result.serialize())
+                        self._reported_tests.add(result.test_id)
                         if ret == PROTOCOL_ERROR:
                             _logger.error("Worker_id {} recieved protocol error message, terminating", self.client_id,
                                           extra={'capture': False})
-- 
2.43.0


From 05577a8cb38f49e23a383b7ceb04c082374d8841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:44 +0000
Subject: [PATCH 24/61] fix: an interruption while waiting for parallel workers
 to finish terminates them and marks the session as interrupted

---
 slash/parallel/parallel_manager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/slash/parallel/parallel_manager.py b/slash/parallel/parallel_manager.py
index 880ebf5..295781f 100644
--- a/slash/parallel/parallel_manager.py
+++ b/slash/parallel/parallel_manager.py
@@ -122,6 +122,7 @@ class ParallelManager(object):
                 self.check_worker_timed_out()
                 self.check_no_requests_timeout()
                 time.sleep(TIME_BETWEEN_CHECKS)
+            self.wait_workers_to_finish()
         except INTERRUPTION_EXCEPTIONS:
             _logger.error("Server interrupted, stopping workers and terminating", extra={'capture': False})
             get_xmlrpc_proxy(config.root.parallel.server_addr, self.server.port).session_interrupted()
@@ -132,11 +133,14 @@ class ParallelManager(object):
             raise
         finally:
             try:
-                for worker in list(self.workers.values()):
-                    worker.wait_to_finish()
+                self.wait_workers_to_finish()
             finally:
                 self.stop_servers()
 
+    def wait_workers_to_finish(self):
+        for worker in list(self.workers.values()):
+            worker.wait_to_finish()
+
     def stop_servers(self):
         get_xmlrpc_proxy(config.root.parallel.server_addr, self.server.port).stop_serve()
         get_xmlrpc_proxy(config.root.parallel.server_addr, self.keepalive_server.port).stop_serve()
-- 
2.43.0


From 2c0b4a8792a23186226f8dfda2a1430504d37dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:51 +0000
Subject: [PATCH 25/61] fix: an interruption of a parallel parent is not
 charged to the test being reported at that moment

---
 slash/exception_handling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slash/exception_handling.py b/slash/exception_handling.py
index 14fc4ed..687b861 100644
--- a/slash/exception_handling.py
+++ b/slash/exception_handling.py
@@ -23,7 +23,8 @@ _logger = logbook.Logger(__name__)
 def update_current_result(exc_info):  # pylint: disable=unused-argument
     if slash_context.session is None:
         return
-    if slash_context.test is not None:
+    # in a parallel parent, the current test is only being reported (by another thread), not run
+    if slash_context.test is not None and not slash_context.session.has_children():
         current_result = slash_context.session.results.get_result(slash_context.test)
     else:
         current_result = slash_context.session.results.global_result
-- 
2.43.0


From a09715a83ee47d2ad258b95f14cbb07acad9427b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:33 +0000
Subject: [PATCH 26/61] Revert "fix: forcing and excluding parallel tests
 applies to the requested tests if their order is changed"

This reverts commit a668f8ff16bf834cf8b9d23a044f1e4977d4e9c9.
---
 slash/parallel/server.py            | 2 +-
 slash/parallel/tests_distributer.py | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/slash/parallel/server.py b/slash/parallel/server.py
index 9f19fc3..7ae3aa8 100644
--- a/slash/parallel/server.py
+++ b/slash/parallel/server.py
@@ -83,7 +83,7 @@ class Server(object):
                             test.__slash__.variation.dump_variation_dict()]
                            for test in self.tests]
         self._sorted_collection = sorted(self.collection)
-        self._tests_distrubuter = TestsDistributer([test.__slash__.parallel_index for test in self.tests])
+        self._tests_distrubuter = TestsDistributer(len(self._sorted_collection))
 
     def has_connected_clients(self):
         return len(self.connected_clients) > 0
diff --git a/slash/parallel/tests_distributer.py b/slash/parallel/tests_distributer.py
index db96e55..39b6b75 100644
--- a/slash/parallel/tests_distributer.py
+++ b/slash/parallel/tests_distributer.py
@@ -5,9 +5,8 @@ from logbook import Logger
 _logger = Logger(__name__)
 
 class TestsDistributer(object):
-    def __init__(self, parallel_indices):
-        self._parallel_indices = parallel_indices
-        self._unstarted_tests_indices = [i for i in range(len(parallel_indices))]
+    def __init__(self, num_tests):
+        self._unstarted_tests_indices = [i for i in range(num_tests)]
         self._current_tests_index = 0
         self._workers_config = ctx.session.parallel_manager.workers.values()
         self._workers_excluded_tests = {config.get_worker_id(): config.get_excluded_tests() \
@@ -30,7 +29,7 @@ class TestsDistributer(object):
     def get_next_test_for_client(self, client_id):
         ret = None
         for test_index in self._unstarted_tests_indices:
-            if self._can_execute_test(self._parallel_indices[test_index], client_id):
+            if self._can_execute_test(test_index, client_id):
                 ret = test_index
                 break
             else:
-- 
2.43.0


From 995920a975b39703682d18a0e505b8874c5a0d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:57 +0000
Subject: [PATCH 27/61] fix: tests which got no result are recorded for
 resuming in their order, each repetition on its own

---
 slash/resuming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/resuming.py b/slash/resuming.py
index f477ac6..945aded 100644
--- a/slash/resuming.py
+++ b/slash/resuming.py
@@ -119,7 +119,7 @@ def save_resume_state(session_result, collected_tests):
         if result.is_skip():
             test_to_resume.status = ResumeTestStatus.SKIPPED
         tests_to_resume.append(test_to_resume)
-    tests_with_no_results = {test.__slash__ for test in collected_tests if session_result.safe_get_result(test) is None}
+    tests_with_no_results = [test.__slash__ for test in collected_tests if session_result.safe_get_result(test) is None]
 
     for test_metadata in tests_with_no_results:
         test_to_resume = ResumeState(session_id=session_result.session.id, file_name=test_metadata.file_path,\
-- 
2.43.0


From 43a066211c351497a395b949822be172da7f89f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:57 +0000
Subject: [PATCH 28/61] fix: a test which failed as well as having been skipped
 is recorded as failed for resuming

---
 slash/resuming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/resuming.py b/slash/resuming.py
index 945aded..eb44741 100644
--- a/slash/resuming.py
+++ b/slash/resuming.py
@@ -116,7 +116,7 @@ def save_resume_state(session_result, collected_tests):
         else:
             test_to_resume.status = ResumeTestStatus.FAILED
 
-        if result.is_skip():
+        if result.is_skip() and result.is_success(allow_skips=True):
             test_to_resume.status = ResumeTestStatus.SKIPPED
         tests_to_resume.append(test_to_resume)
     tests_with_no_results = [test.__slash__ for test in collected_tests if session_result.safe_get_result(test) is None]
-- 
2.43.0


From 97bf3846839d7e608f5f62343181c229c297cf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:43 +0000
Subject: [PATCH 29/61] fix: resuming a session does not multiply the
 repetitions of a test marked to be repeated

---
 slash/core/metadata.py | 1 +
 slash/loader.py        | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/slash/core/metadata.py b/slash/core/metadata.py
index fa53170..88bf96a 100644
--- a/slash/core/metadata.py
+++ b/slash/core/metadata.py
@@ -22,6 +22,7 @@ class Metadata(object):
         self.tags = test.get_tags()
         self._sort_key = next(_sort_key_generator)
         self.repeat_all_index = 0
+        self.resumed = False
         self.parallel_index = None
         if factory is not None:
             #: The path to the file from which this test was loaded
diff --git a/slash/loader.py b/slash/loader.py
index c22e50a..9b7b35c 100644
--- a/slash/loader.py
+++ b/slash/loader.py
@@ -80,7 +80,10 @@ class Loader(object):
         returned = []
         repeat_each = config.root.run.repeat_each
         for test in tests:
-            for i in range(repeat_each * repeat_marker.get_value(test.get_test_function(), 1)):
+            num_repeats = repeat_each
+            if not test.__slash__.resumed: # each repetition was recorded as a test of its own
+                num_repeats *= repeat_marker.get_value(test.get_test_function(), 1)
+            for i in range(num_repeats):
                 returned.append(test.clone() if i else test)
         num_tests = len(returned)
         for i in range(config.root.run.repeat_all - 1):
@@ -131,6 +134,7 @@ class Loader(object):
                 if resume_state.variation:
                     if not resume_state.variation == test.get_variation().id:
                         continue
+                test.__slash__.resumed = True
                 yield test
 
     def _iter_test_address(self, address):
-- 
2.43.0


From 43716c0919008850fcb2c71ede9fb108415cd3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:18 +0000
Subject: [PATCH 30/61] fix: a transient database error while recording a
 session for resuming is retried from the start

---
 slash/resuming.py | 68 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/slash/resuming.py b/slash/resuming.py
index eb44741..8a0e408 100644
--- a/slash/resuming.py
+++ b/slash/resuming.py
@@ -77,33 +77,57 @@ def connecting_to_db():
         _init_db()
         _db_initialized = True
     with closing(_session()) as new_session:
-        yield new_session
-        max_retries = 3
-        for i in range(max_retries):
-            try:
-                new_session.commit() # pylint: disable=no-member
-            except OperationalError:
-                if i == max_retries - 1:
-                    raise
+        try:
+            yield new_session
+            new_session.commit() # pylint: disable=no-member
+        except Exception:
+            new_session.invalidate() # the connection may still be in the middle of the failed transaction
+            raise
+
+
+def _update_db(func, max_retries=3):
+    """Calls ``func`` on a connection to the DB and commits its changes. If the DB reports an error, everything
+    is rolled back and attempted again
+    """
+    for i in range(max_retries):
+        try:
+            with connecting_to_db() as conn:
+                func(conn)
+            return
+        except OperationalError:
+            if i == max_retries - 1:
+                raise
+            _logger.debug('Failed updating resume state DB. Retrying...', exc_info=True)
 
 
 def clean_old_entries():
+    _update_db(_clean_old_entries)
+
+
+def _clean_old_entries(conn):
     # pylint: disable=no-member
-    with connecting_to_db() as conn:
-        old_sessions_query = conn.query(SessionMetadata).filter \
-            (SessionMetadata.created_at < datetime.now() - timedelta(days=config.root.resume.state_retention_days))
-        old_sessions_ids = [session.session_id for session in old_sessions_query.all()]
-        if old_sessions_ids:
-            conn.query(ResumeState).filter(ResumeState.session_id.in_(old_sessions_ids)).delete(synchronize_session=False)
-        old_sessions_query.delete(synchronize_session=False)
+    old_sessions_query = conn.query(SessionMetadata).filter \
+        (SessionMetadata.created_at < datetime.now() - timedelta(days=config.root.resume.state_retention_days))
+    old_sessions_ids = [session.session_id for session in old_sessions_query.all()]
+    if old_sessions_ids:
+        conn.query(ResumeState).filter(ResumeState.session_id.in_(old_sessions_ids)).delete(synchronize_session=False)
+    old_sessions_query.delete(synchronize_session=False)
 
 
 def save_resume_state(session_result, collected_tests):
-    session_metadata = SessionMetadata(
-        session_id=session_result.session.id,
-        src_folder=os.path.abspath(os.getcwd()),
-        created_at=datetime.now())
+    created_at = datetime.now()
+
+    def save(conn):
+        conn.add(SessionMetadata( # pylint: disable=no-member
+            session_id=session_result.session.id,
+            src_folder=os.path.abspath(os.getcwd()),
+            created_at=created_at))
+        conn.add_all(_get_tests_to_resume(session_result, collected_tests)) # pylint: disable=no-member
+    _update_db(save)
+    _logger.debug('Saved resume state to DB')
+
 
+def _get_tests_to_resume(session_result, collected_tests):
     tests_to_resume = []
     for result in session_result.iter_test_results():
         metadata = result.test_metadata
@@ -126,11 +150,7 @@ def save_resume_state(session_result, collected_tests):
                                      address_in_file=test_metadata.address_in_file, status=ResumeTestStatus.PLANNED)
         test_to_resume.variation = str(test_metadata.variation.id) if test_metadata.variation else None
         tests_to_resume.append(test_to_resume)
-
-    with connecting_to_db() as conn:
-        conn.add(session_metadata) # pylint: disable=no-member
-        conn.add_all(tests_to_resume) # pylint: disable=no-member
-    _logger.debug('Saved resume state to DB')
+    return tests_to_resume
 
 
 def get_last_resumeable_session_id():
-- 
2.43.0


From 3221755d247912d99c62a408e65617a07446855a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:47 +0000
Subject: [PATCH 31/61] fix: registering a signal handler again while the
 plugin is active keeps the original handler to be restored

---
 slash/plugins/builtin/signal_handling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slash/plugins/builtin/signal_handling.py b/slash/plugins/builtin/signal_handling.py
index 20d460a..2d998a4 100644
--- a/slash/plugins/builtin/signal_handling.py
+++ b/slash/plugins/builtin/signal_handling.py
@@ -57,7 +57,8 @@ class Plugin(PluginInterface):
         # This method is used by register_handler as well
         # It cannot be public due to import-loop while importing "registers_on" before
         # PluginManager initialization finished (it creates all builtin plugins on init)
-        self._orig_handlers[signal_no] = signal.signal(signal_no, signal_handler)
+        orig_handler = signal.signal(signal_no, signal_handler)
+        self._orig_handlers.setdefault(signal_no, orig_handler)
 
     def activate(self):
         super().activate()
-- 
2.43.0


From 2e033dbe74d4848f1bf85d3bd3dd57f152063c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:47 +0000
Subject: [PATCH 32/61] fix: the skip-test signal is ignored when no test is
 running

---
 slash/plugins/builtin/signal_handling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slash/plugins/builtin/signal_handling.py b/slash/plugins/builtin/signal_handling.py
index 2d998a4..2c12155 100644
--- a/slash/plugins/builtin/signal_handling.py
+++ b/slash/plugins/builtin/signal_handling.py
@@ -41,6 +41,10 @@ def _usr1_handler(*_, **__):
 
 @register_handler('SIGUSR2', skip_plugin=True)
 def _usr2_handler(*_, **__):
+    if context.result is None or context.result.is_global_result():
+        if context.session is not None:
+            context.session.reporter.report_message("SIGUSR2 was caught by {!r} plugin, but no test is running".format(_PLUGIN_NAME))
+        return
     skip_test("Skipped due to SIGUSR2 signal caught by {!r} plugin".format(_PLUGIN_NAME))
 
 
-- 
2.43.0


From 721fa3636549410fa2c999d7e06ce03d443a1e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:47 +0000
Subject: [PATCH 33/61] fix: a failing activation of the signal handling plugin
 restores the original handlers

---
 slash/plugins/builtin/signal_handling.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/slash/plugins/builtin/signal_handling.py b/slash/plugins/builtin/signal_handling.py
index 2c12155..60db293 100644
--- a/slash/plugins/builtin/signal_handling.py
+++ b/slash/plugins/builtin/signal_handling.py
@@ -66,11 +66,18 @@ class Plugin(PluginInterface):
 
     def activate(self):
         super().activate()
-        for (sig_no, sig_handler) in _signal_handlers.items():
-            self._set_handler(sig_no, sig_handler)
+        try:
+            for (sig_no, sig_handler) in _signal_handlers.items():
+                self._set_handler(sig_no, sig_handler)
+        except Exception:
+            self._restore_handlers()
+            raise
 
     def deactivate(self):
         super().deactivate()
+        self._restore_handlers()
+
+    def _restore_handlers(self):
         for sig_no, sig_handler in self._orig_handlers.items():
             signal.signal(sig_no, sig_handler)
         self._orig_handlers.clear()
-- 
2.43.0


From 1b1581f3d37347358735cbd241dbe0f1934ebf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:58 +0000
Subject: [PATCH 34/61] fix: a skip raised while a test ends does not abort the
 session

---
 slash/runner.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slash/runner.py b/slash/runner.py
index 811a4e1..03ec56b 100644
--- a/slash/runner.py
+++ b/slash/runner.py
@@ -185,8 +185,11 @@ class TestStartEndController(object):
 
 
     def __exit__(self, *args):
-        with preserving_interruptions(), handling_exceptions():
-            self.end()
+        try:
+            with preserving_interruptions(), handling_exceptions():
+                self.end()
+        except context.session.get_skip_exception_types():
+            pass
 
 
 def _fire_test_summary_hooks(test, result): # pylint: disable=unused-argument
-- 
2.43.0


From 460adc935d68e4acf81579378c86e64a6742676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:02 +0000
Subject: [PATCH 35/61] fix: deactivating a plugin which only has session_end
 leaves nothing registered

---
 slash/plugins/plugin_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index 6d5a97e..d5fc2a7 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -404,7 +404,7 @@ class PluginManager(object):
 
         if has_session_end and not has_session_start:
             hook = gossip.get_hook('slash.session_start')
-            returned.append((hook, lambda: None, {'toggles_on': plugin.__toggles__['session']}))
+            returned.append((hook, lambda: None, {'toggles_on': plugin.__toggles__['session'], 'token': self._get_token(plugin_name)}))
             register_no_op_hooks.discard(hook.full_name)
 
         for hook_name in register_no_op_hooks:
-- 
2.43.0


From 53539150693b18eb2b31ecb57656612acc80a30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:02 +0000
Subject: [PATCH 36/61] fix: a plugin whose activation fails receives no
 notifications

---
 slash/plugins/plugin_manager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index d5fc2a7..2659de0 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -217,8 +217,12 @@ class PluginManager(object):
         if self._is_parallel_supported(plugin):
             _logger.warn("Activating plugin {} though it's configuration for parallel mode doesn't fit to current session".format(plugin.get_name()))
         plugin.activate()
-        for hook, callback, kwargs in self._get_plugin_registrations(plugin):
-            hook.register(callback, **kwargs)
+        try:
+            for hook, callback, kwargs in self._get_plugin_registrations(plugin):
+                hook.register(callback, **kwargs)
+        except Exception:
+            gossip.get_global_group().unregister_token(self._get_token(plugin_name))
+            raise
         self._active.add(plugin_name)
 
     def activate_later(self, plugin):
-- 
2.43.0


From 8c898658662e7fb43006a3a65622a0a4acc16ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:02 +0000
Subject: [PATCH 37/61] fix: activating an active plugin does not register it
 again

---
 slash/plugins/plugin_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index 2659de0..778038b 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -214,6 +214,8 @@ class PluginManager(object):
         """
         plugin = self._get_installed_plugin(plugin)
         plugin_name = plugin.get_name()
+        if plugin_name in self._active:
+            return
         if self._is_parallel_supported(plugin):
             _logger.warn("Activating plugin {} though it's configuration for parallel mode doesn't fit to current session".format(plugin.get_name()))
         plugin.activate()
-- 
2.43.0


From b165639dda3eb4d3f12a10413a3acb8ce32e62b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:02 +0000
Subject: [PATCH 38/61] fix: installing a plugin over an active one of the same
 name deactivates the previous one

---
 slash/plugins/plugin_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index 778038b..a596cf2 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -148,6 +148,8 @@ class PluginManager(object):
         if any(char in plugin_name for char in _DEPRECATED_CHARACTERS):
             warn_deprecation("In the future, dashes and underscore will not be allowed in plugin names - "
                              "spaces should be used instead (plugin name: {!r})".format(plugin_name))
+        if self._get_installed_plugin_instance_by_name(plugin_name) not in (None, plugin):
+            self.deactivate(plugin_name)
         self._configure(plugin)
         self._installed[plugin_name] = PluginInfo(plugin, is_internal)
         self._cmd_line_to_name[self.normalize_command_line_name(plugin_name)] = plugin_name
-- 
2.43.0


From 495f8d3a9c70c76164fcf03f3a7f878ab7a471d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:24 +0000
Subject: [PATCH 39/61] fix: a session which was left without ending does not
 suppress session_start of plugins in the next one

---
 slash/plugins/plugin_manager.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index a596cf2..e89876f 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -10,6 +10,7 @@ from ..utils.marks import try_get_mark
 from ..utils import parallel_utils
 from ..utils.python import reraise
 from ..conf import config
+from ..ctx import context
 from contextlib import contextmanager
 from emport import import_file
 from sentinels import NOTHING
@@ -31,6 +32,25 @@ class UnknownPlugin(ValueError):
 class IllegalPluginName(ValueError):
     pass
 
+class _SessionToggle(gossip.Toggle):
+    """Turned on when a session starts and off when it ends. A session which was left without ending does not affect the next ones
+    """
+
+    def __init__(self):
+        super(_SessionToggle, self).__init__()
+        self._session = None
+
+    def is_on(self):
+        return super(_SessionToggle, self).is_on() and self._session is context.session
+
+    def is_off(self):
+        return not self.is_on()
+
+    def toggle(self):
+        self._on = not self.is_on()
+        self._session = context.session if self._on else None
+
+
 class PluginManager(object):
     def __init__(self):
         super(PluginManager, self).__init__()
@@ -156,7 +176,7 @@ class PluginManager(object):
         self._config_to_name[self.normalize_config_name(plugin_name)] = plugin_name
         if not hasattr(plugin, '__toggles__'):
             plugin.__toggles__ = {
-                'session': gossip.Toggle(),
+                'session': _SessionToggle(),
             }
         if activate:
             try:
-- 
2.43.0


From 6897a0f12c2b208c44b9ce8e7c1825a5af7da5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:40 +0000
Subject: [PATCH 40/61] fix: an error raised while the application quits is
 reported by the exit code

---
 slash/frontend/slash_run.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slash/frontend/slash_run.py b/slash/frontend/slash_run.py
index 978b977..7503eef 100644
--- a/slash/frontend/slash_run.py
+++ b/slash/frontend/slash_run.py
@@ -77,7 +77,10 @@ def slash_run(args, report_stream=None, resume=False, rerun=False, app_callback=
                 app.set_exit_code(1)
     except Exception:         # pylint: disable=broad-except
         # Error reporting happens in app context
-        assert app.exit_code != 0
+        if app.exit_code == 0:
+            # the error occurred after the exception was handled by the app context, e.g. in an app_quit hook
+            _logger.error('Unexpected error occurred', exc_info=True, extra={'capture': False})
+            app.set_exit_code(1)
 
     return app
 
-- 
2.43.0


From 0d62f4ea695a89e39b165e78a3440f8d9ce62405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:13 +0000
Subject: [PATCH 41/61] fix: an exception leaving an ignored_warnings context
 does not leave its rule active

---
 slash/warnings.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/slash/warnings.py b/slash/warnings.py
index 7a9d67e..bd8fb9b 100644
--- a/slash/warnings.py
+++ b/slash/warnings.py
@@ -211,13 +211,15 @@ def ignore_warnings(category=None, message=None, filename=None, lineno=None):
 @contextmanager
 def ignored_warnings(**kwargs):
     iw = ignore_warnings(**kwargs)
-    with handling_exceptions():
-        yield
     try:
-        _ignored_warnings.remove(iw)
-    except ValueError:
-        # In case clear_warnings was called inside this context, ValueError will be raised
-        pass
+        with handling_exceptions():
+            yield
+    finally:
+        try:
+            _ignored_warnings.remove(iw)
+        except ValueError:
+            # In case clear_warnings was called inside this context, ValueError will be raised
+            pass
 
 
 def clear_ignored_warnings():
-- 
2.43.0


From aed90138c962e7f15adc75e817bd967ab5c9d30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:13 +0000
Subject: [PATCH 42/61] fix: warnings without arguments or with an argument
 which is not a string are recorded

---
 slash/warnings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/warnings.py b/slash/warnings.py
index bd8fb9b..8660768 100644
--- a/slash/warnings.py
+++ b/slash/warnings.py
@@ -112,7 +112,7 @@ class RecordedWarning(object):
     @classmethod
     def from_native_warning(cls, message, category, filename, lineno):
         if isinstance(message, Warning):
-            message = message.args[0]
+            message = str(message)
 
         return cls({
             'message': message,
-- 
2.43.0


From 13fcac68c4eaddec038ae5ad18ec9dafa8fb4df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:13 +0000
Subject: [PATCH 43/61] fix: a warning is recorded even if a subscriber of
 warning_added fails

---
 slash/warnings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/warnings.py b/slash/warnings.py
index 8660768..d412626 100644
--- a/slash/warnings.py
+++ b/slash/warnings.py
@@ -50,8 +50,8 @@ class SessionWarnings(object):
             _native_logger.warning('{filename}:{lineno}: {warning!r}', filename=filename, lineno=lineno, warning=warning)
 
     def add(self, warning):
-        hooks.warning_added(warning=warning) # pylint: disable=no-member
         self.warnings.append(warning)
+        hooks.warning_added(warning=warning) # pylint: disable=no-member
 
     def __iter__(self):
         "Iterates through stored warnings"
-- 
2.43.0


From f1301cf8b22259ee070f9cf25a56f6c10c317d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:58 +0000
Subject: [PATCH 44/61] fix: links to logs point to them also if the log root
 is a relative path

---
 slash/log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slash/log.py b/slash/log.py
index 75b3d07..0092afb 100644
--- a/slash/log.py
+++ b/slash/log.py
@@ -310,7 +310,8 @@ class SessionLogging(object):
 
             if os.path.exists(symlink) or os.path.islink(symlink):
                 os.unlink(symlink)
-            os.symlink(path, symlink)
+            # the target of a relative link would be looked up from the directory of the link
+            os.symlink(os.path.abspath(path), symlink)
 
         except Exception:  # pylint: disable=broad-except
             _logger.debug("Failed to create symlink {0} --> {1}", path, symlink, exc_info=True)
-- 
2.43.0


From 84fc978b724f2379e9a9a8df2881074441e41963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:58 +0000
Subject: [PATCH 45/61] fix: the unified session log contains the records
 logged by threads other than the main one

---
 slash/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/log.py b/slash/log.py
index 0092afb..5f534f2 100644
--- a/slash/log.py
+++ b/slash/log.py
@@ -195,7 +195,7 @@ class SessionLogging(object):
             for extra_handler in _extra_handlers:
                 stack.enter_context(extra_handler.applicationbound())
             if config.root.log.unified_session_log and self.session_log_handler is not None:
-                stack.enter_context(_make_bubbling_handler(self.session_log_handler))
+                stack.enter_context(_make_bubbling_handler(self.session_log_handler).applicationbound())
             if config.root.run.capture.error_logs_as_errors:
                 stack.enter_context(ErrorHandler().applicationbound())
 
-- 
2.43.0


From 794f5884988c23c9d1a68cebbceb46be6c28cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:58 +0000
Subject: [PATCH 46/61] fix: failing to remove the log of a test does not fail
 the test

---
 slash/log.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/slash/log.py b/slash/log.py
index 5f534f2..0ba9c27 100644
--- a/slash/log.py
+++ b/slash/log.py
@@ -279,12 +279,16 @@ class SessionLogging(object):
                     with handling_exceptions(swallow=True):
                         hooks.log_file_closed(path=log_path, result=result)  # pylint: disable=no-member
                     if config.root.log.cleanup.enabled and self._should_delete_log(result):
-                        with handling_exceptions(swallow=True):
-                            os.remove(log_path)
-                            dir_path = os.path.dirname(log_path)
-                            if not os.listdir(dir_path) and dir_path != self._normalize_path(config.root.log.root):
-                                os.rmdir(dir_path)
+                        self._delete_log(log_path)
 
+    def _delete_log(self, log_path):
+        try:
+            os.remove(log_path)
+            dir_path = os.path.dirname(log_path)
+            if not os.listdir(dir_path) and dir_path != self._normalize_path(config.root.log.root):
+                os.rmdir(dir_path)
+        except OSError:
+            _logger.debug("Failed to delete log {0}", log_path, exc_info=True)
 
     def _normalize_path(self, p):
         return os.path.expanduser(p)
-- 
2.43.0


From 05467708490ae983edaf729216585d20563b58cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:58 +0000
Subject: [PATCH 47/61] fix: a log file which failed to be closed is announced
 closed and is not listed as active any more

---
 slash/log.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/slash/log.py b/slash/log.py
index 0ba9c27..62a70b6 100644
--- a/slash/log.py
+++ b/slash/log.py
@@ -274,10 +274,12 @@ class SessionLogging(object):
                     with handling_exceptions():
                         yield handler
                 finally:
-                    handler.close()
-                    self._log_path_to_handler[log_path] = None
-                    with handling_exceptions(swallow=True):
-                        hooks.log_file_closed(path=log_path, result=result)  # pylint: disable=no-member
+                    try:
+                        handler.close()
+                    finally:
+                        self._log_path_to_handler[log_path] = None
+                        with handling_exceptions(swallow=True):
+                            hooks.log_file_closed(path=log_path, result=result)  # pylint: disable=no-member
                     if config.root.log.cleanup.enabled and self._should_delete_log(result):
                         self._delete_log(log_path)
 
-- 
2.43.0


From 9318e0d1af1fd2ec721bf9346eefd24d507d6cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:42 +0000
Subject: [PATCH 48/61] fix: silenced loggers are silenced in the unified
 session log too

---
 slash/log.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slash/log.py b/slash/log.py
index 62a70b6..a409e0d 100644
--- a/slash/log.py
+++ b/slash/log.py
@@ -189,13 +189,13 @@ class SessionLogging(object):
             stack.enter_context(self.warnings_handler.applicationbound())
             error_handler = stack.enter_context(self._get_error_logging_context())
             stack.enter_context(error_handler.applicationbound())
+            if config.root.log.unified_session_log and self.session_log_handler is not None:
+                stack.enter_context(_make_bubbling_handler(self.session_log_handler).applicationbound())
             stack.enter_context(self._get_silenced_logs_context())
             if config.root.log.unittest_mode:
                 stack.enter_context(logbook.StreamHandler(sys.stderr, bubble=True, level=logbook.TRACE))
             for extra_handler in _extra_handlers:
                 stack.enter_context(extra_handler.applicationbound())
-            if config.root.log.unified_session_log and self.session_log_handler is not None:
-                stack.enter_context(_make_bubbling_handler(self.session_log_handler).applicationbound())
             if config.root.run.capture.error_logs_as_errors:
                 stack.enter_context(ErrorHandler().applicationbound())
 
-- 
2.43.0


From e1c1a4f398d2b6fdd1d66657fb23619a58d98a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:15 +0000
Subject: [PATCH 49/61] fix: reasons of skips which are not strings do not fail
 the session when they are shown

---
 slash/reporting/console_reporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/reporting/console_reporter.py b/slash/reporting/console_reporter.py
index e02f52c..f27ff17 100644
--- a/slash/reporting/console_reporter.py
+++ b/slash/reporting/console_reporter.py
@@ -324,7 +324,7 @@ class ConsoleReporter(ReporterInterface):
         msg = '\tSkipped'
         skip_reasons = [r for r in result.get_skips() if r is not None]
         if skip_reasons:
-            msg += ' ({})'.format(', '.join(skip_reasons))
+            msg += ' ({})'.format(', '.join(str(reason) for reason in skip_reasons))
         msg += '\n'
 
         self._terminal.write(msg, **theme('test-skip-message'))
-- 
2.43.0


From 5ee2d797c96f46741d52de331dab1a624d7ba3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:54 +0000
Subject: [PATCH 50/61] fix: a skip raised outside any test is reported to a
 verbose console instead of failing the session

---
 slash/reporting/console_reporter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slash/reporting/console_reporter.py b/slash/reporting/console_reporter.py
index f27ff17..2787dc6 100644
--- a/slash/reporting/console_reporter.py
+++ b/slash/reporting/console_reporter.py
@@ -392,7 +392,10 @@ class ConsoleReporter(ReporterInterface):
     def report_test_skip_added(self, test, reason):
         self._file_has_skips = True
         if self._verobsity_allows(VERBOSITIES.NOTICE):
-            self._terminal.write('Skipped: {}, Test: {}\n'.format(reason, test.__slash__), **theme('test-skip-message'))
+            msg = 'Skipped: {}'.format(reason)
+            if test is not None:
+                msg += ', Test: {}'.format(test.__slash__)
+            self._terminal.write(msg + '\n', **theme('test-skip-message'))
         else:
             self._terminal.write('s', yellow=True)
 
-- 
2.43.0


From e309ecb024c0dc527d19dc5f97706487976720ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:18 +0000
Subject: [PATCH 51/61] fix: test details which cannot be represented do not
 fail the session when they are shown

---
 slash/reporting/console_reporter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slash/reporting/console_reporter.py b/slash/reporting/console_reporter.py
index 2787dc6..13aabed 100644
--- a/slash/reporting/console_reporter.py
+++ b/slash/reporting/console_reporter.py
@@ -313,7 +313,11 @@ class ConsoleReporter(ReporterInterface):
         for index, (key, value) in enumerate(detail_items):
             if index == 0:
                 self._terminal.write(' - Additional Details:\n', **theme('test-additional-details-header'))
-            self._terminal.write('    > {}: {!r}\n'.format(key, value), **theme('test-additional-details'))
+            try:
+                line = '    > {}: {!r}\n'.format(key, value)
+            except Exception as e:  # pylint: disable=broad-except
+                line = '    > {}: [Unprintable {}: {!r}]\n'.format(key, type(value).__name__, e)
+            self._terminal.write(line, **theme('test-additional-details'))
 
     def _indent_with(self, text, indent):
         if isinstance(indent, int):
-- 
2.43.0


From ccefd2fac76bf1409a8c0b448d3c50af04e6afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:13 +0000
Subject: [PATCH 52/61] fix: the xUnit report is written and well-formed
 whatever messages, skip reasons and details it has to contain

---
 slash/plugins/builtin/xunit.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/slash/plugins/builtin/xunit.py b/slash/plugins/builtin/xunit.py
index f085d3e..f879f02 100644
--- a/slash/plugins/builtin/xunit.py
+++ b/slash/plugins/builtin/xunit.py
@@ -1,5 +1,6 @@
 import datetime
 import itertools
+import re
 import socket
 import sys
 from ..interface import PluginInterface
@@ -15,6 +16,18 @@ from xml.etree.ElementTree import (
     SubElement as SE
 )
 
+_INVALID_XML_CHARACTERS = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
+_XML_NAME = re.compile('[A-Za-z_][A-Za-z0-9_.-]*')
+
+
+def _to_xml_text(value):
+    try:
+        text = str(value)
+    except Exception as e:  # pylint: disable=broad-except
+        text = '[Unprintable {}: {!r}]'.format(type(value).__name__, e)
+    return _INVALID_XML_CHARACTERS.sub('?', text)
+
+
 class Plugin(PluginInterface):
     """
     For more information see https://slash.readthedocs.org/en/master/builtin_plugins.html#xunit
@@ -41,35 +54,36 @@ class Plugin(PluginInterface):
         )
 
     def _add_element(self, parent, tag, attrib, text=None):
-        element = E(tag, attrib)
+        element = E(tag, {key: _to_xml_text(value) for key, value in attrib.items()})
         if text is not None:
-            element.text = text
+            element.text = _to_xml_text(text)
         parent.append(element)
 
     def _get_test_case_element(self, test):
         return E('testcase', dict(name=str(test), classname="{}.{}".format(test.__class__.__module__, test.__class__.__name__), time="0"))
 
     def _detail2xml(self, tag, name, value):
-        r = E(tag, {'name': name})
+        r = E(tag, {'name': _to_xml_text(name)})
         if isinstance(value, (dict, tuple, list)):
             r = self._build_xml(r, value)
-        elif isinstance(value, (float, int)):
-            r.attrib['value'] = str(value)
         else:
-            r.attrib['value'] = value
+            r.attrib['value'] = _to_xml_text(value)
         return r
 
     def _build_xml(self, r, d):
         if isinstance(d, dict):
             for k, v in d.items():
-                s = SE(r, k)
+                if isinstance(k, str) and _XML_NAME.fullmatch(k):
+                    s = SE(r, k)
+                else:
+                    s = SE(r, 'i', {'name': _to_xml_text(k)})
                 self._build_xml(s, v)
         elif isinstance(d, (tuple, list)):
             for v in d:
                 s = SE(r, 'i')
                 self._build_xml(s, v)
         else:
-            r.text = str(d)
+            r.text = _to_xml_text(d)
         return r
 
     def session_end(self):
@@ -101,7 +115,7 @@ class Plugin(PluginInterface):
         for result in run_test_results:
 
             test = E("testcase", {
-                "name": result.test_metadata.address,
+                "name": _to_xml_text(result.test_metadata.address),
                 "time": str(result.get_duration().total_seconds())
             })
 
-- 
2.43.0


From b00e415a9f71e52d7e17970446de088758b4ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:27 +0000
Subject: [PATCH 53/61] fix: the colour of a slack notification agrees with its
 title if another notification failed

---
 slash/plugins/builtin/notifications.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/plugins/builtin/notifications.py b/slash/plugins/builtin/notifications.py
index c98a7a6..ce58f4a 100644
--- a/slash/plugins/builtin/notifications.py
+++ b/slash/plugins/builtin/notifications.py
@@ -173,7 +173,7 @@ class Plugin(PluginInterface):
         if (slack_config.url is None) or (slack_config.channel is None):
             return
 
-        color = '#439FE0' if message.is_pdb else ('good' if self._finished_successfully() else 'danger')
+        color = '#439FE0' if message.is_pdb else ('good' if message.kwargs['success'] else 'danger')
         kwargs = {
             'attachments': [{
                 'title': message.get_title(),
-- 
2.43.0


From b67db133789bf076c4211b1d785cc0917a1fd618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:27 +0000
Subject: [PATCH 54/61] fix: a failure to notify about entering the debugger
 does not enter the debugger endlessly

---
 slash/plugins/builtin/notifications.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/slash/plugins/builtin/notifications.py b/slash/plugins/builtin/notifications.py
index ce58f4a..4f3e620 100644
--- a/slash/plugins/builtin/notifications.py
+++ b/slash/plugins/builtin/notifications.py
@@ -87,6 +87,7 @@ class Plugin(PluginInterface):
     def __init__(self, *args, **kwargs):
         super(Plugin, self).__init__(*args, **kwargs)
         self._notifiers = {}
+        self._notifying = False
         self._basic_config = {
             "prowl_api_key" : None,
             "nma_api_key" : None,
@@ -218,7 +219,7 @@ class Plugin(PluginInterface):
         return Message(title, short_message, kwargs, is_pdb)
 
     def entering_debugger(self, exc_info):
-        if not self.current_config.notify_on_pdb:
+        if not self.current_config.notify_on_pdb or self._notifying: # errors of notifications are not notified in turn
             return
         self._notify_all(short_message=_escape_format(repr(exc_info[1])), is_pdb=True)
 
@@ -235,11 +236,15 @@ class Plugin(PluginInterface):
         hooks.prepare_notification(message=message) # pylint: disable=no-member
         this_config = config.get_path('plugin_config.notifications')
 
-        for notifier_name, notifier_func in self._notifiers.items():
-            if not this_config[notifier_name]['enabled']:
-                continue
-            with handling_exceptions(swallow=True):
-                notifier_func(message)
+        self._notifying = True
+        try:
+            for notifier_name, notifier_func in self._notifiers.items():
+                if not this_config[notifier_name]['enabled']:
+                    continue
+                with handling_exceptions(swallow=True):
+                    notifier_func(message)
+        finally:
+            self._notifying = False
 
 
 def _escape_format(s):
-- 
2.43.0


From 8af416e7b8f936d70d4afced0f90129e48ff9f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:59 +0000
Subject: [PATCH 55/61] fix: exceptions which cannot be represented are
 swallowed like any others

---
 slash/exception_handling.py | 6 +++---
 slash/utils/python.py       | 7 +++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/slash/exception_handling.py b/slash/exception_handling.py
index 687b861..0c99309 100644
--- a/slash/exception_handling.py
+++ b/slash/exception_handling.py
@@ -4,7 +4,7 @@ from .utils.exception_mark import mark_exception, get_exception_mark
 from .utils.traceback_proxy import create_traceback_proxy
 from . import hooks as trigger_hook
 from . import exceptions
-from .utils.python import PYPY
+from .utils.python import PYPY, safe_repr
 from .ctx import context as slash_context
 from .conf import config
 
@@ -110,7 +110,7 @@ def preserving_interruptions():
     except Exception:  # pylint: disable=broad-except
         if propagated is None or isinstance(propagated, Exception):
             raise
-        _logger.debug('Exception raised while propagating {!r}', propagated, exc_info=True)
+        _logger.debug('Exception raised while propagating {}', safe_repr(propagated), exc_info=True)
 
 
 class _HandledException(object):
@@ -147,7 +147,7 @@ class _HandlingException(object):
         if isinstance(exc_value, skip_types) or isinstance(exc_value, exceptions.INTERRUPTION_EXCEPTIONS):
             return None
         if self._swallow_types and isinstance(exc_value, self._swallow_types):
-            _logger.trace('Swallowing {!r}', exc_value)
+            _logger.trace('Swallowing {}', safe_repr(exc_value))
             return True
         return None
 
diff --git a/slash/utils/python.py b/slash/utils/python.py
index 793494d..8c2afee 100644
--- a/slash/utils/python.py
+++ b/slash/utils/python.py
@@ -152,3 +152,10 @@ def safe_set_attribute(obj, name, value):
             obj.__dict__[name] = value
         except Exception:  # pylint: disable=broad-except
             _logger.debug("Failed to set attribute {!r} on {!r}", name, obj)
+
+
+def safe_repr(obj):
+    try:
+        return repr(obj)
+    except Exception:  # pylint: disable=broad-except
+        return '[Unprintable {} object]'.format(type(obj).__name__)
-- 
2.43.0


From 316c3a170680847e2c30350dc43560b056287881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:23 +0000
Subject: [PATCH 56/61] fix: the debugger is entered for exceptions which
 cannot be represented too

---
 slash/plugins/builtin/notifications.py | 3 ++-
 slash/reporting/console_reporter.py    | 8 ++++++--
 slash/utils/debug.py                   | 3 ++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/slash/plugins/builtin/notifications.py b/slash/plugins/builtin/notifications.py
index 4f3e620..18099c1 100644
--- a/slash/plugins/builtin/notifications.py
+++ b/slash/plugins/builtin/notifications.py
@@ -4,6 +4,7 @@ from ...conf import config
 from ...ctx import session
 from ...exception_handling import handling_exceptions
 from ...utils.conf_utils import Cmdline
+from ...utils.python import safe_repr
 from slash.plugins import parallel_mode
 from email.mime.multipart import MIMEMultipart
 from email.mime.text import MIMEText
@@ -221,7 +222,7 @@ class Plugin(PluginInterface):
     def entering_debugger(self, exc_info):
         if not self.current_config.notify_on_pdb or self._notifying: # errors of notifications are not notified in turn
             return
-        self._notify_all(short_message=_escape_format(repr(exc_info[1])), is_pdb=True)
+        self._notify_all(short_message=_escape_format(safe_repr(exc_info[1])), is_pdb=True)
 
     def session_end(self):
         if session.duration < self.current_config.notification_threshold:
diff --git a/slash/reporting/console_reporter.py b/slash/reporting/console_reporter.py
index 13aabed..e3210ce 100644
--- a/slash/reporting/console_reporter.py
+++ b/slash/reporting/console_reporter.py
@@ -12,7 +12,7 @@ from ..conf import config
 from ..exceptions import CLI_ABORT_EXCEPTIONS
 from ..log import VERBOSITIES
 from ..utils.iteration import iteration
-from ..utils.python import wraps
+from ..utils.python import safe_repr, wraps
 from .reporter_interface import ReporterInterface
 
 # traceback levels
@@ -146,8 +146,12 @@ class ConsoleReporter(ReporterInterface):
 
     def report_before_debugger(self, exc_info):
         self.notify_before_console_output()
+        try:
+            description = str(exc_info[1])
+        except Exception:  # pylint: disable=broad-except
+            description = safe_repr(exc_info[1])
         self._terminal.write('Exception caught in debugger: {} {}\n'.format(
-            exc_info[0], exc_info[1]), **theme('inline-error'))
+            exc_info[0], description), **theme('inline-error'))
         self.notify_after_console_output()
 
     def report_collection_start(self):
diff --git a/slash/utils/debug.py b/slash/utils/debug.py
index 5afcafd..97c04c8 100644
--- a/slash/utils/debug.py
+++ b/slash/utils/debug.py
@@ -8,6 +8,7 @@ from ..conf import config
 from ..ctx import context
 from .. import exceptions
 from .pattern_matching import Matcher
+from .python import safe_repr
 
 import warnings
 
@@ -67,7 +68,7 @@ def debug_if_needed(exc_info=None):
     if isinstance(exc_info[1], (SystemExit,) + exceptions.INTERRUPTION_EXCEPTIONS):
         return
 
-    exc_repr = repr(exc_info[1])
+    exc_repr = safe_repr(exc_info[1])
     matchers = [Matcher(s) for s in config.root.debug.filter_strings]
     if matchers and not all(matcher.matches(exc_repr) for matcher in matchers):
         return
-- 
2.43.0


From 89c03fc55b2792d2478ae9332ee0d12d4b6e965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:19 +0000
Subject: [PATCH 57/61] fix: errors of exceptions and objects which cannot be
 represented are recorded

---
 slash/core/error.py  | 8 ++++----
 slash/core/result.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/slash/core/error.py b/slash/core/error.py
index ea59558..f446a14 100644
--- a/slash/core/error.py
+++ b/slash/core/error.py
@@ -10,7 +10,7 @@ from ..conf import config
 from ..exception_handling import is_exception_fatal, get_exception_frame_correction
 from ..exceptions import FAILURE_EXCEPTION_TYPES
 from ..utils.formatter import Formatter
-from ..utils.python import is_picklable, safe_set_attribute
+from ..utils.python import is_picklable, safe_repr, safe_set_attribute
 from ..utils.traceback_utils import distill_call_stack, distill_traceback, distill_object_attributes
 
 
@@ -30,7 +30,7 @@ class Error(object):
             msg = traceback.format_exception_only(exc_info[0], exc_info[1])[0].strip()
         if not isinstance(msg, str):
             self.arg = msg
-            msg = repr(msg)
+            msg = safe_repr(msg)
         self.message = msg
         #: A string representation of the exception caught, if exists
         self.exception_str = exception = None
@@ -39,7 +39,7 @@ class Error(object):
         self.exc_info = exc_info
         if exc_info is not None:
             self.exception_type, exception, tb = exc_info  # pylint: disable=unpacking-non-sequence
-            self.exception_str = repr(exception)
+            self.exception_str = safe_repr(exception)
             self._exception_attributes = distill_object_attributes(exception, truncate=False)
             self.traceback = distill_traceback(
                 tb, frame_correction=get_exception_frame_correction(exception))
@@ -66,7 +66,7 @@ class Error(object):
             if key in returned and not is_picklable(returned[key]):
                 returned[key] = None
         if self._exception_attributes is not None:
-            returned['_exception_attributes'] = {key: value if is_picklable(value) else repr(value)
+            returned['_exception_attributes'] = {key: value if is_picklable(value) else safe_repr(value)
                                                  for key, value in self._exception_attributes.items()}
         return returned
 
diff --git a/slash/core/result.py b/slash/core/result.py
index 29d9830..857c48e 100644
--- a/slash/core/result.py
+++ b/slash/core/result.py
@@ -15,7 +15,7 @@ from ..exception_handling import capture_sentry_exception, handling_exceptions
 from .. import exceptions
 from ..utils.exception_mark import ExceptionMarker
 from ..utils.interactive import notify_if_slow_context
-from ..utils.python import is_picklable, unpickle
+from ..utils.python import is_picklable, safe_repr, unpickle
 from .details import Details
 from .error import Error
 
@@ -59,7 +59,7 @@ class Result(object):
         for key, value in vars(self).items():
             if key not in Result.pickle_key_blacklist:
                 if key == '_skips':
-                    value = [reason if is_picklable(reason) else repr(reason) for reason in value]
+                    value = [reason if is_picklable(reason) else safe_repr(reason) for reason in value]
                 try:
                     serialized_object[key] = pickle.dumps(value)
                 except Exception:  # pylint: disable=broad-except
-- 
2.43.0


From aaf3e7c159321abd867ac3b07d78b5eee7776a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:01 +0000
Subject: [PATCH 58/61] fix: the debugger is not entered again on exit for an
 exception it has already been entered for

---
 slash/app.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slash/app.py b/slash/app.py
index 2f830de..783fdad 100644
--- a/slash/app.py
+++ b/slash/app.py
@@ -13,7 +13,7 @@ from .core.session import Session
 from .reporting.console_reporter import ConsoleReporter
 from . import exceptions
 from .exceptions import TerminatedException, SlashException
-from .exception_handling import handling_exceptions, inhibit_unhandled_exception_traceback, should_inhibit_unhandled_exception_traceback
+from .exception_handling import handling_exceptions, is_exception_handled, inhibit_unhandled_exception_traceback, should_inhibit_unhandled_exception_traceback
 from .loader import Loader
 from .log import ConsoleHandler
 from .utils import cli_utils
@@ -153,7 +153,8 @@ class Application(object):
     def _handle_exit_exception(self, exc_info):
         exc_type, exc_value, _ = exc_info
         try:
-            debug_if_needed(exc_info)
+            if exc_value is not None and not is_exception_handled(exc_value): # otherwise the debugger has already been entered for it
+                debug_if_needed(exc_info)
         except Exception as e:  # pylint: disable=broad-except
             _logger.error("Failed to debug_if_needed: {!r}", e, exc_info=True, extra={'capture': False})
         if exc_value is not None:
-- 
2.43.0


From e08b6e92c95776533e5cfeac381b7443c2d52582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:36 +0000
Subject: [PATCH 59/61] fix: errors of hook handlers raised while handling an
 exception of a cleanup are recorded

---
 slash/core/cleanup_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/slash/core/cleanup_manager.py b/slash/core/cleanup_manager.py
index c197ab3..fb9e3a1 100644
--- a/slash/core/cleanup_manager.py
+++ b/slash/core/cleanup_manager.py
@@ -5,7 +5,7 @@ from sentinels import Sentinel
 
 from .. import hooks
 from ..ctx import context
-from ..exception_handling import handling_exceptions
+from ..exception_handling import handling_exceptions, is_exception_handled
 from ..exceptions import CannotAddCleanup, IncorrectScope, INTERRUPTION_EXCEPTIONS, SlashInternalError
 
 _logger = logbook.Logger(__name__)
@@ -182,6 +182,8 @@ class _DeferredExceptions(object):
     def __exit__(self, exc_type, exc_value, exc_tb):
         if exc_value is not None and not isinstance(exc_value, Exception):
             self._exceptions.append(exc_value)
+        elif exc_value is not None and not is_exception_handled(exc_value): # raised while handling another exception
+            context.result.add_exception((exc_type, exc_value, exc_tb))
         return True
 
     def is_interrupted(self):
-- 
2.43.0


From 11c5d25af00f5c19240e7c45fca4b76feffe89c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:26 +0000
Subject: [PATCH 60/61] fix: an error of a result_summary handler is recorded

---
 slash/app.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slash/app.py b/slash/app.py
index 783fdad..c52fc97 100644
--- a/slash/app.py
+++ b/slash/app.py
@@ -173,7 +173,8 @@ class Application(object):
                 self._interrupted = True
 
         if exc_type is not None:
-            trigger_hook.result_summary() # pylint: disable=no-member
+            with handling_exceptions():
+                trigger_hook.result_summary() # pylint: disable=no-member
 
     def _is_session_unsuccessful(self):
         if self.session is None or not self.session.results.global_result.is_started():
-- 
2.43.0


From 8bf36f7209bf63dd2e75989b543c094d9fd88d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:38 +0000
Subject: [PATCH 61/61] fix: an error of a session_interrupt handler is
 recorded and does not replace the interruption

---
 slash/core/session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slash/core/session.py b/slash/core/session.py
index 5b901f4..1c482c2 100644
--- a/slash/core/session.py
+++ b/slash/core/session.py
@@ -124,7 +124,8 @@ class Session(Activatable):
             self._started = True
             yield
         except exceptions.INTERRUPTION_EXCEPTIONS:
-            hooks.session_interrupt() # pylint: disable=no-member
+            with handling_exceptions(swallow=True):
+                hooks.session_interrupt() # pylint: disable=no-member
             raise
         finally:
             self._started = False
-- 
2.43.0

