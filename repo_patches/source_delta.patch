From 4fb35cc5d1f60f22368b583d0bcbf7fdd0b142ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 01/34] fix: accept an open file as standard input, as
 documented

---
 shellous/runner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 0d74355..3c77558 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -285,6 +285,9 @@ class _RunOptions:
             # Shellous-supported input classes.
             assert stdin == asyncio.subprocess.PIPE
             assert input_bytes is None
+        elif isinstance(input_, io.IOBase):
+            # Client-managed File-like object.
+            stdin = input_
         else:
             raise TypeError(f"unsupported input type: {input_!r}")
 
-- 
2.43.0


From f7713534ee60ac605ab6c987989869081be3aecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 02/34] fix: an empty exit_codes container allows no exit code

---
 shellous/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shellous/result.py b/shellous/result.py
index e35e71e..b783a21 100644
--- a/shellous/result.py
+++ b/shellous/result.py
@@ -107,7 +107,7 @@ def check_result(
     ):
         raise asyncio.CancelledError()
 
-    exit_codes = options.exit_codes or {0}
+    exit_codes = {0} if options.exit_codes is None else options.exit_codes
     if (cancelled and not timed_out) or result.exit_code not in exit_codes:
         raise ResultError(result)
 
-- 
2.43.0


From 885576d9ebd16ac2f5907efe10d9aefb89b16acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 03/34] fix: compare a pipeline result by its own exit code

---
 shellous/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shellous/result.py b/shellous/result.py
index b783a21..26d05d1 100644
--- a/shellous/result.py
+++ b/shellous/result.py
@@ -135,7 +135,7 @@ def _compare_result(acc: Optional[Result], item: Result) -> Result:
     if acc is None:
         return item
     acc_key = (not acc.cancelled, acc.exit_code != 0)
-    item_key = (not item.cancelled, acc.exit_code != 0)
+    item_key = (not item.cancelled, item.exit_code != 0)
     if item_key >= acc_key:
         return item
     return acc
-- 
2.43.0


From b70c496314efb802fdd5c8314b3142ca7eda48fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 04/34] fix: never swallow a cancellation when leaving a run's
 block

---
 shellous/runner.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 3c77558..ca4dc06 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -871,13 +871,12 @@ class Runner:
         finally:
             self._stop_timer()  # failsafe just in case
             self._audit_callback("stop")
-        # If `timeout` expired, raise TimeoutError rather than CancelledError.
-        if (
-            self._cancelled
-            and self._timed_out
-            and not self.command.options._catch_cancelled_error
-        ):
-            raise asyncio.TimeoutError()
+        if self._cancelled and not self.command.options._catch_cancelled_error:
+            # If `timeout` expired, raise TimeoutError rather than CancelledError.
+            if self._timed_out:
+                raise asyncio.TimeoutError()
+            # Never swallow a request to cancel the current task.
+            raise asyncio.CancelledError()
         return suppress
 
     @log_method(LOG_DETAIL)
@@ -1115,6 +1114,9 @@ class PipeRunner:
         except asyncio.CancelledError:
             LOGGER.warning("PipeRunner cancelled inside _finish %r", self)
             self._cancelled = True
+        if self._cancelled and not self.options._catch_cancelled_error:
+            # Never swallow a request to cancel the current task.
+            raise asyncio.CancelledError()
         return suppress
 
     @log_method(LOG_DETAIL)
-- 
2.43.0


From 43bb1a9be94e1eb7555a9a020029c41dfea4788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 05/34] fix: take back the cancel request of an expired timeout

---
 shellous/runner.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index ca4dc06..c14eec0 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -406,6 +406,7 @@ class Runner:
     _cancelled: bool = False
     _timer: Optional[asyncio.TimerHandle] = None
     _timed_out: bool = False
+    _cancelling: int = 0
     _last_signal: Optional[int] = None
 
     def __init__(self, command: "shellous.Command[Any]"):
@@ -772,6 +773,8 @@ class Runner:
             loop = asyncio.get_running_loop()
             task = asyncio.current_task()
             assert task is not None
+            if sys.version_info >= (3, 11):
+                self._cancelling = task.cancelling()
             self._timer = loop.call_later(
                 timeout,
                 self._set_timer_expired,
@@ -789,6 +792,16 @@ class Runner:
             self._timer.cancel()
             self._timer = None
 
+    def _take_back_cancel(self) -> bool:
+        """Take back the cancel request made by the expired timer.
+
+        Return False if someone else asked to cancel the current task also.
+        """
+        task = asyncio.current_task()
+        if task is not None and sys.version_info >= (3, 11):
+            return task.uncancel() <= self._cancelling
+        return True
+
     def _setup_input_source(
         self,
         stream: asyncio.StreamWriter,
@@ -871,9 +884,10 @@ class Runner:
         finally:
             self._stop_timer()  # failsafe just in case
             self._audit_callback("stop")
+        timed_out = self._timed_out and self._take_back_cancel()
         if self._cancelled and not self.command.options._catch_cancelled_error:
             # If `timeout` expired, raise TimeoutError rather than CancelledError.
-            if self._timed_out:
+            if timed_out:
                 raise asyncio.TimeoutError()
             # Never swallow a request to cancel the current task.
             raise asyncio.CancelledError()
-- 
2.43.0


From cc9075f807ee3cc2c0867648581dc8e7ad4bd461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 06/34] fix: a capturing pipeline never hangs when a command
 fails to launch

---
 shellous/runner.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index c14eec0..a637b34 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1158,6 +1158,9 @@ class PipeRunner:
 
             cmds = self._setup_pipeline(open_fds)
 
+            # From now on, each command closes its own file descriptors.
+            open_fds.clear()
+
             if self._capturing:
                 stdin, stdout, stderr = await self._setup_capturing(cmds)
             else:
@@ -1208,10 +1211,14 @@ class PipeRunner:
         middle_coros = [cmd.coro() for cmd in cmds[1:-1]]
 
         # Tag each task name with the index of the command in the pipe.
-        self.add_task(first_coro, "0")
+        first_task = self.add_task(first_coro, "0")
         for i, coro in enumerate(middle_coros):
             self.add_task(coro, str(i + 1))
-        self.add_task(last_coro, str(len(cmds) - 1))
+        last_task = self.add_task(last_coro, str(len(cmds) - 1))
+
+        # A command that fails to launch will never be ready.
+        first_task.add_done_callback(lambda task: _launch_failed(task, first_fut))
+        last_task.add_done_callback(lambda task: _launch_failed(task, last_fut))
 
         # When capturing, we need the first and last commands in the
         # pipe to signal when they are ready.
@@ -1260,6 +1267,17 @@ class PipeRunner:
         return result.output
 
 
+def _launch_failed(task: asyncio.Task[Any], ready: asyncio.Future[Runner]):
+    "Pass the exception of a command that did not launch to its `ready` future."
+    if not ready.done():
+        if task.cancelled():
+            ready.cancel()
+        else:
+            ex = task.exception()
+            assert ex is not None
+            ready.set_exception(ex)
+
+
 def _uses_process_substitution(cmd: "shellous.Command[Any]") -> bool:
     "Return True if command uses process substitution."
     return any(
-- 
2.43.0


From dc07febea176044be3b81eebdcdaff13c6f91125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 07/34] fix: iterating a pipeline raises the error of a failed
 middle command

---
 shellous/pipeline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shellous/pipeline.py b/shellous/pipeline.py
index 7f5b608..697960a 100644
--- a/shellous/pipeline.py
+++ b/shellous/pipeline.py
@@ -240,3 +240,5 @@ class Pipeline(Generic[_RT]):
         async with PipeRunner(self, capturing=True) as run:
             async for line in run:
                 yield line
+        # Raise the exception of any command that did not launch.
+        run.result(check=False)
-- 
2.43.0


From d1ff8225936924f809e2af5ee0584b5dffb7b2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 08/34] fix: report the real exit status when a signal was sent
 after the exit

---
 shellous/runner.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index a637b34..b59dfc7 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -3,6 +3,7 @@
 import asyncio
 import io
 import os
+import signal
 import sys
 from logging import Logger
 from pathlib import Path
@@ -30,7 +31,6 @@ from shellous.util import (
 
 _KILL_TIMEOUT = 3.0
 _CLOSE_TIMEOUT = 0.25
-_UNKNOWN_EXIT_CODE = 255
 
 EVENT_SHELLOUS_EXEC = "shellous.exec"
 """Audit event raised by sys.audit() when shellous runs a subprocess.
@@ -407,7 +407,6 @@ class Runner:
     _timer: Optional[asyncio.TimerHandle] = None
     _timed_out: bool = False
     _cancelling: int = 0
-    _last_signal: Optional[int] = None
 
     def __init__(self, command: "shellous.Command[Any]"):
         self._options = _RunOptions(command)
@@ -443,13 +442,7 @@ class Runner:
                 # The process was cancelled before starting.
                 return CANCELLED_EXIT_CODE
             return None
-        code = self._proc.returncode
-        if code == _UNKNOWN_EXIT_CODE and self._last_signal is not None:
-            # After sending a signal, `waitpid` may fail to locate the child
-            # process. In this case, map the status to the last signal we sent.
-            # For more on this, see https://github.com/python/cpython/issues/87744
-            return -self._last_signal  # pylint: disable=invalid-unary-operand-type
-        return code
+        return self._proc.returncode
 
     @property
     def cancelled(self) -> bool:
@@ -600,11 +593,20 @@ class Runner:
             LOGGER.debug("Runner.signal %r signal=%r", self, sig)
         self._audit_callback("signal", signal=sig)
 
-        if sig is None:
-            self._proc.kill()
-        else:
-            self._proc.send_signal(sig)
-            self._last_signal = sig
+        if sys.platform == "win32":
+            if sig is None:
+                self._proc.kill()
+            else:
+                self._proc.send_signal(sig)
+            return
+
+        # `Popen.send_signal` polls the process first. If the process has exited
+        # already, that would steal its exit status from the child watcher. For
+        # more on this, see https://github.com/python/cpython/issues/87744
+        try:
+            os.kill(self._proc.pid, signal.SIGKILL if sig is None else sig)
+        except ProcessLookupError:
+            pass
 
     @log_method(LOG_DETAIL)
     async def _kill_wait(self):
-- 
2.43.0


From 76dc4cb56c43014ded5b7cd0b587da72f9771b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 09/34] fix: close every descriptor when a command fails to
 launch

---
 shellous/pty_util.py | 24 +++++++++++--------
 shellous/runner.py   | 56 ++++++++++++++++++++++++++++++--------------
 shellous/util.py     |  7 ++++--
 3 files changed, 57 insertions(+), 30 deletions(-)

diff --git a/shellous/pty_util.py b/shellous/pty_util.py
index b3413d0..33536f6 100644
--- a/shellous/pty_util.py
+++ b/shellous/pty_util.py
@@ -82,16 +82,20 @@ def open_pty(pty_func: PtyAdapterOrBool) -> PtyFds:
     "Open pseudo-terminal (pty) descriptors. Returns (PtyFds, child_fd)."
     parent_fd, child_fd = pty.openpty()
 
-    # If pty_func is a callable, call it here with `child_fd` as argument. This
-    # gives the client an opportunity to configure the tty.
-    if callable(pty_func):
-        pty_func(child_fd)
-
-    return PtyFds(
-        parent_fd,
-        ChildFd(child_fd),
-        _get_eof(child_fd),
-    )
+    try:
+        # If pty_func is a callable, call it here with `child_fd` as argument.
+        # This gives the client an opportunity to configure the tty.
+        if callable(pty_func):
+            pty_func(child_fd)
+
+        return PtyFds(
+            parent_fd,
+            ChildFd(child_fd),
+            _get_eof(child_fd),
+        )
+    except BaseException:
+        close_fds([parent_fd, child_fd])
+        raise
 
 
 def set_ctty(ttypath: str) -> None:
diff --git a/shellous/runner.py b/shellous/runner.py
index b59dfc7..a7ea12b 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -8,7 +8,17 @@ import sys
 from logging import Logger
 from pathlib import Path
 from types import TracebackType
-from typing import Any, AsyncIterator, Coroutine, Optional, TextIO, TypeVar, Union, cast
+from typing import (
+    Any,
+    AsyncIterator,
+    Coroutine,
+    Iterable,
+    Optional,
+    TextIO,
+    TypeVar,
+    Union,
+    cast,
+)
 
 import shellous
 import shellous.redirect as redir
@@ -121,7 +131,7 @@ class _RunOptions:
         except Exception as ex:
             if LOG_DETAIL:
                 LOGGER.debug("_RunOptions.enter %r ex=%r", self.command.name, ex)
-            _cleanup(self.command)
+            _cleanup(self.command, *self.subcmds, open_fds=self.open_fds)
             raise
 
         assert _cmd is self.command, "self.command should remain unchanged"
@@ -142,8 +152,7 @@ class _RunOptions:
                     self.command.name,
                     exc_value,
                 )
-            for subcmd in self.subcmds:
-                _cleanup(subcmd)
+            _cleanup(*self.subcmds)
 
     def _setup_process_substitution(self) -> list[Union[str, bytes, os.PathLike[Any]]]:
         """Set up process substitution.
@@ -173,11 +182,12 @@ class _RunOptions:
 
             self.subcmds.append(subcmd)
 
-        # We need to include `new_fds` in our `pass_fds` list. We also need
-        # to close them after process launch.
+            # We need to close `new_fds` after process launch.
+            self.open_fds.append(new_fds[-1])
+
+        # We also need to include `new_fds` in our `pass_fds` list.
         self.kwd_args["pass_fds"] = new_fds
         self.kwd_args["close_fds"] = True
-        self.open_fds.extend(new_fds)
 
         if BSD_DERIVED:
             verify_dev_fd(new_fds[0])
@@ -696,8 +706,12 @@ class Runner:
             LOGGER.debug("Runner._start %r ex=%r", self, ex)
             if _is_cancelled(ex):
                 self._set_cancelled()
-            if self._proc:
-                await self._kill()
+            try:
+                if self._proc:
+                    await self._kill()
+            finally:
+                if self._options.pty_fds:
+                    self._options.pty_fds.close()
             raise
 
         # Make final streams available. These may be different from `self.proc`
@@ -1294,24 +1308,30 @@ def _is_multiple_capture(cmd: "shellous.Command[Any]"):
     return output == Redirect.CAPTURE and error == Redirect.CAPTURE
 
 
-def _cleanup(command: "Union[shellous.Command[Any], shellous.Pipeline[Any]]"):
+def _cleanup(
+    *commands: "Union[shellous.Command[Any], shellous.Pipeline[Any]]",
+    open_fds: Iterable[Any] = (),
+):
     "Close remaining file descriptors that need to be closed."
 
     def _add_close(close: bool, fdesc: Any):
         if close:
             if isinstance(fdesc, (int, io.IOBase)):
-                open_fds.append(fdesc)
+                fds.append(fdesc)
 
-    open_fds: list[Any] = []
+    fds: list[Any] = list(open_fds)
 
-    _add_close(command.options.input_close, command.options.input)
-    _add_close(command.options.output_close, command.options.output)
-    _add_close(command.options.error_close, command.options.error)
+    for item in commands:
+        # Pipelines need to check every command.
+        for command in getattr(item, "commands", (item,)):
+            _add_close(command.options.input_close, command.options.input)
+            _add_close(command.options.output_close, command.options.output)
+            _add_close(command.options.error_close, command.options.error)
 
-    if command.options.pass_fds_close:
-        open_fds.extend(command.options.pass_fds)
+            if command.options.pass_fds_close:
+                fds.extend(command.options.pass_fds)
 
-    close_fds(open_fds)
+    close_fds(fds)
 
 
 def _signame(signal: Any) -> str:
diff --git a/shellous/util.py b/shellous/util.py
index e3e23b3..cc39cca 100644
--- a/shellous/util.py
+++ b/shellous/util.py
@@ -57,12 +57,15 @@ class SupportsClose(Protocol):
 
 
 def close_fds(open_fds: Iterable[Union[SupportsClose, int]]) -> None:
-    "Close open file descriptors or file objects."
+    "Close open file descriptors or file objects, each exactly once."
+    closed: set[int] = set()
+
     with log_timer("close_fds"):
         try:
             for obj in open_fds:
                 if isinstance(obj, int):
-                    if obj >= 0:
+                    if obj >= 0 and obj not in closed:
+                        closed.add(obj)
                         try:
                             os.close(obj)
                         except OSError as ex:
-- 
2.43.0


From 1489f81e35f0269c4892ac4367cc34bb80d4403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 10/34] fix: close=True closes a file object after launch

---
 shellous/runner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index a7ea12b..b9d4383 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -298,6 +298,8 @@ class _RunOptions:
         elif isinstance(input_, io.IOBase):
             # Client-managed File-like object.
             stdin = input_
+            if close:
+                self.open_fds.append(stdin)
         else:
             raise TypeError(f"unsupported input type: {input_!r}")
 
@@ -348,6 +350,8 @@ class _RunOptions:
             # Client-managed File-like object.
             _set_position(output, append)
             stdout = output
+            if close:
+                self.open_fds.append(stdout)
         else:
             raise TypeError(f"unsupported output type: {output!r}")
 
-- 
2.43.0


From 3ba21b5a5c451128b23e60ea9138ea74a2e8cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 11/34] fix: equal environments have equal hashes

---
 shellous/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shellous/util.py b/shellous/util.py
index cc39cca..492293d 100644
--- a/shellous/util.py
+++ b/shellous/util.py
@@ -211,7 +211,7 @@ class EnvironmentDict(abc.Mapping[str, str]):
         return iter(self._data)
 
     def __hash__(self) -> int:
-        return hash(tuple((key, value) for key, value in self._data.items()))
+        return hash(frozenset(self._data.items()))
 
     def __eq__(self, rhs: object) -> bool:
         if isinstance(rhs, dict):
-- 
2.43.0


From 5fc5acd4c661f8b183f0c9f46d92718ccd7d5e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 12/34] fix: a pipeline that cannot create its pipes raises
 that error and closes everything

---
 shellous/runner.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index b9d4383..0ab3a78 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1131,7 +1131,8 @@ class PipeRunner:
             LOGGER.warning("PipeRunner enter %r ex=%r", self, ex)
             if _is_cancelled(ex):
                 self._cancelled = True
-            await self._wait(kill=True)
+            if self._tasks:
+                await self._wait(kill=True)
             raise
 
     @log_method(LOG_DETAIL)
@@ -1178,9 +1179,6 @@ class PipeRunner:
 
             cmds = self._setup_pipeline(open_fds)
 
-            # From now on, each command closes its own file descriptors.
-            open_fds.clear()
-
             if self._capturing:
                 stdin, stdout, stderr = await self._setup_capturing(cmds)
             else:
@@ -1194,8 +1192,10 @@ class PipeRunner:
             return self
 
         except BaseException:  # pylint: disable=broad-except
-            # Clean up after any exception *including* CancelledError.
-            close_fds(open_fds)
+            # Clean up after any exception *including* CancelledError. Once they
+            # are started, the commands close their own file descriptors.
+            if not self._tasks:
+                _cleanup(self._pipe, open_fds=open_fds)
             raise
 
     def _setup_pipeline(self, open_fds: list[int]):
-- 
2.43.0


From 8980afa4f0e8e151de3dc029e3128a63e0e12c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 13/34] fix: harvest finishes its tasks however often it is
 cancelled

---
 shellous/harvest.py | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index 0e71288..722ecb7 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -139,12 +139,18 @@ async def harvest_wait(
                 cancel_finish,
                 ex,
             )
-        await _cancel_wait(tasks, trustee, cancel_timeout, cancel_finish)
-        _consume_exceptions(tasks)
+        try:
+            await _cancel_wait(tasks, trustee, cancel_timeout, cancel_finish)
+        finally:
+            _consume_exceptions(tasks)
         raise
 
     if pending:
-        await _cancel_wait(pending, trustee, cancel_timeout)
+        try:
+            await _cancel_wait(pending, trustee, cancel_timeout)
+        except asyncio.CancelledError:
+            _consume_exceptions(tasks)
+            raise
 
     assert all(task.done() for task in tasks)
 
@@ -162,18 +168,26 @@ async def _cancel_wait(
     cancel_finish: bool = False,
 ):
     "Cancel tasks and wait for them to finish."
-    try:
-        if not cancel_finish:
-            # Cancel all tasks.
-            for task in tasks:
-                task.cancel()
+    if not cancel_finish:
+        # Cancel all tasks.
+        for task in tasks:
+            task.cancel()
 
-        await _cancel_waiter(tasks, trustee, cancel_timeout)
+    deadline = asyncio.get_running_loop().time() + cancel_timeout
+    cancelled = None
 
-    except asyncio.CancelledError:
-        # Retry once if _cancel_wait is itself cancelled.
-        LOGGER.warning("Harvest._cancel_wait cancelled itself trustee=%r", trustee)
-        await _cancel_waiter(tasks, trustee, cancel_timeout)
+    while True:
+        try:
+            await _cancel_waiter(tasks, trustee, cancel_timeout)
+            break
+        except asyncio.CancelledError as ex:
+            # Retry if _cancel_wait is itself cancelled, however often.
+            LOGGER.warning("Harvest._cancel_wait cancelled itself trustee=%r", trustee)
+            cancelled = ex
+            cancel_timeout = max(deadline - asyncio.get_running_loop().time(), 0.0)
+
+    if cancelled is not None:
+        raise cancelled
 
 
 async def _cancel_waiter(
@@ -217,8 +231,7 @@ def _to_result(task: asyncio.Task[Any]):
 def _consume_exceptions(tasks: Iterable[asyncio.Task[Any]]):
     "Consume exception for every done task to eliminate warning messages."
     for task in tasks:
-        assert task.done()
-        if not task.cancelled():
+        if task.done() and not task.cancelled():
             ex = task.exception()
             if ex and LOG_DETAIL:
                 LOGGER.debug("%r exception consumed %r", task.get_name(), ex)
-- 
2.43.0


From b4cd577bd8f6d15ccdf8a69c26e76048e5002405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 14/34] fix: close the pipes of a command that is cancelled
 while starting

---
 shellous/runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 0ab3a78..2a9d1cf 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -714,6 +714,8 @@ class Runner:
                 if self._proc:
                     await self._kill()
             finally:
+                if self._proc:
+                    self._proc._transport.close()  # pyright: ignore
                 if self._options.pty_fds:
                     self._options.pty_fds.close()
             raise
-- 
2.43.0


From f771f6926faa48f0344487766d66e723d03dc49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 15/34] fix: launching and killing complete even if cancelled
 more than once

---
 shellous/runner.py |  5 ++++-
 shellous/util.py   | 17 +++++++++++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 2a9d1cf..7e80b9c 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -633,7 +633,10 @@ class Runner:
 
         try:
             self._signal(None)
-            await harvest(self._waiter(), timeout=_KILL_TIMEOUT, trustee=self)
+            # Always completes even if cancelled.
+            await uninterrupted(
+                harvest(self._waiter(), timeout=_KILL_TIMEOUT, trustee=self)
+            )
         except asyncio.TimeoutError as ex:
             # Manually check if the process is still running.
             if poll_wait_pid(self._proc):
diff --git a/shellous/util.py b/shellous/util.py
index 492293d..c3d3e32 100644
--- a/shellous/util.py
+++ b/shellous/util.py
@@ -144,13 +144,18 @@ def poll_wait_pid(proc: Process) -> bool:
 async def uninterrupted(coro: Coroutine[Any, Any, _T]) -> _T:
     "Run a coroutine so it completes even if the current task is cancelled."
     task = asyncio.create_task(coro)
-    try:
-        return await asyncio.shield(task)
+    cancelled = None
+
+    while not task.done():
+        try:
+            await asyncio.wait([task])
+        except asyncio.CancelledError as ex:
+            cancelled = ex
 
-    except asyncio.CancelledError:
-        if not task.cancelled():
-            await task
-        raise
+    result = task.result()
+    if cancelled is not None:
+        raise cancelled
+    return result
 
 
 async def context_aenter(owner: object, ctxt_manager: AsyncContextManager[_T]) -> _T:
-- 
2.43.0


From 32ffdf8ec4b9ca8015232108f48ec1e3d6e5a04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:17 +0000
Subject: [PATCH 16/34] fix: never leave a pty half open when cancelled while
 starting

---
 shellous/runner.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 7e80b9c..1a20391 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -743,9 +743,9 @@ class Runner:
         "Start the subprocess."
         assert self._proc is None
 
-        # Second half of pty setup.
+        # Second half of pty setup (always completes even if cancelled).
         if opts.pty_fds:
-            opts.pty_fds = await opts.pty_fds.open_streams()
+            await uninterrupted(self._open_pty_streams(opts))
 
         # Check for task cancellation and yield right before exec'ing. If the
         # current task is already cancelled, this will raise a CancelledError,
@@ -760,6 +760,12 @@ class Runner:
         for cmd in opts.subcmds:
             self.add_task(cmd.coro(), "procsub")
 
+    @log_method(LOG_DETAIL)
+    async def _open_pty_streams(self, opts: _RunOptions):
+        "Open the pty streams and assign to `opts.pty_fds`."
+        assert opts.pty_fds is not None
+        opts.pty_fds = await opts.pty_fds.open_streams()
+
     @log_method(LOG_DETAIL)
     async def _subprocess_exec(self, opts: _RunOptions):
         "Start the subprocess and assign to `self.proc`."
-- 
2.43.0


From e073ecb5ea15ce0fc854ae9fce94cc32cb40a218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 17/34] fix: a cancelled run raises CancelledError, not the
 broken pipe it caused

---
 shellous/runner.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 1a20391..b94803e 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -26,7 +26,7 @@ from shellous import pty_util
 from shellous.harvest import harvest, harvest_results
 from shellous.log import LOG_DETAIL, LOGGER, log_method, log_timer
 from shellous.redirect import Redirect
-from shellous.result import Result, check_result, convert_result_list
+from shellous.result import Result, ResultError, check_result, convert_result_list
 from shellous.util import (
     BSD_DERIVED,
     SupportsClose,
@@ -716,6 +716,10 @@ class Runner:
             try:
                 if self._proc:
                     await self._kill()
+            except Exception as kill_ex:
+                LOGGER.debug("Runner._start %r kill_ex=%r", self, kill_ex)
+                if not self._ignore_error(kill_ex):
+                    raise
             finally:
                 if self._proc:
                     self._proc._transport.close()  # pyright: ignore
@@ -797,6 +801,17 @@ class Runner:
         self._cancelled = True
         self._stop_timer()
 
+    def _ignore_error(self, ex: Exception) -> bool:
+        """Return True if error should be ignored in favor of CancelledError.
+
+        When a process is killed, a broken pipe, truncated text or a failed process
+        substitution is just a consequence.
+        """
+        return self._cancelled and isinstance(
+            ex,
+            (BrokenPipeError, ConnectionResetError, UnicodeDecodeError, ResultError),
+        )
+
     def _start_timer(self, timeout: Optional[float]):
         "Start an optional timer to cancel the process if `timeout` desired."
         assert self._timer is None
@@ -912,6 +927,11 @@ class Runner:
         except asyncio.CancelledError:
             LOGGER.debug("Runner cancelled inside _finish %r", self)
             self._set_cancelled()
+        except Exception as ex:
+            LOGGER.debug("Runner error inside _finish %r ex=%r", self, ex)
+            if not self._ignore_error(ex):
+                raise
+            suppress = True
         finally:
             self._stop_timer()  # failsafe just in case
             self._audit_callback("stop")
-- 
2.43.0


From d34b76167f51eb3c10d3b268e39fba08297ec550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 18/34] fix: expect puts its match back when cancelled just
 after finding it

---
 shellous/prompt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shellous/prompt.py b/shellous/prompt.py
index 21e45af..fb81957 100644
--- a/shellous/prompt.py
+++ b/shellous/prompt.py
@@ -323,6 +323,10 @@ class Prompt:
             timeout=timeout or self._default_timeout,
         )
         if cancelled:
+            if isinstance(result, tuple):
+                # We were cancelled just after finding a match. Put it back.
+                output, match = result
+                self._pending = output + match[0] + self._pending
             raise asyncio.CancelledError()
         if isinstance(result, Exception):
             raise result
-- 
2.43.0


From f1edf0079bc6caf48a040b401a15bbbf84861e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 19/34] fix: Prompt.send reports a failed write or undecodable
 output instead of hiding it

---
 shellous/prompt.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/shellous/prompt.py b/shellous/prompt.py
index fb81957..6031cdd 100644
--- a/shellous/prompt.py
+++ b/shellous/prompt.py
@@ -7,7 +7,7 @@ import re
 from typing import Optional, Union
 
 from shellous import pty_util
-from shellous.harvest import harvest_results
+from shellous.harvest import harvest, harvest_results
 from shellous.log import LOG_PROMPT, LOGGER
 from shellous.result import Result
 from shellous.runner import PipeRunner, Runner
@@ -503,13 +503,12 @@ class Prompt:
         read_task = asyncio.create_task(
             self._read_some(tag="@drain", concurrent_cancel=True)
         )
-        try:
+
+        async def _drain_stream():
             await stream.drain()
+            read_task.cancel()
 
-        finally:
-            if not read_task.done():
-                read_task.cancel()
-                await read_task
+        await harvest(read_task, _drain_stream())
 
     async def _read_some(
         self,
-- 
2.43.0


From 743a610eeb9331eaf6c520c6b785aaf9e363c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:39 +0000
Subject: [PATCH 20/34] fix: a prompt timeout of zero overrides the default
 timeout

---
 shellous/prompt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shellous/prompt.py b/shellous/prompt.py
index 6031cdd..1c9a143 100644
--- a/shellous/prompt.py
+++ b/shellous/prompt.py
@@ -197,7 +197,7 @@ class Prompt:
         # Drain our write to stdin.
         cancelled, ex = await harvest_results(
             self._drain(stdin),
-            timeout=timeout or self._default_timeout,
+            timeout=self._default_timeout if timeout is None else timeout,
         )
         if cancelled:
             raise asyncio.CancelledError()
@@ -320,7 +320,7 @@ class Prompt:
 
         cancelled, (result,) = await harvest_results(
             self._read_to_pattern(prompt),
-            timeout=timeout or self._default_timeout,
+            timeout=self._default_timeout if timeout is None else timeout,
         )
         if cancelled:
             if isinstance(result, tuple):
@@ -345,7 +345,7 @@ class Prompt:
         if not self._at_eof:
             cancelled, (result,) = await harvest_results(
                 self._read_some(tag="@read_all"),
-                timeout=timeout or self._default_timeout,
+                timeout=self._default_timeout if timeout is None else timeout,
             )
             if cancelled:
                 raise asyncio.CancelledError()
-- 
2.43.0


From 23dabbc32099f23c4ca9e8294c1d3499288f7d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 21/34] fix: flatten reversed(list) arguments

reversed() of a list is a list_reverseiterator, not a reversed object, so
the list was passed as its repr().
---
 shellous/command.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/shellous/command.py b/shellous/command.py
index 2b896a2..fa3aa95 100644
--- a/shellous/command.py
+++ b/shellous/command.py
@@ -270,6 +270,9 @@ class Options:  # pylint: disable=too-many-instance-attributes
         return shutil.which(name, path=self.path)
 
 
+# The built-in function `reversed` returns a different type for lists.
+_ListReverseIterator = type(reversed([]))
+
 # Return type for a Command, CmdContext can be either `str` or `Result`.
 _RT = TypeVar("_RT", str, "shellous.Result")
 
@@ -815,7 +818,9 @@ def coerce(args: Iterable[Any], coerce_arg: _CoerceArgFnT) -> tuple[Any, ...]:
             result.append(bytes(arg))
         elif isinstance(arg, (io.StringIO, io.BytesIO)):
             result.append(arg.getvalue())
-        elif isinstance(arg, (list, tuple, reversed, enumerate, zip)):
+        elif isinstance(
+            arg, (list, tuple, reversed, _ListReverseIterator, enumerate, zip)
+        ):
             result.extend(
                 coerce(arg, None)  # pyright: ignore[reportUnknownArgumentType]
             )
-- 
2.43.0


From 8b8ba3457088d83a4f29e3d95fde9e05797d790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 22/34] fix: run the program found through an empty search path
 entry

---
 shellous/runner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index b94803e..22dd6f7 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -126,6 +126,9 @@ class _RunOptions:
                 found_executable = _cmd.options.which(executable)
                 if found_executable is None:
                     raise FileNotFoundError(executable)
+                if not os.path.dirname(found_executable):
+                    # Found in the current directory; don't search again.
+                    found_executable = os.path.abspath(found_executable)
                 self.pos_args[0] = found_executable
 
         except Exception as ex:
-- 
2.43.0


From e2f29c0dd90b06e91e26b35b6d66f5922a391f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:06 +0000
Subject: [PATCH 23/34] fix: release the pty when a run ends with unsent input

---
 shellous/pty_util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shellous/pty_util.py b/shellous/pty_util.py
index 33536f6..63dff9b 100644
--- a/shellous/pty_util.py
+++ b/shellous/pty_util.py
@@ -73,6 +73,10 @@ class PtyFds(NamedTuple):
             LOGGER.debug("PtyFds.close")
         self.child_fd.close()
         if self.writer:
+            # Discard unsent data; waiting for it would keep `parent_fd` open.
+            transport = self.writer.transport
+            if transport.get_write_buffer_size() > 0:
+                transport.abort()
             self.writer.close()
         else:
             close_fds([self.parent_fd])
-- 
2.43.0


From b30668d8b140bf084ad71a0657113fa6e4db8917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:53 +0000
Subject: [PATCH 24/34] fix: don't wait forever to send input to a pty whose
 child has exited

---
 shellous/pty_util.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/shellous/pty_util.py b/shellous/pty_util.py
index 63dff9b..a8a22c3 100644
--- a/shellous/pty_util.py
+++ b/shellous/pty_util.py
@@ -111,10 +111,29 @@ def set_ctty(ttypath: str) -> None:
     os.close(tmpfd)
 
 
+class PtyStreamWriterProtocol(asyncio.streams.FlowControlMixin):
+    "Custom subclass of FlowControlMixin for pty's."
+
+    pty__hangup: bool = False
+
+    def pause_writing(self) -> None:
+        "Don't let writers wait if nobody is left to read from the pty."
+        super().pause_writing()
+        if self.pty__hangup:
+            self.connection_lost(None)
+
+    def hangup(self) -> None:
+        "Called when the child's end of the pty is closed."
+        self.pty__hangup = True
+        if self._paused:
+            self.connection_lost(None)
+
+
 class PtyStreamReaderProtocol(asyncio.StreamReaderProtocol):
     "Custom subclass of StreamReaderProtocol for pty's."
 
     pty__child_fd: Optional[ChildFd] = None
+    pty__writer: Optional[PtyStreamWriterProtocol] = None
     pty__timer: Optional[asyncio.TimerHandle] = None  # Issue #378
 
     def connection_lost(self, exc: Optional[Exception]) -> None:
@@ -125,6 +144,8 @@ class PtyStreamReaderProtocol(asyncio.StreamReaderProtocol):
             self.pty__timer.cancel()
         if isinstance(exc, OSError) and exc.errno == errno.EIO:
             exc = None
+        if self.pty__writer is not None:
+            self.pty__writer.hangup()
         super().connection_lost(exc)
 
     if BSD_DERIVED:
@@ -172,9 +193,10 @@ async def _open_pty_streams(parent_fd: int, child_fd: ChildFd):
     )
 
     writer_transport, writer_protocol = await loop.connect_write_pipe(
-        asyncio.streams.FlowControlMixin,
+        PtyStreamWriterProtocol,
         os.fdopen(parent_fd, "wb", 0, closefd=True),
     )
+    reader_protocol.pty__writer = writer_protocol
     writer = asyncio.StreamWriter(writer_transport, writer_protocol, reader, loop)
 
     # Patch writer_transport.close so it also closes the reader_transport.
-- 
2.43.0


From 27733eb4a444e7c0d2ebd91a948fb4be3b829059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:53 +0000
Subject: [PATCH 25/34] fix: harvest_results leaves no exception unretrieved
 when it re-raises one

---
 shellous/harvest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index 722ecb7..eb7819f 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -85,6 +85,7 @@ async def harvest_results(
         )
     except asyncio.CancelledError:
         cancelled = True
+    _consume_exceptions(tasks)
     return cancelled, [_to_result(task) for task in tasks]
 
 
-- 
2.43.0


From 24d6caa059a108d43c9e24a6ae1605ef5c4d8c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 26/34] fix: an exception raised in a block is not replaced by
 consequences of stopping the run

---
 shellous/runner.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 22dd6f7..f51ed3f 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -804,13 +804,16 @@ class Runner:
         self._cancelled = True
         self._stop_timer()
 
-    def _ignore_error(self, ex: Exception) -> bool:
-        """Return True if error should be ignored in favor of CancelledError.
+    def _ignore_error(
+        self, ex: Exception, exc_value: Optional[BaseException] = None
+    ) -> bool:
+        """Return True if error should be ignored in favor of CancelledError, or
+        the exception `exc_value` that was raised by the caller.
 
         When a process is killed, a broken pipe, truncated text or a failed process
         substitution is just a consequence.
         """
-        return self._cancelled and isinstance(
+        return (self._cancelled or exc_value is not None) and isinstance(
             ex,
             (BrokenPipeError, ConnectionResetError, UnicodeDecodeError, ResultError),
         )
@@ -932,9 +935,9 @@ class Runner:
             self._set_cancelled()
         except Exception as ex:
             LOGGER.debug("Runner error inside _finish %r ex=%r", self, ex)
-            if not self._ignore_error(ex):
+            if not self._ignore_error(ex, exc_value):
                 raise
-            suppress = True
+            suppress = self._cancelled
         finally:
             self._stop_timer()  # failsafe just in case
             self._audit_callback("stop")
-- 
2.43.0


From ee0d771cdb2b7b53259761398a5c3cfd2b1c106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:17 +0000
Subject: [PATCH 27/34] fix: kill and reap a child when the watcher's strategy
 can't be created

If creating the epoll/kqueue strategy fails (e.g. EMFILE), add_child_handler
left the child running, and its exit was never reported. Treat it like any
other failure to watch the process.
---
 shellous/watcher.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/shellous/watcher.py b/shellous/watcher.py
index 36f3cf6..f8af0fc 100644
--- a/shellous/watcher.py
+++ b/shellous/watcher.py
@@ -61,11 +61,13 @@ class DefaultChildWatcher(
 
     _strategy: Optional[ChildStrategy]
     _lock: threading.Lock
+    _tasks: "_TaskSet"
 
     def __init__(self, *, thread_strategy: bool = False):
         "Initialize child watcher."
         self._strategy = None
         self._lock = threading.Lock()
+        self._tasks = _TaskSet()
 
         if thread_strategy:
             # Force use of ThreadStrategy for coverage test.
@@ -86,8 +88,14 @@ class DefaultChildWatcher(
         Note: callback() must be thread-safe.
         """
         if not self._strategy:  # ATOMIC: self._strategy
-            with self._lock:
-                self._init_strategy()
+            try:
+                with self._lock:
+                    self._init_strategy()
+            except Exception as ex:
+                # This can happen if the process runs out of file descriptors.
+                LOGGER.warning("_init_strategy failed pid=%r ex=%r", pid, ex)
+                _kill_pid(self._tasks, pid, callback, args)
+                raise
             assert self._strategy is not None  # (pyright)
 
         self._strategy.watch_pid(pid, callback, args)  # ATOMIC: self._strategy
@@ -306,11 +314,7 @@ class EPollStrategy(ChildStrategy):
 
         This can happen if the process runs out of file descriptors (EMFILE).
         """
-        try:
-            os.kill(pid, signal.SIGKILL)
-        except ProcessLookupError:
-            pass
-        self._tasks.create_task(_poll_dead_pid(pid, callback, args))
+        _kill_pid(self._tasks, pid, callback, args)
 
     @log_thread(LOG_DETAIL)
     def _run(self):
@@ -429,6 +433,20 @@ def _check_sigchld():
         raise RuntimeError("SIGCHLD cannot be set to SIG_IGN")
 
 
+def _kill_pid(
+    tasks: "_TaskSet",
+    pid: int,
+    callback: _CallbackType,
+    args: _CallbackArgsType,
+):
+    """Kill a pid that can't be watched, and poll for its exit status."""
+    try:
+        os.kill(pid, signal.SIGKILL)
+    except ProcessLookupError:
+        pass
+    tasks.create_task(_poll_dead_pid(pid, callback, args))
+
+
 async def _poll_dead_pid(
     pid: int,
     callback: _CallbackType,
-- 
2.43.0


From ea59f88b003ab2a3262feac88e4de73ad4e573d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:52 +0000
Subject: [PATCH 28/34] fix: format the exception given to __aexit__ in the log
 handler

With SHELLOUS_TRACE=detail, an exception whose repr() raises was replaced
by the exception from repr().
---
 shellous/log.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/shellous/log.py b/shellous/log.py
index 4b990bb..115745e 100644
--- a/shellous/log.py
+++ b/shellous/log.py
@@ -106,16 +106,20 @@ def log_method(enabled: bool) -> Callable[[_ANYFN], _ANYFN]:
                     return await func(*args, **kwargs)
                 finally:
                     if func.__name__ == "__aexit__":
-                        more_info = f" exc_value={args[2]!r}"
+                        _logger_info(
+                            "%s stepout %r ex=%r exc_value=%r",
+                            func.__qualname__,
+                            args[0],
+                            _exc(),
+                            args[2],
+                        )
                     else:
-                        more_info = ""
-                    _logger_info(
-                        "%s stepout %r ex=%r%s",
-                        func.__qualname__,
-                        args[0],
-                        _exc(),
-                        more_info,
-                    )
+                        _logger_info(
+                            "%s stepout %r ex=%r",
+                            func.__qualname__,
+                            args[0],
+                            _exc(),
+                        )
 
             return _method_wrapper
 
-- 
2.43.0


From eaa64a551d5f690dade9802e3481e150d8eed420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:07 +0000
Subject: [PATCH 29/34] fix: buffer standard error when sys.stdout and
 sys.stderr are the same object

_setup_output told stdout and stderr apart by comparing the stream it was
given with sys.stdout and sys.stderr. If both are the same object (or both
None), the stderr buffer was never created: its contents were lost, and the
command hung or failed an assertion.
---
 shellous/runner.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index f51ed3f..697c30c 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -14,7 +14,6 @@ from typing import (
     Coroutine,
     Iterable,
     Optional,
-    TextIO,
     TypeVar,
     Union,
     cast,
@@ -215,14 +214,14 @@ class _RunOptions:
             Redirect.from_default(options.output, 1, options.pty),
             options.output_append,
             options.output_close,
-            sys.stdout,
+            1,
         )
 
         stderr = self._setup_output(
             Redirect.from_default(options.error, 2, options.pty),
             options.error_append,
             options.error_close,
-            sys.stderr,
+            2,
         )
 
         # Set up PTY here. This is the first half. Second half in `Runner`.
@@ -308,7 +307,7 @@ class _RunOptions:
 
         return stdin, input_bytes
 
-    def _setup_output(self, output: Any, append: bool, close: bool, sys_stream: TextIO):
+    def _setup_output(self, output: Any, append: bool, close: bool, fdesc: int):
         "Set up process output. Used for both stdout and stderr."
         assert output is not None
 
@@ -320,20 +319,20 @@ class _RunOptions:
                 cast(os.PathLike[str], output), mode=mode
             )
             self.open_fds.append(stdout)
-        elif self.is_stderr_only and sys_stream == sys.stderr:
+        elif self.is_stderr_only and fdesc == 2:
             assert output == Redirect.STDOUT
             self.output_bytes = bytearray()
             assert stdout == asyncio.subprocess.PIPE
         elif isinstance(output, Redirect) and output.is_custom():
             # Custom support for Redirect constants.
             if output == Redirect.BUFFER:
-                if sys_stream == sys.stdout:
+                if fdesc == 1:
                     self.output_bytes = bytearray()
                 else:
                     self.error_bytes = bytearray()
                 assert stdout == asyncio.subprocess.PIPE
             elif output == Redirect.INHERIT:
-                stdout = sys_stream
+                stdout = sys.stdout if fdesc == 1 else sys.stderr
             else:
                 # CAPTURE uses stdout == PIPE.
                 assert output == Redirect.CAPTURE
-- 
2.43.0


From 516308e06f2e2c98fe43685a7ce98102b6d74c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:13 +0000
Subject: [PATCH 30/34] fix: raise the launch failure of every command when a
 captured pipeline is entered

Only the first and last commands of a pipeline were waited for. When a
command in the middle failed to launch, 'async for' (or a block) went on
waiting for the output of commands that were still running, possibly forever.
---
 shellous/runner.py | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 697c30c..5bcdd34 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1,6 +1,7 @@
 "Implements utilities to run a command."
 
 import asyncio
+import functools
 import io
 import os
 import signal
@@ -1259,26 +1260,20 @@ class PipeRunner:
     async def _setup_capturing(self, cmds: "list[shellous.Command[Any]]"):
         """Set up capturing and return (stdin, stdout, stderr) streams."""
         loop = asyncio.get_event_loop()
-        first_fut = loop.create_future()
-        last_fut = loop.create_future()
-
-        first_coro = cmds[0].coro(_run_future=first_fut)
-        last_coro = cmds[-1].coro(_run_future=last_fut)
-        middle_coros = [cmd.coro() for cmd in cmds[1:-1]]
-
-        # Tag each task name with the index of the command in the pipe.
-        first_task = self.add_task(first_coro, "0")
-        for i, coro in enumerate(middle_coros):
-            self.add_task(coro, str(i + 1))
-        last_task = self.add_task(last_coro, str(len(cmds) - 1))
-
-        # A command that fails to launch will never be ready.
-        first_task.add_done_callback(lambda task: _launch_failed(task, first_fut))
-        last_task.add_done_callback(lambda task: _launch_failed(task, last_fut))
-
-        # When capturing, we need the first and last commands in the
-        # pipe to signal when they are ready.
-        first_ready, last_ready = await asyncio.gather(first_fut, last_fut)
+        ready: list[asyncio.Future[Runner]] = []
+
+        for i, cmd in enumerate(cmds):
+            fut = loop.create_future()
+            ready.append(fut)
+            # Tag each task name with the index of the command in the pipe.
+            task = self.add_task(cmd.coro(_run_future=fut), str(i))
+            # A command that fails to launch will never be ready.
+            task.add_done_callback(functools.partial(_launch_failed, ready=fut))
+
+        # When capturing, we need every command in the pipe to signal when it
+        # is ready; the caller can't wait for a command that did not launch.
+        runners = await asyncio.gather(*ready)
+        first_ready, last_ready = runners[0], runners[-1]
 
         stdin, stdout, stderr = (
             first_ready.stdin,
-- 
2.43.0


From 0066a5f14452713a6b6e66e89ec9ab095d4c8fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:54 +0000
Subject: [PATCH 31/34] fix: keep the error of a pipeline whose wait failed, so
 that result() raises it again

---
 shellous/runner.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 5bcdd34..90d48b5 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1154,7 +1154,11 @@ class PipeRunner:
             for task in self._tasks:
                 task.cancel()
 
-        cancelled, self._results = await harvest_results(*self._tasks, trustee=self)
+        try:
+            cancelled, self._results = await harvest_results(*self._tasks, trustee=self)
+        except (AssertionError, RuntimeError) as ex:
+            self._results = [ex]  # result() will raise this error again
+            raise
         if cancelled:
             self._cancelled = True
         self._tasks.clear()  # clear all tasks when done
-- 
2.43.0


From c1ee525c6f541ccf8201b6f05a771bd51b89c0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:20 +0000
Subject: [PATCH 32/34] fix: close the remaining files of a run when closing
 one of them fails

---
 shellous/runner.py | 6 +++++-
 shellous/util.py   | 9 ++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 90d48b5..c014290 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -147,7 +147,11 @@ class _RunOptions:
         _exc_tb: Optional[TracebackType],
     ):
         "Make sure those file descriptors are cleaned up."
-        close_fds(self.open_fds)
+        try:
+            close_fds(self.open_fds)
+        except Exception:
+            _cleanup(*self.subcmds)
+            raise
         if exc_value:
             if LOG_DETAIL:
                 LOGGER.debug(
diff --git a/shellous/util.py b/shellous/util.py
index c3d3e32..b33d2a7 100644
--- a/shellous/util.py
+++ b/shellous/util.py
@@ -59,6 +59,7 @@ class SupportsClose(Protocol):
 def close_fds(open_fds: Iterable[Union[SupportsClose, int]]) -> None:
     "Close open file descriptors or file objects, each exactly once."
     closed: set[int] = set()
+    error: Optional[Exception] = None
 
     with log_timer("close_fds"):
         try:
@@ -71,11 +72,17 @@ def close_fds(open_fds: Iterable[Union[SupportsClose, int]]) -> None:
                         except OSError as ex:
                             LOGGER.warning("os.close ex=%r", ex, stack_info=True)
                 else:
-                    obj.close()
+                    try:
+                        obj.close()
+                    except Exception as ex:  # e.g. failed to flush
+                        error = error or ex
         finally:
             if isinstance(open_fds, (list, set)):
                 open_fds.clear()
 
+    if error is not None:
+        raise error
+
 
 def verify_dev_fd(fdesc: int) -> None:
     "Verify that /dev/fd file system exists and works."
-- 
2.43.0


From acb10bf87af2649eeda26554ca7ef2645f866981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:20 +0000
Subject: [PATCH 33/34] fix: raise the error of a command that failed to start,
 not its consequences

---
 shellous/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index c014290..41ad94b 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -725,7 +725,7 @@ class Runner:
                     await self._kill()
             except Exception as kill_ex:
                 LOGGER.debug("Runner._start %r kill_ex=%r", self, kill_ex)
-                if not self._ignore_error(kill_ex):
+                if not self._ignore_error(kill_ex, ex):
                     raise
             finally:
                 if self._proc:
-- 
2.43.0


From da413b54e0774ccd4973f02381f9d8cb8215c886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:35 +0000
Subject: [PATCH 34/34] fix: take back the cancel request of an expired timer
 also when an error ends the run

---
 shellous/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 41ad94b..31bc771 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -944,8 +944,8 @@ class Runner:
             suppress = self._cancelled
         finally:
             self._stop_timer()  # failsafe just in case
+            timed_out = self._timed_out and self._take_back_cancel()
             self._audit_callback("stop")
-        timed_out = self._timed_out and self._take_back_cancel()
         if self._cancelled and not self.command.options._catch_cancelled_error:
             # If `timeout` expired, raise TimeoutError rather than CancelledError.
             if timed_out:
-- 
2.43.0

