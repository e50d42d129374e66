From ec4db476ea0d2a4c6ac28ab0bb9db037a882b811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 01/32] fix: keep thread local values in the thread, so they
 end with it

The store was keyed by thread id and shared by all ThreadLocals, so a new thread (ids are reused) inherited the
pending callbacks of a finished one.
---
 src/deep/thread_local.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/deep/thread_local.py b/src/deep/thread_local.py
index 2180f62..84edc2c 100644
--- a/src/deep/thread_local.py
+++ b/src/deep/thread_local.py
@@ -25,8 +25,6 @@ T = TypeVar('T')
 class ThreadLocal(Generic[T]):
     """This type offers the ability to store a value based on the thread that accessed the value."""
 
-    __store = {}
-
     def __init__(self, default_provider: Callable[[], T] = lambda: None):
         """
         Create a new ThreadLocal value.
@@ -34,6 +32,7 @@ class ThreadLocal(Generic[T]):
         :param default_provider: a provider that will produce a default value
         """
         self.__default_provider = default_provider
+        self.__store = threading.local()
 
     def get(self) -> T:
         """
@@ -41,11 +40,10 @@ class ThreadLocal(Generic[T]):
 
         :return: the stored value, or the value from the default_provider
         """
-        current_thread = threading.current_thread()
-        get = self.__store.get(current_thread.ident, None)
+        get = getattr(self.__store, 'value', None)
         if get is None:
             get = self.__default_provider()
-            self.__store[current_thread.ident] = get
+            self.__store.value = get
         return get
 
     def set(self, val: T):
@@ -54,14 +52,12 @@ class ThreadLocal(Generic[T]):
 
         :param val: the value to store
         """
-        current_thread = threading.current_thread()
-        self.__store[current_thread.ident] = val
+        self.__store.value = val
 
     def clear(self):
         """Remove the value for this thread."""
-        current_thread = threading.current_thread()
-        if current_thread.ident in self.__store:
-            del self.__store[current_thread.ident]
+        if self.is_set:
+            del self.__store.value
 
     @property
     def is_set(self):
@@ -70,8 +66,7 @@ class ThreadLocal(Generic[T]):
 
         :return: True if there is a value for this thread
         """
-        current_thread = threading.current_thread()
-        return current_thread.ident in self.__store
+        return hasattr(self.__store, 'value')
 
     @property
     def value(self):
-- 
2.43.0


From 347af08073ee228e223330b92a24d435c517c28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 02/32] fix: do not change the application's logging, or raise
 its logging errors

fileConfig closes all existing handlers and reconfigures the root logger.
---
 src/deep/logging/__init__.py  | 38 +++++++++++++++++++++++++----------
 src/deep/logging/logging.conf | 27 -------------------------
 2 files changed, 27 insertions(+), 38 deletions(-)
 delete mode 100644 src/deep/logging/logging.conf

diff --git a/src/deep/logging/__init__.py b/src/deep/logging/__init__.py
index 3304150..d1f44a7 100644
--- a/src/deep/logging/__init__.py
+++ b/src/deep/logging/__init__.py
@@ -17,7 +17,15 @@
 
 import logging
 import logging.config
-import os
+import sys
+
+
+def __log(level, msg, *args, **kwargs):
+    # we log from within the application, so an error from a handler/filter cannot be allowed to get out
+    try:
+        getattr(logging.getLogger("deep"), level)(msg, *args, **kwargs)
+    except BaseException:  # nosec B110
+        pass
 
 
 def warning(msg, *args, **kwargs):
@@ -28,7 +36,7 @@ def warning(msg, *args, **kwargs):
     :param args:  the args for the log
     :param kwargs: the kwargs
     """
-    logging.getLogger("deep").warning(msg, *args, **kwargs)
+    __log("warning", msg, *args, **kwargs)
 
 
 def info(msg, *args, **kwargs):
@@ -39,7 +47,7 @@ def info(msg, *args, **kwargs):
     :param args:  the args for the log
     :param kwargs: the kwargs
     """
-    logging.getLogger("deep").info(msg, *args, **kwargs)
+    __log("info", msg, *args, **kwargs)
 
 
 def debug(msg, *args, **kwargs):
@@ -50,7 +58,7 @@ def debug(msg, *args, **kwargs):
     :param args:  the args for the log
     :param kwargs: the kwargs
     """
-    logging.getLogger("deep").debug(msg, *args, **kwargs)
+    __log("debug", msg, *args, **kwargs)
 
 
 def error(msg, *args, **kwargs):
@@ -61,7 +69,7 @@ def error(msg, *args, **kwargs):
     :param args:  the args for the log
     :param kwargs: the kwargs
     """
-    logging.getLogger("deep").error(msg, *args, **kwargs)
+    __log("error", msg, *args, **kwargs)
 
 
 def exception(msg, *args, exc_info=True, **kwargs):
@@ -73,7 +81,7 @@ def exception(msg, *args, exc_info=True, **kwargs):
     :param exc_info: include exc info in log
     :param kwargs: the kwargs
     """
-    logging.getLogger("deep").exception(msg, *args, exc_info=exc_info, **kwargs)
+    __log("exception", msg, *args, exc_info=exc_info, **kwargs)
 
 
 def init(cfg=None):
@@ -82,9 +90,17 @@ def init(cfg=None):
 
     :param cfg: the config for deep.
     """
-    log_conf = "%s/logging.conf" % os.path.dirname(os.path.realpath(__file__))
-
     if cfg is not None and cfg.LOGGING_CONF:
-        log_conf = cfg.LOGGING_CONF
-
-    logging.config.fileConfig(fname=log_conf, disable_existing_loggers=False)
+        logging.config.fileConfig(fname=cfg.LOGGING_CONF, disable_existing_loggers=False)
+        return
+
+    # fileConfig will change the root logger and close all existing handlers, which are owned by the application.
+    # So by default we only configure our own logger.
+    logger = logging.getLogger("deep")
+    if len(logger.handlers) == 0:
+        handler = logging.StreamHandler(sys.stdout)
+        handler.setLevel(logging.DEBUG)
+        handler.setFormatter(logging.Formatter("%(asctime)s - %(name)s - %(levelname)s - %(message)s"))
+        logger.addHandler(handler)
+    logger.setLevel(logging.DEBUG)
+    logger.propagate = False
diff --git a/src/deep/logging/logging.conf b/src/deep/logging/logging.conf
deleted file mode 100644
index bf7c1c5..0000000
--- a/src/deep/logging/logging.conf
+++ /dev/null
@@ -1,27 +0,0 @@
-[loggers]
-keys=root,deep
-
-[handlers]
-keys=consoleHandler
-
-[formatters]
-keys=deepFormatter
-
-[logger_root]
-level=DEBUG
-handlers=consoleHandler
-
-[logger_deep]
-level=DEBUG
-handlers=consoleHandler
-qualname=deep
-propagate=0
-
-[handler_consoleHandler]
-class=StreamHandler
-level=DEBUG
-formatter=deepFormatter
-args=(sys.stdout,)
-
-[formatter_deepFormatter]
-format=%(asctime)s - %(name)s - %(levelname)s - %(message)s
\ No newline at end of file
-- 
2.43.0


From fedda82c513160861d3fd4dc3527eb19f85a6d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 03/32] fix: install/restore the trace hooks exactly once and
 never raise from the trace function

A second start lost the original hooks, NO_TRACE (also as text from the environment) still had the hooks replaced on
shutdown, threads kept acting after shutdown, and an error finding locations was raised into the application.
---
 src/deep/processor/trigger_handler.py | 44 +++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index e049359..a402293 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -37,6 +37,7 @@ from deep.processor.context.callback_context import CallbackContext
 from deep.processor.context.trigger_context import TriggerContext
 from deep.push import PushService
 from deep.thread_local import ThreadLocal
+from deep.utils import str2bool
 
 if TYPE_CHECKING:
     from deep.processor.context.action_context import ActionContext
@@ -88,6 +89,9 @@ class TriggerHandler:
         """
         self.__old_thread_trace = None
         self.__old_sys_trace = None
+        self.__start_thread = None
+        self.__installed = False
+        self.__stopped = False
         self._push_service = push_service
         self._tp_config: List[Trigger] = []
         self._config = config
@@ -95,15 +99,21 @@ class TriggerHandler:
         self._callbacks: ThreadLocal[Deque[CallbackContext]] = ThreadLocal(lambda: deque())
 
     def start(self):
-        """Start the trigger handler."""
+        """Start the trigger handler, this does nothing if the handler is already installed."""
+        if self.__installed:
+            return
         # if we call settrace we cannot use debugger,
         # so we allow the settrace to be disabled, so we can at least debug around it
-        if self._config.NO_TRACE:
+        # (the value is text when it comes from the environment)
+        if str2bool(str(self._config.NO_TRACE)):
             return
+        self.__stopped = False
         self.__old_sys_trace = sys.gettrace()
         # gettrace was added in 3.10, so use it if we can, else try to get from property
         # noinspection PyUnresolvedReferences,PyProtectedMember
         self.__old_thread_trace = threading.gettrace() if hasattr(threading, 'gettrace') else threading._trace_hook
+        self.__start_thread = threading.get_ident()
+        self.__installed = True
         sys.settrace(self.trace_call)
         threading.settrace(self.trace_call)
 
@@ -135,6 +145,19 @@ class TriggerHandler:
         :param arg: the args
         :return: None to ignore other calls, or our self to continue
         """
+        # once we are shutdown there might still be threads that have us as their trace function
+        if self.__stopped:
+            self.__restore_thread()
+            return None
+
+        # no failure in here can be allowed to reach the application (or to make python disable tracing for the thread)
+        try:
+            return self.__process_event(frame, event, arg)
+        except BaseException:
+            logging.exception("Cannot process event %s", event)
+        return self.trace_call
+
+    def __process_event(self, frame: FrameType, event: str, arg):
         event, file, line, function = self.location_from_event(event, frame)
         trigger_context = TriggerContext(self._config, self._push_service, frame, event, arg)
 
@@ -217,11 +240,26 @@ class TriggerHandler:
         function = frame.f_code.co_name
         return event, filename, line, function
 
+    def __restore_thread(self):
+        # settrace only affects the calling thread, so if we were shutdown from another thread then
+        # the thread that called start has to put back its own trace function
+        if threading.get_ident() == self.__start_thread and sys.gettrace() == self.trace_call:
+            self.__start_thread = None
+            sys.settrace(self.__old_sys_trace)
+
     def shutdown(self):
         """
         Shutdown this handler.
 
         Reset the settrace to the previous values.
         """
-        sys.settrace(self.__old_sys_trace)
+        self.__stopped = True
+        if not self.__installed:
+            return
+        self.__installed = False
+        if threading.get_ident() == self.__start_thread:
+            self.__start_thread = None
+            sys.settrace(self.__old_sys_trace)
+        elif sys.gettrace() == self.trace_call:
+            sys.settrace(None)
         threading.settrace(self.__old_thread_trace)
-- 
2.43.0


From 09703d3ef6710e187e97526052ce92416e9707cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 04/32] fix: complete deferred work with the invocation that
 opened it

Callbacks were matched by file and function name only (recursion completed the wrong one), a handled exception was
taken as the end of the function, a single failing callback lost the others, and only one could complete per event.
---
 .../processor/context/callback_context.py     | 123 ++++++++++++++++--
 src/deep/processor/trigger_handler.py         |  43 +++---
 2 files changed, 135 insertions(+), 31 deletions(-)

diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index 09f653d..fd33f36 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -14,9 +14,12 @@
 #      along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 """Handling for action callbacks."""
+import dis
+import sys
 from types import FrameType
-from typing import List
+from typing import List, Optional
 
+from deep import logging
 from deep.api.tracepoint.trigger import Location
 
 from deep.processor.context.action_results import ActionCallback
@@ -31,14 +34,52 @@ class CallbackContext(Location, ActionCallback):
     to close when the line/method completes.
     """
 
-    def __init__(self, event: str, filename: str, line: int, name: str, callbacks: List['ActionCallback']):
-        """Create new callback context."""
+    def __init__(self, event: str, filename: str, line: int, name: str, callbacks: List['ActionCallback'],
+                 frame: Optional[FrameType] = None):
+        """
+        Create new callback context.
+
+        :param event: the event that created the callbacks
+        :param filename: the file name
+        :param line: the line number
+        :param name: the function name
+        :param callbacks: the callbacks to call
+        :param frame: the frame that created the callbacks
+        """
         super().__init__(Location.Position.END)
         self.__event = event
         self.__filename = filename
         self.__function_name = name
         self.__line = line
         self.__callbacks = callbacks
+        self.__frame = frame
+        self.__raised = []
+        self.__raised_at = -1
+
+    def observe(self, event: str, frame: FrameType, arg: any):
+        """
+        Track the exceptions raised in the function we are waiting for.
+
+        When a function ends with an error the 'return' event has no value, and we have to know what was raised. The
+        'exception' event cannot be used as the end of the function, as the function can still handle the exception.
+
+        :param event: the current event
+        :param frame: the current frame
+        :param arg: the arg from settrace
+        """
+        if frame is not self.__frame or self.__event == 'line':
+            return
+        if event == 'exception':
+            self.__raised.append(arg)
+            self.__raised_at = frame.f_lasti
+        elif event == 'line' and len(self.__raised) > 0 and self.__instruction(frame) != 'PUSH_EXC_INFO':
+            # any exception that is not being handled here cannot be the one that ends the function
+            handling = []
+            exception = sys.exc_info()[1]
+            while exception is not None and not any(exception is known for known in handling):
+                handling.append(exception)
+                exception = exception.__context__
+            self.__raised = [raised for raised in self.__raised if any(raised[1] is known for known in handling)]
 
     def at_location(self, event: str, file: str, line: int, function_name: str, frame: FrameType) -> bool:
         """
@@ -55,10 +96,28 @@ class CallbackContext(Location, ActionCallback):
         if file != self.__filename or function_name != self.__function_name:
             return False
 
+        # there can be many invocations of the same function (recursion, other functions with the same name),
+        # we only end with the one that we started with
+        is_same = self.__is_same_invocation(frame)
+        if not is_same and self.__is_running(frame):
+            return False
+
         if self.__event == 'line':
             return self.__check_at_next_line(event, file, function_name)
         else:
-            return self.__check_at_method_end(event)
+            return self.__check_at_method_end(event, is_same)
+
+    def __is_same_invocation(self, frame: FrameType) -> bool:
+        return self.__frame is None or frame is self.__frame
+
+    def __is_running(self, frame: FrameType) -> bool:
+        if frame.f_code is not self.__frame.f_code:
+            return True
+        while frame is not None:
+            if frame is self.__frame:
+                return True
+            frame = frame.f_back
+        return False
 
     def process(self, ctx: 'TriggerContext', event: str, frame: FrameType, arg: any):
         """
@@ -70,8 +129,46 @@ class CallbackContext(Location, ActionCallback):
         :param arg: the arg from settrace
         :return: True, to keep this callback until next match.
         """
-        for callback in self.__callbacks:
-            callback.process(ctx, event, frame, arg)
+        event, arg = self.__find_result(event, frame, arg)
+
+        # the last opened is the first closed
+        for callback in reversed(self.__callbacks):
+            try:
+                callback.process(ctx, event, frame, arg)
+            except BaseException:
+                logging.exception("Cannot process callback %s", callback)
+
+    def __find_result(self, event: str, frame: FrameType, arg: any):
+        try:
+            if event == 'return' and arg is None and self.__is_unwinding(frame):
+                return 'exception', self.__find_raised(frame)
+        except BaseException:
+            logging.exception("Cannot find result of %s", self.__function_name)
+        return event, arg
+
+    def __is_unwinding(self, frame: FrameType) -> bool:
+        # when the function ends with an error then it does not end on an instruction that returns
+        if len(self.__raised) == 0:
+            return False
+        instruction = self.__instruction(frame)
+        # an error can be thrown into a generator, it is then raised by the instruction that returned
+        if instruction.startswith('YIELD_'):
+            return self.__raised_at == frame.f_lasti
+        return not instruction.startswith('RETURN_')
+
+    @staticmethod
+    def __instruction(frame: FrameType) -> str:
+        return dis.opname[frame.f_code.co_code[frame.f_lasti]]
+
+    def __find_raised(self, frame: FrameType):
+        # use the exception that was raised by the instruction that we ended on, else the last one raised
+        for raised in reversed(self.__raised):
+            traceback = raised[1].__traceback__
+            while traceback is not None:
+                if traceback.tb_frame is frame and traceback.tb_lasti == frame.f_lasti:
+                    return raised
+                traceback = traceback.tb_next
+        return self.__raised[-1]
 
     @property
     def id(self) -> str:
@@ -117,18 +214,20 @@ class CallbackContext(Location, ActionCallback):
         # If we are not line, then we have to be the return or error from the method we started in
         return True
 
-    def __check_at_method_end(self, event: str) -> bool:
+    def __check_at_method_end(self, event: str, is_same: bool) -> bool:
         """
         Check if the new position is the end of the method we are wrapping.
 
         When a 'call' event triggers a callback, then we are trying to wrap a method execution. This means we should
-        trigger the callback when the method ends. this is when the event 'exception' or 'return' is seen with the
-        same file and function name.
+        trigger the callback when the method ends. This is when the event 'return' is seen for the invocation that
+        created the callback (this is also sent when the method ends with an error). An 'exception' is not the end, as
+        it can still be handled by the method.
 
         :param event: the current event
-        :return: True, if we are the next logical line of code.
+        :param is_same: is the event for the invocation that created the callback
+        :return: True, if we are at the end of the method.
 
         """
-        if event in ['exception', 'return']:
+        if event == 'return':
             return True
-        return False
+        return event == 'exception' and not is_same
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index a402293..c8b012d 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -165,10 +165,11 @@ class TriggerHandler:
             self.__process_call_backs(trigger_context, arg, frame, event, file, line, function)
 
         # return if we do not have any tracepoints
-        if len(self._tp_config) == 0:
+        tp_config = self._tp_config
+        if len(tp_config) == 0:
             return None
 
-        actions = self.__actions_for_location(event, file, line, function, frame)
+        actions = self.__actions_for_location(tp_config, event, file, line, function, frame)
         if len(actions) == 0:
             return self.trace_call
 
@@ -189,31 +190,35 @@ class TriggerHandler:
         if len(callbacks) > 0:
             logging.debug("Callbacks registered: %s", callbacks)
             self._callbacks.get().append(
-                CallbackContext(event, file, line, function, callbacks))
+                CallbackContext(event, file, line, function, callbacks, frame))
 
         return self.trace_call
 
-    def __actions_for_location(self, event, file, line, function, frame):
+    def __actions_for_location(self, tp_config, event, file, line, function, frame):
         actions = []
-        for trigger in self._tp_config:
-            if trigger.at_location(event, file, line, function, frame):
-                actions += trigger.actions
+        for trigger in tp_config:
+            try:
+                if trigger.at_location(event, file, line, function, frame):
+                    actions += trigger.actions
+            except BaseException:
+                logging.exception("Cannot check location of trigger %s", trigger)
         return actions
 
     def __process_call_backs(self, ctx: 'TriggerContext', arg: any, frame: FrameType, event: str, file: str, line: int,
                              function_name: str):
-        # remove top context
-        context: CallbackContext = self._callbacks.value.pop()
-        # if it is for our location process it
-        if context.at_location(event, file, line, function_name, frame):
-            logging.debug("At callback location %s", context.name)
-            context.process(ctx, event, frame, arg)
-        else:
-            logging.debug("Not at callback location %s", context.name)
-            # else put the context back on the queue
-            self._callbacks.value.append(context)
-
-        if len(self._callbacks.value) == 0:
+        pending = self._callbacks.value
+        # the last opened is the first closed, and more than one can end on the same event
+        for context in reversed(list(pending)):
+            context.observe(event, frame, arg)
+            # if it is for our location process it
+            if context.at_location(event, file, line, function_name, frame):
+                logging.debug("At callback location %s", context.name)
+                pending.remove(context)
+                context.process(ctx, event, frame, arg)
+            else:
+                logging.debug("Not at callback location %s", context.name)
+
+        if len(pending) == 0:
             logging.debug("Callbacks cleared.")
             self._callbacks.clear()
 
-- 
2.43.0


From 668ecf3af0aed38a0f7cb032603595a9eb91e72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 05/32] fix: process variables breadth first

The queue was used as a stack, so the variable limit was used up by the first deep structure.
---
 src/deep/processor/bfs/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/deep/processor/bfs/__init__.py b/src/deep/processor/bfs/__init__.py
index 13b44f9..9025889 100644
--- a/src/deep/processor/bfs/__init__.py
+++ b/src/deep/processor/bfs/__init__.py
@@ -21,6 +21,7 @@ approach. This means scanning all local values before proceeding to the next dep
 """
 
 import abc
+from collections import deque
 from typing import Callable, List
 
 from deep.api.tracepoint import VariableId
@@ -150,10 +151,10 @@ def breadth_first_search(node: 'Node', consumer: Callable[['Node'], bool]):
     :param node: the initial node to start the search
     :param consumer: the consumer to call on each node
     """
-    queue = [node]
+    queue = deque([node])
 
     while len(queue) != 0:
-        pop = queue.pop()
+        pop = queue.popleft()
         can_continue = consumer(pop)
 
         if can_continue:
-- 
2.43.0


From 4bb1361c8c2590efab23469268dc7ad7ec1cf531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 06/32] fix: collect any value without failing or changing it

Values without __dict__, raising str/len/__class__, non string dict keys and types that only share the name of a
builtin lost the whole snapshot. Ids of collected values could be reused as the values were not kept, and the
names of attributes were cut when they only start with the class name.
---
 src/deep/processor/frame_collector.py        |  14 +-
 src/deep/processor/variable_processor.py     | 148 ++++++++++++-------
 src/deep/processor/variable_set_processor.py |  19 ++-
 3 files changed, 121 insertions(+), 60 deletions(-)

diff --git a/src/deep/processor/frame_collector.py b/src/deep/processor/frame_collector.py
index e7850bb..668f6b7 100644
--- a/src/deep/processor/frame_collector.py
+++ b/src/deep/processor/frame_collector.py
@@ -19,8 +19,10 @@ import abc
 from types import FrameType
 from typing import Tuple, Dict, List
 
+from deep import logging
 from deep.api.tracepoint import StackFrame, Variable
 from deep.utils import time_ns
+from .variable_processor import type_name
 from .variable_set_processor import VariableCacheProvider, VariableSetProcessor, VariableProcessorConfig
 
 
@@ -137,11 +139,17 @@ class FrameCollector:
         filename = frame.f_code.co_filename
         func_name = frame.f_code.co_name
 
-        f_locals = frame.f_locals
+        # f_locals can be the namespace that the application is using, so always use a copy
+        try:
+            f_locals = dict(frame.f_locals)
+        except BaseException:
+            # in a class body this can be any type of mapping
+            logging.exception("Cannot read locals of %s", func_name)
+            f_locals = {}
         _self = f_locals.get('self', None)
         class_name = None
-        if _self is not None and hasattr(_self, '__class__'):
-            class_name = _self.__class__.__name__
+        if _self is not None:
+            class_name = type_name(type(_self))
 
         var_ids = []
         # only process vars if we are under the time limit
diff --git a/src/deep/processor/variable_processor.py b/src/deep/processor/variable_processor.py
index aae8bf4..82c18b2 100644
--- a/src/deep/processor/variable_processor.py
+++ b/src/deep/processor/variable_processor.py
@@ -22,44 +22,78 @@ and many options to consider when collecting.
 """
 
 import abc
+from types import MappingProxyType, ModuleType, TracebackType
 from typing import List
 
 from deep import logging
 from deep.api.tracepoint import VariableId, Variable
 from .bfs import Node, ParentNode, NodeValue
 
-NO_CHILD_TYPES = [
-    'str',
-    'int',
-    'float',
-    'bool',
-    'type',
-    'module',
-    'unicode',
-    'long',
-    'NoneType',
-    'traceback'
-]
-"""A list of types that do not have child nodes, or only have child nodes we do not want to process."""
-
-LIST_LIKE_TYPES = [
-    'frozenset',
-    'set',
-    'list',
-    'tuple',
-]
+LIST_LIKE_TYPES = (
+    frozenset,
+    set,
+    list,
+    tuple,
+)
 """A list of types that we should handle like lists."""
 
-ITER_LIKE_TYPES = [
-    'list_iterator',
-    'listiterator',
-    'list_reverseiterator',
-    'listreverseiterator',
-]
+ITER_LIKE_TYPES = (
+    type(iter([])),
+    type(reversed([])),
+)
 """A list of types that we should handle like iterators."""
 
 # We cannot process child nodes of iterators so add the iterator types to the no child types.
-NO_CHILD_TYPES += ITER_LIKE_TYPES
+NO_CHILD_TYPES = (
+    str,
+    int,
+    float,
+    bool,
+    type,
+    type(None),
+    ModuleType,
+    TracebackType,
+) + ITER_LIKE_TYPES
+"""A list of types that do not have child nodes, or only have child nodes we do not want to process."""
+
+
+def is_type(variable_type: type, types: tuple) -> bool:
+    """
+    Check if the type is one of the types.
+
+    We cannot use the name as any type can have the same name, and we cannot use 'in' as that can call the
+    '__eq__' from the metaclass.
+
+    :param variable_type: the type to check
+    :param types: the types to look for
+    :return: True, if the type is one of the types
+    """
+    return any(variable_type is known for known in types)
+
+
+def type_name(variable_type: type) -> str:
+    """
+    Get the name of a type, without using any code from the type.
+
+    :param variable_type: the type
+    :return: the name
+    """
+    return type.__dict__['__name__'].__get__(variable_type)
+
+
+def to_string(value: any) -> str:
+    """
+    Convert a value to a string, using a placeholder if this fails.
+
+    :param value: the value to convert
+    :return: the string
+    """
+    try:
+        # str allows for subclasses of string to be returned, these can have custom functions
+        return str.__str__(str(value))
+    except BaseException:
+        # it is possible for str to fail if there is a custom __str__ function
+        return "<class '%s'>@%s" % (type_name(type(value)), id(value))
 
 
 class Collector(abc.ABC):
@@ -187,21 +221,17 @@ def variable_to_string(variable_type, var_value):
     :param var_value: the variable value
     :return: a string of the value
     """
-    if variable_type.__name__ in ITER_LIKE_TYPES:
+    if is_type(variable_type, ITER_LIKE_TYPES):
         # if interator like then make a custom string - we do not want to mess with iterators
         return 'Iterator of type: %s' % variable_type
     elif variable_type is dict \
-            or variable_type.__name__ in LIST_LIKE_TYPES:
+            or is_type(variable_type, LIST_LIKE_TYPES):
         # if we are a collection then we do not want to use built in string as this can be very
         # large, and quite pointless, instead we just get the size of the collection
         return 'Size: %s' % len(var_value)
     else:
-        try:
-            # everything else just gets a string value
-            return str(var_value)
-        except Exception:
-            # it is possible for str to fail if there is a custom __str__ function
-            return f'{type(var_value)}@{id(var_value)}'
+        # everything else just gets a string value
+        return to_string(var_value)
 
 
 def process_variable(var_collector: Collector, node: NodeValue) -> VariableResponse:
@@ -237,7 +267,7 @@ def process_variable(var_collector: Collector, node: NodeValue) -> VariableRespo
                                                     var_collector.max_string_length)
 
     # create a variable for the lookup
-    variable = Variable(str(variable_type.__name__), variable_value_str, identity_hash_id, [], truncated)
+    variable = Variable(type_name(variable_type), variable_value_str, identity_hash_id, [], truncated)
     # add to lookup
     var_collector.append_variable(var_id, variable)
     # return result - and expand children
@@ -274,7 +304,7 @@ def process_child_nodes(
     """
     variable_type = type(var_value)
     # if the type is a type we do not want children from - return empty
-    if variable_type.__name__ in NO_CHILD_TYPES:
+    if is_type(variable_type, NO_CHILD_TYPES):
         return []
 
     # if the depth is more than we are configured - return empty
@@ -299,8 +329,9 @@ def correct_names(name, val):
     :param val: the variable name we are modifying
     :return: the new name to use
     """
-    prefix = "_" + name
-    if val.startswith(prefix):
+    # python will remove the leading underscores from the class name
+    prefix = "_" + name.lstrip("_")
+    if val.startswith(prefix + "__"):
         return val[len(prefix):]
     return val
 
@@ -316,19 +347,22 @@ def find_children_for_parent(var_collector: Collector, parent_node: ParentNode,
     :param variable_type: the type of the variable
     :return: list of child nodes
     """
+    # the functions and attributes of a value can be anything, so we only use those python provides
     if variable_type is dict:
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value)
-    elif variable_type.__name__ in LIST_LIKE_TYPES:
+        return process_dict_breadth_first(parent_node, type_name(variable_type), value)
+    elif is_type(variable_type, LIST_LIKE_TYPES):
         return process_list_breadth_first(var_collector, parent_node, value)
-    elif isinstance(value, Exception):
-        return process_list_breadth_first(var_collector, parent_node, value.args)
-    elif hasattr(value, '__class__'):
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value.__dict__, correct_names)
-    elif hasattr(value, '__dict__'):
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value.__dict__)
-    else:
-        logging.debug("Unknown type processed %s", variable_type)
-        return []
+    elif issubclass(variable_type, BaseException):
+        return process_list_breadth_first(var_collector, parent_node, BaseException.args.__get__(value))
+
+    try:
+        attributes = object.__getattribute__(value, '__dict__')
+        if issubclass(type(attributes), (dict, MappingProxyType)):
+            return process_dict_breadth_first(parent_node, type_name(variable_type), dict(attributes), correct_names)
+    except BaseException:
+        # not all types have a dict (e.g. object, or those with slots)
+        logging.debug("Unknown type processed %s", type_name(variable_type))
+    return []
 
 
 def process_dict_breadth_first(parent_node, type_name, value, func=lambda x, y: y) -> List[Node]:
@@ -345,10 +379,16 @@ def process_dict_breadth_first(parent_node, type_name, value, func=lambda x, y:
     :param func:
     :return (list): the collected child nodes
     """
-    # we wrap the keys() in a call to list to prevent concurrent changes
-    return [Node(value=NodeValue(func(type_name, key), value[key], key), parent=parent_node) for key in
-            list(value.keys()) if
-            key in value]
+    nodes = []
+    # we wrap the items() in a call to list to prevent concurrent changes
+    for key, val_ in list(value.items()):
+        # keys can be any type, but names can only be a string
+        if issubclass(type(key), str):
+            name = str.__str__(key)
+            nodes.append(Node(value=NodeValue(func(type_name, name), val_, name), parent=parent_node))
+        else:
+            nodes.append(Node(value=NodeValue(to_string(key), val_), parent=parent_node))
+    return nodes
 
 
 def process_list_breadth_first(var_collector: Collector, parent_node: ParentNode, value) -> List[Node]:
diff --git a/src/deep/processor/variable_set_processor.py b/src/deep/processor/variable_set_processor.py
index 537804f..024cd91 100644
--- a/src/deep/processor/variable_set_processor.py
+++ b/src/deep/processor/variable_set_processor.py
@@ -33,7 +33,7 @@ from typing import Tuple, Optional, Dict
 from deep.api.tracepoint import Variable, VariableId
 from deep.processor.bfs import ParentNode, Node, NodeValue, breadth_first_search
 from deep.processor.variable_processor import process_variable, \
-    process_child_nodes, Collector
+    process_child_nodes, to_string, Collector
 
 
 class VariableCacheProvider:
@@ -48,6 +48,17 @@ class VariableCacheProvider:
     def __init__(self):
         """Create new cache."""
         self.__cache = {}
+        self.__values = []
+
+    def hold(self, value: any):
+        """
+        Hold on to a value for as long as this cache is used.
+
+        We use the python id as the identity of a value, this can be reused once the value is not.
+
+        :param value: the value to hold
+        """
+        self.__values.append(value)
 
     def check_id(self, identity_hash_id) -> Optional[str]:
         """
@@ -127,11 +138,12 @@ class VariableSetProcessor(Collector):
         :param value: the variable value
         :return:
         """
+        self.__var_cache.hold(value)
         identity_hash_id = str(id(value))
         check_id = self.__var_cache.check_id(identity_hash_id)
         if check_id is not None:
             # this means the watch result is already in the var_lookup
-            return VariableId(check_id, name), str(value)
+            return VariableId(check_id, name), to_string(value)
 
         # else this is an unknown value so process breadth first
         var_ids = []
@@ -148,7 +160,7 @@ class VariableSetProcessor(Collector):
 
         var_id = self.__var_cache.check_id(identity_hash_id)
 
-        return VariableId(var_id, name), str(value)
+        return VariableId(var_id, name), to_string(value)
 
     def search_function(self, node: Node) -> bool:
         """
@@ -168,6 +180,7 @@ class VariableSetProcessor(Collector):
             # this node has no value, continue with children
             return True
 
+        self.__var_cache.hold(node_value.value)
         # process this node variable
         process_result = process_variable(self, node_value)
         var_id = process_result.variable_id
-- 
2.43.0


From c3b7fdc4debadb5492721e11f0208d7e6b6a5305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 07/32] fix: evaluate expressions in the frame, and keep
 actions independent

Expressions could see the names of the agent but not the globals of the frame. A failing condition could be true, a
failing watch was reported as a value, and the limit check and the recording of the fire were not atomic. Actions
on the same event shared one variable lookup, and watches ignored the limits of the tracepoint.
---
 src/deep/processor/context/action_context.py  | 60 +++++++++++++------
 src/deep/processor/context/snapshot_action.py | 30 ++++++++--
 src/deep/processor/context/trigger_context.py | 24 +++++---
 3 files changed, 84 insertions(+), 30 deletions(-)

diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 06b9de9..76e5b12 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -33,9 +33,9 @@ from typing import Tuple, TYPE_CHECKING, Dict
 
 import deep.logging
 from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_CAPTURE
-from deep.logging import logging
 from deep.api.tracepoint import WatchResult, Variable
-from deep.processor.variable_set_processor import VariableSetProcessor
+from deep.processor.variable_processor import to_string, type_name
+from deep.processor.variable_set_processor import VariableSetProcessor, VariableCacheProvider, VariableProcessorConfig
 from deep.utils import str2bool
 
 if TYPE_CHECKING:
@@ -56,6 +56,8 @@ class ActionContext(abc.ABC):
         self.trigger_context: 'TriggerContext' = parent
         self.location_action: 'LocationAction' = action
         self._triggered = False
+        # each action has its own variables, so that they do not affect each other
+        self.var_cache = VariableCacheProvider()
 
     def __enter__(self):
         """Enter and open the context."""
@@ -63,8 +65,12 @@ class ActionContext(abc.ABC):
 
     def __exit__(self, exception_type, exception_value, exception_traceback):
         """Exit and close the context."""
-        if self.has_triggered():
-            self.location_action.record_triggered(self.trigger_context.ts)
+        pass
+
+    @property
+    def collection_config(self) -> VariableProcessorConfig:
+        """The variable processing config."""
+        return VariableProcessorConfig()
 
     def eval_watch(self, watch: str, source: str) -> Tuple[WatchResult, Dict[str, Variable], str]:
         """
@@ -74,16 +80,14 @@ class ActionContext(abc.ABC):
         :param watch: The watch expression to evaluate.
         :return: Tuple with WatchResult, collected variables, and the log string for the expression
         """
-        var_processor = VariableSetProcessor({}, self.trigger_context.var_cache)
-
         try:
-            result = self.trigger_context.evaluate_expression(watch)
-            variable_id, log_str = var_processor.process_variable(watch, result)
-
-            return WatchResult(source, watch, variable_id), var_processor.var_lookup, log_str
+            result = self.trigger_context.evaluate(watch)
         except BaseException as e:
-            logging.exception("Error evaluating watch %s", watch)
-            return WatchResult(source, watch, None, str(e)), {}, str(e)
+            deep.logging.exception("Error evaluating watch %s", watch)
+            error = to_string(e) or type_name(type(e))
+            return WatchResult(source, watch, None, error), {}, error
+
+        return self.__process_result(source, watch, result)
 
     def process_capture_variable(self, name: str, variable: any) -> Tuple[WatchResult, Dict[str, Variable], str]:
         """
@@ -93,10 +97,20 @@ class ActionContext(abc.ABC):
         :param variable: the value to process
         :return: Tuple with WatchResult, collected variables, and the log string for the expression
         """
-        var_processor = VariableSetProcessor({}, self.trigger_context.var_cache)
-        variable_id, log_str = var_processor.process_variable(name, variable)
+        return self.__process_result(WATCH_SOURCE_CAPTURE, name, variable)
 
-        return WatchResult(WATCH_SOURCE_CAPTURE, name, variable_id), var_processor.var_lookup, log_str
+    def __process_result(self, source: str, name: str, value: any) -> Tuple[WatchResult, Dict[str, Variable], str]:
+        var_processor = VariableSetProcessor({}, self.var_cache, self.collection_config)
+        try:
+            variable_id, log_str = var_processor.process_variable(name, value)
+            if variable_id.vid is None:
+                error = "Cannot collect value, variable limit reached."
+                return WatchResult(source, name, None, error), var_processor.var_lookup, log_str
+            return WatchResult(source, name, variable_id), var_processor.var_lookup, log_str
+        except BaseException as e:
+            deep.logging.exception("Error processing value of %s", name)
+            error = to_string(e) or type_name(type(e))
+            return WatchResult(source, name, None, error), var_processor.var_lookup, error
 
     def process(self):
         """Process the action."""
@@ -126,10 +140,20 @@ class ActionContext(abc.ABC):
         """
         if not self.location_action.can_trigger(self.trigger_context.ts):
             return False
-        if self.location_action.condition is None or len(self.location_action.condition.strip()) == 0:
+        if not self.__check_condition():
+            return False
+        # another thread could have triggered this action since we checked, so this can still be refused
+        return self.location_action.record_triggered(self.trigger_context.ts) is not False
+
+    def __check_condition(self):
+        condition = self.location_action.condition
+        if condition is None or len(condition.strip()) == 0:
             return True
-        result = self.trigger_context.evaluate_expression(self.location_action.condition)
-        return str2bool(str(result))
+        try:
+            return str2bool(str(self.trigger_context.evaluate(condition)))
+        except BaseException:
+            deep.logging.exception("Error evaluating condition %s", condition)
+            return False
 
 
 class NoActionContext(ActionContext):
diff --git a/src/deep/processor/context/snapshot_action.py b/src/deep/processor/context/snapshot_action.py
index 0c70968..f78e68f 100644
--- a/src/deep/processor/context/snapshot_action.py
+++ b/src/deep/processor/context/snapshot_action.py
@@ -110,7 +110,7 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
     def _process_action(self):
         collector = FrameCollector(self, self.trigger_context.frame)
 
-        frames, variables = collector.collect(self.trigger_context.vars, self.trigger_context.var_cache)
+        frames, variables = collector.collect({}, self.var_cache)
 
         snapshot = EventSnapshot(self.location_action.tracepoint, self.trigger_context.ts,
                                  self.trigger_context.resource, frames, variables)
@@ -124,9 +124,7 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
         log_msg = self.log_msg
         if log_msg is not None:
             # create and process the log message
-            context = LogActionContext(self.trigger_context, LocationAction(self.location_action.id, None, {
-                LOG_MSG: log_msg,
-            }, LocationAction.ActionType.Log))
+            context = SnapshotLogActionContext(self)
             log, watches, log_vars = context.process_log(log_msg)
             snapshot.log_msg = log
             for watch in watches:
@@ -152,6 +150,28 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
         return stage == LINE_CAPTURE or stage == METHOD_CAPTURE
 
 
+class SnapshotLogActionContext(LogActionContext):
+    """The context to use when creating the log message of a snapshot."""
+
+    def __init__(self, parent: SnapshotActionContext):
+        """
+        Create a new context.
+
+        :param parent: the context of the snapshot
+        """
+        super().__init__(parent.trigger_context, LocationAction(parent.location_action.id, None, {
+            LOG_MSG: parent.log_msg,
+        }, LocationAction.ActionType.Log))
+        self.__parent = parent
+        # the variables are part of the snapshot
+        self.var_cache = parent.var_cache
+
+    @property
+    def collection_config(self) -> VariableProcessorConfig:
+        """The variable processing config."""
+        return self.__parent.collection_config
+
+
 class DeferredSnapshotActionResult(ActionResult):
     """The result of a deferred snapshot action."""
 
@@ -185,7 +205,7 @@ class DeferredSnapshotActionResult(ActionResult):
                 decorate = decorator.decorate(self.snapshot.id_str, self.action_context)
                 if decorate is not None:
                     attributes.merge_in(decorate)
-            except Exception:
+            except BaseException:
                 deep.logging.exception("Failed to decorate snapshot: %s ", decorator)
         self.snapshot.attributes.merge_in(attributes)
         return self.snapshot
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 2f6db21..cc04f68 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -21,7 +21,6 @@ from typing import Dict, Optional, List
 
 import deep.logging
 from deep.api.plugin import TracepointLogger
-from deep.api.tracepoint import Variable
 from deep.api.tracepoint.trigger import LocationAction
 from deep.config import ConfigService
 from deep.processor.context.action_context import NoActionContext, ActionContext
@@ -31,7 +30,6 @@ from deep.processor.context.metric_action import MetricActionContext
 from deep.processor.context.snapshot_action import SnapshotActionContext
 from deep.processor.context.span_action import SpanActionContext
 from deep.processor.frame_collector import FrameCollector
-from deep.processor.variable_set_processor import VariableCacheProvider
 from deep.push import PushService
 from deep.utils import time_ns
 
@@ -63,9 +61,7 @@ class TriggerContext:
         self.__ts: int = time_ns()
         self.__id: str = str(uuid.uuid4())
         self.__frame_collector: Optional[FrameCollector] = None
-        self.var_cache = VariableCacheProvider()
         self.callbacks: List[ActionCallback] = []
-        self.vars: Dict[str: Variable] = {}
 
     def __enter__(self):
         """Start the 'with' statement and open this context."""
@@ -78,8 +74,8 @@ class TriggerContext:
                 new_callback = result.process(self)
                 if new_callback is not None:
                     self.callbacks.append(new_callback)
-            except Exception:
-                deep.logging.exception("failed to process result {}", result)
+            except BaseException:
+                deep.logging.exception("failed to process result %s", result)
 
     @property
     def id(self):
@@ -151,10 +147,24 @@ class TriggerContext:
         :return: the result of the expression, or the exception that was raised.
         """
         try:
-            return eval(expression, None, self.__frame.f_locals)
+            return self.evaluate(expression)
         except BaseException as e:
             return e
 
+    def evaluate(self, expression: str) -> any:
+        """
+        Evaluate an expression to a value.
+
+        :param expression: the expression
+        :return: the result of the expression
+        :raises: any error raised by the expression
+        """
+        # use a copy of everything that is visible in the frame, so that the expression cannot see (or change) anything
+        # else, and so that all names are visible in the nested scopes of the expression
+        names = dict(getattr(self.__frame, 'f_globals', {}))
+        names.update(self.__frame.f_locals)
+        return eval(expression, names)
+
     def attach_result(self, result: ActionResult):
         """
         Attach a result for this context.
-- 
2.43.0


From c27f4596134a788d6e2daf1612f5033674a0e08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 08/32] fix: always produce the log message, and label it with
 the correct ids

The tracepoint and context id were swapped. A field using '!', ':' or a format that is not for strings, and any
unmatched brace, lost the whole message.
---
 src/deep/processor/context/log_action.py | 145 ++++++++++++++++++-----
 1 file changed, 114 insertions(+), 31 deletions(-)

diff --git a/src/deep/processor/context/log_action.py b/src/deep/processor/context/log_action.py
index 3216168..e5455b4 100644
--- a/src/deep/processor/context/log_action.py
+++ b/src/deep/processor/context/log_action.py
@@ -28,13 +28,15 @@
 
 """Handling for log actions."""
 
-from typing import TYPE_CHECKING, List, Dict, Optional
+import string
+from typing import TYPE_CHECKING, List, Dict, Optional, Iterator
 
 from .action_context import ActionContext
 from .action_results import ActionResult, ActionCallback
 from ...api.tracepoint.constants import LOG_MSG
 from ...api.tracepoint.eventsnapshot import WATCH_SOURCE_LOG
 from ...api.tracepoint.trigger import LocationAction
+from deep import logging
 
 from typing import Tuple
 
@@ -62,37 +64,118 @@ class LogActionContext(ActionContext):
             (list) watch: the watch results from the expressions
             (dic) vars: the collected variables
         """
-        ctx_self = self
         watch_results = []
         _var_lookup = {}
-
-        class FormatDict(dict):
-            """This type is used in the log process to ensure that missing values are formatted don't error."""
-
-            def __missing__(self, key):
-                return "{%s}" % key
-
-        import string
-
-        class FormatExtractor(string.Formatter):
-            """
-            Allows logs to be formatted correctly.
-
-            This type allows us to use watches within log strings and collect the watch
-            as well as interpolate the values.
-            """
-
-            def get_field(self, field_name, args, kwargs):
-                # evaluate watch
-                watch, var_lookup, log_str = ctx_self.eval_watch(field_name, WATCH_SOURCE_LOG)
-                # collect data
-                watch_results.append(watch)
-                _var_lookup.update(var_lookup)
-
-                return log_str, field_name
-
-        log_msg = "[deep] %s" % FormatExtractor().vformat(log_msg, (), FormatDict(self.trigger_context.locals))
-        return log_msg, watch_results, _var_lookup
+        log = self.__format(log_msg, watch_results, _var_lookup)
+        return "[deep] %s" % log, watch_results, _var_lookup
+
+    def __format(self, log_msg: str, watch_results: List['WatchResult'], var_lookup: Dict[str, 'Variable']) -> str:
+        log = ""
+        for literal, field in split_template(log_msg):
+            log += literal
+            if field is None:
+                continue
+            expression, format_spec, conversion = split_field(field)
+            # evaluate watch
+            watch, watch_lookup, log_str = self.eval_watch(expression, WATCH_SOURCE_LOG)
+            # collect data
+            watch_results.append(watch)
+            var_lookup.update(watch_lookup)
+            try:
+                formatter = string.Formatter()
+                # the format can have fields as well
+                format_spec = self.__format(format_spec, watch_results, var_lookup)
+                log_str = formatter.format_field(formatter.convert_field(log_str, conversion), format_spec)
+            except ValueError:
+                # the values are strings, so not all formats can be used
+                logging.debug("Cannot format value of %s with %s", expression, format_spec)
+            log += log_str
+        return log
+
+
+def is_expression(text: str) -> bool:
+    """
+    Check if the text is a valid expression.
+
+    :param text: the text to check
+    :return: True, if the text is an expression
+    """
+    try:
+        compile(text.strip(), "<log>", "eval")
+        return True
+    except Exception:
+        return False
+
+
+def split_template(template: str) -> Iterator[Tuple[str, Optional[str]]]:
+    """
+    Split a template into the literal text and the fields.
+
+    :param template: the template
+    :return: the literal text, and the field that follows it (None if there is no field)
+    """
+    literal, start = "", 0
+    while start < len(template):
+        char = template[start]
+        if char in "{}" and template[start:start + 2] == char * 2:
+            # an escaped brace
+            literal += char
+            start += 2
+            continue
+        end = find_field_end(template, start) if char == "{" else -1
+        if end == -1:
+            # literal text, or a brace that is not part of a field
+            literal += char
+            start += 1
+            continue
+        yield literal, template[start + 1:end]
+        literal, start = "", end + 1
+    yield literal, None
+
+
+def find_field_end(template: str, start: int) -> int:
+    """
+    Find the end of the field.
+
+    A brace can also be a part of the expression, so we look for the first brace that makes a complete expression.
+    If there is none (e.g. there is a format, or the expression is not valid) then use the matching brace.
+
+    :param template: the template
+    :param start: the start of the field
+    :return: the index of the end of the field, or -1 if this is not a field
+    """
+    first = end = template.find("}", start)
+    while end != -1:
+        if is_expression(template[start + 1:end]):
+            return end
+        end = template.find("}", end + 1)
+
+    depth = 0
+    for index in range(start, len(template)):
+        if template[index] == "{":
+            depth += 1
+        elif template[index] == "}":
+            depth -= 1
+            if depth == 0:
+                return index
+    return first
+
+
+def split_field(field: str) -> Tuple[str, str, Optional[str]]:
+    """
+    Split a field into the expression, the format spec and the conversion.
+
+    :param field: the field
+    :return: the expression, format spec and conversion
+    """
+    # an expression can use ':' and '!', so only look for the format if it is not an expression
+    if not is_expression(field):
+        try:
+            (_, expression, format_spec, conversion), = string.Formatter().parse("{%s}" % field)
+            return expression, format_spec, conversion
+        except ValueError:
+            logging.debug("Invalid field in log message: %s", field)
+    return field, "", None
 
 
 class LogActionResult(ActionResult):
@@ -118,5 +201,5 @@ class LogActionResult(ActionResult):
         """
         tracepoint_logger = ctx.config.tracepoint_logger
         if tracepoint_logger:
-            tracepoint_logger.log_tracepoint(self.log, ctx.id, self.action.id)
+            tracepoint_logger.log_tracepoint(self.log, self.action.id, ctx.id)
         return None
-- 
2.43.0


From 38d0b68f42ca8bd2f3f3ec2b2d8c9f0a0775ef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 09/32] fix: isolate failing metric and span processors

---
 src/deep/processor/context/metric_action.py | 17 ++++++++++++-----
 src/deep/processor/context/span_action.py   | 15 +++++++++++----
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/deep/processor/context/metric_action.py b/src/deep/processor/context/metric_action.py
index 2c5cad2..db93dc3 100644
--- a/src/deep/processor/context/metric_action.py
+++ b/src/deep/processor/context/metric_action.py
@@ -39,10 +39,17 @@ class MetricActionContext(ActionContext):
     def _process_action(self):
         metrics = self._metrics()
         for metric in metrics:
-            labels, value = self._process_metric(metric)
+            try:
+                labels, value = self._process_metric(metric)
+            except BaseException:
+                deep.logging.exception("Cannot process metric %s", metric)
+                continue
             for processor in self.trigger_context.config.metric_processors:
-                getattr(processor, self._convert_type(metric.type))(metric.name, labels, metric.namespace or "deep",
-                                                                    metric.help, metric.unit, value)
+                try:
+                    getattr(processor, self._convert_type(metric.type))(metric.name, labels, metric.namespace or "deep",
+                                                                        metric.help, metric.unit, value)
+                except BaseException:
+                    deep.logging.exception("Cannot process metric %s with %s", metric, processor)
 
     def __has_metric_processor(self):
         return self.trigger_context.config.has_metric_processor
@@ -58,7 +65,7 @@ class MetricActionContext(ActionContext):
         if metric.expression:
             try:
                 metric_value = float(self.trigger_context.evaluate_expression(metric.expression))
-            except Exception:
+            except BaseException:
                 deep.logging.exception("Cannot process metric expression %s", metric.expression)
 
         labels = {}
@@ -68,7 +75,7 @@ class MetricActionContext(ActionContext):
                 if label.expression:
                     try:
                         value = str(self.trigger_context.evaluate_expression(label.expression))
-                    except Exception:
+                    except BaseException:
                         deep.logging.exception("Cannot process metric label expression %s: %s", key, label.expression)
                         value = 'expression failed'
                 else:
diff --git a/src/deep/processor/context/span_action.py b/src/deep/processor/context/span_action.py
index 341a411..3d5c768 100644
--- a/src/deep/processor/context/span_action.py
+++ b/src/deep/processor/context/span_action.py
@@ -17,6 +17,7 @@
 from types import FrameType
 from typing import Optional, TYPE_CHECKING
 
+from deep import logging
 from deep.processor.context.action_context import ActionContext
 from deep.processor.context.action_results import ActionResult, ActionCallback
 
@@ -42,7 +43,10 @@ class SpanActionCallback(ActionCallback):
         :return: True, to keep this callback until next match.
         """
         for span in self.__spans:
-            span.close()
+            try:
+                span.close()
+            except BaseException:
+                logging.exception("Cannot close span %s", span)
         return False
 
 
@@ -86,9 +90,12 @@ class SpanActionContext(ActionContext):
         spans = []
 
         for span_processor in self.trigger_context.config.span_processors:
-            span = span_processor.create_span(name, self.trigger_context.id, self.location_action.tracepoint.id)
-            if span:
-                spans.append(span)
+            try:
+                span = span_processor.create_span(name, self.trigger_context.id, self.location_action.tracepoint.id)
+                if span:
+                    spans.append(span)
+            except BaseException:
+                logging.exception("Cannot create span with %s", span_processor)
 
         if len(spans) > 0:
             self.trigger_context.attach_result(SpanResult(spans))
-- 
2.43.0


From 7e35f071db2b69dd2dfacebc6b36fd1027db00dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 10/32] fix: restore the current otel span when a span is
 closed

---
 src/deep/api/plugin/otel.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/deep/api/plugin/otel.py b/src/deep/api/plugin/otel.py
index 5ff0c88..41fe31d 100644
--- a/src/deep/api/plugin/otel.py
+++ b/src/deep/api/plugin/otel.py
@@ -35,13 +35,15 @@ except ImportError as e:
 class _OtelSpan(Span):
     """Wrap Otel span in common interface."""
 
-    def __init__(self, proxy: _Span):
+    def __init__(self, proxy: _Span, context_manager=None):
         """
         Create a new wrapper for Otel span.
 
         :param proxy: the underlying otel span
+        :param context_manager: the context manager that made the span the current span
         """
         self.proxy = proxy
+        self.__context_manager = context_manager
 
     @property
     def name(self):
@@ -78,7 +80,13 @@ class _OtelSpan(Span):
         self.proxy.add_event(name, attributes=attributes)
 
     def close(self):
-        """Close the span."""
+        """Close the span, and restore the span that was current before."""
+        context_manager, self.__context_manager = self.__context_manager, None
+        if context_manager is not None:
+            try:
+                context_manager.__exit__(None, None, None)
+            except Exception:
+                deep.logging.exception("failed to detach span")
         if not self.proxy.end_time:
             try:
                 self.proxy.end()
@@ -122,7 +130,9 @@ class OTelPlugin(ResourceProvider, SnapshotDecorator, SpanProcessor):
             # this is a generator contextlib._GeneratorContextManager
             current = span.__enter__()
             if isinstance(current, _Span):
-                return _OtelSpan(current)
+                return _OtelSpan(current, span)
+            # this span cannot be closed later, so do not leave it as the current span
+            span.__exit__(None, None, None)
         return None
 
     def current_span(self) -> Optional['Span']:
-- 
2.43.0


From 3ccd1b1aa0ac5a52cdff2da75ef36a467705e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:59 +0000
Subject: [PATCH 11/32] fix: apply the fire limits to concurrent hits, and use
 the configured window

The window was never set from the tracepoint args (and is text in ms), and two threads could both pass the check.
---
 src/deep/api/tracepoint/trigger.py | 41 ++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index bcc2b50..07dfa0b 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -30,6 +30,7 @@
 
 import abc
 import inspect
+import threading
 from enum import Enum
 from types import FrameType
 
@@ -81,7 +82,10 @@ class LocationAction(object):
         self.__id = tp_id
         self.__condition = condition
         self.__config = config
-        self.__window = TracepointWindow(self.__config.get(WINDOW_START, 0), self.__config.get(WINDOW_END, 0))
+        # the window is configured in ms
+        self.__window = TracepointWindow(self.__get_int(WINDOW_START, 0) * 1_000_000,
+                                         self.__get_int(WINDOW_END, 0) * 1_000_000)
+        self.__lock = threading.Lock()
         self.__stats = TracepointExecutionStats()
         self.__action_type = action_type
         self.__location: Optional['Location'] = None
@@ -172,10 +176,10 @@ class LocationAction(object):
             return False
 
         # Have we fired too quickly?
-        last_fire = self.__stats.last_fire
-        if last_fire != 0:
-            time_since_last = ts - last_fire
-            if time_since_last < self.__fire_period_ns():
+        fire_period = self.__fire_period_ns()
+        if self.__stats.fire_count > 0 and fire_period > 0:
+            time_since_last = ts - self.__stats.last_fire
+            if time_since_last < fire_period:
                 return False
 
         return True
@@ -184,16 +188,22 @@ class LocationAction(object):
         """
         Record a fire.
 
-        Call this to record this tracepoint being triggered.
+        Call this to record this tracepoint being triggered. As another thread can trigger at the same time, the limits
+        are checked again.
 
         :param ts: the time in nanoseconds
+        :return: True, if the fire is recorded. False, if the limits do not allow this.
         """
-        self.__stats.fire(ts)
+        with self.__lock:
+            if not self.can_trigger(ts):
+                return False
+            self.__stats.fire(ts)
+            return True
 
     def __get_int(self, name: str, default_value: int):
         try:
             return int(self.__config.get(name, default_value))
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             return default_value
 
     def __str__(self):
@@ -547,6 +557,17 @@ class FunctionLocation(Location):
         return False
 
 
+def optional_args(args: Dict[str, str], *keys: str) -> Dict[str, str]:
+    """
+    Get the args that are set.
+
+    :param args: the args
+    :param keys: the keys to get
+    :return: the args, only with the keys that are set
+    """
+    return {key: args[key] for key in keys if key in args}
+
+
 def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str]) -> Optional[LocationAction]:
     """
     Create an action to create a snapshot.
@@ -567,6 +588,7 @@ def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str])
         STACK_TYPE: args.get(STACK_TYPE, STACK),
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **optional_args(args, WINDOW_START, WINDOW_END),
         LOG_MSG: args.get(LOG_MSG, None),
     }, LocationAction.ActionType.Snapshot)
 
@@ -589,6 +611,7 @@ def build_log_action(tp_id: str, args: Dict[str, str]) -> Optional[LocationActio
         LOG_MSG: args[LOG_MSG],
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **optional_args(args, WINDOW_START, WINDOW_END),
     }, LocationAction.ActionType.Log)
 
 
@@ -609,6 +632,7 @@ def build_metric_action(tp_id: str, args: Dict[str, str], metrics: List[MetricDe
         'metrics': metrics,
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **optional_args(args, WINDOW_START, WINDOW_END),
     }, LocationAction.ActionType.Metric)
 
 
@@ -628,6 +652,7 @@ def build_span_action(tp_id: str, args: Dict[str, str]) -> Optional[LocationActi
         SPAN: args[SPAN],
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **optional_args(args, WINDOW_START, WINDOW_END),
     }, LocationAction.ActionType.Span)
 
 
-- 
2.43.0


From 2e89fdae6e0dd68234013113ffdd33c42a50db89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:08 +0000
Subject: [PATCH 12/32] fix: only trigger method tracepoints on function entry

Without a method name any event of a function before the line was used, and all such tracepoints in a file were merged.
---
 src/deep/api/tracepoint/trigger.py | 42 ++++++++++++++++++------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index 07dfa0b..7111617 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -29,10 +29,10 @@
 """Handlers for triggers and action configs."""
 
 import abc
-import inspect
+import dis
 import threading
 from enum import Enum
-from types import FrameType
+from types import CodeType, FrameType
 
 from typing import Optional, Dict, List
 
@@ -476,17 +476,20 @@ class LineLocation(Location):
 class FunctionLocation(Location):
     """A location for a method entry/exit/capture point."""
 
-    def __init__(self, path: str, function_name: Optional[str], position: Location.Position):
+    def __init__(self, path: str, function_name: Optional[str], position: Location.Position, line: int = None):
         """
         Create a new method location.
 
         :param path:  the source file path
         :param function_name: the function name
         :param position: the position
+        :param line: a line in the function, used to find the function if there is no function name
         """
         super().__init__(position)
         self.__function_name = function_name
+        self.__found_name = None
         self.__path = path
+        self.__line = line
 
     def at_location(self, event: str, file: str, line: int, function_name: str, frame: FrameType):
         """
@@ -499,28 +502,35 @@ class FunctionLocation(Location):
         :param frame: the triggering frame object
         :return: True, if we are at this location we expect, else False.
         """
-        if file != self.path:
+        if event != "call" or file != self.path:
             return False
 
         # if method_name is not set then we need to discover it from the frame.
         if self.__function_name is None:
-            # load source lines
-            lines, start = inspect.getsourcelines(frame)
-            end = start + len(lines)
-            # if the targeted line is in the range of start to end
-            if start <= line >= end:
-                # set the method to this name (so we do not need to look it up again)
-                self.__function_name = function_name
+            if self.__is_target(frame.f_code):
+                self.__found_name = function_name
                 return True
             return False
 
-        if event == "call" and function_name == self.__function_name:
-            return True
-        return False
+        return function_name == self.__function_name
+
+    def __is_target(self, code: CodeType) -> bool:
+        # we want the innermost function that has the line
+        if not self.__has_line(code):
+            return False
+        return not any(isinstance(const, CodeType) and self.__has_line(const) for const in code.co_consts)
+
+    def __has_line(self, code: CodeType) -> bool:
+        # names like '<module>' or '<lambda>' are not functions that can be named
+        if self.__line is None or code.co_name.startswith("<") or code.co_firstlineno > self.__line:
+            return False
+        return self.__line <= max((line for _, line in dis.findlinestarts(code) if line is not None), default=0)
 
     @property
     def id(self):
         """The location id."""
+        if self.__function_name is None:
+            return "%s#%s()" % (self.path, self.__line)
         return "%s#%s" % (self.path, self.__function_name)
 
     @property
@@ -540,7 +550,7 @@ class FunctionLocation(Location):
 
         For Method locations should be method name.
         """
-        return self.__function_name
+        return self.__function_name or self.__found_name
 
     def __str__(self):
         """Represent this as a string."""
@@ -681,7 +691,7 @@ def build_trigger(tp_id: str, path: str, line_no: int, args: Dict[str, str], wat
     if stage_ in LINE_STAGES:
         location = LineLocation(path, line_no, position)
     elif stage_ in METHOD_STAGES:
-        location = FunctionLocation(path, args.get(METHOD_NAME, None), position)
+        location = FunctionLocation(path, args.get(METHOD_NAME, None), position, line_no)
     else:
         return None
 
-- 
2.43.0


From 1d7ef6647c0aa4b60d3884390e7cb023724c1927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 13/32] fix: keep the stage and the original config of a
 tracepoint

The stage was not passed to the snapshot (so nothing was ever captured), and the snapshot reported the config of the
action as the tracepoint.
---
 src/deep/api/tracepoint/trigger.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index 7111617..d0b4fe1 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -89,6 +89,7 @@ class LocationAction(object):
         self.__stats = TracepointExecutionStats()
         self.__action_type = action_type
         self.__location: Optional['Location'] = None
+        self.__tracepoint: Optional[TracePointConfig] = None
 
     @property
     def id(self) -> str:
@@ -148,6 +149,8 @@ class LocationAction(object):
     @property
     def tracepoint(self) -> TracePointConfig:
         """Get the tracepoint config for this trigger."""
+        if self.__tracepoint is not None:
+            return self.__tracepoint
         args = dict(self.__config)
         if WATCHES in args:
             del args[WATCHES]
@@ -237,6 +240,16 @@ class LocationAction(object):
         self.__location = location
         return self
 
+    def with_tracepoint(self, tracepoint: TracePointConfig) -> 'LocationAction':
+        """
+        Attach the tracepoint this action was created from.
+
+        :param tracepoint: the tracepoint config
+        :return: self
+        """
+        self.__tracepoint = tracepoint
+        return self
+
 
 class Location(abc.ABC):
     """A location is the line or method at which actions should be performed."""
@@ -600,6 +613,7 @@ def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str])
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
         **optional_args(args, WINDOW_START, WINDOW_END),
         LOG_MSG: args.get(LOG_MSG, None),
+        **optional_args(args, STAGE),
     }, LocationAction.ActionType.Snapshot)
 
 
@@ -700,7 +714,8 @@ def build_trigger(tp_id: str, path: str, line_no: int, args: Dict[str, str], wat
     metric_action = build_metric_action(tp_id, args, metrics)
     span_action = build_span_action(tp_id, args)
 
-    actions = [action for action in [snap_action, log_action, metric_action, span_action] if
+    tracepoint = TracePointConfig(tp_id, path, line_no, args, watches, metrics)
+    actions = [action.with_tracepoint(tracepoint) for action in [snap_action, log_action, metric_action, span_action] if
                action is not None]
 
     return Trigger(location, actions)
-- 
2.43.0


From 1a4723587b72a13f9a7822ede858de6084271017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 14/32] fix: send any text and value that can be collected

Lone surrogates, tuples, large numbers, non text args and a clock change during the collection lost the snapshot (or
the poll) or the value.
---
 src/deep/grpc/__init__.py | 23 +++++++++++++++++-----
 src/deep/push/__init__.py | 41 +++++++++++++++++++++++----------------
 2 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/src/deep/grpc/__init__.py b/src/deep/grpc/__init__.py
index 5bca57d..00a1d85 100644
--- a/src/deep/grpc/__init__.py
+++ b/src/deep/grpc/__init__.py
@@ -34,6 +34,16 @@ from ..api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
 from ..api.tracepoint.trigger import build_trigger, Trigger
 
 
+def convert_text(value) -> str:
+    """
+    Convert a value to text that can be sent, not all python strings are valid unicode (lone surrogates).
+
+    :param value: the value to convert
+    :return: the value as text
+    """
+    return str(value).encode('utf-8', 'backslashreplace').decode('utf-8')
+
+
 def convert_value(value):
     """
     Convert a value from the python type.
@@ -45,8 +55,11 @@ def convert_value(value):
     if isinstance(value, bool):
         return AnyValue(bool_value=value)
     if isinstance(value, str):
-        return AnyValue(string_value=value)
+        return AnyValue(string_value=convert_text(value))
     if isinstance(value, int):
+        if not -2 ** 63 <= value < 2 ** 63:
+            # too large to be sent as a number
+            return AnyValue(string_value=convert_text(value))
         return AnyValue(int_value=value)
     if isinstance(value, float):
         return AnyValue(double_value=value)
@@ -54,14 +67,14 @@ def convert_value(value):
         return AnyValue(bytes_value=value)
     if isinstance(value, dict):
         return AnyValue(kvlist_value=__value_as_dict(value))
-    if isinstance(value, list):
+    if isinstance(value, (list, tuple)):
         return AnyValue(array_value=__value_as_list(value))
 
-    return None
+    return AnyValue()
 
 
 def __value_as_dict(value):
-    return KeyValueList(values=[KeyValue(key=k, value=convert_value(v)) for k, v in value.items()])
+    return KeyValueList(values=[KeyValue(key=convert_text(k), value=convert_value(v)) for k, v in value.items()])
 
 
 def __value_as_list(value):
@@ -80,7 +93,7 @@ def convert_resource(resource):
 
 def __convert_attributes(attributes):
     return Resource(dropped_attributes_count=attributes.dropped,
-                    attributes=[KeyValue(key=k, value=convert_value(v)) for k, v in attributes.items()])
+                    attributes=[KeyValue(key=convert_text(k), value=convert_value(v)) for k, v in attributes.items()])
 
 
 def __convert_static_value(value):
diff --git a/src/deep/push/__init__.py b/src/deep/push/__init__.py
index 7f1e372..43b5dad 100644
--- a/src/deep/push/__init__.py
+++ b/src/deep/push/__init__.py
@@ -21,8 +21,6 @@ have type definitions that work in IDE. It also makes it easier to deal with age
 having local types we can modify.
 """
 
-import logging
-
 # noinspection PyUnresolvedReferences
 from deepproto.proto.common.v1.common_pb2 import KeyValue
 # noinspection PyUnresolvedReferences
@@ -33,20 +31,27 @@ from .push_service import PushService
 
 __all__ = [PushService.__name__]
 
+from deep import logging
 from ..api.tracepoint import TracePointConfig as TrPoCo, EventSnapshot, StackFrame as StFr, WatchResult as WaRe, \
     Variable as Var, VariableId as VarId
-from ..grpc import convert_value
+from ..grpc import convert_text, convert_value
+
+
+def __optional_text(value):
+    return None if value is None else convert_text(value)
 
 
 def __convert_tracepoint(tracepoint: TrPoCo):
-    return TracePointConfig(ID=tracepoint.id, path=tracepoint.path, line_number=tracepoint.line_no,
-                            args=tracepoint.args,
-                            watches=tracepoint.watches)
+    return TracePointConfig(ID=convert_text(tracepoint.id), path=convert_text(tracepoint.path),
+                            line_number=tracepoint.line_no,
+                            args={convert_text(k): convert_text(v) for k, v in tracepoint.args.items()},
+                            watches=[convert_text(w) for w in tracepoint.watches])
 
 
 def __convert_frame(frame: StFr):
-    return StackFrame(file_name=frame.file_name, short_path=frame.short_path, method_name=frame.method_name,
-                      line_number=frame.line_number, class_name=frame.class_name, is_async=frame.is_async,
+    return StackFrame(file_name=convert_text(frame.file_name), short_path=__optional_text(frame.short_path),
+                      method_name=convert_text(frame.method_name),
+                      line_number=frame.line_number, class_name=__optional_text(frame.class_name), is_async=frame.is_async,
                       column_number=frame.column_number, variables=[__convert_variable_id(v) for v in frame.variables],
                       app_frame=frame.app_frame,
                       transpiled_file_name=frame.transpiled_file_name,
@@ -60,20 +65,20 @@ def __convert_watch_source(source):
 
 
 def __convert_watch(watch: WaRe):
-    return WatchResult(expression=watch.expression, good_result=__convert_variable_id(watch.result),
-                       error_result=watch.error, source=__convert_watch_source(watch.source))
+    return WatchResult(expression=convert_text(watch.expression), good_result=__convert_variable_id(watch.result),
+                       error_result=__optional_text(watch.error), source=__convert_watch_source(watch.source))
 
 
 def __convert_variable(variable: Var):
-    return Variable(type=variable.type, value=variable.value, hash=variable.hash,
+    return Variable(type=convert_text(variable.type), value=convert_text(variable.value), hash=variable.hash,
                     children=[__convert_variable_id(c) for c in variable.children], truncated=variable.truncated)
 
 
 def __convert_variable_id(variable: VarId):
     if variable is None:
         return None
-    return VariableID(ID=variable.vid, name=variable.name, modifiers=variable.modifiers,
-                      original_name=variable.original_name)
+    return VariableID(ID=variable.vid, name=convert_text(variable.name), modifiers=variable.modifiers,
+                      original_name=__optional_text(variable.original_name))
 
 
 def __convert_lookup(var_lookup):
@@ -95,11 +100,13 @@ def convert_snapshot(snapshot: EventSnapshot) -> Snapshot:
                         var_lookup=__convert_lookup(snapshot.var_lookup),
                         ts_nanos=snapshot.ts_nanos, frames=[__convert_frame(f) for f in snapshot.frames],
                         watches=[__convert_watch(w) for w in snapshot.watches],
-                        attributes=[KeyValue(key=k, value=convert_value(v)) for k, v in snapshot.attributes.items()],
-                        duration_nanos=snapshot.duration_nanos,
-                        resource=[KeyValue(key=k, value=convert_value(v)) for k, v in
+                        attributes=[KeyValue(key=convert_text(k), value=convert_value(v)) for k, v in
+                                    snapshot.attributes.items()],
+                        # the clock can be changed while we collect
+                        duration_nanos=max(snapshot.duration_nanos, 0),
+                        resource=[KeyValue(key=convert_text(k), value=convert_value(v)) for k, v in
                                   snapshot.resource.attributes.items()],
-                        log_msg=snapshot.log_msg)
+                        log_msg=__optional_text(snapshot.log_msg))
     except Exception:
         # todo should this return None?
         logging.exception("Error converting to protobuf")
-- 
2.43.0


From 915f1a31a43528f1a5c8daa89aef1a69d5e31572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 15/32] fix: do not change the random state of the application

---
 src/deep/api/tracepoint/eventsnapshot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deep/api/tracepoint/eventsnapshot.py b/src/deep/api/tracepoint/eventsnapshot.py
index 6f2f04c..5cea996 100644
--- a/src/deep/api/tracepoint/eventsnapshot.py
+++ b/src/deep/api/tracepoint/eventsnapshot.py
@@ -15,7 +15,7 @@
 
 """Types for the captured data."""
 
-import random
+import uuid
 from typing import Optional, Dict, List
 
 from deep.api.attributes import BoundedAttributes
@@ -36,7 +36,7 @@ class EventSnapshot:
         :param frames: the captured frames
         :param var_lookup: the captured variables.
         """
-        self._id = random.getrandbits(128)
+        self._id = uuid.uuid4().int
         self._tracepoint = tracepoint
         self._var_lookup: Dict[str, 'Variable'] = var_lookup
         self._ts_nanos = ts
-- 
2.43.0


From 3ade9b50179102416c61d3897bf2afd023744203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 16/32] fix: accept, drain and refuse tasks consistently

A failed task made flush raise, a task could be accepted and missed by a flush that was running at the same time, and
slow tasks were given up on after 10s.
---
 src/deep/task/__init__.py | 51 +++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/deep/task/__init__.py b/src/deep/task/__init__.py
index 3257b37..bd718d9 100644
--- a/src/deep/task/__init__.py
+++ b/src/deep/task/__init__.py
@@ -15,10 +15,12 @@
 
 """Provides processing options for tasks on background threads."""
 
-import logging
 import threading
 from concurrent.futures import Future
 from concurrent.futures import ThreadPoolExecutor
+from concurrent.futures import wait
+
+from deep import logging
 
 
 class IllegalStateException(BaseException):
@@ -35,15 +37,9 @@ class TaskHandler:
         self._pool = ThreadPoolExecutor(max_workers=2)
         self._pending = {}
         self._job_id = 0
-        self._lock = threading.Lock()
+        self._lock = threading.RLock()
         self._open = True
 
-    def _next_id(self):
-        with self._lock:
-            self._job_id += 1
-            next_id = self._job_id
-        return next_id
-
     def __check_open(self):
         if not self._open:
             raise IllegalStateException
@@ -56,27 +52,34 @@ class TaskHandler:
         :param args: the args to pass to the function
         :return: a future that can be listened to for completion
         """
-        self.__check_open()
-        next_id = self._next_id()
-        # there is an at exit in threading that prevents submitting tasks after shutdown, but no api to check this
-        future = self._pool.submit(task, *args)
-        self._pending[next_id] = future
+        # the check and the submit have to be one step, else a flush can miss a task that was accepted
+        with self._lock:
+            self.__check_open()
+            self._job_id += 1
+            next_id = self._job_id
+            # there is an at exit in threading that prevents submitting tasks after shutdown, but no api to check this
+            future = self._pool.submit(task, *args)
+            self._pending[next_id] = future
 
         # cannot use 'del' in lambda: https://stackoverflow.com/a/41953232/5151254
         def callback(_future: Future):
-            if _future.exception() is not None:
-                logging.exception("Submitted task failed %s", task)
-            if next_id in self._pending:
-                del self._pending[next_id]
+            self._pending.pop(next_id, None)
+            if not _future.cancelled() and _future.exception() is not None:
+                logging.error("Submitted task failed %s", task, exc_info=_future.exception())
 
         future.add_done_callback(callback)
         return future
 
+    def open(self):
+        """Accept tasks, this is needed to use the handler again after a flush."""
+        with self._lock:
+            self._open = True
+
     def flush(self):
-        """Await completion of all pending tasks."""
-        self._open = False
-        if len(self._pending) > 0:
-            for key in dict(self._pending).keys():
-                get = self._pending.get(key)
-                if get is not None:
-                    self._pending[key].result(10)
+        """Await completion of all pending tasks, the result of the tasks is not important."""
+        with self._lock:
+            self._open = False
+            pending = dict(self._pending)
+        wait(pending.values())
+        for key in pending:
+            self._pending.pop(key, None)
-- 
2.43.0


From 624b99c1a57363851e78efaa343117ed48244645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 17/32] fix: install the latest tracepoint config, and remove
 only the tracepoint of a handle

Updates are applied on more than one thread, so an older config could be installed last. The handle of a custom
tracepoint was the id of the location, so removing it could remove another tracepoint.
---
 src/deep/config/tracepoint_config.py | 89 ++++++++++++++++++++--------
 1 file changed, 64 insertions(+), 25 deletions(-)

diff --git a/src/deep/config/tracepoint_config.py b/src/deep/config/tracepoint_config.py
index e976b5b..0d66bb5 100644
--- a/src/deep/config/tracepoint_config.py
+++ b/src/deep/config/tracepoint_config.py
@@ -16,10 +16,12 @@
 """Maintain the current config of the tracepoints."""
 
 import abc
-import logging
+import threading
 import uuid
 from typing import Dict, List, TYPE_CHECKING
 
+from deep import logging
+
 from deep.api.tracepoint.tracepoint_config import MetricDefinition
 
 from deep.api.tracepoint.trigger import build_trigger
@@ -51,12 +53,14 @@ class TracepointConfigService:
 
     def __init__(self) -> None:
         """Create new tracepoint config service."""
-        self._custom: List['Trigger'] = []
+        self._custom: Dict[str, 'Trigger'] = {}
         self._tracepoint_config: List['Trigger'] = []
         self._current_hash = None
         self._last_update = 0
         self._task_handler = None
         self._listeners: List[ConfigUpdateListener] = []
+        self._lock = threading.RLock()
+        self._update_lock = threading.RLock()
 
     def update_no_change(self, ts):
         """
@@ -78,12 +82,27 @@ class TracepointConfigService:
         :param new_hash: the new config hash
         :param new_config: the new config values
         """
-        old_hash = self._current_hash
-        old_config = self._tracepoint_config
-        self._last_update = ts
-        self._current_hash = new_hash
-        self._tracepoint_config = new_config
-        self.__trigger_update(old_hash, old_config)
+        with self._lock:
+            old_ts = self._last_update
+            old_hash = self._current_hash
+            old_config = self._tracepoint_config
+            self._last_update = ts
+            self._current_hash = new_hash
+            self._tracepoint_config = new_config
+        try:
+            self.__trigger_update(old_hash, old_config)
+        except BaseException:
+            # this config will not be installed, so we cannot say that we have it
+            with self._lock:
+                if self._tracepoint_config is new_config:
+                    self._last_update = old_ts
+                    self._current_hash = old_hash
+                    self._tracepoint_config = old_config
+            raise
+
+    def refresh(self):
+        """Update the listeners with the current config."""
+        self.__trigger_update(self._current_hash, self._tracepoint_config)
 
     def __trigger_update(self, old_hash, old_config):
         ts = self._last_update
@@ -105,7 +124,8 @@ class TracepointConfigService:
         """
         Update the registered listeners.
 
-        This is called to update any listeners that the config has changed
+        This is called to update any listeners that the config has changed. As the updates are processed on more than
+        one thread they can be processed out of order, so the listeners are always given the latest config.
 
         :param ts: the ts of the update
         :param old_hash: the old hash
@@ -113,12 +133,16 @@ class TracepointConfigService:
         :param old_config: the old config
         :param new_config: the new config
         """
-        listeners_copy = self._listeners.copy()
-        for listeners in listeners_copy:
-            try:
-                listeners.config_change(ts, old_hash, current_hash, old_config, new_config + self._custom)
-            except Exception:
-                logging.exception("Error updating listener %s", listeners)
+        with self._update_lock:
+            with self._lock:
+                latest_ts, latest_hash = self._last_update, self._current_hash
+                latest_config = self._tracepoint_config + list(self._custom.values())
+                listeners_copy = self._listeners.copy()
+            for listeners in listeners_copy:
+                try:
+                    listeners.config_change(latest_ts, old_hash, latest_hash, old_config, latest_config)
+                except BaseException:
+                    logging.exception("Error updating listener %s", listeners)
 
     def add_listener(self, listener: ConfigUpdateListener):
         """
@@ -159,12 +183,24 @@ class TracepointConfigService:
         :param args: the tracepoint args
         :param watches: the tracepoint watches
         :param metrics: the tracepoint metrics
-        :return: the new TracePointConfig
-        """
-        config = build_trigger(str(uuid.uuid4()), path, line, args, watches, metrics)
-        self._custom.append(config)
-        self.__trigger_update(None, None)
-        return config.id
+        :return: the id of the new tracepoint
+        """
+        tp_id = str(uuid.uuid4())
+        # copy the values, so they cannot be changed after they are registered
+        config = build_trigger(tp_id, path, line, dict(args), list(watches), list(metrics))
+        if config is None:
+            logging.warning("Cannot process tracepoint at %s#%s", path, line)
+            return tp_id
+        with self._lock:
+            self._custom[tp_id] = config
+        try:
+            self.__trigger_update(None, None)
+        except BaseException:
+            # this tracepoint will not be installed
+            with self._lock:
+                self._custom.pop(tp_id, None)
+            raise
+        return tp_id
 
     def remove_custom(self, _id: str):
         """
@@ -172,8 +208,11 @@ class TracepointConfigService:
 
         :param _id: the id of the config to remove
         """
-        for idx, cfg in enumerate(self._custom):
-            if cfg.id == _id:
-                del self._custom[idx]
-                self.__trigger_update(None, None)
+        with self._lock:
+            if self._custom.pop(_id, None) is None:
                 return
+        try:
+            self.__trigger_update(None, None)
+        except BaseException:
+            # we can be shutdown before the tracepoint is removed
+            logging.exception("Cannot update listeners that %s is removed", _id)
-- 
2.43.0


From 699321b62c6208fc4667b62fa3aa2e31ee9145d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 18/32] fix: do not reset the fire limits of a tracepoint that
 stays installed

Every config update created new actions, so any change to another tracepoint let a tracepoint exceed its fire count.
---
 src/deep/api/tracepoint/trigger.py   | 44 ++++++++++++++++++++++++++++
 src/deep/config/tracepoint_config.py |  4 ++-
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index d0b4fe1..94d4ec1 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -203,6 +203,28 @@ class LocationAction(object):
             self.__stats.fire(ts)
             return True
 
+    def is_same(self, other: 'LocationAction') -> bool:
+        """
+        Check if this action is the same action, of the same tracepoint, as another.
+
+        :param other: the other action
+        :return: True, if they are for the same config
+        """
+        if self.__action_type != other.__action_type or self != other:
+            return False
+        mine, theirs = self.tracepoint, other.tracepoint
+        return mine.path == theirs.path and mine.line_no == theirs.line_no and mine.args == theirs.args \
+            and mine.watches == theirs.watches
+
+    def continue_from(self, other: 'LocationAction'):
+        """
+        Continue with the limits (fire count, last fire) of the action that this action replaces.
+
+        :param other: the action to continue from
+        """
+        self.__lock = other.__lock
+        self.__stats = other.__stats
+
     def __get_int(self, name: str, default_value: int):
         try:
             return int(self.__config.get(name, default_value))
@@ -580,6 +602,28 @@ class FunctionLocation(Location):
         return False
 
 
+def continue_limits(old_triggers: List[Trigger], new_triggers: List[Trigger]):
+    """
+    Continue the limits of the tracepoints that stay installed when the config changes.
+
+    :param old_triggers: the triggers that are installed now
+    :param new_triggers: the triggers that will be installed
+    """
+    old_actions: Dict[str, List[LocationAction]] = {}
+    for trigger in old_triggers:
+        for action in trigger.actions:
+            old_actions.setdefault(action.id, []).append(action)
+
+    for trigger in new_triggers:
+        for action in trigger.actions:
+            candidates = old_actions.get(action.id, [])
+            for old_action in candidates:
+                if action.is_same(old_action):
+                    action.continue_from(old_action)
+                    candidates.remove(old_action)
+                    break
+
+
 def optional_args(args: Dict[str, str], *keys: str) -> Dict[str, str]:
     """
     Get the args that are set.
diff --git a/src/deep/config/tracepoint_config.py b/src/deep/config/tracepoint_config.py
index 0d66bb5..8bd06a3 100644
--- a/src/deep/config/tracepoint_config.py
+++ b/src/deep/config/tracepoint_config.py
@@ -24,7 +24,7 @@ from deep import logging
 
 from deep.api.tracepoint.tracepoint_config import MetricDefinition
 
-from deep.api.tracepoint.trigger import build_trigger
+from deep.api.tracepoint.trigger import build_trigger, continue_limits
 
 if TYPE_CHECKING:
     from deep.api.tracepoint.trigger import Trigger
@@ -86,6 +86,8 @@ class TracepointConfigService:
             old_ts = self._last_update
             old_hash = self._current_hash
             old_config = self._tracepoint_config
+            # a tracepoint that is in both configs has not been removed, so it cannot start to count again
+            continue_limits(old_config, new_config)
             self._last_update = ts
             self._current_hash = new_hash
             self._tracepoint_config = new_config
-- 
2.43.0


From 2d205deb82117d0b31026a8da3708fe5cd73b9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 19/32] fix: skip only the tracepoints that cannot be
 interpreted

---
 src/deep/grpc/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/deep/grpc/__init__.py b/src/deep/grpc/__init__.py
index 00a1d85..7a195eb 100644
--- a/src/deep/grpc/__init__.py
+++ b/src/deep/grpc/__init__.py
@@ -29,6 +29,7 @@ from deepproto.proto.resource.v1.resource_pb2 import Resource
 # noinspection PyUnresolvedReferences
 from deepproto.proto.tracepoint.v1.tracepoint_pb2 import MetricType
 
+from deep import logging
 from .grpc_service import GRPCService  # noqa: F401
 from ..api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
 from ..api.tracepoint.trigger import build_trigger, Trigger
@@ -133,8 +134,15 @@ def convert_response(response) -> List[Trigger]:
     all_triggers: Dict[str, Trigger] = {}
     for r in response:
         # from the incoming tracepoints create a Trigger with actions
-        trigger = build_trigger(r.ID, r.path, r.line_number, dict(r.args), [w for w in r.watches],
-                                __convert_metric_definition(r.metrics))
+        try:
+            trigger = build_trigger(r.ID, r.path, r.line_number, dict(r.args), [w for w in r.watches],
+                                    __convert_metric_definition(r.metrics))
+        except Exception:
+            logging.exception("Cannot process tracepoint %s", r.ID)
+            continue
+        if trigger is None:
+            logging.warning("Cannot process tracepoint %s", r.ID)
+            continue
         location_id = trigger.id
         # if we already have a trigger for this location then merge the new actions into it
         if location_id in all_triggers:
-- 
2.43.0


From 8bd5646dd2c34200092e389427b9c2ee97a9c918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 20/32] fix: keep polling with any poll interval, and only
 install a config that is an update

An interval from the environment is text, which stopped the poll timer.
---
 src/deep/poll/poll.py | 31 +++++++++++++++++++++++++------
 src/deep/utils.py     | 18 +++++++++++-------
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/deep/poll/poll.py b/src/deep/poll/poll.py
index 88704c7..c9a3548 100644
--- a/src/deep/poll/poll.py
+++ b/src/deep/poll/poll.py
@@ -20,6 +20,8 @@ Deep needs to maintain a config of the tracepoints configured by the users. The
  periodically polling the long poll service.
 """
 
+from threading import TIMEOUT_MAX
+
 # noinspection PyUnresolvedReferences
 from deepproto.proto.poll.v1.poll_pb2 import PollRequest, ResponseType
 from deepproto.proto.poll.v1.poll_pb2_grpc import PollConfigStub
@@ -29,6 +31,9 @@ from deep.config import ConfigService
 from deep.grpc import convert_resource, convert_response, GRPCService
 from deep.utils import time_ns, RepeatedTimer
 
+DEFAULT_POLL_TIMER = 10
+"""The time in seconds between each poll, when there is no valid value configured."""
+
 
 class LongPoll(object):
     """This service deals with polling the remote service to get the tracepoint configs."""
@@ -47,14 +52,26 @@ class LongPoll(object):
     def start(self):
         """Start the long poll service."""
         logging.info("Starting Long Poll system")
-        self.timer = RepeatedTimer("Tracepoint Long Poll", self.config.POLL_TIMER, self.poll)
+        self.timer = RepeatedTimer("Tracepoint Long Poll", self.__poll_interval(), self.poll)
         self.__initial_poll()
         self.timer.start()
 
+    def __poll_interval(self) -> float:
+        # the value is text when it comes from the environment
+        poll_timer = self.config.POLL_TIMER
+        try:
+            interval = float(poll_timer)
+            if 0 < interval <= TIMEOUT_MAX:
+                return interval
+        except (ValueError, TypeError, OverflowError):
+            pass
+        logging.warning("Invalid POLL_TIMER %s, using %s seconds.", poll_timer, DEFAULT_POLL_TIMER)
+        return DEFAULT_POLL_TIMER
+
     def __initial_poll(self):
         try:
             self.poll()
-        except Exception:
+        except BaseException:
             logging.exception("Initial poll failed. Will continue with interval.")
 
     def poll(self):
@@ -67,12 +84,14 @@ class LongPoll(object):
         if response.response_type == ResponseType.NO_CHANGE:
             logging.debug("No Change in config.")
             self.config.tracepoints.update_no_change(response.ts_nanos)
-        else:
+        elif response.response_type == ResponseType.UPDATE:
             self.config.tracepoints.update_new_config(response.ts_nanos, response.current_hash,
                                                       convert_response(response.response))
+        else:
+            logging.warning("Unknown response type: %s", response.response_type)
 
     def shutdown(self):
         """Shutdown the timer."""
-        if self.timer:
-            self.timer.stop()
-        self.timer = None
+        timer, self.timer = self.timer, None
+        if timer:
+            timer.stop()
diff --git a/src/deep/utils.py b/src/deep/utils.py
index 9927abe..5337f36 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -15,9 +15,13 @@
 
 """A collection of util functions to perform common or repeated actions."""
 
-import logging
 import time
-from threading import Event, Thread
+from threading import Event, Thread, current_thread
+
+from deep import logging
+
+STOP_TIMEOUT = 5
+"""The time in seconds to wait for a timer to stop."""
 
 
 def snapshot_id_as_hex_str(snapshot_id):
@@ -73,17 +77,17 @@ class RepeatedTimer:
         self.thread.start()
 
     def stop(self):
-        """Stop and shutdown the timer."""
+        """Stop and shutdown the timer, a call to the function that does not complete cannot stop this."""
         self.event.set()
-        self.thread.join()
+        if self.thread.is_alive() and self.thread is not current_thread():
+            self.thread.join(STOP_TIMEOUT)
 
     def _target(self):
         while not self.event.wait(self._time):
             try:
                 self.function(*self.args, **self.kwargs)
-            except Exception:
-                logging.exception(
-                    "Repeated function (%s) failed, will retry in %s seconds." % (self.name, self.interval))
+            except BaseException:
+                logging.exception("Repeated function (%s) failed, will retry in %s seconds.", self.name, self.interval)
 
     @property
     def _time(self):
-- 
2.43.0


From ace74f223de07a826251d00f3cd4678b8eb45d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 21/32] fix: accept auth values that are not text

---
 src/deep/api/auth/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deep/api/auth/__init__.py b/src/deep/api/auth/__init__.py
index c032295..1be3d42 100644
--- a/src/deep/api/auth/__init__.py
+++ b/src/deep/api/auth/__init__.py
@@ -93,6 +93,6 @@ class BasicAuthProvider(AuthProvider):
         password = self._config.SERVICE_PASSWORD
         if username is not None and password is not None:
             encode = base64.b64encode(
-                (username + ':' + password).encode("utf-8"))
+                ('%s:%s' % (username, password)).encode("utf-8"))
             return [('authorization', 'Basic%20' + encode.decode('utf-8'))]
         return []
-- 
2.43.0


From f61d5026387b5c60cb60b2ca055f94e64ba54f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 22/32] fix: always complete start and shutdown

A failing task, poll, or plugin could prevent the rest of the shutdown. The channel was never closed and deep could not
be started again, as the tasks were still refused.
---
 src/deep/api/deep.py          | 58 ++++++++++++++++++++++++++---------
 src/deep/grpc/grpc_service.py | 10 +++++-
 src/deep/task/__init__.py     | 15 ++++++---
 3 files changed, 63 insertions(+), 20 deletions(-)

diff --git a/src/deep/api/deep.py b/src/deep/api/deep.py
index 4aef952..10e8cad 100644
--- a/src/deep/api/deep.py
+++ b/src/deep/api/deep.py
@@ -14,6 +14,7 @@
 #      along with this program.  If not, see <https://www.gnu.org/licenses/>.from typing import Dict, List
 
 """The main services for Deep."""
+import threading
 from typing import Dict, List
 
 import deep.logging
@@ -28,6 +29,9 @@ from deep.processor.trigger_handler import TriggerHandler
 from deep.push import PushService
 from deep.task import TaskHandler
 
+FLUSH_TIMEOUT = 30
+"""The max time in seconds that a shutdown will wait for the pending tasks."""
+
 
 class Deep:
     """
@@ -44,6 +48,8 @@ class Deep:
         :param config: the config to use.
         """
         self.started = False
+        self.__lock = threading.RLock()
+        self.__restart = False
         self.config = config
         self.grpc = GRPCService(self.config)
         self.task_handler = TaskHandler()
@@ -54,8 +60,18 @@ class Deep:
 
     def start(self):
         """Start Deep."""
-        if self.started:
-            return
+        with self.__lock:
+            if self.started:
+                return
+            self.started = True
+            try:
+                self.__start()
+            except BaseException:
+                # do not leave a part of deep running
+                self.shutdown()
+                raise
+
+    def __start(self):
         self.config.plugins = load_plugins(self.config, self.config.PLUGINS)
         default_resource = Resource.create()
         for provider in self.config.resource_providers:
@@ -63,26 +79,40 @@ class Deep:
                 plugin_resource = provider.resource()
                 if plugin_resource:
                     default_resource = default_resource.merge(plugin_resource)
-            except Exception:
-                deep.logging.exception("Failed to process plugin resource {}", provider.name)
+            except BaseException:
+                deep.logging.exception("Failed to process plugin resource %s", provider)
 
         self.config.resource = default_resource
+        self.task_handler.open()
+        if self.__restart:
+            # the tracepoints can have changed since we were shutdown
+            self.config.tracepoints.refresh()
         self.trigger_handler.start()
         self.grpc.start()
         self.poll.start()
-        self.started = True
 
     def shutdown(self):
         """Shutdown deep."""
-        if not self.started:
-            return
-        self.trigger_handler.shutdown()
-        self.task_handler.flush()
-        self.poll.shutdown()
-        for plugin in self.config.plugins:
-            plugin.shutdown()
-        deep.logging.info("Deep is shutdown.")
-        self.started = False
+        with self.__lock:
+            if not self.started:
+                return
+            self.__shutdown_step(self.trigger_handler.shutdown)
+            self.__shutdown_step(self.poll.shutdown)
+            self.__shutdown_step(self.task_handler.flush, FLUSH_TIMEOUT)
+            self.__shutdown_step(self.grpc.shutdown)
+            for plugin in self.config.plugins:
+                self.__shutdown_step(lambda: plugin.shutdown())
+            deep.logging.info("Deep is shutdown.")
+            self.__restart = True
+            self.started = False
+
+    @staticmethod
+    def __shutdown_step(step, *args):
+        # a step that fails must not prevent the other steps
+        try:
+            step(*args)
+        except BaseException:
+            deep.logging.exception("Failed to shutdown %s", step)
 
     def register_tracepoint(self, path: str, line: int, args: Dict[str, str] = None,
                             watches: List[str] = None,
diff --git a/src/deep/grpc/grpc_service.py b/src/deep/grpc/grpc_service.py
index f1608d4..d5074e0 100644
--- a/src/deep/grpc/grpc_service.py
+++ b/src/deep/grpc/grpc_service.py
@@ -40,7 +40,9 @@ class GRPCService:
 
     def start(self):
         """Start and connect the GRPC channel."""
-        if str2bool(self._secure):
+        # the metadata has to be from the auth provider that is configured now
+        self._metadata = None
+        if str2bool(str(self._secure)):
             logging.info("Connecting securely")
             logging.debug("Connecting securely to: %s", self._service_url)
             self.channel = grpc.secure_channel(self._service_url, grpc.ssl_channel_credentials())
@@ -49,6 +51,12 @@ class GRPCService:
             logging.debug("Connecting with insecure channel to: %s ", self._service_url)
             self.channel = grpc.insecure_channel(self._service_url)
 
+    def shutdown(self):
+        """Close the GRPC channel, any calls that are active will fail."""
+        channel, self.channel = self.channel, None
+        if channel is not None:
+            channel.close()
+
     def metadata(self):
         """
         Get GRPC metadata.
diff --git a/src/deep/task/__init__.py b/src/deep/task/__init__.py
index bd718d9..2c31e4a 100644
--- a/src/deep/task/__init__.py
+++ b/src/deep/task/__init__.py
@@ -75,11 +75,16 @@ class TaskHandler:
         with self._lock:
             self._open = True
 
-    def flush(self):
-        """Await completion of all pending tasks, the result of the tasks is not important."""
+    def flush(self, timeout: float = None):
+        """
+        Await completion of all pending tasks, the result of the tasks is not important.
+
+        :param timeout: the max time in seconds to wait (default: no limit)
+        """
         with self._lock:
             self._open = False
             pending = dict(self._pending)
-        wait(pending.values())
-        for key in pending:
-            self._pending.pop(key, None)
+        wait(pending.values(), timeout)
+        for key, future in pending.items():
+            if future.done():
+                self._pending.pop(key, None)
-- 
2.43.0


From 79dd5e7c5a132979fd6631f5c358c007078c5403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 23/32] fix: resolve the app frame settings the same from code
 and the environment

---
 src/deep/config/__init__.py       |  6 ++----
 src/deep/config/config_service.py | 21 ++++++++++++++++++---
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/deep/config/__init__.py b/src/deep/config/__init__.py
index a29a052..d5d0d1a 100644
--- a/src/deep/config/__init__.py
+++ b/src/deep/config/__init__.py
@@ -40,7 +40,7 @@ SERVICE_SECURE = os.getenv('DEEP_SERVICE_SECURE', 'True')
 SERVICE_AUTH_PROVIDER = os.getenv('DEEP_SERVICE_AUTH_PROVIDER', None)
 """The Auth provider to use for the service (default: None)"""
 
-APP_ROOT = ""
+APP_ROOT = os.getenv('DEEP_APP_ROOT', "")
 """App root sets the prefix that can be removed to generate shorter file names. This value is calculated."""
 
 PLUGINS = []
@@ -73,9 +73,7 @@ def IN_APP_EXCLUDE():
     if user_defined is None:
         user_defined = []
     else:
-        if ',' in user_defined:
-            user_defined = user_defined.split(',')
-        user_defined = [user_defined]
+        user_defined = user_defined.split(',')
 
     prefix = sys.exec_prefix
     user_defined.append(prefix)
diff --git a/src/deep/config/config_service.py b/src/deep/config/config_service.py
index a26c6b9..4408593 100644
--- a/src/deep/config/config_service.py
+++ b/src/deep/config/config_service.py
@@ -16,6 +16,7 @@
 """Service for handling deep config."""
 
 import os
+import sys
 from typing import Any, List, Dict, Tuple, Optional, Generator
 
 from deep import logging
@@ -29,14 +30,17 @@ from deep.config.tracepoint_config import TracepointConfigService, ConfigUpdateL
 class ConfigService:
     """This is the main service that handles config for DEEP."""
 
-    def __init__(self, custom: Dict[str, any] = None, tracepoints=TracepointConfigService()):
+    def __init__(self, custom: Dict[str, any] = None, tracepoints: TracepointConfigService = None):
         """
         Create a new config object.
 
         :param custom: any custom values that are passed to DEEP
+        :param tracepoints: the tracepoint config service to use
         """
         if custom is None:
             custom = {}
+        if tracepoints is None:
+            tracepoints = TracepointConfigService()
         self._plugins = []
         self.__custom = custom
         self._resource = None
@@ -170,8 +174,9 @@ class ConfigService:
         :param filename: the frame file name
         :return: True if add frame, else False
         """
-        in_app_include = self.IN_APP_INCLUDE
-        in_app_exclude = self.IN_APP_EXCLUDE
+        in_app_include = self.__as_list(self.IN_APP_INCLUDE)
+        # the python install is never part of the app
+        in_app_exclude = self.__as_list(self.IN_APP_EXCLUDE) + [sys.exec_prefix]
 
         for path in in_app_exclude:
             if filename.startswith(path):
@@ -186,6 +191,16 @@ class ConfigService:
 
         return False, None
 
+    @staticmethod
+    def __as_list(value) -> List[str]:
+        # the value is text when it comes from the environment
+        if value is None:
+            return []
+        if isinstance(value, str):
+            value = value.split(',')
+        # an empty value is a prefix of everything
+        return [path for path in (str(val).strip() for val in value) if path]
+
     def _find_plugin(self, plugin_type) -> PLUGIN_TYPE:
         return next(self.__plugin_generator(plugin_type), None)
 
-- 
2.43.0


From 78871b3f30336f690c7e06245a53570bd8a1fc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 24/32] fix: do not mix metrics of different namespaces

---
 src/deep/api/plugin/metric/otel_metrics.py       | 12 ++++++------
 src/deep/api/plugin/metric/prometheus_metrics.py | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/deep/api/plugin/metric/otel_metrics.py b/src/deep/api/plugin/metric/otel_metrics.py
index a3d42a4..2b54b26 100644
--- a/src/deep/api/plugin/metric/otel_metrics.py
+++ b/src/deep/api/plugin/metric/otel_metrics.py
@@ -40,8 +40,8 @@ class OTelMetrics(MetricProcessor):
         self.__cache = {}
         self.__lock = threading.Lock()
 
-    def __check_cache(self, name, type_name, from_default):
-        cache_key = f'{name}_{type_name}'
+    def __check_cache(self, namespace, name, type_name, from_default):
+        cache_key = (namespace, name, type_name)
         if cache_key in self.__cache:
             return self.__cache[cache_key]
         default = from_default()
@@ -62,7 +62,7 @@ class OTelMetrics(MetricProcessor):
         try:
             with self.__lock:
                 counter: Counter
-                counter = self.__check_cache(name, 'counter',
+                counter = self.__check_cache(namespace, name, 'counter',
                                              lambda: get_meter('deep').create_counter(f'{namespace}_{name}', unit,
                                                                                       help_string))
                 counter.add(value, labels)
@@ -83,7 +83,7 @@ class OTelMetrics(MetricProcessor):
         try:
             with self.__lock:
                 gauge: UpDownCounter
-                gauge = self.__check_cache(name, 'gauge',
+                gauge = self.__check_cache(namespace, name, 'gauge',
                                            lambda: get_meter('deep').create_up_down_counter(f'{namespace}_{name}',
                                                                                             unit, help_string))
                 gauge.add(value, labels)
@@ -104,7 +104,7 @@ class OTelMetrics(MetricProcessor):
         try:
             with self.__lock:
                 histogram: Histogram
-                histogram = self.__check_cache(name, 'histogram',
+                histogram = self.__check_cache(namespace, name, 'histogram',
                                                lambda: get_meter('deep').create_histogram(f'{namespace}_{name}', unit,
                                                                                           help_string))
                 histogram.record(value, labels)
@@ -125,7 +125,7 @@ class OTelMetrics(MetricProcessor):
         try:
             with self.__lock:
                 histogram: Histogram
-                histogram = self.__check_cache(name, 'summary',
+                histogram = self.__check_cache(namespace, name, 'summary',
                                                lambda: get_meter('deep').create_histogram(f'{namespace}_{name}', unit,
                                                                                           help_string))
                 histogram.record(value, labels)
diff --git a/src/deep/api/plugin/metric/prometheus_metrics.py b/src/deep/api/plugin/metric/prometheus_metrics.py
index 14cc1c5..bc8bb68 100644
--- a/src/deep/api/plugin/metric/prometheus_metrics.py
+++ b/src/deep/api/plugin/metric/prometheus_metrics.py
@@ -37,8 +37,8 @@ class PrometheusPlugin(MetricProcessor):
         self.__cache = {}
         self.__lock = threading.Lock()
 
-    def __check_cache(self, name, type_name, from_default):
-        cache_key = f'{name}_{type_name}'
+    def __check_cache(self, namespace, name, type_name, from_default):
+        cache_key = (namespace, name, type_name)
         if cache_key in self.__cache:
             return self.__cache[cache_key]
         default = from_default()
@@ -59,7 +59,7 @@ class PrometheusPlugin(MetricProcessor):
         try:
             with self.__lock:
                 label_keys = list(labels.keys())
-                counter: Counter = self.__check_cache(name, "counter",
+                counter: Counter = self.__check_cache(namespace, name, "counter",
                                                       lambda: Counter(name=name, documentation=help_string or "",
                                                                       labelnames=label_keys,
                                                                       namespace=namespace, unit=unit))
@@ -83,7 +83,7 @@ class PrometheusPlugin(MetricProcessor):
         try:
             with self.__lock:
                 label_keys = list(labels.keys())
-                gauge: Gauge = self.__check_cache(name, "gauge",
+                gauge: Gauge = self.__check_cache(namespace, name, "gauge",
                                                   lambda: Gauge(name=name, documentation=help_string or "",
                                                                 labelnames=label_keys,
                                                                 namespace=namespace, unit=unit))
@@ -108,7 +108,7 @@ class PrometheusPlugin(MetricProcessor):
         try:
             with self.__lock:
                 label_keys = list(labels.keys())
-                histogram: Histogram = self.__check_cache(name, "histogram",
+                histogram: Histogram = self.__check_cache(namespace, name, "histogram",
                                                           lambda: Histogram(name=name, documentation=help_string or "",
                                                                             labelnames=label_keys,
                                                                             namespace=namespace, unit=unit))
@@ -133,7 +133,7 @@ class PrometheusPlugin(MetricProcessor):
         try:
             with self.__lock:
                 label_keys = list(labels.keys())
-                summary: Summary = self.__check_cache(name, "summary",
+                summary: Summary = self.__check_cache(namespace, name, "summary",
                                                       lambda: Summary(name=name, documentation=help_string or "",
                                                                       labelnames=label_keys,
                                                                       namespace=namespace, unit=unit))
-- 
2.43.0


From f4844645ed9d2fcee78188fba4d7b362c7fddb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 25/32] fix: skip any plugin that cannot be loaded

---
 src/deep/api/plugin/__init__.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/deep/api/plugin/__init__.py b/src/deep/api/plugin/__init__.py
index af3d908..cc5a67c 100644
--- a/src/deep/api/plugin/__init__.py
+++ b/src/deep/api/plugin/__init__.py
@@ -44,7 +44,7 @@ def __plugin_generator(configured):
             module, cls = plugin.rsplit(".", 1)
             yield getattr(import_module(module), cls)
             logging.debug('Did import integration %s', plugin)
-        except (DidNotEnable, Exception) as e:
+        except BaseException as e:
             logging.debug(
                 "Did not import integration %s: %s", plugin, e
             )
@@ -61,18 +61,18 @@ def load_plugins(config: 'ConfigService', custom=None) -> List['Plugin']:
     if custom is None:
         custom = []
     loaded = []
-    for plugin in __plugin_generator(DEEP_PLUGINS + custom):
+    for plugin in __plugin_generator(DEEP_PLUGINS + list(custom)):
         try:
             plugin_instance = plugin(config=config)
             if not plugin_instance.is_active():
                 logging.debug("Plugin %s is not active.", plugin_instance.name)
                 continue
-            loaded.append(plugin_instance)
-        except Exception as e:
+            loaded.append((float(plugin_instance.order() or 0), plugin_instance))
+        except BaseException as e:
             logging.debug("Could not load plugin %s: %s", plugin, e)
 
-    loaded.sort(key=lambda pl: pl.order() or 0)
-    return loaded
+    loaded.sort(key=lambda pl: pl[0])
+    return [plugin for _, plugin in loaded]
 
 
 class Plugin(abc.ABC):
@@ -111,7 +111,7 @@ class Plugin(abc.ABC):
         attr = getattr(self.config, f'plugin_{self.name}'.upper(), 'True')
         if attr is None:
             return True
-        return str2bool(attr)
+        return str2bool(str(attr))
 
     def shutdown(self):
         """Clean up and shutdown the plugin."""
-- 
2.43.0


From c0c8b8f5669962b1cf0f8d0772280a4ffc6b33ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 26/32] fix: capture the error that a line raises again

---
 src/deep/processor/context/callback_context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index fd33f36..7aaf01c 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -55,6 +55,9 @@ class CallbackContext(Location, ActionCallback):
         self.__frame = frame
         self.__raised = []
         self.__raised_at = -1
+        # there is no 'exception' event when the line raises the exception that is being handled again
+        if event == 'line' and sys.exc_info()[1] is not None:
+            self.__raised.append(sys.exc_info())
 
     def observe(self, event: str, frame: FrameType, arg: any):
         """
-- 
2.43.0


From d270cbf94e044b9c040ac15a9214c744f778e1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:51 +0000
Subject: [PATCH 27/32] fix: do not build the unlimited text of collected data

---
 src/deep/processor/context/action_context.py |  4 ++--
 src/deep/processor/frame_collector.py        |  2 +-
 src/deep/processor/variable_set_processor.py | 10 ++++++----
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 76e5b12..039be14 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -32,7 +32,7 @@ import abc
 from typing import Tuple, TYPE_CHECKING, Dict
 
 import deep.logging
-from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_CAPTURE
+from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_CAPTURE, WATCH_SOURCE_LOG
 from deep.api.tracepoint import WatchResult, Variable
 from deep.processor.variable_processor import to_string, type_name
 from deep.processor.variable_set_processor import VariableSetProcessor, VariableCacheProvider, VariableProcessorConfig
@@ -102,7 +102,7 @@ class ActionContext(abc.ABC):
     def __process_result(self, source: str, name: str, value: any) -> Tuple[WatchResult, Dict[str, Variable], str]:
         var_processor = VariableSetProcessor({}, self.var_cache, self.collection_config)
         try:
-            variable_id, log_str = var_processor.process_variable(name, value)
+            variable_id, log_str = var_processor.process_variable(name, value, as_text=source == WATCH_SOURCE_LOG)
             if variable_id.vid is None:
                 error = "Cannot collect value, variable limit reached."
                 return WatchResult(source, name, None, error), var_processor.var_lookup, log_str
diff --git a/src/deep/processor/frame_collector.py b/src/deep/processor/frame_collector.py
index 668f6b7..1d0573d 100644
--- a/src/deep/processor/frame_collector.py
+++ b/src/deep/processor/frame_collector.py
@@ -156,7 +156,7 @@ class FrameCollector:
         if collect_vars and not self.__time_exceeded():
             processor = VariableSetProcessor(var_lookup, var_cache, self.__source.collection_config)
             # we process the vars as a single dict of 'locals'
-            variable, log_str = processor.process_variable("locals", f_locals)
+            variable, _ = processor.process_variable("locals", f_locals, as_text=False)
             # now ee 'unwrap' the locals, so they are on the frame directly.
             if variable.vid in var_lookup:
                 variable_val = var_lookup[variable.vid]
diff --git a/src/deep/processor/variable_set_processor.py b/src/deep/processor/variable_set_processor.py
index 024cd91..47e03b0 100644
--- a/src/deep/processor/variable_set_processor.py
+++ b/src/deep/processor/variable_set_processor.py
@@ -130,20 +130,22 @@ class VariableSetProcessor(Collector):
         self.__var_cache = var_cache
         self.__config = config
 
-    def process_variable(self, name: str, value: any) -> Tuple[VariableId, str]:
+    def process_variable(self, name: str, value: any, as_text: bool = True) -> Tuple[VariableId, Optional[str]]:
         """
         Process a variable name and value.
 
         :param name: the variable name
         :param value: the variable value
-        :return:
+        :param as_text: False, if the text is not needed (the text of a value is not limited like the variables)
+        :return: the variable id, and the text of the value (if needed)
         """
+        text = to_string(value) if as_text else None
         self.__var_cache.hold(value)
         identity_hash_id = str(id(value))
         check_id = self.__var_cache.check_id(identity_hash_id)
         if check_id is not None:
             # this means the watch result is already in the var_lookup
-            return VariableId(check_id, name), to_string(value)
+            return VariableId(check_id, name), text
 
         # else this is an unknown value so process breadth first
         var_ids = []
@@ -160,7 +162,7 @@ class VariableSetProcessor(Collector):
 
         var_id = self.__var_cache.check_id(identity_hash_id)
 
-        return VariableId(var_id, name), to_string(value)
+        return VariableId(var_id, name), text
 
     def search_function(self, node: Node) -> bool:
         """
-- 
2.43.0


From 75b034b8e13d3e957a3f7bafddae3e823d58172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:04 +0000
Subject: [PATCH 28/32] fix: keep a service name when a plugin provides an
 empty one

---
 src/deep/api/deep.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/deep/api/deep.py b/src/deep/api/deep.py
index 10e8cad..4f13ca7 100644
--- a/src/deep/api/deep.py
+++ b/src/deep/api/deep.py
@@ -19,7 +19,7 @@ from typing import Dict, List
 
 import deep.logging
 from deep.api.plugin import load_plugins
-from deep.api.resource import Resource
+from deep.api.resource import Resource, SERVICE_NAME
 from deep.api.tracepoint.tracepoint_config import MetricDefinition
 from deep.config import ConfigService
 from deep.config.tracepoint_config import TracepointConfigService
@@ -74,6 +74,7 @@ class Deep:
     def __start(self):
         self.config.plugins = load_plugins(self.config, self.config.PLUGINS)
         default_resource = Resource.create()
+        service_name = default_resource.attributes[SERVICE_NAME]
         for provider in self.config.resource_providers:
             try:
                 plugin_resource = provider.resource()
@@ -82,6 +83,9 @@ class Deep:
             except BaseException:
                 deep.logging.exception("Failed to process plugin resource %s", provider)
 
+        if not default_resource.attributes.get(SERVICE_NAME, None):
+            # a plugin must not remove the service name
+            default_resource = default_resource.merge(Resource({SERVICE_NAME: service_name}))
         self.config.resource = default_resource
         self.task_handler.open()
         if self.__restart:
-- 
2.43.0


From 661dae62c1a436055b79b73e964980c095658619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:13 +0000
Subject: [PATCH 29/32] fix: keep the order of plugins when one has no usable
 order

---
 src/deep/api/plugin/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/deep/api/plugin/__init__.py b/src/deep/api/plugin/__init__.py
index cc5a67c..1ebd101 100644
--- a/src/deep/api/plugin/__init__.py
+++ b/src/deep/api/plugin/__init__.py
@@ -16,6 +16,7 @@
 """Load and handle plugins."""
 
 import abc
+import math
 from importlib import import_module
 from typing import TYPE_CHECKING, Optional, TypeVar, List
 
@@ -67,7 +68,9 @@ def load_plugins(config: 'ConfigService', custom=None) -> List['Plugin']:
             if not plugin_instance.is_active():
                 logging.debug("Plugin %s is not active.", plugin_instance.name)
                 continue
-            loaded.append((float(plugin_instance.order() or 0), plugin_instance))
+            order = float(plugin_instance.order() or 0)
+            # not a number cannot be compared, so it would break the order of the other plugins
+            loaded.append((0 if math.isnan(order) else order, plugin_instance))
         except BaseException as e:
             logging.debug("Could not load plugin %s: %s", plugin, e)
 
-- 
2.43.0


From f499082b31d0ac0e90c2a1966d6c405aee2beb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:33 +0000
Subject: [PATCH 30/32] fix: do not raise from the trace function when a
 failure cannot be logged

---
 src/deep/processor/trigger_handler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index c8b012d..2a6433a 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -154,7 +154,11 @@ class TriggerHandler:
         try:
             return self.__process_event(frame, event, arg)
         except BaseException:
-            logging.exception("Cannot process event %s", event)
+            # there might not even be the stack left to log it (e.g. the application is at the recursion limit)
+            try:
+                logging.exception("Cannot process event %s", event)
+            except BaseException:
+                pass
         return self.trace_call
 
     def __process_event(self, frame: FrameType, event: str, arg):
-- 
2.43.0


From 24606bfb2bb653eed90bbd963c4ade5647ffe3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:03 +0000
Subject: [PATCH 31/32] fix: do not call a __dict__ that the application
 defines

---
 src/deep/processor/variable_processor.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/deep/processor/variable_processor.py b/src/deep/processor/variable_processor.py
index 82c18b2..8353e31 100644
--- a/src/deep/processor/variable_processor.py
+++ b/src/deep/processor/variable_processor.py
@@ -22,7 +22,7 @@ and many options to consider when collecting.
 """
 
 import abc
-from types import MappingProxyType, ModuleType, TracebackType
+from types import GetSetDescriptorType, MappingProxyType, MemberDescriptorType, ModuleType, TracebackType
 from typing import List
 
 from deep import logging
@@ -81,6 +81,23 @@ def type_name(variable_type: type) -> str:
     return type.__dict__['__name__'].__get__(variable_type)
 
 
+def find_attributes(value: any, variable_type: type) -> any:
+    """
+    Get the '__dict__' of a value, without using any code from the type.
+
+    :param value: the value
+    :param variable_type: the type of the value
+    :return: the attributes, or None if python does not provide them
+    """
+    for base in type.__dict__['__mro__'].__get__(variable_type):
+        found = type.__dict__['__dict__'].__get__(base).get('__dict__')
+        if is_type(type(found), (GetSetDescriptorType, MemberDescriptorType)):
+            return found.__get__(value)
+        if found is not None:
+            return None
+    return None
+
+
 def to_string(value: any) -> str:
     """
     Convert a value to a string, using a placeholder if this fails.
@@ -356,7 +373,7 @@ def find_children_for_parent(var_collector: Collector, parent_node: ParentNode,
         return process_list_breadth_first(var_collector, parent_node, BaseException.args.__get__(value))
 
     try:
-        attributes = object.__getattribute__(value, '__dict__')
+        attributes = find_attributes(value, variable_type)
         if issubclass(type(attributes), (dict, MappingProxyType)):
             return process_dict_breadth_first(parent_node, type_name(variable_type), dict(attributes), correct_names)
     except BaseException:
-- 
2.43.0


From 837bf4f3f2ca64d831ee8f8ce5437a0712f0c5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:07 +0000
Subject: [PATCH 32/32] fix: leave the current otel span of the application
 alone

The context manager that makes the span of a tracepoint current is dropped
as soon as the span is created, which makes the span of the application
current again. Keeping it until the span is closed (7e35f07) changed the
current span of the application; that commit is reverted.
---
 src/deep/api/plugin/otel.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/deep/api/plugin/otel.py b/src/deep/api/plugin/otel.py
index 41fe31d..5ff0c88 100644
--- a/src/deep/api/plugin/otel.py
+++ b/src/deep/api/plugin/otel.py
@@ -35,15 +35,13 @@ except ImportError as e:
 class _OtelSpan(Span):
     """Wrap Otel span in common interface."""
 
-    def __init__(self, proxy: _Span, context_manager=None):
+    def __init__(self, proxy: _Span):
         """
         Create a new wrapper for Otel span.
 
         :param proxy: the underlying otel span
-        :param context_manager: the context manager that made the span the current span
         """
         self.proxy = proxy
-        self.__context_manager = context_manager
 
     @property
     def name(self):
@@ -80,13 +78,7 @@ class _OtelSpan(Span):
         self.proxy.add_event(name, attributes=attributes)
 
     def close(self):
-        """Close the span, and restore the span that was current before."""
-        context_manager, self.__context_manager = self.__context_manager, None
-        if context_manager is not None:
-            try:
-                context_manager.__exit__(None, None, None)
-            except Exception:
-                deep.logging.exception("failed to detach span")
+        """Close the span."""
         if not self.proxy.end_time:
             try:
                 self.proxy.end()
@@ -130,9 +122,7 @@ class OTelPlugin(ResourceProvider, SnapshotDecorator, SpanProcessor):
             # this is a generator contextlib._GeneratorContextManager
             current = span.__enter__()
             if isinstance(current, _Span):
-                return _OtelSpan(current, span)
-            # this span cannot be closed later, so do not leave it as the current span
-            span.__exit__(None, None, None)
+                return _OtelSpan(current)
         return None
 
     def current_span(self) -> Optional['Span']:
-- 
2.43.0

