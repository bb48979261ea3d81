From baf10acda0cb3f684387dd6f8768c1b9d691a857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 01/69] fix: keep the last bundle of a live submission when the
 queue is full at the end

---
 src/hypershell/submit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index f1e88d0..fa93ff8 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -460,7 +460,8 @@ class QueueCommitter(StateMachine):
     def finalize(self) -> QueueCommitterState:
         """Force final commit of tasks and halt."""
         self.pack_bundle()
-        self.commit()
+        if self.commit() is QueueCommitterState.COMMIT:
+            return QueueCommitterState.FINAL  # Queue is full, try again
         log.debug('Done (committer: no database)')
         return QueueCommitterState.HALT
 
-- 
2.43.0


From 345495b3ae31f45eb525a4f7835cfa53abf6422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 02/69] fix: client collector returns buffered results at
 shutdown instead of dropping them

---
 src/hypershell/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index f3406ae..5865420 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -388,7 +388,9 @@ class ClientCollector(StateMachine):
 
     def finalize(self: ClientCollector) -> CollectorState:
         """Push out any remaining tasks and halt."""
-        self.put_remote()
+        self.pack_bundle()
+        if self.put_remote() is CollectorState.PUT_REMOTE:
+            return CollectorState.FINAL  # Queue is full, try again
         log.debug('Done (collector)')
         return CollectorState.HALT
 
-- 
2.43.0


From 1bd17d5ffc84c3600b7f8fe5aaa06e367d77ec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 03/69] fix: do not round elapsed time up when checking the
 walltime limit

---
 src/hypershell/client.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 5865420..5719eb7 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -581,10 +581,9 @@ class TaskExecutor(StateMachine):
                 self.redirect_errors.close()
             return TaskState.PUT_LOCAL
         except TimeoutExpired:
+            self.elapsed = datetime.now().astimezone() - self.task.start_time
             # Only display time elapsed to the nearest second
-            self.elapsed = timedelta(seconds=round((datetime.now().astimezone() -
-                                                    self.task.start_time).total_seconds()))
-            log.trace(f'Waiting on task ({self.task.id}: {self.elapsed})')
+            log.trace(f'Waiting on task ({self.task.id}: {timedelta(seconds=round(self.elapsed.total_seconds()))})')
             if self.stop_requested:
                 return TaskState.WAIT_SIGNAL
             else:
-- 
2.43.0


From 0aec619b851c37e349db959f0dc48c91731f0d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 04/69] fix: report a task whose process cannot be started as
 failed instead of losing it with the executor

---
 src/hypershell/client.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 5719eb7..9b22a22 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -551,19 +551,25 @@ class TaskExecutor(StateMachine):
         # NOTE: enforce tz aware submit_time (in case of sqlite backend)
         self.task.start_time = datetime.now().astimezone()
         self.task.waited = int((self.task.start_time - self.task.submit_time.astimezone()).total_seconds())
-        env = task_env(self.task)
-        if self.capture:
-            self.task.outpath = env['TASK_OUTPATH']
-            self.task.errpath = env['TASK_ERRPATH']
-            self.redirect_output = open(self.task.outpath, mode='w')
-            self.redirect_errors = open(self.task.errpath, mode='w')
-        self.stop_requested = None
-        self.attempted_sigint = False
-        self.attempted_sigterm = False
-        self.attempted_sigkill = False
-        self.process = Popen(self.task.command, shell=True,
-                             stdout=self.redirect_output, stderr=self.redirect_errors,
-                             cwd=config.task.cwd, env=env)
+        try:
+            env = task_env(self.task)
+            if self.capture:
+                self.task.outpath = env['TASK_OUTPATH']
+                self.task.errpath = env['TASK_ERRPATH']
+                self.redirect_output = open(self.task.outpath, mode='w')
+                self.redirect_errors = open(self.task.errpath, mode='w')
+            self.stop_requested = None
+            self.attempted_sigint = False
+            self.attempted_sigterm = False
+            self.attempted_sigkill = False
+            self.process = Popen(self.task.command, shell=True,
+                                 stdout=self.redirect_output, stderr=self.redirect_errors,
+                                 cwd=config.task.cwd, env=env)
+        except Exception as error:
+            log.error(f'Failed to start task ({self.task.id}): {error.__class__.__name__}: {error}')
+            self.task.completion_time = datetime.now().astimezone()
+            self.task.exit_status = -1
+            return TaskState.PUT_LOCAL
         log.info(f'Running task ({self.task.id})')
         log.debug(f'Running task ({self.task.id}: {self.task.command})')
         log.trace(f'Running task ({self.task.id}: pid={self.process.pid}, argv={self.task.command})')
-- 
2.43.0


From 1e04fa9bfb0236e5b79c78673029b1458d9dd356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 05/69] fix: never retry, revert or wait for cancelled tasks

---
 src/hypershell/data/model.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index a5ef391..ed7dfdb 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -317,6 +317,7 @@ class Task(Entity):
                 .order_by(cls.completion_time)
                 .filter(cls.exit_status.isnot(None))
                 .filter(cls.exit_status != 0)
+                .filter(cls.completion_time.isnot(None))  # NOTE: cancelled tasks never completed
                 .filter(cls.attempt < attempts)
                 .filter(cls.retried.is_(False))
                 .limit(limit).all())
@@ -375,8 +376,13 @@ class Task(Entity):
 
     @classmethod
     def count_remaining(cls: Type[Task]) -> int:
-        """Count of remaining unfinished tasks."""
-        return cls.query().filter(cls.completion_time.is_(None)).count()
+        """Count of remaining unfinished tasks (cancelled tasks have an exit status)."""
+        return (
+            cls.query()
+            .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))
+            .count()
+        )
 
     @classmethod
     def count_interrupted(cls: Type[Task]) -> int:
@@ -385,6 +391,7 @@ class Task(Entity):
             cls.query()
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))
             .count()
         )
 
@@ -396,6 +403,7 @@ class Task(Entity):
             .order_by(cls.schedule_time)
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))
             .limit(limit)
             .all()
         )
@@ -463,6 +471,7 @@ class Task(Entity):
             .order_by(cls.schedule_time)
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))
             .filter(cls.client_id == client_id)
             .limit(limit)
             .all()
-- 
2.43.0


From c5c1571fc57f9a677a3d407680f75a18ab9c61b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 06/69] fix: scheduler does not stop while a task that failed
 in the meantime is still to be retried

---
 src/hypershell/server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index abff879..d56e873 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -179,7 +179,10 @@ class Scheduler(StateMachine):
             self.startup_phase = False
             return SchedulerState.PACK
         # An empty database must wait for at least one task
-        elif not self.forever_mode and Task.count() > 0 and Task.count_remaining() == 0 and not self.startup_phase:
+        # Tasks may have failed since the selection above
+        elif (not self.forever_mode and not self.startup_phase and
+              Task.count() > 0 and Task.count_remaining() == 0 and
+              not Task.select_failed(attempts=self.attempts, limit=1)):
             return SchedulerState.FINAL
         else:
             time.sleep(DEFAULT_QUERY_PAUSE)
-- 
2.43.0


From 7e91536d3f028109d49793d98f5f0cbdf1295fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 07/69] fix: scheduler does not stop while the server's own
 task source is still being submitted

---
 src/hypershell/server.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index d56e873..b732f60 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -125,6 +125,7 @@ class Scheduler(StateMachine):
     states = SchedulerState
 
     startup_phase: bool = True
+    source_pending: bool = False  # set by parent thread while its own tasks are still being submitted
 
     def __init__(self: Scheduler, queue: QueueServer, bundlesize: int = DEFAULT_BUNDLESIZE,
                  attempts: int = DEFAULT_ATTEMPTS, eager: bool = DEFAULT_EAGER_MODE,
@@ -174,13 +175,14 @@ class Scheduler(StateMachine):
         if check_signal() in (SIGUSR1, SIGUSR2):
             log.warning(f'Signal interrupt ({SIGNAL_MAP[check_signal()]})')
             return SchedulerState.FINAL
+        source_pending = self.source_pending
         self.tasks = Task.next(limit=self.bundlesize, attempts=self.attempts, eager=self.eager)
         if self.tasks:
             self.startup_phase = False
             return SchedulerState.PACK
         # An empty database must wait for at least one task
-        # Tasks may have failed since the selection above
-        elif (not self.forever_mode and not self.startup_phase and
+        # Tasks may have been submitted or may have failed since the selection above
+        elif (not self.forever_mode and not source_pending and not self.startup_phase and
               Task.count() > 0 and Task.count_remaining() == 0 and
               not Task.select_failed(attempts=self.attempts, limit=1)):
             return SchedulerState.FINAL
@@ -226,6 +228,10 @@ class SchedulerThread(Thread):
         """Run machine."""
         self.machine.run()
 
+    def signal_source(self: SchedulerThread, pending: bool) -> None:
+        """Set flag to tell scheduler whether tasks are still being submitted."""
+        self.machine.source_pending = pending
+
     def stop(self: SchedulerThread, wait: bool = False, timeout: int = None) -> None:
         """Stop machine."""
         log.warning('Stopping (scheduler)')
@@ -752,6 +758,7 @@ class ServerThread(Thread):
         if self.submitter is not None:
             self.submitter.start()
         if self.scheduler is not None:
+            self.scheduler.signal_source(pending=(self.submitter is not None))
             self.scheduler.start()
         if not self.no_confirm:
             self.confirm.start()
@@ -762,7 +769,11 @@ class ServerThread(Thread):
         """Wait on task submission to complete."""
         if self.submitter is not None:
             log.trace('Waiting (submitter)')
-            self.submitter.join()
+            try:
+                self.submitter.join()
+            finally:
+                if self.scheduler is not None:
+                    self.scheduler.signal_source(pending=False)
 
     def wait_scheduler(self: ServerThread) -> None:
         """Wait scheduling until complete."""
-- 
2.43.0


From 5a5e9d2998cbe1a83d40af3b9f4338f6575be014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 08/69] fix: text that looks like a date remains text when a
 task is decoded

---
 src/hypershell/data/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index ed7dfdb..7049d2a 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -126,7 +126,9 @@ class Entity(DeclarativeBase):
     @classmethod
     def from_json(cls: Type[Entity], data: Dict[str, JSONValue]) -> Entity:
         """Build from JSON `text` string."""
-        return cls.from_dict({key: from_json_type(value) for key, value in data.items()})
+        # NOTE: text fields may look like a date (e.g., args='2024-01-01') and must remain text
+        return cls.from_dict({key: from_json_type(value) if cls.columns.get(key) is datetime else value
+                              for key, value in data.items()})
 
     @classmethod
     def unpack(cls: Type[Entity], data: bytes) -> Entity:
-- 
2.43.0


From a02689438394a4ca0b3fb3c46cb073b1071d4c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 09/69] fix: eager mode no longer schedules a fresh retry twice
 in the same batch

---
 src/hypershell/data/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 7049d2a..2c3db6b 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -365,9 +365,11 @@ class Task(Entity):
         failed_tasks = cls.select_failed(attempts=attempts, limit=limit)
         if failed_tasks:
             log.trace(f'Selected {len(failed_tasks)} previously failed tasks')
+            # NOTE: created as already scheduled so that they are not selected again as new tasks
             new_tasks = [cls.new(args=task.args,
                                  attempt=task.attempt + 1,
                                  previous_id=task.id,
+                                 schedule_time=datetime.now().astimezone(),
                                  tag=task.tag)
                          for task in failed_tasks]
             tasks.extend(new_tasks)
-- 
2.43.0


From a7f13f44f83c2822e42d60d52a710c19181138b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 10/69] fix: heart monitor does not use the database when it
 was disabled automatically

---
 src/hypershell/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index b732f60..408d03e 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -738,7 +738,7 @@ class ServerThread(Thread):
             self.confirm = ConfirmThread(queue=self.queue, in_memory=self.in_memory)
         self.receiver = ReceiverThread(queue=self.queue, in_memory=self.in_memory, redirect_failures=redirect_failures)
         self.heartmonitor = HeartMonitorThread(queue=self.queue, evict_after=evict_after,
-                                               in_memory=in_memory, no_confirm=no_confirm)
+                                               in_memory=self.in_memory, no_confirm=no_confirm)
         super().__init__(name='hypershell-server')
 
     def run_with_exceptions(self: ServerThread) -> None:
-- 
2.43.0


From e4b882824586df05989212c88c7278289190a26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 11/69] fix: pass --eager on from the cluster command to the
 server

---
 src/hypershell/cluster/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 6ea63b2..5fc7a9a 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -212,7 +212,7 @@ class ClusterApp(Application):
         launcher = self.launchers.get(self.mode)
         launcher(source=self.source, num_tasks=self.num_tasks, template=self.template,
                  bundlesize=self.bundlesize, bundlewait=self.bundlewait, max_retries=self.max_retries,
-                 in_memory=self.in_memory, no_confirm=self.no_confirm, forever_mode=self.forever_mode,
+                 eager=self.eager_mode, in_memory=self.in_memory, no_confirm=self.no_confirm, forever_mode=self.forever_mode,
                  restart_mode=self.restart_mode, redirect_failures=self.failure_stream,
                  delay_start=self.delay_start, capture=self.capture,
                  client_timeout=self.client_timeout, task_timeout=self.task_timeout,
-- 
2.43.0


From 3038b9af4d58509ab5c1de1bf2ec5391812321cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 12/69] fix: hs server --eager takes effect

---
 src/hypershell/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 408d03e..f83aa7b 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1114,7 +1114,7 @@ class ServerApp(Application):
     eager_mode: bool = config.server.eager
     max_retries: int = config.server.attempts - 1
     interface.add_argument('-r', '--max-retries', type=int, default=max_retries)
-    interface.add_argument('--eager', action='store_true')
+    interface.add_argument('--eager', action='store_true', default=eager_mode, dest='eager_mode')
 
     forever_mode: bool = False
     interface.add_argument('--forever', action='store_true', dest='forever_mode')
-- 
2.43.0


From 9b173e979c8b58f1876695887501461a919e2ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 13/69] fix: hs cluster --port is used by a local cluster

---
 src/hypershell/cluster/__init__.py |  3 ++-
 src/hypershell/cluster/local.py    | 13 ++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 5fc7a9a..ec46454 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -220,7 +220,8 @@ class ClusterApp(Application):
 
     def run_local(self: ClusterApp, **options) -> None:
         """Run local cluster."""
-        run_local(**options, redirect_output=self.output_stream, redirect_errors=self.errors_stream)
+        run_local(**options, bind=(QueueConfig.host, self.port),
+                  redirect_output=self.output_stream, redirect_errors=self.errors_stream)
 
     def run_launch(self: ClusterApp, **options) -> None:
         """Run remote cluster with custom launcher."""
diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index 7ded8b5..5f28e85 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -6,7 +6,7 @@
 
 # type annotations
 from __future__ import annotations
-from typing import Iterable, IO
+from typing import Iterable, IO, Tuple
 
 # standard libs
 import time
@@ -17,7 +17,7 @@ from hypershell.core.thread import Thread
 from hypershell.core.logging import Logger
 from hypershell.core.template import DEFAULT_TEMPLATE
 from hypershell.submit import DEFAULT_BUNDLEWAIT
-from hypershell.server import ServerThread, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
+from hypershell.server import ServerThread, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS, DEFAULT_BIND, DEFAULT_PORT
 from hypershell.client import ClientThread, DEFAULT_DELAY, DEFAULT_SIGNALWAIT, set_client_standalone
 
 # public interface
@@ -128,6 +128,10 @@ class LocalCluster(Thread):
             Signal escalation waiting period in seconds on task timeout.
             See :const:`~hypershell.client.DEFAULT_SIGNALWAIT`.
 
+        bind (tuple, optional):
+            Bind address for server (and client connection) with port number.
+            See :const:`~hypershell.server.DEFAULT_PORT`.
+
     Example:
         >>> from hypershell.cluster import LocalCluster
         >>> cluster = LocalCluster.new(
@@ -164,12 +168,14 @@ class LocalCluster(Thread):
                  capture: bool = False,
                  client_timeout: int = None,
                  task_timeout: int = None,
-                 task_signalwait: int = DEFAULT_SIGNALWAIT) -> None:
+                 task_signalwait: int = DEFAULT_SIGNALWAIT,
+                 bind: Tuple[str, int] = (DEFAULT_BIND, DEFAULT_PORT)) -> None:
         """Initialize with server and single client thread."""
         auth = secrets.token_hex(64)
         self.server = ServerThread(source=source,
                                    bundlesize=bundlesize,
                                    bundlewait=bundlewait,
+                                   address=bind,
                                    auth=auth,
                                    in_memory=in_memory,
                                    no_confirm=no_confirm,
@@ -182,6 +188,7 @@ class LocalCluster(Thread):
                                    template=template,
                                    bundlesize=bundlesize,
                                    bundlewait=bundlewait,
+                                   address=bind,
                                    auth=auth,
                                    no_confirm=no_confirm,
                                    redirect_output=redirect_output,
-- 
2.43.0


From 2de9c9031634d116e75bb9cee69236774147ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 14/69] fix: quote template and exported variables for the
 remote shell of ssh clients

---
 src/hypershell/cluster/ssh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 7bda57b..ab3b1dc 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -220,7 +220,7 @@ class SSHCluster(Thread):
                                    restart_mode=restart_mode,
                                    redirect_failures=redirect_failures)
         launcher = shlex.split(launcher)
-        launcher_env = shlex.split('' if not export_env else compile_env())
+        launcher_env = [] if not export_env else compile_env()
         if launcher_args is None:
             launcher_args = shlex.split(config.ssh.get('args', ''))
         client_args = []
@@ -235,7 +235,7 @@ class SSHCluster(Thread):
         self.client_argv = [
             [*launcher, *launcher_args, host, *launcher_env, remote_exe, 'client', '-H', HOSTNAME,
              '-p', str(bind[1]), '-N', str(num_tasks), '-b', str(bundlesize), '-w', str(bundlewait),
-             '-t', f'\'{template}\'', '-k', auth, '-d', str(delay_start),
+             '-t', shlex.quote(template), '-k', auth, '-d', str(delay_start),
              '-S', str(task_signalwait), *client_args]
             for host in nodelist
         ]
@@ -346,6 +346,6 @@ class NodeList(list):
         return result
 
 
-def compile_env() -> str:
+def compile_env() -> List[str]:
     """Build environment variable argument expansion for remote client launch command."""
-    return ' '.join([f'{key}="{value}"' for key, value in Namespace.from_env('HYPERSHELL').items()])
+    return [f'{key}={shlex.quote(str(value))}' for key, value in Namespace.from_env('HYPERSHELL').items()]
-- 
2.43.0


From 774dbff81ef5bcb80e58d17244a8118e15c3f1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 15/69] fix: ssh.args from the configuration is used when
 --ssh-args is not given

---
 src/hypershell/cluster/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index ec46454..c8a795b 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -239,7 +239,8 @@ class ClusterApp(Application):
             nodelist = NodeList.from_config(self.ssh_group)
         else:
             nodelist = NodeList.from_cmdline(self.ssh_mode if self.ssh_mode != '<default>' else None)
-        run_ssh(**options, launcher='ssh', launcher_args=shlex.split(self.ssh_args), nodelist=nodelist,
+        run_ssh(**options, launcher='ssh', nodelist=nodelist,
+                launcher_args=(shlex.split(self.ssh_args) if self.ssh_args else None),  # falls back on configuration
                 remote_exe=self.remote_exe, bind=('0.0.0.0', self.port), export_env=self.export_env)
 
     def run_autoscaling(self: ClusterApp, **options) -> None:
-- 
2.43.0


From 07d71e0a1cddbdc6615793a303bfe96c0ea8e964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 16/69] fix: task pressure of a dynamic cluster can be
 determined with SQLite

---
 src/hypershell/data/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 2c3db6b..52749e8 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -505,10 +505,10 @@ class Task(Entity):
     def effective_rate_by_client(cls: Type[Task]) -> Optional[Dict[str, float]]:
         """Effective completion rate in tasks per second by client."""
         if server_id := cls.latest_server():
-            return {id: 1 / dt.total_seconds() for id, dt in (
+            # NOTE: elapsed time is computed here because SQLite cannot subtract date-times
+            return {id: count / (completed - started).total_seconds() for id, started, completed, count in (
                 cls.query(
-                    cls.client_id,
-                    (func.max(cls.completion_time) - func.min(cls.start_time)) / func.count(cls.id)
+                    cls.client_id, func.min(cls.start_time), func.max(cls.completion_time), func.count(cls.id)
                 )
                 .join(Client, Task.client_id == Client.id)
                 .filter(cls.server_id == server_id)
@@ -516,7 +516,7 @@ class Task(Entity):
                 .filter(Client.disconnected_at == None)  # noqa: comparison to None
                 .group_by(cls.client_id)
                 .all()
-            )}
+            ) if started is not None and completed > started}
         else:
             return None
 
-- 
2.43.0


From bc0ed820530a226ef07060d71d99463762493d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:47 +0000
Subject: [PATCH 17/69] fix: a template pattern must match as a whole

'{= x == 2 =}' was expanded as '{= x =}' and '{% date +%s %}' as '{% date + %}' because
the text after the first closing delimiter was silently ignored.
---
 src/hypershell/core/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/core/template.py b/src/hypershell/core/template.py
index 4a3ed21..a70385c 100644
--- a/src/hypershell/core/template.py
+++ b/src/hypershell/core/template.py
@@ -97,7 +97,7 @@ class Template:
         """Expand complex (nested) patterns in template against `args`."""
         key_ = '{' + key + '}'
         for pattern, routine in self.complex_patterns.items():
-            if inner_match := re.match(pattern, key):
+            if inner_match := re.fullmatch(pattern, key):
                 try:
                     inner_key, = inner_match.groups()
                     return routine(args, inner_key)
-- 
2.43.0


From 14252856c52e6a034778e51d252b88ffdf8576f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 18/69] fix: template slices accept negative values as
 documented

'{[-1]}' and '{[-2:]}' were rejected; anything that is not a slice is still an error.
---
 src/hypershell/core/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/core/template.py b/src/hypershell/core/template.py
index a70385c..b336ab9 100644
--- a/src/hypershell/core/template.py
+++ b/src/hypershell/core/template.py
@@ -171,7 +171,7 @@ class Template:
 
     def expand_slice(self: Template, args: str, key: str) -> str:
         """Expand slice `key` ([start][:stop][:step]) against args (on white space)."""
-        if re.match(r'(\d+)?:?(\d+)?:?(\d+)?$', key):
+        if re.fullmatch(r'-?\d+|(-?\d+)?:(-?\d+)?(:(-?\d+)?)?', key):
             result = eval(f'chunks[{key}]', {'chunks': args.split()})
             return ' '.join(result if isinstance(result, list) else [result, ])
         else:
-- 
2.43.0


From 6ac8bb78487382cb8d460e0df59a5d3ae39a4899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 19/69] fix: check all entries of a tag dictionary

An entry without value ended the check, so that invalid entries after it were accepted.
---
 src/hypershell/data/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 52749e8..2b38cf0 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -297,7 +297,7 @@ class Task(Entity):
                 raise TypeError(f'Invalid type for tag value, {type(value)})')
             if isinstance(value, str):
                 if not value.strip():
-                    return  # Empty value is a naked tag (no value).
+                    continue  # Empty value is a naked tag (no value).
                 if len(value) > 120:
                     raise ValueError(f'Tag size ({len(value)}) exceeds 120 characters ({key}: {value})')
                 if not re.match(r'^[A-Za-z0-9_.+-]+$', value):
-- 
2.43.0


From a3a6c106e2683bc30d3f2889b248d9d74836a931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:25 +0000
Subject: [PATCH 20/69] fix: a tag value with a trailing line break is not
 valid

---
 src/hypershell/data/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 2b38cf0..8b771e5 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -300,7 +300,7 @@ class Task(Entity):
                     continue  # Empty value is a naked tag (no value).
                 if len(value) > 120:
                     raise ValueError(f'Tag size ({len(value)}) exceeds 120 characters ({key}: {value})')
-                if not re.match(r'^[A-Za-z0-9_.+-]+$', value):
+                if not re.fullmatch(r'[A-Za-z0-9_.+-]+', value):
                     raise ValueError(f'Tag must only contain alphanumerics and basic symbols [+._-]: '
                                      f'({key}: {value})')
 
-- 
2.43.0


From 18b45adb773562ca785bbbb6505fab8cd48d83e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 21/69] fix: conditions with >= and <= are understood

The pattern tried the shorter operator first, so `duration >= 600` compared
with the text `= 600`, which never holds (and `<=` always does).
---
 src/hypershell/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index a8c738d..81a6ec4 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -1057,7 +1057,7 @@ class WhereClause:
     value: Any
     operand: str
 
-    pattern = re.compile(r'^([a-z_]+)\s*(==|!=|>|>=|<|<=|~)\s*(.*)$')
+    pattern = re.compile(r'^([a-z_]+)\s*(==|!=|>=|<=|>|<|~)\s*(.*)$')
     op_call = {
         '==': lambda lhs, rhs: lhs == rhs,
         '!=': lambda lhs, rhs: lhs != rhs,
-- 
2.43.0


From ac54fd83a138d760e02d5bcc41e0cd2aa5836a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 22/69] fix: reject conditions on unknown task fields

Names of other attributes of the class were compared in Python, so a condition
such as `count != 3` was satisfied by all tasks.
---
 src/hypershell/task.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 81a6ec4..48c1254 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -1085,6 +1085,8 @@ class WhereClause:
         match = cls.pattern.match(argument)
         if match:
             field, operand, value = match.groups()
+            if field not in Task.columns:
+                raise ArgumentError(f'Unrecognized task field "{field}" in where clause ({argument})')
             if Task.columns.get(field) is str:
                 # We want to coerce the value (e.g., as an int or None)
                 # But also allow for, e.g., args==1 which expects type str.
-- 
2.43.0


From 525abd1f5439740924677dc6ca37cf3319e42f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 23/69] fix: the pattern of a ~ condition is always text

Searching for `args ~ none` failed because the pattern was read as null.
---
 src/hypershell/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 48c1254..00023c6 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -1087,7 +1087,9 @@ class WhereClause:
             field, operand, value = match.groups()
             if field not in Task.columns:
                 raise ArgumentError(f'Unrecognized task field "{field}" in where clause ({argument})')
-            if Task.columns.get(field) is str:
+            if operand == '~':
+                pass  # NOTE: regular expression (e.g., args ~ none)
+            elif Task.columns.get(field) is str:
                 # We want to coerce the value (e.g., as an int or None)
                 # But also allow for, e.g., args==1 which expects type str.
                 value = None if value.lower() in {'none', 'null'} else value
-- 
2.43.0


From 26580d21e4b1aa721491f34728b67fade6e34bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 24/69] fix: compare times as times in conditions

The given text was compared with the text stored in the database, so e.g.
`start_time >= 2024-05-01T12:00:00` did not hold at 13:00 on the same day and
`start_time == 2024-05-01 12:00:00` never did.
---
 src/hypershell/task.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 00023c6..67bee27 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -6,7 +6,7 @@
 
 # type annotations
 from __future__ import annotations
-from typing import List, Dict, Callable, IO, Tuple, Any, Optional, Type, Final
+from typing import List, Dict, Callable, IO, Tuple, Any, Optional, Type, Union, Final
 
 # standard libs
 import os
@@ -1093,12 +1093,23 @@ class WhereClause:
                 # We want to coerce the value (e.g., as an int or None)
                 # But also allow for, e.g., args==1 which expects type str.
                 value = None if value.lower() in {'none', 'null'} else value
+            elif Task.columns.get(field) is datetime:
+                value = cls.smart_coerce_time(value)
             else:
                 value = smart_coerce(value)
             return WhereClause(field=field, value=value, operand=operand)
         else:
             raise ArgumentError(f'Where clause not understood ({argument})')
 
+    @staticmethod
+    def smart_coerce_time(value: str) -> Union[datetime, JSONValue]:
+        """Coerce `value` to date and time if possible (otherwise compare as text, e.g., `2024-05`)."""
+        try:
+            time = datetime.fromisoformat(value)
+            return time if time.tzinfo is None else time.astimezone()
+        except ValueError:
+            return smart_coerce(value)
+
 
 @dataclass
 class Tag:
-- 
2.43.0


From e478ef04953742d0bfe535849cf8d0ea0c0d4a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 25/69] fix: search by several tag names and by tags without
 value

All names shared one query parameter, so only the last one counted; and a tag
whose value is null was not found by its name.
---
 src/hypershell/task.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 67bee27..3c9df99 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -428,11 +428,13 @@ class SearchableMixin:
             if isinstance(tags_with_value[name], str) and not tags_with_value[name]:
                 tags_name_only.append(name)
                 tags_with_value.pop(name)
-        for name in tags_name_only:
+        for i, name in enumerate(tags_name_only):
             if config.database.provider == 'sqlite':
                 # NOTE: sqlalchemy adds `json_quote(json_extract(task.tag, ?)) is not null`
                 # and cannot find a way to exclude `json_quote`, so we do it ourselves
-                query = query.filter(text('json_extract(task.tag, :key) is not null')).params(key=f'$."{name}"')
+                # NOTE: `json_type` unlike `json_extract` is not null when the value of the tag is
+                query = query.filter(text(f'json_type(task.tag, :key_{i}) is not null')
+                                     .bindparams(**{f'key_{i}': f'$."{name}"'}))
             else:
                 query = query.filter(Task.tag[name].isnot(None))
         for name, value in tags_with_value.items():
-- 
2.43.0


From a7d3e63edc51f0b83e969c0efd530d6aff224644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 26/69] fix: search for tags with the values null, 1.0 and 0.0

A search for the tag value null also returned all tasks without the tag, and
the numbers 1.0 and 0.0 were read as true and false.
---
 src/hypershell/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 3c9df99..cf1cca0 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -428,6 +428,8 @@ class SearchableMixin:
             if isinstance(tags_with_value[name], str) and not tags_with_value[name]:
                 tags_name_only.append(name)
                 tags_with_value.pop(name)
+            elif tags_with_value[name] is None:
+                tags_name_only.append(name)  # NOTE: a missing tag would also compare as null
         for i, name in enumerate(tags_name_only):
             if config.database.provider == 'sqlite':
                 # NOTE: sqlalchemy adds `json_quote(json_extract(task.tag, ?)) is not null`
@@ -438,7 +440,7 @@ class SearchableMixin:
             else:
                 query = query.filter(Task.tag[name].isnot(None))
         for name, value in tags_with_value.items():
-            if config.database.provider == 'sqlite' and value in (True, False):
+            if config.database.provider == 'sqlite' and isinstance(value, bool):
                 value = int(value)  # NOTE: SQLite stores as 0/1 not JSON true/false :(
             query = query.filter(Task.tag[name] == type_coerce(value, JSON))
         return query
-- 
2.43.0


From 0f5224f24bb3161a15e5ed317308ad036153975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 27/69] fix: reject assigning text to the tag dictionary in
 bulk updates

`hs task update tag=x` stored an invalid tag for all matching tasks, which
could then not be read anymore.
---
 src/hypershell/task.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index cf1cca0..c7cf05f 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -971,6 +971,8 @@ class TaskUpdateApp(Application, SearchableMixin):
                 field, value = arg.split('=', 1)
                 if field == 'id':
                     raise ArgumentError(f'Cannot alter task "id" (given: {field}={value})')
+                if field == 'tag':
+                    raise ArgumentError(f'Cannot assign all tags (given: {field}={value}): use "key:value"')
                 if field not in Task.columns:
                     raise ArgumentError(f'Unrecognized task field "{field}"')
                 if Task.columns.get(field) is str:
-- 
2.43.0


From 984826473e2e6265f2b8e94cbd98c4e453d54f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 28/69] fix: times can be assigned in bulk updates

Text given for a time was refused by the database interface.
---
 src/hypershell/task.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index c7cf05f..56b32d3 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -979,6 +979,8 @@ class TaskUpdateApp(Application, SearchableMixin):
                     # We want to coerce the value (e.g., as an int or None)
                     # But also allow for, e.g., args==1 which expects type str.
                     value = None if value.lower() in {'none', 'null'} else value
+                elif Task.columns.get(field) is datetime:
+                    value = WhereClause.smart_coerce_time(value)
                 else:
                     value = smart_coerce(value)
                 field_updates[field] = value
-- 
2.43.0


From 55659cd1903e1d261df1e17d44d202d3c54e7410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 29/69] fix: bulk updates with a limit change the same tasks
 throughout

The query was repeated for tags after the fields had been changed already, and
could match other tasks (or none) by then.
---
 src/hypershell/task.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 56b32d3..0863dab 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -899,24 +899,14 @@ class TaskUpdateApp(Application, SearchableMixin):
             # We cannot apply an UPDATE query with a LIMIT field
             # The alternative is to pull the data and batch the update
             # While terribly inefficient at least it has a LIMIT
-            if field_updates:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([{'id': task.id, **field_updates} for task in batch])
-            if tag_updates:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([{'id': task.id, 'tag': {**task.tag, **tag_updates}} for task in batch])
-            if self.remove_tag:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([
-                        {'id': task.id, 'tag': self.drop_items(task.tag, *self.remove_tag)}
-                        for task in batch
-                    ])
+            # NOTE: all changes at once, a second query could match other tasks after the first change
+            tasks_it = iter(query.all() if field_updates or tag_updates or self.remove_tag else [])
+            while batch := tuple(itertools.islice(tasks_it, 100)):
+                changes = [{'id': task.id, **field_updates} for task in batch]
+                if tag_updates or self.remove_tag:
+                    for task, change in zip(batch, changes):
+                        change['tag'] = self.drop_items({**task.tag, **tag_updates}, *(self.remove_tag or []))
+                Task.update_all(changes)
             log.info(f'Updated {count} tasks')
             return
 
-- 
2.43.0


From e592794fa8c66f72f90682a2ab27ffa2c6c66136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 30/69] fix: --delete can be used with --limit as documented

---
 src/hypershell/task.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 0863dab..08b7f13 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -865,7 +865,13 @@ class TaskUpdateApp(Application, SearchableMixin):
                 return
 
         if self.delete_mode:
-            query.delete()
+            if self.limit is not None:
+                # We cannot apply a DELETE query with a LIMIT field
+                ids_it = iter([task.id for task in query.all()])
+                while batch := list(itertools.islice(ids_it, 100)):
+                    Task.query().filter(Task.id.in_(batch)).delete()
+            else:
+                query.delete()
             Session.commit()
             log.info(f'Deleted {count} tasks')
             return
-- 
2.43.0


From 1d685176d8d76c18727ae700c531395f5fe007b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 31/69] fix: bulk updates change fields and tags of the same
 tasks with exact values

- The conditions were evaluated again for tags after the fields had been changed
  already, and could match other tasks (or none) by then.
- The name of a tag was read as a path (e.g., `a.b`).
- The values true and false were stored as numbers.
---
 src/hypershell/task.py | 52 +++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 08b7f13..402c810 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -32,7 +32,7 @@ from sqlalchemy import Column, type_coerce, JSON, text, func, distinct
 from sqlalchemy.exc import StatementError
 from sqlalchemy.orm import Query
 from sqlalchemy.orm.exc import StaleDataError
-from sqlalchemy.sql.elements import BinaryExpression
+from sqlalchemy.sql.elements import BinaryExpression, TextClause
 
 # internal libs
 from hypershell.core.platform import default_path
@@ -916,42 +916,13 @@ class TaskUpdateApp(Application, SearchableMixin):
             log.info(f'Updated {count} tasks')
             return
 
+        if tag_updates or self.remove_tag:
+            field_updates['tag'] = self.build_tag_expression(tag_updates)
+
         if field_updates:
+            # NOTE: all changes at once, a second query could match other tasks after the first change
             query.update(field_updates)
 
-        if tag_updates:
-            if config.database.provider == 'sqlite':
-                tag_changes = {}
-                change_expr = 'json_set(task.tag'
-                for i, (k, v) in enumerate(tag_updates.items()):
-                    tag_changes[f'k{i}'] = f'$.{k}'
-                    tag_changes[f'v{i}'] = v
-                    change_expr += f', :k{i}, :v{i}'
-                change_expr += ')'
-                query.update({Task.tag: text(change_expr).params(tag_changes)})
-            else:
-                # We cannot stack inserts with Postgres
-                # Instead we do them with individual update queries
-                for i, (k, v) in enumerate(tag_updates.items()):
-                    change_expr = 'jsonb_set(task.tag, :key, :value)'
-                    params = {'key': '{' + k + '}', 'value': json.dumps(to_json_type(v))}
-                    query.update({Task.tag: text(change_expr).params(**params)})
-
-        if self.remove_tag:
-            if config.database.provider == 'sqlite':
-                tag_changes = {}
-                change_expr = 'json_remove(task.tag'
-                for i, name in enumerate(self.remove_tag):
-                    tag_changes[f'k{i}'] = f'$.{name}'
-                    change_expr += f', :k{i}'
-                change_expr += ')'
-                query.update({Task.tag: text(change_expr).params(tag_changes)})
-            else:
-                # We cannot stack subtractions with Postgres
-                # Instead we do them with individual update queries
-                for name in self.remove_tag:
-                    query.update({Task.tag: text('task.tag - :name').params(name=name)})
-
         Session.commit()
         log.info(f'Updated {count} tasks')
 
@@ -996,6 +967,19 @@ class TaskUpdateApp(Application, SearchableMixin):
 
         return field_updates, tag_updates
 
+    def build_tag_expression(self: TaskUpdateApp, tag_updates: Dict[str, Any]) -> TextClause:
+        """SQL expression for the altered tags."""
+        params, expr = {}, 'task.tag'
+        sqlite = config.database.provider == 'sqlite'
+        for i, (name, value) in enumerate(tag_updates.items()):
+            params[f'k{i}'] = f'$."{name}"' if sqlite else '{"' + name + '"}'
+            params[f'v{i}'] = json.dumps(to_json_type(value))
+            expr = f'json_set({expr}, :k{i}, json(:v{i}))' if sqlite else f'jsonb_set({expr}, :k{i}, :v{i})'
+        for i, name in enumerate(self.remove_tag or []):
+            params[f'r{i}'] = f'$."{name}"' if sqlite else name
+            expr = f'json_remove({expr}, :r{i})' if sqlite else f'({expr} - :r{i})'
+        return text(expr).bindparams(**params)
+
     @staticmethod
     def drop_items(d: dict, *keys: str) -> dict:
         """Drop items by key if they exist."""
-- 
2.43.0


From fd3a3fa20d18efee6ee84ce09d7e4c03789a50ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 32/69] fix: search for tags with numbers in exponent form or
 many digits

The text of a number in SQLite is not the one in Python (e.g., 1e-05 and 1.0e-05),
compare as numbers instead of their text.
---
 src/hypershell/task.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 402c810..c457a4b 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -440,9 +440,12 @@ class SearchableMixin:
             else:
                 query = query.filter(Task.tag[name].isnot(None))
         for name, value in tags_with_value.items():
-            if config.database.provider == 'sqlite' and isinstance(value, bool):
-                value = int(value)  # NOTE: SQLite stores as 0/1 not JSON true/false :(
-            query = query.filter(Task.tag[name] == type_coerce(value, JSON))
+            if config.database.provider == 'sqlite' and isinstance(value, (bool, int, float)):
+                # NOTE: SQLite stores as 0/1 not JSON true/false :(
+                # NOTE: the text of a number is not the same in SQLite (e.g., 1.0e-05)
+                query = query.filter(Task.tag[name].as_float() == value)
+            else:
+                query = query.filter(Task.tag[name] == type_coerce(value, JSON))
         return query
 
     def __build_where_clause(self: SearchableMixin, query: Query) -> Query:
-- 
2.43.0


From 7e5f47c29c911c82a382d6dfec14c93ecfd901af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 33/69] fix: conditions may contain line breaks

---
 src/hypershell/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index c457a4b..2d3e432 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -1048,7 +1048,7 @@ class WhereClause:
     value: Any
     operand: str
 
-    pattern = re.compile(r'^([a-z_]+)\s*(==|!=|>=|<=|>|<|~)\s*(.*)$')
+    pattern = re.compile(r'^([a-z_]+)\s*(==|!=|>=|<=|>|<|~)\s*(.*)$', re.DOTALL)
     op_call = {
         '==': lambda lhs, rhs: lhs == rhs,
         '!=': lambda lhs, rhs: lhs != rhs,
-- 
2.43.0


From 903d50254eee0464b72c237e0b6e8411c696288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 34/69] fix: single task update rejects a new identifier and
 accepts times

---
 src/hypershell/task.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 2d3e432..77724ea 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -826,6 +826,8 @@ class TaskUpdateApp(Application, SearchableMixin):
         uuid, field, value = self.update_args
         if field not in Task.columns:
             raise ArgumentError(f'Invalid field name "{field}"')
+        if field == 'id':
+            raise ArgumentError(f'Cannot alter task "id" (given: {value})')
         try:
             if field == 'tag':
                 Task.update(uuid, tag={**Task.from_id(uuid).tag,
@@ -833,6 +835,8 @@ class TaskUpdateApp(Application, SearchableMixin):
             else:
                 if Task.columns.get(field) is str:
                     value = None if value.lower() in {'none', 'null'} else value
+                elif Task.columns.get(field) is datetime:
+                    value = WhereClause.smart_coerce_time(value)
                 else:
                     value = smart_coerce(value)
                 Task.update(uuid, **{field: value, })
-- 
2.43.0


From edae1dbd6b1f6bff636c019006908231aac9a04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:34 +0000
Subject: [PATCH 35/69] fix: search for several values of the same tag

Every condition has to hold, not only the last one with the same name.
---
 src/hypershell/task.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 77724ea..6d46e1f 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -423,13 +423,14 @@ class SearchableMixin:
     def __build_where_clause_for_tags(self: SearchableMixin, query: Query) -> Query:
         """Add JSON-based tag where-clauses to query if necessary."""
         tags_name_only = []
-        tags_with_value = Tag.parse_cmdline_list(self.taglist)
-        for name in list(tags_with_value.keys()):
-            if isinstance(tags_with_value[name], str) and not tags_with_value[name]:
-                tags_name_only.append(name)
-                tags_with_value.pop(name)
-            elif tags_with_value[name] is None:
-                tags_name_only.append(name)  # NOTE: a missing tag would also compare as null
+        tags_with_value = []
+        for tag in map(Tag.from_cmdline, self.taglist):
+            if isinstance(tag.value, str) and not tag.value:
+                tags_name_only.append(tag.name)
+                continue
+            if tag.value is None:
+                tags_name_only.append(tag.name)  # NOTE: a missing tag would also compare as null
+            tags_with_value.append((tag.name, tag.value))
         for i, name in enumerate(tags_name_only):
             if config.database.provider == 'sqlite':
                 # NOTE: sqlalchemy adds `json_quote(json_extract(task.tag, ?)) is not null`
@@ -439,7 +440,7 @@ class SearchableMixin:
                                      .bindparams(**{f'key_{i}': f'$."{name}"'}))
             else:
                 query = query.filter(Task.tag[name].isnot(None))
-        for name, value in tags_with_value.items():
+        for name, value in tags_with_value:
             if config.database.provider == 'sqlite' and isinstance(value, (bool, int, float)):
                 # NOTE: SQLite stores as 0/1 not JSON true/false :(
                 # NOTE: the text of a number is not the same in SQLite (e.g., 1.0e-05)
-- 
2.43.0


From c09cf9095a8957b5bc478cfb943317a3b32da24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 36/69] fix: bulk updates reject an invalid tag given before a
 valid one of the same name

---
 src/hypershell/task.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 6d46e1f..08297ef 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -962,11 +962,10 @@ class TaskUpdateApp(Application, SearchableMixin):
             elif ':' in arg:
                 key, value = arg.split(':', 1)
                 tag_updates[key] = smart_coerce(value)
+                Task.ensure_valid_tag(tag_updates)
             else:
                 raise ArgumentError(f'Argument not recognized ({arg}): missing "=" or ":"')
 
-        Task.ensure_valid_tag(tag_updates)
-
         if self.order_desc and not self.order_by:
             raise ArgumentError('Should not provide --desc if not using -s/--order-by')
 
-- 
2.43.0


From b9f63a57ff1222b2ec4ec576a2a116201bab3d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 37/69] fix: load the local configuration file also if no user
 configuration is given

---
 src/hypershell/core/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index 8e5f855..ee8085c 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -168,7 +168,7 @@ def partial_load(system: Optional[str] = path.system.config,
         'default': default, **preload,
         'system': {} if not system else load_file(system),
         'user': {} if not user else load_file(user),
-        'local': {} if not user else load_file(local),
+        'local': {} if not local else load_file(local),
         'env': load_env(),
     })
 
-- 
2.43.0


From e265c425efa8762c1715da9cb66df02b7dc437f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 38/69] fix: read configuration files with the library that
 writes them (values with quotes were lost)

---
 src/hypershell/core/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index ee8085c..b297d8e 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -137,7 +137,8 @@ def reload_file(filepath: str) -> Namespace:
     if not os.path.exists(filepath):
         return Namespace({})
     try:
-        return Namespace.from_toml(filepath)
+        with open(filepath, mode='r', encoding='utf-8') as stream:
+            return Namespace(tomlkit.parse(stream.read()).unwrap())
     except Exception as err:
         raise ConfigurationError(f'(from file: {filepath}) {err.__class__.__name__}: {err}')
 
-- 
2.43.0


From be6cb5bba82ec4501280e4c42e2f10dfd706f28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 39/69] fix: config set works with a configuration file in the
 current directory

---
 src/hypershell/core/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index b297d8e..57f32ef 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -298,7 +298,7 @@ DEFAULT_CONFIG_HEADERS = f"""\
 def update(scope: str, partial: dict) -> None:
     """Extend the current configuration and commit it to disk."""
     config_path = path[scope].config
-    os.makedirs(os.path.dirname(config_path), exist_ok=True)
+    os.makedirs(os.path.dirname(config_path) or '.', exist_ok=True)
     if os.path.exists(config_path):
         timestamp = datetime.now().strftime('%Y%m%d-%H%M%S')
         config_backup_path = os.path.join(os.path.dirname(config_path), f'.config.{timestamp}.toml')
-- 
2.43.0


From af1a14a0a460f9731e51103b734d6ece48571d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 40/69] fix: config set keeps all other options for every
 layout of the file and if the value cannot be written

---
 src/hypershell/core/config.py | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index 57f32ef..100d283 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -13,7 +13,9 @@ import os
 import re
 import sys
 import shutil
+import json
 import tomlkit
+import tomlkit.exceptions
 import logging
 import socket
 import functools
@@ -308,11 +310,32 @@ def update(scope: str, partial: dict) -> None:
     else:
         with open(config_path, mode='w') as stream:
             stream.write(DEFAULT_CONFIG_HEADERS)
-    with open(config_path, mode='r') as stream:
-        new_config = tomlkit.parse(stream.read())
-    _inplace_update(new_config, partial)
-    with open(config_path, mode='w') as stream:
-        tomlkit.dump(new_config, stream)
+    with open(config_path, mode='r', encoding='utf-8') as stream:
+        new_content = _update_content(stream.read(), partial)
+    new_content.encode('utf-8')  # NOTE: must not fail after the file is truncated
+    with open(config_path, mode='w', encoding='utf-8') as stream:
+        stream.write(new_content)
+
+
+def _update_content(content: str, partial: dict) -> str:
+    """Apply changes to `content` of configuration file."""
+    expected = Namespace(tomlkit.parse(content).unwrap())
+    expected.update(partial)
+    try:
+        new_config = tomlkit.parse(content)
+        _inplace_update(new_config, partial)
+        new_content = tomlkit.dumps(new_config)
+        if _normalized(tomlkit.parse(new_content).unwrap()) == _normalized(expected):
+            return new_content
+    except tomlkit.exceptions.TOMLKitError:
+        pass
+    # NOTE: not all layouts can be altered in place (e.g., sections defined in pieces)
+    return tomlkit.dumps(expected.to_dict())
+
+
+def _normalized(data: dict) -> str:
+    """Format data in a canonical way for comparison."""
+    return json.dumps(data, sort_keys=True, default=repr)
 
 
 # Re-implemented from `cmdkit.config.Namespace` (but works with `tomlkit`)
@@ -323,7 +346,7 @@ def _inplace_update(original: dict, partial: dict) -> dict:
     """
     for key, value in partial.items():
         if isinstance(value, dict) and isinstance(original.get(key), dict):
-            original[key] = _inplace_update(original.get(key, {}), value)
+            _inplace_update(original[key], value)
         else:
             original[key] = value
     return original
-- 
2.43.0


From 288986e551c67cb124bcbe8f188690dc9b6d5635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 41/69] fix: exported environment variables are passed to tasks
 as written

---
 src/hypershell/core/config.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index 100d283..338ec3e 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -378,4 +378,9 @@ def __collapse_lists(ns: Namespace) -> Namespace:
 @functools.cache
 def load_task_env() -> Environ:
     """Export environment defined in `config.export`."""
-    return __collapse_lists(config.export).to_env().flatten()
+    exports = __collapse_lists(config.export).to_env().flatten()
+    for name, value in os.environ.items():
+        # NOTE: as written (loading the configuration would coerce the value, e.g., "007" to 7)
+        if name.startswith('HYPERSHELL_EXPORT_') and name != 'HYPERSHELL_EXPORT_':
+            exports[name[len('HYPERSHELL_EXPORT_'):].upper()] = value
+    return exports
-- 
2.43.0


From bc8005cca4d72a1e45297da904e9fb0b60ae6fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 42/69] fix: tags named like an attribute of the environment
 have their value in the environment of the task

---
 src/hypershell/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 9b22a22..d1e4948 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -424,7 +424,8 @@ def task_env(task: Task) -> Dict[str, str]:
     task_data = task.to_json()
     try:
         # We have to flatten tag data separately, otherwise we'd have TASK_TAG='{...}'
-        tag_data = Namespace(task_data.pop('tag')).to_env().flatten(prefix='TASK_TAG')
+        # NOTE: below a section because a tag could be named like an attribute of `Environ`
+        tag_data = Namespace({'tag': dict(task_data.pop('tag'))}).to_env().flatten(prefix='TASK')
     except Exception:  # noqa: any exception
         tag_data = {}
     return {
-- 
2.43.0


From 5a06373877be7f8e56ba34718a70e4000e97819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:11 +0000
Subject: [PATCH 43/69] fix: keep quotes that belong to a field when printing
 tasks

---
 src/hypershell/task.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 08297ef..eb71b40 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -179,7 +179,8 @@ class TaskInfoApp(Application):
     def print_field(self: TaskInfoApp) -> None:
         """Print single field."""
         if self.extract_field != 'tag':
-            print(json.dumps(self.task.to_json().get(self.extract_field)).strip('"'))
+            value = self.task.to_json().get(self.extract_field)
+            print(value if isinstance(value, str) else json.dumps(value))
         elif self.output_format == 'normal':
             print(', '.join(f'{k}:{v}' if v else k for k, v in self.task.tag.items()))
         else:
@@ -648,7 +649,7 @@ class TaskSearchApp(Application, SearchableMixin):
         for name in self.field_names:
             table.add_column(name)
         for record in results:
-            table.add_row(*[json.dumps(to_json_type(value)).strip('"') for value in record])
+            table.add_row(*[format_value(value) for value in record])
         Console().print(table)
 
     @staticmethod
@@ -661,8 +662,7 @@ class TaskSearchApp(Application, SearchableMixin):
     def print_plain(self: TaskSearchApp, results: List[Tuple]) -> None:
         """Print plain text output with given field names, one task per line."""
         for record in results:
-            data = [json.dumps(to_json_type(value)).strip('"') for value in record]
-            print(self.output_delimiter.join(map(str, data)))
+            print(self.output_delimiter.join(map(format_value, record)))
 
     def print_json(self: TaskSearchApp, results: List[Tuple]) -> None:
         """Print in output in JSON format."""
@@ -1136,7 +1136,7 @@ class Tag:
 
 def print_normal(task: Task) -> None:
     """Print semi-structured task metadata with all field names."""
-    task_data = {k: json.dumps(to_json_type(v)).strip('"') for k, v in task.to_dict().items()}
+    task_data = {k: format_value(v) for k, v in task.to_dict().items()}
     task_data['waited'] = 'null' if not task.waited else timedelta(seconds=int(task_data['waited']))
     task_data['duration'] = 'null' if not task.duration else timedelta(seconds=int(task_data['duration']))
     task_data['tag'] = ', '.join(format_tag(k, v) for k, v in task.tag.items())
@@ -1160,6 +1160,13 @@ def print_normal(task: Task) -> None:
     print(f'        tags: {task_data["tag"]}')
 
 
+def format_value(value: Any) -> str:
+    """Format field value as JSON text without the enclosing quotes of a string."""
+    value = to_json_type(value)
+    output = json.dumps(value)
+    return output[1:-1] if isinstance(value, str) else output
+
+
 def format_tag(key: str, value: JSONValue) -> str:
     """Format as `key` or `key:value` if not empty string."""
     if isinstance(value, str) and not value:
-- 
2.43.0


From 5c0baafe0ccb6d503ae3b9c06562444aac03bae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:11 +0000
Subject: [PATCH 44/69] fix: do not read task fields as markup in table output

---
 src/hypershell/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index eb71b40..b652873 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -26,6 +26,7 @@ import yaml
 from rich.console import Console
 from rich.syntax import Syntax
 from rich.table import Table
+from rich.text import Text
 from cmdkit.app import Application, ApplicationGroup, exit_status
 from cmdkit.cli import Interface, ArgumentError
 from sqlalchemy import Column, type_coerce, JSON, text, func, distinct
@@ -649,7 +650,7 @@ class TaskSearchApp(Application, SearchableMixin):
         for name in self.field_names:
             table.add_column(name)
         for record in results:
-            table.add_row(*[format_value(value) for value in record])
+            table.add_row(*[Text(format_value(value)) for value in record])
         Console().print(table)
 
     @staticmethod
-- 
2.43.0


From b5138d07f18334b93e8c9296963303279ebed324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:11 +0000
Subject: [PATCH 45/69] fix: show zero and false values of tags and durations
 in task info

---
 src/hypershell/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index b652873..5f5fa73 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -183,7 +183,7 @@ class TaskInfoApp(Application):
             value = self.task.to_json().get(self.extract_field)
             print(value if isinstance(value, str) else json.dumps(value))
         elif self.output_format == 'normal':
-            print(', '.join(f'{k}:{v}' if v else k for k, v in self.task.tag.items()))
+            print(', '.join(format_tag(k, v) for k, v in self.task.tag.items()))
         else:
             formatter = self.format_method[self.output_format]
             output = formatter(self.task.tag)
@@ -1138,8 +1138,8 @@ class Tag:
 def print_normal(task: Task) -> None:
     """Print semi-structured task metadata with all field names."""
     task_data = {k: format_value(v) for k, v in task.to_dict().items()}
-    task_data['waited'] = 'null' if not task.waited else timedelta(seconds=int(task_data['waited']))
-    task_data['duration'] = 'null' if not task.duration else timedelta(seconds=int(task_data['duration']))
+    task_data['waited'] = 'null' if task.waited is None else timedelta(seconds=int(task_data['waited']))
+    task_data['duration'] = 'null' if task.duration is None else timedelta(seconds=int(task_data['duration']))
     task_data['tag'] = ', '.join(format_tag(k, v) for k, v in task.tag.items())
     print(f'          id: {task_data["id"]}')
     print(f'        args: {task_data["args"]}')
-- 
2.43.0


From 08452aa58ba171926645d1201bf9198fb7beda4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:11 +0000
Subject: [PATCH 46/69] fix: keep quotes that belong to the value when printing
 configuration

---
 src/hypershell/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index 2300b93..a80f80f 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -218,15 +218,15 @@ class ConfigGetApp(Application):
 
     def print_output(self: ConfigGetApp, value: Any) -> None:
         """Format and print final `value`."""
-        value = self.format_output(value)
+        output = self.format_output(value)
         if sys.stdout.isatty() and not self.raw_mode:
-            output = Syntax(value, 'toml', word_wrap=True,
+            output = Syntax(output, 'toml', word_wrap=True,
                             theme = full_config.console.theme,
                             background_color = 'default')
             Console().print(output)
         else:
             # NOTE: JSON formatting puts quotations - we don't want these on raw output
-            print(value.strip('"'), file=sys.stdout, flush=True)
+            print(value if isinstance(value, str) else output, file=sys.stdout, flush=True)
 
     def format_output(self: ConfigGetApp, value: Any) -> str:
         """Format `value` as appropriate text."""
-- 
2.43.0


From a8c6aa3a3f999d78ce0bc92bd4e0d2128da428e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:14 +0000
Subject: [PATCH 47/69] fix: show the origin of settings that follow from the
 logging style

---
 src/hypershell/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index a80f80f..024d513 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -382,7 +382,7 @@ class ConfigWhichApp(Application):
             value = '[...]'
         if '[' in default_value:
             default_value = '[...]'
-        if site in ('default', 'logging', ):
+        if site in ('default', 'preload', ):
             print(f'{value} ({site})')
         elif site == 'env':
             env_varname = 'HYPERSHELL_' + self.varpath.upper().replace('.', '_')
-- 
2.43.0


From 17a10cc4becce113a768e581879dead54e0d07cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:14 +0000
Subject: [PATCH 48/69] fix: looking below a setting that is no section is a
 configuration error

---
 src/hypershell/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index 024d513..103d528 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -190,6 +190,8 @@ class ConfigGetApp(Application):
             raise ConfigurationError(f'"{section}" is not a section in {config_path}')
 
         config_section = config[section]
+        if not isinstance(config_section, dict):
+            raise ConfigurationError(f'"{section}" is not a section in {config_path}')
         if subsections:
             subpath = f'{section}'
             try:
-- 
2.43.0


From c76f22ef182c0c99fe33a4e177610a114c9364e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:14 +0000
Subject: [PATCH 49/69] fix: the origin of a path below a setting that is no
 section is not found

---
 src/hypershell/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index 103d528..ebf7c93 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -358,7 +358,7 @@ class ConfigWhichApp(Application):
         """Business logic for `config which`."""
         try:
             site = full_config.which(*self.varpath.split('.'))
-        except KeyError:
+        except (KeyError, TypeError):
             log.critical(f'"{self.varpath}" not found')
             return
         if self.site_only:
-- 
2.43.0


From e74fece380a30e5b3ba31de7489b8fb92512f754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:14 +0000
Subject: [PATCH 50/69] fix: keep the quotes of section names that need them

---
 src/hypershell/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index ebf7c93..598ae51 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -251,7 +251,7 @@ class ConfigGetApp(Application):
             if not line.startswith('['):
                 lines.append(line)
             else:
-                lines.append(line.replace('"', ''))
+                lines.append(line.replace(f'["{self.varpath}"', f'[{self.varpath}', 1))
         value = '\n'.join(lines)
         return value
 
-- 
2.43.0


From aca22bb3bc11849288377222614d03921df40909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:11 +0000
Subject: [PATCH 51/69] fix: printing a nested configuration is no circular
 reference

---
 src/hypershell/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index 598ae51..81a2949 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -241,7 +241,7 @@ class ConfigGetApp(Application):
     def format_section(self: ConfigGetApp, value: dict) -> str:
         """Format an entire section for output."""
         if self.varpath == '.':
-            value = toml.dumps(value)
+            value = toml.dumps(dict(value))  # NOTE: special types can be mistaken for circular references
         else:
             value = toml.dumps({self.varpath: value})
         # NOTE: Fix weird formatting of section headings.
-- 
2.43.0


From 3ecbcd229f3de22d48cdbec538753a8a4ada4950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:34 +0000
Subject: [PATCH 52/69] fix: users and passwords of the database may contain
 any character

---
 src/hypershell/data/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/data/core.py b/src/hypershell/data/core.py
index 55306ce..f88796d 100644
--- a/src/hypershell/data/core.py
+++ b/src/hypershell/data/core.py
@@ -11,7 +11,7 @@ from typing import Any, Type
 # standard libs
 import sys
 import logging
-from urllib.parse import urlencode
+from urllib.parse import urlencode, quote
 
 # external libs
 from cmdkit.app import exit_status
@@ -138,7 +138,7 @@ class DatabaseURL(dict):
 
     def _format_user_and_password(self: DatabaseURL) -> str:
         if self.user and self.password:
-            return f'{self.user}:{self.password}@'
+            return f'{quote(str(self.user), safe="")}:{quote(str(self.password), safe="")}@'
         else:
             return ''
 
-- 
2.43.0


From 13e0b74500442bcba298377436eb10c0fafe2a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:34 +0000
Subject: [PATCH 53/69] fix: the server initializes the database if asked to
 and needs none if disabled

---
 src/hypershell/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index f83aa7b..5bdf578 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1210,7 +1210,8 @@ class ServerApp(Application):
     def __enter__(self: ServerApp) -> ServerApp:
         """Ensure context and database ready."""
         self.check_args()
-        ensuredb()
+        if not self.in_memory:
+            ensuredb(auto_init=self.auto_initdb)
         return self
 
     def __exit__(self: ServerApp,
-- 
2.43.0


From eeb56f8f27266b7e6d91c45e28d5fb069f128e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:34 +0000
Subject: [PATCH 54/69] fix: the server does not close standard output

---
 src/hypershell/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 5bdf578..7d4a0f0 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1221,5 +1221,5 @@ class ServerApp(Application):
         """Clean up IO if necessary."""
         if self.input_stream is not None and self.input_stream is not sys.stdin:
             self.input_stream.close()
-        if self.failure_stream is not None and self.failure_path is not sys.stdout:
+        if self.failure_stream is not None and self.failure_stream is not sys.stdout:
             self.failure_stream.close()
-- 
2.43.0


From c31af458262f9121f0caf03092757d8aa634cf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:53 +0000
Subject: [PATCH 55/69] fix: truncating a database configured by name rather
 than file

---
 src/hypershell/data/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/data/__init__.py b/src/hypershell/data/__init__.py
index 016d969..3e723d9 100644
--- a/src/hypershell/data/__init__.py
+++ b/src/hypershell/data/__init__.py
@@ -124,7 +124,7 @@ class InitDBApp(Application):
             raise RuntimeError('Non-interactive prompt cannot confirm --truncate (see --yes).')
         else:
             if config.database.provider == 'sqlite':
-                site = config.database.file
+                site = config.database.get('file', None) or config.database.get('database', None)
             else:
                 site = config.database.get('host', 'localhost')
             print(f'Connected to: {config.database.provider} ({site})')
-- 
2.43.0


From 79459a8240e011d87a4ad908fd7a81b48206d7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:58 +0000
Subject: [PATCH 56/69] fix: client refuses contradictory options before its
 output files are opened

---
 src/hypershell/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index d1e4948..ebd87e4 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -1215,7 +1215,6 @@ class ClientApp(Application):
     def run(self: ClientApp) -> None:
         """Run client."""
         try:
-            self.check_args()
             run_client(num_tasks=self.num_tasks,
                        bundlesize=self.bundlesize,
                        bundlewait=self.bundlewait,
@@ -1253,6 +1252,11 @@ class ClientApp(Application):
         """IO stream for task errors."""
         return sys.stderr if not self.errors_path else open(self.errors_path, mode='w')
 
+    def __enter__(self: ClientApp) -> ClientApp:
+        """Check arguments before any IO stream is opened."""
+        self.check_args()
+        return self
+
     def __exit__(self: ClientApp,
                  exc_type: Optional[Type[Exception]],
                  exc_val: Optional[Exception],
-- 
2.43.0


From c1f8407d54a7e2faa224b066997350203671d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:09 +0000
Subject: [PATCH 57/69] fix: server refuses --forever and --restart without
 database as documented

---
 src/hypershell/server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 7d4a0f0..3239e8e 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1188,6 +1188,10 @@ class ServerApp(Application):
             self.filepath = '-'  # NOTE: assume STDIN
         if self.restart_mode and self.forever_mode:
             raise ArgumentError('Using --forever with --restart is invalid')
+        if self.in_memory and self.forever_mode:
+            raise ArgumentError('Using --forever with --no-db is invalid')
+        if self.in_memory and self.restart_mode:
+            raise ArgumentError('Using --restart with --no-db is invalid')
 
     @cached_property
     def input_stream(self: ServerApp) -> Optional[IO]:
-- 
2.43.0


From 6d98995a4c81a67041a7ceb4378ff4b0da1d7769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:30 +0000
Subject: [PATCH 58/69] fix: cluster given FILE with --restart and
 --autoscaling no longer crashes

---
 src/hypershell/cluster/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index c8a795b..53e86f6 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -309,7 +309,7 @@ class ClusterApp(Application):
         if self.autoscaling_policy is not None and self.forever_mode:
             log.warning('Using --forever is redundant with --autoscaling')
         if self.autoscaling_policy is not None and given_filepath:
-            log.warning(f'Task file ({self.input_stream.name}) in use but server will '
+            log.warning(f'Task file ({self.filepath}) in use but server will '
                         f'not halt (--autoscaling implies --forever)')
         if self.autoscaling_policy is not None and self.client_timeout is not None and self.autoscaling_minimum > 0:
             log.warning(f'Use of --autoscaling with --timeout={self.client_timeout} for clients and '
-- 
2.43.0


From 67a31c6aac9cb1c8643425910da1d7b71b29382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:08 +0000
Subject: [PATCH 59/69] fix: cluster accepts --ssh-group by itself as
 documented

---
 src/hypershell/cluster/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 53e86f6..98e8ff0 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -276,6 +276,8 @@ class ClusterApp(Application):
     def check_arguments(self: ClusterApp) -> None:
         """Various checks on input arguments."""
         given_filepath = self.filepath is not None
+        if self.ssh_group and not (self.ssh_mode or self.mpi_mode or self.launch_mode):
+            self.ssh_mode = '<default>'  # NOTE: naming a group implies --ssh
         if self.filepath is None and not self.restart_mode:
             self.filepath = '-'  # NOTE: assume STDIN
         if self.restart_mode and self.in_memory:
-- 
2.43.0


From 5f70ff4b260f23e743d2eb5883edf0f13024144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:35 +0000
Subject: [PATCH 60/69] fix: client accepts --signalwait as documented

---
 src/hypershell/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index ebd87e4..fdaff14 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -1186,7 +1186,7 @@ class ClientApp(Application):
     interface.add_argument('-W', '--task-timeout', type=int, default=task_timeout, dest='task_timeout')
 
     task_signalwait: int = config.task.signalwait
-    interface.add_argument('-S', '--task-signalwait', type=int, default=task_signalwait, dest='task_signalwait')
+    interface.add_argument('-S', '--signalwait', '--task-signalwait', type=int, default=task_signalwait, dest='task_signalwait')
 
     no_confirm: bool = False
     interface.add_argument('--no-confirm', action='store_true')
-- 
2.43.0


From 562e13e699b8572cd86898aca78738ef6fb93b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:19 +0000
Subject: [PATCH 61/69] fix: submission whose committer failed ends with its
 error instead of waiting on the full buffer

---
 src/hypershell/submit.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index fa93ff8..a981456 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -173,6 +173,12 @@ class LoaderThread(Thread):
         super().stop(wait=wait, timeout=timeout)
 
 
+def drain(queue: Queue[Optional[Task]]) -> None:
+    """Discard tasks from `queue` until the end so that the loader is not blocked by a failed committer."""
+    while queue.get() is not None:
+        pass
+
+
 class DatabaseCommitterState(State, Enum):
     """Finite states for database submitter."""
     START = 0
@@ -271,7 +277,12 @@ class DatabaseCommitterThread(Thread):
 
     def run_with_exceptions(self: DatabaseCommitterThread) -> None:
         """Run machine."""
-        self.machine.run()
+        try:
+            self.machine.run()
+        except Exception:
+            if self.machine.state is not DatabaseCommitterState.FINAL:  # NOTE: end not yet seen
+                drain(self.machine.queue)
+            raise
 
     def stop(self: DatabaseCommitterThread, wait: bool = False, timeout: int = None) -> None:
         """Stop machine."""
@@ -477,7 +488,12 @@ class QueueCommitterThread(Thread):
 
     def run_with_exceptions(self: QueueCommitterThread) -> None:
         """Run machine."""
-        self.machine.run()
+        try:
+            self.machine.run()
+        except Exception:
+            if self.machine.state is not QueueCommitterState.FINAL:  # NOTE: end not yet seen
+                drain(self.machine.local)
+            raise
 
     def stop(self: QueueCommitterThread, wait: bool = False, timeout: int = None) -> None:
         """Stop machine."""
-- 
2.43.0


From e8f3026a5ae846d91fda7347b4f6d3127310c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:42 +0000
Subject: [PATCH 62/69] fix: server ends with the error of a failed component
 instead of waiting for ever

---
 src/hypershell/server.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 3239e8e..e9db19b 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -765,12 +765,21 @@ class ServerThread(Thread):
         self.heartmonitor.start()
         self.receiver.start()
 
+    def wait_for(self: ServerThread, thread: Thread) -> None:
+        """Wait for `thread` to finish unless any other component fails in the meantime."""
+        while thread.is_alive():
+            thread.join(timeout=1)
+            for other in (self.scheduler, self.heartmonitor, self.receiver, self.confirm):
+                if other is not None and not other.is_alive():
+                    other.join()  # NOTE: raises exception if failed
+        thread.join()
+
     def wait_submitter(self: ServerThread) -> None:
         """Wait on task submission to complete."""
         if self.submitter is not None:
             log.trace('Waiting (submitter)')
             try:
-                self.submitter.join()
+                self.wait_for(self.submitter)
             finally:
                 if self.scheduler is not None:
                     self.scheduler.signal_source(pending=False)
@@ -779,14 +788,14 @@ class ServerThread(Thread):
         """Wait scheduling until complete."""
         if self.scheduler is not None:
             log.trace('Waiting (scheduler)')
-            self.scheduler.join()
+            self.wait_for(self.scheduler)
 
     def wait_heartbeat(self: ServerThread) -> None:
         """Wait for heartmonitor to stop."""
         log.trace('Waiting (heartbeat)')
         self.heartmonitor.signal_scheduler_done()
         self.heartmonitor.signal_clients()
-        self.heartmonitor.join()
+        self.wait_for(self.heartmonitor)
 
     def wait_receiver(self: ServerThread) -> None:
         """Wait for receiver to stop."""
@@ -809,7 +818,8 @@ class ServerThread(Thread):
         if self.scheduler is not None:
             self.scheduler.stop(wait=wait, timeout=timeout)
         self.heartmonitor.stop(wait=wait, timeout=timeout)
-        self.queue.completed.put(None)
+        if self.receiver.is_alive():
+            self.queue.completed.put(None)
         self.receiver.stop(wait=wait, timeout=timeout)
         if not self.no_confirm:
             self.queue.confirmed.put(None)
-- 
2.43.0


From 5145ce5bb82897f0b7bf974f666cff382d53b008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:15 +0000
Subject: [PATCH 63/69] fix: client ends with the error of a failed component
 instead of waiting for ever

---
 src/hypershell/client.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index fdaff14..18f9479 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -975,24 +975,48 @@ class ClientThread(Thread):
         for executor in self.executors:
             executor.start()
 
+    def check_threads(self: ClientThread) -> None:
+        """Raise exception of any failed component which others would wait on forever."""
+        for thread in (self.collector, self.heartbeat):
+            if not thread.is_alive():
+                thread.join()  # NOTE: raises exception if failed
+        if not any(thread.is_alive() for thread in self.executors):
+            for thread in self.executors:
+                thread.join()
+
+    def wait_for(self: ClientThread, thread: Thread) -> None:
+        """Wait for `thread` to finish unless another component fails in the meantime."""
+        while thread.is_alive():
+            thread.join(timeout=1)
+            self.check_threads()
+        thread.join()
+
+    def put_signal(self: ClientThread, queue: Queue[Optional[Task]]) -> None:
+        """Put disconnect signal on `queue` unless a component fails in the meantime."""
+        while True:
+            try:
+                return queue.put(None, timeout=1)
+            except QueueFull:
+                self.check_threads()
+
     def wait_scheduler(self: ClientThread) -> None:
         """Wait for all tasks to be completed."""
         log.trace('Waiting (scheduler)')
-        self.scheduler.join()
+        self.wait_for(self.scheduler)
 
     def wait_collector(self: ClientThread) -> None:
         """Signal collector to halt."""
         log.trace('Waiting (collector)')
-        self.outbound.put(None)
+        self.put_signal(self.outbound)
         self.collector.join()
 
     def wait_executors(self: ClientThread) -> None:
         """Send disconnect signal to each task executor thread."""
         for _ in self.executors:
-            self.inbound.put(None)  # signal executors to shut down
+            self.put_signal(self.inbound)  # signal executors to shut down
         for thread in self.executors:
             log.trace(f'Waiting (executor-{thread.id})')
-            thread.join()
+            self.wait_for(thread)
 
     def wait_heartbeat(self: ClientThread) -> None:
         """Signal HALT on heartbeat."""
-- 
2.43.0


From 684c4ae0f0b05d68621cd84d8f127280ec35c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:37 +0000
Subject: [PATCH 64/69] fix: autoscaling cluster ends with the error of its
 failed server instead of launching clients for ever

---
 src/hypershell/cluster/remote.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index 57dee7f..0f2060d 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -709,6 +709,10 @@ class AutoScalingCluster(Thread):
         self.server.start()
         time.sleep(2)  # NOTE: give the server a chance to start
         self.autoscaler.start()
+        while self.autoscaler.is_alive():
+            self.autoscaler.join(timeout=1)
+            if not self.server.is_alive():
+                self.server.join()  # NOTE: raises exception if failed
         self.autoscaler.join()
         self.server.join()
 
-- 
2.43.0


From 36b0a12e1f0ed39a1319c44dc8ea89e278786d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:19 +0000
Subject: [PATCH 65/69] fix: cluster whose clients cannot be launched ends with
 that error instead of AttributeError

---
 src/hypershell/cluster/remote.py | 7 ++++---
 src/hypershell/cluster/ssh.py    | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index 0f2060d..e954d24 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -6,7 +6,7 @@
 
 # type annotations
 from __future__ import annotations
-from typing import Tuple, List, Dict, IO, Iterable, Callable, Type, Final
+from typing import Optional, Tuple, List, Dict, IO, Iterable, Callable, Type, Final
 
 # standard libs
 import os
@@ -184,7 +184,7 @@ class RemoteCluster(Thread):
     """
 
     server: ServerThread
-    clients: Popen
+    clients: Optional[Popen] = None
     client_argv: List[str]
 
     def __init__(self: RemoteCluster,
@@ -258,7 +258,8 @@ class RemoteCluster(Thread):
     def stop(self: RemoteCluster, wait: bool = False, timeout: int = None) -> None:
         """Stop child threads before main thread."""
         self.server.stop(wait=wait, timeout=timeout)
-        self.clients.terminate()
+        if self.clients is not None:
+            self.clients.terminate()
         super().stop(wait=wait, timeout=timeout)
 
 
diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index ab3b1dc..af9dcc5 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -6,7 +6,7 @@
 
 # type annotations
 from __future__ import annotations
-from typing import Type, List, Iterable, Tuple, IO, Final
+from typing import Optional, Type, List, Iterable, Tuple, IO, Final
 
 # standard libs
 import re
@@ -176,7 +176,7 @@ class SSHCluster(Thread):
     """
 
     server: ServerThread
-    clients: List[Popen]
+    clients: Optional[List[Popen]] = None
     client_argv: List[List[str]]
 
     def __init__(self: SSHCluster,
@@ -256,7 +256,7 @@ class SSHCluster(Thread):
     def stop(self: SSHCluster, wait: bool = False, timeout: int = None) -> None:
         """Stop child threads before main thread."""
         self.server.stop(wait=wait, timeout=timeout)
-        for client in self.clients:
+        for client in self.clients or []:
             client.terminate()
         super().stop(wait=wait, timeout=timeout)
 
-- 
2.43.0


From 7c4a0be32c93188919c5c92c4abcfed01b60b7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:11 +0000
Subject: [PATCH 66/69] fix: config edit without options edits the user
 configuration as documented

---
 src/hypershell/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index 81a2949..15f6194 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -65,11 +65,12 @@ class ConfigEditApp(Application):
     """Edit configuration with default editor."""
 
     interface = Interface(EDIT_PROGRAM, EDIT_USAGE, EDIT_HELP)
+    ALLOW_NOARGS = True
 
     site_name: str = 'user'
     site_interface = interface.add_mutually_exclusive_group()
+    site_interface.add_argument('--user', action='store_const', const='user', dest='site_name', default=site_name)
     site_interface.add_argument('--system', action='store_const', const='system', dest='site_name')
-    site_interface.add_argument('--user', action='store_const', const='user', dest='site_name')
     site_interface.add_argument('--local', action='store_const', const='local', dest='site_name')
 
     exceptions = {
-- 
2.43.0


From 3e496c5066ccfcb607b7acd2e3ae16ba9f992f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:07 +0000
Subject: [PATCH 67/69] fix: executor that ends does not close the output
 streams shared with executors still starting a task

---
 src/hypershell/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 18f9479..c7e88c6 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -662,9 +662,10 @@ class TaskExecutor(StateMachine):
     def finalize(self: TaskExecutor) -> TaskState:
         """Push out any remaining tasks and halt."""
         log.debug(f'Done (executor-{self.id})')
-        if self.redirect_output is not sys.stdout:
+        # NOTE: without capture the streams are shared by all executors (closed by whoever opened them)
+        if self.capture and self.redirect_output is not sys.stdout:
             self.redirect_output.close()
-        if self.redirect_errors is not sys.stderr:
+        if self.capture and self.redirect_errors is not sys.stderr:
             self.redirect_errors.close()
         return TaskState.HALT
 
-- 
2.43.0


From f329e82a0027598215c5ef1747fbdf4646384f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:23 +0000
Subject: [PATCH 68/69] fix: submitted tasks are flushed after the bundle wait
 also while no further task arrives

---
 src/hypershell/submit.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index a981456..ab20f29 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -237,7 +237,7 @@ class DatabaseCommitter(StateMachine):
         try:
             task = self.queue.get(timeout=1)
         except QueueEmpty:
-            return DatabaseCommitterState.GET
+            return self.check_wait()
         if task is not None:
             self.tasks.append(task)
             since_last = (datetime.now() - self.previous_submit).total_seconds()
@@ -248,6 +248,14 @@ class DatabaseCommitter(StateMachine):
         else:
             return DatabaseCommitterState.FINAL
 
+    def check_wait(self: DatabaseCommitter) -> DatabaseCommitterState:
+        """Flush waiting tasks in time even if no further task arrives."""
+        since_last = (datetime.now() - self.previous_submit).total_seconds()
+        if self.tasks and since_last >= self.bundlewait:
+            return DatabaseCommitterState.COMMIT
+        else:
+            return DatabaseCommitterState.GET
+
     def commit(self: DatabaseCommitter) -> DatabaseCommitterState:
         """Commit tasks to database."""
         if self.tasks:
@@ -435,7 +443,7 @@ class QueueCommitter(StateMachine):
         try:
             task = self.local.get(timeout=1)
         except QueueEmpty:
-            return QueueCommitterState.GET
+            return self.check_wait()
         if task is not None:
             self.tasks.append(task)
             since_last = (datetime.now() - self.previous_submit).total_seconds()
@@ -446,6 +454,14 @@ class QueueCommitter(StateMachine):
         else:
             return QueueCommitterState.FINAL
 
+    def check_wait(self: QueueCommitter) -> QueueCommitterState:
+        """Flush waiting tasks in time even if no further task arrives."""
+        since_last = (datetime.now() - self.previous_submit).total_seconds()
+        if self.tasks and since_last >= self.bundlewait:
+            return QueueCommitterState.PACK
+        else:
+            return QueueCommitterState.GET
+
     def pack_bundle(self: QueueCommitter) -> QueueCommitterState:
         """Pack tasks into bundle for remote queue."""
         if self.tasks:
-- 
2.43.0


From f6453deab20f0b81543f45d3cb9d1f7f42639c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:07 +0000
Subject: [PATCH 69/69] fix: clients that connect after the others were told to
 disconnect are told as well

---
 src/hypershell/server.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index e9db19b..8c97288 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -463,6 +463,7 @@ class HeartMonitor(StateMachine):
     startup_phase: bool = True  # should not halt until at least one client
     scheduler_done: bool = False  # set by parent thread when scheduling is over
     should_signal: bool = False  # set by parent thread to signal clients
+    signaled: Optional[Dict[str, Heartbeat]] = None  # clients which register afterwards are signaled as well
     latest_heartbeat: Heartbeat = None
 
     state = HeartbeatState.START
@@ -531,6 +532,10 @@ class HeartMonitor(StateMachine):
                         Client.update(old_client.id, disconnected_at=None, evicted=False)
                     except Client.NotFound:
                         Client.add(new_client)
+                if self.signaled is not None and hb.uuid not in self.signaled:
+                    self.queue.scheduled.put(None)
+                    self.signaled[hb.uuid] = hb
+                    log.debug(f'Disconnect requested ({hb.host}: {hb.uuid})')
             self.beats[hb.uuid] = hb
             return HeartbeatState.SWITCH
         else:
@@ -579,6 +584,7 @@ class HeartMonitor(StateMachine):
             self.queue.scheduled.put(None)
             log.debug(f'Disconnect requested ({hb.host}: {hb.uuid})')
         self.should_signal = False
+        self.signaled = self.beats.copy()
         return HeartbeatState.SWITCH
 
     @staticmethod
-- 
2.43.0

