From 015940934eb7d7753606a4bb026fbeeecea3cdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 01/30] fix: keep metadata and messages of optimizers whose
 iterations are cleared from memory

The results queue may deliver an optimizer's end marker before its pipe signals are read.
BaseLogger.clear_cache removed the whole record, and the next put_metadata/put_message raised
KeyError which ended the run with 'GloMPO Crash'.
---
 glompo/core/optimizerlogger.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 7040bec..f9e51af 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -36,7 +36,7 @@ class BaseLogger:
     @property
     def n_optimizers(self) -> int:
         """ Returns the number of optimizers in the log. """
-        return len(self._storage)
+        return len(self._storage) + len(self._closed)
 
     @property
     def largest_eval(self) -> float:
@@ -48,6 +48,7 @@ class BaseLogger:
     def checkpoint_load(cls, path: Union[Path, str]):
         """ Construct a new :class:`BaseLogger` from the attributes saved in the checkpoint file located at `path`. """
         opt_log = cls.__new__(cls)
+        opt_log._closed = {}
 
         with Path(path).open('rb') as file:
             state = dill.load(file)
@@ -63,6 +64,7 @@ class BaseLogger:
         self._best_iter = {'opt_id': 0, 'x': [], 'fx': float('inf'), 'type': '', 'call_id': 0}
         self._max_eval = -float('inf')
         self._storage = {}
+        self._closed = {}  # Metadata and messages of optimizers whose iterations have been cleared from memory
         self.build_traj_plot = build_traj_plot
         self._figure_data = {}
 
@@ -108,18 +110,23 @@ class BaseLogger:
 
         to_del = [opt_id] if opt_id else [*self._storage.keys()]
         for key in to_del:
-            del self._storage[key]
+            record = self._storage.pop(key)
+            self._closed[key] = {'metadata': record['metadata'], 'messages': record['messages']}
+
+    def _get_record(self, opt_id: int) -> Dict[str, Any]:
+        """ Returns the record which holds the metadata and messages of `opt_id`. """
+        return self._closed[opt_id] if opt_id in self._closed else self._storage[opt_id]
 
     def put_metadata(self, opt_id: int, key: str, value: Any):
         """ Adds optimizer metadata to storage. """
-        self._storage[opt_id]['metadata'][key] = value
+        self._get_record(opt_id)['metadata'][key] = value
 
     def put_manager_metadata(self, key: str, value: Any):
         pass
 
     def put_message(self, opt_id: int, message: str):
         """ Stores message signals sent from optimizers to the manager. """
-        self._storage[opt_id]['messages'].append(message)
+        self._get_record(opt_id)['messages'].append(message)
 
     def put_iteration(self, iter_res: IterationResult):
         """ Records function evaluations in memory. """
@@ -172,7 +179,7 @@ class BaseLogger:
 
     def get_metadata(self, opt_id: int, key: str) -> Any:
         """ Returns metadata of a given optimizer and key. """
-        return self._storage[opt_id]['metadata'][key]
+        return self._get_record(opt_id)['metadata'][key]
 
     @needs_optional_package('matplotlib')
     def plot_optimizer_trials(self, path: Optional[Path] = None, opt_id: Optional[int] = None):
-- 
2.43.0


From ff17e98680e44977ad380408d8ab3b07b6decf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 02/30] fix: do not report missing slots when the last
 optimizer ends or spawning stops

_fill_optimizer_slots recounted the living optimizers after trying to start new ones. If the last one
ended in between, or the selector had just stopped spawning, the run ended in a manager crash although
free slots are sufficient or nothing more was to be started.
---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 967cb86..f15f104 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1256,7 +1256,7 @@ class GloMPOManager:
                                   'max_jobs': self.max_jobs,
                                   'f': self.f_counter,
                                   'f_best': f_best})
-        elif len(processes) == 0:
+        elif count == 0 and self.spawning_opts:
             raise RuntimeError("Not enough worker slots to start any optimizers with the current settings.")
 
     def _start_new_job(self, opt_id: int, optimizer: BaseOptimizer, call_kwargs: Dict[str, Any],
-- 
2.43.0


From e0169a4d1f06424717682b28b74520075897c534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 03/30] fix: accept outstanding results before ending because
 all optimizers are dead

When the last optimizers had ended, results still in the queue (or its cache) beyond the ten taken per
iteration were dropped, and an optimizer that ended between two checks lost its end condition.
---
 glompo/core/manager.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index f15f104..b231fef 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1016,7 +1016,15 @@ class GloMPOManager:
                     if not pack.process.is_alive() and opt_id in self._graveyard:
                         del self._optimizer_packs[opt_id]
 
-                all_dead = len([p for p in self._optimizer_packs.values() if p.process.is_alive()]) == 0
+                # Optimizers which ended but have not yet been processed by _inspect_children are not considered dead
+                all_dead = len(self._optimizer_packs) == 0
+                if all_dead and not self.spawning_opts:
+                    # Nothing more can be produced, accept everything which is still in transit
+                    self._process_results()
+                    if self.optimizer_queue.has_cache():
+                        self.optimizer_queue.flush()
+                        self._process_results()
+
                 checker_condition = self.convergence_checker(self)
 
                 if checker_condition:
-- 
2.43.0


From b4ccee47e27eb03686f742a1382855b2f5efa766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 04/30] fix: tolerate optimizers which exit while they are
 being messaged

Sending to the pipe of an optimizer that has just exited raises BrokenPipeError (reading may raise
ConnectionResetError). This crashed the run when sharing incumbents, shutting down or checkpointing, and
stopped _stop_all_children from messaging the remaining optimizers.
---
 glompo/core/manager.py | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index b231fef..ba10c64 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1203,7 +1203,9 @@ class GloMPOManager:
                 ovw_path.unlink()
 
         if self.converged:
-            [pack.signal_pipe.send(1) for _, pack in self._optimizer_packs.items() if pack.process.is_alive()]
+            for opt_id, pack in self._optimizer_packs.items():
+                if pack.process.is_alive():
+                    self._send_signal(opt_id, 1)
         self._toggle_optimizers(1)
         self.logger.info("Checkpoint '%s' successfully built", path.name)
 
@@ -1361,6 +1363,18 @@ class GloMPOManager:
             return OptimizerPackage(self.o_counter, optimizer, call_kwargs, parent_pipe, event, init_kwargs['workers'])
         return OptimizerPackage(self.o_counter, optimizer, {}, parent_pipe, event, init_kwargs['workers'])
 
+    def _send_signal(self, opt_id: int, message: Any) -> bool:
+        """ Sends a signal to optimizer :obj:`opt_id`.
+        Returns :obj:`False` if the optimizer has already exited and can no longer be messaged.
+        """
+
+        try:
+            self._optimizer_packs[opt_id].signal_pipe.send(message)
+        except OSError as e:
+            self.logger.debug("Optimizer %d can no longer be messaged.", opt_id, exc_info=e)
+            return False
+        return True
+
     def _check_signals(self, opt_id: int) -> bool:
         """ Checks for signals from optimizer :obj:`opt_id` and processes it.
         Returns a :obj:`bool` indicating whether a signal was found.
@@ -1387,7 +1401,7 @@ class GloMPOManager:
                     if self.visualisation:
                         self.scope.update_crash_terminate(opt_id)
                 found_signal = True
-            except EOFError:
+            except (EOFError, OSError):
                 self.logger.error("Opt%d pipe closed. Opt%d should be in graveyard", opt_id, opt_id)
         else:
             self.logger.debug("No signals from %d.", opt_id)
@@ -1611,7 +1625,7 @@ class GloMPOManager:
         if self.aggressive_kill and self.proc_backend:
             self._optimizer_packs[opt_id].process.terminate()
         else:
-            self._optimizer_packs[opt_id].signal_pipe.send(1)
+            self._send_signal(opt_id, 1)
             self.logger.debug("Termination signal sent to %d", opt_id)
 
         self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
@@ -1631,7 +1645,7 @@ class GloMPOManager:
         if self.incumbent_sharing and (not self.result.fx or best_iter['fx'] < self.result.fx):
             for opt_id, pack in self._optimizer_packs.items():
                 if opt_id != best_iter['opt_id'] and pack.process.is_alive():
-                    pack.signal_pipe.send((4, best_iter['x'], best_iter['fx']))
+                    self._send_signal(opt_id, (4, best_iter['x'], best_iter['fx']))
 
         best_origin = {"opt_id": best_iter['opt_id'],
                        "type": best_iter['type']}
@@ -1648,11 +1662,13 @@ class GloMPOManager:
         """ Shuts down and cleans-up all active children """
 
         # Attempt to send shutdown signals
-        try:
-            message = (1, "GloMPO Crash") if crash_reason else 1
-            [pack.signal_pipe.send(message) for _, pack in self._optimizer_packs.items() if pack.process.is_alive()]
-        except Exception as e:
-            self.logger.debug("Pipe messaging failed during cleanup.", exc_info=e)
+        message = (1, "GloMPO Crash") if crash_reason else 1
+        for opt_id, pack in self._optimizer_packs.items():
+            try:
+                if pack.process.is_alive():
+                    self._send_signal(opt_id, message)
+            except Exception as e:
+                self.logger.debug("Pipe messaging failed during cleanup.", exc_info=e)
 
         # Purge the queue to ensure no optimizers are blocking
         try:
@@ -1810,8 +1826,7 @@ class GloMPOManager:
         # Pause optimizers
         messaged = set()
         for opt_id, pack in self._optimizer_packs.items():
-            if pack.process.is_alive():
-                pack.signal_pipe.send(2)
+            if pack.process.is_alive() and self._send_signal(opt_id, 2):
                 messaged.add(opt_id)
 
         # Synchronise and wait for replies (end or paused)
@@ -1872,10 +1887,10 @@ class GloMPOManager:
                 if opt_id not in not_chkpt:
                     if self.visualisation:
                         self.scope.update_checkpoint(opt_id)
-                    pack.signal_pipe.send((0, (path / 'optimizers' / f'{opt_id:04}').absolute()))
+                    self._send_signal(opt_id, (0, (path / 'optimizers' / f'{opt_id:04}').absolute()))
                     self.logger.debug('Checkpoint save sent to Optimizer %d', opt_id)
                 else:
-                    pack.signal_pipe.send(3)  # Causes waiting optimizers will pass and not checkpoint
+                    self._send_signal(opt_id, 3)  # Causes waiting optimizers will pass and not checkpoint
 
         # Wait for all checkpoint_save to complete
         wait_reply = living.copy()
-- 
2.43.0


From 238c1879649260df383afc43610ad64cea83206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 05/30] fix: keep purging the results queue while optimizers
 are joined

The queue was emptied once before joining. Optimizers which still put results (or their end marker)
afterwards could fill it again and block forever, which deadlocked the manager with a threaded backend
(and delayed it by end_timeout per process, losing a clean exit, otherwise).
---
 glompo/core/manager.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index ba10c64..878aec7 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1671,12 +1671,7 @@ class GloMPOManager:
                 self.logger.debug("Pipe messaging failed during cleanup.", exc_info=e)
 
         # Purge the queue to ensure no optimizers are blocking
-        try:
-            while not self.optimizer_queue.empty():
-                self.optimizer_queue.get_nowait()
-        except Exception as e:
-            # Queue may not be accessible in a crash
-            self.logger.debug("Queue purge failed.", exc_info=e)
+        self._purge_queue()
 
         for opt_id, pack in self._optimizer_packs.items():
             # Add stop condition to logs without overwriting existing ones
@@ -1690,7 +1685,12 @@ class GloMPOManager:
                                           crash_reason if crash_reason else "GloMPO Convergence")
 
             if pack.process.is_alive():
-                pack.process.join(timeout=self.end_timeout if not crash_reason else 0.1)
+                timeout = self.end_timeout if not crash_reason else 0.1
+                t_join = time()
+                while pack.process.is_alive() and (timeout is None or time() - t_join < timeout):
+                    # Optimizers may still be putting results, keep purging so that none is blocked by a full queue
+                    self._purge_queue()
+                    pack.process.join(timeout=0.1 if timeout is None else min(0.1, timeout))
                 if pack.process.is_alive():
                     if self.proc_backend:
                         self.logger.info("Termination signal sent to optimizer %d", opt_id)
@@ -1699,6 +1699,16 @@ class GloMPOManager:
                         self.logger.warning("Could not join optimizer %d. May crash out with it still running and thus "
                                             "generate errors. Terminations cannot be sent to threads.", opt_id)
 
+    def _purge_queue(self):
+        """ Discards all results waiting in the :attr:`optimizer_queue`. """
+
+        try:
+            while not self.optimizer_queue.empty():
+                self.optimizer_queue.get_nowait()
+        except Exception as e:
+            # Queue may not be accessible in a crash
+            self.logger.debug("Queue purge failed.", exc_info=e)
+
     def _save_log(self, result: Result, reason: str, caught_exception: Optional[str], dump_dir: Path,
                   summary_files: int):
         """ Saves the manager's state and history into the collection of files indicated by :obj:`summary_files`.
-- 
2.43.0


From d298ff1696cbf4b923da2fbbaab3d1074ad13b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:26 +0000
Subject: [PATCH 06/30] fix: checkpoint synchronisation with optimizers which
 fail, end or hang

While optimizers were being paused for a checkpoint: a message (e.g. an exception) from one crashed the
run; an optimizer which died or hung left the manager waiting forever; optimizers already shut down were
saved (and restarted on resume) or counted as converged too; one which had just ended was saved without
end condition; results in the queue cache were left out of the checkpoint; and optimizers paused by the
manager could afterwards be judged as hanging. Signals sent right before an optimizer ends are collected
before its end is recorded.
---
 glompo/core/manager.py | 106 ++++++++++++++++++++++++++++++-----------
 1 file changed, 78 insertions(+), 28 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 878aec7..0947073 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1416,27 +1416,7 @@ class GloMPOManager:
 
             # Find dead optimizer processes that did not properly signal their termination.
             if opt_id not in self._graveyard and not pack.process.is_alive():
-                exitcode = pack.process.exitcode
-                if exitcode == 0:
-                    if not self._check_signals(opt_id):
-                        self.conv_counter += 1
-                        self._graveyard.add(opt_id)
-                        self.opt_log.put_message(opt_id, "Terminated normally without sending a minimization "
-                                                         "complete signal to the manager.")
-                        warnings.warn(f"Optimizer {opt_id} terminated normally without sending a "
-                                      f"minimization complete signal to the manager.", RuntimeWarning)
-                        self.logger.warning("Optimizer %d terminated normally without sending a minimization complete "
-                                            "signal to the manager.", opt_id)
-                        self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
-                        self.opt_log.put_metadata(opt_id, "end_cond", "Normal termination (Reason unknown)")
-                else:
-                    self._graveyard.add(opt_id)
-                    self.opt_log.put_message(opt_id, f"Terminated in error with code {-exitcode}")
-                    warnings.warn(f"Optimizer {opt_id} terminated in error with code {-exitcode}",
-                                  RuntimeWarning)
-                    self.logger.error("Optimizer %d terminated in error with code %d", opt_id, -exitcode)
-                    self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
-                    self.opt_log.put_metadata(opt_id, "end_cond", f"Error termination (exitcode {-exitcode}).")
+                self._process_dead(opt_id)
 
             # Find hanging processes
             if pack.process.is_alive() and \
@@ -1467,6 +1447,36 @@ class GloMPOManager:
                 warnings.warn(f"Forced termination signal sent to optimizer {opt_id}.", RuntimeWarning)
                 self.logger.error("Forced termination signal sent to optimizer %d.", opt_id)
 
+    def _process_dead(self, opt_id: int):
+        """ Records the end of optimizer :obj:`opt_id` which is no longer alive. """
+
+        # Collect signals which were sent shortly before the optimizer ended
+        while self._check_signals(opt_id):
+            pass
+
+        if opt_id in self._graveyard:
+            return
+
+        self._graveyard.add(opt_id)
+        exitcode = self._optimizer_packs[opt_id].process.exitcode
+        if exitcode == 0:
+            self.conv_counter += 1
+            self.opt_log.put_message(opt_id, "Terminated normally without sending a minimization "
+                                             "complete signal to the manager.")
+            warnings.warn(f"Optimizer {opt_id} terminated normally without sending a "
+                          f"minimization complete signal to the manager.", RuntimeWarning)
+            self.logger.warning("Optimizer %d terminated normally without sending a minimization complete "
+                                "signal to the manager.", opt_id)
+            self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
+            self.opt_log.put_metadata(opt_id, "end_cond", "Normal termination (Reason unknown)")
+        else:
+            self.opt_log.put_message(opt_id, f"Terminated in error with code {-exitcode}")
+            warnings.warn(f"Optimizer {opt_id} terminated in error with code {-exitcode}",
+                          RuntimeWarning)
+            self.logger.error("Optimizer %d terminated in error with code %d", opt_id, -exitcode)
+            self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
+            self.opt_log.put_metadata(opt_id, "end_cond", f"Error termination (exitcode {-exitcode}).")
+
     def _process_results(self, max_results: Optional[int] = None) -> Tuple[Set[int], Set[int]]:
         """ Retrieves results from the :attr:`optimizer_queue` and processes them into the :attr:`opt_log`.
 
@@ -1840,7 +1850,8 @@ class GloMPOManager:
                 messaged.add(opt_id)
 
         # Synchronise and wait for replies (end or paused)
-        not_chkpt = set()  # Set of messaged opts that should not be checkpointed
+        died = set()  # Set of opts which ended after they were paused
+        not_chkpt = messaged & self._graveyard  # Set of messaged opts that should not be checkpointed
         wait_reply = messaged.copy()
         living = messaged.copy()
         n_alive = len(messaged)
@@ -1856,18 +1867,34 @@ class GloMPOManager:
                 [not_chkpt.add(cld) for cld in closed]
                 [not_chkpt.add(vic) for vic in victims]
 
+            # Optimizers which do not respond must not block the checkpoint, those waiting for them are not hanging.
+            for opt_id in messaged - wait_reply:
+                self._last_feedback[opt_id] = time()
+            self._inspect_children()
+
             for opt_id in wait_reply.copy():
                 pack = self._optimizer_packs[opt_id]
                 if pack.process.is_alive():
                     if pack.signal_pipe.poll(0.1):
-                        key, message = pack.signal_pipe.recv()
+                        try:
+                            key, message = pack.signal_pipe.recv()
+                        except (EOFError, OSError):
+                            self.logger.debug("Opt%d pipe closed, it is about to exit.", opt_id)
+                            pack.process.join(0.1)
+                            continue
+                        self._last_feedback[opt_id] = time()
                         self.logger.debug("Received %d, %s from %d", key, message, opt_id)
                         if key == 0:
-                            self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
-                            self.opt_log.put_metadata(opt_id, "end_cond", message)
-                            self._graveyard.add(opt_id)
-                            self.conv_counter += 1
+                            if opt_id not in self._graveyard:
+                                self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
+                                self.opt_log.put_metadata(opt_id, "end_cond", message)
+                                self._graveyard.add(opt_id)
+                                self.conv_counter += 1
                             not_chkpt.add(opt_id)
+                        elif key == 9:
+                            self.opt_log.put_message(opt_id, message)
+                            self.logger.warning("Optimizer %d Exception: %s", opt_id, message)
+                            self.opt_crashed = "Traceback" in message or self.opt_crashed
                         elif key == 1:
                             if self.visualisation:
                                 self.scope.update_pause(opt_id)
@@ -1883,10 +1910,20 @@ class GloMPOManager:
 
         # Process outstanding results and hunts
         closed, victims = self._process_results()
+        if self.optimizer_queue.has_cache():
+            self.optimizer_queue.flush()
+            closed_cached, victims_cached = self._process_results()
+            closed |= closed_cached
+            victims |= victims_cached
         [not_chkpt.add(cld) for cld in closed]
         [not_chkpt.add(vic) for vic in victims]
         self.logger.info("Outstanding results processed")
 
+        # Record optimizers which ended before they could be paused
+        for opt_id, pack in self._optimizer_packs.items():
+            if opt_id not in self._graveyard and not pack.process.is_alive():
+                self._process_dead(opt_id)
+
         assert self.optimizer_queue.empty()
 
         # Send checkpoint_save signals
@@ -1905,9 +1942,22 @@ class GloMPOManager:
         # Wait for all checkpoint_save to complete
         wait_reply = living.copy()
         while wait_reply:
+            for opt_id in living - wait_reply:
+                self._last_feedback[opt_id] = time()
+            self._inspect_children()
+
             for opt_id in wait_reply.copy():
-                if not self._optimizer_packs[opt_id].allow_run_event.is_set():
+                pack = self._optimizer_packs[opt_id]
+                if not pack.allow_run_event.is_set():
                     wait_reply.remove(opt_id)
+                    self._last_feedback[opt_id] = time()
+                elif not pack.process.is_alive():
+                    wait_reply.remove(opt_id)
+                    died.add(opt_id)
+
+        died -= not_chkpt
+        if died:
+            raise CheckpointingError(f"Optimizers {died} ended while saving their states.")
 
         # Confirm all restart files are found
         living_names = {f'{opt_id:04}' for opt_id in messaged - not_chkpt}
-- 
2.43.0


From 6030482b9f6ca236b1c8eee41100f465c4b72d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:16 +0000
Subject: [PATCH 07/30] fix: a failing or interrupted checkpoint never harms
 finished checkpoints or the run

The archive is built under a scratch name and renamed once complete, so neither a crash nor a disk error
leaves a truncated archive under a checkpoint name or loses the checkpoint being overwritten. Disk errors
obey raise_checkpoint_fail and optimizers are always released. Names containing a dot no longer collide,
names which only start like the naming format are neither counted nor deleted, and retention removes the
oldest checkpoints even if names do not sort chronologically.
---
 glompo/core/checkpointing.py |  8 ++---
 glompo/core/manager.py       | 68 +++++++++++++++++-------------------
 2 files changed, 36 insertions(+), 40 deletions(-)

diff --git a/glompo/core/checkpointing.py b/glompo/core/checkpointing.py
index b34d9b8..ff71730 100644
--- a/glompo/core/checkpointing.py
+++ b/glompo/core/checkpointing.py
@@ -121,9 +121,9 @@ class CheckpointingControl:
         format_re = "".join(format_re)
         for key, digits in codes.items():
             format_re = format_re.replace(key, f'[0-9]{{{digits}}}')
-        format_re = format_re.replace('%[(]count[)]', '(?P<index>[0-9]{3})')
+        format_re = format_re.replace('%[(]count[)]', '(?P<index>[0-9]{3,})')
 
-        self._naming_format_re = format_re
+        self._naming_format_re = f'{format_re}(?:[.]tar[.]gz)?'
 
     def get_name(self) -> str:
         """ Returns a new name for a checkpoint matching the naming format. """
@@ -144,7 +144,7 @@ class CheckpointingControl:
 
         if self.checkpointing_dir.exists():
             max_index = -1
-            matches = [re.match(self._naming_format_re, folder.name) for folder in self.checkpointing_dir.iterdir()]
+            matches = [re.fullmatch(self._naming_format_re, folder.name) for folder in self.checkpointing_dir.iterdir()]
             for match in matches:
                 if match and match.lastgroup == 'index':
                     i = int(match.group('index'))
@@ -160,4 +160,4 @@ class CheckpointingControl:
 
     def matches_naming_format(self, name: str) -> bool:
         """ Returns :obj:`True` if the provided name matches the pattern in the :attr:`naming_format`. """
-        return bool(re.match(self._naming_format_re, name))
+        return bool(re.fullmatch(self._naming_format_re, name))
diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 0947073..17c9880 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1127,12 +1127,15 @@ class GloMPOManager:
 
         # Construct Checkpoint Name
         path = self.checkpoint_control.checkpointing_dir / self.checkpoint_control.get_name()
-        path.mkdir(parents=True, exist_ok=True)
-
-        overwriting_chkpt = False
-        ovw_path = path.parent / '_overwriting_chkpt.tar.gz'
+        tar_path = path.with_name(path.name + '.tar.gz')
+        build_path = path.with_name('_building_chkpt.tmp')
+        chkpt_name = str(path.parent.resolve() / tar_path.name)
+        is_new_name = chkpt_name not in self.checkpoint_history
 
         try:
+            shutil.rmtree(path, ignore_errors=True)  # May remain from an attempt which was interrupted
+            path.mkdir(parents=True, exist_ok=True)
+
             # Flush logger
             self.opt_log.flush()
             self.opt_log.checkpoint_save(path)
@@ -1144,7 +1147,7 @@ class GloMPOManager:
                     self.dt_ends[-1] = datetime.now()
                 else:
                     self.dt_ends.append(datetime.now())
-            self.checkpoint_history.add(str(path.resolve().with_suffix('.tar.gz')))
+            self.checkpoint_history.add(chkpt_name)
 
             self._checkpoint_optimizers(path)
             self._checkpoint_manager(path)
@@ -1157,39 +1160,31 @@ class GloMPOManager:
 
             # Compress checkpoint
             self.logger.debug("Building TarFile")
-            tar_path = path.with_suffix('.tar.gz')
+            with tarfile.open(build_path, 'w:gz') as tfile:
+                tfile.add(path, recursive=True, arcname='')
             if tar_path.exists():
                 self.logger.warning("Overwriting existing checkpoint. To avoid this change the checkpointing naming "
                                     "format")
                 warnings.warn("Overwriting existing checkpoint. To avoid this change the checkpointing naming "
                               "format")
-                tar_path.replace(ovw_path)
-                overwriting_chkpt = True
-
-            try:
-                with tarfile.open(tar_path, 'x:gz') as tfile:
-                    tfile.add(path, recursive=True, arcname='')
-                self.logger.debug("TarFile built")
-            except tarfile.TarError as e:
-                self.logger.error("Error encountered during compression.")
-                if overwriting_chkpt:
-                    self.logger.info("Overwritten checkpoint restored")
-                    ovw_path.replace(tar_path)
-                raise CheckpointingError("Could not compress checkpoint", e)
+            build_path.replace(tar_path)  # Checkpoint only gets its name once it is complete
+            self.logger.debug("TarFile built")
 
             # Delete old checkpoints
             if self.checkpoint_control.keep_past > -1:
                 self.logger.debug("Finding old checkpoints to delete")
-                files = (file.name for file in self.checkpoint_control.checkpointing_dir.iterdir())
-                to_delete = sorted(filter(self.checkpoint_control.matches_naming_format, files), reverse=True)
-                self.logger.debug("Identified to delete: %d", to_delete[self.checkpoint_control.keep_past + 2:])
-                for old in to_delete[self.checkpoint_control.keep_past + 2:]:
-                    del_path = self.checkpoint_control.checkpointing_dir / old
-                    if del_path.is_file():
-                        del_path.unlink()
+                files = [file for file in self.checkpoint_control.checkpointing_dir.glob('*.tar.gz') if
+                         file.is_file() and file.name != tar_path.name and
+                         self.checkpoint_control.matches_naming_format(file.name)]
+                to_delete = sorted(files, key=lambda f: (f.stat().st_mtime, f.name), reverse=True)
+                to_delete = to_delete[self.checkpoint_control.keep_past:]
+                self.logger.debug("Identified to delete: %s", to_delete)
+                for old in to_delete:
+                    old.unlink()
 
-        except CheckpointingError as e:
-            self.checkpoint_history.remove(str(path.resolve().with_suffix('.tar.gz')))
+        except (CheckpointingError, OSError, PickleError, tarfile.TarError) as e:
+            if is_new_name and not tar_path.exists():
+                self.checkpoint_history.discard(chkpt_name)
 
             if self.checkpoint_control.raise_checkpoint_fail:
                 self.logger.error("Checkpointing failed", exc_info=e)
@@ -1197,17 +1192,18 @@ class GloMPOManager:
 
             self.logger.warning("Checkpointing failed. Aborting checkpoint construction.", exc_info=e)
             warnings.warn(f"Checkpointing failed: {e}.\nAborting checkpoint construction.")
+        else:
+            self.logger.info("Checkpoint '%s' successfully built", path.name)
         finally:
             shutil.rmtree(path, ignore_errors=True)
-            if ovw_path.exists():
-                ovw_path.unlink()
+            if build_path.exists():
+                build_path.unlink()
 
-        if self.converged:
-            for opt_id, pack in self._optimizer_packs.items():
-                if pack.process.is_alive():
-                    self._send_signal(opt_id, 1)
-        self._toggle_optimizers(1)
-        self.logger.info("Checkpoint '%s' successfully built", path.name)
+            if self.converged:
+                for opt_id, pack in self._optimizer_packs.items():
+                    if pack.process.is_alive():
+                        self._send_signal(opt_id, 1)
+            self._toggle_optimizers(1)
 
     def write_summary_file(self, dump_dir: Optional[Path] = None):
         """ Writes a manager summary YAML file detailing the state of the optimization.
-- 
2.43.0


From 74c8f72687bdbb50101f5d915a4e4c0e6ede6188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 08/30] fix: release paused optimizers if a checkpoint is
 interrupted, keep to documented task handling

An interrupt or an error of a user component while optimizers are paused left them waiting for the save
instruction forever. Tasks which dill cannot handle for other reasons than PickleError crashed the run
instead of using task.checkpoint_save.
---
 glompo/core/manager.py | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 17c9880..1fc6bbb 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1149,7 +1149,13 @@ class GloMPOManager:
                     self.dt_ends.append(datetime.now())
             self.checkpoint_history.add(chkpt_name)
 
-            self._checkpoint_optimizers(path)
+            messaged = set()
+            try:
+                self._checkpoint_optimizers(path, messaged)
+            except BaseException as e:
+                if not isinstance(e, CheckpointingError):
+                    self._release_optimizers(messaged)
+                raise
             self._checkpoint_manager(path)
             self._checkpoint_task(path)
 
@@ -1836,11 +1842,15 @@ class GloMPOManager:
 
     """ Checkpointing Sub-Tasks """
 
-    def _checkpoint_optimizers(self, path: Union[str, Path]):
-        """ Checkpointing sub-task. Gathers, synchronises and saves child optimizers. """
+    def _checkpoint_optimizers(self, path: Union[str, Path], messaged: Optional[Set[int]] = None):
+        """ Checkpointing sub-task. Gathers, synchronises and saves child optimizers.
+        The ids of optimizers which are asked to pause are added to :obj:`messaged`.
+        """
+
+        (path / 'optimizers').mkdir()
 
         # Pause optimizers
-        messaged = set()
+        messaged = set() if messaged is None else messaged
         for opt_id, pack in self._optimizer_packs.items():
             if pack.process.is_alive() and self._send_signal(opt_id, 2):
                 messaged.add(opt_id)
@@ -1923,7 +1933,6 @@ class GloMPOManager:
         assert self.optimizer_queue.empty()
 
         # Send checkpoint_save signals
-        (path / 'optimizers').mkdir()
         for opt_id in messaged:
             pack = self._optimizer_packs[opt_id]
             if pack.process.is_alive():
@@ -1962,6 +1971,18 @@ class GloMPOManager:
                 raise CheckpointingError(f"Unable to identify restart file/folder for optimizer {lv}")
         self.logger.info("All optimizer restart files detected.")
 
+    def _release_optimizers(self, opt_ids: Set[int]):
+        """ Checkpointing sub-task. Lets optimizers pass which were asked to pause for an interrupted checkpoint. """
+
+        waiting = {o for o in opt_ids if self._optimizer_packs[o].process.is_alive() and self._send_signal(o, 3)}
+        while waiting:
+            self._purge_queue()
+            self._inspect_children()
+            for opt_id in waiting.copy():
+                pack = self._optimizer_packs[opt_id]
+                if not pack.process.is_alive() or not pack.allow_run_event.is_set():
+                    waiting.remove(opt_id)
+
     def _checkpoint_manager(self, path: Union[str, Path]):
         """ Checkpointing sub-task. Pickles essential elements of the manager state. """
 
@@ -1998,7 +2019,9 @@ class GloMPOManager:
                     dill.dump(self.task, file)
                 self.logger.info("Task successfully pickled")
                 task_persisted = True
-            except PickleError as pckl_err:
+            except OSError:
+                raise
+            except Exception as pckl_err:  # dill does not only raise PickleErrors for objects it cannot handle
                 self.logger.info("Pickle task failed. Attempting task.checkpoint_save()", exc_info=pckl_err)
                 (path / 'task').unlink()
 
-- 
2.43.0


From 3fee58e25991d6e131e651df60223d28785b020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 09/30] fix: save the log in checkpoints after outstanding
 results have been accepted

---
 glompo/core/manager.py         | 13 ++++++-------
 glompo/core/optimizerlogger.py |  2 +-
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 1fc6bbb..98583e3 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1136,11 +1136,6 @@ class GloMPOManager:
             shutil.rmtree(path, ignore_errors=True)  # May remain from an attempt which was interrupted
             path.mkdir(parents=True, exist_ok=True)
 
-            # Flush logger
-            self.opt_log.flush()
-            self.opt_log.checkpoint_save(path)
-            self.logger.debug("Log successfully pickled")
-
             # Save timestamp and checkpoint name
             if len(self.dt_starts) > 0:
                 if len(self.dt_starts) == len(self.dt_ends):
@@ -1156,6 +1151,12 @@ class GloMPOManager:
                 if not isinstance(e, CheckpointingError):
                     self._release_optimizers(messaged)
                 raise
+
+            # Flush logger (outstanding results were accepted while the optimizers were synchronised)
+            self.opt_log.flush()
+            self.opt_log.checkpoint_save(path)
+            self.logger.debug("Log successfully pickled")
+
             self._checkpoint_manager(path)
             self._checkpoint_task(path)
 
@@ -1930,8 +1931,6 @@ class GloMPOManager:
             if opt_id not in self._graveyard and not pack.process.is_alive():
                 self._process_dead(opt_id)
 
-        assert self.optimizer_queue.empty()
-
         # Send checkpoint_save signals
         for opt_id in messaged:
             pack = self._optimizer_packs[opt_id]
diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index f9e51af..2af5604 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -482,7 +482,7 @@ class FileLogger(BaseLogger):
         opt_ids = [opt_id] if opt_id else self._writing_chunk.keys()
 
         for o in opt_ids:
-            if len(self._writing_chunk[o]) > 0:
+            if self._writing_chunk.get(o):
                 self.put_metadata(o, 'best_iter', self._best_iters[o])
                 table = self._get_table(o)
                 table.append(self._writing_chunk[o])
-- 
2.43.0


From 258ed3dfbe8dffac7ee77706f57c9a14520bdffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 10/30] fix: resume with log files which were not closed, have
 moved on, or are new

---
 glompo/core/manager.py         | 15 ++++---
 glompo/core/optimizerlogger.py | 82 +++++++++++++++++++++++++++-------
 2 files changed, 75 insertions(+), 22 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 98583e3..2c172a3 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -793,6 +793,10 @@ class GloMPOManager:
         # Rebuild optimizer logger
         self.opt_log = FileLogger if self.summary_files > 2 else BaseLogger
         self.opt_log = self.opt_log.checkpoint_load(tmp_dir / 'opt_log')
+        self.opt_log.build_traj_plot = self.summary_files > 1
+        if self.summary_files > 2:
+            self.opt_log.n_task_dims = self.n_parms
+            self.opt_log.expected_rows = self._log_expected_rows()
 
         # Modify/create missing variables
         assert len(self.dt_starts) == len(self.dt_ends), "Timestamps missing from checkpoint."
@@ -936,7 +940,8 @@ class GloMPOManager:
                                    f"this one (Checksum: {self._checksum})! Aborting optimization.")
 
                 # Overwrite excess iterations
-                file_f_count = peek.root._v_attrs.f_counter
+                tables = [*peek.walk_nodes('/', 'Table')]
+                file_f_count = max((int(tab.cols.call_id[-1]) for tab in tables if tab.nrows > 0), default=0)
                 if file_f_count > self.f_counter:
                     self.logger.warning("The log file (%d evaluations) has iterated past the checkpoint "
                                         "(%d evaluations). Rolling back the log file to the checkpoint.",
@@ -944,15 +949,15 @@ class GloMPOManager:
                     warnings.warn(f"The log file ({file_f_count} evaluations) has iterated past "
                                   f"the checkpoint ({self.f_counter} evaluations). Rolling back the log file to "
                                   f"the checkpoint.")
-                    for tab in peek.walk_nodes('/', 'Table'):
+                    for tab in tables:
                         tab: tb.Table
                         call_ids = tab.col('call_id')
                         crit_i = np.searchsorted(call_ids, self.f_counter, 'right')
                         tab.remove_rows(crit_i)
 
-                    for group in peek.iter_nodes('/', 'Group'):
-                        if int(group._v_name.split('_')[1]) > self.o_counter:
-                            peek.remove_node('/', group._v_name, recursive=True)
+                for group in [*peek.iter_nodes('/', 'Group')]:
+                    if int(group._v_name.split('_')[1]) > self.o_counter:
+                        peek.remove_node('/', group._v_name, recursive=True)
             mode = 'a'
 
         self._checksum = ''.join([random.choice(string.ascii_letters + string.digits) for _ in range(20)])
diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 2af5604..e1d69ce 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -95,7 +95,7 @@ class BaseLogger:
             headers += [*extra_headers]
 
         for k in headers:
-            self._storage[opt_id][k] = []
+            self._storage[opt_id].setdefault(k, [])
 
     def has_iter_history(self, opt_id: int) -> bool:
         """ Returns :obj:`True` if an iteration history table has been constructed for optimizer `opt_id`. """
@@ -339,6 +339,22 @@ class FileLogger(BaseLogger):
         Flag the logger to hold trajectories in memory to construct the summary image.
     """
 
+    @classmethod
+    def checkpoint_load(cls, path: Union[Path, str]):
+        opt_log = super().checkpoint_load(path)
+
+        # Attributes which are not saved or not present in checkpoints of runs which did not use a log file
+        for var, val in (('pytab_file', None),
+                         ('_groups', {}),
+                         ('_tables', {}),
+                         ('_writing_chunk', {}),
+                         ('_est_iter_size', 0),
+                         ('_o_counter', len(opt_log._storage) + len(opt_log._closed))):
+            if var not in opt_log.__dict__:
+                opt_log.__setattr__(var, val)
+
+        return opt_log
+
     def __init__(self,
                  n_parms: int,
                  expected_rows: int,
@@ -373,25 +389,33 @@ class FileLogger(BaseLogger):
     def add_optimizer(self, opt_id: int, opt_type: str, t_start: datetime.datetime):
         """ Creates an HDF5 file and memory log for a new optimizer. """
         super().add_optimizer(opt_id, opt_type, t_start)
-        group = self.pytab_file.create_group(where='/',
-                                             name=f'optimizer_{opt_id}')
-        self.pytab_file.create_vlarray(where=f'/optimizer_{opt_id}',
-                                       name='messages',
-                                       atom=tb.VLUnicodeAtom(),
-                                       title="Messages Generated by Optimizer",
-                                       expectedrows=3)
+        self._create_group(opt_id)
         self._writing_chunk[opt_id] = []
-        self._groups[opt_id] = group
-
-        for key, val in zip(('opt_id', 'opt_type', 't_start'),
-                            (opt_id, opt_type, t_start)):
-            group._v_attrs[key] = val
-
         self._o_counter += 1
 
+    def _create_group(self, opt_id: int):
+        """ Creates the HDF5 group of an optimizer which contains everything known about it in memory. """
+        self._groups[opt_id] = self.pytab_file.create_group(where='/',
+                                                            name=f'optimizer_{opt_id}')
+        self._write_messages(opt_id)
+        for key, val in self._get_record(opt_id)['metadata'].items():
+            self._groups[opt_id]._v_attrs[key] = val
+
+    def _write_messages(self, opt_id: int):
+        """ Creates the HDF5 array with the messages of an optimizer from those in memory. """
+        messages = self.pytab_file.create_vlarray(where=f'/optimizer_{opt_id}',
+                                                  name='messages',
+                                                  atom=tb.VLUnicodeAtom(),
+                                                  title="Messages Generated by Optimizer",
+                                                  expectedrows=3)
+        for message in self._get_record(opt_id)['messages']:
+            messages.append(message)
+        messages.flush()
+
     def add_iter_history(self, opt_id: int, extra_headers: Optional[Dict[str, tb.Col]] = None):
         """ Creates an iteration history table in the HDF5 file. """
         super().add_iter_history(opt_id, {})  # Do not hold extras in memory if file in use.
+        self._get_group(opt_id)  # Optimizers from a checkpoint may not yet be present in a new file
         headers = {'call_id': tb.UInt32Col(pos=-3),
                    'x': tb.Float64Col(shape=self.n_task_dims, pos=-2),
                    'fx': tb.Float64Col(pos=-1)}
@@ -418,7 +442,7 @@ class FileLogger(BaseLogger):
         if self._est_iter_size == 0:
             self._est_iter_size = deepsizeof(iter_res)
 
-        self._writing_chunk[iter_res.opt_id].append(
+        self._writing_chunk.setdefault(iter_res.opt_id, []).append(
             [(self._f_counter, iter_res.x, iter_res.fx, *iter_res.extras)])
 
         if self._est_iter_size * sum((len(c) for c in self._writing_chunk.values())) > 100_000_000:  # Flush every 100MB
@@ -441,8 +465,8 @@ class FileLogger(BaseLogger):
             warnings.warn(f"Could not append '{key}' to the HDF5 log file.")
 
     def put_message(self, opt_id: int, message: str):
-        super().put_message(opt_id, message)
         table = self._get_group(opt_id)['messages']
+        super().put_message(opt_id, message)
         table.append(message)
         table.flush()
 
@@ -453,6 +477,9 @@ class FileLogger(BaseLogger):
             return self._get_group(opt_id)._v_attrs[key]
 
     def get_history(self, opt_id: int, track: str) -> List:
+        if track in self._storage.get(opt_id, {}):
+            return self._storage[opt_id][track]
+
         try:
             return super().get_history(opt_id, track)
         except KeyError:
@@ -466,7 +493,10 @@ class FileLogger(BaseLogger):
     def _get_group(self, opt_id: int) -> tb.Group:
         """ Returns the the :class:`tables.Group` object for optimizer `opt_id`. """
         if opt_id not in self._groups:
-            self._groups[opt_id] = self.pytab_file.get_node('/', f'optimizer_{opt_id}')
+            if opt_id in self:
+                self._groups[opt_id] = self.pytab_file.get_node('/', f'optimizer_{opt_id}')
+            else:  # Optimizer from a checkpoint which is being continued with a new file
+                self._create_group(opt_id)
         return self._groups[opt_id]
 
     def _get_table(self, opt_id: int) -> tb.Table:
@@ -522,6 +552,24 @@ class FileLogger(BaseLogger):
             self._groups = {int(g._v_name.split('_')[1]): g for g in self.pytab_file.iter_nodes('/', 'Group')}
             self._tables = {int(t._v_pathname.split('/')[1].split('_')[1]): t for t in
                             self.pytab_file.walk_nodes('/', 'Table')}
+            self._roll_back_records()
+
+    def _roll_back_records(self):
+        """ Removes the metadata and messages from the file which were added after the checkpoint was taken. """
+        for opt_id, group in self._groups.items():
+            if opt_id not in self._storage and opt_id not in self._closed:
+                continue
+
+            record = self._get_record(opt_id)
+            for key in group._v_attrs._f_list('user'):
+                if key == 'best_iter':
+                    group._v_attrs[key] = self._best_iters[opt_id]
+                elif key not in record['metadata']:
+                    del group._v_attrs[key]
+
+            if group['messages'].nrows > len(record['messages']):
+                group['messages'].remove()
+                self._write_messages(opt_id)
 
     def close(self):
         """ Remove from memory, flush to file and close the file. """
-- 
2.43.0


From 5678ed75deae8fe53cdd57e3bda6910c650b7f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:31 +0000
Subject: [PATCH 11/30] fix: resume CMA and random optimizers from their
 checkpoints

---
 glompo/optimizers/cmawrapper.py |  2 +-
 glompo/optimizers/random.py     | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index 6d08d97..e24e185 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -136,7 +136,7 @@ class CMAOptimizer(BaseOptimizer):
         """
         task_settings = copy.deepcopy(self.cmasettings)
 
-        if sigma0 <= 0:
+        if not self.is_restart and sigma0 <= 0:
             self.logger.critical('sigma0 value invalid. Please select a positive value.')
             raise ValueError('sigma0 value invalid. Please select a positive value.')
 
diff --git a/glompo/optimizers/random.py b/glompo/optimizers/random.py
index 3ca06f7..4eeba7f 100644
--- a/glompo/optimizers/random.py
+++ b/glompo/optimizers/random.py
@@ -63,17 +63,17 @@ class RandomOptimizer(BaseOptimizer):
             if callbacks and callbacks():
                 self.stop_called = True
 
-            if self._results_queue:
-                self.logger.debug("Checking messages")
-                self.check_messages()
-                self._pause_signal.wait()
-
             if fx < best_f:
                 best_f = fx
                 best_x = vector
                 self.logger.debug("Updating best")
                 self.result.x, self.result.fx = best_x, best_f
 
+            if self._results_queue:
+                self.logger.debug("Checking messages")
+                self.check_messages()
+                self._pause_signal.wait()
+
         self.result.success = True
         self.logger.debug("Termination successful")
         if self._results_queue:
-- 
2.43.0


From 235c5772675765a9b3921bccea1970c8d166ea83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:31 +0000
Subject: [PATCH 12/30] fix: tolerate STOP and CHKPT files which are withdrawn

---
 glompo/core/manager.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 2c172a3..768e87f 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1606,7 +1606,11 @@ class GloMPOManager:
                     self.logger.info("Matching living optimizer not found for '%s'", file)
                     continue
 
-                file.unlink()
+                try:
+                    file.unlink()
+                except FileNotFoundError:
+                    self.logger.info("'%s' was removed before it could be processed", file)
+                    continue
                 self._shutdown_job(opt_id, None, "User STOP file intervention.")
                 self.logger.info("STOP file found for Optimizer %d", opt_id)
             except ValueError:
@@ -1620,7 +1624,11 @@ class GloMPOManager:
 
         chkpt_path = self.working_dir / "CHKPT"
         if chkpt_path.exists():
-            chkpt_path.unlink()
+            try:
+                chkpt_path.unlink()
+            except FileNotFoundError:
+                self.logger.info("'%s' was removed before it could be processed", chkpt_path)
+                return
 
             has_controls = bool(self.checkpoint_control)
             if not has_controls:
-- 
2.43.0


From 8a0902bd0990bc2fde20fbf582409c0c1345ef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:31 +0000
Subject: [PATCH 13/30] fix: do not share solutions which are not an
 improvement on zero

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 768e87f..3c303a8 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1668,7 +1668,7 @@ class GloMPOManager:
 
         best_iter = self.opt_log.get_best_iter()
 
-        if self.incumbent_sharing and (not self.result.fx or best_iter['fx'] < self.result.fx):
+        if self.incumbent_sharing and (self.result.fx is None or best_iter['fx'] < self.result.fx):
             for opt_id, pack in self._optimizer_packs.items():
                 if opt_id != best_iter['opt_id'] and pack.process.is_alive():
                     self._send_signal(opt_id, (4, best_iter['x'], best_iter['fx']))
-- 
2.43.0


From 594240757da6ba426d3e1e018b0652a7be9d6f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:31 +0000
Subject: [PATCH 14/30] fix: checkpoints made during initialisation match the
 log file of the run

---
 glompo/core/manager.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 3c303a8..691e8fd 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -617,6 +617,7 @@ class GloMPOManager:
                 self.end_timeout = None
 
         self._is_restart = False
+        self._checksum = self._generate_checksum()
 
         if self.checkpoint_control and self.checkpoint_control.checkpoint_at_init:
             self.checkpoint()
@@ -960,7 +961,8 @@ class GloMPOManager:
                         peek.remove_node('/', group._v_name, recursive=True)
             mode = 'a'
 
-        self._checksum = ''.join([random.choice(string.ascii_letters + string.digits) for _ in range(20)])
+        if self._is_restart or not self._checksum:
+            self._checksum = self._generate_checksum()
         self.opt_log.open(log_file, mode, self._checksum)
 
         if self.visualisation and self.scope.record_movie:
@@ -2198,6 +2200,11 @@ class GloMPOManager:
                 'mem_ave': mem_ave, 'mem_max': mem_max,
                 'cpu_ave': cpu_ave, 'cpu_std': cpu_std}
 
+    @staticmethod
+    def _generate_checksum() -> str:
+        """ Returns a new random identifier which links log files to checkpoints. """
+        return ''.join([random.choice(string.ascii_letters + string.digits) for _ in range(20)])
+
     def _log_expected_rows(self) -> int:
         """ Provides an estimate for the maximum number of rows which will be used by each optimizer iteration history
             log.
-- 
2.43.0


From cd6ca903cae28464fe9f6e34cd9bdc8434d47455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 15/30] fix: always report why a run without living optimizers
 ended

---
 glompo/core/manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 691e8fd..5855c06 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1039,6 +1039,8 @@ class GloMPOManager:
                     reason = self.convergence_checker.str_with_result()
 
                 self.converged = checker_condition or (all_dead and not self.spawning_opts)
+                if self.converged and not checker_condition:
+                    reason = "No optimizers alive, spawning stopped."
                 if self.converged:
                     self.logger.info("Convergence Reached")
 
@@ -2200,8 +2202,7 @@ class GloMPOManager:
                 'mem_ave': mem_ave, 'mem_max': mem_max,
                 'cpu_ave': cpu_ave, 'cpu_std': cpu_std}
 
-    @staticmethod
-    def _generate_checksum() -> str:
+    def _generate_checksum(self) -> str:
         """ Returns a new random identifier which links log files to checkpoints. """
         return ''.join([random.choice(string.ascii_letters + string.digits) for _ in range(20)])
 
-- 
2.43.0


From d370aaf4053a303b1ce0648cef3556eba988682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 16/30] fix: final result statistics include what happened
 after the last evaluation

---
 glompo/core/manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 5855c06..1ac0648 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1102,7 +1102,12 @@ class GloMPOManager:
 
             self.result = Result(list(self.result.x) if self.result.x else None,
                                  self.result.fx,
-                                 {**self.result.stats, 'end_cond': reason} if self.result.stats else {
+                                 {**self.result.stats,
+                                  'f_evals': self.f_counter,
+                                  'opts_started': self.o_counter,
+                                  'opts_killed': len(self.hunt_victims),
+                                  'opts_conv': self.conv_counter,
+                                  'end_cond': reason} if self.result.stats else {
                                      'end_cond': reason},
                                  self.result.origin)
 
-- 
2.43.0


From 21c6ee564d89c4c1ebd95c613c5057620641a99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 17/30] fix: return the result even if output files cannot be
 written

---
 glompo/core/manager.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 1ac0648..7bd30b2 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1091,14 +1091,23 @@ class GloMPOManager:
             else:
                 self.dt_ends.append(dt_end)
 
+            # The result must be returned and the log closed, even if (some of) the output cannot be written.
             if self.visualisation:
-                if self.scope.record_movie and not caught_exception:
-                    self.logger.debug("Generating movie")
-                    self.scope.generate_movie()
-                self.scope.close_fig()
+                try:
+                    if self.scope.record_movie and not caught_exception:
+                        self.logger.debug("Generating movie")
+                        self.scope.generate_movie()
+                    self.scope.close_fig()
+                except Exception as e:
+                    self.logger.error("Generating movie failed", exc_info=e)
+                    warnings.warn(f"Generating movie failed: {e}", RuntimeWarning)
 
             self.logger.debug("Saving summary file results")
-            self._save_log(self.result, reason, caught_exception, self.working_dir, self.summary_files)
+            try:
+                self._save_log(self.result, reason, caught_exception, self.working_dir, self.summary_files)
+            except Exception as e:
+                self.logger.error("Saving summary files failed", exc_info=e)
+                warnings.warn(f"Saving summary files failed: {e}", RuntimeWarning)
 
             self.result = Result(list(self.result.x) if self.result.x else None,
                                  self.result.fx,
@@ -1111,7 +1120,11 @@ class GloMPOManager:
                                      'end_cond': reason},
                                  self.result.origin)
 
-            self.opt_log.close()
+            try:
+                self.opt_log.close()
+            except Exception as e:
+                self.logger.error("Closing the log failed", exc_info=e)
+                warnings.warn(f"Closing the log failed: {e}", RuntimeWarning)
 
             self.logger.info("GloMPO Optimization Routine Done")
 
-- 
2.43.0


From 4012da112f17ab01eca0c669e09efd55d2e925aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 18/30] fix: process backends do not change the optimizer
 settings of the selector

---
 glompo/core/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 7bd30b2..bd26c21 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1364,6 +1364,8 @@ class GloMPOManager:
             # any strange race conditions and multithreading artifacts.
             init_kwargs = copy.deepcopy(init_kwargs)
             call_kwargs = copy.deepcopy(call_kwargs)
+        else:
+            init_kwargs = {**init_kwargs}  # May be changed below, settings belong to the selector
         self.o_counter += 1
 
         self.logger.info("Setting up optimizer %d of type %s", self.o_counter, selected.__name__)
-- 
2.43.0


From e5df7e55697c9827823b7d382d90b9fc53c9109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 19/30] fix: ChainSelector stops spawning after its final
 threshold

---
 glompo/opt_selectors/chain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/glompo/opt_selectors/chain.py b/glompo/opt_selectors/chain.py
index 429f94a..d9b306e 100644
--- a/glompo/opt_selectors/chain.py
+++ b/glompo/opt_selectors/chain.py
@@ -56,9 +56,12 @@ class ChainSelector(BaseSelector):
         if not self.allow_spawn(manager):
             return False
 
-        if self.toggle < len(self.fcall_thresholds) and manager.f_counter >= self.fcall_thresholds[self.toggle]:
+        while self.toggle < len(self.fcall_thresholds) and manager.f_counter >= self.fcall_thresholds[self.toggle]:
             self.toggle += 1
 
+        if self.toggle >= len(self.avail_opts):
+            return False
+
         selected = self.avail_opts[self.toggle]
         if selected[1]['workers'] > slots_available:
             return None
-- 
2.43.0


From bc835729247e62ba3192a418000cc0ebf0a3a3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 20/30] fix: generators handle optimizers which have not found
 a valid point yet

---
 glompo/generators/basinhopping.py    |  8 ++++----
 glompo/generators/exploit_explore.py | 12 +++++++-----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/glompo/generators/basinhopping.py b/glompo/generators/basinhopping.py
index 7132be5..84b2e0f 100644
--- a/glompo/generators/basinhopping.py
+++ b/glompo/generators/basinhopping.py
@@ -91,9 +91,9 @@ class BasinHoppingGenerator(BaseGenerator):
             self.logger.debug("Improvement detected. Number of accepted points: %d", self.n_accept)
 
         # Metropolis chance of accepting another optimizer that is not the best
-        avail_keys = set(manager.opt_log._best_iters.keys())
-        avail_keys.remove(0)
-        avail_keys.remove(manager.opt_log.get_best_iter()['opt_id'])
+        avail_keys = {opt_id for opt_id, other in manager.opt_log._best_iters.items() if len(other['x']) > 0}
+        avail_keys.discard(0)
+        avail_keys.discard(best['opt_id'])
         if avail_keys:
             other = manager.opt_log._best_iters[np.random.choice([*avail_keys])]
             w = np.exp(np.min([0, -(other['fx'] - best['fx']) * self.beta]))
@@ -117,7 +117,7 @@ class BasinHoppingGenerator(BaseGenerator):
                 self.logger.debug("Accept rate too low, step size decreasing %f -> %f.", old_step, self.step_size)
 
         # Random perturbation of the best vector based on the step size
-        x = best['x'].copy()
+        x = np.array(best['x'], dtype=float)
         x += np.random.uniform(-self.step_size, self.step_size, x.size)
 
         return x
diff --git a/glompo/generators/exploit_explore.py b/glompo/generators/exploit_explore.py
index d1c1284..7afdfee 100644
--- a/glompo/generators/exploit_explore.py
+++ b/glompo/generators/exploit_explore.py
@@ -58,12 +58,14 @@ class ExploitExploreGenerator(BaseGenerator):
         random = (self.bounds[:, 1] - self.bounds[:, 0]) * np.random.random(self.n_params) + self.bounds[:, 0]
         self.logger.debug("Random = %s", random)
 
-        f_track = np.array([best['fx'] for best in manager.opt_log._best_iters.values()])[1:]
+        best_iters = [best for opt_id, best in manager.opt_log._best_iters.items() if
+                      opt_id > 0 and np.isfinite(best['fx'])]
 
-        if len(f_track) == 0:
+        if len(best_iters) == 0:
             return random
 
         # Roulette Selection
+        f_track = np.array([best['fx'] for best in best_iters])
         shift = f_track - np.min(f_track)
         revert = np.max(shift) - shift
         if np.all(revert == 0):
@@ -71,8 +73,8 @@ class ExploitExploreGenerator(BaseGenerator):
         prob = revert / np.sum(revert)
 
         select = np.random.choice(range(len(f_track)), p=prob)
-        incumbent = np.array(manager.opt_log.get_best_iter(select + 1)['x'])
-        self.logger.debug("Selected incumbent from Optimizer %d = %s", select, incumbent)
+        incumbent = np.array(best_iters[select]['x'])
+        self.logger.debug("Selected incumbent from Optimizer %d = %s", best_iters[select]['opt_id'], incumbent)
 
         # Blending parameter
         f_calls = np.clip(manager.f_counter / self.max_func_calls, 0, 1)
@@ -81,6 +83,6 @@ class ExploitExploreGenerator(BaseGenerator):
 
         # New point
         generated = alpha * incumbent + (1 - alpha) * random
-        self.logger.debug("Generated = %f", generated)
+        self.logger.debug("Generated = %s", generated)
 
         return generated
-- 
2.43.0


From 7dc1eb716885e1b9859aaf0582ca518460b41730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:03 +0000
Subject: [PATCH 21/30] fix: do not terminate active optimizers as hanging

Results which wait because the manager itself was occupied, or which remain in the
cache of the queue, count as feedback; as does being paused for a checkpoint. The
end condition of an optimizer which has already ended is not overwritten.
---
 glompo/core/_backends.py | 11 +++++++---
 glompo/core/manager.py   | 43 ++++++++++++++++++++++++++++++++--------
 2 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/glompo/core/_backends.py b/glompo/core/_backends.py
index 0aa9cc8..6e608b9 100644
--- a/glompo/core/_backends.py
+++ b/glompo/core/_backends.py
@@ -185,6 +185,11 @@ class ChunkingQueue(queue.Queue):
     def flush(self, block=True, timeout=None):
         """ Attempts to put cache items (if any) in the queue according to block and timeout. """
         if self.fast_func:
-            with self.cache_lock:
-                super().put(self.cache, block, timeout)
-                self.cache = []
+            if not self.cache_lock.acquire(block, -1 if timeout is None or not block else timeout):
+                raise queue.Full
+            try:
+                if self.cache:
+                    super().put(self.cache, block, timeout)
+                    self.cache = []
+            finally:
+                self.cache_lock.release()
diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index bd26c21..ea8fed2 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -291,6 +291,7 @@ class GloMPOManager:
         self._optimizer_packs: Dict[int, ProcessPackage] = {}  # Dictionary of living or recently living optimizers.
         self._graveyard: Set[int] = set()
         self._last_feedback: Dict[int, float] = {}
+        self._suspected: Dict[int, float] = {}
         self._opt_checkpoints: Dict[int, OptimizerCheckpoint] = {}  # Type & slots of every opt for checkpt loading
 
         self.allow_forced_terminations: bool = None
@@ -1238,6 +1239,8 @@ class GloMPOManager:
                     if pack.process.is_alive():
                         self._send_signal(opt_id, 1)
             self._toggle_optimizers(1)
+            for opt_id in self._optimizer_packs:
+                self._last_feedback[opt_id] = time()  # Optimizers could not give feedback while they were paused
 
     def write_summary_file(self, dump_dir: Optional[Path] = None):
         """ Writes a manager summary YAML file detailing the state of the optimization.
@@ -1444,6 +1447,8 @@ class GloMPOManager:
         Tidies up and gracefully deals with any strange behaviour such as crashes or non-responsive behaviour.
         """
 
+        hanging = self._find_hanging()
+
         for opt_id, pack in self._optimizer_packs.items():
 
             # Find dead optimizer processes that did not properly signal their termination.
@@ -1451,17 +1456,14 @@ class GloMPOManager:
                 self._process_dead(opt_id)
 
             # Find hanging processes
-            if pack.process.is_alive() and \
-                    time() - self._last_feedback[opt_id] > self._too_long and \
-                    self.allow_forced_terminations and \
-                    opt_id not in self.hunt_victims and \
-                    self.proc_backend:
+            if opt_id in hanging and pack.process.is_alive():
                 warnings.warn(f"Optimizer {opt_id} seems to be hanging. Forcing termination.", RuntimeWarning)
                 self.logger.error("Optimizer %d seems to be hanging. Forcing termination.", opt_id)
-                self._graveyard.add(opt_id)
                 self.opt_log.put_message(opt_id, "Force terminated due to no feedback timeout.")
-                self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
-                self.opt_log.put_metadata(opt_id, "end_cond", "Forced GloMPO Termination")
+                if opt_id not in self._graveyard:  # Otherwise, it has already ended but its process does not exit
+                    self._graveyard.add(opt_id)
+                    self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
+                    self.opt_log.put_metadata(opt_id, "end_cond", "Forced GloMPO Termination")
                 pack.process.terminate()
 
             # Force kill zombies
@@ -1479,6 +1481,26 @@ class GloMPOManager:
                 warnings.warn(f"Forced termination signal sent to optimizer {opt_id}.", RuntimeWarning)
                 self.logger.error("Forced termination signal sent to optimizer %d.", opt_id)
 
+    def _find_hanging(self) -> Set[int]:
+        """ Returns the optimizers which have given no feedback for too long. Optimizers are only judged once everything
+        they sent was accepted as their feedback may just be waiting because the manager itself was occupied.
+        """
+
+        if not self.allow_forced_terminations or not self.proc_backend:
+            return set()
+
+        silent = {opt_id for opt_id, pack in self._optimizer_packs.items()
+                  if pack.process.is_alive() and opt_id not in self.hunt_victims and
+                  time() - self._last_feedback[opt_id] > self._too_long}
+
+        suspected = {opt_id: self._suspected.get(opt_id, time()) for opt_id in silent}
+        if suspected.keys() - self._suspected.keys():
+            self._process_results(100)  # More than what fits in the queue
+        self._suspected = suspected
+
+        return {opt_id for opt_id in silent - self.hunt_victims.keys()
+                if time() - suspected[opt_id] > 1 and time() - self._last_feedback[opt_id] > self._too_long}
+
     def _process_dead(self, opt_id: int):
         """ Records the end of optimizer :obj:`opt_id` which is no longer alive. """
 
@@ -1539,6 +1561,10 @@ class GloMPOManager:
                 chunk: List[IterationResult] = self.optimizer_queue.get(block=True, timeout=1)
             except queue.Empty:
                 self.logger.debug("Timeout on result queue.")
+                try:
+                    self.optimizer_queue.flush(block=False)  # Results of slow optimizers must not remain in the cache
+                except queue.Full:
+                    pass
                 break
 
             for res in chunk:
@@ -1961,6 +1987,7 @@ class GloMPOManager:
             victims |= victims_cached
         [not_chkpt.add(cld) for cld in closed]
         [not_chkpt.add(vic) for vic in victims]
+        not_chkpt |= messaged & self._graveyard
         self.logger.info("Outstanding results processed")
 
         # Record optimizers which ended before they could be paused
-- 
2.43.0


From b857c72d55f20b872bca9e27c3e6edea8e54d469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 22/30] fix: judge suspected optimizers in a later inspection
 only

---
 glompo/core/manager.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index ea8fed2..21dc652 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1493,13 +1493,13 @@ class GloMPOManager:
                   if pack.process.is_alive() and opt_id not in self.hunt_victims and
                   time() - self._last_feedback[opt_id] > self._too_long}
 
-        suspected = {opt_id: self._suspected.get(opt_id, time()) for opt_id in silent}
-        if suspected.keys() - self._suspected.keys():
+        if silent - self._suspected.keys():
             self._process_results(100)  # More than what fits in the queue
-        self._suspected = suspected
+        # Optimizers are suspected from the end of this inspection and judged in a later one
+        self._suspected = {opt_id: self._suspected.get(opt_id, time()) for opt_id in silent}
 
         return {opt_id for opt_id in silent - self.hunt_victims.keys()
-                if time() - suspected[opt_id] > 1 and time() - self._last_feedback[opt_id] > self._too_long}
+                if time() - self._suspected[opt_id] > 1 and time() - self._last_feedback[opt_id] > self._too_long}
 
     def _process_dead(self, opt_id: int):
         """ Records the end of optimizer :obj:`opt_id` which is no longer alive. """
-- 
2.43.0


From 8221e0261f691d528f160665d17bbab541d2bb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 23/30] fix: accept share_best_solutions when loading a
 checkpoint

---
 glompo/core/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 21dc652..f07e60e 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -772,6 +772,8 @@ class GloMPOManager:
                 pass
             elif key == 'working_dir':
                 self.working_dir = Path(val).resolve()
+            elif key == 'share_best_solutions':
+                self.incumbent_sharing = val
             elif key in permit_keys:
                 setattr(self, key, val)
             else:
-- 
2.43.0


From 2a5a4d4896a521c650f523410094dc4978571b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:42 +0000
Subject: [PATCH 24/30] fix: checkpoint which cannot remove its temporary file
 does not end the run

---
 glompo/core/manager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index f07e60e..0f1d3cf 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1233,8 +1233,11 @@ class GloMPOManager:
             self.logger.info("Checkpoint '%s' successfully built", path.name)
         finally:
             shutil.rmtree(path, ignore_errors=True)
-            if build_path.exists():
-                build_path.unlink()
+            try:
+                if build_path.exists():
+                    build_path.unlink()
+            except OSError as e:
+                self.logger.warning("Could not remove '%s'", build_path, exc_info=e)
 
             if self.converged:
                 for opt_id, pack in self._optimizer_packs.items():
-- 
2.43.0


From b9a77518d09ccfd6390b8e50ce4ab8fd463eb265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 25/30] fix: accept results while optimizers save their states
 for a checkpoint

---
 glompo/core/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 0f1d3cf..52a2e50 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -2015,6 +2015,8 @@ class GloMPOManager:
         # Wait for all checkpoint_save to complete
         wait_reply = living.copy()
         while wait_reply:
+            if self.optimizer_queue.full():
+                self._process_results(n_alive)  # Optimizers which fail to save must not block when they exit
             for opt_id in living - wait_reply:
                 self._last_feedback[opt_id] = time()
             self._inspect_children()
-- 
2.43.0


From b04b4d9f9495ff8095f4fac07248d272f10c8de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 26/30] fix: checkpoint names containing '?' or a backslash are
 recognised

---
 glompo/core/checkpointing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/checkpointing.py b/glompo/core/checkpointing.py
index ff71730..1ab3c10 100644
--- a/glompo/core/checkpointing.py
+++ b/glompo/core/checkpointing.py
@@ -116,7 +116,7 @@ class CheckpointingControl:
         for i, char in enumerate(format_re):
             if any([char == c for c in ('{', '(', '+', '*', '|', '.', '$', ')', '}')]):
                 format_re[i] = f'[{char}]'
-            if any([char == c for c in ('^', '[', ']')]):
+            if any([char == c for c in ('^', '[', ']', '?', '\\')]):
                 format_re[i] = rf'\{char}'
         format_re = "".join(format_re)
         for key, digits in codes.items():
-- 
2.43.0


From 52c9720962047df2b9351cae19f76e7ada872397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 27/30] fix: leave the log file alone when resuming without
 recording in it

---
 glompo/core/manager.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 52a2e50..826b335 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -943,25 +943,26 @@ class GloMPOManager:
                                    f"{peek.root._v_attrs.checksum}) which is for an optimization which does not match "
                                    f"this one (Checksum: {self._checksum})! Aborting optimization.")
 
-                # Overwrite excess iterations
-                tables = [*peek.walk_nodes('/', 'Table')]
-                file_f_count = max((int(tab.cols.call_id[-1]) for tab in tables if tab.nrows > 0), default=0)
-                if file_f_count > self.f_counter:
-                    self.logger.warning("The log file (%d evaluations) has iterated past the checkpoint "
-                                        "(%d evaluations). Rolling back the log file to the checkpoint.",
-                                        file_f_count, self.f_counter)
-                    warnings.warn(f"The log file ({file_f_count} evaluations) has iterated past "
-                                  f"the checkpoint ({self.f_counter} evaluations). Rolling back the log file to "
-                                  f"the checkpoint.")
-                    for tab in tables:
-                        tab: tb.Table
-                        call_ids = tab.col('call_id')
-                        crit_i = np.searchsorted(call_ids, self.f_counter, 'right')
-                        tab.remove_rows(crit_i)
-
-                for group in [*peek.iter_nodes('/', 'Group')]:
-                    if int(group._v_name.split('_')[1]) > self.o_counter:
-                        peek.remove_node('/', group._v_name, recursive=True)
+                # Overwrite excess iterations, unless this run does not record anything in the log file
+                if type(self.opt_log) is not BaseLogger:
+                    tables = [*peek.walk_nodes('/', 'Table')]
+                    file_f_count = max((int(tab.cols.call_id[-1]) for tab in tables if tab.nrows > 0), default=0)
+                    if file_f_count > self.f_counter:
+                        self.logger.warning("The log file (%d evaluations) has iterated past the checkpoint "
+                                            "(%d evaluations). Rolling back the log file to the checkpoint.",
+                                            file_f_count, self.f_counter)
+                        warnings.warn(f"The log file ({file_f_count} evaluations) has iterated past "
+                                      f"the checkpoint ({self.f_counter} evaluations). Rolling back the log file to "
+                                      f"the checkpoint.")
+                        for tab in tables:
+                            tab: tb.Table
+                            call_ids = tab.col('call_id')
+                            crit_i = np.searchsorted(call_ids, self.f_counter, 'right')
+                            tab.remove_rows(crit_i)
+
+                    for group in [*peek.iter_nodes('/', 'Group')]:
+                        if int(group._v_name.split('_')[1]) > self.o_counter:
+                            peek.remove_node('/', group._v_name, recursive=True)
             mode = 'a'
 
         if self._is_restart or not self._checksum:
-- 
2.43.0


From dbfcac06be08230aaae2d4718ee63a4cc6784a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 28/30] fix: do not share the placeholder solution when the
 first evaluation is not finite

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 826b335..a0881e9 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1724,7 +1724,7 @@ class GloMPOManager:
 
         best_iter = self.opt_log.get_best_iter()
 
-        if self.incumbent_sharing and (self.result.fx is None or best_iter['fx'] < self.result.fx):
+        if self.incumbent_sharing and best_iter['fx'] < (float('inf') if self.result.fx is None else self.result.fx):
             for opt_id, pack in self._optimizer_packs.items():
                 if opt_id != best_iter['opt_id'] and pack.process.is_alive():
                     self._send_signal(opt_id, (4, best_iter['x'], best_iter['fx']))
-- 
2.43.0


From 75fab76e5969d8e9c0ade41fbc60e89a2b620873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 29/30] fix: record the end of the run in the remaining output
 files if one cannot be written

---
 glompo/core/manager.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index a0881e9..c476fe6 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1806,6 +1806,7 @@ class GloMPOManager:
         """
 
         data = {}
+        error = None  # Each of the outputs must be written, even if another one cannot be
         if summary_files > 0:
             if caught_exception:
                 reason = f"Process Crash: {caught_exception}"
@@ -1876,20 +1877,26 @@ class GloMPOManager:
                                 "exit cond.": LiteralWrapper(nested_string_formatting(reason)),
                                 "x": FlowList(result.x) if result.x is not None else result.x}
 
-            with (dump_dir / "glompo_manager_log.yml").open("w") as file:
-                self.logger.debug("Saving manager summary file.")
-                yaml.dump(data, file, Dumper=Dumper, default_flow_style=False, sort_keys=False)
+            try:
+                with (dump_dir / "glompo_manager_log.yml").open("w") as file:
+                    self.logger.debug("Saving manager summary file.")
+                    yaml.dump(data, file, Dumper=Dumper, default_flow_style=False, sort_keys=False)
+            except Exception as e:
+                error = e
 
         if summary_files > 1:
-            self.logger.debug("Saving trajectory plot.")
-            all_sign = self.opt_log.largest_eval * self.opt_log.get_best_iter()['fx'] > 0
-            range_large = self.opt_log.largest_eval - self.opt_log.get_best_iter()['fx'] > 1e5
-            log_scale = all_sign and range_large
-            name = "trajectories_"
-            name += "log_" if log_scale else ""
-            name = name[:-1] if name.endswith("_") else name
-            name += ".png"
-            self.opt_log.plot_trajectory(dump_dir / name, log_scale)
+            try:
+                self.logger.debug("Saving trajectory plot.")
+                all_sign = self.opt_log.largest_eval * self.opt_log.get_best_iter()['fx'] > 0
+                range_large = self.opt_log.largest_eval - self.opt_log.get_best_iter()['fx'] > 1e5
+                log_scale = all_sign and range_large
+                name = "trajectories_"
+                name += "log_" if log_scale else ""
+                name = name[:-1] if name.endswith("_") else name
+                name += ".png"
+                self.opt_log.plot_trajectory(dump_dir / name, log_scale)
+            except Exception as e:
+                error = error or e
 
         if summary_files > 2:
             self.opt_log.put_manager_metadata('task', data['Assignment']['Task'])
@@ -1910,6 +1917,9 @@ class GloMPOManager:
 
             self.opt_log.flush()
 
+        if error:
+            raise error
+
     """ Checkpointing Sub-Tasks """
 
     def _checkpoint_optimizers(self, path: Union[str, Path], messaged: Optional[Set[int]] = None):
-- 
2.43.0


From e0d312992c43d4e95ab29ee5be124d9cb919d109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 30/30] fix: result includes the evaluation which was being
 accepted when the run was interrupted

---
 glompo/core/manager.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index c476fe6..3d8af3c 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1095,6 +1095,10 @@ class GloMPOManager:
             else:
                 self.dt_ends.append(dt_end)
 
+            # The run may have been stopped before the last evaluation accepted was taken into account
+            if caught_exception and len(self.opt_log) > 0:
+                self.result = self._update_best_result(share=False)
+
             # The result must be returned and the log closed, even if (some of) the output cannot be written.
             if self.visualisation:
                 try:
@@ -1719,12 +1723,15 @@ class GloMPOManager:
         if self.visualisation:
             self.scope.update_kill(opt_id)
 
-    def _update_best_result(self) -> Result:
-        """ Returns the best :class:`.Result` found in the :attr:`opt_log`. """
+    def _update_best_result(self, share: bool = True) -> Result:
+        """ Returns the best :class:`.Result` found in the :attr:`opt_log`.
+        If :obj:`share`, and solutions are to be shared, optimizers are told about an improvement.
+        """
 
         best_iter = self.opt_log.get_best_iter()
 
-        if self.incumbent_sharing and best_iter['fx'] < (float('inf') if self.result.fx is None else self.result.fx):
+        if share and self.incumbent_sharing and \
+                best_iter['fx'] < (float('inf') if self.result.fx is None else self.result.fx):
             for opt_id, pack in self._optimizer_packs.items():
                 if opt_id != best_iter['opt_id'] and pack.process.is_alive():
                     self._send_signal(opt_id, (4, best_iter['x'], best_iter['fx']))
-- 
2.43.0

