From 40e892b530fd9959143aace08e99b2dd771917d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 01/55] fix: do not crash when the last optimizer ends and
 spawning has stopped

_fill_optimizer_slots raised "Not enough worker slots" whenever no optimizer
was alive after it ran, also if spawning was deactivated, or if the last
optimizers ended while the slots were being counted. Only complain if an
optimizer was wanted, every slot was free and still none fitted.
---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 967cb86..f15f104 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1256,7 +1256,7 @@ class GloMPOManager:
                                   'max_jobs': self.max_jobs,
                                   'f': self.f_counter,
                                   'f_best': f_best})
-        elif len(processes) == 0:
+        elif count == 0 and self.spawning_opts:
             raise RuntimeError("Not enough worker slots to start any optimizers with the current settings.")
 
     def _start_new_job(self, opt_id: int, optimizer: BaseOptimizer, call_kwargs: Dict[str, Any],
-- 
2.43.0


From 8a7e8f608e8769d963b56f674ce1eecfae61e341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 02/55] fix: read all pending signals of a dead optimizer
 before classifying it

An optimizer which crashed had its error report (and anything else still in
its pipe) dropped if it died between the signal check and the inspection of
the children: the crash branch never looked, the normal branch read only one
signal and then left the optimizer undecided.
---
 glompo/core/manager.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index f15f104..1bef532 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1392,21 +1392,25 @@ class GloMPOManager:
 
         for opt_id, pack in self._optimizer_packs.items():
 
+            # Process everything dead optimizers had to say before deciding how they ended.
+            if opt_id not in self._graveyard and not pack.process.is_alive():
+                while self._check_signals(opt_id):
+                    pass
+
             # Find dead optimizer processes that did not properly signal their termination.
             if opt_id not in self._graveyard and not pack.process.is_alive():
                 exitcode = pack.process.exitcode
                 if exitcode == 0:
-                    if not self._check_signals(opt_id):
-                        self.conv_counter += 1
-                        self._graveyard.add(opt_id)
-                        self.opt_log.put_message(opt_id, "Terminated normally without sending a minimization "
-                                                         "complete signal to the manager.")
-                        warnings.warn(f"Optimizer {opt_id} terminated normally without sending a "
-                                      f"minimization complete signal to the manager.", RuntimeWarning)
-                        self.logger.warning("Optimizer %d terminated normally without sending a minimization complete "
-                                            "signal to the manager.", opt_id)
-                        self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
-                        self.opt_log.put_metadata(opt_id, "end_cond", "Normal termination (Reason unknown)")
+                    self.conv_counter += 1
+                    self._graveyard.add(opt_id)
+                    self.opt_log.put_message(opt_id, "Terminated normally without sending a minimization "
+                                                     "complete signal to the manager.")
+                    warnings.warn(f"Optimizer {opt_id} terminated normally without sending a "
+                                  f"minimization complete signal to the manager.", RuntimeWarning)
+                    self.logger.warning("Optimizer %d terminated normally without sending a minimization complete "
+                                        "signal to the manager.", opt_id)
+                    self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
+                    self.opt_log.put_metadata(opt_id, "end_cond", "Normal termination (Reason unknown)")
                 else:
                     self._graveyard.add(opt_id)
                     self.opt_log.put_message(opt_id, f"Terminated in error with code {-exitcode}")
-- 
2.43.0


From 2bd9fd832bdcf79fac9e48bb47a43312662c3537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 03/55] fix: return up to date statistics with the final result

The statistics were those of the moment the last function evaluation was
processed: optimizers which were killed or converged afterwards were missing.
---
 glompo/core/manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 1bef532..c688d05 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1085,7 +1085,12 @@ class GloMPOManager:
 
             self.result = Result(list(self.result.x) if self.result.x else None,
                                  self.result.fx,
-                                 {**self.result.stats, 'end_cond': reason} if self.result.stats else {
+                                 {**self.result.stats,
+                                  'f_evals': self.f_counter,
+                                  'opts_started': self.o_counter,
+                                  'opts_killed': len(self.hunt_victims),
+                                  'opts_conv': self.conv_counter,
+                                  'end_cond': reason} if self.result.stats else {
                                      'end_cond': reason},
                                  self.result.origin)
 
-- 
2.43.0


From 3d800eac51483a17005dd515b6467891aa87668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 04/55] fix: do not drop evaluations when the last optimizer
 ends

The manager stopped as soon as no optimizer was alive, although their last
evaluations could still be waiting in the queue, or optimizers which had died
since the last inspection had not been looked at. These were lost.
---
 glompo/core/manager.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index c688d05..b155b67 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1016,7 +1016,14 @@ class GloMPOManager:
                     if not pack.process.is_alive() and opt_id in self._graveyard:
                         del self._optimizer_packs[opt_id]
 
-                all_dead = len([p for p in self._optimizer_packs.values() if p.process.is_alive()]) == 0
+                all_dead = all([opt_id in self._graveyard and not pack.process.is_alive()
+                                for opt_id, pack in self._optimizer_packs.items()])
+                if all_dead and not self.spawning_opts:
+                    # Nothing more will arrive, make sure everything which did is included in the result
+                    self._process_results()
+                    if self.optimizer_queue.has_cache():
+                        self.optimizer_queue.flush()
+                        self._process_results()
                 checker_condition = self.convergence_checker(self)
 
                 if checker_condition:
-- 
2.43.0


From aa171265bd3e17bf3cf947841ab46a5523f4e66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 05/55] fix: keep purging the results queue while joining
 optimizers

The queue was purged once before the optimizers were joined. An optimizer
which filled it again before reading its stop signal blocked on the full
queue, so that the join never returned (threads) or ran into its timeout and
a needless termination (processes).
---
 glompo/core/manager.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index b155b67..6252cc2 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1662,14 +1662,6 @@ class GloMPOManager:
         except Exception as e:
             self.logger.debug("Pipe messaging failed during cleanup.", exc_info=e)
 
-        # Purge the queue to ensure no optimizers are blocking
-        try:
-            while not self.optimizer_queue.empty():
-                self.optimizer_queue.get_nowait()
-        except Exception as e:
-            # Queue may not be accessible in a crash
-            self.logger.debug("Queue purge failed.", exc_info=e)
-
         for opt_id, pack in self._optimizer_packs.items():
             # Add stop condition to logs without overwriting existing ones
             try:
@@ -1682,7 +1674,7 @@ class GloMPOManager:
                                           crash_reason if crash_reason else "GloMPO Convergence")
 
             if pack.process.is_alive():
-                pack.process.join(timeout=self.end_timeout if not crash_reason else 0.1)
+                self._join_child(pack.process, self.end_timeout if not crash_reason else 0.1)
                 if pack.process.is_alive():
                     if self.proc_backend:
                         self.logger.info("Termination signal sent to optimizer %d", opt_id)
@@ -1691,6 +1683,25 @@ class GloMPOManager:
                         self.logger.warning("Could not join optimizer %d. May crash out with it still running and thus "
                                             "generate errors. Terminations cannot be sent to threads.", opt_id)
 
+    def _join_child(self, process, timeout: Optional[float]):
+        """ Waits (at most `timeout` seconds) for the end of `process`. The results queue is continuously purged while
+            waiting to ensure that no optimizer is blocked by it.
+        """
+
+        t_start = time()
+        t_wait = 0.1
+        while process.is_alive() and t_wait > 0:
+            try:
+                while not self.optimizer_queue.empty():
+                    self.optimizer_queue.get_nowait()
+            except Exception as e:
+                # Queue may not be accessible in a crash
+                self.logger.debug("Queue purge failed.", exc_info=e)
+
+            if timeout is not None:
+                t_wait = min(0.1, timeout - (time() - t_start))
+            process.join(timeout=max(t_wait, 0))
+
     def _save_log(self, result: Result, reason: str, caught_exception: Optional[str], dump_dir: Path,
                   summary_files: int):
         """ Saves the manager's state and history into the collection of files indicated by :obj:`summary_files`.
-- 
2.43.0


From ccb72e2ec0752d75539fc19646708ca285465e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 06/55] fix: survive optimizers which end just before they are
 sent a signal

The manager checked that an optimizer process was alive and then wrote to its
pipe. If the process ended in between, BrokenPipeError (when writing) or
ConnectionResetError (when reading its last messages, after it left a signal
unread) ended the whole optimization; during clean-up it prevented the other
optimizers from being told to stop.
---
 glompo/core/manager.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 6252cc2..a2caf04 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1207,7 +1207,7 @@ class GloMPOManager:
                 ovw_path.unlink()
 
         if self.converged:
-            [pack.signal_pipe.send(1) for _, pack in self._optimizer_packs.items() if pack.process.is_alive()]
+            [self._send_signal(opt_id, 1) for opt_id, pack in self._optimizer_packs.items() if pack.process.is_alive()]
         self._toggle_optimizers(1)
         self.logger.info("Checkpoint '%s' successfully built", path.name)
 
@@ -1391,12 +1391,24 @@ class GloMPOManager:
                     if self.visualisation:
                         self.scope.update_crash_terminate(opt_id)
                 found_signal = True
-            except EOFError:
+            except (EOFError, ConnectionError):
                 self.logger.error("Opt%d pipe closed. Opt%d should be in graveyard", opt_id, opt_id)
         else:
             self.logger.debug("No signals from %d.", opt_id)
         return found_signal
 
+    def _send_signal(self, opt_id: int, message: Any) -> bool:
+        """ Sends `message` to optimizer :obj:`opt_id`. Returns :obj:`False` if the optimizer can no longer be reached
+            because it has ended in the meantime.
+        """
+
+        try:
+            self._optimizer_packs[opt_id].signal_pipe.send(message)
+            return True
+        except ConnectionError:
+            self.logger.info("Optimizer %d ended before it could be sent a signal.", opt_id)
+            return False
+
     def _inspect_children(self):
         """ Loops through all children processes and checks their status.
         Tidies up and gracefully deals with any strange behaviour such as crashes or non-responsive behaviour.
@@ -1619,7 +1631,7 @@ class GloMPOManager:
         if self.aggressive_kill and self.proc_backend:
             self._optimizer_packs[opt_id].process.terminate()
         else:
-            self._optimizer_packs[opt_id].signal_pipe.send(1)
+            self._send_signal(opt_id, 1)
             self.logger.debug("Termination signal sent to %d", opt_id)
 
         self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
@@ -1639,7 +1651,7 @@ class GloMPOManager:
         if self.incumbent_sharing and (not self.result.fx or best_iter['fx'] < self.result.fx):
             for opt_id, pack in self._optimizer_packs.items():
                 if opt_id != best_iter['opt_id'] and pack.process.is_alive():
-                    pack.signal_pipe.send((4, best_iter['x'], best_iter['fx']))
+                    self._send_signal(opt_id, (4, best_iter['x'], best_iter['fx']))
 
         best_origin = {"opt_id": best_iter['opt_id'],
                        "type": best_iter['type']}
@@ -1658,7 +1670,8 @@ class GloMPOManager:
         # Attempt to send shutdown signals
         try:
             message = (1, "GloMPO Crash") if crash_reason else 1
-            [pack.signal_pipe.send(message) for _, pack in self._optimizer_packs.items() if pack.process.is_alive()]
+            [self._send_signal(opt_id, message) for opt_id, pack in self._optimizer_packs.items() if
+             pack.process.is_alive()]
         except Exception as e:
             self.logger.debug("Pipe messaging failed during cleanup.", exc_info=e)
 
@@ -1829,8 +1842,7 @@ class GloMPOManager:
         # Pause optimizers
         messaged = set()
         for opt_id, pack in self._optimizer_packs.items():
-            if pack.process.is_alive():
-                pack.signal_pipe.send(2)
+            if pack.process.is_alive() and self._send_signal(opt_id, 2):
                 messaged.add(opt_id)
 
         # Synchronise and wait for replies (end or paused)
@@ -1891,10 +1903,10 @@ class GloMPOManager:
                 if opt_id not in not_chkpt:
                     if self.visualisation:
                         self.scope.update_checkpoint(opt_id)
-                    pack.signal_pipe.send((0, (path / 'optimizers' / f'{opt_id:04}').absolute()))
+                    self._send_signal(opt_id, (0, (path / 'optimizers' / f'{opt_id:04}').absolute()))
                     self.logger.debug('Checkpoint save sent to Optimizer %d', opt_id)
                 else:
-                    pack.signal_pipe.send(3)  # Causes waiting optimizers will pass and not checkpoint
+                    self._send_signal(opt_id, 3)  # Causes waiting optimizers will pass and not checkpoint
 
         # Wait for all checkpoint_save to complete
         wait_reply = living.copy()
-- 
2.43.0


From 6727f555ff4615f9176ebcb6a5fb5f735bbe65a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 07/55] fix: synchronise correctly with optimizers which end or
 speak during a checkpoint

While waiting for its optimizers to pause, the manager
- crashed on any message other than an end or a pause (e.g. a crash report),
- counted optimizers which had already been killed as converged, and included
  them in the checkpoint if they were still alive,
- never recorded the end of optimizers which died instead of pausing,
- missed the evaluations still held in the cache of the results queue,
- waited for ever for an optimizer which died while saving its state.
---
 glompo/core/manager.py | 71 ++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 26 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index a2caf04..7630859 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1375,21 +1375,7 @@ class GloMPOManager:
         if opt_id not in self._graveyard and pipe.poll():
             try:
                 key, message = pipe.recv()
-                self._last_feedback[opt_id] = time()
-                self.logger.info("Signal %d from %d.", key, opt_id)
-                if key == 0:
-                    self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
-                    self.opt_log.put_metadata(opt_id, "end_cond", message)
-                    self._graveyard.add(opt_id)
-                    self.conv_counter += 1
-                    if self.visualisation:
-                        self.scope.update_norm_terminate(opt_id)
-                elif key == 9:
-                    self.opt_log.put_message(opt_id, message)
-                    self.logger.warning("Optimizer %d Exception: %s", opt_id, message)
-                    self.opt_crashed = "Traceback" in message or self.opt_crashed
-                    if self.visualisation:
-                        self.scope.update_crash_terminate(opt_id)
+                self._process_signal(opt_id, key, message)
                 found_signal = True
             except (EOFError, ConnectionError):
                 self.logger.error("Opt%d pipe closed. Opt%d should be in graveyard", opt_id, opt_id)
@@ -1397,6 +1383,25 @@ class GloMPOManager:
             self.logger.debug("No signals from %d.", opt_id)
         return found_signal
 
+    def _process_signal(self, opt_id: int, key: int, message: Any):
+        """ Records the content of a signal from optimizer :obj:`opt_id`. """
+
+        self._last_feedback[opt_id] = time()
+        self.logger.info("Signal %d from %d.", key, opt_id)
+        if key == 0:
+            self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
+            self.opt_log.put_metadata(opt_id, "end_cond", message)
+            self._graveyard.add(opt_id)
+            self.conv_counter += 1
+            if self.visualisation:
+                self.scope.update_norm_terminate(opt_id)
+        elif key == 9:
+            self.opt_log.put_message(opt_id, message)
+            self.logger.warning("Optimizer %d Exception: %s", opt_id, message)
+            self.opt_crashed = "Traceback" in message or self.opt_crashed
+            if self.visualisation:
+                self.scope.update_crash_terminate(opt_id)
+
     def _send_signal(self, opt_id: int, message: Any) -> bool:
         """ Sends `message` to optimizer :obj:`opt_id`. Returns :obj:`False` if the optimizer can no longer be reached
             because it has ended in the meantime.
@@ -1846,7 +1851,7 @@ class GloMPOManager:
                 messaged.add(opt_id)
 
         # Synchronise and wait for replies (end or paused)
-        not_chkpt = set()  # Set of messaged opts that should not be checkpointed
+        not_chkpt = messaged & self._graveyard  # Set of messaged opts that should not be checkpointed
         wait_reply = messaged.copy()
         living = messaged.copy()
         n_alive = len(messaged)
@@ -1866,20 +1871,20 @@ class GloMPOManager:
                 pack = self._optimizer_packs[opt_id]
                 if pack.process.is_alive():
                     if pack.signal_pipe.poll(0.1):
-                        key, message = pack.signal_pipe.recv()
+                        try:
+                            key, message = pack.signal_pipe.recv()
+                        except (EOFError, ConnectionError):
+                            continue  # Optimizer has just ended
                         self.logger.debug("Received %d, %s from %d", key, message, opt_id)
-                        if key == 0:
-                            self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
-                            self.opt_log.put_metadata(opt_id, "end_cond", message)
-                            self._graveyard.add(opt_id)
-                            self.conv_counter += 1
-                            not_chkpt.add(opt_id)
-                        elif key == 1:
+                        if key == 1:
+                            self._last_feedback[opt_id] = time()
                             if self.visualisation:
                                 self.scope.update_pause(opt_id)
                             wait_reply.remove(opt_id)
-                        else:
-                            raise RuntimeError(f"Unhandled message: {message}")
+                        elif opt_id not in self._graveyard:
+                            self._process_signal(opt_id, key, message)
+                            if key == 0:
+                                not_chkpt.add(opt_id)
                 else:
                     self.logger.debug("Opt %d dead, removing from wait list", opt_id)
                     not_chkpt.add(opt_id)
@@ -1891,8 +1896,17 @@ class GloMPOManager:
         closed, victims = self._process_results()
         [not_chkpt.add(cld) for cld in closed]
         [not_chkpt.add(vic) for vic in victims]
+        if self.optimizer_queue.has_cache():
+            self.optimizer_queue.flush()
+            closed, victims = self._process_results()
+            [not_chkpt.add(cld) for cld in closed]
+            [not_chkpt.add(vic) for vic in victims]
         self.logger.info("Outstanding results processed")
 
+        # Record the end of optimizers which ended instead of pausing
+        self._inspect_children()
+        not_chkpt |= messaged & self._graveyard
+
         assert self.optimizer_queue.empty()
 
         # Send checkpoint_save signals
@@ -1912,8 +1926,13 @@ class GloMPOManager:
         wait_reply = living.copy()
         while wait_reply:
             for opt_id in wait_reply.copy():
+                is_alive = self._optimizer_packs[opt_id].process.is_alive()
                 if not self._optimizer_packs[opt_id].allow_run_event.is_set():
                     wait_reply.remove(opt_id)
+                elif not is_alive:
+                    if opt_id not in not_chkpt:
+                        raise CheckpointingError(f"Optimizer {opt_id} ended before its restart file was complete")
+                    wait_reply.remove(opt_id)
 
         # Confirm all restart files are found
         living_names = {f'{opt_id:04}' for opt_id in messaged - not_chkpt}
-- 
2.43.0


From 0b48b8ca61f738342ce1d4b59888e2c6a50132dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 08/55] fix: build checkpoints atomically and survive every
 failure to build one

- The evaluation log was saved before the outstanding results were processed
  and therefore lagged behind the manager saved in the same checkpoint.
- An existing checkpoint was moved away (and lost if the process died) while
  its replacement was being written under the final name. Archives are now
  completed under a temporary name and then put in place in one step.
- Only CheckpointingError and TarError counted as a failure to build a
  checkpoint; an OSError (e.g. disk full) ended the optimization even with
  raise_checkpoint_fail=False, or left a truncated archive behind.
- A failed checkpoint left threaded optimizers paused for ever if
  raise_checkpoint_fail is set, or if it failed before they could be saved.
- The build directory of a crashed run with the same name broke later ones.
- Names containing a '.' were cut off, so that different checkpoints could
  overwrite one another.
- keep_past deleted unrelated files and directories whose names merely start
  like a checkpoint, counted them as checkpoints, and took the alphabetical
  for the chronological order.
---
 glompo/core/manager.py | 99 +++++++++++++++++++++++++-----------------
 1 file changed, 60 insertions(+), 39 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 7630859..a1367c3 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1130,17 +1130,16 @@ class GloMPOManager:
         self.logger.info("Constructing Checkpoint")
 
         # Construct Checkpoint Name
-        path = self.checkpoint_control.checkpointing_dir / self.checkpoint_control.get_name()
-        path.mkdir(parents=True, exist_ok=True)
-
-        overwriting_chkpt = False
-        ovw_path = path.parent / '_overwriting_chkpt.tar.gz'
+        chkpt_dir = self.checkpoint_control.checkpointing_dir
+        tar_path = path = None
+        new_in_history = False
 
         try:
-            # Flush logger
-            self.opt_log.flush()
-            self.opt_log.checkpoint_save(path)
-            self.logger.debug("Log successfully pickled")
+            chkpt_dir.mkdir(parents=True, exist_ok=True)
+            name = self.checkpoint_control.get_name()
+            tar_path = chkpt_dir / f'{name}.tar.gz'
+            tar_path.parent.mkdir(parents=True, exist_ok=True)
+            path = Path(tempfile.mkdtemp(prefix='_constructing_', dir=tar_path.parent))
 
             # Save timestamp and checkpoint name
             if len(self.dt_starts) > 0:
@@ -1148,9 +1147,16 @@ class GloMPOManager:
                     self.dt_ends[-1] = datetime.now()
                 else:
                     self.dt_ends.append(datetime.now())
-            self.checkpoint_history.add(str(path.resolve().with_suffix('.tar.gz')))
+            new_in_history = str(tar_path.resolve()) not in self.checkpoint_history
+            self.checkpoint_history.add(str(tar_path.resolve()))
 
             self._checkpoint_optimizers(path)
+
+            # Flush logger, after all outstanding results have been processed
+            self.opt_log.flush()
+            self.opt_log.checkpoint_save(path)
+            self.logger.debug("Log successfully pickled")
+
             self._checkpoint_manager(path)
             self._checkpoint_task(path)
 
@@ -1161,39 +1167,37 @@ class GloMPOManager:
 
             # Compress checkpoint
             self.logger.debug("Building TarFile")
-            tar_path = path.with_suffix('.tar.gz')
             if tar_path.exists():
                 self.logger.warning("Overwriting existing checkpoint. To avoid this change the checkpointing naming "
                                     "format")
                 warnings.warn("Overwriting existing checkpoint. To avoid this change the checkpointing naming "
                               "format")
-                tar_path.replace(ovw_path)
-                overwriting_chkpt = True
 
-            try:
-                with tarfile.open(tar_path, 'x:gz') as tfile:
-                    tfile.add(path, recursive=True, arcname='')
-                self.logger.debug("TarFile built")
-            except tarfile.TarError as e:
-                self.logger.error("Error encountered during compression.")
-                if overwriting_chkpt:
-                    self.logger.info("Overwritten checkpoint restored")
-                    ovw_path.replace(tar_path)
-                raise CheckpointingError("Could not compress checkpoint", e)
+            # The archive only gets its name once it is complete, an existing checkpoint remains intact until then
+            tmp_tar_path = path / '_checkpoint.tar.gz'
+            members = sorted(path.iterdir())
+            with tarfile.open(tmp_tar_path, 'x:gz') as tfile:
+                for member in members:
+                    tfile.add(member, recursive=True, arcname=member.name)
+            tmp_tar_path.replace(tar_path)
+            self.logger.debug("TarFile built")
+            self.logger.info("Checkpoint '%s' successfully built", name)
 
             # Delete old checkpoints
             if self.checkpoint_control.keep_past > -1:
                 self.logger.debug("Finding old checkpoints to delete")
-                files = (file.name for file in self.checkpoint_control.checkpointing_dir.iterdir())
-                to_delete = sorted(filter(self.checkpoint_control.matches_naming_format, files), reverse=True)
-                self.logger.debug("Identified to delete: %d", to_delete[self.checkpoint_control.keep_past + 2:])
-                for old in to_delete[self.checkpoint_control.keep_past + 2:]:
-                    del_path = self.checkpoint_control.checkpointing_dir / old
-                    if del_path.is_file():
-                        del_path.unlink()
+                past = [file for file in chkpt_dir.iterdir() if
+                        file.is_file() and file.name.endswith('.tar.gz') and file != tar_path and
+                        self.checkpoint_control.matches_naming_format(file.name[:-len('.tar.gz')])]
+                past = sorted(past, key=lambda f: (f.stat().st_mtime, f.name), reverse=True)
+                to_delete = past[self.checkpoint_control.keep_past:]
+                self.logger.debug("Identified to delete: %s", to_delete)
+                for old in to_delete:
+                    old.unlink()
 
-        except CheckpointingError as e:
-            self.checkpoint_history.remove(str(path.resolve().with_suffix('.tar.gz')))
+        except Exception as e:
+            if new_in_history and not tar_path.exists():
+                self.checkpoint_history.discard(str(tar_path.resolve()))
 
             if self.checkpoint_control.raise_checkpoint_fail:
                 self.logger.error("Checkpointing failed", exc_info=e)
@@ -1202,14 +1206,13 @@ class GloMPOManager:
             self.logger.warning("Checkpointing failed. Aborting checkpoint construction.", exc_info=e)
             warnings.warn(f"Checkpointing failed: {e}.\nAborting checkpoint construction.")
         finally:
-            shutil.rmtree(path, ignore_errors=True)
-            if ovw_path.exists():
-                ovw_path.unlink()
+            if path:
+                shutil.rmtree(path, ignore_errors=True)
 
-        if self.converged:
-            [self._send_signal(opt_id, 1) for opt_id, pack in self._optimizer_packs.items() if pack.process.is_alive()]
-        self._toggle_optimizers(1)
-        self.logger.info("Checkpoint '%s' successfully built", path.name)
+            if self.converged:
+                [self._send_signal(opt_id, 1) for opt_id, pack in self._optimizer_packs.items() if
+                 pack.process.is_alive()]
+            self._toggle_optimizers(1)
 
     def write_summary_file(self, dump_dir: Optional[Path] = None):
         """ Writes a manager summary YAML file detailing the state of the optimization.
@@ -1850,6 +1853,24 @@ class GloMPOManager:
             if pack.process.is_alive() and self._send_signal(opt_id, 2):
                 messaged.add(opt_id)
 
+        try:
+            self._save_optimizers(path, messaged)
+        except BaseException:
+            # Optimizers which are still waiting to be told to save or to pass must not be left behind
+            for opt_id in messaged:
+                self._send_signal(opt_id, 3)
+            wait_pass = messaged.copy()
+            while wait_pass:
+                if self.optimizer_queue.full():
+                    self._process_results(1)
+                wait_pass = {opt_id for opt_id in wait_pass if
+                             self._optimizer_packs[opt_id].process.is_alive() and
+                             self._optimizer_packs[opt_id].allow_run_event.is_set()}
+            raise
+
+    def _save_optimizers(self, path: Path, messaged: Set[int]):
+        """ Checkpointing sub-task. Synchronises and saves the optimizers which have been told to pause. """
+
         # Synchronise and wait for replies (end or paused)
         not_chkpt = messaged & self._graveyard  # Set of messaged opts that should not be checkpointed
         wait_reply = messaged.copy()
-- 
2.43.0


From 73ba48ae4faa075d1a2bfc1db1802d10ab60da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:45 +0000
Subject: [PATCH 09/55] fix: recognise exactly the checkpoint names which the
 naming format produces

Names were matched by prefix, so that any file starting like a checkpoint was
taken for one. From the thousandth checkpoint on, the index was read wrongly
and the same name was given out again and again. '?' and '\\' in the format
were not escaped and a repeated count key was an invalid pattern.
---
 glompo/core/checkpointing.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/glompo/core/checkpointing.py b/glompo/core/checkpointing.py
index b34d9b8..f857e10 100644
--- a/glompo/core/checkpointing.py
+++ b/glompo/core/checkpointing.py
@@ -114,16 +114,17 @@ class CheckpointingControl:
 
         format_re = list(copy(self.naming_format))
         for i, char in enumerate(format_re):
-            if any([char == c for c in ('{', '(', '+', '*', '|', '.', '$', ')', '}')]):
+            if any([char == c for c in ('{', '(', '+', '*', '|', '.', '$', ')', '}', '?')]):
                 format_re[i] = f'[{char}]'
-            if any([char == c for c in ('^', '[', ']')]):
+            if any([char == c for c in ('^', '[', ']', '\\')]):
                 format_re[i] = rf'\{char}'
         format_re = "".join(format_re)
         for key, digits in codes.items():
             format_re = format_re.replace(key, f'[0-9]{{{digits}}}')
-        format_re = format_re.replace('%[(]count[)]', '(?P<index>[0-9]{3})')
+        format_re = format_re.replace('%[(]count[)]', '(?P<index>[0-9]{3,})', 1)
+        format_re = format_re.replace('%[(]count[)]', '(?P=index)')
 
-        self._naming_format_re = format_re
+        self._naming_format_re = format_re + r'(?:[.]tar[.]gz)?'
 
     def get_name(self) -> str:
         """ Returns a new name for a checkpoint matching the naming format. """
@@ -144,7 +145,7 @@ class CheckpointingControl:
 
         if self.checkpointing_dir.exists():
             max_index = -1
-            matches = [re.match(self._naming_format_re, folder.name) for folder in self.checkpointing_dir.iterdir()]
+            matches = [re.fullmatch(self._naming_format_re, folder.name) for folder in self.checkpointing_dir.iterdir()]
             for match in matches:
                 if match and match.lastgroup == 'index':
                     i = int(match.group('index'))
@@ -160,4 +161,4 @@ class CheckpointingControl:
 
     def matches_naming_format(self, name: str) -> bool:
         """ Returns :obj:`True` if the provided name matches the pattern in the :attr:`naming_format`. """
-        return bool(re.match(self._naming_format_re, name))
+        return bool(re.fullmatch(self._naming_format_re, name))
-- 
2.43.0


From 6b60ebe8e0db8b8977330dd4af18fb5b923c375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 10/55] fix: tolerate optimizers which have been cleared from
 the log

The log of an optimizer is cleared as soon as its last result is processed but
its closing message and status are often only received later. This crashed the
manager (or the clean up at the end of the run). FileLogger.get_history always
failed for cleared optimizers. Cleared optimizers were also no longer counted
in n_optimizers, although it is used to iterate over all their IDs.
---
 glompo/core/optimizerlogger.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 7040bec..400e596 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -36,7 +36,7 @@ class BaseLogger:
     @property
     def n_optimizers(self) -> int:
         """ Returns the number of optimizers in the log. """
-        return len(self._storage)
+        return len(self._best_iters) - 1  # Entry 0 is a placeholder
 
     @property
     def largest_eval(self) -> float:
@@ -108,18 +108,22 @@ class BaseLogger:
 
         to_del = [opt_id] if opt_id else [*self._storage.keys()]
         for key in to_del:
-            del self._storage[key]
+            self._storage.pop(key, None)
 
     def put_metadata(self, opt_id: int, key: str, value: Any):
-        """ Adds optimizer metadata to storage. """
-        self._storage[opt_id]['metadata'][key] = value
+        """ Adds optimizer metadata to storage. Ignored if the optimizer has already been cleared from memory. """
+        if opt_id in self._storage:
+            self._storage[opt_id]['metadata'][key] = value
 
     def put_manager_metadata(self, key: str, value: Any):
         pass
 
     def put_message(self, opt_id: int, message: str):
-        """ Stores message signals sent from optimizers to the manager. """
-        self._storage[opt_id]['messages'].append(message)
+        """ Stores message signals sent from optimizers to the manager. Ignored if the optimizer has already been cleared
+            from memory.
+        """
+        if opt_id in self._storage:
+            self._storage[opt_id]['messages'].append(message)
 
     def put_iteration(self, iter_res: IterationResult):
         """ Records function evaluations in memory. """
@@ -418,10 +422,7 @@ class FileLogger(BaseLogger):
             self.flush(iter_res.opt_id)
 
     def put_metadata(self, opt_id: int, key: str, value: Any):
-        try:
-            super().put_metadata(opt_id, key, value)
-        except KeyError:
-            pass
+        super().put_metadata(opt_id, key, value)
         self._get_group(opt_id)._v_attrs[key] = value
 
     def put_manager_metadata(self, key: str, value: Any):
@@ -475,7 +476,7 @@ class FileLogger(BaseLogger):
         opt_ids = [opt_id] if opt_id else self._writing_chunk.keys()
 
         for o in opt_ids:
-            if len(self._writing_chunk[o]) > 0:
+            if self._writing_chunk.get(o):
                 self.put_metadata(o, 'best_iter', self._best_iters[o])
                 table = self._get_table(o)
                 table.append(self._writing_chunk[o])
-- 
2.43.0


From 9ff2d889c6c39b4e1f52232df2424e8ee6500838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 11/55] fix: fall back to task.checkpoint_save whatever error
 pickling the task raises

Pickling failures often surface as TypeError, AttributeError, RecursionError or
whatever __getstate__ raises, and these aborted the whole checkpoint.
---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index a1367c3..0e2cfa7 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1998,7 +1998,7 @@ class GloMPOManager:
                     dill.dump(self.task, file)
                 self.logger.info("Task successfully pickled")
                 task_persisted = True
-            except PickleError as pckl_err:
+            except Exception as pckl_err:  # Many things which are not PickleErrors can come out of an arbitrary task
                 self.logger.info("Pickle task failed. Attempting task.checkpoint_save()", exc_info=pckl_err)
                 (path / 'task').unlink()
 
-- 
2.43.0


From 41fc3d2eab7b0241379a9456628300d67f4e1e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 12/55] fix: stop spawning at the last threshold of
 ChainSelector

The documented nth threshold raised IndexError instead of ending spawning, and
when several thresholds had passed since the last selection an optimizer which
should no longer be started was returned.
---
 glompo/opt_selectors/chain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/glompo/opt_selectors/chain.py b/glompo/opt_selectors/chain.py
index 429f94a..d9b306e 100644
--- a/glompo/opt_selectors/chain.py
+++ b/glompo/opt_selectors/chain.py
@@ -56,9 +56,12 @@ class ChainSelector(BaseSelector):
         if not self.allow_spawn(manager):
             return False
 
-        if self.toggle < len(self.fcall_thresholds) and manager.f_counter >= self.fcall_thresholds[self.toggle]:
+        while self.toggle < len(self.fcall_thresholds) and manager.f_counter >= self.fcall_thresholds[self.toggle]:
             self.toggle += 1
 
+        if self.toggle >= len(self.avail_opts):
+            return False
+
         selected = self.avail_opts[self.toggle]
         if selected[1]['workers'] > slots_available:
             return None
-- 
2.43.0


From a589bea303186de9536aebe1c9e7363f6e6ca9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 13/55] fix: leave the optimizer configuration supplied by the
 user unchanged

The 'backend' setting was deleted from the shared configuration, hence only the
first optimizer of a kind received it, and 'workers' was added to the
dictionary of the user.
---
 glompo/core/manager.py               | 2 ++
 glompo/opt_selectors/baseselector.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 0e2cfa7..001582f 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1339,6 +1339,8 @@ class GloMPOManager:
             # any strange race conditions and multithreading artifacts.
             init_kwargs = copy.deepcopy(init_kwargs)
             call_kwargs = copy.deepcopy(call_kwargs)
+        else:
+            init_kwargs = {**init_kwargs}
         self.o_counter += 1
 
         self.logger.info("Setting up optimizer %d of type %s", self.o_counter, selected.__name__)
diff --git a/glompo/opt_selectors/baseselector.py b/glompo/opt_selectors/baseselector.py
index 062f5a1..dafaa5e 100644
--- a/glompo/opt_selectors/baseselector.py
+++ b/glompo/opt_selectors/baseselector.py
@@ -83,7 +83,7 @@ class BaseSelector(ABC):
                     assert isinstance(call_dict, dict)
 
                     if 'workers' not in init_dict:
-                        init_dict['workers'] = 1
+                        init_dict = {**init_dict, 'workers': 1}
 
                     self.avail_opts.append((opt, init_dict, call_dict))
 
-- 
2.43.0


From 93c768a5e45d2d6de2ffa7a3ed4532fff5b10337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 14/55] fix: share an incumbent with fx = 0 only once

Once the best function value was exactly zero it was sent again to every
optimizer after each evaluation.
---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 001582f..2dc535e 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1658,7 +1658,7 @@ class GloMPOManager:
 
         best_iter = self.opt_log.get_best_iter()
 
-        if self.incumbent_sharing and (not self.result.fx or best_iter['fx'] < self.result.fx):
+        if self.incumbent_sharing and (self.result.fx is None or best_iter['fx'] < self.result.fx):
             for opt_id, pack in self._optimizer_packs.items():
                 if opt_id != best_iter['opt_id'] and pack.process.is_alive():
                     self._send_signal(opt_id, (4, best_iter['x'], best_iter['fx']))
-- 
2.43.0


From 94376fd5c9c77799ad48cac05be7dad6d8998568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 15/55] fix: generate valid starting points in every state of
 the optimization

ExploitExploreGenerator failed as soon as one optimizer had no finite result
yet. IncumbentGenerator returned an empty vector if no finite evaluation
exists. BasinHoppingGenerator failed if points are lists and could leave the
bounds.
---
 glompo/generators/basinhopping.py    |  5 +++--
 glompo/generators/best.py            |  2 +-
 glompo/generators/exploit_explore.py | 11 +++++++----
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/glompo/generators/basinhopping.py b/glompo/generators/basinhopping.py
index 7132be5..366f689 100644
--- a/glompo/generators/basinhopping.py
+++ b/glompo/generators/basinhopping.py
@@ -117,7 +117,8 @@ class BasinHoppingGenerator(BaseGenerator):
                 self.logger.debug("Accept rate too low, step size decreasing %f -> %f.", old_step, self.step_size)
 
         # Random perturbation of the best vector based on the step size
-        x = best['x'].copy()
+        x = np.array(best['x'], dtype=float)
         x += np.random.uniform(-self.step_size, self.step_size, x.size)
 
-        return x
+        bnds = np.array(manager.bounds).T
+        return np.clip(x, bnds[0], bnds[1])
diff --git a/glompo/generators/best.py b/glompo/generators/best.py
index 6a1ae0c..1378b74 100644
--- a/glompo/generators/best.py
+++ b/glompo/generators/best.py
@@ -23,7 +23,7 @@ class IncumbentGenerator(BaseGenerator):
 
     def generate(self, manager: 'GloMPOManager') -> np.ndarray:
         best: Result = manager.result
-        if best.x is None:
+        if best.x is None or len(best.x) == 0:
             return (self.bounds[:, 1] - self.bounds[:, 0]) * np.random.random(self.n_params) + self.bounds[:, 0]
 
         return best.x
diff --git a/glompo/generators/exploit_explore.py b/glompo/generators/exploit_explore.py
index d1c1284..b89774e 100644
--- a/glompo/generators/exploit_explore.py
+++ b/glompo/generators/exploit_explore.py
@@ -58,7 +58,10 @@ class ExploitExploreGenerator(BaseGenerator):
         random = (self.bounds[:, 1] - self.bounds[:, 0]) * np.random.random(self.n_params) + self.bounds[:, 0]
         self.logger.debug("Random = %s", random)
 
-        f_track = np.array([best['fx'] for best in manager.opt_log._best_iters.values()])[1:]
+        # Only consider optimizers which have found something
+        best_iters = [best for opt_id, best in manager.opt_log._best_iters.items()
+                      if opt_id > 0 and np.isfinite(best['fx'])]
+        f_track = np.array([best['fx'] for best in best_iters])
 
         if len(f_track) == 0:
             return random
@@ -71,8 +74,8 @@ class ExploitExploreGenerator(BaseGenerator):
         prob = revert / np.sum(revert)
 
         select = np.random.choice(range(len(f_track)), p=prob)
-        incumbent = np.array(manager.opt_log.get_best_iter(select + 1)['x'])
-        self.logger.debug("Selected incumbent from Optimizer %d = %s", select, incumbent)
+        incumbent = np.array(best_iters[select]['x'])
+        self.logger.debug("Selected incumbent from Optimizer %d = %s", best_iters[select]['opt_id'], incumbent)
 
         # Blending parameter
         f_calls = np.clip(manager.f_counter / self.max_func_calls, 0, 1)
@@ -81,6 +84,6 @@ class ExploitExploreGenerator(BaseGenerator):
 
         # New point
         generated = alpha * incumbent + (1 - alpha) * random
-        self.logger.debug("Generated = %f", generated)
+        self.logger.debug("Generated = %s", generated)
 
         return generated
-- 
2.43.0


From 3fb9993714ae178f4826533362b0ec8fee5d93cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 16/55] fix: use the fallbacks for the task when it cannot be
 loaded

load_checkpoint raised immediately when the pickled task could not be loaded
or the task_loader failed, although another source for it was supplied.
---
 glompo/core/manager.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 2dc535e..27b644a 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -727,9 +727,10 @@ class GloMPOManager:
                     try:
                         self.task = dill.load(file)
                         self.logger.info("Task successfully unpickled")
-                    except PickleError as e:
-                        self.logger.error("Unpickling task failed.")
-                        raise e
+                    except Exception as e:
+                        self.logger.error("Unpickling task failed.", exc_info=e)
+                        if not task_loader and not task:
+                            raise e
             else:
                 self.logger.warning('No task detected in checkpoint, task or task_loader required.')
 
@@ -739,8 +740,10 @@ class GloMPOManager:
                     assert callable(self.task)
                     self.logger.info("Task successfully loaded.")
                 except Exception as e:
-                    self.logger.error("Use of task_loader failed.")
-                    raise e
+                    self.task = None
+                    self.logger.error("Use of task_loader failed.", exc_info=e)
+                    if not task:
+                        raise e
 
             if not self.task and task:
                 try:
-- 
2.43.0


From 0d22f2d72ac2219e5f113c9d1ead7008bc5a2198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:59 +0000
Subject: [PATCH 17/55] fix: roll the log file back to the checkpoint whatever
 state it was left in

The rollback relied on the f_counter attribute of the log file, which is only
written when the log is closed: a resume failed with an AttributeError if the
previous session had been killed, or rolled back too little if a second session
had been killed. It was skipped altogether if optimizers had been started but
nothing had been evaluated since the checkpoint, removed groups from the
collection it was iterating over, and left empty tables behind which made the
logger believe it already had a history in memory. Judge by the contents of the
file instead.
---
 glompo/core/manager.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 27b644a..2cd63bf 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -938,8 +938,11 @@ class GloMPOManager:
                                    f"{peek.root._v_attrs.checksum}) which is for an optimization which does not match "
                                    f"this one (Checksum: {self._checksum})! Aborting optimization.")
 
-                # Overwrite excess iterations
-                file_f_count = peek.root._v_attrs.f_counter
+                # Overwrite excess iterations. The counters saved in the file itself are not relied upon since they
+                # are only written when the log is closed in an orderly fashion.
+                tables = list(peek.walk_nodes('/', 'Table'))
+                groups = list(peek.iter_nodes('/', 'Group'))
+                file_f_count = max([int(tab[-1]['call_id']) for tab in tables if tab.nrows > 0], default=0)
                 if file_f_count > self.f_counter:
                     self.logger.warning("The log file (%d evaluations) has iterated past the checkpoint "
                                         "(%d evaluations). Rolling back the log file to the checkpoint.",
@@ -947,15 +950,18 @@ class GloMPOManager:
                     warnings.warn(f"The log file ({file_f_count} evaluations) has iterated past "
                                   f"the checkpoint ({self.f_counter} evaluations). Rolling back the log file to "
                                   f"the checkpoint.")
-                    for tab in peek.walk_nodes('/', 'Table'):
-                        tab: tb.Table
-                        call_ids = tab.col('call_id')
-                        crit_i = np.searchsorted(call_ids, self.f_counter, 'right')
+
+                for tab in tables:
+                    tab: tb.Table
+                    crit_i = int(np.searchsorted(tab.col('call_id'), self.f_counter, 'right'))
+                    if crit_i == 0:
+                        tab.remove()  # Recreated with the first iteration of the optimizer
+                    elif crit_i < tab.nrows:
                         tab.remove_rows(crit_i)
 
-                    for group in peek.iter_nodes('/', 'Group'):
-                        if int(group._v_name.split('_')[1]) > self.o_counter:
-                            peek.remove_node('/', group._v_name, recursive=True)
+                for group in groups:
+                    if int(group._v_name.split('_')[1]) > self.o_counter:
+                        peek.remove_node('/', group._v_name, recursive=True)
             mode = 'a'
 
         self._checksum = ''.join([random.choice(string.ascii_letters + string.digits) for _ in range(20)])
-- 
2.43.0


From 82dd5b6b0566636985f7ad0c5a8f7529d864987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:59 +0000
Subject: [PATCH 18/55] fix: continue in a new log file if the one of the
 checkpoint is not there

As documented, a run resumed without its log file begins a new one, but a
FileLogger restored from a checkpoint and opened in a new file had no _tables
and no groups for the optimizers which continue, so that the run crashed. The
histories restored from the checkpoint are also kept in memory now, as they are
when the file exists.
---
 glompo/core/optimizerlogger.py | 65 ++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 400e596..e13216d 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -360,25 +360,18 @@ class FileLogger(BaseLogger):
         return self._o_counter
 
     def len(self, opt_id: int) -> int:
-        try:
-            return super().len(opt_id)
-        except KeyError:
-            if self.has_iter_history(opt_id):
-                return self._tables[opt_id].nrows
-            return 0
+        if super().has_iter_history(opt_id):
+            return len(self._storage[opt_id]['fx'])
+        if self.has_iter_history(opt_id):
+            self.flush(opt_id)
+            return self._tables[opt_id].nrows
+        return 0
 
     def add_optimizer(self, opt_id: int, opt_type: str, t_start: datetime.datetime):
         """ Creates an HDF5 file and memory log for a new optimizer. """
         super().add_optimizer(opt_id, opt_type, t_start)
-        group = self.pytab_file.create_group(where='/',
-                                             name=f'optimizer_{opt_id}')
-        self.pytab_file.create_vlarray(where=f'/optimizer_{opt_id}',
-                                       name='messages',
-                                       atom=tb.VLUnicodeAtom(),
-                                       title="Messages Generated by Optimizer",
-                                       expectedrows=3)
+        group = self._create_group(opt_id)
         self._writing_chunk[opt_id] = []
-        self._groups[opt_id] = group
 
         for key, val in zip(('opt_id', 'opt_type', 't_start'),
                             (opt_id, opt_type, t_start)):
@@ -388,7 +381,8 @@ class FileLogger(BaseLogger):
 
     def add_iter_history(self, opt_id: int, extra_headers: Optional[Dict[str, tb.Col]] = None):
         """ Creates an iteration history table in the HDF5 file. """
-        super().add_iter_history(opt_id, {})  # Do not hold extras in memory if file in use.
+        if not super().has_iter_history(opt_id):  # May have been restored from a checkpoint
+            super().add_iter_history(opt_id, {})  # Do not hold extras in memory if file in use.
         headers = {'call_id': tb.UInt32Col(pos=-3),
                    'x': tb.Float64Col(shape=self.n_task_dims, pos=-2),
                    'fx': tb.Float64Col(pos=-1)}
@@ -447,15 +441,26 @@ class FileLogger(BaseLogger):
             return self._get_group(opt_id)._v_attrs[key]
 
     def get_history(self, opt_id: int, track: str) -> List:
-        try:
-            return super().get_history(opt_id, track)
-        except KeyError:
-            if self.has_iter_history(opt_id):
-                self.flush(opt_id)
-                table = self._get_table(opt_id)
-                return table.col(track)
+        if super().has_iter_history(opt_id) and track in self._storage[opt_id]:
+            return self._storage[opt_id][track]
+        if self.has_iter_history(opt_id):
+            self.flush(opt_id)
+            table = self._get_table(opt_id)
+            return table.col(track)
 
-            return []
+        return []
+
+    def _create_group(self, opt_id: int) -> tb.Group:
+        """ Creates the :class:`tables.Group` object of optimizer `opt_id`. """
+        group = self.pytab_file.create_group(where='/',
+                                             name=f'optimizer_{opt_id}')
+        self.pytab_file.create_vlarray(where=f'/optimizer_{opt_id}',
+                                       name='messages',
+                                       atom=tb.VLUnicodeAtom(),
+                                       title="Messages Generated by Optimizer",
+                                       expectedrows=3)
+        self._groups[opt_id] = group
+        return group
 
     def _get_group(self, opt_id: int) -> tb.Group:
         """ Returns the the :class:`tables.Group` object for optimizer `opt_id`. """
@@ -512,10 +517,16 @@ class FileLogger(BaseLogger):
         """
         self.pytab_file = tb.open_file(str(path), mode, filters=tb.Filters(1, 'blosc'))
         self.pytab_file.root._v_attrs.checksum = checksum
-        if mode == 'a':
-            self._groups = {int(g._v_name.split('_')[1]): g for g in self.pytab_file.iter_nodes('/', 'Group')}
-            self._tables = {int(t._v_pathname.split('/')[1].split('_')[1]): t for t in
-                            self.pytab_file.walk_nodes('/', 'Table')}
+        self._groups = {int(g._v_name.split('_')[1]): g for g in self.pytab_file.iter_nodes('/', 'Group')}
+        self._tables = {int(t._v_pathname.split('/')[1].split('_')[1]): t for t in
+                        self.pytab_file.walk_nodes('/', 'Table')}
+
+        # Optimizers restored from a checkpoint which are not known to the file
+        for opt_id in self._writing_chunk:
+            if opt_id not in self._groups:
+                self._create_group(opt_id)
+                for key, val in self._storage.get(opt_id, {}).get('metadata', {}).items():
+                    self._groups[opt_id]._v_attrs[key] = val
 
     def close(self):
         """ Remove from memory, flush to file and close the file. """
-- 
2.43.0


From 54fbea3612400786dbb6ba36a73f41c1e50ff50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:59 +0000
Subject: [PATCH 19/55] fix: tie checkpoints made at initialisation to the log
 file of the run

The key which matches checkpoints to the log file was only made when the manager
was started. Checkpoints made at initialisation had none and could never be
resumed next to the log of their own run.
---
 glompo/core/manager.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 2cd63bf..07d3d4b 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -617,6 +617,7 @@ class GloMPOManager:
                 self.end_timeout = None
 
         self._is_restart = False
+        self._checksum = self._new_checksum()
 
         if self.checkpoint_control and self.checkpoint_control.checkpoint_at_init:
             self.checkpoint()
@@ -964,7 +965,8 @@ class GloMPOManager:
                         peek.remove_node('/', group._v_name, recursive=True)
             mode = 'a'
 
-        self._checksum = ''.join([random.choice(string.ascii_letters + string.digits) for _ in range(20)])
+        if self._is_restart:
+            self._checksum = self._new_checksum()
         self.opt_log.open(log_file, mode, self._checksum)
 
         if self.visualisation and self.scope.record_movie:
@@ -2061,6 +2063,11 @@ class GloMPOManager:
                              f"    {'Working Dir:':.<26}{Path.cwd()}\n"
                              f"    {'Username:':.<26}{getpass.getuser()}")
 
+    @staticmethod
+    def _new_checksum() -> str:
+        """ Generates a key which ties checkpoints to their log file. """
+        return ''.join([random.choice(string.ascii_letters + string.digits) for _ in range(20)])
+
     def _purge_old_results(self):
         """ Identifies and removes old log files if allowed. """
 
-- 
2.43.0


From 9c3ae327a176479189fe479614dd178da5c30b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:36 +0000
Subject: [PATCH 20/55] fix: roll back metadata and messages in the log file as
 well

After resuming from a checkpoint on a log file which had gone further,
optimizers which were still running at the checkpoint kept the end recorded for
them by the previous session until they ended again, and their messages were
recorded twice.
---
 glompo/core/optimizerlogger.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index e13216d..5e94bd5 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -454,13 +454,17 @@ class FileLogger(BaseLogger):
         """ Creates the :class:`tables.Group` object of optimizer `opt_id`. """
         group = self.pytab_file.create_group(where='/',
                                              name=f'optimizer_{opt_id}')
+        self._create_messages(opt_id)
+        self._groups[opt_id] = group
+        return group
+
+    def _create_messages(self, opt_id: int):
+        """ Creates the :class:`tables.VLArray` of messages of optimizer `opt_id`. """
         self.pytab_file.create_vlarray(where=f'/optimizer_{opt_id}',
                                        name='messages',
                                        atom=tb.VLUnicodeAtom(),
                                        title="Messages Generated by Optimizer",
                                        expectedrows=3)
-        self._groups[opt_id] = group
-        return group
 
     def _get_group(self, opt_id: int) -> tb.Group:
         """ Returns the the :class:`tables.Group` object for optimizer `opt_id`. """
@@ -521,6 +525,22 @@ class FileLogger(BaseLogger):
         self._tables = {int(t._v_pathname.split('/')[1].split('_')[1]): t for t in
                         self.pytab_file.walk_nodes('/', 'Table')}
 
+        # Metadata and messages which are newer than the checkpoint the log was restored from
+        for opt_id, stored in self._storage.items():
+            if opt_id in self._groups:
+                attrs = self._groups[opt_id]._v_attrs
+                for key in attrs._f_list('user'):
+                    if key == 'best_iter':
+                        attrs[key] = self._best_iters[opt_id]
+                    elif key not in stored['metadata']:
+                        del attrs[key]
+                messages = self._groups[opt_id]['messages']
+                if messages.nrows > len(stored['messages']):
+                    messages.remove()
+                    self._create_messages(opt_id)
+                    for message in stored['messages']:
+                        self._groups[opt_id]['messages'].append(message)
+
         # Optimizers restored from a checkpoint which are not known to the file
         for opt_id in self._writing_chunk:
             if opt_id not in self._groups:
-- 
2.43.0


From ba3361f5a9745373339c8f034889a333a6c2c033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:01 +0000
Subject: [PATCH 21/55] fix: never delete files which only resemble a
 checkpoint

With a limit on the number of checkpoints kept, a file whose name is that of a
checkpoint with a further .tar.gz appended was taken for one and deleted.
---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 07d3d4b..4399cd5 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1199,7 +1199,7 @@ class GloMPOManager:
                 self.logger.debug("Finding old checkpoints to delete")
                 past = [file for file in chkpt_dir.iterdir() if
                         file.is_file() and file.name.endswith('.tar.gz') and file != tar_path and
-                        self.checkpoint_control.matches_naming_format(file.name[:-len('.tar.gz')])]
+                        self.checkpoint_control.matches_naming_format(file.name)]
                 past = sorted(past, key=lambda f: (f.stat().st_mtime, f.name), reverse=True)
                 to_delete = past[self.checkpoint_control.keep_past:]
                 self.logger.debug("Identified to delete: %s", to_delete)
-- 
2.43.0


From 8028ae9d6e62793388277010f0104d056333d129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:50 +0000
Subject: [PATCH 22/55] fix: accept share_best_solutions when loading a
 checkpoint

The attribute of the manager has another name, the argument was ignored.
---
 glompo/core/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 4399cd5..9dcd546 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -770,6 +770,8 @@ class GloMPOManager:
                 force_terminations_after = glompo_kwargs['force_terminations_after']
                 self.allow_forced_terminations = force_terminations_after > 0
                 self._too_long = force_terminations_after
+            elif key == 'share_best_solutions':
+                self.incumbent_sharing = val
             elif key == 'visualisation_args':
                 pass
             elif key == 'working_dir':
-- 
2.43.0


From 96c0b2c8be2740c2684759eae9b5c58523d8433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 23/55] fix: BestUnmoving ignores undefined function values

A history which starts with NaN made the minimum NaN, so that the condition never
became true for such an optimizer.
---
 glompo/hunters/bestunmoving.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glompo/hunters/bestunmoving.py b/glompo/hunters/bestunmoving.py
index ffa0b6f..047f26c 100644
--- a/glompo/hunters/bestunmoving.py
+++ b/glompo/hunters/bestunmoving.py
@@ -40,7 +40,8 @@ class BestUnmoving(BaseHunter):
             self.last_result = False
             return self.last_result
 
-        best_at_calls = min(vals[:-self.calls])
-        best_at_end = min(vals)
+        # Undefined values are never the best
+        best_at_calls = min((val for val in vals[:-self.calls] if val == val), default=float('nan'))
+        best_at_end = min((val for val in vals if val == val), default=float('nan'))
         self.last_result = abs(best_at_end - best_at_calls) <= abs(best_at_calls * self.tol)
         return self.last_result
-- 
2.43.0


From c12b644361d64a98983f44a042bce29eb1fdeb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 24/55] fix: ValueAnnealing med_kill_chance is the chance of
 being killed

It was used as the chance of survival, the opposite of its documentation.
---
 glompo/hunters/valueannealing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/hunters/valueannealing.py b/glompo/hunters/valueannealing.py
index 44b0bc1..fd776c2 100644
--- a/glompo/hunters/valueannealing.py
+++ b/glompo/hunters/valueannealing.py
@@ -32,7 +32,7 @@ class ValueAnnealing(BaseHunter):
         super().__init__()
         assert 0 < med_kill_chance < 1, "med_kill_chance must be between 0 and 1"
         self.med_kill_chance = med_kill_chance
-        self.strictness = np.log(med_kill_chance)
+        self.strictness = np.log(1 - med_kill_chance)  # Probability of survival
 
     def __call__(self,
                  log: BaseLogger,
-- 
2.43.0


From c05e7ca80c87c5b22511ec2bf04d3bfd684eafbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 25/55] fix: chunks of the results queue never exceed the chunk
 size

A producer which found the queue full while another one was filling the cache
appended to a cache which had already reached the chunk size.
---
 glompo/core/_backends.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/glompo/core/_backends.py b/glompo/core/_backends.py
index 0aa9cc8..b8f4c84 100644
--- a/glompo/core/_backends.py
+++ b/glompo/core/_backends.py
@@ -160,18 +160,16 @@ class ChunkingQueue(queue.Queue):
         if not self.fast_func:
             try:
                 super().put([item], False)
+                return
             except queue.Full:
-                with self.cache_lock:
-                    self.logger.info("Queue caching activated.")
-                    self.fast_func = True
-                    self.cache.append(item)
+                self.logger.info("Queue caching activated.")
+                self.fast_func = True
 
-        else:
-            with self.cache_lock:
-                self.cache.append(item)
-                if len(self.cache) >= self.chunk_size:
-                    super().put(self.cache)
-                    self.cache = []
+        with self.cache_lock:
+            self.cache.append(item)
+            if len(self.cache) >= self.chunk_size:
+                super().put(self.cache)
+                self.cache = []
 
     def put_incache(self, item):
         """ Item is explicitly placed in the cache rather than the queue.
-- 
2.43.0


From ef339e0cde8d5881d96c7884901b54da8e2a08d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 26/55] fix: extra columns of the log file are in the order of
 their values

Columns given without a position (as in the documentation of headers) were sorted
by name by PyTables while rows are written by position, which swapped values
silently; a heading for fx, also as documented, made writing fail.
---
 glompo/core/optimizerlogger.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 5e94bd5..9b2fc0d 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -1,5 +1,6 @@
 import datetime
 import warnings
+from copy import copy
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Sequence, Union
 
@@ -388,6 +389,11 @@ class FileLogger(BaseLogger):
                    'fx': tb.Float64Col(pos=-1)}
 
         if extra_headers:
+            # Rows are written by position: columns must be in the order of the values and fx is already present
+            extra_headers = {k: copy(col) for k, col in extra_headers.items() if k not in headers}
+            for pos, col in enumerate(extra_headers.values()):
+                if col._v_pos is None:
+                    col._v_pos = pos
             headers = {**headers, **extra_headers}
 
         table = self.pytab_file.create_table(where=f'/optimizer_{opt_id}',
-- 
2.43.0


From 8f4416df0e682457b81703b60ec2929f9f707d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 27/55] fix: overwriting old results deletes only files GloMPO
 makes

Any picture called trajectories*.png or opt*_parms.png was taken for an old result:
such files of the user were deleted, or made the run refuse to start.
---
 glompo/core/manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 9dcd546..c018e55 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -6,6 +6,7 @@ import logging
 import multiprocessing as mp
 import queue
 import random
+import re
 import shutil
 import socket
 import string
@@ -2074,8 +2075,8 @@ class GloMPOManager:
         """ Identifies and removes old log files if allowed. """
 
         to_remove = [*self.working_dir.glob("glompo_manager_log.yml")]
-        to_remove += [*self.working_dir.glob("trajectories*.png")]
-        to_remove += [*self.working_dir.glob("opt*_parms.png")]
+        to_remove += [file for file in self.working_dir.glob("*.png") if
+                      re.fullmatch(r"trajectories(_log)?(_best)?[.]png|opt[0-9]+_parms[.]png", file.name)]
         if not self._is_restart:
             to_remove += [*self.working_dir.glob("glompo_log.h5")]
 
-- 
2.43.0


From cd931d0e890c54361437a6b7fde34c524493917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 28/55] fix: BasinHoppingGenerator respects max_step_size

The step size grew without limit.
---
 glompo/generators/basinhopping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/generators/basinhopping.py b/glompo/generators/basinhopping.py
index 366f689..4905b4d 100644
--- a/glompo/generators/basinhopping.py
+++ b/glompo/generators/basinhopping.py
@@ -110,7 +110,7 @@ class BasinHoppingGenerator(BaseGenerator):
             actual_accept_rate = self.n_accept / manager.o_counter
             self.logger.debug("Accept rate at %f", actual_accept_rate)
             if actual_accept_rate > self.target_accept_rate:
-                self.step_size /= self.factor
+                self.step_size = min(self.step_size / self.factor, self.max_step_size)
                 self.logger.debug("Accept rate too high, step size increasing %f -> %f.", old_step, self.step_size)
             elif actual_accept_rate < self.target_accept_rate:
                 self.step_size *= self.factor
-- 
2.43.0


From 3656dda7e2dbd6927303c338df5240343792e4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 29/55] fix: generators hand out copies of their points

An optimizer (in a thread) which works in place on its starting point changed the
point of SinglePointGenerator for all later optimizers, and with
IncumbentGenerator the result held by the manager.
---
 glompo/generators/best.py   | 3 ++-
 glompo/generators/single.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/glompo/generators/best.py b/glompo/generators/best.py
index 1378b74..95a0bc2 100644
--- a/glompo/generators/best.py
+++ b/glompo/generators/best.py
@@ -1,3 +1,4 @@
+from copy import copy
 from typing import Sequence, Tuple
 
 import numpy as np
@@ -26,4 +27,4 @@ class IncumbentGenerator(BaseGenerator):
         if best.x is None or len(best.x) == 0:
             return (self.bounds[:, 1] - self.bounds[:, 0]) * np.random.random(self.n_params) + self.bounds[:, 0]
 
-        return best.x
+        return copy(best.x)  # Optimizers may work in place on their starting point
diff --git a/glompo/generators/single.py b/glompo/generators/single.py
index 9bb9c32..1cfd297 100644
--- a/glompo/generators/single.py
+++ b/glompo/generators/single.py
@@ -1,3 +1,4 @@
+from copy import copy
 from typing import Optional, Sequence, Tuple
 
 import numpy as np
@@ -25,4 +26,4 @@ class SinglePointGenerator(BaseGenerator):
             self.vector = (self.bounds[:, 1] - self.bounds[:, 0]) * np.random.random(self.n_params) + self.bounds[:, 0]
 
     def generate(self, manager: 'GloMPOManager') -> np.ndarray:
-        return self.vector
+        return copy(self.vector)  # Optimizers may work in place on their starting point
-- 
2.43.0


From 365add4413eb788831f48d07d0a6ddca0d3f80c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 30/55] fix: results of slow functions were held back in the
 cache of the results queue

Once caching had started, results only reached the manager in groups of ten,
so that optimizers with slow functions appeared to be hanging.
---
 glompo/core/_backends.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/glompo/core/_backends.py b/glompo/core/_backends.py
index b8f4c84..07f3a3b 100644
--- a/glompo/core/_backends.py
+++ b/glompo/core/_backends.py
@@ -171,6 +171,25 @@ class ChunkingQueue(queue.Queue):
                 super().put(self.cache)
                 self.cache = []
 
+    def get(self, block=True, timeout=None):
+        """ A get is attempted according to `block` and `timeout`. If nothing arrives in the queue before `timeout`
+        expires, then any items held in the cache are returned. This ensures that the results of slow functions are not
+        held back until the cache is full.
+        """
+        try:
+            return super().get(block, timeout)
+        except queue.Empty:
+            if block and self.cache_lock.acquire(False):
+                try:
+                    # Items which made it into the queue in the meantime precede those in the cache
+                    if not self.empty() or not self.cache:
+                        return super().get(False)
+                    chunk, self.cache = self.cache, []
+                    return chunk
+                finally:
+                    self.cache_lock.release()
+            raise
+
     def put_incache(self, item):
         """ Item is explicitly placed in the cache rather than the queue.
         If the cache is not yet in use it is opened.
-- 
2.43.0


From b7ea196688fab77b7d217ecd01ce4ad47659adbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 31/55] fix: summary file failed on equal bounds of different
 numeric type

---
 glompo/common/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/common/helpers.py b/glompo/common/helpers.py
index ef5a853..68ee754 100644
--- a/glompo/common/helpers.py
+++ b/glompo/common/helpers.py
@@ -488,9 +488,9 @@ def numpy_array_presenter(dumper, numpy_arr):
 
 def bound_group_presenter(dumper, bound_group):
     """ Unique YAML constructor for :class:`.Bound`. """
-    grouped = {f"({bound.min}, {bound.max})": FlowList([]) for bound in set(bound_group)}
+    grouped = {}
     for i, bound in enumerate(bound_group):
-        grouped[f"({bound.min}, {bound.max})"].append(i)
+        grouped.setdefault(f"({bound.min}, {bound.max})", FlowList([])).append(i)
 
     return dumper.represent_mapping('tag:yaml.org,2002:map', grouped)
 
-- 
2.43.0


From 7db515e141e0074b19dfb981be696a208019ffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 32/55] fix: checkpoint of RandomOptimizer lost the result of
 the evaluation just made

---
 glompo/optimizers/random.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/glompo/optimizers/random.py b/glompo/optimizers/random.py
index 3ca06f7..dd9dc04 100644
--- a/glompo/optimizers/random.py
+++ b/glompo/optimizers/random.py
@@ -60,6 +60,12 @@ class RandomOptimizer(BaseOptimizer):
             fx = function(vector)
             self.logger.debug("Function returned fx = %f", fx)
 
+            if fx < best_f:
+                best_f = fx
+                best_x = vector
+                self.logger.debug("Updating best")
+                self.result.x, self.result.fx = best_x, best_f
+
             if callbacks and callbacks():
                 self.stop_called = True
 
@@ -68,12 +74,6 @@ class RandomOptimizer(BaseOptimizer):
                 self.check_messages()
                 self._pause_signal.wait()
 
-            if fx < best_f:
-                best_f = fx
-                best_x = vector
-                self.logger.debug("Updating best")
-                self.result.x, self.result.fx = best_x, best_f
-
         self.result.success = True
         self.logger.debug("Termination successful")
         if self._results_queue:
-- 
2.43.0


From bacae0e0a524285602cba02518208113496f152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 33/55] fix: CMA with several workers kept evaluating during a
 checkpoint, which missed the iteration in progress; solutions shared during
 the first iteration were lost

---
 glompo/optimizers/cmawrapper.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index 6d08d97..50465f3 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -58,6 +58,8 @@ class CMAOptimizer(BaseOptimizer):
        :code:`4 + int(3 * log(d))`.
     """
 
+    _submitted = None  # Points and evaluations of the iteration in progress
+
     def __init__(self,
                  _opt_id: Optional[int] = None,
                  _signal_pipe: Optional[Connection] = None,
@@ -157,6 +159,7 @@ class CMAOptimizer(BaseOptimizer):
             self.logger.info("Setting up fresh CMA")
 
             self.result = MinimizeResult()
+            self.incumbent = {'x': x0, 'fx': None}
             task_settings.update({'bounds': np.transpose(bounds).tolist()})
             self.es = cma.CMAEvolutionStrategy(x0, sigma0, task_settings)
             self.es.inject([x0], force=True)
@@ -177,12 +180,9 @@ class CMAOptimizer(BaseOptimizer):
                 self.logger.debug("Unfinished evaluation detected. Breaking out of loop")
                 break
 
-            if i == 1:
-                self.incumbent = {'x': x0, 'fx': fx[0]}
-
-            self.es.tell(x, fx)
+            if self._submitted is not None:
+                self._tell(x, fx)
             self.logger.debug("Told solutions")
-            self.result.x, self.result.fx = self.es.result[:2]
             if self.result.fx == float('inf'):
                 self.logger.warning("CMA iteration found no valid results."
                                     "fx = 'inf' and x = (first vector generated by es.ask())")
@@ -237,6 +237,23 @@ class CMAOptimizer(BaseOptimizer):
 
         return self.result
 
+    def _tell(self, x: Sequence[Sequence[float]], fx: Sequence[float]):
+        """ Passes the evaluations of a complete iteration to the solver. """
+        self._submitted = None
+        if self.incumbent['fx'] is None:  # Unless a solution was injected during the first iteration
+            self.incumbent['fx'] = fx[0]
+        self.es.tell(x, fx)
+        self.result.x, self.result.fx = self.es.result[:2]
+
+    def _prepare_checkpoint(self):
+        """ Completes the iteration in progress (if any) to ensure that no evaluations are made during the checkpoint and
+        that all those which have been made are included in it.
+        """
+        if self._submitted:
+            x, futures = zip(*self._submitted)
+            self._tell(x, [future.result() for future in futures])
+        super()._prepare_checkpoint()
+
     def _parallel_map(self, function: Callable[[Sequence[float]], float],
                       x: Sequence[Sequence[float]]) -> Sequence[float]:
         """ Returns the function evaluations for a given set of trial parameters, x.
@@ -247,6 +264,7 @@ class CMAOptimizer(BaseOptimizer):
             self.logger.debug("Executing within %s with %d workers", pool_executor.__name__, self.workers)
             with pool_executor(max_workers=self.workers) as executor:
                 submitted = {slot: executor.submit(function, parms) for slot, parms in enumerate(x)}
+                self._submitted = [*zip(x, submitted.values())]
                 # For very slow evaluations this will allow evaluations to be interrupted.
                 if self._results_queue:
                     loop = 0
@@ -264,6 +282,7 @@ class CMAOptimizer(BaseOptimizer):
                 fx = [future.result() for future in submitted.values() if not future.cancelled()]
         else:
             self.logger.debug("Executing serially")
+            self._submitted = []
             fx = [function(i) for i in x]
         return fx
 
-- 
2.43.0


From 9f9b1c31f0bec74f9c2904708dd0a8c5855eec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 34/55] fix: report the working directory of the manager, not
 the current one

---
 glompo/core/manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index c018e55..a23d440 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1791,7 +1791,7 @@ class GloMPOManager:
                 "Assignment": {
                     "GloMPO Version": __version__,
                     "Task": type(self.task).__name__ if isinstance(type(self.task), object) else self.task.__name__,
-                    "Working Dir": str(Path.cwd()),
+                    "Working Dir": str(self.working_dir),
                     "Username": getpass.getuser(),
                     "Hostname": socket.gethostname(),
                     "Time": {"Optimization Periods": t_periods,
@@ -2063,7 +2063,7 @@ class GloMPOManager:
                              f"    {'Core IDs:':.<26}{cores}\n"
                              f"    {'Memory Available:':.<26}{present_memory(psutil.virtual_memory().total)}\n"
                              f"    {'Hostname:':.<26}{socket.gethostname()}\n"
-                             f"    {'Working Dir:':.<26}{Path.cwd()}\n"
+                             f"    {'Working Dir:':.<26}{self.working_dir}\n"
                              f"    {'Username:':.<26}{getpass.getuser()}")
 
     @staticmethod
-- 
2.43.0


From 2491bce270d0bc807bf0f1d11f284910889c77be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 35/55] fix: report the name of a task which is a plain
 function

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index a23d440..c1cefa7 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1790,7 +1790,7 @@ class GloMPOManager:
             data = {
                 "Assignment": {
                     "GloMPO Version": __version__,
-                    "Task": type(self.task).__name__ if isinstance(type(self.task), object) else self.task.__name__,
+                    "Task": getattr(self.task, '__name__', type(self.task).__name__),
                     "Working Dir": str(self.working_dir),
                     "Username": getpass.getuser(),
                     "Hostname": socket.gethostname(),
-- 
2.43.0


From 8efeee57e13853cd5b65aa41f1dd024dc7989aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 36/55] fix: place unconfigured manual checkpoints in the
 working directory

---
 glompo/core/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index c1cefa7..71de8ce 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1638,7 +1638,8 @@ class GloMPOManager:
             if not has_controls:
                 self.logger.warning("Manual checkpoint requested but checkpointing control not setup during "
                                     "initialisation, constructing with defaults.")
-                self.checkpoint_control = CheckpointingControl()
+                self.checkpoint_control = \
+                    CheckpointingControl(checkpointing_dir=self.working_dir / 'checkpoints')
 
             self.logger.info("Manual checkpoint requested")
             self.checkpoint()
-- 
2.43.0


From 1ad0337677cb7c99d52213389dd63ce1cd93acf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 37/55] fix: report exhaustion as the exit reason when the
 checker cannot be evaluated before the start

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 71de8ce..a43c1f6 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -922,7 +922,7 @@ class GloMPOManager:
                 warnings.warn("Convergence conditions met before optimizer start. Aborting start.", RuntimeWarning)
                 return self.result
         except Exception:
-            reason = "None"
+            reason = "No optimizers alive, spawning stopped."
             self.converged = False
 
         # Make working dir & open log file
-- 
2.43.0


From 329057d79285086864dcacd27052dae5755c477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 38/55] fix: replace the best result before sharing it, and
 share nothing but improvements

---
 glompo/core/manager.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index a43c1f6..3e0014b 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1673,11 +1673,6 @@ class GloMPOManager:
 
         best_iter = self.opt_log.get_best_iter()
 
-        if self.incumbent_sharing and (self.result.fx is None or best_iter['fx'] < self.result.fx):
-            for opt_id, pack in self._optimizer_packs.items():
-                if opt_id != best_iter['opt_id'] and pack.process.is_alive():
-                    self._send_signal(opt_id, (4, best_iter['x'], best_iter['fx']))
-
         best_origin = {"opt_id": best_iter['opt_id'],
                        "type": best_iter['type']}
 
@@ -1687,7 +1682,16 @@ class GloMPOManager:
                       'opts_conv': self.conv_counter,
                       'end_cond': None}
 
-        return Result(list(best_iter['x']), best_iter['fx'], best_stats, best_origin)
+        # The result is replaced before it is shared, so that it is not lost if sharing it is interrupted
+        old_fx = float('inf') if self.result.fx is None else self.result.fx
+        self.result = Result(list(best_iter['x']), best_iter['fx'], best_stats, best_origin)
+
+        if self.incumbent_sharing and best_iter['fx'] < old_fx:
+            for opt_id, pack in self._optimizer_packs.items():
+                if opt_id != best_iter['opt_id'] and pack.process.is_alive():
+                    self._send_signal(opt_id, (4, best_iter['x'], best_iter['fx']))
+
+        return self.result
 
     def _stop_all_children(self, crash_reason: Optional[str] = None):
         """ Shuts down and cleans-up all active children """
-- 
2.43.0


From 9508b1728345b2b1ca6ccaf7b7dbc0e669ff90b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 39/55] fix: return the result and close the log if the summary
 cannot be saved

---
 glompo/core/manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 3e0014b..87039b6 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1102,7 +1102,11 @@ class GloMPOManager:
                 self.scope.close_fig()
 
             self.logger.debug("Saving summary file results")
-            self._save_log(self.result, reason, caught_exception, self.working_dir, self.summary_files)
+            try:
+                self._save_log(self.result, reason, caught_exception, self.working_dir, self.summary_files)
+            except Exception as e:
+                self.logger.error("Unable to save the summary files", exc_info=e)
+                warnings.warn(f"Unable to save the summary files: {e}", RuntimeWarning)
 
             self.result = Result(list(self.result.x) if self.result.x else None,
                                  self.result.fx,
-- 
2.43.0


From 252450dd59197c62d6577c41df6d31852ea030a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 40/55] fix: the elitist scope keeps an optimizer's best value
 across NaNs and truncation

---
 glompo/core/scope.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/glompo/core/scope.py b/glompo/core/scope.py
index 8d0b4a6..e2c7cdf 100644
--- a/glompo/core/scope.py
+++ b/glompo/core/scope.py
@@ -119,6 +119,7 @@ class GloMPOScope:
 
         self.logger = logging.getLogger('glompo.scope')
         self._dead_streams: Set[int] = set()
+        self._best_vals: Dict[int, float] = {}
         self.n_streams = 0
         self.x_max = 0
         self.log_scale = log_scale
@@ -325,11 +326,10 @@ class GloMPOScope:
         """ Given `pt` is used to update the `opt_id` optimizer plot."""
         x, y = pt
         if self.elitism:
-            y_vals = self.opt_streams[opt_id].get_ydata()
-            if len(y_vals) > 0:
-                last = 10 ** y_vals[-1] if self.log_scale else y_vals[-1]
-                if last < y:
-                    y = last
+            best = self._best_vals.get(opt_id, y)
+            if best < y or np.isnan(y):
+                y = best
+            self._best_vals[opt_id] = y
 
         self._update_point(opt_id, 'all_opt', (x, y))
         self._redraw_graph()
-- 
2.43.0


From 85e901fa39a8a2a7c8082b4eb54c1162ada36a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 41/55] fix: do not swallow a user interrupt which arrives
 while the scope is drawing

---
 glompo/core/scope.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/glompo/core/scope.py b/glompo/core/scope.py
index e2c7cdf..c97b6e1 100644
--- a/glompo/core/scope.py
+++ b/glompo/core/scope.py
@@ -10,7 +10,7 @@ import matplotlib.pyplot as plt
 import numpy as np
 
 from ..common.helpers import glompo_colors
-from ..common.wrappers import catch_user_interrupt, decorate_all_methods, needs_optional_package
+from ..common.wrappers import needs_optional_package
 
 try:
     import dill
@@ -30,7 +30,6 @@ class MyFFMpegWriter(ani.FFMpegWriter):
         self._frame_sink().close()
 
 
-@decorate_all_methods(catch_user_interrupt)
 class GloMPOScope:
     """ Constructs and records the dynamic plotting of optimizers run in parallel.
 
-- 
2.43.0


From c845196500a17bbc15cfb718a5c1ad2bdb6bff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 42/55] fix: ParAMS pickles are not overruled by the YAML files
 beside them

---
 glompo/interfaces/params.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/glompo/interfaces/params.py b/glompo/interfaces/params.py
index 82e4c6d..72bbbb3 100644
--- a/glompo/interfaces/params.py
+++ b/glompo/interfaces/params.py
@@ -880,6 +880,7 @@ def _setup_collections_from_params(path: Union[Path, str]) -> Tuple[DataSet, Job
             if file.exists():
                 getattr(params_obj, loader)(str(file))
                 built = True
+                break
         if not built:
             raise FileNotFoundError(f"No {name.replace('_', ' ')} data found")
 
-- 
2.43.0


From 1b743f2619f67ab1fd7dfd81028412d6029db85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 43/55] fix: toggling parameters when nothing is left to be
 toggled

---
 glompo/interfaces/params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/interfaces/params.py b/glompo/interfaces/params.py
index 72bbbb3..1f19e69 100644
--- a/glompo/interfaces/params.py
+++ b/glompo/interfaces/params.py
@@ -558,7 +558,7 @@ class BaseParamsError:
         else:
             raise ValueError("Must specify toggle parameter. Do you want these parameters turned 'on' or 'off'?")
 
-        if isinstance(parameters[0], str):
+        if len(parameters) > 0 and isinstance(parameters[0], str):
             mapping = dict(zip(self.par_eng.names, self.par_eng.is_active))
         else:
             mapping = dict(zip(range(len(self.par_eng.is_active)), self.par_eng.is_active))
-- 
2.43.0


From 91590fca00c256b356e3f408aa7b22c3dfe8cd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 44/55] fix: callbacks of Nevergrad after a restart and when
 given as a sequence

---
 glompo/optimizers/nevergrad.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/glompo/optimizers/nevergrad.py b/glompo/optimizers/nevergrad.py
index bc43e75..27b1ee2 100644
--- a/glompo/optimizers/nevergrad.py
+++ b/glompo/optimizers/nevergrad.py
@@ -56,7 +56,7 @@ class Nevergrad(BaseOptimizer):
 
         if self.is_restart and self.optimizer:
             self.ng_callbacks.parent = self
-            self.ng_callbacks.callbacks = callbacks
+            self.ng_callbacks.set_callbacks(callbacks)
             self.stop = False
             self.logger.debug("Loaded nevergrad optimizer")
         else:
@@ -119,11 +119,16 @@ class _NevergradCallbacksWrapper:
                                                     bool]]] = None):
         self.parent = parent
         self.i_fcalls = 0
+        self.set_callbacks(callbacks)
 
-        if callable(callbacks):
-            self.callbacks = [callbacks]
-        elif callbacks is None:
+    def set_callbacks(self, callbacks):
+        """ Accepts nothing, a single callback or a sequence of them. """
+        if callbacks is None:
             self.callbacks = []
+        elif callable(callbacks):
+            self.callbacks = [callbacks]
+        else:
+            self.callbacks = list(callbacks)
 
     def __call__(self, opt: ng.optimizers.base.Optimizer, x: ng.p.Array, fx: float):
 
-- 
2.43.0


From 03e3fc420e663103dd57ff94855efce5b25b3cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 45/55] fix: shgo is not given a starting point

---
 glompo/optimizers/scipy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glompo/optimizers/scipy.py b/glompo/optimizers/scipy.py
index 2e675a3..e5c9a8e 100644
--- a/glompo/optimizers/scipy.py
+++ b/glompo/optimizers/scipy.py
@@ -80,8 +80,10 @@ class ScipyOptimizeWrapper(BaseOptimizer):
         if self.opt_meth is minimize:
             kwargs['method'] = self.opt_name
 
+        if self.opt_meth is not shgo:  # Places its own starting points
+            kwargs['x0'] = x0
+
         sp_result = self.opt_meth(function,
-                                  x0=x0,
                                   callback=callback,
                                   **kwargs)
         try:
-- 
2.43.0


From 52c698d5b911848a498b6b31d18c03a4cae4a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 46/55] fix: Levy function counted the last dimension twice

---
 glompo/benchmark_fncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index 5cc0165..1e365f5 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -705,7 +705,7 @@ class Levy(BaseTestCase):
 
         term2 = (w - 1) ** 2
         term2 *= 1 + 10 * np.sin(np.pi * w + 1) ** 2
-        term2 = np.sum(term2)
+        term2 = np.sum(term2[:-1])
 
         term3 = (w[-1] - 1) ** 2
         term3 *= 1 + np.sin(2 * np.pi * w[-1]) ** 2
-- 
2.43.0


From 6907592c84f73ef7b736c6b633a712e53f920419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 47/55] fix: minimum of the ZeroSum function was that of
 another one

---
 glompo/benchmark_fncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index 1e365f5..a01216f 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -1365,11 +1365,11 @@ class ZeroSum(BaseTestCase):
 
     @property
     def min_x(self) -> Sequence[float]:
-        return [7.70628098] * self.dims
+        return [0] * self.dims
 
     @property
     def min_fx(self) -> float:
-        return -self.dims
+        return 0
 
     @property
     def bounds(self) -> Sequence[Tuple[float, float]]:
-- 
2.43.0


From 0afb9d03e4fb38c5ea9da683ab1a70191b0f70a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 48/55] fix: gradient of the Lennard-Jones function when sigma
 is not one

---
 glompo/benchmark_fncs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index a01216f..7e9b086 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -600,8 +600,8 @@ class LennardJones(BaseTestCase):
         # Pre-calculation shortcuts
         self._triu_indices = np.triu_indices(atoms, 1)
         self._sig2 = sigma ** 2
-        self._sig5 = sigma ** 5
-        self._sig11 = sigma ** 11
+        self._sig6 = sigma ** 6
+        self._sig12 = sigma ** 12
 
     def __call__(self, x: Sequence[float]) -> float:
         x, delta, dists_sq = self._common_calc(x)
@@ -629,7 +629,7 @@ class LennardJones(BaseTestCase):
 
         energy_grads = np.einsum(
             "n,nd->nd",
-            -24 * self.eps * (2 * self._sig11 * dists_sq ** -7 - self._sig5 * dists_sq ** -4),
+            -24 * self.eps * (2 * self._sig12 * dists_sq ** -7 - self._sig6 * dists_sq ** -4),
             delta
         )
 
-- 
2.43.0


From b9a7fedde035f02474b64d60da048fb1e6f8ffd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 49/55] fix: minimum of the Lennard-Jones function was never
 estimated

---
 glompo/benchmark_fncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index 7e9b086..76bab5e 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -667,7 +667,7 @@ class LennardJones(BaseTestCase):
 
     @property
     def min_fx(self) -> float:
-        if self._dims == 3:
+        if self.d == 3:
             warnings.warn("Energy minimum estimate only.")
             energy = self.global_min_fitting_coefficients * self.N ** np.arange(6, -1, -1)
             return energy.sum()
-- 
2.43.0


From 4af02b002d2091aee8ebb0aa4ec6f369bcf7e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 50/55] fix: delay of the Lennard-Jones function was ignored

---
 glompo/benchmark_fncs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index 76bab5e..c6a73c6 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -578,7 +578,7 @@ class LennardJones(BaseTestCase):
     The `x` parameter for the call method may be a :math:`Nd` length vector or a :math:`N \\times d` array.
     """
 
-    def __init__(self, atoms: int, dims: int, eps: float = 1, sigma: float = 1, *, delay=None):
+    def __init__(self, atoms: int, dims: int, eps: float = 1, sigma: float = 1, *, delay: float = 0):
         super().__init__(atoms * dims, delay=delay)
         self.N = atoms
         self.d = dims
@@ -604,6 +604,7 @@ class LennardJones(BaseTestCase):
         self._sig12 = sigma ** 12
 
     def __call__(self, x: Sequence[float]) -> float:
+        super().__call__(x)
         x, delta, dists_sq = self._common_calc(x)
 
         calc = self._sig2 / np.array(dists_sq)
-- 
2.43.0


From fd85a2169bfc0089b4c0637012d787f4ebac8622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:32 +0000
Subject: [PATCH 51/55] fix: minima of the Shubert functions of type III and IV
 were those of their negatives

---
 glompo/benchmark_fncs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index c6a73c6..bb93066 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -1139,7 +1139,7 @@ class Shubert(BaseTestCase):
             calc = np.sum(calc)
 
             if self.shift_positive:
-                calc += 24.062499
+                calc += 29.675901
 
         else:
             x = np.reshape(x, (-1, 1))
@@ -1151,7 +1151,7 @@ class Shubert(BaseTestCase):
             calc = np.sum(calc)
 
             if self.shift_positive:
-                calc += 29.016015
+                calc += 25.741771
 
         return calc
 
@@ -1172,8 +1172,8 @@ class Shubert(BaseTestCase):
         if self.style == 1:
             return -186.7309
         if self.style == 3:
-            return -24.062499
-        return -29.016015
+            return -29.675900
+        return -25.741771
 
     @property
     def bounds(self) -> Sequence[Tuple[float, float]]:
-- 
2.43.0


From 8c40e745b39ce3ee7a9bd48a3bc9579d7331ee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 52/55] fix: starting point of AnnealingGenerator was the array
 its state is kept in

---
 glompo/generators/annealing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/generators/annealing.py b/glompo/generators/annealing.py
index dddb9ea..5409dab 100644
--- a/glompo/generators/annealing.py
+++ b/glompo/generators/annealing.py
@@ -123,7 +123,7 @@ class AnnealingGenerator(BaseGenerator):
                 break
 
         self.last = self.state.current_location.copy()
-        return self.state.current_location
+        return self.last.copy()  # Optimizers may work in place on their starting point
 
     def reset_temperature(self):
         self.state.reset(self.obj_wrapper, self.rand_state)
-- 
2.43.0


From d4ef35c34ca381659a241607da7d120610ec21f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 53/55] fix: points of PerturbationGenerator could be rounded
 out of the bounds

---
 glompo/generators/peterbation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/generators/peterbation.py b/glompo/generators/peterbation.py
index a26e88d..993b60b 100644
--- a/glompo/generators/peterbation.py
+++ b/glompo/generators/peterbation.py
@@ -49,4 +49,4 @@ class PerturbationGenerator(BaseGenerator):
             mu = self.loc[i]
             sigma = self.scale[i]
             call.append(truncnorm.rvs(a, b, mu, sigma))
-        return np.array(call)
+        return np.clip(call, self.min, self.max)  # Scaling may round the sample out of the bounds
-- 
2.43.0


From c3ad3092ac89ccb4c6676604d607489feb4bbc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:40 +0000
Subject: [PATCH 54/55] fix: decide once per inspection whether an optimizer is
 dead

An optimizer which reported its end and died between the two looks at its process was recorded as ended without a word.
---
 glompo/core/manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 87039b6..468bca8 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1445,12 +1445,13 @@ class GloMPOManager:
         for opt_id, pack in self._optimizer_packs.items():
 
             # Process everything dead optimizers had to say before deciding how they ended.
-            if opt_id not in self._graveyard and not pack.process.is_alive():
+            is_dead = not pack.process.is_alive()
+            if is_dead:
                 while self._check_signals(opt_id):
                     pass
 
             # Find dead optimizer processes that did not properly signal their termination.
-            if opt_id not in self._graveyard and not pack.process.is_alive():
+            if opt_id not in self._graveyard and is_dead:
                 exitcode = pack.process.exitcode
                 if exitcode == 0:
                     self.conv_counter += 1
-- 
2.43.0


From 4c8f0d049ebb9daca5803c9dddef6dddb867c8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:37 +0000
Subject: [PATCH 55/55] fix: make log checksums independent of the seed of the
 random module

---
 glompo/core/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 468bca8..237c4ea 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -2079,7 +2079,8 @@ class GloMPOManager:
     @staticmethod
     def _new_checksum() -> str:
         """ Generates a key which ties checkpoints to their log file. """
-        return ''.join([random.choice(string.ascii_letters + string.digits) for _ in range(20)])
+        generator = random.SystemRandom()  # Independent of any seed the user may have set
+        return ''.join([generator.choice(string.ascii_letters + string.digits) for _ in range(20)])
 
     def _purge_old_results(self):
         """ Identifies and removes old log files if allowed. """
-- 
2.43.0

