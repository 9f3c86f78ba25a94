From 3b88ccae026b2128aec778d338920e6e00d66813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 01/26] fix: give each DispenserManager its own lists of
 workers, triggers, queues and parameters

---
 src/zernpy/utils/intmproc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 84107fe..e6bdcd7 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -54,6 +54,8 @@ class DispenserManager():
 
         """
         self.verbose_info = verbose_info
+        # Each manager should own its containers, otherwise the lists defined on the class level are shared between all managers
+        self.__workers_pool = []; self.__results = []; self.__triggers = []; self.__queues = []; self.__parameters_vector = []
         if self.verbose_info:
             t1 = time.perf_counter(); self.done_jobs_percentage = 0
         # Checking input parameters - workers
-- 
2.43.0


From f85ad8050ac64044fcca2086eaeabe3804db3fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 02/26] fix: worker pool on machines with a single or unknown
 number of CPUs

---
 src/zernpy/utils/intmproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index e6bdcd7..ece2332 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -19,7 +19,7 @@ from typing import Callable, Any, Union  # Callable[..., Any] - should check for
 class DispenserManager():
     """Manager for the distributing calculation job on several Processes."""
 
-    __MAX_WORKERS: int = os.cpu_count(); workers_number: int = __MAX_WORKERS // 2; __warn_message: str = ""
+    __MAX_WORKERS: int = os.cpu_count() or 1; workers_number: int = max(1, __MAX_WORKERS // 2); __warn_message: str = ""
     __workers_pool: list = []; __results: list = []; __triggers: list = []; __initialized: bool = False
     __global_live_trigger: Event = None; __queues: list = []; __parameters_vector: list = []
 
-- 
2.43.0


From 5ec6e635912481221e30fe1c1dc8d119355e6082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 03/26] fix: report failed computation or stopped worker as an
 error instead of waiting forever

---
 src/zernpy/utils/intmproc.py | 75 +++++++++++++++++++++++++++++++++---
 1 file changed, 70 insertions(+), 5 deletions(-)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index ece2332..fd86142 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -8,7 +8,9 @@ Experiment with the multiprocessing speeding up of calculations.
 """
 # %% Global imports
 from multiprocessing import Process, Event, Queue
+from queue import Empty
 import os
+import traceback
 import warnings
 import time
 from typing import Callable, Any, Union  # Callable[..., Any] - should check for any callable instance accepting / returning any types
@@ -96,7 +98,7 @@ class DispenserManager():
                         self.__warn_message = f"Not recognized confirmation message '{confirmation}', contact the developer"
                         warnings.warn(self.__warn_message); break
                 else:
-                    time.sleep(0.005)
+                    self.__check_worker(worker); time.sleep(0.005)
             self.__workers_pool.append(worker); self.__queues.append(queue)
         if self.verbose_info:
             elapsed_ms = int(round(1000.0*(time.perf_counter() - t1), 0))
@@ -134,6 +136,7 @@ class DispenserManager():
                     for proc_i in range(len(self.__workers_pool)):
                         self.__queues[proc_i].put(self.__parameters_vector[current_param_index])
                         task_assigned[proc_i] = True; processing_indices[proc_i] = current_param_index
+                        self.__check_worker(self.__workers_pool[proc_i])
                         self.__triggers[proc_i].set(); time.sleep(0.0001)
                         # print(f"Set job for parameter {self.__parameters_vector[current_param_index]}, index {current_param_index}")
                         indices2process.remove(current_param_index); current_param_index += 1
@@ -143,16 +146,19 @@ class DispenserManager():
                 for proc_i in range(len(self.__workers_pool)):
                     if task_assigned[proc_i] and not self.__triggers[proc_i].is_set():
                         current_param_index = processing_indices[proc_i]
-                        self.__results[current_param_index] = self.__queues[proc_i].get()
+                        self.__results[current_param_index] = self.__get_result(proc_i)
                         computed_tasks += 1  # computation has been done
                         task_assigned[proc_i] = False  # next comptutation hasn't been yet assigned, check if still jobs are available
                         if len(indices2process) > 0:
                             current_param_index = indices2process.pop(0); task_assigned[proc_i] = True
                             self.__queues[proc_i].put(self.__parameters_vector[current_param_index])
+                            self.__check_worker(self.__workers_pool[proc_i])
                             self.__triggers[proc_i].set(); processing_indices[proc_i] = current_param_index
                             # print(f"Set job for parameter {self.__parameters_vector[current_param_index]}, index {current_param_index}")
                             time.sleep(0.0001)
                     else:
+                        if task_assigned[proc_i]:
+                            self.__check_worker(self.__workers_pool[proc_i])
                         time.sleep(0.0001)
                 # print(f"Remaining indices of parameters to compute: {indices2process}")
                 if self.verbose_info:
@@ -171,6 +177,53 @@ class DispenserManager():
             self.__warn_message = ("All workers have been released, no computation has been performed")
             warnings.warn(self.__warn_message); return None
 
+    @staticmethod
+    def __check_worker(worker: Process):
+        """
+        Raise RuntimeError if the worker has been stopped unexpectedly (its results can never be received).
+
+        Parameters
+        ----------
+        worker : Process
+            Worker for checking.
+
+        Returns
+        -------
+        None.
+
+        """
+        if not worker.is_alive():
+            raise RuntimeError(f"The worker process has been unexpectedly stopped (exit code: {worker.exitcode})")
+
+    def __get_result(self, proc_i: int) -> Any:
+        """
+        Receive the result of computation from the worker.
+
+        Parameters
+        ----------
+        proc_i : int
+            Index of the worker.
+
+        Raises
+        ------
+        RuntimeError
+            If the worker has been stopped or the computation function raised an exception.
+
+        Returns
+        -------
+        Any
+            Result of computation.
+
+        """
+        while True:
+            try:
+                result = self.__queues[proc_i].get(timeout=0.5); break
+            except Empty:
+                self.__check_worker(self.__workers_pool[proc_i])
+        if isinstance(result, _WorkerFailure):
+            raise RuntimeError(f"The computing function raised an exception in the worker process:\n{result.report}")
+        return result
+
     def close(self):
         """
         Release all initialized Process()-based classes (workers).
@@ -182,8 +235,9 @@ class DispenserManager():
         """
         if self.__initialized:
             self.__global_live_trigger.clear(); time.sleep(0.005)  # set global trigger for all Processes as False
-            for trigger in self.__triggers:
-                trigger.set(); time.sleep(0.005)  # set all triggers for releasing wait() methods for letting all Process run() to stop
+            for worker, trigger in zip(self.__workers_pool, self.__triggers):
+                if worker.is_alive():  # the call set() never returns if the process waiting on the Event has been killed
+                    trigger.set(); time.sleep(0.005)  # set all triggers for releasing wait() methods for letting all Process run() to stop
             for worker in self.__workers_pool:
                 if worker.is_alive():
                     worker.join(timeout=0.1)  # wait all Processes stopped
@@ -234,6 +288,14 @@ class DispenserManager():
                 self.__results = [None]*len(params_list); self.__parameters_vector = params_list
 
 
+# %% Message about the failed computation
+class _WorkerFailure():
+    """Message from the worker that the computation function raised an exception (always pickleable)."""
+
+    def __init__(self, report: str):
+        self.report = report
+
+
 # %% Individual worker special class
 class IndiWorker(Process):
     """Individual Worker based on Process() class for performing computations using provided function."""
@@ -284,7 +346,10 @@ class IndiWorker(Process):
                     #     time.sleep(0.001); attempts += 1
                     parameter = self.__data_queue.get()
                     # print(f"Start computing for parameter {parameter}", flush=True)
-                    result = self.computation(parameter)  # computation work
+                    try:
+                        result = self.computation(parameter)  # computation work
+                    except BaseException:  # report any failure, otherwise the main process waits for the result forever
+                        result = _WorkerFailure(traceback.format_exc())
                     self.__data_queue.put_nowait(result)  # returning the result
                     self.__trigger.clear()
                     # print(f"Finished computing for parameter {parameter} and report result {result}", flush=True)
-- 
2.43.0


From f2074c7e05a60d0085d1347c144e84ab0b270b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 04/26] fix: release the workers if the computation is
 interrupted or failed

---
 src/zernpy/utils/intmproc.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index fd86142..f53b4b9 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -121,6 +121,21 @@ class DispenserManager():
         """
         Perform computation using provided parameters and function / method.
 
+        Returns
+        -------
+        list
+            List with computation results.
+
+        """
+        try:
+            return self.__compute()
+        except BaseException:  # after an interruption / failure not received results remain in queues, so the pool can't be reused
+            self.close(); raise
+
+    def __compute(self):
+        """
+        Distribute parameters between the workers and collect results, see compute().
+
         Returns
         -------
         list
-- 
2.43.0


From 90b092d81e07668825def1722c75756ad818e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 05/26] fix: release already started workers if the
 initialization of the pool fails

---
 src/zernpy/utils/intmproc.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index f53b4b9..618061c 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -85,25 +85,28 @@ class DispenserManager():
         # Initializing the pool with Processes
         self.__global_live_trigger = Event(); self.__global_live_trigger.set(); time.sleep(0.01)
         # print(f"Initializing {self.workers_number} Processes")
-        for i in range(self.workers_number):
-            trigger_event = Event(); queue = Queue(); self.__triggers.append(trigger_event)
-            worker = IndiWorker(keep_run_trigger=self.__global_live_trigger, trigger=trigger_event, data_queue=queue, compute_func=compute_func)
-            worker.start(); received_confirmation = False  # for waiting of initializaton of the Process
-            while not received_confirmation:
-                if not queue.empty():
-                    confirmation = queue.get_nowait()
-                    if confirmation == "Started":
-                        received_confirmation = True; break
+        self.__initialized = True  # from this point the started workers should be released by calling close()
+        try:
+            for i in range(self.workers_number):
+                trigger_event = Event(); queue = Queue(); self.__triggers.append(trigger_event)
+                worker = IndiWorker(keep_run_trigger=self.__global_live_trigger, trigger=trigger_event, data_queue=queue, compute_func=compute_func)
+                self.__workers_pool.append(worker); self.__queues.append(queue)
+                worker.start(); received_confirmation = False  # for waiting of initializaton of the Process
+                while not received_confirmation:
+                    if not queue.empty():
+                        confirmation = queue.get_nowait()
+                        if confirmation == "Started":
+                            received_confirmation = True; break
+                        else:
+                            self.__warn_message = f"Not recognized confirmation message '{confirmation}', contact the developer"
+                            warnings.warn(self.__warn_message); break
                     else:
-                        self.__warn_message = f"Not recognized confirmation message '{confirmation}', contact the developer"
-                        warnings.warn(self.__warn_message); break
-                else:
-                    self.__check_worker(worker); time.sleep(0.005)
-            self.__workers_pool.append(worker); self.__queues.append(queue)
+                        self.__check_worker(worker); time.sleep(0.005)
+        except BaseException:  # some worker cannot be started or the initialization interrupted
+            self.close(); raise
         if self.verbose_info:
             elapsed_ms = int(round(1000.0*(time.perf_counter() - t1), 0))
             print(f"# of workers as Processes initialized: {self.workers_number}, took {elapsed_ms} ms")
-        self.__initialized = True  # global flag that pool of workers should be initialized
 
     def get_max_workers(self) -> int:
         """
-- 
2.43.0


From 57997b3119499e9d2f5663dc120d88e4cef1420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 06/26] fix: not closed pool of workers shouldn't block the
 exit of a program

---
 src/zernpy/utils/intmproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 618061c..9782d64 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -341,7 +341,7 @@ class IndiWorker(Process):
 
         """
         self.__trigger = trigger; self.__data_queue = data_queue; self.computation = compute_func; self.__keep_event = keep_run_trigger
-        Process.__init__(self)
+        Process.__init__(self, daemon=True)  # daemon - for not blocking the exit of a program if the close() method hasn't been called
 
     def run(self):
         """
-- 
2.43.0


From 1c34fa6729439c7ffa54fd81c31853eb80ef6cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 07/26] fix: stop workers that remain busy or blocked after
 closing the pool

---
 src/zernpy/utils/intmproc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 9782d64..86b1c9d 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -259,6 +259,10 @@ class DispenserManager():
             for worker in self.__workers_pool:
                 if worker.is_alive():
                     worker.join(timeout=0.1)  # wait all Processes stopped
+                    if worker.is_alive():
+                        worker.terminate()  # the worker is busy or blocked by transferring of not requested result
+            for queue in self.__queues:
+                queue.cancel_join_thread()  # not received by stopped workers parameters shouldn't block the exit of a program
         self.__initialized = False  # set the global flag to False for preventing calling the computation
         self.__workers_pool = []; self.__global_live_trigger = None  # replace all attributes with the default empty values
         self.__triggers = []; self.__results = []; self.__queues = []; self.__parameters_vector = []   # default empty values
-- 
2.43.0


From 865e73e708419edc4d644d591972f6d0277b108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 08/26] fix: never reuse a pool if releasing of its workers
 after a failed computation has been interrupted

---
 src/zernpy/utils/intmproc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 86b1c9d..3a0bb34 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -23,7 +23,7 @@ class DispenserManager():
 
     __MAX_WORKERS: int = os.cpu_count() or 1; workers_number: int = max(1, __MAX_WORKERS // 2); __warn_message: str = ""
     __workers_pool: list = []; __results: list = []; __triggers: list = []; __initialized: bool = False
-    __global_live_trigger: Event = None; __queues: list = []; __parameters_vector: list = []
+    __global_live_trigger: Event = None; __queues: list = []; __parameters_vector: list = []; __computing: bool = False
 
     def __init__(self, compute_func: Callable[..., Any], params_list: list, n_workers: int = None, verbose_info: bool = False):
         """
@@ -89,6 +89,7 @@ class DispenserManager():
         try:
             for i in range(self.workers_number):
                 trigger_event = Event(); queue = Queue(); self.__triggers.append(trigger_event)
+                queue.cancel_join_thread()  # parameters not received by a stopped worker shouldn't block the exit of a program
                 worker = IndiWorker(keep_run_trigger=self.__global_live_trigger, trigger=trigger_event, data_queue=queue, compute_func=compute_func)
                 self.__workers_pool.append(worker); self.__queues.append(queue)
                 worker.start(); received_confirmation = False  # for waiting of initializaton of the Process
@@ -130,10 +131,15 @@ class DispenserManager():
             List with computation results.
 
         """
+        if self.__computing:  # releasing of workers after the failed computation has been also interrupted
+            self.close()
+        self.__computing = True
         try:
-            return self.__compute()
+            results = self.__compute()
         except BaseException:  # after an interruption / failure not received results remain in queues, so the pool can't be reused
             self.close(); raise
+        self.__computing = False
+        return results
 
     def __compute(self):
         """
@@ -261,8 +267,6 @@ class DispenserManager():
                     worker.join(timeout=0.1)  # wait all Processes stopped
                     if worker.is_alive():
                         worker.terminate()  # the worker is busy or blocked by transferring of not requested result
-            for queue in self.__queues:
-                queue.cancel_join_thread()  # not received by stopped workers parameters shouldn't block the exit of a program
         self.__initialized = False  # set the global flag to False for preventing calling the computation
         self.__workers_pool = []; self.__global_live_trigger = None  # replace all attributes with the default empty values
         self.__triggers = []; self.__results = []; self.__queues = []; self.__parameters_vector = []   # default empty values
-- 
2.43.0


From 7a3a9d3cc2032b67378f7abcdccf1344aeb28f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 09/26] fix: use the provided wavelength for the angular
 frequency of the parallel kernel

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index f7f937b..b27e170 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -190,7 +190,7 @@ class ZernPSF:
         # Sanity check for wavelength
         if wavelength <= 0.0:
             raise ValueError("Wavelength should be positive real number")
-        self.k = 2.0*pi/self.wavelength  # Calculate angular frequency (k)
+        self.k = 2.0*pi/wavelength  # Calculate angular frequency (k)
         self.NA = NA; self.wavelength = wavelength  # save as the class properties
         # Sanity check of provided wavelength, pixel physical size (Nyquist criteria)
         self.pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
-- 
2.43.0


From c5243038c9afb6918aca5048b18a3927c7e13723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 10/26] fix: parallel kernel for cases not covered by workers
 and when it is interrupted

---
 src/zernpy/zernpsf.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index b27e170..896c393 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -726,27 +726,29 @@ class ZernPSF:
             PSF kernel.
 
         """
-        if self.kernel_size < 3 and self.zernpol is not None:
-            self.kernel_size = get_kernel_size(zernike_pol=self.zernpol, len2pixels=self.pixel_size, alpha=self.alpha,
-                                               wavelength=self.wavelength)
-        if self.zernpol is None:
-            self.kernel_size = 3
-        self.kernel = np.zeros(shape=(self.kernel_size, self.kernel_size)); i_center = self.kernel_size//2; j_center = self.kernel_size//2
+        # The workers compute only integrals for single, not Airy polynomial. Use the common calculation for all other cases
+        if self.__ParallelCalc is None or self.zernpol is None or self.airy:
+            return self.calculate_psf_kernel(suppress_warnings=True, normalized=normalize_values, accelerated=False)
+        # Make kernel with odd sizes for precisely centering the kernel as in the common calculation
+        size = self.kernel_size
+        if size % 2 == 0:
+            size += 1
+        kernel = np.zeros(shape=(size, size)); i_center = size//2; j_center = size//2
         calculated_points = 0
-        for i in range(self.kernel_size):
-            for j in range(self.kernel_size):
+        for i in range(size):
+            for j in range(size):
                 t1 = time.perf_counter(); pixel_dist = np.sqrt(np.power((i - i_center), 2) + np.power((j - j_center), 2))  # in pixels
                 # Convert pixel distance in the required k*NA*pixel_dist*calibration coefficient
                 distance = self.k*self.NA*self.pixel_size*pixel_dist  # conversion from pixel distance into phase multiplier
                 theta = np.arctan2((i - i_center), (j - j_center))  # The PSF also has the angular dependency, not only the radial one
                 theta += np.pi  # shift angles to the range [0, 2pi]
-                if self.zernpol is not None:
-                    self.kernel[i, j] = self.get_psf_point_r_parallel(r=distance, theta=theta); calculated_points += 1
+                kernel[i, j] = self.get_psf_point_r_parallel(r=distance, theta=theta); calculated_points += 1
                 # print(f"Calculated point {[i, j]} from {[self.kernel_size-1, self.kernel_size-1]}")
-                print(f"Calculated point #{calculated_points} from {self.kernel_size*self.kernel_size}, takes ms: ",
+                print(f"Calculated point #{calculated_points} from {size*size}, takes ms: ",
                       int(round(1000*(time.perf_counter() - t1), 0)))
         if normalize_values:
-            self.kernel /= np.max(self.kernel)
+            kernel /= np.max(kernel)
+        self.kernel = kernel  # assign the completed kernel only
         return self.kernel
 
     def deinitialize_workers(self):
-- 
2.43.0


From 689717c8cca5b7229d617a30e014aa2f18d7e468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 11/26] fix: allow to initialize parallel workers again after
 releasing them

---
 src/zernpy/zernpsf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 896c393..dd1b339 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -762,6 +762,7 @@ class ZernPSF:
         """
         if self.__ParallelCalc is not None:
             self.__ParallelCalc.close()
+            self.__ParallelCalc = None  # allows to initialize workers again
 
 
 # %% Utility functions
-- 
2.43.0


From 5c22eb2eb5f37e6840a25a016e21c9062336e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 12/26] fix: keep copies of polynomials and amplitudes
 sequences provided by the caller

---
 src/zernpy/zernpsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index dd1b339..9791fba 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -137,7 +137,7 @@ class ZernPSF:
                         if m == 0 and n == 0:
                             self.airy = True  # check if Airy pattern is among provided polynomials
                 if all_are_polls:
-                    self.polynomials = zernpol; self.zernpol = None
+                    self.polynomials = tuple(zernpol); self.zernpol = None  # keep the independent from the caller's sequence copy
                     unique_osa_orders = set(osa_orders)  # check that all OSA orders are unique
                     if len(osa_orders) > len(unique_osa_orders):
                         raise ValueError("There might be some repeated polynomials provided, "
@@ -216,7 +216,7 @@ class ZernPSF:
                     raise ValueError(f"Length of provided coefficients ({coeffs_len}) is not equal to stored number "
                                      + f"of polynomials ({len(self.polynomials)})")
             else:
-                self.coefficients = np.asarray(expansion_coeff)  # conversion to efficient array format
+                self.coefficients = np.array(expansion_coeff)  # conversion (copying) to efficient array format
                 # Sanity check for the maximum expansion coefficient of the polynomial
                 max_module_coeff = max(np.max(self.coefficients), abs(np.min(self.coefficients)))
                 self.__warn_message = _sanity_check_expansion_coefficient(abs(max_module_coeff) / wavelength, max_coeff_check=True)
-- 
2.43.0


From d09b2662c628102a45e31e664243786d1cfa1137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 13/26] fix: keep previous properties if setting of new ones
 failed

---
 src/zernpy/zernpsf.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 9791fba..db3da39 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -13,6 +13,7 @@ import matplotlib.pyplot as plt
 from math import pi
 import time
 from typing import Union, Sequence
+from functools import wraps
 from importlib.metadata import version
 
 # Check if numba library installed for importing compilable methods
@@ -48,6 +49,33 @@ else:
 __docformat__ = "numpydoc"
 
 
+# %% Decorator for methods setting several properties
+def _restore_if_failed(method):
+    """
+    Make all-or-nothing the wrapped method of a class instance: restore all attributes if any exception has been raised.
+
+    Parameters
+    ----------
+    method : Callable
+        Method that sets several attributes of the class instance.
+
+    Returns
+    -------
+    Callable
+        Wrapped method.
+
+    """
+    @wraps(method)
+    def wrapped_method(self, *args, **kwargs):
+        attributes = self.__dict__.copy()
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__ = attributes
+            raise
+    return wrapped_method
+
+
 # %% PSF class
 class ZernPSF:
     """
@@ -148,6 +176,7 @@ class ZernPSF:
             ValueError("ZernPSF class requires single 'ZernPol' instance or Sequence (class with __len__ attr.) with 'ZernPol' instances")
 
     # %% Set properties
+    @_restore_if_failed
     def set_physical_props(self, NA: float, wavelength: float, expansion_coeff: Union[float, Sequence[float]], pixel_physical_size: float):
         """
         Set parameters in physical units.
@@ -262,6 +291,7 @@ class ZernPSF:
                 self.kernel_size += 1  # kernel size should odd
         self.__physical_props_set = True  # set internal flag True if no ValueError raised
 
+    @_restore_if_failed
     def set_calculation_props(self, kernel_size: int, n_integration_points_r: int, n_integration_points_phi: int) -> None:
         """
         Set calculation properties: kernel size, number of integration points on polar coordinates.
-- 
2.43.0


From 1b329ff5bd8d086c1a07bd8dda36e9a1d8ecc041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 14/26] fix: saving to the folder provided as string, keep
 default folder after the first saving

---
 src/zernpy/zernpsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index db3da39..277eee1 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -597,8 +597,8 @@ class ZernPSF:
 
         """
         if abs_path is None:
-            abs_path = Path(self.json_file_path).joinpath("saved_psfs")  # default folder for storing saved JSON files (root for the package)
-        if not Path.exists(abs_path):
+            abs_path = Path(__file__).parent.absolute().joinpath("saved_psfs")  # default folder for JSON files (root for the package)
+        if not Path(abs_path).exists():
             abs_path = ""  # the folder "saved_psfs" will be created in the root of the package
         if isinstance(abs_path, Path):
             abs_path = str(abs_path)  # convert to the expected string format
-- 
2.43.0


From a10ebbe61ba2de1f2be2a56795d8f19cdee2e6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 15/26] fix: reading of json file restores all saved properties
 or keeps the previous ones

---
 src/zernpy/zernpsf.py | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 277eee1..a6b1031 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -638,17 +638,17 @@ class ZernPSF:
             abs_path = str(abs_path)
         json_data = read_psf(abs_path)  # raw parsed data from a file
         if json_data is not None:
-            wavelen: float; na: float; a: float; pols: list; ps: float; read_props = 0
+            wavelen: float; na: float; a: float; pols: list = []; ps: float; read_props = 0; calc_props = {}
             for key, item in json_data.items():
                 # Calculation properties + calculated kernel
                 if key == "PSF Kernel":
-                    self.kernel = np.asarray(item); read_props += 1
+                    calc_props["kernel"] = np.asarray(item, dtype=float); read_props += 1
                 elif key == "Kernel Size":
-                    self.kernel_size = item; read_props += 1
+                    calc_props["kernel_size"] = item; read_props += 1
                 elif key == "# of integration points R":
-                    self.n_int_r_points = item; read_props += 1
+                    calc_props["n_int_r_points"] = item; read_props += 1
                 elif key == "# of integration points angle":
-                    self.n_int_phi_points = item; read_props += 1
+                    calc_props["n_int_phi_points"] = item; read_props += 1
                 # Read the physical properties and store them in a list for further setting
                 elif key == "NA":
                     na = item; read_props += 1
@@ -660,24 +660,24 @@ class ZernPSF:
                     a = np.asarray(item); read_props += 1
                 elif key == "Pixel Size":
                     ps = item; read_props += 1
-                # Getting and reassigning used polynomial(-s)
+                # Getting used polynomial(-s)
                 elif key == "Polynomial":
-                    osa_index = item; self.zernpol = ZernPol(osa=osa_index)
+                    pols = [ZernPol(osa=item)]
                 elif key == "Polynomials":
-                    osa_indices = item; pols = []; pols_len = len(osa_indices)
-                    if pols_len == 1:
-                        self.zernpol = ZernPol(osa=osa_indices[0])
-                        if osa_indices[0] == 0:
-                            self.airy = True
-                        else:
-                            self.airy = False
-                    else:
-                        for index in osa_indices:
-                            pols.append(ZernPol(osa=index))
-                        self.polynomials = pols; self.zernpol = None; self.airy = False
-            # Assign read physical properties
-            if read_props == 8:
-                self.set_physical_props(NA=na, wavelength=wavelen, expansion_coeff=a, pixel_physical_size=ps)
+                    pols = [ZernPol(osa=index) for index in item]
+            # Check all read properties by assigning them to the new instance, afterwards assign all of them at once
+            if read_props == 8 and len(pols) > 0:
+                for key in ("kernel_size", "n_int_r_points", "n_int_phi_points"):
+                    if not isinstance(calc_props[key], int) or calc_props[key] < 1:
+                        raise ValueError(f"Provided json file contains not valid property '{key}': {calc_props[key]}")
+                if calc_props["kernel"].ndim != 2:
+                    raise ValueError("Provided json file contains not valid PSF kernel (expected 2D matrix)")
+                read_psf_props = ZernPSF(pols)
+                read_psf_props.set_physical_props(NA=na, wavelength=wavelen, expansion_coeff=a, pixel_physical_size=ps)
+                calc_props["json_file_path"] = self.json_file_path  # read path isn't stored
+                for key in ("polynomials", "airy", "expansion_coeff", "alpha", "coefficients", "amplitudes"):
+                    calc_props[key] = getattr(read_psf_props, key)  # also replace attributes not used for the read polynomial(-s)
+                self.__dict__.update({**vars(read_psf_props), **calc_props})
             else:
                 self.__warn_message = "Provided json file doesn't contain all necessary keys for physical / calculation properties"
                 warnings.warn(self.__warn_message); self.__warn_message = ""
-- 
2.43.0


From dcaf08246983a1a4cc850fe8cbac4e525d5b6fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 16/26] fix: import the package if optional numba or joblib
 libraries are broken

---
 src/zernpy/calculations/calc_psfs.py |  2 +-
 src/zernpy/zernpsf.py                | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 406d067..55e3f48 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -25,7 +25,7 @@ from typing import Union
 try:
     from joblib import Parallel, delayed
     joblib_installed = True
-except ModuleNotFoundError:
+except Exception:  # not installed or installed but broken library
     joblib_installed = False
 
 # %% Local (package-scoped) imports
diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index a6b1031..5c27dcf 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -22,8 +22,8 @@ try:
     import numba
     if numba is not None:
         numba_installed = True; numba_version = version('numba'); numba_ver_n = numba_version.split('.')
-except ModuleNotFoundError:
-    pass
+except Exception:  # not installed or installed but broken (e.g., not compatible with the installed 'numpy') library
+    numba_installed = False
 
 # %% Local (package-scoped) imports
 if __name__ == "__main__" or __name__ == Path(__file__).stem or __name__ == "__mp_main__":
@@ -32,7 +32,10 @@ if __name__ == "__main__" or __name__ == Path(__file__).stem or __name__ == "__m
     from zernikepol import ZernPol
     from utils.intmproc import DispenserManager
     if numba_installed:
-        from calculations.calc_psfs_numba import get_psf_kernel_comp, methods_compiled, set_methods_compiled
+        try:
+            from calculations.calc_psfs_numba import get_psf_kernel_comp, methods_compiled, set_methods_compiled
+        except Exception:
+            numba_installed = False; methods_compiled = False
     else:
         methods_compiled = False
 else:
@@ -41,7 +44,10 @@ else:
     from .zernikepol import ZernPol
     from .utils.intmproc import DispenserManager
     if numba_installed:
-        from .calculations.calc_psfs_numba import get_psf_kernel_comp, methods_compiled, set_methods_compiled
+        try:
+            from .calculations.calc_psfs_numba import get_psf_kernel_comp, methods_compiled, set_methods_compiled
+        except Exception:
+            numba_installed = False; methods_compiled = False
     else:
         methods_compiled = False
 
-- 
2.43.0


From 494134104136bc00e1653155bbd81c0780d4175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 17/26] fix: accelerated values of high order polynomials with
 abs(m) == n or abs(m) == n-2

---
 src/zernpy/calculations/calc_psfs_numba.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index c569a67..de51ffe 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -151,9 +151,9 @@ def zernpol_value(orders: tuple, r: Union[float, np.ndarray], theta: Union[float
         # 252r^10 - 630r^8 + 560r^6 - 210r^4 + 30r^2 - 1
         radial = 252.0*np.power(r, 10) - 630.0*np.power(r, 8) + 560.0*np.power(r, 6) - 210.0*np.power(r, 4) + 30.0*np.power(r, 2) - 1.0
     elif n > 7 and abs(m) == n:  # equation for high order polynomials (equal orders)
-        return np.power(r, n)
+        radial = np.power(r, n)
     elif n > 10 and abs(m) == n-2:  # equation for high order polynomials (orders with abs(m) == n-2)
-        return float(n)*np.power(r, n) - float(n-1)*np.power(r, n-2)
+        radial = float(n)*np.power(r, n) - float(n-1)*np.power(r, n-2)
     # Polynomial value as the multiplication of calculated above components
     return norm*triangular*radial
 
@@ -311,7 +311,7 @@ def get_psf_kernel_comp(zernike_pol, len2pixels: float, alpha: Union[float, np.n
     Raises
     ------
     ValueError
-        If the Zernike polynomial has the radial order > 10 and (abs(m) != n or abs(m) != n-2).
+        If the Zernike polynomial has the radial order > 10 and (abs(m) != n and abs(m) != n-2).
 
     Returns
     -------
@@ -334,7 +334,7 @@ def get_psf_kernel_comp(zernike_pol, len2pixels: float, alpha: Union[float, np.n
     if not hasattr(zernike_pol, "__len__") and isinstance(alpha, float):
         alpha /= wavelength  # normalize to wavelength (physical units)
         m, n = zernike_pol.get_mn_orders(); single_polynomial_provided = True
-        if n > 10 and (abs(m) != n or abs(m) != n-2):
+        if n > 10 and (abs(m) != n and abs(m) != n-2):
             raise ValueError(f"The calculation PSF function isn't implemented for these orders: {m, n}")
     else:
         if not isinstance(alpha, np.ndarray):
@@ -342,7 +342,7 @@ def get_psf_kernel_comp(zernike_pol, len2pixels: float, alpha: Union[float, np.n
         polynomials_orders = []  # for checking and providing for further compilation polynomials in a tuple
         for pol in zernike_pol:
             m, n = pol.get_mn_orders(); polynomials_orders.append((m, n))
-            if n > 10 and (abs(m) != n or abs(m) != n-2):
+            if n > 10 and (abs(m) != n and abs(m) != n-2):
                 raise ValueError(f"The calculation PSF function isn't implemented for these orders: {m, n}")
         polynomials_orders = tuple(polynomials_orders)  # convert list to tuple
     # Check that the calibration coefficient is sufficient for calculation
-- 
2.43.0


From 8583b4c2be65fb180e5ef7799f874d75101c7ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 18/26] fix: radial polynomial of the 1st order returns a copy
 of the provided array

---
 src/zernpy/calculations/calc_zernike_pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_zernike_pol.py b/src/zernpy/calculations/calc_zernike_pol.py
index 65f2b67..9330cdb 100644
--- a/src/zernpy/calculations/calc_zernike_pol.py
+++ b/src/zernpy/calculations/calc_zernike_pol.py
@@ -114,7 +114,7 @@ def radial_polynomial(zernike_pol, r):
             return np.ones(shape=r.shape)
     # 1st order
     elif ((m == -1) and (n == 1)) or ((m == 1) and (n == 1)):
-        return r
+        return 1.0*r  # always return the independent from the input array copy
     # 2nd order
     elif ((m == -2) and (n == 2)) or ((m == 2) and (n == 2)):
         return np.power(r, 2)  # r^2
-- 
2.43.0


From 72ee44c716ca414294ada4fbe3ca2858c4c60197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 19/26] fix: derivative of symmetrical (m == 0) radial
 polynomials of very high orders

---
 src/zernpy/calculations/calc_zernike_pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_zernike_pol.py b/src/zernpy/calculations/calc_zernike_pol.py
index 9330cdb..daa2ba9 100644
--- a/src/zernpy/calculations/calc_zernike_pol.py
+++ b/src/zernpy/calculations/calc_zernike_pol.py
@@ -547,7 +547,7 @@ def radial_polynomial_coeffs_dr(zernike_pol, r):
         if abs(m) == n:  # simplified recurrence formula from [3]
             r_sum = float(n)*np.power(r, n-1)
         elif m == 0:  # derivative from the simplified recurrence formula from [3]
-            r_sum = (2.0*(radial_polynomial_coeffs_dr((1, n-1), r) + r*radial_polynomial_coeffs_dr((1, n-1), r))
+            r_sum = (2.0*(radial_polynomial_coeffs((1, n-1), r) + r*radial_polynomial_coeffs_dr((1, n-1), r))
                      - radial_polynomial_coeffs_dr((0, n-2), r))
         elif abs(m) == n-2:  # derivative from my guess about overall equation
             r_sum = float(n)*float(n)*np.power(r, n-1) - float(n-1)*float(n-2)*np.power(r, n-3)
-- 
2.43.0


From 377cff13ae7abdb3cf4daa5ab6f6da3543d35931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 20/26] fix: failed or interrupted saving keeps the complete
 previous json file

---
 src/zernpy/calculations/calc_psfs.py | 49 ++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 55e3f48..38f60a1 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -19,6 +19,8 @@ import json
 from matplotlib.patches import Circle
 from functools import partial
 from typing import Union
+import os
+from threading import get_ident
 # import time
 
 # Testing the parallelization with joblib. Native Pool.map() tested and results transferred to the collection_numCalc repo
@@ -813,11 +815,54 @@ def save_psf(psf_kernel: np.ndarray, NA: float, wavelength: float, pixel_size: f
     if json_file_path.exists() and not overwrite:
         _warn_message = "The file already exists, the content won't be overwritten."; warnings.warn(_warn_message)
     if not json_file_path.exists() or (json_file_path.exists() and overwrite):
-        with open(json_file_path, 'w') as json_write_file:
-            json.dump(data4serialization, json_write_file)
+        write_complete_file(json_file_path, json.dumps(data4serialization), overwrite)
     return str(json_file_path.absolute())
 
 
+def write_complete_file(file_path: Path, content: str, overwrite: bool):
+    """
+    Write the text file so that it contains always either the complete previous or the complete new content.
+
+    The content is written to the temporary file in the same folder, which afterwards replaces the target one. Existing file isn't
+    replaced if it's not allowed, even if it has been created by another program after checking of its presence.
+
+    Parameters
+    ----------
+    file_path : Path
+        Path to the file.
+    content : str
+        Content of the file.
+    overwrite : bool
+        Flag for letting overwriting of the existing file.
+
+    Returns
+    -------
+    None.
+
+    """
+    file_path = Path(os.path.realpath(file_path)); temp_path = file_path.parent.joinpath(f".psf_{os.getpid()}_{get_ident()}.tmp")
+    try:
+        with open(temp_path, 'w') as write_file:
+            write_file.write(content)
+            write_file.flush(); os.fsync(write_file.fileno())  # the content should be stored before replacing of the file
+        if overwrite:
+            os.replace(temp_path, file_path)
+        else:
+            try:
+                os.link(temp_path, file_path)  # raises an error if the file already exists
+            except FileExistsError:
+                _warn_message = "The file already exists, the content won't be overwritten."; warnings.warn(_warn_message)
+            except OSError:  # hard links aren't supported
+                if file_path.exists():
+                    raise
+                os.replace(temp_path, file_path)
+    finally:
+        try:
+            os.unlink(temp_path)
+        except OSError:
+            pass  # already moved or never created
+
+
 def read_psf(file_path: str) -> dict:
     """
     Read the saved PSF data from the *json file.
-- 
2.43.0


From 8230ad14d09d32d5daff51b69110087cdd56b45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 21/26] fix: saving by several programs at once to the auto
 assigned folder

---
 src/zernpy/calculations/calc_psfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 38f60a1..bb4a8b1 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -786,7 +786,7 @@ def save_psf(psf_kernel: np.ndarray, NA: float, wavelength: float, pixel_size: f
     if folder_path is None or len(folder_path) == 0 or not Path(folder_path).is_dir():
         working_folder = Path(__file__).cwd(); saved_psfs_folder = Path(working_folder).joinpath("saved_psfs")
         if not saved_psfs_folder.is_dir():
-            saved_psfs_folder.mkdir()
+            saved_psfs_folder.mkdir(exist_ok=True)  # may be created meanwhile by another program
         print("Auto assigned folder for saving calculated PSF kernel:", saved_psfs_folder)
     else:
         if Path(folder_path).is_dir():
-- 
2.43.0


From 4e2161835627281f586fab4dbe0cfd200b2c91b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:18 +0000
Subject: [PATCH 22/26] fix: report not pickleable parameter or result of a
 computation as an error instead of waiting forever

---
 src/zernpy/utils/intmproc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 3a0bb34..4467356 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -8,6 +8,7 @@ Experiment with the multiprocessing speeding up of calculations.
 """
 # %% Global imports
 from multiprocessing import Process, Event, Queue
+from multiprocessing.reduction import ForkingPickler
 from queue import Empty
 import os
 import traceback
@@ -153,6 +154,8 @@ class DispenserManager():
         """
         if self.__initialized:
             computed_tasks = 0; init_step = True; indices2process = [i for i in range(len(self.__parameters_vector))]
+            for parameter in self.__parameters_vector:
+                ForkingPickler.dumps(parameter)  # not pickleable parameter would be silently lost by the queue
             processing_indices = [None]*len(self.__workers_pool); task_assigned = [False]*len(self.__workers_pool); self.done_jobs_percentage = 0
             while computed_tasks < len(self.__results):
                 if init_step:
@@ -374,6 +377,7 @@ class IndiWorker(Process):
                     # print(f"Start computing for parameter {parameter}", flush=True)
                     try:
                         result = self.computation(parameter)  # computation work
+                        ForkingPickler.dumps(result)  # not pickleable result would be silently lost by the queue
                     except BaseException:  # report any failure, otherwise the main process waits for the result forever
                         result = _WorkerFailure(traceback.format_exc())
                     self.__data_queue.put_nowait(result)  # returning the result
-- 
2.43.0


From 63f20bb7b8ad72b7ce6cab9580b29a2f4943029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:58 +0000
Subject: [PATCH 23/26] fix: import errors in the package itself aren't hidden
 as a broken numba library

---
 src/zernpy/zernpsf.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 5c27dcf..410df60 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -21,6 +21,8 @@ numba_installed = False  # default value for checking if 'numba' library is inst
 try:
     import numba
     if numba is not None:
+        from numba import njit
+        njit(lambda x: x)  # the decorator used in 'calc_psfs_numba' module should work (actually, nothing is compiled here)
         numba_installed = True; numba_version = version('numba'); numba_ver_n = numba_version.split('.')
 except Exception:  # not installed or installed but broken (e.g., not compatible with the installed 'numpy') library
     numba_installed = False
@@ -32,10 +34,7 @@ if __name__ == "__main__" or __name__ == Path(__file__).stem or __name__ == "__m
     from zernikepol import ZernPol
     from utils.intmproc import DispenserManager
     if numba_installed:
-        try:
-            from calculations.calc_psfs_numba import get_psf_kernel_comp, methods_compiled, set_methods_compiled
-        except Exception:
-            numba_installed = False; methods_compiled = False
+        from calculations.calc_psfs_numba import get_psf_kernel_comp, methods_compiled, set_methods_compiled
     else:
         methods_compiled = False
 else:
@@ -44,10 +43,7 @@ else:
     from .zernikepol import ZernPol
     from .utils.intmproc import DispenserManager
     if numba_installed:
-        try:
-            from .calculations.calc_psfs_numba import get_psf_kernel_comp, methods_compiled, set_methods_compiled
-        except Exception:
-            numba_installed = False; methods_compiled = False
+        from .calculations.calc_psfs_numba import get_psf_kernel_comp, methods_compiled, set_methods_compiled
     else:
         methods_compiled = False
 
-- 
2.43.0


From cf704d92713ac71138052b4b91dc89610f4cab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:59 +0000
Subject: [PATCH 24/26] fix: get_psf_point_r_parallel computes the correct
 value also without workers and for several polynomials

---
 src/zernpy/zernpsf.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 410df60..5d07348 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -30,7 +30,8 @@ except Exception:  # not installed or installed but broken (e.g., not compatible
 # %% Local (package-scoped) imports
 if __name__ == "__main__" or __name__ == Path(__file__).stem or __name__ == "__mp_main__":
     from calculations.calc_psfs import (get_psf_kernel, lambda_char, radial_integral_s, radial_integral, get_kernel_size,
-                                        convolute_img_psf, get_bumped_circle, save_psf, read_psf, get_psf_kernel_zerns)
+                                        convolute_img_psf, get_bumped_circle, save_psf, read_psf, get_psf_kernel_zerns,
+                                        get_psf_point_r, get_psf_point_r_pols)
     from zernikepol import ZernPol
     from utils.intmproc import DispenserManager
     if numba_installed:
@@ -39,7 +40,8 @@ if __name__ == "__main__" or __name__ == Path(__file__).stem or __name__ == "__m
         methods_compiled = False
 else:
     from .calculations.calc_psfs import (get_psf_kernel, lambda_char, radial_integral_s, radial_integral, get_kernel_size,
-                                         convolute_img_psf, get_bumped_circle, save_psf, read_psf, get_psf_kernel_zerns)
+                                         convolute_img_psf, get_bumped_circle, save_psf, read_psf, get_psf_kernel_zerns,
+                                         get_psf_point_r, get_psf_point_r_pols)
     from .zernikepol import ZernPol
     from .utils.intmproc import DispenserManager
     if numba_installed:
@@ -722,6 +724,11 @@ class ZernPSF:
             Each point for PSF kernel.
 
         """
+        # The workers compute only integrals for single polynomial. Without them or for several polynomials - the common calculation
+        if self.zernpol is None:
+            return get_psf_point_r_pols(self.polynomials, self.amplitudes, r, theta, self.n_int_r_points, self.n_int_phi_points)
+        if self.__ParallelCalc is None:
+            return get_psf_point_r(self.zernpol, r, theta, self.alpha, self.n_int_r_points, self.n_int_phi_points)
         h_phi = 2.0*pi/self.n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
         if self.__ParallelCalc is not None:
             # t1 = time.perf_counter()
-- 
2.43.0


From badfb60dc3efaf323aa64b67aa398abfb66f0d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:48 +0000
Subject: [PATCH 25/26] fix: changing of the provided list with parameters
 after the initialization doesn't block compute() forever

---
 src/zernpy/utils/intmproc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 4467356..7a289ff 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -153,6 +153,7 @@ class DispenserManager():
 
         """
         if self.__initialized:
+            self.__results = [None]*len(self.__parameters_vector)  # the provided list can be changed since the last check
             computed_tasks = 0; init_step = True; indices2process = [i for i in range(len(self.__parameters_vector))]
             for parameter in self.__parameters_vector:
                 ForkingPickler.dumps(parameter)  # not pickleable parameter would be silently lost by the queue
-- 
2.43.0


From 831fe9d3d0279df48a9314720f98bb90874b7a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:51 +0000
Subject: [PATCH 26/26] fix: parallel kernel of not specified size gets the
 estimated size as the common one

---
 src/zernpy/zernpsf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 5d07348..9f3a553 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -770,6 +770,8 @@ class ZernPSF:
             return self.calculate_psf_kernel(suppress_warnings=True, normalized=normalize_values, accelerated=False)
         # Make kernel with odd sizes for precisely centering the kernel as in the common calculation
         size = self.kernel_size
+        if size < 3:  # not specified size is estimated as in the common calculation
+            size = get_kernel_size(self.zernpol, self.pixel_size, self.expansion_coeff/self.wavelength, self.wavelength, self.NA)
         if size % 2 == 0:
             size += 1
         kernel = np.zeros(shape=(size, size)); i_center = size//2; j_center = size//2
-- 
2.43.0

