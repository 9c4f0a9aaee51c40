From e287010206ca9764efe198ab10392a338873575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:22 +0000
Subject: [PATCH 01/62] Guarded simulation hooks: safepoint at every bytecode,
 GC choice at allocation (GST_SIM)

---
 libgst/interp-bc.inl | 33 +++++++++++++++++++++++++++++++++
 libgst/interp.c      | 15 +++++++++++++++
 libgst/oop.c         | 44 ++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 92 insertions(+)

diff --git a/libgst/interp-bc.inl b/libgst/interp-bc.inl
index 8819481..c026694 100644
--- a/libgst/interp-bc.inl
+++ b/libgst/interp-bc.inl
@@ -443,6 +443,26 @@ _gst_validate_method_cache_entries (void)
 
 
 
+#ifdef GST_SIM
+/* The active process goes to the end of its run queue, exactly as if a
+   process of higher priority had been woken up by an asynchronous signal
+   and had gone to sleep again at once.  */
+static void
+sim_end_turn (void)
+{
+  OOP activeOOP = get_active_process ();
+  gst_process active = (gst_process) OOP_TO_OBJ (activeOOP);
+  gst_semaphore list = (gst_semaphore)
+    OOP_TO_OBJ (ARRAY_AT (GET_PROCESS_LISTS (), TO_INT (active->priority)));
+
+  if (async_queue_enabled
+      && IS_NIL (switch_to_process)
+      && list->firstLink == activeOOP
+      && list->lastLink != activeOOP)
+    ACTIVE_PROCESS_YIELD ();
+}
+#endif
+
 OOP
 _gst_interpret (OOP processOOP)
 {
@@ -507,7 +527,12 @@ _gst_interpret (OOP processOOP)
      monitor_byte_codes.  */
   global_normal_bytecodes = normal_byte_codes;
   global_monitored_bytecodes = monitored_byte_codes;
+#ifdef GST_SIM
+  dispatch_vec = monitored_byte_codes;
+  SET_EXCEPT_FLAG (true);
+#else
   dispatch_vec = normal_byte_codes;
+#endif
 
   /* Prime the interpreter's registers.  */
   IMPORT_REGS ();
@@ -521,6 +546,14 @@ _gst_interpret (OOP processOOP)
   /* The code blocks that follow are executed in threaded-code style.  */
 
 monitor_byte_codes:
+#ifdef GST_SIM
+  if UNCOMMON (gst_sim_safepoint ())
+    sim_end_turn ();
+
+  if COMMON (!sim_except_flag)
+    FETCH_VEC (normal_byte_codes);
+#endif
+
   SET_EXCEPT_FLAG (false);
 
   /* First, deal with any async signals.  */
diff --git a/libgst/interp.c b/libgst/interp.c
index ab67daf..4d7dbe2 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -560,11 +560,26 @@ static void * const *global_monitored_bytecodes;
 static void * const *global_normal_bytecodes;
 static void * const *dispatch_vec;
 
+#ifdef GST_SIM
+/* Deterministic simulation: every bytecode is dispatched through the
+   monitored table, so that each of them is a point where the simulator
+   can deliver an event; the state of the exception flag proper is kept
+   in a separate variable, and monitor_byte_codes acts on it as usual.
+   gst_sim_safepoint answers whether the active process has to let the
+   others of its priority run.  */
+extern int gst_sim_safepoint (void);
+static volatile mst_Boolean sim_except_flag;
+#define SET_EXCEPT_FLAG(x) do { \
+  sim_except_flag = (x); \
+  __sync_synchronize (); \
+} while (0)
+#else
 #define SET_EXCEPT_FLAG(x) do { \
   dispatch_vec = (x) ? global_monitored_bytecodes : global_normal_bytecodes; \
   __sync_synchronize (); \
 } while (0)
 #endif
+#endif
 
 /* Answer an hash value for a send of the SENDSELECTOR message, when
    the CompiledMethod is found in class METHODCLASS.  */
diff --git a/libgst/oop.c b/libgst/oop.c
index 71e837a..ee081a2 100644
--- a/libgst/oop.c
+++ b/libgst/oop.c
@@ -768,6 +768,40 @@ _gst_tenure_oop (OOP oop)
 }
 
 
+#ifdef GST_SIM
+/* Deterministic simulation: any allocation can find eden (or oldspace)
+   full, so let the simulator decide which ones do.  */
+extern int gst_sim_gc_choice (size_t size);
+static int sim_no_gc;
+
+static void
+sim_maybe_gc (size_t size)
+{
+  if (sim_no_gc)
+    return;
+
+  sim_no_gc++;
+  switch (gst_sim_gc_choice (size))
+    {
+    case 1:
+      _gst_scavenge ();
+      break;
+    case 2:
+      _gst_global_gc (0);
+      break;
+    case 3:
+      _gst_global_compact ();
+      break;
+    case 4:
+      _gst_incremental_gc_step ();
+      break;
+    default:
+      break;
+    }
+  sim_no_gc--;
+}
+#endif
+
 gst_object
 _gst_alloc_obj (size_t size,
 		OOP *p_oop)
@@ -777,6 +811,10 @@ _gst_alloc_obj (size_t size,
 
   size = ROUNDED_BYTES (size);
 
+#ifdef GST_SIM
+  sim_maybe_gc (size);
+#endif
+
   /* We don't want to have allocPtr pointing to the wrong thing during
      GC, so we use a local var to hold its new value */
   newAllocPtr = _gst_mem.eden.allocPtr + BYTES_TO_SIZE (size);
@@ -1494,7 +1532,13 @@ mourn_objects (void)
   else
     {
       /* Copy the buffer into an Array */
+#ifdef GST_SIM
+      sim_no_gc++;
+#endif
       array = new_instance_with (_gst_array_class, size, &processor->gcArray);
+#ifdef GST_SIM
+      sim_no_gc--;
+#endif
       _gst_copy_buffer (array->data);
       if (!IS_NIL (processor->gcSemaphore))
         {
-- 
2.43.0


From 8d6bb06c5043e7e625f8fe0add99d6c0f121600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:52 +0000
Subject: [PATCH 02/62] fix: never switch to a process preempted in the middle
 of its own termination

highest_priority_process could pick a process that had cleared its
suspendedContext in Process>>#primTerminate and had been preempted just
before suspending itself; activating it crashed the VM.
---
 libgst/interp.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libgst/interp.c b/libgst/interp.c
index 4d7dbe2..d53265f 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -1950,7 +1950,7 @@ highest_priority_process (void)
   for (; priority > 0; priority--)
     {
       processListOOP = ARRAY_AT (processLists, priority);
-      if (!is_empty (processListOOP))
+      while (!is_empty (processListOOP))
 	{
 	  processOOP = remove_first_link (processListOOP);
 	  if (processOOP == get_scheduled_process ())
@@ -1962,12 +1962,15 @@ highest_priority_process (void)
 	         priority.  */
 	      processList = (gst_semaphore) OOP_TO_OBJ (processListOOP);
 	      if (processList->firstLink == processList->lastLink)
-		continue;
+		break;
 
 	      processOOP = remove_first_link (processListOOP);
 	    }
 
-	  return (processOOP);
+	  /* A process that was preempted in the middle of Process>>#primTerminate
+	     has no context to go back to.  Forget about it.  */
+	  if (!is_process_terminating (processOOP))
+	    return (processOOP);
 	}
     }
   return (_gst_nil_oop);
-- 
2.43.0


From 94af150e30a3428e19b84093f4bbfeefab7273e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:52 +0000
Subject: [PATCH 03/62] fix: lowering the priority of the active process lets
 higher-priority ones preempt it

Process>>#priority: relies on resume_process to do so, but for the active
process it only moved it to the new run queue and kept running it.
---
 libgst/interp.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/libgst/interp.c b/libgst/interp.c
index d53265f..3072582 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -1820,6 +1820,26 @@ resume_process (OOP processOOP,
          Anyway, it must be the first in its priority queue - so don't
          put it to sleep.  */
       add_first_link (processList, processOOP);
+
+      /* The active process lowered its own priority: let a process that
+         was ready at a higher one preempt it.  */
+      if (processOOP == activeOOP)
+	{
+	  int i;
+	  for (i = NUM_OOPS (OOP_TO_OBJ (processLists)); i > priority; i--)
+	    {
+	      processList = ARRAY_AT (processLists, i);
+	      while (!is_empty (processList))
+		{
+		  OOP higherOOP = remove_first_link (processList);
+		  if (!is_process_terminating (higherOOP))
+		    {
+		      activate_process (higherOOP);
+		      return (true);
+		    }
+		}
+	    }
+	}
     }
 
   return (true);
-- 
2.43.0


From d6e3b5fda42ca2ee48f40d8ab276b08facd07162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:01 +0000
Subject: [PATCH 04/62] fix: keep finalizable objects that were waiting when
 another collection finds more

---
 libgst/oop.c | 58 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/libgst/oop.c b/libgst/oop.c
index ee081a2..6798f1c 100644
--- a/libgst/oop.c
+++ b/libgst/oop.c
@@ -1516,46 +1516,52 @@ void
 mourn_objects (void)
 {
   gst_object array;
-  long size;
+  OOP arrayOOP;
+  long size, oldSize;
   gst_processor_scheduler processor;
 
   size = _gst_buffer_size () / sizeof (OOP);
   if (!size)
     return;
 
+  /* If the finalizers have not had a chance to run since the last
+     collection, keep the objects that are already waiting.  */
   processor = (gst_processor_scheduler) OOP_TO_OBJ (_gst_processor_oop);
-  if (!IS_NIL (processor->gcArray))
-    {
-      _gst_errorf ("Too many garbage collections, finalizers missed!");
-      _gst_errorf ("This is a bug, please report.");
-    }
-  else
-    {
-      /* Copy the buffer into an Array */
+  oldSize = IS_NIL (processor->gcArray)
+    ? 0 : NUM_OOPS (OOP_TO_OBJ (processor->gcArray));
+
+  /* Copy the buffer into an Array */
 #ifdef GST_SIM
-      sim_no_gc++;
+  sim_no_gc++;
 #endif
-      array = new_instance_with (_gst_array_class, size, &processor->gcArray);
+  array = new_instance_with (_gst_array_class, oldSize + size, &arrayOOP);
 #ifdef GST_SIM
-      sim_no_gc--;
+  sim_no_gc--;
 #endif
-      _gst_copy_buffer (array->data);
-      if (!IS_NIL (processor->gcSemaphore))
-        {
-          static async_queue_entry e;
-          e.func = _gst_do_async_signal;
-          e.data = processor->gcSemaphore;
-          _gst_async_call_internal (&e);
-        }
-      else
-	{
-	  _gst_errorf ("Running finalizers before initialization.");
-	  abort ();
-	}
+  processor = (gst_processor_scheduler) OOP_TO_OBJ (_gst_processor_oop);
+  if (oldSize)
+    memcpy (array->data, OOP_TO_OBJ (processor->gcArray)->data,
+	    oldSize * sizeof (OOP));
+  _gst_copy_buffer (array->data + oldSize);
+  processor->gcArray = arrayOOP;
+  if (oldSize)
+    return;
+
+  if (!IS_NIL (processor->gcSemaphore))
+    {
+      static async_queue_entry e;
+      e.func = _gst_do_async_signal;
+      e.data = processor->gcSemaphore;
+      _gst_async_call_internal (&e);
+    }
+  else
+    {
+      _gst_errorf ("Running finalizers before initialization.");
+      abort ();
     }
 }
 
-
+
 #define IS_QUEUE_SPLIT(q) ((q)->topPtr != (q)->allocPtr)
 
 OOP *
-- 
2.43.0


From 4c7d967114d7b678ce44c115f4bb1c7f4e459edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:28 +0000
Subject: [PATCH 05/62] fix: waitAfterSignalling: makes the calling process
 wait, not the one that the signal activated

---
 libgst/prims.def | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 98b34e1..7e36f5c 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -2908,13 +2908,16 @@ primitive VMpr_Semaphore_wait [succeed,check_interrupt]
 /* Semaphore waitAfterSignalling: aSemaphore */
 primitive VMpr_Semaphore_waitAfterSignalling [succeed,check_interrupt]
 {
-  OOP oop1, oop2;
+  OOP oop1, oop2, processOOP;
   _gst_primitives_executed++;
 
+  /* The signal can make another process active, but it is the current
+     one that has to wait.  */
+  processOOP = get_active_process ();
   oop2 = POP_OOP ();
   oop1 = STACKTOP ();
   _gst_sync_signal (oop2, true);
-  _gst_sync_wait (oop1);
+  sync_wait_process (oop1, processOOP);
   PRIM_SUCCEEDED;
 }
 
-- 
2.43.0


From d9ee931ce7311ae8ac6999d7c206e9eed16fcd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:28 +0000
Subject: [PATCH 06/62] fix: infinite recursion in Delay
 class>>untilMilliseconds:

---
 kernel/Delay.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Delay.st b/kernel/Delay.st
index ceeedfd..b75e7e5 100644
--- a/kernel/Delay.st
+++ b/kernel/Delay.st
@@ -81,7 +81,7 @@ created.'>
         "Answer a Delay waiting until millisecondCount milliseconds after startup"
 
         <category: 'instance creation'>
-        ^self untilMilliseconds: millisecondCount * 1000000
+        ^self untilNanoseconds: millisecondCount * 1000000
     ]
 
     Delay class >> activeDelay [
-- 
2.43.0


From 94698cc856df91484b2c39e6b69dba182264dc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:59 +0000
Subject: [PATCH 07/62] fix: races between delays and the processes that wait
 on them

---
 kernel/Delay.st | 69 +++++++++++++++++++++++++++++++------------------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/kernel/Delay.st b/kernel/Delay.st
index b75e7e5..f773fa2 100644
--- a/kernel/Delay.st
+++ b/kernel/Delay.st
@@ -48,6 +48,8 @@ created.'>
     DelayProcess := nil.
     IdleProcess := nil.
     TimeoutSem := nil.
+    RequestSem := nil.
+    LateDelays := nil.
 
     Delay class >> forNanoseconds: nanosecondCount [
         "Answer a Delay waiting for nanosecondCount nanoseconds"
@@ -100,30 +102,36 @@ created.'>
 
 	<category: 'timer process'>
 
-	| nextTick activeDelay |
+	| nextTick activeDelay request |
 
-	"Wait until there is work to do."
+	"Wait until there is work to do, then reset the timing semaphore so that only
+	 new work will wake us up again.  Processes that are not preempted by this one
+	 can produce new work at any time, so do this before looking for it."
 	TimeoutSem wait.
+	TimeoutSem initialize.
 
 	"Process any schedule/unschedule requests"
-	DelayRequestor isNil ifFalse: 
+	[request := DelayRequestor.
+	request notNil] whileTrue: 
 		["Schedule the given delay"
-		DelayRequestor isActive
-		    ifTrue: [ self scheduleDelay: DelayRequestor ]
-		    ifFalse: [ self unscheduleDelay: DelayRequestor ].
-		DelayRequestor := nil].
+		request isActive
+		    ifTrue: [ self scheduleDelay: request ]
+		    ifFalse: [ self unscheduleDelay: request ].
+		DelayRequestor == request ifTrue: [ DelayRequestor := nil ].
+		RequestSem notifyAll].
 
 	"Signal any expired delays"
 	[activeDelay := self activeDelay.
         activeDelay notNil and: [Time nanosecondClockValue >= activeDelay resumptionTime]] 
 	    whileTrue: 
-		[activeDelay signal.
-		self unscheduleDelay: activeDelay].
+		[self unscheduleDelay: activeDelay.
+		activeDelay signal.
+		activeDelay isActive ifTrue: [LateDelays add: activeDelay]].
 
-	"Since we have processed all outstanding requests, reset the timing semaphore so
-	 that only new work will wake us up again. Do this RIGHT BEFORE setting the next
-	 wakeup call from the VM because it is only signaled once so we mustn't miss it."
-	TimeoutSem initialize.
+	"Try again the ones whose process had not started to wait."
+	LateDelays isEmpty ifFalse: 
+		[LateDelays do: [:each | each signal].
+		LateDelays := LateDelays select: [:each | each isActive]].
 
 	"And signal when the next request is due."
         activeDelay isNil ifFalse: [
@@ -174,7 +182,9 @@ created.'>
 	"This semaphore does not protect Queue (which is only manipulated within
 	 one process for thread-safety, but rather DelayRequestor)."
 	MutexSem := Semaphore forMutualExclusion.
+	RequestSem := Semaphore new.
 	DelayRequestor := nil.
+	LateDelays := OrderedCollection new.
 
 	"A sorted collection of delay->semaphore associations."
 	Queue := SortedCollection
@@ -218,16 +228,22 @@ created.'>
 
     notifyChange [
 	"Private - Notify the Delay process of a change in the active/inactive
-         state of this Delay.  Return immediately."
+         state of this Delay.  Return as soon as it has seen the change,
+         which is immediately unless the active process has the same or a
+         higher priority."
 
 	<category: 'private'>
 	MutexSem critical: 
 		[DelayRequestor := self.
-		TimeoutSem signal].
+		TimeoutSem signal.
+		[DelayRequestor == self] 
+		    whileTrue: [RequestSem waitAfterSignalling: TimeoutSem]].
     ]
 
     signal [
-        "Wake the process that is waiting on this delay."
+        "Wake the process that is waiting on this delay.  If it is in
+         #timedWaitOn: but is not waiting -- not yet, or not anymore --
+         leave the delay active."
 	<category: 'private'>
         | sema process |
         waitingProcess isNil
@@ -237,8 +253,9 @@ created.'>
                 sema isNil ifFalse: [sema signal]]
             ifFalse: [
                 process := waitingProcess.
-                waitingProcess := nil.
-                process isNil ifFalse: [process suspend; resume]].
+                (process notNil and: [process isWaiting]) ifTrue: [
+                    waitingProcess := nil.
+                    process suspend; resume]].
     ]
 
     isActive [
@@ -259,8 +276,9 @@ created.'>
         waitingProcess := Processor activeProcess.
         self notifyChange.
 
-        "This can already signal the semaphore!"
-        waitingProcess == nil ifFalse: [expired := aSemaphore wait]] ensure: [
+        "The time might be already over, but the delay process can only
+         interrupt a wait that has begun.  So make it look again then."
+        expired := aSemaphore waitAfterSignalling: TimeoutSem] ensure: [
             waitingProcess == nil ifFalse: [waitingProcess := nil. self notifyChange]].
 
         "#reset will have been called by #unscheduleDelay:, either through
@@ -276,13 +294,14 @@ created.'>
 	 suspended for the amount of time specified when this Delay was created."
 
 	<category: 'delaying'>
+        | sema |
         self isActive ifTrue: [self error: 'delay already in use'].
 	[self start.
-        delaySemaphore := Semaphore new.
+        sema := delaySemaphore := Semaphore new.
         self notifyChange.
 
-        "This can already signal the semaphore!"
-        delaySemaphore == nil ifFalse: [delaySemaphore wait]] ensure: [
+        "This can already signal the semaphore, and clear delaySemaphore!"
+        sema wait] ensure: [
             delaySemaphore == nil ifFalse: [delaySemaphore := nil. self notifyChange]].
 
         "#reset will have been called by #unscheduleDelay:, either through
@@ -329,8 +348,8 @@ created.'>
     start [
         "Prepare to wait on the delay."
 	<category: 'private'>
-	resumptionTime isNil
-	    ifTrue: [ resumptionTime := Time nanosecondClockValue + delayDuration ].
+	delayDuration isNil
+	    ifFalse: [ resumptionTime := Time nanosecondClockValue + delayDuration ].
     ]
 
     reset [
-- 
2.43.0


From f65b4bf48c52d907b6fae33857365104c7d0b377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:24 +0000
Subject: [PATCH 08/62] fix: exceptions signalled by an interrupt just when a
 protected block is being entered

---
 kernel/BlkClosure.st | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kernel/BlkClosure.st b/kernel/BlkClosure.st
index 7f79ab4..dbe333d 100644
--- a/kernel/BlkClosure.st
+++ b/kernel/BlkClosure.st
@@ -59,7 +59,10 @@ creation of Processes from blocks.'>
 	activeHandlers := context at: context numArgs + 1.
 	context at: context numArgs + 1 put: -1.
 	nested := activeHandlers = -1.
-	nested 
+
+	"An interrupt can come even before the protected block is entered and
+	 the variable is initialized.  The handlers are not yet there, then."
+	(nested or: [activeHandlers isNil])
 	    ifFalse: 
 		[1 to: context numArgs - 1
 		    by: 2
-- 
2.43.0


From cf5e47a3fd54f3c935e6e8d177ecaedac878c504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:20 +0000
Subject: [PATCH 09/62] fix: a process terminated twice while waiting does not
 wait again

---
 kernel/Process.st | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/kernel/Process.st b/kernel/Process.st
index 652b841..6e4a5d7 100644
--- a/kernel/Process.st
+++ b/kernel/Process.st
@@ -329,16 +329,13 @@ can suspend themselves and resume themselves however they wish.'>
     ]
 
     evaluate: aBlock ifNotTerminated: unwindBlock [
+	"Do not use unwind blocks or handlers here: another termination might
+	 unwind this context, even before they are in place, and unwindBlock
+	 can wait forever."
+
 	<category: 'private'>
-	| terminated |
-	terminated := false.
-	
-	[aBlock on: SystemExceptions.ProcessBeingTerminated
-	    do: 
-		[:sig | 
-		terminated := true.
-		sig pass]] 
-		ensure: [terminated ifFalse: [unwindBlock value]]
+	aBlock value.
+	unwindBlock value
     ]
 
     environment [
-- 
2.43.0


From ccb1d00ac018f132deed8c876a77ef1dcac1af5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:20 +0000
Subject: [PATCH 10/62] fix: interrupts stay disabled when a process that
 disabled them is resumed

---
 libgst/interp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/interp.c b/libgst/interp.c
index 3072582..6b90457 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -1336,7 +1336,7 @@ change_process_context (OOP newProcess)
       processor->activeProcess = newProcess;
       process = (gst_process) OOP_TO_OBJ (newProcess);
       enable_async_queue = IS_NIL (process->interrupts)
-		           || TO_INT (process->interrupts) >= 0;
+		           || TO_INT (process->interrupts) <= 0;
 
       resume_suspended_context (process->suspendedContext);
 
-- 
2.43.0


From 5be3253e60d6cc5822b064d42ac2221ab116321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:20 +0000
Subject: [PATCH 11/62] fix: the end of a time slice does not preempt a process
 that disabled interrupts

---
 libgst/interp-bc.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/interp-bc.inl b/libgst/interp-bc.inl
index c026694..396d668 100644
--- a/libgst/interp-bc.inl
+++ b/libgst/interp-bc.inl
@@ -560,7 +560,7 @@ monitor_byte_codes:
   if (async_queue_enabled)
     empty_async_queue ();
 
-  if UNCOMMON (time_to_preempt)
+  if UNCOMMON (time_to_preempt && async_queue_enabled)
     ACTIVE_PROCESS_YIELD ();
 
   if UNCOMMON (!IS_NIL (switch_to_process))
-- 
2.43.0


From 6936fb76311747e7b69228c2598d6e1085478e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:20 +0000
Subject: [PATCH 12/62] fix: Process>>terminate does not fail if the process
 terminates in the meanwhile

---
 kernel/Process.st | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kernel/Process.st b/kernel/Process.st
index 6e4a5d7..7a240e8 100644
--- a/kernel/Process.st
+++ b/kernel/Process.st
@@ -126,10 +126,12 @@ can suspend themselves and resume themselves however they wish.'>
 	Processor activeProcess == self 
 	    ifFalse: 
 		[semaphore := self isWaiting ifTrue: [myList].
-		self queueInterrupt:
+		[self queueInterrupt:
 		    [SystemExceptions.ProcessBeingTerminated new
 			semaphore: semaphore;
-			signal].
+			signal]]
+			on: SystemExceptions.ProcessTerminated
+			do: [:sig | sig return].
 		^self]] 
 		valueWithoutPreemption.
 	SystemExceptions.ProcessBeingTerminated signal
-- 
2.43.0


From 0cfc50c16bd73c64e640c3a62669f39c5a1c562f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:19 +0000
Subject: [PATCH 13/62] fix: asynchronous signals queued while interrupts are
 disabled are processed after a process switch

---
 libgst/interp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libgst/interp.c b/libgst/interp.c
index 6b90457..a040649 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -1357,6 +1357,10 @@ change_process_context (OOP newProcess)
 
       async_queue_enabled = enable_async_queue;
     }
+
+  /* Process the calls that were queued in the meanwhile.  */
+  if (async_queue_enabled && _gst_have_pending_async_calls ())
+    SET_EXCEPT_FLAG (true);
 }
 
 void
-- 
2.43.0


From 3b45f2f46b94e24c082379c01e2dcce470ac724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:19 +0000
Subject: [PATCH 14/62] fix: asynchronous signal to a process that is about to
 be switched out

---
 libgst/interp-bc.inl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libgst/interp-bc.inl b/libgst/interp-bc.inl
index 396d668..2e329c2 100644
--- a/libgst/interp-bc.inl
+++ b/libgst/interp-bc.inl
@@ -556,8 +556,11 @@ monitor_byte_codes:
 
   SET_EXCEPT_FLAG (false);
 
-  /* First, deal with any async signals.  */
-  if (async_queue_enabled)
+  /* First, deal with any async signals.  If a process switch is pending,
+     however, the context of the active process was not saved, and a signal
+     on the semaphore that it has just started waiting on would be stored in
+     an old context.  change_process_context will set the flag again.  */
+  if (async_queue_enabled && IS_NIL (switch_to_process))
     empty_async_queue ();
 
   if UNCOMMON (time_to_preempt && async_queue_enabled)
-- 
2.43.0


From 0d0b098efcc40ac0613f0a784b5aadfe4e31cc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:03 +0000
Subject: [PATCH 15/62] fix: a process terminated while entering or leaving
 Semaphore>>critical: leaves the semaphore free

---
 kernel/Semaphore.st | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/kernel/Semaphore.st b/kernel/Semaphore.st
index 5b2755c..6a4a874 100644
--- a/kernel/Semaphore.st
+++ b/kernel/Semaphore.st
@@ -57,21 +57,30 @@ I also provide some methods for implementing critical sections.'>
 	"Look out for race conditions!"
 
 	<category: 'mutual exclusion'>
-	| ownedSem c |
-	^[
-	    "With a little help from the VM we can easily ascertain
-             whether we did get a signal.  It is still necessary to
-             trap process termination however, because if we did
-             simply `ownedSem := self wait' we might be terminated
-             after the wait has ended, and yet before the variable
-             is assigned.  Pushing self and sending #wait is atomic
-             thanks to superoperators."
-            c := #(nil).
-            ownedSem := [c := thisContext. self wait]
-                on: ProcessBeingTerminated
-                do: [:ex | ownedSem := c at: 1. ex pass].
-            ownedSem == self ifTrue: [aBlock value]]
-		ensure: [ownedSem == self ifTrue: [self signal]]
+	| ownedSem signaledSem waitContext signalContext release |
+	waitContext := signalContext := #(nil).
+
+	"With a little help from the VM we can easily ascertain whether we
+	 did get a signal.  However, we might be terminated after the wait
+	 has ended, and yet before the variable is assigned; or after the
+	 signal has been sent, but before we can take note of that.  So, the
+	 unwind block looks for the result of #wait and #signal on the stack
+	 of the context that sent them.  Pushing self and sending the message
+	 is atomic thanks to superoperators, as long as they are the first
+	 bytecodes of a basic block and do not start a new line."
+	release := [
+	    ownedSem isNil ifTrue: [ownedSem := waitContext at: 1].
+	    signaledSem isNil ifTrue: [signaledSem := signalContext at: 1].
+	    (ownedSem == self and: [signaledSem ~~ self]) ifTrue: [
+		signaledSem := (signalContext := thisContext) isNil ifFalse: [self signal]]].
+
+	"The process can be terminated while it is evaluating the unwind
+	 block, too.  That's what the outer #ensure: is for."
+	^[[
+	    ownedSem := (waitContext := thisContext) isNil ifFalse: [self wait].
+	    ownedSem == self ifTrue: [aBlock value]]
+		ensure: release]
+		    ensure: release
     ]
 
     name [
-- 
2.43.0


From 538200c01e482bc109b66f0bc740894341735408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:03 +0000
Subject: [PATCH 16/62] fix: the result of a wait interrupted by
 Process>>queueInterrupt: is that of the new wait

---
 kernel/Process.st | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/kernel/Process.st b/kernel/Process.st
index 7a240e8..711e9bd 100644
--- a/kernel/Process.st
+++ b/kernel/Process.st
@@ -315,17 +315,20 @@ can suspend themselves and resume themselves however they wish.'>
 		[
 		    semaphore := myList.
 		    suspended := self isReady not.
-		    block := suspended
-			    ifFalse:
-				    [self suspend.
-				    aBlock]
-			    ifTrue: 
-				    [
-                                      semaphore isNil
-				            ifTrue: [ [ self evaluate: aBlock ifNotTerminated: [ self suspend ] ] ]
-				            ifFalse: [ [ self evaluate: aBlock ifNotTerminated: [ semaphore wait ] ] ]
-                                    ].
-		    suspendedContext := block asContext: suspendedContext.
+		    suspended ifFalse: [self suspend].
+		    suspendedContext := (suspended and: [semaphore notNil])
+			ifTrue: [
+			    "Unlike what #asContext: does, replace the result of
+			     the #wait that was interrupted with that of the
+			     new one."
+			    BlockContext
+				fromClosure: [ self evaluate: aBlock ifNotTerminated: [ semaphore wait ] ]
+				parent: suspendedContext ]
+			ifFalse: [
+			    block := suspended
+				ifTrue: [ [ self evaluate: aBlock ifNotTerminated: [ self suspend ] ] ]
+				ifFalse: [ aBlock ].
+			    block asContext: suspendedContext ].
 		    self resume
 		] valueWithoutPreemption ]
     ]
@@ -337,7 +340,7 @@ can suspend themselves and resume themselves however they wish.'>
 
 	<category: 'private'>
 	aBlock value.
-	unwindBlock value
+	^unwindBlock value
     ]
 
     environment [
-- 
2.43.0


From ffda3863242c608f6f80778c822c777b590be18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:03 +0000
Subject: [PATCH 17/62] fix: do not interrupt Process>>primTerminate with
 another termination

---
 kernel/Process.st | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kernel/Process.st b/kernel/Process.st
index 711e9bd..74a93a8 100644
--- a/kernel/Process.st
+++ b/kernel/Process.st
@@ -402,7 +402,12 @@ can suspend themselves and resume themselves however they wish.'>
 			     is done properly."
 
 			    sig return]] 
-			ensure: [self primTerminate]].
+			ensure: [
+			    "We are terminating already, do not let another
+			     termination stop #primTerminate halfway."
+			    [self primTerminate]
+				on: SystemExceptions.ProcessBeingTerminated
+				do: [:sig | sig resume: nil]]].
 
 	"Start the Process immediately so that we get into the
 	 #on:do: handler.  Otherwise, we will not be able to
-- 
2.43.0


From 044a225a599933df29fd40cc70b7b3977c3176cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:20 +0000
Subject: [PATCH 18/62] fix: the end of a time slice does not let processes of
 lower priority run

---
 libgst/interp-bc.inl  |  2 +-
 libgst/interp-jit.inl |  2 +-
 libgst/interp.c       | 28 ++++++++++++++++++++++++++++
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/libgst/interp-bc.inl b/libgst/interp-bc.inl
index 2e329c2..70457a7 100644
--- a/libgst/interp-bc.inl
+++ b/libgst/interp-bc.inl
@@ -564,7 +564,7 @@ monitor_byte_codes:
     empty_async_queue ();
 
   if UNCOMMON (time_to_preempt && async_queue_enabled)
-    ACTIVE_PROCESS_YIELD ();
+    end_time_slice ();
 
   if UNCOMMON (!IS_NIL (switch_to_process))
     {
diff --git a/libgst/interp-jit.inl b/libgst/interp-jit.inl
index b74f3ef..30c3489 100644
--- a/libgst/interp-jit.inl
+++ b/libgst/interp-jit.inl
@@ -426,7 +426,7 @@ _gst_interpret (OOP processOOP)
 	  }
 
         else if UNCOMMON (time_to_preempt)
-	  ACTIVE_PROCESS_YIELD ();
+	  end_time_slice ();
 
         if (is_process_terminating (processOOP))
           break;
diff --git a/libgst/interp.c b/libgst/interp.c
index a040649..466fc86 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -347,6 +347,9 @@ static void sleep_process (OOP processOOP);
 /* Yield control from the active process.  */
 static void active_process_yield (void);
 
+/* Let the next ready process of the same priority run, if there is one.  */
+static void end_time_slice (void);
+
 /* Sets flags so that the interpreter switches to PROCESSOOP at the
    next sequence point.  Unless PROCESSOOP is already active, in which
    case nothing happens, the process is made the head of the list of
@@ -1535,6 +1538,31 @@ active_process_yield (void)
   activate_process (IS_NIL (newProcess) ? activeProcess : newProcess);
 }
 
+void
+end_time_slice (void)
+{
+  OOP activeOOP = get_active_process ();
+  gst_process active = (gst_process) OOP_TO_OBJ (activeOOP);
+  OOP processListOOP = ARRAY_AT (GET_PROCESS_LISTS (),
+				 TO_INT (active->priority));
+  OOP processOOP;
+
+  /* Unlike active_process_yield, do not look at the lower priorities:
+     those processes only run if the active one gives up the CPU.  */
+  if (!IS_NIL (switch_to_process) || !is_process_ready (activeOOP))
+    return;
+
+  sleep_process (activeOOP);
+  do
+    processOOP = remove_first_link (processListOOP);
+  while (processOOP != activeOOP && is_process_terminating (processOOP));
+
+  if (processOOP == activeOOP)
+    add_first_link (processListOOP, activeOOP);
+  else
+    activate_process (processOOP);
+}
+
 
 mst_Boolean
 _gst_sync_signal (OOP semaphoreOOP, mst_Boolean incr_if_empty)
-- 
2.43.0


From 3d7a01e2a109b17334a41caa61571b555733d3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:20 +0000
Subject: [PATCH 19/62] Simulation hooks: end a turn as the end of a time slice
 does

---
 libgst/interp-bc.inl | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/libgst/interp-bc.inl b/libgst/interp-bc.inl
index 70457a7..cd8348e 100644
--- a/libgst/interp-bc.inl
+++ b/libgst/interp-bc.inl
@@ -450,16 +450,8 @@ _gst_validate_method_cache_entries (void)
 static void
 sim_end_turn (void)
 {
-  OOP activeOOP = get_active_process ();
-  gst_process active = (gst_process) OOP_TO_OBJ (activeOOP);
-  gst_semaphore list = (gst_semaphore)
-    OOP_TO_OBJ (ARRAY_AT (GET_PROCESS_LISTS (), TO_INT (active->priority)));
-
-  if (async_queue_enabled
-      && IS_NIL (switch_to_process)
-      && list->firstLink == activeOOP
-      && list->lastLink != activeOOP)
-    ACTIVE_PROCESS_YIELD ();
+  if (async_queue_enabled)
+    end_time_slice ();
 }
 #endif
 
-- 
2.43.0


From 7ff21f85037f69f5738f8de348c23ffa9b5d0b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 20/62] fix: leaving an enclosing handler after #outer or #pass
 returns from its own #on:do:

As documented, falling off the end of a handler is the same as #return:, and
resuming an exception that was passed resumes the code that signaled it.
---
 kernel/ExcHandling.st | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/kernel/ExcHandling.st b/kernel/ExcHandling.st
index 5cc65dc..11e6b0a 100644
--- a/kernel/ExcHandling.st
+++ b/kernel/ExcHandling.st
@@ -251,7 +251,7 @@ handler with a lower priority.'>
 
         <category: 'exception signaling'>
         self instantiateNextHandlerFrom: thisContext.
-        ^self activateHandler: (onDoBlock isNil and: [ self isResumable ])
+        ^self activateHandler: self isUnhandledAndResumable
     ]
 
     signal: messageText [
@@ -368,7 +368,7 @@ handler with a lower priority.'>
 	signal := self copy.
 	signal isNested: true.
         signal instantiateNextHandlerFrom: self context.
-        ^signal activateHandler: true
+        ^signal activateHandler: signal isUnhandledAndResumable
     ]
 
     pass [
@@ -378,11 +378,15 @@ handler with a lower priority.'>
 
 	<category: 'exception handling'>
 	<exceptionHandlingInternal: false>
-	| signal |
+	| signal value |
 	signal := self copy.
 	signal isNested: true.
         signal instantiateNextHandlerFrom: self context.
-        ^self return: (signal activateHandler: true)
+
+        "This only returns if the enclosing action resumes."
+        value := signal activateHandler: signal isUnhandledAndResumable.
+        self resetHandler.
+        resumeBlock value: value
     ]
 
     resignalAsUnhandled: message [
@@ -520,6 +524,14 @@ handler with a lower priority.'>
 	context parentContext continue: result
     ]
 
+    isUnhandledAndResumable [
+	"Answer whether the default action of the exception answers
+	 the value of #signal when it ends."
+
+	<category: 'private'>
+	^onDoBlock isNil and: [self isResumable]
+    ]
+
     isNested: aBoolean [
 	"Set the receiver's isNested instance variable."
 
-- 
2.43.0


From 455fbb08db18c9668bc83e8dff237362ccbdcc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 21/62] fix: timeouts of Delay>>timedWaitOn: and
 value:onTimeoutDo:

A timeout could reach its process after the block had ended, or be taken for
that of an enclosing call whose delay has the same duration; a delay that
expired while its process was not yet waiting could interrupt another wait,
and the notification of the delay process could be lost.
---
 kernel/Delay.st     | 76 +++++++++++++++++++++++++++------------------
 kernel/Process.st   |  7 +++++
 kernel/SysExcept.st |  7 +----
 3 files changed, 53 insertions(+), 37 deletions(-)

diff --git a/kernel/Delay.st b/kernel/Delay.st
index f773fa2..73a4d6a 100644
--- a/kernel/Delay.st
+++ b/kernel/Delay.st
@@ -118,20 +118,18 @@ created.'>
 		    ifTrue: [ self scheduleDelay: request ]
 		    ifFalse: [ self unscheduleDelay: request ].
 		DelayRequestor == request ifTrue: [ DelayRequestor := nil ].
-		RequestSem notifyAll].
+		RequestSem signal].
 
 	"Signal any expired delays"
 	[activeDelay := self activeDelay.
         activeDelay notNil and: [Time nanosecondClockValue >= activeDelay resumptionTime]] 
 	    whileTrue: 
 		[self unscheduleDelay: activeDelay.
-		activeDelay signal.
-		activeDelay isActive ifTrue: [LateDelays add: activeDelay]].
+		activeDelay signal ifFalse: [LateDelays add: activeDelay]].
 
 	"Try again the ones whose process had not started to wait."
 	LateDelays isEmpty ifFalse: 
-		[LateDelays do: [:each | each signal].
-		LateDelays := LateDelays select: [:each | each isActive]].
+		[LateDelays := LateDelays reject: [:each | each signal]].
 
 	"And signal when the next request is due."
         activeDelay isNil ifFalse: [
@@ -159,10 +157,11 @@ created.'>
 
     Delay class >> unscheduleDelay: aDelay [
 	"Private - Unschedule this Delay.  Run in the timer process, which
-	 is the only one that manipulates Queue."
+	 is the only one that manipulates Queue and LateDelays."
 
 	<category: 'timer process'>
         | activeDelay |
+	LateDelays identityRemove: aDelay ifAbsent: [].
 	activeDelay := self activeDelay.
 	activeDelay isNil ifTrue: [^self].
 	activeDelay == aDelay
@@ -234,28 +233,31 @@ created.'>
 
 	<category: 'private'>
 	MutexSem critical: 
-		[DelayRequestor := self.
+		[RequestSem initialize.
+		DelayRequestor := self.
 		TimeoutSem signal.
-		[DelayRequestor == self] 
-		    whileTrue: [RequestSem waitAfterSignalling: TimeoutSem]].
+		[DelayRequestor == self] whileTrue: [RequestSem wait]].
     ]
 
     signal [
         "Wake the process that is waiting on this delay.  If it is in
-         #timedWaitOn: but is not waiting -- not yet, or not anymore --
-         leave the delay active."
+         #timedWaitOn: but is not waiting on the semaphore -- not yet,
+         or not anymore -- leave the delay active and answer false."
 	<category: 'private'>
         | sema process |
-        waitingProcess isNil
+        process := waitingProcess.
+        sema := delaySemaphore.
+        sema isNil ifTrue: [^true].
+        process isNil
             ifTrue: [
-	        sema := delaySemaphore.
 	        delaySemaphore := nil.
-                sema isNil ifFalse: [sema signal]]
+                sema signal]
             ifFalse: [
-                process := waitingProcess.
-                (process notNil and: [process isWaiting]) ifTrue: [
-                    waitingProcess := nil.
-                    process suspend; resume]].
+                (process isWaitingOn: sema) ifFalse: [^false].
+                delaySemaphore := nil.
+                waitingProcess := nil.
+                process suspend; resume].
+        ^true
     ]
 
     isActive [
@@ -274,12 +276,17 @@ created.'>
         self isActive ifTrue: [self error: 'delay already in use'].
 	[self start.
         waitingProcess := Processor activeProcess.
+        delaySemaphore := aSemaphore.
         self notifyChange.
 
         "The time might be already over, but the delay process can only
          interrupt a wait that has begun.  So make it look again then."
         expired := aSemaphore waitAfterSignalling: TimeoutSem] ensure: [
-            waitingProcess == nil ifFalse: [waitingProcess := nil. self notifyChange]].
+            waitingProcess == nil ifFalse: [
+                "Without a process, the delay process would signal the semaphore."
+                delaySemaphore := nil.
+                waitingProcess := nil.
+                self notifyChange]].
 
         "#reset will have been called by #unscheduleDelay:, either through
          the second call to #notifyChange, or because the timeout fired.
@@ -321,20 +328,27 @@ created.'>
             "Remember the current process"
             proc := Processor activeProcess.
 
-            "Start a process to wait in and then signal"
             [
-                Processor activeProcess name: 'Delay>>#value:onTimeoutDo:'.
-
-                "Wait and see if it is timed out. If so send a signal."
-                (self timedWaitOn: sem) ifTrue: [
-                   timeout = 0 ifTrue: [
-                       proc signalInterrupt: (Kernel.TimeoutNotification on: self)].
-                ].
-            ] fork.
-
-            aBlock ensure: [timeout := timeout bitOr: 1. sem signal].
+                "Start a process to wait in and then signal"
+                [
+                    Processor activeProcess name: 'Delay>>#value:onTimeoutDo:'.
+
+                    "Wait and see if it is timed out. If so send a signal."
+                    "It is proc that looks at timeout, so that it cannot end
+                     the block in the meanwhile."
+                    (self timedWaitOn: sem) ifTrue: [
+                       [proc queueInterrupt: [
+                           timeout = 0 ifTrue: [
+                               (Kernel.TimeoutNotification on: self) signal]]]
+                                   on: SystemExceptions.ProcessTerminated
+                                   do: [:e | e return]
+                    ].
+                ] fork.
+
+                aBlock value
+            ] ensure: [timeout := timeout bitOr: 1. sem signal].
         ] on: Kernel.TimeoutNotification do: [:e |
-            e delay = self
+            e delay == self
                 ifTrue:  [timeout := timeout bitOr: 2]
                 ifFalse: [e pass].
         ].
diff --git a/kernel/Process.st b/kernel/Process.st
index 74a93a8..c04c6ac 100644
--- a/kernel/Process.st
+++ b/kernel/Process.st
@@ -456,6 +456,13 @@ can suspend themselves and resume themselves however they wish.'>
 	^self isReady not & self isSuspended not
     ]
 
+    isWaitingOn: aSemaphore [
+	"Answer whether the receiver is waiting on aSemaphore"
+
+	<category: 'private'>
+	^myList == aSemaphore
+    ]
+
     singleStepWaitingOn: aSemaphore [
 	"Execute a limited amount of code (usually a bytecode, or up to the
 	 next backward jump, or up to the next message send) of the receiver,
diff --git a/kernel/SysExcept.st b/kernel/SysExcept.st
index 1adcb6f..c32fb4c 100644
--- a/kernel/SysExcept.st
+++ b/kernel/SysExcept.st
@@ -1355,13 +1355,8 @@ to an end.'>
         ^ delay
     ]
 
-    isResumable [
-        <category: 'private'>
-        ^ false
-    ]
-
     defaultAction [
-	"We are not resumable, so do nothing.  This should really never happen."
+	"The block is being unwound already, because of another timeout."
 
 	<category: 'exception description'>
     ]
-- 
2.43.0


From ffda6ab7ea78434f1bf89e27e26b67517ff65fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 22/62] fix: an incremental sweep whose last step frees the
 last object is finished

Otherwise alloc_oop, believing that the sweep was over, used flags of the
unfinished one to find free OOPs, and reused those of live objects.
---
 libgst/oop.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libgst/oop.c b/libgst/oop.c
index 6798f1c..1cd0ff2 100644
--- a/libgst/oop.c
+++ b/libgst/oop.c
@@ -1398,7 +1398,10 @@ _gst_incremental_gc_step ()
   	  _gst_mem.num_free_oops++;
           if (oop == _gst_mem.last_allocated_oop)
             _gst_mem.last_allocated_oop--;
-	  if (++i == INCREMENTAL_SWEEP_STEP)
+
+	  /* If this was the last OOP, the sweep is finished even if the
+	     step is over too.  */
+	  if (++i >= INCREMENTAL_SWEEP_STEP && oop - 1 > firstOOP)
 	    {
 	      _gst_mem.next_oop_to_sweep = oop - 1;
 	      return false;
-- 
2.43.0


From b966a7882568227db53c1d02feeab9ad25b9cc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 23/62] fix: a process terminated when just entering an
 ifCurtailed: receiver

---
 kernel/BlkClosure.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/BlkClosure.st b/kernel/BlkClosure.st
index dbe333d..dfa0526 100644
--- a/kernel/BlkClosure.st
+++ b/kernel/BlkClosure.st
@@ -286,9 +286,9 @@ creation of Processes from blocks.'>
 
 	<category: 'unwind protection'>
 	| curtailed |
+	curtailed := true.
 	^
 	[| result |
-	curtailed := true.
 	result := self value.
 	curtailed := false.
 	result] 
-- 
2.43.0


From eee511d798a97a036bff8a5edb65afda45e59db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 24/62] fix: signalInterrupt: to a process that runs in the
 meanwhile

Do as queueInterrupt: does: check, suspend and change the context of the
receiver without giving it a chance to run or terminate in between.
---
 kernel/Process.st | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/kernel/Process.st b/kernel/Process.st
index c04c6ac..30b0b67 100644
--- a/kernel/Process.st
+++ b/kernel/Process.st
@@ -284,16 +284,17 @@ can suspend themselves and resume themselves however they wish.'>
          restriction may be lifted in the future)."
         <category: '*timeout-private'>
         self interruptLock critical:
-            [| block |
-                self isActive
-                    ifTrue:
-                        [anException signal.
-                         ^self].
-                 self isTerminated ifFalse: [
-                     block := [self evaluate: [anException signal]
-                         ifNotTerminated: [self resume]].
-                     suspendedContext := block asContext: suspendedContext.
-                     self resume]]
+            [self isActive
+                ifTrue:
+                    [anException signal.
+                     ^self].
+
+             "As in #queueInterrupt:, the receiver must not run, or terminate,
+              while its context is being changed."
+             [self isTerminated ifFalse: [
+                 self isReady ifTrue: [self suspend].
+                 suspendedContext := [anException signal] asContext: suspendedContext.
+                 self resume]] valueWithoutPreemption]
     ]
 
     queueInterrupt: aBlock [
-- 
2.43.0


From 76f8834f720e3c1366cc398b459f3b5b04981b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 25/62] fix: newProcess could return a process before it had
 suspended itself

A process created suspended lowered its priority before suspending itself.
A timer that fired in between gave the creator the turn back; if it resumed
the new process then, the resumption was lost.
---
 kernel/Process.st | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kernel/Process.st b/kernel/Process.st
index 30b0b67..cdbc4e4 100644
--- a/kernel/Process.st
+++ b/kernel/Process.st
@@ -389,10 +389,10 @@ can suspend themselves and resume themselves however they wish.'>
 		 the test on activePriority!  This because here we may want to
 		 yield to the creator, while in #priority: we may want to yield
 		 to the process whose priority was changed."
-		priority := aPriority.
 		aBoolean
 		    ifTrue: [self suspend]
 		    ifFalse: [
+			priority := aPriority.
 			aPriority < activePriority ifTrue: [ Processor yield ] ].
 		aBlockClosure value]
 			on: SystemExceptions.ProcessBeingTerminated
@@ -418,7 +418,13 @@ can suspend themselves and resume themselves however they wish.'>
 	priority := Processor unpreemptedPriority.
 	self
 	    addToBeFinalized;
-	    resume
+	    resume.
+
+	"Do not let the creator have, and maybe resume, a process that was
+	 preempted before it could suspend itself."
+	aBoolean ifTrue: [
+	    [self isSuspended] whileFalse: [Processor yield].
+	    priority := aPriority]
     ]
 
     isActive [
-- 
2.43.0


From 29e14d9c15531686bc392d1fe655f9b363bebda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 26/62] fix: queueInterrupt: to a process that terminates in
 the meanwhile

It was checked before preemption was disabled, so the interrupt could run
in a process that had no context to go back to, and crash the VM.
---
 kernel/Process.st | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kernel/Process.st b/kernel/Process.st
index cdbc4e4..569492b 100644
--- a/kernel/Process.st
+++ b/kernel/Process.st
@@ -306,14 +306,13 @@ can suspend themselves and resume themselves however they wish.'>
 
 	<category: 'accessing'>
 	self interruptLock critical: 
-		[| block suspended semaphore |
+		[| block suspended semaphore terminated |
 		self isActive 
 		    ifTrue: 
 			[aBlock value.
 			^self].
-		self isTerminated 
-		    ifTrue: [^SystemExceptions.ProcessTerminated signalOn: self].
 		[
+		    (terminated := self isTerminated) ifFalse: [
 		    semaphore := myList.
 		    suspended := self isReady not.
 		    suspended ifFalse: [self suspend].
@@ -330,8 +329,9 @@ can suspend themselves and resume themselves however they wish.'>
 				ifTrue: [ [ self evaluate: aBlock ifNotTerminated: [ self suspend ] ] ]
 				ifFalse: [ aBlock ].
 			    block asContext: suspendedContext ].
-		    self resume
-		] valueWithoutPreemption ]
+		    self resume ]
+		] valueWithoutPreemption.
+		terminated ifTrue: [^SystemExceptions.ProcessTerminated signalOn: self] ]
     ]
 
     evaluate: aBlock ifNotTerminated: unwindBlock [
-- 
2.43.0


From 3e74dbe5a937606a2fb4b22b8ec461666e5550e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:30 +0000
Subject: [PATCH 27/62] fix: an interrupt that uses delays while the process is
 starting one

It would wait forever for the semaphore that the interrupted process itself
holds, and every delay in the system would stop working.
---
 kernel/Delay.st | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/kernel/Delay.st b/kernel/Delay.st
index 73a4d6a..75b43af 100644
--- a/kernel/Delay.st
+++ b/kernel/Delay.st
@@ -232,11 +232,13 @@ created.'>
          higher priority."
 
 	<category: 'private'>
-	MutexSem critical: 
-		[RequestSem initialize.
-		DelayRequestor := self.
-		TimeoutSem signal.
-		[DelayRequestor == self] whileTrue: [RequestSem wait]].
+	"An interrupt could use delays, and would wait for MutexSem forever."
+	Processor activeProcess valueWithoutInterrupts: 
+		[MutexSem critical: 
+			[RequestSem initialize.
+			DelayRequestor := self.
+			TimeoutSem signal.
+			[DelayRequestor == self] whileTrue: [RequestSem wait]]].
     ]
 
     signal [
-- 
2.43.0


From 6c4669c86ad5730414f7617fafab1c46024651e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:52 +0000
Subject: [PATCH 28/62] fix: ProcessVariable>>valueIfAbsent: ignored its
 argument, use:during: left a value

A scope around a variable without a value left nil as its value, and a
process terminated as it entered the scope did not restore the old one.
---
 kernel/ProcEnv.st | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/kernel/ProcEnv.st b/kernel/ProcEnv.st
index d378074..6578800 100644
--- a/kernel/ProcEnv.st
+++ b/kernel/ProcEnv.st
@@ -68,16 +68,20 @@ setting for the current process.'>
 	"Set the value of this variable to anObject during the execution
          of aBlock, then restore it."
 	<category: 'accessing'>
-        | oldValue |
-        oldValue := self value.
-        self value: anObject.
-        ^aBlock ensure: [self value: oldValue]
+        | absent oldValue |
+        absent := false.
+        oldValue := self valueIfAbsent: [absent := true. nil].
+        ^[self value: anObject. aBlock value] ensure: [
+            absent
+                ifTrue: [self environment removeKey: self key ifAbsent: []]
+                ifFalse: [self value: oldValue]]
     ]
 
     valueIfAbsent: aBlock [
-	"Return the value of this variable in the current process."
+	"Return the value of this variable in the current process, or the
+	 result of evaluating aBlock if it has none."
 	<category: 'accessing'>
-	^Processor activeProcess environment at: self key ifAbsent: [ nil ]
+	^Processor activeProcess environment at: self key ifAbsent: aBlock
     ]
 
     value [
-- 
2.43.0


From 2488783a49b2c42d72233250b2894e448a6e7535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:28 +0000
Subject: [PATCH 29/62] fix: mark ephemerons whose keys are reachable through
 other ephemerons, and mourn each object once

---
 libgst/oop.c | 203 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 124 insertions(+), 79 deletions(-)

diff --git a/libgst/oop.c b/libgst/oop.c
index 1cd0ff2..9ab88e9 100644
--- a/libgst/oop.c
+++ b/libgst/oop.c
@@ -189,6 +189,9 @@ static inline void copy_oops (void);
    list.  (It also completes the special treatment of ephemeron objects).  */
 static void scan_grey_objects ();
 
+/* Scan the object described by NODE, and free NODE.  */
+static void scan_grey_object (grey_area_node *node);
+
 /* The treatment of grey pages is different from grey objects.  Since some
    new objects might not be tenured, grey pages might still hold some
    pointers to new objects.  For this reason, and to avoid the cost of
@@ -1520,7 +1523,7 @@ mourn_objects (void)
 {
   gst_object array;
   OOP arrayOOP;
-  long size, oldSize;
+  long size, oldSize, i;
   gst_processor_scheduler processor;
 
   size = _gst_buffer_size () / sizeof (OOP);
@@ -1547,6 +1550,11 @@ mourn_objects (void)
 	    oldSize * sizeof (OOP));
   _gst_copy_buffer (array->data + oldSize);
   processor->gcArray = arrayOOP;
+
+  /* An object is sent #mourn once.  From now on, it is a normal object which
+     keeps its key alive, whatever happens before the finalizers run.  */
+  for (i = 0; i < size; i++)
+    array->data[oldSize + i]->flags &= ~F_EPHEMERON;
   if (oldSize)
     return;
 
@@ -1941,49 +1949,88 @@ scan_grey_pages ()
 void
 scan_grey_objects()
 {
-  grey_area_node *node, *next;
-  OOP oop;
-  gst_object obj;
+  grey_area_node *node, *last, **next;
+  OOP oop, key;
+  mst_Boolean scanned;
 
-  for (next = _gst_mem.grey_areas.head; (node = next); )
+  /* First of all scan all the objects except the ephemerons whose key has
+     not been copied.  This can copy more keys, so go on as long as there is
+     something to scan.  */
+  do
     {
-      oop = node->oop;
-      obj = OOP_TO_OBJ (oop);
+      scanned = false;
+      last = NULL;
+      next = &_gst_mem.grey_areas.head;
+      while ((node = *next))
+	{
+	  oop = node->oop;
+	  if (oop->flags & F_EPHEMERON)
+	    {
+	      key = OOP_TO_OBJ (oop)->data[0];
+	      if (IS_OOP (key) && !IS_OOP_COPIED (key))
+		{
+		  last = node;
+		  next = &node->next;
+		  continue;
+		}
+	    }
 
-      if (oop->flags & F_EPHEMERON)
-	/* Objects might have moved, so update node->base.  */
-	node->base = (OOP *) &obj->data[1];
+	  *next = node->next;
+	  if (!*next)
+	    _gst_mem.grey_areas.tail = last;
 
-#if defined(GC_DEBUG_OUTPUT)
-      printf ("Scanning grey range %p...%p (%p)\n", node->base, node->base + node->n, oop);
-#endif
+	  scan_grey_object (node);
+	  scanned = true;
+	}
+    }
+  while (scanned);
 
-      _gst_copy_oop_range (node->base, node->base + node->n);
+  if (!_gst_mem.grey_areas.head)
+    return;
 
-      if (oop->flags & F_EPHEMERON)
-        {
-	  OOP key = obj->data[0];
+  /* The keys that are left are dead, mourn the ephemerons.  An ephemeron
+     can be in the list twice; the flag is restored below.  */
+  for (node = _gst_mem.grey_areas.head; node; node = node->next)
+    if (node->oop->flags & F_EPHEMERON)
+      {
+	node->oop->flags &= ~F_EPHEMERON;
+	_gst_add_buf_pointer (node->oop);
+      }
 
-	  /* Copy the key, mourn the object if it was not reachable.  */
-	  if (!IS_OOP_COPIED (key))
-	    {
-	      _gst_copy_an_oop (key);
-              _gst_add_buf_pointer (oop);
-	    }
-	}
+  node = _gst_mem.grey_areas.head;
+  _gst_mem.grey_areas.head = _gst_mem.grey_areas.tail = NULL;
+  while (node)
+    {
+      grey_area_node *current = node;
+      node = node->next;
+      oop = current->oop;
+      oop->flags |= F_EPHEMERON;
+      key = OOP_TO_OBJ (oop)->data[0];
+      if (!IS_OOP_COPIED (key))
+	_gst_copy_an_oop (key);
+      scan_grey_object (current);
+    }
 
-      _gst_mem.grey_areas.head = next = node->next;
-      xfree (node);
-      if (!next)
-        _gst_mem.grey_areas.tail = NULL;
+  /* More ephemerons can have become reachable.  */
+  scan_grey_objects ();
+}
 
-      cheney_scan ();
+void
+scan_grey_object (grey_area_node *node)
+{
+  OOP oop = node->oop;
 
-      /* The scan might have greyed more areas.  */
-      if (!next)
-        next = _gst_mem.grey_areas.head;
-    }
+#if defined(GC_DEBUG_OUTPUT)
+  printf ("Scanning grey range %p...%p (%p)\n", node->base, node->base + node->n, oop);
+#endif
+
+  if (oop->flags & F_EPHEMERON)
+    /* Objects might have moved, so update node->base.  */
+    node->base = &OOP_TO_OBJ (oop)->data[1];
 
+  _gst_copy_oop_range (node->base, node->base + node->n);
+  xfree (node);
+  cheney_scan ();
 }
 
 int
@@ -2157,62 +2204,60 @@ mark_oops (void)
 void
 mark_ephemeron_oops (void)
 {
-  OOP *pOOP, *pDeadOOP, *base;
-  int i, size;
+  OOP *base = NULL;
+  int i, n = 0;
+  mst_Boolean marked;
 
-  /* Make a local copy of the buffer */
-  size = _gst_buffer_size ();
-  base = alloca (size);
-  _gst_copy_buffer (base);
-  _gst_reset_buffer ();
-  size /= sizeof (PTR);
-
-  /* First pass: distinguish objects whose key was reachable from
-     the outside by clearing their F_EPHEMERON bit.  */
-  for (pOOP = base, i = size; i--; pOOP++)
+  /* First of all mark the objects that are reachable through ephemerons
+     whose key is alive.  This can find more keys that are alive, and more
+     ephemerons, so go on as long as there is something to mark.  */
+  do
     {
-      OOP oop = *pOOP;
-      gst_object obj = OOP_TO_OBJ(oop);
-      OOP key = obj->data[0];
+      int size = _gst_buffer_size ();
+      if (size)
+	{
+	  base = (OOP *) xrealloc (base, n * sizeof (OOP) + size);
+	  _gst_copy_buffer (base + n);
+	  _gst_reset_buffer ();
+	  n += size / sizeof (OOP);
+	}
 
-      if (key->flags & F_REACHABLE)
-        oop->flags &= ~F_EPHEMERON;
+      marked = false;
+      for (i = 0; i < n; )
+	{
+	  OOP oop = base[i];
+	  gst_object obj = OOP_TO_OBJ (oop);
+	  OOP key = obj->data[0];
 
-      key->flags |= F_REACHABLE;
+	  if (IS_OOP (key) && !IS_OOP_MARKED (key))
+	    {
+	      i++;
+	      continue;
+	    }
+
+	  base[i] = base[--n];
+	  _gst_mark_oop_range (obj->data, obj->data + NUM_OOPS (obj));
+	  marked = true;
+	}
     }
+  while (marked || _gst_buffer_size ());
 
-  for (pOOP = pDeadOOP = base, i = size; i--; )
+  if (n)
     {
-      OOP oop = *pOOP++;
-      gst_object obj = OOP_TO_OBJ(oop);
-      OOP key = obj->data[0];
-      int num = NUM_OOPS(obj);
-      int j;
-
-      /* Find if the key is reachable from the objects (so that
-         we can mourn the ephemeron if this is not so).  */
-      key->flags &= ~F_REACHABLE;
-
-      for (j = 1; j < num; j++)
-        MAYBE_MARK_OOP (obj->data[j]);
-
-      /* Remember that above we cleared F_EPHEMERON if the key
-         is alive.  */
-      if (!IS_OOP_MARKED (key) && (oop->flags & F_EPHEMERON))
-        *pDeadOOP++ = oop;
-
-      /* Ok, now mark the key.  */
-      MAYBE_MARK_OOP (key);
+      /* The keys that are left are dead, mourn the ephemerons.  They keep
+	 everything alive until the next collection.  More ephemerons can
+	 become reachable.  */
+      for (i = 0; i < n; i++)
+	{
+	  gst_object obj = OOP_TO_OBJ (base[i]);
+	  _gst_mark_oop_range (obj->data, obj->data + NUM_OOPS (obj));
+	}
 
-      /* Restore the flag in case it was cleared.  */
-      oop->flags |= F_EPHEMERON;
+      mark_ephemeron_oops ();
+      _gst_add_buf_data (base, n * sizeof (OOP));
     }
 
-  /* If more ephemerons were reachable from the object, go on...  */
-  if (_gst_buffer_size ())
-    mark_ephemeron_oops ();
-
-  _gst_add_buf_data (base, (char *) pDeadOOP - (char *) base);
+  xfree (base);
 }
 
 #define TAIL_MARK_OOP(newOOP) do { \
-- 
2.43.0


From 1ad75d5adf0a6c4e3b3fb7a6396eeb62dea6fefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:28 +0000
Subject: [PATCH 30/62] fix: an error in a finalizer must not lose the other
 objects to be finalized

---
 kernel/ProcSched.st | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/kernel/ProcSched.st b/kernel/ProcSched.st
index 77698db..884678f 100644
--- a/kernel/ProcSched.st
+++ b/kernel/ProcSched.st
@@ -270,12 +270,22 @@ Object subclass: ProcessorScheduler [
     startFinalizers [
 	"Private - Fire a low-priority process to finalize the objects"
 	<category: 'idle tasks'>
-	| local localFinalizerProcess |
+	| local |
 	local := gcArray.
 	gcArray := nil.
+	local isNil ifFalse: [self finalizeAll: local readStream]
+    ]
+
+    finalizeAll: aStream [
+	"Private - Fire a low-priority process to finalize the objects in
+	 aStream.  If one of the finalizers terminates the process, for
+	 example because of an error, leave the other objects to another."
 
-	localFinalizerProcess := [:array | array do: [:each | each mourn]] 
-		    newProcessWith: {local}.
+	<category: 'idle tasks'>
+	| localFinalizerProcess |
+	localFinalizerProcess := [[[aStream atEnd] whileFalse: [aStream next mourn]] 
+		    ifCurtailed: [aStream atEnd ifFalse: [self finalizeAll: aStream]]]
+			newProcess.
 	localFinalizerProcess priority: Processor userSchedulingPriority.
 	localFinalizerProcess name: 'finalization worker'.
 	localFinalizerProcess resume
-- 
2.43.0


From c206276fc3b59c801c9cfec93c5144692cc51195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:28 +0000
Subject: [PATCH 31/62] fix: rehashing, growing and copying weak and identity
 collections lost elements or made them strong

---
 kernel/IdentitySet.st |  17 +++++++
 kernel/WeakObjects.st | 115 ++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 128 insertions(+), 4 deletions(-)

diff --git a/kernel/IdentitySet.st b/kernel/IdentitySet.st
index 637e0ea..e403e15 100644
--- a/kernel/IdentitySet.st
+++ b/kernel/IdentitySet.st
@@ -53,6 +53,23 @@ use the == operator to determine duplication of objects.'>
 	^anObject identityHash
     ]
 
+    findElementIndex: anObject [
+        "Tries to see where anObject can be placed as an indexed variable.
+	 As soon as nil is found, the index of that slot is answered.
+	 anObject also comes from an indexed variable."
+
+        <category: 'private methods'>
+        | index size |
+        "Sorry for the lack of readability, but I want speed... :-)"
+        index := (anObject identityHash scramble 
+		    bitAnd: (size := self primSize) - 1) + 1.
+   
+        [(self primAt: index) isNil
+            ifTrue: [^index].
+        index == size ifTrue: [index := 1] ifFalse: [index := index + 1]]
+                repeat
+    ]
+
     findIndex: anObject [
 	"Tries to see if anObject exists as an indexed variable. As soon as nil
 	 or anObject is found, the index of that slot is answered"
diff --git a/kernel/WeakObjects.st b/kernel/WeakObjects.st
index 8342914..f55517d 100644
--- a/kernel/WeakObjects.st
+++ b/kernel/WeakObjects.st
@@ -312,7 +312,7 @@ one of them, I swiftly remove all.'>
 	<category: 'private'>
 	| index size element |
 	"Sorry for the lack of readability, but I want speed... :-)"
-	index := (anObject identityHash scramble 
+	index := (anObject hash scramble 
 		    bitAnd: (size := self primSize) - 1) + 1.
 	
 	[((element := self primAt: index) isNil or: [element key = anObject]) 
@@ -335,7 +335,7 @@ in a weak array; I track which of them are garbage collected and, as
 soon as I encounter one of them, I swiftly remove all the associations
 for the garbage collected keys'>
 
-    WeakKeyDictionary class >> postLoad [
+    postLoad [
 	"Called after loading an object; must restore it to the state before
 	 `preStore' was called.  Make it weak again"
 
@@ -373,10 +373,65 @@ for the garbage collected keys'>
 	self add: assoc.
 	^value
     ]
+
+    rehash [
+	"Rehash the receiver"
+
+	<category: 'rehashing'>
+	| associations |
+	associations := OrderedCollection new.
+	1 to: self primSize
+	    do: 
+		[:i | 
+		(self primAt: i) notNil 
+		    ifTrue: 
+			[associations addLast: (self primAt: i).
+			self primAt: i put: nil]].
+	self resetTally.
+	associations do: [:each | self addWhileGrowing: each]
+    ]
+
+    growBy: delta [
+	"Private - Grow the receiver by delta places.  Keep the associations,
+	 which are ephemerons that refer to the receiver."
+
+	<category: 'private methods'>
+	| newDictionary assoc |
+	newDictionary := self copyEmpty: self capacity + delta.
+	1 to: self primSize
+	    do: 
+		[:i | 
+		assoc := self primAt: i.
+		assoc isNil ifFalse: [newDictionary addWhileGrowing: assoc]].
+	^self become: newDictionary
+    ]
+
+    copyAllFrom: aHashedCollection [
+	<category: 'private methods'>
+	| assoc |
+	1 to: aHashedCollection primSize
+	    do: 
+		[:index | 
+		assoc := aHashedCollection primAt: index.
+		assoc isNil 
+		    ifFalse: [self whileGrowingAt: assoc key put: assoc value]].
+	^self
+    ]
+
+    whileGrowingAt: key put: value [
+	<category: 'private methods'>
+	self addWhileGrowing: ((HomedAssociation 
+		    key: key
+		    value: value
+		    environment: self)
+		    makeEphemeron;
+		    yourself).
+	^value
+    ]
 ]
 
 
-
+
 LookupTable subclass: WeakValueLookupTable [
     | values |
     
@@ -504,7 +559,7 @@ for the garbage collected values'>
 		[:i | 
 		"Find values that are nil and should not be"
 
-		(key := self primAt: i) notNil 
+		(self primAt: i) notNil 
 		    ifTrue: 
 			[(values isAlive: i) 
 			    ifTrue: 
@@ -566,6 +621,23 @@ encounter one of them, I swiftly remove all the garbage collected keys'>
 	^self includes: anObject
     ]
 
+    findElementIndex: anObject [
+        "Tries to see where anObject can be placed as an indexed variable.
+	 As soon as nil is found, the index of that slot is answered.
+	 anObject also comes from an indexed variable."
+
+        <category: 'private methods'>
+        | index size |
+        "Sorry for the lack of readability, but I want speed... :-)"
+        index := (anObject key identityHash scramble 
+		    bitAnd: (size := self primSize) - 1) + 1.
+   
+        [(self primAt: index) isNil
+            ifTrue: [^index].
+        index == size ifTrue: [index := 1] ifFalse: [index := index + 1]]
+                repeat
+    ]
+
     findIndex: anObject [
 	"Tries to see if anObject exists as an indexed variable. As soon as nil
 	 or anObject is found, the index of that slot is answered"
@@ -609,6 +681,23 @@ for the garbage collected keys'>
 	^anObject identityHash
     ]
 
+    findElementIndex: anObject [
+        "Tries to see where anObject can be placed as an indexed variable.
+	 As soon as nil is found, the index of that slot is answered.
+	 anObject also comes from an indexed variable."
+
+        <category: 'private methods'>
+        | index size |
+        "Sorry for the lack of readability, but I want speed... :-)"
+        index := (anObject key identityHash scramble 
+		    bitAnd: (size := self primSize) - 1) + 1.
+   
+        [(self primAt: index) isNil
+            ifTrue: [^index].
+        index == size ifTrue: [index := 1] ifFalse: [index := index + 1]]
+                repeat
+    ]
+
     findIndex: anObject [
 	"Tries to see if anObject exists as an indexed variable. As soon as nil
 	 or anObject is found, the index of that slot is answered"
@@ -652,6 +741,24 @@ for the garbage collected values'>
 	^anObject identityHash
     ]
 
+    findElementIndex: anObject [
+        "Tries to see where anObject can be placed as an indexed variable.
+	 As soon as nil is found, the index of that slot is answered.
+	 anObject also comes from an indexed variable."
+
+        <category: 'private methods'>
+        | index size |
+        self beConsistent.
+        "Sorry for the lack of readability, but I want speed... :-)"
+        index := (anObject identityHash scramble 
+		    bitAnd: (size := self primSize) - 1) + 1.
+   
+        [(self primAt: index) isNil
+            ifTrue: [^index].
+        index == size ifTrue: [index := 1] ifFalse: [index := index + 1]]
+                repeat
+    ]
+
     findIndex: anObject [
 	"Tries to see if anObject exists as an indexed variable. As soon as nil
 	 or anObject is found, the index of that slot is answered"
-- 
2.43.0


From 7aba26903bd8dba6fcc05b566d6510e7e9b9328a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:28 +0000
Subject: [PATCH 32/62] fix: equal objects are finalized each, and no process
 finds a collection half mourned

---
 kernel/Collection.st | 8 ++++++--
 kernel/Object.st     | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/kernel/Collection.st b/kernel/Collection.st
index 948b62f..02cc63d 100644
--- a/kernel/Collection.st
+++ b/kernel/Collection.st
@@ -644,7 +644,11 @@ of objects.'>
 	 and possibly finalize the key."
 
 	<category: 'finalization'>
-	self remove: anObject ifAbsent: [].
-	self == Object finalizableObjects ifTrue: [anObject key finalize]
+	"No process must find, or use, a collection that is being changed
+	 behind its back."
+	self == Object finalizableObjects 
+	    ifFalse: [^[self remove: anObject ifAbsent: []] valueWithoutPreemption].
+	Object finalSemaphore critical: [self remove: anObject ifAbsent: []].
+	anObject key finalize
     ]
 ]
diff --git a/kernel/Object.st b/kernel/Object.st
index b5179ed..ceadc0b 100644
--- a/kernel/Object.st
+++ b/kernel/Object.st
@@ -79,7 +79,8 @@ All classes in the system are subclasses of me.'>
 	"Answer a set of finalizable objects."
 
 	<category: 'initialization'>
-	FinalizableObjects isNil ifTrue: [FinalizableObjects := Set new].
+	FinalizableObjects isNil 
+	    ifTrue: [FinalizableObjects := WeakKeyIdentityDictionary new].
 	^FinalizableObjects
     ]
 
-- 
2.43.0


From 0041cba2b97974d9c667da1630ff9a7d0a0927a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:29 +0000
Subject: [PATCH 33/62] fix: a delay process on a par with others could resume
 a process that no longer waits

---
 kernel/Delay.st | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kernel/Delay.st b/kernel/Delay.st
index 75b43af..7d38157 100644
--- a/kernel/Delay.st
+++ b/kernel/Delay.st
@@ -255,10 +255,12 @@ created.'>
 	        delaySemaphore := nil.
                 sema signal]
             ifFalse: [
-                (process isWaitingOn: sema) ifFalse: [^false].
-                delaySemaphore := nil.
-                waitingProcess := nil.
-                process suspend; resume].
+                "The process must still be waiting when it is suspended."
+                ^[(process isWaitingOn: sema) and: [
+                    delaySemaphore := nil.
+                    waitingProcess := nil.
+                    process suspend; resume.
+                    true]] valueWithoutPreemption].
         ^true
     ]
 
-- 
2.43.0


From 53867c9b20debf95a6499cfd95e6ae65ae775447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:36 +0000
Subject: [PATCH 34/62] Simulation hooks: the simulator sees whether a process
 switch is due

---
 libgst/interp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/interp.c b/libgst/interp.c
index 466fc86..c640922 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -571,7 +571,7 @@ static void * const *dispatch_vec;
    gst_sim_safepoint answers whether the active process has to let the
    others of its priority run.  */
 extern int gst_sim_safepoint (void);
-static volatile mst_Boolean sim_except_flag;
+volatile mst_Boolean sim_except_flag;
 #define SET_EXCEPT_FLAG(x) do { \
   sim_except_flag = (x); \
   __sync_synchronize (); \
-- 
2.43.0


From 5f476af86ecd07703193438a9eda27a015bad902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:43 +0000
Subject: [PATCH 35/62] fix: compiling a method wrote through pointers that
 interning a symbol had made stale

---
 libgst/comp.c | 49 +++++++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/libgst/comp.c b/libgst/comp.c
index 8f94ce4..63c3694 100644
--- a/libgst/comp.c
+++ b/libgst/comp.c
@@ -698,7 +698,6 @@ _gst_compile_method (tree_node method,
   int stack_depth;
   int i, argCount, tempCount;
   OOP variablesOOP, debugInfo;
-  gst_object object;
   tree_node args;
   inc_ptr incPtr;
   gst_compiled_method compiledMethod;
@@ -839,7 +838,7 @@ _gst_compile_method (tree_node method,
       if (methodOOP != _gst_nil_oop) {
         INC_ADD_OOP (methodOOP);
 
-        object = new_instance_with (_gst_array_class, argCount + tempCount, &variablesOOP);
+        new_instance_with (_gst_array_class, argCount + tempCount, &variablesOOP);
         INC_ADD_OOP (variablesOOP);
 
         args = method->v_method.selectorExpr;
@@ -847,22 +846,23 @@ _gst_compile_method (tree_node method,
 
         if (args->nodeType == TREE_BINARY_EXPR)
           {
-            object->data[i] = _gst_intern_string (args->v_expr.expression->v_list.name);
-            i += 1;
+            /* Interning can move the array.  */
+            OOP nameOOP = _gst_intern_string (args->v_expr.expression->v_list.name);
+            OOP_TO_OBJ (variablesOOP)->data[i++] = nameOOP;
           }
         else
           {
             for (args = args->v_expr.expression; args != NULL; args = args->v_list.next)
               {
-                object->data[i] = _gst_intern_string (args->v_list.value->v_list.name);
-                i += 1;
+                OOP nameOOP = _gst_intern_string (args->v_list.value->v_list.name);
+                OOP_TO_OBJ (variablesOOP)->data[i++] = nameOOP;
               }
           }
 
         for (args = method->v_method.temporaries; args != NULL; args = args->v_list.next)
           {
-            object->data[i] = _gst_intern_string (args->v_list.name);
-            i += 1;
+            OOP nameOOP = _gst_intern_string (args->v_list.name);
+            OOP_TO_OBJ (variablesOOP)->data[i++] = nameOOP;
           }
 
         new_instance (_gst_debug_information_class, &debugInfo);
@@ -1115,7 +1115,7 @@ compile_block (tree_node blockExpr)
   OOP debugInfo;
   OOP litOOP, blockOOP;
   gst_compiled_block block;
-  gst_object object;
+  int clean;
   inc_ptr incPtr;
   tree_node args;
 
@@ -1154,17 +1154,19 @@ compile_block (tree_node blockExpr)
 			 blockByteCodes, stack_depth);
   INC_ADD_OOP (blockOOP);
 
-  object = new_instance_with (_gst_array_class, argCount + tempCount, &variablesOOP);
+  new_instance_with (_gst_array_class, argCount + tempCount, &variablesOOP);
   INC_ADD_OOP (variablesOOP);
 
   for (i = 0, args = blockExpr->v_block.arguments; args != NULL; args = args->v_list.next) {
-    object->data[i] = _gst_intern_string (args->v_list.name);
-    i += 1;
+    /* Interning can move the array.  */
+    OOP nameOOP = _gst_intern_string (args->v_list.name);
+    OOP_TO_OBJ (variablesOOP)->data[i++] = nameOOP;
   }
 
   for (args = blockExpr->v_block.temporaries; args != NULL; args = args->v_list.next) {
-    object->data[i] = _gst_intern_string (args->v_list.name);
-    i += 1;
+    /* Interning can move the array.  */
+    OOP nameOOP = _gst_intern_string (args->v_list.name);
+    OOP_TO_OBJ (variablesOOP)->data[i++] = nameOOP;
   }
 
   new_instance (_gst_debug_information_class, &debugInfo);
@@ -1185,7 +1187,8 @@ compile_block (tree_node blockExpr)
 
   INCR_STACK_DEPTH ();
   block = (gst_compiled_block) OOP_TO_OBJ (blockOOP);
-  if (block->header.clean == 0)
+  clean = block->header.clean;
+  if (clean == 0)
     litOOP = make_clean_block_closure (blockOOP);
   else
     litOOP = blockOOP;
@@ -1193,7 +1196,7 @@ compile_block (tree_node blockExpr)
   INC_RESTORE_POINTER (incPtr);
 
   _gst_compile_byte (PUSH_LIT_CONSTANT, add_literal (litOOP));
-  if (block->header.clean != 0)
+  if (clean != 0)
     _gst_compile_byte (MAKE_DIRTY_BLOCK, 0);
 }
 
@@ -2215,13 +2218,16 @@ _gst_make_constant_oop (tree_node constExpr)
       {
 	gst_deferred_variable_binding dvb;
 	tree_node varNode = constExpr->v_const.val.aVal;
+	OOP keyOOP;
 
+	/* Interning can move the binding and the array.  */
         incPtr = INC_SAVE_POINTER ();
+        keyOOP = _gst_intern_string (varNode->v_list.name);
         dvb = (gst_deferred_variable_binding)
 	  instantiate (_gst_deferred_variable_binding_class, &resultOOP);
         INC_ADD_OOP (resultOOP);
 
-	dvb->key = _gst_intern_string (varNode->v_list.name);
+	dvb->key = keyOOP;
 	dvb->class = _gst_current_parser->currentClass;
 	dvb->defaultDictionary = _gst_get_undeclared_dictionary ();
 	dvb->association = _gst_nil_oop;
@@ -2231,12 +2237,15 @@ _gst_make_constant_oop (tree_node constExpr)
 	  {
 	    int i, size = _gst_list_length (varNode);
 	    OOP arrayOOP;
-	    gst_object array =
-	      instantiate_with (_gst_array_class, size, &arrayOOP);
 
+	    instantiate_with (_gst_array_class, size, &arrayOOP);
+	    dvb = (gst_deferred_variable_binding) OOP_TO_OBJ (resultOOP);
 	    dvb->path = arrayOOP;
 	    for (i = 0; i < size; i++, varNode = varNode->v_list.next)
-	      array->data[i] = _gst_intern_string (varNode->v_list.name);
+	      {
+		keyOOP = _gst_intern_string (varNode->v_list.name);
+		OOP_TO_OBJ (arrayOOP)->data[i] = keyOOP;
+	      }
 	  }
 
         INC_RESTORE_POINTER (incPtr);
-- 
2.43.0


From c20d4541328e61bf6b723b7947207289cc054c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:44 +0000
Subject: [PATCH 36/62] fix: symbols that differ after a NUL character were the
 same symbol

---
 libgst/sym.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/sym.c b/libgst/sym.c
index 57f62e7..0dd832e 100644
--- a/libgst/sym.c
+++ b/libgst/sym.c
@@ -1450,7 +1450,7 @@ is_same_string (const char *str,
 		int len)
 {
   if (_gst_string_oop_len (oop) == len)
-    return (strncmp
+    return (memcmp
 	    (str, ((gst_symbol) OOP_TO_OBJ (oop))->symString,
 	     len) == 0);
 
-- 
2.43.0


From 2f93c04b6b4481ab7bc3e1c94706f2282c75446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:31 +0000
Subject: [PATCH 37/62] fix: positioned reads and writes of a file that are
 short or interrupted

---
 kernel/FileStream.st | 56 +++++++++++++++++++++++++++++---------------
 libgst/prims.def     |  8 +++++--
 2 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/kernel/FileStream.st b/kernel/FileStream.st
index 780feff..119761c 100644
--- a/kernel/FileStream.st
+++ b/kernel/FileStream.st
@@ -301,12 +301,7 @@ file object, such as /dev/rmt0 on UNIX or MTA0: on VMS).'>
 	    ifTrue: 
 		[bufferStart := self bufferStart.
 		pos := bufferStart + endPtr.
-		self 
-		    fileOp: 18
-		    with: collection
-		    with: writePtr
-		    with: writeEnd
-		    with: bufferStart + writePtr - 1].
+		self writeBufferAt: bufferStart + writePtr - 1].
 
 	"If we didn't write, pos is nil and we always do the lseek.  It makes
 	 no sense to do an lseek (to get the current file pointer in #bufferStart)
@@ -337,7 +332,7 @@ file object, such as /dev/rmt0 on UNIX or MTA0: on VMS).'>
 	"Answer the contents of the file between the two given positions"
 
 	<category: 'basic'>
-	| offset fromPos toPos result |
+	| offset fromPos toPos result n |
 	from > to 
 	    ifTrue: 
 		[to + 1 = from ifTrue: [^self species new].
@@ -355,12 +350,19 @@ file object, such as /dev/rmt0 on UNIX or MTA0: on VMS).'>
 		    ifTrue: [^collection copyFrom: fromPos to: toPos]].
 	writePtr notNil ifTrue: [self flush].
 	result := self species new: to - from + 1.
-	self 
-	    fileOp: 17
-	    with: result
-	    with: 1
-	    with: result size
-	    with: from.
+	fromPos := 0.
+	
+	["A single read may answer less than it was asked for."
+	(n := self 
+		    fileOp: 17
+		    with: result
+		    with: fromPos + 1
+		    with: result size
+		    with: from + fromPos) isNil 
+	    ifTrue: [^result].
+	fromPos := fromPos + n.
+	n = 0 or: [fromPos = result size]] 
+		whileFalse.
 	^result
     ]
 
@@ -592,12 +594,7 @@ file object, such as /dev/rmt0 on UNIX or MTA0: on VMS).'>
 	    ifFalse: 
 		[writePtr notNil 
 		    ifTrue: 
-			[self 
-			    fileOp: 18
-			    with: collection
-			    with: writePtr
-			    with: writeEnd
-			    with: self bufferStart + writePtr - 1].
+			[self writeBufferAt: self bufferStart + writePtr - 1].
 		ptr - 1 = endPtr ifFalse: [super skip: ptr - 1 - endPtr]].
 
 	ptr := 1.
@@ -605,6 +602,27 @@ file object, such as /dev/rmt0 on UNIX or MTA0: on VMS).'>
 	writePtr := nil
     ]
 
+    writeBufferAt: offset [
+	"Private - Write the pending part of the buffer at the given offset
+	 from the start of the file, without moving the file pointer.  A single
+	 write may store less than it was asked to."
+
+	<category: 'private-buffering'>
+	| cur n |
+	cur := writePtr.
+	
+	[(n := self 
+		    fileOp: 18
+		    with: collection
+		    with: cur
+		    with: writeEnd
+		    with: offset + cur - writePtr) isNil 
+	    ifTrue: [^self].
+	cur := cur + n.
+	n = 0 or: [cur > writeEnd]] 
+		whileFalse
+    ]
+
     resetBuffer [
 	"Reset the buffer.  Only valid if no write is pending."
 
diff --git a/libgst/prims.def b/libgst/prims.def
index 7e36f5c..4e952ee 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -5731,7 +5731,9 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
 		 touch them manually.  */
 	      _gst_grey_oop_range (data + from - 1, to - from + 1);
 #if HAVE_PREAD
-	      result = pread (fd, data + from - 1, to - from + 1, ofs);
+	      do
+		result = pread (fd, data + from - 1, to - from + 1, ofs);
+	      while (result == -1 && errno == EINTR);
 #else
 	      {
 		off_t save = lseek (fd, ofs, SEEK_SET);
@@ -5774,7 +5776,9 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
 		 touch them manually.  */
 	      _gst_grey_oop_range (data + from - 1, to - from + 1);
 #if HAVE_PWRITE
-	      result = pwrite (fd, data + from - 1, to - from + 1, ofs);
+	      do
+		result = pwrite (fd, data + from - 1, to - from + 1, ofs);
+	      while (result == -1 && errno == EINTR);
 #else
 	      {
 		off_t save = lseek (fd, ofs, SEEK_SET);
-- 
2.43.0


From 121a2c5047fa2088fa481ccc9cae1c0cc39e51cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:25 +0000
Subject: [PATCH 38/62] fix: positions of a FileStream: past the end,
 truncating and testing for the end after buffered reads and writes, skipping
 to the end

---
 kernel/FileDescr.st  |  2 +-
 kernel/FileStream.st |  7 ++++---
 libgst/prims.def     | 15 ++++++++-------
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/kernel/FileDescr.st b/kernel/FileDescr.st
index 2896d89..e292517 100644
--- a/kernel/FileDescr.st
+++ b/kernel/FileDescr.st
@@ -648,7 +648,7 @@ do arbitrary processing on the files.'>
 
 	<category: 'overriding inherited methods'>
 	| pos |
-	pos := (self position + anInteger max: 0) min: self size - 1.
+	pos := (self position + anInteger max: 0) min: self size.
 	self position: pos
     ]
 
diff --git a/kernel/FileStream.st b/kernel/FileStream.st
index 119761c..cbff575 100644
--- a/kernel/FileStream.st
+++ b/kernel/FileStream.st
@@ -324,7 +324,7 @@ file object, such as /dev/rmt0 on UNIX or MTA0: on VMS).'>
 	"Truncate the file at the current position"
 
 	<category: 'basic'>
-	writePtr notNil ifTrue: [self flush].
+	self flush.
 	super truncate
     ]
 
@@ -531,6 +531,7 @@ file object, such as /dev/rmt0 on UNIX or MTA0: on VMS).'>
 	"Answer whether data has come to an end"
 
 	<category: 'testing'>
+	writePtr notNil ifTrue: [self flush].
 	^ptr > endPtr and: [super atEnd]
     ]
 
@@ -586,7 +587,7 @@ file object, such as /dev/rmt0 on UNIX or MTA0: on VMS).'>
 		[writePtr notNil 
 		    ifTrue: 
 			[(self isPipe or: [writePtr - 1 = endPtr]) 
-			    ifFalse: [super skip: writePtr - 1 - endPtr].
+			    ifFalse: [self fileOp: 8 with: writePtr - 1 - endPtr].
 			super 
 			    next: writeEnd - writePtr + 1
 			    putAll: collection
@@ -595,7 +596,7 @@ file object, such as /dev/rmt0 on UNIX or MTA0: on VMS).'>
 		[writePtr notNil 
 		    ifTrue: 
 			[self writeBufferAt: self bufferStart + writePtr - 1].
-		ptr - 1 = endPtr ifFalse: [super skip: ptr - 1 - endPtr]].
+		ptr - 1 = endPtr ifFalse: [self fileOp: 8 with: ptr - 1 - endPtr]].
 
 	ptr := 1.
 	endPtr := 0.
diff --git a/libgst/prims.def b/libgst/prims.def
index 4e952ee..24d058c 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -5636,16 +5636,17 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
 
     case PRIM_FEOF:
       {				/* FileDescriptor atEnd */
-	off_t oldPos;
+	off_t oldPos, endPos;
 	oldPos = lseek (fd, 0, SEEK_CUR);
-	if (oldPos >= 0 && lseek (fd, 0, SEEK_END) == oldPos)
+	endPos = (oldPos >= 0) ? lseek (fd, 0, SEEK_END) : -1;
+
+	/* The position can be past the end, too.  */
+	if (endPos >= 0 && endPos <= oldPos)
 	  resultOOP = _gst_true_oop;
 	else
-	  {
-	    resultOOP = _gst_false_oop;
-	    if (oldPos >= 0)
-	      lseek (fd, oldPos, SEEK_SET);
-	  }
+	  resultOOP = _gst_false_oop;
+	if (oldPos >= 0 && endPos != oldPos)
+	  lseek (fd, oldPos, SEEK_SET);
 	errno = 0;
 	goto succeed;
       }
-- 
2.43.0


From ba39dbb3123565fbd7466842837a3d9a4db58287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:30 +0000
Subject: [PATCH 39/62] fix: report errors from ftruncate

---
 libgst/prims.def | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 24d058c..2c512b9 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -5809,7 +5809,9 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
 	if (pos < 0)
 	  break;
 
-	ftruncate (fd, pos);
+	if (ftruncate (fd, pos) < 0)
+	  break;
+
 	goto succeed;
       }
 
-- 
2.43.0


From 6fdc6a969535026767fac49ad923dd7b205747f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:30 +0000
Subject: [PATCH 40/62] fix: FileStream>>flush never writes the same data twice
 after an error

---
 kernel/FileStream.st | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/kernel/FileStream.st b/kernel/FileStream.st
index cbff575..c1d1ef1 100644
--- a/kernel/FileStream.st
+++ b/kernel/FileStream.st
@@ -582,16 +582,31 @@ file object, such as /dev/rmt0 on UNIX or MTA0: on VMS).'>
 	 and possibly an lseek after it."
 
 	<category: 'buffering'>
+	| n |
 	(self isPipe or: [writePtr notNil and: [ptr - 1 = writeEnd]]) 
 	    ifTrue: 
 		[writePtr notNil 
 		    ifTrue: 
 			[(self isPipe or: [writePtr - 1 = endPtr]) 
 			    ifFalse: [self fileOp: 8 with: writePtr - 1 - endPtr].
-			super 
-			    next: writeEnd - writePtr + 1
-			    putAll: collection
-			    startingAt: writePtr]]
+
+			"Keep track of what was written, so that after an error
+			 only the rest is pending."
+			endPtr := writePtr - 1.
+			n := 1.
+			[n > 0 and: [writePtr <= writeEnd]] whileTrue: 
+				[self ensureWriteable.
+				n := self isOpen 
+					    ifFalse: [0]
+					    ifTrue: 
+						[self 
+						    fileOp: 2
+						    with: collection
+						    with: writePtr
+						    with: writeEnd
+						    ifFail: [self checkError]].
+				writePtr := writePtr + n.
+				endPtr := writePtr - 1]]]
 	    ifFalse: 
 		[writePtr notNil 
 		    ifTrue: 
-- 
2.43.0


From b1ebd70cc804f8c1feae924b0f56c305cdf94ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:30 +0000
Subject: [PATCH 41/62] fix: invalidate the method caches after a garbage
 collection

---
 libgst/oop.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libgst/oop.c b/libgst/oop.c
index 9ab88e9..a5fcc2a 100644
--- a/libgst/oop.c
+++ b/libgst/oop.c
@@ -1217,6 +1217,7 @@ _gst_global_gc (int next_allocation)
     _gst_mem.old->heap_limit = old_limit;
 
   _gst_invalidate_croutine_cache ();
+  _gst_invalidate_method_cache ();
   mourn_objects ();
 }
 
@@ -1302,6 +1303,7 @@ _gst_scavenge (void)
     (1 - _gst_mem.factor) * _gst_mem.tenuredBytesPerScavenge;
 
   _gst_invalidate_croutine_cache ();
+  _gst_invalidate_method_cache ();
   mourn_objects ();
 
   /* If tenuring had to grow oldspace, do a global garbage collection
-- 
2.43.0


From 02d62a884706a0a1a5ad35b020e0c1ebb816ca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:30 +0000
Subject: [PATCH 42/62] fix: code for loops whose jumps are 256 bytes long

---
 libgst/comp.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/libgst/comp.c b/libgst/comp.c
index 63c3694..6387624 100644
--- a/libgst/comp.c
+++ b/libgst/comp.c
@@ -1594,12 +1594,12 @@ compile_times_repeat (tree_node expr)
   for (oldJumpAroundLen = finalJumpLen = 0; ; oldJumpAroundLen = jumpAroundLen)
     {
       finalJumpOfs = 6 + oldJumpAroundLen + jumpAroundOfs;
-      finalJumpLen = (finalJumpOfs + finalJumpLen > 65536 ? 6 :
-		      finalJumpOfs + finalJumpLen > 256 ? 4 : 2);
-      finalJumpLen = (finalJumpOfs + finalJumpLen > 65536 ? 6 :
-		      finalJumpOfs + finalJumpLen > 256 ? 4 : 2);
-      jumpAroundLen = (jumpAroundOfs + finalJumpLen > 65536 ? 6 :
-		       jumpAroundOfs + finalJumpLen > 256 ? 4 : 2);
+      finalJumpLen = (finalJumpOfs + finalJumpLen >= 65536 ? 6 :
+		      finalJumpOfs + finalJumpLen >= 256 ? 4 : 2);
+      finalJumpLen = (finalJumpOfs + finalJumpLen >= 65536 ? 6 :
+		      finalJumpOfs + finalJumpLen >= 256 ? 4 : 2);
+      jumpAroundLen = (jumpAroundOfs + finalJumpLen >= 65536 ? 6 :
+		       jumpAroundOfs + finalJumpLen >= 256 ? 4 : 2);
       if (jumpAroundLen == oldJumpAroundLen)
         break;
     }
@@ -1674,12 +1674,12 @@ compile_to_by_do (tree_node to,
   for (oldJumpAroundLen = jumpAroundLen = finalJumpLen = 0; ; oldJumpAroundLen = jumpAroundLen)
     {
       finalJumpOfs = jumpAroundOfs + jumpAroundLen + 2;
-      finalJumpLen = (finalJumpOfs + finalJumpLen > 65536 ? 6 :
-		      finalJumpOfs + finalJumpLen > 256 ? 4 : 2);
-      finalJumpLen = (finalJumpOfs + finalJumpLen > 65536 ? 6 :
-		      finalJumpOfs + finalJumpLen > 256 ? 4 : 2);
-      jumpAroundLen = (jumpAroundOfs + finalJumpLen > 65536 ? 6 :
-		       jumpAroundOfs + finalJumpLen > 256 ? 4 : 2);
+      finalJumpLen = (finalJumpOfs + finalJumpLen >= 65536 ? 6 :
+		      finalJumpOfs + finalJumpLen >= 256 ? 4 : 2);
+      finalJumpLen = (finalJumpOfs + finalJumpLen >= 65536 ? 6 :
+		      finalJumpOfs + finalJumpLen >= 256 ? 4 : 2);
+      jumpAroundLen = (jumpAroundOfs + finalJumpLen >= 65536 ? 6 :
+		       jumpAroundOfs + finalJumpLen >= 256 ? 4 : 2);
       if (jumpAroundLen == oldJumpAroundLen)
         break;
     }
-- 
2.43.0


From 76510e87712c4dca8c9a8e2d7a7667352e42edad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:30 +0000
Subject: [PATCH 43/62] fix: remove a push and pop together with its extension
 bytes

---
 libgst/opt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libgst/opt.c b/libgst/opt.c
index 32f01f6..671bbb5 100644
--- a/libgst/opt.c
+++ b/libgst/opt.c
@@ -812,6 +812,9 @@ optimize_basic_block (gst_uchar *from,
           if (bp < to - 2
 	      && bp[2] == POP_STACK_TOP)
 	    {
+	      /* Extension bytes of the push have been copied already.  */
+	      while (opt > from && opt[-2] == EXT_BYTE)
+		opt -= 2;
 	      bp += 4;
 	      continue;
 	    }
-- 
2.43.0


From 2eba21c741051eba84de5e8e1fc7116b04d600a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:52 +0000
Subject: [PATCH 44/62] fix: replace the extension bytes too of a jump to a
 return

---
 libgst/opt.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libgst/opt.c b/libgst/opt.c
index 671bbb5..15b4af7 100644
--- a/libgst/opt.c
+++ b/libgst/opt.c
@@ -539,9 +539,16 @@ _gst_optimize_bytecodes (bc_vector bytecodes)
 
 	    RETURN_METHOD_STACK_TOP, RETURN_CONTEXT_STACK_TOP {
 	      /* Return bytecodes - patch the original jump to return
-	         directly */
-	      bp[0] = dest[-2];
-	      bp[1] = 0;
+	         directly.  The extension bytes go away with the jump,
+	         or it would be left with the wrong offset.  */
+	      gst_uchar *p = bp;
+	      while (*p == EXT_BYTE)
+		{
+		  *p++ = dest[-2];
+		  *p++ = 0;
+		}
+	      p[0] = dest[-2];
+	      p[1] = 0;
 
 	      /* This in fact eliminated the jump, don't split in basic 
 	         blocks */
-- 
2.43.0


From 2779d742b51989d9b3029b7c1083773b0e0163bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:48 +0000
Subject: [PATCH 45/62] fix: write a snapshot to a new file and rename it when
 it is complete

---
 libgst/save.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/libgst/save.c b/libgst/save.c
index be980a7..5ed7302 100644
--- a/libgst/save.c
+++ b/libgst/save.c
@@ -279,14 +279,18 @@ _gst_save_to_file (const char *fileName)
   int imageFd;
   int save_errno;
   mst_Boolean success;
+  char *tempName;
 
   _gst_invoke_hook (GST_ABOUT_TO_SNAPSHOT);
   _gst_global_gc (0);
   _gst_finish_incremental_gc ();
 
+  /* Write to another file, so that whatever happens there is a complete
+     image under FILENAME.  */
   success = false;
-  unlink (fileName);
-  imageFd = _gst_open_file (fileName, "w");
+  asprintf (&tempName, "%s.new", fileName);
+  unlink (tempName);
+  imageFd = _gst_open_file (tempName, "w");
   if (imageFd >= 0)
     {
       if (setjmp(save_jmpbuf) == 0)
@@ -296,9 +300,23 @@ _gst_save_to_file (const char *fileName)
         }
 
       save_errno = errno;
-      close (imageFd);
+      if (success && fsync (imageFd) == -1 && errno != EINVAL)
+        {
+          success = false;
+          save_errno = errno;
+        }
+      if (close (imageFd) == -1 && success)
+        {
+          success = false;
+          save_errno = errno;
+        }
+      if (success && rename (tempName, fileName) == -1)
+        {
+          success = false;
+          save_errno = errno;
+        }
       if (!success)
-        unlink (fileName);
+        unlink (tempName);
       if (myOOPTable)
         xfree (myOOPTable);
       myOOPTable = NULL;
@@ -306,6 +324,7 @@ _gst_save_to_file (const char *fileName)
   else
     save_errno = errno;
 
+  free (tempName);
   _gst_invoke_hook (GST_FINISHED_SNAPSHOT);
   errno = save_errno;
   return success;
-- 
2.43.0


From a3aa646207644a341297aa3b3cf722f1c4812112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:26 +0000
Subject: [PATCH 46/62] fix: tell the dependents that the image was restarted
 before any of its processes runs

---
 libgst/comp.c   | 7 +++++++
 libgst/interp.c | 8 +++++---
 libgst/interp.h | 5 +++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/libgst/comp.c b/libgst/comp.c
index 6387624..c0435d5 100644
--- a/libgst/comp.c
+++ b/libgst/comp.c
@@ -449,6 +449,7 @@ static void
 invoke_hook_smalltalk (enum gst_vm_hook hook)
 {
   const char *hook_name;
+  int save_priority = _gst_callin_priority;
   if (!_gst_kernel_initialized)
     return;
 
@@ -481,8 +482,14 @@ invoke_hook_smalltalk (enum gst_vm_hook hook)
     return;
   }
 
+  /* Processes that were ready in the image must not run before everybody
+     knows that it was restarted.  */
+  if (hook == GST_RETURN_FROM_SNAPSHOT)
+    _gst_callin_priority = HIGH_IO_PRIORITY;
+
   _gst_msg_sendf (NULL, "%v %o changed: %S", 
 		  _gst_object_memory_class, hook_name);
+  _gst_callin_priority = save_priority;
 }
 
 void
diff --git a/libgst/interp.c b/libgst/interp.c
index c640922..4e6955e 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -257,6 +257,8 @@ static OOP switch_to_process;
    time-sharing fashion.  */
 static mst_Boolean time_to_preempt;
 
+int _gst_callin_priority = USER_SCHEDULING_PRIORITY;
+
 /* Used to bail out of a C callout and back to the interpreter.  */
 static interp_jmp_buf *reentrancy_jmp_buf = NULL;
 
@@ -2196,7 +2198,7 @@ create_callin_process (OOP contextOOP)
 
   processor = (gst_processor_scheduler) OOP_TO_OBJ (_gst_processor_oop);
   processListsOOP = processor->processLists;
-  initialProcessListOOP = ARRAY_AT (processListsOOP, 4);
+  initialProcessListOOP = ARRAY_AT (processListsOOP, _gst_callin_priority);
 
   nameOOP = _gst_string_new ("call-in process");
   INC_ADD_OOP (nameOOP);
@@ -2205,7 +2207,7 @@ create_callin_process (OOP contextOOP)
     instantiate (_gst_callin_process_class, &initialProcessOOP);
 
   INC_ADD_OOP (initialProcessOOP);
-  initialProcess->priority = FROM_INT (USER_SCHEDULING_PRIORITY);
+  initialProcess->priority = FROM_INT (_gst_callin_priority);
   initialProcess->interruptLock = _gst_nil_oop;
   initialProcess->suspendedContext = contextOOP;
   initialProcess->name = nameOOP;
@@ -2382,7 +2384,7 @@ _gst_nvmsg_send (OOP receiver,
   process = (gst_process) OOP_TO_OBJ (currentProcessOOP);
 
   if (!IS_NIL (currentProcessOOP)
-      && TO_INT (process->priority) > USER_SCHEDULING_PRIORITY)
+      && TO_INT (process->priority) > _gst_callin_priority)
     ACTIVE_PROCESS_YIELD ();
 
   result = _gst_interpret (processOOP);
diff --git a/libgst/interp.h b/libgst/interp.h
index e286e47..1731a23 100644
--- a/libgst/interp.h
+++ b/libgst/interp.h
@@ -58,6 +58,7 @@
 /* The number of available process priorities */
 #define NUM_PRIORITIES		 9
 #define USER_SCHEDULING_PRIORITY 4
+#define HIGH_IO_PRIORITY 7
 
 /* Ordering of file operations must match that used in
    FileStream.st */
@@ -350,6 +351,10 @@ extern mst_Boolean _gst_except_flag
   ATTRIBUTE_HIDDEN;
 #endif
 
+/* The priority of the processes that are created for call-ins.  */
+extern int _gst_callin_priority 
+  ATTRIBUTE_HIDDEN;
+
 /* Create a new Process on the top of the stack, which is specially
    marked so that it stops the interpreter's execution.  This kind
    of MethodContext is used to mark call-ins from C to Smalltalk
-- 
2.43.0


From 37a74028a80fd885b8db130894a8efe677034eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:59 +0000
Subject: [PATCH 47/62] fix: a snapshot taken while a process registers an
 object for finalization could not be restarted

---
 kernel/Object.st | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kernel/Object.st b/kernel/Object.st
index ceadc0b..b6ec9df 100644
--- a/kernel/Object.st
+++ b/kernel/Object.st
@@ -79,9 +79,11 @@ All classes in the system are subclasses of me.'>
 	"Answer a set of finalizable objects."
 
 	<category: 'initialization'>
-	FinalizableObjects isNil 
-	    ifTrue: [FinalizableObjects := WeakKeyIdentityDictionary new].
-	^FinalizableObjects
+	| objects |
+	objects := FinalizableObjects.
+	objects isNil 
+	    ifTrue: [FinalizableObjects := objects := WeakKeyIdentityDictionary new].
+	^objects
     ]
 
     Object class >> initialize [
-- 
2.43.0


From 22218b70c7b59ccf3cb508ace81f99be45daa226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:26 +0000
Subject: [PATCH 48/62] fix: a process switch between a call-out and the check
 of its error lost or mixed up the error

---
 kernel/Process.st | 2 +-
 libgst/dict.c     | 4 ++--
 libgst/interp.c   | 7 +++++++
 libgst/interp.h   | 3 ++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/kernel/Process.st b/kernel/Process.st
index 569492b..84a8f2f 100644
--- a/kernel/Process.st
+++ b/kernel/Process.st
@@ -33,7 +33,7 @@
 
 
 Link subclass: Process [
-    | suspendedContext priority myList name environment interruptLock interrupts |
+    | suspendedContext priority myList name environment interruptLock interrupts savedErrno |
     
     <category: 'Language-Processes'>
     <comment: 'I represent a unit of computation.  My instances are independantly
diff --git a/libgst/dict.c b/libgst/dict.c
index 8b37f0f..8a56cef 100644
--- a/libgst/dict.c
+++ b/libgst/dict.c
@@ -434,9 +434,9 @@ static const class_definition class_info[] = {
    "Link", "nextLink", NULL, NULL },
 
   {&_gst_process_class, &_gst_link_class,
-   GST_ISP_FIXED, true, 7,
+   GST_ISP_FIXED, true, 8,
    "Process",
-   "suspendedContext priority myList name environment interrupts interruptLock",
+   "suspendedContext priority myList name environment interrupts interruptLock savedErrno",
    NULL, NULL },
 
   {&_gst_callin_process_class, &_gst_process_class,
diff --git a/libgst/interp.c b/libgst/interp.c
index 4e6955e..29ac239 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -1338,8 +1338,15 @@ change_process_context (OOP newProcess)
       if (!IS_NIL (processOOP) && !is_process_terminating (processOOP))
         process->suspendedContext = _gst_this_context_oop;
 
+      /* A call-out and the check for its errors are two operations, so
+         each process has an errno of its own.  */
+      if (!IS_NIL (processOOP))
+        process->savedErrno = FROM_INT (_gst_errno);
+
       processor->activeProcess = newProcess;
       process = (gst_process) OOP_TO_OBJ (newProcess);
+      _gst_errno = IS_NIL (process->savedErrno)
+		   ? 0 : TO_INT (process->savedErrno);
       enable_async_queue = IS_NIL (process->interrupts)
 		           || TO_INT (process->interrupts) <= 0;
 
diff --git a/libgst/interp.h b/libgst/interp.h
index 1731a23..638b11e 100644
--- a/libgst/interp.h
+++ b/libgst/interp.h
@@ -209,7 +209,8 @@ typedef struct gst_semaphore
   OOP name; \
   OOP unwindPoints; \
   OOP interrupts; \
-  OOP interruptLock
+  OOP interruptLock; \
+  OOP savedErrno			/* errno of its last call-out */
 
 typedef struct gst_process
 {
-- 
2.43.0


From 0e5377f7ea3fd3cf3b489e33c8cddcb2906c7e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:26 +0000
Subject: [PATCH 49/62] fix: report errors in reading a directory

---
 kernel/File.st | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kernel/File.st b/kernel/File.st
index fa34763..6a4f3db 100644
--- a/kernel/File.st
+++ b/kernel/File.st
@@ -626,15 +626,17 @@ FilePath subclass: File [
 	 receiver, passing its name. aBlock should not return."
 
 	<category: 'directory operations'>
-	| dir entry |
+	| dir entry errno |
 	dir := self openDir: self asString.
 	dir isNil ifTrue: [^File checkError].
 	
+	"Closing the directory forgets why the last readDir: failed."
 	[[(entry := self readDir: dir) notNil] 
-	    whileTrue: [aBlock value: (self extractDirentName: entry)]]
+	    whileTrue: [aBlock value: (self extractDirentName: entry)].
+	errno := File errno]
 		    ensure: [self closeDir: dir].
 
-	File checkError.
+	File checkError: errno.
     ]
 
     linkAs: destName [
-- 
2.43.0


From 99bfb9071edfd58fd78a25181a66fba6ef93bcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:26 +0000
Subject: [PATCH 50/62] fix: report errors in closing a file, and release its
 descriptor nevertheless

---
 kernel/FileDescr.st | 7 +++++--
 libgst/prims.def    | 8 +++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/kernel/FileDescr.st b/kernel/FileDescr.st
index e292517..564b253 100644
--- a/kernel/FileDescr.st
+++ b/kernel/FileDescr.st
@@ -312,13 +312,16 @@ do arbitrary processing on the files.'>
 	"Close the file"
 
 	<category: 'basic'>
+	| errno |
 	self isOpen ifFalse: [^self].
 	self flush.
 	self changed: #beforeClosing.
-	self fileOp: 1.
+	errno := 0.
+	self fileOp: 1 ifFail: [errno := File errno].
 	self removeToBeFinalized.
 	self invalidate.
-	self changed: #afterClosing
+	self changed: #afterClosing.
+	File checkError: errno
     ]
 
     finalize [
diff --git a/libgst/prims.def b/libgst/prims.def
index 2c512b9..a835d6a 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -5605,10 +5605,12 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
     {
     case PRIM_CLOSE_FILE:	/* FileDescriptor close */
       _gst_remove_fd_polling_handlers (fd);
+      /* The descriptor is free even if close fails.  */
+      fileStream->fd = _gst_nil_oop;
       rc = close (fd);
-      if (rc == 0)
-        fileStream->fd = _gst_nil_oop;
-      resultOOP = FROM_INT (rc);
+      if (rc < 0 && errno != EINTR)
+	goto fail;
+      resultOOP = FROM_INT (0);
       goto succeed;
 
     case PRIM_FSEEK_SET:		/* FileDescriptor position: position */
-- 
2.43.0


From 71bef2c299831d9c0d1fcddb46c2841e6913b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:27 +0000
Subject: [PATCH 51/62] fix: what the Transcript displays is not interrupted by
 what other processes write

---
 kernel/Transcript.st | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/kernel/Transcript.st b/kernel/Transcript.st
index 62028da..14885b8 100644
--- a/kernel/Transcript.st
+++ b/kernel/Transcript.st
@@ -161,6 +161,24 @@ implements the global Transcript object.'>
 		Processor idle]
     ]
 
+    << anObject [
+	"Print anObject's displayOn: representation to the Transcript"
+
+	<category: 'printing'>
+	self display: anObject
+    ]
+
+    display: anObject [
+	"Print anObject's displayOn: representation to the Transcript, without
+	 letting what other processes write get in the middle of it"
+
+	<category: 'printing'>
+	| stream |
+	stream := WriteStream on: String new.
+	anObject displayOn: stream.
+	self nextPutAll: stream contents
+    ]
+
     printOn: aStream [
 	"Print a representation of the receiver onto aStream"
 
-- 
2.43.0


From 68cfd6fdb4f50fc41ea00f4e1e4c2ba2a09c4863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:27 +0000
Subject: [PATCH 52/62] fix: become: on a weak object made it strong

---
 libgst/oop.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libgst/oop.c b/libgst/oop.c
index a5fcc2a..9b235d9 100644
--- a/libgst/oop.c
+++ b/libgst/oop.c
@@ -667,15 +667,20 @@ _gst_swap_objects (OOP oop1,
 {
   struct oop_s tempOOP;
   inc_ptr incPtr;
+  mst_Boolean weak1, weak2;
 
   incPtr = INC_SAVE_POINTER ();
   INC_ADD_OOP (oop1);
   INC_ADD_OOP (oop2);
 
-  if (oop2->flags & F_WEAK)
+  /* Weakness goes with the contents.  */
+  weak1 = (oop1->flags & F_WEAK) != 0;
+  weak2 = (oop2->flags & F_WEAK) != 0;
+
+  if (weak2)
     _gst_make_oop_non_weak (oop2);
 
-  if (oop1->flags & F_WEAK)
+  if (weak1)
     _gst_make_oop_non_weak (oop1);
 
   /* Put the two objects in the same generation.  FIXME: this can be
@@ -708,10 +713,10 @@ _gst_swap_objects (OOP oop1,
       oop2->flags ^= F_REACHABLE;
     }
 
-  if (oop2->flags & F_WEAK)
+  if (weak1)
     _gst_make_oop_weak (oop2);
 
-  if (oop1->flags & F_WEAK)
+  if (weak2)
     _gst_make_oop_weak (oop1);
 
   INC_RESTORE_POINTER (incPtr);
-- 
2.43.0


From 35dabde513e4768b6c1720bdfe74bd8ca2f18bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:27 +0000
Subject: [PATCH 53/62] fix: a process interrupted while it waits for a file
 missed that the file became ready

---
 libgst/sysdep/posix/events.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libgst/sysdep/posix/events.c b/libgst/sysdep/posix/events.c
index 39d6ea9..9ea22ac 100644
--- a/libgst/sysdep/posix/events.c
+++ b/libgst/sysdep/posix/events.c
@@ -295,7 +295,9 @@ signal_polled_files (int fd, mst_Boolean try_again)
 	    {
 	      more = try_again;
 	      poll->events = 0;
-	      _gst_sync_signal (node->semaphoreOOP, false);
+	      /* The process may be executing an interrupt, and wait again
+		 on the semaphore when it is done.  */
+	      _gst_sync_signal (node->semaphoreOOP, true);
 	      _gst_unregister_oop (node->semaphoreOOP);
 
 	      /* Pass over the current node */
-- 
2.43.0


From 6ce2e20cdfe578dfbf0dd4176efafcc838d1f519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:28 +0000
Subject: [PATCH 54/62] fix: isOpen could fail while another process closes the
 file

---
 kernel/FileDescr.st | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kernel/FileDescr.st b/kernel/FileDescr.st
index 564b253..21f9856 100644
--- a/kernel/FileDescr.st
+++ b/kernel/FileDescr.st
@@ -594,7 +594,10 @@ do arbitrary processing on the files.'>
 	"Answer whether the file is still open"
 
 	<category: 'accessing'>
-	^fd isInteger and: [fd positive]
+	| handle |
+	"Another process might be closing the file."
+	handle := fd.
+	^handle isInteger and: [handle positive]
     ]
 
     isPipe [
-- 
2.43.0


From 60448c1b84417ee93120ff4fe310fdacb075a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:32 +0000
Subject: [PATCH 55/62] fix: 2147483647 and 4294967295 did not fit in arrays of
 32-bit integers

---
 libgst/dict.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index 528f870..8764a23 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -1297,7 +1297,7 @@ is_c_int_32 (OOP oop)
 #if SIZEOF_OOP == 4
     return (true);
 #else
-    return (TO_INT (oop) >= INT_MIN && TO_INT (oop) < INT_MAX);
+    return (TO_INT (oop) >= INT_MIN && TO_INT (oop) <= INT_MAX);
 #endif
 
   ba = (gst_byte_array) OOP_TO_OBJ (oop);
@@ -1317,7 +1317,7 @@ is_c_uint_32 (OOP oop)
 #if SIZEOF_OOP == 4
     return (TO_INT (oop) >= 0);
 #else
-    return (TO_INT (oop) >= 0 && TO_INT (oop) < UINT_MAX);
+    return (TO_INT (oop) >= 0 && TO_INT (oop) <= UINT_MAX);
 #endif
 
   ba = (gst_byte_array) OOP_TO_OBJ (oop);
-- 
2.43.0


From dcd8c3dc3f6b2f6ce8e9356454e7ebf93f4d6b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:32 +0000
Subject: [PATCH 56/62] fix: ObjectDumper cut SmallIntegers to 32 bits

---
 packages/object-dumper/ObjDumper.st | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages/object-dumper/ObjDumper.st b/packages/object-dumper/ObjDumper.st
index 9803d3f..74c613d 100644
--- a/packages/object-dumper/ObjDumper.st
+++ b/packages/object-dumper/ObjDumper.st
@@ -177,7 +177,7 @@ references at design time and you override #storeOn: to deal with them'>
 	    specialCaseIf: [:object | object == false]
 		dump: [:client :object | ]
 		load: [:client | false];
-	    specialCaseIf: [:object | object class == SmallInteger]
+	    specialCaseIf: [:object | object class == SmallInteger and: [self isLong: object]]
 		dump: [:client :object | client nextPutLong: object]
 		load: [:client | client nextLong];
 	    specialCaseIf: [:object | object class == Character]
@@ -224,7 +224,17 @@ references at design time and you override #storeOn: to deal with them'>
 			ifFalse: [client lookupIndex: index]];
 	    specialCaseIf: [:object | object class == UnicodeCharacter]
 		dump: [:client :object | client nextPutLong: object codePoint]
-		load: [:client | client nextLong asCharacter]
+		load: [:client | client nextLong asCharacter];
+	    specialCaseIf: [:object | object class == SmallInteger]
+		dump: [:client :object | client nextPutInt64: object]
+		load: [:client | client nextLongLong]
+    ]
+
+    ObjectDumper class >> isLong: aSmallInteger [
+	"Private - Answer whether aSmallInteger fits in 32 bits"
+
+	<category: 'private - initialization'>
+	^aSmallInteger >= -16r80000000 and: [aSmallInteger <= 16r7FFFFFFF]
     ]
 
     ObjectDumper class >> on: aFileStream [
-- 
2.43.0


From 9870d99803ef7c94355900e05eadea6e886e3a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:32 +0000
Subject: [PATCH 57/62] fix: ObjectDumper could not store or load some arrays
 of numbers

---
 packages/object-dumper/ObjDumper.st | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/packages/object-dumper/ObjDumper.st b/packages/object-dumper/ObjDumper.st
index 74c613d..1ba2933 100644
--- a/packages/object-dumper/ObjDumper.st
+++ b/packages/object-dumper/ObjDumper.st
@@ -476,7 +476,7 @@ references at design time and you override #storeOn: to deal with them'>
 	    ifTrue: [^self store: anObject through: [:byte | self nextPutByte: byte]].
 	(shape == #short or: [shape == #ushort]) 
 	    ifTrue: [^self store: anObject through: [:short | self nextPutShort: short]].
-	(shape == #int or: [shape == #int]) 
+	(shape == #int or: [shape == #uint]) 
 	    ifTrue: [^self store: anObject through: [:int | self nextPutLong: int]].
 	(shape == #int64 or: [shape == #uint64]) 
 	    ifTrue: [^self store: anObject through: [:int64 | self nextPutInt64: int64]].
@@ -487,7 +487,7 @@ references at design time and you override #storeOn: to deal with them'>
 	    ifTrue: [^self store: anObject through: [:float | self nextPutFloat: float]].
 	shape == #double 
 	    ifTrue: 
-		[^self store: anObject through: [:double | self nextPutFloat: double]].
+		[^self store: anObject through: [:double | self nextPutDouble: double]].
 	self notYetImplemented
     ]
 
@@ -520,7 +520,7 @@ references at design time and you override #storeOn: to deal with them'>
 		(shape == #byte and: [indexed isNil]) 
 		    ifTrue: [indexed := (1 to: size) collect: [:i | self nextByte]].
 		shape == #int8 
-		    ifTrue: [indexed := (1 to: size) collect: [:i | self nextSignByte]].
+		    ifTrue: [indexed := (1 to: size) collect: [:i | self nextSignedByte]].
 		shape == #short 
 		    ifTrue: [indexed := (1 to: size) collect: [:i | self nextShort]].
 		shape == #ushort 
@@ -530,7 +530,7 @@ references at design time and you override #storeOn: to deal with them'>
 		shape == #uint 
 		    ifTrue: [indexed := (1 to: size) collect: [:i | self nextUlong]].
 		shape == #int64 
-		    ifTrue: [indexed := (1 to: size) collect: [:i | self nextInt64]].
+		    ifTrue: [indexed := (1 to: size) collect: [:i | self nextLongLong]].
 		shape == #uint64 
 		    ifTrue: [indexed := (1 to: size) collect: [:i | self nextUint64]].
 		shape == #utf32 
@@ -562,12 +562,12 @@ references at design time and you override #storeOn: to deal with them'>
 	shape := class shape.
 	shape == #character ifTrue: [^self load: object through: [Character value: self nextByte]].
 	shape == #byte ifTrue: [^self load: object through: [self nextByte]].
-	shape == #int8 ifTrue: [^self load: object through: [self nextSignByte]].
+	shape == #int8 ifTrue: [^self load: object through: [self nextSignedByte]].
 	shape == #short ifTrue: [^self load: object through: [self nextShort]].
 	shape == #ushort ifTrue: [^self load: object through: [self nextUshort]].
 	shape == #int ifTrue: [^self load: object through: [self nextLong]].
 	shape == #uint ifTrue: [^self load: object through: [self nextUlong]].
-	shape == #int64 ifTrue: [^self load: object through: [self nextInt64]].
+	shape == #int64 ifTrue: [^self load: object through: [self nextLongLong]].
 	shape == #uint64 ifTrue: [^self load: object through: [self nextUint64]].
 	shape == #utf32 
 	    ifTrue: [^self load: object through: [self nextLong asCharacter]].
@@ -679,7 +679,8 @@ references at design time and you override #storeOn: to deal with them'>
 	    at: 5 put: self nextByte;
 	    at: 6 put: self nextByte;
 	    at: 7 put: self nextByte;
-	    at: 8 put: self nextByte
+	    at: 8 put: self nextByte;
+	    yourself
     ]
 
     nextFloat [
@@ -690,7 +691,8 @@ references at design time and you override #storeOn: to deal with them'>
 	    at: 1 put: self nextByte;
 	    at: 2 put: self nextByte;
 	    at: 3 put: self nextByte;
-	    at: 4 put: self nextByte
+	    at: 4 put: self nextByte;
+	    yourself
     ]
 
     nextUint64 [
-- 
2.43.0


From 05f385ead94fa4d99f299b2521603bc03491361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:32 +0000
Subject: [PATCH 58/62] fix: ObjectDumper answered incomplete objects at the
 end of the stream

---
 packages/object-dumper/ObjDumper.st | 39 ++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/packages/object-dumper/ObjDumper.st b/packages/object-dumper/ObjDumper.st
index 1ba2933..c4f97ad 100644
--- a/packages/object-dumper/ObjDumper.st
+++ b/packages/object-dumper/ObjDumper.st
@@ -33,7 +33,7 @@
 
 
 Stream subclass: ObjectDumper [
-    | toObjects fromObjects stream |
+    | toObjects fromObjects stream depth |
     
     <category: 'Streams-Files'>
     <comment: 'I''m not part of a normal Smalltalk system, but most
@@ -182,7 +182,7 @@ references at design time and you override #storeOn: to deal with them'>
 		load: [:client | client nextLong];
 	    specialCaseIf: [:object | object class == Character]
 		dump: [:client :object | client stream nextPut: object]
-		load: [:client | client stream next];
+		load: [:client | Character value: client nextByte];
 	    specialCaseIf: [:object | object class class == Metaclass]
 		dump: [:client :object | client storeGlobal: object]
 		load: [:client | client loadGlobal];
@@ -303,13 +303,23 @@ references at design time and you override #storeOn: to deal with them'>
 	<category: 'loading/dumping objects'>
 	"Special-case metaclasses and other objects"
 
+	"An object that ends before its parts have all been loaded is an error."
+
 	| index class |
-	stream atEnd ifTrue: [^self pastEnd].
-	index := self nextLong.
-	index < 0 ifTrue: [^self specialCaseLoad: index].
-	index > 0 ifTrue: [^self lookupIndex: index].
-	class := self loadClass.
-	^self primLoad: class
+	stream atEnd 
+	    ifTrue: [^depth = 0 ifTrue: [self pastEnd] ifFalse: [self unexpectedEnd]].
+	depth := depth + 1.
+	^[
+	    index := self nextLong.
+	    index < 0 
+		ifTrue: [self specialCaseLoad: index]
+		ifFalse: 
+		    [index > 0 
+			ifTrue: [self lookupIndex: index]
+			ifFalse: 
+			    [class := self loadClass.
+			    self primLoad: class]]] 
+		ensure: [depth := depth - 1]
     ]
 
     flush [
@@ -382,6 +392,7 @@ references at design time and you override #storeOn: to deal with them'>
 
 	<category: 'private'>
 	stream := aStream.
+	depth := 0.
 	self flush.
 	^self
     ]
@@ -444,6 +455,13 @@ references at design time and you override #storeOn: to deal with them'>
 	^object
     ]
 
+    unexpectedEnd [
+	"Private - The stream ends in the middle of an object"
+
+	<category: 'private'>
+	^self error: 'unexpected end of stream'
+    ]
+
     nextAsciiz [
 	"Private - Get a Null-terminated string from stream and answer it"
 
@@ -650,7 +668,10 @@ references at design time and you override #storeOn: to deal with them'>
 	"Return the next byte in the byte array"
 
 	<category: 'private - binary I/O'>
-	^stream next asInteger
+	| byte |
+	byte := stream next.
+	byte isNil ifTrue: [^self unexpectedEnd].
+	^byte asInteger
     ]
 
     nextByteArray: numBytes [
-- 
2.43.0


From 9f48cb2415c0cfbd847cd0b396de2e0a03db5fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:32 +0000
Subject: [PATCH 59/62] fix: SandstoneDb looked for .new in the directory of a
 file, too

---
 packages/sandstonedb/Store/SDFileStore.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/sandstonedb/Store/SDFileStore.st b/packages/sandstonedb/Store/SDFileStore.st
index 108bc40..977c6ac 100644
--- a/packages/sandstonedb/Store/SDFileStore.st
+++ b/packages/sandstonedb/Store/SDFileStore.st
@@ -246,7 +246,7 @@ SDCachedStore subclass: SDFileStore [
 	[(self dirForClass: aClass)  
 	    allFilesMatching: '*.new' 
 	    do: [:each || objFile dir |
-		    objFile := File name: (each name copyReplacingAllRegex: '.new' with: '').
+		    objFile := File name: (each name copyFrom: 1 to: each name size - '.new' size).
 		    objFile exists ifFalse: [each renameTo: objFile name]]]
 	    on: Error
 	    do: [:err | Transcript show: err; cr].
-- 
2.43.0


From 67e157c2ffe6605f712364b1aaed57577baeec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:32 +0000
Subject: [PATCH 60/62] fix: after a failed save, SandstoneDb could lose a
 later one

---
 packages/sandstonedb/Store/SDFileStore.st | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/sandstonedb/Store/SDFileStore.st b/packages/sandstonedb/Store/SDFileStore.st
index 977c6ac..ed1306c 100644
--- a/packages/sandstonedb/Store/SDFileStore.st
+++ b/packages/sandstonedb/Store/SDFileStore.st
@@ -135,12 +135,17 @@ SDCachedStore subclass: SDFileStore [
 	currentVersion := dir at: anObject id , '.obj'.
 	newVersion := dir at: anObject id , '.obj.new'.
 	oldVersion := dir at: anObject id , '.obj.old'.
-	"just in case a previous commit failed and left junk around"
+	"a previous commit may have failed after moving the current version away"
+	(currentVersion exists not and: [newVersion exists]) 
+	    ifTrue: [newVersion renameTo: currentVersion name].
+
+	"just in case a previous commit failed and left junk around; do not overwrite it,
+	 because the stream of that commit could still be open on it"
+	newVersion exists ifTrue: [newVersion remove].
 	oldVersion exists ifTrue: [oldVersion remove].
 	"the flush ensures all data is actually written to disk before moving on"
 	stream := FileStream open: newVersion name mode: FileStream write.
-	(ObjectDumper on: stream) dump: anObject.
-	stream close.
+	[(ObjectDumper on: stream) dump: anObject] ensure: [stream close].
 	"just in case any junk was lying around that failed to die on last commit"
 	oldVersion exists ifTrue: [oldVersion remove].
 	"the pre-commit, on first save there won't be a current version, and fileExists is
-- 
2.43.0


From 4d0a30f25219b5c63801961a9a16bafa06b9a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:32 +0000
Subject: [PATCH 61/62] fix: SandstoneDb dropped the lock of a record after
 abortChanges

---
 packages/sandstonedb/Store/SDFileStore.st | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/sandstonedb/Store/SDFileStore.st b/packages/sandstonedb/Store/SDFileStore.st
index ed1306c..384e8bc 100644
--- a/packages/sandstonedb/Store/SDFileStore.st
+++ b/packages/sandstonedb/Store/SDFileStore.st
@@ -55,7 +55,10 @@ SDCachedStore subclass: SDFileStore [
 			    addCachedOfClass: anObject class
 			    at: anObject id
 			    put: anObject]
-		    ifNotNil: [anObject becomeForward: diskVersion]]
+		    ifNotNil: 
+			["the lock that we are in is kept only as long as this string"
+			diskVersion instVarNamed: #id put: anObject id.
+			anObject becomeForward: diskVersion]]
     ]
 
     addCachedOfClass: aClass at: anId put: anObject [
-- 
2.43.0


From 5662f5c5d42a66b6572b5cab2aa3d0b47beacacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:32 +0000
Subject: [PATCH 62/62] fix: SandstoneDb ran the critical section of a deleted
 record without its new lock

---
 packages/sandstonedb/Core/SDActiveRecord.st | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/sandstonedb/Core/SDActiveRecord.st b/packages/sandstonedb/Core/SDActiveRecord.st
index b51538d..3e1ab33 100644
--- a/packages/sandstonedb/Core/SDActiveRecord.st
+++ b/packages/sandstonedb/Core/SDActiveRecord.st
@@ -49,8 +49,11 @@ Object subclass: SDActiveRecord [
     of thousands, but for prototyping and small office applications where the
     number of records are in the thousands and the number of concurrent users
     can be handled by a single Squeak image.  To use me, simply subclass me and
-    restart your image that''s it.  For more information see
-    http://onsmalltalk.com/programming/smalltalk/sandstonedb-simple-activerecord-style-persistence-in-squeak/'>
+    restart your image that''s it.  
+
+For more information see
+    http://onsmalltalk.com/programming/smalltalk/sandstonedb-simple-activerecord-style-persistence-in-squeak/
+'>
 
     SDActiveRecord class [
 	| locks |
@@ -230,7 +233,13 @@ Object subclass: SDActiveRecord [
 
     critical: aBlock [
 	<category: 'actions'>
-	^(self class lockFor: self) critical: aBlock
+	"The record may be deleted, and get a new id, while we wait: then what
+	 we hold is not its lock anymore"
+
+	| lock |
+	lock := self class lockFor: self.
+	lock critical: [(self class lockFor: self) == lock ifTrue: [^aBlock value]].
+	^self critical: aBlock
     ]
 
     delete [
-- 
2.43.0

