From 79fe7e6abc7a6597a306db99da65ff46e03a89e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 01/21] fix: a machine that ends while it is being started
 stays ended

---
 .../java/com/webotech/statemachine/GenericStateMachine.java     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 51b54bb..6bd18bd 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -230,11 +230,11 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
       }
     }
     if (isStarted.compareAndSet(false, true)) {
+      isEnded.set(false);
       currentState = initState;
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
       notifyStateMachineListener(true, noState, immediateEvent, initState);
-      isEnded.set(false);
     } else {
       throw new IllegalStateException("The state machine has already been started");
     }
-- 
2.43.0


From cf37af6c3df271256b7f41d33b33cdaf8390a6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 02/21] fix: a started machine always has a current state

---
 .../statemachine/GenericStateMachine.java     | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 6bd18bd..96b5ab7 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -229,15 +229,10 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
         }
       }
     }
-    if (isStarted.compareAndSet(false, true)) {
-      isEnded.set(false);
-      currentState = initState;
-      notifyStateMachineListener(false, noState, immediateEvent, initState);
-      initState.onEntry(immediateEvent, this);
-      notifyStateMachineListener(true, noState, immediateEvent, initState);
-    } else {
-      throw new IllegalStateException("The state machine has already been started");
-    }
+    initCurrentState(initState);
+    notifyStateMachineListener(false, noState, immediateEvent, initState);
+    initState.onEntry(immediateEvent, this);
+    notifyStateMachineListener(true, noState, immediateEvent, initState);
   }
 
   /**
@@ -258,11 +253,21 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     if (!states.containsKey(state)) {
       throw new IllegalStateException("State [" + state + "] has not been configured");
     }
-    if (isStarted.compareAndSet(false, true)) {
+    initCurrentState(state);
+  }
+
+  /**
+   * The state is in place before the machine counts as started: from then on other threads can fire
+   * events at it.
+   */
+  private void initCurrentState(State<T, S> state) {
+    synchronized (isStarted) {
+      if (isStarted.get()) {
+        throw new IllegalStateException("The state machine has already been started");
+      }
       this.currentState = state;
       isEnded.set(false);
-    } else {
-      throw new IllegalStateException("The state machine has already been started");
+      isStarted.set(true);
     }
   }
 
-- 
2.43.0


From fd18210cfaec7c916bba13cf0ddadc4460aecda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 03/21] fix: stopping a machine during a transition leaves it
 in the end state

---
 .../webotech/statemachine/GenericStateMachine.java  | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 96b5ab7..da67a06 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -265,8 +265,10 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
       if (isStarted.get()) {
         throw new IllegalStateException("The state machine has already been started");
       }
-      this.currentState = state;
-      isEnded.set(false);
+      synchronized (isEnded) {
+        this.currentState = state;
+        isEnded.set(false);
+      }
       isStarted.set(true);
     }
   }
@@ -321,8 +323,11 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   }
 
   public void updateCurrentState(State<T, S> state) {
-    if (isEnded.compareAndSet(false, state.equals(endState))) {
-      currentState = state;
+    synchronized (isEnded) {
+      if (!isEnded.get()) {
+        currentState = state;
+        isEnded.set(state.equals(endState));
+      }
     }
   }
 
-- 
2.43.0


From 21165bf5d0c0aa3a29b85f9277e2af968219bef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 04/21] fix: current state is visible to all threads

---
 .../java/com/webotech/statemachine/GenericStateMachine.java     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index da67a06..54fdd03 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -41,7 +41,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   private State<T, S> initState;
   private State<T, S> markedState;
   private StateEvent<S> markedEvent;
-  private State<T, S> currentState;
+  private volatile State<T, S> currentState;
 
   private GenericStateMachine(T context, Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states,
       StateMachineListener<T, S> stateMachineListener,
-- 
2.43.0


From a4616b723391a9493b587d75c4854c91a84c20aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 05/21] fix: the listener can be replaced or removed while
 events are processed

---
 .../com/webotech/statemachine/GenericStateMachine.java   | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 54fdd03..1a10dd8 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -37,7 +37,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   private final T context;
   private final EventProcessingStrategy<T, S> eventProcessingStrategy;
   private final UnexpectedFlowListener<T, S> unexpectedFlowListener;
-  private StateMachineListener<T, S> stateMachineListener;
+  private volatile StateMachineListener<T, S> stateMachineListener;
   private State<T, S> initState;
   private State<T, S> markedState;
   private StateEvent<S> markedEvent;
@@ -186,7 +186,8 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
 
   public void notifyStateMachineListener(boolean isComplete, State<T, S> fromState,
       StateEvent<S> stateEvent, State<T, S> toState) {
-    if (this.stateMachineListener != null) {
+    StateMachineListener<T, S> listener = this.stateMachineListener;
+    if (listener != null) {
       if (fromState == null) {
         fromState = this.noState;
       }
@@ -197,9 +198,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
         stateEvent = this.immediateEvent;
       }
       if (isComplete) {
-        this.stateMachineListener.onStateChangeEnd(fromState, stateEvent, toState);
+        listener.onStateChangeEnd(fromState, stateEvent, toState);
       } else {
-        this.stateMachineListener.onStateChangeBegin(fromState, stateEvent, toState);
+        listener.onStateChangeBegin(fromState, stateEvent, toState);
       }
     }
   }
-- 
2.43.0


From e67aa3ad8e3a9ecc50e5aac9f292e720ed85e470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 06/21] fix: an executor with several threads can drain the
 queue

---
 .../webotech/statemachine/strategy/DefaultEventStrategy.java  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 3e870db..f17f2c7 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -85,8 +85,8 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     }
     eventQueue.offer(inboundPair);
     executor.execute(() -> {
-      while (!eventQueue.isEmpty()) {
-        EventMachinePair<T, S> consumedPair = eventQueue.poll();
+      EventMachinePair<T, S> consumedPair;
+      while ((consumedPair = eventQueue.poll()) != null) {
         StateEvent<S> event = consumedPair.getStateEvent();
         GenericStateMachine<T, S> machine = consumedPair.getStateMachine();
         try {
-- 
2.43.0


From a56d66bc22b43761d806d09814a78e0fdf78da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 07/21] fix: transitions of one machine never overlap

---
 .../webotech/statemachine/GenericStateMachine.java    | 11 +++++++----
 .../statemachine/strategy/DefaultEventStrategy.java   |  7 +++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 1a10dd8..726937b 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -230,10 +230,13 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
         }
       }
     }
-    initCurrentState(initState);
-    notifyStateMachineListener(false, noState, immediateEvent, initState);
-    initState.onEntry(immediateEvent, this);
-    notifyStateMachineListener(true, noState, immediateEvent, initState);
+    // Events that are already being processed wait until the initial transition has completed
+    synchronized (this) {
+      initCurrentState(initState);
+      notifyStateMachineListener(false, noState, immediateEvent, initState);
+      initState.onEntry(immediateEvent, this);
+      notifyStateMachineListener(true, noState, immediateEvent, initState);
+    }
   }
 
   /**
diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index f17f2c7..6fc716d 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -90,8 +90,11 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
         StateEvent<S> event = consumedPair.getStateEvent();
         GenericStateMachine<T, S> machine = consumedPair.getStateMachine();
         try {
-          if (!stateMachine.isEnded()) {
-            transitionTask.execute(event, machine);
+          // One transition at a time, also when the executor has several threads
+          synchronized (machine) {
+            if (!machine.isEnded()) {
+              transitionTask.execute(event, machine);
+            }
           }
         } catch (Exception e) {
           unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
-- 
2.43.0


From 9abe0c21d5fa237dbf178f7c93841e158b5013ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 08/21] fix: strategies created with the default configuration
 do not share a queue

---
 .../strategy/EventProcessingStrategyFactory.java            | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java b/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
index 458d3b7..0cdf620 100644
--- a/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
+++ b/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
@@ -137,10 +137,8 @@ public class EventProcessingStrategyFactory {
     }
 
     Queue<EventMachinePair<T, S>> getEventQueue() {
-      if (eventQueue == null) {
-        eventQueue = new ConcurrentLinkedQueue<>();
-      }
-      return eventQueue;
+      // Not kept: strategies that are created with the same Config each need their own queue
+      return eventQueue == null ? new ConcurrentLinkedQueue<>() : eventQueue;
     }
   }
 }
-- 
2.43.0


From f5c4b979d785a70afac5ac6f3dceecce0c0004a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 09/21] fix: an event that the queue refuses is reported

---
 .../strategy/DefaultEventStrategy.java        | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 6fc716d..3747aa2 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -68,11 +68,8 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
 
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
-    int queueSize = getEventQueueSize();
-    if (maxQueueSize > 0 && queueSize >= maxQueueSize) {
-      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
-          Thread.currentThread(), new IllegalStateException(
-              String.format("Queue size is maxed out at %s - dropping event", queueSize)));
+    if (maxQueueSize > 0 && getEventQueueSize() >= maxQueueSize) {
+      onQueueFull(stateEvent, stateMachine);
       return;
     }
     EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
@@ -83,7 +80,11 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     } else {
       inboundPair.setEventMachinePair(stateEvent, stateMachine);
     }
-    eventQueue.offer(inboundPair);
+    if (!eventQueue.offer(inboundPair)) {
+      eventMachinePairPool.give(inboundPair);
+      onQueueFull(stateEvent, stateMachine);
+      return;
+    }
     executor.execute(() -> {
       EventMachinePair<T, S> consumedPair;
       while ((consumedPair = eventQueue.poll()) != null) {
@@ -106,6 +107,12 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     });
   }
 
+  private void onQueueFull(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
+    unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
+        Thread.currentThread(), new IllegalStateException(
+            String.format("Queue size is maxed out at %s - dropping event", getEventQueueSize())));
+  }
+
   @Override
   public void setStates(Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states) {
     this.transitionTask.setStates(states);
-- 
2.43.0


From 0e4d51e6a65c8ef8594da2e34563ab656896937e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 10/21] fix: concurrent firers cannot exceed the maximum queue
 size

---
 .../strategy/DefaultEventStrategy.java        | 40 ++++++++++++-------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 3747aa2..dae37ed 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -68,20 +68,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
 
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
-    if (maxQueueSize > 0 && getEventQueueSize() >= maxQueueSize) {
-      onQueueFull(stateEvent, stateMachine);
-      return;
-    }
-    EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
-    if (stateEvent.getPayload() != null) {
-      /* Use a safe copy of the StateEvent in case the client is
-        setting different payloads on the same event instance */
-      inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);
-    } else {
-      inboundPair.setEventMachinePair(stateEvent, stateMachine);
-    }
-    if (!eventQueue.offer(inboundPair)) {
-      eventMachinePairPool.give(inboundPair);
+    if (!enqueue(stateEvent, stateMachine)) {
       onQueueFull(stateEvent, stateMachine);
       return;
     }
@@ -107,6 +94,31 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     });
   }
 
+  private boolean enqueue(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
+    if (maxQueueSize <= 0) {
+      return offer(stateEvent, stateMachine);
+    }
+    synchronized (eventQueue) {
+      return eventQueue.size() < maxQueueSize && offer(stateEvent, stateMachine);
+    }
+  }
+
+  private boolean offer(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
+    EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
+    if (stateEvent.getPayload() != null) {
+      /* Use a safe copy of the StateEvent in case the client is
+        setting different payloads on the same event instance */
+      inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);
+    } else {
+      inboundPair.setEventMachinePair(stateEvent, stateMachine);
+    }
+    if (eventQueue.offer(inboundPair)) {
+      return true;
+    }
+    eventMachinePairPool.give(inboundPair);
+    return false;
+  }
+
   private void onQueueFull(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
         Thread.currentThread(), new IllegalStateException(
-- 
2.43.0


From 5eedd1120b5636ebbde5b8c4faaf36b73751cc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 11/21] fix: concurrent firers cannot both queue the same event

---
 .../statemachine/strategy/DefaultEventStrategy.java  |  9 +++++++--
 .../strategy/DropDuplicateEventStrategy.java         | 12 ++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index dae37ed..5dfd73c 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -68,7 +68,12 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
 
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
-    if (!enqueue(stateEvent, stateMachine)) {
+    process(enqueue(stateEvent, stateMachine), stateEvent, stateMachine);
+  }
+
+  void process(boolean isQueued, StateEvent<S> stateEvent,
+      GenericStateMachine<T, S> stateMachine) {
+    if (!isQueued) {
       onQueueFull(stateEvent, stateMachine);
       return;
     }
@@ -94,7 +99,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     });
   }
 
-  private boolean enqueue(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
+  boolean enqueue(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     if (maxQueueSize <= 0) {
       return offer(stateEvent, stateMachine);
     }
diff --git a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
index 2abcb94..54cb08a 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
@@ -42,11 +42,15 @@ public class DropDuplicateEventStrategy<T, S> implements EventProcessingStrategy
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();
-    if (eventQueue.stream().anyMatch(en -> en.getStateEvent().equals(stateEvent))) {
-      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
-      return;
+    boolean isQueued;
+    synchronized (eventQueue) {
+      if (eventQueue.stream().anyMatch(en -> en.getStateEvent().equals(stateEvent))) {
+        logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
+        return;
+      }
+      isQueued = defaultStrategy.enqueue(stateEvent, stateMachine);
     }
-    defaultStrategy.processEvent(stateEvent, stateMachine);
+    defaultStrategy.process(isQueued, stateEvent, stateMachine);
   }
 
   @Override
-- 
2.43.0


From 37b11a7b4f99ca4a45173d854909326e8d5f0761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 12/21] fix: the queue size counts the event that is being
 processed

---
 .../statemachine/strategy/DefaultEventStrategy.java      | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 5dfd73c..3cd8186 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -13,6 +13,7 @@ import com.webotech.statemachine.api.StateMachine;
 import java.util.Map;
 import java.util.Queue;
 import java.util.concurrent.ExecutorService;
+import java.util.concurrent.atomic.AtomicInteger;
 import java.util.function.BiConsumer;
 
 public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S> {
@@ -23,6 +24,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
   private final UnexpectedFlowListener<T, S> unexpectedFlowListener;
   private final EventMachinePairPool<T, S> eventMachinePairPool;
   private final int maxQueueSize;
+  private final AtomicInteger uncompleted = new AtomicInteger();
 
   /**
    * The default {@link EventProcessingStrategy}, it transitions state atomically. All
@@ -63,7 +65,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
 
   @Override
   public int getEventQueueSize() {
-    return eventQueue.size();
+    return uncompleted.get();
   }
 
   @Override
@@ -94,6 +96,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
               Thread.currentThread(), e);
         } finally {
           eventMachinePairPool.give(consumedPair);
+          uncompleted.decrementAndGet();
         }
       }
     });
@@ -117,9 +120,11 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     } else {
       inboundPair.setEventMachinePair(stateEvent, stateMachine);
     }
+    uncompleted.incrementAndGet();
     if (eventQueue.offer(inboundPair)) {
       return true;
     }
+    uncompleted.decrementAndGet();
     eventMachinePairPool.give(inboundPair);
     return false;
   }
@@ -127,7 +132,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
   private void onQueueFull(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
         Thread.currentThread(), new IllegalStateException(
-            String.format("Queue size is maxed out at %s - dropping event", getEventQueueSize())));
+            String.format("Queue size is maxed out at %s - dropping event", eventQueue.size())));
   }
 
   @Override
-- 
2.43.0


From 08d62585e75ed76b50662ad9b3c426cdc0887c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 13/21] fix: an event that is fired without a payload is copied
 as well

---
 .../webotech/statemachine/strategy/DefaultEventStrategy.java    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 3cd8186..b4be5a0 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -113,7 +113,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
 
   private boolean offer(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
-    if (stateEvent.getPayload() != null) {
+    if (stateEvent.getPayload() != null || stateEvent instanceof NamedStateEvent) {
       /* Use a safe copy of the StateEvent in case the client is
         setting different payloads on the same event instance */
       inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);
-- 
2.43.0


From e24db680714a07a50be73e229858d20cc0d1630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 14/21] fix: mapping an event of a state twice is refused

---
 .../java/com/webotech/statemachine/GenericStateMachine.java     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 726937b..dee69ac 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -91,7 +91,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     assertInitStateDefined(true);
     assertMarkedStateDefined(true);
     this.markedEvent = stateEvent;
-    this.states.get(this.markedState).put(this.markedEvent, null);
+    this.states.get(this.markedState).putIfAbsent(this.markedEvent, null);
     return this;
   }
 
-- 
2.43.0


From 2ec18bfdb59ed0850302b38fa39ca6d8412a81ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 15/21] fix: a transition without an event is refused

---
 .../java/com/webotech/statemachine/GenericStateMachine.java  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index dee69ac..bd792b5 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -149,6 +149,11 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   }
 
   private void assertEventNotMapped() {
+    if (this.markedEvent == null) {
+      throw new IllegalStateException(
+          "A StateEvent for State [" + this.markedState.getName()
+              + "] has to be defined using receives().");
+    }
     State<T, S> toState = this.states.get(this.markedState).get(this.markedEvent);
     if (toState != null) {
       throw new IllegalStateException(
-- 
2.43.0


From 55e4184deedfa94c11da6aa35111b725c8012401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 16/21] fix: a machine whose initial state ends is ended by
 starting it

---
 .../java/com/webotech/statemachine/GenericStateMachine.java    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index bd792b5..e265b7d 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -241,6 +241,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
       notifyStateMachineListener(true, noState, immediateEvent, initState);
+      if (endState.equals(states.get(initState).get(immediateEvent))) {
+        stop();
+      }
     }
   }
 
-- 
2.43.0


From 2627d6af5aebf9e64c290dfeafd76b5c4f743618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 17/21] fix: start() returns when a restartable app has ended

---
 .../webotech/statemachine/service/AbstractAppService.java   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
index ec4893f..f564b3b 100644
--- a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
+++ b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
@@ -102,6 +102,12 @@ public abstract class AbstractAppService<C extends AppContext<C>> implements App
       }
     });
 
+    stopped.appendExitActions((ev, sm) -> {
+      if (LifecycleStateMachineUtil.evtStop.equals(ev)) {
+        appLatch.countDown();
+      }
+    });
+
     LifecycleStateMachineUtil.configureAppStateMachine(appStateMachine, uninitialised, starting,
         started, stopping, stopped);
   }
-- 
2.43.0


From 01d316cc130607eb9eea62a9d4bdf9d660c1bc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 18/21] fix: start() does not fail when the app is stopped

---
 .../com/webotech/statemachine/service/AbstractAppService.java    | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
index f564b3b..b909fe5 100644
--- a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
+++ b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
@@ -134,7 +134,6 @@ public abstract class AbstractAppService<C extends AppContext<C>> implements App
       } catch (InterruptedException e) {
         logger.error("Main latch was interrupted", e);
         Thread.currentThread().interrupt();
-      } finally {
         if (!appStateMachine.isEnded()) {
           stop();
         }
-- 
2.43.0


From 14ebd5127a9ddaf0d6c87d1a5854a2e79013b603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:18 +0000
Subject: [PATCH 19/21] fix: machines can be built by several threads at once

The defaults of a Config, which all machines that are built without a strategy share, were set up
lazily without synchronization: a data race, and each thread could end up with its own executor.
---
 .../strategy/EventProcessingStrategyFactory.java            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java b/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
index 0cdf620..aed2b9f 100644
--- a/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
+++ b/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
@@ -104,7 +104,7 @@ public class EventProcessingStrategyFactory {
       return this;
     }
 
-    BiConsumer<StateEvent<S>, StateMachine<T, S>> getUnmappedEventHandler() {
+    synchronized BiConsumer<StateEvent<S>, StateMachine<T, S>> getUnmappedEventHandler() {
       if (unmappedEventHandler == null) {
         unmappedEventHandler = (ev, sm) -> logger.info(LOG_EVENT_NOT_MAPPED, ev.getName(),
             sm.getCurrentState().getName());
@@ -112,7 +112,7 @@ public class EventProcessingStrategyFactory {
       return unmappedEventHandler;
     }
 
-    ExecutorService getExecutor() {
+    synchronized ExecutorService getExecutor() {
       if (executor == null) {
         executor = Executors.newSingleThreadExecutor(
             Threads.newNamedDaemonThreadFactory(threadName == null ? "state-machine" : threadName,
@@ -121,7 +121,7 @@ public class EventProcessingStrategyFactory {
       return executor;
     }
 
-    UnexpectedFlowListener<T, S> getUnexpectedFlowListener() {
+    synchronized UnexpectedFlowListener<T, S> getUnexpectedFlowListener() {
       if (unexpectedFlowListener == null) {
         unexpectedFlowListener = new DefaultUnexpectedFlowListener<>();
       }
-- 
2.43.0


From 44f7b6c9a2f7b224000e079d8a1467f5a797676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:23 +0000
Subject: [PATCH 20/21] fix: machines that are built by one builder do not
 share a default strategy

---
 .../com/webotech/statemachine/GenericStateMachine.java     | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index e265b7d..7091bba 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -386,11 +386,10 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     }
 
     public GenericStateMachine<T, S> build() {
-      if (eventProcessingStrategy == null) {
-        eventProcessingStrategy = EventProcessingStrategyFactory.createDefaultStrategy();
-      }
+      // Not kept: every machine that is built needs its own default strategy
       return new GenericStateMachine<>(context, new HashMap<>(), stateMachineListener,
-          eventProcessingStrategy);
+          eventProcessingStrategy == null ? EventProcessingStrategyFactory.createDefaultStrategy()
+              : eventProcessingStrategy);
     }
   }
 }
-- 
2.43.0


From 77fdc6d3fb600966324c45f5e3ac44ea0d3e5332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:24 +0000
Subject: [PATCH 21/21] fix: a machine cannot be started in one of the reserved
 pseudo states

---
 src/main/java/com/webotech/statemachine/GenericStateMachine.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 7091bba..756a090 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -265,6 +265,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     if (!states.containsKey(state)) {
       throw new IllegalStateException("State [" + state + "] has not been configured");
     }
+    assertNotReservedState(state);
     initCurrentState(state);
   }
 
-- 
2.43.0

