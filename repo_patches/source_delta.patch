From 5a6ed3fd194e520d7385c89853221608fa3b5575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 001/208] fix: FastLock::Async must take ownership when the
 lock is free

---
 src/lightspeed/mt/fastlock.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/fastlock.h b/src/lightspeed/mt/fastlock.h
index 3546352..dd1f665 100644
--- a/src/lightspeed/mt/fastlock.h
+++ b/src/lightspeed/mt/fastlock.h
@@ -143,7 +143,8 @@ public:
 		Slot sl;
 	public:
 		Async(FastLock &lk):lk(lk),sl(getCurThreadSleepingObj()) {
-			lk.addToQueue(&sl);
+			//queue was empty - ownership is granted immediately, nobody will notify us
+			if (!lk.addToQueue(&sl)) lk.owner = &sl;
 		}
 		~Async() {
 			while (lk.owner != &sl) threadHalt();
-- 
2.43.0


From 405211527efe09886e12616f4d59d8b302892e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 002/208] fix: FastLock::unlock keeps the sleeper of the next
 owner alive until it is notified

---
 src/lightspeed/mt/fastlock.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/fastlock.h b/src/lightspeed/mt/fastlock.h
index dd1f665..0c3c481 100644
--- a/src/lightspeed/mt/fastlock.h
+++ b/src/lightspeed/mt/fastlock.h
@@ -92,7 +92,8 @@ public:
 			//find tail of the queue - previous object will be new owner
 			while (p->next != o) p = p->next;
 			//store target thread, setting new owner can make Slot disappear
-			ISleepingObject *ntf = p->notify;
+			//(keep reference, target thread can also exit before it is notified)
+			RefCntPtr<IThreadSleeper> ntf = p->notify;
 			//write owner to notify next thread - target thread has ownership now!
 			owner = p;
 			//notify new owner - it may sleep (release barrier here)
-- 
2.43.0


From c17710d8fef1938e8e08060c6ea752462911233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 003/208] fix: FastLockR clears and restores owner when
 recursion is saved and restored

---
 src/lightspeed/mt/fastlock.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/mt/fastlock.h b/src/lightspeed/mt/fastlock.h
index 0c3c481..e9d15de 100644
--- a/src/lightspeed/mt/fastlock.h
+++ b/src/lightspeed/mt/fastlock.h
@@ -298,6 +298,7 @@ public:
 	natural unlockSaveRecusion() {
 		natural ret = recursiveCount;
 		recursiveCount = 0;
+		ownerThread = 0;
 		FastLock::unlock();
 		return ret;
 	}
@@ -317,6 +318,7 @@ public:
 		if (tryLock) {
 			//call original tryLock - it returns false, when lock is owned
 			if (!FastLock::tryLock()) return false;
+			ownerThread = getCurThreadId();
 		} else {
 			//try to lock
 			lock();
-- 
2.43.0


From 770f4cb7b9931dafefae9777d7a1ba709a43b9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 004/208] fix: MicroLock unlock keeps the sleeper of the next
 owner alive until it is notified

---
 src/lightspeed/mt/microlock.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/microlock.h b/src/lightspeed/mt/microlock.h
index 0e2d01c..08a0817 100644
--- a/src/lightspeed/mt/microlock.h
+++ b/src/lightspeed/mt/microlock.h
@@ -82,7 +82,8 @@ namespace LightSpeed {
 					//find next object in the queue
 					while (k->next != this) k = k -> next;
 					//retrieve notifier - because object on k can vanish after the next command
-					ISleepingObject *n = k->owner;
+					//(keep reference, thread can also exit before it is notified)
+					RefCntPtr<IThreadSleeper> n = k->owner;
 					//give ownership to k (see lock() - while (next != 0) )
 					k->next = 0;
 					//notify the thread if it is necessary
-- 
2.43.0


From ef1357018b120e06cd7df34709f29f0a80385fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 005/208] fix: Notifier must not touch Thread object of the
 notified thread after it has been signaled

---
 src/lightspeed/mt/notifier.cpp | 3 ++-
 src/lightspeed/mt/notifier.h   | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/notifier.cpp b/src/lightspeed/mt/notifier.cpp
index 5e388e1..e54c610 100644
--- a/src/lightspeed/mt/notifier.cpp
+++ b/src/lightspeed/mt/notifier.cpp
@@ -4,7 +4,8 @@
 
 namespace LightSpeed {
 
-	Notifier::Notifier():reason(0),signaled(0),forward(&Thread::current()) {}
+	Notifier::Notifier():reason(0),signaled(0)
+			,sleeper(Thread::current().getSafeSleepingObject()),forward(sleeper) {}
 
 
 	bool Notifier::wait(const Timeout &tm, bool wakeOnExit) {
diff --git a/src/lightspeed/mt/notifier.h b/src/lightspeed/mt/notifier.h
index e0e6a49..1ad25a9 100644
--- a/src/lightspeed/mt/notifier.h
+++ b/src/lightspeed/mt/notifier.h
@@ -9,6 +9,7 @@
 #define LIGHTSPEED_MT_NOTIFIER_H_
 #include "sleepingobject.h"
 #include "atomic.h"
+#include "threadSleeper.h"
 #include <assert.h>
 
 namespace LightSpeed {
@@ -58,6 +59,8 @@ namespace LightSpeed {
 		 */
 		virtual void wakeUp(natural reason = 0) throw() {
 			//store forward - this object can disappear during processing
+			//and the target thread can exit as well, hold its sleeper
+			RefCntPtr<IThreadSleeper> hold = sleeper;
 			ISleepingObject *fw = forward;
 			//store reason first
 			this->reason = reason;
@@ -122,6 +125,7 @@ namespace LightSpeed {
 
 	protected:
 		atomic signaled;
+		RefCntPtr<IThreadSleeper> sleeper;
 		ISleepingObject *forward;
 
 
-- 
2.43.0


From b9ebb8396ef2e2013a22da22f03530a39455bebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 006/208] fix: SyncPt slot can be registered again after it has
 been removed or reset

---
 src/lightspeed/mt/syncPt.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/mt/syncPt.h b/src/lightspeed/mt/syncPt.h
index 2fd6b5d..9e3bc38 100644
--- a/src/lightspeed/mt/syncPt.h
+++ b/src/lightspeed/mt/syncPt.h
@@ -114,6 +114,8 @@ namespace LightSpeed {
 			bool reset() {
 				if (isSignaled()) {
 					Notifier::reset();
+					next = 0;
+					charged = false;
 					return true;
 				} else {
 					return false;
-- 
2.43.0


From 6b86f759219da489893c161b9afc280cd10cc52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 007/208] fix: SyncPtT::notifyAll does not compile

---
 src/lightspeed/mt/syncPt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/syncPt.h b/src/lightspeed/mt/syncPt.h
index 9e3bc38..1e2959e 100644
--- a/src/lightspeed/mt/syncPt.h
+++ b/src/lightspeed/mt/syncPt.h
@@ -362,7 +362,7 @@ namespace LightSpeed {
 		bool succ = false;
 		Slot *p = static_cast<Slot *>(popSlot_lk());
 		while (p) {
-			notiftSlot_lk(p,val);
+			notifySlot_lk(p,val);
 			succ = true;
 			p = static_cast<Slot *>(popSlot_lk());
 		}
-- 
2.43.0


From 04c408da08207a6a998b048894e1ae9fd33cbb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 008/208] fix: removed SyncPt slot can be registered again

---
 src/lightspeed/mt/syncPt.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lightspeed/mt/syncPt.cpp b/src/lightspeed/mt/syncPt.cpp
index a8952e3..83f7059 100644
--- a/src/lightspeed/mt/syncPt.cpp
+++ b/src/lightspeed/mt/syncPt.cpp
@@ -51,6 +51,8 @@ bool SyncPt::remove(Slot& slot) {
 			//set queue-s new head
 			curQueue = slot.next;
 			//slot removed
+			slot.next = 0;
+			slot.charged = false;
 			return true;
 		} else {
 			//find slot
@@ -62,6 +64,8 @@ bool SyncPt::remove(Slot& slot) {
 				//remove slot if found
 				q->next = slot.next;
 				//removed
+				slot.next = 0;
+				slot.charged = false;
 				suc = true;
 			} else {
 				//failed
-- 
2.43.0


From 7947a8e37f4064754e42492c2fd3bdc668fcc627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 009/208] fix: opening Gate must not access the gate after it
 could be destroyed by a released thread

---
 src/lightspeed/mt/gate.h     |  5 +++--
 src/lightspeed/mt/syncPt.cpp | 10 ++++++++++
 src/lightspeed/mt/syncPt.h   | 11 +++++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/gate.h b/src/lightspeed/mt/gate.h
index 05635a5..0e9b87e 100644
--- a/src/lightspeed/mt/gate.h
+++ b/src/lightspeed/mt/gate.h
@@ -83,8 +83,9 @@ namespace LightSpeed {
 
 	inline void Gate::open()
 	{
-		writeRelease(&state,stateOpen);
-		sp.notifyAll();
+		//once the gate is seen opened, it can be destroyed by its owner (SyncPt's destructor
+		//waits for the queue's lock), so the state must not be changed before locking
+		sp.notifyAll(state,stateOpen);
 	}
 
 
diff --git a/src/lightspeed/mt/syncPt.cpp b/src/lightspeed/mt/syncPt.cpp
index 83f7059..95fee70 100644
--- a/src/lightspeed/mt/syncPt.cpp
+++ b/src/lightspeed/mt/syncPt.cpp
@@ -109,6 +109,16 @@ bool SyncPt::notifyOne() {
 
 bool SyncPt::notifyAll() {
 	Synchronized<FastLock> _(queueLock);
+	return notifyAll_lk();
+}
+
+bool SyncPt::notifyAll(volatile atomic &state, atomicValue newState) {
+	Synchronized<FastLock> _(queueLock);
+	writeRelease(&state,newState);
+	return notifyAll_lk();
+}
+
+bool SyncPt::notifyAll_lk() {
 	bool suc = false;
 	Slot *p = curQueue;
 	curQueue = 0;
diff --git a/src/lightspeed/mt/syncPt.h b/src/lightspeed/mt/syncPt.h
index 1e2959e..f68e766 100644
--- a/src/lightspeed/mt/syncPt.h
+++ b/src/lightspeed/mt/syncPt.h
@@ -262,6 +262,14 @@ namespace LightSpeed {
 		bool notifyAll();
 
 
+		///Changes state variable and notifies all slots as single operation
+		/**
+		 * The state is changed under the lock of the queue. It allows to destroy the
+		 * object once the new state is observed, because destructor waits until the
+		 * notification is finished.
+		 */
+		bool notifyAll(volatile atomic &state, atomicValue newState);
+
 		bool empty() const {return curQueue == 0;}
 
 		void cancelSlot(Slot &sl) {remove(sl);}
@@ -274,6 +282,9 @@ namespace LightSpeed {
 		//call under lock!
 		Slot *popSlot_lk();
 
+		//call under lock!
+		bool notifyAll_lk();
+
 		//call under lock!
 		void notifySlot_lk(Slot *slot);
 
-- 
2.43.0


From 1590dca806566cfcf6b341e07c56dda4e94d86f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 010/208] fix: Mutex::tryLock must initialize recursion counter

---
 src/lightspeed/mt/mutex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/mutex.cpp b/src/lightspeed/mt/mutex.cpp
index 6016ec9..6006a4b 100644
--- a/src/lightspeed/mt/mutex.cpp
+++ b/src/lightspeed/mt/mutex.cpp
@@ -64,8 +64,8 @@ bool Mutex::tryLock()
 	atomic me = ThreadId::current().asAtomic();
 	if (lockCompareExchange(owner,0,me) != 0)
 		return false;
-	else
-		return true;
+	recursion = 1;
+	return true;
 }
 
 void Mutex::unlock()
-- 
2.43.0


From 4404499c2482cecbfe95d90c0c940491bb3f6916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 011/208] fix: Mutex::lockAsync registers wrong owner

---
 src/lightspeed/mt/mutex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/mutex.cpp b/src/lightspeed/mt/mutex.cpp
index 6006a4b..cae08c2 100644
--- a/src/lightspeed/mt/mutex.cpp
+++ b/src/lightspeed/mt/mutex.cpp
@@ -110,7 +110,7 @@ bool Mutex::lockAsync( WaitPt::Slot &slot )
 			return true;
 		}
 		//set thread id - new owner
-		slot.threadId = me;
+		slot.value.threadId = me;
 		//register slot
 		waitPt.add(slot);
 		//test again for ownership - may be alread released
-- 
2.43.0


From e9afdbe64b341d334e3f12fb65538a53ec7778e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 012/208] fix: thread finished by an exception must not be
 finished twice

---
 src/lightspeed/mt/linux/thread.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index db0a0d9..6fad487 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -93,10 +93,12 @@ public:
 				//perform finish all
 				//if exception thrown, when continue in destructor
 				ctx->finishThread();
+				//finished - owner can be already destroyed
+				ctx = 0;
 			}
 			~Finisher(){
 				//ensure everithing is finished
-				ctx->finishThread();
+				if (ctx) ctx->finishThread();
 			}
 		ThreadContext *ctx;
 		};
-- 
2.43.0


From 7313d1f6cd576817d94ba482e0689fbc5499ddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 013/208] fix: thread's function must be destroyed before the
 thread is reported as finished

---
 src/lightspeed/mt/linux/thread.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 6fad487..9da89e5 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -222,8 +222,11 @@ void *ThreadContext::bootstrap(void * data) {
 
 			} catch (...) {
 				AbstractThreadHook::callOnThreadExceptionHooks(*ctx->owner);
+				fn = Message<void>();
 				throw;
 			}
+			//function is part of the thread, destroy it before the thread is reported as finished
+			fn = Message<void>();
 
 			AbstractThreadHook::callOnThreadExitHooks(*ctx->owner);
 
-- 
2.43.0


From 8b1ad315288dc7f52cf63999efc90742843574f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 014/208] fix: Thread::sleep must return reason when it is
 interrupted, not on timeout

---
 src/lightspeed/mt/linux/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 9da89e5..ac94bda 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -411,7 +411,7 @@ Thread *Thread::currentPtr() {
 
 bool Thread::impSleep(const Timeout &tm, natural &reason) {
 	bool r = sleeper->sleep(tm);
-	if (r) reason=sleeper->getReason();
+	if (!r) reason=sleeper->getReason();
 	return r;
 }
 
-- 
2.43.0


From da47032278b40ad798601a0e15102373ca21fa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 015/208] fix: thread which failed to start must not be
 reported as running

---
 src/lightspeed/mt/linux/thread.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index ac94bda..4e5dcf0 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -376,6 +376,8 @@ void Thread::start(const IThreadFunction &fn, natural stackSize) {
 		pthread_attr_destroy(&attr);
 		//thread creation failed. We must remove fake context
 		threadContext = 0;
+		//and nobody can wait for thread which has not been started
+		joinObject.open();
 		//continue exception
 		throw;
 	}
-- 
2.43.0


From 746449117e3c57efe28600e60e5ed48c0db9e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 016/208] fix: Thread::join must not reset context of the
 thread, it can be already restarted

---
 src/lightspeed/mt/linux/thread.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 4e5dcf0..99419ee 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -388,7 +388,6 @@ void Thread::start(const IThreadFunction &fn, natural stackSize) {
 
 void Thread::join() throw() {
 	getJoinObject().wait(nil);
-	threadContext = 0;
 }
 
 bool Thread::isRunning() const {
-- 
2.43.0


From 5510e85d6245400b408ab94ca78015585400711d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 017/208] fix: MicroLock could be enqueued twice when the
 ownership was granted during enqueuing

---
 src/lightspeed/mt/microlock.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/microlock.h b/src/lightspeed/mt/microlock.h
index 08a0817..dd02289 100644
--- a/src/lightspeed/mt/microlock.h
+++ b/src/lightspeed/mt/microlock.h
@@ -58,11 +58,13 @@ namespace LightSpeed {
 			//try to lock the lock, but if it is already locked, k will not NULL
 			MicroLockData *k = lockCompareExchangePtr<MicroLockData>(&lk.owner,0,this);
 			//test result of k
-			while (k != next) {
+			//once enqueued, "next" belongs to the current owner of the lock - don't read it back
+			MicroLockData *expected = 0;
+			while (k != expected) {
 				//update next to reflect reality
-				next = k;
+				next = expected = k;
 				//accept reality and try to enqueue self to the queue
-				k = lockCompareExchangePtr<MicroLockData>(&lk.owner,next,this);
+				k = lockCompareExchangePtr<MicroLockData>(&lk.owner,expected,this);
 			}
 			//wait until next is equal zero
 			while (next != 0) {
-- 
2.43.0


From e35bdb71148c6c3589942d974fafdb7f2e9feb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 018/208] fix: LevelLock never cleared bottom of the queue,
 released slot was accessed after it was signaled

---
 src/lightspeed/mt/rwlock.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/mt/rwlock.h b/src/lightspeed/mt/rwlock.h
index e180c50..0e07910 100644
--- a/src/lightspeed/mt/rwlock.h
+++ b/src/lightspeed/mt/rwlock.h
@@ -36,9 +36,12 @@ public:
 	class Slot {
 	public:
 		Slot(ISleepingObject *n, atomicValue level):next(0),notify(n),level(level),signaled(false) {}
+		Slot(const RefCntPtr<IThreadSleeper> &n, atomicValue level):next(0),sleeper(n),notify(n),level(level),signaled(false) {}
 
 	private:
 		Slot *next;
+		///keeps sleeper of the waiting thread alive until it is notified
+		RefCntPtr<IThreadSleeper> sleeper;
 		ISleepingObject *notify;
 		atomicValue level;
 	public:
@@ -116,11 +119,17 @@ public:
 
 			if (!s.signaled) {
 				Slot *q = qtop;
-				if (q == &s) qtop = q->next;
-				else {
+				if (q == &s) {
+					qtop = q->next;
+					if (qtop == 0) qbot = 0;
+				} else {
 					while (q && q->next != &s) q = q ->next;
-					if (q->next == &s) q->next =  s.next;
+					if (q) {
+						q->next =  s.next;
+						if (qbot == &s) qbot = q;
+					}
 				}
+				s.next = 0;
 			}
 		}
 		if (s.signaled) {
@@ -173,12 +182,17 @@ public:
 		curLevel = s->level;
 		//remove from the queue
 		qtop = qtop->next;
+		//queue is empty now
+		if (qtop == 0) qbot = 0;
 		//set use count 
 		useCount++;
+		//slot can disappear once it is signaled, save everything needed to wake up the thread
+		RefCntPtr<IThreadSleeper> hold = s->sleeper;
+		ISleepingObject *notify = s->notify;
 		//mark slot signaled
 		s->signaled = true;
 		//wakeup thread
-		s->notify->wakeUp();
+		notify->wakeUp();
 	}
 
 	atomicValue getLevel() const {
-- 
2.43.0


From a82e757814143cd617321f8c379a85ff85908310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 019/208] fix: Semaphore failed lock must leave the queue,
 canceled lock must return the permit

---
 src/lightspeed/mt/semaphore.h | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/src/lightspeed/mt/semaphore.h b/src/lightspeed/mt/semaphore.h
index 634e98d..1faa6ec 100644
--- a/src/lightspeed/mt/semaphore.h
+++ b/src/lightspeed/mt/semaphore.h
@@ -35,33 +35,21 @@ namespace LightSpeed {
 		bool lock(SyncPt::WaitInterruptMode md) {
 			Slot slot;
 			lockAsync(slot);
-			if (!SyncPt::wait(slot,nil,md)) {
-				return false;
-			} else {
-				return true;
-			}
+			return SyncPt::wait(slot,nil,md) || !SyncPt::remove(slot);
 		}
 
 		///lock semaphore and specify timeout and condition
 		bool lock(const Timeout &tm, SyncPt::WaitInterruptMode md) {
 			Slot slot;
 			lockAsync(slot);
-			if (!SyncPt::wait(slot,tm,md)) {
-				return false;
-			} else {
-				return true;
-			}
+			return SyncPt::wait(slot,tm,md) || !SyncPt::remove(slot);
 		}
 
 		///lock semaphore and specify timeout
 		bool lock(const Timeout &tm) {
 			Slot slot;
 			lockAsync(slot);
-			if (!SyncPt::wait(slot,tm)) {
-				return false;
-			} else {
-				return true;
-			}
+			return SyncPt::wait(slot,tm) || !SyncPt::remove(slot);
 		}
 
 		///call to unlock semaphore
@@ -97,10 +85,9 @@ namespace LightSpeed {
 		}
 		void cancelLockAsync(Slot &slot) {
 			//remove slot from the syncpt
-			if (!SyncPt::remove(slot)) {
-				//if slot is signaled, unlock semaphore
-				if (slot) unlock();
-			}
+			SyncPt::remove(slot);
+			//if slot is signaled (even if it has been granted immediately), unlock semaphore
+			if (slot) unlock();
 		}
 
 		///Initialize semaphore using another semaphore
-- 
2.43.0


From c3ea18fd42b8faf0833978112bf7b3cd176451eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 020/208] fix: thread restarted while the previous run is
 finishing was reported as finished

---
 src/lightspeed/mt/linux/thread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 99419ee..f8b0a46 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -340,6 +340,11 @@ void Thread::start(const IThreadFunction &fn, natural stackSize) {
 	///Now, try to set new context. If there is one, function fails
 	if (lockCompareExchangePtr<ThreadContext>(&threadContext,0,&fakeContext) != 0)
 		throw ThreadBusyException(THISLOCATION);
+	//previous run is still finishing (it has not opened the join object yet)
+	if (!joinObject.isOpened()) {
+		threadContext = 0;
+		throw ThreadBusyException(THISLOCATION);
+	}
 	//close join object - now other threads can see, that thread is already running
 	joinObject.close();
 
-- 
2.43.0


From ec44682983725a1dd2adda366e29440cede3f55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 021/208] fix: Thread::start hangs when thread's init hook
 throws an exception

---
 src/lightspeed/mt/linux/thread.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index f8b0a46..c414076 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -210,7 +210,13 @@ void *ThreadContext::bootstrap(void * data) {
 
 		//start thread
 		try {
-			AbstractThreadHook::callOnThreadInitHooks(*ctx->owner);
+			try {
+				AbstractThreadHook::callOnThreadInitHooks(*ctx->owner);
+			} catch (...) {
+				//thread will not run, but caller must not wait forever
+				bs->unblockCaller.wakeUp();
+				throw;
+			}
 
 			ctx->owner->getJoinObject().close();
 			//unblock caller - bootstrap data vanished
-- 
2.43.0


From aab8d221452abc1b7daf47c262c3d8cba91e609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 022/208] fix: thread reattached to the kept context cannot
 sleep

---
 src/lightspeed/mt/linux/thread.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index c414076..87691f0 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -708,6 +708,8 @@ bool Thread::attach( bool keepContext, IRuntimeAlloc *contextAlloc /*= 0*/ )
 		ctx->owner = this;
 		threadContext = ctx;
 		flags = flagAttached;
+		if (sleeper == nil) sleeper = new ThreadSleeper;
+		id = pthread_self();
 		joinObject.close();
 		AbstractThreadHook::callOnThreadInitHooks(*this);
 		return true;
-- 
2.43.0


From 17ae294001270a095d69c0c667253f944ab6d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:50 +0000
Subject: [PATCH 023/208] fix: registering of a kept thread's context crashes
 when another thread registers its context

---
 src/lightspeed/mt/linux/thread.cpp | 23 +----------------------
 1 file changed, 1 insertion(+), 22 deletions(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 87691f0..5aba418 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -624,8 +624,6 @@ public:
 
 	void registerContext(ThreadAttachContext *ctx);
 
-	void cleanupContext();
-
 	void removeAllContexts();
 
 protected:
@@ -641,32 +639,13 @@ protected:
 
 void MasterThread::registerContext( ThreadAttachContext *ctx )
 {
-	cleanupContext();
+	//contexts cannot be removed here, threads can be still alive and they can reattach them
 	ctx->nextContext = keptContext;
 	while (lockCompareExchangePtr<ThreadAttachContext>(&keptContext,ctx->nextContext,ctx) != ctx->nextContext) {
 		ctx->nextContext = keptContext;
 	}
 }
 
-void MasterThread::cleanupContext()
-{
-	ThreadAttachContext *save = keptContext;
-	while (lockCompareExchangePtr<ThreadAttachContext>(&keptContext,save,0) != keptContext)
-		save = keptContext;
-	while (save) {
-		ThreadAttachContext *subj = save;
-		save = save->nextContext;
-		if (save->owner == 0) {
-			delete subj;
-		} else {
-			subj->nextContext = keptContext;
-			while (lockCompareExchangePtr<ThreadAttachContext>(&keptContext,subj->nextContext,subj) != subj->nextContext) {
-				subj->nextContext = keptContext;
-			}
-		}
-	}
-}
-
 void MasterThread::removeAllContexts()
 {
 	ThreadAttachContext *save = keptContext;
-- 
2.43.0


From 919176a7c8451e5e5b087b13e511916ac1ad5609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 024/208] fix: thread's function must be destroyed when
 thread's init hook throws an exception

---
 src/lightspeed/mt/linux/thread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 5aba418..8e9875d 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -214,6 +214,7 @@ void *ThreadContext::bootstrap(void * data) {
 				AbstractThreadHook::callOnThreadInitHooks(*ctx->owner);
 			} catch (...) {
 				//thread will not run, but caller must not wait forever
+				fn = Message<void>();
 				bs->unblockCaller.wakeUp();
 				throw;
 			}
-- 
2.43.0


From 809a57bd54f347891dafe26649c6bc9f024ca45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 025/208] fix: RefCntPtr assigned to itself loses its object

---
 src/lightspeed/base/memory/refCntPtr.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/memory/refCntPtr.h b/src/lightspeed/base/memory/refCntPtr.h
index 15b7cd7..55e83df 100644
--- a/src/lightspeed/base/memory/refCntPtr.h
+++ b/src/lightspeed/base/memory/refCntPtr.h
@@ -150,8 +150,10 @@ namespace LightSpeed {
         RefCntPtr &operator=(const RefCntPtr &other) {
         	Alloc::operator=(other);
         	other.manualAddRef();
+        	//releasePtr clears the pointer, read it before (object can be assigned to itself)
+        	T *p = other.ptr;
         	releasePtr();
-        	this->ptr = other.ptr;
+        	this->ptr = p;
             return *this;
         }
 
-- 
2.43.0


From 08cfc9549828736a1a8301c3ec84e88f69b776a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 026/208] fix: WeakRef must keep sleeper of the thread waiting
 for release of the last lock

---
 src/lightspeed/base/memory/weakref.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/memory/weakref.h b/src/lightspeed/base/memory/weakref.h
index e29bf3b..0d007e3 100644
--- a/src/lightspeed/base/memory/weakref.h
+++ b/src/lightspeed/base/memory/weakref.h
@@ -70,12 +70,13 @@ class WeakRef {
 		 */
 		atomic lockCount;
 		///during "reseting" phase, this is set to object which must be notified about unlocking the reference
-		ISleepingObject *clearOutNotify;
+		//keeps sleeper alive, it can be notified after waiting thread has finished
+		RefCntPtr<IThreadSleeper> clearOutNotify;
 
 		Pointer(T *ptr)
 			:ptr(ptr)
 			,lockCount(initedFlag)
-			,clearOutNotify(0) {}
+			,clearOutNotify(nil) {}
 	};
 
 	///Contains null pointer which is marked as left
-- 
2.43.0


From 35b207bb5157b1ad32b59d0f10db31a99019874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 027/208] fix: singletons created at the same time by two
 threads were lost in the chain and never destroyed

---
 src/lightspeed/base/memory/singleton.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/memory/singleton.h b/src/lightspeed/base/memory/singleton.h
index d7d99ce..26a8404 100644
--- a/src/lightspeed/base/memory/singleton.h
+++ b/src/lightspeed/base/memory/singleton.h
@@ -17,6 +17,9 @@
 namespace LightSpeed {
 
     ///Contains helper classes to implement Singleton class
+    bool singletonInitLock( atomic &cnt);
+    void singletonRelease( atomic &cnt);
+
     namespace _intr {
 
         ///Declares singleton control chain
@@ -50,7 +53,11 @@ namespace LightSpeed {
 
                 static SingletonChunkBase *list = 0;
                 static bool atexitRegistered = false;
+                //various singletons can be created in various threads at the same time
+                static atomic chainLock = 0;
 
+                SingletonChunkBase *res;
+                singletonInitLock(chainLock);
                 if (append) {
                     append->next = list;
                     list = append;
@@ -58,12 +65,13 @@ namespace LightSpeed {
                         atexit(&SingletonAtExit);
                         atexitRegistered = true;
                     }
-                    return list;
+                    res = list;
                 } else {
-                    SingletonChunkBase *res = list;
+                    res = list;
                     list = 0;
-                    return res;
                 }
+                singletonRelease(chainLock);
+                return res;
 
             }
 
-- 
2.43.0


From 214c8f128b26d757d2e5e61d96224b437675e8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 028/208] fix: Future::wait observer can be destroyed before it
 wakes the waiting thread

---
 src/lightspeed/base/actions/promise.tcc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/actions/promise.tcc b/src/lightspeed/base/actions/promise.tcc
index 0bf74d2..bbf41d9 100644
--- a/src/lightspeed/base/actions/promise.tcc
+++ b/src/lightspeed/base/actions/promise.tcc
@@ -168,22 +168,25 @@ const T & Future<T>::wait( const Timeout &tm /*= Timeout()*/ ) const
 {
 	class Ntf: public IObserver {
 	public:
-		ISleepingObject *thread;
+		RefCntPtr<IThreadSleeper> thread;
 		const T *result;
 		PException exception;
 		
-		Ntf(ISleepingObject *thread):thread(thread),result(0),exception(0) {}
+		Ntf(const RefCntPtr<IThreadSleeper> &thread):thread(thread),result(0),exception(0) {}
 
 		virtual void resolve( const T &result ) throw()
 		{
+			//once the result is set, waiting thread can destroy this object anytime
+			RefCntPtr<IThreadSleeper> hold = thread;
 			this->result = &result;
-			thread->wakeUp();
+			hold->wakeUp();
 		}
 
 		virtual void resolve(const PException &e ) throw()
 		{
+			RefCntPtr<IThreadSleeper> hold = thread;
 			this->exception = e.getMT();
-			thread->wakeUp();
+			hold->wakeUp();
 		}		
 
 		bool resolved() const {
-- 
2.43.0


From acaf4a8eee85bda067b2100ec61dabbbbf79bcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 029/208] fix: operator && of futures writes to its state after
 it is destroyed

---
 src/lightspeed/base/actions/promise.tcc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/actions/promise.tcc b/src/lightspeed/base/actions/promise.tcc
index bbf41d9..5b72c97 100644
--- a/src/lightspeed/base/actions/promise.tcc
+++ b/src/lightspeed/base/actions/promise.tcc
@@ -1030,13 +1030,15 @@ public:
 			owner->v1 = v;
 			// try to resolve
 			owner->tryResolve();
-			// set pointer to NULL (decrease counter)
+			// release reference through local variable, this instance can be destroyed with it
+			PAktivator hold = owner;
 			owner = null;
 		}
 		virtual void resolve(const PException &e) throw() {
 			//reject
 			owner->reject(e);
-			// set pointer to NULL (decrease counter)
+			// release reference through local variable, this instance can be destroyed with it
+			PAktivator hold = owner;
 			owner = null;
 		}
 	};
@@ -1051,13 +1053,15 @@ public:
 			owner->v2 = v;
 			// try to resolve
 			owner->tryResolve();
-			// set pointer to NULL (decrease counter)
+			// release reference through local variable, this instance can be destroyed with it
+			PAktivator hold = owner;
 			owner = null;
 		}
 		virtual void resolve(const PException &e) throw() {
 			//reject
 			owner->reject(e);
-			// set pointer to NULL (decrease counter)
+			// release reference through local variable, this instance can be destroyed with it
+			PAktivator hold = owner;
 			owner = null;
 		}
 	};
-- 
2.43.0


From cf1303da24f471f565d384dfecb1af8738569cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:25 +0000
Subject: [PATCH 030/208] fix: FutureAutoCancel destructor terminates program
 when the promise is being rejected

---
 src/lightspeed/base/actions/promise.tcc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/actions/promise.tcc b/src/lightspeed/base/actions/promise.tcc
index 5b72c97..1b6acfd 100644
--- a/src/lightspeed/base/actions/promise.tcc
+++ b/src/lightspeed/base/actions/promise.tcc
@@ -841,7 +841,10 @@ FutureAutoCancel<T>::~FutureAutoCancel() {
 	if (this->future != null) {
 		if (this->future->isLastReference()) {
 			if (IPromiseControl::stateResolving == this->cancel()) {
-				this->wait();
+				//destructor must not throw when promise is rejected
+				try {
+					this->wait();
+				} catch (...) {}
 			}
 		}
 	}
-- 
2.43.0


From d32cb7657f645b0bf687a47629337b23835622a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 031/208] fix: ParallelExecutor lost actions, counted dead
 threads and ignored its limits when threads leave

---
 .../base/actions/parallelExecutor.cpp         | 127 +++++++++++++-----
 .../base/actions/parallelExecutor.h           |   4 +
 2 files changed, 94 insertions(+), 37 deletions(-)

diff --git a/src/lightspeed/base/actions/parallelExecutor.cpp b/src/lightspeed/base/actions/parallelExecutor.cpp
index c5e5f1d..bb9c64a 100644
--- a/src/lightspeed/base/actions/parallelExecutor.cpp
+++ b/src/lightspeed/base/actions/parallelExecutor.cpp
@@ -25,6 +25,7 @@ ParallelExecutor::ParallelExecutor(natural maxThreads,natural maxWaitTimeout,
 	,threadIdleTimeout(threadIdleTimeout)
 	,curThreadCount(0)
 	,idleCount(0)
+	,callerNtf(0)
 	,curAction(0)
 	,waitPt(SyncPt::stack)
 	,orderStop(false)
@@ -40,6 +41,7 @@ ParallelExecutor::ParallelExecutor(const ParallelExecutor& other)
 ,threadIdleTimeout(other.threadIdleTimeout)
 ,curThreadCount(0)
 ,idleCount(0)
+,callerNtf(0)
 ,curAction(0)
 ,waitPt(SyncPt::stack)
 ,orderStop(false)
@@ -89,6 +91,10 @@ protected:
 	friend class ParallelExecutor;
 
 	void runAction(const Message<void>::Ifc *action);
+	///removes the thread from the count of threads if there are too many of them
+	bool leaveOverLimit();
+	///removes the thread from the count of threads, takes care of the action nobody else would take
+	void leave(bool counted);
 };
 
 void ParallelExecutor::cleanUp() {
@@ -147,11 +153,11 @@ void ParallelExecutor::execute(const IExecAction &action) {
 			//we still did not try to create new thread
 			if (ct) {
 				//start new one (function will limit to maximum threads)
-				startNewThread();
+				bool taken = !startThreadForAction();
 				//we tried, reset flag
 				ct = false;
 				//use maxWait as timeout
-				curWait = maxWait;
+				curWait = taken?Timeout(naturalNull):maxWait;
 			} else {
 				//timeout while waiting - remove message
 				const IExecAction * actst = lockExchangePtr<const IExecAction>(&curAction,0);
@@ -173,11 +179,11 @@ void ParallelExecutor::execute(const IExecAction &action) {
 		//if there is no thread
 		if (topWorker == 0 || curThreadCount == 0) {
 			//create one!
-			startNewThread();
+			bool taken = !startThreadForAction();
 			//thread created
 			ct = false;
 
-			curWait = maxWait;
+			curWait = taken?Timeout(naturalNull):maxWait;
 		}
 		//now sleep and wait for event
 		cont = !ntf.wait(curWait,false);
@@ -190,6 +196,21 @@ void ParallelExecutor::execute(const IExecAction &action) {
 
 }
 
+bool ParallelExecutor::startThreadForAction() {
+	try {
+		startNewThread();
+		return true;
+	} catch (...) {
+		//nobody may use the action after execute() returned, so take it back
+		if (lockExchangePtr<const IExecAction>(&curAction,0) != 0) {
+			writeReleasePtr<ISleepingObject>(&callerNtf,0);
+			throw;
+		}
+		//another thread took the action meanwhile, so there is no need for the new thread
+		return false;
+	}
+}
+
 void ParallelExecutor::Worker::runAction(const IExecAction *action) {
 	//caller still locked, so action pointer is valid
 	//calculate size of action i bytes
@@ -219,6 +240,8 @@ void ParallelExecutor::Worker::runAction(const IExecAction *action) {
 
 void ParallelExecutor::Worker::run() {
 	bool cont = true;
+	//false when the thread has been already removed from curThreadCount
+	bool counted = true;
 
 	//perform thread-init hook
 	owner.onThreadInit();
@@ -254,6 +277,13 @@ void ParallelExecutor::Worker::run() {
 				Timeout tm(owner.threadIdleTimeout);
 				//count idles
 				lockInc(owner.idleCount);
+				//the limit could be lowered before the slot has been registered
+				if ((natural)owner.curThreadCount > owner.maxThreads && owner.waitPt.remove(slot)) {
+					lockDec(owner.idleCount);
+					counted = !leaveOverLimit();
+					if (counted) continue;
+					break;
+				}
 				//callback on idle
 				owner.onThreadIdle(slot.getNotifier());
 				//wait for timeout
@@ -261,33 +291,8 @@ void ParallelExecutor::Worker::run() {
 						//when timeout - remove slot
 						//but it may fail, because signal arrived later
 						&& owner.waitPt.remove(slot)) {
-					//timeout - my thread will finish - decrease count of threads
-					lockDec(owner.curThreadCount);
-					//recheck whether there is action arrived meanwhile
-					action = lockExchangePtr<const IExecAction >(&owner.curAction,(IExecAction *)0);
-					//after leaving waiting point but before count of running threads is decreased
-					//a new action can arrived causing failure of the creation of the new
-					//thread especially, when maxThreadCount is set to low value
-					//This can cause deadlock. So after worker decreased curThreadCount, it must
-					//perform extra check for the action. If there is an action, it has been probably
-					//queued during the worker was leaving wait point and before count has been decreased
-					//There is also possibility, that it happened after so new extra thread may appear
-					//in the pool.
-					if (action) {
-						//increase thread count - I am alive again
-						lockInc(owner.curThreadCount);
-						//count idles - I am working
-						lockDec(owner.idleCount);
-						//run action
-						runAction(action);
-						//count idles - I am not working now
-						lockInc(owner.idleCount);
-					} else {
-						//now we can safety leave the loop, because this thread is no more counted
-						//leave loop
-						cont = false;
-					}
-
+					//timeout - my thread will finish
+					cont = false;
 				}
 				//count idles - I am working now
 				lockDec(owner.idleCount);
@@ -297,19 +302,54 @@ void ParallelExecutor::Worker::run() {
 		//cleanup any other finished threads
 		cleanUp();
 
-		//check current thread count
-		integer p = (integer)owner.curThreadCount;
 		//if current thread count is above limit and we successfully set it one less lower
-		if (p > (integer)owner.maxThreads && lockCompareExchange(owner.curThreadCount,p,p-1) == p) {
+		if (cont && leaveOverLimit()) {
 			//exit this thread uncoditionally
+			counted = false;
 			break;
 		}
 	}
 
+	//thread is no more counted
+	leave(counted);
+
 	//perform thread-done hook
 	owner.onThreadDone();
 }
 
+bool ParallelExecutor::Worker::leaveOverLimit() {
+	integer p = (integer)owner.curThreadCount;
+	while (p > 0 && (natural)p > owner.maxThreads) {
+		integer q = lockCompareExchange(owner.curThreadCount,p,p-1);
+		if (q == p) return true;
+		p = q;
+	}
+	return false;
+}
+
+void ParallelExecutor::Worker::leave(bool counted) {
+	if (counted) lockDec(owner.curThreadCount);
+	//after leaving waiting point but before count of running threads is decreased
+	//a new action can arrived causing failure of the creation of the new
+	//thread especially, when maxThreadCount is set to low value
+	//This can cause deadlock. So after worker decreased curThreadCount, it must
+	//perform extra check for the action.
+	while (owner.curAction != 0) {
+		integer p = (integer)owner.curThreadCount;
+		if ((natural)p >= owner.maxThreads) {
+			//there are other threads for the action - none of them may sleep
+			owner.wakeThread();
+			break;
+		}
+		//count me again and run the action
+		if (lockCompareExchange(owner.curThreadCount,p,p+1) == p) {
+			const IExecAction *action = lockExchangePtr<const IExecAction >(&owner.curAction,(IExecAction *)0);
+			if (action != 0) runAction(action);
+			lockDec(owner.curThreadCount);
+		}
+	}
+}
+
 bool ParallelExecutor::stopAll(natural timeout) {
 
 	Synchronized<FastLock> _(executeLock);
@@ -318,7 +358,7 @@ bool ParallelExecutor::stopAll(natural timeout) {
 	orderStop = true;
 	waitPt.notifyAll();
 	while (topWorker != nil) {
-		if (!topWorker->stop(timeout)) return false;
+		if (!topWorker->stop(tm)) return false;
 		cleanUp();
 	}
 	return true;
@@ -336,6 +376,8 @@ natural ParallelExecutor::getMaxThreadCount() {
 }
 
 void ParallelExecutor::spawnThreads(natural count) {
+	Synchronized<FastLock> _(executeLock);
+	orderStop = false;
 	while ((natural)curThreadCount < maxThreads && count) {
 		startNewThread();
 		count--;
@@ -373,9 +415,20 @@ natural ParallelExecutor::getIdleTimeout() const {
 void ParallelExecutor::startNewThread() {
 	if ((natural)curThreadCount < maxThreads) {
 		AllocPointer<Worker> w ( new Worker(*this,topWorker));
-		w->start();
+		//count the thread first, because it may finish before start() returns
+		integer p;
+		do {
+			p = (integer)curThreadCount;
+			//a leaving thread took the place to carry out the action
+			if ((natural)p >= maxThreads) return;
+		} while (lockCompareExchange(curThreadCount,p,p+1) != p);
+		try {
+			w->start();
+		} catch (...) {
+			lockDec(curThreadCount);
+			throw;
+		}
 		topWorker = w.detach();
-		lockInc(curThreadCount);
 	}
 }
 
diff --git a/src/lightspeed/base/actions/parallelExecutor.h b/src/lightspeed/base/actions/parallelExecutor.h
index 3bf9df3..a99cd1c 100644
--- a/src/lightspeed/base/actions/parallelExecutor.h
+++ b/src/lightspeed/base/actions/parallelExecutor.h
@@ -181,6 +181,10 @@ protected:
 	FastLock executeLock;
 	bool orderStop;
 	virtual void startNewThread();
+	///starts new thread for the current action
+	/** @retval false failed, but the action has been already taken by another thread
+	 *  In case that thread cannot be started and nobody took the action, function throws an exception */
+	bool startThreadForAction();
 	///Called when executor wants to wake one thread from the pool of the waiting threads
 	/** Function tries to wake one thread
 	  @retval true one thread woken up
-- 
2.43.0


From 13510a318820c79069a1468f4d9ab28da937b0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 032/208] fix: QueueExecutor used uninitialized finish flag,
 hung when nobody served and counted running actions without the lock

---
 src/lightspeed/base/actions/queueExecutor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/actions/queueExecutor.cpp b/src/lightspeed/base/actions/queueExecutor.cpp
index b2a18cb..01ae74b 100644
--- a/src/lightspeed/base/actions/queueExecutor.cpp
+++ b/src/lightspeed/base/actions/queueExecutor.cpp
@@ -36,7 +36,7 @@ void QueueExecutor::execute(const IExecAction& action) {
 	wakeThread();
 }
 
-QueueExecutor::QueueExecutor():semaphore(1),runningMessages(0),threadsIn(0) {
+QueueExecutor::QueueExecutor():noThreads(Gate::stateOpen),semaphore(1),runningMessages(0),threadsIn(0),finishFlag(false) {
 
 }
 
@@ -104,14 +104,14 @@ void QueueExecutor::Server::serve() {
 					SyncReleased<FastLock> _(owner->lock);
 					//perform action (in case of exception, continue after catch
 					(*action)();
-					//decrease running actions
-					owner->runningMessages--;
 				} catch (...) {
 					//in case of exception, decrease running actions
 					owner->runningMessages--;
 					//throw above
 					throw;
 				}
+				//decrease running actions
+				owner->runningMessages--;
 				//if finish reported or thread will finish, break
 				if (owner->finishFlag || Thread::canFinish()) break;
 			}
-- 
2.43.0


From 337a36d4fde055c215fd5b8938a53cf3c196f7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 033/208] fix: MsgQueue touched a message after it was
 published in the queue

---
 src/lightspeed/base/actions/msgQueue.cpp | 30 ++++++++++++++----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/lightspeed/base/actions/msgQueue.cpp b/src/lightspeed/base/actions/msgQueue.cpp
index db64ba6..08df03c 100644
--- a/src/lightspeed/base/actions/msgQueue.cpp
+++ b/src/lightspeed/base/actions/msgQueue.cpp
@@ -38,19 +38,20 @@ MsgQueue::AbstractMsg *MsgQueue::AbstractMsg::isolate() {
 }
 
 MsgQueue::MsgQueue()
-:queueLen(0),curQueue(0),newMessages(0)
+:queueLen(0),curQueue(0),newMessages(0),curMessage(0)
 ,rtAllocator(StdAlloc::getInstance()) {
 
 }
 
 MsgQueue::MsgQueue(IRuntimeAlloc &rtAllocator)
-:queueLen(0),curQueue(0),newMessages(0)
+:queueLen(0),curQueue(0),newMessages(0),curMessage(0)
 ,rtAllocator(rtAllocator) {
 
 }
 
 MsgQueue::MsgQueue( const MsgQueue &other )
-	:rtAllocator(other.rtAllocator)
+	:queueLen(0),curQueue(0),newMessages(0),curMessage(0)
+	,rtAllocator(other.rtAllocator)
 {
 
 }
@@ -116,18 +117,20 @@ void MsgQueue::postMessage(AbstractMsg *msg) {
 	if (msg == 0 || msg->next != nil) return;
 	//notify message, that is queued
 	msg->queued(*this);
+	//count message before it can be processed
+	lockInc(queueLen);
 	//set next by current top
-	msg->next = newMessages;
-	//atomically set new top
-	while (lockCompareExchangePtr(&newMessages,msg->next.get(),msg) != msg->next.get()) {
+	AbstractMsg *top = newMessages, *prev;
+	msg->next = top;
+	//atomically set new top - once it is done, message can disappear any time
+	while ((prev = lockCompareExchangePtr(&newMessages,top,msg)) != top) {
 		//if not successfull (current top has been changed meanwhile)
 		//detach next
 		msg->next.detach();
 		//and try new top
-		msg->next = newMessages;
+		msg->next = top = prev;
 		//try agaiin
 	}
-	lockInc(queueLen);
 	//notify worker thread about new message in the queue
 	notify();
 
@@ -138,12 +141,15 @@ void MsgQueue::postPriorityMessage(AbstractMsg *msg) {
 	if (msg == 0 || msg->next != nil) return;
 	//notify message, that is queued
 	msg->queued(*this);
-	msg->next = curQueue;
-	while (lockCompareExchangePtr(&curQueue,msg->next.get(),msg) != msg->next.get()) {
+	//count message before it can be processed
+	lockInc(queueLen);
+	AbstractMsg *top = curQueue, *prev;
+	msg->next = top;
+	//once message is in the queue, it can disappear any time
+	while ((prev = lockCompareExchangePtr(&curQueue,top,msg)) != top) {
 		msg->next.detach();
-		msg->next = curQueue;
+		msg->next = top = prev;
 	}
-	lockInc(queueLen);
 	notify();
 }
 
-- 
2.43.0


From 4e607a49f4b91a92b1952c94065e546c2fea1255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:31 +0000
Subject: [PATCH 034/208] fix: MsgThread and SchedulerThread destroyed while
 their thread can still call worker()

---
 src/lightspeed/mt/msgthread.cpp | 10 ++++++++++
 src/lightspeed/mt/msgthread.h   |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/src/lightspeed/mt/msgthread.cpp b/src/lightspeed/mt/msgthread.cpp
index 22c33e2..1d169eb 100644
--- a/src/lightspeed/mt/msgthread.cpp
+++ b/src/lightspeed/mt/msgthread.cpp
@@ -63,6 +63,11 @@ void MsgThread::worker()
 
 }
 
+MsgThread::~MsgThread()
+{
+	Thread::stop();
+}
+
 void MsgThread::notify()
 {
 	MsgThreadBase::notify();
@@ -77,6 +82,11 @@ SchedulerThread::SchedulerThread()
 
 }
 
+SchedulerThread::~SchedulerThread()
+{
+	Thread::stop();
+}
+
 void SchedulerThread::notify()
 {
 	MsgThreadBase::notify();
diff --git a/src/lightspeed/mt/msgthread.h b/src/lightspeed/mt/msgthread.h
index d34a41d..936e0eb 100644
--- a/src/lightspeed/mt/msgthread.h
+++ b/src/lightspeed/mt/msgthread.h
@@ -46,6 +46,8 @@ namespace LightSpeed {
 
 		MsgThread();
 		MsgThread(IRuntimeAlloc &rtAlloc);
+		///dtor - stops the thread while worker() can be still called
+		~MsgThread();
 
 		static MsgThread &current();
 		static MsgThread *currentPtr();
@@ -78,6 +80,8 @@ namespace LightSpeed {
 
 		SchedulerThread();
 		SchedulerThread(IRuntimeAlloc &rtAlloc);
+		///dtor - stops the thread while worker() can be still called
+		~SchedulerThread();
 
 		static SchedulerThread &current();
 		static SchedulerThread *currentPtr();
-- 
2.43.0


From b0471b403dfc97aedda7f8bfd35d492c4126e3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:03 +0000
Subject: [PATCH 035/208] fix: flush of MsgQueue dropped other pending flush,
 cancel and finish requests without doing their work

---
 src/lightspeed/base/actions/msgQueue.cpp | 18 ++++++++++++++++++
 src/lightspeed/base/actions/msgQueue.h   |  4 ++++
 2 files changed, 22 insertions(+)

diff --git a/src/lightspeed/base/actions/msgQueue.cpp b/src/lightspeed/base/actions/msgQueue.cpp
index 08df03c..c5335cd 100644
--- a/src/lightspeed/base/actions/msgQueue.cpp
+++ b/src/lightspeed/base/actions/msgQueue.cpp
@@ -343,6 +343,12 @@ void MsgQueue::FlushMsg::run() throw()
 	NotifyMsg::run();
 }
 
+void MsgQueue::FlushMsg::reject() throw()
+{
+	inqueue->wtFlush();
+	NotifyMsg::reject();
+}
+
 MsgQueue::CancelMsg::CancelMsg( AbstractMsg *msgToCancel )
 	:toCancel(msgToCancel)
 {
@@ -361,6 +367,18 @@ void MsgQueue::CancelMsg::run() throw()
 	NotifyMsg::run();
 }
 
+void MsgQueue::CancelMsg::reject() throw()
+{
+	inqueue->wtCancelMessage(toCancel);
+	NotifyMsg::reject();
+}
+
+void MsgQueue::FinishMsg::reject() throw()
+{
+	Thread::current().finish();
+	FlushMsg::reject();
+}
+
 void MsgQueue::FinishMsg::run() throw()
 {
 	Thread::current().finish();
diff --git a/src/lightspeed/base/actions/msgQueue.h b/src/lightspeed/base/actions/msgQueue.h
index d0966db..a92c4e3 100644
--- a/src/lightspeed/base/actions/msgQueue.h
+++ b/src/lightspeed/base/actions/msgQueue.h
@@ -191,6 +191,8 @@ public:
 
 		virtual void queued(MsgQueue &msgQueue);
 		virtual void run() throw();
+		///called when another flush found this message - work must be done before done() is called
+		virtual void reject() throw();
 	protected:
 		MsgQueue *inqueue;
 
@@ -210,6 +212,7 @@ public:
 		CancelMsg(AbstractMsg *msgToCancel, ISleepingObject &fw);
 
 		virtual void run() throw();
+		virtual void reject() throw();
 	protected:
 		AbstractMsg *toCancel;
 	};
@@ -243,6 +246,7 @@ public:
 		FinishMsg(ISleepingObject &fw):FlushMsg(fw) {}
 
 		virtual void run() throw();
+		virtual void reject() throw();
 	};
 
 	virtual void execute(const IExecAction &action);
-- 
2.43.0


From cc63fd43314be28cb091734f529337a6e8bd422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:07 +0000
Subject: [PATCH 036/208] fix: resource pool exceeded its limit, ignored
 setLimit and left threads waiting after a failed creation

---
 .../base/containers/resourcePool.cpp          | 85 ++++++++++++++-----
 src/lightspeed/base/containers/resourcePool.h |  4 +
 2 files changed, 67 insertions(+), 22 deletions(-)

diff --git a/src/lightspeed/base/containers/resourcePool.cpp b/src/lightspeed/base/containers/resourcePool.cpp
index 27dd54e..3e4c34a 100644
--- a/src/lightspeed/base/containers/resourcePool.cpp
+++ b/src/lightspeed/base/containers/resourcePool.cpp
@@ -69,21 +69,30 @@ AbstractResource *AbstractResourcePool::acquire() {
 	Synchronized<FastLock> _(SyncPt::queueLock);
 	//reset out
 	AbstractResource *out = 0;
+	//install timeout
+	Timeout waitT(waitTimeout);
 	do {
 		//if no items in the pool
 		if (pool == 0) {
 			//if still space for new resource
 			if (readAcquire(&curLimit) > 0) {
-				//unlock queue - don't need it anymore
-				SyncReleased<FastLock> __(SyncPt::queueLock);
-				//create new resource
-				AbstractResource *a = createResource();
-				//set resource timeout
-				a->setTimeout(resTimeout);
-				//decrease limit
+				//decrease limit before unlock, other threads must know about the resource
 				lockDec(curLimit);
-				//this is new resource
-				return a;
+				try {
+					//unlock queue - don't need it anymore
+					SyncReleased<FastLock> __(SyncPt::queueLock);
+					//create new resource
+					AbstractResource *a = createResource();
+					//set resource timeout
+					a->setTimeout(resTimeout);
+					//this is new resource
+					return a;
+				} catch (...) {
+					//resource was not created, somebody else can try it
+					lockInc(curLimit);
+					wakeWaiting_lk();
+					throw;
+				}
 			}
 			//install slot
 			SyncPt::Slot s;
@@ -92,8 +101,6 @@ AbstractResource *AbstractResourcePool::acquire() {
 			{
 				//unlock queue - we will wait
 				SyncReleased<FastLock> __(SyncPt::queueLock);
-				//install timeout
-				Timeout waitT(waitTimeout);
 				//wait for resource
 				SyncPt::wait(s,waitT,SyncPt::interruptOnExit);
 				//try to remove from queue, if successed, timeout
@@ -104,6 +111,8 @@ AbstractResource *AbstractResourcePool::acquire() {
 				//retrieve resource from the slot
 				out = (AbstractResource *)s.payload;
 			}
+			//no resource, but there can be space for a new one
+			if (out == 0) continue;
 
 		} else {
 			//in case that pool is not empty
@@ -114,12 +123,15 @@ AbstractResource *AbstractResourcePool::acquire() {
 
 		//check resource expired
 		if (out->expired()) {
-			//if expired, unlock queue
-			SyncReleased<FastLock> __(SyncPt::queueLock);
-			//delete resource
-			delete out;
+			{
+				//if expired, unlock queue
+				SyncReleased<FastLock> __(SyncPt::queueLock);
+				//delete resource
+				delete out;
+			}
 			//increase limit
 			lockInc(curLimit);
+			wakeWaiting_lk();
 			//reset out
 			out = 0;
 		} else  {
@@ -136,12 +148,36 @@ AbstractResource *AbstractResourcePool::acquire() {
 }
 
 void AbstractResourcePool::setLimit(natural newLimit) {
+	Synchronized<FastLock> _(SyncPt::queueLock);
 	if (newLimit > limit) {
 		lockExchangeAdd(curLimit,newLimit - limit);
-		newLimit = limit;
 	} else if (newLimit < limit) {
-		lockExchangeSub(curLimit,limit - curLimit);
-		newLimit = limit;
+		lockExchangeSub(curLimit,limit - newLimit);
+	}
+	limit = newLimit;
+	wakeWaiting_lk();
+	//remove unused resources above the limit
+	while (pool && readAcquire(&curLimit) < 0) {
+		AbstractResource *x = pool;
+		pool = pool->next;
+		{
+			SyncReleased<FastLock> __(SyncPt::queueLock);
+			delete x;
+		}
+		lockInc(curLimit);
+		wakeWaiting_lk();
+	}
+}
+
+void AbstractResourcePool::wakeWaiting_lk() {
+	atomicValue n = readAcquire(&curLimit);
+	while (n > 0) {
+		SyncPt::Slot *s = SyncPt::popSlot_lk();
+		if (s == 0) break;
+		//no resource for the slot, thread must create it
+		s->payload = 0;
+		SyncPt::notifySlot_lk(s);
+		n--;
 	}
 }
 
@@ -154,15 +190,20 @@ natural AbstractResourcePool::getCurLimit() const {
 }
 
 void AbstractResourcePool::release(AbstractResource *a) {
+	//lock queue
+	Synchronized<FastLock> _(SyncPt::queueLock);
 	//check limit, if it is negative, do not store resource
 	if (readAcquire(&curLimit) < 0) {
-		//delete resource
-		delete a;
+		{
+			SyncReleased<FastLock> __(SyncPt::queueLock);
+			//delete resource
+			delete a;
+		}
 		//increase limit
 		lockInc(curLimit);
+		//the limit could be changed meanwhile
+		wakeWaiting_lk();
 	} else {
-		//lock queue
-		Synchronized<FastLock> _(SyncPt::queueLock);
 		//pop slot
 		SyncPt::Slot *s = SyncPt::popSlot_lk();
 		//we poped slot?
diff --git a/src/lightspeed/base/containers/resourcePool.h b/src/lightspeed/base/containers/resourcePool.h
index 05a51df..f8c59ab 100644
--- a/src/lightspeed/base/containers/resourcePool.h
+++ b/src/lightspeed/base/containers/resourcePool.h
@@ -110,6 +110,10 @@ public:
 	void release(AbstractResource *a);
 	AbstractResource *acquire();
 
+private:
+	///wakes up waiting threads to use free space for new resources (queueLock must be locked)
+	void wakeWaiting_lk();
+
 
 };
 
-- 
2.43.0


From 1f72fa004fb96e68ac0d78437bb6aac387fef16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 037/208] fix: OpenFlags::deleteOnClose was shadowed by a local
 variable and ignored

---
 src/lightspeed/base/linux/fileio.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index c5c1041..f412aa7 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -309,7 +309,7 @@ namespace LightSpeed {
     	using namespace OpenFlags;
 
 
-        bool deleteOnClose = false;
+        bool removeOnClose = false;
         StringA cname =String::getUtf8(ofn);
         if (cname.length() > 4 && cname.head(4) == ConstStrA("#fd:")) {
         	int fx;
@@ -337,7 +337,7 @@ namespace LightSpeed {
 
     	int createFlags =  S_IRUSR|S_IWUSR|S_IWGRP|S_IRGRP|S_IWOTH|S_IROTH;
         if (flags & writeThrough) openFlags|=O_SYNC;
-        if (flags & deleteOnClose) deleteOnClose = true;
+        if (flags & deleteOnClose) removeOnClose = true;
         if (flags & append) openFlags|=O_APPEND;
         if (flags & create) {
         	openFlags|=O_CREAT;
@@ -359,7 +359,7 @@ namespace LightSpeed {
         fcntl(fd, F_SETFD, FD_CLOEXEC);
 #endif
 #endif
-        return new FileDescriptor(fd,cname,deleteOnClose,
+        return new FileDescriptor(fd,cname,removeOnClose,
         		openFlags == O_WRONLY,openFlags == O_RDONLY);
         
     }
-- 
2.43.0


From 5a051b52bb79aef244262affe3c335a41752aa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 038/208] fix: file opened for reading or writing only reported
 that it can be written or read

---
 src/lightspeed/base/linux/fileio.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index f412aa7..de8f7fd 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -276,7 +276,7 @@ namespace LightSpeed {
     public:
     	FileDescriptorCommitOnClose(FileDescriptor *originDesc, String targetName)
     		:FileDescriptor(originDesc->fd, originDesc->name,false,
-    				originDesc->maskWrite,originDesc->maskRead)
+    				originDesc->maskRead,originDesc->maskWrite)
     		,targetFile(targetName)
     	{
     		originDesc->fd = -1;
@@ -310,6 +310,7 @@ namespace LightSpeed {
 
 
         bool removeOnClose = false;
+        const int accessMode = openFlags;
         StringA cname =String::getUtf8(ofn);
         if (cname.length() > 4 && cname.head(4) == ConstStrA("#fd:")) {
         	int fx;
@@ -360,7 +361,7 @@ namespace LightSpeed {
 #endif
 #endif
         return new FileDescriptor(fd,cname,removeOnClose,
-        		openFlags == O_WRONLY,openFlags == O_RDONLY);
+        		accessMode == O_WRONLY,accessMode == O_RDONLY);
         
     }
     
-- 
2.43.0


From 435ba380fb2a533743b8a1d5d8823127455d04e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 039/208] fix: file lock with a timeout waited for ever,
 interrupted lock failed

---
 src/lightspeed/base/linux/fileio.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index de8f7fd..7459e41 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -19,7 +19,7 @@
 #include <sys/file.h>
 #include "fileio.h"
 #include "../exceptions/invalidParamException.h"
-#include "../../mt/linux/systime.h"
+#include "../../mt/timeout.h"
 #include <sys/mman.h>
 
 #include "../interface.tcc"
@@ -588,11 +588,15 @@ namespace LightSpeed {
 	}
 
 	bool FileDescriptorSeq::lock(int flags, natural timeout) {
-		if (timeout == 0) flags |= LOCK_NB;
-		if (flock(this->fd,flags)) {
+		Timeout tm(timeout);
+		if (timeout != naturalNull) flags |= LOCK_NB;
+		while (flock(this->fd,flags)) {
 			int err = errno;
-			if (err == EWOULDBLOCK) return false;
-			else throw ErrNoException(THISLOCATION, err);
+			if (err == EINTR) continue;
+			if (err != EWOULDBLOCK) throw ErrNoException(THISLOCATION, err);
+			if (timeout == 0 || tm.expired()) return false;
+			//there is no flock() with a timeout, try it periodically
+			usleep(2000);
 		}
 		return true;
 	}
-- 
2.43.0


From a705593eec5c6b23e5a277c683aeab2e04837558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 040/208] fix: commitOnClose replaced the file even if its
 content could not be stored

---
 src/lightspeed/base/linux/fileio.cpp | 44 ++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 7459e41..e043f0c 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -277,18 +277,46 @@ namespace LightSpeed {
     	FileDescriptorCommitOnClose(FileDescriptor *originDesc, String targetName)
     		:FileDescriptor(originDesc->fd, originDesc->name,false,
     				originDesc->maskRead,originDesc->maskWrite)
-    		,targetFile(targetName)
+    		,targetFile(targetName),writeFailed(false)
     	{
     		originDesc->fd = -1;
     		delete originDesc;
     	}
 
+    	using FileDescriptor::read;
+    	virtual natural write(const void *buffer, natural size) {
+    		try {
+    			return FileDescriptor::write(buffer,size);
+    		} catch (...) {
+    			writeFailed = true;
+    			throw;
+    		}
+    	}
+    	virtual natural write(const void *buffer, natural size, FileOffset offset) {
+    		try {
+    			return FileDescriptor::write(buffer,size,offset);
+    		} catch (...) {
+    			writeFailed = true;
+    			throw;
+    		}
+    	}
+
     	void closeOutput() {
     		if (fd!=-1) {
-    			flush();
     			IFileIOServices &svcs = IFileIOServices::getIOServices();
-    			close(fd);
+    			//once closed, never commit again
+    			int h = fd;
     			fd = -1;
+    			maskWrite = true;
+    			//keep the old file unless the whole new content reached the disk
+    			int err = writeFailed?EIO:0;
+    			while (err == 0 && ::fdatasync(h) == -1) {
+    				if (errno == EINTR) continue;
+    				err = errno;
+    				break;
+    			}
+    			if (::close(h) == -1 && err == 0) err = errno;
+    			if (err) throw FileIOError(THISLOCATION,err,name);
 /*    			String oldver = targetFile + ConstStrW(L".bak");
     			if (svcs.canOpenFile(targetFile,IFileIOServices::fileAccessible))
     				svcs.move(targetFile,oldver,true);*/
@@ -297,11 +325,17 @@ namespace LightSpeed {
     	}
 
     	~FileDescriptorCommitOnClose() {
-    		if (!std::uncaught_exception())
-    			closeOutput();
+    		try {
+    			if (!std::uncaught_exception())
+    				closeOutput();
+    		} catch (...) {
+    			//destructor must not throw, the old file stays
+    		}
     	}
     protected:
     	String targetFile;
+    	///a write has failed - content is not complete and must not be commited
+    	bool writeFailed;
     };
 
     static FileDescriptorSeq *safeOpenFile(ConstStrW ofn, int openFlags, OpenFlags::Type flags) {
-- 
2.43.0


From 321e398f33124a88780e204d807408937ee80f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 041/208] fix: attribute hidden of folder entries was not
 initialized

---
 src/lightspeed/base/linux/fileio.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index e043f0c..160c6b3 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -766,6 +766,7 @@ namespace LightSpeed {
     			strcpy(buffer,res->d_name);
     			convert(ConstStrA(srcpath),wsrcpath);
     			this->entryName = ConstStrW(wbuffer);
+    			hidden = buffer[0] == '.';
     			link = false;
     			statLoaded = false;
     			switch (res->d_type) {
-- 
2.43.0


From 4d4dd30da9cab861ebad669823c682dab6d3ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 042/208] fix: type of a link which cannot be examined was
 taken from another entry

---
 src/lightspeed/base/linux/fileio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 160c6b3..eb775be 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -798,7 +798,7 @@ namespace LightSpeed {
     				}
     			} else {
 					i = stat64(srcpath,&statInfo);
-    				if (i != 0) FileOpenError(THISLOCATION,errno,wsrcpath);
+    				if (i != 0) throw FileOpenError(THISLOCATION,errno,wsrcpath);
     			}
     			if (S_ISREG(statInfo.st_mode)) type = file;
     			else if (S_ISDIR(statInfo.st_mode)) type = directory;
-- 
2.43.0


From d5ad784bab7d97eb4e0ae0627aea5d2f0e494c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 043/208] fix: copying of file silently truncated the target
 when sendfile was short or interrupted

---
 src/lightspeed/base/linux/fileio.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index eb775be..6daad46 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -953,10 +953,14 @@ namespace LightSpeed {
     	if (ofd == -1) {int e = errno;close(ifd);throw FileIOError(THISLOCATION,e,to);}
 
     	int err = 0;
-    	ssize_t res = sendfile(ofd,ifd,0,st.st_size);
-    	if (res == -1) err = errno;
+    	//single call of sendfile can transfer less than requested
+    	for (;;) {
+    		ssize_t res = sendfile(ofd,ifd,0,0x40000000);
+    		if (res == 0) break;
+    		if (res == -1 && errno != EINTR) {err = errno;break;}
+    	}
     	close(ifd);
-    	close(ofd);
+    	if (close(ofd) == -1 && err == 0) err = errno;
 
     	if (err) throw FileCopyException(THISLOCATION, err, from, to);
     }
-- 
2.43.0


From 1baec98f77215a2f0311854a4baaa28499bc4c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 044/208] fix: createFolder with parents failed when the folder
 exists or is just being created

---
 src/lightspeed/base/linux/fileio.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 6daad46..3bd98cd 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -258,7 +258,8 @@ namespace LightSpeed {
     		throw FolderCreationException(THISLOCATION,e.getErrNo(),String(dirName))
     				<< e;
     	}
-    	if (mkdir(dirName.c_str(),0777) != 0)
+    	//folder can be created by someone else in the meantime
+    	if (mkdir(dirName.c_str(),0777) != 0 && errno != EEXIST)
     		throw FolderCreationException(THISLOCATION,errno,String(dirName));
     }
 
@@ -899,6 +900,8 @@ namespace LightSpeed {
     	if (parents) createFolders(fn);
 		if (::mkdir(fn.c_str(),0777) == -1) {
 			int err = errno;
+			struct stat st;
+			if (parents && err == EEXIST && ::stat(fn.c_str(),&st) == 0 && S_ISDIR(st.st_mode)) return;
 			throw FolderCreationException(THISLOCATION,err,folderName);
 		}
     }
-- 
2.43.0


From b0d8518231fcfd16689a7e9e225c043de68bb320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 045/208] fix: createTempFile with a fixed name opened and
 overwrote an existing file

---
 src/lightspeed/base/linux/fileio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 3bd98cd..7e8fb81 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -1166,7 +1166,7 @@ namespace LightSpeed {
 			String filename(fmt.write());
 			try {
 				PInOutStream hnd = openSeqFile(filename,fileOpenWrite,
-					OpenFlags::create|OpenFlags::temporary|OpenFlags::shareRead|OpenFlags::shareWrite);
+					OpenFlags::create|OpenFlags::newFile|OpenFlags::temporary|OpenFlags::shareRead|OpenFlags::shareWrite);
 				return new TemporaryFile(*this,hnd,filename);
 			} catch (FileOpenError &e) {
 				if (e.getErrNo() == EEXIST)
-- 
2.43.0


From 9ef9cf4aeb717775c8ba96bdf7c02138912def2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 046/208] fix: writing into IOBuffer filled by unread input
 overwrote the input

---
 src/lightspeed/base/streams/fileiobuff.h   | 2 +-
 src/lightspeed/base/streams/fileiobuff.tcc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/streams/fileiobuff.h b/src/lightspeed/base/streams/fileiobuff.h
index 14281f6..035790e 100644
--- a/src/lightspeed/base/streams/fileiobuff.h
+++ b/src/lightspeed/base/streams/fileiobuff.h
@@ -178,7 +178,7 @@ namespace LightSpeed {
 	virtual natural getOutputLength() const { return wrpos - wrbeg; }
 	virtual natural getOutputCapacity() const { return bufferSize;  }
 	virtual natural getOutputAvailable() const {
-		natural s = ((wrbeg < rdpos && rdpos < rdend) ? rdpos : bufferSize) - wrpos;
+		natural s = ((wrbeg <= rdpos && rdpos < rdend) ? rdpos : bufferSize) - wrpos;
 		return s;
 	}
 	virtual void discardOutput(natural count) {
diff --git a/src/lightspeed/base/streams/fileiobuff.tcc b/src/lightspeed/base/streams/fileiobuff.tcc
index 34ceb51..f5165bb 100644
--- a/src/lightspeed/base/streams/fileiobuff.tcc
+++ b/src/lightspeed/base/streams/fileiobuff.tcc
@@ -81,7 +81,7 @@ void IOBuffer<bufferSize>::intFetch() const {
 
 template<natural bufferSize>
 natural IOBuffer<bufferSize>::getWriteSpace() const {
-	return  ((wrbeg < rdpos && rdpos < rdend)?rdpos:bufferSize) - wrpos;
+	return  ((wrbeg <= rdpos && rdpos < rdend)?rdpos:bufferSize) - wrpos;
 }
 
 template<natural bufferSize>
-- 
2.43.0


From 7a2104ebbbb8332d2b5491568cc24153a5e97ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 047/208] fix: IOBuffer::peek without a buffer returned the
 negated count of bytes

---
 src/lightspeed/base/streams/fileiobuff.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/fileiobuff.tcc b/src/lightspeed/base/streams/fileiobuff.tcc
index f5165bb..99689ca 100644
--- a/src/lightspeed/base/streams/fileiobuff.tcc
+++ b/src/lightspeed/base/streams/fileiobuff.tcc
@@ -160,7 +160,7 @@ template<natural bufferSize>
 natural IOBuffer<bufferSize>::peek(void *buffer, natural size) const {
 	//we can now support peek buffer expansion
 	if (size == 0) {
-		if (canRead()) return rdpos - rdend;
+		if (canRead()) return rdend - rdpos;
 		else return 0;
 	}
 
-- 
2.43.0


From e9c881d2e0c8be538208549d837c440076724f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 048/208] fix: IOBuffer wrote bytes again after an interrupted
 flush and lost the rest of a flush unnoticed

---
 src/lightspeed/base/streams/fileiobuff.tcc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/base/streams/fileiobuff.tcc b/src/lightspeed/base/streams/fileiobuff.tcc
index 99689ca..19c5593 100644
--- a/src/lightspeed/base/streams/fileiobuff.tcc
+++ b/src/lightspeed/base/streams/fileiobuff.tcc
@@ -239,12 +239,13 @@ template<natural bufferSize>
 void IOBuffer<bufferSize>::intFlush() const {
 	//flush is only useful when there are bytes to flush
 	if (wrpos > wrbeg) {
-		//total to write
-		natural s = wrpos - wrbeg;
-		//write all
-		natural x = targetOut->writeAll(buff.data()+wrbeg, s);
-		//mark if output has been closed;
-		if (x == 0) outputClosed = true;
+		//write all - bytes already written must not be written again after an exception
+		while (wrpos > wrbeg) {
+			natural x = targetOut->write(buff.data()+wrbeg, wrpos - wrbeg);
+			//mark if output has been closed;
+			if (x == 0) {outputClosed = true;break;}
+			wrbeg += x;
+		}
 		//adjust write position
 		adjustWritePos();
 	}
-- 
2.43.0


From be58ced6764a958750c2b4d77b9e9e291fd53fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 049/208] fix: IOBuffer accepted data after its output has been
 closed

---
 src/lightspeed/base/streams/fileiobuff.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/streams/fileiobuff.tcc b/src/lightspeed/base/streams/fileiobuff.tcc
index 19c5593..dc063a1 100644
--- a/src/lightspeed/base/streams/fileiobuff.tcc
+++ b/src/lightspeed/base/streams/fileiobuff.tcc
@@ -86,6 +86,8 @@ natural IOBuffer<bufferSize>::getWriteSpace() const {
 
 template<natural bufferSize>
 natural IOBuffer<bufferSize>::write(const void *buffer,  natural size) {
+	//nothing can be written to closed output
+	if (outputClosed) return 0;
 	//calculate available space
 	//write buffer can be behind read buffer or beyond.
 	natural s = getWriteSpace();
-- 
2.43.0


From 811e2c097eb55fc40382d7b4aae117cc1bfc0f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 050/208] fix: IOBuffer::putBack refused one byte just read and
 overwrote data waiting for flush

---
 src/lightspeed/base/streams/fileiobuff.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/streams/fileiobuff.tcc b/src/lightspeed/base/streams/fileiobuff.tcc
index dc063a1..5726758 100644
--- a/src/lightspeed/base/streams/fileiobuff.tcc
+++ b/src/lightspeed/base/streams/fileiobuff.tcc
@@ -295,9 +295,9 @@ void IOBuffer<bufferSize>::putBack(ConstBin seq) {
 	if (bufferSize - sz < seq.length()) throwWriteIteratorNoSpace(THISLOCATION, typeid(*this));
 
 	//there is space before the read buffer
-	if (rdpos > seq.length()) {
+	if (rdpos >= seq.length()) {
 		//if there is write buffer and no space to put seq
-		if (wrpos < rdpos && wrpos+seq.length() > rdpos) {
+		if (wrpos > wrbeg && wrbeg < rdend && wrpos+seq.length() > rdpos) {
 			//flush to output
 			intFlush();
 		}
@@ -305,6 +305,8 @@ void IOBuffer<bufferSize>::putBack(ConstBin seq) {
 		memcpy(buff.data()+rdpos-seq.length(), seq.data(), seq.length());
 		//update rdpos
 		rdpos -= seq.length();
+		//empty write buffer must not stay inside of the read buffer
+		if (wrpos == wrbeg) adjustWritePos();
 
 	} else {
 		//failure - we cannot put bytes back without moving buffer
-- 
2.43.0


From 61ba4c1839a9fc118f55656539cc1d3f66685d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 051/208] fix: append mode of MemFile was not initialized

---
 src/lightspeed/base/streams/memfile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/memfile.h b/src/lightspeed/base/streams/memfile.h
index 9e429ec..47a5249 100644
--- a/src/lightspeed/base/streams/memfile.h
+++ b/src/lightspeed/base/streams/memfile.h
@@ -35,7 +35,7 @@ namespace LightSpeed {
         virtual natural dataReady() const {return true;}
         virtual void closeOutput() {readOnly = true;}
 
-        MemFile():pos(0),readOnly(false) {}
+        MemFile():pos(0),appendMode(false),readOnly(false) {}
                 
 
         bool empty() const {return filebuffer.empty();}
-- 
2.43.0


From 8da967c849a7c253461af0556aeaebc48fbfdc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 052/208] fix: appending to MemFile moved the read position
 over unread data

---
 src/lightspeed/base/streams/memfile.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/memfile.tcc b/src/lightspeed/base/streams/memfile.tcc
index 172bfa8..458939f 100644
--- a/src/lightspeed/base/streams/memfile.tcc
+++ b/src/lightspeed/base/streams/memfile.tcc
@@ -41,7 +41,7 @@ natural MemFile<Alloc>::write(const void *buffer, natural size)
 		filebuffer.resize(endrd);
 	}
 	memcpy(filebuffer.data()+wrpos,buffer,size);
-	pos += size;
+	if (!appendMode) pos += size;
 	return size;
 }
 
-- 
2.43.0


From 77a41bf31545f24f19d3bc88468bbf3683ec39f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 053/208] fix: MemFile accepted data after its output has been
 closed

---
 src/lightspeed/base/streams/memfile.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/streams/memfile.tcc b/src/lightspeed/base/streams/memfile.tcc
index 458939f..e5fc663 100644
--- a/src/lightspeed/base/streams/memfile.tcc
+++ b/src/lightspeed/base/streams/memfile.tcc
@@ -34,6 +34,7 @@ natural MemFile<Alloc>::read(void *buffer, natural size)
 template<typename Alloc>
 natural MemFile<Alloc>::write(const void *buffer, natural size)
 {
+	if (readOnly) return 0;
 	natural wrpos = appendMode?filebuffer.length():pos;
 	natural l = filebuffer.length();
 	natural endrd = wrpos + size;
-- 
2.43.0


From fdfe87366a0d4ecef19b4bd18da821f3b99b09e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 054/208] fix: failed closeOutput of IOBuffer made every
 following read write into the closed stream

---
 src/lightspeed/base/streams/fileiobuff.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/streams/fileiobuff.tcc b/src/lightspeed/base/streams/fileiobuff.tcc
index 5726758..c4bdfc8 100644
--- a/src/lightspeed/base/streams/fileiobuff.tcc
+++ b/src/lightspeed/base/streams/fileiobuff.tcc
@@ -274,6 +274,8 @@ void IOBuffer<bufferSize>::closeOutput() {
 		intFlush();
 	} catch (...) {
 		//in case of exception during flush
+		//bytes which remain cannot be written any more, they must not block reading
+		adjustWritePos();
 		try {
 			//try to close target output
 			targetOut->closeOutput();
-- 
2.43.0


From f19c2900a949e801651ef27232ab8c0237bdc98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 055/208] fix: new areas of MemFile were not filled by zeroes

---
 src/lightspeed/base/streams/memfile.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/streams/memfile.tcc b/src/lightspeed/base/streams/memfile.tcc
index e5fc663..54aa287 100644
--- a/src/lightspeed/base/streams/memfile.tcc
+++ b/src/lightspeed/base/streams/memfile.tcc
@@ -39,7 +39,7 @@ natural MemFile<Alloc>::write(const void *buffer, natural size)
 	natural l = filebuffer.length();
 	natural endrd = wrpos + size;
 	if (endrd >= l) {
-		filebuffer.resize(endrd);
+		filebuffer.resize(endrd,0);
 	}
 	memcpy(filebuffer.data()+wrpos,buffer,size);
 	if (!appendMode) pos += size;
@@ -91,7 +91,7 @@ template<typename Alloc> inline natural MemFile<Alloc>::write(const void *buffer
 	natural l = filebuffer.length();
 	natural endrd = pos + size;
 	if (endrd >= l) {
-		filebuffer.resize(endrd);
+		filebuffer.resize(endrd,0);
 	}
 	memcpy(filebuffer.data()+pos,buffer,size);
 	return size;
@@ -101,7 +101,7 @@ template<typename Alloc> inline natural MemFile<Alloc>::write(const void *buffer
 
 template<typename Alloc> inline void MemFile<Alloc>::setSize(FileOffset size)
 {
-	filebuffer.resize((natural)size);
+	filebuffer.resize((natural)size,0);
 }
 
 
-- 
2.43.0


From d0634f9a070478a764b87af70d744590e4ffc5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 056/208] fix: network operations failed when interrupted by a
 signal

---
 src/lightspeed/base/linux/linuxFdSelect.cpp |  6 ++++
 src/lightspeed/base/linux/netStream.cpp     | 33 +++++++++++++--------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/lightspeed/base/linux/linuxFdSelect.cpp b/src/lightspeed/base/linux/linuxFdSelect.cpp
index 0d4ec05..d6d0027 100644
--- a/src/lightspeed/base/linux/linuxFdSelect.cpp
+++ b/src/lightspeed/base/linux/linuxFdSelect.cpp
@@ -42,8 +42,14 @@ natural safeSelect(integer socket, natural waitFor, natural timeout) {
 	fdinfo.fd = socket;
 	fdinfo.events = waitMaskToEvents(waitFor);
 	fdinfo.revents = 0;
+	Timeout expires(timeout);
 	int tm = timeout==naturalNull?-1:(int)timeout;
 	int r=poll(&fdinfo,1,tm);
+	while (r == -1 && errno == EINTR) {
+		//interrupted by a signal, wait for the rest of the time
+		if (timeout != naturalNull) tm = (int)expires.getRemain().msecs();
+		r=poll(&fdinfo,1,tm);
+	}
 	if (r == 1) {
 		return eventsToWaitMask(fdinfo.revents);
 	} else if (r == 0) {
diff --git a/src/lightspeed/base/linux/netStream.cpp b/src/lightspeed/base/linux/netStream.cpp
index 2322b25..cfa561a 100644
--- a/src/lightspeed/base/linux/netStream.cpp
+++ b/src/lightspeed/base/linux/netStream.cpp
@@ -44,10 +44,13 @@ LinuxNetStream::~LinuxNetStream() {
 natural LinuxNetStream::read( void *buffer, natural size )
 {
 	if (foundEof) return 0;
-	if (!wait(INetworkResource::waitForInput))
-		throw NetworkTimeoutException(THISLOCATION,getTimeout(),
-					NetworkTimeoutException::reading);
-	int res = recv(sock,reinterpret_cast<char *>(buffer),(int)size,0);
+	int res;
+	do {
+		if (!wait(INetworkResource::waitForInput))
+			throw NetworkTimeoutException(THISLOCATION,getTimeout(),
+						NetworkTimeoutException::reading);
+		res = recv(sock,reinterpret_cast<char *>(buffer),(int)size,0);
+	} while (res == -1 && (errno == EINTR || errno == EAGAIN));
 	if (res == -1)
 		throw NetworkIOError(THISLOCATION,errno,"recv failed");
 	if (res == 0) foundEof = true;;
@@ -61,10 +64,13 @@ natural LinuxNetStream::write( const void *buffer, natural size )
 {
 	if (foundEof)
 		throw NetworkIOError(THISLOCATION,0,"send failed - connection closed");
-	if (!wait(INetworkResource::waitForOutput))
-		throw NetworkTimeoutException(THISLOCATION,getTimeout(),
-			NetworkTimeoutException::writing);
-	int res = send(sock,reinterpret_cast<const char *>(buffer),(int)size,0);
+	int res;
+	do {
+		if (!wait(INetworkResource::waitForOutput))
+			throw NetworkTimeoutException(THISLOCATION,getTimeout(),
+				NetworkTimeoutException::writing);
+		res = send(sock,reinterpret_cast<const char *>(buffer),(int)size,0);
+	} while (res == -1 && (errno == EINTR || errno == EAGAIN));
 	if (res == -1)
 		throw NetworkIOError(THISLOCATION,errno,"send failed");
 	return (natural)res;
@@ -75,10 +81,13 @@ natural LinuxNetStream::peek( void *buffer, natural size ) const
 {
 	if (foundEof) return 0;
 
-	if (!wait(INetworkResource::waitForInput))
-		throw NetworkTimeoutException(THISLOCATION,getTimeout(),
-		NetworkTimeoutException::reading);
-	int res = recv(sock,reinterpret_cast<char *>(buffer),(int)size,MSG_PEEK);
+	int res;
+	do {
+		if (!wait(INetworkResource::waitForInput))
+			throw NetworkTimeoutException(THISLOCATION,getTimeout(),
+			NetworkTimeoutException::reading);
+		res = recv(sock,reinterpret_cast<char *>(buffer),(int)size,MSG_PEEK);
+	} while (res == -1 && (errno == EINTR || errno == EAGAIN));
 	if (res == -1)
 		throw NetworkIOError(THISLOCATION,errno,"recv failed");
 	if (res == 0) foundEof = true;
-- 
2.43.0


From b2c39bd010a252a6c556d19ee1e973a8b4435252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 057/208] fix: write to a network stream ignored the timeout
 once a part of data has been sent

---
 src/lightspeed/base/linux/netStream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/netStream.cpp b/src/lightspeed/base/linux/netStream.cpp
index cfa561a..a45b6c6 100644
--- a/src/lightspeed/base/linux/netStream.cpp
+++ b/src/lightspeed/base/linux/netStream.cpp
@@ -69,7 +69,8 @@ natural LinuxNetStream::write( const void *buffer, natural size )
 		if (!wait(INetworkResource::waitForOutput))
 			throw NetworkTimeoutException(THISLOCATION,getTimeout(),
 				NetworkTimeoutException::writing);
-		res = send(sock,reinterpret_cast<const char *>(buffer),(int)size,0);
+		//part which doesn't fit to the buffer of the socket must not block over the timeout
+		res = send(sock,reinterpret_cast<const char *>(buffer),(int)size,MSG_DONTWAIT);
 	} while (res == -1 && (errno == EINTR || errno == EAGAIN));
 	if (res == -1)
 		throw NetworkIOError(THISLOCATION,errno,"send failed");
-- 
2.43.0


From 8533d2d779a2ebf6b6bb6549a4cd731a67cc6949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 058/208] fix: write to a connection closed by the other side
 killed the process by SIGPIPE

---
 src/lightspeed/base/linux/netStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/netStream.cpp b/src/lightspeed/base/linux/netStream.cpp
index a45b6c6..a71f04c 100644
--- a/src/lightspeed/base/linux/netStream.cpp
+++ b/src/lightspeed/base/linux/netStream.cpp
@@ -70,7 +70,7 @@ natural LinuxNetStream::write( const void *buffer, natural size )
 			throw NetworkTimeoutException(THISLOCATION,getTimeout(),
 				NetworkTimeoutException::writing);
 		//part which doesn't fit to the buffer of the socket must not block over the timeout
-		res = send(sock,reinterpret_cast<const char *>(buffer),(int)size,MSG_DONTWAIT);
+		res = send(sock,reinterpret_cast<const char *>(buffer),(int)size,MSG_DONTWAIT|MSG_NOSIGNAL);
 	} while (res == -1 && (errno == EINTR || errno == EAGAIN));
 	if (res == -1)
 		throw NetworkIOError(THISLOCATION,errno,"send failed");
-- 
2.43.0


From 4c1ab7055c45ba37684826ef422ec7cc1a6f854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 059/208] fix: reading of zero bytes from a network stream was
 taken as end of the stream

---
 src/lightspeed/base/linux/netStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/netStream.cpp b/src/lightspeed/base/linux/netStream.cpp
index a71f04c..1804446 100644
--- a/src/lightspeed/base/linux/netStream.cpp
+++ b/src/lightspeed/base/linux/netStream.cpp
@@ -53,7 +53,7 @@ natural LinuxNetStream::read( void *buffer, natural size )
 	} while (res == -1 && (errno == EINTR || errno == EAGAIN));
 	if (res == -1)
 		throw NetworkIOError(THISLOCATION,errno,"recv failed");
-	if (res == 0) foundEof = true;;
+	if (res == 0 && size != 0) foundEof = true;
 	natural rd = (natural)res;
 	if (rd > countReady) countReady = 0; else countReady -= rd;
 	return rd;
@@ -91,7 +91,7 @@ natural LinuxNetStream::peek( void *buffer, natural size ) const
 	} while (res == -1 && (errno == EINTR || errno == EAGAIN));
 	if (res == -1)
 		throw NetworkIOError(THISLOCATION,errno,"recv failed");
-	if (res == 0) foundEof = true;
+	if (res == 0 && size != 0) foundEof = true;
 	natural rd = (natural)res;
 	if (rd > countReady) countReady = rd;
 	return rd;
-- 
2.43.0


From e61d7b3d0396075494fc0bebff7a81daebd9f1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 060/208] fix: socket leaked when its port could not be opened

---
 src/lightspeed/base/linux/netDgramSource.cpp  |  7 +++++--
 src/lightspeed/base/linux/netStreamSource.cpp | 14 ++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/base/linux/netDgramSource.cpp b/src/lightspeed/base/linux/netDgramSource.cpp
index def8f3f..dacfa2a 100644
--- a/src/lightspeed/base/linux/netDgramSource.cpp
+++ b/src/lightspeed/base/linux/netDgramSource.cpp
@@ -259,8 +259,11 @@ int LinuxNetDgamSource::createDatagramSocket(natural port) {
 
 		int e = bind(s,ainfo->ai_addr,ainfo->ai_addrlen);
 
-		if (e != 0)
-			throw NetworkPortOpenException(THISLOCATION,errno,port);
+		if (e != 0) {
+			int err = errno;
+			close(s);
+			throw NetworkPortOpenException(THISLOCATION,err,port);
+		}
 	} else {
 
 		s = socket(AF_INET6, SOCK_DGRAM, 0);
diff --git a/src/lightspeed/base/linux/netStreamSource.cpp b/src/lightspeed/base/linux/netStreamSource.cpp
index b35333e..d3f3d2e 100644
--- a/src/lightspeed/base/linux/netStreamSource.cpp
+++ b/src/lightspeed/base/linux/netStreamSource.cpp
@@ -44,11 +44,17 @@ static int createListenSocket(PNetworkAddress addr) {
 	ioctl(s,FIONBIO,&nonblk);
 
 	int e = bind(s,ainfo->ai_addr,ainfo->ai_addrlen);
-	if (e != 0)
-		throw NetworkPortOpenException(THISLOCATION,errno,getPortNumber(ainfo));
+	if (e != 0) {
+		int err = errno;
+		close(s);
+		throw NetworkPortOpenException(THISLOCATION,err,getPortNumber(ainfo));
+	}
 	e = listen(s,SOMAXCONN);
-	if (e != 0)
-		throw NetworkIOError(THISLOCATION,errno,"Listen on socket failed");
+	if (e != 0) {
+		int err = errno;
+		close(s);
+		throw NetworkIOError(THISLOCATION,err,"Listen on socket failed");
+	}
 
 	return s;
 }
-- 
2.43.0


From 679fa6c04be6604880a2dce390cad09ed2a97eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 061/208] fix: timeout of listening was reported as I/O error,
 aborted or interrupted connection as well

---
 src/lightspeed/base/linux/netStreamSource.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/netStreamSource.cpp b/src/lightspeed/base/linux/netStreamSource.cpp
index d3f3d2e..fec550c 100644
--- a/src/lightspeed/base/linux/netStreamSource.cpp
+++ b/src/lightspeed/base/linux/netStreamSource.cpp
@@ -83,15 +83,22 @@ PNetworkStream LinuxNetAccept::getNext()
 {
 	if (count == 0)
 		throwIteratorNoMoreItems(THISLOCATION,typeid(PNetworkStream));
-	wait();
 	char buff[256];
 	struct sockaddr *saddr = (struct sockaddr *) (buff);
-	socklen_t socklen = sizeof(buff);
-	int s = accept4(acceptSock, saddr, &socklen,SOCK_CLOEXEC);
+	socklen_t socklen;
+	int s;
+	do {
+		if (wait() == waitTimeout)
+			throw NetworkTimeoutException(THISLOCATION,getTimeout(),
+					NetworkTimeoutException::listening);
+		socklen = sizeof(buff);
+		s = accept4(acceptSock, saddr, &socklen,SOCK_CLOEXEC);
+		//connection could be taken by other thread or closed by the other side meanwhile
+	} while (s == -1 && (errno == EINTR || errno == EAGAIN || errno == ECONNABORTED));
 	if (s == -1)
 		throw NetworkIOError(THISLOCATION, errno, "accept has failed");
 
-	LinuxNetStream* stream = new LinuxNetStream(s, streamDefTimeout);
+	PNetworkStream stream = new LinuxNetStream(s, streamDefTimeout);
 	remoteAddr = INetworkServices::getNetServices().createAddr(saddr,socklen);
 	stream->setTimeout(streamDefTimeout);
 	if (count != naturalNull)
-- 
2.43.0


From 85ee5e82b998515aa4ab2986a163287c11d9158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 062/208] fix: failed connection was offered as connected,
 timeout of connecting was not reported as timeout

---
 src/lightspeed/base/linux/netStreamSource.cpp | 40 ++++++++++++++-----
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/lightspeed/base/linux/netStreamSource.cpp b/src/lightspeed/base/linux/netStreamSource.cpp
index fec550c..f8a7327 100644
--- a/src/lightspeed/base/linux/netStreamSource.cpp
+++ b/src/lightspeed/base/linux/netStreamSource.cpp
@@ -167,7 +167,7 @@ PNetworkAddress LinuxNetConnect::getLocalAddr() const
 LinuxNetConnect::LinuxNetConnect(PNetworkAddress addr,
 		natural count, natural timeout, natural streamDefTimeout)
 	:remoteAddr(addr),count(count),
-	 streamDefTimeout(streamDefTimeout)
+	 streamDefTimeout(streamDefTimeout),readySocket(-1)
 {
 	setTimeout(timeout);
 }
@@ -204,17 +204,28 @@ natural LinuxNetConnect::doWait(natural , natural timeout) const {
 		fdselect.set(asyncSocket[i],waitForOutput,0,tm);
 	}
 
-	readySocket = 0;
-	do {
+	readySocket = -1;
+	while (fdselect.hasItems()) {
 		const LinuxFdSelect::FdInfo &s = fdselect.getNext();
-		if (s.waitMask == 0) return 0;
+		if (s.waitMask == 0) return waitTimeout;
 
-		if (probeSocket(s.fd))
-			readySocket = s.fd;
-		fdselect.unset(s.fd);
-	} while (readySocket == 0 && fdselect.hasItems());
+		int fd = s.fd;
+		if (probeSocket(fd)) {
+			readySocket = fd;
+			return waitForOutput;
+		}
+		//connection failed and the error has been taken from the socket,
+		//the socket must not be used anymore
+		fdselect.unset(fd);
+		for (natural i = 0; i < asyncSocket.length(); i++)
+			if (asyncSocket[i] == fd) {
+				asyncSocket.erase(i);
+				break;
+			}
+		close(fd);
+	}
 
-	return readySocket?waitForOutput:waitTimeout;
+	return waitForException;
 }
 
 
@@ -275,10 +286,18 @@ void LinuxNetConnect::setupSocket() const {
 
 
 PNetworkStream LinuxNetConnect::makeConnect() {
-	if (wait() == 0) {
+	natural res = wait();
+	if (res != waitTimeout && readySocket == -1 && !asyncSocket.empty()) {
+		//waiting was done by user defined handler
+		res = doWait(waitForOutput,0);
+	}
+	if (readySocket == -1) {
 		for (natural i = 0; i < asyncSocket.length(); i++)
 			close(asyncSocket[i]);
 		asyncSocket.clear();
+		if (res == waitTimeout)
+			throw NetworkTimeoutException(THISLOCATION,getTimeout(),
+					NetworkTimeoutException::connecting);
 		throw NetworkConnectFailedException(THISLOCATION,remoteAddr);
 	}
 
@@ -286,6 +305,7 @@ PNetworkStream LinuxNetConnect::makeConnect() {
 		if (readySocket != asyncSocket[i]) close(asyncSocket[i]);
 
 	int s = readySocket;
+	readySocket = -1;
 	asyncSocket.clear();
 
 	int e = 0;
-- 
2.43.0


From ac606ad31622c8121f27d4999f71e20cc4e78cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 063/208] fix: connecting gave up when the first address of the
 host refused the connection immediately

---
 src/lightspeed/base/linux/netStreamSource.cpp | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/lightspeed/base/linux/netStreamSource.cpp b/src/lightspeed/base/linux/netStreamSource.cpp
index f8a7327..8f7ecd9 100644
--- a/src/lightspeed/base/linux/netStreamSource.cpp
+++ b/src/lightspeed/base/linux/netStreamSource.cpp
@@ -251,14 +251,16 @@ void LinuxNetConnect::setupSocket() const {
 	if (a == 0) throw NetworkInvalidAddressException(THISLOCATION,remoteAddr);
 
 	struct addrinfo *aif = a->getAddrInfo();
-	while (aif && asyncSocket.length() < maxWatchSockets) {
+	int lastError = 0;
+	const char *lastErrorDesc = "no address to connect";
+	for (; aif && asyncSocket.length() < maxWatchSockets; aif = aif->ai_next) {
 
 		int s = socket(aif->ai_family,SOCK_STREAM | SOCK_CLOEXEC, aif->ai_protocol);
 		if (s == -1) {
-			if (asyncSocket.empty())
-				throw NetworkIOError(THISLOCATION,errno,"socket creation failed");
-			else
-				break;
+			//try the next address
+			lastError = errno;
+			lastErrorDesc = "socket creation failed";
+			continue;
 		}
 
 		u_long nonblk =1;
@@ -268,18 +270,19 @@ void LinuxNetConnect::setupSocket() const {
 
 			int errnr = errno;
 			if (errnr != EWOULDBLOCK && errnr != EINPROGRESS) {
+				//try the next address
 				close(s);
-				if (asyncSocket.empty())
-					throw NetworkIOError(THISLOCATION,errno,"connect failed");
-				else
-					break;
+				lastError = errnr;
+				lastErrorDesc = "connect failed";
+				continue;
 			}
 
 		}
 
 		asyncSocket.add(s);
-		aif= aif->ai_next;
 	}
+	if (asyncSocket.empty())
+		throw NetworkIOError(THISLOCATION,lastError,lastErrorDesc);
 
 
 }
-- 
2.43.0


From a6471287752b0cd5cf3936865793444719647ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 064/208] fix: timeout of datagram source was used as a mask of
 events, receiving never ended or failed

---
 src/lightspeed/base/linux/netDgramSource.cpp | 29 ++++++++++++--------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/lightspeed/base/linux/netDgramSource.cpp b/src/lightspeed/base/linux/netDgramSource.cpp
index dacfa2a..4ce42f4 100644
--- a/src/lightspeed/base/linux/netDgramSource.cpp
+++ b/src/lightspeed/base/linux/netDgramSource.cpp
@@ -27,26 +27,33 @@ ConstStringT<byte> LinuxNetDatagram::peekOutputBuffer() const {
 }
 
 LinuxNetDgamSource::LinuxNetDgamSource(natural port, natural timeout, natural startDID)
-	:LinuxSocketResource<INetworkDatagramSource>(createDatagramSocket(port),timeout),dgrId(startDID)
+	:LinuxSocketResource<INetworkDatagramSource>(createDatagramSocket(port),waitForInput),dgrId(startDID)
 {
+	setTimeout(timeout);
 
 }
 
 PNetworkDatagram LinuxNetDgamSource::receive() {
 
-	wait();
-
 	RefCntPtr<LinuxNetDatagram> dgr = new(dgmpool) LinuxNetDatagram(this);
 
 	struct sockaddr *saddr = reinterpret_cast<struct sockaddr *>(dgr->addrbuff);
-	socklen_t len = sizeof(dgr->addrbuff);
-
-	u_long res = 0;
-	ioctl(sock,FIONREAD,&res);
-	dgr->inputData.setSize(res);
-	void *buff = dgr->inputData.getBuffer().data();
-
-	int r = ::recvfrom(sock,buff,res,0,saddr,&len);
+	socklen_t len;
+	int r;
+	do {
+		if (wait(waitForInput) == waitTimeout)
+			throw NetworkTimeoutException(THISLOCATION,getTimeout(),
+					NetworkTimeoutException::reading);
+
+		u_long res = 0;
+		ioctl(sock,FIONREAD,&res);
+		dgr->inputData.setSize(res);
+		void *buff = dgr->inputData.getBuffer().data();
+
+		len = sizeof(dgr->addrbuff);
+		r = ::recvfrom(sock,buff,res,0,saddr,&len);
+		//could be taken by other thread
+	} while (r == -1 && (errno == EINTR || errno == EAGAIN));
 	if (r == -1) {
 		int err = errno; throw NetworkIOError(THISLOCATION,err,"recvfrom failed");
 	}
-- 
2.43.0


From 98166b807902df342dbefe7435077b43afeb8318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 065/208] fix: LinuxFdSelect damaged its list of descriptors
 when it was woken up before the first waiting

---
 src/lightspeed/base/linux/linuxFdSelect.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/linux/linuxFdSelect.cpp b/src/lightspeed/base/linux/linuxFdSelect.cpp
index d6d0027..d4806a6 100644
--- a/src/lightspeed/base/linux/linuxFdSelect.cpp
+++ b/src/lightspeed/base/linux/linuxFdSelect.cpp
@@ -112,14 +112,19 @@ bool LinuxFdSelect::hasItems() const {
 
 const LinuxFdSelect::FdInfo& LinuxFdSelect::getNext() {
 	const FdInfo& r = peek();
-	//FIXED: item is no longer signaled - this prevents some problems while curPos is unexpectly reset to zero.
-	fdList(curPos).revents = 0;
-	curPos++;
 	if (r.fd == cancelIn && r.waitMask != 0) {
 		writeRelease(&pendingWakeup,-1);
 		byte x;
 		int err = read(cancelIn,&x,1);
+		while (err < 0 && errno == EINTR) err = read(cancelIn,&x,1);
 		if (err < 0) throw ErrNoException(THISLOCATION,errno);
+		//request can be reported before the list is searched, curPos doesn't need to point to it (or anywhere)
+		natural *pos = fdIndex.find(cancelIn);
+		if (pos) fdList(*pos).revents = 0;
+	} else {
+		//FIXED: item is no longer signaled - this prevents some problems while curPos is unexpectly reset to zero.
+		fdList(curPos).revents = 0;
+		curPos++;
 	}
 	return r;
 }
@@ -222,6 +227,7 @@ void LinuxFdSelect::enableWakeUp(bool enable) {
 			unset(cancelIn);
 			close(cancelIn);
 			close(cancelOut);
+			cancelIn = cancelOut = -1;
 		}
 	}
 }
-- 
2.43.0


From 1787e7ed6cc7ec4ad59b92ac7a5acccf21407e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 066/208] fix: hasItems() of LinuxFdSelect counted its own
 descriptor when wakeUp is enabled

---
 src/lightspeed/base/linux/linuxFdSelect.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/linuxFdSelect.cpp b/src/lightspeed/base/linux/linuxFdSelect.cpp
index d4806a6..571b530 100644
--- a/src/lightspeed/base/linux/linuxFdSelect.cpp
+++ b/src/lightspeed/base/linux/linuxFdSelect.cpp
@@ -107,7 +107,8 @@ void LinuxFdSelect::set(const FdInfo& fdinfo) {
 }
 
 bool LinuxFdSelect::hasItems() const {
-	return !fdList.empty();
+	//descriptor which receives requests to wake up is not an item
+	return fdList.length() > (cancelIn == -1?0:1);
 }
 
 const LinuxFdSelect::FdInfo& LinuxFdSelect::getNext() {
-- 
2.43.0


From cb91a8c184fb40ebff2b38f4d5807c5341143d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 067/208] fix: network waiting object lost, repeated or
 invented events and never removed resources with an event

---
 src/lightspeed/base/linux/linuxFdSelect.cpp   |  7 +++++
 src/lightspeed/base/linux/linuxFdSelect.h     |  5 ++++
 .../base/linux/linuxNetWaitingObj.cpp         | 28 +++++++++----------
 .../base/linux/linuxNetWaitingObj.h           |  3 +-
 4 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/lightspeed/base/linux/linuxFdSelect.cpp b/src/lightspeed/base/linux/linuxFdSelect.cpp
index 571b530..d798682 100644
--- a/src/lightspeed/base/linux/linuxFdSelect.cpp
+++ b/src/lightspeed/base/linux/linuxFdSelect.cpp
@@ -82,6 +82,13 @@ void* LinuxFdSelect::unset(int fd) {
 	}
 }
 
+void LinuxFdSelect::unsetData(void *data) {
+	if (data == 0) return;
+	for (natural i = fdList.length(); i > 0; i--) {
+		if (fdExtra[i-1].data == data) removeFd(i-1);
+	}
+}
+
 void LinuxFdSelect::set(const FdInfo& fdinfo) {
 	natural *pos = fdIndex.find(fdinfo.fd);
 	if (pos == 0) {
diff --git a/src/lightspeed/base/linux/linuxFdSelect.h b/src/lightspeed/base/linux/linuxFdSelect.h
index 84b4470..9da2204 100644
--- a/src/lightspeed/base/linux/linuxFdSelect.h
+++ b/src/lightspeed/base/linux/linuxFdSelect.h
@@ -77,6 +77,11 @@ public:
 	 * @return user data stored with descriptor. This allows to easy locate and cleanup user structures
 	 */
 	void *unset(int fd);
+	///Removes all descriptors which were registered with given user data
+	/**
+	 * @param data pointer stored with the descriptors
+	 */
+	void unsetData(void *data);
 	///Sets descriptor indirectly using FdInfo structure
 	/**
 	 * @param fdinfo contains everything need to start monitoring the descriptor
diff --git a/src/lightspeed/base/linux/linuxNetWaitingObj.cpp b/src/lightspeed/base/linux/linuxNetWaitingObj.cpp
index 7a35183..2896e44 100644
--- a/src/lightspeed/base/linux/linuxNetWaitingObj.cpp
+++ b/src/lightspeed/base/linux/linuxNetWaitingObj.cpp
@@ -11,7 +11,7 @@
 
 namespace LightSpeed {
 
-LinuxNetWaitingObj::LinuxNetWaitingObj():loadNext(false) {
+LinuxNetWaitingObj::LinuxNetWaitingObj():loaded(false) {
 	fdSelect.enableWakeUp(true);
 }
 
@@ -25,6 +25,7 @@ void LinuxNetWaitingObj::add(INetworkResource* rsrc, natural waitFor,
 	natural i;
 	int sckid;
 	INetworkSocket &sck = rsrc->getIfc<INetworkSocket>();
+	remove(rsrc);
 	for (i = 0; (sckid = sck.getSocket(i)) != -1; i++) {
 		fdSelect.set(sckid,waitFor,rsrc,timeout_ms);
 	}
@@ -32,46 +33,45 @@ void LinuxNetWaitingObj::add(INetworkResource* rsrc, natural waitFor,
 }
 
 void LinuxNetWaitingObj::remove(INetworkResource* rsrc) {
-	natural i;
-	int sckid;
-	INetworkSocket &sck = rsrc->getIfc<INetworkSocket>();
-	for (i = 0; (sckid = sck.getSocket(i)) != -1; i++) {
-		fdSelect.unset(sckid);
-	}
+	//don't ask the resource, its sockets can be different now
+	fdSelect.unsetData(rsrc);
+	if (loaded && retValue.rsrc == rsrc) loaded = false;
 
 }
 
 const LinuxNetWaitingObj::EventInfo& LinuxNetWaitingObj::getNext() {
-	loadNext = true;
-	return peek();
+	const EventInfo &res = peek();
+	loaded = false;
+	return res;
 }
 
 const LinuxNetWaitingObj::EventInfo& LinuxNetWaitingObj::peek() const {
-	if (loadNext) {
+	if (!loaded) {
 		do {
 			const LinuxFdSelect::FdInfo &res = fdSelect.getNext();
 			natural reason;
 			if (fdSelect.isWakeUpRequest(res,reason)) {
 				retValue.rsrc = 0;
-				retValue.event = res.waitMask;
+				retValue.event = reason;
 				break;
 			} else if (res.data != 0) {
 				retValue.event = res.waitMask;
 				retValue.rsrc = reinterpret_cast<INetworkResource *>(res.data);
-				fdSelect.set(res.fd,0,0,nil);
+				fdSelect.unsetData(res.data);
 				break;
 			}
 		} while (true);
-
+		loaded = true;
 	}
 	return retValue;
 }
 
 bool LinuxNetWaitingObj::hasItems() const {
-	return fdSelect.hasItems();
+	return (loaded && retValue.rsrc != 0) || fdSelect.hasItems();
 }
 
 bool LinuxNetWaitingObj::sleep(natural milliseconds) {
+	if (loaded) return false;
 	return fdSelect.waitForEvent(milliseconds);
 }
 
diff --git a/src/lightspeed/base/linux/linuxNetWaitingObj.h b/src/lightspeed/base/linux/linuxNetWaitingObj.h
index 6f2230c..e62d299 100644
--- a/src/lightspeed/base/linux/linuxNetWaitingObj.h
+++ b/src/lightspeed/base/linux/linuxNetWaitingObj.h
@@ -32,7 +32,8 @@ protected:
 
 	mutable EventInfo retValue;
 	mutable LinuxFdSelect fdSelect;
-	mutable bool loadNext;
+	///true if retValue contains an event, which was not taken yet (by getNext)
+	mutable bool loaded;
 };
 
 } /* namespace LightSpeed */
-- 
2.43.0


From 10c3b5fb60012fc38eb2af362b917d28df03e331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 068/208] fix: HeapSort broke order of the heap when an item
 was removed from its middle

---
 src/lightspeed/base/containers/sort.h   |  1 +
 src/lightspeed/base/containers/sort.tcc | 26 +++++++++++++++----------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/lightspeed/base/containers/sort.h b/src/lightspeed/base/containers/sort.h
index f121d91..f834f85 100644
--- a/src/lightspeed/base/containers/sort.h
+++ b/src/lightspeed/base/containers/sort.h
@@ -74,6 +74,7 @@ namespace LightSpeed {
          * placed as first item
          */
         void shiftDown();
+        void shiftUp(natural from);
         void shiftDown(natural from );
 
         ///Tests, whether specified item is better than heap
diff --git a/src/lightspeed/base/containers/sort.tcc b/src/lightspeed/base/containers/sort.tcc
index 09d8978..6111968 100644
--- a/src/lightspeed/base/containers/sort.tcc
+++ b/src/lightspeed/base/containers/sort.tcc
@@ -35,15 +35,7 @@ void HeapSort<Container,Cmp>::sortHeap() {
 template<class Container,class Cmp>
 bool HeapSort<Container,Cmp>::push() {
     if (heapSize < cont.length()) {
-        natural child = heapSize  ;
-        while (child > 0) {
-            natural parent = (child - 1) / 2;
-            if (isLess(cont[parent],cont[child])) {
-                std::swap(cont(parent),cont(child));
-                child = parent;
-            } else
-                break;
-        }
+        shiftUp(heapSize);
         heapSize++;
         return true;
     } else {
@@ -71,7 +63,9 @@ bool HeapSort<Container,Cmp>::pop(natural at) {
         heapSize--;
         if (heapSize > at) {
             std::swap(cont(at),cont(heapSize));
-            shiftDown();
+            //the last item can be better than parents of the removed item or worse than its children
+            shiftUp(at);
+            shiftDown(at);
         }
         return true;
     } else {
@@ -80,6 +74,18 @@ bool HeapSort<Container,Cmp>::pop(natural at) {
 }
 
 
+template<class Container,class Cmp>
+void HeapSort<Container,Cmp>::shiftUp(natural child) {
+    while (child > 0) {
+        natural parent = (child - 1) / 2;
+        if (isLess(cont[parent],cont[child])) {
+            std::swap(cont(parent),cont(child));
+            child = parent;
+        } else
+            break;
+    }
+}
+
 template<class Container,class Cmp>
 void HeapSort<Container,Cmp>::shiftDown() {
 	shiftDown(0);
-- 
2.43.0


From d4ddd6fb162b353404ec0e78cf21a1749b0039a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 069/208] fix: EPollSelect removed timeout of another
 descriptor through a stale reference

---
 src/lightspeed/base/linux/epollSelect.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/linux/epollSelect.cpp b/src/lightspeed/base/linux/epollSelect.cpp
index 3feb7c4..fcf085f 100644
--- a/src/lightspeed/base/linux/epollSelect.cpp
+++ b/src/lightspeed/base/linux/epollSelect.cpp
@@ -208,10 +208,12 @@ void* EPollSelect::getUserData(int fd) const {
 void EPollSelect::removeOldTm(FdInfo* owner) {
 	if (owner->tmRef) {
 		natural pos = owner->tmRef - timeoutMap.data();
+		//moving of items updates references, so clear it after the item is removed
+		if (pos < timeoutMap.length()) {
+			timeoutHeap.pop(pos);
+			timeoutMap.trunc(1);
+		}
 		owner->tmRef = 0;
-		if (pos >= timeoutMap.length()) return;
-		timeoutHeap.pop(pos);
-		timeoutMap.trunc(1);
 	}
 }
 
-- 
2.43.0


From 3cad7aa3e9e0d7581f691dd1d9793b8fa319f5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 070/208] fix: EPollSelect took timeout of waiting for timeout
 of a descriptor, even if there was none

---
 src/lightspeed/base/linux/epollSelect.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/lightspeed/base/linux/epollSelect.cpp b/src/lightspeed/base/linux/epollSelect.cpp
index fcf085f..9c76047 100644
--- a/src/lightspeed/base/linux/epollSelect.cpp
+++ b/src/lightspeed/base/linux/epollSelect.cpp
@@ -132,23 +132,20 @@ EPollSelect::WaitStatus EPollSelect::wait(const Timeout& tm, Result& result) {
 		}
 
 		struct epoll_event ev;
-		natural timeout_msecs = finTm.getRemain().msecs();
+		int timeout_msecs = -1;
+		if (!finTm.isInfinite()) {
+			SysTime now = SysTime::now();
+			//wait until the timeout really expires
+			natural remain = finTm.expired(now)?0:finTm.getRemain(now).msecs() + 1;
+			timeout_msecs = remain > 0x7FFFFFFF?0x7FFFFFFF:(int)remain;
+		}
 		int res = epoll_wait(epollfd,&ev,1,timeout_msecs);
 		if (res == -1) {
 			if (errno != EINTR) throw ErrNoException(THISLOCATION,errno);
 		}
 		else if (res == 0) {
-			if (tm.expired()) {
-				return waitTimeout;
-			} else {
-				FdInfo *finfo = timeoutHeap.top().owner;
-				removeOldTm(finfo);
-				result.fd = getFd(finfo);
-				result.flags = 0;
-				result.userData = finfo->userData;
-				finfo->waitFor = 0;
-				return waitEvent;
-			}
+			//timeouts of descriptors are processed at the begin of the loop
+			if (tm.expired()) return waitTimeout;
 		} else {
 			if (ev.data.fd == wakeOut) {
 				byte b;
-- 
2.43.0


From b9d8201e0d21f6f4e6a59e644e2b0e84311cbe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 071/208] fix: EPollSelect kept data of a descriptor which it
 failed to monitor and failed to unset a closed one

---
 src/lightspeed/base/linux/epollSelect.cpp | 29 ++++++++++++++++-------
 src/lightspeed/base/linux/epollSelect.h   |  1 +
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/lightspeed/base/linux/epollSelect.cpp b/src/lightspeed/base/linux/epollSelect.cpp
index 9c76047..9ee1611 100644
--- a/src/lightspeed/base/linux/epollSelect.cpp
+++ b/src/lightspeed/base/linux/epollSelect.cpp
@@ -88,14 +88,14 @@ void EPollSelect::set(int fd, natural waitFor, const Timeout &tm, void* userData
 
 	if (epoll_ctl(epollfd,EPOLL_CTL_MOD,fd,&ev) == -1) {
 		int err = errno;
-		if (err == ENOENT) {
-			if (epoll_ctl(epollfd,EPOLL_CTL_ADD,fd,&ev)) {
-				err = errno;
-				throw ErrNoException(THISLOCATION, errno);
-			}
-		} else {
-			throw ErrNoException(THISLOCATION, errno);
+		if (err == ENOENT && epoll_ctl(epollfd,EPOLL_CTL_ADD,fd,&ev) == -1) {
+			err = errno;
+		} else if (err == ENOENT) {
+			return;
 		}
+		//descriptor is not monitored, forget it
+		clearFd(fdinfo);
+		throw ErrNoException(THISLOCATION, err);
 	}
 }
 
@@ -193,7 +193,20 @@ void EPollSelect::addNewTm(FdInfo* owner) {
 }
 
 void EPollSelect::unset(int fd) {
-	set(fd,0,nil,0);
+	if (fd < 0 || (natural)fd >= socketMap.length()) return;
+	clearFd(socketMap((natural)fd));
+	//descriptor stays in the epoll service (if it is still opened) but it will report nothing
+	struct epoll_event ev;
+	ev.data.fd = fd;
+	ev.events = EPOLLONESHOT;
+	epoll_ctl(epollfd,EPOLL_CTL_MOD,fd,&ev);
+}
+
+void EPollSelect::clearFd(FdInfo &fdinfo) {
+	removeOldTm(&fdinfo);
+	fdinfo.timeout = nil;
+	fdinfo.waitFor = 0;
+	fdinfo.userData = 0;
 }
 
 void* EPollSelect::getUserData(int fd) const {
diff --git a/src/lightspeed/base/linux/epollSelect.h b/src/lightspeed/base/linux/epollSelect.h
index f8d2d0c..ede5715 100644
--- a/src/lightspeed/base/linux/epollSelect.h
+++ b/src/lightspeed/base/linux/epollSelect.h
@@ -119,6 +119,7 @@ protected:
 
 private:
 	int getFd(const FdInfo* finfo);
+	void clearFd(FdInfo &fdinfo);
 	void addNewTm(FdInfo *owner);
 	void removeOldTm(FdInfo *owner);
 };
-- 
2.43.0


From 92889720a835b4ccefee1010e0297180b06ab379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 072/208] fix: EPollSelect leaked descriptors when its creation
 failed

---
 src/lightspeed/base/linux/epollSelect.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/epollSelect.cpp b/src/lightspeed/base/linux/epollSelect.cpp
index 9ee1611..a5f31a9 100644
--- a/src/lightspeed/base/linux/epollSelect.cpp
+++ b/src/lightspeed/base/linux/epollSelect.cpp
@@ -29,8 +29,11 @@ EPollSelect::EPollSelect():timeoutHeap(timeoutMap) {
 		throw ErrNoException(THISLOCATION, errno);
 
 	int pipe[2];
-	if (pipeCloseOnExec(pipe) == -1)
-		throw ErrNoException(THISLOCATION, errno);
+	if (pipeCloseOnExec(pipe) == -1) {
+		int err = errno;
+		close(epollfd);
+		throw ErrNoException(THISLOCATION, err);
+	}
 
 	wakeIn = pipe[1];
 	wakeOut = pipe[0];
@@ -38,8 +41,13 @@ EPollSelect::EPollSelect():timeoutHeap(timeoutMap) {
 	struct epoll_event ev;
 	ev.events = EPOLLIN;
 	ev.data.fd = wakeOut;
-	if (epoll_ctl(epollfd,EPOLL_CTL_ADD,wakeOut,&ev) == -1)
-		throw ErrNoException(THISLOCATION, errno);
+	if (epoll_ctl(epollfd,EPOLL_CTL_ADD,wakeOut,&ev) == -1) {
+		int err = errno;
+		close(epollfd);
+		close(wakeIn);
+		close(wakeOut);
+		throw ErrNoException(THISLOCATION, err);
+	}
 
 }
 
-- 
2.43.0


From bbdf4a2727aae153be4b5ca866fc6eabdb8ce689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 073/208] fix: network listener destroyed with unprocessed
 requests completed them using destroyed objects

---
 src/lightspeed/base/linux/networkEventListener.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/linux/networkEventListener.cpp b/src/lightspeed/base/linux/networkEventListener.cpp
index 9e3aabb..63540e0 100644
--- a/src/lightspeed/base/linux/networkEventListener.cpp
+++ b/src/lightspeed/base/linux/networkEventListener.cpp
@@ -31,6 +31,8 @@ LinuxNetworkEventListener::~LinuxNetworkEventListener() {
 		notify();
 		worker.join();
 	}
+	//complete requests, which the worker left in the queue, before the memory of messages is released
+	wtFlush();
 
 }
 
-- 
2.43.0


From e54c8d24a04b4edc55267e35cf2505fd9bf0e19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 074/208] fix: network listener called an observer which was
 removed by another observer of the same event

---
 .../base/linux/networkEventListener.cpp       | 24 +++++++++++++------
 .../base/linux/networkEventListener.h         | 14 ++++++++++-
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/lightspeed/base/linux/networkEventListener.cpp b/src/lightspeed/base/linux/networkEventListener.cpp
index 63540e0..b513f69 100644
--- a/src/lightspeed/base/linux/networkEventListener.cpp
+++ b/src/lightspeed/base/linux/networkEventListener.cpp
@@ -83,6 +83,11 @@ void LinuxNetworkEventListener::doRequest(const Request& r) {
 void LinuxNetworkEventListener::doRequestWithSocket(const Request &r, int sck) {
 	if (r.waitFor == 0) {
 
+		for (natural i = 0; i < tocall.length();) {
+			if (tocall[i].notify == r.observer && tocall[i].rsrc == r.rsrc) tocall.erase(i);
+			else i++;
+		}
+
 		FdData *dta = reinterpret_cast<FdData *>(fdSelect.getUserData(sck));
 		if (dta == 0) return; ///< not in map - dummy action
 
@@ -142,6 +147,15 @@ void LinuxNetworkEventListener::updateFdData(FdData* dta, int sck) {
 	}
 }
 
+void LinuxNetworkEventListener::callObservers() {
+	while (!tocall.empty()) {
+		Call c = tocall[0];
+		//observer is able to remove (and destroy) observers which have not been called yet
+		tocall.erase(0);
+		c.notify->wakeUp(c.event);
+	}
+}
+
 class LinuxNetworkEventListener::CleanUpProc {
 public:
 	CleanUpProc(LinuxNetworkEventListener *owner):owner(owner) {}
@@ -163,18 +177,16 @@ void LinuxNetworkEventListener::workerProc() {
 				while (pumpMessage());
 			} else {
 
-				AutoArray<std::pair<ISleepingObject *, natural>,SmallAlloc<32> > tocall;
-
 				SysTime tm  = SysTime::now();
 				FdData *listeners = reinterpret_cast<FdData *>(res.userData);
 				for (ListenerMap::Iterator iter = listeners->listeners.getFwIter(); iter.hasItems();) {
 					const FdListener &l = iter.peek();
 					if (res.flags & l.waitMask) {
-						tocall.add(std::make_pair(l.notify,res.flags & l.waitMask));
+						tocall.add(Call(l,res.flags & l.waitMask));
 						listeners->listeners.erase(iter);
 //						l.notify->wakeUp(con.waitMask & l.waitMask);
 					} else if (l.waitTimeout.expired(tm)) {
-						tocall.add(std::make_pair(l.notify,0));
+						tocall.add(Call(l,0));
 						listeners->listeners.erase(iter);
 	//					l.notify->wakeUp(0);
 					} else {
@@ -183,9 +195,7 @@ void LinuxNetworkEventListener::workerProc() {
 				}
 				updateFdData(listeners,res.fd);
 
-				for (natural i = 0; i < tocall.length(); i++) {
-					tocall[i].first->wakeUp(tocall[i].second);
-				}
+				callObservers();
 			}
 		} catch (const Exception &e) {
 			AppBase::current().onThreadException(e);
diff --git a/src/lightspeed/base/linux/networkEventListener.h b/src/lightspeed/base/linux/networkEventListener.h
index 7e8a6b9..f3d3c1b 100644
--- a/src/lightspeed/base/linux/networkEventListener.h
+++ b/src/lightspeed/base/linux/networkEventListener.h
@@ -45,12 +45,21 @@ protected:
 	};
 
 	struct FdListener {
+		INetworkResource *rsrc;
 		ISleepingObject *notify;
 		Timeout waitTimeout;
 		natural waitMask;
 
 		FdListener(const Request &r)
-			:notify(r.observer),waitTimeout(r.timeout_ms),waitMask(r.waitFor) {}
+			:rsrc(r.rsrc),notify(r.observer),waitTimeout(r.timeout_ms),waitMask(r.waitFor) {}
+	};
+
+	///Observer to call
+	struct Call {
+		INetworkResource *rsrc;
+		ISleepingObject *notify;
+		natural event;
+		Call(const FdListener &l, natural event):rsrc(l.rsrc),notify(l.notify),event(event) {}
 	};
 
 	typedef AutoArray<FdListener, SmallAlloc<4> > ListenerMap;
@@ -68,6 +77,8 @@ protected:
 	EPollSelect fdSelect;
 	PoolAlloc alloc;
 	FastLock lock;
+	///observers to call because of the last event, observer can be removed before it is called
+	AutoArray<Call,SmallAlloc<32> > tocall;
 
 
 	void doRequest(const Request &r);
@@ -76,6 +87,7 @@ protected:
 
 	void workerProc();
 	void cleanFd(int fd, void *data);
+	void callObservers();
 
 
 
-- 
2.43.0


From ade18298acaefff20dbf584b7228e0ba7b77268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 075/208] fix: request made by an observer in the thread of
 network listener overtook requests posted earlier

---
 src/lightspeed/base/linux/networkEventListener.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/linux/networkEventListener.cpp b/src/lightspeed/base/linux/networkEventListener.cpp
index b513f69..fe321bb 100644
--- a/src/lightspeed/base/linux/networkEventListener.cpp
+++ b/src/lightspeed/base/linux/networkEventListener.cpp
@@ -46,6 +46,8 @@ void LinuxNetworkEventListener::RequestMsg::done() throw() {
 void LinuxNetworkEventListener::set(const Request& request) {
 	bool r = worker.isRunning();
 	if (r && worker.getThreadId() == ThreadId::current()) {
+		//process requests which were posted earlier by other threads, this one must not overtake them
+		while (pumpMessage());
 		doRequest(request);
 		//FIXED: need to call completion notify even if not posted...
 		if (request.reqNotify) request.reqNotify->wakeUp(0);
-- 
2.43.0


From a96a0c186b3deef2dc96abab161251846f0512c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 076/208] fix: SList::pop() threw an exception when the item
 was taken by another thread meanwhile

---
 src/lightspeed/mt/slist.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/slist.h b/src/lightspeed/mt/slist.h
index 14971a3..9173743 100644
--- a/src/lightspeed/mt/slist.h
+++ b/src/lightspeed/mt/slist.h
@@ -73,7 +73,8 @@ namespace LightSpeed {
 				ptop = cookieToPtr(ctop);
 				if (ptop == 0) return 0;
 				T *pnext = safeGetPointerValue(ptop->next);
-				atomic chtop = ptrToCookie(pnext,ctop+1);
+				//item could be already taken by other thread and changed, then the exchange fails. Don't check it
+				atomic chtop = ((atomic)pnext & ~mask) | ((ctop+1) & mask);
 				ntop = lockCompareExchange(_top,ctop,chtop);
 				rep = ntop != ctop;
 			} while (rep);
-- 
2.43.0


From 72bd4672b8cea97c67245aa196bcae95bf8a6ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 077/208] fix: thread was not able to use variables created
 after it has been started

---
 src/lightspeed/mt/linux/thread.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 8e9875d..14643a3 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -7,7 +7,6 @@
 
 #include <unistd.h>
 #include <semaphore.h>
-#include "../../base/memory/inBlockAlloc.h"
 #include "../../base/exceptions/stdexception.h"
 #include "../atomic.h"
 #include "../../base/countof.h"
@@ -182,15 +181,9 @@ void *ThreadContext::bootstrap(void * data) {
 	//store owner from bootstrap
 	ctx->owner = bs->owner;
 
-	//receive current state of TLS table
-	//calculate space needed
-	bksize = (TLSAllocator::getInstance().getMaxIndex() + 1) * sizeof (TLSRecord);
-	//reserve space at stack
-	bk = alloca(bksize);
-	//create allocator for AutoArray
-	InBlockAlloc bkalloc(bk,bksize);
-	//create TLS table for this thread
-	TLSTable<InBlockAlloc> tlstable(bkalloc);
+	//create TLS table for this thread (it must be able to grow,
+	//because variables can be created while the thread is running)
+	TLSTable<> tlstable;
 	//refer TLS table in the context
 	ctx->tlstable = &tlstable;
 
-- 
2.43.0


From 28aeb191fb5469c09fbc2fec622fb02ba980f252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 078/208] fix: network listener reported event of a resource
 with more sockets repeatedly, even after it was removed

---
 .../base/linux/networkEventListener.cpp       | 82 +++++++++++--------
 .../base/linux/networkEventListener.h         | 14 +++-
 2 files changed, 59 insertions(+), 37 deletions(-)

diff --git a/src/lightspeed/base/linux/networkEventListener.cpp b/src/lightspeed/base/linux/networkEventListener.cpp
index fe321bb..2060faa 100644
--- a/src/lightspeed/base/linux/networkEventListener.cpp
+++ b/src/lightspeed/base/linux/networkEventListener.cpp
@@ -20,7 +20,7 @@ typedef struct epoll_event EPOLL_EVENT;
 
 namespace LightSpeed {
 
-LinuxNetworkEventListener::LinuxNetworkEventListener()
+LinuxNetworkEventListener::LinuxNetworkEventListener():fdLimit(0)
 {
 	enableMTAccess();
 }
@@ -75,57 +75,69 @@ void LinuxNetworkEventListener::notify() {
 
 void LinuxNetworkEventListener::doRequest(const Request& r) {
 
-	INetworkSocket &sockifc = r.rsrc->getIfc<INetworkSocket>();
-	for (int i = 0, sck = sockifc.getSocket(0); sck > -1; sck = sockifc.getSocket(++i)) {
-		doRequestWithSocket(r,sck);
-	}
-
-}
-
-void LinuxNetworkEventListener::doRequestWithSocket(const Request &r, int sck) {
 	if (r.waitFor == 0) {
 
 		for (natural i = 0; i < tocall.length();) {
 			if (tocall[i].notify == r.observer && tocall[i].rsrc == r.rsrc) tocall.erase(i);
 			else i++;
 		}
+		removeListener(r.rsrc,r.observer);
 
-		FdData *dta = reinterpret_cast<FdData *>(fdSelect.getUserData(sck));
-		if (dta == 0) return; ///< not in map - dummy action
+	} else {
 
-		for (natural i = 0; i < dta->listeners.length(); i++) {
-			if (dta->listeners[i].notify == r.observer) {
-				dta->listeners.erase(i);
-				break;
-			}
+		INetworkSocket &sockifc = r.rsrc->getIfc<INetworkSocket>();
+		int first = sockifc.getSocket(0);
+		if (first < 0) return;
+		int second = sockifc.getSocket(1);
+		doRequestWithSocket(r,first,second > -1);
+		for (int i = 1, sck = second; sck > -1; sck = sockifc.getSocket(++i)) {
+			doRequestWithSocket(r,sck,true);
 		}
-		updateFdData(dta,sck);
+	}
 
+}
+
+void LinuxNetworkEventListener::removeListener(INetworkResource *rsrc, ISleepingObject *observer) {
+	//don't ask the resource for its sockets, they may be already closed (and resource may open new ones)
+	for (int sck = 0; sck < fdLimit; sck++) {
 
-	} else {
-		//add to socket
 		FdData *dta = reinterpret_cast<FdData *>(fdSelect.getUserData(sck));
-		AllocPointer<FdData> dta_close;
-		if (dta == 0) {
-			dta = new(alloc) FdData;
-			dta_close = dta;
-		}
+		if (dta == 0) continue;
 
-		bool found = false;
 		for (natural i = 0; i < dta->listeners.length(); i++) {
-			if (dta->listeners[i].notify == r.observer) {
-				dta->listeners(i) = FdListener(r);
-				found = true;
+			if (dta->listeners[i].notify == observer && dta->listeners[i].rsrc == rsrc) {
+				dta->listeners.erase(i);
+				updateFdData(dta,sck);
 				break;
 			}
 		}
-		if (!found) {
-			dta->listeners.add(FdListener(r));
-		}
+	}
+}
 
-		updateFdData(dta,sck);
-		dta_close.detach();
+void LinuxNetworkEventListener::doRequestWithSocket(const Request &r, int sck, bool more) {
+	//add to socket
+	FdData *dta = reinterpret_cast<FdData *>(fdSelect.getUserData(sck));
+	AllocPointer<FdData> dta_close;
+	if (dta == 0) {
+		dta = new(alloc) FdData;
+		dta_close = dta;
 	}
+
+	bool found = false;
+	for (natural i = 0; i < dta->listeners.length(); i++) {
+		if (dta->listeners[i].notify == r.observer) {
+			dta->listeners(i) = FdListener(r,more);
+			found = true;
+			break;
+		}
+	}
+	if (!found) {
+		dta->listeners.add(FdListener(r,more));
+	}
+
+	if (sck >= fdLimit) fdLimit = sck + 1;
+	updateFdData(dta,sck);
+	dta_close.detach();
 }
 
 void LinuxNetworkEventListener::updateFdData(FdData* dta, int sck) {
@@ -196,6 +208,10 @@ void LinuxNetworkEventListener::workerProc() {
 					}
 				}
 				updateFdData(listeners,res.fd);
+				//event is reported only once, stop monitoring of other sockets of the resource
+				for (natural i = 0; i < tocall.length(); i++) {
+					if (tocall[i].more) removeListener(tocall[i].rsrc,tocall[i].notify);
+				}
 
 				callObservers();
 			}
diff --git a/src/lightspeed/base/linux/networkEventListener.h b/src/lightspeed/base/linux/networkEventListener.h
index f3d3c1b..c0f0ff2 100644
--- a/src/lightspeed/base/linux/networkEventListener.h
+++ b/src/lightspeed/base/linux/networkEventListener.h
@@ -49,9 +49,11 @@ protected:
 		ISleepingObject *notify;
 		Timeout waitTimeout;
 		natural waitMask;
+		///true, if the resource has more sockets and all of them wait for the same event
+		bool more;
 
-		FdListener(const Request &r)
-			:rsrc(r.rsrc),notify(r.observer),waitTimeout(r.timeout_ms),waitMask(r.waitFor) {}
+		FdListener(const Request &r, bool more)
+			:rsrc(r.rsrc),notify(r.observer),waitTimeout(r.timeout_ms),waitMask(r.waitFor),more(more) {}
 	};
 
 	///Observer to call
@@ -59,7 +61,8 @@ protected:
 		INetworkResource *rsrc;
 		ISleepingObject *notify;
 		natural event;
-		Call(const FdListener &l, natural event):rsrc(l.rsrc),notify(l.notify),event(event) {}
+		bool more;
+		Call(const FdListener &l, natural event):rsrc(l.rsrc),notify(l.notify),event(event),more(l.more) {}
 	};
 
 	typedef AutoArray<FdListener, SmallAlloc<4> > ListenerMap;
@@ -77,12 +80,15 @@ protected:
 	EPollSelect fdSelect;
 	PoolAlloc alloc;
 	FastLock lock;
+	///number of the highest descriptor ever monitored + 1
+	int fdLimit;
 	///observers to call because of the last event, observer can be removed before it is called
 	AutoArray<Call,SmallAlloc<32> > tocall;
 
 
 	void doRequest(const Request &r);
-	void doRequestWithSocket(const Request &r, int sck);
+	void doRequestWithSocket(const Request &r, int sck, bool more);
+	void removeListener(INetworkResource *rsrc, ISleepingObject *observer);
 	void updateFdData(FdData *dta,int sck);
 
 	void workerProc();
-- 
2.43.0


From 4c7ced9eb40344ff0391f5a230e6c3e5838a7d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 079/208] fix: network listener spun for ever when it waited
 for an exception on a connection which was reset

---
 src/lightspeed/base/linux/epollSelect.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/linux/epollSelect.cpp b/src/lightspeed/base/linux/epollSelect.cpp
index a5f31a9..4dbc5fe 100644
--- a/src/lightspeed/base/linux/epollSelect.cpp
+++ b/src/lightspeed/base/linux/epollSelect.cpp
@@ -173,6 +173,8 @@ EPollSelect::WaitStatus EPollSelect::wait(const Timeout& tm, Result& result) {
 					result.flags = (((ev.events & EPOLLIN)!=0)?INetworkResource::waitForInput:0) |
 							(((ev.events & EPOLLOUT)!=0)?INetworkResource::waitForOutput:0) |
 							(((ev.events & (EPOLLPRI|EPOLLERR))!=0)?INetworkResource::waitForException:0);
+					//hang-up and error are reported even if they are not awaited. Operation which is awaited will not block
+					if ((result.flags & finfo->waitFor) == 0) result.flags |= finfo->waitFor;
 					result.userData = finfo->userData;
 					finfo->waitFor = 0;
 					return waitEvent;
-- 
2.43.0


From 68a2f283415008405cf64d3ad69e749651cca808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 080/208] fix: request of an observer of network listener
 confirmed removal of this observer while it was being called

---
 .../base/linux/networkEventListener.cpp       | 26 +++++++++++++++++--
 .../base/linux/networkEventListener.h         | 20 ++++++++++++++
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/networkEventListener.cpp b/src/lightspeed/base/linux/networkEventListener.cpp
index 2060faa..05a8d96 100644
--- a/src/lightspeed/base/linux/networkEventListener.cpp
+++ b/src/lightspeed/base/linux/networkEventListener.cpp
@@ -46,8 +46,14 @@ void LinuxNetworkEventListener::RequestMsg::done() throw() {
 void LinuxNetworkEventListener::set(const Request& request) {
 	bool r = worker.isRunning();
 	if (r && worker.getThreadId() == ThreadId::current()) {
-		//process requests which were posted earlier by other threads, this one must not overtake them
-		while (pumpMessage());
+		if (request.waitFor == 0) {
+			//requests which were posted earlier by other threads must not restore what is being removed
+			//they cannot be processed now, because it would confirm removal of an observer which is being called
+			Synchronized<FastLock> _(lock);
+			ForgetMsg *msg = new(alloc) ForgetMsg(*this);
+			forgotten.add(Forgotten(request));
+			postMessage(msg);
+		}
 		doRequest(request);
 		//FIXED: need to call completion notify even if not posted...
 		if (request.reqNotify) request.reqNotify->wakeUp(0);
@@ -238,7 +244,23 @@ void LinuxNetworkEventListener::workerProc() {
 
 
 
+bool LinuxNetworkEventListener::isForgotten(const Request &r) const {
+	for (natural i = 0; i < forgotten.length(); i++) {
+		if (forgotten[i].rsrc == r.rsrc && forgotten[i].notify == r.observer) return true;
+	}
+	return false;
+}
+
+void LinuxNetworkEventListener::ForgetMsg::run() throw() {
+	owner.forgotten.erase(0);
+}
+
+void LinuxNetworkEventListener::ForgetMsg::done() throw() {
+	delete this;
+}
+
 void LinuxNetworkEventListener::RequestMsg::run() throw() {
+	if (owner.isForgotten(r)) return;
 	try {
 		owner.doRequest(r);
 	} catch (const Exception &e) {
diff --git a/src/lightspeed/base/linux/networkEventListener.h b/src/lightspeed/base/linux/networkEventListener.h
index c0f0ff2..1952b4b 100644
--- a/src/lightspeed/base/linux/networkEventListener.h
+++ b/src/lightspeed/base/linux/networkEventListener.h
@@ -44,6 +44,23 @@ protected:
 		Request r;
 	};
 
+	///Ends ignoring of requests posted before the removal
+	class ForgetMsg: public MsgQueue::AbstractMsg, public DynObject {
+	public:
+		ForgetMsg(LinuxNetworkEventListener &owner):owner(owner) {}
+	protected:
+		LinuxNetworkEventListener &owner;
+		virtual void run() throw();
+		virtual void done() throw();
+	};
+
+	///Resource and observer removed in the thread of the listener
+	struct Forgotten {
+		INetworkResource *rsrc;
+		ISleepingObject *notify;
+		Forgotten(const Request &r):rsrc(r.rsrc),notify(r.observer) {}
+	};
+
 	struct FdListener {
 		INetworkResource *rsrc;
 		ISleepingObject *notify;
@@ -84,8 +101,11 @@ protected:
 	int fdLimit;
 	///observers to call because of the last event, observer can be removed before it is called
 	AutoArray<Call,SmallAlloc<32> > tocall;
+	///requests posted before these were removed are still in the queue and must be ignored (in order of ForgetMsg)
+	AutoArray<Forgotten,SmallAlloc<32> > forgotten;
 
 
+	bool isForgotten(const Request &r) const;
 	void doRequest(const Request &r);
 	void doRequestWithSocket(const Request &r, int sck, bool more);
 	void removeListener(INetworkResource *rsrc, ISleepingObject *observer);
-- 
2.43.0


From 0f11716ca4cdd166dba5fa09c06cc12abc5745e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 081/208] fix: TCPServer removed connection which was ready for
 both reading and writing

---
 src/lightspeed/base/framework/TCPServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/framework/TCPServer.cpp b/src/lightspeed/base/framework/TCPServer.cpp
index 047b444..7a67206 100644
--- a/src/lightspeed/base/framework/TCPServer.cpp
+++ b/src/lightspeed/base/framework/TCPServer.cpp
@@ -206,7 +206,7 @@ void TCPServer::Connection::wakeUp(natural reason) throw() {
 						//disconnect it now
 						owner.workerDisconnect(this);
 					} else {
-						owner.executor->execute(RunWorkerEx(owner,this,reason));
+						owner.executor->execute(RunWorkerEx(owner,this,INetworkResource::waitForInput));
 					}
 				} else if (reason & INetworkResource::waitForOutput){
 					owner.executor->execute(RunWorkerEx(owner,this,INetworkResource::waitForOutput));
-- 
2.43.0


From a647b54c3b2556462c0bc9755736945885ed1144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 082/208] fix: TCPServer terminated the process or stopped
 working when accepting of a connection failed, last connection stayed opened

---
 src/lightspeed/base/framework/TCPServer.cpp | 76 +++++++++++++++------
 src/lightspeed/base/framework/TCPServer.h   |  1 +
 2 files changed, 56 insertions(+), 21 deletions(-)

diff --git a/src/lightspeed/base/framework/TCPServer.cpp b/src/lightspeed/base/framework/TCPServer.cpp
index 7a67206..f0b9581 100644
--- a/src/lightspeed/base/framework/TCPServer.cpp
+++ b/src/lightspeed/base/framework/TCPServer.cpp
@@ -10,6 +10,8 @@
 #include "../interface.tcc"
 #include "../containers/autoArray.tcc"
 #include "../containers/map.tcc"
+#include "../exceptions/netExceptions.h"
+#include "../exceptions/stdexception.h"
 
 namespace LightSpeed {
 
@@ -50,6 +52,8 @@ void TCPServer::start(NetworkStreamSource tcpsource)
 
 	shutdown = 0;
 	mother = tcpsource;
+	//thread of the listener must not wait for a connection which vanished
+	mother->setTimeout(0);
 	eventListener->add(mother,&sleeper,INetworkResource::waitForInput,naturalNull,0);
 }
 
@@ -112,8 +116,18 @@ void TCPServer::stop()
 void TCPServer::Sleeper::wakeUp(natural ) throw() {
 	owner.acceptConn(owner.mother, 0);
 	//re-register mother
-	if (owner.mother.hasItems()) owner.eventListener->add(owner.mother,this,owner.mother->getDefaultWait(),naturalNull,0);
+	try {
+		if (owner.mother.hasItems()) owner.eventListener->add(owner.mother,this,owner.mother->getDefaultWait(),naturalNull,0);
+	} catch (const Exception &e) {
+		owner.reportException(e);
+	}
+}
+
+void TCPServer::reportException(const Exception &e) throw() {
+	IApp *app = IApp::currentPtr();
+	if (app) app->onThreadException(e);
 }
+
 void TCPServer::acceptConn(NetworkStreamSource& listenSock, natural sourceId) throw() {
 
 	//called when new connection arrived
@@ -125,25 +139,40 @@ void TCPServer::acceptConn(NetworkStreamSource& listenSock, natural sourceId) th
 	//if shutdown active - reject
 	if (readAcquire(&shutdown)) return;
 
-	//receive connection
-	PNetworkStream stream = listenSock.getNext();
-	stream = stream.getMT();
-	//retrieve remote address
-	NetworkAddress remoteAddr = listenSock.getRemoteAddress();
-
-	if (handler2) {
-		//call handler
-		ITCPServerContext *ctx = handler2->onIncome(remoteAddr);
-		//if connection is rejected
-		if (ctx == 0) return;
-		//create connection object
-		PConnection conn(new Connection(this,stream,ctx,sourceId));
-		//register connection
-		connList.insert(conn.getMT());
-		//ask handler for first action
-		ITCPServerConnHandler::Command cmd =  handler2->onAccept(conn,ctx);
-		//carry out the action
-		reuse(conn,cmd);
+	try {
+		//receive connection (source must not keep reference to the connection)
+		PNetworkStream stream = listenSock.getHandle()->getNext();
+		stream = stream.getMT();
+		//retrieve remote address
+		NetworkAddress remoteAddr = listenSock.getRemoteAddress();
+
+		if (handler2) {
+			//call handler
+			ITCPServerContext *ctx = handler2->onIncome(remoteAddr);
+			//if connection is rejected
+			if (ctx == 0) return;
+			//create connection object
+			PConnection conn(new Connection(this,stream,ctx,sourceId));
+			//register connection
+			connList.insert(conn.getMT());
+			try {
+				//ask handler for first action
+				ITCPServerConnHandler::Command cmd =  handler2->onAccept(conn,ctx);
+				//carry out the action
+				reuse(conn,cmd);
+			} catch (...) {
+				close(conn);
+				throw;
+			}
+		}
+	} catch (const NetworkTimeoutException &) {
+		//connection vanished before it has been accepted
+	} catch (const Exception &e) {
+		reportException(e);
+	} catch (const std::exception &e) {
+		reportException(StdException(THISLOCATION,e));
+	} catch (...) {
+		reportException(UnknownException(THISLOCATION));
 	}
 }
 
@@ -348,6 +377,7 @@ natural TCPServer::addPort(natural port, bool bindLocalOnly,
 
 natural TCPServer::addPort(NetworkStreamSource tcpsource) {
 	natural id = otherPorts.length()+1;
+	tcpsource->setTimeout(0);
 	OtherPortAccept *k = new OtherPortAccept(*this,id,tcpsource);
 	otherPorts.add(k);
 	eventListener->add(tcpsource,k,INetworkResource::waitForInput);
@@ -356,7 +386,11 @@ natural TCPServer::addPort(NetworkStreamSource tcpsource) {
 
 void TCPServer::OtherPortAccept::wakeUp(natural ) throw()  {
 	owner.acceptConn(getSocket(),sourceId);
-	owner.getEventListener()->add(getSocket(),this);
+	try {
+		owner.getEventListener()->add(getSocket(),this);
+	} catch (const Exception &e) {
+		owner.reportException(e);
+	}
 }
 
 TCPServer::OtherPortAccept::OtherPortAccept(TCPServer& owner, natural sourceId,
diff --git a/src/lightspeed/base/framework/TCPServer.h b/src/lightspeed/base/framework/TCPServer.h
index 6689427..27b3235 100644
--- a/src/lightspeed/base/framework/TCPServer.h
+++ b/src/lightspeed/base/framework/TCPServer.h
@@ -221,6 +221,7 @@ protected:
 
 	void acceptConn(NetworkStreamSource& listenSock, natural sourceId) throw();
 	void worker(Connection *owner);
+	void reportException(const Exception &e) throw();
 	void workerEx(Connection *owner, natural eventId);
 	void workerDisconnect(Connection *owner);
 	void close(Connection *k);
-- 
2.43.0


From 2537673ba409b6c73708631cbc2d30a4ab62571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 083/208] fix: TCPServer which failed to start was considered
 running and crashed in stop()

---
 src/lightspeed/base/framework/TCPServer.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/framework/TCPServer.cpp b/src/lightspeed/base/framework/TCPServer.cpp
index f0b9581..7c3fbb6 100644
--- a/src/lightspeed/base/framework/TCPServer.cpp
+++ b/src/lightspeed/base/framework/TCPServer.cpp
@@ -46,15 +46,22 @@ void TCPServer::start(NetworkStreamSource tcpsource)
 
 	Sync _(lock);
 
-	if (lockCompareExchange(shutdown,1,0) != 1) return;
+	if (readAcquire(&shutdown) == 0) return;
 
 	eventListener = INetworkServices::getNetServices().createEventListener();
 
-	shutdown = 0;
 	mother = tcpsource;
 	//thread of the listener must not wait for a connection which vanished
 	mother->setTimeout(0);
-	eventListener->add(mother,&sleeper,INetworkResource::waitForInput,naturalNull,0);
+	writeRelease(&shutdown,0);
+	try {
+		eventListener->add(mother,&sleeper,INetworkResource::waitForInput,naturalNull,0);
+	} catch (...) {
+		writeRelease(&shutdown,1);
+		mother = null;
+		eventListener = null;
+		throw;
+	}
 }
 
 
-- 
2.43.0


From 5380f11880aaa8e53299097d5c605351387b94ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 084/208] fix: stopping of TCPServer could end in deadlock or
 destroy connections which were in use, port stayed opened

---
 src/lightspeed/base/framework/TCPServer.cpp | 70 ++++++++++++++-------
 1 file changed, 48 insertions(+), 22 deletions(-)

diff --git a/src/lightspeed/base/framework/TCPServer.cpp b/src/lightspeed/base/framework/TCPServer.cpp
index 7c3fbb6..41c15ac 100644
--- a/src/lightspeed/base/framework/TCPServer.cpp
+++ b/src/lightspeed/base/framework/TCPServer.cpp
@@ -90,13 +90,19 @@ void TCPServer::stop()
 	//shutdown flag also prevents to creating new workers
 	executor->stopAll(naturalNull);
 
-	//now, we can lock for modifications of the internal data
-	Sync _(lock);
+	AutoArray<PConnection> conns;
+	{
+		//connections cannot be added now, because shutdown is active
+		Sync _(lock);
+
+		for (ConnectionList::Iterator iter = connList.getFwIter(); iter.hasItems();)
+			conns.add(iter.getNext().getMT());
+	}
+	//don't hold the lock while waiting for the listener, because the listener can wait for the lock
 
 	//remove all sockets from the event listener
-	for (ConnectionList::Iterator iter = connList.getFwIter(); iter.hasItems();) {
-		PConnection conn = iter.getNext().getMT();
-		eventListener->remove(conn->getStream(),conn);
+	for (natural i = 0; i < conns.length(); i++) {
+		eventListener->remove(conns[i]->getStream(),conns[i]);
 	}
 
 	///remove all other ports
@@ -110,11 +116,24 @@ void TCPServer::stop()
 	//wait for completion
 	ntf.wait(naturalNull,false);
 
-	//reset all open descriptors
-	connList.clear();
+	//listener could execute workers before the sockets were removed
+	executor->stopAll(naturalNull);
+
+	{
+		Sync _(lock);
+
+		//reset all open descriptors
+		connList.clear();
+
+		//clear other ports
+		otherPorts.clear();
+
+		//close the port
+		mother = null;
+	}
 
-	//clear other ports
-	otherPorts.clear();
+	//connections are destroyed here
+	conns.clear();
 
 	///clear event listener, stop the thread
 	eventListener = null;
@@ -142,10 +161,6 @@ void TCPServer::acceptConn(NetworkStreamSource& listenSock, natural sourceId) th
 	//if shutdown active - reject
 	if (readAcquire(&shutdown)) return;
 
-	Sync _(lock);
-	//if shutdown active - reject
-	if (readAcquire(&shutdown)) return;
-
 	try {
 		//receive connection (source must not keep reference to the connection)
 		PNetworkStream stream = listenSock.getHandle()->getNext();
@@ -160,8 +175,13 @@ void TCPServer::acceptConn(NetworkStreamSource& listenSock, natural sourceId) th
 			if (ctx == 0) return;
 			//create connection object
 			PConnection conn(new Connection(this,stream,ctx,sourceId));
-			//register connection
-			connList.insert(conn.getMT());
+			{
+				Sync _(lock);
+				//if shutdown active - reject
+				if (readAcquire(&shutdown)) return;
+				//register connection
+				connList.insert(conn.getMT());
+			}
 			try {
 				//ask handler for first action
 				ITCPServerConnHandler::Command cmd =  handler2->onAccept(conn,ctx);
@@ -189,13 +209,13 @@ class TCPServer::RunWorkerEx: public IExecutor::ExecAction::Ifc {
 public:
 	LIGHTSPEED_CLONEABLECLASS;
 
-	RunWorkerEx(TCPServer &server, Connection *conn, natural eventId):server(server),conn(conn),eventId(eventId) {}
+	RunWorkerEx(TCPServer &server, Connection *conn, natural eventId):server(server),conn(PConnection(conn).getMT()),eventId(eventId) {}
 	void operator()() const {
 		server.workerEx(conn,eventId);
 	}
 protected:
 	TCPServer &server;
-	mutable Connection *conn;
+	mutable PConnection conn;
 	natural eventId;
 };
 
@@ -203,13 +223,13 @@ class TCPServer::RunWorkerCompletion: public IExecutor::ExecAction::Ifc {
 public:
 	LIGHTSPEED_CLONEABLECLASS;
 
-	RunWorkerCompletion(TCPServer &server, Connection *conn):server(server),conn(conn) {}
+	RunWorkerCompletion(TCPServer &server, Connection *conn):server(server),conn(PConnection(conn).getMT()) {}
 	void operator()() const {
 		server.workerEx(conn,eventUserWakeup);
 	}
 protected:
 	TCPServer &server;
-	mutable Connection *conn;
+	mutable PConnection conn;
 };
 
 
@@ -217,13 +237,13 @@ class TCPServer::RunDisconnect: public IExecutor::ExecAction::Ifc {
 public:
 	LIGHTSPEED_CLONEABLECLASS;
 
-	RunDisconnect(TCPServer &server, Connection *conn):server(server),conn(conn) {}
+	RunDisconnect(TCPServer &server, Connection *conn):server(server),conn(PConnection(conn).getMT()) {}
 	void operator()() const {
 		server.workerDisconnect(conn);
 	}
 protected:
 	TCPServer &server;
-	mutable Connection *conn;
+	mutable PConnection conn;
 };
 
 void TCPServer::Connection::wakeUp(natural reason) throw() {
@@ -272,8 +292,9 @@ void TCPServer::Connection::userWakeup(  )
 
 
 void TCPServer::close(Connection *k) {
-	Sync _(lock);
+	//connection is destroyed after it is unlocked
 	PConnection key(k);
+	Sync _(lock);
 	connList.erase(key.getMT());
 }
 
@@ -282,6 +303,8 @@ void TCPServer::reuse(Connection *k) {
 }
 
 void TCPServer::reuse(Connection *k, ITCPServerConnHandler::Command command) {
+	//connection will be closed by stop(), which already removed connections from the listener
+	if (readAcquire(&shutdown)) return;
 	natural tmm;
 	switch (command) {
 	case ITCPServerConnHandler::cmdWaitRead:
@@ -319,6 +342,9 @@ bool TCPServer::isRunning()
 
 void TCPServer::workerEx(Connection *owner, natural eventId) {
 
+	//executed too late
+	if (readAcquire(&shutdown)) return;
+
 	ITCPServerConnHandler::Command cmdout;
 	try {
 		switch (eventId) {
-- 
2.43.0


From 04ae3a42ae2efdd95653d303909d79e653fb5640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 085/208] fix: connection put into the sleep by onAccept() of
 TCPServer was not able to wake up

---
 src/lightspeed/base/framework/TCPServer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lightspeed/base/framework/TCPServer.cpp b/src/lightspeed/base/framework/TCPServer.cpp
index 41c15ac..ac42e48 100644
--- a/src/lightspeed/base/framework/TCPServer.cpp
+++ b/src/lightspeed/base/framework/TCPServer.cpp
@@ -320,6 +320,11 @@ void TCPServer::reuse(Connection *k, ITCPServerConnHandler::Command command) {
 		eventListener->add(k->getStream(),k,INetworkResource::waitForInput | INetworkResource::waitForOutput,tmm);
 		break;
 	case ITCPServerConnHandler::cmdWaitUserWakeup:
+		if (lockCompareExchange(k->userWakeupState,Connection::userWakeupInactive,Connection::userWakeupSleepingState) & Connection::userWakeupEvent) {
+			//event has been already recorded
+			if (lockCompareExchange(k->userWakeupState,Connection::userWakeupEvent,Connection::userWakeupInactive) == Connection::userWakeupEvent)
+				k->userWakeup();
+		}
 		break;
 
 	default: close(k);break;
-- 
2.43.0


From 59aa5e797d9c80ce1f5753cc25b83fc0178f85db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 086/208] fix: waking up of a connection of TCPServer
 terminated the process when there was no thread to run it

---
 src/lightspeed/base/framework/TCPServer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/framework/TCPServer.cpp b/src/lightspeed/base/framework/TCPServer.cpp
index ac42e48..4758936 100644
--- a/src/lightspeed/base/framework/TCPServer.cpp
+++ b/src/lightspeed/base/framework/TCPServer.cpp
@@ -286,6 +286,7 @@ void TCPServer::Connection::wakeUp(natural reason) throw() {
 
 void TCPServer::Connection::userWakeup(  )
 {
+	if (readAcquire(&owner.shutdown)) return;
 	owner.executor->execute(RunWorkerCompletion(owner,this));
 }
 
@@ -449,7 +450,11 @@ void TCPServer::Connection::CompletionWakeUp::wakeUp( natural reason /*= 0 */ )
 		//clear internal state, because we are going to wakeUp the connection
 		if (lockCompareExchange(owner.userWakeupState, value, 0) == value) {
 			//wakeup the connection
-			owner.userWakeup();
+			try {
+				owner.userWakeup();
+			} catch (...) {
+				owner.owner.close(&owner);
+			}
 		} else {
 			//note setting to zero can fail. This can happen, when two threads wakening
 			//same connection at the same time (twice)
-- 
2.43.0


From 2ffe2cb0a984162e01686884c2d5d3fc21eac885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 087/208] fix: event log opened without rescan (or after failed
 rescan) was written at a wrong position with a wrong checksum

---
 src/lightspeed/utils/eventdb.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index df9edaf..176f417 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -229,8 +229,21 @@ void EventLog::open(PRndFileHandle file, PRndFileHandle fixed, bool rescan, ILog
 		scanStEvents();
 	}
 	this->discovery = discovery;
-	if (rescan) {
-		this->rescan();
+	try {
+		if (rescan) {
+			this->rescan();
+		} else {
+			//nobody receives events, but state for writing depends on content of the file
+			UpdateAdapter nobody;
+			Sync _(lock);
+			writeState.currentCheckSum = initialChecksum;
+			writeState.lastTimestamp = 0;
+			writePos = this->rescan(&nobody,0,dbfile->size(),writeState.currentCheckSum,writeState.lastTimestamp);
+		}
+	} catch (...) {
+		//position for writing is not known
+		close();
+		throw;
 	}
 }
 
-- 
2.43.0


From 592e447c95783e9d9b731921c78974dc0967c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 088/208] fix: listener synchronized with event log received
 undefined times, no cells and no end of rescan

---
 src/lightspeed/utils/eventdb.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index 176f417..7329b75 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -42,7 +42,7 @@ void EventLog::addListenerAndSync(IUpdateListener* listener) {
 
 	FileOffset fsend = 0, fsbeg = 0;
 	Bin::natural16 chk = initialChecksum;
-	time_t lastTimestamp;
+	time_t lastTimestamp = 0;
 
 	listener->onStartRescan();
 	fsend = fileSize();
@@ -54,6 +54,8 @@ void EventLog::addListenerAndSync(IUpdateListener* listener) {
 	listeners.add(listener);
 	fsend = dbfile->size();
 	rescan(listener,fsbeg,fsend, chk, lastTimestamp, false);
+	rescanStEvents(listener);
+	listener->onEndRescan();
 }
 
 void EventLog::removeListener(IUpdateListener* listener) {
@@ -595,7 +597,7 @@ void EventLog::loadStEvent(FileOffset offset, IUpdateListener* listener) const {
 			throw;
 		}
 	} else {
-		listener->onUpdate(offset,hdr.hdr.timestamp,hdr.hdr.recordType,recordData);
+		listener->onUpdateCell(hdr.hdr.cellId,offset,hdr.hdr.timestamp,hdr.hdr.recordType,recordData);
 	}
 }
 
-- 
2.43.0


From 7b45d94d62605549f69865a58c01560e76558337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 089/208] fix: listener removed from event log while an event
 is being delivered

---
 src/lightspeed/utils/eventdb.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index 7329b75..9f2e230 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -59,6 +59,7 @@ void EventLog::addListenerAndSync(IUpdateListener* listener) {
 }
 
 void EventLog::removeListener(IUpdateListener* listener) {
+	Sync _(lock);
 	for (natural i = 0; i < listeners.length(); i++) {
 		if (listeners[i] == listener) {
 			listeners.erase(i);
-- 
2.43.0


From 2c7d14b3f9c80b1104b5344483aff5c21e796724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 090/208] fix: event log delivered cells which were never
 stored, corrupted file of cells could be read for ever

---
 src/lightspeed/utils/eventdb.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index 9f2e230..6b23c13 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -539,7 +539,8 @@ void EventLog::scanStEvents() {
 	FileOffset len = fixedfile->size();
 	while (position < len) {
 		StFrame hdr;
-		fixedfile->read(&hdr,sizeof(hdr), position);
+		if (fixedfile->read(&hdr,sizeof(hdr), position) != sizeof(hdr) || hdr.frameLen < sizeof(hdr) || hdr.frameLen > len - position)
+			throw ErrorMessageException(THISLOCATION,"Fatal: Corrupted file of cells");
 		StFrameInfo nfo;
 		nfo.offset = position;
 		nfo.length = hdr.frameLen;
@@ -552,6 +553,8 @@ void EventLog::scanStEvents() {
 void EventLog::rescanStEvents(IUpdateListener* listener) const {
 	for (CellMap::Iterator iter = cellMap.getFwIter(); iter.hasItems();) {
 		const StFrameInfo &ofs = iter.getNext();
+		//cell has not been stored yet
+		if (ofs.length == 0) continue;
 		loadStEvent(ofs.offset, listener);
 	}
 }
-- 
2.43.0


From 17f54264876dcf5cd9b60a00e75370642c3d2497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 091/208] fix: records with synchronization of time were
 delivered from rotated event logs as events

---
 src/lightspeed/utils/eventdb.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index 6b23c13..70e629a 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -568,6 +568,8 @@ void EventLog::rescanOtherLog(PInputStream input) {
 
 	while (infile.hasItems()) {
 		parseBlock(infile,hdr,checksum,tm,buffer,false);
+		//synchronization of time is not an event
+		if (hdr.recordType == 0xFFFF && hdr.recordSize == 0) continue;
 		for (natural i = 0; i < listeners.length(); i++) {
 			try {
 				listeners[i]->onUpdate(0,tm,hdr.recordType,RecData(buffer.head(hdr.recordSize*blockSize)));
-- 
2.43.0


From 00f1ed789ec7f584626397c2bf2b8762e9fcab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 092/208] fix: event stored after clock has been turned back
 had time in far future

---
 src/lightspeed/utils/eventdb.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index 70e629a..1bcde39 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -80,6 +80,7 @@ natural EventLog::writeBlock(SeqFileOutput toStream,
 	byte padding[blockSize];
 	if (recordType > 0xFFFF) throw InvalidParamException(THISLOCATION,0,"Record type cannot be higher than 65535");
 	if (recordData.length() > (0xFFFF* blockSize)) throw InvalidParamException(THISLOCATION,1,"Record is limited up to 512KiB");
+	if (curTime < state.lastTimestamp) throw InvalidParamException(THISLOCATION,2,"Event cannot be older than the previous event");
 	Header hdr;
 	natural timediff = (natural)(curTime - state.lastTimestamp);
 
@@ -392,6 +393,8 @@ EventLog::Transaction::Transaction(EventLog& owner)
 	checkSlaveExcept(owner);
 	owner.lock.lock();
 	time(&curTime);
+	//clock can be turned back, but time of events can only advance
+	if (curTime < owner.writeState.lastTimestamp) curTime = owner.writeState.lastTimestamp;
 }
 
 EventLog::Transaction::~Transaction() {
-- 
2.43.0


From 103ea1fb19d7298f0082d1946923d275e64851f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 093/208] fix: event which failed to be written left a part of
 itself in the event log

---
 src/lightspeed/utils/eventdb.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index 1bcde39..a9b1c68 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -160,18 +160,20 @@ bool EventLog::isSlave() const {
 
 EventLog::FileOffset EventLog::sendUpdate_trn(natural recordType, ConstBin recordData, time_t time) {
 
-	SeqFileOutput outp(dbfile,writePos);
-	SeqFileOutBuff<> outb(outp);
-
 	natural offset = 0;
 	natural wrcount = 0;
 
+	try {
+		SeqFileOutput outp(dbfile,writePos);
+		SeqFileOutBuff<> outb(outp);
 
-
-	wrcount = writeBlock(outb, recordType,recordData,time,writeState,offset);
-	outb.flush();
-
-
+		wrcount = writeBlock(outb, recordType,recordData,time,writeState,offset);
+		outb.flush();
+	} catch (...) {
+		//incomplete event would prevent from opening of the log
+		if (dbfile != nil) dbfile->setSize(writePos);
+		throw;
+	}
 
 
 	FileOffset ofs = writePos + offset;
-- 
2.43.0


From f546bfeff9442164c2f0ffec68c70c1701e3438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 094/208] fix: killed process could leave a mixture of old and
 new event in a cell of the event log

---
 src/lightspeed/utils/eventdb.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index a9b1c68..9a3102c 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -506,7 +506,9 @@ EventLog::FileOffset EventLog::updateStEvent_trn(natural cellId, natural recordT
 		f.offset = fixedfile->size();
 		f.length = needSz;
 	}
-	SeqFileOutput out(fixedfile, f.offset);
+	//store whole frame at once
+	SeqFileOutput outp(fixedfile, f.offset);
+	SeqFileOutBuff<> out(outp);
 	StFrame hdr;
 	hdr.frameLen = f.length;
 	hdr.hdr.cellId = cellId;
-- 
2.43.0


From 4c27810a302016efa3a0b497bb334cb31aaf8d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 095/208] fix: replication of event log sent an address instead
 of the event, wrong times and cells as ordinary events

---
 src/lightspeed/utils/eventdb.cpp | 44 +++++++++++++++++++-------------
 src/lightspeed/utils/eventdb.h   |  2 +-
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index 9a3102c..6aa2133 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -134,14 +134,16 @@ bool EventLog::readReplicationData(IReplicationInput& input, time_t timeOffset)
 	if (!isSlave()) throw ErrorMessageException(THISLOCATION,"Slave mode is not initialized");
 	ReplicationListener::Header hdr;
 	if (!input.read(&hdr, sizeof(hdr))) return false;
-	byte *buffer = hdr.length?(byte *)alloca(hdr.length):0;
-	if (hdr.length) {
-		if (!input.read(buffer,hdr.length)) return false;
+	natural length = hdr.length * EventLog::blockSize;
+	byte *buffer = length?(byte *)alloca(length):0;
+	if (length) {
+		if (!input.read(buffer,length)) return false;
 	}
 
 	Synchronized<FastLockR> _(lock);
-	ConstBin binbuff(buffer,hdr.length);
-	time_t realtime = hdr.timestamp+timeOffset;
+	ConstBin binbuff(buffer,length);
+	//cell can be older than the time offset
+	time_t realtime = (Bin::natural32)(hdr.timestamp+timeOffset);
 	if (hdr.cellId != 0)
 		updateStEvent_trn(hdr.cellId,hdr.recordType,binbuff,realtime);
 	else
@@ -444,15 +446,19 @@ ReplicationListener::ReplicationListener(IReplicationOutput& out):out(out) {
 void ReplicationListener::bind(EventLog& db, EventLog::FileOffset scanFrom,
 		time_t timeBase) {
 
-	lastEventTime = 0;
+	//times of scanned events are relative to the timeBase
 	timeOffset = 0;
-	EventLog::FileOffset scanned = db.rescan(*this,scanFrom,0,timeBase);
+	time_t lastEventTime = timeBase;
+	Bin::natural16 checksum = 0;
+	EventLog::FileOffset from = scanFrom * EventLog::blockSize;
+	EventLog::FileOffset scanned = db.rescan(this,from,db.fileSize(),checksum,lastEventTime,true);
 	Synchronized<FastLockR> _sync(db.lock);
-	db.rescan(*this,scanned,0,timeBase);
-	db.addListener(this);
+	db.rescan(this,scanned,db.fileSize(),checksum,lastEventTime,scanned == from);
+	//times of cells and all following events are absolute
 	const EventLog::WriteState &wrState = db.getWriteState();
 	timeOffset = wrState.lastTimestamp - lastEventTime;
-
+	db.rescanStEvents(this);
+	db.addListener(this);
 
 }
 
@@ -468,15 +474,17 @@ void ReplicationListener::onUpdateCell(natural cellId, FileOffset,
 		time_t timestamp, natural recordType, RecData data) {
 
 	try {
-		natural recsize = sizeof(Header) + data.length() - 1;
-		Record *rec = (Record *)alloca(recsize);
-		rec->timestamp = Bin::natural32 (timestamp - lastEventTime);
-		rec->recordType = recordType;
-		rec->length = data.length();
-		rec->cellId = cellId;
+		//length is stored in blocks as well as in the log
+		natural blocks = (data.length() + EventLog::blockSize - 1)/EventLog::blockSize;
+		natural recsize = sizeof(Header) + blocks * EventLog::blockSize;
+		Record *rec = (Record *)alloca(recsize < sizeof(Record)?sizeof(Record):recsize);
+		rec->timestamp = Bin::natural32 (timestamp - timeOffset);
+		rec->recordType = (Bin::natural16)recordType;
+		rec->length = (Bin::natural16)blocks;
+		rec->cellId = (Bin::natural32)cellId;
 		memcpy(rec->data, data.data(),data.length());
-		out.write(&rec, recsize);
-		lastEventTime = timestamp;
+		memset(rec->data + data.length(), 0, blocks * EventLog::blockSize - data.length());
+		out.write(rec, recsize);
 
 	} catch (std::exception &) {
 
diff --git a/src/lightspeed/utils/eventdb.h b/src/lightspeed/utils/eventdb.h
index 19e53cf..873cc86 100644
--- a/src/lightspeed/utils/eventdb.h
+++ b/src/lightspeed/utils/eventdb.h
@@ -796,7 +796,7 @@ public:
 
 
 protected:
-	time_t timeOffset,lastEventTime;
+	time_t timeOffset;
 	IReplicationOutput &out;
 
 	virtual void onUpdate(FileOffset offset, time_t timestamp, natural recordType, RecData data);
-- 
2.43.0


From 0d4b79e7070a55dce553449320539a124d6b5e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 096/208] fix: readRecord() of event log read the count of
 blocks instead of the count of bytes

---
 src/lightspeed/utils/eventdb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index 6aa2133..edbb86e 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -292,7 +292,7 @@ natural EventLog::readRecord(FileOffset offset, void* data, natural size, natura
 	Header hdr;
 	offset *= blockSize;
 	dbfile->read(&hdr,sizeof(hdr), offset);
-	natural sz = hdr.recordSize;
+	natural sz = hdr.recordSize * blockSize;
 	if (hdr.recordType != recordType)
 		throw ErrorMessageException(THISLOCATION, "Invalid offset - recordType doesn't match header");
 	if (sz < size) size = sz;
-- 
2.43.0


From 6b215b9c33d2b2600a669171985cf9928c33a976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 097/208] fix: listeners of event log received offset of the
 preceding record when synchronization of time was stored

---
 src/lightspeed/utils/eventdb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index edbb86e..6861510 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -178,7 +178,7 @@ EventLog::FileOffset EventLog::sendUpdate_trn(natural recordType, ConstBin recor
 	}
 
 
-	FileOffset ofs = writePos + offset;
+	FileOffset ofs = writePos + offset*blockSize;
 
 
 	try {
-- 
2.43.0


From 4d4081b27224e8db9f29268e0842f801137d94ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 098/208] fix: records and cells of event log were used without
 checking how much of them has been read

---
 src/lightspeed/utils/eventdb.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index 6861510..c49358a 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -30,6 +30,17 @@ static void updateChecksum(ConstBin buffer, Bin::natural16& checksum) {
 	}
 }
 
+///reading from the file can be finished sooner
+static natural readAll(IRndFileHandle &file, void *data, natural size, EventLog::FileOffset offset) {
+	natural rd = 0;
+	while (rd < size) {
+		natural k = file.read(reinterpret_cast<byte *>(data) + rd, size - rd, offset + rd);
+		if (k == 0) break;
+		rd += k;
+	}
+	return rd;
+}
+
 void EventLog::addListener(IUpdateListener* listener) {
 	Sync _(lock);
 	listeners.add(listener);
@@ -291,12 +302,14 @@ void EventLog::rescan() {
 natural EventLog::readRecord(FileOffset offset, void* data, natural size, natural recordType) {
 	Header hdr;
 	offset *= blockSize;
-	dbfile->read(&hdr,sizeof(hdr), offset);
+	if (readAll(*dbfile,&hdr,sizeof(hdr), offset) != sizeof(hdr))
+		throw ErrorMessageException(THISLOCATION, "Invalid offset - record is not complete");
 	natural sz = hdr.recordSize * blockSize;
 	if (hdr.recordType != recordType)
 		throw ErrorMessageException(THISLOCATION, "Invalid offset - recordType doesn't match header");
 	if (sz < size) size = sz;
-	dbfile->read(data,size,offset+sizeof(hdr));
+	if (readAll(*dbfile,data,size,offset+sizeof(hdr)) != size)
+		throw ErrorMessageException(THISLOCATION, "Invalid offset - record is not complete");
 	return sz;
 }
 
@@ -554,7 +567,7 @@ void EventLog::scanStEvents() {
 	FileOffset len = fixedfile->size();
 	while (position < len) {
 		StFrame hdr;
-		if (fixedfile->read(&hdr,sizeof(hdr), position) != sizeof(hdr) || hdr.frameLen < sizeof(hdr) || hdr.frameLen > len - position)
+		if (readAll(*fixedfile,&hdr,sizeof(hdr), position) != sizeof(hdr) || hdr.frameLen < sizeof(hdr) || hdr.frameLen > len - position)
 			throw ErrorMessageException(THISLOCATION,"Fatal: Corrupted file of cells");
 		StFrameInfo nfo;
 		nfo.offset = position;
@@ -598,10 +611,12 @@ void EventLog::rescanOtherLog(PInputStream input) {
 
 void EventLog::loadStEvent(FileOffset offset, IUpdateListener* listener) const {
 	StFrame hdr;
-	fixedfile->read(&hdr,sizeof(hdr),offset);
+	if (readAll(*fixedfile,&hdr,sizeof(hdr),offset) != sizeof(hdr))
+		throw ErrorMessageException(THISLOCATION,"Fatal: Corrupted file of cells");
 	natural datasz = hdr.hdr.length*blockSize;
 	byte *buff = (byte *)alloca(datasz);
-	fixedfile->read(buff,datasz,offset+sizeof(hdr));
+	if (readAll(*fixedfile,buff,datasz,offset+sizeof(hdr)) != datasz)
+		throw ErrorMessageException(THISLOCATION,"Fatal: Corrupted file of cells");
 	ConstBin recordData(buff,datasz);
 	if (listener == 0) {
 		try {
-- 
2.43.0


From ffd3ab7dd751687ceb653c9ece404c2994c21bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 099/208] fix: size of file was remembered although it was
 changed by another thread or through another handle

---
 src/lightspeed/base/linux/fileio.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 7e8fb81..0c22438 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -62,7 +62,6 @@ namespace LightSpeed {
 		virtual void flush() {FileDescriptorSeq::flush();}
 
 	protected:
-		mutable FileOffset cachedSize;
 
     };
     
@@ -218,7 +217,7 @@ namespace LightSpeed {
 
     FileDescriptor::FileDescriptor(int fd, StringA name, bool deleteOnClose, bool maskRead, bool maskWrite)
         :FileDescriptorSeq(fd,name),deleteOnClose(deleteOnClose),maskRead(maskRead),
-         maskWrite(maskWrite),cachedSize(lnaturalNull) {}
+         maskWrite(maskWrite) {}
 
     FileDescriptor::~FileDescriptor() {
         if (deleteOnClose) {
@@ -425,9 +424,6 @@ namespace LightSpeed {
             else
                 throw FileIOError(THISLOCATION, errno, name);
         }
-        if (cachedSize != lnaturalNull && offset + size > cachedSize) {
-        	cachedSize = lnaturalNull;
-        }
         return wd;
     }
 
@@ -459,7 +455,6 @@ namespace LightSpeed {
 
     natural FileDescriptor::write(const void *buffer,
                               natural size) {
-    	cachedSize = lnaturalNull;
     	return FileDescriptorSeq::write(buffer,size);
     }
 
@@ -472,13 +467,10 @@ namespace LightSpeed {
             else
                 throw FileIOError(THISLOCATION, errno, name);
         }
-        cachedSize = size;
     }
 
 
     FileDescriptor::FileOffset FileDescriptor::size() const {
-    	if (cachedSize != lnaturalNull)
-    		return cachedSize;
     	struct stat statBuff;
     	rep:
     	if (::fstat(this->fd,&statBuff) == -1) {
@@ -487,7 +479,7 @@ namespace LightSpeed {
             else
                 throw FileIOError(THISLOCATION, errno, name);
         }
-    	return cachedSize = statBuff.st_size;
+    	return statBuff.st_size;
         
     }
 
@@ -600,8 +592,6 @@ namespace LightSpeed {
 		if (buffer == 0)
 		{
 			FileOffset pos = getPosition();
-			if (cachedSize != lnaturalNull && cachedSize <= pos)
-				cachedSize = lnaturalNull;
 			FileOffset ofs = this->size() - pos;
 			if (ofs > (lnatural)naturalNull) return naturalNull;
 			else return (natural)ofs;
@@ -613,8 +603,6 @@ namespace LightSpeed {
 	bool FileDescriptor::canRead() const {
 		if (maskRead) return false;
 		FileOffset pos = getPosition();
-		if (cachedSize != lnaturalNull && cachedSize <= pos)
-			cachedSize = lnaturalNull;
 		return pos < size();
 
 	}
-- 
2.43.0


From 79b48e96693ed1a9907d1ee68bf87be8749a78ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 100/208] fix: HTTP response reader looped forever, or reported
 success, when the connection ended in the middle of headers or between chunks

---
 src/lightspeed/base/streams/httpc.tcc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index 55e5e09..4d0c0ab 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -247,9 +247,12 @@ namespace LightSpeed {
 		reqOpened = true;
 		headerParsed = false;
 		eof = false;
+		cloaded = false;
+		statusCode = naturalNull;
 
 		StrP hdrline = readLine();
 		while (hdrline.empty()) {
+			if (eof) return statusCode;
 			strPool.clear();
 			hdrline = readLine();
 		}
@@ -257,7 +260,7 @@ namespace LightSpeed {
 		httpVersion = strPool.add(ConstStrA(iter.getNext()));
 		ConstStrA statusCodeStr = strPool.add(ConstStrA(iter.getNext()));
 		statusMessage = strPool.add(ConstStrA(iter.getRest()));
-		statusCode = parseNumber(statusCodeStr,10);
+		natural status = parseNumber(statusCodeStr,10);
 
 		hdrline = readLine();
 
@@ -272,6 +275,7 @@ namespace LightSpeed {
 			hdrMap.insert(strPool.add(field),strPool.add(value));
 			hdrline = readLine();
 		}
+		if (eof) return statusCode;
 
 		ConstStrA te = getHeader("Transfer-Encoding");
 		if (te == "chunked") {
@@ -291,8 +295,8 @@ namespace LightSpeed {
 				readMode = rmDirect;
 			}
 		}
-		cloaded = false;
 		headerParsed = true;
+		statusCode = status;
 		return statusCode;
 	}
 	
@@ -377,6 +381,7 @@ namespace LightSpeed {
 		natural p = strPool.mark();
 		ConstStrA ln = readLine();
 		while (ln.empty()) {
+			if (eof) throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
 			ln = readLine();
 		}
 		readLen = parseNumber(ln, 16);
-- 
2.43.0


From 6b5a606e0ee2f980521ec8d1f2b90cfaf1a34cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 101/208] fix: size of a chunk written in lower case
 hexadecimal digits was read only up to the first letter

---
 src/lightspeed/base/streams/httpc.tcc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index 4d0c0ab..025bb5e 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -530,7 +530,6 @@ namespace LightSpeed {
 			}
 			else if (c >= 'a' && c < ('a' + base - 10)) {
 				n = n * base + c - 'a' + 10;
-				break;
 			}
 			else {
 				break;
-- 
2.43.0


From c2ef78813c62566e08bddfd9afdba6b544fa8c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 102/208] fix: HTTP response reader continued to the next
 response, or looped forever, behind the last chunk

---
 src/lightspeed/base/streams/httpc.h   |  2 +-
 src/lightspeed/base/streams/httpc.tcc | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/base/streams/httpc.h b/src/lightspeed/base/streams/httpc.h
index 9d75d7e..585816b 100644
--- a/src/lightspeed/base/streams/httpc.h
+++ b/src/lightspeed/base/streams/httpc.h
@@ -169,7 +169,7 @@ namespace LightSpeed {
 		HdrMap hdrMap;
 		bool reqOpened;
 		bool headerParsed;
-		bool chunkedRead;		
+		mutable bool chunkedRead;
 		mutable bool eof;
 		mutable natural readLen;
 
diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index 025bb5e..4b77b5a 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -368,7 +368,7 @@ namespace LightSpeed {
 			return cloaded || readLen > 0;
 		case rmChunked:
 			if (cloaded || readLen > 0) return true;
-			return openChunk();
+			return chunkedRead && openChunk();
 		default:
 			return false;
 		}
@@ -386,7 +386,8 @@ namespace LightSpeed {
 		}
 		readLen = parseNumber(ln, 16);
 		if (readLen == 0) {
-			readLine();
+			while (!readLine().empty()) {}
+			chunkedRead = false;
 			eof = true;
 			return false;
 		}
@@ -417,7 +418,7 @@ namespace LightSpeed {
 		case rmChunked:
 			if (!cloaded) {
 				if (readLen == 0) {
-					if (!openChunk())
+					if (!chunkedRead || !openChunk())
 						throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
 				}
 				if (!fetchByte()) throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
@@ -447,8 +448,7 @@ namespace LightSpeed {
 		case rmChunked:
 			if (!cloaded) {
 				if (readLen == 0) {
-					openChunk();
-					if (eof)
+					if (!chunkedRead || !openChunk())
 						throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
 				}
 				if (!fetchByte()) throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
-- 
2.43.0


From 1b5ef9c28d3ef60dd73f93e087c76ff31eb7e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 103/208] fix: HTTP response was read without opening it, with
 undefined framing

---
 src/lightspeed/base/streams/httpc.tcc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index 4b77b5a..503e1b2 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -217,13 +217,15 @@ namespace LightSpeed {
 
 	template<typename FnInput>
 	inline HttpResponse<FnInput>::HttpResponse(const FnInput & input)
-		:reqOpened(false)
+		:statusCode(naturalNull)
+		, reqOpened(false)
 		, headerParsed(false)
 		, chunkedRead(false)
 		, eof(true)
 		, readLen(0)
 		, input(input)
 		, cloaded(false)
+		, readMode(rmDirect)
 	{
 	}
 	
@@ -360,6 +362,8 @@ namespace LightSpeed {
 	template<typename FnInput>
 	bool HttpResponse<FnInput>::hasItems() const
 	{			
+		if (!reqOpened) const_cast<HttpResponse *>(this)->open();
+		if (!headerParsed) return false;
 		switch (readMode) {
 		case rmDirect: 
 			if (cloaded) return true;
@@ -401,6 +405,8 @@ namespace LightSpeed {
 	template<typename FnInput>
 	const byte & HttpResponse<FnInput>::getNext() 
 	{
+		if (!reqOpened) open();
+		if (!headerParsed) throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
 		switch (readMode) {
 		case rmDirect:
 			if (!cloaded) {
@@ -434,6 +440,8 @@ namespace LightSpeed {
 	template<typename FnInput>
 	const byte & HttpResponse<FnInput>::peek() const
 	{
+		if (!reqOpened) const_cast<HttpResponse *>(this)->open();
+		if (!headerParsed) throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
 		switch (readMode) {
 		case rmDirect:
 			if (!cloaded) {
@@ -462,10 +470,11 @@ namespace LightSpeed {
 	template<typename FnInput>
 	natural HttpResponse<FnInput>::getRemain() const
 	{
+		if (!hasItems()) return 0;
 		switch (readMode) {
-		case rmDirect: return hasItems() ? naturalNull : 0;
-		case rmLimited: return hasItems() ? readLen : 0;
-		case rmChunked: return hasItems() ? naturalNull : 0;
+		case rmDirect: return naturalNull;
+		case rmLimited: return readLen;
+		case rmChunked: return naturalNull;
 		default: return 0;
 		}
 	}
-- 
2.43.0


From 1b9f340ea9b30121c3f91c74a87fa47ae10cca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 104/208] fix: body of HTTP request was sent in chunks without
 announcing them, or with the Content-Length header as well, or it was not
 sent at all

---
 src/lightspeed/base/streams/httpc.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index 503e1b2..9a74d95 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -32,7 +32,7 @@ namespace LightSpeed {
 	template<typename FnOutput>
 	void HttpRequest<FnOutput>::reset()
 	{
-		if (headersSent) {
+		if (headersSent || !chunkBuff.empty()) {
 			flush();
 			sendChunk();
 		}
@@ -137,7 +137,7 @@ namespace LightSpeed {
 	{
 		if (body) {
 			addHeader("Transfer-Encoding", "chunked");
-			hdrMap.erase(StrP(ConstStrA("Content-Length	")));
+			hdrMap.erase(StrP(ConstStrA("Content-Length")));
 		}
 
 		sendString(method);
@@ -178,7 +178,7 @@ namespace LightSpeed {
 	template<typename FnOutput>
 	void HttpRequest<FnOutput>::flush()
 	{
-		if (!headersSent) sendHeaders();
+		if (!headersSent) sendHeaders(true);
 		if (!chunkBuff.empty()) {
 			sendChunk();
 			chunkBuff.clear();
-- 
2.43.0


From 253cafef86be75a2f001a622db57729771b4d3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 105/208] fix: process was terminated when HTTP request was
 destroyed after its connection failed

---
 src/lightspeed/base/streams/httpc.tcc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index 9a74d95..e2bda7b 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -22,7 +22,11 @@ namespace LightSpeed {
 	template<typename FnOutput>
 	HttpRequest<FnOutput>::~HttpRequest()
 	{
-		reset();
+		try {
+			reset();
+		} catch (...) {
+			//destructor must not throw
+		}
 	}
 	template<typename FnOutput>
 	HttpRequest<FnOutput>::HttpRequest(const HttpRequest &other)
-- 
2.43.0


From abda6cd05a60e419a71abae9b778d43f21cdbb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 106/208] fix: headers of HTTP response were not found when the
 server wrote their names in different case

---
 src/lightspeed/base/streams/httpc.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/httpc.h b/src/lightspeed/base/streams/httpc.h
index 585816b..a00167b 100644
--- a/src/lightspeed/base/streams/httpc.h
+++ b/src/lightspeed/base/streams/httpc.h
@@ -160,7 +160,13 @@ namespace LightSpeed {
 
 	protected:
 		typedef StringPoolA::Str StrP;
-		typedef Map<StrP, StrP> HdrMap;
+		///names of headers are not case sensitive
+		struct HdrLess {
+			bool operator()(const StrP &a, const StrP &b) const {
+				return StrCmpCI<char>()(ConstStrA(a),ConstStrA(b)) == cmpResultLess;
+			}
+		};
+		typedef Map<StrP, StrP, HdrLess> HdrMap;
 
 		mutable StringPoolA strPool;
 		StrP statusMessage;
-- 
2.43.0


From 528b72aa289b00f90658ed9a8ece5f878ea803b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 107/208] fix: HTTP response without text behind its status
 code crashed the reader

---
 src/lightspeed/base/streams/httpc.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index e2bda7b..da53b6b 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -264,8 +264,10 @@ namespace LightSpeed {
 		}
 		StrP::SplitIterator iter = hdrline.split(' ');
 		httpVersion = strPool.add(ConstStrA(iter.getNext()));
+		if (!iter.hasItems()) return statusCode;
 		ConstStrA statusCodeStr = strPool.add(ConstStrA(iter.getNext()));
-		statusMessage = strPool.add(ConstStrA(iter.getRest()));
+		//text behind the status code is optional
+		statusMessage = iter.hasItems()?strPool.add(ConstStrA(iter.getRest())):StrP();
 		natural status = parseNumber(statusCodeStr,10);
 
 		hdrline = readLine();
-- 
2.43.0


From da06262cae8a7f6afa83532c7a2d214055224ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 108/208] fix: body of HTTP response could be read behind its
 Content-Length

---
 src/lightspeed/base/streams/httpc.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index da53b6b..9bb9327 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -422,7 +422,7 @@ namespace LightSpeed {
 			return c;
 		case rmLimited:
 			if (!cloaded) {
-				if (!fetchByte()) throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
+				if (readLen == 0 || !fetchByte()) throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
 			}
 			readLen--;
 			cloaded = false;
@@ -456,7 +456,7 @@ namespace LightSpeed {
 			return c;
 		case rmLimited:
 			if (!cloaded) {
-				if (!fetchByte()) throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
+				if (readLen == 0 || !fetchByte()) throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
 			}
 			return c;
 		case rmChunked:
-- 
2.43.0


From 738defce577f038212c9296bb3a42c5bfa132b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 109/208] fix: destructor of a live log listener, which was
 never registered, used undefined pointer

---
 src/lightspeed/base/debug/livelog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/debug/livelog.cpp b/src/lightspeed/base/debug/livelog.cpp
index 68dc74c..40c711e 100644
--- a/src/lightspeed/base/debug/livelog.cpp
+++ b/src/lightspeed/base/debug/livelog.cpp
@@ -12,7 +12,7 @@ namespace LightSpeed {
 
 
 LiveLogStream::LiveLogStream(
-		ILogOutput::LogType logLevel):logLevel(logLevel) {
+		ILogOutput::LogType logLevel):slottedIn(0),logLevel(logLevel) {
 }
 
 LiveLogStream::~LiveLogStream() {
-- 
2.43.0


From da43fee761c5f14866ecca0017665cb1b926760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 110/208] fix: message disabled in the log was logged when the
 last listener, which wanted it, was removed meanwhile

---
 src/lightspeed/base/debug/livelog.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lightspeed/base/debug/livelog.cpp b/src/lightspeed/base/debug/livelog.cpp
index 40c711e..8956324 100644
--- a/src/lightspeed/base/debug/livelog.cpp
+++ b/src/lightspeed/base/debug/livelog.cpp
@@ -67,12 +67,11 @@ void LiveLog::removeLk(LiveLogStream* stream) {
 }
 
 void LiveLog::logLine(ConstStrA line, ILogOutput::LogType curLogType ,natural curLogLevel) {
-	if (curLogType > maxLogLevel) {
+	//listener can be removed after its level allowed this line
+	if (StdLogOutput::checkLogLevel(curLogType,curLogLevel)) {
 		StdLogOutput::logLine(line,curLogType,curLogLevel);
-	} else {
-		if (StdLogOutput::checkLogLevel(curLogType,curLogLevel)) {
-			StdLogOutput::logLine(line,curLogType,curLogLevel);
-		}
+	}
+	if (curLogType <= maxLogLevel) {
 		Sync _(lock);
 		DbgLog::Redirect logred(DbgLog::getNoLogProvider());
 		Channels failedChans;
-- 
2.43.0


From 4be54b043e99398165a257c9099aebbb975f8ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 111/208] fix: live log used failed listener, which could be
 destroyed by another thread meanwhile

---
 src/lightspeed/base/debug/livelog.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/debug/livelog.cpp b/src/lightspeed/base/debug/livelog.cpp
index 8956324..c7fdbc7 100644
--- a/src/lightspeed/base/debug/livelog.cpp
+++ b/src/lightspeed/base/debug/livelog.cpp
@@ -85,9 +85,12 @@ void LiveLog::logLine(ConstStrA line, ILogOutput::LogType curLogType ,natural cu
 				}
 			}
 		}
+		for (Channels::Iterator iter = failedChans.getFwIter(); iter.hasItems();) {
+			removeLk(iter.getNext());
+		}
+		//lock is released below, the streams can be destroyed by their owners
 		for (Channels::Iterator iter = failedChans.getFwIter(); iter.hasItems();) {
 			LiveLogStream *s = iter.getNext();
-			removeLk(s);
 			try {
 				if (checkLogLevel(logNote,1)) {
 					TextFormatBuff<char, StaticAlloc<256> > line;
-- 
2.43.0


From f5edc212ee735005bc82048a033a9bea267ea9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:18 +0000
Subject: [PATCH 112/208] fix: ProgressMonitor::getLevel looped forever

---
 src/lightspeed/base/debug/progress.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/debug/progress.cpp b/src/lightspeed/base/debug/progress.cpp
index 3465284..c8aca0a 100644
--- a/src/lightspeed/base/debug/progress.cpp
+++ b/src/lightspeed/base/debug/progress.cpp
@@ -89,6 +89,7 @@ ThreadVar<ProgressMonitor> globalProgressMonitor;
 		const Progress *k = head;
 		while (k && k != x) {
 			l++;
+			k = k->next;
 		}
 		if (k == 0) l = naturalNull;
 		unlock();
-- 
2.43.0


From 149400e1b8e68ab6f68a17d21e5ab8020d080de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 113/208] fix: live log lost messages logged while another
 listener was being removed

---
 src/lightspeed/base/debug/livelog.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/debug/livelog.cpp b/src/lightspeed/base/debug/livelog.cpp
index c7fdbc7..d3eb5f7 100644
--- a/src/lightspeed/base/debug/livelog.cpp
+++ b/src/lightspeed/base/debug/livelog.cpp
@@ -51,7 +51,7 @@ void LiveLog::remove(LiveLogStream* stream) {
 	removeLk(stream);
 }
 void LiveLog::removeLk(LiveLogStream* stream) {
-	maxLogLevel = (ILogOutput::LogType)0;
+	ILogOutput::LogType newMaxLevel = (ILogOutput::LogType)0;
 	stream->onUnregister();
 	for (natural i = 0; i < channels.length(); i++) {
 		LiveLogStream *s = channels[i];
@@ -60,10 +60,11 @@ void LiveLog::removeLk(LiveLogStream* stream) {
 			i--;
 		} else {
 			LogType p = s->getLogLevel();
-			if (p > maxLogLevel) maxLogLevel = p;
+			if (p > newMaxLevel) newMaxLevel = p;
 
 		}
 	}
+	maxLogLevel = newMaxLevel;
 }
 
 void LiveLog::logLine(ConstStrA line, ILogOutput::LogType curLogType ,natural curLogLevel) {
-- 
2.43.0


From 31c1fed2630d06a166ff08eea25972385455c2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 114/208] fix: two threads rotating the log at once used name
 of the log file without lock

---
 src/lightspeed/base/debug/stdlogoutput.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/debug/stdlogoutput.cpp b/src/lightspeed/base/debug/stdlogoutput.cpp
index 3b9cae3..569a4c5 100644
--- a/src/lightspeed/base/debug/stdlogoutput.cpp
+++ b/src/lightspeed/base/debug/stdlogoutput.cpp
@@ -3,6 +3,8 @@
 
 namespace LightSpeed {
 
+	static const OpenFlags::Type logFileFlags = OpenFlags::append|OpenFlags::createFolder|OpenFlags::create|OpenFlags::shareRead|OpenFlags::shareWrite;
+
 	void StdLogOutput::setFile(SeqFileOutput out, ConstStrW fname)
 	{
 		Sync _(lock);
@@ -14,8 +16,7 @@ namespace LightSpeed {
 
 	void StdLogOutput::setFile(ConstStrW fname)
 	{
-		using namespace OpenFlags;
-		SeqFileOutput newlog(fname,append|createFolder|create|shareRead|shareWrite);
+		SeqFileOutput newlog(fname,logFileFlags);
 		setFile(newlog,fname);
 
 
@@ -34,9 +35,10 @@ namespace LightSpeed {
 
 
 	void StdLogOutput::logRotate() {
-		String x = logFilename;
+		//name of the file can be changed by other thread, log can be rotated by other thread
+		Sync _(lock);
 		if (logFilename.empty()) throw ErrorMessageException(THISLOCATION, "Cannot rotate logfile, because log is not opened using filename");
-		setFile(logFilename);
+		outFile = SeqFileOutput(logFilename,logFileFlags);
 	}
 
 
-- 
2.43.0


From d64e8aec21cbef1efa86a0d3acd70538ec1f23f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 115/208] fix: environment was empty (and reading it crashed)
 in programs which have their own main()

---
 src/lightspeed/base/linux/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/main.cpp b/src/lightspeed/base/linux/main.cpp
index 94fb7b4..ba1cee3 100644
--- a/src/lightspeed/base/linux/main.cpp
+++ b/src/lightspeed/base/linux/main.cpp
@@ -21,7 +21,8 @@ namespace LightSpeed {
 	static char  const *const *  envPtr;
 
 	char const * const *  getEnv() {
-		return envPtr;
+		//programs with their own main() never come through the entryPoint()
+		return envPtr?envPtr:environ;
 	}
 
 	int entryPoint(int argc, char* argv[], const char* const env[]) {
-- 
2.43.0


From 03cfa3cf6385932d194ab8459b0b96fa1c1b849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 116/208] fix: started process got wrong descriptors when they
 could not be duplicated or were in the range of standard ones

---
 src/lightspeed/mt/linux/process.cpp | 56 +++++++++++++++--------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/lightspeed/mt/linux/process.cpp b/src/lightspeed/mt/linux/process.cpp
index c64a520..42ae542 100644
--- a/src/lightspeed/mt/linux/process.cpp
+++ b/src/lightspeed/mt/linux/process.cpp
@@ -375,6 +375,23 @@ namespace LightSpeed {
 		*tbl = 0;
 	}
 
+	///duplicates descriptor out of the range of standard descriptors, copy is not inherited by the started program
+	static int dupHandle(int fd) {
+		return fcntl(fd,F_DUPFD_CLOEXEC,3);
+	}
+
+	///reports error of the child to its parent and terminates the child
+	static void childFailed(int statusFd, int err) {
+		const char *p = reinterpret_cast<const char *>(&err);
+		size_t remain = sizeof(err);
+		while (remain) {
+			ssize_t n = write(statusFd,p,remain);
+			if (n > 0) {p+=n;remain-=n;}
+			else if (n == 0 || errno != EINTR) break;
+		}
+		_exit(1);
+	}
+
 	static int getHandle(LinuxProcessContext::PStream handle) {
 		if (handle == nil) return -1;
 		int h;
@@ -448,6 +465,8 @@ namespace LightSpeed {
 		//detach pipe object;
 		ipcstatus.detach();
 
+		int hStatus = getHandle(writeStatus.getStream().get());
+
 		//prepare object to read exec status
 		//prepare return value from the fork
 		int fres;
@@ -474,20 +493,16 @@ namespace LightSpeed {
 			int chInput = -1, chOutput = -1, chError = -1;
 			//duplicate original fds, because they are marked O_CLOEXEC
 			//first duplicate to new set to handle collisions while descriptors are in 0-2 range
-			if (hInput >= 0) chInput = dup(hInput);
-			if (hOutput >= 0) chOutput = dup(hOutput);
-			if (hError >= 0) chError = dup(hError);
+			int chStatus = dupHandle(hStatus);
+			if (chStatus < 0) childFailed(hStatus,errno);
+			if (hInput >= 0 && (chInput = dupHandle(hInput)) < 0) childFailed(chStatus,errno);
+			if (hOutput >= 0 && (chOutput = dupHandle(hOutput)) < 0) childFailed(chStatus,errno);
+			if (hError >= 0 && (chError = dupHandle(hError)) < 0) childFailed(chStatus,errno);
 
 			//set input output and error fds
-			if (chInput >= 0) {
-				dup2(chInput,0);close(chInput);
-			}
-			if (hOutput >= 0) {
-				dup2(chOutput,1);close(chOutput);
-			}
-			if (hError >= 0) {
-				dup2(chError,2);close(chError);
-			}
+			if (chInput >= 0 && dup2(chInput,0) < 0) childFailed(chStatus,errno);
+			if (chOutput >= 0 && dup2(chOutput,1) < 0) childFailed(chStatus,errno);
+			if (chError >= 0 && dup2(chError,2) < 0) childFailed(chStatus,errno);
 
 			//disable O_CLOEXEC on streams exported to the child process
 			for (natural i = 0; i < ctx.extraStreams.length(); i++) {
@@ -501,13 +516,7 @@ namespace LightSpeed {
 
 			if (*cwdchr != 0) {
 				res = chdir(cwdchr);
-				if (res) {
-					int e = errno;
-					//write error code into status pipe
-					writeStatus.blockWrite(&e,sizeof(e),true);
-
-					_exit(1);
-				}
+				if (res) childFailed(chStatus,errno);
 			}
 
 			//perform exec
@@ -515,13 +524,8 @@ namespace LightSpeed {
 			 * otherwise, function returns with exit code */
 			res = execve(fname.cStr(),cmdLine,envTable);
 
-			if (res) {
-				int e = errno;
-				//write error code into status pipe
-				writeStatus.blockWrite(&e,sizeof(e),true);
-			}
-			//terminate this process
-			_exit(1);
+			//write error code into status pipe and terminate this process
+			childFailed(chStatus,errno);
 		} else {
 			//parent
 			//reset writeStatus, it may close becaused child already closed too
-- 
2.43.0


From b73c864b8f40e6b619f3f933308d0f407bc101e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 117/208] fix: process which failed to start stayed as a zombie
 when waiting for it was interrupted

---
 src/lightspeed/mt/linux/process.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/process.cpp b/src/lightspeed/mt/linux/process.cpp
index 42ae542..f4fcce3 100644
--- a/src/lightspeed/mt/linux/process.cpp
+++ b/src/lightspeed/mt/linux/process.cpp
@@ -543,7 +543,7 @@ namespace LightSpeed {
 				//if status exists
 				//wait child
 				int exitStatus;
-				waitpid(fres,&exitStatus,0);
+				while (waitpid(fres,&exitStatus,0) == -1 && errno == EINTR) {}
 				int res;
 				//read status
 				statusRead.blockRead(&res,sizeof(res),true);
-- 
2.43.0


From 7e8596f141bb303ceb1a3865cd2f430778444547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 118/208] fix: process started from a thread of the library
 could not be stopped by Process::stop

---
 src/lightspeed/mt/linux/process.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lightspeed/mt/linux/process.cpp b/src/lightspeed/mt/linux/process.cpp
index f4fcce3..07a2b09 100644
--- a/src/lightspeed/mt/linux/process.cpp
+++ b/src/lightspeed/mt/linux/process.cpp
@@ -504,6 +504,12 @@ namespace LightSpeed {
 			if (chOutput >= 0 && dup2(chOutput,1) < 0) childFailed(chStatus,errno);
 			if (chError >= 0 && dup2(chError,2) < 0) childFailed(chStatus,errno);
 
+			//threads of the library have signals blocked, started program must not inherit it
+			//(it could not be stopped by SIGTERM)
+			sigset_t sset;
+			sigemptyset(&sset);
+			sigprocmask(SIG_SETMASK,&sset,0);
+
 			//disable O_CLOEXEC on streams exported to the child process
 			for (natural i = 0; i < ctx.extraStreams.length(); i++) {
 				int fd;
-- 
2.43.0


From 5133a12267b1e43f0b71b02d33d15f72caf72993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 119/208] fix: Process::join with timeout returned before the
 time or did not notice end of the process when SIGCHLD was not delivered to
 it

---
 src/lightspeed/mt/linux/process.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/lightspeed/mt/linux/process.cpp b/src/lightspeed/mt/linux/process.cpp
index 07a2b09..802d06e 100644
--- a/src/lightspeed/mt/linux/process.cpp
+++ b/src/lightspeed/mt/linux/process.cpp
@@ -678,7 +678,7 @@ namespace LightSpeed {
 					//add slot to the sync point
 					syncPt.add(s);
 					//start waiting if number did not changed
-					if (readAcquire(&eventNumber) != myEN) syncPt.wait(s,wtm);
+					if (readAcquire(&eventNumber) == myEN) syncPt.wait(s,wtm);
 					//remove slot from syncPt (may not be signaled)
 					syncPt.remove(s);
 					//check event number again
@@ -825,6 +825,9 @@ namespace LightSpeed {
 
 	}
 
+	///how often (in milliseconds) is the process checked while other thread waits for the signal
+	static const natural checkInterval = 50;
+
 	integer Process::join() {
 
 		LinuxProcessContext &ctx = LinuxProcessContext::getCtx(*context);
@@ -851,15 +854,16 @@ namespace LightSpeed {
 		while (res == -256) {
 			//acquire GlobalSigChildWait signleton object
 			GlobalSigChildWait &sigchldwt = Singleton<GlobalSigChildWait>::getInstance();
-			//perform waiting on signal
-			if (!sigchldwt.wait(tm,myEN)) {
-				//if timeouted, exit
-				return false;
-			}
-			//global event detected, but is this our event?
-			//recheck the situation
+			//signal doesn't come unless it is blocked by the thread which started the process
+			//and it can be also taken by another thread. So never wait longer than for a while
+			natural remain = tm.getRemain().msecs();
+			sigchldwt.wait(remain < checkInterval?tm:Timeout(checkInterval),myEN);
+			//check timeout before the process is checked for the last time
+			bool timeouted = tm.expired();
+			//is this our event? recheck the situation
 			res = processWaitPid(ctx,WNOHANG);
-
+			//still running and timeouted, exit
+			if (res == -256 && timeouted) return false;
 		}
 
 		//open finish gate other threads may continue
-- 
2.43.0


From 5a1a44af7c9567c3def0857bc380e4dac1088a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 120/208] fix: Process::getCmdLine lost empty arguments

---
 src/lightspeed/mt/linux/process.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lightspeed/mt/linux/process.cpp b/src/lightspeed/mt/linux/process.cpp
index 802d06e..34b88d3 100644
--- a/src/lightspeed/mt/linux/process.cpp
+++ b/src/lightspeed/mt/linux/process.cpp
@@ -297,6 +297,10 @@ namespace LightSpeed {
 	template<typename A,typename B>
 	static void escapeArg(AutoArrayStream<A,B> &buff, ConstStrA txt) {
 
+		if (txt.empty()) {
+			buff.write('"');
+			buff.write('"');
+		}
 		for (ConstStrA::Iterator iter = txt.getFwIter(); iter.hasItems();) {
 			char c = iter.getNext();
 			if (c == ' ' || c== '"' || c== '\\') {
-- 
2.43.0


From 8967fa4c2c43357fab9f7ae2433bd0ff9b0ad9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 121/208] fix: pipe passed to started process was lost when
 standard descriptors of its parent are closed

---
 src/lightspeed/base/linux/fileio.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 0c22438..27a5c75 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -556,6 +556,19 @@ namespace LightSpeed {
         if (res != 0)
             throw PipeOpenError(THISLOCATION,errno);
 
+        //keep pipes out of the range of standard descriptors (when they are closed)
+        //otherwise redirection of started process overwrites the pipe which is passed to it
+        for (int i = 0; i < 2; i++) if (fds[i] < 3) {
+        	int fd = fcntl(fds[i],F_DUPFD_CLOEXEC,3);
+        	if (fd < 0) {
+        		int err = errno;
+        		close(fds[0]);
+        		close(fds[1]);
+        		throw PipeOpenError(THISLOCATION,err);
+        	}
+        	close(fds[i]);
+        	fds[i] = fd;
+        }
 
         char desc[100];
         
-- 
2.43.0


From 60f0196a55d23d8dbabde80b0e48e69451deda58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:09 +0000
Subject: [PATCH 122/208] fix: two processes could create the same program
 instance at once, replies were delivered to another request, instance stayed
 locked after a killed client

---
 src/lightspeed/base/linux/proginstance.cpp | 424 ++++++++++++++-------
 1 file changed, 295 insertions(+), 129 deletions(-)

diff --git a/src/lightspeed/base/linux/proginstance.cpp b/src/lightspeed/base/linux/proginstance.cpp
index 3d7508c..48a0f13 100644
--- a/src/lightspeed/base/linux/proginstance.cpp
+++ b/src/lightspeed/base/linux/proginstance.cpp
@@ -18,11 +18,16 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <fcntl.h>
+#include <sys/file.h>
+#include <errno.h>
+#include <stdio.h>
 #include <sys/types.h>
 #include <signal.h>
 #include "../framework/proginstance.h"
+#include "../../mt/timeout.h"
 #include "../exceptions/systemException.h"
 #include "../containers/string.tcc"
+#include "../text/textFormat.tcc"
 #include <sys/time.h>
 #include <string.h>
 #include <pthread.h>
@@ -55,14 +60,18 @@ struct ProgInstanceBuffer {
 	natural requestSize;
 	///size of current request
 	natural curRequestSize;
-	///accessing the buffer by caller
-	sem_t semAccess;
-	///triggered after request is placed
+	///accessing the buffer by caller (robust, caller can be killed while it has it)
+	pthread_mutex_t access;
+	///locked while state of the buffer is changed (robust)
+	pthread_mutex_t lock;
+	///triggered after request is placed or waiting is canceled
 	sem_t semRequest;
-	///locked when processing the request
-	sem_t semInProgress;
 	///triggered after reply is placed
 	sem_t semReply;
+	///state of the buffer, see below
+	int state;
+	///waiting for request has been canceled
+	bool canceled;
 	///in daemon mode
 	bool indaemon;
 	///data reserved for request/reply
@@ -70,6 +79,138 @@ struct ProgInstanceBuffer {
 };
 
 
+static bool isProcessRunning(pid_t pid) {
+	return pid > 0 && (kill(pid,0) == 0 || errno == EPERM);
+}
+
+///there is no request in the buffer
+static const int stIdle = 0;
+///request is placed and nobody accepted it
+static const int stPlaced = 1;
+///request has been accepted, buffer belongs to the owner of the instance
+static const int stAccepted = 2;
+///reply is placed
+static const int stReplied = 3;
+
+///locks robust mutex shared by processes
+/**
+ * @retval false timeout
+ */
+static bool lockShared(pthread_mutex_t &mx, const Timeout &tm) {
+	int r;
+	if (tm.isInfinite()) r = pthread_mutex_lock(&mx);
+	else {
+		struct timespec tmspec = tm.getExpireTime().getTimeSpec();
+		r = pthread_mutex_timedlock(&mx,&tmspec);
+	}
+	if (r == EOWNERDEAD) {
+		//previous owner has been killed. State of the buffer is always valid
+		pthread_mutex_consistent(&mx);
+		return true;
+	}
+	if (r == ETIMEDOUT) return false;
+	if (r) throw ErrNoException(THISLOCATION,r);
+	return true;
+}
+
+namespace {
+///Holds robust mutex shared by processes
+class SharedLock {
+public:
+	SharedLock(pthread_mutex_t &mx):mx(mx) {lockShared(mx,nil);}
+	///adopts mutex already locked
+	SharedLock(pthread_mutex_t &mx, bool):mx(mx) {}
+	~SharedLock() {pthread_mutex_unlock(&mx);}
+protected:
+	pthread_mutex_t &mx;
+};
+}
+
+static void initShared(pthread_mutex_t &mx) {
+	pthread_mutexattr_t attr;
+	pthread_mutexattr_init(&attr);
+	pthread_mutexattr_setpshared(&attr,PTHREAD_PROCESS_SHARED);
+	pthread_mutexattr_setrobust(&attr,PTHREAD_MUTEX_ROBUST);
+	pthread_mutex_init(&mx,&attr);
+	pthread_mutexattr_destroy(&attr);
+}
+
+///takes the placed request
+/**
+ * @retval true request has been accepted
+ */
+static bool takeRequest(ProgInstanceBuffer *buffer) {
+	if (buffer->state != stPlaced) return false;
+	buffer->state = stAccepted;
+	return true;
+}
+
+///places the reply, data are already in the buffer
+static void placeReply(ProgInstanceBuffer *buffer, natural sz) {
+	if (buffer->state == stAccepted) {
+		buffer->curRequestSize = sz;
+		buffer->state = stReplied;
+		sem_post(&buffer->semReply);
+	}
+}
+
+
+namespace {
+
+///Locks the instance file while it is being created or removed
+class InstanceFileLock {
+public:
+	InstanceFileLock(const StringA &name):name(name),fd(-1),empty(false) {}
+	~InstanceFileLock() {
+		//don't leave the empty file
+		if (empty) unlink(name.c_str());
+		if (fd != -1) ::close(fd);
+	}
+
+	///file has been replaced
+	void published() {empty = false;}
+
+	///locks file
+	/**
+	 * @param flags O_CREAT to create an empty file, if there is no file
+	 * @return pid of the owner of the instance, zero if there is none
+	 */
+	pid_t lock(int flags) {
+		while (true) {
+			fd = ::open(name.c_str(),O_RDWR | O_CLOEXEC | flags, S_IRUSR|S_IWUSR);
+			if (fd == -1) throw ErrNoException(THISLOCATION,errno);
+			while (flock(fd,LOCK_EX)) {
+				if (errno != EINTR) throw ErrNoException(THISLOCATION,errno);
+			}
+			struct stat opened,current;
+			if (fstat(fd,&opened)) throw ErrNoException(THISLOCATION,errno);
+			//file could be replaced or removed before it has been locked
+			if (stat(name.c_str(),&current)) {
+				if (errno != ENOENT) throw ErrNoException(THISLOCATION,errno);
+			} else if (current.st_ino == opened.st_ino && current.st_dev == opened.st_dev) {
+				empty = opened.st_size == 0;
+				//complete files only, other belong to nobody
+				if (opened.st_size < (off_t)sizeof(ProgInstanceBuffer)) return 0;
+				void *mb = mmap(0,sizeof(ProgInstanceBuffer),PROT_READ,MAP_SHARED,fd,0);
+				if (mb == MAP_FAILED) throw ErrNoException(THISLOCATION,errno);
+				ProgInstanceBuffer *buf = reinterpret_cast<ProgInstanceBuffer *>(mb);
+				pid_t pid = buf->owner?buf->pid:0;
+				munmap(mb,sizeof(ProgInstanceBuffer));
+				return pid;
+			}
+			::close(fd);
+			fd = -1;
+		}
+	}
+
+protected:
+	const StringA &name;
+	int fd;
+	bool empty;
+};
+
+}
+
 ProgInstance::ProgInstance(const String &name):name(name) {
 	buffer = 0;
 	initializeStartTime();
@@ -104,13 +245,21 @@ void ProgInstance::open()
 		throw ErrNoException(THISLOCATION, errno);
 	}
 
+	//file which is not complete belongs to nobody
+	if (statbuf.st_size < (off_t)sizeof(ProgInstanceBuffer)) {
+		::close(fd);
+		throw NotRunningException(THISLOCATION);
+	}
+
 	void *mb = mmap(0,statbuf.st_size,PROT_WRITE|PROT_READ,MAP_SHARED,fd,0);
+	int err = errno;
 	::close(fd);
 	if (mb == MAP_FAILED)
-		throw ErrNoException(THISLOCATION, errno);
+		throw ErrNoException(THISLOCATION, err);
 
 	ProgInstanceBuffer *buf = reinterpret_cast<ProgInstanceBuffer *>(mb);
-	if (kill(buf->pid,0) != 0) {
+	if (!isProcessRunning(buf->pid) || buf->owner == 0 || buf->size > (natural)statbuf.st_size) {
+		munmap(mb,statbuf.st_size);
 		throw NotRunningException(THISLOCATION);
 	}
 
@@ -122,15 +271,8 @@ bool ProgInstance::anyRequest()
 	//not initialized - error
 	if (buffer == 0)
 		throw NotInitialized(THISLOCATION);
-	//try to wait for semaphore
-	if (sem_trywait(&buffer->semRequest)) {
-		//if not success - probably no request
-		return false;
-	}
-	//successed, but we don't want to accept request now - post the semaphore
-	sem_post(&buffer->semRequest);
-	return true;
-
+	SharedLock _(buffer->lock);
+	return buffer->state == stPlaced;
 }
 
 bool ProgInstance::check() const {
@@ -143,31 +285,26 @@ bool ProgInstance::check() const {
 	return svc.canOpenFile(path,IFileIOServices::fileOpenReadWrite);
 }
 
+///withdraws the request when waiting for the reply has been interrupted
+static void giveUpRequest(ProgInstanceBuffer *buffer) {
+	SharedLock _(buffer->lock);
+	if (buffer->state == stPlaced) buffer->state = stIdle;
+}
+
 static void sem_throwException(const ProgramLocation &loc, int err) {
 	if (err == EINTR) throw ProgInstance::InterruptedWaitingException(loc,err);
 	else throw ErrNoException(loc,err);
 }
 
-static bool sem_wait(sem_t &sem,natural timeout) {
+static bool sem_wait(sem_t &sem,const Timeout &tm) {
 
-	if (timeout == naturalNull) {
+	if (tm.isInfinite()) {
 		if (sem_wait(&sem)) {
 			sem_throwException(THISLOCATION, errno);
 		} return true;
 	}
 
-	struct timeval tmval;
-	gettimeofday(&tmval,0);
-	tmval.tv_usec += (timeout % 1000)*1000;
-	tmval.tv_sec += timeout / 1000;
-	if (tmval.tv_usec >= 1000000) {
-		tmval.tv_sec++;
-		tmval.tv_usec -= 1000000;
-	}
-
-	struct timespec tmspec;
-	tmspec.tv_sec = tmval.tv_sec;
-	tmspec.tv_nsec = tmval.tv_usec * 1000;
+	struct timespec tmspec = tm.getExpireTime().getTimeSpec();
 
 	int i = sem_timedwait(&sem,&tmspec);
 	if (i == -1) {
@@ -184,16 +321,24 @@ void *ProgInstance::waitForRequest(natural timeout)
 	if (buffer == 0)
 		throw NotInitialized(THISLOCATION);
 
-	if (sem_wait(buffer->semRequest,timeout)) {
-		if (buffer->curRequestSize == 0) {
-			sendReply(0,0);
-			return 0;
-		}
-		else {
-			return buffer->data;
+	Timeout tm(timeout);
+	while (true) {
+		{
+			SharedLock _(buffer->lock);
+			//everything signaled so far is visible now
+			while (sem_trywait(&buffer->semRequest) == 0) {}
+			if (takeRequest(buffer)) {
+				if (buffer->curRequestSize != 0) return buffer->data;
+				//empty request cancels waiting
+				placeReply(buffer,0);
+				return 0;
+			}
+			if (buffer->canceled) {
+				buffer->canceled = false;
+				return 0;
+			}
 		}
-	} else {
-		return 0;
+		if (!sem_wait(buffer->semRequest,tm)) return 0;
 	}
 }
 
@@ -212,105 +357,125 @@ void ProgInstance::create(natural requestMaxSize)
 	StringA namea = name.getUtf8();
 	if (buffer != 0) return;
 	natural totalSize = requestMaxSize + sizeof(ProgInstanceBuffer);
-	int fd = ::open(namea.c_str(),O_RDWR);
-	if (fd != -1) {
-
-		void *mb = mmap(0,sizeof(ProgInstanceBuffer),PROT_READ,MAP_SHARED,fd,0);
-		::close(fd);
-		if (mb == MAP_FAILED)
-			throw ErrNoException(THISLOCATION,errno);
-
-		ProgInstanceBuffer *buf = reinterpret_cast<ProgInstanceBuffer *>(mb);
-		if (kill(buf->pid,0) == 0) {
-			throw AlreadyRunningException(THISLOCATION,buf->pid);
-		}
-
-		munmap(mb,sizeof(ProgInstanceBuffer));
-		unlink(namea.c_str());
-	}
-	fd = ::open(namea.c_str(),O_RDWR | O_CREAT | O_EXCL, S_IRUSR|S_IWUSR );
+	//only the process which has locked the file can replace it
+	InstanceFileLock lk(namea);
+	//lock the file and check, whether its owner is running
+	pid_t ownerPid = lk.lock(O_CREAT);
+	if (isProcessRunning(ownerPid))
+		throw AlreadyRunningException(THISLOCATION,ownerPid);
+
+	//new file is prepared aside, so nobody can see it before it is complete
+	TextFormatBuff<char> fmt;
+	fmt("%1.%2") << namea << (natural)getpid();
+	StringA tmpname = fmt.write();
+	unlink(tmpname.c_str());
+	int fd = ::open(tmpname.c_str(),O_RDWR | O_CREAT | O_EXCL | O_CLOEXEC, S_IRUSR|S_IWUSR );
 	if (fd == -1)
 		throw ErrNoException(THISLOCATION,errno);
 
 	char prebuf[256];
+	memset(prebuf,0,sizeof(prebuf));
 	natural cursize = 0;
-	while (cursize < totalSize) {
+	int err = 0;
+	while (cursize < totalSize && err == 0) {
 		natural c = (totalSize - cursize) > 256?256:(totalSize - cursize);
-		natural n = write(fd,prebuf,c);
-		cursize +=n;
+		ssize_t n = write(fd,prebuf,c);
+		if (n >= 0) cursize +=n;
+		else if (errno != EINTR) err = errno;
 	}
 
-	void *mb = mmap(0,totalSize,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
+	void *mb = MAP_FAILED;
+	if (err == 0) {
+		mb = mmap(0,totalSize,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
+		if (mb == MAP_FAILED) err = errno;
+	}
 	::close(fd);
-	if (mb == MAP_FAILED)
-		throw ErrNoException(THISLOCATION,errno);
+	if (err) {
+		unlink(tmpname.c_str());
+		throw ErrNoException(THISLOCATION,err);
+	}
 
 	buffer =reinterpret_cast<ProgInstanceBuffer *>(mb);
-
-
 	buffer->requestSize = requestMaxSize;
 	buffer->pid = getpid();
 	buffer->tid = pthread_self();
 	buffer->owner = this;
-	sem_init(&buffer->semAccess,1,1);
+	initShared(buffer->access);
+	initShared(buffer->lock);
 	sem_init(&buffer->semRequest,1,0);
 	sem_init(&buffer->semReply,1,0);
-	sem_init(&buffer->semInProgress,1,1);
+	buffer->state = stIdle;
+	buffer->canceled = false;
 	buffer->size = totalSize;
 	buffer->indaemon = false;
+
+	//publish the instance
+	if (rename(tmpname.c_str(),namea.c_str())) {
+		err = errno;
+		munmap(mb,totalSize);
+		buffer = 0;
+		unlink(tmpname.c_str());
+		throw ErrNoException(THISLOCATION,err);
+	}
+	lk.published();
 }
 
 natural ProgInstance::request(const void *req, natural reqsize, void *reply, natural replySize,natural timeout)
 {
 	if (buffer == 0) throw NotInitialized(THISLOCATION);
 	if (reqsize > buffer->requestSize) throw RequestTooLarge(THISLOCATION);
+	Timeout tm(timeout);
 	//wait for accessing the buffer
 	//there can be another client waiting for reply.
 	//check for timeout and throw exception, if operation takes long
-	if (!sem_wait(buffer->semAccess,timeout)) throw TimeoutException(THISLOCATION);
-	try {
-		//for placing request, we must also lock the buffer
-		//because there can be also server, which currently processing
-		//the request of client, which previously given up the waiting
-		if (!sem_wait(buffer->semInProgress,timeout))
+	if (!lockShared(buffer->access,tm)) throw TimeoutException(THISLOCATION);
+	SharedLock access(buffer->access,true);
+	while (true) {
+		{
+			SharedLock _(buffer->lock);
+			//reset any stored reply, we don't expect any yet
+			while (sem_trywait(&buffer->semReply) == 0) {}
+			//for placing request, we must own the buffer, because there can be also server,
+			//which currently processing the request of client, which previously given up the waiting
+			if (buffer->state != stAccepted) {
+				//now place the request data
+				memcpy(buffer->data, req, reqsize);
+				//set request size
+				buffer->curRequestSize = reqsize;
+				buffer->state = stPlaced;
+				//notify server, that request is available
+				sem_post(&buffer->semRequest);
+				break;
+			}
+		}
+		//wait until server finishes
+		if (!sem_wait(buffer->semReply,tm)) throw TimeoutException(THISLOCATION);
+	}
+	while (true) {
+		bool replied;
+		try {
+			//now, wait for reply
+			replied = sem_wait(buffer->semReply,tm);
+		} catch (...) {
+			giveUpRequest(buffer);
+			throw;
+		}
+		SharedLock _(buffer->lock);
+		//reply could arrive at the last moment
+		if (buffer->state == stReplied) {
+			buffer->state = stIdle;
+			//check reply size
+			natural result = buffer->curRequestSize;
+			if (result > replySize) throw ReplyTooLarge(THISLOCATION);
+			memcpy(reply,buffer->data, result);
+			return result;
+		}
+		if (!replied) {
+			//server, which did not accept the request, will not see it
+			if (buffer->state == stPlaced) buffer->state = stIdle;
 			throw TimeoutException(THISLOCATION);
-		//reset any stored requests, we did not placed any yet
-		while (sem_trywait(&buffer->semRequest) == 0) {}
-		//reset any stored reply, we don't expect any yet
-		while (sem_trywait(&buffer->semReply) == 0) {}
-		//all semaphores reset and no one has chance to change this
-		//now place the request data
-		memcpy(buffer->data, req, reqsize);
-		//set request size
-		buffer->curRequestSize = reqsize;
-		//release semInProgress, we don't need access the buffer anymore
-		sem_post(&buffer->semInProgress);
-		//notify server, that request is available
-		sem_post(&buffer->semRequest);
-		//now, wait for reply
-		if (!sem_wait(buffer->semReply,timeout))
-			//in case of timeout, we give up
-			//any semaphore state leaved, this is job of next client
-						throw TimeoutException(THISLOCATION);
-		//check reply size
-		if (buffer->curRequestSize > replySize) throw ReplyTooLarge(THISLOCATION);
-		//we can get data now, without need locking
-		//because server did not access the buffer until new request is placed
-		//and no-one can accesss the buffer now
-		memcpy(reply,buffer->data, buffer->curRequestSize);
-		natural result = buffer->curRequestSize;
-		//unlock the whole access to allow next client enter
-		sem_post(&buffer->semAccess);
-		//send result
-		return result;
-	} catch (...) {
-		//in case of any exception
-		//release access lock
-		sem_post(&buffer->semAccess);
-		//rethrow exception
-		throw;
+		}
 	}
-
 }
 
 natural ProgInstance::getRequestMaxSize()
@@ -322,11 +487,9 @@ natural ProgInstance::getRequestMaxSize()
 void *ProgInstance::acceptRequest()
 {
 	if (buffer == 0) return 0;
-	///test, whether there is request
-	if (sem_trywait(&buffer->semRequest)) return 0;
-	///if there is request, lock the buffer
-	::sem_wait(&buffer->semInProgress);
-	///not, we can work with the data
+	SharedLock _(buffer->lock);
+	if (!takeRequest(buffer)) return 0;
+	///now, we can work with the data
 	return buffer->data;
 }
 
@@ -334,20 +497,25 @@ void ProgInstance::sendReply(const void *data, natural sz)
 {
 	if (buffer == 0) throw NotInitialized(THISLOCATION);
 	if (sz > buffer->requestSize) throw ReplyTooLarge(THISLOCATION);
-	memcpy(buffer->data,data,sz);
-	buffer->curRequestSize = sz;
-	///unlock the buffer
-	sem_post(&buffer->semInProgress);
-	///trigger reply
-	sem_post(&buffer->semReply);
+	SharedLock _(buffer->lock);
+	if (buffer->state == stAccepted) memcpy(buffer->data,data,sz);
+	placeReply(buffer,sz);
 }
 
 void ProgInstance::close() {
 	if (buffer) {
-		bool cleanup = imOwner();
+		if (imOwner()) {
+			try {
+				StringA namea = name.getUtf8();
+				//nobody can be replacing the file while it is removed
+				InstanceFileLock lk(namea);
+				if (lk.lock(0) == getpid()) unlink(namea.c_str());
+			} catch (const Exception &) {
+				//file remains, but it belongs to nobody
+			}
+			buffer->owner = 0;
+		}
 		munmap(buffer,buffer->size);
-		if (cleanup)
-			unlink(name.getUtf8().c_str());
 		buffer = 0;
 	}
 
@@ -361,11 +529,8 @@ void ProgInstance::sendReply(natural sz)
 {
 	if (buffer == 0) throw NotInitialized(THISLOCATION);
 	if (sz > buffer->requestSize) throw ReplyTooLarge(THISLOCATION);
-	buffer->curRequestSize = sz;
-	//unlick the buffer
-	sem_post(&buffer->semInProgress);
-	//trigger reply
-	sem_post(&buffer->semReply);
+	SharedLock _(buffer->lock);
+	placeReply(buffer,sz);
 }
 
 
@@ -443,8 +608,9 @@ void ProgInstance::InterruptedWaitingException::message(ExceptionMsg &msg) const
 
 void ProgInstance::cancelWaitForRequest() {
 	if (buffer == 0) throw NotInitialized(THISLOCATION);
-	if (pthread_self() == buffer->tid) return;
-	request(0,0,0,0,0);
+	SharedLock _(buffer->lock);
+	buffer->canceled = true;
+	sem_post(&buffer->semRequest);
 }
 
 bool ProgInstance::inDaemonMode() const {
-- 
2.43.0


From d183b89e8da6208bba9417317029b1fddeb3e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:09 +0000
Subject: [PATCH 123/208] fix: ProgInstance::waitForTerminate waited twice as
 long as requested and a hanging service could not be stopped

---
 src/lightspeed/base/linux/proginstance.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/lightspeed/base/linux/proginstance.cpp b/src/lightspeed/base/linux/proginstance.cpp
index 48a0f13..a498832 100644
--- a/src/lightspeed/base/linux/proginstance.cpp
+++ b/src/lightspeed/base/linux/proginstance.cpp
@@ -586,20 +586,17 @@ void ProgInstance::terminate() {
 void ProgInstance::waitForTerminate(natural timeout) {
 	if (buffer == 0) throw NotInitialized(THISLOCATION);
 	pid_t pid = buffer->pid;
-	close();
 	waitForTerminateSt(timeout,pid);
+	close();
 }
 
 static void waitForTerminateSt(natural timeout, pid_t pid) {
-	natural waits = 0;
-	timeout *=2;
-	while (waits < timeout) {
-		if (kill(pid,0) != 0) return;
-		usleep(500000);
-		waits+=500;
+	Timeout tm(timeout);
+	while (isProcessRunning(pid)) {
+		if (tm.expired()) throw ProgInstance::TimeoutException(THISLOCATION);
+		natural remain = tm.getRemain().msecs();
+		usleep(remain < 100?(remain+1)*1000:100000);
 	}
-	if (kill(pid,0) != 0) return;
-	throw ProgInstance::TimeoutException(THISLOCATION);
 }
 
 void ProgInstance::InterruptedWaitingException::message(ExceptionMsg &msg) const {
-- 
2.43.0


From d57b12f14cbe4f12cdd35364a4e89b02bda63664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:09 +0000
Subject: [PATCH 124/208] fix: failed write during formatted text output
 terminated the program

---
 src/lightspeed/base/text/textOut.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textOut.h b/src/lightspeed/base/text/textOut.h
index 9085ca5..3806e69 100644
--- a/src/lightspeed/base/text/textOut.h
+++ b/src/lightspeed/base/text/textOut.h
@@ -23,7 +23,7 @@ namespace LightSpeed {
 			TextOutSink &operator <<(const T &a) {ref.fmt.operator<<(a);return *this;}
 
 			TextOutSink(X &ref):ref(ref) {}
-			~TextOutSink() {if (!isShared()) flush();}
+			~TextOutSink() noexcept(false) {if (!isShared()) flush();}
 		protected:
 			X &ref;
 			void flush();
-- 
2.43.0


From 531ebbf6bc4a5f14d00cba24be341ccdac793c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:09 +0000
Subject: [PATCH 125/208] fix: long error message of a command terminated the
 service

---
 src/lightspeed/base/framework/serviceapp.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/framework/serviceapp.cpp b/src/lightspeed/base/framework/serviceapp.cpp
index 96b43a2..f49d95f 100644
--- a/src/lightspeed/base/framework/serviceapp.cpp
+++ b/src/lightspeed/base/framework/serviceapp.cpp
@@ -347,8 +347,9 @@ namespace LightSpeed {
 			stop = command == ConstStrA(stopCmd);
 		}
 		catch(std::exception & e){
-			TextOut<SeqFileOutput> msg(out);
-			msg("%1") << e.what();
+			//text which doesn't fit to the reply is cut
+			const char *msg = e.what();
+			fakeout.write(msg, strlen(msg));
 			res = -1;
 		}
 		try {
-- 
2.43.0


From a4463a60562d7f8b80644cae25032001a6b7b26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 126/208] fix: context of the master fiber was not initialized,
 waking up a passive fiber terminated the program

---
 src/lightspeed/mt/linux/fiber.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/fiber.cpp b/src/lightspeed/mt/linux/fiber.cpp
index 2031906..a0a9526 100644
--- a/src/lightspeed/mt/linux/fiber.cpp
+++ b/src/lightspeed/mt/linux/fiber.cpp
@@ -175,10 +175,12 @@ namespace LightSpeed {
 	}
 
 	void Fiber::wakeUp(natural reason) throw() {
+		//passive fiber cannot be resumed
+		if (ctx == 0) return;
 		//retrieve current fiber
 		Fiber &cur = current();
 		//if resume to current fiber - do nothing
-		if (&cur == this || ctx == 0) return;
+		if (&cur == this) return;
 		//store caller
 		caller = &cur;
 		//set reason
@@ -268,6 +270,11 @@ namespace LightSpeed {
 		} else {
 			cur = new Fiber();
 			cur->ctx = (FiberContext *)malloc(sizeof(FiberContext));
+			if (cur->ctx == 0) {
+				delete cur;
+				throw OutOfMemoryException(THISLOCATION);
+			}
+			memset(cur->ctx,0,sizeof(FiberContext));
 			currentFiber.set(tbl,cur);
 			masterFiber.set(tbl,cur,&fiberCleanup);
 			cur->master = cur;
-- 
2.43.0


From eb0c3ad2688b8be6beeb253eb0b623da2fdb95e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:24 +0000
Subject: [PATCH 127/208] fix: starting of a fiber crashed, because its
 function was used as object of other type

---
 src/lightspeed/mt/linux/fiber.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/mt/linux/fiber.cpp b/src/lightspeed/mt/linux/fiber.cpp
index a0a9526..000de4d 100644
--- a/src/lightspeed/mt/linux/fiber.cpp
+++ b/src/lightspeed/mt/linux/fiber.cpp
@@ -50,7 +50,7 @@ namespace LightSpeed {
 		//space reserved for stack (continues outside of object)
 		natural stack[1];
 
-		static void fiberBootstrap(const FiberFunction *fn) throw();
+		static void fiberBootstrap(const IFiberFunction *fn) throw();
 		static void exitFiber();
 	};
 
@@ -79,13 +79,13 @@ namespace LightSpeed {
 	}
 
 	//bootstrap procedure - called to start the fiber
-	void FiberContext::fiberBootstrap(const FiberFunction *fn) throw() {
+	void FiberContext::fiberBootstrap(const IFiberFunction *fn) throw() {
 
 
-		natural sz = fn->ifc().getObjectSize();
+		natural sz = fn->getObjectSize();
 		void *buff = alloca(sz);
 		AllocInBuffer abuff(buff,sz);
-		AllocPointer<FiberFunction::Ifc> fnptr(fn->clone(abuff));
+		AllocPointer<IFiberFunction> fnptr(fn->clone(abuff));
 
 		try {
 
-- 
2.43.0


From fc3a0fa9d452890fe7e15a5aad75b0419f4590ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:18 +0000
Subject: [PATCH 128/208] fix: running fiber survived its destructor when it
 had an unreported exception, destructor hanged during stack unwind

---
 src/lightspeed/mt/linux/fiber.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/linux/fiber.cpp b/src/lightspeed/mt/linux/fiber.cpp
index 000de4d..6cb6df5 100644
--- a/src/lightspeed/mt/linux/fiber.cpp
+++ b/src/lightspeed/mt/linux/fiber.cpp
@@ -67,8 +67,8 @@ namespace LightSpeed {
 				//free context
 				free(ctx);
 			else {
-				//stop fiber, when it running
-				while (checkState()) {
+				//stop fiber, when it running (it is not possible to switch during stack unwind)
+				while (ctx != 0 && !std::uncaught_exception()) {
 					//stop should throw special exception
 					stop();
 				}
-- 
2.43.0


From 8cb16dc75976dd3650bbdf3c19f61b0e67659368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:18 +0000
Subject: [PATCH 129/208] fix: stopping a fiber which was waking up another
 fiber terminated the program

---
 src/lightspeed/mt/linux/fiber.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/fiber.cpp b/src/lightspeed/mt/linux/fiber.cpp
index 6cb6df5..46d58fd 100644
--- a/src/lightspeed/mt/linux/fiber.cpp
+++ b/src/lightspeed/mt/linux/fiber.cpp
@@ -186,7 +186,11 @@ namespace LightSpeed {
 		//set reason
 		ctx->wakeUpReason = reason;
 		//make fiber active
-		switchFibers(&cur,this);
+		try {
+			switchFibers(&cur,this);
+		} catch (StopFiberException &) {
+			//current fiber has been stopped meanwhile, exception is thrown by next sleep()
+		}
 	}
 
 	Fiber* Fiber::currentPtr() {
@@ -251,6 +255,7 @@ namespace LightSpeed {
 
 	natural Fiber::sleep() {
 		Fiber &cur = current();
+		if (cur.ctx->stopSignal) throw stopFiberException;
 		if (cur.caller == 0 || cur.caller->ctx == 0) {
 			if (cur.master == 0 || cur.master->ctx == 0)
 				throw FiberNotRunningException(THISLOCATION,0);
-- 
2.43.0


From ce0b111f4dad6809612642e79fea957c2cbc783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 130/208] fix: mail containing line with dot was cut, beginning
 of lines with dot was lost

---
 src/lightspeed/utils/sendmail.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/lightspeed/utils/sendmail.cpp b/src/lightspeed/utils/sendmail.cpp
index 1949442..f627399 100644
--- a/src/lightspeed/utils/sendmail.cpp
+++ b/src/lightspeed/utils/sendmail.cpp
@@ -99,21 +99,24 @@ void SendMail::send(SendMailConnection &stream, natural resetMode) {
 		state = "Error while sending message";
 		AutoArray<byte>::Iterator iter(buffer.getFwIter());
 		bool wascr = false;
+		bool linebeg = true;
 		while (iter.hasItems()) {
 			byte c = iter.getNext();
-			if (c =='\r') wascr = true;
-			else if (c == '\n') {
-				if (!wascr)
-					stream.write('\r');
-				else
-					wascr = false;
-			} else {
-				if (wascr)
-					stream.write('\n');
-				wascr = false;
+			if (wascr && c != '\n') {
+				stream.write('\n');
+				linebeg = true;
 			}
+			if (c == '\n' && !wascr)
+				stream.write('\r');
+			//dot at the beginning of line is doubled, server removes it
+			if (c == '.' && linebeg)
+				stream.write('.');
 			stream.write(c);
+			wascr = c == '\r';
+			linebeg = c == '\n';
 		}
+		if (wascr)
+			stream.write('\n');
 		netprint("\n.\n");
 		if (!netscan("250 %0\n%")) {
 				handleError(netscan,netprint, state);
-- 
2.43.0


From d3d91d3be2c4bd3a64a9bb816c7fba67eec10027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 131/208] fix: refused mail put the connection out of step,
 next mail could be reported as sent and was not

---
 src/lightspeed/utils/sendmail.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/sendmail.cpp b/src/lightspeed/utils/sendmail.cpp
index f627399..16c9956 100644
--- a/src/lightspeed/utils/sendmail.cpp
+++ b/src/lightspeed/utils/sendmail.cpp
@@ -51,8 +51,14 @@ SeqFileOutput SendMail::openMessage(bool create) {
 
 static void handleError(ScanTextA &netscan,PrintTextA &netprint, ConstStrA desc) {
 	if (netscan("%1\n%")) {
-		netprint("rset\n");
 		StringA msg = netscan[1].str();
+		try {
+			netprint("rset\n");
+			//reply must be read, otherwise it would be taken as reply to the next command
+			netscan("%0\n%");
+		} catch (Exception &) {
+			//server left, reason is in the message
+		}
 		throw SendMailError(THISLOCATION,desc,msg);
 	} else {
 		throw SendMailError(THISLOCATION,desc,"unexpected reply");
-- 
2.43.0


From 94e700f59b4a39853f082524a487251aaa295c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 132/208] fix: adding or inserting of a copy of own item to
 AutoArray used released memory

---
 src/lightspeed/base/containers/autoArray.h   |  6 ++++++
 src/lightspeed/base/containers/autoArray.tcc | 15 +++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/lightspeed/base/containers/autoArray.h b/src/lightspeed/base/containers/autoArray.h
index f99745d..5623ecc 100644
--- a/src/lightspeed/base/containers/autoArray.h
+++ b/src/lightspeed/base/containers/autoArray.h
@@ -297,6 +297,12 @@ namespace LightSpeed {
 
         
 
+        ///true, when the item is stored in this array (it can be moved during the operation)
+        bool isOwnItem(const T &item) const {
+        	const T *b = allocBk.getBase();
+        	return usedSz != 0 && &item >= b && &item < b + usedSz;
+        }
+
         void reserveAt(natural pos, natural count);
         void unreserveAt(natural pos, natural count);
 
diff --git a/src/lightspeed/base/containers/autoArray.tcc b/src/lightspeed/base/containers/autoArray.tcc
index abbf795..7e91a0e 100644
--- a/src/lightspeed/base/containers/autoArray.tcc
+++ b/src/lightspeed/base/containers/autoArray.tcc
@@ -82,6 +82,13 @@ void AutoArrayT<T,Alloc>::reserve(natural items) {
 
 template<typename T, typename Alloc>
 void AutoArrayT<T,Alloc>::add(const T &item) {
+	if (isOwnItem(item)) {
+		T copy(item);
+		addExtra(1);
+		new((void *)(allocBk.getBase()+usedSz)) T(copy);
+		++usedSz;
+		return;
+	}
 	addExtra(1);
 	new((void *)(allocBk.getBase()+usedSz)) T(item);
 	++usedSz;
@@ -91,6 +98,10 @@ void AutoArrayT<T,Alloc>::add(const T &item) {
 
 template<typename T, typename Alloc>
 void AutoArrayT<T,Alloc>::add(const T &item, natural count) {
+	if (isOwnItem(item)) {
+		T copy(item);
+		return add(copy,count);
+	}
 	addExtra(count);
 	for (natural i = 0; i < count; i++) {
     	new((void *)(allocBk.getBase()+usedSz)) T(item);
@@ -125,6 +136,10 @@ void AutoArrayT<T,Alloc>::insert(natural at, const T &init, natural count) {
 		throwRangeException_FromTo<natural>(THISLOCATION,0,usedSz,at);
 	if (at == usedSz)
 		return add(init, count);
+	if (isOwnItem(init)) {
+		T copy(init);
+		return insert(at,copy,count);
+	}
 	WriteInsertIter writ(*this,at,count);
 	while (count--) writ.write(init);
 }
-- 
2.43.0


From c6b1e61126004f9ca9d06cf2036b0d71bfc7a19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 133/208] fix: AutoArray assigned to itself lost its items

---
 src/lightspeed/base/containers/autoArray.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/autoArray.tcc b/src/lightspeed/base/containers/autoArray.tcc
index 7e91a0e..95a5a0f 100644
--- a/src/lightspeed/base/containers/autoArray.tcc
+++ b/src/lightspeed/base/containers/autoArray.tcc
@@ -241,6 +241,7 @@ AutoArrayT<T,Alloc>::AutoArrayT(const AutoArrayT &arr)
 
 template<typename T, typename Alloc>
 AutoArrayT<T,Alloc> &AutoArrayT<T,Alloc>::operator=(const AutoArrayT &arr) {
+    if (&arr == this) return *this;
     clear();
     natural sz = arr.length();
     if (sz > 0) {
-- 
2.43.0


From aee68142f4fe492aeb7c401794fef667d6064912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:35 +0000
Subject: [PATCH 134/208] fix: inserting of zero items to AutoArray destroyed
 items after the position

---
 src/lightspeed/base/objmanip.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/objmanip.h b/src/lightspeed/base/objmanip.h
index 1c4efca..db9b5ce 100644
--- a/src/lightspeed/base/objmanip.h
+++ b/src/lightspeed/base/objmanip.h
@@ -183,6 +183,8 @@ namespace LightSpeed {
 		static T *  move(T *src, natural count, void *target) {
 
 			T *tpos = reinterpret_cast<T *>(target);
+			//nothing to do when nothing moves, objects would destroy itself
+			if (tpos == src) return tpos;
 			//initialize rollback movement
 			MoveRollback r(src,tpos,count);
 
-- 
2.43.0


From c89bcbe513b10c313f84218d64996ce599d64d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:04 +0000
Subject: [PATCH 135/208] fix: SmallAlloc released memory of other allocator by
 delete

---
 src/lightspeed/base/memory/smallAlloc.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/lightspeed/base/memory/smallAlloc.h b/src/lightspeed/base/memory/smallAlloc.h
index 9fd4007..849c231 100644
--- a/src/lightspeed/base/memory/smallAlloc.h
+++ b/src/lightspeed/base/memory/smallAlloc.h
@@ -60,9 +60,8 @@ namespace LightSpeed {
 
 			bool move(AllocatedMemory &other) {
 				if (isLocal()) return false;
-				if (!other.isLocal()) {
-					operator delete(other.ptr);
-				}
+				if (&other == this) return true;
+				other.freeMem();
 				other.ptr = ptr;
 				other.size = size;
 				other.alloc = alloc;
@@ -84,7 +83,7 @@ namespace LightSpeed {
 			}
 
 			AllocatedMemory(const SmallAlloc<cnt> &alloc):alloc(alloc.alloc) {
-
+				allocMem(0);
 			}
 
 
@@ -93,10 +92,7 @@ namespace LightSpeed {
 			}
 
 			~AllocatedMemory() {
-				if (!isLocal())  {
-					if (alloc) alloc->dealloc(ptr,size*sizeof(T));
-					else operator delete(ptr);
-				}			
+				freeMem();
 			}
 
 			bool expand(natural) {return false;}
@@ -118,6 +114,13 @@ namespace LightSpeed {
 			natural size;
 			mutable byte buffer[cnt * sizeof(T)];
 
+			void freeMem() {
+				if (!isLocal())  {
+					if (alloc) alloc->dealloc(ptr,size*sizeof(T));
+					else operator delete(ptr);
+				}
+			}
+
 			bool isLocal() const {return buffer == reinterpret_cast<const byte *>(ptr);}
 
 			void allocMem(natural count) {
-- 
2.43.0


From fb01cbe235895b6355c7b59484ae3156a5f04994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 136/208] fix: copy of LinkedList had items in reversed order

---
 src/lightspeed/base/containers/linkedList.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index 1d405ac..49c3c9b 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -106,8 +106,13 @@ namespace LightSpeed {
 		 * @param other source instance
 		 */
 		LinkedList(const LinkedList &other):first(0),last(0),fact(other.fact) {
-			for (Iterator i = other.getFwIter();i.hasItems();)
-				insertFirst(i.getNext());
+			try {
+				for (Iterator i = other.getFwIter();i.hasItems();)
+					add(i.getNext());
+			} catch (...) {
+				clear();
+				throw;
+			}
 		}
 
 		LinkedList(MoveConstruct, LinkedList &other)
-- 
2.43.0


From e97d2977b3ae1b4c589a19f9d9597597892efdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 137/208] fix: swapped LinkedLists returned items to allocator
 of the other list

---
 src/lightspeed/base/containers/linkedList.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index 49c3c9b..9089ca4 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -125,6 +125,7 @@ namespace LightSpeed {
 		void swap(LinkedList &other) {
 			std::swap(first,other.first);
 			std::swap(last,other.last);
+			std::swap(fact,other.fact);
 		}
 
 		///assignment operator
-- 
2.43.0


From a887ef60f526766ac943df82f2fd6c55dac84d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 138/208] fix: LinkedList assigned to itself lost its items

---
 src/lightspeed/base/containers/linkedList.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index 9089ca4..684ef4a 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -130,6 +130,7 @@ namespace LightSpeed {
 
 		///assignment operator
 		LinkedList &operator=(const LinkedList &other) {
+			if (&other == this) return *this;
 			clear();
 			for (Iterator i = other.getFwIter();i.hasItems();)
 				add(i.getNext());
-- 
2.43.0


From 96608539eab07d697ba5c1c75b6dde4e17c14bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 139/208] fix: LinkedList lost its last item after erase and
 erased other item when position was returned by insert

---
 src/lightspeed/base/containers/linkedList.h | 35 +++++++++++++++------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index 684ef4a..407c4bd 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -216,10 +216,13 @@ namespace LightSpeed {
 		 */
 		Iterator insertBefore(const Iterator &iter, ListItem *item) {
 			if (!iter.hasItems()) throwIteratorNoMoreItems(THISLOCATION,typeid(T));
-			if (iter.prev == 0) return insertFirst(item);
-
-			item->next = const_cast<ListItem *>(iter.cur);
-			const_cast<ListItem *>(iter.prev)->next = item;
+			const ListItem *prev = findPrev(iter);
+			if (prev == 0) {
+				insertFirst(item);
+			} else {
+				item->next = const_cast<ListItem *>(iter.cur);
+				const_cast<ListItem *>(prev)->next = item;
+			}
 			const_cast<Iterator &>(iter).prev = item;
 			return Iterator(item);
 		}
@@ -256,21 +259,25 @@ namespace LightSpeed {
 
 		///Remove node refered by the iterator and returns it
 		ListItem *remove(const Iterator &iter) {
-			if (iter.prev == 0) return removeFirst();
-			ListItem *prv = const_cast<ListItem *>(iter.prev);
+			if (!iter.hasItems()) return 0;
+			const ListItem *prev = findPrev(iter);
+			if (prev == 0) return removeFirst();
+			ListItem *prv = const_cast<ListItem *>(prev);
 			ListItem *ret = const_cast<ListItem *>(iter.cur);
 			prv->next = ret->next;
+			if (last == ret) last = prv;
 			ret->next = 0;
 			return ret;
 		}
 
 		///Erases node refered by the iterator and returns it
 		Iterator erase(const Iterator &iter) {
+			const ListItem *prev = iter.hasItems()?findPrev(iter):0;
 			ListItem *rem = remove(iter);
 			if (rem) {
 				fact->destroyInstance(rem);
-				if (iter.prev == 0) return getFwIter();
-				else return Iterator(iter.prev->next,iter.prev);
+				if (prev == 0) return getFwIter();
+				else return Iterator(prev->next,prev);
 			}
 			return Iterator(rem);
 		}
@@ -284,7 +291,7 @@ namespace LightSpeed {
 
 		///Retrieves last item
 		const T &getLast() const {
-			if (last) return first->value;
+			if (last) return last->value;
 			else throwIteratorNoMoreItems(THISLOCATION,typeid(T));
 			throw;
 		}
@@ -364,6 +371,16 @@ namespace LightSpeed {
 		ListItem *first;
 		ListItem *last;
 
+		///finds item before the item referred by the iterator, returns null for the first item
+		/** iterator doesn't need to know previous item, for example when it refers newly inserted item */
+		const ListItem *findPrev(const Iterator &iter) const {
+			if (iter.cur == first) return 0;
+			if (iter.prev && iter.prev->next == iter.cur) return iter.prev;
+			const ListItem *x = first;
+			while (x && x->next != iter.cur) x = x->next;
+			return x;
+		}
+
 		NodeAlloc fact;
 
 
-- 
2.43.0


From eac231ce809a0b2df0c0065ed7cfeeb5b09f546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 140/208] fix: copy of Deque had uninitialized items

---
 src/lightspeed/base/containers/deque.h   |  1 +
 src/lightspeed/base/containers/deque.tcc | 16 ++++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/lightspeed/base/containers/deque.h b/src/lightspeed/base/containers/deque.h
index e25ad50..1984a42 100644
--- a/src/lightspeed/base/containers/deque.h
+++ b/src/lightspeed/base/containers/deque.h
@@ -28,6 +28,7 @@ public:
 
 	Deque();
 	Deque(const Alloc &alloc);
+	Deque(const Deque &other);
 	~Deque();
 
 	bool empty() const;
diff --git a/src/lightspeed/base/containers/deque.tcc b/src/lightspeed/base/containers/deque.tcc
index 2b56a32..0b23a9c 100644
--- a/src/lightspeed/base/containers/deque.tcc
+++ b/src/lightspeed/base/containers/deque.tcc
@@ -32,6 +32,22 @@ namespace LightSpeed {
 	}
 
 
+	template<typename T, typename Alloc /*= StdAlloc*/>
+	Deque<T, Alloc>::Deque(const Deque &other)
+		:memBlock(other.memBlock,other.length()), head(0), tail(0)
+	{
+		try {
+			for (natural i = 0, cnt = other.length(); i < cnt; i++) {
+				new((void *)(memBlock.getBase() + i)) T(other.at(i));
+				head = i + 1;
+			}
+		} catch (...) {
+			clear();
+			throw;
+		}
+	}
+
+
 	template<typename T, typename Alloc /*= StdAlloc*/>
 	typename Deque<T, Alloc>::Ref Deque<T, Alloc>::set(natural index, ConstRef val)
 	{
-- 
2.43.0


From 6dbe771d0434503aa1f447a5d3a09bcaaad3d47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 141/208] fix: pushing of a copy of own item to Deque used
 released memory

---
 src/lightspeed/base/containers/deque.tcc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lightspeed/base/containers/deque.tcc b/src/lightspeed/base/containers/deque.tcc
index 0b23a9c..55d39e8 100644
--- a/src/lightspeed/base/containers/deque.tcc
+++ b/src/lightspeed/base/containers/deque.tcc
@@ -174,12 +174,24 @@ namespace LightSpeed {
 	template<typename T, typename Alloc /*= StdAlloc*/>
 	void Deque<T, Alloc>::pushFront(ConstRef val)
 	{
+		if (isFull() && !empty()) {
+			//val can be an item of this container, which is going to be moved
+			T copy(val);
+			pushFront(Constructor1<T,T>(copy));
+			return;
+		}
 		pushFront(Constructor1<T,T>(val));
 	}
 
 	template<typename T, typename Alloc /*= StdAlloc*/>
 	void Deque<T, Alloc>::pushBack(ConstRef val)
 	{
+		if (isFull() && !empty()) {
+			//val can be an item of this container, which is going to be moved
+			T copy(val);
+			pushBack(Constructor1<T,T>(copy));
+			return;
+		}
 		pushBack(Constructor1<T,T>(val));
 	}
 
-- 
2.43.0


From 495e0776bba813fdf4be22ce7d30f2dc73902927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 142/208] fix: PriorityQueue::pop removed as many items as it
 should keep

---
 src/lightspeed/base/containers/priorityQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/priorityQueue.h b/src/lightspeed/base/containers/priorityQueue.h
index 1848cfd..f83bc57 100644
--- a/src/lightspeed/base/containers/priorityQueue.h
+++ b/src/lightspeed/base/containers/priorityQueue.h
@@ -30,7 +30,7 @@ namespace LightSpeed {
 
 		const T &top() const { return items[0]; }
 		T &top() { return items(0); }
-		void pop() { heap.pop(); items.trunc(heap.getSize()); }
+		void pop() { if (heap.pop()) items.trunc(1); }
 		void clear() {heap.clear();items.clear();}
 		bool empty() const {return items.empty();}
 
-- 
2.43.0


From 7df1283683c1e76eaf039dceee31c4121ad4bead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:15 +0000
Subject: [PATCH 143/208] fix: Map and Set assigned to itself lost its items,
 failed copy leaked memory

---
 src/lightspeed/base/containers/avltree.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/avltree.h b/src/lightspeed/base/containers/avltree.h
index e3784ae..9b11dcc 100644
--- a/src/lightspeed/base/containers/avltree.h
+++ b/src/lightspeed/base/containers/avltree.h
@@ -124,10 +124,16 @@ namespace LightSpeed {
 			 allocFactory(other.allocFactory),
 			 cmpOper(other.cmpOper),
 			 count(0) {
-			insert(other);
+			try {
+				insert(other);
+			} catch (...) {
+				clear();
+				throw;
+			}
 		}
 
 		AVLTree &operator=(const AVLTree &other) {
+			if (&other == this) return *this;
 			clear();
 			insert(other);
 			return *this;
-- 
2.43.0


From a3a4e0faffc0ac3af7a3fb5943b71fe38f3346bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:24 +0000
Subject: [PATCH 144/208] fix: iterator returned by insert to Map or Set
 visited items twice when the tree was balanced

---
 src/lightspeed/base/containers/avltree.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lightspeed/base/containers/avltree.h b/src/lightspeed/base/containers/avltree.h
index 9b11dcc..2e6f72f 100644
--- a/src/lightspeed/base/containers/avltree.h
+++ b/src/lightspeed/base/containers/avltree.h
@@ -209,17 +209,17 @@ namespace LightSpeed {
 		 * @return iterator, where item has been placed
 		 */
 		Iterator insert(Node *nd, bool *exist = 0) {
-			typename Node::Iterator itr;
 			bool done = false;
-			Node *newroot = tree->insert(NodeCmp(cmpOper),nd,done,&itr);
+			Node *newroot = tree->insert(NodeCmp(cmpOper),nd,done);
 			if (newroot == 0) {
-				if (*exist) *exist = true;
+				if (exist) *exist = true;
 			} else {
 				tree = newroot;
 				count++;
-				if (*exist) *exist = false;
+				if (exist) *exist = false;
 			}
-			return Iterator(itr);
+			//path must be searched after the tree has been balanced
+			return Iterator(cmpOper,tree,nd,Direction::forward);
 		}
 
 
-- 
2.43.0


From 89b974402c426a5c87695b0552a46b21e48d6cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:22 +0000
Subject: [PATCH 145/208] fix: failed insert to MultiMap left a key without
 values there, iterating over it threw an exception

---
 src/lightspeed/base/containers/map.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/map.h b/src/lightspeed/base/containers/map.h
index 122bbfc..37271ff 100644
--- a/src/lightspeed/base/containers/map.h
+++ b/src/lightspeed/base/containers/map.h
@@ -514,8 +514,14 @@ namespace LightSpeed {
 		 */
 		Iterator insert(const Key &key, const Value &value) {
 			MapIter x = Super::insert(key,valueSrc);
-			ListIter y = x.peek().value.add(value);
-			return Iterator(x,y);
+			try {
+				ListIter y = x.peek().value.add(value);
+				return Iterator(x,y);
+			} catch (...) {
+				//key without values must not stay in the map
+				if (x.peek().value.empty()) Super::erase(x);
+				throw;
+			}
 		}
 
 		///Erase the value
-- 
2.43.0


From d03d42b6752211af0a6114ff84756a880e60012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:36 +0000
Subject: [PATCH 146/208] fix: non-empty part of an array expression reported
 that it is empty and vice versa

---
 src/lightspeed/base/containers/arrayExpr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/arrayExpr.h b/src/lightspeed/base/containers/arrayExpr.h
index 1507f65..5c2c8bc 100644
--- a/src/lightspeed/base/containers/arrayExpr.h
+++ b/src/lightspeed/base/containers/arrayExpr.h
@@ -153,7 +153,7 @@ namespace LightSpeed {
 		}
 	
 		bool empty() const {
-			return len > 0;
+			return len == 0;
 		}
 
 		ArrRef a;
-- 
2.43.0


From 22ba8ec83a93c102087492ad7c2fdb620e57b089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:36 +0000
Subject: [PATCH 147/208] fix: part of concatenated arrays which did not start
 at the first item lost its end or read out of the array

---
 src/lightspeed/base/containers/arrayExpr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/arrayExpr.h b/src/lightspeed/base/containers/arrayExpr.h
index 5c2c8bc..926a1a0 100644
--- a/src/lightspeed/base/containers/arrayExpr.h
+++ b/src/lightspeed/base/containers/arrayExpr.h
@@ -101,7 +101,7 @@ namespace LightSpeed {
 			else if (from + count <= l) return a._invoke().forEach(functor,from,count);
 			else return (
 				a._invoke().forEach(functor,from,l-from) 
-								|| b._invoke().forEach(functor,0,count - l));
+								|| b._invoke().forEach(functor,0,count - (l-from)));
 
 		}
 		
-- 
2.43.0


From a506893ad149da8a2c2feb1df6653de9a0a46ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:36 +0000
Subject: [PATCH 148/208] fix: mid() of an array with unlimited count was out
 of the array

---
 src/lightspeed/base/containers/arrayt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index a9beae9..e1ece54 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -261,13 +261,13 @@ public:
 	Mid mid(natural pos, natural count)  {
 		natural l = this->_invoke().length();
 		if (pos >= l) {pos = 0;count = 0;}
-		else if (pos + count > l) count = l - pos;
+		else if (count > l - pos) count = l - pos;
 		return Mid(this->_invoke(),pos,count);
 	}
 	ConstMid mid(natural pos, natural count) const {
 		natural l = this->_invoke().length();
 		if (pos >= l) {pos = 0;count = 0;}
-		else if (pos + count > l) count = l - pos;
+		else if (count > l - pos) count = l - pos;
 		return ConstMid(this->_invoke(),pos,count);
 	}
 	Mid head(natural count) {
-- 
2.43.0


From 215617e70d04dc17478312fb462555e6e56a6842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:36 +0000
Subject: [PATCH 149/208] fix: string created by createBuffer was one character
 shorter and without terminating zero

---
 src/lightspeed/base/containers/stringBase.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/containers/stringBase.h b/src/lightspeed/base/containers/stringBase.h
index f1b916a..d27e142 100644
--- a/src/lightspeed/base/containers/stringBase.h
+++ b/src/lightspeed/base/containers/stringBase.h
@@ -299,14 +299,19 @@ namespace LightSpeed {
 		}
 
 		T *createBuffer(natural count) {
-			WriteIterator iter = createBufferIter(count);
-			strBuff->init(count);
+			{
+				//iterator writes terminating zero and stops to share the buffer
+				WriteIterator iter = createBufferIter(count);
+				strBuff->init(count);
+			}
 			return data();
 		}
 
 		T *createBuffer(natural count, IRuntimeAlloc &alloc) {
-			WriteIterator iter = createBufferIter(count,alloc);
-			strBuff->init(count);
+			{
+				WriteIterator iter = createBufferIter(count,alloc);
+				strBuff->init(count);
+			}
 			return data();
 		}
 
-- 
2.43.0


From 344235f420e294405e16c37f3c9b0fd8c5ceff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:36 +0000
Subject: [PATCH 150/208] fix: operator <= of string and text was operator >=

---
 src/lightspeed/base/containers/constStr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/constStr.h b/src/lightspeed/base/containers/constStr.h
index 4802116..1139907 100644
--- a/src/lightspeed/base/containers/constStr.h
+++ b/src/lightspeed/base/containers/constStr.h
@@ -225,7 +225,7 @@ namespace LightSpeed {
 	template<typename T, int n>
 	inline bool operator>=(const ConstStringT<T> &c, const T (&str)[n]) {return c >= makeCStr(str); }
 	template<typename T, int n>
-	inline bool operator<=(const ConstStringT<T> &c, const T (&str)[n]) {return c >= makeCStr(str); }
+	inline bool operator<=(const ConstStringT<T> &c, const T (&str)[n]) {return c <= makeCStr(str); }
 	template<typename T, int n>
 	inline bool operator>>(const ConstStringT<T> &c, const T (&str)[n]) {return StrCmpCI<T>()(c,makeCStr(str)) == cmpResultGreater; }
 	template<typename T, int n>
-- 
2.43.0


From 3d37c1774218181eb0430a450d5e54fbfb6d149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:13 +0000
Subject: [PATCH 151/208] fix: characters U+07FF and U+FFFF were written as
 invalid (overlong) UTF-8

---
 src/lightspeed/base/streams/utf.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lightspeed/base/streams/utf.cpp b/src/lightspeed/base/streams/utf.cpp
index 9984d42..fb51f12 100644
--- a/src/lightspeed/base/streams/utf.cpp
+++ b/src/lightspeed/base/streams/utf.cpp
@@ -89,19 +89,19 @@ namespace LightSpeed {
      if (c < 128) {
              fbyte = (char)c;
              parts = 0;
-     } else if (c < 0x7ff) { // xx011 1111 1111
+     } else if (c < 0x800) { // xx011 1111 1111
          fbyte = (char)(c >> 6) | 0xC0;
          parts = 1;
-     } else if (c < 0xffff) {
+     } else if (c < 0x10000) {
          fbyte  = (char)(c >> 12) | 0xE0;
          parts = 2;
-     } else if (c < 0x1fffff) {
+     } else if (c < 0x200000) {
          fbyte = (char)(c >> 18) | 0xF0;
          parts = 3;
-     } else if (c < 0x3ffffff) {
+     } else if (c < 0x4000000) {
          fbyte = (char)(c >> 24) | 0xF8;
          parts = 4;
-     } else if (c < 0x7ffffff) {
+     } else if (c < 0x80000000) {
          fbyte = (char)(c >> 30) | 0xFC;
          parts = 5;
      } else  {
@@ -200,19 +200,19 @@ void WideToUtf8Convert::write(const wchar_t& item) {
     if (c < 128) {
             fbyte = (char)c;
             parts = 0;
-    } else if (c < 0x7ff) { // xx011 1111 1111
+    } else if (c < 0x800) { // xx011 1111 1111
         fbyte = (char)(c >> 6) | 0xC0;
         parts = 1;
-    } else if (c < 0xffff) {
+    } else if (c < 0x10000) {
         fbyte  = (char)(c >> 12) | 0xE0;
         parts = 2;
-    } else if (c < 0x1fffff) {
+    } else if (c < 0x200000) {
         fbyte = (char)(c >> 18) | 0xF0;
         parts = 3;
-    } else if (c < 0x3ffffff) {
+    } else if (c < 0x4000000) {
         fbyte = (char)(c >> 24) | 0xF8;
         parts = 4;
-    } else if (c < 0x7ffffff) {
+    } else if (c < 0x80000000) {
         fbyte = (char)(c >> 30) | 0xFC;
         parts = 5;
     } else  {
-- 
2.43.0


From 8fc35130b616b54a923e943840a57445e624b71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:13 +0000
Subject: [PATCH 152/208] fix: repeating of an empty array terminated the
 program

---
 src/lightspeed/base/containers/arrayExpr.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/arrayExpr.h b/src/lightspeed/base/containers/arrayExpr.h
index 926a1a0..477ea41 100644
--- a/src/lightspeed/base/containers/arrayExpr.h
+++ b/src/lightspeed/base/containers/arrayExpr.h
@@ -257,6 +257,7 @@ namespace LightSpeed {
 
 		template<typename Fn>
 		bool forEach(Fn functor, natural from, natural count) const {
+			if (count == 0) return false;
 			natural l = a.length(), k = from % l;
 			while (k + count > l) {
 				if (a.forEach(functor,k,l-k)) return true;
-- 
2.43.0


From a27a765226f2bb03c7bb1d112333e189a586d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:01 +0000
Subject: [PATCH 153/208] fix: ClusterAlloc gave the same memory twice when a
 block was released through its owner

---
 src/lightspeed/base/memory/clusterAlloc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/memory/clusterAlloc.cpp b/src/lightspeed/base/memory/clusterAlloc.cpp
index c018337..beef146 100644
--- a/src/lightspeed/base/memory/clusterAlloc.cpp
+++ b/src/lightspeed/base/memory/clusterAlloc.cpp
@@ -59,7 +59,7 @@ void AllocCluster::dealloc( void *ptr, natural sz )
 	natural bksize = objSize2bksize(sz);
 	if (!isMyPtr(ptr,bksize)) throw InvalidPointerException(THISLOCATION,ptr);
 	bool wasFull = isFull();
-	makeDealloc(ptr,sz);
+	makeDealloc(ptr,bksize);
 	if (wasFull || isEmpty())
 		master->onDealloc(this,wasFull);
 }
-- 
2.43.0


From 050d555b3e6ffce680aaedb2dc52c1f31f7491dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:57 +0000
Subject: [PATCH 154/208] fix: reading a block through a converter failed when
 the converter had already taken the last item

---
 src/lightspeed/base/iter/iterConv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/iter/iterConv.h b/src/lightspeed/base/iter/iterConv.h
index 56103e4..a5d98f7 100644
--- a/src/lightspeed/base/iter/iterConv.h
+++ b/src/lightspeed/base/iter/iterConv.h
@@ -409,7 +409,6 @@ inline natural ConverterBase<From, To, Impl>::blockRead(Iter& source, FlatArray&
 	for (natural i = 0; i < avail; i++) {
 		while (!this->hasItems) {
 			if (this->eolb) return i;
-			Super::write(source.getNext());
 			if (!source.hasItems()) {
 				Super::flush();
 				while (i < avail && this->hasItems) {
@@ -418,6 +417,7 @@ inline natural ConverterBase<From, To, Impl>::blockRead(Iter& source, FlatArray&
 				}
 				return i;
 			}
+			Super::write(source.getNext());
 		}
 		target[i] = Super::getNext();
 	}
-- 
2.43.0


From e8804494422a4b2ef48ebb661d31969d296ef442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:57 +0000
Subject: [PATCH 155/208] fix: base85 encoder wrote garbage when the stream
 ended on a group of four bytes

---
 src/lightspeed/utils/base85.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/base85.cpp b/src/lightspeed/utils/base85.cpp
index 50f0006..13582b5 100644
--- a/src/lightspeed/utils/base85.cpp
+++ b/src/lightspeed/utils/base85.cpp
@@ -102,10 +102,10 @@ void ByteToBase85Convert::flush() {
 
 		for (natural i = 0; i < remain; i++) write(0);
 		maxreadpos -= remain;
+		this->hasItems = true;
 	}
 	this->eolb = true;
 	this->needItems = false;
-	this->hasItems = true;
 }
 
 Base85ToByteConvert::Base85ToByteConvert()
-- 
2.43.0


From 2dafc5abe031d4649e6e94667576e5ab4487b303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:44 +0000
Subject: [PATCH 156/208] fix: base32 and base64 decoders asked for more
 characters while the group was full

---
 src/lightspeed/utils/base32.cpp | 1 +
 src/lightspeed/utils/base64.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/lightspeed/utils/base32.cpp b/src/lightspeed/utils/base32.cpp
index 8aa8c2b..ddd3293 100644
--- a/src/lightspeed/utils/base32.cpp
+++ b/src/lightspeed/utils/base32.cpp
@@ -190,6 +190,7 @@ void Base32ToByteConvert::write(const char &item) {
 					break;
 			case 7: outBytes[4] |= table[x];      //GGGHHHHH
 					++wrpos;
+					needItems = false;
 					break;
 			default:throwIteratorNoMoreItems(THISLOCATION,typeid(*this));
 					 break;
diff --git a/src/lightspeed/utils/base64.cpp b/src/lightspeed/utils/base64.cpp
index db15c56..37e50a9 100644
--- a/src/lightspeed/utils/base64.cpp
+++ b/src/lightspeed/utils/base64.cpp
@@ -202,6 +202,7 @@ void Base64ToByteConvert::write(const char &item) {
 					break;
 			case 3: outBytes[2] |= table[x];
 					++wrpos;
+					needItems = false;
 					break;
 			default:throwIteratorNoMoreItems(THISLOCATION,typeid(*this));
 					 break;
-- 
2.43.0


From 323fec0f018c45c44dfab40b5cf8a2973ff16556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:48 +0000
Subject: [PATCH 157/208] fix: base32 encoder without padding lost the last
 character

---
 src/lightspeed/utils/base32.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/base32.cpp b/src/lightspeed/utils/base32.cpp
index ddd3293..02630f6 100644
--- a/src/lightspeed/utils/base32.cpp
+++ b/src/lightspeed/utils/base32.cpp
@@ -41,7 +41,8 @@ const char &ByteToBase32Convert::getNext() {
 		needItems = true;
 		hasItems = false;
 	} else {
-		hasItems = readpos < wrbyte*8/5;
+		//final group contains one more character, which is not complete
+		hasItems = readpos < (wrbyte*8+(this->eolb?4:0))/5;
 	}
 	return out;
 }
@@ -120,7 +121,7 @@ void ByteToBase32Convert::flush() {
 	}
 
 	//unlock hasItems only if there are chars to read.
-	hasItems = readpos < wrbyte*8/5;
+	hasItems = readpos < (wrbyte*8+4)/5;
 }
 
 Base32ToByteConvert::Base32ToByteConvert()
-- 
2.43.0


From 4e2cb1612769eb19676b0726f14ff95c9bb650b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:48 +0000
Subject: [PATCH 158/208] fix: base32 and base64 converters mixed an incomplete
 last group with the next stream

---
 src/lightspeed/utils/base32.cpp | 13 +++++++++++--
 src/lightspeed/utils/base32.h   |  2 ++
 src/lightspeed/utils/base64.cpp | 13 +++++++++++--
 src/lightspeed/utils/base64.h   |  2 ++
 4 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/utils/base32.cpp b/src/lightspeed/utils/base32.cpp
index 02630f6..f7ef850 100644
--- a/src/lightspeed/utils/base32.cpp
+++ b/src/lightspeed/utils/base32.cpp
@@ -35,7 +35,7 @@ ByteToBase32Convert::ByteToBase32Convert(ConstStrA table, char paddingChar)
 const char &ByteToBase32Convert::getNext() {
 	const char &out = outchars[readpos];
 	readpos = readpos+1;
-	if (readpos == 8) {
+	if (readpos == 8 || (this->eolb && readpos == (wrbyte*8+4)/5)) {
 		readpos = 0;
 		wrbyte = 0;
 		needItems = true;
@@ -54,6 +54,7 @@ void ByteToBase32Convert::write(const byte &item) {
 	//if eolb is active - reset state of convertor when new item is written
 	if (this->eolb) {
 		this->eolb = false;
+		needItems = true;
 		wrbyte = 0;
 		readpos = 0;
 	}
@@ -144,6 +145,7 @@ const byte &Base32ToByteConvert::getNext() {
 		hasItems = false;
 	} else {
 		hasItems = readpos < wrpos * 5/8;
+		if (this->eolb && !hasItems) restart();
 	}
 	return out;
 }
@@ -154,7 +156,7 @@ const byte &Base32ToByteConvert::peek() const {
 void Base32ToByteConvert::write(const char &item) {
 	if (item == padChar) {
 		//toto je spravne - pouze cely bajt muze byt precten a znaky navic jsou jen do padding
-		this->eolb = true;
+		flush();
 	} else {
 		//if eolb is active - reset state of convertor when new item is written
 		if (this->eolb) {
@@ -201,6 +203,13 @@ void Base32ToByteConvert::write(const char &item) {
 }
 void Base32ToByteConvert::flush() {
 	this->eolb = true;
+	if (!hasItems) restart();
+}
+void Base32ToByteConvert::restart() {
+	//stream is complete, incomplete group must not be mixed with the next one
+	readpos = 0;
+	wrpos = 0;
+	needItems = true;
 }
 void Base32ToByteConvert::initTable(ConstStrA t, bool caseSensitive = false) {
 	//for performance reason, do not fill other items, it expects valid format if base64
diff --git a/src/lightspeed/utils/base32.h b/src/lightspeed/utils/base32.h
index 4c1549c..c48bb2f 100644
--- a/src/lightspeed/utils/base32.h
+++ b/src/lightspeed/utils/base32.h
@@ -104,6 +104,8 @@ namespace LightSpeed {
 		byte readpos;
 		byte wrpos;
 
+		void restart();
+
 		void initTable(ConstStrA table, bool caseSensitive );
 	};
 
diff --git a/src/lightspeed/utils/base64.cpp b/src/lightspeed/utils/base64.cpp
index 37e50a9..69e6f66 100644
--- a/src/lightspeed/utils/base64.cpp
+++ b/src/lightspeed/utils/base64.cpp
@@ -37,7 +37,7 @@ ByteToBase64Convert::ByteToBase64Convert(ConstStrA table, char paddingChar)
 const char &ByteToBase64Convert::getNext() {
 	const char &out = outchars[readpos];
 	readpos = readpos+1;
-	if (readpos == 4) {
+	if (readpos == 4 || (this->eolb && readpos == wrbyte)) {
 		readpos = 0;
 		wrbyte = 0;
 		needItems = true;
@@ -55,6 +55,7 @@ void ByteToBase64Convert::write(const byte &item) {
 	//if eolb is active - reset state of convertor when new item is written
 	if (this->eolb) {
 		this->eolb = false;
+		needItems = true;
 		wrbyte = 0;
 		readpos = 0;
 	}
@@ -169,6 +170,7 @@ const byte &Base64ToByteConvert::getNext() {
 		hasItems = false;
 	} else {
 		hasItems = readpos+1 < wrpos;
+		if (this->eolb && !hasItems) restart();
 	}
 	return out;
 }
@@ -179,7 +181,7 @@ const byte &Base64ToByteConvert::peek() const {
 void Base64ToByteConvert::write(const char &item) {
 	if (item == padChar) {
 		//toto je spravne - pouze cely bajt muze byt precten a znaky navic jsou jen do padding
-		this->eolb = true;
+		flush();
 	} else {
 		//if eolb is active - reset state of convertor when new item is written
 		if (this->eolb) {
@@ -212,6 +214,13 @@ void Base64ToByteConvert::write(const char &item) {
 }
 void Base64ToByteConvert::flush() {
 	this->eolb = true;
+	if (!hasItems) restart();
+}
+void Base64ToByteConvert::restart() {
+	//stream is complete, incomplete group must not be mixed with the next one
+	readpos = 0;
+	wrpos = 0;
+	needItems = true;
 }
 void Base64ToByteConvert::initTable(ConstStrA t) {
 	//for performance reason, do not fill other items, it expects valid format if base64
diff --git a/src/lightspeed/utils/base64.h b/src/lightspeed/utils/base64.h
index c612e68..a649d0b 100644
--- a/src/lightspeed/utils/base64.h
+++ b/src/lightspeed/utils/base64.h
@@ -107,6 +107,8 @@ namespace LightSpeed {
 		byte readpos;
 		byte wrpos;
 
+		void restart();
+
 		void initTable(ConstStrA table);
 	};
 
-- 
2.43.0


From 0d0418eb0404bd8a155d6e2c996ae43ebb69a935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:48 +0000
Subject: [PATCH 159/208] fix: LZW decompressor kept its dictionary after the
 end of a stream, but the compressor starts the next one with an empty
 dictionary

---
 src/lightspeed/utils/lzw.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/lzw.tcc b/src/lightspeed/utils/lzw.tcc
index 6601601..96e8480 100644
--- a/src/lightspeed/utils/lzw.tcc
+++ b/src/lightspeed/utils/lzw.tcc
@@ -172,8 +172,8 @@ void LZWDecompressBase<Impl>::write(const byte& b) {
 			accum = 0;
 			//signal logical end
 			this->eolb = true;
-			//reset previous code, this allows to start new stream with same dictionary
-			prevCode=null;
+			//compressor starts the next stream with an empty dictionary
+			clearDict();
 		} else {
 			ChainCode nextCode(dict.length()+firstChainCode);
 			if (code < 256) {
-- 
2.43.0


From cd80762c8837479d773d8b0b1553a32def2b825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:28 +0000
Subject: [PATCH 160/208] fix: base16 and base32 decoders were case sensitive
 when asked not to be, and the other way round

---
 src/lightspeed/utils/base16.cpp | 2 +-
 src/lightspeed/utils/base32.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/base16.cpp b/src/lightspeed/utils/base16.cpp
index 85e9b5b..d7a0e77 100644
--- a/src/lightspeed/utils/base16.cpp
+++ b/src/lightspeed/utils/base16.cpp
@@ -96,7 +96,7 @@ void Base16ToByteConvert::flush() {
 void Base16ToByteConvert::initTable(ConstStrA t, bool caseSensitive = false) {
 	//for performance reason, do not fill other items, it expects valid format if base64
 
-	if (caseSensitive) {
+	if (!caseSensitive) {
 		for (natural i = 0; i < t.length(); i++) {
 			table[(unsigned int)(toupper(t[i]))] = (byte)(i & 0xF);
 			table[(unsigned int)(tolower(t[i]))] = (byte)(i & 0xF);
diff --git a/src/lightspeed/utils/base32.cpp b/src/lightspeed/utils/base32.cpp
index f7ef850..3ab9e63 100644
--- a/src/lightspeed/utils/base32.cpp
+++ b/src/lightspeed/utils/base32.cpp
@@ -214,7 +214,7 @@ void Base32ToByteConvert::restart() {
 void Base32ToByteConvert::initTable(ConstStrA t, bool caseSensitive = false) {
 	//for performance reason, do not fill other items, it expects valid format if base64
 
-	if (caseSensitive) {
+	if (!caseSensitive) {
 		for (natural i = 0; i < t.length(); i++) {
 			table[(unsigned int)(toupper(t[i]))] = (byte)(i & 31);
 			table[(unsigned int)(tolower(t[i]))] = (byte)(i & 31);
-- 
2.43.0


From 807de314d278826283ef18e722df3625afcca962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:28 +0000
Subject: [PATCH 161/208] fix: LZW compressor added an extra byte when the
 stream ended on a byte boundary, next stream could not be read

---
 src/lightspeed/utils/lzw.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/utils/lzw.tcc b/src/lightspeed/utils/lzw.tcc
index 96e8480..2b3dd7b 100644
--- a/src/lightspeed/utils/lzw.tcc
+++ b/src/lightspeed/utils/lzw.tcc
@@ -287,6 +287,7 @@ bool LZWCompressBase<Impl>::OutBuff::hasItems() const {
 
 template<typename Impl>
 void LZWCompressBase<Impl>::OutBuff::padzeroes() {
+	if (wrbits == 8) return; //nothing to pad
 	outbuff[wrpos] = accum ;
 	wrpos = (wrpos + 1) & 0xF;
 	wrbits = 8;
-- 
2.43.0


From 0a695edbe347fbc628c50f647a056bf5c8b45311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:18 +0000
Subject: [PATCH 162/208] fix: JSON parser refused a number which is the whole
 text

---
 src/lightspeed/utils/json/jsonparser.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/jsonparser.tcc b/src/lightspeed/utils/json/jsonparser.tcc
index c7c3c09..2bc93fe 100644
--- a/src/lightspeed/utils/json/jsonparser.tcc
+++ b/src/lightspeed/utils/json/jsonparser.tcc
@@ -207,7 +207,8 @@ template<typename T>
 PNode Parser<T>::parseValue(char firstChar) {
 
 	strBuff.clear();
-	char c = iter.peek();
+	//the number can be the last thing in the source
+	char c = iter.hasItems()?iter.peek():0;
 	if (isspace(firstChar)) {
 		while(isspace(c)) {
 			iter.skip();
-- 
2.43.0


From b836e51fa4275ea5327f9ef2aae5788109222bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:18 +0000
Subject: [PATCH 163/208] fix: JSON parser overflowed with integers of 19 to 22
 characters, they were read as other numbers

---
 src/lightspeed/utils/json/jsonparser.tcc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/json/jsonparser.tcc b/src/lightspeed/utils/json/jsonparser.tcc
index 2bc93fe..1f614bb 100644
--- a/src/lightspeed/utils/json/jsonparser.tcc
+++ b/src/lightspeed/utils/json/jsonparser.tcc
@@ -203,6 +203,24 @@ ConstStrA Parser<T>::arrayIndexStr(natural i) {
 
 
 
+///determines whether integer written in the text can be stored in the type X
+/** Text, which is not a number is considered in the range (it is refused later) */
+template<typename X>
+inline bool isNumberInRange(ConstStrA text) {
+	bool neg = !text.empty() && text[0] == '-';
+	lnatural limit = ((lnatural)1 << (sizeof(X) * 8 - 1)) - (neg?0:1);
+	lnatural val = 0;
+	for (natural i = 0; i < text.length(); i++) {
+		char c = text[i];
+		if (i == 0 && (c == '-' || c == '+')) continue;
+		if (c < '0' || c > '9') return true;
+		lnatural digit = c - '0';
+		if (val > (limit - digit) / 10) return false;
+		val = val * 10 + digit;
+	}
+	return true;
+}
+
 template<typename T>
 PNode Parser<T>::parseValue(char firstChar) {
 
@@ -230,7 +248,7 @@ PNode Parser<T>::parseValue(char firstChar) {
 
 	if (isFloat == false) {
 		AutoArray<char>::Iterator iter = strBuff.getFwIter();
-		if (strBuff.length() <= ((sizeof(integer)*10000+1818)/3636)) {
+		if (isNumberInRange<integer>(strBuff)) {
 			integer x;
 			if (!parseSignedNumber(iter,x,10) || iter.hasItems())
 				throw ParseError_t(THISLOCATION,strBuff);
@@ -240,7 +258,7 @@ PNode Parser<T>::parseValue(char firstChar) {
 			} else {
 				return factory->newValue(x);
 			}
-		} else if (strBuff.length() <= ((sizeof(linteger)*10000+1818)/3636)) {
+		} else if (isNumberInRange<linteger>(strBuff)) {
 			linteger x;
 			if (!parseSignedNumber(iter,x,10) || iter.hasItems())
 				throw ParseError_t(THISLOCATION,strBuff);
-- 
2.43.0


From 6cb91c13b89573d94404eadab8d9aec7a2044c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:18 +0000
Subject: [PATCH 164/208] fix: JSON characters above 0xFFFF were written with
 five digits after \u and pairs of sequences were read as two characters

---
 src/lightspeed/utils/json/jsonparser.tcc     | 18 +++++++++++++++-
 src/lightspeed/utils/json/jsonserializer.h   |  1 +
 src/lightspeed/utils/json/jsonserializer.tcc | 22 ++++++++++++++------
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/lightspeed/utils/json/jsonparser.tcc b/src/lightspeed/utils/json/jsonparser.tcc
index 1f614bb..a7ea279 100644
--- a/src/lightspeed/utils/json/jsonparser.tcc
+++ b/src/lightspeed/utils/json/jsonparser.tcc
@@ -60,9 +60,12 @@ PNode Parser<T>::parseString() {
 template<typename T>
 void Parser<T>::parseRawString() {
 	char x = iter.getNext();
+		natural surrogate = 0;
+		natural surrogatePos = 0;
 		strBuff.clear();
 		while (x != '"') {
 			if (x != '\\') {
+				surrogate = 0;
 				strBuff.add(x);
 			} else {
 				x = iter.getNext();
@@ -88,7 +91,19 @@ void Parser<T>::parseRawString() {
 									throw ParseError_t(THISLOCATION,strBuff);
 								}
 							}
-							wchar_t wy = (wchar_t)::LightSpeed::_intr::stringToUnsignedNumber<natural>(buff,16);
+							natural code = ::LightSpeed::_intr::stringToUnsignedNumber<natural>(buff,16);
+							//characters above 0xFFFF are written as two sequences
+							if (code >= 0xDC00 && code < 0xE000 && surrogate != 0) {
+								code = 0x10000 + ((surrogate - 0xD800) << 10) + (code - 0xDC00);
+								strBuff.resize(surrogatePos);
+								surrogate = 0;
+							} else if (code >= 0xD800 && code < 0xDC00) {
+								surrogate = code;
+								surrogatePos = strBuff.length();
+							} else {
+								surrogate = 0;
+							}
+							wchar_t wy = (wchar_t)code;
 							WideToUtf8Filter flt;
 							flt.input(wy);
 							while (flt.hasItems()) strBuff.add(flt.output());
@@ -98,6 +113,7 @@ void Parser<T>::parseRawString() {
 					default: throw ErrorMessageException(THISLOCATION, "Neocekavana escape sekvence");
 					//TODO: vymyslet lepsi vyjimku
 				}
+				surrogate = 0;
 				strBuff.add(y);
 			}
 			x = iter.getNext();
diff --git a/src/lightspeed/utils/json/jsonserializer.h b/src/lightspeed/utils/json/jsonserializer.h
index 0a9f43f..171ede3 100644
--- a/src/lightspeed/utils/json/jsonserializer.h
+++ b/src/lightspeed/utils/json/jsonserializer.h
@@ -49,6 +49,7 @@ public:
 	void serializeString(ConstStrA str);
 	void serializeString(ConstStrW str);
 	void serializeStringEscUTF(ConstStrA str);
+	void writeEscaped(natural c);
 
 
 
diff --git a/src/lightspeed/utils/json/jsonserializer.tcc b/src/lightspeed/utils/json/jsonserializer.tcc
index fa2ec77..a7f96cd 100644
--- a/src/lightspeed/utils/json/jsonserializer.tcc
+++ b/src/lightspeed/utils/json/jsonserializer.tcc
@@ -85,9 +85,7 @@ void Serializer<T>::serializeString(ConstStrW str) {
 	for (ConstStrW::Iterator oiter = str.getFwIter(); oiter.hasItems();) {
 		wchar_t c = oiter.getNext();
 		if (c > 0x7F) {
-			TextOut<IWriteIterator<char, T> &, StaticAlloc<32> > fmt(iter);
-			fmt.setBase(16);
-			fmt("\\u%{04}1") << (unsigned int)c;
+			writeEscaped(c);
 		} else {
 			writeChar<char>((char)c,iter);
 		}
@@ -95,6 +93,20 @@ void Serializer<T>::serializeString(ConstStrW str) {
 	iter.write('"');
 }
 
+template<typename T>
+void Serializer<T>::writeEscaped(natural c) {
+	if (c > 0xFFFF) {
+		//the sequence has only four digits
+		c -= 0x10000;
+		writeEscaped(0xD800 + (c >> 10));
+		writeEscaped(0xDC00 + (c & 0x3FF));
+	} else {
+		TextOut<IWriteIterator<char, T> &, StaticAlloc<32> > fmt(iter);
+		fmt.setBase(16);
+		fmt("\\u%{04}1") << (unsigned int)c;
+	}
+}
+
 template<typename T>
 void Serializer<T>::serializeStringEscUTF(ConstStrA str) {
 	iter.write('"');
@@ -108,9 +120,7 @@ void Serializer<T>::serializeStringEscUTF(ConstStrA str) {
 				flt.flush();
 				while (flt.hasItems()) {
 					wchar_t cu = flt.output();
-					TextOut<IWriteIterator<char, T> &, StaticAlloc<32> > fmt(iter);
-					fmt.setBase(16);
-					fmt("\\u%{04}1") << (unsigned int)cu;
+					writeEscaped(cu);
 				}
 			} catch (Exception &e) {
 				throw SerializeError_t(THISLOCATION,str) << e;
-- 
2.43.0


From b34640437d888de40e2a50ad502b7c1f33e27842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:18 +0000
Subject: [PATCH 165/208] fix: JSON with big float number could not be written,
 or the number was cut

---
 src/lightspeed/base/text/toString.cpp        | 24 ++++++++++----------
 src/lightspeed/utils/json/json.cpp           |  2 +-
 src/lightspeed/utils/json/jsonserializer.tcc |  2 +-
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/lightspeed/base/text/toString.cpp b/src/lightspeed/base/text/toString.cpp
index 6c09cd7..8ac2d83 100644
--- a/src/lightspeed/base/text/toString.cpp
+++ b/src/lightspeed/base/text/toString.cpp
@@ -19,13 +19,13 @@ namespace LightSpeed {
 
 ToString<float, char>::ToString(float val, integer precision, bool sci)
 {
-	char buff[256];
+	char buff[512];
 	if (precision < 0) {
-		snprintf(buff,255,"%1.*g",int(-precision),double(val));
+		snprintf(buff,511,"%1.*g",int(-precision),double(val));
 	} else if (sci) {
-		snprintf(buff,255,"%1.*E",int(precision),double(val));
+		snprintf(buff,511,"%1.*E",int(precision),double(val));
 	} else {
-		snprintf(buff,255,"%1.*f",int(precision),double(val));
+		snprintf(buff,511,"%1.*f",int(precision),double(val));
 	}
 	char *c = buff;
 	while (*c) this->buffer.write(*c++);
@@ -35,8 +35,8 @@ ToString<float, char>::ToString(float val, integer precision, bool sci)
 
 ToString<float, char>::ToString(float val)
 {
-	char buff[256];
-	snprintf(buff,255,"%g",double(val));
+	char buff[512];
+	snprintf(buff,511,"%g",double(val));
 	char *c = buff;
 	while (*c) this->buffer.write(*c++);
 	commitBuffer();
@@ -45,13 +45,13 @@ ToString<float, char>::ToString(float val)
 
 ToString<double, char>::ToString(double val, integer precision, bool sci)
 {
-	char buff[256];
+	char buff[512];
 	if (precision < 0) {
-		snprintf(buff,255,"%1.*g",int(-precision),double(val));
+		snprintf(buff,511,"%1.*g",int(-precision),double(val));
 	} else if (sci) {
-		snprintf(buff,255,"%1.*E",int(precision),double(val));
+		snprintf(buff,511,"%1.*E",int(precision),double(val));
 	} else {
-		snprintf(buff,255,"%1.*f",int(precision),double(val));
+		snprintf(buff,511,"%1.*f",int(precision),double(val));
 	}
 	char *c = buff;
 	while (*c) this->buffer.write(*c++);
@@ -60,8 +60,8 @@ ToString<double, char>::ToString(double val, integer precision, bool sci)
 
 ToString<double, char>::ToString(double val)
 {
-	char buff[256];
-	snprintf(buff,255,"%g",double(val));
+	char buff[512];
+	snprintf(buff,511,"%g",double(val));
 	char *c = buff;
 	while (*c) this->buffer.write(*c++);
 	commitBuffer();
diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index d5a6132..de52395 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -386,7 +386,7 @@ bool IntField64::operator==(const INode &other) const {
 }
 
 TextFieldA *FloatField::createTextNode() const {
-	TextFormatBuff<char,StaticAlloc<200> > fmt;
+	TextFormatBuff<char,StaticAlloc<512> > fmt;
 	fmt("%1") << x;
 	return new TextFieldA(fmt.write());
 }
diff --git a/src/lightspeed/utils/json/jsonserializer.tcc b/src/lightspeed/utils/json/jsonserializer.tcc
index a7f96cd..ed53f57 100644
--- a/src/lightspeed/utils/json/jsonserializer.tcc
+++ b/src/lightspeed/utils/json/jsonserializer.tcc
@@ -179,7 +179,7 @@ void Serializer<T>::serializeString(const INode *json) {
 template<typename T>
 void Serializer<T>::serializeFloat(const INode *json) {
 
-	TextOut<IWriteIterator<char, T> &, StaticAlloc<140> > fmt(iter);
+	TextOut<IWriteIterator<char, T> &, StaticAlloc<512> > fmt(iter);
 	fmt() << json->getFloat();
 }
 
-- 
2.43.0


From 6158bae809e16b33da6b26f3a9b48e56327d735c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:18 +0000
Subject: [PATCH 166/208] fix: JSON objects with equal members were not equal,
 empty string and zero were equal to anything what is false

---
 src/lightspeed/utils/json/json.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index de52395..142e692 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -89,7 +89,7 @@ bool Object::operator==(const INode &other) const {
 		iter.hasItems();) {
 		const FieldNode *e1 = iter.getNext();
 		const FieldNode *e2 = iter2.getNext();
-		if (e1->data.key != e2->data.key || (e1->data.value) != (e2->data.value)) return false;
+		if (e1->data.key != e2->data.key || *(e1->data.value) != *(e2->data.value)) return false;
 	}
 	return true;
 }
@@ -721,7 +721,7 @@ Value EmptyString::clone(PFactory f) const {
 }
 
 bool EmptyString::operator==(const INode &other)const {
-	return !other.getBool();
+	return other.getType() == ndString && other.getStringUtf8().empty();
 }
 
 
@@ -732,7 +732,7 @@ Value ZeroNumber::clone(PFactory f) const {
 
 bool ZeroNumber::operator==(const INode &other)const {
 	if (other.getType() == ndInt) return other.getLongInt() == 0;
-	else return other.getFloat() == 0;
+	else return other.getType() == ndFloat && other.getFloat() == 0;
 }
 
 
-- 
2.43.0


From 937cae8196faa7ff75fc41886d79c4e1e4b32207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:18 +0000
Subject: [PATCH 167/208] fix: copying items to a JSON array recursed until the
 stack was exhausted

---
 src/lightspeed/utils/json/json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/json.h b/src/lightspeed/utils/json/json.h
index a1faeb5..e4c64ab 100644
--- a/src/lightspeed/utils/json/json.h
+++ b/src/lightspeed/utils/json/json.h
@@ -609,7 +609,7 @@ namespace LightSpeed {
 
 			///Adds new node directly from iterator result
 			INode *add(const ConstKeyValue &kv) {
-				if (getType() == ndArray) return add(kv);
+				if (getType() == ndArray) return add(Value(const_cast<INode *>(kv.getValue().get())));
 				else return add(kv.getStringKey(),Value(const_cast<INode *>(kv.getValue().get())));
 			}
 
-- 
2.43.0


From 7fe4b8f458d49fced17f22d3f508c4536f5bdf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:18 +0000
Subject: [PATCH 168/208] fix: access behind the end of JSON array read foreign
 memory, it should report that there is no item

---
 src/lightspeed/utils/json/jsonimpl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/jsonimpl.h b/src/lightspeed/utils/json/jsonimpl.h
index 24fd40c..f411d78 100644
--- a/src/lightspeed/utils/json/jsonimpl.h
+++ b/src/lightspeed/utils/json/jsonimpl.h
@@ -104,7 +104,7 @@ public:
 	virtual bool isNull() const {return list.empty()?0:list[0]->isNull();}
 	virtual INode *getVariable(ConstStrA x)  const {return list.empty()?0:list[0]->getVariable(x);}
 	virtual natural getEntryCount() const {return list.length();}
-	virtual INode *getEntry(natural idx) const {return list[idx];}
+	virtual INode *getEntry(natural idx) const {return idx < list.length()?(INode *)list[idx]:0;}
 	virtual bool empty() const {return list.empty();}
 	virtual bool enumEntries(const IEntryEnum &fn) const;
 
-- 
2.43.0


From 5c4f2c35242ae2dc4772e75bfbcf9b26b715500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:18 +0000
Subject: [PATCH 169/208] fix: JSON stream parser stopped all monitoring when
 the callback refused to monitor one container

---
 src/lightspeed/utils/json/jsonparser.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/json/jsonparser.tcc b/src/lightspeed/utils/json/jsonparser.tcc
index a7ea279..5e06751 100644
--- a/src/lightspeed/utils/json/jsonparser.tcc
+++ b/src/lightspeed/utils/json/jsonparser.tcc
@@ -312,7 +312,7 @@ JSON::Value StreamParser<T>::parseObject(INode *container) {
 	JSON::Value out = Parser<T>::parseObject(container);
 	if (curCB) curCB->onContainerCompleted(container, saveParent);
 	prevContainer = saveParent;
-	if (curCB) curCB = save;
+	curCB = save;
 	return out;
 }
 
@@ -325,7 +325,7 @@ JSON::Value StreamParser<T>::parseArray(INode *container) {
 	JSON::Value out = Parser<T>::parseArray(container);
 	if (curCB) curCB->onContainerCompleted(container, saveParent);
 	prevContainer = saveParent;
-	if (curCB) curCB = save;
+	curCB = save;
 	return out;
 }
 
-- 
2.43.0


From c0222ac9a433b0ac53fc1ebde1b5f10192a58658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:18 +0000
Subject: [PATCH 170/208] fix: destruction of a copied JSON path never finished

---
 src/lightspeed/utils/json/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index 142e692..4ca8f91 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -1138,7 +1138,7 @@ void Path::operator delete(void *ptr) {
 	//calculate reqSize
 	natural reqSize = sizeof(IRuntimeAlloc *);
 
-	for (const Path *p = reinterpret_cast<Path *>(ptr); ptr != &root; p = &p->parent) {
+	for (const Path *p = reinterpret_cast<Path *>(ptr); p != &root; p = &p->parent) {
 		//reserve space for element
 		reqSize+=sizeof(Path);
 		//if it is key, then reserve space for name
-- 
2.43.0


From 2a73ed043476579e09e4c3d89b682fe08fe0b8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:18 +0000
Subject: [PATCH 171/208] fix: JSON serializer kept pointer to its stack after
 an exception

---
 src/lightspeed/utils/json/jsonserializer.h   | 8 ++++++++
 src/lightspeed/utils/json/jsonserializer.tcc | 3 +--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/json/jsonserializer.h b/src/lightspeed/utils/json/jsonserializer.h
index 171ede3..2153bae 100644
--- a/src/lightspeed/utils/json/jsonserializer.h
+++ b/src/lightspeed/utils/json/jsonserializer.h
@@ -37,6 +37,14 @@ class Serializer {
 		}
 	};
 
+	//sets the current level, restores it even if the serialization fails
+	struct Level {
+		Pointer<CycleDetector> &top;
+		CycleDetector *prev;
+		Level(Pointer<CycleDetector> &top, CycleDetector *cur):top(top),prev(cur->top) {top = cur;}
+		~Level() {top = prev;}
+	};
+
 public:
 	Serializer(IWriteIterator<char, T> &iter, bool escapeUTF8);
 
diff --git a/src/lightspeed/utils/json/jsonserializer.tcc b/src/lightspeed/utils/json/jsonserializer.tcc
index ed53f57..04aa4d7 100644
--- a/src/lightspeed/utils/json/jsonserializer.tcc
+++ b/src/lightspeed/utils/json/jsonserializer.tcc
@@ -212,7 +212,7 @@ void Serializer<T>::serialize(const INode *json) {
 			iter.blockWrite(ConstStrA("<infinite_recursion>"),true);;
 		}
 	} else {
-		top = &d;
+		Level level(top,&d);
 		NodeType t = json->getType();
 		switch (t) {
 		case ndArray: serializeArray(json); break;
@@ -225,7 +225,6 @@ void Serializer<T>::serialize(const INode *json) {
 		case ndString: serializeString(json);break;
 		default: serializeCustom(json);break;
 		}
-		top = d.top;
 	}
 
 }
-- 
2.43.0


From 73987e4a001aa282f6d24c3b0ebeb8dff97bea71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:57 +0000
Subject: [PATCH 172/208] fix: the lowest integer was formatted as an empty
 text

---
 src/lightspeed/base/text/textFormat.cpp | 3 ++-
 src/lightspeed/base/text/toString.h     | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/text/textFormat.cpp b/src/lightspeed/base/text/textFormat.cpp
index e5bb247..7ae6fa4 100644
--- a/src/lightspeed/base/text/textFormat.cpp
+++ b/src/lightspeed/base/text/textFormat.cpp
@@ -64,7 +64,8 @@ ConstStrA numberToStringSigned(T num, char *string, natural size, natural base)
 	} else {
 		if (num < 0) {
 			*string='-';
-			ConstStrA z = numberToString(-num,string+1,size-1,base);
+			//the lowest number has no positive counterpart
+			ConstStrA z = numberToStringUnsigned((lnatural)0 - (lnatural)num,string+1,size-1,base);
 			if (z == nil) return nil;
 			return ConstStrA(string,1+z.length());
 		}
diff --git a/src/lightspeed/base/text/toString.h b/src/lightspeed/base/text/toString.h
index 4e4be41..303f62f 100644
--- a/src/lightspeed/base/text/toString.h
+++ b/src/lightspeed/base/text/toString.h
@@ -84,7 +84,10 @@ namespace LightSpeed {
 			else {
 				if (val < 0) {
 					this->buffer.write(ChT('-'));
-					this->extract(-val,base,up);
+					//the lowest number has no positive counterpart
+					NumType rest = val / (NumType)base;
+					if (rest) this->extract(-rest,base,up);
+					this->extract(-(val % (NumType)base),base,up);
 				} else {
 					this->extract(val,base,up);
 				}
-- 
2.43.0


From ac2cf0c73ed3dfcbfd25b56a44b43972538566c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:31 +0000
Subject: [PATCH 173/208] fix: copy of a JSON path wrote behind the end of the
 allocated memory, it never reached the parent

---
 src/lightspeed/utils/json/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index 4ca8f91..f3ea585 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -1108,13 +1108,13 @@ Path *Path::copyRecurse(Path * trg, char  *strBuff) const {
 		//advence pointer in buffer
 		strBuff+=index;
 		//copy rest of path to retrieve new pointer
-		Path *out = copyRecurse(trg+1,strBuff);
+		Path *out = parent.copyRecurse(trg+1,strBuff);
 		//construct path item at give position, use returned pointer as parent
 		//and use text from string buffer as name
 		return new((void *)trg) Path(*out, ConstStrA(c, index));
 	} else {
 		//if it is index, just construct rest of path
-		Path *out = copyRecurse(trg+1,strBuff);
+		Path *out = parent.copyRecurse(trg+1,strBuff);
 		//copy rest of path to retrieve new pointer
 
 		return new((void *)trg) Path(*out, index);
-- 
2.43.0


From 7679aad64e5752678a840998c22d7ca8d694978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:31 +0000
Subject: [PATCH 174/208] fix: cleared AvlTreeBasic (JSON object) kept the
 count of items

---
 src/lightspeed/base/containers/avltreenode.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/avltreenode.h b/src/lightspeed/base/containers/avltreenode.h
index 6fc84a7..3b710c6 100644
--- a/src/lightspeed/base/containers/avltreenode.h
+++ b/src/lightspeed/base/containers/avltreenode.h
@@ -583,6 +583,7 @@ public:
 		if (tree) {
 			tree->clear(eraser);
 			tree = 0;
+			count = 0;
 		}
 	}
 
-- 
2.43.0


From 747131e6aab9b0b6275c1e4f4be0065fa24046a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:36 +0000
Subject: [PATCH 175/208] fix: destruction of a copied JSON path returned other
 pointer than it allocated

---
 src/lightspeed/utils/json/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index f3ea585..1e4f10d 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -1145,7 +1145,7 @@ void Path::operator delete(void *ptr) {
 		if (p->isKey()) reqSize+=p->getKey().length();
 	}
 	//deallocate memory
-	alc->dealloc(a,reqSize);
+	alc->dealloc(a-1,reqSize);
 
 }
 void *Path::operator new(size_t , void *p) {
-- 
2.43.0


From da14e19f4dba420acded95f7bb2f2e5d245e589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:46 +0000
Subject: [PATCH 176/208] fix: ArrayT::forEach over a range ends at the end of
 the array and reports no stop when nothing is left

---
 src/lightspeed/base/containers/arrayt.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index e1ece54..b7ee3c8 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -74,9 +74,9 @@ public:
 	template<typename Fn>
 	bool forEach(Fn functor, natural from, natural count) const {
 		natural l = length();
-		if (from > l) return true;
-		if (from + count > l) count = l - count;
-		if (count == 0) return true;
+		if (from >= l) return false;
+		if (count > l - from) count = l - from;
+		if (count == 0) return false;
 		return this->_invoke().forEach(functor, from, count);
 	}
 
-- 
2.43.0


From 5f09c1b2cb38b14df987324f43935fdbbaa94f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:46 +0000
Subject: [PATCH 177/208] fix: array iterator: seek moves by the requested
 count in both directions and canSeek is not inverted

---
 src/lightspeed/base/containers/arrayt.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index b7ee3c8..c20c329 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -122,12 +122,12 @@ public:
 				case Direction::reversed: return seek(offset,Direction::reverse(dir));
 				case Direction::forward:
 					if (offset == 0) return 0;
-					if (pos + offset > sz) offset = sz - pos;
+					if (offset > sz - pos) offset = sz - pos;
 					pos+=offset;
 					return offset;
 				case Direction::backward:
 					if (offset == 0) return 0;
-					if (pos+1 > 0) offset = pos+1;
+					if (offset > pos+1) offset = pos+1;
 					pos-= offset;
 					return offset;
 				case Direction::absolute:
@@ -147,7 +147,7 @@ public:
 			switch(direction) {
 				case Direction::current:return canSeek(dir);
 				case Direction::reversed:return canSeek(Direction::reverse(dir));
-				case Direction::forward:return pos >= sz;
+				case Direction::forward:return pos != sz;
 				case Direction::backward:return pos != naturalNull;
 				case Direction::absolute:return true;
 				default: return false;
-- 
2.43.0


From d52768f40118379d5b8d95fd0cb175f60ba0bf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:46 +0000
Subject: [PATCH 178/208] fix: rendering an array expression to another array
 stores items from the first one and continues until the target is full

---
 src/lightspeed/base/containers/arrayt.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index c20c329..6ac8c17 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -479,14 +479,14 @@ private:
     template<typename X>
     class RenderToArrFunctor {
     public:
-    	RenderToArrFunctor(ArrayTRef<T,X> arr, natural &cnt):arr(arr),cnt(cnt),len(arr.length()) {}
+    	RenderToArrFunctor(const ArrayTRef<T,X> &arr, natural &cnt):arr(arr),cnt(cnt),len(arr.length()) {}
     	bool operator()(const ItemT &x) const {
-    		if (cnt + 1 >= len) return false;
-    		arr(++cnt) = x;
-    		return true;
+    		if (cnt >= len) return true;
+    		arr(cnt++) = x;
+    		return false;
     	}
     protected:
-    	ArrayTRef<T,X> arr;
+    	mutable ArrayTRef<T,X> arr;
     	natural &cnt;
     	natural len;
     };
-- 
2.43.0


From ff2beaf9672e58675c510e793181e0e6abc5c258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:46 +0000
Subject: [PATCH 179/208] fix: findOneOf and findLast with position didn't
 compile

---
 src/lightspeed/base/containers/arrayt.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index 6ac8c17..c762fa2 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -534,7 +534,7 @@ public:
 
     template<typename Oth>
     natural findOneOf(const ArrayT<T,Oth> &other, natural pos) const{
-    	natural r = offset(pos).findOneof(other);
+    	natural r = offset(pos).findOneOf(other);
     	return r == naturalNull?r:r+pos;
     }
 
@@ -545,7 +545,6 @@ public:
     	return length() - pos - 1;
     }
 
-    template<typename Oth>
     natural findLast(const ItemT &other, natural pos) const{
     	natural r = head(pos).findLast(other);
     	return r;
-- 
2.43.0


From 10fb1e0d80df21f90db7d4b20a9ec775e65f3dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:46 +0000
Subject: [PATCH 180/208] fix: transformed array: forEach transforms items
 before they are passed to the functor

---
 src/lightspeed/base/containers/arrayExpr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayExpr.h b/src/lightspeed/base/containers/arrayExpr.h
index 477ea41..4393222 100644
--- a/src/lightspeed/base/containers/arrayExpr.h
+++ b/src/lightspeed/base/containers/arrayExpr.h
@@ -306,7 +306,7 @@ namespace LightSpeed {
 		template<typename FFn>
 		bool forEach(FFn functor, natural from, natural count) const {
 			for (natural i = 0; i < count; i++)
-				if (fn(functor(a._invoke().at(i+from)))) return true;
+				if (functor(fn(a._invoke().at(i+from)))) return true;
 			return false;
 
 		}
@@ -315,7 +315,7 @@ namespace LightSpeed {
 		Fn fn;
 	protected:
 		mutable char buff[sizeof(NoConstItemT)];
-		NoConstItemT *p;
+		mutable NoConstItemT *p;
 
 	};
 
-- 
2.43.0


From d28bb312af4f8235e46c91affda748a5600e0a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:46 +0000
Subject: [PATCH 181/208] fix: casted array destroys items it created

---
 src/lightspeed/base/containers/arrayExpr.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayExpr.h b/src/lightspeed/base/containers/arrayExpr.h
index 4393222..9f65afd 100644
--- a/src/lightspeed/base/containers/arrayExpr.h
+++ b/src/lightspeed/base/containers/arrayExpr.h
@@ -333,12 +333,16 @@ namespace LightSpeed {
 		natural length() const {return a._invoke().length();}
 		ConstRef at(natural index) const {
 			if (p) p->~NewT();
-			return *new(buff) NewT(a.at(index));
+			p = 0;
+			p = new(buff) NewT(a.at(index));
+			return *p;
 		}
 
 		Ref mutableAt(natural index)  {
 			if (p) p->~NewT();
-			return *new(buff) NewT(a.at(index));
+			p = 0;
+			p = new(buff) NewT(a.at(index));
+			return *p;
 		}
 
 		Impl &set(natural index, ConstRef val) {
@@ -353,7 +357,7 @@ namespace LightSpeed {
 		A a;
 	protected:
 		mutable char buff[sizeof(NewT)];
-		NewT *p;
+		mutable NewT *p;
 
 	};
 }
-- 
2.43.0


From 17f69ca9f76957fefe824cc934bae5990c8cd1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:46 +0000
Subject: [PATCH 182/208] fix: forEach of a sum and comparison through an array
 reference didn't compile

---
 src/lightspeed/base/containers/arrayExpr.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayExpr.h b/src/lightspeed/base/containers/arrayExpr.h
index 9f65afd..f8f1d25 100644
--- a/src/lightspeed/base/containers/arrayExpr.h
+++ b/src/lightspeed/base/containers/arrayExpr.h
@@ -38,11 +38,11 @@ namespace LightSpeed {
 			return a._invoke().forEach(functor, from, count);
 		}
 		static CompareResult compareItems(ConstRef a, ConstRef b) {
-			return a._invoke().compareItems(a,b);
+			return OriginT<A>::T::compareItems(a,b);
 		}
 		template<typename X>
 		CompareResult compare(const ArrayT<T,X> &other) const {
-			return a._invoke().compareItems(a,other);
+			return a._invoke().compare(other);
 		}
 		template<class UTr> bool dependOn(const ArrayT<T,UTr> *instance) const {
 			return a._invoke().dependOn(instance);
@@ -91,7 +91,7 @@ namespace LightSpeed {
 		
 		template<typename Fn>
 		bool forEach(Fn functor) const {
-			return foreach(functor,0,length());
+			return forEach(functor,0,length());
 		}
 
 		template<typename Fn>
-- 
2.43.0


From d32894b7908c4fe09922d176fbe93769e7facee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:00 +0000
Subject: [PATCH 183/208] fix: datagram received by one thread was cut or
 extended to the size of datagram taken meanwhile by another thread

---
 src/lightspeed/base/linux/netDgramSource.cpp | 17 +++++++++++------
 src/lightspeed/base/linux/netDgramSource.h   |  2 ++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/base/linux/netDgramSource.cpp b/src/lightspeed/base/linux/netDgramSource.cpp
index 4ce42f4..4e0f110 100644
--- a/src/lightspeed/base/linux/netDgramSource.cpp
+++ b/src/lightspeed/base/linux/netDgramSource.cpp
@@ -17,6 +17,7 @@
 #include <stdlib.h>
 #include "../exceptions/outofmemory.h"
 #include "linsocket.tcc"
+#include "../sync/synchronize.h"
 
 namespace LightSpeed {
 
@@ -45,13 +46,17 @@ PNetworkDatagram LinuxNetDgamSource::receive() {
 			throw NetworkTimeoutException(THISLOCATION,getTimeout(),
 					NetworkTimeoutException::reading);
 
-		u_long res = 0;
-		ioctl(sock,FIONREAD,&res);
-		dgr->inputData.setSize(res);
-		void *buff = dgr->inputData.getBuffer().data();
+		//nobody can take the datagram between asking for its size and reading it
+		Synchronized<FastLock> _(recvLock);
+		//ask for size of the datagram
+		r = ::recvfrom(sock,0,0,MSG_PEEK|MSG_TRUNC,0,0);
+		if (r != -1) {
+			dgr->inputData.setSize(r);
+			void *buff = dgr->inputData.getBuffer().data();
 
-		len = sizeof(dgr->addrbuff);
-		r = ::recvfrom(sock,buff,res,0,saddr,&len);
+			len = sizeof(dgr->addrbuff);
+			r = ::recvfrom(sock,buff,r,0,saddr,&len);
+		}
 		//could be taken by other thread
 	} while (r == -1 && (errno == EINTR || errno == EAGAIN));
 	if (r == -1) {
diff --git a/src/lightspeed/base/linux/netDgramSource.h b/src/lightspeed/base/linux/netDgramSource.h
index 576db3b..121f43d 100644
--- a/src/lightspeed/base/linux/netDgramSource.h
+++ b/src/lightspeed/base/linux/netDgramSource.h
@@ -14,6 +14,7 @@
 #include <netdb.h>
 #include "../memory/poolalloc.h"
 #include "linsocket.h"
+#include "../../mt/fastlock.h"
 
 namespace LightSpeed {
 
@@ -92,6 +93,7 @@ protected:
 	static int createDatagramSocket(natural port);
 	friend class LinuxNetDatagram;
 	PoolAlloc dgmpool;
+	FastLock recvLock;
 
 	natural dgrId;
 
-- 
2.43.0


From dec2d41ffaa4bb26ddd2a5a0b0f59ab87f09d758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:28 +0000
Subject: [PATCH 184/208] fix: exception thrown by thread's init hook was
 reported to hooks not initialized yet, and not to those already initialized

---
 src/lightspeed/mt/threadHook.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/mt/threadHook.cpp b/src/lightspeed/mt/threadHook.cpp
index 87060b7..5806f90 100644
--- a/src/lightspeed/mt/threadHook.cpp
+++ b/src/lightspeed/mt/threadHook.cpp
@@ -53,14 +53,19 @@ void AbstractThreadHook::uninstall() {
 
 static void callInitHooks(AbstractThreadHook *from, Thread &thread) {
 	if (from) {
+		//initialize hooks installed before
+		callInitHooks(from->getNextHook(), thread);
 		try {
-			callInitHooks(from->getNextHook(), thread);
+			from->onThreadInit(thread);
 		} catch (...) {
-			from->onThreadException(thread);
+			//only hooks already initialized are notified
+			AbstractThreadHook *p = from->getNextHook();
+			while (p) {
+				p->onThreadException(thread);
+				p = p->getNextHook();
+			}
 			throw;
-
 		}
-		from->onThreadInit(thread);
 	}
 }
 
-- 
2.43.0


From adfa61447d1bdf3fb94eb6988f671b1bdff5b3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:28 +0000
Subject: [PATCH 185/208] fix: thread stayed attached after its init hook threw
 exception, exit hooks never initialized were called later

---
 src/lightspeed/mt/linux/thread.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 14643a3..35d21dd 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -73,6 +73,9 @@ public:
 
 	virtual void handleCleanup();
 
+	///Called when attach of the thread failed - works as handleCleanup but without calling hooks
+	virtual void cancelAttach() {handleCleanup();}
+
 	static void *bootstrap(void *data);
 
 
@@ -506,6 +509,7 @@ public:
 
 	ThreadAttachContext(bool keepContext);
 	void handleCleanup();
+	void cancelAttach();
 	void unkeep();
 	ThreadAttachContext *nextContext;
 protected:
@@ -524,6 +528,13 @@ void ThreadAttachContext::handleCleanup()
 {
 	if (owner) {
 		AbstractThreadHook::callOnThreadExitHooks(*owner);
+	}
+	cancelAttach();
+}
+
+void ThreadAttachContext::cancelAttach()
+{
+	if (owner) {
 		finishThread();
 		owner = 0;
 	}
@@ -673,6 +684,16 @@ bool Thread::isThreaded() {
 
 
 
+///Calls init hooks for thread being attached. If hook throws exception, thread becomes detached
+static void callAttachHooks(Thread &thread, ThreadContext *ctx) {
+	try {
+		AbstractThreadHook::callOnThreadInitHooks(thread);
+	} catch (...) {
+		ctx->cancelAttach();
+		throw;
+	}
+}
+
 bool Thread::attach( bool keepContext, IRuntimeAlloc *contextAlloc /*= 0*/ )
 {
 	ThreadContext *ctx = getCurrentContext();
@@ -684,7 +705,7 @@ bool Thread::attach( bool keepContext, IRuntimeAlloc *contextAlloc /*= 0*/ )
 		if (sleeper == nil) sleeper = new ThreadSleeper;
 		id = pthread_self();
 		joinObject.close();
-		AbstractThreadHook::callOnThreadInitHooks(*this);
+		callAttachHooks(*this,ctx);
 		return true;
 	}
 
@@ -707,7 +728,7 @@ bool Thread::attach( bool keepContext, IRuntimeAlloc *contextAlloc /*= 0*/ )
 	}
 	setCurrentContext(ctx);
 	joinObject.close();
-	AbstractThreadHook::callOnThreadInitHooks(*this);
+	callAttachHooks(*this,ctx);
 	return true;
 }
 
-- 
2.43.0


From 2b24164cd2fd170df707eefc519742195de20c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:04 +0000
Subject: [PATCH 186/208] fix: folder containing link which leads nowhere
 couldn't be listed nor removed

---
 src/lightspeed/base/linux/fileio.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 27a5c75..7d3252d 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -795,12 +795,16 @@ namespace LightSpeed {
     				if (i != 0) throw FileOpenError(THISLOCATION,errno,wsrcpath);
     				if (S_ISLNK(statInfo.st_mode)) {
     					link = true;
-    					i = stat64(srcpath,&statInfo);
-        				if (i != 0) throw FileOpenError(THISLOCATION,errno,wsrcpath);
     				}
-    			} else {
+    			}
+    			if (link) {
 					i = stat64(srcpath,&statInfo);
-    				if (i != 0) throw FileOpenError(THISLOCATION,errno,wsrcpath);
+    				if (i != 0) {
+    					int e = errno;
+    					//link which leads nowhere is still valid entry of the folder
+    					if (e == ENOENT || e == ELOOP || e == ENOTDIR) {type = unknown;return;}
+    					throw FileOpenError(THISLOCATION,e,wsrcpath);
+    				}
     			}
     			if (S_ISREG(statInfo.st_mode)) type = file;
     			else if (S_ISDIR(statInfo.st_mode)) type = directory;
-- 
2.43.0


From 3d9fbf9058aaa605a53e4466d23a49db6ab3f112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:04 +0000
Subject: [PATCH 187/208] fix: entry of folder which is link to other folder
 couldn't be removed

---
 src/lightspeed/base/linux/fileio.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 7d3252d..b8711f2 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -1306,7 +1306,7 @@ namespace LightSpeed {
 
     void DirState::remove(bool recursive /*= false*/)
     {
-    	if (type == directory) svc.removeFolder(getFullPath(),recursive);
+    	if (type == directory && !link) svc.removeFolder(getFullPath(),recursive);
     	else svc.remove(getFullPath());
     }
 
@@ -1340,7 +1340,7 @@ namespace LightSpeed {
 
     void FileInfo::remove(bool recursive /*= false*/)
     {
-    	if (type == directory) svc.removeFolder(getFullPath(),recursive);
+    	if (type == directory && !link) svc.removeFolder(getFullPath(),recursive);
     	else svc.remove(getFullPath());
     }
 
-- 
2.43.0


From 0471efc79badf2d1a2bb806a984678d116edd5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:04 +0000
Subject: [PATCH 188/208] fix: name of file in result of getFileInfo referred
 destroyed string

---
 src/lightspeed/base/linux/fileio.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index b8711f2..6e7c772 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -1207,13 +1207,15 @@ namespace LightSpeed {
     			:svc(svc),statinfo(statinfo),fullname(pathname) {
 
 
-    			natural k = pathname.findLast('/');
+    			//refer own copy, the argument can be destroyed
+    			ConstStrW path = fullname;
+    			natural k = path.findLast('/');
     			if (k != naturalNull) {
-    				source = pathname.head(k);
-    				entryName = pathname.offset(k+1);
+    				source = path.head(k);
+    				entryName = path.offset(k+1);
     			} else {
     				source = ConstStrW();
-    				entryName=pathname;
+    				entryName=path;
     			}
 
     			if (entryName == ConstStrW(L".") || entryName == ConstStrW(L".."))
-- 
2.43.0


From d1d39a58af65ea51d68713fa2e7a064d6ee347a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:32 +0000
Subject: [PATCH 189/208] fix: getFileInfo never reported that the file is
 link, so removing it through the information removed its target or failed

---
 src/lightspeed/base/linux/fileio.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 6e7c772..7920931 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -1203,7 +1203,7 @@ namespace LightSpeed {
 
     	class FileInfo: public IFolderIterator, public ILinuxFileInfo {
     	public:
-    		FileInfo(IFileIOServices &svc, ConstStrW pathname, const FileStat &statinfo)
+    		FileInfo(IFileIOServices &svc, ConstStrW pathname, const FileStat &statinfo, bool isLink)
     			:svc(svc),statinfo(statinfo),fullname(pathname) {
 
 
@@ -1231,7 +1231,7 @@ namespace LightSpeed {
     			else
     				type = unknown;
 
-    			link = S_ISLNK(statinfo.st_mode) != 0;
+    			link = isLink;
     			hidden = entryName[0] == '.';
 
     		}
@@ -1288,11 +1288,14 @@ namespace LightSpeed {
     	bool extended;
     	if (cname.empty() || cname[0] != '/') {cname = getCwd() + cname;extended = true;} else {extended = false;}
     	FileStat fst;
-    	if (stat64(cname.c_str(),&fst)) {
+    	int res = lstat64(cname.c_str(),&fst);
+    	bool isLink = res == 0 && S_ISLNK(fst.st_mode);
+    	if (isLink) res = stat64(cname.c_str(),&fst);
+    	if (res) {
     		int en = errno;
     		throw FileIOError(THISLOCATION,en,cname);
     	}
-    	return new FileInfo(*const_cast<LinuxFileServices *>(this),extended?String(cname):String(pathname),fst);
+    	return new FileInfo(*const_cast<LinuxFileServices *>(this),extended?String(cname):String(pathname),fst,isLink);
     }
 
 
-- 
2.43.0


From a9c37e2e4bf5c19a468c0706fc8c4706132a2afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:33 +0000
Subject: [PATCH 190/208] fix: window of mapped file whose offset is not
 aligned to the page couldn't be mapped

---
 src/lightspeed/base/linux/fileio.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 7920931..b4c1a58 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -1080,7 +1080,13 @@ namespace LightSpeed {
 	        {
 	            int proto = getProto(mode);
 
-        		//TODO: fix offset
+	            //offset must be aligned to the page, adjust it to the nearest lower one
+	            natural shift = (natural)(offset % (natural)sysconf(_SC_PAGESIZE));
+	            offset -= shift;
+	            size += shift;
+	            if (size == 0) {
+	            	return MappedRegion(this,0,0,offset);
+	            }
 
         		void *res = mmap(0,size,proto, (copyOnWrite?MAP_PRIVATE:MAP_SHARED),fd,offset);
         		if (res == MAP_FAILED) {
-- 
2.43.0


From 0ce91a64965adbea281e211fef2f616a9ed2c5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:15 +0000
Subject: [PATCH 191/208] fix: mapFile succeeded without having the file when
 its handle couldn't be duplicated

---
 src/lightspeed/base/linux/fileio.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index b4c1a58..a091a96 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -1126,7 +1126,9 @@ namespace LightSpeed {
     		if (ihnd == 0) throw FileMsgException(THISLOCATION,EFAULT,filename,"File cannot be mapped");
     		int fd;
     		ihnd->getHandle(&fd,sizeof(fd));
-    		return new Mapped(dup(fd),filename);
+    		int mfd = dup(fd);
+    		if (mfd == -1) throw FileIOError(THISLOCATION,errno,filename);
+    		return new Mapped(mfd,filename);
 
 
     	} catch (Exception &e) {
-- 
2.43.0


From 93e7e164a8b26c3798b6f4afb5f58bfc6ed94e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 192/208] fix: reading of text as file from position behind the
 end read memory behind the text

---
 src/lightspeed/base/streams/memfile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/streams/memfile.cpp b/src/lightspeed/base/streams/memfile.cpp
index 7985dd7..b585da1 100644
--- a/src/lightspeed/base/streams/memfile.cpp
+++ b/src/lightspeed/base/streams/memfile.cpp
@@ -15,6 +15,7 @@ template class MemFile<>;
 
 
 natural MemFileStr::read(void* buffer, natural size) {
+	if (pos > text.length()) return 0;
 	natural remain = text.length() - pos;
 	if (remain < size) size = remain;
 	memcpy(buffer,text.data()+pos,size);
@@ -27,6 +28,7 @@ natural MemFileStr::write(const void* , natural ) {
 }
 
 natural MemFileStr::peek(void* buffer, natural size) const {
+	if (pos > text.length()) return 0;
 	natural remain = text.length() - pos;
 	if (remain < size) size = remain;
 	memcpy(buffer,text.data()+pos,size);
-- 
2.43.0


From 0ed4572be465825f645c951b925e611c2bb3e439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:02 +0000
Subject: [PATCH 193/208] fix: Future<void>::transform couldn't be compiled

---
 src/lightspeed/base/actions/promise.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/actions/promise.tcc b/src/lightspeed/base/actions/promise.tcc
index 1b6acfd..6193cb1 100644
--- a/src/lightspeed/base/actions/promise.tcc
+++ b/src/lightspeed/base/actions/promise.tcc
@@ -692,7 +692,7 @@ Future<void> Future<void>::transform(Future<X> original)
 {
 	class A:public Future<X>::IObserver, public DynObject {
 	public:
-		A(Promise<void> &rptr):rptr(rptr) {}
+		A(const Promise<void> &rptr):rptr(rptr) {}
 		virtual void resolve(const X &) throw() {
 			rptr.resolve();
 			delete this;
-- 
2.43.0


From 0c638b936f847e681a87d79a71212dc43a0c956c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:03 +0000
Subject: [PATCH 194/208] fix: operator || of futures couldn't be compiled

---
 src/lightspeed/base/actions/promise.tcc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/actions/promise.tcc b/src/lightspeed/base/actions/promise.tcc
index 6193cb1..01d680d 100644
--- a/src/lightspeed/base/actions/promise.tcc
+++ b/src/lightspeed/base/actions/promise.tcc
@@ -945,7 +945,7 @@ template<typename T>
 template<typename Y>
 Future<Variant> Future<T>::operator||(const Future<Y> &b) {
 
-	class TtoVariant: public Future<T>::IObserver {
+	class TtoVariant: public Future<T>::IObserver, public DynObject {
 	public:
 		TtoVariant(const Promise<Variant> &v):v(v) {}
 		virtual void resolve(const T &val) throw() {
@@ -958,7 +958,7 @@ Future<Variant> Future<T>::operator||(const Future<Y> &b) {
 		}
 		Promise<Variant> v;
 	};
-	class YtoVariant: public Future<Y>::IObserver {
+	class YtoVariant: public Future<Y>::IObserver, public DynObject {
 	public:
 		YtoVariant(const Promise<Variant> &v):v(v) {}
 		virtual void resolve(const Y &val) throw() {
@@ -981,7 +981,8 @@ Future<Variant> Future<T>::operator||(const Future<Y> &b) {
 
 	//share promise between converters - only first will resolve, other will be ignored
 	this->addObserver(new(alloc) TtoVariant(p));
-	b.addObserver(new(alloc) YtoVariant(p));
+	Future<Y> cb = b;
+	cb.addObserver(new(alloc) YtoVariant(p));
 	//return result promise
 	return v;
 }
-- 
2.43.0


From c9eac1e1f6185bf0954575e3e48abb2195d5d8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:39 +0000
Subject: [PATCH 195/208] fix: SList::swap exchanged the private list
 atomically and overwrote the shared one, items pushed meanwhile were lost

---
 src/lightspeed/mt/slist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/slist.h b/src/lightspeed/mt/slist.h
index 9173743..5b340f9 100644
--- a/src/lightspeed/mt/slist.h
+++ b/src/lightspeed/mt/slist.h
@@ -159,7 +159,7 @@ namespace LightSpeed {
 		///Swaps current object with source
 		/** Current object is changed atomically. source should not be accessed by multiple threads at time */
 		void swap(SList &source) {
-			_top = lockExchange(source._top,_top);
+			source._top = lockExchange(_top,source._top);
 		}
 
 		///Swaps content of slists, when top of current slist contain specified value
-- 
2.43.0


From 548ddd9469922a88cea66961d3f1cd7c24b25ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:39 +0000
Subject: [PATCH 196/208] fix: change of progress' state was reported also to
 asynchronous monitor, first parameter of the state was compared with
 undefined value

---
 src/lightspeed/base/debug/progress.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/debug/progress.h b/src/lightspeed/base/debug/progress.h
index b48a714..6fdf79c 100644
--- a/src/lightspeed/base/debug/progress.h
+++ b/src/lightspeed/base/debug/progress.h
@@ -45,7 +45,7 @@ namespace LightSpeed {
 		/** 
 		Sets default range to 100, but expects, that range will be changed by setMax() function
 		*/
-		Progress():next(0),monitor(0),nextValue(0),maxValue(100),curValue(0) {
+		Progress():next(0),monitor(0),nextValue(0),maxValue(100),curValue(0),curStateParam(0) {
 			attachToMonitor();
 		}
 
@@ -55,7 +55,7 @@ namespace LightSpeed {
 			at zero and this defines value for 100%. Progress cannot be higher than 100%
 		 */
 		 
-		Progress(natural maxValue):next(0),monitor(0),nextValue(0),maxValue(maxValue),curValue(0) {
+		Progress(natural maxValue):next(0),monitor(0),nextValue(0),maxValue(maxValue),curValue(0),curStateParam(0) {
 			attachToMonitor();
 		}
 
@@ -185,7 +185,7 @@ namespace LightSpeed {
 		}
 
 		void setState(Tag state, const void *param) {
-			bool cb = (callback && curState != state) || param != curStateParam;
+			bool cb = callback && (curState != state || param != curStateParam);
 			curState = state;
 			curStateParam = param;
 			if (cb)	onChangeState();
-- 
2.43.0


From 998a0153d08a41c25c99ba257856f9b5cffd94cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:29 +0000
Subject: [PATCH 197/208] fix: SList::take and SList::swap reset the tag of the
 list, pop() running at the same time could return to the list items owned by
 somebody else, or lose items

---
 src/lightspeed/mt/slist.h | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/slist.h b/src/lightspeed/mt/slist.h
index 5b340f9..3b37348 100644
--- a/src/lightspeed/mt/slist.h
+++ b/src/lightspeed/mt/slist.h
@@ -152,14 +152,14 @@ namespace LightSpeed {
 		 */
 		 
 		void take(SList &source) {
-			_top = lockExchange(source._top,_top);
+			_top = exchangeTop(source._top,_top);
 		}
 		
 
 		///Swaps current object with source
 		/** Current object is changed atomically. source should not be accessed by multiple threads at time */
 		void swap(SList &source) {
-			source._top = lockExchange(_top,source._top);
+			source._top = exchangeTop(_top,source._top);
 		}
 
 		///Swaps content of slists, when top of current slist contain specified value
@@ -174,7 +174,7 @@ namespace LightSpeed {
 		 */
 		bool swapWhenTopIs(SList &source, T *condition) {
 			atomic x = ptrToCookie(condition,_top);
-			atomic q = lockCompareExchange(_top,x,source._top);
+			atomic q = lockCompareExchange(_top,x,nextCookie(x,source._top));
 			source._top = q;
 			return q == x;
 		}
@@ -189,6 +189,25 @@ namespace LightSpeed {
 		atomic _top;
 
 
+		///returns cookie of other list's top, which can be used to replace given cookie
+		/** Cookie is advanced the same way as in the pop(), other threads must recognize that the list
+		 has been changed even if they find the same item at the top of it */
+		static atomic nextCookie(atomic cookie, atomic other) {
+			return (other & ~mask) | ((cookie + 1) & mask);
+		}
+
+		///replaces content of list by other list
+		static atomic exchangeTop(atomic &list, atomic other) {
+			bool rep;
+			atomic ntop = list, ctop;
+			do {
+				ctop = ntop;
+				ntop = lockCompareExchange(list,ctop,nextCookie(ctop,other));
+				rep = ntop != ctop;
+			} while (rep);
+			return ctop;
+		}
+
 		static T *cookieToPtr(atomic cookie) {
 			return (T *)(cookie & ~mask);
 		}
-- 
2.43.0


From ec720d866f85a040d0ec5f5cdb19b002e93b5055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:35 +0000
Subject: [PATCH 198/208] fix: SList::swapWhenTopIs replaced the source list
 even if the lists were not swapped

---
 src/lightspeed/mt/slist.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/slist.h b/src/lightspeed/mt/slist.h
index 3b37348..c09e203 100644
--- a/src/lightspeed/mt/slist.h
+++ b/src/lightspeed/mt/slist.h
@@ -175,8 +175,9 @@ namespace LightSpeed {
 		bool swapWhenTopIs(SList &source, T *condition) {
 			atomic x = ptrToCookie(condition,_top);
 			atomic q = lockCompareExchange(_top,x,nextCookie(x,source._top));
+			if (q != x) return false;
 			source._top = q;
-			return q == x;
+			return true;
 		}
 
 		T *top() const {
-- 
2.43.0


From e1fd264993fc77ba978eaf802a9cd2cb1834f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:07 +0000
Subject: [PATCH 199/208] fix: one-character value of configuration preceded by
 one space was lost

---
 src/lightspeed/utils/configParser.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/configParser.tcc b/src/lightspeed/utils/configParser.tcc
index a00c6c6..5cde736 100644
--- a/src/lightspeed/utils/configParser.tcc
+++ b/src/lightspeed/utils/configParser.tcc
@@ -259,7 +259,7 @@ typename ConfigParser<Iter>::Str ConfigParser<Iter>::trim(const Str &other) {
     for (unsigned int i = 0; i < other.length(); i++)
         if (!isspace((unsigned char)other.at(i))) {
             begin = i;
-            end = 0;
+            end = i;
             for (i = i + 1; i < other.length(); i++)
                 if (!isspace((unsigned char)other.at(i))) end = i;
         }
-- 
2.43.0


From d30751150e7863d737f40eb223c8b3213d97eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:07 +0000
Subject: [PATCH 200/208] fix: last character of configuration was lost when
 the last line wasn't terminated

---
 src/lightspeed/utils/configParser.tcc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/utils/configParser.tcc b/src/lightspeed/utils/configParser.tcc
index 5cde736..170d1f0 100644
--- a/src/lightspeed/utils/configParser.tcc
+++ b/src/lightspeed/utils/configParser.tcc
@@ -225,12 +225,9 @@ typename ConfigParser<Iter>::Str ConfigParser<Iter>::parseValue() {
         if (nx != '"') throw Error(THISLOCATION,
 						Error::exceptingEndOfQuotedValue,bufferGet());
 
-    } else while (input.hasItems()) {
-			if (nx == '\r' || nx == '\n') {
-				break;
-			} else {
-				bufferPut(nx);
-			}
+    } else while (nx != '\r' && nx != '\n') {
+			bufferPut(nx);
+			if (!input.hasItems()) break;
 			nx = input.getNext();
     }
     return trim(bufferGet());
-- 
2.43.0


From 72163fd23ae435cd3272c5c3ead55902378bb42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:07 +0000
Subject: [PATCH 201/208] fix: escaped \b in configuration was read as \r,
 escaped non-ascii characters were dropped

---
 src/lightspeed/utils/configParser.h   |  2 +-
 src/lightspeed/utils/configParser.tcc | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/utils/configParser.h b/src/lightspeed/utils/configParser.h
index e7b4d7b..f573250 100644
--- a/src/lightspeed/utils/configParser.h
+++ b/src/lightspeed/utils/configParser.h
@@ -50,7 +50,7 @@ protected:
 
     Str parseFieldName();
     bool parseSpecialCommand();
-    char getNextEscaped();
+    int getNextEscaped();
 
     Str parseValue();
     void bufferInit();
diff --git a/src/lightspeed/utils/configParser.tcc b/src/lightspeed/utils/configParser.tcc
index 170d1f0..127cda9 100644
--- a/src/lightspeed/utils/configParser.tcc
+++ b/src/lightspeed/utils/configParser.tcc
@@ -188,20 +188,20 @@ bool ConfigParser<Iter>::parseSpecialCommand() {
 }
 
 template<typename Iter>
-char ConfigParser<Iter>::getNextEscaped() {
+int ConfigParser<Iter>::getNextEscaped() {
 	char nx = input.getNext();
 	switch (nx) {
 		case 'n':return('\n');
 		case 'r':return('\r');
 		case 't':return('\t');
 		case 'a':return('\a');
-		case 'b':return('\r');
+		case 'b':return('\b');
 		case '0':return('\0');
 		case '\r':
 		case '\n': while (input.hasItems() && isspace(input.peek()))
 						input.skip();
 				   return -1;
-		default: return(nx);
+		default: return((unsigned char)nx);
 	}
 }
 
@@ -214,8 +214,8 @@ typename ConfigParser<Iter>::Str ConfigParser<Iter>::parseValue() {
         while (input.hasItems()) {
         	nx = input.getNext();
 			if (nx == '\\' && input.hasItems()) {
-				nx = getNextEscaped();
-				if (nx>=0) bufferPut(nx);
+				int esc = getNextEscaped();
+				if (esc>=0) bufferPut((char)esc);
 			} else if (nx == '"' || nx == '\r' || nx == '\n' ) {
 				break;
 			} else {
-- 
2.43.0


From 1e34938a66267f603b471fd485f1d3486db9931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:07 +0000
Subject: [PATCH 202/208] fix: enumeration of configuration's fields ignored
 the prefix, and gave fields of other sections

---
 src/lightspeed/utils/configParser.cpp | 17 ++++-------------
 src/lightspeed/utils/configParser.h   |  4 ++--
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/lightspeed/utils/configParser.cpp b/src/lightspeed/utils/configParser.cpp
index 0ea3ec1..3954a0f 100644
--- a/src/lightspeed/utils/configParser.cpp
+++ b/src/lightspeed/utils/configParser.cpp
@@ -48,21 +48,12 @@ void IniConfigT::RequiredFieldException::message(ExceptionMsg &msg) const {
 }
 
 IniConfigT::Iterator::Iterator(const FieldMap &container, ConstStrA section, ConstStrA prefix)
-    		:innerIter(container.seek(SectionField(section,ConstStrA()))) {
-    		if (innerIter.hasItems()) {
-    			const FieldMap::Entity &e = innerIter.peek();
-    			if (e.key.section == section) {
-    				this->section = e.key.section;
-    				if (e.key.field.head(prefix.length()) == prefix) {
-    					prefix = e.key.field.head(prefix.length());
-    				}
-    			}
-    		}
-    	}
+    		:innerIter(container.seek(SectionField(section,prefix))),section(section),prefix(prefix) {}
 
 bool IniConfigT::Iterator::match(const FieldMap::Entity &e)const  {
-    		return e.key.section == section
-    				&& (prefix.empty() || e.key.field.head(prefix.length()) == prefix);
+    		StrCmpCI<char> cmp;
+    		return cmp(e.key.section,section) == cmpResultEqual
+    				&& cmp(e.key.field.head(prefix.length()),prefix) == cmpResultEqual;
     	}
 
 bool IniConfigT::Iterator::hasItems() const {
diff --git a/src/lightspeed/utils/configParser.h b/src/lightspeed/utils/configParser.h
index f573250..cf3179b 100644
--- a/src/lightspeed/utils/configParser.h
+++ b/src/lightspeed/utils/configParser.h
@@ -164,8 +164,8 @@ public:
 
     protected:
     	FieldMap::Iterator innerIter;
-    	ConstStrA section;
-    	ConstStrA prefix;
+    	StringA section;
+    	StringA prefix;
     	mutable FieldVal storedItem;
 
     	bool match(const FieldMap::Entity &e)const;
-- 
2.43.0


From 7596d8adbc4d1bb9aa69e729e8fd4a68ca6acd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:07 +0000
Subject: [PATCH 203/208] fix: section of configuration assigned to section of
 other configuration read values from the other configuration

---
 src/lightspeed/utils/configParser.cpp | 11 ++++++-----
 src/lightspeed/utils/configParser.h   |  6 +++---
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/lightspeed/utils/configParser.cpp b/src/lightspeed/utils/configParser.cpp
index 3954a0f..2086dc2 100644
--- a/src/lightspeed/utils/configParser.cpp
+++ b/src/lightspeed/utils/configParser.cpp
@@ -82,6 +82,7 @@ IniConfigT::Iterator IniConfigT::enumFields(ConstStrA section, ConstStrA prefix)
 
 
 IniConfigT::Section &IniConfigT::Section::operator=(const Section &other) {
+			owner = other.owner;
 			section = other.section;
 			prefix = other.prefix;
 			return *this;
@@ -89,19 +90,19 @@ IniConfigT::Section &IniConfigT::Section::operator=(const Section &other) {
 
 const IniConfigT::Str *IniConfigT::Section::getValue(const ConstStrA &field, natural index) const {
 			if (prefix.empty()) {
-				return owner.getValue(section,field,index);
+				return owner->getValue(section,field,index);
 			} else {
 				StringA fieldName(prefix+field);
-				return owner.getValue(section,fieldName,index);
+				return owner->getValue(section,fieldName,index);
 			}
 		}
 
 IniConfigT::Section IniConfigT::Section::openSection(const ConstStrA &name) const{
-			return Section(owner,StringA(section+ConstStrA(".")+name),ConstStrA());
+			return Section(*owner,StringA(section+ConstStrA(".")+name),ConstStrA());
 		}
 
 IniConfigT::Section IniConfigT::Section::openPrefix(const ConstStrA &pfx) const{
-			return Section(owner,section,StringA(prefix+pfx));
+			return Section(*owner,section,StringA(prefix+pfx));
 		}
 
 bool IniConfigT::Section::get(StringCore<char> &val, const ConstStrA &var, natural index ) const{
@@ -184,7 +185,7 @@ bool IniConfigT::Section::get(bool &val, const ConstStrA &var, natural index) co
 
 
 IniConfigT::Iterator IniConfigT::Section::getFwIter() const {
-			return owner.enumFields(section,prefix);
+			return owner->enumFields(section,prefix);
 		}
 
 
diff --git a/src/lightspeed/utils/configParser.h b/src/lightspeed/utils/configParser.h
index cf3179b..e92ae01 100644
--- a/src/lightspeed/utils/configParser.h
+++ b/src/lightspeed/utils/configParser.h
@@ -179,13 +179,13 @@ public:
     friend class Section;
     class Section {
 
-        const IniConfigT &owner;
+        const IniConfigT *owner;
 		StringA section,prefix;
 		mutable TextParser<char, SmallAlloc<256> > parser;
 
     public:
 		Section(const IniConfigT &owner, const StringA &section, const StringA &prefix)
-			:owner(owner),section(section),prefix(prefix) {}
+			:owner(&owner),section(section),prefix(prefix) {}
 
 		Section &operator=(const Section &other);
 
@@ -214,7 +214,7 @@ public:
 			}
 		}
 
-        const IniConfigT &getConfig() const {return owner;}
+        const IniConfigT &getConfig() const {return *owner;}
         const StringA &getSection() const {return section;}
 		const StringA &getPrefix() const {return prefix;}
 
-- 
2.43.0


From f48316f2f9355e23c8d779f804bccf7513907f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:07 +0000
Subject: [PATCH 204/208] fix: include in configuration without include handler
 read destroyed text

---
 src/lightspeed/utils/configParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/configParser.cpp b/src/lightspeed/utils/configParser.cpp
index 2086dc2..4074d39 100644
--- a/src/lightspeed/utils/configParser.cpp
+++ b/src/lightspeed/utils/configParser.cpp
@@ -27,7 +27,8 @@ IniConfigT::Str IniConfigT::addPool(ConstStrA text) {
 
 
 ConstStrA::Iterator IniConfigT::errorIncludeCB(ConstStrA) {
-		return ConstStrA().getFwIter();
+		static ConstStrA empty;
+		return empty.getFwIter();
 }
 
 
-- 
2.43.0


From 54613df4af28f3329b3bfac28057a56775fac23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:07 +0000
Subject: [PATCH 205/208] fix: error before the first section of configuration
 wasn't ignored

---
 src/lightspeed/utils/configParser.tcc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/configParser.tcc b/src/lightspeed/utils/configParser.tcc
index 127cda9..d2b1007 100644
--- a/src/lightspeed/utils/configParser.tcc
+++ b/src/lightspeed/utils/configParser.tcc
@@ -290,9 +290,14 @@ int ConfigParser<Iter>::skipNotInteresting() {
 template<typename Iter, typename Fn>
 void IniConfigT::merge(Iter &iter, bool ignoreErrors, Fn fn) {
 	ConfigParser<Iter> parser(iter);
-	parser.skipSection();
-	while (!parser.curSection.empty()) {
+	bool begin = true;
+	while (begin || !parser.curSection.empty()) {
 		try {
+			if (begin) {
+				parser.skipSection();
+				begin = false;
+				continue;
+			}
 			while (parser.getNextLine()) {
 				if (parser.curVar[0] == '.') {
 					if (parser.curVar == ".include") {
-- 
2.43.0


From 5a32bdb6d82c5e01f051ec5f580638b2de657d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:07 +0000
Subject: [PATCH 206/208] fix: empty item of URL query replaced the item
 following it

---
 src/lightspeed/utils/queryParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/queryParser.cpp b/src/lightspeed/utils/queryParser.cpp
index 4879e8b..4736e9d 100644
--- a/src/lightspeed/utils/queryParser.cpp
+++ b/src/lightspeed/utils/queryParser.cpp
@@ -63,8 +63,10 @@ void QueryParser::preload() {
 		ConstStrA field;
 		ConstStrA val;
 		if (q == naturalNull) {
-			if (itm.empty()) preload();
-			else {
+			if (itm.empty()) {
+				preload();
+				return;
+			} else {
 				field = itm;
 				val = ConstStrA("1");
 			}
-- 
2.43.0


From 1665bb79631c3b43396feee64f29a7e17038c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:07 +0000
Subject: [PATCH 207/208] fix: empty argument of command line was read behind
 its end

---
 src/lightspeed/base/framework/cmdLineIterator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/framework/cmdLineIterator.cpp b/src/lightspeed/base/framework/cmdLineIterator.cpp
index 93b1c47..9f79b49 100644
--- a/src/lightspeed/base/framework/cmdLineIterator.cpp
+++ b/src/lightspeed/base/framework/cmdLineIterator.cpp
@@ -34,8 +34,8 @@ const CmdLineItem & CmdLineIterator::peek() const
 	ConstStrW a = args[argPos];
 	if (charPos == 0) {
 		natural len = a.length();
-		if (a[0] == '-') {
-			if (len>1) {
+		if (len>1 && a[0] == '-') {
+			{
 				if (a[1] == '-') {
 					tmp = CmdLineItem(CmdLineItem::longSwitch,a.offset(2));
 					return tmp;
-- 
2.43.0


From f19fb9a1ba6d48c3bb7298d2d7ebab18c7476041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:07 +0000
Subject: [PATCH 208/208] fix: argument of command line which only begins by
 number was accepted as number

---
 src/lightspeed/base/framework/cmdLineIterator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/framework/cmdLineIterator.cpp b/src/lightspeed/base/framework/cmdLineIterator.cpp
index 9f79b49..c85883b 100644
--- a/src/lightspeed/base/framework/cmdLineIterator.cpp
+++ b/src/lightspeed/base/framework/cmdLineIterator.cpp
@@ -92,7 +92,8 @@ IApp::Args CmdLineIterator::getRemainArgs()
 integer CmdLineIterator::getNextNumber(natural base) {
 	ConstStrW text = getNextText();
 	integer out;
-	if (!parseSignedNumber(text.getFwIter(),out,base)) {
+	ConstStrW::Iterator iter = text.getFwIter();
+	if (!parseSignedNumber(iter,out,base) || iter.hasItems()) {
 		throw InvalidNumberFormatException(THISLOCATION,text);
 	}
 	return out;
-- 
2.43.0

