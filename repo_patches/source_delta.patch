From 8650e4505231afb824c46604d097c31969109448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:07 +0000
Subject: [PATCH 01/37] fix: ChanSemaphore with no permits must not let Acquire
 through on Release

---
 concurrent/sema.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/concurrent/sema.go b/concurrent/sema.go
index 17e0765..615c32e 100644
--- a/concurrent/sema.go
+++ b/concurrent/sema.go
@@ -62,6 +62,11 @@ func (s *ChanSemaphore) Acquire() {
 }
 
 func (s *ChanSemaphore) Release() {
+	if len(s.permits) == 0 {
+		// nothing acquired. Without this check, releasing an unbuffered channel(0 permits)
+		// would receive from a blocked Acquire and let it through
+		return
+	}
 	select {
 	case <-s.permits:
 	default:
-- 
2.43.0


From 77b9db367a41163ab79ddac70326b33c8367eed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:49 +0000
Subject: [PATCH 02/37] fix: Store.Update persists the accepted value, not the
 rejected one

---
 confstore/store.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index 0ae24ce..106805a 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -124,15 +124,18 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 }
 
 func (m *defaultImpl) Update(key string, value string) *KVError {
+	if key == "" {
+		return nil
+	}
 	err := m.UpdateNoPersist(key, value)
 	if err != nil {
-		err2 := m.persister.Save(key, value)
-		if err2 != nil {
-			simplelog.ErrLogger.Printf("error happened when persist key[%s] value[%s]\n", key, value)
-			return nil
-		}
+		return err
+	}
+	err2 := m.persister.Save(key, value)
+	if err2 != nil {
+		simplelog.ErrLogger.Printf("error happened when persist key[%s] value[%s]: %v\n", key, value, err2)
 	}
-	return err
+	return nil
 }
 
 func (m *defaultImpl) UpdateNoPersist(key string, value string) *KVError {
-- 
2.43.0


From 0700c44d5e2a07560855ad54405e47f0decbeadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:04 +0000
Subject: [PATCH 03/37] fix: Store.BatchUpdate persists exactly the entries it
 accepted

---
 confstore/store.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index 106805a..d9337df 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -100,25 +100,21 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 		return nil
 	}
 
+	okKvStrs := make([]*KVStr, 0, len(kvStrs))
 	for _, kvStr := range kvStrs {
 		error := m.UpdateNoPersist(kvStr.Key, kvStr.Value)
 		if error != nil {
 			errors = append(errors, error)
+			continue
 		}
-	}
-
-	// batch persist kvStrs
-	errorKeys := make(map[string]bool)
-	for _, kvError := range errors {
-		errorKeys[kvError.Key] = true
-	}
-	okKvStrs := make([]*KVStr, 0, len(kvStrs))
-	for _, kvStr := range kvStrs {
-		if errorKeys[kvStr.Key] {
+		if kvStr.Key == "" {
+			// ignored by UpdateNoPersist
 			continue
 		}
 		okKvStrs = append(okKvStrs, kvStr)
 	}
+
+	// batch persist kvStrs
 	m.persister.BatchSave(okKvStrs)
 	return errors
 }
-- 
2.43.0


From fd89f03b12ce672b13fc0d8f4624241a62012631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:05 +0000
Subject: [PATCH 04/37] fix: Store update must not store a value for a key
 deregistered meanwhile

---
 confstore/store.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index d9337df..2c99a8b 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -139,10 +139,12 @@ func (m *defaultImpl) UpdateNoPersist(key string, value string) *KVError {
 		return nil
 	}
 
+	// held until the value is stored, otherwise key could be deregistered(and registered again
+	// with another ValueProcessor) after being validated
 	m.kvProcessorLock.RLock()
-	p, hit := m.kvProcessor[key]
-	m.kvProcessorLock.RUnlock()
+	defer m.kvProcessorLock.RUnlock()
 
+	p, hit := m.kvProcessor[key]
 	if !hit {
 		return &KVError{
 			Key:   key,
-- 
2.43.0


From a326f6dc5e8da9bc4433b760c37bfa9160fb22b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:08 +0000
Subject: [PATCH 05/37] fix: concurrent changes of a Store key leave memory and
 Persister in agreement

---
 confstore/store.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/confstore/store.go b/confstore/store.go
index 2c99a8b..2d214e7 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -9,6 +9,10 @@ import (
 )
 
 type defaultImpl struct {
+	// serializes operations that change both memory and persister, so that they agree afterwards.
+	// acquired before the other locks
+	persistLock sync.Mutex
+
 	kvProcessorLock *sync.RWMutex
 	kvProcessor     map[string]ValueProcessor
 
@@ -75,6 +79,9 @@ func (m *defaultImpl) DeregisterKey(key string) {
 		return
 	}
 
+	m.persistLock.Lock()
+	defer m.persistLock.Unlock()
+
 	m.kvProcessorLock.Lock()
 	defer m.kvProcessorLock.Unlock()
 
@@ -100,6 +107,9 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 		return nil
 	}
 
+	m.persistLock.Lock()
+	defer m.persistLock.Unlock()
+
 	okKvStrs := make([]*KVStr, 0, len(kvStrs))
 	for _, kvStr := range kvStrs {
 		error := m.UpdateNoPersist(kvStr.Key, kvStr.Value)
@@ -123,6 +133,9 @@ func (m *defaultImpl) Update(key string, value string) *KVError {
 	if key == "" {
 		return nil
 	}
+	m.persistLock.Lock()
+	defer m.persistLock.Unlock()
+
 	err := m.UpdateNoPersist(key, value)
 	if err != nil {
 		return err
@@ -254,6 +267,9 @@ func (m *defaultImpl) GetValueString(key string) (v string, hit bool) {
 }
 
 func (m *defaultImpl) ResetKey(key string) {
+	m.persistLock.Lock()
+	defer m.persistLock.Unlock()
+
 	m.kvLock.Lock()
 	defer m.kvLock.Unlock()
 
-- 
2.43.0


From 864fd6f9e6256eaab95d8d976b9d5aefe4ad027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:32 +0000
Subject: [PATCH 06/37] fix: Receiver.CollectTimeout stops at a closed channel
 instead of collecting nils

---
 event/bus.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/event/bus.go b/event/bus.go
index fe214a0..9ebb638 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -152,14 +152,18 @@ drained:
 	return data
 }
 
-// CollectTimeout collects elements of Receiver.C until timeout
+// CollectTimeout collects elements of Receiver.C until timeout or Receiver.C is closed
 func (r *Receiver) CollectTimeout(timeout time.Duration) (data []interface{}) {
 	timer := time.NewTimer(timeout)
+	defer timer.Stop()
 	data = make([]interface{}, 0, 10)
 drained:
 	for {
 		select {
-		case d := <-r.C:
+		case d, ok := <-r.C:
+			if !ok {
+				break drained
+			}
 			data = append(data, d)
 		case <-timer.C:
 			break drained
-- 
2.43.0


From f833c0ca932a5f0071accf59082b5761dcf216d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:37 +0000
Subject: [PATCH 07/37] fix: closing a Receiver twice, or one replaced by name,
 must not close another one or break the bus

---
 event/bus.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/event/bus.go b/event/bus.go
index 9ebb638..9dfd008 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -50,7 +50,7 @@ func (b *FanOutBus) NewRecv(name string, bufSize int) *Receiver {
 }
 
 // NewRecvStrategy make a new *Receiver and registered to event bus. You can make a Receiver at any time
-// except event bus is closed. Any events sent to event bus before Receiver making maybe
+// except event bus is closed. If there is already a Receiver of that name, it's closed and replaced. Any events sent to event bus before Receiver making maybe
 // or maybe not be sent to them.
 //
 //	name: receiver's name
@@ -71,8 +71,11 @@ func (b *FanOutBus) NewRecvStrategy(name string, bufSize int, fullStrategy FullS
 	}
 
 	b.recvMapLock.Lock()
+	defer b.recvMapLock.Unlock()
+	if replaced, hit := b.recvMap[name]; hit {
+		close(replaced.ch)
+	}
 	b.recvMap[name] = recv
-	b.recvMapLock.Unlock()
 
 	return recv
 }
@@ -103,11 +106,15 @@ func (b *FanOutBus) doDispatch() {
 	}
 }
 
-func (b *FanOutBus) deregisterRecv(name string) {
+func (b *FanOutBus) deregisterRecv(recv *Receiver) {
 	b.recvMapLock.Lock()
-	close(b.recvMap[name].ch)
-	delete(b.recvMap, name)
-	b.recvMapLock.Unlock()
+	defer b.recvMapLock.Unlock()
+	if b.recvMap[recv.name] != recv {
+		// already closed, or replaced by a receiver of the same name
+		return
+	}
+	close(recv.ch)
+	delete(b.recvMap, recv.name)
 }
 
 // Strategy for when Receiver.C is full
@@ -131,7 +138,7 @@ type Receiver struct {
 
 // Close Receiver.C, deregistered itself from event bus
 func (r *Receiver) Close() {
-	r.bus.deregisterRecv(r.name)
+	r.bus.deregisterRecv(r)
 }
 
 // Drain drains Receiver.C until it's empty
-- 
2.43.0


From c418640bf63ecc3da757a346edd339293366cca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:40 +0000
Subject: [PATCH 08/37] fix: SyncFixedWindow computes the window boundary in
 integers

---
 ratelimiter/fixedwindow.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ratelimiter/fixedwindow.go b/ratelimiter/fixedwindow.go
index c7abf31..7091f67 100644
--- a/ratelimiter/fixedwindow.go
+++ b/ratelimiter/fixedwindow.go
@@ -19,7 +19,6 @@ package ratelimiter
 
 import (
 	gtime "github.com/chanjarster/gears/util/time"
-	"math"
 	"sync"
 	"time"
 )
@@ -99,6 +98,9 @@ func (s *SyncFixedWindow) reset(ts int64) {
 	if s.contains(ts) {
 		return
 	}
-	s.until += int64(math.Ceil(float64(ts-s.until)/float64(s.windowSize))) * s.windowSize
+	if s.windowSize > 0 {
+		// ceil((ts - until) / windowSize), float64 is not precise enough for nanoseconds since epoch
+		s.until += ((ts-s.until-1)/s.windowSize + 1) * s.windowSize
+	}
 	s.count = 0
 }
-- 
2.43.0


From 5d56e6f4199503b8ce8898598c8ee49dad909029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:13 +0000
Subject: [PATCH 09/37] fix: token buckets issue the tokens of each second
 exactly once

A full bucket did not advance the issuing time, so idle time was credited again
after the first acquisition; fractions of a second were lost at each issuing;
the atomic bucket could issue the same second twice.
---
 ratelimiter/tokenbucket.go | 61 ++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/ratelimiter/tokenbucket.go b/ratelimiter/tokenbucket.go
index 7ded46a..ad1668d 100644
--- a/ratelimiter/tokenbucket.go
+++ b/ratelimiter/tokenbucket.go
@@ -83,24 +83,23 @@ func (t *SyncTokenBucket) Acquire() bool {
 }
 
 func (t *SyncTokenBucket) issueIfNecessary() {
-	if t.tokens >= t.capacity {
+	elapse := t.nowFn().UnixNano() - t.lastIssueTimestamp
+	seconds := elapse / int64(time.Second)
+	if seconds <= 0 {
 		return
 	}
-	now := t.nowFn().UnixNano()
 
-	elapse := now - t.lastIssueTimestamp
-	delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)
+	// advance even if the bucket is full, time passed while it's full issues nothing.
+	// advance by whole seconds, the remainder counts for next issuing
+	t.lastIssueTimestamp += seconds * int64(time.Second)
 
-	if delta == 0 {
+	if t.tokens >= t.capacity {
 		return
 	}
-
-	t.tokens += int(delta)
+	t.tokens += int(seconds * int64(t.issueRatePerSecond))
 	if t.tokens > t.capacity {
 		t.tokens = t.capacity
 	}
-
-	t.lastIssueTimestamp = now
 }
 
 // TokenBucket implementation using "sync/atomic" package.
@@ -138,40 +137,38 @@ func (t *AtomicTokenBucket) Acquire() bool {
 func (t *AtomicTokenBucket) issueIfNecessary() {
 
 	for {
-		oldTokens := atomic.LoadInt64(&t.tokens)
-		if oldTokens >= int64(t.capacity) {
+		lastIssue := atomic.LoadInt64(&t.lastIssueTimestamp)
+		elapse := t.nowFn().UnixNano() - lastIssue
+		seconds := elapse / int64(time.Second)
+		if seconds <= 0 {
 			return
 		}
 
-		oldLit := atomic.LoadInt64(&t.lastIssueTimestamp)
-		now := t.nowFn().UnixNano()
-
-		nowNano := now
-		elapse := nowNano - oldLit
-		delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)
-
-		if delta == 0 {
+		// see SyncTokenBucket. Only the one who advanced the timestamp issues tokens for that time
+		if atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, lastIssue, lastIssue+seconds*int64(time.Second)) {
+			t.issue(seconds * int64(t.issueRatePerSecond))
 			return
 		}
+	}
 
-		if oldTokens+delta > int64(t.capacity) {
-			delta = int64(t.capacity) - oldTokens
-		}
+}
+
+func (t *AtomicTokenBucket) issue(delta int64) {
 
-		s1 := atomic.CompareAndSwapInt64(&t.tokens, oldTokens, oldTokens+delta)
-		if !s1 {
-			continue
+	for {
+		oldTokens := atomic.LoadInt64(&t.tokens)
+		if oldTokens >= int64(t.capacity) {
+			return
 		}
 
-		s2 := atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, nowNano)
-		if !s2 {
-			if s1 {
-				atomic.AddInt64(&t.tokens, -delta)
-			}
-			continue
+		newTokens := oldTokens + delta
+		if newTokens > int64(t.capacity) {
+			newTokens = int64(t.capacity)
 		}
 
-		break
+		if atomic.CompareAndSwapInt64(&t.tokens, oldTokens, newTokens) {
+			return
+		}
 	}
 
 }
-- 
2.43.0


From 32808c11da56abecbb0799a5d433c41bbfdb7404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:19 +0000
Subject: [PATCH 10/37] fix: IsBlocked of a cluster TtlRateLimiter looks at the
 hash tagged block key

---
 ratelimiter/ttl_ratelimiter_redis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index c0e5f6d..8601ef1 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -163,6 +163,10 @@ func (r *redisTtlRateLimiter) IsBlockedContext(ctx context.Context, blockKey str
 	result := &Result{}
 	blockKey = blockKey + suffix
 
+	if r.hashTag != "" {
+		blockKey = blockKey + r.hashTag
+	}
+
 	//local keyb = KEYS[1]
 	raw, err := r.redisClient.WithContext(ctx).EvalSha(
 		scriptSha2,
-- 
2.43.0


From ea974ae67531b4139673958580b89d6637d2cfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:26 +0000
Subject: [PATCH 11/37] fix: TtlRateLimiter keeps request records for the whole
 window even if timeout is shorter

---
 ratelimiter/ttl_ratelimiter_redis.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index 8601ef1..6328a2c 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -75,7 +75,7 @@ local size = redis.call('LLEN', key)
 if size < cap
 then
   redis.call('RPUSH', key, now)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, math.max(exp, win) * 2)
   return {0, 0, 0, ''}
 end
 
@@ -93,7 +93,7 @@ local list = redis.call('LRANGE', key, 0, 0)
 if table.getn(list) == 0
 then
   redis.call('RPUSH', key, now)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, math.max(exp, win) * 2)
   return {0, 0, 0, ''}
 end
 
@@ -102,7 +102,7 @@ if now - oldest > win
 then
   redis.call('RPUSH', key, now)
   redis.call('LPOP', key)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, math.max(exp, win) * 2)
   return {0, 0, 0, ''}
 end
 
-- 
2.43.0


From 4eeb1218d32da7f54f0149d361a2a764bb7bbb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:33 +0000
Subject: [PATCH 12/37] fix: TtlRateLimiter reports ttl > 0 as long as the
 block lasts, TTL rounds the last half second to 0

---
 ratelimiter/ttl_ratelimiter_redis.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index 6328a2c..fc6918a 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -66,7 +66,7 @@ end
 
 if redis.call('EXISTS', keyb) == 1
 then
-  local ttl = redis.call('TTL', keyb)
+  local ttl = math.max(1, math.ceil(redis.call('PTTL', keyb) / 1000))
   local omsg = redis.call('GET', keyb)
   return {1, 0, ttl, omsg}
 end
@@ -115,7 +115,7 @@ return {1, 1, exp, msg}
 
 if redis.call('EXISTS', keyb) == 1
 then
-  local ttl = redis.call('TTL', keyb)
+  local ttl = math.max(1, math.ceil(redis.call('PTTL', keyb) / 1000))
   local omsg = redis.call('GET', keyb)
   return {1, 0, ttl, omsg}
 end
-- 
2.43.0


From 49d6db7a40fa2c6e59e3dd0d0e159da056461c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:35 +0000
Subject: [PATCH 13/37] fix: TaskManager does not keep a task that failed to
 start

---
 schedule/task_manager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schedule/task_manager.go b/schedule/task_manager.go
index 7e4485b..c46e558 100644
--- a/schedule/task_manager.go
+++ b/schedule/task_manager.go
@@ -57,8 +57,9 @@ func (m *taskManager) Register(task Task) error {
 		return errors.New(fmt.Sprintf("task[%s] duplicated", task.Name()))
 	}
 
-	m.taskMap[task.Name()] = task
+	// panics if task can't be started, it must not take the name in that case
 	task.MustStart()
+	m.taskMap[task.Name()] = task
 	return nil
 }
 
-- 
2.43.0


From e32dc5eb2bd0613b4cbe586ec5a1b2867120be49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:37 +0000
Subject: [PATCH 14/37] fix: reading a public key that is not RSA returns an
 error instead of panicking

---
 util/rsa/util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/rsa/util.go b/util/rsa/util.go
index df1c2e1..fd0bc9f 100644
--- a/util/rsa/util.go
+++ b/util/rsa/util.go
@@ -77,7 +77,11 @@ func ReadPublicKeyBytes(pemBytes []byte) (*rsa.PublicKey, error) {
 	if err != nil {
 		return nil, err
 	}
-	return pub.(*rsa.PublicKey), nil
+	rsaPub, ok := pub.(*rsa.PublicKey)
+	if !ok {
+		return nil, fmt.Errorf("expected RSA PUBLIC KEY, got: %T", pub)
+	}
+	return rsaPub, nil
 }
 
 func ReadX509Certificate(pem string) (*x509.Certificate, error) {
-- 
2.43.0


From 03cba02d62ee690e6cb6e7225ed3e407144cda74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:38 +0000
Subject: [PATCH 15/37] fix: CssColorHex matches the whole value

---
 confstore/procs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confstore/procs.go b/confstore/procs.go
index e3effbe..3e44ad3 100644
--- a/confstore/procs.go
+++ b/confstore/procs.go
@@ -165,7 +165,7 @@ func (c *cssColorHex) Validate(value string) (ok bool, err string) {
 		return true, ""
 	}
 
-	match, error := regexp.MatchString("#[a-fA-F0-9]{6}", value)
+	match, error := regexp.MatchString("^#[a-fA-F0-9]{6}$", value)
 	if error != nil {
 		return false, error.Error()
 	}
-- 
2.43.0


From e6c8e52ca1a91936d6914d781ff1890cf866c767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 16/37] fix: a null section in yaml must not discard its
 environment variables and flags

---
 conf/reflect.go | 37 +++++++++++++++++++++++++++++++++++++
 conf/yaml.go    |  4 ++++
 2 files changed, 41 insertions(+)

diff --git a/conf/reflect.go b/conf/reflect.go
index 1272de6..7b66978 100644
--- a/conf/reflect.go
+++ b/conf/reflect.go
@@ -58,6 +58,43 @@ func initPtrValue(v reflect.Value, path string) {
 
 }
 
+// Remember non-nil pointers of p's fields, the returned function puts back those have been set to nil since then
+func keepPtrs(p interface{}) (restore func()) {
+	type kept struct {
+		field reflect.Value
+		ptr   reflect.Value
+	}
+	ptrs := make([]kept, 0)
+
+	var visit func(v reflect.Value)
+	visit = func(v reflect.Value) {
+		if v.Kind() == reflect.Ptr {
+			if v.IsNil() {
+				return
+			}
+			if v.CanSet() {
+				ptrs = append(ptrs, kept{field: v, ptr: reflect.ValueOf(v.Interface())})
+			}
+			v = v.Elem()
+		}
+		if !v.CanSet() || v.Kind() != reflect.Struct {
+			return
+		}
+		for i := 0; i < v.NumField(); i++ {
+			visit(v.Field(i))
+		}
+	}
+	visit(reflect.ValueOf(p))
+
+	return func() {
+		for _, k := range ptrs {
+			if k.field.IsNil() {
+				k.field.Set(k.ptr)
+			}
+		}
+	}
+}
+
 // Field visitor
 //
 // args:
diff --git a/conf/yaml.go b/conf/yaml.go
index ad2c073..8cfa92c 100644
--- a/conf/yaml.go
+++ b/conf/yaml.go
@@ -32,6 +32,10 @@ func (y *yamlFileResolver) Resolve(p interface{}) error {
 		return err
 	}
 
+	// "foo:"(null) in yaml sets pointer field Foo to nil, but env and flag are going to be
+	// set on what it pointed to
+	defer keepPtrs(p)()
+
 	err = yaml.Unmarshal(bytes, p)
 	if err != nil {
 		return err
-- 
2.43.0


From 704c669a9220d11f9a0a42c97539d04e8230209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 17/37] fix: String() of database confs prints MaxOpenConns as
 MaxOpenConns

---
 confs/mysql.go      | 2 +-
 confs/oracle.go     | 2 +-
 confs/postgresql.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/confs/mysql.go b/confs/mysql.go
index d754b5d..7fc9902 100644
--- a/confs/mysql.go
+++ b/confs/mysql.go
@@ -85,7 +85,7 @@ type MysqlConf struct {
 
 func (m *MysqlConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Database: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ReadTimeout: %v, WriteTimeout: %v, Timeout: %v, Loc: %v, ParseTime: %v, Params: %v}",
-		m.Host, m.Port, m.Database, m.MaxIdleConns, m.MaxIdleConns, m.ConnMaxLifetime, m.ReadTimeout,
+		m.Host, m.Port, m.Database, m.MaxOpenConns, m.MaxIdleConns, m.ConnMaxLifetime, m.ReadTimeout,
 		m.WriteTimeout, m.Timeout, m.Loc, m.ParseTime, m.Params)
 }
 
diff --git a/confs/oracle.go b/confs/oracle.go
index a8e100e..cf00ca6 100644
--- a/confs/oracle.go
+++ b/confs/oracle.go
@@ -60,7 +60,7 @@ type OracleConf struct {
 
 func (c *OracleConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Service: %s, Sid: %s, Servers: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ConnectTimeout: %v, Params: %v}",
-		c.Host, c.Port, c.Service, c.Sid, c.Servers, c.MaxIdleConns, c.MaxIdleConns,
+		c.Host, c.Port, c.Service, c.Sid, c.Servers, c.MaxOpenConns, c.MaxIdleConns,
 		c.ConnMaxLifetime, c.ConnectTimeout, c.Params)
 }
 
diff --git a/confs/postgresql.go b/confs/postgresql.go
index b52cb87..9da0b78 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -58,7 +58,7 @@ type PostgresqlConf struct {
 
 func (c *PostgresqlConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Database: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ConnectTimeout: %v, Params: %v}",
-		c.Host, c.Port, c.Database, c.MaxIdleConns, c.MaxIdleConns,
+		c.Host, c.Port, c.Database, c.MaxOpenConns, c.MaxIdleConns,
 		c.ConnMaxLifetime, c.ConnectTimeout, c.Params)
 }
 
-- 
2.43.0


From 813ed09cffad6c4b676ec464fedeba82776a9df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:29 +0000
Subject: [PATCH 18/37] fix: Elasticsearch connection limits of EsConf are set
 to the matching transport limits

---
 confs/es.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/confs/es.go b/confs/es.go
index bcc000d..d8c8586 100644
--- a/confs/es.go
+++ b/confs/es.go
@@ -34,8 +34,9 @@ func NewEsClient(conf *EsConf, customizer EsConfigCustomizer) *elasticsearch.Cli
 	}
 
 	transport := http.DefaultTransport.(*http.Transport).Clone()
-	transport.MaxIdleConnsPerHost = conf.MaxConnsPerHost
-	transport.MaxIdleConns = conf.MaxIdleConnsPerHost
+	transport.MaxConnsPerHost = conf.MaxConnsPerHost
+	transport.MaxIdleConnsPerHost = conf.MaxIdleConnsPerHost
+	transport.MaxIdleConns = 0 // no limit across hosts, limited per host
 	transport.ResponseHeaderTimeout = time.Second * 60
 
 	esConf.Transport = transport
-- 
2.43.0


From df600c103eff7167103117d9855d416b888ea47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:32 +0000
Subject: [PATCH 19/37] fix: FastHttpClient honours SslTrustMode CUSTOM without
 a client certificate

---
 confs/fasthttpclient.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/confs/fasthttpclient.go b/confs/fasthttpclient.go
index d9ff944..beff76a 100644
--- a/confs/fasthttpclient.go
+++ b/confs/fasthttpclient.go
@@ -97,6 +97,7 @@ func NewFastHttpClient(hcConf *FastHttpClientConf, customizer FastHttpClientCust
 			appendCertPool(certPool, cert)
 		}
 		tlsConfig.RootCAs = certPool
+		tlsConfigured = true
 	} else if hcConf.SslTrustMode == "INSECURE" {
 		tlsConfig.InsecureSkipVerify = true
 		tlsConfigured = true
-- 
2.43.0


From cde04a4893c6d49e2fb8d5b89021a8a9970b6ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:34 +0000
Subject: [PATCH 20/37] fix: fasthttp pprof handler accepts passwords
 containing a colon

---
 confs/pprof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confs/pprof.go b/confs/pprof.go
index 7d0cc68..5db715f 100644
--- a/confs/pprof.go
+++ b/confs/pprof.go
@@ -101,7 +101,7 @@ func NewFasthttpRoutingPprofHandler(conf *PprofConf) routing.Handler {
 			return nil
 		}
 
-		user_pass := strings.Split(string(b), ":")
+		user_pass := strings.SplitN(string(b), ":", 2)
 		if len(user_pass) != 2 {
 			refuse(ctx)
 			return nil
-- 
2.43.0


From f5799accec6699637e55badd365abd98b71155eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 21/37] fix: Postgresql DSN escapes user, password and
 database, and keeps option values whole

---
 confs/postgresql.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/confs/postgresql.go b/confs/postgresql.go
index 9da0b78..9b3885b 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -88,16 +88,18 @@ func NewPostgresqlDb(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCustom
 }
 
 func buildPgDsn(conf *PostgresqlConf, options map[string]string) string {
-	ret := fmt.Sprintf("postgres://%s:%s@%s:%d/%s?", conf.Username, conf.Password, conf.Host, conf.Port, conf.Database)
+	query := url.Values{}
 	for key, val := range options {
-		val = strings.TrimSpace(val)
-		for _, temp := range strings.Split(val, ",") {
-			temp = strings.TrimSpace(temp)
-			ret += fmt.Sprintf("%s=%s&", key, url.QueryEscape(temp))
-		}
+		query.Set(key, val)
+	}
+	dsn := url.URL{
+		Scheme:   "postgres",
+		User:     url.UserPassword(conf.Username, conf.Password),
+		Host:     fmt.Sprintf("%s:%d", conf.Host, conf.Port),
+		Path:     "/" + conf.Database,
+		RawQuery: query.Encode(),
 	}
-	ret = strings.TrimRight(ret, "&")
-	return ret
+	return dsn.String()
 }
 
 func preparePgUrlOptions(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCustomizer) map[string]string {
-- 
2.43.0


From c78049c5f90285224e38395073ad1d27a64711a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:57 +0000
Subject: [PATCH 22/37] fix: tracing middleware returns the handler's error to
 the router instead of swallowing it

---
 skywalking/fasthttp-routing/middleware.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/skywalking/fasthttp-routing/middleware.go b/skywalking/fasthttp-routing/middleware.go
index dbe5250..b05ceae 100644
--- a/skywalking/fasthttp-routing/middleware.go
+++ b/skywalking/fasthttp-routing/middleware.go
@@ -6,6 +6,7 @@ import (
 	"github.com/SkyAPM/go2sky"
 	routing "github.com/qiangxue/fasthttp-routing"
 	agentv3 "skywalking.apache.org/repo/goapi/collect/language/agent/v3"
+	"net/http"
 	"strconv"
 	"time"
 )
@@ -79,10 +80,16 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 
 		SetSwContext(rCtx, spanCtx)
 
-		err = rCtx.Next()
-		if err != nil {
+		handlerErr := rCtx.Next()
+		statusCode := rCtx.Response.StatusCode()
+		if handlerErr != nil {
+			// router responds according to the error, see routing.Router
+			statusCode = http.StatusInternalServerError
+			if httpErr, ok := handlerErr.(routing.HTTPError); ok {
+				statusCode = httpErr.StatusCode()
+			}
 			if options.logError {
-				span.Error(time.Now(), err.Error())
+				span.Error(time.Now(), handlerErr.Error())
 			} else {
 				span.Error(time.Now())
 			}
@@ -99,9 +106,9 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 				span.Error(time.Now())
 			}
 		}
-		span.Tag(go2sky.TagStatusCode, strconv.Itoa(rCtx.Response.StatusCode()))
+		span.Tag(go2sky.TagStatusCode, strconv.Itoa(statusCode))
 		span.End()
-		return nil
+		return handlerErr
 	}
 
 }
-- 
2.43.0


From be7bef9134a672c2659827d1ada8d6ef37ccaf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:58 +0000
Subject: [PATCH 23/37] fix: redis tracing hook must not panic, fail the
 command or end someone else's span if it can't create one

---
 skywalking/redis/hook.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/skywalking/redis/hook.go b/skywalking/redis/hook.go
index d3367cf..489aa36 100644
--- a/skywalking/redis/hook.go
+++ b/skywalking/redis/hook.go
@@ -64,12 +64,24 @@ func NewHook(tracer *go2sky.Tracer, opts ...Option) rv7.Hook {
 	}
 }
 
+// context key of the span created by this hook for the command(s) in process
+type spanCtxKey struct{}
+
+func spanOf(ctx context.Context) go2sky.Span {
+	span, _ := ctx.Value(spanCtxKey{}).(go2sky.Span)
+	return span
+}
+
 func noopInjector(headerKey, headerValue string) error {
 	return nil
 }
 
 func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.Context, error) {
 	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, cmd.Name(), h.opts.peer, noopInjector)
+	if err != nil {
+		// failed to trace, command must not be affected
+		return context.WithValue(ctx, spanCtxKey{}, nil), nil
+	}
 
 	if h.opts.reportArgs {
 		span.Tag(go2sky.TagDBStatement, cmd.String())
@@ -81,11 +93,11 @@ func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.
 	span.Tag(go2sky.TagDBType, "Redis")
 	span.SetComponent(componentID)
 	span.SetSpanLayer(agentv3.SpanLayer_Cache)
-	return nCtx, err
+	return context.WithValue(nCtx, spanCtxKey{}, span), nil
 }
 
 func (h *tracerHook) AfterProcess(ctx context.Context, cmd rv7.Cmder) error {
-	span := go2sky.ActiveSpan(ctx)
+	span := spanOf(ctx)
 	if span == nil {
 		return nil
 	}
@@ -109,6 +121,10 @@ func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder
 	})
 
 	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, opName, h.opts.peer, noopInjector)
+	if err != nil {
+		// failed to trace, command must not be affected
+		return context.WithValue(ctx, spanCtxKey{}, nil), nil
+	}
 
 	if h.opts.reportArgs {
 		stmt := quickJoin(cmds, "|", func(obj rv7.Cmder) string {
@@ -122,7 +138,7 @@ func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder
 	span.Tag(go2sky.TagDBType, "Redis")
 	span.SetComponent(componentID)
 	span.SetSpanLayer(agentv3.SpanLayer_Cache)
-	return nCtx, err
+	return context.WithValue(nCtx, spanCtxKey{}, span), nil
 
 }
 
@@ -140,7 +156,7 @@ func quickJoin(objs []rv7.Cmder, sep string, stringer stringer) string {
 }
 
 func (h *tracerHook) AfterProcessPipeline(ctx context.Context, cmds []rv7.Cmder) error {
-	span := go2sky.ActiveSpan(ctx)
+	span := spanOf(ctx)
 	if span == nil {
 		return nil
 	}
-- 
2.43.0


From 31bbb62f907e648ee9bd1b3889a3bece8dc2178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:44 +0000
Subject: [PATCH 24/37] fix: hash tag of a cluster TtlRateLimiter works for
 keys containing braces

---
 ratelimiter/ttl_ratelimiter_redis.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index fc6918a..27b761a 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -164,7 +164,7 @@ func (r *redisTtlRateLimiter) IsBlockedContext(ctx context.Context, blockKey str
 	blockKey = blockKey + suffix
 
 	if r.hashTag != "" {
-		blockKey = blockKey + r.hashTag
+		blockKey = r.hashTag + blockKey
 	}
 
 	//local keyb = KEYS[1]
@@ -198,8 +198,9 @@ func (r *redisTtlRateLimiter) ShouldBlock2Context(ctx context.Context, key strin
 	blockKey = blockKey + suffix
 
 	if r.hashTag != "" {
-		key = key + r.hashTag
-		blockKey = blockKey + r.hashTag
+		// redis takes the first {...} as hash tag, key itself may contain one, so put ours in front
+		key = r.hashTag + key
+		blockKey = r.hashTag + blockKey
 	}
 
 	//local key = KEYS[1]
-- 
2.43.0


From b33e012757f5337a76b1d0af789af9c2e06f7b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:32 +0000
Subject: [PATCH 25/37] fix: closing a Receiver that blocks the bus must not
 deadlock

---
 event/bus.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/event/bus.go b/event/bus.go
index 9dfd008..99b5ed0 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -68,6 +68,7 @@ func (b *FanOutBus) NewRecvStrategy(name string, bufSize int, fullStrategy FullS
 		name:     name,
 		bus:      b,
 		strategy: fullStrategy,
+		closing:  make(chan struct{}),
 	}
 
 	b.recvMapLock.Lock()
@@ -134,10 +135,14 @@ type Receiver struct {
 	name     string
 	bus      *FanOutBus
 	strategy FullStrategy
+
+	closing     chan struct{} // closed when Close is called, so a blocked event doesn't block Close
+	closingOnce sync.Once
 }
 
 // Close Receiver.C, deregistered itself from event bus
 func (r *Receiver) Close() {
+	r.closingOnce.Do(func() { close(r.closing) })
 	r.bus.deregisterRecv(r)
 }
 
@@ -188,6 +193,9 @@ func (r *Receiver) onEvent(v interface{}) {
 			log.Println("receiver[", r.name, "]: can't catch-up, dropping event")
 		}
 	case Block:
-		r.ch <- v
+		select {
+		case r.ch <- v:
+		case <-r.closing:
+		}
 	}
 }
-- 
2.43.0


From a73473bffb192eda0cac5b1356f0930b5c4adbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:42 +0000
Subject: [PATCH 26/37] fix: fields of defined types (type Foo int) don't make
 conf.Load panic

---
 conf/env.go     |  2 +-
 conf/flag.go    |  2 +-
 conf/reflect.go | 21 +++++++++++++++++++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/conf/env.go b/conf/env.go
index 491235b..ef820f7 100644
--- a/conf/env.go
+++ b/conf/env.go
@@ -45,7 +45,7 @@ func (r *envResolver) init(p interface{}) {
 		envName := envStyle(path)
 		r.environ = append(r.environ, envName)
 
-		vi := v.Addr().Interface()
+		vi := basicPtr(v)
 		vt := v.Type()
 		switch vt {
 		case reflect.TypeOf(time.Nanosecond):
diff --git a/conf/flag.go b/conf/flag.go
index c8738ea..f04b568 100644
--- a/conf/flag.go
+++ b/conf/flag.go
@@ -45,7 +45,7 @@ func (r *flagResolver) init(p interface{}) {
 
 		flagName := flagStyle(path)
 
-		vi := v.Addr().Interface()
+		vi := basicPtr(v)
 
 		vt := v.Type()
 		switch vt {
diff --git a/conf/reflect.go b/conf/reflect.go
index 7b66978..d40412d 100644
--- a/conf/reflect.go
+++ b/conf/reflect.go
@@ -19,6 +19,7 @@ package conf
 
 import (
 	"reflect"
+	"time"
 )
 
 // Initialize p's field. If field is exported and is a pointer,
@@ -186,3 +187,23 @@ func visitExportedFieldsPath(f reflect.StructField, v reflect.Value, path string
 	}
 
 }
+
+var basicTypes = map[reflect.Kind]reflect.Type{
+	reflect.Bool:    reflect.TypeOf(false),
+	reflect.Float64: reflect.TypeOf(float64(0)),
+	reflect.Int:     reflect.TypeOf(int(0)),
+	reflect.Int64:   reflect.TypeOf(int64(0)),
+	reflect.String:  reflect.TypeOf(""),
+	reflect.Uint:    reflect.TypeOf(uint(0)),
+	reflect.Uint64:  reflect.TypeOf(uint64(0)),
+}
+
+// Pointer to v, if v is of a defined type(i.e. type Foo int) then it's converted to pointer to
+// the underlying type. time.Duration is not converted.
+func basicPtr(v reflect.Value) interface{} {
+	ptr := v.Addr()
+	if t, ok := basicTypes[v.Kind()]; ok && v.Type() != reflect.TypeOf(time.Nanosecond) {
+		ptr = ptr.Convert(reflect.PtrTo(t))
+	}
+	return ptr.Interface()
+}
-- 
2.43.0


From 93db1bcbbbf759d331d449619d370be4d33667f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:22 +0000
Subject: [PATCH 27/37] fix: reload of Store must not undo a concurrent change
 or reset

---
 confstore/store.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index 2d214e7..47d0fe0 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -9,9 +9,10 @@ import (
 )
 
 type defaultImpl struct {
-	// serializes operations that change both memory and persister, so that they agree afterwards.
+	// serializes operations that change both memory and persister, so that they agree afterwards,
+	// and keeps them out while config key-values are loaded from persister.
 	// acquired before the other locks
-	persistLock sync.Mutex
+	persistLock sync.RWMutex
 
 	kvProcessorLock *sync.RWMutex
 	kvProcessor     map[string]ValueProcessor
@@ -181,8 +182,19 @@ func (m *defaultImpl) UpdateNoPersist(key string, value string) *KVError {
 	return nil
 }
 
-func (m *defaultImpl) BatchGetValues(keys []string) []*KV {
+// load config key-values from persister as the load policy decides.
+//
+// a value read from persister before it's changed must not be stored into memory after that,
+// otherwise the change(or reset) would get lost
+func (m *defaultImpl) load() {
+	m.persistLock.RLock()
+	defer m.persistLock.RUnlock()
+
 	m.loadPolicy.DoLoad(m, m.persister)
+}
+
+func (m *defaultImpl) BatchGetValues(keys []string) []*KV {
+	m.load()
 
 	kvs := make([]*KV, 0, len(keys))
 	for _, key := range keys {
@@ -199,7 +211,7 @@ func (m *defaultImpl) BatchGetValues(keys []string) []*KV {
 }
 
 func (m *defaultImpl) BatchGetValueString(keys []string) []*KVStr {
-	m.loadPolicy.DoLoad(m, m.persister)
+	m.load()
 
 	kvs := make([]*KVStr, 0, len(keys))
 	for _, key := range keys {
@@ -216,7 +228,7 @@ func (m *defaultImpl) BatchGetValueString(keys []string) []*KVStr {
 }
 
 func (m *defaultImpl) MustGetValue(key string) interface{} {
-	m.loadPolicy.DoLoad(m, m.persister)
+	m.load()
 
 	v, hit := m.GetValue(key)
 	if !hit {
@@ -226,7 +238,7 @@ func (m *defaultImpl) MustGetValue(key string) interface{} {
 }
 
 func (m *defaultImpl) MustGetValueString(key string) string {
-	m.loadPolicy.DoLoad(m, m.persister)
+	m.load()
 
 	v, hit := m.GetValueString(key)
 	if !hit {
@@ -236,7 +248,7 @@ func (m *defaultImpl) MustGetValueString(key string) string {
 }
 
 func (m *defaultImpl) GetValue(key string) (v interface{}, hit bool) {
-	m.loadPolicy.DoLoad(m, m.persister)
+	m.load()
 
 	m.kvLock.RLock()
 	defer m.kvLock.RUnlock()
@@ -251,7 +263,7 @@ func (m *defaultImpl) GetValue(key string) (v interface{}, hit bool) {
 }
 
 func (m *defaultImpl) GetValueString(key string) (v string, hit bool) {
-	m.loadPolicy.DoLoad(m, m.persister)
+	m.load()
 
 	m.kvLock.RLock()
 	defer m.kvLock.RUnlock()
-- 
2.43.0


From ed4391b271de9badf026aac18aa2a42300d0e184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:02 +0000
Subject: [PATCH 28/37] fix: RedisConf.String() shows Db

---
 confs/redis.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/confs/redis.go b/confs/redis.go
index 0ae8462..cd815de 100644
--- a/confs/redis.go
+++ b/confs/redis.go
@@ -61,8 +61,8 @@ func NewRedisClient(rc *RedisConf, customizer RedisOptionCustomizer) *redis.Clie
 }
 
 func (r *RedisConf) String() string {
-	return fmt.Sprintf("{Host: %s, Port: %d, Password: ***, Pool: %d, MinIdle: %d}",
-		r.Host, r.Port, r.Pool, r.MinIdle)
+	return fmt.Sprintf("{Host: %s, Port: %d, Password: ***, Pool: %d, MinIdle: %d, Db: %d}",
+		r.Host, r.Port, r.Pool, r.MinIdle, r.Db)
 }
 
 func prepareRedisNativeConfig(rc *RedisConf, customizer RedisOptionCustomizer) *redis.Options {
-- 
2.43.0


From 3a1195ec59fc8d1b20548e6c2badccf86a04b028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:03 +0000
Subject: [PATCH 29/37] fix: fasthttp pprof handler must refuse an
 Authorization without the Basic scheme

---
 confs/pprof.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/confs/pprof.go b/confs/pprof.go
index 5db715f..de316b4 100644
--- a/confs/pprof.go
+++ b/confs/pprof.go
@@ -89,13 +89,13 @@ func NewFasthttpRoutingPprofHandler(conf *PprofConf) routing.Handler {
 			ctx.SetStatusCode(fasthttp.StatusUnauthorized)
 		}
 
-		auth := strings.TrimPrefix(string(ctx.Request.Header.Peek("Authorization")), "Basic ")
-		if auth == "" {
+		auth := string(ctx.Request.Header.Peek("Authorization"))
+		if !strings.HasPrefix(auth, "Basic ") {
 			refuse(ctx)
 			return nil
 		}
 
-		b, err := base64.StdEncoding.DecodeString(auth)
+		b, err := base64.StdEncoding.DecodeString(strings.TrimPrefix(auth, "Basic "))
 		if err != nil {
 			refuse(ctx)
 			return nil
-- 
2.43.0


From 1a1935324c1141676fb4d2c963c9330dc99085fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:28 +0000
Subject: [PATCH 30/37] fix: MySQL user names and databases with reserved
 characters were misread from the DSN

---
 confs/mysql.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/confs/mysql.go b/confs/mysql.go
index 7fc9902..bf2e986 100644
--- a/confs/mysql.go
+++ b/confs/mysql.go
@@ -19,6 +19,7 @@ package confs
 
 import (
 	"database/sql"
+	"database/sql/driver"
 	"fmt"
 	sqlPlugin "github.com/SkyAPM/go2sky-plugins/sql"
 	"github.com/chanjarster/gears/simplelog"
@@ -95,12 +96,12 @@ func NewMySqlDb(conf *MysqlConf, customizer MysqlConfigCustomizer) *sql.DB {
 
 	mc := prepareMySqlNativeConfig(conf, customizer)
 
-	dsn := mc.FormatDSN()
-	db, err := sql.Open("mysql", dsn)
+	connector, err := newMySqlConnector(mc)
 	if err != nil {
 		simplelog.ErrLogger.Fatal(err)
 		panic(err)
 	}
+	db := sql.OpenDB(connector)
 	db.SetMaxOpenConns(conf.MaxOpenConns)
 	db.SetMaxIdleConns(conf.MaxIdleConns)
 	db.SetConnMaxLifetime(conf.ConnMaxLifetime)
@@ -119,16 +120,17 @@ func NewMySqlDbWithTracer(conf *MysqlConf, tracer *go2sky.Tracer, customizer Mys
 
 	mc := prepareMySqlNativeConfig(conf, customizer)
 
-	dsn := mc.FormatDSN()
-	db, err := sqlPlugin.Open("mysql", dsn, tracer,
-		sqlPlugin.WithSQLDBType(sqlPlugin.MYSQL),
-		sqlPlugin.WithQueryReport(),
-		sqlPlugin.WithParamReport(),
-	)
+	connector, err := newMySqlConnector(mc)
 	if err != nil {
 		simplelog.ErrLogger.Fatal(err)
 		panic(err)
 	}
+	db := sqlPlugin.OpenDB(connector, tracer,
+		sqlPlugin.WithSQLDBType(sqlPlugin.MYSQL),
+		sqlPlugin.WithPeerAddr(mc.Addr),
+		sqlPlugin.WithQueryReport(),
+		sqlPlugin.WithParamReport(),
+	)
 	db.SetMaxOpenConns(conf.MaxOpenConns)
 	db.SetMaxIdleConns(conf.MaxIdleConns)
 	db.SetConnMaxLifetime(conf.ConnMaxLifetime)
@@ -143,6 +145,19 @@ func NewMySqlDbWithTracer(conf *MysqlConf, tracer *go2sky.Tracer, customizer Mys
 	return db.DB
 }
 
+// A DSN can't escape reserved characters in user, password and database, so they bypass it.
+// Everything else goes through it, that makes driver options in Params (charset, timeout...) work.
+func newMySqlConnector(mc *mysql.Config) (driver.Connector, error) {
+	dsnConfig := mc.Clone()
+	dsnConfig.User, dsnConfig.Passwd, dsnConfig.DBName = "", "", ""
+	parsed, err := mysql.ParseDSN(dsnConfig.FormatDSN())
+	if err != nil {
+		return nil, err
+	}
+	parsed.User, parsed.Passwd, parsed.DBName = mc.User, mc.Passwd, mc.DBName
+	return mysql.NewConnector(parsed)
+}
+
 func prepareMySqlNativeConfig(conf *MysqlConf, customizer MysqlConfigCustomizer) *mysql.Config {
 	mc := mysql.NewConfig()
 	mc.Timeout = conf.Timeout
-- 
2.43.0


From 76bb87df2ab0c830e6c01ff72f49744cb67190c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:29 +0000
Subject: [PATCH 31/37] fix: Params must not override the customizer of
 Postgresql and Oracle

---
 confs/oracle.go     | 7 ++++---
 confs/postgresql.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/confs/oracle.go b/confs/oracle.go
index cf00ca6..93572d0 100644
--- a/confs/oracle.go
+++ b/confs/oracle.go
@@ -103,9 +103,6 @@ func prepareUrlOptions(conf *OracleConf, customizer OracleUrlOptionsCustomizer)
 	if conf.ConnectTimeout != 0 {
 		options["CONNECTION TIMEOUT"] = strconv.Itoa(conf.ConnectTimeout)
 	}
-	if customizer != nil {
-		customizer(options)
-	}
 
 	if conf.Params != "" {
 		strs := strings.Split(conf.Params, "&")
@@ -122,6 +119,10 @@ func prepareUrlOptions(conf *OracleConf, customizer OracleUrlOptionsCustomizer)
 		}
 	}
 
+	if customizer != nil {
+		customizer(options)
+	}
+
 	return options
 }
 func NewOracleDbWithTracer(conf *OracleConf, tracer *go2sky.Tracer, customizer OracleUrlOptionsCustomizer) *sql.DB {
diff --git a/confs/postgresql.go b/confs/postgresql.go
index 9b3885b..9a0bb65 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -108,9 +108,6 @@ func preparePgUrlOptions(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCu
 	if conf.ConnectTimeout != 0 {
 		options["connect_timeout"] = strconv.Itoa(conf.ConnectTimeout)
 	}
-	if customizer != nil {
-		customizer(options)
-	}
 
 	if conf.Params != "" {
 		strs := strings.Split(conf.Params, "&")
@@ -127,6 +124,10 @@ func preparePgUrlOptions(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCu
 		}
 	}
 
+	if customizer != nil {
+		customizer(options)
+	}
+
 	return options
 }
 
-- 
2.43.0


From 5da25ac5f7e3e639f156556e5c31f7f8b9a051f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:02 +0000
Subject: [PATCH 32/37] fix: Oracle user names with a colon and option values
 with a comma were cut

---
 confs/oracle.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/confs/oracle.go b/confs/oracle.go
index 93572d0..4ad149a 100644
--- a/confs/oracle.go
+++ b/confs/oracle.go
@@ -6,7 +6,8 @@ import (
 	"github.com/SkyAPM/go2sky"
 	sqlPlugin "github.com/SkyAPM/go2sky-plugins/sql"
 	"github.com/chanjarster/gears/simplelog"
-	go_ora "github.com/sijms/go-ora/v2"
+	_ "github.com/sijms/go-ora/v2"
+	"net"
 	"net/url"
 	"strconv"
 	"strings"
@@ -69,7 +70,7 @@ type OracleUrlOptionsCustomizer func(options map[string]string)
 func NewOracleDb(conf *OracleConf, customizer OracleUrlOptionsCustomizer) *sql.DB {
 
 	options := prepareUrlOptions(conf, customizer)
-	connectionString := go_ora.BuildUrl(conf.Host, conf.Port, conf.Service, conf.Username, conf.Password, options)
+	connectionString := buildOracleUrl(conf, options)
 	db, err := sql.Open("oracle", connectionString)
 	if err != nil {
 		simplelog.ErrLogger.Fatal(err)
@@ -89,6 +90,30 @@ func NewOracleDb(conf *OracleConf, customizer OracleUrlOptionsCustomizer) *sql.D
 	return db
 }
 
+// go_ora.BuildUrl doesn't escape ':' in user name and cuts option values at ','
+func buildOracleUrl(conf *OracleConf, options map[string]string) string {
+	query := url.Values{}
+	for key, val := range options {
+		switch strings.ToUpper(key) {
+		case "SERVER", "AUTH SERV":
+			// lists
+			for _, item := range strings.Split(val, ",") {
+				query.Add(key, strings.TrimSpace(item))
+			}
+		default:
+			query.Set(key, strings.TrimSpace(val))
+		}
+	}
+	dsn := url.URL{
+		Scheme:   "oracle",
+		User:     url.UserPassword(conf.Username, conf.Password),
+		Host:     net.JoinHostPort(conf.Host, strconv.Itoa(conf.Port)),
+		Path:     "/" + conf.Service,
+		RawQuery: query.Encode(),
+	}
+	return dsn.String()
+}
+
 func prepareUrlOptions(conf *OracleConf, customizer OracleUrlOptionsCustomizer) map[string]string {
 	options := map[string]string{}
 	if conf.Sid == "" && conf.Service == "" {
@@ -128,7 +153,7 @@ func prepareUrlOptions(conf *OracleConf, customizer OracleUrlOptionsCustomizer)
 func NewOracleDbWithTracer(conf *OracleConf, tracer *go2sky.Tracer, customizer OracleUrlOptionsCustomizer) *sql.DB {
 
 	options := prepareUrlOptions(conf, customizer)
-	connectionString := go_ora.BuildUrl(conf.Host, conf.Port, conf.Service, conf.Username, conf.Password, options)
+	connectionString := buildOracleUrl(conf, options)
 	db, err := sqlPlugin.Open("oracle", connectionString, tracer,
 		sqlPlugin.WithSQLDBType(sqlPlugin.IPV4),
 		sqlPlugin.WithQueryReport(),
-- 
2.43.0


From 1edb10b8e3751092541b9ea1408100c59748bec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:48 +0000
Subject: [PATCH 33/37] fix: the span of a web request whose handler panics was
 never finished

---
 skywalking/fasthttp-routing/middleware.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skywalking/fasthttp-routing/middleware.go b/skywalking/fasthttp-routing/middleware.go
index b05ceae..31fdffa 100644
--- a/skywalking/fasthttp-routing/middleware.go
+++ b/skywalking/fasthttp-routing/middleware.go
@@ -80,7 +80,15 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 
 		SetSwContext(rCtx, spanCtx)
 
+		panicked := true
+		defer func() {
+			if panicked {
+				span.Error(time.Now())
+				span.End()
+			}
+		}()
 		handlerErr := rCtx.Next()
+		panicked = false
 		statusCode := rCtx.Response.StatusCode()
 		if handlerErr != nil {
 			// router responds according to the error, see routing.Router
-- 
2.43.0


From 6a85684f0b77390e21718502204f6ef3cefcf742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:48 +0000
Subject: [PATCH 34/37] fix: the Redis tracing hook ended the span of another
 hook on the same client

---
 skywalking/redis/hook.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/skywalking/redis/hook.go b/skywalking/redis/hook.go
index 489aa36..a05e302 100644
--- a/skywalking/redis/hook.go
+++ b/skywalking/redis/hook.go
@@ -65,10 +65,12 @@ func NewHook(tracer *go2sky.Tracer, opts ...Option) rv7.Hook {
 }
 
 // context key of the span created by this hook for the command(s) in process
-type spanCtxKey struct{}
+type spanCtxKey struct {
+	hook *tracerHook
+}
 
-func spanOf(ctx context.Context) go2sky.Span {
-	span, _ := ctx.Value(spanCtxKey{}).(go2sky.Span)
+func (h *tracerHook) spanOf(ctx context.Context) go2sky.Span {
+	span, _ := ctx.Value(spanCtxKey{h}).(go2sky.Span)
 	return span
 }
 
@@ -80,7 +82,7 @@ func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.
 	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, cmd.Name(), h.opts.peer, noopInjector)
 	if err != nil {
 		// failed to trace, command must not be affected
-		return context.WithValue(ctx, spanCtxKey{}, nil), nil
+		return context.WithValue(ctx, spanCtxKey{h}, nil), nil
 	}
 
 	if h.opts.reportArgs {
@@ -93,11 +95,11 @@ func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.
 	span.Tag(go2sky.TagDBType, "Redis")
 	span.SetComponent(componentID)
 	span.SetSpanLayer(agentv3.SpanLayer_Cache)
-	return context.WithValue(nCtx, spanCtxKey{}, span), nil
+	return context.WithValue(nCtx, spanCtxKey{h}, span), nil
 }
 
 func (h *tracerHook) AfterProcess(ctx context.Context, cmd rv7.Cmder) error {
-	span := spanOf(ctx)
+	span := h.spanOf(ctx)
 	if span == nil {
 		return nil
 	}
@@ -123,7 +125,7 @@ func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder
 	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, opName, h.opts.peer, noopInjector)
 	if err != nil {
 		// failed to trace, command must not be affected
-		return context.WithValue(ctx, spanCtxKey{}, nil), nil
+		return context.WithValue(ctx, spanCtxKey{h}, nil), nil
 	}
 
 	if h.opts.reportArgs {
@@ -138,7 +140,7 @@ func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder
 	span.Tag(go2sky.TagDBType, "Redis")
 	span.SetComponent(componentID)
 	span.SetSpanLayer(agentv3.SpanLayer_Cache)
-	return context.WithValue(nCtx, spanCtxKey{}, span), nil
+	return context.WithValue(nCtx, spanCtxKey{h}, span), nil
 
 }
 
@@ -156,7 +158,7 @@ func quickJoin(objs []rv7.Cmder, sep string, stringer stringer) string {
 }
 
 func (h *tracerHook) AfterProcessPipeline(ctx context.Context, cmds []rv7.Cmder) error {
-	span := spanOf(ctx)
+	span := h.spanOf(ctx)
 	if span == nil {
 		return nil
 	}
-- 
2.43.0


From b5d7714dd58ea70a6ff38a45cd2b9d3cd0116631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:48 +0000
Subject: [PATCH 35/37] fix: the Redis tracing hook panicked without a tracer

---
 skywalking/redis/hook.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/skywalking/redis/hook.go b/skywalking/redis/hook.go
index a05e302..4c62089 100644
--- a/skywalking/redis/hook.go
+++ b/skywalking/redis/hook.go
@@ -79,6 +79,10 @@ func noopInjector(headerKey, headerValue string) error {
 }
 
 func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.Context, error) {
+	if h.tracer == nil {
+		return ctx, nil
+	}
+
 	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, cmd.Name(), h.opts.peer, noopInjector)
 	if err != nil {
 		// failed to trace, command must not be affected
@@ -117,6 +121,9 @@ func (h *tracerHook) AfterProcess(ctx context.Context, cmd rv7.Cmder) error {
 }
 
 func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder) (context.Context, error) {
+	if h.tracer == nil {
+		return ctx, nil
+	}
 
 	opName := quickJoin(cmds, "|", func(obj rv7.Cmder) string {
 		return obj.Name()
-- 
2.43.0


From 6ae24f4827ae152c77c865ca47feb92a6b42816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:16 +0000
Subject: [PATCH 36/37] fix: token buckets overflowed and refused requests at
 very high issue rates

---
 ratelimiter/tokenbucket.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/ratelimiter/tokenbucket.go b/ratelimiter/tokenbucket.go
index ad1668d..ec55e03 100644
--- a/ratelimiter/tokenbucket.go
+++ b/ratelimiter/tokenbucket.go
@@ -96,10 +96,7 @@ func (t *SyncTokenBucket) issueIfNecessary() {
 	if t.tokens >= t.capacity {
 		return
 	}
-	t.tokens += int(seconds * int64(t.issueRatePerSecond))
-	if t.tokens > t.capacity {
-		t.tokens = t.capacity
-	}
+	t.tokens += int(tokensOf(seconds, t.issueRatePerSecond, int64(t.capacity-t.tokens)))
 }
 
 // TokenBucket implementation using "sync/atomic" package.
@@ -146,7 +143,7 @@ func (t *AtomicTokenBucket) issueIfNecessary() {
 
 		// see SyncTokenBucket. Only the one who advanced the timestamp issues tokens for that time
 		if atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, lastIssue, lastIssue+seconds*int64(time.Second)) {
-			t.issue(seconds * int64(t.issueRatePerSecond))
+			t.issue(tokensOf(seconds, t.issueRatePerSecond, int64(t.capacity)))
 			return
 		}
 	}
@@ -161,9 +158,9 @@ func (t *AtomicTokenBucket) issue(delta int64) {
 			return
 		}
 
-		newTokens := oldTokens + delta
-		if newTokens > int64(t.capacity) {
-			newTokens = int64(t.capacity)
+		newTokens := int64(t.capacity)
+		if delta < newTokens-oldTokens {
+			newTokens = oldTokens + delta
 		}
 
 		if atomic.CompareAndSwapInt64(&t.tokens, oldTokens, newTokens) {
@@ -172,3 +169,11 @@ func (t *AtomicTokenBucket) issue(delta int64) {
 	}
 
 }
+
+// tokens issued in that many seconds, but not more than max, so that a high rate doesn't overflow
+func tokensOf(seconds int64, issueRatePerSecond int, max int64) int64 {
+	if rate := int64(issueRatePerSecond); rate <= 0 || seconds <= max/rate {
+		return seconds * rate
+	}
+	return max
+}
-- 
2.43.0


From 46843fa5646f4b4102c0ead1bbb2aed0c882d88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:06 +0000
Subject: [PATCH 37/37] fix: mark the span of a failed pipeline as failed also
 if the error has no text

---
 skywalking/redis/hook.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skywalking/redis/hook.go b/skywalking/redis/hook.go
index 4c62089..dace848 100644
--- a/skywalking/redis/hook.go
+++ b/skywalking/redis/hook.go
@@ -170,8 +170,8 @@ func (h *tracerHook) AfterProcessPipeline(ctx context.Context, cmds []rv7.Cmder)
 		return nil
 	}
 
-	errs := quickJoinError(cmds, "|")
-	if errs != "" {
+	errs, failed := quickJoinError(cmds, "|")
+	if failed {
 		now := time.Now()
 		if h.opts.logError {
 			span.Error(now, errs)
@@ -184,16 +184,18 @@ func (h *tracerHook) AfterProcessPipeline(ctx context.Context, cmds []rv7.Cmder)
 	return nil
 }
 
-func quickJoinError(objs []rv7.Cmder, sep string) string {
+// quickJoinError joins the error texts, and tells whether there is any error, whose text may be empty
+func quickJoinError(objs []rv7.Cmder, sep string) (errs string, failed bool) {
 	sb := &strings.Builder{}
 	for _, obj := range objs {
 		cmdErr := obj.Err()
 		if cmdErr != nil {
+			failed = true
 			if sb.Len() > 0 {
 				sb.WriteString(sep)
 			}
 			sb.WriteString(cmdErr.Error())
 		}
 	}
-	return sb.String()
+	return sb.String(), failed
 }
-- 
2.43.0

