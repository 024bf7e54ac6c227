From b66ab4ea057805e9deec38193b79a493fec14645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 01/90] fix: FieldUpdater.Merge modified the caller's message

---
 pkg/masks/update.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/masks/update.go b/pkg/masks/update.go
index cdf66a0..ba8a358 100644
--- a/pkg/masks/update.go
+++ b/pkg/masks/update.go
@@ -54,6 +54,7 @@ func (f *FieldUpdater) Validate(m proto.Message) error {
 }
 
 // Merge copies the values in src into dst based on the configured field masks.
+// src is not modified.
 func (f *FieldUpdater) Merge(dst, src proto.Message) {
 	if f.writableFields != nil && len(f.writableFields.Paths) == 0 {
 		return // nothing is writable
@@ -64,6 +65,9 @@ func (f *FieldUpdater) Merge(dst, src proto.Message) {
 		writableMask = fmutils.NestedMaskFromPaths(f.writableFields.Paths)
 	}
 
+	// filtering below must not modify the message the caller gave us
+	src = proto.Clone(src)
+
 	// only allow writing writable fields by resetting non-writable fields in src
 	writableMask.Filter(src)
 
-- 
2.43.0


From 33424f70130beb9b7d2626268be5912779f74d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 02/90] fix: updating an absent nested field cleared its whole
 parent message

---
 pkg/masks/update.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/masks/update.go b/pkg/masks/update.go
index ba8a358..3a93b3b 100644
--- a/pkg/masks/update.go
+++ b/pkg/masks/update.go
@@ -108,7 +108,8 @@ func pruneEmpty(dst, src proto.Message, mask fmutils.NestedMask) {
 		if !ok {
 			return true
 		}
-		if !srcPr.Has(d) {
+		if !srcPr.Has(d) && len(fieldMask) == 0 {
+			// only clear the entire field if the mask mentions the entire field
 			dstPr.Clear(d)
 			return true
 		}
-- 
2.43.0


From 5d8b611a8096c934243bab42127899dceeea63ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 03/90] fix: update masks were checked against writable fields
 by counting paths

---
 pkg/masks/update.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/masks/update.go b/pkg/masks/update.go
index 3a93b3b..2e17467 100644
--- a/pkg/masks/update.go
+++ b/pkg/masks/update.go
@@ -38,8 +38,9 @@ func (f *FieldUpdater) Validate(m proto.Message) error {
 
 		// are fields mentioned in the update mask actually writable?
 		if f.writableFields != nil {
-			common := f.fullMask()
-			if len(common.Paths) != len(f.updateMask.Paths) {
+			// adding writable paths to the writable fields has no effect
+			all := fieldmaskpb.Union(f.writableFields, f.updateMask)
+			if !proto.Equal(all, fieldmaskpb.Union(f.writableFields, nil)) {
 				return status.Errorf(codes.InvalidArgument, "%v mentions read-only fields", f.updateMaskFieldName)
 			}
 		}
-- 
2.43.0


From 507f5a303fcc49b26b523d15a37c40baeff5a4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:17 +0000
Subject: [PATCH 04/90] fix: masks with overlapping paths selected only the
 longer path

---
 pkg/masks/get.go    |  5 ++---
 pkg/masks/update.go | 10 +++++-----
 pkg/masks/util.go   |  7 +++++++
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pkg/masks/get.go b/pkg/masks/get.go
index 1767b89..ddcea19 100644
--- a/pkg/masks/get.go
+++ b/pkg/masks/get.go
@@ -1,7 +1,6 @@
 package masks
 
 import (
-	"github.com/mennanov/fmutils"
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
@@ -45,7 +44,7 @@ func (r *ResponseFilter) Filter(msg proto.Message) {
 		proto.Reset(msg)
 		return
 	}
-	fmutils.Filter(msg, r.fields.GetPaths())
+	nestedMask(r.fields).Filter(msg)
 }
 
 // FilterClone is like Filter but clones and returns a new msg instead of modifying the original.
@@ -62,7 +61,7 @@ func (r *ResponseFilter) FilterClone(msg proto.Message) proto.Message {
 		return clone
 	}
 	clone := proto.Clone(msg)
-	fmutils.Filter(clone, r.fields.GetPaths())
+	nestedMask(r.fields).Filter(clone)
 	return clone
 }
 
diff --git a/pkg/masks/update.go b/pkg/masks/update.go
index 2e17467..989d199 100644
--- a/pkg/masks/update.go
+++ b/pkg/masks/update.go
@@ -63,7 +63,7 @@ func (f *FieldUpdater) Merge(dst, src proto.Message) {
 
 	var writableMask fmutils.NestedMask
 	if f.writableFields != nil {
-		writableMask = fmutils.NestedMaskFromPaths(f.writableFields.Paths)
+		writableMask = nestedMask(f.writableFields)
 	}
 
 	// filtering below must not modify the message the caller gave us
@@ -87,15 +87,15 @@ func (f *FieldUpdater) Merge(dst, src proto.Message) {
 		return
 	}
 
-	nestedMask := fmutils.NestedMaskFromPaths(mask.GetPaths())
-	nestedMask.Filter(src)
+	updateMask := nestedMask(mask)
+	updateMask.Filter(src)
 	proto.Merge(dst, src)
 
 	// if a field mentioned by the mask is nil, we should clear it
-	pruneEmpty(dst, src, nestedMask)
+	pruneEmpty(dst, src, updateMask)
 
 	if f.resetMask != nil {
-		fmutils.Prune(dst, f.resetMask.Paths)
+		nestedMask(f.resetMask).Prune(dst)
 	}
 
 	return
diff --git a/pkg/masks/util.go b/pkg/masks/util.go
index 73b558d..62461e7 100644
--- a/pkg/masks/util.go
+++ b/pkg/masks/util.go
@@ -3,6 +3,7 @@ package masks
 import (
 	"strings"
 
+	"github.com/mennanov/fmutils"
 	"google.golang.org/protobuf/types/known/fieldmaskpb"
 )
 
@@ -32,3 +33,9 @@ func RemovePrefix(prefix string, mask *fieldmaskpb.FieldMask) *fieldmaskpb.Field
 	}
 	return out
 }
+
+// nestedMask returns the NestedMask for the paths in mask.
+// The paths are normalized, as fmutils requires: if mask mentions both a and a.b then all of a is selected.
+func nestedMask(mask *fieldmaskpb.FieldMask) fmutils.NestedMask {
+	return fmutils.NestedMaskFromPaths(fieldmaskpb.Union(mask, nil).GetPaths())
+}
-- 
2.43.0


From c1ac6ad5401ca44134b793ea5664694fff5b860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 05/90] fix: read masks with paths through maps or scalar lists
 panicked, unknown fields ignored masks

---
 pkg/masks/get.go    |  4 ++--
 pkg/masks/update.go |  8 ++++++--
 pkg/masks/util.go   | 28 ++++++++++++++++++++++++++++
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/pkg/masks/get.go b/pkg/masks/get.go
index ddcea19..c8dc227 100644
--- a/pkg/masks/get.go
+++ b/pkg/masks/get.go
@@ -44,7 +44,7 @@ func (r *ResponseFilter) Filter(msg proto.Message) {
 		proto.Reset(msg)
 		return
 	}
-	nestedMask(r.fields).Filter(msg)
+	filter(msg.ProtoReflect(), nestedMask(r.fields))
 }
 
 // FilterClone is like Filter but clones and returns a new msg instead of modifying the original.
@@ -61,7 +61,7 @@ func (r *ResponseFilter) FilterClone(msg proto.Message) proto.Message {
 		return clone
 	}
 	clone := proto.Clone(msg)
-	nestedMask(r.fields).Filter(clone)
+	filter(clone.ProtoReflect(), nestedMask(r.fields))
 	return clone
 }
 
diff --git a/pkg/masks/update.go b/pkg/masks/update.go
index 989d199..e05ebfc 100644
--- a/pkg/masks/update.go
+++ b/pkg/masks/update.go
@@ -70,7 +70,9 @@ func (f *FieldUpdater) Merge(dst, src proto.Message) {
 	src = proto.Clone(src)
 
 	// only allow writing writable fields by resetting non-writable fields in src
-	writableMask.Filter(src)
+	if writableMask != nil {
+		filter(src.ProtoReflect(), writableMask)
+	}
 
 	mask := f.updateMask
 	if mask == nil {
@@ -88,7 +90,9 @@ func (f *FieldUpdater) Merge(dst, src proto.Message) {
 	}
 
 	updateMask := nestedMask(mask)
-	updateMask.Filter(src)
+	if mask != nil {
+		filter(src.ProtoReflect(), updateMask)
+	}
 	proto.Merge(dst, src)
 
 	// if a field mentioned by the mask is nil, we should clear it
diff --git a/pkg/masks/util.go b/pkg/masks/util.go
index 62461e7..d79887f 100644
--- a/pkg/masks/util.go
+++ b/pkg/masks/util.go
@@ -4,6 +4,7 @@ import (
 	"strings"
 
 	"github.com/mennanov/fmutils"
+	"google.golang.org/protobuf/reflect/protoreflect"
 	"google.golang.org/protobuf/types/known/fieldmaskpb"
 )
 
@@ -39,3 +40,30 @@ func RemovePrefix(prefix string, mask *fieldmaskpb.FieldMask) *fieldmaskpb.Field
 func nestedMask(mask *fieldmaskpb.FieldMask) fmutils.NestedMask {
 	return fmutils.NestedMaskFromPaths(fieldmaskpb.Union(mask, nil).GetPaths())
 }
+
+// filter clears all fields of msg that are not selected by mask.
+// Paths that don't apply to msg, for example because they continue through a scalar or map, select nothing.
+func filter(msg protoreflect.Message, mask fmutils.NestedMask) {
+	if len(msg.GetUnknown()) > 0 {
+		msg.SetUnknown(nil)
+	}
+	msg.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
+		fieldMask, ok := mask[string(fd.Name())]
+		switch {
+		case !ok:
+			msg.Clear(fd)
+		case len(fieldMask) == 0:
+			// the entire field is selected
+		case fd.IsMap() || fd.Message() == nil:
+			msg.Clear(fd)
+		case fd.IsList():
+			list := v.List()
+			for i := 0; i < list.Len(); i++ {
+				filter(list.Get(i).Message(), fieldMask)
+			}
+		default:
+			filter(v.Message(), fieldMask)
+		}
+		return true
+	})
+}
-- 
2.43.0


From 1614d82d7315498767e9fbdf4ac90384e818d699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 06/90] fix: the reset mask was ignored when no fields are
 writable

---
 pkg/masks/update.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/masks/update.go b/pkg/masks/update.go
index e05ebfc..d9ea1a3 100644
--- a/pkg/masks/update.go
+++ b/pkg/masks/update.go
@@ -57,8 +57,15 @@ func (f *FieldUpdater) Validate(m proto.Message) error {
 // Merge copies the values in src into dst based on the configured field masks.
 // src is not modified.
 func (f *FieldUpdater) Merge(dst, src proto.Message) {
+	if f.updateMask != nil && len(f.updateMask.GetPaths()) == 0 {
+		return // non-nil mask with no paths => no changes
+	}
 	if f.writableFields != nil && len(f.writableFields.Paths) == 0 {
-		return // nothing is writable
+		// nothing is writable, the reset mask is not limited by writable fields
+		if f.resetMask != nil {
+			nestedMask(f.resetMask).Prune(dst)
+		}
+		return
 	}
 
 	var writableMask fmutils.NestedMask
@@ -84,9 +91,6 @@ func (f *FieldUpdater) Merge(dst, src proto.Message) {
 			// if only some fields are writable then reset only those
 			writableMask.Prune(dst)
 		}
-	} else if len(mask.GetPaths()) == 0 {
-		// non-nil mask with no paths => no changes
-		return
 	}
 
 	updateMask := nestedMask(mask)
-- 
2.43.0


From 2e4d7e37cdabdbebaaa04a2659dc469cfd35d963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:45 +0000
Subject: [PATCH 07/90] fix: items with a generated id could not be found when
 using an id interceptor

---
 pkg/resource/collection.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 82fba45..d75d556 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -121,6 +121,9 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 				if writeRequest.idCallback != nil {
 					writeRequest.idCallback(id)
 				}
+				if c.idInterceptor != nil {
+					id = c.idInterceptor(id) // so the reported id can be used with other methods
+				}
 			}
 
 			val, exists := c.byId[id]
-- 
2.43.0


From 72f9b54cac5db3883fbe8c0943ffe92a0dcf83d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:26 +0000
Subject: [PATCH 08/90] fix: change events could overtake each other, repeat or
 be missed

Writes published their event after releasing the lock, so concurrent writes
could publish in the wrong order and a subscription opened in between saw the
change twice. A listener that stopped receiving prevented listeners after it
from getting the event at all, and Collection.Delete published while holding
the lock, deadlocking with subscribers that read the collection.
Reserve the place of each event in the sequence when the write is committed,
and deliver events to each listener independently in that order.
---
 internal/minibus/bus.go    | 196 ++++++++++++++++++++++++-------------
 pkg/resource/collection.go |  24 +++--
 pkg/resource/value.go      |  15 ++-
 3 files changed, 155 insertions(+), 80 deletions(-)

diff --git a/internal/minibus/bus.go b/internal/minibus/bus.go
index d90ab28..a6a58b2 100644
--- a/internal/minibus/bus.go
+++ b/internal/minibus/bus.go
@@ -3,113 +3,171 @@ package minibus
 import (
 	"context"
 	"sync"
+	"sync/atomic"
 )
 
 type Bus struct {
-	listenerM sync.RWMutex
+	listenerM sync.Mutex
 	listeners []*listener
 }
 
+// Send delivers event to all listeners, returning true when each of them has either received it or has been cancelled.
+// Returns false if ctx is done before that happens.
 func (b *Bus) Send(ctx context.Context, event any) (ok bool) {
-	// create a copy of the listeners so avoid holding the mutex a long time
-	var listeners []*listener
-	b.listenerM.RLock()
-	for _, l := range b.listeners {
-		listeners = append(listeners, l)
-	}
-	b.listenerM.RUnlock()
+	return b.Prepare().Send(ctx, event)
+}
 
-	needGc := false
+// Prepare reserves the next position in the sequence of events for all current listeners.
+// Events are delivered to each listener in the order their Delivery was prepared, listeners added after Prepare returns
+// don't receive the event. Prepare doesn't block, so it can be called while holding locks.
+// The returned Delivery must be sent, later events are not delivered until it is.
+func (b *Bus) Prepare() *Delivery {
+	d := &Delivery{
+		ready: make(chan struct{}),
+		done:  make(chan struct{}),
+	}
 
-	// send the event to each listener that's not closed
-	for _, l := range listeners {
-		ok, active := l.send(ctx, event)
-		if !ok {
-			return false
-		}
-		if !active {
-			// the listen context on this listener has been cancelled, we need to collect the garbage
-			needGc = true
+	b.listenerM.Lock()
+	defer b.listenerM.Unlock()
+	if len(b.listeners) == 0 {
+		close(d.done)
+		return d
+	}
+	d.pending.Store(int64(len(b.listeners)))
+	for _, l := range b.listeners {
+		l.queue = append(l.queue, d)
+		select {
+		case l.wake <- struct{}{}:
+		default: // already awake
 		}
 	}
+	return d
+}
 
-	if needGc {
-		b.collect()
+// Delivery is an event in the process of being sent to the listeners of a Bus.
+type Delivery struct {
+	ready   chan struct{} // closed once ctx and event are set
+	ctx     context.Context
+	event   any
+	pending atomic.Int64  // how many listeners have not dealt with the event yet
+	done    chan struct{} // closed when pending reaches zero
+}
+
+// Send delivers event to the listeners that existed when this Delivery was prepared.
+// See Bus.Send for details.
+func (d *Delivery) Send(ctx context.Context, event any) (ok bool) {
+	d.ctx, d.event = ctx, event
+	close(d.ready)
+
+	select {
+	case <-d.done:
+		return true
+	case <-ctx.Done():
+		return false
 	}
+}
 
-	return true
+// finish records that a listener has dealt with the event.
+func (d *Delivery) finish() {
+	if d.pending.Add(-1) == 0 {
+		close(d.done)
+	}
 }
 
-func (b *Bus) collect() {
+func (b *Bus) Listen(ctx context.Context) <-chan any {
+	l := &listener{
+		ch:   make(chan any),
+		wake: make(chan struct{}, 1),
+	}
+
+	// store the listener
 	b.listenerM.Lock()
-	defer b.listenerM.Unlock()
+	b.listeners = append(b.listeners, l)
+	b.listenerM.Unlock()
 
-	var activeListeners []*listener
-	for _, l := range b.listeners {
-		if l.alive() {
-			activeListeners = append(activeListeners, l)
-		}
-	}
+	go b.serve(ctx, l)
 
-	b.listeners = activeListeners
+	return l.ch
 }
 
-func (b *Bus) Listen(ctx context.Context) <-chan any {
-	ch := make(chan any)
+// serve passes queued events on to the listener until ctx is done.
+func (b *Bus) serve(ctx context.Context, l *listener) {
+	defer close(l.ch)
+	defer b.remove(l)
 
-	l := &listener{
-		ch:  ch,
-		ctx: ctx,
+	for {
+		d := b.next(ctx, l)
+		if d == nil {
+			return
+		}
+		l.send(ctx, d)
+		d.finish()
+		if ctx.Err() != nil {
+			return
+		}
 	}
+}
 
-	go func() {
-		<-ctx.Done()
-		l.stop()
-	}()
+// next returns the next event to deliver to l, or nil if ctx is done first.
+func (b *Bus) next(ctx context.Context, l *listener) *Delivery {
+	for {
+		b.listenerM.Lock()
+		if len(l.queue) > 0 {
+			d := l.queue[0]
+			l.queue = l.queue[1:]
+			b.listenerM.Unlock()
+			return d
+		}
+		b.listenerM.Unlock()
 
-	// store the listener
+		select {
+		case <-ctx.Done():
+			return nil
+		case <-l.wake:
+		}
+	}
+}
+
+// remove stops l from receiving more events, events it hasn't received are dropped.
+func (b *Bus) remove(l *listener) {
 	b.listenerM.Lock()
 	defer b.listenerM.Unlock()
-	b.listeners = append(b.listeners, l)
 
-	return ch
+	var others []*listener
+	for _, o := range b.listeners {
+		if o != l {
+			others = append(others, o)
+		}
+	}
+	b.listeners = others
+
+	for _, d := range l.queue {
+		d.finish()
+	}
+	l.queue = nil
 }
 
 type listener struct {
-	m   sync.RWMutex
-	ch  chan any
-	ctx context.Context
+	ch    chan any
+	wake  chan struct{} // has capacity 1, written to when the queue is added to
+	queue []*Delivery   // in order, guarded by Bus.listenerM
 }
 
-func (l *listener) send(ctx context.Context, event any) (ok bool, active bool) {
-	l.m.RLock()
-	defer l.m.RUnlock()
-
+// send blocks until the event has been received, or either the sender or listener give up.
+func (l *listener) send(ctx context.Context, d *Delivery) {
 	select {
 	case <-ctx.Done():
-		// send context cancelled
-		return false, true
+		return
+	case <-d.ready:
+	}
 
-	case <-l.ctx.Done():
+	select {
+	case <-d.ctx.Done():
+		// send context cancelled
+	case <-ctx.Done():
 		// listen context cancelled
 		// this is considered a success even though the message is not sent
-		return true, false
-
-	case l.ch <- event:
+	case l.ch <- d.event:
 		// event sent successfully
-		return true, true
-	}
-}
-
-func (l *listener) stop() {
-	l.m.Lock()
-	defer l.m.Unlock()
-	if l.ch != nil {
-		close(l.ch)
-		l.ch = nil
 	}
 }
-
-func (l *listener) alive() bool {
-	return l.ctx.Err() == nil
-}
diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index d75d556..32e6081 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -104,7 +104,11 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		return nil, err
 	}
 
-	var created proto.Message // during create, this is returned by GetFn so concurrent reference checks pass
+	var (
+		created    proto.Message // during create, this is returned by GetFn so concurrent reference checks pass
+		changeTime time.Time
+		delivery   *minibus.Delivery
+	)
 	oldValue, newValue, err := GetAndUpdate(
 		&c.mu,
 		func() (item proto.Message, err error) {
@@ -144,7 +148,10 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		},
 		writeRequest.changeFn(writer, msg),
 		func(msg proto.Message) {
-			c.byId[id] = &item{body: msg, changeTime: writeRequest.updateTime(c.clock)}
+			changeTime = writeRequest.updateTime(c.clock)
+			c.byId[id] = &item{body: msg, changeTime: changeTime}
+			// reserve our place now, while locked, so that events are sent in the order the writes happened
+			delivery = c.bus.Prepare()
 		})
 
 	if err != nil {
@@ -158,9 +165,9 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		changeType = types.ChangeType_ADD
 		oldValue = nil
 	}
-	c.bus.Send(context.TODO(), &CollectionChange{
+	delivery.Send(context.TODO(), &CollectionChange{
 		Id:         id,
-		ChangeTime: writeRequest.updateTime(c.clock),
+		ChangeTime: changeTime,
 		ChangeType: changeType,
 		OldValue:   oldValue,
 		NewValue:   newValue,
@@ -210,13 +217,16 @@ func (c *Collection) Delete(id string, opts ...WriteOption) (proto.Message, erro
 
 		// actually do the delete
 		delete(c.byId, id)
-		c.bus.Send(context.TODO(), &CollectionChange{
+		changeTime := c.clock.Now()
+		delivery := c.bus.Prepare()
+		c.mu.Unlock()
+
+		delivery.Send(context.TODO(), &CollectionChange{
 			Id:         id,
-			ChangeTime: c.clock.Now(),
+			ChangeTime: changeTime,
 			ChangeType: types.ChangeType_REMOVE,
 			OldValue:   oldVal.body,
 		})
-		c.mu.Unlock()
 		return oldVal.body, nil
 	}
 
diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index 1a81a43..efd553c 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -58,6 +58,10 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 		return nil, err
 	}
 
+	var (
+		changeTime time.Time
+		delivery   *minibus.Delivery
+	)
 	disarm := timeoutAlarm(time.Second, "GetAndUpdate took too long")
 	_, newValue, err := GetAndUpdate(
 		&r.mu,
@@ -66,8 +70,11 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 		},
 		request.changeFn(writer, value),
 		func(message proto.Message) {
+			changeTime = request.updateTime(r.clock)
 			r.value = message
-			r.changeTime = request.updateTime(r.clock)
+			r.changeTime = changeTime
+			// reserve our place now, while locked, so that events are sent in the order the writes happened
+			delivery = r.bus.Prepare()
 		},
 	)
 	disarm()
@@ -78,11 +85,11 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 
 	ctx, cancel := context.WithTimeout(context.TODO(), time.Second*5)
 	defer cancel()
-	r.bus.Send(ctx, &ValueChange{
+	ok := delivery.Send(ctx, &ValueChange{
 		Value:      newValue,
-		ChangeTime: request.updateTime(r.clock),
+		ChangeTime: changeTime,
 	})
-	if errors.Is(ctx.Err(), context.DeadlineExceeded) {
+	if !ok {
 		return nil, errors.New("bus.Send blocked for too long")
 	}
 
-- 
2.43.0


From 1490c6356912e09a9048cfcfb85fe28241b560ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 09/90] fix: concurrent Adds of the same id could both succeed

---
 pkg/resource/collection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 32e6081..9cf0419 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -113,6 +113,10 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		&c.mu,
 		func() (item proto.Message, err error) {
 			if created != nil {
+				if _, exists := c.byId[id]; exists {
+					// someone else created the item while we weren't holding the lock
+					return nil, ExpectAbsentPreconditionFailed
+				}
 				return created, nil
 			}
 
-- 
2.43.0


From e6ce7b390970616434344d0511f7f112b8d4707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 10/90] fix: Collection.Delete ignored the write time

---
 pkg/resource/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 9cf0419..9f52e53 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -221,7 +221,7 @@ func (c *Collection) Delete(id string, opts ...WriteOption) (proto.Message, erro
 
 		// actually do the delete
 		delete(c.byId, id)
-		changeTime := c.clock.Now()
+		changeTime := args.updateTime(c.clock)
 		delivery := c.bus.Prepare()
 		c.mu.Unlock()
 
-- 
2.43.0


From b62115523260c42bf4d422559d82e05ede4bb53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 11/90] fix: Pull with an include predicate dropped updates to
 included items and sent updates to excluded ones

---
 pkg/resource/change.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/resource/change.go b/pkg/resource/change.go
index b52cf69..55572e5 100644
--- a/pkg/resource/change.go
+++ b/pkg/resource/change.go
@@ -84,11 +84,12 @@ func (c *CollectionChange) include(includeFunc FilterFunc) (newChange *Collectio
 		return c, true
 	}
 
-	oldInclude := includeFunc(c.Id, c.OldValue)
-	newInclude := includeFunc(c.Id, c.NewValue)
+	// absent values are never included
+	oldInclude := c.OldValue != nil && includeFunc(c.Id, c.OldValue)
+	newInclude := c.NewValue != nil && includeFunc(c.Id, c.NewValue)
 	if oldInclude == newInclude {
 		// the only time we want to skip sending the update is if both the old and new values are excluded
-		return c, !newInclude
+		return c, newInclude
 	}
 
 	if newInclude {
-- 
2.43.0


From 1482e0fafca41f583f39cc327a3f1e966a14707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 12/90] fix: the first update after the seed was compared with
 the unfiltered seed value

---
 pkg/resource/value.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index efd553c..d24b473 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -108,9 +108,11 @@ func (r *Value) Pull(ctx context.Context, opts ...ReadOption) <-chan *ValueChang
 	go func() {
 		defer close(typedEvents)
 
+		var last proto.Message // what the subscriber last received
 		if currentValue != nil {
 			change := &ValueChange{Value: currentValue, ChangeTime: changeTime, SeedValue: true, LastSeedValue: true}
 			change = change.filter(filter)
+			last = change.Value
 			select {
 			case <-ctx.Done():
 				return // give up sending
@@ -118,7 +120,6 @@ func (r *Value) Pull(ctx context.Context, opts ...ReadOption) <-chan *ValueChang
 			}
 		}
 
-		last := currentValue
 		for event := range on {
 			change := event.(*ValueChange).filter(filter)
 			if r.equivalence != nil && r.equivalence.Compare(last, change.Value) {
-- 
2.43.0


From cee4366aaec8502bcfb1089ed901df42566cb164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 13/90] fix: PullID leaked its subscription and blocked writers
 once the item was removed

---
 pkg/resource/collection.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 9f52e53..985ee19 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -298,9 +298,11 @@ func (c *Collection) PullID(ctx context.Context, id string, opts ...ReadOption)
 		id = c.idInterceptor(id)
 	}
 
+	ctx, cancel := context.WithCancel(ctx)
 	send := make(chan *ValueChange)
 	go func() {
 		defer close(send)
+		defer cancel() // so the collection subscription ends when we stop before ctx is done
 		for change := range c.Pull(ctx, opts...) {
 			if change.Id != id {
 				continue
-- 
2.43.0


From 283487982a87699806a1b7b60796f9d4afd91e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 14/90] fix: data race on the random source when generating ids

---
 pkg/resource/collection.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 985ee19..68ec59e 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -19,8 +19,11 @@ import (
 type Collection struct {
 	*config
 
-	mu   sync.RWMutex // protects byId and rng from concurrent access
+	mu   sync.RWMutex // protects byId from concurrent access
 	byId map[string]*item
+
+	rngMu sync.Mutex // protects rng from concurrent access, ids are generated while holding only mu.RLock
+
 	// "change" events contain a *CollectionChange instance
 	bus minibus.Bus
 }
@@ -362,6 +365,8 @@ func (c *Collection) itemSlice(readConfig *ReadRequest) []idItem {
 }
 
 func (c *Collection) genID() (string, error) {
+	c.rngMu.Lock()
+	defer c.rngMu.Unlock()
 	return GenerateUniqueId(c.rng, func(candidate string) bool {
 		if c.idInterceptor != nil {
 			candidate = c.idInterceptor(candidate)
-- 
2.43.0


From fb97c4a09e3d7541831bbd7b3d7ff88420d74367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 15/90] fix: Collection.Pull with a tolerance never reported a
 value drifting in small steps

---
 pkg/resource/collection.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 68ec59e..28c6ec6 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -250,6 +250,7 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 	go func() {
 		defer close(send)
 
+		held := make(map[string]proto.Message) // what the subscriber last received, only used with equivalence
 		if len(currentValues) > 0 {
 			sort.Slice(currentValues, func(i, j int) bool {
 				return currentValues[i].id < currentValues[j].id
@@ -265,6 +266,9 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 					LastSeedValue: i == lastIndex,
 				}
 				change = change.filter(filter)
+				if c.equivalence != nil {
+					held[change.Id] = change.NewValue
+				}
 				select {
 				case <-ctx.Done():
 					return
@@ -280,8 +284,20 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 				continue
 			}
 			change = change.filter(filter)
-			if c.equivalence != nil && c.equivalence.Compare(change.OldValue, change.NewValue) {
-				continue
+			if c.equivalence != nil {
+				old, ok := held[change.Id]
+				if !ok {
+					old = change.OldValue
+				}
+				if c.equivalence.Compare(old, change.NewValue) {
+					held[change.Id] = old
+					continue
+				}
+				if change.NewValue != nil {
+					held[change.Id] = change.NewValue
+				} else {
+					delete(held, change.Id)
+				}
 			}
 			select {
 			case send <- change:
-- 
2.43.0


From bdbeab220d666b6dffe1ed9424879c627a8d0620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 16/90] fix: PullID flagged its seed as last only for the last
 item of the collection

---
 pkg/resource/collection.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 28c6ec6..f50182c 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -340,7 +340,8 @@ func (c *Collection) PullID(ctx context.Context, id string, opts ...ReadOption)
 			select {
 			case <-ctx.Done():
 				return
-			case send <- &ValueChange{ChangeTime: change.ChangeTime, Value: change.NewValue, SeedValue: change.SeedValue, LastSeedValue: change.LastSeedValue}:
+			// there is at most one seed value for a single item, so it is also the last
+			case send <- &ValueChange{ChangeTime: change.ChangeTime, Value: change.NewValue, SeedValue: change.SeedValue, LastSeedValue: change.SeedValue}:
 			}
 		}
 	}()
-- 
2.43.0


From 31ed72e03d7ebf083275b7f3b1fd69924bec3cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 17/90] fix: PullID subscribed after returning, missing changes
 made in between

---
 pkg/resource/collection.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index f50182c..112d3e4 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -318,11 +318,12 @@ func (c *Collection) PullID(ctx context.Context, id string, opts ...ReadOption)
 	}
 
 	ctx, cancel := context.WithCancel(ctx)
+	changes := c.Pull(ctx, opts...) // before returning so that the caller doesn't miss any changes
 	send := make(chan *ValueChange)
 	go func() {
 		defer close(send)
 		defer cancel() // so the collection subscription ends when we stop before ctx is done
-		for change := range c.Pull(ctx, opts...) {
+		for change := range changes {
 			if change.Id != id {
 				continue
 			}
-- 
2.43.0


From 95c88a6d5e3f6e9a3b5943950cdedb82c07ac3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:57 +0000
Subject: [PATCH 18/90] fix: vendingpb.WithConsumablesOption configured the
 inventory instead of the consumables

---
 pkg/trait/vendingpb/model_opts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/vendingpb/model_opts.go b/pkg/trait/vendingpb/model_opts.go
index f579abc..d1f1421 100644
--- a/pkg/trait/vendingpb/model_opts.go
+++ b/pkg/trait/vendingpb/model_opts.go
@@ -41,7 +41,7 @@ func WithInitialStock(inventory ...*traits.Consumable_Stock) resource.Option {
 // WithConsumablesOption configures the consumables resource of the model.
 func WithConsumablesOption(opts ...resource.Option) resource.Option {
 	return modelOptionFunc(func(args *modelArgs) {
-		args.inventoryOptions = append(args.inventoryOptions, opts...)
+		args.consumableOptions = append(args.consumableOptions, opts...)
 	})
 }
 
-- 
2.43.0


From ad4a0b7e4b5eb09695946beef972ee34e0e57bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:57 +0000
Subject: [PATCH 19/90] fix: trait model Pull goroutines leaked when a
 cancelled consumer stopped receiving

---
 pkg/trait/accesspb/model.go           |  6 +++++-
 pkg/trait/airqualitysensorpb/model.go |  6 +++++-
 pkg/trait/airtemperaturepb/model.go   |  6 +++++-
 pkg/trait/electricpb/model.go         | 18 +++++++++++++++---
 pkg/trait/energystoragepb/model.go    |  6 +++++-
 pkg/trait/lightpb/model.go            |  6 +++++-
 pkg/trait/meterpb/model.go            |  6 +++++-
 pkg/trait/occupancysensorpb/model.go  |  6 +++++-
 pkg/trait/onoffpb/model.go            |  6 +++++-
 pkg/trait/parentpb/model.go           |  6 +++++-
 pkg/trait/presspb/model.go            |  6 +++++-
 pkg/trait/wastepb/model.go            |  6 +++++-
 12 files changed, 70 insertions(+), 14 deletions(-)

diff --git a/pkg/trait/accesspb/model.go b/pkg/trait/accesspb/model.go
index d80e66c..0eb27c9 100644
--- a/pkg/trait/accesspb/model.go
+++ b/pkg/trait/accesspb/model.go
@@ -41,9 +41,13 @@ func (m *Model) PullAccessAttempts(ctx context.Context, opts ...resource.ReadOpt
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AccessAttempt)
-			send <- PullAccessAttemptsChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullAccessAttemptsChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/airqualitysensorpb/model.go b/pkg/trait/airqualitysensorpb/model.go
index 4903204..cc059c4 100644
--- a/pkg/trait/airqualitysensorpb/model.go
+++ b/pkg/trait/airqualitysensorpb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullAirQuality(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AirQuality)
-			send <- PullAirQualityChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullAirQualityChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/airtemperaturepb/model.go b/pkg/trait/airtemperaturepb/model.go
index bb14527..3f77644 100644
--- a/pkg/trait/airtemperaturepb/model.go
+++ b/pkg/trait/airtemperaturepb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullAirTemperature(ctx context.Context, opts ...resource.ReadOpt
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AirTemperature)
-			send <- PullAirTemperatureChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullAirTemperatureChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 585c87d..0488ccc 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -78,9 +78,13 @@ func (m *Model) PullDemand(ctx context.Context, opts ...resource.ReadOption) <-c
 		defer close(send)
 		for change := range recv {
 			demand := change.Value.(*traits.ElectricDemand)
-			send <- PullDemandChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullDemandChange{
 				Value:      demand,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
@@ -121,9 +125,13 @@ func (m *Model) PullActiveMode(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			activeMode := change.Value.(*traits.ElectricMode)
-			send <- PullActiveModeChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullActiveModeChange{
 				ActiveMode: activeMode,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
@@ -344,7 +352,11 @@ func (m *Model) PullModes(ctx context.Context, opts ...resource.ReadOption) <-ch
 				NewValue:   newValue,
 				OldValue:   oldValue,
 			}
-			send <- pullChange
+			select {
+			case <-ctx.Done():
+				return
+			case send <- pullChange:
+			}
 		}
 	}()
 
diff --git a/pkg/trait/energystoragepb/model.go b/pkg/trait/energystoragepb/model.go
index ef06c0b..095f5fb 100644
--- a/pkg/trait/energystoragepb/model.go
+++ b/pkg/trait/energystoragepb/model.go
@@ -45,9 +45,13 @@ func (m *Model) PullEnergyLevel(ctx context.Context, opts ...resource.ReadOption
 		defer close(send)
 		for change := range recv {
 			demand := change.Value.(*traits.EnergyLevel)
-			send <- PullEnergyLevelChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullEnergyLevelChange{
 				Value:      demand,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/lightpb/model.go b/pkg/trait/lightpb/model.go
index 10c40b6..ff0b583 100644
--- a/pkg/trait/lightpb/model.go
+++ b/pkg/trait/lightpb/model.go
@@ -44,9 +44,13 @@ func (m *Model) PullBrightness(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.Brightness)
-			send <- PullBrightnessChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullBrightnessChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/meterpb/model.go b/pkg/trait/meterpb/model.go
index bfccd5a..220e3a3 100644
--- a/pkg/trait/meterpb/model.go
+++ b/pkg/trait/meterpb/model.go
@@ -72,9 +72,13 @@ func (m *Model) PullMeterReadings(ctx context.Context, opts ...resource.ReadOpti
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.MeterReading)
-			send <- PullMeterReadingChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullMeterReadingChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/occupancysensorpb/model.go b/pkg/trait/occupancysensorpb/model.go
index 05fca65..77daed9 100644
--- a/pkg/trait/occupancysensorpb/model.go
+++ b/pkg/trait/occupancysensorpb/model.go
@@ -40,9 +40,13 @@ func (m *Model) PullOccupancy(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.Occupancy)
-			send <- PullOccupancyChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullOccupancyChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/onoffpb/model.go b/pkg/trait/onoffpb/model.go
index 0870db7..e505b3d 100644
--- a/pkg/trait/onoffpb/model.go
+++ b/pkg/trait/onoffpb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullOnOff(ctx context.Context, opts ...resource.ReadOption) <-ch
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.OnOff)
-			send <- PullOnOffChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullOnOffChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index a7a8c95..041a09f 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -118,7 +118,11 @@ func (m *Model) PullChildren(ctx context.Context, opts ...resource.ReadOption) <
 	go func() {
 		defer close(out)
 		for change := range changes {
-			out <- childrenChangeToProto(change)
+			select {
+			case <-ctx.Done():
+				return
+			case out <- childrenChangeToProto(change):
+			}
 		}
 	}()
 
diff --git a/pkg/trait/presspb/model.go b/pkg/trait/presspb/model.go
index c025d14..d4599da 100644
--- a/pkg/trait/presspb/model.go
+++ b/pkg/trait/presspb/model.go
@@ -40,10 +40,14 @@ func (m *Model) PullPressedState(ctx context.Context, options ...resource.ReadOp
 		defer close(tx)
 		for change := range rx {
 			value := change.Value.(*traits.PressedState)
-			tx <- PullPressedStateChange{
+			select {
+			case <-ctx.Done():
+				return
+			case tx <- PullPressedStateChange{
 				Value:         value,
 				ChangeTime:    change.ChangeTime,
 				LastSeedValue: change.LastSeedValue,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/wastepb/model.go b/pkg/trait/wastepb/model.go
index 7db9ec5..55eb980 100644
--- a/pkg/trait/wastepb/model.go
+++ b/pkg/trait/wastepb/model.go
@@ -143,7 +143,11 @@ func (m *Model) PullWasteRecords(ctx context.Context, opts ...resource.ReadOptio
 				ChangeTime: wr.WasteCreateTime,
 				Type:       types.ChangeType_ADD,
 			}
-			send <- change
+			select {
+			case <-ctx.Done():
+				return
+			case send <- change:
+			}
 		}
 	}()
 
-- 
2.43.0


From 64367fcfa10aa2beabc583665e53fec6d0bb5a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:45 +0000
Subject: [PATCH 20/90] fix: Bus.Send could report success when a listener
 missed the event because ctx was done

---
 internal/minibus/bus.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/minibus/bus.go b/internal/minibus/bus.go
index a6a58b2..911ad86 100644
--- a/internal/minibus/bus.go
+++ b/internal/minibus/bus.go
@@ -51,6 +51,7 @@ type Delivery struct {
 	event   any
 	pending atomic.Int64  // how many listeners have not dealt with the event yet
 	done    chan struct{} // closed when pending reaches zero
+	missed  atomic.Bool   // whether a listener that wasn't cancelled did not receive the event
 }
 
 // Send delivers event to the listeners that existed when this Delivery was prepared.
@@ -61,7 +62,7 @@ func (d *Delivery) Send(ctx context.Context, event any) (ok bool) {
 
 	select {
 	case <-d.done:
-		return true
+		return !d.missed.Load()
 	case <-ctx.Done():
 		return false
 	}
@@ -164,6 +165,7 @@ func (l *listener) send(ctx context.Context, d *Delivery) {
 	select {
 	case <-d.ctx.Done():
 		// send context cancelled
+		d.missed.Store(true)
 	case <-ctx.Done():
 		// listen context cancelled
 		// this is considered a success even though the message is not sent
-- 
2.43.0


From 619c6f224d1d5de8e08a0aae1c2910860201d2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:56 +0000
Subject: [PATCH 21/90] fix: group.Execute panicked when there are no members

---
 pkg/group/exec.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/group/exec.go b/pkg/group/exec.go
index 5fc4ad4..98d1a12 100644
--- a/pkg/group/exec.go
+++ b/pkg/group/exec.go
@@ -40,17 +40,23 @@ func Execute(ctx context.Context, strategy ExecutionStrategy, members []Member)
 	case ExecutionStrategyOne:
 		res, i, err := ExecuteOne(ctx, members)
 		allRes := make([]proto.Message, len(members))
-		allRes[i] = res
+		if i < len(allRes) { // there might not be any members
+			allRes[i] = res
+		}
 		return allRes, err
 	case ExecutionStrategyFast:
 		res, i, err := ExecuteFast(ctx, members)
 		allRes := make([]proto.Message, len(members))
-		allRes[i] = res
+		if i < len(allRes) { // there might not be any members
+			allRes[i] = res
+		}
 		return allRes, err
 	case ExecutionStrategyRace:
 		res, i, err := ExecuteRace(ctx, members)
 		allRes := make([]proto.Message, len(members))
-		allRes[i] = res
+		if i < len(allRes) { // there might not be any members
+			allRes[i] = res
+		}
 		return allRes, err
 	}
 }
-- 
2.43.0


From 4afc163d481c385062650a7e03737c51176a1fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:58 +0000
Subject: [PATCH 22/90] fix: group.ExecuteFast and ExecuteRace leaked the
 goroutines of the remaining members

---
 pkg/group/exec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/group/exec.go b/pkg/group/exec.go
index 98d1a12..89d999d 100644
--- a/pkg/group/exec.go
+++ b/pkg/group/exec.go
@@ -175,7 +175,8 @@ func ExecuteRace(ctx context.Context, members []Member) (proto.Message, int, err
 // The returned chan will contain the responses in completion order.
 // The chan will be closed once all members have returned a result.
 func executeEach(ctx context.Context, members []Member) <-chan memberResponse {
-	responses := make(chan memberResponse)
+	// buffered so that members can complete even if the caller stops listening early
+	responses := make(chan memberResponse, len(members))
 	var all sync.WaitGroup
 	all.Add(len(members))
 
-- 
2.43.0


From 3fb24a453dfd0b20b604be7f8ecc5cb0301e8995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:38 +0000
Subject: [PATCH 23/90] fix: CompareAscending returns -1, 0 or 1 as documented

---
 pkg/time/timestamp.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/time/timestamp.go b/pkg/time/timestamp.go
index 8c6715e..188295e 100644
--- a/pkg/time/timestamp.go
+++ b/pkg/time/timestamp.go
@@ -4,9 +4,15 @@ import "google.golang.org/protobuf/types/known/timestamppb"
 
 // CompareAscending returns -1 if t1 is before t2, 1 if t1 is after t2 and 0 if t1 is equal to t2
 func CompareAscending(t1, t2 *timestamppb.Timestamp) int {
-	seconds := t1.Seconds - t2.Seconds
-	if seconds != 0 {
-		return int(seconds)
+	switch {
+	case t1.GetSeconds() < t2.GetSeconds():
+		return -1
+	case t1.GetSeconds() > t2.GetSeconds():
+		return 1
+	case t1.GetNanos() < t2.GetNanos():
+		return -1
+	case t1.GetNanos() > t2.GetNanos():
+		return 1
 	}
-	return int(t1.Nanos - t2.Nanos)
+	return 0
 }
-- 
2.43.0


From 14e438c56a807ef0fa41a9ffe51635a54edab7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:39 +0000
Subject: [PATCH 24/90] fix: an empty period does not intersect any other
 period

---
 pkg/time/period.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/time/period.go b/pkg/time/period.go
index d775a21..3993bd0 100644
--- a/pkg/time/period.go
+++ b/pkg/time/period.go
@@ -37,7 +37,10 @@ func PeriodsIntersect(p1, p2 *time.Period) bool {
 	p1lower, p1upper := cutPeriod(p1)
 	p2lower, p2upper := cutPeriod(p2)
 
-	return p1lower.CompareTo(p2upper) < 0 &&
+	// an empty period encloses no non-empty period, wherever it is
+	return p1lower.CompareTo(p1upper) < 0 &&
+		p2lower.CompareTo(p2upper) < 0 &&
+		p1lower.CompareTo(p2upper) < 0 &&
 		p2lower.CompareTo(p1upper) < 0
 }
 
-- 
2.43.0


From 68dec2adae82c94c48b3eac44a11e0550714d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:54 +0000
Subject: [PATCH 25/90] fix: summing segments is exact and keeps a trailing
 negative segment

---
 pkg/trait/electricpb/segmentpb/sum.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/electricpb/segmentpb/sum.go b/pkg/trait/electricpb/segmentpb/sum.go
index a2d53ea..c648a1e 100644
--- a/pkg/trait/electricpb/segmentpb/sum.go
+++ b/pkg/trait/electricpb/segmentpb/sum.go
@@ -25,21 +25,23 @@ func Sum(segmentSlices ...[]*traits.ElectricMode_Segment) []*traits.ElectricMode
 			result = append(result, &traits.ElectricMode_Segment{})
 		}
 
+		// Add up the magnitudes anew for each edge, accumulating deltas would accumulate rounding errors too.
+		magnitude := magnitudeAt(cut.at, segmentSlices...)
 		if length == 0 {
-			result[len(result)-1].Magnitude += cut.delta
+			result[len(result)-1].Magnitude = magnitude
 			continue
 		}
 
 		lastResult := result[len(result)-1]
 		lastResult.Length = durationpb.New(length)
-		result = append(result, &traits.ElectricMode_Segment{Magnitude: lastResult.Magnitude + cut.delta})
+		result = append(result, &traits.ElectricMode_Segment{Magnitude: magnitude})
 
 		lastTime = cut.at
 	}
 
 	if len(result) > 0 {
 		last := result[len(result)-1]
-		if last.Length == nil && last.Magnitude <= 0 {
+		if last.Length == nil && last.Magnitude == 0 {
 			result = result[:len(result)-1]
 		}
 	}
@@ -47,6 +49,17 @@ func Sum(segmentSlices ...[]*traits.ElectricMode_Segment) []*traits.ElectricMode
 	return result
 }
 
+// magnitudeAt returns the sum of the magnitudes of all the segment slices at d.
+func magnitudeAt(d time.Duration, segmentSlices ...[]*traits.ElectricMode_Segment) float32 {
+	var sum float64
+	for _, slice := range segmentSlices {
+		if magnitude, ok := MagnitudeAt(d, slice...); ok {
+			sum += float64(magnitude)
+		}
+	}
+	return float32(sum)
+}
+
 func calcCuts(segmentSlices ...[]*traits.ElectricMode_Segment) []cut {
 	var cuts []cut
 	for _, slice := range segmentSlices {
-- 
2.43.0


From 0ea98eb0d9c336ef46f3dadd60edc123584c6db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:55 +0000
Subject: [PATCH 26/90] fix: cutting an infinite segment keeps its shape

---
 pkg/trait/electricpb/segmentpb/cut.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/electricpb/segmentpb/cut.go b/pkg/trait/electricpb/segmentpb/cut.go
index b5bf0da..86f68bf 100644
--- a/pkg/trait/electricpb/segmentpb/cut.go
+++ b/pkg/trait/electricpb/segmentpb/cut.go
@@ -15,10 +15,14 @@ func Cut(d time.Duration, segment *traits.ElectricMode_Segment) (before, after *
 		return nil, segment, d < 0
 	}
 	if segment.GetLength() == nil {
-		return &traits.ElectricMode_Segment{
+		before = &traits.ElectricMode_Segment{
 			Magnitude: segment.GetMagnitude(),
 			Length:    durationpb.New(d),
-		}, segment, false
+		}
+		if shape, ok := segment.GetShape().(*traits.ElectricMode_Segment_Fixed); ok {
+			before.Shape = &traits.ElectricMode_Segment_Fixed{Fixed: shape.Fixed}
+		}
+		return before, segment, false
 	}
 
 	l := segment.GetLength().AsDuration()
-- 
2.43.0


From f3145b9209180736921f8faea581d2537ad5c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:56 +0000
Subject: [PATCH 27/90] fix: shifting segments does not stretch the shape of
 the first segment

---
 pkg/trait/electricpb/segmentpb/shift.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/electricpb/segmentpb/shift.go b/pkg/trait/electricpb/segmentpb/shift.go
index 9cac3ab..66f5251 100644
--- a/pkg/trait/electricpb/segmentpb/shift.go
+++ b/pkg/trait/electricpb/segmentpb/shift.go
@@ -20,7 +20,7 @@ func Shift(d time.Duration, segments ...*traits.ElectricMode_Segment) []*traits.
 
 	if d > 0 {
 		// attempt to extend the magnitude of the first slice instead of prepending a new one
-		if first := segments[0]; first.Magnitude == 0 {
+		if first := segments[0]; first.Magnitude == 0 && first.Shape == nil {
 			if first.Length == nil {
 				return segments // if the first value is infinite, adding to it makes no sense
 			}
-- 
2.43.0


From fb2e9967b121e0117eac6a2a7d7019e33a1ee4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:00 +0000
Subject: [PATCH 28/90] fix: summing modes treats the zero time like any other
 start time

---
 pkg/trait/electricpb/modepb/sum.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/electricpb/modepb/sum.go b/pkg/trait/electricpb/modepb/sum.go
index d1c1efd..0a2f9c6 100644
--- a/pkg/trait/electricpb/modepb/sum.go
+++ b/pkg/trait/electricpb/modepb/sum.go
@@ -32,10 +32,10 @@ func Sum(modes ...*traits.ElectricMode) *traits.ElectricMode {
 		if mode.StartTime != nil {
 			stCount++
 			st := mode.StartTime.AsTime()
-			if earliest.IsZero() || st.Before(earliest) {
+			if stCount == 1 || st.Before(earliest) {
 				earliest = st
 			}
-			if latest.IsZero() || st.After(latest) {
+			if stCount == 1 || st.After(latest) {
 				latest = st
 			}
 		}
-- 
2.43.0


From 13b670c1c4e3969ce09665ad8b0c057c720f8de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:33 +0000
Subject: [PATCH 29/90] fix: deleting an absent electric mode succeeds when
 missing modes are allowed

---
 pkg/trait/electricpb/model.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 0488ccc..9f13490 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -283,7 +283,7 @@ func (m *Model) createOrAddMode(mode *traits.ElectricMode) (*traits.ElectricMode
 }
 
 // DeleteMode will remove the mode with the given Id from the device.
-// If the mode does not exist, then ErrModeNotFound is returned.
+// If the mode does not exist, then a NotFound error is returned, unless resource.WithAllowMissing is given.
 // If the mode specified is the active mode, then ErrDeleteActiveMode is returned and the mode is not deleted.
 // Otherwise, the operation succeeded and nil is returned.
 func (m *Model) DeleteMode(id string, opts ...resource.WriteOption) error {
@@ -298,15 +298,9 @@ func (m *Model) deleteMode(id string, opts ...resource.WriteOption) error {
 		return ErrDeleteActiveMode
 	}
 
-	msg, err := m.modes.Delete(id, opts...)
-	if err != nil {
-		return err
-	}
-	if msg == nil {
-		return ErrModeNotFound
-	}
-
-	return nil
+	// absent modes are reported as NotFound, unless opts allow them to be missing
+	_, err := m.modes.Delete(id, opts...)
+	return err
 }
 
 // UpdateMode will modify one of the modes stored in this device.
-- 
2.43.0


From 7f1bee4471d9633b794a5eaad301c073c6b0f08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:34 +0000
Subject: [PATCH 30/90] fix: updating an electric mode can not mark a second
 mode as normal

---
 pkg/trait/electricpb/model.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 9f13490..70f2a3a 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -306,6 +306,7 @@ func (m *Model) deleteMode(id string, opts ...resource.WriteOption) error {
 // UpdateMode will modify one of the modes stored in this device.
 // The mode to be modified is specified by mode.Id, which must be set.
 // Fields to be modified can be selected using mask - to modify all fields, pass a nil mask.
+// If the update makes the mode normal, and another mode is already normal, then ErrNormalModeExists will result.
 func (m *Model) UpdateMode(mode *traits.ElectricMode, opts ...resource.WriteOption) (*traits.ElectricMode, error) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
@@ -313,6 +314,13 @@ func (m *Model) UpdateMode(mode *traits.ElectricMode, opts ...resource.WriteOpti
 }
 
 func (m *Model) updateMode(mode *traits.ElectricMode, opts ...resource.WriteOption) (*traits.ElectricMode, error) {
+	// if this update makes the mode normal, check that there isn't another normal mode
+	if mode.Normal && updatesNormal(opts...) {
+		if normal, ok := m.normalMode(); ok && normal.Id != mode.Id {
+			return nil, ErrNormalModeExists
+		}
+	}
+
 	msg, err := m.modes.Update(mode.Id, mode, opts...)
 	if err != nil {
 		return nil, err
@@ -320,6 +328,20 @@ func (m *Model) updateMode(mode *traits.ElectricMode, opts ...resource.WriteOpti
 	return msg.(*traits.ElectricMode), nil
 }
 
+// updatesNormal returns whether an update using opts writes to the normal field.
+func updatesNormal(opts ...resource.WriteOption) bool {
+	mask := resource.ComputeWriteConfig(opts...).UpdateMask
+	if mask == nil {
+		return true // all fields are updated
+	}
+	for _, path := range mask.Paths {
+		if path == "normal" {
+			return true
+		}
+	}
+	return false
+}
+
 // PullModes subscribes to changes to modes. Creation, modification or deletion of a mode on this device will send
 // a PullModesChange describing the event down the changes channel.
 // The returned channel will be closed when done is called. You must call done after you are finished with the channel
-- 
2.43.0


From f75bc56b54d907fa28f8736ebc2b16cb94834608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:35 +0000
Subject: [PATCH 31/90] fix: an electric mode created by a masked update has an
 id

---
 pkg/trait/electricpb/model.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 70f2a3a..e3492fc 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -321,6 +321,13 @@ func (m *Model) updateMode(mode *traits.ElectricMode, opts ...resource.WriteOpti
 		}
 	}
 
+	// a mode created by this update has an id even if the update mask doesn't mention it
+	opts = append([]resource.WriteOption{resource.InterceptAfter(func(_, new proto.Message) {
+		if newMode := new.(*traits.ElectricMode); newMode.Id == "" {
+			newMode.Id = mode.Id
+		}
+	})}, opts...)
+
 	msg, err := m.modes.Update(mode.Id, mode, opts...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 04c7b6b0ba7645eaccbb72a0173c53eb52856991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:25 +0000
Subject: [PATCH 32/90] fix: compute trait unions and differences without
 editing the stored list or removing other traits

---
 pkg/trait/parentpb/model.go | 39 ++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index 041a09f..dcd5e89 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -3,7 +3,9 @@ package parentpb
 import (
 	"context"
 	"fmt"
+	"slices"
 	"sort"
+	"strings"
 
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
@@ -147,19 +149,13 @@ func childrenChangeToProto(change *resource.CollectionChange) *traits.PullChildr
 // The has slice should be sorted in ascending order by Trait.Name.
 // The returned slice will be sorted in ascending order by Trait.Name.
 func traitUnion(has []*traits.Trait, more ...trait.Name) []*traits.Trait {
-	// has should be sorted by Trait.Name
+	// has is shared with readers of the stored child, don't edit it in place
+	has = slices.Clone(has)
 	for _, t := range more {
 		ts := string(t)
-		insertIndex := sort.Search(len(has), func(i int) bool {
-			return has[i].Name >= ts
-		})
-		switch {
-		case insertIndex == len(has): // append to end
-			has = append(has, &traits.Trait{Name: ts})
-		case has[insertIndex].Name == ts: // already exists, do nothing
-		default: // insert into slice
-			has = append(has[:insertIndex+1], has[insertIndex:]...)
-			has[insertIndex] = &traits.Trait{Name: ts}
+		i, found := findTrait(has, ts)
+		if !found {
+			has = slices.Insert(has, i, &traits.Trait{Name: ts})
 		}
 	}
 	return has
@@ -169,17 +165,20 @@ func traitUnion(has []*traits.Trait, more ...trait.Name) []*traits.Trait {
 // The has slice should be sorted in ascending order by Trait.Name.
 // The returned slice will be sorted in ascending order by Trait.Name.
 func traitRemove(has []*traits.Trait, remove ...trait.Name) []*traits.Trait {
-	// has should be sorted by Trait.Name
+	// has is shared with readers of the stored child, don't edit it in place
+	has = slices.Clone(has)
 	for _, t := range remove {
-		ts := string(t)
-		insertIndex := sort.Search(len(has), func(i int) bool {
-			return has[i].Name >= ts
-		})
-		if insertIndex == len(has) {
-			continue // t isn't in has, nothing to do this iteration
+		i, found := findTrait(has, string(t))
+		if found {
+			has = slices.Delete(has, i, i+1)
 		}
-		copy(has[insertIndex:], has[insertIndex+1:])
-		has = has[:len(has)-1]
 	}
 	return has
 }
+
+// findTrait returns the index in has, which is sorted, that name is or would be at, and whether it is there.
+func findTrait(has []*traits.Trait, name string) (int, bool) {
+	return slices.BinarySearchFunc(has, name, func(t *traits.Trait, name string) int {
+		return strings.Compare(t.Name, name)
+	})
+}
-- 
2.43.0


From 8450ba97237e4c7ab7cae44b301452f5568537da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:36 +0000
Subject: [PATCH 33/90] fix: retry instead of panicking when child traits are
 changed concurrently

---
 pkg/trait/parentpb/model.go | 49 +++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index dcd5e89..f330a7b 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -67,16 +67,19 @@ func (m *Model) RemoveChildByName(name string, opts ...resource.WriteOption) (*t
 // If no child with the given name is already know, one will be created.
 // If a child is already known with the given name, its traits will be unioned with the given trait names.
 func (m *Model) AddChildTrait(name string, traitName ...trait.Name) (child *traits.Child, created bool) {
-	msg, err := m.children.Update(name, &traits.Child{Name: name},
-		resource.WithCreateIfAbsent(),
-		resource.WithCreatedCallback(func() {
-			created = true
-		}),
-		resource.InterceptBefore(func(old, value proto.Message) {
-			oldChild := old.(*traits.Child)
-			newChild := value.(*traits.Child)
-			newChild.Traits = traitUnion(oldChild.Traits, traitName...)
-		}))
+	msg, err := retryConcurrent(func() (proto.Message, error) {
+		created = false // whatever an earlier attempt found
+		return m.children.Update(name, &traits.Child{Name: name},
+			resource.WithCreateIfAbsent(),
+			resource.WithCreatedCallback(func() {
+				created = true
+			}),
+			resource.InterceptBefore(func(old, value proto.Message) {
+				oldChild := old.(*traits.Child)
+				newChild := value.(*traits.Child)
+				newChild.Traits = traitUnion(oldChild.Traits, traitName...)
+			}))
+	})
 	if err != nil {
 		panic(err) // shouldn't happen
 	}
@@ -86,12 +89,14 @@ func (m *Model) AddChildTrait(name string, traitName ...trait.Name) (child *trai
 // RemoveChildTrait ensures that the named child no longer mentions they support the given trait names.
 // If no child exists with the given name then nil will be returned.
 func (m *Model) RemoveChildTrait(name string, traitName ...trait.Name) *traits.Child {
-	msg, err := m.children.Update(name, &traits.Child{Name: name},
-		resource.InterceptBefore(func(old, value proto.Message) {
-			oldChild := old.(*traits.Child)
-			newChild := value.(*traits.Child)
-			newChild.Traits = traitRemove(oldChild.Traits, traitName...)
-		}))
+	msg, err := retryConcurrent(func() (proto.Message, error) {
+		return m.children.Update(name, &traits.Child{Name: name},
+			resource.InterceptBefore(func(old, value proto.Message) {
+				oldChild := old.(*traits.Child)
+				newChild := value.(*traits.Child)
+				newChild.Traits = traitRemove(oldChild.Traits, traitName...)
+			}))
+	})
 	if err != nil {
 		switch status.Code(err) {
 		case codes.NotFound:
@@ -102,6 +107,18 @@ func (m *Model) RemoveChildTrait(name string, traitName ...trait.Name) *traits.C
 	return msg.(*traits.Child)
 }
 
+// retryConcurrent calls update until it doesn't fail because of another update happening at the same time.
+func retryConcurrent(update func() (proto.Message, error)) (proto.Message, error) {
+	for {
+		msg, err := update()
+		switch status.Code(err) {
+		case codes.Aborted, codes.AlreadyExists:
+			continue
+		}
+		return msg, err
+	}
+}
+
 // ListChildren returns a slice of all known Child instances.
 func (m *Model) ListChildren() []*traits.Child {
 	msgs := m.children.List()
-- 
2.43.0


From c8d4f070a567952b595957de4defc58b05c5fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:43 +0000
Subject: [PATCH 34/90] fix: report conversion errors when dispensing

---
 pkg/trait/vendingpb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index 19267be..0934228 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -237,7 +237,7 @@ func (m *Model) DispenseInstantly(consumable string, quantity *traits.Consumable
 		return nil, err
 	}
 	if maskedErr != nil {
-		return nil, err
+		return nil, maskedErr
 	}
 	return stock, nil
 }
-- 
2.43.0


From 0179ccc49942b06827e93a024b21ad24e4d33a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:49 +0000
Subject: [PATCH 35/90] fix: keep the unit of remaining stock when dispensing

---
 pkg/trait/vendingpb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index 0934228..a049ad7 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -259,7 +259,7 @@ func updateStock(quantity *traits.Consumable_Quantity, src, dst *traits.Consumab
 		if amount < 0 {
 			amount = 0
 		}
-		dst.Remaining = &traits.Consumable_Quantity{Unit: src.Used.Unit, Amount: amount}
+		dst.Remaining = &traits.Consumable_Quantity{Unit: src.Remaining.Unit, Amount: amount}
 	}
 	return nil
 }
-- 
2.43.0


From de50923aad64e01f58dd60cb48ad2fb48e72a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:55 +0000
Subject: [PATCH 36/90] fix: don't panic dispensing an absent quantity

---
 pkg/trait/vendingpb/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index a049ad7..208cd7b 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -244,14 +244,14 @@ func (m *Model) DispenseInstantly(consumable string, quantity *traits.Consumable
 
 func updateStock(quantity *traits.Consumable_Quantity, src, dst *traits.Consumable_Stock) error {
 	if src.Used != nil {
-		delta, err := unitpb.Convert32(quantity.Amount, quantity.Unit, src.Used.Unit)
+		delta, err := unitpb.Convert32(quantity.GetAmount(), quantity.GetUnit(), src.Used.Unit)
 		if err != nil {
 			return err
 		}
 		dst.Used = &traits.Consumable_Quantity{Unit: src.Used.Unit, Amount: src.Used.Amount + delta}
 	}
 	if src.Remaining != nil {
-		delta, err := unitpb.Convert32(quantity.Amount, quantity.Unit, src.Remaining.Unit)
+		delta, err := unitpb.Convert32(quantity.GetAmount(), quantity.GetUnit(), src.Remaining.Unit)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 48590425760267cea92481fd458e515216504f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:59 +0000
Subject: [PATCH 37/90] fix: stop dispensing the requested consumable

---
 pkg/trait/vendingpb/model_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/vendingpb/model_server.go b/pkg/trait/vendingpb/model_server.go
index 4e5fb8f..05923c0 100644
--- a/pkg/trait/vendingpb/model_server.go
+++ b/pkg/trait/vendingpb/model_server.go
@@ -170,5 +170,5 @@ func (m *ModelServer) Dispense(_ context.Context, request *traits.DispenseReques
 
 func (m *ModelServer) StopDispense(ctx context.Context, request *traits.StopDispenseRequest) (*traits.Consumable_Stock, error) {
 	// always succeeds, we always dispense immediately
-	return m.GetStock(ctx, &traits.GetStockRequest{Consumable: request.Name})
+	return m.GetStock(ctx, &traits.GetStockRequest{Consumable: request.Consumable})
 }
-- 
2.43.0


From 6a52abd7941646bdae6542d0bb8d6ba64a587be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:00 +0000
Subject: [PATCH 38/90] fix: use the modes a mode model is configured with

---
 pkg/trait/modepb/model.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/modepb/model.go b/pkg/trait/modepb/model.go
index 4c29e3b..e458b65 100644
--- a/pkg/trait/modepb/model.go
+++ b/pkg/trait/modepb/model.go
@@ -4,6 +4,8 @@ import (
 	"context"
 	"time"
 
+	"google.golang.org/protobuf/proto"
+
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
@@ -43,12 +45,15 @@ func NewModelModes(modes *traits.Modes) *Model {
 	modeValues := &traits.ModeValues{
 		Values: make(map[string]string),
 	}
-	for _, mode := range modes.Modes {
+	for _, mode := range modes.GetModes() {
+		if len(mode.Values) == 0 {
+			continue // nothing to select
+		}
 		modeValues.Values[mode.Name] = mode.Values[0].Name
 	}
 
 	model := &Model{
-		modes: DefaultModes,
+		modes: proto.Clone(modes).(*traits.Modes),
 		modeValues: resource.NewValue(
 			resource.WithInitialValue(modeValues),
 		),
-- 
2.43.0


From b5b970696c08a3b4accd7c86222e21057670c059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:01 +0000
Subject: [PATCH 39/90] fix: don't overflow on large relative mode adjustments

---
 pkg/trait/modepb/model_server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/modepb/model_server.go b/pkg/trait/modepb/model_server.go
index 4775640..efce399 100644
--- a/pkg/trait/modepb/model_server.go
+++ b/pkg/trait/modepb/model_server.go
@@ -77,9 +77,10 @@ func (m *ModelServer) relativeAdjustment(relative map[string]int32) resource.Upd
 			// find the value index in our supported values, and adjust the value to the new index based on adjustment
 			for i, value := range values {
 				if value.Name == oldValue {
-					newI := (int32(i) + adjustment) % int32(len(values))
+					// use int64 so that large adjustments don't overflow
+					newI := (int64(i) + int64(adjustment)) % int64(len(values))
 					if newI < 0 {
-						newI = int32(len(values)) + newI
+						newI = int64(len(values)) + newI
 					}
 					newVal.Values[modeName] = values[newI].Name
 					continue adjustments
-- 
2.43.0


From 393d0ee9e0acdc23bf31d30092f22900ac4fbe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:04 +0000
Subject: [PATCH 40/90] fix: an adjustment of zero does not override an
 explicit mode value

---
 pkg/trait/modepb/model_server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/trait/modepb/model_server.go b/pkg/trait/modepb/model_server.go
index efce399..87e513d 100644
--- a/pkg/trait/modepb/model_server.go
+++ b/pkg/trait/modepb/model_server.go
@@ -62,6 +62,9 @@ func (m *ModelServer) relativeAdjustment(relative map[string]int32) resource.Upd
 
 	adjustments:
 		for modeName, adjustment := range relative {
+			if _, explicit := newVal.Values[modeName]; explicit && adjustment == 0 {
+				continue // only non-zero adjustments win over an explicit value
+			}
 			oldValue, ok := oldVal.Values[modeName]
 			values := m.model.AvailableValues(modeName)
 			if len(values) == 0 {
-- 
2.43.0


From 4d8a930dcd7f7f9435af9d582d47451a8f92df67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:30 +0000
Subject: [PATCH 41/90] fix: relative mode updates leave other modes as they
 are

---
 pkg/trait/modepb/model_server.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/modepb/model_server.go b/pkg/trait/modepb/model_server.go
index 87e513d..6a34f36 100644
--- a/pkg/trait/modepb/model_server.go
+++ b/pkg/trait/modepb/model_server.go
@@ -38,14 +38,18 @@ func (m *ModelServer) UpdateModeValues(_ context.Context, request *traits.Update
 	opts := []resource.WriteOption{
 		resource.WithUpdateMask(request.UpdateMask),
 	}
-	if len(request.GetRelative().GetValues()) > 0 {
-		opts = append(opts, resource.InterceptBefore(m.relativeAdjustment(request.Relative.Values)))
-	}
+	adjust := m.relativeAdjustment(request.GetRelative().GetValues())
 
 	values := request.ModeValues
 	if values == nil {
 		// in case all updates are relative, we can't set nothing
 		values = &traits.ModeValues{}
+		opts = append(opts, resource.InterceptBefore(func(old, new proto.Message) {
+			proto.Merge(new, old) // modes that aren't adjusted keep their value
+			adjust(old, new)
+		}))
+	} else if len(request.GetRelative().GetValues()) > 0 {
+		opts = append(opts, resource.InterceptBefore(adjust))
 	}
 	return m.model.UpdateModeValues(values, opts...)
 }
-- 
2.43.0


From adcf10a363feb8a2e6578ae39dbbfdab1a135214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:38 +0000
Subject: [PATCH 42/90] fix: don't adjust the totals of the caller's enter
 leave event

---
 pkg/trait/enterleavesensorpb/model.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/enterleavesensorpb/model.go b/pkg/trait/enterleavesensorpb/model.go
index 953c1ec..81024ba 100644
--- a/pkg/trait/enterleavesensorpb/model.go
+++ b/pkg/trait/enterleavesensorpb/model.go
@@ -51,7 +51,8 @@ func (m *Model) CreateEnterLeaveEvent(event *traits.EnterLeaveEvent, opts ...res
 		valueVal.LeaveTotal = adjustTotal(valueVal.LeaveTotal, currentVal.LeaveTotal, valueVal.Direction == traits.EnterLeaveEvent_LEAVE)
 	})
 	opts = append([]resource.WriteOption{updateTotalsOption}, opts...)
-	_, err := m.enterLeaveEvents.Set(event, opts...)
+	// the totals are of what we store, leave the caller's event as it is
+	_, err := m.enterLeaveEvents.Set(proto.Clone(event), opts...)
 	return err
 }
 
-- 
2.43.0


From ba52f0d6d5aa25a9e241bb95e12e1fbbb02a5aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:45 +0000
Subject: [PATCH 43/90] fix: recording a meter reading keeps the start time

---
 pkg/trait/meterpb/model.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/trait/meterpb/model.go b/pkg/trait/meterpb/model.go
index 220e3a3..9db3f78 100644
--- a/pkg/trait/meterpb/model.go
+++ b/pkg/trait/meterpb/model.go
@@ -51,7 +51,9 @@ func (m *Model) UpdateMeterReading(meterReading *traits.MeterReading, opts ...re
 func (m *Model) RecordReading(val float32) (*traits.MeterReading, error) {
 	return m.UpdateMeterReading(&traits.MeterReading{Usage: val}, resource.InterceptBefore(func(old, new proto.Message) {
 		now := m.meterReading.Clock().Now()
+		oldVal := old.(*traits.MeterReading)
 		newVal := new.(*traits.MeterReading)
+		newVal.StartTime = oldVal.StartTime
 		newVal.EndTime = timestamppb.New(now)
 	}))
 }
-- 
2.43.0


From 4a68a01082bf624637852cd048bc0560ee52a0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:48 +0000
Subject: [PATCH 44/90] fix: a meter model uses the initial reading it is
 configured with

---
 pkg/trait/meterpb/model.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/trait/meterpb/model.go b/pkg/trait/meterpb/model.go
index 9db3f78..2f54cb4 100644
--- a/pkg/trait/meterpb/model.go
+++ b/pkg/trait/meterpb/model.go
@@ -22,12 +22,19 @@ func NewModel(opts ...resource.Option) *Model {
 	_, _ = value.Set(&traits.MeterReading{}, resource.InterceptBefore(func(old, new proto.Message) {
 		oldVal := old.(*traits.MeterReading)
 		newVal := new.(*traits.MeterReading)
-		now := value.Clock().Now()
-		if oldVal.StartTime == nil {
-			newVal.StartTime = timestamppb.New(now)
+		now := timestamppb.New(value.Clock().Now())
+		proto.Merge(newVal, oldVal) // keep what was configured
+		if newVal.StartTime == nil {
+			newVal.StartTime = now
+			if end := newVal.EndTime; end != nil && end.AsTime().Before(now.AsTime()) {
+				newVal.StartTime = end // a period can't start after it ends
+			}
 		}
 		if newVal.EndTime == nil {
-			newVal.EndTime = timestamppb.New(now)
+			newVal.EndTime = now
+			if start := newVal.StartTime; start.AsTime().After(now.AsTime()) {
+				newVal.EndTime = start
+			}
 		}
 	}))
 	return &Model{
-- 
2.43.0


From 1cc7798d33ce7b504e95a375a598aabf0bdb2a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:12 +0000
Subject: [PATCH 45/90] fix: allow a publication to be acknowledged again when
 requested

---
 pkg/trait/publicationpb/model_server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index 09e24e1..7f3d8dc 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -189,7 +189,8 @@ func (m *ModelServer) AcknowledgePublication(_ context.Context, request *traits.
 		}),
 	)
 
-	if err == alreadyAcknowledged && request.AllowAcknowledged {
+	// err wraps alreadyAcknowledged by now, the publication being set says the same
+	if acknowledgedPub != nil && request.AllowAcknowledged {
 		return acknowledgedPub, nil
 	}
 
-- 
2.43.0


From 043de10460772fddb00e13f89752f350def2e4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:17 +0000
Subject: [PATCH 46/90] fix: acknowledging a publication without a receipt
 accepts it

---
 pkg/trait/publicationpb/model_server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index 7f3d8dc..d3f0b0f 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -156,8 +156,12 @@ func (m *ModelServer) AcknowledgePublication(_ context.Context, request *traits.
 	if request.Version == "" {
 		return nil, status.Error(codes.InvalidArgument, "version is required")
 	}
+	receipt := request.Receipt
+	if receipt == traits.Publication_Audience_RECEIPT_UNSPECIFIED {
+		receipt = traits.Publication_Audience_ACCEPTED
+	}
 	received := &traits.Publication{Audience: &traits.Publication_Audience{
-		Receipt:               request.Receipt,
+		Receipt:               receipt,
 		ReceiptRejectedReason: request.ReceiptRejectedReason,
 	}}
 
-- 
2.43.0


From a7665ee76d576d8d87c480da69145c4ac87aba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:18 +0000
Subject: [PATCH 47/90] fix: publications with different content have different
 versions

---
 pkg/trait/publicationpb/model.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/trait/publicationpb/model.go b/pkg/trait/publicationpb/model.go
index db0d033..2aab7a4 100644
--- a/pkg/trait/publicationpb/model.go
+++ b/pkg/trait/publicationpb/model.go
@@ -148,11 +148,12 @@ func toPublication(msg proto.Message, err error) (*traits.Publication, error) {
 func mintVersion(p *traits.Publication) string {
 	// Hash properties we are happy to include in our version calculation.
 	// Note: don't use proto.Marshal as it is non-deterministic
+	// Each property is preceded by its length so that text can't move between properties unnoticed.
 	hash := md5.New()
-	io.WriteString(hash, "v1")
-	io.WriteString(hash, p.Id)
-	hash.Write(p.Body)
-	io.WriteString(hash, p.MediaType)
-	io.WriteString(hash, p.GetAudience().GetName())
+	io.WriteString(hash, "v2")
+	for _, s := range []string{p.Id, string(p.Body), p.MediaType, p.GetAudience().GetName()} {
+		fmt.Fprintf(hash, "%d:", len(s))
+		io.WriteString(hash, s)
+	}
 	return fmt.Sprintf("%x", hash.Sum(nil))
 }
-- 
2.43.0


From 2b882dd33f02f58cf0d5c953dbff2e1eaeb959a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:24 +0000
Subject: [PATCH 48/90] fix: derive fan speed properties from those an update
 sets

---
 pkg/trait/fanspeedpb/model.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/fanspeedpb/model.go b/pkg/trait/fanspeedpb/model.go
index 84a4d1d..dbcb9e5 100644
--- a/pkg/trait/fanspeedpb/model.go
+++ b/pkg/trait/fanspeedpb/model.go
@@ -2,11 +2,13 @@ package fanspeedpb
 
 import (
 	"context"
+	"slices"
 	"time"
 
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
+	"google.golang.org/protobuf/types/known/fieldmaskpb"
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
@@ -58,7 +60,11 @@ func (m *Model) UpdateFanSpeed(fanSpeed *traits.FanSpeed, opts ...resource.Write
 		return nil, err
 	}
 
-	opts = append([]resource.WriteOption{resource.InterceptAfter(m.DeriveValues)}, opts...)
+	updateMask := resource.ComputeWriteConfig(opts...).UpdateMask
+	opts = append([]resource.WriteOption{resource.InterceptAfter(func(old, new proto.Message) {
+		ignoreUnset(updateMask, old.(*traits.FanSpeed), new.(*traits.FanSpeed))
+		m.DeriveValues(old, new)
+	})}, opts...)
 	val, err := m.fanSpeed.Set(fanSpeed, opts...)
 	if val == nil {
 		return nil, err
@@ -82,6 +88,27 @@ func (m *Model) validateUpdate(fanSpeed *traits.FanSpeed) error {
 	return nil
 }
 
+// ignoreUnset undoes changes to new for those properties which an update using mask hasn't set or that are overruled by
+// those it has: preset overrules preset index, which overrules percentage.
+// Without a mask everything is updated but a preset or preset index with no value isn't considered set.
+func ignoreUnset(mask *fieldmaskpb.FieldMask, old, new *traits.FanSpeed) {
+	updated := func(path string) bool {
+		return mask == nil || slices.Contains(mask.Paths, path)
+	}
+	preset := updated("preset") && new.Preset != ""
+	index := !preset && updated("preset_index") && (mask != nil || new.PresetIndex != 0) && new.PresetIndex != old.PresetIndex
+	percentage := !preset && !index && updated("percentage")
+	if !preset {
+		new.Preset = old.Preset
+	}
+	if !index {
+		new.PresetIndex = old.PresetIndex
+	}
+	if !percentage {
+		new.Percentage = old.Percentage
+	}
+}
+
 // DeriveValues derives values that haven't been set from those that have.
 // For example setting percentage when the preset changes.
 // Updated values will be set on new.
-- 
2.43.0


From 52749e5392751e3b5e6d475fa153bd3b7cdcd578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:25 +0000
Subject: [PATCH 49/90] fix: don't panic setting the preset index of a fan
 without presets

---
 pkg/trait/fanspeedpb/model.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/fanspeedpb/model.go b/pkg/trait/fanspeedpb/model.go
index dbcb9e5..cbdd8ad 100644
--- a/pkg/trait/fanspeedpb/model.go
+++ b/pkg/trait/fanspeedpb/model.go
@@ -62,7 +62,7 @@ func (m *Model) UpdateFanSpeed(fanSpeed *traits.FanSpeed, opts ...resource.Write
 
 	updateMask := resource.ComputeWriteConfig(opts...).UpdateMask
 	opts = append([]resource.WriteOption{resource.InterceptAfter(func(old, new proto.Message) {
-		ignoreUnset(updateMask, old.(*traits.FanSpeed), new.(*traits.FanSpeed))
+		m.ignoreUnset(updateMask, old.(*traits.FanSpeed), new.(*traits.FanSpeed))
 		m.DeriveValues(old, new)
 	})}, opts...)
 	val, err := m.fanSpeed.Set(fanSpeed, opts...)
@@ -91,12 +91,12 @@ func (m *Model) validateUpdate(fanSpeed *traits.FanSpeed) error {
 // ignoreUnset undoes changes to new for those properties which an update using mask hasn't set or that are overruled by
 // those it has: preset overrules preset index, which overrules percentage.
 // Without a mask everything is updated but a preset or preset index with no value isn't considered set.
-func ignoreUnset(mask *fieldmaskpb.FieldMask, old, new *traits.FanSpeed) {
+func (m *Model) ignoreUnset(mask *fieldmaskpb.FieldMask, old, new *traits.FanSpeed) {
 	updated := func(path string) bool {
 		return mask == nil || slices.Contains(mask.Paths, path)
 	}
 	preset := updated("preset") && new.Preset != ""
-	index := !preset && updated("preset_index") && (mask != nil || new.PresetIndex != 0) && new.PresetIndex != old.PresetIndex
+	index := !preset && len(m.presets) > 0 && updated("preset_index") && (mask != nil || new.PresetIndex != 0) && new.PresetIndex != old.PresetIndex
 	percentage := !preset && !index && updated("percentage")
 	if !preset {
 		new.Preset = old.Preset
@@ -127,6 +127,11 @@ func (m *Model) DeriveValues(old, new proto.Message) {
 		return
 	}
 
+	if len(m.presets) == 0 {
+		newVal.PresetIndex = -1 // there's nothing to index
+		return
+	}
+
 	if oldVal.PresetIndex != newVal.PresetIndex {
 		// cap the index if needed, and update the preset and percentage
 		if newVal.PresetIndex >= int32(len(m.presets)) {
-- 
2.43.0


From f6d3fdeda6724256d6e65c62f67949f4e836b9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:26 +0000
Subject: [PATCH 50/90] fix: the initial fan speed agrees with the configured
 presets

---
 pkg/trait/fanspeedpb/model.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/fanspeedpb/model.go b/pkg/trait/fanspeedpb/model.go
index cbdd8ad..a61b1b5 100644
--- a/pkg/trait/fanspeedpb/model.go
+++ b/pkg/trait/fanspeedpb/model.go
@@ -38,10 +38,20 @@ type Model struct {
 // NewModel constructs a Model with default values using the first of DefaultPresets.
 func NewModel(opts ...resource.Option) *Model {
 	args := calcModelArgs(opts...)
-	return &Model{
+	m := &Model{
 		presets:  args.presets,
 		fanSpeed: resource.NewValue(args.fanSpeedOpts...),
 	}
+	// make sure the initial values agree with each other and with the presets
+	_, _ = m.fanSpeed.Set(m.FanSpeed(), resource.WithAllFieldsWritable(), resource.InterceptAfter(func(_, new proto.Message) {
+		newVal := new.(*traits.FanSpeed)
+		if m.validateUpdate(newVal) != nil {
+			newVal.Preset = "" // not one of our presets
+		}
+		newVal.PresetIndex = max(newVal.PresetIndex, 0)
+		m.DeriveValues(&traits.FanSpeed{Percentage: -1}, newVal)
+	}))
+	return m
 }
 
 // FanSpeed gets the current fan speed.
-- 
2.43.0


From de34d6bbb56d4662d59cf5e2bedf21fc5767972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:32 +0000
Subject: [PATCH 51/90] fix: fan speed updates use the update mask

---
 pkg/trait/fanspeedpb/model_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/fanspeedpb/model_server.go b/pkg/trait/fanspeedpb/model_server.go
index cf213ce..546ff39 100644
--- a/pkg/trait/fanspeedpb/model_server.go
+++ b/pkg/trait/fanspeedpb/model_server.go
@@ -34,7 +34,7 @@ func (s *ModelServer) GetFanSpeed(_ context.Context, request *traits.GetFanSpeed
 }
 
 func (s *ModelServer) UpdateFanSpeed(_ context.Context, request *traits.UpdateFanSpeedRequest) (*traits.FanSpeed, error) {
-	return s.model.UpdateFanSpeed(request.FanSpeed, resource.InterceptBefore(func(old, new proto.Message) {
+	return s.model.UpdateFanSpeed(request.FanSpeed, resource.WithUpdateMask(request.UpdateMask), resource.InterceptBefore(func(old, new proto.Message) {
 		if request.Relative {
 			oldVal := old.(*traits.FanSpeed)
 			newVal := new.(*traits.FanSpeed)
-- 
2.43.0


From 436fea50ca80b342ff5eb9ece92b6e3ab7abab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:52 +0000
Subject: [PATCH 52/90] fix: step the fan speed preset index relatively, down
 to the first preset

---
 pkg/trait/fanspeedpb/model_server.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/fanspeedpb/model_server.go b/pkg/trait/fanspeedpb/model_server.go
index 546ff39..01aedc8 100644
--- a/pkg/trait/fanspeedpb/model_server.go
+++ b/pkg/trait/fanspeedpb/model_server.go
@@ -2,6 +2,7 @@ package fanspeedpb
 
 import (
 	"context"
+	"slices"
 
 	"google.golang.org/grpc"
 	"google.golang.org/protobuf/proto"
@@ -39,7 +40,19 @@ func (s *ModelServer) UpdateFanSpeed(_ context.Context, request *traits.UpdateFa
 			oldVal := old.(*traits.FanSpeed)
 			newVal := new.(*traits.FanSpeed)
 			newVal.Percentage += oldVal.Percentage
-			newVal.PresetIndex += oldVal.PresetIndex
+			stepping := newVal.PresetIndex != 0 && len(s.model.presets) > 0 &&
+				(request.UpdateMask == nil || slices.Contains(request.UpdateMask.Paths, "preset_index"))
+			if !stepping {
+				newVal.PresetIndex = oldVal.PresetIndex
+			} else {
+				i := min(max(int(oldVal.PresetIndex)+int(newVal.PresetIndex), 0), len(s.model.presets)-1)
+				newVal.PresetIndex = int32(i)
+				newVal.Percentage = s.model.presets[i].Percentage
+				if request.UpdateMask == nil && newVal.Preset == "" {
+					// without a mask an index of 0 would not count as being set
+					newVal.Preset = s.model.presets[i].Name
+				}
+			}
 			// todo: should we support setting the preset relatively if we're between presets?
 		}
 	}))
-- 
2.43.0


From 37d5144ae308b86ea2e2ae644c662171bbb23007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:53 +0000
Subject: [PATCH 53/90] fix: implement reversing the fan direction instead of
 panicking

---
 pkg/trait/fanspeedpb/model_server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/fanspeedpb/model_server.go b/pkg/trait/fanspeedpb/model_server.go
index 01aedc8..41771cf 100644
--- a/pkg/trait/fanspeedpb/model_server.go
+++ b/pkg/trait/fanspeedpb/model_server.go
@@ -71,6 +71,12 @@ func (s *ModelServer) PullFanSpeed(request *traits.PullFanSpeedRequest, server t
 }
 
 func (s *ModelServer) ReverseFanSpeedDirection(ctx context.Context, request *traits.ReverseFanSpeedDirectionRequest) (*traits.FanSpeed, error) {
-	// TODO implement me
-	panic("implement me")
+	return s.model.UpdateFanSpeed(&traits.FanSpeed{}, resource.WithUpdatePaths("direction"), resource.InterceptBefore(func(old, new proto.Message) {
+		switch oldVal := old.(*traits.FanSpeed); oldVal.Direction {
+		case traits.FanSpeed_FORWARD:
+			new.(*traits.FanSpeed).Direction = traits.FanSpeed_BACKWARD
+		case traits.FanSpeed_BACKWARD:
+			new.(*traits.FanSpeed).Direction = traits.FanSpeed_FORWARD
+		}
+	}))
 }
-- 
2.43.0


From 9e486201b74fc9869f7e264d2d38c8200e139fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 54/90] fix: ignore change_time in Change messages when only
 one has it

---
 pkg/cmp/cmp.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/cmp/cmp.go b/pkg/cmp/cmp.go
index 5d37979..1f8c140 100644
--- a/pkg/cmp/cmp.go
+++ b/pkg/cmp/cmp.go
@@ -45,6 +45,9 @@ func (eq equator) equalMessage(mx, my pref.Message) bool {
 	nx := 0
 	equal := true
 	mx.Range(func(fd pref.FieldDescriptor, vx pref.Value) bool {
+		if isChangeTime(fd) {
+			return true
+		}
 		nx++
 		vy := my.Get(fd)
 		equal = my.Has(fd) && eq.equalField(fd, vx, vy)
@@ -55,6 +58,9 @@ func (eq equator) equalMessage(mx, my pref.Message) bool {
 	}
 	ny := 0
 	my.Range(func(fd pref.FieldDescriptor, vx pref.Value) bool {
+		if isChangeTime(fd) {
+			return true
+		}
 		ny++
 		return true
 	})
@@ -65,12 +71,15 @@ func (eq equator) equalMessage(mx, my pref.Message) bool {
 	return eq.equalUnknown(mx.GetUnknown(), my.GetUnknown())
 }
 
+// isChangeTime reports whether fd is PullResponse.Change.change_time.
+// This is the case we've added, the field is ignored whether or not it is set.
+func isChangeTime(fd pref.FieldDescriptor) bool {
+	return fd.Name() == "change_time" && fd.ContainingMessage().Name() == "Change"
+}
+
 // equalField compares two fields.
 func (eq equator) equalField(fd pref.FieldDescriptor, x, y pref.Value) bool {
 	switch {
-	// This is the case we've added, ignore PullResponse.Change.change_time
-	case fd.Name() == "change_time" && fd.ContainingMessage().Name() == "Change":
-		return true
 	case fd.IsList():
 		return eq.equalList(fd, x.List(), y.List())
 	case fd.IsMap():
-- 
2.43.0


From 31bdc8e554c2dd4fe39ea91ef4331a185d0f42fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 55/90] fix: apply value comparers to fields that have their
 default value in one of the messages

---
 pkg/cmp/cmp.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/pkg/cmp/cmp.go b/pkg/cmp/cmp.go
index 1f8c140..0c29f2b 100644
--- a/pkg/cmp/cmp.go
+++ b/pkg/cmp/cmp.go
@@ -42,35 +42,44 @@ func (eq equator) equalMessage(mx, my pref.Message) bool {
 		return false
 	}
 
-	nx := 0
 	equal := true
 	mx.Range(func(fd pref.FieldDescriptor, vx pref.Value) bool {
-		if isChangeTime(fd) {
-			return true
+		switch {
+		case isChangeTime(fd):
+		case my.Has(fd):
+			equal = eq.equalField(fd, vx, my.Get(fd))
+		default:
+			equal = eq.equalAbsent(fd, vx, my.Get(fd))
 		}
-		nx++
-		vy := my.Get(fd)
-		equal = my.Has(fd) && eq.equalField(fd, vx, vy)
 		return equal
 	})
 	if !equal {
 		return false
 	}
-	ny := 0
-	my.Range(func(fd pref.FieldDescriptor, vx pref.Value) bool {
-		if isChangeTime(fd) {
-			return true
+	my.Range(func(fd pref.FieldDescriptor, vy pref.Value) bool {
+		if !isChangeTime(fd) && !mx.Has(fd) {
+			equal = eq.equalAbsent(fd, mx.Get(fd), vy)
 		}
-		ny++
-		return true
+		return equal
 	})
-	if nx != ny {
+	if !equal {
 		return false
 	}
 
 	return eq.equalUnknown(mx.GetUnknown(), my.GetUnknown())
 }
 
+// equalAbsent compares a field that is set in only one of the messages.
+// Such fields differ unless a value comparer says otherwise and the field has no concept of being set,
+// where not being set is the same as being the default value.
+func (eq equator) equalAbsent(fd pref.FieldDescriptor, x, y pref.Value) bool {
+	if eq.cmpValue == nil || fd.HasPresence() || fd.Cardinality() == pref.Repeated {
+		return false
+	}
+	equal, ok := eq.cmpValue(fd, x, y)
+	return ok && equal
+}
+
 // isChangeTime reports whether fd is PullResponse.Change.change_time.
 // This is the case we've added, the field is ignored whether or not it is set.
 func isChangeTime(fd pref.FieldDescriptor) bool {
-- 
2.43.0


From 6f8812458eb69d33898cbdf72b157bc8f68cca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 56/90] fix: make approximate float comparison reflexive for
 NaN and infinities

---
 pkg/cmp/number.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/cmp/number.go b/pkg/cmp/number.go
index b874ff2..b1f1ad4 100644
--- a/pkg/cmp/number.go
+++ b/pkg/cmp/number.go
@@ -8,12 +8,19 @@ import (
 
 // FloatValueApprox compares floating point values as equal if they are within
 // fraction or margin of each other.
+// NaN is equal to NaN, and infinities only to themselves.
 func FloatValueApprox(fraction, margin float64) Value {
 	return func(fd pref.FieldDescriptor, x, y pref.Value) (equal bool, ok bool) {
 		if fd.Kind() != pref.FloatKind && fd.Kind() != pref.DoubleKind {
 			return false, false
 		}
 		fx, fy := x.Float(), y.Float()
+		if math.IsNaN(fx) || math.IsNaN(fy) {
+			return math.IsNaN(fx) && math.IsNaN(fy), true
+		}
+		if math.IsInf(fx, 0) || math.IsInf(fy, 0) {
+			return fx == fy, true
+		}
 		relMarg := fraction * math.Min(math.Abs(fx), math.Abs(fy))
 		return math.Abs(fx-fy) <= math.Max(margin, relMarg), true
 	}
-- 
2.43.0


From 41c5da1f0148b371be7ad270633ae5689b81dd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 57/90] fix: compare timestamps that are further apart than a
 time.Duration, or of dynamic messages

---
 pkg/cmp/time.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pkg/cmp/time.go b/pkg/cmp/time.go
index f7b980a..53b439a 100644
--- a/pkg/cmp/time.go
+++ b/pkg/cmp/time.go
@@ -5,7 +5,6 @@ import (
 
 	pref "google.golang.org/protobuf/reflect/protoreflect"
 	"google.golang.org/protobuf/types/known/durationpb"
-	"google.golang.org/protobuf/types/known/timestamppb"
 )
 
 func TimeValueWithin(d time.Duration) Value {
@@ -26,16 +25,23 @@ func TimeValueWithin(d time.Duration) Value {
 			return mx.IsValid() == my.IsValid(), true
 		}
 
-		xt, yt := toTime(mx), toTime(my)
-		if xt.Before(yt) {
-			return yt.Sub(xt) <= d, true
-		}
-		return xt.Sub(yt) <= d, true
+		return timesWithin(toTime(mx), toTime(my), d), true
 	}
 }
 
+// toTime returns the time given by the seconds and nanos fields of x.
 func toTime(x pref.Message) time.Time {
-	return x.Interface().(*timestamppb.Timestamp).AsTime()
+	fields := x.Descriptor().Fields()
+	return time.Unix(x.Get(fields.ByName("seconds")).Int(), x.Get(fields.ByName("nanos")).Int())
+}
+
+// timesWithin reports whether x and y are no more than d apart.
+// The times can be further apart than a time.Duration can represent.
+func timesWithin(x, y time.Time, d time.Duration) bool {
+	if y.Before(x) {
+		x, y = y, x
+	}
+	return !x.Add(d).Before(y)
 }
 
 // DurationValueWithin considers two durationpb.Duration to be equal if their durations are within d of each other.
-- 
2.43.0


From f7d5e81ea33397bc20d7ce26e2a1697ae22c8769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 58/90] fix: compare durations without overflow, or of dynamic
 messages

---
 pkg/cmp/time.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/pkg/cmp/time.go b/pkg/cmp/time.go
index 53b439a..577eba2 100644
--- a/pkg/cmp/time.go
+++ b/pkg/cmp/time.go
@@ -4,7 +4,6 @@ import (
 	"time"
 
 	pref "google.golang.org/protobuf/reflect/protoreflect"
-	"google.golang.org/protobuf/types/known/durationpb"
 )
 
 func TimeValueWithin(d time.Duration) Value {
@@ -51,10 +50,7 @@ func DurationValueWithin(d time.Duration) Value {
 		if returnEarly {
 			return equal, ok
 		}
-		if xd < yd {
-			return yd-xd <= d, true
-		}
-		return xd-yd <= d, true
+		return timesWithin(xd, yd, d), true
 	}
 }
 
@@ -65,7 +61,7 @@ func DurationValueWithinP(p float32) Value {
 		if returnEarly {
 			return equal, ok
 		}
-		pd := float32(xd) / float32(yd)
+		pd := float32(xd.UnixNano()) / float32(yd.UnixNano())
 		if pd < 0 {
 			pd = -pd
 		}
@@ -73,7 +69,8 @@ func DurationValueWithinP(p float32) Value {
 	}
 }
 
-func cmpDuration(fd pref.FieldDescriptor, x, y pref.Value) (xd, yd time.Duration, equal, ok, returnEarly bool) {
+// cmpDuration returns x and y as times relative to the unix epoch, which unlike time.Duration can represent all values.
+func cmpDuration(fd pref.FieldDescriptor, x, y pref.Value) (xd, yd time.Time, equal, ok, returnEarly bool) {
 	if fd.Kind() != pref.MessageKind {
 		return xd, yd, false, false, true
 	}
@@ -90,10 +87,6 @@ func cmpDuration(fd pref.FieldDescriptor, x, y pref.Value) (xd, yd time.Duration
 		return xd, yd, mx.IsValid() == my.IsValid(), true, true
 	}
 
-	xd, yd = toDuration(mx), toDuration(my)
+	xd, yd = toTime(mx), toTime(my)
 	return xd, yd, false, false, false
 }
-
-func toDuration(x pref.Message) time.Duration {
-	return x.Interface().(*durationpb.Duration).AsDuration()
-}
-- 
2.43.0


From 0eabbcb3113840c2a71161687dc5c838fc1948e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 59/90] fix: compare durations by how much they differ in
 DurationValueWithinP

---
 pkg/cmp/time.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/cmp/time.go b/pkg/cmp/time.go
index 577eba2..610d62d 100644
--- a/pkg/cmp/time.go
+++ b/pkg/cmp/time.go
@@ -1,6 +1,7 @@
 package cmp
 
 import (
+	"math"
 	"time"
 
 	pref "google.golang.org/protobuf/reflect/protoreflect"
@@ -54,18 +55,17 @@ func DurationValueWithin(d time.Duration) Value {
 	}
 }
 
-// DurationValueWithinP considers two durationpb.Duration to be equal if their values are within p percent of each other.
+// DurationValueWithinP considers two durationpb.Duration to be equal if their values are within p percent of each other,
+// that is they differ by no more than p percent of the one closer to zero.
 func DurationValueWithinP(p float32) Value {
 	return func(fd pref.FieldDescriptor, x, y pref.Value) (equal, ok bool) {
 		xd, yd, equal, ok, returnEarly := cmpDuration(fd, x, y)
 		if returnEarly {
 			return equal, ok
 		}
-		pd := float32(xd.UnixNano()) / float32(yd.UnixNano())
-		if pd < 0 {
-			pd = -pd
-		}
-		return pd < p, true
+		diff := math.Abs(float64(xd.Unix()-yd.Unix())*1e9 + float64(xd.Nanosecond()-yd.Nanosecond()))
+		least := math.Min(math.Abs(nanos(xd)), math.Abs(nanos(yd)))
+		return diff*100 <= float64(p)*least, true
 	}
 }
 
@@ -90,3 +90,8 @@ func cmpDuration(fd pref.FieldDescriptor, x, y pref.Value) (xd, yd time.Time, eq
 	xd, yd = toTime(mx), toTime(my)
 	return xd, yd, false, false, false
 }
+
+// nanos returns how many nanoseconds t is after the unix epoch.
+func nanos(t time.Time) float64 {
+	return float64(t.Unix())*1e9 + float64(t.Nanosecond())
+}
-- 
2.43.0


From f6ef1fe9a47fa1999874a366dba6f1c94ba16530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:18 +0000
Subject: [PATCH 60/90] fix: answer negative page sizes with an error instead
 of panicking or returning items

---
 pkg/trait/electricpb/model_server.go    |  6 ++++--
 pkg/trait/electricpb/pages.go           | 11 +++++++----
 pkg/trait/hailpb/model_server.go        |  6 ++++--
 pkg/trait/hailpb/pages.go               | 11 +++++++----
 pkg/trait/parentpb/model_server.go      |  6 ++++--
 pkg/trait/parentpb/pages.go             | 11 +++++++----
 pkg/trait/publicationpb/model_server.go |  6 ++++--
 pkg/trait/publicationpb/pages.go        | 11 +++++++----
 pkg/trait/vendingpb/model_server.go     | 12 ++++++++----
 pkg/trait/vendingpb/pages.go            | 11 +++++++----
 pkg/trait/wastepb/model_server.go       |  6 +++++-
 11 files changed, 64 insertions(+), 33 deletions(-)

diff --git a/pkg/trait/electricpb/model_server.go b/pkg/trait/electricpb/model_server.go
index 924df5e..6260275 100644
--- a/pkg/trait/electricpb/model_server.go
+++ b/pkg/trait/electricpb/model_server.go
@@ -104,7 +104,10 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
 	sortedModes := s.model.Modes(resource.WithReadMask(request.ReadMask))
 	nextIndex := 0
@@ -127,7 +130,6 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
diff --git a/pkg/trait/electricpb/pages.go b/pkg/trait/electricpb/pages.go
index 0cad80e..1a458b6 100644
--- a/pkg/trait/electricpb/pages.go
+++ b/pkg/trait/electricpb/pages.go
@@ -15,14 +15,17 @@ const (
 	maxPageSize     = 1000
 )
 
-func capPageSize(pageSize int) int {
+func capPageSize(pageSize int) (int, error) {
+	if pageSize < 0 {
+		return 0, status.Errorf(codes.InvalidArgument, "bad page size: %d", pageSize)
+	}
 	if pageSize == 0 {
-		return defaultPageSize
+		return defaultPageSize, nil
 	}
 	if pageSize > maxPageSize {
-		return maxPageSize
+		return maxPageSize, nil
 	}
-	return pageSize
+	return pageSize, nil
 }
 
 func decodePageToken(token string, pageToken *types.PageToken) error {
diff --git a/pkg/trait/hailpb/model_server.go b/pkg/trait/hailpb/model_server.go
index 663e16f..92c3007 100644
--- a/pkg/trait/hailpb/model_server.go
+++ b/pkg/trait/hailpb/model_server.go
@@ -76,7 +76,10 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
 	sortedItems := m.model.ListHails(resource.WithReadMask(request.ReadMask))
 	nextIndex := 0
@@ -99,7 +102,6 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
diff --git a/pkg/trait/hailpb/pages.go b/pkg/trait/hailpb/pages.go
index 4b8b484..abfe95c 100644
--- a/pkg/trait/hailpb/pages.go
+++ b/pkg/trait/hailpb/pages.go
@@ -15,14 +15,17 @@ const (
 	maxPageSize     = 1000
 )
 
-func capPageSize(pageSize int) int {
+func capPageSize(pageSize int) (int, error) {
+	if pageSize < 0 {
+		return 0, status.Errorf(codes.InvalidArgument, "bad page size: %d", pageSize)
+	}
 	if pageSize == 0 {
-		return defaultPageSize
+		return defaultPageSize, nil
 	}
 	if pageSize > maxPageSize {
-		return maxPageSize
+		return maxPageSize, nil
 	}
-	return pageSize
+	return pageSize, nil
 }
 
 func decodePageToken(token string, pageToken *types.PageToken) error {
diff --git a/pkg/trait/parentpb/model_server.go b/pkg/trait/parentpb/model_server.go
index f03d886..8f798d4 100644
--- a/pkg/trait/parentpb/model_server.go
+++ b/pkg/trait/parentpb/model_server.go
@@ -31,7 +31,10 @@ func (s *ModelServer) ListChildren(_ context.Context, request *traits.ListChildr
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
 	all := s.model.ListChildren()
 	sort.Slice(all, func(i, j int) bool {
@@ -61,7 +64,6 @@ func (s *ModelServer) ListChildren(_ context.Context, request *traits.ListChildr
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
diff --git a/pkg/trait/parentpb/pages.go b/pkg/trait/parentpb/pages.go
index d66501e..fc1b722 100644
--- a/pkg/trait/parentpb/pages.go
+++ b/pkg/trait/parentpb/pages.go
@@ -15,14 +15,17 @@ const (
 	maxPageSize     = 1000
 )
 
-func capPageSize(pageSize int) int {
+func capPageSize(pageSize int) (int, error) {
+	if pageSize < 0 {
+		return 0, status.Errorf(codes.InvalidArgument, "bad page size: %d", pageSize)
+	}
 	if pageSize == 0 {
-		return defaultPageSize
+		return defaultPageSize, nil
 	}
 	if pageSize > maxPageSize {
-		return maxPageSize
+		return maxPageSize, nil
 	}
-	return pageSize
+	return pageSize, nil
 }
 
 func decodePageToken(token string, pageToken *types.PageToken) error {
diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index d3f0b0f..b118cc2 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -105,7 +105,10 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
 	sortedItems := m.model.ListPublications(resource.WithReadMask(request.ReadMask))
 	nextIndex := 0
@@ -128,7 +131,6 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
diff --git a/pkg/trait/publicationpb/pages.go b/pkg/trait/publicationpb/pages.go
index bb56648..7456f6a 100644
--- a/pkg/trait/publicationpb/pages.go
+++ b/pkg/trait/publicationpb/pages.go
@@ -15,14 +15,17 @@ const (
 	maxPageSize     = 1000
 )
 
-func capPageSize(pageSize int) int {
+func capPageSize(pageSize int) (int, error) {
+	if pageSize < 0 {
+		return 0, status.Errorf(codes.InvalidArgument, "bad page size: %d", pageSize)
+	}
 	if pageSize == 0 {
-		return defaultPageSize
+		return defaultPageSize, nil
 	}
 	if pageSize > maxPageSize {
-		return maxPageSize
+		return maxPageSize, nil
 	}
-	return pageSize
+	return pageSize, nil
 }
 
 func decodePageToken(token string, pageToken *types.PageToken) error {
diff --git a/pkg/trait/vendingpb/model_server.go b/pkg/trait/vendingpb/model_server.go
index 05923c0..6fa42a2 100644
--- a/pkg/trait/vendingpb/model_server.go
+++ b/pkg/trait/vendingpb/model_server.go
@@ -39,7 +39,10 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
 	sortedItems := m.model.ListConsumables(resource.WithReadMask(request.ReadMask))
 	nextIndex := 0
@@ -62,7 +65,6 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
@@ -117,7 +119,10 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
 	sortedItems := m.model.ListInventory(resource.WithReadMask(request.ReadMask))
 	nextIndex := 0
@@ -140,7 +145,6 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
diff --git a/pkg/trait/vendingpb/pages.go b/pkg/trait/vendingpb/pages.go
index 34f0695..c6b47e9 100644
--- a/pkg/trait/vendingpb/pages.go
+++ b/pkg/trait/vendingpb/pages.go
@@ -15,14 +15,17 @@ const (
 	maxPageSize     = 1000
 )
 
-func capPageSize(pageSize int) int {
+func capPageSize(pageSize int) (int, error) {
+	if pageSize < 0 {
+		return 0, status.Errorf(codes.InvalidArgument, "bad page size: %d", pageSize)
+	}
 	if pageSize == 0 {
-		return defaultPageSize
+		return defaultPageSize, nil
 	}
 	if pageSize > maxPageSize {
-		return maxPageSize
+		return maxPageSize, nil
 	}
-	return pageSize
+	return pageSize, nil
 }
 
 func decodePageToken(token string, pageToken *types.PageToken) error {
diff --git a/pkg/trait/wastepb/model_server.go b/pkg/trait/wastepb/model_server.go
index d94fa22..1d2cac3 100644
--- a/pkg/trait/wastepb/model_server.go
+++ b/pkg/trait/wastepb/model_server.go
@@ -5,6 +5,8 @@ import (
 	"strconv"
 
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 
 	"github.com/smart-core-os/sc-api/go/traits"
 )
@@ -41,7 +43,9 @@ func (m *ModelServer) ListWasteRecords(ctx context.Context, req *traits.ListWast
 	}
 
 	count := req.PageSize
-	if count == 0 {
+	if count < 0 {
+		return nil, status.Errorf(codes.InvalidArgument, "bad page size: %d", count)
+	} else if count == 0 {
 		count = 50
 	} else if count > 1000 {
 		count = 1000
-- 
2.43.0


From 60b5b2fb01ed00cf6cdfd0f82f7f66a670222000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 61/90] fix: page lists by the keys of their items when the
 read mask excludes the key

---
 pkg/trait/electricpb/model_server.go    |  9 +++++++--
 pkg/trait/hailpb/model_server.go        |  9 +++++++--
 pkg/trait/publicationpb/model_server.go |  9 +++++++--
 pkg/trait/vendingpb/model_server.go     | 17 +++++++++++++----
 4 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/pkg/trait/electricpb/model_server.go b/pkg/trait/electricpb/model_server.go
index 6260275..f9862fb 100644
--- a/pkg/trait/electricpb/model_server.go
+++ b/pkg/trait/electricpb/model_server.go
@@ -12,6 +12,7 @@ import (
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
 
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -109,7 +110,8 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 		return nil, err
 	}
 
-	sortedModes := s.model.Modes(resource.WithReadMask(request.ReadMask))
+	// the items are masked later, finding the page needs their keys
+	sortedModes := s.model.Modes()
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedModes), func(i int) bool {
@@ -134,7 +136,10 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 	if err != nil {
 		return nil, err
 	}
-	result.Modes = sortedModes[nextIndex:upperBound]
+	filter := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for _, item := range sortedModes[nextIndex:upperBound] {
+		result.Modes = append(result.Modes, filter.FilterClone(item).(*traits.ElectricMode))
+	}
 	return result, nil
 }
 
diff --git a/pkg/trait/hailpb/model_server.go b/pkg/trait/hailpb/model_server.go
index 92c3007..e6e997e 100644
--- a/pkg/trait/hailpb/model_server.go
+++ b/pkg/trait/hailpb/model_server.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -81,7 +82,8 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 		return nil, err
 	}
 
-	sortedItems := m.model.ListHails(resource.WithReadMask(request.ReadMask))
+	// the items are masked later, finding the page needs their keys
+	sortedItems := m.model.ListHails()
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
@@ -106,7 +108,10 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 	if err != nil {
 		return nil, err
 	}
-	result.Hails = sortedItems[nextIndex:upperBound]
+	filter := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for _, item := range sortedItems[nextIndex:upperBound] {
+		result.Hails = append(result.Hails, filter.FilterClone(item).(*traits.Hail))
+	}
 	return result, nil
 }
 
diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index b118cc2..a844b0e 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -12,6 +12,7 @@ import (
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -110,7 +111,8 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 		return nil, err
 	}
 
-	sortedItems := m.model.ListPublications(resource.WithReadMask(request.ReadMask))
+	// the items are masked later, finding the page needs their keys
+	sortedItems := m.model.ListPublications()
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
@@ -135,7 +137,10 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 	if err != nil {
 		return nil, err
 	}
-	result.Publications = sortedItems[nextIndex:upperBound]
+	filter := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for _, item := range sortedItems[nextIndex:upperBound] {
+		result.Publications = append(result.Publications, filter.FilterClone(item).(*traits.Publication))
+	}
 	return result, nil
 }
 
diff --git a/pkg/trait/vendingpb/model_server.go b/pkg/trait/vendingpb/model_server.go
index 6fa42a2..5aa5a2a 100644
--- a/pkg/trait/vendingpb/model_server.go
+++ b/pkg/trait/vendingpb/model_server.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -44,7 +45,8 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 		return nil, err
 	}
 
-	sortedItems := m.model.ListConsumables(resource.WithReadMask(request.ReadMask))
+	// the items are masked later, finding the page needs their keys
+	sortedItems := m.model.ListConsumables()
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
@@ -69,7 +71,10 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 	if err != nil {
 		return nil, err
 	}
-	result.Consumables = sortedItems[nextIndex:upperBound]
+	filter := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for _, item := range sortedItems[nextIndex:upperBound] {
+		result.Consumables = append(result.Consumables, filter.FilterClone(item).(*traits.Consumable))
+	}
 	return result, nil
 }
 
@@ -124,7 +129,8 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 		return nil, err
 	}
 
-	sortedItems := m.model.ListInventory(resource.WithReadMask(request.ReadMask))
+	// the items are masked later, finding the page needs their keys
+	sortedItems := m.model.ListInventory()
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
@@ -149,7 +155,10 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 	if err != nil {
 		return nil, err
 	}
-	result.Inventory = sortedItems[nextIndex:upperBound]
+	filter := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for _, item := range sortedItems[nextIndex:upperBound] {
+		result.Inventory = append(result.Inventory, filter.FilterClone(item).(*traits.Consumable_Stock))
+	}
 	return result, nil
 }
 
-- 
2.43.0


From be9a4c1886def8c4ec1a9b1c6f96959eb3e02ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 62/90] fix: continue lists after an item with an empty key,
 reject page tokens without a key

---
 pkg/trait/electricpb/model_server.go    | 2 +-
 pkg/trait/electricpb/pages.go           | 3 +++
 pkg/trait/hailpb/model_server.go        | 2 +-
 pkg/trait/hailpb/pages.go               | 3 +++
 pkg/trait/parentpb/model_server.go      | 2 +-
 pkg/trait/parentpb/pages.go             | 3 +++
 pkg/trait/publicationpb/model_server.go | 2 +-
 pkg/trait/publicationpb/pages.go        | 3 +++
 pkg/trait/vendingpb/model_server.go     | 4 ++--
 pkg/trait/vendingpb/pages.go            | 3 +++
 10 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/pkg/trait/electricpb/model_server.go b/pkg/trait/electricpb/model_server.go
index f9862fb..5990d8b 100644
--- a/pkg/trait/electricpb/model_server.go
+++ b/pkg/trait/electricpb/model_server.go
@@ -113,7 +113,7 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 	// the items are masked later, finding the page needs their keys
 	sortedModes := s.model.Modes()
 	nextIndex := 0
-	if lastKey != "" {
+	if pageToken.PageStart != nil {
 		nextIndex = sort.Search(len(sortedModes), func(i int) bool {
 			return sortedModes[i].Id > lastKey
 		})
diff --git a/pkg/trait/electricpb/pages.go b/pkg/trait/electricpb/pages.go
index 1a458b6..f546136 100644
--- a/pkg/trait/electricpb/pages.go
+++ b/pkg/trait/electricpb/pages.go
@@ -37,6 +37,9 @@ func decodePageToken(token string, pageToken *types.PageToken) error {
 		if err := proto.Unmarshal(tokenBytes, pageToken); err != nil {
 			return status.Errorf(codes.InvalidArgument, "bad page token: %v", err)
 		}
+		if _, ok := pageToken.PageStart.(*types.PageToken_LastResourceName); !ok {
+			return status.Error(codes.InvalidArgument, "bad page token: no resource name")
+		}
 	}
 	return nil
 }
diff --git a/pkg/trait/hailpb/model_server.go b/pkg/trait/hailpb/model_server.go
index e6e997e..96ac438 100644
--- a/pkg/trait/hailpb/model_server.go
+++ b/pkg/trait/hailpb/model_server.go
@@ -85,7 +85,7 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 	// the items are masked later, finding the page needs their keys
 	sortedItems := m.model.ListHails()
 	nextIndex := 0
-	if lastKey != "" {
+	if pageToken.PageStart != nil {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
 			return sortedItems[i].Id > lastKey
 		})
diff --git a/pkg/trait/hailpb/pages.go b/pkg/trait/hailpb/pages.go
index abfe95c..f6ad5ce 100644
--- a/pkg/trait/hailpb/pages.go
+++ b/pkg/trait/hailpb/pages.go
@@ -37,6 +37,9 @@ func decodePageToken(token string, pageToken *types.PageToken) error {
 		if err := proto.Unmarshal(tokenBytes, pageToken); err != nil {
 			return status.Errorf(codes.InvalidArgument, "bad page token: %v", err)
 		}
+		if _, ok := pageToken.PageStart.(*types.PageToken_LastResourceName); !ok {
+			return status.Error(codes.InvalidArgument, "bad page token: no resource name")
+		}
 	}
 	return nil
 }
diff --git a/pkg/trait/parentpb/model_server.go b/pkg/trait/parentpb/model_server.go
index 8f798d4..d4341c5 100644
--- a/pkg/trait/parentpb/model_server.go
+++ b/pkg/trait/parentpb/model_server.go
@@ -42,7 +42,7 @@ func (s *ModelServer) ListChildren(_ context.Context, request *traits.ListChildr
 	})
 
 	nextIndex := 0
-	if lastKey != "" {
+	if pageToken.PageStart != nil {
 		nextIndex = sort.Search(len(all), func(i int) bool {
 			return all[i].Name >= lastKey
 		})
diff --git a/pkg/trait/parentpb/pages.go b/pkg/trait/parentpb/pages.go
index fc1b722..8c614fa 100644
--- a/pkg/trait/parentpb/pages.go
+++ b/pkg/trait/parentpb/pages.go
@@ -37,6 +37,9 @@ func decodePageToken(token string, pageToken *types.PageToken) error {
 		if err := proto.Unmarshal(tokenBytes, pageToken); err != nil {
 			return status.Errorf(codes.InvalidArgument, "bad page token: %v", err)
 		}
+		if _, ok := pageToken.PageStart.(*types.PageToken_LastResourceName); !ok {
+			return status.Error(codes.InvalidArgument, "bad page token: no resource name")
+		}
 	}
 	return nil
 }
diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index a844b0e..ad7688f 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -114,7 +114,7 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 	// the items are masked later, finding the page needs their keys
 	sortedItems := m.model.ListPublications()
 	nextIndex := 0
-	if lastKey != "" {
+	if pageToken.PageStart != nil {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
 			return sortedItems[i].Id > lastKey
 		})
diff --git a/pkg/trait/publicationpb/pages.go b/pkg/trait/publicationpb/pages.go
index 7456f6a..7eae1a6 100644
--- a/pkg/trait/publicationpb/pages.go
+++ b/pkg/trait/publicationpb/pages.go
@@ -37,6 +37,9 @@ func decodePageToken(token string, pageToken *types.PageToken) error {
 		if err := proto.Unmarshal(tokenBytes, pageToken); err != nil {
 			return status.Errorf(codes.InvalidArgument, "bad page token: %v", err)
 		}
+		if _, ok := pageToken.PageStart.(*types.PageToken_LastResourceName); !ok {
+			return status.Error(codes.InvalidArgument, "bad page token: no resource name")
+		}
 	}
 	return nil
 }
diff --git a/pkg/trait/vendingpb/model_server.go b/pkg/trait/vendingpb/model_server.go
index 5aa5a2a..0c6602b 100644
--- a/pkg/trait/vendingpb/model_server.go
+++ b/pkg/trait/vendingpb/model_server.go
@@ -48,7 +48,7 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 	// the items are masked later, finding the page needs their keys
 	sortedItems := m.model.ListConsumables()
 	nextIndex := 0
-	if lastKey != "" {
+	if pageToken.PageStart != nil {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
 			return sortedItems[i].Name > lastKey
 		})
@@ -132,7 +132,7 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 	// the items are masked later, finding the page needs their keys
 	sortedItems := m.model.ListInventory()
 	nextIndex := 0
-	if lastKey != "" {
+	if pageToken.PageStart != nil {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
 			return sortedItems[i].Consumable > lastKey
 		})
diff --git a/pkg/trait/vendingpb/pages.go b/pkg/trait/vendingpb/pages.go
index c6b47e9..f80e1be 100644
--- a/pkg/trait/vendingpb/pages.go
+++ b/pkg/trait/vendingpb/pages.go
@@ -37,6 +37,9 @@ func decodePageToken(token string, pageToken *types.PageToken) error {
 		if err := proto.Unmarshal(tokenBytes, pageToken); err != nil {
 			return status.Errorf(codes.InvalidArgument, "bad page token: %v", err)
 		}
+		if _, ok := pageToken.PageStart.(*types.PageToken_LastResourceName); !ok {
+			return status.Error(codes.InvalidArgument, "bad page token: no resource name")
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 7dddd954155083d68ce9cc6bbd0a3ac5a538284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 63/90] fix: answer bad waste record page tokens with a status
 error instead of panicking

---
 pkg/trait/wastepb/model_server.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/wastepb/model_server.go b/pkg/trait/wastepb/model_server.go
index 1d2cac3..f9b8622 100644
--- a/pkg/trait/wastepb/model_server.go
+++ b/pkg/trait/wastepb/model_server.go
@@ -35,11 +35,14 @@ func (m *ModelServer) ListWasteRecords(ctx context.Context, req *traits.ListWast
 	pageToken := req.GetPageToken()
 	startIndex := m.model.GetWasteRecordCount()
 	if pageToken != "" {
-		_, err := strconv.Atoi(req.GetPageToken())
+		index, err := strconv.Atoi(pageToken)
 		if err != nil {
-			return nil, err
+			return nil, status.Errorf(codes.InvalidArgument, "bad page token: %v", err)
 		}
-		startIndex, _ = strconv.Atoi(pageToken)
+		if index <= 0 || index > startIndex {
+			return nil, status.Errorf(codes.InvalidArgument, "bad page token: %d is out of range", index)
+		}
+		startIndex = index
 	}
 
 	count := req.PageSize
-- 
2.43.0


From af18ab17904afc8579b79720fe6ffeec07170878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 64/90] fix: copy messages before they cross a wrapped stream,
 and replace what they are received into

---
 pkg/wrap/stream.go | 45 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index 39d4121..3a510c4 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -7,7 +7,9 @@ import (
 	"sync"
 
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/metadata"
+	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
 )
 
@@ -19,8 +21,8 @@ type ClientServerStream struct {
 	headerM sync.Mutex    // guards closing of headerC
 	headerC chan struct{} // closed once calls to clientStream.Header should return
 
-	serverSend chan any
-	clientSend chan any
+	serverSend chan proto.Message // copies owned by the receiver
+	clientSend chan proto.Message // copies owned by the receiver
 	trailer    metadata.MD
 	closed     context.CancelFunc
 	closeErr   error
@@ -32,8 +34,8 @@ func NewClientServerStream(ctx context.Context) *ClientServerStream {
 		ctx:        newCtx,
 		closed:     closed,
 		headerC:    make(chan struct{}),
-		serverSend: make(chan any),
-		clientSend: make(chan any),
+		serverSend: make(chan proto.Message),
+		clientSend: make(chan proto.Message),
 	}
 }
 
@@ -93,10 +95,14 @@ func (c *clientStream) Context() context.Context {
 }
 
 func (c *clientStream) SendMsg(m any) error {
+	msg, err := copyMsg(m)
+	if err != nil {
+		return err
+	}
 	select {
 	case <-c.ctx.Done():
 		return c.closeErrLocked()
-	case c.clientSend <- m:
+	case c.clientSend <- msg:
 		return nil
 	}
 }
@@ -119,7 +125,7 @@ func (c *clientStream) RecvMsg(m any) error {
 		if !ok {
 			return c.closeErrLocked()
 		}
-		return permissiveProtoMerge(m.(proto.Message), val.(proto.Message))
+		return receiveMsg(m, val)
 	}
 }
 
@@ -155,11 +161,15 @@ func (s *serverStream) Context() context.Context {
 }
 
 func (s *serverStream) SendMsg(m any) error {
+	msg, err := copyMsg(m)
+	if err != nil {
+		return err
+	}
 	s.sendHeaderIfNeeded()
 	select {
 	case <-s.ctx.Done():
 		return s.closeErrLocked()
-	case s.serverSend <- m:
+	case s.serverSend <- msg:
 		return nil
 	}
 }
@@ -172,7 +182,7 @@ func (s *serverStream) RecvMsg(m any) error {
 		if !ok {
 			return io.EOF
 		}
-		return permissiveProtoMerge(m.(proto.Message), val.(proto.Message))
+		return receiveMsg(m, val)
 	}
 }
 
@@ -181,6 +191,25 @@ func (s *serverStream) sendHeaderIfNeeded() {
 	_ = s.SendHeader(nil)
 }
 
+// copyMsg returns a copy of m, which the caller of SendMsg is free to change once SendMsg returns.
+func copyMsg(m any) (proto.Message, error) {
+	msg, ok := m.(proto.Message)
+	if !ok {
+		return nil, status.Errorf(codes.Internal, "message is %T, want proto.Message", m)
+	}
+	return proto.Clone(msg), nil
+}
+
+// receiveMsg replaces the contents of dst with the received message.
+func receiveMsg(dst any, val proto.Message) error {
+	msg, ok := dst.(proto.Message)
+	if !ok {
+		return status.Errorf(codes.Internal, "message is %T, want proto.Message", dst)
+	}
+	proto.Reset(msg)
+	return permissiveProtoMerge(msg, val)
+}
+
 // works like proto.Merge but allows messages with different descriptors by performing a marshal/unmarshal
 //
 // This is the recommended way to do it: https://github.com/golang/protobuf/issues/1163#issuecomment-654334690
-- 
2.43.0


From dcc2161267670ec45554f1aac6d892b7977a5f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 65/90] fix: end wrapped calls with status errors and tell
 cancellation from the server's outcome

---
 pkg/wrap/stream.go | 63 +++++++++++++++++++++++++---------------------
 pkg/wrap/wrap.go   | 23 +++++++++++------
 2 files changed, 50 insertions(+), 36 deletions(-)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index 3a510c4..2584997 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -24,35 +24,53 @@ type ClientServerStream struct {
 	serverSend chan proto.Message // copies owned by the receiver
 	clientSend chan proto.Message // copies owned by the receiver
 	trailer    metadata.MD
-	closed     context.CancelFunc
-	closeErr   error
+	cancel     context.CancelFunc
+
+	endM     sync.Mutex // guards the fields below
+	closed   bool       // Close was called before ctx was done for any other reason
+	closeErr error
 }
 
 func NewClientServerStream(ctx context.Context) *ClientServerStream {
-	newCtx, closed := context.WithCancel(ctx)
+	newCtx, cancel := context.WithCancel(ctx)
 	return &ClientServerStream{
 		ctx:        newCtx,
-		closed:     closed,
+		cancel:     cancel,
 		headerC:    make(chan struct{}),
 		serverSend: make(chan proto.Message),
 		clientSend: make(chan proto.Message),
 	}
 }
 
+// Close ends the stream. The client sees err, or io.EOF if it is nil, unless the stream's context has been done already.
 func (s *ClientServerStream) Close(err error) {
-	s.closeErr = err
-	close(s.serverSend)
-	s.closed()
+	s.endM.Lock()
+	if s.ctx.Err() == nil {
+		s.closed = true
+		s.closeErr = err
+	}
+	s.endM.Unlock()
+	s.cancel()
 }
 
-// safe to call if s.serverSend is closed
-func (s *ClientServerStream) closeErrLocked() error {
+// clientErr returns what the client sees of how the stream ended, it must only be called once s.ctx is done.
+func (s *ClientServerStream) clientErr() error {
+	s.endM.Lock()
+	defer s.endM.Unlock()
+	if !s.closed {
+		return s.ctxErr()
+	}
 	if s.closeErr == nil {
 		return io.EOF
 	}
 	return s.closeErr
 }
 
+// ctxErr returns the status error for s.ctx, it must only be called once s.ctx is done.
+func (s *ClientServerStream) ctxErr() error {
+	return status.FromContextError(s.ctx.Err()).Err()
+}
+
 func (s *ClientServerStream) Client() grpc.ClientStream {
 	return &clientStream{s}
 }
@@ -101,7 +119,7 @@ func (c *clientStream) SendMsg(m any) error {
 	}
 	select {
 	case <-c.ctx.Done():
-		return c.closeErrLocked()
+		return io.EOF // RecvMsg reports how the stream ended
 	case c.clientSend <- msg:
 		return nil
 	}
@@ -109,22 +127,9 @@ func (c *clientStream) SendMsg(m any) error {
 
 func (c *clientStream) RecvMsg(m any) error {
 	select {
-	case <-c.Context().Done():
-		// closeErr may or may not be available depending on why the context has ended
-		//  1. if c.closed() was called by c.Close(...), then c.closeErr will be available
-		//  2. if the parent context was cancelled, then c.closeErr may not be available
-		select {
-		case _, ok := <-c.serverSend:
-			if !ok {
-				return c.closeErrLocked()
-			}
-		default:
-		}
-		return c.Context().Err()
-	case val, ok := <-c.serverSend:
-		if !ok {
-			return c.closeErrLocked()
-		}
+	case <-c.ctx.Done():
+		return c.clientErr()
+	case val := <-c.serverSend:
 		return receiveMsg(m, val)
 	}
 }
@@ -168,7 +173,7 @@ func (s *serverStream) SendMsg(m any) error {
 	s.sendHeaderIfNeeded()
 	select {
 	case <-s.ctx.Done():
-		return s.closeErrLocked()
+		return s.ctxErr()
 	case s.serverSend <- msg:
 		return nil
 	}
@@ -176,8 +181,8 @@ func (s *serverStream) SendMsg(m any) error {
 
 func (s *serverStream) RecvMsg(m any) error {
 	select {
-	case <-s.Context().Done():
-		return s.closeErrLocked()
+	case <-s.ctx.Done():
+		return s.ctxErr()
 	case val, ok := <-s.clientSend:
 		if !ok {
 			return io.EOF
diff --git a/pkg/wrap/wrap.go b/pkg/wrap/wrap.go
index c4cd005..fb59c29 100644
--- a/pkg/wrap/wrap.go
+++ b/pkg/wrap/wrap.go
@@ -3,6 +3,7 @@ package wrap
 import (
 	"context"
 	"fmt"
+	"io"
 	"reflect"
 
 	"google.golang.org/grpc"
@@ -62,15 +63,14 @@ func (w *wrapper) Invoke(ctx context.Context, method string, args any, reply any
 		res, err := matched.Handler(w.srv, ctx, func(dst any) error {
 			return ss.RecvMsg(dst)
 		}, nil)
-		if err != nil {
-			clientServerStream.Close(err)
-			return
+		if err == nil {
+			err = ss.SendMsg(res)
 		}
-		err = ss.SendMsg(res)
-		clientServerStream.Close(err)
+		clientServerStream.Close(statusErr(err))
 	}()
 
-	if err := cs.SendMsg(args); err != nil {
+	// io.EOF means the call has ended already, RecvMsg reports how
+	if err := cs.SendMsg(args); err != nil && err != io.EOF {
 		return err
 	}
 	if err := cs.CloseSend(); err != nil {
@@ -104,12 +104,21 @@ func (w *wrapper) NewStream(ctx context.Context, desc *grpc.StreamDesc, method s
 	ctx, clientServerStream, ss, cs := w.startStream(ctx, method)
 	go func() {
 		err := matched.Handler(w.srv, ss)
-		clientServerStream.Close(err)
+		clientServerStream.Close(statusErr(err))
 	}()
 
 	return cs, nil
 }
 
+// statusErr returns the error a client receives when a gRPC server's handler returns err.
+func statusErr(err error) error {
+	s, ok := status.FromError(err)
+	if !ok {
+		s = status.FromContextError(err)
+	}
+	return s.Err()
+}
+
 func (w *wrapper) startStream(ctx context.Context, method string) (context.Context, *ClientServerStream, grpc.ServerStream, grpc.ClientStream) {
 	// convert client's outgoing metadata to server's incoming metadata
 	md, _ := metadata.FromOutgoingContext(ctx)
-- 
2.43.0


From f1c8a8eea2cae29443c1a5c5ee79fc2ebca69dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 66/90] fix: deliver headers of wrapped calls that were only
 set, and trailers only with the outcome

---
 pkg/wrap/stream.go | 61 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index 2584997..602f87a 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -13,17 +13,19 @@ import (
 	"google.golang.org/protobuf/proto"
 )
 
+var errHeadersSent = errors.New("headers already sent")
+
 // ClientServerStream combines both a grpc.ServerStream and grpc.ClientStream
 type ClientServerStream struct {
 	ctx context.Context
 
+	headerM sync.Mutex // guards header, trailer, and closing of headerC
 	header  metadata.MD
-	headerM sync.Mutex    // guards closing of headerC
-	headerC chan struct{} // closed once calls to clientStream.Header should return
+	headerC chan struct{} // closed once header is final and calls to clientStream.Header should return
+	trailer metadata.MD
 
 	serverSend chan proto.Message // copies owned by the receiver
 	clientSend chan proto.Message // copies owned by the receiver
-	trailer    metadata.MD
 	cancel     context.CancelFunc
 
 	endM     sync.Mutex // guards the fields below
@@ -46,6 +48,7 @@ func NewClientServerStream(ctx context.Context) *ClientServerStream {
 func (s *ClientServerStream) Close(err error) {
 	s.endM.Lock()
 	if s.ctx.Err() == nil {
+		s.sendUnsentHeader()
 		s.closed = true
 		s.closeErr = err
 	}
@@ -53,6 +56,25 @@ func (s *ClientServerStream) Close(err error) {
 	s.cancel()
 }
 
+// headersSent must be called with s.headerM held.
+func (s *ClientServerStream) headersSent() bool {
+	select {
+	case <-s.headerC:
+		return true
+	default:
+		return false
+	}
+}
+
+// sendUnsentHeader sends headers that have been set but not sent when the call ends.
+func (s *ClientServerStream) sendUnsentHeader() {
+	s.headerM.Lock()
+	defer s.headerM.Unlock()
+	if len(s.header) > 0 && !s.headersSent() {
+		close(s.headerC)
+	}
+}
+
 // clientErr returns what the client sees of how the stream ended, it must only be called once s.ctx is done.
 func (s *ClientServerStream) clientErr() error {
 	s.endM.Lock()
@@ -89,18 +111,25 @@ func (c *clientStream) Header() (metadata.MD, error) {
 		select {
 		case <-c.headerC:
 			// we should still return the headers if we have them, even if the context is done
-			return c.header, nil
+			return c.header.Copy(), nil
 		default:
 			// when the stream is terminated without headers, ClientStream should return a nil error
 			return nil, nil
 		}
 	case <-c.headerC:
-		return c.header, nil
+		return c.header.Copy(), nil
 	}
 }
 
 func (c *clientStream) Trailer() metadata.MD {
-	return c.trailer
+	c.endM.Lock()
+	defer c.endM.Unlock()
+	if !c.closed {
+		return nil // the trailer arrives with the outcome of the call
+	}
+	c.headerM.Lock()
+	defer c.headerM.Unlock()
+	return c.trailer.Copy()
 }
 
 func (c *clientStream) CloseSend() error {
@@ -139,6 +168,11 @@ type serverStream struct {
 }
 
 func (s *serverStream) SetHeader(md metadata.MD) error {
+	s.headerM.Lock()
+	defer s.headerM.Unlock()
+	if s.headersSent() {
+		return errHeadersSent
+	}
 	s.header = metadata.Join(s.header, md)
 	return nil
 }
@@ -146,11 +180,11 @@ func (s *serverStream) SetHeader(md metadata.MD) error {
 func (s *serverStream) SendHeader(md metadata.MD) error {
 	s.headerM.Lock()
 	defer s.headerM.Unlock()
-
-	select {
-	case <-s.headerC:
-		return errors.New("headers already sent")
-	default:
+	if s.headersSent() {
+		return errHeadersSent
+	}
+	if s.ctx.Err() != nil {
+		return s.ctxErr() // too late for the client to see them
 	}
 	s.header = metadata.Join(s.header, md)
 	close(s.headerC)
@@ -158,6 +192,11 @@ func (s *serverStream) SendHeader(md metadata.MD) error {
 }
 
 func (s *serverStream) SetTrailer(md metadata.MD) {
+	s.headerM.Lock()
+	defer s.headerM.Unlock()
+	if s.ctx.Err() != nil {
+		return // too late for the client to see it
+	}
 	s.trailer = metadata.Join(s.trailer, md)
 }
 
-- 
2.43.0


From 8b693a740e12c97c5eb6412b094852aedb8fc857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 67/90] fix: return an error, not panic, from sends and
 half-closes after the half-close of a wrapped stream

---
 pkg/wrap/stream.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index 602f87a..6d91268 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -26,6 +26,8 @@ type ClientServerStream struct {
 
 	serverSend chan proto.Message // copies owned by the receiver
 	clientSend chan proto.Message // copies owned by the receiver
+	halfOnce   sync.Once
+	halfClosed chan struct{} // closed once the client has nothing more to send
 	cancel     context.CancelFunc
 
 	endM     sync.Mutex // guards the fields below
@@ -41,6 +43,7 @@ func NewClientServerStream(ctx context.Context) *ClientServerStream {
 		headerC:    make(chan struct{}),
 		serverSend: make(chan proto.Message),
 		clientSend: make(chan proto.Message),
+		halfClosed: make(chan struct{}),
 	}
 }
 
@@ -133,7 +136,7 @@ func (c *clientStream) Trailer() metadata.MD {
 }
 
 func (c *clientStream) CloseSend() error {
-	close(c.clientSend)
+	c.halfOnce.Do(func() { close(c.halfClosed) })
 	return nil
 }
 
@@ -147,6 +150,11 @@ func (c *clientStream) SendMsg(m any) error {
 		return err
 	}
 	select {
+	case <-c.halfClosed:
+		return status.Error(codes.Internal, "SendMsg called after CloseSend")
+	default:
+	}
+	select {
 	case <-c.ctx.Done():
 		return io.EOF // RecvMsg reports how the stream ended
 	case c.clientSend <- msg:
@@ -222,10 +230,9 @@ func (s *serverStream) RecvMsg(m any) error {
 	select {
 	case <-s.ctx.Done():
 		return s.ctxErr()
-	case val, ok := <-s.clientSend:
-		if !ok {
-			return io.EOF
-		}
+	case <-s.halfClosed:
+		return io.EOF
+	case val := <-s.clientSend:
 		return receiveMsg(m, val)
 	}
 }
-- 
2.43.0


From e2cebd0288f565884747fe7ee1d2455f4761d768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 68/90] fix: complete wrapped calls with a single response only
 with their outcome, half-close single requests

---
 pkg/wrap/stream.go | 28 ++++++++++++++++++++++++++++
 pkg/wrap/wrap.go   |  6 +++---
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index 6d91268..0808e89 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -19,6 +19,8 @@ var errHeadersSent = errors.New("headers already sent")
 type ClientServerStream struct {
 	ctx context.Context
 
+	singleReq, singleRes bool // the client sends, receives a single message
+
 	headerM sync.Mutex // guards header, trailer, and closing of headerC
 	header  metadata.MD
 	headerC chan struct{} // closed once header is final and calls to clientStream.Header should return
@@ -156,8 +158,14 @@ func (c *clientStream) SendMsg(m any) error {
 	}
 	select {
 	case <-c.ctx.Done():
+		if c.singleReq {
+			return nil // as there is nothing more to send in any case
+		}
 		return io.EOF // RecvMsg reports how the stream ended
 	case c.clientSend <- msg:
+		if c.singleReq {
+			return c.CloseSend()
+		}
 		return nil
 	}
 }
@@ -167,10 +175,30 @@ func (c *clientStream) RecvMsg(m any) error {
 	case <-c.ctx.Done():
 		return c.clientErr()
 	case val := <-c.serverSend:
+		if c.singleRes {
+			if err := c.recvEnd(); err != nil {
+				return err
+			}
+		}
 		return receiveMsg(m, val)
 	}
 }
 
+// recvEnd waits for the outcome of a call whose single response has been received.
+func (c *clientStream) recvEnd() error {
+	select {
+	case <-c.ctx.Done():
+		if err := c.clientErr(); err != io.EOF {
+			return err
+		}
+		return nil
+	case <-c.serverSend:
+		err := status.Error(codes.Internal, "more than one response to a call with a single response")
+		c.ClientServerStream.Close(err)
+		return err
+	}
+}
+
 type serverStream struct {
 	*ClientServerStream
 }
diff --git a/pkg/wrap/wrap.go b/pkg/wrap/wrap.go
index fb59c29..95314c2 100644
--- a/pkg/wrap/wrap.go
+++ b/pkg/wrap/wrap.go
@@ -3,7 +3,6 @@ package wrap
 import (
 	"context"
 	"fmt"
-	"io"
 	"reflect"
 
 	"google.golang.org/grpc"
@@ -59,6 +58,7 @@ func (w *wrapper) Invoke(ctx context.Context, method string, args any, reply any
 	}
 
 	ctx, clientServerStream, ss, cs := w.startStream(ctx, method)
+	clientServerStream.singleReq, clientServerStream.singleRes = true, true
 	go func() {
 		res, err := matched.Handler(w.srv, ctx, func(dst any) error {
 			return ss.RecvMsg(dst)
@@ -69,8 +69,7 @@ func (w *wrapper) Invoke(ctx context.Context, method string, args any, reply any
 		clientServerStream.Close(statusErr(err))
 	}()
 
-	// io.EOF means the call has ended already, RecvMsg reports how
-	if err := cs.SendMsg(args); err != nil && err != io.EOF {
+	if err := cs.SendMsg(args); err != nil {
 		return err
 	}
 	if err := cs.CloseSend(); err != nil {
@@ -102,6 +101,7 @@ func (w *wrapper) NewStream(ctx context.Context, desc *grpc.StreamDesc, method s
 	}
 
 	ctx, clientServerStream, ss, cs := w.startStream(ctx, method)
+	clientServerStream.singleReq, clientServerStream.singleRes = !matched.ClientStreams, !matched.ServerStreams
 	go func() {
 		err := matched.Handler(w.srv, ss)
 		clientServerStream.Close(statusErr(err))
-- 
2.43.0


From 2aeab3a93b4c4146a98cddb2b948b418cb6c7e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 69/90] fix: answer unary calls of streaming methods with the
 shape mismatch error

---
 pkg/wrap/wrap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/wrap/wrap.go b/pkg/wrap/wrap.go
index 95314c2..d472dd8 100644
--- a/pkg/wrap/wrap.go
+++ b/pkg/wrap/wrap.go
@@ -54,6 +54,9 @@ type wrapper struct {
 func (w *wrapper) Invoke(ctx context.Context, method string, args any, reply any, opts ...grpc.CallOption) error {
 	matched, ok := w.methods[method]
 	if !ok {
+		if _, ok := w.streams[method]; ok {
+			return ErrMethodShape
+		}
 		return ErrMethodNotFound
 	}
 
-- 
2.43.0


From d794bffbcfc54dedb2d03170e5d00d53db83733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 70/90] fix: agree on how a wrapped call ended when it is
 cancelled while it ends

---
 pkg/wrap/stream.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index 0808e89..fccbad8 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -113,6 +113,8 @@ type clientStream struct {
 func (c *clientStream) Header() (metadata.MD, error) {
 	select {
 	case <-c.ctx.Done():
+		c.endM.Lock() // a Close that is on its way may yet send the headers
+		defer c.endM.Unlock()
 		select {
 		case <-c.headerC:
 			// we should still return the headers if we have them, even if the context is done
@@ -259,6 +261,9 @@ func (s *serverStream) RecvMsg(m any) error {
 	case <-s.ctx.Done():
 		return s.ctxErr()
 	case <-s.halfClosed:
+		if s.ctx.Err() != nil {
+			return s.ctxErr()
+		}
 		return io.EOF
 	case val := <-s.clientSend:
 		return receiveMsg(m, val)
-- 
2.43.0


From 73cf736f3bb9fe786fb3998f51019d23267c6592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 71/90] fix: regenerate the enter leave sensor router, two
 methods were not routed

---
 pkg/trait/enterleavesensorpb/api_router.pb.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pkg/trait/enterleavesensorpb/api_router.pb.go b/pkg/trait/enterleavesensorpb/api_router.pb.go
index 3745447..aae1c5b 100644
--- a/pkg/trait/enterleavesensorpb/api_router.pb.go
+++ b/pkg/trait/enterleavesensorpb/api_router.pb.go
@@ -137,3 +137,21 @@ func (r *ApiRouter) PullEnterLeaveEvents(request *traits.PullEnterLeaveEventsReq
 		return err
 	}
 }
+
+func (r *ApiRouter) GetEnterLeaveEvent(ctx context.Context, request *traits.GetEnterLeaveEventRequest) (*traits.EnterLeaveEvent, error) {
+	child, err := r.GetEnterLeaveSensorApiClient(request.Name)
+	if err != nil {
+		return nil, err
+	}
+
+	return child.GetEnterLeaveEvent(ctx, request)
+}
+
+func (r *ApiRouter) ResetEnterLeaveTotals(ctx context.Context, request *traits.ResetEnterLeaveTotalsRequest) (*traits.ResetEnterLeaveTotalsResponse, error) {
+	child, err := r.GetEnterLeaveSensorApiClient(request.Name)
+	if err != nil {
+		return nil, err
+	}
+
+	return child.ResetEnterLeaveTotals(ctx, request)
+}
-- 
2.43.0


From 679135d2bb04149b37e111a9c30d2e0732c8b449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 72/90] fix: name the motion sensor info router and wrapper
 files as generated

---
 .../{info_router.pb.go => sensorinfo_router.pb.go}   | 12 +++++-------
 .../{info_wrap.pb.go => sensorinfo_wrap.pb.go}       |  7 +++----
 2 files changed, 8 insertions(+), 11 deletions(-)
 rename pkg/trait/motionsensorpb/{info_router.pb.go => sensorinfo_router.pb.go} (93%)
 rename pkg/trait/motionsensorpb/{info_wrap.pb.go => sensorinfo_wrap.pb.go} (90%)

diff --git a/pkg/trait/motionsensorpb/info_router.pb.go b/pkg/trait/motionsensorpb/sensorinfo_router.pb.go
similarity index 93%
rename from pkg/trait/motionsensorpb/info_router.pb.go
rename to pkg/trait/motionsensorpb/sensorinfo_router.pb.go
index 6915f8f..cf56851 100644
--- a/pkg/trait/motionsensorpb/info_router.pb.go
+++ b/pkg/trait/motionsensorpb/sensorinfo_router.pb.go
@@ -3,13 +3,11 @@
 package motionsensorpb
 
 import (
-	"context"
-	"fmt"
-
-	"google.golang.org/grpc"
-
-	"github.com/smart-core-os/sc-api/go/traits"
-	"github.com/smart-core-os/sc-golang/pkg/router"
+	context "context"
+	fmt "fmt"
+	traits "github.com/smart-core-os/sc-api/go/traits"
+	router "github.com/smart-core-os/sc-golang/pkg/router"
+	grpc "google.golang.org/grpc"
 )
 
 // SensorInfoRouter is a traits.MotionSensorSensorInfoServer that allows routing named requests to specific traits.MotionSensorSensorInfoClient
diff --git a/pkg/trait/motionsensorpb/info_wrap.pb.go b/pkg/trait/motionsensorpb/sensorinfo_wrap.pb.go
similarity index 90%
rename from pkg/trait/motionsensorpb/info_wrap.pb.go
rename to pkg/trait/motionsensorpb/sensorinfo_wrap.pb.go
index 0a7b258..ab46e2e 100644
--- a/pkg/trait/motionsensorpb/info_wrap.pb.go
+++ b/pkg/trait/motionsensorpb/sensorinfo_wrap.pb.go
@@ -3,10 +3,9 @@
 package motionsensorpb
 
 import (
-	"google.golang.org/grpc"
-
-	"github.com/smart-core-os/sc-api/go/traits"
-	"github.com/smart-core-os/sc-golang/pkg/wrap"
+	traits "github.com/smart-core-os/sc-api/go/traits"
+	wrap "github.com/smart-core-os/sc-golang/pkg/wrap"
+	grpc "google.golang.org/grpc"
 )
 
 // WrapSensorInfo	adapts a traits.MotionSensorSensorInfoServer	and presents it as a traits.MotionSensorSensorInfoClient
-- 
2.43.0


From 360674f3a96e1f947de57ed1ebf1ba3a2834a8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 73/90] fix: return the error of a rejected memory device write
 instead of panicking

---
 pkg/trait/airtemperaturepb/memory.go |  5 ++++-
 pkg/trait/countpb/memory.go          | 10 ++++++++--
 pkg/trait/emergencypb/memory.go      |  5 ++++-
 pkg/trait/lightpb/memory.go          |  5 ++++-
 4 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/pkg/trait/airtemperaturepb/memory.go b/pkg/trait/airtemperaturepb/memory.go
index 86a79ca..164f19c 100644
--- a/pkg/trait/airtemperaturepb/memory.go
+++ b/pkg/trait/airtemperaturepb/memory.go
@@ -50,7 +50,10 @@ func (t *MemoryDevice) GetAirTemperature(_ context.Context, req *traits.GetAirTe
 
 func (t *MemoryDevice) UpdateAirTemperature(_ context.Context, request *traits.UpdateAirTemperatureRequest) (*traits.AirTemperature, error) {
 	update, err := t.airTemperature.Set(request.State, resource.WithUpdateMask(request.UpdateMask))
-	return update.(*traits.AirTemperature), err
+	if err != nil {
+		return nil, err
+	}
+	return update.(*traits.AirTemperature), nil
 }
 
 func (t *MemoryDevice) PullAirTemperature(request *traits.PullAirTemperatureRequest, server traits.AirTemperatureApi_PullAirTemperatureServer) error {
diff --git a/pkg/trait/countpb/memory.go b/pkg/trait/countpb/memory.go
index d5eba4d..7238953 100644
--- a/pkg/trait/countpb/memory.go
+++ b/pkg/trait/countpb/memory.go
@@ -44,7 +44,10 @@ func (t *MemoryDevice) ResetCount(_ context.Context, request *traits.ResetCountR
 		rt = timestamppb.Now()
 	}
 	res, err := t.count.Set(&traits.Count{Added: 0, Removed: 0, ResetTime: rt}, resource.WithAllFieldsWritable())
-	return res.(*traits.Count), err
+	if err != nil {
+		return nil, err
+	}
+	return res.(*traits.Count), nil
 }
 
 func (t *MemoryDevice) UpdateCount(_ context.Context, request *traits.UpdateCountRequest) (*traits.Count, error) {
@@ -56,7 +59,10 @@ func (t *MemoryDevice) UpdateCount(_ context.Context, request *traits.UpdateCoun
 			tValue.Removed += tOld.Removed
 		}
 	}))
-	return res.(*traits.Count), err
+	if err != nil {
+		return nil, err
+	}
+	return res.(*traits.Count), nil
 }
 
 func (t *MemoryDevice) PullCounts(request *traits.PullCountsRequest, server traits.CountApi_PullCountsServer) error {
diff --git a/pkg/trait/emergencypb/memory.go b/pkg/trait/emergencypb/memory.go
index 44371df..b35242e 100644
--- a/pkg/trait/emergencypb/memory.go
+++ b/pkg/trait/emergencypb/memory.go
@@ -47,7 +47,10 @@ func (t *MemoryDevice) UpdateEmergency(_ context.Context, request *traits.Update
 			newt.LevelChangeTime = serverTimestamp()
 		}
 	}))
-	return update.(*traits.Emergency), err
+	if err != nil {
+		return nil, err
+	}
+	return update.(*traits.Emergency), nil
 }
 
 func (t *MemoryDevice) PullEmergency(request *traits.PullEmergencyRequest, server traits.EmergencyApi_PullEmergencyServer) error {
diff --git a/pkg/trait/lightpb/memory.go b/pkg/trait/lightpb/memory.go
index 6a9f89e..01d344f 100644
--- a/pkg/trait/lightpb/memory.go
+++ b/pkg/trait/lightpb/memory.go
@@ -48,7 +48,10 @@ func (s *MemoryDevice) GetBrightness(_ context.Context, req *traits.GetBrightnes
 func (s *MemoryDevice) UpdateBrightness(ctx context.Context, request *traits.UpdateBrightnessRequest) (*traits.Brightness, error) {
 	if request.GetBrightness().GetPreset() != nil {
 		res, err := s.brightness.Set(request.GetBrightness())
-		return res.(*traits.Brightness), err
+		if err != nil {
+			return nil, err
+		}
+		return res.(*traits.Brightness), nil
 	}
 
 	if err := resource.ValidateTweenOnUpdate("brightness", request.GetBrightness().GetBrightnessTween()); err != nil {
-- 
2.43.0


From c045111d7af047ba40b1e9daa2e03d7424db0e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 74/90] fix: implement the PressApi methods in
 presspb.ModelServer so its RPCs are not Unimplemented

---
 pkg/trait/presspb/model_server.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/presspb/model_server.go b/pkg/trait/presspb/model_server.go
index 3f8a104..777f3f5 100644
--- a/pkg/trait/presspb/model_server.go
+++ b/pkg/trait/presspb/model_server.go
@@ -9,6 +9,7 @@ import (
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
+// ModelServer implements the PressApiServer interface backed by a Model.
 type ModelServer struct {
 	traits.UnimplementedPressApiServer
 	model *Model
@@ -18,15 +19,15 @@ func NewModelServer(model *Model) *ModelServer {
 	return &ModelServer{model: model}
 }
 
-func (s *ModelServer) GetButtonState(ctx context.Context, request *traits.GetPressedStateRequest) (*traits.PressedState, error) {
+func (s *ModelServer) GetPressedState(ctx context.Context, request *traits.GetPressedStateRequest) (*traits.PressedState, error) {
 	return s.model.GetPressedState(resource.WithReadMask(request.ReadMask)), nil
 }
 
-func (s *ModelServer) UpdateButtonState(ctx context.Context, request *traits.UpdatePressedStateRequest) (*traits.PressedState, error) {
+func (s *ModelServer) UpdatePressedState(ctx context.Context, request *traits.UpdatePressedStateRequest) (*traits.PressedState, error) {
 	return s.model.UpdatePressedState(request.PressedState, resource.WithUpdateMask(request.UpdateMask))
 }
 
-func (s *ModelServer) PullButtonState(request *traits.PullPressedStateRequest, server traits.PressApi_PullPressedStateServer) error {
+func (s *ModelServer) PullPressedState(request *traits.PullPressedStateRequest, server traits.PressApi_PullPressedStateServer) error {
 	changes := s.model.PullPressedState(server.Context(),
 		resource.WithReadMask(request.ReadMask),
 		resource.WithUpdatesOnly(request.UpdatesOnly),
-- 
2.43.0


From 6085d91420bd1c133a41cf0545200ed111749758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 75/90] fix: handle requests with a missing body instead of
 panicking

---
 pkg/trait/bookingpb/model.go            |  5 ++++-
 pkg/trait/countpb/memory.go             |  6 +++++-
 pkg/trait/fanspeedpb/model.go           |  2 +-
 pkg/trait/fanspeedpb/model_server.go    |  6 +++++-
 pkg/trait/hailpb/model.go               |  5 ++++-
 pkg/trait/hailpb/model_server.go        |  3 +++
 pkg/trait/lightpb/memory.go             |  6 +++++-
 pkg/trait/openclosepb/model.go          |  3 +++
 pkg/trait/publicationpb/model.go        |  3 +++
 pkg/trait/publicationpb/model_server.go |  2 +-
 pkg/trait/vendingpb/model.go            | 10 ++++++++--
 11 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/pkg/trait/bookingpb/model.go b/pkg/trait/bookingpb/model.go
index c887ace..be0a0e3 100644
--- a/pkg/trait/bookingpb/model.go
+++ b/pkg/trait/bookingpb/model.go
@@ -35,6 +35,9 @@ func (m *Model) ListBookings(opts ...resource.ReadOption) []*traits.Booking {
 }
 
 func (m *Model) CreateBooking(booking *traits.Booking) (*traits.Booking, error) {
+	if booking == nil {
+		booking = &traits.Booking{}
+	}
 	msg, err := m.bookings.Add(booking.Id, booking, resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
 		booking.Id = id
 	}))
@@ -45,7 +48,7 @@ func (m *Model) CreateBooking(booking *traits.Booking) (*traits.Booking, error)
 }
 
 func (m *Model) UpdateBooking(booking *traits.Booking, opts ...resource.WriteOption) (*traits.Booking, error) {
-	if booking.Id == "" {
+	if booking.GetId() == "" {
 		return nil, status.Errorf(codes.InvalidArgument, "missing booking.id")
 	}
 
diff --git a/pkg/trait/countpb/memory.go b/pkg/trait/countpb/memory.go
index 7238953..2d2fbc5 100644
--- a/pkg/trait/countpb/memory.go
+++ b/pkg/trait/countpb/memory.go
@@ -51,7 +51,11 @@ func (t *MemoryDevice) ResetCount(_ context.Context, request *traits.ResetCountR
 }
 
 func (t *MemoryDevice) UpdateCount(_ context.Context, request *traits.UpdateCountRequest) (*traits.Count, error) {
-	res, err := t.count.Set(request.Count, resource.WithUpdateMask(request.UpdateMask), resource.InterceptBefore(func(old, value proto.Message) {
+	count := request.Count
+	if count == nil {
+		count = &traits.Count{}
+	}
+	res, err := t.count.Set(count, resource.WithUpdateMask(request.UpdateMask), resource.InterceptBefore(func(old, value proto.Message) {
 		if request.Delta {
 			tOld := old.(*traits.Count)
 			tValue := value.(*traits.Count)
diff --git a/pkg/trait/fanspeedpb/model.go b/pkg/trait/fanspeedpb/model.go
index a61b1b5..e6acb5c 100644
--- a/pkg/trait/fanspeedpb/model.go
+++ b/pkg/trait/fanspeedpb/model.go
@@ -83,7 +83,7 @@ func (m *Model) UpdateFanSpeed(fanSpeed *traits.FanSpeed, opts ...resource.Write
 }
 
 func (m *Model) validateUpdate(fanSpeed *traits.FanSpeed) error {
-	if fanSpeed.Preset != "" {
+	if fanSpeed.GetPreset() != "" {
 		var found bool
 		for _, preset := range m.presets {
 			if preset.Name == fanSpeed.Preset {
diff --git a/pkg/trait/fanspeedpb/model_server.go b/pkg/trait/fanspeedpb/model_server.go
index 41771cf..2ba7fc6 100644
--- a/pkg/trait/fanspeedpb/model_server.go
+++ b/pkg/trait/fanspeedpb/model_server.go
@@ -35,7 +35,11 @@ func (s *ModelServer) GetFanSpeed(_ context.Context, request *traits.GetFanSpeed
 }
 
 func (s *ModelServer) UpdateFanSpeed(_ context.Context, request *traits.UpdateFanSpeedRequest) (*traits.FanSpeed, error) {
-	return s.model.UpdateFanSpeed(request.FanSpeed, resource.WithUpdateMask(request.UpdateMask), resource.InterceptBefore(func(old, new proto.Message) {
+	fanSpeed := request.FanSpeed
+	if fanSpeed == nil {
+		fanSpeed = &traits.FanSpeed{}
+	}
+	return s.model.UpdateFanSpeed(fanSpeed, resource.WithUpdateMask(request.UpdateMask), resource.InterceptBefore(func(old, new proto.Message) {
 		if request.Relative {
 			oldVal := old.(*traits.FanSpeed)
 			newVal := new.(*traits.FanSpeed)
diff --git a/pkg/trait/hailpb/model.go b/pkg/trait/hailpb/model.go
index d971fbe..b35651b 100644
--- a/pkg/trait/hailpb/model.go
+++ b/pkg/trait/hailpb/model.go
@@ -36,6 +36,9 @@ func NewModel(opts ...resource.Option) *Model {
 }
 
 func (m *Model) CreateHail(hail *traits.Hail) (*traits.Hail, error) {
+	if hail == nil {
+		hail = &traits.Hail{}
+	}
 	defer m.gc()
 	return castReturn(m.hails.Add("", hail, resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
 		hail.Id = id
@@ -51,7 +54,7 @@ func (m *Model) GetHail(id string, opts ...resource.ReadOption) (*traits.Hail, b
 }
 
 func (m *Model) UpdateHail(hail *traits.Hail, opts ...resource.WriteOption) (*traits.Hail, error) {
-	if hail.Id == "" {
+	if hail.GetId() == "" {
 		return nil, status.Error(codes.InvalidArgument, "missing ID")
 	}
 	msg, err := m.hails.Update(hail.Id, hail, opts...)
diff --git a/pkg/trait/hailpb/model_server.go b/pkg/trait/hailpb/model_server.go
index 96ac438..4b4b853 100644
--- a/pkg/trait/hailpb/model_server.go
+++ b/pkg/trait/hailpb/model_server.go
@@ -35,6 +35,9 @@ func (m *ModelServer) Register(server grpc.ServiceRegistrar) {
 
 func (m *ModelServer) CreateHail(_ context.Context, request *traits.CreateHailRequest) (*traits.Hail, error) {
 	hail := request.Hail
+	if hail == nil {
+		hail = &traits.Hail{}
+	}
 	if hail.State == traits.Hail_STATE_UNSPECIFIED {
 		hail.State = traits.Hail_CALLED
 	}
diff --git a/pkg/trait/lightpb/memory.go b/pkg/trait/lightpb/memory.go
index 01d344f..1e996da 100644
--- a/pkg/trait/lightpb/memory.go
+++ b/pkg/trait/lightpb/memory.go
@@ -124,8 +124,12 @@ func (s *MemoryDevice) UpdateBrightness(ctx context.Context, request *traits.Upd
 		return startVal, nil
 	}
 
+	brightness := request.Brightness
+	if brightness == nil {
+		brightness = &traits.Brightness{}
+	}
 	res, err := s.brightness.Set(
-		request.Brightness,
+		brightness,
 		// if there's a tween in progress, clear the tween props
 		resource.WithResetPaths("target_level_percent", "brightness_tween"),
 		resource.InterceptBefore(func(old, change proto.Message) {
diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 1b8c8a7..beb22c4 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -64,6 +64,9 @@ func (m *Model) GetPosition(dir traits.OpenClosePosition_Direction, opts ...reso
 }
 
 func (m *Model) UpdatePositions(positions *traits.OpenClosePositions, opts ...resource.WriteOption) (*traits.OpenClosePositions, error) {
+	if positions == nil {
+		positions = &traits.OpenClosePositions{}
+	}
 	// preset handling
 	if positions.Preset != nil {
 		preset, presetPositions := m.presetForName(positions.Preset.Name)
diff --git a/pkg/trait/publicationpb/model.go b/pkg/trait/publicationpb/model.go
index 2aab7a4..b54f74a 100644
--- a/pkg/trait/publicationpb/model.go
+++ b/pkg/trait/publicationpb/model.go
@@ -27,6 +27,9 @@ func NewModel(opts ...resource.Option) *Model {
 }
 
 func (m *Model) CreatePublication(publication *traits.Publication, opts ...resource.WriteOption) (*traits.Publication, error) {
+	if publication == nil {
+		publication = &traits.Publication{}
+	}
 	args := calcWriteArgs(opts...)
 	return toPublication(m.publications.Add(publication.Id, publication,
 		resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index ad7688f..b37609d 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -51,7 +51,7 @@ func (m *ModelServer) GetPublication(_ context.Context, request *traits.GetPubli
 }
 
 func (m *ModelServer) UpdatePublication(_ context.Context, request *traits.UpdatePublicationRequest) (*traits.Publication, error) {
-	if request.Publication.Id == "" {
+	if request.GetPublication().GetId() == "" {
 		return nil, status.Error(codes.InvalidArgument, "id is required")
 	}
 	return m.model.UpdatePublication(request.Publication.Id, request.Publication,
diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index 208cd7b..a74a845 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -36,6 +36,9 @@ func NewModel(opts ...resource.Option) *Model {
 // If consumable.Name is specified it will be used as the key, it absent a new name will be invented.
 // If the consumables name already exists, an error will be returned.
 func (m *Model) CreateConsumable(consumable *traits.Consumable) (*traits.Consumable, error) {
+	if consumable == nil {
+		consumable = &traits.Consumable{}
+	}
 	return castConsumable(m.consumables.Add(consumable.Name, consumable, resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
 		consumable.Name = id
 	})))
@@ -50,7 +53,7 @@ func (m *Model) GetConsumable(name string, opts ...resource.ReadOption) (*traits
 }
 
 func (m *Model) UpdateConsumable(consumable *traits.Consumable, opts ...resource.WriteOption) (*traits.Consumable, error) {
-	if consumable.Name == "" {
+	if consumable.GetName() == "" {
 		return nil, status.Error(codes.NotFound, "name not specified")
 	}
 	msg, err := m.consumables.Update(consumable.Name, consumable, opts...)
@@ -125,6 +128,9 @@ func (m *Model) PullConsumables(ctx context.Context, opts ...resource.ReadOption
 // If stock.Consumable is not supplied, a new consumable name will be invented.
 // Errors if the stock.Consumable already exists as a known stock entry.
 func (m *Model) CreateStock(stock *traits.Consumable_Stock) (*traits.Consumable_Stock, error) {
+	if stock == nil {
+		stock = &traits.Consumable_Stock{}
+	}
 	return castStock(m.inventory.Add(stock.Consumable, stock, resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
 		stock.Consumable = id
 	})))
@@ -139,7 +145,7 @@ func (m *Model) GetStock(consumable string, opts ...resource.ReadOption) (*trait
 }
 
 func (m *Model) UpdateStock(stock *traits.Consumable_Stock, opts ...resource.WriteOption) (*traits.Consumable_Stock, error) {
-	if stock.Consumable == "" {
+	if stock.GetConsumable() == "" {
 		return nil, status.Error(codes.NotFound, "consumable not specified")
 	}
 	msg, err := m.inventory.Update(stock.Consumable, stock, opts...)
-- 
2.43.0


From a4971e81afeae864751ed8c34c4aa78f16abe26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 76/90] fix: handle volume updates without a volume instead of
 panicking

---
 pkg/trait/speakerpb/memory.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/speakerpb/memory.go b/pkg/trait/speakerpb/memory.go
index e037548..72e39c7 100644
--- a/pkg/trait/speakerpb/memory.go
+++ b/pkg/trait/speakerpb/memory.go
@@ -34,7 +34,11 @@ func (s *MemoryDevice) GetVolume(_ context.Context, req *traits.GetSpeakerVolume
 }
 
 func (s *MemoryDevice) UpdateVolume(_ context.Context, request *traits.UpdateSpeakerVolumeRequest) (*types.AudioLevel, error) {
-	newValue, err := s.volume.Set(request.Volume, resource.WithUpdateMask(request.UpdateMask), resource.InterceptBefore(func(old, change proto.Message) {
+	volume := request.Volume
+	if volume == nil {
+		volume = &types.AudioLevel{}
+	}
+	newValue, err := s.volume.Set(volume, resource.WithUpdateMask(request.UpdateMask), resource.InterceptBefore(func(old, change proto.Message) {
 		if request.Delta {
 			val := old.(*types.AudioLevel)
 			delta := change.(*types.AudioLevel)
-- 
2.43.0


From 4b284967888ca1c377829efee233e1b4d2f8beb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:07 +0000
Subject: [PATCH 77/90] fix: respect updates_only when pulling enter leave
 events

---
 pkg/trait/enterleavesensorpb/model_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/enterleavesensorpb/model_server.go b/pkg/trait/enterleavesensorpb/model_server.go
index 65efbdd..a85b7fe 100644
--- a/pkg/trait/enterleavesensorpb/model_server.go
+++ b/pkg/trait/enterleavesensorpb/model_server.go
@@ -37,7 +37,7 @@ func (m *ModelServer) ResetEnterLeaveTotals(ctx context.Context, request *traits
 }
 
 func (m *ModelServer) PullEnterLeaveEvents(request *traits.PullEnterLeaveEventsRequest, server traits.EnterLeaveSensorApi_PullEnterLeaveEventsServer) error {
-	for change := range m.model.PullEnterLeaveEvents(server.Context(), resource.WithReadMask(request.ReadMask)) {
+	for change := range m.model.PullEnterLeaveEvents(server.Context(), resource.WithReadMask(request.ReadMask), resource.WithUpdatesOnly(request.UpdatesOnly)) {
 		err := server.Send(&traits.PullEnterLeaveEventsResponse{Changes: []*traits.PullEnterLeaveEventsResponse_Change{
 			{Name: request.Name, ChangeTime: timestamppb.New(change.ChangeTime), EnterLeaveEvent: change.Value},
 		}})
-- 
2.43.0


From e886cb7c6e08f43e38818e1e503efa69d56edc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:08 +0000
Subject: [PATCH 78/90] fix: pulling enter leave events does not edit the
 stored event

---
 pkg/trait/enterleavesensorpb/model.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/trait/enterleavesensorpb/model.go b/pkg/trait/enterleavesensorpb/model.go
index 81024ba..f040361 100644
--- a/pkg/trait/enterleavesensorpb/model.go
+++ b/pkg/trait/enterleavesensorpb/model.go
@@ -71,6 +71,8 @@ func (m *Model) PullEnterLeaveEvents(ctx context.Context, opts ...resource.ReadO
 			val := change.Value.(*traits.EnterLeaveEvent)
 			if change.LastSeedValue {
 				// when sending the initial data (not an update), the occupant and direction should be absent.
+				// The value may be shared with other readers, don't edit it.
+				val = proto.Clone(val).(*traits.EnterLeaveEvent)
 				val.Occupant = nil
 				val.Direction = traits.EnterLeaveEvent_DIRECTION_UNSPECIFIED
 			}
-- 
2.43.0


From 409b50cc4571f68cc61ab2ce100416069242a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 79/90] fix: name the changes pulled from a parent server

---
 pkg/trait/parentpb/model_server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/trait/parentpb/model_server.go b/pkg/trait/parentpb/model_server.go
index d4341c5..65d83bc 100644
--- a/pkg/trait/parentpb/model_server.go
+++ b/pkg/trait/parentpb/model_server.go
@@ -81,6 +81,7 @@ func (s *ModelServer) ListChildren(_ context.Context, request *traits.ListChildr
 
 func (s *ModelServer) PullChildren(request *traits.PullChildrenRequest, server traits.ParentApi_PullChildrenServer) error {
 	for change := range s.model.PullChildren(server.Context(), resource.WithReadMask(request.ReadMask), resource.WithUpdatesOnly(request.UpdatesOnly)) {
+		change.Name = request.Name
 		err := server.Send(&traits.PullChildrenResponse{Changes: []*traits.PullChildrenResponse_Change{change}})
 		if err != nil {
 			return err
-- 
2.43.0


From 5468121c8c93019647f5788a95007be133210233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 80/90] fix: respect the read mask when getting metadata of a
 collection

---
 pkg/trait/metadatapb/collection_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/metadatapb/collection_server.go b/pkg/trait/metadatapb/collection_server.go
index 2de90da..631f331 100644
--- a/pkg/trait/metadatapb/collection_server.go
+++ b/pkg/trait/metadatapb/collection_server.go
@@ -22,7 +22,7 @@ func (s *CollectionServer) Unwrap() any {
 }
 
 func (s *CollectionServer) GetMetadata(_ context.Context, request *traits.GetMetadataRequest) (*traits.Metadata, error) {
-	return s.model.GetMetadata(request.Name)
+	return s.model.GetMetadata(request.Name, resource.WithReadMask(request.ReadMask))
 }
 
 func (s *CollectionServer) PullMetadata(request *traits.PullMetadataRequest, server traits.MetadataApi_PullMetadataServer) error {
-- 
2.43.0


From c10fb9f6ec27e05da829ea057536d1d6418e78e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:01 +0000
Subject: [PATCH 81/90] fix: compute the paths below a prefix of a mask

---
 pkg/masks/util.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pkg/masks/util.go b/pkg/masks/util.go
index d79887f..1442870 100644
--- a/pkg/masks/util.go
+++ b/pkg/masks/util.go
@@ -8,6 +8,10 @@ import (
 	"google.golang.org/protobuf/types/known/fieldmaskpb"
 )
 
+// RemovePrefix returns the paths of mask that are below prefix, relative to prefix.
+// A * just below prefix, which addresses the items of a repeated field, is removed too.
+// Returns nil, which selects everything, if mask is nil or selects all of prefix.
+// Returns an empty mask if mask selects nothing below prefix.
 func RemovePrefix(prefix string, mask *fieldmaskpb.FieldMask) *fieldmaskpb.FieldMask {
 	if mask == nil {
 		return nil
@@ -16,22 +20,19 @@ func RemovePrefix(prefix string, mask *fieldmaskpb.FieldMask) *fieldmaskpb.Field
 	for _, path := range mask.Paths {
 		switch {
 		case path == prefix:
-			continue // skip this one
+			return nil
 		case strings.HasPrefix(path, prefix+"."):
-			path = path[7:]
+			path = path[len(prefix)+1:]
 			switch {
 			case path == "*":
-				continue
+				return nil
 			case strings.HasPrefix(path, "*."):
 				path = path[2:]
 			}
-			out.Paths = append(mask.Paths, path)
+			out.Paths = append(out.Paths, path)
 		}
 	}
 
-	if len(mask.Paths) == 0 {
-		return nil
-	}
 	return out
 }
 
-- 
2.43.0


From 9d3894c64853dd483f7775708fa6b43f1cf9fcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:02 +0000
Subject: [PATCH 82/90] fix: read masks of open close positions apply to the
 positions as a whole

---
 pkg/trait/openclosepb/model.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index beb22c4..51ece6a 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -39,6 +39,9 @@ type preset struct {
 }
 
 func (m *Model) GetPositions(opts ...resource.ReadOption) (*traits.OpenClosePositions, error) {
+	readRequest := resource.ComputeReadConfig(opts...)
+	// the read mask is relative to the result, not to each position, and the preset needs complete positions
+	opts = append(append([]resource.ReadOption{}, opts...), resource.WithReadMask(nil))
 	allPositions := m.positions.List(opts...) // already sorted by ID aka Direction ordinal
 	dst := &traits.OpenClosePositions{
 		States: make([]*traits.OpenClosePosition, len(allPositions)),
@@ -52,7 +55,7 @@ func (m *Model) GetPositions(opts ...resource.ReadOption) (*traits.OpenClosePosi
 		dst.Preset = preset
 	}
 
-	return dst, nil
+	return readRequest.FilterClone(dst).(*traits.OpenClosePositions), nil
 }
 
 func (m *Model) GetPosition(dir traits.OpenClosePosition_Direction, opts ...resource.ReadOption) (*traits.OpenClosePosition, error) {
-- 
2.43.0


From 0de83222ba4a526a888685617d15f955113b2ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 83/90] fix: pulling open close positions with a read mask does
 not edit the stored positions

---
 pkg/trait/openclosepb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 51ece6a..66fb524 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -144,7 +144,7 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 			positions.Preset, _ = m.presetForValue(positions.States)
 
 			// projection and filtering
-			responseFilter.Filter(positions)
+			positions = responseFilter.FilterClone(positions).(*traits.OpenClosePositions) // the states are shared
 			if eq(last, positions) {
 				continue
 			}
-- 
2.43.0


From d743ab5fe376d3c4ec7ce92e2fd3bac4d42faa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:37 +0000
Subject: [PATCH 84/90] fix: open close position updates respect the update
 mask and leave the caller's message as it is

---
 pkg/trait/openclosepb/model.go | 56 +++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 66fb524..71c0004 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -4,12 +4,14 @@ import (
 	"context"
 	"fmt"
 	"slices"
+	"strings"
 	"time"
 
 	"golang.org/x/exp/maps"
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
+	"google.golang.org/protobuf/types/known/fieldmaskpb"
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-golang/pkg/cmp"
@@ -70,23 +72,38 @@ func (m *Model) UpdatePositions(positions *traits.OpenClosePositions, opts ...re
 	if positions == nil {
 		positions = &traits.OpenClosePositions{}
 	}
+	writeRequest := resource.ComputeWriteConfig(opts...)
+	stateMask := masks.RemovePrefix("states", writeRequest.UpdateMask)
+	if err := validateUpdateMask(writeRequest.UpdateMask); err != nil {
+		return nil, err
+	}
+
+	states := positions.States
 	// preset handling
 	if positions.Preset != nil {
 		preset, presetPositions := m.presetForName(positions.Preset.Name)
 		if preset == nil {
 			return nil, status.Errorf(codes.InvalidArgument, "preset %q not found", positions.Preset.Name)
 		}
-		positions.States = presetPositions
+		states = presetPositions
+		if mentions(writeRequest.UpdateMask, "preset") {
+			stateMask = nil // a preset defines the positions completely
+		}
 	}
 
-	writeRequest := resource.ComputeWriteConfig(opts...)
-	opts = append([]resource.WriteOption{}, opts...)
-	if writeRequest.UpdateMask != nil {
-		opts = append(opts, resource.WithUpdateMask(masks.RemovePrefix("states", writeRequest.UpdateMask)))
+	if stateMask != nil && len(stateMask.Paths) == 0 {
+		return m.GetPositions() // the mask doesn't include any of the positions' properties
 	}
-	opts = append(opts, resource.WithCreateIfAbsent())
 
-	for _, state := range positions.States {
+	for _, state := range states {
+		dir := state.Direction
+		opts := append([]resource.WriteOption{
+			// positions created by this update have a direction even if the update mask doesn't mention it
+			resource.InterceptAfter(func(_, new proto.Message) {
+				new.(*traits.OpenClosePosition).Direction = dir
+			}),
+		}, opts...)
+		opts = append(opts, resource.WithUpdateMask(stateMask), resource.WithCreateIfAbsent())
 		_, err := m.positions.Update(directionToID(state.Direction), state, opts...)
 		if err != nil {
 			return nil, err
@@ -96,6 +113,31 @@ func (m *Model) UpdatePositions(positions *traits.OpenClosePositions, opts ...re
 	return m.GetPositions()
 }
 
+// validateUpdateMask checks that mask only mentions properties of positions, "states.open_percent" for example.
+func validateUpdateMask(mask *fieldmaskpb.FieldMask) error {
+	for _, path := range mask.GetPaths() {
+		var msg proto.Message = &traits.OpenClosePositions{}
+		sub := &fieldmaskpb.FieldMask{Paths: []string{path}}
+		if strings.HasPrefix(path, "states.") {
+			msg, sub = &traits.OpenClosePosition{}, masks.RemovePrefix("states", sub)
+		}
+		if sub != nil && !sub.IsValid(msg) {
+			return status.Errorf(codes.InvalidArgument, "update_mask mentions unknown fields: %v", path)
+		}
+	}
+	return nil
+}
+
+// mentions returns whether mask contains the named field or any field of it.
+func mentions(mask *fieldmaskpb.FieldMask, name string) bool {
+	for _, path := range mask.GetPaths() {
+		if path == name || strings.HasPrefix(path, name+".") {
+			return true
+		}
+	}
+	return false
+}
+
 func (m *Model) UpdatePosition(position *traits.OpenClosePosition, opts ...resource.WriteOption) (*traits.OpenClosePosition, error) {
 	return m.UpdatePositionN(position.Direction, position, opts...)
 }
-- 
2.43.0


From 627599012e07970f03ec4c76c1a3165c94900a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:01 +0000
Subject: [PATCH 85/90] fix: pull open close positions that start empty,
 nothing was ever sent

---
 pkg/trait/openclosepb/model.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 71c0004..e251b84 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -155,27 +155,41 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 	responseFilter := readRequest.ResponseFilter()
 	eq := cmp.Equal()
 
+	empty := len(m.positions.List()) == 0
+	changes := m.positions.Pull(ctx)
+
 	send := make(chan PullOpenClosePositionsChange)
 	go func() {
 		defer close(send)
 		all := make(map[string]*traits.OpenClosePosition, 1)
-		seenAll := false
 		var last *traits.OpenClosePositions
 
-		for change := range m.positions.Pull(ctx) {
+		if empty {
+			// there are no positions to be seeded with, which is a value too
+			last = &traits.OpenClosePositions{}
+			if !readRequest.UpdatesOnly {
+				select {
+				case <-ctx.Done():
+					return
+				case send <- PullOpenClosePositionsChange{
+					Positions:  last,
+					ChangeTime: m.positions.Clock().Now(),
+				}:
+				}
+			}
+		}
+
+		for change := range changes {
 			if change.NewValue == nil {
 				delete(all, change.Id)
 			} else {
 				all[change.Id] = change.NewValue.(*traits.OpenClosePosition)
 			}
 
-			shouldSend := seenAll || (change.LastSeedValue && !readRequest.UpdatesOnly)
-			if change.LastSeedValue {
-				seenAll = true
-			}
-			if !shouldSend {
-				continue
+			if change.SeedValue && !change.LastSeedValue {
+				continue // we don't know all the positions yet
 			}
+			shouldSend := !change.SeedValue || !readRequest.UpdatesOnly
 
 			// transform into the correct output format
 			positions := &traits.OpenClosePositions{
@@ -191,6 +205,9 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 				continue
 			}
 			last = positions
+			if !shouldSend {
+				continue
+			}
 
 			// do the send
 			select {
-- 
2.43.0


From bc89f0355bd223294efd137b20a346b2534f02ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 86/90] fix: merging metadata changes neither the stored traits
 nor the caller's message

---
 pkg/trait/metadatapb/collection.go | 2 ++
 pkg/trait/metadatapb/model.go      | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/metadatapb/collection.go b/pkg/trait/metadatapb/collection.go
index 204b4c3..159f7a1 100644
--- a/pkg/trait/metadatapb/collection.go
+++ b/pkg/trait/metadatapb/collection.go
@@ -6,6 +6,7 @@ import (
 
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
+	"google.golang.org/protobuf/proto"
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
@@ -55,6 +56,7 @@ func (m *Collection) MergeMetadata(name string, metadata *traits.Metadata, opts
 	newOpts := make([]resource.WriteOption, 1, len(opts)+1)
 	newOpts[0] = resource.InterceptBefore(metadataMergeInterceptor)
 	newOpts = append(newOpts, opts...)
+	metadata = proto.Clone(metadata).(*traits.Metadata) // the interceptor changes it, don't mutate the caller's copy
 	return m.UpdateMetadata(name, metadata, newOpts...)
 }
 
diff --git a/pkg/trait/metadatapb/model.go b/pkg/trait/metadatapb/model.go
index 89d0dd4..cae9be1 100644
--- a/pkg/trait/metadatapb/model.go
+++ b/pkg/trait/metadatapb/model.go
@@ -42,6 +42,7 @@ func (m *Model) MergeMetadata(metadata *traits.Metadata, opts ...resource.WriteO
 	newOpts := make([]resource.WriteOption, 1, len(opts)+1)
 	newOpts[0] = resource.InterceptBefore(metadataMergeInterceptor)
 	newOpts = append(newOpts, opts...)
+	metadata = proto.Clone(metadata).(*traits.Metadata) // the interceptor changes it, don't mutate the caller's copy
 	return m.UpdateMetadata(metadata, newOpts...)
 }
 
@@ -111,7 +112,10 @@ func metadataMergeInterceptor(old, new proto.Message) {
 	// so we have to do it ourselves.
 	oldVal := old.(*traits.Metadata)
 	newVal := new.(*traits.Metadata)
-	newVal.Traits = oldVal.Traits
+	newVal.Traits = nil
+	for _, trait := range oldVal.Traits { // old must not be changed, others hold on to it
+		newVal.Traits = append(newVal.Traits, proto.Clone(trait).(*traits.TraitMetadata))
+	}
 	for _, trait := range cleanTraits {
 		newVal.Traits = mergeTraitMetadata(newVal.Traits, trait)
 	}
-- 
2.43.0


From d17811382d68dc4e5fac819b1d62402631579ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 87/90] fix: waste model keeps its own copy of the records it
 is given

---
 pkg/trait/wastepb/model.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/wastepb/model.go b/pkg/trait/wastepb/model.go
index 55eb980..122aba4 100644
--- a/pkg/trait/wastepb/model.go
+++ b/pkg/trait/wastepb/model.go
@@ -7,6 +7,7 @@ import (
 	"sync"
 	"time"
 
+	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
 	"github.com/smart-core-os/sc-api/go/traits"
@@ -57,7 +58,7 @@ func (m *Model) AddWasteRecord(wr *traits.WasteRecord, opts ...resource.WriteOpt
 	}
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	m.allWasteRecords = append(m.allWasteRecords, wr)
+	m.allWasteRecords = append(m.allWasteRecords, proto.Clone(wr).(*traits.WasteRecord)) // wr belongs to the caller
 	return v.(*traits.WasteRecord), nil
 }
 
-- 
2.43.0


From 9d39de93d97a9ea043fb2f1ccb6b036610d78dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 88/90] fix: selecting a light preset does not put the preset
 into the caller's message

---
 pkg/trait/lightpb/model.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/trait/lightpb/model.go b/pkg/trait/lightpb/model.go
index ff0b583..7387620 100644
--- a/pkg/trait/lightpb/model.go
+++ b/pkg/trait/lightpb/model.go
@@ -4,6 +4,8 @@ import (
 	"context"
 	"time"
 
+	"google.golang.org/protobuf/proto"
+
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
@@ -26,7 +28,8 @@ func (m *Model) GetBrightness(opts ...resource.ReadOption) (*traits.Brightness,
 }
 
 func (m *Model) UpdateBrightness(light *traits.Brightness, opts ...resource.WriteOption) (*traits.Brightness, error) {
-	if m.setLevelFromPreset(light) {
+	light, ok := m.setLevelFromPreset(light)
+	if ok {
 		opts = append(opts, resource.WithMoreUpdatePaths("level_percent"))
 	}
 	res, err := m.brightness.Set(light, opts...)
@@ -66,18 +69,20 @@ func (m *Model) ListPresets() []*traits.LightPreset {
 	return res
 }
 
-func (m *Model) setLevelFromPreset(b *traits.Brightness) bool {
+// setLevelFromPreset returns a copy of b with the level and properties of the preset b mentions, if it is one of ours.
+func (m *Model) setLevelFromPreset(b *traits.Brightness) (*traits.Brightness, bool) {
 	if b.GetPreset() == nil {
-		return false
+		return b, false
 	}
 	for _, p := range m.presets {
 		if p.Name == b.GetPreset().GetName() {
+			b = proto.Clone(b).(*traits.Brightness) // don't mutate the caller's copy
 			b.LevelPercent = p.levelPercent
 			b.Preset = p.LightPreset // sets the title if needed
-			return true
+			return b, true
 		}
 	}
-	return false
+	return b, false
 }
 
 type PullBrightnessChange struct {
-- 
2.43.0


From 9bbd1649fc59ba1c028e4952c483d78e6bc7550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 89/90] fix: creating a record does not write the generated id
 into the caller's message

---
 pkg/trait/bookingpb/model.go     | 2 ++
 pkg/trait/hailpb/model.go        | 1 +
 pkg/trait/publicationpb/model.go | 1 +
 pkg/trait/vendingpb/model.go     | 2 ++
 4 files changed, 6 insertions(+)

diff --git a/pkg/trait/bookingpb/model.go b/pkg/trait/bookingpb/model.go
index be0a0e3..235e642 100644
--- a/pkg/trait/bookingpb/model.go
+++ b/pkg/trait/bookingpb/model.go
@@ -6,6 +6,7 @@ import (
 
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
+	"google.golang.org/protobuf/proto"
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
@@ -38,6 +39,7 @@ func (m *Model) CreateBooking(booking *traits.Booking) (*traits.Booking, error)
 	if booking == nil {
 		booking = &traits.Booking{}
 	}
+	booking = proto.Clone(booking).(*traits.Booking) // we set the id, don't mutate the caller's copy
 	msg, err := m.bookings.Add(booking.Id, booking, resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
 		booking.Id = id
 	}))
diff --git a/pkg/trait/hailpb/model.go b/pkg/trait/hailpb/model.go
index b35651b..39c4738 100644
--- a/pkg/trait/hailpb/model.go
+++ b/pkg/trait/hailpb/model.go
@@ -39,6 +39,7 @@ func (m *Model) CreateHail(hail *traits.Hail) (*traits.Hail, error) {
 	if hail == nil {
 		hail = &traits.Hail{}
 	}
+	hail = proto.Clone(hail).(*traits.Hail) // we set the id, don't mutate the caller's copy
 	defer m.gc()
 	return castReturn(m.hails.Add("", hail, resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
 		hail.Id = id
diff --git a/pkg/trait/publicationpb/model.go b/pkg/trait/publicationpb/model.go
index b54f74a..07bcca5 100644
--- a/pkg/trait/publicationpb/model.go
+++ b/pkg/trait/publicationpb/model.go
@@ -30,6 +30,7 @@ func (m *Model) CreatePublication(publication *traits.Publication, opts ...resou
 	if publication == nil {
 		publication = &traits.Publication{}
 	}
+	publication = proto.Clone(publication).(*traits.Publication) // we set the id, don't mutate the caller's copy
 	args := calcWriteArgs(opts...)
 	return toPublication(m.publications.Add(publication.Id, publication,
 		resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index a74a845..a3e174b 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -39,6 +39,7 @@ func (m *Model) CreateConsumable(consumable *traits.Consumable) (*traits.Consuma
 	if consumable == nil {
 		consumable = &traits.Consumable{}
 	}
+	consumable = proto.Clone(consumable).(*traits.Consumable) // we set the id, don't mutate the caller's copy
 	return castConsumable(m.consumables.Add(consumable.Name, consumable, resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
 		consumable.Name = id
 	})))
@@ -131,6 +132,7 @@ func (m *Model) CreateStock(stock *traits.Consumable_Stock) (*traits.Consumable_
 	if stock == nil {
 		stock = &traits.Consumable_Stock{}
 	}
+	stock = proto.Clone(stock).(*traits.Consumable_Stock) // we set the id, don't mutate the caller's copy
 	return castStock(m.inventory.Add(stock.Consumable, stock, resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
 		stock.Consumable = id
 	})))
-- 
2.43.0


From 9d8d040f03101cf18d31978b49f5716712eeeb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 90/90] fix: each electric model has its own random number
 generator, models are used concurrently

---
 pkg/trait/electricpb/model_opts.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/electricpb/model_opts.go b/pkg/trait/electricpb/model_opts.go
index b102855..a0c033a 100644
--- a/pkg/trait/electricpb/model_opts.go
+++ b/pkg/trait/electricpb/model_opts.go
@@ -22,7 +22,7 @@ var DefaultModelOptions = []resource.Option{
 	WithActiveModeOption(resource.WithNoDuplicates()),
 	WithModeOption(resource.WithNoDuplicates()),
 	WithClock(clock.Real()),
-	WithRNG(rand.New(rand.NewSource(rand.Int63()))),
+	withNewRNG(),
 }
 var defaultInitialVoltage float32 = 240
 
@@ -101,6 +101,14 @@ func WithRNG(rng *rand.Rand) resource.Option {
 	})
 }
 
+// withNewRNG is like WithRNG, but each model gets a random number generator of its own.
+// Models don't use a common lock, so they can't share a rand.Rand.
+func withNewRNG() resource.Option {
+	return modelOptionFunc(func(args *modelArgs) {
+		args.apply(WithRNG(rand.New(rand.NewSource(rand.Int63()))))
+	})
+}
+
 func calcModelArgs(opts ...resource.Option) modelArgs {
 	args := new(modelArgs)
 	args.apply(DefaultModelOptions...)
-- 
2.43.0

