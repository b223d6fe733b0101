From b9248243c5700896be79cae78b4573aba03b04e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 01/34] fix: publish the device that fills up a packet

A full packet was flushed before the index was moved past its last device,
so every packetSize-th device was never published.
---
 generator.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/generator.go b/generator.go
index 457f4a0..9cacf54 100644
--- a/generator.go
+++ b/generator.go
@@ -238,13 +238,12 @@ loop:
 				g.packet.Devices[g.index] = g.devices[i].State()
 				g.dmu.Unlock()
 
-				if g.index+1 == g.packetSize {
+				g.index++
+				if g.index == g.packetSize {
 					g.mu.RUnlock()
 					g.flush()
 					g.mu.RLock()
 					g.index = 0
-				} else {
-					g.index++
 				}
 			}
 			g.mu.RUnlock()
-- 
2.43.0


From 24f7f7a0b391d182c9e159e906efa931d9841ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 02/34] fix: collect the devices of a tick from one list

The device list was unlocked while a full packet was delivered. A detach at
that moment shifted the list, so that another device was not published, and
a device attached at that moment was published without having been advanced.
---
 generator.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/generator.go b/generator.go
index 9cacf54..9ec43ac 100644
--- a/generator.go
+++ b/generator.go
@@ -227,26 +227,29 @@ loop:
 				tick = 1
 			}
 
+			// The devices of this tick are those attached right now: devices
+			// attached or detached while packets are being delivered must not
+			// shift the others.
 			g.mu.RLock()
-			for i := 0; i < len(g.devices); i++ {
-				g.devices[i].Next(tick)
+			devices := make([]*Device, len(g.devices))
+			copy(devices, g.devices)
+			for i := 0; i < len(devices); i++ {
+				devices[i].Next(tick)
 			}
+			g.mu.RUnlock()
 
 			g.index = 0
-			for i := 0; i < len(g.devices); i++ {
+			for i := 0; i < len(devices); i++ {
 				g.dmu.Lock()
-				g.packet.Devices[g.index] = g.devices[i].State()
+				g.packet.Devices[g.index] = devices[i].State()
 				g.dmu.Unlock()
 
 				g.index++
 				if g.index == g.packetSize {
-					g.mu.RUnlock()
 					g.flush()
-					g.mu.RLock()
 					g.index = 0
 				}
 			}
-			g.mu.RUnlock()
 
 			g.flush()
 			g.resetPacket()
-- 
2.43.0


From bc0a0533f2f182c16c3e38f40e8690c67c4bc768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:35 +0000
Subject: [PATCH 03/34] fix: let Run return and end all goroutines after Close

Closing the generator while a packet was being handed to the workers could
block the tick loop or a worker for ever on a channel nobody used any more,
so that Run never returned or goroutines were left behind. The packet was
also cleared while workers could still be encoding it.
---
 generator.go | 69 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 21 deletions(-)

diff --git a/generator.go b/generator.go
index 9ec43ac..f8a3cdd 100644
--- a/generator.go
+++ b/generator.go
@@ -246,12 +246,16 @@ loop:
 
 				g.index++
 				if g.index == g.packetSize {
-					g.flush()
+					if !g.flush() {
+						break loop
+					}
 					g.index = 0
 				}
 			}
 
-			g.flush()
+			if !g.flush() {
+				break loop
+			}
 			g.resetPacket()
 			g.notifyNextTick()
 
@@ -267,9 +271,8 @@ type slice struct {
 func (g *Generator) doWorker(n int) {
 	defer func() {
 		g.wg.Done()
-		g.waitCh <- struct{}{}
 	}()
-	
+
 	pck := &pb.Packet{}
 	enc := proto.MarshalOptions{}
 
@@ -283,7 +286,7 @@ func (g *Generator) doWorker(n int) {
 			}
 
 			if s.from == 0 && s.to == 0 {
-				g.waitCh <- struct{}{}
+				g.sliceDone()
 				continue
 			}
 
@@ -301,15 +304,24 @@ func (g *Generator) doWorker(n int) {
 				g.onPacket(data)
 			}
 
-			if g.isClosed() {
+			if !g.sliceDone() {
 				return
 			}
-
-			g.waitCh <- struct{}{}
 		}
 	}
 }
 
+// sliceDone reports a processed slice to flush.
+// It returns false if the generator is closed.
+func (g *Generator) sliceDone() bool {
+	select {
+	case <-g.ctx.Done():
+		return false
+	case g.waitCh <- struct{}{}:
+		return true
+	}
+}
+
 func (g *Generator) notifyNextTick() {
 	select {
 	case g.nextCh <- struct{}{}:
@@ -336,35 +348,50 @@ func (g *Generator) doNext() {
 	}
 }
 
-func (g *Generator) flush() {
+// flush hands the collected devices to the workers and waits until they have
+// been delivered. It returns false if the generator was closed meanwhile.
+func (g *Generator) flush() bool {
 	if g.index <= g.numWorkers+g.workerSize {
-		g.sliceCh <- slice{from: 0, to: g.index}
-		if g.isClosed() {
-			return
-		}
-		<-g.waitCh
+		return g.sendSlice(slice{from: 0, to: g.index}) && g.waitSlice()
 	} else {
 		step := g.index / g.numWorkers
 		rem := g.index % g.numWorkers
 		for i := 0; i < g.numWorkers; i++ {
-			if g.isClosed() {
-				return
-			}
 			var s slice
 			s.from = i * step
 			s.to = i*step + step
 			if i == g.numWorkers-1 {
 				s.to += rem
 			}
-			g.sliceCh <- s
+			if !g.sendSlice(s) {
+				return false
+			}
 		}
 		for i := 0; i < g.numWorkers; i++ {
-			if g.isClosed() {
-				return
+			if !g.waitSlice() {
+				return false
 			}
-			<-g.waitCh
 		}
 	}
+	return true
+}
+
+func (g *Generator) sendSlice(s slice) bool {
+	select {
+	case <-g.ctx.Done():
+		return false
+	case g.sliceCh <- s:
+		return true
+	}
+}
+
+func (g *Generator) waitSlice() bool {
+	select {
+	case <-g.ctx.Done():
+		return false
+	case <-g.waitCh:
+		return true
+	}
 }
 
 func (g *Generator) isClosed() bool {
-- 
2.43.0


From 6e18dba95943a7ec45c2d35866b23e83cacaefbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:36 +0000
Subject: [PATCH 04/34] fix: never deliver a packet that could not be encoded

Without an error callback the incomplete data of a failed encoding went to
the packet callback. The callbacks were also read without the lock under
which they are installed.
---
 generator.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/generator.go b/generator.go
index f8a3cdd..9feb919 100644
--- a/generator.go
+++ b/generator.go
@@ -298,10 +298,16 @@ func (g *Generator) doWorker(n int) {
 			data, err := enc.MarshalAppend(buf, pck)
 			g.dmu.RUnlock()
 
-			if err != nil && g.onError != nil {
-				g.onError(err)
-			} else if g.onPacket != nil {
-				g.onPacket(data)
+			g.mu.RLock()
+			onError, onPacket := g.onError, g.onPacket
+			g.mu.RUnlock()
+
+			if err != nil {
+				if onError != nil {
+					onError(err)
+				}
+			} else if onPacket != nil {
+				onPacket(data)
 			}
 
 			if !g.sliceDone() {
@@ -340,10 +346,13 @@ func (g *Generator) doNext() {
 			if g.isClosed() {
 				return
 			}
-			if g.onNext == nil {
+			g.mu.RLock()
+			onNext := g.onNext
+			g.mu.RUnlock()
+			if onNext == nil {
 				continue
 			}
-			g.onNext()
+			onNext()
 		}
 	}
 }
-- 
2.43.0


From e66cd1edbc97bd961f39e119d691f107797bc7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:36 +0000
Subject: [PATCH 05/34] fix: measure the first tick from the start of the run

A generator started some time after it was created found a tick waiting from
before the start, whose negative age was added to the devices' time, and its
first tick came after less than an interval but counted as a whole second.
---
 generator.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/generator.go b/generator.go
index 9feb919..591aa3e 100644
--- a/generator.go
+++ b/generator.go
@@ -2,7 +2,6 @@ package gpsgen
 
 import (
 	"context"
-	"math"
 	"runtime"
 	"sync"
 	"time"
@@ -209,7 +208,10 @@ func (g *Generator) run() {
 		g.ticker.Stop()
 	}()
 
+	// The ticker has been running since New: start a whole interval now, and
+	// ignore a tick that was already waiting.
 	lastTime := time.Now()
+	g.ticker.Reset(g.interval)
 	var tick float64
 
 loop:
@@ -222,7 +224,11 @@ loop:
 				break loop
 			}
 
-			tick = math.Abs(lastTime.Sub(t).Seconds())
+			if !t.After(lastTime) {
+				continue
+			}
+
+			tick = t.Sub(lastTime).Seconds()
 			if tick < 1 {
 				tick = 1
 			}
-- 
2.43.0


From d852a1943e1c28fffb24c79093fde90cbbf7e978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 06/34] fix: do not hold the generator's lock while Each calls
 back

A callback that used the generator again deadlocked as soon as another
goroutine was waiting to attach or detach a device.
---
 generator.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/generator.go b/generator.go
index 591aa3e..4cfc640 100644
--- a/generator.go
+++ b/generator.go
@@ -132,9 +132,11 @@ func (g *Generator) Detach(deviceID string) error {
 // and applies the provided function to each device.
 func (g *Generator) Each(fn func(int, *Device) bool) {
 	g.mu.RLock()
-	defer g.mu.RUnlock()
-	for i := 0; i < len(g.devices); i++ {
-		if next := fn(i, g.devices[i]); !next {
+	devices := make([]*Device, len(g.devices))
+	copy(devices, g.devices)
+	g.mu.RUnlock()
+	for i := 0; i < len(devices); i++ {
+		if next := fn(i, devices[i]); !next {
 			break
 		}
 	}
-- 
2.43.0


From 214dba8c5b082a76e7bae1313652aa904af44d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 07/34] fix: hand out copies of the device state

State returned the message that Next and all setters go on modifying, so
that states already handed out or collected into a packet kept changing
and were read while being written.
---
 device.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 16f5bcd..ad0d24b 100644
--- a/device.go
+++ b/device.go
@@ -366,10 +366,11 @@ func (d *Device) Status() Status {
 }
 
 // State returns a protobuf representation of the current device state.
+// The result is a copy that later changes of the device do not affect.
 func (d *Device) State() *pb.Device {
 	d.mu.RLock()
 	defer d.mu.RUnlock()
-	return d.state
+	return proto.Clone(d.state).(*pb.Device)
 }
 
 // Update updates the device's state and routes based on its current navigator state.
-- 
2.43.0


From 876bbda5a34ad32946a0c1a25f76b830d0dfce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:03 +0000
Subject: [PATCH 08/34] fix: read the device under its lock in Snapshot,
 SensorAt and IsFinish

A snapshot of a device in use mixed parts from before and after a step,
SensorAt could index a list that had just become shorter, and IsFinish
modifies the navigator.
---
 device.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/device.go b/device.go
index ad0d24b..3416330 100644
--- a/device.go
+++ b/device.go
@@ -284,13 +284,13 @@ func (d *Device) NumSensors() int {
 
 // SensorAt returns the sensor at the specified index from the device's navigator.
 func (d *Device) SensorAt(i int) *types.Sensor {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+
 	if len(d.sensors) == 0 || i > len(d.sensors)-1 || i < 0 {
 		return nil
 	}
 
-	d.mu.RLock()
-	defer d.mu.RUnlock()
-
 	return d.sensors[i]
 }
 
@@ -448,8 +448,9 @@ func (d *Device) CurrentSegmentDistance() float64 {
 
 // IsFinish checks if the device has reached the end of its current route.
 func (d *Device) IsFinish() bool {
-	d.mu.RLock()
-	defer d.mu.RUnlock()
+	// the navigator forgets the end of the route once it has been asked
+	d.mu.Lock()
+	defer d.mu.Unlock()
 	return d.navigator.IsFinish()
 }
 
@@ -718,6 +719,8 @@ func (d *Device) UnmarshalBinary(data []byte) error {
 // Snapshot creates and returns a snapshot of the device's current state.
 // The snapshot includes device information, status, duration, navigator, speed, battery, and sensors (if any).
 func (d *Device) Snapshot() *pb.Snapshot {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	snap := &pb.Snapshot{
 		Id:        d.state.Id,
 		UserId:    d.state.UserId,
@@ -734,11 +737,9 @@ func (d *Device) Snapshot() *pb.Snapshot {
 
 	if len(d.sensors) > 0 {
 		snap.Sensors = make([]*pb.Snapshot_SensorType, len(d.sensors))
-		d.mu.RLock()
 		for i := 0; i < len(d.sensors); i++ {
 			snap.Sensors[i] = d.sensors[i].Snapshot()
 		}
-		d.mu.RUnlock()
 	}
 	return snap
 }
-- 
2.43.0


From 8e4ef8b55f9fe339169a53cc85a86f91a837b61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:05 +0000
Subject: [PATCH 09/34] fix: do not modify the tracker in EncodeTracker

The published state of the tracker changed when it was encoded. The encoded
snapshot does not depend on it.
---
 io.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/io.go b/io.go
index d664a69..62d355e 100644
--- a/io.go
+++ b/io.go
@@ -16,7 +16,6 @@ func EncodeTracker(t *Device) ([]byte, error) {
 	if t == nil {
 		return []byte{}, nil
 	}
-	t.Update()
 	return t.MarshalBinary()
 }
 
-- 
2.43.0


From b743b2cc90b9c3c5bc1c388b12e52043930a86d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:06 +0000
Subject: [PATCH 10/34] fix: make up for the whole time of missed ticks

A tick at which the device was busy counted as one second whatever its
length, and one missed between reading and resetting the counter was lost.
---
 device.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/device.go b/device.go
index 3416330..b8f9a30 100644
--- a/device.go
+++ b/device.go
@@ -37,7 +37,9 @@ type Device struct {
 	state     *pb.Device
 	sensors   []*types.Sensor
 	avgT      float64
-	tick      uint32
+	tick      uint32 // number of missed ticks
+	missMu    sync.Mutex
+	missed    float64 // seconds of the missed ticks
 	ns        [3]int
 }
 
@@ -635,7 +637,7 @@ func (d *Device) Version() [3]int {
 func (d *Device) Next(tick float64) bool {
 	ok := d.mu.TryLock()
 	if !ok {
-		d.incTick()
+		d.missTick(tick)
 		return false
 	}
 	defer d.mu.Unlock()
@@ -644,9 +646,7 @@ func (d *Device) Next(tick float64) bool {
 		return false
 	}
 
-	tickLock := atomic.LoadUint32(&d.tick)
-	seconds := float64(float64(tickLock) + tick)
-	d.resetTick()
+	seconds := tick + d.takeMissed()
 	d.state.Duration += seconds
 	d.state.Tick = seconds
 
@@ -809,12 +809,22 @@ func (d *Device) unmount() error {
 	return nil
 }
 
-func (d *Device) incTick() {
+// missTick keeps the time of a tick at which the device was busy.
+func (d *Device) missTick(tick float64) {
+	d.missMu.Lock()
+	defer d.missMu.Unlock()
+	d.missed += tick
 	atomic.AddUint32(&d.tick, 1)
 }
 
-func (d *Device) resetTick() {
+// takeMissed returns the time of all ticks missed since the last call.
+func (d *Device) takeMissed() (seconds float64) {
+	d.missMu.Lock()
+	defer d.missMu.Unlock()
+	seconds = d.missed
+	d.missed = 0
 	atomic.StoreUint32(&d.tick, 0)
+	return
 }
 
 func (d *Device) nextT(tick float64) float64 {
-- 
2.43.0


From 98bc5fac5d36633ab1ce7dd1dfdcde8faf315e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 11/34] fix: keep the battery level within its limits

The level started at 100% whatever the configured maximum, and was not a
number before the first tick of a battery with a charge time of zero.
---
 types/battery.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/types/battery.go b/types/battery.go
index 18b73a7..73b878c 100644
--- a/types/battery.go
+++ b/types/battery.go
@@ -79,7 +79,10 @@ func (t *Battery) IsLow() bool {
 
 // Value returns the current value of the battery.
 func (t *Battery) Value() float64 {
-	val := 100 - (t.val / t.chargeTime.Seconds() * 100)
+	if t.chargeTime <= 0 {
+		return t.min
+	}
+	val := t.max - (t.val / t.chargeTime.Seconds() * 100)
 	if val < t.min {
 		val = t.min
 	}
-- 
2.43.0


From ec401eac95e5cdb12fa99b659dddab7ff3733145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 12/34] fix: travel every segment and no farther than speed and
 time allow

A step that did not fit into the rest of a segment was applied in full in
the next one, and segments shorter than a step were left out, so that a
device moved much faster than its speed. A segment of length zero ended the
whole track. The first step put the location at one meter instead of at the
distance reported.
---
 navigator/navigator.go | 85 ++++++++++++++----------------------------
 1 file changed, 29 insertions(+), 56 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 45157e3..f89c7f3 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -504,41 +504,28 @@ func (n *Navigator) NextLocation(tick float64, speed float64) (ok bool) {
 		return false
 	}
 
-	newDist := tick * speed
+	step := tick * speed
+	left := step // what remains of the step at the start of each segment
 
-loop:
 	for {
-		if n.isValidDistance(newDist) {
-			isStartSeg := n.isStartSegment()
-			n.updateDist(newDist)
-			segment := n.CurrentSegment()
-			if !segment.IsEmpty() {
-				if isStartSeg {
-					n.point = segment.DestinationTo(1)
-				} else {
-					n.point = segment.DestinationTo(n.currentSegmentDistance)
-				}
-				ok = true
-			}
+		segment := n.CurrentSegment()
+		if !segment.IsEmpty() && n.currentSegmentDistance+left <= segment.Distance() {
+			n.updateDist(step, left)
+			n.point = segment.DestinationTo(n.currentSegmentDistance)
+			ok = true
 			break
-		} else {
-			seg := n.nextSegment()
-			foundSegment := !seg.IsEmpty()
-			notFoundSegment := seg.IsEmpty()
-			switch {
-			case foundSegment:
-				if !seg.hasRelation() {
-					n.ToOffline()
-					break loop
-				}
-				continue
-			case notFoundSegment:
-				if !n.nextTrack() {
-					n.nextRoute()
-				}
-				n.ToOffline()
-				break loop
+		}
+		left -= math.Max(0, segment.Distance()-n.currentSegmentDistance)
+		if !n.nextSegment() {
+			if !n.nextTrack() {
+				n.nextRoute()
 			}
+			n.ToOffline()
+			break
+		}
+		if !segment.IsEmpty() && !segment.hasRelation() {
+			n.ToOffline()
+			break
 		}
 	}
 	return
@@ -689,23 +676,12 @@ func (n *Navigator) Reset() {
 	n.calcRouteDistance()
 }
 
-func (n *Navigator) updateDist(newDist float64) {
-	n.currentDistance += newDist
-	n.currentSegmentDistance += newDist
-	n.currentTrackDistance += newDist
-	n.currentRouteDistance += newDist
-}
-
-func (n *Navigator) isValidDistance(dist float64) bool {
-	segment := n.CurrentSegment()
-	if segment.IsEmpty() {
-		return false
-	}
-	return n.currentSegmentDistance+dist <= segment.Distance()
-}
-
-func (n *Navigator) isStartSegment() bool {
-	return n.segmentIndex == 0 && n.currentSegmentDistance == 0
+// updateDist adds a step of which the given part lies on the current segment.
+func (n *Navigator) updateDist(step, inSegment float64) {
+	n.currentDistance += step
+	n.currentSegmentDistance += inSegment
+	n.currentTrackDistance += step
+	n.currentRouteDistance += step
 }
 
 func (n *Navigator) nextOffline() bool {
@@ -719,18 +695,15 @@ func (n *Navigator) nextOffline() bool {
 	return false
 }
 
-func (n *Navigator) nextSegment() Segment {
+// nextSegment moves to the next segment of the current track, if there is one.
+func (n *Navigator) nextSegment() bool {
 	track := n.CurrentTrack()
-	if track == nil {
-		return Segment{}
-	}
-	if n.segmentIndex == track.NumSegments()-1 {
-		return Segment{}
+	if track == nil || n.segmentIndex >= track.NumSegments()-1 {
+		return false
 	}
-	segment := n.CurrentSegment()
 	n.currentSegmentDistance = 0
 	n.segmentIndex++
-	return segment
+	return true
 }
 
 func (n *Navigator) nextTrack() bool {
-- 
2.43.0


From b1647ad3a7f572463c19c91da1f399d466fe762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 13/34] fix: jump to the right track and segment

With three or more routes or tracks the indices were added up instead of
being set, so that a jump ended in a route or track that did not contain the
distance or did not exist. The progress in the route and track did not
match the position, and a jump to the very end left the last segment.
---
 navigator/navigator.go | 84 ++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 52 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index f89c7f3..ffa8c32 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -601,72 +601,52 @@ func (n *Navigator) jump(distance float64) bool {
 		return false
 	}
 
+	// Find the route, track and segment that contain the distance; those
+	// without length contain nothing.
 	var (
-		route        *Route
-		track        *Track
-		segment      Segment
-		trackIndex   int
+		found        bool
 		routeIndex   int
+		trackIndex   int
 		segmentIndex int
-		routeDist    float64
-		curRouteDist float64
-		curTrackDist float64
+		routeStart   float64
+		trackStart   float64
+		segmentStart float64
+		passed       float64
 	)
-
-	for i := 0; i < len(n.routes); i++ {
-		route = n.routes[i]
-		routeIndex += i
-		if route.dist+routeDist > distance {
-			break
-		}
-		routeDist += route.dist
-	}
-	if route == nil {
-		return false
-	}
-
-	for i := 0; i < route.NumTracks(); i++ {
-		track = route.TrackAt(i)
-		if track == nil {
-			continue
-		}
-		trackIndex += i
-		if track.dist+routeDist > distance {
-			break
-		}
-		curRouteDist += track.dist
-		routeDist += track.dist
-	}
-	if track == nil {
-		return false
-	}
-
-	for i := 0; i < track.NumSegments(); i++ {
-		segment = track.SegmentAt(i)
-		if segment.IsEmpty() {
-			continue
-		}
-		segmentIndex = i
-		if segment.dist+routeDist > distance {
-			break
+search:
+	for i, route := range n.routes {
+		start := passed
+		for j, track := range route.tracks {
+			first := passed
+			for k := range track.segments {
+				dist := track.segments[k].dist
+				if dist == 0 {
+					continue
+				}
+				found = true
+				routeIndex, trackIndex, segmentIndex = i, j, k
+				routeStart, trackStart, segmentStart = start, first, passed
+				if passed+dist > distance {
+					break search
+				}
+				passed += dist
+			}
 		}
-		routeDist += segment.dist
-		curRouteDist += segment.dist
-		curTrackDist += segment.dist
 	}
-	if segment.IsEmpty() {
+	if !found {
 		return false
 	}
 
-	diff := math.Abs(distance - routeDist)
+	segment := n.routes[routeIndex].tracks[trackIndex].segments[segmentIndex]
+	diff := math.Min(math.Max(0, distance-segmentStart), segment.dist)
 	n.point = segment.DestinationTo(diff)
 	n.routeIndex = routeIndex
 	n.trackIndex = trackIndex
 	n.segmentIndex = segmentIndex
 	n.currentSegmentDistance = diff
-	n.currentDistance = routeDist + diff
-	n.currentRouteDistance = curRouteDist + diff
-	n.currentTrackDistance = curTrackDist + diff
+	n.currentDistance = segmentStart + diff
+	n.currentRouteDistance = segmentStart + diff - routeStart
+	n.currentTrackDistance = segmentStart + diff - trackStart
 	return true
 }
 
-- 
2.43.0


From 5e261b34a7a9acc8bcdbcf131507d65b848bdece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:55 +0000
Subject: [PATCH 14/34] fix: follow edits of attached routes

Removing a track, or editing a route that a tracker already has, left
the total distance and the position of the tracker behind.
---
 device.go              | 10 +++++-----
 navigator/navigator.go | 43 ++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/device.go b/device.go
index b8f9a30..13436cc 100644
--- a/device.go
+++ b/device.go
@@ -646,6 +646,10 @@ func (d *Device) Next(tick float64) bool {
 		return false
 	}
 
+	if d.isNotValidNS(d.navigator.Sum()) {
+		d.updateRoutes()
+	}
+
 	seconds := tick + d.takeMissed()
 	d.state.Duration += seconds
 	d.state.Tick = seconds
@@ -684,11 +688,6 @@ func (d *Device) Next(tick float64) bool {
 		}
 	}
 
-	ns := d.navigator.Sum()
-	if d.isNotValidNS(ns) {
-		d.updateRoutes()
-	}
-
 	d.updateState()
 	return true
 }
@@ -867,6 +866,7 @@ func (d *Device) updateSensors() {
 }
 
 func (d *Device) updateRoutes() {
+	d.navigator.Sync()
 	d.state.Routes.Routes = make([]*pb.Device_Routes_Route, 0, d.navigator.NumRoutes())
 	for i := 0; i < d.navigator.NumRoutes(); i++ {
 		route := d.navigator.RouteAt(i)
diff --git a/navigator/navigator.go b/navigator/navigator.go
index ffa8c32..4b201c3 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -179,6 +179,7 @@ func (n *Navigator) RemoveTrack(routeID string, trackID string) bool {
 	ok := route.RemoveTrack(trackID)
 	if ok {
 		n.nextVersion()
+		n.Reset()
 	}
 	return ok
 }
@@ -333,6 +334,7 @@ func (n *Navigator) OfflineDuration() int {
 
 // Update updates the navigator's state in the provided Device proto message.
 func (n *Navigator) Update(state *proto.Device) {
+	n.Sync()
 	n.normalizeDeviceState(state)
 
 	state.Distance.Distance = n.distance
@@ -424,6 +426,7 @@ func (n *Navigator) MoveToSegment(routeIndex int, trackIndex int, segmentIndex i
 	if len(n.routes) == 0 {
 		return false
 	}
+	n.Sync()
 
 	if n.routeIndex == routeIndex &&
 		n.trackIndex == trackIndex &&
@@ -499,6 +502,7 @@ func (n *Navigator) NextLocation(tick float64, speed float64) (ok bool) {
 	if len(n.routes) == 0 {
 		return
 	}
+	n.Sync()
 
 	if ok := n.nextOffline(); ok {
 		return false
@@ -594,6 +598,7 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 }
 
 func (n *Navigator) jump(distance float64) bool {
+	n.Sync()
 	if distance > n.distance {
 		distance = n.distance
 	}
@@ -656,6 +661,36 @@ func (n *Navigator) Reset() {
 	n.calcRouteDistance()
 }
 
+// Sync starts over if tracks were added to or removed from a route of the navigator.
+func (n *Navigator) Sync() {
+	if n.distance != n.sumRouteDistance() || !n.hasPosition() {
+		n.Reset()
+	}
+}
+
+// hasPosition reports whether the indexes of the navigator are those of a
+// segment, or of a route or a track that is empty.
+func (n *Navigator) hasPosition() bool {
+	inside := func(index, num int) bool {
+		return index == 0 || (index > 0 && index < num)
+	}
+	if !inside(n.routeIndex, len(n.routes)) {
+		return false
+	}
+	route := n.CurrentRoute()
+	if route == nil {
+		return n.trackIndex == 0 && n.segmentIndex == 0
+	}
+	if !inside(n.trackIndex, route.NumTracks()) {
+		return false
+	}
+	track := route.TrackAt(n.trackIndex)
+	if track == nil {
+		return n.segmentIndex == 0
+	}
+	return inside(n.segmentIndex, track.NumSegments())
+}
+
 // updateDist adds a step of which the given part lies on the current segment.
 func (n *Navigator) updateDist(step, inSegment float64) {
 	n.currentDistance += step
@@ -713,10 +748,14 @@ func (n *Navigator) nextRoute() {
 }
 
 func (n *Navigator) calcRouteDistance() {
-	n.distance = 0
+	n.distance = n.sumRouteDistance()
+}
+
+func (n *Navigator) sumRouteDistance() (sum float64) {
 	for i := 0; i < len(n.routes); i++ {
-		n.distance += n.routes[i].dist
+		sum += n.routes[i].dist
 	}
+	return
 }
 
 func (n *Navigator) resetIndexes() {
-- 
2.43.0


From 2b016b42098efd2dee7a97212abd84974ff7dd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:49 +0000
Subject: [PATCH 15/34] fix: keep the state of a device in step with its
 navigator

Edits of routes, moves and ticks without movement left distances,
positions and the battery level of the published state behind.
---
 device.go              | 79 +++++++++++++++++++++++++++++++-----------
 navigator/navigator.go |  2 ++
 2 files changed, 60 insertions(+), 21 deletions(-)

diff --git a/device.go b/device.go
index 13436cc..4ec5dd1 100644
--- a/device.go
+++ b/device.go
@@ -321,9 +321,14 @@ func (d *Device) AddRoute(routes ...*navigator.Route) error {
 	d.mu.Lock()
 	defer d.mu.Unlock()
 
+	moved := d.navigator.NumRoutes() > 0
 	err := d.navigator.AddRoute(routes...)
 	if err == nil {
 		d.updateRoutes()
+		// the first step gives a new device its place on the route
+		if moved {
+			d.updateState()
+		}
 	}
 
 	return err
@@ -344,6 +349,7 @@ func (d *Device) RemoveRoute(routeID string) bool {
 	ok := d.navigator.RemoveRoute(routeID)
 	if ok {
 		d.updateRoutes()
+		d.updateState()
 	}
 	return ok
 }
@@ -356,6 +362,7 @@ func (d *Device) RemoveTrack(routeID, trackID string) bool {
 	ok := d.navigator.RemoveTrack(routeID, trackID)
 	if ok {
 		d.updateRoutes()
+		d.updateState()
 	}
 	return ok
 }
@@ -513,6 +520,7 @@ func (d *Device) ResetRoutes() bool {
 	ok := d.navigator.ResetRoutes()
 	if ok {
 		d.updateRoutes()
+		d.updateState()
 	}
 	return ok
 }
@@ -529,7 +537,11 @@ func (d *Device) Location() geo.LatLonPoint {
 func (d *Device) DestinationTo(meters float64) bool {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	return d.navigator.DestinationTo(meters)
+	ok := d.navigator.DestinationTo(meters)
+	if ok {
+		d.updateState()
+	}
+	return ok
 }
 
 // MoveToSegment updates the device's position to a specific segment within a track and route.
@@ -537,7 +549,11 @@ func (d *Device) DestinationTo(meters float64) bool {
 func (d *Device) MoveToSegment(routeIndex int, trackIndex int, segmentIndex int) bool {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	return d.navigator.MoveToSegment(routeIndex, trackIndex, segmentIndex)
+	ok := d.navigator.MoveToSegment(routeIndex, trackIndex, segmentIndex)
+	if ok {
+		d.updateState()
+	}
+	return ok
 }
 
 // MoveToTrack updates the device's position to a specific track within a route.
@@ -545,7 +561,11 @@ func (d *Device) MoveToSegment(routeIndex int, trackIndex int, segmentIndex int)
 func (d *Device) MoveToTrack(routeIndex int, trackIndex int) bool {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	return d.navigator.MoveToTrack(routeIndex, trackIndex)
+	ok := d.navigator.MoveToTrack(routeIndex, trackIndex)
+	if ok {
+		d.updateState()
+	}
+	return ok
 }
 
 // MoveToRoute updates the device's position to a specific route.
@@ -553,7 +573,11 @@ func (d *Device) MoveToTrack(routeIndex int, trackIndex int) bool {
 func (d *Device) MoveToRoute(routeIndex int) bool {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	return d.navigator.MoveToRoute(routeIndex)
+	ok := d.navigator.MoveToRoute(routeIndex)
+	if ok {
+		d.updateState()
+	}
+	return ok
 }
 
 // MoveToTrackByID updates the device's position to a specific track within a route, identified by IDs.
@@ -561,7 +585,11 @@ func (d *Device) MoveToRoute(routeIndex int) bool {
 func (d *Device) MoveToTrackByID(routeID string, trackID string) bool {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	return d.navigator.MoveToTrackByID(routeID, trackID)
+	ok := d.navigator.MoveToTrackByID(routeID, trackID)
+	if ok {
+		d.updateState()
+	}
+	return ok
 }
 
 // MoveToRouteByID updates the device's position to a specific route, identified by its ID.
@@ -569,7 +597,11 @@ func (d *Device) MoveToTrackByID(routeID string, trackID string) bool {
 func (d *Device) MoveToRouteByID(routeID string) bool {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	return d.navigator.MoveToRouteByID(routeID)
+	ok := d.navigator.MoveToRouteByID(routeID)
+	if ok {
+		d.updateState()
+	}
+	return ok
 }
 
 // ToPrevRoute updates the device's position to the previous route in the navigator.
@@ -577,7 +609,11 @@ func (d *Device) MoveToRouteByID(routeID string) bool {
 func (d *Device) ToPrevRoute() bool {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	return d.navigator.PrevRoute()
+	ok := d.navigator.PrevRoute()
+	if ok {
+		d.updateState()
+	}
+	return ok
 }
 
 // ToNextRoute updates the device's position to the next route in the navigator.
@@ -585,7 +621,11 @@ func (d *Device) ToPrevRoute() bool {
 func (d *Device) ToNextRoute() bool {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	return d.navigator.NextRoute()
+	ok := d.navigator.NextRoute()
+	if ok {
+		d.updateState()
+	}
+	return ok
 }
 
 // ToOffline sets the device's status to offline in the navigator.
@@ -594,6 +634,7 @@ func (d *Device) ToOffline() {
 	d.mu.Lock()
 	defer d.mu.Unlock()
 	d.navigator.ToOffline()
+	d.updateState()
 }
 
 // ResetNavigator resets the navigator for the device.
@@ -603,6 +644,7 @@ func (d *Device) ResetNavigator() {
 	d.mu.Lock()
 	defer d.mu.Unlock()
 	d.navigator.Reset()
+	d.updateState()
 }
 
 // RouteAt returns the route at the specified index in the navigator.
@@ -662,12 +704,8 @@ func (d *Device) Next(tick float64) bool {
 
 	t := d.nextT(seconds)
 	d.speed.Next(t)
-	nextSpeed := d.speed.Value()
-	d.state.Speed = nextSpeed
-
-	if ok := d.navigator.NextLocation(seconds, nextSpeed); !ok {
-		d.updateOfflineState()
 
+	if ok := d.navigator.NextLocation(seconds, d.speed.Value()); !ok {
 		if d.navigator.IsFinish() {
 			d.state.Duration = 0
 			d.speed.Shuffle()
@@ -675,8 +713,8 @@ func (d *Device) Next(tick float64) bool {
 			for i := 0; i < len(d.sensors); i++ {
 				d.sensors[i].Shuffle()
 			}
-			d.updateState()
 		}
+		d.updateState()
 		return false
 	}
 
@@ -763,7 +801,6 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.navigator.FromSnapshot(snap.Navigator)
 	d.speed = new(types.Speed)
 	d.speed.FromSnapshot(snap.Speed)
-	d.state.Speed = d.speed.Value()
 	d.battery = new(types.Battery)
 	d.battery.FromSnapshot(snap.Battery)
 	if len(snap.Sensors) > 0 {
@@ -835,7 +872,11 @@ func (d *Device) updateState() {
 	d.navigator.Update(d.state)
 	d.state.Battery.Charge = d.battery.Value()
 	d.state.Battery.ChargeTime = int64(d.battery.ChargeTime().Seconds())
-	d.state.TimeEstimate = d.state.Distance.Distance / d.state.Speed
+	d.state.Speed = d.speed.Value()
+	d.state.TimeEstimate = 0
+	if d.state.Speed > 0 {
+		d.state.TimeEstimate = d.state.Distance.Distance / d.state.Speed
+	}
 	if len(d.sensors) != len(d.state.Sensors) {
 		d.updateSensors()
 	} else {
@@ -847,11 +888,6 @@ func (d *Device) updateState() {
 	}
 }
 
-func (d *Device) updateOfflineState() {
-	d.state.OfflineDuration = int64(d.navigator.OfflineDuration())
-	d.state.IsOffline = d.navigator.IsOffline()
-}
-
 func (d *Device) updateSensors() {
 	d.state.Sensors = make([]*pb.Device_Sensor, 0, len(d.sensors))
 	for i := 0; i < len(d.sensors); i++ {
@@ -900,6 +936,7 @@ func (d *Device) updateRoutes() {
 				PropsCount: int64(len(route.Props())),
 			})
 	}
+	d.state.Distance.Distance = d.navigator.Distance()
 	d.calcAvgT()
 	d.ns = d.navigator.Sum()
 }
diff --git a/navigator/navigator.go b/navigator/navigator.go
index 4b201c3..1fdc6d7 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -349,6 +349,8 @@ func (n *Navigator) Update(state *proto.Device) {
 	state.Navigator.CurrentRouteIndex = int64(n.routeIndex)
 	state.Navigator.CurrentTrackIndex = int64(n.trackIndex)
 	state.Navigator.CurrentSegmentIndex = int64(n.segmentIndex)
+	state.Navigator.CurrentRouteId = ""
+	state.Navigator.CurrentTrackId = ""
 	if route := n.CurrentRoute(); route != nil {
 		state.Navigator.CurrentRouteId = route.ID()
 	}
-- 
2.43.0


From 74fd395412e7f2b53af8639458343e66f6ef1b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:29 +0000
Subject: [PATCH 16/34] fix: measure the distance of opposite points

Rounding took the haversine beyond 1, which made the distance NaN.
---
 geo/distance.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geo/distance.go b/geo/distance.go
index 7ed99c1..95e92e4 100644
--- a/geo/distance.go
+++ b/geo/distance.go
@@ -34,5 +34,6 @@ func DistanceToHaversine(meters float64) float64 {
 
 // DistanceFromHaversine converts a haversine value to a distance in meters.
 func DistanceFromHaversine(haversine float64) float64 {
-	return earthRadius * 2 * math.Asin(math.Sqrt(haversine))
+	// rounding takes the haversine of opposite points beyond 1
+	return earthRadius * 2 * math.Asin(math.Sqrt(math.Min(haversine, 1)))
 }
-- 
2.43.0


From ffb7b908c28250d0ec33467e379bff60cc8c4a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:29 +0000
Subject: [PATCH 17/34] fix: reject damaged snapshots

Decoding an incomplete or damaged tracker, sensor or route panicked, or
gave objects that panic later. It is an error now that leaves the object
as it is; sensors that the snapshot does not have are removed, a running
device stays running, and tracks of points that are no numbers are
rejected.
---
 curve/curve.go                   | 37 ++++++++++--
 device.go                        | 66 +++++++++++++++-------
 io.go                            |  8 ++-
 navigator/errors.go              |  3 +
 navigator/navigator.go           | 97 +++++++++++++++++++++++---------
 navigator/route.go               |  7 ++-
 navigator/route_track.go         | 18 +++++-
 navigator/route_track_segment.go | 26 ++++++++-
 types/battery.go                 |  7 ++-
 types/sensor.go                  | 14 ++++-
 types/speed.go                   | 15 ++++-
 types/validator.go               | 17 +++++-
 12 files changed, 249 insertions(+), 66 deletions(-)

diff --git a/curve/curve.go b/curve/curve.go
index c49075a..7e4b08d 100644
--- a/curve/curve.go
+++ b/curve/curve.go
@@ -1,6 +1,9 @@
 package curve
 
 import (
+	"errors"
+	"math"
+
 	"github.com/mmadfox/go-gpsgen/proto"
 	"github.com/mmadfox/go-gpsgen/random"
 )
@@ -14,6 +17,9 @@ const (
 	ModeMinEnd
 )
 
+// ErrInvalidSnapshot indicates that a curve cannot be restored from the snapshot.
+var ErrInvalidSnapshot = errors.New("curve: invalid snapshot")
+
 var rnd = random.NewRandom()
 
 // Point represents a point in 2D space.
@@ -128,17 +134,36 @@ func (c *Curve) Snapshot() *proto.Snapshot_Curve {
 }
 
 // FromSnapshot restores the curve's state from a snapshot.
-func (c *Curve) FromSnapshot(snap *proto.Snapshot_Curve) {
+// An invalid snapshot is an error and leaves the curve as it is.
+func (c *Curve) FromSnapshot(snap *proto.Snapshot_Curve) error {
+	if len(snap.GetPoints()) == 0 || !isFinite(snap.Min, snap.Max) {
+		return ErrInvalidSnapshot
+	}
+	points := make([]point, len(snap.Points))
+	for i, p := range snap.Points {
+		if p.GetVp() == nil || p.GetCp() == nil ||
+			!isFinite(p.Vp.X, p.Vp.Y, p.Cp.X, p.Cp.Y) {
+			return ErrInvalidSnapshot
+		}
+		points[i] = point{
+			vp: Point{X: p.Vp.X, Y: p.Vp.Y},
+			cp: Point{X: p.Cp.X, Y: p.Cp.Y},
+		}
+	}
 	c.mode = int(snap.Mode)
 	c.min = snap.Min
 	c.max = snap.Max
-	c.points = make([]point, len(snap.Points))
-	for i := 0; i < len(snap.Points); i++ {
-		c.points[i] = point{
-			vp: Point{X: snap.Points[i].Vp.X, Y: snap.Points[i].Vp.Y},
-			cp: Point{X: snap.Points[i].Cp.X, Y: snap.Points[i].Cp.Y},
+	c.points = points
+	return nil
+}
+
+func isFinite(values ...float64) bool {
+	for _, v := range values {
+		if math.IsNaN(v) || math.IsInf(v, 0) {
+			return false
 		}
 	}
+	return true
 }
 
 const defaultControlPoint = 4
diff --git a/device.go b/device.go
index 4ec5dd1..c0b0924 100644
--- a/device.go
+++ b/device.go
@@ -749,8 +749,7 @@ func (d *Device) UnmarshalBinary(data []byte) error {
 	if err := proto.Unmarshal(data, snap); err != nil {
 		return err
 	}
-	d.FromSnapshot(snap)
-	return nil
+	return d.FromSnapshot(snap)
 }
 
 // Snapshot creates and returns a snapshot of the device's current state.
@@ -783,8 +782,43 @@ func (d *Device) Snapshot() *pb.Snapshot {
 
 // FromSnapshot updates the device's state using the provided snapshot data.
 // It populates the device's state with the values
-// from the snapshot, including device information, status, navigator, speed, battery, and sensors.
-func (d *Device) FromSnapshot(snap *pb.Snapshot) {
+// from the snapshot, including device information, navigator, speed, battery, and sensors.
+// An invalid snapshot is an error and leaves the device as it is.
+func (d *Device) FromSnapshot(snap *pb.Snapshot) error {
+	if snap.GetNavigator() == nil {
+		return fmt.Errorf("gpsgen: invalid snapshot data")
+	}
+	if math.IsNaN(snap.Duration) || math.IsInf(snap.Duration, 0) ||
+		math.IsNaN(snap.Tick) || math.IsInf(snap.Tick, 0) {
+		return fmt.Errorf("gpsgen: invalid snapshot data")
+	}
+
+	nav := new(navigator.Navigator)
+	if err := nav.FromSnapshot(snap.Navigator); err != nil {
+		return err
+	}
+	speed := new(types.Speed)
+	if err := speed.FromSnapshot(snap.Speed); err != nil {
+		return err
+	}
+	battery := new(types.Battery)
+	if err := battery.FromSnapshot(snap.Battery); err != nil {
+		return err
+	}
+	var sensors []*types.Sensor
+	ids := make(map[string]bool)
+	for i := 0; i < len(snap.Sensors); i++ {
+		sensor := new(types.Sensor)
+		if err := sensor.FromSnapshot(snap.Sensors[i]); err != nil {
+			return err
+		}
+		if ids[sensor.ID()] {
+			return fmt.Errorf("gpsgen: invalid snapshot data")
+		}
+		ids[sensor.ID()] = true
+		sensors = append(sensors, sensor)
+	}
+
 	d.mu.Lock()
 	defer d.mu.Unlock()
 
@@ -796,24 +830,18 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.state.Color = snap.Color
 	d.state.Description = snap.Descr
 	d.state.Duration = snap.Duration
-	d.status = Status(snap.Status)
-	d.navigator = new(navigator.Navigator)
-	d.navigator.FromSnapshot(snap.Navigator)
-	d.speed = new(types.Speed)
-	d.speed.FromSnapshot(snap.Speed)
-	d.battery = new(types.Battery)
-	d.battery.FromSnapshot(snap.Battery)
-	if len(snap.Sensors) > 0 {
-		d.sensors = make([]*types.Sensor, len(snap.Sensors))
-		for i := 0; i < len(snap.Sensors); i++ {
-			sensor := new(types.Sensor)
-			sensor.FromSnapshot(snap.Sensors[i])
-			d.sensors[i] = sensor
-		}
-	}
+	if d.status != Running {
+		d.status = Stopped
+	}
+	d.takeMissed()
+	d.navigator = nav
+	d.speed = speed
+	d.battery = battery
+	d.sensors = sensors
 	d.updateSensors()
 	d.updateState()
 	d.updateRoutes()
+	return nil
 }
 
 // NewSensor creates a new Sensor instance with the given name,
diff --git a/io.go b/io.go
index 62d355e..8a78781 100644
--- a/io.go
+++ b/io.go
@@ -58,7 +58,9 @@ func DecodeSensors(data []byte) ([]*types.Sensor, error) {
 	sensors := make([]*types.Sensor, len(pbsensors.Sensors))
 	for i := 0; i < len(pbsensors.Sensors); i++ {
 		sensor := new(types.Sensor)
-		sensor.FromSnapshot(pbsensors.Sensors[i])
+		if err := sensor.FromSnapshot(pbsensors.Sensors[i]); err != nil {
+			return nil, err
+		}
 		sensors[i] = sensor
 	}
 	return sensors, nil
@@ -90,7 +92,9 @@ func DecodeRoutes(data []byte) ([]*navigator.Route, error) {
 	routes := make([]*navigator.Route, len(pbroutes.Routes))
 	for i := 0; i < len(pbroutes.Routes); i++ {
 		route := new(navigator.Route)
-		route.RouteFromSnapshot(pbroutes.Routes[i])
+		if err := route.RouteFromSnapshot(pbroutes.Routes[i]); err != nil {
+			return nil, err
+		}
 		routes[i] = route
 	}
 	return routes, nil
diff --git a/navigator/errors.go b/navigator/errors.go
index bc461e7..12d4520 100644
--- a/navigator/errors.go
+++ b/navigator/errors.go
@@ -11,5 +11,8 @@ var ErrTrackNotFound = errors.New("gpsgen/navigator: track not found")
 // ErrRouteNotFound indicates that a specified route was not found.
 var ErrRouteNotFound = errors.New("gpsgen/navigator: route not found")
 
+// ErrInvalidSnapshot indicates that an object cannot be restored from the snapshot.
+var ErrInvalidSnapshot = errors.New("gpsgen/navigator: invalid snapshot")
+
 // ErrInvalidRoutePath indicates that a route has an invalid or too short path.
 var ErrInvalidRoutePath = errors.New("gpsgen/navigator: route is too short")
diff --git a/navigator/navigator.go b/navigator/navigator.go
index 1fdc6d7..1c1cdfe 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -567,36 +567,81 @@ func (n *Navigator) Snapshot() *proto.Snapshot_Navigator {
 }
 
 // FromSnapshot restores the navigator's state from a snapshot.
-func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
+// An invalid snapshot is an error and leaves the navigator as it is.
+func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) error {
 	if snap == nil {
-		return
+		return nil
 	}
-	n.routes = make([]*Route, len(snap.Routes))
+	if err := validateSnapshot(snap); err != nil {
+		return err
+	}
+	nav := Navigator{
+		routes:                 make([]*Route, len(snap.Routes)),
+		routeIndex:             int(snap.RouteIndex),
+		trackIndex:             int(snap.TrackIndex),
+		segmentIndex:           int(snap.SegmentIndex),
+		currentSegmentDistance: snap.CurrentSegmentDistance,
+		currentRouteDistance:   snap.CurrentRouteDistance,
+		currentTrackDistance:   snap.CurrentTrackDistance,
+		currentDistance:        snap.CurrentDistance,
+		offlineIndex:           int(snap.OfflineIndex),
+		point:                  geo.LatLonPoint{Lon: snap.Point.Lon, Lat: snap.Point.Lat},
+		elevation:              new(types.Sensor),
+		distance:               snap.Distance,
+		skipOffline:            snap.SkipOffline,
+		version:                int(snap.Version),
+	}
+	ids := make(map[string]bool)
 	for i := 0; i < len(snap.Routes); i++ {
 		route := new(Route)
-		route.RouteFromSnapshot(snap.Routes[i])
-		n.routes[i] = route
-	}
-	n.routeIndex = int(snap.RouteIndex)
-	n.trackIndex = int(snap.TrackIndex)
-	n.segmentIndex = int(snap.SegmentIndex)
-	n.currentSegmentDistance = snap.CurrentSegmentDistance
-	n.currentRouteDistance = snap.CurrentRouteDistance
-	n.currentTrackDistance = snap.CurrentTrackDistance
-	n.currentDistance = snap.CurrentDistance
-	n.offlineIndex = int(snap.OfflineIndex)
-	n.point = geo.LatLonPoint{
-		Lon: snap.Point.Lon,
-		Lat: snap.Point.Lat,
-	}
-	n.elevation = new(types.Sensor)
-	n.elevation.FromSnapshot(snap.Elevation)
-	if !n.skipOffline {
-		n.offline = types.NewRandom(int(snap.OfflineMin), int(snap.OfflineMax))
-	}
-	n.distance = snap.Distance
-	n.skipOffline = snap.SkipOffline
-	n.version = int(snap.Version)
+		if err := route.RouteFromSnapshot(snap.Routes[i]); err != nil {
+			return err
+		}
+		if ids[route.id] {
+			return ErrInvalidSnapshot
+		}
+		ids[route.id] = true
+		nav.routes[i] = route
+	}
+	if err := nav.elevation.FromSnapshot(snap.Elevation); err != nil {
+		return err
+	}
+	if !nav.skipOffline {
+		nav.offline = types.NewRandom(int(snap.OfflineMin), int(snap.OfflineMax))
+	}
+	if !nav.hasPosition() {
+		return ErrInvalidSnapshot
+	}
+	*n = nav
+	return nil
+}
+
+func validateSnapshot(snap *proto.Snapshot_Navigator) error {
+	if snap.Point == nil || !isFinite(
+		snap.Point.Lat,
+		snap.Point.Lon,
+		snap.Distance,
+		snap.CurrentDistance,
+		snap.CurrentRouteDistance,
+		snap.CurrentTrackDistance,
+		snap.CurrentSegmentDistance,
+	) {
+		return ErrInvalidSnapshot
+	}
+	if snap.CurrentDistance < 0 ||
+		snap.CurrentRouteDistance < 0 ||
+		snap.CurrentTrackDistance < 0 ||
+		snap.CurrentSegmentDistance < 0 {
+		return ErrInvalidSnapshot
+	}
+	if snap.OfflineMin < MinOffline || snap.OfflineMax > MaxOffline ||
+		snap.OfflineMin > snap.OfflineMax {
+		return ErrInvalidSnapshot
+	}
+	if snap.OfflineIndex < 0 || snap.OfflineIndex > snap.OfflineMax {
+		return ErrInvalidSnapshot
+	}
+	return nil
 }
 
 func (n *Navigator) jump(distance float64) bool {
diff --git a/navigator/route.go b/navigator/route.go
index 69e9b0b..fd67cda 100644
--- a/navigator/route.go
+++ b/navigator/route.go
@@ -201,10 +201,15 @@ func (r *Route) RouteFromSnapshot(snap *RouteSnapshot) error {
 	if snap == nil {
 		return nil
 	}
+	if snap.Distance < 0 || !isFinite(snap.Distance) {
+		return ErrInvalidSnapshot
+	}
 	tracks := make([]*Track, len(snap.Tracks))
 	for i := 0; i < len(snap.Tracks); i++ {
 		track := new(Track)
-		TrackFromSnapshot(track, snap.Tracks[i])
+		if err := TrackFromSnapshot(track, snap.Tracks[i]); err != nil {
+			return err
+		}
 		tracks[i] = track
 	}
 	var props properties.Properties
diff --git a/navigator/route_track.go b/navigator/route_track.go
index d283e05..aae684d 100644
--- a/navigator/route_track.go
+++ b/navigator/route_track.go
@@ -154,14 +154,25 @@ func (t *Track) nextVersion() {
 }
 
 // TrackFromSnapshot restores a track from a snapshot.
-func TrackFromSnapshot(track *Track, snap *TrackSnapshot) {
+// An invalid snapshot is an error and leaves the track as it is.
+func TrackFromSnapshot(track *Track, snap *TrackSnapshot) error {
 	if track == nil || snap == nil {
-		return
+		return nil
+	}
+	if len(snap.Segmenets) == 0 || snap.Distance < 0 || !isFinite(snap.Distance) {
+		return ErrInvalidSnapshot
+	}
+	for i := 0; i < len(snap.Segmenets); i++ {
+		if err := validateSegmentSnapshot(snap.Segmenets[i]); err != nil {
+			return err
+		}
 	}
 	var props properties.Properties
 	if len(snap.Props) > 0 {
 		props = properties.Make()
-		_ = json.Unmarshal(snap.Props, &props)
+		if err := json.Unmarshal(snap.Props, &props); err != nil {
+			return err
+		}
 	}
 	track.id = snap.Id
 	track.color = snap.Color
@@ -174,6 +185,7 @@ func TrackFromSnapshot(track *Track, snap *TrackSnapshot) {
 	}
 	track.name.value = snap.Name
 	track.version = int(snap.Version)
+	return nil
 }
 
 func isClosed(points []geo.LatLonPoint) bool {
diff --git a/navigator/route_track_segment.go b/navigator/route_track_segment.go
index ada403f..4ec10dc 100644
--- a/navigator/route_track_segment.go
+++ b/navigator/route_track_segment.go
@@ -1,6 +1,8 @@
 package navigator
 
 import (
+	"math"
+
 	"github.com/mmadfox/go-gpsgen/geo"
 	"github.com/mmadfox/go-gpsgen/proto"
 )
@@ -74,8 +76,9 @@ func (s Segment) Snapshot() *SegmentSnapshot {
 }
 
 // SegmentFromSnapshot restores a segment from a snapshot.
+// An incomplete snapshot yields an empty segment.
 func SegmentFromSnapshot(snap *SegmentSnapshot) Segment {
-	if snap == nil {
+	if snap.GetPointA() == nil || snap.GetPointB() == nil {
 		return Segment{}
 	}
 	return Segment{
@@ -88,6 +91,24 @@ func SegmentFromSnapshot(snap *SegmentSnapshot) Segment {
 	}
 }
 
+func validateSegmentSnapshot(snap *SegmentSnapshot) error {
+	a, b := snap.GetPointA(), snap.GetPointB()
+	if a == nil || b == nil || snap.Distance < 0 ||
+		!isFinite(a.Lat, a.Lon, b.Lat, b.Lon, snap.Distance, snap.Bearing) {
+		return ErrInvalidSnapshot
+	}
+	return nil
+}
+
+func isFinite(values ...float64) bool {
+	for _, v := range values {
+		if math.IsNaN(v) || math.IsInf(v, 0) {
+			return false
+		}
+	}
+	return true
+}
+
 func (s Segment) hasRelation() bool {
 	return s.rel != -1
 }
@@ -117,6 +138,9 @@ func makeSegments(points []geo.LatLonPoint) ([]Segment, float64, error) {
 			newSeg.pointA.Lon,
 			newSeg.pointB.Lat,
 			newSeg.pointB.Lon)
+		if !isFinite(newSeg.dist, newSeg.bearing) {
+			return nil, 0, ErrInvalidRoutePath
+		}
 		segments = append(segments, newSeg)
 		dist += newSeg.dist
 	}
diff --git a/types/battery.go b/types/battery.go
index 73b878c..6999da3 100644
--- a/types/battery.go
+++ b/types/battery.go
@@ -116,9 +116,14 @@ func (t *Battery) Snapshot() *proto.Snapshot_BatteryType {
 }
 
 // FromSnapshot restores the Battery instance from a protobuf snapshot.
-func (t *Battery) FromSnapshot(snap *proto.Snapshot_BatteryType) {
+// An invalid snapshot is an error and leaves the battery as it is.
+func (t *Battery) FromSnapshot(snap *proto.Snapshot_BatteryType) error {
+	if snap == nil || !isFinite(snap.Min, snap.Max, snap.Val) {
+		return ErrInvalidSnapshot
+	}
 	t.min = snap.Min
 	t.max = snap.Max
 	t.val = snap.Val
 	t.chargeTime = time.Duration(snap.ChargeTime)
+	return nil
 }
diff --git a/types/sensor.go b/types/sensor.go
index 39ea461..6c2b2a1 100644
--- a/types/sensor.go
+++ b/types/sensor.go
@@ -167,13 +167,21 @@ func (t *Sensor) Snapshot() *SensorSnapshot {
 }
 
 // FromSnapshot restores the Sensor instance from a protobuf snapshot.
-func (t *Sensor) FromSnapshot(snap *SensorSnapshot) {
+// An invalid snapshot is an error and leaves the sensor as it is.
+func (t *Sensor) FromSnapshot(snap *SensorSnapshot) error {
+	if snap == nil || !isFinite(snap.Min, snap.Max, snap.ValX, snap.ValY) {
+		return ErrInvalidSnapshot
+	}
+	gen := new(curve.Curve)
+	if err := gen.FromSnapshot(snap.Gen); err != nil {
+		return err
+	}
 	t.id = snap.Id
 	t.name = snap.Name
 	t.min = snap.Min
 	t.max = snap.Max
 	t.valX = snap.ValX
 	t.valY = snap.ValY
-	t.gen = new(curve.Curve)
-	t.gen.FromSnapshot(snap.Gen)
+	t.gen = gen
+	return nil
 }
diff --git a/types/speed.go b/types/speed.go
index f3a5744..3d8eaea 100644
--- a/types/speed.go
+++ b/types/speed.go
@@ -117,12 +117,21 @@ func (t *Speed) Snapshot() *proto.Snapshot_CommonType {
 }
 
 // FromSnapshot restores the Speed instance from a protobuf snapshot.
-func (t *Speed) FromSnapshot(snap *proto.Snapshot_CommonType) {
+// An invalid snapshot is an error and leaves the speed as it is.
+func (t *Speed) FromSnapshot(snap *proto.Snapshot_CommonType) error {
+	if snap == nil || !isFinite(snap.Min, snap.Max, snap.Val) ||
+		snap.Min < MinSpeedVal || snap.Max > MaxSpeedVal || snap.Min > snap.Max {
+		return ErrInvalidSnapshot
+	}
+	gen := new(curve.Curve)
+	if err := gen.FromSnapshot(snap.Gen); err != nil {
+		return err
+	}
 	t.min = snap.Min
 	t.max = snap.Max
 	t.val = snap.Val
-	t.gen = new(curve.Curve)
-	t.gen.FromSnapshot(snap.Gen)
+	t.gen = gen
+	return nil
 }
 
 func (t *Speed) isStatic() bool {
diff --git a/types/validator.go b/types/validator.go
index 2a34dfb..ca58044 100644
--- a/types/validator.go
+++ b/types/validator.go
@@ -1,12 +1,18 @@
 package types
 
-import "errors"
+import (
+	"errors"
+	"math"
+)
 
 const (
 	minAmplitude = 4
 	maxAmplitude = 512
 )
 
+// ErrInvalidSnapshot indicates that a value cannot be restored from the snapshot.
+var ErrInvalidSnapshot = errors.New("types: invalid snapshot")
+
 var (
 	// ErrMinAmplitude indicates that the amplitude value is less than 4.
 	ErrMinAmplitude = errors.New("types/amplitude: value is less than 4")
@@ -27,3 +33,12 @@ func validateAmplitude(val int) error {
 func validateSensorMode(mode SensorMode) bool {
 	return mode > 0
 }
+
+func isFinite(values ...float64) bool {
+	for _, v := range values {
+		if math.IsNaN(v) || math.IsInf(v, 0) {
+			return false
+		}
+	}
+	return true
+}
-- 
2.43.0


From 9905bad80e2042ba5d0797657a8b4d47d490c6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 18/34] fix: keep the state of a device in step with its
 navigator (new routes)

---
 device.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/device.go b/device.go
index c0b0924..fef1379 100644
--- a/device.go
+++ b/device.go
@@ -321,12 +321,11 @@ func (d *Device) AddRoute(routes ...*navigator.Route) error {
 	d.mu.Lock()
 	defer d.mu.Unlock()
 
-	moved := d.navigator.NumRoutes() > 0
 	err := d.navigator.AddRoute(routes...)
 	if err == nil {
 		d.updateRoutes()
 		// the first step gives a new device its place on the route
-		if moved {
+		if d.state.Tick > 0 {
 			d.updateState()
 		}
 	}
-- 
2.43.0


From bb2a291e6c915493857005a71ec65cb50379ac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:25 +0000
Subject: [PATCH 19/34] fix: give every GeoJSON track its own identity

All tracks of a route came back with the identity of the first one and
without their names; null features and geometries panicked.
---
 geojson/encoding.go | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index 442db31..fd9707d 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -27,15 +27,24 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 }
 
 // Decode converts GeoJSON data into a slice of navigator.Routes.
-func Decode(data []byte) ([]*navigator.Route, error) {
+func Decode(data []byte) (routes []*navigator.Route, err error) {
+	// the parser panics on geometry collections with null in them
+	defer func() {
+		if r := recover(); r != nil {
+			routes, err = nil, fmt.Errorf("gpsgen/geojson: %v", r)
+		}
+	}()
 	fc := geojson.NewFeatureCollection()
 	if err := json.Unmarshal(data, &fc); err != nil {
 		return nil, err
 	}
-	routes := make([]*navigator.Route, 0, len(fc.Features))
+	if fc == nil {
+		return nil, ErrNoRoutes
+	}
+	routes = make([]*navigator.Route, 0, len(fc.Features))
 	for i := 0; i < len(fc.Features); i++ {
 		feature := fc.Features[i]
-		if feature.Type != "Feature" {
+		if feature == nil || feature.Type != "Feature" {
 			continue
 		}
 		var (
@@ -140,13 +149,29 @@ func parseGeometries(route *navigator.Route, tracks []trackInfo, geom orb.Geomet
 	}
 
 	for i := 0; i < len(collection); i++ {
-		if err := parseGeometry(route, tracks, collection[i]); err != nil {
+		var info []trackInfo
+		if tracks != nil {
+			info = tracks[i : i+1]
+		}
+		if err := parseGeometry(route, info, collection[i]); err != nil {
 			return err
 		}
 	}
 	return nil
 }
 
+func restoreTrack(info trackInfo, points []geo.LatLonPoint) (*navigator.Track, error) {
+	track, err := navigator.RestoreTrack(info.ID, info.Color, points)
+	if err != nil {
+		return nil, err
+	}
+	if len(info.Name) > 0 {
+		_ = track.ChangeName(info.Name)
+	}
+	track.Props().Merge(info.Props)
+	return track, nil
+}
+
 func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geometry) (err error) {
 	trackExists := len(tracks) > 0
 	switch geom := geometry.(type) {
@@ -156,9 +181,7 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 		if !trackExists {
 			track, err = navigator.NewTrack(toPoints(geom))
 		} else {
-			trackInfo := tracks[0]
-			track, err = navigator.RestoreTrack(trackInfo.ID, trackInfo.Color, toPoints(geom))
-			track.Props().Merge(trackInfo.Props)
+			track, err = restoreTrack(tracks[0], toPoints(geom))
 		}
 		if err != nil {
 			return err
@@ -184,9 +207,7 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 		if !trackExists {
 			track, err = navigator.NewTrack(toPoints(geom[0]))
 		} else {
-			trackInfo := tracks[0]
-			track, err = navigator.RestoreTrack(trackInfo.ID, trackInfo.Color, toPoints(geom[0]))
-			track.Props().Merge(trackInfo.Props)
+			track, err = restoreTrack(tracks[0], toPoints(geom[0]))
 		}
 		if err != nil {
 			return err
@@ -214,6 +235,8 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 			return err
 		}
 		route.AddTrack(track)
+	case nil:
+		err = ErrInvalidGeometryType
 	default:
 		err = fmt.Errorf("%w - %s", ErrInvalidGeometryType, geom.GeoJSONType())
 	}
-- 
2.43.0


From 72baebfddc9c2245777ff73087d949b64d31ebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:25 +0000
Subject: [PATCH 20/34] fix: keep GeoJSON properties apart from the data of the
 route

A property named like one of the fields of a route, name or color for
example, replaced that field.
---
 geojson/encoding.go           | 38 ++++++++++++++++++++++++-----------
 geojson/feature_collection.go |  3 ++-
 properties/reserved.go        | 30 +++++++++++++++++++++++++++
 3 files changed, 58 insertions(+), 13 deletions(-)
 create mode 100644 properties/reserved.go

diff --git a/geojson/encoding.go b/geojson/encoding.go
index fd9707d..77f69fa 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -58,13 +58,11 @@ func Decode(data []byte) (routes []*navigator.Route, err error) {
 			if err != nil {
 				return nil, err
 			}
-			resetProps(feature.Properties)
 		} else {
 			route = navigator.NewRoute()
+			parseProperties(route, feature.Properties)
 		}
 
-		parseProperties(route, feature.Properties)
-
 		if err := parseGeometries(route, tracksInfo, feature.Geometry); err != nil {
 			return nil, err
 		}
@@ -110,21 +108,37 @@ func restoreRoute(props map[string]interface{}) (*navigator.Route, []trackInfo,
 		}
 		tracksInfo[i] = ti
 	}
-	route := navigator.RestoreRoute(routeID, color, p)
+	routeProps := properties.Make()
+	for k, v := range props {
+		if !isReserved(k) {
+			routeProps[properties.Unescape(k, reservedProps...)] = v
+		}
+	}
+	route := navigator.RestoreRoute(routeID, color, routeProps)
 	if len(name) > 0 {
 		_ = route.ChangeName(name)
 	}
 	return route, tracksInfo, nil
 }
 
-func resetProps(props map[string]interface{}) {
-	delete(props, "routeID")
-	delete(props, "color")
-	delete(props, "distance")
-	delete(props, "tracksInfo")
-	delete(props, "numTracks")
-	delete(props, "name")
-	delete(props, "units")
+// reservedProps are the properties of a feature that describe the route.
+var reservedProps = []string{
+	"routeID",
+	"color",
+	"distance",
+	"tracksInfo",
+	"numTracks",
+	"name",
+	"units",
+}
+
+func isReserved(key string) bool {
+	for i := 0; i < len(reservedProps); i++ {
+		if reservedProps[i] == key {
+			return true
+		}
+	}
+	return false
 }
 
 func parseProperties(route *navigator.Route, props map[string]interface{}) {
diff --git a/geojson/feature_collection.go b/geojson/feature_collection.go
index 9270fec..d81fcc4 100644
--- a/geojson/feature_collection.go
+++ b/geojson/feature_collection.go
@@ -2,6 +2,7 @@ package geojson
 
 import (
 	"github.com/mmadfox/go-gpsgen/navigator"
+	"github.com/mmadfox/go-gpsgen/properties"
 	"github.com/paulmach/orb"
 	"github.com/paulmach/orb/geojson"
 )
@@ -60,7 +61,7 @@ func ToFeatureCollection(routes []*navigator.Route) *geojson.FeatureCollection {
 		feature.Properties["distance"] = route.Distance()
 		feature.Properties["units"] = "meters"
 		for k, v := range route.Props() {
-			feature.Properties[k] = v
+			feature.Properties[properties.Escape(k, reservedProps...)] = v
 		}
 		fc.Append(feature)
 	}
diff --git a/properties/reserved.go b/properties/reserved.go
new file mode 100644
index 0000000..6a12404
--- /dev/null
+++ b/properties/reserved.go
@@ -0,0 +1,30 @@
+package properties
+
+import "strings"
+
+// Escape returns the name under which a property is stored next to data
+// with reserved names: a reserved name gets a leading underscore.
+func Escape(key string, reserved ...string) string {
+	if isReserved(key, reserved) {
+		return "_" + key
+	}
+	return key
+}
+
+// Unescape returns the name of a property that Escape has renamed.
+func Unescape(key string, reserved ...string) string {
+	if strings.HasPrefix(key, "_") && isReserved(key, reserved) {
+		return key[1:]
+	}
+	return key
+}
+
+func isReserved(key string, reserved []string) bool {
+	key = strings.TrimLeft(key, "_")
+	for i := 0; i < len(reserved); i++ {
+		if reserved[i] == key {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From fabf27609fa97654abc5e2b2aee6fd5ccf4b85ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:55 +0000
Subject: [PATCH 21/34] fix: write and read GPX routes without loss

Properties of tracks were never written, names and identities that look
like numbers or booleans and properties named like a field of the route
were lost, texts were turned into numbers that print differently,
coordinates that are multiples of ten came back divided by ten, and a
route without tracks made the document unreadable.
---
 gpx/encoding.go | 115 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 80 insertions(+), 35 deletions(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 584a28e..b4218ce 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -4,7 +4,9 @@ import (
 	"encoding/xml"
 	"errors"
 	"fmt"
+	"sort"
 	"strconv"
+	"strings"
 
 	"github.com/mmadfox/go-gpsgen/geo"
 	"github.com/mmadfox/go-gpsgen/navigator"
@@ -34,6 +36,9 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 	// map: tracks=routes, segments=tracks
 	for i := 0; i < len(routes); i++ {
 		route := routes[i]
+		if route.NumTracks() == 0 {
+			continue
+		}
 		gpxTrack := gpx.GPXTrack{
 			Segments: make([]gpx.GPXTrackSegment, 0, route.NumTracks()),
 		}
@@ -46,9 +51,11 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 		routeNode.SetAttr("color", route.Color())
 		routeNode.SetAttr("distance", f2s(route.Distance()))
 		routeNode.SetAttr("units", "meters")
-		if attrs := makeAttrs(route.Props()); len(attrs) > 0 {
-			routeNode.Attrs = append(routeNode.Attrs, attrs...)
+		attrs, err := makeAttrs(route.Props())
+		if err != nil {
+			return nil, err
 		}
+		routeNode.Attrs = append(routeNode.Attrs, attrs...)
 
 		for j := 0; j < route.NumTracks(); j++ {
 			track := route.TrackAt(j)
@@ -63,10 +70,12 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 			trackNode.SetAttr("color", track.Color())
 			trackNode.SetAttr("distance", f2s(track.Distance()))
 			trackNode.Data = track.ID()
-			routeNode.Nodes = append(routeNode.Nodes, trackNode)
-			if attrs := makeAttrs(track.Props()); len(attrs) > 0 {
-				trackNode.Attrs = append(trackNode.Attrs, attrs...)
+			attrs, err := makeAttrs(track.Props())
+			if err != nil {
+				return nil, err
 			}
+			trackNode.Attrs = append(trackNode.Attrs, attrs...)
+			routeNode.Nodes = append(routeNode.Nodes, trackNode)
 
 			gpxTrack.Segments = append(gpxTrack.Segments, gpxSegment)
 		}
@@ -104,13 +113,12 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 			}
 			routeInfo := root.Nodes[i]
 			routeProps := makeProps(routeInfo.Attrs)
-			routeID, ok := routeProps.String("id")
+			routeID, ok := routeInfo.GetAttr("id")
 			if !ok {
 				return nil, ErrInvalidRoute
 			}
-			color, _ := routeProps.String("color")
-			routeName, _ := routeProps.String("name")
-			resetProps(routeProps)
+			color := routeInfo.GetAttrOrEmpty("color")
+			routeName := routeInfo.GetAttrOrEmpty("name")
 			route := navigator.RestoreRoute(routeID, color, routeProps)
 			if len(routeName) > 0 {
 				_ = route.ChangeName(routeName)
@@ -122,9 +130,8 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 				trackInfo := root.Nodes[i].Nodes[j]
 				trackID := trackInfo.Data
 				trackProps := makeProps(trackInfo.Attrs)
-				color, _ := trackProps.String("color")
-				trackName, _ := trackProps.String("name")
-				resetProps(trackProps)
+				color := trackInfo.GetAttrOrEmpty("color")
+				trackName := trackInfo.GetAttrOrEmpty("name")
 				track, err := navigator.RestoreTrack(
 					trackID,
 					color,
@@ -207,53 +214,82 @@ func f2s(v float64) string {
 	return strconv.FormatFloat(v, 'f', -1, 64)
 }
 
-func makeAttrs(props properties.Properties) []xml.Attr {
-	if len(props) == 0 {
-		return nil
-	}
+func makeAttrs(props properties.Properties) ([]xml.Attr, error) {
 	attrs := make([]xml.Attr, 0, len(props))
 	for k, v := range props {
+		name := properties.Escape(k, reservedProps...)
+		if !isAttrName(name) {
+			return nil, fmt.Errorf("gpsgen/gpx: property %q cannot be written as an attribute", k)
+		}
 		attrs = append(attrs, xml.Attr{
-			Name:  xml.Name{Local: k},
+			Name:  xml.Name{Local: name},
 			Value: fmt.Sprintf("%v", v),
 		})
 	}
-	return attrs
+	sort.Slice(attrs, func(i, j int) bool {
+		return attrs[i].Name.Local < attrs[j].Name.Local
+	})
+	return attrs, nil
+}
+
+// isAttrName reports whether the name of an attribute is read as it is written.
+func isAttrName(name string) bool {
+	token, err := xml.NewDecoder(strings.NewReader("<a " + name + "=''/>")).Token()
+	if err != nil {
+		return false
+	}
+	node, ok := token.(xml.StartElement)
+	return ok && name != "xmlns" && len(node.Attr) == 1 &&
+		node.Attr[0].Name == xml.Name{Local: name}
 }
 
 func makeProps(attrs []xml.Attr) properties.Properties {
 	props := properties.Make()
 	for i := 0; i < len(attrs); i++ {
 		key := attrs[i].Name.Local
-		val := value(attrs[i].Value)
-		props[key] = val
+		if isReserved(key) {
+			continue
+		}
+		props[properties.Unescape(key, reservedProps...)] = value(attrs[i].Value)
 	}
 	return props
 }
 
-func resetProps(props properties.Properties) {
-	delete(props, "id")
-	delete(props, "color")
-	delete(props, "distance")
-	delete(props, "tracksInfo")
-	delete(props, "numTracks")
-	delete(props, "name")
-	delete(props, "units")
+// reservedProps are the attributes that describe the route or the track.
+var reservedProps = []string{
+	"id",
+	"color",
+	"distance",
+	"tracksInfo",
+	"numTracks",
+	"name",
+	"units",
+}
+
+func isReserved(key string) bool {
+	for i := 0; i < len(reservedProps); i++ {
+		if reservedProps[i] == key {
+			return true
+		}
+	}
+	return false
 }
 
+// value returns the number or boolean that is written like the given text,
+// or else the text.
 func value(s string) interface{} {
 	intVal, err := strconv.ParseInt(s, 10, 64)
-	if err == nil {
+	if err == nil && fmt.Sprint(intVal) == s {
 		return intVal
 	}
 
 	boolVal, err := strconv.ParseBool(s)
-	if err == nil {
+	if err == nil && fmt.Sprint(boolVal) == s {
 		return boolVal
 	}
 
 	floatVal, err := strconv.ParseFloat(s, 64)
-	if err == nil {
+	if err == nil && fmt.Sprint(floatVal) == s {
 		return floatVal
 	}
 
@@ -284,15 +320,15 @@ func copyPoints(track *navigator.Track) []gpx.GPXPoint {
 		seg := track.SegmentAt(i)
 		points = append(points, gpx.GPXPoint{
 			Point: gpx.Point{
-				Latitude:  seg.PointA().Lat,
-				Longitude: seg.PointA().Lon,
+				Latitude:  coordinate(seg.PointA().Lat),
+				Longitude: coordinate(seg.PointA().Lon),
 			},
 		})
 		if i == track.NumSegments()-1 {
 			points = append(points, gpx.GPXPoint{
 				Point: gpx.Point{
-					Latitude:  seg.PointB().Lat,
-					Longitude: seg.PointB().Lon,
+					Latitude:  coordinate(seg.PointB().Lat),
+					Longitude: coordinate(seg.PointB().Lon),
 				},
 			})
 		}
@@ -300,6 +336,15 @@ func copyPoints(track *navigator.Track) []gpx.GPXPoint {
 	return points
 }
 
+// coordinate returns the value to write for a coordinate. The writer, which
+// knows ten decimal places, also removes the zeros at the end of an integer.
+func coordinate(v float64) float64 {
+	if strings.HasSuffix(strconv.FormatFloat(v, 'f', 10, 64), "0.0000000000") {
+		return v + 1e-10
+	}
+	return v
+}
+
 func makePoints(gpxPoints []gpx.GPXPoint) []geo.LatLonPoint {
 	points := make([]geo.LatLonPoint, 0, len(gpxPoints))
 	for i := 0; i < len(gpxPoints); i++ {
-- 
2.43.0


From 3c87726209b04e47603380c4ea27916b7d6678db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:06 +0000
Subject: [PATCH 22/34] fix: choose a speed on routes without length

A first step of no time on routes without length divided zero by zero,
which made speed and all readings NaN.
---
 device.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/device.go b/device.go
index fef1379..87514e8 100644
--- a/device.go
+++ b/device.go
@@ -891,6 +891,9 @@ func (d *Device) takeMissed() (seconds float64) {
 }
 
 func (d *Device) nextT(tick float64) float64 {
+	if d.avgT <= 0 { // routes without length
+		return 1.0
+	}
 	dur := d.state.Duration + tick
 	return math.Min(dur/d.avgT, 1.0)
 }
-- 
2.43.0


From 41936611c91c8314bb67166e0f1a009313deb777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:54 +0000
Subject: [PATCH 23/34] fix: publish the current routes and place after every
 edit

---
 device.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 87514e8..9f24ad8 100644
--- a/device.go
+++ b/device.go
@@ -325,7 +325,7 @@ func (d *Device) AddRoute(routes ...*navigator.Route) error {
 	if err == nil {
 		d.updateRoutes()
 		// the first step gives a new device its place on the route
-		if d.state.Tick > 0 {
+		if d.state.Tick > 0 || len(d.state.Navigator.CurrentRouteId) > 0 {
 			d.updateState()
 		}
 	}
@@ -899,6 +899,9 @@ func (d *Device) nextT(tick float64) float64 {
 }
 
 func (d *Device) updateState() {
+	if d.isNotValidNS(d.navigator.Sum()) {
+		d.updateRoutes()
+	}
 	d.navigator.Update(d.state)
 	d.state.Battery.Charge = d.battery.Value()
 	d.state.Battery.ChargeTime = int64(d.battery.ChargeTime().Seconds())
-- 
2.43.0


From 3df60f799d363912b2a851b3e2443b91d87b1de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 24/34] fix: load snapshots taken while tracks of the current
 route were removed

---
 navigator/navigator.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 1c1cdfe..e819e70 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -609,9 +609,7 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) error {
 	if !nav.skipOffline {
 		nav.offline = types.NewRandom(int(snap.OfflineMin), int(snap.OfflineMax))
 	}
-	if !nav.hasPosition() {
-		return ErrInvalidSnapshot
-	}
+	nav.Sync()
 	*n = nav
 	return nil
 }
-- 
2.43.0


From a331b1c1669fcd23591939c124149e6bff170bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 25/34] fix: a route loaded from a snapshot keeps nothing of
 its former name

---
 navigator/route.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/navigator/route.go b/navigator/route.go
index fd67cda..3772aaf 100644
--- a/navigator/route.go
+++ b/navigator/route.go
@@ -220,15 +220,16 @@ func (r *Route) RouteFromSnapshot(snap *RouteSnapshot) error {
 		}
 	}
 
+	var name Name
 	if len(snap.Name) > 0 {
-		name, err := ParseName(snap.Name)
-		if err != nil {
+		var err error
+		if name, err = ParseName(snap.Name); err != nil {
 			return err
 		}
-		r.name = name
 	}
 
 	r.id = snap.Id
+	r.name = name
 	r.dist = snap.Distance
 	r.color = snap.Color
 	r.props = props
-- 
2.43.0


From b954b20b85afe263856dd81f70b692242581cfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:37 +0000
Subject: [PATCH 26/34] fix: refuse snapshots that are offline without offline
 mode

---
 navigator/navigator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index e819e70..77bd997 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -639,6 +639,9 @@ func validateSnapshot(snap *proto.Snapshot_Navigator) error {
 	if snap.OfflineIndex < 0 || snap.OfflineIndex > snap.OfflineMax {
 		return ErrInvalidSnapshot
 	}
+	if snap.SkipOffline && snap.OfflineIndex > 0 {
+		return ErrInvalidSnapshot
+	}
 	return nil
 }
 
-- 
2.43.0


From 681db26dbc5fac34ca0ea5a80c8cdc7379f0130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:56 +0000
Subject: [PATCH 27/34] fix: report routes that a form cannot express when
 writing them

---
 device.go           | 14 ++++++++++++--
 geojson/encoding.go | 23 +++++++++++++++++++++++
 gpx/encoding.go     | 29 +++++++++++++++++++++++++++++
 io.go               |  3 +++
 navigator/route.go  | 14 ++++++++++++++
 5 files changed, 81 insertions(+), 2 deletions(-)

diff --git a/device.go b/device.go
index 9f24ad8..448beee 100644
--- a/device.go
+++ b/device.go
@@ -733,8 +733,14 @@ func (d *Device) Next(tick float64) bool {
 // It creates a snapshot of the device and serializes it using protobuf encoding.
 // Returns the binary representation of the device's state and an error, if any.
 func (d *Device) MarshalBinary() ([]byte, error) {
-	snap := d.Snapshot()
-	return proto.Marshal(snap)
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+	for i := 0; i < d.navigator.NumRoutes(); i++ {
+		if err := d.navigator.RouteAt(i).CheckProps(); err != nil {
+			return nil, err
+		}
+	}
+	return proto.Marshal(d.snapshot())
 }
 
 // UnmarshalBinary populates the device's state using the provided binary data.
@@ -756,6 +762,10 @@ func (d *Device) UnmarshalBinary(data []byte) error {
 func (d *Device) Snapshot() *pb.Snapshot {
 	d.mu.RLock()
 	defer d.mu.RUnlock()
+	return d.snapshot()
+}
+
+func (d *Device) snapshot() *pb.Snapshot {
 	snap := &pb.Snapshot{
 		Id:        d.state.Id,
 		UserId:    d.state.UserId,
diff --git a/geojson/encoding.go b/geojson/encoding.go
index 77f69fa..a8e8b39 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"unicode/utf8"
 
 	"github.com/mmadfox/go-gpsgen/geo"
 	"github.com/mmadfox/go-gpsgen/navigator"
@@ -23,9 +24,31 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 	if len(routes) == 0 {
 		return nil, ErrNoRoutes
 	}
+	for i := 0; i < len(routes); i++ {
+		if err := checkTexts(routes[i]); err != nil {
+			return nil, err
+		}
+	}
 	return ToFeatureCollection(routes).MarshalJSON()
 }
 
+// checkTexts returns an error if JSON cannot express the texts of a route.
+func checkTexts(route *navigator.Route) error {
+	valid := utf8.ValidString(route.ID()) &&
+		utf8.ValidString(route.Name().String()) &&
+		utf8.ValidString(route.Color())
+	for i := 0; i < route.NumTracks(); i++ {
+		track := route.TrackAt(i)
+		valid = valid && utf8.ValidString(track.ID()) &&
+			utf8.ValidString(track.Name().String()) &&
+			utf8.ValidString(track.Color())
+	}
+	if !valid {
+		return fmt.Errorf("%w: invalid UTF-8", ErrInvalidRoute)
+	}
+	return nil
+}
+
 // Decode converts GeoJSON data into a slice of navigator.Routes.
 func Decode(data []byte) (routes []*navigator.Route, err error) {
 	// the parser panics on geometry collections with null in them
diff --git a/gpx/encoding.go b/gpx/encoding.go
index b4218ce..dc55683 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -7,6 +7,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/mmadfox/go-gpsgen/geo"
 	"github.com/mmadfox/go-gpsgen/navigator"
@@ -56,6 +57,9 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 			return nil, err
 		}
 		routeNode.Attrs = append(routeNode.Attrs, attrs...)
+		if err := checkTexts(routeNode); err != nil {
+			return nil, err
+		}
 
 		for j := 0; j < route.NumTracks(); j++ {
 			track := route.TrackAt(j)
@@ -75,6 +79,9 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 				return nil, err
 			}
 			trackNode.Attrs = append(trackNode.Attrs, attrs...)
+			if err := checkTexts(trackNode); err != nil {
+				return nil, err
+			}
 			routeNode.Nodes = append(routeNode.Nodes, trackNode)
 
 			gpxTrack.Segments = append(gpxTrack.Segments, gpxSegment)
@@ -232,6 +239,28 @@ func makeAttrs(props properties.Properties) ([]xml.Attr, error) {
 	return attrs, nil
 }
 
+// checkTexts returns an error if XML cannot express the texts of a node.
+func checkTexts(node gpx.ExtensionNode) error {
+	// the reader trims the text between tags
+	valid := isText(node.Data) && strings.TrimSpace(node.Data) == node.Data
+	for i := 0; i < len(node.Attrs); i++ {
+		valid = valid && isText(node.Attrs[i].Value)
+	}
+	if !valid {
+		return fmt.Errorf("%w: %q contains characters that cannot be written", ErrInvalidRoute, node.Attrs)
+	}
+	return nil
+}
+
+func isText(s string) bool {
+	for _, r := range s {
+		if r < ' ' && r != '\t' && r != '\n' && r != '\r' || r == 0xFFFE || r == 0xFFFF {
+			return false
+		}
+	}
+	return utf8.ValidString(s)
+}
+
 // isAttrName reports whether the name of an attribute is read as it is written.
 func isAttrName(name string) bool {
 	token, err := xml.NewDecoder(strings.NewReader("<a " + name + "=''/>")).Token()
diff --git a/io.go b/io.go
index 8a78781..e4e1e73 100644
--- a/io.go
+++ b/io.go
@@ -75,6 +75,9 @@ func EncodeRoutes(routes []*navigator.Route) ([]byte, error) {
 		Routes: make([]*pb.Snapshot_Navigator_Route, len(routes)),
 	}
 	for i := 0; i < len(routes); i++ {
+		if err := routes[i].CheckProps(); err != nil {
+			return nil, err
+		}
 		pbroutes.Routes[i] = routes[i].Snapshot()
 	}
 	return proto.Marshal(pbroutes)
diff --git a/navigator/route.go b/navigator/route.go
index 3772aaf..c1ce64e 100644
--- a/navigator/route.go
+++ b/navigator/route.go
@@ -105,6 +105,20 @@ func (r *Route) Props() properties.Properties {
 	return r.props
 }
 
+// CheckProps returns an error if the properties of the route or
+// of its tracks cannot be stored in a snapshot.
+func (r *Route) CheckProps() error {
+	if _, err := json.Marshal(r.props); err != nil {
+		return fmt.Errorf("gpsgen/navigator: route %q: %w", r.id, err)
+	}
+	for i := 0; i < len(r.tracks); i++ {
+		if _, err := json.Marshal(r.tracks[i].props); err != nil {
+			return fmt.Errorf("gpsgen/navigator: track %q: %w", r.tracks[i].id, err)
+		}
+	}
+	return nil
+}
+
 // NumTracks returns the number of tracks in the route.
 func (r *Route) NumTracks() int {
 	return len(r.tracks)
-- 
2.43.0


From dc0e307898d5b14702822e7f3a930410047f3166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:25 +0000
Subject: [PATCH 28/34] fix: the texts NaN and Inf of GPX properties became
 numbers that cannot be saved

---
 gpx/encoding.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index dc55683..a5d34a8 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -4,6 +4,7 @@ import (
 	"encoding/xml"
 	"errors"
 	"fmt"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -304,8 +305,8 @@ func isReserved(key string) bool {
 	return false
 }
 
-// value returns the number or boolean that is written like the given text,
-// or else the text.
+// value returns the finite number or boolean that is written like the given
+// text, or else the text.
 func value(s string) interface{} {
 	intVal, err := strconv.ParseInt(s, 10, 64)
 	if err == nil && fmt.Sprint(intVal) == s {
@@ -318,7 +319,8 @@ func value(s string) interface{} {
 	}
 
 	floatVal, err := strconv.ParseFloat(s, 64)
-	if err == nil && fmt.Sprint(floatVal) == s {
+	finite := !math.IsNaN(floatVal) && !math.IsInf(floatVal, 0)
+	if err == nil && finite && fmt.Sprint(floatVal) == s {
 		return floatVal
 	}
 
-- 
2.43.0


From 6960309e9b540318fda2bee53ebe7c15f7c3f150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:28 +0000
Subject: [PATCH 29/34] fix: a tick of the moment Run began counted as a whole
 second

---
 generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator.go b/generator.go
index 4cfc640..188dd97 100644
--- a/generator.go
+++ b/generator.go
@@ -211,9 +211,9 @@ func (g *Generator) run() {
 	}()
 
 	// The ticker has been running since New: start a whole interval now, and
-	// ignore a tick that was already waiting.
-	lastTime := time.Now()
+	// ignore a tick of before.
 	g.ticker.Reset(g.interval)
+	lastTime := time.Now()
 	var tick float64
 
 loop:
-- 
2.43.0


From ac728e266a1aa63166515286d9bfba8d57aa94d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:56 +0000
Subject: [PATCH 30/34] fix: trackers built from the same options got the same
 identity

NewDevice stored the identity it generated in the options it was given, so
that a second tracker built from them was a duplicate of the first.
---
 device_options.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/device_options.go b/device_options.go
index c015148..f23543f 100644
--- a/device_options.go
+++ b/device_options.go
@@ -47,10 +47,10 @@ type DeviceOptions struct {
 }
 
 func (o *DeviceOptions) applyFor(s *pb.Device) error {
-	if len(o.ID) == 0 {
-		o.ID = uuid.NewString()
-	}
 	s.Id = o.ID
+	if len(s.Id) == 0 {
+		s.Id = uuid.NewString()
+	}
 	s.Description = o.Descr
 	if len(o.Model) > 0 {
 		model, err := types.NewModel(o.Model)
-- 
2.43.0


From b04be33501b5865690cef1ee5a58962bb5127d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:38 +0000
Subject: [PATCH 31/34] fix: notice tracks replaced on an attached route
 although its length stays the same

---
 navigator/navigator.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 77bd997..847dd44 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -23,6 +23,7 @@ type Navigator struct {
 	elevation              *types.Sensor
 	offline                *types.Random
 	distance               float64
+	tracks                 []*Track // all tracks of the routes as of the last reset
 	skipOffline            bool
 	version                int
 }
@@ -539,6 +540,10 @@ func (n *Navigator) NextLocation(tick float64, speed float64) (ok bool) {
 
 // Snapshot creates a snapshot of the navigator's state.
 func (n *Navigator) Snapshot() *proto.Snapshot_Navigator {
+	synced := *n
+	synced.Sync()
+	n = &synced
+
 	routes := make([]*proto.Snapshot_Navigator_Route, len(n.routes))
 	for i := 0; i < len(n.routes); i++ {
 		routes[i] = n.routes[i].Snapshot()
@@ -609,6 +614,7 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) error {
 	if !nav.skipOffline {
 		nav.offline = types.NewRandom(int(snap.OfflineMin), int(snap.OfflineMax))
 	}
+	nav.tracks = nav.listTracks()
 	nav.Sync()
 	*n = nav
 	return nil
@@ -711,11 +717,34 @@ func (n *Navigator) Reset() {
 
 // Sync starts over if tracks were added to or removed from a route of the navigator.
 func (n *Navigator) Sync() {
-	if n.distance != n.sumRouteDistance() || !n.hasPosition() {
+	if n.distance != n.sumRouteDistance() || !n.hasTracks() || !n.hasPosition() {
 		n.Reset()
 	}
 }
 
+// hasTracks reports whether the tracks of the routes are still those of the
+// last reset. The distance alone does not tell: a track may have no length,
+// or be replaced by one of the same length.
+func (n *Navigator) hasTracks() bool {
+	k := 0
+	for _, route := range n.routes {
+		for _, track := range route.tracks {
+			if k == len(n.tracks) || n.tracks[k] != track {
+				return false
+			}
+			k++
+		}
+	}
+	return k == len(n.tracks)
+}
+
+func (n *Navigator) listTracks() (tracks []*Track) {
+	for _, route := range n.routes {
+		tracks = append(tracks, route.tracks...)
+	}
+	return
+}
+
 // hasPosition reports whether the indexes of the navigator are those of a
 // segment, or of a route or a track that is empty.
 func (n *Navigator) hasPosition() bool {
@@ -797,6 +826,7 @@ func (n *Navigator) nextRoute() {
 
 func (n *Navigator) calcRouteDistance() {
 	n.distance = n.sumRouteDistance()
+	n.tracks = n.listTracks()
 }
 
 func (n *Navigator) sumRouteDistance() (sum float64) {
-- 
2.43.0


From bafe1ae9f559d0c7b07baa15e494a8647ae1eb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:27 +0000
Subject: [PATCH 32/34] fix: a jump to a distance that is not a number left the
 tracker nowhere

---
 navigator/navigator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 847dd44..4167353 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -656,7 +656,7 @@ func (n *Navigator) jump(distance float64) bool {
 	if distance > n.distance {
 		distance = n.distance
 	}
-	if distance < 1 {
+	if distance < 1 || math.IsNaN(distance) {
 		return false
 	}
 
-- 
2.43.0


From 72ac813bc7e53ad7fe3af29db254cbe7f9dcc39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:28 +0000
Subject: [PATCH 33/34] fix: a tick that is not a length of time spoiled the
 tracker for ever

---
 device.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/device.go b/device.go
index 448beee..4f90cc6 100644
--- a/device.go
+++ b/device.go
@@ -675,7 +675,11 @@ func (d *Device) Version() [3]int {
 // The tick parameter represents the time interval in seconds since the last update.
 // It updates the device's position, speed, elevation, battery level, sensors, and state.
 // Returns true if the state was successfully updated, and false if no routes are available or if the navigator has finished.
+// A tick that is not a length of time (negative, infinite or not a number) changes nothing and returns false.
 func (d *Device) Next(tick float64) bool {
+	if tick < 0 || math.IsNaN(tick) || math.IsInf(tick, 0) {
+		return false
+	}
 	ok := d.mu.TryLock()
 	if !ok {
 		d.missTick(tick)
-- 
2.43.0


From dbfd493d1de04f19f6546a2e7105a7b50b67b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:30 +0000
Subject: [PATCH 34/34] fix: trackers and sensors with limits that are not
 numbers could not be loaded again

---
 types/battery.go   |  3 +++
 types/sensor.go    |  6 ++++++
 types/speed.go     |  3 +++
 types/validator.go | 12 ++++++++++++
 4 files changed, 24 insertions(+)

diff --git a/types/battery.go b/types/battery.go
index 6999da3..76a1cd4 100644
--- a/types/battery.go
+++ b/types/battery.go
@@ -43,6 +43,9 @@ func NewBattery(min, max float64, chargeTime time.Duration) (*Battery, error) {
 	if max > maxBatteryVal {
 		return nil, ErrMaxBattery
 	}
+	if err := validateLimits(min, max); err != nil {
+		return nil, err
+	}
 	if min > max {
 		min = max
 	}
diff --git a/types/sensor.go b/types/sensor.go
index 6c2b2a1..909a873 100644
--- a/types/sensor.go
+++ b/types/sensor.go
@@ -48,6 +48,9 @@ func NewSensor(name string, min, max float64, amplitude int, mode SensorMode) (*
 	if len(name) == 0 {
 		return nil, ErrEmptySensorName
 	}
+	if err := validateLimits(min, max); err != nil {
+		return nil, err
+	}
 	if ok := validateSensorMode(mode); !ok {
 		mode = WithSensorRandomMode
 	}
@@ -85,6 +88,9 @@ func RestoreSensor(
 	if err := validateAmplitude(amplitude); err != nil {
 		return nil, err
 	}
+	if err := validateLimits(min, max); err != nil {
+		return nil, err
+	}
 	if ok := validateSensorMode(mode); !ok {
 		mode = WithSensorRandomMode
 	}
diff --git a/types/speed.go b/types/speed.go
index 3d8eaea..0682488 100644
--- a/types/speed.go
+++ b/types/speed.go
@@ -50,6 +50,9 @@ func NewSpeed(min, max float64, amplitude int) (*Speed, error) {
 		min = 1
 		max = 1
 	}
+	if err := validateLimits(min, max); err != nil {
+		return nil, err
+	}
 	if err := validateAmplitude(amplitude); err != nil {
 		return nil, err
 	}
diff --git a/types/validator.go b/types/validator.go
index ca58044..943cc56 100644
--- a/types/validator.go
+++ b/types/validator.go
@@ -8,11 +8,15 @@ import (
 const (
 	minAmplitude = 4
 	maxAmplitude = 512
+	maxLimit     = 1e150 // times the binomial coefficients of the longest curve, still a number
 )
 
 // ErrInvalidSnapshot indicates that a value cannot be restored from the snapshot.
 var ErrInvalidSnapshot = errors.New("types: invalid snapshot")
 
+// ErrInvalidLimits indicates that a minimum or maximum is not a number, or too large to be stored.
+var ErrInvalidLimits = errors.New("types: invalid limits")
+
 var (
 	// ErrMinAmplitude indicates that the amplitude value is less than 4.
 	ErrMinAmplitude = errors.New("types/amplitude: value is less than 4")
@@ -30,6 +34,14 @@ func validateAmplitude(val int) error {
 	return nil
 }
 
+// validateLimits returns an error unless every curve between the limits has finite control points.
+func validateLimits(min, max float64) error {
+	if math.Abs(min) <= maxLimit && math.Abs(max) <= maxLimit {
+		return nil
+	}
+	return ErrInvalidLimits
+}
+
 func validateSensorMode(mode SensorMode) bool {
 	return mode > 0
 }
-- 
2.43.0

