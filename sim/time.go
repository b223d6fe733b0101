package sim

import (
	"context"
	"errors"
	"sync"
	"time"
	"unsafe"
)

type event struct {
	at  int64
	seq uint64
	fn  func()
	off *bool // cancelled
}

type eventHeap []event

func (h eventHeap) less(i, j int) bool {
	return h[i].at < h[j].at || (h[i].at == h[j].at && h[i].seq < h[j].seq)
}

func (h *eventHeap) push(e event) {
	*h = append(*h, e)
	i := len(*h) - 1
	for i > 0 {
		p := (i - 1) / 2
		if !h.less(i, p) {
			break
		}
		(*h)[i], (*h)[p] = (*h)[p], (*h)[i]
		i = p
	}
}

func (h *eventHeap) pop() event {
	a := *h
	e := a[0]
	n := len(a) - 1
	a[0] = a[n]
	a[n] = event{}
	*h = a[:n]
	i := 0
	for {
		l := 2*i + 1
		if l >= n {
			break
		}
		if l+1 < n && h.less(l+1, l) {
			l++
		}
		if !h.less(l, i) {
			break
		}
		(*h)[i], (*h)[l] = (*h)[l], (*h)[i]
		i = l
	}
	return e
}

func (w *world) now() int64 { w.syncClock(); return w.clock }

func (w *world) at(t int64, fn func()) *bool {
	off := new(bool)
	w.evSeq++
	w.events.push(event{t, w.evSeq, fn, off})
	return off
}

// fireDue runs the events whose time has come.
func (w *world) fireDue() bool {
	fired := false
	for len(w.events) > 0 && w.events[0].at <= w.clock {
		e := w.events.pop()
		if *e.off {
			continue
		}
		fired = true
		w.epoch++
		e.fn()
	}
	return fired
}

// Epoch of the simulated wall clock: 2024-03-10 06:00:00 UTC.
const wallEpoch = 1710050400

const (
	hasMonotonic = 1 << 63
	wallToUnix   = -(59453308800) // seconds from 1885 to 1970, negated below
)

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

var epoch1885 = time.Date(1885, 1, 1, 0, 0, 0, 0, time.UTC).Unix()

// makeTime builds a time.Time with a wall and a monotonic reading.
func makeTime(mono, wallOff int64) time.Time {
	ns := wallEpoch*int64(time.Second) + mono + wallOff
	sec, nsec := ns/1e9, ns%1e9
	rt := rawTime{
		wall: hasMonotonic | uint64(sec-epoch1885)<<30 | uint64(nsec),
		ext:  mono + 1e9,
		loc:  time.Local,
	}
	return *(*time.Time)(unsafe.Pointer(&rt))
}

func init() {
	a, b := makeTime(5e9+7, 0), makeTime(8e9+7, 3600e9)
	if unsafe.Sizeof(time.Time{}) != unsafe.Sizeof(rawTime{}) || b.Sub(a) != 3*time.Second ||
		a.Unix() != wallEpoch+5 || a.Nanosecond() != 7 || b.Round(0).Sub(a.Round(0)) != 3603*time.Second {
		panic("sim: unexpected time.Time layout")
	}
}

//go:noinline
func TimeNow() time.Time {
	if w == nil {
		return makeTime(0, 0)
	}
	return makeTime(w.now(), w.wallOff)
}

func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// JumpWall steps the wall clock (not the monotonic one).
func JumpWall(d int64) {
	w.wallOff += d
	w.walls = append(w.walls, WallRec{w.now(), w.wallOff})
	w.faults[FWallJump]++
}

// WallUnix is the current simulated wall clock in seconds.
func WallUnix() int64 { return TimeNow().Unix() }

//go:noinline
func Sleep(d time.Duration) {
	if cur == nil || killing {
		return
	}
	if d <= 0 {
		syncPoint()
		return
	}
	end := false
	w.at(w.now()+int64(d), func() { end = true })
	block("sleep", func() bool { return end })
}

// late draws the lateness of a timer.
func (w *world) late() int64 {
	if w.cfg.TimerJitter <= 0 || w.quiet {
		return 0
	}
	x := w.env.Float64()
	if w.env.Intn(4) != 0 {
		return int64(x * float64(w.cfg.TimerJitter) / 1000)
	}
	w.faults[FTimerLate]++
	return int64(x * x * float64(w.cfg.TimerJitter))
}

type Timer struct {
	C      <-chan time.Time
	c      chan time.Time
	fn     func()
	off    *bool
	run    uint64
	when   int64
	period int64
	active bool
	inited bool
}

type Ticker struct {
	C <-chan time.Time
	t Timer
}

func (t *Timer) start(d, period int64) {
	if w == nil || killing {
		return
	}
	if d < 0 {
		d = 0
	}
	t.run = runID
	t.inited = true
	if t.c != nil {
		if p := ptrOf(unsafe.Pointer(&t.c)); !w.timerChan(p) {
			w.tchans = append(w.tchans, p)
		}
	}
	t.active = true
	t.period = period
	t.when = w.now() + d
	t.arm()
}

func (t *Timer) arm() {
	off := w.at(t.when+w.late(), nil)
	// find the event just pushed by sequence number
	for i := range w.events {
		if w.events[i].off == off {
			w.events[i].fn = func() { t.fire() }
		}
	}
	t.off = off
}

func (t *Timer) fire() {
	now := w.clock
	v := makeTime(t.when, w.wallOff)
	if t.period > 0 {
		t.when += t.period * (1 + (now-t.when)/t.period)
		t.arm()
	} else {
		t.active = false
	}
	if t.fn != nil {
		f := t.fn
		th := w.newThread("timer", true)
		startThread(th, f)
		return
	}
	raceDisable()
	select {
	case t.c <- v:
	default:
		w.faults[FTickDrop]++
	}
	raceEnable()
}

func (t *Timer) stop() bool {
	if w == nil || killing || t.run != runID {
		return false
	}
	was := t.active
	t.active = false
	if t.off != nil {
		*t.off = true
	}
	if w.cfg.ModernTimer && t.c != nil {
		raceDisable()
		select {
		case <-t.c:
			if t.period == 0 {
				was = true
			}
		default:
		}
		raceEnable()
	}
	return was
}

//go:noinline
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(int64(d), 0)
	return t
}

//go:noinline
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{fn: f}
	t.start(int64(d), 0)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

//go:noinline
func (t *Timer) Stop() bool {
	if cur != nil && !killing {
		syncPoint()
	}
	return t.stop()
}

//go:noinline
func (t *Timer) Reset(d time.Duration) bool {
	if cur != nil && !killing {
		syncPoint()
	}
	was := t.stop()
	t.start(int64(d), 0)
	return was
}

//go:noinline
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, t: Timer{C: c, c: c}}
	t.t.start(int64(d), int64(d))
	return t
}

//go:noinline
func (t *Ticker) Stop() {
	if cur != nil && !killing {
		syncPoint()
	}
	t.t.stop()
}

//go:noinline
func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	if cur != nil && !killing {
		syncPoint()
	}
	t.t.stop()
	t.t.start(int64(d), int64(d))
}

func Tick_(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// ---- context ----

func bump() {
	if w != nil {
		w.epoch++
		if cur != nil && !killing {
			syncPoint()
		}
	}
}

func WithCancel(p context.Context) (context.Context, context.CancelFunc) {
	ctx, c := context.WithCancel(p)
	return ctx, func() { c(); bump() }
}

func WithCancelCause(p context.Context) (context.Context, context.CancelCauseFunc) {
	ctx, c := context.WithCancelCause(p)
	return ctx, func(err error) { c(err); bump() }
}

type deadlineCtx struct {
	context.Context
	dl time.Time
	mu sync.Mutex
	ex bool
}

func (d *deadlineCtx) Deadline() (time.Time, bool) { return d.dl, true }
func (d *deadlineCtx) Err() error {
	err := d.Context.Err()
	if err != nil && errors.Is(context.Cause(d.Context), context.DeadlineExceeded) {
		return context.DeadlineExceeded
	}
	return err
}

func WithDeadlineCause(p context.Context, t time.Time, cause error) (context.Context, context.CancelFunc) {
	if cause == nil {
		cause = context.DeadlineExceeded
	}
	ctx, c := context.WithCancelCause(p)
	d := TimeUntil(t)
	if d <= 0 {
		c(cause)
		bump()
	} else {
		off := w.at(w.now()+int64(d), func() {
			raceDisable()
			c(cause)
			raceEnable()
		})
		return &deadlineCtx{Context: ctx, dl: t}, func() { *off = true; c(context.Canceled); bump() }
	}
	return &deadlineCtx{Context: ctx, dl: t}, func() { c(context.Canceled); bump() }
}

func WithDeadline(p context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(p, t, nil)
}

func WithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(p, TimeNow().Add(d), nil)
}

func WithTimeoutCause(p context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(p, TimeNow().Add(d), cause)
}

func ContextAfterFunc(ctx context.Context, f func()) func() bool {
	stopped, started := false, false
	GoLib(func() {
		Recv(ctx.Done())
		if stopped {
			return
		}
		started = true
		f()
	})
	return func() bool {
		if started || stopped {
			return false
		}
		stopped = true
		return true
	}
}

// WallEpochNs is the wall clock at the start of a run.
const WallEpochNs = wallEpoch * int64(time.Second)

// noteRecv logs a value taken from a timer channel by a library thread.
//
//go:noinline
func noteRecv(p unsafe.Pointer, v *time.Time) {
	if cur == nil || killing || !cur.Lib || !w.timerChan(p) {
		return
	}
	rt := *(*rawTime)(unsafe.Pointer(v))
	r := TickRec{steps, w.now(), rt.ext - 1e9}
	if cur.group > 0 {
		w.others = append(w.others, groupTick{r, cur.group})
		return
	}
	w.ticks = append(w.ticks, r)
}

// timerChan reports whether the channel belongs to a timer.
func (w *world) timerChan(p unsafe.Pointer) bool {
	for _, q := range w.tchans {
		if p == q {
			return true
		}
	}
	return false
}

// Armed counts the timers and sleeps that are pending.
func Armed() int {
	n := 0
	for _, e := range w.events {
		if e.off == nil || !*e.off {
			n++
		}
	}
	return n
}

// Kept estimates the memory in which this package records the run itself.
func Kept() int64 {
	return int64(cap(w.tr.Switches))*16 + int64(cap(w.tr.Stalls))*24 + int64(cap(w.ticks))*24 + int64(cap(w.others))*32 +
		int64(cap(w.walls))*16 + int64(cap(w.threads))*8 + int64(cap(w.events))*8
}
