package sim

import (
	"fmt"
	"time"
	"unsafe"
)

// Channel operations work on the program's real channels: a thread performs
// the real operation itself, but only when it cannot block. Unbuffered
// rendezvous between two simulated threads is carried out by a direct hand-over.

type hchanView struct {
	qcount   uint
	dataqsiz uint
}

var closedOff uintptr

func init() {
	c := make(chan int, 3)
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	c <- 1
	v := (*hchanView)(p)
	if v.qcount != 1 || v.dataqsiz != 3 {
		panic("sim: unexpected channel layout")
	}
	var before [12]uint32
	for i := range before {
		before[i] = *(*uint32)(unsafe.Add(p, i*4))
	}
	close(c)
	n := 0
	for i := range before {
		if before[i] == 0 && *(*uint32)(unsafe.Add(p, i*4)) == 1 {
			closedOff = uintptr(i * 4)
			n++
		}
	}
	if n != 1 {
		panic("sim: cannot find the closed flag of a channel")
	}
}

func chLen(p unsafe.Pointer) uint { return (*hchanView)(p).qcount }
func chCap(p unsafe.Pointer) uint { return (*hchanView)(p).dataqsiz }
func chClosed(p unsafe.Pointer) bool {
	return *(*uint32)(unsafe.Add(p, closedOff)) != 0
}

// Case is one alternative of a select.
type Case struct {
	p      unsafe.Pointer
	send   bool
	val    any
	ok     bool
	direct bool // completed by a hand-over with another thread
	tok    byte
}

func (c *Case) what() string {
	d := "receive"
	if c.send {
		d = "send"
	}
	if c.p == nil {
		return d + " on nil channel"
	}
	return fmt.Sprintf("channel %s (len %d, cap %d)", d, chLen(c.p), chCap(c.p))
}

// partner finds a thread blocked in the opposite operation on an unbuffered channel.
func (c *Case) partner() (*Thread, int) {
	for _, t := range w.threads {
		if t == cur || t.st != stBlocked || t.chosen >= 0 {
			continue
		}
		for i, o := range t.cases {
			if o.p == c.p && o.send != c.send {
				return t, i
			}
		}
	}
	return nil, 0
}

// can reports whether the case can proceed now. self is the thread owning it.
func (c *Case) can(self *Thread) bool {
	if c.p == nil {
		return false
	}
	if chClosed(c.p) {
		return true
	}
	if c.send {
		if chLen(c.p) < chCap(c.p) {
			return true
		}
	} else if chLen(c.p) > 0 {
		return true
	}
	if chCap(c.p) == 0 {
		for _, t := range w.threads {
			if t == self || t.st != stBlocked || t.chosen >= 0 {
				continue
			}
			for _, o := range t.cases {
				if o.p == c.p && o.send != c.send {
					return true
				}
			}
		}
	}
	return false
}

// commit performs the hand-over when the case pairs with a blocked thread.
func (c *Case) commit() {
	c.direct = false
	if chClosed(c.p) || chCap(c.p) > 0 {
		return // the caller performs the real operation
	}
	t, i := c.partner()
	if t == nil {
		panic("sim: channel partner vanished")
	}
	o := t.cases[i]
	if c.send {
		o.val, o.ok = c.val, true
	} else {
		c.val, c.ok = o.val, true
	}
	c.direct, o.direct = true, true
	t.chosen = i
	// An unbuffered communication synchronises both ways.
	raceRelease(unsafe.Pointer(&o.tok))
	raceAcquire(unsafe.Pointer(&c.tok))
	raceAcquire(unsafe.Pointer(&o.tok))
	w.epoch++
}

// wait runs the select protocol and returns the index of the case to perform.
//
//go:noinline
func wait(hasDefault bool, cs []*Case) int {
	if killing {
		return -2
	}
	syncPoint()
	me := cur
	n, pick := 0, -1
	for i, c := range cs {
		if c.can(me) {
			n++
			if n == 1 || w.env.Intn(n) == 0 {
				pick = i
			}
		}
	}
	if pick >= 0 {
		cs[pick].commit()
		w.epoch++
		return pick
	}
	if hasDefault {
		return -1
	}
	what := "select {}"
	if len(cs) == 1 {
		what = cs[0].what()
	} else if len(cs) > 1 {
		what = "select"
		for _, c := range cs {
			what += " [" + c.what() + "]"
		}
	}
	for _, c := range cs {
		// publish our side for a partner's acquire
		if c.p != nil && chCap(c.p) == 0 {
			raceRelease(unsafe.Pointer(&c.tok))
		}
	}
	me.cases, me.chosen = cs, -1
	w.epoch++
	block(what, func() bool {
		if me.chosen >= 0 {
			return true
		}
		for _, c := range cs {
			if c.can(me) {
				return true
			}
		}
		return false
	})
	me.cases = nil
	if killing {
		return -2
	}
	if me.chosen >= 0 {
		i := me.chosen
		me.chosen = -1
		raceAcquire(unsafe.Pointer(&cs[i].tok))
		return i
	}
	n = 0
	for i, c := range cs {
		if c.can(me) {
			n++
			if n == 1 || w.env.Intn(n) == 0 {
				pick = i
			}
		}
	}
	me.chosen = 0 // not a partner while committing
	cs[pick].commit()
	w.epoch++
	return pick
}

// after is the scheduling point that follows a completed channel operation.
func after() {
	if w != nil && cur != nil && !killing {
		w.epoch++
		syncPoint()
	}
}

func ptrOf(p unsafe.Pointer) unsafe.Pointer { return *(*unsafe.Pointer)(p) }

// Chooser is implemented by the typed select cases.
type Chooser interface{ simCase() *Case }

func (c *Case) simCase() *Case { return c }

// Select picks a case; -1 means default.
//
//go:noinline
func Select(hasDefault bool, cs ...Chooser) int {
	if cur == nil {
		return selectReal(hasDefault, cs)
	}
	l := make([]*Case, len(cs))
	for i, c := range cs {
		l[i] = c.simCase()
	}
	return wait(hasDefault, l)
}

func selectReal(hasDefault bool, cs []Chooser) int {
	for i, c := range cs {
		k := c.simCase()
		if k.p == nil {
			continue
		}
		if chClosed(k.p) || k.send && chLen(k.p) < chCap(k.p) || !k.send && chLen(k.p) > 0 {
			return i
		}
	}
	if hasDefault {
		return -1
	}
	panic("sim: blocking select outside of a run")
}

// RecvCase and SendCase carry the typed part.
type RecvCase[T any] struct {
	Case
	ch <-chan T
}

type SendCase[T any] struct {
	Case
	ch chan<- T
	v  T
}

func CRecv[T any](ch <-chan T) *RecvCase[T] {
	c := &RecvCase[T]{ch: ch}
	c.p = ptrOf(unsafe.Pointer(&ch))
	return c
}

func CSend[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] {
		c := &SendCase[T]{ch: ch, v: v}
		c.p = ptrOf(unsafe.Pointer(&ch))
		c.send = true
		c.val = v
		return c
	}
}

// Take completes a chosen receive.
func (c *RecvCase[T]) Take() (v T, ok bool) {
	if isDirect(&c.Case) {
		return directVal[T](&c.Case)
	}
	v, ok = <-c.ch
	if t, is := any(&v).(*time.Time); is {
		noteRecv(c.p, t)
	}
	after()
	return
}

// Take completes a chosen send.
func (c *SendCase[T]) Take() {
	if isDirect(&c.Case) {
		after()
		return
	}
	c.ch <- c.v
	after()
}

//go:noinline
func isDirect(c *Case) bool { return c.direct }

func directVal[T any](c *Case) (v T, ok bool) {
	x, k := directAny(c)
	if x != nil {
		v = x.(T)
	}
	after()
	return v, k
}

//go:noinline
func directAny(c *Case) (any, bool) { return c.val, c.ok }

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (v T, ok bool) {
	if outside() {
		v, ok = <-ch
		return
	}
	c := CRecv(ch)
	if wait1(&c.Case) < 0 {
		return
	}
	return c.Take()
}

//go:noinline
func outside() bool { return cur == nil }

//go:noinline
func wait1(c *Case) int { return wait(false, []*Case{c}) }

// Send is used as Send(ch)(v) so that v is converted to the element type.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if outside() {
			ch <- v
			return
		}
		c := CSend(ch)(v)
		if wait1(&c.Case) < 0 {
			return
		}
		c.Take()
	}
}

func Close[T any](ch chan<- T) {
	if inKill() {
		return
	}
	close(ch)
	after()
}

//go:noinline
func inKill() bool { return killing }

// BlockForever replaces select {}.
func BlockForever() {
	if cur == nil {
		panic("sim: select {} outside of a run")
	}
	wait(false, nil)
}
