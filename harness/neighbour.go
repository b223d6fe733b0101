package main

import (
	"fmt"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"gpsverif/sim"
)

// A neighbour is a second generator that runs in the same process as the
// fleet, with trackers of its own. Neither may notice the other: the fleet is
// judged as if it were alone, and the neighbour has to go on whatever happens
// to the fleet, also after that has been closed.

type neighbour struct {
	c       *Ctx
	g       *gpsgen.Generator
	iv      int64
	ids     map[string]bool
	ds      []*gpsgen.Device
	badN    int
	slow    time.Duration
	hang    bool // the packet callback does not return until calm
	calm    bool
	packets int
	nexts   int
	errs    int
	inCB    int
	run     *sim.Thread
	runRet  bool
}

func newNeighbour(c *Ctx) *neighbour {
	b := &neighbour{c: c, ids: map[string]bool{}}
	r := sim.NewStream(uint64(c.cfg("seed")), "neighbour")
	b.iv = int64(pick(r, 1000, 1500, 7000)) * 1e6
	b.slow = time.Duration(pick(r, 0, 0, 3, 900, 20000)) * time.Millisecond
	b.hang = r.Intn(4) == 0
	b.g = gpsgen.New(&gpsgen.Options{Interval: time.Duration(b.iv), PacketSize: 1024, NumWorkers: pick(r, 1, 2, 4)})
	n := r.Range(1, 5)
	for i := 0; i < n; i++ {
		o := devOptions(r)
		o.ID = fmt.Sprintf("neighbour-%d", i)
		d := mustDevice(o)
		if r.Intn(2) == 0 {
			d.AddRoute(newRoute(shMulti, mix(uint64(c.cfg("seed")), uint64(i), 991)))
		}
		b.ds = append(b.ds, d)
		b.ids[o.ID] = true
		b.g.Attach(d)
	}
	if r.Intn(3) == 0 {
		b.ds[0].SetDescription("\xff\xfe")
		b.badN = 1
	}
	b.g.OnPacket(b.onPacket)
	b.g.OnError(func(error) { b.errs++ })
	b.g.OnNext(func() { b.nexts++ })
	return b
}

// start is called by a thread of the neighbour's group.
func (b *neighbour) start() {
	b.run = sim.Go("neighbour", func() {
		b.g.Run()
		b.runRet = true
		sim.Poke()
	})
}

func (b *neighbour) onPacket(data []byte) {
	b.inCB++
	defer func() { b.inCB--; sim.Poke() }()
	b.packets++
	h := digestBytes(data)
	pk, err := gpsgen.PacketFromBytes(data)
	if err != nil {
		b.c.bad("G01", "neighbour-packet", "a packet of a second generator cannot be decoded: %v", err)
		return
	}
	seen := map[string]bool{}
	for _, s := range pk.Devices {
		if !b.ids[s.Id] {
			b.c.bad("G01", "foreign-tracker", "a packet of one generator contains tracker %q of another", s.Id)
		}
		if seen[s.Id] {
			b.c.bad("G01", "neighbour-twice", "a packet of a second generator contains tracker %q twice", s.Id)
		}
		seen[s.Id] = true
	}
	if len(seen) != len(b.ids)-b.badN && b.badN == 0 {
		b.c.bad("G01", "neighbour-missing", "a packet of a second generator contains %d of %d trackers", len(seen), len(b.ids))
	}
	if b.calm {
		return
	}
	if b.hang && b.packets == 2 {
		sim.WaitFor("the end", 3600e9, func() bool { return b.calm })
	} else if b.slow > 0 {
		sim.Sleep(b.slow)
	}
	if digestBytes(data) != h {
		b.c.bad("G07", "packet-changed", "a delivered packet of a second generator changed while it was handled")
	}
}

// finish judges the neighbour once the fleet is gone. It is called by a thread
// of the neighbour's group, with faults off.
func (b *neighbour) finish() {
	c := b.c
	b.calm = true
	sim.Poke()
	if !sim.WaitFor("neighbour's callback", int64(b.slow)+c.Case.Sim.StallMax+1e9, func() bool { return b.inCB == 0 }) {
		c.bad("G05", "neighbour-callback", "a callback of a second generator did not return")
		return
	}
	sim.Sleep(time.Duration(c.Case.Sim.StallMax + int64(b.slow) + 4*b.iv))
	tk := sim.Ticks()
	if len(tk) == 0 {
		c.bad("G05", "neighbour-silent", "a second generator never began a tick")
		return
	}
	last := tk[len(tk)-1].When
	k := (sim.NowNs()-last)/b.iv + 1
	sim.Sleep(time.Duration(last + k*b.iv + b.iv/2 - sim.NowNs()))
	n0, p0 := b.nexts, b.packets
	sim.Sleep(time.Duration(3 * b.iv))
	if b.nexts-n0 != 3 {
		c.bad("G05", "neighbour-pace", "with nothing slow a second generator completed %d ticks in 3 of its intervals", b.nexts-n0)
	}
	if b.badN == 0 && b.packets-p0 != 3 {
		c.bad("G01", "neighbour-packets", "with nothing slow a second generator delivered %d packets in 3 ticks", b.packets-p0)
	}
	if b.badN == 0 && b.errs > 0 {
		c.bad("G08", "neighbour-error", "a second generator, all of whose trackers can be encoded, reported %d errors", b.errs)
	}
	b.g.Close()
	if !sim.JoinFor(b.run, 20e9) {
		c.bad("G04", "neighbour-not-closed", "Run of a second generator did not return after Close")
		return
	}
	sim.Sleep(50 * time.Millisecond)
	if l := sim.LiveLib(); len(l) > 0 {
		c.bad("G04", "neighbour-leak", "after Run of a second generator returned these goroutines remain: %v", l)
	}
	p := b.packets + b.nexts + b.errs
	sim.Sleep(time.Duration(3 * b.iv))
	if b.packets+b.nexts+b.errs != p {
		c.bad("G04", "neighbour-after-close", "a second generator invoked callbacks after Run had returned")
	}
	c.count("neighbours")
}
