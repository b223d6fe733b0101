package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"google.golang.org/protobuf/proto"
	"gpsverif/sim"
)

// The ckpt scenario runs a fleet whose trackers are checkpointed while it
// runs, by other threads and from callbacks, to a simulated disk. The process
// is lost at an arbitrary instant; the last durable checkpoint is loaded into
// a new generator, which has to go on from there (P06).

func init() {
	scenarios["ckpt"] = &Scenario{Gen: genCkpt, Run: runCkpt}
	propScn["P06"] = append(propScn["P06"], weighted{"ckpt", 10})
}

func genCkpt(r *sim.Stream, prop string, thorough bool) (Plan, sim.Config) {
	cfg := map[string]int{
		"seed": r.Intn(1 << 30), "interval_ms": pick(r, 1000, 1000, 1500, 3000), "workers": pick(r, 1, 1, 2, 4, 8),
		"n": pick(r, 1, 2, 3, 5, 8), "gens": r.Range(1, 3), "edits": pick(r, 0, 0, 1), "shape": r.Intn(3), "cpus": pick(r, 1, 2, 4),
		"style": r.Intn(5), "every": pick(r, 0, 1, 2, 3),
	}
	if r.Intn(12) == 0 {
		cfg["workers"] = pick(r, 8, 16)
		cfg["n"] = cfg["workers"] + 1024/cfg["workers"] + 1 + r.Intn(5)
	}
	var cl [][]Op
	for g := 0; g < cfg["gens"]; g++ {
		for k := r.Range(1, 3); k > 0; k-- {
			ops := []Op{{K: "gen", A: []int64{int64(g)}}}
			t := int64(0)
			iv := int64(cfg["interval_ms"])
			for j := r.Range(1, 5); j > 0; j-- {
				dt := int64(r.Intn(int(2 * iv)))
				if r.Intn(2) == 0 { // at a tick
					dt = (t/iv+1)*iv - t - int64(r.Intn(2))
				}
				t += dt
				ops = append(ops, Op{K: "sleep", A: []int64{dt, int64(r.Intn(20000))}})
				kind := pick(r, "save", "save", "save", "save", "attach", "detach", "edit", "arm")
				if kind == "edit" && cfg["edits"] == 0 {
					kind = "save"
				}
				ops = append(ops, Op{K: kind, A: []int64{int64(r.Intn(1 << 20)), int64(r.Intn(5)), int64(r.Intn(1 << 20))}})
			}
			cl = append(cl, ops)
		}
		// the end of this life
		cfg[fmt.Sprint("crash_ms", g)] = cfg["interval_ms"]*r.Range(1, 5) + pick(r, 0, 0, r.Intn(1000))
		cfg[fmt.Sprint("crash_us", g)] = r.Intn(3000)
		cfg[fmt.Sprint("crash_steps", g)] = pick(r, 0, 0, r.Intn(20), r.Intn(400))
	}
	p := Plan{Cfg: cfg, Clients: cl}
	sc := swarm(r, swarmOpt{interval: int64(cfg["interval_ms"]) * 1e6, maxSteps: 12_000_000, est: 20000})
	return p, sc
}

type ckTracker struct {
	id           string
	d            *gpsgen.Device
	attCall, att int64
	detCall, det int64
	loaded       bool
}

// life is one process.
type life struct {
	g     *gpsgen.Generator
	ts    []*ckTracker
	by    map[string]*ckTracker
	disk  *disk
	dead  bool
	count map[string]int
	first map[string]*pb.Device
	pkts  int
	armed int
	inCB  int
}

type ckEntry struct {
	id   string
	b    []byte
	want uint64 // the state, if it was the same before and after
}

type ckpt struct {
	c     *Ctx
	seed  uint64
	shape int
	// the last durable checkpoint
	have  bool
	must  map[string]bool
	may   map[string]bool
	want  map[string]uint64
	saved int
}

func runCkpt(c *Ctx) {
	y := &ckpt{c: c, seed: uint64(c.cfg("seed")), shape: c.cfg("shape")}
	c.state = y
	sim.SimCPUs = c.clamp("cpus", 1, 8)
	sim.Quiet(true)
	l := y.boot(newDisk(c, sim.NewStream(y.seed, "disk")))
	for i := 0; i < c.clamp("n", 1, 200); i++ {
		y.spawn(l, i)
	}
	for g := 0; g < c.clamp("gens", 1, 4); g++ {
		d := y.live(l, g)
		if len(c.V) > 0 || d == nil {
			return
		}
		l = y.resume(d)
		if len(c.V) > 0 || l == nil {
			return
		}
	}
	l.g.Close()
}

func (y *ckpt) boot(d *disk) *life {
	c := y.c
	l := &life{disk: d, by: map[string]*ckTracker{}, count: map[string]int{}, first: map[string]*pb.Device{}}
	l.g = gpsgen.New(&gpsgen.Options{Interval: time.Duration(c.clamp("interval_ms", 1000, 10000)) * time.Millisecond, PacketSize: 1024, NumWorkers: c.clamp("workers", 1, 64)})
	l.g.OnPacket(func(b []byte) {
		if l.dead {
			return
		}
		p, err := gpsgen.PacketFromBytes(b)
		if err != nil {
			c.bad("P06", "packet", "a packet cannot be decoded: %v", err)
			return
		}
		for _, x := range p.Devices {
			l.count[x.Id]++
			if l.first[x.Id] == nil {
				l.first[x.Id] = x
			}
		}
		l.pkts++
		if e := c.cfg("every"); e == 1 || l.armed > 0 {
			l.armed = 0
			y.save(l, c.cfg("style"), "packet")
		}
	})
	l.g.OnNext(func() {
		if l.dead {
			return
		}
		if e := c.cfg("every"); e == 2 {
			y.save(l, c.cfg("style"), "next")
		}
	})
	l.g.OnError(func(err error) {
		if !l.dead {
			c.bad("P06", "error", "the generator reports %v", err)
		}
	})
	return l
}

func stateHash(s *pb.Device) uint64 {
	return digest(s)
}

func (y *ckpt) spawn(l *life, i int) {
	r := sim.NewStream(mix(y.seed, uint64(i)), "tracker")
	o := fleetOptions(r)
	o.ID = fmt.Sprintf("ck-%03d", i)
	if r.Intn(2) == 0 {
		o.Battery.ChargeTime = 100 * time.Hour
	}
	d := mustDevice(o)
	sh := []int{shLong, shMulti, shGaps}[y.shape%3]
	d.AddRoute(newRoute(sh, mix(y.seed, uint64(i), 9)))
	for k := r.Intn(3); k > 0; k-- {
		d.AddSensor(newSensor(r, fmt.Sprint("s", k)))
	}
	t := &ckTracker{id: o.ID, d: d, detCall: never, det: never, attCall: never, att: never}
	y.enter(l, t)
	if i%5 != 4 {
		y.attach(l, t)
	}
}

func (y *ckpt) enter(l *life, t *ckTracker) {
	l.ts = append(l.ts, t)
	l.by[t.id] = t
}

func (y *ckpt) attach(l *life, t *ckTracker) {
	if t.attCall != never && t.det == never {
		return
	}
	t.attCall, t.att, t.detCall, t.det = sim.Tick(), never, never, never
	if err := l.g.Attach(t.d); err != nil {
		y.c.bad("P06", "unattachable", "tracker %s cannot be attached: %v", t.id, err)
	}
	t.att = sim.Tick()
}

func (y *ckpt) detach(l *life, t *ckTracker) {
	if t.att == never || t.detCall != never {
		return
	}
	t.detCall = sim.Tick()
	l.g.Detach(t.id)
	t.det = sim.Tick()
}

// live runs the fleet until the process is lost, and returns what is left.
func (y *ckpt) live(l *life, gen int) *disk {
	c := y.c
	run := sim.Go("run", l.g.Run)
	sim.Sleep(20 * time.Millisecond)
	sim.Quiet(false)
	for i, ops := range c.P.Clients {
		if len(ops) == 0 || ops[0].K != "gen" || int(ops[0].arg(0)) != gen {
			continue
		}
		ops := ops
		sim.Go(fmt.Sprint("client", i), func() {
			for _, o := range ops {
				if l.dead {
					return
				}
				y.do(l, o)
			}
		})
	}
	sim.Sleep(time.Duration(max(1, c.cfg(fmt.Sprint("crash_ms", gen))))*time.Millisecond + time.Duration(c.cfg(fmt.Sprint("crash_us", gen)))*time.Microsecond)
	for k := c.cfg(fmt.Sprint("crash_steps", gen)); k > 0; k-- {
		sim.ForceYield()
	}
	// the process is gone: what its threads still do has no effect
	l.dead = true
	d := &disk{c: c, r: l.disk.r, block: l.disk.block, files: map[string]*dfile{}}
	l.disk.crash()
	for k, f := range l.disk.files {
		d.files[k] = f
	}
	l.disk = newDisk(c, sim.NewStream(0, "void"))
	sim.Quiet(true)
	l.g.Close()
	sim.JoinFor(run, 60e9+8*c.Case.Sim.StallMax)
	return d
}

func (y *ckpt) do(l *life, o Op) {
	if len(l.ts) == 0 {
		return
	}
	t := l.ts[o.idx(0, len(l.ts))]
	y.c.count("op_" + o.K)
	switch o.K {
	case "sleep":
		sim.Sleep(time.Duration(o.arg(0))*time.Millisecond + time.Duration(o.arg(1)%1000000)*100*time.Nanosecond)
	case "save":
		y.save(l, int(o.arg(1)), "thread")
	case "arm": // at the next packet
		l.armed++
	case "attach":
		y.attach(l, t)
	case "detach":
		y.detach(l, t)
	case "edit":
		switch o.arg(2) % 5 {
		case 0:
			t.d.SetDescription(fmt.Sprint("edit ", o.arg(2)))
		case 1:
			t.d.AddSensor(newSensor(sim.NewStream(uint64(o.arg(2)), "edit"), "more"))
		case 2:
			t.d.DestinationTo(t.d.Distance() * 0.3)
		case 3:
			t.d.ToOffline()
		default:
			t.d.AddRoute(newRoute(shSingle, uint64(o.arg(2))))
		}
	}
}

// save takes a checkpoint: all trackers, written aside, made durable and
// then put in place.
func (y *ckpt) save(l *life, style int, from string) {
	c := y.c
	y.saved++
	n := y.saved
	s0 := sim.Tick()
	var list []ckEntry
	add := func(d *gpsgen.Device, how int) {
		var b []byte
		var err error
		before := d.State()
		switch how % 3 {
		case 0:
			b, err = d.MarshalBinary()
		case 1:
			b, err = gpsgen.EncodeTracker(d)
		default:
			b, err = proto.Marshal(d.Snapshot())
		}
		if err != nil {
			c.bad("P06", "unsavable", "tracker %s cannot be saved while it runs: %v", d.ID(), err)
		}
		e := ckEntry{id: d.ID(), b: b}
		if after := d.State(); before.Tick != 0 && stateHash(before) == stateHash(after) {
			e.want = stateHash(after)
		} else {
			c.count("saved_amid_change")
		}
		list = append(list, e)
	}
	if style%2 == 0 { // while iterating
		l.g.Each(func(_ int, d *gpsgen.Device) bool { add(d, style); return true })
	} else {
		var ds []*gpsgen.Device
		l.g.Each(func(_ int, d *gpsgen.Device) bool { ds = append(ds, d); return true })
		for _, d := range ds {
			add(d, style)
		}
	}
	s1 := sim.Tick()
	if l.dead {
		return
	}
	must, may := map[string]bool{}, map[string]bool{}
	for _, t := range l.ts {
		if t.att < s0 && t.detCall > s1 {
			must[t.id] = true
		}
		if t.attCall < s1 && t.det > s0 {
			may[t.id] = true
		}
	}
	want := map[string]uint64{}
	var buf bytes.Buffer
	for _, e := range list {
		want[e.id] = e.want
		binary.Write(&buf, binary.LittleEndian, uint32(len(e.b)))
		buf.Write(e.b)
	}
	tmp := fmt.Sprintf("ckpt.%d.tmp", n)
	dk := l.disk
	dk.write(tmp, buf.Bytes(), true)
	if l.dead {
		return
	}
	dk.sync(tmp)
	if n%3 == 0 {
		sim.ForceYield()
		if l.dead {
			return
		}
	}
	dk.rename(tmp, "ckpt")
	y.have, y.must, y.may, y.want = true, must, may, want
	c.count("checkpoint_from_" + from)
}

// resume loads the last checkpoint in a new process and runs it.
func (y *ckpt) resume(dk *disk) *life {
	c := y.c
	if !y.have {
		c.count("crash_before_checkpoint")
		return nil
	}
	l := y.boot(dk)
	l.armed = 0
	b := dk.read("ckpt")
	at := map[string]*pb.Device{}
	seen := map[string]int{}
	for len(b) >= 4 {
		n := int(binary.LittleEndian.Uint32(b))
		if n > len(b)-4 {
			c.bad("P06", "checkpoint-torn", "the durable checkpoint is torn")
			return nil
		}
		x := b[4 : 4+n]
		b = b[4+n:]
		var d *gpsgen.Device
		var err error
		switch len(at) % 3 {
		case 0:
			d, err = gpsgen.DecodeTracker(x)
		case 1:
			d = new(gpsgen.Device)
			err = d.UnmarshalBinary(x)
		default:
			d = gpsgen.NewTracker()
			s := new(pb.Snapshot)
			if err = proto.Unmarshal(x, s); err == nil {
				err = d.FromSnapshot(s)
			}
		}
		if err != nil {
			c.bad("P06", "unloadable", "a tracker of the checkpoint cannot be loaded: %v", err)
			return nil
		}
		id := d.ID()
		seen[id]++
		if seen[id] > 1 {
			c.bad("P06", "duplicated", "tracker %s is in the checkpoint %d times", id, seen[id])
			return nil
		}
		if !y.may[id] {
			c.bad("P06", "foreign", "tracker %s is in the checkpoint although it was not attached while that was taken", id)
			return nil
		}
		if d.Status() != gpsgen.Stopped {
			c.bad("P06", "running-unattached", "tracker %s is running (status %v) before it is attached", id, d.Status())
			return nil
		}
		st := cloneState(d.State())
		at[id] = st
		if w := y.want[id]; w != 0 {
			c.count("state_compared")
			if stateHash(st) != w {
				c.bad("P06", "state", "tracker %s is loaded in another state than it had when it was saved", id)
				return nil
			}
		}
		l.ts = append(l.ts, &ckTracker{id: id, d: d, attCall: never, att: never, detCall: never, det: never, loaded: true})
		l.by[id] = l.ts[len(l.ts)-1]
	}
	for _, id := range sortedKeys(y.must) {
		if seen[id] == 0 {
			c.bad("P06", "lost", "tracker %s was attached while the checkpoint was taken but is not in it", id)
			return nil
		}
	}
	c.count("resumed")
	c.Work++
	for _, t := range l.ts {
		y.attach(l, t)
		if t.d.Status() != gpsgen.Running {
			c.bad("P06", "not-running", "tracker %s is not running although it is attached again", t.id)
		}
	}
	if n := l.g.NumDevices(); n != len(l.ts) {
		c.bad("P06", "attached", "%d trackers are attached instead of %d", n, len(l.ts))
	}
	iv := time.Duration(c.clamp("interval_ms", 1000, 10000)) * time.Millisecond
	if len(l.ts) == 0 {
		return nil
	}
	// without any faults
	every := c.P.Cfg["every"]
	c.P.Cfg["every"] = 0
	probe := sim.Go("run", l.g.Run)
	const ticks = 3
	sim.Sleep(ticks*iv + iv/2)
	for _, t := range l.ts {
		if l.count[t.id] != ticks {
			c.bad("P06", "unpublished", "in %d ticks after the crash tracker %s was published %d times", ticks, t.id, l.count[t.id])
			return nil
		}
		y.goesOn(at[t.id], l.first[t.id], iv)
	}
	c.P.Cfg["every"] = every
	if len(c.V) > 0 {
		return nil
	}
	l.g.Close()
	sim.JoinFor(probe, 20e9)
	// the same trackers once more, with another generator for the next life
	m := y.boot(dk)
	for _, t := range l.ts {
		l.g.Detach(t.id)
		t.attCall, t.att, t.detCall, t.det = never, never, never, never
		y.enter(m, t)
		y.attach(m, t)
	}
	return m
}

// goesOn checks the first step after the crash.
func (y *ckpt) goesOn(a, b *pb.Device, iv time.Duration) {
	c := y.c
	bad := func(class, format string, v ...any) {
		c.bad("P06", "resume-"+class, "the first record of tracker %s after the crash "+format, append([]any{a.Id}, v...)...)
	}
	if a.UserId != b.UserId || a.Model != b.Model || a.Color != b.Color || a.Description != b.Description {
		bad("identity", "belongs to another user, model, color or description")
	}
	if len(a.Sensors) != len(b.Sensors) {
		bad("sensors", "has %d sensors instead of %d", len(b.Sensors), len(a.Sensors))
		return
	}
	for i := range a.Sensors {
		if a.Sensors[i].Id != b.Sensors[i].Id || a.Sensors[i].Name != b.Sensors[i].Name {
			bad("sensors", "has other sensors")
		}
	}
	if len(a.Routes.GetRoutes()) != len(b.Routes.GetRoutes()) {
		bad("routes", "has %d routes instead of %d", len(b.Routes.GetRoutes()), len(a.Routes.GetRoutes()))
		return
	}
	for i, r := range a.Routes.GetRoutes() {
		if r.RouteId != b.Routes.Routes[i].RouteId {
			bad("routes", "has other routes")
		}
	}
	if math.Abs(b.Tick-iv.Seconds()) > slack {
		bad("tick", "covers %f s", b.Tick)
	}
	if b.Duration == 0 || a.Duration == 0 && a.Tick != 0 {
		return // a lap ended
	}
	if !near(b.Duration, a.Duration+b.Tick, 1e-6) {
		bad("duration", "shows a duration of %f s; the checkpoint had %f s, the tick was of %f s", b.Duration, a.Duration, b.Tick)
	}
	if a.IsOffline {
		if a.OfflineDuration > 0 && b.OfflineDuration != a.OfflineDuration-1 && b.Battery.GetCharge() <= a.Battery.GetCharge() {
			bad("offline", "shows %d ticks offline; the checkpoint had %d", b.OfflineDuration, a.OfflineDuration)
		}
		if a.Location.Lat != b.Location.Lat || a.Location.Lon != b.Location.Lon {
			bad("offline-moved", "is at another place although the tracker was offline")
		}
		return
	}
	if b.Distance.CurrentDistance < a.Distance.CurrentDistance-0.2 {
		bad("backwards", "has a distance of %f; the checkpoint had %f", b.Distance.CurrentDistance, a.Distance.CurrentDistance)
	}
	if v := b.Distance.CurrentDistance - a.Distance.CurrentDistance; v > b.Speed*b.Tick*1.0001+0.2 && b.Distance.CurrentDistance > 0 {
		bad("leap", "has moved %f m in %f s at %f m/s", v, b.Tick, b.Speed)
	}
}
