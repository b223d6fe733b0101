package main

import (
	"fmt"
	"math"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
	"gpsverif/sim"
)

// The fleet scenario runs one whole generator with its workers, callbacks and
// clients. Its recorded history decides G01, G02, G04-G09.

func init() {
	scenarios["fleet"] = &Scenario{Gen: genFleet, Run: runFleet, Post: postFleet}
	for _, p := range []string{"G01", "G02", "G04", "G05", "G06", "G07", "G08", "G09"} {
		propScn[p] = append(propScn[p], weighted{"fleet", 10})
	}
}

const (
	cbPacket = 1
	cbError  = 2
	cbNext   = 4
)

const (
	closeQuiet  = iota // after a fault-free final phase
	closeAt            // at an arbitrary moment, from another goroutine
	closePacket        // from the packet callback
	closeNext          // from the next-step callback
	closeError         // from the error callback
	closeFirst         // before Run
	closeEach          // from inside an iteration
	numClose
)

// span of a tracker's attachment.
type span struct {
	attCall, attRet int64
	detCall, detRet int64 // maxInt64 while attached
	dur0            float64
	first           bool
}

type probe struct {
	ticks int
	dur   float64
	ok    bool
}

type ftracker struct {
	i      int
	d      *gpsgen.Device
	id     string
	routed bool
	edited bool // some client edits it
	shape  int
	spans  []*span
	bad    []*span // text is unencodable: attCall.. = spoil, detCall.. = heal
	probe  probe
	swap   [2]*pb.Snapshot
	extra  int
	text0  string
	texts  []textOp // writes of the description
	seen   []durOp  // durations read by clients
}

type textOp struct {
	call, ret int64
	val       string
}

type durOp struct {
	call, ret int64
	dur       float64
}

// text changes the description of t by fn and remembers it.
func (f *fleet) text(t *ftracker, val string, fn func()) {
	t.texts = append(t.texts, textOp{sim.Tick(), never, val})
	k := len(t.texts) - 1
	fn()
	t.texts[k].ret = sim.Tick()
}

// textAt reports whether the description of t could be read as val by a
// reader active from step lo to step hi.
func (t *ftracker) textAt(val string, lo, hi int64) bool {
	if len(t.texts) == 0 {
		return true
	}
	ok := func(call, ret int64) bool {
		for _, o := range t.texts {
			if o.call > ret && o.ret < lo {
				return false // overwritten before the reader began
			}
		}
		return call < hi
	}
	if val == t.text0 && ok(-1, -1) {
		return true
	}
	for _, o := range t.texts {
		if o.val == val && ok(o.call, o.ret) {
			return true
		}
	}
	return false
}

type frec struct {
	id    string
	t     *ftracker
	dur   float64
	tick  float64
	descr string
	route bool
}

type fpkt struct {
	s0, s1 int64
	c0, c1 int64
	ts     int64
	recs   []frec
	err    string
	data   []byte
	hash   uint64
}

type fcall struct {
	s0, s1 int64
	c0, c1 int64
}

type kept struct {
	st   *pb.Device
	hash uint64
	step int64
	what string
}

type fleet struct {
	c        *Ctx
	g        *gpsgen.Generator
	ts       []*ftracker
	byID     map[string]*ftracker
	pkts     []*fpkt
	errs     []*fcall
	nexts    []*fcall
	kept     []kept
	inCB     int
	calm     bool // callbacks no longer sleep or re-enter
	noReent  bool
	interval int64
	closeReq int64 // step of the first Close call, 0 if none
	closeRet int64
	closeClk int64
	runCall  int64
	runClk   int64
	runRet   int64
	quietAt  int64 // simulated time at which faults stopped
	quietEnd int64 // step at which the quiet phase ended
	contend  bool  // some client may hold tracker locks
	reads    bool
	churn    bool
	cbInst   int64 // step at which all callbacks were installed
	nthPkt   int
	nthNext  int
	nthErr   int
	stopped  bool
	endA     int64 // time of the last tick at the final reading
	endDur   map[string]float64
	runThr   *sim.Thread
	hashSeed uint64
	locks    []lockSpan
}

// lockSpan is a period in which a call may hold a tracker's lock, so that a
// tick may find the tracker busy; t is nil if it may be any tracker.
type lockSpan struct {
	call, ret int64
	t         *ftracker
}

func (f *fleet) locking(t *ftracker, fn func()) {
	i := len(f.locks)
	f.locks = append(f.locks, lockSpan{sim.Tick(), never, t})
	fn()
	f.locks[i].ret = sim.Tick()
}

// how the options of the generator are given
const (
	optGiven = iota
	optNil
	optNew
	optZeroInterval
	optNegInterval
)

const never = int64(math.MaxInt64)

func genFleet(r *sim.Stream, prop string, thorough bool) (Plan, sim.Config) {
	cfg := map[string]int{}
	p := Plan{Cfg: cfg}
	cfg["interval_ms"] = pick(r, 1000, 1000, 1500, 2000, 3000)
	cfg["workers"] = pick(r, 1, 2, 3, 4, 4, 8, 16, 32)
	cfg["psize"] = 1024
	if r.Intn(6) == 0 {
		cfg["psize"] = pick(r, 1025, 1031, 2048)
	}
	cfg["n"] = pick(r, 0, 1, 1, 2, 3, 5, 8, 12)
	cfg["routed"] = pick(r, 100, 100, 70)
	cfg["ticks"] = r.Range(3, 7)
	cfg["cb"] = cbPacket | cbError | cbNext
	cfg["seed"] = r.Intn(1 << 30)
	cfg["cpus"] = pick(r, 1, 2, 4)
	if r.Intn(8) == 0 {
		cfg["workers"] = 0 // the default: number of processors
	}
	big := 0 // chance in percent for fleets that need several slices
	churn, edits, holds, bads, reent := 0, 0, 0, 0, 0
	sleeps := r.Intn(3) == 0
	switch prop {
	case "G01":
		big, churn = 55, 40
	case "G02":
		big, churn = 30, 100
	case "G03":
		big, churn, reent = 15, 100, 30
	case "G04":
		big, churn, reent = 25, 30, 30
		sleeps = r.Intn(2) == 0
		cfg["close"] = r.Intn(numClose)
		if cfg["close"] == closeQuiet {
			cfg["close"] = closeAt
		}
		cfg["rerun"] = r.Intn(2)
		cfg["closers"] = r.Range(1, 3)
	case "G05":
		big, churn, edits, holds, reent, bads = 25, 50, 40, 40, 80, 20
		sleeps = r.Intn(2) == 0
	case "G06":
		big, holds, churn = 5, 60, 20
		sleeps = r.Intn(2) == 0
	case "G07":
		big, churn, edits, holds = 10, 20, 90, 20
	case "G08":
		big, bads, churn = 45, 100, 20
		cfg["cb"] = pick(r, 7, 7, 1, 3, 5, 2, 4)
	case "G09":
		big, churn = 20, 20
		sleeps = r.Intn(2) == 0
		cfg["cb"] = pick(r, 7, 7, 4, 5)
	}
	if r.Intn(100) < big {
		w := pick(r, 2, 3, 4, 8, 16, 32, 64)
		cfg["workers"] = w
		min := w + cfg["psize"]/w + 1
		switch x := r.Intn(10); {
		case x < 6:
			cfg["n"] = pick(r, min-1, min, min+1, min+r.Intn(w+1), min+r.Intn(60))
			if cfg["n"] > 400 {
				cfg["workers"] = 16
				cfg["n"] = 16 + 64 + r.Intn(40)
			}
		case x < 9 || thorough:
			// more than one packet
			cfg["psize"] = 1024
			cfg["n"] = pick(r, 1023, 1024, 1025, 1026, 1040, 1100)
			if r.Intn(4) == 0 {
				cfg["n"] = pick(r, 2047, 2048, 2049)
			}
		}
		if cfg["n"] > 300 {
			cfg["ticks"] = r.Range(2, 3)
			cfg["routed"] = 3
		} else if cfg["n"] > 40 {
			cfg["routed"] = pick(r, 10, 40)
			cfg["ticks"] = r.Range(2, 4)
		}
	}
	if sleeps {
		cfg["pk_sleep_ms"] = pick(r, 0, 5, 400, 1500, 4000)
		cfg["nx_sleep_ms"] = pick(r, 0, 5, 700, 5000, 12000)
		cfg["er_sleep_ms"] = pick(r, 0, 300)
	}
	if prop == "G09" && r.Intn(5) == 0 {
		cfg["nx_edge"] = 1 // callbacks that end when the next tick comes
	}
	if (prop == "G06" || prop == "G02" || prop == "G09") && cfg["n"] <= 12 && r.Intn(8) == 0 {
		// slow worlds: minutes between ticks
		if r.Intn(2) == 0 {
			cfg["interval_ms"] = pick(r, 20000, 61500, 200000)
		} else {
			cfg["pk_sleep_ms"] = pick(r, 40000, 90000, 300000)
		}
	}
	if prop == "G06" && cfg["n"] <= 12 && r.Intn(4) == 0 {
		// many ticks, a fraction of a millisecond off
		cfg["interval_us"] = r.Intn(1000)
		cfg["ticks"] = r.Range(7, 40)
	}
	if r.Intn(10) == 0 {
		// options left to the library
		switch r.Intn(5) {
		case 0, 1:
			cfg["opts"], cfg["interval_ms"] = pick(r, optNil, optNew), 3000
		case 2:
			cfg["opts"], cfg["interval_ms"] = pick(r, optZeroInterval, optNegInterval), 1000
		case 3:
			cfg["psize"] = pick(r, 0, -7, 1, 1023)
		case 4:
			cfg["workers"] = pick(r, -2, 100)
		}
	}
	if r.Intn(3) == 0 {
		cfg["startdelay_ms"] = pick(r, 1, 400, cfg["interval_ms"]-1, cfg["interval_ms"]+300, 3*cfg["interval_ms"]+777)
	}
	if r.Intn(6) == 0 {
		cfg["latecb_ms"] = r.Intn(3 * cfg["interval_ms"])
	}
	if r.Intn(100) < reent {
		cfg["reent"] = r.Range(1, 100)
	}
	nt := cfg["n"] + r.Intn(4)
	cfg["pool"] = nt
	nc := r.Range(1, 3)
	horizon := int64(cfg["ticks"] * cfg["interval_ms"])
	act := func(pct int) bool { return r.Intn(100) < pct }
	doChurn, doEdit, doHold, doBad := act(churn), act(edits), act(holds), act(bads)
	for c := 0; c < nc; c++ {
		var ops []Op
		t := int64(0)
		for t < horizon {
			// Land near ticks as well as anywhere.
			dt := int64(r.Intn(int(horizon)/2 + 1))
			if r.Intn(3) > 0 {
				iv := int64(cfg["interval_ms"])
				next := (t/iv + 1) * iv
				dt = next - t
				if r.Intn(2) == 0 {
					dt -= int64(r.Intn(3))
				}
			}
			if dt < 0 {
				dt = 0
			}
			ops = append(ops, Op{K: "sleep", A: []int64{dt, int64(r.Intn(1000000))}})
			t += dt
			burst := r.Range(1, 4)
			for b := 0; b < burst; b++ {
				tr := int64(r.Intn(1 << 20))
				var kinds []string
				if doChurn {
					kinds = append(kinds, "attach", "detach", "detach", "attach", "num", "has", "flip")
				}
				if doEdit {
					kinds = append(kinds, "swap", "sensors", "route", "jump", "descr", "state", "state", "snap", "track")
				}
				if doHold {
					kinds = append(kinds, "hold", "hold", "state", "lookup", "each")
				}
				if doBad {
					kinds = append(kinds, "spoil", "heal", "spoil")
				}
				if prop == "G06" || prop == "G08" || r.Intn(20) == 0 {
					kinds = append(kinds, "wall")
				}
				if len(kinds) == 0 {
					break
				}
				k := kinds[r.Intn(len(kinds))]
				ops = append(ops, Op{K: k, A: []int64{tr, int64(r.Intn(100000)), int64(r.Intn(100000))}})
			}
			if len(ops) > 40 {
				break
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	if cfg["close"] != closeQuiet {
		cfg["close_at_ms"] = int(r.Float64() * float64(horizon+2000))
		if r.Intn(2) == 0 {
			cfg["close_at_ms"] = cfg["interval_ms"] * r.Range(1, 3)
		}
		cfg["close_at_us"] = r.Intn(3000)
		cfg["close_nth"] = r.Range(1, 6)
	}
	if doBad && r.Intn(2) == 0 && cfg["n"] > 0 {
		cfg["bad0"] = r.Range(1, 3)
	}
	if cfg["n"] <= 40 && cfg["interval_ms"] <= 3000 && cfg["pk_sleep_ms"] <= 4000 && cfg["nx_sleep_ms"] <= 5000 && r.Intn(8) == 0 {
		cfg["neighbour"] = 1
	}
	o := swarmOpt{interval: int64(cfg["interval_ms"]) * 1e6, maxSteps: 6_000_000, est: 20000}
	if cfg["n"] > 300 {
		o.est, o.stepCost = 150000, 20
		o.maxSteps = 30_000_000
	}
	sc := swarm(r, o)
	if cfg["n"] > 40 && sc.MeanQuantum < 20 {
		sc.MeanQuantum = pick(r, 20, 150, 1000)
	}
	if cfg["n"] > 40 && sc.StepCost > 200 {
		sc.StepCost = 200
	}
	if prop == "G09" && r.Intn(2) == 0 {
		sc.StallRate, sc.TimerJitter = 0, 0
	}
	return p, sc
}

// routeFor gives long-lasting routes: fleets should not finish a lap.
func routeFor(f *fleet, i int) *navigator.Route {
	return newRoute(shLong, mix(f.hashSeed, uint64(i), 3))
}

func runFleet(c *Ctx) {
	f := &fleet{c: c, byID: map[string]*ftracker{}}
	c.state = f
	f.hashSeed = uint64(c.cfg("seed"))
	r := sim.NewStream(f.hashSeed, "fleet")
	f.interval = int64(c.clamp("interval_ms", 1000, 200000))*1e6 + int64(c.clamp("interval_us", 0, 999))*1e3
	sim.SimCPUs = c.clamp("cpus", 1, 8)
	ps := c.clamp("psize", -100, 8192)
	nw := c.clamp("workers", -100, 200)
	for _, ops := range c.P.Clients {
		for _, o := range ops {
			switch o.K {
			case "swap", "sensors", "route", "jump", "descr", "state", "snap", "hold", "lookup", "each", "track", "spoil", "heal":
				f.contend = true
			case "attach", "detach", "flip":
				f.churn = true
			}
		}
	}
	reent := c.cfg("reent")
	if reent > 0 {
		f.contend, f.churn = true, true
	}
	n := c.clamp("n", 0, 3000)
	pool := c.clamp("pool", n, n+8)
	sim.Quiet(true)
	opts := &gpsgen.Options{Interval: time.Duration(f.interval), PacketSize: ps, NumWorkers: nw}
	switch c.cfg("opts") {
	case optNil:
		opts, f.interval = nil, 3e9 // the documented default
	case optNew:
		opts, f.interval = gpsgen.NewOptions(), 3e9
	case optZeroInterval:
		opts.Interval, f.interval = 0, 1e9
	case optNegInterval:
		opts.Interval, f.interval = -time.Minute, 1e9
	}
	f.g = gpsgen.New(opts)
	g := f.g
	routed := c.clamp("routed", 0, 100)
	for i := 0; i < pool; i++ {
		o := fleetOptions(r)
		o.Battery.ChargeTime = 100 * time.Hour
		o.ID = fmt.Sprintf("trk-%04d", i)
		t := &ftracker{i: i, d: mustDevice(o), id: o.ID, text0: o.Descr}
		if r.Intn(100) < routed || i == 0 {
			t.routed = true
			if err := t.d.AddRoute(routeFor(f, i)); err != nil {
				panic(err)
			}
		}
		f.ts = append(f.ts, t)
		f.byID[t.id] = t
	}
	for i := 0; i < n; i++ {
		f.attach(f.ts[i])
	}
	for i := 0; i < c.clamp("bad0", 0, 8) && n > 0; i++ {
		f.spoil(f.ts[r.Intn(n)])
	}
	mask := c.cfg("cb")
	install := func() {
		if mask&cbPacket != 0 {
			g.OnPacket(f.onPacket)
		}
		if mask&cbError != 0 {
			g.OnError(f.onError)
		}
		if mask&cbNext != 0 {
			g.OnNext(f.onNext)
		}
		f.cbInst = sim.Tick()
	}
	f.cbInst = never
	late := c.cfg("latecb_ms")
	if late <= 0 {
		install()
	}
	if d := c.cfg("startdelay_ms"); d > 0 {
		sim.Sleep(time.Duration(d) * time.Millisecond)
	}
	mode := c.cfg("close")
	if mode == closeFirst {
		f.close()
	}
	if c.cfg("neighbour") > 0 {
		sim.SetGroup(1)
		nb := newNeighbour(c)
		nb.start()
		sim.SetGroup(0)
		defer func() {
			if f.runRet == 0 {
				return
			}
			sim.SetGroup(1)
			nb.finish()
			sim.SetGroup(0)
		}()
	}
	f.runClk = sim.NowNs()
	f.runCall = sim.Tick()
	run := sim.Go("run", func() {
		g.Run()
		if f.inCB > 0 {
			c.bad("G04", "callback-in-progress", "Run returned while a callback was still in progress")
		}
		f.runRet = sim.Tick()
	})
	f.runThr = run
	sim.Sleep(20 * time.Millisecond)
	sim.Quiet(false)
	var cl []*sim.Thread
	for i := range c.P.Clients {
		i := i
		cl = append(cl, sim.Go(fmt.Sprintf("client%d", i), func() { f.client(i) }))
	}
	if late > 0 {
		cl = append(cl, sim.Go("installer", func() {
			sim.Sleep(time.Duration(late) * time.Millisecond)
			install()
		}))
	}
	if mode == closeAt || mode == closeEach {
		k := c.clamp("closers", 1, 4)
		for i := 0; i < k; i++ {
			i := i
			cl = append(cl, sim.Go(fmt.Sprintf("closer%d", i), func() {
				sim.Sleep(time.Duration(c.cfg("close_at_ms"))*time.Millisecond + time.Duration(c.cfg("close_at_us")+i)*time.Microsecond)
				if mode == closeEach {
					g.Each(func(int, *gpsgen.Device) bool { f.close(); return true })
				}
				f.close()
			}))
		}
	}
	span := int64(c.clamp("ticks", 1, 60)) * f.interval
	sim.Sleep(time.Duration(span))
	limit := span + 60e9 + 8*c.Case.Sim.StallMax
	for _, t := range cl {
		ok := sim.JoinFor(t, limit)
		if !ok {
			// from here on nothing is stalled and no callback dawdles
			sim.Quiet(true)
			f.calm = true
			ok = sim.JoinFor(t, limit)
		}
		if !ok {
			c.bad("G05", "client-stuck", "a concurrent API call never returned: %s", t.Name)
			c.bad(c.Case.Prop, "client-stuck", "a concurrent API call never returned: %s", t.Name)
			return
		}
	}
	if f.closeReq == 0 && mode == closeQuiet {
		f.finalPhase()
	} else if f.closeReq == 0 {
		// the callback that was to close never came
		c.count("close_fallback")
		f.close()
	}
	if f.closeReq == 0 {
		f.close()
	}
	f.afterClose()
}

// finalPhase lets the system run without faults and takes the totals.
func (f *fleet) finalPhase() {
	c := f.c
	sim.Quiet(true)
	f.calm = true
	f.quietAt = sim.NowNs() + c.Case.Sim.StallMax
	slow := int64(c.cfg("pk_sleep_ms")+c.cfg("nx_sleep_ms")+c.cfg("er_sleep_ms")) * 1e6
	sim.Sleep(time.Duration(c.Case.Sim.StallMax + slow + 4*f.interval))
	// a moment well inside an interval
	tk := sim.Ticks()
	if len(tk) > 0 {
		last := tk[len(tk)-1].When
		k := (sim.NowNs()-last)/f.interval + 1
		sim.Sleep(time.Duration(last + k*f.interval + f.interval/2 - sim.NowNs()))
	}
	if c.cfg("cb")&cbNext != 0 {
		// without anything slow, a tick per interval
		n0 := len(f.nexts)
		sim.Sleep(time.Duration(3 * f.interval))
		c.count("paces_checked")
		if n := len(f.nexts) - n0; n != 3 {
			c.bad("G05", "pace", "with nothing slow the generator completed %d ticks in 3 intervals of %v", n, time.Duration(f.interval))
		}
	}
	tk = sim.Ticks()
	f.endDur = map[string]float64{}
	f.quietEnd = sim.Tick()
	if len(tk) > 0 {
		f.endA = tk[len(tk)-1].When
	}
	for _, t := range f.ts {
		f.endDur[t.id] = t.d.Duration()
	}
	if n2 := len(sim.Ticks()); n2 != len(tk) {
		f.endDur = nil // a tick slipped in between
	}
	for _, t := range f.ts {
		f.sampleDetached(t)
	}
}

func (f *fleet) close() {
	s := sim.Tick()
	if f.closeReq == 0 {
		f.closeReq = s
	}
	f.g.Close()
	if f.closeRet == 0 {
		f.closeRet = sim.Tick()
		f.closeClk = sim.NowNs()
	}
	sim.Poke()
}

func (f *fleet) afterClose() {
	c := f.c
	sim.Quiet(true)
	f.calm = true
	f.stopped = true
	stall := c.Case.Sim.StallMax
	slow := int64(c.cfg("pk_sleep_ms")+c.cfg("nx_sleep_ms")+c.cfg("er_sleep_ms")) * 1e6
	for k := 0; k < 70; k++ {
		if !sim.WaitFor("callbacks", slow+stall+1e9, func() bool { return f.inCB == 0 }) {
			c.bad("G05", "callback-stuck", "a callback did not return")
			break
		}
		before := len(f.pkts) + len(f.errs) + len(f.nexts)
		if sim.JoinFor(f.runThr, stall+300e6) {
			break
		}
		if len(f.pkts)+len(f.errs)+len(f.nexts) == before {
			break
		}
	}
	if f.runRet == 0 {
		c.bad("G04", "run-not-returned", "Run had not returned %.3f s after Close returned and all callbacks had ended", float64(sim.NowNs()-f.closeClk)/1e9)
		c.bad(c.Case.Prop, "run-not-returned", "Run did not return after Close")
		return
	}
	sim.Sleep(time.Duration(stall + 50e6))
	if l := sim.LiveLib(); len(l) > 0 {
		c.bad("G04", "goroutine-leak", "after Run returned these goroutines of the generator remain: %v", l)
	}
	durs := map[string]float64{}
	for _, t := range f.ts {
		durs[t.id] = t.d.Duration()
	}
	n1 := len(f.pkts) + len(f.errs) + len(f.nexts)
	sim.Sleep(time.Duration(3 * f.interval))
	if c.cfg("rerun") > 0 {
		again := sim.Go("rerun", f.g.Run)
		if !sim.JoinFor(again, 2e9) {
			c.bad("G04", "rerun-not-returned", "Run on a closed generator does not return")
		}
		sim.Sleep(time.Duration(2 * f.interval))
		if l := sim.LiveLib(); len(l) > 0 {
			c.bad("G04", "goroutine-leak", "after a second Run these goroutines remain: %v", l)
		}
	}
	if n2 := len(f.pkts) + len(f.errs) + len(f.nexts); n2 != n1 {
		c.bad("G04", "callback-after-close", "%d callback(s) after Run had returned", n2-n1)
	}
	for _, t := range f.ts {
		if d := t.d.Duration(); d != durs[t.id] {
			c.bad("G04", "advanced-after-close", "tracker %s advanced after Run had returned: %f to %f", t.id, durs[t.id], d)
		}
	}
	// everything handed out must still be what it was
	for _, p := range f.pkts {
		if digestBytes(p.data) != p.hash {
			c.bad("G07", "packet-changed", "a delivered packet of %d bytes changed later", len(p.data))
		}
	}
	for _, k := range f.kept {
		if digest(k.st) != k.hash {
			c.bad("G07", "state-changed", "a state handed out by %s changed later", k.what)
		}
	}
}

// ---- clients ----

func (f *fleet) own(c, v int) *ftracker {
	n := len(f.ts)
	nc := len(f.c.P.Clients)
	if n == 0 {
		return nil
	}
	// trackers c, c+nc, c+2nc, ... belong to client c; favour the edges of
	// the list, where packets and slices are cut
	k := (n - c + nc - 1) / nc
	if c >= n || k <= 0 {
		return nil
	}
	return f.ts[c+nc*(v%k)]
}

func (f *fleet) attach(t *ftracker) {
	if len(t.spans) > 0 && t.spans[len(t.spans)-1].detRet == never {
		return
	}
	f.sampleDetached(t)
	s := &span{detCall: never, detRet: never, first: len(t.spans) == 0}
	s.dur0 = t.d.Duration()
	s.attCall = sim.Tick()
	t.spans = append(t.spans, s)
	s.attRet = never
	if err := f.g.Attach(t.d); err != nil {
		f.c.bad("G03", "attach-failed", "attaching the detached tracker %s failed: %v", t.id, err)
		f.c.bad("G02", "attach-failed", "attaching the detached tracker %s failed: %v", t.id, err)
		t.spans = t.spans[:len(t.spans)-1]
		return
	}
	s.attRet = sim.Tick()
	f.c.count("attach")
}

func (f *fleet) detach(t *ftracker) {
	if len(t.spans) == 0 {
		return
	}
	s := t.spans[len(t.spans)-1]
	if s.detRet != never || s.attRet == never {
		return
	}
	s.detCall = sim.Tick()
	if err := f.g.Detach(t.id); err != nil {
		f.c.bad("G03", "detach-failed", "detaching the attached tracker %s failed: %v", t.id, err)
		f.c.bad("G02", "detach-failed", "detaching the attached tracker %s failed: %v", t.id, err)
	}
	s.detRet = sim.Tick()
	t.probe = probe{ticks: len(sim.Ticks())}
	f.c.count("detach")
}

// sampleDetached checks that a detached tracker is not advanced any more: the
// first reading is taken once a later tick has begun.
func (f *fleet) sampleDetached(t *ftracker) {
	if len(t.spans) == 0 {
		return
	}
	s := t.spans[len(t.spans)-1]
	if s.detRet == never || !t.routed {
		return
	}
	n := len(sim.Ticks())
	if !t.probe.ok {
		if n > t.probe.ticks {
			t.probe = probe{n, t.d.Duration(), true}
		}
		return
	}
	d := t.d.Duration()
	if d != t.probe.dur {
		f.c.bad("G02", "advanced-detached", "tracker %s was detached, yet its duration went from %f to %f", t.id, t.probe.dur, d)
	}
}

const badText = "bad\xff\xfetext"

func (f *fleet) spoil(t *ftracker) {
	if n := len(t.bad); n > 0 && t.bad[n-1].detRet == never {
		return
	}
	s := &span{detCall: never, detRet: never}
	s.attCall = sim.Tick()
	t.bad = append(t.bad, s)
	s.attRet = never
	if t.i%2 == 0 {
		f.text(t, badText, func() { t.d.SetDescription(badText) })
	} else {
		t.d.SetUserID(badText)
	}
	s.attRet = sim.Tick()
	f.c.count("unencodable_text")
}

func (f *fleet) heal(t *ftracker) {
	n := len(t.bad)
	if n == 0 || t.bad[n-1].detRet != never || t.bad[n-1].attRet == never {
		return
	}
	s := t.bad[n-1]
	s.detCall = sim.Tick()
	if t.i%2 == 0 {
		f.text(t, "ok", func() { t.d.SetDescription("ok") })
	} else {
		t.d.SetUserID("ok")
	}
	s.detRet = sim.Tick()
	f.c.count("corrected_text")
}

func (f *fleet) keep(st *pb.Device, what string) {
	if len(f.kept) > 400 || st == nil {
		return
	}
	f.kept = append(f.kept, kept{st, digest(st), sim.Tick(), what})
}

func (f *fleet) client(ci int) {
	c := f.c
	for _, o := range c.P.Clients[ci] {
		if f.stopped && o.K != "sleep" {
			return
		}
		if o.K == "sleep" {
			// the clients' clock starts at Run
			sim.Sleep(time.Duration(o.arg(0))*time.Millisecond + time.Duration(o.arg(1)%1000000)*time.Nanosecond*100)
			continue
		}
		f.do(ci, o)
	}
}

func (f *fleet) do(ci int, o Op) {
	c, g := f.c, f.g
	if o.K == "wall" {
		d := (o.arg(1)%7200 - 3600) * 1e9
		sim.JumpWall(d)
		return
	}
	if o.K == "num" {
		g.NumDevices()
		return
	}
	t := f.own(ci, o.idx(0, 1<<30))
	if t == nil {
		return
	}
	if o.arg(2)%3 == 0 && len(f.ts) > 40 {
		// near the edges
		t2 := f.own(ci, len(f.ts))
		if t2 != nil && o.arg(2)%2 == 0 {
			t = f.own(ci, 0)
		}
	}
	f.sampleDetached(t)
	c.count("op_" + o.K)
	switch o.K {
	case "attach":
		f.attach(t)
		return
	case "detach", "flip", "has", "lookup", "each":
		f.locking(nil, func() { f.doOn(o, t) })
		return
	}
	f.locking(t, func() { f.doOn(o, t) })
}

func (f *fleet) doOn(o Op, t *ftracker) {
	c, g, d := f.c, f.g, t.d
	switch o.K {
	case "detach":
		f.detach(t)
	case "flip":
		f.detach(t)
		f.attach(t)
	case "has":
		g.HasTracker(t.id)
	case "lookup":
		x, ok := g.Lookup(t.id)
		if ok && x != d {
			c.bad("G03", "lookup-wrong", "Lookup(%s) returned another tracker", t.id)
		}
	case "each":
		k := 0
		g.Each(func(i int, x *gpsgen.Device) bool {
			if i != k {
				c.bad("G03", "each-index", "Each passed index %d as call number %d", i, k)
			}
			k++
			if k == 1 && o.arg(1)%2 == 0 {
				sim.Sleep(time.Duration(o.arg(1)%2000) * time.Millisecond)
			}
			if o.arg(1)%5 == 0 {
				g.NumDevices()
			}
			return k < 50
		})
	case "hold":
		dur := time.Duration(o.arg(1)%4000) * time.Millisecond
		c.count("tracker_held_busy")
		d.EachRoute(func(int, *navigator.Route) bool { sim.Sleep(dur); return false })
	case "state":
		from := sim.Tick()
		st := d.State()
		to := sim.Tick()
		f.keep(st, "State")
		t.seen = append(t.seen, durOp{from, to, st.Duration})
		if !t.textAt(st.Description, from, to) {
			c.bad("G07", "stale-state", "State() of %s has the description %q; written were %v", t.id, st.Description, t.texts)
		}
		if cl, m := recCheck(st); cl != "" {
			c.bad("G07", "state-"+cl, "State(): %s", m)
		}
	case "descr":
		x := fmt.Sprint("text ", o.arg(1))
		f.text(t, x, func() { d.SetDescription(x) })
	case "snap":
		d.Snapshot()
	case "sensors":
		t.edited = true
		k := o.arg(1) % 3
		if k == 0 || d.NumSensors() == 0 {
			a, b := f.pair(t)
			d.AddSensor(a, b)
		} else if k == 1 {
			d.ResetSensors()
		} else {
			a, b := f.pair(t)
			d.AddSensor(a, b)
		}
	case "route":
		t.edited = true
		if o.arg(1)%3 == 0 && d.NumRoutes() > 1 {
			// keep at least one so that time goes on
			d.RemoveRoute(d.RouteAt(1).ID())
		} else if d.NumRoutes() < 3 {
			t.extra++
			d.AddRoute(newRoute(shLong, mix(f.hashSeed, uint64(t.i), uint64(t.extra), 9)))
		}
	case "track":
		t.edited = true
		if d.NumRoutes() > 0 {
			d.MoveToSegment(0, 0, int(o.arg(1)%12))
		}
	case "jump":
		t.edited = true
		d.DestinationTo(float64(o.arg(1)) * 3)
	case "swap":
		t.edited = true
		f.swapState(t, int(o.arg(1)%2))
	case "spoil":
		f.spoil(t)
	case "heal":
		f.heal(t)
	}
}

func (f *fleet) pair(t *ftracker) (a, b *types.Sensor) {
	t.extra++
	n := fmt.Sprintf("pair%d", t.extra)
	a, _ = types.NewSensor(n+"a", 1, 5, 8, types.WithSensorRandomMode)
	b, _ = types.NewSensor(n+"b", 1, 5, 8, types.WithSensorRandomMode)
	return
}

// swapState replaces the whole tracker by one of two prepared contents that
// differ in every part.
func (f *fleet) swapState(t *ftracker, k int) {
	if t.swap[k] == nil {
		r := sim.NewStream(mix(f.hashSeed, uint64(t.i), uint64(k)), "swap")
		o := fleetOptions(r)
		o.Battery.ChargeTime = 100 * time.Hour
		o.ID = t.id
		tag := []string{"left", "right"}[k]
		o.Descr, o.UserID, o.Model = "swap-"+tag, "user-"+tag, "model-"+tag
		d := mustDevice(o)
		if t.routed {
			d.AddRoute(newRoute(shLong, mix(f.hashSeed, uint64(t.i), uint64(k), 11)))
		}
		s, _ := types.NewSensor("swap-"+tag, 1, 2, 4, types.WithSensorRandomMode)
		d.AddSensor(s)
		t.swap[k] = d.Snapshot()
	}
	f.text(t, t.swap[k].Descr, func() { t.d.FromSnapshot(proto.Clone(t.swap[k]).(*pb.Snapshot)) })
	f.c.count("restored_in_place")
}

// ---- callbacks ----

func (f *fleet) nap(key string, salt int) {
	ms := f.c.cfg(key)
	if ms <= 0 || f.calm {
		return
	}
	x := mix(f.hashSeed, hashStr(key), uint64(salt))
	if x%3 == 0 {
		return
	}
	f.c.count("slow_callback")
	sim.Sleep(time.Duration(x%uint64(ms)+1) * time.Millisecond)
}

// reenter calls back into the API from a callback.
func (f *fleet) reenter(salt int) {
	re := f.c.cfg("reent")
	if re == 0 || f.calm || f.noReent {
		return
	}
	x := mix(f.hashSeed, uint64(salt), 5)
	if int(x%100) >= re {
		return
	}
	f.c.count("reentrant_call")
	f.locking(nil, func() { f.reenterOp(x, salt) })
}

func (f *fleet) reenterOp(x uint64, salt int) {
	g := f.g
	x >>= 8
	n := len(f.ts)
	var t *ftracker
	if n > 0 {
		t = f.ts[x/16%uint64(n)]
	}
	switch x % 12 {
	case 0:
		g.NumDevices()
	case 1:
		if t != nil {
			g.HasTracker(t.id)
		}
	case 2:
		if t != nil {
			g.Lookup(t.id)
		}
	case 3:
		g.Each(func(i int, d *gpsgen.Device) bool { d.Status(); return i < 3 })
	case 4:
		if t != nil {
			t.d.State()
		}
	case 5:
		if t != nil {
			f.text(t, "from callback", func() { t.d.SetDescription("from callback") })
		}
	case 6:
		g.OnPacket(f.onPacket)
	case 7:
		if t != nil {
			t.d.Snapshot()
		}
	case 8:
		g.Each(func(i int, d *gpsgen.Device) bool { g.NumDevices(); g.HasTracker("x"); return i < 2 })
	case 9:
		g.Attach(nil)
		g.Detach("no such tracker")
	case 10:
		// a tracker nobody else touches
		o := gpsgen.NewDeviceOptions()
		o.ID = fmt.Sprintf("tmp-%d", salt)
		d := mustDevice(o)
		tt := &ftracker{i: -1, d: d, id: o.ID}
		f.byID[o.ID] = tt
		f.attach(tt)
		f.detach(tt)
	case 11:
		if t != nil {
			t.d.Update()
		}
	}
}

func (f *fleet) onPacket(data []byte) {
	c := f.c
	f.inCB++
	f.nthPkt++
	k := f.nthPkt
	p := &fpkt{s0: sim.Tick(), c0: sim.NowNs(), data: data, hash: digestBytes(data)}
	f.pkts = append(f.pkts, p)
	if c.cfg("close") == closePacket && f.nthPkt == c.cfg("close_nth") {
		f.close()
	}
	pk, err := gpsgen.PacketFromBytes(data)
	if err != nil {
		p.err = err.Error()
		c.bad("G08", "malformed-packet", "a packet of %d bytes was delivered that does not decode: %v", len(data), err)
	} else {
		p.ts = pk.Timestamp
		if len(pk.Devices) == 0 {
			c.bad("G08", "empty-packet", "a packet without any record was delivered")
			c.bad("G01", "empty-packet", "a packet without any record was delivered")
		}
		for i, s := range pk.Devices {
			if s == nil {
				c.bad("G01", "nil-record", "record %d of a packet is nil", i)
				continue
			}
			r := frec{id: s.Id, t: f.byID[s.Id], dur: s.Duration, tick: s.Tick, descr: s.Description, route: s.Routes != nil && len(s.Routes.Routes) > 0}
			p.recs = append(p.recs, r)
			if len(pk.Devices) < 60 || i%16 == 0 || r.t == nil {
				if cl, m := recCheck(s); cl != "" {
					c.bad("G07", cl, "record of %s: %s", s.Id, m)
				}
				f.atomicPairs(s)
			}
		}
		// nobody edits: the record is the tracker's state right now
		if len(pk.Devices) <= 80 && !f.contend && !f.churn && f.closeReq == 0 {
			for i, s := range pk.Devices {
				if i > 3 && i%8 != 0 || s == nil || f.byID[s.Id] == nil {
					continue
				}
				st := f.byID[s.Id].d.State()
				if i < 2 {
					f.keep(st, "State in a callback")
				}
				if !proto.Equal(st, s) {
					c.bad("G07", "record-differs", "published record of %s differs from its state at delivery:\n%v\nvs\n%v", s.Id, s, st)
				}
			}
		}
	}
	f.nap("pk_sleep_ms", k)
	f.reenter(k * 3)
	p.c1 = sim.NowNs()
	p.s1 = sim.Tick()
	f.inCB--
	sim.Poke()
}

// atomicPairs checks edits that were made as one operation.
func (f *fleet) atomicPairs(s *pb.Device) {
	c := f.c
	n := map[string]int{}
	for _, x := range s.Sensors {
		if len(x.Name) > 5 && x.Name[:4] == "pair" {
			n[x.Name[:len(x.Name)-1]]++
		}
	}
	for k, v := range n {
		if v != 2 {
			c.bad("G07", "half-edit", "record of %s has only one of the sensors of %s, which were added in one call", s.Id, k)
		}
	}
	var tags [2]int
	for k, tag := range []string{"left", "right"} {
		if s.Description == "swap-"+tag {
			tags[k]++
		}
		if s.UserId == "user-"+tag {
			tags[k]++
		}
		if s.Model == "model-"+tag {
			tags[k]++
		}
		for _, x := range s.Sensors {
			if x.Name == "swap-"+tag {
				tags[k]++
			}
		}
	}
	if tags[0] > 0 && tags[1] > 0 {
		c.bad("G07", "mixed-restore", "record of %s mixes two restored contents", s.Id)
	}
	if (s.Model == "model-left" || s.Model == "model-right") && len(s.Routes.Routes) > 0 {
		t := f.byID[s.Id]
		if t != nil && t.routed {
			k := 0
			if s.Model == "model-right" {
				k = 1
			}
			if sn := t.swap[k]; sn != nil && len(sn.Navigator.Routes) > 0 && s.Routes.Routes[0].RouteId != sn.Navigator.Routes[0].Id {
				c.bad("G07", "mixed-restore", "record of %s has the identity of one restored content and the route of another", s.Id)
			}
		}
	}
}

func (f *fleet) onError(err error) {
	c := f.c
	f.inCB++
	f.nthErr++
	k := f.nthErr
	e := &fcall{s0: sim.Tick(), c0: sim.NowNs()}
	f.errs = append(f.errs, e)
	if err == nil {
		c.bad("G08", "nil-error", "the error callback received nil")
	}
	if c.cfg("close") == closeError && f.nthErr == c.cfg("close_nth") {
		f.close()
	}
	f.nap("er_sleep_ms", k)
	f.reenter(k*3 + 1)
	e.c1 = sim.NowNs()
	e.s1 = sim.Tick()
	f.inCB--
	sim.Poke()
}

func (f *fleet) onNext() {
	c := f.c
	f.inCB++
	f.nthNext++
	k := f.nthNext
	e := &fcall{s0: sim.Tick(), c0: sim.NowNs(), s1: never}
	for _, o := range f.nexts {
		if o.s1 == never {
			c.bad("G09", "next-overlap", "two next-step callbacks run at the same time")
		}
	}
	f.nexts = append(f.nexts, e)
	if c.cfg("close") == closeNext && f.nthNext == c.cfg("close_nth") {
		f.close()
	}
	f.nap("nx_sleep_ms", k)
	if l := sim.Ticks(); c.cfg("nx_edge") > 0 && !f.calm && len(l) > 0 {
		x := int64(mix(f.hashSeed, 5, uint64(k)) % 24)
		sim.Sleep(time.Duration(l[len(l)-1].When + f.interval - x*10 - sim.NowNs()))
		c.count("callback_at_tick")
	}
	f.reenter(k*3 + 2)
	e.c1 = sim.NowNs()
	e.s1 = sim.Tick()
	f.inCB--
	sim.Poke()
}
