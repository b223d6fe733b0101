package main

import (
	"fmt"
	"strings"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"google.golang.org/protobuf/proto"
	"gpsverif/sim"
)

// The registry scenario records concurrent histories of the registry
// operations of two generators that share a few trackers, with or without
// ticks in progress, and decides whether they are linearizable (G03).

func init() {
	scenarios["registry"] = &Scenario{Gen: genRegistry, Run: runRegistry, Post: postRegistry}
	propScn["G03"] = append(propScn["G03"], weighted{"registry", 9}, weighted{"fleet", 1})
}

const crowdName = "crowd"

type registry struct {
	c    *Ctx
	gs   []*gpsgen.Generator
	ds   []*gpsgen.Device
	ids  []string // the trackers' identities, not always distinct
	name []string // how the model calls them: distinct
	snap []*pb.Snapshot
	ops  []linOp
	byD  map[*gpsgen.Device]string
	many []*gpsgen.Device // attached to the first generator all the time
}

var regKinds = []string{"attach", "attach", "attach", "detach", "detach", "detach", "lookup", "has", "num", "each", "each", "status", "status", "flip", "restore", "nil", "eachdo"}

func genRegistry(r *sim.Stream, prop string, thorough bool) (Plan, sim.Config) {
	cfg := map[string]int{
		"gens": pick(r, 1, 1, 2, 2), "trackers": r.Range(1, 5), "pre": r.Intn(5), "seed": r.Intn(1 << 30),
		"run": pick(r, 0, 0, 1), "same": pick(r, 0, 0, 0, 1, 2), "crowd": pick(r, 0, 0, 0, 0, 3, 17, 40, 70),
	}
	if r.Intn(100) == 0 {
		cfg["crowd"] = pick(r, 300, 1021, 1026)
	}
	p := Plan{Cfg: cfg}
	nc := r.Range(2, 5)
	per := r.Range(3, 10)
	for i := 0; i < nc; i++ {
		var ops []Op
		for k := 0; k < per; k++ {
			if cfg["run"] > 0 && r.Intn(3) == 0 {
				ops = append(ops, Op{K: "sleep", A: []int64{pick[int64](r, 1000, 999, 300, 500, 1001)}})
			}
			ops = append(ops, Op{K: regKinds[r.Intn(len(regKinds))], A: []int64{int64(r.Intn(64)), int64(r.Intn(64)), int64(r.Intn(1000))}})
		}
		p.Clients = append(p.Clients, ops)
	}
	o := swarmOpt{maxSteps: 1_000_000, est: 3000}
	if cfg["run"] > 0 {
		o.interval = 1e9
	}
	sc := swarm(r, o)
	if sc.MeanQuantum > 20 {
		sc.MeanQuantum = pick(r, 1, 3, 10, 20)
	}
	return p, sc
}

func runRegistry(c *Ctx) {
	g := &registry{c: c, byD: map[*gpsgen.Device]string{}}
	c.state = g
	r := sim.NewStream(uint64(c.cfg("seed")), "registry")
	sim.Quiet(true)
	ng := c.clamp("gens", 1, 2)
	for i := 0; i < ng; i++ {
		g.gs = append(g.gs, gpsgen.New(&gpsgen.Options{Interval: time.Second, PacketSize: 1024, NumWorkers: 2}))
	}
	n := c.clamp("trackers", 1, 6)
	for i := 0; i < n; i++ {
		o := devOptions(r)
		o.ID = fmt.Sprintf("t%d", i)
		// some worlds have trackers that share an identity
		if k := c.clamp("same", 0, 2); k > 0 {
			o.ID = fmt.Sprintf("t%d", i%k)
		}
		d := mustDevice(o)
		if i%2 == 0 {
			d.AddRoute(newRoute(shSingle, uint64(i)))
		}
		g.ds = append(g.ds, d)
		g.ids = append(g.ids, o.ID)
		g.snap = append(g.snap, d.Snapshot())
		g.name = append(g.name, fmt.Sprintf("t%d", i))
		g.byD[d] = g.name[i]
	}
	crowd := func(k int) {
		for ; k > 0; k-- {
			o := devOptions(r)
			o.ID = fmt.Sprint("c", len(g.many))
			o.Speed.Amplitude, o.Navigator.Elevation.Amplitude = 4, 4
			d := mustDevice(o)
			g.many = append(g.many, d)
			g.byD[d] = crowdName
			if err := g.gs[0].Attach(d); err != nil {
				c.bad("G03", "attach-failed", "attaching a new tracker failed: %v", err)
			}
		}
	}
	k := c.clamp("crowd", 0, 1100)
	crowd(k - k/2)
	for i := 0; i < c.clamp("pre", 0, n); i++ {
		g.do(Op{K: "attach", A: []int64{0, int64(i)}})
	}
	crowd(k / 2)
	run := c.cfg("run") > 0
	var runners []*sim.Thread
	if run {
		for _, x := range g.gs {
			x.OnPacket(func([]byte) {})
			runners = append(runners, sim.Go("run", x.Run))
		}
	}
	sim.Quiet(false)
	var cl []*sim.Thread
	for i := range c.P.Clients {
		i := i
		cl = append(cl, sim.Go(fmt.Sprintf("client%d", i), func() {
			for _, o := range c.P.Clients[i] {
				g.do(o)
			}
		}))
	}
	for _, t := range cl {
		sim.Join(t)
	}
	sim.Quiet(true)
	for i := range g.gs {
		g.do(Op{K: "each", A: []int64{int64(i), 0, 1}})
		g.do(Op{K: "num", A: []int64{int64(i)}})
	}
	for i := range g.ds {
		g.do(Op{K: "status", A: []int64{0, int64(i)}})
	}
	for i, d := range g.many {
		if x, ok := g.gs[0].Lookup(fmt.Sprint("c", i)); !ok || x != d || d.Status() != gpsgen.Running {
			c.bad("G03", "lost", "a tracker that was attached all the time is no longer found or not running")
		}
		if len(g.many) > 100 {
			break
		}
	}
	if k := len(g.many); k > 0 {
		d := g.many[k/2]
		if err := g.gs[0].Detach(fmt.Sprint("c", k/2)); err != nil || d.Status() != gpsgen.Stopped || g.gs[0].HasTracker(fmt.Sprint("c", k/2)) {
			c.bad("G03", "lost", "a tracker that was attached all the time cannot be detached: %v", err)
		}
	}
	for _, x := range g.gs {
		x.Close()
	}
	for _, t := range runners {
		sim.JoinFor(t, 20e9)
	}
}

// do performs one operation and records it. A model state holds the lists of
// the two generators: "t0,t1|t2".
func (g *registry) do(o Op) {
	c := g.c
	gi := o.idx(0, len(g.gs))
	ti := o.idx(1, len(g.ds))
	gen, d, id, name := g.gs[gi], g.ds[ti], g.ids[ti], g.name[ti]
	parts := func(s string) []string { return strings.Split(s, "|") }
	rec := func(call int64, desc string, step func(l []string) bool) {
		g.ops = append(g.ops, linOp{call: call, ret: sim.Tick(), desc: fmt.Sprintf("g%d.%s", gi, desc), step: func(s string) (string, bool) {
			l := parts(s)
			ok := step(l)
			return strings.Join(l, "|"), ok
		}})
		c.Work++
	}
	held := func(l []string) bool {
		for _, x := range l {
			if lindex(x, name) >= 0 {
				return true
			}
		}
		return false
	}
	// the trackers of the list that have this identity
	with := func(l string) (w []string) {
		for _, x := range lsplit(l) {
			for i := range g.name {
				if g.name[i] == x && g.ids[i] == id {
					w = append(w, x)
				}
			}
		}
		return
	}
	c.count("op_" + o.K)
	switch o.K {
	case "sleep":
		sim.Sleep(time.Duration(o.arg(0)) * time.Millisecond)
	case "attach":
		call := sim.Tick()
		err := gen.Attach(d)
		rec(call, fmt.Sprintf("attach(%s)=%v", name, err == nil), func(l []string) bool {
			if held(l) {
				return err != nil
			}
			l[gi] = ladd(l[gi], name)
			return err == nil
		})
	case "detach":
		call := sim.Tick()
		err := gen.Detach(id)
		// with several trackers of this identity, any one of them goes
		rec(call, fmt.Sprintf("detach(%s)=%v", id, err == nil), nil)
		g.ops[len(g.ops)-1].alts = func(s string) (to []string) {
			w := with(parts(s)[gi])
			if len(w) == 0 {
				return []string{s} // nothing to detach: changes nothing, whatever it says
			}
			if err != nil {
				return nil
			}
			for _, x := range w {
				l := parts(s)
				l[gi] = ldel(l[gi], x)
				to = append(to, strings.Join(l, "|"))
			}
			return
		}
	case "flip":
		g.do(Op{K: "detach", A: o.A})
		g.do(Op{K: "attach", A: o.A})
	case "lookup":
		call := sim.Tick()
		x, ok := gen.Lookup(id)
		found := ""
		if ok {
			if x == nil || g.byD[x] == "" || x.ID() != id {
				c.bad("G03", "lookup-wrong", "Lookup(%s) returned another tracker", id)
				return
			}
			found = g.byD[x]
		} else if x != nil {
			c.bad("G03", "lookup-wrong", "Lookup(%s) returned a tracker and no success", id)
		}
		rec(call, fmt.Sprintf("lookup(%s)=%v %s", id, ok, found), func(l []string) bool {
			if ok {
				return lindex(l[gi], found) >= 0
			}
			return len(with(l[gi])) == 0
		})
	case "has":
		call := sim.Tick()
		ok := gen.HasTracker(id)
		rec(call, fmt.Sprintf("has(%s)=%v", id, ok), func(l []string) bool { return ok == (len(with(l[gi])) > 0) })
	case "num":
		call := sim.Tick()
		n := gen.NumDevices()
		if gi == 0 {
			n -= len(g.many)
		}
		rec(call, fmt.Sprintf("num()=%d", n), func(l []string) bool { return n == len(lsplit(l[gi])) })
	case "each", "eachdo":
		call := sim.Tick()
		var seen []string
		limit, calls, others, stopped := 100, 0, 0, false
		if o.arg(2)%4 == 0 {
			limit = 1 + int(o.arg(2)/4%3)
		}
		gen.Each(func(i int, x *gpsgen.Device) bool {
			if i != calls || stopped {
				c.bad("G03", "each-index", "Each passed index %d as call number %d", i, calls)
			}
			calls++
			if g.byD[x] == crowdName {
				if others >= len(g.many) || g.many[others] != x || gi != 0 {
					c.bad("G03", "each-order", "Each passed a tracker that stays attached twice, out of order or of another generator")
				}
				others++
				return true
			}
			seen = append(seen, g.byD[x])
			if o.K == "eachdo" && i == 0 {
				k := []string{"attach", "detach", "num", "has", "lookup"}[o.arg(2)%5]
				g.do(Op{K: k, A: []int64{o.arg(0) / 2, o.arg(1)}})
			}
			if o.arg(2)%7 == 0 {
				sim.ForceYield()
			}
			stopped = len(seen) >= limit
			return !stopped
		})
		if gi == 0 && !stopped && others != len(g.many) {
			c.bad("G03", "each-missing", "Each passed %d of %d trackers that are attached all the time", others, len(g.many))
		}
		rec(call, fmt.Sprintf("each(%d)=%v", limit, seen), func(l []string) bool {
			w := lsplit(l[gi])
			if len(w) > limit {
				w = w[:limit]
			}
			return strings.Join(w, ",") == strings.Join(seen, ",")
		})
	case "status":
		call := sim.Tick()
		st := d.Status()
		if st != gpsgen.Running && st != gpsgen.Stopped {
			c.bad("G03", "status-value", "status %d", st)
		}
		rec(call, fmt.Sprintf("status(%s)=%d", name, st), func(l []string) bool { return (st == gpsgen.Running) == held(l) })
	case "restore":
		// loading new contents does not attach or detach anything
		d.FromSnapshot(proto.Clone(g.snap[ti]).(*pb.Snapshot))
	case "nil":
		gen.Attach(nil)
		if _, ok := gen.Lookup(""); ok {
			c.bad("G03", "lookup-empty", "Lookup of an empty id succeeds")
		}
		gen.Detach("nobody")
	}
}

func postRegistry(c *Ctx, res *sim.Result) {
	g, _ := c.state.(*registry)
	if g == nil || len(g.gs) == 0 {
		return
	}
	init := strings.Repeat("|", len(g.gs)-1)
	ok, why, gave := linearizable(init, append([]linOp{}, g.ops...))
	if gave {
		c.count("search_given_up")
	}
	if !ok {
		c.bad("G03", "not-linearizable", "%s", why)
	}
}
