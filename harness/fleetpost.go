package main

import (
	"fmt"
	"sort"
	"strings"

	"gpsverif/sim"
)

// The history checks of the fleet scenario. A window is the part of the
// history from the moment the generator took a tick to the moment it took the
// next one; everything a tick does happens inside its window.

type fwin struct {
	k    int
	r, e int64 // first step, first step of the next window
	clk  int64 // simulated time at r
	when int64 // time of the tick
	live bool  // the tick came after Run had surely begun
	pkts []*fpkt
	recs map[string][]frec
	errs int
	bad  bool // an unencodable tracker may be part of it
}

func postFleet(c *Ctx, res *sim.Result) {
	f, _ := c.state.(*fleet)
	if f == nil {
		return
	}
	mask := c.cfg("cb")
	var ws []*fwin
	for _, t := range res.Ticks {
		if t.Step < f.runCall || f.runCall == 0 {
			continue
		}
		if n := len(ws); n > 0 {
			ws[n-1].e = t.Step
		}
		ws = append(ws, &fwin{k: len(ws), r: t.Step, e: never, clk: t.Clock, when: t.When, live: t.When > f.runClk+30e6, recs: map[string][]frec{}})
	}
	at := func(s int64) *fwin {
		i := sort.Search(len(ws), func(i int) bool { return ws[i].r > s })
		if i == 0 {
			return nil
		}
		return ws[i-1]
	}
	for _, p := range f.pkts {
		w := at(p.s0)
		if w == nil {
			c.bad("G04", "packet-without-tick", "a packet was delivered before any tick")
			c.bad("G01", "packet-without-tick", "a packet was delivered before any tick")
			continue
		}
		w.pkts = append(w.pkts, p)
		for _, r := range p.recs {
			w.recs[r.id] = append(w.recs[r.id], r)
		}
		f.checkTimestamp(p, w, res)
	}
	for _, e := range f.errs {
		if w := at(e.s0); w != nil {
			w.errs++
		}
	}
	if f.runRet > 0 {
		for _, p := range f.pkts {
			if p.s0 > f.runRet {
				c.bad("G04", "callback-after-run", "the packet callback was invoked after Run had returned")
			}
		}
		for _, l := range [][]*fcall{f.errs, f.nexts} {
			for _, e := range l {
				if e.s0 > f.runRet {
					c.bad("G04", "callback-after-run", "a callback was invoked after Run had returned")
				}
			}
		}
	}
	// windows that ended before anything was closed
	var full []*fwin
	for _, w := range ws {
		if w.e != never && w.live && (f.closeReq == 0 || w.e < f.closeReq) {
			full = append(full, w)
			c.Work++
		}
	}
	anyBad := false
	for _, t := range f.byID {
		for _, b := range t.bad {
			anyBad = true
			for _, w := range ws {
				if b.attCall < w.e && b.detRet > w.r && t.possibly(w) {
					w.bad = true
				}
			}
		}
	}
	f.checkRecords(full, anyBad, mask)
	f.checkFresh(ws)
	f.checkAdvance(ws, full, mask)
	f.checkErrors(full, mask)
	f.checkNext(ws, full, mask)
	f.checkQuiet(ws, mask)
	f.checkFinal(ws)
}

func (t *ftracker) surely(w *fwin) *span {
	for _, s := range t.spans {
		if s.attRet < w.r && s.detCall > w.e {
			return s
		}
	}
	return nil
}

func (t *ftracker) possibly(w *fwin) bool {
	for _, s := range t.spans {
		if s.attCall < w.e && s.detRet > w.r {
			return true
		}
	}
	return false
}

// busy reports whether some call may have held t's lock in the window.
func (f *fleet) busy(t *ftracker, w *fwin) bool {
	for _, l := range f.locks {
		if (l.t == nil || l.t == t) && l.call < w.e && l.ret > w.r {
			return true
		}
	}
	return false
}

// order of trackers for stable reports.
func (f *fleet) all() []*ftracker {
	var l []*ftracker
	for _, k := range sortedKeys(f.byID) {
		l = append(l, f.byID[k])
	}
	return l
}

func (f *fleet) checkRecords(full []*fwin, anyBad bool, mask int) {
	c := f.c
	all := f.all()
	for _, w := range full {
		for id, l := range w.recs {
			t := f.byID[id]
			if t == nil {
				c.bad("G01", "foreign-record", "tick %d published a record with identity %q, which no tracker has", w.k, id)
				continue
			}
			if len(l) > 1 && (len(t.spans) < 2 || t.surely(w) != nil) {
				c.bad("G01", "duplicate", "tick %d of %d trackers published %s %d times", w.k, c.cfg("n"), id, len(l))
			}
			if !t.possibly(w) {
				if len(t.spans) == 0 || t.spans[0].attCall > w.e {
					c.bad("G01", "foreign-record", "tick %d published tracker %s, which was not attached yet", w.k, id)
					c.bad("G02", "published-before-attach", "tick %d published tracker %s, which was not attached yet", w.k, id)
				} else {
					c.bad("G02", "published-detached", "tick %d published tracker %s, whose detach call had returned before the tick", w.k, id)
				}
			}
		}
		if mask&cbPacket == 0 || w.r < f.cbInst || w.bad {
			continue
		}
		miss, have := 0, 0
		var first *ftracker
		for _, t := range all {
			if t.surely(w) == nil {
				continue
			}
			if len(w.recs[t.id]) == 0 {
				miss++
				if first == nil {
					first = t
				}
			} else {
				have++
			}
		}
		if miss > 0 {
			m := fmt.Sprintf("tick %d did not publish %d of %d attached trackers, e.g. %s (%d workers, packets of %d)",
				w.k, miss, miss+have, first.id, c.cfg("workers"), c.cfg("psize"))
			c.bad("G01", "missing", "%s", m)
			if f.churn {
				c.bad("G02", "missing", "%s", m)
			}
			if anyBad {
				c.bad("G08", "missing", "%s", m)
			}
		}
		if have > 0 {
			c.count("complete_ticks")
		}
	}
}

// checkFresh looks for records older than their tick: texts that had been
// replaced and durations that had been passed before the tick began.
func (f *fleet) checkFresh(ws []*fwin) {
	c := f.c
	for _, w := range ws {
		for _, p := range w.pkts {
			for _, r := range p.recs {
				t := r.t
				if t == nil || t.i < 0 {
					continue
				}
				if !t.textAt(r.descr, w.r, p.s0) {
					c.bad("G07", "stale-record", "the record of %s for tick %d, taken from step %d on, has the description %q; written were %v", r.id, w.k, w.r, r.descr, t.texts)
				}
				if len(t.texts) > 0 {
					c.count("texts_checked")
				}
				if t.edited {
					continue
				}
				for _, o := range t.seen {
					if o.ret < w.r && r.dur < o.dur {
						c.bad("G07", "stale-record", "the record of %s for tick %d has a duration of %f s, %f s had been read before the tick", r.id, w.k, r.dur, o.dur)
					}
					if o.call > p.s0 && o.dur < r.dur {
						c.bad("G07", "stale-state", "a state of %s has a duration of %f s, %f s had been published before", r.id, o.dur, r.dur)
					}
				}
			}
		}
	}
}

const slack = 0.002

func (f *fleet) checkAdvance(ws, full []*fwin, mask int) {
	c := f.c
	if mask&cbPacket == 0 {
		return
	}
	for _, t := range f.all() {
		if !t.routed || t.i < 0 {
			continue
		}
		for _, sp := range t.spans {
			var base *fwin // a window in which the tracker took its tick
			var baseDur, prev float64
			var prevW *fwin
			n := 0
			for _, w := range full {
				l := w.recs[t.id]
				if len(l) != 1 || w.r < f.cbInst {
					if sp.attRet < w.r && sp.detCall > w.e {
						prevW = nil
						if len(l) > 1 {
							break
						}
					}
					continue
				}
				// the record belongs to this span?
				if sp.attCall > w.e || sp.detRet < w.r {
					continue
				}
				own := true
				for _, o := range t.spans {
					if o != sp && o.attCall < w.e && o.detRet > w.r {
						own = false
					}
				}
				if !own {
					prevW = nil
					n++
					continue
				}
				d := l[0].dur
				busy := f.busy(t, w)
				if t.edited {
					// time may restart: a jump can end a lap
					continue
				}
				surely := sp.attRet < w.r && sp.detCall > w.e
				if n == 0 && !busy && sp.attRet != never {
					if d <= sp.dur0 {
						c.bad("G02", "published-unadvanced", "tick %d published tracker %s for the first time since it was attached without advancing it (duration %f)", w.k, t.id, d)
					}
				}
				// attached since the tick before, on which it would have been seen
				fresh := n == 0 && sp.first && surely && sp.attRet > f.runCall
				if fresh && w.k > 0 {
					o := ws[w.k-1]
					fresh = o.live && o.r >= f.cbInst && !o.bad && sp.attRet >= o.r
				}
				if fresh {
					// attached during the run: it gets the time since the tick before
					before, seen := f.runClk, f.runClk
					for _, o := range ws {
						if o.k < w.k {
							before, seen = max(before, o.when), max(seen, o.clk)
						}
					}
					if x := d - sp.dur0; x > max(1, sec(w.clk-before))+slack {
						c.bad("G06", "invented", "the first tick of tracker %s advanced it by %f s; the tick before was %.3f s earlier", t.id, x, sec(w.when-before))
					} else if x < sec(w.when-seen)-slack && !busy {
						c.bad("G06", "lost", "the first tick of tracker %s advanced it by %f s; the tick before was %.3f s earlier", t.id, x, sec(w.when-seen))
					}
					c.count("first_ticks_checked")
				}
				n++
				if prevW != nil {
					if d == prev {
						if !busy && surely && w.k == prevW.k+1 {
							c.bad("G02", "not-advanced", "tick %d published tracker %s without advancing it (duration %f)", w.k, t.id, d)
							c.bad("G06", "not-advanced", "tick %d published tracker %s without advancing it (duration %f)", w.k, t.id, d)
						}
					} else if !near(d, prev+l[0].tick, 1e-6) {
						c.bad("G06", "tick-sum", "tracker %s went from %f to %f with a tick of %f", t.id, prev, d, l[0].tick)
					}
					if d < prev {
						c.bad("G06", "backwards", "the duration of tracker %s went from %f to %f", t.id, prev, d)
					}
				}
				if sp.first && sp.attRet < f.runCall {
					lo, hi := sec(w.when-f.runClk)-slack, sec(w.clk-f.runClk)+slack
					if d-sp.dur0 > hi {
						c.bad("G06", "invented", "at the tick of %.3f s after the start of the run tracker %s has advanced by %f s", sec(w.when-f.runClk), t.id, d-sp.dur0)
					}
					if d-sp.dur0 < lo && !busy {
						c.bad("G06", "lost", "at the tick of %.3f s after the start of the run tracker %s has advanced by only %f s", sec(w.when-f.runClk), t.id, d-sp.dur0)
					}
				}
				if base != nil && !busy {
					lo, hi := sec(w.when-base.clk)-slack, sec(w.clk-base.when)+slack
					if x := d - baseDur; x < lo || x > hi {
						c.bad("G06", "drift", "between ticks %d and %d, %.3f to %.3f s apart, tracker %s advanced by %f s", base.k, w.k, lo, hi, t.id, x)
					}
				}
				if !busy {
					if base == nil {
						base, baseDur = w, d
					}
				}
				prev, prevW = d, w
			}
		}
	}
}

func sec(ns int64) float64 { return float64(ns) / 1e9 }

func (f *fleet) checkTimestamp(p *fpkt, w *fwin, res *sim.Result) {
	if p.err != "" {
		return
	}
	lo, hi := w.clk, p.c0
	off := int64(0)
	ok := false
	try := func(a, b, off int64) {
		if a > b {
			return
		}
		x := (sim.WallEpochNs + a + off) / 1e9
		y := (sim.WallEpochNs + b + off) / 1e9
		if p.ts >= x && p.ts <= y {
			ok = true
		}
	}
	from := lo
	for _, j := range res.Walls {
		if j.Clock <= lo {
			off = j.Off
			if j.Clock == lo {
				try(lo, lo, off)
			}
			continue
		}
		if j.Clock > hi {
			break
		}
		try(from, j.Clock, off)
		from, off = j.Clock, j.Off
	}
	try(from, hi, off)
	if !ok {
		// steps at exactly the first instant
		o := int64(0)
		for _, j := range res.Walls {
			if j.Clock <= lo {
				try(lo, lo, o)
				o = j.Off
				try(lo, lo, o)
			}
		}
	}
	if !ok {
		f.c.bad("G08", "timestamp", "a packet carries time %d; the clock showed %d to %d between its tick and its delivery", p.ts,
			(sim.WallEpochNs+lo+off)/1e9, (sim.WallEpochNs+hi+off)/1e9)
	}
}

// members of the fleet in a window, if they were the same throughout.
func (f *fleet) members(w *fwin) (string, bool) {
	var b strings.Builder
	for _, t := range f.ts {
		s := t.surely(w)
		if s == nil && t.possibly(w) {
			return "", false
		}
		if s != nil {
			fmt.Fprintf(&b, "%d@%d,", t.i, s.attRet)
		}
	}
	return b.String(), true
}

func (f *fleet) checkErrors(full []*fwin, mask int) {
	c := f.c
	type part struct {
		sets map[string]bool // "id id id"
		same bool
	}
	parts := map[string]*part{}
	shape := func(w *fwin) map[string]bool {
		m := map[string]bool{}
		for _, p := range w.pkts {
			var ids []string
			for _, r := range p.recs {
				ids = append(ids, r.id)
			}
			m[strings.Join(ids, " ")] = true
		}
		return m
	}
	if c.cfg("reent") == 0 && mask&cbPacket != 0 {
		for _, w := range full {
			if w.bad || w.r < f.cbInst {
				continue
			}
			m, ok := f.members(w)
			if !ok {
				continue
			}
			sh := shape(w)
			q := parts[m]
			if q == nil {
				parts[m] = &part{sh, true}
				continue
			}
			for k := range sh {
				if !q.sets[k] {
					q.same = false
				}
			}
		}
	}
	for _, w := range full {
		if w.r < f.cbInst {
			continue
		}
		sure := false
		for _, t := range f.ts {
			if t.surely(w) == nil {
				continue
			}
			for _, b := range t.bad {
				if b.attRet < w.r && b.detCall > w.e {
					sure = true
				}
			}
		}
		if sure {
			c.count("ticks_with_unencodable_tracker")
		}
		if sure && mask&cbError != 0 && w.errs == 0 {
			c.bad("G08", "error-not-reported", "tick %d contained a tracker that cannot be encoded, but the error callback was not invoked", w.k)
		}
		if !w.bad && w.errs > 0 {
			c.bad("G08", "spurious-error", "tick %d reported an error although every record can be encoded", w.k)
		}
		if !w.bad || mask&cbPacket == 0 {
			continue
		}
		m, ok := f.members(w)
		if !ok || parts[m] == nil || !parts[m].same {
			continue
		}
		for _, k := range sortedKeys(parts[m].sets) {
			ids := strings.Fields(k)
			clean := true
			for _, id := range ids {
				t := f.byID[id]
				if t == nil {
					clean = false
					break
				}
				for _, b := range t.bad {
					if b.attCall < w.e && b.detRet > w.r {
						clean = false
					}
				}
			}
			if !clean {
				continue
			}
			for _, id := range ids {
				if n := len(w.recs[id]); n != 1 {
					c.bad("G08", "slice-affected", "tick %d published %s %d times because another slice could not be encoded", w.k, id, n)
				}
			}
		}
	}
}

func (f *fleet) checkNext(ws, full []*fwin, mask int) {
	c := f.c
	if mask&cbNext == 0 {
		if len(f.nexts) > 0 {
			c.bad("G09", "not-installed", "a next-step callback ran although none was installed")
		}
		return
	}
	nx := append([]*fcall{}, f.nexts...)
	sort.Slice(nx, func(i, j int) bool { return nx[i].s0 < nx[j].s0 })
	for i, e := range nx {
		k := sort.Search(len(ws), func(i int) bool { return ws[i].r > e.s0 })
		allowed := k
		if k > 0 {
			for _, p := range ws[k-1].pkts {
				if p.s1 > e.s0 || p.s1 == 0 {
					allowed = k - 1
					break
				}
			}
		}
		if i+1 > allowed {
			c.bad("G09", "early-next", "next-step callback number %d began when only %d ticks had been completed and delivered", i+1, allowed)
			break
		}
	}
	strict := c.Case.Sim.StallRate == 0 && c.Case.Sim.TimerJitter == 0
	for _, w := range full {
		if !strict || w.r < f.cbInst {
			continue
		}
		done := w.r
		for _, p := range w.pkts {
			if p.s1 > done {
				done = p.s1
			}
		}
		idle, follow := true, false
		for _, e := range nx {
			if e.s0 <= done && e.s1 >= w.r {
				idle = false
			}
			if e.s0 > done && e.s0 < w.e {
				follow = true
			}
		}
		// reentrant and held locks can delay the tick loop itself
		if idle && !follow && w.e-done > 0 {
			// the next tick may have been due already when this one ended
			endClk := w.clk
			for _, p := range w.pkts {
				if p.c1 > endClk {
					endClk = p.c1
				}
			}
			if w.k+1 < len(ws) && ws[w.k+1].clk > endClk+f.interval/4 {
				c.bad("G09", "next-missing", "no next-step callback after tick %d although the callback was idle", w.k)
			}
		}
		if idle && follow {
			c.count("next_followed")
		}
	}
	// a slow handler must not delay publication
	calls := map[string]bool{}
	for _, ops := range c.P.Clients {
		for _, o := range ops {
			calls[o.K] = true
		}
	}
	if strict && c.cfg("nx_sleep_ms") > 0 && c.cfg("pk_sleep_ms") == 0 && c.cfg("er_sleep_ms") == 0 && c.cfg("reent") == 0 &&
		!calls["each"] && !calls["hold"] {
		for _, w := range full {
			late := sec(w.clk - w.when)
			for _, p := range w.pkts {
				if x := sec(p.c0 - w.when); x > late {
					late = x
				}
			}
			if late > sec(f.interval)/2 {
				c.bad("G09", "publication-delayed", "tick %d was published %.3f s late while the next-step callback was slow", w.k, late)
			}
			c.count("slow_next_ticks")
		}
	}
}

// checkQuiet looks for recovery once faults have stopped.
func (f *fleet) checkQuiet(ws []*fwin, mask int) {
	c := f.c
	if f.quietEnd == 0 {
		return
	}
	var last *fwin
	n := 0
	for _, w := range ws {
		if w.clk >= f.quietAt && w.r < f.quietEnd {
			n++
			if w.e < f.quietEnd {
				last = w
			}
		}
	}
	if n == 0 || last == nil {
		c.bad("G05", "stalled", "%d ticks were taken in the %d fault-free intervals at the end of the run", n, 4)
		c.bad(c.Case.Prop, "stalled", "ticks stopped: %d in the fault-free intervals at the end of the run", n)
		return
	}
	c.count("recovered")
	if mask&cbPacket == 0 || last.bad || last.r < f.cbInst {
		return
	}
	for _, t := range f.all() {
		if t.surely(last) != nil && len(last.recs[t.id]) == 0 {
			c.bad("G05", "not-published", "tracker %s is no longer published (tick %d) although nothing is in its way", t.id, last.k)
			break
		}
	}
}

// checkFinal compares the total simulated time with the clock.
func (f *fleet) checkFinal(ws []*fwin) {
	c := f.c
	if f.endDur == nil || len(ws) == 0 {
		return
	}
	var w *fwin
	for _, x := range ws {
		if x.r < f.quietEnd {
			w = x
		}
	}
	if w == nil {
		return
	}
	for _, t := range f.ts {
		if !t.routed || t.edited || len(t.spans) != 1 {
			continue
		}
		s := t.spans[0]
		if s.attRet > f.runCall || s.detCall < f.quietEnd {
			continue
		}
		lo, hi := sec(w.when-f.runClk)-slack, sec(w.clk-f.runClk)+slack
		if x := f.endDur[t.id] - s.dur0; x < lo || x > hi {
			c.bad("G06", "total", "tracker %s was advanced by %f s; the clock measured %f s between the start of the run and the last tick", t.id, x, sec(w.when-f.runClk))
		} else {
			c.count("totals_checked")
		}
	}
}
