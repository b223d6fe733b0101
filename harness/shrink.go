package main

import (
	"encoding/json"
	"flag"
	"os"
	"time"

	"gpsverif/sim"
)

// minimise shrinks a violating case: first the plan (clients, operations,
// arguments, configuration), re-running it under the same and a few other
// schedule seeds; then the schedule itself, as a list of deviations from the
// default policy. The violation class must stay the same throughout.
func minimise(args []string) {
	fs := flag.NewFlagSet("minimise", flag.ExitOnError)
	budget := fs.Duration("budget", 30*time.Second, "")
	fs.Parse(args)
	cs := loadCase(fs.Arg(0))
	end := time.Now().Add(*budget)
	if cs.Race {
		// The detector reports each pair of stacks once per process, so
		// every candidate needs a fresh process.
		end = time.Now().Add(*budget)
	}
	hit := func(c *Case) bool {
		if time.Now().After(end) {
			return false
		}
		if c.Race {
			cl, _ := replayInChild(c, runWatchdog)
			return cl == cs.Class
		}
		o := execCase(c)
		if o.Err != "" {
			return false
		}
		for _, v := range o.V {
			if v.Class == cs.Class {
				return true
			}
		}
		return false
	}
	cur := clone(cs)
	try := func(c *Case) bool {
		if hit(c) {
			cur = clone(c)
			return true
		}
		for k := uint64(1); k <= 2 && cur.Sim.Trace == nil; k++ {
			c.Sim.Seed = mix(cs.Sim.Seed, k)
			if hit(c) {
				cur = clone(c)
				return true
			}
		}
		return false
	}
	for round := 0; round < 4 && time.Now().Before(end); round++ {
		changed := false
		// drop clients
		for i := 0; i < len(cur.Plan.Clients); {
			c := clone(cur)
			if len(c.Plan.Clients[i]) == 0 {
				i++
				continue
			}
			c.Plan.Clients[i] = nil
			if try(c) {
				changed = true
			}
			i++
		}
		// drop operations
		for i := range cur.Plan.Clients {
			for size := (len(cur.Plan.Clients[i]) + 1) / 2; size >= 1; size /= 2 {
				for at := 0; at < len(cur.Plan.Clients[i]); {
					c := clone(cur)
					l := c.Plan.Clients[i]
					e := at + size
					if e > len(l) {
						e = len(l)
					}
					c.Plan.Clients[i] = append(append([]Op{}, l[:at]...), l[e:]...)
					if try(c) {
						changed = true
					} else {
						at += size
					}
				}
			}
		}
		// simpler configuration
		for _, k := range sortedKeys(cur.Plan.Cfg) {
			v := cur.Plan.Cfg[k]
			for _, nv := range []int{0, 1, v / 2, v - 1} {
				if nv < 0 || nv >= v {
					continue
				}
				c := clone(cur)
				c.Plan.Cfg[k] = nv
				if try(c) {
					changed = true
					break
				}
			}
		}
		// smaller arguments
		for i := range cur.Plan.Clients {
			for j := range cur.Plan.Clients[i] {
				for a := range cur.Plan.Clients[i][j].A {
					v := cur.Plan.Clients[i][j].A[a]
					for _, nv := range []int64{0, 1, v / 2} {
						if nv == v || v < 0 && nv != 0 {
							continue
						}
						c := clone(cur)
						c.Plan.Clients[i][j].A[a] = nv
						if try(c) {
							changed = true
							break
						}
					}
				}
			}
		}
		// gentler schedules
		for _, f := range []func(c *sim.Config){
			func(c *sim.Config) { c.StallRate = 0 },
			func(c *sim.Config) { c.TimerJitter = 0 },
			func(c *sim.Config) { c.Strategy = 2 },
			func(c *sim.Config) { c.SyncPreempt = 0 },
			func(c *sim.Config) { c.MapOrder = false },
		} {
			c := clone(cur)
			f(&c.Sim)
			if c.Sim != cur.Sim && try(c) {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	// Fix the schedule as a trace and shrink that.
	o := execCase(clone(cur))
	c := clone(cur)
	tr := o.Res.Trace
	c.Sim.Trace = &tr
	if hit(c) {
		cur = clone(c)
		drop := func(n int, del func(c *Case, at, e int)) int {
			for size := (n + 1) / 2; size >= 1; size /= 2 {
				for at := 0; at < n && time.Now().Before(end); {
					c := clone(cur)
					e := at + size
					if e > n {
						e = n
					}
					del(c, at, e)
					if hit(c) {
						cur = clone(c)
						n -= e - at
					} else {
						at += size
					}
				}
			}
			return n
		}
		drop(len(cur.Sim.Trace.Stalls), func(c *Case, a, e int) {
			c.Sim.Trace.Stalls = append(append([]sim.Stall{}, c.Sim.Trace.Stalls[:a]...), c.Sim.Trace.Stalls[e:]...)
		})
		drop(len(cur.Sim.Trace.Switches), func(c *Case, a, e int) {
			c.Sim.Trace.Switches = append(append([]sim.Switch{}, c.Sim.Trace.Switches[:a]...), c.Sim.Trace.Switches[e:]...)
		})
	}
	json.NewEncoder(os.Stdout).Encode(cur)
}

func clone(c *Case) *Case {
	b, _ := json.Marshal(c)
	n := new(Case)
	json.Unmarshal(b, n)
	return n
}
