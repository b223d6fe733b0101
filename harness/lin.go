package main

import (
	"fmt"
	"sort"
	"strings"
)

// linOp is one completed operation of a concurrent history. step applies it
// to a model state and reports whether the recorded result is possible there.
// An operation without a return (ret == never) may or may not have taken effect.
type linOp struct {
	call, ret int64
	desc      string
	step      func(s string) (string, bool)
	alts      func(s string) []string // instead of step: all the states that it may lead to
}

// linearizable searches for an order of the operations that respects real
// time and explains every result (Wing and Gong, with memoisation). It
// reports ok, or the operations that could not be placed; exhausted is true
// if the search was given up.
func linearizable(init string, ops []linOp) (ok bool, why string, exhausted bool) {
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].call < ops[j].call })
	// A quiescent point (no operation in progress) splits the history: the
	// set of possible states is carried over.
	states := map[string]bool{init: true}
	for at := 0; at < len(ops); {
		end := at + 1
		maxRet := ops[at].ret
		for end < len(ops) && ops[end].call < maxRet {
			if ops[end].ret > maxRet {
				maxRet = ops[end].ret
			}
			end++
		}
		seg := ops[at:end]
		next, best, gaveUp := linSegment(states, seg)
		if gaveUp {
			return true, "", true
		}
		if len(next) == 0 {
			var l []string
			for _, o := range seg {
				r := fmt.Sprint(o.ret)
				l = append(l, fmt.Sprintf("[%d,%s] %s", o.call, r, o.desc))
			}
			return false, fmt.Sprintf("no order explains: %s; before: %s; at most %d of %d operations could be placed", strings.Join(l, "; "), strings.Join(sortedKeys(states), " | "), best, len(seg)), false
		}
		states = next
		at = end
	}
	return true, "", false
}

func linSegment(init map[string]bool, ops []linOp) (final map[string]bool, best int, gaveUp bool) {
	n := len(ops)
	if n > 60 {
		return nil, 0, true
	}
	final = map[string]bool{}
	type key struct {
		done uint64
		st   string
	}
	seen := map[key]bool{}
	all := uint64(1)<<uint(n) - 1
	budget := 400000
	var dfs func(done uint64, st string, k int)
	dfs = func(done uint64, st string, k int) {
		if gaveUp {
			return
		}
		if seen[key{done, st}] {
			return
		}
		seen[key{done, st}] = true
		budget--
		if budget < 0 {
			gaveUp = true
			return
		}
		if k > best {
			best = k
		}
		if done == all {
			final[st] = true
			return
		}
		minRet := never
		for i := 0; i < n; i++ {
			if done&(1<<uint(i)) == 0 && ops[i].ret < minRet {
				minRet = ops[i].ret
			}
		}
		for i := 0; i < n; i++ {
			if done&(1<<uint(i)) != 0 || ops[i].call > minRet {
				continue
			}
			if ops[i].alts != nil {
				for _, ns := range ops[i].alts(st) {
					dfs(done|1<<uint(i), ns, k+1)
				}
				continue
			}
			if ns, ok := ops[i].step(st); ok {
				dfs(done|1<<uint(i), ns, k+1)
			}
		}
	}
	for _, st := range sortedKeys(init) {
		dfs(0, st, 0)
	}
	return
}

// ---- ordered lists as model states: "a,b,c" ----

func lsplit(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

func lindex(s, x string) int {
	for i, v := range lsplit(s) {
		if v == x {
			return i
		}
	}
	return -1
}

func ladd(s, x string) string {
	if s == "" {
		return x
	}
	return s + "," + x
}

func ldel(s, x string) string {
	var o []string
	for _, v := range lsplit(s) {
		if v != x {
			o = append(o, v)
		}
	}
	return strings.Join(o, ",")
}
