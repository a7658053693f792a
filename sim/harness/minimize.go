package harness

import (
	"fmt"
	"time"

	"verif.local/sim/simrt"
)

// Minimize shrinks a failing case: fewer operations, fewer preemptions, while
// the same class of violation persists. The result carries its schedule.
func Minimize(c *Case, class string, limit time.Duration) (*Case, *Result, *Finding) {
	deadline := time.Now().Add(limit)
	orig := c.Strat
	try := func(k *Case) (*Result, *Finding) {
		r := Run(k)
		f, _, _, _ := Judge(k, r)
		if f != nil && f.Class == class {
			return r, f
		}
		return nil, nil
	}
	cur := c.clone()
	r, f := try(cur)
	if f == nil {
		return nil, nil, nil
	}
	orig0, r0, f0 := c.clone(), r, f
	pin := func(k *Case, r *Result) *Case {
		n := k.clone()
		n.Strat = StratCfg{Kind: "trace", Switch: append([]simrt.Switch(nil), r.Trace...)}
		return n
	}
	cur = pin(cur, r)
	if r2, f2 := try(cur); f2 != nil {
		r, f = r2, f2
	} else {
		return c.clone(), r, f // keep the seeded strategy as the schedule
	}
	rng := NewRNG(c.Seed ^ 0x5eed)
	attempt := func(k *Case) bool {
		k.Strat = cur.Strat
		if r2, f2 := try(k); f2 != nil {
			cur, r, f = pin(k, r2), r2, f2
			return true
		}
		for i := 0; i < 24 && time.Now().Before(deadline); i++ {
			k.Strat = orig
			k.Strat.Seed = rng.U()
			switch i % 3 {
			case 1:
				k.Strat = StratCfg{Kind: "rand", P: 0.2, Locky: true, Seed: rng.U()}
			case 2:
				k.Strat = StratCfg{Kind: "pct", Depth: 2, Len: 200, Seed: rng.U()}
			}
			if r2, f2 := try(k); f2 != nil {
				cur, r, f = pin(k, r2), r2, f2
				return true
			}
		}
		return false
	}
	for changed := true; changed && time.Now().Before(deadline); {
		changed = false
		// drop operations, big chunks first
		for li := 0; li < len(opLists(cur)); li++ {
			for chunk := len(*opLists(cur)[li]); chunk >= 1; chunk /= 2 {
				for at := 0; at < len(*opLists(cur)[li]) && time.Now().Before(deadline); {
					k := cur.clone()
					l := opLists(k)[li]
					end := min(at+chunk, len(*l))
					*l = append(append([]Op(nil), (*l)[:at]...), (*l)[end:]...)
					if attempt(k) {
						changed = true
					} else {
						at += chunk
					}
				}
			}
		}
		// drop faults
		for li := 0; li < len(opLists(cur)); li++ {
			for oi := range *opLists(cur)[li] {
				if (*opLists(cur)[li])[oi].F == "" || !time.Now().Before(deadline) {
					continue
				}
				k := cur.clone()
				(*opLists(k)[li])[oi].F = ""
				if attempt(k) {
					changed = true
				}
			}
		}
		// drop preemptions
		for i := 0; i < len(cur.Strat.Switch) && time.Now().Before(deadline); {
			if cur.Strat.Switch[i].Forced {
				i++
				continue
			}
			k := cur.clone()
			k.Strat.Switch = append(append([]simrt.Switch(nil), cur.Strat.Switch[:i]...), cur.Strat.Switch[i+1:]...)
			if r2, f2 := try(k); f2 != nil && countSwitches(r2.Trace) < countSwitches(cur.Strat.Switch) {
				cur, r, f = pin(k, r2), r2, f2
				changed = true
				i = 0
			} else {
				i++
			}
		}
	}
	// what is reported is what following the schedule gives
	if r2, f2 := try(cur); f2 != nil {
		return cur, r2, f2
	}
	return orig0, r0, f0
}

func countSwitches(s []simrt.Switch) int {
	n := 0
	for _, x := range s {
		if !x.Forced {
			n++
		}
	}
	return n
}

// opLists are all the lists of operations of a case.
func opLists(k *Case) []*[]Op {
	l := []*[]Op{&k.Init}
	for i := range k.Tasks {
		l = append(l, &k.Tasks[i])
	}
	l = append(l, &k.Post)
	for i := range k.Post {
		if k.Post[i].K == "Cycle" {
			l = append(l, &k.Post[i].Script)
		}
	}
	return l
}

// Shrink drops operations for as long as bad holds, which is not asked about
// the case itself. It is for cases that cannot be run in this process.
func Shrink(c *Case, bad func(*Case) bool) *Case {
	cur := c.clone()
	for changed := true; changed; {
		changed = false
		for li := 0; li < len(opLists(cur)); li++ {
			for chunk := len(*opLists(cur)[li]); chunk >= 1; chunk /= 2 {
				for at := 0; at < len(*opLists(cur)[li]); {
					k := cur.clone()
					l := opLists(k)[li]
					end := min(at+chunk, len(*l))
					*l = append(append([]Op(nil), (*l)[:at]...), (*l)[end:]...)
					if bad(k) {
						cur, changed = k, true
					} else {
						at += chunk
					}
				}
			}
		}
	}
	return cur
}

// Describe lists the calls of a case that cannot be run in this process.
func Describe(c *Case) []string {
	var out []string
	put := func(who string, ops []Op) {
		for i := range ops {
			if len(out) < 60 {
				out = append(out, who+": "+ops[i].String())
			}
		}
	}
	put("before", c.Init)
	for i := range c.Tasks {
		put(fmt.Sprintf("caller %d", i), c.Tasks[i])
	}
	put("after", c.Post)
	return out
}
