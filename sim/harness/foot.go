package harness

import (
	"fmt"
	"reflect"
	"slices"
	"strings"

	"verif.local/sim/simrt"
)

// footprint counts the objects that can be reached from the roots: fields,
// elements and map entries. Slices count with their length; what the
// simulator keeps about locks and atomics does not count.
func footprint(roots []any) int {
	w := walker{seen: map[seen]bool{}}
	for _, r := range roots {
		w.walk(reflect.ValueOf(r))
	}
	return w.n
}

type seen struct {
	p uintptr
	t reflect.Type
}

type walker struct {
	seen map[seen]bool
	n    int
}

func (w *walker) first(v reflect.Value) bool {
	k := seen{v.Pointer(), v.Type()}
	if v.IsNil() || w.seen[k] {
		return false
	}
	w.seen[k] = true
	return true
}

func (w *walker) walk(v reflect.Value) {
	w.n++
	switch v.Kind() {
	case reflect.Pointer:
		if w.first(v) {
			w.walk(v.Elem())
		}
	case reflect.Interface:
		if !v.IsNil() {
			w.walk(v.Elem())
		}
	case reflect.Map:
		if w.first(v) {
			for it := v.MapRange(); it.Next(); {
				w.walk(it.Key())
				w.walk(it.Value())
			}
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		k := v.Type().Elem().Kind()
		if k <= reflect.Complex128 || k == reflect.String {
			w.n += v.Len()
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i))
		}
	case reflect.Array:
		if k := v.Type().Elem().Kind(); k <= reflect.Complex128 || k == reflect.String {
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i))
		}
	case reflect.Chan:
		w.n += v.Len()
	case reflect.Struct:
		sim := strings.HasPrefix(v.Type().PkgPath(), "verif.local/sim/sim")
		for i := 0; i < v.NumField(); i++ {
			if sim {
				n := v.Type().Field(i).Name
				if n != "m" && n != "v" { // sync.Map and atomics hold the library's own data
					continue
				}
			}
			w.walk(v.Field(i))
		}
	}
}

// A cycle op makes the same calls over and over and releases everything it
// claimed each time; what the library holds must not grow with it. On trees
// it can move on by J places in each round.
// Something that is tidied up now and then may grow for a while.
const (
	cycleWarm = 8
	cycleEnd  = 108
	cycleSure = 1008
)

func (x *Exec) held(roots []any) int {
	simrt.Stall(3000000) // what the library still has to do in the background is done
	return footprint(roots) + x.sim.Live()
}

func (x *Exec) cycle(op *Op, sys system) Res {
	t := x.sim.Cur()
	roots := append(slices.Clone(simrt.Roots()), sys)
	var warm, end int
	base := isBase(x.c.Insts[op.I].Sys)
	taken := map[Key]bool{}
	if base {
		r := sys.do(x, &Op{U: op.U, K: "GetAll", I: op.I}, func() {})
		if r.Bad != "" {
			return r
		}
		for _, e := range r.L {
			taken[e.K] = true
		}
	}
	for c := 1; c <= cycleSure; c++ {
		var held []Key
		for i := range op.Script {
			o := op.Script[i]
			o.I, o.U = op.I, op.U
			if op.J != 0 && o.L > 0 { // another place every round
				k := x.c.Insts[op.I]
				w := width(k.Sys)
				lim := min(w, int(k.Len))
				if base {
					lim = w
				}
				o.ID += uint64(c*op.J) << (uint64(w) - uint64(o.L))
				o.ID &= ^uint64(0) >> (64 - lim)
			}
			t.OpBase = t.Steps
			if base {
				switch o.K {
				case "Claim", "Update", "Release", "Delete":
					if taken[Key{o.ID, o.L}] {
						continue
					}
				}
			} else if isTree(x.c.Insts[op.I].Sys) && o.K == "Claim" {
				g := o
				g.K = "Get"
				if r := sys.do(x, &g, func() {}); !r.Err { // a claim would replace it
					continue
				}
			}
			if o.K == "Update" && !base { // only of what is ours
				if !slices.ContainsFunc(held, func(k Key) bool { return k.ID == o.ID && k.L == o.L }) {
					continue
				}
			}
			r := sys.do(x, &o, func() {})
			if r.Bad != "" {
				return r
			}
			if r.Err {
				continue
			}
			switch o.K {
			case "Update":
				if base {
					held = append(held, Key{o.ID, o.L})
				}
			case "Claim":
				held = append(held, Key{o.ID, o.L})
			case "ClaimFree":
				held = append(held, r.Key)
			case "ClaimSize":
				for _, e := range r.L {
					held = append(held, e.K)
				}
			case "ClaimRange":
				for j := uint64(0); j < o.N; j++ {
					held = append(held, Key{ID: o.ID + j})
				}
			}
		}
		if op.N%2 == 1 {
			slices.Reverse(held)
		}
		for _, k := range held {
			o := &Op{U: op.U, K: "Release", I: op.I, ID: k.ID, L: k.L}
			t.OpBase = t.Steps
			if r := sys.do(x, o, func() {}); r.Err || r.Bad != "" {
				r.Bad = fmt.Sprintf("cycle %d: %s of a claimed id: refused=%v %s", c, o, r.Err, r.Bad)
				return r
			}
		}
		switch c {
		case cycleWarm:
			warm = x.held(roots)
		case cycleEnd:
			if end = x.held(roots); end <= warm+warm/10+32 {
				return Res{}
			}
		}
	}
	if sure := x.held(roots); sure > end+(end-warm)*7 {
		return Res{Bad: fmt.Sprintf("the same calls, with everything released each time, leave more and more behind: %d objects after %d rounds, %d after %d, %d after %d", warm, cycleWarm, end, cycleEnd, sure, cycleSure)}
	}
	return Res{}
}
