package harness

import (
	"fmt"
	"sort"
	"strings"

	"verif.local/sim/simrt"
)

// Props maps each property to its workload and judge.
var Props = map[string]*Profile{
	"C01": {Systems: tables, Judge: "claims", Big: 0.012, Long: 0.04, LongOps: 200, Out: 0.03, Huge: 0.03, Stall: 0.1,
		Mix:  mix{"Update": 1, "Claim": 6, "ClaimFree": 6, "ClaimRange": 4, "ClaimSize": 3, "Release": 6, "Get": 3, "Has": 1},
		Tail: true},
	"C02": {Systems: tables, Judge: "lin", Big: 0.012, Long: 0.04, LongOps: 200, Out: 0.02, Huge: 0.08, Stall: 0.1,
		Mix: mix{"ClaimSize": 1, "Update": 1, "Claim": 3, "ClaimFree": 7, "FindFree": 5, "Release": 4, "ClaimRange": 1}},
	"C03": {Systems: []string{"idx"}, Judge: "lin", Big: 0.012, Long: 0.1, LongOps: 150, Out: 0.03, Huge: 0.05, Stall: 0.1,
		Mix:  mix{"ClaimFree": 1, "Update": 1, "ClaimRange": 7, "ClaimSize": 5, "FindRange": 5, "FindSize": 4, "Claim": 2, "Release": 4, "Get": 2, "Size": 1, "GetAll": 2},
		Tail: true},
	"C04": {Systems: []string{"idx"}, Judge: "lin", Big: 0.012, Long: 0.12, LongOps: 250, Out: 0.06, Huge: 0.04, Mix: full, Stall: 0.1, Tail: true},
	"C05": {Systems: ranges, Judge: "lin", Big: 0.012, Long: 0.12, LongOps: 250, Out: 0.06, Huge: 0.04, Mix: full, Nil: 0.05, Stall: 0.1, Tail: true},
	"C06": {Systems: []string{"ip"}, Judge: "lin", Big: 0.012, Long: 0.12, LongOps: 250, Out: 0.08, Huge: 0.06, Mix: full, Nil: 0.05, Stall: 0.1, Tail: true},
	"C07": {Systems: all, Judge: "lin", Clones: 2, ClonesP: 0.05, Long: 0.2, LongOps: 80, Out: 0.4, Huge: 0.15, Serial: 0.2, Sweep: true,
		Mix: mix{"ReleaseByLabel": 1, "Get": 3, "Claim": 5, "ClaimFree": 3, "ClaimRange": 3, "ClaimSize": 1, "Release": 3, "Update": 3, "Has": 3, "IsFree": 2, "FindFree": 2, "FindRange": 2, "FindSize": 1, "Size": 2, "GetAll": 2}},
	"C08": {Systems: trees, Judge: "lin", Clones: 2, ClonesP: 0.05, Long: 0.25, LongOps: 300, Out: 0.04, Huge: 0.1, Nil: 0.05, Stall: 0.1, Tail: true,
		Mix: mix{"ReleaseByLabel": 1, "Claim": 7, "Update": 3, "Release": 7, "Get": 4, "Children": 3, "Parents": 3, "GetByLabel": 2, "GetAll": 2, "Size": 2, "ClaimFree": 1, "ClaimRange": 1}},
	"C09": {Systems: trees, Judge: "lin", Clones: 2, ClonesP: 0.05, Long: 0.1, LongOps: 150, Out: 0.02, Huge: 0.1, Stall: 0.1,
		Mix: mix{"ReleaseByLabel": 1, "ClaimFree": 9, "Claim": 4, "ClaimRange": 2, "Release": 4, "Get": 2, "Update": 1}, Tail: true},
	"C10": {Systems: trees, Judge: "lin", Clones: 2, ClonesP: 0.05, Big: 0.03, Long: 0.08, LongOps: 120, Out: 0.2, Huge: 0.1, Nil: 0.05, Stall: 0.1,
		Mix: mix{"ClaimFree": 1, "ClaimRange": 7, "ReleaseByLabel": 5, "GetAll": 4, "GetByLabel": 2, "Size": 3, "Get": 2, "Children": 2, "Claim": 3, "Update": 2, "Release": 3}, Tail: true},
	"C11": {Systems: trees, Judge: "lin", Long: 0.1, LongOps: 120, Out: 0.04, Huge: 0.05, Clones: 3, Stall: 0.1, Tail: true,
		Mix: mix{"Claim": 6, "Update": 2, "ClaimFree": 3, "ClaimRange": 2, "Release": 5, "ReleaseByLabel": 1, "Get": 3, "GetAll": 3, "Size": 1, "Iterate": 1, "Children": 1, "Parents": 1, "GetByLabel": 1}},
	"C12": {Systems: all, Judge: "lin", Clones: 2, ClonesP: 0.08, Big: 0.015, Long: 0.04, LongOps: 100, Nil: 0.03, Huge: 0.05, Faults: 0.15, Stall: 0.1, Tail: true, Own: true,
		Mix: mix{"Iterate": 8, "IterateFree": 5, "GetAll": 5, "GetByLabel": 4, "Claim": 4, "Update": 3, "Release": 5, "ClaimFree": 2, "ClaimRange": 1, "ClaimSize": 1, "ReleaseByLabel": 1}},
	"C13": {Systems: all, Judge: "progress", Clones: 2, ClonesP: 0.2, Long: 0.05, LongOps: 100, Out: 0.08, Huge: 0.2, Mix: full, Budget: true, Stall: 0.3, Faults: 0.05},
	"C14": {Systems: all, Judge: "race", Nil: 0.1, Insts: 2, MultiP: 0.3, Clones: 2, ClonesP: 0.3, Out: 0.03, Huge: 0.04, Mix: full, Race: true, Own: true, Stall: 0.05},
	"C15": {Systems: all, Judge: "lin", Clones: 2, ClonesP: 0.08, Long: 0.05, LongOps: 80, Out: 0.25, Huge: 0.03, Nil: 0.1, Faults: 0.5, Stall: 0.1, Tail: true,
		Mix: mix{"GetByLabel": 8, "ReleaseByLabel": 6, "Get": 3, "Claim": 5, "Update": 3, "ClaimFree": 2, "ClaimRange": 3, "ClaimSize": 2, "Release": 4, "Size": 2, "GetAll": 2, "Children": 2, "FindRange": 1}},
	"C16": {Systems: all, Judge: "lin", Clones: 2, ClonesP: 0.08, Long: 0.08, LongOps: 120, Out: 0.04, Huge: 0.03, Insts: 3, Mix: full, Stall: 0.1, Tail: true},
	"C17": {Systems: all, Judge: "lin", Long: 0.35, LongOps: 250, Out: 0.02, SmallCap: true, Churn: true,
		Mix: mix{"Size": 1, "Get": 1, "Claim": 7, "ClaimFree": 5, "ClaimRange": 2, "ClaimSize": 2, "Release": 9, "Update": 2, "ReleaseByLabel": 1}},
	"C21": {Systems: bases, Judge: "lin", Long: 0.2, LongOps: 300, Huge: 0.1, Clones: 3, ClonesP: 0.3, Race: true, Stall: 0.05, Tail: true,
		Mix: mix{"Claim": 8, "Update": 6, "Release": 4, "Delete": 6, "GetAll": 3, "Iterate": 4}},
	"C20": {Systems: idsets, Judge: "lin", Long: 0.25, LongOps: 120, Huge: 0.1, Out: 0.05, Clones: 4, Race: true, Own: true, Stall: 0.05, Tail: true,
		Mix: mix{"AddID": 4, "RemoveID": 3, "AddRange": 6, "RemoveRange": 5, "AddSet": 2, "Build": 3, "Split": 4, "GetAll": 4}},
	"C18": {Systems: append(append([]string{"ip"}, ranges...), trees...), Judge: "lin", Clones: 2, ClonesP: 0.05, Big: 0.008, Long: 0.08, LongOps: 120, Nil: 0.2, Huge: 0.04, Stall: 0.1,
		Mix: mix{"GetByLabel": 10, "Claim": 5, "Update": 5, "Release": 4, "ClaimFree": 2, "ClaimRange": 1, "ReleaseByLabel": 1}},
}

// Rare sets the share of runs with very many entries or a very long history so
// that a check of n runs makes about count of them. They cost a thousand times
// as much as others.
func Rare(p *Profile, n, count int) { p.Rare = float64(count) / float64(n) }

// Finding is a judged violation.
type Finding struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// Judge decides whether a run violates the property its case belongs to.
// harness is non-empty when the machinery itself failed.
func Judge(c *Case, r *Result) (f *Finding, unknown bool, nodes int, harness string) {
	if r.Out != nil {
		switch r.Out.Class {
		case simrt.OutHarness:
			return nil, false, 0, r.Out.Detail
		case simrt.OutRace:
			return &Finding{"race", r.Out.Detail}, false, 0, ""
		case simrt.OutFatal:
			return &Finding{"fatal", r.Out.Detail}, false, 0, ""
		case simrt.OutDeadlock, simrt.OutNoProg:
			if c.Judge == "race" {
				return nil, false, 0, ""
			}
			return &Finding{r.Out.Class, r.Out.Detail}, false, 0, ""
		}
		return nil, false, 0, "unknown outcome " + r.Out.Class
	}
	if c.Judge == "race" {
		return nil, false, 0, ""
	}
	if r.Panic != "" {
		return &Finding{"panic", r.Panic}, false, 0, ""
	}
	if c.Judge == "progress" {
		for _, e := range r.Events {
			if e.Ret == 0 {
				return &Finding{"no-progress", e.Op.String() + " never returned"}, false, 0, ""
			}
		}
		return nil, false, 0, ""
	}
	m := NewModel(c)
	m.Claims = c.Judge == "claims"
	res, nodes, best, why := Linearize(m, r.Events, 300000)
	switch res {
	case linUnknown:
		return nil, true, nodes, ""
	case linOK:
		return nil, false, nodes, ""
	}
	// the search forgets states by hash; a verdict of "no order" must not
	// depend on a collision
	m = NewModel(c)
	m.Claims = c.Judge == "claims"
	m.salt = 0x5851f42d4c957f2d
	if res, _, _, _ := Linearize(m, r.Events, 300000); res != linBad {
		return nil, true, nodes, ""
	}
	d := fmt.Sprintf("no one-at-a-time order explains the results; %d of %d calls can be ordered, then: %s", len(best), len(r.Events), strings.Join(why, "; "))
	return &Finding{"not-linearizable", d}, false, nodes, ""
}

// History renders a run for people.
func History(r *Result) []string {
	type line struct {
		at int
		s  string
	}
	var ls []line
	for _, e := range r.Events {
		ls = append(ls, line{e.Inv, fmt.Sprintf("%4d caller%d calls   %s", e.Inv, e.Task, e.Op)})
		if e.Ret != 0 {
			ls = append(ls, line{e.Ret, fmt.Sprintf("%4d caller%d returns %s => %s", e.Ret, e.Task, e.Op, e.Res)})
		}
	}
	sort.SliceStable(ls, func(i, j int) bool { return ls[i].at < ls[j].at })
	var out []string
	for _, l := range ls {
		if len(l.s) > 400 {
			l.s = l.s[:400] + "..."
		}
		out = append(out, l.s)
	}
	return out
}
