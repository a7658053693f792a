package harness

import (
	"fmt"
	"math"
	"net/netip"
)

// weights of operations
type mix map[string]int

type weighted struct {
	k string
	w int
}

// order of names is fixed so that generation is deterministic
var opNames = []string{"Get", "Claim", "ClaimFree", "ClaimRange", "ClaimSize", "Release", "Update", "Size", "Has", "IsFree",
	"FindFree", "FindRange", "FindSize", "GetAll", "GetByLabel", "Iterate", "IterateFree", "ReleaseByLabel", "Children", "Parents", "Clone", "Delete", "Print",
	"AddID", "RemoveID", "AddRange", "RemoveRange", "AddSet", "Build", "Split"}

var supported = map[string]map[string]bool{}

func init() {
	set := func(sys string, ops ...string) {
		supported[sys] = map[string]bool{}
		for _, o := range ops {
			supported[sys][o] = true
		}
	}
	set("idx", "Get", "Claim", "ClaimFree", "ClaimRange", "ClaimSize", "Release", "Update", "Size", "Has", "IsFree", "FindFree", "FindRange", "FindSize", "GetAll", "Iterate", "IterateFree")
	for _, t := range []string{"t16", "t32", "t64"} {
		set(t, "Get", "Claim", "ClaimFree", "Release", "Update", "Size", "Has", "IsFree", "FindFree", "GetAll", "GetByLabel")
	}
	set("ip", "Get", "Claim", "Release", "Update", "Size", "Has", "IsFree", "FindFree", "GetAll", "GetByLabel")
	for _, t := range []string{"tree16", "tree32", "tree64"} {
		set(t, "Get", "Claim", "Update", "ClaimFree", "ClaimRange", "Release", "ReleaseByLabel", "Children", "Parents", "GetByLabel", "GetAll", "Size", "Iterate", "Clone", "Print")
	}
	for _, t := range bases {
		set(t, "Claim", "Update", "Release", "Delete", "GetAll", "Iterate", "Clone", "Cycle")
	}
	for _, t := range idsets {
		set(t, "AddID", "RemoveID", "AddRange", "RemoveRange", "AddSet", "Build", "Split", "GetAll", "Clone")
	}
}

var full = mix{"Get": 3, "Claim": 5, "ClaimFree": 4, "ClaimRange": 3, "ClaimSize": 2, "Release": 5, "Update": 3, "Size": 2, "Has": 1, "IsFree": 1,
	"FindFree": 2, "FindRange": 2, "FindSize": 2, "GetAll": 2, "GetByLabel": 2, "Iterate": 2, "IterateFree": 1, "ReleaseByLabel": 1, "Children": 2, "Parents": 2, "Print": 1}

var (
	tables = []string{"idx", "t16", "t32", "t64", "ip"}
	ranges = []string{"t16", "t32", "t64"}
	trees  = []string{"tree16", "tree32", "tree64"}
	bases  = []string{"treeb16", "treeb32", "treeb64"}
	idsets = []string{"set16", "set32", "set64"}
	all    = []string{"idx", "t16", "t32", "t64", "ip", "tree16", "tree32", "tree64"}
)

// Profile is how a property's workloads are drawn.
type Profile struct {
	Systems  []string
	Mix      mix
	Judge    string  // lin, claims, progress, race
	Long     float64 // share of long single-caller histories
	LongOps  int
	Out      float64 // share of out-of-range arguments
	Huge     float64 // share of huge ranges
	Insts    int
	MultiP   float64 // share of runs with several instances (0: all)
	Clones   int
	ClonesP  float64 // share of runs with clones (0: all)
	Race     bool
	Own      bool
	Faults   float64 // share of operations that carry a fault
	Nil      float64 // share of claims without labels
	Churn    bool    // release everything and refill at the end
	Sweep    bool    // claim every id of the range at the end
	Tail     bool    // observe everything at the end
	Budget   bool
	Hold     bool
	SmallCap bool
	Stall    float64
	Rare     float64
	Big      float64 // share of runs with many entries
	Serial   float64
}

type gen struct {
	r      *RNG
	p      *Profile
	c      *Case
	u      int
	d      int
	pools  [][]Key
	base   []netip.Addr
	clone  int // next free clone slot
	clones bool
	few    int  // how many different data there are (0: always new)
	odd    bool // label sets with the same text
	big    bool // many entries
	dull   bool // a long history on very few ids
	giant  int  // very many entries
	epic   bool // a very long history
	focus  bool // few kinds of calls
}

// Generate draws one case of a property from a seed.
func Generate(prop string, p *Profile, seed uint64) *Case {
	g := &gen{r: NewRNG(seed), p: p}
	g.c = &Case{Prop: prop, Seed: seed, Judge: p.Judge, Race: p.Race, Own: p.Own, Map: g.r.U()}
	g.make()
	return g.c
}

func (g *gen) make() {
	r, p := g.r, g.p
	long := r.P(p.Long)
	n := 1
	if p.Insts > 1 && (p.MultiP == 0 || r.P(p.MultiP)) {
		n = r.In(2, p.Insts)
	}
	if r.P(0.15) {
		g.few = r.In(1, 4)
		g.odd = r.P(0.4)
	}
	g.big = !p.SmallCap && r.P(max(p.Big, 0.004))
	if r.P(p.Rare) {
		if r.P(0.7) && !(p.Clones >= 3 && r.P(0.6)) {
			long, g.epic = true, true
		} else if !p.SmallCap {
			long, g.big = false, true
			g.giant = pick(r, r.In(1020, 1030), r.In(250, 1030), r.In(1000, 2500), r.In(4090, 5000))
			if r.P(0.08) || !isTree(p.Systems[len(p.Systems)-1]) && r.P(0.25) {
				g.giant = r.In(65530, 66000)
			}
			if p.Race { // every copy is tracked
				g.giant = min(g.giant, pick(r, 1030, 4200))
			}
			g.c.Budget = 100 * maxOpSteps
			n = 1
		}
	}
	g.dull = long && r.P(0.1)
	crowd := !long && !g.big && r.P(0.04)
	same := r.P(0.5)
	for i := 0; i < n; i++ {
		sys := p.Systems[r.N(len(p.Systems))]
		if i > 0 && same {
			sys = g.c.Insts[0].Sys
		}
		if i > 0 && same && r.P(0.5) {
			g.near(long)
			continue
		}
		g.addInst(sys, long)
	}
	clones := p.Clones > 0 && n == 1 && (isTree(g.c.Insts[0].Sys) || isSet(g.c.Insts[0].Sys)) && (p.ClonesP == 0 || r.P(p.ClonesP))
	g.clones = clones
	if clones {
		n := r.In(1, p.Clones)
		for i := 0; i < n; i++ {
			k := g.c.Insts[0]
			k.Off = true
			g.c.Insts = append(g.c.Insts, k)
			g.pools = append(g.pools, g.pools[0])
		}
		g.clone = len(g.c.Insts) - n
	}
	for i := range g.c.Insts {
		if !g.c.Insts[i].Off {
			g.prefill(i)
		}
	}
	if clones && (isSet(g.c.Insts[0].Sys) || r.P(0.5)) {
		g.c.Init = append(g.c.Init, g.cloneOp(0))
	}
	w := g.swarm()
	ntasks := 1
	if !long {
		ntasks = pick(r, 2, 2, 2, 3, 3, 4)
	}
	if crowd {
		ntasks = r.In(5, 8)
	}
	g.c.Tasks = make([][]Op, ntasks)
	for t := range g.c.Tasks {
		k := pick(r, 1, 2, 2, 3, 3, 4, 5, 7)
		if ntasks == 4 && k > 4 {
			k = 4
		}
		if long {
			k = r.In(20, p.LongOps)
			if g.dull {
				k = r.In(p.LongOps, 3*p.LongOps)
			}
			if g.epic {
				k = r.In(1000, 4200)
				if p.Race || isTree(g.c.Insts[0].Sys) {
					k = r.In(600, 1300)
				}
			}
		}
		if crowd || g.giant > 5000 {
			k = r.In(1, 2)
			if !crowd && !isTree(g.c.Insts[0].Sys) {
				k = r.In(2, 6)
			}
		}
		for j := 0; j < k; j++ {
			g.c.Tasks[t] = append(g.c.Tasks[t], g.op(w, t))
		}
	}
	g.post()
	g.strategy(long)
	if p.Budget {
		e := g.c.nops() + g.giant
		for _, k := range g.c.Insts {
			if n := span(k); n <= 4096 {
				e += int(n)
			}
		}
		rangesN := 0
		for _, l := range append([][]Op{g.c.Init, g.c.Post}, g.c.Tasks...) {
			for _, o := range l {
				if o.K == "ClaimRange" && isTree(g.c.Insts[o.I].Sys) {
					rangesN += 126
				} else if o.N <= 5000 && (o.K == "ClaimRange" || o.K == "FindRange" || o.K == "ClaimSize" || o.K == "FindSize") {
					rangesN += int(o.N)
				}
			}
		}
		g.c.Budget = 20000 + 6000*(e+rangesN)
	}
}

// span is the number of ids of an instance, saturating.
func span(k Cfg) uint64 {
	switch {
	case k.Inv:
		return 0
	case k.Sys == "idx":
		return k.Size
	case isTree(k.Sys):
		if k.Len >= 64 {
			return math.MaxUint64
		}
		return 1 << k.Len
	}
	if k.Hi-k.Lo == math.MaxUint64 {
		return math.MaxUint64
	}
	return k.Hi - k.Lo + 1
}

func (g *gen) smallSpan(long bool) uint64 {
	r := g.r
	if g.giant > 0 {
		return uint64(g.giant)
	}
	if g.big {
		return uint64(pick(r, r.In(100, 300), r.In(250, 270), r.In(300, 700)))
	}
	if long && r.P(0.5) {
		return uint64(r.In(8, 80))
	}
	return uint64(pick(r, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, r.In(1, 20), r.In(10, 70)))
}

func (g *gen) addInst(sys string, long bool) {
	r := g.r
	k := Cfg{Sys: sys}
	huge := r.P(g.p.Huge)
	n := g.smallSpan(long)
	switch sys {
	case "idx":
		k.Size = n
		if r.P(0.03) && !g.p.SmallCap {
			k.Size = 0
		}
		if r.P(0.003+g.p.Big/2) && !g.p.SmallCap && g.giant == 0 { // with room to list
			k.Size = uint64(pick(r, r.In(1000, 1100), r.In(600, 4096)))
		}
		if huge {
			k.Size = pick(r, uint64(1)<<16, 1<<32, 1<<40, 1<<63, math.MaxUint64, 1000003)
		}
	case "t16", "t32", "t64":
		w := width(sys)
		if w == 16 && n > 65536 {
			n = 65536
		}
		top := topID(uint8(w))
		at := pick(r, 0, 1, uint64(r.In(2, 3000)), top-(n-1), top-n, top/2, top/2-n/2, 255, 256-n/2, top>>1+1)
		if w > 16 {
			at = pick(r, at, at, 65535-n/2, 65536, 1<<31-n/2)
		}
		if w > 32 {
			at = pick(r, at, at, 1<<32-n/2, 1<<32+5, 1<<63-n/2)
		}
		if r.P(0.2) { // any number of bits
			at = r.U() >> r.N(64)
			if r.P(0.3) {
				at |= uint64(0xff) << r.N(57)
			}
		}
		k.Lo = at & top
		k.Hi = k.Lo + n - 1
		if k.Hi > top || k.Hi < k.Lo {
			k.Lo, k.Hi = top-(n-1), top
		}
		if huge {
			k.Lo, k.Hi = pick(r, 0, 0, 1, uint64(r.N(1000))), pick(r, top, top, top-1, top/2, top/2+1)
			if w == 64 && k.Lo == 0 && k.Hi == top {
				k.Hi--
				k.Wide = true // capacities stop at 2^64-1
			}
		}
	case "set16", "set32", "set64": // ids are taken from a window
		top := topID(uint8(width(sys)))
		n := pick(r, uint64(r.In(2, 9)), uint64(r.In(4, 40)), 64, 256, 1000)
		if g.giant > 0 && r.P(0.8) { // room for very many ranges
			n = min(top/2, uint64(pick(r, 4, 8, 100)*g.giant))
		}
		k.Lo = pick(r, 0, 0, 1, 8, 250, top/2-n/2+1, top-n, top-(n-1), r.U()&top)
		if k.Lo > top-n {
			k.Lo = top - n
		}
		k.Hi = k.Lo + n
		if huge {
			k.Lo, k.Hi = 0, top
		}
	case "ip":
		var from netip.Addr
		var beyond uint64 // how far the range goes past Hi, besides k.Len times 2^64
		if r.P(0.55) {
			b := pick(r, "10.0.0.0", "0.0.0.0", "10.0.0.250", "192.168.255.254", "127.255.255.254", "255.255.255.0", "223.255.255.255", "1.2.3.4")
			if g.big && b == "255.255.255.0" {
				b = "255.255.252.0"
			}
			if g.giant > 0 {
				b = pick(r, "10.0.0.0", "9.255.255.254", "192.168.0.0")
			}
			from = netip.MustParseAddr(b)
			if b == "255.255.255.0" {
				from = addrAdd(from, 255-(n-1), 0)
			} else if r.P(0.25) {
				v := uint32(r.U()) % (math.MaxUint32 - 1<<17)
				if r.P(0.3) {
					v |= 0xfc
				}
				from = netip.AddrFrom4([4]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
			}
			k.Hi = n - 1
			if huge {
				from = netip.MustParseAddr(pick(r, "0.0.0.0", "0.0.0.1", "10.0.0.0", "128.0.0.0"))
				v := from.As4()
				room := uint64(0xffffffff) - (uint64(v[0])<<24 | uint64(v[1])<<16 | uint64(v[2])<<8 | uint64(v[3]))
				k.Hi = pick(r, room, room/2, 1<<24-1)
			}
		} else {
			b := pick(r, "2001:db8::", "::", "2001:db8::ffff:ffff:ffff:fffe", "fe80::fffe", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ff00", "2001:db8::1:0:0:0", "::ffff:10.0.0.4", "::fffe:ffff:fffe", "2001:db8:0:0:ffff:ffff:ffff:fffd")
			if g.big && b[0] == 'f' && b[1] == 'f' {
				b = "ffff:ffff:ffff:ffff:ffff:ffff:ffff:f000"
			}
			if g.giant > 0 {
				b = pick(r, "2001:db8::", "2001:db8::ffff:8000", "2001:db8:0:0:ffff:ffff:ffff:ff00")
			}
			from = netip.MustParseAddr(b)
			if b == "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ff00" {
				from = addrAdd(from, 255-(n-1), 0)
			} else if r.P(0.25) { // some bytes zero, then anything
				var v [16]byte
				for x := r.In(0, 15); x < 16; x++ {
					v[x] = byte(r.U())
				}
				v[0] &^= 0x80
				if r.P(0.3) {
					v[15] |= 0xfc
				}
				from = netip.AddrFrom16(v)
			}
			k.Hi = n - 1
			if huge {
				from = netip.MustParseAddr(pick(r, "2001:db8::", "::", "2001:db8::1", "2001:db8:0:0:ffff:ffff:ffff:fff0"))
				k.Hi = pick(r, uint64(math.MaxUint64)-1, 1<<63, 1<<63-1, 1<<62, 1<<32)
				if r.P(0.5) {
					k.Hi, k.Wide, k.Len = math.MaxUint64-1, true, pick(r, uint8(0), 1, 3)
					beyond = pick(r, uint64(1), 1, 2, 3, 100)
					if k.Len == 0 {
						beyond = 1
					}
				}
			}
		}
		k.From, k.To = from.String(), addrAdd(addrAdd(from, k.Hi, k.Len), beyond, 0).String()
	default:
		w := uint8(width(sys))
		if g.p.SmallCap {
			k.Len = uint8(r.In(0, 4))
			if r.P(0.12) {
				k.Len = pick(r, 8, 12, w/2+1, w-1, w, w)
				g.c.Budget = 8 * maxOpSteps // a long history can hold very many prefixes
			}
		} else {
			if g.big {
				k.Len = pick(r, 8, 9, 10, 12, w)
				if g.giant > 0 {
					k.Len = pick(r, min(18, w), w)
				}
			} else {
				k.Len = pick(r, 0, 1, 2, 2, 3, 3, 4, 4, 5, 6, 8, 12, 12, 15, 16, w/2, w/2+1, w-1, w, w)
			}
			if huge {
				k.Len = pick(r, w, w-1, w/2+1)
			}
		}
		if k.Len > w {
			k.Len = w
		}
		if isBase(sys) {
			k.Size = uint64(r.N(2)) // 1: several values per prefix
			g.few = r.In(1, 4)
		}
	}
	if k.Lo < k.Hi && !k.Wide && !isSet(sys) && g.giant == 0 && r.P(0.002+0.05*g.p.Out) {
		k.Inv = true
		if sys == "ip" && r.P(0.3) { // or of different families
			k.To = pick(r, "255.255.255.255", "0.0.0.0")
			if netip.MustParseAddr(k.From).Is4() {
				k.To = pick(r, "2001:db8::", "::", "::ffff:255.255.255.255")
			}
		}
	}
	g.c.Insts = append(g.c.Insts, k)
	g.pools = append(g.pools, g.pool(k, long))
}

// near adds an instance that resembles the first: the same range, or one that
// starts a little later, so that both use the same ids.
func (g *gen) near(long bool) {
	r := g.r
	k := g.c.Insts[0]
	if k.Inv {
		g.addInst(k.Sys, long)
		return
	}
	if k.Sys != "idx" && !isTree(k.Sys) && !k.Wide && r.P(0.7) {
		lo, hi := bounds(k)
		by := min(uint64(r.In(1, 3)), hi-lo)
		if k.Sys == "ip" {
			k.From = addrAdd(netip.MustParseAddr(k.From), by, 0).String()
			k.Hi -= by
		} else {
			k.Lo += by
		}
		g.c.Insts = append(g.c.Insts, k)
		g.pools = append(g.pools, g.pool(k, long))
		return
	}
	g.c.Insts = append(g.c.Insts, k)
	g.pools = append(g.pools, g.pools[0])
}

// pool is the small set of keys the callers fight over.
func (g *gen) pool(k Cfg, long bool) []Key {
	r := g.r
	n := r.In(2, 6)
	if long {
		n = r.In(4, 40)
	}
	if g.dull {
		n = r.In(1, 2)
	}
	if g.big {
		n = r.In(20, 60)
	}
	var out []Key
	lo, hi := bounds(k)
	if !isTree(k.Sys) {
		for i := 0; i < n; i++ {
			out = append(out, Key{ID: g.between(lo, hi)})
		}
		if k.Wide { // ids a careless index computation confuses with others
			out = append(out, Key{ID: hi + 1})
			for _, key := range out {
				if k.Sys == "ip" && k.Len > 1 && r.P(0.6) {
					out = append(out, Key{ID: key.ID, L: uint8(r.In(1, 2))})
				}
			}
		}
		return append(out, Key{ID: lo}, Key{ID: hi})
	}
	w := uint8(width(k.Sys))
	for i := 0; i < n; i++ {
		id := g.between(0, hi)
		l := w
		if r.P(0.45) {
			l = uint8(r.In(int(w-k.Len), int(w)))
			if r.P(0.08) {
				l = uint8(r.In(0, int(w)))
			}
		}
		if len(out) > 0 && r.P(0.5) { // relative of an earlier key
			b := out[r.N(len(out))]
			id = b.ID
			switch r.N(4) {
			case 0: // parent
				if b.L > w-k.Len {
					l = uint8(r.In(int(w-k.Len), int(b.L)))
				}
			case 1: // child
				l = uint8(r.In(int(b.L), int(w)))
				id |= r.U() & (topID(w) &^ maskOf(w, b.L))
			case 2: // sibling
				l = b.L
				if b.L > w-k.Len {
					id ^= uint64(1) << (w - b.L)
				}
			case 3: // neighbour differing in one bit
				if k.Len > 0 {
					id ^= uint64(1) << uint(r.N(int(k.Len)))
				}
			}
			if id > hi {
				id &= hi
			}
		}
		out = append(out, Key{id & maskOf(w, l), l})
	}
	return append(out, Key{0, w}, Key{hi, w})
}

func bounds(k Cfg) (lo, hi uint64) {
	switch {
	case k.Sys == "idx":
		if k.Size == 0 {
			return 0, 0
		}
		return 0, k.Size - 1
	case isTree(k.Sys):
		return 0, topID(k.Len)
	}
	return k.Lo, k.Hi
}

func (g *gen) between(lo, hi uint64) uint64 {
	if hi <= lo {
		return lo
	}
	d := hi - lo
	switch g.r.N(8) {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		x := uint64(g.r.N(4))
		if x > d {
			x = d
		}
		return pick(g.r, lo+x, hi-x)
	case 3: // a multiple of a power of two, or the id before or after it
		j := uint(g.r.N(64))
		x := lo + g.r.U()%d
		x = x>>j<<j - 1 + uint64(g.r.N(3))
		if x >= lo && x <= hi {
			return x
		}
	}
	if d == math.MaxUint64 {
		return g.r.U()
	}
	return lo + g.r.U()%(d+1)
}

func b2u(b bool) uint8 {
	if b {
		return 1
	}
	return 0
}

// outside picks an id that is not valid for the instance, if one exists.
func (g *gen) outside(k Cfg) (Op, bool) {
	r := g.r
	lo, hi := bounds(k)
	if k.Sys == "ip" {
		f, t := netip.MustParseAddr(k.From), netip.MustParseAddr(k.To)
		var a []string
		a = append(a, "", " ", "not-an-ip", "10.0.0.256", "1.2.3", "::g", f.String()+" ", f.String()+"/32", "[::1]", "0x0a000001", f.String()+"%eth0")
		if p := f.Prev(); p.IsValid() {
			a = append(a, p.String(), p.String())
		}
		if n := t.Next(); n.IsValid() {
			a = append(a, n.String(), n.String(), n.String())
		}
		if f.Is4() {
			a = append(a, "::ffff:"+f.String(), "2001:db8::1", netip.AddrFrom16(f.As16()).String())
		} else {
			a = append(a, "10.0.0.4", "2001:db9::1")
			if t.Compare(netip.MustParseAddr("2001:db9::1")) >= 0 {
				a = a[:len(a)-1]
			}
		}
		s := a[r.N(len(a))]
		if s == "" {
			s = "x"
		}
		// keep only what is really unusable
		if ad, err := netip.ParseAddr(s); err == nil && ad.Zone() == "" && ad.Is4() == f.Is4() && ad.Compare(f) >= 0 && ad.Compare(t) <= 0 {
			return Op{}, false
		}
		return Op{A: s}, true
	}
	var cand []uint64
	if lo > 0 {
		cand = append(cand, lo-1, lo-1, 0)
	}
	if k.Wide {
		return Op{}, false
	}
	if hi < math.MaxUint64 {
		cand = append(cand, hi+1, hi+1, math.MaxUint64, math.MaxUint64-1)
	}
	x := g.between(lo, hi)
	for _, s := range []uint{16, 32, 48, 63} {
		if y := x + 1<<s; y > x {
			cand = append(cand, y)
		}
	}
	if k.Sys == "idx" && k.Size == 0 {
		return Op{ID: pick(r, 0, 1, uint64(math.MaxUint64))}, true
	}
	if isTree(k.Sys) {
		w := uint8(width(k.Sys))
		if !isBase(k.Sys) && r.P(0.25) { // a prefix longer than the id
			return Op{ID: g.between(lo, hi), L: w + uint8(pick(r, 1, 1, 8, r.In(1, 255-int(w)), 255-int(w)))}, true
		}
		if k.Len >= w {
			return Op{}, false
		}
		id := pick(r, hi+1, topID(w), hi+1+r.U()%(topID(w)-hi))
		l := w
		if r.P(0.3) { // a prefix that starts outside, host bits zero
			l = uint8(r.In(1, int(w)))
			id &= maskOf(w, l)
		}
		if id <= hi {
			id, l = hi+1, w
		}
		return Op{ID: id, L: l}, true
	}
	if len(cand) == 0 {
		return Op{}, false
	}
	id := cand[r.N(len(cand))]
	if id >= lo && id <= hi {
		return Op{}, false
	}
	return Op{ID: id}, true
}

func (g *gen) uid() int { g.u++; return g.u }

func (g *gen) token(sys string) int {
	g.d++
	if sys != "idx" && g.r.P(max(g.p.Nil, 0.03)) {
		return -1
	}
	d := g.d
	if g.few > 0 { // the same data again and again
		d = 1 + g.r.N(g.few)
	}
	if g.odd && sys != "idx" && g.r.P(0.5) {
		d |= odd
	}
	return d
}

// swarm draws a per-case mix: some operations more, some not at all.
func (g *gen) swarm() []mix {
	out := make([]mix, len(g.c.Insts))
	f := map[string]float64{}
	for _, o := range opNames {
		switch g.r.N(6) {
		case 0:
			f[o] = 0
		case 1:
			f[o] = 4
		default:
			f[o] = 1
		}
	}
	weight := g.p.Mix
	if g.r.P(0.15) { // other ways to change the contents
		weight = mix{"Claim": 1, "ClaimFree": 1, "ClaimRange": 1, "ClaimSize": 1, "Release": 1, "Update": 1, "ReleaseByLabel": 1}
		for o, n := range g.p.Mix {
			weight[o] = n
		}
	}
	g.focus = g.r.P(0.12)
	for i, k := range g.c.Insts {
		if g.focus { // two kinds of calls, so that these often overlap
			var ok []string
			for _, o := range opNames {
				if weight[o] > 0 && supported[k.Sys][o] && !(o == "IterateFree" && span(k) > 4096) {
					ok = append(ok, o)
				}
			}
			out[i] = mix{ok[g.r.N(len(ok))]: 1, ok[g.r.N(len(ok))]: 1}
			continue
		}
		m := mix{}
		tot := 0
		for _, o := range opNames {
			if w := weight[o]; w > 0 && supported[k.Sys][o] {
				if o == "IterateFree" && span(k) > 4096 {
					continue
				}
				x := int(float64(w) * f[o] * 2)
				m[o] = x
				tot += x
			}
		}
		if tot == 0 {
			for _, o := range opNames {
				if w := weight[o]; w > 0 && supported[k.Sys][o] && !(o == "IterateFree" && span(k) > 4096) {
					m[o] = w
				}
			}
		}
		out[i] = m
	}
	return out
}

func (g *gen) draw(m mix) string {
	t := 0
	for _, o := range opNames {
		t += m[o]
	}
	x := g.r.N(t)
	for _, o := range opNames {
		if x < m[o] {
			return o
		}
		x -= m[o]
	}
	panic("empty mix")
}

func (g *gen) cloneOp(src int) Op {
	o := Op{U: g.uid(), K: "Clone", I: src, J: g.clone}
	g.clone++
	return o
}

func (g *gen) op(w []mix, task int) Op {
	r := g.r
	i := r.N(len(g.c.Insts))
	if g.clones && (r.P(0.2) || g.focus && r.P(0.2)) && g.clone < len(g.c.Insts) {
		return g.cloneOp(r.N(g.clone))
	}
	return g.opOn(i, g.draw(w[i]))
}

func (g *gen) opOn(i int, kind string) Op {
	r := g.r
	k := g.c.Insts[i]
	o := Op{U: g.uid(), K: kind, I: i}
	pool := g.pools[i]
	key := pool[r.N(len(pool))]
	if !isTree(k.Sys) && r.P(0.3) {
		lo, hi := bounds(k)
		key = Key{ID: g.between(lo, hi)}
	}
	setKey := func() {
		o.ID, o.L = key.ID, key.L
		if r.P(g.p.Out) {
			if x, ok := g.outside(k); ok && (!isTree(k.Sys) || kind != "Children" && kind != "Parents" || int(x.L) <= width(k.Sys)) {
				o.ID, o.L, o.A = x.ID, x.L, x.A
			}
		}
	}
	switch kind {
	case "AddID", "RemoveID", "Split":
		w := uint8(width(k.Sys))
		lo, hi := bounds(k)
		o.ID, o.L = g.between(lo, hi), w-uint8(pick(r, 0, 0, 1, 1, 2, 3, r.N(6), r.N(int(w)+1)))
		if kind != "Split" && r.P(g.p.Out) {
			o.L = w + uint8(r.In(1, 200-int(w)))
		}
	case "AddRange", "RemoveRange":
		lo, hi := bounds(k)
		o.ID = g.between(lo, hi)
		o.N = pick(r, o.ID, g.between(lo, hi), g.between(o.ID, hi), min(hi, o.ID+min(hi-o.ID, uint64(r.N(8)))))
		if o.N < o.ID && !r.P(g.p.Out) {
			o.ID, o.N = o.N, o.ID
		}
	case "Get", "Release", "Has", "IsFree", "Children", "Parents":
		setKey()
	case "Claim", "Update", "Delete":
		setKey()
		o.D = g.token(k.Sys)
	case "ClaimFree":
		o.D = g.token(k.Sys)
	case "Print":
		o.N = r.U() % 2
	case "ClaimRange":
		o.D = g.token(k.Sys)
		if isTree(k.Sys) {
			o.A = g.rangeText(k)
		} else {
			o.ID, o.N = g.run(k)
		}
	case "FindRange":
		o.ID, o.N = g.run(k)
	case "ClaimSize", "FindSize":
		if kind == "ClaimSize" {
			o.D = g.token(k.Sys)
		}
		n := k.Size
		o.N = pick(r, 1, 1, 2, 2, 3, n/2, n, n+1, uint64(r.N(10)))
		if n > 4096 && o.N > 64 {
			o.N = pick(r, uint64(r.In(1, 40)), n+1)
			if n == math.MaxUint64 {
				o.N = uint64(r.In(1, 40))
			}
		}
		if r.P(0.02) {
			o.N = math.MaxUint64
			if n == math.MaxUint64 {
				o.N = 3
			}
		}
	case "GetByLabel", "ReleaseByLabel":
		o.S = r.N(nSel)
		if kind == "ReleaseByLabel" && r.P(0.5) {
			o.S = pick(r, selC0, selC1, selC2, selValue)
		}
		switch o.S {
		case selValue, selNotValue, selAbove, selBelow, selClassAbove:
			o.N = uint64(r.In(1, g.d+1))
			if g.few > 0 {
				o.N = uint64(r.In(1, g.few+1))
			}
		}
	}
	if r.P(g.p.Faults) {
		switch kind {
		case "GetByLabel", "ReleaseByLabel":
			o.F = pick(r, "panic", "panic", "goexit", "stall", "stall", "reenter", "nil")
			o.At = pick(r, 0, 0, 1, 2, r.N(6))
		case "Iterate", "IterateFree":
			o.F = "stall"
			o.At = pick(r, 0, 1, 2, r.N(6))
			if r.P(0.5) {
				o.F = "own"
				m := mix{"Release": 4, "Claim": 3, "Update": 2, "ClaimFree": 2}
				for n := range m {
					if !supported[k.Sys][n] {
						delete(m, n)
					}
				}
				sub := g.opOn(i, g.draw(m))
				sub.F = ""
				o.Sub = &sub
			}
		case "Get", "Claim", "Update", "Release", "Children", "Parents":
			if isTree(k.Sys) {
				o.F = "nil"
			}
		}
	}
	return o
}

// run draws a start and size for a range request on an index table.
func (g *gen) run(k Cfg) (start, n uint64) {
	r := g.r
	lo, hi := bounds(k)
	start = g.between(lo, hi)
	room := hi - start + 1
	if room == 0 {
		room = math.MaxUint64
	}
	cap := uint64(64)
	if !g.p.SmallCap && r.P(0.05) {
		cap = uint64(pick(r, 300, 1100, 5000))
	}
	n = pick(r, 1, 1, 2, 2, 3, 4, room, room, uint64(r.N(8)))
	if n > room || n > cap {
		n = 1 + r.U()%min(room, cap)
	}
	switch {
	case r.P(0.06):
		n = room + 1
		if room > 1<<40 { // cannot be refused cheaply by anything but arithmetic
			n = room + 1
		}
	case r.P(0.03):
		n = math.MaxUint64 - uint64(r.N(3))
	case r.P(0.03):
		n = -start // wraps to exactly 0
	case r.P(0.04):
		start = hi + 1 + uint64(r.N(3))
	}
	// a huge request that fits would have to be honoured: keep those small
	if last := start + n - 1; n > cap && start <= hi && last >= start && last <= hi {
		n = 1 + n%cap
	}
	return
}

func (g *gen) rangeText(k Cfg) string {
	r := g.r
	_, hi := bounds(k)
	a, b := g.between(0, hi), g.between(0, hi)
	if j := uint(r.N(64)); r.P(0.2) && hi>>j > 0 { // ends on block boundaries
		a = g.between(0, hi>>j) << j
		b = a | (1<<j - 1)
		if c := r.U() % 4; c > 0 && a+c<<j > a && a+c<<j-1 <= hi {
			b = a + c<<j - 1
		}
		if r.P(0.3) {
			b = hi
		}
	}
	if r.P(0.5) && hi > 0 { // short ranges collide more
		b = a + uint64(r.N(12))
		if b > hi || b < a {
			b = hi
		}
	}
	if a > b {
		a, b = b, a
	}
	if r.P(g.p.Out) {
		w := uint8(width(k.Sys))
		bad := []string{"", "-", "5", "1-", "-1", "a-b", " 1-2", "1 -2", "1-2-3", "1-2 ", "+1-2", "0x1-2", "99999999999999999999-99999999999999999999999", "1.0-2", "0--1", "1_0-20", "0o7-9", "1e1-20", "1-2\n", "\u0661-2"}
		if a != b {
			bad = append(bad, fmt.Sprintf("%d-%d", b, a), fmt.Sprintf("%d-%d", b, a))
		}
		if hi < topID(w) {
			bad = append(bad, fmt.Sprintf("%d-%d", a, hi+1), fmt.Sprintf("%d-%d", hi+1, hi+1), fmt.Sprintf("%d-%d", a, topID(w)), fmt.Sprintf("%d-%d", hi, hi+1))
		}
		if w < 64 {
			bad = append(bad, fmt.Sprintf("%d-%d", a, topID(w)+1), fmt.Sprintf("%d-%d", topID(w)+1, topID(w)+2))
		}
		return bad[r.N(len(bad))]
	}
	if r.P(g.p.Out / 4) { // still decimal
		return fmt.Sprintf("%0*d-%0*d", r.N(9), a, r.N(24), b)
	}
	return fmt.Sprintf("%d-%d", a, b)
}

// prefill claims some ids before the callers start.
func (g *gen) prefill(i int) {
	r := g.r
	k := g.c.Insts[i]
	lo, hi := bounds(k)
	n := span(k)
	add := func(kind string, f func(o *Op)) {
		o := Op{U: g.uid(), K: kind, I: i, D: g.token(k.Sys)}
		if !supported[k.Sys][kind] {
			return
		}
		f(&o)
		g.c.Init = append(g.c.Init, o)
	}
	level := r.N(5)
	if g.giant > 0 {
		g.fill(i)
		return
	}
	if isBase(k.Sys) && k.Size == 1 && r.P(0.004) { // very many values at a few prefixes
		n := pick(r, r.In(100, 140), r.In(250, 300), r.In(1020, 1100))
		for j := r.In(2, 4); j > 0; j-- {
			p := g.pools[i][r.N(len(g.pools[i]))]
			for v := 0; v < n; v++ {
				add("Update", func(o *Op) { o.ID, o.L, o.D = p.ID, p.L, 1+v%50 })
			}
		}
	}
	if isSet(k.Sys) {
		for j := r.N(6); j > 0; j-- {
			g.c.Init = append(g.c.Init, g.opOn(i, pick(r, "AddRange", "AddRange", "AddID", "RemoveRange")))
		}
		if r.P(0.15) { // many short ranges
			gap := max((hi-lo)/uint64(r.In(20, 90)), 2)
			for id := lo; hi-id > gap; id += gap {
				add("AddRange", func(o *Op) { o.ID, o.N = id, id+r.U()%pick(r, 1, 1, gap) })
			}
		}
		return
	}
	if isTree(k.Sys) {
		w := uint8(width(k.Sys))
		if g.big {
			for j := pick(r, r.In(60, 250), r.In(60, 250), r.In(250, 700)); j > 0; j-- {
				id, l := g.between(0, hi), w
				if r.P(0.3) {
					l = uint8(r.In(int(w-k.Len), int(w)))
					id &= maskOf(w, l)
				}
				add("Claim", func(o *Op) { o.ID, o.L = id, l })
			}
			for j := r.N(5); j > 0; j-- {
				add("ClaimFree", func(o *Op) {})
			}
			if r.P(0.5) { // and most of them go again, so that nodes are used anew
				for _, o := range g.c.Init[len(g.c.Init)/4:] {
					if o.I == i && o.K == "Claim" && r.P(0.9) {
						g.c.Init = append(g.c.Init, Op{U: g.uid(), K: "Release", I: i, ID: o.ID, L: o.L})
					}
				}
			}
			return
		}
		switch level {
		case 0:
		case 1, 2:
			for j := r.In(1, 5); j > 0; j-- {
				p := g.pools[i][r.N(len(g.pools[i]))]
				add("Claim", func(o *Op) { o.ID, o.L = p.ID, p.L })
			}
		case 3: // nearly everything covered
			if hi > 3 {
				left := uint64(r.N(4))
				a, b := uint64(0), hi-left
				if r.P(0.4) {
					a, b = left, hi
				}
				add("ClaimRange", func(o *Op) { o.A = fmt.Sprintf("%d-%d", a, b) })
			}
		case 4:
			for j := r.In(1, 4); j > 0; j-- {
				if r.P(0.5) {
					add("ClaimFree", func(o *Op) {})
				} else {
					id := g.between(0, hi)
					add("Claim", func(o *Op) { o.ID, o.L = id, w })
				}
			}
		}
		return
	}
	if n == 0 {
		return
	}
	if n > 700 {
		for j := r.N(4); j > 0; j-- {
			p := g.pools[i][r.N(len(g.pools[i]))]
			add("Claim", func(o *Op) { o.ID = p.ID })
		}
		if r.P(0.5) { // occupy the front so that the search has to go past it
			for j := uint64(0); j < uint64(r.N(6)); j++ {
				add("Claim", func(o *Op) { o.ID = lo + j })
			}
		}
		return
	}
	leave := map[uint64]bool{}
	switch level {
	case 0:
		return
	case 1, 2:
		for j := uint64(0); j < n; j++ {
			if r.P(0.5) {
				leave[lo+j] = true
			}
		}
	case 3:
		for j := r.In(1, 2); j > 0; j-- {
			id := g.between(lo, hi)
			if r.P(0.3) { // a multiple of a power of two, counted from the first id
				j := uint(r.In(2, 8))
				id = lo + (id-lo)>>j<<j
			}
			leave[id] = true
		}
	}
	for id := lo; ; id++ {
		if !leave[id] {
			add("Claim", func(o *Op) { o.ID = id })
		}
		if id == hi {
			break
		}
	}
}

// fill puts very many entries in.
func (g *gen) fill(i int) {
	r := g.r
	k := g.c.Insts[i]
	lo, hi := bounds(k)
	n := g.giant
	claim := "Claim"
	if isSet(k.Sys) {
		claim = "AddRange"
		n = min(n, 4200)
	} else if room := hi - lo; uint64(n) > room {
		n = int(room) + 1
	}
	leave := r.In(0, 40) // ids at the end that stay free
	if isTree(k.Sys) && r.P(0.5) {
		leave = 0
	}
	if k.Sys == "idx" && r.P(0.4) {
		g.c.Init = append(g.c.Init, Op{U: g.uid(), K: pick(r, "ClaimSize", "ClaimRange"), I: i, D: 1, N: uint64(n - min(leave, n-1))})
		return
	}
	stride := uint64(1)
	if isTree(k.Sys) || isSet(k.Sys) {
		stride = pick(r, 1, 3, hi/2+2|1, r.U()|1)
	}
	holes := r.P(0.4)
	for j := 0; j < n-leave; j++ {
		if holes && r.P(0.001) {
			continue
		}
		o := Op{U: g.uid(), K: claim, I: i, ID: lo + uint64(j), D: 1 + j%50}
		switch {
		case isSet(k.Sys):
			o.ID = lo + uint64(j)*stride%(hi-lo)
			o.N = min(hi, o.ID+uint64(r.N(3)))
		case isTree(k.Sys):
			o.ID, o.L = uint64(j)*stride&hi, uint8(width(k.Sys))
			if r.P(0.02) {
				o.L -= min(o.L, uint8(r.In(1, 3)))
				o.ID &= maskOf(uint8(width(k.Sys)), o.L)
			}
		}
		g.c.Init = append(g.c.Init, o)
	}
}

// post adds the operations made after every caller has finished.
func (g *gen) post() {
	r, p := g.r, g.p
	for i, k := range g.c.Insts {
		do := func(kind string, f func(o *Op)) {
			o := Op{U: g.uid(), K: kind, I: i}
			if (isBase(k.Sys) || isSet(k.Sys)) && !supported[k.Sys][kind] {
				return
			}
			switch kind {
			case "Claim", "ClaimFree", "ClaimSize":
				o.D = g.token(k.Sys)
			}
			if f != nil {
				f(&o)
			}
			g.c.Post = append(g.c.Post, o)
		}
		lo, hi := bounds(k)
		n := span(k)
		if p.Tail || p.Churn || p.Sweep {
			do("GetAll", nil)
			if isSet(k.Sys) {
				do("Build", nil)
			}
			do("Size", nil)
			for _, key := range g.pools[i] {
				if r.P(0.5) {
					do("Get", func(o *Op) { o.ID, o.L = key.ID, key.L })
				}
			}
			if p.Churn && !isTree(k.Sys) && n <= 200 && k.Size+1 > 0 {
				for j := uint64(0); j < n; j++ {
					do(pick(r, "Has", "IsFree"), func(o *Op) { o.ID = lo + j })
				}
			}
		}
		if p.Sweep && !isTree(k.Sys) {
			if n <= 100 {
				for j := uint64(0); j < n; j++ {
					do("Claim", func(o *Op) { o.ID = lo + j })
				}
			} else {
				for _, id := range []uint64{lo, hi, lo + (hi-lo)/2, hi - 1, lo + 1} {
					do("Claim", func(o *Op) { o.ID = id })
				}
			}
			do("Size", nil)
			if supported[k.Sys]["ClaimFree"] {
				do("ClaimFree", nil)
			} else {
				do("FindFree", nil)
			}
			do("GetAll", nil)
		}
		if p.Sweep && isTree(k.Sys) {
			w := uint8(width(k.Sys))
			do("ReleaseByLabel", func(o *Op) { o.S = selAll })
			if n <= 32 {
				for j := uint64(0); j <= n; j++ {
					do("ClaimFree", nil)
				}
			} else {
				for _, id := range []uint64{0, hi, hi / 2, hi - 1} {
					do("Claim", func(o *Op) { o.ID, o.L = id, w })
				}
				do("ClaimFree", nil)
			}
			do("GetAll", nil)
		}
		if isBase(k.Sys) && r.P(0.01) || p.Churn && r.P(0.02) || p.Churn && isTree(k.Sys) && k.Len > 4 && r.P(0.06) {
			do("Cycle", func(o *Op) {
				m := mix{"Claim": 6, "ClaimFree": 3, "ClaimSize": 2, "ClaimRange": 2, "Update": 2, "Get": 1, "GetAll": 1, "GetByLabel": 1, "Size": 1, "Iterate": 1, "FindFree": 1}
				if isTree(k.Sys) {
					delete(m, "ClaimRange")
				}
				if isBase(k.Sys) {
					m["Release"], m["Delete"] = 2, 3
				}
				for n := range m {
					if !supported[k.Sys][n] {
						delete(m, n)
					}
				}
				o.N = r.U() % 2
				if isTree(k.Sys) && r.P(0.5) {
					o.J = []int{1, 2, 3, 5, 37, 64, 255, 257, 4099}[r.N(9)]
				}
				for j := r.In(1, 10); j > 0; j-- {
					s := g.opOn(i, g.draw(m))
					s.F, s.Sub = "", nil
					if n := len(o.Script); s.K == "Update" && n > 0 {
						c := o.Script[r.N(n)]
						s.ID, s.L, s.A = c.ID, c.L, c.A
					}
					o.Script = append(o.Script, s)
				}
			})
		}
		if p.Churn {
			if isTree(k.Sys) {
				w := uint8(width(k.Sys))
				if k.Len <= 4 && r.P(0.7) {
					for l := int(w); l >= 0; l-- {
						if uint8(l) < w-k.Len {
							do("Release", func(o *Op) { o.ID, o.L = 0, uint8(l) })
							continue
						}
						step := uint64(1) << (w - uint8(l))
						if w-uint8(l) >= 64 {
							step = 0
						}
						for id := uint64(0); id <= hi; id += step {
							id, l := id, l
							do("Release", func(o *Op) { o.ID, o.L = id, uint8(l) })
							if step == 0 || id+step < id {
								break
							}
						}
					}
					// shuffle so that nodes merge in every order
					var mine []int
					for x := range g.c.Post {
						if g.c.Post[x].I == i && g.c.Post[x].K == "Release" {
							mine = append(mine, x)
						}
					}
					for x := len(mine) - 1; x > 0; x-- {
						y := r.N(x + 1)
						g.c.Post[mine[x]], g.c.Post[mine[y]] = g.c.Post[mine[y]], g.c.Post[mine[x]]
					}
				} else {
					do("ReleaseByLabel", func(o *Op) { o.S = selAll })
				}
				do("Size", nil)
				do("GetAll", nil)
				if n <= 32 {
					for j := uint64(0); j <= n; j++ {
						do("ClaimFree", nil)
					}
				} else {
					for j := 0; j < 3; j++ {
						do("ClaimFree", nil)
					}
				}
				do("Size", nil)
				do("GetAll", nil)
				continue
			}
			if n == 0 || n > 200 {
				continue
			}
			var rel []int
			for j := uint64(0); j < n; j++ {
				rel = append(rel, len(g.c.Post))
				do("Release", func(o *Op) { o.ID = lo + j })
			}
			for x := len(rel) - 1; x > 0; x-- {
				y := r.N(x + 1)
				g.c.Post[rel[x]], g.c.Post[rel[y]] = g.c.Post[rel[y]], g.c.Post[rel[x]]
			}
			do("Size", nil)
			do("GetAll", nil)
			if supported[k.Sys]["ClaimFree"] {
				for j := uint64(0); j <= n; j++ {
					do("ClaimFree", nil)
				}
			} else {
				for j := uint64(0); j < n; j++ {
					do("Claim", func(o *Op) { o.ID = lo + j })
				}
				do("FindFree", nil)
			}
			do("Size", nil)
			do("GetAll", nil)
		}
	}
}

func (g *gen) strategy(long bool) {
	r := g.r
	s := StratCfg{Seed: r.U()}
	switch {
	case long || r.P(0.07+g.p.Serial):
		s.Kind = "serial"
	case r.P(0.35):
		s.Kind = "pct"
		s.Depth = r.In(1, 4)
		s.Len = pick(r, 60, 200, 600, 2000)
	default:
		s.Kind = "rand"
		s.P = pick(r, 0.5, 0.25, 0.1, 0.05, 0.02, 0.005)
		s.Locky = r.P(0.4)
		if r.P(0.1 + g.p.Stall) {
			s.Stall = r.In(1, 2)
		}
	}
	g.c.Strat = s
}
