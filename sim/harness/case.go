// Package harness drives the instrumented library under the simulator: it
// generates workloads and faults from a seed, runs them, records the history,
// judges it against reference models, minimises failures and replays them.
package harness

import (
	"encoding/json"
	"fmt"

	"verif.local/sim/simrt"
)

// Key names an entry in canonical form: an external id (the offset from the
// range start for IP tables) and, for trees, a prefix length.
type Key struct {
	ID uint64 `json:"id"`
	L  uint8  `json:"l,omitempty"`
}

// KV is an entry: its key and the token of the write that produced it.
type KV struct {
	K Key `json:"k"`
	D int `json:"d"`
}

// Op is one call a simulated caller makes. U is its identity, stable under
// minimisation.
type Op struct {
	U   int    `json:"u"`
	K   string `json:"op"`
	I   int    `json:"inst,omitempty"` // instance it is made on
	ID  uint64 `json:"id,omitempty"`
	L   uint8  `json:"len,omitempty"`
	N   uint64 `json:"n,omitempty"`
	D   int    `json:"data,omitempty"` // token written; -1: nil labels
	S   int    `json:"sel,omitempty"`
	A   string `json:"text,omitempty"`
	J   int    `json:"dst,omitempty"` // clone destination
	F   string `json:"fault,omitempty"`
	At  int    `json:"at,omitempty"`  // selector call, or iterator step, the fault strikes at
	Sub *Op    `json:"sub,omitempty"` // own: the call made while iterating
	// Script is what a Cycle repeats.
	Script []Op `json:"script,omitempty"`
}

// Cfg configures one instance.
type Cfg struct {
	Sys  string `json:"sys"` // idx t16 t32 t64 ip tree16 tree32 tree64
	Lo   uint64 `json:"lo,omitempty"`
	Hi   uint64 `json:"hi,omitempty"`
	Size uint64 `json:"size,omitempty"`
	Len  uint8  `json:"len,omitempty"`
	From string `json:"from,omitempty"`
	To   string `json:"to,omitempty"`
	Off  bool   `json:"off,omitempty"` // slot filled later by a clone
	// Wide ranges hold more ids than a 64-bit index can name: an IP range that
	// goes 2*2^64 addresses beyond Hi, or the full 64-bit id range. Ids above Hi
	// may be refused, but must not be mixed up with others.
	Wide bool `json:"wide,omitempty"`
	// Inv: the constructor gets the ends in the wrong order, or of different families;
	// there is no id.
	Inv bool `json:"inverted,omitempty"`
}

// StratCfg selects the scheduling strategy.
type StratCfg struct {
	Kind   string         `json:"kind"` // rand, pct, serial, trace
	Seed   uint64         `json:"seed,omitempty"`
	P      float64        `json:"p,omitempty"`
	Depth  int            `json:"depth,omitempty"`
	Len    int            `json:"len,omitempty"` // expected run length, for pct
	Stall  int            `json:"stall,omitempty"`
	Locky  bool           `json:"locky,omitempty"` // weight preemption towards lock operations
	Switch []simrt.Switch `json:"schedule,omitempty"`
}

// Case is one fully determined run.
type Case struct {
	Prop   string   `json:"property"`
	Seed   uint64   `json:"seed"`
	Insts  []Cfg    `json:"instances"`
	Init   []Op     `json:"init,omitempty"`
	Tasks  [][]Op   `json:"callers"`
	Post   []Op     `json:"post,omitempty"`
	Map    uint64   `json:"map_seed"`
	Race   bool     `json:"race,omitempty"`
	Own    bool     `json:"own,omitempty"` // callers read results again later and overwrite listings they got
	Strat  StratCfg `json:"strategy"`
	Judge  string   `json:"judge"`
	Budget int      `json:"op_budget,omitempty"`
}

func (c *Case) clone() *Case {
	b, _ := json.Marshal(c)
	n := &Case{}
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}

func (c *Case) nops() int {
	n := len(c.Init) + len(c.Post)
	for _, t := range c.Tasks {
		n += len(t)
	}
	return n
}

// Res is what a call was observed to do.
type Res struct {
	Err  bool   `json:"err,omitempty"`
	Has  bool   `json:"has,omitempty"` // Key and D are set
	Key  Key    `json:"key"`
	D    int    `json:"d,omitempty"`
	B    bool   `json:"b,omitempty"`
	N    int    `json:"n,omitempty"`
	L    []KV   `json:"l,omitempty"`
	Con  []bool `json:"con,omitempty"` // IsConsecutive of each iterated id
	Pan  string `json:"panic,omitempty"`
	Bad  string `json:"bad,omitempty"` // malformed result
	Skip bool   `json:"skip,omitempty"`
}

func (r Res) String() string {
	s := ""
	if r.Pan != "" {
		return "PANIC " + r.Pan
	}
	if r.Skip {
		return "skipped"
	}
	if r.Bad != "" {
		s = " MALFORMED " + r.Bad
	}
	if r.Err {
		return "error" + s
	}
	if r.Has {
		s = fmt.Sprintf(" %s d=%d", r.Key, r.D) + s
	}
	if len(r.L) > 0 {
		s += fmt.Sprintf(" %v", r.L)
	}
	return fmt.Sprintf("ok b=%v n=%d%s", r.B, r.N, s)
}

func (k Key) String() string {
	if k.L == 0 {
		return fmt.Sprint(k.ID)
	}
	return fmt.Sprintf("%d/%d", k.ID, k.L)
}

func (k KV) String() string { return fmt.Sprintf("%s:%d", k.K, k.D) }

func (o Op) String() string {
	s := fmt.Sprintf("#%d i%d %s", o.U, o.I, o.K)
	if o.A != "" {
		s += fmt.Sprintf(" %q", o.A)
	} else {
		s += " " + Key{o.ID, o.L}.String()
	}
	if o.N != 0 {
		s += fmt.Sprintf(" n=%d", o.N)
	}
	if o.D != 0 {
		s += fmt.Sprintf(" d=%d", o.D)
	}
	if o.S != 0 {
		s += fmt.Sprintf(" sel=%d", o.S)
	}
	if o.J != 0 {
		s += fmt.Sprintf(" ->i%d", o.J)
	}
	if o.F != "" {
		s += fmt.Sprintf(" fault=%s@%d", o.F, o.At)
	}
	if o.Sub != nil && o.F == "own" {
		s += fmt.Sprintf(" (%s)", o.Sub)
	}
	for _, c := range o.Script {
		s += fmt.Sprintf(" [%s]", &c)
	}
	return s
}

// Event is one call in the history.
type Event struct {
	Op    Op
	Res   Res
	Task  int
	Inv   int
	Ret   int // 0: never returned
	Steps int
}

// ---- random numbers

// RNG is splitmix64.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{seed} }

func (r *RNG) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *RNG) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U() % uint64(n))
}

// In returns a number in [a,b].
func (r *RNG) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability p.
func (r *RNG) P(p float64) bool { return float64(r.U()>>11)/(1<<53) < p }

func pick[T any](r *RNG, x ...T) T { return x[r.N(len(x))] }

func hash64(a uint64, bs ...uint64) uint64 {
	// a is mixed on its own: combining it with the first b by a mere xor would
	// make (a, b) and (a^d, b^d) collide
	h := (a ^ 0x2545f4914f6cdd1d) * 0xff51afd7ed558ccd
	h ^= h >> 32
	h *= 0x9e3779b97f4a7c15
	h ^= h >> 29
	for _, b := range bs {
		h = (h ^ b) * 0xff51afd7ed558ccd
		h ^= h >> 33
		h *= 0xc4ceb9fe1a85ec53
		h ^= h >> 29
	}
	return h
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
