package harness

// Linearizability checking: a depth-first search for a one-at-a-time order of
// the calls that respects real time and that the reference model accepts,
// remembering visited (progress, state) pairs.

type linKey struct {
	prog [12]uint32
	hash uint64
}

type linResult int

const (
	linOK linResult = iota
	linBad
	linUnknown
)

// Linearize searches; nodes is the work done. On failure it returns the
// longest order found and what the model objected to there.
func Linearize(m *Model, evs []*Event, budget int) (res linResult, nodes int, best []*Event, why []string) {
	byTask := map[int]int{}
	var lanes [][]*Event
	for _, e := range evs {
		if e.Ret == 0 || e.Res.Skip {
			continue
		}
		i, ok := byTask[e.Task]
		if !ok {
			i = len(lanes)
			byTask[e.Task] = i
			lanes = append(lanes, nil)
		}
		lanes[i] = append(lanes[i], e)
	}
	if len(lanes) > 12 {
		return linUnknown, 0, nil, nil
	}
	seen := map[linKey]struct{}{}
	var prog [12]uint32
	var order []*Event
	total := 0
	for _, l := range lanes {
		total += len(l)
	}
	bestN := -1
	var dfs func() linResult
	dfs = func() linResult {
		if len(order) == total {
			return linOK
		}
		nodes++
		if nodes > budget {
			return linUnknown
		}
		// earliest return among the next calls bounds which may come first
		min := int(^uint(0) >> 1)
		next := 0
		for i, l := range lanes {
			if int(prog[i]) < len(l) {
				next++
				if r := l[prog[i]].Ret; r < min {
					min = r
				}
			}
		}
		var objections []string
		for i, l := range lanes {
			if int(prog[i]) >= len(l) {
				continue
			}
			e := l[prog[i]]
			if e.Inv > min {
				continue
			}
			mark := m.Mark()
			w := m.Step(&e.Op, &e.Res)
			if w != "" {
				m.Undo(mark)
				objections = append(objections, e.Op.String()+": "+w)
				continue
			}
			prog[i]++
			order = append(order, e)
			k := linKey{prog, m.Hash()}
			_, dup := seen[k]
			r := linBad
			if !dup {
				if next > 1 {
					seen[k] = struct{}{}
				}
				r = dfs()
			}
			if r != linBad {
				if r == linOK {
					return r
				}
				prog[i]--
				order = order[:len(order)-1]
				m.Undo(mark)
				return r
			}
			prog[i]--
			order = order[:len(order)-1]
			m.Undo(mark)
		}
		if len(objections) > 0 && len(order) > bestN {
			bestN = len(order)
			best = append([]*Event(nil), order...)
			why = objections
		}
		return linBad
	}
	res = dfs()
	return res, nodes, best, why
}
