package simrt

// The hooks package simsync and simatomic are built from.

// Point lets the running task be preempted before a synchronisation operation.
func Point(kind int) {
	if s := live(); s != nil {
		s.point(kind, s.curSite)
	}
}

// Active tells whether a simulated task is running.
func Active() bool { return live() != nil }

// Inert tells whether the simulation is being torn down: locks do nothing.
func Inert() bool { return S != nil && S.aborting }

// Current is the running task.
func Current() *Task { return S.cur }

// Block parks the running task; Unblock makes a parked one runnable.
func Block(why string) { S.block(why, S.curSite) }

func Unblock(t *Task) { S.unblock(t) }

// Held tracks how many simulated locks the running task holds.
func Held(d int) {
	if s := live(); s != nil {
		s.cur.held += d
	}
}

// HeldNow is the number of simulated locks the task holds.
func (t *Task) HeldNow() int { return t.held }

// Fatal ends the run the way the Go runtime would end the process.
func Fatal(msg string) {
	if s := live(); s != nil {
		s.Fatal(msg)
		return
	}
	if !Inert() {
		panic(msg)
	}
}

// Pick chooses one of n by the run's seed.
func Pick(n int) int {
	if n <= 1 {
		return 0
	}
	return int(Rand() % uint64(n))
}
