package kit

// LinOp is one completed operation of a concurrent history.
type LinOp struct {
	Inv, Ret int64
	// Step returns the states in which the operation may leave a sequential
	// object that is in state s, given the result it returned; none if it
	// cannot have returned that.
	Step func(s uint64) []uint64
	Name string
}

// Linearizable decides whether the history has a sequential explanation that
// respects real time. It gives up (decided=false) after limit search nodes.
func Linearizable(ops []LinOp, init uint64, limit int) (ok, decided bool) {
	n := len(ops)
	if n == 0 {
		return true, true
	}
	if n > 64 {
		return true, false
	}
	type key struct{ done, state uint64 }
	seen := map[key]struct{}{}
	full := uint64(1)<<uint(n) - 1
	if n == 64 {
		full = ^uint64(0)
	}
	nodes := 0
	gaveUp := false
	var dfs func(done, s uint64) bool
	dfs = func(done, s uint64) bool {
		if done == full {
			return true
		}
		k := key{done, s}
		if _, x := seen[k]; x {
			return false
		}
		seen[k] = struct{}{}
		nodes++
		if nodes > limit {
			gaveUp = true
			return false
		}
		// earliest response among the operations still to come
		first := int64(1) << 62
		for i := range ops {
			if done&(1<<uint(i)) == 0 && ops[i].Ret < first {
				first = ops[i].Ret
			}
		}
		for i := range ops {
			b := uint64(1) << uint(i)
			if done&b != 0 || ops[i].Inv > first {
				continue
			}
			for _, t := range ops[i].Step(s) {
				if dfs(done|b, t) {
					return true
				}
				if gaveUp {
					return false
				}
			}
		}
		return false
	}
	if dfs(0, init) {
		return true, true
	}
	return gaveUp, !gaveUp
}
