package zzverif

// A small linearizability checker: depth-first search over the orders that respect real time.

// lop is one completed operation of a recorded history.
type lop struct {
	inv, ret int64 // harness clock at invocation and return
	what     string
}

// linearizable looks for an order of ops that respects their intervals and that the model accepts.
// try is called with the operations chosen so far (in order) and reports whether the last one is
// consistent; done is called with a complete order.
func linearizable(ops []lop, try func(order []int) bool, done func(order []int) bool) bool {
	n := len(ops)
	used := make([]bool, n)
	order := make([]int, 0, n)
	budget := 200000
	var rec func() bool
	rec = func() bool {
		if budget--; budget < 0 {
			return true // undecided: never an alarm
		}
		if len(order) == n {
			return done == nil || done(order)
		}
		// The earliest return among what is left bounds which operations may come next.
		first := int64(1) << 62
		for i := range ops {
			if !used[i] && ops[i].ret < first {
				first = ops[i].ret
			}
		}
		for i := range ops {
			if used[i] || ops[i].inv > first {
				continue
			}
			used[i] = true
			order = append(order, i)
			if try(order) && rec() {
				return true
			}
			order = order[:len(order)-1]
			used[i] = false
		}
		return false
	}
	return rec()
}

// tick is the harness clock that stamps invocations and returns.
var tick Cell
