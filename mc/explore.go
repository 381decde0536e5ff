package main

import "fmt"

// Chooser resolves every nondeterministic choice of one execution: it replays a prefix and then takes
// choice 0 at every later point.
type Chooser struct {
	prefix  []int
	Choices []int
	arity   []int
	costs   []int // cost of deviating (taking a non-zero choice) at that point
	labels  []string
	keep    bool
}

// Choose picks one of n alternatives; deviating costs cost.
func (ch *Chooser) Choose(n, cost int, label string) int {
	if n <= 1 {
		return 0
	}
	i := len(ch.Choices)
	v := 0
	if i < len(ch.prefix) {
		v = ch.prefix[i]
		if v >= n {
			panic(divergence{fmt.Sprintf("choice %d (%s): %d of %d", i, label, v, n)})
		}
	}
	ch.Choices = append(ch.Choices, v)
	ch.arity = append(ch.arity, n)
	ch.costs = append(ch.costs, cost)
	if ch.keep {
		ch.labels = append(ch.labels, label)
	}
	return v
}

type divergence struct{ msg string }

// Explore enumerates every execution of run with total deviation cost at most bound (depth-first,
// fewest deviations first per prefix). run must be deterministic given the choices.
// It returns the number of executions and whether the enumeration was completed.
func Explore(bound int, maxExec int, expired func() bool, run func(ch *Chooser) bool) (execs int, points int, complete bool) {
	return explorePart(bound, maxExec, 0, 1, expired, run)
}

// explorePart is Explore of the executions whose first deviation belongs to the part (all parts run the
// execution without deviations).
func explorePart(bound, maxExec, part, parts int, expired func() bool, run func(ch *Chooser) bool) (execs int, points int, complete bool) {
	complete = true
	type node struct {
		prefix []int
		cost   int
	}
	// iterate by cost so that the simplest counterexample is found first
	level := []node{{nil, 0}}
	for cost := 0; cost <= bound; cost++ {
		var next []node
		for len(level) > 0 {
			n := level[len(level)-1]
			level = level[:len(level)-1]
			if n.cost > cost {
				next = append(next, n)
				continue
			}
			if (maxExec > 0 && execs >= maxExec) || (expired != nil && expired()) {
				return execs, points, false
			}
			ch := &Chooser{prefix: n.prefix}
			execs++
			ok := run(ch)
			if len(ch.Choices) > points {
				points = len(ch.Choices)
			}
			if !ok {
				return execs, points, false
			}
			for i := len(ch.Choices) - 1; i >= len(n.prefix); i-- {
				if n.cost+ch.costs[i] > bound {
					continue
				}
				for alt := ch.arity[i] - 1; alt >= 1; alt-- {
					if n.prefix == nil && (i+alt)%parts != part {
						continue
					}
					p := append(append(make([]int, 0, i+1), ch.Choices[:i]...), alt)
					nn := node{p, n.cost + ch.costs[i]}
					if nn.cost > cost {
						next = append(next, nn)
					} else {
						level = append(level, nn)
					}
				}
			}
		}
		level = next
	}
	return execs, points, complete
}
