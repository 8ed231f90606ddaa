package main

import (
	"golang.org/x/tools/go/ssa"
)

// A small path-sensitive typestate interpreter: a finite state is pushed along
// every path of a function; calls to functions chosen by `inline` are entered
// with the current state and the abstract arguments.
type tsRun[S comparable] struct {
	inline func(f *ssa.Function) bool
	// instr returns the states after the instruction (nil: the path ends).
	instr func(fr *tsFrame, in ssa.Instruction, s S) []S
	// edge refines the state along a branch; ok=false: the edge is infeasible.
	edge  func(fr *tsFrame, cond ssa.Value, taken bool, s S) (S, bool)
	limit int
	steps int
	over  bool
}

// tsFrame is one activation in the inlined call tree.
type tsFrame struct {
	fn   *ssa.Function
	call ssa.CallInstruction // call site in up
	up   *tsFrame
}

// arg resolves a parameter to the caller's argument, transitively.
func (fr *tsFrame) resolve(v ssa.Value) (ssa.Value, *tsFrame) {
	for {
		p, ok := v.(*ssa.Parameter)
		if !ok || fr == nil || fr.up == nil || p.Parent() != fr.fn {
			return v, fr
		}
		idx := -1
		for i, q := range fr.fn.Params {
			if q == p {
				idx = i
			}
		}
		args := fr.call.Common().Args
		if idx < 0 || idx >= len(args) {
			return v, fr
		}
		v, fr = args[idx], fr.up
	}
}

func (fr *tsFrame) depth() int {
	n := 0
	for f := fr; f != nil; f = f.up {
		n++
	}
	return n
}

func (fr *tsFrame) active(fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.up {
		if f.fn == fn {
			return true
		}
	}
	return false
}

type tsPoint[S comparable] struct {
	b *ssa.BasicBlock
	s S
}

// run returns the states at the function's normal returns.
func (r *tsRun[S]) run(fr *tsFrame, entry S) map[S]bool {
	exits := map[S]bool{}
	if len(fr.fn.Blocks) == 0 {
		exits[entry] = true
		return exits
	}
	seen := map[tsPoint[S]]bool{}
	work := []tsPoint[S]{{fr.fn.Blocks[0], entry}}
	seen[work[0]] = true
	push := func(b *ssa.BasicBlock, s S) {
		pt := tsPoint[S]{b, s}
		if !seen[pt] {
			seen[pt] = true
			work = append(work, pt)
		}
	}
	for len(work) > 0 {
		r.steps++
		if r.limit > 0 && r.steps > r.limit {
			r.over = true
			return exits
		}
		pt := work[len(work)-1]
		work = work[:len(work)-1]
		cur := map[S]bool{pt.s: true}
		for _, in := range pt.b.Instrs {
			next := map[S]bool{}
			for s := range cur {
				if c, ok := in.(*ssa.Call); ok {
					if g := calleeOf(&c.Call); g != nil && r.inline != nil && r.inline(g) && !fr.active(g) && fr.depth() < 8 {
						for x := range r.run(&tsFrame{g, c, fr}, s) {
							next[x] = true
						}
						continue
					}
				}
				for _, x := range r.instr(fr, in, s) {
					next[x] = true
				}
			}
			cur = next
		}
		last := pt.b.Instrs[len(pt.b.Instrs)-1]
		switch last := last.(type) {
		case *ssa.Return:
			for s := range cur {
				exits[s] = true
			}
		case *ssa.If:
			for s := range cur {
				for i, succ := range pt.b.Succs {
					if r.edge != nil {
						if x, ok := r.edge(fr, last.Cond, i == 0, s); ok {
							push(succ, x)
						}
					} else {
						push(succ, s)
					}
				}
			}
		default:
			for s := range cur {
				for _, succ := range pt.b.Succs {
					push(succ, s)
				}
			}
		}
	}
	return exits
}
