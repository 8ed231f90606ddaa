package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A source class of Scan: which dynamic type the driver delivered.
type srcClass struct {
	name string
	typ  types.Type // nil: none of the supported types
}

func scanClasses() []srcClass {
	return []srcClass{
		{"[]byte", types.NewSlice(types.Typ[types.Byte])},
		{"string", types.Typ[types.String]},
		{"an unsupported type", types.NewStruct(nil, nil)},
	}
}

func init() {
	register("C03", "other",
		"Conditional constant propagation over every Scan method specialised to the dynamic type of the source ([]byte, string, time.Time, none of those), with a forward dataflow of the destination's state over the feasible blocks: a nil error is returned only after something was stored, and a possibly non-nil error only while the destination is untouched.",
		func(p *Prog, r *Report) {
			cs := converters(p)
			r.Rule("all-or-nothing", "a Scan that returns a non-nil error has not written to its destination")
			for _, c := range cs {
				if c.scan == nil {
					continue
				}
				name := p.fname(c.scan)
				s := runSCCP(c.scan, []absVal{{k: aTop}, {k: aTop}}, recvTop, 4)
				res := scanState(s, destRoot, stUntouched, 3)
				good := true
				for ret, st := range res {
					if a := errVal(s, ret); a.k == aNil {
						continue
					}
					if st != stUntouched {
						good = false
						r.Bad(name+"|partial", "%s: the return at %s can carry an error after the destination was written", name, p.pos(ret.Pos()))
					}
				}
				if good {
					r.Ok(name)
				}
			}
			r.Min(150)

			r.Rule("no-silent-success", "a Scan given a non-NULL source returns an error or stores into its destination; it never reports success without storing, whatever the dynamic type of the source")
			for _, c := range cs {
				if c.scan == nil {
					continue
				}
				name := p.fname(c.scan)
				for _, cl := range scanClasses() {
					s := runSCCP(c.scan, []absVal{{k: aTop}, {k: aNonNil, dyn: cl.typ}}, recvTop, 4)
					res := scanState(s, destRoot, stUntouched, 3)
					good := true
					for ret, st := range res {
						a := errVal(s, ret)
						if a.k == aNonNil {
							continue
						}
						if cl.typ != nil && a.k == aTop {
							continue // an error variable: the path is judged at its nil returns
						}
						if st&stUntouched != 0 {
							good = false
							r.Bad(name+"|"+cl.name, "%s: given %s the return at %s reports success although nothing was stored in the destination", name, cl.name, p.pos(ret.Pos()))
						} else if st&(stNil|stZero) != 0 && cl.name == "an unsupported type" {
							good = false
							r.Bad(name+"|null|"+cl.name, "%s: given %s the return at %s reports success after storing nil as if the value were NULL", name, cl.name, p.pos(ret.Pos()))
						}
					}
					if good {
						r.Ok(name + " given " + cl.name)
					}
				}
			}
			r.Min(450)
			ruleNetParse(p, r)
		})
}

func recvTop(fa *ssa.FieldAddr) (absVal, bool) {
	if _, ok := recvField(fa); ok {
		return absVal{k: aTop}, true
	}
	return absVal{}, false
}

func errVal(s *sccp, ret *ssa.Return) absVal {
	a := s.get(ret.Results[len(ret.Results)-1])
	if a.k == aTop && retGuardedNonNil(ret) {
		return absVal{k: aNonNil}
	}
	return a
}

// retGuardedNonNil: the returned error was compared against nil and this return
// is only reached on the non-nil side.
func retGuardedNonNil(ret *ssa.Return) bool {
	v := ret.Results[len(ret.Results)-1]
	return knownNonNilAt(v, ret.Block(), map[ssa.Value]bool{})
}

func knownNonNilAt(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if ph, ok := v.(*ssa.Phi); ok {
		all := true
		for i, e := range ph.Edges {
			if !knownNonNilOnEdge(e, ph.Block().Preds[i], ph.Block(), seen) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) == 1 && nonNilEdge(v, d.Preds[0], d) {
			return true
		}
	}
	return false
}

func knownNonNilOnEdge(v ssa.Value, from, to *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	return nonNilEdge(v, from, to) || knownNonNilAt(v, from, seen)
}

// nonNilEdge: the edge from->to is taken only if v != nil.
func nonNilEdge(v ssa.Value, from, to *ssa.BasicBlock) bool {
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	isNil := func(x ssa.Value) bool { c, ok := x.(*ssa.Const); return ok && c.Value == nil }
	if !(bo.X == v && isNil(bo.Y) || bo.Y == v && isNil(bo.X)) {
		return false
	}
	switch bo.Op.String() {
	case "!=":
		return from.Succs[0] == to
	case "==":
		return from.Succs[1] == to
	}
	return false
}

var _ = constant.MakeBool
