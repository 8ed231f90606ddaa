package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// status bits of a scan destination
const (
	stUntouched = 1 << iota
	stNil
	stZero
	stOther
)

// scanState computes the set of possible destination states at each feasible
// return of fn, given the SCCP result, starting from state in.
func scanState(s *sccp, isDest func(addr ssa.Value) (direct, ok bool), in int, depth int) map[*ssa.Return]int {
	states := map[*ssa.BasicBlock]int{s.fn.Blocks[0]: in}
	out := map[*ssa.Return]int{}
	work := []*ssa.BasicBlock{s.fn.Blocks[0]}
	for n := 0; len(work) > 0 && n < 5000; n++ {
		b := work[0]
		work = work[1:]
		st := states[b]
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Store:
				if direct, ok := isDest(i.Addr); ok {
					a := s.get(i.Val)
					switch {
					case direct && a.k == aNil:
						st = stNil
					case isZeroAbs(a, i.Val):
						st = stZero
					default:
						st = stOther
					}
				}
			case *ssa.Call:
				st = callDestState(s, i, isDest, st, depth)
			case *ssa.Return:
				out[i] = st
			}
		}
		for _, o := range b.Succs {
			if !s.edges[[2]*ssa.BasicBlock{b, o}] {
				continue
			}
			if old, seen := states[o]; !seen || old|st != old {
				states[o] = old | st
				work = append(work, o)
			}
		}
	}
	return out
}

func isZeroAbs(a absVal, v ssa.Value) bool {
	if a.k == aNil {
		return true
	}
	if a.k == aConst {
		switch a.c.Kind() {
		case constant.String:
			return constant.StringVal(a.c) == ""
		case constant.Bool:
			return !constant.BoolVal(a.c)
		case constant.Int, constant.Float:
			return constant.Sign(a.c) == 0
		}
	}
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return true
	}
	// load of a local that is never written: zero value of a struct or array
	if u, ok := v.(*ssa.UnOp); ok {
		if al, ok := u.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if r != u {
					if _, dbg := r.(*ssa.DebugRef); !dbg {
						return false
					}
				}
			}
			return true
		}
	}
	return false
}

func callDestState(s *sccp, c *ssa.Call, isDest func(ssa.Value) (bool, bool), st, depth int) int {
	callee := c.Call.StaticCallee()
	idx := -1
	for k, a := range c.Call.Args {
		v := a
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		if d, ok := isDest(v); ok && d {
			idx = k
		}
	}
	if idx < 0 {
		return st
	}
	if callee == nil || callee.Blocks == nil || depth <= 0 || !strings.HasPrefix(callee.String(), modPath) && !strings.Contains(callee.String(), modPath) {
		return stOther // escapes to unknown code
	}
	var args []absVal
	for _, a := range c.Call.Args {
		args = append(args, s.get(a))
	}
	sub := runSCCP(callee, args, nil, s.depth-1)
	param := callee.Params[idx]
	subDest := func(addr ssa.Value) (bool, bool) {
		direct := true
		for {
			if addr == param {
				return direct, true
			}
			switch a := addr.(type) {
			case *ssa.IndexAddr:
				addr, direct = a.X, false
			case *ssa.FieldAddr:
				addr, direct = a.X, false
			default:
				return false, false
			}
		}
	}
	res := 0
	for _, x := range scanState(sub, subDest, st, depth-1) {
		res |= x
	}
	if res == 0 {
		return st
	}
	return res
}

func init() {
	register("C02", "other",
		"Sparse conditional constant propagation over every Scan method of package pgsql specialised to a NULL source, and over every Value method specialised to a nil and to an empty source; a forward dataflow over the feasible blocks tracks what is stored through the destination pointer. Decides NULL handling for every converter and every path; says nothing about the conversion of non-NULL values.",
		func(p *Prog, r *Report) {
			cs := converters(p)
			r.Rule("scan-null", "a Scan called with a NULL source returns a nil error on every feasible path, stores nil when the destination can hold nil, and never stores anything but the zero value")
			for _, c := range cs {
				if c.scan == nil {
					continue
				}
				s := runSCCP(c.scan, []absVal{{k: aTop}, {k: aNil}}, func(fa *ssa.FieldAddr) (absVal, bool) {
					if _, ok := recvField(fa); ok {
						return absVal{k: aTop}, true
					}
					return absVal{}, false
				}, 4)
				name := p.fname(c.scan)
				// destination field
				st, _ := c.named.Underlying().(*types.Struct)
				var elem types.Type
				if st != nil {
					for i := 0; i < st.NumFields(); i++ {
						if pt, ok := st.Field(i).Type().Underlying().(*types.Pointer); ok {
							elem = pt.Elem()
						}
					}
				}
				nilable := elem != nil && isNilable(elem)
				if elem != nil {
					if i, ok := elem.Underlying().(*types.Interface); ok && i.Empty() {
						nilable = true
					}
				}
				good := true
				res := scanState(s, destRoot, stUntouched, 3)
				for _, ret := range s.returns() {
					if a := s.get(ret.Results[0]); a.k != aNil {
						r.Bad(name+"|error", "%s: scanning NULL can return a non-nil error (return at %s)", name, p.pos(ret.Pos()))
						good = false
					}
					state := res[ret]
					switch {
					case state&stOther != 0:
						r.Bad(name+"|stores", "%s: scanning NULL stores a value other than nil/zero in the destination (return at %s)", name, p.pos(ret.Pos()))
						good = false
					case nilable && state != stNil && state != stZero:
						r.Bad(name+"|stale", "%s: the destination %s can hold nil, but scanning NULL returns (at %s) without storing nil: a reused destination keeps the value of the previous row", name, types.TypeString(elem, types.RelativeTo(c.named.Obj().Pkg())), p.pos(ret.Pos()))
						good = false
					}
				}
				if len(s.returns()) == 0 {
					r.Bad(name+"|noreturn", "%s: no feasible return for a NULL source", name)
					good = false
				}
				if good {
					r.Ok(name)
				}
			}
			r.Min(150)

			r.Rule("value-nil", "a Value called on a converter wrapping a nil slice, map or interface yields SQL NULL: (nil, nil)")
			for _, c := range cs {
				if c.value == nil {
					continue
				}
				st, _ := c.named.Underlying().(*types.Struct)
				if st == nil || st.NumFields() == 0 || !isNilable(st.Field(0).Type()) {
					continue
				}
				if _, isPtr := st.Field(0).Type().Underlying().(*types.Pointer); isPtr {
					continue
				}
				name := p.fname(c.value)
				s := runSCCP(c.value, []absVal{{k: aTop}}, fieldIs(aNil), 4)
				ret := s.ret()
				if ret.k == aTuple && len(ret.tup) == 2 && ret.tup[0].k == aNil && ret.tup[1].k == aNil {
					r.Ok(name)
				} else {
					r.Bad(name+"|nil", "%s: the value of a nil %s is not SQL NULL on every path", name, st.Field(0).Type())
				}
			}
			r.Min(85)

			r.Rule("value-empty", "a Value called on a converter wrapping an empty but non-nil slice or map yields a non-NULL value and no error")
			for _, c := range cs {
				if c.value == nil {
					continue
				}
				st, _ := c.named.Underlying().(*types.Struct)
				if st == nil || st.NumFields() == 0 {
					continue
				}
				switch st.Field(0).Type().Underlying().(type) {
				case *types.Slice, *types.Map:
				default:
					continue
				}
				name := p.fname(c.value)
				s := runSCCP(c.value, []absVal{{k: aTop}}, fieldIs(aEmpty), 4)
				ret := s.ret()
				if ret.k == aTuple && len(ret.tup) == 2 && ret.tup[0].k == aNonNil && ret.tup[1].k == aNil {
					r.Ok(name)
				} else if why := noEmpty[c.name]; why != "" {
					r.Note("%s: exempt from value-empty: %s", name, why)
				} else {
					r.Bad(name+"|empty", "%s: the value of an empty %s can be NULL or an error", name, st.Field(0).Type())
				}
			}
			r.Min(80)
			ruleNetNil(p, r)
		})
}

// noEmpty lists the converters whose PostgreSQL type has no empty value.
var noEmpty = map[string]string{
	"pathFromFloat64Array2Slice":    "a PostgreSQL path has at least one point; there is no literal for an empty one",
	"polygonFromFloat64Array2Slice": "a PostgreSQL polygon has at least one point; there is no literal for an empty one",
}

func fieldIs(k absKind) func(fa *ssa.FieldAddr) (absVal, bool) {
	return func(fa *ssa.FieldAddr) (absVal, bool) {
		if _, ok := recvField(fa); ok {
			return absVal{k: k}, true
		}
		return absVal{}, false
	}
}
