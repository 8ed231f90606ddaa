package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sparse conditional constant propagation over one function, with calls to
// functions of the repository evaluated through the same analysis (bounded
// depth). It decides which branches are feasible for a class of inputs (for
// example "the driver delivered NULL") without executing anything: values are
// elements of a small lattice.

type absKind int

const (
	aBot   absKind = iota
	aConst         // a basic constant
	aNil           // nil of any nilable type
	aEmpty         // non-nil, length zero slice/map
	aNonNil
	aTuple
	aTop
)

type absVal struct {
	k   absKind
	c   constant.Value
	tup []absVal
	tag interface{} // identity mark carried through copies
	dyn types.Type  // known dynamic type of an interface value
}

func (a absVal) eq(b absVal) bool {
	if a.k != b.k || a.tag != b.tag || a.dyn != b.dyn {
		return false
	}
	switch a.k {
	case aConst:
		return constant.Compare(a.c, token.EQL, b.c)
	case aNonNil:
		if (a.c == nil) != (b.c == nil) {
			return false
		}
		return a.c == nil || a.c.Kind() == b.c.Kind() && constant.Compare(a.c, token.EQL, b.c)
	case aTuple:
		if len(a.tup) != len(b.tup) {
			return false
		}
		for i := range a.tup {
			if !a.tup[i].eq(b.tup[i]) {
				return false
			}
		}
	}
	return true
}

func joinAbs(a, b absVal) absVal {
	if a.k == aBot {
		return b
	}
	if b.k == aBot {
		return a
	}
	if a.eq(b) {
		return a
	}
	if a.k == aTuple && b.k == aTuple && len(a.tup) == len(b.tup) {
		out := absVal{k: aTuple}
		for i := range a.tup {
			out.tup = append(out.tup, joinAbs(a.tup[i], b.tup[i]))
		}
		return out
	}
	nn := func(x absVal) bool { return x.k == aNonNil || x.k == aEmpty }
	if nn(a) && nn(b) {
		return absVal{k: aNonNil}
	}
	return absVal{k: aTop}
}

type sccp struct {
	fn    *ssa.Function
	args  []absVal
	field func(fa *ssa.FieldAddr) (absVal, bool) // abstract content of a field address
	load  func(addr ssa.Value) (absVal, bool)    // abstract content of another address
	force func(v ssa.Value) (absVal, bool)       // assumed values, also inside callees
	depth int
	val   map[ssa.Value]absVal
	exec  map[*ssa.BasicBlock]bool
	edges map[[2]*ssa.BasicBlock]bool
}

func constAbs(c *ssa.Const) absVal {
	if c.Value == nil {
		// nil, or zero value of an aggregate
		switch c.Type().Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan, *types.Signature:
			return absVal{k: aNil}
		}
		return absVal{k: aTop}
	}
	return absVal{k: aConst, c: c.Value}
}

func (s *sccp) get(v ssa.Value) absVal {
	switch v := v.(type) {
	case *ssa.Const:
		return constAbs(v)
	case *ssa.Function, *ssa.MakeClosure, *ssa.Alloc, *ssa.Global:
		return absVal{k: aNonNil}
	case *ssa.Parameter:
		for i, p := range s.fn.Params {
			if p == v && i < len(s.args) {
				return s.args[i]
			}
		}
		return absVal{k: aTop}
	case *ssa.FreeVar:
		return absVal{k: aTop}
	}
	return s.val[v]
}

func runSCCP(fn *ssa.Function, args []absVal, field func(*ssa.FieldAddr) (absVal, bool), depth int) *sccp {
	return runSCCPForced(fn, args, field, nil, depth)
}

func runSCCPForced(fn *ssa.Function, args []absVal, field func(*ssa.FieldAddr) (absVal, bool), force func(ssa.Value) (absVal, bool), depth int) *sccp {
	s := &sccp{fn: fn, args: args, field: field, force: force, depth: depth, val: map[ssa.Value]absVal{}, exec: map[*ssa.BasicBlock]bool{}, edges: map[[2]*ssa.BasicBlock]bool{}}
	if len(fn.Blocks) == 0 {
		return s
	}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	s.exec[fn.Blocks[0]] = true
	for n := 0; len(work) > 0 && n < 20000; n++ {
		b := work[0]
		work = work[1:]
		changed := false
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				nv := s.eval(v)
				nv = joinAbs(s.val[v], nv)
				if !nv.eq(s.val[v]) {
					s.val[v] = nv
					changed = true
				}
			}
		}
		var outs []*ssa.BasicBlock
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.If:
			c := s.get(t.Cond)
			if c.k == aConst && c.c.Kind() == constant.Bool {
				if constant.BoolVal(c.c) {
					outs = b.Succs[:1]
				} else {
					outs = b.Succs[1:]
				}
			} else if c.k != aBot {
				outs = b.Succs
			}
		default:
			outs = b.Succs
		}
		for _, o := range outs {
			e := [2]*ssa.BasicBlock{b, o}
			if !s.edges[e] {
				s.edges[e] = true
				s.exec[o] = true
				work = append(work, o)
			}
		}
		if changed {
			// re-evaluate every executable block (functions are small)
			for blk := range s.exec {
				if blk != b {
					work = append(work, blk)
				}
			}
			work = append(work, b)
		}
	}
	return s
}

func boolAbs(b bool) absVal { return absVal{k: aConst, c: constant.MakeBool(b)} }

func (s *sccp) eval(v ssa.Value) absVal {
	top := absVal{k: aTop}
	if s.force != nil {
		if a, ok := s.force(v); ok {
			return a
		}
	}
	switch v := v.(type) {
	case *ssa.Phi:
		out := absVal{}
		for i, e := range v.Edges {
			if s.edges[[2]*ssa.BasicBlock{v.Block().Preds[i], v.Block()}] {
				out = joinAbs(out, s.get(e))
			}
		}
		return out
	case *ssa.BinOp:
		x, y := s.get(v.X), s.get(v.Y)
		if x.k == aBot || y.k == aBot {
			return absVal{}
		}
		if x.k == aConst && y.k == aConst {
			switch v.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				if x.c.Kind() == y.c.Kind() {
					return boolAbs(constant.Compare(x.c, v.Op, y.c))
				}
			case token.ADD, token.SUB, token.MUL:
				if x.c.Kind() == constant.Int && y.c.Kind() == constant.Int {
					return absVal{k: aConst, c: constant.BinaryOp(x.c, v.Op, y.c)}
				}
				if v.Op == token.ADD && x.c.Kind() == constant.String && y.c.Kind() == constant.String {
					return absVal{k: aConst, c: constant.BinaryOp(x.c, v.Op, y.c)}
				}
			}
			return top
		}
		isnil := func(a absVal) bool { return a.k == aNil }
		isnn := func(a absVal) bool { return a.k == aEmpty || a.k == aNonNil }
		if v.Op == token.EQL || v.Op == token.NEQ {
			eq := v.Op == token.EQL
			if isnil(x) && isnil(y) {
				return boolAbs(eq)
			}
			if isnil(x) && isnn(y) || isnn(x) && isnil(y) {
				return boolAbs(!eq)
			}
			if x.dyn != nil && y.dyn != nil { // interface values
				if !types.Identical(x.dyn, y.dyn) {
					return boolAbs(!eq)
				}
				if x.c != nil && y.c != nil {
					return boolAbs(constant.Compare(x.c, token.EQL, y.c) == eq)
				}
			}
		}
		return top
	case *ssa.UnOp:
		x := s.get(v.X)
		switch v.Op {
		case token.NOT:
			if x.k == aConst && x.c.Kind() == constant.Bool {
				return boolAbs(!constant.BoolVal(x.c))
			}
			if x.k == aBot {
				return x
			}
		case token.MUL:
			if fa, ok := v.X.(*ssa.FieldAddr); ok && s.field != nil {
				if a, ok := s.field(fa); ok {
					return a
				}
			}
			if s.load != nil {
				if a, ok := s.load(v.X); ok {
					return a
				}
			}
		}
		return top
	case *ssa.ChangeType:
		return s.get(v.X)
	case *ssa.ChangeInterface:
		return s.get(v.X)
	case *ssa.MakeInterface:
		x := s.get(v.X)
		if x.k == aBot {
			return x
		}
		return absVal{k: aNonNil, dyn: v.X.Type(), c: x.c, tag: x.tag}
	case *ssa.Convert:
		x := s.get(v.X)
		if _, ok := v.Type().Underlying().(*types.Slice); ok && x.k != aBot {
			return absVal{k: aNonNil} // a string converted to a slice is not nil
		}
		if x.k == aConst {
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && x.c.Kind() == constant.Int {
				return x
			}
		}
		if x.k == aBot {
			return x
		}
		return top
	case *ssa.TypeAssert:
		x := s.get(v.X)
		if x.k == aBot {
			return x
		}
		if v.CommaOk {
			if x.k == aNil {
				z := absVal{k: aTop}
				if isNilable(v.AssertedType) {
					z.k = aNil
				}
				return absVal{k: aTuple, tup: []absVal{z, boolAbs(false)}}
			}
			if x.dyn != nil {
				ok := types.Identical(x.dyn, v.AssertedType)
				if i, isI := v.AssertedType.Underlying().(*types.Interface); isI {
					ok = types.Implements(x.dyn, i)
				}
				z := absVal{k: aTop}
				if ok {
					z.k = aNonNil
					if i, isI := v.AssertedType.Underlying().(*types.Interface); isI && i != nil {
						z.dyn = x.dyn
					}
					if b, isB := v.AssertedType.Underlying().(*types.Basic); isB && b != nil {
						z.k = aTop
					}
				} else if isNilable(v.AssertedType) {
					z.k = aNil
				}
				return absVal{k: aTuple, tup: []absVal{z, boolAbs(ok)}}
			}
			return absVal{k: aTuple, tup: []absVal{{k: aTop}, {k: aTop}}}
		}
		return top
	case *ssa.Extract:
		t := s.get(v.Tuple)
		if t.k == aTuple && v.Index < len(t.tup) {
			return t.tup[v.Index]
		}
		if t.k == aBot {
			return t
		}
		return top
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Slice:
		if sl, ok := v.(*ssa.Slice); ok {
			x := s.get(sl.X)
			if x.k == aNil {
				return absVal{k: aNil}
			}
			if _, isArr := sl.X.(*ssa.Alloc); isArr {
				return absVal{k: aNonNil}
			}
			return top
		}
		if ms, ok := v.(*ssa.MakeSlice); ok {
			l := s.get(ms.Len)
			if l.k == aConst && constant.Sign(l.c) == 0 {
				return absVal{k: aEmpty}
			}
		}
		return absVal{k: aNonNil}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len":
				x := s.get(v.Call.Args[0])
				switch x.k {
				case aNil, aEmpty:
					return absVal{k: aConst, c: constant.MakeInt64(0)}
				case aBot:
					return x
				case aConst:
					if x.c.Kind() == constant.String {
						return absVal{k: aConst, c: constant.MakeInt64(int64(len(constant.StringVal(x.c))))}
					}
				}
			case "append":
				x := s.get(v.Call.Args[0])
				if x.k == aNonNil || x.k == aEmpty {
					return absVal{k: aNonNil}
				}
			}
			return top
		}
		callee := v.Call.StaticCallee()
		if callee != nil && len(v.Call.Args) == 1 {
			if x := s.get(v.Call.Args[0]); x.k == aConst && x.c.Kind() == constant.String {
				str := constant.StringVal(x.c)
				switch callee.String() {
				case "strings.ToUpper":
					return absVal{k: aConst, c: constant.MakeString(strings.ToUpper(str))}
				case "strings.ToLower":
					return absVal{k: aConst, c: constant.MakeString(strings.ToLower(str))}
				case "strings.TrimSpace":
					return absVal{k: aConst, c: constant.MakeString(strings.TrimSpace(str))}
				}
			}
		}
		if callee == nil || callee.Blocks == nil || s.depth <= 0 || callee == s.fn {
			return s.resultTop(v)
		}
		var args []absVal
		for _, a := range v.Call.Args {
			x := s.get(a)
			if x.k == aBot {
				return x
			}
			args = append(args, x)
		}
		sub := runSCCPForced(callee, args, nil, s.force, s.depth-1)
		return sub.ret()
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.MakeClosure:
		return absVal{k: aNonNil}
	}
	return top
}

func (s *sccp) resultTop(v *ssa.Call) absVal {
	if t, ok := v.Type().(*types.Tuple); ok {
		out := absVal{k: aTuple}
		for i := 0; i < t.Len(); i++ {
			out.tup = append(out.tup, absVal{k: aTop})
		}
		return out
	}
	if c := v.Call.StaticCallee(); c != nil && (c.String() == "errors.New" || c.String() == "fmt.Errorf") {
		return absVal{k: aNonNil}
	}
	return absVal{k: aTop}
}

// ret joins the values of every feasible return.
func (s *sccp) ret() absVal {
	out := absVal{}
	for b := range s.exec {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			var a absVal
			if len(r.Results) == 1 {
				a = s.get(r.Results[0])
			} else {
				a = absVal{k: aTuple}
				for _, x := range r.Results {
					a.tup = append(a.tup, s.get(x))
				}
			}
			out = joinAbs(out, a)
		}
	}
	return out
}

// returns lists the feasible return instructions.
func (s *sccp) returns() []*ssa.Return {
	var out []*ssa.Return
	for _, b := range s.fn.Blocks {
		if s.exec[b] {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				out = append(out, r)
			}
		}
	}
	return out
}
