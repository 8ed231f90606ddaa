package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// aliasing of the driver's buffer --------------------------------------------

// carriesBytes: a value of type t can reference a byte buffer.
func carriesBytes(t types.Type, depth int) bool {
	if depth > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok {
			return b.Kind() == types.Byte || b.Kind() == types.Uint8
		}
		return carriesBytes(u.Elem(), depth+1)
	case *types.Array:
		return carriesBytes(u.Elem(), depth+1)
	case *types.Pointer:
		return carriesBytes(u.Elem(), depth+1)
	case *types.Map:
		return carriesBytes(u.Key(), depth+1) || carriesBytes(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if carriesBytes(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if carriesBytes(u.At(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Interface:
		return true
	}
	return false
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Byte || b.Kind() == types.Uint8)
}

type aliasAn struct {
	p       *Prog
	summary map[aliasKey]bool // function, tainted parameter -> some result aliases it
	active  map[aliasKey]bool
	byDest  bool
}

type aliasKey struct {
	f *ssa.Function
	i int
}

// run computes the values of f that may alias the buffer reachable from
// parameter idx, and returns the stores into the scan destination that retain it.
func (a *aliasAn) run(f *ssa.Function, idx int, dest func(addr ssa.Value) bool) (retained []ssa.Instruction, result bool) {
	t := map[ssa.Value]bool{f.Params[idx]: true}
	hit := map[ssa.Instruction]bool{}
	root := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.Slice:
				v = x.X
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if _, ok := x.X.(*ssa.Alloc); ok {
						return x.X
					}
				}
				return v
			default:
				return v
			}
		}
	}
	for changed := true; changed; {
		changed = false
		mark := func(v ssa.Value) {
			if v != nil && !t[v] && carriesBytes(v.Type(), 0) {
				t[v] = true
				changed = true
			}
		}
		instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Phi:
				for i, e := range x.Edges {
					if t[e] && !notBytesEdge(e, x.Block().Preds[i], x.Block()) {
						mark(x)
					}
				}
			case *ssa.Slice:
				if t[x.X] {
					mark(x)
				}
			case *ssa.ChangeType:
				if t[x.X] {
					mark(x)
				}
			case *ssa.Convert:
				if t[x.X] && isByteSlice(x.X.Type()) && isByteSlice(x.Type()) {
					mark(x)
				}
			case *ssa.MakeInterface:
				if t[x.X] {
					mark(x)
				}
			case *ssa.ChangeInterface:
				if t[x.X] {
					mark(x)
				}
			case *ssa.TypeAssert:
				if t[x.X] {
					mark(x)
				}
			case *ssa.Extract:
				if t[x.Tuple] {
					mark(x)
				}
			case *ssa.Field:
				if t[x.X] {
					mark(x)
				}
			case *ssa.Index:
				if t[x.X] {
					mark(x)
				}
			case *ssa.Lookup:
				if t[x.X] {
					mark(x)
				}
			case *ssa.IndexAddr:
				if t[x.X] {
					mark(x)
				}
			case *ssa.FieldAddr:
				if t[x.X] {
					mark(x)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && (t[x.X] || t[root(x.X)]) {
					mark(x)
				}
			case *ssa.Range:
				if t[x.X] {
					mark(x)
				}
			case *ssa.Next:
				if t[x.Iter] {
					mark(x)
				}
			case *ssa.MakeClosure:
				// closures that capture the buffer: treated as aliasing
				for _, b := range x.Bindings {
					if t[b] {
						mark(x)
					}
				}
			case *ssa.MapUpdate:
				if t[x.Value] || t[x.Key] {
					mark(x.Map)
				}
			case *ssa.Store:
				if !t[x.Val] || notBytesAt(x.Val, x.Block()) {
					return
				}
				if dest != nil && dest(x.Addr) {
					if !hit[x] {
						hit[x] = true
						changed = true
					}
					return
				}
				mark(root(x.Addr))
				mark(x.Addr)
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "append" {
						if t[x.Call.Args[0]] {
							mark(x)
						}
						if len(x.Call.Args) > 1 && t[x.Call.Args[1]] && !isByteSlice(x.Type()) {
							mark(x)
						}
					}
					return
				}
				callee := calleeOf(&x.Call)
				for i, arg := range x.Call.Args {
					if !t[arg] {
						continue
					}
					if callee == nil {
						continue
					}
					pp := fnPkg(callee)
					if pp == nil {
						continue
					}
					if a.p.inRepo(pp) && callee.Blocks != nil {
						if a.results(callee, i) {
							mark(x)
						}
						// the callee may receive the destination too
						if dest != nil {
							for j, darg := range x.Call.Args {
								if j != i && dest(darg) {
									k := j
									sub, _ := a.run(callee, i, func(addr ssa.Value) bool { return addrRootIs(addr, callee.Params[k]) })
									if len(sub) > 0 && !hit[x] {
										hit[x] = true
										changed = true
									}
								}
							}
						}
					} else if pp.Path() == "bytes" {
						mark(x)
					}
				}
			}
		})
	}
	for in := range hit {
		retained = append(retained, in)
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range r.Results {
				if t[v] {
					result = true
				}
			}
		}
	}
	return retained, result
}

// notBytesAt: v is an interface value that a failed assertion to []byte has
// shown, on every path to b, not to hold a byte slice.
func notBytesAt(v ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) == 1 && failedAssert(v, d.Preds[0], d) {
			return true
		}
	}
	return false
}

func notBytesEdge(v ssa.Value, from, to *ssa.BasicBlock) bool {
	return failedAssert(v, from, to) || notBytesAt(v, from)
}

func failedAssert(v ssa.Value, from, to *ssa.BasicBlock) bool {
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] || from.Succs[1] != to {
		return false
	}
	ex, ok := iff.Cond.(*ssa.Extract)
	if !ok || ex.Index != 1 {
		return false
	}
	ta, ok := ex.Tuple.(*ssa.TypeAssert)
	return ok && ta.X == v && isByteSlice(ta.AssertedType)
}

func (a *aliasAn) results(f *ssa.Function, i int) bool {
	k := aliasKey{f, i}
	if v, ok := a.summary[k]; ok {
		return v
	}
	if a.active[k] {
		return false
	}
	a.active[k] = true
	_, res := a.run(f, i, nil)
	delete(a.active, k)
	a.summary[k] = res
	return res
}

func addrRootIs(addr, want ssa.Value) bool {
	for {
		if addr == want {
			return true
		}
		switch x := addr.(type) {
		case *ssa.IndexAddr:
			addr = x.X
		case *ssa.FieldAddr:
			addr = x.X
		default:
			return false
		}
	}
}

func (p *Prog) inRepo(t *types.Package) bool {
	for _, pk := range p.Repo {
		if pk.Types == t {
			return true
		}
	}
	return false
}

func init() {
	register("C05", "other",
		"May-alias dataflow from the source argument of every Scan method through type assertions, slicing, the literal parsers (with per-parameter summaries), containers and appends, to the stores through the destination pointer. Every path, every converter; aliasing introduced inside the standard library is modelled only for package bytes.",
		func(p *Prog, r *Report) {
			a := &aliasAn{p: p, summary: map[aliasKey]bool{}, active: map[aliasKey]bool{}}
			r.Rule("no-retention", "no Scan stores a reference to the driver's []byte buffer in its destination; the bytes are copied first")
			for _, c := range converters(p) {
				if c.scan == nil {
					continue
				}
				name := p.fname(c.scan)
				ret, _ := a.run(c.scan, 1, func(addr ssa.Value) bool { _, ok := destRoot(addr); return ok })
				if len(ret) == 0 {
					r.Ok(name)
				}
				for _, in := range ret {
					r.Bad(name+"|retains", "%s: the value stored at %s still references the buffer the driver passed in, which it may overwrite on the next row", name, p.pos(in.Pos()))
				}
			}
			r.Min(150)
			r.Rule("positive-control", "the may-alias analysis sees the slicing parsers: their results are recognised as referencing their input")
			n := 0
			for _, f := range p.funcsIn("pgsql") {
				if f.Parent() == nil && f.Signature.Recv() == nil && len(f.Params) == 1 && isByteSlice(f.Params[0].Type()) && a.results(f, 0) {
					r.Ok(p.fname(f) + " returns references into its argument")
					n++
				}
			}
			r.Min(5)
		})
}
