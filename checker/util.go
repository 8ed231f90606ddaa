package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// structFields resolves a struct-typed value that was built by a composite
// literal to its field values (absent fields are zero). ok=false if the value
// is not such a literal.
func structFields(v ssa.Value) (map[string]ssa.Value, bool) {
	out := map[string]ssa.Value{}
	st, _ := v.Type().Underlying().(*types.Struct)
	if st == nil {
		return nil, false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return out, true
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return nil, false
		}
		al, ok := v.X.(*ssa.Alloc)
		if !ok {
			return nil, false
		}
		for _, ref := range *al.Referrers() {
			switch ref := ref.(type) {
			case *ssa.FieldAddr:
				for _, r2 := range *ref.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && s.Addr == ref {
						name := st.Field(ref.Field).Name()
						if _, dup := out[name]; dup {
							return nil, false
						}
						out[name] = s.Val
					}
				}
			case *ssa.Store:
				if ref.Addr == al {
					if c, ok := ref.Val.(*ssa.Const); ok && c.Value == nil {
						continue
					}
					if ref.Val == v {
						continue
					}
					return structFields(ref.Val)
				}
			}
		}
		return out, true
	}
	return nil, false
}

func constString(v ssa.Value) (string, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value), true
	}
	return "", false
}

func constInt(v ssa.Value) (int64, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		return c.Int64(), true
	}
	return 0, false
}

// staticCallees resolves the possible callees of a call: a static callee, a
// closure bound to a local, or nil if unknown.
func calleeOf(c *ssa.CallCommon) *ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return f
	}
	switch v := c.Value.(type) {
	case *ssa.MakeClosure:
		f, _ := v.Fn.(*ssa.Function)
		return f
	case *ssa.UnOp:
		// a local variable holding exactly one closure
		if al, ok := v.X.(*ssa.Alloc); ok {
			var only *ssa.Function
			n := 0
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					n++
					switch f := s.Val.(type) {
					case *ssa.MakeClosure:
						only, _ = f.Fn.(*ssa.Function)
					case *ssa.Function:
						only = f
					}
				}
			}
			if n == 1 {
				return only
			}
		}
	}
	return nil
}

// makeMaps resolves a map-typed value to the MakeMap instructions it can be.
func makeMaps(v ssa.Value, seen map[ssa.Value]bool) []*ssa.MakeMap {
	if seen == nil {
		seen = map[ssa.Value]bool{}
	}
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.MakeMap:
		return []*ssa.MakeMap{v}
	case *ssa.Phi:
		var out []*ssa.MakeMap
		for _, e := range v.Edges {
			out = append(out, makeMaps(e, seen)...)
		}
		return out
	case *ssa.ChangeType:
		return makeMaps(v.X, seen)
	case *ssa.Call:
		f := calleeOf(&v.Call)
		if f == nil {
			return nil
		}
		var out []*ssa.MakeMap
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				out = append(out, makeMaps(r.Results[0], seen)...)
			}
		}
		return out
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok {
			var out []*ssa.MakeMap
			if init := g.Pkg.Func("init"); init != nil {
				for _, b := range init.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok && s.Addr == g {
							out = append(out, makeMaps(s.Val, seen)...)
						}
					}
				}
			}
			return out
		}
	}
	return nil
}

// instrs iterates over all instructions of f.
func instrs(f *ssa.Function, fn func(ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			fn(in)
		}
	}
}

// globalMap returns the key/value pairs a package-level map variable is
// initialised with.
func globalMap(p *Prog, rel, name string) []*ssa.MapUpdate {
	pk := p.SSA.Package(p.pkg(rel).Types)
	g, ok := pk.Members[name].(*ssa.Global)
	if !ok {
		fail("anchor variable %s.%s not found", rel, name)
	}
	var out []*ssa.MapUpdate
	for _, f := range p.funcsIn(rel) {
		instrs(f, func(in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				for _, mm := range makeMaps(s.Val, nil) {
					for _, r := range *mm.Referrers() {
						if mu, ok := r.(*ssa.MapUpdate); ok && mu.Map == mm {
							out = append(out, mu)
						}
					}
				}
			}
			if mu, ok := in.(*ssa.MapUpdate); ok {
				if u, ok := mu.Map.(*ssa.UnOp); ok && u.X == g {
					out = append(out, mu)
				}
			}
		})
	}
	return out
}

var callerIndex map[*ssa.Function][]ssa.CallInstruction

// callersOf lists the static call sites of f in the repository.
func callersOf(f *ssa.Function) []ssa.CallInstruction { return callerIndex[f] }

func buildCallerIndex(p *Prog) {
	callerIndex = map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := calleeOf(c.Common()); g != nil {
					callerIndex[g] = append(callerIndex[g], c)
				}
			}
		})
	}
}

// baseName is the declared name of a function, also for an instance of a
// generic function.
func baseName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.Name()
	}
	return f.Name()
}

// exprKey names a value by its structure (parameters by index).
func exprKey(v ssa.Value, d int) string {
	if d > 6 {
		return "..."
	}
	switch v := v.(type) {
	case *ssa.Const:
		return v.String()
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				return fmt.Sprintf("p%d", i)
			}
		}
	case *ssa.Global:
		return v.String()
	case *ssa.UnOp:
		return v.Op.String() + exprKey(v.X, d+1)
	case *ssa.FieldAddr:
		return exprKey(v.X, d+1) + "." + fieldKey(v.X.Type(), v.Field)
	case *ssa.Field:
		return exprKey(v.X, d+1) + "." + fieldKey(v.X.Type(), v.Field)
	case *ssa.Alloc:
		return "alloc:" + types.TypeString(v.Type(), nil)
	}
	return fmt.Sprintf("%T", v)
}
