package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// A conv is one converter of package pgsql: a type with a Scan or Value method.
type conv struct {
	name  string
	named *types.Named
	scan  *ssa.Function
	value *ssa.Function
	ctor  []*ssa.Function // exported constructors that hand it out
}

func isScanSig(sig *types.Signature) bool {
	if sig.Params().Len() != 1 || sig.Results().Len() != 1 {
		return false
	}
	i, ok := sig.Params().At(0).Type().Underlying().(*types.Interface)
	return ok && i.Empty() && isErrorType(sig.Results().At(0).Type())
}

func isValueSig(sig *types.Signature) bool {
	return sig.Params().Len() == 0 && sig.Results().Len() == 2 && isErrorType(sig.Results().At(1).Type()) &&
		types.TypeString(sig.Results().At(0).Type(), nil) == "database/sql/driver.Value"
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func converters(p *Prog) []*conv {
	pk := p.pkg("pgsql")
	m := map[*types.Named]*conv{}
	var out []*conv
	for _, name := range pk.Types.Scope().Names() {
		tn, ok := pk.Types.Scope().Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		c := &conv{name: name, named: nt}
		for i := 0; i < nt.NumMethods(); i++ {
			f := nt.Method(i)
			sig := f.Type().(*types.Signature)
			if f.Name() == "Scan" && isScanSig(sig) {
				c.scan = p.SSA.FuncValue(f)
			}
			if f.Name() == "Value" && isValueSig(sig) {
				c.value = p.SSA.FuncValue(f)
			}
		}
		if c.scan != nil || c.value != nil {
			m[nt] = c
			out = append(out, c)
		}
	}
	for _, f := range p.funcsIn("pgsql") {
		if f.Parent() != nil || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		for _, nt := range concreteResults(f) {
			if c := m[nt]; c != nil {
				c.ctor = append(c.ctor, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// concreteResults lists the concrete named types that f converts to an
// interface and returns.
func concreteResults(f *ssa.Function) []*types.Named {
	var out []*types.Named
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mi, ok := in.(*ssa.MakeInterface); ok {
				t := mi.X.Type()
				if pt, ok := t.(*types.Pointer); ok {
					t = pt.Elem()
				}
				if nt, ok := t.(*types.Named); ok {
					out = append(out, nt)
				}
			}
		}
	}
	return out
}

// recvField reports whether fa addresses a field of the receiver of its
// function and returns the field index.
func recvField(fa *ssa.FieldAddr) (int, bool) {
	fn := fa.Parent()
	if fn.Signature.Recv() == nil || len(fn.Params) == 0 {
		return 0, false
	}
	recv := fn.Params[0]
	if fa.X == recv {
		return fa.Field, true
	}
	al, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return 0, false
	}
	for _, ref := range *al.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == al && st.Val == recv {
			return fa.Field, true
		}
	}
	return 0, false
}

// recvFieldLoad reports whether v is the value of a receiver field.
func recvFieldLoad(v ssa.Value) (int, bool) {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				return recvField(fa)
			}
		}
	case *ssa.Field:
		if len(v.Parent().Params) > 0 && v.X == v.Parent().Params[0] {
			return v.Field, true
		}
	}
	return 0, false
}

// destRoot follows an address back to the destination pointer the scanner was
// constructed with (a receiver field of pointer type).
func destRoot(addr ssa.Value) (direct bool, ok bool) {
	direct = true
	for {
		if _, isF := recvFieldLoad(addr); isF {
			_, isPtr := addr.Type().Underlying().(*types.Pointer)
			return direct, isPtr
		}
		switch a := addr.(type) {
		case *ssa.IndexAddr:
			addr, direct = a.X, false
		case *ssa.FieldAddr:
			if _, isR := recvField(a); isR {
				return false, false
			}
			addr, direct = a.X, false
		default:
			return false, false
		}
	}
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Interface, *types.Pointer:
		return true
	}
	return false
}
