package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Field-based, context-insensitive, interprocedural taint propagation. Data
// flow only: a value computed by comparing or looking up a tainted value is
// not tainted by it.
type taint struct {
	p       *Prog
	vals    map[ssa.Value]bool
	fields  map[string]bool // "pkg.Type.field"
	globals map[*ssa.Global]bool
	rets    map[*ssa.Function]map[int]bool
	why     map[interface{}]string
	clean   func(c *ssa.CallCommon) bool // calls whose result carries no taint
	block   func(field string) bool      // fields that never carry taint (checked separately)
	infn    func(f *ssa.Function) bool
	changed bool
}

func newTaint(p *Prog, infn func(*ssa.Function) bool) *taint {
	return &taint{p: p, vals: map[ssa.Value]bool{}, fields: map[string]bool{}, globals: map[*ssa.Global]bool{},
		rets: map[*ssa.Function]map[int]bool{}, why: map[interface{}]string{}, infn: infn}
}

// fieldKey names a struct field independent of the value holding it.
func fieldKey(t types.Type, i int) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return "?"
	}
	name := types.TypeString(t, nil)
	if n, ok := t.(*types.Named); ok {
		name = n.Obj().Name()
		if n.Obj().Pkg() != nil {
			name = n.Obj().Pkg().Path() + "." + name
		}
	}
	return name + "." + st.Field(i).Name()
}

func (t *taint) add(v ssa.Value, from string) {
	if v != nil && !t.vals[v] {
		t.vals[v] = true
		t.why[v] = from
		t.changed = true
	}
}

func (t *taint) addField(k, from string) {
	if t.block != nil && t.block(k) {
		return
	}
	if !t.fields[k] {
		t.fields[k] = true
		t.why[k] = from
		t.changed = true
	}
}

func (t *taint) has(v ssa.Value) bool {
	if t.vals[v] {
		return true
	}
	switch v := v.(type) {
	case *ssa.Global:
		return t.globals[v]
	case *ssa.FieldAddr:
		return t.fields[fieldKey(v.X.Type(), v.Field)]
	case *ssa.Field:
		return t.fields[fieldKey(v.X.Type(), v.Field)]
	}
	return false
}

// store taints the memory an address denotes.
func (t *taint) store(addr ssa.Value, from string) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		t.addField(fieldKey(a.X.Type(), a.Field), from)
	case *ssa.IndexAddr:
		t.add(a.X, from)
		t.back(a.X, from)
	case *ssa.Global:
		if !t.globals[a] {
			t.globals[a] = true
			t.changed = true
		}
	default:
		t.add(addr, from)
		if u, ok := addr.(*ssa.UnOp); ok {
			t.store(u.X, from)
		}
	}
}

// back propagates a write through a reference (slice, map, pointer) to where
// the reference was read from.
func (t *taint) back(v ssa.Value, from string) {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			t.store(v.X, from)
		}
	case *ssa.Slice:
		t.add(v.X, from)
		t.back(v.X, from)
	case *ssa.FieldAddr:
		t.addField(fieldKey(v.X.Type(), v.Field), from)
	}
}

func (t *taint) run(funcs []*ssa.Function) {
	for {
		t.changed = false
		for _, f := range funcs {
			if t.infn != nil && !t.infn(f) {
				continue
			}
			instrs(f, func(in ssa.Instruction) { t.step(f, in) })
		}
		if !t.changed {
			return
		}
	}
}

func (t *taint) where(in ssa.Instruction) string {
	return fmt.Sprintf("%s at %s", t.p.fname(in.Parent()), t.p.pos(in.Pos()))
}

func (t *taint) step(f *ssa.Function, in ssa.Instruction) {
	w := func() string { return t.where(in) }
	switch in := in.(type) {
	case *ssa.Phi:
		for _, e := range in.Edges {
			if t.has(e) {
				t.add(in, w())
			}
		}
	case *ssa.UnOp:
		if in.Op == token.NOT {
			return
		}
		if t.has(in.X) {
			t.add(in, w())
		}
	case *ssa.BinOp:
		if in.Op == token.ADD && (t.has(in.X) || t.has(in.Y)) {
			if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				t.add(in, w())
			}
		}
	case *ssa.Convert:
		if t.has(in.X) {
			t.add(in, w())
		}
	case *ssa.MultiConvert:
		if t.has(in.X) {
			t.add(in, w())
		}
	case *ssa.ChangeType:
		if t.has(in.X) {
			t.add(in, w())
		}
	case *ssa.ChangeInterface:
		if t.has(in.X) {
			t.add(in, w())
		}
	case *ssa.MakeInterface:
		if t.has(in.X) {
			t.add(in, w())
		}
	case *ssa.TypeAssert:
		if t.has(in.X) {
			t.add(in, w())
		}
	case *ssa.Extract:
		if c, ok := in.Tuple.(*ssa.Call); ok {
			if g := calleeOf(&c.Call); g != nil && g.Blocks != nil && t.infn(g) {
				if t.rets[g][in.Index] {
					t.add(in, w())
				}
				return
			}
		}
		if t.has(in.Tuple) {
			t.add(in, w())
		}
	case *ssa.Slice:
		if t.has(in.X) {
			t.add(in, w())
		}
	case *ssa.IndexAddr:
		if t.has(in.X) {
			t.add(in, w())
		}
	case *ssa.Index:
		if t.has(in.X) {
			t.add(in, w())
		}
	case *ssa.FieldAddr:
		if t.vals[in.X] {
			if _, isptr := in.X.Type().Underlying().(*types.Pointer); isptr && !(t.block != nil && t.block(fieldKey(in.X.Type(), in.Field))) {
				t.add(in, w())
			}
		}
	case *ssa.Field:
		if t.vals[in.X] && !(t.block != nil && t.block(fieldKey(in.X.Type(), in.Field))) {
			t.add(in, w())
		}
	case *ssa.Lookup:
		if t.has(in.X) {
			t.add(in, w())
		}
	case *ssa.Range:
		if t.has(in.X) {
			t.add(in, w())
		}
	case *ssa.Next:
		if t.has(in.Iter) {
			t.add(in, w())
		}
	case *ssa.Store:
		if t.has(in.Val) {
			t.store(in.Addr, w())
		}
	case *ssa.MapUpdate:
		if t.has(in.Value) || t.has(in.Key) {
			t.add(in.Map, w())
			t.back(in.Map, w())
		}
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		for i, b := range in.Bindings {
			if t.has(b) {
				t.add(fn.FreeVars[i], w())
			}
			if t.vals[fn.FreeVars[i]] {
				t.add(b, w())
			}
		}
	case *ssa.Return:
		for i, r := range in.Results {
			if t.has(r) {
				if t.rets[f] == nil {
					t.rets[f] = map[int]bool{}
				}
				if !t.rets[f][i] {
					t.rets[f][i] = true
					t.changed = true
				}
			}
		}
	case ssa.CallInstruction:
		t.call(in)
	}
}

func (t *taint) call(in ssa.CallInstruction) {
	c := in.Common()
	w := t.where(in)
	var res ssa.Value
	if v, ok := in.(*ssa.Call); ok {
		res = v
	}
	if t.clean != nil && t.clean(c) {
		return
	}
	var targets []*ssa.Function
	if g := calleeOf(c); g != nil && g.Blocks != nil && t.infn(g) {
		targets = []*ssa.Function{g}
	} else if c.IsInvoke() {
		targets = t.impls(c)
	}
	if len(targets) > 0 {
		for _, g := range targets {
			args := c.Args
			if c.IsInvoke() {
				args = append([]ssa.Value{c.Value}, args...)
			}
			for i, a := range args {
				if i < len(g.Params) && t.has(a) {
					t.add(g.Params[i], w)
				}
			}
			if res != nil && t.rets[g][0] && g.Signature.Results().Len() == 1 {
				t.add(res, w)
			}
		}
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			for _, a := range c.Args {
				if t.has(a) {
					t.add(res, w)
				}
			}
		case "copy":
			if t.has(c.Args[1]) {
				t.add(c.Args[0], w)
				t.back(c.Args[0], w)
			}
		}
		return
	}
	any := false
	for _, a := range c.Args {
		if t.has(a) {
			any = true
		}
	}
	if c.IsInvoke() && t.has(c.Value) {
		any = true
	}
	if !any {
		return
	}
	if res != nil && !isErrorType(res.Type()) {
		t.add(res, w)
	}
	// a pointer receiver may keep the data (strings.Builder and the like)
	if g := c.StaticCallee(); g != nil && g.Signature.Recv() != nil && len(c.Args) > 0 {
		if _, ok := g.Signature.Recv().Type().(*types.Pointer); ok {
			t.add(c.Args[0], w)
			t.back(c.Args[0], w)
		}
	}
}

func (t *taint) impls(c *ssa.CallCommon) []*ssa.Function {
	return implsOf(t.p, c, t.infn)
}

var implCache = map[*types.Func][]*ssa.Function{}

// implsOf lists the repository methods an interface call can reach.
func implsOf(p *Prog, c *ssa.CallCommon, infn func(*ssa.Function) bool) []*ssa.Function {
	all, ok := implCache[c.Method]
	if !ok {
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, f := range p.Funcs {
			if f.Name() != c.Method.Name() || f.Signature.Recv() == nil || it == nil {
				continue
			}
			if strings.HasPrefix(f.Synthetic, "wrapper") {
				continue
			}
			rt := f.Signature.Recv().Type()
			if types.Implements(rt, it) || types.Implements(types.NewPointer(rt), it) {
				all = append(all, f)
			}
		}
		implCache[c.Method] = all
	}
	var out []*ssa.Function
	for _, f := range all {
		if infn == nil || infn(f) {
			out = append(out, f)
		}
	}
	return out
}
