package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Error discipline: every error a call produces is looked at, and on the
// branch where it is not nil no path returns success.

// ignorableError lists calls whose error is documented to be always nil or
// whose failure is of no consequence (terminal output).
func ignorableError(c *ssa.CallCommon) bool {
	g := c.StaticCallee()
	if g == nil {
		return false
	}
	n := g.String()
	switch {
	case strings.HasPrefix(n, "(*strings.Builder)."), strings.HasPrefix(n, "(*bytes.Buffer)."):
		return true
	case strings.HasPrefix(n, "fmt.Print"):
		return true
	case n == "io.WriteString" && !writesFile(c.Args[0]) && toStd(c.Args[0]):
		return true
	case n == "(*flag.FlagSet).Parse":
		// a flag set created with ExitOnError does not return errors
		for _, v := range traceLocal(c.Args[0]) {
			cc, ok := v.(*ssa.Call)
			if !ok || calleeString(&cc.Call) != "flag.NewFlagSet" {
				return false
			}
			if k, ok := constInt(cc.Call.Args[1]); !ok || k != 1 {
				return false
			}
		}
		return true
	case strings.HasPrefix(n, "fmt.Fprint") && len(c.Args) > 0:
		// to the terminal or an in-memory buffer
		switch x := c.Args[0].(type) {
		case *ssa.MakeInterface:
			if u, ok := x.X.(*ssa.UnOp); ok {
				if gl, ok := u.X.(*ssa.Global); ok && gl.Pkg.Pkg.Path() == "os" {
					return true
				}
			}
			s := x.X.Type().String()
			return s == "*strings.Builder" || s == "*bytes.Buffer"
		}
	}
	return false
}

// toStd: the writer is a standard stream.
func toStd(w ssa.Value) bool {
	mi, ok := w.(*ssa.MakeInterface)
	if !ok {
		return false
	}
	u, ok := mi.X.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os"
}

// A failure result is an error, or a numeric failure code (the type of the
// Code field of an error type) where zero means success.

func isCodeType(p *Prog, t types.Type) bool {
	if p.codeTypes == nil {
		p.codeTypes = map[types.Type]bool{}
		for _, pk := range p.Repo {
			sc := pk.Types.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok {
					continue
				}
				st, ok := tn.Type().Underlying().(*types.Struct)
				if !ok || !types.Implements(types.NewPointer(tn.Type()), errorIface()) {
					continue
				}
				for i := 0; i < st.NumFields(); i++ {
					if nt, ok := st.Field(i).Type().(*types.Named); ok && st.Field(i).Name() == "Code" {
						if bt, ok := nt.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
							p.codeTypes[nt] = true
						}
					}
				}
			}
		}
	}
	return p.codeTypes[t]
}

func errorIface() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}

func isFailureType(p *Prog, t types.Type) bool { return isErrorType(t) || isCodeType(p, t) }

// okConst: the constant is the success value of its type.
func okConst(k *ssa.Const) bool {
	if k.Value == nil {
		return true
	}
	if k.Value.Kind() == constant.Int {
		return constant.Sign(k.Value) == 0
	}
	return false
}

// errorValues lists the failure results of a call.
func errorValues(p *Prog, c *ssa.Call) (vals []ssa.Value, dropped bool) {
	res := c.Call.Signature().Results()
	if res.Len() == 1 {
		if isFailureType(p, res.At(0).Type()) {
			return []ssa.Value{c}, len(*c.Referrers()) == 0
		}
		return nil, false
	}
	for i := 0; i < res.Len(); i++ {
		if !isFailureType(p, res.At(i).Type()) {
			continue
		}
		var ex []ssa.Value
		for _, ref := range *c.Referrers() {
			if x, ok := ref.(*ssa.Extract); ok && x.Index == i && len(*x.Referrers()) > 0 {
				ex = append(ex, x)
			}
		}
		if len(ex) == 0 {
			return nil, true
		}
		vals = append(vals, ex...)
	}
	return vals, false
}

// checkErrors judges every error-producing call of f under the current rule.
func checkErrors(p *Prog, r *Report, f *ssa.Function, sentinels map[string]bool) {
	name := p.fname(f)
	idx := map[string]int{}
	instrs(f, func(in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok || ignorableError(&c.Call) {
			return
		}
		if _, isB := c.Call.Value.(*ssa.Builtin); isB {
			return
		}
		vals, dropped := errorValues(p, c)
		if len(vals) == 0 && !dropped {
			return
		}
		cn := calleeName(p, &c.Call)
		idx[cn]++
		key := name + "|" + cn
		if probe(p, c) {
			r.Ok(key + "|probe")
			return
		}
		if dropped && harmlessDrop(c) {
			return
		}
		if dropped {
			r.Bad(key+"|dropped", "%s ignores the error of %s at %s", name, cn, p.pos(c.Pos()))
			return
		}
		okv := true
		for _, v := range vals {
			if at, bad := errorSwallowed(p, f, v, sentinels); bad {
				okv = false
				r.Bad(key+"|swallowed", "%s: when %s (%s) fails, the return at %s reports success", name, cn, p.pos(c.Pos()), at)
			}
			if !errorJudged(v, map[ssa.Value]bool{}) {
				okv = false
				r.Bad(key+"|unchecked", "%s never tests or passes on the error of %s at %s", name, cn, p.pos(c.Pos()))
			}
		}
		if okv {
			r.Ok(key)
		}
	})
}

func calleeName(p *Prog, c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return types.TypeString(c.Value.Type(), func(pk *types.Package) string { return pk.Name() }) + "." + c.Method.Name()
	}
	if g := calleeOf(c); g != nil {
		return p.fname(g)
	}
	if u, ok := c.Value.(*ssa.UnOp); ok {
		switch x := u.X.(type) {
		case *ssa.FieldAddr:
			k := fieldKey(x.X.Type(), x.Field)
			return "field " + k[strings.LastIndexByte(k, '/')+1:]
		case *ssa.Global:
			return "var " + x.Name()
		}
	}
	return "a function value"
}

// errorJudged: the error is compared, returned, passed on or stored somewhere.
func errorJudged(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch ref := ref.(type) {
		case *ssa.BinOp, *ssa.Return, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.Panic, *ssa.MapUpdate, *ssa.MakeClosure, *ssa.Send:
			return true
		case ssa.CallInstruction:
			return true
		case *ssa.Store:
			// a local variable: follow its loads
			if al, ok := ref.Addr.(*ssa.Alloc); ok {
				for _, r2 := range *al.Referrers() {
					switch r2 := r2.(type) {
					case *ssa.UnOp:
						if r2.Op == token.MUL && errorJudged(r2, seen) {
							return true
						}
					case *ssa.MakeClosure:
						return true
					}
				}
				continue
			}
			return true
		case ssa.Value:
			if errorJudged(ref, seen) {
				return true
			}
		}
	}
	return false
}

// probe: a comparison of types tried for several candidates in a loop, where a
// failure only means that the candidate does not match.
func probe(p *Prog, c *ssa.Call) bool {
	g := c.Call.StaticCallee()
	return g != nil && p.fname(g) == "postgres.typeCheckComparison" && reaches(c.Block(), c.Block())
}

// toleratedCode: the text after an operator may be a column or a literal; only
// the code "not a column identifier" may select the literal.
func toleratedCode(p *Prog, k *ssa.Const) bool {
	if k.Value == nil || !isCodeType(p, k.Type()) {
		return false
	}
	o, ok := p.pkg("internal/analysis").Types.Scope().Lookup("errBadColIdTagValue").(*types.Const)
	return ok && o.Type() == k.Type() && constant.Compare(o.Val(), token.EQL, k.Value)
}

// keepsText: the block stores a text it was given, the literal.
func keepsText(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		if st, ok := in.(*ssa.Store); ok {
			if bt, ok := st.Val.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.String {
				if _, isC := st.Val.(*ssa.Const); !isC {
					return true
				}
			}
		}
	}
	return false
}

// harmlessDrop: an ignored failure to release something while another failure
// is already being reported, or of a file that was only read.
func harmlessDrop(c *ssa.Call) bool {
	n := calleeString(&c.Call)
	if n == "(*os.File).Close" {
		for _, v := range traceLocal(c.Call.Args[0]) {
			if ex, ok := v.(*ssa.Extract); ok {
				if cc, ok := ex.Tuple.(*ssa.Call); ok && calleeString(&cc.Call) == "os.Open" {
					continue
				}
			}
			return knownFailing(c.Block())
		}
		return true
	}
	if strings.HasSuffix(n, ").Close") || n == "os.Remove" {
		return knownFailing(c.Block())
	}
	return false
}

// traceLocal follows a value through phis and local variables to its sources.
func traceLocal(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
			return
		case *ssa.ChangeType:
			rec(x.X)
			return
		case *ssa.ChangeInterface:
			rec(x.X)
			return
		case *ssa.UnOp:
			if x.Op == token.MUL {
				n := 0
				for _, st := range storesTo(x.X) {
					n++
					rec(st)
				}
				if n > 0 {
					return
				}
			}
		}
		out = append(out, v)
	}
	rec(v)
	return out
}

// storesTo lists the values stored to a local variable (also one captured by a
// closure); none if the address is something else.
func storesTo(addr ssa.Value) []ssa.Value {
	switch a := addr.(type) {
	case *ssa.FreeVar:
		if b := bindingOf(a); b != nil {
			return storesTo(b)
		}
	case *ssa.Alloc:
		var out []ssa.Value
		var collect func(v ssa.Value)
		collect = func(v ssa.Value) {
			for _, ref := range *v.Referrers() {
				switch ref := ref.(type) {
				case *ssa.Store:
					if ref.Addr == v {
						out = append(out, ref.Val)
					}
				case *ssa.MakeClosure:
					fn, _ := ref.Fn.(*ssa.Function)
					for i, b := range ref.Bindings {
						if b == v && fn != nil {
							collect(fn.FreeVars[i])
						}
					}
				}
			}
		}
		collect(a)
		return out
	}
	return nil
}

func bindingOf(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	par := f.Parent()
	if par == nil {
		return nil
	}
	var out ssa.Value
	instrs(par, func(in ssa.Instruction) {
		if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
			for i, x := range f.FreeVars {
				if x == fv {
					out = mc.Bindings[i]
				}
			}
		}
	})
	return out
}

// knownFailing: the block is only reached when some error is not nil.
func knownFailing(b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		for _, pr := range d.Preds {
			br, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
			if !ok || len(d.Preds) != 1 {
				continue
			}
			bo, ok := br.Cond.(*ssa.BinOp)
			if !ok || !isErrorType(bo.X.Type()) {
				continue
			}
			k, isC := bo.Y.(*ssa.Const)
			if !isC || k.Value != nil {
				continue
			}
			if bo.Op == token.NEQ && pr.Succs[0] == d || bo.Op == token.EQL && pr.Succs[1] == d {
				return true
			}
		}
	}
	return false
}

// failEdge: which successor of a test of the failure value is taken only when
// it is a failure; -1 if the test does not tell.
func failEdge(b *ssa.BinOp, e ssa.Value) int {
	op, other := b.Op, b.Y
	if other == e {
		other = b.X
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	k, ok := other.(*ssa.Const)
	if !ok {
		return -1
	}
	zero := okConst(k)
	one := k.Value != nil && k.Value.ExactString() == "1"
	switch op {
	case token.NEQ, token.GTR:
		if zero {
			return 0
		}
	case token.EQL, token.LEQ:
		if zero {
			return 1
		}
		if op == token.EQL {
			return 0 // one particular failure
		}
	case token.GEQ:
		if one {
			return 0
		}
	case token.LSS:
		if one {
			return 1
		}
	}
	return -1
}

// errAliases: the value itself and the loads of a local it was stored to.
func errAliases(e ssa.Value) []ssa.Value {
	out := []ssa.Value{e}
	for _, ref := range *e.Referrers() {
		st, ok := ref.(*ssa.Store)
		if !ok {
			continue
		}
		al, ok := st.Addr.(*ssa.Alloc)
		if !ok {
			continue
		}
		seen := map[*ssa.BasicBlock]bool{}
		var scan func(b *ssa.BasicBlock, from int)
		scan = func(b *ssa.BasicBlock, from int) {
			for _, in := range b.Instrs[from:] {
				switch in := in.(type) {
				case *ssa.Store:
					if in.Addr == al {
						return
					}
				case *ssa.UnOp:
					if in.Op == token.MUL && in.X == al {
						out = append(out, in)
					}
				}
			}
			for _, s := range b.Succs {
				if !seen[s] {
					seen[s] = true
					scan(s, 0)
				}
			}
		}
		for i, in := range st.Block().Instrs {
			if in == ssa.Instruction(st) {
				scan(st.Block(), i+1)
			}
		}
	}
	return out
}

// errorSwallowed looks for a path from a "this is a failure" branch to a
// return that reports success on that path.
func errorSwallowed(p *Prog, f *ssa.Function, e0 ssa.Value, sentinels map[string]bool) (string, bool) {
	res := f.Signature.Results()
	var fidx []int
	for i := 0; i < res.Len(); i++ {
		if isFailureType(p, res.At(i).Type()) {
			fidx = append(fidx, i)
		}
	}
	if len(fidx) == 0 {
		return "", false
	}
	type edge struct{ from, to *ssa.BasicBlock }
	type state struct {
		edge
		nilled bool   // the last store to a result variable stored success
		okPhis string // the merged values known to be success on this path
	}
	al := map[ssa.Value]bool{}
	var start []edge
	for _, e := range errAliases(e0) {
		al[e] = true
		for _, ref := range *e.Referrers() {
			b, ok := ref.(*ssa.BinOp)
			if !ok {
				continue
			}
			i := failEdge(b, e)
			if i < 0 {
				continue
			}
			for _, r2 := range *b.Referrers() {
				if br, ok := r2.(*ssa.If); ok {
					start = append(start, edge{br.Block(), br.Block().Succs[i]})
				}
			}
		}
	}
	for _, s := range start {
		seen := map[state]bool{}
		work := []state{{s, false, ""}}
		for len(work) > 0 {
			ed := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[ed] {
				continue
			}
			seen[ed] = true
			b := ed.to
			if b == ed.from || definesErr(b, e0) {
				continue // a later attempt overwrites the error
			}
			nilled, oks := ed.nilled, ed.okPhis
			isOk := func(v ssa.Value) bool {
				if k, ok := v.(*ssa.Const); ok {
					return okConst(k)
				}
				_, ok := v.(*ssa.Phi)
				return ok && strings.Contains(ed.okPhis, " "+v.Name()+" ")
			}
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if !isFailureType(p, ph.Type()) {
					continue
				}
				n := " " + ph.Name() + " "
				oks = strings.ReplaceAll(oks, n, "")
				for i, pb := range b.Preds {
					if pb == ed.from && isOk(ph.Edges[i]) {
						oks += n
						break
					}
				}
			}
			ed.okPhis = oks
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && isFailureType(p, st.Val.Type()) {
					if _, ok := st.Addr.(*ssa.Alloc); ok {
						nilled = isOk(st.Val)
					}
				}
			}
			switch t := b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.Return:
				okay := true
				for _, i := range fidx {
					v := t.Results[i]
					if u, isU := v.(*ssa.UnOp); isU && u.Op == token.MUL {
						if _, isA := u.X.(*ssa.Alloc); isA {
							if !nilled {
								okay = false
							}
							continue
						}
					}
					if !isOk(v) {
						okay = false
					}
				}
				if okay {
					return p.pos(t.Pos()), true
				}
				continue
			case *ssa.If:
				// a sentinel that is not a failure
				if bo, ok := t.Cond.(*ssa.BinOp); ok && (al[bo.X] || al[bo.Y]) {
					e, o := bo.X, bo.Y
					if al[bo.Y] {
						e, o = bo.Y, bo.X
					}
					if isSentinel(o, sentinels) {
						i := 1 // the edge on which it is some other error
						if bo.Op == token.NEQ {
							i = 0
						}
						work = append(work, state{edge{b, b.Succs[i]}, nilled, oks})
						continue
					}
					if k, isC := o.(*ssa.Const); isC && toleratedCode(p, k) && (bo.Op == token.NEQ || bo.Op == token.EQL) {
						i, alt := 0, 1
						if bo.Op == token.EQL {
							i, alt = 1, 0
						}
						if keepsText(b.Succs[alt]) {
							work = append(work, state{edge{b, b.Succs[i]}, nilled, oks})
							continue
						}
					}
					if k, isC := o.(*ssa.Const); isC && okConst(k) {
						if i := failEdge(bo, e); i >= 0 {
							work = append(work, state{edge{b, b.Succs[i]}, nilled, oks})
							continue
						}
					}
				}
				if c, ok := t.Cond.(*ssa.Call); ok {
					if g := c.Call.StaticCallee(); g != nil && (g.String() == "errors.Is" || strings.HasPrefix(g.String(), "os.Is")) && len(c.Call.Args) > 0 && al[c.Call.Args[0]] {
						work = append(work, state{edge{b, b.Succs[1]}, nilled, oks})
						continue
					}
				}
			}
			for _, s := range b.Succs {
				work = append(work, state{edge{b, s}, nilled, oks})
			}
		}
	}
	return "", false
}

func definesErr(b *ssa.BasicBlock, e ssa.Value) bool {
	in, ok := e.(ssa.Instruction)
	return ok && in.Block() == b
}

func isSentinel(v ssa.Value, sentinels map[string]bool) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && sentinels[g.Pkg.Pkg.Name()+"."+g.Name()]
}

func calleeString(c *ssa.CallCommon) string {
	if g := c.StaticCallee(); g != nil {
		return g.String()
	}
	return ""
}
