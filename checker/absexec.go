package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Interp evaluates Go source over symbolic values. It does not follow paths: the
// states of alternative branches are joined into guarded values, and a loop over an
// input is evaluated once for the generic element of that input.
type Interp struct {
	p       *Prog
	decls   map[*types.Func]*ast.FuncDecl
	infos   map[*types.Package]*types.Info
	globals map[*types.Var]ast.Expr
	written map[*types.Var]bool // package variables that are assigned somewhere

	over      map[string]Val // values of inputs that are fixed by the configuration
	axioms    []*F           // facts about the inputs
	decMemo   map[string]int8
	decAxioms int
	mainPkg   *types.Package

	stack   []*types.Func
	effects map[*types.Func]map[string]leafRef
	loops   []*loopCtx
	nframe  int
	nloc    int
	steps   int
	Undec   map[string]bool
	Funcs   map[string]bool // functions evaluated
	counter *types.Var      // the field that counts what has been allocated
	somes   map[string]*someAtom
	someBy  map[string][]*someAtom
	idxNo   map[string]int
	idxVals []Val
	accs    map[string][]*accInfo // what is accumulated by loops
	current map[string]Val        // the elements of the lists that loops are at
	folds   []*VExpr
	breaks  map[string][]*someAtom
	made    map[string][]madeOf
	same    func(facts []*F, a, b Val) bool // tells whether values are the same under facts
	wide    map[string]bool                 // the types of objects that functions that are not looked into change
	stack1  map[string]bool                 // the label of the loop over a stack that is evaluated
	elems   bool                            // the elements of lists are not nil
	unroll  int                             // how often a recursive call is followed
	hook    func(in *Interp, st *state, fn *types.Func, recv Val, args []Val) ([]Val, bool)
}

// someAtom is the variable that tells whether some element of src satisfies cond.
type someAtom struct {
	name, src string
	cond      *F
}

// some is the formula "some element of src satisfies c".
func (in *Interp) some(src string, c *F) *F {
	if c.op == 'F' {
		return fFalse
	}
	if c.op == 'T' && in.elems {
		return fNot(fAtom("len("+src+")", "0"))
	}
	for _, a := range in.someBy[src] {
		if a.cond.k == c.k || fEquiv(fAnd(in.axiom(), a.cond), fAnd(in.axiom(), c)) {
			return fBool(a.name)
		}
	}
	a := &someAtom{name: "some(" + src + ":" + c.k + ")", src: src, cond: c}
	in.someBy[src] = append(in.someBy[src], a)
	in.somes[a.name] = a
	return fBool(a.name)
}

// broken is the formula that a loop over src was left before the current element, by the
// break of an element that satisfies c.
func (in *Interp) broken(st *state, src string, c *F) *F {
	for _, b := range in.breaks[src] {
		if b.cond.k == c.k || in.same != nil && in.same(st.pc, VF{b.cond}, VF{c}) {
			return fBool(b.name)
		}
	}
	b := &someAtom{name: "broken(" + src + ":" + c.k + ")", src: src, cond: c}
	if in.breaks == nil {
		in.breaks = map[string][]*someAtom{}
	}
	in.breaks[src] = append(in.breaks[src], b)
	return fBool(b.name)
}

// lastOf tells apart what a loop takes from the last of the elements, because it goes on
// after the assignment, and what it takes from the first.
func (in *Interp) lastOf(s0, s1 *state, on []*state, src string, l leafRef, v Val) *F {
	if !in.elems || !strings.Contains(content(s1, v, nil).key(), src+"[*]") {
		return fTrue
	}
	was := orNil(getPath(s0.locs[l.loc], l.path)).key()
	for _, s := range on {
		if orNil(getPath(s.locs[l.loc], l.path)).key() != was {
			return fBool("last(" + src + ")")
		}
	}
	return fTrue
}

// foldOf is what a loop over src computes from old, nv being the value after one step. If
// the step is the same as the one of another loop, for the inputs that reach this one,
// then it is the value of that loop.
func (in *Interp) foldOf(st *state, src, old, nv Val, whole *F) Val {
	e := &VExpr{op: "fold", args: []Val{src, old, nv}, typ: dynTypeLoose(nv)}
	if in.same == nil {
		return e
	}
	if whole != fTrue {
		e.args = append(e.args, VF{whole})
	}
	for _, f := range in.folds {
		if len(f.args) != len(e.args) || len(f.args) == 4 && f.args[3].key() != e.args[3].key() {
			continue
		}
		if f.args[0].key() == src.key() && f.args[1].key() == old.key() && in.same(st.pc, f.args[2], nv) {
			return f
		}
	}
	in.folds = append(in.folds, e)
	return e
}

func (in *Interp) axiom() *F { return fAnd(in.axioms...) }

type state struct {
	locs map[string]Val
	pc   []*F
	dead bool
}

type frame struct {
	fn   *types.Func
	id   int
	info *types.Info
	up   *frame
	res  []*types.Var

	defers []*ast.FuncLit // what is deferred, in the order in which it was
}

type loopCtx struct {
	src  string // key of what is ranged over
	idx  types.Object
	fr   *frame
	elem Val
	eobj types.Object
}

const (
	oNext = iota
	oReturn
	oBreak
	oContinue
)

type outcome struct {
	kind int
	st   *state
	vals []Val
}

type leafRef struct {
	loc  string
	path string
}

type undecided struct{ msg string }

func (in *Interp) giveUp(pos token.Pos, f string, a ...interface{}) {
	panic(undecided{fmt.Sprintf(f, a...) + " at " + in.p.pos(pos)})
}

func newInterp(p *Prog, main string) *Interp {
	in := &Interp{p: p, decls: map[*types.Func]*ast.FuncDecl{}, infos: map[*types.Package]*types.Info{},
		globals: map[*types.Var]ast.Expr{}, written: map[*types.Var]bool{}, over: map[string]Val{},
		effects: map[*types.Func]map[string]leafRef{}, somes: map[string]*someAtom{}, idxNo: map[string]int{}, accs: map[string][]*accInfo{}, someBy: map[string][]*someAtom{}, Undec: map[string]bool{}, Funcs: map[string]bool{}}
	in.mainPkg = p.pkg(main).Types
	index := func(pk *packages.Package) {
		in.infos[pk.Types] = pk.TypesInfo
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if o, ok := pk.TypesInfo.Defs[d.Name].(*types.Func); ok && d.Body != nil {
						in.decls[o] = d
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						if vs, ok := s.(*ast.ValueSpec); ok && d.Tok == token.VAR && len(vs.Values) == len(vs.Names) {
							for i, n := range vs.Names {
								if o, ok := pk.TypesInfo.Defs[n].(*types.Var); ok {
									in.globals[o] = vs.Values[i]
								}
							}
						}
					}
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				if a, ok := n.(*ast.AssignStmt); ok {
					for _, l := range a.Lhs {
						if ix, ok := l.(*ast.IndexExpr); ok {
							l = ix.X
						}
						if id, ok := l.(*ast.Ident); ok {
							if o, ok := pk.TypesInfo.Uses[id].(*types.Var); ok && o.Parent() == pk.Types.Scope() {
								in.written[o] = true
							}
						}
					}
				}
				return true
			})
		}
	}
	for path, pk := range p.Pkgs {
		if strings.HasPrefix(path, modPath) || strings.HasPrefix(path, "github.com/frk/ast") {
			index(pk)
		}
	}
	return in
}

func (s *state) clone() *state {
	n := &state{locs: make(map[string]Val, len(s.locs)), pc: append([]*F{}, s.pc...), dead: s.dead}
	for k, v := range s.locs {
		n.locs[k] = v
	}
	return n
}

// decide reports whether f is known to hold (1), known not to hold (-1) or not known (0).
func (in *Interp) decide(st *state, f *F) int {
	if f.op == 'T' {
		return 1
	}
	if f.op == 'F' {
		return -1
	}
	if d := st.look(f); d != 0 {
		return d
	}
	var sb strings.Builder
	sb.WriteString(f.k)
	for _, a := range st.pc {
		sb.WriteByte('\n')
		sb.WriteString(a.k)
	}
	k := sb.String()
	if in.decMemo == nil || in.decAxioms != len(in.axioms) || len(in.decMemo) > 1000000 {
		in.decMemo, in.decAxioms = map[string]int8{}, len(in.axioms)
	}
	if d, ok := in.decMemo[k]; ok {
		return int(d)
	}
	facts := in.relevant(st, f)
	d := 0
	if !fSat(fAnd(facts, f)) {
		d = -1
	} else if !fSat(fAnd(facts, fNot(f))) {
		d = 1
	}
	in.decMemo[k] = int8(d)
	return d
}

// look evaluates f from the values of its variables alone.
func (st *state) look(f *F) int {
	switch f.op {
	case 'T':
		return 1
	case 'F':
		return -1
	case 'a':
		for _, a := range st.pc {
			if a.op == 'a' && a.v == f.v {
				if a.c == f.c {
					return 1
				}
				return -1
			}
			if a.op == '!' && a.kids[0].op == 'a' && a.kids[0].v == f.v && a.kids[0].c == f.c {
				return -1
			}
		}
		return 0
	case '!':
		return -st.look(f.kids[0])
	}
	end := -1
	if f.op == '|' {
		end = 1
	}
	res := -end
	for _, k := range f.kids {
		switch st.look(k) {
		case end:
			return end
		case 0:
			res = 0
		}
	}
	return res
}

// relevant is the conjunction of those facts that are connected with f.
func (in *Interp) relevant(st *state, f *F) *F {
	vars := map[string]bool{}
	for v := range f.variables() {
		vars[v] = true
	}
	all := append(append([]*F{}, in.axioms...), st.pc...)
	used := make([]bool, len(all))
	var out []*F
	for again := true; again; {
		again = false
		for i, a := range all {
			if used[i] {
				continue
			}
			for v := range a.variables() {
				if vars[v] {
					used[i] = true
					break
				}
			}
			if used[i] {
				again = true
				out = append(out, a)
				for v := range a.variables() {
					vars[v] = true
				}
			}
		}
	}
	return fAnd(out...)
}

func (st *state) assume(f *F) {
	if f.op == '&' {
		for _, k := range f.kids {
			st.assume(k)
		}
		return
	}
	if f.op != 'T' {
		st.pc = append(st.pc, f)
	}
}

// join merges the states of alternative continuations.
func (in *Interp) join(sts []*state) *state {
	st, _ := in.joinVals(sts, nil)
	return st
}

func (in *Interp) joinVals(sts []*state, vals [][]Val) (*state, []Val) {
	var live []*state
	var lv [][]Val
	for i, s := range sts {
		if s != nil && !s.dead {
			live = append(live, s)
			if vals != nil {
				lv = append(lv, vals[i])
			}
		}
	}
	if len(live) == 0 {
		return &state{locs: map[string]Val{}, dead: true}, nil
	}
	if len(live) == 1 {
		if vals != nil {
			return live[0], lv[0]
		}
		return live[0], nil
	}
	n := 0
	for {
		ok := true
		for _, s := range live {
			if len(s.pc) <= n || s.pc[n].k != live[0].pc[n].k {
				ok = false
				break
			}
		}
		if !ok {
			break
		}
		n++
	}
	conds := make([]*F, len(live))
	for i, s := range live {
		conds[i] = fAnd(s.pc[n:]...)
	}
	out := &state{locs: map[string]Val{}, pc: append([]*F{}, live[0].pc[:n]...)}
	if any := fOr(conds...); fSat(fNot(any)) {
		// simplify under the common prefix
		if in.decide(out, any) != 1 {
			out.assume(any)
		}
	}
	names := map[string]bool{}
	for _, s := range live {
		for k := range s.locs {
			names[k] = true
		}
	}
	last := len(live) - 1
	for k := range names {
		var v Val
		for i := last; i >= 0; i-- {
			x, ok := live[i].locs[k]
			if !ok && in.elems && strings.HasPrefix(k, "sym:@frame") {
				// not changed
				x, ok = VSym{strings.TrimPrefix(k, "sym:"), nil}, true
			}
			if !ok {
				continue
			}
			if v == nil {
				v = x
			} else if !same(x, v) {
				v = mkCond(conds[i], x, v)
			}
		}
		out.locs[k] = v
	}
	var res []Val
	if vals != nil {
		for j := range lv[0] {
			v := lv[last][j]
			for i := last - 1; i >= 0; i-- {
				v = mkCond(conds[i], lv[i][j], v)
			}
			res = append(res, v)
		}
	}
	return out, res
}

// fork evaluates a and b under c and its negation and merges what they do.
func (in *Interp) fork(st *state, c *F, a, b func(st *state) []Val) []Val {
	switch in.decide(st, c) {
	case 1:
		return a(st)
	case -1:
		return b(st)
	}
	sa, sb := st.clone(), st.clone()
	sa.assume(c)
	sb.assume(fNot(c))
	va, vb := a(sa), b(sb)
	for len(va) < len(vb) {
		va = append(va, VNil{})
	}
	for len(vb) < len(va) {
		vb = append(vb, VNil{})
	}
	m, vals := in.joinVals([]*state{sa, sb}, [][]Val{va, vb})
	*st = *m
	return vals
}

// ---- calls ----------------------------------------------------------------------------

func (in *Interp) callFunc(st *state, fn *types.Func, recv Val, args []Val, pos token.Pos) []Val {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	sig := fn.Type().(*types.Signature)
	if in.hook != nil {
		if out, ok := in.hook(in, st, fn, recv, args); ok {
			return out
		}
	}
	d := in.decls[fn]
	if d == nil {
		return in.opaqueCall(st, fn, recv, args, sig)
	}
	isMain := fn.Pkg() == in.mainPkg
	isAst := strings.HasPrefix(fn.Pkg().Path(), "github.com/frk/ast")
	depth := 0
	for _, f := range in.stack {
		if f == fn {
			depth++
		}
	}
	if depth > in.unroll && isMain {
		return in.recursion(st, fn, recv, args, sig)
	}
	if depth > 0 && !isAst && !isMain || depth > 30 || len(in.stack) > 120 {
		return in.opaqueCall(st, fn, recv, args, sig)
	}
	if !isMain && !isAst {
		// a helper of another package: evaluated if it can be, a pure function otherwise
		save := st.clone()
		var out []Val
		ok := func() (ok bool) {
			n, l := len(in.stack), len(in.loops)
			defer func() {
				if x := recover(); x != nil {
					if _, u := x.(undecided); !u {
						panic(x)
					}
					in.stack, in.loops = in.stack[:n], in.loops[:l]
					ok = false
				}
			}()
			out = in.run(st, fn, d, recv, args)
			return true
		}()
		if ok && !st.dead {
			return out
		}
		*st = *save
		return in.opaqueCall(st, fn, recv, args, sig)
	}
	if !isMain {
		return in.run(st, fn, d, recv, args)
	}
	// repeat until the effects of recursive calls are known
	for try := 0; ; try++ {
		before := len(in.effects[fn])
		s := st.clone()
		out := in.run(s, fn, d, recv, args)
		if in.effects[fn] == nil {
			*st = *s
			return out
		}
		for _, l := range diffState(st, s) {
			in.effects[fn][l.loc+"/"+l.path] = l
		}
		if len(in.effects[fn]) == before || try > 5 {
			*st = *s
			return out
		}
	}
}

// opaqueCall is opaque, whatever way the arguments are written in.
func (in *Interp) opaqueCall(st *state, fn *types.Func, recv Val, args []Val, sig *types.Signature) []Val {
	if !in.elems || sig.Results().Len() == 0 {
		return in.opaque(fn, recv, args, sig)
	}
	vs := args
	if recv != nil {
		vs = append([]Val{recv}, args...)
	}
	return in.once(st, "opaque "+fn.FullName(), vs, func(vs []Val) []Val {
		if recv != nil {
			return in.opaque(fn, vs[0], vs[1:], sig)
		}
		return in.opaque(fn, nil, vs, sig)
	})
}

func (in *Interp) opaque(fn *types.Func, recv Val, args []Val, sig *types.Signature) []Val {
	name := fn.Name()
	if fn.Pkg() != nil {
		name = fn.Pkg().Name() + "." + name
	}
	if in.elems && name == "strings.HasPrefix" && len(args) == 2 {
		// a prefix of one byte is the first byte
		if c, ok := args[1].(VConst); ok && c.v.Kind() == constant.String && len(constant.StringVal(c.v)) == 1 {
			zero := VConst{constant.MakeInt64(0), types.Typ[types.Int]}
			if first := in.byteAt(args[0], zero); first != nil {
				return []Val{VF{in.cmp(nil, token.EQL, first, VConst{constant.MakeInt64(int64(constant.StringVal(c.v)[0])), nil})}}
			}
		}
	}
	if recv != nil {
		args = append([]Val{recv}, args...)
	}
	return opaqueResults("call:"+name, args, sig)
}

func opaqueResults(op string, args []Val, sig *types.Signature) []Val {
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		o := op
		if sig.Results().Len() > 1 {
			o += "#" + strconv.Itoa(i)
		}
		out = append(out, mkExpr(o, sig.Results().At(i).Type(), args...))
	}
	return out
}

// recursion summarises a recursive call: what the function does to a location it does
// again, for the argument of the recursive call.
func (in *Interp) recursion(st *state, fn *types.Func, recv Val, args []Val, sig *types.Signature) []Val {
	if in.effects[fn] == nil {
		in.effects[fn] = map[string]leafRef{}
	}
	// the argument that is part of an input
	var arg Val = mkExpr("args", nil, args...)
	for _, a := range args {
		if s, ok := a.(VSym); ok && !strings.HasPrefix(s.path, "@") {
			if _, isSlice := s.typ.Underlying().(*types.Slice); isSlice {
				arg = a
				break
			}
			arg = a
		}
	}
	var ls []string
	for k := range in.effects[fn] {
		ls = append(ls, k)
	}
	sort.Strings(ls)
	for _, k := range ls {
		l := in.effects[fn][k]
		old := getPath(st.locs[l.loc], l.path)
		var nv Val
		if lst, ok := old.(*VList); ok {
			nv = &VList{items: append(append([]Item{}, lst.items...), Item{guard: fTrue, kind: 'c', val: mkExpr("rec", nil, append([]Val{arg, mkStr(l.path)}, args...)...)}), typ: lst.typ}
		} else {
			nv = mkExpr("rec:"+l.path, nil, arg, orNil(old))
		}
		st.locs[l.loc] = setPath(st.locs[l.loc], splitPath(l.path), nv)
	}
	return opaqueResults("rec", []Val{arg}, sig)
}

func orNil(v Val) Val {
	if v == nil {
		return VNil{}
	}
	return v
}

func (in *Interp) run(st *state, fn *types.Func, d *ast.FuncDecl, recv Val, args []Val) []Val {
	in.steps++
	if in.steps > 400000 {
		panic(undecided{"too many steps"})
	}
	in.Funcs[fn.FullName()] = true
	in.stack = append(in.stack, fn)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	in.nframe++
	fr := &frame{fn: fn, id: in.nframe, info: in.infos[fn.Pkg()]}
	if d.Recv != nil && len(d.Recv.List) > 0 && len(d.Recv.List[0].Names) > 0 {
		in.bind(fr, st, d.Recv.List[0].Names[0], recv)
	}
	return in.runBody(st, fr, d.Type, d.Body, args)
}

func (in *Interp) runBody(st *state, fr *frame, ft *ast.FuncType, body *ast.BlockStmt, args []Val) []Val {
	i := 0
	for _, f := range ft.Params.List {
		names := f.Names
		if len(names) == 0 {
			i++
			continue
		}
		for _, n := range names {
			var v Val = VNil{}
			if _, variadic := f.Type.(*ast.Ellipsis); variadic {
				if i < len(args) {
					v = args[i]
				} else {
					v = &VList{typ: in.typeOf(fr, f.Type)}
				}
			} else if i < len(args) {
				v = args[i]
			}
			in.bind(fr, st, n, v)
			i++
		}
	}
	nres := 0
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			if len(f.Names) == 0 {
				nres++
			}
			for _, n := range f.Names {
				nres++
				if o, ok := fr.info.Defs[n].(*types.Var); ok {
					fr.res = append(fr.res, o)
					st.locs[in.locOf(fr, o)] = zeroVal(o.Type())
				}
			}
		}
	}
	outs := in.block(fr, st, body.List)
	var sts []*state
	var vals [][]Val
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		vs := o.vals
		if len(vs) == 0 && len(fr.res) > 0 {
			for _, r := range fr.res {
				vs = append(vs, o.st.locs[in.locOf(fr, r)])
			}
		}
		for len(vs) < nres {
			vs = append(vs, VNil{})
		}
		vs = in.runDefers(fr, o.st, vs)
		sts = append(sts, o.st)
		vals = append(vals, vs)
	}
	m, vs := in.joinVals(sts, vals)
	if m.dead {
		st.dead = true
		out := make([]Val, nres)
		for i := range out {
			out[i] = VNil{}
		}
		return out
	}
	// drop the locals of the frame
	pre := fmt.Sprintf("%d:", fr.id)
	escaped := false
	for _, v := range vs {
		escaped = escaped || refersToLocals(v, pre, in.elems)
	}
	if !escaped {
		for k := range m.locs {
			if strings.HasPrefix(k, pre) && !strings.HasSuffix(k, "&") {
				delete(m.locs, k)
			}
		}
	}
	*st = *m
	return vs
}

// widen forgets what is not known about objects that the statements of a loop change by
// means of functions that are not looked into: their fields can be anything, except
// those that were set before.
func (in *Interp) widen(st *state) {
	if len(in.wide) == 0 || st.dead {
		return
	}
	for loc, v := range st.locs {
		s, ok := v.(*VStruct)
		if !ok || s.base != nil || !in.wide[typeName(s.typ)] {
			continue
		}
		n := &VStruct{typ: s.typ, fields: map[string]Val{}, base: VSym{"any:" + typeName(s.typ), s.typ}}
		for f, x := range s.fields {
			if !isZeroVal(x) {
				n.fields[f] = x
			}
		}
		st.locs[loc] = n
	}
}

// refersToLocals reports whether the value is a closure or the address of a local of
// the frame whose locations have the given prefix.
func refersToLocals(v Val, pre string, ptrs bool) bool {
	switch x := v.(type) {
	case VFunc:
		return true
	case VPtr:
		return ptrs && strings.HasPrefix(x.loc, pre)
	case *VStruct:
		if ptrs {
			for _, f := range x.fields {
				if refersToLocals(f, pre, ptrs) {
					return true
				}
			}
		}
	case *VCond:
		return refersToLocals(x.a, pre, ptrs) || refersToLocals(x.b, pre, ptrs)
	}
	return false
}

// runDefers runs what was deferred on the way to the state, last first.
func (in *Interp) runDefers(fr *frame, st *state, vs []Val) []Val {
	if len(fr.defers) == 0 {
		return vs
	}
	if len(fr.res) > 0 && len(vs) == len(fr.res) {
		for i, r := range fr.res {
			st.locs[in.locOf(fr, r)] = vs[i]
		}
	}
	for i := len(fr.defers) - 1; i >= 0; i-- {
		f, ok := asF(st.locs[fmt.Sprintf("%d:defer%d", fr.id, i)])
		if !ok {
			continue // not reached
		}
		in.fork(st, f, func(s *state) []Val {
			in.nframe++
			n := &frame{fn: fr.fn, id: in.nframe, info: fr.info, up: fr}
			in.runBody(s, n, fr.defers[i].Type, fr.defers[i].Body, nil)
			return nil
		}, func(s *state) []Val { return nil })
	}
	if len(fr.res) > 0 && len(vs) == len(fr.res) {
		vs = append([]Val{}, vs...)
		for i, r := range fr.res {
			vs[i] = st.locs[in.locOf(fr, r)]
		}
	}
	return vs
}

func (in *Interp) bind(fr *frame, st *state, id *ast.Ident, v Val) {
	if id.Name == "_" {
		return
	}
	o := fr.info.Defs[id]
	if o == nil {
		return
	}
	st.locs[in.locOf(fr, o)] = v
}

var addrTaken = map[types.Object]bool{}

func (in *Interp) locOf(fr *frame, o types.Object) string {
	s := fmt.Sprintf("%d:%s@%d", fr.id, o.Name(), o.Pos())
	if addrTaken[o] {
		s += "&"
	}
	return s
}

// frameOf finds the frame that declares the variable.
func (in *Interp) lookup(fr *frame, st *state, o types.Object) (string, bool) {
	for f := fr; f != nil; f = f.up {
		l := in.locOf(f, o)
		if _, ok := st.locs[l]; ok {
			return l, true
		}
	}
	return "", false
}

// ---- statements -----------------------------------------------------------------------

func (in *Interp) block(fr *frame, st *state, list []ast.Stmt) []outcome {
	var done []outcome
	cur := st
	for _, s := range list {
		if cur.dead {
			break
		}
		outs := in.stmt(fr, cur, s)
		var next []*state
		for _, o := range outs {
			if o.st.dead {
				continue
			}
			if o.kind == oNext {
				next = append(next, o.st)
			} else {
				done = append(done, o)
			}
		}
		if len(next) == 0 {
			return done
		}
		cur = in.join(next)
	}
	return append(done, outcome{kind: oNext, st: cur})
}

func next(st *state) []outcome { return []outcome{{kind: oNext, st: st}} }

func (in *Interp) stmt(fr *frame, st *state, s ast.Stmt) []outcome {
	switch s := s.(type) {
	case *ast.BlockStmt:
		return in.block(fr, st, s.List)
	case *ast.EmptyStmt:
		return next(st)
	case *ast.ExprStmt:
		in.evalMulti(fr, st, s.X)
		return next(st)
	case *ast.DeferStmt:
		fl, ok := ast.Unparen(s.Call.Fun).(*ast.FuncLit)
		for _, l := range in.loops {
			ok = ok && l.fr != fr
		}
		if !ok || len(s.Call.Args) > 0 {
			in.giveUp(s.Pos(), "defer")
		}
		fr.defers = append(fr.defers, fl)
		st.locs[fmt.Sprintf("%d:defer%d", fr.id, len(fr.defers)-1)] = VF{fTrue}
		return next(st)
	case *ast.GoStmt:
		in.giveUp(s.Pos(), "go statement")
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		for _, sp := range gd.Specs {
			vs, ok := sp.(*ast.ValueSpec)
			if !ok || gd.Tok == token.CONST {
				continue
			}
			if len(vs.Values) == 1 && len(vs.Names) > 1 {
				vals := in.evalMulti(fr, st, vs.Values[0])
				for i, n := range vs.Names {
					in.bind(fr, st, n, vals[i])
				}
				continue
			}
			for i, n := range vs.Names {
				o := fr.info.Defs[n]
				if o == nil {
					continue
				}
				v := zeroVal(o.Type())
				if i < len(vs.Values) {
					v = in.eval(fr, st, vs.Values[i])
				}
				in.bind(fr, st, n, v)
			}
		}
		return next(st)
	case *ast.AssignStmt:
		in.assignStmt(fr, st, s)
		return next(st)
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		old := in.eval(fr, st, s.X)
		in.assign(fr, st, s.X, in.binary(st, op, old, mkInt(1), in.typeOf(fr, s.X)))
		return next(st)
	case *ast.ReturnStmt:
		var vals []Val
		if len(s.Results) == 1 {
			vals = in.evalMulti(fr, st, s.Results[0])
		} else {
			for _, r := range s.Results {
				vals = append(vals, in.eval(fr, st, r))
			}
		}
		for i, v := range vals {
			if i < len(fr.res) {
				st.locs[in.locOf(fr, fr.res[i])] = v
			}
		}
		return []outcome{{kind: oReturn, st: st, vals: vals}}
	case *ast.BranchStmt:
		if s.Label != nil && s.Tok == token.CONTINUE && in.stack1[s.Label.Name] && len(in.loops) == 0 {
			st.locs["ghost:again"] = VF{fTrue}
			return []outcome{{kind: oContinue, st: st}}
		}
		if s.Label != nil {
			in.giveUp(s.Pos(), "labelled branch")
		}
		switch s.Tok {
		case token.BREAK:
			return []outcome{{kind: oBreak, st: st}}
		case token.CONTINUE:
			return []outcome{{kind: oContinue, st: st}}
		}
		in.giveUp(s.Pos(), "%s", s.Tok)
	case *ast.IfStmt:
		if s.Init != nil {
			in.stmt(fr, st, s.Init)
		}
		c := in.cond(fr, st, s.Cond)
		if st.dead {
			return nil
		}
		return in.branch(st, c, func(st *state) []outcome { return in.block(fr, st, s.Body.List) },
			func(st *state) []outcome {
				if s.Else == nil {
					return next(st)
				}
				return in.stmt(fr, st, s.Else)
			})
	case *ast.SwitchStmt:
		return in.switchStmt(fr, st, s)
	case *ast.TypeSwitchStmt:
		return in.typeSwitch(fr, st, s)
	case *ast.RangeStmt:
		in.widen(st)
		return in.rangeStmt(fr, st, s)
	case *ast.ForStmt:
		in.widen(st)
		return in.forStmt(fr, st, s)
	case *ast.LabeledStmt:
		return in.stackLoop(fr, st, s)
	}
	in.giveUp(s.Pos(), "statement %T", s)
	return nil
}

func (in *Interp) branch(st *state, c *F, a, b func(st *state) []outcome) []outcome {
	switch in.decide(st, c) {
	case 1:
		return a(st)
	case -1:
		return b(st)
	}
	sa, sb := st.clone(), st.clone()
	sa.assume(c)
	sb.assume(fNot(c))
	return append(a(sa), b(sb)...)
}

func (in *Interp) switchStmt(fr *frame, st *state, s *ast.SwitchStmt) []outcome {
	if s.Init != nil {
		in.stmt(fr, st, s.Init)
	}
	var tag Val
	if s.Tag != nil {
		tag = in.eval(fr, st, s.Tag)
	}
	var out []outcome
	var def *ast.CaseClause
	cur := st
	breaks := func(os []outcome) []outcome {
		for i := range os {
			if os[i].kind == oBreak {
				os[i].kind = oNext
			}
		}
		return os
	}
	for _, cs := range s.Body.List {
		cc := cs.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		if cur == nil {
			continue
		}
		var fs []*F
		for _, e := range cc.List {
			if tag != nil {
				fs = append(fs, in.compare(cur, token.EQL, tag, in.eval(fr, cur, e)))
			} else {
				fs = append(fs, in.cond(fr, cur, e))
			}
		}
		c := fOr(fs...)
		for _, b := range cc.Body {
			if br, ok := b.(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
				in.giveUp(b.Pos(), "fallthrough")
			}
		}
		switch in.decide(cur, c) {
		case 1:
			return append(out, breaks(in.block(fr, cur, cc.Body))...)
		case -1:
			continue
		}
		sa := cur.clone()
		sa.assume(c)
		out = append(out, breaks(in.block(fr, sa, cc.Body))...)
		cur = cur.clone()
		cur.assume(fNot(c))
	}
	if def != nil {
		return append(out, breaks(in.block(fr, cur, def.Body))...)
	}
	return append(out, outcome{kind: oNext, st: cur})
}

func (in *Interp) typeSwitch(fr *frame, st *state, s *ast.TypeSwitchStmt) []outcome {
	if s.Init != nil {
		in.stmt(fr, st, s.Init)
	}
	var x ast.Expr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		x = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		x = a.Rhs[0].(*ast.TypeAssertExpr).X
	}
	v := in.eval(fr, st, x)
	return in.typeSwitchOn(fr, st, s, v)
}

func (in *Interp) typeSwitchOn(fr *frame, st *state, s *ast.TypeSwitchStmt, v Val) []outcome {
	if c, ok := v.(*VCond); ok {
		return in.branch(st, c.c, func(st *state) []outcome { return in.typeSwitchOn(fr, st, s, c.a) },
			func(st *state) []outcome { return in.typeSwitchOn(fr, st, s, c.b) })
	}
	var out []outcome
	cur := st
	run := func(st *state, cc *ast.CaseClause, v Val) {
		if o := fr.info.Implicits[cc]; o != nil {
			st.locs[in.locOf(fr, o)] = v
		}
		os := in.block(fr, st, cc.Body)
		for i := range os {
			if os[i].kind == oBreak {
				os[i].kind = oNext
			}
		}
		out = append(out, os...)
	}
	var def *ast.CaseClause
	for _, cs := range s.Body.List {
		cc := cs.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		if cur == nil {
			continue
		}
		var fs []*F
		var single types.Type
		for _, e := range cc.List {
			t := in.typeOf(fr, e)
			fs = append(fs, in.isType(cur, v, t))
			single = t
		}
		c := fOr(fs...)
		nv := v
		if len(cc.List) == 1 {
			nv = retype(v, single)
		}
		switch in.decide(cur, c) {
		case 1:
			run(cur, cc, nv)
			cur = nil
			continue
		case -1:
			continue
		}
		sa := cur.clone()
		sa.assume(c)
		run(sa, cc, nv)
		cur = cur.clone()
		cur.assume(fNot(c))
	}
	if cur != nil {
		if def != nil {
			run(cur, def, v)
		} else {
			out = append(out, outcome{kind: oNext, st: cur})
		}
	}
	return out
}

func retype(v Val, t types.Type) Val {
	switch x := v.(type) {
	case VSym:
		x.typ = t
		return x
	case *VExpr:
		n := *x
		n.typ = t
		return &n
	}
	return v
}

// isType is the condition under which v's dynamic type is t.
func (in *Interp) isType(st *state, v Val, t types.Type) *F {
	if t == types.Typ[types.UntypedNil] {
		return in.compare(st, token.EQL, v, VNil{})
	}
	if _, ok := v.(VNil); ok {
		return fFalse
	}
	dt := dynType(v)
	if dt != nil {
		if it, ok := t.Underlying().(*types.Interface); ok {
			if types.Implements(dt, it) {
				return fTrue
			}
			return fFalse
		}
		if types.Identical(dt, t) {
			return fTrue
		}
		return fFalse
	}
	if c, ok := v.(*VCond); ok {
		return fOr(fAnd(c.c, in.isType(st, c.a, t)), fAnd(fNot(c.c), in.isType(st, c.b, t)))
	}
	st0 := dynTypeLoose(v)
	if st0 != nil {
		if it, ok := st0.Underlying().(*types.Interface); ok && !types.IsInterface(t) && !types.Implements(t, it) {
			return fFalse
		}
	}
	return fAtom("type("+v.key()+")", typeName(t))
}

func dynType(v Val) types.Type {
	switch x := v.(type) {
	case *VStruct:
		return x.typ
	case VConst:
		return x.typ
	case *VList:
		return x.typ
	case VPtr:
		if x.typ != nil {
			return types.NewPointer(x.typ)
		}
	case VSym:
		if x.typ != nil && !types.IsInterface(x.typ) {
			return x.typ
		}
	case *VExpr:
		if x.typ != nil && !types.IsInterface(x.typ) {
			return x.typ
		}
	case VF:
		return types.Typ[types.Bool]
	}
	return nil
}

// ---- assignment -----------------------------------------------------------------------

func (in *Interp) assignStmt(fr *frame, st *state, s *ast.AssignStmt) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
			token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM,
			token.AND_NOT_ASSIGN: token.AND_NOT, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR}[s.Tok]
		if op == 0 {
			in.giveUp(s.Pos(), "assignment %s", s.Tok)
		}
		old := in.eval(fr, st, s.Lhs[0])
		v := in.eval(fr, st, s.Rhs[0])
		in.assign(fr, st, s.Lhs[0], in.binary(st, op, old, v, in.typeOf(fr, s.Lhs[0])))
		return
	}
	var vals []Val
	if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
		vals = in.evalMulti(fr, st, s.Rhs[0])
		if len(vals) != len(s.Lhs) {
			in.giveUp(s.Pos(), "%d values assigned to %d variables", len(vals), len(s.Lhs))
		}
	} else {
		for _, r := range s.Rhs {
			vals = append(vals, in.eval(fr, st, r))
		}
	}
	for i, l := range s.Lhs {
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				continue
			}
			if s.Tok == token.DEFINE && fr.info.Defs[id] != nil {
				in.bind(fr, st, id, vals[i])
				continue
			}
		}
		in.assign(fr, st, l, vals[i])
	}
}

// assign stores v in the place that e denotes.
func (in *Interp) assign(fr *frame, st *state, e ast.Expr, v Val) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		in.assign(fr, st, x.X, v)
		return
	case *ast.IndexExpr:
		in.assignIndex(fr, st, x, v)
		return
	}
	if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
		return
	}
	if se, ok := e.(*ast.SelectorExpr); ok && in.counter != nil {
		if sel := fr.info.Selections[se]; sel != nil && sel.Obj() == in.counter {
			// the number of allocations is changed by other means than an allocation
			if x, ok := v.(*VExpr); ok && x.op == "-" && same(x.args[0], in.nalloc(st)) {
				if n, ok := constNum(x.args[1]); ok && n == 1 {
					in.event(st, "alloc", mkExpr("unalloc", nil))
					return
				}
			}
			in.event(st, "alloc", mkExpr("setcounter", nil, v))
			return
		}
	}
	if se, ok := e.(*ast.SelectorExpr); ok && in.assignElemField(fr, st, se, v) {
		return
	}
	pv := in.place(fr, st, e)
	in.store(st, pv, v, e.Pos())
}

// assignElemField stores v in a field of an element of a list of structs; which of the
// elements it is is left open.
func (in *Interp) assignElemField(fr *frame, st *state, e *ast.SelectorExpr, v Val) bool {
	x, ok := ast.Unparen(e.X).(*ast.IndexExpr)
	if !ok || fr.info.Selections[e] == nil || len(fr.info.Selections[e].Index()) != 1 {
		return false
	}
	if _, ok := in.typeOf(fr, x).Underlying().(*types.Struct); !ok {
		return false
	}
	l, ok := in.eval(fr, st, x.X).(*VList)
	if !ok {
		return false
	}
	at := fAtom("call:at("+l.key()+")", in.eval(fr, st, x.Index).key())
	var set func(v Val) Val
	set = func(o Val) Val {
		if c, ok := o.(*VCond); ok {
			return mkCond(c.c, set(c.a), set(c.b))
		}
		return mkCond(at, setPath(o, []string{e.Sel.Name}, v), o)
	}
	var items func(l []Item) []Item
	items = func(l []Item) []Item {
		var out []Item
		for _, it := range l {
			switch it.kind {
			case 'e':
				it.val = set(it.val)
			case 'r':
				it.items = items(it.items)
			default:
				in.giveUp(e.Pos(), "a field of an element of %s", short(&VList{items: l}, 60))
			}
			out = append(out, it)
		}
		return out
	}
	in.assign(fr, st, x.X, &VList{items: items(l.items), typ: l.typ, size: l.size})
	return true
}

func (in *Interp) nalloc(st *state) Val {
	return mkExpr("nalloc", types.Typ[types.Int], orNil(st.locs["ghost:alloc"]))
}

// place evaluates the address of e.
func (in *Interp) place(fr *frame, st *state, e ast.Expr) Val {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return in.place(fr, st, x.X)
	case *ast.Ident:
		o := fr.info.ObjectOf(x)
		if l, ok := in.lookup(fr, st, o); ok {
			return VPtr{loc: l, typ: o.Type()}
		}
		if v, ok := o.(*types.Var); ok && v.Parent() == v.Pkg().Scope() {
			return VPtr{loc: "global:" + v.Pkg().Name() + "." + v.Name(), typ: v.Type()}
		}
		in.giveUp(e.Pos(), "variable %s", x.Name)
	case *ast.StarExpr:
		return in.eval(fr, st, x.X)
	case *ast.SelectorExpr:
		sel := fr.info.Selections[x]
		if sel == nil { // pkg.Var
			if v, ok := fr.info.Uses[x.Sel].(*types.Var); ok {
				return VPtr{loc: "global:" + v.Pkg().Name() + "." + v.Name(), typ: v.Type()}
			}
			in.giveUp(e.Pos(), "selector")
		}
		var base Val
		bt := in.typeOf(fr, x.X)
		if _, isPtr := bt.Underlying().(*types.Pointer); isPtr {
			base = in.eval(fr, st, x.X)
		} else {
			base = in.place(fr, st, x.X)
		}
		names, typs := selPath(sel)
		for i, n := range names {
			base = in.fieldPtr(st, base, n, typs[i], e.Pos())
			if i+1 < len(names) {
				if _, isPtr := typs[i].Underlying().(*types.Pointer); isPtr {
					base = in.load(st, base, e.Pos())
				}
			}
		}
		return base
	case *ast.CompositeLit:
		return in.eval(fr, st, &ast.UnaryExpr{Op: token.AND, X: x})
	case *ast.IndexExpr:
		v := in.eval(fr, st, e)
		if s, ok := v.(VSym); ok {
			return VSym{s.path, types.NewPointer(s.typ)}
		}
	}
	in.giveUp(e.Pos(), "place of %T", e)
	return nil
}

func (in *Interp) fieldPtr(st *state, p Val, name string, ft types.Type, pos token.Pos) Val {
	switch x := p.(type) {
	case VPtr:
		return VPtr{loc: x.loc, path: append(append([]string{}, x.path...), name), typ: ft}
	case VSym:
		return VSym{x.path + "." + name, types.NewPointer(ft)}
	case *VCond:
		return mkCond(x.c, in.fieldPtr(st, x.a, name, ft, pos), in.fieldPtr(st, x.b, name, ft, pos))
	case VNil:
		return x
	}
	in.giveUp(pos, "field %s of %s", name, short(p, 80))
	return nil
}

func (in *Interp) load(st *state, p Val, pos token.Pos) Val {
	switch x := p.(type) {
	case VPtr:
		v, ok := st.locs[x.loc]
		if !ok {
			if strings.HasPrefix(x.loc, "global:") {
				return VSym{"@" + x.loc, x.typ}
			}
			return zeroVal(x.typ)
		}
		for _, n := range x.path {
			v = selectField(v, n, fieldTypeOfVal(v, n))
		}
		return in.fixed(v)
	case VSym:
		t := x.typ
		if t != nil {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
		}
		if ov, ok := st.locs["sym:"+x.path]; ok {
			return ov
		}
		return in.fixed(VSym{x.path, t})
	case *VCond:
		return mkCond(x.c, in.load(st, x.a, pos), in.load(st, x.b, pos))
	case *VExpr:
		t := x.typ
		if t != nil {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
		}
		return mkExpr("*", t, x)
	}
	return mkExpr("*", nil, p)
}

func fieldTypeOfVal(v Val, name string) types.Type {
	switch x := v.(type) {
	case *VStruct:
		return fieldType(x.typ, name)
	case VSym:
		return fieldType(x.typ, name)
	case *VExpr:
		return fieldType(x.typ, name)
	case *VCond:
		return fieldTypeOfVal(x.a, name)
	}
	return nil
}

// fixed replaces an input by the value that the configuration fixes for it.
func (in *Interp) fixed(v Val) Val {
	if s, ok := v.(VSym); ok {
		if o, ok := in.over[s.path]; ok {
			return o
		}
	}
	return v
}

func (in *Interp) store(st *state, p, v Val, pos token.Pos) {
	switch x := p.(type) {
	case VPtr:
		st.locs[x.loc] = setPath(orZero(st.locs[x.loc], x), x.path, v)
		return
	case VSym:
		// the input itself is changed
		st.locs["sym:"+x.path] = v
		in.event(st, "mutation", mkStr(x.path))
		return
	case *VCond:
		in.fork(st, x.c, func(s *state) []Val { in.store(s, x.a, v, pos); return nil },
			func(s *state) []Val { in.store(s, x.b, v, pos); return nil })
		return
	case VNil:
		st.dead = true
		return
	}
	in.giveUp(pos, "store to %s", short(p, 80))
}

func orZero(v Val, p VPtr) Val {
	if v == nil {
		if len(p.path) == 0 {
			return zeroVal(p.typ)
		}
		return &VStruct{fields: map[string]Val{}}
	}
	return v
}

func splitPath(p string) []string {
	if p == "" {
		return nil
	}
	return strings.Split(p, ".")
}

func getPath(v Val, path string) Val {
	for _, n := range splitPath(path) {
		if v == nil {
			return nil
		}
		v = selectField(v, n, fieldTypeOfVal(v, n))
	}
	return v
}

func setPath(v Val, path []string, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case *VStruct:
		n := &VStruct{typ: x.typ, fields: map[string]Val{}, base: x.base}
		for k, f := range x.fields {
			n.fields[k] = f
		}
		n.fields[path[0]] = setPath(vfield(x, path[0]), path[1:], nv)
		return n
	case *VCond:
		return mkCond(x.c, setPath(x.a, path, nv), setPath(x.b, path, nv))
	case VSym:
		n := &VStruct{typ: x.typ, fields: map[string]Val{}, base: x}
		n.fields[path[0]] = setPath(selectField(x, path[0], fieldType(x.typ, path[0])), path[1:], nv)
		return n
	case *VExpr:
		n := &VStruct{typ: x.typ, fields: map[string]Val{}, base: x}
		n.fields[path[0]] = setPath(selectField(x, path[0], fieldType(x.typ, path[0])), path[1:], nv)
		return n
	case VAcc:
		n := &VStruct{typ: x.typ, fields: map[string]Val{}, base: x}
		n.fields[path[0]] = setPath(mkExpr("."+path[0], fieldType(x.typ, path[0]), x), path[1:], nv)
		return n
	}
	panic(undecided{"field " + path[0] + " of " + short(v, 60)})
}

func (in *Interp) event(st *state, name string, v Val) {
	l, _ := st.locs["ghost:"+name].(*VList)
	var items []Item
	if l != nil {
		items = l.items
	}
	st.locs["ghost:"+name] = &VList{items: append(append([]Item{}, items...), Item{guard: fTrue, kind: 'e', val: v})}
}

func (in *Interp) assignIndex(fr *frame, st *state, x *ast.IndexExpr, v Val) {
	xt := in.typeOf(fr, x.X)
	idx := in.eval(fr, st, x.Index)
	old := in.eval(fr, st, x.X)
	switch xt.Underlying().(type) {
	case *types.Map:
		m, _ := old.(*VMap)
		if m == nil {
			if p, ok := old.(VPtr); ok {
				mv, _ := st.locs[p.loc].(*VMap)
				m = mv
			}
		}
		if p, ok := old.(VPtr); ok && m != nil {
			n := &VMap{typ: m.typ, id: m.id, base: m.base}
			for _, e := range m.ents {
				if e.key.key() != idx.key() {
					n.ents = append(n.ents, e)
				}
			}
			n.ents = append(n.ents, mapEnt{fTrue, idx, v})
			st.locs[p.loc] = n
			return
		}
		if g, ok := old.(VSym); ok && in.elems && strings.HasPrefix(g.path, "@") {
			// a map of the package: what is stored is remembered, and not read again
			in.event(st, "stored", content(st, mkExpr("store "+g.path, nil, idx, v), nil))
			return
		}
		in.giveUp(x.Pos(), "map store to %T %s", old, short(old, 80))
	case *types.Slice, *types.Array:
		l, ok := old.(*VList)
		if !ok {
			if _, isAcc := old.(VAcc); !isAcc {
				in.giveUp(x.Pos(), "element store to %s", short(old, 60))
			}
		}
		add := func(it Item) {
			n := &VList{items: append(append([]Item{}, l.items...), it), typ: l.typ, size: l.size}
			in.assign(fr, st, x.X, n)
		}
		if e, ok := idx.(*VExpr); ok && e.op == "idx" && l.size != nil {
			// the loop fills the list element by element
			add(Item{guard: fTrue, kind: 'e', val: v})
			return
		}
		if n, ok := constNum(idx); ok {
			if known, plain := plainItems(l); plain && int(n) < len(known) {
				items := append([]Item{}, l.items...)
				items[n] = Item{guard: fTrue, kind: 'e', val: v}
				in.assign(fr, st, x.X, &VList{items: items, typ: l.typ, size: l.size})
				return
			} else if plain && int(n) == len(known) && l.size != nil {
				add(Item{guard: fTrue, kind: 'e', val: v})
				return
			}
			if bt, ok := in.swapTarget(l, int(n)); ok {
				items := append([]Item{}, l.items...)
				items[bt].val = v
				in.assign(fr, st, x.X, &VList{items: items, typ: l.typ, size: l.size})
				return
			}
		}
		if e, ok := idx.(*VExpr); ok && e.op == "-" && len(e.args) == 2 && l.size != nil {
			if n, ok := constNum(e.args[1]); ok && n == 1 {
				// x[len(x)-1] of a list that was filled up to there
				add(Item{guard: fTrue, kind: 'e', val: v})
				return
			}
		}
		if l.size != nil {
			// x[n] where n is the number of elements filled so far
			add(Item{guard: fTrue, kind: 'e', val: mkExpr("at", nil, idx, v)})
			return
		}
		in.giveUp(x.Pos(), "element store at %s", short(idx, 60))
	default:
		in.giveUp(x.Pos(), "index store")
	}
}

func (in *Interp) swapTarget(l *VList, n int) (int, bool) {
	for i := range l.items {
		if l.items[i].kind != 'e' || l.items[i].guard != fTrue {
			return 0, false
		}
		if i == n {
			return i, true
		}
	}
	return 0, false
}

// plainItems returns the elements of a list that consists of known elements only.
func plainItems(l *VList) ([]Val, bool) {
	var out []Val
	for _, it := range l.items {
		if it.kind != 'e' || it.guard != fTrue {
			return out, false
		}
		out = append(out, it.val)
	}
	return out, true
}

func selPath(sel *types.Selection) (names []string, typs []types.Type) {
	t := sel.Recv()
	index := sel.Index()
	if sel.Kind() != types.FieldVal {
		index = index[:len(index)-1]
	}
	for _, i := range index {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			break
		}
		f := st.Field(i)
		names = append(names, f.Name())
		typs = append(typs, f.Type())
		t = f.Type()
	}
	return names, typs
}

// ---- loops ----------------------------------------------------------------------------

func (in *Interp) rangeStmt(fr *frame, st *state, s *ast.RangeStmt) []outcome {
	x := in.eval(fr, st, s.X)
	bindVar := func(e ast.Expr, st *state, v Val) {
		if e == nil {
			return
		}
		if id, ok := e.(*ast.Ident); ok {
			if id.Name == "_" {
				return
			}
			if s.Tok == token.DEFINE {
				in.bind(fr, st, id, v)
				return
			}
		}
		in.assign(fr, st, e, v)
	}
	return in.iterate(fr, st, x, s.X.Pos(), nil, func(st *state, idx, elem Val) []outcome {
		bindVar(s.Key, st, idx)
		bindVar(s.Value, st, elem)
		return in.block(fr, st, s.Body.List)
	})
}

// forStmt recognises loops that go over the elements of something by index.
func (in *Interp) forStmt(fr *frame, st *state, s *ast.ForStmt) []outcome {
	bad := func(why string) { in.giveUp(s.Pos(), "for loop (%s)", why) }
	init, ok := s.Init.(*ast.AssignStmt)
	if !ok || init.Tok != token.DEFINE || len(init.Lhs) != 1 {
		bad("init")
	}
	id, _ := init.Lhs[0].(*ast.Ident)
	start := in.eval(fr, st, init.Rhs[0])
	from, ok := constNum(start)
	if !ok || from < 0 {
		bad("start")
	}
	post, ok := s.Post.(*ast.IncDecStmt)
	if !ok || post.Tok != token.INC {
		bad("post")
	}
	c, ok := s.Cond.(*ast.BinaryExpr)
	if !ok || (c.Op != token.LSS && c.Op != token.NEQ) {
		bad("condition")
	}
	if ci, ok := c.X.(*ast.Ident); !ok || id == nil || ci.Name != id.Name {
		bad("condition")
	}
	bound := in.eval(fr, st, c.Y)
	var over Val
	if e, ok := bound.(*VExpr); ok && e.op == "len" {
		over = e.args[0]
	} else if n, ok := constNum(bound); ok && n < 64 {
		l := &VList{}
		for i := int64(0); i < n; i++ {
			l.items = append(l.items, Item{guard: fTrue, kind: 'e', val: mkInt(i)})
		}
		over = l
	} else {
		over = mkExpr("upto", nil, bound)
	}
	if from > 0 {
		if l, ok := over.(*VList); ok {
			if vals, plain := plainItems(l); plain {
				over = &VList{items: l.items[min(int(from), len(vals)):], typ: l.typ}
			} else {
				over = mkExpr("slice", l.typ, l, start, VNil{})
			}
		} else {
			over = mkExpr("slice", dynTypeLoose(over), over, start, VNil{})
		}
	}
	return in.iterate(fr, st, over, s.Pos(), fr.info.Defs[id], func(st *state, idx, elem Val) []outcome {
		if from > 0 {
			idx = in.binary(st, token.ADD, idx, start, types.Typ[types.Int])
		}
		in.bind(fr, st, id, idx)
		return in.block(fr, st, s.Body.List)
	})
}

// iterate evaluates a loop body over the elements of x.
func (in *Interp) iterate(fr *frame, st *state, x Val, pos token.Pos, idxObj types.Object, body func(st *state, idx, elem Val) []outcome) []outcome {
	switch v := x.(type) {
	case *VCond:
		return in.branch(st, v.c, func(st *state) []outcome { return in.iterate(fr, st, v.a, pos, idxObj, body) },
			func(st *state) []outcome { return in.iterate(fr, st, v.b, pos, idxObj, body) })
	case VNil:
		return next(st)
	case VConst:
		if n, ok := constNum(v); ok && n < 64 { // range over an integer
			l := &VList{}
			for i := int64(0); i < n; i++ {
				l.items = append(l.items, Item{guard: fTrue, kind: 'e', val: mkInt(i)})
			}
			return in.iterate(fr, st, l, pos, idxObj, body)
		}
	case *VList:
		return in.iterateList(fr, st, v, pos, body)
	case VPtr:
		if m, ok := st.locs[v.loc].(*VMap); ok {
			return in.iterate(fr, st, m, pos, idxObj, body)
		}
	case *VMap:
		if v.base != nil {
			in.giveUp(pos, "range over a map that a loop fills")
		}
		l := &VList{}
		for _, e := range v.ents {
			l.items = append(l.items, Item{guard: e.guard, kind: 'e', val: e.val})
		}
		return in.iterateList(fr, st, l, pos, func(st *state, idx, elem Val) []outcome {
			return body(st, mkExpr("mapkey", nil, elem), elem)
		})
	}
	var et types.Type
	if t := dynTypeLoose(x); t != nil {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Array:
			et = u.Elem()
		case *types.Map:
			et = u.Elem()
		}
	}
	if in.elems {
		// the element of a loop is not the one of a loop around it over the same list
		for _, l := range in.loops {
			if l.src == x.key() {
				x = mkExpr("again", dynTypeLoose(x), x)
			}
		}
	}
	elem := VSym{x.key() + "[*]", et}
	return in.generic(fr, st, x, elem, in.idxOf(x), body)
}

func dynTypeLoose(v Val) types.Type {
	switch x := v.(type) {
	case VSym:
		return x.typ
	case *VExpr:
		return x.typ
	}
	return dynType(v)
}

// idxOf is the index of the current element of the list or input v.
func (in *Interp) idxOf(v Val) *VExpr {
	// a list with one element per element of another: the same position
	for {
		l, ok := v.(*VList)
		if !ok || len(l.items) != 1 || l.items[0].kind != 'r' || l.items[0].guard != fTrue || len(l.items[0].items) != 1 ||
			l.items[0].items[0].kind != 'e' || l.items[0].items[0].guard != fTrue {
			break
		}
		v = l.items[0].src
	}
	k := v.key()
	n, ok := in.idxNo[k]
	if !ok {
		n = len(in.idxVals)
		in.idxNo[k] = n
		in.idxVals = append(in.idxVals, v)
	}
	return &VExpr{op: "idx", typ: types.Typ[types.Int], args: []Val{mkInt(int64(n))}}
}

// idxList is what e is the index of, if e is an index.
func (in *Interp) idxList(e *VExpr) Val {
	if e.op != "idx" || len(e.args) != 1 {
		return nil
	}
	n, ok := constNum(e.args[0])
	if !ok || int(n) >= len(in.idxVals) {
		return nil
	}
	return in.idxVals[n]
}

// iterateList evaluates the body for every part of a known list.
func (in *Interp) iterateList(fr *frame, st *state, l *VList, pos token.Pos, body func(st *state, idx, elem Val) []outcome) []outcome {
	_, plain := plainItems(l)
	if in.elems && !plain {
		do := body
		body = func(st *state, idx, elem Val) []outcome {
			k := idx.key() + l.key()
			if in.current == nil {
				in.current = map[string]Val{}
			}
			was := in.current[k]
			in.current[k] = elem
			defer func() { in.current[k] = was }()
			return do(st, idx, elem)
		}
	}
	var done []outcome
	cur := st
	after := func(outs []outcome) *state {
		var nx []*state
		for _, o := range outs {
			if o.st.dead {
				continue
			}
			switch o.kind {
			case oNext, oContinue:
				nx = append(nx, o.st)
			case oBreak:
				o.kind = oNext
				done = append(done, o)
			default:
				done = append(done, o)
			}
		}
		if len(nx) == 0 {
			return nil
		}
		return in.join(nx)
	}
	for i, it := range l.items {
		if cur == nil {
			break
		}
		var idx Val = mkInt(int64(i))
		if !plain {
			idx = in.idxOf(l)
		}
		outs := in.iterateItem(fr, cur, it, idx, body)
		cur = after(outs)
	}
	if cur != nil {
		done = append(done, outcome{kind: oNext, st: cur})
	}
	return done
}

func (in *Interp) iterateItem(fr *frame, st *state, it Item, idx Val, body func(st *state, idx, elem Val) []outcome) []outcome {
	return in.branch(st, it.guard, func(st *state) []outcome {
		switch it.kind {
		case 'e':
			return body(st, idx, it.val)
		case 'r':
			return in.genericOver(fr, st, it.src, idx, func(st *state) []outcome {
				var done []outcome
				cur := []*state{st}
				for _, sub := range it.items {
					m := in.join(cur)
					cur = nil
					for _, o := range in.iterateItem(fr, m, sub, idx, body) {
						if o.kind == oNext || o.kind == oContinue {
							cur = append(cur, o.st)
						} else {
							done = append(done, o)
						}
					}
					if len(cur) == 0 {
						return done
					}
				}
				return append(done, outcome{kind: oNext, st: in.join(cur)})
			})
		case 'a':
			in.giveUp(token.NoPos, "loop over a list that the enclosing loop builds")
		}
		var et types.Type
		elem := VSym{it.val.key() + "[*]", et}
		return in.generic(fr, st, it.val, elem, idx, body)
	}, next)
}

func (in *Interp) generic(fr *frame, st *state, src Val, elem, idx Val, body func(st *state, idx, elem Val) []outcome) []outcome {
	return in.genericOver(fr, st, src, idx, func(st *state) []outcome { return body(st, idx, elem) })
}

// genericOver evaluates the body once for the generic element of src. What the body does
// to a location is found by giving the location a placeholder at the start.
func (in *Interp) genericOver(fr *frame, st *state, src Val, idx Val, body func(st *state) []outcome) []outcome {
	skey := src.key()
	changed := map[string]leafRef{}
	accs := map[string]*accInfo{}
	for pass := 0; ; pass++ {
		s0 := st.clone()
		for k, l := range changed {
			old := getPath(s0.locs[l.loc], l.path)
			if c, ok := old.(*VCond); ok && in.elems {
				if old = in.resolve(st, c); old != Val(c) {
					st.locs[l.loc] = setPath(st.locs[l.loc], splitPath(l.path), old)
				}
			}
			var a Val
			if lst, ok := old.(*VList); ok {
				it := Item{guard: fTrue, kind: 'a', elem: k}
				if in.elems && lst.typ != nil {
					name := l.path + "/" + in.accLoc(st, l.loc, changed)
					only := true // the only list of its type needs no name
					for k2, l2 := range changed {
						if x, ok := getPath(s0.locs[l2.loc], l2.path).(*VList); ok && k2 != k && x.typ != nil && types.Identical(x.typ, lst.typ) {
							only = false
						}
					}
					if only {
						name = types.TypeString(lst.typ, nil)
					}
					it.val = VSym{"acc:" + skey + "/" + name, lst.typ}
				}
				a = &VList{items: []Item{it}, typ: lst.typ, size: lst.size}
			} else if m, ok := old.(*VMap); ok {
				id := skey + "/" + l.path + "/" + in.accLoc(st, l.loc, changed)
				info := &accInfo{src: skey, init: m}
				accs[k] = info
				in.accs["acc:"+id] = append(in.accs["acc:"+id], info)
				a = &VMap{typ: m.typ, id: m.id, base: VAcc{id: id, typ: m.typ, info: info}}
			} else {
				if accs[k] == nil {
					accs[k] = &accInfo{src: skey, init: orNil(old)}
					in.accs["acc:"+skey+"/"+l.path+"/"+in.accLoc(st, l.loc, changed)] = append(in.accs["acc:"+skey+"/"+l.path+"/"+in.accLoc(st, l.loc, changed)], accs[k])
				}
				a = VAcc{id: skey + "/" + l.path + "/" + in.accLoc(st, l.loc, changed), typ: dynTypeLoose(orNil(old)), info: accs[k]}
			}
			s0.locs[l.loc] = setPath(s0.locs[l.loc], splitPath(l.path), a)
		}
		s0.assume(fNot(fAtom("len("+skey+")", "0")))
		in.loops = append(in.loops, &loopCtx{src: skey, fr: fr})
		outs := body(s0.clone())
		in.loops = in.loops[:len(in.loops)-1]

		var nx, on, rets []*state
		var done []outcome
		whole := fTrue // the loop has not been left before
		type leave struct{ c, no *F }
		var leaves []leave
		// unless is c together with what keeps the loop going up to the element; a break of
		// an element that satisfies c cannot come before the first element that does.
		unless := func(c *F) *F {
			for _, l := range leaves {
				if !fImplies(fAnd(in.axiom(), l.c), c) {
					c = fAnd(c, l.no)
				}
			}
			return c
		}
		for _, o := range outs {
			if o.st.dead {
				continue
			}
			switch o.kind {
			case oBreak:
				c := fAnd(o.st.pc[min(len(s0.pc), len(o.st.pc)):]...)
				no := fNot(in.broken(st, skey, c))
				whole = fAnd(whole, no)
				leaves = append(leaves, leave{c, no})
				nx = append(nx, o.st)
			case oReturn:
				done = append(done, o)
				rets = append(rets, o.st)
			default:
				nx = append(nx, o.st)
				on = append(on, o.st)
			}
		}
		if len(nx) == 0 && len(done) == 0 {
			return nil
		}
		var s1 *state
		if len(nx) > 0 {
			s1 = in.join(nx)
		} else {
			s1 = s0.clone()
		}
		grew := false
		for _, l := range diffState(s0, s1) {
			k := l.loc + "/" + l.path
			if _, ok := st.locs[l.loc]; !ok && !strings.HasPrefix(l.loc, "ghost:") && !strings.HasPrefix(l.loc, "sym:") {
				continue
			}
			if _, ok := changed[k]; !ok {
				// a location within or around one that is already known
				for k2, l2 := range changed {
					if l2.loc == l.loc && strings.HasPrefix(l2.path, l.path) && (l.path == "" || len(l2.path) == len(l.path) || l2.path[len(l.path)] == '.') {
						delete(changed, k2)
					}
				}
				inside := false
				for _, l2 := range changed {
					if l2.loc == l.loc && (l2.path == "" || strings.HasPrefix(l.path, l2.path+".")) {
						inside = true
					}
				}
				if !inside {
					changed[k] = l
					grew = true
				}
			}
		}
		if grew && pass < 8 {
			continue
		}
		// build the state after the loop
		res := st.clone()
		for k, v := range s1.locs { // heap objects allocated in the body
			if _, ok := res.locs[k]; !ok && strings.HasPrefix(k, "heap:") {
				res.locs[k] = v
			}
		}
		for k, l := range changed {
			old := orNil(getPath(st.locs[l.loc], l.path))
			nv := orNil(getPath(s1.locs[l.loc], l.path))
			if _, ok := st.locs[l.loc]; !ok {
				old = VNil{}
				if strings.HasPrefix(l.loc, "ghost:") {
					old = &VList{}
				}
			}
			if c, ok := nv.(*VCond); ok && in.elems {
				nv = in.twoLeaves(s0, c, func(v Val) bool { return in.isAcc(st, v, skey, l, changed) })
			}
			if a := accs[k]; a != nil {
				a.step = nv
			}
			var out Val
			if nl, ok := nv.(*VList); ok && len(nl.items) > 0 && nl.items[0].kind == 'a' && nl.items[0].elem == k {
				ol, ok := old.(*VList)
				if !ok {
					ol = &VList{typ: nl.typ}
				}
				its := append([]Item{}, nl.items[1:]...)
				for i := range its {
					its[i].guard = fAnd(its[i].guard, whole)
				}
				out = &VList{items: append(append([]Item{}, ol.items...), Item{guard: fTrue, kind: 'r', src: src, elem: skey + "[*]", items: its}), typ: nl.typ, size: ol.size}
			} else if c, ok := nv.(*VCond); ok && in.isAcc(st, c.b, skey, l, changed) && !hasAcc(c.a) {
				out = mkCond(in.some(skey, fAnd(unless(c.c), in.lastOf(s0, s1, on, skey, l, c.a))), c.a, old)
			} else if c, ok := nv.(*VCond); ok && in.isAcc(st, c.a, skey, l, changed) && !hasAcc(c.b) {
				out = mkCond(in.some(skey, fAnd(unless(fNot(c.c)), in.lastOf(s0, s1, on, skey, l, c.b))), c.b, old)
			} else if m, ok := nv.(*VMap); ok && in.fillsMap(skey, old, m, whole) {
				out = &VMap{typ: m.typ, id: m.id, base: mkExpr("fill", m.typ, src, old, nv)}
			} else if m, ok := nv.(*VMap); ok {
				out = &VMap{typ: m.typ, id: m.id, base: mkExpr("fold", m.typ, src, old, nv)}
			} else if f, ok := nv.(VF); ok {
				out = in.loopBool(f.f, old, skey, skey+"/"+l.path+"/"+in.accLoc(st, l.loc, changed), unless)
			} else {
				out = in.foldOf(st, src, old, nv, whole)
			}
			base := res.locs[l.loc]
			if base == nil && l.path == "" {
				res.locs[l.loc] = out
			} else {
				res.locs[l.loc] = setPath(base, splitPath(l.path), out)
			}
		}
		returnConds := make([]*F, len(done))
		rawDone := append([]outcome{}, done...)
		for i := range done {
			returnConds[i] = fAnd(done[i].st.pc[min(len(s0.pc), len(done[i].st.pc)):]...)
		}
		for i := range done {
			// the loop returns in an iteration whose element satisfies the condition
			c := fAnd(done[i].st.pc[min(len(st.pc), len(done[i].st.pc)):]...)
			first := whole
			if in.elems {
				// no element before it made the loop return something else
				me := in.returned(fr, done[i])
				for j := range done {
					if j != i && returnConds[j] != nil && in.returned(fr, rawDone[j]) != me {
						first = fAnd(first, fNot(in.broken(st, skey, returnConds[j])))
					}
				}
			}
			some := in.some(skey, fAnd(c, first))
			ns := done[i].st
			ns.pc = append(append([]*F{}, st.pc...), some)
			for k := range ns.locs {
				if _, ok := res.locs[k]; !ok {
					delete(ns.locs, k)
				}
			}
			for _, l := range changed {
				if v := res.locs[l.loc]; v != nil {
					ns.locs[l.loc] = v
				}
			}
			res.assume(fNot(some))
		}
		return append(done, outcome{kind: oNext, st: res})
	}
}

// accName names a location that a loop changes: objects that were allocated are numbered
// in the order of their allocation, among those that the loop changes.
func (in *Interp) accLoc(st *state, l string, changed map[string]leafRef) string {
	num := func(l string) int {
		n, err := strconv.Atoi(strings.TrimPrefix(l, "heap:"))
		if err != nil || !strings.HasPrefix(l, "heap:") {
			return -1
		}
		return n
	}
	me := num(l)
	if me < 0 {
		if in.elems && isLocal(l) {
			// the only variable that the loop changes needs no name
			n := 0
			for _, c := range changed {
				if _, before := st.locs[c.loc]; before && isLocal(c.loc) {
					n++
				}
			}
			if n == 1 {
				return "local"
			}
		}
		return locName(l)
	}
	less := map[int]bool{}
	for _, c := range changed {
		if n := num(c.loc); n >= 0 && n < me {
			less[n] = true
		}
	}
	return "obj" + strconv.Itoa(len(less))
}

// isLocal reports whether the location is a variable of a function.
func isLocal(l string) bool { return len(l) > 0 && l[0] >= '0' && l[0] <= '9' }

func locName(l string) string {
	if i := strings.IndexByte(l, ':'); i >= 0 {
		l = l[i+1:]
	}
	if i := strings.IndexByte(l, '@'); i >= 0 {
		l = l[:i]
	}
	return l
}

func (in *Interp) isAcc(st *state, v Val, skey string, l leafRef, changed map[string]leafRef) bool {
	a, ok := v.(VAcc)
	return ok && a.id == skey+"/"+l.path+"/"+in.accLoc(st, l.loc, changed)
}

func hasAcc(v Val) bool {
	found := false
	walkVal(v, fTrue, func(v Val, g *F) bool {
		if _, ok := v.(VAcc); ok {
			found = true
		}
		return !found
	})
	return found
}

// loopBool is the value of a flag after a loop: "set if some element satisfies c".
func (in *Interp) loopBool(step *F, old Val, skey, acc string, unless func(*F) *F) Val {
	var0 := "acc:" + acc
	of, ok := asF(old)
	if !ok {
		return mkExpr("fold", types.Typ[types.Bool], mkStr(skey), old, VF{step})
	}
	if !step.variables()[var0] {
		return mkExpr("fold", types.Typ[types.Bool], mkStr(skey), old, VF{step})
	}
	set := step.with(var0, "")      // the accumulator is false
	keep := step.with(var0, "true") // the accumulator is true
	switch {
	case keep.op == 'T': // only ever set
		return VF{fOr(of, in.some(skey, unless(set)))}
	case set.op == 'F': // only ever reset
		return VF{fAnd(of, fNot(in.some(skey, unless(fNot(keep)))))}
	}
	return mkExpr("fold", types.Typ[types.Bool], mkStr(skey), old, VF{step})
}

func diffState(a, b *state) []leafRef {
	var out []leafRef
	var names []string
	for k := range b.locs {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		x, ok := a.locs[k]
		if !ok {
			if strings.HasPrefix(k, "ghost:") || strings.HasPrefix(k, "sym:") {
				out = append(out, leafRef{k, ""})
			}
			continue
		}
		diffVal(k, "", x, b.locs[k], &out)
	}
	return out
}

// holds reports whether a part of b is the value a.
func holds(b, a *VStruct) bool {
	found := false
	walkVal(b, fTrue, func(v Val, g *F) bool {
		if s, ok := v.(*VStruct); ok && s != b && s.key() == a.key() {
			found = true
		}
		return !found
	})
	return found
}

func diffVal(loc, path string, a, b Val, out *[]leafRef) {
	if same(a, b) {
		return
	}
	sa, ok1 := a.(*VStruct)
	sb, ok2 := b.(*VStruct)
	if ok1 && ok2 && !holds(sb, sa) {
		names := map[string]bool{}
		for n := range sa.fields {
			names[n] = true
		}
		for n := range sb.fields {
			names[n] = true
		}
		var ns []string
		for n := range names {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			p := n
			if path != "" {
				p = path + "." + n
			}
			diffVal(loc, p, orNil(vfield(sa, n)), orNil(vfield(sb, n)), out)
		}
		return
	}
	*out = append(*out, leafRef{loc, path})
}

// ---- expressions ----------------------------------------------------------------------

func (in *Interp) typeOf(fr *frame, e ast.Expr) types.Type {
	if t := fr.info.TypeOf(e); t != nil {
		return t
	}
	return types.Typ[types.Invalid]
}

func (in *Interp) cond(fr *frame, st *state, e ast.Expr) *F {
	v := in.eval(fr, st, e)
	return in.truth(v)
}

func (in *Interp) truth(v Val) *F {
	if f, ok := asF(v); ok {
		return f
	}
	switch x := v.(type) {
	case *VCond:
		return fOr(fAnd(x.c, in.truth(x.a)), fAnd(fNot(x.c), in.truth(x.b)))
	case VNil:
		return fFalse
	}
	return fBool(v.key())
}

func (in *Interp) eval(fr *frame, st *state, e ast.Expr) Val {
	vs := in.evalMulti(fr, st, e)
	if len(vs) == 0 {
		return VNil{}
	}
	return vs[0]
}

func one(v Val) []Val { return []Val{v} }

func (in *Interp) evalMulti(fr *frame, st *state, e ast.Expr) []Val {
	tv := fr.info.Types[e]
	if tv.Value != nil {
		if tv.Value.Kind() == constant.Bool {
			f, _ := asF(VConst{tv.Value, tv.Type})
			return one(VF{f})
		}
		return one(VConst{tv.Value, tv.Type})
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return in.evalMulti(fr, st, x.X)
	case *ast.BasicLit:
		return one(VConst{constant.MakeFromLiteral(x.Value, x.Kind, 0), in.typeOf(fr, e)})
	case *ast.Ident:
		return one(in.ident(fr, st, x))
	case *ast.FuncLit:
		return one(VFunc{lit: x, fr: fr, name: in.p.pos(x.Pos())})
	case *ast.CompositeLit:
		return one(in.composite(fr, st, x, in.typeOf(fr, e)))
	case *ast.SelectorExpr:
		return one(in.selector(fr, st, x))
	case *ast.StarExpr:
		return one(in.load(st, in.eval(fr, st, x.X), e.Pos()))
	case *ast.UnaryExpr:
		return in.unary(fr, st, x)
	case *ast.BinaryExpr:
		return one(in.binaryExpr(fr, st, x))
	case *ast.IndexExpr:
		return in.index(fr, st, x)
	case *ast.SliceExpr:
		v := in.eval(fr, st, x.X)
		args := []Val{v}
		for _, b := range []ast.Expr{x.Low, x.High} {
			if b != nil {
				args = append(args, in.eval(fr, st, b))
			} else {
				args = append(args, VNil{})
			}
		}
		if x.Low == nil && x.High == nil {
			return one(v)
		}
		if c, ok := ast.Unparen(orExpr(x.High, x.X)).(*ast.CallExpr); ok && in.elems && (x.Low == nil || isZero(args[1])) && len(c.Args) == 1 && in.isLen(fr, c) {
			if in.eval(fr, st, c.Args[0]).key() == v.key() {
				return one(v) // x[:len(x)]
			}
		}
		if l, ok := v.(*VList); ok {
			if vals, plain := plainItems(l); plain {
				lo, hi := int64(0), int64(len(vals))
				okLo, okHi := true, true
				if x.Low != nil {
					lo, okLo = constNum(args[1])
				}
				if x.High != nil {
					hi, okHi = constNum(args[2])
				}
				if okLo && okHi && lo <= hi && hi <= int64(len(vals)) {
					return one(&VList{items: l.items[lo:hi], typ: l.typ})
				}
			}
		}
		return one(mkExpr("slice", in.typeOf(fr, e), args...))
	case *ast.TypeAssertExpr:
		v := in.eval(fr, st, x.X)
		t := in.typeOf(fr, x.Type)
		c := in.isType(st, v, t)
		nv := v
		if types.IsInterface(t) {
			if _, isCond := v.(*VCond); !isCond && dynType(v) == nil {
				nv = retype(v, t)
			}
		} else {
			nv = in.assertVal(st, v, t)
		}
		return []Val{nv, VF{c}}
	case *ast.CallExpr:
		return in.call(fr, st, x)
	case *ast.ArrayType, *ast.MapType, *ast.FuncType, *ast.StructType, *ast.InterfaceType:
		return one(VNil{})
	}
	in.giveUp(e.Pos(), "expression %T", e)
	return nil
}

// assertVal selects what v is if its dynamic type is t.
func (in *Interp) assertVal(st *state, v Val, t types.Type) Val {
	if c, ok := v.(*VCond); ok {
		ta, tb := in.isType(st, c.a, t), in.isType(st, c.b, t)
		if ta.op == 'F' {
			return in.assertVal(st, c.b, t)
		}
		if tb.op == 'F' {
			return in.assertVal(st, c.a, t)
		}
		return mkCond(c.c, in.assertVal(st, c.a, t), in.assertVal(st, c.b, t))
	}
	if dt := dynType(v); dt != nil && !types.Identical(dt, t) {
		return zeroVal(t)
	}
	return retype(v, t)
}

func (in *Interp) ident(fr *frame, st *state, x *ast.Ident) Val {
	o := fr.info.ObjectOf(x)
	switch o := o.(type) {
	case *types.Nil:
		return VNil{}
	case *types.Func:
		return VFunc{lit: o, name: o.FullName()}
	case *types.Var:
		if l, ok := in.lookup(fr, st, o); ok {
			return in.resolve(st, st.locs[l])
		}
		if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
			return in.global(fr, st, o)
		}
	}
	if o != nil && o.Name() == "_" {
		return VNil{}
	}
	in.giveUp(x.Pos(), "identifier %s", x.Name)
	return nil
}

func (in *Interp) global(fr *frame, st *state, o *types.Var) Val {
	if v, ok := st.locs["global:"+o.Pkg().Name()+"."+o.Name()]; ok {
		return v
	}
	return VSym{"@" + o.Pkg().Name() + "." + o.Name(), o.Type()}
}

// resolve simplifies a value with what is known on the current path.
func (in *Interp) resolve(st *state, v Val) Val {
	switch x := v.(type) {
	case *VCond:
		switch in.decide(st, x.c) {
		case 1:
			return in.resolve(st, x.a)
		case -1:
			return in.resolve(st, x.b)
		}
		a, b := in.resolve(st, x.a), in.resolve(st, x.b)
		if !same(a, x.a) || !same(b, x.b) {
			return mkCond(x.c, a, b)
		}
		return v
	case VSym:
		if o, ok := in.over[x.path]; ok {
			return o
		}
		if c := in.knownConst(st, x.path, x.typ); c != nil {
			return c
		}
	case *VExpr:
		if x.typ != nil {
			if c := in.knownConst(st, x.key(), x.typ); c != nil {
				return c
			}
		}
	}
	return v
}

func (in *Interp) knownConst(st *state, key string, t types.Type) Val {
	if t == nil {
		return nil
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&(types.IsInteger|types.IsString) == 0 {
		return nil
	}
	for _, fs := range [][]*F{st.pc, in.axioms} {
		for _, f := range fs {
			if f.op == 'a' && f.v == key {
				if b.Info()&types.IsString != 0 {
					if s, err := strconv.Unquote(f.c); err == nil {
						return VConst{constant.MakeString(s), t}
					}
				} else if n, err := strconv.ParseInt(f.c, 10, 64); err == nil {
					return VConst{constant.MakeInt64(n), t}
				}
			}
		}
	}
	return nil
}

func (in *Interp) selector(fr *frame, st *state, x *ast.SelectorExpr) Val {
	sel := fr.info.Selections[x]
	if sel == nil {
		switch o := fr.info.Uses[x.Sel].(type) {
		case *types.Var:
			return in.global(fr, st, o)
		case *types.Func:
			return VFunc{lit: o, name: o.FullName()}
		}
		in.giveUp(x.Pos(), "selector %s", x.Sel.Name)
	}
	if sel.Kind() != types.FieldVal {
		recv := in.eval(fr, st, x.X)
		return VFunc{lit: sel.Obj().(*types.Func), recv: recv, name: sel.Obj().Name()}
	}
	if in.counter != nil && sel.Obj() == in.counter {
		return in.nalloc(st)
	}
	v := in.eval(fr, st, x.X)
	names, typs := selPath(sel)
	return in.resolve(st, in.fields(st, v, names, typs, x.Pos()))
}

func (in *Interp) fields(st *state, v Val, names []string, typs []types.Type, pos token.Pos) Val {
	for i, n := range names {
		v = in.fieldVal(st, v, n, typs[i], pos)
		if st.dead {
			return VNil{}
		}
	}
	return v
}

func (in *Interp) fieldVal(st *state, v Val, n string, ft types.Type, pos token.Pos) Val {
	v = in.resolve(st, v)
	switch x := v.(type) {
	case VPtr:
		return in.load(st, VPtr{loc: x.loc, path: append(append([]string{}, x.path...), n), typ: ft}, pos)
	case VSym:
		if ov, ok := st.locs["sym:"+x.path+"."+n]; ok {
			return ov
		}
		if ov, ok := st.locs["sym:"+x.path]; ok {
			return selectField(ov, n, ft)
		}
		return in.fixed(VSym{x.path + "." + n, ft})
	case *VCond:
		a := in.fieldVal(st, x.a, n, ft, pos)
		b := in.fieldVal(st, x.b, n, ft, pos)
		return mkCond(x.c, a, b)
	case *VStruct:
		return in.fixed(vfield(x, n))
	case VNil:
		// dereferencing nil: this path does not exist
		return VSym{"@nil." + n, ft}
	}
	return mkExpr("."+n, ft, v)
}

func (in *Interp) unary(fr *frame, st *state, x *ast.UnaryExpr) []Val {
	switch x.Op {
	case token.NOT:
		return one(VF{fNot(in.cond(fr, st, x.X))})
	case token.AND:
		inner := x.X
		for {
			if p, ok := inner.(*ast.ParenExpr); ok {
				inner = p.X
				continue
			}
			break
		}
		if cl, ok := inner.(*ast.CompositeLit); ok {
			t := in.typeOf(fr, cl)
			return one(in.alloc(st, in.composite(fr, st, cl, t), t))
		}
		return one(in.place(fr, st, x.X))
	}
	v := in.eval(fr, st, x.X)
	if n, ok := constNum(v); ok && x.Op == token.SUB {
		return one(mkInt(-n))
	}
	return one(mkExpr("u"+x.Op.String(), in.typeOf(fr, x), v))
}

func (in *Interp) alloc(st *state, v Val, t types.Type) Val {
	in.nloc++
	l := fmt.Sprintf("heap:%d", in.nloc)
	st.locs[l] = v
	return VPtr{loc: l, typ: t}
}

func (in *Interp) binaryExpr(fr *frame, st *state, x *ast.BinaryExpr) Val {
	if x.Op == token.LAND || x.Op == token.LOR {
		a := in.cond(fr, st, x.X)
		c := a
		if x.Op == token.LOR {
			c = fNot(a)
		}
		switch in.decide(st, c) {
		case -1:
			return VF{a}
		}
		s := st.clone()
		s.assume(c)
		n := len(s.pc)
		b := in.cond(fr, s, x.Y)
		// what the right side does happens only if it is evaluated
		s.pc = s.pc[:min(n, len(s.pc))]
		other := st.clone()
		other.assume(fNot(c))
		if !s.dead {
			*st = *in.join([]*state{s, other})
		}
		if x.Op == token.LAND {
			return VF{fAnd(a, b)}
		}
		return VF{fOr(a, b)}
	}
	a := in.eval(fr, st, x.X)
	b := in.eval(fr, st, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return VF{in.compare(st, x.Op, a, b)}
	}
	return in.binary(st, x.Op, a, b, in.typeOf(fr, x))
}

func (in *Interp) binary(st *state, op token.Token, a, b Val, t types.Type) Val {
	a, b = in.resolve(st, a), in.resolve(st, b)
	if op == token.AND_NOT {
		// a &^ b is a & ^b
		op = token.AND
		if c, ok := b.(VConst); ok && c.v.Kind() == constant.Int {
			b = VConst{complement(c.v, t), t}
		} else {
			b = mkExpr("^", t, b)
		}
	}
	switch op {
	case token.AND, token.OR, token.XOR, token.MUL:
		_, ca := a.(VConst)
		_, cb := b.(VConst)
		if ca && !cb || ca == cb && b.key() < a.key() { // constants last
			a, b = b, a
		}
	}
	ca, ok1 := a.(VConst)
	cb, ok2 := b.(VConst)
	if ok1 && ok2 && ca.v.Kind() == cb.v.Kind() && (op != token.QUO && op != token.REM || constant.Sign(cb.v) != 0) {
		o := op
		if op == token.QUO && ca.v.Kind() == constant.Int {
			o = token.QUO_ASSIGN // integer division
		}
		return VConst{constant.BinaryOp(ca.v, o, cb.v), t}
	}
	if op == token.ADD && ok1 && ca.v.Kind() == constant.String && constant.StringVal(ca.v) == "" {
		return b
	}
	if ok2 && cb.v.Kind() == constant.Int {
		if n, ok := constNum(cb); ok && n == 0 && (op == token.ADD || op == token.SUB) {
			return a
		}
	}
	if op == token.ADD {
		// len(a + b) = len(a) + len(b): keep sums flat
		if e, ok := a.(*VExpr); ok && e.op == "+" {
			if ok2 {
				if last, ok := e.args[len(e.args)-1].(VConst); ok && last.v.Kind() == cb.v.Kind() {
					args := append(append([]Val{}, e.args[:len(e.args)-1]...), in.binary(st, op, last, b, t))
					return mkExpr("+", t, args...)
				}
			}
			return mkExpr("+", t, append(append([]Val{}, e.args...), b)...)
		}
	}
	return mkExpr(op.String(), t, a, b)
}

func stripConv(v Val) Val {
	for {
		e, ok := v.(*VExpr)
		if !ok || !strings.HasPrefix(e.op, "conv:") || len(e.args) != 1 {
			return v
		}
		v = e.args[0]
	}
}

// nonEmpty is the condition under which the list has elements.
func (in *Interp) nonEmpty(l *VList) *F {
	var fs []*F
	for _, it := range l.items {
		g := it.guard
		switch it.kind {
		case 'r':
			inner := in.nonEmpty(&VList{items: it.items})
			some := fNot(fAtom("len("+it.src.key()+")", "0"))
			if inner.op == 'T' || !fSat(fNot(inner)) {
				g = fAnd(g, some)
			} else {
				g = fAnd(g, some, in.some(it.src.key(), inner))
			}
		case 's':
			g = fAnd(g, fNot(fAtom("len("+it.val.key()+")", "0")))
		case 'c', 'a':
			k := "acc"
			if it.val != nil {
				k = it.val.key()
				if it.kind == 'a' {
					it.elem = ""
				}
			}
			g = fAnd(g, fNot(fAtom("len("+k+it.elem+")", "0")))
		}
		fs = append(fs, g)
	}
	return fOr(fs...)
}

func (in *Interp) compare(st *state, op token.Token, a, b Val) *F {
	neg := false
	switch op {
	case token.NEQ:
		op, neg = token.EQL, true
	case token.GEQ:
		op, neg = token.LSS, true
	case token.LEQ:
		op, neg = token.GTR, true
	}
	f := in.cmp(st, op, in.resolve(st, a), in.resolve(st, b))
	if neg {
		return fNot(f)
	}
	return f
}

func (in *Interp) cmp(st *state, op token.Token, a, b Val) *F {
	if c, ok := a.(*VCond); ok {
		return fOr(fAnd(c.c, in.cmp(st, op, c.a, b)), fAnd(fNot(c.c), in.cmp(st, op, c.b, b)))
	}
	if c, ok := b.(*VCond); ok {
		return fOr(fAnd(c.c, in.cmp(st, op, a, c.a)), fAnd(fNot(c.c), in.cmp(st, op, a, c.b)))
	}
	if op == token.EQL {
		if _, ok := a.(VNil); ok {
			a, b = b, a
		}
		if _, ok := b.(VNil); ok {
			switch x := a.(type) {
			case VNil:
				return fTrue
			case VPtr, *VStruct, VFunc, VConst, VF, *VMap:
				return fFalse
			case *VList:
				return fNot(in.nonEmpty(x))
			}
			if t := dynTypeLoose(a); t != nil {
				if _, ok := t.Underlying().(*types.Slice); ok {
					return fAtom("len("+a.key()+")", "0")
				}
				switch t.Underlying().(type) {
				case *types.Basic, *types.Struct, *types.Array:
					// a value of such a type in an interface
					return fFalse
				}
			}
			if in.elems && strings.HasSuffix(a.key(), "[*]") {
				return fFalse
			}
			return fAtom(a.key(), "nil")
		}
		// values of different concrete types are different
		ta, tb := dynType(a), dynType(b)
		if ta != nil && tb != nil && !types.Identical(ta, tb) {
			_, ba := ta.Underlying().(*types.Basic)
			_, bb := tb.Underlying().(*types.Basic)
			if ba != bb || (isNamed(ta) && isNamed(tb)) {
				return fFalse
			}
		}
	}
	a, b = stripConv(a), stripConv(b)
	ca, okA := a.(VConst)
	cb, okB := b.(VConst)
	if okA && okB && (ca.v.Kind() == cb.v.Kind() || ca.v.Kind() != constant.String && cb.v.Kind() != constant.String) {
		if constant.Compare(ca.v, op, cb.v) {
			return fTrue
		}
		return fFalse
	}
	if fa, ok := asF(a); ok {
		if fb, ok := asF(b); ok && op == token.EQL {
			return fOr(fAnd(fa, fb), fAnd(fNot(fa), fNot(fb)))
		}
	}
	if okA && !okB {
		a, b, ca, cb, okA, okB = b, a, cb, ca, okB, okA
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		}
	}
	if okB {
		if e, ok := a.(*VExpr); ok && e.op == "len" {
			if l, ok := e.args[0].(*VList); ok {
				if n, _ := constNum(cb); n == 0 && op == token.EQL {
					return fNot(in.nonEmpty(l))
				} else if n == 0 && op == token.GTR {
					return in.nonEmpty(l)
				} else if n == 1 && op == token.LSS {
					return fNot(in.nonEmpty(l))
				}
			}
		}
		if e, ok := a.(*VExpr); ok && e.op == "len" && nonEmptyStr(e.args[0]) {
			if n, _ := constNum(cb); n == 0 && op == token.EQL || n == 1 && op == token.LSS {
				return fFalse
			} else if n == 0 && op == token.GTR {
				return fTrue
			}
		}
		if cb.v.Kind() == constant.String && op == token.EQL && constant.StringVal(cb.v) == "" {
			if nonEmptyStr(a) {
				return fFalse
			}
			return fAtom("len("+a.key()+")", "0")
		}
		if op == token.EQL {
			if f, ok := asF(b); ok { // x == true
				fa := in.truth(a)
				return fOr(fAnd(fa, f), fAnd(fNot(fa), fNot(f)))
			}
			f := fAtom(a.key(), cb.v.ExactString())
			if of := firstByteOf(a); in.elems && of != "" {
				f = fAnd(fNot(fAtom("len("+of+")", "0")), f) // it is not empty, or this panics
			}
			return f
		}
		if n, ok := constNum(cb); ok && isCount(a) {
			if op == token.GTR && n == 0 {
				return fNot(fAtom(a.key(), "0"))
			}
			if op == token.LSS && n == 1 {
				return fAtom(a.key(), "0")
			}
			if op == token.LSS && n <= 0 {
				return fFalse
			}
		}
		if s, ok := a.(VSym); ok && op != token.EQL {
			if vals := enumVals(s.typ); vals != nil {
				var fs []*F
				for _, v := range vals {
					if constant.Compare(v, op, cb.v) {
						fs = append(fs, fAtom(a.key(), v.ExactString()))
					}
				}
				return fOr(fs...)
			}
		}
		if op == token.LSS && cb.v.Kind() == constant.Int {
			// x < n is not x > n-1
			n := constant.BinaryOp(cb.v, token.SUB, constant.MakeInt64(1))
			return fNot(fBool(a.key() + ">" + n.ExactString()))
		}
		return fBool(a.key() + op.String() + cb.v.ExactString())
	}
	if fb, ok := asF(b); ok && op == token.EQL {
		fa := in.truth(a)
		return fOr(fAnd(fa, fb), fAnd(fNot(fa), fNot(fb)))
	}
	if op == token.EQL && a.key() == b.key() {
		return fTrue
	}
	ka, kb := a.key(), b.key()
	if op == token.EQL && kb < ka {
		ka, kb = kb, ka
	}
	return fBool(ka + op.String() + kb)
}

// enumVals lists the values of the constants of a named integer type, and 0.
func enumVals(t types.Type) []constant.Value {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	if b, ok := n.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return nil
	}
	out := []constant.Value{constant.MakeInt64(0)}
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		if c, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(c.Type(), t) && !strings.HasPrefix(name, "_") && constant.Sign(c.Val()) != 0 {
			out = append(out, c.Val())
		}
	}
	if len(out) < 3 {
		return nil
	}
	return out
}

func isNamed(t types.Type) bool { _, ok := t.(*types.Named); return ok }

// isCount reports whether the value cannot be negative.
func isCount(v Val) bool {
	if e, ok := v.(*VExpr); ok && (e.op == "len" || e.op == "idx") {
		return true
	}
	if t := dynTypeLoose(v); t != nil {
		if b, ok := t.Underlying().(*types.Basic); ok {
			return b.Info()&types.IsUnsigned != 0
		}
	}
	return false
}

func (in *Interp) index(fr *frame, st *state, x *ast.IndexExpr) []Val {
	xt := in.typeOf(fr, x.X)
	base := in.eval(fr, st, x.X)
	idx := in.eval(fr, st, x.Index)
	return in.indexVal(fr, st, base, idx, xt, x.Pos())
}

// nth is the n-th of the elements that are present, nil if that cannot be told. An index
// past the end is a panic, those cases are left out.
func (in *Interp) nth(pc []*F, items []Item, n int) Val {
	if len(items) == 0 || items[0].kind != 'e' {
		return nil
	}
	it := items[0]
	st := &state{pc: pc}
	d := in.decide(st, it.guard)
	var a, b Val
	if d != -1 {
		if n == 0 {
			a = it.val
		} else {
			a = in.nth(with(pc, it.guard), items[1:], n-1)
		}
	}
	if d != 1 {
		b = in.nth(with(pc, fNot(it.guard)), items[1:], n)
	}
	switch {
	case a == nil && d != -1 && n > 0, b == nil && d != 1 && len(items) > 1:
		return nil
	case a == nil:
		return b
	case b == nil:
		return a
	}
	return mkCond(it.guard, a, b)
}

func (in *Interp) indexVal(fr *frame, st *state, base, idx Val, xt types.Type, pos token.Pos) []Val {
	if c, ok := base.(*VCond); ok {
		a := in.indexVal(fr, st, c.a, idx, xt, pos)
		b := in.indexVal(fr, st, c.b, idx, xt, pos)
		out := make([]Val, len(a))
		for i := range a {
			out[i] = mkCond(c.c, a[i], b[i])
		}
		return out
	}
	var et types.Type
	switch u := xt.Underlying().(type) {
	case *types.Map:
		return in.mapIndex(fr, st, base, idx, u, pos)
	case *types.Slice:
		et = u.Elem()
	case *types.Array:
		et = u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			et = a.Elem()
		}
	}
	if l, ok := base.(*VList); ok {
		if n, ok := constNum(idx); ok {
			for i := 0; i < len(l.items) && i <= int(n); i++ {
				if l.items[i].kind != 'e' || l.items[i].guard != fTrue {
					break
				}
				if i == int(n) {
					return one(in.resolve(st, l.items[i].val))
				}
			}
		}
		if n, ok := constNum(idx); ok && n >= 0 && len(l.items) <= 8 {
			if v := in.nth(st.pc, l.items, int(n)); v != nil {
				return one(in.resolve(st, v))
			}
		}
		// the element of the current iteration: every known element, under its guard
		if e, ok := idx.(*VExpr); ok && e.op == "idx" {
			if of := in.idxList(e); of != nil && of.key() == l.key() {
				if v := in.current[idx.key()+l.key()]; v != nil {
					return one(v)
				}
			}
			// a list with one element per iteration of the loop
			if len(l.items) == 1 && l.items[0].kind == 'r' && len(l.items[0].items) == 1 && l.items[0].items[0].guard == fTrue {
				if of := in.idxList(e); of != nil && of.key() == l.items[0].src.key() {
					return one(l.items[0].items[0].val)
				}
			}
		}
		return one(mkExpr("index", et, l, idx))
	}
	if n, ok := constNum(stripConv(idx)); ok {
		if s, ok := base.(VSym); ok && strings.HasPrefix(s.path, "@") {
			if v := in.litIndex(st, s, int(n), et); v != nil {
				return one(v)
			}
		}
	}
	if e, ok := idx.(*VExpr); ok && e.op == "idx" {
		of := in.idxList(e)
		if a, ok := of.(*VExpr); ok && a.op == "again" {
			of = a.args[0]
		}
		if of != nil && of.key() == base.key() {
			return one(in.fixed(VSym{in.idxList(e).key() + "[*]", et}))
		}
	}
	if s, ok := base.(VSym); ok {
		return one(in.fixed(VSym{s.path + "[" + idx.key() + "]", et}))
	}
	return one(mkExpr("index", et, base, idx))
}

func (in *Interp) mapIndex(fr *frame, st *state, base, idx Val, mt *types.Map, pos token.Pos) []Val {
	if in.elems && innerCond(idx) != nil {
		look := func(vs []Val) []Val { return in.mapIndexOf(fr, st, base, vs[0], mt) }
		if _, heap := base.(VPtr); heap {
			return in.byCases(st.pc, []Val{idx}, 0, look)
		}
		return in.once(st, "index "+base.key(), []Val{idx}, look)
	}
	return in.mapIndexOf(fr, st, base, idx, mt)
}

func (in *Interp) mapIndexOf(fr *frame, st *state, base, idx Val, mt *types.Map) []Val {
	if s, ok := base.(VSym); ok && strings.HasPrefix(s.path, "@") {
		for o, e := range in.globals {
			if "@"+o.Pkg().Name()+"."+o.Name() != s.path || in.written[o] {
				continue
			}
			if cl, ok := e.(*ast.CompositeLit); ok {
				return in.litMap(st, cl, in.infos[o.Pkg()], s, idx, mt)
			}
		}
	}
	if p, ok := base.(VPtr); ok {
		if m, ok := st.locs[p.loc].(*VMap); ok {
			return in.lookupKey(st, m, idx, mt)
		}
	}
	if _, ok := base.(VNil); ok {
		return []Val{zeroVal(mt.Elem()), VF{fFalse}}
	}
	v := mkExpr("index", mt.Elem(), base, idx)
	return []Val{v, VF{fBool("has(" + v.key() + ")")}}
}

// lookupKey is what a map has for the key.
func (in *Interp) lookupKey(st *state, m *VMap, idx Val, mt *types.Map) []Val {
	var v Val = zeroVal(mt.Elem())
	has := fFalse
	if src, old, step := filledMap(m); step != nil {
		vs := in.lookupKey(st, old, idx, mt)
		v = vs[0]
		has, _ = asF(vs[1])
		for _, e := range step.ents {
			eq := in.some(src.key(), fAnd(e.guard, in.compare(st, token.EQL, e.key, idx)))
			v = mkCond(eq, e.val, v)
			has = fOr(has, eq)
		}
	} else if m.base != nil {
		v = mkExpr("index", mt.Elem(), m.base, idx)
		has = fBool("has(" + v.key() + ")")
	}
	for _, e := range m.ents {
		eq := fAnd(e.guard, in.compare(st, token.EQL, e.key, idx))
		v = mkCond(eq, e.val, v)
		has = fOr(has, eq)
	}
	return []Val{v, VF{has}}
}

// filledMap takes a map apart that a loop over src has filled: each element sets keys to
// a value that does not depend on the element.
func filledMap(m *VMap) (src Val, old, step *VMap) {
	b, ok := m.base.(*VExpr)
	if !ok || b.op != "fill" {
		return nil, nil, nil
	}
	return b.args[0], b.args[1].(*VMap), b.args[2].(*VMap)
}

func (in *Interp) fillsMap(src string, old Val, nv *VMap, whole *F) bool {
	if _, ok := old.(*VMap); !ok || !in.elems || whole != fTrue {
		return false
	}
	if _, ok := nv.base.(VAcc); !ok {
		return false
	}
	for _, e := range nv.ents {
		if e.val.key() != nv.ents[0].val.key() || strings.Contains(e.val.key(), src+"[*]") || strings.Contains(e.val.key(), "acc:") || strings.Contains(e.guard.k, "acc:") || strings.Contains(e.key.key(), "acc:") {
			return false
		}
	}
	return true
}

// mapEmpty is the formula that the map has no key.
func (in *Interp) mapEmpty(m *VMap) *F {
	fs := []*F{}
	if src, old, step := filledMap(m); step != nil {
		fs = append(fs, in.mapEmpty(old))
		for _, e := range step.ents {
			fs = append(fs, fNot(in.some(src.key(), e.guard)))
		}
	} else if m.base != nil {
		fs = append(fs, fAtom("len("+m.base.key()+")", "0"))
	}
	for _, e := range m.ents {
		fs = append(fs, fNot(e.guard))
	}
	return fAnd(fs...)
}

// litIndex is an element of a package level array or slice that is never changed.
func (in *Interp) litIndex(st *state, s VSym, n int, et types.Type) Val {
	for o, e := range in.globals {
		if "@"+o.Pkg().Name()+"."+o.Name() != s.path || in.written[o] {
			continue
		}
		cl, ok := e.(*ast.CompositeLit)
		if !ok {
			return nil
		}
		info := in.infos[o.Pkg()]
		at, max := 0, -1
		var found ast.Expr
		for _, x := range cl.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				k := info.Types[kv.Key].Value
				if k == nil {
					return nil
				}
				i, _ := constant.Int64Val(constant.ToInt(k))
				at, x = int(i), kv.Value
			}
			if at == n {
				found = x
			}
			if at > max {
				max = at
			}
			at++
		}
		switch {
		case found != nil:
			return in.litElem(&frame{info: info}, st, found, et)
		case n >= 0 && n <= max:
			return zeroVal(et)
		}
		return nil
	}
	return nil
}

// litMap looks a key up in a package level map that is never changed.
func (in *Interp) litMap(st *state, cl *ast.CompositeLit, info *types.Info, s VSym, idx Val, mt *types.Map) []Val {
	if c, ok := idx.(*VCond); ok {
		a, b := in.litMap(st, cl, info, s, c.a, mt), in.litMap(st, cl, info, s, c.b, mt)
		return []Val{mkCond(c.c, a[0], b[0]), mkCond(c.c, a[1], b[1])}
	}
	fr := &frame{info: info}
	k, isConst := stripConv(idx).(VConst)
	var has []*F
	var out Val = zeroVal(mt.Elem())
	for i := len(cl.Elts) - 1; i >= 0; i-- {
		kv := cl.Elts[i].(*ast.KeyValueExpr)
		ktv := info.Types[kv.Key]
		if ktv.Value == nil {
			v := mkExpr("index", mt.Elem(), s, idx)
			return []Val{v, VF{fBool("has(" + v.key() + ")")}}
		}
		if isConst {
			if constant.Compare(ktv.Value, token.EQL, k.v) {
				return []Val{in.litElem(fr, st, kv.Value, mt.Elem()), VF{fTrue}}
			}
			continue
		}
		f := in.compare(st, token.EQL, idx, VConst{ktv.Value, mt.Key()})
		has = append(has, f)
		if in.decide(st, f) == -1 {
			continue
		}
		out = mkCond(f, in.litElem(fr, st, kv.Value, mt.Elem()), out)
	}
	if isConst {
		return []Val{zeroVal(mt.Elem()), VF{fFalse}}
	}
	return []Val{out, VF{fOr(has...)}}
}

func (in *Interp) litElem(fr *frame, st *state, e ast.Expr, t types.Type) Val {
	if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return in.alloc(st, in.composite(fr, st, cl, p.Elem()), p.Elem())
		}
		return in.composite(fr, st, cl, t)
	}
	return in.eval(fr, st, e)
}

func (in *Interp) composite(fr *frame, st *state, cl *ast.CompositeLit, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &VStruct{typ: t, fields: map[string]Val{}}
		for i, e := range cl.Elts {
			name, x := "", e
			var ft types.Type
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				name, x = kv.Key.(*ast.Ident).Name, kv.Value
				ft = fieldType(t, name)
			} else {
				name, ft = u.Field(i).Name(), u.Field(i).Type()
			}
			v.fields[name] = in.litElem(fr, st, x, ft)
		}
		return v
	case *types.Slice, *types.Array:
		var et types.Type
		if s, ok := u.(*types.Slice); ok {
			et = s.Elem()
		} else {
			et = u.(*types.Array).Elem()
		}
		l := &VList{typ: t}
		for _, e := range cl.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				e = kv.Value
			}
			l.items = append(l.items, Item{guard: fTrue, kind: 'e', val: in.litElem(fr, st, e, et)})
		}
		return l
	case *types.Map:
		in.nloc++
		m := &VMap{typ: t, id: strconv.Itoa(in.nloc)}
		for _, e := range cl.Elts {
			kv := e.(*ast.KeyValueExpr)
			m.ents = append(m.ents, mapEnt{fTrue, in.litElem(fr, st, kv.Key, u.Key()), in.litElem(fr, st, kv.Value, u.Elem())})
		}
		return in.alloc(st, m, t)
	case *types.Pointer:
		return in.alloc(st, in.composite(fr, st, cl, u.Elem()), u.Elem())
	}
	in.giveUp(cl.Pos(), "literal of %s", t)
	return nil
}

func (in *Interp) call(fr *frame, st *state, x *ast.CallExpr) []Val {
	fun := x.Fun
	for {
		if p, ok := fun.(*ast.ParenExpr); ok {
			fun = p.X
			continue
		}
		break
	}
	if tv, ok := fr.info.Types[fun]; ok && tv.IsType() {
		return one(in.convert(fr, st, in.eval(fr, st, x.Args[0]), tv.Type))
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := fr.info.Uses[id].(*types.Builtin); ok {
			return in.builtin(fr, st, b.Name(), x)
		}
	}
	// method call?
	if se, ok := fun.(*ast.SelectorExpr); ok {
		if sel := fr.info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
			return in.methodCall(fr, st, x, se, sel)
		}
	}
	var callee Val
	if id, ok := fun.(*ast.Ident); ok {
		callee = in.ident(fr, st, id)
	} else {
		callee = in.eval(fr, st, fun)
	}
	sig, _ := in.typeOf(fr, fun).Underlying().(*types.Signature)
	args := in.args(fr, st, x, sig)
	return in.apply(fr, st, callee, args, sig, x.Pos())
}

func (in *Interp) apply(fr *frame, st *state, callee Val, args []Val, sig *types.Signature, pos token.Pos) []Val {
	switch f := callee.(type) {
	case *VCond:
		return in.fork(st, f.c, func(s *state) []Val { return in.apply(fr, s, f.a, args, sig, pos) },
			func(s *state) []Val { return in.apply(fr, s, f.b, args, sig, pos) })
	case VFunc:
		switch l := f.lit.(type) {
		case *types.Func:
			if f.recv != nil {
				return in.method(fr, st, l, f.recv, args, pos)
			}
			return in.callFunc(st, l, nil, args, pos)
		case *ast.FuncLit:
			in.nframe++
			nf := &frame{fn: f.fr.fn, id: in.nframe, info: f.fr.info, up: f.fr}
			if len(in.stack) > 150 {
				in.giveUp(pos, "recursion of a function literal")
			}
			in.stack = append(in.stack, types.NewFunc(l.Pos(), nil, f.name, sig))
			defer func() { in.stack = in.stack[:len(in.stack)-1] }()
			return in.runBody(st, nf, l.Type, l.Body, args)
		}
	}
	if sig == nil {
		in.giveUp(pos, "call of %s", short(callee, 60))
	}
	return opaqueResults("call:"+callee.key(), args, sig)
}

func (in *Interp) args(fr *frame, st *state, x *ast.CallExpr, sig *types.Signature) []Val {
	var args []Val
	if len(x.Args) == 1 && sig != nil && sig.Params().Len() > 1 {
		args = in.evalMulti(fr, st, x.Args[0])
	} else {
		for _, a := range x.Args {
			args = append(args, in.eval(fr, st, a))
		}
	}
	if sig != nil && sig.Variadic() && x.Ellipsis == token.NoPos {
		n := sig.Params().Len() - 1
		l := &VList{typ: sig.Params().At(n).Type()}
		for _, a := range args[min(n, len(args)):] {
			l.items = append(l.items, Item{guard: fTrue, kind: 'e', val: a})
		}
		args = append(append([]Val{}, args[:min(n, len(args))]...), l)
	}
	return args
}

func (in *Interp) methodCall(fr *frame, st *state, x *ast.CallExpr, se *ast.SelectorExpr, sel *types.Selection) []Val {
	fn := sel.Obj().(*types.Func)
	sig := fn.Type().(*types.Signature)
	var recv Val
	rt := in.typeOf(fr, se.X)
	_, recvIsPtr := rt.Underlying().(*types.Pointer)
	wantPtr := false
	if sig.Recv() != nil {
		_, wantPtr = sig.Recv().Type().Underlying().(*types.Pointer)
	}
	isIface := types.IsInterface(rt)
	if wantPtr && !recvIsPtr && !isIface {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(undecided); !ok {
						panic(e)
					}
					v := in.eval(fr, st, se.X)
					if s, ok := v.(VSym); ok {
						recv = VSym{s.path, types.NewPointer(s.typ)}
					} else {
						recv = in.alloc(st, v, rt)
					}
				}
			}()
			recv = in.place(fr, st, se.X)
		}()
	} else {
		recv = in.eval(fr, st, se.X)
	}
	// promoted through embedded fields
	names, typs := selPath(sel)
	if len(names) > 0 {
		if p, ok := recv.(VPtr); ok && wantPtr {
			for i, n := range names {
				recv = in.fieldPtr(st, recv, n, typs[i], x.Pos())
			}
			_ = p
		} else {
			recv = in.fields(st, recv, names, typs, x.Pos())
		}
	}
	if !wantPtr && recvIsPtr && !isIface && len(names) == 0 {
		recv = in.load(st, recv, x.Pos())
	}
	args := in.args(fr, st, x, sig)
	return in.method(fr, st, fn, recv, args, x.Pos())
}

// method calls a method on a receiver whose dynamic type may have to be found.
func (in *Interp) method(fr *frame, st *state, fn *types.Func, recv Val, args []Val, pos token.Pos) []Val {
	recv = in.resolve(st, recv)
	sig := fn.Type().(*types.Signature)
	if sig.Recv() != nil && types.IsInterface(sig.Recv().Type()) {
		if c, ok := recv.(*VCond); ok {
			return in.fork(st, c.c, func(s *state) []Val { return in.method(fr, s, fn, c.a, args, pos) },
				func(s *state) []Val { return in.method(fr, s, fn, c.b, args, pos) })
		}
		if _, ok := recv.(VNil); ok {
			st.dead = true
			return opaqueResults("nil."+fn.Name(), nil, sig)
		}
		dt := dynType(recv)
		if dt == nil || types.IsInterface(dt) {
			if in.hook != nil {
				if out, ok := in.hook(in, st, fn, recv, args); ok {
					return out
				}
			}
			return in.opaqueCall(st, fn, recv, args, sig)
		}
		m, path, _ := types.LookupFieldOrMethod(dt, true, fn.Pkg(), fn.Name())
		mf, ok := m.(*types.Func)
		if !ok {
			return in.opaqueCall(st, fn, recv, args, sig)
		}
		// through embedded fields
		t := dt
		for _, i := range path[:len(path)-1] {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			f := t.Underlying().(*types.Struct).Field(i)
			recv = in.fieldVal(st, recv, f.Name(), f.Type(), pos)
			t = f.Type()
		}
		if types.IsInterface(t) {
			return in.method(fr, st, mf, recv, args, pos)
		}
		msig := mf.Type().(*types.Signature)
		_, mptr := msig.Recv().Type().Underlying().(*types.Pointer)
		_, vptr := t.Underlying().(*types.Pointer)
		if !mptr && vptr {
			recv = in.load(st, recv, pos)
		}
		return in.callFunc(st, mf, recv, args, pos)
	}
	return in.callFunc(st, fn, recv, args, pos)
}

func (in *Interp) convert(fr *frame, st *state, v Val, t types.Type) Val {
	if types.IsInterface(t) {
		return v
	}
	switch x := v.(type) {
	case VConst:
		if b, ok := t.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsString != 0 && x.v.Kind() == constant.Int {
				return mkExpr("conv:"+typeName(t), t, v)
			}
			return VConst{x.v, t}
		}
	case *VList:
		return &VList{items: x.items, typ: t, size: x.size}
	case *VStruct:
		return &VStruct{typ: t, fields: x.fields, base: x.base}
	case *VCond:
		return mkCond(x.c, in.convert(fr, st, x.a, t), in.convert(fr, st, x.b, t))
	case VNil, VPtr, VFunc, VF:
		return v
	case VSym:
		if x.typ != nil && types.Identical(x.typ.Underlying(), t.Underlying()) {
			if _, basic := t.Underlying().(*types.Basic); !basic {
				return VSym{x.path, t}
			}
			if types.Identical(x.typ, t) {
				return x
			}
		}
	}
	return mkExpr("conv:"+typeName(t), t, stripConv(v))
}

func (in *Interp) builtin(fr *frame, st *state, name string, x *ast.CallExpr) []Val {
	switch name {
	case "len", "cap":
		return one(in.length(st, in.eval(fr, st, x.Args[0])))
	case "append":
		return one(in.appendTo(fr, st, x))
	case "make":
		t := in.typeOf(fr, x.Args[0])
		switch t.Underlying().(type) {
		case *types.Map:
			in.nloc++
			return one(in.alloc(st, &VMap{typ: t, id: strconv.Itoa(in.nloc)}, t))
		case *types.Slice:
			l := &VList{typ: t}
			if len(x.Args) > 1 {
				n := in.eval(fr, st, x.Args[1])
				if c, ok := constNum(n); !ok || c != 0 {
					l.size = n
				}
			}
			return one(l)
		}
	case "copy":
		// into a slice that has just been made for it
		src := in.eval(fr, st, x.Args[1])
		dst, ok := in.eval(fr, st, x.Args[0]).(*VList)
		if ok && len(dst.items) == 0 && dst.size != nil && dst.size.key() == mkExpr("len", nil, src).key() {
			in.assign(fr, st, x.Args[0], src)
			return one(dst.size)
		}
	case "new":
		t := in.typeOf(fr, x.Args[0])
		return one(in.alloc(st, zeroVal(t), t))
	case "panic":
		st.dead = true
		return one(VNil{})
	case "min", "max":
		var args []Val
		for _, a := range x.Args {
			args = append(args, in.eval(fr, st, a))
		}
		return one(mkExpr(name, in.typeOf(fr, x), args...))
	case "print", "println":
		return nil
	}
	in.giveUp(x.Pos(), "builtin %s", name)
	return nil
}

// nonEmptyStr reports whether a string has a part that is not empty.
func nonEmptyStr(v Val) bool {
	v = stripConv(v)
	if s, ok := constStr(v); ok {
		return s != ""
	}
	if e, ok := v.(*VExpr); ok && e.op == "+" {
		for _, a := range e.args {
			if nonEmptyStr(a) {
				return true
			}
		}
	}
	return false
}

func (in *Interp) length(st *state, v Val) Val {
	switch x := v.(type) {
	case VConst:
		if x.v.Kind() == constant.String {
			return mkInt(int64(len(constant.StringVal(x.v))))
		}
	case VNil:
		return mkInt(0)
	case *VCond:
		return mkCond(x.c, in.length(st, x.a), in.length(st, x.b))
	case *VList:
		if x.size != nil && len(x.items) == 0 {
			return x.size
		}
		if vals, ok := plainItems(x); ok && x.size == nil {
			return mkInt(int64(len(vals)))
		}
		if x.size != nil {
			return x.size
		}
	case VPtr:
		if m, ok := st.locs[x.loc].(*VMap); ok {
			l := mkExpr("len", types.Typ[types.Int], &VMap{typ: m.typ, base: m.base, ents: m.ents})
			if in.elems {
				is, f := fAtom(l.key(), "0"), in.mapEmpty(m)
				in.axioms = append(in.axioms, fOr(fAnd(is, f), fAnd(fNot(is), fNot(f))))
			}
			return l
		}
	}
	return mkExpr("len", types.Typ[types.Int], stripConv(v))
}

func (in *Interp) appendTo(fr *frame, st *state, x *ast.CallExpr) Val {
	t := in.typeOf(fr, x)
	base := in.eval(fr, st, x.Args[0])
	var add []Item
	for i, a := range x.Args[1:] {
		v := in.eval(fr, st, a)
		if x.Ellipsis != token.NoPos && i == len(x.Args)-2 {
			add = append(add, spreadItems(v, fTrue)...)
			continue
		}
		add = append(add, Item{guard: fTrue, kind: 'e', val: v})
	}
	return appendVal(base, add, t)
}

func appendVal(base Val, add []Item, t types.Type) Val {
	switch b := base.(type) {
	case *VList:
		bt := b.typ
		if bt == nil {
			bt = t
		}
		return &VList{items: append(append([]Item{}, b.items...), add...), typ: bt, size: nil}
	case VNil:
		return &VList{items: add, typ: t}
	case *VCond:
		return mkCond(b.c, appendVal(b.a, add, t), appendVal(b.b, add, t))
	}
	return &VList{items: append([]Item{{guard: fTrue, kind: 's', val: base}}, add...), typ: t}
}

func spreadItems(v Val, g *F) []Item {
	switch x := v.(type) {
	case *VList:
		return guardItems(g, x.items)
	case VNil:
		return nil
	case *VCond:
		return append(spreadItems(x.a, fAnd(g, x.c)), spreadItems(x.b, fAnd(g, fNot(x.c)))...)
	case *VExpr:
		if strings.HasPrefix(x.op, "conv:") && len(x.args) == 1 {
			return spreadItems(x.args[0], g)
		}
	}
	return []Item{{guard: g, kind: 's', val: v}}
}

// byteAt is a byte of a string.
func (in *Interp) byteAt(base, idx Val) Val {
	switch b := base.(type) {
	case VSym:
		return in.fixed(VSym{b.path + "[" + idx.key() + "]", nil})
	case *VExpr:
		return mkExpr("index", nil, base, idx)
	}
	return nil
}

// complement is ^v for a constant of the type.
func complement(v constant.Value, t types.Type) constant.Value {
	prec := uint(0)
	if t != nil {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			switch b.Kind() {
			case types.Uint8:
				prec = 8
			case types.Uint16:
				prec = 16
			case types.Uint32:
				prec = 32
			default:
				prec = 64
			}
		}
	}
	return constant.UnaryOp(token.XOR, v, prec)
}

// firstByteOf is the key of the string the value is the first byte of.
func firstByteOf(v Val) string {
	switch x := v.(type) {
	case VSym:
		if x.typ == nil && strings.HasSuffix(x.path, "[0]") {
			return strings.TrimSuffix(x.path, "[0]")
		}
	case *VExpr:
		if x.op == "index" && x.typ == nil && len(x.args) == 2 && x.args[1].key() == "0" {
			return x.args[0].key()
		}
	}
	return ""
}

// twoLeaves is the value as one condition, if there are only two things that it can be,
// one of which is what it was before.
func (in *Interp) twoLeaves(st *state, v *VCond, old func(Val) bool) Val {
	var a, b Val
	c := fFalse // when it is a
	ok := true
	var walk func(v Val, path *F)
	walk = func(v Val, path *F) {
		if x, is := v.(*VCond); is {
			walk(x.a, fAnd(path, x.c))
			walk(x.b, fAnd(path, fNot(x.c)))
			return
		}
		switch {
		case old(v):
			b = v
		case a == nil || a.key() == v.key():
			a = v
			c = fOr(c, path)
		default:
			ok = false
		}
	}
	walk(v, fTrue)
	if !ok || a == nil || b == nil {
		return v
	}
	return mkCond(in.shrink(c, st), a, b)
}

func orExpr(a, b ast.Expr) ast.Expr {
	if a != nil {
		return a
	}
	return b
}

func isZero(v Val) bool {
	n, ok := constNum(v)
	return ok && n == 0
}

// isLen reports whether the call is one of the built-in len.
func (in *Interp) isLen(fr *frame, c *ast.CallExpr) bool {
	id, ok := ast.Unparen(c.Fun).(*ast.Ident)
	if !ok || id.Name != "len" {
		return false
	}
	_, ok = fr.info.Uses[id].(*types.Builtin)
	return ok
}

// returned tells apart what a function returns; all errors count as one result.
func (in *Interp) returned(fr *frame, o outcome) string {
	key := ""
	for i, v := range o.vals {
		var t types.Type
		if i < len(fr.res) && fr.res[i] != nil {
			t = fr.res[i].Type()
		} else if fr.fn != nil {
			if rs := fr.fn.Type().(*types.Signature).Results(); i < rs.Len() {
				t = rs.At(i).Type()
			}
		}
		if t != nil && isErrType(t) {
			if _, isNil := v.(VNil); !isNil && !isZero(v) {
				return "error"
			}
		}
		if v != nil {
			key += v.key() + ";"
		}
	}
	return key
}
