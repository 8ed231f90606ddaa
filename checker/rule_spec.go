package main

import (
	"embed"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
)

// The rules in this file compare functions of the repository with a specification.
// The specification is a Go function, written for clarity, that is type-checked
// together with the package of the function that is analysed. Neither of them is run:
// both are evaluated over symbolic values, for all inputs at once, and what they
// return, and what they change, has to be the same.

//go:embed spec/*.txt
var specFiles embed.FS

// specCase is one comparison.
type specCase struct {
	fn   string            // the function of the repository
	spec string            // the function it is compared with
	keep []string          // functions that are not looked into, by both
	dyn  map[string]string // the dynamic types of parameters
	mut  map[string]bool   // parameters that are pointers to what is changed
	eff  []string          // what is changed: compared where nothing fails
	ord  [][2]string       // functions that have to be called one after the other
	wide []string          // types of objects that the functions kept change
	enum bool              // the first parameter is each of the constants of its type
	val  constant.Value    // what the first parameter is
}

// specEnv are the specification functions of a package.
type specEnv struct {
	p    *Prog
	rel  string
	pkg  *types.Package
	decl map[*types.Func]*ast.FuncDecl
}

var specEnvs = map[string]*specEnv{}

// loadSpec type-checks the specification of the package, as a further file of it.
func loadSpec(p *Prog, rel, file string) *specEnv {
	if e := specEnvs[rel]; e != nil {
		return e
	}
	src, err := specFiles.ReadFile("spec/" + file)
	if err != nil {
		fail("%v", err)
	}
	pk := p.pkg(rel)
	f, err := parser.ParseFile(p.Fset, "spec/"+file, src, 0)
	if err != nil {
		fail("%v", err)
	}
	var errs []string
	conf := types.Config{Importer: specImporter{p}, Error: func(err error) { errs = append(errs, err.Error()) }}
	if err := types.NewChecker(&conf, p.Fset, pk.Types, pk.TypesInfo).Files([]*ast.File{f}); err != nil || len(errs) > 0 {
		fail("%s does not have the declarations that its specification refers to: %s", rel, strings.Join(errs, "; "))
	}
	e := &specEnv{p: p, rel: rel, pkg: pk.Types, decl: map[*types.Func]*ast.FuncDecl{}}
	for _, d := range f.Decls {
		if d, ok := d.(*ast.FuncDecl); ok {
			if o, ok := pk.TypesInfo.Defs[d.Name].(*types.Func); ok {
				e.decl[o] = d
			}
		}
	}
	specEnvs[rel] = e
	return e
}

type specImporter struct{ p *Prog }

func (i specImporter) Import(path string) (*types.Package, error) {
	if pk := i.p.Pkgs[path]; pk != nil {
		return pk.Types, nil
	}
	return nil, fmt.Errorf("package %s is not loaded", path)
}

// specRun is one evaluation.
type specRun struct {
	in    *Interp
	env   *specEnv
	c     *specCase
	keep  map[string]bool
	names map[string]bool // functions kept that were met
	model []assign        // the last assignment that was found
}

// materialize makes a pointer parameter an object that can be changed: every field is
// what it is in the input.
func materialize(in *Interp, st *state, path string, t types.Type, depth int) Val {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return VSym{path, t}
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return VSym{path, t}
	}
	v := &VStruct{typ: pt.Elem(), fields: map[string]Val{}}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		fp := path + "." + f.Name()
		switch u := f.Type().Underlying().(type) {
		case *types.Slice:
			v.fields[f.Name()] = &VList{typ: f.Type(), items: []Item{{guard: fTrue, kind: 's', val: VSym{fp, f.Type()}}}}
		case *types.Map:
			loc := "in:" + fp
			st.locs[loc] = &VMap{typ: f.Type(), id: fp, base: VSym{fp, f.Type()}}
			v.fields[f.Name()] = VPtr{loc: loc, typ: f.Type()}
		case *types.Pointer:
			if n := f.Name(); depth > 0 && (n == "res" || n == "query" || n == "filter" || n == "info") {
				v.fields[f.Name()] = materialize(in, st, fp, f.Type(), depth-1)
				continue
			}
			_ = u
			v.fields[f.Name()] = VSym{fp, f.Type()}
		default:
			v.fields[f.Name()] = VSym{fp, f.Type()}
		}
	}
	st.locs["in:"+path] = v
	return VPtr{loc: "in:" + path, typ: pt.Elem()}
}

// content replaces what points to an object by the object.
func content(st *state, v Val, stop map[string]bool) Val {
	switch x := v.(type) {
	case VPtr:
		if stop[x.loc] {
			return mkExpr("cycle", nil)
		}
		o, ok := st.locs[x.loc]
		if !ok {
			return v
		}
		if n := strings.TrimPrefix(x.loc, "in:"); n != x.loc && rootNames[n] && len(x.path) == 0 && isCheckerStruct(o) {
			return VSym{n, x.typ}
		}
		n := map[string]bool{x.loc: true}
		for k := range stop {
			n[k] = true
		}
		for _, f := range x.path {
			o = selectField(o, f, fieldTypeOfVal(o, f))
		}
		return mkExpr("&", x.typ, content(st, o, n))
	case *VStruct:
		n := &VStruct{typ: x.typ, fields: map[string]Val{}, base: x.base}
		for f, a := range x.fields {
			n.fields[f] = content(st, a, stop)
		}
		return n
	case *VExpr:
		n := &VExpr{op: x.op, typ: x.typ, args: make([]Val, len(x.args))}
		for i, a := range x.args {
			n.args[i] = content(st, a, stop)
		}
		return n
	case *VCond:
		return mkCond(x.c, content(st, x.a, stop), content(st, x.b, stop))
	case *VList:
		return &VList{items: contentItems(st, x.items, stop), typ: x.typ, size: x.size}
	case *VMap:
		n := &VMap{typ: x.typ, id: "", base: x.base}
		for _, e := range x.ents {
			n.ents = append(n.ents, mapEnt{e.guard, content(st, e.key, stop), content(st, e.val, stop)})
		}
		return n
	}
	return v
}

func isCheckerStruct(v Val) bool {
	s, ok := v.(*VStruct)
	return ok && (strings.HasSuffix(typeName(s.typ), ".checker") || strings.HasSuffix(typeName(s.typ), ".analysis"))
}

// rootNames are the names of the states that the functions change.
var rootNames = map[string]bool{"c": true, "a": true}

func contentItems(st *state, items []Item, stop map[string]bool) []Item {
	var out []Item
	for _, it := range items {
		if it.val != nil {
			it.val = content(st, it.val, stop)
		}
		it.items = contentItems(st, it.items, stop)
		out = append(out, it)
	}
	return out
}

// zeroless drops the fields of a struct that are zero.
func zeroless(v Val) Val {
	return mapVal(v, func(v Val) Val {
		s, ok := v.(*VStruct)
		if !ok {
			return v
		}
		n := &VStruct{typ: s.typ, fields: map[string]Val{}, base: s.base}
		for f, a := range s.fields {
			if s.base == nil && isZeroVal(a) {
				continue
			}
			n.fields[f] = a
		}
		return n
	})
}

func isZeroVal(v Val) bool {
	switch x := v.(type) {
	case nil:
		return true
	case VNil:
		return true
	case VConst:
		return x.key() == `""` || x.key() == "0"
	case VF:
		return x.f.op == 'F'
	case *VList:
		return len(x.items) == 0 && x.size == nil
	case *VStruct:
		if x.base != nil {
			return false
		}
		for _, a := range x.fields {
			if !isZeroVal(a) {
				return false
			}
		}
		return true
	}
	return false
}

func (r *specRun) hook(in *Interp, st *state, fn *types.Func, recv Val, args []Val) ([]Val, bool) {
	sig := fn.Type().(*types.Signature)
	if sig.Results().Len() == 1 && len(args) > 0 {
		// an error is made of its description
		if pt, ok := sig.Results().At(0).Type().(*types.Pointer); ok && typeOrNil(args[0]) != nil && types.Identical(typeOrNil(args[0]), pt.Elem()) {
			return []Val{in.alloc(st, args[0], pt.Elem())}, true
		}
	}
	if fn.Name() == "error" && sig.Recv() != nil && len(in.stack) > 0 {
		// what makes the errors of the analysis: see vaError
		if tn, ok := r.env.pkg.Scope().Lookup("anError").(*types.TypeName); ok {
			return []Val{in.alloc(st, &VStruct{typ: tn.Type(), fields: map[string]Val{}}, tn.Type())}, true
		}
	}
	if !r.keep[fn.Name()] || len(in.stack) == 0 {
		return nil, false
	}
	r.names[fn.Name()] = true
	in.event(st, "kept", mkStr(fn.Name()))
	if recv != nil {
		args = append([]Val{recv}, args...)
	}
	vs := make([]Val, len(args))
	for i, a := range args {
		vs[i] = zeroless(in.simplify(content(st, a, nil), st.pc))
	}
	// the name of the call, so that both evaluations have the same one
	if i, ok := fillsArg[fn.Name()]; ok && i < len(args) {
		// what the argument points to has the name of the last argument from now on
		if p, ok := args[i].(VPtr); ok {
			in.store(st, p, VSym{"made:" + fn.Name() + "(" + vs[len(vs)-1].key() + ")", p.typ}, fn.Pos())
		}
	}
	return in.once(st, fn.Name(), vs, func(vs []Val) []Val {
		key := "call:" + fn.Name() + "("
		for i, v := range vs {
			if i > 0 {
				key += ","
			}
			key += v.key()
		}
		return opaqueResults(key+")", nil, sig)
	}), true
}

// once is what do makes of the values, or what it made of the same values before: what it
// makes has a name that consists of the values, and the same values can be written in
// different ways.
func (in *Interp) once(st *state, what string, vs []Val, do func([]Val) []Val) []Val {
	hard := false
	for _, v := range vs {
		hard = hard || innerCond(v) != nil
	}
	if !hard {
		return do(vs)
	}
	for _, m := range in.made[what] {
		same := len(m.in) == len(vs)
		for i := 0; same && i < len(vs); i++ {
			same = in.same(st.pc, m.in[i], vs[i])
		}
		if same {
			return append([]Val{}, m.out...)
		}
	}
	out := in.byCases(st.pc, vs, 0, do)
	if in.made == nil {
		in.made = map[string][]madeOf{}
	}
	in.made[what] = append(in.made[what], madeOf{vs, append([]Val{}, out...)})
	return out
}

// fillsArg has the functions that, when they are not looked into, fill in what an argument
// points to.
var fillsArg = map[string]int{"analyzeRelType": 1}

type madeOf struct{ in, out []Val }

// byCases does something with values for each of the cases that are in them.
func (in *Interp) byCases(facts []*F, vs []Val, depth int, do func([]Val) []Val) []Val {
	var c *F
	for _, v := range vs {
		if c = innerCond(v); c != nil {
			break
		}
	}
	if c == nil || depth > 5 {
		return do(vs)
	}
	given := func(f *F) []Val {
		fs := with(facts, f)
		if !fSat(fAnd(fs...)) {
			return nil
		}
		out := make([]Val, len(vs))
		for i, v := range vs {
			out[i] = in.simplify(v, fs)
		}
		return in.byCases(fs, out, depth+1, do)
	}
	x, y := given(c), given(fNot(c))
	if x == nil {
		return y
	}
	if y == nil {
		return x
	}
	for i := range x {
		x[i] = mkCond(c, x[i], y[i])
	}
	return x
}

// innerCond is the condition of a case distinction in the value.
func innerCond(v Val) *F {
	switch x := v.(type) {
	case *VCond:
		return x.c
	case *VStruct:
		for _, f := range sortedFields(x.fields) {
			if c := innerCond(x.fields[f]); c != nil {
				return c
			}
		}
		if x.base != nil {
			return innerCond(x.base)
		}
	case *VExpr:
		if x.op != "index" && !strings.HasPrefix(x.op, "conv:") {
			return nil
		}
		for _, a := range x.args {
			if c := innerCond(a); c != nil {
				return c
			}
		}
	}
	return nil
}

func sortedFields(m map[string]Val) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}

func typeOrNil(v Val) types.Type {
	switch x := v.(type) {
	case VConst:
		return x.typ
	case VSym:
		return x.typ
	case *VExpr:
		return x.typ
	case *VStruct:
		return x.typ
	}
	return nil
}

// eval evaluates the function for the parameters.
func (r *specRun) eval(fn *types.Func) (out []Val, st *state) {
	in := r.in
	st = &state{locs: map[string]Val{}}
	sig := fn.Type().(*types.Signature)
	var args []Val
	params := []*types.Var{}
	if sig.Recv() != nil {
		params = append(params, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		params = append(params, sig.Params().At(i))
	}
	for i, pv := range params {
		name, t := "p"+strconv.Itoa(i), pv.Type()
		if i == 0 && r.c.val != nil {
			args = append(args, VConst{r.c.val, t})
			continue
		}
		if isPtrTo(t, "checker") {
			args = append(args, materialize(in, st, "c", t, 2))
			continue
		}
		if isPtrTo(t, "analysis") {
			args = append(args, materialize(in, st, "a", t, 2))
			continue
		}
		if d := r.c.dyn[strconv.Itoa(i)]; d != "" {
			t = r.lookupType(d)
		}
		if isPtrTo(t, "FieldConditional") || isPtrTo(t, "ColumnConditional") || r.c.mut[strconv.Itoa(i)] {
			args = append(args, materialize(in, st, name, t, 0))
			continue
		}
		args = append(args, VSym{name, t})
	}
	var recv Val
	if sig.Recv() != nil {
		recv, args = args[0], args[1:]
	}
	out = in.callFunc(st, fn, recv, args, fn.Pos())
	return out, st
}

// lookup finds a function, or a method, which is written as Type.Method.
func (e *specEnv) lookup(name string) *types.Func {
	i := strings.Index(name, ".")
	if i < 0 {
		fn, _ := e.pkg.Scope().Lookup(name).(*types.Func)
		return fn
	}
	tn, _ := e.pkg.Scope().Lookup(name[:i]).(*types.TypeName)
	if tn == nil {
		return nil
	}
	o, _, _ := types.LookupFieldOrMethod(types.NewPointer(tn.Type()), true, e.pkg, name[i+1:])
	fn, _ := o.(*types.Func)
	return fn
}

func isPtrTo(t types.Type, name string) bool {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := pt.Elem().(*types.Named)
	return ok && n.Obj().Name() == name
}

func (r *specRun) lookupType(s string) types.Type {
	i := strings.LastIndex(s, ".")
	o := r.env.p.pkg(s[:i]).Types.Scope().Lookup(s[i+1:])
	if o == nil {
		fail("type %s not found", s)
	}
	return types.NewPointer(o.Type())
}

// compareSpec evaluates both functions and compares them.
func compareSpec(rep *Report, env *specEnv, c specCase) {
	if fn := env.lookup(c.fn); c.enum && fn != nil {
		sig := fn.Type().(*types.Signature)
		v := sig.Recv()
		if v == nil {
			v = sig.Params().At(0)
		}
		vals := constantsOf(v.Type())
		if len(vals) < 3 {
			rep.Bad(env.rel+"."+c.fn, "its parameter is not of a type with constants any more")
			return
		}
		for _, x := range vals {
			c := c
			c.enum, c.val = false, x
			compareSpec(rep, env, c)
		}
		return
	}
	fn := env.lookup(c.fn)
	spec, _ := env.pkg.Scope().Lookup(c.spec).(*types.Func)
	if spec == nil {
		fail("specification %s not found", c.spec)
	}
	if fn == nil {
		rep.Bad(env.rel+"."+c.fn, "the function that decides this is not there any more, so nothing is known about it")
		return
	}
	where := env.p.pos(fn.Pos())
	site := env.rel + "." + c.fn
	if c.val != nil {
		site += "(" + c.val.String() + ")"
	}
	in := newInterp(env.p, env.rel)
	for o, d := range env.decl {
		in.decls[o] = d
	}
	r := &specRun{in: in, env: env, c: &c, keep: map[string]bool{}, names: map[string]bool{}}
	for _, k := range c.keep {
		r.keep[k] = true
	}
	in.hook = r.hook
	in.elems, in.wide = true, map[string]bool{}
	for _, t := range c.wide {
		in.wide[t] = true
	}
	in.same = func(facts []*F, a, b Val) bool { return r.sameVal(facts, a, b, 0) == "" }
	defer func() {
		if x := recover(); x != nil {
			u, ok := x.(undecided)
			if !ok {
				panic(x)
			}
			if strings.HasPrefix(u.msg, "labelled loop") {
				// not a loop over a stack any more: not compared
				rep.Note("%s: not compared, %s", site, u.msg)
				return
			}
			rep.Bad(site, "it cannot be shown that the function does what is specified: %s (%s)", u.msg, where)
		}
	}()
	a, sa := r.eval(fn)
	b, sb := r.eval(spec)
	if len(a) != len(b) {
		// the specification says only whether it succeeds
		if len(b) != 1 {
			rep.Bad(site, "the function has other results than specified (%s)", where)
			return
		}
	}
	if sb.locs["ghost:init"] != nil && sa.locs["ghost:init"] == nil {
		rep.Note("%s: not compared, it does not use a stack any more (%s)", site, where)
		return
	}
	facts := append([]*F{}, in.axioms...)
	ok := fTrue
	for i := range b {
		rt := spec.Type().(*types.Signature).Results().At(i).Type()
		va, vb := a[i], b[i]
		if isErrType(rt) || typeName(rt) == "bool" {
			fa, fb := r.success(sa, va, fn.Type().(*types.Signature).Results().At(i).Type()), r.success(sb, vb, rt)
			if d := r.differ(facts, fa, fb); d != "" {
				rep.Bad(site, "%s (%s)", d, where)
			} else {
				rep.Ok(site + ": it fails exactly where it is specified to")
			}
			ok = fAnd(fa, fb)
		}
	}
	facts = with(facts, ok)
	if !fSat(fAnd(facts...)) && len(c.eff) > 0 {
		rep.Bad(site, "it cannot succeed, as far as this can tell (%s)", where)
		return
	}
	for i := range b {
		rt := spec.Type().(*types.Signature).Results().At(i).Type()
		if isErrType(rt) || typeName(rt) == "bool" {
			continue
		}
		r.value(rep, facts, site, where, "result "+strconv.Itoa(i), a[i], sa, b[i], sb)
	}
	for _, e := range c.eff {
		va, vb := r.effect(sa, e), r.effect(sb, e)
		what := e
		if n := ghostNames[e]; n != "" {
			what = n
		}
		r.value(rep, facts, site, where, what, va, sa, vb, sb)
	}
	if len(c.ord) > 0 {
		pos := map[string]int{}
		if l, isList := sa.locs["ghost:kept"].(*VList); isList {
			for i, it := range l.items {
				if s, isStr := constStr(it.val); isStr {
					if _, dup := pos[s]; !dup {
						pos[s] = i
					}
				}
			}
		}
		for _, o := range c.ord {
			i, ok1 := pos[o[0]]
			j, ok2 := pos[o[1]]
			if !ok1 || !ok2 || i > j {
				rep.Bad(site, "%s needs what %s has found, but is not called after it (%s)", o[1], o[0], where)
			} else {
				rep.Ok(site + ": " + o[0] + " comes before " + o[1])
			}
		}
	}
}

func isErrType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type()) || strings.HasSuffix(typeName(t), "dbErrorCode") || strings.HasSuffix(typeName(t), "errorCode")
}

// success is the formula that the result says that nothing failed.
func (r *specRun) success(st *state, v Val, t types.Type) *F {
	if f, ok := asF(v); ok {
		return f
	}
	if typeName(t) == "bool" {
		return r.in.truth(v)
	}
	return r.nilF(v, fTrue)
}

// nilF is the formula that v is nil, where path holds.
func (r *specRun) nilF(v Val, path *F) *F {
	switch x := v.(type) {
	case VNil:
		return fTrue
	case VPtr:
		return fFalse
	case VConst:
		if x.key() == "0" {
			return fTrue
		}
		return fFalse
	case *VCond:
		return fOr(fAnd(x.c, r.nilF(x.a, fAnd(path, x.c))), fAnd(fNot(x.c), r.nilF(x.b, fAnd(path, fNot(x.c)))))
	}
	key := v.key()
	if strings.HasSuffix(key, "[*]") {
		return fFalse
	}
	f := fAtom(key, "nil")
	if t := typeOrNil(v); t != nil {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
			f = fAtom(key, "0")
		}
	}
	// what a loop returns belongs to the element that made it return
	for name := range path.variables() {
		at := r.in.somes[name]
		if at == nil || !strings.Contains(key, at.src+"[*]") && !(strings.HasPrefix(at.src, "upto(") && strings.Contains(key, "idx(")) || r.sat(fAnd(path, fNot(fBool(name)))) {
			continue
		}
		if !fSat(fAnd(at.cond, f, path)) {
			return fFalse
		}
	}
	return f
}

// differ explains where the formulas differ.
func (r *specRun) differ(facts []*F, impl, spec *F) string {
	f := fAnd(facts...)
	if impl.k == spec.k {
		return ""
	}
	if r.sat(fAnd(f, impl, fNot(spec))) {
		r.debug("accepts", fAnd(f, impl, fNot(spec)))
		return "it succeeds where it has to fail"
	}
	if r.sat(fAnd(f, spec, fNot(impl))) {
		r.debug("rejects", fAnd(f, spec, fNot(impl)))
		return "it fails where it has to succeed"
	}
	return ""
}

func (r *specRun) debug(what string, f *F) {
	if os.Getenv("GDBG2") == "" {
		return
	}
	for _, a := range r.model {
		if a.c != "<other>" {
			fmt.Println("   ", what, a.v, "=", a.c)
		} else if r.in.somes[a.v] != nil {
			fmt.Println("   ", what, "no", a.v)
		}
	}
}

// sat reports whether f can hold. That some element of a list satisfies a condition
// means that the condition can hold together with what no element satisfies.
func (r *specRun) sat(f *F) bool {
	for n := 0; n < 400; n++ {
		if !fSat(f) {
			return false
		}
		r.model = explainF(f)
		lemma := r.conflict(r.model)
		if lemma == nil {
			return true
		}
		f = fAnd(f, lemma)
	}
	return true
}

// conflict is a formula that always holds and excludes the assignment.
func (r *specRun) conflict(asg []assign) *F {
	none := map[string][]*someAtom{}
	var is []*someAtom
	for _, a := range asg {
		at := r.in.somes[a.v]
		if at == nil {
			continue
		}
		if a.c == "true" {
			is = append(is, at)
		} else {
			none[at.src] = append(none[at.src], at)
		}
	}
	for _, at := range is {
		one := fAnd(at.cond, fNot(fAtom("len("+at.src+")", "0")))
		fs := []*F{one}
		for _, o := range none[at.src] {
			fs = append(fs, fNot(o.cond))
		}
		if fSat(fAnd(fs...)) {
			continue
		}
		// which of them are needed
		need := none[at.src]
		for i := 0; i < len(need); {
			rest := append(append([]*someAtom{}, need[:i]...), need[i+1:]...)
			fs := []*F{one}
			for _, o := range rest {
				fs = append(fs, fNot(o.cond))
			}
			if fSat(fAnd(fs...)) {
				i++
			} else {
				need = rest
			}
		}
		lemma := []*F{fNot(fBool(at.name))}
		for _, o := range need {
			lemma = append(lemma, fBool(o.name))
		}
		return fOr(lemma...)
	}
	return nil
}

type assign struct{ v, c string }

// explainF is an assignment that satisfies f.
func explainF(f *F) []assign {
	var out []assign
	for {
		vs := f.variables()
		if len(vs) == 0 {
			break
		}
		var names []string
		for v := range vs {
			names = append(names, v)
		}
		sort.Strings(names)
		v := names[0]
		cs := map[string]bool{"<other>": true}
		f.consts(v, cs)
		found := false
		for _, k := range sortedKeys(cs) {
			if g := f.with(v, k); fSat(g) {
				out = append(out, assign{v, k})
				f, found = g, true
				break
			}
		}
		if !found {
			break
		}
	}
	return out
}

// effect is what a place holds after the evaluation.
func (r *specRun) effect(st *state, path string) Val {
	if strings.HasPrefix(path, "ghost:") {
		if v := st.locs[path]; v != nil {
			return v
		}
		return VNil{}
	}
	parts := strings.Split(path, ".")
	v, ok := st.locs["in:"+parts[0]]
	if !ok {
		return VSym{path, nil}
	}
	for _, f := range parts[1:] {
		for {
			if p, isPtr := v.(VPtr); isPtr {
				v = st.locs[p.loc]
				continue
			}
			break
		}
		v = selectField(v, f, fieldTypeOfVal(v, f))
	}
	return v
}

// value compares two values under the facts.
func (r *specRun) value(rep *Report, facts []*F, site, where, what string, a Val, sa *state, b Val, sb *state) {
	in := r.in
	x := zeroless(in.simplify(content(sa, a, nil), facts))
	y := zeroless(in.simplify(content(sb, b, nil), facts))
	if os.Getenv("GDBG4") != "" {
		fmt.Println("V", site, what, "\n  ", x.key(), "\n  ", y.key(), "\n  ", fAnd(facts...).k)
	}
	if d := r.sameVal(facts, x, y, 0); d != "" {
		rep.Bad(site, "%s is not what is specified: %s (%s)", what, d, where)
		return
	}
	rep.Ok(site + ": " + what + " is what is specified")
}

// mapWhere is the map with what is known about its entries.
func (r *specRun) mapWhere(m *VMap, facts []*F) *VMap {
	f := fAnd(facts...)
	n := &VMap{typ: m.typ, id: m.id, base: m.base}
	for _, e := range m.ents {
		if !r.sat(fAnd(f, e.guard)) {
			continue
		}
		if !r.sat(fAnd(f, fNot(e.guard))) {
			e.guard = fTrue
		}
		n.ents = append(n.ents, mapEnt{e.guard, r.in.simplify(e.key, facts), r.in.simplify(e.val, facts)})
	}
	return n
}

// sameVal is "" if the values are the same for all inputs that satisfy the facts.
func (r *specRun) sameVal(facts []*F, a, b Val, depth int) string {
	if a == nil {
		a = VNil{}
	}
	if b == nil {
		b = VNil{}
	}
	if a.key() == b.key() || !r.sat(fAnd(facts...)) {
		return ""
	}
	if isZeroVal(a) && isZeroVal(b) {
		return ""
	}
	if depth > 300 {
		return "too deep"
	}
	sub := func(c *F, x1, y1, x2, y2 Val) string {
		if d := r.sameVal(with(facts, c), x1, y1, depth+1); d != "" {
			return d
		}
		return r.sameVal(with(facts, fNot(c)), x2, y2, depth+1)
	}
	if x, ok := a.(*VCond); ok {
		return sub(x.c, x.a, b, x.b, b)
	}
	if y, ok := b.(*VCond); ok {
		return sub(y.c, a, y.a, a, y.b)
	}
	fa, ok1 := asF(a)
	fb, ok2 := asF(b)
	if ok1 && ok2 {
		f := fAnd(facts...)
		if r.sat(fAnd(f, fa, fNot(fb))) || r.sat(fAnd(f, fb, fNot(fa))) {
			return "it holds in other cases"
		}
		return ""
	}
	switch x := a.(type) {
	case *VStruct:
		y, ok := b.(*VStruct)
		if !ok {
			break
		}
		if !types.Identical(x.typ, y.typ) && !(inFunc(x.typ) && inFunc(y.typ)) {
			return typeName(x.typ) + " instead of " + typeName(y.typ)
		}
		fs := map[string]bool{}
		for f := range x.fields {
			fs[f] = true
		}
		for f := range y.fields {
			fs[f] = true
		}
		get := func(s *VStruct, f string) Val {
			if v, ok := s.fields[f]; ok {
				return v
			}
			ft := fieldType(s.typ, f)
			if s.base != nil {
				return selectField(s.base, f, ft)
			}
			return zeroVal(ft)
		}
		for _, f := range sortedKeys(fs) {
			if d := r.sameVal(facts, get(x, f), get(y, f), depth+1); d != "" {
				return "." + f + ": " + d
			}
		}
		if (x.base == nil) != (y.base == nil) || x.base != nil && x.base.key() != y.base.key() {
			return "another value is copied"
		}
		return ""
	case *VExpr:
		y, ok := b.(*VExpr)
		if ok && x.op == y.op && len(x.args) == len(y.args) && len(x.args) > 0 {
			for i := range x.args {
				if d := r.sameVal(facts, x.args[i], y.args[i], depth+1); d != "" {
					return d
				}
			}
			return ""
		}
	case *VList:
		if y, ok := b.(*VList); ok {
			return r.sameItems(facts, x.items, y.items, depth+1)
		}
		if isZeroVal(b) {
			return r.sameItems(facts, x.items, nil, depth+1)
		}
	case VNil:
		if y, ok := b.(*VList); ok {
			return r.sameItems(facts, nil, y.items, depth+1)
		}
	case *VMap:
		y, ok := b.(*VMap)
		if ok && len(x.ents) == len(y.ents) && (x.base == nil) == (y.base == nil) && (x.base == nil || x.base.key() == y.base.key()) {
			for i := range x.ents {
				if d := r.sameVal(facts, VF{x.ents[i].guard}, VF{y.ents[i].guard}, depth+1); d != "" {
					return d
				}
				if d := r.sameVal(facts, x.ents[i].key, y.ents[i].key, depth+1); d != "" {
					return d
				}
				if d := r.sameVal(facts, x.ents[i].val, y.ents[i].val, depth+1); d != "" {
					return d
				}
			}
			return ""
		}
		if ok && (x.base == nil) == (y.base == nil) && (x.base == nil || x.base.key() == y.base.key()) {
			// in each case, which entries there are
			for _, e := range append(append([]mapEnt{}, x.ents...), y.ents...) {
				c := e.guard
				if c.op == 'T' || c.op == 'F' {
					if c = innerCond(e.key); c == nil {
						continue
					}
				}
				for _, c := range []*F{c, fNot(c)} {
					f := with(facts, c)
					if !r.sat(fAnd(f...)) {
						continue
					}
					if d := r.sameVal(f, r.mapWhere(x, f), r.mapWhere(y, f), depth+1); d != "" {
						return d
					}
				}
				return ""
			}
		}
	}
	// one evaluation knows the value from the facts, the other one does not
	f := fAnd(facts...)
	eq := r.in.cmp(&state{pc: facts, locs: map[string]Val{}}, token.EQL, a, b)
	if eq != nil && !r.sat(fAnd(f, fNot(eq))) {
		return ""
	}
	if os.Getenv("GDBG3") != "" {
		fmt.Println("X", a.key(), "\nY", b.key())
	}
	return short(a, 90) + " instead of " + short(b, 90)
}

// join makes one item of neighbours of which there is at most one.
func (r *specRun) join(facts []*F, items []Item) []Item {
	var out []Item
	for _, it := range items {
		if n := len(out); n > 0 && it.kind == 'e' && out[n-1].kind == 'e' && it.val != nil && out[n-1].val != nil &&
			!r.sat(fAnd(append(append([]*F{}, facts...), it.guard, out[n-1].guard)...)) {
			out[n-1].val = mkCond(it.guard, it.val, out[n-1].val)
			out[n-1].guard = fOr(out[n-1].guard, it.guard)
			continue
		}
		out = append(out, it)
	}
	return out
}

// elemFacts adds what holds for the element of the list, because it holds for all.
func (r *specRun) elemFacts(facts []*F, src Val) []*F {
	all := fAnd(facts...)
	for _, at := range r.in.someBy[src.key()] {
		if !fSat(fAnd(all, fBool(at.name))) {
			facts = with(facts, fNot(at.cond))
		}
	}
	return with(facts, fNot(fAtom("len("+src.key()+")", "0")))
}

func (r *specRun) sameItems(facts []*F, a, b []Item, depth int) string {
	in := r.in
	a, b = r.join(facts, in.simplifyItems(a, facts)), r.join(facts, in.simplifyItems(b, facts))
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) {
			return "an element is missing"
		}
		if i >= len(b) {
			return "there is an element too many"
		}
		x, y := a[i], b[i]
		if x.kind != y.kind {
			return "it is put together in another way"
		}
		if d := r.sameVal(facts, VF{x.guard}, VF{y.guard}, depth+1); d != "" {
			if os.Getenv("GDBG2") != "" {
				fmt.Println("   A", x.guard.k, "\n   B", y.guard.k)
			}
			return "an element is there in other cases"
		}
		f := with(facts, x.guard)
		if (x.val == nil) != (y.val == nil) {
			return "another element"
		}
		if x.val != nil {
			if d := r.sameVal(f, x.val, y.val, depth+1); d != "" {
				return d
			}
		}
		if x.kind == 'r' {
			if x.src == nil || y.src == nil || x.src.key() != y.src.key() {
				return "the elements are those of another list"
			}
			if d := r.sameItems(r.elemFacts(f, x.src), x.items, y.items, depth+1); d != "" {
				return d
			}
		}
	}
	return ""
}

// inFunc reports whether the type is declared in a function.
func inFunc(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Parent() != n.Obj().Pkg().Scope()
}

var ghostNames = map[string]string{
	"ghost:init":   "what the loop over the structs starts with",
	"ghost:more":   "whether there is another field",
	"ghost:step":   "what is done with a field",
	"ghost:done":   "what is done with a struct at its end",
	"ghost:stored": "what is stored in a variable of the package",
}
