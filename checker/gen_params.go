package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"runtime"
	"strings"
	"sync"
)

// allocFunc is the function of the generator that hands out the numbers of the
// parameters of a query.
func allocFunc(in *Interp) *types.Func {
	for fn := range in.decls {
		sig := fn.Type().(*types.Signature)
		if fn.Pkg() == in.mainPkg && sig.Results().Len() == 1 && typeName(sig.Results().At(0).Type()) == "sqlang.OrdinalParameterSpec" {
			return fn
		}
	}
	return nil
}

// counterField finds the field in which the function counts.
func counterField(in *Interp, fn *types.Func) *types.Var {
	var out *types.Var
	seen := map[*types.Func]bool{}
	var visit func(fn *types.Func)
	visit = func(fn *types.Func) {
		d := in.decls[fn]
		if d == nil || seen[fn] || fn.Pkg() != in.mainPkg {
			return
		}
		seen[fn] = true
		info := in.infos[fn.Pkg()]
		count := func(e ast.Expr) {
			if se, ok := e.(*ast.SelectorExpr); ok {
				if v, ok := info.Uses[se.Sel].(*types.Var); ok && v.IsField() {
					if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						out = v
					}
				}
			}
		}
		ast.Inspect(d.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.IncDecStmt:
				count(n.X)
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					count(l)
				}
			case *ast.CallExpr:
				switch f := n.Fun.(type) {
				case *ast.Ident:
					if g, ok := info.Uses[f].(*types.Func); ok {
						visit(g)
					}
				case *ast.SelectorExpr:
					if g, ok := info.Uses[f.Sel].(*types.Func); ok {
						visit(g)
					}
				}
			}
			return true
		})
	}
	visit(fn)
	return out
}

// fieldPath is the path by which generated code reads the field that v points to.
func (r *genRun) fieldPath(v Val) (string, bool) {
	s, ok := v.(VSym)
	if !ok {
		return "", false
	}
	switch t := typeName(s.typ); {
	case t == "*analysis.FieldInfo":
		root := "q.<qs.Rel.FieldName>"
		if r.rows() {
			root = "v"
		}
		return root + ".for(" + s.path + ".Selector)<" + s.path + ".Selector[*].Name>.<" + s.path + ".Name>", true
	case t == "*analysis.LimitField" || t == "*analysis.OffsetField":
		return "q.<" + s.path + ".Name>", true
	case strings.HasPrefix(s.path, "info.Where[*]"):
		p := r.wherePath(s.path)
		return p, p != ""
	}
	return "", false
}

// wherePath is the path of the field of a conditional.
func (r *genRun) wherePath(path string) string {
	switch {
	case path == "info.Where[*]":
		return "q.<qs.Where.FieldName>.<info.Where[*].FieldName>"
	case strings.HasSuffix(path, ".LowerBound") || strings.HasSuffix(path, ".UpperBound"):
		if p := r.wherePath(path[:strings.LastIndexByte(path, '.')]); p != "" {
			return p + ".<" + path + ".FieldName>"
		}
	}
	return ""
}

// recArg is the part of the input that a recursive call is for, and the access path that
// is passed along.
func recArg(v Val) (arg, path string, ok bool) {
	e, isE := v.(*VExpr)
	if !isE || !strings.HasPrefix(e.op, "rec") || len(e.args) == 0 {
		return "", "", false
	}
	for _, a := range e.args[1:] {
		if isNode(a, "golang.SelectorExpr") != nil {
			if p, ok := chain(a); ok {
				path = p
			}
		}
	}
	return e.args[0].key(), path, true
}

// allocSeq is the sequence of the fields for which the query has a parameter, in the
// order of the parameters' numbers.
func (r *genRun) allocSeq(facts []*F) ([]gseq, error) {
	l, ok := r.in.simplify(orNil(r.st.locs["ghost:alloc"]), facts).(*VList)
	if !ok {
		return nil, fmt.Errorf("the parameters are not a list")
	}
	s := flatSeq(l.items, func(v Val) (string, bool) {
		if e, ok := v.(*VExpr); ok && (e.op == "unalloc" || e.op == "setcounter") {
			return e.op, true
		}
		return r.fieldPath(v)
	})
	s = mapSeq(s, func(e gseq) []gseq {
		if e.kind == 'c' {
			if a, _, ok := recArg(e.v); ok {
				e.key = a
			} else {
				e.kind = '?'
			}
		}
		return []gseq{e}
	})
	// a number that is handed back is not used
	var err error
	var undo func(s []gseq) []gseq
	undo = func(s []gseq) []gseq {
		var out []gseq
		for _, e := range s {
			if e.kind == 'r' {
				e.kids = undo(e.kids)
			}
			if e.kind == 'e' && e.key == "unalloc" {
				n := len(out) - 1
				for n >= 0 && out[n].kind == 'e' && !r.in.implies(facts, e.g, out[n].g) && !fSat(fAnd(e.g, out[n].g)) {
					n--
				}
				if n < 0 || out[n].kind != 'e' || !r.in.implies(facts, e.g, out[n].g) {
					err = fmt.Errorf("a number is handed back that was not handed out just before")
					continue
				}
				out[n].g = fAnd(out[n].g, fNot(e.g))
				continue
			}
			if e.kind == 'e' && e.key == "setcounter" {
				err = fmt.Errorf("the number of parameters is changed to %s", short(e.v, 80))
				continue
			}
			out = append(out, e)
		}
		return out
	}
	s = undo(s)
	// a field has one number, whichever place asks for it first
	type earlier struct {
		src  Val
		key  string
		g, o *F
		v    Val
	}
	var seen []earlier
	var dedup func(s []gseq, src Val, outer *F) []gseq
	dedup = func(s []gseq, src Val, outer *F) []gseq {
		var out []gseq
		for _, e := range s {
			switch e.kind {
			case 'r':
				e.kids = dedup(e.kids, e.src, fAnd(outer, e.g))
			case 'e':
				g := e.g
				for _, x := range seen {
					if (x.src == nil) != (src == nil) || x.src != nil && x.src.key() != src.key() {
						if x.v == nil || e.v == nil || src == nil || x.src == nil {
							continue
						}
						if typeName(dynTypeLoose(x.v)) != "*analysis.FieldInfo" || typeName(dynTypeLoose(e.v)) != "*analysis.FieldInfo" {
							continue
						}
						eq := r.in.cmp(&state{pc: facts}, token.EQL, e.v, x.v)
						g = fAnd(g, fNot(fAnd(x.o, r.in.some(x.src.key(), fAnd(eq, x.g)))))
					} else if x.key == e.key {
						g = fAnd(g, fNot(fAnd(x.o, x.g)))
					}
				}
				seen = append(seen, earlier{src, e.key, e.g, outer, e.v})
				e.g = g
				if r.in.decide(&state{pc: facts}, fAnd(outer, g)) == -1 {
					continue
				}
			}
			out = append(out, e)
		}
		return out
	}
	return dedup(s, nil, fTrue), err
}

func (in *Interp) implies(facts []*F, a, b *F) bool {
	return in.decide(&state{pc: facts}, fOr(fNot(a), b)) == 1
}

// argSeq is the sequence of the fields that the items read.
func (r *genRun) argSeq(items []Item) []gseq {
	s := flatSeq(items, func(v Val) (string, bool) {
		p, _, ok := argChain(v)
		return p, ok
	})
	return mapSeq(s, func(e gseq) []gseq {
		if e.kind == 'c' || e.kind == '?' {
			a, p, ok := recArg(e.v)
			if !ok {
				e.kind = '?'
				return []gseq{e}
			}
			e.kind, e.key = 'c', a
			// the elements of the part are read by the path of the part
			if want := r.wherePath("info.Where[*]"); a != "info.Where[*].Conditionals" || p != "" && p != want {
				e.key = a + " read by " + p
			}
		}
		return []gseq{e}
	})
}

// queryCall is a call of a query method in the generated code.
type queryCall struct {
	name  string
	guard *F
	args  []Item
	ell   *F
}

func queryCalls(file Val) []queryCall {
	var out []queryCall
	for _, e := range flattenGuards(project(file, fTrue, func(v Val) (string, bool) {
		c := isNode(v, "golang.CallExpr")
		if c == nil {
			return "", false
		}
		q := isNode(field(c, "Fun"), "golang.QualifiedIdent")
		if q == nil {
			return "", false
		}
		if pk, ok := constStr(field(q, "Package")); !ok || pk != "c" {
			return "", false
		}
		return "call", true
	}), fTrue) {
		c, ok := e.v.(*VStruct)
		if !ok || e.kind != 'e' {
			continue
		}
		fn := isNode(field(c, "Fun"), "golang.QualifiedIdent")
		al := isNode(field(c, "Args"), "golang.ArgsList")
		if al == nil {
			continue
		}
		cases(field(fn, "Name"), e.g, func(n Val, g *F) {
			name, _ := constStr(n)
			ell, ok := asF(field(al, "Ellipsis"))
			if !ok {
				ell = fFalse
			}
			out = append(out, queryCall{name, g, listOf(field(al, "List")), ell})
		})
	}
	return out
}

// flattenGuards lists the elements that are in no loop.
func flattenGuards(s []gseq, g *F) []gseq {
	var out []gseq
	for _, e := range s {
		e.g = fAnd(g, e.g)
		if e.kind == 'r' {
			out = append(out, flattenGuards(e.kids, e.g)...)
			continue
		}
		out = append(out, e)
	}
	return out
}

// checkParams checks that the arguments of every query call are the fields of the query's
// parameters in the order of the parameters' numbers.
func (r *genRun) checkParams(rep *Report) {
	in := r.in
	file := in.simplify(r.file, nil)
	calls := queryCalls(file)
	where := r.cfg.name
	if len(calls) == 0 {
		rep.Note("%s: no query call was found", where)
		return
	}
	for _, c := range calls {
		name := where + " " + c.name
		r.checkCall(rep, name, file, c, fAnd(c.guard, c.ell), true)
		r.checkCall(rep, name, file, c, fAnd(c.guard, fNot(c.ell)), false)
	}
}

func (r *genRun) checkCall(rep *Report, name string, file Val, c queryCall, guard *F, ell bool) {
	in := r.in
	if !fSat(fAnd(append(append([]*F{}, in.axioms...), guard)...)) {
		return
	}
	facts := with(nil, guard)
	allocs, err := r.allocSeq(facts)
	if err != nil {
		rep.Bad(name, "%v", err)
		return
	}
	args := in.simplifyItems(c.args, facts)
	if len(args) == 0 || args[0].kind != 'e' || args[0].guard != fTrue {
		rep.Note("%s: the first argument is not understood", name)
		return
	}
	if args = args[1:]; !ell {
		r.same(rep, name, "the arguments", allocs, r.argSeq(args), facts)
		return
	}
	if len(args) == 1 && args[0].kind == 'e' && args[0].guard == fTrue {
		if params, ok := constOfIdent(args[0].val); ok {
			r.checkBuilt(rep, name, params, in.simplify(file, facts), facts, allocs)
			return
		}
	}
	rep.Bad(name, "the list of arguments that is passed is not a variable")
}

func (r *genRun) same(rep *Report, name, what string, allocs, args []gseq, facts []*F) {
	d, unsure := r.in.seqDiff(allocs, args, facts)
	switch {
	case d == "":
		rep.Ok(fmt.Sprintf("%s: %s are the fields of the parameters, in order: %s", name, what, trunc(seqString(args), 300)))
	case unsure:
		rep.Note("%s: %s: undecided: %s", name, what, d)
	default:
		rep.Bad(name, "%s are not the fields of the parameters in the order of their numbers: parameters [%s], %s [%s]: %s", what, trunc(seqString(allocs), 400), what, trunc(seqString(args), 400), d)
	}
}

// checkBuilt checks a list of arguments that is built by the statements before the call.
func (r *genRun) checkBuilt(rep *Report, name, params string, file Val, facts []*F, allocs []gseq) {
	in := r.in
	// v[i] = x
	assigns := project(file, fTrue, func(v Val) (string, bool) {
		a := isNode(v, "golang.AssignStmt")
		if a == nil {
			return "", false
		}
		ix := isNode(field(a, "Lhs"), "golang.IndexExpr")
		if ix == nil {
			return "", false
		}
		n, ok := constOfIdent(field(ix, "X"))
		return "assign", ok && n == params
	})
	if r.cfg.qual == "filter" {
		r.checkFilterArgs(rep, name, params, file, facts, allocs)
		return
	}
	if len(assigns) == 0 {
		rep.Note("%s: undecided: how the arguments are built is not understood", name)
		return
	}
	var static []gseq
	var loops []gseq // of the elements of the slices of IN
	var bad string
	lists, bases := map[string]Val{}, map[string]bool{}
	var split func(s []gseq, st, lp *[]gseq)
	split = func(s []gseq, st, lp *[]gseq) {
		for _, e := range s {
			switch e.kind {
			case 'r':
				var a, b []gseq
				split(e.kids, &a, &b)
				if len(a) > 0 {
					x := e
					x.kids = a
					*st = append(*st, x)
				}
				if len(b) > 0 {
					x := e
					x.kids = b
					*lp = append(*lp, x)
				}
			case 'e':
				a := e.v.(*VStruct)
				ix := field(isNode(field(a, "Lhs"), "golang.IndexExpr"), "Index")
				if convArg(field(a, "Rhs")) != nil {
					*lp = append(*lp, e)
					continue
				}
				base := ""
				pos := ix
				if b := isNode(ix, "golang.BinaryExpr"); b != nil {
					op, _ := constStr(field(b, "Op"))
					x, ok := constOfIdent(field(b, "X"))
					if !ok || op != "+" {
						bad = "the position " + short(ix, 100) + " is not understood"
						continue
					}
					base, pos = x, field(b, "Y")
				}
				px, isE := stripConv(pos).(*VExpr)
				var list Val
				if isE {
					list = in.idxList(px)
				}
				if list == nil {
					if num := stripConv(pos); isE && px.op != "idx" || isConst(num) {
						rep.Bad(name, "an argument is stored at %s, which is not its position in the list of arguments", short(ix, 100))
					} else {
						bad = "the position " + short(ix, 100) + " is not understood"
					}
					continue
				}
				if (base != "") != r.rows() {
					rep.Bad(name, "an argument is stored at %s", short(ix, 100))
				}
				bases[base] = true
				p, _, ok := argChain(field(a, "Rhs"))
				e.key = p
				if !ok {
					e.kind, e.key = '?', short(field(a, "Rhs"), 80)
				}
				lists[list.key()] = list
				*st = append(*st, e)
			default:
				*st = append(*st, e)
			}
		}
	}
	split(assigns, &static, &loops)
	if bad != "" {
		rep.Note("%s: undecided: %s", name, bad)
		return
	}
	static = mapSeq(static, func(e gseq) []gseq {
		if a, _, ok := recArg(e.v); e.kind == 'c' && ok {
			e.key = a
		}
		return []gseq{e}
	})
	if len(lists) != 1 && len(static) > 0 {
		rep.Note("%s: undecided: the positions are those in %d lists", name, len(lists))
		return
	}
	for _, l := range lists {
		sl, ok := in.simplify(l, facts).(*VList)
		if !ok {
			rep.Note("%s: undecided: the positions are those in %s", name, short(l, 80))
			return
		}
		r.same(rep, name, "the elements of the list whose positions are used", allocs, r.argSeq(sl.items), facts)
	}
	r.same(rep, name, "the stored arguments", allocs, r.stored(static), facts)
	if r.rows() {
		r.checkSliceRows(rep, name, params, file, facts, lists, bases)
	}
	if len(loops) > 0 {
		r.checkInLists(rep, name, params, file, facts)
	}
}

// stored unwraps the loops over the elements of a list that a recursive call has added.
func (r *genRun) stored(s []gseq) []gseq {
	var out []gseq
	for _, e := range s {
		if e.kind == 'r' {
			if a, p, ok := recArg(e.src); ok {
				want := r.wherePath("info.Where[*]")
				if len(e.kids) == 1 && e.kids[0].g == fTrue && r.isElem(e.kids[0], e.src) && a == "info.Where[*].Conditionals" && (p == "" || p == want) {
					out = append(out, gseq{g: e.g, kind: 'c', key: a})
					continue
				}
			}
			e.kids = r.stored(e.kids)
		}
		out = append(out, e)
	}
	return out
}

// isElem reports whether the stored argument is the element of the list.
func (r *genRun) isElem(e gseq, src Val) bool {
	v := e.v
	if a := isNode(v, "golang.AssignStmt"); a != nil {
		v = field(a, "Rhs")
	}
	return v != nil && stripConv(v).key() == src.key()+"[*]"
}

func isConst(v Val) bool { _, ok := v.(VConst); return ok }

// rows reports whether the query has parameters for every element of a slice.
func (r *genRun) rows() bool {
	return r.cfg.slice && (r.cfg.kind == "QueryKindInsert" || r.cfg.kind == "QueryKindUpdate")
}

// checkFilterArgs checks the arguments of a query with a filter: the filter is told how
// many parameters the query has, and their arguments come before the filter's.
func (r *genRun) checkFilterArgs(rep *Report, name, params string, file Val, facts []*F, allocs []gseq) {
	in := r.in
	nums := 0
	var args []gseq
	bad := false
	for _, e := range project(file, fTrue, func(v Val) (string, bool) {
		c := isNode(v, "golang.CallExpr")
		if c == nil {
			return "", false
		}
		if f := isNode(field(c, "Fun"), "golang.SelectorExpr"); f != nil {
			n, _ := constOfIdent(field(f, "Sel"))
			return "ToSQL", n == "ToSQL"
		}
		n, ok := constOfIdent(field(c, "Fun"))
		return "append", ok && n == "append"
	}) {
		if e.kind != 'e' {
			rep.Note("%s: undecided: a loop over the parts of a filter", name)
			return
		}
		f2 := with(facts, e.g)
		al := isNode(field(e.v.(*VStruct), "Args"), "golang.ArgsList")
		if al == nil {
			continue
		}
		l := in2(r, field(al, "List"), f2)
		if e.key == "ToSQL" {
			if len(l) == 1 {
				nums++
				r.count(rep, name, "the number that the filter's parameters start after", l[0].val, allocs, f2)
			}
			continue
		}
		if len(l) != 2 {
			continue
		}
		lit := isNode(l[0].val, "golang.SliceLit")
		if n, ok := constOfIdent(l[0].val); ok && n == params {
			rep.Bad(name, "the arguments of the query come after the filter's")
			return
		}
		n, ok := constOfIdent(l[1].val)
		if lit == nil && (!ok || n != params) {
			continue // not of the arguments
		}
		if lit == nil || !ok || n != params {
			bad = true
			continue
		}
		el := listOf(field(lit, "Elems"))
		if in.implies(facts, in.nonEmpty(&VList{items: el}), e.g) {
			e.g = fTrue
		}
		for _, x := range r.argSeq(el) {
			x.g = fAnd(e.g, x.g)
			args = append(args, x)
		}
	}
	if bad || nums == 0 {
		rep.Note("%s: undecided: how the arguments are built is not understood", name)
		return
	}
	r.same(rep, name, "the arguments before the filter's", allocs, args, facts)
}

func in2(r *genRun, v Val, facts []*F) []Item { return r.in.simplifyItems(listOf(v), facts) }

// count checks that the number is the number of the query's parameters.
func (r *genRun) count(rep *Report, name, what string, num Val, allocs []gseq, facts []*F) bool {
	num = stripConv(num)
	if n, ok := constNum(num); ok {
		live := 0
		for _, a := range allocs {
			if a.kind != 'e' || r.in.decide(&state{pc: facts}, a.g) != 1 {
				live = -1
				break
			}
			live++
		}
		if int64(live) != n {
			d := &differ{in: r.in}
			if len(d.live(allocs, facts)) == 0 && n == 0 {
				rep.Ok(fmt.Sprintf("%s: %s is that of the parameters: 0", name, what))
				return true
			}
			rep.Bad(name, "%s is %d but the parameters are [%s]", what, n, trunc(seqString(allocs), 300))
			return false
		}
		rep.Ok(fmt.Sprintf("%s: %s is that of the parameters: %d", name, what, n))
		return true
	}
	e, ok := num.(*VExpr)
	if !ok || (e.op != "len" && e.op != "nalloc") || len(e.args) != 1 {
		if ok && (e.op == "+" || e.op == "-") && len(e.args) == 2 && isConst(e.args[1]) {
			if x, ok := e.args[0].(*VExpr); ok && (x.op == "len" || x.op == "nalloc") {
				rep.Bad(name, "%s is %s", what, short(num, 200))
				return false
			}
		}
		rep.Note("%s: undecided: %s is %s", name, what, short(num, 100))
		return false
	}
	l, ok := r.in.simplify(e.args[0], facts).(*VList)
	if !ok {
		if x, ok := e.args[0].(VSym); ok && strings.HasPrefix(x.path, "info.") && !sourceOf(allocs, x.path) {
			rep.Bad(name, "%s is %s, but the parameters are [%s]", what, short(num, 100), trunc(seqString(allocs), 300))
			return false
		}
		rep.Note("%s: undecided: %s is %s", name, what, short(num, 100))
		return false
	}
	if e.op == "nalloc" {
		save := r.st.locs["ghost:alloc"]
		r.st.locs["ghost:alloc"] = l
		s, err := r.allocSeq(facts)
		r.st.locs["ghost:alloc"] = save
		if err != nil {
			rep.Bad(name, "%s: %v", what, err)
			return false
		}
		r.same(rep, name, "those counted by "+what, allocs, s, facts)
		return true
	}
	r.same(rep, name, "those counted by "+what, allocs, r.argSeq(l.items), facts)
	return true
}

// checkSliceRows checks the parameters of a query that has some for every element of a
// slice: their number, the position of an element's and the numbers in the query's text.
func (r *genRun) checkSliceRows(rep *Report, name, params string, file Val, facts []*F, lists map[string]Val, bases map[string]bool) {
	in := r.in
	base := ""
	for b := range bases {
		base = b
	}
	d := &differ{in: in}
	if len(d.live(allocsOf(r, facts), facts)) == 0 {
		return
	}
	// params := make(.., len(slice)*N) ; pos := i*N
	seen := map[string]int{}
	for _, e := range flattenGuards(project(file, fTrue, func(v Val) (string, bool) {
		a := isNode(v, "golang.AssignStmt")
		if a == nil {
			return "", false
		}
		n, ok := constOfIdent(field(a, "Lhs"))
		return n, ok && (n == params || n == base)
	}), fTrue) {
		rhs := field(e.v.(*VStruct), "Rhs")
		if m := isNode(rhs, "golang.CallMakeExpr"); m != nil {
			rhs = field(m, "Size")
		}
		b := isNode(rhs, "golang.BinaryExpr")
		if b == nil {
			continue
		}
		if op, _ := constStr(field(b, "Op")); op != "*" {
			continue
		}
		var num, other Val
		for _, f := range []string{"X", "Y"} {
			v := stripConv(field(b, f))
			if _, ok := v.(*VStruct); ok {
				other = v
			} else {
				num = v
			}
		}
		if num == nil || other == nil {
			continue
		}
		f2 := with(facts, e.g)
		switch e.key {
		case params:
			c := isNode(other, "golang.CallLenExpr")
			if c == nil {
				continue
			}
			if p, ok := chain(field(c, "X")); ok && p != "q.<qs.Rel.FieldName>" {
				rep.Bad(name, "the number of arguments is a multiple of the length of %s", p)
			}
			r.count(rep, name, "the number of the arguments of an element", num, allocsOf(r, f2), f2)
		case base:
			r.count(rep, name, "the distance between the positions of the elements' arguments", num, allocsOf(r, f2), f2)
		}
		seen[e.key]++
	}
	if seen[params] == 0 || seen[base] == 0 {
		rep.Note("%s: undecided: how the positions of the arguments are computed", name)
	}
	// the numbers in the text
	var vals []Val
	nums := mapSeq(project(file, fTrue, func(v Val) (string, bool) {
		ix := isNode(v, "golang.IndexExpr")
		if ix == nil {
			return "", false
		}
		q := isNode(field(ix, "X"), "golang.QualifiedIdent")
		if q == nil {
			return "", false
		}
		n, _ := constStr(field(q, "Name"))
		return "a parameter", n == "OrdinalParameters"
	}), func(e gseq) []gseq {
		ix := field(e.v.(*VStruct), "Index")
		pos := ix
		if b := isNode(ix, "golang.BinaryExpr"); b != nil {
			op, _ := constStr(field(b, "Op"))
			if x, ok := constOfIdent(field(b, "X")); !ok || op != "+" || x != base {
				e.kind = '?'
				return []gseq{e}
			}
			pos = field(b, "Y")
		}
		px, ok := stripConv(pos).(*VExpr)
		if !ok {
			e.kind = '?'
			return []gseq{e}
		}
		var list Val
		switch {
		case px.op == "idx":
			list = in.idxList(px)
			if l, ok := list.(*VList); ok && len(r.valueSeq(l, facts, true)) > 0 {
				rep.Bad(name, "the number of a parameter in the text is its position among the values, DEFAULT included")
			}
		case px.op == "-" && len(px.args) == 2:
			i, ok := px.args[0].(*VExpr)
			if !ok || i.op != "idx" {
				break
			}
			list = in.idxList(i)
			if l, ok := list.(*VList); ok {
				if why := r.countsDefaults(px.args[1], l, facts); why != "" {
					rep.Bad(name, "the number of a parameter in the text is %s, where %s", short(px, 80), why)
				}
			}
		case px.op == "+" && len(px.args) == 2 && isConst(px.args[1]):
			rep.Bad(name, "the number of a parameter in the text is at %s", short(px, 80))
			return nil
		}
		l, ok := list.(*VList)
		if !ok {
			e.kind = '?'
			return []gseq{e}
		}
		vals = append(vals, l)
		return []gseq{e}
	})
	if len(vals) == 0 {
		rep.Note("%s: undecided: how the text of the values is built", name)
		return
	}
	for _, v := range vals {
		if v.key() != vals[0].key() {
			rep.Note("%s: undecided: the numbers are those in different lists", name)
			return
		}
	}
	l := vals[0].(*VList)
	vs := r.valueSeq(l, facts, false)
	r.same(rep, name, "the values that are not DEFAULT", allocsOf(r, facts), vs, facts)
	ps := mapSeq(vs, func(e gseq) []gseq { e.key = "a parameter"; return []gseq{e} })
	r.same(rep, name, "the numbers in the text", ps, nums, facts)
}

func allocsOf(r *genRun, facts []*F) []gseq {
	s, _ := r.allocSeq(facts)
	return s
}

// valueSeq is the sequence of the fields of the values that are parameters or, with
// def, of the values that are DEFAULT.
func (r *genRun) valueSeq(l *VList, facts []*F, def bool) []gseq {
	s := flatSeq(r.in.simplifyItems(l.items, facts), func(v Val) (string, bool) {
		var ps []string
		ok := true
		walkVal(v, fTrue, func(x Val, g *F) bool {
			if e, is := x.(*VExpr); is && e.op == "param" {
				p, ok1 := r.fieldPath(e.args[0])
				ok = ok && ok1
				for _, o := range ps {
					if o == p {
						return true
					}
				}
				ps = append(ps, p)
			}
			return true
		})
		if len(ps) == 0 {
			return "DEFAULT", strings.Contains(v.key(), "DEFAULT") || isNode(v, "sqlang.Default") != nil
		}
		return ps[0], ok && len(ps) == 1
	})
	return mapSeq(s, func(e gseq) []gseq {
		if (e.kind == 'e' && e.key == "DEFAULT") != def {
			return nil
		}
		return []gseq{e}
	})
}

// countsDefaults reports why v is not the number of the DEFAULTs in the list before the
// current value.
func (r *genRun) countsDefaults(v Val, l *VList, facts []*F) string {
	switch x := v.(type) {
	case VConst:
		if n, ok := constNum(x); ok && n == 0 {
			return ""
		}
		return "the count of the DEFAULTs starts with " + x.key()
	case *VCond:
		if w := r.countsDefaults(x.a, l, with(facts, x.c)); w != "" {
			return w
		}
		return r.countsDefaults(x.b, l, with(facts, fNot(x.c)))
	case VAcc:
		if x.info == nil || x.info.step == nil {
			return ""
		}
		if w := r.countsDefaults(x.info.init, l, facts); w != "" {
			return w
		}
		return r.stepCounts(x.info.src, x.info.step, l, facts)
	case *VExpr:
		if x.op == "fold" && len(x.args) == 3 {
			if w := r.countsDefaults(x.args[1], l, facts); w != "" {
				return w
			}
			return r.stepCounts(x.args[0].key(), x.args[2], l, facts)
		}
	}
	return ""
}

func (r *genRun) stepCounts(src string, step Val, l *VList, facts []*F) string {
	inner := with(facts, fNot(fAtom("len("+src+")", "0")))
	inc, ok := stepCond(r.in.simplify(step, inner))
	if !ok {
		return ""
	}
	def := fFalse
	for _, e := range r.valueSeq(l, facts, true) {
		if e.kind == 'r' && e.src.key() == src {
			inner = with(inner, e.g)
			for _, k := range e.kids {
				if k.kind != 'e' {
					return ""
				}
				def = fOr(def, k.g)
			}
		}
	}
	if r.in.decide(&state{pc: inner}, fOr(fAnd(inc, def), fAnd(fNot(inc), fNot(def)))) != 1 {
		for v := range fAnd(inc, def).variables() {
			if r.in.unsureVar(v) {
				return ""
			}
		}
		return fmt.Sprintf("the count of the DEFAULTs increases if %s and a value is DEFAULT if %s", trunc(inc.k, 200), trunc(def.k, 200))
	}
	return ""
}

// sourceOf reports whether the sequence may have as many elements as the input.
func sourceOf(s []gseq, path string) bool {
	for _, e := range s {
		if e.kind == '?' {
			return true
		}
	}
	return len(s) == 1 && s[0].kind == 'r' && s[0].src.key() == path && s[0].g == fTrue && len(s[0].kids) == 1 && s[0].kids[0].kind == 'e' && s[0].kids[0].g == fTrue
}

// idxFixed reports whether the condition is about one iteration of a loop only.
func idxFixed(g *F) bool {
	for _, k := range conjuncts(g) {
		if k.op == 'a' && strings.HasPrefix(k.v, "idx(") {
			return true
		}
	}
	return false
}

// stepCond is the condition under which a step adds one.
func stepCond(v Val) (*F, bool) {
	switch x := v.(type) {
	case VAcc:
		return fFalse, true
	case *VCond:
		a, ok1 := stepCond(x.a)
		b, ok2 := stepCond(x.b)
		return fOr(fAnd(x.c, a), fAnd(fNot(x.c), b)), ok1 && ok2
	case *VExpr:
		if x.op == "+" && len(x.args) == 2 {
			if _, ok := x.args[0].(VAcc); ok {
				if n, ok := constNum(x.args[1]); ok && n == 1 {
					return fTrue, true
				}
			}
		}
	}
	return nil, false
}

// numbered is a name that ends with the number of an element of a list: the prefix, the
// list and what is added to the index of the element.
type numbered struct {
	prefix string
	list   *VList
	off    int64
	count  bool // the number is the length of the list
	num    int64
	fixed  bool
}

func (r *genRun) numberedName(v Val) (n numbered, ok bool) {
	id := isNode(v, "golang.Ident")
	if id == nil {
		return n, false
	}
	nm := stripConv(field(id, "Name"))
	if s, ok := constStr(nm); ok {
		i := len(s)
		for i > 0 && s[i-1] >= '0' && s[i-1] <= '9' {
			i--
		}
		fmt.Sscan("0"+s[i:], &n.num)
		n.prefix, n.fixed = s[:i], true
		return n, true
	}
	e, isE := nm.(*VExpr)
	if !isE || e.op != "+" || len(e.args) != 2 {
		return n, false
	}
	if n.prefix, ok = constStr(e.args[0]); !ok {
		return n, false
	}
	c, isE := e.args[1].(*VExpr)
	if !isE || c.op != "call:strconv.Itoa" || len(c.args) != 1 {
		return n, false
	}
	x, isE := c.args[0].(*VExpr)
	if isE && (x.op == "+" || x.op == "-") && len(x.args) == 2 {
		k, isK := constNum(x.args[1])
		if !isK {
			return n, false
		}
		if x.op == "-" {
			k = -k
		}
		n.off = k
		x, isE = x.args[0].(*VExpr)
	}
	if !isE {
		return n, false
	}
	switch x.op {
	case "idx":
		n.list, ok = r.in.idxList(x).(*VList)
	case "len":
		n.count = true
		n.list, ok = x.args[0].(*VList)
	default:
		return n, false
	}
	return n, ok
}

// checkInLists checks the arguments that are the elements of the slices of IN.
func (r *genRun) checkInLists(rep *Report, name, params string, file Val, facts []*F) {
	in := r.in
	where := r.wherePath("info.Where[*]")
	var lists []*VList
	lens, poss := []gseq{}, []gseq{}
	stat := ""
	base := ""
	for _, e := range walkSeq(project(file, fTrue, func(v Val) (string, bool) {
		return "spec", isNode(v, "golang.ValueSpec") != nil
	}), facts) {
		vs := e.v.(*VStruct)
		val := field(vs, "Values")
		n, ok := r.numberedName(field(vs, "Names"))
		if !ok {
			continue
		}
		if n.fixed {
			if _, ok := stripConv(val).(*VStruct); !ok && n.num == 0 {
				if x, ok := stripConv(val).(*VExpr); ok && (x.op == "len" || x.op == "nalloc") {
					stat = n.prefix
					r.count(rep, name, "the number of the other parameters", val, allocsOf(r, e.facts), e.facts)
				}
			}
			continue
		}
		if n.count || n.off != 1 {
			rep.Bad(name, "the variables for the slices are not numbered from 1: %s", short(field(vs, "Names"), 100))
			return
		}
		lists = append(lists, n.list)
		if c := isNode(val, "golang.CallLenExpr"); c != nil {
			g := e.gseq
			g.key, g.kind = n.prefix, 'e'
			lens = append(lens, g)
			base = n.prefix
		} else {
			g := e.gseq
			g.key = n.prefix
			poss = append(poss, g)
		}
	}
	if stat == "" || len(lens) == 0 || len(poss) == 0 {
		rep.Note("%s: undecided: how the positions of the elements of slices are computed", name)
		return
	}
	posName := poss[0].key
	// a position is the previous one plus the previous length
	for _, p := range poss {
		val := in.simplify(field(p.v.(*VStruct), "Values"), facts)
		cases(val, fTrue, func(v Val, g *F) {
			if b := isNode(v, "golang.BinaryExpr"); b != nil {
				op, _ := constStr(field(b, "Op"))
				x, ok1 := r.numberedName(field(b, "X"))
				y, ok2 := r.numberedName(field(b, "Y"))
				if ok1 && ok2 && (x.fixed && x.prefix == stat && !y.fixed || y.fixed && y.prefix == stat && !x.fixed) && !idxFixed(g) {
					rep.Bad(name, "the position of the elements of every slice but the first is %s", short(v, 200))
					return
				}
				if !ok1 || !ok2 || x.fixed || y.fixed {
					rep.Note("%s: undecided: a position is %s", name, short(v, 100))
					return
				}
				if x.prefix == base {
					x, y = y, x
				}
				if op != "+" || x.prefix != posName || y.prefix != base || x.off != 0 || y.off != 0 || x.count || y.count {
					rep.Bad(name, "the position of the elements of a slice is %s", short(v, 200))
					return
				}
				rep.Ok(name + ": the position of a slice's elements is the previous position plus the previous length")
				return
			}
			if n, ok := constOfIdent(v); ok {
				if n != stat || !idxFixed(g) {
					rep.Bad(name, "the position of the elements of a slice is %s if %s", n, trunc(g.k, 100))
					return
				}
				rep.Ok(name + ": the position of the first slice's elements is the number of the other parameters")
				return
			}
			rep.Note("%s: undecided: a position is %s", name, short(v, 100))
		})
	}
	// the length is that of the slice that is stored
	elems := map[string]bool{}
	for _, l := range lens {
		p, ok := r.inElem(field(isNode(field(l.v.(*VStruct), "Values"), "golang.CallLenExpr"), "X"))
		if !ok {
			rep.Note("%s: undecided: the length of %s", name, short(l.v, 100))
			return
		}
		if p != where {
			rep.Bad(name, "the length of a list of IN is that of %s", p)
			return
		}
		elems[p] = true
	}
	for _, l := range lists {
		if l.key() != lists[0].key() {
			rep.Note("%s: undecided: the slices are those in different lists", name)
			return
		}
	}
	// the loops
	loops := 0
	for _, e := range walkSeq(project(file, fTrue, func(v Val) (string, bool) {
		f := isNode(v, "golang.ForStmt")
		if f == nil || isNode(field(f, "Clause"), "golang.ForClause") == nil {
			return "", false
		}
		return "loop", strings.Contains(field(f, "Body").key(), strconvQuote(params))
	}), facts) {
		f := e.v.(*VStruct)
		c := isNode(field(f, "Clause"), "golang.ForClause")
		i := ""
		if a := isNode(field(c, "Init"), "golang.AssignStmt"); a != nil {
			i, _ = constOfIdent(field(a, "Lhs"))
			if n, ok := constNum(stripConv(field(a, "Rhs"))); !ok || n != 0 {
				rep.Bad(name, "the loop over a slice starts at %s", short(field(a, "Rhs"), 60))
				continue
			}
		}
		b := isNode(field(c, "Cond"), "golang.BinaryExpr")
		if i == "" || b == nil {
			rep.Note("%s: undecided: a loop over a slice", name)
			continue
		}
		op, _ := constStr(field(b, "Op"))
		x, _ := constOfIdent(field(b, "X"))
		n, ok := r.numberedName(field(b, "Y"))
		if x != i || !ok || op != "<" || n.prefix != base || n.off != 1 || n.list == nil || n.list.key() != lists[0].key() {
			rep.Bad(name, "a loop over a slice runs while %s", short(b, 200))
			continue
		}
		if p := isNode(field(c, "Post"), "golang.IncDecStmt"); p != nil {
			if t, _ := constStr(field(p, "Token")); t != "++" {
				rep.Bad(name, "a loop over a slice steps by %s", t)
				continue
			}
		}
		for _, a := range walkSeq(project(field(f, "Body"), fTrue, func(v Val) (string, bool) { return "a", isNode(v, "golang.AssignStmt") != nil }), e.facts) {
			s := a.v.(*VStruct)
			lx := isNode(field(s, "Lhs"), "golang.IndexExpr")
			rx := convArg(field(s, "Rhs"))
			if lx == nil || rx == nil {
				rep.Note("%s: undecided: a statement in a loop over a slice", name)
				continue
			}
			if n, _ := constOfIdent(field(lx, "X")); n != params {
				continue
			}
			ib := isNode(field(lx, "Index"), "golang.BinaryExpr")
			ok := false
			if ib != nil {
				op, _ := constStr(field(ib, "Op"))
				p, ok1 := r.numberedName(field(ib, "X"))
				y, _ := constOfIdent(field(ib, "Y"))
				ok = ok1 && op == "+" && p.prefix == posName && p.off == 1 && p.list != nil && p.list.key() == lists[0].key() && y == i
			}
			if !ok {
				rep.Bad(name, "the elements of a slice are stored at %s", short(field(lx, "Index"), 200))
				continue
			}
			y, _ := constOfIdent(field(rx, "Index"))
			p, ok := r.inElem(field(rx, "X"))
			if !ok || y != i {
				rep.Note("%s: undecided: %s is stored", name, short(rx, 100))
				continue
			}
			if !elems[p] {
				rep.Bad(name, "the elements of %s are stored", p)
				continue
			}
			loops++
			rep.Ok(fmt.Sprintf("%s: the elements of %s are stored from the slice's position on", name, p))
		}
	}
	if loops == 0 {
		rep.Note("%s: undecided: no loop over a slice", name)
	}
	// the placeholders in the text
	calls := 0
	walkVal(file, fTrue, func(v Val, g *F) bool {
		c := isNode(v, "golang.CallExpr")
		if c == nil {
			return true
		}
		q := isNode(field(c, "Fun"), "golang.QualifiedIdent")
		if q == nil {
			return true
		}
		if n, _ := constStr(field(q, "Name")); n != "InValueList" {
			return true
		}
		al := isNode(field(c, "Args"), "golang.ArgsList")
		if al == nil {
			return true
		}
		l := listOf(field(al, "List"))
		if len(l) != 2 {
			return true
		}
		for i, want := range []string{base, posName} {
			n, ok := r.numberedName(l[i].val)
			if !ok || n.list == nil {
				rep.Note("%s: undecided: the placeholders of a list", name)
				return false
			}
			// the number is that of the slice of this conditional
			last := len(n.list.items) - 1
			if !n.count || n.prefix != want || n.off != 0 || last < 0 {
				rep.Bad(name, "the placeholders of a list use %s", short(l[i].val, 200))
				return false
			}
			for _, it := range n.list.items[:last] {
				if it.kind == 'e' {
					rep.Note("%s: undecided: the placeholders of a list", name)
					return false
				}
			}
			it := n.list.items[last]
			p, _, ok := "", "", false
			if it.kind == 'e' {
				p, ok = r.inElem(it.val)
			}
			if !ok {
				rep.Bad(name, "the placeholders of a list use %s, which does not count the list's slice", short(l[i].val, 200))
				return false
			}
			if it.guard != fTrue && in.decide(&state{pc: with(facts, g)}, it.guard) != 1 || p != where {
				rep.Bad(name, "the placeholders of a list are numbered by %s", p)
				return false
			}
		}
		calls++
		return false
	})
	if calls > 0 {
		rep.Ok(fmt.Sprintf("%s: the placeholders of a list use the length and the position of its slice (%d places)", name, calls))
	}
}

// inElem is the path of the slice of IN; that of a nested one is the path of its
// conditional, which the recursive call was given. The slice may be kept in a struct with
// what else is needed for it.
func (r *genRun) inElem(v Val) (string, bool) {
	if s, ok := v.(VSym); ok && recElem.MatchString(s.path) {
		return r.wherePath("info.Where[*]"), true
	}
	if p, _, ok := argChain(v); ok {
		return p, ok
	}
	if s, ok := stripConv(v).(*VStruct); ok && !strings.Contains(typeName(s.typ), "golang.") {
		found := ""
		for _, f := range s.fields {
			if p, _, ok := argChain(f); ok {
				if found != "" && found != p {
					return "", false
				}
				found = p
			}
		}
		return found, found != ""
	}
	return "", false
}

var recElem = regexp.MustCompile(`^rec\(.*\)\[\*\](\.\w+)?$`)

// convArg is the element of a slice, without the conversion that it may go through.
func convArg(v Val) *VStruct {
	v = stripConv(v)
	if c, ok := v.(*VCond); ok {
		a, b := convArg(c.a), convArg(c.b)
		if a != nil && b != nil && a.key() == b.key() {
			return a
		}
		return nil
	}
	if c := isNode(v, "golang.CallExpr"); c != nil {
		if args := isNode(field(c, "Args"), "golang.ArgsList"); args != nil {
			if l := listOf(field(args, "List")); len(l) == 1 && l[0].kind == 'e' && l[0].guard == fTrue {
				return convArg(l[0].val)
			}
		}
		return nil
	}
	return isNode(v, "golang.IndexExpr")
}

type factSeq struct {
	gseq
	facts []*F
}

// walkSeq lists the elements of a sequence with what holds where they are.
func walkSeq(s []gseq, facts []*F) []factSeq {
	var out []factSeq
	for _, e := range s {
		f := with(facts, e.g)
		if e.kind == 'r' {
			out = append(out, walkSeq(e.kids, with(f, fNot(fAtom("len("+e.src.key()+")", "0"))))...)
			continue
		}
		out = append(out, factSeq{e, f})
	}
	return out
}

func conjuncts(f *F) []*F {
	if f.op == '&' {
		return f.kids
	}
	return []*F{f}
}

func strconvQuote(s string) string { return "Name:\"" + s + "\"" }

// checkAlloc checks the function that hands out the numbers of parameters: a field that
// has a number keeps it, another one gets the next number.
func (p *Prog) checkAlloc(rep *Report) {
	in := newInterp(p, "internal/generator")
	fn := allocFunc(in)
	if fn == nil {
		rep.Note("no function hands out the numbers of parameters")
		return
	}
	name := fn.Name()
	defer func() {
		if x := recover(); x != nil {
			u, ok := x.(undecided)
			if !ok {
				panic(x)
			}
			rep.Note("%s: undecided: %s", name, u.msg)
		}
	}()
	counter := counterField(in, fn)
	sig := fn.Type().(*types.Signature)
	var vars []*types.Var
	if r := sig.Recv(); r != nil {
		vars = append(vars, r)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		vars = append(vars, sig.Params().At(i))
	}
	st := &state{locs: map[string]Val{}}
	var vals []Val
	var ptr, num Val
	var mt types.Type
	for _, v := range vars {
		pt, isPtr := v.Type().(*types.Pointer)
		switch {
		case isPtr && counter != nil:
			su, ok := pt.Elem().Underlying().(*types.Struct)
			if !ok {
				break
			}
			num = VSym{"n", counter.Type()}
			o := &VStruct{typ: pt.Elem(), fields: map[string]Val{counter.Name(): num}, base: VSym{"g", pt.Elem()}}
			for i := 0; i < su.NumFields(); i++ {
				if m, ok := su.Field(i).Type().Underlying().(*types.Map); ok && types.IsInterface(m.Key()) {
					mt = su.Field(i).Type()
					st.locs["heap:m"] = &VMap{typ: mt, id: "m", base: VSym{"m", mt}}
					o.fields[su.Field(i).Name()] = VPtr{loc: "heap:m", typ: mt}
				}
			}
			st.locs["heap:g"] = o
			vals = append(vals, VPtr{loc: "heap:g", typ: pt.Elem()})
			continue
		case types.IsInterface(v.Type()):
			ptr = VSym{"ptr", v.Type()}
			vals = append(vals, ptr)
			continue
		}
		rep.Note("%s: undecided: the parameter %s", name, v.Name())
		return
	}
	if ptr == nil || num == nil || mt == nil {
		rep.Note("%s: undecided: how it counts is not understood", name)
		return
	}
	st.assume(fNot(fAtom("ptr", "nil")))
	var recv Val
	if sig.Recv() != nil {
		recv, vals = vals[0], vals[1:]
	}
	out := in.callFunc(st, fn, recv, vals, fn.Pos())
	known := mkExpr("index", mt.Underlying().(*types.Map).Elem(), VSym{"m", mt}, ptr)
	has := fBool("has(" + known.key() + ")")
	res, ok := out[0].(*VStruct)
	g, ok2 := st.locs["heap:g"].(*VStruct)
	if !ok || !ok2 {
		rep.Note("%s: undecided: the result is %s", name, short(out[0], 100))
		return
	}
	next := in.binary(st, token.ADD, num, mkInt(1), counter.Type())
	for _, c := range []struct {
		what      string
		f         *F
		res, num  Val
		remembers bool
	}{
		{"a field that has a number", has, known, num, false},
		{"a field that has no number", fNot(has), next, next, true},
	} {
		facts := with(with(nil, fNot(fAtom("ptr", "nil"))), c.f)
		r := in.simplify(vfield(res, "N"), facts)
		n := in.simplify(vfield(g, counter.Name()), facts)
		if r.key() != c.res.key() {
			rep.Bad(name, "%s gets the number %s where n have been handed out", c.what, short(r, 100))
		} else if n.key() != c.num.key() {
			rep.Bad(name, "after the number of %s the count is %s instead of %s", c.what, short(n, 100), short(c.num, 40))
		} else {
			rep.Ok(fmt.Sprintf("%s: %s gets %s, the count becomes %s", name, c.what, short(r, 60), short(n, 60)))
		}
		if !c.remembers {
			continue
		}
		m, ok := in.simplify(st.locs["heap:m"], facts).(*VMap)
		if !ok {
			rep.Note("%s: undecided: the map is %s", name, short(st.locs["heap:m"], 100))
			continue
		}
		found := false
		for _, e := range m.ents {
			if e.key.key() == ptr.key() && in.decide(&state{pc: facts}, e.guard) == 1 {
				found = in.simplify(e.val, facts).key() == next.key()
			}
		}
		if !found {
			rep.Bad(name, "the number handed out for a field is not remembered: %s", short(m, 200))
		} else {
			rep.Ok(name + ": the number handed out for a field is remembered for it")
		}
	}
}

const genExpl = "abstract interpretation of the code generator: its functions are evaluated over symbolic descriptions of a query (every input left open except the kind of the query), joining at merges and taking one generic iteration per loop; the result describes, with the conditions under which each part is present, every file the generator can write"

func init() {
	register("G01", "static", genExpl, func(p *Prog, rep *Report) {
		rep.Rule("order", "the arguments of the generated query call are, one by one, the fields for which a parameter number was handed out, in the order of the numbers; the same holds for the stored rows of slices, the elements of IN lists and the arguments in front of a filter's")
		p.checkAlloc(rep)
		p.forQueries(rep, func(rep *Report, r *genRun) { r.checkParams(rep) })
	})
}

// forQueries evaluates the generator for every kind of query.
func (p *Prog) forQueries(rep *Report, check func(rep *Report, r *genRun)) {
	p.forConfigs(rep, p.genConfigs(), check)
}

// forConfigs evaluates the generator for the kinds of queries and checks each result; every
// kind has a report of its own, which are put together in the order of the kinds.
func (p *Prog) forConfigs(rep *Report, cfgs []genConfig, check func(rep *Report, r *genRun)) {
	subs := make([]*Report, len(cfgs))
	fails := make([]interface{}, len(cfgs))
	var done sync.WaitGroup
	next := make(chan int)
	for k := 0; k < runtime.NumCPU() && k < 8; k++ {
		done.Add(1)
		go func() {
			defer done.Done()
			for i := range next {
				func() {
					defer func() { fails[i] = recover() }()
					sub := rep.sub()
					subs[i] = sub
					r := p.runGen(cfgs[i])
					switch {
					case r.und != "":
						sub.Note("%s: undecided: %s", r.cfg.name, r.und)
					case r.file == nil:
						sub.Note("%s: undecided: no file is written", r.cfg.name)
					default:
						sub.n++
						check(sub, r)
					}
				}()
			}
		}()
	}
	for i := range cfgs {
		next <- i
	}
	close(next)
	done.Wait()
	n := 0
	for i, sub := range subs {
		if u, ok := fails[i].(undecided); ok {
			sub.Note("%s: undecided: %s", cfgs[i].name, u.msg)
		} else if fails[i] != nil {
			fmt.Printf("UNDECIDED: property=%s %s: %v\n", rep.ID, cfgs[i].name, fails[i])
			sub.Note("%s: undecided: the checker failed: %v", cfgs[i].name, fails[i])
		}
		n += sub.n
		rep.merge(sub)
	}
	rep.Note("%d of %d kinds of queries were evaluated", n, len(cfgs))
}
