package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	importUse  = regexp.MustCompile(`^import\((.*)\)\.\w+$`)
	pkgPathSym = regexp.MustCompile(`^(.*\.)(Type|Base)?PkgPath$`)
	pkgNameSym = regexp.MustCompile(`^(.*\.)(Type|Base)?(PkgName)$`)
)

// packageNames has the declared name of every package that is known.
func (p *Prog) packageNames() map[string]string {
	names := map[string]string{"context": "context", "database/sql": "sql", "strings": "strings", "strconv": "strconv", "time": "time"}
	for path, x := range p.Pkgs {
		if x.Types != nil {
			names[path] = x.Types.Name()
		}
	}
	return names
}

// checkImports checks what is imported against what is used in the generated file.
func (r *genRun) checkImports(rep *Report, names map[string]string) {
	in := r.in
	events, _ := in.simplify(orNil(r.st.locs["ghost:import"]), nil).(*VList)
	if events == nil {
		return
	}
	// the places where packages are used
	used := map[string][]factSeq{}
	file := in.simplify(r.file, nil)
	var given []*F
	if r.cfg.kind != "" {
		given = r.queryFacts()
	}
	for _, e := range walkSeq(project(file, fTrue, func(v Val) (string, bool) {
		if s, ok := v.(VSym); ok {
			if m := importUse.FindStringSubmatch(s.path); m != nil {
				return m[1], true
			}
		}
		return "", false
	}), nil) {
		if e.kind == 'e' {
			used[e.key] = append(used[e.key], e)
		}
	}
	for _, e := range walkSeq(projectItems(events.items, fTrue, func(v Val) (string, bool) {
		x, ok := v.(*VExpr)
		return "import", ok && x.op == "import" && len(x.args) == 2
	}), given) {
		if e.kind != 'e' {
			continue
		}
		x := e.v.(*VExpr)
		cases(x.args[0], fTrue, func(path Val, g1 *F) {
			cases(in.simplify(x.args[1], with(e.facts, g1)), g1, func(name Val, g *F) {
				fs := with(e.facts, g)
				fs = with(fs, r.someFacts(fAnd(fs...)))
				if fSat(fAnd(append(append([]*F{}, in.axioms...), fs...)...)) {
					r.checkImport(rep, names, path, name, fs, used)
				}
			})
		})
	}
}

func (r *genRun) checkImport(rep *Report, names map[string]string, path, name Val, facts []*F, used map[string][]factSeq) {
	in := r.in
	what := "import of " + short(path, 80) + " in " + r.cfg.name
	n, isConstName := constStr(name)
	switch {
	case isConst(path):
		s, _ := constStr(path)
		want, known := names[s]
		switch {
		case !isConstName:
			rep.Note("%s: undecided: it is named %s", what, short(name, 60))
		case n == "":
			rep.Ok(what + ": its name")
		case !known:
			rep.Note("%s: undecided: the package is not known", what)
		case want != n:
			rep.Bad(what, "the package is imported as %s, but its name is %s: what is declared is not what is used", n, want)
		default:
			rep.Ok(what + ": its name")
		}
	default:
		p, ok := path.(VSym)
		if !ok {
			rep.Note("%s: undecided: the path is %s", what, short(path, 60))
			break
		}
		m := pkgPathSym.FindStringSubmatch(p.path)
		q, ok := name.(VSym)
		switch {
		case m == nil:
			if strings.HasSuffix(p.path, "Name") || strings.HasSuffix(p.path, ".PkgLocal") {
				rep.Bad(what, "%s is no path of a package", p.path)
			} else {
				rep.Note("%s: undecided: the path is %s", what, p.path)
			}
		case isConstName && n == "":
			rep.Ok(what + ": its name")
		case isConstName:
			rep.Bad(what, "any package is named %q", n)
		case !ok:
			rep.Note("%s: undecided: it is named %s", what, short(name, 60))
		default:
			k := pkgNameSym.FindStringSubmatch(q.path)
			if k == nil || k[1] != m[1] || k[2] != m[2] {
				rep.Bad(what, "it is named %s, which is not the name of the package with that path", q.path)
			} else {
				rep.Ok(what + ": its name")
			}
		}
	}
	// whatever is imported is used
	var uses []*F
	key := path.key()
	for _, u := range used[key] {
		uses = append(uses, fAnd(u.facts...))
	}
	unused := fNot(fOr(uses...))
	for v := range unused.variables() {
		// the element at hand is one of those that there are
		if a := in.somes[v]; a != nil {
			facts = with(facts, fNot(fAnd(a.cond, fNot(fAtom("len("+a.src+")", "0")), fNot(fBool(v)))))
		}
	}
	f := fAnd(append(append([]*F{}, in.axioms...), with(facts, unused)...)...)
	if !fSat(f) {
		rep.Ok(what + ": its use")
		return
	}
	for v := range f.variables() {
		if in.unsureVar(v) || strings.Contains(v, "rec(") {
			rep.Note("%s: it is not decided whether it is always used", what)
			return
		}
	}
	if len(uses) == 0 && strings.Contains(key, "rec(") {
		rep.Note("%s: it is not decided whether it is used", what)
		return
	}
	rep.Bad(what, "the package is imported where it is not used: the file does not compile (%s)", trunc(fAnd(facts...).k, 2000))
}

// checkQualifiers checks that no package is named without being imported.
func (r *genRun) checkQualifiers(rep *Report, names map[string]string) {
	pkgs := map[string]bool{}
	for _, n := range []string{"github.com/frk/gosql", "github.com/frk/gosql/pgsql", "github.com/frk/gosql/filter", "context", "database/sql", "strings", "strconv", "time"} {
		pkgs[names[n]] = true
	}
	n := 0
	walkVal(r.in.simplify(r.file, nil), fTrue, func(v Val, g *F) bool {
		var q Val
		if x := isNode(v, "golang.QualifiedIdent"); x != nil {
			q = field(x, "Package")
		} else if x := isNode(v, "golang.SelectorExpr"); x != nil {
			if id := isNode(field(x, "X"), "golang.Ident"); id != nil {
				q = field(id, "Name")
			}
		}
		if q == nil {
			return true
		}
		cases(q, fTrue, func(q Val, g *F) {
			if s, ok := constStr(q); ok {
				n++
				if pkgs[s] {
					rep.Bad("qualifiers of "+r.cfg.name, "%s names the package %s, which is not imported", short(v, 80), s)
				}
			}
		})
		return true
	})
	rep.Ok(fmt.Sprintf("qualifiers of %s", r.cfg.name))
}

// checkImportDecl evaluates the function that writes the import declaration, for any set
// of imports.
func (p *Prog) checkImportDecl(rep *Report, imp impFields) {
	in := newInterp(p, "internal/generator")
	var fn *types.Func
	var set string
	for f := range in.decls {
		sig := f.Type().(*types.Signature)
		if f.Pkg() != in.mainPkg || sig.Results().Len() != 1 || sig.Params().Len() != 1 || !strings.HasSuffix(typeName(sig.Results().At(0).Type()), "golang.ImportDecl") {
			continue
		}
		if s := structOf(sig.Params().At(0).Type()); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if sl, ok := s.Field(i).Type().(*types.Slice); ok && structOf(sl.Elem()) != nil {
					fn, set = f, s.Field(i).Name()
				}
			}
		}
	}
	if fn == nil {
		rep.Note("undecided: there is no function that makes the import declaration")
		return
	}
	what := "import declaration"
	defer func() {
		if x := recover(); x != nil {
			u, ok := x.(undecided)
			if !ok {
				panic(x)
			}
			rep.Note("%s: undecided: %s", what, u.msg)
		}
	}()
	st := &state{locs: map[string]Val{}}
	out := in.callFunc(st, fn, nil, []Val{VSym{"f", fn.Type().(*types.Signature).Params().At(0).Type()}}, fn.Pos())
	v := out[0]
	if pt, ok := v.(VPtr); ok {
		v = in.load(st, pt, 0)
	}
	spec := "f." + set + "[*]"
	some := fNot(fAtom("len(f."+set+")", "0"))
	var gs []*F
	for _, e := range walkSeq(project(in.simplify(v, nil), fTrue, func(v Val) (string, bool) {
		return "spec", isNode(v, "golang.ImportSpec") != nil
	}), nil) {
		if e.kind != 'e' {
			continue
		}
		x := isNode(e.v, "golang.ImportSpec")
		g := fAnd(e.facts...)
		gs = append(gs, g)
		for v := range g.variables() {
			if a := in.somes[v]; a != nil {
				some = fAnd(some, fNot(fAnd(a.cond, fNot(fBool(v)))))
			}
		}
		fs := []*F{g}
		path, _ := stripConv(field(x, "Path")).(VSym)
		if path.path != spec+"."+imp.path {
			if path.path == spec+"."+imp.name || isConst(stripConv(field(x, "Path"))) {
				rep.Bad(what, "the path that is written is %s", short(field(x, "Path"), 80))
			} else {
				rep.Note("%s: undecided: the path is %s", what, short(field(x, "Path"), 80))
			}
			continue
		}
		// the name
		local := fAtom(spec+"."+imp.local, "true")
		var name Val = VNil{}
		if id := isNode(field(x, "Name"), "golang.Ident"); id != nil {
			name = field(id, "Name")
		}
		good := true
		cases(in.simplify(stripConv(name), with(fs, local)), fTrue, func(n Val, g *F) {
			if s, ok := stripConv(n).(VSym); !ok || s.path != spec+"."+imp.name {
				good = false
				rep.Bad(what, "a package that is used by another name than its own is imported as %s", short(n, 80))
			}
		})
		cases(in.simplify(stripConv(name), with(fs, fNot(local))), fTrue, func(n Val, g *F) {
			n = stripConv(n)
			c, isC := constStr(n)
			s, isS := n.(VSym)
			if _, none := n.(VNil); !none && !(isC && c == "") && !(isS && s.path == spec+"."+imp.name) {
				good = false
				rep.Bad(what, "a package that is used by its own name is imported as %s", short(n, 80))
			}
		})
		if good {
			rep.Ok(what + ": the path and the name of a package")
		}
	}
	some = fAnd(append(append([]*F{}, in.axioms...), some)...)
	if len(gs) == 0 {
		rep.Note("%s: undecided: nothing is written", what)
		return
	}
	unsure := false
	for _, g := range gs {
		for v := range g.variables() {
			// how the packages are grouped does not matter
			unsure = unsure || opaqueVar(strings.ReplaceAll(v, "call:strings.", ""))
		}
	}
	verdict := func(bad bool, msg string) {
		switch {
		case !bad:
			rep.Ok(what + ": " + msg)
		case unsure:
			rep.Note("%s: it is not decided whether %s", what, msg)
		default:
			rep.Bad(what, "it does not hold that %s", msg)
		}
	}
	verdict(fSat(fAnd(some, fNot(fOr(gs...)))), "every package that is to be imported is written")
	twice := false
	for i := range gs {
		for j := range gs[:i] {
			twice = twice || fSat(fAnd(some, gs[i], gs[j]))
		}
	}
	verdict(twice, "no package is written twice")
}

// impFields names the fields of what is remembered of an import.
type impFields struct{ path, name, local, set string }

// importSpec finds the function that adds an import, and the fields for its path, its name
// and whether the name is not that of the package.
func (p *Prog) importSpec(rep *Report) (fn *ssa.Function, imp impFields) {
	in := newInterp(p, "internal/generator")
	for f := range in.decls {
		if importFunc(in, f) != nil {
			fn = p.SSA.FuncValue(f)
		}
	}
	if fn == nil {
		rep.Note("undecided: there is no function that adds an import")
		return nil, imp
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			n := fieldName(fa)
			if _, ok := fa.X.(*ssa.Alloc); ok {
				switch {
				case st.Val == ssa.Value(fn.Params[1]):
					imp.path = n
				case isBoolType(st.Val.Type()):
					imp.local = n
				case isStringType(st.Val.Type()) && derivesFrom(st.Val, fn.Params[2], 0):
					imp.name = n
				}
			} else if fa.X == ssa.Value(fn.Params[0]) {
				imp.set = n
			}
		}
	}
	return fn, imp
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func fieldName(fa *ssa.FieldAddr) string {
	return structOf(fa.X.Type()).Field(fa.Field).Name()
}

func derivesFrom(v, from ssa.Value, depth int) bool {
	if v == from {
		return true
	}
	if x, ok := v.(*ssa.Phi); ok && depth < 4 {
		for _, e := range x.Edges {
			if derivesFrom(e, from, depth+1) {
				return true
			}
		}
	}
	return false
}

// checkAddImport follows the name of a new import from where it is chosen to where the
// import is recorded: it has to be one that no other import has, and has to be marked as
// different from the package's own if it is.
func (p *Prog) checkAddImport(rep *Report, fn *ssa.Function, imp impFields) {
	what := p.fname(fn)
	if imp.path == "" || imp.name == "" {
		rep.Note("%s: undecided: it keeps the path and the name elsewhere", what)
		return
	}
	path := ssa.Value(fn.Params[1])
	isElem := func(v ssa.Value) bool { // an element of the list of imports
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		_, ok = u.X.(*ssa.IndexAddr)
		return ok
	}
	loadOf := func(v ssa.Value, name string) (ssa.Value, bool) { // v = x.name
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return nil, false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || fieldName(fa) != name {
			return nil, false
		}
		return fa.X, true
	}
	var fresh *ssa.Alloc
	var adds []*ssa.Store
	var lookups int
	var updates []*ssa.MapUpdate
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Alloc:
				if types.Identical(x.Type(), fn.Signature.Results().At(0).Type()) {
					if fresh != nil {
						rep.Note("%s: undecided: it makes several imports", what)
						return
					}
					fresh = x
				}
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(fn.Params[0]) {
					adds = append(adds, x)
				}
			case *ssa.Lookup:
				lookups++
			case *ssa.MapUpdate:
				updates = append(updates, x)
			}
		}
	}
	if fresh == nil || len(adds) != 1 {
		if fresh != nil && len(adds) == 0 {
			rep.Bad(what, "a new import is not recorded")
			return
		}
		rep.Note("%s: undecided: how an import is recorded", what)
		return
	}
	add := adds[0]
	// the result is recorded, or is the one that was recorded for the path
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		v := ret.Results[0]
		switch {
		case v == ssa.Value(fresh):
			if add.Block() == b || add.Block().Dominates(b) {
				rep.Ok(what + ": a new import is recorded")
			} else {
				rep.Bad(what, "a new import is not always recorded")
			}
		case isElem(v):
			same, other := false, ""
			for d := b; d != nil; d = d.Idom() {
				for _, pr := range d.Preds {
					if len(d.Preds) != 1 || len(pr.Succs) != 2 || pr.Succs[0] != d {
						continue
					}
					iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
					if !ok {
						continue
					}
					c, ok := iff.Cond.(*ssa.BinOp)
					if !ok || c.Op != token.EQL {
						continue
					}
					for _, xy := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
						if x, ok := loadOf(xy[0], imp.path); ok && x == v && xy[1] == path {
							same = true
						} else if x, ok := loadOf(xy[0], imp.name); ok && x == v {
							other = "name"
						}
					}
				}
			}
			switch {
			case same:
				rep.Ok(what + ": the import that is found has the path")
			case other != "":
				rep.Bad(what, "an import is found by its %s: two packages with that %s are the same import", other, other)
			default:
				rep.Note("%s: undecided: which import is found", what)
			}
		default:
			rep.Note("%s: undecided: what is returned", what)
		}
	}
	uses := 0
	for _, r := range *path.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); !ok || fa.X != ssa.Value(fresh) {
				uses++
			}
		case *ssa.Call:
			if c := x.Common().StaticCallee(); c == nil || p.inRepo(c.Pkg.Pkg) && c.Signature.Results().Len() > 0 && !isStringType(c.Signature.Results().At(0).Type()) {
				uses++
			}
		case *ssa.BinOp, *ssa.Lookup, *ssa.MakeClosure, *ssa.MakeInterface:
			uses++
		}
	}
	if uses == 0 {
		rep.Bad(what, "it is not looked for an import that has the path: the file declares a package twice")
		return
	}
	if lookups == 0 {
		compared := false
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.BinOp); ok && isStringType(c.X.Type()) && (c.Op == token.EQL || c.Op == token.NEQ) {
					_, ok1 := loadOf(c.X, imp.name)
					_, ok2 := loadOf(c.Y, imp.name)
					compared = compared || ok1 || ok2
				}
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && p.inRepo(c.Common().StaticCallee().Pkg.Pkg) {
					compared = true
				}
			}
		}
		if compared {
			rep.Note("%s: undecided: how names are compared", what)
		} else {
			rep.Bad(what, "the name of a new import is not compared with those of the others")
		}
		return
	}
	// all names are known
	complete := map[ssa.Value]bool{}
	for _, u := range updates {
		x, ok := loadOf(u.Key, imp.name)
		if !ok || !isElem(x) {
			if y, ok2 := loadOf(u.Key, imp.path); ok2 && isElem(y) {
				rep.Bad(what, "the names are looked up among the paths of the imports")
				return
			}
			continue
		}
		// on every way round the loop
		all := true
		for _, h := range fn.Blocks {
			if !h.Dominates(u.Block()) {
				continue
			}
			for _, pr := range h.Preds {
				if h.Dominates(pr) && !(u.Block() == pr || u.Block().Dominates(pr)) {
					all = false
				}
			}
		}
		if !all {
			rep.Bad(what, "the names of some imports are not remembered")
			return
		}
		complete[u.Map] = true
	}
	if len(complete) == 0 {
		rep.Note("%s: undecided: how the names are remembered", what)
		return
	}
	// follow the name
	type nameState struct {
		val     ssa.Value
		free    bool // it was found that no import has it
		changed bool // it is not what was given
		local   bool
		maybe   bool // what was given is chosen together with the mark
		marked  bool // the mark is chosen together with what was given
	}
	given := ssa.Value(fn.Params[2])
	lookup := func(v ssa.Value) (ssa.Value, bool) { // the key that v is the result for
		if e, ok := v.(*ssa.Extract); ok {
			v = e.Tuple
		}
		l, ok := v.(*ssa.Lookup)
		if !ok || !complete[l.X] {
			return nil, false
		}
		return l.Index, true
	}
	// nilEdge is the key that is not there if the block ends with the k-th successor
	nilEdge := func(b *ssa.BasicBlock, k int) ssa.Value {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return nil
		}
		neg := false
		c := iff.Cond
		for {
			if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
				c, neg = u.X, !neg
				continue
			}
			break
		}
		if e, ok := c.(*ssa.Extract); ok && e.Index == 1 { // comma ok
			if key, ok := lookup(e); ok && (k == 1) != neg {
				return key
			}
			return nil
		}
		bo, ok := c.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			return nil
		}
		for _, xy := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
			if cn, ok := xy[1].(*ssa.Const); !ok || !cn.IsNil() {
				continue
			}
			if key, ok := lookup(xy[0]); ok && (k == 0) == ((bo.Op == token.EQL) != neg) {
				return key
			}
		}
		return nil
	}
	// freeAt: some edge that dominates the block shows that v is not there
	freeAt := func(v ssa.Value, b *ssa.BasicBlock) bool {
		for d := b; d != nil; d = d.Idom() {
			if len(d.Preds) == 1 {
				pr := d.Preds[0]
				for k, s := range pr.Succs {
					if s == d && nilEdge(pr, k) == v {
						return true
					}
				}
			}
		}
		return false
	}
	bad, unsure := "", ""
	seen := map[string]bool{}
	var walk func(b *ssa.BasicBlock, from int, st nameState)
	walk = func(b *ssa.BasicBlock, from int, st nameState) {
		vn := "-"
		if st.val != nil {
			vn = st.val.Name()
		}
		k := fmt.Sprint(b.Index, " ", from, " ", vn, st.free, st.changed, st.local, st.maybe, st.marked)
		if seen[k] {
			return
		}
		seen[k] = true
		for _, i := range b.Instrs[from:] {
			switch x := i.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(fresh) {
					switch fieldName(fa) {
					case imp.path:
						if x.Val != path {
							bad = "the path of a new import is not the given one"
						}
					case imp.name:
						st.val, st.free = x.Val, freeAt(x.Val, b)
						st.changed = true
						if x.Val == given {
							st.changed = false
						} else if ph, ok := x.Val.(*ssa.Phi); ok && derivesFrom(ph, given, 0) {
							st.maybe, st.changed = true, !st.marked
						}
						if _, isCall := x.Val.(*ssa.Call); isCall && !st.free {
							unsure = "the name is made by a function"
							return
						}
					case imp.local:
						if c, ok := x.Val.(*ssa.Const); ok {
							st.local = constant.BoolVal(c.Value)
							break
						}
						ph, ok := x.Val.(*ssa.Phi)
						if !ok {
							unsure = "how a name is marked"
							return
						}
						np, ok := st.val.(*ssa.Phi)
						if !ok || np.Block() != ph.Block() {
							// stored before the name
							for _, j := range ph.Block().Instrs {
								if y, ok := j.(*ssa.Phi); ok && isStringType(y.Type()) && derivesFrom(y, given, 0) {
									np = y
								}
							}
						}
						if np == nil || np.Block() != ph.Block() {
							unsure = "how a name is marked"
							return
						}
						for n, e := range np.Edges {
							c, ok := ph.Edges[n].(*ssa.Const)
							if !ok {
								unsure = "how a name is marked"
								return
							}
							if e != given && !constant.BoolVal(c.Value) {
								bad = "a name that is made of the path is not written in the import: what is declared is not what is used"
							}
						}
						st.marked = true
						if st.maybe {
							st.changed = false
						}
					}
				}
				if x == add {
					switch {
					case st.val == nil:
						unsure = "the name is not set before the import is recorded"
					case !st.free:
						bad = "an import is recorded under a name that another one may have"
					case st.changed && !st.local && imp.local != "":
						bad = "a name that differs from the package's own is not written in the import"
					}
					return
				}
			}
		}
		for k, s := range b.Succs {
			n := st
			if key := nilEdge(b, k); key != nil && n.val != nil {
				if x, ok := loadOf(key, imp.name); ok && x == ssa.Value(fresh) || key == n.val {
					n.free = true
				}
			}
			walk(s, 0, n)
		}
	}
	walk(fn.Blocks[0], 0, nameState{})
	switch {
	case bad != "":
		rep.Bad(what, "%s", bad)
	case unsure != "":
		rep.Note("%s: undecided: %s", what, unsure)
	default:
		rep.Ok(what + ": names are distinct and marked")
	}
}

func init() {
	register("G05", "static", genExpl, func(p *Prog, rep *Report) {
		rep.Rule("imports", "Every package that is named is imported by that name, and every package that is imported is named.")
		names := p.packageNames()
		cfgs := p.genConfigs()
		for _, c := range cfgs {
			delete(c.over, "cfg.MethodWithContext.Value")
			delete(c.over, "qs.Context")
		}
		if fn, imp := p.importSpec(rep); fn != nil {
			p.checkAddImport(rep, fn, imp)
			p.checkImportDecl(rep, imp)
		}
		p.forConfigs(rep, append(cfgs, p.filterConfig(false), p.filterConfig(true)), func(rep *Report, r *genRun) {
			r.checkImports(rep, names)
			r.checkQualifiers(rep, names)
		})
	})
}

func structOf(t types.Type) *types.Struct {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}
