package main

import (
	"go/types"
	"sort"
	"strings"
)

// render evaluates the method with which a node of the SQL tree writes itself and
// returns what it writes as a guarded list of pieces of text. A node of which it is
// not known what it is becomes a piece of its own.
func (r *genRun) render(v Val, facts []*F) (items []Item, und string) {
	in := r.in
	pk := in.p.Pkgs["github.com/frk/ast/sqlang"]
	if pk == nil {
		return nil, "the package of the SQL tree is not there"
	}
	node := pk.Types.Scope().Lookup("Node")
	if node == nil {
		return nil, "the SQL tree has no node type"
	}
	o, _, _ := types.LookupFieldOrMethod(node.Type(), true, pk.Types, "Walk")
	walk, ok := o.(*types.Func)
	if !ok {
		return nil, "the SQL tree's nodes cannot be written"
	}
	old, n, l := in.hook, len(in.stack), len(in.loops)
	steps := in.steps
	in.steps = 0
	defer func() { in.hook, in.steps = old, steps }()
	in.hook = func(in *Interp, st *state, fn *types.Func, recv Val, args []Val) ([]Val, bool) {
		if fn.Pkg() == nil || !strings.HasPrefix(fn.Pkg().Path(), "github.com/frk/ast") {
			return nil, false
		}
		sig := fn.Type().(*types.Signature)
		if sig.Recv() != nil && strings.HasSuffix(typeName(sig.Recv().Type()), "ast.Writer") {
			switch fn.Name() {
			case "Write":
				in.event(st, "w", args[0])
			case "NewLine":
				in.event(st, "w", mkStr(" "))
			}
			return opaqueResults("w", nil, sig), true
		}
		if fn.Name() != "Walk" || recv == nil {
			return nil, false
		}
		if _, ok := recv.(*VCond); ok && sig.Recv() != nil && !types.IsInterface(sig.Recv().Type()) {
			return nil, false
		}
		if r.goText {
			if x, ok := stripConv(recv).(*VExpr); ok && x.op == "fold" && r.goFold(st, x, walk) {
				return nil, true
			}
			if x, ok := stripConv(recv).(VAcc); ok {
				if r.goAcc(st, x, walk) {
					return nil, true
				}
				in.event(st, "w", mkStr("«"+x.id[strings.LastIndex(x.id, "/")+1:]+"»"))
				return nil, true
			}
		}
		if dt := dynType(recv); dt == nil || types.IsInterface(dt) {
			in.event(st, "w", mkExpr("node", types.Typ[types.String], recv))
			return nil, true
		}
		if typeName(dynType(recv)) == "sqlang.HostValue" {
			in.event(st, "w", mkExpr("host", types.Typ[types.String], recv))
			return nil, true
		}
		if r.goText {
			if done := r.goHook(st, recv, walk); done {
				return nil, true
			}
		}
		if r.outline {
			switch typeName(dynType(recv)) {
			case "golang.RawStringNode":
				in.event(st, "w", mkStr("«sql»"))
				return nil, true
			case "sqlang.Ident":
				if rel := r.relOf(recv, st.pc); rel != "" {
					in.event(st, "w", mkExpr("rel", types.Typ[types.String], mkStr(rel)))
					return nil, true
				}
			case "sqlang.OrderClause", "sqlang.LimitClause", "sqlang.OffsetClause":
				if r.inClause == 0 {
					r.inClause++
					items, und := r.render(recv, st.pc)
					r.inClause--
					if und != "" {
						return nil, false
					}
					var gs []*F
					for _, it := range items {
						if s, ok := constStr(it.val); it.kind != 'e' || !ok || strings.TrimSpace(s) != "" {
							gs = append(gs, it.guard)
						}
					}
					name := strings.ToLower(strings.TrimSuffix(dynType(recv).(*types.Named).Obj().Name(), "Clause"))
					return in.fork(st, fOr(gs...), func(s *state) []Val {
						in.event(s, "w", mkExpr("clause", types.Typ[types.String], mkStr(name), recv))
						return nil
					}, func(s *state) []Val { return nil }), true
				}
			case "sqlang.BoolValueExprList":
				in.event(st, "w", mkExpr("cond", types.Typ[types.String], recv))
				return nil, true
			case "sqlang.SetClause":
				if s, ok := recv.(*VStruct); ok {
					in.event(st, "w", mkStr(" SET "))
					in.event(st, "w", mkExpr("list", types.Typ[types.String], mkStr("targets"), field(s, "Targets")))
					in.event(st, "w", mkStr(" = "))
					if vs, ok := field(s, "Values").(*VStruct); ok {
						in.event(st, "w", mkExpr("list", types.Typ[types.String], mkStr("values"), field(vs, "Exprs")))
						return nil, true
					}
				}
			case "sqlang.UpdateExcluded":
				if s, ok := recv.(*VStruct); ok {
					in.event(st, "w", mkStr(" "))
					in.event(st, "w", mkExpr("list", types.Typ[types.String], mkStr("excluded"), field(s, "Columns")))
					return nil, true
				}
			}
		}
		// a list of nodes: what is written around and between them
		if lst, ok := stripConv(recv).(*VList); ok && strings.HasSuffix(fn.Pkg().Path(), "sqlang") {
			fixed := true
			for _, it := range lst.items {
				fixed = fixed && it.kind == 'e' && (r.outline || it.guard == fTrue)
			}
			if !fixed {
				if r.outline {
					ne := in.nonEmpty(lst)
					if ne.op != 'T' && in.decide(st, ne) != 1 {
						empty := &VList{typ: lst.typ}
						return in.fork(st, ne, func(s *state) []Val {
							in.event(s, "w", mkExpr("list", types.Typ[types.String], mkStr(fn.FullName()), lst))
							return nil
						}, func(s *state) []Val { return in.method(nil, s, fn, empty, args, 0) }), true
					}
				}
				in.event(st, "w", mkExpr("list", types.Typ[types.String], mkStr(fn.FullName()), lst))
				return nil, true
			}
		}
		return nil, false
	}
	defer func() {
		if x := recover(); x != nil {
			u, ok := x.(undecided)
			if !ok {
				panic(x)
			}
			in.stack, in.loops = in.stack[:n], in.loops[:l]
			items, und = nil, u.msg
		}
	}()
	st := r.st.clone()
	st.dead = false
	st.pc = append([]*F{}, facts...)
	st.locs["ghost:w"] = &VList{}
	w := VSym{"@w", walk.Type().(*types.Signature).Params().At(0).Type()}
	in.method(nil, st, walk, v, []Val{w}, 0)
	if st.dead {
		return nil, "a nil node is written"
	}
	lst, _ := st.locs["ghost:w"].(*VList)
	if lst == nil {
		return nil, "what is written is not a list"
	}
	return in.simplifyItems(lst.items, facts), ""
}

// relOf is the relation identifier of the input that an identifier of the SQL tree stands
// for, if it is written as that identifier has to be: with its qualifier and its alias.
func (r *genRun) relOf(v Val, facts []*F) string {
	path := ""
	walkVal(v, fTrue, func(v Val, g *F) bool {
		if s, ok := v.(VSym); ok && strings.HasSuffix(s.path, ".Name") && path == "" {
			path = strings.TrimSuffix(s.path, ".Name")
		}
		return true
	})
	if path == "" {
		return ""
	}
	r.outline = false
	items, und := r.render(v, facts)
	r.outline = true
	if und != "" {
		return ""
	}
	for _, l := range r.texts(items, facts, 0) {
		if l.und != "" {
			return ""
		}
		want := "\"‹" + path + ".Name›\""
		st := &state{pc: l.facts}
		switch r.in.decide(st, fAtom("len("+path+".Qualifier)", "0")) {
		case 0:
			return ""
		case -1:
			want = "‹" + path + ".Qualifier›." + want
		}
		switch r.in.decide(st, fAtom("len("+path+".Alias)", "0")) {
		case 0:
			return ""
		case -1:
			want += " AS ‹" + path + ".Alias›"
		}
		if l.text != want {
			return ""
		}
	}
	return path
}

// textOf is the text of a value of which strings are made: constants as they are, other
// values by their name.
func textOf(v Val) string {
	if s, ok := constStr(v); ok {
		return s
	}
	switch x := v.(type) {
	case *VExpr:
		switch x.op {
		case "+":
			s := ""
			for _, a := range x.args {
				s += textOf(a)
			}
			return s
		case "conv:string", "conv", "assert":
			return textOf(x.args[0])
		case "cond":
			return "«cond»"
		case "list":
			n, _ := constStr(x.args[0])
			n = strings.TrimSuffix(n, ".Walk")
			return "«" + strings.Trim(n[strings.LastIndexAny(n, ".")+1:], "()") + "»"
		case "rel", "clause":
			n, _ := constStr(x.args[0])
			return "«" + n + "»"
		case "node", "host":
			return "«" + x.op + " " + x.args[0].key() + "»"
		case "call:strconv.Itoa", "call:strconv.FormatInt", "call:strconv.FormatUint":
			a := x.args[0]
			for {
				y, ok := a.(*VExpr)
				if !ok || !strings.HasPrefix(y.op, "conv") || len(y.args) != 1 {
					break
				}
				a = y.args[0]
			}
			if c, ok := a.(VConst); ok {
				return c.v.ExactString()
			}
			return textOf(a)
		case "param":
			return "‹param " + x.args[0].key() + "›"
		}
	}
	return "‹" + v.key() + "›"
}

// leaf is a text and the facts under which it is written.
type leaf struct {
	text  string
	facts []*F
	und   string
}

// texts splits a list of pieces into the alternatives it stands for: for each of them
// the text that is written. The alternatives differ in the values of the variables in
// the guards.
func (r *genRun) texts(items []Item, facts []*F, depth int) []leaf {
	in := r.in
	items = in.simplifyItems(items, facts)
	var vars []string
	seen := map[string]bool{}
	var look func(items []Item)
	val := func(v Val) {
		walkText(v, func(c *VCond) {
			{
				for x := range c.c.variables() {
					if !seen[x] {
						seen[x] = true
						vars = append(vars, x)
					}
				}
			}
		})
	}
	look = func(items []Item) {
		for _, it := range items {
			for x := range it.guard.variables() {
				if !seen[x] {
					seen[x] = true
					vars = append(vars, x)
				}
			}
			if it.kind == 'e' {
				val(it.val)
			}
		}
	}
	look(items)
	if len(vars) == 0 {
		var sb strings.Builder
		for _, it := range items {
			switch it.kind {
			case 'e':
				sb.WriteString(textOf(it.val))
			case 'r':
				sb.WriteString("‹for " + it.src.key() + "›")
			default:
				return []leaf{{facts: facts, und: "what is written has a part that is not understood"}}
			}
		}
		return []leaf{{text: squeeze(sb.String()), facts: facts}}
	}
	if depth > 14 {
		return []leaf{{facts: facts, und: "too many alternatives"}}
	}
	sort.Slice(vars, func(i, j int) bool {
		if a, b := opaqueVar(vars[i]), opaqueVar(vars[j]); a != b {
			return b
		}
		return vars[i] < vars[j]
	})
	v := vars[0]
	cs := map[string]bool{}
	for _, it := range items {
		it.guard.consts(v, cs)
		if it.kind == 'e' {
			walkText(it.val, func(c *VCond) { c.c.consts(v, cs) })
		}
	}
	var ks []string
	for c := range cs {
		ks = append(ks, c)
	}
	sort.Strings(ks)
	var out []leaf
	rest := facts
	for _, c := range ks {
		f := fAtom(v, c)
		st := &state{pc: rest}
		if in.decide(st, f) != -1 {
			out = append(out, r.texts(items, with(rest, f), depth+1)...)
		}
		rest = with(rest, fNot(f))
	}
	if fSat(fAnd(append(append([]*F{}, in.axioms...), rest...)...)) {
		out = append(out, r.texts(items, rest, depth+1)...)
	}
	// the same whatever v is
	for _, l := range out {
		if l.und != "" || l.text != out[0].text {
			return out
		}
	}
	if len(out) > 0 {
		return []leaf{{text: out[0].text, facts: facts}}
	}
	return out
}

// walkText visits the choices on which the text of a piece depends. What is in a list, a
// node or a condition that is a piece of its own is not looked at.
func walkText(v Val, fn func(c *VCond)) {
	switch x := v.(type) {
	case *VCond:
		fn(x)
		walkText(x.a, fn)
		walkText(x.b, fn)
	case *VExpr:
		switch x.op {
		case "list", "cond", "node", "host", "clause", "rel":
			return
		}
		for _, a := range x.args {
			walkText(a, fn)
		}
	}
}

// squeeze makes all white space the same: outside of quotes, what separates is a space.
func squeeze(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	for _, x := range []string{"( ", " )", " ,"} {
		s = strings.ReplaceAll(s, x, strings.TrimSpace(x))
	}
	return s
}
