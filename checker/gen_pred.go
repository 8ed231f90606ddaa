package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"os"
	"regexp"
	"strconv"
	"strings"
)

// the operators a condition can be written with and what they are in SQL
var tagOps = map[string]string{
	"=": "=", "<>": "<>", "!=": "!=", "<": "<", ">": ">", "<=": "<=", ">=": ">=",
	"isdistinct": "IS DISTINCT FROM", "notdistinct": "IS NOT DISTINCT FROM",
	"~": "~", "~*": "~*", "!~": "!~", "!~*": "!~*",
	"islike": "LIKE", "notlike": "NOT LIKE", "isilike": "ILIKE", "notilike": "NOT ILIKE",
	"issimilar": "SIMILAR TO", "notsimilar": "NOT SIMILAR TO",
	"isin": "IN", "notin": "NOT IN",
	"isbetween": "BETWEEN", "notbetween": "NOT BETWEEN", "isbetweensym": "BETWEEN SYMMETRIC", "notbetweensym": "NOT BETWEEN SYMMETRIC",
	"isbetweenasym": "BETWEEN ASYMMETRIC", "notbetweenasym": "NOT BETWEEN ASYMMETRIC",
	"isnull": "IS NULL", "notnull": "IS NOT NULL", "istrue": "IS TRUE", "nottrue": "IS NOT TRUE", "isfalse": "IS FALSE",
	"notfalse": "IS NOT FALSE", "isunknown": "IS UNKNOWN", "notunknown": "IS NOT UNKNOWN",
}

// the operators whose existence has to be known to the database for a condition
var oprNames = map[string][]string{
	"=": {"="}, "<>": {"<>"}, "!=": {"<>"}, "<": {"<"}, ">": {">"}, "<=": {"<="}, ">=": {">="},
	"isdistinct": {"=", "<>"}, "notdistinct": {"=", "<>"},
	"~": {"~"}, "~*": {"~*"}, "!~": {"!~"}, "!~*": {"!~*"},
	"islike": {"~~"}, "notlike": {"!~~"}, "isilike": {"~~*"}, "notilike": {"!~~*"},
	"issimilar": {"~~", "~"}, "notsimilar": {"!~~", "!~"}, "isin": {"="}, "notin": {"<>", "="},
}

func unaryTag(t string) bool {
	op := tagOps[t]
	return strings.HasPrefix(op, "IS ") && !strings.Contains(op, "DISTINCT")
}

func rangeTag(t string) bool { return strings.Contains(tagOps[t], "BETWEEN") }
func inTag(t string) bool    { return t == "isin" || t == "notin" }

// tagTables lists, for every table of the package that pairs the constants of the named
// type with strings, the pairs.
func (p *Prog) tagTables(rel, owner, typ string) (out []map[string]string) {
	pk := p.pkg(rel)
	t := p.typeOfName(owner, typ)
	if t == nil {
		return nil
	}
	konst := func(e ast.Expr) (string, bool) {
		tv, ok := pk.TypesInfo.Types[e]
		if !ok || tv.Value == nil || tv.Value.Kind() == constant.String {
			return "", false
		}
		// the key of an array is an int: look at what it was before
		if types.Identical(tv.Type, t) {
			return tv.Value.ExactString(), true
		}
		var id *ast.Ident
		switch x := e.(type) {
		case *ast.Ident:
			id = x
		case *ast.SelectorExpr:
			id = x.Sel
		default:
			return "", false
		}
		c, ok := pk.TypesInfo.Uses[id].(*types.Const)
		if !ok || !types.Identical(c.Type(), t) {
			return "", false
		}
		return c.Val().ExactString(), true
	}
	str := func(e ast.Expr) (string, bool) {
		tv, ok := pk.TypesInfo.Types[e]
		if !ok || tv.Value == nil || tv.Value.Kind() != constant.String {
			return "", false
		}
		return constant.StringVal(tv.Value), true
	}
	for _, f := range pk.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			cl, ok := n.(*ast.CompositeLit)
			if !ok {
				return true
			}
			m := map[string]string{} // constant -> string
			for _, e := range cl.Elts {
				kv, ok := e.(*ast.KeyValueExpr)
				if !ok {
					return true
				}
				if c, ok := konst(kv.Key); ok {
					if s, ok := str(kv.Value); ok {
						m[c] = s
						continue
					}
				}
				if s, ok := str(kv.Key); ok {
					if c, ok := konst(kv.Value); ok {
						m[c] = s
						continue
					}
				}
				return true
			}
			if len(m) > 0 {
				out = append(out, m)
			}
			return true
		})
	}
	return out
}

// enums are the values of the constants by the words that stand for them in tags.
type enums struct {
	pred, quant, join map[string]string // word -> value
}

func (p *Prog) enums(rep *Report) (e enums) {
	read := func(typ string, words map[string]bool) map[string]string {
		out := map[string]string{}
		for _, m := range p.tagTables("internal/analysis", "internal/analysis", typ) {
			for c, s := range m {
				if !words[s] {
					continue
				}
				if old, ok := out[s]; ok && old != c {
					rep.Bad("the words for "+typ, "%q stands for the values %s and %s in different tables", s, old, c)
				}
				out[s] = c
			}
		}
		return out
	}
	ops := map[string]bool{}
	for t := range tagOps {
		ops[t] = true
	}
	e.pred = read("Predicate", ops)
	e.quant = read("Quantifier", map[string]bool{"any": true, "some": true, "all": true})
	e.join = read("JoinType", map[string]bool{"CrossJoin": true, "InnerJoin": true, "LeftJoin": true, "RightJoin": true, "FullJoin": true})
	return e
}

func (p *Prog) checkWords(rep *Report, e enums) {
	one := func(what string, words []string, m map[string]string) {
		by := map[string]string{}
		for _, w := range words {
			v, ok := m[w]
			if !ok {
				rep.Note("the %s %q was not found in a table of the analysis", what, w)
				continue
			}
			if o, dup := by[v]; dup {
				rep.Bad(what+" "+w, "%q and %q stand for the same value", o, w)
				continue
			}
			by[v] = w
			rep.Ok(fmt.Sprintf("%s %s = %s", what, w, v))
		}
	}
	one("operator", sortedKeys(tagOps), e.pred)
	one("quantifier", []string{"all", "any", "some"}, e.quant)
	one("join", []string{"CrossJoin", "FullJoin", "InnerJoin", "LeftJoin", "RightJoin"}, e.join)
	byVal := map[string]string{}
	for w, v := range e.pred {
		byVal[v] = w
	}
	for _, m := range p.tagTables("internal/postgres", "internal/analysis", "Predicate") {
		for _, v := range sortedKeys(m) {
			w := byVal[v]
			want, ok := oprNames[w]
			if !ok {
				continue
			}
			good := false
			for _, o := range want {
				good = good || o == m[v]
			}
			if good {
				rep.Ok(fmt.Sprintf("the operator of the catalog for %s is %s", w, m[v]))
			} else {
				rep.Bad("catalog operator of "+w, "the operator that is looked up for %q is %q", w, m[v])
			}
		}
	}
}

type predCheck struct {
	r    *genRun
	rep  *Report
	e    enums
	seen map[string]bool
	unk  bool   // the text that is expected is not known
	alts [][]*F // the cases of which it depends
}

func (c *predCheck) pgType(name string) types.Type {
	return c.r.in.p.typeOfName("internal/postgres", name)
}

func isOfType(path, typ string) *F { return fAtom("type("+path+")", "*postgres."+typ) }

// run checks every search condition in what was generated.
func (c *predCheck) run() {
	n := 0
	seen := map[string]bool{}
	walkVal(c.r.file, fTrue, func(v Val, g *F) bool {
		s, ok := v.(*VStruct)
		if !ok {
			return true
		}
		switch typeName(s.typ) {
		case "sqlang.WhereClause", "sqlang.JoinCondition":
			sc := field(s, "SearchCondition")
			if sc == nil || seen[s.key()] {
				return false
			}
			seen[s.key()] = true
			cases(sc, fTrue, func(v Val, g *F) {
				if l := isNode(v, "sqlang.BoolValueExprList"); l != nil {
					n++
					c.list(l, false, with(nil, g))
				}
			})
			return false
		}
		return true
	})
}

// source is the list of conditions over which a search condition was built.
func source(items []Item) (src Val, ok bool) {
	for _, it := range items {
		if it.kind != 'r' {
			return nil, false
		}
		if src != nil && src.key() != it.src.key() {
			return nil, false
		}
		src = it.src
	}
	return src, src != nil
}

// list checks a search condition: the conditions it is made of and what joins them.
func (c *predCheck) list(l *VStruct, nested bool, facts []*F) {
	in := c.r.in
	l, _ = in.simplify(l, facts).(*VStruct)
	src, ok := source(listOf(field(l, "Items")))
	if !ok {
		c.rep.Note("%s: a search condition is not understood", c.r.cfg.name)
		return
	}
	s, ok := src.(VSym)
	if !ok || !strings.HasPrefix(s.path, "info.Where") && !strings.HasPrefix(s.path, "info.Joins") {
		c.keys(l, src, facts)
		return
	}
	name := "the conditions of " + s.path
	if c.seen[fmt.Sprint(nested)+l.key()] {
		return
	}
	c.seen[fmt.Sprint(nested)+l.key()] = true
	name = c.r.cfg.name + ": " + name
	E := s.path + "[*]"
	idx := in.idxOf(s).key()
	st, _ := s.typ.Underlying().(*types.Slice)
	var iface *types.Interface
	if st != nil {
		iface, _ = st.Elem().Underlying().(*types.Interface)
	}
	has := func(t string) bool {
		pt := c.pgType(t)
		return pt != nil && (iface == nil || types.Implements(types.NewPointer(pt), iface))
	}

	// the accumulators: what was last seen between conditions
	accs := map[string]bool{}
	walkItems(listOf(field(l, "Items")), fTrue, func(v Val, g *F) bool {
		for x := range g.variables() {
			if strings.HasPrefix(x, "acc:"+s.path+"/") {
				accs[x] = true
			}
		}
		return true
	})
	var joiner string
	for x := range accs {
		infos := in.accs[x]
		if len(infos) == 0 || infos[len(infos)-1].step == nil {
			continue
		}
		step := infos[len(infos)-1].step
		b := in.simplify(step, with(facts, isOfType(E, "Boolean")))
		o := in.simplify(step, with(facts, fNot(isOfType(E, "Boolean"))))
		if b.key() == E+".Value" {
			joiner = x
		} else if typeOfVal(b) != nil && typeName(typeOfVal(b)) == "analysis.Boolean" && decided(b) && o.key() == x {
			c.rep.Bad(name, "what joins two conditions is not the word between them: after such a word it is %s", short(b, 100))
			return
		}
	}
	if joiner == "" {
		c.rep.Note("%s: what joins the conditions is not understood", name)
		return
	}
	and, or := c.konst("BoolAnd"), c.konst("BoolOr")
	if and == "" || or == "" {
		c.rep.Note("the values of and and or are not known")
		return
	}
	step := in.stepOf(field(l, "Initial"))
	if step == nil {
		c.rep.Note("%s: the first condition is not understood", name)
		return
	}
	// how the list is put together
	shape := &VStruct{typ: l.typ, fields: map[string]Val{}}
	for f, v := range l.fields {
		shape.fields[f] = v
	}
	nodeT := c.r.in.p.Pkgs["github.com/frk/ast/sqlang"].Types.Scope().Lookup("Node").Type()
	shape.fields["Initial"] = VSym{"@first", nodeT}
	shape.fields["Items"] = &VList{typ: typeOfVal(field(l, "Items")), items: []Item{{guard: fTrue, kind: 'e', val: VSym{"@rest", nodeT}}}}
	want := "«node @first» «node @rest»"
	if nested {
		want = "(" + want + ")"
	}
	c.compare(name+": the whole", shape, facts, want, nil)

	// the first one and the ones that follow
	first := with(facts, fAtom(idx, "0"))
	for x := range in.accs {
		if !strings.HasPrefix(x, "acc:"+s.path+"/") {
			continue
		}
		for _, a := range in.accs[x] {
			if k, ok := a.init.(VConst); ok {
				first = with(first, fAtom(x, k.key()))
			}
		}
	}
	rest := with(facts, fNot(fAtom(idx, "0")))
	check := func(what, typ string, fs []*F, want func(fs []*F) string) {
		all := append([]*F{isOfType(E, typ)}, fs...)
		for _, o := range []string{"FieldConditional", "ColumnConditional", "BetweenConditional", "NestedConditional", "Boolean"} {
			if o != typ {
				all = append(all, fNot(isOfType(E, o)))
			}
		}
		add := func(base []*F) []*F {
			for _, f := range all {
				base = with(base, f)
			}
			return base
		}
		f1 := add(first)
		c.compare(name+": "+what+" as the first one", in.simplify(step, f1), f1, "", want)
		for _, j := range []struct{ op, val string }{{"AND", and}, {"OR", or}} {
			f2 := with(add(rest), fAtom(joiner, j.val))
			items := in.simplifyItems(listOf(field(l, "Items")), f2)
			body := &VList{typ: typeOfVal(field(l, "Items"))}
			for _, it := range items {
				body.items = append(body.items, guardItems(it.guard, it.items)...)
			}
			sh := &VStruct{typ: l.typ, fields: map[string]Val{"Initial": VSym{"@first", nodeT}, "Items": body}}
			c.compare(name+": "+what+" after "+strings.ToLower(j.op), sh, f2, "", func(fs []*F) string {
				w := want(fs)
				if w == "" {
					return ""
				}
				return "«node @first» " + j.op + " " + w
			})
		}
	}
	col := func(id string, fs []*F) string {
		return c.text(&VStruct{typ: c.sqlType("ColumnReference"), fields: map[string]Val{
			"Qual": VSym{id + ".Qualifier", types.Typ[types.String]},
			"Name": VSym{id + ".Name", c.sqlType("Name")}}}, fs)
	}
	param := func(path string) string { return "$‹param " + path + "›" }
	empty := func(path string) *F { return fAtom("len("+path+")", "0") }
	pred := func(v string) *F { return fAtom(E+".Predicate", v) }
	quant := func(v string) *F { return fAtom(E+".Quantifier", v) }
	tags := sortedKeys(c.e.pred)
	if has("FieldConditional") {
		for _, t := range tags {
			k, op := c.e.pred[t], tagOps[t]
			switch {
			case unaryTag(t) || rangeTag(t):
			case inTag(t):
				check("a field with "+t, "FieldConditional", []*F{pred(k), quant("0"), empty(E + ".FuncName")}, func(fs []*F) string {
					return col(E+".ColIdent", fs) + " " + op + " («host*»)"
				})
			default:
				check("a field with "+t, "FieldConditional", []*F{pred(k), quant("0"), empty(E + ".FuncName")}, func(fs []*F) string {
					return col(E+".ColIdent", fs) + " " + op + " " + param(E)
				})
				check("a field with "+t+" and a function", "FieldConditional", []*F{pred(k), quant("0"), fNot(empty(E + ".FuncName"))}, func(fs []*F) string {
					f := "‹" + E + ".FuncName›"
					return f + "(" + col(E+".ColIdent", fs) + ") " + op + " " + f + "(" + param(E) + ")"
				})
				if strings.Contains(t, "distinct") {
					continue
				}
				for _, q := range sortedKeys(c.e.quant) {
					check("a field with "+t+" "+q, "FieldConditional", []*F{pred(k), quant(c.e.quant[q]), empty(E + ".FuncName"), fNot(empty(E + ".Column.Type.NameFmt"))}, func(fs []*F) string {
						return col(E+".ColIdent", fs) + " " + op + " " + strings.ToUpper(q) + "(" + param(E) + "::‹" + E + ".Column.Type.NameFmt›[])"
					})
				}
			}
		}
	}
	if has("ColumnConditional") {
		noRHS := c.isEmpty(E + ".RHSColIdent")
		lit := empty(E + ".RHSLiteral")
		rhs := []struct {
			name string
			fs   []*F
			text func(fs []*F) string
		}{
			{"a column", []*F{fNot(noRHS)}, func(fs []*F) string { return col(E+".RHSColIdent", fs) }},
			{"a literal", []*F{noRHS, fNot(lit), fNot(fAtom(E+".RHSLiteral", `""`))}, func(fs []*F) string { return "‹" + E + ".RHSLiteral›" }},
		}
		for _, t := range tags {
			k, op := c.e.pred[t], tagOps[t]
			if unaryTag(t) {
				check("a column with "+t, "ColumnConditional", []*F{pred(k), quant("0"), noRHS, lit}, func(fs []*F) string {
					return col(E+".LHSColIdent", fs) + " " + op
				})
				continue
			}
			if rangeTag(t) {
				continue
			}
			for _, r := range rhs {
				r := r
				if inTag(t) {
					check("a column with "+t+" and "+r.name, "ColumnConditional", append([]*F{pred(k), quant("0")}, r.fs...), func(fs []*F) string {
						if t == "isin" {
							return col(E+".LHSColIdent", fs) + " = ANY(" + r.text(fs) + ")"
						}
						return col(E+".LHSColIdent", fs) + " <> ALL(" + r.text(fs) + ")"
					})
					continue
				}
				check("a column with "+t+" and "+r.name, "ColumnConditional", append([]*F{pred(k), quant("0")}, r.fs...), func(fs []*F) string {
					return col(E+".LHSColIdent", fs) + " " + op + " " + r.text(fs)
				})
				if strings.Contains(t, "distinct") {
					continue
				}
				for _, q := range sortedKeys(c.e.quant) {
					check("a column with "+t+" "+q+" and "+r.name, "ColumnConditional", append([]*F{pred(k), quant(c.e.quant[q])}, r.fs...), func(fs []*F) string {
						return col(E+".LHSColIdent", fs) + " " + op + " " + strings.ToUpper(q) + "(" + r.text(fs) + ")"
					})
				}
			}
		}
		check("a column by itself", "ColumnConditional", []*F{pred("0"), quant("0"), noRHS, lit}, func(fs []*F) string {
			return col(E+".LHSColIdent", fs)
		})
	}
	if has("BetweenConditional") {
		bound := func(side, typ string) *F { return isOfType(E+"."+side, typ) }
		for _, t := range tags {
			if !rangeTag(t) {
				continue
			}
			for _, lo := range []string{"FieldConditional", "ColumnConditional"} {
				for _, hi := range []string{"FieldConditional", "ColumnConditional"} {
					side := func(s, typ string, fs []*F) string {
						if typ == "FieldConditional" {
							return param(E + "." + s)
						}
						return col(E+"."+s+".RHSColIdent", fs)
					}
					t, lo, hi := t, lo, hi
					check("a range with "+t, "BetweenConditional", []*F{pred(c.e.pred[t]), bound("LowerBound", lo), bound("UpperBound", hi)}, func(fs []*F) string {
						return col(E+".ColIdent", fs) + " " + tagOps[t] + " " + side("LowerBound", lo, fs) + " AND " + side("UpperBound", hi, fs)
					})
				}
			}
		}
	}
	if has("NestedConditional") {
		group := func(v Val) bool {
			n := isNode(v, "sqlang.BoolValueExprList")
			if n == nil {
				arg, _, ok := recArg(v)
				if ok && arg != E+".Conditionals" {
					c.rep.Bad(name, "a group of conditions is made of %s instead of the conditions of the group", arg)
				}
				return ok
			}
			src, ok := source(listOf(field(n, "Items")))
			if ok && src.key() != E+".Conditionals" {
				c.rep.Bad(name, "a group of conditions is made of %s instead of the conditions of the group", src.key())
			} else if ok {
				c.list(n, true, facts)
			}
			return ok
		}
		if !group(in.simplify(step, with(first, isOfType(E, "NestedConditional")))) {
			c.rep.Note("%s: a group that comes first is not understood", name)
		}
		for _, j := range []struct{ op, val string }{{"AND", and}, {"OR", or}} {
			f2 := with(with(rest, isOfType(E, "NestedConditional")), fAtom(joiner, j.val))
			body := plainBody(in.simplifyItems(listOf(field(l, "Items")), f2))
			var n *VStruct
			if len(body) == 1 {
				n, _ = body[0].(*VStruct)
			}
			switch {
			case n == nil || n.fields["Operand"] == nil || typeName(n.typ) != "sqlang.AND" && typeName(n.typ) != "sqlang.OR":
				c.rep.Note("%s: a group after %s is not understood", name, strings.ToLower(j.op))
			case typeName(n.typ) != "sqlang."+j.op:
				c.rep.Bad(name, "a group after %s is joined by %s", strings.ToLower(j.op), typeName(n.typ))
			default:
				if group(n.fields["Operand"]) {
					c.rep.Ok(name + ": a group of conditions after " + strings.ToLower(j.op))
				}
			}
		}
	}
	c.none(name, step, with(first, isOfType(E, "Boolean")), field(l, "Items"), with(rest, isOfType(E, "Boolean")))
}

// none checks that the words between conditions do not become conditions themselves.
func (c *predCheck) none(name string, first Val, f1 []*F, items Val, f2 []*F) {
	in := c.r.in
	if v, ok := in.simplify(first, f1).(VAcc); !ok {
		c.rep.Note("%s: what a word between conditions does to the first condition is not understood: %s", name, short(v, 80))
	}
	for _, it := range in.simplifyItems(listOf(items), f2) {
		if it.guard == fTrue && len(it.items) > 0 && it.items[0].guard == fTrue {
			c.rep.Bad(name, "a word between two conditions is written as a condition")
			return
		}
	}
}

func (c *predCheck) konst(name string) string {
	k, ok := c.r.in.p.pkg("internal/analysis").Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return ""
	}
	return k.Val().ExactString()
}

func (c *predCheck) sqlType(name string) types.Type {
	return c.r.in.p.Pkgs["github.com/frk/ast/sqlang"].Types.Scope().Lookup(name).Type()
}

// isEmpty is the condition that a column identifier is missing.
func (c *predCheck) isEmpty(path string) *F {
	t := c.r.in.p.typeOfName("internal/analysis", "ColIdent")
	if t != nil {
		o, _, _ := types.LookupFieldOrMethod(t, true, c.r.in.p.pkg("internal/analysis").Types, "IsEmpty")
		if fn, ok := o.(*types.Func); ok {
			out := c.r.in.callFunc(c.r.st.clone(), fn, VSym{path, t}, nil, 0)
			if len(out) == 1 {
				if f, ok := asF(out[0]); ok {
					return f
				}
			}
		}
	}
	return fAtom(path+".Name", `""`)
}

// text is what a node that is known writes under the facts.
func (c *predCheck) text(v Val, facts []*F) string {
	items, und := c.r.render(v, facts)
	ls := c.r.texts(items, facts, 0)
	if und != "" || len(ls) != 1 || ls[0].und != "" {
		c.unk = true
		if und == "" && len(ls) > 1 && c.alts == nil {
			for _, l := range ls {
				if l.und != "" {
					c.alts = nil
					break
				}
				c.alts = append(c.alts, l.facts)
			}
		}
		return ""
	}
	return ls[0].text
}

// compare checks what a node writes in each of the cases that are left open.
func (c *predCheck) compare(what string, v Val, facts []*F, want string, wantFn func(fs []*F) string) {
	in := c.r.in
	items, und := c.r.render(v, facts)
	if und != "" {
		c.rep.Note("%s: undecided: %s", what, und)
		return
	}
	// the cases in which the expected text differs are those of the qualifiers
	all := facts
	ls := c.r.texts(items, all, 0)
	okText := ""
	for n := 0; len(ls) > 0; n++ {
		l := ls[0]
		ls = ls[1:]
		if l.und != "" {
			c.rep.Note("%s: undecided: %s", what, l.und)
			return
		}
		if !fSat(fAnd(append(append([]*F{}, in.axioms...), l.facts...)...)) {
			continue
		}
		w := want
		if wantFn != nil {
			c.unk, c.alts = false, nil
			w = wantFn(l.facts)
		}
		if c.unk && c.alts != nil && n < 64 {
			// look at each of the cases on which the expected text depends
			for _, a := range c.alts {
				more := l
				more.facts = append(append([]*F{}, l.facts...), a...)
				ls = append(ls, more)
			}
			continue
		}
		if w == "" || c.unk {
			c.rep.Note("%s: undecided: what is expected depends on more than %s", what, fAnd(l.facts...).k)
			return
		}
		if !textMatch(l.text, w) {
			if x := in.doubt(facts, l.facts); x == "none" {
				continue
			} else if x != "" {
				c.rep.Note("%s: undecided: it depends on %s", what, x)
				return
			}
			c.rep.Bad(what, "what is generated is [%s] and not [%s]", trunc(l.text, 300), trunc(w, 300))
			return
		}
		okText = l.text
	}
	if okText != "" {
		c.rep.Ok(what + ": " + trunc(okText, 200))
	}
}

var idxPath = regexp.MustCompile(`\[idx\(\d+\)\]`)
var intCmp = regexp.MustCompile(`^(.*?)([<>])(\d+)$`)

// doubt tells what the case that the facts describe depends on of which it is not known
// whether it can be so: "" if the case is possible and "none" if it is not.
func (in *Interp) doubt(known, facts []*F) string {
	fixed := map[string]bool{}
	for _, f := range known {
		for x := range f.variables() {
			fixed[x] = true
		}
	}
	ints := map[string][]func(n int) bool{}
	var all []*F
	for _, f := range facts {
		all = append(all, conjuncts(f)...)
	}
	for _, f := range all {
		a, neg := f, false
		if f.op == '!' {
			a, neg = f.kids[0], true
		}
		if a.op == 'a' {
			x, op, c := a.v, "=", a.c
			if m := intCmp.FindStringSubmatch(a.v); m != nil && a.c == "true" {
				x, op, c = m[1], m[2], m[3]
			}
			if k, err := strconv.Atoi(c); err == nil && (strings.HasPrefix(x, "idx(") || strings.HasPrefix(x, "len(")) && !opaqueVar(idxPath.ReplaceAllString(strings.TrimPrefix(x, "idx"), "")) {
				ints[x] = append(ints[x], func(n int) bool {
					return (op == "=" && n == k || op == "<" && n < k || op == ">" && n > k) != neg
				})
				continue
			}
		}
		for x := range f.variables() {
			if !fixed[x] && in.unsureVar(idxPath.ReplaceAllString(x, "")) {
				return x
			}
		}
	}
	for _, cs := range ints {
		ok := false
		for n := 0; n < 200 && !ok; n++ {
			ok = true
			for _, c := range cs {
				ok = ok && c(n)
			}
		}
		if !ok {
			return "none"
		}
	}
	return ""
}

// textMatch compares what is written with what is expected; «host*» stands for code
// that is evaluated when the query is made, BETWEEN is asymmetric by
// itself and SOME is ANY.
func textMatch(got, want string) bool {
	norm := func(s string) string {
		return strings.ReplaceAll(strings.ReplaceAll(s, "BETWEEN ASYMMETRIC ", "BETWEEN "), " SOME(", " ANY(")
	}
	got, want = norm(got), norm(want)
	if i := strings.Index(want, "«host*»"); i >= 0 {
		pre, post := want[:i], want[i+len("«host*»"):]
		return len(got) >= len(pre)+len(post) && strings.HasPrefix(got, pre+"«host ") && strings.HasSuffix(got, "»"+post)
	}
	return got == want
}

func typeOfVal(v Val) types.Type {
	switch x := v.(type) {
	case VSym:
		return x.typ
	case VConst:
		return x.typ
	case *VExpr:
		return x.typ
	case *VStruct:
		return x.typ
	case *VList:
		return x.typ
	case VAcc:
		return x.typ
	}
	return nil
}

// decided reports whether a value has no alternatives.
func decided(v Val) bool {
	ok := true
	walkVal(v, fTrue, func(v Val, g *F) bool {
		if _, c := v.(*VCond); c {
			ok = false
		}
		return ok
	})
	return ok
}

// stepOf is what an iteration of the loop by which v was accumulated does.
func (in *Interp) stepOf(v Val) Val {
	switch x := v.(type) {
	case *VExpr:
		if x.op == "fold" && len(x.args) == 3 {
			return x.args[2]
		}
	case *VCond:
		if x.c.op == 'a' {
			if a := in.somes[x.c.v]; a != nil && x.c.c == "true" {
				return mkCond(a.cond, x.a, x.b)
			}
		}
	}
	return nil
}

// plainBody lists what a loop adds to a list in every iteration.
func plainBody(items []Item) []Val {
	var out []Val
	for _, it := range items {
		if it.kind != 'r' || it.guard != fTrue {
			return nil
		}
		for _, x := range it.items {
			if x.kind != 'e' || x.guard != fTrue {
				return nil
			}
			out = append(out, x.val)
		}
	}
	return out
}

// keys checks the condition by which an UPDATE finds the rows of the given records: the
// columns of the primary key have the records' values.
func (c *predCheck) keys(l *VStruct, src Val, facts []*F) {
	in := c.r.in
	s, ok := src.(VSym)
	if !ok || s.path != "info.PKeys" {
		c.rep.Note("%s: the condition over %s is not understood", c.r.cfg.name, short(src, 60))
		return
	}
	name := c.r.cfg.name + ": the primary key"
	E := s.path + "[*]"
	idx := in.idxOf(s).key()
	step := in.stepOf(field(l, "Initial"))
	if step == nil {
		c.rep.Note("%s: the first condition is not understood", name)
		return
	}
	empty := func(path string) *F { return fAtom("len("+path+")", "0") }
	want := func(fs []*F) string {
		st := &state{pc: fs}
		col := ""
		switch in.decide(st, empty(E+".ColIdent.Qualifier")) {
		case -1:
			col = "‹" + E + ".ColIdent.Qualifier›."
		case 0:
			return ""
		default:
			if !c.r.cfg.slice {
				break
			}
			switch in.decide(st, empty("qs.Rel.Id.Alias")) {
			case 0:
				return ""
			case -1:
				col = "‹qs.Rel.Id.Alias›."
			default:
				col = "\"‹qs.Rel.Id.Name›\"."
			}
		}
		name := "\"‹" + E + ".ColIdent.Name›\""
		if c.r.cfg.slice {
			return col + name + " = x." + name + "::‹" + E + ".Column.Type.NameFmt›"
		}
		return col + name + " = $‹param " + E + ".Field›"
	}
	// the cases of the names
	for _, f := range []*F{empty(E + ".ColIdent.Qualifier"), fNot(empty(E + ".ColIdent.Qualifier"))} {
		for _, g := range []*F{empty("qs.Rel.Id.Alias"), fNot(empty("qs.Rel.Id.Alias"))} {
			fs := with(with(facts, f), g)
			f1 := with(fs, fAtom(idx, "0"))
			c.compare(name+": the first column", in.simplify(step, f1), f1, "", want)
			f2 := with(fs, fNot(fAtom(idx, "0")))
			body := plainBody(in.simplifyItems(listOf(field(l, "Items")), f2))
			if len(body) != 1 {
				c.rep.Note("%s: what follows the first column is not understood", name)
				continue
			}
			c.compare(name+": another column", body[0], f2, "", func(fs []*F) string {
				if w := want(fs); w != "" {
					return "AND " + w
				}
				return ""
			})
		}
	}
}

func init() {
	register("G03", "static", genExpl, func(p *Prog, rep *Report) {
		rep.Rule("words", "every documented operator word, quantifier and join stands for a value of its own, and the operator that is looked up in the database's catalog for it is the one that is generated")
		e := p.enums(rep)
		p.checkWords(rep, e)
		rep.Rule("text", "what a condition writes into the query is the operator its tag asks for, between the column on its left and the parameter, column or literal on its right")
		var cfgs []genConfig
		for _, cfg := range p.genConfigs() {
			if cfg.qual == "where" || cfg.join || cfg.kind == "QueryKindUpdate" {
				cfg.unroll = 1
				cfgs = append(cfgs, cfg)
			}
		}
		if os.Getenv("GN") != "" {
			cfgs = cfgs[len(cfgs)-1:]
		}
		p.forConfigs(rep, cfgs, func(rep *Report, r *genRun) {
			c := &predCheck{r: r, rep: rep, e: e, seen: map[string]bool{}}
			c.run()
		})
	})
}
