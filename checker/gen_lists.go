package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// a glist is a list that is a part of a query: one element, or a loop over an input, after
// another.
type glist struct {
	name  string
	guard *F
	val   *VList
}

// stmtLists are the lists among the pieces of the text of the query.
func (r *genRun) stmtLists(items []Item) (out []glist) {
	for _, it := range items {
		if it.kind != 'e' {
			continue
		}
		if x, ok := it.val.(*VExpr); ok && x.op == "list" {
			n := strings.Trim(textOf(x), "«»")
			if l, ok := stripConv(x.args[1]).(*VList); ok {
				out = append(out, glist{n, it.guard, l})
			}
		}
	}
	return out
}

// linear writes a list as pieces of text: what the elements write, and for a loop, between
// brackets, what its elements write.
func (r *genRun) linear(items []Item, facts []*F, elem func(v Val, facts []*F) ([]Item, string)) (out []Item, und string) {
	for _, it := range items {
		fs := append(append([]*F{}, facts...), it.guard)
		switch it.kind {
		case 'e':
			t, und := elem(it.val, fs)
			if und != "" {
				return nil, und
			}
			out = append(out, guardItems(it.guard, t)...)
		case 'r':
			out = append(out, Item{guard: it.guard, kind: 'e', val: mkStr("[for " + it.src.key() + ":")})
			kids, und := r.linear(it.items, fs, elem)
			if und != "" {
				return nil, und
			}
			out = append(out, guardItems(it.guard, kids)...)
			out = append(out, Item{guard: it.guard, kind: 'e', val: mkStr("]")})
		default:
			return nil, "an element is not understood: " + trunc(itemsKey([]Item{it}), 80)
		}
	}
	return out, ""
}

// sqlElem is what an element of a list of SQL nodes writes.
func (r *genRun) sqlElem(v Val, facts []*F) ([]Item, string) {
	t, und := r.render(v, facts)
	return append([]Item{{guard: fTrue, kind: 'e', val: mkStr("; ")}}, t...), und
}

// written is what an element that is text writes.
func (r *genRun) written(v Val, facts []*F) ([]Item, string) {
	return []Item{{guard: fTrue, kind: 'e', val: v}}, ""
}

// defaultGuard is the condition under which a column is set to DEFAULT.
func (r *genRun) defaultGuard(items []Item) *F {
	g := fFalse
	for _, it := range items {
		if it.kind != 'e' {
			continue
		}
		cases(it.val, it.guard, func(v Val, gg *F) {
			t, _ := r.render(v, nil)
			if _, ok := constStr(v); ok {
				t = []Item{{guard: fTrue, kind: 'e', val: v}}
			}
			if len(t) == 0 {
				t, _ = r.concatPieces(v, nil)
			}
			for _, x := range append(t, Item{guard: fTrue, kind: 'e', val: v}) {
				walkVal(x.val, fAnd(gg, x.guard), func(v Val, gg *F) bool {
					if s, ok := constStr(v); ok && strings.Contains(s, "DEFAULT") {
						g = fOr(g, gg)
					}
					return true
				})
			}
		})
	}
	return g
}

// colPieces is a reference to the column at the path.
func colPieces(path string) []piece {
	return []piece{{fNot(fAtom("len("+path+".Qualifier)", "0")), "‹" + path + ".Qualifier›."}, {fTrue, `"‹` + path + `.Name›"`}}
}

func under(g *F, ps []piece) (out []piece) {
	for _, p := range ps {
		out = append(out, piece{fAnd(g, p.g), p.s})
	}
	return out
}

// nullable is the condition that the column is one of a table that can be NULL while the
// field cannot, given how the methods of the field's type and the converter are called.
func (p *Prog) nullable(path string, conv *F, converter string) *F {
	kind := func(n string) *F {
		return fAtom(path+".Field.Type.Kind", p.constOf("internal/analysis", n).(VConst).v.ExactString())
	}
	return fAnd(fNot(fAtom(path+".Column.Relation", "nil")), fAtom(path+".Column.Relation.RelKind", `"r"`),
		fNot(fAtom(path+".Column.HasNotNull", "true")), fNot(kind("TypeKindPtr")), fNot(conv), fAtom("len("+path+"."+converter+")", "0"))
}

// nullifPieces is the value of a parameter: the zero value of a field stands for NULL if
// the column can be NULL.
// A parameter that is compared with a number without a type is an integer for the server;
// either of the two may have the type instead (form 1 and 2).
func (p *Prog) nullifPieces(w, param string, form int) (ps []piece, needs *F) {
	needs = p.nullable(w, fAtom(w+".Field.Type.IsValuer", "true"), "Valuer")
	oid := w + ".Column.Type.OID"
	var some []*F
	for _, id := range zeroIDs() {
		is := fAnd(needs, fAtom(oid, strconv.Itoa(id)))
		some = append(some, fAtom(oid, strconv.Itoa(id)))
		lit, val := zeroLits[id].lit, param
		if zeroLits[id].name == "UUID" {
			lit = "''"
		}
		typ := "::‹" + w + ".Column.Type.NameFmt›"
		if narrowZero(id) && form == 1 {
			lit += typ
		} else if narrowZero(id) && form == 2 {
			val += typ
		}
		ps = append(ps, piece{is, "NULLIF(" + val + ", " + lit + ")" + typ})
	}
	needs = fAnd(needs, fOr(some...))
	return append(ps, piece{fNot(needs), param}), needs
}

// coalescePieces is the value that is read from a column: NULL is read as the zero value,
// or the value that the field asks for, if the field has no representation for NULL.
func (p *Prog) coalescePieces(rd string, col []piece) (ps []piece) {
	iface := fAtom(rd+".Field.Type.Kind", p.constOf("internal/analysis", "TypeKindInterface").(VConst).v.ExactString())
	needs := fOr(fAtom(rd+".Field.UseCoalesce", "true"), p.nullable(rd, fAnd(fAtom(rd+".Field.Type.IsScanner", "true"), fNot(iface)), "Scanner"))
	val := fNot(fAtom("len("+rd+".Field.CoalesceValue)", "0"))
	oid := rd + ".Column.Type.OID"
	typ := "::‹" + rd + ".Column.Type.NameFmt›"
	var zero []*F
	for _, id := range zeroIDs() {
		zero = append(zero, fAtom(oid, strconv.Itoa(id)))
	}
	needs = fAnd(needs, fOr(append(zero, val)...))
	ps = append(ps, piece{needs, "COALESCE("})
	ps = append(ps, col...)
	ps = append(ps, piece{fAnd(needs, val), ", ‹" + rd + ".Field.CoalesceValue›" + typ + ")"})
	for _, id := range zeroIDs() {
		is := fAnd(needs, fNot(val), fAtom(oid, strconv.Itoa(id)))
		if zeroLits[id].name == "UUID" {
			ps = append(ps, piece{is, "::text, '')"})
		} else {
			ps = append(ps, piece{is, ", " + zeroLits[id].lit + typ + ")"})
		}
	}
	return ps
}

func zeroIDs() (out []int) {
	for id := range zeroLits {
		out = append(out, id)
	}
	sort.Ints(out)
	return out
}

// checkLists checks the lists of a query: which columns are written and read, in which
// order, and the values that they are set to.
func (p *Prog) checkLists(rep *Report, r *genRun) {
	first := rep.sub()
	p.checkListsForm(first, r, 0)
	if len(first.Viol) > 0 {
		for form := 1; form < 3; form++ {
			x := rep.sub()
			if p.checkListsForm(x, r, form); len(x.Viol) == 0 {
				rep.merge(x)
				return
			}
		}
	} else if strings.HasSuffix(r.cfg.kind, "Insert") || strings.HasSuffix(r.cfg.kind, "Update") {
		for _, id := range zeroIDs() {
			if narrowZero(id) {
				first.Bad("NULLIF("+zeroLits[id].name+")", "the parameter of a nullable %s column is compared with 0, which makes it an integer for the server: other values of the field are rejected", zeroLits[id].name)
			}
		}
	}
	rep.merge(first)
}

// narrowZero reports whether the zero value of the type, written without a type, is of a
// type that does not have all of the values of the type.
func narrowZero(id int) bool {
	n := zeroLits[id].name
	return zeroLits[id].lit == "0" && n != "Int2" && n != "Int4"
}

func (p *Prog) checkListsForm(rep *Report, r *genRun, form int) {
	r.outline = true
	defer func() { r.outline = false }()
	pieces, und := r.stmtPieces()
	if und != "" {
		rep.Note("%s: %s", r.cfg.name, und)
		return
	}
	name := r.cfg.name
	lists := map[string][]glist{}
	for _, l := range r.stmtLists(pieces) {
		dup := false
		for _, o := range lists[l.name] {
			dup = dup || o.val.key() == l.val.key()
		}
		if !dup {
			lists[l.name] = append(lists[l.name], l)
		}
	}
	compare := func(what, list string, want []piece) {
		for _, l := range lists[list] {
			fs := with(nil, l.guard)
			got, und := r.linear(l.val.items, fs, r.sqlElem)
			if und != "" {
				rep.Note("%s: %s: %s", name, what, und)
				continue
			}
			r.sameTexts(rep, what+" of "+name, got, pieceItems(want), fs)
		}
		delete(lists, list)
	}
	loop := func(src string, body ...piece) []piece {
		return append(append([]piece{{fTrue, "[for " + src + ":"}}, body...), piece{fTrue, "]"})
	}
	w, rd := "info.Writes[*]", "info.Reads[*]"
	wcol := piece{fTrue, `; "‹` + w + `.Column.Name›"`}
	kind := strings.TrimPrefix(r.cfg.kind, "QueryKind")
	if kind == "Insert" || kind == "Update" {
		dflt := r.defaultOf(rep, lists, pieces)
		vals := func(items []piece) []piece {
			return append([]piece{{fTrue, "; "}, {dflt, "DEFAULT"}}, under(fNot(dflt), items)...)
		}
		param, _ := p.nullifPieces(w, "$‹param "+w+".Field›", form)
		switch {
		case kind == "Insert":
			compare("columns", "NameGroup", loop("info.Writes", wcol))
			if !r.cfg.slice {
				compare("values", "ValueExprList", loop("info.Writes", vals(param)...))
			}
			compare("columns updated on conflict", "excluded", loop("info.Conflict.Update", piece{fTrue, `; "‹info.Conflict.Update[*].Name›"`}))
		case r.cfg.slice:
			compare("columns", "targets", loop("info.Writes", wcol))
			compare("values", "values", loop("info.Writes", vals([]piece{{fTrue, `x."‹` + w + `.Column.Name›"`}})...))
		default:
			compare("columns", "targets", loop("info.Writes", wcol))
			compare("values", "values", loop("info.Writes", vals(param)...))
		}
		if r.cfg.slice {
			p.checkRow(rep, r, form, dflt, lists["NameGroup"])
			delete(lists, "NameGroup")
		}
	}
	col := colPieces(rd + ".ColIdent")
	if kind == "Update" && r.cfg.slice {
		noq, noa := fAtom("len("+rd+".ColIdent.Qualifier)", "0"), fAtom("len(qs.Rel.Id.Alias)", "0")
		col = append([]piece{{fAnd(noq, noa), `"‹qs.Rel.Id.Name›".`}, {fAnd(noq, fNot(noa)), "‹qs.Rel.Id.Alias›."}}, col...)
	}
	out := append([]piece{{fTrue, "; "}}, p.coalescePieces(rd, col)...)
	compare("columns returned", "ReturningClause", loop("info.Reads", out...))
	if kind == "Select" {
		compare("columns selected", "ValueExprList", loop("info.Reads", out...))
	}
	for _, n := range sortedKeys(lists) {
		rep.Note("%s: the list %s is not checked", name, n)
	}
}

// defaultOf is the condition under which a column is set to DEFAULT, which has to be that
// the field or the Default directive says so.
func (r *genRun) defaultOf(rep *Report, lists map[string][]glist, pieces []Item) *F {
	var l []Item
	name := "DEFAULT in " + r.cfg.name
	for _, n := range []string{"values", "ValueExprList"} {
		for _, x := range lists[n] {
			l = x.val.items
		}
	}
	if l == nil {
		l = r.rowItems()
	}
	found := fFalse
	for _, it := range l {
		if it.kind == 'r' && it.src.key() == "info.Writes" {
			found = r.defaultGuard(it.items)
		}
	}
	use, dir, all := fAtom("info.Writes[*].Field.UseDefault", "true"), fNot(fAtom("qs.Default", "nil")), fAtom("qs.Default.ColIdentList.All", "true")
	one := func(what string, facts *F, want int) {
		if fSat(facts) && r.in.decide(&state{pc: with(nil, facts)}, found) != want {
			rep.Bad(name, "whether the column is set to DEFAULT if %s depends on %s", what, trunc(found.k, 300))
		} else {
			rep.Ok(name + ": " + what)
		}
	}
	one("the field says so", use, 1)
	one("the directive is for all columns", fAnd(dir, all), 1)
	one("neither the field nor a directive says so", fAnd(fNot(use), fNot(dir)), -1)
	rest := r.in.shrink(found, &state{pc: with(with(with(nil, fNot(use)), dir), fNot(all))})
	ok := false
	for x := range rest.variables() {
		ok = ok || strings.Contains(x, "qs.Default.ColIdentList.Items") && strings.Contains(x, "info.Writes[*].Field.ColIdent.Name==")
	}
	if ok {
		rep.Ok(name + ": the directive names the column")
	} else if rest.op == 'T' || rest.op == 'F' {
		rep.Bad(name, "whether the column is set to DEFAULT does not depend on the names in the directive")
	} else {
		rep.Note("%s: when a directive names the column is not decided: %s", name, trunc(rest.k, 200))
	}
	return found
}

// rowItems are the expressions of which the code for a row of values consists.
func (r *genRun) rowItems() (out []Item) {
	for _, e := range project(r.file, fTrue, func(v Val) (string, bool) {
		return "row", isNode(v, "golang.MultiLineExpr") != nil
	}) {
		if e.kind != 'e' {
			continue
		}
		if l, ok := stripConv(field(isNode(e.v, "golang.MultiLineExpr"), "Exprs")).(*VList); ok {
			out = append(out, guardItems(e.g, l.items)...)
		}
	}
	return out
}

// concatPieces is the text that a Go expression concatenates; «ordinal» is the text of a
// parameter.
func (r *genRun) concatPieces(v Val, facts []*F) (out []Item, und string) {
	v = stripConv(v)
	switch x := v.(type) {
	case *VCond:
		a, u1 := r.concatPieces(x.a, with(facts, x.c))
		b, u2 := r.concatPieces(x.b, with(facts, fNot(x.c)))
		return append(guardItems(x.c, a), guardItems(fNot(x.c), b)...), u1 + u2
	case *VStruct:
		switch typeName(x.typ) {
		case "golang.BinaryExpr":
			a, u1 := r.concatPieces(field(x, "X"), facts)
			b, u2 := r.concatPieces(field(x, "Y"), facts)
			return append(a, b...), u1 + u2
		case "golang.IndexExpr":
			if q := isNode(field(x, "X"), "golang.QualifiedIdent"); q != nil {
				if s, ok := constStr(field(q, "Name")); ok && s == "OrdinalParameters" {
					return []Item{{guard: fTrue, kind: 'e', val: mkStr("«ordinal»")}}, ""
				}
			}
		}
		return nil, "a part of a row is not understood"
	case *VExpr:
		switch x.op {
		case "+":
			for _, a := range x.args {
				t, u := r.concatPieces(a, facts)
				if u != "" {
					return nil, u
				}
				out = append(out, t...)
			}
			return out, ""
		case "text":
			return r.render(x.args[0], facts)
		}
	}
	return []Item{{guard: fTrue, kind: 'e', val: v}}, ""
}

// checkRow checks the text that is added to the query for every element of a slice.
func (p *Prog) checkRow(rep *Report, r *genRun, form int, dflt *F, columns []glist) {
	name := r.cfg.name
	row := r.rowItems()
	w := "info.Writes[*]"
	update := r.cfg.kind == "QueryKindUpdate"
	var want []piece
	param, needs := p.nullifPieces(w, "«ordinal»", form)
	if update {
		// the type of a parameter is not that of the column
		param = append(param, piece{fNot(needs), "::‹" + w + ".Column.Type.NameFmt›"})
	}
	want = append(want, piece{fTrue, "[for info.Writes:"})
	sep := piece{fTrue, "; "}
	if !update {
		want = append(want, sep, piece{dflt, "DEFAULT"})
		want = append(want, under(fNot(dflt), param)...)
	} else {
		want = append(want, under(fNot(dflt), append([]piece{sep}, param...))...)
	}
	want = append(want, piece{fTrue, "]"})
	if update {
		keys := fFalse
		for _, l := range columns {
			for _, it := range l.val.items {
				if it.kind == 'r' && it.src.key() == "info.PKeys" {
					for _, k := range it.items {
						keys = fOr(keys, fAnd(it.guard, k.guard))
					}
				}
			}
		}
		names := append([]piece{{fTrue, "[for info.Writes:"}, {fNot(dflt), `; "‹` + w + `.Column.Name›"`}, {fTrue, "]"}},
			piece{fTrue, "[for info.PKeys:"}, piece{keys, `; "‹info.PKeys[*].Column.Name›"`}, piece{fTrue, "]"})
		for _, l := range columns {
			got, und := r.linear(l.val.items, nil, r.sqlElem)
			if und != "" {
				rep.Note("%s: names of the values: %s", name, und)
				continue
			}
			r.sameTexts(rep, "names of the values of "+name, got, pieceItems(names), nil)
		}
		want = append(want, piece{fTrue, "[for info.PKeys:"}, piece{keys, "; «ordinal»"}, piece{fTrue, "]"})
	}
	want = append(want, piece{fTrue, "),"})
	for _, first := range []bool{false, true} {
		var facts []*F
		begin := ","
		what := "row of values of " + name
		for _, x := range idxVars(row) {
			if f := fAtom(x, "0"); first {
				facts = append(facts, f)
			} else {
				facts = append(facts, fNot(f))
			}
		}
		if first {
			begin = "("
			what = "first value of a row of " + name
		}
		got, und := r.linear(row, facts, func(v Val, facts []*F) ([]Item, string) {
			return r.concatPieces(v, facts)
		})
		if und != "" {
			rep.Note("%s: rows: %s", name, und)
			continue
		}
		text := make([]piece, len(want))
		for i, x := range want {
			text[i] = piece{x.g, strings.ReplaceAll(x.s, ";", begin)}
		}
		r.sameTexts(rep, what, got, pieceItems(text), facts)
	}
}

func (r *genRun) dumpLists() {
	got, und := r.stmtPieces()
	fmt.Println(und)
	for _, l := range r.stmtLists(got) {
		fmt.Println("LIST", l.name, trunc(l.guard.k, 100))
		b, und := r.linear(l.val.items, nil, r.sqlElem)
		fmt.Println(und, trunc(itemsKey(b), 2000))
	}
}

// clausesOf are the clauses among the pieces, by their names.
func (r *genRun) clausesOf(items []Item) (out []glistVal) {
	seen := map[string]bool{}
	var look func(items []Item, g *F)
	look = func(items []Item, g *F) {
		for _, it := range items {
			gg := fAnd(g, it.guard)
			if it.kind == 'r' {
				look(it.items, gg)
				continue
			}
			if x, ok := it.val.(*VExpr); ok && x.op == "clause" {
				n, _ := constStr(x.args[0])
				if !seen[x.args[1].key()] {
					seen[x.args[1].key()] = true
					out = append(out, glistVal{n, gg, x.args[1]})
				}
			}
		}
	}
	look(items, fTrue)
	return out
}

type glistVal struct {
	name  string
	guard *F
	val   Val
}

// checkClauses checks what is written for the order, the limit and the offset, and for each
// relation that is joined.
func (p *Prog) checkClauses(rep *Report, r *genRun) {
	r.outline = true
	defer func() { r.outline = false }()
	pieces, und := r.stmtPieces()
	if und != "" {
		rep.Note("%s: %s", r.cfg.name, und)
		return
	}
	name := r.cfg.name
	enum := func(path, c string) *F {
		return fAtom(path, p.constOf("internal/analysis", c).(VConst).v.ExactString())
	}
	for _, c := range r.clausesOf(pieces) {
		what := strings.ToUpper(c.name) + " of " + name
		facts := with(nil, c.guard)
		r.inClause++
		items, und := r.render(c.val, facts)
		r.inClause--
		if und != "" {
			rep.Note("%s: %s", what, und)
			continue
		}
		switch c.name {
		case "limit", "offset":
			f := "qs." + strings.ToUpper(c.name[:1]) + c.name[1:]
			none, field := fAtom(f, "nil"), fNot(fAtom("len("+f+".Name)", "0"))
			ps := []piece{{fTrue, " " + strings.ToUpper(c.name) + " "}}
			if c.name == "limit" {
				ps = append(ps, piece{none, "1"})
			}
			ps = append(ps, piece{fAnd(fNot(none), field), "$‹param " + f + "›"}, piece{fAnd(fNot(none), fNot(field)), "‹" + f + ".Value›"})
			r.sameTexts(rep, what, items, pieceItems(ps), facts)
		case "order":
			o := "qs.OrderBy.Items[*]"
			item := colPieces(o + ".ColIdent")
			desc, first := enum(o+".Direction", "OrderDesc"), enum(o+".Nulls", "NullsFirst")
			item = append(item, piece{desc, " DESC"}, piece{fNot(desc), " ASC"}, piece{first, " NULLS FIRST"}, piece{fNot(first), " NULLS LAST"})
			for _, isFirst := range []bool{true, false} {
				fs := facts
				ps := []piece{{fTrue, " ORDER BY [for qs.OrderBy.Items:"}}
				for _, x := range idxVars(items) {
					f := fAtom(x, "0")
					if !isFirst {
						f = fNot(f)
					}
					fs = with(fs, f)
				}
				if !isFirst {
					ps = append(ps, piece{fTrue, ", "})
				}
				ps = append(append(ps, item...), piece{fTrue, "]"})
				got, und := r.linear(items, fs, r.written)
				if und != "" {
					rep.Note("%s: %s", what, und)
					continue
				}
				r.sameTexts(rep, what, got, pieceItems(ps), fs)
			}
		}
	}
	joins := map[string]bool{}
	var look func(items []Item, g *F)
	look = func(items []Item, g *F) {
		for _, it := range items {
			if it.kind != 'r' {
				continue
			}
			if it.src.key() != "qs.Join.Directives" {
				look(it.items, fAnd(g, it.guard))
				continue
			}
			if joins[itemsKey(it.items)] {
				continue
			}
			joins[itemsKey(it.items)] = true
			d := "qs.Join.Directives[*]"
			typ := d + ".JoinType"
			var ps []piece
			var any []*F
			for _, j := range [][2]string{{"JoinTypeLeft", "LEFT"}, {"JoinTypeRight", "RIGHT"}, {"JoinTypeFull", "FULL"}, {"JoinTypeCross", "CROSS"}, {"JoinTypeInner", "INNER"}} {
				any = append(any, enum(typ, j[0]))
				ps = append(ps, piece{enum(typ, j[0]), " " + j[1] + " JOIN"})
			}
			ps = append(ps, piece{fTrue, " «" + d + ".RelIdent»"}, piece{fNot(enum(typ, "JoinTypeCross")), " ON «cond»"})
			fs := with(with(nil, g), fAnd(it.guard, fOr(any...)))
			r.sameTexts(rep, "joins of "+name, it.items, pieceItems(ps), fs)
			for _, k := range it.items {
				x, ok := k.val.(*VExpr)
				if !ok || x.op != "cond" {
					continue
				}
				key := x.args[0].key()
				n := strings.Count(key, "info.Joins[")
				if n == 0 || strings.Count(key, "info.Joins[idx(") == n {
					rep.Ok("joins of " + name + ": the conditions are those of the relation")
				} else {
					rep.Bad("joins of "+name, "the conditions of a join are not those at the position of its directive")
				}
			}
		}
	}
	look(pieces, fTrue)
}

// idxVars are the positions in loops on which a value depends.
func idxVars(items []Item) (out []string) {
	seen := map[string]bool{}
	add := func(f *F) {
		for x := range f.variables() {
			if strings.HasPrefix(x, "idx(") && !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	var look func(items []Item)
	look = func(items []Item) {
		for _, it := range items {
			add(it.guard)
			walkVal(it.val, fTrue, func(v Val, g *F) bool {
				if c, ok := v.(*VCond); ok {
					add(c.c)
				}
				return true
			})
			look(it.items)
		}
	}
	look(items)
	sort.Strings(out)
	return out
}
