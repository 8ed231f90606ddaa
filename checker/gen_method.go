package main

import (
	"regexp"
	"strings"
)

// flatText writes loops between brackets.
func flatText(items []Item, g *F) (out []Item) {
	for _, it := range items {
		if it.kind != 'r' {
			out = append(out, Item{guard: fAnd(g, it.guard), kind: it.kind, val: it.val, src: it.src, elem: it.elem, items: it.items})
			continue
		}
		h := fAnd(g, it.guard, fNot(fAtom("len("+it.src.key()+")", "0")))
		out = append(out, Item{guard: h, kind: 'e', val: mkStr(" [for " + it.src.key() + ": ")})
		out = append(out, flatText(it.items, h)...)
		out = append(out, Item{guard: h, kind: 'e', val: mkStr(" ] ")})
	}
	return out
}

var callText = regexp.MustCompile(`(^|\s)c\.(Exec|Query|$)`)

// mergeText joins the pieces of constant text that are written together.
func mergeText(items []Item) (out []Item) {
	for _, it := range items {
		if n := len(out); n > 0 && it.kind == 'e' && out[n-1].kind == 'e' && out[n-1].guard.k == it.guard.k {
			a, ok1 := constStr(out[n-1].val)
			b, ok2 := constStr(it.val)
			if ok1 && ok2 {
				out[n-1].val = mkStr(a + b)
				continue
			}
		}
		out = append(out, it)
	}
	return out
}

// method is the text of the generated method: the part before the code that puts the
// query together, and the part that begins with the call of the query.
func (r *genRun) method() (head, mid, tail []Item, und string) {
	r.outline, r.goText, r.argsMark = true, true, true
	defer func() { r.outline, r.goText, r.argsMark = false, false, false }()
	items, und := r.render(r.file, nil)
	if und != "" {
		return nil, nil, nil, und
	}
	items = mergeText(flatText(items, fTrue))
	const end = ") ; error {"
	i := 0
	for ; ; i++ {
		if i == len(items) {
			return nil, nil, nil, "the generated file has no method that returns an error"
		}
		s, ok := constStr(items[i].val)
		if items[i].kind == 'e' && ok && strings.Contains(s, end) {
			n := strings.Index(s, end) + len(end)
			h := items[i]
			h.val = mkStr(s[:n])
			head = append(append(head, items[:i]...), h)
			h.val = mkStr(s[n:])
			mid = append(mid, h)
			break
		}
	}
	i++
	began, from, cut := fFalse, i, false
	for ; i < len(items); i++ {
		it := items[i]
		if it.kind == 'e' && callText.MatchString(textOf(it.val)) {
			began = fOr(began, it.guard)
			// what the call is assigned to
			at := len(tail)
			for j := i; j > from && items[j-1].kind == 'e'; j-- {
				_, ok := items[j-1].val.(*VCond)
				if x := strings.TrimSpace(textOf(items[j-1].val)); !ok && x != ";" {
					break
				}
				at--
				if n := len(mid); n > 0 && j-1 >= from && !cut {
					mid = mid[:n-1]
				}
			}
			cut = true
			for ; at >= 0 && at < len(tail); at++ {
				tail[at].guard = items[i-len(tail)+at].guard
			}
		}
		if began == fFalse || !fSat(fAnd(it.guard, began, r.someFacts(began))) {
			mid = append(mid, it)
		}
		it.guard = fAnd(it.guard, began)
		tail = append(tail, it)
	}
	if began != fFalse {
		return head, mid, tail, ""
	}
	return nil, nil, nil, "the generated method calls no query"
}

// someFacts tells that a list with an element of some kind is not empty.
func (r *genRun) someFacts(f *F) *F {
	var all []*F
	for v := range f.variables() {
		if a := r.in.somes[v]; a != nil {
			all = append(all, fNot(fAnd(fBool(v), fAtom("len("+a.src+")", "0"))))
		}
	}
	return fAnd(all...)
}

type pieces struct {
	p    *Prog
	r    *genRun
	list []piece
	got  []Item

	isNew *F
}

func (b *pieces) add(s string, gs ...*F) {
	b.list = append(b.list, piece{fAnd(append([]*F{fTrue}, gs...)...), s})
}

// err adds what is returned for the error: it is passed to the error handler if there is
// one.
func (b *pieces) err(e string, gs ...*F) {
	g := fAnd(append([]*F{fTrue}, gs...)...)
	eh := fNot(fAtom("qs.ErrorHandler", "nil"))
	info := fAtom("qs.ErrorHandler.IsInfo", "true")
	kind := strings.TrimPrefix(b.r.cfg.kind, "QueryKind")
	if strings.HasPrefix(kind, "Select") {
		kind = "Select"
	}
	handle := `q.‹qs.ErrorHandler.Name›.HandleErrorInfo(; &‹import("github.com/frk/gosql").name›.ErrorInfo{Error: err, QueryString: queryString, QueryKind: "` + kind + `", QueryName: "‹qs.TypeName›", QueryValue: q})`
	b.add("return "+e, g, fNot(eh))
	b.add("return q.‹qs.ErrorHandler.Name›.HandleError(; "+e+")", g, eh, fNot(info))
	if e == "err" {
		b.add("return "+handle, g, eh, info)
	} else {
		b.add("if err := "+e+"; err != nil {return "+handle+"} return nil", g, eh, info)
	}
}

// iferr adds that the method returns if there is an error.
func (b *pieces) iferr(g *F) {
	b.add("if err != nil {", g)
	b.err("err", g)
	b.add("}", g)
}

// expectHead is the beginning of the method.
func (b *pieces) expectHead() {
	b.add("// DO NOT EDIT. This file was generated by \"github.com/frk/gosql\". package ‹arg1› func (q *‹qs.TypeName›) ‹cfg.MethodName.Value›(")
	b.add("; ctx ‹import(\"context\").name›.Context", fAtom("cfg.MethodWithContext.Value", "true"))
	b.add("; c ")
	b.add("*", fAtom("cfg.MethodArgumentType.IsPtr", "true"))
	b.add("‹import(cfg.MethodArgumentType.PkgPath).name›.‹cfg.MethodArgumentType.Name›) ; error {")
}

// expectMid is the part of the method that puts the query together, if it has no lists of
// values.
func (b *pieces) expectMid() {
	r := b.r
	decl := "const"
	if r.cfg.qual == "filter" {
		decl = "var"
	}
	b.add(decl + " queryString = «sql»// ` ")
	if r.cfg.qual == "filter" {
		kind := strings.TrimPrefix(r.cfg.kind, "QueryKind")
		rest := fNot(fAtom("len(info.Reads)", "0"))
		if strings.HasPrefix(kind, "Select") {
			order := fAnd(fNot(fAtom("qs.OrderBy", "nil")), fNot(fAtom("len(qs.OrderBy.Items)", "0")))
			rest = fOr(order, r.limitGuard("Limit"), r.limitGuard("Offset"))
			if kind == "Select" {
				rest = fOr(rest, fAnd(fAtom("qs.Limit", "nil"), fNot(fAtom("qs.Rel.Type.IsArray", "true")), fNot(fAtom("qs.Rel.Type.IsIter", "true"))))
			}
		}
		closed := fFalse
		if strings.Contains(kind, "Exists") {
			closed = fTrue
		}
		b.add("; filterString; params := q.‹qs.Filter.Name›.ToSQL(«n») queryString += filterString")
		b.add(" + `)`", closed, fNot(rest))
		b.add(" queryString += «sql»", rest)
		b.add(" queryString += `)`", rest, closed)
	}
	b.expectFallback()
}

// expectFallback gives the fields of a limit and an offset their values.
func (b *pieces) expectFallback() {
	if !strings.HasPrefix(b.r.cfg.kind, "QueryKindSelect") {
		return
	}
	for _, n := range []string{"Limit", "Offset"} {
		x := "qs." + n
		b.add(" if q.‹"+x+".Name› == 0 {q.‹"+x+".Name› = ‹"+x+".Value›} ", fNot(fAtom(x, "nil")), fNot(fAtom(x+".Value", "0")), fNot(fAtom("len("+x+".Name)", "0")))
	}
}

// expectTail is the part of the method that begins with the call of the query.
// fallbacks are the statements of a method that depend on the value of a field.
func fallbacks(items []Item) (out []Item) {
	const begin, end = "if q.", "}"
	for i := 0; i < len(items); i++ {
		s, ok := constStr(items[i].val)
		if !ok || !strings.HasSuffix(s, begin) {
			continue
		}
		it := items[i]
		it.val = mkStr(" " + begin)
		for {
			out = append(out, it)
			if i++; i == len(items) {
				break
			}
			it = items[i]
			s, ok := constStr(it.val)
			if n := strings.Index(s, end); ok && n >= 0 {
				it.val = mkStr(s[:n] + "} ")
				out = append(out, it)
				i--
				break
			}
		}
	}
	return out
}

func (b *pieces) expectTail() {
	r := b.r
	kind := strings.TrimPrefix(r.cfg.kind, "QueryKind")
	sel := strings.HasPrefix(kind, "Select")
	scalar := sel && kind != "Select"
	result, ret, rows := fNot(fAtom("qs.Result", "nil")), fNot(fAtom("qs.Return", "nil")), fNot(fAtom("qs.RowsAffected", "nil"))
	is := func(path, f string) *F { return fAtom(path+".Type."+f, "true") }
	relSlice := fFalse
	if r.cfg.slice {
		relSlice = fTrue
	}
	either := func(f string, rel *F) *F {
		return fOr(fAnd(result, is("qs.Result", f)), fAnd(fNot(result), rel))
	}
	isSlice := either("IsSlice", relSlice)
	isIter := either("IsIter", is("qs.Rel", "IsIter"))
	if r.cfg.slice {
		isIter = either("IsIter", fFalse)
	}
	isArray := either("IsArray", is("qs.Rel", "IsArray"))
	if r.cfg.slice {
		isArray = either("IsArray", fFalse)
	}
	isPtr := either("IsPointer", is("qs.Rel", "IsPointer"))
	after := either("IsAfterScanner", is("qs.Rel", "IsAfterScanner"))
	imported := fOr(fAnd(result, fAtom("qs.Result.Type.Base.IsImported", "true")), fAnd(fNot(result), fAtom("qs.Rel.Type.Base.IsImported", "true")))
	single := fAnd(fNot(isSlice), fNot(isIter), fNot(isArray))
	out := fTrue
	if !sel {
		out = fOr(result, ret)
	}
	one, many := fAnd(out, single), fAnd(out, fNot(single))
	ctx := fAtom("cfg.MethodWithContext.Value", "true")
	field := fAnd(fNot(ctx), fNot(fAtom("qs.Context", "nil")))
	either2 := fOr(ctx, field)
	none := fNot(out)

	call := func(g *F, name string) {
		b.add(name, g)
		b.add("Context", g, either2)
		b.add("(", g)
		b.add("; ctx", g, ctx)
		b.add("; q.‹qs.Context.Name›", g, field)
		b.add("; queryString «args»)", g)
	}
	outName := func(g *F) {
		b.add("q.‹qs.Result.FieldName›", g, result)
		b.add("q.‹qs.Rel.FieldName›", g, fNot(result))
	}
	outType := func(g *F) {
		for _, x := range []struct {
			g *F
			n string
		}{{result, "qs.Result"}, {fNot(result), "qs.Rel"}} {
			b.add("‹import("+x.n+".Type.Base.PkgPath).name›.", g, x.g, imported)
			b.add("‹"+x.n+".Type.Base.Name›", g, x.g)
		}
	}
	// the rows that were written are read into the elements that were given
	own := fFalse
	if kind == "Insert" || kind == "Update" {
		own = fNot(result)
	}
	elem := func(g *F) {
		one := fAnd(g, single)
		outName(one)
		if r.cfg.slice && own != fFalse {
			outName(fAnd(g, fNot(single), own))
			b.add("[i]", g, fNot(single), own)
			b.add("v", g, fNot(single), fNot(own))
		} else {
			b.add("v", g, fNot(single))
		}
	}
	inits := func(g *F) {
		g = fAnd(g, fNot(own))
		h := fAnd(g, single, isPtr)
		outName(h)
		b.add(" = new(", h)
		outType(h)
		b.add(")", h)
		h = fAnd(g, fNot(single), isPtr)
		b.add("v := new(", h)
		outType(h)
		b.add(")", h)
		h = fAnd(g, fNot(single), fNot(isPtr))
		b.add("var v ", h)
		outType(h)
		sel, node := "info.Reads[*].Field.Selector", "info.Reads[*].Field.Selector[*]"
		some := fAnd(g, fNot(fAtom("len(info.Reads)", "0")))
		nodes := fAnd(some, fNot(fAtom("len("+sel+")", "0")))
		b.add("[for info.Reads: ", some)
		b.add("[for "+sel+": ", nodes)
		ptr := fAnd(nodes, fAtom(node+".IsPointer", "true"), b.isNew)
		elem(ptr)
		b.add(" [for "+sel+": .<"+node+".Name>].‹"+node+".Name› = new(", ptr)
		b.add("‹import("+node+".TypePkgPath).name›.", ptr, fAtom(node+".IsImported", "true"))
		b.add("‹"+node+".TypeName›)", ptr)
		b.add("]", nodes)
		b.add("]", some)
	}
	dests := func(g *F) {
		if scalar {
			b.add("; &", g)
			outName(g)
			return
		}
		conv := fAnd(g, fNot(fAtom("len(info.Reads[*].Scanner)", "0")))
		some := fAnd(g, fNot(fAtom("len(info.Reads)", "0")))
		b.add("[for info.Reads: ; ", some)
		b.add(`‹import("github.com/frk/gosql/pgsql").name›.‹info.Reads[*].Scanner›(; `, conv, some)
		b.add("&", some)
		elem(some)
		b.add("[for info.Reads[*].Field.Selector: .<info.Reads[*].Field.Selector[*].Name>].‹info.Reads[*].Field.Name›", some)
		b.add(")", conv, some)
		b.add("]", some)
	}

	// the query is executed without results
	b.add("; res", none, rows)
	b.add("; _", none, fNot(rows))
	call(fAnd(none, fTrue), "; err := c.Exec")
	h := fAnd(none, rows)
	b.iferr(h)
	b.add("; i64; err := res.RowsAffected() ", h)
	b.iferr(h)
	b.add("q.‹qs.RowsAffected.Name› = ", h)
	for _, k := range rowsKinds {
		is := fFalse
		if b.p.constOf("internal/analysis", "TypeKind"+k).key() == r.cfg.over["qs.RowsAffected.TypeKind"].key() {
			is = fTrue
		}
		if k == "Int64" {
			b.add("i64", h, is)
		} else {
			b.add(strings.ToLower(k)+"(; i64)", h, is)
		}
	}
	b.add(" return nil ", h)
	b.err("err", none, fNot(rows))

	// one row
	call(one, "row := c.QueryRow")
	inits(one)
	simple := fAnd(one, fNot(after), fOr(fAtom("qs.ErrorHandler", "nil"), fNot(fAtom("qs.ErrorHandler.IsInfo", "true"))))
	eh := fNot(fAtom("qs.ErrorHandler", "nil"))
	b.add("return ", simple)
	b.add("q.‹qs.ErrorHandler.Name›.HandleError(; ", simple, eh)
	b.add("row.Scan(", simple)
	dests(simple)
	b.add(")", simple)
	b.add(")", simple, eh)
	full := fAnd(one, fNot(simple))
	b.add("err := row.Scan(", full)
	dests(full)
	b.add(")", full)
	b.iferr(full)
	elem(fAnd(full, after))
	b.add(".AfterScan()", full, after)
	b.add("return nil", full)

	// any number of rows
	b.add("; rows", many)
	call(many, "; err := c.Query")
	b.iferr(many)
	b.add("defer rows.Close() ", many)
	toInput := fFalse
	if r.cfg.slice {
		toInput = own
	}
	b.add("i := 0 ", many, toInput)
	b.add("for rows.Next() {", many)
	inits(many)
	b.add("err := rows.Scan(", many)
	dests(many)
	b.add(")", many)
	b.iferr(many)
	elem(fAnd(many, after))
	b.add(".AfterScan()", many, after)
	h = fAnd(many, isIter)
	b.add("if err := ", h)
	outName(h)
	for _, x := range []struct {
		g *F
		n string
	}{{result, "qs.Result"}, {fNot(result), "qs.Rel"}} {
		b.add(".‹"+x.n+".Type.IterMethod›", h, x.g, fNot(fAtom("len("+x.n+".Type.IterMethod)", "0")))
	}
	b.add("(; v); err != nil {", h)
	b.err("err", h)
	b.add("}", h)
	b.add("i += 1 ", many, fNot(isIter), toInput)
	h = fAnd(many, fNot(isIter), fNot(toInput))
	outName(h)
	b.add(" = append(; ", h)
	outName(h)
	b.add("; v)", h)
	b.add("}", many)
	b.err("rows.Err()", many)
	b.add("}")
}

var rowsKinds = []string{"Int", "Int8", "Int16", "Int32", "Int64", "Uint", "Uint8", "Uint16", "Uint32", "Uint64"}

var accName = regexp.MustCompile(`acc:([^,()]+)`)

// fresh holds if the struct has not been allocated for an earlier column: what the code
// remembers is looked up by the path to the struct, which begins anew for every column.
func (b *pieces) fresh(rep *Report) *F {
	for _, it := range b.got {
		if it.kind != 'e' || !strings.Contains(textOf(it.val), "= new(") {
			continue
		}
		for v := range it.guard.variables() {
			i := strings.Index(v, ",")
			if !strings.HasPrefix(v, "index(acc:") || i < 0 || !strings.Contains(v[i:], "Field.Selector[*].Name") || strings.Contains(v[i:], "call:") || strings.Contains(v[i:], "fold(") {
				continue
			}
			b.r.sure = []*F{fAtom(v, "true")}
			ids := accName.FindAllStringSubmatch(v[i:], -1)
			good := len(ids) > 0
			for _, m := range ids {
				for _, x := range b.r.in.accs["acc:"+m[1]] {
					if _, ok := x.init.(VConst); !ok {
						good = false
					}
				}
			}
			// it is remembered for all columns
			kept := false
			for _, x := range b.r.in.accs["acc:"+accName.FindStringSubmatch(v)[1]] {
				if m, ok := x.init.(*VMap); ok && m.base != nil {
					kept = true
				}
			}
			good = good && kept
			if good {
				rep.Ok("path to allocated structs of " + b.r.cfg.name)
			} else {
				rep.Bad("path to allocated structs of "+b.r.cfg.name, "whether a struct has been allocated is not looked up by the whole path to it: %s", v)
			}
			return fNot(b.r.sure[0])
		}
	}
	return fTrue
}

// queryFacts is what the analysis and the type checker make sure of.
func (r *genRun) queryFacts() []*F {
	// at most one of these is there, which the analysis makes sure of
	set := func(n string) *F { return fNot(fAtom("qs."+n, "nil")) }
	var facts []*F
	for _, x := range [][2]string{{"Result", "Return"}, {"Result", "RowsAffected"}, {"Return", "RowsAffected"}} {
		facts = append(facts, fNot(fAnd(set(x[0]), set(x[1]))))
	}
	kind := strings.TrimPrefix(r.cfg.kind, "QueryKind")
	if strings.HasPrefix(kind, "Select") {
		for _, n := range []string{"Result", "Return", "RowsAffected"} {
			facts = append(facts, fNot(set(n)))
		}
	}
	// the field of such a query is a number or a truth value
	if kind != "Select" && strings.HasPrefix(kind, "Select") {
		for _, n := range []string{"IsArray", "IsIter", "IsPointer", "IsAfterScanner"} {
			facts = append(facts, fNot(fAtom("qs.Rel.Type."+n, "true")))
		}
		facts = append(facts, fAtom("len(info.Reads)", "0"))
	}
	// there are columns to be read if there is something to read them into
	if kind == "Select" {
		facts = append(facts, fNot(fAtom("len(info.Reads)", "0")))
	} else if !strings.HasPrefix(kind, "Select") {
		facts = append(facts, fOr(fAnd(fNot(set("Result")), fNot(set("Return"))), fNot(fAtom("len(info.Reads)", "0"))),
			fOr(set("Result"), set("Return"), fAtom("len(info.Reads)", "0")))
	}
	// arrays are not supported: what is generated for them does not compile
	for _, n := range []string{"Result", "Rel"} {
		facts = append(facts, fNot(fAtom("qs."+n+".Type.IsArray", "true")))
	}
	return facts
}

func (p *Prog) checkMethod(rep *Report, r *genRun) {
	head, mid, tail, und := r.method()
	if und != "" {
		rep.Note("%s: %s", r.cfg.name, und)
		return
	}
	b := &pieces{p: p, r: r}
	b.expectHead()
	r.sameTexts(rep, "beginning of the method of "+r.cfg.name, head, pieceItems(b.list), nil)
	if !r.cfg.slice && r.cfg.qual != "where" {
		for i, it := range mid {
			if strings.Contains(textOf(it.val), "params = append(") {
				mid = mid[:i]
				break
			}
		}
		b = &pieces{p: p, r: r}
		b.expectMid()
		r.sameTexts(rep, "query string of the method of "+r.cfg.name, mid, pieceItems(b.list), nil)
	} else {
		b = &pieces{p: p, r: r}
		b.expectFallback()
		got := fallbacks(mid)
		var some []*F
		for _, it := range got {
			some = append(some, r.someFacts(it.guard))
		}
		r.sameTexts(rep, "limit and offset of the method of "+r.cfg.name, got, pieceItems(b.list), some)
	}
	facts := r.queryFacts()
	b = &pieces{p: p, r: r, got: tail}
	b.isNew = b.fresh(rep)
	b.expectTail()
	r.sameTexts(rep, "method of "+r.cfg.name, tail, pieceItems(b.list), facts)
}

func init() {
	register("G06", "static", genExpl, func(p *Prog, rep *Report) {
		cfgs := p.genConfigs()
		for _, c := range cfgs {
			delete(c.over, "cfg.MethodWithContext.Value")
			delete(c.over, "qs.Context")
			c.over["qs.RowsAffected.TypeKind"] = p.constOf("internal/analysis", "TypeKindInt")
			if c.kind == "QueryKindDelete" && c.qual == "all" && !c.join {
				for _, k := range rowsKinds {
					d := c
					d.name += "/" + strings.ToLower(k)
					d.over = map[string]Val{}
					for n, v := range c.over {
						d.over[n] = v
					}
					d.over["qs.RowsAffected.TypeKind"] = p.constOf("internal/analysis", "TypeKind"+k)
					cfgs = append(cfgs, d)
				}
			}
		}
		rep.Rule("method", "The generated method returns every error, closes the rows and stores the results where they belong.")
		p.forConfigs(rep, cfgs, p.checkMethod)
	})
}
