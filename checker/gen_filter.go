package main

import (
	"go/types"
	"regexp"
	"sort"
	"strings"
)

// filterConfig is the generation of the methods of a filter.
func (p *Prog) filterConfig(v2 bool) genConfig {
	fs := p.typeOfName("internal/analysis", "FilterStruct")
	c := genConfig{name: "Filter", kind: "Filter", over: map[string]Val{
		"info.Struct":               VSym{"fs", types.NewPointer(fs)},
		"fs.FilterConstructor.IsV2": boolVal(v2),
	}}
	c.ax = append(c.ax, fNot(fAtom("fs.FilterConstructor", "nil")))
	if v2 {
		c.name += "/v2"
	}
	return c
}

// substText replaces parts of the values that texts are made of.
func substText(v Val, fn func(v Val) Val) Val {
	if w := fn(v); w != nil {
		return w
	}
	x, ok := v.(*VExpr)
	if !ok || x.op != "+" && !strings.HasPrefix(x.op, "conv") {
		return v
	}
	args := make([]Val, len(x.args))
	for i, a := range x.args {
		args[i] = substText(a, fn)
	}
	y := *x
	y.args = args
	return &y
}

const filterElem = "info.Filters[*]"

// joinedNames reports whether v is the names of the fields that lead to a field, one after
// the other.
func joinedNames(v Val) bool {
	x, ok := v.(*VExpr)
	if !ok || x.op != "fold" || len(x.args) != 3 || x.args[0].key() != filterElem+".Field.Selector" {
		return false
	}
	if s, ok := constStr(x.args[1]); !ok || s != "" {
		return false
	}
	y, ok := x.args[2].(*VExpr)
	return ok && y.op == "+" && len(y.args) == 2 && strings.HasPrefix(y.args[0].key(), "acc:") && y.args[1].key() == filterElem+".Field.Selector[*].Name"
}

func (b *pieces) colIdent(path string, g *F) {
	q := fAtom("cfg.QuoteIdentifiers.Value", "true")
	bare := fAtom("len("+path+".Qualifier)", "0")
	id := "‹" + path + ".Name›"
	b.add("`‹"+path+".Qualifier›.\""+id+"\"`", g, q, fNot(bare))
	b.add("`\""+id+"\"`", g, q, bare)
	b.add("`‹"+path+".Qualifier›."+id+"`", g, fNot(q), fNot(bare))
	b.add("`"+id+"`", g, fNot(q), bare)
}

// onceVar is the variable in g that tells that a key has been seen before.
func (b *pieces) onceVar(rep *Report, g *F, key string) *F {
	for v := range g.variables() {
		if !strings.Contains(v, "index(acc:") {
			continue
		}
		m := accName.FindStringSubmatch(v)
		i := strings.Index(v, m[0]) + len(m[0])
		good := strings.Trim(v[i:], ",)") == key
		kept := false
		for _, x := range b.r.in.accs["acc:"+m[1]] {
			if x.src != "info.Filters" || x.step == nil {
				continue
			}
			// what is written is remembered by its key
			kept = true
			set := fFalse
			var look func(v Val, g *F)
			look = func(v Val, g *F) {
				switch x := v.(type) {
				case *VCond:
					look(x.a, fAnd(g, x.c))
					look(x.b, fAnd(g, fNot(x.c)))
				case *VMap:
					for _, e := range x.ents {
						if e.key.key() != key {
							kept = false
						}
						set = fOr(set, fAnd(g, e.guard))
					}
				default:
					kept = false
				}
			}
			look(x.step, fTrue)
			facts := []*F{fNot(fAtom("len(info.Filters)", "0"))}
			kept = kept && b.r.in.implies(facts, g, set)
		}
		if good && kept {
			rep.Ok("keys of " + b.r.cfg.name)
		} else {
			rep.Bad("keys of "+b.r.cfg.name, "whether a key has been written is not looked up by the key in what is remembered of all of them: %s", v)
		}
		return fNot(fAtom(v, "true"))
	}
	for v := range g.variables() {
		if opaqueVar(v) {
			rep.Note("%s: it is not decided whether a key is written once", b.r.cfg.name)
			return fTrue
		}
	}
	rep.Bad("keys of "+b.r.cfg.name, "a key that several columns have is written several times: the column map does not compile")
	return fTrue
}

var filterMethods = []string{"And", "Init", "Or"}

// reserved is the condition for a method to be written for a field: its name is not the
// one of another method.
func (b *pieces) reserved(rep *Report, g *F) *F {
	allowed := map[string]bool{}
	if t, ok := b.p.typeOfName("filter", "Constructor").(*types.Named); ok {
		ms := types.NewMethodSet(types.NewPointer(t))
		for i := 0; i < ms.Len(); i++ {
			allowed[ms.At(i).Obj().Name()] = true
		}
	}
	out := fTrue
	for v := range g.variables() {
		if !strings.HasPrefix(v, "+(fold("+filterElem+".Field.Selector,") || !strings.HasSuffix(v, ","+filterElem+".Field.Name)") {
			continue
		}
		cs := map[string]bool{}
		g.consts(v, cs)
		var names []string
		for c := range cs {
			n := strings.Trim(c, "\"")
			names = append(names, n)
			if allowed[n] {
				out = fAnd(out, fNot(fAtom(v, c)))
			}
		}
		sort.Strings(names)
		for _, n := range filterMethods {
			if cs["\""+n+"\""] || cs[n] {
				rep.Ok("method " + n + " of " + b.r.cfg.name)
			} else {
				rep.Bad("method "+n+" of "+b.r.cfg.name, "a field named %s gets a method of that name, which the filter has already", n)
			}
		}
		return out
	}
	for _, n := range filterMethods {
		rep.Bad("method "+n+" of "+b.r.cfg.name, "a field named %s gets a method of that name, which the filter has already", n)
	}
	return out
}

// converter describes the converter of a field's values.
func (b *pieces) converter(g *F) (has, imported *F, path string) {
	has, imported = fTrue, fTrue
	const key = "+(" + filterElem + ".Field.Type.PkgPath,\".\"," + filterElem + ".Field.Type.Name)"
	for v := range g.variables() {
		switch {
		case strings.HasPrefix(v, "has(index(") && strings.HasSuffix(v, ","+key+"))"):
			path = v[len("has(") : len(v)-1]
		case strings.HasPrefix(v, ".PkgPath(") && strings.HasSuffix(v, "==info.Info.PkgPath"):
			imported = fNot(fAtom(v, "true"))
		}
	}
	if path == "" {
		return fFalse, fFalse, ""
	}
	return fAnd(fAtom("has("+path+")", "true"), fNot(fAtom(path, "nil"))), imported, path
}

func (b *pieces) expectFilter(rep *Report) {
	r := b.r
	v2 := strings.HasSuffix(r.cfg.name, "v2")
	var entry, conv, method *F = fTrue, fTrue, fTrue
	for _, it := range b.got {
		s := textOf(it.val)
		switch {
		case strings.Contains(s, "ConvertValue"):
			conv = fAnd(conv, it.guard)
		case it.kind != 'e':
		case strings.Contains(s, filterElem+".Field.FilterColumnKey›"):
			entry = it.guard
		case method == fTrue && strings.Contains(it.guard.k, "+(fold("):
			method = it.guard
		}
	}
	for _, it := range b.got {
		if strings.Contains(textOf(it.val), ".PkgPath(") {
			conv = fAnd(conv, it.guard)
			break
		}
	}
	loop := fNot(fAtom("len(info.Filters)", "0"))
	f := filterElem + ".Field"
	cm := "_‹fs.TypeName›_colmap"
	typ := "string"
	if v2 {
		typ = `‹import("github.com/frk/gosql/filter").name›.Column`
	}
	b.add("var " + cm + " = map[string]" + typ + "{")
	b.add(" [for info.Filters: ", loop)
	e := fAnd(loop, fNot(fAtom("len("+f+".FilterColumnKey)", "0")), b.onceVar(rep, entry, f+".FilterColumnKey"))
	b.add(`"‹`+f+`.FilterColumnKey›": `, e)
	if v2 {
		b.add("{; Name: ", e)
	}
	b.colIdent(filterElem+".ColIdent", e)
	if v2 {
		has, imp, path := b.converter(conv)
		b.add("; ConvertValue: ", e, has)
		b.add(`‹import(.PkgPath(`+path+`)).name›.`, e, has, imp)
		b.add(`‹.Name(`+path+`)›`, e, has)
		b.add("; IsNULLable: true", e, fAtom("&("+f+".Mode,16)", "0"), fNot(fAtom(filterElem+".Column.HasNotNull", "true")))
		b.add("}", e)
	}
	b.add(", ", e)
	b.add(" ] ", loop)
	init := "Init"
	if v2 {
		init = "InitV2"
	}
	ctor := "f.‹fs.FilterConstructor.Name›."
	b.add("} func (f *‹fs.TypeName›) Init() {" + ctor + init + "(; " + cm + "; ")
	ts := fAtom("fs.TextSearch", "nil")
	b.add(`""`, ts)
	b.colIdent("fs.TextSearch.ColIdent", fNot(ts))
	b.add(")}")
	b.add(" [for info.Filters: ", loop)
	m := fAnd(loop, b.reserved(rep, method))
	b.add("func (f *‹fs.TypeName›) ‹names›‹"+f+".Name›(; op string; val ‹type›) ; *‹fs.TypeName› {"+ctor+"Col(; ", m)
	b.colIdent(filterElem+".ColIdent", m)
	b.add("; op; val) return f }", m)
	b.add(" ] ", loop)
	for _, n := range []string{"And", "Or"} {
		b.add("func (f *‹fs.TypeName›) " + n + "(; nest func(; *‹fs.TypeName›)) ; *‹fs.TypeName› { if nest == nil { " + ctor + n + "(; nil) return f } " + ctor + n + "(; func() { nest(; f) }) return f }")
	}
}

var recOf = regexp.MustCompile(`^rec\((?:args\([^,]*,)?([A-Za-z.\[\]*]+)\)?\)$`)

// checkTypeText checks the type that is written for the values of a field.
func (b *pieces) checkTypeText(rep *Report, v Val) {
	in := b.r.in
	kind := func(n string) string {
		return b.p.constOf("internal/analysis", "TypeKind"+n).(VConst).v.ExactString()
	}
	const T = filterElem + ".Field.Type"
	unnamed := fAtom("len("+T+".Name)", "0")
	ptr := fAtom(T+".Kind", kind("Ptr"))
	for _, base := range []struct {
		path string
		fact *F
	}{{T, fNot(fAnd(unnamed, ptr))}, {T + ".Elem", fAnd(unnamed, ptr)}} {
		P := base.path
		name := fAtom("len("+P+".Name)", "0")
		imp := fAtom(P+".IsImported", "true")
		rec := func(f string) string { return "‹rec " + P + "." + f + "›" }
		for _, c := range []struct {
			what, want string
			facts      []*F
		}{
			{"imported type", "‹import(" + P + ".PkgPath).name›.‹" + P + ".Name›", []*F{fNot(name), imp}},
			{"local type", "‹" + P + ".Name›", []*F{fNot(name), fNot(imp)}},
			{"pointer", "*" + rec("Elem"), []*F{name, fAtom(P+".Kind", kind("Ptr"))}},
			{"slice", "[]" + rec("Elem"), []*F{name, fAtom(P+".Kind", kind("Slice"))}},
			{"array", "[‹" + P + ".ArrayLen›]" + rec("Elem"), []*F{name, fAtom(P+".Kind", kind("Array"))}},
			{"map", "map[" + rec("Key") + "]" + rec("Elem"), []*F{name, fAtom(P+".Kind", kind("Map"))}},
			{"byte", "byte", []*F{name, fAtom(P+".Kind", kind("Uint8")), fAtom(P+".IsByte", "true")}},
			{"rune", "rune", []*F{name, fAtom(P+".Kind", kind("Int32")), fAtom(P+".IsRune", "true")}},
			{"int32", "int32", []*F{name, fAtom(P+".Kind", kind("Int32")), fNot(fAtom(P+".IsRune", "true"))}},
			{"empty interface", "interface{}", []*F{name, fAtom(P+".Kind", kind("Interface")), fAtom(P+".IsEmptyInterface", "true")}},
		} {
			facts := append([]*F{base.fact}, c.facts...)
			if !fSat(fAnd(facts...)) {
				continue
			}
			what := "type of a value of a filter: " + c.what
			if P != T {
				what += " a pointer leads to"
			}
			got := substText(in.simplify(v, facts), func(v Val) Val {
				if m := recOf.FindStringSubmatch(v.key()); m != nil {
					return VSym{"rec " + m[1], types.Typ[types.String]}
				}
				return nil
			})
			open := false
			walkText(got, func(*VCond) { open = true })
			if g := textOf(got); !open && g == c.want {
				rep.Ok(what)
			} else {
				rep.Bad(what, "%s is written as %s, not as %s", c.what, trunc(g, 300), c.want)
			}
		}
	}
}

func (p *Prog) checkFilterCode(rep *Report, r *genRun) {
	r.outline, r.goText, r.elems = true, true, true
	defer func() { r.outline, r.goText, r.elems = false, false, false }()
	items, und := r.render(r.file, nil)
	if und != "" {
		rep.Note("%s: %s", r.cfg.name, und)
		return
	}
	b := &pieces{p: p, r: r}
	val := false
	for _, it := range mergeText(flatText(items, fTrue)) {
		if it.kind == 'e' {
			if val {
				b.checkTypeText(rep, it.val)
				it.val = VSym{"type", types.Typ[types.String]}
			}
			it.val = substText(it.val, func(v Val) Val {
				if joinedNames(v) {
					return VSym{"names", types.Typ[types.String]}
				}
				return nil
			})
			s, ok := constStr(it.val)
			val = ok && strings.HasSuffix(s, "; val ")
			if i := strings.Index(s, "var "); ok && i >= 0 && len(b.got) == 0 {
				it.val = mkStr(s[i:])
				b.got = append(b.got, it)
				continue
			}
		}
		if s, ok := constStr(it.val); len(b.got) > 0 && !(it.kind == 'e' && ok && strings.TrimSpace(s) == "") {
			b.got = append(b.got, it)
		}
	}
	if len(b.got) == 0 {
		rep.Bad("column map of "+r.cfg.name, "no column map is written")
		return
	}
	// what is not interpreted, but may hold or not for some field
	for _, it := range b.got {
		for v := range it.guard.variables() {
			switch {
			case strings.HasPrefix(v, "has(index(acc:info.Filters"), strings.Contains(v, filterElem+".Field.Selector,"),
				strings.Contains(v, "+("+filterElem+".Field.Type.PkgPath,\".\","+filterElem+".Field.Type.Name)"):
				cs := map[string]bool{}
				it.guard.consts(v, cs)
				for k := range cs {
					r.sure = append(r.sure, fAtom(v, k))
				}
			}
		}
	}
	b.expectFilter(rep)
	r.sameTexts(rep, "methods of the "+r.cfg.name, b.got, pieceItems(b.list), nil)
}

func init() {
	register("G07", "static", genExpl, func(p *Prog, rep *Report) {
		rep.Rule("filters", "The code generated for a filter maps every key to its column and gives every column its method.")
		p.forConfigs(rep, []genConfig{p.filterConfig(false), p.filterConfig(true)}, p.checkFilterCode)
	})
}
