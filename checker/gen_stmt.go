package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// stmtPieces are the pieces of the text of the query in the order in which the generated
// code puts them together: the text of the SQL tree's nodes, literals and, as «filter»,
// what the filter adds. Every node begins with ‖.
func (r *genRun) stmtPieces() (out []Item, und string) {
	seq := project(r.file, fTrue, func(v Val) (string, bool) {
		if n := isNode(v, "golang.RawStringNode"); n != nil {
			return "node", true
		}
		if a := isNode(v, "golang.AssignStmt"); a != nil {
			if l, ok := stripConv(field(a, "Lhs")).(*VList); ok && l != nil {
				return "skip", true
			}
		}
		if id := isNode(v, "golang.Ident"); id != nil {
			if s, ok := constStr(field(id, "Name")); ok && s == "filterString" {
				return "filter", true
			}
		}
		if c, ok := v.(VConst); ok && typeName(c.typ) == "golang.RawStringLit" {
			return "lit", true
		}
		return "", false
	})
	add := func(g *F, v Val) { out = append(out, Item{guard: g, kind: 'e', val: v}) }
	for _, e := range seq {
		if e.kind != 'e' {
			continue
		}
		switch e.key {
		case "filter":
			add(e.g, mkStr("«filter»"))
		case "lit":
			if !r.cfg.slice || strings.HasPrefix(r.cfg.name, "Select") {
				add(e.g, e.v)
			}
		case "node":
			add(e.g, mkStr("‖"))
			n := isNode(e.v, "golang.RawStringNode")
			if _, none := field(n, "Prefix").(VNil); !none && field(n, "Prefix") != nil {
				add(e.g, field(n, "Prefix"))
			}
			items, und := r.render(field(n, "N"), with(nil, e.g))
			if und != "" {
				return nil, und
			}
			out = append(out, guardItems(e.g, items)...)
		}
	}
	return out, ""
}

type piece struct {
	g *F
	s string
}

func pieceItems(ps []piece) (out []Item) {
	for _, p := range ps {
		out = append(out, Item{guard: p.g, kind: 'e', val: mkStr(p.s)})
	}
	return out
}

// expectedStmt is what the text of the query has to be.
func (r *genRun) expectedStmt(p *Prog, got []Item) (ps []piece) {
	cfg := r.cfg
	kind := strings.TrimPrefix(cfg.kind, "QueryKind")
	add := func(s string, gs ...*F) { ps = append(ps, piece{fAnd(append([]*F{fTrue}, gs...)...), s}) }
	reads := fNot(fAtom("len(info.Reads)", "0"))
	is := func(path, konst string) *F {
		c := p.constOf("internal/analysis", konst).(VConst)
		return fAtom(path, c.v.ExactString())
	}
	add("‖")
	switch {
	case kind == "Insert":
		add("INSERT INTO «qs.Rel.Id» «NameGroup» ")
		over := fNot(fAtom("qs.Override", "nil"))
		add("OVERRIDING SYSTEM VALUE ", over, is("qs.Override.Kind", "OverridingSystem"))
		add("OVERRIDING USER VALUE ", over, is("qs.Override.Kind", "OverridingUser"))
		add("VALUES")
		conf := fNot(fAtom("info.Conflict", "nil"))
		if cfg.slice {
			add("‖ ", fOr(conf, reads))
		} else {
			add(" («ValueExprList»)")
		}
		typ := func(n string) *F { return fAtom("type(info.Conflict.Target)", "*postgres."+n) }
		add(" ON CONFLICT", conf)
		add(` ON CONSTRAINT "‹info.Conflict.Target.Name›"`, conf, typ("ConflictConstraint"))
		add(" (‹info.Conflict.Target.Expression›)", conf, typ("ConflictIndex"))
		add(" WHERE ‹info.Conflict.Target.Predicate›", conf, typ("ConflictIndex"), fNot(fAtom("len(info.Conflict.Target.Predicate)", "0")))
		upd := fNot(fAtom("len(info.Conflict.Update)", "0"))
		add(" DO NOTHING", conf, fNot(upd))
		add(" DO UPDATE SET «excluded»", conf, upd)
		add(" «ReturningClause»", reads)
	case kind == "Update" && cfg.slice:
		add("UPDATE «qs.Rel.Id» SET «targets» = «values» FROM (VALUES‖) AS x")
		// the list of the columns is there if it has columns, which is decided elsewhere
		named := fTrue
		for _, it := range got {
			if it.kind == 'e' && textOf(it.val) == "«NameGroup»" {
				named = it.guard
			}
		}
		add(" «NameGroup»", named)
		add(" WHERE «cond»")
		add(" «ReturningClause»", reads)
	case kind == "Update" || kind == "Delete":
		if kind == "Update" {
			add("UPDATE «qs.Rel.Id» SET «targets» = «values»")
		} else {
			add("DELETE FROM «qs.Rel.Id»")
		}
		if cfg.join && kind == "Update" {
			add(" FROM «qs.Join.Relation.RelIdent»‹for qs.Join.Directives›")
		} else if cfg.join {
			add(" USING «qs.Join.Relation.RelIdent»‹for qs.Join.Directives›")
		}
		switch {
		case cfg.qual == "filter":
			add(" «filter»")
			add(" ‖", reads)
		case cfg.qual == "where" || cfg.qual == "" && kind == "Update":
			add(" WHERE «cond»")
		}
		add(" «ReturningClause»", reads)
	default:
		closing := ""
		switch kind {
		case "Select":
			add("SELECT ")
			add("«ValueExprList» ", reads)
			add("FROM")
		case "SelectCount":
			add("SELECT COUNT(*) FROM")
		case "SelectExists":
			add("SELECT EXISTS(SELECT 1 FROM")
			closing = ")"
		case "SelectNotExists":
			add("SELECT NOT EXISTS(SELECT 1 FROM")
			closing = ")"
		}
		add(" «qs.Rel.Id»")
		if cfg.join {
			add("‹for qs.Join.Directives›")
		}
		if cfg.qual == "filter" {
			add(" «filter»")
		}
		if cfg.qual == "where" {
			add(" WHERE «cond»")
		}
		order := fAnd(fNot(fAtom("qs.OrderBy", "nil")), fNot(fAtom("len(qs.OrderBy.Items)", "0")))
		limit, offset := r.limitGuard("Limit"), r.limitGuard("Offset")
		if kind == "Select" || strings.Contains(kind, "Exists") && cfg.qual != "filter" {
			single := fAnd(fNot(fAtom("qs.Rel.Type.IsArray", "true")), fNot(fAtom("qs.Rel.Type.IsIter", "true")))
			if cfg.slice {
				single = fFalse
			}
			limit = fOr(limit, fAnd(fAtom("qs.Limit", "nil"), single))
		}
		if cfg.qual == "filter" {
			add(" ‖", fOr(order, limit, offset))
		}
		add(" «order»", order)
		add(" «limit»", limit)
		add(" «offset»", offset)
		add(closing)
	}
	return ps
}

func (r *genRun) limitGuard(f string) *F {
	return fAnd(fNot(fAtom("qs."+f, "nil")), fOr(fNot(fAtom("len(qs."+f+".Name)", "0")), fNot(fAtom("qs."+f+".Value", "0"))))
}

// textCmp compares the alternatives of two lists of pieces of text.
type textCmp struct {
	r       *genRun
	rep     *Report
	what    string
	facts   []*F
	seen    map[string]bool
	n, ends int
}

// tokens splits text into words, names of pieces and other characters.
func tokens(s string) (out []string) {
	word := func(c rune) bool {
		return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	rs := []rune(s)
	for i := 0; i < len(rs); {
		switch c := rs[i]; {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case word(c):
			j := i
			for j < len(rs) && word(rs[j]) {
				j++
			}
			out = append(out, string(rs[i:j]))
			i = j
		case c == '«' || c == '‹':
			end := map[rune]rune{'«': '»', '‹': '›'}[c]
			j, depth := i, 0
			for j < len(rs) {
				if rs[j] == c {
					depth++
				} else if rs[j] == end {
					depth--
				}
				j++
				if depth == 0 {
					break
				}
			}
			out = append(out, string(rs[i:j]))
			i = j
		default:
			out = append(out, string(c))
			i++
		}
	}
	return out
}

// take moves the leading pieces that are there in every case to the text before them.
func (c *textCmp) take(pre string, items []Item) (string, []Item, bool) {
	for len(items) > 0 {
		it := items[0]
		if it.guard != fTrue {
			break
		}
		undecided := false
		switch it.kind {
		case 'e':
			walkText(it.val, func(*VCond) { undecided = true })
			if !undecided {
				pre += textOf(it.val)
			}
		case 'r':
			pre += "‹for " + it.src.key() + "›"
		default:
			return pre, items, false
		}
		if undecided {
			break
		}
		items = items[1:]
	}
	return pre, items, true
}

// firstVar is a variable on which the first of the pieces depends; those whose value is
// decided by the facts come last.
func (c *textCmp) firstVar(items []Item, facts []*F) (string, map[string]bool) {
	it := items[0]
	fs := []*F{it.guard}
	if it.kind == 'e' && it.guard == fTrue {
		walkText(it.val, func(c *VCond) { fs = append(fs, c.c) })
	}
	var vars []string
	for _, f := range fs {
		for x := range f.variables() {
			vars = append(vars, x)
		}
	}
	sort.Slice(vars, func(i, j int) bool {
		if a, b := opaqueVar(vars[i]), opaqueVar(vars[j]); a != b {
			return b
		}
		return vars[i] < vars[j]
	})
	if len(vars) == 0 {
		return "", nil
	}
	st := &state{pc: facts}
	for _, v := range vars {
		cs := map[string]bool{}
		for _, f := range fs {
			f.consts(v, cs)
		}
		for k := range cs {
			if c.r.in.decide(st, fAtom(v, k)) == 0 {
				return v, cs
			}
		}
	}
	return "", nil
}

func (c *textCmp) run(pg string, got []Item, pw string, want []Item, facts []*F, done string) {
	in := c.r.in
	c.n++
	if c.n > 20000 {
		if c.n == 20001 {
			c.rep.Note("%s: too many alternatives", c.what)
		}
		return
	}
	got, want = in.simplifyItems(got, facts), in.simplifyItems(want, facts)
	var ok, ok2 bool
	pg, got, ok = c.take(pg, got)
	pw, want, ok2 = c.take(pw, want)
	if !ok || !ok2 {
		c.rep.Note("%s: what is written has a part that is not understood", c.what)
		return
	}
	// compare what is certain
	tg, tw := tokens(pg), tokens(pw)
	ng, nw := len(tg), len(tw)
	if len(got) > 0 && ng > 0 {
		ng--
	}
	if len(want) > 0 && nw > 0 {
		nw--
	}
	n := 0
	for n < ng && n < nw {
		if tg[n] != tw[n] {
			c.bad(done, tg[n:], tw[n:], facts)
			return
		}
		done += " " + tg[n]
		n++
	}
	if len(got) == 0 && len(want) == 0 {
		if n < len(tg) || n < len(tw) {
			c.bad(done, tg[n:], tw[n:], facts)
			return
		}
		c.ends++
		c.rep.Ok(c.what + ":" + done)
		return
	}
	if len(got) == 0 && n == len(tg) && len(tw) > n+1 || len(want) == 0 && n == len(tw) && len(tg) > n+1 {
		c.bad(done, tg[n:], tw[n:], facts)
		return
	}
	rest := func(s string, t []string) string {
		out := strings.Join(t, " ")
		if strings.TrimRight(s, " \t\n") != s {
			out += " "
		}
		return out
	}
	pg, pw = rest(pg, tg[n:]), rest(pw, tw[n:])
	key := pg + "|" + itemsKey(got) + "|" + pw + "|" + itemsKey(want) + relevant(facts, got, want)
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	var v string
	var cs map[string]bool
	if len(want) > 0 && (len(got) == 0 || len(tw)-n <= len(tg)-n) {
		v, cs = c.firstVar(want, facts)
	} else {
		v, cs = c.firstVar(got, facts)
	}
	if v == "" {
		c.rep.Note("%s: what is written is not decided", c.what)
		return
	}
	left := facts
	for _, k := range sortedKeys(cs) {
		f := fAtom(v, k)
		if in.decide(&state{pc: left}, f) != -1 {
			c.run(pg, got, pw, want, with(facts, f), done)
		}
		left = with(left, fNot(f))
	}
	if fSat(fAnd(append(append([]*F{}, in.axioms...), left...)...)) {
		c.run(pg, got, pw, want, left, done)
	}
}

// relevant are the facts about what the pieces depend on.
func relevant(facts []*F, lists ...[]Item) string {
	vars := map[string]bool{}
	var look func(items []Item)
	look = func(items []Item) {
		for _, it := range items {
			for x := range it.guard.variables() {
				vars[x] = true
			}
			if it.kind == 'e' {
				walkText(it.val, func(c *VCond) {
					for x := range c.c.variables() {
						vars[x] = true
					}
				})
			}
		}
	}
	for _, l := range lists {
		look(l)
	}
	out := ""
	for _, f := range facts {
		for x := range f.variables() {
			if vars[x] {
				out += "|" + f.k
				break
			}
		}
	}
	return out
}

func (c *textCmp) bad(done string, got, want []string, facts []*F) {
	cut := func(t []string) string {
		s := ""
		for i, x := range t {
			if i == 8 {
				return s + " …"
			}
			s += " " + x
		}
		if s == "" {
			return " its end"
		}
		return s
	}
	switch x := c.r.in.doubt(c.facts, facts); x {
	case "none":
	case "":
		c.rep.Bad(c.what, "for %s what is generated continues after %q with%s, not with%s", c.r.cfg.name, trunc(strings.TrimSpace(done), 300), cut(got), cut(want))
		if os.Getenv("GDBG2") != "" {
			fmt.Println(trunc(fAnd(facts...).k, 2000))
		}
	default:
		c.rep.Note("%s: after %q comes%s, or%s, depending on %s", c.what, done, cut(got), cut(want), trunc(x, 200))
	}
}

func (r *genRun) sameTexts(rep *Report, what string, got, want []Item, facts []*F) {
	c := &textCmp{r: r, rep: rep, what: what, facts: append(append([]*F{}, facts...), r.sure...), seen: map[string]bool{}}
	c.run("", got, "", want, facts, "")
}

func (p *Prog) checkStmts(rep *Report, r *genRun) {
	r.outline = true
	defer func() { r.outline = false }()
	got, und := r.stmtPieces()
	if und != "" {
		rep.Note("%s: %s", r.cfg.name, und)
		return
	}
	r.sameTexts(rep, "clauses of "+r.cfg.name, got, pieceItems(r.expectedStmt(p, got)), nil)
}

func init() {
	register("G02", "static", genExpl, func(p *Prog, rep *Report) {
		checkAppends(p, rep, "internal/generator")
		rep.Rule("clauses", "The query consists of the clauses that its description asks for, in their order.")
		rep.Rule("lists", "Every column that is written gets the value of its own field or DEFAULT, and the columns that are read are those of the fields that receive them.")
		rep.Rule("parts", "The order, the limit, the offset and every joined relation are written as the description has them.")
		p.forQueries(rep, func(rep *Report, r *genRun) {
			rep.rule = "parts"
			p.checkClauses(rep, r)
			rep.rule = "clauses"
			p.checkStmts(rep, r)
			rep.rule = "lists"
			p.checkLists(rep, r)
		})
	})
}
