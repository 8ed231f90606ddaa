package main

import (
	"fmt"
	"go/constant"
	"sort"
	"strings"
)

// A gseq is a part of a guarded sequence: an element that is there if its guard holds, a
// loop over an input or the parts that a recursive call on a part of the input adds.
type gseq struct {
	g    *F
	kind byte   // 'e' element, 'r' loop, 'c' recursion, '?' not understood
	key  string // what the element stands for / argument of the recursion
	src  Val    // of the loop
	kids []gseq
	v    Val
}

func seqString(s []gseq) string {
	var out []string
	for _, e := range s {
		t := ""
		if e.g != fTrue {
			t = trunc(e.g.k, 80) + "? "
		}
		switch e.kind {
		case 'r':
			t += "for " + e.src.key() + " {" + seqString(e.kids) + "}"
		case 'c':
			t += "rec " + e.key
		default:
			t += e.key
		}
		out = append(out, t)
	}
	return strings.Join(out, ", ")
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// cases lists the alternatives of a value with their guards.
func cases(v Val, g *F, fn func(v Val, g *F)) {
	if g.op == 'F' {
		return
	}
	if c, ok := v.(*VCond); ok {
		cases(c.a, fAnd(g, c.c), fn)
		cases(c.b, fAnd(g, fNot(c.c)), fn)
		return
	}
	fn(v, g)
}

// flatSeq turns the parts of a list into a guarded sequence; elem says what an element
// stands for.
func flatSeq(items []Item, elem func(v Val) (string, bool)) []gseq {
	var out []gseq
	for _, it := range items {
		switch it.kind {
		case 'e':
			cases(it.val, it.guard, func(v Val, g *F) {
				if l, ok := stripConv(v).(*VList); ok {
					out = append(out, flatSeq(guardItems(g, l.items), elem)...)
					return
				}
				k, ok := elem(v)
				e := gseq{g: g, kind: 'e', key: k, v: v}
				if !ok {
					e.kind, e.key = '?', short(v, 80)
				}
				out = append(out, e)
			})
		case 'r':
			out = append(out, gseq{g: it.guard, kind: 'r', src: it.src, kids: flatSeq(it.items, elem)})
		case 'c':
			out = append(out, gseq{g: it.guard, kind: 'c', key: it.val.key(), v: it.val})
		case 's':
			cases(it.val, it.guard, func(v Val, g *F) {
				if l, ok := stripConv(v).(*VList); ok {
					out = append(out, flatSeq(guardItems(g, l.items), elem)...)
				} else if _, ok := v.(VNil); !ok {
					out = append(out, gseq{g: g, kind: '?', key: short(v, 80), v: v})
				}
			})
		default:
			out = append(out, gseq{g: it.guard, kind: '?', key: itemsKey([]Item{it})})
		}
	}
	return out
}

// project lists the nodes in v that match, in textual order, as a guarded sequence.
func project(v Val, g *F, match func(v Val) (string, bool)) []gseq {
	if v == nil || g.op == 'F' {
		return nil
	}
	if k, ok := match(v); ok {
		return []gseq{{g: g, kind: 'e', key: k, v: v}}
	}
	var out []gseq
	switch x := v.(type) {
	case *VStruct:
		if x.base != nil {
			out = append(out, project(x.base, g, match)...)
		}
		for _, f := range fieldOrder(x) {
			out = append(out, project(x.fields[f], g, match)...)
		}
	case *VExpr:
		if x.op == "len" || x.op == "index" || x.op == "fold" {
			return nil
		}
		for _, a := range x.args {
			out = append(out, project(a, g, match)...)
		}
	case *VCond:
		out = append(out, project(x.a, fAnd(g, x.c), match)...)
		out = append(out, project(x.b, fAnd(g, fNot(x.c)), match)...)
	case *VList:
		return projectItems(x.items, g, match)
	}
	return out
}

func projectItems(items []Item, g *F, match func(v Val) (string, bool)) []gseq {
	var out []gseq
	for _, it := range items {
		ig := fAnd(g, it.guard)
		switch it.kind {
		case 'r':
			if kids := projectItems(it.items, fTrue, match); len(kids) > 0 {
				out = append(out, gseq{g: ig, kind: 'r', src: it.src, kids: kids})
			}
		case 'e', 's':
			out = append(out, project(it.val, ig, match)...)
		}
	}
	return out
}

// seqDiff compares two guarded sequences under the facts. It returns "" if they are the
// same, and otherwise a difference; the second result is set if it cannot tell.
func (in *Interp) seqDiff(a, b []gseq, facts []*F) (diff string, unsure bool) {
	d := &differ{in: in}
	r := d.diff(a, b, facts)
	if r.text == "" {
		return "", false
	}
	// Facts about values that are not interpreted may contradict each other: look for a
	// difference that there is whatever these values are.
	f := fAnd(append(append([]*F{}, in.axioms...), facts...)...)
	for v := range f.variables() {
		if in.unsureVar(v) {
			f = forAll(f, v)
		}
	}
	if !fSat(f) {
		return r.text, true
	}
	d = &differ{in: in, certain: true}
	if c := d.diff(a, b, []*F{f}); c.text != "" && c.sure {
		return c.text, false
	}
	return r.text, true
}

// forAll is the strongest formula without v that implies f.
func forAll(f *F, v string) *F {
	cs := map[string]bool{}
	f.consts(v, cs)
	out := f.with(v, "")
	for c := range cs {
		out = fAnd(out, f.with(v, c))
	}
	return out
}

// unknown reports whether it is unknown what the part is.
func (e gseq) unknown() bool {
	if e.kind == 'r' {
		_, ok := e.src.(VSym)
		return !ok
	}
	return e.kind == '?'
}

type differ struct {
	in      *Interp
	certain bool // look for a difference that is certain
	steps   int
}

type diffRes struct {
	text string
	sure bool
}

// opaqueVar reports whether the variable stands for something that is not interpreted.
func opaqueVar(v string) bool {
	if strings.HasPrefix(v, "broken(") {
		return false
	}
	for _, s := range []string{"fold(", "index(", "call:", "acc:", "idx(", "rec(", "rec#"} {
		if strings.Contains(v, s) {
			return true
		}
	}
	return false
}

// unsureVar reports whether it is unknown if the variable can have any of its values: it
// stands for something that is not interpreted.
func (in *Interp) unsureVar(v string) bool {
	if !opaqueVar(v) {
		return false
	}
	a := in.somes[v]
	if a == nil {
		return true
	}
	// there are elements with and elements without the property, whatever is not
	// interpreted
	yes, no := fAnd(in.axiom(), a.cond), fAnd(in.axiom(), fNot(a.cond))
	for v := range a.cond.variables() {
		if in.unsureVar(v) {
			yes, no = forAll(yes, v), forAll(no, v)
		}
	}
	return !fSat(yes) || !fSat(no)
}

func report(f string, args ...interface{}) diffRes {
	t := fmt.Sprintf(f, args...)
	return diffRes{t, !opaqueVar(t)}
}

func (d *differ) live(s []gseq, facts []*F) []gseq {
	st := &state{pc: facts}
	for len(s) > 0 && (d.in.decide(st, s[0].g) == -1 || d.vacant(s[0], facts)) {
		s = s[1:]
	}
	return s
}

// vacant reports whether the loop never adds anything.
func (d *differ) vacant(s gseq, facts []*F) bool {
	if s.kind != 'r' {
		return false
	}
	inner := with(with(facts, s.g), fNot(fAtom("len("+s.src.key()+")", "0")))
	for _, k := range s.kids {
		if d.in.decide(&state{pc: inner}, k.g) != -1 && !d.vacant(k, inner) {
			return false
		}
	}
	return true
}

// split compares the sequences where g holds and where it does not.
func (d *differ) split(a, b []gseq, facts []*F, g *F) diffRes {
	// on what is understood first
	var vs []string
	opaque := false
	for v := range g.variables() {
		if d.in.unsureVar(v) {
			opaque = true
		} else {
			vs = append(vs, v)
		}
	}
	if opaque && d.certain && len(vs) > 0 {
		sort.Strings(vs)
		for _, v := range vs {
			cs := map[string]bool{}
			g.consts(v, cs)
			for _, c := range sortedKeys(cs) {
				at := fAtom(v, c)
				if d.in.decide(&state{pc: facts}, at) == 0 {
					return d.split(a, b, facts, at)
				}
			}
		}
	}
	x := d.diff(a, b, with(facts, g))
	if x.text != "" && !d.certain {
		return x
	}
	if opaque {
		y := d.diff(a, b, with(facts, fNot(g)))
		switch {
		case x.text == "":
			return diffRes{y.text, false}
		case y.text == "":
			return diffRes{x.text, false}
		}
		return diffRes{x.text, x.sure && y.sure}
	}
	if x.text != "" && x.sure {
		return x
	}
	if y := d.diff(a, b, with(facts, fNot(g))); y.text != "" && (y.sure || x.text == "") {
		return y
	}
	return x
}

func (d *differ) diff(a, b []gseq, facts []*F) diffRes {
	d.steps++
	if d.steps > 4000 {
		return diffRes{"too many alternatives", false}
	}
	if !fSat(fAnd(append(append([]*F{}, d.in.axioms...), facts...)...)) {
		return diffRes{}
	}
	a, b = d.live(a, facts), d.live(b, facts)
	if len(a) == 0 && len(b) == 0 {
		return diffRes{}
	}
	st := &state{pc: facts}
	if len(a) == 0 || len(b) == 0 {
		s, side := a, "second"
		if len(a) == 0 {
			s, side = b, "first"
		}
		if d.in.decide(st, s[0].g) != 1 {
			return d.split(a, b, facts, s[0].g)
		}
		if s[0].unknown() {
			return diffRes{s[0].key + " is missing from the " + side, false}
		}
		if s[0].kind == 'r' {
			inner := with(facts, fNot(fAtom("len("+s[0].src.key()+")", "0")))
			var x diffRes
			if len(a) == 0 {
				x = d.diff(nil, s[0].kids, inner)
			} else {
				x = d.diff(s[0].kids, nil, inner)
			}
			if x.text != "" && (x.sure || !d.certain) {
				return x
			}
			var y diffRes
			if len(a) == 0 {
				y = d.diff(nil, b[1:], facts)
			} else {
				y = d.diff(a[1:], nil, facts)
			}
			if y.text != "" {
				return y
			}
			return x
		}
		return report("%s is missing from the %s", s[0].key, side)
	}
	x, y := a[0], b[0]
	if x.unknown() || y.unknown() {
		return diffRes{"not understood: " + x.key + " / " + y.key, false}
	}
	same := x.kind == y.kind && x.key == y.key && (x.kind != 'r' || x.src.key() == y.src.key())
	if same {
		same = d.in.decide(st, fOr(fAnd(x.g, y.g), fAnd(fNot(x.g), fNot(y.g)))) == 1
	}
	if same {
		var r diffRes
		if x.kind == 'r' {
			inner := with(with(facts, x.g), fNot(fAtom("len("+x.src.key()+")", "0")))
			if r = d.diff(x.kids, y.kids, inner); r.text != "" && (r.sure || !d.certain) {
				return r
			}
		}
		if q := d.diff(a[1:], b[1:], facts); q.text != "" && (q.sure || r.text == "") {
			return q
		}
		return r
	}
	if d.in.decide(st, x.g) != 1 {
		return d.split(a, b, facts, x.g)
	}
	if d.in.decide(st, y.g) != 1 {
		return d.split(a, b, facts, y.g)
	}
	if x.kind == 'r' || y.kind == 'r' {
		// one of the loops may have no iterations
		s := x
		if s.kind != 'r' {
			s = y
		}
		e := fAtom("len("+s.src.key()+")", "0")
		switch d.in.decide(st, e) {
		case 0:
			return d.split(a, b, facts, fNot(e))
		case 1:
			if x.kind == 'r' && s.src.key() == x.src.key() {
				return d.diff(a[1:], b, facts)
			}
			return d.diff(a, b[1:], facts)
		}
		return report("%s in place of %s", trunc(seqString([]gseq{y}), 200), trunc(seqString([]gseq{x}), 200))
	}
	return report("%s in place of %s", y.key, x.key)
}

// mapSeq rewrites the elements of a sequence.
func mapSeq(s []gseq, fn func(e gseq) []gseq) []gseq {
	var out []gseq
	for _, e := range s {
		if e.kind == 'r' {
			e.kids = mapSeq(e.kids, fn)
			if len(e.kids) > 0 {
				out = append(out, e)
			}
			continue
		}
		out = append(out, fn(e)...)
	}
	return out
}

// ---- Go and SQL syntax nodes ------------------------------------------------------------

func isNode(v Val, typ string) *VStruct {
	s, ok := v.(*VStruct)
	if !ok || typeName(s.typ) != typ {
		return nil
	}
	return s
}

func field(s *VStruct, name string) Val {
	if v, ok := s.fields[name]; ok {
		return v
	}
	if s.base != nil {
		return vfield(s, name)
	}
	return VNil{}
}

// listOf lists the elements of an argument list, which may also be a single node.
func listOf(v Val) []Item {
	v = stripConv(v)
	switch x := v.(type) {
	case *VList:
		return x.items
	case VNil, nil:
		return nil
	case *VCond:
		return append(guardItems(x.c, listOf(x.a)), guardItems(fNot(x.c), listOf(x.b))...)
	}
	return []Item{{guard: fTrue, kind: 'e', val: v}}
}

func constOfIdent(v Val) (string, bool) {
	if s := isNode(v, "golang.Ident"); s != nil {
		return constStr(field(s, "Name"))
	}
	return "", false
}

// chain is the access path that a Go expression node denotes.
func chain(v Val) (string, bool) {
	v = stripConv(v)
	switch x := v.(type) {
	case *VStruct:
		switch typeName(x.typ) {
		case "golang.Ident":
			return nameKey(field(x, "Name")), true
		case "golang.QualifiedIdent":
			return nameKey(field(x, "Package")) + "." + nameKey(field(x, "Name")), true
		case "golang.SelectorExpr":
			c, ok := chain(field(x, "X"))
			sel, ok2 := chain(field(x, "Sel"))
			return c + "." + sel, ok && ok2
		case "golang.UnaryExpr":
			c, ok := chain(field(x, "X"))
			op, ok2 := constStr(field(x, "Op"))
			return op + c, ok && ok2
		}
	case *VExpr:
		if x.op == "fold" && len(x.args) == 3 {
			c, ok := chain(x.args[1])
			s := isNode(x.args[2], "golang.SelectorExpr")
			if !ok || s == nil {
				return "", false
			}
			if a, ok := field(s, "X").(VAcc); !ok || !strings.HasPrefix(a.id, x.args[0].key()+"/") {
				return "", false
			}
			sel, ok := chain(field(s, "Sel"))
			return c + ".for(" + x.args[0].key() + ")" + sel, ok
		}
	case *VCond:
		a, ok := chain(x.a)
		b, ok2 := chain(x.b)
		return a, ok && ok2 && a == b
	}
	return "", false
}

func nameKey(v Val) string {
	if s, ok := constStr(v); ok {
		return s
	}
	return "<" + stripConv(v).key() + ">"
}

// argChain is the access path of the field that is passed, and the conversion that it is
// passed through.
func argChain(v Val) (path, conv string, ok bool) {
	v = stripConv(v)
	if c := isNode(v, "golang.CallExpr"); c != nil {
		args := isNode(field(c, "Args"), "golang.ArgsList")
		if args == nil {
			return "", "", false
		}
		l := listOf(field(args, "List"))
		if len(l) != 1 || l[0].kind != 'e' || l[0].guard != fTrue {
			return "", "", false
		}
		fn, ok1 := chain(field(c, "Fun"))
		p, ok2 := chain(l[0].val)
		return p, fn, ok1 && ok2
	}
	if c, ok := v.(*VCond); ok {
		p1, c1, ok1 := argChain(c.a)
		p2, c2, ok2 := argChain(c.b)
		if c1 != c2 {
			c1 += "|" + c2
		}
		return p1, c1, ok1 && ok2 && p1 == p2
	}
	p, ok := chain(v)
	return p, "", ok
}

func intOf(v Val) (int64, bool) {
	if c, ok := v.(VConst); ok && c.v.Kind() == constant.Int {
		return constNum(c)
	}
	return constNum(v)
}
