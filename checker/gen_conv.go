package main

import (
	"regexp"
	"strings"
)

var pathHolder = regexp.MustCompile(`<(info\.[^<>]*?)(?:\.Field)?\.(?:Name|FieldName)>$`)

const pgsqlImport = `<import("github.com/frk/gosql/pgsql").name>.`

// checkConversions checks that every field that is passed to the query is converted by the
// function that the type checker chose for it, and only by that.
func (r *genRun) checkConversions(rep *Report) {
	in := r.in
	file := in.simplify(r.file, nil)
	n := 0
	var visit func(s []gseq, facts []*F)
	visit = func(s []gseq, facts []*F) {
		for _, e := range s {
			fs := with(facts, e.g)
			if e.kind == 'r' {
				fs = with(fs, fNot(fAtom("len("+e.src.key()+")", "0")))
				visit(e.kids, fs)
				continue
			}
			if e.key == "skip" || e.kind != 'e' {
				continue
			}
			if e.key == "elem" {
				r.checkElemConversion(rep, e.v, fs, &n)
				continue
			}
			r.checkConversion(rep, e.v, fs, &n)
		}
	}
	visit(project(file, fTrue, func(v Val) (string, bool) {
		if isNode(v, "golang.CallLenExpr") != nil {
			return "skip", true
		}
		if x, ok := v.(*VStruct); ok {
			if x := convArg(x); x != nil {
				if _, ok := r.inElem(field(x, "X")); ok && !constIdent(field(x, "X")) {
					return "elem", true
				}
				return "skip", true
			}
		}
		p, _, ok := argChain(v)
		if m := pathHolder.FindStringSubmatch(p); ok && m != nil && !strings.HasPrefix(m[1], "info.Reads") {
			return "arg", true
		}
		return "", false
	}), nil)
	if n == 0 {
		rep.Note("%s: no fields are passed", r.cfg.name)
	}
}

func (r *genRun) checkConversion(rep *Report, v Val, facts []*F, n *int) {
	in := r.in
	p, _, _ := argChain(v)
	h := pathHolder.FindStringSubmatch(p)[1]
	none := fAtom("len("+h+".Valuer)", "0")
	what := "argument " + h + " of " + r.cfg.name
	for _, c := range []struct {
		fact *F
		want string
	}{{none, ""}, {fNot(none), pgsqlImport + "<" + h + ".Valuer>"}} {
		fs := with(facts, c.fact)
		if !fSat(fAnd(append(append([]*F{}, in.axioms...), fs...)...)) {
			continue
		}
		*n++
		r.eachConv(rep, what, in.simplify(v, fs), fs, func(x Val, unsure bool) bool {
			_, conv, ok := argChain(x)
			if ok && conv == c.want {
				return true
			}
			if !ok || unsure {
				rep.Note("%s: the conversion is not decided", what)
				return false
			}
			in := map[bool]string{true: "passed as it is", false: "converted by " + conv}
			want := map[bool]string{true: "passed as it is", false: "converted by " + c.want}
			rep.Bad(what, "the field of %s is %s, but it has to be %s", h, in[conv == ""], want[c.want == ""])
			return false
		})
	}
}

// eachConv calls f for every alternative of the value that is possible; the obligation is
// discharged if f accepts all of them.
func (r *genRun) eachConv(rep *Report, what string, v Val, facts []*F, f func(v Val, unsure bool) bool) {
	good := true
	cases(v, fTrue, func(x Val, g *F) {
		fs := with(facts, g)
		if !good || !fSat(fAnd(append(append([]*F{}, r.in.axioms...), fs...)...)) {
			return
		}
		unsure := false
		for v := range g.variables() {
			unsure = unsure || r.in.unsureVar(v)
		}
		good = f(x, unsure) && good
	})
	if good {
		rep.Ok(what)
	}
}

func constIdent(v Val) bool {
	_, ok := constOfIdent(v)
	return ok
}

// checkElemConversion checks the conversion of the elements of the slices of IN; the valuer
// of such a field is the one for its elements.
func (r *genRun) checkElemConversion(rep *Report, v Val, facts []*F, n *int) {
	in := r.in
	x := convArg(v)
	p, _ := r.inElem(field(x, "X"))
	valuer := ""
	if s, ok := field(x, "X").(VSym); ok && recElem.MatchString(s.path) {
		// kept with the slice, by the call for the nested conditionals
		valuer = recElem.FindStringSubmatch(s.path)[0]
		valuer = valuer[:strings.LastIndex(valuer, "[*]")+3]
	} else if m := pathHolder.FindStringSubmatch(p); m != nil {
		valuer = m[1] + ".Valuer"
	} else {
		if strings.Contains(p, "<info.") {
			rep.Note("%s: undecided: the conversion of %s", r.cfg.name, p)
		}
		return
	}
	what := "element of " + p + " of " + r.cfg.name
	if strings.HasSuffix(valuer, "[*]") {
		*n++
		conv := ""
		if c := isNode(v, "golang.CallExpr"); c != nil {
			conv, _ = chain(field(c, "Fun"))
			if !strings.HasPrefix(conv, pgsqlImport+"<"+valuer+".") {
				rep.Bad(what, "the element is converted by %s", conv)
				return
			}
		}
		rep.Ok(what)
		return
	}
	none := fAtom("len("+valuer+")", "0")
	for _, c := range []struct {
		fact *F
		want string
	}{{none, ""}, {fNot(none), pgsqlImport + "<" + valuer + ">"}} {
		fs := with(facts, c.fact)
		if !fSat(fAnd(append(append([]*F{}, in.axioms...), fs...)...)) {
			continue
		}
		*n++
		r.eachConv(rep, what, in.simplify(v, fs), fs, func(x Val, unsure bool) bool {
			conv := ""
			if c := isNode(stripConv(x), "golang.CallExpr"); c != nil {
				conv, _ = chain(field(c, "Fun"))
			}
			if conv == c.want {
				return true
			}
			if unsure {
				rep.Note("%s: the conversion is not decided", what)
			} else {
				rep.Bad(what, "the element is converted by %q, but it has to be by %q", conv, c.want)
			}
			return false
		})
	}
}

func init() {
	register("G04", "static", genExpl, func(p *Prog, rep *Report) {
		rep.Rule("conversions", "Every field, or element of a field, that is passed to a query goes through the conversion that was chosen for it.")
		p.forQueries(rep, func(rep *Report, r *genRun) { r.checkConversions(rep) })
	})
}
