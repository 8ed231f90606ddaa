package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- F06 -------------------------------------------------------------------

func ruleFilterRender(p *Prog, r *Report) {
	m := newFilterModel(p)
	inPkg := func(f *ssa.Function) bool { return fnPkg(f) == p.pkg(filterPkg).Types }
	r.Rule("pure", "rendering a filter changes nothing but the local writer: no store, map update or append through the receiver, so the same filter renders to the same text every time")
	for _, f := range m.funcs {
		if f.Name() != "ToSQL" && f.Name() != m.render {
			continue
		}
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue
		}
		name := p.fname(f)
		bad := ""
		seen := map[string]bool{}
		var scan func(g *ssa.Function, tainted map[ssa.Value]bool)
		scan = func(g *ssa.Function, shared map[ssa.Value]bool) {
			key := g.String()
			for _, pa := range g.Params {
				key += fmt.Sprint(shared[pa])
			}
			if seen[key] {
				return
			}
			seen[key] = true
			// values that refer to the receiver's memory
			for changed := true; changed; {
				changed = false
				add := func(v ssa.Value) {
					if !shared[v] {
						shared[v] = true
						changed = true
					}
				}
				instrs(g, func(in ssa.Instruction) {
					switch in := in.(type) {
					case *ssa.FieldAddr:
						if shared[in.X] {
							add(in)
						}
					case *ssa.Field:
						if shared[in.X] {
							add(in)
						}
					case *ssa.IndexAddr:
						if shared[in.X] {
							add(in)
						}
					case *ssa.UnOp:
						if in.Op == token.MUL && shared[in.X] && refType(in.Type()) {
							add(in)
						}
					case *ssa.Slice:
						if shared[in.X] {
							add(in)
						}
					case *ssa.Phi:
						for _, e := range in.Edges {
							if shared[e] {
								add(in)
							}
						}
					case *ssa.ChangeType:
						if shared[in.X] {
							add(in)
						}
					case *ssa.Call:
						h := calleeOf(&in.Call)
						if h != nil && inPkg(h) && h.Blocks != nil && refType(in.Type()) {
							for i, a := range in.Call.Args {
								if shared[a] && i < len(h.Params) && returnsParam(h, i) {
									add(in)
								}
							}
						}
					}
				})
			}
			instrs(g, func(in ssa.Instruction) {
				switch in := in.(type) {
				case *ssa.Store:
					if shared[in.Addr] {
						bad = fmt.Sprintf("stores through the receiver at %s", p.pos(in.Pos()))
					}
				case *ssa.MapUpdate:
					if shared[in.Map] {
						bad = fmt.Sprintf("updates a map of the receiver at %s", p.pos(in.Pos()))
					}
				case *ssa.Call:
					if b, ok := in.Call.Value.(*ssa.Builtin); ok {
						if b.Name() == "append" && shared[in.Call.Args[0]] {
							bad = fmt.Sprintf("appends to a slice of the receiver at %s", p.pos(in.Pos()))
						}
						if b.Name() == "copy" && shared[in.Call.Args[0]] {
							bad = fmt.Sprintf("copies into a slice of the receiver at %s", p.pos(in.Pos()))
						}
						return
					}
					h := calleeOf(&in.Call)
					if h != nil && inPkg(h) && h.Blocks != nil {
						sub := map[ssa.Value]bool{}
						for i, a := range in.Call.Args {
							if shared[a] && i < len(h.Params) {
								sub[h.Params[i]] = true
							}
						}
						if len(sub) > 0 {
							scan(h, sub)
						}
					}
				}
			})
		}
		shared := map[ssa.Value]bool{}
		if f.Signature.Recv() != nil {
			if _, isPtr := f.Signature.Recv().Type().(*types.Pointer); isPtr {
				shared[f.Params[0]] = true
			} else {
				// a copy of the node: only what it refers to is shared
				instrs(f, func(in ssa.Instruction) {
					if fd, ok := in.(*ssa.Field); ok && fd.X == f.Params[0] && refType(fd.Type()) {
						shared[fd] = true
					}
				})
			}
		}
		scan(f, shared)
		if bad != "" {
			r.Bad(name+"|effect", "%s %s", name, bad)
		} else {
			r.Ok(name)
		}
	}
	r.Min(9)

	r.Rule("clauses", "the clauses are written in SQL order, each at most once; the count filter writes only the WHERE clause, from the same list")
	order := []string{"WHERE", "ORDER BY", "LIMIT", "OFFSET"}
	clauseOf := func(s string) int {
		for i, w := range order {
			if strings.Contains(s, w) {
				return i + 1
			}
		}
		return 0
	}
	var roots []string
	nToSQL := 0
	for _, f := range m.funcs {
		if f.Name() != "ToSQL" {
			continue
		}
		nToSQL++
		name := p.fname(f)
		isCount := strings.Contains(strings.ToLower(name), "count")
		bad := map[string]string{}
		saw := map[int]bool{}
		after := map[int]map[string]bool{} // clause -> field written after it
		run := &tsRun[int8]{limit: 100000,
			inline: func(g *ssa.Function) bool { return inPkg(g) && g.Blocks != nil },
			instr: func(fr *tsFrame, in ssa.Instruction, s int8) []int8 {
				v, ok := m.textWrite(in)
				if !ok {
					if c, isC := in.(*ssa.Call); isC && c.Call.IsInvoke() && c.Call.Method.Name() == m.render && s != 1 {
						bad["nodes"] = fmt.Sprintf("%s renders predicates at %s outside of the WHERE clause", name, p.pos(in.Pos()))
					}
					return []int8{s}
				}
				v, vfr := fr.resolve(v)
				if txt, isC := constText(v); isC {
					if k := clauseOf(txt); k > 0 {
						saw[k] = true
						if int8(k) <= s {
							bad["order"] = fmt.Sprintf("%s writes %s at %s after %s", name, order[k-1], p.pos(in.Pos()), order[s-1])
						}
						return []int8{int8(k)}
					}
					return []int8{s}
				}
				// " WORD " + value in one write
				if k, rest := concatClause(v, clauseOf); k > 0 {
					saw[k] = true
					if int8(k) <= s {
						bad["order"] = fmt.Sprintf("%s writes %s at %s after %s", name, order[k-1], p.pos(in.Pos()), order[s-1])
					}
					s = int8(k)
					v = rest
				}
				if after[int(s)] == nil {
					after[int(s)] = map[string]bool{}
				}
				after[int(s)][fieldSource(v, vfr)] = true
				return []int8{s}
			}}
		run.run(&tsFrame{fn: f}, 0)
		want := 4
		if isCount {
			want = 1
		}
		for k := 1; k <= 4; k++ {
			if saw[k] && k > want {
				bad["extra"+order[k-1]] = fmt.Sprintf("%s writes a %s clause", name, order[k-1])
			}
			if !saw[k] && k <= want {
				bad["missing"+order[k-1]] = fmt.Sprintf("%s never writes the %s clause", name, order[k-1])
			}
		}
		if !isCount {
			for k, fld := range map[int]string{2: "orderby", 3: "limit", 4: "offset"} {
				got := after[k]
				if len(got) != 1 {
					bad["arg"+order[k-1]] = fmt.Sprintf("%s writes %v after %s", name, keysOf(got), order[k-1])
					continue
				}
				src := sortedKeys(got)[0]
				if !setBy(m, src, fld) {
					bad["arg"+order[k-1]] = fmt.Sprintf("%s writes %s after %s, which is not what the method for that clause sets", name, src, order[k-1])
				}
			}
		}
		for _, k := range sortedKeys(bad) {
			r.Bad(name+"|"+k, "%s", bad[k])
		}
		r.Ok(name)
		// the rendered list
		var scan func(g *ssa.Function, d int)
		scan = func(g *ssa.Function, d int) {
			instrs(g, func(in ssa.Instruction) {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && m.isWhere(u.X) {
					fa := u.X.(*ssa.FieldAddr)
					k := fieldKey(fa.X.Type(), fa.Field)
					roots = append(roots, k[strings.LastIndexByte(k, '.')+1:])
				}
				if c, ok := in.(*ssa.Call); ok && d > 0 {
					if h := calleeOf(&c.Call); h != nil && inPkg(h) && h.Blocks != nil {
						scan(h, d-1)
					}
				}
			})
		}
		scan(f, 2)
	}
	for _, x := range roots {
		if x != roots[0] {
			r.Bad("ToSQL|list", "the filter and the count filter render different lists (%s, %s)", roots[0], x)
		}
	}
	if nToSQL < 2 || len(roots) < 1 {
		r.Bad("ToSQL|count", "expected the filter and the count filter to render the predicate list")
	}
	r.Min(2)

	r.Rule("present", "whether a clause is rendered depends on nothing but its own argument: it is rendered exactly when that argument was set")
	argField := func(a ssa.Value) string {
		fa, ok := a.(*ssa.FieldAddr)
		if !ok {
			return ""
		}
		k := fieldKey(fa.X.Type(), fa.Field)
		n := k[strings.LastIndexByte(k, '.')+1:]
		for _, c := range []string{"orderby", "limit", "offset"} {
			if setBy(m, n, c) {
				return c
			}
		}
		return ""
	}
	for _, f := range m.funcs {
		if f.Name() != "ToSQL" || f.Signature.Recv() == nil {
			continue
		}
		isCount := strings.Contains(strings.ToLower(p.fname(f)), "count")
		for mask := 0; mask < 16; mask++ {
			on := func(k int) bool { return mask&(1<<(k-1)) != 0 }
			force := func(v ssa.Value) (absVal, bool) {
				u, ok := v.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					return absVal{}, false
				}
				if m.isWhere(u.X) {
					if !on(1) {
						return absVal{k: aEmpty}, true
					}
					return absVal{}, false
				}
				num := func(b bool) (absVal, bool) {
					n := int64(0)
					if b {
						n = 7
					}
					return absVal{k: aConst, c: constant.MakeInt64(n)}, true
				}
				switch argField(u.X) {
				case "limit":
					return num(on(3))
				case "offset":
					return num(on(4))
				case "orderby":
					s := ""
					if on(2) {
						s = "c ASC"
					}
					return absVal{k: aConst, c: constant.MakeString(s)}, true
				}
				return absVal{}, false
			}
			texts := map[string]bool{}
			m.collectTexts(f, []absVal{{k: aNonNil}, {k: aTop}}, force, texts, 5)
			got := map[int]bool{}
			for t := range texts {
				if k := clauseOf(t); k > 0 {
					got[k] = true
				}
			}
			for k := 1; k <= 4; k++ {
				want := on(k) && (k == 1 || !isCount)
				if got[k] != want {
					r.Bad(fmt.Sprintf("%s|%s|%v", p.fname(f), order[k-1], want), "%s: with condition/order/limit/offset set = %v/%v/%v/%v, the %s clause is rendered: %v", p.fname(f), on(1), on(2), on(3), on(4), order[k-1], got[k])
				} else {
					r.Ok(fmt.Sprintf("%s combination %d %s", p.fname(f), mask, order[k-1]))
				}
			}
		}
	}
	r.Min(128)

	r.Rule("same-filter", "Filter and CountFilter return views of the constructor's own filter")
	for _, fn := range []string{"Filter", "CountFilter"} {
		f := p.mustFn(filterPkg, "Constructor."+fn)
		okv := false
		instrs(f, func(in ssa.Instruction) {
			if ret, ok := in.(*ssa.Return); ok {
				v := ret.Results[0]
				for {
					switch x := v.(type) {
					case *ssa.MakeInterface:
						v = x.X
						continue
					case *ssa.ChangeType:
						v = x.X
						continue
					case *ssa.Convert:
						v = x.X
						continue
					}
					break
				}
				if fa, ok := v.(*ssa.FieldAddr); ok && fa.X == f.Params[0] {
					okv = true
				}
			}
		})
		if okv {
			r.Ok(fn)
		} else {
			r.Bad(fn+"|view", "%s does not return the constructor's filter", fn)
		}
	}
	r.Min(2)

	r.Rule("limits", "LIMIT and OFFSET arguments are the positive numbers given to Limit, Offset and Page, formatted in base ten, and are written only when positive")
	for _, f := range m.funcs {
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			g := c.Call.StaticCallee()
			if g == nil || g.String() != "strconv.FormatInt" && g.String() != "strconv.Itoa" {
				return
			}
			name := p.fname(f)
			if g.Name() == "FormatInt" && !isConstInt(c.Call.Args[1], 10) {
				r.Bad(name+"|base", "%s formats a number at %s in a base other than ten", name, p.pos(c.Pos()))
				return
			}
			arg := c.Call.Args[0]
			if !guardedBy(c.Block(), func(k ssa.Value, taken bool) bool { return gtConst(k, taken, arg, 0) }) {
				r.Bad(name+"|guard", "%s writes a number at %s that may not be positive", name, p.pos(c.Pos()))
				return
			}
			r.Ok(name)
		})
	}
	for _, fn := range []string{"Limit", "Offset"} {
		f := p.mustFn(filterPkg, "Constructor."+fn)
		okv := false
		instrs(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok && len(f.Params) == 2 && st.Val == f.Params[1] {
				if guardedBy(st.Block(), func(k ssa.Value, taken bool) bool { return gtConst(k, taken, f.Params[1], 0) }) {
					okv = true
				} else {
					r.Bad(fn+"|guard", "%s stores a number that may not be positive", fn)
				}
			}
		})
		if okv {
			r.Ok(fn)
		} else {
			r.Bad(fn+"|store", "%s does not store its argument", fn)
		}
	}
	page := p.mustFn(filterPkg, "Constructor.Page")
	okPage := false
	instrs(page, func(in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		b, ok := st.Val.(*ssa.BinOp)
		if !ok || b.Op != token.MUL {
			return
		}
		for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			s, ok := pr[0].(*ssa.BinOp)
			if ok && s.Op == token.SUB && s.X == page.Params[1] && isConstInt(s.Y, 1) && fieldSource(pr[1], nil) == "limit" {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && strings.HasSuffix(fieldKey(fa.X.Type(), fa.Field), ".offset") {
					okPage = guardedBy(st.Block(), func(k ssa.Value, taken bool) bool { return gtConst(k, taken, page.Params[1], 0) })
				}
			}
		}
	})
	if okPage {
		r.Ok("Page")
	} else {
		r.Bad("Page|offset", "Page does not set the offset to limit*(page-1) for positive pages")
	}
	r.Min(4)
}

func refType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	}
	return false
}

// returnsParam: some return value of f refers to the memory of its i-th parameter.
func returnsParam(f *ssa.Function, i int) bool {
	set := map[ssa.Value]bool{f.Params[i]: true}
	found := false
	for changed := true; changed; {
		changed = false
		instrs(f, func(in ssa.Instruction) {
			v, isV := in.(ssa.Value)
			switch x := in.(type) {
			case *ssa.Slice:
				if set[x.X] && !set[v] {
					set[v], changed = true, true
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					if set[e] && !set[v] {
						set[v], changed = true, true
					}
				}
			case *ssa.FieldAddr:
				if set[x.X] && !set[v] {
					set[v], changed = true, true
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && set[x.X] && refType(x.Type()) && !set[v] {
					set[v], changed = true, true
				}
			case *ssa.Return:
				for _, e := range x.Results {
					if set[e] {
						found = true
					}
				}
			}
			_ = isV
		})
	}
	return found
}

// concatClause splits `" LIMIT " + x` into the clause and x.
func concatClause(v ssa.Value, clauseOf func(string) int) (int, ssa.Value) {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return 0, v
	}
	if s, ok := constString(b.X); ok {
		if k := clauseOf(s); k > 0 {
			return k, b.Y
		}
	}
	return 0, v
}

// fieldSource: the name of the struct field a written value was read from.
func fieldSource(v ssa.Value, fr *tsFrame) string {
	for d := 0; d < 8; d++ {
		v, fr = fr.resolve(v)
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				k := fieldKey(fa.X.Type(), fa.Field)
				return k[strings.LastIndexByte(k, '.')+1:]
			}
			return "?"
		case *ssa.Field:
			k := fieldKey(x.X.Type(), x.Field)
			return k[strings.LastIndexByte(k, '.')+1:]
		case *ssa.Convert:
			v = x.X
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g != nil && (g.String() == "strconv.FormatInt" || g.String() == "strconv.Itoa") {
				v = x.Call.Args[0]
				continue
			}
			return "?"
		default:
			return "?"
		}
	}
	return "?"
}

// setBy: the field is the one the method of the clause stores to.
func setBy(m *filterModel, field, clause string) bool {
	fn := map[string]string{"orderby": "OrderBy", "limit": "Limit", "offset": "Offset"}[clause]
	f := m.p.mustFn(filterPkg, "Constructor."+fn)
	found := false
	var scan func(g *ssa.Function, d int)
	scan = func(g *ssa.Function, d int) {
		instrs(g, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					k := fieldKey(fa.X.Type(), fa.Field)
					if k[strings.LastIndexByte(k, '.')+1:] == field {
						found = true
					}
				}
			}
			if c, ok := in.(*ssa.Call); ok && d > 0 {
				if h := calleeOf(&c.Call); h != nil && fnPkg(h) == m.p.pkg(filterPkg).Types && h.Blocks != nil {
					scan(h, d-1)
				}
			}
		})
	}
	scan(f, 2)
	return found
}

// collectTexts collects the constant texts a specialised execution can write.
func (m *filterModel) collectTexts(f *ssa.Function, args []absVal, force func(ssa.Value) (absVal, bool), out map[string]bool, depth int) {
	s := runSCCPForced(f, args, nil, force, 3)
	for _, b := range f.Blocks {
		if !s.exec[b] {
			continue
		}
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := calleeOf(&c.Call); g != nil && fnPkg(g) == m.p.pkg(filterPkg).Types && g.Blocks != nil && depth > 0 {
					var av []absVal
					for _, a := range c.Call.Args {
						av = append(av, s.get(a))
					}
					m.collectTexts(g, av, force, out, depth-1)
					continue
				}
			}
			if t, ok := m.textWrite(in); ok {
				if a := s.get(t); a.k == aConst && a.c.Kind() == constant.String {
					out[constant.StringVal(a.c)] = true
				}
				if bo, ok := t.(*ssa.BinOp); ok {
					for _, x := range []ssa.Value{bo.X, bo.Y} {
						if a := s.get(x); a.k == aConst && a.c.Kind() == constant.String {
							out[constant.StringVal(a.c)] = true
						}
					}
				}
			}
		}
	}
}
