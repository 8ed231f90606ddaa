package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- F03: the predicate list is always a viable prefix of the grammar -------

type tail uint8

const (
	tOpen   tail = iota // empty, or after "("
	tOp                 // after AND / OR
	tClosed             // after an operand or ")"
)

func allTails() map[tail]bool { return map[tail]bool{tOpen: true, tOp: true, tClosed: true} }

func (m *filterModel) kindOf(t types.Type) (nodeKind, bool) {
	n := namedOf(t)
	if n == nil {
		return nodeKind{}, false
	}
	k, ok := m.kinds[n.Origin()]
	return k, ok
}

// nodeKinds resolves a node-typed value to the kinds it can have.
func (m *filterModel) nodeKinds(v ssa.Value, fr *tsFrame, d int) ([]nodeKind, bool) {
	if d > 8 {
		return nil, false
	}
	v, fr = fr.resolve(v)
	switch v := v.(type) {
	case *ssa.MakeInterface:
		k, ok := m.kindOf(v.X.Type())
		return []nodeKind{k}, ok
	case *ssa.ChangeInterface:
		return m.nodeKinds(v.X, fr, d+1)
	case *ssa.Phi:
		var out []nodeKind
		for _, e := range v.Edges {
			k, ok := m.nodeKinds(e, fr, d+1)
			if !ok {
				return nil, false
			}
			out = append(out, k...)
		}
		return out, true
	case *ssa.Call:
		g := calleeOf(&v.Call)
		if g == nil || g.Blocks == nil {
			return nil, false
		}
		var out []nodeKind
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				k, ok := m.nodeKinds(r.Results[0], &tsFrame{g, v, fr}, d+1)
				if !ok {
					return nil, false
				}
				out = append(out, k...)
			}
		}
		return out, true
	}
	return nil, false
}

func (m *filterModel) isNodeList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), m.nodeT)
}

// isWhere: address of a struct field holding the node list.
func (m *filterModel) isWhere(a ssa.Value) bool {
	fa, ok := a.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	pt, ok := fa.Type().Underlying().(*types.Pointer)
	return ok && m.isNodeList(pt.Elem())
}

type grammarIssue func(key, format string, args ...interface{})

// listTails evaluates a node-list value to the tails it can have.
func (m *filterModel) listTails(v ssa.Value, fr *tsFrame, cur map[tail]bool, issue grammarIssue, d int) map[tail]bool {
	if d > 10 {
		return allTails()
	}
	v, fr = fr.resolve(v)
	switch v := v.(type) {
	case *ssa.Const:
		return map[tail]bool{tOpen: true}
	case *ssa.UnOp:
		if v.Op == token.MUL && m.isWhere(v.X) {
			return cur
		}
	case *ssa.Phi:
		out := map[tail]bool{}
		for _, e := range v.Edges {
			if e == v {
				continue
			}
			if _, isPhi := e.(*ssa.Phi); isPhi && d > 2 {
				return allTails()
			}
			for t := range m.listTails(e, fr, cur, issue, d+1) {
				out[t] = true
			}
		}
		return out
	case *ssa.Slice:
		if v.Low != nil && !isConstInt(v.Low, 0) {
			return allTails()
		}
		if v.High == nil {
			return m.listTails(v.X, fr, cur, issue, d+1)
		}
		// a prefix of a well-formed prefix; what its last node is, is told by
		// the type tests on it that dominate
		out := allTails()
		m.lastNodeFacts(v, out)
		return out
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(v.Call.Args) == 2 {
			state := m.listTails(v.Call.Args[0], fr, cur, issue, d+1)
			elems, ok := varargElems(v.Call.Args[1])
			if !ok {
				issue("append", "a list of nodes is appended at %s; the nodes cannot be told apart", m.p.pos(v.Pos()))
				return allTails()
			}
			for _, e := range elems {
				state = m.appendNode(state, e, fr, v, issue)
			}
			return state
		}
		g := calleeOf(&v.Call)
		if g != nil && g.Blocks != nil && !fr.active(g) {
			out := map[tail]bool{}
			sub := &tsFrame{g, v, fr}
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					for t := range m.listTails(r.Results[0], sub, cur, issue, d+1) {
						out[t] = true
					}
				}
			}
			return out
		}
	}
	return allTails()
}

// lastNodeFacts removes from out the tails excluded by type tests on the last
// element of the slice x[:h] (that is, on x[h-1]).
func (m *filterModel) lastNodeFacts(sl *ssa.Slice, out map[tail]bool) {
	test := func(c ssa.Value) (types.Type, bool) {
		ex, ok := c.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			return nil, false
		}
		ta, ok := ex.Tuple.(*ssa.TypeAssert)
		if !ok {
			return nil, false
		}
		u, ok := ta.X.(*ssa.UnOp)
		if !ok {
			return nil, false
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok || !sameExpr(ia.X, sl.X, 0) {
			return nil, false
		}
		b, ok := ia.Index.(*ssa.BinOp)
		if !ok || b.Op != token.SUB || !isConstInt(b.Y, 1) || !sameExpr(b.X, sl.High, 0) {
			return nil, false
		}
		return ta.AssertedType, true
	}
	not := map[string]bool{}
	guardedBy(sl.Block(), func(c ssa.Value, taken bool) bool {
		if t, ok := test(c); ok && !taken {
			if k, ok := m.kindOf(t); ok {
				not[k.kind] = true
			}
		}
		return false
	})
	if not["and"] && not["or"] {
		delete(out, tOp)
	}
	if not["lparen"] {
		// the empty list is still open
		_ = not
	}
}

func (m *filterModel) appendNode(state map[tail]bool, e ssa.Value, fr *tsFrame, at *ssa.Call, issue grammarIssue) map[tail]bool {
	pos := m.p.pos(at.Pos())
	if e == nil {
		issue("append", "an unresolved node is appended at %s", pos)
		return allTails()
	}
	kinds, ok := m.nodeKinds(e, fr, 0)
	if !ok {
		issue("append", "the node appended at %s cannot be resolved", pos)
		return allTails()
	}
	out := map[tail]bool{}
	for _, k := range kinds {
		switch k.kind {
		case "and", "or":
			if state[tOpen] || state[tOp] {
				issue(k.kind, "the operator %s is appended at %s where it can follow an opening parenthesis, another operator, or nothing", strings.ToUpper(k.kind), pos)
			}
			out[tOp] = true
		case "rparen":
			if state[tOpen] || state[tOp] {
				issue(k.kind, "a closing parenthesis is appended at %s where it can follow an opening parenthesis or an operator", pos)
			}
			out[tClosed] = true
		case "lparen":
			if state[tClosed] {
				issue(k.kind, "an opening parenthesis is appended at %s where it can follow an operand without an operator", pos)
			}
			out[tOpen] = true
		default:
			if state[tClosed] {
				issue(k.kind, "a predicate is appended at %s where it can follow another operand without an operator", pos)
			}
			out[tClosed] = true
		}
	}
	return out
}

// isTailQuery: a call that asks the last node whether an operator may follow.
func (m *filterModel) isTailQuery(c ssa.Value) bool {
	call, ok := c.(*ssa.Call)
	if !ok {
		return false
	}
	g := calleeOf(&call.Call)
	return g != nil && m.tailQueries()[g]
}

var tailQueryCache map[*ssa.Function]bool

func (m *filterModel) tailQueries() map[*ssa.Function]bool {
	if tailQueryCache != nil {
		return tailQueryCache
	}
	out := map[*ssa.Function]bool{}
	for _, f := range m.funcs {
		if f.Signature.Results().Len() != 1 || f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != m.ctor {
			continue
		}
		if !types.Identical(f.Signature.Results().At(0).Type(), types.Typ[types.Bool]) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && c.Call.IsInvoke() && c.Call.Method.Name() == m.query {
				out[f] = true
			}
		})
	}
	tailQueryCache = out
	return out
}

func ruleFilterGrammar(p *Prog, r *Report) {
	m := newFilterModel(p)
	tailQueryCache = nil
	r.Rule("kinds", "operands and closing parentheses let an operator follow, operators and opening parentheses do not; the package has one node for each of AND, OR, ( and )")
	have := map[string]int{}
	for _, n := range sortedNamed(m.kinds) {
		k := m.kinds[n]
		have[k.kind]++
		want := k.kind == "operand" || k.kind == "rparen"
		if k.can != want {
			r.Bad(n.Obj().Name()+"|"+k.kind, "%s is %s but reports that an operator %s follow it", n.Obj().Name(), k.kind, map[bool]string{true: "may", false: "must not"}[k.can])
		} else {
			r.Ok(n.Obj().Name() + " is " + k.kind)
		}
	}
	for _, k := range []string{"and", "or", "lparen", "rparen"} {
		if have[k] != 1 {
			r.Bad("kinds|"+k, "package filter has %d nodes that write %q, expected one", have[k], k)
		}
	}
	r.Min(8)

	r.Rule("tail-query", "the question whether an operator may follow is answered by the last node, and is no for the empty list")
	for f := range m.tailQueries() {
		okv := false
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != m.query {
				return
			}
			u, ok := c.Call.Value.(*ssa.UnOp)
			if !ok {
				return
			}
			ia, ok := u.X.(*ssa.IndexAddr)
			if !ok {
				return
			}
			b, ok := ia.Index.(*ssa.BinOp)
			if ok && b.Op == token.SUB && isConstInt(b.Y, 1) && isLenCall(b.X) && isLenOf(b.X, ia.X) && loadOf(ia.X, m.isWhere) {
				okv = true
			}
		})
		// every return is false or the node's answer
		instrs(f, func(in ssa.Instruction) {
			if ret, ok := in.(*ssa.Return); ok {
				if !queryResult(ret.Results[0], m.query, 0) {
					okv = false
				}
			}
		})
		if okv {
			r.Ok(p.fname(f))
		} else {
			r.Bad(p.fname(f)+"|query", "%s does not return the last node's answer (or false for an empty list)", p.fname(f))
		}
	}
	r.Min(1)

	r.Rule("viable-prefix", "on every path of the constructor's methods, an operator or closing parenthesis is appended only after an operand, and an operand or opening parenthesis only at the start, after an opening parenthesis, or after an operator")
	bad := map[string]string{}
	appends := map[ssa.Instruction]bool{}
	inPkg := func(f *ssa.Function) bool { return fnPkg(f) == p.pkg(filterPkg).Types }
	for _, f := range m.funcs {
		if f.Parent() != nil || f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != m.ctor || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		name := p.fname(f)
		mark := func(key, format string, args ...interface{}) {
			bad[name+"|"+key] = name + ": " + fmt.Sprintf(format, args...)
		}
		run := &tsRun[tail]{
			limit:  400000,
			inline: func(g *ssa.Function) bool { return inPkg(g) && g.Blocks != nil && !m.tailQueries()[g] },
			instr: func(fr *tsFrame, in ssa.Instruction, s tail) []tail {
				switch in := in.(type) {
				case *ssa.Store:
					if !m.isWhere(in.Addr) {
						return []tail{s}
					}
					appends[in] = true
					var out []tail
					for t := range m.listTails(in.Val, fr, map[tail]bool{s: true}, mark, 0) {
						out = append(out, t)
					}
					return out
				case *ssa.Call:
					if g := calleeOf(&in.Call); g == nil && !in.Call.IsInvoke() {
						if _, isB := in.Call.Value.(*ssa.Builtin); !isB {
							// a callback of the caller may use the constructor
							return []tail{tOpen, tOp, tClosed}
						}
					} else if g != nil && inPkg(g) && fr.active(g) {
						return []tail{tOpen, tOp, tClosed}
					}
				}
				return []tail{s}
			},
			edge: func(fr *tsFrame, c ssa.Value, taken bool, s tail) (tail, bool) {
				for {
					u, ok := c.(*ssa.UnOp)
					if !ok || u.Op != token.NOT {
						break
					}
					c, taken = u.X, !taken
				}
				if m.isTailQuery(c) {
					return s, (s == tClosed) == taken
				}
				return s, true
			},
		}
		for s := range allTails() {
			run.run(&tsFrame{fn: f}, s)
		}
		if run.over {
			mark("paths", "undecided: too many paths")
		}
		r.Ok(name)
	}
	for range appends {
		r.Ok("store of the list")
	}
	for _, k := range sortedKeys(bad) {
		r.Bad(k, "%s", bad[k])
	}
	r.Min(40)

	r.Rule("paren-balance", "on every path, each opening parenthesis appended around a nested group is followed by exactly one attempt to close it")
	closers := map[*ssa.Function]bool{}
	for _, f := range m.funcs {
		instrs(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && m.appendsKind(c, "rparen") {
				closers[f] = true
			}
		})
	}
	for _, f := range m.funcs {
		if f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != m.ctor {
			continue
		}
		hasNest := false
		for _, pa := range f.Params {
			if _, ok := pa.Type().Underlying().(*types.Signature); ok {
				hasNest = true
			}
		}
		if !hasNest {
			continue
		}
		type st struct {
			depth  int8
			nested bool
			bad    bool
		}
		run := &tsRun[st]{limit: 100000, inline: func(g *ssa.Function) bool { return inPkg(g) && g.Blocks != nil && !closers[g] && !m.tailQueries()[g] },
			instr: func(fr *tsFrame, in ssa.Instruction, s st) []st {
				c, ok := in.(*ssa.Call)
				if !ok {
					return []st{s}
				}
				if m.appendsKind(c, "lparen") {
					s.depth++
				}
				if g := calleeOf(&c.Call); m.appendsKind(c, "rparen") || g != nil && closers[g] {
					if !s.nested {
						s.bad = true
					}
					s.depth--
				}
				if v, _ := fr.resolve(c.Call.Value); !c.Call.IsInvoke() {
					if pa, ok := v.(*ssa.Parameter); ok && pa.Parent() == f {
						if s.depth != 1 || s.nested {
							s.bad = true
						}
						s.nested = true
					}
				}
				if s.depth > 3 || s.depth < -3 {
					return nil
				}
				return []st{s}
			}}
		name := p.fname(f)
		nest := false
		for s := range run.run(&tsFrame{fn: f}, st{}) {
			nest = nest || s.nested
			if s.depth != 0 || s.bad {
				r.Bad(name+"|balance", "%s can return with %d parentheses still open, or runs its argument outside of them", name, s.depth)
			}
		}
		if !nest {
			r.Bad(name+"|nest", "%s never runs its argument", name)
		}
		r.Ok(name)
	}
	r.Min(2)

	r.Rule("rendered-list", "the list that is rendered never ends in an operator")
	for _, f := range m.funcs {
		if f.Name() != "ToSQL" {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != m.render {
				return
			}
			list := elementOf(c.Call.Value)
			name := p.fname(f)
			if list == nil {
				r.Bad(name+"|element", "%s renders a node at %s that is not an element of the list", name, p.pos(c.Pos()))
				return
			}
			t := m.listTails(list, &tsFrame{fn: f}, allTails(), func(string, string, ...interface{}) {}, 0)
			if t[tOp] {
				r.Bad(name+"|dangling", "%s renders (at %s) a list that can end in an operator", name, p.pos(c.Pos()))
			} else {
				r.Ok(name)
			}
		})
	}
	// rendering through a helper
	if r.Obl["rendered-list"] == 0 {
		for _, f := range m.funcs {
			instrs(f, func(in ssa.Instruction) {
				c, ok := in.(*ssa.Call)
				if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != m.render || f.Signature.Recv() != nil && types.Implements(f.Signature.Recv().Type(), m.node) {
					return
				}
				list := elementOf(c.Call.Value)
				name := p.fname(f)
				if list == nil {
					r.Bad(name+"|element", "%s renders a node at %s that is not an element of the list", name, p.pos(c.Pos()))
					return
				}
				frames := []*tsFrame{{fn: f}}
				if _, isP := list.(*ssa.Parameter); isP {
					frames = nil
					for _, cs := range callersOf(f) {
						if call, ok := cs.(*ssa.Call); ok {
							frames = append(frames, &tsFrame{f, call, &tsFrame{fn: call.Parent()}})
						}
					}
				}
				for _, fr := range frames {
					t := m.listTails(list, fr, allTails(), func(string, string, ...interface{}) {}, 0)
					if t[tOp] {
						r.Bad(name+"|dangling", "%s renders (at %s) a list that can end in an operator", name, p.pos(c.Pos()))
					} else {
						r.Ok(name)
						r.Ok(name + " (as called)")
					}
				}
			})
		}
	}
	r.Min(2)

	r.Rule("no-empty-parens", "text between parentheses written by a predicate is never empty")
	for _, f := range m.funcs {
		if f.Name() != m.render {
			continue
		}
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue
		}
		name := p.fname(f)
		badAt := ""
		run := &tsRun[int8]{limit: 50000, inline: func(g *ssa.Function) bool { return inPkg(g) && g.Blocks != nil },
			instr: func(fr *tsFrame, in ssa.Instruction, s int8) []int8 {
				v, ok := m.textWrite(in)
				if !ok {
					return []int8{s}
				}
				txt, isC := constText(v)
				if !isC {
					return []int8{0}
				}
				if s != 0 && strings.HasPrefix(strings.TrimSpace(txt), ")") {
					badAt = p.pos(in.Pos())
				}
				if strings.HasSuffix(strings.TrimSpace(txt), "(") {
					return []int8{1}
				}
				return []int8{0}
			},
			// 1: just opened, 2: and the list is empty, 3: and the list is not empty
			edge: func(fr *tsFrame, c ssa.Value, taken bool, s int8) (int8, bool) {
				if s == 0 {
					return s, true
				}
				b, ok := c.(*ssa.BinOp)
				if !ok {
					return s, true
				}
				if _, hi, ok := counter(b.X); ok && b.Op == token.LSS && hi == b.Y && isLenCall(hi) {
					if s == 2 && taken || s == 3 && !taken {
						return s, false // the loop body runs at least once iff the list is not empty
					}
					return s, true
				}
				for _, x := range []ssa.Value{b.X, b.Y} {
					if !isLenCall(x) {
						continue
					}
					if gtConst(c, taken, x, 0) {
						return 3, s != 2
					}
					if gtConst(c, !taken, x, 0) {
						return 2, s != 3
					}
				}
				return s, true
			},
		}
		run.run(&tsFrame{fn: f}, 0)
		if badAt != "" {
			r.Bad(name+"|empty", "%s can write an empty pair of parentheses (closing at %s)", name, badAt)
		} else {
			r.Ok(name)
		}
	}
	r.Min(6)
}

func sortedNamed(m map[*types.Named]nodeKind) []*types.Named {
	by := map[string]*types.Named{}
	for n := range m {
		by[n.Obj().Name()] = n
	}
	var out []*types.Named
	for _, k := range sortedKeys(by) {
		out = append(out, by[k])
	}
	return out
}

func queryResult(v ssa.Value, method string, d int) bool {
	if d > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value != nil && v.Value.Kind() == constant.Bool && !constant.BoolVal(v.Value)
	case *ssa.Call:
		return v.Call.IsInvoke() && v.Call.Method.Name() == method
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !queryResult(e, method, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// elementOf: the list a value was read from by index.
func elementOf(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			return ia.X
		}
	}
	return nil
}

// appendsKind: c is an append of a node of the given kind.
func (m *filterModel) appendsKind(c *ssa.Call, kind string) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || !m.isNodeList(c.Type()) {
		return false
	}
	el, ok := varargElems(c.Call.Args[1])
	if !ok {
		return false
	}
	for _, e := range el {
		if mi, ok := e.(*ssa.MakeInterface); ok {
			if k, ok := m.kindOf(mi.X.Type()); ok && k.kind == kind {
				return true
			}
		}
	}
	return false
}

// ---- F04: what the inputs mean ---------------------------------------------

type builtNode struct {
	kind nodeKind
	typ  *types.Named
	text []string // constant string fields
	vals map[string]absVal
}

// built collects the nodes a specialised execution can append, and the calls
// it can make to exported constructor methods (with their arguments).
type built struct {
	nodes []builtNode
	calls map[string][][]absVal
	texts map[string]bool // constant strings concatenated to a clause
	bind  map[*ssa.Parameter][]builtNode
}

func (m *filterModel) collect(f *ssa.Function, args []absVal, force func(ssa.Value) (absVal, bool), out *built, depth int, enterExported bool) {
	s := runSCCPForced(f, args, nil, force, 3)
	for _, b := range f.Blocks {
		if !s.exec[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp:
				for _, x := range []ssa.Value{in.X, in.Y} {
					if a := s.get(x); a.k == aConst && a.c.Kind() == constant.String {
						out.texts[constant.StringVal(a.c)] = true
					}
				}
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" && m.isNodeList(in.Type()) && len(in.Call.Args) == 2 {
						if el, ok := varargElems(in.Call.Args[1]); ok {
							for _, e := range el {
								m.collectNode(s, e, out)
							}
						}
					}
					continue
				}
				g := calleeOf(&in.Call)
				if g == nil || fnPkg(g) != m.p.pkg(filterPkg).Types || g.Blocks == nil || depth <= 0 {
					continue
				}
				var av []absVal
				for _, a := range in.Call.Args {
					av = append(av, s.get(a))
				}
				if g.Object() != nil && g.Object().Exported() {
					out.calls[g.Name()] = append(out.calls[g.Name()], av)
					if !enterExported {
						continue
					}
				}
				for i, a := range in.Call.Args {
					if i < len(g.Params) && types.Identical(a.Type(), m.nodeT) {
						sub := newBuilt()
						sub.bind = out.bind
						m.collectNode(s, a, sub)
						out.bind[g.Params[i]] = sub.nodes
					}
				}
				m.collect(g, av, force, out, depth-1, enterExported)
			}
		}
	}
}

func (m *filterModel) collectNode(s *sccp, e ssa.Value, out *built) {
	if ph, ok := e.(*ssa.Phi); ok {
		for i, x := range ph.Edges {
			if s.edges[[2]*ssa.BasicBlock{ph.Block().Preds[i], ph.Block()}] {
				m.collectNode(s, x, out)
			}
		}
		return
	}
	if pa, ok := e.(*ssa.Parameter); ok && len(out.bind[pa]) > 0 {
		out.nodes = append(out.nodes, out.bind[pa]...)
		return
	}
	mi, ok := e.(*ssa.MakeInterface)
	if !ok {
		// a parameter: the caller's frame carries the abstract value only
		if a := s.get(e); a.dyn != nil {
			if k, ok := m.kindOf(a.dyn); ok {
				bn, _ := a.tag.(*builtNode)
				if bn == nil {
					bn = &builtNode{kind: k, typ: namedOf(a.dyn)}
				}
				out.nodes = append(out.nodes, *bn)
				return
			}
		}
		out.nodes = append(out.nodes, builtNode{kind: nodeKind{kind: "?"}})
		return
	}
	k, ok := m.kindOf(mi.X.Type())
	if !ok {
		out.nodes = append(out.nodes, builtNode{kind: nodeKind{kind: "?"}})
		return
	}
	bn := builtNode{kind: k, typ: namedOf(mi.X.Type()), vals: map[string]absVal{}}
	if fs, ok := structFields(mi.X); ok {
		for _, n := range sortedKeys(fs) {
			a := s.get(fs[n])
			bn.vals[n] = a
			if a.k == aConst && a.c.Kind() == constant.String {
				bn.text = append(bn.text, constant.StringVal(a.c))
			}
		}
	}
	out.nodes = append(out.nodes, bn)
}

func newBuilt() *built {
	return &built{calls: map[string][][]absVal{}, texts: map[string]bool{}, bind: map[*ssa.Parameter][]builtNode{}}
}

func (b *built) kindSet() map[string]int {
	out := map[string]int{}
	for _, n := range b.nodes {
		out[n.kind.kind]++
	}
	return out
}

func keysOf[V any](m map[string]V) string { return strings.Join(sortedKeys(m), ",") }

func ruleFilterMeaning(p *Prog, r *Report) {
	m := newFilterModel(p)
	top := absVal{k: aTop}
	nn := absVal{k: aNonNil}
	str := func(s string) absVal { return absVal{k: aConst, c: constant.MakeString(s)} }

	r.Rule("null-and-bool", "comparing a column to nil, true or false with = or <> becomes IS [NOT] NULL, TRUE or FALSE, and any other operator keeps the operator and the value")
	col := p.mustFn(filterPkg, "Constructor.Col")
	boolT := types.Typ[types.Bool]
	vals := []struct {
		name string
		v    absVal
		word string
	}{
		{"nil", absVal{k: aNil}, "NULL"},
		{"true", absVal{k: aNonNil, dyn: boolT, c: constant.MakeBool(true)}, "TRUE"},
		{"false", absVal{k: aNonNil, dyn: boolT, c: constant.MakeBool(false)}, "FALSE"},
		{"a number", absVal{k: aNonNil, dyn: types.Typ[types.Int64], tag: "value"}, ""},
	}
	for _, v := range vals {
		for _, op := range []string{"=", "<>", ">", "<", ">=", "<=", "~"} {
			b := newBuilt()
			val := v.v
			val.tag = "value"
			m.collect(col, []absVal{nn, {k: aTop, tag: "column"}, str(op), val}, nil, b, 4, true)
			key := fmt.Sprintf("Col(%s %s)", op, v.name)
			var ops []builtNode
			for _, n := range b.nodes {
				if n.kind.kind == "operand" || n.kind.kind == "?" {
					ops = append(ops, n)
				}
			}
			ks := b.kindSet()
			if len(ops) != 1 || ks["or"]+ks["lparen"]+ks["rparen"] > 0 {
				r.Bad(key+"|nodes", "%s appends %d predicates (kinds %s), expected exactly one, joined by AND", key, len(ops), keysOf(ks))
				continue
			}
			n := ops[0]
			hasCol := false
			var value, opv *absVal
			for _, f := range sortedKeys(n.vals) {
				a := n.vals[f]
				if a.tag == "column" {
					hasCol = true
				}
				if a.tag == "value" || a.k == aNil && v.name == "nil" {
					x := a
					value = &x
				}
				if a.k == aConst && a.c.Kind() == constant.String && constant.StringVal(a.c) == op {
					x := a
					opv = &x
				}
			}
			if !hasCol {
				r.Bad(key+"|column", "%s: the predicate does not use the given column", key)
				continue
			}
			if v.word != "" && (op == "=" || op == "<>") {
				want := "IS " + v.word
				if op == "<>" {
					want = "IS NOT " + v.word
				}
				if got := strings.Join(n.text, " "); got != want {
					r.Bad(key+"|text", "%s becomes %q, expected %q", key, got, want)
					continue
				}
			} else if opv == nil || value == nil {
				r.Bad(key+"|operands", "%s does not keep the given operator and value", key)
				continue
			}
			r.Ok(key)
		}
	}
	r.Min(28)

	r.Rule("list-predicates", "IN and ANY with each supported list type append one predicate for the given column and list")
	lists := 0
	for _, op := range []string{"IN", "in", "ANY", "any"} {
		for _, el := range []types.Type{types.Typ[types.Int64], types.Typ[types.Int], types.Typ[types.Int16], types.Typ[types.String]} {
			b := newBuilt()
			t := types.NewSlice(el)
			m.collect(col, []absVal{nn, {k: aTop, tag: "column"}, str(op), {k: aNonNil, dyn: t, tag: "value"}}, nil, b, 4, true)
			key := fmt.Sprintf("Col(%s %s)", op, t)
			var ops []builtNode
			for _, n := range b.nodes {
				if n.kind.kind == "operand" || n.kind.kind == "?" {
					ops = append(ops, n)
				}
			}
			if len(ops) != 1 {
				r.Bad(key+"|nodes", "%s appends %d predicates, expected exactly one", key, len(ops))
				continue
			}
			hasCol := false
			for _, a := range ops[0].vals {
				if a.tag == "column" {
					hasCol = true
				}
			}
			w := strings.ToUpper(strings.Join(ops[0].kind.text, " "))
			if !hasCol || !strings.Contains(w, strings.ToUpper(op)) || strings.Contains(w, "ANY") != (strings.ToUpper(op) == "ANY") {
				r.Bad(key+"|text", "%s does not become a predicate of that kind on the given column (text %q)", key, w)
				continue
			}
			lists++
			r.Ok(key)
		}
	}
	r.Min(16)

	r.Rule("any-cast", "the array given to = ANY is cast to the array type of the converter that produced it")
	for _, f := range m.funcs {
		instrs(f, func(in ssa.Instruction) {
			mi, ok := in.(*ssa.MakeInterface)
			if !ok || !types.Identical(mi.Type(), m.nodeT) {
				return
			}
			for once := true; once; once = false {
				fs, ok := structFields(mi.X)
				if !ok {
					continue
				}
				cast, conv := "", ""
				for _, v := range fs {
					if s, ok := constString(v); ok && strings.HasPrefix(s, "::") {
						cast = s
					}
					for x := v; x != nil; {
						switch y := x.(type) {
						case *ssa.MakeInterface:
							x = y.X
						case *ssa.ChangeInterface:
							x = y.X
						case *ssa.Call:
							if g := y.Call.StaticCallee(); g != nil {
								if i := strings.Index(g.Name(), "From"); i > 0 {
									conv = ctorPGType(g.Name()[:i])
								}
							}
							x = nil
						default:
							x = nil
						}
					}
				}
				if cast == "" && conv == "" {
					continue
				}
				want := "::" + strings.TrimPrefix(conv, "_") + "[]"
				if cast != want {
					r.Bad(p.fname(f)+"|cast", "%s casts the array to %q but converts it to %s", p.fname(f), cast, conv)
				} else {
					r.Ok(p.fname(f) + " " + cast)
				}
			}
		})
	}
	r.Min(4)

	r.Rule("and-or", "And joins with AND and Or with OR")
	for name, want := range map[string]string{"And": "and", "Or": "or"} {
		f := p.mustFn(filterPkg, "Constructor."+name)
		b := newBuilt()
		m.collect(f, []absVal{nn, nn}, nil, b, 4, true)
		ks := b.kindSet()
		other := map[string]string{"and": "or", "or": "and"}[want]
		if ks[want] != 1 || ks[other] != 0 || ks["lparen"] != 1 || ks["rparen"] == 0 || ks["operand"]+ks["?"] > 0 {
			r.Bad(name+"|nodes", "%s appends nodes of kinds %s", name, keysOf(ks))
		} else {
			r.Ok(name)
		}
	}

	r.Rule("fql-tokens", "every FQL token is given its meaning: ( and ) group, ; is AND, the comma is OR, and a rule becomes a predicate on the mapped column with the rule's operator and converted value")
	uf := p.mustFn(filterPkg, "Constructor.UnmarshalFQL")
	tokens := map[string]int64{}
	fql := p.Pkgs["github.com/frk/fql"]
	if fql == nil {
		fail("package github.com/frk/fql not loaded")
	}
	for _, n := range []string{"LPAREN", "RPAREN", "AND", "OR", "RULE"} {
		c, ok := fql.Types.Scope().Lookup(n).(*types.Const)
		if !ok {
			fail("fql.%s not found", n)
		}
		v, _ := constant.Int64Val(c.Val())
		tokens[n] = v
	}
	tokenType := fql.Types.Scope().Lookup("LPAREN").Type()
	isTok := func(v ssa.Value) bool {
		ex, ok := v.(*ssa.Extract)
		return ok && types.Identical(ex.Type(), tokenType)
	}
	isTokErr := func(v ssa.Value) bool {
		ex, ok := v.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			return false
		}
		tu, ok := ex.Tuple.Type().(*types.Tuple)
		return ok && tu.Len() == 2 && types.Identical(tu.At(0).Type(), tokenType)
	}
	found := false
	seenTok := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seenTok[f] {
			return
		}
		seenTok[f] = true
		instrs(f, func(in ssa.Instruction) {
			if v, ok := in.(ssa.Value); ok && isTok(v) {
				found = true
			}
			if c, ok := in.(*ssa.Call); ok {
				if g := calleeOf(&c.Call); g != nil && fnPkg(g) == p.pkg(filterPkg).Types {
					visit(g)
				}
			}
		})
	}
	visit(uf)
	if !found {
		fail("the FQL tokenizer loop was not found")
	}
	tokBuilt := func(tok int64, extra func(ssa.Value) (absVal, bool)) *built {
		b := newBuilt()
		m.collect(uf, []absVal{nn, top}, func(v ssa.Value) (absVal, bool) {
			if isTok(v) {
				return absVal{k: aConst, c: constant.MakeInt64(tok)}, true
			}
			if isTokErr(v) {
				return absVal{k: aNil}, true
			}
			if extra != nil {
				return extra(v)
			}
			return absVal{}, false
		}, b, 4, false)
		return b
	}
	expect := map[string][2]string{ // required, allowed
		"LPAREN": {"lparen", "and"},
		"RPAREN": {"rparen", ""},
		"AND":    {"and", ""},
		"OR":     {"or", ""},
	}
	for _, n := range sortedKeys(expect) {
		b := tokBuilt(tokens[n], nil)
		ks := b.kindSet()
		okv := ks[expect[n][0]] == 1
		for k := range ks {
			if k != expect[n][0] && k != expect[n][1] {
				okv = false
			}
		}
		if len(b.calls) > 0 || !okv {
			r.Bad("token "+n, "the FQL token %s appends nodes of kinds %s and calls %s", n, keysOf(ks), keysOf(b.calls))
		} else {
			r.Ok("token " + n)
		}
	}
	// RULE: the comparison operator and the value
	isField := func(v ssa.Value, typ, name string) bool {
		u, ok := v.(*ssa.UnOp)
		if ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				return strings.HasSuffix(fieldKey(fa.X.Type(), fa.Field), typ+"."+name)
			}
		}
		if f, ok := v.(*ssa.Field); ok {
			return strings.HasSuffix(fieldKey(f.X.Type(), f.Field), typ+"."+name)
		}
		return false
	}
	cmpT := fql.Types.Scope().Lookup("CmpOp").Type()
	opOf := map[string]string{"CmpEq": "=", "CmpNe": "<>", "CmpGt": ">", "CmpLt": "<", "CmpGe": ">=", "CmpLe": "<="}
	ncmp := 0
	for _, n := range fql.Types.Scope().Names() {
		c, ok := fql.Types.Scope().Lookup(n).(*types.Const)
		if !ok || !types.Identical(c.Type(), cmpT) || !c.Exported() {
			continue
		}
		ncmp++
		want, known := opOf[n]
		got := map[string]bool{}
		b := tokBuilt(tokens["RULE"], func(v ssa.Value) (absVal, bool) {
			if isField(v, "fql.Rule", "Cmp") {
				return absVal{k: aConst, c: c.Val()}, true
			}
			// a table from comparison to operator
			if lk, ok := v.(*ssa.Lookup); ok {
				if mt, ok := lk.X.Type().Underlying().(*types.Map); ok && types.Identical(mt.Key(), cmpT) {
					for _, mu := range globalUpdates(p, lk.X) {
						if k, ok := constInt(mu.Key); ok && isField(lk.Index, "fql.Rule", "Cmp") {
							if cv, _ := constant.Int64Val(c.Val()); cv == k {
								if s, ok := constString(mu.Value); ok {
									got[s] = true
									if lk.CommaOk {
										return absVal{k: aTuple, tup: []absVal{str(s), boolAbs(true)}}, true
									}
									return str(s), true
								}
							}
						}
					}
				}
			}
			return absVal{}, false
		})
		calls := b.calls["Col"]
		if !known {
			r.Bad("cmp "+n, "the FQL comparison %s is not known to the rule", n)
			continue
		}
		if len(calls) == 0 {
			r.Bad("rule "+n, "an FQL rule reaches no predicate")
			continue
		}
		for _, a := range calls {
			if len(a) != 4 || a[2].k != aConst || constant.StringVal(a[2].c) != want {
				r.Bad("cmp "+n, "the FQL comparison %s is not turned into %q", n, want)
			} else {
				r.Ok("cmp " + n)
			}
		}
	}
	if ncmp != len(opOf) {
		r.Bad("cmp|count", "package fql declares %d comparisons, expected %d", ncmp, len(opOf))
	}
	// value: null becomes nil, anything else is passed on, and the converter's result is used
	nullT := types.Type(nil)
	if c, ok := fql.Types.Scope().Lookup("Null").(*types.Const); ok {
		nullT = c.Type()
	}
	convCall := func(v ssa.Value) bool {
		ex, ok := v.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			return false
		}
		c, ok := ex.Tuple.(*ssa.Call)
		return ok && isField(c.Call.Value, "filter.Column", "ConvertValue")
	}
	convErr := func(v ssa.Value) bool {
		ex, ok := v.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			return false
		}
		c, ok := ex.Tuple.(*ssa.Call)
		return ok && isField(c.Call.Value, "filter.Column", "ConvertValue")
	}
	cases := []struct {
		name string
		val  absVal
		conv bool
		ok   func(a absVal) bool
	}{
		{"null without converter", absVal{k: aNonNil, dyn: nullT, c: constant.MakeBool(true), tag: "null"}, false, func(a absVal) bool { return a.k == aNil }},
		{"value without converter", absVal{k: aNonNil, dyn: types.Typ[types.String], tag: "rule value"}, false, func(a absVal) bool { return a.tag == "rule value" }},
		{"null with converter", absVal{k: aNonNil, dyn: nullT, c: constant.MakeBool(true), tag: "null"}, true, func(a absVal) bool { return a.tag == "converted" }},
		{"value with converter", absVal{k: aNonNil, dyn: types.Typ[types.String], tag: "rule value"}, true, func(a absVal) bool { return a.tag == "converted" }},
	}
	for _, cs := range cases {
		cs := cs
		b := tokBuilt(tokens["RULE"], func(v ssa.Value) (absVal, bool) {
			switch {
			case isField(v, "fql.Rule", "Val"):
				return cs.val, true
			case isField(v, "filter.Column", "ConvertValue"):
				if cs.conv {
					return absVal{k: aNonNil}, true
				}
				return absVal{k: aNil}, true
			case isField(v, "filter.Column", "Name"):
				return absVal{k: aTop, tag: "column"}, true
			case convCall(v):
				return absVal{k: aNonNil, tag: "converted"}, true
			case convErr(v):
				return absVal{k: aNil}, true
			}
			return absVal{}, false
		})
		if len(b.calls["Col"]) == 0 {
			r.Bad("value "+cs.name, "an FQL rule reaches no predicate")
		}
		for _, a := range b.calls["Col"] {
			if a[1].tag != "column" {
				r.Bad("value "+cs.name+"|column", "an FQL rule's predicate is not on the mapped column")
			} else if !cs.ok(a[3]) {
				r.Bad("value "+cs.name, "an FQL rule with a %s does not pass the right value to the predicate", cs.name)
			} else {
				r.Ok("value " + cs.name)
			}
		}
	}
	r.Min(14)

	r.Rule("sort-flags", "descending and nulls-first requests select DESC / ASC and NULLS FIRST / LAST; a leading hyphen means descending; the column's own nullability is used")
	for _, fn := range []string{"OrderBy", "OrderByV2"} {
		f := p.mustFn(filterPkg, "Constructor."+fn)
		names := map[string]int{}
		for i, pa := range f.Params {
			names[pa.Name()] = i
		}
		for c := 0; c < 8; c++ {
			desc, nullable, first := c&1 == 1, c&2 == 2, c&4 == 4
			if _, has := names["nullable"]; !has && nullable {
				continue
			} else if !has {
				nullable = true
			}
			args := make([]absVal, len(f.Params))
			for i := range args {
				args[i] = top
			}
			set := func(n string, b bool) {
				i, ok := names[n]
				if !ok {
					if n != "nullable" {
						fail("%s has no parameter %s", fn, n)
					}
					return
				}
				args[i] = boolAbs(b)
			}
			set("desc", desc)
			set("nullable", nullable)
			set("nullsfirst", first)
			b := newBuilt()
			m.collect(f, args, nil, b, 3, true)
			all := strings.Join(sortedKeys(b.texts), "|")
			has := func(w string) bool { return strings.Contains(all, w) }
			okv := has(" DESC") == desc && has(" ASC") == !desc && has("NULLS FIRST") == (first && nullable) && has("NULLS LAST") == (!first && nullable)
			key := fmt.Sprintf("%s(desc=%v,nullable=%v,nullsfirst=%v)", fn, desc, nullable, first)
			if okv {
				r.Ok(key)
			} else {
				r.Bad(key, "%s appends %q", key, all)
			}
		}
	}
	us := p.mustFn(filterPkg, "Constructor.UnmarshalSort")
	nsort := 0
	var scan func(f *ssa.Function, depth int)
	scan = func(f *ssa.Function, depth int) {
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			g := calleeOf(&c.Call)
			if g == nil || fnPkg(g) != p.pkg(filterPkg).Types {
				return
			}
			if !strings.HasPrefix(g.Name(), "OrderBy") {
				if depth > 0 && g != f {
					scan(g, depth-1)
				}
				return
			}
			nsort++
			for i, pa := range g.Params {
				if i >= len(c.Call.Args) {
					continue
				}
				a := c.Call.Args[i]
				switch pa.Name() {
				case "desc":
					if !hyphenTest(a, 0) {
						r.Bad("UnmarshalSort|desc", "UnmarshalSort passes a direction at %s that is not the test for a leading hyphen", p.pos(c.Pos()))
					} else {
						r.Ok("UnmarshalSort desc")
					}
				case "nullable":
					if !isField(a, "filter.Column", "IsNULLable") {
						r.Bad("UnmarshalSort|nullable", "UnmarshalSort does not pass the column's nullability at %s", p.pos(c.Pos()))
					} else {
						r.Ok("UnmarshalSort nullable")
					}
				case "column":
					if !isField(a, "filter.Column", "Name") {
						r.Bad("UnmarshalSort|column", "UnmarshalSort sorts by something other than the mapped column at %s", p.pos(c.Pos()))
					} else {
						r.Ok("UnmarshalSort column")
					}
				}
			}
		})
	}
	scan(us, 2)
	if nsort == 0 {
		r.Bad("UnmarshalSort|none", "UnmarshalSort adds nothing to the ORDER BY clause")
	}
	r.Min(12)
}

// hyphenTest: the value is a test for a '-' character (or a phi / negation-free copy of one).
func hyphenTest(v ssa.Value, d int) bool {
	if d > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		return v.Op == token.EQL && (isConstInt(v.Y, '-') || isConstInt(v.X, '-'))
	case *ssa.Call:
		if g := v.Call.StaticCallee(); g != nil && g.String() == "strings.HasPrefix" {
			s, ok := constString(v.Call.Args[1])
			return ok && s == "-"
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && g.String() == "strings.CutPrefix" {
				s, ok := constString(c.Call.Args[1])
				return ok && s == "-"
			}
		}
	case *ssa.Phi:
		// short-circuit: false or the test
		any := false
		for i, e := range v.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
				if !constant.BoolVal(c.Value) {
					continue
				}
				// true only on the edge where the test held
				pb := v.Block().Preds[i]
				held := guardedBy(pb, func(c ssa.Value, taken bool) bool { return taken && hyphenTest(c, d+1) })
				if br, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If); ok && pb.Succs[0] == v.Block() && hyphenTest(br.Cond, d+1) {
					held = true
				}
				if !held {
					return false
				}
				any = true
				continue
			}
			if !hyphenTest(e, d+1) {
				return false
			}
			any = true
		}
		return any
	}
	return false
}

// globalUpdates lists the entries of a package-level map read by v.
func globalUpdates(p *Prog, v ssa.Value) []*ssa.MapUpdate {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return nil
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(g.Pkg.Pkg.Path(), modPath), "/")
	return globalMap(p, rel, g.Name())
}

// ---- F05 -------------------------------------------------------------------

type strictState struct {
	unknown bool
	at      *ssa.Lookup         // the lookup that failed
	call    ssa.CallInstruction // the last helper that returned an error value
	ret     int8                // 1 nil, 2 non-nil
	strict  int8                // 0 not consulted, 1 strict, 2 lenient
}

func ruleFilterStrict(p *Prog, r *Report) {
	m := newFilterModel(p)
	inPkg := func(f *ssa.Function) bool { return fnPkg(f) == p.pkg(filterPkg).Types }
	isColmap := func(v ssa.Value) bool {
		mt, ok := v.Type().Underlying().(*types.Map)
		return ok && strings.HasSuffix(types.TypeString(mt.Elem(), nil), "filter.Column")
	}
	isStrict := func(v ssa.Value) bool {
		return loadOf(v, func(a ssa.Value) bool {
			fa, ok := a.(*ssa.FieldAddr)
			if !ok {
				return false
			}
			b, isB := fa.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Basic)
			return isB && b.Kind() == types.Bool && namedOf(fa.X.Type()) == m.ctor
		})
	}
	r.Rule("unknown-key", "a key that is not in the column map adds nothing to the filter, and in strict mode makes the method return an error")
	lookups := map[ssa.Instruction]bool{}
	for _, f := range m.funcs {
		if f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != m.ctor {
			continue
		}
		name := p.fname(f)
		bad := map[string]string{}
		n0 := len(lookups)
		// the blocks of a lookup and of the calls through which it is reached
		sites := map[ssa.Instruction][]*ssa.BasicBlock{}
		again := func(in ssa.Instruction, lk *ssa.Lookup) bool {
			for _, b := range sites[lk] {
				if b != in.Block() && b.Parent() == in.Parent() && in.Block().Dominates(b) {
					return true
				}
			}
			return false
		}
		run := &tsRun[strictState]{limit: 300000,
			inline: func(g *ssa.Function) bool {
				return inPkg(g) && g.Blocks != nil && (g.Object() == nil || !g.Object().Exported())
			},
			instr: func(fr *tsFrame, in ssa.Instruction, s strictState) []strictState {
				if s.unknown && again(in, s.at) {
					// the next key
					if s.strict != 2 {
						bad["continues"] = fmt.Sprintf("%s goes on (at %s) after an unknown key without reporting it in strict mode", name, p.pos(s.at.Pos()))
					}
					s.unknown, s.at = false, nil
				}
				switch in := in.(type) {
				case *ssa.Lookup:
					if !isColmap(in.X) {
						break
					}
					lookups[in] = true
					sites[in] = []*ssa.BasicBlock{in.Block()}
					for f := fr; f != nil && f.up != nil; f = f.up {
						sites[in] = append(sites[in], f.call.Block())
					}
					if s.unknown && s.strict != 2 {
						bad["continues"] = fmt.Sprintf("%s goes on (at %s) after an unknown key without reporting it in strict mode", name, p.pos(in.Pos()))
					}
					s.unknown = false
					if !in.CommaOk {
						bad["presence"] = fmt.Sprintf("%s does not test whether the key is in the column map (%s)", name, p.pos(in.Pos()))
					}
				case *ssa.Call:
					if !s.unknown {
						break
					}
					if g := calleeOf(&in.Call); g != nil && inPkg(g) && g.Object() != nil && g.Object().Exported() && namedOf(recvType(g)) == m.ctor {
						bad["uses"] = fmt.Sprintf("%s adds to the filter (at %s) for a key that is not in the column map", name, p.pos(in.Pos()))
					}
					if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && m.isNodeList(in.Type()) {
						bad["uses"] = fmt.Sprintf("%s appends to the filter (at %s) for a key that is not in the column map", name, p.pos(in.Pos()))
					}
				case *ssa.Return:
					res := in.Results
					if fr.up != nil && len(res) > 0 && isErrorType(res[len(res)-1].Type()) {
						s.call, s.ret = fr.call, 0
						if last := res[len(res)-1]; nonNilError(last) {
							s.ret = 2
						} else if c, isC := last.(*ssa.Const); isC && c.IsNil() {
							s.ret = 1
						}
					}
					if s.unknown && s.strict != 2 && fr.up == nil {
						if len(res) == 0 || !nonNilError(res[len(res)-1]) && !(s.ret == 2 && errOfCall(res[len(res)-1], s.call)) {
							bad["return"] = fmt.Sprintf("%s returns (at %s) without an error for an unknown key in strict mode", name, p.pos(in.Pos()))
						}
					}
				}
				return []strictState{s}
			},
			edge: func(fr *tsFrame, c ssa.Value, taken bool, s strictState) (strictState, bool) {
				for {
					u, ok := c.(*ssa.UnOp)
					if !ok || u.Op != token.NOT {
						break
					}
					c, taken = u.X, !taken
				}
				if ex, ok := c.(*ssa.Extract); ok && ex.Index == 1 {
					if lk, ok := ex.Tuple.(*ssa.Lookup); ok && isColmap(lk.X) {
						s.unknown, s.at = !taken, lk
					}
				}
				if b, ok := c.(*ssa.BinOp); ok && s.ret != 0 && (b.Op == token.NEQ || b.Op == token.EQL) {
					x, y := b.X, b.Y
					if k, isC := x.(*ssa.Const); isC && k.IsNil() {
						x, y = y, x
					}
					if k, isC := y.(*ssa.Const); isC && k.IsNil() && errOfCall(x, s.call) {
						failed := (b.Op == token.NEQ) == taken
						if failed != (s.ret == 2) {
							return s, false
						}
					}
				}
				if isStrict(c) {
					want := int8(2)
					if taken {
						want = 1
					}
					if s.strict != 0 && s.strict != want {
						return s, false
					}
					s.strict = want
				}
				return s, true
			},
		}
		run.run(&tsFrame{fn: f}, strictState{})
		if len(lookups) == n0 {
			continue
		}
		if run.over {
			bad["paths"] = "undecided: too many paths in " + name
		}
		for _, k := range sortedKeys(bad) {
			r.Bad(name+"|"+k, "%s", bad[k])
		}
		r.Ok(name)
	}
	r.Min(2)

	r.Rule("keys-only", "columns used for filtering or sorting by key come only from the column map")
	for _, fn := range []string{"UnmarshalFQL", "UnmarshalSort"} {
		f := p.mustFn(filterPkg, "Constructor."+fn)
		seen := map[*ssa.Function]bool{}
		var scan func(g *ssa.Function)
		scan = func(g *ssa.Function) {
			if seen[g] {
				return
			}
			seen[g] = true
			instrs(g, func(in ssa.Instruction) {
				c, ok := in.(*ssa.Call)
				if !ok {
					return
				}
				h := calleeOf(&c.Call)
				if h == nil || !inPkg(h) {
					return
				}
				if h.Object() == nil || !h.Object().Exported() {
					scan(h)
					return
				}
				if namedOf(recvType(h)) != m.ctor || len(c.Call.Args) < 3 {
					return
				}
				if fromColumnName(c.Call.Args[1]) {
					r.Ok(fn + " -> " + h.Name())
				} else {
					r.Bad(fn+"|column", "%s passes a column to %s at %s that does not come from the column map", fn, h.Name(), p.pos(c.Pos()))
				}
			})
		}
		scan(f)
	}
	r.Min(2)

	r.Rule("map-read-only", "the column map handed to the constructor is never modified")
	for _, f := range m.funcs {
		instrs(f, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				fresh := freshMap(in.Map, 0)
				if fresh {
					r.Ok(p.fname(f))
				} else {
					r.Bad(p.fname(f)+"|update", "%s modifies, at %s, a map it did not create", p.fname(f), p.pos(in.Pos()))
				}
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
					r.Bad(p.fname(f)+"|delete", "%s deletes from a map at %s", p.fname(f), p.pos(in.Pos()))
				}
			}
		})
	}
	r.Min(1)

	r.Rule("errors", "an error from the tokenizer (other than the end of the input) or from a column's converter ends the method with that error")
	for _, f := range m.funcs {
		if f.Signature.Recv() == nil || namedOf(recvType(f)) != m.ctor {
			continue
		}
		checkErrors(p, r, f, map[string]bool{"fql.EOF": true, "io.EOF": true})
	}
	r.Min(2)
}

func recvType(f *ssa.Function) types.Type {
	if f.Signature.Recv() == nil {
		return types.Typ[types.Invalid]
	}
	return f.Signature.Recv().Type()
}

func fromColumnName(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			return strings.HasSuffix(fieldKey(fa.X.Type(), fa.Field), "filter.Column.Name")
		}
	case *ssa.Field:
		return strings.HasSuffix(fieldKey(v.X.Type(), v.Field), "filter.Column.Name")
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !fromColumnName(e) {
				return false
			}
		}
		return true
	}
	return false
}

func freshMap(v ssa.Value, d int) bool {
	if d > 5 {
		return false
	}
	switch v := v.(type) {
	case *ssa.MakeMap:
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !freshMap(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		// a field into which this very function stored a fresh map before
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			found := false
			instrs(v.Parent(), func(in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok && sameExpr(st.Addr, fa, 0) && freshMap(st.Val, d+1) && st.Block().Dominates(v.Block()) {
					found = true
				}
			})
			return found
		}
		if g, ok := v.X.(*ssa.Global); ok && v.Parent().Name() == "init" {
			_ = g
			return true
		}
	}
	return false
}

// nonNilError: the error value is certainly not nil.
// errOfCall: v is the error result of the call.
func errOfCall(v ssa.Value, call ssa.CallInstruction) bool {
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	c, ok := v.(*ssa.Call)
	return ok && call != nil && ssa.CallInstruction(c) == call
}

func nonNilError(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		if g := v.Call.StaticCallee(); g != nil {
			return g.String() == "fmt.Errorf" || g.String() == "errors.New"
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !nonNilError(e) {
				return false
			}
		}
		return true
	}
	return false
}
