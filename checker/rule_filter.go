package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const filterPkg = "filter"

func init() {
	register("F01", "other", "Typestate over every path of the filter package: reads of the ordinal table, appends to the parameter list and increments of the position advance in lockstep, the position starts at the caller's, and the ordinal helpers of the root package are exact.", ruleFilterLockstep)
	register("F02", "other", "Field-based interprocedural taint analysis from the untrusted inputs of the filter constructor (FQL text, sort text, values, search text) to the SQL text it writes.", ruleFilterInjection)
	register("F03", "other", "Typestate of the tail of the predicate list over every path of the constructor's methods (operand, operator, open), with node kinds read from their own code.", ruleFilterGrammar)
	register("F04", "other", "Constructor inputs specialised by constant propagation (token, operator, nil/true/false, sort flags) and the predicates reached compared with their meaning.", ruleFilterMeaning)
	register("F05", "other", "Path rule over column-map lookups and error values in the constructor.", ruleFilterStrict)
	register("F06", "other", "Effect analysis of the rendering methods (no write through the receiver), typestate of the clause order and provenance of the clause arguments.", ruleFilterRender)
}

// ---- anchors ---------------------------------------------------------------

type filterModel struct {
	p       *Prog
	funcs   []*ssa.Function
	node    *types.Interface // sqlNode
	nodeT   types.Type
	query   string // name of the bool method
	render  string // name of the writing method
	writer  *types.Named
	kinds   map[*types.Named]nodeKind
	ctor    *types.Named
	whereIs func(v ssa.Value) bool
}

type nodeKind struct {
	kind string // and, or, lparen, rparen, operand
	can  bool
	text []string
}

// newFilterModel finds the node interface by shape: an unexported interface
// with one bool query and one method taking the writer.
func newFilterModel(p *Prog) *filterModel {
	m := &filterModel{p: p, funcs: p.funcsIn(filterPkg), kinds: map[*types.Named]nodeKind{}}
	scope := p.pkg(filterPkg).Types.Scope()
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		it, ok := tn.Type().Underlying().(*types.Interface)
		if !ok || it.NumMethods() != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			s := it.Method(i).Type().(*types.Signature)
			switch {
			case s.Params().Len() == 0 && s.Results().Len() == 1 && types.Identical(s.Results().At(0).Type(), types.Typ[types.Bool]):
				m.query = it.Method(i).Name()
			case s.Params().Len() == 1 && s.Results().Len() == 0:
				if pt, ok := s.Params().At(0).Type().(*types.Pointer); ok {
					m.render = it.Method(i).Name()
					m.writer, _ = pt.Elem().(*types.Named)
				}
			}
		}
		if m.query != "" && m.render != "" && m.writer != nil {
			m.node, m.nodeT = it, tn.Type()
			break
		}
	}
	if m.node == nil {
		fail("the predicate node interface of package filter was not found")
	}
	obj, _ := scope.Lookup("Constructor").(*types.TypeName)
	if obj == nil {
		fail("filter.Constructor not found")
	}
	m.ctor = obj.Type().(*types.Named)
	// kinds, from the bodies of the two methods
	byType := map[*types.Named][2]*ssa.Function{}
	for _, f := range m.funcs {
		if f.Signature.Recv() == nil || f.Synthetic != "" && f.Origin() == nil {
			continue
		}
		n := namedOf(f.Signature.Recv().Type())
		if n == nil || !types.Implements(n, m.node) && !types.Implements(types.NewPointer(n), m.node) {
			continue
		}
		n = n.Origin()
		e := byType[n]
		switch baseName(f) {
		case m.query:
			e[0] = f
		case m.render:
			e[1] = f
		}
		byType[n] = e
	}
	for n, fs := range byType {
		if fs[0] == nil || fs[1] == nil {
			continue
		}
		k := nodeKind{}
		can, ok := constResult(fs[0])
		if !ok {
			fail("%s.%s does not return a constant", n.Obj().Name(), m.query)
		}
		k.can = can
		other := false
		instrs(fs[1], func(in ssa.Instruction) {
			if s, ok := m.textWrite(in); ok {
				if c, isc := constText(s); isc {
					k.text = append(k.text, c)
				} else {
					other = true
				}
			} else if c, isc := in.(*ssa.Call); isc && m.textCall(c) {
				other = true
			}
		})
		switch t := strings.TrimSpace(strings.Join(k.text, "")); {
		case other:
			k.kind = "operand"
		case strings.EqualFold(t, "AND"):
			k.kind = "and"
		case strings.EqualFold(t, "OR"):
			k.kind = "or"
		case t == "(":
			k.kind = "lparen"
		case t == ")":
			k.kind = "rparen"
		default:
			k.kind = "operand"
		}
		m.kinds[n] = k
	}
	return m
}

func namedOf(t types.Type) *types.Named {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func constResult(f *ssa.Function) (bool, bool) {
	var val, ok bool
	n := 0
	instrs(f, func(in ssa.Instruction) {
		if r, isr := in.(*ssa.Return); isr && len(r.Results) == 1 {
			n++
			if c, isc := r.Results[0].(*ssa.Const); isc && c.Value != nil && c.Value.Kind() == constant.Bool {
				val, ok = constant.BoolVal(c.Value), true
			} else {
				ok = false
			}
		}
	})
	return val, ok && n == 1
}

// constText renders a constant string or byte.
func constText(v ssa.Value) (string, bool) {
	if s, ok := constString(v); ok {
		return s, true
	}
	if n, ok := constInt(v); ok {
		return string(rune(n)), true
	}
	return "", false
}

// textWrite recognises a write of text to a strings.Builder (embedded in the
// writer or not) and returns the text written.
func (m *filterModel) textWrite(in ssa.Instruction) (ssa.Value, bool) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return nil, false
	}
	g := c.Call.StaticCallee()
	if g == nil || len(c.Call.Args) != 2 {
		return nil, false
	}
	switch g.String() {
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*strings.Builder).Write":
		return c.Call.Args[1], true
	}
	// promoted wrappers
	if r := g.Signature.Recv(); r != nil && m.writer != nil && namedOf(r.Type()) == m.writer && g.Blocks == nil {
		return c.Call.Args[1], true
	}
	return nil, false
}

func (m *filterModel) textCall(c *ssa.Call) bool {
	g := c.Call.StaticCallee()
	return g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "fmt" && strings.HasPrefix(g.Name(), "Fprint")
}

// ---- F01 -------------------------------------------------------------------

// writerFields returns the indices of the position (int) and the parameter
// list ([]interface{}) in the writer.
func (m *filterModel) writerFields() (pos, params int) {
	st := m.writer.Underlying().(*types.Struct)
	pos, params = -1, -1
	for i := 0; i < st.NumFields(); i++ {
		switch t := st.Field(i).Type().Underlying().(type) {
		case *types.Basic:
			if t.Info()&types.IsInteger != 0 {
				pos = i
			}
		case *types.Slice:
			if _, ok := t.Elem().Underlying().(*types.Interface); ok {
				params = i
			}
		}
	}
	if pos < 0 || params < 0 {
		fail("the position and parameter list of the SQL writer were not found")
	}
	return pos, params
}

func (m *filterModel) isWriterField(v ssa.Value, idx int) bool {
	fa, ok := v.(*ssa.FieldAddr)
	return ok && fa.Field == idx && namedOf(fa.X.Type()) == m.writer
}

func loadOf(v ssa.Value, pred func(addr ssa.Value) bool) bool {
	u, ok := v.(*ssa.UnOp)
	return ok && u.Op == token.MUL && pred(u.X)
}

type lock struct {
	ord, app, inc int8
	batch         ssa.Value // placeholders pos+i were written for i below this length; the position has not been advanced yet
}

// posIndex resolves a placeholder index to the writer's position plus what the
// position had been advanced by when it was loaded, or plus a loop counter that
// runs from 0 to the returned length.
func (m *filterModel) posIndex(v ssa.Value, fr *tsFrame, pos int, inc int8, use ssa.Instruction, d int) (at int8, batch ssa.Value, ok bool) {
	if d > 4 {
		return 0, nil, false
	}
	v, fr = fr.resolve(v)
	switch v := v.(type) {
	case *ssa.UnOp:
		if !loadOf(v, func(a ssa.Value) bool { return m.isWriterField(a, pos) }) {
			return 0, nil, false
		}
		if v.Block() == use.Block() && v.Parent() == use.Parent() {
			seen := false
			for _, in := range v.Block().Instrs {
				if in == ssa.Instruction(v) {
					seen = true
				}
				if in == use {
					break
				}
				if st, isSt := in.(*ssa.Store); isSt && seen && m.isWriterField(st.Addr, pos) {
					inc--
				}
			}
		}
		return inc, nil, true
	case *ssa.Phi:
		if m.virtualPos(v, pos) {
			return inc, nil, true
		}
	case *ssa.BinOp:
		if n, isC := constInt(v.Y); isC && (v.Op == token.ADD || v.Op == token.SUB) && n >= 0 && n < 8 {
			if ph, isPhi := v.X.(*ssa.Phi); isPhi && m.virtualPos(ph, pos) {
				return 0, nil, false
			}
			at, batch, ok = m.posIndex(v.X, fr, pos, inc, use, d+1)
			if v.Op == token.SUB {
				n = -n
			}
			return at + int8(n), batch, ok
		}
		if v.Op == token.ADD {
			for _, xy := range [][2]ssa.Value{{v.X, v.Y}, {v.Y, v.X}} {
				if lo, hi, isC := counter(xy[1]); isC && lo == 0 && isLenCall(hi) {
					at, batch, ok = m.posIndex(xy[0], fr, pos, inc, use, d+1)
					if ok && batch == nil {
						return at, hi, true
					}
				}
			}
		}
	}
	return 0, nil, false
}

// virtualPos: a local copy of the position that is advanced by one per loop iteration.
func (m *filterModel) virtualPos(ph *ssa.Phi, pos int) bool {
	init, step := false, false
	for _, e := range ph.Edges {
		switch e := e.(type) {
		case *ssa.UnOp:
			if !loadOf(e, func(a ssa.Value) bool { return m.isWriterField(a, pos) }) {
				return false
			}
			init = true
		case *ssa.BinOp:
			if e.Op != token.ADD || e.X != ph || !isConstInt(e.Y, 1) {
				return false
			}
			step = true
		default:
			return false
		}
	}
	return init && step
}

func ruleFilterLockstep(p *Prog, r *Report) {
	m := newFilterModel(p)
	pos, params := m.writerFields()
	isPos := func(v ssa.Value) bool { return loadOf(v, func(a ssa.Value) bool { return m.isWriterField(a, pos) }) }

	r.Rule("lockstep", "on every path of the writing code, each placeholder is followed by exactly one appended parameter and one advance of the position before the next placeholder, loop iteration or return")
	inRepo := func(f *ssa.Function) bool { return fnPkg(f) == p.pkg(filterPkg).Types }
	bad := map[string]string{}
	ords := 0
	// lengths by which a loop of placeholders runs ahead of the position
	batches := map[string]bool{}
	lenKey := func(v ssa.Value) string {
		if c, ok := v.(*ssa.Call); ok {
			return exprKey(c.Call.Args[0], 0)
		}
		return "?"
	}
	for _, f := range m.funcs {
		instrs(f, func(in ssa.Instruction) {
			if ia, ok := in.(*ssa.IndexAddr); ok {
				if g, ok := ia.X.(*ssa.Global); ok && isOrdinalTable(g) {
					if _, b, ok := m.posIndex(ia.Index, &tsFrame{fn: f}, pos, 0, ia, 0); ok && b != nil {
						batches[lenKey(b)] = true
					}
				}
			}
		})
	}
	place := func(fr *tsFrame, in ssa.Instruction, index ssa.Value, s *lock) {
		at := p.fname(in.Parent())
		ords++
		off, batch, ok := m.posIndex(index, fr, pos, s.inc, in, 0)
		switch {
		case !ok:
			bad[at+"|index"] = fmt.Sprintf("%s: the placeholder at %s is not taken at the writer's current position", at, p.pos(in.Pos()))
		case batch != nil:
			if s.batch != nil && s.batch != batch {
				bad[at+"|index"] = fmt.Sprintf("%s: the placeholder at %s repeats positions already used by another list", at, p.pos(in.Pos()))
			}
			s.batch = batch
			s.inc++ // made up for by the advance after the loop
		case s.batch != nil:
			bad[at+"|index"] = fmt.Sprintf("%s: the placeholder at %s is taken before the position was advanced past the preceding list", at, p.pos(in.Pos()))
		case off != s.ord:
			bad[at+"|order"] = fmt.Sprintf("%s: the placeholder at %s is not the one after the previous placeholder", at, p.pos(in.Pos()))
		}
		s.ord++
	}
	mkRun := func() *tsRun[lock] {
		return &tsRun[lock]{
			limit:  200000,
			inline: func(f *ssa.Function) bool { return inRepo(f) && f.Blocks != nil },
			instr: func(fr *tsFrame, in ssa.Instruction, s lock) []lock {
				at := p.fname(in.Parent())
				switch in := in.(type) {
				case *ssa.IndexAddr:
					if g, ok := in.X.(*ssa.Global); ok && isOrdinalTable(g) {
						place(fr, in, in.Index, &s)
					}
				case *ssa.Index:
					if u, ok := in.X.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok && isOrdinalTable(g) {
							place(fr, in, in.Index, &s)
						}
					}
				case *ssa.BinOp:
					// a local copy of the position advances
					if ph, ok := in.X.(*ssa.Phi); ok && in.Op == token.ADD && isConstInt(in.Y, 1) && m.virtualPos(ph, pos) {
						s.inc++
					}
				case *ssa.Store:
					if m.isWriterField(in.Addr, pos) {
						if b, ok := in.Val.(*ssa.BinOp); ok && b.Op == token.ADD && (isPos(b.X) && isConstInt(b.Y, 1) || isPos(b.Y) && isConstInt(b.X, 1)) {
							s.inc++
						} else if b, ok := in.Val.(*ssa.BinOp); ok && b.Op == token.ADD && (isPos(b.X) && isLenCall(b.Y) && batches[lenKey(b.Y)] || isPos(b.Y) && isLenCall(b.X) && batches[lenKey(b.X)]) {
							// the advance for all the placeholders of the loop
							l := b.Y
							if isPos(b.Y) {
								l = b.X
							}
							if s.batch != nil && !sameExpr(s.batch, l, 0) {
								bad[at+"|step"] = fmt.Sprintf("%s: the position is advanced at %s by another length than the number of placeholders", at, p.pos(in.Pos()))
							}
							s.batch = nil
						} else if ph, ok := in.Val.(*ssa.Phi); ok && m.virtualPos(ph, pos) {
							// counted where the copy advances
						} else if _, isp := in.Val.(*ssa.Parameter); isp && isComposite(in.Addr) {
							// initialisation, checked below
						} else {
							bad[at+"|step"] = fmt.Sprintf("%s: the position is changed at %s other than by one", at, p.pos(in.Pos()))
						}
					}
					if m.isWriterField(in.Addr, params) {
						n := appended(in.Val, func(v ssa.Value) bool {
							return loadOf(v, func(a ssa.Value) bool { return m.isWriterField(a, params) })
						})
						if n < 0 {
							bad[at+"|params"] = fmt.Sprintf("%s: the parameter list is replaced at %s by something other than an append of single values to it", at, p.pos(in.Pos()))
						} else {
							s.app += int8(n)
						}
					}
				}
				d1, d2 := s.ord-s.app, s.ord-s.inc
				if d1 > 1 || d1 < -1 || d2 > 1 || d2 < -1 {
					bad[at+"|drift"] = fmt.Sprintf("%s: placeholders, parameters and position drift apart at %s (%d placeholders, %d parameters, %d advances)", at, p.pos(in.Pos()), s.ord, s.app, s.inc)
					return nil
				}
				if s.ord == s.app && s.app == s.inc {
					s = lock{batch: s.batch}
				}
				return []lock{s}
			},
		}
	}
	n := 0
	for _, f := range m.funcs {
		if f.Origin() != nil && f.Signature.Recv() != nil && len(f.TypeArgs()) == 0 {
			continue
		}
		if f.Parent() != nil {
			continue
		}
		name := p.fname(f)
		run := mkRun()
		before := ords
		exits := run.run(&tsFrame{fn: f}, lock{})
		if run.over {
			r.Bad(name+"|paths", "undecided: too many paths in %s", name)
		}
		if ords == before {
			continue
		}
		n++
		// only the outermost functions must balance: helpers are entered from them
		if baseName(f) == m.render || f.Object() != nil && f.Object().Exported() {
			for e := range exits {
				if e != (lock{}) {
					bad[name+"|return"] = fmt.Sprintf("%s returns with %d placeholders, %d parameters and %d advances on some path (list not advanced: %v)", name, e.ord, e.app, e.inc, e.batch != nil)
				}
			}
		}
		r.Ok(name)
	}
	for _, k := range sortedKeys(bad) {
		r.Bad(k, "%s", bad[k])
	}
	r.Min(4)

	r.Rule("start", "every writer starts at the position given by the caller and its parameters are what is returned")
	for _, f := range m.funcs {
		instrs(f, func(in ssa.Instruction) {
			al, ok := in.(*ssa.Alloc)
			if !ok || namedOf(al.Type()) != m.writer {
				return
			}
			started, returned := false, false
			for _, ref := range *al.Referrers() {
				fa, ok := ref.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				for _, r2 := range *fa.Referrers() {
					switch x := r2.(type) {
					case *ssa.Store:
						if fa.Field == pos {
							if _, isp := x.Val.(*ssa.Parameter); isp {
								started = true
							}
						}
					case *ssa.UnOp:
						if fa.Field == params {
							for _, r3 := range *x.Referrers() {
								if _, isr := r3.(*ssa.Return); isr {
									returned = true
								}
							}
						}
					}
				}
			}
			// a struct value stored whole
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
					if fs, ok := structFields(st.Val); ok {
						if v := fs[m.writer.Underlying().(*types.Struct).Field(pos).Name()]; v != nil {
							if _, isp := v.(*ssa.Parameter); isp {
								started = true
							}
						}
					}
				}
			}
			name := p.fname(f)
			if !started {
				r.Bad(name+"|start", "%s creates a writer at %s that does not start at the caller's position", name, p.pos(al.Pos()))
			} else if !returned && f.Object() != nil && f.Object().Exported() {
				r.Bad(name+"|params", "%s does not return the parameters collected by its writer", name)
			} else {
				r.Ok(name)
			}
		})
	}
	r.Min(2)

	ruleOrdinals(p, r)
}

func isComposite(addr ssa.Value) bool {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	_, ok = fa.X.(*ssa.Alloc)
	return ok
}

func isConstInt(v ssa.Value, n int64) bool {
	k, ok := constInt(v)
	return ok && k == n
}

func isOrdinalTable(g *ssa.Global) bool {
	return g.Name() == "OrdinalParameters" && g.Pkg.Pkg.Path() == modPath
}

// appended returns how many single values v appends to a list satisfying base
// (-1 if v is anything else).
func appended(v ssa.Value, base func(ssa.Value) bool) int {
	c, ok := v.(*ssa.Call)
	if !ok {
		return -1
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || len(c.Call.Args) != 2 {
		return -1
	}
	n := 0
	if !base(c.Call.Args[0]) {
		n = appended(c.Call.Args[0], base)
		if n < 0 {
			return -1
		}
	}
	el, ok := varargElems(c.Call.Args[1])
	if !ok {
		return -1
	}
	return n + len(el)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ruleOrdinals checks the ordinal table and the helper that lists a range of it.
func ruleOrdinals(p *Prog, r *Report) {
	r.Rule("ordinal-table", "entry i of the ordinal table is \"$\" followed by i+1")
	for _, f := range p.funcsIn("") {
		instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok {
				return
			}
			pt, ok := ia.X.Type().Underlying().(*types.Pointer)
			if !ok {
				return
			}
			arr, ok := pt.Elem().Underlying().(*types.Array)
			if !ok || arr.Len() != 65535 {
				return
			}
			name := p.fname(f)
			if ordinalText(st.Val, ia.Index) {
				r.Ok(name)
			} else {
				r.Bad(name+"|entry", "%s: the entry stored at %s is not \"$\" followed by its index plus one", name, p.pos(st.Pos()))
			}
			// the loop must cover the array: index is a counter from 0 below its length
			if lo, hi, ok := counter(ia.Index); !ok || lo != 0 || !(isLenOf(hi, ia.X) || isConstInt(hi, 65535)) {
				r.Bad(name+"|cover", "%s: the loop at %s does not fill the whole table", name, p.pos(st.Pos()))
			} else {
				r.Ok(name + " covers")
			}
		})
	}
	r.Min(2)
	r.Rule("in-list", "the list of ordinals for num values at position pos is exactly the entries pos to pos+num-1 of the table, in order")
	f := p.mustFn("", "InValueList")
	num, posn := f.Params[0], f.Params[1]
	var first, rest bool
	instrs(f, func(in ssa.Instruction) {
		ia, ok := in.(*ssa.IndexAddr)
		if !ok {
			return
		}
		g, ok := ia.X.(*ssa.Global)
		if !ok || !isOrdinalTable(g) {
			return
		}
		if ia.Index == posn {
			if guardedBy(ia.Block(), func(c ssa.Value, taken bool) bool { return gtConst(c, taken, num, 0) }) {
				first = true
			} else {
				r.Bad("InValueList|guard", "InValueList writes the first ordinal at %s without testing that there is a value", p.pos(ia.Pos()))
			}
			return
		}
		b, ok := ia.Index.(*ssa.BinOp)
		if ok && b.Op == token.ADD {
			i := b.Y
			if b.Y == posn {
				i = b.X
			} else if b.X != posn {
				i = nil
			}
			if i != nil {
				if lo, hi, ok := counter(i); ok && hi == num {
					switch lo {
					case 0:
						first, rest = true, true
						return
					case 1:
						rest = true
						return
					}
				}
			}
		}
		r.Bad("InValueList|index", "InValueList uses an entry at %s other than pos+i for i below num", p.pos(ia.Pos()))
	})
	if first && rest {
		r.Ok("InValueList")
	} else {
		r.Bad("InValueList|cover", "InValueList does not list every ordinal from pos to pos+num-1")
	}
}

// ordinalText: v is "$" + Itoa(idx+1).
func ordinalText(v, idx ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	if s, ok := constString(b.X); !ok || s != "$" {
		return false
	}
	c, ok := b.Y.(*ssa.Call)
	if !ok {
		return false
	}
	g := c.Call.StaticCallee()
	if g == nil {
		return false
	}
	arg := c.Call.Args[0]
	switch g.String() {
	case "strconv.Itoa":
	case "strconv.FormatInt":
		if !isConstInt(c.Call.Args[1], 10) {
			return false
		}
		if cv, ok := arg.(*ssa.Convert); ok {
			arg = cv.X
		}
	default:
		return false
	}
	a, ok := arg.(*ssa.BinOp)
	return ok && a.Op == token.ADD && (a.X == idx && isConstInt(a.Y, 1) || a.Y == idx && isConstInt(a.X, 1))
}

// counter recognises an induction variable: phi [lo, phi+1] whose loop runs
// while it is below hi (range loops over integers included).
func counter(v ssa.Value) (lo int64, hi ssa.Value, ok bool) {
	off := int64(0)
	ph, isPhi := v.(*ssa.Phi)
	if !isPhi {
		// range loops use phi+1 as the index
		b, isB := v.(*ssa.BinOp)
		if !isB || b.Op != token.ADD || !isConstInt(b.Y, 1) {
			return 0, nil, false
		}
		if ph, isPhi = b.X.(*ssa.Phi); !isPhi {
			return 0, nil, false
		}
		off = 1
	}
	if len(ph.Edges) != 2 {
		return 0, nil, false
	}
	init, step := false, false
	for _, e := range ph.Edges {
		if n, isC := constInt(e); isC {
			lo, init = n+off, true
		}
		if b, isB := e.(*ssa.BinOp); isB && b.Op == token.ADD && b.X == ph && isConstInt(b.Y, 1) {
			step = true
		}
	}
	if !init || !step {
		return 0, nil, false
	}
	for _, ref := range *v.Referrers() {
		if b, isB := ref.(*ssa.BinOp); isB {
			for _, r2 := range *b.Referrers() {
				if _, isIf := r2.(*ssa.If); isIf {
					if b.Op == token.LSS && b.X == v {
						return lo, b.Y, true
					}
					if b.Op == token.GTR && b.Y == v {
						return lo, b.X, true
					}
				}
			}
		}
	}
	return 0, nil, false
}

func isLenOf(v, x ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return false
	}
	a := c.Call.Args[0]
	if a == x {
		return true
	}
	if u, ok := a.(*ssa.UnOp); ok && u.X == x {
		return true
	}
	return sameExpr(a, x, 0)
}

// sameExpr compares two values structurally (loads of the same field, equal arithmetic).
func sameExpr(a, b ssa.Value, d int) bool {
	if a == b {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && constant.Compare(x.Value, token.EQL, y.Value)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameExpr(x.X, y.X, d+1)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameExpr(x.X, y.X, d+1)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameExpr(x.X, y.X, d+1)
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && sameExpr(x.X, y.X, d+1) && sameExpr(x.Y, y.Y, d+1)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok {
			return false
		}
		bx, ok1 := x.Call.Value.(*ssa.Builtin)
		by, ok2 := y.Call.Value.(*ssa.Builtin)
		return ok1 && ok2 && bx.Name() == "len" && by.Name() == "len" && sameExpr(x.Call.Args[0], y.Call.Args[0], d+1)
	}
	return false
}

// guardedBy reports whether block b is only reached through a branch edge
// satisfying pred.
func guardedBy(b *ssa.BasicBlock, pred func(cond ssa.Value, taken bool) bool) bool {
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			return false
		}
		br, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, s := range id.Succs {
			if s == d && len(d.Preds) == 1 && pred(br.Cond, i == 0) {
				return true
			}
		}
	}
	return false
}

// gtConst: the condition being `taken` implies v > n.
func gtConst(c ssa.Value, taken bool, v ssa.Value, n int64) bool {
	b, ok := c.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y, op := b.X, b.Y, b.Op
	if sameExpr(y, v, 0) {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	k, isC := constInt(y)
	if !isC || !sameExpr(x, v, 0) {
		return false
	}
	if !taken {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR, token.GEQ:
			return false
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	}
	switch op {
	case token.GTR:
		return k >= n
	case token.GEQ:
		return k >= n+1
	case token.EQL:
		return k > n
	case token.NEQ:
		// lengths are never negative
		return k == 0 && n == 0 && isLenCall(x)
	}
	return false
}

func isLenCall(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

// ---- F02 -------------------------------------------------------------------

func ruleFilterInjection(p *Prog, r *Report) {
	m := newFilterModel(p)
	pkg := p.pkg(filterPkg).Types
	t := newTaint(p, func(f *ssa.Function) bool { return fnPkg(f) == pkg })
	r.Rule("sources", "the untrusted inputs: every string, value or list parameter of the constructor's exported methods except the column, operator and search-column names the program supplies, which the documentation declares vetted")
	for _, f := range m.funcs {
		if f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != m.ctor {
			continue
		}
		sig := f.Signature
		for i := 0; i < sig.Params().Len(); i++ {
			pv := sig.Params().At(i)
			switch u := pv.Type().Underlying().(type) {
			case *types.Basic:
				if u.Info()&types.IsString == 0 {
					continue
				}
				if i == 0 && sig.Params().Len() > 1 || f.Name() == "Col" && i == 1 || strings.HasPrefix(f.Name(), "Init") {
					continue // column, operator, search column
				}
			case *types.Slice, *types.Interface:
			default:
				continue
			}
			t.add(f.Params[i+1], "input")
			r.Ok(f.Name() + "(" + pv.Name() + ")")
		}
	}
	r.Min(10)
	t.run(m.funcs)
	r.Rule("sql-text", "no untrusted input reaches text written to the SQL string or stored as a clause: it is only ever appended to the parameter list")
	for _, f := range m.funcs {
		fn := p.fname(f)
		n := 0
		instrs(f, func(in ssa.Instruction) {
			if v, ok := m.textWrite(in); ok {
				n++
				key := fmt.Sprintf("%s|write", fn)
				if t.has(v) {
					r.Bad(key, "%s writes untrusted text into the SQL string at %s (reached through %s)", fn, p.pos(in.Pos()), t.why[v])
				} else {
					r.Ok(fmt.Sprintf("%s #%d", key, n))
				}
			}
			if c, ok := in.(*ssa.Call); ok && m.textCall(c) {
				for _, a := range c.Call.Args[1:] {
					if t.has(a) {
						r.Bad(fn+"|fprint", "%s formats untrusted text into the SQL string at %s", fn, p.pos(in.Pos()))
					}
				}
			}
			// clause strings kept in fields
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if b, ok := st.Val.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && strings.HasSuffix(fieldKey(fa.X.Type(), fa.Field), "filter.orderby") {
						n++
						if t.has(st.Val) {
							r.Bad(fn+"|clause", "%s stores untrusted text as a clause at %s", fn, p.pos(in.Pos()))
						} else {
							r.Ok(fmt.Sprintf("%s|clause #%d", fn, n))
						}
					}
				}
			}
			// the returned SQL string
			if ret, ok := in.(*ssa.Return); ok && f.Name() == "ToSQL" {
				if len(ret.Results) == 2 && t.has(ret.Results[0]) {
					r.Bad(fn+"|result", "%s returns untrusted text as SQL at %s", fn, p.pos(in.Pos()))
				} else {
					r.Ok(fn + "|result")
				}
			}
		})
	}
	r.Min(25)
	r.Rule("nodes", "the text fields of the predicate nodes (column, operator, predicate, cast) hold no untrusted input")
	for k := range t.fields {
		_ = k
	}
	for n := range m.kinds {
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			b, ok := st.Field(i).Type().Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsString == 0 {
				continue
			}
			k := fieldKey(n, i)
			written := false
			for _, f := range m.funcs {
				instrs(f, func(in ssa.Instruction) {
					if v, ok := m.textWrite(in); ok && readsField(v, k) {
						written = true
					}
				})
			}
			if !written {
				continue
			}
			if t.fields[k] {
				r.Bad(k, "field %s is written into the SQL string and receives untrusted input (%s)", k, t.why[k])
			} else {
				r.Ok(k)
			}
		}
	}
	r.Min(6)
}

// readsField: v is (or concatenates) a read of the field.
func readsField(v ssa.Value, key string) bool {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			return fieldKey(fa.X.Type(), fa.Field) == key
		}
	case *ssa.Field:
		return fieldKey(v.X.Type(), v.Field) == key
	case *ssa.BinOp:
		return readsField(v.X, key) || readsField(v.Y, key)
	}
	return false
}
