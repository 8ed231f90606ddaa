package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// textTaint follows caller-supplied text (string, []byte, byte and rune values
// loaded from the receiver of a valuer) through one function.
type textTaint struct {
	p      *Prog
	r      *Report
	fn     *ssa.Function
	root   string // the converter the flow starts in
	taint  map[ssa.Value]bool
	built  map[ssa.Value]bool
	sinks  int
	depth  int
	retRaw bool // tainted text is returned as is
	visit  map[string]bool
}

func isTextual(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.Uint8 || u.Kind() == types.Int32 || u.Kind() == types.UntypedRune
	case *types.Slice:
		return isByteOrRune(u.Elem())
	case *types.Array:
		return isByteOrRune(u.Elem())
	}
	return false
}

func isByteOrRune(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32)
}

func isText(t types.Type) bool { // whole pieces of text
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

// propagates lists standard-library packages whose functions return text made
// of their text arguments; everything else outside the repository encodes.
var propagates = map[string]bool{"strings": true, "bytes": true, "fmt": true}

func (t *textTaint) run(seed []ssa.Value) {
	for _, v := range seed {
		t.taint[v] = true
	}
	for changed := true; changed; {
		changed = false
		mark := func(v ssa.Value, on bool) {
			if on && !t.taint[v] {
				t.taint[v] = true
				changed = true
			}
		}
		instrs(t.fn, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.FieldAddr:
				mark(in, t.taint[in.X])
			case *ssa.Field:
				mark(in, t.taint[in.X])
			case *ssa.IndexAddr:
				mark(in, t.taint[in.X])
			case *ssa.Index:
				mark(in, t.taint[in.X])
			case *ssa.Lookup:
				mark(in, t.taint[in.X])
			case *ssa.Slice:
				mark(in, t.taint[in.X])
			case *ssa.Range:
				mark(in, t.taint[in.X])
			case *ssa.Next:
				mark(in, t.taint[in.Iter])
			case *ssa.Extract:
				if nx, ok := in.Tuple.(*ssa.Next); ok {
					// index and ok are not text; the string index is an int
					if in.Index == 0 || (nx.IsString && in.Index == 1) {
						return
					}
				}
				if _, ok := in.Tuple.(*ssa.Call); ok && !isTextual(in.Type()) {
					return
				}
				mark(in, t.taint[in.Tuple])
			case *ssa.UnOp:
				if in.Op == token.MUL {
					mark(in, t.taint[in.X])
				}
			case *ssa.Convert:
				mark(in, t.taint[in.X] && isTextual(in.Type()))
			case *ssa.ChangeType:
				mark(in, t.taint[in.X])
			case *ssa.MakeInterface:
				mark(in, t.taint[in.X])
			case *ssa.Phi:
				for _, e := range in.Edges {
					mark(in, t.taint[e])
				}
			case *ssa.BinOp:
				if in.Op == token.ADD && isText(in.Type()) {
					mark(in, t.taint[in.X] || t.taint[in.Y])
				}
			case *ssa.Store:
				// a local copy of the value (spilled parameter, range variable)
				if al, ok := in.Addr.(*ssa.Alloc); ok && t.taint[in.Val] {
					mark(al, true)
				}
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok && t.taint[in.Val] && (!isByteOrRune(in.Val.Type()) || isLocalArray(ia.X)) {
					mark(ia.X, true)
				}
			case *ssa.Call:
				any := false
				for _, a := range in.Call.Args {
					any = any || t.taint[a]
				}
				if !any {
					return
				}
				if b, ok := in.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "append" && t.taint[in.Call.Args[0]] {
						mark(in, true)
					}
					// append/copy are sinks (see check) unless they merely duplicate
					// the text; len/cap are not text
					if len(in.Call.Args) == 2 && t.taint[in.Call.Args[1]] && isText(in.Call.Args[1].Type()) && isFresh(in.Call.Args[0]) {
						if b.Name() == "append" {
							mark(in, true)
						} else if b.Name() == "copy" {
							mark(in.Call.Args[0], true)
						}
					}
					return
				}
				g := calleeOf(&in.Call)
				switch {
				case g == nil:
				case g.Pkg != nil && propagates[g.Pkg.Pkg.Path()]:
					mark(in, in.Call.Signature().Results().Len() > 0)
				case g.Blocks != nil && g.Pkg != nil && t.p.inRepo(g.Pkg.Pkg):
					if t.callee(g, in) {
						mark(in, true)
					}
				}
			}
		})
	}
	t.check()
}

// callee analyses a repository function called with tainted arguments and
// reports whether its result is raw text.
func (t *textTaint) callee(g *ssa.Function, c *ssa.Call) bool {
	key := t.p.fname(g)
	var seed []ssa.Value
	for i, a := range c.Call.Args {
		if t.taint[a] && i < len(g.Params) {
			key += fmt.Sprintf("|%d", i)
			seed = append(seed, g.Params[i])
		}
	}
	if t.visit[key] || t.depth > 6 {
		return false
	}
	t.visit[key] = true
	s := &textTaint{p: t.p, r: t.r, fn: g, root: t.root, taint: map[ssa.Value]bool{}, depth: t.depth + 1, visit: t.visit}
	s.run(seed)
	t.sinks += s.sinks
	t.visit[key] = false
	return s.retRaw
}

func (t *textTaint) check() {
	name := t.p.fname(t.fn)
	what := t.root
	if name != t.root {
		what += " via " + name
	}
	instrs(t.fn, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Return:
			for _, v := range in.Results {
				if t.taint[v] && (isText(v.Type()) || isEmptyIface(v.Type())) {
					t.retRaw = true
				}
			}
		case *ssa.Store:
			// out[i] = b
			if ia, ok := in.Addr.(*ssa.IndexAddr); ok && t.taint[in.Val] && isByteOrRune(in.Val.Type()) && !isVarargs(ia.X) && !isLocalArray(ia.X) {
				t.byteSink(in, in.Val, nil, what)
			}
		case *ssa.Call:
			b, ok := in.Call.Value.(*ssa.Builtin)
			if !ok || (b.Name() != "append" && b.Name() != "copy") || len(in.Call.Args) < 2 {
				return
			}
			src := in.Call.Args[1]
			if !isText(src.Type()) {
				return
			}
			if isFresh(in.Call.Args[0]) && t.taint[src] {
				return // a copy of the text, followed further
			}
			if elems, ok := varargElems(src); ok {
				for i, e := range elems {
					if e == nil || !t.taint[e] {
						continue
					}
					t.byteSink(in, e, elems[:i], what)
				}
				return
			}
			if t.taint[src] {
				t.sinks++
				t.r.Bad(what, "%s: the text appended by %s at %s comes from the caller and reaches the literal unescaped: a `\"`, `\\`, `,` or brace in it changes the structure of the literal", t.root, b.Name(), t.p.pos(in.Pos()))
			}
		}
	})
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.Empty()
}

// isFresh: a buffer that holds nothing yet.
func isFresh(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.MakeSlice:
		for _, r := range *v.Referrers() {
			if _, ok := r.(*ssa.IndexAddr); ok {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return isFresh(v.X)
	case *ssa.Slice:
		al, ok := v.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		if arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			// make([]byte, 0, n) or []byte{}: nothing stored through it
			if arr.Len() == 0 {
				return true
			}
			n := 0
			for _, r := range *al.Referrers() {
				if _, ok := r.(*ssa.IndexAddr); ok {
					n++
				}
			}
			if h, ok := constInt(v.High); ok && v.High != nil && h == 0 && al.Comment == "makeslice" && n == 0 {
				return true
			}
		}
	}
	return false
}

// isLocalArray: the backing array of a composite literal.
func isLocalArray(v ssa.Value) bool {
	al, ok := v.(*ssa.Alloc)
	return ok && !isVarargs(v) && al.Comment != "makeslice"
}

func isVarargs(v ssa.Value) bool {
	al, ok := v.(*ssa.Alloc)
	return ok && al.Comment == "varargs"
}

// varargElems returns the individually appended elements of append(x, a, b, c).
func varargElems(v ssa.Value) ([]ssa.Value, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || arr.Len() > 1024 {
		return nil, false
	}
	out := make([]ssa.Value, arr.Len())
	for _, ref := range *al.Referrers() {
		switch ref := ref.(type) {
		case *ssa.IndexAddr:
			i, ok := constInt(ref.Index)
			if !ok {
				return nil, false
			}
			for _, r2 := range *ref.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ref {
					out[i] = st.Val
				}
			}
		case *ssa.Slice:
		default:
			return nil, false
		}
	}
	return out, true
}

func isByteConst(v ssa.Value, c int64) bool {
	if v == nil {
		return false
	}
	k, ok := constInt(v)
	return ok && k == c
}

// byteSink: one caller-supplied byte or rune enters the literal.
func (t *textTaint) byteSink(at ssa.Instruction, b ssa.Value, prev []ssa.Value, what string) {
	t.sinks++
	var missing []string
	quoted, nested := t.quotedBefore(at)
	slashes := 0
	for i := len(prev) - 1; i >= 0 && isByteConst(prev[i], '\\'); i-- {
		slashes++
	}
	if !nested && slashes%2 == 1 || nested && slashes == 3 {
		t.r.Ok(what + ": escaped byte")
		return
	}
	want := 1
	if nested {
		want = 3
	}
	need := []int64{'"', '\\'}
	if !quoted {
		need = append(need, ',', '{', '}', ' ', '\t', '\n', '\r', '\v', '\f')
	}
	for _, c := range need {
		if !excluded(b, c, want, at, at.Block(), nil) {
			missing = append(missing, fmt.Sprintf("%q", rune(c)))
		}
	}
	if len(missing) == 0 {
		t.r.Ok(what + ": byte known not to be a delimiter")
		return
	}
	t.r.Bad(what, "%s: the byte written at %s comes from the caller and can be %s there, unescaped: it would change the structure of the literal", t.root, t.p.pos(at.Pos()), strings.Join(missing, " "))
}

// quotedBefore: a constant double quote is appended on every path to at.
// nested: that quote is itself escaped (a quoted string inside a quoted string).
func (t *textTaint) quotedBefore(at ssa.Instruction) (ok, nested bool) {
	instrs(t.fn, func(in ssa.Instruction) {
		c, isC := in.(*ssa.Call)
		if !isC || ok && nested {
			return
		}
		b, isB := c.Call.Value.(*ssa.Builtin)
		if !isB || b.Name() != "append" || len(c.Call.Args) != 2 {
			return
		}
		has, esc := false, false
		if elems, isV := varargElems(c.Call.Args[1]); isV {
			for i, e := range elems {
				if isByteConst(e, '"') {
					has = true
					esc = i > 0 && isByteConst(elems[i-1], '\\')
				}
			}
		} else if s, isS := constString(c.Call.Args[1]); isS {
			has = strings.Contains(s, `"`)
			esc = strings.Contains(s, `\"`)
		}
		if has && (c.Block() == at.Block() && before(c, at) || c.Block() != at.Block() && c.Block().Dominates(at.Block())) {
			ok, nested = true, esc
		}
	})
	return ok, nested
}

func before(a, b ssa.Instruction) bool {
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// endsWithSlashes: the last n bytes an append call adds are backslashes.
func endsWithSlashes(in ssa.Instruction, n int) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || len(c.Call.Args) != 2 {
		return false
	}
	if s, ok := constString(c.Call.Args[1]); ok {
		return strings.HasSuffix(s, strings.Repeat(`\`, n))
	}
	elems, ok := varargElems(c.Call.Args[1])
	if !ok || len(elems) < n {
		return false
	}
	for _, e := range elems[len(elems)-n:] {
		if !isByteConst(e, '\\') {
			return false
		}
	}
	return true
}

// excluded: on every path to instruction at (in block blk), v is known to
// differ from c, or the n backslashes escaping it have just been appended.
func excluded(v ssa.Value, c int64, n int, at ssa.Instruction, blk *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen == nil {
		seen = map[*ssa.BasicBlock]bool{}
	}
	if seen[blk] {
		return true
	}
	seen[blk] = true
	for _, in := range blk.Instrs {
		if in == at {
			break
		}
		if endsWithSlashes(in, n) {
			return true
		}
	}
	if len(blk.Preds) == 0 {
		return false
	}
	// values defined in this block are not constrained before it
	if definedIn(v, blk) {
		return false
	}
	for _, pr := range blk.Preds {
		if iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If); ok && pr.Succs[0] != pr.Succs[1] {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && sameText2(bo.X, v) {
				if k, ok := constInt(bo.Y); ok {
					eq := (bo.Op == token.EQL && pr.Succs[0] == blk) || (bo.Op == token.NEQ && pr.Succs[1] == blk)
					ne := (bo.Op == token.EQL && pr.Succs[1] == blk) || (bo.Op == token.NEQ && pr.Succs[0] == blk)
					if eq && k != c || ne && k == c {
						continue
					}
				}
			}
		}
		if !excluded(v, c, n, nil, pr, seen) {
			return false
		}
	}
	return true
}

// definedIn: blk defines v or, when v re-reads an element, the index or
// container it reads (walking past it would reach the previous iteration).
func definedIn(v ssa.Value, blk *ssa.BasicBlock) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if !isReload(v) {
		if ia, ok := v.(*ssa.IndexAddr); ok {
			return definedIn(ia.X, blk) || definedIn(ia.Index, blk)
		}
		return in.Block() == blk
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		return definedIn(v.X, blk)
	case *ssa.Convert:
		return definedIn(v.X, blk)
	case *ssa.Lookup:
		return definedIn(v.X, blk) || definedIn(v.Index, blk)
	case *ssa.Index:
		return definedIn(v.X, blk) || definedIn(v.Index, blk)
	}
	return false
}

func isReload(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.UnOp:
		return v.Op == token.MUL
	case *ssa.Lookup, *ssa.Index:
		return true
	case *ssa.Convert:
		return true
	}
	return false
}

// sameText2: structurally equal reads of the same element.
func sameText2(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		if y, ok := b.(*ssa.UnOp); ok && x.Op == token.MUL && y.Op == token.MUL {
			if xi, ok := x.X.(*ssa.IndexAddr); ok {
				if yi, ok := y.X.(*ssa.IndexAddr); ok {
					return sameText2(xi.X, yi.X) && xi.Index == yi.Index
				}
			}
			if xi, ok := x.X.(*ssa.FieldAddr); ok {
				if yi, ok := y.X.(*ssa.FieldAddr); ok {
					return xi.X == yi.X && xi.Field == yi.Field
				}
			}
		}
	case *ssa.Lookup:
		if y, ok := b.(*ssa.Lookup); ok {
			return sameText2(x.X, y.X) && x.Index == y.Index
		}
	case *ssa.Index:
		if y, ok := b.(*ssa.Index); ok {
			return sameText2(x.X, y.X) && x.Index == y.Index
		}
	}
	if y, ok := b.(*ssa.Convert); ok {
		return sameText2(a, y.X)
	}
	if x, ok := a.(*ssa.Convert); ok {
		return sameText2(x.X, b)
	}
	return false
}

func init() {
	register("C07", "other",
		"Interprocedural taint analysis over SSA: for every valuer that produces an array or hstore literal, the text held by the receiver is followed to every append, copy or element store; each must be preceded by a backslash or be provably (by branch conditions) not a quote or backslash inside a quoted section. Decides structural safety of the literal; not that the server accepts the element text.",
		func(p *Prog, r *Report) {
			r.Rule("escaped-elements", "caller-supplied text enters an array or hstore literal only inside double quotes with every `\"` and `\\` escaped")
			valuers, sinks := 0, 0
			for _, c := range converters(p) {
				if c.value == nil {
					continue
				}
				structured := len(c.ctor) == 0
				for _, ct := range c.ctor {
					if m := rxCtor.FindStringSubmatch(ct.Name()); m != nil {
						t := ctorPGType(m[1])
						if strings.HasPrefix(t, "_") || t == "hstore" {
							structured = true
						}
					}
				}
				if !structured || !hasText(c.named, map[types.Type]bool{}) {
					continue
				}
				valuers++
				t := &textTaint{p: p, r: r, fn: c.value, root: p.fname(c.value), taint: map[ssa.Value]bool{}, visit: map[string]bool{}}
				t.run([]ssa.Value{c.value.Params[0]})
				if t.retRaw {
					r.Bad(t.root+"|return", "%s returns the caller's text as the literal without quoting", t.root)
				}
				sinks += t.sinks
				if t.sinks == 0 {
					r.Ok(t.root + ": caller text only reaches encoders")
				}
			}
			r.Note("%d array/hstore valuers with text elements, %d places where their text enters a literal", valuers, sinks)
			r.Min(60)
		})
}

// hasText: the type holds caller text somewhere.
func hasText(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return isByteOrRune(u.Elem()) || hasText(u.Elem(), seen)
	case *types.Array:
		return isByteOrRune(u.Elem()) || hasText(u.Elem(), seen)
	case *types.Pointer:
		return hasText(u.Elem(), seen)
	case *types.Map:
		return hasText(u.Key(), seen) || hasText(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasText(u.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}
