package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// ---- formulas over multi-valued atoms -------------------------------------------------

// F is a boolean formula. An atom states that the variable v has the value c;
// boolean variables have the value "true".
type F struct {
	op   byte // 'T', 'F', 'a', '!', '&', '|'
	v, c string
	kids []*F
	k    string
	vars map[string]bool
}

var fTrue, fFalse = &F{op: 'T', k: "T"}, &F{op: 'F', k: "F"}

func fAtom(v, c string) *F { return &F{op: 'a', v: v, c: c, k: "(" + v + "=" + c + ")"} }
func fBool(v string) *F    { return fAtom(v, "true") }

func fNot(a *F) *F {
	switch a.op {
	case 'T':
		return fFalse
	case 'F':
		return fTrue
	case '!':
		return a.kids[0]
	}
	return &F{op: '!', kids: []*F{a}, k: "!" + a.k}
}

func fAnd(fs ...*F) *F { return fNary('&', fs) }
func fOr(fs ...*F) *F  { return fNary('|', fs) }

func fNary(op byte, fs []*F) *F {
	unit, zero := fTrue, fFalse
	if op == '|' {
		unit, zero = fFalse, fTrue
	}
	var ks []*F
	seen := map[string]bool{}
	var add func(f *F) bool
	add = func(f *F) bool {
		if f.op == zero.op {
			return false
		}
		if f.op == unit.op || seen[f.k] {
			return true
		}
		if f.op == op {
			for _, k := range f.kids {
				if !add(k) {
					return false
				}
			}
			return true
		}
		if seen[fNot(f).k] {
			return false
		}
		seen[f.k] = true
		ks = append(ks, f)
		return true
	}
	for _, f := range fs {
		if !add(f) {
			return zero
		}
	}
	if op == '&' {
		// a variable has one value
		val := map[string]string{}
		for _, k := range ks {
			if k.op == 'a' {
				if c, ok := val[k.v]; ok && c != k.c {
					return fFalse
				}
				val[k.v] = k.c
			}
		}
		if len(val) > 0 {
			rest := ks[:0:0]
			changed := false
			for _, k := range ks {
				n := k
				if k.op != 'a' {
					for v, c := range val {
						n = n.with(v, c)
					}
				}
				if n.op == 'F' {
					return fFalse
				}
				if n != k {
					changed = true
				}
				if n.op != 'T' {
					rest = append(rest, n)
				}
			}
			if changed {
				return fAnd(rest...)
			}
		}
	}
	switch len(ks) {
	case 0:
		return unit
	case 1:
		return ks[0]
	}
	if op == '|' {
		// (a & r) | (!a & r) = r
		for i := range ks {
			for j := i + 1; j < len(ks); j++ {
				if m := fMerge(ks[i], ks[j]); m != nil {
					rest := []*F{m}
					for n, k := range ks {
						if n != i && n != j {
							rest = append(rest, k)
						}
					}
					return fOr(rest...)
				}
			}
		}
	}
	var sb strings.Builder
	sb.WriteByte('(')
	for i, k := range ks {
		if i > 0 {
			sb.WriteByte(op)
		}
		sb.WriteString(k.k)
	}
	sb.WriteByte(')')
	return &F{op: op, kids: ks, k: sb.String()}
}

// fMerge combines two conjunctions that differ only in the sign of one conjunct.
func fMerge(a, b *F) *F {
	ca, cb := []*F{a}, []*F{b}
	if a.op == '&' {
		ca = a.kids
	}
	if b.op == '&' {
		cb = b.kids
	}
	if len(ca) != len(cb) || len(ca) == 1 {
		return nil
	}
	in := map[string]bool{}
	for _, k := range cb {
		in[k.k] = true
	}
	var rest []*F
	var odd *F
	for _, k := range ca {
		if in[k.k] {
			rest = append(rest, k)
		} else if odd != nil || !in[fNot(k).k] {
			return nil
		} else {
			odd = k
		}
	}
	return fAnd(rest...)
}

func (f *F) variables() map[string]bool {
	if f.op == 'T' || f.op == 'F' {
		return nil
	}
	if f.vars == nil {
		f.vars = map[string]bool{}
		if f.op == 'a' {
			f.vars[f.v] = true
		}
		for _, k := range f.kids {
			for v := range k.variables() {
				f.vars[v] = true
			}
		}
	}
	return f.vars
}

func (f *F) consts(v string, out map[string]bool) {
	if !f.variables()[v] {
		return
	}
	if f.op == 'a' && f.v == v {
		out[f.c] = true
	}
	for _, k := range f.kids {
		k.consts(v, out)
	}
}

// with replaces every atom of v by whether v's value is c ("" = none of the constants).
func (f *F) with(v, c string) *F {
	if !f.variables()[v] {
		return f
	}
	switch f.op {
	case 'a':
		if f.c == c {
			return fTrue
		}
		return fFalse
	case '!':
		return fNot(f.kids[0].with(v, c))
	}
	ks := make([]*F, len(f.kids))
	for i, k := range f.kids {
		ks[i] = k.with(v, c)
	}
	return fNary(f.op, ks)
}

// satMemo remembers what fSat found.
var satMemo [64]struct {
	sync.Mutex
	m map[string]bool
}

func fSat(f *F) bool {
	if f.op == 'T' {
		return true
	}
	if f.op == 'F' {
		return false
	}
	h := uint(len(f.k))
	for i := 0; i < len(f.k); i += 1 + len(f.k)/16 {
		h = h*31 + uint(f.k[i])
	}
	memo := &satMemo[h%64]
	memo.Lock()
	r, ok := memo.m[f.k]
	memo.Unlock()
	if ok {
		return r
	}
	// the variable of the first atom of the smallest conjunct
	var pick func(f *F) string
	pick = func(f *F) string {
		if f.op == 'a' {
			return f.v
		}
		best := f.kids[0]
		for _, k := range f.kids {
			if len(k.variables()) < len(best.variables()) {
				best = k
			}
		}
		return pick(best)
	}
	v := pick(f)
	cs := map[string]bool{}
	f.consts(v, cs)
	keys := make([]string, 0, len(cs)+1)
	for c := range cs {
		keys = append(keys, c)
	}
	sort.Strings(keys)
	for _, c := range append(keys, "") {
		if fSat(f.with(v, c)) {
			r = true
			break
		}
	}
	memo.Lock()
	if memo.m == nil || len(memo.m) > 20000 {
		memo.m = map[string]bool{}
	}
	memo.m[f.k] = r
	memo.Unlock()
	return r
}

func fImplies(a, b *F) bool { return !fSat(fAnd(a, fNot(b))) }
func fEquiv(a, b *F) bool   { return a.k == b.k || (fImplies(a, b) && fImplies(b, a)) }

// ---- values ---------------------------------------------------------------------------

type Val interface{ key() string }

type (
	// VConst is a known basic value.
	VConst struct {
		v   constant.Value
		typ types.Type
	}
	VNil struct{}
	// VSym is an input of the analysed code: an access path.
	VSym struct {
		path string
		typ  types.Type
	}
	// VExpr is a value computed from others by an operation that is not interpreted.
	VExpr struct {
		op   string
		args []Val
		typ  types.Type
		k    string
	}
	// VStruct is a struct value; fields that are missing have the base's or the zero value.
	VStruct struct {
		typ    types.Type
		fields map[string]Val
		base   Val
		k      string
	}
	// VPtr points into the location loc.
	VPtr struct {
		loc  string
		path []string
		typ  types.Type // of the target
	}
	// VList is a slice.
	VList struct {
		items []Item
		typ   types.Type
		size  Val // if made with make([]T, size)
		k     string
	}
	// VF is a boolean.
	VF struct{ f *F }
	// VCond is a if c, else b.
	VCond struct {
		c    *F
		a, b Val
		k    string
	}
	// VAcc stands for the value a location has when an iteration of a loop begins.
	VAcc struct {
		id   string
		typ  types.Type
		info *accInfo
	}
	VFunc struct {
		lit  interface{} // *ast.FuncLit or *types.Func
		recv Val
		fr   *frame
		name string
	}
	VMap struct {
		ents []mapEnt
		typ  types.Type
		id   string
		base Val // what the map holds besides the entries, if that is not known
	}
)

type mapEnt struct {
	guard    *F
	key, val Val
}

type accInfo struct {
	src  string
	init Val
	step Val // value after one iteration, in terms of the accumulator
}

// Item is a part of a list.
type Item struct {
	guard *F
	kind  byte // 'e' elem, 'r' repeat (for every element of src), 's' spread, 'a' accumulator, 'c' recursion
	val   Val  // elem / spread / recursion argument
	src   Val
	elem  string // the path of the canonical element of a repeat
	items []Item
}

func (v VConst) key() string { return v.v.ExactString() }
func (VNil) key() string     { return "nil" }
func (v VSym) key() string   { return v.path }
func (v *VExpr) key() string {
	if v.k == "" {
		var sb strings.Builder
		sb.WriteString(v.op)
		sb.WriteByte('(')
		for i, a := range v.args {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(a.key())
		}
		sb.WriteByte(')')
		v.k = sb.String()
	}
	return v.k
}
func (v *VStruct) key() string {
	if v.k == "" {
		var names []string
		for n := range v.fields {
			names = append(names, n)
		}
		sort.Strings(names)
		var sb strings.Builder
		sb.WriteString(typeName(v.typ))
		sb.WriteByte('{')
		if v.base != nil {
			sb.WriteString("..." + v.base.key())
		}
		for _, n := range names {
			sb.WriteString(n + ":" + v.fields[n].key() + ",")
		}
		sb.WriteByte('}')
		v.k = sb.String()
	}
	return v.k
}
func (v VPtr) key() string { return "&" + v.loc + strings.Join(append([]string{""}, v.path...), ".") }
func (v *VList) key() string {
	if v.k == "" {
		v.k = "[" + itemsKey(v.items) + "]"
	}
	return v.k
}

func itemsKey(items []Item) string {
	var sb strings.Builder
	for i, it := range items {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if it.guard != fTrue {
			sb.WriteString(it.guard.k + "?")
		}
		switch it.kind {
		case 'e':
			sb.WriteString(it.val.key())
		case 'r':
			sb.WriteString("for " + it.src.key() + "{" + itemsKey(it.items) + "}")
		case 's':
			sb.WriteString("..." + it.val.key())
		case 'a':
			sb.WriteString("<acc " + it.elem + ">")
		case 'c':
			sb.WriteString("rec(" + it.val.key() + ")")
		}
	}
	return sb.String()
}

func (v VF) key() string { return v.f.k }
func (v *VCond) key() string {
	if v.k == "" {
		v.k = "(" + v.c.k + "?" + v.a.key() + ":" + v.b.key() + ")"
	}
	return v.k
}
func (v VAcc) key() string  { return "acc:" + v.id }
func (v VFunc) key() string { return "func:" + v.name }
func (v *VMap) key() string {
	var sb strings.Builder
	sb.WriteString("map{")
	if v.base != nil {
		sb.WriteString("..." + v.base.key() + ",")
	}
	for _, e := range v.ents {
		sb.WriteString(e.guard.k + "?" + e.key.key() + ":" + e.val.key() + ",")
	}
	return sb.String() + "}"
}

func typeName(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string {
		s := p.Path()
		return s[strings.LastIndexByte(s, '/')+1:]
	})
}

func mkExpr(op string, t types.Type, args ...Val) Val { return &VExpr{op: op, args: args, typ: t} }
func mkInt(n int64) Val                               { return VConst{constant.MakeInt64(n), types.Typ[types.Int]} }
func mkStr(s string) Val                              { return VConst{constant.MakeString(s), types.Typ[types.String]} }

func mkCond(c *F, a, b Val) Val {
	if c.op == 'T' || a.key() == b.key() {
		return a
	}
	if c.op == 'F' {
		return b
	}
	if la, ok := a.(*VList); ok {
		if lb, ok := b.(*VList); ok {
			return mergeLists(c, la, lb)
		}
		if _, ok := b.(VNil); ok {
			return mergeLists(c, la, &VList{typ: la.typ})
		}
	} else if lb, ok := b.(*VList); ok {
		if _, ok := a.(VNil); ok {
			return mergeLists(c, &VList{typ: lb.typ}, lb)
		}
	}
	if ma, ok := a.(*VMap); ok {
		if mb, ok := b.(*VMap); ok && ma.id == mb.id && (ma.base == nil) == (mb.base == nil) && (ma.base == nil || ma.base.key() == mb.base.key()) {
			return mergeMaps(c, ma, mb)
		}
	}
	fa, oka := asF(a)
	fb, okb := asF(b)
	if oka && okb {
		return VF{fOr(fAnd(c, fa), fAnd(fNot(c), fb))}
	}
	if sa, ok := a.(*VStruct); ok {
		if sb, ok := b.(*VStruct); ok && types.Identical(sa.typ, sb.typ) && (sa.base == nil) == (sb.base == nil) && (sa.base == nil || sa.base.key() == sb.base.key()) {
			n := &VStruct{typ: sa.typ, fields: map[string]Val{}, base: sa.base}
			for f := range sa.fields {
				n.fields[f] = mkCond(c, sa.fields[f], vfield(sb, f))
			}
			for f := range sb.fields {
				if _, ok := sa.fields[f]; !ok {
					n.fields[f] = mkCond(c, vfield(sa, f), sb.fields[f])
				}
			}
			return n
		}
	}
	// c ? (c ? x : y) : b
	if ca, ok := a.(*VCond); ok && ca.c.k == c.k {
		a = ca.a
	}
	if cb, ok := b.(*VCond); ok {
		if cb.c.k == c.k {
			b = cb.b
		} else if cb.a.key() == a.key() {
			return mkCond(fOr(c, cb.c), a, cb.b)
		}
	}
	if a.key() == b.key() {
		return a
	}
	return &VCond{c: c, a: a, b: b}
}

// mergeMaps is the map that is a where c holds and b elsewhere: what both of them
// have stored first, and then what only one of them has stored.
func mergeMaps(c *F, a, b *VMap) Val {
	n := &VMap{typ: a.typ, id: a.id, base: a.base}
	i := 0
	for i < len(a.ents) && i < len(b.ents) {
		x, y := a.ents[i], b.ents[i]
		if x.key.key() != y.key.key() || x.val.key() != y.val.key() || x.guard.k != y.guard.k {
			break
		}
		n.ents = append(n.ents, x)
		i++
	}
	for _, e := range a.ents[i:] {
		n.ents = append(n.ents, mapEnt{fAnd(c, e.guard), e.key, e.val})
	}
	for _, e := range b.ents[i:] {
		n.ents = append(n.ents, mapEnt{fAnd(fNot(c), e.guard), e.key, e.val})
	}
	return n
}

func asF(v Val) (*F, bool) {
	switch v := v.(type) {
	case VF:
		return v.f, true
	case VConst:
		if v.v.Kind() == constant.Bool {
			if constant.BoolVal(v.v) {
				return fTrue, true
			}
			return fFalse, true
		}
	}
	return nil, false
}

func guardItems(g *F, items []Item) []Item {
	if g == fTrue {
		return items
	}
	out := make([]Item, 0, len(items))
	for _, it := range items {
		it.guard = fAnd(g, it.guard)
		if it.guard.op != 'F' {
			out = append(out, it)
		}
	}
	return out
}

func mergeLists(c *F, a, b *VList) Val {
	n := 0
	for n < len(a.items) && n < len(b.items) && itemsKey(a.items[n:n+1]) == itemsKey(b.items[n:n+1]) {
		n++
	}
	out := append([]Item{}, a.items[:n]...)
	ra, rb := a.items[n:], b.items[n:]
	// a pair of elements with the same value under complementary guards is one element
	for len(ra) > 0 && len(rb) > 0 && ra[0].kind == rb[0].kind {
		x, y := ra[0], rb[0]
		x.guard, y.guard = fTrue, fTrue
		if itemsKey([]Item{x}) != itemsKey([]Item{y}) {
			break
		}
		x.guard = fOr(fAnd(c, ra[0].guard), fAnd(fNot(c), rb[0].guard))
		out = append(out, x)
		ra, rb = ra[1:], rb[1:]
	}
	out = append(out, guardItems(c, ra)...)
	out = append(out, guardItems(fNot(c), rb)...)
	l := &VList{items: out, typ: a.typ, size: a.size}
	if l.size == nil {
		l.size = b.size
	}
	return l
}

// fieldOf selects a field of a struct value.
func vfield(s *VStruct, name string) Val {
	if v, ok := s.fields[name]; ok {
		return v
	}
	ft := fieldType(s.typ, name)
	if s.base != nil {
		return selectField(s.base, name, ft)
	}
	return zeroVal(ft)
}

func fieldType(t types.Type, name string) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}

func selectField(v Val, name string, ft types.Type) Val {
	switch v := v.(type) {
	case *VStruct:
		return vfield(v, name)
	case VSym:
		return VSym{v.path + "." + name, ft}
	case *VCond:
		return mkCond(v.c, selectField(v.a, name, ft), selectField(v.b, name, ft))
	case VNil:
		return VSym{"nil." + name, ft}
	}
	return mkExpr("."+name, ft, v)
}

func zeroVal(t types.Type) Val {
	if t == nil {
		return VNil{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return VConst{constant.MakeString(""), t}
		case u.Info()&types.IsBoolean != 0:
			return VF{fFalse}
		case u.Info()&types.IsNumeric != 0:
			return VConst{constant.MakeInt64(0), t}
		}
	case *types.Struct:
		return &VStruct{typ: t, fields: map[string]Val{}}
	case *types.Slice, *types.Array:
		return &VList{typ: t}
	}
	return VNil{}
}

// mapVal rebuilds a value bottom-up.
func mapVal(v Val, fn func(Val) Val) Val {
	switch x := v.(type) {
	case *VExpr:
		n := &VExpr{op: x.op, typ: x.typ, args: make([]Val, len(x.args))}
		for i, a := range x.args {
			n.args[i] = mapVal(a, fn)
		}
		return fn(n)
	case *VStruct:
		n := &VStruct{typ: x.typ, fields: map[string]Val{}}
		for f, a := range x.fields {
			n.fields[f] = mapVal(a, fn)
		}
		if x.base != nil {
			n.base = mapVal(x.base, fn)
		}
		return fn(n)
	case *VList:
		return fn(&VList{items: mapItems(x.items, fn), typ: x.typ, size: x.size})
	case *VCond:
		return fn(mkCond(x.c, mapVal(x.a, fn), mapVal(x.b, fn)))
	}
	return fn(v)
}

func mapItems(items []Item, fn func(Val) Val) []Item {
	out := make([]Item, len(items))
	for i, it := range items {
		if it.val != nil {
			it.val = mapVal(it.val, fn)
		}
		if it.kind == 'r' {
			it.items = mapItems(it.items, fn)
		}
		out[i] = it
	}
	return out
}

// walkVal visits the value and everything in it with the guard under which it is present.
func walkVal(v Val, g *F, fn func(v Val, g *F) bool) {
	if v == nil || !fn(v, g) {
		return
	}
	switch x := v.(type) {
	case *VExpr:
		for _, a := range x.args {
			walkVal(a, g, fn)
		}
	case *VStruct:
		for _, n := range fieldOrder(x) {
			walkVal(x.fields[n], g, fn)
		}
		if x.base != nil {
			walkVal(x.base, g, fn)
		}
	case *VList:
		walkItems(x.items, g, fn)
	case *VCond:
		walkVal(x.a, fAnd(g, x.c), fn)
		walkVal(x.b, fAnd(g, fNot(x.c)), fn)
	}
}

func walkItems(items []Item, g *F, fn func(v Val, g *F) bool) {
	for _, it := range items {
		ig := fAnd(g, it.guard)
		if it.val != nil {
			walkVal(it.val, ig, fn)
		}
		if it.kind == 'r' {
			walkItems(it.items, ig, fn)
		}
	}
}

// fieldOrder lists the present fields in declaration order.
func fieldOrder(s *VStruct) []string {
	var out []string
	seen := map[string]bool{}
	if s.typ != nil {
		if st, ok := s.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if n := st.Field(i).Name(); s.fields[n] != nil {
					out = append(out, n)
					seen[n] = true
				}
			}
		}
	}
	var rest []string
	for n := range s.fields {
		if !seen[n] {
			rest = append(rest, n)
		}
	}
	sort.Strings(rest)
	return append(out, rest...)
}

func constStr(v Val) (string, bool) {
	switch x := v.(type) {
	case VConst:
		if x.v.Kind() == constant.String {
			return constant.StringVal(x.v), true
		}
	case *VExpr:
		if strings.HasPrefix(x.op, "conv:") && len(x.args) == 1 {
			return constStr(x.args[0])
		}
	}
	return "", false
}

func constNum(v Val) (int64, bool) {
	switch x := v.(type) {
	case VConst:
		if n, ok := constant.Int64Val(constant.ToInt(x.v)); ok && x.v.Kind() == constant.Int {
			return n, true
		}
	case *VExpr:
		if strings.HasPrefix(x.op, "conv:") && len(x.args) == 1 {
			return constNum(x.args[0])
		}
	}
	return 0, false
}

func short(v Val, n int) string {
	s := v.key()
	if len(s) > n {
		s = s[:n] + "…"
	}
	return s
}

var _ = fmt.Sprint
var _ = strconv.Itoa

// same reports whether a and b are the same value.
func same(a, b Val) bool {
	switch x := a.(type) {
	case *VExpr:
		if y, ok := b.(*VExpr); ok && x == y {
			return true
		}
	case *VStruct:
		if y, ok := b.(*VStruct); ok && x == y {
			return true
		}
	case *VList:
		if y, ok := b.(*VList); ok && x == y {
			return true
		}
	case *VCond:
		if y, ok := b.(*VCond); ok && x == y {
			return true
		}
	case *VMap:
		if y, ok := b.(*VMap); ok && x == y {
			return true
		}
	}
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.key() == b.key()
}

// simplify removes the alternatives of v that the facts exclude.
func (in *Interp) simplify(v Val, facts []*F) Val {
	st := &state{pc: facts}
	switch x := v.(type) {
	case VF:
		return VF{in.shrink(x.f, st)}
	case *VCond:
		switch in.decide(st, x.c) {
		case 1:
			return in.simplify(x.a, facts)
		case -1:
			return in.simplify(x.b, facts)
		}
		return mkCond(in.shrink(x.c, st), in.simplify(x.a, with(facts, x.c)), in.simplify(x.b, with(facts, fNot(x.c))))
	case *VStruct:
		n := &VStruct{typ: x.typ, fields: map[string]Val{}}
		for f, a := range x.fields {
			n.fields[f] = in.simplify(a, facts)
		}
		if x.base != nil {
			n.base = in.simplify(x.base, facts)
		}
		return n
	case *VExpr:
		n := &VExpr{op: x.op, typ: x.typ, args: make([]Val, len(x.args))}
		for i, a := range x.args {
			n.args[i] = in.simplify(a, facts)
		}
		return n
	case *VList:
		return &VList{items: in.simplifyItems(x.items, facts), typ: x.typ, size: x.size}
	}
	return v
}

func with(facts []*F, f *F) []*F {
	st := &state{pc: append([]*F{}, facts...)}
	st.assume(f)
	return st.pc
}

func (in *Interp) simplifyItems(items []Item, facts []*F) []Item {
	var out []Item
	st := &state{pc: facts}
	for _, it := range items {
		d := in.decide(st, it.guard)
		if d == -1 {
			continue
		}
		if d == 1 {
			it.guard = fTrue
		} else {
			it.guard = in.shrink(it.guard, st)
		}
		inner := with(facts, it.guard)
		if it.val != nil {
			it.val = in.simplify(it.val, inner)
		}
		if it.kind == 'r' {
			it.items = in.simplifyItems(it.items, inner)
			if len(it.items) == 0 {
				continue
			}
		}
		out = append(out, it)
	}
	return out
}

// shrink drops the parts of f that are known to hold or not to hold.
func (in *Interp) shrink(f *F, st *state) *F {
	switch in.decide(st, f) {
	case 1:
		return fTrue
	case -1:
		return fFalse
	}
	if f.op != '&' && f.op != '|' {
		return f
	}
	var ks []*F
	for i, k := range f.kids {
		s := &state{pc: append([]*F{}, st.pc...)}
		for j, o := range f.kids {
			if i < j && f.op == '&' {
				s.assume(o)
			} else if i < j {
				s.assume(fNot(o))
			}
		}
		for _, o := range ks {
			if f.op == '&' {
				s.assume(o)
			} else {
				s.assume(fNot(o))
			}
		}
		ks = append(ks, in.shrink(k, s))
	}
	return fNary(f.op, ks)
}
