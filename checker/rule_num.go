package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// numRange: an abstract numeric value set.
type numKind struct {
	float  bool
	signed bool
	bits   int
}

func basicNum(t types.Type) (numKind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return numKind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return numKind{signed: true, bits: 64}, true
	case types.Int8:
		return numKind{signed: true, bits: 8}, true
	case types.Int16:
		return numKind{signed: true, bits: 16}, true
	case types.Int32:
		return numKind{signed: true, bits: 32}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return numKind{bits: 64}, true
	case types.Uint8:
		return numKind{bits: 8}, true
	case types.Uint16:
		return numKind{bits: 16}, true
	case types.Uint32:
		return numKind{bits: 32}, true
	case types.Float32:
		return numKind{float: true, signed: true, bits: 32}, true
	case types.Float64:
		return numKind{float: true, signed: true, bits: 64}, true
	}
	return numKind{}, false
}

func (k numKind) String() string {
	switch {
	case k.float:
		return fmt.Sprintf("float%d", k.bits)
	case k.signed:
		return fmt.Sprintf("int%d", k.bits)
	}
	return fmt.Sprintf("uint%d", k.bits)
}

// fits: every value of a is representable in b.
func (a numKind) fits(b numKind) bool {
	switch {
	case a.float && b.float:
		return a.bits <= b.bits
	case a.float:
		return false
	case b.float:
		m := 24
		if b.bits == 64 {
			m = 53
		}
		w := a.bits
		if a.signed {
			w--
		}
		return w <= m
	case a.signed == b.signed:
		return a.bits <= b.bits
	case a.signed:
		return false
	}
	return a.bits < b.bits
}

// numOf computes the set of values v can hold, looking through widening
// conversions and strconv.Parse calls with a constant bit size.
func numOf(v ssa.Value) (numKind, bool) {
	k, ok := basicNum(v.Type())
	if !ok {
		return k, false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		// the widest of the incoming values; constants are checked by the compiler
		acc := numKind{}
		for _, e := range x.Edges {
			if _, isC := e.(*ssa.Const); isC || e == v {
				continue
			}
			if _, isPhi := e.(*ssa.Phi); isPhi {
				return k, true
			}
			in, ok := numOf(e)
			if !ok || in.float != k.float || in.signed != k.signed {
				return k, true
			}
			if in.bits > acc.bits {
				acc = in
			}
		}
		if acc.bits > 0 {
			return acc, true
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 {
			if f := c.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "strconv" {
				args := c.Call.Args
				if bs, ok := constInt(args[len(args)-1]); ok && (f.Name() == "ParseInt" || f.Name() == "ParseUint" || f.Name() == "ParseFloat") {
					if bs == 0 {
						bs = 64
					}
					k.bits = int(bs)
				}
			}
		}
	case *ssa.Convert:
		if in, ok := numOf(x.X); ok && in.fits(k) && in.float == k.float {
			return in, true
		}
	}
	return k, true
}

func init() {
	register("C04", "other",
		"Every numeric conversion, strconv call and literal formatting call of package pgsql is enumerated from SSA; a value-range abstraction (signedness, width, integer or float, refined by the constant bit size of strconv.Parse calls) decides whether the step can change the number. Covers every converter; does not model arithmetic other than conversions.",
		func(p *Prog, r *Report) {
			fns := p.funcsIn("pgsql")
			integral := map[string]bool{} // converter methods of integer-valued PostgreSQL types
			for _, c := range converters(p) {
				all := len(c.ctor) > 0
				for _, ct := range c.ctor {
					m := rxCtor.FindStringSubmatch(ct.Name())
					if m == nil || !integralPG[strings.TrimPrefix(ctorPGType(m[1]), "_")] {
						all = false
					}
				}
				if all {
					for _, f := range []*ssa.Function{c.scan, c.value} {
						if f != nil {
							integral[p.fname(f)] = true
						}
					}
				}
			}
			r.Rule("lossless-conversion", "no converter changes a number through a conversion between numeric types: each conversion is from a set of values the target type can hold exactly (float to integer only where the PostgreSQL type is an integer)")
			for _, f := range fns {
				name := p.fname(f)
				n := 0
				instrs(f, func(in ssa.Instruction) {
					c, ok := in.(*ssa.Convert)
					if !ok {
						return
					}
					to, ok2 := basicNum(c.Type())
					from, ok1 := numOf(c.X)
					if !ok1 || !ok2 {
						return
					}
					if _, isC := c.X.(*ssa.Const); isC {
						return
					}
					n++
					what := fmt.Sprintf("%s: %s -> %s", name, from, to)
					if from.fits(to) || (integral[name] && from.float != to.float) || constGuarded(c.X, to, c.Block(), 0) {
						r.Ok(what)
						return
					}
					r.Bad(fmt.Sprintf("%s|%s->%s", name, from, to), "%s: the conversion at %s can change the value: not every %s is representable as %s", name, p.pos(c.Pos()), from, to)
				})
			}
			r.Min(100)
			r.Rule("format-exact", "numbers are formatted in base 10 (base 2 for bit strings) and floats with the shortest representation that round-trips at their own width")
			for _, f := range fns {
				name := p.fname(f)
				instrs(f, func(in ssa.Instruction) {
					c, ok := in.(*ssa.Call)
					if !ok {
						return
					}
					g := c.Call.StaticCallee()
					if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "strconv" {
						return
					}
					args := c.Call.Args
					switch g.Name() {
					case "AppendFloat", "FormatFloat":
						k := len(args)
						val, prec, bs := args[k-4], args[k-2], args[k-1]
						from, _ := numOf(val)
						pv, ok1 := constInt(prec)
						bv, ok2 := constInt(bs)
						if ok1 && ok2 && pv == -1 && int(bv) >= from.bits {
							r.Ok(name + " " + g.Name())
						} else {
							r.Bad(name+"|"+g.Name(), "%s: %s at %s does not format a %s with the shortest round-tripping representation (precision %s, bit size %s)", name, g.Name(), p.pos(c.Pos()), from, prec, bs)
						}
					case "AppendInt", "AppendUint", "FormatInt", "FormatUint":
						b, ok := constInt(args[len(args)-1])
						if ok && (b == 10 || b == 2) {
							r.Ok(fmt.Sprintf("%s %s base %d", name, g.Name(), b))
						} else {
							r.Bad(name+"|"+g.Name(), "%s: %s at %s uses base %s", name, g.Name(), p.pos(c.Pos()), args[len(args)-1])
						}
					case "ParseInt", "ParseUint":
						b, ok := constInt(args[1])
						if ok && (b == 10 || b == 2) {
							r.Ok(fmt.Sprintf("%s %s base %d", name, g.Name(), b))
						} else {
							r.Bad(name+"|"+g.Name(), "%s: %s at %s uses base %s", name, g.Name(), p.pos(c.Pos()), args[1])
						}
					}
				})
			}
			r.Min(100)
		})
}

// integralPG: PostgreSQL types whose values (or bounds, or elements) are integers;
// a floating-point Go value stored there is truncated by definition.
var integralPG = map[string]bool{"int2": true, "int4": true, "int8": true, "int2vector": true, "int4range": true, "int8range": true}

// constGuarded: block b is only entered over branches that pin v to constants
// (or an upper bound) the target type can hold.
func constGuarded(v ssa.Value, to numKind, b *ssa.BasicBlock, depth int) bool {
	if depth > 64 || len(b.Preds) == 0 || to.float {
		return false
	}
	max := uint64(1)<<uint(to.bits) - 1
	if to.signed {
		max = uint64(1)<<uint(to.bits-1) - 1
	}
	for _, pr := range b.Preds {
		if iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && bo.X == v {
				if c, ok := constInt(bo.Y); ok && c >= 0 && uint64(c) <= max {
					onTrue := pr.Succs[0] == b && pr.Succs[1] != b
					onFalse := pr.Succs[1] == b && pr.Succs[0] != b
					nonneg := false
					if k, ok := basicNum(v.Type()); ok && !k.signed {
						nonneg = true
					}
					switch {
					case bo.Op == token.EQL && onTrue, bo.Op == token.NEQ && onFalse:
						continue
					case nonneg && (bo.Op == token.LSS || bo.Op == token.LEQ) && onTrue:
						continue
					case nonneg && (bo.Op == token.GEQ || bo.Op == token.GTR) && onFalse:
						continue
					}
				}
			}
		}
		if !constGuarded(v, to, pr, depth+1) {
			return false
		}
	}
	return true
}
