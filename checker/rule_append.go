package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// appends to lists that something else holds -----------------------------------
//
// append(x, v) may write v into the memory of x. If the result is kept under another name
// than x, and x is kept as well, the next append to x overwrites v. The rule follows the
// first operand of every append to where the list came from. Memory made by the function
// (a literal, make, the result of a call, a slice with a capacity) has no other holder. A
// list that was read from a location has one, and the append is the update of that location
// only if the result goes back there.

type appendAn struct {
	fn     *ssa.Function
	stores map[string][]ssa.Value // what the function stores, by location
}

// cellKey names the location at an address: two addresses with one key are one location.
func cellKey(v ssa.Value, depth int) string {
	if depth > 12 {
		return fmt.Sprintf("?%p", v)
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return cellKey(x.X, depth+1) + "." + fieldNameOf(x.X.Type(), x.Field)
	case *ssa.Field:
		return cellKey(x.X, depth+1) + "." + fieldNameOf(x.X.Type(), x.Field)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return cellKey(x.X, depth+1)
		}
	case *ssa.Global:
		return "@" + x.Name()
	case *ssa.Parameter:
		return "p:" + x.Name()
	case *ssa.FreeVar:
		return "f:" + x.Name()
	case *ssa.ChangeType:
		return cellKey(x.X, depth+1)
	case *ssa.IndexAddr:
		return cellKey(x.X, depth+1) + "[" + cellKey(x.Index, depth+1) + "]"
	case *ssa.Const:
		return x.String()
	}
	return fmt.Sprintf("%s@%p", v.Name(), v)
}

func fieldNameOf(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return fmt.Sprint(i)
}

// rootOf is what the location is a part of.
func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		default:
			return v
		}
	}
}

func isAppend(v ssa.Value) *ssa.Call {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		return c
	}
	return nil
}

// origins collects the locations whose list v may be, without a copy having been made.
func (a *appendAn) origins(v ssa.Value, seen map[ssa.Value]bool, out map[string]ssa.Value) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.origins(e, seen, out)
		}
	case *ssa.ChangeType:
		a.origins(x.X, seen, out)
	case *ssa.Slice:
		if x.Max == nil {
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
				a.origins(x.X, seen, out)
			}
		}
	case *ssa.Call:
		if c := isAppend(x); c != nil {
			a.origins(c.Call.Args[0], seen, out)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		key := cellKey(x.X, 0)
		for _, s := range a.stores[key] {
			a.origins(s, seen, out)
		}
		if _, ok := rootOf(x.X).(*ssa.Alloc); ok {
			return // made by the function: empty, or what the function stored
		}
		out[key] = x
	case *ssa.Field:
		out[cellKey(x, 0)] = x
	}
}

// goes reports where the result of the append ends up.
func (a *appendAn) goes(v ssa.Value, seen map[ssa.Value]bool, keys map[string]bool) (kept bool) {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == v {
				keys[cellKey(x.Addr, 0)] = true
				kept = true
				// what a variable holds can be stored elsewhere
				for _, b := range a.fn.Blocks {
					for _, in := range b.Instrs {
						if l, ok := in.(*ssa.UnOp); ok && l.Op == token.MUL && cellKey(l.X, 0) == cellKey(x.Addr, 0) {
							a.goes(l, seen, keys)
						}
					}
				}
			}
		case *ssa.Phi:
			kept = a.goes(x, seen, keys) || kept
		case *ssa.ChangeType:
			kept = a.goes(x, seen, keys) || kept
		case *ssa.Slice:
			kept = a.goes(x, seen, keys) || kept
		case *ssa.Call:
			if isAppend(x) == nil {
				continue
			}
			if x.Call.Args[0] == v {
				kept = a.goes(x, seen, keys) || kept
			}
		case *ssa.Return, *ssa.MakeInterface, *ssa.Send, *ssa.MapUpdate:
			kept = true
		}
	}
	return kept
}

// loops reports whether the block can be reached from itself.
func loops(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	return false
}

// checkAppends applies the rule to the functions of the package.
func checkAppends(p *Prog, rep *Report, pkg string) {
	rep.Rule("append", "a list is appended to where it is held, or after it was copied")
	for _, fn := range p.funcsIn(pkg) {
		a := &appendAn{fn: fn, stores: map[string][]ssa.Value{}}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					k := cellKey(s.Addr, 0)
					a.stores[k] = append(a.stores[k], s.Val)
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				c := isAppend(v)
				if c == nil {
					continue
				}
				where := p.pos(c.Pos())
				from := map[string]ssa.Value{}
				a.origins(c.Call.Args[0], map[ssa.Value]bool{}, from)
				to := map[string]bool{}
				kept := a.goes(c, map[ssa.Value]bool{}, to)
				bad := ""
				for _, k := range sortedKeys(from) {
					if kept && !to[k] && loops(b) {
						bad = k
					}
				}
				if bad == "" {
					rep.Ok(p.fname(fn) + " " + where)
					continue
				}
				rep.Bad(p.fname(fn), "%s: what is appended to is still held by %s, which does not get the result: the next append to it overwrites the element", where, bad)
			}
		}
	}
}
