package main

import (
	"go/types"
	"strings"
)

// goHook writes lists of Go nodes element by element; it reports whether it did.
func (r *genRun) goHook(st *state, recv Val, walk *types.Func) bool {
	in := r.in
	switch typeName(dynType(recv)) {
	case "golang.ArgsList":
		a, ok := recv.(*VStruct)
		if !ok {
			return false
		}
		items := listOf(field(a, "List"))
		if r.argsMark {
			for i := len(items) - 1; i >= 0; i-- {
				it := items[i]
				if n, ok := constOfIdent(it.val); ok && n == "queryString" && it.kind == 'e' {
					r.goList(st, items[:i+1], walk)
					in.event(st, "w", mkStr(" «args»"))
					return true
				}
			}
		}
		if len(items) == 1 && r.argsMark && items[0].kind == 'e' && isIntArg(items[0].val) {
			in.event(st, "w", mkStr("«n»"))
			return true
		}
		r.goList(st, items, walk)
		ell, ok := stripConv(field(a, "Ellipsis")).(VF)
		if ok {
			in.fork(st, ell.f, func(s *state) []Val { in.event(s, "w", mkStr(" ...")); return nil }, func(s *state) []Val { return nil })
		}
		return true
	case "golang.StructLit":
		a, ok := recv.(*VStruct)
		if !ok || !r.elems {
			return false
		}
		in.event(st, "w", mkStr("{"))
		r.goList(st, listOf(field(a, "Elems")), walk)
		in.event(st, "w", mkStr("}"))
		return true
	case "golang.ExprList", "golang.ValueSpecList", "golang.ParamList":
		r.goList(st, listOf(recv), walk)
		return true
	}
	return false
}

func (r *genRun) goList(st *state, items []Item, walk *types.Func) {
	in := r.in
	for _, it := range items {
		it := it
		in.fork(st, it.guard, func(s *state) []Val {
			switch it.kind {
			case 'e':
				in.event(s, "w", mkStr("; "))
				in.method(nil, s, walk, it.val, []Val{VSym{"@w", nil}}, 0)
			case 'r':
				in.event(s, "w", mkStr(" [for "+it.src.key()+": "))
				r.goList(s, it.items, walk)
				in.event(s, "w", mkStr(" ] "))
			default:
				in.event(s, "w", mkExpr("node", types.Typ[types.String], &VList{items: []Item{it}}))
			}
			return nil
		}, func(s *state) []Val { return nil })
	}
}

// goAcc writes an access path in the loop in which it is built.
func (r *genRun) goAcc(st *state, a VAcc, walk *types.Func) bool {
	if a.info == nil || a.info.step == nil || a.info.init == nil {
		return false
	}
	s := isNode(a.info.step, "golang.SelectorExpr")
	if s == nil {
		return false
	}
	x, ok := field(s, "X").(VAcc)
	if !ok || x.id != a.id {
		return false
	}
	sel, ok := chain(field(s, "Sel"))
	if !ok {
		return false
	}
	r.in.method(nil, st, walk, a.info.init, []Val{VSym{"@w", nil}}, 0)
	r.in.event(st, "w", mkStr(" [for "+a.info.src+": ."+sel+"]"))
	return true
}

// goFold writes an access path that is built in a loop.
func (r *genRun) goFold(st *state, x *VExpr, walk *types.Func) bool {
	if len(x.args) != 3 {
		return false
	}
	s := isNode(x.args[2], "golang.SelectorExpr")
	if s == nil {
		return false
	}
	a, ok := field(s, "X").(VAcc)
	if !ok || !strings.HasPrefix(a.id, x.args[0].key()+"/") {
		return false
	}
	sel, ok := chain(field(s, "Sel"))
	if !ok {
		return false
	}
	r.in.method(nil, st, walk, x.args[1], []Val{VSym{"@w", nil}}, 0)
	r.in.event(st, "w", mkStr(" [for "+x.args[0].key()+": ."+sel+"]"))
	return true
}

// isIntArg reports whether an argument is written as an integer.
func isIntArg(v Val) bool {
	t := dynType(v)
	if t == nil {
		return false
	}
	if typeName(t) == "golang.IntLit" {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
