package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// A labelled loop over a stack of frames, which goes through a tree of structs without
// recursion, is evaluated as one step and one return: what it does with an arbitrary
// field of an arbitrary frame, and what it does with a frame that has no more fields.
//
//	L: for len(stack) > 0 {
//		loop := stack[len(stack)-1]
//		for COND {
//			STEP (push, and go on with L, or go on with the next field)
//		}
//		RETURN (pop)
//	}
//
// What it starts with, and what the step and the return do with the frame and the stack,
// is remembered under ghost:init, ghost:step and ghost:done.
func (in *Interp) stackLoop(fr *frame, st *state, s *ast.LabeledStmt) []outcome {
	bad := func(why string) { in.giveUp(s.Pos(), "labelled loop (%s)", why) }
	outer, ok := s.Stmt.(*ast.ForStmt)
	if !ok || !in.elems || outer.Init != nil || outer.Post != nil || in.stack1 != nil {
		bad("form")
	}
	c, ok := outer.Cond.(*ast.BinaryExpr)
	if !ok {
		bad("condition")
	}
	call, ok := c.X.(*ast.CallExpr)
	if !ok || len(call.Args) != 1 {
		bad("condition")
	}
	sid, ok := call.Args[0].(*ast.Ident)
	if !ok {
		bad("stack")
	}
	sobj := fr.info.Uses[sid]
	slt, ok := sobj.Type().Underlying().(*types.Slice)
	if !ok {
		bad("stack")
	}
	pt, ok := slt.Elem().(*types.Pointer)
	if !ok {
		bad("stack")
	}
	if len(outer.Body.List) < 2 {
		bad("body")
	}
	top, ok := outer.Body.List[0].(*ast.AssignStmt)
	if !ok || top.Tok != token.DEFINE || len(top.Lhs) != 1 {
		bad("top of the stack")
	}
	id, ok := top.Lhs[0].(*ast.Ident)
	ix, ok2 := top.Rhs[0].(*ast.IndexExpr)
	if !ok || !ok2 {
		bad("top of the stack")
	}
	if x, ok := ix.X.(*ast.Ident); !ok || fr.info.Uses[x] != sobj {
		bad("top of the stack")
	}
	inner, ok := outer.Body.List[1].(*ast.ForStmt)
	if !ok || inner.Init != nil || inner.Post != nil || inner.Cond == nil {
		bad("inner loop")
	}
	sloc := in.locOf(fr, sobj)
	l, ok := st.locs[sloc].(*VList)
	if !ok {
		bad("stack")
	}
	st.locs["ghost:init"] = content(st, l, nil)
	// frames that are there already are as the loop leaves them, from now on
	for i, it := range l.items {
		if p, ok := it.val.(VPtr); ok {
			st.locs[p.loc] = VSym{"@frames" + string(rune('0'+i)), pt.Elem()}
		}
	}
	in.stack1 = map[string]bool{s.Label.Name: true}
	defer func() { in.stack1 = nil }()
	rest := func() *VList {
		return &VList{items: []Item{{guard: fTrue, kind: 's', val: VSym{"@rest", sobj.Type()}}}, typ: sobj.Type()}
	}

	// the step
	p := in.alloc(st, VSym{"@frame", pt.Elem()}, pt.Elem()).(VPtr)
	in.bind(fr, st, id, p)
	st.locs[sloc] = rest()
	var out []outcome
	var conts []*state
	more := in.cond(fr, st, inner.Cond)
	st.locs["ghost:more"] = VF{more}
	step := st.clone()
	step.assume(more)
	for _, o := range in.block(fr, step, inner.Body.List) {
		switch o.kind {
		case oNext, oContinue:
			o.st.locs["ghost:step"] = content(o.st, mkExpr("step", nil, p, o.st.locs[sloc], again(o.st)), nil)
			conts = append(conts, o.st)
		case oReturn:
			out = append(out, o)
		default:
			bad("break")
		}
	}
	st.assume(fNot(more))
	cur := in.join(append(conts, st))

	// the return
	cur.locs[p.loc] = VSym{"@frame", pt.Elem()}
	cur.locs[sloc] = rest()
	in.stack1 = nil
	for _, o := range in.block(fr, cur, outer.Body.List[2:]) {
		if o.kind != oNext {
			bad("return from a frame")
		}
		cur = o.st
	}
	parts := []Val{p, cur.locs[sloc]}
	var changed []string // what the frame points to
	for k := range cur.locs {
		if strings.HasPrefix(k, "sym:@frame") {
			changed = append(changed, k)
		}
	}
	sort.Strings(changed)
	for _, k := range changed {
		parts = append(parts, mkExpr(k, nil, cur.locs[k]))
	}
	cur.locs["ghost:done"] = content(cur, mkExpr("done", nil, parts...), nil)
	cur.locs[sloc] = &VList{typ: sobj.Type()}
	return append(out, outcome{kind: oNext, st: cur})
}

func again(st *state) Val {
	if v := st.locs["ghost:again"]; v != nil {
		return v
	}
	return VF{fFalse}
}
