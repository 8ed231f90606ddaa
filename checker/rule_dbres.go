package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func checkT05(p *Prog, r *Report) {
	fns := toolFuncs(p)

	r.Rule("rows-closed", "the rows of every query are closed on every path on which the query succeeded")
	r.Rule("rows-error", "the error of the rows is consulted after the loop over them, on every path that goes on to succeed")
	r.rule = "rows-closed"
	for _, f := range fns {
		if !inPkg(f, toolPkgs...) {
			continue
		}
		f := f
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || !yieldsRows(c) {
				return
			}
			rows := rowsOf(c)
			key := p.fname(f) + "|" + calleeName(p, &c.Call)
			r.rule = "rows-closed"
			if at := rowsLeak(p, f, c, rows); at != "" {
				r.Bad(key, "%s: the rows of the query at %s are still open at the return at %s", p.fname(f), p.pos(c.Pos()), at)
			} else {
				r.Ok(key)
			}
			// every Next loop
			instrs(f, func(in2 ssa.Instruction) {
				n, ok := in2.(*ssa.Call)
				if !ok || calleeString(&n.Call) != "(*database/sql.Rows).Next" || !rows[n.Call.Args[0]] {
					return
				}
				r.rule = "rows-error"
				if at := errUnchecked(p, f, n, rows); at != "" {
					r.Bad(key, "%s: after the loop over the rows of the query at %s the return at %s reports success without consulting the rows' error", p.fname(f), p.pos(c.Pos()), at)
				} else {
					r.Ok(key)
				}
			})
			// and what Scan, Err and Close report is not ignored
			instrs(f, func(in2 ssa.Instruction) {
				n, ok := in2.(*ssa.Call)
				if !ok || len(n.Call.Args) == 0 || !rows[n.Call.Args[0]] {
					return
				}
				switch calleeString(&n.Call) {
				case "(*database/sql.Rows).Scan", "(*database/sql.Rows).Err":
				default:
					return
				}
				r.rule = "rows-error"
				k2 := key + "|" + n.Call.StaticCallee().Name()
				vals, dropped := errorValues(p, n)
				if dropped {
					r.Bad(k2, "%s: the failure reported at %s is dropped", p.fname(f), p.pos(n.Pos()))
					return
				}
				for _, e := range vals {
					if at, bad := errorSwallowed(p, f, e, nil); bad {
						r.Bad(k2, "%s: when the rows report a failure at %s, the return at %s reports success", p.fname(f), p.pos(n.Pos()), at)
						return
					}
				}
				r.Ok(k2)
			})
		})
	}
	r.rule = "rows-error"
	r.Min(7)
	r.rule = "rows-closed"
	r.Min(7)

	r.Rule("locks-released", "every lock that is taken is released on every path out of the function")
	for _, f := range fns {
		if !inPkg(f, toolPkgs...) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			kind, recv := lockCall(&c.Call)
			if kind != "Lock" && kind != "RLock" {
				return
			}
			key := p.fname(f) + "|" + kind
			if at := unreleased(p, f, c, kind, recv); at != "" {
				r.Bad(key, "%s: the lock taken at %s is still held at %s", p.fname(f), p.pos(c.Pos()), at)
			} else {
				r.Ok(key)
			}
		})
	}
	r.Min(4)

	r.Rule("guarded-cache", "an access to a package-level or shared cache map happens only while its lock is held")
	r.Rule("complete-cache", "what is put into a cache is finished: on no path after the insertion is the object still being filled in")
	r.Rule("cache-key", "everything a cached result is computed from, apart from the program itself, is part of the cache key")
	for _, f := range fns {
		if !inPkg(f, toolPkgs...) || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		f := f
		instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if cacheOf(x.Map) == "" {
					return
				}
				key := p.fname(f) + "|" + cacheOf(x.Map)
				r.rule = "guarded-cache"
				if localObject(f, x.Map) {
					return // a fresh object, not shared yet
				}
				if heldAt(f, in, false) {
					r.Ok(key + "|write")
				} else {
					r.Bad(key+"|write", "%s writes the cache %s at %s without holding its lock", p.fname(f), cacheOf(x.Map), p.pos(in.Pos()))
				}
				r.rule = "complete-cache"
				if at := filledAfter(p, f, x); at != "" {
					r.Bad(key, "%s: the object put into the cache %s at %s is still being filled in at %s", p.fname(f), cacheOf(x.Map), p.pos(in.Pos()), at)
				} else {
					r.Ok(key)
				}
			case *ssa.Lookup:
				if cacheOf(x.X) == "" || localObject(f, x.X) {
					return
				}
				if !written(p, fns, cacheOf(x.X)) {
					return
				}
				key := p.fname(f) + "|" + cacheOf(x.X)
				r.rule = "guarded-cache"
				if heldAt(f, in, true) {
					r.Ok(key + "|read")
				} else {
					r.Bad(key+"|read", "%s reads the cache %s at %s without holding its lock", p.fname(f), cacheOf(x.X), p.pos(in.Pos()))
				}
			}
		})
	}
	r.rule = "guarded-cache"
	r.Min(5)
	r.rule = "complete-cache"
	r.Min(3)
	r.rule = "cache-key"
	checkRelCacheKey(p, r)
}

// checkRelCacheKey: the analysis cache is keyed by the type together with the
// package under analysis and the options the result is computed from.
func checkRelCacheKey(p *Prog, r *Report) {
	// what the cached analysis reads of the analyzer's state
	for _, f := range p.funcsIn("internal/analysis") {
		instrs(f, func(in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || cacheOf(mu.Map) == "" || f.Name() == "init" {
				return
			}
			state := stateParam(f)
			if state == nil {
				return
			}
			need := map[string]bool{}
			readsState(p, f, need, map[*ssa.Function]bool{}, mu)
			have := map[string]bool{}
			keyParts(p, mu.Key, have, map[ssa.Value]bool{})
			for k := range need {
				key := p.fname(f) + "|" + k
				if have[k] {
					r.Ok(key)
				} else {
					r.Bad(key, "%s: the cached result depends on %s, which is not part of the cache key", p.fname(f), k)
				}
			}
		})
	}
	r.Min(4)
}

func stateParam(f *ssa.Function) *ssa.Parameter {
	for _, pr := range f.Params {
		if strings.HasSuffix(pr.Type().String(), "analysis.analysis") {
			return pr
		}
	}
	return nil
}

// readsState collects the fields of the analyzer's state that f and its callees
// read, other than those that identify the program (file set) or are written as
// output (info, filter, query).
func readsState(p *Prog, f *ssa.Function, out map[string]bool, seen map[*ssa.Function]bool, stop ssa.Instruction) {
	if seen[f] || f.Blocks == nil {
		return
	}
	if f.Name() == "error" { // only read on failure, and failures are not cached
		return
	}
	seen[f] = true
	instrs(f, func(in ssa.Instruction) {
		if fa, ok := in.(*ssa.FieldAddr); ok {
			n := statePath(fa)
			if n != "" && loaded(fa) {
				out[n] = true
			}
		}
		if c, ok := in.(ssa.CallInstruction); ok {
			if g := calleeOf(c.Common()); g != nil && fnPkg(g) == fnPkg(f) {
				readsState(p, g, out, seen, nil)
			}
		}
	})
}

func loaded(fa *ssa.FieldAddr) bool {
	for _, ref := range *fa.Referrers() {
		if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
			return true
		}
	}
	return false
}

// statePath: analysis.pkgPath, config option names.
func statePath(fa *ssa.FieldAddr) string {
	k := fieldKey(fa.X.Type(), fa.Field)
	k = k[strings.LastIndexByte(k, '/')+1:]
	switch {
	case k == "analysis.analysis.pkgPath":
		return "the package under analysis"
	case strings.HasPrefix(k, "config.String.Value"), strings.HasPrefix(k, "config.Bool.Value"), strings.HasPrefix(k, "config.StringSlice.Value"):
		if fa2, ok := fa.X.(*ssa.FieldAddr); ok {
			k2 := fieldKey(fa2.X.Type(), fa2.Field)
			if strings.Contains(k2, "config.Config.") {
				return "the option " + k2[strings.LastIndexByte(k2, '.')+1:]
			}
		}
		return ""
	}
	return ""
}

// keyParts lists the state that flows into the key.
func keyParts(p *Prog, v ssa.Value, out map[string]bool, seen map[ssa.Value]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	if fa, ok := v.(*ssa.FieldAddr); ok {
		if n := statePath(fa); n != "" {
			out[n] = true
		}
		return
	}
	if al, ok := v.(*ssa.Alloc); ok {
		for _, s := range storesTo(al) {
			keyParts(p, s, out, seen)
		}
		for _, ref := range *al.Referrers() {
			switch y := ref.(type) {
			case *ssa.IndexAddr:
				for _, r2 := range *y.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == y {
						keyParts(p, st.Val, out, seen)
					}
				}
			case *ssa.FieldAddr:
				for _, r2 := range *y.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == y {
						keyParts(p, st.Val, out, seen)
					}
				}
			}
		}
		return
	}
	if c, ok := v.(*ssa.Call); ok {
		if g := c.Call.StaticCallee(); g != nil && fnPkg(g) != nil && strings.HasPrefix(fnPkg(g).Path(), modPath) {
			for _, b := range g.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, x := range rt.Results {
						keyParts(p, x, out, seen)
					}
				}
			}
		}
	}
	if in, ok := v.(ssa.Instruction); ok {
		for _, op := range in.Operands(nil) {
			keyParts(p, *op, out, seen)
		}
	}
}

func yieldsRows(c *ssa.Call) bool {
	res := c.Call.Signature().Results()
	if res.Len() != 2 || res.At(0).Type().String() != "*database/sql.Rows" {
		return false
	}
	g := c.Call.StaticCallee()
	return g != nil
}

// rowsLeak: from the query, find a return reachable with the rows neither
// closed nor scheduled to be closed.
func rowsLeak(p *Prog, f *ssa.Function, q *ssa.Call, rows map[ssa.Value]bool) string {
	var errv []ssa.Value
	for _, ref := range *q.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 1 {
			errv = errAliases(ex)
		}
	}
	isErr := map[ssa.Value]bool{}
	for _, e := range errv {
		isErr[e] = true
	}
	type edge struct{ from, to *ssa.BasicBlock }
	seen := map[*ssa.BasicBlock]bool{}
	bad := ""
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for _, in := range b.Instrs[from:] {
			switch x := in.(type) {
			case ssa.CallInstruction:
				cc := x.Common()
				if calleeString(cc) == "(*database/sql.Rows).Close" && rows[cc.Args[0]] {
					return
				}
				// handed over to a helper or a deferred closure
				for _, a := range cc.Args {
					if rows[a] && calleeString(cc) != "(*database/sql.Rows).Next" && calleeString(cc) != "(*database/sql.Rows).Scan" && calleeString(cc) != "(*database/sql.Rows).Err" {
						if g := calleeOf(cc); g != nil && closesParam(g, cc, a) {
							return
						}
					}
				}
				if mc, ok := cc.Value.(*ssa.MakeClosure); ok && closureCloses(mc, rows) {
					return
				}
			case *ssa.Return:
				for _, v := range x.Results {
					if rows[v] {
						return // the caller owns them
					}
				}
				bad = p.pos(x.Pos())
				return
			case *ssa.If:
				if bo, ok := x.Cond.(*ssa.BinOp); ok && (isErr[bo.X] || isErr[bo.Y]) {
					e := bo.X
					if isErr[bo.Y] {
						e = bo.Y
					}
					if i := failEdge(bo, e); i >= 0 {
						s := b.Succs[1-i]
						if !seen[s] {
							seen[s] = true
							walk(s, 0)
						}
						return
					}
				}
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	for i, in := range q.Block().Instrs {
		if in == ssa.Instruction(q) {
			walk(q.Block(), i+1)
		}
	}
	return bad
}

func closesParam(g *ssa.Function, c *ssa.CallCommon, a ssa.Value) bool {
	if g.Blocks == nil {
		return false
	}
	for i, x := range c.Args {
		if x != a || i >= len(g.Params) {
			continue
		}
		ok := false
		instrs(g, func(in ssa.Instruction) {
			if cc, is := in.(ssa.CallInstruction); is && calleeString(cc.Common()) == "(*database/sql.Rows).Close" && cc.Common().Args[0] == g.Params[i] {
				if in.Block() == g.Blocks[0] {
					ok = true
				}
			}
		})
		return ok
	}
	return false
}

func closureCloses(mc *ssa.MakeClosure, rows map[ssa.Value]bool) bool {
	fn, _ := mc.Fn.(*ssa.Function)
	if fn == nil {
		return false
	}
	ok := false
	instrs(fn, func(in ssa.Instruction) {
		if cc, is := in.(ssa.CallInstruction); is && calleeString(cc.Common()) == "(*database/sql.Rows).Close" {
			ok = true
		}
	})
	return ok
}

// errUnchecked: a path from the end of the loop to a successful return without
// rows.Err().
func errUnchecked(p *Prog, f *ssa.Function, next *ssa.Call, rows map[ssa.Value]bool) string {
	res := f.Signature.Results()
	var fidx []int
	for i := 0; i < res.Len(); i++ {
		if isFailureType(p, res.At(i).Type()) {
			fidx = append(fidx, i)
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	bad := ""
	var walk func(b, pred *ssa.BasicBlock, from int)
	walk = func(b, pred *ssa.BasicBlock, from int) {
		for _, in := range b.Instrs[from:] {
			switch x := in.(type) {
			case *ssa.Call:
				if calleeString(&x.Call) == "(*database/sql.Rows).Err" && rows[x.Call.Args[0]] {
					return
				}
				if x == next {
					return
				}
			case *ssa.Return:
				fails := false
				for _, i := range fidx {
					v := x.Results[i]
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b {
						for j, pb := range b.Preds {
							if pb == pred {
								v = ph.Edges[j]
							}
						}
					}
					if k, isC := v.(*ssa.Const); !isC || !okConst(k) {
						fails = true
					}
				}
				if !fails {
					bad = p.pos(x.Pos())
				}
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, b, 0)
			}
		}
	}
	// the edge on which Next reports no more rows
	for _, ref := range *next.Referrers() {
		if br, ok := ref.(*ssa.If); ok {
			walk(br.Block().Succs[1], br.Block(), 0)
		}
		if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.NOT {
			for _, r2 := range *u.Referrers() {
				if br, ok := r2.(*ssa.If); ok {
					walk(br.Block().Succs[0], br.Block(), 0)
				}
			}
		}
	}
	return bad
}

// lockCall: the kind of lock operation and the key of the lock it works on.
func lockCall(c *ssa.CallCommon) (kind, recv string) {
	n := calleeString(c)
	if !strings.HasPrefix(n, "(*sync.RWMutex).") && !strings.HasPrefix(n, "(*sync.Mutex).") {
		return "", ""
	}
	kind = n[strings.LastIndexByte(n, '.')+1:]
	return kind, exprKey(c.Args[0], 0)
}

func unreleased(p *Prog, f *ssa.Function, lock *ssa.Call, kind, recv string) string {
	un := "Unlock"
	if kind == "RLock" {
		un = "RUnlock"
	}
	seen := map[*ssa.BasicBlock]bool{}
	bad := ""
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for _, in := range b.Instrs[from:] {
			switch x := in.(type) {
			case ssa.CallInstruction:
				if k, rv := lockCall(x.Common()); k == un && rv == recv {
					return
				} else if x == ssa.CallInstruction(lock) || (k == "Lock" && rv == recv) {
					bad = p.pos(x.Pos()) + " (taken again)"
					return
				}
				if mc, ok := x.Common().Value.(*ssa.MakeClosure); ok {
					if g, ok := mc.Fn.(*ssa.Function); ok && hasUnlock(g, un) {
						return
					}
				}
				if g := x.Common().StaticCallee(); g != nil && g.Parent() == f && hasUnlock(g, un) {
					return
				}
			case *ssa.Return:
				bad = p.pos(x.Pos())
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	for i, in := range lock.Block().Instrs {
		if in == ssa.Instruction(lock) {
			walk(lock.Block(), i+1)
		}
	}
	return bad
}

func hasUnlock(g *ssa.Function, un string) bool {
	ok := false
	instrs(g, func(in ssa.Instruction) {
		if c, is := in.(ssa.CallInstruction); is {
			if k, _ := lockCall(c.Common()); k == un {
				ok = true
			}
		}
	})
	return ok
}

// cacheOf names the shared map a map value is loaded from: a package-level
// variable guarded by a mutex in the same struct, or a field of a struct that
// embeds a mutex.
func cacheOf(m ssa.Value) string {
	u, ok := m.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	st, ok := derefNamed(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	hasMutex := false
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Type().String() {
		case "sync.Mutex", "sync.RWMutex":
			hasMutex = true
		}
	}
	if !hasMutex {
		return ""
	}
	if g, ok := fa.X.(*ssa.Global); ok {
		return g.Name() + "." + st.Field(fa.Field).Name()
	}
	k := fieldKey(fa.X.Type(), fa.Field)
	return k[strings.LastIndexByte(k, '/')+1:]
}

func localObject(f *ssa.Function, m ssa.Value) bool {
	u, ok := m.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	for _, v := range traceLocal(fa.X) {
		if _, ok := v.(*ssa.Alloc); !ok {
			return false
		}
	}
	return true
}

// written: some function other than the one creating the object inserts into it.
func written(p *Prog, fns []*ssa.Function, cache string) bool {
	w := false
	for _, f := range fns {
		instrs(f, func(in ssa.Instruction) {
			if mu, ok := in.(*ssa.MapUpdate); ok && cacheOf(mu.Map) == cache && !localObject(f, mu.Map) {
				w = true
			}
		})
	}
	return w
}

// heldAt: a lock is held at the instruction on every path from the entry.
func heldAt(f *ssa.Function, at ssa.Instruction, readOK bool) bool {
	type st struct {
		b    *ssa.BasicBlock
		held int
	}
	seen := map[st]bool{}
	ok := true
	var walk func(b *ssa.BasicBlock, held int)
	walk = func(b *ssa.BasicBlock, held int) {
		if seen[st{b, held}] {
			return
		}
		seen[st{b, held}] = true
		for _, in := range b.Instrs {
			if in == at {
				if held == 2 || held == 1 && readOK {
				} else {
					ok = false
				}
			}
			if c, is := in.(*ssa.Call); is {
				switch k, _ := lockCall(&c.Call); k {
				case "Lock":
					held = 2
				case "RLock":
					held = 1
				case "Unlock", "RUnlock":
					held = 0
				}
			}
		}
		for _, s := range b.Succs {
			walk(s, held)
		}
	}
	walk(f.Blocks[0], 0)
	if !ok {
		// a helper that is only called with the lock held
		cs := callersOf(f)
		if len(cs) == 0 {
			return false
		}
		for _, c := range cs {
			if c.Parent() == f || !heldAt(c.Parent(), c.(ssa.Instruction), readOK) {
				return false
			}
		}
		return true
	}
	return ok
}

// filledAfter: after the insertion the inserted object is modified, or handed
// to a function that can still fail.
func filledAfter(p *Prog, f *ssa.Function, mu *ssa.MapUpdate) string {
	objs := map[ssa.Value]bool{mu.Value: true}
	for _, v := range traceLocal(mu.Value) {
		objs[v] = true
	}
	bad := ""
	instrs(f, func(in ssa.Instruction) {
		if !after(mu, in) {
			return
		}
		switch x := in.(type) {
		case *ssa.Store:
			base := x.Addr
			for {
				if fa, ok := base.(*ssa.FieldAddr); ok {
					base = fa.X
					continue
				}
				break
			}
			if base != x.Addr && objs[base] || objs[x.Addr] {
				bad = p.pos(x.Pos())
			}
		case *ssa.MapUpdate:
			if u, ok := x.Map.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && objs[fa.X] {
					bad = p.pos(x.Pos())
				}
			}
		case *ssa.Call:
			for _, a := range x.Call.Args {
				if objs[a] {
					if g := x.Call.StaticCallee(); g != nil && fnPkg(g) != nil && strings.HasPrefix(fnPkg(g).Path(), modPath) && mutates(g, x, a) {
						bad = p.pos(x.Pos())
					}
				}
			}
		}
	})
	return bad
}

// mutates: the callee stores into the object passed as argument a.
func mutates(g *ssa.Function, c *ssa.Call, a ssa.Value) bool {
	if g.Blocks == nil {
		return false
	}
	for i, x := range c.Call.Args {
		if x != a || i >= len(g.Params) {
			continue
		}
		pr := g.Params[i]
		m := false
		instrs(g, func(in ssa.Instruction) {
			switch y := in.(type) {
			case *ssa.Store:
				base := y.Addr
				for {
					if fa, ok := base.(*ssa.FieldAddr); ok {
						base = fa.X
						continue
					}
					break
				}
				if base == pr {
					m = true
				}
			case *ssa.Call:
				for _, b := range y.Call.Args {
					if b == pr {
						m = true
					}
				}
			}
		})
		return m
	}
	return false
}
