package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fileMutation: the call changes the file system; path is the index of the
// argument naming the file (-1 none), data the index of the bytes written.
func fileMutation(c *ssa.CallCommon) (path, data int, ok bool) {
	switch n := calleeString(c); n {
	case "os.Create", "os.Remove", "os.RemoveAll", "os.Truncate", "os.Chmod", "os.Mkdir", "os.MkdirAll":
		return 0, -1, true
	case "os.OpenFile":
		if k, isK := constInt(c.Args[1]); isK && k&3 == 0 && k&^0x80000 == 0 {
			return 0, 0, false // read only
		}
		return 0, -1, true
	case "os.WriteFile", "io/ioutil.WriteFile":
		return 0, 1, true
	case "os.Rename", "os.Link", "os.Symlink":
		return 1, -1, true
	case "os.CreateTemp", "io/ioutil.TempFile", "os.MkdirTemp":
		return -1, -1, true
	case "(*os.File).Write", "(*os.File).WriteString", "(*os.File).WriteAt":
		return -1, 1, true
	case "(*os.File).Truncate", "(*os.File).Chmod":
		return -1, -1, true
	case "io.Copy", "io.WriteString", "io.CopyN":
		if writesFile(c.Args[0]) {
			return -1, 1, true
		}
	}
	if c.IsInvoke() || calleeOf(c) == nil {
		return 0, 0, false
	}
	return 0, 0, false
}

// writesFile: the io.Writer is an *os.File other than the terminal.
func writesFile(w ssa.Value) bool {
	mi, ok := w.(*ssa.MakeInterface)
	if !ok {
		return false
	}
	if mi.X.Type().String() != "*os.File" {
		return false
	}
	if u, ok := mi.X.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
			return false
		}
	}
	return true
}

// production: a call that can fail for reasons other than file I/O.
func production(p *Prog, c *ssa.CallCommon) bool {
	res := c.Signature().Results()
	fails := false
	for i := 0; i < res.Len(); i++ {
		fails = fails || isFailureType(p, res.At(i).Type())
	}
	if !fails {
		return false
	}
	g := c.StaticCallee()
	if g == nil {
		return true
	}
	pk := fnPkg(g)
	if pk == nil && g.Object() != nil {
		pk = g.Object().Pkg()
	}
	if pk == nil {
		return true
	}
	switch pk.Path() {
	case "os", "io", "io/fs", "io/ioutil", "path/filepath", "path", "bufio", "bytes", "fmt", "errors", "strings", "syscall":
		return false
	}
	if strings.HasPrefix(pk.Path(), modPath) && g.Blocks != nil {
		return false // judged by its own body
	}
	return true
}

type effects struct{ mut, prod bool }

// effectsOf: what running f may do, transitively.
func effectsOf(p *Prog, f *ssa.Function, memo map[*ssa.Function]*effects) *effects {
	if e, ok := memo[f]; ok {
		return e
	}
	e := &effects{}
	memo[f] = e
	instrs(f, func(in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok {
			x := callEffects(p, c.Common(), memo)
			e.mut = e.mut || x.mut
			e.prod = e.prod || x.prod
		}
	})
	return e
}

func callEffects(p *Prog, c *ssa.CallCommon, memo map[*ssa.Function]*effects) effects {
	var e effects
	if _, _, ok := fileMutation(c); ok {
		e.mut = true
	}
	if production(p, c) {
		e.prod = true
	}
	if g := calleeOf(c); g != nil && g.Blocks != nil && fnPkg(g) != nil && strings.HasPrefix(fnPkg(g).Path(), modPath) {
		if pkgOf(g) == "analysis" || pkgOf(g) == "postgres" || pkgOf(g) == "generator" || pkgOf(g) == "search" || pkgOf(g) == "config" {
			res := c.Signature().Results()
			for i := 0; i < res.Len(); i++ {
				e.prod = e.prod || isFailureType(p, res.At(i).Type())
			}
		}
		x := effectsOf(p, g, memo)
		e.mut = e.mut || x.mut
		e.prod = e.prod || x.prod
	}
	return e
}

func pkgOf(f *ssa.Function) string {
	if pk := fnPkg(f); pk != nil {
		return pk.Name()
	}
	return ""
}

// sourcesOf collects the canonical names of everything an unmodified value can
// come from: fields, parameters' arguments, call results.
func sourcesOf(p *Prog, v ssa.Value, out map[string]bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		out["const "+x.String()] = true
	case *ssa.Phi:
		for _, e := range x.Edges {
			sourcesOf(p, e, out, seen)
		}
	case *ssa.ChangeType:
		sourcesOf(p, x.X, out, seen)
	case *ssa.Convert:
		sourcesOf(p, x.X, out, seen)
	case *ssa.MakeInterface:
		sourcesOf(p, x.X, out, seen)
	case *ssa.ChangeInterface:
		sourcesOf(p, x.X, out, seen)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			callSources(p, c, x.Index, out, seen)
			return
		}
		out["value"] = true
	case *ssa.Call:
		callSources(p, x, 0, out, seen)
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, pr := range f.Params {
			if pr == x {
				idx = i
			}
		}
		cs := callersOf(f)
		if len(cs) == 0 {
			out["param "+p.fname(f)+" "+x.Name()] = true
		}
		for _, c := range cs {
			if args := c.Common().Args; idx < len(args) {
				sourcesOf(p, args[idx], out, seen)
			}
		}
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			sourcesOf(p, b, out, seen)
		}
	case *ssa.Field:
		fieldSources(p, x.X.Type(), x.Field, out, seen)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			out["op"] = true
			return
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			fieldSources(p, a.X.Type(), a.Field, out, seen)
		case *ssa.Alloc, *ssa.FreeVar:
			sts := storesTo(a)
			for _, s := range sts {
				sourcesOf(p, s, out, seen)
			}
			if len(sts) == 0 {
				out["local"] = true
			}
		case *ssa.Global:
			out["var "+a.String()] = true
		default:
			out["element"] = true
		}
	default:
		out["computed"] = true
	}
}

func fieldSources(p *Prog, t types.Type, i int, out map[string]bool, seen map[ssa.Value]bool) {
	k := "field " + fieldKey(t, i)
	if out[k] {
		return
	}
	out[k] = true
	fk := fieldKey(t, i)
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldKey(fa.X.Type(), fa.Field) == fk {
					sourcesOf(p, st.Val, out, seen)
				}
			}
		})
	}
}

func callSources(p *Prog, c *ssa.Call, idx int, out map[string]bool, seen map[ssa.Value]bool) {
	g := calleeOf(&c.Call)
	if g == nil {
		out["unknown call"] = true
		return
	}
	n := g.String()
	switch n {
	case "bytes.NewBuffer", "bytes.NewReader", "strings.NewReader", "bytes.NewBufferString", "path/filepath.Clean":
		sourcesOf(p, c.Call.Args[0], out, seen)
		return
	}
	if g.Blocks != nil && fnPkg(g) != nil && strings.HasPrefix(fnPkg(g).Path(), modPath) {
		out["call "+n] = true
		for _, b := range g.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(rt.Results) {
				sourcesOf(p, rt.Results[idx], out, seen)
			}
		}
		return
	}
	out["call "+n+"#"+itoa(idx)] = true
}

func checkT02(p *Prog, r *Report) {
	fns := toolFuncs(p)
	memo := map[*ssa.Function]*effects{}

	r.Rule("write-last", "once a file has been touched, no analysis, type check, generation or formatting step can run any more, on any path through any function of the tool")
	for _, f := range fns {
		if !inPkg(f, toolPkgs...) {
			continue
		}
		type site struct {
			in  *ssa.Call
			eff effects
		}
		var sites []site
		instrs(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok {
				if e := callEffects(p, &c.Call, memo); e.mut || e.prod {
					sites = append(sites, site{c, e})
				}
			}
		})
		for _, a := range sites {
			if !a.eff.mut {
				continue
			}
			bad := ""
			for _, b := range sites {
				if b.eff.prod && after(a.in, b.in) {
					bad = calleeName(p, &b.in.Call) + " at " + p.pos(b.in.Pos())
				}
			}
			key := p.fname(f) + "|" + calleeName(p, &a.in.Call)
			if bad != "" {
				r.Bad(key, "%s: %s (%s) changes files, and afterwards %s can still fail", p.fname(f), calleeName(p, &a.in.Call), p.pos(a.in.Pos()), bad)
			} else {
				r.Ok(key)
			}
		}
	}
	r.Min(3)

	type mut struct {
		f          *ssa.Function
		c          *ssa.CallCommon
		pos        token.Pos
		path, data int
		in         ssa.Instruction
	}
	var muts []mut
	for _, f := range fns {
		instrs(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if pi, di, ok := fileMutation(c.Common()); ok {
					muts = append(muts, mut{f, c.Common(), in.Pos(), pi, di, in})
				}
			}
		})
	}

	r.Rule("replaced-whole", "the output path is only ever the destination of a rename of a completely written file: it is never created, truncated or removed in place")
	final := map[string]bool{}
	nren := 0
	for _, m := range muts {
		if calleeString(m.c) != "os.Rename" {
			continue
		}
		nren++
		s := map[string]bool{}
		sourcesOf(p, m.c.Args[1], s, map[ssa.Value]bool{})
		for k := range s {
			if strings.HasPrefix(k, "field ") || strings.HasPrefix(k, "call "+modPath) || strings.HasPrefix(k, "call (*"+modPath) {
				final[k] = true
			}
		}
		// the file must have been written before it is moved
		if writtenBefore(p, m.f, m.in, memo) {
			r.Ok(p.fname(m.f) + "|rename after write")
		} else {
			r.Bad(p.fname(m.f)+"|rename before write", "%s: the rename at %s is not preceded on every path by the write of the file", p.fname(m.f), p.pos(m.pos))
		}
	}
	if nren == 0 {
		r.Bad("no rename", "no output file is put in place with a rename, so a failure while writing leaves a truncated file where an earlier one was")
	}
	for _, m := range muts {
		n := calleeString(m.c)
		if m.path < 0 || n == "os.Rename" {
			continue
		}
		s := map[string]bool{}
		sourcesOf(p, m.c.Args[m.path], s, map[ssa.Value]bool{})
		hit := ""
		for k := range s {
			if final[k] {
				hit = k
			}
		}
		key := p.fname(m.f) + "|" + n
		if hit != "" {
			r.Bad(key, "%s: %s at %s is applied to the output path itself (%s)", p.fname(m.f), n, p.pos(m.pos), hit)
		} else {
			r.Ok(key)
		}
	}
	r.Min(3)

	r.Rule("formatted", "the bytes written to a file are the result of formatting the generated code, and nothing else")
	for _, m := range muts {
		if m.data < 0 {
			continue
		}
		s := map[string]bool{}
		sourcesOf(p, m.c.Args[m.data], s, map[ssa.Value]bool{})
		var bad []string
		okSrc := false
		for k := range s {
			switch {
			case k == "call go/format.Source#0":
				okSrc = true
			case strings.HasPrefix(k, "field "), strings.HasPrefix(k, "call "+modPath), strings.HasPrefix(k, "call (*"+modPath), strings.HasPrefix(k, "const nil"):
			default:
				bad = append(bad, k)
			}
		}
		sort.Strings(bad)
		key := p.fname(m.f) + "|" + calleeString(m.c)
		if len(bad) > 0 || !okSrc {
			r.Bad(key, "%s writes bytes at %s that do not come from the formatter (%s)", p.fname(m.f), p.pos(m.pos), strings.Join(bad, ", "))
		} else {
			r.Ok(key)
		}
	}
	r.Min(1)

	r.Rule("input-kept", "an output path that is also the path of an input file is rejected with an error before anything is written")
	found := false
	for _, f := range fns {
		if !inPkg(f, toolPkgs...) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			lk, ok := in.(*ssa.Lookup)
			if !ok {
				return
			}
			if _, isMap := lk.X.Type().Underlying().(*types.Map); !isMap {
				return
			}
			s := map[string]bool{}
			sourcesOf(p, lk.Index, s, map[ssa.Value]bool{})
			isOut := false
			for k := range s {
				isOut = isOut || final[k]
			}
			if !isOut {
				return
			}
			// the map holds the input paths
			fed := false
			for _, mm := range makeMaps(traceOne(lk.X), nil) {
				for _, ref := range *mm.Referrers() {
					if mu, ok := ref.(*ssa.MapUpdate); ok {
						ks := map[string]bool{}
						sourcesOf(p, mu.Key, ks, map[ssa.Value]bool{})
						for k := range ks {
							if strings.HasPrefix(k, "field ") && strings.HasSuffix(k, "search.File.Path") && !after(in, mu) {
								fed = true
							}
						}
					}
				}
			}
			if !fed {
				return
			}
			// the hit branch fails
			for _, br := range branchesOn(lk) {
				if failsOnly(p, f, br.Succs[0], map[*ssa.BasicBlock]bool{}) {
					found = true
				}
			}
		})
	}
	if found {
		r.Ok("output path looked up among the input paths")
	} else {
		r.Bad("guard", "no check rejects an output path that equals the path of an input file, so an output format like \"%%s\" overwrites the user's source")
	}
}

func traceOne(v ssa.Value) ssa.Value {
	if s := traceLocal(v); len(s) == 1 {
		return s[0]
	}
	return v
}

// branchesOn: the blocks ending in an If on the (boolean) lookup or its ok.
func branchesOn(lk *ssa.Lookup) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	var rec func(v ssa.Value, d int)
	rec = func(v ssa.Value, d int) {
		if d > 4 {
			return
		}
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.If:
				out = append(out, x.Block())
			case *ssa.Extract:
				if x.Type().String() == "bool" {
					rec(x, d+1)
				}
			case *ssa.Phi:
				rec(x, d+1)
			}
		}
	}
	rec(lk, 0)
	return out
}

// failsOnly: every path from b returns a failure.
func failsOnly(p *Prog, f *ssa.Function, b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
		for _, v := range rt.Results {
			if isFailureType(p, v.Type()) {
				k, isC := v.(*ssa.Const)
				return !isC || !okConst(k)
			}
		}
		return false
	}
	for _, s := range b.Succs {
		if !failsOnly(p, f, s, seen) {
			return false
		}
	}
	return true
}

// after: instruction b can execute after a (possibly in a later iteration).
func after(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		ia, ib := -1, -1
		for i, in := range a.Block().Instrs {
			if in == a {
				ia = i
			}
			if in == b {
				ib = i
			}
		}
		if ib > ia {
			return true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

// writtenBefore: a write of data dominates the instruction.
func writtenBefore(p *Prog, f *ssa.Function, at ssa.Instruction, memo map[*ssa.Function]*effects) bool {
	ok := false
	instrs(f, func(in ssa.Instruction) {
		c, isC := in.(*ssa.Call)
		if !isC || in == at {
			return
		}
		writes := false
		if _, di, m := fileMutation(&c.Call); m && di >= 0 {
			writes = true
		} else if g := calleeOf(&c.Call); g != nil && g.Blocks != nil && fnPkg(g) != nil && strings.HasPrefix(fnPkg(g).Path(), modPath) && containsWrite(g, map[*ssa.Function]bool{}) {
			writes = true
		}
		if writes && (c.Block() != at.Block() && c.Block().Dominates(at.Block()) || c.Block() == at.Block() && after(c, at) && precedes(c, at)) {
			ok = true
		}
	})
	return ok
}

func precedes(a, b ssa.Instruction) bool {
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

func containsWrite(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	found := false
	instrs(f, func(in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok {
			if _, di, m := fileMutation(c.Common()); m && di >= 0 {
				found = true
			} else if g := calleeOf(c.Common()); g != nil && g.Blocks != nil && fnPkg(g) != nil && strings.HasPrefix(fnPkg(g).Path(), modPath) {
				found = found || containsWrite(g, seen)
			}
		}
	})
	return found
}

// ---------------------------------------------------------------- T03

func checkT03(p *Prog, r *Report) {
	fns := toolFuncs(p)
	r.Rule("no-ambient-input", "no code reachable from main starts a goroutine, waits on several channels, or reads the clock, random numbers, the process id or the host name")
	nf := 0
	for _, f := range fns {
		if !inPkg(f, toolPkgs...) {
			continue
		}
		nf++
		bad := ""
		instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Go:
				bad = "starts a goroutine at " + p.pos(x.Pos())
			case *ssa.Select:
				bad = "selects among channels at " + p.pos(x.Pos())
			case ssa.CallInstruction:
				n := calleeString(x.Common())
				switch {
				case n == "time.Now", n == "time.Since", n == "os.Getpid", n == "os.Hostname", strings.HasPrefix(n, "math/rand"), strings.HasPrefix(n, "crypto/rand"), n == "hash/maphash.MakeSeed", n == "runtime.NumGoroutine":
					bad = "calls " + n + " at " + p.pos(in.Pos())
				case n == "(*os.File).Readdir", n == "(*os.File).Readdirnames", n == "(*os.File).ReadDir":
					if !sortedLater(f, in.(ssa.Value)) {
						bad = "uses the unsorted directory listing of " + n + " at " + p.pos(in.Pos())
					}
				}
			}
		})
		if bad != "" {
			r.Bad(p.fname(f), "%s %s", p.fname(f), bad)
		} else {
			r.Ok(p.fname(f))
		}
	}
	r.Min(150)

	r.Rule("map-order", "every iteration over a map has the same effect in every order: it only inserts into maps under the iteration key, or collects into a slice that is sorted before it is used")
	for _, f := range fns {
		f := f
		instrs(f, func(in ssa.Instruction) {
			rg, ok := in.(*ssa.Range)
			if !ok {
				return
			}
			if _, isMap := rg.X.Type().Underlying().(*types.Map); !isMap {
				return
			}
			if !inPkg(f, toolPkgs...) && !strings.HasPrefix(fnPkg(f).Path(), modPath) {
				return
			}
			if !inPkg(f, toolPkgs...) {
				return // run-time packages: covered by their own properties
			}
			if why := orderDependent(p, f, rg); why != "" {
				r.Bad(p.fname(f), "%s: the iteration over a map at %s %s", p.fname(f), p.pos(rg.Pos()), why)
			} else {
				r.Ok(p.fname(f) + " " + p.pos(rg.Pos()))
			}
		})
	}
	r.Min(2)

	r.Rule("ordered-queries", "rows of a query that are collected into a slice come from a query with ORDER BY")
	for _, f := range fns {
		if inPkg(f, toolPkgs...) {
			checkQueryOrder(p, r, f)
		}
	}
	r.Min(6)
}

// sortedLater: the value (or its extracts) is passed to a sort function.
func sortedLater(f *ssa.Function, v ssa.Value) bool {
	vs := map[ssa.Value]bool{v: true}
	for changed := true; changed; {
		changed = false
		for x := range vs {
			if x.Referrers() == nil {
				continue
			}
			for _, ref := range *x.Referrers() {
				switch y := ref.(type) {
				case *ssa.Extract, *ssa.MakeInterface, *ssa.ChangeType, *ssa.Phi, *ssa.Slice:
					if !vs[y.(ssa.Value)] {
						vs[y.(ssa.Value)] = true
						changed = true
					}
				case *ssa.Store:
					if y.Val == x && !vs[y.Addr] {
						if _, isA := y.Addr.(*ssa.Alloc); isA {
							vs[y.Addr] = true
							changed = true
						}
					}
				case *ssa.UnOp:
					if y.Op == token.MUL && !vs[y] {
						vs[y] = true
						changed = true
					}
				case ssa.CallInstruction:
					n := calleeString(y.Common())
					if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") {
						return true
					}
				}
			}
		}
	}
	return false
}

// loopOf: the blocks of the loop driven by the range.
func loopOf(rg *ssa.Range) (map[*ssa.BasicBlock]bool, *ssa.Next) {
	var nx *ssa.Next
	for _, ref := range *rg.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			nx = n
		}
	}
	if nx == nil {
		return nil, nil
	}
	head := nx.Block()
	// blocks that can reach the head again without leaving it
	loop := map[*ssa.BasicBlock]bool{head: true}
	for changed := true; changed; {
		changed = false
		for _, b := range head.Parent().Blocks {
			if loop[b] || !head.Dominates(b) {
				continue
			}
			for _, s := range b.Succs {
				if loop[s] {
					loop[b] = true
					changed = true
				}
			}
		}
	}
	return loop, nx
}

// orderDependent explains why a loop over a map depends on the order; "" if not.
func orderDependent(p *Prog, f *ssa.Function, rg *ssa.Range) string {
	loop, nx := loopOf(rg)
	if nx == nil {
		return ""
	}
	var key ssa.Value
	for _, ref := range *nx.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 1 {
			key = ex
		}
	}
	head := nx.Block()
	why := ""
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && loop[in.Block()]
	}
	for b := range loop {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				// a value carried from one iteration to the next
				if b != head {
					continue
				}
				carried := false
				for i, e := range x.Edges {
					if loop[b.Preds[i]] && e != x {
						carried = carried || inLoop(e) || true
					}
				}
				if carried && !sortedLater(f, x) && !commutes(x, loop) {
					why = "carries a value from element to element (" + x.Comment + ")"
				}
			case *ssa.MapUpdate:
				if x.Key != key && !inMapOf(x, loop) {
					if _, isC := x.Key.(*ssa.Const); isC {
						why = "writes a map entry with a fixed key"
					}
				}
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					if al, ok := fa.X.(*ssa.Alloc); ok && loop[al.Block()] {
						continue // a fresh object
					}
				}
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					if loop[al.Block()] || sortedLater(f, al) {
						continue
					}
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if al, ok := ia.X.(*ssa.Alloc); ok && loop[al.Block()] {
						continue // arguments of a variadic call
					}
				}
				if _, isC := x.Val.(*ssa.Const); isC {
					continue
				}
				why = "stores to a variable outside the loop at " + p.pos(x.Pos())
			case *ssa.Return:
				for _, v := range x.Results {
					if _, isC := v.(*ssa.Const); !isC {
						why = "returns a value that depends on the element reached first"
					}
				}
			case *ssa.Call:
				if calleeString(&x.Call) != "" && x.Call.StaticCallee() != nil {
					if len(x.Call.Args) > 0 && writerLike(x.Call.Args[0]) {
						why = "writes output at " + p.pos(x.Pos())
					}
				}
				if g := x.Call.StaticCallee(); g != nil && !sortedLaterArg(f, x) {
					if at := writesShared(p, g, map[*ssa.Function]bool{}); at != "" {
						why = "calls " + calleeName(p, &x.Call) + " for each element, which changes something at " + at
					}
				}
			}
		}
		// leaving the loop early with an element
		for _, s := range b.Succs {
			if loop[s] || b == head {
				continue
			}
			if rt, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok {
				for _, v := range rt.Results {
					if ph, isPhi := v.(*ssa.Phi); isPhi && ph.Block() == s {
						for i, pb := range s.Preds {
							if pb == b {
								v = ph.Edges[i]
							}
						}
					}
					if inLoop(v) {
						why = "returns a value that depends on the element reached first"
					}
				}
			}
			for _, in := range s.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					for i, pb := range s.Preds {
						if pb == b && inLoop(ph.Edges[i]) {
							why = "stops early with the element reached first"
						}
					}
				}
			}
		}
	}
	if why == "" {
		why = earlyUse(p, f, loop, head)
	}
	return why
}

// sortedLaterArg: the call only fills a local slice that is sorted afterwards.
func sortedLaterArg(f *ssa.Function, c *ssa.Call) bool {
	for _, a := range c.Call.Args {
		if al, ok := a.(*ssa.Alloc); ok && sortedLater(f, al) {
			return true
		}
	}
	return false
}

// earlyUse: what a loop that is left before its end leaves behind depends on the
// element reached first: a value of the loop that is stored, returned or put in a
// map outside it, or different constants returned by different exits.
func earlyUse(p *Prog, f *ssa.Function, loop map[*ssa.BasicBlock]bool, head *ssa.BasicBlock) string {
	taint := map[ssa.Value]bool{}
	for b := range loop {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			if _, isPhi := v.(*ssa.Phi); isPhi && b == head {
				continue // judged as a carried value
			}
			if _, isAlloc := v.(*ssa.Alloc); isAlloc && b == head {
				continue
			}
			taint[v] = true
		}
	}
	why := ""
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			if loop[b] || !head.Dominates(b) {
				continue
			}
			for _, in := range b.Instrs {
				tainted := false
				for _, op := range in.Operands(nil) {
					if *op != nil && taint[*op] {
						tainted = true
					}
				}
				if !tainted {
					continue
				}
				switch x := in.(type) {
				case *ssa.Return:
					why = "returns a value that depends on the element reached first"
				case *ssa.Store:
					why = "keeps the element reached first at " + p.pos(x.Pos())
				case *ssa.MapUpdate:
					why = "keeps the element reached first at " + p.pos(x.Pos())
				case ssa.Value:
					if !taint[x] {
						taint[x] = true
						changed = true
					}
				}
			}
		}
	}
	if why != "" {
		return why
	}
	// exits that return different constants
	exits := map[string]bool{}
	for b := range loop {
		for _, s := range b.Succs {
			if loop[s] || b == head {
				continue
			}
			if rt, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok {
				k := ""
				for _, v := range rt.Results {
					if ph, isPhi := v.(*ssa.Phi); isPhi && ph.Block() == s {
						for i, pb := range s.Preds {
							if pb == b {
								v = ph.Edges[i]
							}
						}
					}
					if c, isC := v.(*ssa.Const); isC {
						k += c.String() + ","
					} else {
						k += v.Name() + ","
					}
				}
				exits[k] = true
			}
		}
	}
	if len(exits) > 1 {
		return "is left in different ways, which one depends on the element reached first"
	}
	return ""
}

// writesShared: a place where the function (or one it calls) changes something
// that outlives the call.
func writesShared(p *Prog, g *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[g] || g.Blocks == nil || fnPkg(g) == nil || !strings.HasPrefix(fnPkg(g).Path(), modPath) {
		return ""
	}
	seen[g] = true
	at := ""
	instrs(g, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			if !localAddr(x.Addr) {
				at = p.pos(x.Pos())
			}
		case *ssa.MapUpdate:
			if !localAddr(x.Map) {
				at = p.pos(x.Pos())
			}
		case ssa.CallInstruction:
			if h := x.Common().StaticCallee(); h != nil {
				if a := writesShared(p, h, seen); a != "" {
					at = a
				}
			}
		}
	})
	return at
}

// localAddr: the address (or map) belongs to something created in the function.
func localAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return false
		}
	}
}

func inMapOf(mu *ssa.MapUpdate, loop map[*ssa.BasicBlock]bool) bool {
	mm, ok := mu.Map.(ssa.Instruction)
	return ok && loop[mm.Block()]
}

func writerLike(v ssa.Value) bool {
	n := v.Type().String()
	return strings.Contains(n, "strings.Builder") || strings.Contains(n, "bytes.Buffer") || strings.Contains(n, "io.Writer")
}

// commutes: the carried value is only added to, or or-ed / and-ed with.
func commutes(ph *ssa.Phi, loop map[*ssa.BasicBlock]bool) bool {
	for i, e := range ph.Edges {
		if !loop[ph.Block().Preds[i]] {
			continue
		}
		switch x := e.(type) {
		case *ssa.BinOp:
			if (x.Op == token.ADD || x.Op == token.OR || x.Op == token.AND) && (x.X == ph || x.Y == ph) {
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					continue
				}
			}
			return false
		case *ssa.Const:
			continue
		case *ssa.Phi:
			if x == ph {
				continue
			}
			okAll := true
			for _, e2 := range x.Edges {
				if _, isC := e2.(*ssa.Const); !isC && e2 != ph {
					okAll = false
				}
			}
			if !okAll {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// checkQueryOrder: query rows appended to slices must be ordered.
func checkQueryOrder(p *Prog, r *Report, f *ssa.Function) {
	instrs(f, func(in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		n := calleeString(&c.Call)
		if !strings.HasSuffix(n, ".Query") && !strings.HasSuffix(n, ".QueryContext") || !strings.Contains(n, "sql.DB)") && !strings.Contains(n, "sql.Tx)") && !strings.Contains(n, "postgres.DB)") {
			return
		}
		// the query text: the first string argument after the receiver
		var texts []string
		undecided := false
		for _, a := range c.Call.Args[1:] {
			if bt, ok := a.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.String {
				for _, v := range traceLocal(a) {
					if s, ok := constString(v); ok {
						texts = append(texts, s)
					} else {
						undecided = true
					}
				}
				break
			}
		}
		if undecided || len(texts) == 0 {
			r.Bad(p.fname(f)+"|dynamic", "%s: the query at %s is not a constant", p.fname(f), p.pos(c.Pos()))
			return
		}
		collects := rowsFeedSlice(f, c)
		for _, s := range texts {
			key := p.fname(f) + "|" + firstTable(s)
			if collects && !strings.Contains(strings.ToUpper(s), "ORDER BY") {
				r.Bad(key, "%s: rows of %s are collected into a slice, but the query at %s has no ORDER BY", p.fname(f), firstTable(s), p.pos(c.Pos()))
			} else {
				r.Ok(key)
			}
		}
	})
}

func firstTable(q string) string {
	w := strings.Fields(q)
	for i, x := range w {
		if strings.EqualFold(x, "FROM") && i+1 < len(w) {
			return w[i+1]
		}
	}
	return "query"
}

// rowsFeedSlice: the loop over the rows of this query appends to a slice.
func rowsFeedSlice(f *ssa.Function, q *ssa.Call) bool {
	rows := rowsOf(q)
	feeds := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || calleeString(&c.Call) != "(*database/sql.Rows).Next" || !rows[c.Call.Args[0]] {
				continue
			}
			head := c.Block()
			for _, lb := range f.Blocks {
				if !head.Dominates(lb) || !reaches(lb, head) {
					continue
				}
				for _, x := range lb.Instrs {
					if cc, ok := x.(*ssa.Call); ok {
						if bi, ok := cc.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
							feeds = true
						}
					}
				}
			}
		}
	}
	if len(rows) == 0 {
		return true
	}
	return feeds
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// rowsOf: the values holding the rows of one query call.
func rowsOf(q *ssa.Call) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for _, ref := range *q.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 0 {
			out[ex] = true
			for _, a := range errAliases(ex) {
				out[a] = true
			}
		}
	}
	return out
}
