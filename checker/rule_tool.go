package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Properties of the command line tool as a whole: T01 (failures are reported),
// T02 (output is written all or nothing), T03 (output is deterministic).

func init() {
	register("T01", "other", "Failure-flow analysis over the SSA of every function reachable from the tool's main: each error or failure code produced by a call is tested or passed on, no path from a failing branch reaches a successful return, and main exits with a non-zero status.", checkT01)
	register("T02", "other", "Effect ordering over the call graph: no fallible production step is reachable after the first file mutation, output paths are only ever the destination of a rename, and only formatted code is written.", checkT02)
	register("T03", "other", "Determinism lint over every function reachable from main: no goroutines, clocks or random numbers, no order-dependent iteration over a map, directory or unordered query result.", checkT03)
}

// toolFuncs lists the repository functions reachable from the tool's main
// (calls, closures, function values, and any method with an invoked name).
func toolFuncs(p *Prog) []*ssa.Function {
	if p.toolFns != nil {
		return p.toolFns
	}
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] {
			seen[f] = true
			work = append(work, f)
		}
	}
	byName := map[string][]*ssa.Function{}
	isRepo := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		isRepo[f] = true
		if f.Signature.Recv() != nil && f.Parent() == nil {
			byName[f.Name()] = append(byName[f.Name()], f)
		}
	}
	add(p.mustFn("cmd/gosql", "main"))
	for _, pk := range p.Repo {
		if sp := p.SSA.Package(pk.Types); sp != nil {
			if strings.Contains(pk.PkgPath, "/internal/") || strings.Contains(pk.PkgPath, "/cmd/") {
				add(sp.Func("init"))
				for i := 1; sp.Func("init#"+itoa(i)) != nil; i++ {
					add(sp.Func("init#" + itoa(i)))
				}
			}
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		instrs(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
				for _, m := range byName[c.Common().Method.Name()] {
					add(m)
				}
			}
			// a conversion to an interface makes the methods callable by the library
			if mi, ok := in.(*ssa.MakeInterface); ok {
				ms := types.NewMethodSet(mi.X.Type())
				for i := 0; i < ms.Len(); i++ {
					if fo, ok := ms.At(i).Obj().(*types.Func); ok {
						if m := p.SSA.FuncValue(fo); m != nil && isRepo[m] {
							add(m)
						}
					}
				}
			}
			for _, op := range in.Operands(nil) {
				switch v := (*op).(type) {
				case *ssa.Function:
					add(v)
				case *ssa.MakeClosure:
					if g, ok := v.Fn.(*ssa.Function); ok {
						add(g)
					}
				}
			}
		})
	}
	for _, f := range p.Funcs {
		if seen[f] {
			p.toolFns = append(p.toolFns, f)
		}
	}
	return p.toolFns
}

func itoa(i int) string { return constant.MakeInt64(int64(i)).String() }

func inPkg(f *ssa.Function, rels ...string) bool {
	pk := fnPkg(f)
	if pk == nil {
		return false
	}
	for _, r := range rels {
		if pk.Path() == modPath+"/"+r {
			return true
		}
	}
	return false
}

var toolPkgs = []string{"cmd/gosql", "internal/command", "internal/config", "internal/search", "internal/analysis", "internal/postgres", "internal/generator", "internal/typesutil"}

func checkT01(p *Prog, r *Report) {
	sent := map[string]bool{}
	r.Rule("failures-handled", "every error or failure code returned by a call in the tool is tested, returned or passed on, and no path that starts on its failing branch returns success")
	n := 0
	for _, f := range toolFuncs(p) {
		if inPkg(f, toolPkgs...) {
			n++
			checkErrors(p, r, f, sent)
		}
	}
	r.Min(250)
	r.Note("%d functions reachable from main were analysed", n)
	r.Rule("exit-status", "in main every failing branch ends in os.Exit with a non-zero constant, never in a normal return")
	m := p.mustFn("cmd/gosql", "main")
	instrs(m, func(in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		vals, dropped := errorValues(p, c)
		if ignorableError(&c.Call) {
			return
		}
		if dropped {
			r.Bad("main|"+calleeName(p, &c.Call), "main ignores the error of %s", calleeName(p, &c.Call))
			return
		}
		for _, v := range vals {
			tested := false
			for _, e := range errAliases(v) {
				for _, ref := range *e.Referrers() {
					b, ok := ref.(*ssa.BinOp)
					if !ok {
						continue
					}
					i := failEdge(b, e)
					for _, r2 := range *b.Referrers() {
						if br, ok := r2.(*ssa.If); ok && i >= 0 {
							tested = true
							if at, ok := exitsNonzero(p, br.Block().Succs[i], map[*ssa.BasicBlock]bool{}); ok {
								r.Ok("main|" + calleeName(p, &c.Call))
							} else {
								r.Bad("main|"+calleeName(p, &c.Call), "main: after %s fails the tool ends with success (%s)", calleeName(p, &c.Call), at)
							}
						}
					}
					if c2, ok := ref.(ssa.CallInstruction); ok {
						_ = c2
					}
				}
			}
			if !tested {
				// handed to a helper that exits?
				for _, e := range errAliases(v) {
					for _, ref := range *e.Referrers() {
						if c2, ok := ref.(*ssa.Call); ok {
							if g := c2.Call.StaticCallee(); g != nil && helperExits(p, g, c2, e) {
								tested = true
								r.Ok("main|" + calleeName(p, &c.Call))
							}
						}
					}
				}
			}
			if !tested {
				r.Bad("main|"+calleeName(p, &c.Call), "main does not test the error of %s", calleeName(p, &c.Call))
			}
		}
	})
	r.Min(3)
}

// helperExits: the helper tests the parameter the error is passed as and exits
// with a non-zero status when it is not nil (or exits always).
func helperExits(p *Prog, g *ssa.Function, c *ssa.Call, e ssa.Value) bool {
	if g.Blocks == nil {
		return false
	}
	for i, a := range c.Call.Args {
		if a != e || i >= len(g.Params) {
			continue
		}
		for _, ref := range *g.Params[i].Referrers() {
			if b, ok := ref.(*ssa.BinOp); ok {
				j := failEdge(b, g.Params[i])
				for _, r2 := range *b.Referrers() {
					if br, ok := r2.(*ssa.If); ok && j >= 0 {
						_, ok := exitsNonzero(p, br.Block().Succs[j], map[*ssa.BasicBlock]bool{})
						return ok
					}
				}
			}
		}
	}
	return false
}

// exitsNonzero: every path from b ends in os.Exit(nonzero), log.Fatal or panic.
func exitsNonzero(p *Prog, b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) (string, bool) {
	if seen[b] {
		return "", true
	}
	seen[b] = true
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Call:
			n := calleeString(&in.Call)
			if n == "os.Exit" {
				k, ok := constInt(in.Call.Args[0])
				if ok && k != 0 {
					return "", true
				}
				return "os.Exit with a status that is not a non-zero constant at " + p.pos(in.Pos()), false
			}
			if strings.HasPrefix(n, "log.Fatal") {
				return "", true
			}
			if g := in.Call.StaticCallee(); g != nil && g.Blocks != nil && fnPkg(g) != nil && strings.HasPrefix(fnPkg(g).Path(), modPath) {
				if neverReturns(p, g) {
					return "", true
				}
			}
		case *ssa.Panic:
			return "", true
		case *ssa.Return:
			return "return at " + p.pos(in.Pos()), false
		}
	}
	for _, s := range b.Succs {
		if at, ok := exitsNonzero(p, s, seen); !ok {
			return at, false
		}
	}
	return "", true
}

func neverReturns(p *Prog, g *ssa.Function) bool {
	_, ok := exitsNonzero(p, g.Blocks[0], map[*ssa.BasicBlock]bool{})
	return ok
}
