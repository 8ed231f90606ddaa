package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// T04: configuration precedence and effect. T05: database resources.

func init() {
	register("T04", "other", "Path analysis of the option types' setters, extraction of the flag and JSON bindings and defaults, call ordering in main, and a read-coverage check of every option.", checkT04)
	register("T05", "other", "Typestate over the SSA of the tool's database code: rows are closed and their error checked, locks are released on every path, and caches are only filled with finished objects under complete keys.", checkT05)
}

// the documented command line: flag -> option (JSON key)
var flagOptions = map[string]string{
	"wd": "working_directory", "r": "recursive", "f": "input_files", "rx": "input_file_regexps",
	"o": "output_file_name_format", "db": "database_dsn", "qid": "quote_identifiers",
	"fcktag": "filter_column_key_tag", "fckbase": "filter_column_key_base", "fcksep": "filter_column_key_separator",
	"with-ctx": "method_with_context", "argtype": "method_argument_type",
}

// documented defaults that are not the zero value
var optionDefaults = map[string]string{
	"working_directory": ".", "output_file_name_format": "%s_gosql.go", "filter_column_key_tag": "json",
	"filter_column_key_separator": ".", "method_name": "Exec",
	"method_argument_type": "Conn github.com/frk/gosql gosql",
}

func jsonKey(tag string) string {
	return strings.Split(reflect.StructTag(tag).Get("json"), ",")[0]
}

func checkT04(p *Prog, r *Report) {
	cp := p.pkg("internal/config")
	sc := cp.Types.Scope()

	r.Rule("flag-wins", "decoding an option from the config file changes it only where it is known that no flag has set it")
	r.Rule("marks-set", "an option that is given a value is also marked as set, on every successful path")
	r.Rule("replaces", "a value given later replaces every part of the earlier one (list options append)")
	var names []string
	for _, n := range sc.Names() {
		names = append(names, n)
	}
	nTypes := 0
	for _, n := range names {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		set, um := p.fn("internal/config", n+".Set"), p.fn("internal/config", n+".UnmarshalJSON")
		if set == nil || um == nil {
			continue
		}
		flagIdx := -1
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Type().String() == "bool" && strings.EqualFold(st.Field(i).Name(), "isset") {
				flagIdx = i
			}
		}
		if flagIdx < 0 {
			r.Bad(n, "option type %s does not record whether it was set", n)
			continue
		}
		nTypes++
		r.rule = "flag-wins"
		if at := unguardedStore(p, um, flagIdx, map[*ssa.Function]bool{}); at != "" {
			r.Bad(n, "%s.UnmarshalJSON changes the value at %s without knowing that it has not been set by a flag", n, at)
		} else {
			r.Ok(n)
		}
		for _, f := range []*ssa.Function{set, um} {
			r.rule = "marks-set"
			res := setterPaths(p, f, flagIdx, map[*ssa.Function]bool{})
			if res.unmarked != "" {
				r.Bad(p.fname(f), "%s stores a value and reports success at %s without marking the option as set", p.fname(f), res.unmarked)
			} else if !res.marks {
				r.Bad(p.fname(f), "%s never marks the option as set", p.fname(f))
			} else {
				r.Ok(p.fname(f))
			}
			r.rule = "replaces"
			if res.partial != "" {
				r.Bad(p.fname(f), "%s can leave %s", p.fname(f), res.partial)
			} else {
				r.Ok(p.fname(f))
			}
		}
	}
	if nTypes < 5 {
		r.rule = "flag-wins"
		r.Bad("types", "only %d option types with Set and UnmarshalJSON were found", nTypes)
	}

	// ---- bindings
	cfgT := sc.Lookup("Config")
	if cfgT == nil {
		fail("type config.Config not found")
	}
	cst := cfgT.Type().Underlying().(*types.Struct)
	keyOf := map[int]string{}
	byKey := map[string]int{}
	r.Rule("json-keys", "every option has its own key in the config file")
	for i := 0; i < cst.NumFields(); i++ {
		k := jsonKey(cst.Tag(i))
		if !cst.Field(i).Exported() {
			continue
		}
		if k == "" || k == "-" {
			r.Bad(cst.Field(i).Name(), "option %s has no key in the config file", cst.Field(i).Name())
			continue
		}
		if _, dup := byKey[k]; dup {
			r.Bad(k, "two options share the key %q", k)
		} else {
			r.Ok(k)
		}
		byKey[k] = i
		keyOf[i] = k
	}
	r.Min(14)

	r.Rule("flag-bindings", "every documented flag is bound to its own option, and the usage text lists exactly the bound flags")
	bound := map[string]string{}
	for _, f := range toolFuncs(p) {
		if !inPkg(f, "internal/config") {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || calleeString(&c.Call) != "(*flag.FlagSet).Var" && calleeString(&c.Call) != "flag.Var" {
				return
			}
			args := c.Call.Args
			if calleeString(&c.Call) == "(*flag.FlagSet).Var" {
				args = args[1:]
			}
			name, ok := constString(args[1])
			if !ok {
				r.Bad("dynamic", "a flag with a name that is not constant is bound at %s", p.pos(c.Pos()))
				return
			}
			opt := "?"
			if mi, ok := args[0].(*ssa.MakeInterface); ok {
				if fa, ok := mi.X.(*ssa.FieldAddr); ok && derefNamed(fa.X.Type()) == cfgT.Type() {
					opt = keyOf[fa.Field]
				}
			}
			bound[name] = opt
		})
	}
	for fl, want := range flagOptions {
		if got := bound[fl]; got != want {
			r.Bad("-"+fl, "the flag -%s sets the option %q instead of %q", fl, got, want)
		} else {
			r.Ok("-" + fl)
		}
	}
	usage := ""
	if c, ok := p.pkg("internal/command").Types.Scope().Lookup("usage").(*types.Const); ok {
		usage = constant.StringVal(c.Val())
	}
	if usage != "" {
		head := usage
		if i := strings.Index(head, "\n\n"); i > 0 {
			head = head[:i]
		}
		listed := map[string]bool{}
		for _, m := range regexp.MustCompile(`\[-+([a-z-]+)\]`).FindAllStringSubmatch(head, -1) {
			listed[m[1]] = true
		}
		for fl := range bound {
			if !listed[fl] {
				r.Bad("usage -"+fl, "the usage text does not list the flag -%s", fl)
			}
		}
		for fl := range listed {
			if bound[fl] == "" && fl != "config" {
				r.Bad("usage -"+fl, "the usage text lists the flag -%s, which does not exist", fl)
			}
		}
	}

	r.Rule("defaults", "an option that is given neither as a flag nor in the config file has its documented default")
	got := defaultValues(p, cst, keyOf)
	var keys []string
	for k := range byKey {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if got[k] != optionDefaults[k] {
			r.Bad(k, "the default of %s is %q instead of %q", k, got[k], optionDefaults[k])
		} else {
			r.Ok(k)
		}
	}

	r.Rule("has-effect", "every option is read somewhere in the tool outside of the code that sets it")
	read := map[int]bool{}
	for _, f := range toolFuncs(p) {
		if f.Name() == "init" {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if derefNamed(x.X.Type()) != cfgT.Type() {
					return
				}
				for _, ref := range *x.Referrers() {
					switch y := ref.(type) {
					case *ssa.MakeInterface: // bound to a flag
					case *ssa.Store:
						if y.Addr != x {
							read[x.Field] = true
						}
					default:
						read[x.Field] = true
					}
				}
			case *ssa.Field:
				if derefNamed(x.X.Type()) == cfgT.Type() {
					read[x.Field] = true
				}
			}
		})
	}
	for _, k := range keys {
		if read[byKey[k]] {
			r.Ok(k)
		} else {
			r.Bad(k, "the option %s is never read, so setting it has no effect", k)
		}
	}

	r.Rule("order", "flags are parsed before the config file is read, the config file before the command is created, and the configuration is validated before the command runs")
	m := p.mustFn("cmd/gosql", "main")
	steps := []string{"(*config.Config).ParseFlags", "(*config.Config).ParseFile", "command.New", "(*command.Command).Run"}
	var at []*ssa.Call
	for _, s := range steps {
		var hit *ssa.Call
		instrs(m, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && (p.fname(g) == s || callsFirst(p, g, s)) {
					hit = c
				}
			}
		})
		if hit == nil {
			r.Bad("main|"+s, "main does not call %s", s)
		}
		at = append(at, hit)
	}
	for i := 1; i < len(at); i++ {
		if at[i-1] == nil || at[i] == nil || at[i-1] == at[i] {
			continue
		}
		if dominatesInstr(at[i-1], at[i]) {
			r.Ok(steps[i-1] + " before " + steps[i])
		} else {
			r.Bad(steps[i], "%s is not always preceded by %s in main", steps[i], steps[i-1])
		}
	}
	nf := p.mustFn("internal/command", "New")
	validated := false
	instrs(nf, func(in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil || !strings.HasSuffix(p.fname(c.Call.StaticCallee()), ".Validate") {
			return
		}
		validated = true
		for _, b := range nf.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if k, isC := rt.Results[len(rt.Results)-1].(*ssa.Const); isC && k.Value == nil && !dominatesInstr(c, rt) {
					validated = false
				}
			}
		}
	})
	if validated {
		r.Ok("command.New validates")
	} else {
		r.Bad("validate", "command.New can succeed without validating the configuration")
	}
}

func callsFirst(p *Prog, g *ssa.Function, name string) bool {
	if g.Blocks == nil || fnPkg(g) == nil || fnPkg(g).Path() != modPath+"/cmd/gosql" {
		return false
	}
	found := false
	instrs(g, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && p.fname(c.Call.StaticCallee()) == name {
			found = true
		}
	})
	return found
}

func dominatesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return precedes(a, b)
	}
	return a.Block().Dominates(b.Block())
}

func derefNamed(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

// defaultValues reads the initialiser of DefaultConfig.
func defaultValues(p *Prog, cst *types.Struct, keyOf map[int]string) map[string]string {
	out := map[string]string{}
	sp := p.SSA.Package(p.pkg("internal/config").Types)
	g, ok := sp.Members["DefaultConfig"].(*ssa.Global)
	if !ok {
		fail("variable config.DefaultConfig not found")
	}
	var describe func(v ssa.Value) string
	describe = func(v ssa.Value) string {
		if k, ok := v.(*ssa.Const); ok {
			if k.Value == nil {
				return ""
			}
			if k.Value.Kind() == constant.String {
				return constant.StringVal(k.Value)
			}
			if k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value) {
				return ""
			}
			return k.Value.String()
		}
		return "?"
	}
	instrs(sp.Func("init"), func(in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		if fa.X == g { // the whole option
			if fs, ok := structFields(st.Val); ok {
				d := ""
				for _, v := range fs {
					d += describe(v)
				}
				if d != "" {
					out[keyOf[fa.Field]] = d
				}
			}
			return
		}
		if fa2, ok := fa.X.(*ssa.FieldAddr); ok && fa2.X == g {
			d := describe(st.Val)
			k := keyOf[fa2.Field]
			if d == "" {
				return
			}
			if out[k] != "" {
				out[k] += " "
			}
			out[k] += d
		}
	})
	return out
}

// unguardedStore: a change of a receiver field that is not dominated by the
// branch on which the set mark is false.
func unguardedStore(p *Prog, f *ssa.Function, flagIdx int, seen map[*ssa.Function]bool) string {
	if seen[f] {
		return ""
	}
	seen[f] = true
	recv := f.Params[0]
	bad := ""
	instrs(f, func(in ssa.Instruction) {
		change := false
		switch x := in.(type) {
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fa.X == recv {
				change = true
			}
			if x.Addr == recv {
				change = true
			}
		case ssa.CallInstruction:
			for _, a := range x.Common().Args {
				if mi, ok := a.(*ssa.MakeInterface); ok {
					a = mi.X
				}
				if a == recv {
					change = true
				}
				if fa, ok := a.(*ssa.FieldAddr); ok && fa.X == recv {
					change = true
				}
			}
		}
		if change && !underNotSet(in.Block(), recv, flagIdx) {
			bad = p.pos(in.Pos())
		}
	})
	return bad
}

func underNotSet(b *ssa.BasicBlock, recv ssa.Value, flagIdx int) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pr := d.Preds[0]
		br, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, neg := br.Cond, false
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, neg = u.X, !neg
		}
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || fa.X != recv || fa.Field != flagIdx {
			continue
		}
		want := 1
		if neg {
			want = 0
		}
		if pr.Succs[want] == d {
			return true
		}
	}
	return false
}

type setterResult struct {
	marks    bool
	unmarked string
	partial  string
}

// setterPaths walks every path of a setter and records what it stores.
func setterPaths(p *Prog, f *ssa.Function, flagIdx int, seen map[*ssa.Function]bool) (res setterResult) {
	if seen[f] {
		return
	}
	seen[f] = true
	recv := f.Params[0]
	st := derefNamed(recv.Type()).Underlying().(*types.Struct)
	all := map[int]bool{}
	instrs(f, func(in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == recv && fa.Field != flagIdx {
				all[fa.Field] = true
			}
		}
	})
	type state struct {
		b      *ssa.BasicBlock
		stored string
		marked bool
	}
	visited := map[state]bool{}
	var walk func(s state, pred *ssa.BasicBlock)
	walk = func(s state, pred *ssa.BasicBlock) {
		if visited[s] {
			return
		}
		visited[s] = true
		for _, in := range s.b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if x.Addr == recv {
					s.stored = "*"
				}
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || fa.X != recv {
					continue
				}
				if fa.Field == flagIdx {
					if k, ok := x.Val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) {
						s.marked = true
						res.marks = true
					} else {
						s.marked = false
					}
					continue
				}
				n := st.Field(fa.Field).Name() + " "
				if !strings.Contains(s.stored, n) {
					s.stored += n
				}
			case *ssa.Call:
				if len(x.Call.Args) > 0 && x.Call.Args[0] == recv {
					if g := x.Call.StaticCallee(); g != nil && g.Blocks != nil && types.Identical(g.Params[0].Type(), recv.Type()) {
						sub := setterPaths(p, g, flagIdx, seen)
						if seen[g] && sub == (setterResult{}) {
							sub.marks = true
						}
						if sub.marks {
							res.marks = true
							s.marked = true
							s.stored = "*"
						}
					}
				}
			case *ssa.Return:
				fails := false
				for _, v := range x.Results {
					if isErrorType(v.Type()) {
						if k, isC := v.(*ssa.Const); !isC || k.Value != nil {
							fails = true
						}
						if cc, isCall := v.(*ssa.Call); isCall && len(cc.Call.Args) > 0 && cc.Call.Args[0] == recv {
							fails = false
						}
					}
				}
				if fails || s.stored == "" {
					continue
				}
				if !s.marked && res.unmarked == "" {
					res.unmarked = p.pos(x.Pos())
				}
				if s.stored != "*" {
					for i := range all {
						if !strings.Contains(s.stored, st.Field(i).Name()+" ") {
							res.partial = "the earlier value of " + st.Field(i).Name() + " in place (" + p.pos(x.Pos()) + ")"
						}
					}
				}
			}
		}
		for _, n := range s.b.Succs {
			walk(state{n, s.stored, s.marked}, s.b)
		}
	}
	walk(state{f.Blocks[0], "", false}, nil)
	return
}
