package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
)

// genConfig fixes the part of the input that selects what is generated.
type genConfig struct {
	name        string
	kind        string
	qual        string
	slice, join bool
	over        map[string]Val
	ax          []*F
	unroll      int
}

func (p *Prog) typeOfName(rel, name string) types.Type {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

type genRun struct {
	cfg  genConfig
	in   *Interp
	st   *state
	file Val
	und  string

	sure     []*F // what may hold or not, although it is not interpreted
	argsMark bool // render the arguments of the query as one mark
	elems    bool // render the fields of literals one by one
	goText   bool // render the Go code of lists piece by piece
	outline  bool // render conditions and lists as one piece
	inClause int  // render the clause itself
}

func (p *Prog) runGen(cfg genConfig) (r *genRun) {
	in := newInterp(p, "internal/generator")
	r = &genRun{cfg: cfg, in: in}
	in.over = cfg.over
	in.axioms = cfg.ax
	in.unroll = cfg.unroll
	if fn := allocFunc(in); fn != nil {
		in.counter = counterField(in, fn)
	}
	in.hook = func(in *Interp, st *state, fn *types.Func, recv Val, args []Val) ([]Val, bool) {
		sig := fn.Type().(*types.Signature)
		if fn.Pkg() == in.mainPkg && sig.Results().Len() == 1 && typeName(sig.Results().At(0).Type()) == "sqlang.OrdinalParameterSpec" {
			var ptr Val = VNil{}
			for i := 0; i < sig.Params().Len(); i++ {
				if types.IsInterface(sig.Params().At(i).Type()) && i < len(args) {
					ptr = args[i]
				}
			}
			in.event(st, "alloc", ptr)
			return one(&VStruct{typ: sig.Results().At(0).Type(), fields: map[string]Val{"N": mkExpr("param", types.Typ[types.Int], ptr)}}), true
		}
		if fn.FullName() == "github.com/frk/ast/sqlang.MustToString" {
			return one(mkExpr("text", types.Typ[types.String], args[0])), true
		}
		if pt := importFunc(in, fn); pt != nil && len(args) == 3 {
			in.event(st, "import", &VExpr{op: "import", args: args[1:]})
			var pkg func(v Val) Val
			pkg = func(v Val) Val {
				if c, ok := v.(*VCond); ok {
					return mkCond(c.c, pkg(c.a), pkg(c.b))
				}
				return VSym{"import(" + v.key() + ")", pt}
			}
			return one(pkg(args[1])), true
		}
		if fn.FullName() == "github.com/frk/ast/golang.Write" {
			v := args[0]
			if pt, ok := v.(VPtr); ok {
				v = in.load(st, pt, 0)
			}
			st.locs["ghost:file"] = v
			return one(VNil{}), true
		}
		return nil, false
	}
	defer func() {
		if x := recover(); x != nil {
			u, ok := x.(undecided)
			if !ok {
				panic(x)
			}
			r.und = u.msg
			if os.Getenv("GDBG") != "" {
				for _, f := range in.stack {
					fmt.Println("  in", f.FullName())
				}
				debug.PrintStack()
			}
		}
	}()
	fn := p.pkg("internal/generator").Types.Scope().Lookup("Write").(*types.Func)
	sig := fn.Type().(*types.Signature)
	st := &state{locs: map[string]Val{"ghost:alloc": &VList{}, "ghost:import": &VList{}}}
	var args []Val
	for i := 0; i < sig.Params().Len(); i++ {
		pt := sig.Params().At(i).Type()
		if sl, ok := pt.Underlying().(*types.Slice); ok {
			args = append(args, &VList{typ: pt, items: []Item{{guard: fTrue, kind: 'e', val: VSym{"info", sl.Elem()}}}})
		} else if strings.HasSuffix(typeName(pt), ".Config") {
			args = append(args, VSym{"cfg", pt})
		} else {
			args = append(args, VSym{"arg" + fmt.Sprint(i), pt})
		}
	}
	in.callFunc(st, fn, nil, args, fn.Pos())
	r.st = st
	r.file = st.locs["ghost:file"]
	return r
}

func (p *Prog) constOf(rel, name string) Val {
	o, ok := p.pkg(rel).Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic(undecided{"there is no constant " + name + " in " + rel})
	}
	return VConst{o.Val(), o.Type()}
}

func debugGen(p *Prog) {
	for _, cfg := range append(p.genConfigs(), p.filterConfig(false), p.filterConfig(true)) {
		if os.Getenv("GC") != cfg.name {
			continue
		}
		r := p.runGen(cfg)
		if r.und != "" {
			fmt.Println("UNDECIDED", r.und)
			return
		}
		if os.Getenv("GTXT") != "" {
			r.outline = true
			if os.Getenv("GTXT") == "go" {
				r.goText = true
				items, und := r.render(r.file, nil)
				fmt.Println(und)
				if os.Getenv("GFLAT") != "" {
					dumpFlat(items, "")
					return
				}
				fmt.Println(pretty(&VList{items: items}))
				return
			}
			if os.Getenv("GTXT") == "lists" {
				r.dumpLists()
				return
			}
			for _, e := range walkSeqAll(project(r.file, fTrue, func(v Val) (string, bool) {
				if n := isNode(v, "golang.RawStringNode"); n != nil {
					return "raw", true
				}
				return "", false
			})) {
				items, und := r.render(field(isNode(e.v, "golang.RawStringNode"), "N"), with(nil, e.g))
				fmt.Println("RAW", und, trunc(e.g.k, 60))
				for _, l := range r.texts(items, with(nil, e.g), 0) {
					fmt.Println("   ", l.text, l.und, "    IF ", fAnd(l.facts...).k)
				}
			}
			return
		}
		fmt.Println(pretty(r.in.simplify(r.file, nil)))
		fmt.Println("ALLOC", pretty(r.in.simplify(orNil(r.st.locs["ghost:alloc"]), nil)))
		fmt.Println("IMPORT", pretty(r.in.simplify(orNil(r.st.locs["ghost:import"]), nil)))
	}
}

// genConfigs lists the kinds of queries for which code is generated. The kind, whether
// the relation is a slice, what restricts the query and whether it has joins are fixed;
// everything else is left open. What the analysis rejects is left out.
func (p *Prog) genConfigs() []genConfig {
	var out []genConfig
	add := func(kind string, slice bool, qual string, join bool) {
		out = append(out, p.queryConfig(kind, slice, qual, join))
	}
	add("QueryKindInsert", false, "", false)
	add("QueryKindInsert", true, "", false)
	add("QueryKindUpdate", true, "", false)
	for _, q := range []string{"", "where", "filter", "all"} {
		for _, j := range []bool{false, true} {
			if q != "" || !j {
				add("QueryKindUpdate", false, q, j)
			}
			if q != "" {
				add("QueryKindDelete", false, q, j)
			}
			if q != "all" {
				add("QueryKindSelect", false, q, j)
				add("QueryKindSelect", true, q, j)
				add("QueryKindSelectCount", false, q, j)
				add("QueryKindSelectExists", false, q, j)
				add("QueryKindSelectNotExists", false, q, j)
			}
		}
	}
	return out
}

func (p *Prog) queryConfig(kind string, slice bool, qual string, join bool) genConfig {
	qs := p.typeOfName("internal/analysis", "QueryStruct")
	c := genConfig{name: strings.TrimPrefix(kind, "QueryKind"), kind: kind, slice: slice, qual: qual, join: join, over: map[string]Val{
		"info.Struct":                        VSym{"qs", types.NewPointer(qs)},
		"qs.Kind":                            p.constOf("internal/analysis", kind),
		"qs.Rel.Type.IsSlice":                boolVal(slice),
		"cfg.MethodWithContext.Value":        boolVal(false),
		"qs.Context":                         VNil{},
		"info.Where[*].LowerBound.Predicate": p.constOf("internal/analysis", "IsGTE"),
		"info.Where[*].UpperBound.Predicate": p.constOf("internal/analysis", "IsLTE"),
	}}
	fix := func(path string, set bool) {
		if set {
			c.ax = append(c.ax, fNot(fAtom(path, "nil")))
		} else {
			c.over[path] = VNil{}
		}
	}
	fix("qs.Where", qual == "where")
	fix("qs.Filter", qual == "filter")
	fix("qs.All", qual == "all")
	fix("qs.Join", join)
	if qual == "where" {
		c.ax = append(c.ax, fNot(fAtom("len(info.Where)", "0")))
	} else {
		c.over["info.Where"] = &VList{}
	}
	if join {
		c.ax = append(c.ax, fNot(fAtom("len(qs.Join.Directives)", "0")))
	}
	sel := strings.HasPrefix(kind, "QueryKindSelect")
	if !sel {
		c.over["qs.Limit"], c.over["qs.Offset"], c.over["qs.OrderBy"] = VNil{}, VNil{}, VNil{}
	}
	if kind == "QueryKindInsert" || kind == "QueryKindUpdate" {
		c.ax = append(c.ax, fNot(fAtom("len(info.Writes)", "0")))
	} else {
		c.over["info.Writes"] = &VList{}
	}
	if kind != "QueryKindInsert" {
		c.over["qs.OnConflict"], c.over["info.Conflict"], c.over["qs.Override"] = VNil{}, VNil{}, VNil{}
	}
	if slice {
		c.over["qs.Rel.Type.IsArray"] = boolVal(false)
		c.over["qs.Rel.Type.IsIter"] = boolVal(false)
		c.name += "/slice"
	}
	if qual != "" {
		c.name += "/" + qual
	}
	if join {
		c.name += "/join"
	}
	return c
}

func boolVal(b bool) Val {
	if b {
		return VF{fTrue}
	}
	return VF{fFalse}
}

func pretty(v Val) string {
	var sb strings.Builder
	prettyTo(&sb, v, 0)
	return sb.String()
}

func prettyTo(sb *strings.Builder, v Val, ind int) {
	nl := func(n int) { sb.WriteString("\n" + strings.Repeat("  ", n)) }
	switch x := v.(type) {
	case *VStruct:
		sb.WriteString(typeName(x.typ) + "{")
		for _, f := range fieldOrder(x) {
			nl(ind + 1)
			sb.WriteString(f + ": ")
			prettyTo(sb, x.fields[f], ind+1)
		}
		if x.base != nil {
			nl(ind + 1)
			sb.WriteString("base: ")
			prettyTo(sb, x.base, ind+1)
		}
		sb.WriteString("}")
	case *VList:
		sb.WriteString("[")
		prettyItems(sb, x.items, ind)
		sb.WriteString("]")
	case *VCond:
		n := 0
		for y := Val(x); ; n++ {
			c, ok := y.(*VCond)
			if !ok {
				break
			}
			y = c.b
		}
		if n > 12 && os.Getenv("GFULL") == "" {
			sb.WriteString("IF-CHAIN(" + strconv.Itoa(n) + ") " + trunc(x.c.k, 100))
			return
		}
		sb.WriteString("IF " + x.c.k)
		nl(ind + 1)
		sb.WriteString("? ")
		prettyTo(sb, x.a, ind+1)
		nl(ind + 1)
		sb.WriteString(": ")
		prettyTo(sb, x.b, ind+1)
	default:
		sb.WriteString(v.key())
	}
}

func prettyItems(sb *strings.Builder, items []Item, ind int) {
	nl := func(n int) { sb.WriteString("\n" + strings.Repeat("  ", n)) }
	for _, it := range items {
		nl(ind + 1)
		if it.guard != fTrue {
			sb.WriteString(it.guard.k + "? ")
		}
		switch it.kind {
		case 'e':
			prettyTo(sb, it.val, ind+1)
		case 'r':
			sb.WriteString("FOR " + it.src.key() + " {")
			prettyItems(sb, it.items, ind+1)
			sb.WriteString("}")
		case 's':
			sb.WriteString("..." + it.val.key())
		default:
			sb.WriteString(itemsKey([]Item{it}))
		}
	}
}

func init() {
	if os.Getenv("GC") == "" {
		return
	}
	register("ZGEN", "static", "debug", func(p *Prog, r *Report) { debugGen(p) })
}

// importFunc returns the result type of the function that adds a package, given its
// path and name, to the imports of a file.
func importFunc(in *Interp, fn *types.Func) types.Type {
	sig := fn.Type().(*types.Signature)
	if fn.Pkg() != in.mainPkg || sig.Recv() != nil || sig.Params().Len() != 3 || sig.Results().Len() != 1 {
		return nil
	}
	isStr := func(t types.Type) bool { b, ok := t.(*types.Basic); return ok && b.Kind() == types.String }
	if !isStr(sig.Params().At(1).Type()) || !isStr(sig.Params().At(2).Type()) {
		return nil
	}
	pt, ok := sig.Results().At(0).Type().(*types.Pointer)
	if !ok {
		return nil
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		if isStr(st.Field(i).Type()) {
			n++
		}
	}
	if n < 2 {
		return nil
	}
	return pt
}

func walkSeqAll(s []gseq) (out []gseq) {
	for _, e := range s {
		if e.kind == 'r' {
			out = append(out, walkSeqAll(e.kids)...)
		} else {
			out = append(out, e)
		}
	}
	return
}

// dumpFlat prints pieces of text, those under the same condition on a line.
func dumpFlat(items []Item, ind string) {
	g, txt := "", ""
	flush := func() {
		if txt != "" {
			fmt.Printf("%s[%s] %q\n", ind, g, txt)
		}
		txt = ""
	}
	for _, it := range items {
		if it.guard.k != g {
			flush()
			g = it.guard.k
		}
		switch it.kind {
		case 'e':
			if s, ok := constStr(it.val); ok {
				txt += s
			} else if _, ok := it.val.(*VCond); ok {
				txt += "‹IF " + it.val.key() + "›"
			} else {
				txt += textOf(it.val)
			}
		case 'r':
			flush()
			fmt.Printf("%s[%s] FOR %s\n", ind, g, it.src.key())
			dumpFlat(it.items, ind+"    ")
		default:
			txt += "‹?" + string(it.kind) + trunc(itemsKey([]Item{it}), 100) + "›"
		}
	}
	flush()
}
