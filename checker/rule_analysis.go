package main

import (
	"go/constant"
	"go/types"
)

// The rules in this file decide the properties of the analysis, which reads the structs
// that queries are described by: see rule_spec.go.

func init() {
	const explain = "Each function of the analysis that decides this is evaluated symbolically, next to the function of checker/spec/analysis.txt that says what it has to do; whether they fail, and what they return and record, must be equivalent for all inputs. "
	tags := []string{"New", "First", "Contains", "Get", "HasOption", "parseColIdentList", "parseColIdents", "parseColIdent", "parseRelIdent",
		"addToRelSpace", "isIntegerType", "isBoolType", "analyzeTypeKind", "analyzeRelType", "tolower", "IsDirective"}
	q := func(fn, spec, what string) specCase {
		return specCase{fn: fn, spec: spec, keep: tags, eff: []string{"a.query." + what}}
	}
	oc := func(fn, spec, what string) specCase {
		return specCase{fn: fn, spec: spec, keep: tags, mut: map[string]bool{"1": true}, eff: []string{"p1"}}
	}
	directives := []specCase{
		{fn: "analysis.error", spec: "vaError", keep: tags},
		q("analyzeAllDirective", "vaAll", "All"),
		q("analyzeDefaultDirective", "vaDefault", "Default"),
		q("analyzeForceDirective", "vaForce", "Force"),
		q("analyzeOptionalDirective", "vaOptional", "Optional"),
		q("analyzeReturnDirective", "vaReturn", "Return"),
		q("analyzeLimitFieldOrDirective", "vaLimit", "Limit"),
		q("analyzeOffsetFieldOrDirective", "vaOffset", "Offset"),
		q("analyzeErrorHandlerField", "vaErrorHandler", "ErrorHandler"),
		q("analyzeContextField", "vaContext", "Context"),
		q("analyzeFilterField", "vaFilter", "Filter"),
		q("analyzeRowsAffectedField", "vaRowsAffected", "RowsAffected"),
		q("analyzeOverrideDirective", "vaOverride", "Override"),
		q("analyzeOrderByDirective", "vaOrderBy", "OrderBy"),
		q("analyzeResultField", "vaResult", "Result"),
		{fn: "analyzeQueryStructRelField", spec: "vaRel", keep: tags, eff: []string{"a.query.Rel", "a.query.Kind"}},
		{fn: "analyzeFilterConstructorField", spec: "vaConstructor", keep: tags, eff: []string{"a.filter.FilterConstructor"}},
		{fn: "analyzeTextSearchDirective", spec: "vaTextSearch", keep: tags, eff: []string{"a.filter.TextSearch"}},
		oc("analyzeOnConflictColumnDirective", "vaConflictColumn", "Column"),
		oc("analyzeOnConflictIndexDirective", "vaConflictIndex", "Index"),
		oc("analyzeOnConflictConstraintDirective", "vaConflictConstraint", "Constraint"),
		oc("analyzeOnConflictIgnoreDirective", "vaConflictIgnore", "Ignore"),
		oc("analyzeOnConflictUpdateDirective", "vaConflictUpdate", "Update"),
		oc("analyzeJoinStructRelationDirective", "vaJoinRelation", "Relation"),
	}
	ids := []specCase{
		{fn: "addToRelSpace", spec: "vaAddToRelSpace", eff: []string{"a.info.RelSpace"}},
		{fn: "parseRelIdent", spec: "vaRelIdent"},
		{fn: "parseColIdent", spec: "vaColIdent", keep: []string{"isColIdent"}},
		{fn: "isColIdent", spec: "vaIsColIdent"},
		{fn: "parseColIdentList", spec: "vaColIdentList", keep: []string{"parseColIdents"}},
		{fn: "parseColIdents", spec: "vaColIdents", keep: []string{"parseColIdent"}},
		{fn: "parseCoalesceInfo", spec: "vaCoalesce"},
		{fn: "joinFieldName", spec: "vaJoinFieldName"},
		{fn: "joinFieldTag", spec: "vaJoinFieldTag", keep: tags},
		{fn: "tolower", spec: "vaToLower"},
		{fn: "ColIdentList.Contains", spec: "vaContains"},
		{fn: "parseFuncName", spec: "vaFuncName"},
		{fn: "ColIdent.String", spec: "vaColString"},
		{fn: "RelIdent.QualifiedName", spec: "vaQualifiedName"},
		{fn: "RelType.HasFieldWithColumn", spec: "vaHasColumn"},
	}
	modes := []string{"IsReadOnly", "IsWriteOnly", "CanExcludeFilter"}
	fields := []specCase{
		{fn: "FieldInfo.IsReadOnly", spec: "vaFieldReadOnly", keep: modes},
		{fn: "FieldInfo.IsWriteOnly", spec: "vaFieldWriteOnly", keep: modes},
		{fn: "FieldInfo.ExcludeFromFilter", spec: "vaFieldNoFilter", keep: modes},
		{fn: "FieldMode.IsReadOnly", spec: "vaModeReadOnly"},
		{fn: "FieldMode.IsWriteOnly", spec: "vaModeWriteOnly"},
		{fn: "FieldMode.CanInsert", spec: "vaModeInsert"},
		{fn: "FieldMode.CanUpdate", spec: "vaModeUpdate"},
		{fn: "FieldMode.CanSelect", spec: "vaModeSelect"},
		{fn: "FieldMode.CanExcludeFilter", spec: "vaModeNoFilter"},
		{fn: "FieldMode.TreatAsNotNULL", spec: "vaModeNotNull"},
		{fn: "parseFieldMode", spec: "vaFieldMode"},
	}
	kinds := []specCase{
		{fn: "TypeInfo.IsNilable", spec: "vaNilable"},
		{fn: "TypeInfo.ImplementsScanner", spec: "vaScanner"},
		{fn: "TypeInfo.ImplementsValuer", spec: "vaValuer"},
		{fn: "TypeInfo.ImplementsJSONMarshaler", spec: "vaJSONMarshaler"},
		{fn: "TypeInfo.ImplementsJSONUnmarshaler", spec: "vaJSONUnmarshaler"},
		{fn: "TypeInfo.ImplementsXMLMarshaler", spec: "vaXMLMarshaler"},
		{fn: "TypeInfo.ImplementsXMLUnmarshaler", spec: "vaXMLUnmarshaler"},
		{fn: "TypeInfo.IsJSONIllegal", spec: "vaJSONIllegal"},
		{fn: "TypeInfo.IsXMLIllegal", spec: "vaXMLIllegal"},
		{fn: "TypeKind.IsBasic", spec: "vaIsBasic", enum: true},
	}
	types := []string{"analyzeTypeInfo", "analyzeTypeKind", "isImportedType", "ImplementsScanner", "ImplementsValuer", "ImplementsJSONMarshaler",
		"ImplementsJSONUnmarshaler", "ImplementsXMLMarshaler", "ImplementsXMLUnmarshaler", "IsEmptyInterface", "IsScanner", "IsValuer",
		"ImplementsErrorHandler", "ImplementsErrorInfoHandler", "IsError", "isAccessible", "analyzeIteratorFunction", "literal"}
	kinds = append(kinds,
		specCase{fn: "isIntegerType", spec: "vaIsInteger"},
		specCase{fn: "isBoolType", spec: "vaIsBool"},
		specCase{fn: "isErrorHandler", spec: "vaIsErrorHandler", keep: types},
		specCase{fn: "isErrorInfoHandler", spec: "vaIsErrorInfoHandler", keep: types},
		specCase{fn: "isFilterType", spec: "vaIsFilter"},
		specCase{fn: "isImportedType", spec: "vaIsImported"},
		specCase{fn: "isAccessible", spec: "vaIsAccessible", keep: types},
		specCase{fn: "TypeInfo.Is", spec: "vaIs"},
		specCase{fn: "TypeInfo.IsSliceKind", spec: "vaIsSliceKind"},
		specCase{fn: "TypeInfo.GenericLiteral", spec: "vaGenericLiteral", keep: types},
		specCase{fn: "analyzeTypeKind", spec: "vaTypeKind", keep: types},
		specCase{fn: "analyzeTypeInfo", spec: "vaTypeInfo", keep: types},
		specCase{fn: "analyzeIteratorFunction", spec: "vaIterFunc", keep: types, mut: map[string]bool{"1": true}, eff: []string{"p1.IsIter", "p1.IsPointer"}},
		specCase{fn: "analyzeIteratorInterface", spec: "vaIterInterface", keep: types, mut: map[string]bool{"1": true}, eff: []string{"p1.IterMethod"}},
	)
	structs := append([]string{"GetStruct", "GetDirectiveName",
		"analyzeOnConflictColumnDirective", "analyzeOnConflictIndexDirective", "analyzeOnConflictConstraintDirective",
		"analyzeOnConflictIgnoreDirective", "analyzeOnConflictUpdateDirective",
		"analyzeJoinStructRelationDirective", "analyzeJoinStructJoinDirective"}, tags...)
	directives = append(directives,
		specCase{fn: "analyzeOnConflictStruct", spec: "vaConflict", keep: structs, wide: []string{"analysis.OnConflictStruct", "analysis.JoinStruct"}, eff: []string{"a.query.OnConflict"}},
		specCase{fn: "analyzeJoinStruct", spec: "vaJoin", keep: structs, wide: []string{"analysis.OnConflictStruct", "analysis.JoinStruct"}, eff: []string{"a.query.Join"}},
	)
	preds := []specCase{
		{fn: "Predicate.IsOneOf", spec: "vaIsOneOf"},
		{fn: "Predicate.IsBinary", spec: "vaBinary", enum: true},
		{fn: "Predicate.IsNull", spec: "vaNull", enum: true},
		{fn: "Predicate.IsBoolean", spec: "vaBoolean", enum: true},
		{fn: "Predicate.IsPatternMatch", spec: "vaPattern", enum: true},
		{fn: "Predicate.IsRange", spec: "vaRange", enum: true},
		{fn: "Predicate.IsArray", spec: "vaArray", enum: true},
		{fn: "Predicate.IsUnary", spec: "vaUnary", enum: true},
		{fn: "Predicate.CanQuantify", spec: "vaCanQuantify", enum: true},
	}
	queries := []specCase{
		{fn: "QueryKind.isSelect", spec: "vaKindSelects", enum: true},
		{fn: "QueryKind.isNonFromSelect", spec: "vaKindSelectsNoRows", enum: true},
		{fn: "QueryKind.String", spec: "vaKindName", enum: true},
		{fn: "RelType.IsSingle", spec: "vaIsSingle"},
		{fn: "QueryStruct.IsSelectCountOrExists", spec: "vaSelectsNoRows"},
		{fn: "QueryStruct.IsUpdateSlice", spec: "vaUpdateSlice"},
		{fn: "QueryStruct.IsUpdateWithPKeys", spec: "vaUpdateWithKeys"},
		{fn: "QueryStruct.IsUpdateWithoutPKeys", spec: "vaUpdateWithoutKeys"},
		{fn: "QueryStruct.IsInsertOrUpdate", spec: "vaWrites"},
		{fn: "QueryStruct.IsInsertOrUpdateSlice", spec: "vaWritesSlice"},
		{fn: "QueryStruct.IsWithoutOutput", spec: "vaNoOutput"},
		{fn: "QueryStruct.IsSingleOutput", spec: "vaSingleOutput"},
		{fn: "QueryStruct.HasNoErrorInfoHandler", spec: "vaNoInfoHandler"},
		{fn: "QueryStruct.HasNoQualifier", spec: "vaNoQualifier"},
		{fn: "QueryStruct.HasQualifier", spec: "vaQualifier"},
		{fn: "QueryStruct.OutputRelFieldName", spec: "vaOutputName"},
		{fn: "QueryStruct.OutputRelType", spec: "vaOutputType"},
		{fn: "QueryStruct.OutputIsAfterScanner", spec: "vaOutputAfterScanner"},
		{fn: "FilterStruct.IsV1", spec: "vaIsV1"},
		{fn: "FilterStruct.IsV2", spec: "vaIsV2"},
		{fn: "FieldInfo.FilterValueConverter", spec: "vaConverter"},
		{fn: "Identifier.NeedsImport", spec: "vaNeedsImport"},
	}
	reg := func(id, explain string, rules map[string][]specCase) {
		register(id, "static", explain, func(p *Prog, rep *Report) {
			env := loadSpec(p, "internal/analysis", "analysis.txt")
			for _, rule := range sortedCaseKeys(rules) {
				rep.Rule(rule, "the function decides and records what the specification does, for all inputs")
				for _, c := range rules[rule] {
					compareSpec(rep, env, c)
				}
			}
			if id == "A05" {
				checkAppends(p, rep, "internal/analysis")
			}
		})
	}
	all := append(append([]string{"parsePredicateExpr", "parseFieldMode", "parseCoalesceInfo", "parseFuncName", "parseFilterColumnKey", "isAccessible", "analyzeTypeInfo",
		"analyzeFieldInfoList", "analyzeIteratorInterface", "analyzeIteratorFunction", "isFilterType", "isErrorHandler", "isErrorInfoHandler", "IsContext", "ImplementsAfterScanner",
		"IsUnary", "CanQuantify", "IsArray", "IsSequence", "analyzeQueryStructRelField", "analyzeQueryStructDirective", "analyzeQueryStructField", "ImplementsGosqlFilterConstructor",
		"joinFieldName", "joinFieldTag", "isImportedType",
		"analyzeFilterConstructorField", "analyzeTextSearchDirective"}, structs...), types...)
	for _, n := range []string{"All", "Default", "Force", "Optional", "Return", "OrderBy", "Override"} {
		all = append(all, "analyze"+n+"Directive")
	}
	for _, n := range []string{"analyzeLimitFieldOrDirective", "analyzeOffsetFieldOrDirective", "analyzeWhereStruct", "analyzeJoinStruct", "analyzeOnConflictStruct", "analyzeResultField", "analyzeRowsAffectedField",
		"analyzeFilterField", "analyzeErrorHandlerField", "analyzeContextField"} {
		all = append(all, n)
	}
	parts := []specCase{
		{fn: "analyzeQueryStructDirective", spec: "vaDirective", keep: all},
		{fn: "analyzeQueryStructField", spec: "vaField", keep: all},
		{fn: "analyzeFieldInfoList", spec: "vaFieldList", keep: all, mut: map[string]bool{"1": true}, eff: []string{"p1", "ghost:init", "ghost:more", "ghost:step", "ghost:done"}},
		{fn: "analyzeWhereStruct", spec: "vaWhere", keep: all, eff: []string{"a.query.Where", "ghost:init", "ghost:more", "ghost:step", "ghost:done"}},
		{fn: "analyzeJoinStructJoinDirective", spec: "vaJoinDirective", keep: all, mut: map[string]bool{"1": true}, eff: []string{"p1"}},
		{fn: "analyzeRelType", spec: "vaRelType", keep: all, mut: map[string]bool{"1": true}, eff: []string{"p1", "a.info.FieldMap", "ghost:stored"}},
		{fn: "analyzeQueryStruct", spec: "vaQuery", keep: all, wide: []string{"analysis.QueryStruct"}, eff: []string{"a.query"}},
		{fn: "analyzeFilterStruct", spec: "vaFilterStruct", keep: all, wide: []string{"analysis.FilterStruct"}, eff: []string{"a.filter"}},
		{fn: "parseFilterColumnKey", spec: "vaColumnKey", keep: all, mut: map[string]bool{"1": true}, eff: []string{"p1"}},
		{fn: "parsePredicateExpr", spec: "vaPredicateExpr", keep: all},
	}
	reg("A05", explain+"Structs, their fields, and conditions.", map[string][]specCase{"struct": parts})
	reg("A01", explain+"Directives and special fields.", map[string][]specCase{"directive": directives})
	reg("A02", explain+"Identifiers, and lists of them.", map[string][]specCase{"identifier": ids})
	reg("A03", explain+"Options of fields, and kinds of types.", map[string][]specCase{"field": fields, "kind": kinds})
	reg("A04", explain+"What is asked about a query.", map[string][]specCase{"predicate": preds, "query": queries})
}

// constantsOf are the values of all the constants of the type, and one that is none of them.
func constantsOf(t types.Type) []constant.Value {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	var out []constant.Value
	seen := map[string]bool{}
	scope := n.Obj().Pkg().Scope()
	max := constant.MakeInt64(0)
	for _, name := range scope.Names() {
		c, ok := scope.Lookup(name).(*types.Const)
		if !ok || !types.Identical(c.Type(), t) || c.Val().Kind() != constant.Int || seen[c.Val().ExactString()] {
			continue
		}
		seen[c.Val().ExactString()] = true
		out = append(out, c.Val())
		if v, exact := constant.Int64Val(c.Val()); exact {
			if m, _ := constant.Int64Val(max); v > m {
				max = c.Val()
			}
		}
	}
	m, _ := constant.Int64Val(max)
	for _, v := range []int64{0, m + 1} {
		if c := constant.MakeInt64(v); !seen[c.ExactString()] {
			out = append(out, c)
		}
	}
	return out
}
