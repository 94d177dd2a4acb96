package jlibschema

import (
	"encoding/json"
	"strconv"

	"github.com/superisaac/jlib/internal/vc"
)

// Schemas are finite trees of the types of this package.
//
//vc:attr iface:jlibschema.Schema closed

// wf: what a builder produces: no missing part anywhere in the tree
//
//vc:rec
func wf(s Schema) bool {
	switch t := s.(type) {
	case *AnySchema:
		return t != nil
	case *NullSchema:
		return t != nil
	case *BoolSchema:
		return t != nil
	case *NumberSchema:
		return t != nil
	case *IntegerSchema:
		return t != nil
	case *StringSchema:
		return t != nil
	case *AnyOfSchema:
		return t != nil && wfAll(t.Choices)
	case *AllOfSchema:
		return t != nil && wfAll(t.Choices)
	case *NotSchema:
		return t != nil && wf(t.Child)
	case *ListSchema:
		return t != nil && wf(t.Item)
	case *TupleSchema:
		return t != nil && wfAll(t.Children) && wfOrNil(t.AdditionalSchema)
	case *MethodSchema:
		return t != nil && wfAll(t.Params) && wfOrNil(t.Returns) && wfOrNil(t.AdditionalSchema)
	case *ObjectSchema:
		return t != nil && wfOrNil(t.AdditionalProperties) &&
			vc.ForallKey(t.Properties, func(k string, c Schema) bool { return wf(c) }) &&
			vc.ForallKey(t.Requires, func(k string, b bool) bool { return vc.Has(t.Properties, k) })
	}
	return false
}

func wfOrNil(s Schema) bool { return s == nil || wf(s) }

func wfAll(ss []Schema) bool {
	return vc.Forall(0, len(ss), func(i int) bool { return wf(ss[i]) })
}

// ---- when a value conforms

func set(b *bool) bool { return b != nil && *b }

func numberInRange(t *NumberSchema, v float64) bool {
	if t.Maximum != nil && (v > *t.Maximum || set(t.ExclusiveMaximum) && v == *t.Maximum) {
		return false
	}
	if t.Minimum != nil && (v < *t.Minimum || set(t.ExclusiveMinimum) && v == *t.Minimum) {
		return false
	}
	return true
}

func integerInRange(t *IntegerSchema, v int64) bool {
	if t.Maximum != nil && (v > *t.Maximum || set(t.ExclusiveMaximum) && v == *t.Maximum) {
		return false
	}
	if t.Minimum != nil && (v < *t.Minimum || set(t.ExclusiveMinimum) && v == *t.Minimum) {
		return false
	}
	return true
}

func conformsNumber(t *NumberSchema, v interface{}) bool {
	switch n := v.(type) {
	case json.Number:
		f, _ := n.Float64()
		return numberInRange(t, f)
	case int:
		return numberInRange(t, float64(n))
	case float64:
		return numberInRange(t, n)
	}
	return false
}

func conformsInteger(t *IntegerSchema, v interface{}) bool {
	switch n := v.(type) {
	case json.Number:
		i, err := n.Int64()
		return err == nil && integerInRange(t, i)
	case int:
		return integerInRange(t, int64(n))
	}
	return false
}

func conformsString(t *StringSchema, v interface{}) bool {
	s, ok := v.(string)
	return ok && (t.MaxLength == nil || len(s) <= *t.MaxLength) && (t.MinLength == nil || len(s) >= *t.MinLength)
}

func lengthFits(t *ListSchema, n int) bool {
	return (t.MaxItems == nil || n <= *t.MaxItems) && (t.MinItems == nil || n >= *t.MinItems)
}

// conformsSeq: the items conform position by position, the extra ones to more
func conformsSeq(ss []Schema, more Schema, items []interface{}) bool {
	return len(items) >= len(ss) && (more != nil || len(items) == len(ss)) &&
		vc.Forall(0, len(ss), func(i int) bool { return conforms(ss[i], items[i]) }) &&
		vc.Forall(len(ss), len(items), func(i int) bool { return conforms(more, items[i]) })
}

//vc:rec
func conforms(s Schema, v interface{}) bool {
	switch t := s.(type) {
	case *AnySchema:
		return true
	case *NullSchema:
		return v == nil
	case *BoolSchema:
		_, ok := v.(bool)
		return ok
	case *NumberSchema:
		return conformsNumber(t, v)
	case *IntegerSchema:
		return conformsInteger(t, v)
	case *StringSchema:
		return conformsString(t, v)
	case *AnyOfSchema:
		return vc.Exists(0, len(t.Choices), func(i int) bool { return conforms(t.Choices[i], v) })
	case *AllOfSchema:
		return vc.Forall(0, len(t.Choices), func(i int) bool { return conforms(t.Choices[i], v) })
	case *NotSchema:
		return !conforms(t.Child, v)
	case *ListSchema:
		items, ok := v.([]interface{})
		return ok && lengthFits(t, len(items)) &&
			vc.Forall(0, len(items), func(i int) bool { return conforms(t.Item, items[i]) })
	case *TupleSchema:
		items, ok := v.([]interface{})
		return ok && conformsSeq(t.Children, t.AdditionalSchema, items)
	case *ObjectSchema:
		obj, ok := v.(map[string]interface{})
		return ok && conformsObject(t, obj)
	case *MethodSchema:
		obj, ok := v.(map[string]interface{})
		if !ok {
			return false
		}
		if params, ok := obj["params"].([]interface{}); ok {
			return conformsSeq(t.Params, t.AdditionalSchema, params)
		}
		return vc.Has(obj, "result") && (t.Returns == nil || conforms(t.Returns, obj["result"]))
	}
	return false
}

func conformsObject(t *ObjectSchema, obj map[string]interface{}) bool {
	return vc.ForallKey(t.Properties, func(k string, c Schema) bool {
		return vc.Imp(vc.Has(obj, k), conforms(c, obj[k]))
	}) && vc.ForallKey(t.Requires, func(k string, b bool) bool {
		return vc.Has(obj, k)
	}) && (t.AdditionalProperties == nil || vc.ForallKey(obj, func(k string, v interface{}) bool {
		return vc.Has(t.Properties, k) || conforms(t.AdditionalProperties, v)
	}))
}

// ---- where a value fails: the path elements a[k:n] lead from v to a value
// that violates the schema that applies there

func posElem(i int) string { return "[" + strconv.Itoa(i) + "]" }

//vc:rec
func failsAt(s Schema, v interface{}, a vc.Strs, k, n int) bool {
	switch t := s.(type) {
	case *AllOfSchema:
		return vc.Exists(0, len(t.Choices), func(i int) bool {
			return failsAt(t.Choices[i], v, a, k, n) &&
				vc.Forall(0, i, func(j int) bool { return conforms(t.Choices[j], v) })
		})
	case *ListSchema:
		items, ok := v.([]interface{})
		if !ok || !lengthFits(t, len(items)) {
			return k == n
		}
		return vc.Exists(0, len(items), func(i int) bool {
			return failsAt(t.Item, items[i], a, k+1, n) && vc.StrAt(a, k) == posElem(i) &&
				vc.Forall(0, i, func(j int) bool { return conforms(t.Item, items[j]) })
		})
	case *TupleSchema:
		items, ok := v.([]interface{})
		if !ok || len(items) < len(t.Children) || t.AdditionalSchema == nil && len(items) > len(t.Children) {
			return k == n
		}
		return failsInSeq(t.Children, t.AdditionalSchema, items, a, k, n)
	case *ObjectSchema:
		obj, ok := v.(map[string]interface{})
		if !ok {
			return k == n
		}
		return failsInObject(t, obj, a, k, n)
	case *MethodSchema:
		obj, ok := v.(map[string]interface{})
		if !ok {
			return k == n
		}
		if params, ok := obj["params"].([]interface{}); ok {
			return failsInParams(t, params, a, k, n)
		}
		if !vc.Has(obj, "result") {
			return k == n
		}
		return vc.StrAt(a, k) == ".result" && failsAt(t.Returns, obj["result"], a, k+1, n)
	}
	return k == n && !conforms(s, v)
}

func failsInSeq(ss []Schema, more Schema, items []interface{}, a vc.Strs, k, n int) bool {
	return vc.Exists(0, len(ss), func(i int) bool {
		return failsAt(ss[i], items[i], a, k+1, n) && vc.StrAt(a, k) == posElem(i) &&
			vc.Forall(0, i, func(j int) bool { return conforms(ss[j], items[j]) })
	}) || more != nil && vc.Exists(len(ss), len(items), func(i int) bool {
		return failsAt(more, items[i], a, k+1, n) && vc.StrAt(a, k) == posElem(i) &&
			vc.Forall(0, len(ss), func(j int) bool { return conforms(ss[j], items[j]) }) &&
			vc.Forall(len(ss), i, func(j int) bool { return conforms(more, items[j]) })
	})
}

func failsInObject(t *ObjectSchema, obj map[string]interface{}, a vc.Strs, k, n int) bool {
	return vc.ExistsKey(t.Properties, func(p string, c Schema) bool {
		return vc.StrAt(a, k) == "."+p && (vc.Has(obj, p) && failsAt(c, obj[p], a, k+1, n) ||
			!vc.Has(obj, p) && vc.Has(t.Requires, p) && k+1 == n)
	}) || t.AdditionalProperties != nil && vc.ExistsKey(obj, func(p string, v interface{}) bool {
		return !vc.Has(t.Properties, p) && vc.StrAt(a, k) == "."+p && failsAt(t.AdditionalProperties, v, a, k+1, n)
	})
}

func failsInParams(t *MethodSchema, params []interface{}, a vc.Strs, k, n int) bool {
	if vc.StrAt(a, k) != ".params" {
		return false
	}
	if len(params) < len(t.Params) {
		return k+1 == n
	}
	if k+1 == n {
		return len(params) > len(t.Params) && t.AdditionalSchema == nil
	}
	return failsInSeq(t.Params, t.AdditionalSchema, params, a, k+1, n)
}

// ---- what every validation promises

// the validator is as before
func clean(v *SchemaValidator) bool {
	return vc.Old(func() int { return len(v.paths) }) == len(v.paths) &&
		vc.Old(func() string { return v.hint }) == v.hint &&
		vc.Old(func() string { return v.errorPath }) == v.errorPath
}

func cleanElems(v *SchemaValidator) bool {
	a, b := vc.Old(func() vc.Strs { return vc.Elems(v.paths) }), vc.Elems(v.paths)
	return vc.Forall(0, len(v.paths), func(i int) bool { return vc.StrAt(a, i) == vc.StrAt(b, i) })
}

// its path storage is the old one or new
func ownPaths(v *SchemaValidator) bool {
	b := vc.Base(v.paths)
	return b == vc.Old(func() int { return vc.Base(v.paths) }) || b > vc.Old(func() int { return vc.Alloc() })
}

// an error owns its path
func ownError(v *SchemaValidator, r *ErrorPos) bool {
	return r == nil || vc.Fresh(r) &&
		(len(r.paths) == 0 || vc.Base(r.paths) != vc.Base(v.paths) && vc.Base(r.paths) > vc.Old(func() int { return vc.Alloc() }))
}

// the path starts with the validator's own
func extends(v *SchemaValidator, r *ErrorPos) bool {
	a, b := vc.Old(func() vc.Strs { return vc.Elems(v.paths) }), vc.Elems(r.paths)
	n := vc.Old(func() int { return len(v.paths) })
	return len(r.paths) >= n && vc.Forall(0, n, func(i int) bool { return vc.StrAt(a, i) == vc.StrAt(b, i) })
}

func found(v *SchemaValidator, s Schema, data interface{}, r *ErrorPos) bool {
	return failsAt(s, data, vc.Elems(r.paths), vc.Old(func() int { return len(v.paths) }), len(r.paths))
}

//vc:requires jlibschema.Schema.Scan
func reqScan(s Schema, v *SchemaValidator, data interface{}) bool { return wf(s) && v != nil }

//vc:modifies jlibschema.Schema.Scan
func modScan(s Schema, v *SchemaValidator, data interface{}) {
	vc.Mod(v)
	vc.ModElems(v.paths)
}

//vc:ensures jlibschema.Schema.Scan name=accepts-iff-conforms props=C08
func ensScan(s Schema, v *SchemaValidator, data interface{}, r *ErrorPos) bool {
	return (r == nil) == conforms(s, data)
}

//vc:ensures jlibschema.Schema.Scan name=path-leads-to-violation props=C09
func ensScanPath(s Schema, v *SchemaValidator, data interface{}, r *ErrorPos) bool {
	return r == nil || extends(v, r) && found(v, s, data, r)
}

//vc:ensures jlibschema.Schema.Scan name=validator-clean props=C09
func ensScanClean(s Schema, v *SchemaValidator, data interface{}, r *ErrorPos) bool {
	return clean(v) && cleanElems(v)
}

//vc:ensures jlibschema.Schema.Scan name=error-owns-path props=C09
func ensScanOwn(s Schema, v *SchemaValidator, data interface{}, r *ErrorPos) bool {
	return ownPaths(v) && ownError(v, r)
}

//vc:invariant jlibschema.Schema.Scan
func invScanClean(k int, s Schema, v *SchemaValidator, data interface{}) bool { return clean(v) }

//vc:invariant jlibschema.Schema.Scan
func invScanElems(k int, s Schema, v *SchemaValidator, data interface{}) bool { return cleanElems(v) }

//vc:invariant jlibschema.Schema.Scan
func invScanOwn(k int, s Schema, v *SchemaValidator, data interface{}) bool { return ownPaths(v) }

//vc:invariant jlibschema.Schema.Scan
func invAnyOf(k int, s Schema, v *SchemaValidator, data interface{}) bool {
	t, ok := s.(*AnyOfSchema)
	return ok && vc.Forall(0, k, func(i int) bool { return !conforms(t.Choices[i], data) })
}

//vc:invariant jlibschema.Schema.Scan
func invAnyOfFlag(k int, s Schema, v *SchemaValidator, data interface{}, any bool) bool {
	t, ok := s.(*AnyOfSchema)
	return ok && any == vc.Exists(0, k, func(i int) bool { return conforms(t.Choices[i], data) })
}

//vc:invariant jlibschema.Schema.Scan
func invAllOf(k int, s Schema, v *SchemaValidator, data interface{}) bool {
	t, ok := s.(*AllOfSchema)
	return ok && vc.Forall(0, k, func(i int) bool { return conforms(t.Choices[i], data) })
}

//vc:invariant jlibschema.Schema.Scan
func invList(k int, s Schema, v *SchemaValidator, data interface{}) bool {
	t, ok := s.(*ListSchema)
	items, _ := data.([]interface{})
	return ok && vc.Forall(0, k, func(i int) bool { return conforms(t.Item, items[i]) })
}

//vc:invariant jlibschema.Schema.Scan
func invTuple(k int, s Schema, v *SchemaValidator, data interface{}) bool {
	t, ok := s.(*TupleSchema)
	items, _ := data.([]interface{})
	return ok && vc.Forall(0, k, func(i int) bool { return conforms(t.Children[i], items[i]) })
}

//vc:invariant jlibschema.Schema.Scan
func invTupleMore(k int, s Schema, v *SchemaValidator, data interface{}) bool {
	t, ok := s.(*TupleSchema)
	items, _ := data.([]interface{})
	return ok && vc.Forall(len(t.Children), len(t.Children)+k, func(i int) bool { return conforms(t.AdditionalSchema, items[i]) })
}

//vc:invariant jlibschema.Schema.Scan
func invTupleMerged(k int, s Schema, v *SchemaValidator, data interface{}) bool {
	t, ok := s.(*TupleSchema)
	items, _ := data.([]interface{})
	return ok && vc.Forall(0, k, func(i int) bool {
		return vc.Imp(i < len(t.Children), conforms(t.Children[i], items[i])) && vc.Imp(i >= len(t.Children), conforms(t.AdditionalSchema, items[i]))
	})
}

//vc:invariant jlibschema.Schema.Scan
func invObject(k int, s Schema, v *SchemaValidator, data interface{}) bool {
	t, ok := s.(*ObjectSchema)
	obj, _ := data.(map[string]interface{})
	return ok && vc.ForallKey(t.Properties, func(p string, c Schema) bool {
		return vc.Imp(vc.Seen(p), vc.Has(obj, p) && conforms(c, obj[p]) || !vc.Has(obj, p) && !vc.Has(t.Requires, p))
	})
}

//vc:invariant jlibschema.Schema.Scan
func invObjectChecked(k int, s Schema, v *SchemaValidator, data interface{}, checked map[string]bool) bool {
	return vc.ForallStr(func(p string) bool { return vc.Has(checked, p) == vc.Seen(p) })
}

//vc:invariant jlibschema.Schema.Scan
func invObjectMore(k int, s Schema, v *SchemaValidator, data interface{}) bool {
	t, ok := s.(*ObjectSchema)
	obj, _ := data.(map[string]interface{})
	return ok && vc.ForallKey(obj, func(p string, d interface{}) bool {
		return vc.Imp(vc.Seen(p), vc.Has(t.Properties, p) || conforms(t.AdditionalProperties, d))
	})
}

// inside the params of a method message

//vc:invariant jlibschema.Schema.Scan
func invParamsClean(k int, s Schema, v *SchemaValidator, data interface{}) bool {
	_, ok := s.(*MethodSchema)
	n := vc.Old(func() int { return len(v.paths) })
	return ok && len(v.paths) == n+1 && vc.StrAt(vc.Elems(v.paths), n) == ".params" &&
		vc.Old(func() string { return v.hint }) == v.hint &&
		vc.Old(func() string { return v.errorPath }) == v.errorPath
}

//vc:invariant jlibschema.Schema.Scan
func invParamsElems(k int, s Schema, v *SchemaValidator, data interface{}) bool {
	_, ok := s.(*MethodSchema)
	n := vc.Old(func() int { return len(v.paths) })
	a, b := vc.Old(func() vc.Strs { return vc.Elems(v.paths) }), vc.Elems(v.paths)
	return ok && vc.Forall(0, n, func(i int) bool { return vc.StrAt(a, i) == vc.StrAt(b, i) })
}

//vc:invariant jlibschema.Schema.Scan
func invParams(k int, s Schema, v *SchemaValidator, data interface{}) bool {
	t, ok := s.(*MethodSchema)
	params := paramsOf(data)
	return ok && vc.Forall(0, k, func(i int) bool { return conforms(t.Params[i], params[i]) })
}

//vc:invariant jlibschema.Schema.Scan
func invParamsMore(k int, s Schema, v *SchemaValidator, data interface{}) bool {
	t, ok := s.(*MethodSchema)
	params := paramsOf(data)
	return ok && vc.Forall(len(t.Params), len(t.Params)+k, func(i int) bool { return conforms(t.AdditionalSchema, params[i]) })
}

//vc:invariant jlibschema.Schema.Scan
func invParamsMerged(k int, s Schema, v *SchemaValidator, data interface{}) bool {
	t, ok := s.(*MethodSchema)
	params := paramsOf(data)
	return ok && vc.Forall(0, k, func(i int) bool {
		return vc.Imp(i < len(t.Params), conforms(t.Params[i], params[i])) && vc.Imp(i >= len(t.Params), conforms(t.AdditionalSchema, params[i]))
	})
}

func paramsOf(data interface{}) []interface{} {
	obj, _ := data.(map[string]interface{})
	params, _ := obj["params"].([]interface{})
	return params
}

// ---- the validator

//vc:requires (*jlibschema.SchemaValidator).Scan
func reqVScan(v *SchemaValidator, s Schema, path string, data interface{}) bool { return wf(s) }

//vc:modifies (*jlibschema.SchemaValidator).Scan
func modVScan(v *SchemaValidator, s Schema, path string, data interface{}) {
	vc.Mod(v)
	vc.ModElems(v.paths)
}

//vc:ensures (*jlibschema.SchemaValidator).Scan name=accepts-iff-conforms props=C08
func ensVScan(v *SchemaValidator, s Schema, path string, data interface{}, r *ErrorPos) bool {
	return (r == nil) == conforms(s, data)
}

//vc:ensures (*jlibschema.SchemaValidator).Scan name=path-leads-to-violation props=C09
func ensVScanPath(v *SchemaValidator, s Schema, path string, data interface{}, r *ErrorPos) bool {
	if r == nil {
		return true
	}
	n := vc.Old(func() int { return len(v.paths) })
	a := vc.Elems(r.paths)
	if path == "" {
		return extends(v, r) && failsAt(s, data, a, n, len(r.paths))
	}
	return extends(v, r) && len(r.paths) >= n+1 && vc.StrAt(a, n) == path && failsAt(s, data, a, n+1, len(r.paths))
}

//vc:ensures (*jlibschema.SchemaValidator).Scan name=validator-clean props=C09
func ensVScanClean(v *SchemaValidator, s Schema, path string, data interface{}, r *ErrorPos) bool {
	return clean(v) && cleanElems(v)
}

//vc:ensures (*jlibschema.SchemaValidator).Scan name=error-owns-path props=C09
func ensVScanOwn(v *SchemaValidator, s Schema, path string, data interface{}, r *ErrorPos) bool {
	return ownPaths(v) && ownError(v, r)
}

//vc:ensures (*jlibschema.SchemaValidator).NewErrorPos fresh=0 name=error-has-current-path props=C09
func ensNewErrorPos(v *SchemaValidator, hint string, r *ErrorPos) bool {
	a, b := vc.Elems(v.paths), vc.Elems(r.paths)
	return r.hint == hint && len(r.paths) == len(v.paths) &&
		vc.Forall(0, len(v.paths), func(i int) bool { return vc.StrAt(a, i) == vc.StrAt(b, i) }) &&
		(len(r.paths) == 0 || vc.Base(r.paths) > vc.Old(func() int { return vc.Alloc() }))
}

//vc:invariant (*jlibschema.SchemaValidator).NewErrorPos
func invNewErrorPos(k int, v *SchemaValidator, hint string, acc []string) bool {
	a, b := vc.Elems(v.paths), vc.Elems(acc)
	return len(acc) == k && vc.Forall(0, k, func(i int) bool { return vc.StrAt(a, i) == vc.StrAt(b, i) })
}

// ---- entry points

//vc:requires (*jlibschema.SchemaValidator).Validate
func reqValidate(v *SchemaValidator, s Schema, data interface{}) bool { return wf(s) }

//vc:modifies (*jlibschema.SchemaValidator).Validate
func modValidate(v *SchemaValidator, s Schema, data interface{}) {
	vc.Mod(v)
	vc.ModElems(v.paths)
}

//vc:ensures (*jlibschema.SchemaValidator).Validate name=accepts-iff-conforms props=C08
func ensValidate(v *SchemaValidator, s Schema, data interface{}, r *ErrorPos) bool {
	return (r == nil) == conforms(s, data)
}

//vc:ensures (*jlibschema.SchemaValidator).Validate name=path-leads-to-violation props=C09
func ensValidatePath(v *SchemaValidator, s Schema, data interface{}, r *ErrorPos) bool {
	return r == nil || extends(v, r) && found(v, s, data, r)
}

//vc:ensures (*jlibschema.SchemaValidator).Validate name=validator-clean props=C09
func ensValidateClean(v *SchemaValidator, s Schema, data interface{}, r *ErrorPos) bool {
	return clean(v) && cleanElems(v) && ownPaths(v) && ownError(v, r)
}

func jDoc(src string) string         { return vc.UF[string]("json.doc", src, 0) }
func jHasDoc(src string) bool        { return vc.UF[bool]("json.hasdoc", src, 0) }
func jAny(doc string) interface{}    { return vc.UF[interface{}]("json.any", doc, true) } // numbers exact
func textValue(b []byte) interface{} { return jAny(jDoc(vc.Bytes(b))) }

//vc:requires (*jlibschema.SchemaValidator).ValidateBytes
func reqValidateBytes(v *SchemaValidator, s Schema, b []byte) bool { return wf(s) }

//vc:modifies (*jlibschema.SchemaValidator).ValidateBytes
func modValidateBytes(v *SchemaValidator, s Schema, b []byte) {
	vc.Mod(v)
	vc.ModElems(v.paths)
}

//vc:panics (*jlibschema.SchemaValidator).ValidateBytes name=only-on-undecodable-text props=C08
func panicsValidateBytes(v *SchemaValidator, s Schema, b []byte) bool { return !jHasDoc(vc.Bytes(b)) }

//vc:ensures (*jlibschema.SchemaValidator).ValidateBytes name=accepts-iff-conforms props=C08
func ensValidateBytes(v *SchemaValidator, s Schema, b []byte, r *ErrorPos) bool {
	return (r == nil) == conforms(s, textValue(b))
}

//vc:ensures (*jlibschema.SchemaValidator).ValidateBytes name=path-leads-to-violation props=C09
func ensValidateBytesPath(v *SchemaValidator, s Schema, b []byte, r *ErrorPos) bool {
	return r == nil || extends(v, r) && found(v, s, textValue(b), r)
}

//vc:ensures (*jlibschema.SchemaValidator).ValidateBytes name=validator-clean props=C09
func ensValidateBytesClean(v *SchemaValidator, s Schema, b []byte, r *ErrorPos) bool {
	return clean(v) && cleanElems(v) && ownPaths(v) && ownError(v, r)
}

//vc:ensures jlibschema.NewSchemaValidator fresh=0 name=starts-empty props=C09
func ensNewSchemaValidator(r *SchemaValidator) bool { return r != nil && len(r.paths) == 0 }

//vc:ensures (jlibschema.ErrorPos).Path name=elements-in-order props=C09
func ensPath(e ErrorPos, r string) bool {
	return r == vc.UF[string]("strings.Join", vc.Elems(e.paths), len(e.paths), "")
}

//vc:ensures (jlibschema.ErrorPos).Error name=shows-path-and-hint props=C09
func ensError(e ErrorPos, r string) bool {
	return r == "Validation Error: "+vc.UF[string]("strings.Join", vc.Elems(e.paths), len(e.paths), "")+" "+e.hint
}

// for the specifications of other packages

func VcWf(s Schema) bool { return wf(s) }

func VcClean(v *SchemaValidator) bool { return reqValidate(v, nil, nil) }
