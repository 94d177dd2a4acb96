package jlibschema

import "github.com/superisaac/jlib/internal/vc"

// ---- the serialised form

// formOf: the schema a map was made from, a label every map that Map returns
// gets; formAt and formHas: what the map held then
func formOf(m map[string]interface{}) Schema { return vc.UF[Schema]("form.of", vc.Ref(m)) }

func formIntact(m map[string]interface{}) bool {
	return vc.ForallStr(func(k string) bool {
		return vc.Has(m, k) == vc.UF[bool]("form.has", vc.Ref(m), k) &&
			vc.Imp(vc.Has(m, k), vc.Same(m[k], vc.UF[interface{}]("form.at", vc.Ref(m), k)))
	})
}

// isForm: v is the form of s, as Map returned it
func isForm(v interface{}, s Schema) bool {
	m, ok := v.(map[string]interface{})
	return ok && isFormMap(m, s)
}

func isFormMap(m map[string]interface{}, s Schema) bool {
	return m != nil && vc.Same(formOf(m), s) && formIntact(m)
}

func areForms(v interface{}, ss []Schema) bool {
	l, ok := v.([]map[string]interface{})
	return ok && len(l) == len(ss) && vc.Forall(0, len(ss), func(i int) bool { return isFormMap(l[i], ss[i]) })
}

func areNamedForms(v interface{}, ss map[string]Schema) bool {
	m, ok := v.(map[string]interface{})
	return ok && m != nil && vc.ForallKey(ss, func(k string, c Schema) bool { return vc.Has(m, k) && isForm(m[k], c) }) &&
		vc.ForallKey(m, func(k string, v interface{}) bool { return vc.Has(ss, k) })
}

func areNames(v interface{}, names map[string]bool) bool {
	l, ok := v.([]string)
	return ok && vc.Forall(0, len(l), func(i int) bool { return vc.Has(names, l[i]) }) &&
		vc.ForallKey(names, func(k string, b bool) bool {
			return vc.Exists(0, len(l), func(i int) bool { return l[i] == k })
		})
}

// given: the key holds the value if it is there to be held, and is absent otherwise
func given(r map[string]interface{}, k string, there bool, v interface{}) bool {
	return vc.Has(r, k) == there && vc.Imp(there, vc.Same(r[k], v))
}

func givenForm(r map[string]interface{}, k string, s Schema) bool {
	return vc.Has(r, k) == (s != nil) && vc.Imp(s != nil, isForm(r[k], s))
}

func givenInt(r map[string]interface{}, k string, p *int) bool {
	if p == nil {
		return !vc.Has(r, k)
	}
	return given(r, k, true, *p)
}

func givenBound(r map[string]interface{}, k, ex string, there bool, v interface{}, b *bool) bool {
	if b == nil || !there {
		return given(r, k, there, v) && !vc.Has(r, ex)
	}
	return given(r, k, there, v) && given(r, ex, true, *b)
}

func header(r map[string]interface{}, typ string, m SchemaMixin) bool {
	return given(r, "type", true, typ) && given(r, "name", m.name != "", m.name) && given(r, "description", m.description != "", m.description)
}

func only(r map[string]interface{}, a, b, c, d string) bool {
	return vc.ForallKey(r, func(k string, v interface{}) bool {
		return k == "type" || k == "name" || k == "description" || k == a || k == b || k == c || k == d
	})
}

func carries(s Schema, r map[string]interface{}) bool {
	switch t := s.(type) {
	case *AnySchema:
		return header(r, "any", t.SchemaMixin) && only(r, "type", "type", "type", "type")
	case *NullSchema:
		return header(r, "null", t.SchemaMixin) && only(r, "type", "type", "type", "type")
	case *BoolSchema:
		return header(r, "bool", t.SchemaMixin) && only(r, "type", "type", "type", "type")
	case *NumberSchema:
		var lo, hi interface{}
		if t.Minimum != nil {
			lo = *t.Minimum
		}
		if t.Maximum != nil {
			hi = *t.Maximum
		}
		return header(r, "number", t.SchemaMixin) && only(r, "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum") &&
			givenBound(r, "minimum", "exclusiveMinimum", t.Minimum != nil, lo, t.ExclusiveMinimum) &&
			givenBound(r, "maximum", "exclusiveMaximum", t.Maximum != nil, hi, t.ExclusiveMaximum)
	case *IntegerSchema:
		var lo, hi interface{}
		if t.Minimum != nil {
			lo = *t.Minimum
		}
		if t.Maximum != nil {
			hi = *t.Maximum
		}
		return header(r, "integer", t.SchemaMixin) && only(r, "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum") &&
			givenBound(r, "minimum", "exclusiveMinimum", t.Minimum != nil, lo, t.ExclusiveMinimum) &&
			givenBound(r, "maximum", "exclusiveMaximum", t.Maximum != nil, hi, t.ExclusiveMaximum)
	case *StringSchema:
		return header(r, "string", t.SchemaMixin) && only(r, "minLength", "maxLength", "type", "type") &&
			givenInt(r, "minLength", t.MinLength) && givenInt(r, "maxLength", t.MaxLength)
	case *AnyOfSchema:
		return header(r, "anyOf", t.SchemaMixin) && only(r, "anyOf", "type", "type", "type") && vc.Has(r, "anyOf") && areForms(r["anyOf"], t.Choices)
	case *AllOfSchema:
		return header(r, "allOf", t.SchemaMixin) && only(r, "allOf", "type", "type", "type") && vc.Has(r, "allOf") && areForms(r["allOf"], t.Choices)
	case *NotSchema:
		return header(r, "not", t.SchemaMixin) && only(r, "not", "type", "type", "type") && vc.Has(r, "not") && isForm(r["not"], t.Child)
	case *ListSchema:
		return header(r, "list", t.SchemaMixin) && only(r, "items", "minItems", "maxItems", "type") && vc.Has(r, "items") && isForm(r["items"], t.Item) &&
			givenInt(r, "minItems", t.MinItems) && givenInt(r, "maxItems", t.MaxItems)
	case *TupleSchema:
		return header(r, "list", t.SchemaMixin) && only(r, "items", "additionalItems", "type", "type") && vc.Has(r, "items") && areForms(r["items"], t.Children) &&
			givenForm(r, "additionalItems", t.AdditionalSchema)
	case *MethodSchema:
		return header(r, "method", t.SchemaMixin) && only(r, "params", "returns", "additionalParams", "type") && vc.Has(r, "params") && areForms(r["params"], t.Params) &&
			givenForm(r, "returns", t.Returns) && givenForm(r, "additionalParams", t.AdditionalSchema)
	case *ObjectSchema:
		return header(r, "object", t.SchemaMixin) && only(r, "properties", "requires", "additionalProperties", "type") &&
			vc.Has(r, "properties") && areNamedForms(r["properties"], t.Properties) &&
			vc.Has(r, "requires") && areNames(r["requires"], t.Requires) &&
			givenForm(r, "additionalProperties", t.AdditionalProperties)
	}
	return false
}

//vc:requires jlibschema.Schema.Map
func reqMap(s Schema) bool { return wf(s) && !wf(nil) }

//vc:ensures jlibschema.Schema.Map name=own-map fresh=0 props=C11
func ensMapOwn(s Schema, r map[string]interface{}) bool { return r != nil }

// what the labels of a map mean
//
//vc:ensures jlibschema.Schema.Map name=label label props=C11
func labelMap(s Schema, r map[string]interface{}) bool { return vc.Same(formOf(r), s) && formIntact(r) }

//vc:ensures jlibschema.Schema.Map name=carries-every-constraint local props=C11
func ensMap(s Schema, r map[string]interface{}) bool { return carries(s, r) }

//vc:invariant jlibschema.Schema.Map
func invMapLen(k int, s Schema, arr []map[string]interface{}) bool { return len(arr) == k && arr != nil }

//vc:invariant jlibschema.Schema.Map
func invMapApart(k int, s Schema, arr []map[string]interface{}, tp map[string]interface{}) bool {
	return vc.Forall(0, k, func(i int) bool { return vc.Ref(arr[i]) != vc.Ref(tp) })
}

//vc:invariant jlibschema.Schema.Map
func invMapAnyOf(k int, s Schema, arr []map[string]interface{}) bool {
	t, ok := s.(*AnyOfSchema)
	return ok && vc.Forall(0, k, func(i int) bool { return isFormMap(arr[i], t.Choices[i]) })
}

//vc:invariant jlibschema.Schema.Map
func invMapAllOf(k int, s Schema, arr []map[string]interface{}) bool {
	t, ok := s.(*AllOfSchema)
	return ok && vc.Forall(0, k, func(i int) bool { return isFormMap(arr[i], t.Choices[i]) })
}

//vc:invariant jlibschema.Schema.Map
func invMapTuple(k int, s Schema, arr []map[string]interface{}) bool {
	t, ok := s.(*TupleSchema)
	return ok && vc.Forall(0, k, func(i int) bool { return isFormMap(arr[i], t.Children[i]) })
}

//vc:invariant jlibschema.Schema.Map
func invMapMethod(k int, s Schema, arr []map[string]interface{}) bool {
	t, ok := s.(*MethodSchema)
	return ok && vc.Forall(0, k, func(i int) bool { return isFormMap(arr[i], t.Params[i]) })
}

//vc:invariant jlibschema.Schema.Map
func invMapProps(k int, s Schema, m map[string]interface{}) bool {
	t, ok := s.(*ObjectSchema)
	return ok && vc.ForallKey(t.Properties, func(p string, c Schema) bool {
		return vc.Imp(vc.Seen(p), vc.Has(m, p) && isForm(m[p], c))
	}) && vc.ForallKey(m, func(p string, v interface{}) bool { return vc.Seen(p) && vc.Has(t.Properties, p) })
}

//vc:invariant jlibschema.Schema.Map
func invMapPropsApart(k int, s Schema, m map[string]interface{}, tp map[string]interface{}) bool {
	return vc.ForallKey(m, func(p string, v interface{}) bool {
		c, ok := v.(map[string]interface{})
		return !ok || vc.Ref(c) != vc.Ref(m) && vc.Ref(c) != vc.Ref(tp)
	}) && vc.Ref(m) != vc.Ref(tp)
}

//vc:invariant jlibschema.Schema.Map
func invMapNamed(k int, s Schema, arr []string) bool {
	t, ok := s.(*ObjectSchema)
	return ok && vc.Forall(0, len(arr), func(i int) bool { return vc.Has(t.Requires, arr[i]) })
}

//vc:invariant jlibschema.Schema.Map
func invMapAllNamed(k int, s Schema, arr []string) bool {
	t, ok := s.(*ObjectSchema)
	return ok && vc.ForallKey(t.Requires, func(p string, b bool) bool {
		return vc.Imp(vc.Seen(p), vc.Exists(0, len(arr), func(i int) bool { return arr[i] == p }))
	})
}
