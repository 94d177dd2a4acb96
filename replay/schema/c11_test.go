package jlibschema

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"testing"
)

func vforms(ss []Schema) []map[string]interface{} {
	arr := []map[string]interface{}{}
	for _, c := range ss {
		arr = append(arr, vform(c))
	}
	return arr
}

// vform: what a schema serialises to
func vform(s Schema) map[string]interface{} {
	m := map[string]interface{}{}
	if s.GetName() != "" {
		m["name"] = s.GetName()
	}
	if s.GetDescription() != "" {
		m["description"] = s.GetDescription()
	}
	ip := func(k string, p *int) {
		if p != nil {
			m[k] = *p
		}
	}
	bp := func(k string, there bool, p *bool) {
		if there && p != nil {
			m[k] = *p
		}
	}
	sub := func(k string, c Schema) {
		if c != nil {
			m[k] = vform(c)
		}
	}
	switch t := s.(type) {
	case *AnySchema:
		m["type"] = "any"
	case *NullSchema:
		m["type"] = "null"
	case *BoolSchema:
		m["type"] = "bool"
	case *NumberSchema:
		m["type"] = "number"
		if t.Minimum != nil {
			m["minimum"] = *t.Minimum
		}
		if t.Maximum != nil {
			m["maximum"] = *t.Maximum
		}
		bp("exclusiveMinimum", t.Minimum != nil, t.ExclusiveMinimum)
		bp("exclusiveMaximum", t.Maximum != nil, t.ExclusiveMaximum)
	case *IntegerSchema:
		m["type"] = "integer"
		if t.Minimum != nil {
			m["minimum"] = *t.Minimum
		}
		if t.Maximum != nil {
			m["maximum"] = *t.Maximum
		}
		bp("exclusiveMinimum", t.Minimum != nil, t.ExclusiveMinimum)
		bp("exclusiveMaximum", t.Maximum != nil, t.ExclusiveMaximum)
	case *StringSchema:
		m["type"] = "string"
		ip("minLength", t.MinLength)
		ip("maxLength", t.MaxLength)
	case *AnyOfSchema:
		m["type"] = "anyOf"
		m["anyOf"] = vforms(t.Choices)
	case *AllOfSchema:
		m["type"] = "allOf"
		m["allOf"] = vforms(t.Choices)
	case *NotSchema:
		m["type"] = "not"
		sub("not", t.Child)
	case *ListSchema:
		m["type"] = "list"
		sub("items", t.Item)
		ip("minItems", t.MinItems)
		ip("maxItems", t.MaxItems)
	case *TupleSchema:
		m["type"] = "list"
		m["items"] = vforms(t.Children)
		sub("additionalItems", t.AdditionalSchema)
	case *MethodSchema:
		m["type"] = "method"
		m["params"] = vforms(t.Params)
		sub("returns", t.Returns)
		sub("additionalParams", t.AdditionalSchema)
	case *ObjectSchema:
		m["type"] = "object"
		props := map[string]interface{}{}
		for k, c := range t.Properties {
			props[k] = vform(c)
		}
		m["properties"] = props
		req := []string{}
		for k := range t.Requires {
			req = append(req, k)
		}
		sort.Strings(req)
		m["requires"] = req
		sub("additionalProperties", t.AdditionalProperties)
	}
	return m
}

// vsorted: the names a form lists as required, in order
func vsorted(v interface{}) interface{} {
	switch t := v.(type) {
	case []string:
		c := append([]string{}, t...)
		sort.Strings(c)
		return c
	case []map[string]interface{}:
		arr := []map[string]interface{}{}
		for _, x := range t {
			arr = append(arr, vsorted(x).(map[string]interface{}))
		}
		return arr
	case map[string]interface{}:
		if t == nil {
			return t
		}
		m := map[string]interface{}{}
		for k, x := range t {
			m[k] = vsorted(x)
		}
		return m
	}
	return v
}

func TestReplayC11Map(t *testing.T) {
	vrun(t, 2000000, func(r *rand.Rand) string {
		s := vschema(r, r.Intn(3))
		before := vdump(s)
		m := s.Map()
		if after := vdump(s); after != before {
			return fmt.Sprintf("serialising the schema %s turned it into %s", before, after)
		}
		if want := vform(s); !reflect.DeepEqual(vsorted(m), vsorted(want)) {
			return fmt.Sprintf("the schema %s serialises to %s, not %s", before, vshow(m), vshow(want))
		}
		m["type"] = "x"
		if again := s.Map(); !reflect.DeepEqual(vsorted(again), vsorted(vform(s))) {
			return fmt.Sprintf("the schema %s serialises to %s once an earlier form was changed", before, vshow(again))
		}
		return ""
	})
}
