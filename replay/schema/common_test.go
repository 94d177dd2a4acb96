package jlibschema

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
)

// vrun drives one search: f is called until it reports a failing input, the
// budget is spent or n rounds are done.
func vrun(t *testing.T, n int, f func(r *rand.Rand) string) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_S"))
	if err != nil {
		secs = 20
	}
	end := time.Now().Add(time.Duration(secs) * time.Second / 3)
	for i := 0; i < n && time.Now().Before(end); i++ {
		r := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		msg := func() (msg string) {
			defer func() {
				if p := recover(); p != nil {
					msg = fmt.Sprintf("unexpected panic: %v", p)
				}
			}()
			return f(r)
		}()
		if msg != "" {
			fmt.Printf("FAILING-INPUT %s (round %d): %s\n", t.Name(), i, msg)
			t.FailNow()
		}
	}
}

func vshow(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

var vnames = []string{"", "a", "b", "cc", ".x", "[0]", "params", "result", "é"}

func vname(r *rand.Rand) string { return vnames[r.Intn(len(vnames))] }

// a value the exact-number decoder or a program may hand over
func vvalue(r *rand.Rand, depth int) interface{} {
	k := r.Intn(11)
	if depth <= 0 && k >= 8 {
		k = r.Intn(8)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2:
		return json.Number(strconv.Itoa(r.Intn(9) - 4))
	case 3:
		return json.Number([]string{"1.5", "-0", "1e2", "12345678901234567890", "-2.5", "0.0"}[r.Intn(6)])
	case 4:
		return r.Intn(9) - 4
	case 5:
		return []float64{0, -1, 1.5, 2, 3, 1e9}[r.Intn(6)]
	case 6, 7:
		return strings.Repeat("é", r.Intn(2)) + strings.Repeat("x", r.Intn(4))
	case 8, 9:
		arr := []interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			arr = append(arr, vvalue(r, depth-1))
		}
		return arr
	}
	m := map[string]interface{}{}
	for i := r.Intn(4); i > 0; i-- {
		m[vname(r)] = vvalue(r, depth-1)
	}
	return m
}

func vintp(r *rand.Rand, lo, n int) *int {
	if r.Intn(2) == 0 {
		return nil
	}
	v := lo + r.Intn(n)
	return &v
}

func vboolp(r *rand.Rand) *bool {
	switch r.Intn(3) {
	case 0:
		return nil
	}
	b := r.Intn(2) == 0
	return &b
}

func vschemas(r *rand.Rand, depth int) []Schema {
	arr := []Schema{}
	for i := r.Intn(4); i > 0; i-- {
		arr = append(arr, vschema(r, depth))
	}
	return arr
}

func vschemaOrNil(r *rand.Rand, depth int) Schema {
	if r.Intn(2) == 0 {
		return nil
	}
	return vschema(r, depth)
}

// a well-formed schema
func vschema(r *rand.Rand, depth int) (s Schema) {
	defer func() {
		if r.Intn(4) == 0 {
			s.SetName(vname(r))
		}
		if r.Intn(4) == 0 {
			s.SetDescription(vname(r))
		}
	}()
	k := r.Intn(14)
	if depth <= 0 {
		k = r.Intn(6)
	}
	switch k {
	case 0:
		return &AnySchema{}
	case 1:
		return &NullSchema{}
	case 2:
		return &BoolSchema{}
	case 3:
		n := &NumberSchema{ExclusiveMinimum: vboolp(r), ExclusiveMaximum: vboolp(r)}
		if p := vintp(r, -3, 4); p != nil {
			f := float64(*p)
			n.Minimum = &f
		}
		if p := vintp(r, 0, 4); p != nil {
			f := float64(*p)
			n.Maximum = &f
		}
		return n
	case 4:
		n := &IntegerSchema{ExclusiveMinimum: vboolp(r), ExclusiveMaximum: vboolp(r)}
		if p := vintp(r, -3, 4); p != nil {
			f := int64(*p)
			n.Minimum = &f
		}
		if p := vintp(r, 0, 4); p != nil {
			f := int64(*p)
			n.Maximum = &f
		}
		return n
	case 5:
		return &StringSchema{MinLength: vintp(r, 0, 3), MaxLength: vintp(r, 1, 4)}
	case 6:
		return &AnyOfSchema{Choices: vschemas(r, depth-1)}
	case 7:
		return &AllOfSchema{Choices: vschemas(r, depth-1)}
	case 8:
		return &NotSchema{Child: vschema(r, depth-1)}
	case 9:
		return &ListSchema{Item: vschema(r, depth-1), MinItems: vintp(r, 0, 3), MaxItems: vintp(r, 1, 4)}
	case 10:
		return &TupleSchema{Children: vschemas(r, depth-1), AdditionalSchema: vschemaOrNil(r, depth-1)}
	case 11:
		return &MethodSchema{Params: vschemas(r, depth-1), Returns: vschemaOrNil(r, depth-1), AdditionalSchema: vschemaOrNil(r, depth-1)}
	}
	o := NewObjectSchema()
	for i := r.Intn(4); i > 0; i-- {
		n := vname(r)
		o.Properties[n] = vschema(r, depth-1)
		if r.Intn(2) == 0 {
			o.Requires[n] = true
		}
	}
	o.AdditionalProperties = vschemaOrNil(r, depth-1)
	return o
}

func vkeys(m map[string]Schema) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// vdump: everything a schema consists of
func vdump(s Schema) string {
	if s == nil {
		return "-"
	}
	ip := func(p *int) string {
		if p == nil {
			return "-"
		}
		return strconv.Itoa(*p)
	}
	bp := func(p *bool) string {
		if p == nil {
			return "-"
		}
		return strconv.FormatBool(*p)
	}
	list := func(ss []Schema) string {
		parts := []string{}
		for _, c := range ss {
			parts = append(parts, vdump(c))
		}
		return "[" + strings.Join(parts, ",") + "]"
	}
	mix := fmt.Sprintf("%q/%q", s.GetName(), s.GetDescription())
	switch t := s.(type) {
	case *AnySchema:
		return "any" + mix
	case *NullSchema:
		return "null" + mix
	case *BoolSchema:
		return "bool" + mix
	case *NumberSchema:
		fp := func(p *float64) string {
			if p == nil {
				return "-"
			}
			return strconv.FormatFloat(*p, 'g', -1, 64)
		}
		return "number" + mix + "(" + fp(t.Minimum) + bp(t.ExclusiveMinimum) + " " + fp(t.Maximum) + bp(t.ExclusiveMaximum) + ")"
	case *IntegerSchema:
		fp := func(p *int64) string {
			if p == nil {
				return "-"
			}
			return strconv.FormatInt(*p, 10)
		}
		return "integer" + mix + "(" + fp(t.Minimum) + bp(t.ExclusiveMinimum) + " " + fp(t.Maximum) + bp(t.ExclusiveMaximum) + ")"
	case *StringSchema:
		return "string" + mix + "(" + ip(t.MinLength) + " " + ip(t.MaxLength) + ")"
	case *AnyOfSchema:
		return "anyOf" + mix + list(t.Choices)
	case *AllOfSchema:
		return "allOf" + mix + list(t.Choices)
	case *NotSchema:
		return "not" + mix + "(" + vdump(t.Child) + ")"
	case *ListSchema:
		return "list" + mix + "(" + vdump(t.Item) + " " + ip(t.MinItems) + " " + ip(t.MaxItems) + ")"
	case *TupleSchema:
		return "tuple" + mix + list(t.Children) + "+" + vdump(t.AdditionalSchema)
	case *MethodSchema:
		return "method" + mix + list(t.Params) + "+" + vdump(t.AdditionalSchema) + "->" + vdump(t.Returns)
	case *ObjectSchema:
		parts := []string{}
		for _, k := range vkeys(t.Properties) {
			parts = append(parts, fmt.Sprintf("%q:%s", k, vdump(t.Properties[k])))
		}
		reqs := []string{}
		for k := range t.Requires {
			reqs = append(reqs, fmt.Sprintf("%q", k))
		}
		sort.Strings(reqs)
		return "object" + mix + "{" + strings.Join(parts, ",") + "}!" + strings.Join(reqs, ",") + "+" + vdump(t.AdditionalProperties)
	}
	return fmt.Sprintf("%T", s)
}

func visset(b *bool) bool { return b != nil && *b }

func vseq(ss []Schema, more Schema, items []interface{}) bool {
	if len(items) < len(ss) || more == nil && len(items) > len(ss) {
		return false
	}
	for i, item := range items {
		s := more
		if i < len(ss) {
			s = ss[i]
		}
		if !vconforms(s, item) {
			return false
		}
	}
	return true
}

// vconforms: the meaning of a schema
func vconforms(s Schema, v interface{}) bool {
	switch t := s.(type) {
	case *AnySchema:
		return true
	case *NullSchema:
		return v == nil
	case *BoolSchema:
		_, ok := v.(bool)
		return ok
	case *NumberSchema:
		var f float64
		switch n := v.(type) {
		case json.Number:
			f, _ = n.Float64()
		case int:
			f = float64(n)
		case float64:
			f = n
		default:
			return false
		}
		return !(t.Maximum != nil && (f > *t.Maximum || f == *t.Maximum && visset(t.ExclusiveMaximum)) ||
			t.Minimum != nil && (f < *t.Minimum || f == *t.Minimum && visset(t.ExclusiveMinimum)))
	case *IntegerSchema:
		var f int64
		switch n := v.(type) {
		case json.Number:
			var err error
			if f, err = strconv.ParseInt(string(n), 10, 64); err != nil {
				return false
			}
		case int:
			f = int64(n)
		default:
			return false
		}
		return !(t.Maximum != nil && (f > *t.Maximum || f == *t.Maximum && visset(t.ExclusiveMaximum)) ||
			t.Minimum != nil && (f < *t.Minimum || f == *t.Minimum && visset(t.ExclusiveMinimum)))
	case *StringSchema:
		x, ok := v.(string)
		return ok && (t.MinLength == nil || len(x) >= *t.MinLength) && (t.MaxLength == nil || len(x) <= *t.MaxLength)
	case *AnyOfSchema:
		for _, c := range t.Choices {
			if vconforms(c, v) {
				return true
			}
		}
		return false
	case *AllOfSchema:
		for _, c := range t.Choices {
			if !vconforms(c, v) {
				return false
			}
		}
		return true
	case *NotSchema:
		return !vconforms(t.Child, v)
	case *ListSchema:
		items, ok := v.([]interface{})
		if !ok || t.MinItems != nil && len(items) < *t.MinItems || t.MaxItems != nil && len(items) > *t.MaxItems {
			return false
		}
		for _, item := range items {
			if !vconforms(t.Item, item) {
				return false
			}
		}
		return true
	case *TupleSchema:
		items, ok := v.([]interface{})
		return ok && vseq(t.Children, t.AdditionalSchema, items)
	case *MethodSchema:
		obj, ok := v.(map[string]interface{})
		if !ok {
			return false
		}
		if params, ok := obj["params"].([]interface{}); ok {
			return vseq(t.Params, t.AdditionalSchema, params)
		}
		result, ok := obj["result"]
		return ok && (t.Returns == nil || vconforms(t.Returns, result))
	case *ObjectSchema:
		obj, ok := v.(map[string]interface{})
		if !ok {
			return false
		}
		for p, c := range t.Properties {
			if x, ok := obj[p]; ok && !vconforms(c, x) || !ok && t.Requires[p] {
				return false
			}
		}
		for p, x := range obj {
			if _, declared := t.Properties[p]; !declared && t.AdditionalProperties != nil && !vconforms(t.AdditionalProperties, x) {
				return false
			}
		}
		return true
	}
	return false
}

func vseqFails(ss []Schema, more Schema, items []interface{}, path []string) bool {
	if len(path) == 0 {
		return len(items) < len(ss) || more == nil && len(items) > len(ss)
	}
	if len(items) < len(ss) {
		return false
	}
	for i, item := range items {
		s := more
		if i < len(ss) {
			s = ss[i]
		}
		if s == nil {
			return false
		}
		if !vconforms(s, item) {
			// the first failing position
			return path[0] == fmt.Sprintf("[%d]", i) && vfails(s, item, path[1:])
		}
	}
	return false
}

// vfails: path leads from v to a value that violates the schema placed there
func vfails(s Schema, v interface{}, path []string) bool {
	switch t := s.(type) {
	case *AllOfSchema:
		for _, c := range t.Choices {
			if !vconforms(c, v) {
				return vfails(c, v, path)
			}
		}
		return false
	case *ListSchema:
		items, ok := v.([]interface{})
		if !ok || t.MinItems != nil && len(items) < *t.MinItems || t.MaxItems != nil && len(items) > *t.MaxItems {
			return len(path) == 0
		}
		for i, item := range items {
			if !vconforms(t.Item, item) {
				return len(path) > 0 && path[0] == fmt.Sprintf("[%d]", i) && vfails(t.Item, item, path[1:])
			}
		}
		return false
	case *TupleSchema:
		items, ok := v.([]interface{})
		if !ok {
			return len(path) == 0
		}
		return vseqFails(t.Children, t.AdditionalSchema, items, path)
	case *MethodSchema:
		obj, ok := v.(map[string]interface{})
		if !ok {
			return len(path) == 0
		}
		if params, ok := obj["params"].([]interface{}); ok {
			return len(path) > 0 && path[0] == ".params" && vseqFails(t.Params, t.AdditionalSchema, params, path[1:])
		}
		result, ok := obj["result"]
		if !ok {
			return len(path) == 0
		}
		return len(path) > 0 && path[0] == ".result" && vfails(t.Returns, result, path[1:])
	case *ObjectSchema:
		obj, ok := v.(map[string]interface{})
		if !ok {
			return len(path) == 0
		}
		if len(path) == 0 || !strings.HasPrefix(path[0], ".") {
			return false
		}
		p := path[0][1:]
		x, present := obj[p]
		if c, declared := t.Properties[p]; declared {
			if present {
				return vfails(c, x, path[1:])
			}
			return t.Requires[p] && len(path) == 1
		}
		return present && t.AdditionalProperties != nil && vfails(t.AdditionalProperties, x, path[1:])
	}
	return len(path) == 0 && !vconforms(s, v)
}

// vdecode: the value of a JSON text, numbers exact
func vdecode(text string) interface{} {
	dec := json.NewDecoder(strings.NewReader(text))
	dec.UseNumber()
	var v interface{}
	if err := dec.Decode(&v); err != nil {
		panic(err)
	}
	return v
}

// vfitting: a value shaped like what the schema describes, sometimes off
func vfitting(r *rand.Rand, s Schema, depth int) interface{} {
	if s == nil || depth <= 0 || r.Intn(12) == 0 {
		return vvalue(r, 1)
	}
	seq := func(ss []Schema, more Schema) []interface{} {
		arr := []interface{}{}
		for _, c := range ss {
			arr = append(arr, vfitting(r, c, depth-1))
		}
		if more != nil || r.Intn(6) == 0 {
			for i := r.Intn(6); i > 0; i-- {
				arr = append(arr, vfitting(r, more, depth-1))
			}
		} else if len(arr) > 0 && r.Intn(8) == 0 {
			arr = arr[1:]
		}
		return arr
	}
	switch t := s.(type) {
	case *NullSchema:
		return nil
	case *BoolSchema:
		return r.Intn(2) == 0
	case *NumberSchema, *IntegerSchema:
		if r.Intn(2) == 0 {
			return r.Intn(9) - 4
		}
		return json.Number(strconv.Itoa(r.Intn(9) - 4))
	case *StringSchema:
		return strings.Repeat("x", r.Intn(5))
	case *AnyOfSchema:
		if len(t.Choices) > 0 {
			return vfitting(r, t.Choices[r.Intn(len(t.Choices))], depth-1)
		}
	case *AllOfSchema:
		if len(t.Choices) > 0 {
			return vfitting(r, t.Choices[r.Intn(len(t.Choices))], depth-1)
		}
	case *NotSchema:
		return vfitting(r, t.Child, depth-1)
	case *ListSchema:
		arr := []interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			arr = append(arr, vfitting(r, t.Item, depth-1))
		}
		return arr
	case *TupleSchema:
		return seq(t.Children, t.AdditionalSchema)
	case *MethodSchema:
		if r.Intn(3) == 0 {
			return map[string]interface{}{"result": vfitting(r, t.Returns, depth-1)}
		}
		return map[string]interface{}{"params": seq(t.Params, t.AdditionalSchema)}
	case *ObjectSchema:
		m := map[string]interface{}{}
		for _, k := range vkeys(t.Properties) {
			if r.Intn(6) != 0 {
				m[k] = vfitting(r, t.Properties[k], depth-1)
			}
		}
		if r.Intn(2) == 0 {
			m[vname(r)] = vfitting(r, t.AdditionalProperties, depth-1)
		}
		return m
	}
	return vvalue(r, 1)
}
