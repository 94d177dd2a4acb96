package jlibschema

import (
	"fmt"
	"math/rand"
	"reflect"
	"testing"
)

func vnodes(s Schema) []Schema {
	if s == nil {
		return nil
	}
	out := []Schema{s}
	more := func(ss ...Schema) {
		for _, c := range ss {
			out = append(out, vnodes(c)...)
		}
	}
	switch t := s.(type) {
	case *AnyOfSchema:
		more(t.Choices...)
	case *AllOfSchema:
		more(t.Choices...)
	case *NotSchema:
		more(t.Child)
	case *ListSchema:
		more(t.Item)
	case *TupleSchema:
		more(t.Children...)
		more(t.AdditionalSchema)
	case *MethodSchema:
		more(t.Params...)
		more(t.Returns, t.AdditionalSchema)
	case *ObjectSchema:
		for _, k := range vkeys(t.Properties) {
			more(t.Properties[k])
		}
		more(t.AdditionalProperties)
	}
	return out
}

func vlist(r *rand.Rand, l []Schema) []Schema {
	c := append([]Schema{}, l...)
	switch r.Intn(4) {
	case 0:
		return append(c, vschema(r, 0))
	case 1:
		if len(c) > 0 {
			return c[:len(c)-1]
		}
	case 2:
		r.Shuffle(len(c), func(i, j int) { c[i], c[j] = c[j], c[i] })
	case 3:
		if len(c) > 0 {
			c[r.Intn(len(c))] = vschema(r, 0)
		}
	}
	return c
}

// vchange makes one change to a schema, which may leave it as it is
func vchange(r *rand.Rand, s Schema) {
	switch r.Intn(8) {
	case 0:
		s.SetName(vname(r))
		return
	case 1:
		s.SetDescription(vname(r))
		return
	}
	f := func(p *int) *float64 {
		if p == nil {
			return nil
		}
		v := float64(*p)
		return &v
	}
	i := func(p *int) *int64 {
		if p == nil {
			return nil
		}
		v := int64(*p)
		return &v
	}
	switch t := s.(type) {
	case *NumberSchema:
		switch r.Intn(4) {
		case 0:
			t.Minimum = f(vintp(r, -3, 4))
		case 1:
			t.Maximum = f(vintp(r, 0, 4))
		case 2:
			t.ExclusiveMinimum = vboolp(r)
		case 3:
			t.ExclusiveMaximum = vboolp(r)
		}
	case *IntegerSchema:
		switch r.Intn(4) {
		case 0:
			t.Minimum = i(vintp(r, -3, 4))
		case 1:
			t.Maximum = i(vintp(r, 0, 4))
		case 2:
			t.ExclusiveMinimum = vboolp(r)
		case 3:
			t.ExclusiveMaximum = vboolp(r)
		}
	case *StringSchema:
		if r.Intn(2) == 0 {
			t.MinLength = vintp(r, 0, 3)
		} else {
			t.MaxLength = vintp(r, 1, 4)
		}
	case *AnyOfSchema:
		t.Choices = vlist(r, t.Choices)
	case *AllOfSchema:
		t.Choices = vlist(r, t.Choices)
	case *NotSchema:
		t.Child = vschema(r, 0)
	case *ListSchema:
		switch r.Intn(3) {
		case 0:
			t.MinItems = vintp(r, 0, 3)
		case 1:
			t.MaxItems = vintp(r, 1, 4)
		case 2:
			t.Item = vschema(r, 0)
		}
	case *TupleSchema:
		if r.Intn(2) == 0 {
			t.Children = vlist(r, t.Children)
		} else {
			t.AdditionalSchema = vschemaOrNil(r, 0)
		}
	case *MethodSchema:
		switch r.Intn(3) {
		case 0:
			t.Params = vlist(r, t.Params)
		case 1:
			t.Returns = vschemaOrNil(r, 0)
		case 2:
			t.AdditionalSchema = vschemaOrNil(r, 0)
		}
	case *ObjectSchema:
		ks := vkeys(t.Properties)
		switch k := r.Intn(5); {
		case k == 0 || len(ks) == 0:
			n := vname(r)
			t.Properties[n] = vschema(r, 0)
		case k == 1:
			t.AdditionalProperties = vschemaOrNil(r, 0)
		case k == 2:
			n := ks[r.Intn(len(ks))]
			if t.Requires[n] {
				delete(t.Requires, n)
			} else {
				t.Requires[n] = true
			}
		case k == 3:
			// another name for a property
			o, n := ks[r.Intn(len(ks))], vname(r)
			s := t.Properties[o]
			delete(t.Properties, o)
			t.Properties[n] = s
			if t.Requires[o] {
				delete(t.Requires, o)
				t.Requires[n] = true
			}
		case k == 4:
			o := ks[r.Intn(len(ks))]
			delete(t.Properties, o)
			delete(t.Requires, o)
		}
	}
}

func TestReplayC12(t *testing.T) {
	vrun(t, 200000, func(r *rand.Rand) string {
		seed, depth := r.Int63(), r.Intn(3)
		a := vschema(rand.New(rand.NewSource(seed)), depth)
		b := vschema(rand.New(rand.NewSource(seed)), depth)
		if r.Intn(3) > 0 {
			ns := vnodes(b)
			vchange(r, ns[r.Intn(len(ns))])
		}
		if r.Intn(10) == 0 {
			b = vschema(r, depth)
		}
		want := reflect.DeepEqual(a, b)
		if got := a.Equal(b); got != want {
			return fmt.Sprintf("%s Equal %s is %v", vdump(a), vdump(b), got)
		}
		if got := b.Equal(a); got != want {
			return fmt.Sprintf("%s Equal %s is %v", vdump(b), vdump(a), got)
		}
		if got := SubSchemaEqual(a, nil) || SubSchemaEqual(nil, a); got {
			return vdump(a) + " equals no schema"
		}
		return ""
	})
}
