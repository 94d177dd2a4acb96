package jlibschema

import "github.com/superisaac/jlib/internal/vc"

// ---- when two schemas say the same

func sameMixin(a, b SchemaMixin) bool { return a.name == b.name && a.description == b.description }

func sameFloat(a, b *float64) bool {
	return (a == nil) == (b == nil) && (a == nil || b == nil || *a == *b)
}
func sameInt64(a, b *int64) bool {
	return (a == nil) == (b == nil) && (a == nil || b == nil || *a == *b)
}
func sameInt(a, b *int) bool {
	return (a == nil) == (b == nil) && (a == nil || b == nil || *a == *b)
}
func sameFlag(a, b *bool) bool {
	return (a == nil) == (b == nil) && (a == nil || b == nil || *a == *b)
}

func sameOrNil(a, b Schema) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return same(a, b)
}

func sameAll(a, b []Schema) bool {
	return (a == nil) == (b == nil) && len(a) == len(b) && vc.Forall(0, len(a), func(i int) bool { return same(a[i], b[i]) })
}

// same keys: as many, and each of the first one's is the other's
func sameNamed(a, b map[string]Schema) bool {
	return (a == nil) == (b == nil) && len(a) == len(b) &&
		vc.ForallKey(a, func(k string, c Schema) bool { return vc.Has(b, k) && same(c, b[k]) })
}

func sameNames(a, b map[string]bool) bool {
	return (a == nil) == (b == nil) && len(a) == len(b) &&
		vc.ForallKey(a, func(k string, v bool) bool { return vc.Has(b, k) && b[k] == v })
}

//vc:rec
func same(a, b Schema) bool {
	switch t := a.(type) {
	case *AnySchema:
		u, ok := b.(*AnySchema)
		return ok && u != nil && sameMixin(t.SchemaMixin, u.SchemaMixin)
	case *NullSchema:
		u, ok := b.(*NullSchema)
		return ok && u != nil && sameMixin(t.SchemaMixin, u.SchemaMixin)
	case *BoolSchema:
		u, ok := b.(*BoolSchema)
		return ok && u != nil && sameMixin(t.SchemaMixin, u.SchemaMixin)
	case *NumberSchema:
		u, ok := b.(*NumberSchema)
		return ok && u != nil && sameMixin(t.SchemaMixin, u.SchemaMixin) && sameFloat(t.Minimum, u.Minimum) && sameFloat(t.Maximum, u.Maximum) &&
			sameFlag(t.ExclusiveMinimum, u.ExclusiveMinimum) && sameFlag(t.ExclusiveMaximum, u.ExclusiveMaximum)
	case *IntegerSchema:
		u, ok := b.(*IntegerSchema)
		return ok && u != nil && sameMixin(t.SchemaMixin, u.SchemaMixin) && sameInt64(t.Minimum, u.Minimum) && sameInt64(t.Maximum, u.Maximum) &&
			sameFlag(t.ExclusiveMinimum, u.ExclusiveMinimum) && sameFlag(t.ExclusiveMaximum, u.ExclusiveMaximum)
	case *StringSchema:
		u, ok := b.(*StringSchema)
		return ok && u != nil && sameMixin(t.SchemaMixin, u.SchemaMixin) && sameInt(t.MinLength, u.MinLength) && sameInt(t.MaxLength, u.MaxLength)
	case *AnyOfSchema:
		u, ok := b.(*AnyOfSchema)
		return ok && u != nil && sameMixin(t.SchemaMixin, u.SchemaMixin) && sameAll(t.Choices, u.Choices)
	case *AllOfSchema:
		u, ok := b.(*AllOfSchema)
		return ok && u != nil && sameMixin(t.SchemaMixin, u.SchemaMixin) && sameAll(t.Choices, u.Choices)
	case *NotSchema:
		u, ok := b.(*NotSchema)
		return ok && u != nil && sameMixin(t.SchemaMixin, u.SchemaMixin) && sameOrNil(t.Child, u.Child)
	case *ListSchema:
		u, ok := b.(*ListSchema)
		return ok && u != nil && sameMixin(t.SchemaMixin, u.SchemaMixin) && sameInt(t.MinItems, u.MinItems) && sameInt(t.MaxItems, u.MaxItems) &&
			sameOrNil(t.Item, u.Item)
	case *TupleSchema:
		u, ok := b.(*TupleSchema)
		return ok && u != nil && sameMixin(t.SchemaMixin, u.SchemaMixin) && sameAll(t.Children, u.Children) && sameOrNil(t.AdditionalSchema, u.AdditionalSchema)
	case *MethodSchema:
		u, ok := b.(*MethodSchema)
		return ok && u != nil && sameMixin(t.SchemaMixin, u.SchemaMixin) && sameAll(t.Params, u.Params) && sameOrNil(t.Returns, u.Returns) &&
			sameOrNil(t.AdditionalSchema, u.AdditionalSchema)
	case *ObjectSchema:
		u, ok := b.(*ObjectSchema)
		return ok && u != nil && sameMixin(t.SchemaMixin, u.SchemaMixin) && sameNamed(t.Properties, u.Properties) && sameNames(t.Requires, u.Requires) &&
			sameOrNil(t.AdditionalProperties, u.AdditionalProperties)
	}
	return false
}

//vc:requires jlibschema.Schema.Equal
func reqEqual(s Schema, o Schema) bool { return wf(s) && wfOrNil(o) }

//vc:ensures jlibschema.Schema.Equal name=equal-iff-same props=C12
func ensEqual(s Schema, o Schema, r bool) bool { return r == same(s, o) }

//vc:requires jlibschema.SubSchemaEqual
func reqSubEqual(a, b Schema) bool { return wfOrNil(a) && wfOrNil(b) }

//vc:ensures jlibschema.SubSchemaEqual name=equal-iff-same props=C12
func ensSubEqual(a, b Schema, r bool) bool { return r == sameOrNil(a, b) }

//vc:requires jlibschema.SchemaListEqual
func reqListEqual(a, b []Schema) bool { return wfAll(a) && wfAll(b) && !wf(nil) }

//vc:invariant jlibschema.SchemaListEqual
func invListEqual(k int, a, b []Schema) bool {
	return vc.Forall(0, k, func(i int) bool { return same(a[i], b[i]) })
}

//vc:invariant jlibschema.SchemaListEqual
func invListFlag(k int, a, b []Schema, eq bool) bool {
	return eq == vc.Forall(0, k, func(i int) bool { return same(a[i], b[i]) })
}

//vc:ensures jlibschema.SchemaListEqual name=equal-iff-same props=C12
func ensListEqual(a, b []Schema, r bool) bool { return r == sameAll(a, b) }

//vc:invariant jlibschema.SchemaListEqual
func invListFlagNext(k int, a, b []Schema, eq bool) bool {
	return eq == vc.Forall(0, k+1, func(i int) bool { return same(a[i], b[i]) })
}

//vc:invariant jlibschema.SchemaListEqual
func invListBound(k int, a, b []Schema) bool { return k < len(a) }

func wfNamed(m map[string]Schema) bool {
	return vc.ForallKey(m, func(k string, c Schema) bool { return wf(c) })
}

//vc:requires jlibschema.SchemaMapEqual
func reqMapEqual(a, b map[string]Schema) bool { return wfNamed(a) && wfNamed(b) && !wf(nil) }

//vc:invariant jlibschema.SchemaMapEqual
func invMapEqual(k int, a, b map[string]Schema) bool {
	return vc.ForallKey(a, func(p string, c Schema) bool { return vc.Imp(vc.Seen(p), vc.Has(b, p) && same(c, b[p])) })
}

//vc:invariant jlibschema.SchemaMapEqual
func invMapFlag(k int, a, b map[string]Schema, eq bool) bool {
	return eq == vc.ForallKey(a, func(p string, c Schema) bool { return vc.Imp(vc.Seen(p), vc.Has(b, p) && same(c, b[p])) })
}

//vc:invariant jlibschema.SchemaMapEqual
func invMapFlagLen(k int, a, b map[string]Schema, eq bool) bool {
	return eq == (len(a) == len(b) && vc.ForallKey(a, func(p string, c Schema) bool { return vc.Imp(vc.Seen(p), vc.Has(b, p) && same(c, b[p])) }))
}

//vc:ensures jlibschema.SchemaMapEqual name=equal-iff-same props=C12
func ensMapEqual(a, b map[string]Schema, r bool) bool { return r == sameNamed(a, b) }

//vc:invariant jlibschema.SchemaMapValueEqual
func invNamesEqual(k int, a, b map[string]bool) bool {
	return vc.ForallKey(a, func(p string, v bool) bool { return vc.Imp(vc.Seen(p), vc.Has(b, p) && b[p] == v) })
}

//vc:invariant jlibschema.SchemaMapValueEqual
func invNamesFlag(k int, a, b map[string]bool, eq bool) bool {
	return eq == vc.ForallKey(a, func(p string, v bool) bool { return vc.Imp(vc.Seen(p), vc.Has(b, p) && b[p] == v) })
}

//vc:invariant jlibschema.SchemaMapValueEqual
func invNamesFlagLen(k int, a, b map[string]bool, eq bool) bool {
	return eq == (len(a) == len(b) && vc.ForallKey(a, func(p string, v bool) bool { return vc.Imp(vc.Seen(p), vc.Has(b, p) && b[p] == v) }))
}

//vc:ensures jlibschema.SchemaMapValueEqual name=equal-iff-same props=C12
func ensNamesEqual(a, b map[string]bool, r bool) bool { return r == sameNames(a, b) }
