package jlibschema

import (
	"fmt"
	"math/rand"
	"testing"
)

func TestReplayC08(t *testing.T) {
	vrun(t, 400000, func(r *rand.Rand) string {
		s := vschema(r, r.Intn(5))
		v := vfitting(r, s, 5)
		sd, vd := vdump(s), vshow(v)
		want := vconforms(s, v)
		e := NewSchemaValidator().Validate(s, v)
		if (e == nil) != want {
			return fmt.Sprintf("schema %s, value %#v: accepted=%v, conforms=%v", sd, v, e == nil, want)
		}
		if vdump(s) != sd {
			return fmt.Sprintf("schema %s was changed to %s by validating %#v", sd, vdump(s), v)
		}
		if vshow(v) != vd {
			return fmt.Sprintf("value %s was changed to %s by schema %s", vd, vshow(v), sd)
		}
		return ""
	})
}

func TestReplayC08Bytes(t *testing.T) {
	vrun(t, 50000, func(r *rand.Rand) string {
		s := vschema(r, r.Intn(5))
		v := vfitting(r, s, 5)
		text := vshow(v)
		e := NewSchemaValidator().ValidateBytes(s, []byte(text))
		if want := vconforms(s, vdecode(text)); (e == nil) != want {
			return fmt.Sprintf("schema %s, text %s: accepted=%v, conforms=%v", vdump(s), text, e == nil, want)
		}
		return ""
	})
}
