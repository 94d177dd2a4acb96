package jlibschema

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
)

func TestReplayC09(t *testing.T) {
	vrun(t, 200000, func(r *rand.Rand) string {
		validator := NewSchemaValidator()
		type kept struct {
			e    *ErrorPos
			path string
		}
		var old []kept
		s := vschema(r, 1+r.Intn(5))
		for i := 2 + r.Intn(5); i > 0; i-- {
			if r.Intn(3) == 0 {
				s = vschema(r, r.Intn(5))
			}
			v := vfitting(r, s, 6)
			e := validator.Validate(s, v)
			if len(validator.paths) != 0 {
				return fmt.Sprintf("after validating %#v against %s the validator keeps the path %q", v, vdump(s), validator.paths)
			}
			if e != nil {
				if !vfails(s, v, e.paths) {
					return fmt.Sprintf("schema %s, value %#v: path %q does not lead to the violation", vdump(s), v, e.paths)
				}
				if e.Path() != strings.Join(e.paths, "") {
					return fmt.Sprintf("path elements %q shown as %q", e.paths, e.Path())
				}
				if e.Error() != "Validation Error: "+e.Path()+" "+e.hint {
					return fmt.Sprintf("error at %q shown as %q", e.paths, e.Error())
				}
			}
			for _, k := range old {
				if k.e.Path() != k.path {
					return fmt.Sprintf("the path %q of an earlier error became %q", k.path, k.e.Path())
				}
			}
			if e != nil {
				old = append(old, kept{e, e.Path()})
			}
		}
		return ""
	})
}
