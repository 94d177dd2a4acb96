package jlibhttp

import (
	"context"
	"fmt"
	"math/rand"
	"net/http"
	"sort"
	"strings"
	"testing"

	"github.com/superisaac/jlib"
	jlibschema "github.com/superisaac/jlib/schema"
)

// TestReplayC15Registry registers and unregisters at random in a tree and
// compares what the tree says with the record
func TestReplayC15Registry(t *testing.T) {
	vrun(t, 100000, func(r *rand.Rand) string {
		root := &vnode{a: NewActor(), own: map[string]*vhandler{}}
		nodes := []*vnode{root}
		for i := r.Intn(4); i > 0; i-- {
			p := nodes[r.Intn(len(nodes))]
			c := &vnode{a: NewActor(), own: map[string]*vhandler{}}
			p.children = append(p.children, c)
			p.a.AddChild(c.a)
			nodes = append(nodes, c)
		}
		count := 0
		closes := map[string]int{}
		for step := 0; step < 12; step++ {
			n := nodes[r.Intn(len(nodes))]
			m := vpick(r, vmethods...)
			count++
			h := &vhandler{name: fmt.Sprintf("h%d", count)}
			h.value = h.name
			var setters []HandlerSetter
			if r.Intn(2) == 0 {
				h.schema = &jlibschema.MethodSchema{}
				setters = append(setters, WithSchema(h.schema))
			}
			ctx := context.WithValue(context.Background(), "k", count)
			refused := false
			kind := r.Intn(6)
			switch kind {
			case 0, 1, 2:
				func() {
					defer func() { refused = recover() != nil || refused }()
					switch kind {
					case 0:
						refused = n.a.OnRequest(m, h.run, setters...) != nil
					case 1:
						n.a.On(m, func(params []interface{}) (interface{}, error) { return h.run(nil, params) }, setters...)
					case 2:
						n.a.OnContext(m, func(c context.Context, params []interface{}) (interface{}, error) {
							if c != ctx && c.Value("k") == nil {
								return nil, fmt.Errorf("another context")
							}
							return h.run(nil, params)
						}, setters...)
					}
				}()
				if refused != (n.own[m] != nil) {
					return fmt.Sprintf("registering %q (registered before: %v) refused: %v", m, n.own[m] != nil, refused)
				}
				if !refused {
					n.own[m] = h
				}
			case 3:
				n.a.Off(m)
				delete(n.own, m)
			case 4:
				refused = n.a.OnMissing(func(req *RPCRequest) (interface{}, error) { return h.run(req, nil) }) != nil
				if refused != (n.missing != nil) {
					return fmt.Sprintf("second missing handler refused: %v", refused)
				}
				if !refused {
					n.missing = h
				}
			case 5:
				name := h.name
				refused = n.a.OnClose(func(req *http.Request, s RPCSession) { closes[name]++ }) != nil
				if refused != n.hasClose {
					return fmt.Sprintf("second close handler refused: %v", refused)
				}
				if !refused {
					n.hasClose = true
					closes[name] = 0
				}
			}
			if s := vregistry(nodes, ctx); s != "" {
				return s
			}
		}
		n := nodes[r.Intn(len(nodes))]
		if n == root {
			n.a.HandleClose(nil, nil)
			for name, k := range closes {
				if k != 1 {
					return fmt.Sprintf("close handler %s called %d times", name, k)
				}
			}
		}
		return ""
	})
}

func vregistry(nodes []*vnode, ctx context.Context) string {
	for _, n := range nodes {
		names := map[string]bool{}
		for _, d := range n.nodes() {
			for m := range d.own {
				names[m] = true
			}
		}
		for _, m := range vmethods {
			if n.a.Has(m) != names[m] {
				return fmt.Sprintf("Has(%q) = %v", m, n.a.Has(m))
			}
			_, h := n.server(m)
			s, ok := n.a.GetSchema(m)
			if h == nil && (ok || s != nil) || h != nil && (ok != (h.schema != nil) || s != h.schema) {
				return fmt.Sprintf("GetSchema(%q) = %v, %v", m, s, ok)
			}
			if h != nil {
				for _, d := range n.nodes() {
					d.a.ValidateSchema = false
				}
				f := vfeed(n.a, NewRPCRequest(ctx, jlib.NewRequestMessage(1, m, nil), TransportHTTP, nil))
				if f.panicked || f.err != nil || !strings.Contains(vshow(f.res.Interface()), `"`+h.name+`"`) {
					return fmt.Sprintf("calling %q gives %v, %v, %v, not %s", m, f.res, f.err, f.pv, h.name)
				}
			}
		}
		var got []string
		seen := map[string]bool{}
		for _, m := range n.a.MethodList() {
			if !seen[m] {
				got = append(got, m)
			}
			seen[m] = true
		}
		var want []string
		for m := range names {
			want = append(want, m)
		}
		sort.Strings(got)
		sort.Strings(want)
		if vshow(got) != vshow(want) {
			return fmt.Sprintf("MethodList() = %s, not %s", vshow(got), vshow(want))
		}
	}
	return ""
}
