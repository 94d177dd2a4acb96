package jlibhttp

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"sync"
	"testing"
	"time"

	"github.com/superisaac/jlib"
)

// vpipe is a transport inside the test
type vpipe struct {
	mu        sync.Mutex
	connected bool
	refuse    bool // refuse to connect from now on
	dropAfter int  // connection lost after so many looks at Connected
	out       chan jlib.Message
	in        chan vread
}

type vread struct {
	m      jlib.Message
	readed bool
}

func (p *vpipe) Connect(ctx context.Context, u *url.URL, h http.Header) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.refuse {
		return errors.New("refused")
	}
	p.connected = true
	return nil
}
func (p *vpipe) Close() {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.connected {
		p.connected = false
		close(p.in)
	}
}
func (p *vpipe) Connected() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.connected
}
func (p *vpipe) ReadMessage() (jlib.Message, bool, error) {
	r, ok := <-p.in
	if !ok {
		return nil, false, TransportClosed
	}
	return r.m, r.readed, nil
}
func (p *vpipe) WriteMessage(m jlib.Message) error { p.out <- m; return nil }

func vstreaming() (*StreamingClient, *vpipe, *vgot) {
	c, p := &StreamingClient{}, &vpipe{out: make(chan jlib.Message, 1000), in: make(chan vread, 1000)}
	u, _ := url.Parse("ws://verif.invalid/")
	c.InitStreaming(u, p)
	s := &vgot{}
	c.OnMessage(func(m jlib.Message) { s.mu.Lock(); s.got = append(s.got, m); s.mu.Unlock() })
	return c, p, s
}

type vgot struct {
	mu  sync.Mutex
	got []jlib.Message
}

func (s *vgot) wait(n int) []jlib.Message {
	for i := 0; i < 200; i++ {
		s.mu.Lock()
		l := len(s.got)
		s.mu.Unlock()
		if l >= n {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	time.Sleep(5 * time.Millisecond)
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]jlib.Message{}, s.got...)
}

func vpendingLen(c *StreamingClient) int {
	n := 0
	c.pendingRequests.Range(func(k, v interface{}) bool { n++; return true })
	return n
}

// calls at the same time, with and without common ids, answered in any order
func TestReplayC21Calls(t *testing.T) {
	vrun(t, 60, func(r *rand.Rand) string {
		c, p, seen := vstreaming()
		defer p.Close()
		n := 1 + r.Intn(5)
		type res struct {
			i   int
			m   jlib.Message
			err error
		}
		ids := []interface{}{"a", "b", 1, "1", 7}
		var reqs []*jlib.RequestMessage
		done := make(chan res, n)
		for i := 0; i < n; i++ {
			q := jlib.NewRequestMessage(vid(r, ids), "echo", []interface{}{i})
			if r.Intn(2) == 0 {
				q.SetTraceId(fmt.Sprintf("t%d", i))
			}
			reqs = append(reqs, q)
		}
		if err := c.Connect(context.Background()); err != nil {
			return "connect: " + err.Error()
		}
		for i := range reqs {
			go func(i int) {
				m, err := c.Call(context.Background(), reqs[i])
				done <- res{i, m, err}
			}(i)
		}
		var sent []*jlib.RequestMessage
		keys := map[interface{}]bool{}
		for len(sent) < n {
			select {
			case m := <-p.out:
				q, ok := m.(*jlib.RequestMessage)
				if !ok {
					return "sent " + vshow(m)
				}
				if keys[q.Id] {
					return fmt.Sprintf("two outstanding calls were sent with the id %#v", q.Id)
				}
				keys[q.Id] = true
				i := q.Params[0].(int)
				if q.Method != "echo" || len(q.Params) != 1 || q.TraceId() != reqs[i].TraceId() {
					return "sent " + vshow(q) + " for " + vshow(reqs[i])
				}
				sent = append(sent, q)
			case <-time.After(3 * time.Second):
				return fmt.Sprintf("%d of %d calls were sent", len(sent), n)
			}
		}
		r.Shuffle(n, func(i, j int) { sent[i], sent[j] = sent[j], sent[i] })
		extra := 0
		for _, q := range sent {
			var a jlib.Message = jlib.NewResultMessage(q, q.Params[0])
			if r.Intn(3) == 0 {
				a = jlib.NewErrorMessage(q, &jlib.RPCError{Code: 100 + q.Params[0].(int), Message: "x"})
			}
			for k := r.Intn(3); k > 0; k-- {
				switch r.Intn(4) {
				case 0:
					p.in <- vread{jlib.NewNotifyMessage("note", nil), true}
				case 1:
					p.in <- vread{jlib.NewRequestMessage(q.Id, "ask", nil), true}
				case 2:
					p.in <- vread{vresult("nobody", 1), true}
				case 3:
					p.in <- vread{nil, false}
					continue
				}
				extra++
			}
			p.in <- vread{a, true}
			if r.Intn(4) == 0 {
				p.in <- vread{a, true}
				extra++
			}
		}
		for k := 0; k < n; k++ {
			select {
			case d := <-done:
				q := reqs[d.i]
				if d.err != nil || visnil(d.m) {
					return fmt.Sprintf("call %s: %v", vshow(q), d.err)
				}
				if d.m.MustId() != q.Id {
					return fmt.Sprintf("call %s got an answer with the id %#v", vshow(q), d.m.MustId())
				}
				if d.m.TraceId() != q.TraceId() {
					return fmt.Sprintf("call %s got the answer %s", vshow(q), vshow(d.m))
				}
				if e, ok := d.m.(*jlib.ErrorMessage); ok && e.Error.Code == 100+d.i {
					continue
				}
				if s, ok := d.m.(*jlib.ResultMessage); ok && s.Result == d.i {
					continue
				}
				return fmt.Sprintf("call %s got the answer %s", vshow(q), vshow(d.m))
			case <-time.After(3 * time.Second):
				return fmt.Sprintf("only %d of %d answered calls returned; requests %s", k, n, vshow(reqs))
			}
		}
		if got := seen.wait(extra); len(got) != extra {
			return fmt.Sprintf("the message handler got %d messages for %d requests, notifies and answers nobody waits for", len(got), extra)
		}
		if l := vpendingLen(c); l != 0 {
			return fmt.Sprintf("%d calls still pending after all were answered", l)
		}
		return ""
	})
}

// timeouts
func TestReplayC21Timeout(t *testing.T) {
	vrun(t, 40, func(r *rand.Rand) string {
		c, p, seen := vstreaming()
		defer p.Close()
		if err := c.Connect(context.Background()); err != nil {
			return "connect: " + err.Error()
		}
		mk := func(id interface{}) *pendingRequest {
			return &pendingRequest{reqmsg: jlib.NewRequestMessage(id, "m", nil), resultChannel: make(chan jlib.Message, 10)}
		}
		id := vid(r, []interface{}{"a", 3})
		key := id
		if r.Intn(2) == 0 {
			key = "other"
		}
		q := mk(id)
		c.pendingRequests.Store(key, q)
		early, another := r.Intn(2) == 0, r.Intn(2) == 0
		var q2 *pendingRequest
		if early {
			c.handleResult(vresult(key, "fine"))
			if another {
				// the id is used again before the first call's timer ends
				q2 = mk(id)
				c.pendingRequests.Store(key, q2)
			}
		}
		c.expire(key, q, time.Millisecond)
		what := fmt.Sprintf("id %#v under key %#v, answered before the timeout: %v, key used again: %v", id, key, early, another)
		if len(q.resultChannel) != 1 {
			return fmt.Sprintf("%s: the caller got %d messages", what, len(q.resultChannel))
		}
		m := <-q.resultChannel
		if m.MustId() != id {
			return what + ": the caller got " + vshow(m)
		}
		if early != m.IsResult() {
			return what + ": the caller got " + vshow(m)
		}
		if !early {
			if e, ok := m.(*jlib.ErrorMessage); !ok || e.Error.Code != jlib.ErrTimeout.Code {
				return what + ": the caller got " + vshow(m)
			}
			c.handleResult(vresult(key, "late"))
			if len(q.resultChannel) != 0 {
				return what + ": the late answer reached the caller after the timeout"
			}
			if len(seen.wait(1)) != 1 {
				return what + ": the late answer did not reach the message handler"
			}
		}
		if q2 != nil {
			if len(q2.resultChannel) != 0 {
				return what + ": the timeout of the first call ended the second: " + vshow(<-q2.resultChannel)
			}
			c.handleResult(vresult(key, "second"))
			if len(q2.resultChannel) != 1 {
				return what + ": the second call no longer waits"
			}
		} else if l := vpendingLen(c); l != 0 {
			return fmt.Sprintf("%s: %d calls still pending", what, l)
		}
		return ""
	})
}

// vonce is connected for the first look only
type vonce struct {
	*vpipe
	looks int
}

func (p *vonce) Connected() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.looks++
	return p.looks == 1
}

func TestReplayC21Failures(t *testing.T) {
	vrun(t, 10, func(r *rand.Rand) string {
		c, p, _ := vstreaming()
		q := jlib.NewRequestMessage(vid(r, []interface{}{"a", 3}), "m", nil)
		if r.Intn(2) == 0 {
			p.refuse = true
		} else {
			p.refuse = true
			c.transport = &vonce{vpipe: p}
		}
		ch := make(chan error, 1)
		go func() { _, err := c.Call(context.Background(), q); ch <- err }()
		select {
		case err := <-ch:
			if err == nil {
				return "the call succeeded though nothing was sent"
			}
		case <-time.After(3 * time.Second):
			return "the call waits though nothing was sent"
		}
		if l := vpendingLen(c); l != 0 {
			return fmt.Sprintf("%d calls still pending after sending failed", l)
		}
		return ""
	})
}

func vid(r *rand.Rand, ids []interface{}) interface{} { return ids[r.Intn(len(ids))] }

func vresult(id, res interface{}) jlib.Message {
	return jlib.NewResultMessage(jlib.NewRequestMessage(id, "m", nil), res)
}
