package c33

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"golang.org/x/net/websocket"
	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/rpc"
	"verif/vlib"
)

func TestMain(m *testing.M) {
	log15.Root().SetHandler(log15.DiscardHandler())
	os.Exit(m.Run())
}

const patience = 20 * time.Second

func norm(rt *rapid.T, raw []byte) interface{} {
	d := json.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		rt.Fatalf("an answer is not JSON: %q: %v", raw, err)
	}
	return v
}

// answer checks one response against the request it is for.
func (r *request) check(rt *rapid.T, got interface{}) {
	m, ok := got.(map[string]interface{})
	if !ok {
		rt.Fatalf("the answer to %s is %v", r.body, got)
	}
	if m["jsonrpc"] != "2.0" {
		rt.Fatalf("the answer to %s has no version: %v", r.body, got)
	}
	if id := norm(rt, []byte(r.id)); !reflect.DeepEqual(m["id"], id) {
		rt.Fatalf("the answer to %s has id %v", r.body, m["id"])
	}
	e, isErr := m["error"].(map[string]interface{})
	res, isRes := m["result"]
	if isErr == isRes {
		rt.Fatalf("the answer to %s has both or neither of result and error: %v", r.body, got)
	}
	if r.code != 0 {
		if !isErr {
			rt.Fatalf("%s must fail with %d, the answer is %v", r.body, r.code, got)
		}
		if fmt.Sprint(e["code"]) != fmt.Sprint(r.code) || r.msg != "" && e["message"] != r.msg {
			rt.Fatalf("%s must fail with %d %q, the answer is %v", r.body, r.code, r.msg, e)
		}
		return
	}
	if isErr {
		rt.Fatalf("%s must succeed, the answer is %v", r.body, got)
	}
	if r.anyRes {
		if s, ok := res.(string); !ok || s == "" {
			rt.Fatalf("subscribing by %s gave %v", r.body, res)
		}
		return
	}
	if want := norm(rt, []byte(js(r.result))); !reflect.DeepEqual(res, want) {
		rt.Fatalf("the result of %s is %v, want %v", r.body, res, want)
	}
}

func (m *message) check(rt *rapid.T, got interface{}) {
	if m.bad {
		if l, ok := got.([]interface{}); ok && len(l) == 1 {
			got = l[0]
		}
		g, _ := got.(map[string]interface{})
		e, ok := g["error"].(map[string]interface{})
		if !ok || g["result"] != nil {
			rt.Fatalf("the answer to the malformed message %q is %v", m.body, got)
		}
		c := fmt.Sprint(e["code"])
		if m.code != 0 && c != fmt.Sprint(m.code) || m.code == 0 && c != "-32600" && c != "-32700" {
			rt.Fatalf("the malformed message %q got the error %v", m.body, e)
		}
		return
	}
	if !m.batch {
		m.reqs[0].check(rt, got)
		return
	}
	l, ok := got.([]interface{})
	if !ok || len(l) != len(m.reqs) {
		rt.Fatalf("the answer to the batch %s is %v", m.body, got)
	}
	for i, r := range m.reqs {
		r.check(rt, l[i])
	}
}

// checkCalls compares the calls the service got with the expected ones.
func checkCalls(rt *rapid.T, svc *Calc, msgs []*message) {
	svc.mu.Lock()
	defer svc.mu.Unlock()
	want := map[int][]string{}
	for _, m := range msgs {
		for _, r := range m.reqs {
			if r.noted != "" {
				want[r.nonce] = []string{r.noted}
			}
		}
	}
	for k, v := range svc.calls {
		if !reflect.DeepEqual(v, want[k]) {
			rt.Fatalf("request %d made the calls %q, want %q", k, v, want[k])
		}
	}
	for k, v := range want {
		if len(svc.calls[k]) != 1 {
			rt.Fatalf("request %d made the calls %q, want %q", k, svc.calls[k], v)
		}
	}
}

func label(c *vlib.C, msgs []*message) (calls int) {
	for _, m := range msgs {
		if m.bad {
			c.Label("malformed")
		}
		if m.batch {
			c.Label(fmt.Sprintf("batch of %d", len(m.reqs)))
		}
		for _, r := range m.reqs {
			c.Label("request " + r.class)
			if r.noted != "" {
				calls++
			}
		}
	}
	return
}

// stream is a connection that carries messages in both directions.
type stream struct {
	send  func(string) error
	in    chan json.RawMessage // closed at the end
	close func()
}

func dial(rt *rapid.T, srv *rpc.Server, kind string) *stream {
	switch kind {
	case "pipe":
		a, b := net.Pipe()
		go srv.ServeCodec(rpc.NewJSONCodec(a), rpc.OptionMethodInvocation|rpc.OptionSubscriptions)
		return reader(b, func(s string) error { _, err := io.WriteString(b, s+"\n"); return err })
	case "ws":
		h := httptest.NewServer(srv.WebsocketHandler([]string{"http://me"}))
		ws, err := websocket.Dial("ws"+strings.TrimPrefix(h.URL, "http"), "", "http://me")
		if err != nil {
			h.Close()
			rt.Fatalf("a WebSocket connection is refused: %v", err)
		}
		s := reader(ws, func(s string) error { return websocket.Message.Send(ws, s) })
		cl := s.close
		s.close = func() { cl(); h.CloseClientConnections(); h.Close() }
		return s
	}
	panic(kind)
}

func reader(conn io.ReadCloser, send func(string) error) *stream {
	s := &stream{in: make(chan json.RawMessage, 10000), send: send, close: func() { conn.Close() }}
	go func() {
		defer close(s.in)
		d := json.NewDecoder(conn)
		for {
			var m json.RawMessage
			if d.Decode(&m) != nil {
				return
			}
			s.in <- m
		}
	}()
	return s
}

func (s *stream) recv(rt *rapid.T, what string) json.RawMessage {
	select {
	case m, ok := <-s.in:
		if !ok {
			rt.Fatalf("the connection was closed, still to come: %s", what)
		}
		return m
	case <-time.After(patience):
		rt.Fatalf("no answer: %s", what)
	}
	return nil
}

func newServer(rt *rapid.T) (*rpc.Server, *Calc) {
	srv, svc := rpc.NewServer(), newCalc()
	if err := srv.RegisterName("calc", svc); err != nil {
		rt.Fatal(err)
	}
	return srv, svc
}

func keyOf(rt *rapid.T, m *message, got interface{}) string {
	if l, ok := got.([]interface{}); ok {
		if len(l) == 0 {
			return "[]"
		}
		got = l[0]
	}
	g, _ := got.(map[string]interface{})
	return js(g["id"])
}

// Several messages are sent over one connection, without waiting for the
// answers, which come in any order.
func TestStream(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 900, Thorough: 20000, Rule: "1..10 messages (calls, batches, unknown methods, bad arguments, panicking methods, subscriptions, at the end possibly a malformed one) pipelined over one connection (pipe or WebSocket); non-trivial: at least two methods are called and one request fails"},
		func(rt *rapid.T, c *vlib.C) {
			srv, svc := newServer(rt)
			kind := rapid.SampledFrom([]string{"pipe", "pipe", "pipe", "ws"}).Draw(rt, "transport")
			g := &genReq{pubsub: true}
			var msgs []*message
			for n := rapid.IntRange(1, 10).Draw(rt, "messages"); n > 0; n-- {
				msgs = append(msgs, g.message(rt, n == 1))
			}
			calls := label(c, msgs)
			c.Label(kind)
			if calls >= 2 && len(msgs) > 2 {
				c.NonTrivial(fmt.Sprint(len(msgs), msgs[0].body, msgs[1].body))
				c.Sample("%s: %s %s ...", kind, msgs[0].body, msgs[1].body)
			}
			s := dial(rt, srv, kind)
			defer s.close()
			defer srv.Stop()
			open := map[string][]*message{}
			for _, m := range msgs {
				k := "null"
				if m.batch && len(m.reqs) == 0 {
					k = "[]"
				} else if !m.bad {
					k = js(norm(rt, []byte(m.reqs[0].id)))
				}
				open[k] = append(open[k], m)
			}
			go func() {
				for _, m := range msgs {
					if s.send(m.body) != nil {
						return
					}
				}
			}()
			last := msgs[len(msgs)-1]
			take := func(raw json.RawMessage) {
				got := norm(rt, raw)
				k := keyOf(rt, nil, got)
				l := open[k]
				if len(l) == 0 && last.bad { // it may carry an id
					k = "null"
					l = open[k]
				}
				if len(l) == 0 {
					rt.Fatalf("an answer nobody asked for: %s", raw)
				}
				open[k] = l[1:]
				l[0].check(rt, got)
			}
			for n := len(msgs); n > 0; n-- {
				take(s.recv(rt, fmt.Sprintf("%d answers", n)))
			}
			if !last.bad { // nothing else comes, and the connection still works
				for i := 0; i < 2; i++ {
					g.next++
					r := &request{id: fmt.Sprint(g.next), nonce: g.next, noted: "fine", body: fmt.Sprintf(`{"id":%d,"method":"calc_fine","params":[%d]}`, g.next, g.next)}
					m := &message{body: r.body, reqs: []*request{r}}
					msgs = append(msgs, m)
					s.send(m.body)
					m.check(rt, norm(rt, s.recv(rt, "the last answer")))
				}
			} else {
				select {
				case raw, ok := <-s.in:
					if ok {
						rt.Fatalf("an answer nobody asked for: %s", raw)
					}
				case <-time.After(5 * time.Millisecond):
				}
			}
			checkCalls(rt, svc, msgs)
			// the server still serves others
			o := dial(rt, srv, "pipe")
			defer o.close()
			o.send(`{"id":1,"method":"calc_fine","params":[0]}`)
			(&request{id: "1", body: "a call on another connection"}).check(rt, norm(rt, o.recv(rt, "the answer on another connection")))
			srv.Stop()
			for _, s := range []*stream{s, o} {
				for stop := time.After(patience); ; {
					select {
					case _, ok := <-s.in:
						if ok {
							continue
						}
					case <-stop:
						rt.Fatalf("the stopped server keeps a connection open")
					}
					break
				}
			}
		})
}

// One message per HTTP request.
func TestHTTP(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 1500, Thorough: 40000, Rule: "one message (call, batch, malformed) as an HTTP request, of right and wrong method, content type, length and host; non-trivial: a request that is to be refused, or a batch"},
		func(rt *rapid.T, c *vlib.C) {
			srv, svc := newServer(rt)
			defer srv.Stop()
			vhosts := rapid.SampledFrom([][]string{nil, {"*"}, {"Good.example"}, {"a.example", "localhost"}}).Draw(rt, "vhosts")
			h := rpc.NewHTTPServer(nil, vhosts, rpc.DefaultHTTPTimeouts, srv).Handler
			g := &genReq{}
			m := g.message(rt, true)
			label(c, []*message{m})
			status := 200
			host := rapid.SampledFrom([]string{"", "127.0.0.1", "127.0.0.1:48132", "[::1]:80", "good.example", "good.example:80", "evil.example", "evil.example:80", "localhost", "localhost:1", "a.example", "xa.example", "a.example.evil"}).Draw(rt, "host")
			name := strings.Split(host, ":")[0]
			if host != "" && !strings.HasPrefix(host, "127.") && host[0] != '[' {
				ok := false
				for _, v := range vhosts {
					ok = ok || v == "*" || strings.ToLower(v) == name
				}
				if !ok {
					status = 403
				}
			}
			method, ct, body := "POST", "application/json", m.body
			pad := false
			switch rapid.IntRange(0, 8).Draw(rt, "wrong") {
			case 0:
				method = rapid.SampledFrom([]string{"PUT", "DELETE"}).Draw(rt, "method")
				if status == 200 {
					status = 405
				}
			case 1:
				ct = rapid.SampledFrom([]string{"", "text/plain", "application/x-www-form-urlencoded", "application/jsonx", "json", ";"}).Draw(rt, "ct")
				if status == 200 {
					status = 415
				}
			case 2:
				pad = true
				if strings.HasPrefix(body, "{") || strings.HasPrefix(body, "[") {
					body = body[:1] + strings.Repeat(" ", 128*1024) + body[1:]
				} else {
					body = "{" + strings.Repeat(" ", 128*1024) + body
				}
				if status == 200 {
					status = 413
				}
			case 3:
				ct = rapid.SampledFrom([]string{"application/json; charset=utf-8", "Application/JSON"}).Draw(rt, "ct")
			case 4: // as long as allowed
				if len(body) < 128*1024 {
					body = strings.Repeat(" ", 128*1024-len(body)) + body
				}
			}
			chunked := rapid.IntRange(0, 3).Draw(rt, "chunked") == 0
			req := httptest.NewRequest(method, "http://x/", strings.NewReader(body))
			req.Host = host
			if ct != "" {
				req.Header.Set("content-type", ct)
			}
			if chunked {
				req.ContentLength = -1
				if pad && status == 413 { // the end of it is not read
					status = 200
					m = &message{bad: true, body: "a request longer than allowed"}
				}
			}
			w := httptest.NewRecorder()
			if p := vlib.Catch(func() { h.ServeHTTP(w, req) }); p != nil {
				rt.Fatalf("serving %q panics: %v", m.body, p)
			}
			if w.Code != status {
				rt.Fatalf("a %s of %q (%s, host %q, hosts %q, %d bytes) got status %d, want %d", method, m.body, ct, host, vhosts, len(body), w.Code, status)
			}
			c.Label(fmt.Sprint("status ", status))
			if status != 200 || m.batch || m.bad {
				c.NonTrivial(status, m.body)
				c.Sample("%s %s %s: %d", method, ct, m.body, status)
			}
			if status != 200 {
				checkCalls(rt, svc, nil)
				return
			}
			raw := w.Body.Bytes()
			d := json.NewDecoder(bytes.NewReader(raw))
			var first json.RawMessage
			if err := d.Decode(&first); err != nil {
				rt.Fatalf("the answer to %q is %q", m.body, raw)
			}
			if d.More() {
				rt.Fatalf("the answer to %q has several parts: %q", m.body, raw)
			}
			m.check(rt, norm(rt, first))
			checkCalls(rt, svc, []*message{m})
		})
}

type conn struct {
	*stream
	got  map[string][]string // events received, per subscription
	ans  map[string]interface{}
	dead bool
}

type sub struct {
	id    string
	conn  int
	nonce int
	sent  []string // what must have been received
	over  bool
}

// Events reach the subscribers, and no one else.
func TestSubscriptions(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 350, Thorough: 8000, Rule: "up to 25 steps on 1..3 connections: subscribe, publish events, unsubscribe own, foreign, unknown and ended subscriptions, call, close a connection; non-trivial: events were published to two subscriptions, one of which ended"},
		func(rt *rapid.T, c *vlib.C) {
			srv, svc := newServer(rt)
			defer srv.Stop()
			if err := srv.RegisterName("other", svc); err != nil {
				rt.Fatal(err)
			}
			var conns []*conn
			for n := rapid.IntRange(1, 3).Draw(rt, "conns"); n > 0; n-- {
				s := dial(rt, srv, rapid.SampledFrom([]string{"pipe", "pipe", "pipe", "ws"}).Draw(rt, "transport"))
				defer s.close()
				conns = append(conns, &conn{stream: s, got: map[string][]string{}, ans: map[string]interface{}{}})
			}
			var subs []*sub
			ns := map[string]string{}
			one := func(k *conn, raw interface{}) {
				m, _ := raw.(map[string]interface{})
				if p, ok := m["params"].(map[string]interface{}); ok {
					id := fmt.Sprint(p["subscription"])
					if m["method"] != ns[id]+"_subscription" {
						rt.Fatalf("an event of a subscription to %q comes as %s", ns[id], js(raw))
					}
					k.got[id] = append(k.got[id], fmt.Sprint(p["result"]))
					return
				}
				id := js(m["id"])
				if _, twice := k.ans[id]; twice {
					rt.Fatalf("two answers to request %s", id)
				}
				k.ans[id] = m
			}
			handle := func(k *conn, raw json.RawMessage) {
				if l, ok := norm(rt, raw).([]interface{}); ok {
					for _, x := range l {
						one(k, x)
					}
					return
				}
				one(k, norm(rt, raw))
			}
			next := 0
			call := func(i int, method, params string) (int, map[string]interface{}) {
				next++
				k := conns[i]
				go k.send(fmt.Sprintf(`{"id":%d,"method":%q,"params":%s}`, next, method, strings.Replace(params, "$", fmt.Sprint(next), 1)))
				id := fmt.Sprint(next)
				for k.ans[id] == nil {
					handle(k, k.recv(rt, method))
				}
				return next, k.ans[id].(map[string]interface{})
			}
			publish := func(s *sub, ev string) {
				svc.mu.Lock()
				p := svc.subs[s.nonce]
				svc.mu.Unlock()
				done := make(chan error, 1)
				go func() { done <- p.n.Notify(rpc.ID(s.id), ev) }()
				select {
				case err := <-done:
					if err != nil && !conns[s.conn].dead {
						rt.Fatalf("publishing an event fails: %v", err)
					}
				case <-time.After(patience):
					rt.Fatalf("publishing an event hangs")
				}
			}
			ended, events := 0, 0
			for n := rapid.IntRange(3, 25).Draw(rt, "steps"); n > 0; n-- {
				i := rapid.IntRange(0, len(conns)-1).Draw(rt, "conn")
				k := conns[i]
				switch op := rapid.IntRange(0, 9).Draw(rt, "op"); {
				case op <= 1 && !k.dead: // subscribe
					names := rapid.SliceOfN(rapid.SampledFrom([]string{"calc", "other"}), 1, 3).Draw(rt, "ns")
					var fresh []*sub
					began := func(name string, nonce int, m map[string]interface{}) {
						id, ok := m["result"].(string)
						if !ok {
							rt.Fatalf("subscribing gives %v", m)
						}
						if _, dup := ns[id]; dup {
							rt.Fatalf("two subscriptions have the id %s", id)
						}
						ns[id] = name
						s := &sub{id: id, conn: i, nonce: nonce}
						subs = append(subs, s)
						fresh = append(fresh, s)
					}
					if rapid.Bool().Draw(rt, "batch") {
						var reqs []string
						first := next + 1
						for _, name := range names {
							next++
							reqs = append(reqs, fmt.Sprintf(`{"id":%d,"method":%q,"params":["events",%d]}`, next, name+"_subscribe", next))
						}
						go k.send("[" + strings.Join(reqs, ",") + "]")
						for j, name := range names {
							id := fmt.Sprint(first + j)
							for k.ans[id] == nil {
								handle(k, k.recv(rt, "the answer to a batch of subscriptions"))
							}
							began(name, first+j, k.ans[id].(map[string]interface{}))
						}
						if len(names) > 1 {
							c.Label("several subscriptions in a batch")
						}
					} else {
						nonce, m := call(i, names[0]+"_subscribe", `["events",$]`)
						began(names[0], nonce, m)
					}
					// they start a moment after the answer
					for _, s := range fresh {
						var probes []string
						for stop := time.Now().Add(patience); len(k.got[s.id]) == 0; {
							if time.Now().After(stop) {
								rt.Fatalf("subscription %d of %d does not start", s.nonce, len(fresh))
							}
							ev := fmt.Sprint("probe", len(probes))
							publish(s, ev)
							probes = append(probes, ev)
							select {
							case raw, ok := <-k.in:
								if !ok {
									rt.Fatalf("the connection was closed")
								}
								handle(k, raw)
							case <-time.After(time.Duration(len(probes)) * time.Millisecond):
							}
						}
						for j, ev := range probes {
							if ev == k.got[s.id][0] {
								s.sent = append(s.sent, probes[j:]...)
								break
							}
						}
					}
				case op <= 6 && len(subs) > 0: // publish
					s := subs[rapid.IntRange(0, len(subs)-1).Draw(rt, "sub")]
					for j := rapid.IntRange(1, 4).Draw(rt, "events"); j > 0; j-- {
						events++
						ev := fmt.Sprint("e", events)
						publish(s, ev)
						if !s.over && !conns[s.conn].dead {
							s.sent = append(s.sent, ev)
						}
					}
				case op == 7 && !k.dead: // unsubscribe
					id := "0x1234"
					var s *sub
					if len(subs) > 0 && rapid.IntRange(0, 5).Draw(rt, "unknown") > 0 {
						s = subs[rapid.IntRange(0, len(subs)-1).Draw(rt, "sub")]
						id = s.id
					}
					_, m := call(i, "calc_unsubscribe", js([]string{id}))
					if s != nil && s.conn == i && !s.over {
						if m["result"] != true {
							rt.Fatalf("unsubscribing gives %v", m)
						}
						s.over = true
						ended++
						svc.mu.Lock()
						p := svc.subs[s.nonce]
						svc.mu.Unlock()
						select {
						case <-p.sub.Err():
						case <-time.After(patience):
							rt.Fatalf("the publisher does not learn that the subscription ended")
						}
					} else if m["error"] == nil {
						rt.Fatalf("unsubscribing %s, which is no subscription of this connection, gives %v", id, m)
					}
				case op == 8 && !k.dead:
					if _, m := call(i, "calc_add", `[$,2,3]`); fmt.Sprint(m["result"]) != "5" {
						rt.Fatalf("2+3 gives %v", m)
					}
				case op == 9 && !k.dead && rapid.IntRange(0, 3).Draw(rt, "really") == 0:
					k.settle(rt, i, subs, handle)
					k.close()
					k.dead = true
					for _, s := range subs {
						if s.conn == i {
							ended++
							svc.mu.Lock()
							p := svc.subs[s.nonce]
							svc.mu.Unlock()
							select {
							case <-p.n.Closed():
							case <-time.After(patience):
								rt.Fatalf("the publisher does not learn that the connection ended")
							}
						}
					}
				}
			}
			for i, k := range conns {
				if !k.dead {
					call(i, "calc_fine", `[$]`)
					k.settle(rt, i, subs, handle)
				}
			}
			for i, k := range conns {
				want := map[string][]string{}
				for _, s := range subs {
					if s.conn == i {
						want[s.id] = s.sent
					}
				}
				if !reflect.DeepEqual(k.got, want) {
					rt.Fatalf("connection %d got the events %v, want %v", i, k.got, want)
				}
			}
			if events > 0 && len(subs) > 1 && ended > 0 {
				c.NonTrivial(events, len(subs), ended, next)
				c.Sample("%d connections, %d subscriptions, %d ended, %d events", len(conns), len(subs), ended, events)
			}
		})
}

// The ids of subscriptions do not repeat.
func TestIDs(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 20, Thorough: 200, Rule: "5000 ids made by up to 8 goroutines; non-trivial: all"},
		func(rt *rapid.T, c *vlib.C) {
			n := rapid.IntRange(1, 8).Draw(rt, "goroutines")
			l := make([][]rpc.ID, n)
			var wg sync.WaitGroup
			for i := range l {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					for k := 0; k < 5000/n; k++ {
						l[i] = append(l[i], rpc.NewID())
					}
				}(i)
			}
			wg.Wait()
			seen := map[rpc.ID]bool{}
			for _, ids := range l {
				for _, id := range ids {
					if seen[id] {
						rt.Fatalf("the id %s is given twice", id)
					}
					seen[id] = true
				}
			}
			c.NonTrivial(n, l[0][0])
			c.Sample("%d goroutines, first id %s", n, l[0][0])
		})
}

// settle waits for the events that are on their way.
func (k *conn) settle(rt *rapid.T, i int, subs []*sub, handle func(*conn, json.RawMessage)) {
	for _, s := range subs {
		for s.conn == i && len(k.got[s.id]) < len(s.sent) {
			handle(k, k.recv(rt, "event of a subscription"))
		}
	}
	for {
		select {
		case raw, ok := <-k.in:
			if !ok {
				return
			}
			handle(k, raw)
			continue
		default:
		}
		return
	}
}

// Concurrent callers of one client each get their own answers.
func TestClient(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 200, Thorough: 5000, Rule: "up to 6 goroutines with up to 6 calls, batches and subscriptions each over one client (in process, HTTP or WebSocket); non-trivial: at least two goroutines, one of them with a batch"},
		func(rt *rapid.T, c *vlib.C) {
			srv, svc := newServer(rt)
			defer srv.Stop()
			var cl *rpc.Client
			var err error
			kind := rapid.SampledFrom([]string{"inproc", "http", "ws"}).Draw(rt, "transport")
			switch kind {
			case "inproc":
				cl = rpc.DialInProc(srv)
			case "http":
				h := httptest.NewServer(srv)
				defer h.Close()
				defer h.CloseClientConnections()
				hc := &http.Client{Transport: &http.Transport{}}
				defer hc.CloseIdleConnections()
				cl, err = rpc.DialHTTPWithClient(h.URL, hc)
			case "ws":
				h := httptest.NewServer(srv.WebsocketHandler([]string{"*"}))
				defer h.Close()
				defer h.CloseClientConnections()
				cl, err = rpc.DialWebsocket(context.Background(), "ws"+strings.TrimPrefix(h.URL, "http"), "http://any")
			}
			if err != nil {
				rt.Fatal(err)
			}
			defer cl.Close()
			var plan [][]step
			next, batches := 0, 0
			var msgs []*message
			expect := func(nonce int, noted string) {
				msgs = append(msgs, &message{reqs: []*request{{nonce: nonce, noted: noted}}})
			}
			for n := rapid.IntRange(1, 6).Draw(rt, "goroutines"); n > 0; n-- {
				var l []step
				for k := rapid.IntRange(1, 6).Draw(rt, "calls"); k > 0; k-- {
					s := step{kind: rapid.SampledFrom([]string{"call", "call", "fail", "batch", "unknown", "events"}).Draw(rt, "kind"), n: next + 1}
					next++
					switch s.kind {
					case "call":
						s.a = []int{rapid.IntRange(0, 500).Draw(rt, "us")}
						expect(s.n, "slow")
					case "fail":
						expect(s.n, fmt.Sprint("fail m", s.n))
					case "batch":
						batches++
						for j := rapid.IntRange(1, 4).Draw(rt, "batch"); j > 0; j-- {
							s.a = append(s.a, rapid.IntRange(-2, 50).Draw(rt, "a"))
							if a := s.a[len(s.a)-1]; a >= 0 {
								expect(next, fmt.Sprintf("add %d %d", a, next))
							}
							next++
						}
					case "events":
						if kind == "http" {
							s.kind = "unknown"
						} else {
							s.a = []int{rapid.IntRange(1, 30).Draw(rt, "events")}
							expect(s.n, "events")
						}
					}
					l = append(l, s)
				}
				plan = append(plan, l)
			}
			var wg sync.WaitGroup
			errs := make(chan error, 1000)
			ctx, cancel := context.WithTimeout(context.Background(), patience)
			defer cancel()
			for _, l := range plan {
				wg.Add(1)
				go func(l []step) {
					defer wg.Done()
					for _, s := range l {
						if err := s.run(ctx, cl, svc); err != nil {
							errs <- fmt.Errorf("%v: %w", s, err)
							return
						}
					}
				}(l)
			}
			wg.Wait()
			select {
			case err := <-errs:
				rt.Fatal(err)
			default:
			}
			checkCalls(rt, svc, msgs)
			c.Label(kind)
			if len(plan) > 1 && batches > 0 {
				c.NonTrivial(kind, fmt.Sprint(plan))
				c.Sample("%s %v", kind, plan)
			}
		})
}

// step is what one goroutine does with the client.
type step struct {
	kind string
	n    int
	a    []int
}

func code(err error) int {
	if e, ok := err.(rpc.Error); ok {
		return e.ErrorCode()
	}
	return 0
}

func (s step) run(ctx context.Context, cl *rpc.Client, svc *Calc) error {
	switch s.kind {
	case "call":
		got := -1
		if err := cl.CallContext(ctx, &got, "calc_slow", s.n, s.a[0]); err != nil || got != s.a[0] {
			return fmt.Errorf("got %d %v", got, err)
		}
	case "fail":
		if err := cl.CallContext(ctx, nil, "calc_fail", s.n, fmt.Sprint("m", s.n)); err == nil || code(err) != -32002 || err.Error() != fmt.Sprint("m", s.n) {
			return fmt.Errorf("got %v", err)
		}
	case "unknown":
		if err := cl.CallContext(ctx, nil, "calc_nosuch", s.n); code(err) != -32601 {
			return fmt.Errorf("got %v", err)
		}
	case "batch":
		l := make([]rpc.BatchElem, len(s.a))
		res := make([]int, len(s.a))
		for i, a := range s.a {
			l[i] = rpc.BatchElem{Method: "calc_add", Args: []interface{}{s.n + i, a, s.n + i}, Result: &res[i]}
			switch a {
			case -1:
				l[i].Method = "calc_nosuch"
			case -2:
				l[i].Args = []interface{}{"x"}
			}
		}
		if err := cl.BatchCallContext(ctx, l); err != nil {
			return err
		}
		for i, a := range s.a {
			switch {
			case a == -1 && code(l[i].Error) != -32601, a == -2 && code(l[i].Error) != -32602:
				return fmt.Errorf("element %d got %v", i, l[i].Error)
			case a >= 0 && (l[i].Error != nil || res[i] != a+s.n+i):
				return fmt.Errorf("element %d got %d %v", i, res[i], l[i].Error)
			}
		}
	case "events":
		ch := make(chan string, s.n%5)
		sub, err := cl.Subscribe(ctx, "calc", ch, "events", s.n)
		if err != nil {
			return err
		}
		svc.mu.Lock()
		p := svc.subs[s.n]
		svc.mu.Unlock()
		got := ""
		var want []string
		for i := 0; got == ""; i++ {
			if ctx.Err() != nil {
				return errors.New("the subscription does not start")
			}
			ev := fmt.Sprint("probe", i)
			want = append(want, ev)
			if err := p.n.Notify(p.sub.ID, ev); err != nil {
				return err
			}
			select {
			case got = <-ch:
			case <-time.After(time.Duration(i+1) * time.Millisecond):
			}
		}
		for want[0] != got {
			if want = want[1:]; len(want) == 0 {
				return fmt.Errorf("got event %s", got)
			}
		}
		want = want[1:]
		for i := 0; i < s.a[0]; i++ {
			ev := fmt.Sprint(s.n, "/", i)
			want = append(want, ev)
			if err := p.n.Notify(p.sub.ID, ev); err != nil {
				return err
			}
		}
		for _, w := range want {
			select {
			case got := <-ch:
				if got != w {
					return fmt.Errorf("got event %s, want %s", got, w)
				}
			case <-ctx.Done():
				return errors.New("an event is lost")
			}
		}
		sub.Unsubscribe()
		p.n.Notify(p.sub.ID, "late")
		select {
		case got := <-ch:
			return fmt.Errorf("got event %s after unsubscribing", got)
		default:
		}
	}
	return nil
}

// Ping is a service whose methods tell its name.
type Ping struct{ name string }

func (p *Ping) Name() string { return p.name }

func post(url, method string) (interface{}, int) {
	hc := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: patience}
	resp, err := hc.Post(url, "application/json", strings.NewReader(fmt.Sprintf(`{"id":1,"method":%q,"params":[]}`, method)))
	if err != nil {
		return err, 1
	}
	defer resp.Body.Close()
	var m struct {
		Result interface{}
		Error  struct{ Code int }
	}
	if err := json.NewDecoder(resp.Body).Decode(&m); err != nil {
		return err, 2
	}
	return m.Result, m.Error.Code
}

// An endpoint offers the configured services only.
func TestEndpoints(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 120, Thorough: 2000, Rule: "1..5 services, public or not, and a list of modules for the HTTP, WebSocket and IPC endpoints, with allowed origins; non-trivial: a service that is not offered"},
		func(rt *rapid.T, c *vlib.C) {
			var apis []rpc.API
			names := []string{"aa", "bb", "cc", "dd", "ee"}[:rapid.IntRange(1, 5).Draw(rt, "services")]
			for _, n := range names {
				apis = append(apis, rpc.API{Namespace: n, Service: &Ping{n}, Public: rapid.Bool().Draw(rt, "public")})
			}
			modules := rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"aa", "bb", "cc", "dd", "ee", "zz"}), 0, 3, rapid.ID[string]).Draw(rt, "modules")
			all := rapid.IntRange(0, 4).Draw(rt, "all") == 0
			private := rapid.SampledFrom([]string{"", "127.0.0.1:0"}).Draw(rt, "private")
			offered := func(a rpc.API) bool {
				for _, m := range modules {
					if m == a.Namespace {
						return true
					}
				}
				return all || len(modules) == 0 && a.Public
			}
			probe := func(what string, call func(method string) (interface{}, int), offered func(rpc.API) bool) {
				for _, a := range apis {
					res, code := call(a.Namespace + "_name")
					if offered(a) && (code != 0 || res != a.Namespace) || !offered(a) && code != -32601 {
						rt.Fatalf("%s: %s (public %v, modules %q, all %v) gives %v %d", what, a.Namespace, a.Public, modules, all, res, code)
					}
					if !offered(a) {
						c.NonTrivial(what, modules, all, fmt.Sprint(names), a.Namespace, a.Public)
						c.Label(what + " refuses")
					}
				}
			}
			l, srv, pl, psrv, err := rpc.StartHTTPEndpoint("127.0.0.1:0", private, apis, modules, nil, nil, rpc.DefaultHTTPTimeouts, all)
			if err != nil {
				rt.Fatal(err)
			}
			defer srv.Stop()
			defer psrv.Stop()
			defer l.Close()
			probe("http", func(m string) (interface{}, int) { return post("http://"+l.Addr().String(), m) }, offered)
			secret := func(a rpc.API) bool { return !a.Public && !offered(a) }
			if pl != nil {
				defer pl.Close()
				if private == "" {
					rt.Fatalf("the private services are bound without an address")
				}
				probe("private http", func(m string) (interface{}, int) { return post("http://"+pl.Addr().String(), m) }, secret)
			} else if private != "" {
				for _, a := range apis {
					if secret(a) {
						rt.Fatalf("the private service %s is not offered at the private endpoint", a.Namespace)
					}
				}
			}
			origins := rapid.SampledFrom([][]string{{"*"}, {"http://a.example"}, {"http://A.example", "http://b.example"}, {"http://b.example"}, nil}).Draw(rt, "origins")
			wl, wsrv, err := rpc.StartWSEndpoint("127.0.0.1:0", apis, modules, origins, all)
			if err != nil {
				rt.Fatal(err)
			}
			defer wsrv.Stop()
			defer wl.Close()
			for _, o := range []string{"http://a.example", "http://b.example", "http://evil.example", "http://localhost"} {
				allowed := o == "http://localhost" && len(origins) == 0
				for _, x := range origins {
					allowed = allowed || x == "*" || strings.ToLower(x) == o
				}
				ws, err := websocket.Dial("ws://"+wl.Addr().String(), "", o)
				if (err == nil) != allowed {
					rt.Fatalf("a WebSocket connection from %s, where %q are allowed: %v", o, origins, err)
				}
				if err != nil {
					c.Label("origin refused")
					continue
				}
				probe("ws", over(ws, func(s string) error { return websocket.Message.Send(ws, s) }, rt), offered)
				ws.Close()
			}
			d := vlib.TempDir(rt)
			il, isrv, err := rpc.StartIPCEndpoint(filepath.Join(d, "i"), apis)
			if err != nil {
				rt.Fatal(err)
			}
			defer isrv.Stop()
			defer il.Close()
			ic, err := net.Dial("unix", filepath.Join(d, "i"))
			if err != nil {
				rt.Fatal(err)
			}
			defer ic.Close()
			probe("ipc", over(ic, func(s string) error { _, err := io.WriteString(ic, s); return err }, rt), func(rpc.API) bool { return true })
			c.Sample("%q of %d services, all %v, private %q, origins %q", modules, len(apis), all, private, origins)
		})
}

func over(conn io.ReadCloser, send func(string) error, rt *rapid.T) func(string) (interface{}, int) {
	s := reader(conn, send)
	return func(method string) (interface{}, int) {
		s.send(fmt.Sprintf(`{"id":1,"method":%q,"params":[]}`, method))
		var m struct {
			Result interface{}
			Error  struct{ Code int }
		}
		if err := json.Unmarshal(s.recv(rt, method), &m); err != nil {
			return err, 2
		}
		return m.Result, m.Error.Code
	}
}
