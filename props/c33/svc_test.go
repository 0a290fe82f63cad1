package c33

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/rpc"
)

// Rec is a structured argument and result.
type Rec struct {
	S string          `json:"s"`
	N int64           `json:"n"`
	L []int           `json:"l"`
	M map[string]bool `json:"m"`
}

type coded struct {
	code int
	msg  string
}

func (e *coded) Error() string  { return e.msg }
func (e *coded) ErrorCode() int { return e.code }

// hidden is not exported, so methods that mention it must not be callable.
type hidden int

// Calc is the service under call. Every method notes the calls it got under
// their unique number.
type Calc struct {
	mu    sync.Mutex
	calls map[int][]string
	subs  map[int]*published
}

type published struct {
	n   *rpc.Notifier
	sub *rpc.Subscription
}

func newCalc() *Calc { return &Calc{calls: map[int][]string{}, subs: map[int]*published{}} }

func (c *Calc) note(nonce int, format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.calls[nonce] = append(c.calls[nonce], fmt.Sprintf(format, args...))
}

func (c *Calc) Add(nonce int, a, b int64) int64 { c.note(nonce, "add %d %d", a, b); return a + b }
func (c *Calc) Opt(nonce int, p *string, q *int) string {
	c.note(nonce, "opt %s", opt(p, q))
	return opt(p, q)
}
func (c *Calc) Echo(nonce int, r Rec) (Rec, error) { c.note(nonce, "echo %v", r); return r, nil }
func (c *Calc) Fail(nonce int, msg string) (int, error) {
	c.note(nonce, "fail %s", msg)
	return 7, errors.New(msg)
}
func (c *Calc) FailCode(nonce int, code int) error {
	c.note(nonce, "failCode %d", code)
	return &coded{code, "coded"}
}
func (c *Calc) Fine(nonce int) error { c.note(nonce, "fine"); return nil }
func (c *Calc) Ctx(ctx context.Context, nonce int) (bool, error) {
	c.note(nonce, "ctx")
	return ctx.Err() == nil, nil
}
func (c *Calc) Void(nonce int) { c.note(nonce, "void") }
func (c *Calc) Slow(nonce int, us int) int {
	c.note(nonce, "slow")
	time.Sleep(time.Duration(us) * time.Microsecond)
	return us
}
func (c *Calc) Sum(nonce int, l []int) (s int) {
	c.note(nonce, "sum %v", l)
	for _, x := range l {
		s += x
	}
	return
}
func (c *Calc) Unsubscribed(nonce int) bool       { c.note(nonce, "unsubscribed"); return true }
func (c *Calc) Two(nonce int) (int, int)          { c.note(nonce, "two"); return 1, 2 }
func (c *Calc) ErrFirst(nonce int) (error, int)   { c.note(nonce, "errFirst"); return nil, 2 }
func (c *Calc) HiddenArg(nonce int, h hidden) int { c.note(nonce, "hiddenArg"); return 1 }
func (c *Calc) HiddenResult(nonce int) hidden     { c.note(nonce, "hiddenResult"); return 1 }
func (c *Calc) secret(nonce int) int              { c.note(nonce, "secret"); return 1 }
func (c *Calc) Boom(nonce int, kind int) (int, error) {
	c.note(nonce, "boom %d", kind)
	switch kind {
	case 0:
		panic("boom")
	case 1:
		panic(errors.New("boom"))
	case 2:
		var m map[string]int
		m["x"] = 1
	case 3:
		var p *Calc
		return len(p.calls), nil
	}
	return []int{1}[kind], nil
}

func (c *Calc) subscribe(ctx context.Context, nonce int) (*rpc.Subscription, error) {
	n, ok := rpc.NotifierFromContext(ctx)
	if !ok {
		return &rpc.Subscription{}, rpc.ErrNotificationsUnsupported
	}
	s := n.CreateSubscription()
	c.mu.Lock()
	c.subs[nonce] = &published{n, s}
	c.mu.Unlock()
	return s, nil
}
func (c *Calc) Events(ctx context.Context, nonce int) (*rpc.Subscription, error) {
	c.note(nonce, "events")
	return c.subscribe(ctx, nonce)
}
func (c *Calc) Refuse(ctx context.Context, nonce int) (*rpc.Subscription, error) {
	c.note(nonce, "refuse")
	return nil, errors.New("refused")
}

func opt(p *string, q *int) string {
	s := "-"
	if p != nil {
		s = "p" + *p
	}
	if q != nil {
		s += fmt.Sprint(",q", *q)
	}
	return s
}

// request is one generated request and what is expected of it.
type request struct {
	id     string // JSON
	body   string // the request as JSON
	nonce  int
	noted  string      // the call that is to be noted, "" if none
	result interface{} // expected result, if code is 0
	code   int         // expected error code
	msg    string      // expected message of the error, if known
	anyRes bool        // any string result (a subscription id)
	class  string
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

var strGen = rapid.OneOf(rapid.StringN(0, 6, 20), rapid.SampledFrom([]string{"", "a_b", "\"", "\\u0000", "<&>", "日本", "null", "]", "}"}))

type genReq struct {
	next   int
	pubsub bool // the transport has subscriptions
	batch  bool // the request is part of a batch
}

func (g *genReq) id(rt *rapid.T) string {
	switch rapid.IntRange(0, 4).Draw(rt, "idk") {
	case 0:
		return js(fmt.Sprintf("%d/%s", g.next, strGen.Draw(rt, "ids")))
	case 1:
		return fmt.Sprintf("%d.5", g.next)
	case 2:
		return fmt.Sprintf("-%d", g.next)
	case 3:
		return fmt.Sprintf("%de3", g.next)
	}
	return fmt.Sprint(g.next)
}

// one makes a request.
func (g *genReq) one(rt *rapid.T) *request {
	g.next++
	r := &request{nonce: g.next, id: g.id(rt)}
	method := ""
	var args []string // JSON of the arguments
	need := 0         // how many arguments are required
	kinds := ""       // i(nt) s(tring) r(ec) l(ist) p(ointer)
	n := js(g.next)
	i := func(name string) int { return rapid.IntRange(-1000, 1000).Draw(rt, name) }
	switch rapid.IntRange(0, 15).Draw(rt, "method") {
	case 0, 1:
		a, b := rapid.Int64Range(-1<<62, 1<<62).Draw(rt, "a"), rapid.Int64Range(-1<<62, 1<<62).Draw(rt, "b")
		method, args, kinds, need = "calc_add", []string{n, js(a), js(b)}, "iii", 3
		r.noted, r.result = fmt.Sprintf("add %d %d", a, b), a+b
	case 2, 3:
		method, args, kinds, need = "calc_opt", []string{n}, "ipp", 1
		var p *string
		var q *int
		if rapid.Bool().Draw(rt, "p") {
			s := strGen.Draw(rt, "s")
			p = &s
		}
		if rapid.Bool().Draw(rt, "q") {
			x := i("q")
			q = &x
		}
		if p != nil || q != nil || rapid.Bool().Draw(rt, "nulls") {
			args = append(args, js(p))
			if q != nil || rapid.Bool().Draw(rt, "null") {
				args = append(args, js(q))
			}
		}
		r.noted, r.result = "opt "+opt(p, q), opt(p, q)
	case 4, 5:
		rec := Rec{S: strGen.Draw(rt, "s"), N: rapid.Int64().Draw(rt, "n"), L: rapid.SliceOfN(rapid.Int(), 1, 3).Draw(rt, "l"), M: map[string]bool{strGen.Draw(rt, "k"): true}}
		json.Unmarshal([]byte(js(rec)), &rec) // a string that is no UTF-8 is changed by encoding it
		method, args, kinds, need = "calc_echo", []string{n, js(rec)}, "ir", 2
		r.noted, r.result = fmt.Sprintf("echo %v", rec), rec
	case 6:
		msg := "failure " + strGen.Draw(rt, "msg")
		json.Unmarshal([]byte(js(msg)), &msg)
		method, args, kinds, need = "calc_fail", []string{n, js(msg)}, "is", 2
		r.noted, r.code, r.msg = "fail "+msg, -32002, msg
	case 7:
		code := i("code")
		if code == 0 {
			code = 1
		}
		method, args, kinds, need = "calc_failCode", []string{n, js(code)}, "ii", 2
		r.noted, r.code, r.msg = fmt.Sprintf("failCode %d", code), code, "coded"
	case 8:
		k := rapid.IntRange(0, 4).Draw(rt, "kind")
		method, args, kinds, need = "calc_boom", []string{n, js(k)}, "ii", 2
		r.noted, r.code = fmt.Sprintf("boom %d", k), -32001
		r.class = "panic"
	case 9:
		m := rapid.SampledFrom([]string{"fine", "ctx", "void", "unsubscribed"}).Draw(rt, "m")
		method, args, kinds, need = "calc_"+m, []string{n}, "i", 1
		r.noted = m
		if m == "ctx" || m == "unsubscribed" {
			r.result = true
		}
	case 10:
		us := rapid.IntRange(0, 800).Draw(rt, "us")
		method, args, kinds, need = "calc_slow", []string{n, js(us)}, "ii", 2
		r.noted, r.result = "slow", us
	case 11:
		l := rapid.SliceOfN(rapid.IntRange(-99, 99), 1, 5).Draw(rt, "l")
		method, args, kinds, need = "calc_sum", []string{n, js(l)}, "il", 2
		s := 0
		for _, x := range l {
			s += x
		}
		r.noted, r.result = fmt.Sprintf("sum %v", l), s
	case 12:
		names := []string{"calc_two", "calc_errFirst", "calc_hiddenArg", "calc_hiddenResult", "calc_secret", "calc_Add", "calc_events", "nosuch_add", "calc_", "_add", "_", "rpc_add", "calc_note", "calc_subscribe2", "rpc_methods"}
		if g.batch {
			names = append(names, "calc", "", "calc_fine_", "calc__fine", "calc_fine_x", "x_calc_fine", "calc.fine")
		}
		method = rapid.SampledFrom(names).Draw(rt, "unknown")
		r.code, r.class = -32601, "unknown"
		return r.build(rt, method, js([]int{r.nonce}))
	case 13:
		method = rapid.SampledFrom([]string{"calc_subscribe", "calc_subscribe", "nosuch_subscribe"}).Draw(rt, "subscribe")
		name := rapid.SampledFrom([]string{"events", "events", "refuse", "add", "nosuch", ""}).Draw(rt, "name")
		params := fmt.Sprintf(`[%s,%d]`, js(name), r.nonce)
		r.class = "subscribe"
		switch {
		case method == "nosuch_subscribe" || name != "events" && name != "refuse":
			r.code = -32601
		case rapid.IntRange(0, 4).Draw(rt, "badargs") == 0:
			params = rapid.SampledFrom([]string{fmt.Sprintf(`[%s,"x"]`, js(name)), fmt.Sprintf(`[%s]`, js(name)), fmt.Sprintf(`[%s,%d,1]`, js(name), r.nonce)}).Draw(rt, "params")
			r.code = -32602
		case name == "refuse":
			r.noted, r.code, r.msg = "refuse", -32002, "refused"
		case !g.pubsub:
			r.noted, r.code = "events", -32002
		default:
			r.noted, r.anyRes = "events", true
		}
		return r.build(rt, method, params)
	case 14:
		r.class = "unsubscribe"
		params := rapid.SampledFrom([]string{`["0x12"]`, `["0x0"]`, `["0x12",1]`, `[12]`, `[]`, `{}`}).Draw(rt, "params")
		r.code = -32602
		if params == `["0x12"]` || params == `["0x0"]` {
			r.code = -32002
		}
		return r.build(rt, rapid.SampledFrom([]string{"calc_unsubscribe", "nosuch_unsubscribe"}).Draw(rt, "ns"), params)
	case 15:
		r.result, r.class = map[string]string{"calc": "1.0", "rpc": "1.0"}, "modules"
		return r.build(rt, "rpc_modules", rapid.SampledFrom([]string{"", "[]"}).Draw(rt, "params"))
	}
	bad := func(class string) {
		r.class, r.noted, r.code, r.msg, r.result = class, "", -32602, "", nil
	}
	if r.class == "" {
		r.class = "call"
	}
	switch rapid.IntRange(0, 9).Draw(rt, "params") {
	case 0: // missing
		args = args[:rapid.IntRange(0, need-1).Draw(rt, "keep")]
		bad("missing")
	case 1: // too many
		for len(args) < len(kinds) {
			args = append(args, "null")
		}
		args = append(args, rapid.SampledFrom([]string{"1", `"x"`, "null", "[]"}).Draw(rt, "extra"))
		bad("extra")
	case 2: // wrong type
		k := rapid.IntRange(0, len(args)-1).Draw(rt, "which")
		wrong := map[byte][]string{'i': {`"1"`, "1.5", "[]", "{}", "true", "99999999999999999999"}, 's': {"1", "[]", "{}"}, 'r': {"1", `"x"`, "[]", `{"n":"x"}`, `{"l":{}}`}, 'l': {"1", "{}", `["x"]`}, 'p': {"{}", "[]", "1.5"}}[kinds[k]]
		args[k] = rapid.SampledFrom(wrong).Draw(rt, "wrong")
		bad("type")
	case 3: // no list
		bad("nolist")
		return r.build(rt, method, rapid.SampledFrom([]string{"", "{}", `{"nonce":1}`, "1", `"x"`, "null", "true"}).Draw(rt, "params"))
	}
	sep := rapid.SampledFrom([]string{",", " , ", ",\n\t"}).Draw(rt, "sep")
	return r.build(rt, method, "["+strings.Join(args, sep)+"]")
}

func (r *request) build(rt *rapid.T, method, params string) *request {
	f := []string{`"id":` + r.id, `"method":` + js(method)}
	if params != "" {
		f = append(f, `"params":`+params)
	}
	if rapid.IntRange(0, 4).Draw(rt, "version") > 0 {
		f = append(f, `"jsonrpc":"2.0"`)
	}
	if rapid.IntRange(0, 4).Draw(rt, "more") == 0 {
		f = append(f, `"extra":[{}]`)
	}
	f = rapid.Permutation(f).Draw(rt, "order")
	r.body = "{" + strings.Join(f, ",") + "}"
	return r
}

// message is one message: a request, a batch, or something malformed.
type message struct {
	body  string
	reqs  []*request
	batch bool
	bad   bool // to be answered by an error as a whole, after which the connection may be closed
	code  int  // its code, 0 for any
}

func (g *genReq) message(rt *rapid.T, last bool) *message {
	k := rapid.IntRange(0, 9).Draw(rt, "message")
	if last && k >= 7 {
		return g.malformed(rt)
	}
	if k >= 4 {
		r := g.one(rt)
		return &message{body: r.body, reqs: []*request{r}}
	}
	m := &message{batch: true}
	g.batch = true
	defer func() { g.batch = false }()
	var l []string
	for n := rapid.IntRange(0, 5).Draw(rt, "n"); n > 0; n-- {
		r := g.one(rt)
		m.reqs = append(m.reqs, r)
		l = append(l, r.body)
	}
	m.body = "[" + strings.Join(l, ",") + "]"
	if rapid.Bool().Draw(rt, "space") {
		m.body = " \t\r\n" + m.body
	}
	return m
}

func (g *genReq) malformed(rt *rapid.T) *message {
	g.next++
	ok := fmt.Sprintf(`{"id":%d,"method":"calc_fine","params":[%d],"jsonrpc":"2.0"}`, g.next, g.next)
	m := &message{bad: true}
	switch rapid.IntRange(0, 5).Draw(rt, "malformed") {
	case 0: // no JSON
		m.body = rapid.SampledFrom([]string{"}", "]", "nul1", `{"id" 1}`, `{id:1}`, "\x00", "[1 2]", `{"id":1,}`, "<html>", "-", "\xff\xfe", `"` + "\n" + `"`}).Draw(rt, "nojson")
	case 1: // no request
		m.body = rapid.SampledFrom([]string{"null", "5", "true", `"x"`, "[5]", `["x"]`, "[null]", "[[]]", "{}", `{"method":5,"id":1}`, `{"method":{},"id":1}`, `[{"method":5,"id":1}]`}).Draw(rt, "norequest")
	case 2, 3: // a request without or with a bad id
		id := rapid.SampledFrom([]string{``, `"id":{},`, `"id":[1],`, `"id":true,`}).Draw(rt, "badid")
		m.body = fmt.Sprintf(`{%s"method":"calc_fine","params":[%d]}`, id, g.next)
	case 4: // the name of a method does not have the right form
		m.body = fmt.Sprintf(`{"id":%d,"method":%s,"params":[%d]}`, g.next, rapid.SampledFrom([]string{`"calc"`, `""`, `"calc_fine_"`, `"calc__fine"`, `"calc_fine_x"`, `"calc.fine"`, `"x_calc_fine"`}).Draw(rt, "name"), g.next)
		m.code = -32601
		return m
	case 5: // a subscription without a name
		m.body = fmt.Sprintf(`{"id":%d,"method":"calc_subscribe"%s}`, g.next, rapid.SampledFrom([]string{``, `,"params":{}`, `,"params":5`, `,"params":[5]`}).Draw(rt, "sub"))
		return m
	}
	if m.body[0] == '{' && rapid.Bool().Draw(rt, "inbatch") {
		if rapid.Bool().Draw(rt, "first") {
			m.body = "[" + m.body + "," + ok + "]"
		} else {
			m.body = "[" + ok + "," + m.body + "]"
		}
	}
	return m
}
