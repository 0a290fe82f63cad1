// Package c25: the routing table against a list-per-bucket model under
// generated schedules of late pings, and node/endpoint codecs.
package c25

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/net/discovery"
	"github.com/vitelabs/go-vite/v2/net/vnode"
	"verif/gens"
	"verif/vlib"
)

const (
	capacity = 64
	buckets  = 32
)

// dist is the bit length of the exclusive or.
func dist(a, b vnode.NodeID) int {
	x := new(big.Int).SetBytes(a[:])
	return x.Xor(x, new(big.Int).SetBytes(b[:])).BitLen()
}

func bucketOf(self, id vnode.NodeID) int {
	d := dist(self, id) - (256 - buckets + 1)
	if d < 0 {
		return 0
	}
	return d
}

func genID(t *rapid.T, name string) (id vnode.NodeID) {
	copy(id[:], gens.Fixed(32).Draw(t, name))
	return
}

// at makes an id at distance d from self with the given low bits.
func at(self vnode.NodeID, d int, low uint64) vnode.NodeID {
	if d == 0 {
		return self
	}
	x := new(big.Int).SetUint64(low)
	x.Mod(x, new(big.Int).Lsh(big.NewInt(1), uint(d-1)))
	x.SetBit(x, d-1, 1)
	x.Xor(x, new(big.Int).SetBytes(self[:]))
	var id vnode.NodeID
	x.FillBytes(id[:])
	return id
}

func mkNode(id vnode.NodeID, port int, ext byte) *discovery.Node {
	return &discovery.Node{Node: vnode.Node{ID: id, Net: 1, Ext: []byte{ext},
		EndPoint: vnode.EndPoint{Host: []byte{10, 1, byte(port >> 16), 9}, Port: port & 0xffff, Typ: vnode.HostIPv4}}}
}

type pending struct {
	node *discovery.Node
	cb   func(error)
	// model: what was asked
	replaceBy *discovery.Node
	gone      bool
}

func TestTable(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "histories of adding (fresh, known, re-addressed and address-sharing nodes, whole buckets), bubbling, removing, resetting and answering outstanding pings late, well or badly: full table contents, order, lookups and nearest-node answers against a list model; non-trivial: a bucket was full when a node was added, or a ping was answered after the table changed",
		Quick: 60, Thorough: 1500, Steps: 60,
	}, func(t *rapid.T, c *vlib.C) {
		self := genID(t, "self")
		calls := make(chan *pending, 1000)
		tab := discovery.VNewTable(self, 1, func(n *discovery.Node, cb func(error)) { calls <- &pending{node: n, cb: cb} })
		model := make([][]*discovery.Node, buckets)
		var waiting []*pending
		full, late := 0, 0
		version := 0
		born := map[*pending]int{}
		nextPort := 100
		find := func(id vnode.NodeID) *discovery.Node {
			for _, n := range model[bucketOf(self, id)] {
				if n.ID == id {
					return n
				}
			}
			return nil
		}
		findAddr := func(a string) *discovery.Node {
			for _, b := range model {
				for _, n := range b {
					if n.Address() == a {
						return n
					}
				}
			}
			return nil
		}
		del := func(id vnode.NodeID) *discovery.Node {
			b := bucketOf(self, id)
			for i, n := range model[b] {
				if n.ID == id {
					model[b] = append(append([]*discovery.Node{}, model[b][:i]...), model[b][i+1:]...)
					version++
					return n
				}
			}
			return nil
		}
		bubble := func(id vnode.NodeID) bool {
			n := del(id)
			if n == nil {
				return false
			}
			b := bucketOf(self, id)
			model[b] = append(model[b], n)
			return true
		}
		await := func(on, by *discovery.Node) {
			select {
			case p := <-calls:
				if p.node != on {
					t.Fatalf("pinged %v, expected %v", p.node, on)
				}
				p.replaceBy = by
				waiting = append(waiting, p)
				born[p] = version
			case <-time.After(5 * time.Second):
				t.Fatalf("no ping of %v although its place is asked for", on)
			}
		}
		add := func(n *discovery.Node) {
			got := tab.Add(n)
			if n.ID == self || n.ID == vnode.ZERO {
				if got != nil {
					t.Fatalf("adding the own or the zero id returned a node")
				}
				return
			}
			old := find(n.ID)
			if old == nil {
				old = findAddr(n.Address())
			}
			if old != nil {
				if old.Equal(&n.Node) {
					bubble(n.ID)
					if got != nil {
						t.Fatalf("adding a known node asked to check %v", got)
					}
					return
				}
				if got != old {
					t.Fatalf("adding %v: to check %v, want the known %v", n, got, old)
				}
				await(old, nil)
				return
			}
			b := bucketOf(self, n.ID)
			if len(model[b]) < capacity {
				if got != nil {
					t.Fatalf("adding to a bucket of %d asked to check %v", len(model[b]), got)
				}
				model[b] = append(model[b], n)
				version++
				return
			}
			full++
			if got != model[b][0] {
				t.Fatalf("adding to a full bucket: to check %v, want the least active %v", got, model[b][0])
			}
			await(model[b][0], n)
		}
		known := func() *discovery.Node {
			var all []*discovery.Node
			for _, b := range model {
				all = append(all, b...)
			}
			if len(all) == 0 {
				return nil
			}
			return all[rapid.IntRange(0, len(all)-1).Draw(t, "known")]
		}
		newID := func() vnode.NodeID {
			switch rapid.IntRange(0, 9).Draw(t, "id") {
			case 0:
				return self
			case 1:
				return vnode.ZERO
			case 2:
				return genID(t, "any")
			default:
				d := rapid.OneOf(rapid.IntRange(1, 256), rapid.SampledFrom([]int{256, 255, 226, 225, 224, 120})).Draw(t, "dist")
				return at(self, d, rapid.Uint64Range(0, 200).Draw(t, "low"))
			}
		}
		freshPort := func() int {
			nextPort++
			if nextPort == vnode.DefaultPort {
				nextPort++
			}
			return nextPort
		}
		var log []string
		t.Repeat(map[string]func(*rapid.T){
			"add": func(t *rapid.T) {
				id := newID()
				port := freshPort()
				if rapid.IntRange(0, 4).Draw(t, "reuse") == 0 {
					port = rapid.IntRange(101, nextPort).Draw(t, "port")
				}
				log = append(log, "add")
				add(mkNode(id, port, 0))
			},
			"again": func(t *rapid.T) {
				k := known()
				if k == nil {
					return
				}
				n := &discovery.Node{Node: k.Node}
				switch rapid.IntRange(0, 2).Draw(t, "change") {
				case 1:
					n.EndPoint.Port = freshPort() & 0xffff
				case 2:
					n.Ext = []byte{9}
				}
				log = append(log, "again")
				add(n)
			},
			"fill": func(t *rapid.T) {
				d := rapid.SampledFrom([]int{256, 256, 255, 226, 200}).Draw(t, "dist")
				k := rapid.IntRange(1, 70).Draw(t, "count")
				log = append(log, fmt.Sprintf("fill %d", k))
				for i := 0; i < k; i++ {
					p := freshPort()
					add(mkNode(at(self, d, uint64(1000+p)), p, 0))
				}
			},
			"bubble": func(t *rapid.T) {
				id := newID()
				if k := known(); k != nil && rapid.Bool().Draw(t, "hit") {
					id = k.ID
				}
				log = append(log, "bubble")
				if id == self {
					return
				}
				if got, want := tab.Bubble(id), bubble(id); got != want {
					t.Fatalf("bubble %v: %v, known %v", id, got, want)
				}
			},
			"remove": func(t *rapid.T) {
				k := known()
				if k == nil {
					return
				}
				log = append(log, "remove")
				if got := tab.Remove(k.ID); got != k {
					t.Fatalf("remove %v returned %v", k, got)
				}
				del(k.ID)
				if tab.Remove(k.ID) != nil {
					t.Fatalf("removed twice")
				}
			},
			"readd": func(t *rapid.T) {
				// remove a node and add it again under a new address
				k := known()
				if k == nil {
					return
				}
				log = append(log, "readd")
				tab.Remove(k.ID)
				del(k.ID)
				add(mkNode(k.ID, freshPort(), 3))
			},
			"retry": func(t *rapid.T) {
				// a node waiting for a place is offered again
				for _, p := range waiting {
					if p.replaceBy != nil && rapid.Bool().Draw(t, "this") {
						log = append(log, "retry")
						if rapid.Bool().Draw(t, "free") {
							// free a place first, not the pinged one
							b := model[bucketOf(self, p.replaceBy.ID)]
							if len(b) > 1 {
								v := b[len(b)-1]
								tab.Remove(v.ID)
								del(v.ID)
							}
						}
						n := p.replaceBy
						if rapid.Bool().Draw(t, "copy") {
							n = &discovery.Node{Node: n.Node}
						}
						add(n)
						return
					}
				}
			},
			"answer": func(t *rapid.T) {
				if len(waiting) == 0 {
					return
				}
				i := rapid.IntRange(0, len(waiting)-1).Draw(t, "ping")
				p := waiting[i]
				waiting = append(waiting[:i:i], waiting[i+1:]...)
				ok := rapid.IntRange(0, 2).Draw(t, "alive") == 0
				log = append(log, fmt.Sprintf("answer %v", ok))
				if version != born[p] {
					late++
				}
				if ok {
					p.cb(nil)
					return
				}
				p.cb(errors.New("timeout"))
				n := p.replaceBy
				if n == nil {
					del(p.node.ID)
					return
				}
				if find(p.node.ID) != p.node {
					return // what was pinged is no longer there
				}
				b := bucketOf(self, p.node.ID)
				if find(n.ID) != nil || (findAddr(n.Address()) != nil && findAddr(n.Address()) != p.node) {
					del(p.node.ID)
					return
				}
				for i := range model[b] {
					if model[b][i] == p.node {
						nb := append([]*discovery.Node{}, model[b]...)
						nb[i] = n
						model[b] = nb
						version++
						break
					}
				}
			},
			"reset": func(t *rapid.T) {
				if rapid.IntRange(0, 5).Draw(t, "really") != 0 {
					return
				}
				log = append(log, "reset")
				tab.Reset()
				model = make([][]*discovery.Node, buckets)
				version++
			},
			"neighbors": func(t *rapid.T) {
				target := newID()
				if k := known(); k != nil && rapid.Bool().Draw(t, "near") {
					target = k.ID
				}
				count := rapid.IntRange(0, 40).Draw(t, "count")
				var want []int
				for _, b := range model {
					for _, n := range b {
						if n.ID != target {
							want = append(want, dist(target, n.ID))
						}
					}
				}
				sort.Ints(want)
				if len(want) > count {
					want = want[:count]
				}
				var got []int
				seen := map[vnode.NodeID]bool{}
				for _, n := range tab.Neighbors(target, count) {
					if find(n.ID) != n || seen[n.ID] || n.ID == target {
						t.Fatalf("neighbour %v is unknown, repeated or the target", n)
					}
					seen[n.ID] = true
					got = append(got, dist(target, n.ID))
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					t.Fatalf("%d nearest of %v at distances %v, want %v", count, target, got, want)
				}
			},
			"": func(t *rapid.T) {
				total := 0
				ids, addrs := map[vnode.NodeID]bool{}, map[string]bool{}
				got := tab.Buckets()
				if len(got) != buckets {
					t.Fatalf("%d buckets", len(got))
				}
				for i, b := range got {
					if len(b) > capacity {
						t.Fatalf("bucket %d holds %d nodes", i, len(b))
					}
					total += len(b)
					for j, n := range b {
						if n.ID == self || n.ID == vnode.ZERO {
							t.Fatalf("the own or zero id is in the table")
						}
						if ids[n.ID] || addrs[n.Address()] {
							t.Fatalf("node %v is in the table twice (by id or address)", n)
						}
						ids[n.ID], addrs[n.Address()] = true, true
						if bucketOf(self, n.ID) != i {
							t.Fatalf("node at distance %d is in bucket %d", dist(self, n.ID), i)
						}
						if j >= len(model[i]) || model[i][j] != n {
							t.Fatalf("bucket %d position %d holds %v, not what the history leaves there", i, j, n)
						}
						if tab.Resolve(n.ID) != n || tab.ResolveAddr(n.Address()) != n {
							t.Fatalf("node %v does not resolve by id and address", n)
						}
					}
					if len(b) != len(model[i]) {
						t.Fatalf("bucket %d holds %d nodes, want %d", i, len(b), len(model[i]))
					}
				}
				if tab.Size() != total || len(tab.Nodes(0)) != total {
					t.Fatalf("size %d, nodes %d, held %d", tab.Size(), len(tab.Nodes(0)), total)
				}
				k := rapid.IntRange(1, 100).Draw(t, "some")
				if want := min(k, total); len(tab.Nodes(k)) != want {
					t.Fatalf("asked %d of %d nodes, got %d", k, total, len(tab.Nodes(k)))
				}
				for p := 101; p <= nextPort; p += 1 + nextPort/40 {
					a := mkNode(self, p, 0).Address()
					if n := tab.ResolveAddr(a); n != findAddr(a) {
						t.Fatalf("address %s resolves to %v, want %v", a, n, findAddr(a))
					}
				}
			},
		})
		if full > 0 {
			c.Label("bucket full")
		}
		if late > 0 {
			c.Label("late answer")
		}
		if full > 0 || late > 0 {
			c.NonTrivial(self, log)
		}
		c.Sample("%v", log)
	})
}

func TestConcurrent(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "two to six goroutines adding, removing, bubbling and looking up overlapping nodes of one or two buckets while pings fail at once: afterwards every node is once in its own bucket, by id and by address; non-trivial: at least two goroutines touch one id or address",
		Quick: 150, Thorough: 3000,
	}, func(t *rapid.T, c *vlib.C) {
		self := genID(t, "self")
		var wg sync.WaitGroup
		var asked, answered int64
		tab := discovery.VNewTable(self, 1, func(n *discovery.Node, cb func(error)) {
			cb(errors.New("timeout"))
			atomic.AddInt64(&answered, 1)
		})
		workers := rapid.IntRange(2, 6).Draw(t, "workers")
		type op struct{ kind, id, port int }
		plans := make([][]op, workers)
		for i := range plans {
			n := rapid.IntRange(5, 60).Draw(t, "ops")
			for j := 0; j < n; j++ {
				plans[i] = append(plans[i], op{rapid.IntRange(0, 7).Draw(t, "kind"), rapid.IntRange(0, 90).Draw(t, "id"), rapid.IntRange(0, 60).Draw(t, "port")})
			}
		}
		start := make(chan struct{})
		for _, plan := range plans {
			wg.Add(1)
			go func(plan []op) {
				defer wg.Done()
				<-start
				for _, o := range plan {
					id := at(self, 256-o.id%2, uint64(o.id))
					switch o.kind {
					case 0:
						tab.Remove(id)
					case 1:
						tab.Bubble(id)
					case 2:
						tab.Neighbors(id, 10)
						tab.Resolve(id)
					default:
						if tab.Add(mkNode(id, 1000+o.port, 0)) != nil {
							atomic.AddInt64(&asked, 1)
						}
					}
				}
			}(plan)
		}
		close(start)
		wg.Wait()
		// checks run in their own goroutines, one for every node returned
		for end := time.Now().Add(20 * time.Second); atomic.LoadInt64(&answered) < atomic.LoadInt64(&asked); time.Sleep(100 * time.Microsecond) {
			if time.Now().After(end) {
				t.Fatalf("%d of %d checks were run", answered, asked)
			}
		}
		ids, addrs := map[vnode.NodeID]bool{}, map[string]bool{}
		for i, b := range tab.Buckets() {
			if len(b) > capacity {
				t.Fatalf("bucket %d holds %d nodes", i, len(b))
			}
			for _, n := range b {
				if ids[n.ID] || addrs[n.Address()] {
					t.Fatalf("node %v is in the table twice (by id or address)", n)
				}
				ids[n.ID], addrs[n.Address()] = true, true
				if bucketOf(self, n.ID) != i || tab.Resolve(n.ID) != n || tab.ResolveAddr(n.Address()) != n {
					t.Fatalf("node %v (bucket %d) does not resolve by id and address", n, i)
				}
			}
		}
		for p := 1000; p <= 1060; p++ {
			if n := tab.ResolveAddr(mkNode(self, p, 0).Address()); n != nil && !ids[n.ID] {
				t.Fatalf("address resolves to %v, which is not in the table", n)
			}
		}
		c.NonTrivial(self, plans)
		c.Sample("%d workers, %d nodes left", workers, len(ids))
	})
}

func TestDistance(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "pairs of ids, often sharing a long prefix: distance against the bit length of their exclusive or, ids at a wanted distance, id text and JSON forms; non-trivial: the ids differ",
		Quick: 5000, Thorough: 100000,
	}, func(t *rapid.T, c *vlib.C) {
		a := genID(t, "a")
		b := genID(t, "b")
		if rapid.Bool().Draw(t, "close") {
			b = at(a, rapid.IntRange(0, 256).Draw(t, "d"), rapid.Uint64().Draw(t, "low"))
		}
		if got := int(vnode.Distance(a, b)); got != dist(a, b) || vnode.Distance(b, a) != vnode.Distance(a, b) {
			t.Fatalf("Distance(%v, %v) = %d, want %d", a, b, got, dist(a, b))
		}
		if a != b {
			c.NonTrivial(a, b)
		}
		d := rapid.IntRange(0, 300).Draw(t, "want")
		want := min(d, 256)
		if got := dist(a, vnode.RandFromDistance(a, uint(d))); got != want {
			t.Fatalf("RandFromDistance(%v, %d) is at distance %d", a, d, got)
		}
		if back, err := vnode.Hex2NodeID(a.String()); err != nil || back != a {
			t.Fatalf("text form of %v parses to %v, %v", a, back, err)
		}
		js, err := json.Marshal(a)
		var x vnode.NodeID
		if err != nil || json.Unmarshal(js, &x) != nil || x != a {
			t.Fatalf("JSON form of %v gives %v, %v", a, x, err)
		}
		if a.IsZero() != (a == vnode.ZERO) {
			t.Fatalf("IsZero(%v)", a)
		}
		cut := rapid.IntRange(0, 40).Draw(t, "cut")
		if cut != 32 {
			if _, err := vnode.Bytes2NodeID(make([]byte, cut)); err == nil {
				t.Fatalf("id of %d bytes accepted", cut)
			}
		}
		c.Sample("%v %v", a, b)
	})
}

func genEndpoint(t *rapid.T) vnode.EndPoint {
	port := rapid.OneOf(rapid.IntRange(0, 65535), rapid.Just(vnode.DefaultPort), rapid.IntRange(8480, 8490), rapid.SampledFrom([]int{0, 255, 256, 65535})).Draw(t, "port")
	switch rapid.IntRange(0, 2).Draw(t, "host") {
	case 0:
		return vnode.EndPoint{Host: gens.Fixed(4).Draw(t, "ip4"), Port: port, Typ: vnode.HostIPv4}
	case 1:
		ip := gens.Fixed(16).Draw(t, "ip6")
		if net.IP(ip).To4() != nil {
			ip[0] = 0x20
		}
		return vnode.EndPoint{Host: ip, Port: port, Typ: vnode.HostIPv6}
	default:
		h := rapid.StringMatching(`[a-z][a-z0-9-]{0,20}(\.[a-z][a-z0-9]{0,15}){1,2}`).Draw(t, "domain")
		return vnode.EndPoint{Host: []byte(h), Port: port, Typ: vnode.HostDomain}
	}
}

func TestEndpoint(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "IPv4, IPv6 and domain endpoints and nodes with default and other ports: text, JSON and binary forms give back the value, the binary form has the stated layout, arbitrary bytes and text never panic and what they decode to encodes back; non-trivial: not the default port",
		Quick: 4000, Thorough: 80000,
	}, func(t *rapid.T, c *vlib.C) {
		e := genEndpoint(t)
		if e.Port != vnode.DefaultPort {
			c.NonTrivial(e.String())
		}
		got, err := vnode.ParseEndPoint(e.String())
		if err != nil || !got.Equal(&e) {
			t.Fatalf("text %q parses to %v, %v; made from %v", e.String(), got, err, e)
		}
		if e.Port == vnode.DefaultPort {
			if got, err = vnode.ParseEndPoint(e.Hostname()); err != nil || !got.Equal(&e) {
				t.Fatalf("text %q parses to %v, %v", e.Hostname(), got, err)
			}
		}
		js, err := json.Marshal(e)
		var x vnode.EndPoint
		if err != nil || json.Unmarshal(js, &x) != nil || !x.Equal(&e) {
			t.Fatalf("JSON %s gives %v (%v)", js, x, err)
		}
		buf, err := e.Serialize()
		if err != nil || len(buf) != e.Length() {
			t.Fatalf("serialize %v: %x, %v", e, buf, err)
		}
		meta := byte(len(e.Host) << 2)
		want := append([]byte{0}, e.Host...)
		if e.Typ == vnode.HostDomain {
			meta |= 2
		}
		if e.Port != vnode.DefaultPort {
			meta |= 1
			want = append(want, byte(e.Port>>8), byte(e.Port))
		}
		want[0] = meta
		if !bytes.Equal(buf, want) {
			t.Fatalf("binary form of %v is %x, want %x", e, buf, want)
		}
		var y vnode.EndPoint
		if err := y.Deserialize(buf); err != nil || !y.Equal(&e) {
			t.Fatalf("binary %x gives %v, %v", buf, y, err)
		}
		n := &vnode.Node{ID: genID(t, "id"), EndPoint: e, Net: rapid.IntRange(0, 127).Draw(t, "net"), Ext: gens.Bytes(20).Draw(t, "ext")}
		nb, err := n.Serialize()
		m := new(vnode.Node)
		if err != nil || m.Deserialize(nb) != nil || !m.Equal(n) {
			t.Fatalf("node %v with ext %x becomes %v with ext %x (%v)", n, n.Ext, m, m.Ext, err)
		}
		for _, pre := range []string{"", "vnode://"} {
			p, err := vnode.ParseNode(pre + n.String())
			if err != nil || p.ID != n.ID || p.Net != n.Net || !p.EndPoint.Equal(&n.EndPoint) {
				t.Fatalf("node text %q parses to %v, %v", pre+n.String(), p, err)
			}
		}
		raw := gens.Mutate(t, buf)
		var z vnode.EndPoint
		if p := vlib.Catch(func() { err = z.Deserialize(raw) }); p != nil {
			t.Fatalf("decoding %x panicked: %v", raw, p)
		}
		if err == nil {
			if zb, err := z.Serialize(); err != nil || len(zb) > len(raw)+3 {
				t.Fatalf("decoded %x to %v, which encodes to %x, %v", raw, z, zb, err)
			}
		}
		for _, cut := range []int{0, len(buf) - 1, len(buf) / 2} {
			if cut < len(buf) {
				var w vnode.EndPoint
				if err := w.Deserialize(buf[:cut]); err == nil {
					t.Fatalf("truncated endpoint %x of %x accepted as %v", buf[:cut], buf, w)
				}
			}
		}
		badNode, badText, badJS := gens.Mutate(t, nb), string(gens.Mutate(t, []byte(n.String()))), gens.Mutate(t, js)
		badEnd := strings.Repeat(":", rapid.IntRange(0, 3).Draw(t, "c")) + string(gens.Bytes(5).Draw(t, "s"))
		for _, f := range []func(){
			func() { new(vnode.Node).Deserialize(badNode) },
			func() { vnode.ParseNode(badText) },
			func() { vnode.ParseEndPoint(badEnd) },
			func() { json.Unmarshal(badJS, &x) },
		} {
			if p := vlib.Catch(f); p != nil {
				t.Fatalf("parsing malformed input panicked: %v", p)
			}
		}
		c.Sample("%v", n)
	})
}
