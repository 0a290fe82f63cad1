// Package c24: what peers send: frames, messages, handshakes, queries and
// discovery packets, honest, altered and arbitrary.
package c24

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/big"
	stdnet "net"
	"reflect"
	"runtime"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/golang/snappy"
	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/vitepb"
	"github.com/vitelabs/go-vite/v2/crypto"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/net"
	"github.com/vitelabs/go-vite/v2/net/discovery"
	"github.com/vitelabs/go-vite/v2/net/vnode"
	"verif/gens"
	"verif/vlib"
)

const maxPayload = 1<<24 - 1
const wait = 20 * time.Second

// memory runs f and returns the bytes it allocated.
func memory(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// bufConn is a connection whose input is given and whose output is kept.
type bufConn struct {
	in  io.Reader
	out bytes.Buffer
}

func (c *bufConn) Read(b []byte) (int, error)         { return c.in.Read(b) }
func (c *bufConn) Write(b []byte) (int, error)        { return c.out.Write(b) }
func (c *bufConn) Close() error                       { return nil }
func (c *bufConn) LocalAddr() stdnet.Addr             { return &stdnet.TCPAddr{} }
func (c *bufConn) RemoteAddr() stdnet.Addr            { return &stdnet.TCPAddr{} }
func (c *bufConn) SetDeadline(t time.Time) error      { return nil }
func (c *bufConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *bufConn) SetWriteDeadline(t time.Time) error { return nil }

// short delivers a stream in the given piece sizes.
type short struct {
	b     []byte
	sizes []int
	i     int
}

func (s *short) Read(b []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := s.sizes[s.i%len(s.sizes)]
	s.i++
	if n > len(b) {
		n = len(b)
	}
	if n > len(s.b) {
		n = len(s.b)
	}
	copy(b, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}

func genPayload(t *rapid.T) []byte {
	switch rapid.IntRange(0, 5).Draw(t, "payload") {
	case 0:
		return nil
	case 1:
		return bytes.Repeat([]byte{rapid.Byte().Draw(t, "fill")}, rapid.SampledFrom([]int{1, 99, 100, 101, 255, 256, 257, 65535, 65536, 65537}).Draw(t, "len"))
	case 2: // repetitive
		p := gens.Bytes(8).Draw(t, "unit")
		return bytes.Repeat(p, rapid.IntRange(1, 500).Draw(t, "times"))
	default:
		return gens.Bytes(400).Draw(t, "bytes")
	}
}

var ids = rapid.OneOf(rapid.SampledFrom([]uint32{0, 1, 255, 256, 257, 65535, 65536, 65537, 1 << 24, 1<<32 - 1}), rapid.Uint32())

func TestFrames(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "sequences of messages (ids and payload lengths around every size boundary, some over the limit) written by one transport and read by another in generated piece sizes: the same messages in the same order, over-long ones refused without harming the others; non-trivial: at least two messages arrived, one of them non-empty",
		Quick: 1500, Thorough: 40000,
	}, func(t *rapid.T, c *vlib.C) {
		w := &bufConn{}
		wt := net.NewTransport(w, rapid.SampledFrom([]int{0, 1, 100, 1000, 1 << 30}).Draw(t, "compress from"), time.Second, time.Second)
		var sent []net.Msg
		nonEmpty := false
		for i, n := 0, rapid.IntRange(1, 6).Draw(t, "n"); i < n; i++ {
			m := net.Msg{Code: rapid.Byte().Draw(t, "code"), Id: ids.Draw(t, "id"), Payload: genPayload(t)}
			switch rapid.IntRange(0, 200).Draw(t, "big") {
			case 131:
				m.Payload = make([]byte, maxPayload+rapid.IntRange(1, 3).Draw(t, "over"))
				if rapid.Bool().Draw(t, "random") {
					x := uint32(i)
					for j := range m.Payload {
						x = x*1664525 + 1013904223
						m.Payload[j] = byte(x >> 24)
					}
				}
				c.Label("too large")
				var err error
				before := w.out.Len()
				if p := vlib.Catch(func() { err = wt.WriteMsg(m) }); p != nil {
					t.Fatalf("writing %d bytes panicked: %v", len(m.Payload), p)
				}
				if err == nil || w.out.Len() != before {
					t.Fatalf("a payload of %d bytes was written (error %v, %d bytes sent)", len(m.Payload), err, w.out.Len()-before)
				}
				continue
			case 157:
				m.Payload = make([]byte, maxPayload-rapid.IntRange(0, 1).Draw(t, "under"))
				c.Label("largest")
			}
			cp := append([]byte{}, m.Payload...)
			if err := wt.WriteMsg(m); err != nil {
				t.Fatalf("write: %v", err)
			}
			if !bytes.Equal(cp, m.Payload) {
				t.Fatalf("WriteMsg changed the payload of its caller")
			}
			nonEmpty = nonEmpty || len(cp) > 0
			sent = append(sent, m)
		}
		if len(sent) > 1 && nonEmpty {
			c.NonTrivial(w.out.Len(), w.out.Bytes()[:min(w.out.Len(), 64)], len(sent))
		}
		sizes := rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 7, 1000, 1 << 20}), 1, 4).Draw(t, "pieces")
		if w.out.Len() > 1<<20 {
			sizes = append(sizes, 1<<20, 1<<20)
		}
		r := &bufConn{in: &short{b: w.out.Bytes(), sizes: sizes}}
		rt := net.NewTransport(r, 100, time.Second, time.Second)
		for i, m := range sent {
			got, err := rt.ReadMsg()
			if err != nil {
				t.Fatalf("message %d of %d: %v", i, len(sent), err)
			}
			if got.Code != m.Code || got.Id != m.Id || !bytes.Equal(got.Payload, m.Payload) {
				t.Fatalf("message %d: sent code %d id %d %d bytes, got code %d id %d %d bytes", i, m.Code, m.Id, len(m.Payload), got.Code, got.Id, len(got.Payload))
			}
		}
		if m, err := rt.ReadMsg(); err == nil {
			t.Fatalf("one more message: %+v", m)
		}
	})
}

func TestFrameBytes(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "arbitrary, truncated and altered byte streams read as messages (among them compressed payloads that announce up to 4 GB): messages or an error, no panic, at most a few payloads of memory; non-trivial: a stream that reaches a payload",
		Quick: 2500, Thorough: 80000,
	}, func(t *rapid.T, c *vlib.C) {
		var raw []byte
		switch rapid.IntRange(0, 3).Draw(t, "kind") {
		case 0:
			raw = gens.Bytes(60).Draw(t, "raw")
		case 1, 2:
			w := &bufConn{}
			wt := net.NewTransport(w, rapid.SampledFrom([]int{0, 100}).Draw(t, "compress from"), time.Second, time.Second)
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "n"); i < n; i++ {
				wt.WriteMsg(net.Msg{Code: 1, Id: ids.Draw(t, "id"), Payload: genPayload(t)})
			}
			raw = gens.Mutate(t, append([]byte{}, w.out.Bytes()...))
			c.NonTrivial(raw)
		default:
			// a compressed frame with a generated header of the compressed data
			size := rapid.OneOf(rapid.Uint64Range(0, 1<<33), rapid.SampledFrom([]uint64{maxPayload, maxPayload + 1, 1 << 31, 1<<32 - 1, 1 << 32})).Draw(t, "announced")
			var h [10]byte
			z := append(append([]byte{}, h[:binary.PutUvarint(h[:], size)]...), gens.Bytes(30).Draw(t, "rest")...)
			if rapid.IntRange(0, 40).Draw(t, "bomb") == 29 {
				z = snappy.Encode(nil, make([]byte, rapid.SampledFrom([]int{maxPayload, maxPayload + 1, 1 << 26}).Draw(t, "zeros")))
				c.Label("bomb")
			}
			raw = []byte{3<<4 | 8, 5, byte(len(z) >> 16), byte(len(z) >> 8), byte(len(z))}
			raw = append(raw, z...)
			c.NonTrivial(size, len(z), raw[:min(len(raw), 40)])
		}
		rt := net.NewTransport(&bufConn{in: bytes.NewReader(raw)}, 100, time.Second, time.Second)
		for i := 0; i < 10; i++ {
			var m net.Msg
			var err error
			var p interface{}
			mem := memory(func() { p = vlib.Catch(func() { m, err = rt.ReadMsg() }) })
			if p != nil {
				t.Fatalf("reading %x panicked: %v", raw[:min(len(raw), 100)], p)
			}
			if mem > 4*maxPayload+1<<20 {
				t.Fatalf("reading %x allocated %d bytes", raw[:min(len(raw), 100)], mem)
			}
			if err != nil {
				c.Label("error")
				return
			}
			if len(m.Payload) > maxPayload {
				t.Fatalf("a message of %d bytes was let through", len(m.Payload))
			}
			c.Label("message")
		}
	})
}

// msg is any message with both directions.
type msg interface {
	Serialize() ([]byte, error)
	Deserialize([]byte) error
}

func genHH(t *rapid.T) ledger.HashHeight {
	return ledger.HashHeight{Hash: gens.Hash().Draw(t, "hash"), Height: gens.Uint64().Draw(t, "height")}
}

func genNodeID(t *rapid.T, name string) (id vnode.NodeID) {
	copy(id[:], gens.Fixed(32).Draw(t, name))
	return
}

func genMsg(t *rapid.T) (m msg, empty func() msg, name string) {
	switch k := rapid.IntRange(0, 11).Draw(t, "type"); k {
	case 0:
		return &net.GetSnapshotBlocks{From: genHH(t), Count: gens.Uint64().Draw(t, "count"), Forward: rapid.Bool().Draw(t, "forward")}, func() msg { return new(net.GetSnapshotBlocks) }, "GetSnapshotBlocks"
	case 1:
		return &net.GetAccountBlocks{Address: gens.Address().Draw(t, "address"), From: genHH(t), Count: gens.Uint64().Draw(t, "count"), Forward: rapid.Bool().Draw(t, "forward")}, func() msg { return new(net.GetAccountBlocks) }, "GetAccountBlocks"
	case 2:
		x := &net.SnapshotBlocks{Blocks: []*ledger.SnapshotBlock{}}
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "n"); i < n; i++ {
			x.Blocks = append(x.Blocks, gens.SnapshotBlock().Draw(t, "block"))
		}
		return x, func() msg { return new(net.SnapshotBlocks) }, "SnapshotBlocks"
	case 3:
		x := &net.AccountBlocks{Blocks: []*ledger.AccountBlock{}}
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "n"); i < n; i++ {
			x.Blocks = append(x.Blocks, gens.AccountBlock(1).Draw(t, "block"))
		}
		return x, func() msg { return new(net.AccountBlocks) }, "AccountBlocks"
	case 4:
		return &net.NewSnapshotBlock{Block: gens.SnapshotBlock().Draw(t, "block"), TTL: rapid.Int32().Draw(t, "ttl")}, func() msg { return new(net.NewSnapshotBlock) }, "NewSnapshotBlock"
	case 5:
		return &net.NewAccountBlock{Block: gens.AccountBlock(1).Draw(t, "block"), TTL: rapid.Int32().Draw(t, "ttl")}, func() msg { return new(net.NewAccountBlock) }, "NewAccountBlock"
	case 6:
		x := &net.HashHeightPointList{Points: []*net.HashHeightPoint{}}
		for i, n := 0, rapid.IntRange(0, 5).Draw(t, "n"); i < n; i++ {
			x.Points = append(x.Points, &net.HashHeightPoint{HashHeight: genHH(t), Size: gens.Uint64().Draw(t, "size")})
		}
		return x, func() msg { return new(net.HashHeightPointList) }, "HashHeightPointList"
	case 7:
		x := &net.GetHashHeightList{Step: gens.Uint64().Draw(t, "step"), To: gens.Uint64().Draw(t, "to")}
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "n"); i < n; i++ {
			h := genHH(t)
			x.From = append(x.From, &h)
		}
		return x, func() msg { return new(net.GetHashHeightList) }, "GetHashHeightList"
	case 8:
		return &net.HandshakeMsg{
			Version: rapid.Int64().Draw(t, "version"), NetID: rapid.Int64().Draw(t, "net"), Name: rapid.String().Draw(t, "name"), ID: genNodeID(t, "id"),
			Timestamp: rapid.Int64().Draw(t, "time"), Height: gens.Uint64().Draw(t, "height"), Head: gens.Hash().Draw(t, "head"), Genesis: gens.Hash().Draw(t, "genesis"),
			Key: gens.Bytes(40).Draw(t, "key"), Token: gens.Bytes(70).Draw(t, "token"), FileAddress: gens.Bytes(20).Draw(t, "file"), PublicAddress: gens.Bytes(20).Draw(t, "public"),
		}, func() msg { return new(net.HandshakeMsg) }, "HandshakeMsg"
	default:
		k -= 9
		x := &net.VSyncMsg{Kind: k}
		switch k {
		case 0:
			x.ID, x.Key, x.Token, x.Time = genNodeID(t, "id"), gens.Bytes(40).Draw(t, "key"), gens.Bytes(70).Draw(t, "token"), rapid.Int64().Draw(t, "time")
		case 2:
			x.Size = gens.Uint64().Draw(t, "size")
			fallthrough
		default:
			x.From, x.To, x.Prev, x.End = gens.Uint64().Draw(t, "from"), gens.Uint64().Draw(t, "to"), gens.Hash().Draw(t, "prev"), gens.Hash().Draw(t, "end")
		}
		return x, func() msg { return &net.VSyncMsg{Kind: k} }, fmt.Sprintf("sync %d", k)
	}
}

// same compares messages field by field; blocks by their own encoding, empty and nil slices alike.
func same(a, b reflect.Value) string {
	if a.Type() != b.Type() {
		return fmt.Sprintf("types %s, %s", a.Type(), b.Type())
	}
	switch x := a.Interface().(type) {
	case *ledger.AccountBlock:
		p, _ := proto.Marshal(x.Proto())
		q, _ := proto.Marshal(b.Interface().(*ledger.AccountBlock).Proto())
		if !bytes.Equal(p, q) {
			return "account block differs"
		}
		return ""
	case *ledger.SnapshotBlock:
		p, _ := proto.Marshal(x.Proto())
		q, _ := proto.Marshal(b.Interface().(*ledger.SnapshotBlock).Proto())
		if !bytes.Equal(p, q) {
			return "snapshot block differs"
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return "one is nil"
		}
		if a.IsNil() {
			return ""
		}
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if s := same(a.Field(i), b.Field(i)); s != "" {
				return a.Type().Field(i).Name + ": " + s
			}
		}
		return ""
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%d and %d elements", a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if s := same(a.Index(i), b.Index(i)); s != "" {
				return s
			}
		}
		return ""
	}
	if !reflect.DeepEqual(a.Interface(), b.Interface()) {
		return fmt.Sprintf("%v and %v", a.Interface(), b.Interface())
	}
	return ""
}

func TestMessages(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "every message type between nodes: decoding what was encoded gives every field back; decoding altered or arbitrary bytes gives an error or a message that survives another round trip, never a panic; non-trivial: every case, by its bytes",
		Quick: 6000, Thorough: 150000,
	}, func(t *rapid.T, c *vlib.C) {
		m, empty, name := genMsg(t)
		c.Label(name)
		raw, err := m.Serialize()
		if err != nil {
			if h, ok := m.(*net.HandshakeMsg); ok && !validUTF8(h.Name) {
				return
			}
			t.Fatalf("%s: %v", name, err)
		}
		c.NonTrivial(name, raw)
		got := empty()
		if err = got.Deserialize(raw); err != nil {
			t.Fatalf("%s does not decode: %v\n%x", name, err, raw)
		}
		if s := same(reflect.ValueOf(m), reflect.ValueOf(got)); s != "" {
			t.Fatalf("%s changed on the way: %s\n%x", name, s, raw)
		}
		bad := gens.Mutate(t, append([]byte{}, raw...))
		if rapid.IntRange(0, 5).Draw(t, "arbitrary") == 0 {
			bad = gens.Bytes(60).Draw(t, "raw")
		}
		got = empty()
		if p := vlib.Catch(func() { err = got.Deserialize(bad) }); p != nil {
			t.Fatalf("decoding %s from %x panicked: %v", name, bad, p)
		}
		if err != nil {
			c.Label("rejected")
			return
		}
		var again []byte
		if p := vlib.Catch(func() { again, err = got.Serialize() }); p != nil {
			t.Fatalf("%s decoded from %x panics when encoded: %v", name, bad, p)
		}
		if err != nil {
			t.Fatalf("%s decoded from %x cannot be encoded: %v", name, bad, err)
		}
		third := empty()
		if err = third.Deserialize(again); err != nil {
			t.Fatalf("%s decoded from %x, encoded to %x: %v", name, bad, again, err)
		}
		if s := same(reflect.ValueOf(got), reflect.ValueOf(third)); s != "" {
			t.Fatalf("%s decoded from %x changes in another round trip: %s", name, bad, s)
		}
	})
}

func validUTF8(s string) bool { return bytes.Equal([]byte(string([]rune(s))), []byte(s)) }

func TestException(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "exception messages round-trip, arbitrary ones are read or refused; non-trivial: every case",
		Quick: 300, Thorough: 2000,
	}, func(t *rapid.T, c *vlib.C) {
		e := net.Exception(rapid.Byte().Draw(t, "code"))
		raw, _ := e.Serialize()
		var g net.Exception
		if err := g.Deserialize(raw); err != nil || g != e {
			t.Fatalf("%v became %v, %v", e, g, err)
		}
		bad := gens.Bytes(3).Draw(t, "raw")
		c.NonTrivial(raw, bad)
		var err error
		if p := vlib.Catch(func() { err = g.Deserialize(bad) }); p != nil {
			t.Fatalf("exception from %x panicked: %v", bad, p)
		}
		if len(bad) == 0 && err == nil {
			t.Fatalf("an empty exception was accepted")
		}
		_, _ = e.Error(), net.PeerError(e).Error()
	})
}

func genKey(t *rapid.T, name string) ed25519.PrivateKey {
	var seed [32]byte
	copy(seed[:], rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, name))
	_, k, err := ed25519.GenerateKeyFromD(seed)
	if err != nil {
		panic(err)
	}
	return k
}

func nodeID(k ed25519.PrivateKey) vnode.NodeID {
	id, err := vnode.Bytes2NodeID(k.PubByte())
	if err != nil {
		panic(err)
	}
	return id
}

// token is what a peer proves its identity with.
func token(ts int64, priv ed25519.PrivateKey, other vnode.NodeID, mine ed25519.PrivateKey) []byte {
	secret, err := crypto.X25519ComputeSecret(priv.ToX25519Sk(), ed25519.PublicKey(other.Bytes()).ToX25519Pk())
	if err != nil {
		panic(err)
	}
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(ts))
	tok := crypto.Hash256(b[:])
	for i := range tok {
		tok[i] ^= secret[i]
	}
	if mine != nil {
		tok = ed25519.Sign(mine, tok)
	}
	return tok
}

// lazy is a pipe end on which an empty write needs no reader, as on a socket.
type lazy struct{ stdnet.Conn }

func (l lazy) Write(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	return l.Conn.Write(b)
}

func pipe() (a, b stdnet.Conn) {
	x, y := stdnet.Pipe()
	return lazy{x}, lazy{y}
}

type hsResult struct {
	their *net.HandshakeMsg
	sup   bool
	err   error
	panic interface{}
}

func TestHandshake(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "two nodes with generated keys, networks and genesis blocks shake hands over a pipe: both learn the other's identity, or both fail if network or genesis differ; against a hand-made peer an altered timestamp, identity, key, token, code or arbitrary bytes are refused without a panic; non-trivial: two different nodes",
		Quick: 500, Thorough: 12000,
	}, func(t *rapid.T, c *vlib.C) {
		ka, kb := genKey(t, "key a"), genKey(t, "key b")
		if bytes.Equal(ka, kb) {
			return
		}
		maybe := func(name string) ed25519.PrivateKey {
			if rapid.Bool().Draw(t, name) {
				return genKey(t, name)
			}
			return nil
		}
		ma, mb := maybe("miner a"), maybe("miner b")
		netA, netB := rapid.IntRange(1, 3).Draw(t, "net"), 0
		netB = netA
		if rapid.IntRange(0, 4).Draw(t, "othernet") == 0 {
			netB++
		}
		ga := gens.Hash().Draw(t, "genesis")
		gb := ga
		if rapid.IntRange(0, 4).Draw(t, "othergenesis") == 0 {
			gb[rapid.IntRange(0, 31).Draw(t, "byte")] ^= 1
		}
		headB, heightB := gens.Hash().Draw(t, "head"), gens.Uint64().Draw(t, "height")
		fileB, pubB := gens.Bytes(10).Draw(t, "file"), gens.Bytes(10).Draw(t, "public")
		nameB := rapid.StringMatching(`[a-z]{0,8}`).Draw(t, "name")
		a := net.VNewHandshaker(netA, "a", ka, ma, ga, types.Hash{1}, 7, []byte{1, 2}, nil)
		b := net.VNewHandshaker(netB, nameB, kb, mb, gb, headB, heightB, fileB, pubB)
		c.NonTrivial(ka[:8], kb[:8], netA, netB, ga == gb, heightB)
		pa, pb := pipe()
		ca, cb := make(chan hsResult, 1), make(chan hsResult, 1)
		go func() {
			var r hsResult
			r.panic = vlib.Catch(func() { _, r.their, r.sup, r.err = a.ReceiveHandshake(pa) })
			if r.panic != nil || r.err != nil {
				pa.Close()
			}
			ca <- r
		}()
		altered := rapid.IntRange(0, 2).Draw(t, "honest") == 0
		if !altered {
			go func() {
				var r hsResult
				r.panic = vlib.Catch(func() { _, r.their, r.sup, r.err = b.InitiateHandshake(pb, nodeID(ka)) })
				pb.Close()
				cb <- r
			}()
			ra, rb := <-ca, <-cb
			pa.Close()
			if ra.panic != nil || rb.panic != nil {
				t.Fatalf("handshake panicked: %v %v", ra.panic, rb.panic)
			}
			if netA != netB || ga != gb {
				c.Label("other network")
				if ra.err == nil || rb.err == nil {
					t.Fatalf("nodes of different networks (%d %d, genesis equal %v) shook hands: %v %v", netA, netB, ga == gb, ra.err, rb.err)
				}
				return
			}
			c.Label("accepted")
			if ra.err != nil || rb.err != nil {
				t.Fatalf("honest handshake failed: %v %v", ra.err, rb.err)
			}
			if ra.their.ID != nodeID(kb) || rb.their.ID != nodeID(ka) {
				t.Fatalf("a learnt %x (is %x), b learnt %x (is %x)", ra.their.ID, nodeID(kb), rb.their.ID, nodeID(ka))
			}
			if ra.sup != (mb != nil) || rb.sup != (ma != nil) || (mb != nil && !bytes.Equal(ra.their.Key, mb.PubByte())) {
				t.Fatalf("producer keys not as given: %v %v", ra.sup, rb.sup)
			}
			x := ra.their
			if x.Name != nameB || x.Height != heightB || x.Head != headB || !bytes.Equal(x.FileAddress, fileB) || !bytes.Equal(x.PublicAddress, pubB) || x.Genesis != gb || x.NetID != int64(netB) {
				t.Fatalf("a learnt %+v", x)
			}
			return
		}
		// a hand-made peer
		m := &net.HandshakeMsg{NetID: int64(netA), Genesis: ga, Name: nameB, ID: nodeID(kb), Timestamp: rapid.Int64().Draw(t, "time"), Height: heightB, Head: headB}
		m.Token = token(m.Timestamp, kb, nodeID(ka), mb)
		if mb != nil {
			m.Key = mb.PubByte()
		}
		code := net.CodeHandshake
		ok := false
		what := rapid.IntRange(0, 8).Draw(t, "alteration")
		var raw []byte
		switch what {
		case 0:
			ok = true
			c.Label("hand-made")
		case 1:
			m.Timestamp ^= 1 << uint(rapid.IntRange(0, 63).Draw(t, "bit"))
		case 2:
			m.ID = nodeID(genKey(t, "other"))
			ok = m.ID == nodeID(kb)
		case 3:
			m.Token = gens.Mutate(t, append([]byte{}, m.Token...))
			ok = bytes.Equal(m.Token, token(m.Timestamp, kb, nodeID(ka), mb))
			if len(m.Token) == 64 && mb != nil {
				// an ed25519 signature has one canonical form; others are not produced by Mutate's edits
			}
		case 4:
			old := m.Key
			m.Key = gens.Bytes(40).Draw(t, "key")
			ok = bytes.Equal(old, m.Key)
		case 5: // signed by somebody else than the key says
			m.Key = genKey(t, "producer").PubByte()
			ok = bytes.Equal(m.Key, func() []byte {
				if mb == nil {
					return nil
				}
				return mb.PubByte()
			}())
		case 6:
			code = rapid.Byte().Draw(t, "code")
			ok = code == net.CodeHandshake
		case 7:
			raw = gens.Bytes(80).Draw(t, "raw")
		case 8:
			m.NetID++
		}
		if raw == nil {
			raw, _ = m.Serialize()
		} else {
			ok = false
		}
		tr := net.NewTransport(pb, 1<<20, wait, wait)
		answer := make(chan error, 1)
		go func() {
			if err := tr.WriteMsg(net.Msg{Code: code, Id: 9, Payload: raw}); err != nil {
				answer <- err
				return
			}
			msg, err := tr.ReadMsg()
			if err == nil && (msg.Code != net.CodeHandshake || msg.Id != 9) {
				err = fmt.Errorf("answered with code %d id %d", msg.Code, msg.Id)
			}
			answer <- err
		}()
		ra := <-ca
		pa.Close()
		err := <-answer
		pb.Close()
		if ra.panic != nil {
			t.Fatalf("handshake message code %d %x panicked: %v", code, raw, ra.panic)
		}
		if (ra.err == nil) != ok || ok && err != nil {
			t.Fatalf("alteration %d: handshake gave %v (answer %v), want accepted = %v\n%+v", what, ra.err, err, ok, m)
		}
		c.Label(fmt.Sprintf("altered accepted=%v", ok))
	})
}

func TestSyncHandshake(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "the handshake of a sync connection: accepted exactly from a connected peer that proves its identity, refused without a panic for altered or arbitrary messages; non-trivial: two different nodes",
		Quick: 400, Thorough: 10000,
	}, func(t *rapid.T, c *vlib.C) {
		ka, kb := genKey(t, "key a"), genKey(t, "key b")
		if bytes.Equal(ka, kb) {
			return
		}
		c.NonTrivial(ka[:8], kb[:8])
		var mb ed25519.PrivateKey
		if rapid.Bool().Draw(t, "miner") {
			mb = genKey(t, "miner key")
		}
		var peers []vnode.NodeID
		known := rapid.IntRange(0, 3).Draw(t, "known") != 0
		if known {
			peers = append(peers, nodeID(kb))
		}
		if rapid.Bool().Draw(t, "more") {
			peers = append(peers, nodeID(genKey(t, "third")))
		}
		pa, pb := pipe()
		type res struct {
			id    vnode.NodeID
			err   error
			panic interface{}
		}
		ca := make(chan res, 1)
		go func() {
			var r res
			r.panic = vlib.Catch(func() { r.id, r.err = net.VSyncReceive(pa, ka, peers) })
			pa.Close()
			ca <- r
		}()
		if rapid.Bool().Draw(t, "honest") {
			err := net.VSyncInitiate(pb, kb, mb, nodeID(ka))
			pb.Close()
			r := <-ca
			if r.panic != nil {
				t.Fatalf("panic %v", r.panic)
			}
			if (r.err == nil) != known || (err == nil) != known {
				t.Fatalf("sync handshake with a peer (connected %v): %v %v", known, r.err, err)
			}
			if known && r.id != nodeID(kb) {
				t.Fatalf("learnt %x, is %x", r.id, nodeID(kb))
			}
			return
		}
		m := net.VSyncMsg{ID: nodeID(kb), Time: rapid.Int64().Draw(t, "time")}
		m.Token = token(m.Time, kb, nodeID(ka), mb)
		if mb != nil {
			m.Key = mb.PubByte()
		}
		code, ok := net.CodeSyncHandshake, known
		what := rapid.IntRange(0, 6).Draw(t, "alteration")
		var raw []byte
		switch what {
		case 0:
		case 1:
			m.Time ^= 1 << uint(rapid.IntRange(0, 63).Draw(t, "bit"))
			ok = false
		case 2: // pretends to be another connected peer
			m.ID = nodeID(genKey(t, "other"))
			ok = false
		case 3:
			o := m.Token
			m.Token = gens.Mutate(t, append([]byte{}, m.Token...))
			ok = ok && bytes.Equal(o, m.Token)
		case 4:
			o := m.Key
			m.Key = gens.Bytes(40).Draw(t, "key")
			ok = ok && bytes.Equal(o, m.Key)
		case 5:
			code = rapid.Byte().Draw(t, "code")
			ok = ok && code == net.CodeSyncHandshake
		case 6:
			raw, ok = gens.Bytes(80).Draw(t, "raw"), false
		}
		if what == 2 && m.ID == nodeID(kb) {
			return
		}
		if raw == nil {
			raw, _ = m.Serialize()
		}
		tr := net.NewTransport(pb, 1<<20, wait, wait)
		tr.WriteMsg(net.Msg{Code: code, Payload: raw})
		ans, aerr := tr.ReadMsg()
		pb.Close()
		r := <-ca
		if r.panic != nil {
			t.Fatalf("sync handshake %x panicked: %v", raw, r.panic)
		}
		if (r.err == nil) != ok || (aerr == nil && ans.Code == net.CodeSyncHandshakeOK) != ok {
			t.Fatalf("alteration %d: %v, answer code %d (%v); want accepted %v", what, r.err, ans.Code, aerr, ok)
		}
		c.Label(fmt.Sprintf("accepted=%v", ok))
	})
}

// stub is a chain of numbered blocks.
type stub struct {
	net.Chain
	snaps []*ledger.SnapshotBlock // heights 1..
	accs  map[types.Address][]*ledger.AccountBlock
}

func (s *stub) GetSnapshotBlockByHeight(h uint64) (*ledger.SnapshotBlock, error) {
	if h == 0 || h > uint64(len(s.snaps)) {
		return nil, nil
	}
	return s.snaps[h-1], nil
}

func (s *stub) GetSnapshotBlockByHash(x types.Hash) (*ledger.SnapshotBlock, error) {
	for _, b := range s.snaps {
		if b.Hash == x {
			return b, nil
		}
	}
	return nil, nil
}

func (s *stub) GetSnapshotBlocksByHeight(h uint64, higher bool, count uint64) (out []*ledger.SnapshotBlock, err error) {
	for i := uint64(0); i < count && i <= uint64(len(s.snaps))+1; i++ {
		x := h + i
		if !higher {
			x = h - i
		}
		if x >= 1 && x <= uint64(len(s.snaps)) {
			out = append(out, s.snaps[x-1])
		}
	}
	return
}

func (s *stub) GetSnapshotBlocks(x types.Hash, higher bool, count uint64) ([]*ledger.SnapshotBlock, error) {
	b, _ := s.GetSnapshotBlockByHash(x)
	if b == nil {
		return nil, nil
	}
	return s.GetSnapshotBlocksByHeight(b.Height, higher, count)
}

func (s *stub) GetAccountBlockByHeight(a types.Address, h uint64) (*ledger.AccountBlock, error) {
	if h == 0 || h > uint64(len(s.accs[a])) {
		return nil, nil
	}
	return s.accs[a][h-1], nil
}

func (s *stub) GetAccountBlockByHash(x types.Hash) (*ledger.AccountBlock, error) {
	for _, l := range s.accs {
		for _, b := range l {
			if b.Hash == x {
				return b, nil
			}
		}
	}
	return nil, nil
}

func (s *stub) GetAccountBlocksByHeight(a types.Address, h uint64, count uint64) (out []*ledger.AccountBlock, err error) {
	l := s.accs[a]
	low := uint64(1)
	if h > count {
		low = h - count + 1
	}
	for x := min(h, uint64(len(l))); x >= low && x >= 1; x-- {
		out = append(out, l[x-1])
	}
	return
}

func (s *stub) GetAccountBlocks(x types.Hash, count uint64) ([]*ledger.AccountBlock, error) {
	b, _ := s.GetAccountBlockByHash(x)
	if b == nil {
		return nil, nil
	}
	return s.GetAccountBlocksByHeight(b.AccountAddress, b.Height, count)
}

func (s *stub) GetLatestSnapshotBlock() *ledger.SnapshotBlock  { return s.snaps[len(s.snaps)-1] }
func (s *stub) GetGenesisSnapshotBlock() *ledger.SnapshotBlock { return s.snaps[0] }

type reader struct{ n int }

func (r reader) Seg() interfaces.Segment                     { return interfaces.Segment{} }
func (r reader) Size() int                                   { return r.n }
func (r reader) Read([]byte) (int, error)                    { return 0, io.EOF }
func (r reader) Close() error                                { return nil }
func (s *stub) GetSyncCache() interfaces.SyncCache           { return nil }
func (s *stub) GetConfirmedTimes(types.Hash) (uint64, error) { return 0, nil }
func (s *stub) GetLedgerReaderByHeight(a, b uint64) (interfaces.LedgerReader, error) {
	if a == 0 || a > b || b > uint64(len(s.snaps)) {
		return nil, errors.New("no such range")
	}
	return reader{int(b-a+1) * 10}, nil
}

func num(kind byte, h uint64) (x types.Hash) {
	x[0] = kind
	binary.BigEndian.PutUint64(x[1:], h)
	return
}

func TestQueries(t *testing.T) {
	addrs := []types.Address{{1}, {2}}
	vlib.Check(t, vlib.Opts{
		Rule:  "block and hash-list queries of a peer (every start, count and direction, unknown starts, counts up to 2^64-1, altered bytes) against a numbered chain: exactly the requested existing blocks, or that they are missing; no panic and bounded memory; non-trivial: a query that starts at an existing block",
		Quick: 1500, Thorough: 40000,
	}, func(t *rapid.T, c *vlib.C) {
		s := &stub{accs: map[types.Address][]*ledger.AccountBlock{}}
		n := rapid.IntRange(1, 350).Draw(t, "height")
		for h := uint64(1); h <= uint64(n); h++ {
			ti := time.Unix(int64(h), 0)
			s.snaps = append(s.snaps, &ledger.SnapshotBlock{Height: h, Hash: num(1, h), PrevHash: num(1, h-1), Timestamp: &ti})
		}
		for i, a := range addrs {
			k := uint64(rapid.IntRange(1, 250).Draw(t, "blocks"))
			for h := uint64(1); h <= k; h++ {
				s.accs[a] = append(s.accs[a], &ledger.AccountBlock{Height: h, AccountAddress: a, Hash: num(byte(2+i), h), PrevHash: num(byte(2+i), h-1), BlockType: ledger.BlockTypeSendCall, Amount: big.NewInt(1), Fee: big.NewInt(0)})
			}
		}
		q, err := net.VNewQuery(s, vnode.NodeID{1})
		if err != nil {
			t.Fatal(err)
		}
		bigNum := rapid.OneOf(rapid.Uint64Range(0, 360), rapid.SampledFrom([]uint64{99, 100, 101, 200, 201, 1 << 20, 1 << 33, 1 << 40, 1 << 62, 1<<64 - 2, 1<<64 - 1}), rapid.Uint64())
		count := bigNum.Draw(t, "count")
		forward := rapid.Bool().Draw(t, "forward")
		id := rapid.Uint32().Draw(t, "id")
		var m msg
		var code byte
		kind := rapid.IntRange(0, 2).Draw(t, "kind")
		var start uint64 // height of the existing start block, or 0
		var list int     // blocks in the queried chain
		a := addrs[rapid.IntRange(0, 1).Draw(t, "addr")]
		h := bigNum.Draw(t, "start")
		byHash := rapid.Bool().Draw(t, "byhash")
		var from ledger.HashHeight
		switch kind {
		case 0:
			code, list = net.CodeGetSnapshotBlocks, n
			from = ledger.HashHeight{Height: h}
			if byHash {
				from = ledger.HashHeight{Hash: num(1, h)}
			}
			m = &net.GetSnapshotBlocks{From: from, Count: count, Forward: forward}
		case 1:
			code, list = net.CodeGetAccountBlocks, len(s.accs[a])
			x := &net.GetAccountBlocks{From: ledger.HashHeight{Height: h}, Address: a, Count: count, Forward: forward}
			if byHash {
				x.From = ledger.HashHeight{Hash: num(s.accs[a][0].Hash[0], h)}
				if rapid.Bool().Draw(t, "noaddr") {
					x.Address = types.Address{}
				}
			}
			m = x
		default:
			code, list = net.CodeGetHashList, n
			x := &net.GetHashHeightList{Step: bigNum.Draw(t, "step"), To: bigNum.Draw(t, "to")}
			m = x
			// from high to low, the first that exists counts
			x.From = []*ledger.HashHeight{{Hash: num(1, h), Height: h}}
			if rapid.Bool().Draw(t, "second") {
				h2 := rapid.Uint64Range(0, h).Draw(t, "start2")
				x.From = append(x.From, &ledger.HashHeight{Hash: num(1, h2), Height: h2})
				if h > uint64(list) {
					h = h2
				}
			}
		}
		if h >= 1 && h <= uint64(list) {
			start = h
		}
		raw, _ := m.Serialize()
		altered := rapid.IntRange(0, 5).Draw(t, "altered") == 0
		if altered {
			raw = gens.Mutate(t, raw)
		}
		var out []net.Msg
		var p interface{}
		mem := memory(func() {
			p = vlib.Catch(func() { out, err = q.Handle(net.Msg{Code: code, Id: id, Payload: raw}) })
		})
		if p != nil {
			t.Fatalf("%+v (%x) panicked: %v", m, raw, p)
		}
		if mem > 64<<20 {
			t.Fatalf("%+v (%x) allocated %d bytes", m, raw, mem)
		}
		for _, o := range out {
			if o.Id != id {
				t.Fatalf("answer to query %d carries id %d", id, o.Id)
			}
		}
		if altered {
			c.Label("altered")
			return
		}
		if err != nil {
			t.Fatalf("%+v: %v", m, err)
		}
		missing := 0
		got := map[uint64]int{}
		var order []uint64
		var points []*net.HashHeightPoint
		for _, o := range out {
			switch o.Code {
			case net.CodeException:
				missing++
			case net.CodeSnapshotBlocks:
				var b net.SnapshotBlocks
				if err := b.Deserialize(o.Payload); err != nil || kind != 0 {
					t.Fatalf("answer %v", err)
				}
				for _, x := range b.Blocks {
					if x.Hash != num(1, x.Height) {
						t.Fatalf("sent block %d with hash %s", x.Height, x.Hash)
					}
					got[x.Height]++
					order = append(order, x.Height)
				}
			case net.CodeAccountBlocks:
				var b net.AccountBlocks
				if err := b.Deserialize(o.Payload); err != nil || kind != 1 {
					t.Fatalf("answer %v", err)
				}
				for _, x := range b.Blocks {
					if x.AccountAddress != a || x.Hash != num(s.accs[a][0].Hash[0], x.Height) {
						t.Fatalf("asked for %s, sent block %s/%d", a, x.AccountAddress, x.Height)
					}
					got[x.Height]++
				}
			case net.CodeHashList:
				var l net.HashHeightPointList
				if err := l.Deserialize(o.Payload); err != nil || kind != 2 {
					t.Fatalf("answer %v", err)
				}
				points = append(points, l.Points...)
			default:
				t.Fatalf("answer code %d", o.Code)
			}
		}
		if start == 0 {
			c.Label("missing")
			if len(got)+len(points) != 0 || missing != 1 {
				t.Fatalf("%+v: the start does not exist, answered %d blocks, %d points, %d exceptions", m, len(got), len(points), missing)
			}
			return
		}
		c.NonTrivial(kind, start, count, forward, raw)
		if kind == 2 {
			x := m.(*net.GetHashHeightList)
			c.Label("hash list")
			if x.Step == 0 {
				if len(points) != 0 || missing != 1 {
					t.Fatalf("step 0 answered with %d points", len(points))
				}
				return
			}
			// every multiple of step above start, and To, as far as the chain goes
			var want []uint64
			for y := start + 1; y <= x.To && y <= uint64(n); y++ {
				if y%x.Step == 0 || y == x.To || y == start+1 {
					want = append(want, y)
				}
			}
			// the first one is where the next chunk starts: start+1, or a step's multiple at it
			var have []uint64
			for _, p := range points {
				if p.Hash != num(1, p.Height) {
					t.Fatalf("point %d has hash %s", p.Height, p.Hash)
				}
				have = append(have, p.Height)
			}
			if len(want) == 0 {
				if missing != 1 || len(have) != 0 {
					t.Fatalf("%+v from %d: nothing to list, answered %v", x, start, have)
				}
				return
			}
			if x.Step > 1<<62 { // start+step may wrap; only soundness
				for _, y := range have {
					if y <= start || y > x.To || y > uint64(n) {
						t.Fatalf("%+v from %d: answered %v", x, start, have)
					}
				}
				return
			}
			if !reflect.DeepEqual(have, want) {
				t.Fatalf("%+v from %d, chain height %d: answered %v, want %v", x, start, n, have, want)
			}
			lo := want[0]
			for i := 1; i < len(points); i++ {
				if points[i].Size != (points[i].Height-lo+1)*10 {
					t.Fatalf("point %d covers %d..%d, size %d", i, lo, points[i].Height, points[i].Size)
				}
				lo = points[i].Height + 1
			}
			return
		}
		var lo, hi uint64
		if forward {
			lo, hi = start, start+count-1
			if hi < lo { // nothing asked, or more than there are numbers
				c.Label("empty range")
				if len(got) != 0 {
					t.Fatalf("%+v: answered %v", m, got)
				}
				return
			}
		} else {
			lo, hi = 1, start
			if count == 0 {
				lo = start + 1
			} else if start >= count {
				lo = start - count + 1
			}
		}
		c.Label("range")
		for x := uint64(1); x <= uint64(list); x++ {
			want := 0
			if x >= lo && x <= hi {
				want = 1
			}
			if got[x] != want {
				t.Fatalf("%+v (start %d): block %d was sent %d times, want %d", m, start, x, got[x], want)
			}
		}
		for i := 1; i < len(order); i++ {
			if order[i] != order[i-1]+1 {
				t.Fatalf("%+v: snapshot blocks sent as %v", m, order)
			}
		}
	})
}

func TestHeartbeat(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "sequences of full and partial heartbeats (some altered) of a peer: its head and neighbors are what the accepted ones add up to; non-trivial: a partial heartbeat removed a known neighbor",
		Quick: 1500, Thorough: 40000,
	}, func(t *rapid.T, c *vlib.C) {
		q, err := net.VNewQuery(&stub{}, vnode.NodeID{1})
		if err != nil {
			t.Fatal(err)
		}
		known := map[vnode.NodeID]struct{}{}
		removed := false
		var trace []string
		for i, n := 0, rapid.IntRange(1, 6).Draw(t, "n"); i < n; i++ {
			hb := &vitepb.State{Patch: rapid.Bool().Draw(t, "patch"), Height: gens.Uint64().Draw(t, "height")}
			head := gens.Hash().Draw(t, "head")
			hb.Head = head.Bytes()
			next := map[vnode.NodeID]struct{}{}
			if hb.Patch {
				for k := range known {
					next[k] = struct{}{}
				}
			}
			for j, k := 0, rapid.IntRange(0, 5).Draw(t, "peers"); j < k; j++ {
				id := vnode.NodeID{byte(rapid.IntRange(1, 6).Draw(t, "id"))}
				p := &vitepb.State_Peer{ID: id.Bytes()}
				if rapid.IntRange(0, 2).Draw(t, "gone") == 0 {
					p.Status = vitepb.State_Disconnected
					if _, ok := next[id]; ok {
						removed = true
					}
					delete(next, id)
				} else {
					next[id] = struct{}{}
				}
				if rapid.IntRange(0, 6).Draw(t, "badid") == 0 {
					// an invalid id is skipped
					hb.Peers = append(hb.Peers, &vitepb.State_Peer{ID: gens.Bytes(31).Draw(t, "bad")})
				}
				hb.Peers = append(hb.Peers, p)
			}
			raw, _ := proto.Marshal(hb)
			trace = append(trace, hb.String())
			if rapid.IntRange(0, 4).Draw(t, "alter") == 0 {
				bad := gens.Mutate(t, raw)
				if p := vlib.Catch(func() { q.Handle(net.Msg{Code: net.CodeHeartBeat, Payload: bad}) }); p != nil {
					t.Fatalf("heartbeat %x panicked: %v", bad, p)
				}
				// start again from a full one
				hb.Patch, hb.Peers = false, nil
				raw, _ = proto.Marshal(hb)
				next = map[vnode.NodeID]struct{}{}
			}
			if _, err := q.Handle(net.Msg{Code: net.CodeHeartBeat, Payload: raw}); err != nil {
				t.Fatal(err)
			}
			known = next
			gh, gy, gn := q.State()
			if gh != head || gy != hb.Height {
				t.Fatalf("head %s/%d, said %s/%d", gh, gy, head, hb.Height)
			}
			if len(gn) != len(known) || len(gn) > 0 && !reflect.DeepEqual(gn, known) {
				t.Fatalf("after %v: neighbors %v, want %v", trace, gn, known)
			}
		}
		if removed {
			c.NonTrivial(trace)
		}
	})
}

func genEP(t *rapid.T) *vnode.EndPoint {
	e := &vnode.EndPoint{Port: rapid.SampledFrom([]int{vnode.DefaultPort, 0, 1, 255, 256, vnode.DefaultPort, 65535}).Draw(t, "port")}
	switch rapid.IntRange(0, 2).Draw(t, "host") {
	case 0:
		e.Typ, e.Host = vnode.HostIPv4, gens.Fixed(4).Draw(t, "ip4")
	case 1:
		e.Typ, e.Host = vnode.HostIPv6, gens.Fixed(16).Draw(t, "ip6")
	default:
		e.Typ, e.Host = vnode.HostDomain, []byte(rapid.StringMatching(`[a-z]([a-z0-9.]{0,20}|[a-z0-9.]{40,60})[a-z]`).Draw(t, "domain"))
		if string(e.Host) == "localhost" {
			e.Host = []byte("localhos")
		}
	}
	return e
}

func sameEP(a, b *vnode.EndPoint) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Equal(b)
}

func sameMsg(a, b discovery.VMsg) bool {
	if a.Code != b.Code || a.Net != b.Net || a.Time != b.Time || a.Target != b.Target || a.Count != b.Count || a.Last != b.Last ||
		!bytes.Equal(a.Ext, b.Ext) || !bytes.Equal(a.Echo, b.Echo) || !sameEP(a.From, b.From) || !sameEP(a.To, b.To) || len(a.Endpoints) != len(b.Endpoints) {
		return false
	}
	for i := range a.Endpoints {
		if !sameEP(a.Endpoints[i], b.Endpoints[i]) {
			return false
		}
	}
	return true
}

func TestDiscovery(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "discovery packets of every kind: unpacked to what was packed, by whom it was packed, expired exactly by its time; any change of version, sender, payload or signature is rejected; arbitrary bytes and signed arbitrary payloads give a message or an error, no panic; non-trivial: every case, by the packet",
		Quick: 1500, Thorough: 40000,
	}, func(t *rapid.T, c *vlib.C) {
		k := genKey(t, "key")
		now := time.Now().Unix()
		m := discovery.VMsg{Code: byte(rapid.IntRange(0, 3).Draw(t, "code")), Time: now + rapid.SampledFrom([]int64{-1 << 40, -60, -25, -10, 0, 5, 1000}).Draw(t, "age")}
		if rapid.IntRange(0, 9).Draw(t, "anytime") == 0 {
			m.Time = rapid.Int64Range(-1<<55, 1<<55).Draw(t, "time")
		}
		switch m.Code {
		case 0, 1:
			if rapid.Bool().Draw(t, "hasfrom") {
				m.From = genEP(t)
			}
			if rapid.Bool().Draw(t, "hasto") {
				m.To = genEP(t)
			}
			m.Net, m.Ext = int(rapid.Uint32().Draw(t, "net")), gens.Bytes(50).Draw(t, "ext")
			if m.Code == 1 {
				m.Echo = gens.Bytes(40).Draw(t, "echo")
			}
		case 2:
			m.Target, m.Count = genNodeID(t, "target"), int(rapid.Uint32().Draw(t, "count"))
		default:
			for i, n := 0, rapid.IntRange(0, 8).Draw(t, "n"); i < n; i++ {
				m.Endpoints = append(m.Endpoints, genEP(t))
			}
			m.Last = rapid.Bool().Draw(t, "last")
		}
		data, hash, err := discovery.VPack(k, m)
		if err != nil {
			t.Fatal(err)
		}
		c.NonTrivial(data[2:])
		got, id, h2, expired, err := discovery.VUnpack(data)
		if err != nil || !sameMsg(m, got) || id != nodeID(k) || !bytes.Equal(hash, h2) {
			t.Fatalf("packed %+v, unpacked %+v from %x (is %x), hashes %x %x, %v", m, got, id, nodeID(k), hash, h2, err)
		}
		if old := now - m.Time; old > 25 != expired && (old < 18 || old > 25) {
			t.Fatalf("a message %d s old: expired %v", old, expired)
		}
		switch rapid.IntRange(0, 4).Draw(t, "tamper") {
		case 0, 1:
			bad := append([]byte{}, data...)
			i := rapid.IntRange(0, len(bad)-2).Draw(t, "byte")
			if i >= 1 {
				i++ // the code byte is not signed
			}
			bad[i] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
			reject(t, bad, data, fmt.Sprintf("byte %d changed", i))
		case 2:
			n := rapid.IntRange(0, len(data)-1).Draw(t, "cut")
			reject(t, data[:n], data, "cut")
			reject(t, append(append([]byte{}, data...), gens.Bytes(3).Draw(t, "more")...), data, "extended")
		case 3: // another key's signature
			o := genKey(t, "other")
			od, _, _ := discovery.VPack(o, m)
			if !bytes.Equal(o, k) {
				bad := append(append([]byte{}, data[:len(data)-64]...), od[len(od)-64:]...)
				reject(t, bad, data, "signed by another key")
			}
		default:
			code := byte(rapid.IntRange(0, 5).Draw(t, "rawcode"))
			raw := discovery.VPackRaw(k, code, gens.Bytes(60).Draw(t, "payload"))
			if rapid.Bool().Draw(t, "mutated") {
				raw = discovery.VPackRaw(k, code, gens.Mutate(t, append([]byte{}, data[34:len(data)-64]...)))
			}
			if p := vlib.Catch(func() { _, _, _, _, err = discovery.VUnpack(raw) }); p != nil {
				t.Fatalf("packet %x panicked: %v", raw, p)
			}
			if err == nil && code > 3 {
				t.Fatalf("unknown code %d accepted", code)
			}
			c.Label(fmt.Sprintf("raw ok=%v", err == nil))
		}
	})
}

func reject(t *rapid.T, bad, good []byte, what string) {
	if bytes.Equal(bad, good) {
		return
	}
	var err error
	if p := vlib.Catch(func() { _, _, _, _, err = discovery.VUnpack(bad) }); p != nil {
		t.Fatalf("%s: panic %v\n%x", what, p, bad)
	}
	if err == nil {
		t.Fatalf("%s: accepted\n%x\n%x", what, bad, good)
	}
}

func TestNeighbors(t *testing.T) {
	self, err := stdnet.ListenUDP("udp", &stdnet.UDPAddr{IP: stdnet.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Fatal(err)
	}
	defer self.Close()
	peer, err := stdnet.ListenUDP("udp", &stdnet.UDPAddr{IP: stdnet.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Fatal(err)
	}
	defer peer.Close()
	vlib.Check(t, vlib.Opts{
		Rule:  "lists of up to 400 endpoints sent as neighbors packets over a loopback socket: every packet fits the packet limit and is accepted, only the last one says so, together they carry the list in order; non-trivial: more than one packet",
		Quick: 300, Thorough: 6000,
	}, func(t *rapid.T, c *vlib.C) {
		k := genKey(t, "key")
		var eps []*vnode.EndPoint
		n := rapid.IntRange(1, 400).Draw(t, "n")
		if rapid.Bool().Draw(t, "many") {
			n = 250
		}
		kinds := []*vnode.EndPoint{genEP(t)}
		for rapid.Bool().Draw(t, "another") && len(kinds) < 4 {
			kinds = append(kinds, genEP(t))
		}
		for i := 0; i < n; i++ {
			e := *kinds[(i/7)%len(kinds)]
			if e.Typ == vnode.HostIPv4 {
				e.Host = append([]byte{}, e.Host...)
				binary.BigEndian.PutUint16(e.Host[2:], uint16(i))
			}
			eps = append(eps, &e)
		}
		if err := discovery.VSendNodes(k, self, eps, peer.LocalAddr().(*stdnet.UDPAddr)); err != nil {
			t.Fatal(err)
		}
		var got []*vnode.EndPoint
		buf := make([]byte, 65536)
		for pkts := 1; ; pkts++ {
			peer.SetReadDeadline(time.Now().Add(wait))
			ln, err := peer.Read(buf)
			if err != nil {
				t.Fatalf("after %d of %d endpoints: %v", len(got), n, err)
			}
			if ln > discovery.VMaxPacket {
				drain(peer, buf)
				t.Fatalf("a packet of %d bytes (limit %d) in a list of %d", ln, discovery.VMaxPacket, n)
			}
			m, id, _, _, err := discovery.VUnpack(append([]byte{}, buf[:ln]...))
			if err != nil || m.Code != 3 || id != nodeID(k) {
				drain(peer, buf)
				t.Fatalf("packet %d: code %d, %v", pkts, m.Code, err)
			}
			got = append(got, m.Endpoints...)
			if pkts > 1 {
				c.NonTrivial(n, fmt.Sprint(kinds))
			}
			if m.Last {
				break
			}
		}
		ok := len(got) == len(eps)
		for i := 0; ok && i < n; i++ {
			ok = got[i].Equal(eps[i])
		}
		if !ok {
			drain(peer, buf)
			t.Fatalf("sent %d endpoints, got %d: %v", n, len(got), got)
		}
	})
}

func drain(c *stdnet.UDPConn, buf []byte) {
	for {
		c.SetReadDeadline(time.Now().Add(50 * time.Millisecond))
		if _, err := c.Read(buf); err != nil {
			return
		}
	}
}

func TestFindnode(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "a findnode request with any count: at most the known nodes, bounded memory; non-trivial: a count above the table's size",
		Quick: 300, Thorough: 3000,
	}, func(t *rapid.T, c *vlib.C) {
		tab := discovery.VNewTable(vnode.NodeID{9}, 1, func(n *discovery.Node, cb func(error)) {})
		n := rapid.IntRange(0, 10).Draw(t, "nodes")
		for i := 0; i < n; i++ {
			tab.Add(&discovery.Node{Node: vnode.Node{ID: vnode.NodeID{byte(i + 10)}, Net: 1, EndPoint: vnode.EndPoint{Host: []byte{1, 2, 3, byte(i)}, Port: 1, Typ: vnode.HostIPv4}}})
		}
		count := int(rapid.OneOf(rapid.Uint32Range(0, 12), rapid.Uint32()).Draw(t, "count"))
		if count > n {
			c.NonTrivial(count, n)
		}
		var got []*discovery.Node
		var p interface{}
		mem := memory(func() { p = vlib.Catch(func() { got = tab.Neighbors(vnode.NodeID{1}, count) }) })
		if p != nil || mem > 16<<20 {
			t.Fatalf("findnode with count %d: panic %v, %d bytes", count, p, mem)
		}
		if len(got) != min(n, count) {
			t.Fatalf("count %d of %d nodes gave %d", count, n, len(got))
		}
	})
}

func TestAddress(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "the file address a peer announces (a port, an encoded endpoint, anything): the address to dial is the peer's own host unless it announced a usable IP; non-trivial: an announced endpoint",
		Quick: 1500, Thorough: 30000,
	}, func(t *rapid.T, c *vlib.C) {
		sender := &stdnet.TCPAddr{IP: gens.Fixed(4).Draw(t, "sender"), Port: 1000}
		var raw []byte
		want := ""
		switch rapid.IntRange(0, 3).Draw(t, "kind") {
		case 0:
			raw = gens.Fixed(2).Draw(t, "port")
			want = fmt.Sprintf("%s:%d", sender.IP, binary.BigEndian.Uint16(raw))
		case 1:
			raw = gens.Bytes(1).Draw(t, "short")
			want = fmt.Sprintf("%s:%d", sender.IP, 8484)
		case 2:
			e := genEP(t)
			if e.Typ == vnode.HostDomain {
				return
			}
			raw, _ = e.Serialize()
			c.NonTrivial(sender.IP, raw)
			ip := stdnet.IP(e.Host)
			if ip.IsLoopback() && !sender.IP.IsLoopback() || ip.IsUnspecified() || ip.IsMulticast() {
				if e.Typ == vnode.HostIPv4 {
					want = fmt.Sprintf("%s:%d", sender.IP, e.Port)
				}
			}
		default:
			raw = gens.Bytes(25).Draw(t, "raw")
			if len(raw) == 0 || raw[0]&2 != 0 {
				return // a domain would be looked up
			}
		}
		var got string
		if p := vlib.Catch(func() { got = net.VExtractAddress(sender, raw, 8484) }); p != nil {
			t.Fatalf("address %x panicked: %v", raw, p)
		}
		if want != "" && got != want {
			t.Fatalf("%s announced %s, dial %s, want %s", sender.IP, hex.EncodeToString(raw), got, want)
		}
	})
}
