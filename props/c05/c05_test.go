package c05

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/vm/abi"
	"verif/gens"
	"verif/vlib"
)

// ---------------------------------------------------------------- model

type mtype struct {
	name string // element type name
	base string // int uint bool address gid tokenId string bytes fixed
	bits int    // int/uint
	size int    // fixed bytes
	arr  int    // -2 scalar, -1 slice, >0 array
}

func (m mtype) String() string {
	switch {
	case m.arr == -2:
		return m.name
	case m.arr == -1:
		return m.name + "[]"
	}
	return fmt.Sprintf("%s[%d]", m.name, m.arr)
}

func (m mtype) dynamic() bool { return m.arr == -1 || m.arr == -2 && (m.base == "string" || m.base == "bytes") }
func (m mtype) headWords() int {
	if m.arr > 0 {
		return m.arr
	}
	return 1
}

func genType() *rapid.Generator[mtype] {
	return rapid.Custom(func(t *rapid.T) mtype {
		m := mtype{arr: -2}
		m.base = rapid.SampledFrom([]string{"int", "uint", "uint", "bool", "address", "gid", "tokenId", "string", "bytes", "fixed"}).Draw(t, "base")
		switch m.base {
		case "int", "uint":
			m.bits = rapid.SampledFrom([]int{8, 16, 24, 32, 40, 48, 56, 64, 72, 96, 128, 160, 200, 248, 256, 256}).Draw(t, "bits")
			m.name = fmt.Sprint(m.base, m.bits)
		case "fixed":
			m.size = rapid.IntRange(1, 32).Draw(t, "size")
			m.name = fmt.Sprint("bytes", m.size)
		default:
			m.name = m.base
		}
		if m.base != "string" && m.base != "bytes" {
			switch rapid.IntRange(0, 3).Draw(t, "arr") {
			case 0:
				m.arr = -1
			case 1:
				m.arr = rapid.IntRange(1, 5).Draw(t, "n")
			}
		}
		return m
	})
}

func word(x *big.Int) []byte {
	b := new(big.Int).Mod(x, new(big.Int).Lsh(big.NewInt(1), 256)).Bytes()
	return append(make([]byte, 32-len(b)), b...)
}

func left(b []byte) []byte  { return append(make([]byte, 32-len(b)), b...) }
func right(b []byte) []byte { return append(append([]byte{}, b...), make([]byte, (32-len(b)%32)%32)...) }

// elem draws one element: its Go value and its 32-byte word.
func (m mtype) elem(t *rapid.T) (interface{}, []byte) {
	switch m.base {
	case "int", "uint":
		signed := m.base == "int"
		if m.bits == 8 || m.bits == 16 || m.bits == 32 || m.bits == 64 {
			u := gens.Uint64().Draw(t, "u")
			if signed {
				switch m.bits {
				case 8:
					return int8(u), word(big.NewInt(int64(int8(u))))
				case 16:
					return int16(u), word(big.NewInt(int64(int16(u))))
				case 32:
					return int32(u), word(big.NewInt(int64(int32(u))))
				}
				return int64(u), word(big.NewInt(int64(u)))
			}
			switch m.bits {
			case 8:
				return uint8(u), word(new(big.Int).SetUint64(uint64(uint8(u))))
			case 16:
				return uint16(u), word(new(big.Int).SetUint64(uint64(uint16(u))))
			case 32:
				return uint32(u), word(new(big.Int).SetUint64(uint64(uint32(u))))
			}
			return u, word(new(big.Int).SetUint64(u))
		}
		b := m.bits
		if signed {
			b--
		}
		x := gens.Big(b).Draw(t, "x")
		return x, word(x)
	case "bool":
		if rapid.Bool().Draw(t, "b") {
			return true, word(big.NewInt(1))
		}
		return false, word(big.NewInt(0))
	case "address":
		a := gens.Address().Draw(t, "a")
		return a, left(a.Bytes())
	case "gid":
		var g types.Gid
		copy(g[:], gens.Fixed(types.GidSize).Draw(t, "g"))
		return g, left(g.Bytes())
	case "tokenId":
		a := gens.TokenId().Draw(t, "k")
		return a, left(a.Bytes())
	case "fixed":
		raw := gens.Fixed(m.size).Draw(t, "f")
		v := reflect.New(reflect.ArrayOf(m.size, reflect.TypeOf(byte(0)))).Elem()
		reflect.Copy(v, reflect.ValueOf(raw))
		return v.Interface(), right(raw)
	}
	panic("elem " + m.base)
}

func (m mtype) goElem() reflect.Type {
	switch m.base {
	case "int", "uint":
		k := map[string]interface{}{"int8": int8(0), "int16": int16(0), "int32": int32(0), "int64": int64(0), "uint8": uint8(0), "uint16": uint16(0), "uint32": uint32(0), "uint64": uint64(0)}
		if v, ok := k[m.name]; ok {
			return reflect.TypeOf(v)
		}
		return reflect.TypeOf(&big.Int{})
	case "bool":
		return reflect.TypeOf(true)
	case "address":
		return reflect.TypeOf(types.Address{})
	case "gid":
		return reflect.TypeOf(types.Gid{})
	case "tokenId":
		return reflect.TypeOf(types.TokenTypeId{})
	case "string":
		return reflect.TypeOf("")
	case "bytes":
		return reflect.TypeOf([]byte{})
	}
	return reflect.ArrayOf(m.size, reflect.TypeOf(byte(0)))
}

func (m mtype) goType() reflect.Type {
	switch {
	case m.arr == -1:
		return reflect.SliceOf(m.goElem())
	case m.arr > 0:
		return reflect.ArrayOf(m.arr, m.goElem())
	}
	return m.goElem()
}

// value draws a Go value of the type with its encoding: head words for static types, tail for dynamic ones.
// used is how many tail bytes carry content (the rest is padding).
func (m mtype) value(t *rapid.T) (v interface{}, enc []byte, used int) {
	if m.base == "string" || m.base == "bytes" {
		n := rapid.SampledFrom([]int{0, 1, 31, 32, 33, 64, 65, 200}).Draw(t, "len")
		if n > 1 && rapid.Bool().Draw(t, "jit") {
			n += rapid.IntRange(-1, 20).Draw(t, "d")
		}
		raw := rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "raw")
		enc = append(word(big.NewInt(int64(n))), right(raw)...)
		if m.base == "string" {
			return string(raw), enc, 32 + n
		}
		return raw, enc, 32 + n
	}
	switch {
	case m.arr == -2:
		e, w := m.elem(t)
		return e, w, 0
	case m.arr == -1:
		n := rapid.IntRange(0, 6).Draw(t, "n")
		s := reflect.MakeSlice(m.goType(), 0, n)
		enc = word(big.NewInt(int64(n)))
		for i := 0; i < n; i++ {
			e, w := m.elem(t)
			s = reflect.Append(s, reflect.ValueOf(e))
			enc = append(enc, w...)
		}
		return s.Interface(), enc, len(enc)
	}
	s := reflect.New(m.goType()).Elem()
	for i := 0; i < m.arr; i++ {
		e, w := m.elem(t)
		s.Index(i).Set(reflect.ValueOf(e))
		enc = append(enc, w...)
	}
	return s.Interface(), enc, 0
}

// layout is the reference head/tail encoder; need is the length of the shortest prefix that still decodes.
func layout(ts []mtype, encs [][]byte, useds []int) (out []byte, need int) {
	head := 0
	for _, m := range ts {
		head += 32 * m.headWords()
	}
	need = head
	var tail []byte
	for i, m := range ts {
		if m.dynamic() {
			out = append(out, word(big.NewInt(int64(head+len(tail))))...)
			if e := head + len(tail) + useds[i]; e > need {
				need = e
			}
			tail = append(tail, encs[i]...)
		} else {
			out = append(out, encs[i]...)
		}
	}
	return append(out, tail...), need
}

// ---------------------------------------------------------------- reference decoder

var bad = fmt.Errorf("reject")

func (m mtype) decElem(w []byte) (interface{}, error) {
	x := new(big.Int).SetBytes(w)
	switch m.base {
	case "int", "uint":
		lo := new(big.Int).And(x, new(big.Int).SetUint64(^uint64(0))).Uint64()
		switch m.name {
		case "int8":
			return int8(lo), nil
		case "int16":
			return int16(lo), nil
		case "int32":
			return int32(lo), nil
		case "int64":
			return int64(lo), nil
		case "uint8":
			return uint8(lo), nil
		case "uint16":
			return uint16(lo), nil
		case "uint32":
			return uint32(lo), nil
		case "uint64":
			return lo, nil
		}
		return x, nil
	case "bool":
		if x.BitLen() > 1 {
			return nil, bad
		}
		return x.Sign() == 1, nil
	case "address":
		a, err := types.BytesToAddress(w[32-types.AddressSize:])
		if err != nil {
			return types.Address{}, nil
		}
		return a, nil
	case "gid":
		var g types.Gid
		copy(g[:], w[32-types.GidSize:])
		return g, nil
	case "tokenId":
		var g types.TokenTypeId
		copy(g[:], w[32-types.TokenTypeIdSize:])
		return g, nil
	case "fixed":
		v := reflect.New(m.goElem()).Elem()
		reflect.Copy(v, reflect.ValueOf(w[:m.size]))
		return v.Interface(), nil
	}
	panic(m.base)
}

func at(data []byte, off *big.Int, n int64) ([]byte, error) {
	if off.Sign() < 0 || n < 0 || new(big.Int).Add(off, big.NewInt(n)).Cmp(big.NewInt(int64(len(data)))) > 0 {
		return nil, bad
	}
	o := off.Int64()
	return data[o : o+n], nil
}

func refDecode(ts []mtype, data []byte) ([]interface{}, error) {
	var out []interface{}
	pos := int64(0)
	for _, m := range ts {
		h, err := at(data, big.NewInt(pos), 32)
		if err != nil {
			return nil, err
		}
		if m.dynamic() {
			off := new(big.Int).SetBytes(h)
			lw, err := at(data, off, 32)
			if err != nil {
				return nil, err
			}
			ln := new(big.Int).SetBytes(lw)
			start := new(big.Int).Add(off, big.NewInt(32))
			if new(big.Int).Add(start, ln).Cmp(big.NewInt(int64(len(data)))) > 0 {
				return nil, bad
			}
			n := ln.Int64()
			if m.arr == -1 {
				body, err := at(data, start, 32*n)
				if err != nil {
					return nil, err
				}
				s := reflect.MakeSlice(m.goType(), 0, int(n))
				for i := int64(0); i < n; i++ {
					e, err := m.decElem(body[32*i : 32*i+32])
					if err != nil {
						return nil, err
					}
					s = reflect.Append(s, reflect.ValueOf(e))
				}
				out = append(out, s.Interface())
			} else {
				body, err := at(data, start, n)
				if err != nil {
					return nil, err
				}
				if m.base == "string" {
					out = append(out, string(body))
				} else {
					out = append(out, append([]byte{}, body...))
				}
			}
		} else if m.arr > 0 {
			body, err := at(data, big.NewInt(pos), int64(32*m.arr))
			if err != nil {
				return nil, err
			}
			s := reflect.New(m.goType()).Elem()
			for i := 0; i < m.arr; i++ {
				e, err := m.decElem(body[32*i : 32*i+32])
				if err != nil {
					return nil, err
				}
				s.Index(i).Set(reflect.ValueOf(e))
			}
			out = append(out, s.Interface())
		} else {
			e, err := m.decElem(h)
			if err != nil {
				return nil, err
			}
			out = append(out, e)
		}
		pos += int64(32 * m.headWords())
	}
	return out, nil
}

// ---------------------------------------------------------------- helpers

func args(rt *rapid.T, ts []mtype) abi.Arguments {
	var as abi.Arguments
	for i, m := range ts {
		ty, err := abi.NewType(m.String())
		if err != nil {
			rt.Fatalf("type %s refused: %v", m, err)
		}
		as = append(as, abi.Argument{Name: fmt.Sprintf("arg%d", i), Type: ty})
	}
	return as
}

func same(a, b interface{}) bool {
	return canon(a) == canon(b)
}

func canon(v interface{}) string {
	switch x := v.(type) {
	case *big.Int:
		return "big" + x.String()
	case []byte:
		return fmt.Sprintf("bytes%x", x)
	case string:
		return fmt.Sprintf("str%x", x)
	}
	rv := reflect.ValueOf(v)
	if (rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array) && rv.Type().Elem().Kind() != reflect.Uint8 {
		var s []string
		for i := 0; i < rv.Len(); i++ {
			s = append(s, canon(rv.Index(i).Interface()))
		}
		return rv.Kind().String() + "[" + strings.Join(s, ",") + "]"
	}
	return fmt.Sprintf("%T:%v", v, v)
}

func deepCopy(v interface{}) interface{} {
	if b, ok := v.(*big.Int); ok {
		return new(big.Int).Set(b)
	}
	return v
}

type call struct {
	ts   []mtype
	as   abi.Arguments
	vals []interface{}
	enc  []byte
	need int
}

func genCall(rt *rapid.T) call {
	n := rapid.IntRange(1, 6).Draw(rt, "nargs")
	var cl call
	var encs [][]byte
	var useds []int
	for i := 0; i < n; i++ {
		m := genType().Draw(rt, "type")
		v, e, u := m.value(rt)
		cl.ts = append(cl.ts, m)
		cl.vals = append(cl.vals, v)
		encs = append(encs, e)
		useds = append(useds, u)
	}
	cl.enc, cl.need = layout(cl.ts, encs, useds)
	cl.as = args(rt, cl.ts)
	return cl
}

func (cl call) nontrivial(c *vlib.C) bool {
	d := 0
	for _, m := range cl.ts {
		if m.arr != -2 {
			d++
		}
		if m.dynamic() {
			d++
		}
	}
	if d >= 2 {
		c.NonTrivial(fmt.Sprint(cl.ts), fmt.Sprintf("%x", cl.enc))
		c.Sample("(%v) %.60x...", cl.ts, cl.enc)
	}
	return d >= 2
}

func expect(rt *rapid.T, cl call, got []interface{}, what string) {
	if len(got) != len(cl.vals) {
		rt.Fatalf("%s: %d values, want %d", what, len(got), len(cl.vals))
	}
	for i := range got {
		if !same(got[i], cl.vals[i]) {
			rt.Fatalf("%s: argument %d (%s): got %s want %s\ndata %x", what, i, cl.ts[i], canon(got[i]), canon(cl.vals[i]), cl.enc)
		}
	}
}

func TestRoundTrip(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 25000, Thorough: 300000, Rule: "1-6 arguments of generated types (all scalar types, slices, fixed arrays) with generated values; packed bytes against an independent head/tail encoder, unpacked back as list, struct and pointer slice; non-trivial: at least two of dynamic/array"},
		func(rt *rapid.T, c *vlib.C) {
			cl := genCall(rt)
			cl.nontrivial(c)
			in := make([]interface{}, len(cl.vals))
			for i := range in {
				in[i] = deepCopy(cl.vals[i])
			}
			enc, err := cl.as.Pack(in...)
			if err != nil {
				rt.Fatalf("pack %v: %v", cl.ts, err)
			}
			if !bytes.Equal(enc, cl.enc) {
				rt.Fatalf("encoding of %v differs from the standard layout\n got %x\nwant %x", cl.ts, enc, cl.enc)
			}
			got, err := cl.as.DirectUnpack(enc)
			if err != nil {
				rt.Fatalf("unpack of packed %v: %v", cl.ts, err)
			}
			expect(rt, cl, got, "list")
			// into a struct whose fields are named after the arguments
			var fs []reflect.StructField
			for i, m := range cl.ts {
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("Arg%d", i), Type: m.goType()})
			}
			st := reflect.New(reflect.StructOf(fs))
			if err := cl.as.Unpack(st.Interface(), enc); err != nil {
				rt.Fatalf("unpack into struct: %v", err)
			}
			got = got[:0:0]
			for i := range cl.ts {
				got = append(got, st.Elem().Field(i).Interface())
			}
			expect(rt, cl, got, "struct")
			if len(cl.ts) > 1 {
				ps := make([]interface{}, len(cl.ts))
				for i, m := range cl.ts {
					ps[i] = reflect.New(m.goType()).Interface()
				}
				if err := cl.as.Unpack(&ps, enc); err != nil {
					rt.Fatalf("unpack into pointers: %v", err)
				}
				got = got[:0:0]
				for i := range ps {
					got = append(got, reflect.ValueOf(ps[i]).Elem().Interface())
				}
				expect(rt, cl, got, "pointers")
			} else {
				p := reflect.New(cl.ts[0].goType())
				if err := cl.as.Unpack(p.Interface(), enc); err != nil {
					rt.Fatalf("unpack atomic: %v", err)
				}
				expect(rt, cl, []interface{}{p.Elem().Interface()}, "atomic")
			}
			// wrong number of arguments is refused
			if _, err := cl.as.Pack(in[:len(in)-1]...); err == nil {
				rt.Fatal("missing argument accepted")
			}
			// a cut encoding is refused exactly when content is missing
			k := rapid.IntRange(0, len(enc)).Draw(rt, "cut")
			if rapid.Bool().Draw(rt, "edge") {
				k = cl.need - rapid.IntRange(0, 1).Draw(rt, "e")
			}
			got, err = cl.as.DirectUnpack(append([]byte{}, enc[:k]...))
			if (err == nil) != (k >= cl.need) {
				rt.Fatalf("%v cut to %d of %d bytes (content ends at %d): err=%v", cl.ts, k, len(enc), cl.need, err)
			}
			if err == nil {
				expect(rt, cl, got, "cut")
			}
		})
}

func mutate(rt *rapid.T, enc []byte) []byte {
	d := append([]byte{}, enc...)
	n := rapid.IntRange(0, 4).Draw(rt, "muts")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 5).Draw(rt, "mut") {
		case 0: // replace a word by an interesting one
			if len(d) >= 32 {
				w := rapid.IntRange(0, len(d)/32-1).Draw(rt, "w")
				x := new(big.Int)
				switch rapid.IntRange(0, 5).Draw(rt, "k") {
				case 0:
					x.SetUint64(uint64(rapid.IntRange(0, len(d)+64).Draw(rt, "v")))
				case 1:
					x.SetUint64(uint64(32 * rapid.IntRange(0, len(d)/32+2).Draw(rt, "v")))
				case 2:
					x.Sub(new(big.Int).Lsh(big.NewInt(1), uint(rapid.SampledFrom([]int{31, 32, 58, 59, 62, 63, 64, 65, 255, 256}).Draw(rt, "b"))), big.NewInt(int64(rapid.IntRange(0, 128).Draw(rt, "d"))))
				case 3:
					x.SetUint64(uint64(rapid.IntRange(0, 3).Draw(rt, "v")))
				case 4:
					x = gens.Big(256).Draw(rt, "x")
				case 5:
					x.SetUint64(gens.Uint64().Draw(rt, "u"))
				}
				copy(d[32*w:], word(x))
			}
		case 1:
			d = gens.Mutate(rt, d)
		case 2:
			if len(d) > 0 {
				d = d[:rapid.IntRange(0, len(d)).Draw(rt, "cut")]
			}
		case 3:
			d = append(d, gens.Bytes(70).Draw(rt, "app")...)
		case 4:
			if len(d) > 0 {
				d[rapid.IntRange(0, len(d)-1).Draw(rt, "p")] = rapid.Byte().Draw(rt, "b")
			}
		case 5:
			if len(d) >= 32 {
				w := rapid.IntRange(0, len(d)/32-1).Draw(rt, "w")
				d[32*w+31] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
			}
		}
	}
	return d
}

func TestArbitraryData(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 40000, Thorough: 500000, Rule: "mutated encodings and arbitrary bytes decoded by the codec and by an independent reference decoder (accept/reject and values agree, no panic, result independent of bytes behind the data); non-trivial: mutated from a valid encoding with a dynamic or array argument"},
		func(rt *rapid.T, c *vlib.C) {
			cl := genCall(rt)
			var data []byte
			if rapid.IntRange(0, 5).Draw(rt, "raw") == 0 {
				data = gens.Bytes(400).Draw(rt, "data")
			} else {
				data = mutate(rt, cl.enc)
				cl.enc = data
				cl.nontrivial(c)
			}
			want, werr := refDecode(cl.ts, data)
			run := func(poison byte) ([]interface{}, error) {
				buf := bytes.Repeat([]byte{poison}, len(data)+512)
				copy(buf, data)
				var got []interface{}
				var err error
				if p := vlib.Catch(func() { got, err = cl.as.DirectUnpack(buf[:len(data)]) }); p != nil {
					rt.Fatalf("unpack of %v panics: %v\ndata %x", cl.ts, p, data)
				}
				return got, err
			}
			got, err := run(0)
			got2, err2 := run(0xff)
			if (err == nil) != (werr == nil) {
				rt.Fatalf("unpack of %v: err=%v, reference err=%v\ndata %x", cl.ts, err, werr, data)
			}
			if (err == nil) != (err2 == nil) {
				rt.Fatalf("unpack of %v depends on bytes behind the data\ndata %x", cl.ts, data)
			}
			if err != nil {
				c.Label("rejected")
				return
			}
			c.Label("accepted")
			for i := range want {
				if !same(got[i], want[i]) {
					rt.Fatalf("argument %d (%s) decodes to %s, reference %s\ndata %x", i, cl.ts[i], canon(got[i]), canon(want[i]), data)
				}
				if !same(got[i], got2[i]) {
					rt.Fatalf("argument %d (%s) depends on bytes behind the data\ndata %x", i, cl.ts[i], data)
				}
			}
		})
}

// arbitrary (including unusual) types against arbitrary data: no panic
func TestOddTypesNeverPanic(t *testing.T) {
	odd := []string{"string[]", "bytes[]", "string[2]", "bytes[3]", "uint256[]", "bool[]", "address[4]", "bytes32[]", "tokenId[]", "gid[2]", "int8[]"}
	vlib.Check(t, vlib.Opts{Quick: 10000, Thorough: 100000, Rule: "arrays of dynamic elements and mixed signatures against structured garbage; non-trivial: decoding succeeded"},
		func(rt *rapid.T, c *vlib.C) {
			var as abi.Arguments
			var names []string
			for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "n"); i < n; i++ {
				s := rapid.SampledFrom(odd).Draw(rt, "t")
				ty, err := abi.NewType(s)
				if err != nil {
					continue
				}
				names = append(names, s)
				as = append(as, abi.Argument{Name: fmt.Sprint("a", i), Type: ty})
			}
			var data []byte
			nw := rapid.IntRange(0, 24).Draw(rt, "words")
			for i := 0; i < nw; i++ {
				data = append(data, word(big.NewInt(int64(rapid.SampledFrom([]int{0, 1, 2, 3, 32, 64, 96, 128, 160, 256, 320, 500, 700, 1 << 40}).Draw(rt, "w"))))...)
			}
			data = mutate(rt, data)
			data = data[:len(data):len(data)]
			var err error
			if p := vlib.Catch(func() { _, err = as.DirectUnpack(data) }); p != nil {
				rt.Fatalf("unpack of %v panics: %v\ndata %x", names, p, data)
			}
			if err == nil && len(as) > 0 {
				c.NonTrivial(fmt.Sprint(names), fmt.Sprintf("%x", data))
				c.Sample("%v %x", names, data)
			}
		})
}

// contract level: methods are dispatched by the first four bytes of the signature hash; events put indexed
// arguments in topics and the rest in the data
func TestMethodsAndEvents(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 6000, Thorough: 80000, Rule: "generated contract definitions (JSON) with several methods, events, variables, callbacks; call data and event topics/data against the reference layout, foreign and truncated inputs refused; non-trivial: event with both indexed and plain arguments"},
		func(rt *rapid.T, c *vlib.C) {
			cl := genCall(rt)
			ev := genCall(rt)
			type arg struct {
				Name    string `json:"name"`
				Type    string `json:"type"`
				Indexed bool   `json:"indexed"`
			}
			type ent struct {
				Type   string `json:"type"`
				Name   string `json:"name"`
				Inputs []arg  `json:"inputs"`
			}
			var in, evi []arg
			var sig, esig []string
			for i, m := range cl.ts {
				in = append(in, arg{Name: fmt.Sprintf("arg%d", i), Type: m.String()})
				sig = append(sig, m.String())
			}
			nidx := 0
			for i, m := range ev.ts {
				ix := rapid.Bool().Draw(rt, "indexed")
				if ix {
					nidx++
				}
				evi = append(evi, arg{Name: fmt.Sprintf("arg%d", i), Type: m.String(), Indexed: ix})
				esig = append(esig, m.String())
			}
			def := []ent{{"constructor", "", in}, {"function", "foo", in}, {"function", "bar", nil}, {"event", "ev", evi}, {"variable", "vv", in}, {"callback", "foo", in}}
			js, _ := json.Marshal(def)
			ac, err := abi.JSONToABIContract(bytes.NewReader(js))
			if err != nil {
				rt.Fatalf("definition %s refused: %v", js, err)
			}
			cp := func(v []interface{}) []interface{} {
				var r []interface{}
				for _, x := range v {
					r = append(r, deepCopy(x))
				}
				return r
			}
			h := types.DataHash([]byte("foo(" + strings.Join(sig, ",") + ")"))
			want := append(append([]byte{}, h[:4]...), cl.enc...)
			got, err := ac.PackMethod("foo", cp(cl.vals)...)
			if err != nil || !bytes.Equal(got, want) {
				rt.Fatalf("call data %x (%v), want %x", got, err, want)
			}
			again, err := ac.PackMethod("foo", cp(cl.vals)...) // packing has no hidden state
			if err != nil || !bytes.Equal(again, want) || !bytes.Equal(got, want) {
				rt.Fatalf("packing twice differs: %x then %x", got, again)
			}
			hc := types.DataHash([]byte("fooCallback(" + strings.Join(sig, ",") + ")"))
			if got, err := ac.PackCallback("foo", cp(cl.vals)...); err != nil || !bytes.Equal(got, append(append([]byte{}, hc[:4]...), cl.enc...)) {
				rt.Fatalf("callback data %x (%v)", got, err)
			}
			if got, err := ac.PackMethod("", cp(cl.vals)...); err != nil || !bytes.Equal(got, cl.enc) {
				rt.Fatalf("constructor data %x (%v)", got, err)
			}
			if got, err := ac.PackVariable("vv", cp(cl.vals)...); err != nil || !bytes.Equal(got, cl.enc) {
				rt.Fatalf("variable data %x (%v)", got, err)
			}
			vs, err := ac.DirectUnpackMethodInput("foo", want)
			if err != nil {
				rt.Fatalf("unpack method: %v", err)
			}
			expect(rt, cl, vs, "method")
			if _, err := ac.DirectUnpackMethodInput("bar", want); err == nil {
				rt.Fatal("call data of another method accepted")
			}
			flip := append([]byte{}, want...)
			flip[rapid.IntRange(0, 3).Draw(rt, "idbyte")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "x"))
			if _, err := ac.DirectUnpackMethodInput("foo", flip); err == nil {
				rt.Fatal("call data with another method id accepted")
			}
			if m, err := ac.MethodById(want); err != nil || m.Name != "foo" {
				rt.Fatalf("MethodById %v %v", m, err)
			}
			if _, err := ac.PackMethod("nope"); err == nil {
				rt.Fatal("unknown method packed")
			}

			// event
			topics, data, err := ac.PackEvent("ev", cp(ev.vals)...)
			if err != nil {
				rt.Fatalf("pack event: %v", err)
			}
			id := types.DataHash([]byte("ev(" + strings.Join(esig, ",") + ")"))
			if len(topics) != nidx+1 || topics[0] != id {
				rt.Fatalf("topics %v, want first %v and %d in all", topics, id, nidx+1)
			}
			name, params, err := ac.DirectUnpackEvent(topics, data)
			if err != nil {
				rt.Fatalf("unpack event %v: %v (topics %v data %x)", esig, err, topics, data)
			}
			if !strings.Contains(name, "ev(") {
				rt.Fatalf("event name %q", name)
			}
			ti := 1
			for i, m := range ev.ts {
				if evi[i].Indexed {
					if m.arr == -2 && !m.dynamic() {
						if !same(params[i], ev.vals[i]) {
							rt.Fatalf("indexed argument %d: %s want %s", i, canon(params[i]), canon(ev.vals[i]))
						}
					} else if params[i] != topics[ti] {
						rt.Fatalf("indexed argument %d not its topic", i)
					}
					ti++
				} else if !same(params[i], ev.vals[i]) {
					rt.Fatalf("event argument %d: %s want %s", i, canon(params[i]), canon(ev.vals[i]))
				}
			}
			if nidx > 0 && nidx < len(ev.ts) {
				c.NonTrivial(fmt.Sprint(esig), fmt.Sprintf("%x", data))
				c.Sample("%s", js)
			}
			// truncated topics/data: error or value, no crash
			k := rapid.IntRange(0, len(topics)).Draw(rt, "topics")
			d := mutate(rt, data)
			if p := vlib.Catch(func() { _, _, err = ac.DirectUnpackEvent(topics[:k:k], d) }); p != nil {
				rt.Fatalf("unpack event with %d of %d topics panics: %v", k, len(topics), p)
			}
			if k < len(topics) && err == nil {
				rt.Fatalf("event with %d of %d topics accepted", k, len(topics))
			}
			if p := vlib.Catch(func() { ac.DirectUnpackMethodInput("foo", mutate(rt, want)) }); p != nil {
				rt.Fatalf("unpack method panics: %v", p)
			}
		})
}
