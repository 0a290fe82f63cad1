// Package refvm is an independent interpreter of the contract instruction set:
// plain 256-bit modular arithmetic on big integers, no pools, no in-place updates.
package refvm

import (
	"fmt"
	"math/big"

	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/sha3"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
)

var (
	M    = new(big.Int).Lsh(big.NewInt(1), 256)
	half = new(big.Int).Lsh(big.NewInt(1), 255)
	max  = new(big.Int).Sub(M, big.NewInt(1))
	one  = big.NewInt(1)
)

type Send struct {
	To     types.Address
	Token  types.TokenTypeId
	Amount *big.Int
	Data   []byte
}

type Log struct {
	Topics [][32]byte
	Data   []byte
}

type Env struct {
	Code, Data                    []byte
	Self, Caller                  types.Address
	Value                         *big.Int
	Token                         types.TokenTypeId
	Time, Height, AccHeight, Seed uint64
	Random                        func() uint64
	PrevHash, FromHash            types.Hash
	Storage                       map[[32]byte]*big.Int // committed state; not modified
	Balance                       func(types.TokenTypeId) *big.Int
	Host                          *core.AccountBlock // receive block (height and prev hash), for send hashes
	Offchain                      bool
}

type Out struct {
	Fail   string // "" success
	Skip   string // outside what the reference decides
	Ret    []byte
	Logs   []Log
	Writes map[[32]byte]*big.Int
	Sends  []Send
	Stack  []*big.Int
	Mem    []byte
	Steps  int
	Cost   uint64 // upper bound of the quota it may cost
	Ops    map[byte]int
}

func mod(x *big.Int) *big.Int { return new(big.Int).Mod(x, M) }

// Signed is the two's complement reading of x.
func Signed(x *big.Int) *big.Int {
	if x.Cmp(half) >= 0 {
		return new(big.Int).Sub(x, M)
	}
	return x
}

func b2i(b bool) *big.Int {
	if b {
		return big.NewInt(1)
	}
	return big.NewInt(0)
}

// Word is the 32-byte big-endian form.
func Word(x *big.Int) (w [32]byte) {
	b := x.Bytes()
	copy(w[32-len(b):], b)
	return
}

// Arity of the pure operators; 0 when op is not one.
func Arity(op byte) int {
	switch op {
	case 0x15, 0x19:
		return 1
	case 0x08, 0x09:
		return 3
	}
	if op >= 0x01 && op <= 0x0b || op >= 0x10 && op <= 0x1d {
		return 2
	}
	return 0
}

// Pure computes a pure operator; a[0] is the top of the stack.
func Pure(op byte, a ...*big.Int) *big.Int {
	switch op {
	case 0x01:
		return mod(new(big.Int).Add(a[0], a[1]))
	case 0x02:
		return mod(new(big.Int).Mul(a[0], a[1]))
	case 0x03:
		return mod(new(big.Int).Sub(a[0], a[1]))
	case 0x04:
		if a[1].Sign() == 0 {
			return new(big.Int)
		}
		return new(big.Int).Div(a[0], a[1])
	case 0x05:
		if a[1].Sign() == 0 {
			return new(big.Int)
		}
		return mod(new(big.Int).Quo(Signed(a[0]), Signed(a[1])))
	case 0x06:
		if a[1].Sign() == 0 {
			return new(big.Int)
		}
		return new(big.Int).Mod(a[0], a[1])
	case 0x07:
		if a[1].Sign() == 0 {
			return new(big.Int)
		}
		return mod(new(big.Int).Rem(Signed(a[0]), Signed(a[1])))
	case 0x08:
		if a[2].Sign() == 0 {
			return new(big.Int)
		}
		x := new(big.Int).Add(a[0], a[1])
		return x.Mod(x, a[2])
	case 0x09:
		if a[2].Sign() == 0 {
			return new(big.Int)
		}
		x := new(big.Int).Mul(a[0], a[1])
		return x.Mod(x, a[2])
	case 0x0a:
		return new(big.Int).Exp(a[0], a[1], M)
	case 0x0b:
		if a[0].Cmp(big.NewInt(31)) >= 0 {
			return new(big.Int).Set(a[1])
		}
		bits := uint(a[0].Uint64()*8 + 8)
		low := new(big.Int).Mod(a[1], new(big.Int).Lsh(one, bits))
		if low.Bit(int(bits-1)) == 1 {
			low.Sub(low, new(big.Int).Lsh(one, bits))
		}
		return mod(low)
	case 0x10:
		return b2i(a[0].Cmp(a[1]) < 0)
	case 0x11:
		return b2i(a[0].Cmp(a[1]) > 0)
	case 0x12:
		return b2i(Signed(a[0]).Cmp(Signed(a[1])) < 0)
	case 0x13:
		return b2i(Signed(a[0]).Cmp(Signed(a[1])) > 0)
	case 0x14:
		return b2i(a[0].Cmp(a[1]) == 0)
	case 0x15:
		return b2i(a[0].Sign() == 0)
	case 0x16:
		return new(big.Int).And(a[0], a[1])
	case 0x17:
		return new(big.Int).Or(a[0], a[1])
	case 0x18:
		return new(big.Int).Xor(a[0], a[1])
	case 0x19:
		return new(big.Int).Sub(max, a[0])
	case 0x1a:
		if a[0].Cmp(big.NewInt(32)) >= 0 {
			return new(big.Int)
		}
		w := Word(a[1])
		return big.NewInt(int64(w[a[0].Uint64()]))
	case 0x1b, 0x1c, 0x1d:
		big256 := a[0].Cmp(big.NewInt(256)) >= 0
		switch {
		case op == 0x1d:
			s := Signed(a[1])
			if big256 {
				if s.Sign() < 0 {
					return new(big.Int).Set(max)
				}
				return new(big.Int)
			}
			d := new(big.Int).Lsh(one, uint(a[0].Uint64()))
			q, r := new(big.Int).QuoRem(s, d, new(big.Int))
			if r.Sign() < 0 { // floor
				q.Sub(q, one)
			}
			return mod(q)
		case big256:
			return new(big.Int)
		case op == 0x1b:
			return mod(new(big.Int).Mul(a[1], new(big.Int).Lsh(one, uint(a[0].Uint64()))))
		}
		return new(big.Int).Div(a[1], new(big.Int).Lsh(one, uint(a[0].Uint64())))
	}
	panic(fmt.Sprintf("not a pure operator %x", op))
}

// SarDefect tells the one operand class on which the real SAR is known to deviate.
func SarDefect(op byte, a []*big.Int) bool {
	return op == 0x1d && a[0].Cmp(big.NewInt(256)) >= 0 && a[1].Sign() == 0
}

const maxMem = 1 << 16

func dests(code []byte) map[uint64]bool {
	d := map[uint64]bool{}
	for i := 0; i < len(code); {
		op := code[i]
		if op == 0x5b {
			d[uint64(i)] = true
		}
		i++
		if op >= 0x60 && op <= 0x7f {
			i += int(op-0x60) + 1
		}
	}
	return d
}

func slice(data []byte, off *big.Int, n uint64) []byte {
	out := make([]byte, n)
	if off.IsUint64() && off.Uint64() < uint64(len(data)) {
		copy(out, data[off.Uint64():])
	}
	return out
}

// Run interprets the program.
func Run(e *Env) (o *Out) {
	o = &Out{Writes: map[[32]byte]*big.Int{}, Ops: map[byte]int{}}
	jd := dests(e.Code)
	pc := uint64(0)
	pop := func() *big.Int {
		x := o.Stack[len(o.Stack)-1]
		o.Stack = o.Stack[:len(o.Stack)-1]
		return x
	}
	push := func(x *big.Int) { o.Stack = append(o.Stack, x) }
	// touch expands the memory; false: too big to decide
	touch := func(off, n *big.Int) bool {
		if n.Sign() == 0 {
			return true
		}
		end := new(big.Int).Add(off, n)
		if end.Cmp(big.NewInt(maxMem)) > 0 {
			o.Skip = "memory"
			return false
		}
		w := (end.Uint64() + 31) / 32 * 32
		if uint64(len(o.Mem)) < w {
			o.Mem = append(o.Mem, make([]byte, w-uint64(len(o.Mem)))...)
		}
		return true
	}
	defer func() {
		w := uint64(len(o.Mem) / 32)
		o.Cost += w*1 + w*w/1024
	}()
	u := func(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
	pops, pushes := func() (p, q [256]int) {
		set := func(op, a, b int) { p[op], q[op] = a, b }
		for op := 0; op < 256; op++ {
			p[op] = -1
			if n := Arity(byte(op)); n > 0 {
				set(op, n, 1)
			}
		}
		for i := 0; i < 32; i++ {
			set(0x60+i, 0, 1)
		}
		for i := 0; i < 16; i++ {
			set(0x80+i, i+1, i+2)
			set(0x90+i, i+2, i+2)
		}
		for i := 0; i < 5; i++ {
			set(0xa0+i, 2+i, 0)
		}
		for _, x := range []int{0x30, 0x33, 0x34, 0x36, 0x38, 0x3d, 0x42, 0x43, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x58, 0x59} {
			set(x, 0, 1)
		}
		set(0x00, 0, 0)
		set(0x20, 2, 1)
		set(0x21, 2, 1)
		set(0x31, 1, 1)
		set(0x35, 1, 1)
		set(0x37, 3, 0)
		set(0x39, 3, 0)
		set(0x3e, 3, 0)
		set(0x50, 1, 0)
		set(0x51, 1, 1)
		set(0x52, 2, 0)
		set(0x53, 2, 0)
		set(0x54, 1, 1)
		set(0x55, 2, 0)
		set(0x56, 1, 0)
		set(0x57, 2, 0)
		set(0x5b, 0, 0)
		set(0xf1, 5, 0)
		set(0xf2, 5, 1)
		set(0xf3, 2, 0)
		set(0xfd, 2, 0)
		return
	}()
	for {
		o.Steps++
		if o.Steps > 20000 {
			o.Skip = "steps"
			return
		}
		op := byte(0)
		if pc < uint64(len(e.Code)) {
			op = e.Code[pc]
		}
		if pops[op] < 0 {
			o.Fail = "invalid opcode"
			return
		}
		if len(o.Stack) < pops[op] {
			o.Fail = "stack underflow"
			return
		}
		if len(o.Stack)-pops[op]+pushes[op] > 1024 {
			o.Fail = "stack overflow"
			return
		}
		o.Ops[op]++
		o.Cost += 10
		next := pc + 1
		switch {
		case Arity(op) > 0:
			n := Arity(op)
			var a []*big.Int
			for i := 0; i < n; i++ {
				a = append(a, pop())
			}
			if SarDefect(op, a) {
				o.Skip = "sar"
				return
			}
			if op == 0x0a {
				o.Cost += 50 * 33
			}
			push(Pure(op, a...))
		case op >= 0x60 && op <= 0x7f:
			n := int(op-0x60) + 1
			push(new(big.Int).SetBytes(slice(e.Code, u(pc+1), uint64(n))))
			next = pc + 1 + uint64(n)
		case op >= 0x80 && op <= 0x8f:
			push(new(big.Int).Set(o.Stack[len(o.Stack)-1-int(op-0x80)]))
		case op >= 0x90 && op <= 0x9f:
			i, j := len(o.Stack)-1, len(o.Stack)-2-int(op-0x90)
			o.Stack[i], o.Stack[j] = o.Stack[j], o.Stack[i]
		case op >= 0xa0 && op <= 0xa4:
			off, n := pop(), pop()
			if !touch(off, n) {
				return
			}
			var l Log
			for i := 0; i < int(op-0xa0); i++ {
				l.Topics = append(l.Topics, Word(pop()))
			}
			l.Data = slice(o.Mem, off, n.Uint64())
			o.Cost += 375*6 + 12*n.Uint64()
			if !e.Offchain {
				o.Logs = append(o.Logs, l)
			}
		default:
			switch op {
			case 0x00:
				return
			case 0x20, 0x21:
				off, n := pop(), pop()
				if !touch(off, n) {
					return
				}
				o.Cost += 20 + n.Uint64()/32 + 1
				d := slice(o.Mem, off, n.Uint64())
				var h []byte
				if op == 0x20 {
					k := sha3.NewLegacyKeccak256()
					k.Write(d)
					h = k.Sum(nil)
				} else {
					x := blake2b.Sum256(d)
					h = x[:]
				}
				push(new(big.Int).SetBytes(h))
			case 0x30:
				push(new(big.Int).SetBytes(e.Self[:]))
			case 0x31:
				b := pop().Bytes()
				if len(b) > types.TokenTypeIdSize {
					o.Skip = "token id"
					return
				}
				var tk types.TokenTypeId
				copy(tk[types.TokenTypeIdSize-len(b):], b)
				o.Cost += 150
				push(new(big.Int).Set(e.Balance(tk)))
			case 0x33:
				if e.Offchain {
					push(new(big.Int))
				} else {
					push(new(big.Int).SetBytes(e.Caller[:]))
				}
			case 0x34:
				if e.Offchain {
					push(new(big.Int))
				} else {
					push(new(big.Int).Set(e.Value))
				}
			case 0x35:
				push(new(big.Int).SetBytes(slice(e.Data, pop(), 32)))
			case 0x36:
				push(u(uint64(len(e.Data))))
			case 0x37, 0x39:
				m, d, n := pop(), pop(), pop()
				if !touch(m, n) {
					return
				}
				src := e.Data
				if op == 0x39 {
					src = e.Code
				}
				o.Cost += 3 * (n.Uint64()/32 + 2)
				if n.Sign() > 0 {
					copy(o.Mem[m.Uint64():], slice(src, d, n.Uint64()))
				}
			case 0x38:
				push(u(uint64(len(e.Code))))
			case 0x3d:
				push(new(big.Int))
			case 0x3e:
				m, d, n := pop(), pop(), pop()
				if !touch(m, n) {
					return
				}
				if new(big.Int).Add(d, n).Sign() != 0 { // there never is return data
					o.Fail = "return data out of bounds"
					return
				}
			case 0x42, 0x43, 0x46, 0x49, 0x4a, 0x4b:
				o.Cost += 250
				if e.Offchain {
					push(new(big.Int))
					break
				}
				switch op {
				case 0x42:
					push(u(e.Time))
				case 0x43:
					push(u(e.Height))
				case 0x46:
					push(new(big.Int).SetBytes(e.Token[:]))
				case 0x49:
					push(new(big.Int).SetBytes(e.FromHash[:]))
				case 0x4a:
					push(u(e.Seed))
				case 0x4b:
					push(u(e.Random()))
				}
			case 0x47:
				push(u(e.AccHeight))
			case 0x48:
				push(new(big.Int).SetBytes(e.PrevHash[:]))
			case 0x50:
				pop()
			case 0x51:
				off := pop()
				if !touch(off, big.NewInt(32)) {
					return
				}
				push(new(big.Int).SetBytes(o.Mem[off.Uint64() : off.Uint64()+32]))
			case 0x52:
				off, v := pop(), pop()
				if !touch(off, big.NewInt(32)) {
					return
				}
				w := Word(v)
				copy(o.Mem[off.Uint64():], w[:])
			case 0x53:
				off, v := pop(), pop()
				if !touch(off, one) {
					return
				}
				o.Mem[off.Uint64()] = Word(v)[31]
			case 0x54:
				k := Word(pop())
				o.Cost += 150
				if v, ok := o.Writes[k]; ok && !e.Offchain {
					push(new(big.Int).Set(v))
				} else if v := e.Storage[k]; v != nil {
					push(new(big.Int).Set(v))
				} else {
					push(new(big.Int))
				}
			case 0x55:
				k, v := Word(pop()), pop()
				o.Cost += 15400
				if !e.Offchain {
					o.Writes[k] = v
					if len(o.Writes) > 100 {
						o.Fail = "storage limit"
						return
					}
				}
			case 0x56, 0x57:
				dst := pop()
				if op == 0x57 && pop().Sign() == 0 {
					break
				}
				if !dst.IsUint64() || !jd[dst.Uint64()] {
					o.Fail = "invalid jump"
					return
				}
				next = dst.Uint64()
			case 0x58:
				push(u(pc))
			case 0x59:
				push(u(uint64(len(o.Mem))))
			case 0x5b:
			case 0xf1, 0xf2:
				to, tk, amount, off, n := pop().Bytes(), pop().Bytes(), pop(), pop(), pop()
				if len(to) > types.AddressSize || len(tk) > types.TokenTypeIdSize {
					o.Skip = "address"
					return
				}
				if !touch(off, n) {
					return
				}
				s := Send{Amount: amount, Data: slice(o.Mem, off, n.Uint64())}
				copy(s.To[types.AddressSize-len(to):], to)
				copy(s.Token[types.TokenTypeIdSize-len(tk):], tk)
				if types.IsContractAddr(s.To) {
					o.Skip = "call to a contract"
					return
				}
				o.Cost += 7500 + 28*n.Uint64()
				if !e.Offchain {
					o.Sends = append(o.Sends, s)
				}
				if op == 0xf2 {
					if e.Offchain {
						push(new(big.Int))
					} else {
						b := &core.AccountBlock{BlockType: core.BlockTypeSendCall, AccountAddress: e.Self, ToAddress: s.To, Amount: s.Amount, TokenId: s.Token, Data: s.Data, Fee: big.NewInt(0)}
						h := b.ComputeSendHash(e.Host, uint8(len(o.Sends)-1))
						push(new(big.Int).SetBytes(h[:]))
					}
				}
			case 0xf3, 0xfd:
				off, n := pop(), pop()
				if !touch(off, n) {
					return
				}
				if op == 0xfd && e.Offchain {
					return
				}
				o.Ret = slice(o.Mem, off, n.Uint64())
				if op == 0xfd {
					o.Fail = "revert"
				}
				return
			default:
				panic("refvm: unhandled op")
			}
		}
		pc = next
	}
}
