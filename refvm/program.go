package refvm

import (
	"math/big"

	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"verif/gens"
)

// Asm assembles programs with labels.
type Asm struct {
	Code  []byte
	fix   map[int]int // position of a 2 byte placeholder -> label
	label []int
}

func (a *Asm) Op(ops ...byte) { a.Code = append(a.Code, ops...) }

// Push pushes a constant with its shortest (at least one byte) instruction.
func (a *Asm) Push(x *big.Int) {
	b := x.Bytes()
	if len(b) == 0 {
		b = []byte{0}
	}
	a.Op(0x5f + byte(len(b)))
	a.Op(b...)
}
func (a *Asm) PushN(n int64) { a.Push(big.NewInt(n)) }

// NewLabel makes a label; PushLabel pushes it; Place puts a JUMPDEST there.
func (a *Asm) NewLabel() int { a.label = append(a.label, -1); return len(a.label) - 1 }
func (a *Asm) PushLabel(l int) {
	if a.fix == nil {
		a.fix = map[int]int{}
	}
	a.Op(0x61)
	a.fix[len(a.Code)] = l
	a.Op(0, 0)
}
func (a *Asm) Place(l int) { a.label[l] = len(a.Code); a.Op(0x5b) }
func (a *Asm) Finish() []byte {
	for p, l := range a.fix {
		a.Code[p], a.Code[p+1] = byte(a.label[l]>>8), byte(a.label[l])
	}
	return a.Code
}

// Gen draws structured programs.
type Gen struct {
	T      *rapid.T
	A      *Asm
	Depth  int // stack depth at this point
	Users  []types.Address
	Tokens []types.TokenTypeId
	Calls  bool // CALL and CALL2
	State  bool // SSTORE, LOG
	Wild   bool // invalid code, stray jumps, early ends
	Cost   int  // quota budget left for storage writes and calls
	size   int
}

func (g *Gen) n(lo, hi int, l string) int { return rapid.IntRange(lo, hi).Draw(g.T, l) }

func (g *Gen) off() *big.Int {
	switch g.n(0, 9, "offk") {
	case 0:
		return big.NewInt(int64(g.n(0, 2000, "off")))
	case 1, 2:
		return big.NewInt(int64(g.n(0, 8, "offw") * 32))
	}
	return big.NewInt(int64(g.n(0, 300, "off")))
}

func (g *Gen) len() *big.Int {
	switch g.n(0, 5, "lenk") {
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(32)
	}
	return big.NewInt(int64(g.n(0, 200, "len")))
}

func (g *Gen) push(x *big.Int) { g.A.Push(x); g.Depth++ }

var keys = []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(2), new(big.Int).Sub(M, one), new(big.Int).Lsh(one, 200)}

// Expr emits code that pushes one value.
func (g *Gen) Expr(d int) {
	g.size++
	k := g.n(0, 19, "expr")
	if d <= 0 && k > 6 {
		k = k % 7
	}
	switch {
	case k <= 2:
		g.push(gens.Big(256).Draw(g.T, "const"))
	case k == 3 && g.Depth > 0:
		i := g.n(1, min(16, g.Depth), "dup")
		g.A.Op(0x7f + byte(i))
		g.Depth++
	case k <= 4:
		ops := []byte{0x30, 0x33, 0x34, 0x36, 0x38, 0x3d, 0x42, 0x43, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x58, 0x59}
		g.A.Op(rapid.SampledFrom(ops).Draw(g.T, "ctx"))
		g.Depth++
	case k == 5:
		switch g.n(0, 3, "load") {
		case 0, 1:
			g.push(g.off())
			g.A.Op(0x51)
		case 2:
			g.push(rapid.OneOf(rapid.Just(g.off()), gens.Big(256)).Draw(g.T, "cdoff"))
			g.A.Op(0x35)
		case 3:
			g.push(rapid.SampledFrom(keys).Draw(g.T, "key"))
			g.A.Op(0x54)
		}
	case k == 6:
		if g.n(0, 1, "hb") == 0 {
			g.push(g.len())
			g.push(g.off())
			g.A.Op(byte(0x20 + g.n(0, 1, "hash")))
			g.Depth--
		} else {
			g.push(new(big.Int).SetBytes(rapid.SampledFrom(g.Tokens).Draw(g.T, "tk").Bytes()))
			g.A.Op(0x31)
		}
	default:
		op := byte(g.n(0x01, 0x1d, "op"))
		for Arity(op) == 0 {
			op = (op + 1) & 0x1f
		}
		n := Arity(op)
		for i := 0; i < n; i++ {
			if i == n-1 && (op == 0x1a || op == 0x0b || op >= 0x1b) && g.n(0, 2, "smallarg") > 0 {
				g.push(big.NewInt(int64(g.n(0, 260, "small"))))
				continue
			}
			g.Expr(d - 1)
		}
		g.A.Op(op)
		g.Depth -= n - 1
	}
}

// Stmt emits code that leaves the stack depth as it was.
func (g *Gen) Stmt(d int) {
	g.size++
	switch k := g.n(0, 15, "stmt"); {
	case k <= 3:
		g.Expr(3)
		g.push(g.off())
		g.A.Op(byte(0x52 + g.n(0, 1, "store8")*g.n(0, 1, "store8b")))
		g.Depth -= 2
	case k <= 5 && g.State && g.Cost > 16000:
		g.Cost -= 16000
		if g.n(0, 3, "zero") == 0 {
			g.push(new(big.Int))
		} else {
			g.Expr(2)
		}
		g.push(rapid.SampledFrom(keys).Draw(g.T, "key"))
		g.A.Op(0x55)
		g.Depth -= 2
	case k == 6 && g.State && g.Cost > 4000:
		g.Cost -= 4000
		t := g.n(0, 4, "topics")
		for i := 0; i < t; i++ {
			g.Expr(1)
		}
		g.push(g.len())
		g.push(g.off())
		g.A.Op(0xa0 + byte(t))
		g.Depth -= t + 2
	case k == 7:
		g.push(g.len())
		g.push(rapid.OneOf(rapid.Just(g.off()), gens.Big(256)).Draw(g.T, "srcoff"))
		g.push(g.off())
		g.A.Op(rapid.SampledFrom([]byte{0x37, 0x39}).Draw(g.T, "copy"))
		g.Depth -= 3
	case k == 8 && g.Calls && g.Cost > 20000:
		g.Cost -= 20000
		two := g.n(0, 1, "call2") == 1
		g.push(g.len())
		g.push(g.off())
		if g.n(0, 3, "amt") == 0 {
			g.push(gens.Big(256).Draw(g.T, "amount"))
		} else {
			g.push(big.NewInt(int64(g.n(0, 1000, "amount"))))
		}
		g.push(new(big.Int).SetBytes(rapid.SampledFrom(g.Tokens).Draw(g.T, "tk").Bytes()))
		g.push(new(big.Int).SetBytes(rapid.SampledFrom(g.Users).Draw(g.T, "to").Bytes()))
		if two {
			g.A.Op(0xf2)
			g.Depth -= 4
			g.push(g.off())
			g.A.Op(0x52)
			g.Depth -= 2
		} else {
			g.A.Op(0xf1)
			g.Depth -= 5
		}
	case k == 9 && d > 0: // if
		l := g.A.NewLabel()
		g.Expr(2)
		g.A.PushLabel(l)
		g.A.Op(0x57)
		g.Depth--
		for i, n := 0, g.n(1, 3, "body"); i < n; i++ {
			g.Stmt(d - 1)
		}
		g.A.Place(l)
	case k == 10 && d > 0 && g.size < 60: // bounded loop
		l := g.A.NewLabel()
		it := g.n(1, 4, "iter")
		c := g.Cost
		g.Cost /= it
		g.push(big.NewInt(int64(it)))
		g.A.Place(l)
		for i, n := 0, g.n(1, 2, "lbody"); i < n; i++ {
			g.Stmt(0)
		}
		g.Cost = c - it*(c/it-g.Cost)
		g.A.PushN(1)
		g.A.Op(0x90, 0x03, 0x80)
		g.A.PushLabel(l)
		g.A.Op(0x57, 0x50)
		g.Depth--
	case k == 11: // jump over junk bytes that look like code
		l := g.A.NewLabel()
		g.A.PushLabel(l)
		g.A.Op(0x56)
		g.A.Op(rapid.SliceOfN(rapid.SampledFrom([]byte{0x5b, 0x00, 0xfe, 0x50, 0x01, 0x5a}), 0, 4).Draw(g.T, "junk")...)
		g.A.Place(l)
	case k == 12 && g.Wild && g.n(0, 3, "wildp") == 0:
		switch g.n(0, 6, "wild") {
		case 0:
			g.A.Op(rapid.Byte().Draw(g.T, "raw"))
		case 1: // jump into push data or beyond
			g.A.Op(0x61, byte(g.n(0, 1, "hi")), rapid.Byte().Draw(g.T, "lo"), 0x56)
		case 2:
			g.push(g.len())
			g.push(g.off())
			g.A.Op(rapid.SampledFrom([]byte{0xf3, 0xfd}).Draw(g.T, "end"))
			g.Depth -= 2
		case 3:
			g.A.Op(0x50, 0x50, 0x50)
		case 4:
			g.push(gens.Big(256).Draw(g.T, "hugeoff"))
			g.A.Op(0x51, 0x50)
			g.Depth--
		case 5:
			g.push(g.len())
			g.push(g.off())
			g.push(g.off())
			g.A.Op(0x3e)
			g.Depth -= 3
		case 6: // fill the stack
			l := g.A.NewLabel()
			g.A.Place(l)
			g.A.Op(0x80, 0x80, 0x80, 0x80)
			g.A.PushLabel(l)
			g.A.Op(0x56)
		}
	default:
		g.Expr(3)
		if g.Depth >= 2 && g.n(0, 2, "swap") > 0 {
			g.A.Op(0x8f + byte(g.n(1, min(16, g.Depth-1), "swapn")))
		}
		if g.Depth > 20 || g.n(0, 1, "drop") == 0 {
			g.A.Op(0x50)
			g.Depth--
		}
	}
}

// Dump emits code that writes the top stack items and the memory into a log (or returns them).
func (g *Gen) Dump(asLog bool) {
	n := min(g.Depth, 12)
	for i := 0; i < n; i++ {
		g.A.PushN(int64(2304 + 32*i))
		g.A.Op(0x52)
	}
	g.A.Op(0x59) // MSIZE
	g.A.PushN(0)
	if asLog {
		g.A.Op(0xa0, 0x00)
	} else {
		g.A.Op(0xf3)
	}
	g.Depth -= n
}
