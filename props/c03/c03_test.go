package c03

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/curve25519"
	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/crypto"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	"verif/gens"
	"verif/vlib"
)

// ---- independent big-integer Ed25519 with blake2b-512 ----

var (
	p  = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	l  = func() *big.Int {
		x, _ := new(big.Int).SetString("27742317777372353535851937790883648493", 10)
		return x.Add(x, new(big.Int).Lsh(big.NewInt(1), 252))
	}()
	d  = mul(big.NewInt(-121665), inv(big.NewInt(121666)))
	sm = new(big.Int).Exp(big.NewInt(2), new(big.Int).Div(new(big.Int).Sub(p, big.NewInt(1)), big.NewInt(4)), p)
	bp = func() pt {
		y := mul(big.NewInt(4), inv(big.NewInt(5)))
		x, ok := recoverX(y, 0)
		if !ok {
			panic("base point")
		}
		return affine(x, y)
	}()
)

type pt struct{ x, y, z, t *big.Int }

func mod(a *big.Int) *big.Int    { return new(big.Int).Mod(a, p) }
func mul(a, b *big.Int) *big.Int { return mod(new(big.Int).Mul(a, b)) }
func inv(a *big.Int) *big.Int    { return new(big.Int).ModInverse(mod(a), p) }
func add(a, b *big.Int) *big.Int { return mod(new(big.Int).Add(a, b)) }
func sub(a, b *big.Int) *big.Int { return mod(new(big.Int).Sub(a, b)) }
func affine(x, y *big.Int) pt    { return pt{x, y, big.NewInt(1), mul(x, y)} }

func padd(a, b pt) pt {
	A := mul(sub(a.y, a.x), sub(b.y, b.x))
	B := mul(add(a.y, a.x), add(b.y, b.x))
	C := mul(mul(mul(a.t, big.NewInt(2)), d), b.t)
	D := mul(mul(a.z, big.NewInt(2)), b.z)
	E, F, G, H := sub(B, A), sub(D, C), add(D, C), add(B, A)
	return pt{mul(E, F), mul(G, H), mul(F, G), mul(E, H)}
}

func pmul(k *big.Int, a pt) pt {
	r := affine(big.NewInt(0), big.NewInt(1))
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = padd(r, r)
		if k.Bit(i) == 1 {
			r = padd(r, a)
		}
	}
	return r
}

func le(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func toLE(x *big.Int) []byte {
	r := make([]byte, 32)
	b := x.Bytes()
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

func enc(a pt) []byte {
	zi := inv(a.z)
	x, y := mul(a.x, zi), mul(a.y, zi)
	r := toLE(y)
	r[31] |= byte(x.Bit(0)) << 7
	return r
}

func recoverX(y *big.Int, sign uint) (*big.Int, bool) {
	y2 := mul(y, y)
	u, v := sub(y2, big.NewInt(1)), add(mul(d, y2), big.NewInt(1))
	x2 := mul(u, inv(v))
	x := new(big.Int).Exp(x2, new(big.Int).Div(new(big.Int).Add(p, big.NewInt(3)), big.NewInt(8)), p)
	if mul(x, x).Cmp(x2) != 0 {
		x = mul(x, sm)
	}
	if mul(x, x).Cmp(x2) != 0 {
		return nil, false
	}
	if x.Bit(0) != sign {
		x = mod(new(big.Int).Neg(x))
	}
	return x, true
}

func dec(b []byte) (pt, bool) {
	c := append([]byte(nil), b...)
	sign := uint(c[31] >> 7)
	c[31] &= 127
	y := mod(le(c)) // like the implementation, y is reduced and the sign of x=0 is not checked
	x, ok := recoverX(y, sign)
	if !ok {
		return pt{}, false
	}
	return affine(x, y), true
}

func h(parts ...[]byte) []byte {
	s := blake2b.Sum512(bytes.Join(parts, nil))
	return s[:]
}

func refKey(seed []byte) (a *big.Int, prefix, pub []byte) {
	dg := h(seed)
	s := append([]byte(nil), dg[:32]...)
	s[0] &= 248
	s[31] &= 127
	s[31] |= 64
	a = le(s)
	return a, dg[32:], enc(pmul(a, bp))
}

func refSign(seed, msg []byte) []byte {
	a, prefix, pub := refKey(seed)
	r := new(big.Int).Mod(le(h(prefix, msg)), l)
	R := enc(pmul(r, bp))
	k := new(big.Int).Mod(le(h(R, pub, msg)), l)
	s := new(big.Int).Add(r, new(big.Int).Mul(k, a))
	s.Mod(s, l)
	return append(R, toLE(s)...)
}

func refVerify(pub, msg, sig []byte) bool {
	if len(sig) != 64 {
		return false
	}
	A, ok := dec(pub)
	if !ok {
		return false
	}
	s := le(sig[32:])
	if s.Cmp(l) >= 0 {
		return false
	}
	k := new(big.Int).Mod(le(h(sig[:32], pub, msg)), l)
	negA := affine(mod(new(big.Int).Neg(A.x)), A.y)
	return bytes.Equal(enc(padd(pmul(s, bp), pmul(k, negA))), sig[:32])
}

func seedGen(rt *rapid.T) []byte { return gens.Fixed(32).Draw(rt, "seed") }

func msgGen(rt *rapid.T, label string) []byte {
	n := rapid.OneOf(rapid.IntRange(0, 40), rapid.SampledFrom([]int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 1024, 5000})).Draw(rt, label+"len")
	b := make([]byte, n)
	x := rapid.Uint64().Draw(rt, label+"fill")
	for i := range b {
		x = x*6364136223846793005 + 1442695040888963407
		b[i] = byte(x >> 56)
	}
	return b
}

func keypair(seed []byte) (ed25519.PublicKey, ed25519.PrivateKey) {
	var d32 [32]byte
	copy(d32[:], seed)
	pub, priv, err := ed25519.GenerateKeyFromD(d32)
	if err != nil {
		panic(err)
	}
	return pub, priv
}

func TestSignAgainstReference(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 120, Thorough: 3000, Rule: "random seed and message; public key and signature must equal an independent big-integer Ed25519/blake2b; non-trivial: message not empty"},
		func(rt *rapid.T, c *vlib.C) {
			seed, msg := seedGen(rt), msgGen(rt, "msg")
			pub, priv := keypair(seed)
			_, _, wantPub := refKey(seed)
			if !bytes.Equal(pub, wantPub) || !bytes.Equal(priv.PubByte(), wantPub) || !bytes.Equal(priv[:32], seed) {
				rt.Fatalf("public key %x, reference %x", []byte(pub), wantPub)
			}
			before := append([]byte(nil), priv...)
			sig := ed25519.Sign(priv, msg)
			if want := refSign(seed, msg); !bytes.Equal(sig, want) {
				rt.Fatalf("signature %x, reference %x", sig, want)
			}
			if !bytes.Equal(before, priv) {
				rt.Fatalf("signing changed the key")
			}
			if !refVerify(pub, msg, sig) {
				rt.Fatalf("reference rejects own signature")
			}
			if len(msg) > 0 {
				c.NonTrivial(seed, msg)
				c.Sample("seed %x message %d bytes", seed, len(msg))
			}
			// address derivation from the key
			hh, _ := blake2b.New(20, nil)
			hh.Write(pub)
			if a := types.PubkeyToAddress(pub); !bytes.Equal(a[:20], hh.Sum(nil)) || a[20] != 0 || types.PrikeyToAddress(priv) != a {
				rt.Fatalf("address of key wrong")
			}
		})
}

// accepts runs every public verification entry point and requires agreement.
func accepts(rt *rapid.T, pub, msg, sig []byte) bool {
	ok, err := crypto.VerifySig(pub, msg, sig)
	ok2 := ed25519.VerifySig(pub, msg, sig) == nil
	if len(pub) != 32 {
		if err == nil || ok {
			rt.Fatalf("key of %d bytes accepted", len(pub))
		}
		if ok2 {
			rt.Fatalf("VerifySig accepts key of %d bytes", len(pub))
		}
		return false
	}
	ok3 := ed25519.Verify(pub, msg, sig)
	if err != nil || ok != ok2 || ok != ok3 {
		rt.Fatalf("verification entry points disagree: %v %v %v (%v)", ok, ok2, ok3, err)
	}
	return ok
}

func TestTamper(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 1200, Thorough: 30000, Rule: "valid signature, then one change to message, signature (bit flip, s+l, length) or key; all cases non-trivial; acceptance of a sample is compared with the reference verifier"},
		func(rt *rapid.T, c *vlib.C) {
			seed, msg := seedGen(rt), msgGen(rt, "msg")
			pub, priv := keypair(seed)
			sig := ed25519.Sign(priv, msg)
			if !accepts(rt, pub, msg, sig) {
				rt.Fatalf("own signature rejected: seed %x msg %x", seed, msg)
			}
			kind := rapid.SampledFrom([]string{"msgflip", "msggrow", "msgcut", "sigflip", "sigR", "sigS", "splusl", "siglen", "pubflip", "otherkey", "publen", "othermsg", "zero"}).Draw(rt, "kind")
			m, s, k := append([]byte(nil), msg...), append([]byte(nil), sig...), append([]byte(nil), pub...)
			flip := func(b []byte) {
				b[rapid.IntRange(0, len(b)-1).Draw(rt, "byte")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
			}
			switch kind {
			case "msgflip":
				if len(m) == 0 {
					m = []byte{0}
				}
				if len(msg) > 0 {
					flip(m)
				}
			case "msggrow":
				m = append(m, rapid.Byte().Draw(rt, "x"))
			case "msgcut":
				if len(m) == 0 {
					m = []byte{1}
				} else {
					m = m[:len(m)-1]
				}
			case "sigflip":
				flip(s)
			case "sigR":
				flip(s[:32])
			case "sigS":
				flip(s[32:])
			case "splusl": // same s modulo the group order: malleability
				v := le(s[32:])
				v.Add(v, new(big.Int).Mul(l, big.NewInt(int64(rapid.IntRange(1, 14).Draw(rt, "mult")))))
				copy(s[32:], toLE(v))
			case "siglen":
				if rapid.Bool().Draw(rt, "grow") {
					s = append(s, rapid.SliceOfN(rapid.Byte(), 1, 64).Draw(rt, "tail")...)
				} else {
					s = s[:rapid.IntRange(0, 63).Draw(rt, "n")]
				}
			case "pubflip":
				flip(k)
			case "otherkey":
				other := append([]byte(nil), seed...)
				flip(other)
				ok, _ := keypair(other)
				k = ok
			case "publen":
				n := rapid.IntRange(0, 70).Draw(rt, "n")
				if n == 32 {
					n = 33
				}
				k = append(append([]byte(nil), pub...), make([]byte, 40)...)[:n]
			case "othermsg":
				m = msgGen(rt, "m2")
				if bytes.Equal(m, msg) {
					m = append(m, 1)
				}
			case "zero":
				s = make([]byte, 64)
			}
			c.Label(kind)
			c.NonTrivial(kind, sig, m, k)
			c.Sample("%s on %d-byte message", kind, len(msg))
			got := accepts(rt, k, m, s)
			if len(k) == 32 && rapid.IntRange(0, 15).Draw(rt, "ref") == 0 {
				if want := refVerify(k, m, s); got != want {
					rt.Fatalf("%s: accepted=%v, reference %v", kind, got, want)
				}
			}
			if got {
				rt.Fatalf("tampered (%s) signature accepted: key %x msg %x sig %x", kind, k, m, s)
			}
		})
}

// arbitrary keys (also small order, non canonical) and signatures: differential against the reference
func TestVerifyDifferential(t *testing.T) {
	small := [][]byte{} // low order points
	for _, hx := range []string{
		"0100000000000000000000000000000000000000000000000000000000000000",
		"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
		"0000000000000000000000000000000000000000000000000000000000000000",
		"0000000000000000000000000000000000000000000000000000000000000080",
		"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
		"c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
	} {
		var b []byte
		fmt.Sscanf(hx, "%x", &b)
		small = append(small, b)
	}
	vlib.Check(t, vlib.Opts{Quick: 150, Thorough: 4000, Rule: "arbitrary or low-order keys with arbitrary or constructed signatures, acceptance compared with the reference verifier; non-trivial: key decodes to a curve point"},
		func(rt *rapid.T, c *vlib.C) {
			var k []byte
			if rapid.Bool().Draw(rt, "small") {
				k = append([]byte(nil), rapid.SampledFrom(small).Draw(rt, "k")...)
			} else {
				k = gens.Fixed(32).Draw(rt, "key")
			}
			msg := msgGen(rt, "m")
			var s []byte
			if rapid.Bool().Draw(rt, "constructed") {
				sc := new(big.Int).Mod(le(gens.Fixed(32).Draw(rt, "s")), l)
				s = append(enc(pmul(sc, bp)), toLE(sc)...) // valid whenever k*A vanishes
			} else {
				s = gens.Fixed(64).Draw(rt, "sig")
			}
			want := refVerify(k, msg, s)
			if _, ok := dec(k); ok {
				c.NonTrivial(k, s, msg)
				c.Sample("key %x sig %x accepted=%v", k, s, want)
			}
			c.Label(fmt.Sprintf("accepted=%v", want))
			if got := accepts(rt, k, msg, s); got != want {
				rt.Fatalf("key %x msg %x sig %x: accepted=%v, reference %v", k, msg, s, got, want)
			}
		})
}

func TestKeyAgreementAndSealing(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 400, Thorough: 10000, Rule: "two random key pairs and a random plaintext: both sides derive the same secret, sealed text opens only unmodified; all non-trivial"},
		func(rt *rapid.T, c *vlib.C) {
			s1, s2 := gens.Fixed(32).Draw(rt, "s1"), gens.Fixed(32).Draw(rt, "s2")
			p1, k1 := keypair(s1)
			p2, k2 := keypair(s2)
			a, err1 := crypto.X25519ComputeSecret(k1.ToX25519Sk(), p2.ToX25519Pk())
			b, err2 := crypto.X25519ComputeSecret(k2.ToX25519Sk(), p1.ToX25519Pk())
			if err1 != nil || err2 != nil || !bytes.Equal(a, b) || len(a) != 32 {
				rt.Fatalf("shared secrets differ: %x %x %v %v", a, b, err1, err2)
			}
			// the converted public key is the X25519 public key of the converted private key
			var sk, pk [32]byte
			copy(sk[:], k1.ToX25519Sk())
			curve25519.ScalarBaseMult(&pk, &sk)
			if !bytes.Equal(pk[:], p1.ToX25519Pk()) {
				rt.Fatalf("x25519 public key conversion wrong")
			}
			msg := msgGen(rt, "plain")
			key := a
			ct, nonce, err := crypto.AesGCMEncrypt(key, msg)
			if err != nil {
				rt.Fatal(err)
			}
			pt, err := crypto.AesGCMDecrypt(key, ct, nonce)
			if err != nil || !bytes.Equal(pt, msg) {
				rt.Fatalf("sealed text does not open: %v", err)
			}
			bad := append([]byte(nil), ct...)
			bad[rapid.IntRange(0, len(bad)-1).Draw(rt, "i")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
			if _, err := crypto.AesGCMDecrypt(key, bad, nonce); err == nil {
				rt.Fatalf("modified ciphertext opens")
			}
			wk := append([]byte(nil), key...)
			wk[rapid.IntRange(0, 31).Draw(rt, "ki")] ^= 1
			if _, err := crypto.AesGCMDecrypt(wk, ct, nonce); err == nil {
				rt.Fatalf("ciphertext opens with a wrong key")
			}
			iv := gens.Fixed(16).Draw(rt, "iv")
			x, err := crypto.AesCTRXOR(key, msg, iv)
			if err != nil {
				rt.Fatal(err)
			}
			y, err := crypto.AesCTRXOR(key, x, iv)
			if err != nil || !bytes.Equal(y, msg) {
				rt.Fatalf("stream cipher is not its own inverse")
			}
			c.NonTrivial(s1, s2, len(msg))
			c.Sample("keys %x %x, %d-byte text", s1[:4], s2[:4], len(msg))
		})
}
