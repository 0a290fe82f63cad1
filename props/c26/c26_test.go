// Package c26: wallet files, key derivation and lock state against an
// independent implementation of the file format and the derivation scheme.
package c26

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"github.com/tyler-smith/go-bip39"
	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/pbkdf2"
	"golang.org/x/crypto/scrypt"
	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	"github.com/vitelabs/go-vite/v2/wallet"
	"github.com/vitelabs/go-vite/v2/wallet/entropystore"
	"github.com/vitelabs/go-vite/v2/wallet/hd-bip/derivation"
	"verif/gens"
	"verif/vlib"
)

// ---- independent reference ----

func refMac(key, data []byte) ([]byte, []byte) {
	m := hmac.New(sha512.New, key)
	m.Write(data)
	s := m.Sum(nil)
	return s[:32], s[32:]
}

func refDerive(seed []byte, path ...uint32) []byte {
	k, c := refMac([]byte("ed25519 blake2b seed"), seed)
	for _, i := range path {
		d := make([]byte, 37)
		copy(d[1:], k)
		binary.BigEndian.PutUint32(d[33:], i|0x80000000)
		k, c = refMac(c, d)
	}
	return k
}

func refKey(seed []byte, i uint32) []byte { return refDerive(seed, 44, 666666, i) }

func refPub(key []byte) []byte {
	pub, _, err := ed25519.GenerateKey(bytes.NewReader(key))
	if err != nil {
		panic(err)
	}
	return pub
}

func refAddr(key []byte) types.Address {
	h, _ := blake2b.New(20, nil)
	h.Write(refPub(key))
	var a types.Address
	copy(a[:], h.Sum(nil))
	return a
}

// refMnemonic is BIP-39 over the library's word list.
func refMnemonic(entropy []byte) string {
	sum := sha256.Sum256(entropy)
	bits := ""
	for _, b := range entropy {
		bits += fmt.Sprintf("%08b", b)
	}
	bits += fmt.Sprintf("%08b", sum[0])[:len(entropy)*8/32]
	var out []string
	list := bip39.GetWordList()
	for i := 0; i < len(bits); i += 11 {
		n := 0
		for _, c := range bits[i : i+11] {
			n = n*2 + int(c-'0')
		}
		out = append(out, list[n])
	}
	return strings.Join(out, " ")
}

func refSeed(entropy []byte) []byte {
	return pbkdf2.Key([]byte(refMnemonic(entropy)), []byte("mnemonic"), 2048, 64, sha512.New)
}

type file struct {
	addr                               string
	cipherName, cipherText, nonce, kdf string
	n, r, p, keyLen                    int
	salt                               string
	version                            int
	timestamp                          int64
}

func (f *file) json() []byte {
	m := map[string]interface{}{
		"primaryAddress": f.addr,
		"crypto": map[string]interface{}{
			"ciphername": f.cipherName, "ciphertext": f.cipherText, "nonce": f.nonce, "kdf": f.kdf,
			"scryptparams": map[string]interface{}{"n": f.n, "r": f.r, "p": f.p, "keylen": f.keyLen, "salt": f.salt},
		},
		"seedstoreversion": f.version,
		"timestamp":        f.timestamp,
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

func seal(entropy []byte, password string, salt, nonce []byte, n int) *file {
	key, err := scrypt.Key([]byte(password), salt, n, 8, 1, 32)
	if err != nil {
		panic(err)
	}
	blk, _ := aes.NewCipher(key)
	gcm, _ := cipher.NewGCM(blk)
	ct := gcm.Seal(nil, nonce, entropy, []byte("vite"))
	return &file{
		addr: refAddr(refKey(refSeed(entropy), 0)).String(), cipherName: "aes-256-gcm",
		cipherText: hex.EncodeToString(ct), nonce: hex.EncodeToString(nonce), kdf: "scrypt",
		n: n, r: 8, p: 1, keyLen: 32, salt: hex.EncodeToString(salt), version: 1, timestamp: 1600000000,
	}
}

func open(raw []byte, password string) ([]byte, error) {
	var m struct {
		Crypto struct {
			Ciphertext, Nonce string
			Scryptparams      struct {
				N, R, P, Keylen int
				Salt            string
			}
		}
	}
	if err := json.Unmarshal(raw, &m); err != nil {
		return nil, err
	}
	sp := m.Crypto.Scryptparams
	salt, _ := hex.DecodeString(sp.Salt)
	nonce, _ := hex.DecodeString(m.Crypto.Nonce)
	ct, _ := hex.DecodeString(m.Crypto.Ciphertext)
	key, err := scrypt.Key([]byte(password), salt, sp.N, sp.R, sp.P, 32)
	if err != nil {
		return nil, err
	}
	blk, _ := aes.NewCipher(key)
	gcm, _ := cipher.NewGCM(blk)
	return gcm.Open(nil, nonce, ct, []byte("vite"))
}

func genEntropy(t *rapid.T) []byte {
	n := rapid.SampledFrom([]int{16, 20, 24, 28, 32, 32, 32}).Draw(t, "entropy bytes")
	return gens.Fixed(n).Draw(t, "entropy")
}

// genPassword avoids trailing zero bytes and the 64-byte block of HMAC, where
// distinct passwords are one key by the definition of scrypt.
func genPassword(t *rapid.T, name string) string {
	s := rapid.OneOf(
		rapid.StringN(0, 12, 40),
		rapid.SampledFrom([]string{"", "123456", "a", "A", "a ", " a", "пароль", "密码"}),
	).Draw(t, name)
	return strings.TrimRight(s, "\x00")
}

func otherPassword(t *rapid.T, p string) string {
	var q string
	switch rapid.IntRange(0, 3).Draw(t, "wrong") {
	case 0:
		q = p + "x"
	case 1:
		q = strings.ToUpper(p)
	case 2:
		q = strings.TrimSpace(p)
	default:
		q = genPassword(t, "other")
	}
	if q == p {
		q = p + "!"
	}
	return q
}

func TestDerive(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "seed x path of 1..5 hardened indexes (small, large, above 2^31) or malformed path: derived key, address and signature against an independent SLIP-10 computation; non-trivial: at least two segments",
		Quick: 1500, Thorough: 30000,
	}, func(t *rapid.T, c *vlib.C) {
		seed := gens.Fixed(rapid.SampledFrom([]int{16, 32, 64}).Draw(t, "n")).Draw(t, "seed")
		n := rapid.IntRange(1, 5).Draw(t, "segments")
		var idx []uint32
		path := "m"
		over := false
		for i := 0; i < n; i++ {
			v := rapid.OneOf(rapid.Uint64Range(0, 20), rapid.Uint64Range(0, 1<<31-1), rapid.Uint64Range(1<<31-2, 1<<33)).Draw(t, "index")
			if v >= 1<<31 {
				over = true
			}
			idx = append(idx, uint32(v))
			path += fmt.Sprintf("/%d'", v)
		}
		if n > 1 {
			c.NonTrivial(path, seed)
		}
		key, err := derivation.DeriveForPath(path, seed)
		if over {
			c.Label("index above 2^31")
			if err == nil {
				t.Fatalf("%s derived a key although an index is not a valid hardened index", path)
			}
			return
		}
		if err != nil {
			t.Fatalf("%s: %v", path, err)
		}
		want := refDerive(seed, idx...)
		if !bytes.Equal(key.Key, want) {
			t.Fatalf("%s: key %x, reference %x", path, key.Key, want)
		}
		a, err := key.Address()
		if err != nil || *a != refAddr(want) {
			t.Fatalf("%s: address %v (%v), reference %v", path, a, err, refAddr(want))
		}
		msg := gens.Bytes(64).Draw(t, "msg")
		sig, pub, err := key.SignData(msg)
		if err != nil || !bytes.Equal(pub, refPub(want)) || !ed25519.Verify(pub, msg, sig) {
			t.Fatalf("%s: signature %x by %x does not verify (%v)", path, sig, pub, err)
		}
		priv, err := key.PrivateKey()
		if err != nil || types.PrikeyToAddress(priv) != *a {
			t.Fatalf("%s: private key belongs to another address", path)
		}
		i := rapid.Uint32Range(0, 1<<31-1).Draw(t, "account")
		k2, err := derivation.DeriveWithIndex(i, seed)
		if err != nil || !bytes.Equal(k2.Key, refKey(seed, i)) {
			t.Fatalf("account %d: key differs from the reference (%v)", i, err)
		}
		pa, err := derivation.GetPrimaryAddress(seed)
		if err != nil || *pa != refAddr(refKey(seed, 0)) {
			t.Fatalf("primary address %v (%v)", pa, err)
		}
		for _, bad := range []string{"", "m", path + "/", path[1:], strings.TrimSuffix(path, "'"), path + "/x'", path + "/-1'", path + "''", strings.Replace(path, "/", "//", 1)} {
			if _, err := derivation.DeriveForPath(bad, seed); err == nil {
				t.Fatalf("malformed path %q was accepted", bad)
			}
		}
		c.Sample("%s -> %v", path, a)
	})
}

func TestFile(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "an entropy file made by an independent implementation (cheap scrypt parameters), opened as is, with a wrong password, or after one field or byte was altered: the stored entropy or an error, never another entropy or a panic; non-trivial: a wrong password or an alteration",
		Quick: 900, Thorough: 20000,
	}, func(t *rapid.T, c *vlib.C) {
		entropy := genEntropy(t)
		pw := genPassword(t, "password")
		n := 1 << uint(rapid.IntRange(1, 4).Draw(t, "logN"))
		f := seal(entropy, pw, gens.Fixed(32).Draw(t, "salt"), gens.Fixed(12).Draw(t, "nonce"), n)
		got, err := entropystore.DecryptEntropy(f.json(), pw)
		if err != nil || !bytes.Equal(got, entropy) {
			t.Fatalf("file %s with its password %q: %x, %v; stored %x", f.json(), pw, got, err, entropy)
		}
		attempt := func(what string, raw []byte, password string, must bool) {
			c.Label(what)
			var out []byte
			var e error
			if msg := vlib.Catch(func() { out, e = entropystore.DecryptEntropy(raw, password) }); msg != nil {
				t.Fatalf("%s: opening the file panicked: %v\n%s", what, msg, raw)
			}
			if must && e == nil {
				t.Fatalf("%s: accepted, gave %x (stored %x)\n%s", what, out, entropy, raw)
			}
			if e == nil && !bytes.Equal(out, entropy) {
				t.Fatalf("%s: gave %x instead of the stored %x\n%s", what, out, entropy, raw)
			}
		}
		switch k := rapid.IntRange(0, 8).Draw(t, "alteration"); k {
		case 0:
			q := otherPassword(t, pw)
			c.NonTrivial("pw", pw, q)
			attempt("wrong password", f.json(), q, true)
		case 1, 2, 3:
			g := *f
			field := []*string{&g.cipherText, &g.nonce, &g.salt}[k-1]
			b, _ := hex.DecodeString(*field)
			nb := gens.Mutate(t, b)
			if bytes.Equal(nb, b) {
				nb = append(append([]byte{}, b...), 0)
			}
			*field = hex.EncodeToString(nb)
			c.NonTrivial("field", k, nb)
			// scrypt's salt is an HMAC message: every change matters
			attempt([]string{"ciphertext", "nonce", "salt"}[k-1], g.json(), pw, true)
		case 4:
			g := *f
			a := refAddr(refKey(refSeed(entropy), rapid.Uint32Range(1, 5).Draw(t, "account")))
			g.addr = a.String()
			c.NonTrivial("addr", a)
			attempt("primary address", g.json(), pw, true)
		case 5:
			g := *f
			v := rapid.SampledFrom([]int{-1, 0, 1, 2, 3, 7, 8, 9, 16, 31, 33, 64}).Draw(t, "v")
			must := true
			switch rapid.IntRange(0, 3).Draw(t, "param") {
			case 0:
				must = v != g.n
				g.n = v
			case 1:
				must = v != g.r
				g.r = v
			case 2:
				must = v != g.p
				g.p = v
			default:
				must = v < 0 // the first 32 bytes do not depend on it
				g.keyLen = v
			}
			c.NonTrivial("scrypt", g.n, g.r, g.p, g.keyLen)
			attempt("scrypt parameters", g.json(), pw, must)
		case 6:
			g := *f
			switch rapid.IntRange(0, 2).Draw(t, "name") {
			case 0:
				g.cipherName = "aes-128-ctr"
			case 1:
				g.kdf = "pbkdf2"
			default:
				g.version = rapid.SampledFrom([]int{0, 2, -1}).Draw(t, "version")
			}
			c.NonTrivial("names", g.cipherName, g.kdf, g.version)
			attempt("names", g.json(), pw, true)
		case 7:
			raw := gens.Mutate(t, f.json())
			// a mutated decimal can ask scrypt for gigabytes: skip those
			var m map[string]interface{}
			if json.Unmarshal(raw, &m) == nil {
				if cr, ok := m["crypto"].(map[string]interface{}); ok {
					if sp, ok := cr["scryptparams"].(map[string]interface{}); ok {
						for _, v := range sp {
							if x, ok := v.(float64); ok && x > 4096 {
								c.Label("skipped: huge scrypt cost")
								return
							}
						}
					}
				}
			}
			c.NonTrivial("raw", raw)
			attempt("bytes", raw, pw, false)
		default:
			raw := f.json()
			raw = raw[:rapid.IntRange(0, len(raw)-1).Draw(t, "cut")]
			c.NonTrivial("cut", len(raw))
			attempt("truncated", raw, pw, true)
		}
		c.Sample("entropy %x password %q", entropy, pw)
	})
}

func TestStore(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "a store written by the wallet with its production scrypt cost: decrypted by an independent implementation, reopened by a new manager with the right and a wrong password; every case is non-trivial",
		Quick: 3, Thorough: 40,
	}, func(t *rapid.T, c *vlib.C) {
		dir := vlib.TempDir(t)
		entropy := genEntropy(t)
		pw := genPassword(t, "password")
		seed := refSeed(entropy)
		c.NonTrivial(entropy, pw)
		m := wallet.New(&config.Wallet{DataDir: dir})
		if err := m.Start(); err != nil {
			t.Fatal(err)
		}
		em, err := m.RecoverEntropyStoreFromMnemonic(refMnemonic(entropy), pw)
		if err != nil {
			t.Fatalf("storing: %v", err)
		}
		name := em.GetEntropyStoreFile()
		if em.GetPrimaryAddr() != refAddr(refKey(seed, 0)) {
			t.Fatalf("primary address %v", em.GetPrimaryAddr())
		}
		raw, err := os.ReadFile(name)
		if err != nil {
			t.Fatal(err)
		}
		if got, err := open(raw, pw); err != nil || !bytes.Equal(got, entropy) {
			t.Fatalf("independent decryption of the stored file: %x, %v; want %x", got, err, entropy)
		}
		if strings.Contains(string(raw), hex.EncodeToString(entropy)) && len(bytes.Trim(entropy, "\x00")) > 4 {
			t.Fatalf("the file holds the entropy in clear")
		}
		m.Stop()
		m = wallet.New(&config.Wallet{DataDir: dir})
		if err := m.Start(); err != nil {
			t.Fatal(err)
		}
		if err := m.Unlock(name, otherPassword(t, pw)); err == nil || m.IsUnlocked(name) {
			t.Fatalf("a wrong password opened the store")
		}
		if err := m.Unlock(name, pw); err != nil || !m.IsUnlocked(name) {
			t.Fatalf("the password does not open the reopened store: %v", err)
		}
		i := rapid.Uint32Range(0, 99).Draw(t, "account")
		want := refAddr(refKey(seed, i))
		if _, _, idx, err := m.GlobalFindAddr(want); err != nil || idx != i {
			t.Fatalf("address %d of the store not found (%d, %v)", i, idx, err)
		}
		c.Sample("entropy %x password %q", entropy, pw)
	})
}

// ---- histories of a wallet with several stores ----

type store struct {
	path     string
	entropy  []byte
	seed     []byte
	pw       string
	known    bool
	unlocked bool
	deleted  bool
}

type listener struct {
	id     int
	events []string
}

const searchMax = 6

func TestHistory(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "histories of unlocking (right or wrong password), locking, adding and removing stores by absolute or relative name, deleting files, restarting, signing and looking addresses up over up to 4 stores, two of which may share a seed: every answer against a model of which stores are known and unlocked; non-trivial: a signature was made after a lock and unlock",
		Quick: 60, Thorough: 1500, Steps: 30,
	}, func(t *rapid.T, c *vlib.C) {
		dir, outside := vlib.TempDir(t), vlib.TempDir(t)
		var stores []*store
		n := rapid.IntRange(1, 4).Draw(t, "stores")
		for i := 0; i < n; i++ {
			s := &store{pw: genPassword(t, "pw")}
			if i > 0 && rapid.IntRange(0, 3).Draw(t, "share") == 0 {
				s.entropy, s.seed = stores[0].entropy, stores[0].seed
			} else {
				s.entropy = genEntropy(t)
				s.seed = refSeed(s.entropy)
			}
			raw := seal(s.entropy, s.pw, gens.Fixed(32).Draw(t, "salt"), gens.Fixed(12).Draw(t, "nonce"), 2).json()
			d := dir
			if rapid.IntRange(0, 3).Draw(t, "outside") == 0 {
				d = outside
			} else {
				s.known = true
			}
			s.path = filepath.Join(d, fmt.Sprintf("store%d", i))
			if err := os.WriteFile(s.path, raw, 0600); err != nil {
				t.Fatal(err)
			}
			stores = append(stores, s)
		}
		os.WriteFile(filepath.Join(dir, "junk"), []byte(`{"a":1}`), 0600)
		os.WriteFile(filepath.Join(dir, ".hidden"), []byte(`x`), 0600)
		os.Mkdir(filepath.Join(dir, "sub"), 0700)
		m := wallet.New(&config.Wallet{DataDir: dir, MaxSearchIndex: searchMax})
		if err := m.Start(); err != nil {
			t.Fatal(err)
		}
		var lis []*listener
		relock, signed := false, false
		addrs := map[string][]types.Address{}
		addrAt := func(s *store, i uint32) types.Address {
			k := string(s.seed)
			for uint32(len(addrs[k])) <= i {
				addrs[k] = append(addrs[k], refAddr(refKey(s.seed, uint32(len(addrs[k])))))
			}
			return addrs[k][i]
		}
		pick := func() *store { return stores[rapid.IntRange(0, n-1).Draw(t, "store")] }
		name := func(s *store) string {
			if filepath.Dir(s.path) == dir && rapid.Bool().Draw(t, "relative") {
				return filepath.Base(s.path)
			}
			return s.path
		}
		canOpen := func(s *store, pw string) bool { return pw == s.pw && !s.deleted }
		password := func(s *store) string {
			if rapid.IntRange(0, 3).Draw(t, "wrongpw") == 0 {
				return otherPassword(t, s.pw)
			}
			return s.pw
		}
		// changed compares the events of all listeners for one operation.
		changed := func(op func(), expect bool) {
			before := make([]int, len(lis))
			for i, l := range lis {
				before[i] = len(l.events)
			}
			op()
			for i, l := range lis {
				got := l.events[before[i]:]
				if first := lis[0].events[before[0]:]; i > 0 && len(got)+len(first) > 0 && !reflect.DeepEqual(got, first) {
					t.Fatalf("listener %d saw %v, listener %d saw %v", l.id, got, lis[0].id, lis[0].events[before[0]:])
				}
				if expect && len(got) == 0 {
					t.Fatalf("listener %d (of %d) was not told about a change of the lock state", l.id, len(lis))
				}
			}
		}
		log := []string{}
		t.Repeat(map[string]func(*rapid.T){
			"unlock": func(t *rapid.T) {
				s := pick()
				pw := password(s)
				log = append(log, "unlock")
				ok := s.known && canOpen(s, pw)
				changed(func() {
					if err := m.Unlock(name(s), pw); (err == nil) != ok {
						t.Fatalf("unlock of %s (known %v, deleted %v, right password %v): %v", s.path, s.known, s.deleted, pw == s.pw, err)
					}
				}, ok && !s.unlocked)
				if ok {
					s.unlocked = true
				}
			},
			"lock": func(t *rapid.T) {
				s := pick()
				log = append(log, "lock")
				changed(func() {
					if err := m.Lock(name(s)); (err == nil) != s.known {
						t.Fatalf("lock of %s (known %v): %v", s.path, s.known, err)
					}
				}, s.known && s.unlocked)
				if s.known && s.unlocked {
					relock = true
				}
				s.unlocked = false
			},
			"add": func(t *rapid.T) {
				s := pick()
				log = append(log, "add")
				err := m.AddEntropyStore(name(s))
				if (err == nil) != !s.deleted {
					t.Fatalf("add of %s (deleted %v): %v", s.path, s.deleted, err)
				}
				if err == nil {
					s.known = true
				}
			},
			"remove": func(t *rapid.T) {
				s := pick()
				log = append(log, "remove")
				changed(func() { m.RemoveEntropyStore(name(s)) }, s.known && s.unlocked)
				s.known, s.unlocked = false, false
			},
			"delete": func(t *rapid.T) {
				s := pick()
				if rapid.IntRange(0, 3).Draw(t, "really") != 0 {
					return
				}
				log = append(log, "delete")
				os.Remove(s.path)
				s.deleted = true
				if rapid.Bool().Draw(t, "refresh") {
					m.RefreshCache()
					for _, x := range stores {
						if x.deleted {
							x.known, x.unlocked = false, false
						}
					}
				}
			},
			"restart": func(t *rapid.T) {
				if rapid.IntRange(0, 2).Draw(t, "really") != 0 {
					return
				}
				log = append(log, "restart")
				m.Stop()
				m = wallet.New(&config.Wallet{DataDir: dir, MaxSearchIndex: searchMax})
				if err := m.Start(); err != nil {
					t.Fatal(err)
				}
				lis = nil
				for _, s := range stores {
					s.unlocked = false
					s.known = filepath.Dir(s.path) == dir && !s.deleted
				}
			},
			"listen": func(t *rapid.T) {
				if len(lis) >= 3 {
					l := lis[len(lis)-1]
					m.RemoveUnlockChangeChannel(l.id)
					lis = lis[:len(lis)-1]
					return
				}
				l := &listener{}
				l.id = m.AddLockEventListener(func(e entropystore.UnlockEvent) { l.events = append(l.events, e.String()) })
				lis = append(lis, l)
			},
			"sign": func(t *rapid.T) {
				s := pick()
				if !s.known {
					return
				}
				em, err := m.GetEntropyStoreManager(s.path)
				if err != nil {
					t.Fatalf("known store %s: %v", s.path, err)
				}
				i := rapid.Uint32Range(0, searchMax+1).Draw(t, "account")
				a := addrAt(s, i)
				msg := gens.Bytes(40).Draw(t, "msg")
				ok := s.unlocked && i < searchMax
				sig, pub, err := em.SignData(a, msg)
				if (err == nil) != ok {
					t.Fatalf("signing with account %d of %s (unlocked %v): %v", i, s.path, s.unlocked, err)
				}
				if ok {
					if !bytes.Equal(pub, refPub(refKey(s.seed, i))) || !ed25519.Verify(pub, msg, sig) {
						t.Fatalf("wrong signature")
					}
					signed = signed || relock
				}
				if got := em.IsAddrUnlocked(a); got != ok {
					t.Fatalf("IsAddrUnlocked(account %d) = %v, unlocked %v", i, got, s.unlocked)
				}
				priv, err := em.GetPrivateKey(a)
				if (err == nil) != ok {
					t.Fatalf("private key of account %d of %s (unlocked %v): %v", i, s.path, s.unlocked, err)
				}
				if ok && types.PrikeyToAddress(priv) != a {
					t.Fatalf("private key of another address")
				}
				pw := password(s)
				okp := canOpen(s, pw) && i < searchMax
				if _, _, err := em.SignDataWithPassphrase(a, pw, msg); (err == nil) != okp {
					t.Fatalf("SignDataWithPassphrase(account %d, right %v): %v", i, pw == s.pw, err)
				}
			},
			"mnemonic": func(t *rapid.T) {
				s := pick()
				pw := password(s)
				got, err := m.ExtractMnemonic(name(s), pw)
				if ok := s.known && canOpen(s, pw); (err == nil) != ok {
					t.Fatalf("mnemonic of %s (known %v, right %v): %v", s.path, s.known, pw == s.pw, err)
				}
				if err == nil && got != refMnemonic(s.entropy) {
					t.Fatalf("mnemonic %q, want %q", got, refMnemonic(s.entropy))
				}
			},
			"list": func(t *rapid.T) {
				s := pick()
				if !s.known {
					return
				}
				em, err := m.GetEntropyStoreManager(s.path)
				if err != nil {
					t.Fatalf("known store %s: %v", s.path, err)
				}
				from := rapid.Uint32Range(0, 4).Draw(t, "from")
				to := rapid.Uint32Range(0, 6).Draw(t, "to")
				got, err := em.ListAddress(from, to)
				if ok := s.unlocked && from <= to; (err == nil) != ok {
					t.Fatalf("ListAddress(%d, %d), unlocked %v: %v", from, to, s.unlocked, err)
				}
				if err == nil {
					if len(got) != int(to-from) {
						t.Fatalf("ListAddress(%d, %d) gave %d addresses", from, to, len(got))
					}
					for i, a := range got {
						if a != addrAt(s, from+uint32(i)) {
							t.Fatalf("address %d is %v", from+uint32(i), a)
						}
					}
				}
			},
			"find": func(t *rapid.T) {
				s := pick()
				i := rapid.Uint32Range(0, searchMax+1).Draw(t, "account")
				a := addrAt(s, i)
				ok := false
				for _, x := range stores {
					if x.unlocked && bytes.Equal(x.seed, s.seed) && i < searchMax {
						ok = true
					}
				}
				path, key, idx, err := m.GlobalFindAddr(a)
				if (err == nil) != ok {
					t.Fatalf("GlobalFindAddr(account %d of %s) : %v, want found %v", i, s.path, err, ok)
				}
				if m.GlobalCheckAddrUnlock(a) != ok {
					t.Fatalf("GlobalCheckAddrUnlock differs from GlobalFindAddr")
				}
				if ok {
					if idx != i || !bytes.Equal(key.Key, refKey(s.seed, i)) {
						t.Fatalf("found account %d instead of %d", idx, i)
					}
					found := false
					for _, x := range stores {
						found = found || (x.path == path && x.unlocked && bytes.Equal(x.seed, s.seed))
					}
					if !found {
						t.Fatalf("found in %s, which is not an unlocked store of that seed", path)
					}
				}
				acc, err := m.Account(a)
				if (err == nil) != ok {
					t.Fatalf("Account(account %d of %s): %v, want found %v", i, s.path, err, ok)
				}
				if ok && acc.Address() != a {
					t.Fatalf("account of another address")
				}
				j := rapid.Uint32Range(0, searchMax+1).Draw(t, "other")
				okAt := s.known && s.unlocked && i == j
				if _, err := m.AccountAtIndex(s.path, a, j); (err == nil) != okAt {
					t.Fatalf("AccountAtIndex(account %d at %d), unlocked %v: %v", i, j, s.unlocked, err)
				}
				if err := m.MatchAddress(s.path, a, j); (err == nil) != okAt {
					t.Fatalf("MatchAddress(account %d at %d), unlocked %v: %v", i, j, s.unlocked, err)
				}
			},
			"search": func(t *rapid.T) {
				s := pick()
				i := rapid.Uint32Range(0, searchMax+1).Draw(t, "account")
				pw := password(s)
				p := s.path
				acc, err := m.AccountSearch(&p, addrAt(s, i), pw)
				opened := s.known && canOpen(s, pw)
				if ok := opened && i < searchMax; (err == nil) != ok {
					t.Fatalf("AccountSearch(account %d of %s, right %v): %v", i, s.path, pw == s.pw, err)
				}
				if err == nil && acc.Address() != addrAt(s, i) {
					t.Fatalf("account of another address")
				}
				if opened {
					s.unlocked = true // searching with the password unlocks the store
				}
			},
			"": func(t *rapid.T) {
				known := map[string]bool{}
				for _, f := range m.ListAllEntropyFiles() {
					known[f] = true
				}
				for _, s := range stores {
					if known[s.path] != s.known {
						t.Fatalf("store %s listed %v, want %v", s.path, known[s.path], s.known)
					}
					delete(known, s.path)
					if m.IsUnlocked(s.path) != (s.known && s.unlocked) {
						t.Fatalf("store %s unlocked %v, want %v", s.path, m.IsUnlocked(s.path), s.unlocked)
					}
				}
				if len(known) > 0 {
					t.Fatalf("unknown stores listed: %v", known)
				}
			},
		})
		if signed {
			c.NonTrivial(log, len(stores))
			c.Label("signed after relocking")
		}
		c.Sample("%d stores: %v", n, log)
	})
}
