package c02

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"sort"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"golang.org/x/crypto/blake2b"
	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"verif/gens"
	"verif/vlib"
)

type point struct {
	name   string
	height uint64
}

// points of the upgrade box the tests install: version i+1.
var points []point

func TestMain(m *testing.M) {
	cfg := map[string]*upgrade.UpgradePoint{}
	heights := []uint64{10, 10, 20, 35, 50, 51, 60, 1000, 1 << 33, 1<<33 + 1, 1 << 50, 1 << 62}
	for i, h := range heights {
		name := fmt.Sprintf("Fork%c", 'A'+i)
		points = append(points, point{name, h})
		cfg[name] = &upgrade.UpgradePoint{Name: name, Height: h, Version: uint32(i + 1)}
	}
	upgrade.InitUpgradeBox(upgrade.NewCustomUpgradeBox(cfg))
	os.Exit(m.Run())
}

func height(rt *rapid.T) uint64 {
	if rapid.Bool().Draw(rt, "nearFork") {
		p := rapid.SampledFrom(points).Draw(rt, "fork")
		return p.height + uint64(rapid.IntRange(-1, 1).Draw(rt, "d"))
	}
	return gens.Uint64().Draw(rt, "h")
}

func be(x uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], x)
	return b[:]
}

func refHash(b *ledger.SnapshotBlock) types.Hash {
	var s []byte
	s = append(s, b.PrevHash[:]...)
	s = append(s, be(b.Height)...)
	s = append(s, be(uint64(b.Timestamp.Unix()))...)
	s = append(s, be(b.Seed)...)
	if b.SeedHash != nil {
		s = append(s, b.SeedHash[:]...)
	} else {
		s = append(s, make([]byte, 32)...)
	}
	var items []string
	for a, hh := range b.SnapshotContent {
		items = append(items, string(a[:])+string(hh.Hash[:])+string(be(hh.Height)))
	}
	sort.Strings(items)
	for _, i := range items {
		s = append(s, i...)
	}
	name := ""
	for _, p := range points {
		if p.height <= b.Height {
			name = p.name
		}
	}
	s = append(s, name...)
	if b.Height >= points[4].height { // the version is signed from upgrade 5 (leaf) on
		var v [4]byte
		binary.BigEndian.PutUint32(v[:], b.Version)
		s = append(s, v[:]...)
	}
	return types.Hash(blake2b.Sum256(s))
}

func diff(a, b *ledger.SnapshotBlock) string {
	switch {
	case a.Hash != b.Hash:
		return "Hash"
	case a.PrevHash != b.PrevHash:
		return "PrevHash"
	case a.Height != b.Height:
		return "Height"
	case !bytes.Equal(a.PublicKey, b.PublicKey):
		return "PublicKey"
	case !bytes.Equal(a.Signature, b.Signature):
		return "Signature"
	case !a.Timestamp.Equal(*b.Timestamp):
		return "Timestamp"
	case a.Seed != b.Seed:
		return "Seed"
	case (a.SeedHash == nil) != (b.SeedHash == nil) || a.SeedHash != nil && *a.SeedHash != *b.SeedHash:
		return "SeedHash"
	case a.Version != b.Version:
		return "Version"
	case len(a.SnapshotContent) != len(b.SnapshotContent):
		return "SnapshotContent length"
	}
	for k, v := range a.SnapshotContent {
		w := b.SnapshotContent[k]
		if w == nil || *w != *v {
			return "SnapshotContent of " + k.String()
		}
	}
	return ""
}

func short(b *ledger.SnapshotBlock) string {
	return fmt.Sprintf("h=%d t=%d seed=%d seedHash=%v content=%d version=%d", b.Height, b.Timestamp.Unix(), b.Seed, b.SeedHash != nil, len(b.SnapshotContent), b.Version)
}

func draw(rt *rapid.T) *ledger.SnapshotBlock {
	b := gens.SnapshotBlock().Draw(rt, "block")
	b.Height = height(rt)
	if rapid.IntRange(0, 9).Draw(rt, "large") == 0 {
		n := rapid.IntRange(20, 200).Draw(rt, "n")
		if b.SnapshotContent == nil {
			b.SnapshotContent = ledger.SnapshotContent{}
		}
		for i := 0; i < n; i++ {
			h := blake2b.Sum256(be(uint64(i)))
			var a types.Address
			copy(a[:20], h[:])
			b.SnapshotContent[a] = &ledger.HashHeight{Hash: types.Hash(h), Height: uint64(i + 1)}
		}
	}
	b.Hash = b.ComputeHash()
	return b
}

func TestRoundTrip(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 2500, Thorough: 60000, Rule: "random snapshot block, heights around every upgrade point; non-trivial: at least two content entries"},
		func(rt *rapid.T, c *vlib.C) {
			b := draw(rt)
			if len(b.SnapshotContent) >= 2 {
				c.NonTrivial(b.Hash)
				c.Sample("%s", short(b))
			}
			if got, want := b.ComputeHash(), refHash(b); got != want {
				rt.Fatalf("hash %v, reference %v for %s", got, want, short(b))
			}
			buf, err := b.Serialize()
			if err != nil {
				rt.Fatal(err)
			}
			got := &ledger.SnapshotBlock{}
			if err := got.Deserialize(buf); err != nil {
				rt.Fatal(err)
			}
			if d := diff(b, got); d != "" {
				rt.Fatalf("%s not preserved", d)
			}
			if got.ComputeHash() != b.Hash {
				rt.Fatalf("hash changed over round trip")
			}
			buf2, err := got.Serialize()
			if err != nil || !bytes.Equal(buf, buf2) {
				rt.Fatalf("encoding depends on map order (err %v)", err)
			}
			// rebuilding the content map in another order changes nothing
			if len(b.SnapshotContent) > 0 {
				var keys []types.Address
				for k := range b.SnapshotContent {
					keys = append(keys, k)
				}
				sort.Slice(keys, func(i, j int) bool { return bytes.Compare(keys[i][:], keys[j][:]) > 0 })
				other := *b
				other.SnapshotContent = ledger.SnapshotContent{}
				for _, k := range keys {
					other.SnapshotContent[k] = b.SnapshotContent[k]
				}
				o, err := other.Serialize()
				if err != nil || other.ComputeHash() != b.Hash || !bytes.Equal(o, buf) {
					rt.Fatalf("insertion order of snapshot content matters")
				}
			}
			// seed commitments
			if sh := ledger.ComputeSeedHash(b.Seed, b.PrevHash, b.Timestamp); sh != types.Hash(blake2b.Sum256(append(append(be(b.Seed), b.PrevHash[:]...), be(uint64(b.Timestamp.Unix()))...))) {
				rt.Fatalf("seed hash differs from reference")
			}
		})
}

func flip(rt *rapid.T, b []byte) {
	b[rapid.IntRange(0, len(b)-1).Draw(rt, "byte")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
}

func TestHashBinding(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 3000, Thorough: 80000, Rule: "random snapshot block and one random field change; hash must change iff the field is signed; all cases non-trivial"},
		func(rt *rapid.T, c *vlib.C) {
			b := draw(rt)
			n := *b
			ts := *b.Timestamp
			n.Timestamp = &ts
			if b.SeedHash != nil {
				h := *b.SeedHash
				n.SeedHash = &h
			}
			n.SnapshotContent = ledger.SnapshotContent{}
			var keys []types.Address
			for k, v := range b.SnapshotContent {
				cp := *v
				n.SnapshotContent[k] = &cp
				keys = append(keys, k)
			}
			sort.Slice(keys, func(i, j int) bool { return bytes.Compare(keys[i][:], keys[j][:]) < 0 })
			signed := true
			kinds := []string{"prev", "height", "time", "seed", "seedHash", "contentAdd", "version", "pk", "sig", "nanos"}
			if len(keys) > 0 {
				kinds = append(kinds, "contentHash", "contentHeight", "contentAddr", "contentDel")
			}
			if len(keys) > 1 {
				kinds = append(kinds, "contentSwap")
			}
			k := rapid.SampledFrom(kinds).Draw(rt, "field")
			key := func() types.Address { return rapid.SampledFrom(keys).Draw(rt, "key") }
			switch k {
			case "prev":
				flip(rt, n.PrevHash[:])
			case "height":
				n.Height ^= 1 << uint(rapid.IntRange(0, 63).Draw(rt, "bit"))
			case "time":
				x := ts.Add(time.Duration(rapid.IntRange(1, 1000).Draw(rt, "sec")) * time.Second)
				n.Timestamp = &x
			case "nanos":
				x := time.Unix(ts.Unix(), rapid.Int64Range(0, 999999999).Draw(rt, "ns"))
				n.Timestamp = &x
				signed = false
			case "seed":
				n.Seed ^= 1 << uint(rapid.IntRange(0, 63).Draw(rt, "bit"))
			case "seedHash":
				if n.SeedHash == nil {
					n.SeedHash = &types.Hash{}
				}
				flip(rt, n.SeedHash[:])
			case "contentAdd":
				a := gens.Address().Draw(rt, "new")
				if _, ok := n.SnapshotContent[a]; ok {
					signed = false
				} else {
					n.SnapshotContent[a] = &ledger.HashHeight{Hash: gens.Hash().Draw(rt, "h"), Height: 1}
				}
			case "contentHash":
				flip(rt, n.SnapshotContent[key()].Hash[:])
			case "contentHeight":
				n.SnapshotContent[key()].Height ^= 1 << uint(rapid.IntRange(0, 63).Draw(rt, "bit"))
			case "contentAddr":
				a := key()
				v := n.SnapshotContent[a]
				delete(n.SnapshotContent, a)
				flip(rt, a[:])
				if _, ok := n.SnapshotContent[a]; ok {
					return
				}
				n.SnapshotContent[a] = v
			case "contentDel":
				delete(n.SnapshotContent, key())
			case "contentSwap":
				i := rapid.IntRange(0, len(keys)-2).Draw(rt, "i")
				x, y := n.SnapshotContent[keys[i]], n.SnapshotContent[keys[i+1]]
				n.SnapshotContent[keys[i]], n.SnapshotContent[keys[i+1]] = y, x
				signed = *x != *y
			case "version":
				n.Version ^= 1 << uint(rapid.IntRange(0, 31).Draw(rt, "bit"))
				signed = b.Height >= points[4].height
			case "pk":
				n.PublicKey = append([]byte{1}, n.PublicKey...)
				signed = false
			case "sig":
				n.Signature = append([]byte{1}, n.Signature...)
				signed = false
			}
			c.Label(fmt.Sprintf("%s signed=%v", k, signed))
			c.NonTrivial(b.Hash, k)
			c.Sample("change %s of %s", k, short(b))
			if changed := n.ComputeHash() != b.ComputeHash(); changed != signed {
				rt.Fatalf("changing %s: hash changed=%v, expected %v", k, changed, signed)
			}
			if n.ComputeHash() != refHash(&n) {
				rt.Fatalf("hash differs from reference")
			}
		})
}

func TestMalformed(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 2000, Thorough: 60000, Rule: "encodings with impossible field sizes (must be rejected), byte mutations, arbitrary bytes (must not panic, accepted ones decode stably)"},
		func(rt *rapid.T, c *vlib.C) {
			b := draw(rt)
			var buf []byte
			must := false
			switch rapid.IntRange(0, 2).Draw(rt, "mode") {
			case 0:
				pb := b.Proto()
				n := rapid.IntRange(1, 130).Draw(rt, "len")
				f := rapid.SampledFrom([]string{"hash", "prev", "seed", "content"}).Draw(rt, "f")
				bad := func(ok func(int) bool) []byte {
					for ok(n) {
						n++
					}
					return rapid.SliceOfN(rapid.Byte(), n, n).Draw(rt, "bad")
				}
				is32 := func(n int) bool { return n == 32 }
				switch f {
				case "hash":
					pb.Hash = bad(is32)
				case "prev":
					pb.PrevHash = bad(is32)
				case "seed":
					pb.SeedHash = bad(is32)
				case "content":
					pb.SnapshotContent = bad(func(n int) bool { return n%(21+32+8) == 0 })
				}
				buf, _ = proto.Marshal(pb)
				must = true
				c.Label("bad size " + f)
				c.NonTrivial(buf)
				c.Sample("bad size of %s: %d bytes", f, n)
			case 1:
				good, _ := b.Serialize()
				buf = gens.Mutate(rt, good)
				c.NonTrivial(buf)
			default:
				buf = gens.Bytes(200).Draw(rt, "bytes")
			}
			got := &ledger.SnapshotBlock{}
			err := got.Deserialize(buf)
			if must && err == nil {
				rt.Fatalf("malformed snapshot block accepted: %x", buf)
			}
			if err == nil {
				_ = got.ComputeHash()
				buf2, err := got.Serialize()
				if err != nil {
					return
				}
				again := &ledger.SnapshotBlock{}
				if err := again.Deserialize(buf2); err != nil || diff(got, again) != "" {
					rt.Fatalf("accepted block is not stable: %v %s", err, diff(got, again))
				}
			}
		})
}
