package c31

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"verif/gens"
	"verif/vlib"
)

var preds = map[uint32]func(uint64) bool{
	1: upgrade.IsSeedUpgrade, 2: upgrade.IsDexUpgrade, 3: upgrade.IsDexFeeUpgrade, 4: upgrade.IsStemUpgrade,
	5: upgrade.IsLeafUpgrade, 6: upgrade.IsEarthUpgrade, 7: upgrade.IsDexMiningUpgrade, 8: upgrade.IsDexRobotUpgrade,
	9: upgrade.IsDexStableMarketUpgrade, 10: upgrade.IsVersion10Upgrade, 11: upgrade.IsVersion11Upgrade,
	12: upgrade.IsVersion12Upgrade, 13: upgrade.IsVersion13Upgrade, 14: upgrade.IsVersionXUpgrade,
}

func TestUpgradePoints(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 2000, Thorough: 50000, Rule: "generated upgrade schedules (1..14 versions, non-decreasing heights, ties, built by config or step by step) probed around every height; non-trivial: >=3 versions with a tie or gap"},
		func(rt *rapid.T, c *vlib.C) {
			n := rapid.IntRange(1, 14).Draw(rt, "n")
			h := rapid.Uint64Range(0, 5).Draw(rt, "h0")
			var hs []uint64
			for i := 0; i < n; i++ {
				hs = append(hs, h)
				switch rapid.IntRange(0, 3).Draw(rt, "gap") {
				case 0:
				case 1:
					h++
				case 2:
					h += rapid.Uint64Range(1, 10).Draw(rt, "d")
				case 3:
					h += rapid.Uint64Range(1, 1<<40).Draw(rt, "D")
				}
			}
			var box upgrade.UpgradeBox
			named := rapid.Bool().Draw(rt, "config")
			if named {
				m := map[string]*upgrade.UpgradePoint{}
				for i, h := range hs {
					name := fmt.Sprintf("N%d", i+1)
					m[name] = &upgrade.UpgradePoint{Name: name, Height: h, Version: uint32(i + 1)}
				}
				box = upgrade.NewCustomUpgradeBox(m)
			} else {
				box = upgrade.NewEmptyUpgradeBox()
				for i, h := range hs {
					box = box.AddPoint(uint32(i+1), h)
				}
			}
			if err := upgrade.InitUpgradeBox(box); err != nil {
				rt.Fatal(err)
			}
			defer upgrade.CleanupUpgradeBox()
			if n >= 3 {
				c.NonTrivial(fmt.Sprint(hs, named))
				c.Sample("heights %v", hs)
			}
			probe := []uint64{0, 1, ^uint64(0), gens.Uint64().Draw(rt, "probe")}
			for _, h := range hs {
				probe = append(probe, h, h+1)
				if h > 0 {
					probe = append(probe, h-1)
				}
			}
			for _, p := range probe {
				var active []uint32
				for i, h := range hs {
					if p >= h {
						active = append(active, uint32(i+1))
					}
				}
				for v, f := range preds {
					want := int(v) <= n && p >= hs[v-1]
					if got := f(p); got != want {
						rt.Fatalf("version %d at height %d: active=%v, want %v (heights %v)", v, p, got, want, hs)
					}
				}
				cur := upgrade.GetCurPoint(p)
				if (cur == nil) != (len(active) == 0) || cur != nil && cur.Version != active[len(active)-1] {
					rt.Fatalf("current point at %d is %v, active %v", p, cur, active)
				}
				ap := upgrade.GetActivePoints(p)
				if len(ap) != len(active) {
					rt.Fatalf("active points %v, want %v", ap, active)
				}
				for i := range ap {
					if ap[i].Version != active[i] || ap[i].Height != hs[active[i]-1] {
						rt.Fatalf("active points %v, want %v", ap, active)
					}
				}
				isP := false
				for _, h := range hs {
					isP = isP || h == p
				}
				if upgrade.IsUpgradePoint(p) != isP {
					rt.Fatalf("IsUpgradePoint(%d)=%v", p, !isP)
				}
				hp := upgrade.NewHeightPoint(p)
				if hp.IsDexFeeUpgrade() != (n >= 3 && p >= hs[2]) || hp.IsVersion12Upgrade() != (n >= 12 && p >= hs[11]) {
					rt.Fatalf("height point disagrees at %d", p)
				}
			}
			// activation is monotone by construction of the probes; the latest point is the last configured one
			want := 0
			for i, h := range hs {
				if h < upgrade.EndlessHeight {
					want = i + 1
				}
			}
			if lp := upgrade.GetLatestPoint(); (lp == nil) != (want == 0) || lp != nil && int(lp.Version) != want {
				rt.Fatalf("latest point %v, want version %d", lp, want)
			}
			if all := upgrade.GetAllPoints(); len(all) != n {
				rt.Fatalf("%d points, want %d", len(all), n)
			}
		})
}

// a configuration with a version gap, a duplicate of a later slot or decreasing heights is refused
func TestBadConfigRefused(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 2000, Thorough: 50000, Rule: "arbitrary version/height lists handed to NewCustomUpgradeBox, compared with the independent well-formedness rule (versions 1..n, non-decreasing heights); non-trivial: malformed list"},
		func(rt *rapid.T, c *vlib.C) {
			n := rapid.IntRange(0, 8).Draw(rt, "n")
			m := map[string]*upgrade.UpgradePoint{}
			hs := map[uint32]uint64{}
			h := uint64(1)
			skip := rapid.IntRange(0, 12).Draw(rt, "skip")
			for i := 0; i < n; i++ {
				v := uint32(i + 1)
				if i >= skip {
					v++
				}
				d := rapid.IntRange(-2, 12).Draw(rt, "dh")
				if d >= 0 {
					h += uint64(d)
				} else if uint64(-d) <= h {
					h -= uint64(-d)
				}
				m[fmt.Sprint("P", i)] = &upgrade.UpgradePoint{Height: h, Version: v}
				hs[v] = h
			}
			ok := true
			last := uint64(0)
			for v := uint32(1); v <= uint32(n); v++ {
				x, in := hs[v]
				if !in || x < last {
					ok = false
					break
				}
				last = x
			}
			p := vlib.Catch(func() { upgrade.NewCustomUpgradeBox(m) })
			if ok != (p == nil) {
				rt.Fatalf("configuration %v accepted=%v, want %v", hs, p == nil, ok)
			}
			if !ok {
				c.NonTrivial(fmt.Sprint(hs))
				c.Sample("refused %v", hs)
			}
		})
}

// the public network's activation heights, as published
var mainnet = []uint64{3488471, 5442723, 8013367, 8403110, 9413600, 16634530, 17142720, 31305900, 39694000, 77106666, 101320000, 116480000, 166869900, upgrade.EndlessHeight}

func TestMainnetHeights(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 500, Thorough: 20000, Rule: "heights around the published main-network activation heights; non-trivial: within 3 of a boundary"},
		func(rt *rapid.T, c *vlib.C) {
			var h uint64
			if rapid.Bool().Draw(rt, "near") {
				h = rapid.SampledFrom(mainnet[:13]).Draw(rt, "b") + rapid.Uint64Range(0, 6).Draw(rt, "d") - 3
				c.NonTrivial(h)
				c.Sample("height %d", h)
			} else {
				h = gens.Uint64().Draw(rt, "h")
			}
			if err := upgrade.InitUpgradeBox(upgrade.NewMainnetUpgradeBox()); err != nil {
				rt.Fatal(err)
			}
			defer upgrade.CleanupUpgradeBox()
			for v, f := range preds {
				if f(h) != (h >= mainnet[v-1]) {
					rt.Fatalf("version %d at main-network height %d: active=%v", v, h, f(h))
				}
			}
		})
}
