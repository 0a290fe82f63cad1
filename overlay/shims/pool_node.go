package pool

import (
	"reflect"
	"strings"
	"sync"
	"time"
	"unsafe"

	lru "github.com/hashicorp/golang-lru"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/ledger/verifier"
	"github.com/vitelabs/go-vite/v2/net"
)

// VNode drives a pool step by step: the steps are those of the pool's worker loop, without its timers.
type VNode struct{ p *pool }

func VNewNode(bc chainDb, s syncer, v verifier.Verifier, r core.SBPStatReader) *VNode {
	b, err := NewPool(bc)
	if err != nil {
		panic(err)
	}
	b.Init(s, v, r)
	return &VNode{b.(*pool)}
}

func (n *VNode) Pool() BlockPool { return n.p }

func (n *VNode) Snapshot(b *ledger.SnapshotBlock, src types.BlockSource) {
	n.p.AddSnapshotBlock(b, src)
}
func (n *VNode) Account(b *ledger.AccountBlock, src types.BlockSource) {
	n.p.AddAccountBlock(b.AccountAddress, b, src)
}

func (n *VNode) CompactAccounts(dirty bool) { n.p.accountsCompact(dirty) }
func (n *VNode) CompactSnapshots()          { n.p.snapshotCompact() }
func (n *VNode) Insert()                    { n.p.insert() }
func (n *VNode) CheckFork()                 { n.p.checkFork() }
func (n *VNode) DropUseless()               { n.p.delUseLessChains() }
func (n *VNode) Chunk(r net.ChunkReader) bool {
	if c := r.Peek(); c != nil {
		return n.p.insertChunks(r, c)
	}
	return false
}

// Pass lets time go by: every point in time the pool remembers moves back, whatever it is called.
func (n *VNode) Pass(d time.Duration) {
	a := ager{d: d, seen: map[place]bool{}}
	a.walk(reflect.ValueOf(n.p))
}

type ager struct {
	d    time.Duration
	seen map[place]bool
}

type place struct {
	t reflect.Type
	p unsafe.Pointer
}

var timeType = reflect.TypeOf(time.Time{})

func (a *ager) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			a.walk(v.Elem())
		}
	case reflect.Ptr:
		at := place{v.Type(), v.UnsafePointer()}
		if v.IsNil() || a.seen[at] {
			return
		}
		a.seen[at] = true
		switch x := v.Type(); {
		case x == reflect.TypeOf((*lru.Cache)(nil)):
			c := (*lru.Cache)(v.UnsafePointer())
			for _, k := range c.Keys() {
				if e, ok := c.Peek(k); ok {
					a.walk(reflect.ValueOf(e))
				}
			}
		case x == reflect.TypeOf((*sync.Map)(nil)):
			(*sync.Map)(v.UnsafePointer()).Range(func(_, e interface{}) bool {
				a.walk(reflect.ValueOf(e))
				return true
			})
		case x.Elem() == timeType:
			t := (*time.Time)(v.UnsafePointer())
			if !t.IsZero() {
				*t = t.Add(-a.d)
			}
		case strings.Contains(x.Elem().PkgPath(), "/ledger/pool") && v.Elem().Kind() == reflect.Struct:
			e := v.Elem()
			for i := 0; i < e.NumField(); i++ {
				a.field(e.Field(i))
			}
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			a.walk(it.Value())
		}
	case reflect.Slice:
		if k := v.Type().Elem().Kind(); k == reflect.Ptr || k == reflect.Interface {
			for i := 0; i < v.Len(); i++ {
				a.walk(v.Index(i))
			}
		}
	}
}

// field: structs held by value are reached through their address.
func (a *ager) field(f reflect.Value) {
	if f.Kind() == reflect.Struct {
		a.walk(reflect.NewAt(f.Type(), f.Addr().UnsafePointer()))
		return
	}
	a.walk(f)
}
