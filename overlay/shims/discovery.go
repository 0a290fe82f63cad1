package discovery

import "github.com/vitelabs/go-vite/v2/net/vnode"

// VTable gives a harness access to the routing table.
type VTable struct{ t *table }

type vpinger func(n *Node, callback func(err error))

func (p vpinger) ping(n *Node, callback func(err error)) { p(n, callback) }

func VNewTable(id vnode.NodeID, netId int, ping func(n *Node, callback func(err error))) *VTable {
	return &VTable{newTable(id, netId, newListBucket, vpinger(ping))}
}

func (v *VTable) Add(n *Node) *Node                            { return v.t.add(n) }
func (v *VTable) AddNodes(n []*Node)                           { v.t.addNodes(n) }
func (v *VTable) Bubble(id vnode.NodeID) bool                  { return v.t.bubble(id) }
func (v *VTable) Remove(id vnode.NodeID) *Node                 { return v.t.remove(id) }
func (v *VTable) Resolve(id vnode.NodeID) *Node                { return v.t.resolve(id) }
func (v *VTable) ResolveAddr(a string) *Node                   { return v.t.resolveAddr(a) }
func (v *VTable) Nodes(count int) []*Node                      { return v.t.nodes(count) }
func (v *VTable) Neighbors(id vnode.NodeID, count int) []*Node { return v.t.findNeighbors(id, count) }
func (v *VTable) Oldest() []*Node                              { return v.t.oldest() }
func (v *VTable) Size() int                                    { return v.t.size() }
func (v *VTable) Reset()                                       { v.t.reset() }
func (v *VTable) Sub(f func(n *vnode.Node)) int                { return v.t.Sub(f) }
func (v *VTable) UnSub(id int)                                 { v.t.UnSub(id) }
func (v *VTable) SubTree() uint                                { return v.t.subTreeToFind() }

// Buckets lists every bucket's nodes from least to most recently active.
func (v *VTable) Buckets() (out [][]*Node) {
	for _, b := range v.t.buckets {
		out = append(out, b.nodes(0))
	}
	return
}
