package net

import (
	_net "net"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/net/netool"
	"github.com/vitelabs/go-vite/v2/net/vnode"
)

// VHandshaker gives a harness access to the peer handshake.
type VHandshaker = handshaker

type vchain struct{ genesis, head *ledger.SnapshotBlock }

func (c vchain) GetLatestSnapshotBlock() *ledger.SnapshotBlock  { return c.head }
func (c vchain) GetGenesisSnapshotBlock() *ledger.SnapshotBlock { return c.genesis }

func VNewHandshaker(netId int, name string, peerKey, key ed25519.PrivateKey, genesis types.Hash, head types.Hash, height uint64, file, public []byte) *VHandshaker {
	id, _ := vnode.Bytes2NodeID(peerKey.PubByte())
	h := &handshaker{
		version:       version,
		netId:         netId,
		name:          name,
		id:            id,
		fileAddress:   file,
		publicAddress: public,
		peerKey:       peerKey,
		key:           key,
		codecFactory:  &transportFactory{minCompressLength: 100, readTimeout: 10 * time.Second, writeTimeout: 10 * time.Second},
		blackList:     netool.NewBlackList(func(t int64, count int) bool { return false }),
		onHandshaker:  func(c Codec, flag PeerFlag, their *HandshakeMsg) (bool, error) { return len(their.Key) != 0, nil },
	}
	h.setChain(vchain{&ledger.SnapshotBlock{Hash: genesis, Height: 1}, &ledger.SnapshotBlock{Hash: head, Height: height}})
	return h
}

func vpeer(id vnode.NodeID) *Peer {
	c, _ := MockPipe()
	return newPeer(c, &HandshakeMsg{ID: id}, "", "", false, PeerFlagInbound, nil, nil)
}

// VSyncReceive runs the receiving side of a sync connection's handshake.
func VSyncReceive(conn _net.Conn, peerKey ed25519.PrivateKey, peers []vnode.NodeID) (id vnode.NodeID, err error) {
	self, _ := vnode.Bytes2NodeID(peerKey.PubByte())
	set := newPeerSet()
	for _, p := range peers {
		_ = set.add(vpeer(p))
	}
	f := &defaultSyncConnectionFactory{peers: set, id: self, peerKey: peerKey, chain: mockChain{}}
	c, err := f.receive(conn)
	if err != nil {
		return
	}
	return c.peer.Id, nil
}

// VSyncInitiate runs the initiating side.
func VSyncInitiate(conn _net.Conn, peerKey, mineKey ed25519.PrivateKey, remote vnode.NodeID) error {
	self, _ := vnode.Bytes2NodeID(peerKey.PubByte())
	f := &defaultSyncConnectionFactory{peers: newPeerSet(), id: self, peerKey: peerKey, mineKey: mineKey, chain: mockChain{}}
	_, err := f.initiate(conn, vpeer(remote))
	return err
}

// VSyncMsg is any of the messages of a sync connection.
type VSyncMsg struct {
	Kind       int // 0 handshake, 1 request, 2 response
	ID         vnode.NodeID
	Key, Token []byte
	Time       int64
	From, To   uint64
	Size       uint64
	Prev, End  types.Hash
}

func (m VSyncMsg) Serialize() ([]byte, error) {
	switch m.Kind {
	case 0:
		return (&syncHandshake{id: m.ID, key: m.Key, time: m.Time, token: m.Token}).Serialize()
	case 1:
		return (&syncRequest{from: m.From, to: m.To, prevHash: m.Prev, endHash: m.End}).Serialize()
	default:
		return (&syncResponse{from: m.From, to: m.To, size: m.Size, prevHash: m.Prev, endHash: m.End}).Serialize()
	}
}

func (m *VSyncMsg) Deserialize(b []byte) error {
	switch m.Kind {
	case 0:
		var x syncHandshake
		err := x.deserialize(b)
		m.ID, m.Key, m.Time, m.Token = x.id, x.key, x.time, x.token
		return err
	case 1:
		var x syncRequest
		err := x.deserialize(b)
		m.From, m.To, m.Prev, m.End = x.from, x.to, x.prevHash, x.endHash
		return err
	default:
		var x syncResponse
		err := x.deserialize(b)
		m.From, m.To, m.Size, m.Prev, m.End = x.from, x.to, x.size, x.prevHash, x.endHash
		return err
	}
}

// VQuery is a node that answers one peer's queries.
type VQuery struct {
	q *queryHandler
	s stateHandler
	p *Peer
}

func VNewQuery(chain Chain, id vnode.NodeID) (*VQuery, error) {
	q, err := newQueryHandler(chain)
	if err != nil {
		return nil, err
	}
	set := newPeerSet()
	p := vpeer(id)
	_ = set.add(p)
	return &VQuery{q, stateHandler{maxNeighbors: 100, peers: set}, p}, nil
}

// Handle passes a message of the peer to its handler and returns what the peer is sent.
func (v *VQuery) Handle(msg Msg) (out []Msg, err error) {
	msg.Sender = v.p
	if msg.Code == CodeHeartBeat {
		err = v.s.handle(msg)
	} else {
		err = v.q.msgHandlers.handle(msg)
	}
	for {
		select {
		case m := <-v.p.writeQueue:
			out = append(out, m)
		default:
			return
		}
	}
}

// State is what the peer said about itself.
func (v *VQuery) State() (head types.Hash, height uint64, neighbors map[vnode.NodeID]struct{}) {
	return v.p.Head, v.p.Height, v.p.peers()
}

func VExtractAddress(sender *_net.TCPAddr, b []byte, port int) string {
	return extractAddress(sender, b, port)
}

const VMaxPayload = maxPayloadSize
