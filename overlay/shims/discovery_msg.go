package discovery

import (
	"net"
	"time"

	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	"github.com/vitelabs/go-vite/v2/net/vnode"
)

// VMsg is any discovery message.
type VMsg struct {
	Code      byte
	From, To  *vnode.EndPoint
	Net       int
	Ext, Echo []byte
	Time      int64
	Target    vnode.NodeID
	Count     int
	Endpoints []*vnode.EndPoint
	Last      bool
}

const VMaxPacket = maxPacketLength

func (m VMsg) body() body {
	ti := time.Unix(m.Time, 0)
	switch m.Code {
	case codePing:
		return &ping{from: m.From, to: m.To, net: m.Net, ext: m.Ext, time: ti}
	case codePong:
		return &pong{from: m.From, to: m.To, net: m.Net, ext: m.Ext, echo: m.Echo, time: ti}
	case codeFindnode:
		return &findnode{target: m.Target, count: m.Count, time: ti}
	default:
		return &neighbors{endpoints: m.Endpoints, last: m.Last, time: ti}
	}
}

func VPack(key ed25519.PrivateKey, m VMsg) (data, hash []byte, err error) {
	id, _ := vnode.Bytes2NodeID(key.PubByte())
	return message{c: m.Code, id: id, body: m.body()}.pack(key)
}

// VPackRaw signs arbitrary bytes.
func VPackRaw(key ed25519.PrivateKey, code byte, payload []byte) []byte {
	data, _ := pack(key, code, payload)
	return data
}

func VUnpack(data []byte) (m VMsg, id vnode.NodeID, hash []byte, expired bool, err error) {
	p := retrievePacket()
	p.from = &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
	if err = unPacket(data, p); err != nil {
		return
	}
	m.Code, id, hash, expired = p.c, p.id, p.hash, p.expired()
	switch b := p.body.(type) {
	case *ping:
		m.From, m.To, m.Net, m.Ext, m.Time = b.from, b.to, b.net, b.ext, b.time.Unix()
		if b.from == nil || !b.from.Typ.Is(vnode.HostDomain) {
			nodeFromPing(p)
		}
	case *pong:
		m.From, m.To, m.Net, m.Ext, m.Echo, m.Time = b.from, b.to, b.net, b.ext, b.echo, b.time.Unix()
		if b.from == nil || !b.from.Typ.Is(vnode.HostDomain) {
			nodeFromPong(p)
		}
	case *findnode:
		m.Target, m.Count, m.Time = b.target, b.count, b.time.Unix()
	case *neighbors:
		m.Endpoints, m.Last, m.Time = b.endpoints, b.last, b.time.Unix()
	}
	return
}

// VSendNodes sends endpoints from conn to an address.
func VSendNodes(key ed25519.PrivateKey, conn *net.UDPConn, eps []*vnode.EndPoint, to *net.UDPAddr) error {
	id, _ := vnode.Bytes2NodeID(key.PubByte())
	a := newAgent(key, &vnode.Node{ID: id}, "", nil)
	a.socket = conn
	return a.sendNodes(eps, to)
}
