// Package deps pins the parts of go-vite the checks import, so that go.mod lists every module they need.
package deps

import (
	_ "github.com/vitelabs/go-vite/v2/ledger/chain"
	_ "github.com/vitelabs/go-vite/v2/ledger/consensus"
	_ "github.com/vitelabs/go-vite/v2/ledger/onroad"
	_ "github.com/vitelabs/go-vite/v2/ledger/pool"
	_ "github.com/vitelabs/go-vite/v2/ledger/verifier"
	_ "github.com/vitelabs/go-vite/v2/net"
	_ "github.com/vitelabs/go-vite/v2/node"
	_ "github.com/vitelabs/go-vite/v2/rpcapi/api"
	_ "github.com/vitelabs/go-vite/v2/wallet"
)
