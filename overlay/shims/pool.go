package pool

import (
	"github.com/vitelabs/go-vite/v2/common"
	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/pool/batch"
	"github.com/vitelabs/go-vite/v2/tools/toposort"
)

// VAccountItem is the item the pool adds to a batch for an account block.
func VAccountItem(b *ledger.AccountBlock) batch.Item {
	return newAccountPoolBlock(b, nil, &common.Version{}, types.RemoteSync)
}

// VSnapshotItem is the item the pool adds to a batch for a snapshot block.
func VSnapshotItem(b *ledger.SnapshotBlock) batch.Item {
	return newSnapshotPoolBlock(b, &common.Version{}, types.RemoteSync)
}

// VSort orders the blocks of a downloaded chunk for insertion.
func VSort(bs []*ledger.AccountBlock) error {
	return toposort.TopoSort(accBlocksSort(bs))
}
