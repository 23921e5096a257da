package index

import (
	"encoding/json"
	"errors"
	"fmt"
	"testing"
	"time"

	"cosmossdk.io/collections"

	dbm "github.com/cosmos/cosmos-db"

	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"pgregory.net/rapid"

	minievmapp "github.com/initia-labs/minievm/app"
	rpctypes "github.com/initia-labs/minievm/jsonrpc/types"

	"github.com/initia-labs/minievm/verifh/blocks"
	"github.com/initia-labs/minievm/verifh/history"
	"github.com/initia-labs/minievm/verifh/kit"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func must2[T any](v T, err error) T {
	must(err)
	return v
}

// check compares everything the index tells with the expected blocks.
func check(app *minievmapp.MinitiaApp, e *blocks.Chain) error {
	ix := app.EVMIndexer()
	ctx := must2(app.CreateQueryContext(0, false))
	missing := func(what string, err error) error {
		if err == nil {
			return fmt.Errorf("%s is found", what)
		}
		if !errors.Is(err, collections.ErrNotFound) {
			return fmt.Errorf("%s: %w", what, err)
		}
		return nil
	}
	first, last := e.Blocks[0].Header.Number.Uint64(), e.Blocks[len(e.Blocks)-1].Header.Number.Uint64()
	for _, h := range []uint64{0, first - 1, last + 1, last + 2, 1 << 40, ^uint64(0)} {
		if h >= first && h <= last {
			continue
		}
		_, err := ix.BlockHeaderByNumber(ctx, h)
		if err := missing(fmt.Sprint("header of block ", h), err); err != nil {
			return err
		}
		_, err = ix.TxByBlockAndIndex(ctx, h, 0)
		if err := missing(fmt.Sprint("transaction of block ", h), err); err != nil {
			return err
		}
		must(ix.IterateBlockTxs(ctx, h, func(tx *rpctypes.RPCTransaction) (bool, error) {
			return true, fmt.Errorf("block %d yields %s", h, tx.Hash)
		}))
	}
	for _, b := range e.Blocks {
		h := b.Header.Number.Uint64()
		header, err := ix.BlockHeaderByNumber(ctx, h)
		if err != nil {
			return fmt.Errorf("header of block %d: %w", h, err)
		}
		if x, y := must2(json.Marshal(header)), must2(json.Marshal(b.Header)); string(x) != string(y) {
			return fmt.Errorf("header of block %d:\n%s\nexpected\n%s", h, x, y)
		}
		hash := b.Header.Hash()
		if got, err := ix.BlockHashToNumber(ctx, hash); err != nil || got != h {
			return fmt.Errorf("number of block %d by hash: %d %w", h, got, err)
		}
		if got, err := ix.BlockHeaderByHash(ctx, hash); err != nil || got.Hash() != hash {
			return fmt.Errorf("header of block %d by hash: %v %w", h, got, err)
		}
		var txs []*rpctypes.RPCTransaction
		if err := ix.IterateBlockTxs(ctx, h, func(tx *rpctypes.RPCTransaction) (bool, error) { txs = append(txs, tx); return false, nil }); err != nil {
			return fmt.Errorf("transactions of block %d: %w", h, err)
		}
		var rs []*coretypes.Receipt
		if err := ix.IterateBlockTxRecepts(ctx, h, func(r *coretypes.Receipt) (bool, error) { rs = append(rs, r); return false, nil }); err != nil {
			return fmt.Errorf("receipts of block %d: %w", h, err)
		}
		if len(txs) != len(b.Txs) || len(rs) != len(b.Txs) {
			return fmt.Errorf("block %d has %d transactions and %d receipts, expected %d", h, len(txs), len(rs), len(b.Txs))
		}
		_, err = ix.TxByBlockAndIndex(ctx, h, uint64(len(b.Txs)))
		if err := missing(fmt.Sprintf("transaction %d of block %d", len(b.Txs), h), err); err != nil {
			return err
		}
		for i, t := range b.Txs {
			at := fmt.Sprintf("block %d transaction %d", h, i)
			th := t.Eth.Hash()
			byHash, err := ix.TxByHash(ctx, th)
			if err != nil {
				return fmt.Errorf("%s: %w", at, err)
			}
			byIndex, err := ix.TxByBlockAndIndex(ctx, h, uint64(i))
			if err != nil {
				return fmt.Errorf("%s by index: %w", at, err)
			}
			for _, got := range []*rpctypes.RPCTransaction{byHash, byIndex, txs[i]} {
				if err := t.SameTx(got); err != nil {
					return fmt.Errorf("%s: %w", at, err)
				}
			}
			r, err := ix.TxReceiptByHash(ctx, th)
			if err != nil {
				return fmt.Errorf("%s receipt: %w", at, err)
			}
			for _, got := range []*coretypes.Receipt{r, rs[i]} {
				if err := t.SameReceipt(got); err != nil {
					return fmt.Errorf("%s receipt: %w", at, err)
				}
			}
			if got, err := ix.CosmosTxHashByTxHash(ctx, th); err != nil || string(got) != string(t.CosmosHash) {
				return fmt.Errorf("%s: cosmos hash %X, expected %X %w", at, got, t.CosmosHash, err)
			}
			if got, err := ix.TxHashByCosmosTxHash(ctx, t.CosmosHash); err != nil || got != th {
				return fmt.Errorf("%s: hash %s, expected %s %w", at, got, th, err)
			}
		}
	}
	for _, th := range e.Absent() {
		_, err := ix.TxByHash(ctx, th)
		if err := missing("transaction not executed", err); err != nil {
			return err
		}
		_, err = ix.TxReceiptByHash(ctx, th)
		if err := missing("receipt of a transaction not executed", err); err != nil {
			return err
		}
		_, err = ix.CosmosTxHashByTxHash(ctx, th)
		if err := missing("hash of a transaction not executed", err); err != nil {
			return err
		}
		_, err = ix.BlockHashToNumber(ctx, th)
		if err := missing("block number of a transaction hash", err); err != nil {
			return err
		}
	}
	for _, th := range e.AbsentCosmos() {
		got, err := ix.TxHashByCosmosTxHash(ctx, th)
		if err := missing(fmt.Sprintf("ethereum hash %s of a cosmos transaction", got), err); err != nil {
			return err
		}
	}
	return nil
}

// subscriber collects what is emitted.
type subscriber struct {
	blocks chan *coretypes.Header
	logs   chan []*coretypes.Log
}

// block waits for the block at a height. (A block from before the subscription
// may come late, its emitter being a goroutine.)
func (s *subscriber) block(height int64) (*coretypes.Header, [][]*coretypes.Log, error) {
	var out [][]*coretypes.Log
	limit := time.After(20 * time.Second)
	for {
		select {
		case l := <-s.logs:
			if len(l) > 0 && int64(l[0].BlockNumber) >= height {
				out = append(out, l)
			}
		case h := <-s.blocks:
			if h.Number.Int64() >= height {
				return h, out, nil
			}
		case <-limit:
			return nil, out, errors.New("no block is emitted")
		}
	}
}

func (s *subscriber) check(b *blocks.Block) error {
	h, logs, err := s.block(b.Header.Number.Int64())
	if err != nil {
		return err
	}
	if x, y := must2(json.Marshal(h)), must2(json.Marshal(b.Header)); string(x) != string(y) {
		return fmt.Errorf("emitted header\n%s\nexpected\n%s", x, y)
	}
	var flat []*coretypes.Log
	for _, l := range logs {
		flat = append(flat, l...)
	}
	return blocks.SameLogs(flat, b.Logs())
}

// TestIndex runs blocks and compares the index with them.
func TestIndex(t *testing.T) {
	kit.Run(t, "at least two Ethereum transactions were executed and one was rejected or emitted logs", func(rt *rapid.T, c *kit.Case) {
		o := history.Options()
		o.DB, o.IndexerDB = dbm.NewMemDB(), dbm.NewMemDB()
		if rapid.IntRange(0, 3).Draw(rt, "small blocks") == 0 {
			o.MaxGas = rapid.SampledFrom([]int64{7_000_000, 15_000_000}).Draw(rt, "max gas")
			c.Label("small blocks")
		}
		app := kit.NewApp(o)
		defer func() { kit.Free(app) }()
		var subs []*subscriber
		subscribe := func(n int) {
			subs = nil
			for i := 0; i < n; i++ {
				b, l, p := app.EVMIndexer().Subscribe()
				_ = p
				subs = append(subs, &subscriber{blocks: b, logs: l})
			}
		}
		nsubs := rapid.IntRange(0, 1).Draw(rt, "subscribers")
		h := history.New(c)
		e := blocks.New(app)
		subscribe(nsubs)
		// the event emitters of blocks nobody takes would keep the app alive
		restart := func() {
			kit.Free(app)
			no := o
			no.NoInit = true
			app = kit.NewApp(no)
			subscribe(nsubs)
		}
		for i, n := 0, rapid.IntRange(2, 6).Draw(rt, "blocks"); i < n; i++ {
			txs := h.Setup(app)
			if i > 0 {
				txs = h.Draw(rt, app, 7)
				if len(txs) > 0 && rapid.IntRange(0, 9).Draw(rt, "big") == 0 {
					txs = append(txs, big1(rt, app))
				}
				if len(txs) > 0 && rapid.IntRange(0, 4).Draw(rt, "same again") == 0 {
					t := rapid.SampledFrom(txs).Draw(rt, "again")
					t.Kind = "replay"
					txs = append(txs, t)
				}
			}
			bz := history.Bytes(txs)
			if rapid.IntRange(0, 9).Draw(rt, "crash") == 0 {
				c.Logf("  (crash before the commit)")
				c.Label("crash")
				must2(kit.Finalize(app, bz))
				for _, s := range subs {
					if _, _, err := s.block(app.LastBlockHeight() + 1); err != nil {
						rt.Fatalf("%s\n%v", c.Trace(), err)
					}
				}
				restart()
			}
			res := must2(kit.Finalize(app, bz))
			must2(app.Commit())
			h.Record(txs, res)
			b := e.Add(app, txs, res)
			for _, s := range subs {
				if err := s.check(b); err != nil {
					rt.Fatalf("%s\nsubscriber of block %d: %v", c.Trace(), b.Header.Number, err)
				}
			}
			if rapid.IntRange(0, 2).Draw(rt, "look") == 0 || i == n-1 {
				if err := check(app, e); err != nil {
					rt.Fatalf("%s\n%v", c.Trace(), err)
				}
			}
			if rapid.IntRange(0, 9).Draw(rt, "restart") == 0 {
				c.Logf("  (restart)")
				c.Label("restart")
				restart()
				if err := check(app, e); err != nil {
					rt.Fatalf("%s\nafter a restart: %v", c.Trace(), err)
				}
			}
		}
		ran, logs := 0, 0
		for _, b := range e.Blocks {
			ran += len(b.Txs)
			logs += len(b.Logs())
		}
		c.NonTrivialIf(ran > 2 && (logs > 0 || len(e.Absent()) > 0))
	})
}

// big1 is a transaction with a lot of calldata.
func big1(rt *rapid.T, app *minievmapp.MinitiaApp) history.Tx {
	ctx := kit.Ctx(app)
	to := common.HexToAddress("0xcccc")
	n := rapid.SampledFrom([]int{1_000, 30_000, 60_000, 200_000}).Draw(rt, "bytes")
	key := rapid.IntRange(0, history.NumKeys-1).Draw(rt, "key")
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i % 7)
	}
	tx := kit.EthCall(key, kit.Seq(app, ctx, kit.Acc(key)), &to, data, nil, 12_000_000, nil)
	return history.Tx{Bytes: must2(kit.EthToCosmos(app, ctx, tx)), Eth: tx, Kind: fmt.Sprintf("big %d", n), Key: key}
}
