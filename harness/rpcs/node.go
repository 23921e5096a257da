// Package rpcs drives the JSON-RPC servers of a node.
package rpcs

import (
	"context"
	"errors"
	"reflect"
	"sync"
	"time"
	"unsafe"

	"cosmossdk.io/log"
	rpcclient "github.com/cometbft/cometbft/rpc/client"
	coretypes "github.com/cometbft/cometbft/rpc/core/types"
	cmttypes "github.com/cometbft/cometbft/types"
	"github.com/cosmos/cosmos-sdk/client"
	"github.com/cosmos/cosmos-sdk/server"

	"github.com/ethereum/go-ethereum/rpc"

	minievmapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/jsonrpc/backend"
	"github.com/initia-labs/minievm/jsonrpc/config"
	cosmosns "github.com/initia-labs/minievm/jsonrpc/namespaces/cosmos"
	ethns "github.com/initia-labs/minievm/jsonrpc/namespaces/eth"
	"github.com/initia-labs/minievm/jsonrpc/namespaces/eth/filters"
	txpoolns "github.com/initia-labs/minievm/jsonrpc/namespaces/txpool"

	"github.com/initia-labs/minievm/verifh/kit"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func must2[T any](v T, err error) T {
	must(err)
	return v
}

// comet stands for the consensus node.
type comet struct {
	client.CometRPC         // nil: nothing else is to be used
	rpcclient.MempoolClient // nil

	mu        sync.Mutex
	app       *minievmapp.MinitiaApp
	broadcast func(tx []byte) (*coretypes.ResultBroadcastTx, error)
	pending   func() [][]byte
}

func (c *comet) Status(context.Context) (*coretypes.ResultStatus, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.app == nil {
		return nil, errors.New("the node has stopped")
	}
	return &coretypes.ResultStatus{SyncInfo: coretypes.SyncInfo{LatestBlockHeight: c.app.LastBlockHeight(), EarliestBlockHeight: 1}}, nil
}

func (c *comet) BroadcastTxSync(_ context.Context, tx cmttypes.Tx) (*coretypes.ResultBroadcastTx, error) {
	return c.broadcast(tx)
}

func (c *comet) txs(limit *int) cmttypes.Txs {
	out := cmttypes.Txs{}
	if c.pending != nil {
		for _, tx := range c.pending() {
			out = append(out, tx)
		}
	}
	if limit != nil && len(out) > *limit {
		out = out[:*limit]
	}
	return out
}

func (c *comet) UnconfirmedTxs(_ context.Context, limit *int) (*coretypes.ResultUnconfirmedTxs, error) {
	txs := c.txs(limit)
	return &coretypes.ResultUnconfirmedTxs{Count: len(txs), Total: len(c.txs(nil)), Txs: txs}, nil
}

func (c *comet) NumUnconfirmedTxs(context.Context) (*coretypes.ResultUnconfirmedTxs, error) {
	n := len(c.txs(nil))
	return &coretypes.ResultUnconfirmedTxs{Count: n, Total: n}, nil
}

// ABCIClient's method is ambiguous in the embedded interfaces.
func (c *comet) CheckTx(context.Context, cmttypes.Tx) (*coretypes.ResultCheckTx, error) {
	return nil, errors.New("not implemented")
}

// node serves JSON-RPC for an app.
type node struct {
	*rpc.Client
	app     *minievmapp.MinitiaApp
	comet   *comet
	Backend *backend.JSONRPCBackend
	server  *rpc.Server
	filters *filters.FilterAPI
}

func start(app *minievmapp.MinitiaApp, change func(*config.JSONRPCConfig)) *node {
	cfg := config.DefaultJSONRPCConfig()
	if change != nil {
		change(&cfg)
	}
	n := &node{app: app, comet: &comet{app: app}}
	n.comet.broadcast = func([]byte) (*coretypes.ResultBroadcastTx, error) { return nil, errors.New("not connected") }
	logger := log.NewNopLogger()
	clientCtx := client.Context{}.WithClient(n.comet).WithTxConfig(app.TxConfig()).WithCodec(app.AppCodec()).WithChainID(kit.ChainID)
	n.Backend = must2(backend.NewJSONRPCBackend(app, logger, server.NewDefaultContext(), clientCtx, cfg))
	n.filters = filters.NewFilterAPI(app, n.Backend, logger)
	n.server = rpc.NewServer()
	must(n.server.RegisterName("eth", ethns.NewEthAPI(logger, n.Backend)))
	must(n.server.RegisterName("eth", n.filters))
	must(n.server.RegisterName("txpool", txpoolns.NewTxPoolAPI(logger, n.Backend)))
	must(n.server.RegisterName("cosmos", cosmosns.NewCosmosAPI(logger, n.Backend)))
	n.Client = rpc.DialInProc(n.server)
	return n
}

// zero a field which keeps a stopped node alive.
func zero(of any, field string) {
	f := reflect.ValueOf(of).Elem().FieldByName(field)
	if f.IsValid() {
		p := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		p.Set(reflect.Zero(f.Type()))
	}
}

// stop the node. Its event loops never end (and need nothing which is freed here).
func (n *node) stop() {
	n.Client.Close()
	n.server.Stop()
	n.comet.mu.Lock()
	n.comet.app, n.comet.broadcast, n.comet.pending = nil, nil, nil
	n.comet.mu.Unlock()
	zero(n.filters, "app")
	zero(n.Backend, "app")
	zero(n.Backend, "clientCtx")
	kit.Free(n.app)
}

// call with a time limit.
func (n *node) ask(out any, method string, args ...any) error {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	return n.CallContext(ctx, out, method, args...)
}
