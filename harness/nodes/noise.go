// Package nodes compares nodes which execute the same blocks and differ in
// everything else they were asked to do.
package nodes

import (
	"context"
	"fmt"
	"sort"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"

	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/cosmos/gogoproto/proto"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"

	minievmapp "github.com/initia-labs/minievm/app"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifh/history"
	"github.com/initia-labs/minievm/verifh/kit"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func must2[T any](v T, err error) T {
	must(err)
	return v
}

// op is something a node is asked to do which is no block.
type op struct {
	name string
	// concurrent operations may be asked while a block is executed
	concurrent bool
	run        func(app *minievmapp.MinitiaApp) string
}

func query(name, path string, req proto.Message, height int64) op {
	bz := must2(proto.Marshal(req))
	return op{name, true, func(app *minievmapp.MinitiaApp) string {
		res, err := app.Query(context.Background(), &abci.RequestQuery{Path: path, Data: bz, Height: height})
		if err != nil {
			return "error"
		}
		return fmt.Sprintf("code %d, %d bytes", res.Code, len(res.Value))
	}}
}

var operator = ed25519.GenPrivKeyFromSecret([]byte("verif-validator")).PubKey().Address()

func callRequest(rt *rapid.T, h *history.History, app *minievmapp.MinitiaApp) *evmtypes.QueryCallRequest {
	req := &evmtypes.QueryCallRequest{Value: math.ZeroInt()}
	if rapid.IntRange(0, 5).Draw(rt, "no sender") > 0 {
		req.Sender = sdk.AccAddress(rapid.SampledFrom(h.Addresses()).Draw(rt, "sender").Bytes()).String()
	}
	to := rapid.SampledFrom(h.Execs).Draw(rt, "to")
	switch rapid.IntRange(0, 7).Draw(rt, "call") {
	case 0:
		self := ethcrypto.CreateAddress(kit.Addr(0), 0)
		req.Input = hexutil.Encode(kit.InitCode(nil, h.Program(rt, app, self)))
	case 1:
		tokens, _ := h.Tokens(app)
		to = rapid.SampledFrom(tokens).Draw(rt, "token")
		m := rapid.SampledFrom([]string{"transfer", "approve", "mint"}).Draw(rt, "method")
		req.ContractAddr = to.Hex()
		req.Input = hexutil.Encode(must2(history.TokenABI.Pack(m, rapid.SampledFrom(h.Addresses()).Draw(rt, "whom"), common.Big1)))
	default:
		req.ContractAddr = to.Hex()
		req.Input = hexutil.Encode(kit.InitCode(nil, h.Program(rt, app, to)))
	}
	if rapid.IntRange(0, 3).Draw(rt, "with value") == 0 {
		req.Value = math.NewInt(rapid.SampledFrom([]int64{1, 1_000_000}).Draw(rt, "value"))
	}
	if rapid.IntRange(0, 3).Draw(rt, "trace") == 0 {
		req.TraceOptions = &evmtypes.TraceOptions{WithMemory: true, WithStack: true, WithStorage: true, WithReturnData: true}
	}
	return req
}

// draw an operation for a node at the state of app.
func draw(rt *rapid.T, h *history.History, app *minievmapp.MinitiaApp, next [][]byte) op {
	height := int64(0)
	if rapid.IntRange(0, 3).Draw(rt, "old") == 0 {
		height = int64(rapid.IntRange(1, int(app.LastBlockHeight())+1).Draw(rt, "height"))
	}
	tokens, denoms := h.Tokens(app)
	denom := rapid.SampledFrom(denoms).Draw(rt, "denom")
	addr := rapid.SampledFrom(append(h.Addresses(), tokens...)).Draw(rt, "address")
	acc := sdk.AccAddress(addr.Bytes()).String()
	tx := func() []byte {
		txs := append([][]byte{}, next...)
		txs = append(txs, history.Bytes(h.Draw(rt, app, 2))...)
		if len(txs) == 0 {
			return []byte{1}
		}
		return rapid.SampledFrom(txs).Draw(rt, "tx")
	}
	switch k := rapid.SampledFrom([]string{"call", "call", "call", "simulate", "simulate", "check", "check", "recheck", "code", "state", "balances", "balance", "supply", "total", "holders",
		"account", "denom", "contract", "params", "factory", "prepare", "process"}).Draw(rt, "op"); k {
	case "call":
		return query(k, "/minievm.evm.v1.Query/Call", callRequest(rt, h, app), height)
	case "code":
		return query(k, "/minievm.evm.v1.Query/Code", &evmtypes.QueryCodeRequest{ContractAddr: addr.Hex()}, height)
	case "state":
		return query(k, "/minievm.evm.v1.Query/State", &evmtypes.QueryStateRequest{ContractAddr: addr.Hex(), Key: "0x01"}, height)
	case "balances":
		return query(k, "/cosmos.bank.v1beta1.Query/AllBalances", &banktypes.QueryAllBalancesRequest{Address: acc}, height)
	case "balance":
		return query(k, "/cosmos.bank.v1beta1.Query/Balance", &banktypes.QueryBalanceRequest{Address: acc, Denom: denom}, height)
	case "supply":
		return query(k, "/cosmos.bank.v1beta1.Query/SupplyOf", &banktypes.QuerySupplyOfRequest{Denom: denom}, height)
	case "total":
		return query(k, "/cosmos.bank.v1beta1.Query/TotalSupply", &banktypes.QueryTotalSupplyRequest{}, height)
	case "holders":
		return query(k, "/cosmos.bank.v1beta1.Query/DenomOwners", &banktypes.QueryDenomOwnersRequest{Denom: denom}, height)
	case "account":
		return query(k, "/cosmos.auth.v1beta1.Query/Account", &authtypes.QueryAccountRequest{Address: acc}, height)
	case "denom":
		return query(k, "/minievm.evm.v1.Query/Denom", &evmtypes.QueryDenomRequest{ContractAddr: addr.Hex()}, height)
	case "contract":
		return query(k, "/minievm.evm.v1.Query/ContractAddrByDenom", &evmtypes.QueryContractAddrByDenomRequest{Denom: denom}, height)
	case "params":
		return query(k, "/minievm.evm.v1.Query/Params", &evmtypes.QueryParamsRequest{}, height)
	case "factory":
		return query(k, "/minievm.evm.v1.Query/ERC20Factory", &evmtypes.QueryERC20FactoryRequest{}, height)
	case "simulate":
		bz := tx()
		return op{k, true, func(app *minievmapp.MinitiaApp) string {
			res, err := app.Query(context.Background(), &abci.RequestQuery{Path: "/app/simulate", Data: bz})
			if err != nil {
				return "error"
			}
			return fmt.Sprintf("code %d", res.Code)
		}}
	case "check", "recheck":
		bz, ty := tx(), abci.CheckTxType_New
		if k == "recheck" {
			ty = abci.CheckTxType_Recheck
		}
		return op{k, false, func(app *minievmapp.MinitiaApp) string {
			res, err := app.CheckTx(&abci.RequestCheckTx{Tx: bz, Type: ty})
			if err != nil {
				return "error"
			}
			return fmt.Sprintf("code %d", res.Code)
		}}
	case "prepare":
		txs := append(append([][]byte{}, next...), tx())
		return op{k, false, func(app *minievmapp.MinitiaApp) string {
			h := app.LastBlockHeight() + 1
			res, err := app.PrepareProposal(&abci.RequestPrepareProposal{Height: h, Time: kit.BlockTime(h), MaxTxBytes: 1_000_000, Txs: txs, ProposerAddress: operator})
			if err != nil {
				return "error"
			}
			return fmt.Sprintf("%d txs", len(res.Txs))
		}}
	case "process":
		txs := append([][]byte{}, next...)
		if rapid.Bool().Draw(rt, "other") {
			txs = history.Bytes(h.Draw(rt, app, 3))
		}
		return op{k, false, func(app *minievmapp.MinitiaApp) string {
			h := app.LastBlockHeight() + 1
			res, err := app.ProcessProposal(&abci.RequestProcessProposal{Height: h, Time: kit.BlockTime(h), Hash: kit.BlockHash(h), Txs: txs, ProposerAddress: operator})
			if err != nil {
				return "error"
			}
			return res.Status.String()
		}}
	}
	panic("no such operation")
}

// dump reads every store.
func dump(app *minievmapp.MinitiaApp, ctx sdk.Context) map[string]string {
	ctx = ctx.WithGasMeter(storetypes.NewInfiniteGasMeter())
	out := map[string]string{}
	for name, k := range app.GetKVStoreKey() {
		it := ctx.KVStore(k).Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			out[fmt.Sprintf("%s %x", name, it.Key())] = string(it.Value())
		}
		it.Close()
	}
	return out
}

// committed is the state of the last commit.
func committed(app *minievmapp.MinitiaApp) map[string]string {
	return dump(app, must2(app.CreateQueryContext(0, false)))
}

func diff(a, b map[string]string) (out []string) {
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, fmt.Sprintf("%s = %.80x only before", k, v))
		} else if v != w {
			out = append(out, fmt.Sprintf("%s = %.80x before, %.80x after", k, v, w))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			out = append(out, fmt.Sprintf("%s = %.80x only after", k, v))
		}
	}
	sort.Strings(out)
	return
}
