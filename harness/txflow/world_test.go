// Package txflow: blocks of Ethereum and Cosmos transactions against a model of
// sequences, balances and fees.
package txflow

import (
	"fmt"
	"math/big"
	"time"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	"cosmossdk.io/x/feegrant"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"

	minievmapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/verifh/kit"
)

// worker modes
const (
	mStop = iota
	mRevert
	mLoop
	mInvalid
	mCount
	mCreate
	mCountRevert
	mWork
	mLog
	mCatch
	mGiveBack
	mSet
	mClear
	mCosmos
	nModes
)

var modeNames = []string{"stop", "revert", "loop", "invalid", "count", "create", "countrevert", "work", "log", "catch", "giveback", "set", "clear", "cosmos"}

// counting modes add one to slot 0 when they succeed
func counts(m int) bool {
	return m == mCount || m == mCreate || m == mCatch || m == mGiveBack || m == mCosmos
}

func workerCode() []byte {
	a := kit.NewAsm()
	labels := make([]int, nModes)
	a.Push(0).Op(vm.CALLDATALOAD).Push(248).Op(vm.SHR)
	for i := range labels {
		labels[i] = a.Label()
		a.Op(vm.DUP1).Push(uint64(i)).Op(vm.EQ).PushLabel(labels[i]).Op(vm.JUMPI)
	}
	a.Op(vm.STOP)
	count := func() { a.Push(0).Op(vm.SLOAD).Push(1).Op(vm.ADD).Push(0).Op(vm.SSTORE) }
	revert := func() { a.Push(4).Push(0).Op(vm.REVERT) }
	arg := func() { a.Push(1).Op(vm.CALLDATALOAD) }

	a.Mark(labels[mStop]).Op(vm.STOP)
	a.Mark(labels[mRevert])
	revert()
	a.Mark(labels[mLoop])
	l := a.Label()
	a.Mark(l).PushLabel(l).Op(vm.JUMP)
	a.Mark(labels[mInvalid]).Op(vm.INVALID)
	a.Mark(labels[mCount])
	count()
	a.Op(vm.STOP)
	a.Mark(labels[mCreate]).Push(0).Push(0).Push(0).Op(vm.CREATE, vm.POP)
	count()
	a.Op(vm.STOP)
	a.Mark(labels[mCountRevert])
	count()
	revert()
	a.Mark(labels[mWork])
	arg()
	l, end := a.Label(), a.Label()
	a.Mark(l).Op(vm.DUP1, vm.ISZERO).PushLabel(end).Op(vm.JUMPI).Push(1).Op(vm.SWAP1, vm.SUB).PushLabel(l).Op(vm.JUMP)
	a.Mark(end).Op(vm.STOP)
	a.Mark(labels[mLog])
	arg()
	a.Push(0).Op(vm.MSTORE)
	arg()
	a.Push(32).Push(0).Op(vm.LOG1, vm.STOP)
	a.Mark(labels[mCatch])
	a.Push(mInvalid).Push(248).Op(vm.SHL).Push(0).Op(vm.MSTORE)
	a.Push(0).Push(0).Push(1).Push(0).Push(0).Op(vm.ADDRESS).Push(20000).Op(vm.CALL, vm.POP)
	count()
	a.Op(vm.STOP)
	a.Mark(labels[mGiveBack])
	fail := a.Label()
	a.Push(0).Push(0).Push(0).Push(0).Op(vm.CALLVALUE, vm.CALLER, vm.GAS, vm.CALL, vm.ISZERO).PushLabel(fail).Op(vm.JUMPI)
	count()
	a.Op(vm.STOP)
	a.Mark(fail)
	revert()
	a.Mark(labels[mSet])
	a.Push(1)
	arg()
	a.Op(vm.SSTORE, vm.STOP)
	a.Mark(labels[mClear])
	a.Push(0)
	arg()
	a.Op(vm.SSTORE, vm.STOP)
	a.Mark(labels[mCosmos])
	fail = a.Label()
	a.Push(1).Op(vm.CALLDATASIZE, vm.SUB).Push(1).Push(0).Op(vm.CALLDATACOPY)
	a.Push(32).Push(0).Push(1).Op(vm.CALLDATASIZE, vm.SUB).Push(0).Push(0).Push(0xf1).Op(vm.GAS, vm.CALL, vm.ISZERO).PushLabel(fail).Op(vm.JUMPI)
	count()
	a.Op(vm.STOP)
	a.Mark(fail)
	revert()
	return a.Bytes()
}

// creation codes of contract creating transactions
var initCodes = func() [][]byte {
	ok := kit.InitCode(nil, []byte{byte(vm.STOP)})
	rev := kit.NewAsm().Push(0).Push(0).Op(vm.REVERT).Bytes()
	inv := kit.NewAsm().Op(vm.INVALID).Bytes()
	sstore := kit.InitCode(func(a *kit.Asm) { a.Push(7).Push(1).Op(vm.SSTORE) }, []byte{byte(vm.CALLER), byte(vm.STOP)})
	child := kit.InitCode(func(a *kit.Asm) { a.Push(0).Push(0).Push(0).Op(vm.CREATE, vm.POP) }, []byte{byte(vm.ADDRESS), byte(vm.STOP)})
	big := kit.InitCode(nil, make([]byte, 3000))
	return [][]byte{ok, rev, inv, sstore, child, big}
}()

const (
	nKeys   = 6 // key 5 has no account at genesis
	nGenKey = 5
)

// config is one flavour of chain.
type config struct {
	name     string
	denom    string
	decimals uint8
	ratio    math.LegacyDec
	shared   *kit.Shared
	worker   common.Address
}

var granted = map[[2]int]bool{{0, 1}: true, {0, 2}: true, {1, 5}: true, {4, 0}: true}

func newConfig(name, denom string, decimals uint8, ratio string) *config {
	c := &config{name: name, denom: denom, decimals: decimals, ratio: math.LegacyMustNewDecFromStr(ratio)}
	c.shared = &kit.Shared{Opts: kit.Options{NumKeys: nGenKey}, Setup: c.setup}
	return c
}

var configs = []*config{
	newConfig("default", kit.FeeDenom, 18, "0.5"),
	newConfig("full-refund", kit.FeeDenom, 18, "1"),
	newConfig("six-decimals", "uint", 6, "0.37"),
	newConfig("no-refund", "zero", 0, "0"),
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (c *config) unit() *big.Int {
	return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(18-c.decimals)), nil)
}

func pow10(n int64) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(n), nil) }

func (c *config) setup(app *minievmapp.MinitiaApp, ctx sdk.Context) {
	ek := app.EVMKeeper
	if c.denom != kit.FeeDenom {
		must(ek.ERC20Keeper().CreateERC20(ctx, c.denom, c.decimals))
		for i := 0; i < nGenKey; i++ {
			amt := math.NewIntFromBigInt(pow10(int64(c.decimals) + 12))
			must(ek.ERC20Keeper().MintCoins(ctx, kit.Acc(i), sdk.NewCoins(sdk.NewCoin(c.denom, amt))))
		}
	}
	params, err := ek.Params.Get(ctx)
	must(err)
	params.FeeDenom = c.denom
	params.GasRefundRatio = c.ratio
	must(ek.Params.Set(ctx, params))

	// key 3 is poor, key 4 has nothing
	b3 := app.BankKeeper.GetBalance(ctx, kit.Acc(3), c.denom).Amount
	must(app.BankKeeper.SendCoins(ctx, kit.Acc(3), kit.Acc(0), sdk.NewCoins(sdk.NewCoin(c.denom, b3.SubRaw(1500000)))))
	b4 := app.BankKeeper.GetBalance(ctx, kit.Acc(4), c.denom).Amount
	must(app.BankKeeper.SendCoins(ctx, kit.Acc(4), kit.Acc(0), sdk.NewCoins(sdk.NewCoin(c.denom, b4))))

	_, worker, _, err := ek.EVMCreate(ctx, common.HexToAddress("0x77"), kit.InitCode(nil, workerCode()), nil, nil)
	must(err)
	c.worker = worker
	must(app.BankKeeper.SendCoins(ctx, kit.Acc(0), worker.Bytes(), sdk.NewCoins(sdk.NewInt64Coin(c.denom, 5000))))

	for p := range granted {
		exp := kit.GenesisTime.Add(1000 * time.Hour)
		al, err := codectypes.NewAnyWithValue(&feegrant.BasicAllowance{Expiration: &exp})
		must(err)
		_, err = app.MsgServiceRouter().Handler(&feegrant.MsgGrantAllowance{})(ctx, &feegrant.MsgGrantAllowance{
			Granter: kit.Acc(p[0]).String(), Grantee: kit.Acc(p[1]).String(), Allowance: al})
		must(err)
	}
}

func feeCollector() sdk.AccAddress { return authtypes.NewModuleAddress(authtypes.FeeCollectorName) }

func inf(ctx sdk.Context) sdk.Context { return ctx.WithGasMeter(storetypes.NewInfiniteGasMeter()) }

func big0() *big.Int { return new(big.Int) }

func addrName(c *config, a common.Address) string {
	for i := 0; i < nKeys; i++ {
		if a == kit.Addr(i) {
			return fmt.Sprintf("key%d", i)
		}
	}
	if a == c.worker {
		return "worker"
	}
	if a == common.BytesToAddress(feeCollector()) {
		return "fee-collector"
	}
	return a.Hex()
}
