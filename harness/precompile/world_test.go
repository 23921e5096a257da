// Package precompile checks the effects and the authority of the precompiles.
package precompile

import (
	"fmt"
	"math/big"
	"strings"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/vm"

	minievmapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/x/evm/contracts/i_cosmos"
	"github.com/initia-labs/minievm/x/evm/contracts/i_erc20_registry"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifh/kit"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func mustABI(a *abi.ABI, err error) *abi.ABI {
	must(err)
	return a
}

var (
	cosmosABI   = mustABI(i_cosmos.ICosmosMetaData.GetAbi())
	registryABI = mustABI(i_erc20_registry.IErc20RegistryMetaData.GetAbi())

	cosmosAddr   = common.HexToAddress("0xf1")
	registryAddr = common.HexToAddress("0xf2")
)

func pack(a *abi.ABI, name string, args ...any) []byte {
	bz, err := a.Pack(name, args...)
	must(err)
	return bz
}

func acc(a common.Address) sdk.AccAddress { return a.Bytes() }

func msgJSON(app *minievmapp.MinitiaApp, m sdk.Msg) string {
	bz, err := app.AppCodec().MarshalInterfaceJSON(m)
	must(err)
	return string(bz)
}

func execute(app *minievmapp.MinitiaApp, m sdk.Msg) []byte {
	return pack(cosmosABI, "execute_cosmos", msgJSON(app, m))
}

func msgCall(from sdk.AccAddress, to common.Address, input []byte) *evmtypes.MsgCall {
	return &evmtypes.MsgCall{Sender: from.String(), ContractAddr: to.Hex(), Input: hexutil.Encode(input), Value: math.ZeroInt()}
}

func msgSend(from, to sdk.AccAddress, n int64) *banktypes.MsgSend {
	return &banktypes.MsgSend{FromAddress: from.String(), ToAddress: to.String(), Amount: sdk.Coins{sdk.NewInt64Coin(kit.FeeDenom, n)}}
}

// appender is the runtime of a contract which keeps a list: it appends the first
// word of its input, and reverts when that word is zero.
func appender() []byte {
	a := kit.NewAsm()
	rev := a.Label()
	a.Push(0).Op(vm.CALLDATALOAD, vm.DUP1, vm.ISZERO).PushLabel(rev).Op(vm.JUMPI)
	a.Push(0).Op(vm.SLOAD).Push(1).Op(vm.ADD) // v n
	a.Op(vm.DUP1).Push(0).Op(vm.SSTORE)       // v n
	a.Op(vm.SSTORE, vm.STOP)                  // [n] = v
	a.Mark(rev).Push(0).Push(0).Op(vm.REVERT)
	return a.Bytes()
}

func list(app *minievmapp.MinitiaApp, ctx sdk.Context, at common.Address) []uint64 {
	n := kit.Slot(app, ctx, at, common.Hash{}).Big().Uint64()
	var out []uint64
	for i := uint64(1); i <= n; i++ {
		out = append(out, kit.Slot(app, ctx, at, common.BigToHash(new(big.Int).SetUint64(i))).Big().Uint64())
	}
	return out
}

// balances of the fee denom.
func balance(app *minievmapp.MinitiaApp, ctx sdk.Context, a sdk.AccAddress) *big.Int {
	return app.BankKeeper.GetBalance(ctx, a, kit.FeeDenom).Amount.BigInt()
}

func word(n uint64) []byte { return common.BigToHash(new(big.Int).SetUint64(n)).Bytes() }

func indent(s string) string { return "  " + strings.ReplaceAll(s, "\n", "\n  ") }

var _ = fmt.Sprint
