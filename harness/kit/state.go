package kit

import (
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/ethereum/go-ethereum/common"

	minievmapp "github.com/initia-labs/minievm/app"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// Slot reads a contract's storage.
func Slot(app *minievmapp.MinitiaApp, ctx sdk.Context, a common.Address, k common.Hash) common.Hash {
	c, _ := Branch(ctx)
	s, err := app.EVMKeeper.NewStateDB(c, nil, evmtypes.Fee{})
	if err != nil {
		panic(err)
	}
	return s.GetState(a, k)
}

// Code reads a contract's code.
func Code(app *minievmapp.MinitiaApp, ctx sdk.Context, a common.Address) []byte {
	c, _ := Branch(ctx)
	s, err := app.EVMKeeper.NewStateDB(c, nil, evmtypes.Fee{})
	if err != nil {
		panic(err)
	}
	return s.GetCode(a)
}
