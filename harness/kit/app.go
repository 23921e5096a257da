package kit

import (
	"crypto/ecdsa"
	"encoding/json"
	"fmt"
	"math/big"
	"sync"
	"time"

	"cosmossdk.io/log"
	sdkmath "cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"

	abci "github.com/cometbft/cometbft/abci/types"
	tmproto "github.com/cometbft/cometbft/proto/tendermint/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	"github.com/ethereum/go-ethereum/common"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"
	"github.com/initia-labs/initia/crypto/ethsecp256k1"

	minievmapp "github.com/initia-labs/minievm/app"
	evmconfig "github.com/initia-labs/minievm/x/evm/config"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// ChainID used by every harness app.
const ChainID = "minievm-7"

// FeeDenom is the fee denom of every harness app.
var FeeDenom = sdk.DefaultBondDenom

// GenesisTime is the time of the first block.
var GenesisTime = time.Unix(1_700_000_000, 0).UTC()

// Key returns the i-th deterministic account key.
func Key(i int) *ecdsa.PrivateKey {
	keyMut.Lock()
	defer keyMut.Unlock()
	if k, ok := keys[i]; ok {
		return k
	}
	d := ethcrypto.Keccak256([]byte(fmt.Sprintf("verif-key-%d", i)))
	k, err := ethcrypto.ToECDSA(d)
	if err != nil {
		panic(err)
	}
	keys[i] = k
	return k
}

var (
	keyMut sync.Mutex
	keys   = map[int]*ecdsa.PrivateKey{}
)

// CosmosKey returns the i-th key in the SDK's form.
func CosmosKey(i int) *ethsecp256k1.PrivKey {
	return &ethsecp256k1.PrivKey{Key: ethcrypto.FromECDSA(Key(i))}
}

// Addr is the ethereum address of the i-th key.
func Addr(i int) common.Address { return ethcrypto.PubkeyToAddress(Key(i).PublicKey) }

// Acc is the cosmos address of the i-th key.
func Acc(i int) sdk.AccAddress { return Addr(i).Bytes() }

// Options of an app.
type Options struct {
	DB         dbm.DB
	IndexerDB  dbm.DB
	NumKeys    int
	Balances   sdk.Coins // per key
	EVMConfig  *evmconfig.EVMConfig
	AppOptions map[string]any
	MaxGas     int64
	// Genesis lets a harness change the genesis state before InitChain.
	Genesis func(app *minievmapp.MinitiaApp, gs minievmapp.GenesisState)
	// NoInit only builds the app (used to reopen an existing database).
	NoInit bool
	// ChainID defaults to ChainID.
	ChainID string
	// BaseAppOpts are extra baseapp options.
	BaseAppOpts []func(*baseapp.BaseApp)
}

type appOpts map[string]any

func (o appOpts) Get(k string) interface{} { return o[k] }

// Operator is the block producer/admin of the harness chains.
func Operator() sdk.AccAddress {
	return sdk.AccAddress(ed25519.GenPrivKeyFromSecret([]byte("verif-validator")).PubKey().Address())
}

// DefaultBalance gives each key this much of the fee denom.
func DefaultBalance() sdk.Coins {
	return sdk.NewCoins(sdk.NewCoin(FeeDenom, sdkmath.NewIntFromBigInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(24), nil))))
}

// NewApp builds an app, initialises the chain and commits block 1.
func NewApp(o Options) *minievmapp.MinitiaApp {
	if o.DB == nil {
		o.DB = dbm.NewMemDB()
	}
	if o.IndexerDB == nil {
		o.IndexerDB = dbm.NewMemDB()
	}
	if o.ChainID == "" {
		o.ChainID = ChainID
	}
	cfg := evmconfig.DefaultEVMConfig()
	if o.EVMConfig != nil {
		cfg = *o.EVMConfig
	}
	opts := append([]func(*baseapp.BaseApp){baseapp.SetChainID(o.ChainID)}, o.BaseAppOpts...)
	app := minievmapp.NewMinitiaApp(log.NewNopLogger(), o.DB, o.IndexerDB, dbm.NewMemDB(), nil, true, cfg, appOpts(o.AppOptions), opts...)
	if o.NoInit {
		return app
	}

	gs := minievmapp.NewDefaultGenesisState(app.AppCodec(), app.BasicModuleManager, FeeDenom)

	genAccs := make([]authtypes.GenesisAccount, 0, o.NumKeys)
	balances := make([]banktypes.Balance, 0, o.NumKeys)
	if o.Balances == nil {
		o.Balances = DefaultBalance()
	}
	for i := 0; i < o.NumKeys; i++ {
		genAccs = append(genAccs, authtypes.NewBaseAccount(Acc(i), CosmosKey(i).PubKey(), uint64(i), 0))
		if !o.Balances.IsZero() {
			balances = append(balances, banktypes.Balance{Address: Acc(i).String(), Coins: o.Balances})
		}
	}
	gs[authtypes.ModuleName] = app.AppCodec().MustMarshalJSON(authtypes.NewGenesisState(authtypes.DefaultParams(), genAccs))

	pk := ed25519.GenPrivKeyFromSecret([]byte("verif-validator")).PubKey()
	pkAny, err := codectypes.NewAnyWithValue(pk)
	if err != nil {
		panic(err)
	}
	var opGs opchildtypes.GenesisState
	app.AppCodec().MustUnmarshalJSON(gs[opchildtypes.ModuleName], &opGs)
	opGs.Params.Admin = Operator().String()
	opGs.Params.BridgeExecutors = []string{Operator().String()}
	opGs = *opchildtypes.NewGenesisState(opGs.Params, []opchildtypes.Validator{{
		Moniker:         "verif",
		OperatorAddress: sdk.ValAddress(pk.Address()).String(),
		ConsensusPubkey: pkAny,
		ConsPower:       1,
	}}, nil)
	gs[opchildtypes.ModuleName] = app.AppCodec().MustMarshalJSON(&opGs)

	gs[banktypes.ModuleName] = app.AppCodec().MustMarshalJSON(banktypes.NewGenesisState(
		banktypes.DefaultGenesisState().Params, balances, sdk.NewCoins(), nil, nil))

	if o.Genesis != nil {
		o.Genesis(app, gs)
	}

	state, err := json.Marshal(gs)
	if err != nil {
		panic(err)
	}
	if _, err := app.InitChain(&abci.RequestInitChain{
		ChainId:         o.ChainID,
		Time:            GenesisTime,
		ConsensusParams: ConsensusParams(o.MaxGas),
		AppStateBytes:   state,
		InitialHeight:   1,
	}); err != nil {
		panic(err)
	}
	Block(app, nil)
	return app
}

// ConsensusParams of the harness chains (maxGas 0: the default limit).
func ConsensusParams(maxGas int64) *tmproto.ConsensusParams {
	if maxGas == 0 {
		maxGas = 1_234_000_000
	}
	return &tmproto.ConsensusParams{
		Block:     &tmproto.BlockParams{MaxBytes: 8_000_000, MaxGas: maxGas},
		Evidence:  &tmproto.EvidenceParams{MaxAgeNumBlocks: 302400, MaxAgeDuration: 504 * time.Hour, MaxBytes: 10000},
		Validator: &tmproto.ValidatorParams{PubKeyTypes: []string{"ed25519"}},
	}
}

// BlockTime is the time of the block at a height.
func BlockTime(height int64) time.Time {
	return GenesisTime.Add(time.Duration(height) * 2 * time.Second)
}

// BlockHash is the (made-up, deterministic) hash of the block at a height.
func BlockHash(height int64) []byte {
	return ethcrypto.Keccak256([]byte(fmt.Sprintf("block-%d", height)))
}

// Finalize runs the next block without committing it.
func Finalize(app *minievmapp.MinitiaApp, txs [][]byte) (*abci.ResponseFinalizeBlock, error) {
	return FinalizeAt(app, app.LastBlockHeight()+1, txs)
}

// FinalizeAt runs the block at a height (the first one of a chain that starts later).
func FinalizeAt(app *minievmapp.MinitiaApp, h int64, txs [][]byte) (*abci.ResponseFinalizeBlock, error) {
	return app.FinalizeBlock(&abci.RequestFinalizeBlock{
		Height:          h,
		Time:            BlockTime(h),
		Hash:            BlockHash(h),
		Txs:             txs,
		ProposerAddress: ed25519.GenPrivKeyFromSecret([]byte("verif-validator")).PubKey().Address(),
	})
}

// Block runs and commits the next block.
func Block(app *minievmapp.MinitiaApp, txs [][]byte) *abci.ResponseFinalizeBlock {
	res, err := Finalize(app, txs)
	if err != nil {
		panic(err)
	}
	if _, err := app.Commit(); err != nil {
		panic(err)
	}
	return res
}

// Ctx gives a context over the app's committed state; writes go to the
// uncommitted multistore, so branch it (Branch) for each case.
func Ctx(app *minievmapp.MinitiaApp) sdk.Context {
	h := app.LastBlockHeight()
	ctx := app.NewUncachedContext(false, tmproto.Header{
		ChainID: app.ChainID(),
		Height:  h,
		Time:    BlockTime(h),
	})
	return ctx.WithHeaderHash(BlockHash(h)).
		WithGasMeter(storetypes.NewInfiniteGasMeter()).
		WithExecMode(sdk.ExecModeFinalize).
		WithEventManager(sdk.NewEventManager())
}

// Branch gives a private branch of ctx whose writes are dropped unless write is called.
func Branch(ctx sdk.Context) (sdk.Context, func()) {
	c, w := ctx.CacheContext()
	return c.WithEventManager(sdk.NewEventManager()), w
}

// EVMAddr of the fee ERC20.
func FeeERC20(app *minievmapp.MinitiaApp, ctx sdk.Context) common.Address {
	a, err := evmtypes.DenomToContractAddr(ctx, app.EVMKeeper, FeeDenom)
	if err != nil {
		panic(err)
	}
	return a
}
