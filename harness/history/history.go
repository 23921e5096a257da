// Package history generates chains: blocks of signed Ethereum and Cosmos
// transactions which create and use contracts, tokens, precompiles, accounts
// and settings, among them failing, malformed and replayed ones.
package history

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"slices"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"
	"pgregory.net/rapid"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	minievmapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/x/evm/contracts/erc20_factory"
	"github.com/initia-labs/minievm/x/evm/contracts/i_cosmos"
	"github.com/initia-labs/minievm/x/evm/contracts/i_erc20_registry"
	"github.com/initia-labs/minievm/x/evm/contracts/initia_erc20"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifh/kit"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func must2[T any](v T, err error) T {
	must(err)
	return v
}

var (
	CosmosABI   = must2(i_cosmos.ICosmosMetaData.GetAbi())
	RegistryABI = must2(i_erc20_registry.IErc20RegistryMetaData.GetAbi())
	FactoryABI  = must2(erc20_factory.Erc20FactoryMetaData.GetAbi())
	TokenABI    = must2(initia_erc20.InitiaErc20MetaData.GetAbi())
	tokenBin    = must2(hexutil.Decode(initia_erc20.InitiaErc20Bin))

	cosmosAddr   = evmtypes.CosmosPrecompileAddress
	registryAddr = evmtypes.ERC20RegistryPrecompileAddress
)

// NumKeys is the number of funded keys. Key 0 is the admin and the executor of the bridge.
const NumKeys = 4

// Options of a chain driven by a History.
func Options() kit.Options {
	return kit.Options{NumKeys: NumKeys, Genesis: func(app *minievmapp.MinitiaApp, gs minievmapp.GenesisState) {
		var op opchildtypes.GenesisState
		app.AppCodec().MustUnmarshalJSON(gs[opchildtypes.ModuleName], &op)
		op.Params.Admin = kit.Acc(0).String()
		op.Params.BridgeExecutors = []string{kit.Acc(0).String()}
		gs[opchildtypes.ModuleName] = app.AppCodec().MustMarshalJSON(&op)
	}}
}

// Tx is one generated transaction.
type Tx struct {
	Bytes []byte
	Eth   *coretypes.Transaction // when the bytes wrap one
	Kind  string
	Key   int
}

// History generates the transactions of one chain.
type History struct {
	C      *kit.Case
	Execs  []common.Address // contracts which run the code in their calldata
	Past   []Tx             // everything generated
	Blocks []*abci.ResponseFinalizeBlock
	Txs    [][]Tx // per block of Blocks
	// Plain leaves out settings which change fees and permissions.
	Plain bool

	l1seq uint64
	salt  uint64
	auths map[string]bool
}

// New starts a history; its first block deploys the contracts.
func New(c *kit.Case) *History {
	h := &History{C: c, l1seq: 1}
	for i := 0; i < 2; i++ {
		h.Execs = append(h.Execs, ethcrypto.CreateAddress(kit.Addr(1), uint64(i)))
	}
	return h
}

// executor runs the code given as calldata in its own context.
func executor() []byte {
	a := kit.NewAsm()
	made, fail := a.Label(), a.Label()
	a.Op(vm.CALLDATASIZE).Push(0).Push(0).Op(vm.CALLDATACOPY)
	a.Op(vm.CALLDATASIZE).Push(0).Push(0).Op(vm.CREATE)
	a.Op(vm.DUP1).PushLabel(made).Op(vm.JUMPI).Push(0).Push(0).Op(vm.REVERT)
	a.Mark(made)
	a.Push(0).Push(0).Push(0).Push(0).Op(vm.DUP5, vm.GAS, vm.DELEGATECALL)
	a.Op(vm.RETURNDATASIZE).Push(0).Push(0).Op(vm.RETURNDATACOPY)
	a.Op(vm.ISZERO).PushLabel(fail).Op(vm.JUMPI)
	a.Op(vm.RETURNDATASIZE).Push(0).Op(vm.RETURN)
	a.Mark(fail)
	a.Op(vm.RETURNDATASIZE).Push(0).Op(vm.REVERT)
	return a.Bytes()
}

// Setup gives the transactions of the first block.
func (h *History) Setup(app *minievmapp.MinitiaApp) []Tx {
	ctx := kit.Ctx(app)
	var out []Tx
	for i := range h.Execs {
		code := kit.InitCode(nil, executor())
		tx := kit.EthCall(1, uint64(i), nil, code, nil, 3_000_000, nil)
		out = append(out, Tx{Bytes: must2(kit.EthToCosmos(app, ctx, tx)), Eth: tx, Kind: "setup", Key: 1})
	}
	return out
}

// Record notes an executed block.
func (h *History) Record(txs []Tx, res *abci.ResponseFinalizeBlock) {
	h.Txs = append(h.Txs, txs)
	h.Blocks = append(h.Blocks, res)
	h.Past = append(h.Past, txs...)
	for i, t := range txs {
		r := res.TxResults[i]
		h.C.Logf("  %s key%d: %s", t.Kind, t.Key, kit.Result(r))
		if r.Code == 0 {
			h.C.Label("ok " + t.Kind)
			if t.Kind == "deposit" {
				h.l1seq++
			}
		} else {
			h.C.Label("failed " + t.Kind)
		}
	}
}

// Bytes of transactions.
func Bytes(txs []Tx) [][]byte {
	var out [][]byte
	for _, t := range txs {
		out = append(out, t.Bytes)
	}
	return out
}

// view is what the generator sees of the chain while it makes a block.
type view struct {
	*History
	rt     *rapid.T
	app    *minievmapp.MinitiaApp
	ctx    sdk.Context
	seqs   [NumKeys]uint64
	tokens []common.Address
	denoms []string
}

// Draw generates the transactions of the next block.
func (h *History) Draw(rt *rapid.T, app *minievmapp.MinitiaApp, max int) []Tx {
	v := h.view(rt, app)
	var out []Tx
	for i, n := 0, rapid.IntRange(0, max).Draw(rt, "txs"); i < n; i++ {
		out = append(out, v.tx())
	}
	return out
}

func (v *view) int(l string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(v.rt, l) }

var amounts = []int64{0, 1, 2, 1000, 1_000_000, 1_000_000_000_000, 1_000_000_000_000_000_000}

func (v *view) amount() *big.Int {
	return big.NewInt(rapid.SampledFrom(amounts).Draw(v.rt, "amount"))
}

// Addresses which are used over and over.
func (h *History) Addresses() []common.Address {
	out := []common.Address{}
	for i := 0; i < NumKeys; i++ {
		out = append(out, kit.Addr(i))
	}
	out = append(out, h.Execs...)
	return append(out, common.HexToAddress("0xaaaa"), common.HexToAddress("0xbbbb"))
}

func (v *view) address() common.Address {
	return rapid.SampledFrom(v.Addresses()).Draw(v.rt, "address")
}

func (v *view) msgJSON(m sdk.Msg) string {
	return string(must2(v.app.AppCodec().MarshalInterfaceJSON(m)))
}

// word draws a small or special word.
func (v *view) word(l string) *uint256.Int {
	return uint256.NewInt(rapid.SampledFrom([]uint64{0, 0, 1, 2, 3, 7, 1 << 63}).Draw(v.rt, l))
}

// program draws code run by an executor (self) or as a constructor.
func (v *view) program(self common.Address, depth int) []byte {
	rt := v.rt
	a := kit.NewAsm()
	call := func(to common.Address, value *big.Int, data []byte) {
		d := a.Data(data)
		a.Push(uint64(len(data))).PushData(d).Push(0).Op(vm.CODECOPY)
		a.Push(0).Push(0).Push(uint64(len(data))).Push(0).PushInt(uint256.MustFromBig(value)).PushAddr(to).Op(vm.GAS, vm.CALL, vm.POP)
	}
	for i, n := 0, v.int("steps", 0, 4); i < n; i++ {
		switch rapid.SampledFrom([]string{"sstore", "sstore", "log", "log", "log", "env", "value", "precompile", "token", "tstore", "create", "nested", "loop"}).Draw(rt, "step") {
		case "sstore":
			a.PushInt(v.word("value")).PushInt(v.word("slot")).Op(vm.SSTORE)
		case "log":
			n := v.int("topics", 0, 4)
			for j := 0; j < n; j++ {
				a.PushInt(v.word("topic"))
			}
			a.PushInt(v.word("data")).Push(0).Op(vm.MSTORE)
			a.Push(uint64(v.int("size", 0, 40))).Push(0).Op(vm.LOG0 + vm.OpCode(n))
		case "env":
			op := rapid.SampledFrom([]vm.OpCode{vm.NUMBER, vm.TIMESTAMP, vm.GASPRICE, vm.BASEFEE, vm.COINBASE, vm.DIFFICULTY, vm.CHAINID, vm.GASLIMIT, vm.GAS, vm.SELFBALANCE, vm.ORIGIN, vm.BLOCKHASH}).Draw(rt, "env")
			if op == vm.BLOCKHASH {
				a.Push(uint64(v.int("back", 0, 3))).Op(vm.NUMBER, vm.SUB)
			}
			a.Op(op).PushInt(v.word("slot")).Op(vm.SSTORE)
		case "value":
			call(v.address(), v.amount(), nil)
		case "precompile":
			switch v.int("precompile", 0, 4) {
			case 0, 1:
				m := &banktypes.MsgSend{FromAddress: sdk.AccAddress(self.Bytes()).String(), ToAddress: sdk.AccAddress(v.address().Bytes()).String(),
					Amount: sdk.NewCoins(sdk.NewCoin(kit.FeeDenom, math.NewIntFromBigInt(v.amount())))}
				call(cosmosAddr, new(big.Int), must2(CosmosABI.Pack("execute_cosmos", v.msgJSON(m))))
			case 2:
				call(registryAddr, new(big.Int), must2(RegistryABI.Pack("register_erc20_store", v.address())))
			case 3:
				// (not an executor: it uses up all gas when it is asked for its supply, see known_findings.txt)
				if !slices.Contains(v.Execs, self) {
					call(registryAddr, new(big.Int), must2(RegistryABI.Pack("register_erc20")))
				}
			case 4:
				call(cosmosAddr, new(big.Int), must2(CosmosABI.Pack("to_cosmos_address", v.address())))
			}
		case "token":
			if len(v.tokens) > 0 {
				to := rapid.SampledFrom(v.tokens).Draw(rt, "token")
				call(to, new(big.Int), must2(TokenABI.Pack(rapid.SampledFrom([]string{"transfer", "approve", "mint"}).Draw(rt, "method"), v.address(), v.amount())))
			}
		case "tstore":
			a.PushInt(v.word("value")).PushInt(v.word("slot")).Op(vm.TSTORE)
			a.PushInt(v.word("slot")).Op(vm.TLOAD).PushInt(v.word("slot")).Op(vm.SSTORE)
		case "create":
			code := kit.InitCode(nil, append([]byte{byte(vm.STOP)}, binary.BigEndian.AppendUint64(nil, uint64(v.int("code", 0, 3)))...))
			d := a.Data(code)
			a.Push(uint64(len(code))).PushData(d).Push(0).Op(vm.CODECOPY)
			if v.int("create2", 0, 1) == 1 {
				a.PushInt(v.word("salt"))
				a.Push(uint64(len(code))).Push(0).Push(0).Op(vm.CREATE2, vm.POP)
			} else {
				a.Push(uint64(len(code))).Push(0).Push(0).Op(vm.CREATE, vm.POP)
			}
		case "nested":
			if depth > 0 {
				to := rapid.SampledFrom(v.Execs).Draw(rt, "nested")
				call(to, v.amount(), kit.InitCode(nil, v.program(to, depth-1)))
			}
		case "loop":
			l := a.Label()
			a.Push(uint64(v.int("loops", 1, 300)))
			a.Mark(l).Push(1).Op(vm.SWAP1, vm.SUB, vm.DUP1).PushLabel(l).Op(vm.JUMPI, vm.POP)
		}
	}
	switch rapid.SampledFrom([]string{"", "", "", "", "", "", "revert", "invalid", "destruct", "return", "endless"}).Draw(rt, "end") {
	case "revert":
		a.Push(3).Push(0).Op(vm.REVERT)
	case "invalid":
		a.Op(vm.INVALID)
	case "destruct":
		a.PushAddr(v.address()).Op(vm.SELFDESTRUCT)
	case "return":
		a.Push(40).Push(0).Op(vm.RETURN)
	case "endless":
		l := a.Label()
		a.Mark(l).PushLabel(l).Op(vm.JUMP)
	}
	a.Op(vm.STOP)
	return a.Bytes()
}

func (v *view) eth(kind string, key int, to *common.Address, data []byte, value *big.Int) Tx {
	rt := v.rt
	nonce := v.seqs[key]
	bad := ""
	switch v.int("nonce", 0, 24) {
	case 0:
		nonce, bad = nonce+1, " bad nonce"
	case 1:
		if nonce > 0 {
			nonce, bad = nonce-1, " bad nonce"
		}
	}
	gas := rapid.SampledFrom([]uint64{3_000_000, 3_000_000, 3_000_000, 3_000_000, 3_000_000, 10_000_000, 500_000, 60_000}).Draw(rt, "gas")
	price := big.NewInt(rapid.SampledFrom([]int64{0, 0, 1, 1_000_000_000}).Draw(rt, "price"))
	if v.int("poor", 0, 30) == 0 {
		price, bad = new(big.Int).Exp(big.NewInt(10), big.NewInt(22), nil), bad+" poor"
	}
	var d coretypes.TxData
	switch v.int("type", 0, 2) {
	case 0:
		d = &coretypes.LegacyTx{Nonce: nonce, GasPrice: price, Gas: gas, To: to, Value: value, Data: data}
	case 1:
		d = &coretypes.AccessListTx{ChainID: kit.EthChainID(), Nonce: nonce, GasPrice: price, Gas: gas, To: to, Value: value, Data: data,
			AccessList: coretypes.AccessList{{Address: v.Execs[0], StorageKeys: []common.Hash{{31: 1}}}}}
	case 2:
		d = &coretypes.DynamicFeeTx{ChainID: kit.EthChainID(), Nonce: nonce, GasTipCap: price, GasFeeCap: price, Gas: gas, To: to, Value: value, Data: data}
	}
	tx := kit.SignEth(key, d)
	bz, err := kit.EthToCosmos(v.app, v.ctx, tx)
	if err != nil {
		return Tx{Bytes: tx.Data(), Kind: kind + " inconvertible", Key: key}
	}
	if bad == "" {
		v.seqs[key]++
	}
	return Tx{Bytes: bz, Eth: tx, Kind: kind + bad, Key: key}
}

func (v *view) cosmos(kind string, key int, msgs ...sdk.Msg) Tx {
	seq := v.seqs[key]
	bad := ""
	if v.int("seq", 0, 24) == 0 {
		seq, bad = seq+1, " bad sequence"
	}
	gas := rapid.SampledFrom([]uint64{3_000_000, 3_000_000, 3_000_000, 3_000_000, 3_000_000, 300_000, 100_000}).Draw(v.rt, "gas")
	if kind == "deposit" || kind == "withdraw" {
		gas = 3_000_000 // (their gas depends on the default values of the bridge module in the store)
	}
	c := kit.CosmosTx{Msgs: msgs, Gas: gas, Signers: []int{key}, AccNums: []uint64{0}, Seqs: []uint64{seq}}
	if acc := v.app.AccountKeeper.GetAccount(v.ctx, kit.Acc(key)); acc != nil {
		c.AccNums[0] = acc.GetAccountNumber()
	}
	if v.int("fee", 0, 2) == 0 {
		c.Fee = sdk.NewCoins(sdk.NewInt64Coin(kit.FeeDenom, 1_000_000))
	}
	if v.int("forged", 0, 30) == 0 {
		c.ChainID, bad = "other-1", bad+" forged"
	}
	if bad == "" {
		v.seqs[key]++
	}
	return Tx{Bytes: must2(c.Build(v.app)), Kind: kind + bad, Key: key}
}

// tx draws one transaction.
func (v *view) tx() Tx {
	rt := v.rt
	key := v.int("key", 0, NumKeys-1)
	kinds := []string{"exec", "exec", "exec", "exec", "exec", "deploy", "deploy", "transfer", "transfer", "token", "token", "new token", "factory",
		"send", "send", "msgcall", "msgcreate", "multi", "deposit", "authz", "replay", "garbage", "withdraw"}
	if !v.Plain {
		kinds = append(kinds, "params", "params")
	}
	kind := rapid.SampledFrom(kinds).Draw(rt, "kind")
	acc := kit.Acc(key)
	call := func(from sdk.AccAddress, to common.Address, in []byte, value *big.Int) *evmtypes.MsgCall {
		return &evmtypes.MsgCall{Sender: from.String(), ContractAddr: to.Hex(), Input: hexutil.Encode(in), Value: math.NewIntFromBigInt(value)}
	}
	value := new(big.Int)
	if v.int("with value", 0, 4) == 0 {
		value = v.amount()
	}
	exec := func() (common.Address, []byte) {
		to := rapid.SampledFrom(v.Execs).Draw(rt, "exec")
		return to, kit.InitCode(nil, v.program(to, 1))
	}
	switch kind {
	case "exec":
		to, data := exec()
		return v.eth(kind, key, &to, data, value)
	case "deploy":
		self := ethcrypto.CreateAddress(kit.Addr(key), v.seqs[key])
		return v.eth(kind, key, nil, kit.InitCode(nil, v.program(self, 1)), value)
	case "transfer":
		to := v.address()
		return v.eth(kind, key, &to, nil, v.amount())
	case "token":
		if len(v.tokens) == 0 {
			return v.cosmos("empty", key, &banktypes.MsgSend{FromAddress: acc.String(), ToAddress: acc.String(), Amount: sdk.NewCoins(sdk.NewInt64Coin(kit.FeeDenom, 1))})
		}
		to := rapid.SampledFrom(v.tokens).Draw(rt, "token")
		m := rapid.SampledFrom([]string{"transfer", "transfer", "approve", "mint", "burn", "transferFrom"}).Draw(rt, "method")
		var in []byte
		switch m {
		case "transferFrom":
			in = must2(TokenABI.Pack(m, v.address(), v.address(), v.amount()))
		case "burn":
			in = must2(TokenABI.Pack(m, v.amount()))
		default:
			in = must2(TokenABI.Pack(m, v.address(), v.amount()))
		}
		return v.eth(kind+" "+m, key, &to, in, new(big.Int))
	case "new token":
		return v.eth(kind, key, nil, append(slices.Clone(tokenBin), must2(TokenABI.Pack("", "token", "TOK", uint8(v.int("decimals", 0, 20))))...), new(big.Int))
	case "factory":
		to := must2(v.app.EVMKeeper.GetERC20FactoryAddr(v.ctx))
		return v.eth(kind, key, &to, must2(FactoryABI.Pack("createERC20", "n", "s", uint8(6))), new(big.Int))
	case "send":
		coins := sdk.Coins{}
		for i := 0; i < v.int("coins", 1, 2); i++ {
			coins = coins.Add(sdk.NewCoin(rapid.SampledFrom(v.denoms).Draw(rt, "denom"), math.NewIntFromBigInt(v.amount())))
		}
		return v.cosmos(kind, key, &banktypes.MsgSend{FromAddress: acc.String(), ToAddress: sdk.AccAddress(v.address().Bytes()).String(), Amount: coins})
	case "msgcall":
		to, data := exec()
		return v.cosmos(kind, key, call(acc, to, data, value))
	case "msgcreate":
		self := ethcrypto.CreateAddress(kit.Addr(key), v.seqs[key])
		code := hexutil.Encode(kit.InitCode(nil, v.program(self, 0)))
		if v.int("create2", 0, 1) == 0 {
			return v.cosmos(kind, key, &evmtypes.MsgCreate{Sender: acc.String(), Code: code, Value: math.NewIntFromBigInt(value)})
		}
		v.salt++
		return v.cosmos(kind, key, &evmtypes.MsgCreate2{Sender: acc.String(), Code: code, Value: math.ZeroInt(), Salt: v.salt % 8})
	case "multi":
		var ms []sdk.Msg
		for i := 0; i < v.int("msgs", 1, 3); i++ {
			to, data := exec()
			ms = append(ms, call(acc, to, data, new(big.Int)))
		}
		return v.cosmos(kind, key, ms...)
	case "deposit":
		n := v.int("l1 denom", 0, 2)
		to := sdk.AccAddress(v.address().Bytes())
		if v.int("to long", 0, 4) == 0 {
			to = sdk.AccAddress(ethcrypto.Keccak256([]byte{byte(n)}))
		}
		return v.cosmos(kind, 0, opchildtypes.NewMsgFinalizeTokenDeposit(kit.Acc(0).String(), "l1sender", to.String(),
			sdk.NewCoin(fmt.Sprintf("l2/%064x", n), math.NewIntFromBigInt(v.amount())), v.l1seq, 1, fmt.Sprintf("l1denom%d", n), nil))
	case "withdraw":
		return v.cosmos(kind, key, opchildtypes.NewMsgInitiateTokenWithdrawal(acc.String(), "l1receiver",
			sdk.NewCoin(fmt.Sprintf("l2/%064x", v.int("l1 denom", 0, 2)), math.NewInt(int64(v.int("amount", 1, 1000))))))
	case "authz":
		if v.int("grant", 0, 1) == 0 {
			g := authz.NewGenericAuthorization(sdk.MsgTypeURL(&evmtypes.MsgCall{}))
			m := must2(authz.NewMsgGrant(acc, kit.Acc((key+1)%NumKeys), g, nil))
			return v.cosmos(kind, key, m)
		}
		to, data := exec()
		m := authz.NewMsgExec(acc, []sdk.Msg{call(kit.Acc((key+NumKeys-1)%NumKeys), to, data, new(big.Int))})
		return v.cosmos(kind, key, &m)
	case "params":
		p := must2(v.app.EVMKeeper.Params.Get(v.ctx))
		switch v.int("param", 0, 6) {
		case 6:
			op := must2(v.app.OPChildKeeper.GetParams(v.ctx))
			op.MinGasPrices = rapid.SampledFrom([]sdk.DecCoins{nil,
				sdk.NewDecCoins(sdk.NewDecCoin(kit.FeeDenom, math.NewInt(1_000_000_000))),
				sdk.NewDecCoins(sdk.NewDecCoinFromDec(kit.FeeDenom, math.LegacyNewDecWithPrec(25, 1)), sdk.NewDecCoin("zzz", math.NewInt(3))),
				sdk.NewDecCoins(sdk.NewDecCoin("zzz", math.NewInt(3))),
			}).Draw(rt, "min gas prices")
			return v.admin("minprice", opchildtypes.NewMsgUpdateParams(Authority(), &op))
		case 0:
			p.NumRetainBlockHashes = rapid.SampledFrom([]uint64{0, 256, 300}).Draw(rt, "retain")
		case 1:
			p.GasRefundRatio = rapid.SampledFrom([]math.LegacyDec{math.LegacyZeroDec(), math.LegacyOneDec(), math.LegacyNewDecWithPrec(5, 1)}).Draw(rt, "ratio")
		case 2:
			p.AllowedPublishers = rapid.SampledFrom([][]string{nil, nil, {kit.Acc(1).String(), kit.Acc(2).String()}}).Draw(rt, "publishers")
		case 3:
			p.AllowCustomERC20 = v.int("custom", 0, 1) == 0
		case 4:
			p.ExtraEIPs = rapid.SampledFrom([][]int64{nil, {3855}}).Draw(rt, "eips")
		case 5:
			var e []*banktypes.SendEnabled
			e = append(e, &banktypes.SendEnabled{Denom: rapid.SampledFrom(v.denoms).Draw(rt, "denom"), Enabled: v.int("enabled", 0, 1) == 0})
			return v.admin("sendenabled", banktypes.NewMsgSetSendEnabled(Authority(), e, nil))
		}
		return v.admin(kind, &evmtypes.MsgUpdateParams{Authority: Authority(), Params: p})
	case "replay":
		if len(v.Past) > 0 {
			t := rapid.SampledFrom(v.Past).Draw(rt, "old")
			return Tx{Bytes: t.Bytes, Eth: t.Eth, Kind: "replay", Key: t.Key}
		}
	}
	return Tx{Bytes: rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(rt, "garbage"), Kind: "garbage"}
}

// Authority of the modules.
func Authority() string { return authtypes.NewModuleAddress(opchildtypes.ModuleName).String() }

func (v *view) admin(kind string, m sdk.Msg) Tx {
	return v.cosmos(kind, 0, must2(opchildtypes.NewMsgExecuteMessages(kit.Acc(0).String(), []sdk.Msg{m})))
}

// Converts tells what a transaction in a block is as an Ethereum transaction.
func Converts(app *minievmapp.MinitiaApp, ctx sdk.Context, bz []byte) *coretypes.Transaction {
	tx, err := app.TxDecode(bz)
	if err != nil {
		return nil
	}
	eth, _, err := evmkeeper.NewTxUtils(app.EVMKeeper).ConvertCosmosTxToEthereumTx(ctx, tx)
	if err != nil {
		return nil
	}
	return eth
}

func (h *History) view(rt *rapid.T, app *minievmapp.MinitiaApp) *view {
	ctx, _ := kit.Branch(kit.Ctx(app))
	v := &view{History: h, rt: rt, app: app, ctx: ctx}
	for i := range v.seqs {
		v.seqs[i] = kit.Seq(app, ctx, kit.Acc(i))
	}
	must(app.EVMKeeper.ERC20s.Walk(ctx, nil, func(k []byte) (bool, error) { v.tokens = append(v.tokens, common.BytesToAddress(k)); return false, nil }))
	must(app.EVMKeeper.ERC20ContractAddrsByDenom.Walk(ctx, nil, func(d string, _ []byte) (bool, error) { v.denoms = append(v.denoms, d); return false, nil }))
	return v
}

// Program draws code which is to run as a contract.
func (h *History) Program(rt *rapid.T, app *minievmapp.MinitiaApp, self common.Address) []byte {
	return h.view(rt, app).program(self, 1)
}

// Tokens known to the chain, and their denoms.
func (h *History) Tokens(app *minievmapp.MinitiaApp) ([]common.Address, []string) {
	v := h.view(nil, app)
	return v.tokens, v.denoms
}
