package ledger

import (
	"fmt"
	"math/big"
	"slices"
	"strings"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	icatypes "github.com/cosmos/ibc-go/v8/modules/apps/27-interchain-accounts/types"
	ibcfeetypes "github.com/cosmos/ibc-go/v8/modules/apps/29-fee/types"
	ibctransfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"
	"pgregory.net/rapid"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	minievmapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/x/evm/contracts/erc20"
	"github.com/initia-labs/minievm/x/evm/contracts/erc20_factory"
	"github.com/initia-labs/minievm/x/evm/contracts/initia_erc20"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifh/kit"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func mustABI(a *abi.ABI, err error) *abi.ABI {
	must(err)
	return a
}

var (
	erc20ABI   = mustABI(erc20.Erc20MetaData.GetAbi())
	factoryABI = mustABI(erc20_factory.Erc20FactoryMetaData.GetAbi())
	customABI  = mustABI(initia_erc20.InitiaErc20MetaData.GetAbi())
)

// encode gives the calldata of a token call.
func encode(c tokenCall) []byte {
	pack := func(args ...any) []byte {
		bz, err := erc20ABI.Pack(c.fn, args...)
		must(err)
		return bz
	}
	switch c.fn {
	case "transfer", "approve", "mint", "burnFrom", "sudoMint", "sudoBurn":
		return pack(c.a, c.n)
	case "transferFrom", "sudoTransfer":
		return pack(c.a, c.b, c.n)
	case "burn":
		return pack(c.n)
	case "transferOwnership", "balanceOf":
		return pack(c.a)
	case "truncated":
		bz, err := erc20ABI.Pack("transfer", c.a, c.n)
		must(err)
		return bz[:4+new(big.Int).Mod(c.n, big.NewInt(64)).Uint64()]
	}
	return append(ethcrypto.Keccak256([]byte("nosuch(address,uint256)"))[:4], common.BigToHash(c.n).Bytes()...)
}

const nUsers = 4

// world is one chain plus the model of its ledger.
type world struct {
	app     *minievmapp.MinitiaApp
	ctx     sdk.Context
	m       *ledger
	sendOff map[string]bool
	rogue   bool
	nonces  map[common.Address]uint64
}

var (
	baseApp *minievmapp.MinitiaApp
	baseCtx sdk.Context
	fwds    []common.Address
	modules = []string{authtypes.FeeCollectorName, ibctransfertypes.ModuleName, opchildtypes.ModuleName, authtypes.Minter}
	// modules whose accounts do not exist yet
	ghosts = []string{icatypes.ModuleName, ibcfeetypes.ModuleName}
	// accounts whose addresses are longer than EVM addresses
	longAccs = []sdk.AccAddress{
		ethcrypto.Keccak256([]byte("long-0")),
		ethcrypto.Keccak256([]byte("long-1")),
	}
)

func modAddr(name string) common.Address {
	return common.BytesToAddress(authtypes.NewModuleAddress(name))
}

// accounts everything is checked for
func accounts() []common.Address {
	var out []common.Address
	for i := 0; i < nUsers; i++ {
		out = append(out, kit.Addr(i))
	}
	out = append(out, fwds...)
	for _, m := range modules {
		out = append(out, modAddr(m))
	}
	for _, l := range longAccs {
		out = append(out, common.BytesToAddress(l))
	}
	return append(out, common.Address{}, evmtypes.StdAddress, common.HexToAddress("0x1234567890123456789012345678901234567890"))
}

// accAddr gives the cosmos address by which the bank is asked about an account.
func accAddr(a common.Address) sdk.AccAddress {
	for _, l := range longAccs {
		if common.BytesToAddress(l) == a {
			return l
		}
	}
	return a.Bytes()
}

func newWorld() *world {
	if baseApp == nil {
		baseApp = kit.NewApp(kit.Options{NumKeys: nUsers})
		baseCtx = kit.Ctx(baseApp)
		for name := range minievmapp.GetMaccPerms() {
			if !slices.Contains(ghosts, name) {
				baseApp.AccountKeeper.GetModuleAccount(baseCtx, name)
			}
		}
		for i := 0; i < 2; i++ {
			_, f, _, err := baseApp.EVMKeeper.EVMCreate(baseCtx, common.HexToAddress("0x77"), kit.InitCode(nil, kit.Forwarder()), nil, nil)
			must(err)
			fwds = append(fwds, f)
		}
		kit.Block(baseApp, nil)
		baseCtx = kit.Ctx(baseApp)
	}
	ctx, _ := kit.Branch(baseCtx)
	w := &world{app: baseApp, ctx: ctx, sendOff: map[string]bool{}, nonces: map[common.Address]uint64{}}
	w.m = &ledger{blocked: map[common.Address]bool{}, fwd: map[common.Address]bool{}}
	for name := range minievmapp.GetMaccPerms() {
		w.m.blocked[modAddr(name)] = true
	}
	for _, f := range fwds {
		w.m.fwd[f] = true
	}
	st := &token{kind: native, denom: kit.FeeDenom, addr: kit.FeeERC20(w.app, ctx), owner: evmtypes.StdAddress, supply: new(big.Int), bal: map[common.Address]*big.Int{}, allow: map[pair]*big.Int{}}
	for i := 0; i < nUsers; i++ {
		st.mint(kit.Addr(i), kit.DefaultBalance()[0].Amount.BigInt())
	}
	w.m.tokens = append(w.m.tokens, st)
	return w
}

// do runs op on a branch; the branch is kept only when op succeeds. A panic
// is a failure, as it is for a transaction.
func (w *world) do(op func(ctx sdk.Context) error) (err error) {
	ctx, write := kit.Branch(w.ctx)
	ctx = ctx.WithGasMeter(storetypes.NewGasMeter(10_000_000_000_000))
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
		if err == nil {
			write()
		}
	}()
	return op(ctx)
}

// msg delivers a message through the app's message router.
func (w *world) msg(m sdk.Msg) error {
	return w.do(func(ctx sdk.Context) error {
		_, err := w.app.MsgServiceRouter().Handler(m)(ctx, m)
		return err
	})
}

// evm calls a contract as any address.
func (w *world) evm(caller common.Address, it item) error {
	data := it.data()
	for i := 0; i < nUsers; i++ {
		if kit.Addr(i) == caller {
			v := math.ZeroInt()
			if it.value != nil {
				v = math.NewIntFromBigInt(it.value)
			}
			return w.msg(&evmtypes.MsgCall{Sender: sdk.AccAddress(caller.Bytes()).String(), ContractAddr: it.to.Hex(), Input: hexutil.Encode(data), Value: v})
		}
	}
	return w.do(func(ctx sdk.Context) error {
		var v *uint256.Int
		if it.value != nil {
			v = uint256.MustFromBig(it.value)
		}
		_, _, err := w.app.EVMKeeper.EVMCall(ctx, caller, it.to, data, v, nil)
		return err
	})
}

// createNative creates a denom through the keeper with the given decimals.
func (w *world) addToken(kind int, denom string, addr, owner common.Address) *token {
	t := &token{kind: kind, denom: denom, addr: addr, owner: owner, supply: new(big.Int), bal: map[common.Address]*big.Int{}, allow: map[pair]*big.Int{}}
	w.m.tokens = append(w.m.tokens, t)
	return t
}

func evmDenom(a common.Address) string { return "evm/" + strings.TrimPrefix(a.Hex(), "0x") }

// createFactory creates a token through the factory as a user or a forwarder.
func (w *world) createFactory(caller common.Address, name string, decimals uint8) (*token, error) {
	var addr common.Address
	err := w.do(func(ctx sdk.Context) error {
		f, err := w.app.EVMKeeper.GetERC20FactoryAddr(ctx)
		must(err)
		in, err := factoryABI.Pack("createERC20", name, name, decimals)
		must(err)
		ret, _, err := w.app.EVMKeeper.EVMCall(ctx, caller, f, in, nil, nil)
		if err == nil {
			addr = common.BytesToAddress(ret[12:])
		}
		return err
	})
	if err != nil {
		return nil, err
	}
	return w.addToken(factory, evmDenom(addr), addr, caller), nil
}

// createCustom deploys an ERC20 which registers itself.
func (w *world) createCustom(caller common.Address, name string, decimals uint8) (*token, error) {
	args, err := customABI.Pack("", name, name, decimals)
	must(err)
	var addr common.Address
	err = w.do(func(ctx sdk.Context) error {
		_, a, _, err := w.app.EVMKeeper.EVMCreate(ctx, caller, append(common.FromHex(initia_erc20.InitiaErc20Bin), args...), nil, nil)
		addr = a
		return err
	})
	if err != nil {
		return nil, err
	}
	return w.addToken(custom, evmDenom(addr), addr, caller), nil
}

// ---- generators ----

func pickUser(rt *rapid.T, l string) common.Address {
	return kit.Addr(rapid.IntRange(0, nUsers-1).Draw(rt, l))
}

func pickAny(rt *rapid.T, l string) common.Address {
	accs := accounts()
	if rapid.IntRange(0, 2).Draw(rt, l+"-kind") > 0 {
		return accs[rapid.IntRange(0, nUsers+1).Draw(rt, l)]
	}
	return rapid.SampledFrom(accs).Draw(rt, l)
}

// pickAmount is biased to the edges of what is available.
func pickAmount(rt *rapid.T, avail *big.Int) *big.Int {
	switch rapid.IntRange(0, 15).Draw(rt, "amount-kind") {
	case 0:
		return new(big.Int).Set(avail)
	case 1:
		return new(big.Int).Add(avail, big.NewInt(1))
	case 2:
		return big.NewInt(0)
	case 3:
		return new(big.Int).Set(maxU256)
	case 4:
		return new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(0, 255).Draw(rt, "shift")))
	case 5, 6, 7, 8:
		return new(big.Int).Div(avail, big.NewInt(rapid.Int64Range(2, 5).Draw(rt, "div")))
	default:
		return big.NewInt(rapid.Int64Range(1, 1000).Draw(rt, "small"))
	}
}

func cap256(n *big.Int) *big.Int {
	if n.Cmp(maxU256) > 0 {
		return maxU256
	}
	return n
}

func (w *world) pickToken(rt *rapid.T) *token {
	return w.m.tokens[rapid.IntRange(0, len(w.m.tokens)-1).Draw(rt, "token")]
}

// drawCall draws a token call; caller is who will make it.
func (w *world) drawCall(rt *rapid.T, t *token, caller common.Address) tokenCall {
	c := tokenCall{fn: rapid.SampledFrom(fns).Draw(rt, "fn"), n: new(big.Int)}
	c.a = pickAny(rt, "a")
	avail := t.balance(caller)
	switch c.fn {
	case "transferFrom", "burnFrom":
		// prefer an owner who gave this caller an allowance
		var givers []common.Address
		for _, o := range accounts() {
			if t.allowance(o, caller).Sign() > 0 {
				givers = append(givers, o)
			}
		}
		if len(givers) > 0 && rapid.IntRange(0, 4).Draw(rt, "giver?") > 0 {
			c.a = rapid.SampledFrom(givers).Draw(rt, "giver")
		}
		avail = t.balance(c.a)
		if al := t.allowance(c.a, caller); rapid.Bool().Draw(rt, "of-allowance") {
			avail = al
		}
	case "sudoTransfer", "sudoBurn":
		avail = t.balance(c.a)
	case "mint", "sudoMint":
		avail = new(big.Int).Sub(maxU256, t.supply)
		if t == w.m.tokens[w.m.stake] || rapid.IntRange(0, 5).Draw(rt, "mint-small") > 0 {
			avail = big.NewInt(1_000_000)
		}
	}
	if c.fn == "transferFrom" || c.fn == "sudoTransfer" {
		c.b = pickAny(rt, "b")
	}
	if rapid.IntRange(0, 11).Draw(rt, "ghost?") == 0 {
		g := modAddr(rapid.SampledFrom(ghosts).Draw(rt, "ghost"))
		switch c.fn {
		case "transfer", "mint":
			c.a = g
		case "transferFrom":
			c.b = g
		}
	}
	c.n = cap256(pickAmount(rt, avail))
	return c
}

// drawItem draws one call; noValue forbids sending value.
func (w *world) drawItem(rt *rapid.T, self common.Address, depth int, noValue bool, top bool) item {
	it := item{mode: kit.FwdCall}
	if !top {
		it.mode = rapid.SampledFrom([]byte{kit.FwdCall, kit.FwdTry, kit.FwdTry, kit.FwdTry, kit.FwdStatic, kit.FwdDelegate, kit.FwdRevert}).Draw(rt, "mode")
	}
	if it.mode == kit.FwdRevert {
		return it
	}
	if it.mode == kit.FwdStatic {
		noValue = true
	}
	k := rapid.IntRange(0, 9).Draw(rt, "target")
	switch {
	case k <= 5 || (k <= 8 && depth == 0):
		t := w.pickToken(rt)
		it.to = t.addr
		c := w.drawCall(rt, t, self)
		it.call = &c
	case k <= 8:
		it.to = rapid.SampledFrom(fwds).Draw(rt, "fwd")
		inner := it.to
		if it.mode == kit.FwdDelegate {
			inner = self
		}
		n := rapid.IntRange(1, 3).Draw(rt, "steps")
		it.prog = []item{}
		for i := 0; i < n; i++ {
			it.prog = append(it.prog, w.drawItem(rt, inner, depth-1, noValue, false))
		}
	default:
		// not a contract, and allowed to receive
		it.to = rapid.SampledFrom([]common.Address{kit.Addr(0), kit.Addr(1), kit.Addr(2), common.BytesToAddress(longAccs[0]), common.HexToAddress("0x1234567890123456789012345678901234567890")}).Draw(rt, "eoa")
	}
	if !noValue && (it.mode == kit.FwdCall || it.mode == kit.FwdTry) && rapid.IntRange(0, 3).Draw(rt, "value?") == 0 {
		it.value = cap256(pickAmount(rt, w.m.tokens[w.m.stake].balance(self)))
	}
	return it
}

func sel(sig string) []byte { return ethcrypto.Keccak256([]byte(sig))[:4] }
