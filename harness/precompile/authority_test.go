package precompile

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"slices"
	"sort"
	"sync"
	"testing"

	abci "github.com/cometbft/cometbft/abci/types"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	"cosmossdk.io/x/feegrant"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	gogoproto "github.com/cosmos/gogoproto/proto"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"
	"pgregory.net/rapid"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"
	connecttypes "github.com/skip-mev/connect/v2/pkg/types"
	mmtypes "github.com/skip-mev/connect/v2/x/marketmap/types"
	oracletypes "github.com/skip-mev/connect/v2/x/oracle/types"

	minievmapp "github.com/initia-labs/minievm/app"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifh/kit"
)

// long is a cosmos account with an address longer than an EVM address.
var (
	long      = sdk.AccAddress(ethcrypto.Keccak256([]byte("long account")))
	shorthand = common.BytesToAddress(long)
	pairs     = []string{"BTC/USD", "ETH/USD", "INIT/USD", "A/B"}
)

var authShared = &kit.Shared{Opts: kit.Options{NumKeys: 4, MaxGas: 1 << 60}, Setup: func(app *minievmapp.MinitiaApp, ctx sdk.Context) {
	create := func(runtime []byte) common.Address {
		_, a, _, err := app.EVMKeeper.EVMCreate(ctx, kit.Addr(0), kit.InitCode(nil, runtime), uint256.NewInt(0), nil)
		must(err)
		return a
	}
	for i := range fwds {
		fwds[i] = create(kit.ForwarderGas())
		must(app.BankKeeper.SendCoins(ctx, kit.Acc(0), acc(fwds[i]), sdk.NewCoins(sdk.NewInt64Coin(kit.FeeDenom, 1_000_000))))
	}
	listAt = create(appender())
	// the first use as signer registers the shorthand address
	_, err := route(app, ctx, msgCall(long, listAt, word(1)))
	must(err)
	must(app.BankKeeper.SendCoins(ctx, kit.Acc(0), long, sdk.NewCoins(sdk.NewInt64Coin(kit.FeeDenom, 1_000_000))))
	for i, p := range pairs {
		cp, err := connecttypes.CurrencyPairFromString(p)
		must(err)
		if _, err := app.MarketMapKeeper.GetMarket(ctx, p); err != nil {
			must(app.MarketMapKeeper.CreateMarket(ctx, mmtypes.Market{Ticker: mmtypes.Ticker{CurrencyPair: cp, Decimals: uint64(6 + i), MinProviderCount: 1, Enabled: true}}))
		}
		if !app.OracleKeeper.HasCurrencyPair(ctx, cp) {
			must(app.OracleKeeper.CreateCurrencyPair(ctx, cp))
		}
		if i > 0 {
			for j := 0; j < i; j++ {
				must(app.OracleKeeper.SetPriceForCurrencyPair(ctx, cp, oracletypes.QuotePrice{Price: math.NewInt(int64(1000*i + j)), BlockTimestamp: kit.BlockTime(1), BlockHeight: 1}))
			}
		}
	}
	must(app.AuthzKeeper.SaveGrant(ctx, acc(fwds[0]), kit.Acc(2), authz.NewGenericAuthorization(sdk.MsgTypeURL(&banktypes.MsgSend{})), nil))
}}

func route(app *minievmapp.MinitiaApp, ctx sdk.Context, m sdk.Msg) (*sdk.Result, error) {
	if v, ok := m.(sdk.HasValidateBasic); ok {
		if err := v.ValidateBasic(); err != nil {
			return nil, err
		}
	}
	h := app.MsgServiceRouter().Handler(m)
	if h == nil {
		return nil, fmt.Errorf("no handler")
	}
	return h(ctx, m)
}

// parties whose authority is at stake.
func parties(app *minievmapp.MinitiaApp) map[string]sdk.AccAddress {
	auth, err := sdk.AccAddressFromBech32(app.EVMKeeper.GetAuthority())
	must(err)
	return map[string]sdk.AccAddress{
		"F0": acc(fwds[0]), "F1": acc(fwds[1]), "key1": kit.Acc(1), "key2": kit.Acc(2), "long": long, "shorthand": acc(shorthand),
		"operator": kit.Operator(), "authority": auth, "fees": authtypes.NewModuleAddress(authtypes.FeeCollectorName),
		"precompile": acc(cosmosAddr), "std": acc(evmtypes.StdAddress), "null": acc(evmtypes.NullAddress),
	}
}

// drawMessage gives a message, and the parties which have to authorise it (nil: nobody can tell).
func drawMessage(rt *rapid.T, c *kit.Case, app *minievmapp.MinitiaApp, ctx sdk.Context, caller string) (sdk.Msg, []sdk.AccAddress) {
	ps := parties(app)
	names := make([]string, 0, len(ps))
	for n := range ps {
		names = append(names, n)
	}
	sort.Strings(names)
	who := func(l string) sdk.AccAddress {
		n := rapid.SampledFrom(append(slices.Clone(names), caller, caller, caller, caller, caller, caller)).Draw(rt, l)
		c.Logf("  %s: %s", l, n)
		return ps[n]
	}
	coins := func(n int64) sdk.Coins { return sdk.Coins{sdk.NewInt64Coin(kit.FeeDenom, n)} }
	kind := rapid.SampledFrom([]string{"send", "send", "multisend", "multisend2", "call", "create", "exec", "grant", "feegrant", "params", "opmsgs", "opparams", "transfer", "mint"}).Draw(rt, "kind")
	c.Logf("  message %s", kind)
	switch kind {
	case "send":
		a := who("signer")
		return msgSend(a, acc(sink(0)), rapid.SampledFrom([]int64{0, 1, 77, 1 << 40}).Draw(rt, "n")), []sdk.AccAddress{a}
	case "multisend":
		a := who("signer")
		return &banktypes.MsgMultiSend{Inputs: []banktypes.Input{{Address: a.String(), Coins: coins(5)}}, Outputs: []banktypes.Output{{Address: acc(sink(1)).String(), Coins: coins(5)}}}, []sdk.AccAddress{a}
	case "multisend2":
		a, b := who("signer"), who("signer2")
		return &banktypes.MsgMultiSend{Inputs: []banktypes.Input{{Address: a.String(), Coins: coins(5)}, {Address: b.String(), Coins: coins(5)}},
			Outputs: []banktypes.Output{{Address: acc(sink(1)).String(), Coins: coins(10)}}}, []sdk.AccAddress{a, b}
	case "call":
		a := who("signer")
		return msgCall(a, listAt, word(uint64(rapid.IntRange(0, 3).Draw(rt, "word")))), []sdk.AccAddress{a}
	case "create":
		a := who("signer")
		return &evmtypes.MsgCreate{Sender: a.String(), Code: "0x600160005360016000f3", Value: math.ZeroInt()}, []sdk.AccAddress{a}
	case "exec":
		a, b := who("signer"), who("inner signer")
		e := authz.NewMsgExec(a, []sdk.Msg{msgSend(b, acc(sink(2)), 9)})
		return &e, []sdk.AccAddress{a}
	case "grant":
		a := who("signer")
		g, err := authz.NewMsgGrant(a, kit.Acc(3), authz.NewGenericAuthorization("/minievm.evm.v1.MsgCall"), nil)
		must(err)
		return g, []sdk.AccAddress{a}
	case "feegrant":
		a := who("signer")
		g, err := feegrant.NewMsgGrantAllowance(&feegrant.BasicAllowance{}, a, kit.Acc(3))
		must(err)
		return g, []sdk.AccAddress{a}
	case "params":
		a := who("signer")
		p, err := app.EVMKeeper.Params.Get(ctx)
		must(err)
		p.NumRetainBlockHashes = 1000
		return &evmtypes.MsgUpdateParams{Authority: a.String(), Params: p}, []sdk.AccAddress{a}
	case "opmsgs":
		a, b := who("signer"), who("inner signer")
		m, err := opchildtypes.NewMsgExecuteMessages(a.String(), []sdk.Msg{msgSend(b, acc(sink(2)), 9)})
		must(err)
		return m, []sdk.AccAddress{a}
	case "opparams":
		a := who("signer")
		p, err := app.OPChildKeeper.Params.Get(ctx)
		must(err)
		p.MaxValidators++
		return &opchildtypes.MsgUpdateParams{Authority: a.String(), Params: &p}, []sdk.AccAddress{a}
	case "transfer":
		a := who("signer")
		return &transfertypes.MsgTransfer{SourcePort: "transfer", SourceChannel: "channel-0", Token: coins(1)[0], Sender: a.String(), Receiver: "x", TimeoutTimestamp: 1}, []sdk.AccAddress{a}
	}
	a := who("signer")
	return &opchildtypes.MsgSpendFeePool{Authority: a.String(), Recipient: acc(sink(0)).String(), Amount: coins(1)}, []sdk.AccAddress{a}
}

// digest tells apart the states the messages can lead to.
func digest(app *minievmapp.MinitiaApp, ctx sdk.Context, callers ...sdk.AccAddress) string {
	var s bytes.Buffer
	ps := parties(app)
	ps["sink0"], ps["sink1"], ps["sink2"] = acc(sink(0)), acc(sink(1)), acc(sink(2))
	names := make([]string, 0, len(ps))
	for n := range ps {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if slices.ContainsFunc(callers, func(a sdk.AccAddress) bool { return a.Equals(ps[n]) }) {
			continue // pays the fee and increments its sequence
		}
		fmt.Fprintln(&s, n, balance(app, ctx, ps[n]), kit.Seq(app, ctx, ps[n]))
	}
	fmt.Fprintln(&s, list(app, ctx, listAt))
	ep, err := app.EVMKeeper.Params.Get(ctx)
	must(err)
	op, err := app.OPChildKeeper.Params.Get(ctx)
	must(err)
	fmt.Fprintln(&s, ep, op)
	for _, n := range names {
		for _, g := range names {
			as, err := app.AuthzKeeper.GetAuthorizations(ctx, ps[g], ps[n])
			must(err)
			if len(as) > 0 {
				fmt.Fprintln(&s, "grant", n, g, len(as))
			}
		}
		as, err := app.AuthzKeeper.GetAuthorizations(ctx, kit.Acc(3), ps[n])
		must(err)
		al, _ := app.FeeGrantKeeper.GetAllowance(ctx, ps[n], kit.Acc(3))
		if len(as) > 0 || al != nil {
			fmt.Fprintln(&s, "grants of", n, len(as), al != nil)
		}
	}
	return s.String()
}

// TestAuthority lets contracts and accounts ask the precompile for cosmos messages
// of all kinds of signers. A message is executed, with the effect it has when it is
// routed directly, if and only if the caller is its only signer.
func TestAuthority(t *testing.T) {
	kit.Run(t, "a message was executed, or refused for its signer", func(rt *rapid.T, c *kit.Case) {
		app := authShared.Get()
		for i, k := 0, rapid.IntRange(1, 4).Draw(rt, "messages"); i < k; i++ {
			ctx := kit.Ctx(app)
			caller := rapid.SampledFrom([]string{"F0", "F1", "key1", "long"}).Draw(rt, "caller")
			c.Logf("caller %s", caller)
			self := parties(app)[caller]
			m, signers := drawMessage(rt, c, app, ctx, caller)
			allowed := !slices.ContainsFunc(signers, func(s sdk.AccAddress) bool { return !s.Equals(self) })

			// what the message does on its own
			direct, write := kit.Branch(ctx)
			directErr := safely(func() error { _, err := route(app, direct.WithGasMeter(storetypes.NewGasMeter(1<<50)), m); return err })
			_ = write
			want := digest(app, ctx, kit.Acc(1), self, acc(shorthand))
			if allowed && directErr == nil {
				want = digest(app, direct, kit.Acc(1), self, acc(shorthand))
			}
			wantSelf := balance(app, ctx, self)
			if allowed && directErr == nil {
				wantSelf = balance(app, direct, self)
			}

			input := execute(app, m)
			failed := false
			switch caller {
			case "long":
				br, write := kit.Branch(ctx)
				err := safely(func() error {
					_, err := route(app, br.WithGasMeter(storetypes.NewGasMeter(1<<50)), msgCall(long, cosmosAddr, input))
					return err
				})
				if failed = err != nil; !failed {
					write()
				}
				kit.Block(app, nil)
			default:
				to, data := cosmosAddr, input
				if caller != "key1" {
					f := fwds[caller[1]-'0']
					to, data = f, kit.FwdGasProgram(kit.FwdItem{Mode: kit.FwdCall, To: cosmosAddr, Data: input, Gas: 1 << 40})
				}
				tx, err := kit.EthToCosmos(app, ctx, kit.EthCall(1, kit.Seq(app, ctx, kit.Acc(1)), &to, data, nil, 1<<55, nil))
				must(err)
				failed = kit.Block(app, [][]byte{tx}).TxResults[0].Code != 0
			}
			after := kit.Ctx(app)
			if failed == (allowed && directErr == nil) {
				rt.Fatalf("%s\nexecuted=%v, but the caller is the signer=%v and the message alone gives error %v", c.Trace(), !failed, allowed, directErr)
			}
			if got := digest(app, after, kit.Acc(1), self, acc(shorthand)); got != want {
				rt.Fatalf("%s\nstate afterwards\n%s\nexpected\n%s", c.Trace(), got, want)
			}
			if got := balance(app, after, self); got.Cmp(wantSelf) != 0 {
				rt.Fatalf("%s\nthe caller has %s afterwards, expected %s", c.Trace(), got, wantSelf)
			}
			if !failed {
				c.Label("executed")
				c.NonTrivial()
			}
			if !allowed && directErr == nil {
				c.Label("refused what would have worked")
				c.NonTrivial()
			}
		}
		authShared.Done()
	})
}

// safely turns a panic of a message handler into an error, as the transaction runner does.
func safely(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return f()
}

var whitelisted = map[string][2]func() gogoproto.Message{
	"/connect.oracle.v2.Query/GetPrice":            {func() gogoproto.Message { return &oracletypes.GetPriceRequest{} }, func() gogoproto.Message { return &oracletypes.GetPriceResponse{} }},
	"/connect.oracle.v2.Query/GetPrices":           {func() gogoproto.Message { return &oracletypes.GetPricesRequest{} }, func() gogoproto.Message { return &oracletypes.GetPricesResponse{} }},
	"/connect.oracle.v2.Query/GetAllCurrencyPairs": {func() gogoproto.Message { return &oracletypes.GetAllCurrencyPairsRequest{} }, func() gogoproto.Message { return &oracletypes.GetAllCurrencyPairsResponse{} }},
}

type query struct{ path, req string }

func drawQuery(rt *rapid.T) query {
	path := rapid.SampledFrom([]string{
		"/connect.oracle.v2.Query/GetPrice", "/connect.oracle.v2.Query/GetPrice", "/connect.oracle.v2.Query/GetPrices", "/connect.oracle.v2.Query/GetPrices",
		"/connect.oracle.v2.Query/GetAllCurrencyPairs",
		"/connect.oracle.v2.Query/GetCurrencyPairMapping", "/cosmos.bank.v1beta1.Query/AllBalances", "/cosmos.bank.v1beta1.Query/TotalSupply", "/cosmos.auth.v1beta1.Query/Accounts",
		"/minievm.evm.v1.Query/Params", "/minievm.evm.v1.Query/Call", "/cosmos.bank.v1beta1.Query/Params", "/connect.marketmap.v2.Query/MarketMap", "", "GetPrice", "/connect.oracle.v2.Query/", "/connect.oracle.v2.Query/getprice",
		"connect.oracle.v2.Query/GetPrice", "/connect.oracle.v2.Msg/AddCurrencyPairs", "/cosmos.bank.v1beta1.Msg/Send",
	}).Draw(rt, "path")
	pair := func(l string) string {
		return rapid.SampledFrom(append([]string{"", "X/Y", "btc/usd", "BTC", "BTC/USD/", "\\u0000", "A/B"}, append(pairs, pairs...)...)).Draw(rt, l)
	}
	req := rapid.SampledFrom([]string{"{}", "", "null", "[]", "{", `{"x":1}`, `{"currency_pair":1}`, `{"currency_pair_ids":["BTC/USD",1]}`, `{"currency_pair_ids":["ETH/USD"],"currency_pair":"ETH/USD"}`}).Draw(rt, "raw")
	switch rapid.IntRange(0, 4).Draw(rt, "form") {
	case 0, 1:
		req = fmt.Sprintf(`{"currency_pair":"%s"}`, pair("pair"))
	case 2, 3:
		var ps []string
		for i, k := 0, rapid.IntRange(0, 4).Draw(rt, "pairs"); i < k; i++ {
			ps = append(ps, pair("pair"))
		}
		bz, _ := json.Marshal(ps)
		if ps == nil {
			bz = []byte("[]")
		}
		req = fmt.Sprintf(`{"currency_pair_ids":%s}`, bz)
	}
	return query{path, req}
}

// answer is the answer of the query itself, or false when it has none.
func (q query) answer(app *minievmapp.MinitiaApp, ctx sdk.Context) (string, bool) {
	msgs, ok := whitelisted[q.path]
	if !ok {
		return "", false
	}
	req, res := msgs[0](), msgs[1]()
	if err := app.AppCodec().UnmarshalJSON([]byte(q.req), req); err != nil {
		return "", false
	}
	bz, err := app.AppCodec().Marshal(req)
	must(err)
	out, err := app.GRPCQueryRouter().Route(q.path)(ctx, &abci.RequestQuery{Path: q.path, Data: bz})
	if err != nil {
		return "", false
	}
	must(app.AppCodec().Unmarshal(out.Value, res))
	js, err := app.AppCodec().MarshalJSON(res)
	must(err)
	return string(js), true
}

func unpackString(a *abi.ABI, method string, ret []byte) string {
	vals, err := a.Methods[method].Outputs.Unpack(ret)
	must(err)
	return vals[0].(string)
}

// ask runs the query through the precompile, by contract f.
func (q query) ask(app *minievmapp.MinitiaApp, ctx sdk.Context, f common.Address) (string, bool) {
	in := pack(cosmosABI, "query_cosmos", q.path, q.req)
	ret, err := app.EVMKeeper.EVMStaticCall(ctx.WithGasMeter(storetypes.NewGasMeter(1<<50)), kit.Addr(1), f,
		kit.FwdGasProgram(kit.FwdItem{Mode: kit.FwdCall, To: cosmosAddr, Data: in, Gas: 1 << 40}), nil)
	if err != nil {
		return "", false
	}
	return unpackString(cosmosABI, "query_cosmos", ret), true
}

// TestQueries compares the queries of contracts with the queries themselves,
// one after the other and concurrently.
func TestQueries(t *testing.T) {
	kit.Run(t, "a query was answered after another one had failed", func(rt *rapid.T, c *kit.Case) {
		app := authShared.Get()
		qs := rapid.SliceOfN(rapid.Custom(drawQuery), 1, 8).Draw(rt, "queries")
		failed := false
		ctx := kit.Ctx(app)
		type result struct {
			s  string
			ok bool
		}
		wants := make([]result, len(qs))
		for i, q := range qs {
			c.Logf("query %s %s", q.path, q.req)
			br, _ := kit.Branch(ctx)
			w, ok := q.answer(app, br)
			wants[i] = result{w, ok}
			got, gotOK := q.ask(app, br, fwds[i%nForwarders])
			if got != w || ok != gotOK {
				rt.Fatalf("%s\nanswer %v %s\nexpected %v %s", c.Trace(), gotOK, got, ok, w)
			}
			c.NonTrivialIf(ok && failed)
			failed = failed || !ok
		}
		if rapid.IntRange(0, 9).Draw(rt, "concurrent") == 0 {
			c.Label("concurrent")
			var wg sync.WaitGroup
			bad := make([]string, 4)
			for g := range bad {
				qctx, err := app.CreateQueryContext(app.LastBlockHeight(), false)
				must(err)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for round := 0; round < 5; round++ {
						for i := range qs {
							i = (i + g) % len(qs)
							if err := safely(func() error {
								if got, ok := qs[i].ask(app, qctx, fwds[g%nForwarders]); got != wants[i].s || ok != wants[i].ok {
									return fmt.Errorf("concurrent query %s %s\nanswer %v %s\nexpected %v %s", qs[i].path, qs[i].req, ok, got, wants[i].ok, wants[i].s)
								}
								return nil
							}); err != nil {
								bad[g] = err.Error()
								return
							}
						}
					}
				}()
			}
			wg.Wait()
			for _, b := range bad {
				if b != "" {
					rt.Fatalf("%s\n%s", c.Trace(), b)
				}
			}
		}
		authShared.Done()
	})
}

// TestConversions checks the address and denom conversions and the address questions.
func TestConversions(t *testing.T) {
	kit.Run(t, "an address or denom which exists was converted", func(rt *rapid.T, c *kit.Case) {
		app := authShared.Get()
		ctx := kit.Ctx(app)
		call := func(name string, args ...any) ([]any, error) {
			ret, err := app.EVMKeeper.EVMStaticCall(ctx.WithGasMeter(storetypes.NewGasMeter(1<<50)), kit.Addr(1), cosmosAddr, pack(cosmosABI, name, args...), nil)
			if err != nil {
				return nil, err
			}
			return cosmosABI.Methods[name].Outputs.Unpack(ret)
		}
		get := func(name string, args ...any) any {
			v, err := call(name, args...)
			if err != nil {
				rt.Fatalf("%s\n%s %v: %v", c.Trace(), name, args, err)
			}
			return v[0]
		}
		known := []common.Address{kit.FeeERC20(app, ctx), fwds[0], shorthand, common.Address{}, evmtypes.StdAddress, cosmosAddr}
		for _, a := range []string{"fees", "authority", "operator", "key1"} {
			known = append(known, common.BytesToAddress(parties(app)[a]))
		}
		for name := range minievmapp.GetMaccPerms() {
			known = append(known, common.BytesToAddress(authtypes.NewModuleAddress(name)))
		}
		slices.SortFunc(known, func(a, b common.Address) int { return a.Cmp(b) })
		for i, k := 0, rapid.IntRange(1, 6).Draw(rt, "n"); i < k; i++ {
			a := common.BytesToAddress(rapid.SliceOfN(rapid.Byte(), 20, 20).Draw(rt, "addr"))
			if rapid.Bool().Draw(rt, "known") {
				a = rapid.SampledFrom(known).Draw(rt, "known address")
				c.NonTrivial()
			}
			c.Logf("address %s", a)
			s := get("to_cosmos_address", a).(string)
			if s != acc(a).String() || get("to_evm_address", s).(common.Address) != a {
				rt.Fatalf("%s\nis %s and back %s", c.Trace(), s, get("to_evm_address", s))
			}
			d := get("to_denom", a).(string)
			if back := get("to_erc20", d).(common.Address); back != a {
				rt.Fatalf("%s\nhas denom %s, which is the denom of %s", c.Trace(), d, back)
			}
			origin := acc(a)
			if a == shorthand {
				origin = long
			}
			if got := get("is_blocked_address", a).(bool); got != app.BankKeeper.BlockedAddr(origin) {
				rt.Fatalf("%s\nblocked=%v", c.Trace(), got)
			}
			_, isModule := app.AccountKeeper.GetAccount(ctx, origin).(sdk.ModuleAccountI)
			if got := get("is_module_address", a).(bool); got != isModule {
				rt.Fatalf("%s\nmodule=%v", c.Trace(), got)
			}

			// strings which are no EVM address or denom
			b := rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(rt, "bytes")
			str := sdk.AccAddress(b).String()
			switch rapid.IntRange(0, 4).Draw(rt, "damage") {
			case 0:
				j := rapid.IntRange(0, len(str)-1).Draw(rt, "at")
				str = str[:j] + string(rapid.SampledFrom([]byte("qpzry0bio1A \x00")).Draw(rt, "char")) + str[j+1:]
			case 1:
				str = rapid.String().Draw(rt, "string")
			}
			want, err := sdk.AccAddressFromBech32(str)
			v, gotErr := call("to_evm_address", str)
			if valid := err == nil && len(want) == 20; valid != (gotErr == nil) || (valid && v[0].(common.Address) != common.BytesToAddress(want)) {
				rt.Fatalf("%s\nto_evm_address(%q) gives %v %v, expected %x %v", c.Trace(), str, v, gotErr, []byte(want), err)
			}
			denom := rapid.SampledFrom([]string{"", "nosuch", "evm/", "evm/12", "evm/0x", "ibc/ABC", "evm/zz00000000000000000000000000000000000000"}).Draw(rt, "denom")
			if v, err := call("to_erc20", denom); err == nil {
				rt.Fatalf("%s\nto_erc20(%q) gives %v", c.Trace(), denom, v)
			}
		}
		if d := get("to_denom", kit.FeeERC20(app, ctx)).(string); d != kit.FeeDenom {
			rt.Fatalf("denom of the fee token is %s", d)
		}
		authShared.Done()
	})
}

// validInput is a well-formed call of a precompile.
func validInput(rt *rapid.T, app *minievmapp.MinitiaApp) (common.Address, []byte) {
	a := common.BytesToAddress(rapid.SliceOfN(rapid.Byte(), 20, 20).Draw(rt, "addr"))
	switch rapid.IntRange(0, 11).Draw(rt, "method") {
	case 0:
		return cosmosAddr, pack(cosmosABI, "is_blocked_address", a)
	case 1:
		return cosmosAddr, pack(cosmosABI, "is_module_address", a)
	case 2:
		return cosmosAddr, pack(cosmosABI, "to_cosmos_address", a)
	case 3:
		return cosmosAddr, pack(cosmosABI, "to_evm_address", acc(a).String())
	case 4:
		return cosmosAddr, pack(cosmosABI, "to_denom", a)
	case 5:
		return cosmosAddr, pack(cosmosABI, "to_erc20", kit.FeeDenom)
	case 6:
		q := drawQuery(rt)
		return cosmosAddr, pack(cosmosABI, "query_cosmos", q.path, q.req)
	case 7:
		return registryAddr, pack(registryABI, "register_erc20")
	case 8:
		return registryAddr, pack(registryABI, "register_erc20_from_factory", a)
	case 9:
		return registryAddr, pack(registryABI, "register_erc20_store", a)
	case 10:
		return registryAddr, pack(registryABI, "is_erc20_store_registered", a)
	}
	return cosmosAddr, pack(cosmosABI, "execute_cosmos", drawJSON(rt, app))
}

// drawJSON is a damaged, strange or valid message.
func drawJSON(rt *rapid.T, app *minievmapp.MinitiaApp) string {
	js := msgJSON(app, msgSend(acc(fwds[0]), acc(sink(0)), 1))
	switch rapid.IntRange(0, 5).Draw(rt, "json") {
	case 0:
		return js
	case 1:
		return js[:rapid.IntRange(0, len(js)).Draw(rt, "cut")]
	case 2:
		urls := app.InterfaceRegistry().ListImplementations("cosmos.base.v1beta1.Msg")
		sort.Strings(urls)
		return fmt.Sprintf(`{"@type":"%s"}`, rapid.SampledFrom(urls).Draw(rt, "url"))
	case 3:
		urls := app.InterfaceRegistry().ListImplementations("cosmos.base.v1beta1.Msg")
		sort.Strings(urls)
		return fmt.Sprintf(`{"@type":"%s","from_address":null,"sender":"%s","inputs":[null],"msgs":[null],"amount":[null],"messages":[{}],"value":"-1","authority":""}`, rapid.SampledFrom(urls).Draw(rt, "url"), acc(fwds[0]))
	case 4:
		return rapid.SampledFrom([]string{"", "null", "{}", "[]", "1", `{"@type":"/nosuch"}`, `{"@type":""}`, `{"@type":null}`, `{"@type":{}}`, `{"@type":"/google.protobuf.Any"}`}).Draw(rt, "strange")
	}
	return rapid.String().Draw(rt, "text")
}

// TestMalformedInput calls the precompiles with damaged input and little gas: the
// call may fail, nothing else does, and it costs no more than the gas it was given.
func TestMalformedInput(t *testing.T) {
	empty := common.HexToAddress("0xe0e0e0")
	kit.Run(t, "the input was damaged or the gas short", func(rt *rapid.T, c *kit.Case) {
		app := authShared.Get()
		ctx := kit.Ctx(app)
		for i, k := 0, rapid.IntRange(1, 6).Draw(rt, "n"); i < k; i++ {
			to, in := validInput(rt, app)
			switch rapid.IntRange(0, 4).Draw(rt, "damage") {
			case 0:
				in = in[:rapid.IntRange(0, len(in)).Draw(rt, "cut")]
				c.NonTrivial()
			case 1:
				in = slices.Clone(in)
				for j, k := 0, rapid.IntRange(1, 4).Draw(rt, "flips"); j < k; j++ {
					in[rapid.IntRange(0, len(in)-1).Draw(rt, "at")] = rapid.Byte().Draw(rt, "byte")
				}
				c.NonTrivial()
			case 2:
				in = slices.Clone(in)
				w := rapid.SampledFrom([]string{"0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "0x7fffffffffffffff", "0x8000000000000000", "0x20", "0xffffffff", "0x"}).Draw(rt, "word")
				if n := (len(in) - 4) / 32; n > 0 {
					copy(in[4+32*rapid.IntRange(0, n-1).Draw(rt, "arg"):], common.HexToHash(w).Bytes())
				}
				c.NonTrivial()
			case 3:
				in = append(slices.Clone(in), rapid.SliceOfN(rapid.Byte(), 0, 64).Draw(rt, "tail")...)
			}
			gas := rapid.SampledFrom([]uint64{1, 2, 99, 100, 200, 500, 1000, 5000, 100_000, 10_000_000}).Draw(rt, "gas")
			mode := rapid.SampledFrom([]byte{kit.FwdTry, kit.FwdTry, kit.FwdStatic, kit.FwdDelegate, kit.FwdCallCode}).Draw(rt, "mode")
			c.NonTrivialIf(gas < 1000)
			c.Logf("%s %s gas %d input %x", modeName[mode], to, gas, in)
			run := func(to common.Address) (uint64, error) {
				br, _ := kit.Branch(ctx)
				gm := storetypes.NewGasMeter(1 << 50)
				// the last step makes the outcome of the first one irrelevant to the frame's own
				data := kit.FwdGasProgram(kit.FwdItem{Mode: mode, To: to, Data: in, Gas: gas}, kit.FwdItem{Mode: kit.FwdCall, To: listAt, Data: word(7), Gas: 1 << 30})
				_, _, err := app.EVMKeeper.EVMCall(br.WithGasMeter(gm), kit.Addr(1), fwds[0], data, nil, nil)
				return gm.GasConsumed(), err
			}
			base, err := run(empty)
			must(err)
			used, err := run(to)
			if err != nil {
				// a message which was accepted fails the whole call when it cannot be executed
				if in, ok := messageOf(to, in); !ok || mode == kit.FwdStatic || mode == kit.FwdDelegate {
					rt.Fatalf("%s\nthe frame around it failed: %v", c.Trace(), err)
				} else if m := decodeMsg(app, in); m == nil {
					rt.Fatalf("%s\na message which cannot be decoded failed the frame around the call: %v", c.Trace(), err)
				}
				c.Label("message failed")
				continue
			}
			// (the address of an empty account is cold, a precompile is warm; a message costs its own gas)
			if _, ok := messageOf(to, in); !ok && used > base+gas {
				rt.Fatalf("%s\ncost %d more than a call of nothing, although it had %d gas", c.Trace(), used-base, gas)
			}
		}
		authShared.Done()
	})
}

// messageOf gives the message of a call of execute_cosmos.
func messageOf(to common.Address, in []byte) (string, bool) {
	m := cosmosABI.Methods["execute_cosmos"]
	if to != cosmosAddr || len(in) < 4 || !bytes.Equal(in[:4], m.ID) {
		return "", false
	}
	vals, err := m.Inputs.Unpack(in[4:])
	if err != nil {
		return "", false
	}
	return vals[0].(string), true
}

func decodeMsg(app *minievmapp.MinitiaApp, s string) sdk.Msg {
	var m sdk.Msg
	if err := app.AppCodec().UnmarshalInterfaceJSON([]byte(s), &m); err != nil {
		return nil
	}
	return m
}

var (
	_ = codectypes.NewAnyWithValue
	_ = big.NewInt
)
