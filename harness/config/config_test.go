// Package config checks the rules which the parameters of the chain set.
package config

import (
	"bytes"
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strings"
	"testing"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"
	"pgregory.net/rapid"

	minievmapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/x/evm/contracts/erc20_factory"
	"github.com/initia-labs/minievm/x/evm/contracts/i_cosmos"
	"github.com/initia-labs/minievm/x/evm/contracts/i_erc20_registry"
	"github.com/initia-labs/minievm/x/evm/contracts/initia_erc20"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifh/kit"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func must2[T any](v T, err error) T {
	must(err)
	return v
}

const nForwarders = 3

var (
	cosmosABI   = must2(i_cosmos.ICosmosMetaData.GetAbi())
	registryABI = must2(i_erc20_registry.IErc20RegistryMetaData.GetAbi())
	factoryABI  = must2(erc20_factory.Erc20FactoryMetaData.GetAbi())
	tokenABI    = must2(initia_erc20.InitiaErc20MetaData.GetAbi())
	tokenBin    = must2(hexutil.Decode(initia_erc20.InitiaErc20Bin))

	cosmosAddr   = common.HexToAddress("0xf1")
	registryAddr = common.HexToAddress("0xf2")

	fwds    [nForwarders]common.Address
	token   common.Address // deployed while everything is allowed
	factory common.Address
	long    = sdk.AccAddress(ethcrypto.Keccak256([]byte("long account")))

	shared = &kit.Shared{Opts: kit.Options{NumKeys: 4, MaxGas: 1 << 60}, Setup: func(app *minievmapp.MinitiaApp, ctx sdk.Context) {
		create := func(code []byte) common.Address {
			_, a, _, err := app.EVMKeeper.EVMCreate(ctx, kit.Addr(0), code, uint256.NewInt(0), nil)
			must(err)
			return a
		}
		for i := range fwds {
			fwds[i] = create(kit.InitCode(nil, kit.Forwarder()))
		}
		token = create(newToken())
		must(app.EVMKeeper.ERC20Keeper().CreateERC20(ctx, "usix", 6))
		must(app.EVMKeeper.ERC20Keeper().CreateERC20(ctx, "uzero", 0))
		factory = must2(app.EVMKeeper.GetERC20FactoryAddr(ctx))
		for _, f := range fwds {
			must(app.AuthzKeeper.SaveGrant(ctx, f.Bytes(), kit.Acc(3), authz.NewGenericAuthorization("/minievm.evm.v1.MsgCreate"), nil))
		}
		for i := 0; i < 3; i++ {
			must(app.AuthzKeeper.SaveGrant(ctx, kit.Acc(i), kit.Acc(3), authz.NewGenericAuthorization("/minievm.evm.v1.MsgCreate"), nil))
		}
	}}
)

func newToken() []byte {
	return append(slices.Clone(tokenBin), must2(tokenABI.Pack("", "token", "TOK", uint8(6)))...)
}

func route(app *minievmapp.MinitiaApp, ctx sdk.Context, m sdk.Msg) (*sdk.Result, error) {
	return app.MsgServiceRouter().Handler(m)(ctx, m)
}

// attempt runs f in a branch which is kept when f succeeds.
func attempt(ctx sdk.Context, f func(ctx sdk.Context) error) (err error) {
	br, write := kit.Branch(ctx)
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	if err := f(br.WithGasMeter(storetypes.NewGasMeter(1e13))); err != nil {
		return err
	}
	write()
	return nil
}

func msgCall(from sdk.AccAddress, to common.Address, in []byte) *evmtypes.MsgCall {
	return &evmtypes.MsgCall{Sender: from.String(), ContractAddr: to.Hex(), Input: hexutil.Encode(in), Value: math.ZeroInt()}
}

func msgJSON(app *minievmapp.MinitiaApp, m sdk.Msg) string {
	return string(must2(app.AppCodec().MarshalInterfaceJSON(m)))
}

// spelling of an address in one of its bech32 forms.
func spelling(rt *rapid.T, a sdk.AccAddress) string {
	if rapid.IntRange(0, 5).Draw(rt, "upper case") == 0 {
		return strings.ToUpper(a.String())
	}
	return a.String()
}

type world struct {
	app  *minievmapp.MinitiaApp
	ctx  sdk.Context
	rt   *rapid.T
	c    *kit.Case
	p    evmtypes.Params
	erc  map[common.Address]bool // registered
	salt uint64

	creators map[string]sdk.AccAddress
}

func (w *world) fail(format string, args ...any) {
	w.rt.Fatalf("%s\n%s", w.c.Trace(), fmt.Sprintf(format, args...))
}

// check compares an outcome with the expected one.
func (w *world) check(what string, err error, want bool) bool {
	if (err == nil) != want {
		w.fail("%s: result %v, expected success=%v", what, err, want)
	}
	if want {
		w.c.Label("ok " + what)
	} else {
		w.c.Label("refused " + what)
	}
	return want
}

func names(m map[string]sdk.AccAddress) []string {
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// tokens are the contracts which can be registered.
func tokens() []common.Address { return append(slices.Clone(fwds[:]), token) }

// drawParams gives parameters and whether they are valid.
func (w *world) drawParams() (p evmtypes.Params, valid bool) {
	rt := w.rt
	p, valid = w.p, true
	p.ExtraEIPs, p.AllowedPublishers, p.AllowedCustomERC20s = nil, nil, nil
	bad := rapid.IntRange(0, 3).Draw(rt, "bad") == 0
	pick := func(l string, good, wrong []string) string {
		if bad && rapid.IntRange(0, 2).Draw(rt, l+" wrong") == 0 {
			s := rapid.SampledFrom(wrong).Draw(rt, l)
			valid = false
			return s
		}
		return rapid.SampledFrom(good).Draw(rt, l)
	}
	for i, k := 0, rapid.SampledFrom([]int{0, 0, 1, 1, 2, 4}).Draw(rt, "publishers"); i < k; i++ {
		var good []string
		for _, n := range names(w.creators) {
			good = append(good, w.creators[n].String())
		}
		p.AllowedPublishers = append(p.AllowedPublishers, pick("publisher", append(good, strings.ToUpper(good[0]), sdk.AccAddress("somebody else").String()),
			[]string{"", "cosmos1", "0x" + common.Bytes2Hex(w.creators["key0"]), sdk.ValAddress(kit.Acc(0)).String(), strings.ToUpper(good[0][:1]) + good[0][1:], good[0] + "q", good[0] + "," + good[0]}))
	}
	p.AllowCustomERC20 = rapid.IntRange(0, 3).Draw(rt, "allow custom") > 0
	for i, k := 0, rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(rt, "customs"); i < k; i++ {
		var good []string
		for _, a := range tokens() {
			good = append(good, a.Hex(), strings.ToLower(a.Hex()), a.Hex()[2:], sdk.AccAddress(a.Bytes()).String())
		}
		p.AllowedCustomERC20s = append(p.AllowedCustomERC20s, pick("custom", append(good, "0x00000000000000000000000000000000000000cc"),
			[]string{"", "0x", "0x12", good[0] + "00", good[0][:41], "stake", "evm/" + good[2], "cosmos1qq"}))
	}
	p.FeeDenom = pick("fee denom", []string{kit.FeeDenom, kit.FeeDenom, "usix", "uzero"}, []string{"", "nosuch", "STAKE", "evm/" + token.Hex()[2:], "evm/" + fwds[0].Hex()[2:], "evm/12", "evm/", "evm/00000000000000000000000000000000000000cc"})
	ratio := pick("refund", []string{"0", "0.5", "1", "0.999999999999999999", "0.000000000000000001"}, []string{"-0.000000000000000001", "1.000000000000000001", "2", "-1"})
	p.GasRefundRatio = math.LegacyMustNewDecFromStr(ratio)
	p.NumRetainBlockHashes = rapid.SampledFrom([]uint64{0, 256, 257, 1000, 1<<64 - 1}).Draw(rt, "retain")
	if bad && rapid.IntRange(0, 3).Draw(rt, "retain wrong") == 0 {
		p.NumRetainBlockHashes = rapid.SampledFrom([]uint64{1, 2, 128, 255}).Draw(rt, "retain")
		valid = false
	}
	if rapid.IntRange(0, 3).Draw(rt, "eips") == 0 {
		p.ExtraEIPs = []int64{3855}
	}
	return p, valid
}

func (w *world) updateParams() {
	p, valid := w.drawParams()
	auth := w.app.EVMKeeper.GetAuthority()
	who := auth
	if rapid.IntRange(0, 3).Draw(w.rt, "not the authority") == 0 {
		who = rapid.SampledFrom([]string{kit.Acc(0).String(), kit.Operator().String(), "", fwds[0].Hex(), sdk.AccAddress(fwds[0].Bytes()).String(),
			authtypes.NewModuleAddress(govtypes.ModuleName).String(), authtypes.NewModuleAddress(evmtypes.ModuleName).String()}).Draw(w.rt, "authority")
	}
	w.c.Logf("update params by %q valid=%v: %+v", who, valid, p)
	err := attempt(w.ctx, func(ctx sdk.Context) error {
		_, err := route(w.app, ctx, &evmtypes.MsgUpdateParams{Authority: who, Params: p})
		return err
	})
	if w.check("update", err, valid && who == auth) {
		w.p = p
	}
	w.c.NonTrivialIf(err != nil)
}

func (w *world) checkParams() {
	got := must2(w.app.EVMKeeper.Params.Get(w.ctx))
	res, err := evmkeeper.NewQueryServer(w.app.EVMKeeper).Params(w.ctx, &evmtypes.QueryParamsRequest{})
	must(err)
	for _, g := range []evmtypes.Params{got, res.Params} {
		if !g.GasRefundRatio.Equal(w.p.GasRefundRatio) {
			w.fail("refund ratio %s, set was %s", g.GasRefundRatio, w.p.GasRefundRatio)
		}
		g.GasRefundRatio = w.p.GasRefundRatio
		if !reflect.DeepEqual(g, w.p) {
			w.fail("params %+v, set were %+v", g, w.p)
		}
	}
	if d := must2(w.app.EVMKeeper.GetFeeDenom(w.ctx)); d != w.p.FeeDenom {
		w.fail("fee denom %s", d)
	}
	if n := must2(w.app.EVMKeeper.NumRetainBlockHashes(w.ctx)); n != w.p.NumRetainBlockHashes {
		w.fail("retention %d", n)
	}
}

// mayPublish tells whether a may create contracts.
func (w *world) mayPublish(a sdk.AccAddress) bool {
	return len(w.p.AllowedPublishers) == 0 || slices.ContainsFunc(w.p.AllowedPublishers, func(s string) bool {
		b, err := sdk.AccAddressFromBech32(s)
		return err == nil && bytes.Equal(a, b)
	})
}

func (w *world) publish() {
	rt := w.rt
	who := rapid.SampledFrom(names(w.creators)).Draw(rt, "who")
	self := w.creators[who]
	isFwd := slices.Contains(fwds[:], common.BytesToAddress(self)) && len(self) == 20
	runtime := kit.Forwarder()
	code := hexutil.Encode(kit.InitCode(nil, runtime))
	w.salt++
	var m sdk.Msg = &evmtypes.MsgCreate{Sender: spelling(rt, self), Code: code, Value: math.ZeroInt()}
	if rapid.Bool().Draw(rt, "create2") {
		m = &evmtypes.MsgCreate2{Sender: spelling(rt, self), Code: code, Value: math.ZeroInt(), Salt: w.salt}
	}
	paths := []string{"message", "message", "call"}
	if strings.HasPrefix(who, "key") {
		paths = append(paths, "ethereum", "ethereum")
		if who == "key3" {
			paths = append(paths, "authz", "authz of a contract")
		}
	}
	if isFwd {
		paths = append(paths, "precompile", "precompile", "precompile")
	}
	path := rapid.SampledFrom(paths).Draw(rt, "path")
	allowed := w.mayPublish(self)
	what := "publish by " + path
	w.c.Logf("%s %s, allowed=%v", who, what, allowed)
	w.c.NonTrivialIf(len(w.p.AllowedPublishers) > 0)
	grantee := rapid.IntRange(0, 2).Draw(rt, "grantee")
	var contract common.Address
	err := attempt(w.ctx, func(ctx sdk.Context) error {
		switch path {
		case "message":
			res, err := route(w.app, ctx, m)
			if err != nil {
				return err
			}
			switch r := res.MsgResponses[0].GetCachedValue().(type) {
			case *evmtypes.MsgCreateResponse:
				contract = common.HexToAddress(r.ContractAddr)
			case *evmtypes.MsgCreate2Response:
				contract = common.HexToAddress(r.ContractAddr)
			}
			return nil
		case "call": // not a creation, always allowed
			allowed = true
			_, err := route(w.app, ctx, msgCall(self, fwds[0], nil))
			return err
		case "ethereum":
			i := int(who[3] - '0')
			// (the fee is none of the matter here)
			bz := must2(kit.EthToCosmos(w.app, w.ctx, kit.EthCall(i, kit.Seq(w.app, w.ctx, self), nil, kit.InitCode(nil, runtime), nil, 1<<30, nil)))
			tx := must2(w.app.TxDecode(bz))
			_, err := route(w.app, ctx, tx.GetMsgs()[0])
			return err
		case "authz":
			e := authz.NewMsgExec(kit.Acc(grantee), []sdk.Msg{&evmtypes.MsgCreate{Sender: self.String(), Code: code, Value: math.ZeroInt()}})
			_, err := route(w.app, ctx, &e)
			return err
		case "authz of a contract":
			f := fwds[grantee]
			e := authz.NewMsgExec(f.Bytes(), []sdk.Msg{&evmtypes.MsgCreate{Sender: self.String(), Code: code, Value: math.ZeroInt()}})
			_, err := route(w.app, ctx, msgCall(kit.Acc(1), f, kit.FwdProgram(kit.FwdItem{Mode: kit.FwdCall, To: cosmosAddr, Data: must2(cosmosABI.Pack("execute_cosmos", msgJSON(w.app, &e)))})))
			return err
		}
		_, err := route(w.app, ctx, msgCall(kit.Acc(1), common.BytesToAddress(self), kit.FwdProgram(kit.FwdItem{Mode: kit.FwdCall, To: cosmosAddr, Data: must2(cosmosABI.Pack("execute_cosmos", msgJSON(w.app, m)))})))
		return err
	})
	if w.check(what, err, allowed) && (contract != common.Address{}) {
		if !bytes.Equal(kit.Code(w.app, w.ctx, contract), runtime) {
			w.fail("no code at the created contract")
		}
	}
}

// listed tells whether the list allows the token to register.
func (w *world) listed(a common.Address) bool {
	return len(w.p.AllowedCustomERC20s) == 0 || slices.ContainsFunc(w.p.AllowedCustomERC20s, func(s string) bool {
		if !common.IsHexAddress(s) {
			return bytes.Equal(must2(sdk.AccAddressFromBech32(s)), a.Bytes())
		}
		return common.HexToAddress(s) == a
	})
}

func (w *world) register() {
	rt := w.rt
	switch rapid.SampledFrom([]string{"register", "register", "register", "new token", "factory", "chain", "false factory"}).Draw(rt, "how") {
	case "register":
		f := rapid.SampledFrom(fwds[:]).Draw(rt, "contract")
		want := w.p.AllowCustomERC20 && (w.erc[f] || w.listed(f))
		w.c.Logf("%s registers, flag=%v listed=%v already=%v", f, w.p.AllowCustomERC20, w.listed(f), w.erc[f])
		w.c.NonTrivialIf(!w.p.AllowCustomERC20 || len(w.p.AllowedCustomERC20s) > 0)
		err := attempt(w.ctx, func(ctx sdk.Context) error {
			_, err := route(w.app, ctx, msgCall(kit.Acc(1), f, kit.FwdProgram(kit.FwdItem{Mode: kit.FwdCall, To: registryAddr, Data: must2(registryABI.Pack("register_erc20"))})))
			return err
		})
		if w.check("register", err, want) {
			w.erc[f] = true
		}
	case "new token":
		// the constructor of the token registers it
		n := kit.Seq(w.app, w.ctx, kit.Acc(2))
		a := ethcrypto.CreateAddress(kit.Addr(2), n)
		want := w.p.AllowCustomERC20 && w.listed(a)
		w.c.Logf("deploy a token at %s, allowed=%v", a, want)
		err := attempt(w.ctx, func(ctx sdk.Context) error {
			_, _, _, err := w.app.EVMKeeper.EVMCreate(ctx, kit.Addr(2), newToken(), uint256.NewInt(0), nil)
			return err
		})
		if w.check("new token", err, want) {
			w.erc[a] = true
		}
	case "factory":
		// the tokens of the chain's own factory are not custom tokens
		var a common.Address
		w.c.Logf("deploy a token by the factory")
		err := attempt(w.ctx, func(ctx sdk.Context) error {
			res, err := route(w.app, ctx, msgCall(kit.Acc(1), factory, must2(factoryABI.Pack("createERC20", "n", "s", uint8(3)))))
			if err != nil {
				return err
			}
			a = common.HexToAddress(res.MsgResponses[0].GetCachedValue().(*evmtypes.MsgCallResponse).Result)
			return nil
		})
		if w.check("factory", err, true) {
			w.erc[a] = true
		}
	case "chain":
		w.salt++
		denom := fmt.Sprintf("chain%d", w.salt)
		w.c.Logf("the chain creates %s", denom)
		if w.check("chain", attempt(w.ctx, func(ctx sdk.Context) error { return w.app.EVMKeeper.ERC20Keeper().CreateERC20(ctx, denom, 6) }), true) {
			w.erc[must2(evmtypes.DenomToContractAddr(w.ctx, w.app.EVMKeeper, denom))] = true
		}
	case "false factory":
		// others than the factory cannot register on its behalf
		f := rapid.SampledFrom(fwds[:]).Draw(rt, "contract")
		target := rapid.SampledFrom(append(fwds[:], common.HexToAddress("0xabcd"))).Draw(rt, "target")
		w.c.Logf("%s registers %s as if it were the factory", f, target)
		w.check("false factory", attempt(w.ctx, func(ctx sdk.Context) error {
			_, err := route(w.app, ctx, msgCall(kit.Acc(1), f, kit.FwdProgram(kit.FwdItem{Mode: kit.FwdCall, To: registryAddr, Data: must2(registryABI.Pack("register_erc20_from_factory", target))})))
			return err
		}), false)
	}
}

func (w *world) checkRegistered() {
	got := map[common.Address]bool{}
	must(w.app.EVMKeeper.ERC20s.Walk(w.ctx, nil, func(k []byte) (bool, error) {
		got[common.BytesToAddress(k)] = true
		return false, nil
	}))
	if !reflect.DeepEqual(got, w.erc) {
		w.fail("registered %v, expected %v", got, w.erc)
	}
}

// TestRules drives parameter updates, contract creations by all paths and
// registrations of tokens against a model of the rules.
func TestRules(t *testing.T) {
	kit.Run(t, "something was refused, or done while rules were set", func(rt *rapid.T, c *kit.Case) {
		app := shared.Get()
		ctx, _ := kit.Branch(kit.Ctx(app))
		w := &world{app: app, ctx: ctx, rt: rt, c: c, erc: map[common.Address]bool{}, p: must2(app.EVMKeeper.Params.Get(ctx)),
			creators: map[string]sdk.AccAddress{"key0": kit.Acc(0), "key1": kit.Acc(1), "key3": kit.Acc(3), "long": long}}
		for i, f := range fwds {
			w.creators[fmt.Sprintf("contract%d", i)] = f.Bytes()
		}
		must(app.EVMKeeper.ERC20s.Walk(ctx, nil, func(k []byte) (bool, error) { w.erc[common.BytesToAddress(k)] = true; return false, nil }))
		if !w.erc[token] {
			rt.Fatalf("the token which was deployed while everything was allowed is not registered")
		}
		for i, k := 0, rapid.IntRange(2, 12).Draw(rt, "steps"); i < k; i++ {
			switch rapid.SampledFrom([]string{"update", "update", "publish", "publish", "publish", "register", "register"}).Draw(rt, "op") {
			case "update":
				w.updateParams()
			case "publish":
				w.publish()
			case "register":
				w.register()
			}
			w.checkParams()
			w.checkRegistered()
		}
		shared.Done()
	})
}

// TestSendRules drives the bank's configuration and compares who may send what with a model.
func TestSendRules(t *testing.T) {
	kit.Run(t, "a send was refused, or a configuration by somebody else than the authority", func(rt *rapid.T, c *kit.Case) {
		app := shared.Get()
		ctx, _ := kit.Branch(kit.Ctx(app))
		w := &world{app: app, ctx: ctx, rt: rt, c: c}
		denoms := []string{kit.FeeDenom, "usix", "uzero"}
		for _, d := range denoms[1:] {
			must(app.EVMKeeper.ERC20Keeper().MintCoins(ctx, kit.Acc(0), sdk.NewCoins(sdk.NewInt64Coin(d, 1_000_000))))
		}
		def, entries := true, map[string]bool{}
		auth := app.BankKeeper.GetAuthority()
		blocked := names(map[string]sdk.AccAddress{})
		for a := range app.BankKeeper.GetBlockedAddresses() {
			blocked = append(blocked, a)
		}
		sort.Strings(blocked)
		for i, k := 0, rapid.IntRange(2, 12).Draw(rt, "steps"); i < k; i++ {
			who := rapid.SampledFrom([]string{auth, auth, auth, kit.Acc(0).String(), ""}).Draw(rt, "by")
			switch rapid.SampledFrom([]string{"params", "entries", "entries", "send", "send", "send"}).Draw(rt, "op") {
			case "params":
				v := rapid.Bool().Draw(rt, "default")
				c.Logf("default send enabled %v by %q", v, who)
				err := attempt(ctx, func(ctx sdk.Context) error {
					_, err := route(app, ctx, &banktypes.MsgUpdateParams{Authority: who, Params: banktypes.NewParams(v)})
					return err
				})
				c.NonTrivialIf(who != auth)
				if w.check("params", err, who == auth) {
					def = v
				}
			case "entries":
				m := &banktypes.MsgSetSendEnabled{Authority: who}
				used := map[string]bool{}
				dup := false
				for j, k := 0, rapid.IntRange(0, 3).Draw(rt, "entries"); j < k; j++ {
					d := rapid.SampledFrom(denoms).Draw(rt, "denom")
					dup = dup || used[d]
					used[d] = true
					m.SendEnabled = append(m.SendEnabled, &banktypes.SendEnabled{Denom: d, Enabled: rapid.Bool().Draw(rt, "enabled")})
				}
				for _, d := range denoms {
					if !used[d] && rapid.IntRange(0, 3).Draw(rt, "default for") == 0 {
						m.UseDefaultFor = append(m.UseDefaultFor, d)
					}
				}
				c.Logf("send enabled %v, default for %v by %q", m.SendEnabled, m.UseDefaultFor, who)
				err := attempt(ctx, func(ctx sdk.Context) error { _, err := route(app, ctx, m); return err })
				c.NonTrivialIf(who != auth)
				if w.check("entries", err, who == auth && !dup) {
					for _, e := range m.SendEnabled {
						entries[e.Denom] = e.Enabled
					}
					for _, d := range m.UseDefaultFor {
						delete(entries, d)
					}
				}
			case "send":
				var amt sdk.Coins
				ok := true
				for _, d := range denoms {
					if rapid.Bool().Draw(rt, d) {
						amt = amt.Add(sdk.NewInt64Coin(d, 3))
						en, has := entries[d]
						ok = ok && (en || (!has && def))
					}
				}
				to := kit.Acc(2).String()
				if rapid.IntRange(0, 4).Draw(rt, "to blocked") == 0 {
					to = rapid.SampledFrom(blocked).Draw(rt, "blocked")
				}
				want := len(amt) > 0 && ok && to == kit.Acc(2).String()
				c.Logf("send %s to %s, allowed=%v", amt, to, want)
				before := app.BankKeeper.GetAllBalances(ctx, kit.Acc(2))
				err := attempt(ctx, func(ctx sdk.Context) error {
					_, err := route(app, ctx, &banktypes.MsgSend{FromAddress: kit.Acc(0).String(), ToAddress: to, Amount: amt})
					return err
				})
				c.NonTrivialIf(!want)
				if !w.check("send", err, want) {
					amt = nil
				}
				if got := app.BankKeeper.GetAllBalances(ctx, kit.Acc(2)); !got.Equal(before.Add(amt...)) {
					w.fail("the receiver has %s, had %s", got, before)
				}
			}
			if got := app.BankKeeper.GetParams(ctx).DefaultSendEnabled; got != def {
				w.fail("default is %v, expected %v", got, def)
			}
			for _, d := range denoms {
				e, has := app.BankKeeper.GetSendEnabledEntry(ctx, d)
				if want, ok := entries[d]; ok != has || (ok && want != e.Enabled) {
					w.fail("entry of %s is %v %v, expected %v %v", d, e, has, want, ok)
				}
			}
		}
		shared.Done()
	})
}
