package ledger

import (
	"errors"
	"fmt"
	"math/big"
	"sort"
	"testing"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	ibctransfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"

	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	minievmapp "github.com/initia-labs/minievm/app"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifh/kit"
)

var nativeDenoms = []string{"uusd", "mtoken", "abc", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", "l2/0123456789abcdef", "Zzz-.:_1"}

// drawCoins draws a valid set of coins around what the holder has.
func (w *world) drawCoins(rt *rapid.T, holder common.Address, max int) sdk.Coins {
	coins := sdk.Coins{}
	n := rapid.IntRange(1, max).Draw(rt, "coins")
	for i := 0; i < n; i++ {
		denom, avail := "", new(big.Int)
		held := w.coinsOf(holder)
		switch k := rapid.IntRange(0, 9).Draw(rt, "which"); {
		case k == 0:
			denom = rapid.SampledFrom(nativeDenoms).Draw(rt, "denom")
		case k == 1 || len(held) == 0:
			denom = w.pickToken(rt).denom
		default:
			denom = held[rapid.IntRange(0, len(held)-1).Draw(rt, "held")].Denom
		}
		if t := w.m.byDenom(denom); t != nil {
			avail = t.balance(holder)
		}
		amt := cap256(pickAmount(rt, avail))
		if amt.Sign() == 0 || !coins.AmountOf(denom).IsZero() {
			continue
		}
		coins = coins.Add(sdk.NewCoin(denom, math.NewIntFromBigInt(amt)))
	}
	return coins
}

// moveAll moves coins on the model, all or nothing.
func (w *world) moveAll(from, to common.Address, coins sdk.Coins) bool {
	saved := w.m.clone()
	for _, c := range coins {
		t := w.m.byDenom(c.Denom)
		if t == nil || !t.move(from, to, c.Amount.BigInt()) {
			w.m = saved
			return false
		}
	}
	return true
}

var burners = map[string]bool{ibctransfertypes.ModuleName: true, opchildtypes.ModuleName: true}
var minters = map[string]bool{ibctransfertypes.ModuleName: true, opchildtypes.ModuleName: true, authtypes.Minter: true}

// bankOp performs one operation of the bank on both sides; it gives what the model expects.
func (w *world) bankOp(rt *rapid.T, c *kit.Case) (expect bool, err error) {
	bk := w.app.BankKeeper
	kind := rapid.SampledFrom([]string{"msgsend", "msgsend", "msgsend", "send", "mod2acc", "mod2mod", "acc2mod", "delegate", "undelegate", "mint", "mint", "burn", "burn", "sendenabled", "sendenabled", "multisend"}).Draw(rt, "bank-op")
	c.Label(kind)
	from, to := pickAny(rt, "from"), pickAny(rt, "to")
	mod, mod2 := rapid.SampledFrom(modules).Draw(rt, "module"), rapid.SampledFrom(modules).Draw(rt, "module2")
	if kind == "burn" || kind == "mod2acc" || kind == "mod2mod" || kind == "undelegate" {
		// prefer a module which holds something
		var rich []string
		for _, m := range modules {
			if len(w.coinsOf(modAddr(m))) > 0 {
				rich = append(rich, m)
			}
		}
		if len(rich) > 0 && rapid.IntRange(0, 5).Draw(rt, "rich?") > 0 {
			mod = rapid.SampledFrom(rich).Draw(rt, "rich")
		}
	} else if rapid.IntRange(0, 5).Draw(rt, "rich?") > 0 {
		var rich []common.Address
		for _, a := range accounts() {
			if len(w.coinsOf(a)) > 0 {
				rich = append(rich, a)
			}
		}
		from = rapid.SampledFrom(rich).Draw(rt, "rich")
	}
	fromAcc, toAcc := accAddr(from), accAddr(to)
	holder := from
	switch kind {
	case "mod2acc", "mod2mod", "undelegate", "burn", "mint":
		holder = modAddr(mod)
	}
	if kind == "sendenabled" {
		d := w.pickToken(rt).denom
		off := rapid.Bool().Draw(rt, "off")
		c.Logf("send enabled %s %v", d, !off)
		err = w.do(func(ctx sdk.Context) error { bk.SetSendEnabled(ctx, d, !off); return nil })
		w.sendOff[d] = off
		return true, err
	}
	coins := w.drawCoins(rt, holder, 3)
	c.Logf("%s from=%s to=%s mod=%s mod2=%s %s", kind, short(from), short(to), mod, mod2, coins)
	switch kind {
	case "multisend":
		return false, w.msg(&banktypes.MsgMultiSend{
			Inputs:  []banktypes.Input{{Address: fromAcc.String(), Coins: coins}},
			Outputs: []banktypes.Output{{Address: toAcc.String(), Coins: coins}},
		})
	case "msgsend":
		expect = !w.m.blocked[to] && !coins.Empty()
		for _, coin := range coins {
			expect = expect && !w.sendOff[coin.Denom]
		}
		expect = expect && w.moveAll(from, to, coins)
		err = w.msg(&banktypes.MsgSend{FromAddress: fromAcc.String(), ToAddress: toAcc.String(), Amount: coins})
	case "send":
		expect = w.moveAll(from, to, coins)
		err = w.do(func(ctx sdk.Context) error { return bk.SendCoins(ctx, fromAcc, toAcc, coins) })
	case "mod2acc":
		expect = !w.m.blocked[to] && w.moveAll(modAddr(mod), to, coins)
		err = w.do(func(ctx sdk.Context) error { return bk.SendCoinsFromModuleToAccount(ctx, mod, toAcc, coins) })
	case "mod2mod":
		expect = w.moveAll(modAddr(mod), modAddr(mod2), coins)
		err = w.do(func(ctx sdk.Context) error { return bk.SendCoinsFromModuleToModule(ctx, mod, mod2, coins) })
	case "acc2mod":
		expect = w.moveAll(from, modAddr(mod), coins)
		err = w.do(func(ctx sdk.Context) error { return bk.SendCoinsFromAccountToModule(ctx, fromAcc, mod, coins) })
	case "delegate":
		expect = w.moveAll(from, modAddr(mod), coins)
		err = w.do(func(ctx sdk.Context) error {
			return bk.DelegateCoins(ctx, fromAcc, authtypes.NewModuleAddress(mod), coins)
		})
	case "undelegate":
		expect = w.moveAll(modAddr(mod), to, coins)
		err = w.do(func(ctx sdk.Context) error {
			return bk.UndelegateCoins(ctx, authtypes.NewModuleAddress(mod), toAcc, coins)
		})
	case "mint":
		saved := w.m.clone()
		expect = minters[mod]
		var fresh []string
		for _, coin := range coins {
			if !expect {
				break
			}
			if evmtypes.IsERC20Denom(coin.Denom) {
				expect = false
				break
			}
			t := w.m.byDenom(coin.Denom)
			if t == nil {
				t = w.addToken(native, coin.Denom, common.Address{}, evmtypes.StdAddress)
				fresh = append(fresh, coin.Denom)
			}
			expect = expect && t.mint(modAddr(mod), coin.Amount.BigInt())
		}
		err = w.do(func(ctx sdk.Context) error { return bk.MintCoins(ctx, mod, coins) })
		if !expect {
			w.m = saved
			break
		}
		for _, d := range fresh {
			a, e := w.app.EVMKeeper.GetContractAddrByDenom(w.ctx, d)
			if e != nil && err == nil {
				err = e
			}
			w.m.byDenom(d).addr = a
		}
	case "burn":
		saved := w.m.clone()
		expect = burners[mod]
		for _, coin := range coins {
			t := w.m.byDenom(coin.Denom)
			switch {
			case t == nil:
				expect = false
			case t.kind == native:
				expect = expect && t.burn(modAddr(mod), coin.Amount.BigInt())
			default:
				// the chain cannot burn tokens it did not create: they go to the fee collector
				expect = expect && t.move(modAddr(mod), modAddr(authtypes.FeeCollectorName), coin.Amount.BigInt())
			}
		}
		if !expect {
			w.m = saved
		}
		err = w.do(func(ctx sdk.Context) error { return bk.BurnCoins(ctx, mod, coins) })
	}
	return expect, err
}

// evmOp performs one call on both sides.
func (w *world) evmOp(rt *rapid.T, c *kit.Case) (bool, error) {
	var caller common.Address
	switch rapid.IntRange(0, 9).Draw(rt, "caller-kind") {
	case 0:
		caller = evmtypes.StdAddress
	case 1:
		caller = pickAny(rt, "caller")
	default:
		caller = pickUser(rt, "caller")
	}
	it := w.drawItem(rt, caller, 2, false, true)
	c.Logf("as %s: %s", short(caller), it)
	if it.call != nil {
		c.Label(it.call.fn)
	} else if it.prog != nil {
		c.Label("program")
	}
	expect := w.m.call(caller, it, false)
	return expect, w.evm(caller, it)
}

func (w *world) createOp(rt *rapid.T, c *kit.Case) (bool, error) {
	caller := rapid.SampledFrom([]common.Address{kit.Addr(0), kit.Addr(1), fwds[0]}).Draw(rt, "creator")
	name := rapid.SampledFrom([]string{"Token", "stake", "", "uusd", "a rather long name for a token, longer than a word"}).Draw(rt, "name")
	dec := uint8(rapid.SampledFrom([]int{0, 6, 18, 255}).Draw(rt, "decimals"))
	var err error
	var t *token
	kind := rapid.IntRange(1, 2).Draw(rt, "kind")
	if kind == factory {
		t, err = w.createFactory(caller, name, dec)
	} else {
		if w.app.AccountKeeper.GetAccount(w.ctx, caller.Bytes()) == nil {
			return true, nil
		}
		t, err = w.createCustom(caller, name, dec)
	}
	if t != nil {
		c.Logf("%s creates %s token %q dec=%d at %s", short(caller), kindNames[kind], name, dec, short(t.addr))
		n := big.NewInt(rapid.Int64Range(1, 1_000_000).Draw(rt, "initial"))
		call := tokenCall{fn: "mint", a: caller, n: n}
		it := item{to: t.addr, call: &call}
		if !w.m.call(caller, it, false) {
			panic("model")
		}
		err = w.evm(caller, it)
	}
	return true, err
}

// rogueOp registers a contract which is no ERC20 at all, and puts it into somebody's list.
func (w *world) rogueOp(rt *rapid.T, c *kit.Case) (bool, error) {
	acc := pickAny(rt, "victim")
	c.Logf("forwarder registers itself and a store for %s", short(acc))
	prog := kit.FwdProgram(
		kit.FwdItem{To: evmtypes.ERC20RegistryPrecompileAddress, Data: sel("register_erc20()")},
		kit.FwdItem{To: evmtypes.ERC20RegistryPrecompileAddress, Data: append(sel("register_erc20_store(address)"), common.BytesToHash(acc.Bytes()).Bytes()...)},
	)
	w.rogue = true
	return true, w.do(func(ctx sdk.Context) error {
		_, _, err := w.app.EVMKeeper.EVMCall(ctx, kit.Addr(0), fwds[1], prog, nil, nil)
		return err
	})
}

func (w *world) erc20Int(ctx sdk.Context, t *token, fn string, args ...any) *big.Int {
	in, err := erc20ABI.Pack(fn, args...)
	must(err)
	ret, err := w.app.EVMKeeper.EVMStaticCall(ctx, common.Address{}, t.addr, in, nil)
	if err != nil {
		return big.NewInt(-1)
	}
	return new(big.Int).SetBytes(ret)
}

// checkOne compares one account's holdings of one token on every single-value read.
func (w *world) checkOne(rt *rapid.T, ctx sdk.Context, a common.Address, t *token) {
	bk := w.app.BankKeeper
	acc := accAddr(a)
	want := t.balance(a)
	if got := bk.GetBalance(ctx, acc, t.denom); got.Denom != t.denom || got.Amount.BigInt().Cmp(want) != 0 {
		rt.Fatalf("bank balance of %s in %s is %s, the ledger has %s", short(a), t.denom, got, want)
	}
	if got := w.erc20Int(ctx, t, "balanceOf", a); got.Cmp(want) != 0 {
		rt.Fatalf("ERC20 balance of %s in %s is %s, the ledger has %s", short(a), t.denom, got, want)
	}
	if got := bk.SpendableCoin(ctx, acc, t.denom); got.Amount.BigInt().Cmp(want) != 0 {
		rt.Fatalf("spendable balance of %s in %s is %s, the ledger has %s", short(a), t.denom, got, want)
	}
	res, err := bk.Balance(ctx, &banktypes.QueryBalanceRequest{Address: acc.String(), Denom: t.denom})
	if err != nil || res.Balance.Amount.BigInt().Cmp(want) != 0 {
		rt.Fatalf("queried balance of %s in %s is %v (%v), the ledger has %s", short(a), t.denom, res, err, want)
	}
	sp, err := bk.SpendableBalanceByDenom(ctx, &banktypes.QuerySpendableBalanceByDenomRequest{Address: acc.String(), Denom: t.denom})
	if err != nil || sp.Balance.Amount.BigInt().Cmp(want) != 0 {
		rt.Fatalf("queried spendable balance of %s in %s is %v (%v), the ledger has %s", short(a), t.denom, sp, err, want)
	}
	for _, d := range []int64{-1, 0, 1} {
		n := new(big.Int).Add(want, big.NewInt(d))
		if n.Sign() < 0 || n.Cmp(maxU256) > 0 {
			continue
		}
		if got := bk.HasBalance(ctx, acc, sdk.NewCoin(t.denom, math.NewIntFromBigInt(n))); got != (d <= 0) {
			rt.Fatalf("HasBalance(%s %s) of %s is %v with balance %s", n, t.denom, short(a), got, want)
		}
	}
}

// coinsOf is what the ledger has for an account.
func (w *world) coinsOf(a common.Address) sdk.Coins {
	coins := sdk.Coins{}
	for _, t := range w.m.tokens {
		if b := t.balance(a); b.Sign() > 0 {
			coins = coins.Add(sdk.NewCoin(t.denom, math.NewIntFromBigInt(b)))
		}
	}
	return coins
}

func nonZero(cs sdk.Coins) sdk.Coins {
	out := sdk.Coins{}
	for _, c := range cs {
		if !c.Amount.IsZero() {
			out = append(out, c)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Denom < out[j].Denom })
	return out
}

// collect reads all pages of a paginated query.
func collect(rt *rapid.T, what string, f func(p *query.PageRequest) (sdk.Coins, *query.PageResponse, error)) sdk.Coins {
	var out sdk.Coins
	p := &query.PageRequest{
		Limit:      uint64(rapid.IntRange(1, 5).Draw(rt, "limit")),
		Reverse:    rapid.Bool().Draw(rt, "reverse"),
		CountTotal: rapid.Bool().Draw(rt, "count"),
	}
	byOffset := rapid.Bool().Draw(rt, "offset")
	for i := 0; ; i++ {
		cs, res, err := f(p)
		if err != nil {
			rt.Fatalf("%s: %v", what, err)
		}
		if uint64(len(cs)) > p.Limit {
			rt.Fatalf("%s: page of %d with limit %d", what, len(cs), p.Limit)
		}
		for _, c := range cs {
			for _, o := range out {
				if o.Denom == c.Denom {
					rt.Fatalf("%s: %s is listed twice", what, c.Denom)
				}
			}
			out = append(out, c)
		}
		if res == nil || len(res.NextKey) == 0 {
			break
		}
		if byOffset {
			p = &query.PageRequest{Limit: p.Limit, Reverse: p.Reverse, CountTotal: p.CountTotal, Offset: p.Offset + uint64(len(cs))}
		} else {
			p = &query.PageRequest{Limit: p.Limit, Reverse: p.Reverse, Key: res.NextKey}
		}
		if i > 100 {
			rt.Fatalf("%s: pagination does not end", what)
		}
	}
	return nonZero(out)
}

// checkAll compares the complete ledger.
func (w *world) checkAll(rt *rapid.T, c *kit.Case) {
	ctx, _ := kit.Branch(w.ctx)
	bk := w.app.BankKeeper
	accs := accounts()
	for _, a := range accs {
		acc := accAddr(a)
		want := w.coinsOf(a)
		for i, t := range w.m.tokens {
			if t.balance(a).Sign() == 0 && (i+int(a[19]))%4 != 0 {
				continue // all balances below show whether there is anything
			}
			if got := bk.GetBalance(ctx, acc, t.denom); got.Amount.BigInt().Cmp(t.balance(a)) != 0 {
				rt.Fatalf("balance of %s in %s is %s, the ledger has %s", short(a), t.denom, got, t.balance(a))
			}
		}
		if got := bk.GetAllBalances(ctx, acc); !got.Equal(want) {
			rt.Fatalf("all balances of %s are %s, the ledger has %s", short(a), got, want)
		}
	}
	// paginated and by-account reads of some accounts
	for i := 0; i < 3; i++ {
		a := pickAny(rt, "check")
		acc := accAddr(a)
		want := w.coinsOf(a)
		if got := bk.SpendableCoins(ctx, acc); !got.Equal(want) {
			rt.Fatalf("spendable coins of %s are %s, the ledger has %s", short(a), got, want)
		}
		got := collect(rt, "AllBalances", func(p *query.PageRequest) (sdk.Coins, *query.PageResponse, error) {
			r, err := bk.AllBalances(ctx, &banktypes.QueryAllBalancesRequest{Address: acc.String(), Pagination: p})
			return r.GetBalances(), r.GetPagination(), err
		})
		if !got.Equal(want) {
			rt.Fatalf("paginated balances of %s are %s, the ledger has %s", short(a), got, want)
		}
		got = collect(rt, "SpendableBalances", func(p *query.PageRequest) (sdk.Coins, *query.PageResponse, error) {
			r, err := bk.SpendableBalances(ctx, &banktypes.QuerySpendableBalancesRequest{Address: acc.String(), Pagination: p})
			return r.GetBalances(), r.GetPagination(), err
		})
		if !got.Equal(want) {
			rt.Fatalf("paginated spendable balances of %s are %s, the ledger has %s", short(a), got, want)
		}
		w.checkOne(rt, ctx, a, w.pickToken(rt))
	}
	// supply
	supply := sdk.Coins{}
	for _, t := range w.m.tokens {
		sum := new(big.Int)
		for _, b := range t.bal {
			sum.Add(sum, b)
		}
		if sum.Cmp(t.supply) != 0 {
			panic("model: supply differs from the sum of balances")
		}
		if t.supply.Sign() > 0 {
			supply = supply.Add(sdk.NewCoin(t.denom, math.NewIntFromBigInt(t.supply)))
		}
		if got := bk.GetSupply(ctx, t.denom); got.Denom != t.denom || got.Amount.BigInt().Cmp(t.supply) != 0 {
			rt.Fatalf("supply of %s is %s, the ledger has %s", t.denom, got, t.supply)
		}
		r, err := bk.SupplyOf(ctx, &banktypes.QuerySupplyOfRequest{Denom: t.denom})
		if err != nil || r.Amount.Denom != t.denom || r.Amount.Amount.BigInt().Cmp(t.supply) != 0 {
			rt.Fatalf("queried supply of %s is %v (%v), the ledger has %s", t.denom, r, err, t.supply)
		}
		if got := w.erc20Int(ctx, t, "totalSupply"); got.Cmp(t.supply) != 0 {
			rt.Fatalf("totalSupply of %s is %s, the ledger has %s", t.denom, got, t.supply)
		}
		if !bk.HasSupply(ctx, t.denom) {
			rt.Fatalf("no supply of %s", t.denom)
		}
	}
	for _, d := range nativeDenoms {
		if w.m.byDenom(d) == nil && bk.HasSupply(ctx, d) {
			rt.Fatalf("there is supply of %s, which nobody minted", d)
		}
	}
	got := collect(rt, "TotalSupply", func(p *query.PageRequest) (sdk.Coins, *query.PageResponse, error) {
		r, err := bk.TotalSupply(ctx, &banktypes.QueryTotalSupplyRequest{Pagination: p})
		return r.GetSupply(), r.GetPagination(), err
	})
	if !got.Equal(supply) {
		rt.Fatalf("paginated total supply is %s, the ledger has %s", got, supply)
	}
	var it sdk.Coins
	bk.IterateTotalSupply(ctx, func(c sdk.Coin) bool { it = append(it, c); return false })
	if got := nonZero(it); !got.Equal(supply) {
		rt.Fatalf("iterated total supply is %s, the ledger has %s", got, supply)
	}
	// the balances of all accounts, counted once each, are the supply
	sum := sdk.Coins{}
	count := 0
	bk.IterateAllBalances(ctx, func(_ sdk.AccAddress, c sdk.Coin) bool {
		count++
		sum = append(sum, c)
		return false
	})
	byDenom := map[string]*big.Int{}
	for _, c := range sum {
		if byDenom[c.Denom] == nil {
			byDenom[c.Denom] = new(big.Int)
		}
		byDenom[c.Denom].Add(byDenom[c.Denom], c.Amount.BigInt())
	}
	for _, t := range w.m.tokens {
		g := byDenom[t.denom]
		if g == nil {
			g = new(big.Int)
		}
		if g.Cmp(t.supply) != 0 {
			rt.Fatalf("the balances of all accounts in %s sum to %s, the supply is %s", t.denom, g, t.supply)
		}
	}
	if count > 1 {
		stop := rapid.IntRange(1, count-1).Draw(rt, "stop")
		n := 0
		bk.IterateAllBalances(ctx, func(_ sdk.AccAddress, _ sdk.Coin) bool { n++; return n == stop })
		if n != stop {
			rt.Fatalf("iteration over all balances stopped by its callback after %d entries goes on to %d", stop, n)
		}
	}
	w.checkAuthority(rt, ctx)
	_ = c
}

// checkAuthority compares owners and allowances.
func (w *world) checkAuthority(rt *rapid.T, ctx sdk.Context) {
	for _, t := range w.m.tokens {
		if got := common.BigToAddress(w.erc20Int(ctx, t, "owner")); got != t.owner {
			rt.Fatalf("owner of %s is %s, should be %s", t.denom, got, t.owner)
		}
		for p, want := range t.allow {
			if got := w.erc20Int(ctx, t, "allowance", p.a, p.b); got.Cmp(want) != 0 {
				rt.Fatalf("allowance of %s from %s to %s is %s, should be %s", t.denom, short(p.a), short(p.b), got, want)
			}
		}
	}
	// allowances nobody gave
	for i := 0; i < 4; i++ {
		t := w.pickToken(rt)
		a, b := pickAny(rt, "owner"), pickAny(rt, "spender")
		if got := w.erc20Int(ctx, t, "allowance", a, b); got.Cmp(t.allowance(a, b)) != 0 {
			rt.Fatalf("allowance of %s from %s to %s is %s, should be %s", t.denom, short(a), short(b), got, t.allowance(a, b))
		}
	}
}

func outcome(err error) string {
	if err == nil {
		return "ok"
	}
	return "failed"
}

func (w *world) step(rt *rapid.T, c *kit.Case, expect bool, err error) {
	c.Logf("  -> %s", outcome(err))
	if expect != (err == nil) {
		rt.Fatalf("the ledger says %v, the chain says %v", expect, err)
	}
	if rapid.IntRange(0, 3).Draw(rt, "check?") == 0 {
		w.checkOne(rt, w.ctx, pickAny(rt, "acc"), w.pickToken(rt))
	}
}

// seedHoldings gives the accounts something to work with.
func (w *world) seedHoldings(rt *rapid.T, c *kit.Case) {
	n := rapid.IntRange(1, 2).Draw(rt, "tokens")
	for i := 0; i < n; i++ {
		ok, err := w.createOp(rt, c)
		w.step(rt, c, ok, err)
	}
	d := rapid.SampledFrom(nativeDenoms).Draw(rt, "native")
	coins := sdk.NewCoins(sdk.NewInt64Coin(d, 1000))
	must(w.do(func(ctx sdk.Context) error { return w.app.BankKeeper.MintCoins(ctx, authtypes.Minter, coins) }))
	a, err := w.app.EVMKeeper.GetContractAddrByDenom(w.ctx, d)
	must(err)
	w.addToken(native, d, a, evmtypes.StdAddress).mint(modAddr(authtypes.Minter), big.NewInt(1000))
	to := rapid.SampledFrom(accounts()).Draw(rt, "holder")
	c.Logf("minter holds 1000%s, 600 go to %s", d, short(to))
	w.moveAll(modAddr(authtypes.Minter), to, sdk.NewCoins(sdk.NewInt64Coin(d, 600)))
	must(w.do(func(ctx sdk.Context) error {
		return w.app.BankKeeper.SendCoins(ctx, authtypes.NewModuleAddress(authtypes.Minter), accAddr(to), sdk.NewCoins(sdk.NewInt64Coin(d, 600)))
	}))
	// spread what there is over a few accounts, modules among them
	for _, t := range w.m.tokens {
		for i := 0; i < 2; i++ {
			var holders []common.Address
			for _, a := range accounts() {
				if t.balance(a).Sign() > 0 {
					holders = append(holders, a)
				}
			}
			from := rapid.SampledFrom(holders).Draw(rt, "spread-from")
			to := rapid.SampledFrom(accounts()).Draw(rt, "spread-to")
			if i == 0 {
				to = modAddr(rapid.SampledFrom(modules).Draw(rt, "spread-module"))
			}
			n := new(big.Int).Div(t.balance(from), big.NewInt(2))
			if n.Sign() == 0 {
				continue
			}
			coins := sdk.Coins{sdk.NewCoin(t.denom, math.NewIntFromBigInt(n))}
			c.Logf("%s sends %s to %s", short(from), coins, short(to))
			w.moveAll(from, to, coins)
			must(w.do(func(ctx sdk.Context) error { return w.app.BankKeeper.SendCoins(ctx, accAddr(from), accAddr(to), coins) }))
		}
	}
}

// TestOneLedger runs histories of bank and ERC20 operations.
func TestOneLedger(t *testing.T) {
	kit.Run(t, "at least three operations succeeded and one of them moved, minted or burned", func(rt *rapid.T, c *kit.Case) {
		w := newWorld()
		w.seedHoldings(rt, c)
		n := rapid.IntRange(4, 16).Draw(rt, "n")
		good, moved := 0, false
		for i := 0; i < n; i++ {
			before := w.m
			snap := before.clone()
			var ok bool
			var err error
			switch k := rapid.IntRange(0, 19).Draw(rt, "op"); {
			case k <= 11:
				ok, err = w.bankOp(rt, c)
			case k <= 16:
				ok, err = w.evmOp(rt, c)
			case k <= 18:
				ok, err = w.createOp(rt, c)
			default:
				ok, err = w.rogueOp(rt, c)
			}
			w.step(rt, c, ok, err)
			if ok {
				good++
				c.Label("ok")
				moved = moved || differs(snap, w.m)
			} else {
				c.Label("failed")
			}
		}
		w.checkAll(rt, c)
		c.NonTrivialIf(good >= 3 && moved)
	})
}

func differs(a, b *ledger) bool {
	if len(a.tokens) != len(b.tokens) {
		return true
	}
	for i, t := range a.tokens {
		if t.supply.Cmp(b.tokens[i].supply) != 0 {
			return true
		}
		for k, v := range b.tokens[i].bal {
			if t.balance(k).Cmp(v) != 0 {
				return true
			}
		}
	}
	return false
}

// TestERC20Authority calls token functions as every kind of caller.
func TestERC20Authority(t *testing.T) {
	kit.Run(t, "a call was refused and a call moved or minted tokens", func(rt *rapid.T, c *kit.Case) {
		w := newWorld()
		w.seedHoldings(rt, c)
		n := rapid.IntRange(2, 20).Draw(rt, "n")
		refused, moved := false, false
		for i := 0; i < n; i++ {
			snap := w.m.clone()
			ok, err := w.evmOp(rt, c)
			w.step(rt, c, ok, err)
			refused = refused || !ok
			moved = moved || differs(snap, w.m)
			if ok {
				c.Label("ok")
			} else {
				c.Label("refused")
			}
		}
		w.checkAuthority(rt, w.ctx)
		for _, a := range accounts() {
			for _, tk := range w.m.tokens {
				if got := w.erc20Int(w.ctx, tk, "balanceOf", a); got.Cmp(tk.balance(a)) != 0 {
					rt.Fatalf("ERC20 balance of %s in %s is %s, the ledger has %s", short(a), tk.denom, got, tk.balance(a))
				}
			}
		}
		for _, tk := range w.m.tokens {
			if got := w.erc20Int(w.ctx, tk, "totalSupply"); got.Cmp(tk.supply) != 0 {
				rt.Fatalf("totalSupply of %s is %s, the ledger has %s", tk.denom, got, tk.supply)
			}
		}
		c.NonTrivialIf(refused && moved)
	})
}

var _ = errors.New
var _ = fmt.Sprint
var _ = minievmapp.AccountAddressPrefix
