package ledger

import (
	"fmt"
	"strings"
	"testing"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"

	"github.com/initia-labs/minievm/x/evm/contracts/i_cosmos"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifh/kit"
)

var cosmosABI = mustABI(i_cosmos.ICosmosMetaData.GetAbi())

// toERC20 asks every route for the contract of a denom; all must agree.
func (w *world) toERC20(rt *rapid.T, ctx sdk.Context, denom string) (common.Address, bool) {
	a, err := evmtypes.DenomToContractAddr(ctx, w.app.EVMKeeper, denom)
	res, qerr := evmkeeper.NewQueryServer(w.app.EVMKeeper).ContractAddrByDenom(ctx, &evmtypes.QueryContractAddrByDenomRequest{Denom: denom})
	in, perr := cosmosABI.Pack("to_erc20", denom)
	must(perr)
	ret, perr := w.precompile(ctx, in)
	if (err == nil) != (qerr == nil) || (err == nil) != (perr == nil) {
		rt.Fatalf("contract of %q: keeper says %v, query says %v, precompile says %v", denom, err, qerr, perr)
	}
	if err != nil {
		return common.Address{}, false
	}
	if q := common.HexToAddress(res.Address); q != a {
		rt.Fatalf("contract of %q: keeper says %s, query says %s", denom, a, res.Address)
	}
	if p := common.BytesToAddress(ret); p != a {
		rt.Fatalf("contract of %q: keeper says %s, precompile says %s", denom, a, p)
	}
	return a, true
}

// precompile makes a static call with its own gas.
func (w *world) precompile(ctx sdk.Context, in []byte) (ret []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	ctx = ctx.WithGasMeter(storetypes.NewGasMeter(10_000_000_000))
	return w.app.EVMKeeper.EVMStaticCall(ctx, kit.Addr(0), evmtypes.CosmosPrecompileAddress, in, nil)
}

// toDenom asks every route for the denom of a contract; all must agree.
func (w *world) toDenom(rt *rapid.T, ctx sdk.Context, a common.Address) string {
	d, err := evmtypes.ContractAddrToDenom(ctx, w.app.EVMKeeper, a)
	if err != nil {
		rt.Fatalf("denom of %s: %v", a, err)
	}
	for _, form := range []string{a.Hex(), strings.ToLower(a.Hex()), sdk.AccAddress(a.Bytes()).String()} {
		res, err := evmkeeper.NewQueryServer(w.app.EVMKeeper).Denom(ctx, &evmtypes.QueryDenomRequest{ContractAddr: form})
		if err != nil || res.Denom != d {
			rt.Fatalf("denom of %s: keeper says %q, query for %s says %v (%v)", a, d, form, res, err)
		}
	}
	in, err := cosmosABI.Pack("to_denom", a)
	must(err)
	ret, err := w.precompile(ctx, in)
	if err != nil {
		rt.Fatalf("to_denom(%s): %v", a, err)
	}
	out, err := cosmosABI.Unpack("to_denom", ret)
	if err != nil || out[0].(string) != d {
		rt.Fatalf("denom of %s: keeper says %q, precompile says %v (%v)", a, d, out, err)
	}
	return d
}

func drawDenom(rt *rapid.T) string {
	switch rapid.IntRange(0, 5).Draw(rt, "denom-kind") {
	case 0:
		return rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9/:._-]{2,20}`).Draw(rt, "denom")
	case 1:
		return rapid.SampledFrom([]string{"EVM/0x01", "evm", "evm:abc", "evmos", "Evm/" + strings.Repeat("0", 40), "l2/" + strings.Repeat("ab", 32), "ibc/" + strings.Repeat("AB", 32), strings.Repeat("x", 128)}).Draw(rt, "denom")
	case 2:
		d := rapid.SampledFrom(nativeDenoms).Draw(rt, "denom")
		return rapid.SampledFrom([]string{d + "x", strings.ToUpper(d), "x" + d}).Draw(rt, "variant")
	default:
		return rapid.SampledFrom(nativeDenoms).Draw(rt, "denom")
	}
}

// junk denoms, valid or not
func (w *world) drawJunk(rt *rapid.T) string {
	t := w.pickToken(rt)
	hex := strings.TrimPrefix(t.addr.Hex(), "0x")
	switch rapid.IntRange(0, 9).Draw(rt, "junk-kind") {
	case 0:
		return rapid.String().Draw(rt, "junk")
	case 1:
		return "evm/" + rapid.StringMatching(`[0-9a-fA-Fx]{0,44}`).Draw(rt, "junk")
	case 2:
		return hex
	case 3:
		return t.addr.Hex()
	case 4:
		return "evm/" + hex[:39]
	case 5:
		return "evm/" + hex + "0"
	case 6:
		return "evm/evm/" + hex
	case 7:
		return "EVM/" + hex
	case 8:
		return rapid.SampledFrom([]string{"", "evm/", "evm", "/", t.denom + " ", " " + t.denom, t.denom + "/", t.denom + "\x00", strings.ToUpper(t.denom) + "U"}).Draw(rt, "junk")
	default:
		return drawDenom(rt)
	}
}

// TestDenoms creates tokens in all ways and checks the mapping of denoms and contracts.
func TestDenoms(t *testing.T) {
	kit.Run(t, "at least two tokens were created and a lookup of something else was refused", func(rt *rapid.T, c *kit.Case) {
		w := newWorld()
		decimals := map[common.Address]uint8{}
		decimals[w.m.tokens[0].addr] = 18
		n := rapid.IntRange(2, 10).Draw(rt, "n")
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 4).Draw(rt, "op") {
			case 0, 1: // the chain mints, in one message, denoms it may not know yet
				coins := sdk.Coins{}
				for j := rapid.IntRange(1, 3).Draw(rt, "coins"); j > 0; j-- {
					d := drawDenom(rt)
					if coins.AmountOf(d).IsZero() {
						coins = coins.Add(sdk.NewInt64Coin(d, rapid.Int64Range(1, 1000).Draw(rt, "amount")))
					}
				}
				if rapid.IntRange(0, 3).Draw(rt, "overflow") == 0 {
					// the last one does not fit, so that nothing is created
					last := len(coins) - 1
					over := math.NewIntFromBigInt(maxU256)
					coins[last].Amount = over
					if t := w.m.byDenom(coins[last].Denom); t == nil || t.supply.Sign() == 0 {
						coins = append(sdk.Coins{}, coins...)
						coins = append(coins, sdk.NewInt64Coin("evm/"+strings.Repeat("0", 39)+"9", 1)).Sort()
					}
				}
				saved := w.m.clone()
				expect := true
				for _, coin := range coins {
					if evmtypes.IsERC20Denom(coin.Denom) {
						expect = false
						break
					}
					t := w.m.byDenom(coin.Denom)
					if t == nil {
						t = w.addToken(native, coin.Denom, common.Address{}, evmtypes.StdAddress)
					}
					expect = expect && t.mint(modAddr(authtypes.Minter), coin.Amount.BigInt())
				}
				err := w.do(func(ctx sdk.Context) error { return w.app.BankKeeper.MintCoins(ctx, authtypes.Minter, coins) })
				c.Logf("mint %s -> %s", coins, outcome(err))
				if expect != (err == nil) {
					rt.Fatalf("minting %s: want success %v, got %v", coins, expect, err)
				}
				if !expect {
					w.m = saved
					break
				}
				for _, coin := range coins {
					t := w.m.byDenom(coin.Denom)
					if t.addr == (common.Address{}) {
						a, err := w.app.EVMKeeper.GetContractAddrByDenom(w.ctx, t.denom)
						if err != nil {
							rt.Fatalf("minted denom %q has no contract: %v", t.denom, err)
						}
						t.addr = a
						decimals[a] = 0
					}
				}
			case 2:
				caller := rapid.SampledFrom([]common.Address{kit.Addr(0), fwds[0]}).Draw(rt, "creator")
				dec := uint8(rapid.IntRange(0, 255).Draw(rt, "decimals"))
				name := rapid.SampledFrom([]string{"stake", "uusd", "", "Name"}).Draw(rt, "name")
				t, err := w.createFactory(caller, name, dec)
				must(err)
				decimals[t.addr] = dec
				c.Logf("%s creates token %q at %s through the factory", short(caller), name, t.addr)
			case 3:
				dec := uint8(rapid.IntRange(0, 255).Draw(rt, "decimals"))
				t, err := w.createCustom(kit.Addr(1), "custom", dec)
				must(err)
				decimals[t.addr] = dec
				c.Logf("user deploys token at %s", t.addr)
			case 4:
				if w.rogue {
					break
				}
				_, err := w.rogueOp(rt, c)
				must(err)
			}
		}

		ctx, _ := kit.Branch(w.ctx)
		// all tokens
		seen := map[common.Address]string{}
		natives := map[string]common.Address{}
		for _, t := range w.m.tokens {
			if o, dup := seen[t.addr]; dup {
				rt.Fatalf("%q and %q share the contract %s", o, t.denom, t.addr)
			}
			seen[t.addr] = t.denom
			if t.kind == native {
				natives[t.denom] = t.addr
			}
			if a, ok := w.toERC20(rt, ctx, t.denom); !ok || a != t.addr {
				rt.Fatalf("contract of %q is %s (%v), should be %s", t.denom, a, ok, t.addr)
			}
			if d := w.toDenom(rt, ctx, t.addr); d != t.denom {
				rt.Fatalf("denom of %s is %q, should be %q", t.addr, d, t.denom)
			}
			if dec, err := w.app.EVMKeeper.ERC20Keeper().GetDecimals(ctx, t.denom); err != nil || dec != decimals[t.addr] {
				rt.Fatalf("decimals of %q are %d (%v), should be %d", t.denom, dec, err, decimals[t.addr])
			}
			if ok, err := w.app.EVMKeeper.ERC20s.Has(ctx, t.addr.Bytes()); err != nil || !ok {
				rt.Fatalf("%q is not registered (%v)", t.denom, err)
			}
			md, err := w.app.BankKeeper.DenomMetadata(ctx, &banktypes.QueryDenomMetadataRequest{Denom: t.denom})
			if err != nil || md.Metadata.Base != t.denom {
				rt.Fatalf("metadata of %q: %v %v", t.denom, md, err)
			}
			if t.kind == native && t.denom != kit.FeeDenom && (md.Metadata.Name != t.denom || md.Metadata.Symbol != t.denom) {
				rt.Fatalf("metadata of %q: %v", t.denom, md)
			}
			if len(md.Metadata.DenomUnits) == 0 || md.Metadata.DenomUnits[0].Denom != t.denom || md.Metadata.DenomUnits[0].Exponent != 0 {
				rt.Fatalf("denom units of %q: %v", t.denom, md.Metadata.DenomUnits)
			}
		}
		// nothing else is registered
		regs := 0
		must(w.app.EVMKeeper.ERC20s.Walk(ctx, nil, func(bz []byte) (bool, error) {
			a := common.BytesToAddress(bz)
			if _, ok := seen[a]; !ok && !(w.rogue && a == fwds[1]) && !w.preexisting(a) {
				rt.Fatalf("%s is registered as a token", a)
			}
			regs++
			return false, nil
		}))
		byDenom := map[string]common.Address{}
		must(w.app.EVMKeeper.ERC20ContractAddrsByDenom.Walk(ctx, nil, func(d string, bz []byte) (bool, error) {
			byDenom[d] = common.BytesToAddress(bz)
			return false, nil
		}))
		byAddr := map[string]common.Address{}
		must(w.app.EVMKeeper.ERC20DenomsByContractAddr.Walk(ctx, nil, func(bz []byte, d string) (bool, error) {
			if o, dup := byAddr[d]; dup {
				rt.Fatalf("%q is the denom of %s and of %x", d, o, bz)
			}
			byAddr[d] = common.BytesToAddress(bz)
			return false, nil
		}))
		if fmt.Sprint(byDenom) != fmt.Sprint(natives) || fmt.Sprint(byAddr) != fmt.Sprint(natives) {
			rt.Fatalf("registered denoms are\n%v and\n%v, should be\n%v", byDenom, byAddr, natives)
		}
		// anything else
		refused := false
		for i := 0; i < 12; i++ {
			d := w.drawJunk(rt)
			if w.m.byDenom(d) != nil {
				continue
			}
			a, ok := w.toERC20(rt, ctx, d)
			c.Logf("lookup %q -> %v %s", d, ok, a)
			if !ok {
				refused = true
				if bal, err := w.app.EVMKeeper.ERC20Keeper().GetSupply(ctx, d); err == nil {
					rt.Fatalf("unknown denom %q has supply %s", d, bal)
				}
				continue
			}
			// only the contract address form may name a contract the chain gave no denom
			hex := strings.TrimPrefix(d, "evm/")
			if hex == d || !common.IsHexAddress(hex) || a != common.HexToAddress(hex) {
				rt.Fatalf("unknown denom %q is resolved to %s", d, a)
			}
		}
		// contracts without a denom of their own have the contract address form
		var bz [20]byte
		copy(bz[:], rapid.SliceOfN(rapid.Byte(), 20, 20).Draw(rt, "addr"))
		a := common.Address(bz)
		if rapid.Bool().Draw(rt, "near") {
			a = w.pickToken(rt).addr
			a[rapid.IntRange(0, 19).Draw(rt, "byte")] ^= 1
		}
		if seen[a] == "" {
			d := w.toDenom(rt, ctx, a)
			if back, ok := w.toERC20(rt, ctx, d); d != evmDenom(a) || !ok || back != a {
				rt.Fatalf("denom of %s is %q, whose contract is %s (%v)", a, d, back, ok)
			}
		}
		c.NonTrivialIf(len(w.m.tokens) >= 3 && refused)
	})
}

// preexisting tells whether a contract was registered before the history began.
func (w *world) preexisting(a common.Address) bool {
	ok, err := w.app.EVMKeeper.ERC20s.Has(baseCtx, a.Bytes())
	must(err)
	return ok
}
