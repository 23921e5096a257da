// Package genesis exports chains and imports them again.
package genesis

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"

	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"

	minievmapp "github.com/initia-labs/minievm/app"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifh/history"
	"github.com/initia-labs/minievm/verifh/kit"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func must2[T any](v T, err error) T {
	must(err)
	return v
}

// export gives the genesis of a chain.
func export(app *minievmapp.MinitiaApp) (state []byte, height int64, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	e, err := app.ExportAppStateAndValidators(false, nil, nil)
	return e.AppState, e.Height, err
}

// load starts a chain from a genesis.
func load(state []byte, height int64) (app *minievmapp.MinitiaApp, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	app = kit.NewApp(kit.Options{NoInit: true})
	_, err = app.InitChain(&abci.RequestInitChain{
		ChainId: kit.ChainID, Time: kit.BlockTime(height - 1), InitialHeight: height, AppStateBytes: state,
		ConsensusParams: kit.ConsensusParams(0),
	})
	return app, err
}

// dump reads a module's store.
func dump(app *minievmapp.MinitiaApp, name string) map[string]string {
	ctx := kit.Ctx(app)
	out := map[string]string{}
	it := ctx.KVStore(app.GetKey(name)).Iterator(nil, nil)
	defer it.Close()
	for ; it.Valid(); it.Next() {
		out[string(it.Key())] = string(it.Value())
	}
	return out
}

func diff(a, b map[string]string) (out []string) {
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, fmt.Sprintf("%x = %.80x only before", k, v))
		} else if v != w {
			out = append(out, fmt.Sprintf("%x = %.80x before, %.80x after", k, v, w))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			out = append(out, fmt.Sprintf("%x = %.80x only after", k, v))
		}
	}
	sort.Strings(out)
	return
}

// extras are changes which no transaction of the history makes.
func extras(rt *rapid.T, c *kit.Case, app *minievmapp.MinitiaApp) {
	ctx := kit.Ctx(app).WithGasMeter(storetypes.NewInfiniteGasMeter())
	nfts := app.EVMKeeper.ERC721Keeper()
	for i, n := 0, rapid.IntRange(0, 2).Draw(rt, "classes"); i < n; i++ {
		class := rapid.SampledFrom([]string{"ibc/1111", "ibc/2222", "plain"}).Draw(rt, "class")
		uri := rapid.SampledFrom([]string{"", "https://c"}).Draw(rt, "uri")
		c.Logf("class %s %q", class, uri)
		must(nfts.CreateOrUpdateClass(ctx, class, uri, ""))
		for _, t := range []string{"1", "2", "3"} {
			if rapid.Bool().Draw(rt, "mint") {
				br, write := kit.Branch(ctx)
				if nfts.Mints(br, kit.Acc(rapid.IntRange(0, 2).Draw(rt, "owner")), class, []string{t}, []string{"uri" + t}, []string{""}) == nil {
					c.Logf("token %s of %s", t, class)
					write()
				}
			}
		}
		c.NonTrivial()
	}
	if rapid.Bool().Draw(rt, "metadata") {
		app.BankKeeper.SetDenomMetaData(ctx, banktypes.Metadata{Base: "umeta", Display: "meta", Name: "Meta", Symbol: "META", DenomUnits: []*banktypes.DenomUnit{{Denom: "umeta"}, {Denom: "meta", Exponent: 6}}})
	}
	for i, n := 0, rapid.IntRange(0, 3).Draw(rt, "mints"); i < n; i++ {
		d := rapid.SampledFrom([]string{"uusd", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", "Zz-.:_1"}).Draw(rt, "denom")
		to := rapid.SampledFrom([]sdk.AccAddress{kit.Acc(0), kit.Acc(1), ethcrypto.Keccak256([]byte("long")), authtypes.NewModuleAddress("fee_collector")}).Draw(rt, "to")
		c.Logf("mint %s to %s", d, to)
		must(app.EVMKeeper.ERC20Keeper().MintCoins(ctx, to, sdk.NewCoins(sdk.NewInt64Coin(d, 1_000_000))))
		if app.AccountKeeper.GetAccount(ctx, to) == nil {
			app.AccountKeeper.SetAccount(ctx, app.AccountKeeper.NewAccountWithAddress(ctx, to))
		}
	}
	if rapid.IntRange(0, 2).Draw(rt, "long acts") == 0 {
		long := sdk.AccAddress(ethcrypto.Keccak256([]byte("long")))
		m := &evmtypes.MsgCall{Sender: long.String(), ContractAddr: "0x000000000000000000000000000000000000aaaa", Input: "0x", Value: math.ZeroInt()}
		br, write := kit.Branch(ctx)
		if _, err := app.MsgServiceRouter().Handler(m)(br.WithGasMeter(storetypes.NewGasMeter(1e12)), m); err == nil {
			c.Logf("long acts")
			write()
		}
	}
}

// section of a genesis.
func section(state []byte, module string) string {
	var m map[string]json.RawMessage
	must(json.Unmarshal(state, &m))
	var b bytes.Buffer
	if len(m[module]) > 0 {
		must(json.Indent(&b, m[module], "", " "))
	}
	return b.String()
}

var stores = []string{evmtypes.StoreKey, banktypes.StoreKey, authtypes.StoreKey}

// TestExportImport compares a chain with one started from its genesis.
func TestExportImport(t *testing.T) {
	kit.Run(t, "the exported chain had executed transactions", func(rt *rapid.T, c *kit.Case) {
		a := kit.NewApp(history.Options())
		defer kit.Free(a)
		h := history.New(c)
		txs := h.Setup(a)
		h.Record(txs, kit.Block(a, history.Bytes(txs)))
		at := rapid.IntRange(0, 1).Draw(rt, "extras at")
		long := rapid.IntRange(0, 11).Draw(rt, "many blocks") == 11
		for i, n := 0, rapid.IntRange(1, 5).Draw(rt, "blocks"); i < n; i++ {
			if i == at {
				extras(rt, c, a)
				if long {
					// more blocks than a contract can look back
					p := must2(a.EVMKeeper.Params.Get(kit.Ctx(a)))
					p.NumRetainBlockHashes = rapid.SampledFrom([]uint64{0, 0, 256, 280, 400}).Draw(rt, "retention")
					must(a.EVMKeeper.Params.Set(kit.Ctx(a), p))
					k := rapid.IntRange(250, 320).Draw(rt, "empty blocks")
					c.Logf("%d empty blocks, retention %d", k, p.NumRetainBlockHashes)
					c.Label("many blocks")
					for ; k > 0; k-- {
						kit.Block(a, nil)
					}
				}
				kit.Block(a, nil)
			}
			txs := h.Draw(rt, a, 6)
			h.Record(txs, kit.Block(a, history.Bytes(txs)))
			c.NonTrivialIf(len(txs) > 0)
		}
		fail := func(format string, args ...any) { rt.Fatalf("%s\n%s", c.Trace(), fmt.Sprintf(format, args...)) }
		state, height, err := export(a)
		if err != nil {
			fail("export: %v", err)
		}
		b, err := load(state, height)
		defer kit.Free(b)
		if err != nil {
			fail("import: %v", err)
		}
		same := func(what string) {
			for _, s := range stores {
				if d := diff(dump(a, s), dump(b, s)); len(d) > 0 {
					fail("%s: store %s differs:\n%s", what, s, d)
				}
			}
		}
		c.Logf("exported at %d", height)
		kit.Block(a, nil)
		if _, err := kit.FinalizeAt(b, height, nil); err != nil {
			fail("first block: %v", err)
		}
		must2(b.Commit())
		same("after the import")
		// another export is the same
		sa, ha, err := export(a)
		if err != nil {
			fail("export: %v", err)
		}
		sb, hb, err := export(b)
		if err != nil || ha != hb {
			fail("second export: %v, height %d instead of %d", err, hb, ha)
		}
		for _, s := range append(stores, "opchild", "authz", "feegrant") {
			if x, y := section(sa, s), section(sb, s); x != y {
				fail("the exported %s differs:\n%s\n%s", s, x, y)
			}
		}
		// and so is further execution
		for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "more blocks"); i < n; i++ {
			txs := h.Draw(rt, a, 6)
			ra := kit.Block(a, history.Bytes(txs))
			rb := kit.Block(b, history.Bytes(txs))
			h.Record(txs, ra)
			for j := range txs {
				if k := txs[j].Kind; strings.HasPrefix(k, "deposit") || strings.HasPrefix(k, "withdraw") {
					// (the bridge module imports default values which were not stored, and reading them costs gas)
					ra.TxResults[j].GasUsed = rb.TxResults[j].GasUsed
				}
				if x, y := fmt.Sprint(ra.TxResults[j]), fmt.Sprint(rb.TxResults[j]); x != y {
					fail("%s: the result differs:\n%s\n%s", txs[j].Kind, x, y)
				}
			}
			same(fmt.Sprintf("after %d blocks", i+1))
		}
	})
}
