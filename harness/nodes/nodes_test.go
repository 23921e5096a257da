package nodes

import (
	"bytes"
	"fmt"
	"sync"
	"testing"

	"cosmossdk.io/collections"
	storetypes "cosmossdk.io/store/types"

	abci "github.com/cometbft/cometbft/abci/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/ethereum/go-ethereum/common"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"
	"pgregory.net/rapid"

	minievmapp "github.com/initia-labs/minievm/app"
	evmconfig "github.com/initia-labs/minievm/x/evm/config"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifh/history"
	"github.com/initia-labs/minievm/verifh/kit"
)

const queryGas = 1_000_000

// node is one which may be restarted.
type node struct {
	app  *minievmapp.MinitiaApp
	opts kit.Options
}

func newNode(change func(o *kit.Options)) *node {
	o := history.Options()
	o.DB, o.IndexerDB = dbm.NewMemDB(), dbm.NewMemDB()
	o.BaseAppOpts = append(o.BaseAppOpts, baseapp.SetQueryGasLimit(queryGas))
	if change != nil {
		change(&o)
	}
	return &node{kit.NewApp(o), o}
}

func (n *node) restart() {
	kit.Free(n.app)
	o := n.opts
	o.NoInit = true
	n.app = kit.NewApp(o)
}

func (n *node) free() { kit.Free(n.app) }

// settings of a node which are no business of the other nodes.
func settings(rt *rapid.T) func(o *kit.Options) {
	prices := rapid.SampledFrom([]string{"", "1" + kit.FeeDenom, "1000000000other"}).Draw(rt, "min gas prices")
	simGas := rapid.SampledFrom([]uint64{0, 100_000, 50_000_000}).Draw(rt, "simulation gas")
	fast := rapid.Bool().Draw(rt, "fast node")
	return func(o *kit.Options) {
		o.EVMConfig = &evmconfig.EVMConfig{ContractSimulationGasLimit: simGas, IndexerCacheSize: 10}
		o.BaseAppOpts = append(o.BaseAppOpts, baseapp.SetMinGasPrices(prices), baseapp.SetIAVLDisableFastNode(fast), baseapp.SetIAVLCacheSize(100))
	}
}

// TestSameExecution runs the same blocks on a quiet node and on busy ones.
func TestSameExecution(t *testing.T) {
	kit.Run(t, "at least one operation was done between blocks with transactions", func(rt *rapid.T, c *kit.Case) {
		a := newNode(nil)
		defer a.free()
		b := newNode(settings(rt))
		defer b.free()
		h := history.New(c)
		var ops, txsRun int
		for i, n := 0, rapid.IntRange(2, 6).Draw(rt, "blocks"); i < n; i++ {
			txs := h.Setup(a.app)
			if i > 0 {
				txs = h.Draw(rt, a.app, 5)
			}
			txsRun += len(txs)
			bz := history.Bytes(txs)
			noise := func(max int, concurrent bool) (out []op) {
				for i, n := 0, rapid.IntRange(0, max).Draw(rt, "ops"); i < n; i++ {
					o := draw(rt, h, a.app, bz)
					if o.concurrent || !concurrent {
						out = append(out, o)
						c.Logf("   (%s)", o.name)
						c.Label(o.name)
					}
				}
				ops += len(out)
				return
			}
			do := func(os []op) {
				for _, o := range os {
					o.run(b.app)
				}
			}
			if rapid.IntRange(0, 4).Draw(rt, "restart") == 0 {
				c.Logf("   (restart)")
				c.Label("restart")
				b.restart()
				ops++
			}
			do(noise(4, false))
			if rapid.IntRange(0, 7).Draw(rt, "crash") == 0 {
				// executed, but not committed
				c.Logf("   (crash before the commit)")
				c.Label("crash")
				must2(kit.Finalize(b.app, bz))
				do(noise(2, true))
				b.restart()
				ops++
			}
			during := noise(3, true)
			after := noise(2, true)

			ra := must2(kit.Finalize(a.app, bz))
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				do(during)
			}()
			rb, err := kit.Finalize(b.app, bz)
			wg.Wait()
			if err != nil {
				rt.Fatalf("%s\nthe busy node fails to execute block %d: %v", c.Trace(), i+2, err)
			}
			do(after)
			must2(a.app.Commit())
			must2(b.app.Commit())
			h.Record(txs, ra)
			x, y := must2(ra.Marshal()), must2(rb.Marshal())
			if !bytes.Equal(x, y) {
				d := ""
				for i := range ra.TxResults {
					if p, q := fmt.Sprint(ra.TxResults[i]), fmt.Sprint(rb.TxResults[i]); p != q {
						d += fmt.Sprintf("%s:\n%s\n%s\n", txs[i].Kind, p, q)
					}
				}
				rt.Fatalf("%s\nblock %d: hash %x on the quiet node, %x on the busy one\n%s%v", c.Trace(), i+2, ra.AppHash, rb.AppHash, d, diff(committed(a.app), committed(b.app)))
			}
		}
		c.NonTrivialIf(ops > 0 && txsRun > 2)
	})
}

// TestQueriesChangeNothing asks a node and looks at its state.
func TestQueriesChangeNothing(t *testing.T) {
	kit.Run(t, "a call was run by a query or a simulation", func(rt *rapid.T, c *kit.Case) {
		n := newNode(nil)
		defer n.free()
		app := n.app
		h := history.New(c)
		txs := h.Setup(app)
		for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "blocks"); i < n; i++ {
			h.Record(txs, kit.Block(app, history.Bytes(txs)))
			txs = h.Draw(rt, app, 5)
		}
		next := history.Bytes(txs)
		before := committed(app)
		id := app.LastCommitID()
		fail := func(format string, args ...any) { rt.Fatalf("%s\n%s", c.Trace(), fmt.Sprintf(format, args...)) }
		// the next block, executed without what follows
		dry := must2(kit.Finalize(app, next))
		n.restart()
		app = n.app

		for i, n := 0, rapid.IntRange(1, 8).Draw(rt, "ops"); i < n; i++ {
			switch rapid.IntRange(0, 5).Draw(rt, "what") {
			default:
				o := draw(rt, h, app, next)
				r := o.run(app)
				c.Logf("%s: %s", o.name, r)
				c.Label(o.name)
				c.NonTrivialIf(o.name == "call" || o.name == "simulate")
			case 0:
				sameAsExecution(rt, c, h, app, fail)
			case 1:
				staticCall(rt, c, h, app, fail)
			}
			if d := diff(before, committed(app)); len(d) > 0 {
				fail("the committed state changed: %v", d)
			}
			if x := app.LastCommitID(); !bytes.Equal(x.Hash, id.Hash) || x.Version != id.Version {
				fail("the application hash changed from %v to %v", id, x)
			}
		}
		res := must2(kit.Finalize(app, next))
		if x, y := must2(dry.Marshal()), must2(res.Marshal()); !bytes.Equal(x, y) {
			fail("the next block is executed differently:\n%v\n%v", dry.TxResults, res.TxResults)
		}
	})
}

// sameAsExecution compares a query with a discarded transaction.
func sameAsExecution(rt *rapid.T, c *kit.Case, h *history.History, app *minievmapp.MinitiaApp, fail func(string, ...any)) {
	req := callRequest(rt, h, app)
	req.TraceOptions = nil
	if req.Sender == "" {
		req.Sender = sdk.AccAddress(common.Address{}.Bytes()).String()
	}
	if req.ContractAddr == "" {
		return
	}
	ans, err := app.Query(nil, &abci.RequestQuery{Path: "/minievm.evm.v1.Query/Call", Data: must2(req.Marshal())})
	must(err)
	ctx := must2(app.CreateQueryContext(0, false)).WithGasMeter(storetypes.NewGasMeter(queryGas)).WithEventManager(sdk.NewEventManager())
	ctx, _ = ctx.CacheContext()
	res, err := exec(app, ctx, &evmtypes.MsgCall{Sender: req.Sender, ContractAddr: req.ContractAddr, Input: req.Input, Value: req.Value})
	if ans.Code != 0 {
		c.Logf("query: %s", ans.Log)
		if err == nil {
			fail("the query fails with %s, and the message succeeds", ans.Log)
		}
		return
	}
	var q evmtypes.QueryCallResponse
	must(q.Unmarshal(ans.Value))
	c.Logf("query: %s error %q", q.Response, q.Error)
	if (q.Error == "") != (err == nil) {
		fail("query error %q, message error %v", q.Error, err)
	}
	if err == nil {
		c.Label("same call")
		c.NonTrivial()
		if q.Response != res.Result || fmt.Sprint(q.Logs) != fmt.Sprint(evmtypes.Logs(res.Logs)) {
			fail("the query answers %s %v, the message %s %v", q.Response, q.Logs, res.Result, res.Logs)
		}
		return
	}
	c.Label("same failing call")
}

func exec(app *minievmapp.MinitiaApp, ctx sdk.Context, m *evmtypes.MsgCall) (r *evmtypes.MsgCallResponse, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	res, err := app.MsgServiceRouter().Handler(m)(ctx, m)
	if err != nil {
		return nil, err
	}
	r = &evmtypes.MsgCallResponse{}
	return r, r.Unmarshal(res.MsgResponses[0].Value)
}

// staticCall runs a contract in a static call, which must not change anything.
func staticCall(rt *rapid.T, c *kit.Case, h *history.History, app *minievmapp.MinitiaApp, fail func(string, ...any)) {
	ctx := must2(app.CreateQueryContext(0, false)).WithGasMeter(storetypes.NewGasMeter(1e12)).WithEventManager(sdk.NewEventManager())
	ctx, _ = ctx.CacheContext()
	owner := common.HexToAddress("0x57a71c")
	self := ethcrypto.CreateAddress(owner, 0)
	program := h.Program(rt, app, self)
	_, at, _, err := app.EVMKeeper.EVMCreate(ctx, owner, kit.InitCode(nil, program), new(uint256.Int), nil)
	if err != nil || at != self {
		c.Logf("static: not created at %s: %v", at, err)
		return
	}
	caller := rapid.SampledFrom(h.Addresses()).Draw(rt, "caller")
	before := dump(app, ctx)
	events := len(ctx.EventManager().Events())
	err = try(func() error {
		_, err := app.EVMKeeper.EVMStaticCall(ctx.WithGasMeter(storetypes.NewGasMeter(queryGas)), caller, self, nil, nil)
		return err
	})
	c.Logf("static %x: %v", program, err)
	c.Label(fmt.Sprintf("static ok %v", err == nil))
	check := func(what string) {
		if d := diff(before, dump(app, ctx)); len(d) > 0 {
			fail("%s with %x changes the state: %v", what, program, d)
		}
		if n := len(ctx.EventManager().Events()); n != events {
			fail("%s with %x emits events %v", what, program, ctx.EventManager().Events()[events:])
		}
	}
	check("a static call")
	// the same contract as a token
	must(app.EVMKeeper.ERC20s.Set(ctx, self.Bytes()))
	must(app.EVMKeeper.ERC20Stores.Set(ctx, collections.Join(caller.Bytes(), self.Bytes())))
	before = dump(app, ctx)
	denom, acc := "evm/"+self.Hex()[2:], sdk.AccAddress(caller.Bytes())
	erc20 := app.EVMKeeper.ERC20Keeper()
	for _, f := range []struct {
		name string
		run  func(ctx sdk.Context)
	}{
		{"GetBalance", func(ctx sdk.Context) { app.BankKeeper.GetBalance(ctx, acc, denom) }},
		{"GetAllBalances", func(ctx sdk.Context) { app.BankKeeper.GetAllBalances(ctx, acc) }},
		{"GetSupply", func(ctx sdk.Context) { app.BankKeeper.GetSupply(ctx, denom) }},
		{"GetPaginatedTotalSupply", func(ctx sdk.Context) { _, _, _ = app.BankKeeper.GetPaginatedTotalSupply(ctx, nil) }},
		{"GetDenomMetaData", func(ctx sdk.Context) { app.BankKeeper.GetDenomMetaData(ctx, denom) }},
		{"HasBalance", func(ctx sdk.Context) { app.BankKeeper.HasBalance(ctx, acc, sdk.NewInt64Coin(denom, 1)) }},
		{"SpendableCoins", func(ctx sdk.Context) { app.BankKeeper.SpendableCoins(ctx, acc) }},
		{"GetMetadata", func(ctx sdk.Context) { _, _ = erc20.GetMetadata(ctx, denom) }},
		{"GetDecimals", func(ctx sdk.Context) { _, _ = erc20.GetDecimals(ctx, denom) }},
	} {
		err := try(func() error { f.run(ctx.WithGasMeter(storetypes.NewGasMeter(queryGas))); return nil })
		c.Label(fmt.Sprintf("%s ok %v", f.name, err == nil))
		check(f.name)
	}
}

func try(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return f()
}
