package txflow

import (
	"fmt"
	"math/big"
	"testing"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/holiman/uint256"
	"pgregory.net/rapid"

	"github.com/initia-labs/minievm/verifh/kit"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// TestGasLimits runs one transaction under several gas limits from the same state.
func TestGasLimits(t *testing.T) {
	kit.Run(t, "the transaction succeeds under the large limit and fails under the small one", func(rt *rapid.T, c *kit.Case) {
		cfg := configs[0]
		type outcome struct {
			code      uint32
			used      int64
			count     *big.Int
			slot      common.Hash
			delivered *big.Int
			log       string
		}
		mode := rapid.SampledFrom([]int{mStop, mCount, mCreate, mWork, mLog, mCatch, mGiveBack, mSet, mClear, mCosmos}).Draw(rt, "mode")
		data, p := cfg.input(rt, mode)
		value := big.NewInt(rapid.Int64Range(0, 5).Draw(rt, "value"))
		isCreate := rapid.IntRange(0, 3).Draw(rt, "create") == 3
		code := rapid.SampledFrom([]int{0, 3, 4, 5}).Draw(rt, "code")
		al := drawAccessList(rt, cfg)
		run := func(limit uint64) (o outcome) {
			app := cfg.shared.Get()
			ctx := kit.Ctx(app)
			to := &cfg.worker
			in := data
			if isCreate {
				to, in = nil, initCodes[code]
			}
			tx := kit.SignEth(0, &coretypes.AccessListTx{ChainID: kit.EthChainID(), Nonce: kit.Seq(app, ctx, kit.Acc(0)), GasPrice: new(big.Int), Gas: limit, To: to, Value: value, Data: in, AccessList: al})
			sdkTx, err := evmkeeper.NewTxUtils(app.EVMKeeper).ConvertEthereumTxToCosmosTx(ctx, tx)
			must(err)
			bz, err := app.TxEncode(sdkTx)
			must(err)
			b0 := app.BankKeeper.GetBalance(ctx, kit.Acc(0), cfg.denom).Amount
			res := kit.Block(app, [][]byte{bz}).TxResults[0]
			ctx = kit.Ctx(app)
			o.code, o.used, o.log = res.Code, res.GasUsed, res.Log
			o.count = kit.Slot(app, ctx, cfg.worker, common.Hash{}).Big()
			o.slot = kit.Slot(app, ctx, cfg.worker, common.BigToHash(big.NewInt(1000)))
			o.delivered = b0.Sub(app.BankKeeper.GetBalance(ctx, kit.Acc(0), cfg.denom).Amount).BigInt()
			cfg.shared.Done()
			c.Logf("  limit %d: %s", limit, kit.Result(res))
			if res.Code == 0 && res.GasUsed > int64(limit) {
				rt.Fatalf("C24: success with %d gas over the limit %d\n%s", res.GasUsed, limit, c.Trace())
			}
			return o
		}
		if isCreate {
			c.Logf("create #%d value=%s", code, value)
		} else {
			c.Logf("worker.%s value=%s %x", modeNames[mode], value, data)
		}
		large := run(5_000_000)
		if large.code != 0 {
			if mode == mCosmos && p.inner.Int64() > 5000 {
				return
			}
			rt.Fatalf("C24: fails with a large limit: %s\n%s", large.log, c.Trace())
		}
		small := uint64(large.used) - 100 - uint64(rapid.Int64Range(0, large.used*2/3).Draw(rt, "less"))
		s := run(small)
		if s.code == 0 {
			rt.Fatalf("C24: needs %d gas but succeeds with %d\n%s", large.used, small, c.Trace())
		}
		if s.count.Sign() != 0 || s.slot != (common.Hash{}) || s.delivered.Sign() != 0 {
			rt.Fatalf("C24: running out of gas left an effect\n%s", c.Trace())
		}
		if s.used < int64(small)*9/10 {
			rt.Fatalf("C24: running out of gas charged only %d of %d\n%s", s.used, small, c.Trace())
		}
		more := uint64(large.used)*2 + 100_000 + uint64(rapid.Int64Range(0, 10_000_000).Draw(rt, "more"))
		m := run(more)
		if m.code != 0 || m.count.Cmp(large.count) != 0 || m.delivered.Cmp(large.delivered) != 0 {
			rt.Fatalf("C24: another outcome with more gas\n%s", c.Trace())
		}
		if d := m.used - large.used; d > 60 || d < -60 {
			rt.Fatalf("C24: gas used depends on the limit: %d and %d\n%s", large.used, m.used, c.Trace())
		}
		c.NonTrivial()
	})
}

type keeperOp struct {
	name string
	min  uint64 // least gas it must cost
	run  func(ctx sdk.Context) error
}

// drawSlotProgram generates an init code that sets and clears slots, which earns gas refunds,
// between other work, also at the very end.
func drawSlotProgram(rt *rapid.T) []byte {
	a := kit.NewAsm()
	for n := rapid.IntRange(1, 8).Draw(rt, "slotOps"); n > 0; n-- {
		switch rapid.IntRange(0, 4).Draw(rt, "slotOp") {
		case 0, 1, 2:
			a.Push(uint64(rapid.IntRange(0, 2).Draw(rt, "slotVal"))).Push(uint64(rapid.IntRange(0, 2).Draw(rt, "slotKey"))).Op(vm.SSTORE)
		case 3:
			a.Push(uint64(rapid.IntRange(0, 2000).Draw(rt, "logLen"))).Push(0).Op(vm.LOG0)
		default:
			a.Push(uint64(0x9000+rapid.IntRange(0, 3).Draw(rt, "coldAddr"))).Op(vm.EXTCODESIZE, vm.POP)
		}
	}
	return a.Op(vm.STOP).Bytes()
}

// TestKeeperGas runs the keeper's entry points on limited gas meters.
func TestKeeperGas(t *testing.T) {
	cfg := configs[0]
	app := cfg.shared.Get()
	ctx0 := kit.Ctx(app)
	ek := app.EVMKeeper
	kit.Run(t, "the operation succeeds without limit and was stopped by a lower one", func(rt *rapid.T, c *kit.Case) {
		ctx, _ := kit.Branch(ctx0)
		from, to := rapid.IntRange(0, 3).Draw(rt, "from"), rapid.IntRange(0, 5).Draw(rt, "to")
		amt := sdk.NewCoins(sdk.NewInt64Coin(cfg.denom, rapid.Int64Range(1, 1000).Draw(rt, "amt")))
		mode := rapid.SampledFrom([]int{mStop, mCount, mCreate, mWork, mLog, mCatch, mGiveBack, mSet, mClear, mCosmos}).Draw(rt, "mode")
		data, _ := cfg.input(rt, mode)
		code := rapid.SampledFrom([]int{0, 3, 4, 5}).Draw(rt, "code")
		denom := fmt.Sprintf("tok%d", rapid.IntRange(0, 5).Draw(rt, "denom"))
		val := uint256.NewInt(rapid.Uint64Range(0, 3).Draw(rt, "value"))
		minWork := uint64(0)
		if counts(mode) {
			minWork = 20_000
		}
		slots := drawSlotProgram(rt)
		ops := []keeperOp{
			{"SendCoins", 5000, func(ctx sdk.Context) error { return app.BankKeeper.SendCoins(ctx, kit.Acc(from), kit.Acc(to), amt) }},
			{"MintCoins", 5000, func(ctx sdk.Context) error { return ek.ERC20Keeper().MintCoins(ctx, kit.Acc(to), amt) }},
			{"MintNew", 100_000, func(ctx sdk.Context) error {
				return ek.ERC20Keeper().MintCoins(ctx, kit.Acc(to), sdk.NewCoins(sdk.NewCoin(denom, amt[0].Amount)))
			}},
			{"BurnCoins", 5000, func(ctx sdk.Context) error { return ek.ERC20Keeper().BurnCoins(ctx, kit.Acc(from), amt) }},
			{"CreateERC20", 100_000, func(ctx sdk.Context) error { return ek.ERC20Keeper().CreateERC20(ctx, denom, 6) }},
			{"GetBalance", 2000, func(ctx sdk.Context) error {
				_, err := ek.ERC20Keeper().GetBalance(ctx, kit.Acc(from), cfg.denom)
				return err
			}},
			{"GetSupply", 2000, func(ctx sdk.Context) error { _, err := ek.ERC20Keeper().GetSupply(ctx, cfg.denom); return err }},
			{"EVMCall", minWork, func(ctx sdk.Context) error {
				_, _, err := ek.EVMCall(ctx, kit.Addr(from), cfg.worker, data, val, nil)
				return err
			}},
			{"EVMStaticCall", 0, func(ctx sdk.Context) error {
				_, err := ek.EVMStaticCall(ctx, kit.Addr(from), cfg.worker, append([]byte{mWork}, common.BigToHash(big.NewInt(200)).Bytes()...), nil)
				return err
			}},
			{"EVMCreate", 200, func(ctx sdk.Context) error {
				_, _, _, err := ek.EVMCreate(ctx, kit.Addr(from), initCodes[code], val, nil)
				return err
			}},
			{"EVMCreateSlots", 200, func(ctx sdk.Context) error {
				_, _, _, err := ek.EVMCreate(ctx, kit.Addr(from), slots, val, nil)
				return err
			}},
			{"EVMCreate2", 200, func(ctx sdk.Context) error {
				_, _, _, err := ek.EVMCreate2(ctx, kit.Addr(from), initCodes[code], val, 5, nil)
				return err
			}},
			{"DelegateToModule", 5000, func(ctx sdk.Context) error {
				return app.BankKeeper.SendCoinsFromAccountToModule(ctx, kit.Acc(from), "fee_collector", amt)
			}},
			{"CreateMsg", 200, func(ctx sdk.Context) error {
				_, err := evmkeeper.NewMsgServerImpl(ek).Create(ctx, &evmtypes.MsgCreate{Sender: kit.Acc(from).String(), Code: fmt.Sprintf("0x%x", initCodes[code]), Value: math.ZeroInt()})
				return err
			}},
		}
		op := ops[rapid.IntRange(0, len(ops)-1).Draw(rt, "op")]
		exec := func(limit uint64) (err error, used uint64, oog bool) {
			ctx, _ := kit.Branch(ctx)
			m := storetypes.NewGasMeter(limit)
			defer func() {
				used = m.GasConsumed()
				if r := recover(); r != nil {
					if _, ok := r.(storetypes.ErrorOutOfGas); !ok {
						panic(r)
					}
					oog = true
					err = fmt.Errorf("out of gas: %v", r)
				}
			}()
			err = op.run(ctx.WithGasMeter(m))
			return
		}
		c.Label(op.name)
		if op.name == "EVMCreateSlots" {
			c.Logf("init code %x", slots)
			mode = mStop
		}
		err, used, _ := exec(30_000_000)
		c.Logf("%s from key%d to key%d %s mode=%s code=%d denom=%s value=%s: used %d err=%v", op.name, from, to, amt, modeNames[mode], code, denom, val, used, err)
		if used == 0 || used < op.min {
			rt.Fatalf("C24: only %d gas charged\n%s", used, c.Trace())
		}
		if err != nil {
			return
		}
		l := used - 1 - uint64(rapid.Int64Range(0, int64(used)-2).Draw(rt, "less"))
		err2, used2, oog := exec(l)
		c.Logf("limit %d: used %d oog=%v err=%v", l, used2, oog, err2)
		if err2 == nil {
			rt.Fatalf("C24: costs %d gas but succeeds with a limit of %d\n%s", used, l, c.Trace())
		}
		more := used*2 + 200_000 + uint64(rapid.Int64Range(0, 5_000_000).Draw(rt, "more"))
		err3, used3, _ := exec(more)
		if err3 != nil || used3 != used {
			rt.Fatalf("C24: with a limit of %d it used %d gas instead of %d: %v\n%s", more, used3, used, err3, c.Trace())
		}
		if mode != mCatch && rapid.IntRange(0, 3).Draw(rt, "least") == 0 {
			// the least limit it succeeds with, where the execution ends with no gas left
			lo, hi := l, more
			for hi-lo > 1 {
				mid := lo + (hi-lo)/2
				if err, _, _ := exec(mid); err == nil {
					hi = mid
				} else {
					lo = mid
				}
			}
			for d := uint64(0); d < 3; d++ {
				err, u, _ := exec(hi + d)
				if err != nil || u != used {
					rt.Fatalf("C24: with a limit of %d (least is %d) it used %d gas instead of %d: %v\n%s", hi+d, hi, u, used, err, c.Trace())
				}
			}
		}
		c.NonTrivial()
	})
}
