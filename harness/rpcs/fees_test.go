package rpcs

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"testing"

	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"pgregory.net/rapid"

	"github.com/initia-labs/minievm/jsonrpc/config"

	"github.com/initia-labs/minievm/verifh/blocks"
	"github.com/initia-labs/minievm/verifh/history"
	"github.com/initia-labs/minievm/verifh/kit"
)

// feeHistory as it is answered.
type feeHistory struct {
	OldestBlock   *hexutil.Big     `json:"oldestBlock"`
	Reward        [][]*hexutil.Big `json:"reward"`
	BaseFeePerGas []*hexutil.Big   `json:"baseFeePerGas"`
	GasUsedRatio  []float64        `json:"gasUsedRatio"`
}

// tips of a block's transactions.
type tip struct {
	reward *big.Int
	gas    uint64
}

func tips(b *blocks.Block) (out []tip) {
	for _, t := range b.Txs {
		// what is paid above the base fee, at most the tip
		r := new(big.Int).Sub(t.Eth.GasFeeCap(), b.Header.BaseFee)
		if r.Cmp(t.Eth.GasTipCap()) > 0 {
			r.Set(t.Eth.GasTipCap())
		}
		if r.Sign() < 0 {
			r.SetInt64(0)
		}
		out = append(out, tip{r, t.Receipt.GasUsed})
	}
	return
}

// checkReward: the reward at a percentile of the gas used.
func checkReward(got *big.Int, p float64, ts []tip) error {
	if len(ts) == 0 {
		if got.Sign() != 0 {
			return fmt.Errorf("reward %v without transactions", got)
		}
		return nil
	}
	total, below, upto, found, least := 0.0, 0.0, 0.0, false, true
	for _, t := range ts {
		g := float64(t.gas)
		total += g
		if t.reward.Cmp(got) < 0 {
			below += g
			least = false
		}
		if t.reward.Cmp(got) <= 0 {
			upto += g
		}
		found = found || t.reward.Cmp(got) == 0
	}
	if !found {
		return fmt.Errorf("reward %v is of no transaction", got)
	}
	if at := total * p / 100; upto < at-2 || (!least && below > at+2) {
		return fmt.Errorf("reward %v at %v%%: %v of %v gas was used by cheaper transactions, %v with this one", got, p, below, total, upto)
	}
	return nil
}

// fees asks for the fee history.
func (q *asker) fees(maxHeaders, maxBlocks int) (rewards int) {
	rt := q.rt
	head := uint64(len(q.e.Blocks))
	r := drawNumber(rt, q.e)
	count := rapid.SampledFrom([]uint64{0, 1, 1, 2, 2, 3, 4, 5, 8, 100, 1024, 5000}).Draw(rt, "count")
	var ps []float64
	args := []any{hexutil.Uint64(count), r.arg}
	if rapid.IntRange(0, 9).Draw(rt, "decimal") == 0 {
		args[0] = fmt.Sprint(count)
	}
	bad := ""
	switch rapid.IntRange(0, 7).Draw(rt, "percentiles") {
	case 0:
		args = append(args, nil)
	case 1:
		args = append(args, []float64{})
	case 2:
		switch rapid.IntRange(0, 5).Draw(rt, "invalid") {
		case 0:
			ps, bad = []float64{-0.1}, "negative percentile"
		case 1:
			ps, bad = []float64{10, 100.01}, "percentile above 100"
		case 2:
			ps, bad = []float64{10, 10}, "equal percentiles"
		case 3:
			ps, bad = []float64{10, 50, 49}, "decreasing percentiles"
		case 4:
			for i := 0; i < 101; i++ {
				ps = append(ps, float64(i)/2)
			}
			bad = "101 percentiles"
		case 5:
			args[1] = hexutil.Uint64(head + rapid.Uint64Range(1, 3).Draw(rt, "beyond"))
			bad = "beyond the head"
		}
		if count == 0 {
			bad = ""
			args[1] = "latest"
		}
		args = append(args, ps)
	default:
		at := 0.0
		for i := rapid.IntRange(1, 6).Draw(rt, "n"); i > 0; i-- {
			ps = append(ps, at)
			at += rapid.SampledFrom([]float64{0.5, 1, 10, 25, 33.3, 50, 75}).Draw(rt, "step")
			if at > 100 {
				at = 100
				if ps[len(ps)-1] == 100 {
					break
				}
			}
		}
		if rapid.Bool().Draw(rt, "shift") && ps[len(ps)-1] < 95 {
			for i := range ps {
				ps[i] += 5
			}
		}
		args = append(args, ps)
	}
	q.ask(func(raw json.RawMessage, err error) error {
		if bad != "" {
			if err == nil {
				return fmt.Errorf("%s: %s", bad, raw)
			}
			q.c.Label("rejected " + bad)
			return nil
		}
		if err != nil {
			return err
		}
		var got feeHistory
		if err := json.Unmarshal(raw, &got); err != nil {
			return err
		}
		if limit := uint64(maxHeaders); len(ps) == 0 && count > limit {
			count = limit
		}
		if limit := uint64(maxBlocks); len(ps) > 0 && count > limit {
			count = limit
		}
		if count > r.height {
			count = r.height
		}
		fail := func(format string, args ...any) error {
			return fmt.Errorf("%s\nof %s", fmt.Sprintf(format, args...), raw)
		}
		if len(got.GasUsedRatio) != int(count) {
			return fail("%d blocks, expected %d", len(got.GasUsedRatio), count)
		}
		if count == 0 {
			return nil
		}
		oldest := r.height + 1 - count
		if got.OldestBlock == nil || got.OldestBlock.ToInt().Cmp(new(big.Int).SetUint64(oldest)) != 0 {
			return fail("oldest block %v, expected %d", got.OldestBlock, oldest)
		}
		if len(got.BaseFeePerGas) != int(count)+1 {
			return fail("%d base fees for %d blocks", len(got.BaseFeePerGas), count)
		}
		if (len(ps) == 0 && len(got.Reward) != 0) || (len(ps) > 0 && len(got.Reward) != int(count)) {
			return fail("%d rewards for %d blocks", len(got.Reward), count)
		}
		for i := 0; i < int(count); i++ {
			b := q.e.At(oldest + uint64(i))
			if got.BaseFeePerGas[i].ToInt().Cmp(b.Header.BaseFee) != 0 {
				return fail("base fee %v of block %d, expected %v", got.BaseFeePerGas[i], b.Header.Number, b.Header.BaseFee)
			}
			if want := float64(b.GasUsed) / float64(b.Header.GasLimit); math.Abs(got.GasUsedRatio[i]-want) > 1e-9 {
				return fail("gas used ratio %v of block %d, expected %v", got.GasUsedRatio[i], b.Header.Number, want)
			}
			if len(ps) == 0 {
				continue
			}
			if len(got.Reward[i]) != len(ps) {
				return fail("%d rewards of block %d for %d percentiles", len(got.Reward[i]), b.Header.Number, len(ps))
			}
			ts := tips(b)
			for j, p := range ps {
				g := got.Reward[i][j].ToInt()
				if err := checkReward(g, p, ts); err != nil {
					return fail("block %d: %v", b.Header.Number, err)
				}
				if j > 0 && g.Cmp(got.Reward[i][j-1].ToInt()) < 0 {
					return fail("decreasing rewards of block %d", b.Header.Number)
				}
			}
			if len(ts) > 1 {
				rewards++
			}
		}
		next := got.BaseFeePerGas[count].ToInt()
		ok := next.Cmp(q.e.At(r.height).Header.BaseFee) == 0
		if b := q.e.At(r.height + 1); b != nil && next.Cmp(b.Header.BaseFee) == 0 {
			ok = true
		}
		if !ok {
			return fail("next base fee %v, expected %v", next, q.e.At(r.height).Header.BaseFee)
		}
		return nil
	}, "eth_feeHistory", args...)
	return
}

// TestFees: the fee history and the gas price follow the blocks.
func TestFees(t *testing.T) {
	kit.Run(t, "rewards were answered for a block with at least two Ethereum transactions", func(rt *rapid.T, c *kit.Case) {
		o := options()
		if rapid.IntRange(0, 2).Draw(rt, "small blocks") == 0 {
			o.MaxGas = rapid.SampledFrom([]int64{7_000_000, 15_000_000}).Draw(rt, "max gas")
		}
		app := kit.NewApp(o)
		limits := rapid.SampledFrom([][2]int{{1024, 1024}, {1024, 1024}, {3, 2}, {1, 5}, {5, 1}}).Draw(rt, "limits")
		n := start(app, func(cfg *config.JSONRPCConfig) { cfg.FeeHistoryMaxHeaders, cfg.FeeHistoryMaxBlocks = limits[0], limits[1] })
		defer n.stop()
		h := history.New(c)
		e := blocks.New(app)
		q := &asker{rt: rt, c: c, n: n, e: e, execs: h.Execs}
		draw := func() types.TxData {
			price := func(l string) *big.Int {
				return big.NewInt(rapid.SampledFrom([]int64{0, 1, 2, 5, 1_000_000, 1_000_000_000, 1_000_000_001, 7_000_000_000}).Draw(rt, l))
			}
			to := rapid.SampledFrom(h.Execs).Draw(rt, "to")
			var data []byte
			if loops := rapid.SampledFrom([]uint64{0, 0, 10, 1000, 5000}).Draw(rt, "work"); loops > 0 {
				a := kit.NewAsm()
				for i := uint64(0); i < loops/100; i++ {
					a.Push(i).Push(i % 5).Op(0x55)
				}
				data = kit.InitCode(nil, a.Push(0).Push(0).Op(0xf3).Bytes())
			}
			if rapid.Bool().Draw(rt, "legacy") {
				return &types.LegacyTx{GasPrice: price("price"), Gas: 2_000_000, To: &to, Data: data}
			}
			tip, cap := price("tip"), price("cap")
			if tip.Cmp(cap) > 0 {
				tip, cap = cap, tip
			}
			return &types.DynamicFeeTx{GasTipCap: tip, GasFeeCap: cap, Gas: 2_000_000, To: &to, Data: data}
		}
		rewards := 0
		for i, nb := 0, rapid.IntRange(2, 7).Draw(rt, "blocks"); i < nb; i++ {
			txs := h.Setup(app)
			if i > 0 {
				txs = mixed(rt, h.Draw(rt, app, 4), own(rt, app, 4, draw))
			}
			res := kit.Block(app, history.Bytes(txs))
			h.Record(txs, res)
			e.Add(app, txs, res)
			ask := rapid.IntRange(0, 5).Draw(rt, "requests")
			if i == nb-1 {
				ask = 15
			}
			for ; ask > 0; ask-- {
				rewards += q.fees(limits[0], limits[1])
			}
			q.ask(exact((*hexutil.Big)(e.Last().Header.BaseFee)), "eth_gasPrice")
			q.ask(exact("0x0"), "eth_maxPriorityFeePerGas")
		}
		c.NonTrivialIf(rewards > 0)
	})
}
