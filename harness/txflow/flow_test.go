package txflow

import (
	"fmt"
	"math/big"
	"sort"
	"testing"

	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/gogoproto/proto"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"

	minievmapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/verifh/kit"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// giveUp ends a case in which something outside the property under test already went wrong.
type giveUp struct{}

// flow is one history.
type flow struct {
	rt    *rapid.T
	c     *kit.Case
	cfg   *config
	app   *minievmapp.MinitiaApp
	focus string

	seq     [nKeys]uint64
	exists  [nKeys]bool
	bal     map[common.Address]*big.Int // tracked balances
	supply  *big.Int
	count   uint64
	created map[common.Address]int // addresses with the creation code used
	past    []*spec

	accepted, succeeded, failed, rejected int
}

// check reports a violation of the property under test; a violation of another one ends the case quietly.
func (f *flow) check(prop string, ok bool, format string, args ...any) {
	if ok {
		return
	}
	if prop == f.focus {
		f.rt.Fatalf("%s: %s\n%s", prop, fmt.Sprintf(format, args...), f.c.Trace())
	}
	f.c.Label("gave-up-" + prop)
	panic(giveUp{})
}

func (f *flow) ctx() sdk.Context { return kit.Ctx(f.app) }

func (f *flow) realBal(ctx sdk.Context, a common.Address) *big.Int {
	return f.app.BankKeeper.GetBalance(ctx, a.Bytes(), f.cfg.denom).Amount.BigInt()
}

func (f *flow) track(ctx sdk.Context, a common.Address) {
	if _, ok := f.bal[a]; !ok {
		f.bal[a] = f.realBal(ctx, a)
	}
}

func (f *flow) balOf(i int) *big.Int { return f.bal[kit.Addr(i)] }

func newFlow(rt *rapid.T, c *kit.Case, focus string) *flow {
	f := &flow{rt: rt, c: c, focus: focus, bal: map[common.Address]*big.Int{}, created: map[common.Address]int{}}
	f.cfg = configs[rapid.IntRange(0, len(configs)-1).Draw(rt, "config")]
	f.app = f.cfg.shared.Get()
	ctx := f.ctx()
	for i := 0; i < nKeys; i++ {
		f.seq[i] = kit.Seq(f.app, ctx, kit.Acc(i))
		f.exists[i] = f.app.AccountKeeper.HasAccount(ctx, kit.Acc(i))
		f.track(ctx, kit.Addr(i))
	}
	f.track(ctx, f.cfg.worker)
	f.track(ctx, common.BytesToAddress(feeCollector()))
	for i := int64(0); i < 4; i++ {
		f.track(ctx, common.BigToAddress(big.NewInt(0x10000+i)))
	}
	f.supply = f.app.BankKeeper.GetSupply(ctx, f.cfg.denom).Amount.BigInt()
	c.Logf("chain %s", f.cfg.name)
	return f
}

// draw generates the next transaction given the sequences assumed so far.
func (f *flow) draw(ctx sdk.Context, assumed *[nKeys]uint64, now []*spec, mutate bool) *spec {
	rt := f.rt
	if old := append(append([]*spec{}, f.past...), now...); !mutate && len(old) > 0 && rapid.IntRange(0, 11).Draw(rt, "replay") == 0 {
		s := old[rapid.IntRange(0, len(old)-1).Draw(rt, "replayOf")]
		r := *s
		r.desc = "REPLAY " + s.desc
		return &r
	}
	i := rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3, 4, 5}).Draw(rt, "signer")
	off := int64(0)
	if rapid.IntRange(0, 7).Draw(rt, "badNonce") == 7 {
		off = rapid.SampledFrom([]int64{-1, 1, 2, -2, 5}).Draw(rt, "nonceOff")
	}
	mut := ""
	if mutate && rapid.IntRange(0, 2).Draw(rt, "mutate") != 0 {
		off = 0
		mut = "?"
		i = rapid.IntRange(0, 2).Draw(rt, "mutSigner")
	}
	if rapid.IntRange(0, 9).Draw(rt, "kind") < 6 {
		n := int64(assumed[i]) + off
		if n < 0 {
			n = 0
		}
		declare := uint64(n)
		if mut != "" {
			mut = rapid.SampledFrom(ethMutations).Draw(rt, "ethMutation")
			if mut == "nonce+1" {
				if n == 0 {
					mut = "sig-flip"
				} else {
					n--
				}
			}
		}
		s := f.cfg.drawEth(rt, f.app, ctx, i, uint64(n), f.balOf(i), mut != "")
		if mut != "" && !f.cfg.mutateEth(rt, f.app, ctx, s, mut) {
			f.c.Label("mutation-not-applicable")
			mut = ""
		}
		if mut == "" && declare != uint64(n) {
			panic("unreachable")
		}
		if mut != "" {
			f.c.Label("eth-mutation-" + mut)
		}
		return s
	}
	if i == 5 && !f.exists[5] {
		i = 0
	}
	if mut != "" {
		mut = rapid.SampledFrom(cosmosMutations).Draw(rt, "cosmosMutation")
	}
	s := f.cfg.drawCosmos(rt, f.app, ctx, i, func(k int) uint64 { return assumed[k] }, f.balOf, off, mut)
	if mut != "" {
		f.c.Label("cosmos-mutation-" + s.mut)
	}
	return s
}

// expectation of the ante checks: yes, no or unknown
func (f *flow) expect(s *spec) (string, string) {
	if s.mut != "" {
		return "no", "C05"
	}
	for k, sg := range s.signers {
		if s.nonces[k] != f.seq[sg] {
			return "no", "C06"
		}
	}
	if s.signers[0] == 5 && !f.exists[5] {
		return "unknown", ""
	}
	if s.fee.Sign() > 0 && s.granter && !granted[[2]int{s.payer, s.signers[0]}] {
		return "no", "C07"
	}
	if s.granter && s.fee.Sign() == 0 {
		return "unknown", ""
	}
	if s.fee.Cmp(f.balOf(s.payer)) > 0 {
		return "no", "C07"
	}
	if s.gas < 200_000 {
		return "unknown", ""
	}
	return "yes", "C05"
}

func add(m map[common.Address]*big.Int, a common.Address, d *big.Int) {
	if b, ok := m[a]; ok {
		m[a] = new(big.Int).Add(b, d)
	}
}

func neg(x *big.Int) *big.Int { return new(big.Int).Neg(x) }

// apply updates the model with the result of one transaction.
func (f *flow) apply(s *spec, r *abci.ExecTxResult) {
	accepted := len(r.Events) > 0
	exp, prop := f.expect(s)
	f.c.Logf("    -> %s accepted=%v", kit.Result(r), accepted)
	switch exp {
	case "yes":
		f.check(prop, accepted, "a valid transaction was not accepted: %s: %s", s, r.Log)
	case "no":
		f.check(prop, !accepted && r.Code != 0, "a transaction which must be rejected (%s) was accepted: %s", prop, s)
	}
	if !accepted {
		f.rejected++
		f.c.Label("rejected")
		f.check("C06", r.Code != 0, "a transaction passed without passing the ante checks: %s", s)
		return
	}
	f.accepted++
	ok := r.Code == 0
	fc := common.BytesToAddress(feeCollector())
	payer := kit.Addr(s.payer)

	// fees
	add(f.bal, payer, neg(s.fee))
	add(f.bal, fc, s.fee)
	refund := big0()
	if ok && s.eth && s.fee.Sign() > 0 {
		left := new(big.Int).Sub(big.NewInt(r.GasWanted), big.NewInt(r.GasUsed))
		if left.Sign() > 0 {
			// floor(ratio*left) gas at the price fee/gas
			g := new(big.Int).Mul(left, f.cfg.ratio.BigInt())
			g.Div(g, pow10(18))
			price := new(big.Int).Mul(s.fee, pow10(18))
			price.Div(price, new(big.Int).SetUint64(s.gas))
			refund.Mul(price, g)
			refund.Div(refund, pow10(18))
		}
		f.c.Label("refundable")
		if refund.Sign() > 0 {
			f.c.Label("refunded")
		}
	}
	add(f.bal, payer, refund)
	add(f.bal, fc, neg(refund))
	f.check("C24", uint64(r.GasWanted) == s.gas, "gas wanted %d is not the gas limit %d: %s", r.GasWanted, s.gas, s)
	f.check("C24", r.GasUsed > 0, "an accepted transaction used no gas: %s", s)
	if ok {
		f.check("C24", r.GasUsed <= r.GasWanted, "a successful transaction used %d of %d gas: %s", r.GasUsed, r.GasWanted, s)
		f.check("C24", r.GasUsed >= 10*int64(len(s.bytes)), "gas used %d does not cover the size of the transaction: %s", r.GasUsed, s)
	}

	// sequences
	msgs := map[int]uint64{}
	for _, sg := range s.signers {
		msgs[sg] = 0
	}
	for _, p := range s.parts {
		if p.evm {
			msgs[p.from]++
		}
	}
	before := f.seq
	for sg, n := range msgs {
		if !ok || n == 0 {
			n = 1
		}
		f.seq[sg] += n
		f.exists[sg] = true
	}
	if !ok {
		f.failed++
		f.c.Label("failed")
		for _, p := range s.parts {
			if len(s.parts) == 1 && s.eth && (p.mode == mLoop || p.mode == mInvalid) && p.value.Sign() == 0 {
				f.check("C24", uint64(r.GasUsed) >= s.gas, "an execution that fails with all gas used was charged %d of %d: %s", r.GasUsed, s.gas, s)
				f.c.Label("all-gas-used")
			}
		}
		return
	}
	f.succeeded++
	f.c.Label("succeeded")

	// effects
	var txData sdk.TxMsgData
	must(proto.Unmarshal(r.Data, &txData))
	evmN := map[int]uint64{}
	for k, p := range s.parts {
		from := kit.Addr(p.from)
		nonce := before[p.from] + evmN[p.from]
		if p.evm {
			evmN[p.from]++
		}
		to := p.to
		switch p.kind {
		case "create", "create2":
			var got string
			if p.kind == "create" {
				var resp evmtypes.MsgCreateResponse
				must(proto.Unmarshal(txData.MsgResponses[k].Value, &resp))
				got = resp.ContractAddr
				to = crypto.CreateAddress(from, nonce)
			} else {
				var resp evmtypes.MsgCreate2Response
				must(proto.Unmarshal(txData.MsgResponses[k].Value, &resp))
				got = resp.ContractAddr
				var salt [32]byte
				new(big.Int).SetUint64(p.salt).FillBytes(salt[:])
				to = crypto.CreateAddress2(from, salt, crypto.Keccak256(initCodes[p.code]))
			}
			f.check("C06", common.HexToAddress(got) == to, "created %s, expected %s for nonce %d: %s", got, to, nonce, s)
			f.check("C06", p.code != 1 && p.code != 2, "a failing creation succeeded: %s", s)
			f.created[to] = p.code
			if _, ok := f.bal[to]; !ok {
				f.bal[to] = big0()
			}
		case "call":
			f.check("C06", p.mode != mRevert && p.mode != mLoop && p.mode != mInvalid && p.mode != mCountRevert, "a failing call succeeded: %s", s)
			if counts(p.mode) {
				f.count++
			}
			if p.mode == mGiveBack {
				to = from
			}
		}
		add(f.bal, from, neg(p.value))
		add(f.bal, to, p.value)
		for i := 0; i < nKeys; i++ {
			if to == kit.Addr(i) && (p.kind == "bank" || p.value.Sign() > 0) {
				f.exists[i] = true
			}
		}
		if p.mode == mCosmos {
			add(f.bal, f.cfg.worker, neg(p.inner))
			add(f.bal, kit.Addr(p.innerT), p.inner)
			f.exists[p.innerT] = true
			f.c.Label("cosmos-message")
		}
	}
}

// compare reads the chain after a block.
func (f *flow) compare() {
	ctx := f.ctx()
	for i := 0; i < nKeys; i++ {
		got := kit.Seq(f.app, ctx, kit.Acc(i))
		f.check("C06", got == f.seq[i], "sequence of key%d is %d, expected %d", i, got, f.seq[i])
	}
	h := kit.Slot(f.app, ctx, f.cfg.worker, common.Hash{})
	f.check("C06", h.Big().Uint64() == f.count && h.Big().IsUint64(), "the worker counted %s executions, expected %d", h.Big(), f.count)
	addrs := make([]common.Address, 0, len(f.bal))
	for a := range f.bal {
		addrs = append(addrs, a)
	}
	sort.Slice(addrs, func(i, j int) bool { return addrs[i].Cmp(addrs[j]) < 0 })
	for _, a := range addrs {
		got := f.realBal(ctx, a)
		if got.Cmp(f.bal[a]) == 0 {
			continue
		}
		f.check("C07", false, "balance of %s is %s, expected %s (off by %s)", addrName(f.cfg, a), got, f.bal[a], new(big.Int).Sub(got, f.bal[a]))
	}
	sup := f.app.BankKeeper.GetSupply(ctx, f.cfg.denom).Amount.BigInt()
	f.check("C07", sup.Cmp(f.supply) == 0, "supply is %s, expected %s", sup, f.supply)
	for a := range f.created {
		f.check("C06", len(kit.Code(f.app, ctx, a)) > 0, "no code at created contract %s", a)
	}
}

func (f *flow) block(specs []*spec) {
	txs := make([][]byte, len(specs))
	for k, s := range specs {
		txs[k] = s.bytes
		f.c.Logf("  tx %s", s)
	}
	f.c.Logf("block %d", f.app.LastBlockHeight()+1)
	res := kit.Block(f.app, txs)
	for k, s := range specs {
		f.apply(s, res.TxResults[k])
		f.past = append(f.past, s)
	}
	f.compare()
}

func (f *flow) run(body func()) {
	defer f.cfg.shared.Done()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(giveUp); !ok {
				panic(r)
			}
		}
	}()
	body()
}

func historyTest(t *testing.T, focus, rule string, mutate bool, nontrivial func(f *flow) bool) {
	kit.Run(t, rule, func(rt *rapid.T, c *kit.Case) {
		f := newFlow(rt, c, focus)
		f.run(func() {
			n := rapid.IntRange(1, 5).Draw(rt, "blocks")
			for b := 0; b < n; b++ {
				assumed := f.seq
				ctx := f.ctx()
				var specs []*spec
				for k := rapid.IntRange(1, 4).Draw(rt, "txs"); k > 0; k-- {
					s := f.draw(ctx, &assumed, specs, mutate)
					specs = append(specs, s)
					if s.mut == "" && s.gas >= 200_000 && s.fee.Cmp(f.balOf(s.payer)) <= 0 && (!s.granter || s.fee.Sign() > 0 && granted[[2]int{s.payer, s.signers[0]}]) {
						for k, sg := range s.signers {
							if s.nonces[k] == assumed[sg] {
								assumed[sg]++
							}
						}
					}
					if s.mut != "" {
						chk, err := f.app.CheckTx(&abci.RequestCheckTx{Tx: s.bytes, Type: abci.CheckTxType_New})
						if err == nil {
							f.check("C05", chk.Code != 0, "CheckTx let an altered transaction in: %s", s)
						}
					}
				}
				f.block(specs)
			}
			c.NonTrivialIf(nontrivial(f))
		})
	})
}

func TestSignatures(t *testing.T) {
	historyTest(t, "C05", "at least one altered transaction and one accepted one in the history", true, func(f *flow) bool {
		return f.rejected > 0 && f.accepted > 0
	})
}

func TestSequences(t *testing.T) {
	historyTest(t, "C06", "at least three accepted transactions, one of them failing, or a rejected nonce", false, func(f *flow) bool {
		return f.accepted >= 3 && (f.failed > 0 || f.rejected > 0)
	})
}

func TestFees(t *testing.T) {
	historyTest(t, "C07", "at least two accepted transactions paying a fee", false, func(f *flow) bool {
		n := 0
		for _, s := range f.past {
			if s.fee.Sign() > 0 && s.mut == "" {
				n++
			}
		}
		return n >= 2 && f.accepted >= 2
	})
}

func TestGasCharged(t *testing.T) {
	historyTest(t, "C24", "at least one failing and one succeeding execution", false, func(f *flow) bool {
		return f.failed > 0 && f.succeeded > 0
	})
}
