package rpcs

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"slices"
	"testing"

	"github.com/cosmos/cosmos-sdk/baseapp"
	sdk "github.com/cosmos/cosmos-sdk/types"
	evmconfig "github.com/initia-labs/minievm/x/evm/config"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"pgregory.net/rapid"

	minievmapp "github.com/initia-labs/minievm/app"
	rpctypes "github.com/initia-labs/minievm/jsonrpc/types"

	"github.com/initia-labs/minievm/verifh/blocks"
	"github.com/initia-labs/minievm/verifh/history"
	"github.com/initia-labs/minievm/verifh/kit"
)

func options() kit.Options {
	o := history.Options()
	o.NumKeys = ownKey + 1
	cfg := evmconfig.DefaultEVMConfig()
	cfg.IndexerCacheSize = 10
	o.EVMConfig = &cfg
	o.BaseAppOpts = append(o.BaseAppOpts, baseapp.SetQueryGasLimit(3_000_000))
	return o
}

const numSlots = 4

// ownKey is one the generated history does not use.
const ownKey = history.NumKeys

// own gives transactions of the own key.
func own(rt *rapid.T, app *minievmapp.MinitiaApp, most int, draw func() coretypes.TxData) []history.Tx {
	ctx := kit.Ctx(app)
	var out []history.Tx
	seq := kit.Seq(app, ctx, kit.Acc(ownKey))
	for i := rapid.IntRange(0, most).Draw(rt, "own txs"); i > 0; i-- {
		d := draw()
		switch d := d.(type) {
		case *coretypes.LegacyTx:
			d.Nonce = seq
		case *coretypes.DynamicFeeTx:
			d.Nonce, d.ChainID = seq, kit.EthChainID()
		}
		tx := kit.SignEth(ownKey, d)
		out = append(out, history.Tx{Bytes: must2(kit.EthToCosmos(app, ctx, tx)), Eth: tx, Kind: "own", Key: ownKey})
		seq++
	}
	return out
}

// mixed interleaves transactions.
func mixed(rt *rapid.T, a, b []history.Tx) []history.Tx {
	var out []history.Tx
	for len(a) > 0 || len(b) > 0 {
		if len(b) == 0 || (len(a) > 0 && rapid.Bool().Draw(rt, "first")) {
			out, a = append(out, a[0]), a[1:]
		} else {
			out, b = append(out, b[0]), b[1:]
		}
	}
	return out
}

// snapshot of the state after a block.
type snapshot struct {
	balance map[common.Address]*big.Int
	nonce   map[common.Address]uint64
	code    map[common.Address][]byte
	slots   map[common.Address][numSlots]common.Hash
	tokens  map[common.Address]map[common.Address][]byte // balanceOf
}

func snap(app *minievmapp.MinitiaApp, addrs, tokens []common.Address) *snapshot {
	ctx := kit.Ctx(app)
	s := &snapshot{balance: map[common.Address]*big.Int{}, nonce: map[common.Address]uint64{}, code: map[common.Address][]byte{},
		slots: map[common.Address][numSlots]common.Hash{}, tokens: map[common.Address]map[common.Address][]byte{}}
	for _, a := range addrs {
		acc := sdk.AccAddress(a.Bytes())
		s.balance[a] = app.BankKeeper.GetBalance(ctx, acc, kit.FeeDenom).Amount.BigInt()
		s.nonce[a] = kit.Seq(app, ctx, acc)
		s.code[a] = kit.Code(app, ctx, a)
		var w [numSlots]common.Hash
		for i := range w {
			w[i] = kit.Slot(app, ctx, a, common.BigToHash(big.NewInt(int64(i))))
		}
		s.slots[a] = w
	}
	for _, t := range tokens {
		s.tokens[t] = map[common.Address][]byte{}
		for _, a := range addrs {
			b, _ := kit.Branch(ctx)
			s.tokens[t][a] = must2(app.EVMKeeper.EVMStaticCall(b, common.Address{}, t, must2(history.TokenABI.Pack("balanceOf", a)), nil))
		}
	}
	return s
}

// probe returns what the code run by an executor sees.
func probe(other common.Address) []byte {
	a := kit.NewAsm()
	n := uint64(0)
	put := func() { a.Push(32 * n).Op(vm.MSTORE); n++ }
	for _, op := range []vm.OpCode{vm.CALLER, vm.ORIGIN, vm.ADDRESS, vm.CALLVALUE, vm.SELFBALANCE, vm.NUMBER, vm.TIMESTAMP} {
		a.Op(op)
		put()
	}
	a.PushAddr(other).Op(vm.BALANCE)
	put()
	for i := 0; i < numSlots; i++ {
		a.Push(uint64(i)).Op(vm.SLOAD)
		put()
	}
	// the call's own writes are seen by itself only
	a.Push(77).Push(1).Op(vm.SSTORE)
	a.Push(32*n).Push(0).Op(vm.RETURN)
	return kit.InitCode(nil, a.Bytes())
}

// reference names a block, in one of the ways requests can.
type reference struct {
	arg    any
	height uint64
	tag    string
}

func drawReference(rt *rapid.T, e *blocks.Chain) reference {
	head := uint64(len(e.Blocks))
	h := rapid.Uint64Range(1, head).Draw(rt, "height")
	hash := e.At(h).Header.Hash()
	switch rapid.IntRange(0, 6).Draw(rt, "by") {
	case 0, 1:
		return reference{hexutil.Uint64(h), h, ""}
	case 2:
		return reference{hash, h, ""}
	case 3:
		return reference{map[string]any{"blockNumber": hexutil.Uint64(h)}, h, ""}
	case 4:
		return reference{map[string]any{"blockHash": hash, "requireCanonical": rapid.Bool().Draw(rt, "canonical")}, h, ""}
	default:
		r := drawTag(rt, e)
		return reference{r.arg, r.height, r.tag}
	}
}

func drawTag(rt *rapid.T, e *blocks.Chain) reference {
	switch t := rapid.SampledFrom([]string{"latest", "pending", "safe", "finalized", "earliest"}).Draw(rt, "tag"); t {
	case "earliest":
		return reference{t, 1, t}
	default:
		return reference{t, uint64(len(e.Blocks)), t}
	}
}

// drawNumber names a block by number.
func drawNumber(rt *rapid.T, e *blocks.Chain) reference {
	if rapid.IntRange(0, 2).Draw(rt, "by tag") == 0 {
		return drawTag(rt, e)
	}
	h := rapid.Uint64Range(1, uint64(len(e.Blocks))).Draw(rt, "height")
	return reference{hexutil.Uint64(h), h, ""}
}

func text(v any) string { return string(must2(json.Marshal(v))) }

func parsed(v any) any {
	var out any
	must(json.Unmarshal([]byte(text(v)), &out))
	return out
}

// same compares the JSON of an answer with an expected value; names limits it to these fields.
func same(got json.RawMessage, want any, names ...string) error {
	w := parsed(want)
	var g any
	if err := json.Unmarshal(got, &g); err != nil {
		return err
	}
	if gm, ok := g.(map[string]any); ok && len(names) > 0 {
		o := map[string]any{}
		for _, n := range names {
			v, ok := gm[n]
			if !ok {
				return fmt.Errorf("no %s in %s", n, got)
			}
			o[n] = v
		}
		g = o
	}
	if !reflect.DeepEqual(g, w) {
		return fmt.Errorf("\n%s\nexpected\n%s", got, text(want))
	}
	return nil
}

// nothing is what the answer for an unknown item has to be: null or an error.
func nothing(got json.RawMessage, err error) error {
	if err != nil || string(got) == "null" || len(got) == 0 {
		return nil
	}
	return fmt.Errorf("%s, expected nothing", got)
}

func blockFields(b *blocks.Block) map[string]any {
	h := b.Header
	return map[string]any{
		"number": (*hexutil.Big)(h.Number), "hash": h.Hash(), "parentHash": h.ParentHash, "logsBloom": h.Bloom, "gasLimit": hexutil.Uint64(h.GasLimit),
		"gasUsed": hexutil.Uint64(h.GasUsed), "timestamp": hexutil.Uint64(h.Time), "transactionsRoot": h.TxHash, "receiptsRoot": h.ReceiptHash,
		"baseFeePerGas": (*hexutil.Big)(h.BaseFee), "miner": h.Coinbase, "stateRoot": h.Root, "difficulty": (*hexutil.Big)(h.Difficulty), "sha3Uncles": h.UncleHash,
		"uncles": []string{},
	}
}

// sameBlock compares a block answer.
func sameBlock(got json.RawMessage, b *blocks.Block, full bool) error {
	want := blockFields(b)
	names := []string{}
	for n := range want {
		names = append(names, n)
	}
	if err := same(got, want, names...); err != nil {
		return err
	}
	if full {
		var o struct {
			Transactions []*rpctypes.RPCTransaction `json:"transactions"`
		}
		if err := json.Unmarshal(got, &o); err != nil {
			return err
		}
		if len(o.Transactions) != len(b.Txs) {
			return fmt.Errorf("%d transactions, expected %d", len(o.Transactions), len(b.Txs))
		}
		for i, t := range b.Txs {
			if err := t.SameTx(o.Transactions[i]); err != nil {
				return err
			}
		}
		return nil
	}
	hashes := []common.Hash{}
	for _, t := range b.Txs {
		hashes = append(hashes, t.Eth.Hash())
	}
	return same(got, map[string]any{"transactions": hashes}, "transactions")
}

func receiptFields(t *blocks.Tx) map[string]any {
	r := t.Receipt
	out := map[string]any{
		"blockHash": t.Block.Header.Hash(), "blockNumber": (*hexutil.Big)(t.Block.Header.Number), "transactionHash": t.Eth.Hash(), "transactionIndex": hexutil.Uint64(t.Index),
		"from": t.From, "to": t.Eth.To(), "gasUsed": hexutil.Uint64(r.GasUsed), "cumulativeGasUsed": hexutil.Uint64(r.CumulativeGasUsed), "contractAddress": nil,
		"logs": r.Logs, "logsBloom": r.Bloom, "type": hexutil.Uint(r.Type), "effectiveGasPrice": (*hexutil.Big)(r.EffectiveGasPrice), "status": hexutil.Uint64(r.Status),
	}
	if r.ContractAddress != (common.Address{}) {
		out["contractAddress"] = r.ContractAddress
	}
	return out
}

var receiptNames = []string{"blockHash", "blockNumber", "transactionHash", "transactionIndex", "from", "to", "gasUsed", "cumulativeGasUsed", "contractAddress",
	"logs", "logsBloom", "type", "effectiveGasPrice", "status"}

func sameTx(got json.RawMessage, t *blocks.Tx) error {
	var o *rpctypes.RPCTransaction
	if err := json.Unmarshal(got, &o); err != nil {
		return err
	}
	return t.SameTx(o)
}

// asker makes requests with an expected answer.
type asker struct {
	rt    *rapid.T
	c     *kit.Case
	n     *node
	e     *blocks.Chain
	snaps map[uint64]*snapshot
	addrs []common.Address
	execs []common.Address
	asked int
}

func (q *asker) ask(check func(json.RawMessage, error) error, method string, args ...any) {
	q.rt.Helper()
	var got json.RawMessage
	err := q.n.ask(&got, method, args...)
	q.asked++
	q.c.Label(method)
	if err := check(got, err); err != nil {
		q.rt.Fatalf("%s\n%s %s: %v", q.c.Trace(), method, text(args), err)
	}
}

// exact answer.
func exact(want any, names ...string) func(json.RawMessage, error) error {
	return func(got json.RawMessage, err error) error {
		if err != nil {
			return err
		}
		return same(got, want, names...)
	}
}

func sound(f func(json.RawMessage) error) func(json.RawMessage, error) error {
	return func(got json.RawMessage, err error) error {
		if err != nil {
			return err
		}
		return f(got)
	}
}

// state asks about the state at a block.
func (q *asker) state() {
	rt := q.rt
	r := drawReference(rt, q.e)
	s := q.snaps[r.height]
	a := rapid.SampledFrom(q.addrs).Draw(rt, "address")
	switch rapid.SampledFrom([]string{"balance", "nonce", "code", "slot", "call", "call", "token", "create", "plain", "fails"}).Draw(rt, "state") {
	case "balance":
		q.ask(exact((*hexutil.Big)(s.balance[a])), "eth_getBalance", a, r.arg)
	case "nonce":
		q.ask(exact(hexutil.Uint64(s.nonce[a])), "eth_getTransactionCount", a, r.arg)
	case "code":
		q.ask(exact(hexutil.Bytes(s.code[a])), "eth_getCode", a, r.arg)
	case "slot":
		i := rapid.IntRange(0, numSlots-1).Draw(rt, "slot")
		key := rapid.SampledFrom([]string{fmt.Sprintf("0x%x", i), fmt.Sprintf("0x%064x", i), fmt.Sprintf("0x%02x", i)}).Draw(rt, "key")
		q.ask(exact(s.slots[a][i]), "eth_getStorageAt", a, key, r.arg)
	case "call":
		to := rapid.SampledFrom(q.execs).Draw(rt, "to")
		from := common.Address{}
		args := map[string]any{"to": to}
		if rapid.IntRange(0, 3).Draw(rt, "from") > 0 {
			from = rapid.SampledFrom(q.addrs).Draw(rt, "from address")
			args["from"] = from
		}
		value := new(big.Int)
		if rapid.Bool().Draw(rt, "value") {
			value = big.NewInt(rapid.SampledFrom([]int64{0, 1, 1_000_000, 1_000_000_000_000_000_000}).Draw(rt, "amount"))
			args["value"] = (*hexutil.Big)(value)
		}
		args[rapid.SampledFrom([]string{"data", "input"}).Draw(rt, "field")] = hexutil.Bytes(probe(a))
		if rapid.IntRange(0, 9).Draw(rt, "both") == 0 { // input is preferred
			args["data"], args["input"] = hexutil.Bytes{1, 2, 3}, hexutil.Bytes(probe(a))
		}
		balance := s.balance[from]
		if balance == nil {
			balance = new(big.Int)
		}
		if balance.Cmp(value) < 0 {
			q.ask(func(got json.RawMessage, err error) error {
				if err == nil {
					return fmt.Errorf("%s, though %s has %v only", got, from, balance)
				}
				return nil
			}, "eth_call", args, r.arg)
			return
		}
		want := []byte{}
		if len(s.code[to]) > 0 {
			move := new(big.Int).Set(value)
			if from == to {
				move = new(big.Int)
			}
			after := func(x common.Address) *big.Int {
				out := new(big.Int).Set(s.balance[x])
				if x == to {
					out.Add(out, move)
				}
				if x == from {
					out.Sub(out, move)
				}
				return out
			}
			w := func(b []byte) { want = append(want, common.LeftPadBytes(b, 32)...) }
			w(from.Bytes())
			w(from.Bytes())
			w(to.Bytes())
			w(value.Bytes())
			w(after(to).Bytes())
			w(new(big.Int).SetUint64(r.height).Bytes())
			w(big.NewInt(kit.BlockTime(int64(r.height)).Unix()).Bytes())
			w(after(a).Bytes())
			for _, x := range s.slots[to] {
				w(x[:])
			}
		}
		if r.tag == "latest" && rapid.Bool().Draw(rt, "default block") {
			q.ask(exact(hexutil.Bytes(want)), "eth_call", args)
		} else {
			q.ask(exact(hexutil.Bytes(want)), "eth_call", args, r.arg)
		}
	case "token":
		var tokens []common.Address
		for t := range s.tokens {
			tokens = append(tokens, t)
		}
		if len(tokens) == 0 {
			return
		}
		slices.SortFunc(tokens, func(a, b common.Address) int { return a.Cmp(b) })
		t := rapid.SampledFrom(tokens).Draw(rt, "token")
		q.ask(exact(hexutil.Bytes(s.tokens[t][a])), "eth_call", map[string]any{"to": t, "input": hexutil.Bytes(must2(history.TokenABI.Pack("balanceOf", a)))}, r.arg)
	case "create":
		code := []byte{byte(vm.STOP), 1, 2, byte(rapid.IntRange(0, 3).Draw(rt, "code"))}
		q.ask(exact(hexutil.Bytes(code)), "eth_call", map[string]any{"from": kit.Addr(3), "data": hexutil.Bytes(kit.InitCode(nil, code))}, r.arg)
	case "plain":
		to := rapid.SampledFrom([]common.Address{{}, kit.Addr(2), common.HexToAddress("0xaaaa")}).Draw(rt, "to")
		if len(s.code[to]) > 0 {
			return
		}
		q.ask(exact(hexutil.Bytes{}), "eth_call", map[string]any{"from": kit.Addr(3), "to": to, "input": hexutil.Bytes{1, 2}}, r.arg)
	case "fails":
		to := rapid.SampledFrom(q.execs).Draw(rt, "to")
		if len(s.code[to]) == 0 {
			return
		}
		code := kit.NewAsm().Push(3).Push(0).Op(vm.REVERT).Bytes()
		if rapid.Bool().Draw(rt, "invalid") {
			code = []byte{byte(vm.INVALID)}
		}
		q.ask(func(got json.RawMessage, err error) error {
			if err == nil {
				return fmt.Errorf("%s, expected an error", got)
			}
			return nil
		}, "eth_call", map[string]any{"to": to, "input": hexutil.Bytes(kit.InitCode(nil, code))}, r.arg)
	}
}

// block asks about a block.
func (q *asker) block() {
	rt := q.rt
	r := drawNumber(rt, q.e)
	b := q.e.At(r.height)
	hash := b.Header.Hash()
	full := rapid.Bool().Draw(rt, "full")
	switch rapid.IntRange(0, 6).Draw(rt, "block question") {
	case 0:
		q.ask(sound(func(got json.RawMessage) error { return sameBlock(got, b, full) }), "eth_getBlockByNumber", r.arg, full)
	case 1:
		q.ask(sound(func(got json.RawMessage) error { return sameBlock(got, b, full) }), "eth_getBlockByHash", hash, full)
	case 2:
		q.ask(exact(hexutil.Uint64(len(b.Txs))), "eth_getBlockTransactionCountByNumber", r.arg)
	case 3:
		q.ask(exact(hexutil.Uint64(len(b.Txs))), "eth_getBlockTransactionCountByHash", hash)
	case 4:
		r := drawReference(rt, q.e)
		b := q.e.At(r.height)
		q.ask(sound(func(got json.RawMessage) error {
			var list []json.RawMessage
			if err := json.Unmarshal(got, &list); err != nil {
				return err
			}
			if len(list) != len(b.Txs) {
				return fmt.Errorf("%d receipts, expected %d", len(list), len(b.Txs))
			}
			for i, t := range b.Txs {
				if err := same(list[i], receiptFields(t), receiptNames...); err != nil {
					return err
				}
			}
			return nil
		}), "eth_getBlockReceipts", r.arg)
	case 5:
		q.ask(exact(hexutil.Uint64(len(q.e.Blocks))), "eth_blockNumber")
		q.ask(exact((*hexutil.Big)(kit.EthChainID())), "eth_chainId")
	case 6: // unknown blocks
		far := uint64(len(q.e.Blocks)) + rapid.SampledFrom([]uint64{1, 2, 1 << 20, 1 << 40}).Draw(rt, "beyond")
		q.ask(nothing, "eth_getBlockByNumber", hexutil.Uint64(far), full)
		q.ask(nothing, "eth_getBlockTransactionCountByNumber", hexutil.Uint64(far))
		q.ask(nothing, "eth_getTransactionByBlockNumberAndIndex", hexutil.Uint64(far), hexutil.Uint(0))
		other := hash
		other[rapid.IntRange(0, 31).Draw(rt, "byte")] ^= 1
		if len(b.Txs) > 0 && rapid.Bool().Draw(rt, "tx hash") {
			other = b.Txs[0].Eth.Hash()
		}
		q.ask(nothing, "eth_getBlockByHash", other, full)
		q.ask(nothing, "eth_getBlockTransactionCountByHash", other)
		q.ask(nothing, "eth_getTransactionByBlockHashAndIndex", other, hexutil.Uint(0))
		q.ask(nothing, "eth_getBalance", q.addrs[0], other)
		q.ask(nothing, "eth_getTransactionCount", q.addrs[0], other)
		q.ask(nothing, "eth_getCode", q.addrs[0], other)
	}
}

// tx asks about a transaction.
func (q *asker) tx() {
	rt := q.rt
	var all []*blocks.Tx
	for _, b := range q.e.Blocks {
		all = append(all, b.Txs...)
	}
	if len(all) == 0 || rapid.IntRange(0, 5).Draw(rt, "absent") == 0 {
		absent := q.e.Absent()
		slices.SortFunc(absent, func(a, b common.Hash) int { return a.Cmp(b) })
		h := rapid.SampledFrom(absent).Draw(rt, "hash")
		q.ask(nothing, "eth_getTransactionByHash", h)
		q.ask(nothing, "eth_getTransactionReceipt", h)
		q.ask(func(got json.RawMessage, err error) error {
			if string(got) == `"0x"` {
				return nil
			}
			return nothing(got, err)
		}, "eth_getRawTransactionByHash", h)
		q.ask(exact(common.UnprefixedHash{}), "cosmos_cosmosTxHashByTxHash", h)
		b := rapid.SampledFrom(q.e.Blocks).Draw(rt, "block")
		i := hexutil.Uint(len(b.Txs) + rapid.SampledFrom([]int{0, 1, 255, 1 << 30}).Draw(rt, "beyond"))
		q.ask(nothing, "eth_getTransactionByBlockNumberAndIndex", (*hexutil.Big)(b.Header.Number), i)
		q.ask(nothing, "eth_getTransactionByBlockHashAndIndex", b.Header.Hash(), i)
		return
	}
	t := rapid.SampledFrom(all).Draw(rt, "tx")
	h, bh, i := t.Eth.Hash(), t.Block.Header.Hash(), hexutil.Uint(t.Index)
	raw := hexutil.Bytes(must2(t.Eth.MarshalBinary()))
	is := sound(func(got json.RawMessage) error { return sameTx(got, t) })
	switch rapid.IntRange(0, 6).Draw(rt, "tx question") {
	case 0:
		q.ask(is, "eth_getTransactionByHash", h)
	case 1:
		q.ask(is, "eth_getTransactionByBlockHashAndIndex", bh, i)
	case 2:
		n := any((*hexutil.Big)(t.Block.Header.Number))
		if t.Block == q.e.Last() && rapid.Bool().Draw(rt, "tag") {
			n = rapid.SampledFrom([]string{"latest", "safe", "finalized", "pending"}).Draw(rt, "name")
		}
		q.ask(is, "eth_getTransactionByBlockNumberAndIndex", n, i)
	case 3:
		q.ask(exact(receiptFields(t), receiptNames...), "eth_getTransactionReceipt", h)
	case 4:
		q.ask(exact(raw), "eth_getRawTransactionByHash", h)
	case 5:
		q.ask(exact(raw), "eth_getRawTransactionByBlockHashAndIndex", bh, i)
	case 6:
		q.ask(exact(common.UnprefixedHash(t.CosmosHash)), "cosmos_cosmosTxHashByTxHash", h)
		q.ask(exact(h), "cosmos_txHashByCosmosTxHash", common.UnprefixedHash(t.CosmosHash))
	}
}

// TestAnswers: requests about blocks, transactions and the state are answered from the blocks and the state.
func TestAnswers(t *testing.T) {
	kit.Run(t, "the chain has at least 2 executed Ethereum transactions and at least 30 requests were answered as expected", func(rt *rapid.T, c *kit.Case) {
		app := kit.NewApp(options())
		n := start(app, nil)
		defer n.stop()
		h := history.New(c)
		e := blocks.New(app)
		q := &asker{rt: rt, c: c, n: n, e: e, snaps: map[uint64]*snapshot{}, execs: h.Execs}
		q.addrs = h.Addresses()
		q.snaps[1] = snap(app, q.addrs, nil)
		for i, nb := 0, rapid.IntRange(2, 6).Draw(rt, "blocks"); i < nb; i++ {
			txs := h.Setup(app)
			if i > 0 {
				txs = h.Draw(rt, app, 6)
			}
			res := kit.Block(app, history.Bytes(txs))
			h.Record(txs, res)
			e.Add(app, txs, res)
			tokens, _ := h.Tokens(app)
			q.snaps[uint64(len(e.Blocks))] = snap(app, q.addrs, tokens)
			ask := rapid.IntRange(0, 10).Draw(rt, "requests")
			if i == nb-1 {
				ask = 60
			}
			for ; ask > 0; ask-- {
				switch rapid.IntRange(0, 4).Draw(rt, "about") {
				case 0:
					q.block()
				case 1:
					q.tx()
				default:
					q.state()
				}
			}
		}
		ran := 0
		for _, b := range e.Blocks {
			ran += len(b.Txs)
		}
		c.NonTrivialIf(ran >= 2 && q.asked >= 30)
	})
}
