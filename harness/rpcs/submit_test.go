package rpcs

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"
	coretypes "github.com/cometbft/cometbft/rpc/core/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"pgregory.net/rapid"

	minievmapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/jsonrpc/config"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"

	"github.com/initia-labs/minievm/verifh/kit"
)

const senders = 4

// outcome of a broadcast.
type outcome int

const (
	reaches outcome = iota // the mempool decides
	lost                   // the consensus node is not reached
	refused                // the mempool refuses it
)

// submitted transaction.
type submitted struct {
	*types.Transaction
	raw     []byte
	sender  int
	refused bool // by the mempool
}

// pool is the consensus node's mempool.
type pool struct {
	sync.Mutex
	app      *minievmapp.MinitiaApp
	fault    func() outcome
	seen     [][]byte // broadcasts, in order
	contents [][]byte // the mempool
	pause    func()
}

func (p *pool) broadcast(tx []byte) (*coretypes.ResultBroadcastTx, error) {
	if p.pause != nil {
		p.pause()
	}
	p.Lock()
	defer p.Unlock()
	tx = slices.Clone(tx)
	p.seen = append(p.seen, tx)
	switch p.fault() {
	case lost:
		return nil, errors.New("connection refused")
	case refused:
		return &coretypes.ResultBroadcastTx{Code: 20, Codespace: "sdk", Log: "mempool is full"}, nil
	}
	res, err := p.app.CheckTx(&abci.RequestCheckTx{Tx: tx, Type: abci.CheckTxType_New})
	if err != nil {
		return nil, err
	}
	if res.Code == 0 {
		p.contents = append(p.contents, tx)
	}
	return &coretypes.ResultBroadcastTx{Code: res.Code, Codespace: res.Codespace, Log: res.Log}, nil
}

// hash of the Ethereum transaction in a broadcast one.
func ethHash(app *minievmapp.MinitiaApp, tx []byte) common.Hash {
	cosmosTx := must2(app.TxDecode(tx))
	eth, _, err := evmkeeper.NewTxUtils(app.EVMKeeper).ConvertCosmosTxToEthereumTx(must2(app.CreateQueryContext(0, false)), cosmosTx)
	must(err)
	return eth.Hash()
}

// drawTx of a sender.
func drawTx(rt *rapid.T, sender int, nonce uint64) *submitted {
	var data types.TxData
	cap := int64(rapid.IntRange(0, 3).Draw(rt, "price")) * 1_000_000_000
	to := kit.Addr(rapid.IntRange(0, senders).Draw(rt, "to"))
	bad := rapid.IntRange(0, 11).Draw(rt, "refused") == 0
	feeCap := big.NewInt(cap)
	if bad {
		// more than the sender has
		feeCap = new(big.Int).Exp(big.NewInt(10), big.NewInt(30), nil)
	}
	value := big.NewInt(int64(rapid.IntRange(0, 5).Draw(rt, "value")))
	if rapid.Bool().Draw(rt, "legacy") {
		data = &types.LegacyTx{Nonce: nonce, GasPrice: feeCap, Gas: 300_000, To: &to, Value: value}
	} else {
		data = &types.DynamicFeeTx{ChainID: kit.EthChainID(), Nonce: nonce, GasTipCap: big.NewInt(cap), GasFeeCap: feeCap, Gas: 300_000, To: &to, Value: value}
	}
	tx := kit.SignEth(sender, data)
	return &submitted{Transaction: tx, raw: must2(tx.MarshalBinary()), sender: sender, refused: bad}
}

// TestSubmissions: transactions reach the mempool in nonce order.
func TestSubmissions(t *testing.T) {
	kit.Run(t, "a transaction waited for a gap to be filled", func(rt *rapid.T, c *kit.Case) {
		o := options()
		o.NumKeys = senders
		app := kit.NewApp(o)
		n := start(app, func(cfg *config.JSONRPCConfig) { cfg.QueuedTransactionCap = 10_000 })
		defer n.stop()

		// the model
		var next [senders]uint64
		queue := [senders]map[uint64]*submitted{}
		txs := [senders]map[uint64]*submitted{} // the one transaction per nonce
		inPool := []*submitted{}
		for i := range queue {
			queue[i], txs[i] = map[uint64]*submitted{}, map[uint64]*submitted{}
		}
		var faults []outcome
		p := &pool{app: app}
		p.fault = func() outcome {
			if len(faults) == 0 {
				return reaches
			}
			f := faults[0]
			faults = faults[1:]
			return f
		}
		n.comet.broadcast = p.broadcast
		n.comet.pending = func() [][]byte { return p.contents }
		fail := func(format string, args ...any) { rt.Fatalf("%s\n%s", fmt.Sprintf(format, args...), c.Trace()) }
		waited := false

		submit := func() {
			s := rapid.IntRange(0, senders-1).Draw(rt, "sender")
			d := rapid.SampledFrom([]int{-2, -1, 0, 0, 0, 0, 1, 1, 1, 2, 2, 3, 4, 6}).Draw(rt, "ahead")
			if d < 0 && uint64(-d) > next[s] {
				d = 0
			}
			nonce := next[s] + uint64(d)
			tx := txs[s][nonce]
			if tx == nil || (d == 0 && queue[s][nonce] == nil) {
				// a refused or lost one may be replaced
				tx = drawTx(rt, s, nonce)
				txs[s][nonce] = tx
			}
			var fs []outcome
			if rapid.IntRange(0, 3).Draw(rt, "faults") == 0 {
				fs = rapid.SliceOfN(rapid.SampledFrom([]outcome{reaches, reaches, lost, refused}), 1, 4).Draw(rt, "outcomes")
			}
			faults = slices.Clone(fs)

			// what is to happen
			low, failed := nonce < next[s], false
			var expect []*submitted
			if !low {
				queue[s][nonce] = tx
				at := next[s]
				for queue[s][at] != nil {
					b := queue[s][at]
					expect = append(expect, b)
					f := reaches
					if len(fs) > 0 {
						f, fs = fs[0], fs[1:]
					}
					if f == reaches && b.refused {
						f = refused
					}
					// a transaction which was accepted before is not lost
					if f != lost || at == nonce {
						delete(queue[s], at)
					}
					if f != reaches {
						failed = at == nonce
						break
					}
					inPool = append(inPool, b)
					at++
				}
				next[s] = at
				waited = waited || (len(expect) > 1 && len(inPool) > 1)
			}

			before := len(p.seen)
			var hash common.Hash
			err := n.ask(&hash, "eth_sendRawTransaction", hexutil.Bytes(tx.raw))
			c.Logf("submit sender=%d nonce=%d: %v", s, nonce, err)
			switch {
			case low:
				c.Label("too low")
				if err == nil || !strings.Contains(err.Error(), "nonce too low") {
					fail("nonce %d of sender %d is below the next one %d: %v", nonce, s, next[s], err)
				}
			case failed != (err != nil):
				fail("nonce %d of sender %d: %v, refused %v", nonce, s, err, failed)
			case err == nil && hash != tx.Hash():
				fail("hash %v, expected %v", hash, tx.Hash())
			case err != nil:
				c.Label("refused")
			case len(expect) == 0:
				c.Label("queued")
			default:
				c.Label(fmt.Sprintf("broadcasts %d", len(expect)))
			}
			got := p.seen[before:]
			if len(got) != len(expect) {
				fail("%d broadcasts after nonce %d of sender %d, expected %d", len(got), nonce, s, len(expect))
			}
			for i, b := range got {
				if h := ethHash(app, b); h != expect[i].Hash() {
					fail("broadcast %v, expected %v with nonce %d", h, expect[i].Hash(), expect[i].Nonce())
				}
			}
		}

		block := func() {
			most := len(p.contents)
			take := rapid.IntRange(0, most).Draw(rt, "included")
			txs, rest := p.contents[:take], p.contents[take:]
			res := kit.Block(app, txs)
			for i, r := range res.TxResults {
				if r.Code != 0 {
					fail("%d of the block failed: %s", i, kit.Result(r))
				}
			}
			p.contents, inPool = slices.Clone(rest), inPool[take:]
			for _, tx := range rest {
				if r := must2(app.CheckTx(&abci.RequestCheckTx{Tx: tx, Type: abci.CheckTxType_Recheck})); r.Code != 0 {
					fail("a transaction of the mempool is refused after a block: %s", r.Log)
				}
			}
			c.Logf("block with %d of %d", take, most)
		}

		check := func() {
			pending, queued := map[string]map[string]*submitted{}, map[string]map[string]*submitted{}
			numQueued := 0
			put := func(m map[string]map[string]*submitted, tx *submitted) {
				a := kit.Addr(tx.sender).Hex()
				if m[a] == nil {
					m[a] = map[string]*submitted{}
				}
				m[a][fmt.Sprint(tx.Nonce())] = tx
			}
			for i := range queue {
				for _, tx := range queue[i] {
					put(queued, tx)
					numQueued++
				}
				var count hexutil.Uint64
				must(n.ask(&count, "eth_getTransactionCount", kit.Addr(i), "pending"))
				if uint64(count) != next[i] {
					fail("pending nonce %d of sender %d, expected %d", count, i, next[i])
				}
			}
			for _, tx := range inPool {
				put(pending, tx)
			}
			compare := func(what string, got map[string]map[string]any, want map[string]map[string]*submitted, ok func(any, *submitted) bool) {
				if len(got) != len(want) {
					fail("%s: %d senders, expected %d", what, len(got), len(want))
				}
				for a, m := range want {
					if len(got[a]) != len(m) {
						fail("%s: %d transactions of %s, expected %d", what, len(got[a]), a, len(m))
					}
					for nonce, tx := range m {
						if !ok(got[a][nonce], tx) {
							fail("%s: %v with nonce %s of %s, expected %v", what, got[a][nonce], nonce, a, tx.Hash())
						}
					}
				}
			}
			hash := func(got any, tx *submitted) bool {
				m, ok := got.(map[string]any)
				return ok && m["hash"] == tx.Hash().Hex() && m["blockHash"] == nil && strings.EqualFold(fmt.Sprint(m["from"]), kit.Addr(tx.sender).Hex())
			}
			line := func(got any, tx *submitted) bool {
				return got == fmt.Sprintf("%s: %v wei + %v gas × %v wei", tx.To().Hex(), (*hexutil.Big)(tx.Value()), hexutil.Uint64(tx.Gas()), (*hexutil.Big)(tx.GasPrice()))
			}
			if len(inPool) <= 100 {
				var content map[string]map[string]map[string]any
				must(n.ask(&content, "txpool_content"))
				compare("pending", content["pending"], pending, hash)
				compare("queued", content["queued"], queued, hash)
				content = nil
				must(n.ask(&content, "txpool_inspect"))
				compare("inspected pending", content["pending"], pending, line)
				compare("inspected queued", content["queued"], queued, line)
				from := kit.Addr(rapid.IntRange(0, senders).Draw(rt, "from"))
				var of map[string]map[string]any
				must(n.ask(&of, "txpool_contentFrom", from))
				one := func(m map[string]map[string]*submitted) map[string]map[string]*submitted {
					out := map[string]map[string]*submitted{"": {}}
					if m[from.Hex()] != nil {
						out[""] = m[from.Hex()]
					}
					return out
				}
				compare("pending of one", map[string]map[string]any{"": of["pending"]}, one(pending), hash)
				compare("queued of one", map[string]map[string]any{"": of["queued"]}, one(queued), hash)
			}
			var status map[string]hexutil.Uint
			must(n.ask(&status, "txpool_status"))
			if int(status["pending"]) != len(inPool) || int(status["queued"]) != numQueued {
				fail("status %v, expected %d pending and %d queued", status, len(inPool), numQueued)
			}
		}

		for i := rapid.IntRange(10, 50).Draw(rt, "steps"); i > 0; i-- {
			switch rapid.IntRange(0, 11).Draw(rt, "step") {
			case 0:
				block()
			case 1:
				check()
			default:
				submit()
			}
		}
		check()
		// everything which waits reaches the mempool once the gaps are filled
		faults = nil
		for s := range queue {
			for len(queue[s]) > 0 {
				tx := kit.SignEth(s, &types.LegacyTx{Nonce: next[s], GasPrice: new(big.Int), Gas: 300_000, To: &common.Address{1}, Value: new(big.Int)})
				if b := queue[s][next[s]]; b != nil {
					tx = b.Transaction
				}
				before := len(p.seen)
				_ = n.ask(nil, "eth_sendRawTransaction", hexutil.Bytes(must2(tx.MarshalBinary())))
				for i, b := range p.seen[before:] {
					h := ethHash(app, b)
					want := tx.Hash()
					if q := queue[s][next[s]]; q != nil {
						want = q.Hash()
					} else if i > 0 {
						fail("%v was broadcasted with nonce %d of sender %d, nothing waits", h, next[s], s)
					}
					if h != want {
						fail("%v was broadcasted with nonce %d of sender %d, expected %v", h, next[s], s, want)
					}
					refused := queue[s][next[s]] != nil && queue[s][next[s]].refused
					delete(queue[s], next[s])
					if refused {
						break
					}
					next[s]++
				}
				if len(p.seen) == before {
					fail("nonce %d of sender %d was not broadcasted", next[s], s)
				}
				if queue[s][next[s]] != nil && !queue[s][next[s]].refused {
					fail("nonce %d of sender %d waits", next[s], s)
				}
			}
		}
		c.NonTrivialIf(waited)
	})
}

// TestConcurrentSubmissions: the same for clients submitting at once.
func TestConcurrentSubmissions(t *testing.T) {
	kit.Run(t, "several clients submitted the transactions of one sender", func(rt *rapid.T, c *kit.Case) {
		o := options()
		o.NumKeys = senders
		app := kit.NewApp(o)
		n := start(app, func(cfg *config.JSONRPCConfig) { cfg.QueuedTransactionCap = 10_000 })
		defer n.stop()
		p := &pool{app: app, fault: func() outcome { return reaches }}
		seed := rapid.Int64().Draw(rt, "seed")
		// broadcasts take different times
		var mut sync.Mutex
		pauses := rand.New(rand.NewSource(seed))
		slow := rapid.SampledFrom([]int{0, 1, 300, 1000}).Draw(rt, "slow")
		p.pause = func() {
			if slow > 0 {
				mut.Lock()
				d := pauses.Intn(slow)
				mut.Unlock()
				time.Sleep(time.Duration(d) * time.Microsecond)
			}
		}
		n.comet.broadcast = p.broadcast

		// every client gets some of the transactions, in some order
		clients := make([][]*submitted, rapid.IntRange(2, 12).Draw(rt, "clients"))
		all := map[common.Hash]*submitted{}
		var count [senders]int
		many := rapid.IntRange(1, senders).Draw(rt, "senders")
		for s := 0; s < many; s++ {
			count[s] = rapid.IntRange(1, 12).Draw(rt, "count")
			for i := 0; i < count[s]; i++ {
				tx := kit.SignEth(s, &types.DynamicFeeTx{ChainID: kit.EthChainID(), Nonce: uint64(i), GasTipCap: big.NewInt(0), GasFeeCap: big.NewInt(0), Gas: 300_000, To: &common.Address{1}, Value: big.NewInt(int64(i))})
				x := &submitted{Transaction: tx, raw: must2(tx.MarshalBinary()), sender: s}
				all[tx.Hash()] = x
				k := rapid.IntRange(0, len(clients)-1).Draw(rt, "client")
				clients[k] = append(clients[k], x)
				// a client may repeat another one's
				if rapid.IntRange(0, 5).Draw(rt, "repeat") == 0 {
					k := rapid.IntRange(0, len(clients)-1).Draw(rt, "client")
					clients[k] = append(clients[k], x)
				}
			}
		}
		for i := range clients {
			r := rand.New(rand.NewSource(seed + int64(i)))
			r.Shuffle(len(clients[i]), func(a, b int) { clients[i][a], clients[i][b] = clients[i][b], clients[i][a] })
			for _, x := range clients[i] {
				c.Logf("client %d: sender %d nonce %d", i, x.sender, x.Nonce())
			}
		}
		var wg sync.WaitGroup
		begin := make(chan struct{})
		errs := make(chan error, 1000)
		for _, list := range clients {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				for _, x := range list {
					// the first submission of each has to be accepted
					err := n.Backend.SendTx(x.Transaction)
					if err != nil && !strings.Contains(err.Error(), "nonce too low") {
						errs <- fmt.Errorf("nonce %d of sender %d: %w", x.Nonce(), x.sender, err)
					}
				}
			}()
		}
		close(begin)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(100 * time.Second):
			rt.Fatal("the submissions do not end")
		}
		select {
		case err := <-errs:
			rt.Fatal(err)
		default:
		}
		var next [senders]uint64
		for _, b := range p.seen {
			x := all[ethHash(app, b)]
			if x == nil {
				rt.Fatal("an unknown transaction was broadcasted")
			}
			if x.Nonce() != next[x.sender] {
				rt.Fatalf("nonce %d of sender %d was broadcasted, expected %d", x.Nonce(), x.sender, next[x.sender])
			}
			next[x.sender]++
		}
		for s := 0; s < many; s++ {
			if next[s] != uint64(count[s]) {
				rt.Fatalf("%d of the %d transactions of sender %d were broadcasted", next[s], count[s], s)
			}
			if count[s] > 1 {
				c.NonTrivial()
			}
		}
		var status map[string]hexutil.Uint
		must(n.ask(&status, "txpool_status"))
		if status["queued"] != 0 {
			rt.Fatalf("%d transactions wait", status["queued"])
		}
	})
}
