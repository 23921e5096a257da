package rpcs

import (
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	ethtypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/rpc"
	"pgregory.net/rapid"

	"github.com/initia-labs/minievm/jsonrpc/config"

	"github.com/initia-labs/minievm/verifh/blocks"
	"github.com/initia-labs/minievm/verifh/history"
	"github.com/initia-labs/minievm/verifh/kit"
)

// criteria of logs.
type criteria struct {
	addresses []common.Address
	topics    [][]common.Hash // an empty one matches anything
	arg       map[string]any
}

func drawCriteria(rt *rapid.T, e *blocks.Chain, execs []common.Address) criteria {
	cr := criteria{arg: map[string]any{}}
	var logs []*ethtypes.Log
	for _, b := range e.Blocks {
		logs = append(logs, b.Logs()...)
	}
	addresses := append([]common.Address{common.HexToAddress("0xdead")}, execs...)
	topics := []common.Hash{{31: 1}, {31: 2}, {31: 3}, {31: 7}, {}, {31: 99}}
	for _, l := range logs {
		addresses = append(addresses, l.Address)
		topics = append(topics, l.Topics...)
	}
	if rapid.IntRange(0, 2).Draw(rt, "by address") > 0 {
		cr.addresses = rapid.SliceOfN(rapid.SampledFrom(addresses), 1, 3).Draw(rt, "addresses")
		cr.arg["address"] = cr.addresses
		if len(cr.addresses) == 1 && rapid.Bool().Draw(rt, "single") {
			cr.arg["address"] = cr.addresses[0]
		}
	} else if rapid.IntRange(0, 3).Draw(rt, "none") == 0 {
		cr.arg["address"] = []string{}
	}
	if n := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 4}).Draw(rt, "positions"); n > 0 {
		var like *ethtypes.Log
		if len(logs) > 0 && rapid.Bool().Draw(rt, "like") {
			like = rapid.SampledFrom(logs).Draw(rt, "log")
		}
		var arg []any
		for i := 0; i < n; i++ {
			var of []common.Hash
			k := rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(rt, "alternatives")
			for j := 0; j < k; j++ {
				if like != nil && j == 0 && i < len(like.Topics) {
					of = append(of, like.Topics[i])
				} else {
					of = append(of, rapid.SampledFrom(topics).Draw(rt, "topic"))
				}
			}
			if len(of) > 1 && rapid.Bool().Draw(rt, "reversed") {
				slices.Reverse(of)
			}
			switch {
			case k == 0:
				arg = append(arg, rapid.SampledFrom([]any{nil, []string{}}).Draw(rt, "any"))
			case k == 1 && rapid.Bool().Draw(rt, "single topic"):
				arg = append(arg, of[0])
			case rapid.IntRange(0, 9).Draw(rt, "null inside") == 0:
				arg = append(arg, []any{of[0], nil})
				of = nil
			default:
				arg = append(arg, of)
			}
			cr.topics = append(cr.topics, of)
		}
		cr.arg["topics"] = arg
	} else if rapid.IntRange(0, 3).Draw(rt, "empty") == 0 {
		cr.arg["topics"] = []any{}
	}
	return cr
}

// matches by Ethereum's rules.
func (cr *criteria) matches(l *ethtypes.Log) bool {
	if len(cr.addresses) > 0 && !slices.Contains(cr.addresses, l.Address) {
		return false
	}
	if len(l.Topics) < len(cr.topics) {
		return false
	}
	for i, of := range cr.topics {
		if len(of) > 0 && !slices.Contains(of, l.Topics[i]) {
			return false
		}
	}
	return true
}

// logs of blocks from..to.
func (cr *criteria) logs(e *blocks.Chain, from, to uint64) []*ethtypes.Log {
	out := []*ethtypes.Log{}
	for h := from; h <= to; h++ {
		b := e.At(h)
		if b == nil {
			continue
		}
		for _, l := range b.Logs() {
			if cr.matches(l) {
				out = append(out, l)
			}
		}
	}
	return out
}

// drawRange adds a range of blocks; ok is false when it is reversed or not there yet.
func (cr *criteria) drawRange(rt *rapid.T, e *blocks.Chain) (from, to uint64, ok bool) {
	head := uint64(len(e.Blocks))
	one := func(name string) uint64 {
		switch rapid.IntRange(0, 7).Draw(rt, name) {
		case 0:
			return head
		case 1:
			cr.arg[name] = rapid.SampledFrom([]string{"latest", "safe", "finalized", "pending"}).Draw(rt, "tag")
			return head
		case 2:
			cr.arg[name] = "earliest"
			return 1
		case 3:
			n := head + rapid.Uint64Range(1, 3).Draw(rt, "later")
			cr.arg[name] = hexutil.Uint64(n)
			return n
		default:
			n := rapid.Uint64Range(1, head).Draw(rt, "block")
			cr.arg[name] = hexutil.Uint64(n)
			return n
		}
	}
	from, to = one("fromBlock"), one("toBlock")
	return from, to, from <= to && from <= head
}

func same2(got json.RawMessage, logs []*ethtypes.Log) error {
	if logs == nil {
		logs = []*ethtypes.Log{}
	}
	return same(got, logs)
}

// noLogs is the answer for a range without blocks.
func noLogs(got json.RawMessage, err error) error {
	if err == nil && string(got) != "[]" && string(got) != "null" {
		return fmt.Errorf("%s, expected none", got)
	}
	return nil
}

// getLogs asks for logs.
func (q *asker) getLogs(matched *int) {
	rt := q.rt
	cr := drawCriteria(rt, q.e, q.execs)
	switch rapid.IntRange(0, 4).Draw(rt, "log question") {
	case 0:
		b := rapid.SampledFrom(q.e.Blocks).Draw(rt, "block")
		h := b.Header.Number.Uint64()
		cr.arg["blockHash"] = b.Header.Hash()
		want := cr.logs(q.e, h, h)
		*matched += len(want)
		q.ask(sound(func(got json.RawMessage) error { return same2(got, want) }), "eth_getLogs", cr.arg)
		if rapid.IntRange(0, 4).Draw(rt, "unknown block") == 0 {
			cr.arg["blockHash"] = common.Hash{31: byte(rapid.IntRange(0, 1).Draw(rt, "zero"))}
			q.ask(noLogs, "eth_getLogs", cr.arg)
		}
	case 1:
		if rapid.IntRange(0, 3).Draw(rt, "many topics") == 0 {
			cr.arg["topics"] = []any{nil, nil, nil, nil, nil}
			q.ask(func(got json.RawMessage, err error) error {
				if err == nil {
					return noLogs(got, err) // (no log has 5 topics)
				}
				return nil
			}, "eth_getLogs", cr.arg)
			return
		}
		fallthrough
	default:
		from, to, ok := cr.drawRange(rt, q.e)
		if !ok {
			q.ask(noLogs, "eth_getLogs", cr.arg)
			return
		}
		want := cr.logs(q.e, from, to)
		*matched += len(want)
		q.ask(sound(func(got json.RawMessage) error { return same2(got, want) }), "eth_getLogs", cr.arg)
	}
}

// watch is an installed filter or a subscription.
type watch struct {
	kind string // logs, blocks, pending, full
	cr   criteria
	from uint64 // range of blocks
	to   uint64
	id   string
	// of a subscription
	sub  *rpc.ClientSubscription
	ch   chan json.RawMessage
	want []any // not delivered yet
	all  int
}

func (w *watch) String() string {
	how := "filter"
	if w.sub != nil {
		how = "subscription"
	}
	return fmt.Sprintf("%s %s %s [%d,%d] %s", how, w.id, w.kind, w.from, w.to, text(w.cr.arg))
}

// pendingFields are compared for a pending transaction.
func pendingFields(tx *ethtypes.Transaction, from common.Address) map[string]any {
	return map[string]any{"hash": tx.Hash(), "from": from, "nonce": hexutil.Uint64(tx.Nonce()), "to": tx.To(), "value": (*hexutil.Big)(tx.Value()),
		"input": hexutil.Bytes(tx.Data()), "gas": hexutil.Uint64(tx.Gas()), "blockHash": nil, "blockNumber": nil, "transactionIndex": nil}
}

var pendingNames = []string{"hash", "from", "nonce", "to", "value", "input", "gas", "blockHash", "blockNumber", "transactionIndex"}

// install a filter or a subscription.
func (q *asker) install() *watch {
	rt := q.rt
	w := &watch{kind: rapid.SampledFrom([]string{"logs", "logs", "logs", "blocks", "pending", "full"}).Draw(rt, "watch"), to: ^uint64(0)}
	if w.kind == "logs" {
		w.cr = drawCriteria(rt, q.e, q.execs)
		head := uint64(len(q.e.Blocks))
		switch rapid.IntRange(0, 3).Draw(rt, "window") {
		case 0:
			w.cr.arg["fromBlock"], w.cr.arg["toBlock"] = "latest", "latest"
		case 1:
			w.from = rapid.Uint64Range(1, head+3).Draw(rt, "from")
			w.cr.arg["fromBlock"] = hexutil.Uint64(w.from)
			if rapid.Bool().Draw(rt, "bounded") {
				w.to = w.from + rapid.Uint64Range(0, 3).Draw(rt, "blocks")
				w.cr.arg["toBlock"] = hexutil.Uint64(w.to)
			}
		}
	}
	if rapid.IntRange(0, 2).Draw(rt, "subscription") == 0 {
		args := map[string][]any{"logs": {"logs", w.cr.arg}, "blocks": {"newHeads"}, "pending": {"newPendingTransactions"}, "full": {"newPendingTransactions", true}}[w.kind]
		w.ch = make(chan json.RawMessage, 10_000)
		ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
		defer cancel()
		sub, err := q.n.EthSubscribe(ctx, w.ch, args...)
		if err != nil {
			rt.Fatalf("%s\nsubscription %s: %v", q.c.Trace(), text(args), err)
		}
		w.sub = sub
	} else {
		var err error
		switch w.kind {
		case "logs":
			err = q.n.ask(&w.id, "eth_newFilter", w.cr.arg)
		case "blocks":
			err = q.n.ask(&w.id, "eth_newBlockFilter")
		case "pending":
			err = q.n.ask(&w.id, "eth_newPendingTransactionFilter")
		case "full":
			err = q.n.ask(&w.id, "eth_newPendingTransactionFilter", true)
		}
		if err != nil {
			rt.Fatalf("%s\n%v: %v", q.c.Trace(), w, err)
		}
	}
	q.c.Logf("  (%v)", w)
	q.c.Label(strings.Fields(w.String())[0] + " of " + w.kind)
	return w
}

func (w *watch) expect(v any) { w.want = append(w.want, v); w.all++ }

// block adds what is expected of a new block.
func (w *watch) block(b *blocks.Block) {
	switch h := b.Header.Number.Uint64(); w.kind {
	case "logs":
		if h >= w.from && h <= w.to {
			for _, l := range b.Logs() {
				if w.cr.matches(l) {
					w.expect(l)
				}
			}
		}
	case "blocks":
		if w.sub != nil {
			w.expect(map[string]any{"number": (*hexutil.Big)(b.Header.Number), "hash": b.Header.Hash(), "gasUsed": hexutil.Uint64(b.Header.GasUsed), "parentHash": b.Header.ParentHash,
				"timestamp": hexutil.Uint64(b.Header.Time), "logsBloom": b.Header.Bloom})
		} else {
			w.expect(b.Header.Hash())
		}
	}
}

// normal form of a delivered item.
func (w *watch) item(got json.RawMessage) string {
	var m map[string]any
	pick := func(names ...string) string {
		must(json.Unmarshal(got, &m))
		o := map[string]any{}
		for _, n := range names {
			o[n] = m[n]
		}
		return text(o)
	}
	switch {
	case w.kind == "full":
		return pick(pendingNames...)
	case w.kind == "blocks" && w.sub != nil:
		return pick("number", "hash", "gasUsed", "parentHash", "timestamp", "logsBloom")
	}
	return text(parsed(got))
}

// collect takes what was delivered and compares it.
func (q *asker) collect(w *watch, pollers int) {
	rt := q.rt
	var got []string
	var mu sync.Mutex
	until := time.Now().Add(15 * time.Second)
	for {
		if w.sub != nil {
			for more := true; more; {
				select {
				case v := <-w.ch:
					got = append(got, w.item(v))
				default:
					more = false
				}
			}
		} else {
			var wg sync.WaitGroup
			var failed error
			for i := 0; i < pollers; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					var list []json.RawMessage
					err := q.n.ask(&list, "eth_getFilterChanges", w.id)
					mu.Lock()
					defer mu.Unlock()
					if err != nil {
						failed = err
						return
					}
					for _, v := range list {
						got = append(got, w.item(v))
					}
				}()
			}
			wg.Wait()
			if failed != nil {
				rt.Fatalf("%s\npoll of %v: %v", q.c.Trace(), w, failed)
			}
		}
		if len(got) >= len(w.want) || time.Now().After(until) {
			break
		}
		time.Sleep(time.Millisecond)
	}
	var want []string
	for _, v := range w.want {
		want = append(want, text(parsed(v)))
	}
	if pollers > 1 { // (the order among the pollers is not known)
		sort.Strings(got)
		sort.Strings(want)
	}
	w.want = nil
	if !slices.Equal(got, want) {
		rt.Fatalf("%s\n%v delivers %d items:\n%s\nexpected %d:\n%s", q.c.Trace(), w, len(got), strings.Join(got, "\n"), len(want), strings.Join(want, "\n"))
	}
}

// remove a watch.
func (q *asker) remove(w *watch) {
	rt := q.rt
	q.c.Logf("  (remove %v)", w)
	if w.sub != nil {
		w.sub.Unsubscribe()
		return
	}
	q.ask(exact(true), "eth_uninstallFilter", w.id)
	q.ask(func(got json.RawMessage, err error) error {
		if err == nil && string(got) != "[]" && string(got) != "null" {
			return fmt.Errorf("%s after its removal", got)
		}
		return nil
	}, "eth_getFilterChanges", w.id)
	if rapid.Bool().Draw(rt, "again") {
		q.ask(exact(false), "eth_uninstallFilter", w.id)
	}
}

// logs is code which emits some.
func logs(rt *rapid.T) []byte {
	a := kit.NewAsm()
	for i := rapid.IntRange(0, 4).Draw(rt, "logs"); i > 0; i-- {
		n := rapid.IntRange(0, 4).Draw(rt, "topics")
		for j := 0; j < n; j++ {
			a.Push(rapid.SampledFrom([]uint64{0, 1, 2, 3, 7}).Draw(rt, "topic"))
		}
		a.Push(uint64(rapid.IntRange(0, 40).Draw(rt, "size"))).Push(0).Op(vm.LOG0 + vm.OpCode(n))
	}
	if rapid.IntRange(0, 9).Draw(rt, "revert") == 0 {
		return a.Push(0).Push(0).Op(vm.REVERT).Bytes()
	}
	return a.Op(vm.STOP).Bytes()
}

// TestFilters: log queries, filters and subscriptions give exactly the matching items.
func TestFilters(t *testing.T) {
	kit.Run(t, "log queries matched at least 3 logs, or filters and subscriptions delivered at least 3 items", func(rt *rapid.T, c *kit.Case) {
		app := kit.NewApp(options())
		n := start(app, nil)
		defer n.stop()
		h := history.New(c)
		e := blocks.New(app)
		q := &asker{rt: rt, c: c, n: n, e: e, execs: h.Execs}
		// new heads tell when all was emitted
		heads := make(chan *ethtypes.Header, 1000)
		clock, err := n.EthSubscribe(context.Background(), heads, "newHeads")
		if err != nil {
			rt.Fatalf("subscription: %v", err)
		}
		defer clock.Unsubscribe()
		var watches []*watch
		matched, delivered := 0, 0
		for i, nb := 0, rapid.IntRange(2, 7).Draw(rt, "blocks"); i < nb; i++ {
			txs := h.Setup(app)
			if i > 0 {
				logger := func() ethtypes.TxData {
					to := rapid.SampledFrom(h.Execs).Draw(rt, "logger")
					return &ethtypes.LegacyTx{GasPrice: new(big.Int), Gas: 2_000_000, To: &to, Data: kit.InitCode(nil, logs(rt))}
				}
				txs = mixed(rt, h.Draw(rt, app, 5), own(rt, app, 3, logger))
			}
			if i > 0 && rapid.IntRange(0, 2).Draw(rt, "through the mempool") > 0 {
				ctx := kit.Ctx(app)
				next := map[common.Address]uint64{}
				for _, tx := range txs {
					if tx.Kind == "replay" {
						continue // (an old transaction which is valid again is pending again)
					}
					res, err := app.CheckTx(&abci.RequestCheckTx{Tx: tx.Bytes, Type: abci.CheckTxType_New})
					if err == nil {
						c.Logf("  check %s key%d: code=%d %.80s", tx.Kind, tx.Key, res.Code, res.Log)
					}
					if err != nil || res.Code != 0 || tx.Eth == nil {
						if err == nil && res.Code == 0 {
							next[kit.Addr(tx.Key)]++
						}
						continue
					}
					from := must2(ethtypes.Sender(kit.Signer(), tx.Eth))
					next[from]++
					for _, w := range watches {
						switch w.kind {
						case "pending":
							w.expect(tx.Eth.Hash())
						case "full":
							w.expect(pendingFields(tx.Eth, from))
						}
					}
				}
				for i := 0; i < history.NumKeys; i++ {
					q.ask(exact(hexutil.Uint64(kit.Seq(app, ctx, kit.Acc(i))+next[kit.Addr(i)])), "eth_getTransactionCount", kit.Addr(i), "pending")
				}
			}
			res := kit.Block(app, history.Bytes(txs))
			h.Record(txs, res)
			b := e.Add(app, txs, res)
			for limit := time.After(30 * time.Second); ; {
				var head *ethtypes.Header
				select {
				case head = <-heads:
				case err := <-clock.Err():
					rt.Fatalf("%s\nsubscription: %v", c.Trace(), err)
				case <-limit:
					rt.Fatalf("%s\nblock %d is not announced", c.Trace(), b.Header.Number)
				}
				if head.Number.Cmp(b.Header.Number) == 0 {
					break
				}
				// the node was started with an empty block
				if head.Number.Cmp(big.NewInt(1)) != 0 {
					rt.Fatalf("%s\nblock %d is announced instead of %d", c.Trace(), head.Number, b.Header.Number)
				}
			}
			for _, w := range watches {
				w.block(b)
			}
			for j := rapid.IntRange(0, 6).Draw(rt, "queries"); j > 0; j-- {
				q.getLogs(&matched)
			}
			for j := 0; j < len(watches); j++ {
				w := watches[j]
				action := rapid.IntRange(0, 9).Draw(rt, "look at it")
				if action < 5 || i == nb-1 {
					q.collect(w, rapid.SampledFrom([]int{1, 1, 1, 3}).Draw(rt, "pollers"))
				}
				if action == 9 && w.kind == "logs" && w.sub == nil {
					from, to := w.from, w.to
					if from == 0 {
						from, to = uint64(len(e.Blocks)), uint64(len(e.Blocks))
					} else if to > uint64(len(e.Blocks)) {
						to = uint64(len(e.Blocks)) // (no upper bound: up to the latest)
					}
					want := w.cr.logs(e, from, to)
					q.ask(func(got json.RawMessage, err error) error {
						if err != nil && from > to {
							return nil
						}
						return sound(func(got json.RawMessage) error { return same2(got, want) })(got, err)
					}, "eth_getFilterLogs", w.id)
				}
				if action == 8 {
					q.collect(w, 1)
					delivered += w.all
					q.remove(w)
					watches = slices.Delete(watches, j, j+1)
					j--
				}
			}
			if i < nb-1 {
				for j := rapid.IntRange(0, 2).Draw(rt, "new watches"); j > 0; j-- {
					watches = append(watches, q.install())
				}
			}
		}
		for j := 0; j < 12; j++ {
			q.getLogs(&matched)
		}
		for _, w := range watches {
			delivered += w.all
		}
		c.NonTrivialIf(matched >= 3 || delivered >= 3)
	})
}

// TestFilterLifetime: a filter in use stays installed.
func TestFilterLifetime(t *testing.T) {
	kit.Run(t, "a filter was polled before the time limit", func(rt *rapid.T, c *kit.Case) {
		app := kit.NewApp(options())
		timeout := time.Duration(rapid.IntRange(60, 200).Draw(rt, "timeout")) * time.Millisecond
		n := start(app, func(cfg *config.JSONRPCConfig) { cfg.FilterTimeout = timeout })
		defer n.stop()
		time.Sleep(timeout * time.Duration(rapid.IntRange(0, 100).Draw(rt, "phase")) / 100)
		type f struct {
			id, kind string
			used     time.Time
		}
		var all []*f
		for i := rapid.IntRange(1, 4).Draw(rt, "filters"); i > 0; i-- {
			w := &f{used: time.Now(), kind: rapid.SampledFrom([]string{"eth_newFilter", "eth_newBlockFilter", "eth_newPendingTransactionFilter"}).Draw(rt, "kind")}
			args := []any{}
			if w.kind == "eth_newFilter" {
				args = append(args, map[string]any{})
			}
			if err := n.ask(&w.id, w.kind, args...); err != nil {
				rt.Fatalf("%s: %v", w.kind, err)
			}
			all = append(all, w)
		}
		for i := rapid.IntRange(1, 4).Draw(rt, "polls"); i > 0; i-- {
			time.Sleep(timeout * time.Duration(rapid.IntRange(10, 90).Draw(rt, "wait")) / 100)
			for _, w := range all {
				if w.id == "" {
					continue
				}
				at := time.Now()
				var got json.RawMessage
				err := n.ask(&got, "eth_getFilterChanges", w.id)
				gap := time.Since(w.used)
				c.Logf("  %s after %v of %v: %s %v", w.kind, gap, timeout, got, err)
				if gap >= timeout {
					w.id = "" // it may have expired
					continue
				}
				if err != nil {
					rt.Fatalf("a filter is gone after %v (time limit %v): %v\n%s", gap, timeout, err, c.Trace())
				}
				c.NonTrivial()
				w.used = at
			}
		}
	})
}
