package precompile

import (
	"fmt"
	"math/big"
	"slices"
	"strings"
	"testing"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/params"
	"github.com/holiman/uint256"
	"pgregory.net/rapid"

	minievmapp "github.com/initia-labs/minievm/app"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifh/kit"
)

const nForwarders = 4

// the contracts of the chain of TestFrameEffects.
var (
	fwds   [nForwarders]common.Address
	listAt common.Address
	shared = &kit.Shared{Opts: kit.Options{NumKeys: 3, MaxGas: 1 << 60}, Setup: func(app *minievmapp.MinitiaApp, ctx sdk.Context) {
		create := func(runtime []byte) common.Address {
			_, a, _, err := app.EVMKeeper.EVMCreate(ctx, kit.Addr(0), kit.InitCode(nil, runtime), uint256.NewInt(0), nil)
			must(err)
			return a
		}
		for i := range fwds {
			fwds[i] = create(kit.ForwarderGas())
			must(app.BankKeeper.SendCoins(ctx, kit.Acc(0), acc(fwds[i]), sdk.NewCoins(sdk.NewInt64Coin(kit.FeeDenom, 1_000_000))))
		}
		listAt = create(appender())
	}}
)

func sink(i int) common.Address { return common.BigToAddress(big.NewInt(int64(0x51a000 + i))) }

const nSinks = 3

// node is a step of a frame.
type node struct {
	kind string // frame, create, append, exec, register, store, revert, invalid
	mode byte   // of a frame or of the call of a leaf
	f    int    // the forwarder of a frame
	sub  []*node
	n    uint64 // of append; amount of send
	sink int
	msg  string // of exec: append, send, failAppend, failSend, foreign, nested, many
	gas  bool   // too little gas for the leaf
	rep  int    // how often an exec is requested
}

var modeName = map[byte]string{kit.FwdCall: "call!", kit.FwdTry: "call", kit.FwdStatic: "static", kit.FwdDelegate: "delegate", kit.FwdCallCode: "callcode"}

func (d *node) String() string {
	starved := ""
	if d.gas {
		starved = " starved"
	}
	switch d.kind {
	case "frame", "create":
		s := fmt.Sprintf("%s %s F%d {\n", d.kind, modeName[d.mode], d.f)
		for _, c := range d.sub {
			s += indent(c.String()) + "\n"
		}
		return s + "}"
	case "append":
		return fmt.Sprintf("append %d by %s", d.n, modeName[d.mode])
	case "exec":
		s := fmt.Sprintf("execute %dx %s %d sink%d by %s%s", d.rep, d.msg, d.n, d.sink, modeName[d.mode], starved)
		if d.msg == "nested" {
			s += fmt.Sprintf(" F%d {\n", d.f)
			for _, c := range d.sub {
				s += indent(c.String()) + "\n"
			}
			s += "}"
		}
		return s
	case "register", "store":
		return fmt.Sprintf("%s sink%d by %s%s", d.kind, d.sink, modeName[d.mode], starved)
	}
	return d.kind
}

// gen draws the steps of a frame.
type gen struct {
	app    *minievmapp.MinitiaApp
	rt     *rapid.T
	budget int
	n      uint64
	create int // (each multiplies the gas needed)
}

func (g *gen) steps(depth int) []*node {
	var out []*node
	k := rapid.IntRange(1, 4).Draw(g.rt, "steps")
	for i := 0; i < k && g.budget > 0; i++ {
		g.budget--
		out = append(out, g.step(depth))
		if last := out[len(out)-1]; last.kind == "revert" || last.kind == "invalid" {
			break
		}
	}
	return out
}

func (g *gen) leafMode() byte {
	return rapid.SampledFrom([]byte{kit.FwdTry, kit.FwdTry, kit.FwdTry, kit.FwdTry, kit.FwdCall, kit.FwdStatic, kit.FwdDelegate, kit.FwdCallCode}).Draw(g.rt, "leafmode")
}

func (g *gen) step(depth int) *node {
	kinds := []string{"append", "exec", "exec", "exec", "exec", "register", "store", "store", "revert", "invalid"}
	if depth < 4 {
		kinds = append(kinds, "frame", "frame", "frame", "frame", "frame")
		if g.create < 3 {
			kinds = append(kinds, "create")
		}
	}
	d := &node{kind: rapid.SampledFrom(kinds).Draw(g.rt, "kind")}
	g.n++
	d.n = g.n
	switch d.kind {
	case "frame":
		d.mode = rapid.SampledFrom([]byte{kit.FwdTry, kit.FwdTry, kit.FwdTry, kit.FwdCall, kit.FwdStatic, kit.FwdDelegate, kit.FwdCallCode}).Draw(g.rt, "mode")
		d.f = rapid.IntRange(0, nForwarders-1).Draw(g.rt, "f")
		d.sub = g.steps(depth + 1)
	case "create":
		g.create++
		d.mode = rapid.SampledFrom([]byte{kit.FwdTry, kit.FwdRevert, kit.FwdInvalid}).Draw(g.rt, "constructor")
		d.f = rapid.IntRange(0, nForwarders-1).Draw(g.rt, "f")
		d.sub = g.steps(depth + 1)
		if data, _ := compile(g.app, d.sub, d.f); len(data) > params.MaxInitCodeSize-1000 {
			d.sub = []*node{{kind: "append", mode: kit.FwdTry, n: d.n}}
		}
	case "append":
		d.mode = rapid.SampledFrom([]byte{kit.FwdTry, kit.FwdCall}).Draw(g.rt, "mode")
	case "exec":
		d.mode = g.leafMode()
		msgs := []string{"append", "append", "append", "append", "send", "send", "send", "foreign"}
		if depth < 4 {
			msgs = append(msgs, "nested", "nested")
		}
		if rapid.IntRange(0, 11).Draw(g.rt, "bad") == 0 {
			msgs = []string{"failAppend", "failSend"}
		}
		d.msg = rapid.SampledFrom(msgs).Draw(g.rt, "msg")
		d.sink = rapid.IntRange(0, nSinks-1).Draw(g.rt, "sink")
		if d.msg == "nested" {
			d.f = rapid.IntRange(0, nForwarders-1).Draw(g.rt, "f")
			d.sub = g.steps(depth + 1)
		}
		d.rep = 1
		if d.msg == "append" || d.msg == "send" {
			d.rep = rapid.SampledFrom([]int{1, 1, 1, 1, 1, 2, 3, 20}).Draw(g.rt, "repeat")
		}
		d.gas = rapid.IntRange(0, 9).Draw(g.rt, "starved") == 0
	case "register", "store":
		d.mode = g.leafMode()
		d.sink = rapid.IntRange(0, nSinks-1).Draw(g.rt, "sink")
		d.gas = rapid.IntRange(0, 9).Draw(g.rt, "starved") == 0
	}
	return d
}

const leafGas = 400_000

// compile gives the program of the steps for the identity self, and the gas it needs at most.
func compile(app *minievmapp.MinitiaApp, steps []*node, self int) ([]byte, uint64) {
	var items []kit.FwdItem
	type need struct{ times, plus uint64 }
	var needs []need
	for _, d := range steps {
		var total uint64
		times := uint64(1)
		leaf := func(to common.Address, data []byte) {
			it := kit.FwdItem{Mode: d.mode, To: to, Data: data, Gas: leafGas}
			if d.gas {
				it.Gas = 50
			}
			items = append(items, it)
			total += leafGas + uint64(len(data))*100
		}
		switch d.kind {
		case "frame":
			id := d.f
			if d.mode == kit.FwdDelegate || d.mode == kit.FwdCallCode {
				id = self
			}
			data, g := compile(app, d.sub, id)
			items = append(items, kit.FwdItem{Mode: d.mode, To: fwds[d.f], Data: data, Gas: g})
			total += g + g/32 + uint64(len(data))*100 // (a frame keeps a 64th)
		case "create":
			data, g := compile(app, d.sub, d.f)
			init := constructor(d.mode, fwds[d.f], data, g)
			items = append(items, kit.FwdItem{Mode: kit.FwdCreate, Data: init})
			// (a constructor gets all but a 64th of the remaining gas and can burn it)
			total, times = (g+uint64(len(init))*200+200_000)*70, 70
		case "append":
			items = append(items, kit.FwdItem{Mode: d.mode, To: listAt, Data: word(d.n), Gas: leafGas})
			total += leafGas
		case "exec":
			for data, i := execute(app, message(app, d, self)), 0; i < d.rep; i++ {
				leaf(cosmosAddr, data)
			}
		case "register":
			leaf(registryAddr, pack(registryABI, "register_erc20"))
		case "store":
			leaf(registryAddr, pack(registryABI, "register_erc20_store", sink(d.sink)))
		case "revert":
			items = append(items, kit.FwdItem{Mode: kit.FwdRevert})
		case "invalid":
			items = append(items, kit.FwdItem{Mode: kit.FwdInvalid})
		}
		needs = append(needs, need{times, total})
	}
	data := kit.FwdGasProgram(items...)
	total := uint64(50_000)
	slices.Reverse(needs) // what is left after a step has to do for the others
	for _, n := range needs {
		total = total*n.times + n.plus
	}
	return data, total + uint64(len(data))*30
}

// constructor calls to with data, fails when that failed, and then succeeds, reverts or aborts.
func constructor(end byte, to common.Address, data []byte, gas uint64) []byte {
	a := kit.NewAsm()
	h := a.Data(data)
	ok := a.Label()
	a.Push(uint64(len(data))).PushData(h).Push(0).Op(vm.CODECOPY)
	a.Push(0).Push(0).Push(uint64(len(data))).Push(0).Push(0).PushAddr(to).Push(gas).Op(vm.CALL)
	a.PushLabel(ok).Op(vm.JUMPI).Push(0).Push(0).Op(vm.REVERT)
	a.Mark(ok)
	switch end {
	case kit.FwdRevert:
		a.Push(0).Push(0).Op(vm.REVERT)
	case kit.FwdInvalid:
		a.Op(vm.INVALID)
	default:
		a.Push(1).Push(0).Op(vm.RETURN) // one STOP
	}
	return a.Bytes()
}

func message(app *minievmapp.MinitiaApp, d *node, self int) sdk.Msg {
	me := acc(fwds[self])
	switch d.msg {
	case "append":
		return msgCall(me, listAt, word(d.n))
	case "failAppend":
		return msgCall(me, listAt, word(0))
	case "send":
		return msgSend(me, acc(sink(d.sink)), int64(d.n))
	case "failSend":
		return msgSend(me, acc(sink(d.sink)), 1_000_000_000)
	case "foreign":
		return msgSend(acc(fwds[(self+1)%nForwarders]), acc(sink(d.sink)), int64(d.n))
	case "nested":
		data, _ := compile(app, d.sub, d.f)
		return msgCall(me, fwds[d.f], data)
	}
	panic(d.msg)
}

// effects is the state the model keeps.
type effects struct {
	list    []uint64
	bal     map[common.Address]int64 // differences
	erc20   [nForwarders]bool
	store   [nForwarders][nSinks]bool
	pending []pendingMsg
}

type pendingMsg struct {
	d    *node
	self int
}

func (e *effects) clone() *effects {
	c := *e
	c.list = slices.Clone(e.list)
	c.bal = map[common.Address]int64{}
	for k, v := range e.bal {
		c.bal[k] = v
	}
	c.pending = slices.Clone(e.pending)
	return &c
}

// run performs the steps of one frame; a failed frame leaves e as it was.
func (m *model) run(e *effects, steps []*node, self int, static bool) (ok bool) {
	saved := e.clone()
	defer func() {
		if !ok {
			if m.effectsOf(e) != m.effectsOf(saved) {
				m.undone++
			}
			*e = *saved
		}
	}()
	for _, d := range steps {
		ok := m.step(e, d, self, static)
		if !ok && (d.mode == kit.FwdCall || d.kind == "revert" || d.kind == "invalid") {
			return false
		}
		if d.kind == "create" && static {
			return false // CREATE is an exceptional halt in a static frame
		}
	}
	return true
}

func (m *model) effectsOf(e *effects) int { return len(e.pending) + len(e.list) + boolsOf(e) }

func boolsOf(e *effects) (n int) {
	for i, b := range e.erc20 {
		if b {
			n++
		}
		for _, s := range e.store[i] {
			if s {
				n++
			}
		}
	}
	return
}

type model struct {
	undone int // failed frames with effects
	done   int // messages
	denied int
}

func (m *model) step(e *effects, d *node, self int, static bool) bool {
	switch d.kind {
	case "frame":
		switch d.mode {
		case kit.FwdStatic:
			return m.run(e, d.sub, d.f, true)
		case kit.FwdDelegate, kit.FwdCallCode:
			return m.run(e, d.sub, self, static)
		}
		return m.run(e, d.sub, d.f, static)
	case "create":
		if static {
			return false
		}
		saved := e.clone()
		ok := m.run(e, d.sub, d.f, false) && d.mode == kit.FwdTry
		if !ok {
			if m.effectsOf(e) != m.effectsOf(saved) {
				m.undone++
			}
			*e = *saved
		}
		return ok
	case "append":
		if static {
			return false
		}
		e.list = append(e.list, d.n)
		return true
	case "exec", "register", "store":
		// precompiles are read-only for other than ordinary calls
		readOnly := static || d.mode == kit.FwdStatic || d.mode == kit.FwdDelegate
		if d.gas || readOnly {
			if readOnly {
				m.denied++
			}
			return false
		}
		switch d.kind {
		case "exec":
			if d.msg == "foreign" {
				m.denied++
				return false
			}
			for i := 0; i < d.rep; i++ {
				e.pending = append(e.pending, pendingMsg{d, self})
			}
		case "register":
			e.erc20[self] = true
		case "store":
			if e.erc20[self] {
				e.store[self][d.sink] = true
			}
		}
		return true
	}
	return false
}

// call is one top level call and the messages it leaves, depth first.
func (m *model) call(e *effects, steps []*node, self int) bool {
	saved := e.pending
	e.pending = nil
	ok := m.run(e, steps, self, false)
	return ok && m.dispatch(e, saved)
}

func (m *model) dispatch(e *effects, saved []pendingMsg) bool {
	msgs := e.pending
	e.pending = saved
	for _, p := range msgs {
		m.done++
		switch p.d.msg {
		case "append":
			e.list = append(e.list, p.d.n)
		case "send":
			e.bal[fwds[p.self]] -= int64(p.d.n)
			e.bal[sink(p.d.sink)] += int64(p.d.n)
		case "nested":
			if !m.call(e, p.d.sub, p.d.f) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// observe reads the same state from the chain.
func observe(app *minievmapp.MinitiaApp, ctx sdk.Context) (string, map[common.Address]*big.Int) {
	var s strings.Builder
	fmt.Fprintln(&s, "list", list(app, ctx, listAt))
	bals := map[common.Address]*big.Int{}
	isStored := func(ctx sdk.Context, f common.Address, who common.Address) bool {
		ret, err := app.EVMKeeper.EVMStaticCall(ctx, f, registryAddr, pack(registryABI, "is_erc20_store_registered", who), nil)
		must(err)
		return new(big.Int).SetBytes(ret).Sign() != 0
	}
	for i, f := range fwds {
		bals[f] = balance(app, ctx, acc(f))
		probe, _ := kit.Branch(ctx)
		_, _, err := app.EVMKeeper.EVMCall(probe, f, registryAddr, pack(registryABI, "register_erc20_store", common.BytesToAddress([]byte("probe"))), nil, nil)
		must(err)
		var st []bool
		for j := 0; j < nSinks; j++ {
			st = append(st, isStored(ctx, f, sink(j)))
		}
		fmt.Fprintln(&s, "F", i, isStored(probe, f, common.BytesToAddress([]byte("probe"))), st)
	}
	for j := 0; j < nSinks; j++ {
		bals[sink(j)] = balance(app, ctx, acc(sink(j)))
	}
	return s.String(), bals
}

func (e *effects) String() string {
	var s strings.Builder
	fmt.Fprintln(&s, "list", e.list)
	for i := range fwds {
		fmt.Fprintln(&s, "F", i, e.erc20[i], e.store[i][:])
	}
	return s.String()
}

// TestFrameEffects runs call trees which use the precompiles in frames that
// succeed, revert, abort or run out of gas, and compares with a model of frames.
func TestFrameEffects(t *testing.T) {
	kit.Run(t, "a frame which requested effects failed, or messages were executed in a transaction with other requests denied", func(rt *rapid.T, c *kit.Case) {
		app := shared.Get()
		e := &effects{bal: map[common.Address]int64{}}
		m := &model{}
		ctx := kit.Ctx(app)
		_, before := observe(app, ctx)
		nTx := rapid.IntRange(1, 3).Draw(rt, "txs")
		for i := 0; i < nTx; i++ {
			g := &gen{app: app, rt: rt, budget: 24, n: uint64(i) * 1000}
			how := rapid.SampledFrom([]string{"eth", "eth", "create", "cosmos"}).Draw(rt, "how")
			var tx []byte
			var err error
			next := e.clone()
			ok := true
			const gas = 1 << 55
			seq := kit.Seq(app, ctx, kit.Acc(1))
			switch how {
			case "eth":
				f, steps := rapid.IntRange(0, nForwarders-1).Draw(rt, "f"), g.steps(0)
				c.Logf("tx %d: call F%d %s", i, f, &node{kind: "frame", mode: kit.FwdCall, f: f, sub: steps})
				data, _ := compile(app, steps, f)
				tx, err = kit.EthToCosmos(app, ctx, kit.EthCall(1, seq, &fwds[f], data, nil, gas, nil))
				ok = m.call(next, steps, f)
			case "create":
				f, steps := rapid.IntRange(0, nForwarders-1).Draw(rt, "f"), g.steps(0)
				c.Logf("tx %d: constructor calls F%d %s", i, f, &node{kind: "frame", mode: kit.FwdCall, f: f, sub: steps})
				data, need := compile(app, steps, f)
				tx, err = kit.EthToCosmos(app, ctx, kit.EthCall(1, seq, nil, constructor(kit.FwdTry, fwds[f], data, need), nil, gas, nil))
				ok = m.call(next, steps, f)
			case "cosmos":
				var msgs []sdk.Msg
				k := rapid.IntRange(1, 3).Draw(rt, "msgs")
				for j := 0; j < k; j++ {
					f, steps := rapid.IntRange(0, nForwarders-1).Draw(rt, "f"), g.steps(1)
					c.Logf("tx %d message %d: call F%d %s", i, j, f, &node{kind: "frame", mode: kit.FwdCall, f: f, sub: steps})
					data, _ := compile(app, steps, f)
					msgs = append(msgs, msgCall(kit.Acc(1), fwds[f], data))
					ok = ok && m.call(next, steps, f)
				}
				tx, err = kit.CosmosTx{Msgs: msgs, Gas: gas, Signers: []int{1}, Seqs: []uint64{seq}, AccNums: []uint64{app.AccountKeeper.GetAccount(ctx, kit.Acc(1)).GetAccountNumber()}}.Build(app)
			}
			must(err)
			res := kit.Block(app, [][]byte{tx}).TxResults[0]
			if (res.Code == 0) != ok {
				rt.Fatalf("%s\ntransaction result %s, the model expects success=%v", c.Trace(), kit.Result(res), ok)
			}
			if ok {
				e = next
			}
			ctx = kit.Ctx(app)
			got, bals := observe(app, ctx)
			if got != e.String() {
				rt.Fatalf("%s\nstate after it:\n%s\nexpected:\n%s", c.Trace(), got, e)
			}
			for a, b := range bals {
				if new(big.Int).Sub(b, before[a]).Int64() != e.bal[a] {
					rt.Fatalf("%s\nbalance of %s changed by %s, expected %d", c.Trace(), a, new(big.Int).Sub(b, before[a]), e.bal[a])
				}
			}
			if !ok {
				c.Label("failed tx")
			}
		}
		c.NonTrivialIf(m.undone > 0 || (m.done > 0 && m.denied > 0))
		if m.undone > 0 {
			c.Label("undone frames")
		}
		if m.done > 1 {
			c.Label("messages")
		}
		shared.Done()
	})
}

var _ = evmtypes.StdAddress
