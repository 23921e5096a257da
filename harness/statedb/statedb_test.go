// Package statedb: the EVM's state object against a plain model with deep-copied snapshots.
package statedb

import (
	"fmt"
	"math/big"
	"sort"
	"testing"

	"github.com/holiman/uint256"

	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/tracing"
	ethtypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"

	minievmapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/verifh/kit"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

type committer interface {
	Commit() error
	Logs() evmtypes.Logs
}

type slotKey struct {
	a common.Address
	k common.Hash
}

type acct struct {
	nonce    uint64
	contract bool
	code     []byte
}

type model struct {
	accts   map[common.Address]acct
	storage map[slotKey]common.Hash
	balance map[common.Address]uint64
	// per transaction
	transient map[slotKey]common.Hash
	alAddr    map[common.Address]bool
	alSlot    map[slotKey]bool
	refund    uint64
	logs      []string
	destruct  map[common.Address]bool
	created   map[common.Address]bool
}

func newModel() *model {
	return &model{
		accts: map[common.Address]acct{}, storage: map[slotKey]common.Hash{}, balance: map[common.Address]uint64{},
		transient: map[slotKey]common.Hash{}, alAddr: map[common.Address]bool{}, alSlot: map[slotKey]bool{},
		destruct: map[common.Address]bool{}, created: map[common.Address]bool{},
	}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (m *model) copy() *model {
	return &model{
		accts: cp(m.accts), storage: cp(m.storage), balance: cp(m.balance), transient: cp(m.transient),
		alAddr: cp(m.alAddr), alSlot: cp(m.alSlot), refund: m.refund, logs: append([]string{}, m.logs...),
		destruct: cp(m.destruct), created: cp(m.created),
	}
}

// endTx applies the end of a transaction.
func (m *model) endTx() {
	for a := range m.destruct {
		delete(m.accts, a)
		delete(m.balance, a)
		for k := range m.storage {
			if k.a == a {
				delete(m.storage, k)
			}
		}
	}
	m.newTx()
}

func (m *model) newTx() {
	m.transient = map[slotKey]common.Hash{}
	m.alAddr = map[common.Address]bool{}
	m.alSlot = map[slotKey]bool{}
	m.refund = 0
	m.logs = nil
	m.destruct = map[common.Address]bool{}
	m.created = map[common.Address]bool{}
}

var (
	app     *minievmapp.MinitiaApp
	baseCtx sdk.Context
	feeAddr common.Address
)

func setup() {
	if app == nil {
		app = kit.NewApp(kit.Options{NumKeys: 1})
		baseCtx = kit.Ctx(app)
		feeAddr = kit.FeeERC20(app, baseCtx)
	}
}

var addrs = []common.Address{
	common.HexToAddress("0x1000000000000000000000000000000000000001"),
	common.HexToAddress("0x1000000000000000000000000000000000000002"),
	// shares a prefix with the next one as far as possible
	common.HexToAddress("0x20000000000000000000000000000000000000aa"),
	common.HexToAddress("0x20000000000000000000000000000000000000ab"),
	common.HexToAddress("0xffffffffffffffffffffffffffffffffffffffff"),
}

var keys = []common.Hash{{}, common.BigToHash(big.NewInt(1)), common.HexToHash("0xff00000000000000000000000000000000000000000000000000000000000000"), common.MaxHash}
var vals = []common.Hash{{}, common.BigToHash(big.NewInt(1)), common.BigToHash(big.NewInt(77)), common.MaxHash}

func logString(addr common.Address, topics []common.Hash, data []byte) string {
	s := addr.Hex()
	for _, tp := range topics {
		s += "|" + tp.Hex()
	}
	return s + "|" + fmt.Sprintf("%x", data)
}

type snapEntry struct {
	id    int
	state *model
}

type run struct {
	rt       *rapid.T
	c        *kit.Case
	ctx      sdk.Context
	db       vm.StateDB
	m        *model // current
	pre      *model // state committed before this transaction
	snaps    []snapEntry
	balances bool
	// addresses which received native tokens, so the token registry may have
	// created an account for them
	funded map[common.Address]bool
}

func (r *run) contracts() (out []common.Address) {
	for _, a := range addrs {
		if acc, ok := r.m.accts[a]; ok && acc.contract {
			out = append(out, a)
		}
	}
	return out
}

func (r *run) checkAll(where string) {
	rt, db, m := r.rt, r.db, r.m
	for _, a := range addrs {
		acc, ok := m.accts[a]
		if r.funded[a] && !ok {
			// receiving tokens is allowed to create the account
		} else if got := db.Exist(a); got != ok {
			rt.Fatalf("%s: Exist(%s)=%v want %v\n%s", where, a, got, ok, r.c.Trace())
		}
		if got := db.GetNonce(a); got != acc.nonce {
			rt.Fatalf("%s: GetNonce(%s)=%d want %d\n%s", where, a, got, acc.nonce, r.c.Trace())
		}
		if got := db.GetCode(a); string(got) != string(acc.code) {
			rt.Fatalf("%s: GetCode(%s)=%x want %x\n%s", where, a, got, acc.code, r.c.Trace())
		}
		if got := db.GetCodeSize(a); got != len(acc.code) {
			rt.Fatalf("%s: GetCodeSize(%s)=%d want %d\n%s", where, a, got, len(acc.code), r.c.Trace())
		}
		gotHash := db.GetCodeHash(a)
		switch {
		case len(acc.code) > 0:
			if gotHash != crypto.Keccak256Hash(acc.code) {
				rt.Fatalf("%s: GetCodeHash(%s)=%s is not the hash of its code\n%s", where, a, gotHash, r.c.Trace())
			}
		case !ok && !r.funded[a]:
			if gotHash != (common.Hash{}) {
				rt.Fatalf("%s: GetCodeHash(%s)=%s of a missing account\n%s", where, a, gotHash, r.c.Trace())
			}
		default:
			if gotHash != (common.Hash{}) && gotHash != ethtypes.EmptyCodeHash {
				rt.Fatalf("%s: GetCodeHash(%s)=%s of an account without code\n%s", where, a, gotHash, r.c.Trace())
			}
		}
		if got, want := db.GetBalance(a).Uint64(), m.balance[a]; got != want {
			rt.Fatalf("%s: GetBalance(%s)=%d want %d\n%s", where, a, got, want, r.c.Trace())
		}
		empty := m.balance[a] == 0 && (!ok || (acc.nonce == 0 && !acc.contract))
		if got := db.Empty(a); got != empty {
			rt.Fatalf("%s: Empty(%s)=%v want %v\n%s", where, a, got, empty, r.c.Trace())
		}
		if got := db.HasSelfDestructed(a); got != m.destruct[a] {
			rt.Fatalf("%s: HasSelfDestructed(%s)=%v want %v\n%s", where, a, got, m.destruct[a], r.c.Trace())
		}
		if got := db.AddressInAccessList(a); got != m.alAddr[a] {
			rt.Fatalf("%s: AddressInAccessList(%s)=%v want %v\n%s", where, a, got, m.alAddr[a], r.c.Trace())
		}
		for _, k := range keys {
			sk := slotKey{a, k}
			if got, want := db.GetState(a, k), m.storage[sk]; got != want {
				rt.Fatalf("%s: GetState(%s,%s)=%s want %s\n%s", where, a, k, got, want, r.c.Trace())
			}
			if got, want := db.GetCommittedState(a, k), r.pre.storage[sk]; got != want {
				rt.Fatalf("%s: GetCommittedState(%s,%s)=%s want %s\n%s", where, a, k, got, want, r.c.Trace())
			}
			if got, want := db.GetTransientState(a, k), m.transient[sk]; got != want {
				rt.Fatalf("%s: GetTransientState(%s,%s)=%s want %s\n%s", where, a, k, got, want, r.c.Trace())
			}
			ao, so := db.SlotInAccessList(a, k)
			if ao != m.alAddr[a] || so != m.alSlot[sk] {
				rt.Fatalf("%s: SlotInAccessList(%s,%s)=%v,%v want %v,%v\n%s", where, a, k, ao, so, m.alAddr[a], m.alSlot[sk], r.c.Trace())
			}
		}
	}
	if !r.balances {
		if got := db.GetRefund(); got != m.refund {
			rt.Fatalf("%s: GetRefund()=%d want %d\n%s", where, got, m.refund, r.c.Trace())
		}
	}
	r.checkLogs(where)
}

func (r *run) checkLogs(where string) {
	var got []string
	for i, l := range r.db.(committer).Logs() {
		el := l
		if common.HexToAddress(el.Address) == feeAddr {
			continue // movements of the native token are themselves token events
		}
		_ = i
		topics := make([]common.Hash, len(el.Topics))
		for j, tp := range el.Topics {
			topics[j] = common.HexToHash(tp)
		}
		got = append(got, logString(common.HexToAddress(el.Address), topics, common.FromHex(el.Data)))
	}
	if len(got) != len(r.m.logs) {
		r.rt.Fatalf("%s: %d logs want %d\n%s", where, len(got), len(r.m.logs), r.c.Trace())
	}
	for i := range got {
		if got[i] != r.m.logs[i] {
			r.rt.Fatalf("%s: log %d is %s want %s\n%s", where, i, got[i], r.m.logs[i], r.c.Trace())
		}
	}
}

func (r *run) step(i int) {
	rt, db, m := r.rt, r.db, r.m
	ops := []string{"SetState", "SetState", "SetTransient", "AddLog", "AddRefund", "SubRefund", "SetNonce", "CreateContract", "AccessAddr", "AccessSlot",
		"CreateAccount", "SelfDestruct6780", "Snapshot", "Snapshot", "Snapshot", "Revert", "SetCode", "SelfDestruct"}
	if r.balances {
		ops = append(ops, "AddBalance", "SubBalance", "AddBalance")
	}
	op := rapid.SampledFrom(ops).Draw(rt, "op")
	addr := func() common.Address { return rapid.SampledFrom(addrs).Draw(rt, "addr") }
	key := func() common.Hash { return rapid.SampledFrom(keys).Draw(rt, "key") }
	val := func() common.Hash { return rapid.SampledFrom(vals).Draw(rt, "val") }
	switch op {
	case "SetState":
		cs := r.contracts()
		if len(cs) == 0 {
			return
		}
		a, k, v := rapid.SampledFrom(cs).Draw(rt, "contract"), key(), val()
		r.c.Logf("SetState %s %s %s", a, k, v)
		db.SetState(a, k, v)
		m.storage[slotKey{a, k}] = v
	case "SetTransient":
		a, k, v := addr(), key(), val()
		r.c.Logf("SetTransientState %s %s %s", a, k, v)
		db.SetTransientState(a, k, v)
		m.transient[slotKey{a, k}] = v
	case "AddLog":
		a := addr()
		topics := rapid.SliceOfN(rapid.SampledFrom(vals), 0, 4).Draw(rt, "topics")
		data := rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(rt, "data")
		r.c.Logf("AddLog %s %v %x", a, topics, data)
		db.AddLog(&ethtypes.Log{Address: a, Topics: topics, Data: data})
		m.logs = append(m.logs, logString(a, topics, data))
	case "AddRefund":
		if r.balances {
			return
		}
		v := uint64(rapid.IntRange(0, 5000).Draw(rt, "refund"))
		r.c.Logf("AddRefund %d", v)
		db.AddRefund(v)
		m.refund += v
	case "SubRefund":
		if r.balances || m.refund == 0 {
			return
		}
		v := rapid.Uint64Range(0, m.refund).Draw(rt, "refund")
		r.c.Logf("SubRefund %d", v)
		db.SubRefund(v)
		m.refund -= v
	case "SetNonce":
		a := addr()
		n := rapid.Uint64Range(0, 3).Draw(rt, "nonce")
		r.c.Logf("SetNonce %s %d", a, n)
		db.SetNonce(a, n)
		acc := m.accts[a]
		acc.nonce = n
		m.accts[a] = acc
	case "CreateContract":
		// the EVM's own guard: no nonce, no code, no storage
		a := addr()
		acc, ok := m.accts[a]
		if ok && (acc.nonce != 0 || acc.contract) {
			return
		}
		if db.GetStorageRoot(a) != (common.Hash{}) {
			rt.Fatalf("GetStorageRoot(%s) is not empty for an unused address\n%s", a, r.c.Trace())
		}
		if !ok && rapid.Bool().Draw(rt, "createAccountFirst") {
			db.CreateAccount(a)
		}
		code := rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(rt, "code")
		r.c.Logf("CreateContract %s code=%x", a, code)
		db.CreateContract(a)
		db.SetNonce(a, 1)
		db.SetCode(a, code)
		m.accts[a] = acct{nonce: 1, contract: true, code: code}
		m.created[a] = true
	case "SetCode":
		cs := r.contracts()
		if len(cs) == 0 {
			return
		}
		a := rapid.SampledFrom(cs).Draw(rt, "contract")
		code := rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(rt, "code")
		r.c.Logf("SetCode %s code=%x", a, code)
		db.SetCode(a, code)
		acc := m.accts[a]
		acc.code = code
		m.accts[a] = acc
	case "AccessAddr":
		a := addr()
		r.c.Logf("AddAddressToAccessList %s", a)
		db.AddAddressToAccessList(a)
		m.alAddr[a] = true
	case "AccessSlot":
		a, k := addr(), key()
		r.c.Logf("AddSlotToAccessList %s %s", a, k)
		db.AddSlotToAccessList(a, k)
		m.alAddr[a] = true
		m.alSlot[slotKey{a, k}] = true
	case "CreateAccount":
		a := addr()
		if _, ok := m.accts[a]; ok || db.Exist(a) {
			return
		}
		r.c.Logf("CreateAccount %s", a)
		db.CreateAccount(a)
		m.accts[a] = acct{}
	case "SelfDestruct6780", "SelfDestruct":
		a := addr()
		_, exists := m.accts[a]
		if !exists && r.funded[a] {
			return
		}
		r.c.Logf("%s %s", op, a)
		if op == "SelfDestruct" {
			db.SelfDestruct(a)
		} else {
			db.Selfdestruct6780(a)
			exists = exists && m.created[a]
		}
		if exists {
			m.destruct[a] = true
			delete(m.balance, a)
			r.c.Label("selfdestruct")
		}
	case "AddBalance":
		a := addr()
		v := rapid.Uint64Range(0, 9).Draw(rt, "amount")
		r.c.Logf("AddBalance %s %d", a, v)
		db.AddBalance(a, uint256.NewInt(v), tracing.BalanceChangeUnspecified)
		m.balance[a] += v
		if v > 0 {
			r.funded[a] = true
		}
	case "SubBalance":
		a := addr()
		v := rapid.Uint64Range(0, m.balance[a]).Draw(rt, "amount")
		r.c.Logf("SubBalance %s %d", a, v)
		db.SubBalance(a, uint256.NewInt(v), tracing.BalanceChangeUnspecified)
		m.balance[a] -= v
	case "Snapshot":
		id := db.Snapshot()
		for _, s := range r.snaps {
			if s.id == id {
				rt.Fatalf("Snapshot returned %d, which names an earlier snapshot that is still valid\n%s", id, r.c.Trace())
			}
		}
		r.c.Logf("Snapshot #%d", len(r.snaps))
		r.snaps = append(r.snaps, snapEntry{id, m.copy()})
	case "Revert":
		if len(r.snaps) == 0 {
			return
		}
		lo := 0
		if len(r.snaps) > 1 && rapid.IntRange(0, 5).Draw(rt, "keepOutermost") != 0 {
			lo = 1
		}
		j := rapid.IntRange(lo, len(r.snaps)-1).Draw(rt, "snap")
		r.c.Logf("RevertToSnapshot #%d of %d", j, len(r.snaps))
		if j > 0 {
			r.c.Label("revert-inner")
		} else {
			r.c.Label("revert-outermost")
		}
		if len(r.snaps)-j >= 2 {
			r.c.Label("revert-many")
		}
		db.RevertToSnapshot(r.snaps[j].id)
		r.m = r.snaps[j].state
		r.snaps = r.snaps[:j]
	}
}

func TestStateDBModel(t *testing.T) {
	setup()
	kit.Run(t, "1-3 transactions over 5 addresses of up to 40 random state operations with arbitrarily nested snapshots and reverts to any valid one; "+
		"non-trivial = some transaction reverted to a snapshot that is not the outermost one and then committed",
		func(rt *rapid.T, c *kit.Case) {
			ctx, _ := kit.Branch(baseCtx)
			ctx = ctx.WithGasMeter(storetypes.NewInfiniteGasMeter())
			committed := newModel()
			funded := map[common.Address]bool{}
			balances := rapid.IntRange(0, 3).Draw(rt, "balanceMode") == 0
			nTx := rapid.IntRange(1, 3).Draw(rt, "txs")
			for tx := 0; tx < nTx; tx++ {
				c.Logf("-- tx %d (balances %v)", tx, balances)
				_, evm, err := app.EVMKeeper.CreateEVM(ctx, kit.Addr(0), nil)
				if err != nil {
					rt.Fatalf("CreateEVM: %v", err)
				}
				r := &run{rt: rt, c: c, ctx: ctx, db: evm.StateDB, m: committed.copy(), pre: committed, balances: balances, funded: funded}
				// like a contract creation: the sender's nonce and the access list are
				// touched before the outermost snapshot is taken
				preNonce := rapid.IntRange(0, 3).Draw(rt, "preNonce") == 0
				if preNonce {
					a := rapid.SampledFrom(addrs).Draw(rt, "sender")
					c.Logf("SetNonce %s 5, AddAddressToAccessList", a)
					r.db.SetNonce(a, 5)
					r.db.AddAddressToAccessList(a)
					acc := r.m.accts[a]
					acc.nonce = 5
					r.m.accts[a] = acc
					r.m.alAddr[a] = true
				}
				outerID := r.db.Snapshot()
				r.snaps = append(r.snaps, snapEntry{outerID, r.m.copy()})
				if rapid.Bool().Draw(rt, "checkStart") {
					r.checkAll("start of tx")
				}
				steps := rapid.IntRange(0, 40).Draw(rt, "steps")
				inner := false
				for i := 0; i < steps; i++ {
					n := len(r.snaps)
					r.step(i)
					if len(r.snaps) < n {
						inner = inner || len(r.snaps) > 0
						if rapid.Bool().Draw(rt, "checkRevert") {
							r.checkAll("after revert")
						}
						if len(r.snaps) == 0 {
							// the whole frame was reverted; carry on in a new one
							r.snaps = append(r.snaps, snapEntry{r.db.Snapshot(), r.m.copy()})
						}
					}
				}
				r.checkAll("end of tx")

				commit := rapid.IntRange(0, 4).Draw(rt, "commit") != 0
				c.Logf("commit=%v", commit)
				if !commit {
					// a failed transaction leaves nothing behind
					if !preNonce {
						checkCommitted(rt, c, ctx, funded, committed, committed, false)
					}
					return
				}
				em := len(ctx.EventManager().Events())
				if err := r.db.(committer).Commit(); err != nil {
					rt.Fatalf("Commit: %v", err)
				}
				if inner {
					c.NonTrivial()
				}
				createdEvents := map[string]int{}
				for _, ev := range ctx.EventManager().Events()[em:] {
					if ev.Type == evmtypes.EventTypeContractCreated {
						for _, at := range ev.Attributes {
							if at.Key == evmtypes.AttributeKeyContract {
								createdEvents[at.Value]++
							}
						}
					}
				}
				var created []string
				for a := range r.m.created {
					created = append(created, a.Hex())
				}
				sort.Strings(created)
				if len(created) != len(createdEvents) {
					// events emitted below the first snapshot are already in ctx
					for _, a := range created {
						if createdEvents[a] == 0 {
							all := 0
							for _, ev := range ctx.EventManager().Events() {
								if ev.Type == evmtypes.EventTypeContractCreated && len(ev.Attributes) > 0 && ev.Attributes[0].Value == a {
									all++
								}
							}
							if all == 0 {
								rt.Fatalf("contract %s was created but no event says so\n%s", a, c.Trace())
							}
						}
					}
					for a := range createdEvents {
						if !r.m.created[common.HexToAddress(a)] {
							rt.Fatalf("an event reports contract %s, whose creation was reverted\n%s", a, c.Trace())
						}
					}
				}
				// logs stay readable after the commit
				r.checkLogs("after commit")
				next := r.m.copy()
				next.endTx()
				checkCommitted(rt, c, ctx, funded, next, next, true)
				committed = next
			}
		})
}

// checkCommitted reads the state through a new state object over ctx.
func checkCommitted(rt *rapid.T, c *kit.Case, ctx sdk.Context, funded map[common.Address]bool, want, pre *model, committed bool) {
	branch, _ := kit.Branch(ctx)
	_, evm, err := app.EVMKeeper.CreateEVM(branch, kit.Addr(0), nil)
	if err != nil {
		rt.Fatalf("CreateEVM: %v", err)
	}
	w := want.copy()
	w.newTx()
	p := w
	r := &run{rt: rt, c: c, ctx: branch, db: evm.StateDB, m: w, pre: p, funded: funded}
	if committed {
		r.checkAll("after commit, by a new transaction")
	} else {
		r.checkAll("uncommitted transaction, read by another one")
	}
}
