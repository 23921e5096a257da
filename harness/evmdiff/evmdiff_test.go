// Package evmdiff: generated contract programs executed by the keeper and by the
// reference go-ethereum state on the same inputs.
package evmdiff

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"github.com/holiman/uint256"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/rawdb"
	"github.com/ethereum/go-ethereum/core/state"
	"github.com/ethereum/go-ethereum/core/tracing"
	ethtypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/params"
	"github.com/ethereum/go-ethereum/trie/utils"

	minievmapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/verifh/kit"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

const nContracts = 4

var (
	app     *minievmapp.MinitiaApp
	baseCtx sdk.Context
	feeAddr common.Address
)

func setup() {
	if app == nil {
		app = kit.NewApp(kit.Options{NumKeys: nContracts + 1})
		for i := 0; i < 5; i++ {
			kit.Block(app, nil)
		}
		baseCtx = kit.Ctx(app)
		feeAddr = kit.FeeERC20(app, baseCtx)
	}
}

// ---- generated programs ----

type gen struct {
	rt    *rapid.T
	addrs []common.Address // targets
	desc  []string
	feat  map[string]bool
}

func (g *gen) d(format string, args ...any) { g.desc = append(g.desc, fmt.Sprintf(format, args...)) }

func pick[T any](rt *rapid.T, l []T, name string) T { return rapid.SampledFrom(l).Draw(rt, name) }

func (g *gen) slot() uint64 { return uint64(rapid.IntRange(0, 4).Draw(g.rt, "slot")) }

// source pushes one word.
func (g *gen) source(a *kit.Asm, afterBalance *bool) {
	switch pick(g.rt, []string{"const", "const", "zero", "sload", "tload", "balance", "selfbalance", "codesize", "codehash", "env", "env", "rds", "bh", "cdl"}, "src") {
	case "const":
		v := pick(g.rt, []uint64{1, 2, 3, 0xffffffff}, "v")
		g.d("  const %d", v)
		a.Push(v)
	case "zero":
		g.d("  zero")
		a.Push(0)
	case "sload":
		k := g.slot()
		g.d("  sload %d", k)
		a.Push(k).Op(vm.SLOAD)
	case "tload":
		k := g.slot()
		g.d("  tload %d", k)
		a.Push(k).Op(vm.TLOAD)
	case "balance":
		t := pick(g.rt, g.addrs, "addr")
		g.d("  balance %s", t)
		a.PushAddr(t).Op(vm.BALANCE)
	case "selfbalance":
		g.d("  selfbalance")
		a.Op(vm.SELFBALANCE)
	case "codesize":
		t := pick(g.rt, g.addrs, "addr")
		g.d("  extcodesize %s", t)
		a.PushAddr(t).Op(vm.EXTCODESIZE)
	case "codehash":
		t := pick(g.rt, g.addrs, "addr")
		self := rapid.Bool().Draw(g.rt, "self")
		g.d("  extcodehash %s self=%v", t, self)
		if self {
			a.Op(vm.ADDRESS)
		} else {
			a.PushAddr(t)
		}
		a.Op(vm.EXTCODEHASH)
	case "env":
		op := pick(g.rt, []vm.OpCode{vm.CALLER, vm.ADDRESS, vm.ORIGIN, vm.CALLVALUE, vm.NUMBER, vm.TIMESTAMP, vm.CHAINID, vm.COINBASE,
			vm.GASLIMIT, vm.BASEFEE, vm.PREVRANDAO, vm.GASPRICE, vm.CODESIZE, vm.CALLDATASIZE, vm.GAS}, "env")
		g.d("  %s", op)
		a.Op(op)
	case "rds":
		g.d("  returndatasize")
		a.Op(vm.RETURNDATASIZE)
	case "bh":
		n := uint64(rapid.IntRange(0, 8).Draw(g.rt, "bh"))
		g.d("  blockhash %d", n)
		a.Push(n).Op(vm.BLOCKHASH)
	case "cdl":
		a.Push(32).Op(vm.CALLDATALOAD)
		g.d("  calldataload 32")
	}
}

// statements appends up to n statements; depth is how deep programs may still embed others.
func (g *gen) statements(a *kit.Asm, n, depth int, end int) {
	for i := 0; i < n; i++ {
		kinds := []string{"sstore", "sstore", "sstore", "tstore", "log", "log", "call", "call", "call", "selfdestruct", "revert", "retlog", "stop", "extcopy", "sha"}
		if depth > 0 {
			kinds = append(kinds, "create", "create", "create2")
		}
		switch k := pick(g.rt, kinds, "stmt"); k {
		case "sstore", "tstore":
			g.d(" %s", k)
			g.source(a, nil)
			s := g.slot()
			g.d("  -> slot %d", s)
			a.Push(s)
			if k == "sstore" {
				a.Op(vm.SSTORE)
			} else {
				g.feat["tstore"] = true
				a.Op(vm.TSTORE)
			}
		case "log":
			nt := rapid.IntRange(0, 4).Draw(g.rt, "topics")
			g.d(" log%d", nt)
			g.source(a, nil)
			a.Push(64).Op(vm.MSTORE)
			for j := 0; j < nt; j++ {
				a.Push(uint64(j + 7))
			}
			sz := pick(g.rt, []uint64{0, 1, 32}, "logsize")
			a.Push(sz).Push(64).Op(vm.LOG0 + vm.OpCode(nt))
		case "retlog":
			g.d(" log returndata")
			a.Op(vm.RETURNDATASIZE).Push(0).Push(128).Op(vm.RETURNDATACOPY)
			a.Op(vm.RETURNDATASIZE).Push(128).Op(vm.LOG0)
		case "sha":
			g.d(" memory-heavy keccak")
			a.Push(uint64(rapid.IntRange(0, 20000).Draw(g.rt, "sz"))).Push(0).Op(vm.KECCAK256, vm.POP)
		case "extcopy":
			t := pick(g.rt, g.addrs, "addr")
			g.d(" log extcodecopy %s", t)
			a.Push(16).Push(0).Push(128).PushAddr(t).Op(vm.EXTCODECOPY)
			a.Push(16).Push(128).Op(vm.LOG0)
		case "call":
			g.call(a, pick(g.rt, g.addrs, "target"), false)
		case "create", "create2":
			g.create(a, k == "create2", depth-1)
		case "selfdestruct":
			if rapid.IntRange(0, 2).Draw(g.rt, "really") != 0 {
				continue
			}
			t := pick(g.rt, g.addrs, "beneficiary")
			self := rapid.IntRange(0, 3).Draw(g.rt, "self") == 0
			g.d(" selfdestruct -> %s self=%v", t, self)
			g.feat["selfdestruct"] = true
			if self {
				a.Op(vm.ADDRESS)
			} else {
				a.PushAddr(t)
			}
			a.Op(vm.SELFDESTRUCT)
		case "revert":
			switch rapid.IntRange(0, 5).Draw(g.rt, "how") {
			case 0, 1:
				g.d(" revert")
				g.source(a, nil)
				a.Push(0).Op(vm.MSTORE).Push(pick(g.rt, []uint64{0, 32}, "sz")).Push(0).Op(vm.REVERT)
			case 2:
				g.d(" invalid")
				a.Op(vm.INVALID)
			case 3:
				g.d(" stack underflow")
				a.Op(vm.POP, vm.POP, vm.POP, vm.POP, vm.POP)
			case 4, 5:
				// revert only on the first visit: branches by the depth counter's parity
				g.d(" revert if depth is even")
				l := a.Label()
				a.Push(0).Op(vm.CALLDATALOAD).Push(1).Op(vm.AND).PushLabel(l).Op(vm.JUMPI)
				a.Push(0).Push(0).Op(vm.REVERT).Mark(l)
			}
			g.feat["revert"] = true
		case "stop":
			if rapid.IntRange(0, 3).Draw(g.rt, "really") == 0 {
				g.d(" return word")
				g.source(a, nil)
				a.Push(0).Op(vm.MSTORE).Push(32).Push(0).Op(vm.RETURN)
			}
		}
	}
}

// call emits one call; if onStack the target address is on the stack.
func (g *gen) call(a *kit.Asm, target common.Address, onStack bool) {
	kind := pick(g.rt, []vm.OpCode{vm.CALL, vm.CALL, vm.CALL, vm.DELEGATECALL, vm.STATICCALL, vm.CALLCODE}, "callkind")
	value := uint64(0)
	if kind == vm.CALL || kind == vm.CALLCODE {
		value = pick(g.rt, []uint64{0, 0, 0, 1, 5, 1000}, "value")
		if value > 0 {
			g.feat["value"] = true
		}
	}
	gasMode := pick(g.rt, []string{"all", "all", "all", "all", "small", "mid"}, "gas")
	must := rapid.IntRange(0, 2).Draw(g.rt, "require") == 0
	record := rapid.Bool().Draw(g.rt, "record")
	g.d(" %s %s value=%d gas=%s require=%v record=%v stack=%v", kind, target, value, gasMode, must, record, onStack)
	g.feat["call"] = true
	// stack (bottom first): retSize retOff argSize argOff [value] addr gas
	if onStack {
		// park the address in memory
		a.Push(96).Op(vm.MSTORE)
	}
	a.Push(32).Push(64).Push(64).Push(0)
	if kind == vm.CALL || kind == vm.CALLCODE {
		a.Push(value)
	}
	if onStack {
		a.Push(96).Op(vm.MLOAD)
	} else {
		a.PushAddr(target)
	}
	switch gasMode {
	case "all":
		a.Op(vm.GAS)
	case "small":
		a.Push(uint64(rapid.IntRange(0, 3000).Draw(g.rt, "g")))
	case "mid":
		a.Push(uint64(rapid.IntRange(3000, 80000).Draw(g.rt, "g")))
	}
	a.Op(kind)
	if must {
		l := a.Label()
		if record {
			a.Op(vm.DUP1).Push(uint64(rapid.IntRange(0, 4).Draw(g.rt, "recslot"))).Op(vm.SSTORE)
		}
		a.PushLabel(l).Op(vm.JUMPI).Push(0).Push(0).Op(vm.REVERT).Mark(l)
	} else if record {
		a.Push(uint64(rapid.IntRange(0, 4).Draw(g.rt, "recslot"))).Op(vm.SSTORE)
	} else {
		a.Op(vm.POP)
	}
}

func (g *gen) create(a *kit.Asm, two bool, depth int) {
	init := g.initCode(depth)
	value := pick(g.rt, []uint64{0, 0, 3}, "cvalue")
	if value > 0 {
		g.feat["value"] = true
	}
	g.feat["create"] = true
	h := a.Data(init)
	a.Push(uint64(len(init))).PushData(h).Push(160).Op(vm.CODECOPY)
	if two {
		salt := uint64(rapid.IntRange(0, 1).Draw(g.rt, "salt"))
		g.d(" create2 value=%d salt=%d len=%d", value, salt, len(init))
		a.Push(salt).Push(uint64(len(init))).Push(160).Push(value).Op(vm.CREATE2)
	} else {
		g.d(" create value=%d len=%d", value, len(init))
		a.Push(uint64(len(init))).Push(160).Push(value).Op(vm.CREATE)
	}
	if rapid.Bool().Draw(g.rt, "recordAddr") {
		a.Op(vm.DUP1).Push(g.slot()).Op(vm.SSTORE)
	}
	if rapid.Bool().Draw(g.rt, "callCreated") {
		g.call(a, common.Address{}, true)
	} else {
		a.Op(vm.POP)
	}
}

// program gives runtime code. Calldata word 0 is the remaining call depth.
func (g *gen) program(depth, maxStmts int) []byte {
	a := kit.NewAsm()
	end := a.Label()
	a.Push(0).Op(vm.CALLDATALOAD, vm.DUP1, vm.ISZERO).PushLabel(end).Op(vm.JUMPI)
	a.Push(1).Op(vm.SWAP1, vm.SUB).Push(0).Op(vm.MSTORE)
	n := rapid.IntRange(1, maxStmts).Draw(g.rt, "stmts")
	g.statements(a, n, depth, end)
	a.Op(vm.STOP).Mark(end).Op(vm.STOP)
	return a.Bytes()
}

func (g *gen) initCode(depth int) []byte {
	g.d("(init code:")
	pre := rapid.IntRange(0, 3).Draw(g.rt, "initStmts")
	a := kit.NewAsm()
	// calls made by init code get depth 1
	a.Push(1).Push(0).Op(vm.MSTORE)
	end := a.Label()
	g.statements(a, pre, 0, end)
	if rapid.IntRange(0, 9).Draw(g.rt, "badcode") == 0 {
		g.d(" returns code starting with 0xEF")
		a.Push(0xef).Push(0).Op(vm.MSTORE8).Push(1).Push(0).Op(vm.RETURN)
	} else {
		var runtime []byte
		if rapid.IntRange(0, 5).Draw(g.rt, "emptycode") != 0 {
			g.d(" runtime:")
			runtime = g.program(depth, 3)
		}
		h := a.Data(runtime)
		a.Push(uint64(len(runtime))).PushData(h).Push(0).Op(vm.CODECOPY).Push(uint64(len(runtime))).Push(0).Op(vm.RETURN)
	}
	g.d(")")
	return a.Bytes()
}

// ---- reference ----

type reference struct {
	db      *state.StateDB
	created map[common.Address]bool
}

func newReference() *reference {
	db, err := state.New(ethtypes.EmptyRootHash, state.NewDatabase(rawdb.NewMemoryDatabase()), nil)
	if err != nil {
		panic(err)
	}
	r := &reference{db: db, created: map[common.Address]bool{}}
	for i := 0; i <= nContracts; i++ {
		db.CreateAccount(kit.Addr(i))
		bal, _ := uint256.FromBig(kit.DefaultBalance()[0].Amount.BigInt())
		db.SetBalance(kit.Addr(i), bal, tracing.BalanceChangeUnspecified)
	}
	db.Finalise(true)
	return r
}

func chainConfig() *params.ChainConfig {
	h := sha3.NewLegacyKeccak256()
	h.Write([]byte(kit.ChainID))
	id := binary.BigEndian.Uint64(h.Sum(nil)[:8]) % 4503599627370476
	z := uint64(0)
	return &params.ChainConfig{
		ChainID: new(big.Int).SetUint64(id), HomesteadBlock: big.NewInt(0), DAOForkBlock: big.NewInt(0), DAOForkSupport: true,
		EIP150Block: big.NewInt(0), EIP155Block: big.NewInt(0), EIP158Block: big.NewInt(0), ByzantiumBlock: big.NewInt(0),
		ConstantinopleBlock: big.NewInt(0), PetersburgBlock: big.NewInt(0), IstanbulBlock: big.NewInt(0), MuirGlacierBlock: big.NewInt(0),
		BerlinBlock: big.NewInt(0), LondonBlock: big.NewInt(0), ArrowGlacierBlock: big.NewInt(0), GrayGlacierBlock: big.NewInt(0),
		MergeNetsplitBlock: big.NewInt(0), ShanghaiTime: &z, CancunTime: &z, PragueTime: &z,
	}
}

type txKind int

const (
	txCall txKind = iota
	txCreate
	txCreate2
	txStatic
)

type tx struct {
	kind  txKind
	from  common.Address
	to    common.Address
	data  []byte
	value *uint256.Int
	salt  uint64
	gas   uint64
	al    ethtypes.AccessList
}

type outcome struct {
	err     error
	ret     []byte
	addr    common.Address
	logs    []string
	gasUsed uint64
	left    uint64
	created []common.Address
}

func (r *reference) exec(t tx) (o outcome) {
	height := app.LastBlockHeight()
	var rnd common.Hash
	copy(rnd[:], kit.BlockHash(height))
	cfg := chainConfig()
	hooks := &tracing.Hooks{OnEnter: func(depth int, typ byte, from, to common.Address, input []byte, gas uint64, value *big.Int) {
		if vm.OpCode(typ) == vm.CREATE || vm.OpCode(typ) == vm.CREATE2 {
			o.created = append(o.created, to)
		}
	}}
	blockCtx := vm.BlockContext{
		CanTransfer: func(db vm.StateDB, a common.Address, v *uint256.Int) bool { return db.GetBalance(a).Cmp(v) >= 0 },
		Transfer: func(db vm.StateDB, a, b common.Address, v *uint256.Int) {
			db.SubBalance(a, v, tracing.BalanceChangeTransfer)
			db.AddBalance(b, v, tracing.BalanceChangeTransfer)
		},
		GetHash: func(n uint64) common.Hash {
			if n == 0 || int64(n) > height {
				return common.Hash{}
			}
			return common.BytesToHash(kit.BlockHash(int64(n)))
		},
		BaseFee: big.NewInt(0), GasLimit: t.gas, BlockNumber: big.NewInt(height), Time: uint64(kit.BlockTime(height).Unix()),
		Random: &rnd, Difficulty: big.NewInt(0), BlobBaseFee: big.NewInt(0),
	}
	evm := vm.NewEVM(blockCtx, vm.TxContext{
		Origin: t.from, GasPrice: big.NewInt(0), BlobFeeCap: big.NewInt(0), AccessEvents: state.NewAccessEvents(utils.NewPointCache(4096)),
	}, r.db, cfg, vm.Config{Tracer: hooks})
	rules := cfg.Rules(blockCtx.BlockNumber, true, blockCtx.Time)
	r.db.SetTxContext(crypto.Keccak256Hash(t.data, t.from[:], big.NewInt(int64(r.db.TxIndex()+1)).Bytes()), r.db.TxIndex()+1)
	var dst *common.Address
	if t.kind == txCall || t.kind == txStatic {
		dst = &t.to
	}
	r.db.Prepare(rules, t.from, common.Address{}, dst, vm.ActivePrecompiles(rules), t.al)
	outer := r.db.Snapshot()
	var left uint64
	switch t.kind {
	case txCall:
		o.ret, left, o.err = evm.Call(vm.AccountRef(t.from), t.to, t.data, t.gas, t.value)
	case txStatic:
		o.ret, left, o.err = evm.StaticCall(vm.AccountRef(t.from), t.to, t.data, t.gas)
	case txCreate:
		o.ret, o.addr, left, o.err = evm.Create(vm.AccountRef(t.from), t.data, t.gas, t.value)
	case txCreate2:
		o.ret, o.addr, left, o.err = evm.Create2(vm.AccountRef(t.from), t.data, t.gas, t.value, uint256.NewInt(t.salt))
	}
	o.left = left
	used := t.gas - left
	refund := used / 5
	if rr := r.db.GetRefund(); rr < refund {
		refund = rr
	}
	o.gasUsed = used - refund
	if o.err == nil {
		for _, l := range r.db.GetLogs(r.txHash(t), 0, common.Hash{}) {
			o.logs = append(o.logs, logStr(l.Address.Hex(), hashes(l.Topics), hexutil.Encode(l.Data)))
		}
	}
	if o.err != nil || t.kind == txStatic {
		r.db.RevertToSnapshot(outer)
	}
	r.db.Finalise(true)
	return o
}

func (r *reference) txHash(t tx) common.Hash {
	return crypto.Keccak256Hash(t.data, t.from[:], big.NewInt(int64(r.db.TxIndex())).Bytes())
}

func hashes(hs []common.Hash) (out []string) {
	for _, h := range hs {
		out = append(out, h.Hex())
	}
	return out
}

func logStr(addr string, topics []string, data string) string {
	if data == "" {
		data = "0x"
	}
	return strings.ToLower(addr + strings.Join(topics, ",") + ":" + data)
}

// ---- subject ----

const bigMeter = uint64(1) << 50

func run(ctx sdk.Context, t tx) (o outcome) {
	var logs evmtypes.Logs
	switch t.kind {
	case txCall:
		o.ret, logs, o.err = app.EVMKeeper.EVMCall(ctx, t.from, t.to, t.data, t.value, t.al)
	case txStatic:
		o.ret, o.err = app.EVMKeeper.EVMStaticCall(ctx, t.from, t.to, t.data, t.al)
	case txCreate:
		o.ret, o.addr, logs, o.err = app.EVMKeeper.EVMCreate(ctx, t.from, t.data, t.value, t.al)
	case txCreate2:
		o.ret, o.addr, logs, o.err = app.EVMKeeper.EVMCreate2(ctx, t.from, t.data, t.value, t.salt, t.al)
	}
	for _, l := range logs {
		if common.HexToAddress(l.Address) == feeAddr {
			continue
		}
		o.logs = append(o.logs, logStr(l.Address, l.Topics, l.Data))
	}
	return o
}

// overhead is what the keeper charges before and after the execution itself.
func overhead(ctx sdk.Context, t tx) uint64 {
	c, _ := kit.Branch(ctx)
	c = c.WithGasMeter(storetypes.NewGasMeter(bigMeter))
	o := run(c, tx{kind: txCall, from: t.from, to: t.from, value: new(uint256.Int)})
	if o.err != nil {
		panic(o.err)
	}
	return c.GasMeter().GasConsumed()
}

func compareState(rt *rapid.T, c *kit.Case, ctx sdk.Context, ref *reference, universe map[common.Address]bool) {
	branch, _ := kit.Branch(ctx)
	_, evm, err := app.EVMKeeper.CreateEVM(branch, kit.Addr(0), nil)
	if err != nil {
		rt.Fatalf("CreateEVM: %v", err)
	}
	var addrs []common.Address
	for a := range universe {
		addrs = append(addrs, a)
	}
	sort.Slice(addrs, func(i, j int) bool { return bytes.Compare(addrs[i][:], addrs[j][:]) < 0 })
	for _, a := range addrs {
		if got, want := evm.StateDB.GetNonce(a), ref.db.GetNonce(a); got != want {
			rt.Fatalf("nonce of %s is %d, want %d\n%s", a, got, want, c.Trace())
		}
		if got, want := evm.StateDB.GetCode(a), ref.db.GetCode(a); !bytes.Equal(got, want) {
			rt.Fatalf("code of %s is %x, want %x\n%s", a, got, want, c.Trace())
		}
		if got, want := evm.StateDB.GetBalance(a), ref.db.GetBalance(a); !got.Eq(want) {
			rt.Fatalf("native balance of %s is %s, want %s\n%s", a, got, want, c.Trace())
		}
		if got, want := evm.StateDB.Empty(a), ref.db.Empty(a); got != want {
			rt.Fatalf("Empty(%s) is %v, want %v\n%s", a, got, want, c.Trace())
		}
		for k := int64(0); k < 5; k++ {
			key := common.BigToHash(big.NewInt(k))
			if got, want := evm.StateDB.GetState(a, key), ref.db.GetState(a, key); got != want {
				rt.Fatalf("storage %s[%d] is %s, want %s\n%s", a, k, got, want, c.Trace())
			}
		}
	}
}

func step(rt *rapid.T, c *kit.Case, ctx sdk.Context, ref *reference, t tx, universe map[common.Address]bool) outcome {
	oh := overhead(ctx, t)
	branch, write := kit.Branch(ctx)
	branch = branch.WithGasMeter(storetypes.NewGasMeter(oh + t.gas))
	got := run(branch, t)
	got.gasUsed = branch.GasMeter().GasConsumed() - oh
	want := ref.exec(t)
	for _, a := range want.created {
		universe[a] = true
	}
	if (got.err == nil) != (want.err == nil) {
		rt.Fatalf("tx %+v: error %v, want %v\n%s", t.kind, got.err, want.err, c.Trace())
	}
	if want.err == nil {
		c.Label("success")
		if !bytes.Equal(got.ret, want.ret) {
			rt.Fatalf("returned %x, want %x\n%s", got.ret, want.ret, c.Trace())
		}
		if got.addr != want.addr {
			rt.Fatalf("created %s, want %s\n%s", got.addr, want.addr, c.Trace())
		}
		if t.kind != txStatic && strings.Join(got.logs, "\n") != strings.Join(want.logs, "\n") {
			rt.Fatalf("logs\n%s\nwant\n%s\n%s", strings.Join(got.logs, "\n"), strings.Join(want.logs, "\n"), c.Trace())
		}
		if t.kind != txStatic {
			write()
		}
	} else {
		c.Label("failed: " + strings.SplitN(want.err.Error(), ":", 2)[0])
		if want.err == vm.ErrExecutionReverted && t.kind != txStatic && len(want.ret) > 0 &&
			!strings.Contains(got.err.Error(), hexutil.Encode(want.ret)) {
			rt.Fatalf("error %q does not carry the revert data %x\n%s", got.err, want.ret, c.Trace())
		}
	}
	if got.gasUsed != want.gasUsed {
		rt.Fatalf("charged %d gas, want %d (err %v)\n%s", got.gasUsed, want.gasUsed, want.err, c.Trace())
	}
	compareState(rt, c, ctx, ref, universe)
	return want
}

func TestEVMMatchesReference(t *testing.T) {
	setup()
	eoas := []common.Address{common.HexToAddress("0x3000000000000000000000000000000000000001"), kit.Addr(nContracts)}
	kit.Run(t, "4 generated contracts (storage, transient storage, logs, calls of all kinds, creations, self-destructs, reverts, value) and 1-5 transactions run by the keeper and by reference geth; "+
		"non-trivial = some transaction succeeded although one of its inner frames failed, or it created or destroyed contracts",
		func(rt *rapid.T, c *kit.Case) {
			ctx, _ := kit.Branch(baseCtx)
			ref := newReference()
			universe := map[common.Address]bool{}
			var contracts []common.Address
			for i := 0; i < nContracts; i++ {
				contracts = append(contracts, crypto.CreateAddress(kit.Addr(i), 0))
			}
			targets := append(append([]common.Address{}, contracts...), eoas...)
			targets = append(targets, contracts...)
			for _, a := range targets {
				universe[a] = true
			}
			for i := 0; i <= nContracts; i++ {
				universe[kit.Addr(i)] = true
			}
			g := &gen{rt: rt, addrs: targets, feat: map[string]bool{}}
			n := rapid.IntRange(1, nContracts).Draw(rt, "contracts")
			for i := 0; i < n; i++ {
				g.desc = nil
				code := g.program(1, 6)
				c.Logf("contract %d %s:\n%s", i, contracts[i], strings.Join(g.desc, "\n"))
				val := uint256.NewInt(pick(rt, []uint64{0, 100}, "endow"))
				step(rt, c, ctx, ref, tx{kind: txCreate, from: kit.Addr(i), data: kit.InitCode(nil, code), value: val, gas: 20_000_000}, universe)
			}
			txs := rapid.IntRange(1, 5).Draw(rt, "txs")
			for i := 0; i < txs; i++ {
				gas := pick(rt, []uint64{10_000_000, 10_000_000, 10_000_000, 1_000_000, 200_000, 50_000, 3000}, "gas")
				if gas < 10_000_000 {
					gas += uint64(rapid.IntRange(0, 50_000).Draw(rt, "gasExtra"))
				}
				t := tx{from: kit.Addr(rapid.IntRange(0, nContracts).Draw(rt, "from")), gas: gas, value: uint256.NewInt(pick(rt, []uint64{0, 0, 2}, "txvalue"))}
				if rapid.Bool().Draw(rt, "al") {
					t.al = ethtypes.AccessList{{Address: pick(rt, targets, "alAddr"), StorageKeys: []common.Hash{{}}}}
				}
				g.desc = nil
				t.kind = pick(rt, []txKind{txCall, txCall, txCall, txCall, txCreate, txCreate2, txStatic}, "kind")
				switch t.kind {
				case txCall, txStatic:
					t.to = pick(rt, targets, "to")
					d := rapid.IntRange(1, 4).Draw(rt, "depth")
					t.data = append(common.BigToHash(big.NewInt(int64(d))).Bytes(), common.BigToHash(big.NewInt(99)).Bytes()...)
					c.Logf("tx call(static=%v) %s -> %s depth %d value %s gas %d", t.kind == txStatic, t.from, t.to, d, t.value, gas)
				default:
					t.data = g.initCode(1)
					t.salt = uint64(rapid.IntRange(0, 1).Draw(rt, "txsalt"))
					c.Logf("tx create(%d) from %s value %s gas %d\n%s", t.kind, t.from, t.value, gas, strings.Join(g.desc, "\n"))
				}
				o := step(rt, c, ctx, ref, t, universe)
				if o.err == nil && len(o.created) > 0 {
					c.NonTrivial()
				}
				if o.err == nil && (g.feat["revert"] || g.feat["selfdestruct"]) {
					c.NonTrivial()
				}
			}
			for f := range g.feat {
				c.Label("feature " + f)
			}
		})
}
