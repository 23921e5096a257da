// Package nft checks the bridged and native ERC721 collections.
package nft

import (
	"bytes"
	"fmt"
	"math/big"
	"slices"
	"strings"
	"testing"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/vm"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"
	"pgregory.net/rapid"

	minievmapp "github.com/initia-labs/minievm/app"
	ics721 "github.com/initia-labs/minievm/x/evm/contracts/ics721_erc721"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifh/kit"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func must2[T any](v T, err error) T {
	must(err)
	return v
}

var (
	nftABI = must2(ics721.Ics721Erc721MetaData.GetAbi())
	nftBin = must2(hexutil.Decode(ics721.Ics721Erc721Bin))

	refuser, acceptor, native common.Address
	long                      = sdk.AccAddress(ethcrypto.Keccak256([]byte("long account")))
	twin                      = append(slices.Clone(long[:11]), append([]byte{long[11] ^ 1}, long[12:]...)...) // shares the shorthand of long

	shared = &kit.Shared{Opts: kit.Options{NumKeys: 3, MaxGas: 1 << 60}, Setup: func(app *minievmapp.MinitiaApp, ctx sdk.Context) {
		create := func(code []byte) common.Address {
			_, a, _, err := app.EVMKeeper.EVMCreate(ctx, kit.Addr(0), code, uint256.NewInt(0), nil)
			must(err)
			return a
		}
		refuser = create(kit.InitCode(nil, kit.Forwarder()))
		// answers every call with its selector, as onERC721Received has to
		b := kit.NewAsm()
		b.Push(0).Op(vm.CALLDATALOAD).Push(224).Op(vm.SHR).Push(224).Op(vm.SHL).Push(0).Op(vm.MSTORE).Push(32).Push(0).Op(vm.RETURN)
		acceptor = create(kit.InitCode(nil, b.Bytes()))
		native = create(append(slices.Clone(nftBin), must2(nftABI.Pack("", "native", "NAT"))...))
	}}
)

type token struct {
	owner       common.Address
	uri, origin string
	approved    common.Address
}

type class struct {
	contract common.Address
	name     string
	uri      string
	minter   common.Address
	tokens   map[string]*token // by decimal number
	all      map[[2]common.Address]bool
}

type world struct {
	app     *minievmapp.MinitiaApp
	k       *evmkeeper.ERC721Keeper
	ctx     sdk.Context
	rt      *rapid.T
	c       *kit.Case
	classes map[string]*class
	known   []string // class ids created, and the native one
	taken   bool     // the shorthand is registered to long
}

func (w *world) fail(format string, args ...any) {
	w.rt.Fatalf("%s\n%s", w.c.Trace(), fmt.Sprintf(format, args...))
}

func (w *world) check(what string, err error, want bool) bool {
	if (err == nil) != want {
		w.fail("%s: result %v, expected success=%v", what, err, want)
	}
	if want {
		w.c.Label("ok " + what)
	} else {
		w.c.Label("refused " + what)
		w.c.NonTrivial()
	}
	return want
}

func attempt(ctx sdk.Context, f func(ctx sdk.Context) error) (err error) {
	br, write := kit.Branch(ctx)
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	if err := f(br.WithGasMeter(storetypes.NewGasMeter(1e13))); err != nil {
		return err
	}
	write()
	return nil
}

var (
	classIDs = []string{"ibc/AAAA", "ibc/BBBB", "ibc/", "plain", "other class", "evm"}
	tokenIDs = []string{"1", "2", "7", "007", "+7", "0", "-0", "-1", "-7", "115792089237316195423570985008687907853269984665640564039457584007913129639935",
		"115792089237316195423570985008687907853269984665640564039457584007913129639936", "115792089237316195423570985008687907853269984665640564039457584007913129639943",
		"abc", "abd", "Abc", "ABC", " abc", "", "0x7", "7 ", "a/b", "ünï\x00", strings.Repeat("long", 40), "1e1", "8", "9", "10", "11", "12", "13", "14"}
	uris = []string{"", "https://x/1", "ipfs://y", strings.Repeat("u", 100)}
)

// (mostly usual ones)
var idPool = append(slices.Clone(tokenIDs), "1", "2", "7", "1", "2", "7", "1", "2", "7", "8", "9", "10", "11", "12", "13", "14", "1", "2", "7", "8", "9", "10", "11", "12", "13", "14")

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

// number is the contract's number of a token id, if it has one.
func number(classID, id string) (string, bool) {
	if strings.HasPrefix(classID, "ibc/") {
		return "hash of " + id, true
	}
	n, ok := new(big.Int).SetString(id, 10)
	if !ok || n.Sign() < 0 || n.Cmp(two256) >= 0 {
		return "", false
	}
	return n.String(), true
}

func nativeID() string { return "evm/" + native.Hex()[2:] }

func (w *world) class() string {
	if rapid.IntRange(0, 3).Draw(w.rt, "known class") > 0 {
		return rapid.SampledFrom(w.known).Draw(w.rt, "class")
	}
	return rapid.SampledFrom(append([]string{"nosuch", "evm/zz", nativeID(), strings.ToLower(nativeID())}, append(classIDs, classIDs...)...)).Draw(w.rt, "class")
}

// lookup gives the class of an id.
func (w *world) lookup(id string) *class {
	if strings.HasPrefix(id, "evm/") {
		if strings.EqualFold(id, nativeID()) {
			return w.classes[nativeID()]
		}
		return nil
	}
	return w.classes[id]
}

func parties() map[string]sdk.AccAddress {
	return map[string]sdk.AccAddress{"key0": kit.Acc(0), "key1": kit.Acc(1), "key2": kit.Acc(2), "long": long, "twin": twin,
		"refuser": refuser.Bytes(), "acceptor": acceptor.Bytes(), "zero": make([]byte, 20), "std": evmtypes.StdAddress.Bytes()}
}

// party is somebody who can own tokens.
func (w *world) party(l string) (string, sdk.AccAddress) {
	n := rapid.SampledFrom([]string{"key0", "key0", "key1", "key1", "key2", "key2", "long", "long", "twin", "refuser", "acceptor", "acceptor", "key0", "key1", "key2", "long", "acceptor", "key0", "key1", "key2", "long", "zero", "std"}).Draw(w.rt, l)
	return n, parties()[n]
}

// canReceive tells whether a party accepts tokens.
func (w *world) canReceive(n string) bool {
	return n != "zero" && n != "refuser" && (n != "twin" || !w.taken)
}

// some gives a token of the class and its owner, mostly.
func (w *world) some(cl *class) (string, string) {
	if cl == nil || len(cl.tokens) == 0 || rapid.IntRange(0, 4).Draw(w.rt, "some token") == 5 {
		return "", ""
	}
	var nums []string
	for n := range cl.tokens {
		nums = append(nums, n)
	}
	slices.Sort(nums)
	t := cl.tokens[rapid.SampledFrom(nums).Draw(w.rt, "token")]
	if rapid.IntRange(0, 5).Draw(w.rt, "any owner") == 5 {
		return t.origin, ""
	}
	for n, a := range parties() {
		if common.BytesToAddress(a) == t.owner && n != "twin" {
			return t.origin, n
		}
	}
	return t.origin, ""
}

func (w *world) ids() []string {
	var out []string
	for i, k := 0, rapid.SampledFrom([]int{0, 1, 1, 1, 1, 2, 3}).Draw(w.rt, "ids"); i < k; i++ {
		out = append(out, rapid.SampledFrom(idPool).Draw(w.rt, "id"))
	}
	return out
}

func (c *class) balance(a common.Address) (n int64) {
	for _, t := range c.tokens {
		if t.owner == a {
			n++
		}
	}
	return
}

func (w *world) step() string {
	rt := w.rt
	op := rapid.SampledFrom([]string{"class", "class", "mint", "mint", "mint", "mint", "transfer", "transfer", "transfer", "burn", "burn", "evm", "evm", "evm"}).Draw(rt, "op")
	id := w.class()
	cl := w.lookup(id)
	switch op {
	case "class":
		if strings.HasPrefix(id, "evm/") {
			return "-" // (a native collection is no bridged class)
		}
		uri := rapid.SampledFrom(uris).Draw(rt, "uri")
		w.c.Logf("class %q uri %q", id, uri)
		var events sdk.Events
		err := attempt(w.ctx, func(ctx sdk.Context) error {
			err := w.k.CreateOrUpdateClass(ctx, id, uri, "")
			events = ctx.EventManager().Events()
			return err
		})
		w.check("class", err, true)
		if cl == nil {
			cl = &class{name: id, minter: evmtypes.StdAddress, tokens: map[string]*token{}, all: map[[2]common.Address]bool{}}
			cl.contract = must2(w.k.GetContractAddrByClassId(w.ctx, id))
			w.classes[id] = cl
			w.known = append(w.known, id)
			for oid, o := range w.classes {
				if oid != id && o.contract == cl.contract {
					w.fail("classes %q and %q share contract %s", oid, id, o.contract)
				}
			}
			w.events(events, evmtypes.EventTypeERC721Created, 1, evmtypes.AttributeKeyContract, cl.contract.Hex())
		} else {
			w.events(events, evmtypes.EventTypeERC721Created, 0, "", "")
		}
		cl.uri = uri
	case "mint":
		n, to := w.party("to")
		ids := w.ids()
		var us []string
		for range ids {
			us = append(us, rapid.SampledFrom(uris).Draw(rt, "uri"))
		}
		w.c.Logf("mint %q %q to %s", id, ids, n)
		want := cl != nil && (n != "twin" || !w.taken) && (len(ids) == 0 || w.canReceive(n)) && cl.minter == evmtypes.StdAddress
		if cl != nil && len(ids) == 0 {
			want = n != "twin" || !w.taken
		}
		next := map[string]*token{}
		for i, t := range ids {
			num, ok := number(id, t)
			want = want && ok && cl.tokens[num] == nil && next[num] == nil
			next[num] = &token{owner: common.BytesToAddress(to), uri: us[i], origin: t}
		}
		var events sdk.Events
		err := attempt(w.ctx, func(ctx sdk.Context) error {
			err := w.k.Mints(ctx, to, id, ids, us, make([]string, len(ids)))
			events = ctx.EventManager().Events()
			return err
		})
		if w.check("mint", err, want) {
			for num, t := range next {
				cl.tokens[num] = t
			}
			w.events(events, evmtypes.EventTypeERC721Minted, len(ids), evmtypes.AttributeKeyContract, cl.contract.Hex())
		}
	case "transfer":
		fn, from := w.party("from")
		if fn == "zero" {
			return "-" // (nobody acts as the zero address, which "owns" all tokens that do not exist)
		}
		n, to := w.party("to")
		ids := w.ids()
		if t, o := w.some(cl); t != "" {
			ids = append(ids[:len(ids)/2], t)
			if o != "" {
				fn, from = o, parties()[o]
			}
		}
		w.c.Logf("transfer %q %q from %s to %s", id, ids, fn, n)
		want := cl != nil && (fn != "twin" || !w.taken)
		taken := w.taken
		if fn == "long" {
			taken = true
		}
		if fn == "twin" && want && !w.taken {
			return "-" // (would take the shorthand of long)
		}
		want = want && (n != "twin" || !taken)
		if len(ids) > 0 {
			want = want && w.canReceive(n)
		}
		for _, t := range ids {
			num, ok := number(id, t)
			owned := want && ok && cl.tokens[num] != nil && cl.tokens[num].owner == common.BytesToAddress(from)
			// (an earlier one of the same transfer went to somebody else)
			if owned && !bytes.Equal(from, to) && slices.ContainsFunc(ids[:slices.Index(ids, t)], func(o string) bool { on, _ := number(id, o); return on == num }) {
				owned = false
			}
			want = want && owned
		}
		if want && !bytes.Equal(from, to) && dup(id, ids) {
			want = false
		}
		err := attempt(w.ctx, func(ctx sdk.Context) error { return w.k.Transfers(ctx, from, to, id, ids) })
		if w.check("transfer", err, want) {
			w.taken = taken
			for _, t := range ids {
				num, _ := number(id, t)
				cl.tokens[num].owner, cl.tokens[num].approved = common.BytesToAddress(to), common.Address{}
			}
		}
	case "burn":
		n, by := w.party("by")
		if n == "zero" {
			return "-"
		}
		ids := w.ids()
		if t, o := w.some(cl); t != "" {
			ids = append(ids[:len(ids)/2], t)
			if o != "" {
				n, by = o, parties()[o]
			}
		}
		w.c.Logf("burn %q %q by %s", id, ids, n)
		want := cl != nil && (n != "twin" || !w.taken) && !dup(id, ids)
		for _, t := range ids {
			num, ok := number(id, t)
			want = want && ok && cl.authorized(num, common.BytesToAddress(by))
		}
		var events sdk.Events
		err := attempt(w.ctx, func(ctx sdk.Context) error {
			err := w.k.Burns(ctx, by, id, ids)
			events = ctx.EventManager().Events()
			return err
		})
		if w.check("burn", err, want) {
			for _, t := range ids {
				num, _ := number(id, t)
				delete(cl.tokens, num)
			}
			w.events(events, evmtypes.EventTypeERC721Burned, len(ids), evmtypes.AttributeKeyContract, cl.contract.Hex())
		}
	case "evm":
		if cl == nil {
			return "-"
		}
		w.evm(id, cl)
	}
	if cl == nil {
		return "-"
	}
	return cl.name
}

func dup(classID string, ids []string) bool {
	seen := map[string]bool{}
	for _, t := range ids {
		n, _ := number(classID, t)
		if seen[n] {
			return true
		}
		seen[n] = true
	}
	return false
}

// authorized tells whether a may move or burn the token.
func (c *class) authorized(num string, a common.Address) bool {
	t := c.tokens[num]
	return t != nil && a != (common.Address{}) && (t.owner == a || t.approved == a || c.all[[2]common.Address{t.owner, a}])
}

// evm uses a collection as contracts and wallets do.
func (w *world) evm(id string, cl *class) {
	rt := w.rt
	tid := rapid.SampledFrom(idPool).Draw(rt, "id")
	if t, _ := w.some(cl); t != "" {
		tid = t
	}
	num, ok := number(id, tid)
	if !ok {
		return
	}
	n, _ := evmtypes.TokenIdToBigInt(id, tid)
	by := kit.Addr(rapid.IntRange(0, 2).Draw(rt, "by"))
	other := rapid.SampledFrom([]common.Address{kit.Addr(0), kit.Addr(1), kit.Addr(2), acceptor, common.BytesToAddress(long)}).Draw(rt, "other")
	t := cl.tokens[num]
	op := rapid.SampledFrom([]string{"approve", "approve", "setApprovalForAll", "transferFrom", "transferFrom", "transferFrom", "mint", "mint", "burn"}).Draw(rt, "evm op")
	flag := rapid.Bool().Draw(rt, "flag")
	if t != nil && rapid.IntRange(0, 2).Draw(rt, "owner acts") > 0 {
		if slices.Contains([]common.Address{kit.Addr(0), kit.Addr(1), kit.Addr(2)}, t.owner) {
			by = t.owner
		}
	}
	if op == "mint" && rapid.IntRange(0, 3).Draw(rt, "minter") > 0 {
		by = cl.minter
	}
	from := rapid.SampledFrom([]common.Address{kit.Addr(0), kit.Addr(1), kit.Addr(2)}).Draw(rt, "from")
	if t != nil && rapid.IntRange(0, 3).Draw(rt, "right owner") > 0 {
		from = t.owner
	}
	var in []byte
	want := false
	switch op {
	case "approve": // the owner or an operator
		in, want = must2(nftABI.Pack(op, other, n)), t != nil && (t.owner == by || cl.all[[2]common.Address{t.owner, by}])
	case "setApprovalForAll":
		in, want = must2(nftABI.Pack(op, other, flag)), true
	case "transferFrom":
		in, want = must2(nftABI.Pack(op, from, other, n)), cl.authorized(num, by) && t.owner == from
	case "mint":
		in, want = must2(nftABI.Pack(op, other, n, "evm uri", tid)), cl.minter == by && t == nil
	case "burn":
		in, want = must2(nftABI.Pack(op, n)), cl.authorized(num, by)
	}
	w.c.Logf("%s %q %q by %s other %s from %s %v", op, id, tid, by, other, from, flag)
	err := attempt(w.ctx, func(ctx sdk.Context) error {
		_, _, err := w.app.EVMKeeper.EVMCall(ctx, by, cl.contract, in, nil, nil)
		return err
	})
	if !w.check("evm "+op, err, want) {
		return
	}
	switch op {
	case "approve":
		t.approved = other
	case "setApprovalForAll":
		cl.all[[2]common.Address{by, other}] = flag
	case "transferFrom":
		t.owner, t.approved = other, common.Address{}
	case "mint":
		cl.tokens[num] = &token{owner: other, uri: "evm uri", origin: tid}
	case "burn":
		delete(cl.tokens, num)
	}
}

// events counts the events of a type, which all have the attribute.
func (w *world) events(es sdk.Events, typ string, n int, key, val string) {
	got := 0
	for _, e := range es {
		if e.Type == typ {
			got++
			a, ok := e.GetAttribute(key)
			if !ok || !strings.EqualFold(a.Value, val) {
				w.fail("event %s has %s=%q, expected %q", typ, key, a.Value, val)
			}
		}
	}
	if got != n {
		w.fail("%d events %s, expected %d", got, typ, n)
	}
}

// agree compares every answer with the model.
func (w *world) agree(only string) {
	seen := map[common.Address]string{}
	for _, id := range append([]string{nativeID(), "nosuch"}, classIDs...) {
		cl := w.lookup(id)
		name, uri, _, err := w.k.GetClassInfo(w.ctx, id)
		if (err == nil) != (cl != nil) || (cl != nil && (name != cl.name || uri != cl.uri)) {
			w.fail("class %q has name %q uri %q (%v), expected %+v", id, name, uri, err, cl)
		}
		if cl == nil {
			if _, err := w.k.GetContractAddrByClassId(w.ctx, id); err == nil {
				w.fail("class %q has a contract", id)
			}
			continue
		}
		addr, err := evmtypes.ContractAddressFromClassId(w.ctx, w.k, id)
		back, err2 := evmtypes.ClassIdFromCollectionAddress(w.ctx, w.k, cl.contract)
		if err != nil || err2 != nil || addr != cl.contract || back != id {
			w.fail("class %q has contract %s (%v), which has class %q (%v)", id, addr, err, back, err2)
		}
		if o, ok := seen[addr]; ok {
			w.fail("classes %q and %q share a contract", o, id)
		}
		seen[addr] = id
		if only != "" && only != cl.name {
			continue
		}
		for _, t := range tokenIDs {
			num, ok := number(id, t)
			owner, err := w.k.OwnerOf(w.ctx, t, id)
			var m *token
			if ok {
				m = cl.tokens[num]
			}
			if (err == nil) != (m != nil) || (m != nil && owner != m.owner) {
				w.fail("token %q of %q belongs to %s (%v), expected %+v", t, id, owner, err, m)
			}
			if m == nil {
				continue
			}
			us, _, err := w.k.GetTokenInfos(w.ctx, id, []string{t})
			if err != nil || us[0] != m.uri {
				w.fail("token %q of %q has uri %q (%v), expected %q", t, id, us, err, m.uri)
			}
			n, _ := evmtypes.TokenIdToBigInt(id, t)
			ret, err := w.app.EVMKeeper.EVMStaticCall(w.ctx, kit.Addr(0), cl.contract, must2(nftABI.Pack("tokenOriginId", n)), nil)
			must(err)
			if o := must2(nftABI.Unpack("tokenOriginId", ret))[0].(string); o != m.origin {
				w.fail("token %q of %q has origin id %q, expected %q", t, id, o, m.origin)
			}
		}
		for _, a := range []sdk.AccAddress{kit.Acc(0), kit.Acc(1), kit.Acc(2), long, acceptor.Bytes(), refuser.Bytes(), evmtypes.StdAddress.Bytes()} {
			got, err := w.k.BalanceOf(w.ctx, a, id)
			if want := cl.balance(common.BytesToAddress(a)); err != nil || !got.Equal(math.NewInt(want)) {
				w.fail("%s has %s tokens of %q (%v), expected %d", a, got, id, err, want)
			}
		}
	}
	// nothing else is registered
	n := 0
	must(w.app.EVMKeeper.ERC721ClassIdsByContractAddr.Walk(w.ctx, nil, func([]byte, string) (bool, error) { n++; return false, nil }))
	if n != len(w.classes)-1 {
		w.fail("%d classes are registered, expected %d", n, len(w.classes)-1)
	}
}

// TestOwnership drives histories of class and token operations against a model of ownership.
func TestOwnership(t *testing.T) {
	kit.Run(t, "an operation was refused", func(rt *rapid.T, c *kit.Case) {
		app := shared.Get()
		ctx, _ := kit.Branch(kit.Ctx(app))
		w := &world{app: app, ctx: ctx, rt: rt, c: c, k: app.EVMKeeper.ERC721Keeper().(*evmkeeper.ERC721Keeper), known: []string{nativeID()}, classes: map[string]*class{
			nativeID(): {contract: native, name: "native", minter: kit.Addr(0), tokens: map[string]*token{}, all: map[[2]common.Address]bool{}}}}
		for i, k := 0, rapid.IntRange(2, 40).Draw(rt, "steps"); i < k; i++ {
			w.agree(w.step())
		}
		w.agree("")
		shared.Done()
	})
}
