package hooks

import (
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"slices"
	"strings"
	"testing"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"

	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	clienttypes "github.com/cosmos/ibc-go/v8/modules/core/02-client/types"
	channeltypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"

	hookstypes "github.com/initia-labs/initia/x/ibc-hooks/types"
	nfttransferkeeper "github.com/initia-labs/initia/x/ibc/nft-transfer/keeper"
	nfttypes "github.com/initia-labs/initia/x/ibc/nft-transfer/types"

	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifh/kit"
)

// form writes an address in one of its forms.
func (w *world) form(a common.Address, l string) string {
	switch rapid.IntRange(0, 3).Draw(w.rt, l+" form") {
	case 0:
		return strings.ToLower(a.Hex())
	case 1:
		return bech(a)
	}
	return a.Hex()
}

func (w *world) rec(l string) common.Address {
	return recs[rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(w.rt, l)]
}

type object = map[string]any

// ids of callbacks; 4n+3 are refused by the recorders.
func (w *world) id() uint64 {
	return rapid.SampledFrom([]uint64{0, 1, 2, 3, 4, 1000, 1003, 1<<32 + 1, 1<<53 + 1, 1<<53 + 2, 1<<62 + 9, 1<<64 - 2, 1<<64 - 1}).Draw(w.rt, "callback id")
}

type callback struct {
	ok  bool // a callback is named
	id  uint64
	rec common.Address
}

// callback gives the async_callback part of a memo.
func (w *world) callback() (any, callback) {
	b := callback{true, w.id(), w.rec("callback")}
	o := object{"id": b.id, "contract_address": w.form(b.rec, "callback")}
	switch rapid.SampledFrom([]string{"", "", "", "", "", "", "text id", "negative", "no id", "other key", "extra", "not an address", "not an object", "null"}).Draw(w.rt, "callback kind") {
	case "text id":
		o["id"] = fmt.Sprint(b.id)
		b.ok = false
	case "negative":
		o["id"] = -1
		b.ok = false
	case "no id":
		delete(o, "id")
		b.id = 0
	case "other key":
		delete(o, "contract_address")
		b.ok = false
	case "extra":
		o["more"] = "things"
	case "not an address":
		o["contract_address"] = "somewhere"
		b.ok = false
	case "not an object":
		return "callback", callback{}
	case "null":
		return nil, callback{}
	}
	return o, b
}

// text writes a memo.
func (w *world) text(o object) string {
	s := mustJSON(o)
	switch rapid.IntRange(0, 7).Draw(w.rt, "spelling") {
	case 0:
		return " " + strings.ReplaceAll(s, "{", "{ \n") + "\n"
	case 1:
		return strings.ReplaceAll(s, `"evm"`, `"\u0065vm"`)
	}
	return s
}

// idle gives a memo without a message for the chain, and whether the packet may also be refused.
func (w *world) idle() (string, bool) {
	msg := object{"contract_addr": recs[0].Hex(), "input": "0x"}
	switch k := rapid.IntRange(0, 15).Draw(w.rt, "idle memo"); k {
	case 0, 1:
		return "", false
	case 2:
		return "thanks for all the fish", false
	case 3:
		return "{}", false
	case 4:
		return mustJSON(object{"wasm": object{"message": msg}, "EVM": object{"message": msg}, "evm ": object{"message": msg}}), false
	case 5:
		return mustJSON([]any{object{"evm": object{"message": msg}}}), false
	case 6:
		return mustJSON(object{"evm": object{"message": msg}}) + "}", false
	case 7:
		return mustJSON(object{"memo": object{"evm": object{"message": msg}}}), false
	case 8:
		return `"evm"`, false
	case 9:
		return mustJSON(object{"evm": nil}), true
	case 10:
		return mustJSON(object{"evm": object{}}), true
	case 11:
		return mustJSON(object{"evm": object{"message": nil}}), true
	case 12:
		return mustJSON(object{"forward": object{"receiver": "somebody", "port": ics20, "channel": rapid.SampledFrom([]string{"channel-3", "channel-1", "channel-77"}).Draw(w.rt, "next")}}), false
	case 13:
		return mustJSON(object{"evm": object{"messages": msg}}), true
	default:
		cb, info := w.callback()
		return w.text(object{"evm": object{"async_callback": cb}}), !info.ok
	}
}

// broken gives a memo for the chain which makes no sense.
func (w *world) broken() string {
	good := object{"contract_addr": recs[0].Hex(), "input": "0x"}
	return mustJSON(rapid.SampledFrom([]object{
		{"evm": "message"}, {"evm": []any{good}}, {"evm": 7}, {"evm": object{"message": "0x"}}, {"evm": object{"message": []any{good}}},
		{"evm": object{"message": object{"contract_addr": 5, "input": "0x"}}},
		{"evm": object{"message": object{"contract_addr": recs[0].Hex(), "input": 5}}},
		{"evm": object{"message": object{"contract_addr": recs[0].Hex(), "input": "zz"}}},
		{"evm": object{"message": object{"contract_addr": recs[0].Hex(), "input": "0x", "value": "much"}}},
		{"evm": object{"message": object{"contract_addr": "somewhere", "input": "0x"}}},
		{"evm": object{"message": object{"contract_addr": "", "input": "0x"}}},
		{"evm": object{"message": object{"input": "0x"}}},
		{"evm": object{"message": object{}}},
	}).Draw(w.rt, "broken memo"))
}

var senders = []string{"foreign", "foreign", "somebody/else", "cosmos1notreal", "ünï", strings.Repeat("x", 120), "2"}

func (w *world) sender() string {
	return rapid.SampledFrom(append(senders, kit.Acc(0).String(), bech(recs[0]))).Draw(w.rt, "sender")
}

// message of a hook and what it does.
type message struct {
	target  common.Address
	addr    string
	allowed bool
	matched bool // the receiver is the contract
	program []kit.FwdItem
	input   []byte
	value   *big.Int
	forward bool
	fails   bool // the program reverts
	memo    string
}

// hook draws a message; items are the calls which use the token.
func (w *world) hook(items []kit.FwdItem, value *big.Int) (m message, receiver string) {
	rt := w.rt
	m.target = w.rec("target")
	m.value = value
	if rapid.IntRange(0, 7).Draw(rt, "account target") == 7 {
		m.target, items = kit.Addr(1), nil
	}
	m.allowed = w.acl[m.target]
	m.addr = w.form(m.target, "target")
	m.program = items
	if rapid.IntRange(0, 9).Draw(rt, "reverts") == 9 && m.target != kit.Addr(1) {
		m.program = append(m.program, kit.FwdItem{Mode: kit.FwdRevert})
		m.fails = true
	}
	m.input = kit.FwdProgram(m.program...)
	o := object{"contract_addr": m.addr, "input": hexutil.Encode(m.input)}
	if value.Sign() > 0 || rapid.Bool().Draw(rt, "explicit value") {
		o["value"] = value.String()
	}
	if rapid.Bool().Draw(rt, "explicit sender") {
		o["sender"] = rapid.SampledFrom([]string{kit.Acc(0).String(), "x", bech(recs[0])}).Draw(rt, "claimed sender")
	}
	if rapid.IntRange(0, 3).Draw(rt, "access list") == 3 {
		o["access_list"] = []any{object{"address": m.target.Hex(), "storage_keys": []string{common.Hash{1}.Hex()}}}
	}
	receiver, m.matched = m.addr, true
	if rapid.IntRange(0, 9).Draw(rt, "other receiver") == 9 {
		receiver = rapid.SampledFrom([]string{kit.Acc(0).String(), kit.Addr(0).Hex(), recs[1].Hex(), "", bech(recs[2])}).Draw(rt, "receiver")
		m.matched = receiver == m.addr
	}
	e := object{"message": o}
	if rapid.IntRange(0, 3).Draw(rt, "callback as well") == 3 {
		if cb, info := w.callback(); info.ok {
			e["async_callback"] = cb
		}
	}
	all := object{"evm": e}
	if rapid.IntRange(0, 9).Draw(rt, "forward as well") == 9 {
		m.forward = true
		all["forward"] = object{"receiver": "somebody", "port": ics20, "channel": "channel-3"}
	}
	if rapid.IntRange(0, 5).Draw(rt, "others as well") == 5 {
		all["wasm"] = object{"contract": "x"}
	}
	m.memo = w.text(all)
	return
}

// refused checks that a packet was refused whole.
func (w *world) refused(what string, o outcome) {
	w.c.Label("refused " + what)
	if o.result != "error" {
		w.fail("%s: the packet's result is %s, expected an error", what, o.result)
	}
	w.same(what+": the refused packet changed something", w.ctx, o.ctx)
	w.keep(o)
}

// untouched checks that a packet had the result it has without the hooks.
func (w *world) untouched(p channeltypes.Packet, o outcome, orRefused bool) {
	ref := w.plainly(p)
	if orRefused && o.result == "error" && ref.result != "error" {
		w.refused("empty hook", o)
		return
	}
	w.c.Label("plain " + ref.result)
	if o.result != ref.result {
		w.fail("a packet without a hook: %s, without the middleware: %s", o.result, ref.result)
	}
	w.same("a packet without a hook", ref.ctx, o.ctx)
	w.keep(o)
}

// executed checks what the call itself did, given the state the transfer alone makes.
func (w *world) executed(what string, m message, from sdk.AccAddress, ref, o outcome, moved map[string]int64) {
	w.c.Label("executed")
	if strings.Contains(what, "-transfer/channel-5/") || strings.Contains(what, ics20+"/channel-1/") {
		w.c.Label("executed with a voucher which returned")
	}
	w.c.NonTrivial()
	if o.result != "success" {
		w.fail("the hook's call must have succeeded: %s", o.result)
	}
	for _, r := range recs {
		before, after := w.seen(ref.ctx, r), w.seen(o.ctx, r)
		want := before
		if r == m.target {
			want = seen{count: before.count + 1, kind: 3, id: before.id, success: before.success, caller: evm(from), value: common.BigToHash(m.value), hash: ethcrypto.Keccak256Hash(m.input)}
		}
		if after != want {
			w.fail("contract %s recorded %+v, expected %+v", r, after, want)
		}
	}
	w.balances(ref.ctx, o.ctx, from, func(a common.Address, denom string) *big.Int {
		d := big.NewInt(0)
		if denom == kit.FeeDenom {
			switch a {
			case evm(from):
				d.Sub(d, m.value)
			case m.target:
				d.Add(d, m.value)
			}
		}
		switch a {
		case evm(from):
			d.Sub(d, big.NewInt(moved[denom]))
		case m.target:
			d.Add(d, big.NewInt(moved[denom]))
		}
		return d
	})
	w.same("the call changed more than contracts and accounts", ref.ctx, o.ctx, "evm", "acc")
}

// balances compares the balances of everybody.
func (w *world) balances(ref, got sdk.Context, extra sdk.AccAddress, delta func(common.Address, string) *big.Int) {
	accs := [][]byte{kit.Acc(0), kit.Acc(1), kit.Acc(2)}
	for _, r := range recs {
		accs = append(accs, r.Bytes())
	}
	for _, ch := range []string{"channel-0", "channel-1", "channel-2", "channel-3"} {
		accs = append(accs, transfertypes.GetEscrowAddress(ics20, ch))
		for _, s := range senders[1:] {
			accs = append(accs, intermediate(ch, s))
		}
	}
	if extra != nil && !slices.ContainsFunc(accs, func(a []byte) bool { return string(a) == string(extra) }) {
		accs = append(accs, extra)
	}
	denoms := map[string]bool{kit.FeeDenom: true, "uother": true, evmDenom: true}
	for _, ch := range []string{"channel-1", "channel-3"} {
		for _, d := range foreign {
			denoms[hashed("ibc", ics20+"/"+ch+"/"+d)] = true
		}
	}
	for _, a := range accs {
		for d := range denoms {
			want := new(big.Int).Add(w.balance(ref, a, d), delta(evm(a), d))
			if have := w.balance(got, a, d); have.Cmp(want) != 0 {
				w.fail("%x has %s of %s, expected %s", a, have, d, want)
			}
		}
	}
}

var foreign = []string{"uatom", "gamm/pool/1", "transfer/channel-9/uosmo"}

func (w *world) setACL() {
	rt := w.rt
	w.acl = map[common.Address]bool{}
	def := rapid.IntRange(0, 3).Draw(rt, "allowed by default") == 3
	must(w.app.IBCHooksKeeper.Params.Set(w.ctx, hookstypes.NewParams(def)))
	for i, a := range append(slices.Clone(recs[:]), kit.Addr(1)) {
		w.acl[a] = def
		switch k := rapid.IntRange(0, 7).Draw(rt, "acl"); {
		case i == 0 && k > 0, k == 1, k == 2:
			w.acl[a] = true
			must(w.app.IBCHooksKeeper.SetAllowed(w.ctx, a.Bytes(), true))
		case k == 3, k == 4:
			w.acl[a] = false
			must(w.app.IBCHooksKeeper.SetAllowed(w.ctx, a.Bytes(), false))
		default:
			must(w.app.IBCHooksKeeper.ACLs.Remove(w.ctx, a.Bytes()))
		}
	}
	w.c.Logf("acl default %v: %v %v %v %v", def, w.acl[recs[0]], w.acl[recs[1]], w.acl[recs[2]], w.acl[kit.Addr(1)])
}

// incoming receives a packet with tokens.
func (w *world) incoming() {
	rt := w.rt
	from := rapid.SampledFrom([]string{"channel-0", "channel-2"}).Draw(rt, "from")
	to := map[string]string{"channel-0": "channel-1", "channel-2": "channel-3"}[from]
	denom := rapid.SampledFrom(append([]string{ics20 + "/" + from + "/" + kit.FeeDenom, ics20 + "/" + from + "/uother", ics20 + "/" + from + "/" + evmDenom, ics20 + "/" + from + "/" + ics20 + "/channel-1/uatom"}, foreign...)).Draw(rt, "denom")
	amount := rapid.SampledFrom([]int64{1, 5, 1000, 20_000, 30_000, 1, 7, 40_000, 99_999, 100_001, 0}).Draw(rt, "amount")
	data := transfertypes.FungibleTokenPacketData{Denom: denom, Amount: fmt.Sprint(amount), Sender: w.sender(), Receiver: kit.Acc(1).String()}
	if rapid.IntRange(0, 19).Draw(rt, "odd amount") == 19 {
		data.Amount = rapid.SampledFrom([]string{"", "-5", "1.5", "many", "115792089237316195423570985008687907853269984665640564039457584007913129639936"}).Draw(rt, "text amount")
	}
	packet := func() channeltypes.Packet {
		return channeltypes.Packet{SourcePort: ics20, SourceChannel: from, DestinationPort: ics20, DestinationChannel: to, Data: data.GetBytes()}
	}
	kind := rapid.SampledFrom([]string{"plain", "plain", "broken", "hook", "hook", "hook", "hook"}).Draw(rt, "kind")
	switch kind {
	case "plain":
		var lenient bool
		data.Memo, lenient = w.idle()
		data.Receiver = rapid.SampledFrom([]string{kit.Acc(1).String(), kit.Addr(1).Hex(), recs[0].Hex(), bech(recs[1]), "nobody", ""}).Draw(rt, "receiver")
		w.c.Logf("receive on %s %s", to, data.GetBytes())
		p, o := w.receive(ics20, from, data.GetBytes())
		w.untouched(p, o, lenient)
		return
	case "broken":
		data.Memo = w.broken()
		data.Receiver = rapid.SampledFrom([]string{recs[0].Hex(), bech(recs[0]), kit.Acc(1).String()}).Draw(rt, "receiver")
		w.c.Logf("receive on %s %s", to, data.GetBytes())
		_, o := w.receive(ics20, from, data.GetBytes())
		w.c.NonTrivial()
		w.refused("broken hook", o)
		return
	}

	who := intermediate(to, data.Sender)
	probe := packet()
	name := local(probe, denom)
	plainData := data
	plainData.Receiver = who.String()
	probe.Data = plainData.GetBytes()
	ref := w.plainly(probe)
	w.c.Logf("(the transfer alone: %s)", ref.result)
	var items []kit.FwdItem
	moved := map[string]int64{}
	tokenFails := false
	value := big.NewInt(0)
	if ref.result == "success" {
		token := must2(evmtypes.DenomToContractAddr(ref.ctx, w.app.EVMKeeper, name))
		if n := rapid.SampledFrom([]int64{0, amount, amount, amount, amount / 2, amount + 1}).Draw(rt, "pulled"); n > 0 {
			items = append(items, kit.FwdItem{Mode: kit.FwdCall, To: token, Data: must2(erc20ABI.Pack("transferFrom", evm(who), common.Address{}, big.NewInt(n)))})
			moved[name] = n
			tokenFails = n > amount
		}
		if rapid.IntRange(0, 3).Draw(rt, "with value") == 3 {
			value = rapid.SampledFrom([]*big.Int{big.NewInt(1), w.balance(ref.ctx, who, kit.FeeDenom), new(big.Int).Add(w.balance(ref.ctx, who, kit.FeeDenom), big.NewInt(1))}).Draw(rt, "value")
		}
	}
	// (the contract pulls to itself)
	m, receiver := w.hookFor(items, value)
	if m.target == kit.Addr(1) {
		moved, tokenFails = map[string]int64{}, false
	}
	data.Memo, data.Receiver = m.memo, receiver
	w.c.Logf("receive on %s %s", to, data.GetBytes())
	_, o := w.receive(ics20, from, data.GetBytes())

	switch {
	case m.forward:
		w.refused("hook with forward", o)
	case ref.result != "success":
		w.refused("transfer fails", o)
	case !m.allowed:
		w.c.NonTrivial()
		w.refused("not allowed", o)
	case !m.matched:
		w.c.NonTrivial()
		w.refused("other receiver", o)
	case m.fails || tokenFails || w.balance(ref.ctx, who, kit.FeeDenom).Cmp(new(big.Int).Add(m.value, big.NewInt(moved[kit.FeeDenom]))) < 0:
		w.c.NonTrivial()
		w.refused("call fails", o)
	default:
		if m.target == kit.Addr(1) {
			// (a call to an account only moves the value)
			w.c.Label("call to an account")
			if o.result != "success" {
				w.fail("a call to an account: %s", o.result)
			}
		}
		w.executed(denom, m, who, ref, o, moved)
		token := must2(evmtypes.DenomToContractAddr(o.ctx, w.app.EVMKeeper, name))
		left := new(big.Int).SetBytes(w.call(o.ctx, token, must2(erc20ABI.Pack("allowance", evm(who), m.target))))
		if want := amount - moved[name]; left.Cmp(big.NewInt(want)) != 0 {
			w.fail("%s of the token are left to the contract, expected %d", left, want)
		}
		w.keep(o)
	}
}

// hookFor makes the token calls move to the target of the hook.
func (w *world) hookFor(items []kit.FwdItem, value *big.Int) (message, string) {
	m, receiver := w.hook(items, value)
	if len(m.program) > 0 {
		for i := range m.program {
			if len(m.program[i].Data) > 0 {
				copy(m.program[i].Data[4+32+12:], m.target.Bytes())
			}
		}
		in := kit.FwdProgram(m.program...)
		m.memo = strings.Replace(m.memo, hex.EncodeToString(m.input), hex.EncodeToString(in), 1)
		m.input = in
	}
	return m, receiver
}

// incomingNFT receives a packet with NFTs.
func (w *world) incomingNFT() {
	rt := w.rt
	from := rapid.SampledFrom([]string{"channel-4", "channel-4", "channel-6"}).Draw(rt, "from")
	to := map[string]string{"channel-4": "channel-5", "channel-6": "channel-7"}[from]
	class := rapid.SampledFrom([]string{"kitties", "kitties", "nft-transfer/channel-9/dogs", ics7 + "/channel-4/plain", ics7 + "/channel-4/" + evmClass, ics7 + "/" + from + "/" + ics7 + "/channel-5/kitties"}).Draw(rt, "class")
	var ids []string
	for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "tokens"); i < n; i++ {
		if strings.HasPrefix(class, ics7+"/"+from+"/"+ics7) {
			ids = append(ids, rapid.SampledFrom([]string{"p", "q", "p", "q", "r"}).Draw(rt, "token"))
		} else if strings.HasPrefix(class, ics7+"/channel-4/") {
			ids = append(ids, rapid.SampledFrom([]string{"0", "3", "0", "3", "1"}).Draw(rt, "token"))
		} else if rapid.IntRange(0, 5).Draw(rt, "old token") == 5 {
			ids = append(ids, "k0")
		} else {
			w.fresh++
			ids = append(ids, fmt.Sprintf("k%d", w.fresh))
		}
	}
	data := nfttypes.NewNonFungibleTokenPacketData(class, "uri", "", ids, make([]string, len(ids)), make([]string, len(ids)), w.sender(), kit.Acc(1).String(), "")
	kind := rapid.SampledFrom([]string{"plain", "plain", "broken", "hook", "hook", "hook", "hook"}).Draw(rt, "kind")
	bytes := func() []byte { return data.GetBytes(ics7) }
	switch kind {
	case "plain":
		var lenient bool
		data.Memo, lenient = w.idle()
		data.Receiver = rapid.SampledFrom([]string{kit.Acc(1).String(), kit.Addr(1).Hex(), bech(recs[1]), "nobody", ""}).Draw(rt, "receiver")
		w.c.Logf("receive on %s %s", to, bytes())
		p, o := w.receive(ics7, from, bytes())
		w.untouched(p, o, lenient)
		return
	case "broken":
		data.Memo = w.broken()
		data.Receiver = rapid.SampledFrom([]string{recs[0].Hex(), bech(recs[0]), kit.Acc(1).String()}).Draw(rt, "receiver")
		w.c.Logf("receive on %s %s", to, bytes())
		_, o := w.receive(ics7, from, bytes())
		w.c.NonTrivial()
		w.refused("broken hook", o)
		return
	}
	who := intermediate(to, data.Sender)
	plainData := data
	plainData.Receiver = who.String()
	probe := channeltypes.Packet{SourcePort: ics7, SourceChannel: from, DestinationPort: ics7, DestinationChannel: to, Data: plainData.GetBytes(ics7)}
	name := local(probe, class)
	ref := w.plainly(probe)
	w.c.Logf("(the transfer alone: %s)", ref.result)
	var items []kit.FwdItem
	pulled := map[string]bool{}
	number := func(id string) *big.Int {
		n, ok := evmtypes.TokenIdToBigInt(name, id)
		if !ok {
			panic("no number")
		}
		return n
	}
	var contract common.Address
	if ref.result == "success" {
		contract = must2(evmtypes.ContractAddressFromClassId(ref.ctx, w.app.EVMKeeper, name))
		for _, id := range ids {
			if rapid.IntRange(0, 2).Draw(rt, "pull") > 0 && !pulled[id] {
				pulled[id] = true
				items = append(items, kit.FwdItem{Mode: kit.FwdCall, To: contract, Data: must2(nftABI.Pack("transferFrom", evm(who), common.Address{}, number(id)))})
			}
		}
	}
	m, receiver := w.hookFor(items, big.NewInt(0))
	if m.target == kit.Addr(1) {
		pulled = map[string]bool{}
	}
	data.Memo, data.Receiver = m.memo, receiver
	w.c.Logf("receive on %s %s", to, bytes())
	_, o := w.receive(ics7, from, bytes())
	switch {
	case ref.result != "success":
		w.refused("transfer fails", o)
	case !m.allowed:
		w.c.NonTrivial()
		w.refused("not allowed", o)
	case !m.matched:
		w.c.NonTrivial()
		w.refused("other receiver", o)
	case m.fails:
		w.c.NonTrivial()
		w.refused("call fails", o)
	default:
		w.executed(class, m, who, ref, o, nil)
		for _, id := range ids {
			owner := evm(w.call(o.ctx, contract, must2(nftABI.Pack("ownerOf", number(id)))))
			want := evm(who)
			if pulled[id] {
				want = m.target
			} else if a := evm(w.call(o.ctx, contract, must2(nftABI.Pack("getApproved", number(id))))); a != m.target {
				w.fail("token %s is approved to %s, expected the contract", id, a)
			}
			if owner != want {
				w.fail("token %s belongs to %s, expected %s", id, owner, want)
			}
		}
		w.keep(o)
	}
}

// backs remembers what the sender of a packet asked for.
type asked struct {
	p    channeltypes.Packet
	from sdk.AccAddress
	cb   callback
}

// outgoing sends tokens or an NFT away.
func (w *world) outgoing() (asked, bool) {
	rt := w.rt
	var a asked
	var o object
	memo := ""
	switch rapid.IntRange(0, 7).Draw(rt, "memo") {
	case 0:
		memo, _ = w.idleWithoutCallback()
	case 1:
		memo = w.broken()
	default:
		var part any
		part, a.cb = w.callback()
		e := object{"async_callback": part}
		if rapid.IntRange(0, 3).Draw(rt, "message as well") == 3 {
			e["message"] = object{"contract_addr": recs[1].Hex(), "input": "0x"}
		}
		o = object{"evm": e}
		memo = w.text(o)
	}
	var events sdk.Events
	if rapid.IntRange(0, 2).Draw(rt, "nft") == 2 {
		i := rapid.IntRange(0, 8).Draw(rt, "token")
		a.from = kit.Acc(i % 3)
		class := rapid.SampledFrom([]string{"plain", evmClass}).Draw(rt, "class")
		w.c.Logf("send NFT %d of %s from key%d with %s", i, class, i%3, memo)
		err := guarded(w.ctx, func(ctx sdk.Context) error {
			_, err := nfttransferkeeper.NewMsgServerImpl(w.app.NftTransferKeeper).Transfer(ctx, nfttypes.NewMsgTransfer(ics7, "channel-5", class, []string{fmt.Sprint(i)}, a.from.String(), "somebody", clienttypes.Height{}, later(ctx), memo))
			events = ctx.EventManager().Events()
			return err
		})
		if err != nil {
			w.c.Logf("(%v)", err)
			return a, false
		}
		a.p = channeltypes.Packet{SourcePort: ics7, SourceChannel: "channel-5", DestinationPort: ics7, DestinationChannel: "channel-4"}
	} else {
		a.from = rapid.SampledFrom([]sdk.AccAddress{kit.Acc(0), kit.Acc(1), kit.Acc(2), recs[0].Bytes(), recs[1].Bytes()}).Draw(rt, "from")
		denom := rapid.SampledFrom([]string{kit.FeeDenom, "uother", evmDenom, hashed("ibc", ics20+"/channel-1/uatom")}).Draw(rt, "denom")
		ch := rapid.SampledFrom([]string{"channel-1", "channel-3"}).Draw(rt, "to")
		n := rapid.Int64Range(1, 50).Draw(rt, "amount")
		w.c.Logf("send %d of %s from %s to %s with %s", n, denom, a.from, ch, memo)
		err := guarded(w.ctx, func(ctx sdk.Context) error {
			_, err := w.app.TransferKeeper.Transfer(ctx, transfertypes.NewMsgTransfer(ics20, ch, sdk.NewInt64Coin(denom, n), a.from.String(), "somebody", clienttypes.Height{}, later(ctx), memo))
			events = ctx.EventManager().Events()
			return err
		})
		if err != nil {
			w.c.Logf("(%v)", err)
			return a, false
		}
		a.p = channeltypes.Packet{SourcePort: ics20, SourceChannel: ch, DestinationPort: ics20, DestinationChannel: map[string]string{"channel-1": "channel-0", "channel-3": "channel-2"}[ch]}
	}
	for _, e := range events {
		if e.Type != channeltypes.EventTypeSendPacket {
			continue
		}
		get := func(k string) string {
			v, ok := e.GetAttribute(k)
			if !ok {
				panic("no " + k)
			}
			return v.Value
		}
		a.p.Data = must2(hex.DecodeString(get(channeltypes.AttributeKeyDataHex)))
		must2(fmt.Sscan(get(channeltypes.AttributeKeySequence), &a.p.Sequence))
		must2(fmt.Sscan(get(channeltypes.AttributeKeyTimeoutTimestamp), &a.p.TimeoutTimestamp))
	}
	return a, true
}

func (w *world) idleWithoutCallback() (string, bool) {
	return rapid.SampledFrom([]string{"", "hello", "{}", `{"evm":{}}`, `{"evm":null}`, `{"EVM":{"async_callback":{"id":1,"contract_address":"` + recs[0].Hex() + `"}}}`,
		`{"async_callback":{"id":1,"contract_address":"` + recs[0].Hex() + `"}}`, `{"evm":{"message":{"contract_addr":"` + recs[0].Hex() + `","input":"0x"}}}`}).Draw(w.rt, "memo without callback"), true
}

// settle ends a packet which was sent: acknowledged or timed out.
func (w *world) settle(a asked) {
	rt := w.rt
	how := rapid.SampledFrom([]string{"ack", "ack", "ack", "timeout", "timeout"}).Draw(rt, "how")
	signer := kit.Acc(rapid.IntRange(0, 2).Draw(rt, "relayer"))
	var bare func(ctx sdk.Context) error
	var real func(ctx sdk.Context) (channeltypes.ResponseResultType, error)
	success := false
	if how == "ack" {
		ack := rapid.SampledFrom([]channeltypes.Acknowledgement{okAck, okAck, channeltypes.NewResultAcknowledgement([]byte("fine")), channeltypes.NewErrorAcknowledgement(errors.New("no")),
			{Response: &channeltypes.Acknowledgement_Error{Error: "some reason"}}, {Response: &channeltypes.Acknowledgement_Error{Error: "result"}}}).Draw(rt, "ack")
		success = ack.Success()
		bz := ack.Acknowledgement()
		if rapid.IntRange(0, 9).Draw(rt, "other spelling") == 9 {
			bz = []byte(" " + strings.ReplaceAll(string(bz), ":", " : "))
		}
		w.c.Logf("settle %s %d with %s", a.p.SourceChannel, a.p.Sequence, bz)
		w.app.IBCKeeper.ChannelKeeper.SetPacketAcknowledgement(w.ctx, a.p.DestinationPort, a.p.DestinationChannel, a.p.Sequence, channeltypes.CommitAcknowledgement(bz))
		bare = func(ctx sdk.Context) error {
			return w.bare(a.p.SourcePort).OnAcknowledgementPacket(ctx, a.p, bz, signer)
		}
		real = func(ctx sdk.Context) (channeltypes.ResponseResultType, error) {
			res, err := w.app.IBCKeeper.Acknowledgement(ctx, channeltypes.NewMsgAcknowledgement(a.p, bz, []byte{1}, clienttypes.GetSelfHeight(ctx), signer.String()))
			if err != nil {
				return 0, err
			}
			return res.Result, nil
		}
	} else {
		w.ctx = w.ctx.WithBlockTime(time.Unix(0, int64(a.p.TimeoutTimestamp)).Add(time.Second))
		w.c.Logf("settle %s %d by timeout", a.p.SourceChannel, a.p.Sequence)
		bare = func(ctx sdk.Context) error { return w.bare(a.p.SourcePort).OnTimeoutPacket(ctx, a.p, signer) }
		real = func(ctx sdk.Context) (channeltypes.ResponseResultType, error) {
			res, err := w.app.IBCKeeper.Timeout(ctx, channeltypes.NewMsgTimeout(a.p, 1, []byte{1}, clienttypes.GetSelfHeight(ctx), signer.String()))
			if err != nil {
				return 0, err
			}
			return res.Result, nil
		}
	}
	ref, _ := kit.Branch(w.ctx)
	refErr := guarded(ref, bare)
	got, _ := kit.Branch(w.ctx)
	var res channeltypes.ResponseResultType
	gotErr := guarded(got, func(ctx sdk.Context) (err error) { res, err = real(ctx); return })
	if (refErr == nil) != (gotErr == nil) || gotErr == nil && res != channeltypes.SUCCESS {
		w.fail("settled with %v %v, without the hooks with %v", res, gotErr, refErr)
	}
	if gotErr != nil {
		// (the other chain returned more than it had)
		w.c.Label("cannot be settled")
		return
	}
	if cb := a.cb; cb.ok && w.acl[cb.rec] && cb.id%4 != 3 {
		w.c.Label("callback of " + how)
		w.c.NonTrivial()
		for _, r := range recs {
			before, after := w.seen(ref, r), w.seen(got, r)
			want := before
			if r == cb.rec {
				want.count++
				want.id, want.caller, want.value, want.hash = cb.id, evm(a.from), common.Hash{}, after.hash
				if how == "ack" {
					want.kind, want.success = 1, 0
					if success {
						want.success = 1
					}
				} else {
					want.kind = 2
				}
			}
			if after != want {
				w.fail("contract %s recorded %+v, expected %+v", r, after, want)
			}
		}
		w.balances(ref, got, nil, func(common.Address, string) *big.Int { return new(big.Int) })
		w.same("the callback changed more than contracts and accounts", ref, got, "evm", "acc")
	} else {
		w.c.Label("no callback of " + how)
		if cb.ok {
			w.c.Label(fmt.Sprintf("callback not made: allowed %v", w.acl[cb.rec]))
			w.c.NonTrivial()
		}
		w.same("a packet settled without a callback", ref, got)
	}
	w.ctx = got
	w.old = append(w.old, func() {
		before, _ := kit.Branch(w.ctx)
		var res channeltypes.ResponseResultType
		if err := guarded(w.ctx, func(ctx sdk.Context) (err error) { res, err = real(ctx); return }); err != nil || res != channeltypes.NOOP {
			w.fail("a packet settled again: %v %v", res, err)
		}
		w.same("a packet settled again", before, w.ctx)
	})
}

// TestHooks drives packets through the chain's IBC stack.
func TestHooks(t *testing.T) {
	kit.Run(t, "a hook was executed or refused by its own rules, or a callback was named", func(rt *rapid.T, c *kit.Case) {
		app := shared.Get()
		ctx, _ := kit.Branch(kit.Ctx(app))
		w := &world{app: app, ctx: ctx, rt: rt, c: c}
		w.setACL()
		var pending []asked
		for i, n := 0, rapid.IntRange(2, 10).Draw(rt, "steps"); i < n; i++ {
			switch rapid.SampledFrom([]string{"in", "in", "in", "nft", "nft", "send", "send", "settle", "settle", "again", "acl"}).Draw(rt, "op") {
			case "in":
				w.incoming()
			case "nft":
				w.incomingNFT()
			case "send":
				if a, ok := w.outgoing(); ok {
					pending = append(pending, a)
				}
			case "settle":
				if len(pending) > 0 {
					k := rapid.IntRange(0, len(pending)-1).Draw(rt, "which")
					w.settle(pending[k])
					pending = slices.Delete(pending, k, k+1)
				}
			case "again":
				if len(w.old) > 0 {
					w.c.Label("again")
					w.old[rapid.IntRange(0, len(w.old)-1).Draw(rt, "what")]()
				}
			case "acl":
				w.setACL()
			}
		}
		for _, a := range pending {
			w.settle(a)
		}
		shared.Done()
	})
}
