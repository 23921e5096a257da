// Package hooks checks the IBC hooks: packets with and without a memo go through
// the chain's own IBC stack (over the loopback connection of ibc-go) and through the
// same stack without the hooks, and both outcomes are compared.
package hooks

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"slices"
	"sort"
	"strings"
	"time"

	storetypes "cosmossdk.io/store/types"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/holiman/uint256"
	"pgregory.net/rapid"

	"github.com/cosmos/ibc-apps/middleware/packet-forward-middleware/v8/packetforward"
	packetforwardkeeper "github.com/cosmos/ibc-apps/middleware/packet-forward-middleware/v8/packetforward/keeper"
	ratelimit "github.com/cosmos/ibc-apps/modules/rate-limiting/v8"
	ibctransfer "github.com/cosmos/ibc-go/v8/modules/apps/transfer"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	clienttypes "github.com/cosmos/ibc-go/v8/modules/core/02-client/types"
	channeltypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"
	porttypes "github.com/cosmos/ibc-go/v8/modules/core/05-port/types"
	host "github.com/cosmos/ibc-go/v8/modules/core/24-host"
	ibcexported "github.com/cosmos/ibc-go/v8/modules/core/exported"
	"github.com/noble-assets/forwarding/v2/x/forwarding"

	nfttransfer "github.com/initia-labs/initia/x/ibc/nft-transfer"
	nfttransferkeeper "github.com/initia-labs/initia/x/ibc/nft-transfer/keeper"
	nfttypes "github.com/initia-labs/initia/x/ibc/nft-transfer/types"

	minievmapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/x/evm/contracts/erc20"
	"github.com/initia-labs/minievm/x/evm/contracts/i_ibc_async_callback"
	ics721 "github.com/initia-labs/minievm/x/evm/contracts/ics721_erc721"
	"github.com/initia-labs/minievm/x/evm/contracts/initia_erc20"

	"github.com/initia-labs/minievm/verifh/kit"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func must2[T any](v T, err error) T {
	must(err)
	return v
}

var (
	erc20ABI = must2(erc20.Erc20MetaData.GetAbi())
	nftABI   = must2(ics721.Ics721Erc721MetaData.GetAbi())
	backABI  = must2(i_ibc_async_callback.IIbcAsyncCallbackMetaData.GetAbi())
)

const (
	ics20 = "transfer"
	ics7  = "nft-transfer"
)

var (
	// recs are contracts which record who called them with what and then perform the
	// program of the calldata; as a callback they refuse ids of the form 4n+3.
	recs     [3]common.Address
	evmToken common.Address
	evmDenom string
	evmClass string // a collection deployed by an account

	shared = &kit.Shared{Opts: kit.Options{NumKeys: 3, MaxGas: 1 << 60}, Setup: setup}
)

// Storage of a recorder.
const (
	slotCount = iota
	slotCaller
	slotValue
	slotHash
	slotKind // 1 ack, 2 timeout, 3 program
	slotID
	slotSuccess
)

func recorder() []byte {
	a := kit.NewAsm()
	ack, timeout, refuse, run := a.Label(), a.Label(), a.Label(), a.Label()
	a.Push(slotCount).Op(vm.SLOAD).Push(1).Op(vm.ADD).Push(slotCount).Op(vm.SSTORE)
	a.Op(vm.CALLER).Push(slotCaller).Op(vm.SSTORE)
	a.Op(vm.CALLVALUE).Push(slotValue).Op(vm.SSTORE)
	a.Op(vm.CALLDATASIZE).Push(0).Push(0).Op(vm.CALLDATACOPY).Op(vm.CALLDATASIZE).Push(0).Op(vm.KECCAK256).Push(slotHash).Op(vm.SSTORE)
	a.Push(0).Op(vm.CALLDATALOAD).Push(224).Op(vm.SHR)
	a.Op(vm.DUP1).PushBytes(backABI.Methods["ibc_ack"].ID).Op(vm.EQ).PushLabel(ack).Op(vm.JUMPI)
	a.Op(vm.DUP1).PushBytes(backABI.Methods["ibc_timeout"].ID).Op(vm.EQ).PushLabel(timeout).Op(vm.JUMPI)
	a.PushLabel(run).Op(vm.JUMP)
	id := func() {
		a.Push(4).Op(vm.CALLDATALOAD).Push(slotID).Op(vm.SSTORE)
		a.Push(4).Op(vm.CALLDATALOAD).Push(3).Op(vm.AND).Push(3).Op(vm.EQ).PushLabel(refuse).Op(vm.JUMPI)
	}
	a.Mark(ack)
	a.Push(1).Push(slotKind).Op(vm.SSTORE).Push(36).Op(vm.CALLDATALOAD).Push(slotSuccess).Op(vm.SSTORE)
	id()
	a.Op(vm.STOP)
	a.Mark(timeout)
	a.Push(2).Push(slotKind).Op(vm.SSTORE)
	id()
	a.Op(vm.STOP)
	a.Mark(refuse)
	a.Push(0).Push(0).Op(vm.REVERT)
	a.Mark(run)
	a.Op(vm.POP).Push(3).Push(slotKind).Op(vm.SSTORE)
	a.Forward()
	return a.Bytes()
}

// channels: 0-1 and 2-3 carry tokens, 4-5 and 6-7 NFTs; the even ends play the other chain.
func setup(app *minievmapp.MinitiaApp, ctx sdk.Context) {
	create := func(code []byte) common.Address {
		_, a, _, err := app.EVMKeeper.EVMCreate(ctx, kit.Addr(0), code, uint256.NewInt(0), nil)
		must(err)
		return a
	}
	for i := range recs {
		recs[i] = create(kit.InitCode(nil, recorder()))
	}
	customABI := must2(initia_erc20.InitiaErc20MetaData.GetAbi())
	evmToken = create(append(common.FromHex(initia_erc20.InitiaErc20Bin), must2(customABI.Pack("", "tok", "tok", uint8(6)))...))
	evmDenom = "evm/" + evmToken.Hex()[2:]
	_, _, err := app.EVMKeeper.EVMCall(ctx, kit.Addr(0), evmToken, must2(customABI.Pack("mint", kit.Addr(0), big.NewInt(1e9))), nil, nil)
	must(err)
	must(app.EVMKeeper.ERC20Keeper().MintCoins(ctx, kit.Acc(0), sdk.NewCoins(sdk.NewInt64Coin("uother", 1e9))))
	for i := 1; i < 3; i++ {
		must(app.BankKeeper.SendCoins(ctx, kit.Acc(0), kit.Acc(i), sdk.NewCoins(sdk.NewInt64Coin("uother", 1e8), sdk.NewInt64Coin(evmDenom, 1e8))))
	}
	for _, r := range recs {
		must(app.BankKeeper.SendCoins(ctx, kit.Acc(0), r.Bytes(), sdk.NewCoins(sdk.NewInt64Coin("uother", 1e6), sdk.NewInt64Coin(evmDenom, 1e6), sdk.NewInt64Coin(kit.FeeDenom, 1e6))))
	}
	n := app.EVMKeeper.ERC721Keeper()
	must(n.CreateOrUpdateClass(ctx, "plain", "", ""))
	for i := 0; i < 9; i++ {
		must(n.Mints(ctx, kit.Acc(i%3), "plain", []string{fmt.Sprint(i)}, []string{""}, []string{""}))
	}

	collection := create(append(common.FromHex(ics721.Ics721Erc721Bin), must2(nftABI.Pack("", "own", "own"))...))
	evmClass = "evm/" + collection.Hex()[2:]
	for i := 0; i < 9; i++ {
		_, _, err := app.EVMKeeper.EVMCall(ctx, kit.Addr(0), collection, must2(nftABI.Pack("mint", kit.Addr(i%3), big.NewInt(int64(i)), "", "")), nil, nil)
		must(err)
	}

	app.IBCKeeper.ClientKeeper.SetParams(ctx, clienttypes.NewParams(clienttypes.AllowAllClients))
	open := func(port, version string) {
		k, who, hops := app.IBCKeeper, kit.Acc(0).String(), []string{ibcexported.LocalhostConnectionID}
		h := clienttypes.GetSelfHeight(ctx)
		proof := []byte{1}
		a := must2(k.ChannelOpenInit(ctx, channeltypes.NewMsgChannelOpenInit(port, version, channeltypes.UNORDERED, hops, port, who))).ChannelId
		b := must2(k.ChannelOpenTry(ctx, channeltypes.NewMsgChannelOpenTry(port, version, channeltypes.UNORDERED, hops, port, a, version, proof, h, who))).ChannelId
		must2(k.ChannelOpenAck(ctx, channeltypes.NewMsgChannelOpenAck(port, a, b, version, proof, h, who)))
		must2(k.ChannelOpenConfirm(ctx, channeltypes.NewMsgChannelOpenConfirm(port, b, proof, h, who)))
	}
	open(ics20, transfertypes.Version)
	open(ics20, transfertypes.Version)
	open(ics7, nfttypes.Version)
	open(ics7, nfttypes.Version)

	// some tokens are out on the other chain
	for i, d := range []string{kit.FeeDenom, "uother", evmDenom} {
		for _, ch := range []string{"channel-1", "channel-3"} {
			must2(app.TransferKeeper.Transfer(ctx, transfertypes.NewMsgTransfer(ics20, ch, sdk.NewInt64Coin(d, 100_000+int64(i)), kit.Acc(0).String(), "somebody", clienttypes.Height{}, later(ctx), "")))
		}
	}
	nft := func(ch, class string, ids ...string) {
		must2(nfttransferkeeper.NewMsgServerImpl(app.NftTransferKeeper).Transfer(ctx, nfttypes.NewMsgTransfer(ics7, ch, class, ids, kit.Acc(0).String(), "somebody", clienttypes.Height{}, later(ctx), "")))
	}
	for _, class := range []string{"plain", evmClass} {
		nft("channel-5", class, "0", "3")
	}
	// and some came from one chain and went on to another
	data := transfertypes.NewFungibleTokenPacketData("uatom", "90000", "somebody", kit.Acc(0).String(), "")
	must(app.TransferKeeper.OnRecvPacket(ctx, channeltypes.Packet{SourcePort: ics20, SourceChannel: "channel-0", DestinationPort: ics20, DestinationChannel: "channel-1"}, data))
	must2(app.TransferKeeper.Transfer(ctx, transfertypes.NewMsgTransfer(ics20, "channel-3", sdk.NewInt64Coin(hashed("ibc", ics20+"/channel-1/uatom"), 50_000), kit.Acc(0).String(), "somebody", clienttypes.Height{}, later(ctx), "")))
	kitties := nfttypes.NewNonFungibleTokenPacketData("kitties", "uri", "", []string{"p", "q", "r"}, make([]string, 3), make([]string, 3), "somebody", kit.Acc(0).String(), "")
	must(app.NftTransferKeeper.OnRecvPacket(ctx, channeltypes.Packet{SourcePort: ics7, SourceChannel: "channel-4", DestinationPort: ics7, DestinationChannel: "channel-5"}, kitties))
	nft("channel-7", hashed("ibc", ics7+"/channel-5/kitties"), "p", "q")
}

func later(ctx sdk.Context) uint64 { return uint64(ctx.BlockTime().Add(time.Hour).UnixNano()) }

type world struct {
	app   *minievmapp.MinitiaApp
	ctx   sdk.Context
	rt    *rapid.T
	c     *kit.Case
	acl   map[common.Address]bool
	fresh int
	old   []func() // repeats of messages which were processed
}

func (w *world) fail(format string, args ...any) {
	w.rt.Fatalf("%s\n%s", w.c.Trace(), fmt.Sprintf(format, args...))
}

// bare is the IBC stack of a port without the hooks (and without the fee middleware).
func (w *world) bare(port string) porttypes.IBCModule {
	if port == ics7 {
		return nfttransfer.NewIBCModule(*w.app.NftTransferKeeper)
	}
	var s porttypes.IBCModule = ibctransfer.NewIBCModule(*w.app.TransferKeeper)
	s = forwarding.NewMiddleware(s, w.app.AccountKeeper, w.app.ForwardingKeeper)
	s = packetforward.NewIBCMiddleware(s, w.app.PacketForwardKeeper, 0,
		packetforwardkeeper.DefaultForwardTransferPacketTimeoutTimestamp, packetforwardkeeper.DefaultRefundTransferPacketTimeoutTimestamp)
	return ratelimit.NewIBCMiddleware(*w.app.RatelimitKeeper, s)
}

// guarded runs f on a branch, which is kept if f succeeds.
func guarded(ctx sdk.Context, f func(ctx sdk.Context) error) (err error) {
	br, write := kit.Branch(ctx)
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	if err := f(br.WithGasMeter(storetypes.NewGasMeter(1e12))); err != nil {
		return err
	}
	write()
	return nil
}

// same checks that two states agree in all stores but the given ones and those of IBC itself.
func (w *world) same(what string, want, got sdk.Context, without ...string) {
	want, got = want.WithGasMeter(storetypes.NewInfiniteGasMeter()), got.WithGasMeter(storetypes.NewInfiniteGasMeter())
	var out []string
	for name, k := range w.app.GetKVStoreKey() {
		if name == ibcexported.StoreKey || slices.Contains(without, name) {
			continue
		}
		a, b := want.KVStore(k).Iterator(nil, nil), got.KVStore(k).Iterator(nil, nil)
		for a.Valid() || b.Valid() {
			switch order := compareKeys(a, b); {
			case order < 0:
				out = append(out, fmt.Sprintf("%s %x = %.80x expected, nothing found", name, a.Key(), a.Value()))
				a.Next()
			case order > 0:
				out = append(out, fmt.Sprintf("%s %x = %.80x found, nothing expected", name, b.Key(), b.Value()))
				b.Next()
			default:
				if !bytes.Equal(a.Value(), b.Value()) {
					out = append(out, fmt.Sprintf("%s %x = %.80x expected, %.80x found", name, a.Key(), a.Value(), b.Value()))
				}
				a.Next()
				b.Next()
			}
		}
		a.Close()
		b.Close()
	}
	if len(out) > 0 {
		sort.Strings(out)
		w.fail("%s:\n%s", what, strings.Join(out[:min(len(out), 12)], "\n"))
	}
}

func compareKeys(a, b storetypes.Iterator) int {
	switch {
	case !a.Valid():
		return 1
	case !b.Valid():
		return -1
	}
	return bytes.Compare(a.Key(), b.Key())
}

func (w *world) slot(ctx sdk.Context, a common.Address, k int) common.Hash {
	return kit.Slot(w.app, ctx, a, common.BigToHash(big.NewInt(int64(k))))
}

// seen is what a recorder recorded.
type seen struct {
	count, kind, id, success uint64
	caller                   common.Address
	value                    common.Hash
	hash                     common.Hash
}

func (w *world) seen(ctx sdk.Context, a common.Address) seen {
	n := func(k int) uint64 { return w.slot(ctx, a, k).Big().Uint64() }
	return seen{count: n(slotCount), kind: n(slotKind), id: n(slotID), success: n(slotSuccess),
		caller: common.BytesToAddress(w.slot(ctx, a, slotCaller).Bytes()), value: w.slot(ctx, a, slotValue), hash: w.slot(ctx, a, slotHash)}
}

// intermediate is the account a foreign sender has on a channel.
func intermediate(channel, sender string) sdk.AccAddress {
	th := sha256.Sum256([]byte("ibc-evm-hook-intermediary"))
	h := sha256.Sum256(append(th[:], []byte(channel+"/"+sender)...))
	return h[:]
}

func hashed(kind, path string) string {
	h := sha256.Sum256([]byte(path))
	return kind + "/" + strings.ToUpper(hex.EncodeToString(h[:]))
}

// local is the name a token of a packet has here.
func local(p channeltypes.Packet, denom string) string {
	if pre := p.SourcePort + "/" + p.SourceChannel + "/"; strings.HasPrefix(denom, pre) {
		denom = denom[len(pre):]
		if strings.HasPrefix(denom, "transfer/channel-") || strings.HasPrefix(denom, "nft-transfer/channel-") {
			return hashed("ibc", denom)
		}
		return denom
	}
	return hashed("ibc", p.DestinationPort+"/"+p.DestinationChannel+"/"+denom)
}

// outcome of a packet.
type outcome struct {
	result string // "success", "error", "none" or a problem
	ctx    sdk.Context
}

var okAck = channeltypes.NewResultAcknowledgement([]byte{1})

// plainly receives a packet by the bare stack.
func (w *world) plainly(p channeltypes.Packet) (o outcome) {
	br, _ := kit.Branch(w.ctx)
	o.ctx = br
	inner, write := kit.Branch(br)
	defer func() {
		if r := recover(); r != nil {
			o.result = fmt.Sprintf("panic: %v", r)
		}
	}()
	ack := w.bare(p.DestinationPort).OnRecvPacket(inner.WithGasMeter(storetypes.NewGasMeter(1e12)), p, kit.Acc(2))
	switch {
	case ack == nil:
		o.result = "none"
	case ack.Success():
		o.result = "success"
	default:
		o.result = "error"
		return
	}
	write()
	return
}

func (w *world) height() clienttypes.Height { return clienttypes.GetSelfHeight(w.ctx) }

// receive sends the data from the other chain and receives it here.
func (w *world) receive(port, from string, data []byte) (channeltypes.Packet, outcome) {
	to := map[string]string{"channel-0": "channel-1", "channel-2": "channel-3", "channel-4": "channel-5", "channel-6": "channel-7"}[from]
	p := channeltypes.NewPacket(data, 0, port, from, port, to, clienttypes.Height{}, uint64(w.ctx.BlockTime().Add(10_000*time.Hour).UnixNano()))
	scoped := w.app.ScopedTransferKeeper
	if port == ics7 {
		scoped = w.app.ScopedNftTransferKeeper
	}
	must(guarded(w.ctx, func(ctx sdk.Context) error {
		ch, ok := scoped.GetCapability(ctx, host.ChannelCapabilityPath(port, from))
		if !ok {
			panic("no capability")
		}
		seq, err := w.app.IBCKeeper.ChannelKeeper.SendPacket(ctx, ch, port, from, p.TimeoutHeight, p.TimeoutTimestamp, data)
		p.Sequence = seq
		return err
	}))
	br, _ := kit.Branch(w.ctx)
	o := outcome{ctx: br}
	err := guarded(br, func(ctx sdk.Context) error {
		_, err := w.app.IBCKeeper.RecvPacket(ctx, channeltypes.NewMsgRecvPacket(p, []byte{1}, w.height(), kit.Acc(2).String()))
		return err
	})
	if err != nil {
		o.result = err.Error()
		return p, o
	}
	got, found := w.app.IBCKeeper.ChannelKeeper.GetPacketAcknowledgement(br, port, to, p.Sequence)
	switch {
	case !found:
		o.result = "none"
	case bytes.Equal(got, channeltypes.CommitAcknowledgement(okAck.Acknowledgement())):
		o.result = "success"
	default:
		o.result = "error"
	}
	w.old = append(w.old, func() {
		before, _ := kit.Branch(w.ctx)
		res, err := w.app.IBCKeeper.RecvPacket(w.ctx, channeltypes.NewMsgRecvPacket(p, []byte{1}, w.height(), kit.Acc(2).String()))
		if err != nil || res.Result != channeltypes.NOOP {
			w.fail("a packet received again: %v %v", res, err)
		}
		w.same("a packet received again", before, w.ctx)
	})
	return p, o
}

func (w *world) keep(o outcome) { w.ctx = o.ctx }

func (w *world) balance(ctx sdk.Context, a []byte, denom string) *big.Int {
	return w.app.BankKeeper.GetBalance(ctx, a, denom).Amount.BigInt()
}

// call reads a contract.
func (w *world) call(ctx sdk.Context, to common.Address, in []byte) []byte {
	br, _ := kit.Branch(ctx)
	return must2(w.app.EVMKeeper.EVMStaticCall(br.WithGasMeter(storetypes.NewGasMeter(1e12)), kit.Addr(0), to, in, nil))
}

func evm(a []byte) common.Address { return common.BytesToAddress(a) }

func bech(a common.Address) string { return sdk.AccAddress(a.Bytes()).String() }

func mustJSON(v any) string { return string(must2(json.Marshal(v))) }
