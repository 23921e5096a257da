package txflow

import (
	"encoding/json"
	"fmt"
	"math/big"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	xauthsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"

	minievmapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/verifh/kit"
	"github.com/initia-labs/minievm/x/evm/contracts/i_cosmos"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// part is one message of a transaction, as the model sees it.
type part struct {
	from   int
	kind   string // call, send, create, create2, bank
	mode   int    // of a call to the worker, else -1
	to     common.Address
	value  *big.Int // token units
	code   int
	salt   uint64
	evm    bool
	inner  *big.Int // sent by the worker through the cosmos precompile
	innerT int
}

// spec is a transaction with everything the model needs to predict it.
type spec struct {
	desc    string
	eth     bool
	signers []int
	nonces  []uint64
	payer   int // who pays the fee
	granter bool
	fee     *big.Int // token units
	gas     uint64
	parts   []part
	mut     string // what was altered after or at signing, "" for nothing
	bytes   []byte
}

func (s *spec) String() string { return s.desc }

var icosmosABI, _ = i_cosmos.ICosmosMetaData.GetAbi()

func (c *config) input(rt *rapid.T, mode int) ([]byte, part) {
	p := part{kind: "call", mode: mode, evm: true}
	var arg [32]byte
	data := []byte{byte(mode)}
	switch mode {
	case mWork:
		n := rapid.SampledFrom([]uint64{0, 10, 300, 3000}).Draw(rt, "work")
		big.NewInt(int64(n)).FillBytes(arg[:])
		data = append(data, arg[:]...)
	case mSet, mClear, mLog:
		n := rapid.Uint64Range(1000, 1003).Draw(rt, "slot")
		big.NewInt(int64(n)).FillBytes(arg[:])
		data = append(data, arg[:]...)
	case mCosmos:
		p.innerT = rapid.IntRange(0, nKeys-1).Draw(rt, "innerTo")
		amt := rapid.SampledFrom([]int64{1, 2, 7, 100000}).Draw(rt, "innerAmt")
		p.inner = big.NewInt(amt)
		msg := fmt.Sprintf(`{"@type":"/cosmos.bank.v1beta1.MsgSend","from_address":"%s","to_address":"%s","amount":[{"denom":"%s","amount":"%d"}]}`,
			sdk.AccAddress(c.worker.Bytes()), kit.Acc(p.innerT), c.denom, amt)
		bz, err := icosmosABI.Pack("execute_cosmos", msg)
		must(err)
		data = append(data, bz...)
	default:
		if rapid.IntRange(0, 3).Draw(rt, "pad") == 0 {
			data = append(data, rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(rt, "padding")...)
		}
	}
	return data, p
}

var gasChoices = []uint64{1000, 20000, 40000, 60000, 90000, 150000, 300000, 600000, 1_000_000, 3_000_000}

func drawGas(rt *rapid.T) uint64 {
	if rapid.IntRange(0, 5).Draw(rt, "gasKind") == 0 {
		return rapid.SampledFrom(gasChoices).Draw(rt, "gasChoice")
	}
	return rapid.Uint64Range(700_000, 3_000_000).Draw(rt, "gas")
}

func drawMode(rt *rapid.T) int {
	return rapid.SampledFrom([]int{mStop, mRevert, mLoop, mInvalid, mCount, mCount, mCount, mCount, mCreate, mCountRevert, mWork, mLog, mCatch, mGiveBack, mSet, mClear, mCosmos, mCosmos}).Draw(rt, "mode")
}

func (c *config) drawValue(rt *rapid.T, bal *big.Int) *big.Int {
	switch rapid.IntRange(0, 9).Draw(rt, "valueKind") {
	case 0, 1, 2, 3, 4:
		return big0()
	case 5, 6, 7:
		return big.NewInt(rapid.Int64Range(1, 1000).Draw(rt, "value"))
	case 8:
		v := new(big.Int).Div(bal, big.NewInt(rapid.Int64Range(1, 3).Draw(rt, "frac")))
		return v
	default:
		return new(big.Int).Add(bal, big.NewInt(1))
	}
}

// drawFeeCap gives wei per gas.
func (c *config) drawFeeCap(rt *rapid.T, gas uint64, bal *big.Int) *big.Int {
	kind := rapid.IntRange(0, 9).Draw(rt, "feeKind")
	cap := c.feeCapOf(rt, kind, gas, bal)
	f := new(big.Int).Mul(cap, new(big.Int).SetUint64(gas))
	if f.Div(f, c.unit()).Cmp(bal) >= 0 && kind != 9 {
		return big0()
	}
	return cap
}

func (c *config) feeCapOf(rt *rapid.T, kind int, gas uint64, bal *big.Int) *big.Int {
	switch kind {
	case 0, 1:
		return big0()
	case 2, 3:
		return big.NewInt(rapid.Int64Range(1, 20).Draw(rt, "feeCap"))
	case 4, 5:
		return big.NewInt(rapid.Int64Range(1, 2_000_000_000).Draw(rt, "feeCap"))
	case 6, 7:
		// about one token unit per gas
		n := new(big.Int).Mul(c.unit(), big.NewInt(rapid.Int64Range(1, 1000).Draw(rt, "feeNum")))
		return n.Div(n, big.NewInt(rapid.Int64Range(1, 1_000_000).Draw(rt, "feeDen")))
	case 8:
		// nearly the balance
		n := new(big.Int).Mul(c.unit(), bal)
		n.Mul(n, big.NewInt(rapid.Int64Range(50, 99).Draw(rt, "feePct")))
		return n.Div(n, new(big.Int).Mul(big.NewInt(100), new(big.Int).SetUint64(gas)))
	default:
		// above the balance
		n := new(big.Int).Mul(c.unit(), new(big.Int).Add(bal, big.NewInt(1)))
		return n.Add(n.Div(n, new(big.Int).SetUint64(gas)), big.NewInt(1))
	}
}

func drawAccessList(rt *rapid.T, c *config) coretypes.AccessList {
	var al coretypes.AccessList
	n := rapid.IntRange(0, 2).Draw(rt, "alLen")
	for i := 0; i < n; i++ {
		t := coretypes.AccessTuple{Address: c.worker, StorageKeys: []common.Hash{}}
		if rapid.Bool().Draw(rt, "alOther") {
			t.Address = kit.Addr(rapid.IntRange(0, nKeys-1).Draw(rt, "alAddr"))
		}
		for k := rapid.IntRange(0, 2).Draw(rt, "alKeys"); k > 0; k-- {
			t.StorageKeys = append(t.StorageKeys, common.BigToHash(big.NewInt(rapid.Int64Range(0, 2000).Draw(rt, "alKey"))))
		}
		al = append(al, t)
	}
	return al
}

// feeOf reads the declared fee of a wrapped transaction.
func feeOf(tx sdk.Tx, denom string) *big.Int {
	return tx.(sdk.FeeTx).GetFee().AmountOf(denom).BigInt()
}

// drawEth generates a wrapped Ethereum transaction of key i.
func (c *config) drawEth(rt *rapid.T, app *minievmapp.MinitiaApp, ctx sdk.Context, i int, nonce uint64, bal *big.Int, calm bool) *spec {
	s := &spec{eth: true, signers: []int{i}, nonces: []uint64{nonce}, payer: i}
	s.gas = drawGas(rt)
	cap := c.drawFeeCap(rt, s.gas, bal)
	value := c.drawValue(rt, bal)
	if calm {
		// nothing but the alteration may be a reason to reject
		s.gas = rapid.Uint64Range(700_000, 3_000_000).Draw(rt, "calmGas")
		cap = big.NewInt(rapid.SampledFrom([]int64{0, 1, 7, 100, 1000_000_000}).Draw(rt, "calmCap"))
		value = big.NewInt(rapid.Int64Range(0, 3).Draw(rt, "calmValue"))
	}
	typ := rapid.IntRange(0, 2).Draw(rt, "txType")

	var to *common.Address
	var data []byte
	var p part
	switch k := rapid.IntRange(0, 9).Draw(rt, "target"); {
	case k < 6:
		data, p = c.input(rt, drawMode(rt))
		w := c.worker
		to = &w
	case k < 8:
		p = part{kind: "create", evm: true, mode: -1, code: rapid.IntRange(0, len(initCodes)-1).Draw(rt, "code")}
		data = initCodes[p.code]
	default:
		p = part{kind: "send", evm: true, mode: -1}
		a := kit.Addr(rapid.IntRange(0, nKeys-1).Draw(rt, "to"))
		if rapid.IntRange(0, 3).Draw(rt, "fresh") == 0 {
			a = common.BigToAddress(big.NewInt(0x10000 + rapid.Int64Range(0, 3).Draw(rt, "freshAddr")))
		}
		to = &a
		data = rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(rt, "data")
	}
	p.from = i
	p.value = value
	if to != nil {
		p.to = *to
	}
	wei := new(big.Int).Mul(value, c.unit())

	var td coretypes.TxData
	switch typ {
	case 0:
		td = &coretypes.LegacyTx{Nonce: nonce, GasPrice: cap, Gas: s.gas, To: to, Value: wei, Data: data}
	case 1:
		td = &coretypes.AccessListTx{ChainID: kit.EthChainID(), Nonce: nonce, GasPrice: cap, Gas: s.gas, To: to, Value: wei, Data: data, AccessList: drawAccessList(rt, c)}
	default:
		tip := new(big.Int).Div(cap, big.NewInt(rapid.Int64Range(1, 3).Draw(rt, "tipDiv")))
		td = &coretypes.DynamicFeeTx{ChainID: kit.EthChainID(), Nonce: nonce, GasTipCap: tip, GasFeeCap: cap, Gas: s.gas, To: to, Value: wei, Data: data, AccessList: drawAccessList(rt, c)}
	}
	ethTx := kit.SignEth(i, td)
	sdkTx, err := evmkeeper.NewTxUtils(app.EVMKeeper).ConvertEthereumTxToCosmosTx(ctx, ethTx)
	if err != nil {
		rt.Fatalf("converting a valid ethereum transaction: %v", err)
	}
	s.fee = feeOf(sdkTx, c.denom)
	s.parts = []part{p}
	if !calm && s.fee.Sign() > 0 && rapid.IntRange(0, 4).Draw(rt, "ethGranter") == 0 {
		// the fee is paid from an allowance; who pays is not part of the signed content
		g := rapid.IntRange(0, nGenKey-1).Draw(rt, "granter")
		for p := range granted {
			if p[1] == i && g != 0 {
				g = p[0]
				break
			}
		}
		if g != i {
			b, err := app.TxConfig().WrapTxBuilder(sdkTx)
			must(err)
			b.SetFeeGranter(kit.Acc(g))
			sdkTx = b.GetTx()
			s.payer = g
			s.granter = true
		}
	}
	if s.bytes, err = app.TxEncode(sdkTx); err != nil {
		rt.Fatalf("encoding: %v", err)
	}
	s.desc = fmt.Sprintf("eth%d key%d nonce=%d gas=%d feeCap=%s fee=%s payer=key%d granter=%v value=%s %s", typ, i, nonce, s.gas, cap, s.fee, s.payer, s.granter, value, p.describe(c))
	return s
}

func (p part) describe(c *config) string {
	switch {
	case p.mode >= 0:
		d := "worker." + modeNames[p.mode]
		if p.inner != nil {
			d += fmt.Sprintf("(%s to key%d)", p.inner, p.innerT)
		}
		return d
	case p.kind == "create" || p.kind == "create2":
		return fmt.Sprintf("%s#%d", p.kind, p.code)
	default:
		return p.kind + " to " + addrName(c, p.to)
	}
}

// feeSigned gives the wei price per gas and the declared fee of a mutation is recomputed
func memoOf(tx sdk.Tx) (m struct {
	Type      uint8  `json:"type"`
	GasFeeCap string `json:"gas_fee_cap"`
	GasTipCap string `json:"gas_tip_cap"`
}) {
	must(json.Unmarshal([]byte(tx.(sdk.TxWithMemo).GetMemo()), &m))
	return m
}

var ethMutations = []string{
	"fee+1", "fee-1", "fee-zero", "fee-double", "fee-extra-denom", "gas+1", "gas-1", "gas-double",
	"to", "value+1", "value-zero", "input", "input-append", "al-add", "al-drop", "nonce+1",
	"type", "feecap", "feecap+fee", "tipcap", "sender", "sender+pubkey", "pubkey",
	"sig-flip", "sig-high-s", "sig-v", "sig-zero", "sig-short", "call-create", "create2", "mode-direct", "mode-amino",
	"two-msgs", "memo-extra", "memo-empty", "chain", "payer", "cosmos-msg",
}

// mutateEth alters one thing of a wrapped transaction; it reports false when the
// alteration does not apply (or would change nothing the signature covers).
func (c *config) mutateEth(rt *rapid.T, app *minievmapp.MinitiaApp, ctx sdk.Context, s *spec, mut string) bool {
	dec, err := app.TxDecode(s.bytes)
	must(err)
	b, err := app.TxConfig().WrapTxBuilder(dec)
	must(err)
	tx := b.GetTx()
	msg := tx.GetMsgs()[0]
	call, _ := msg.(*evmtypes.MsgCall)
	create, _ := msg.(*evmtypes.MsgCreate)
	sigs, err := tx.GetSignaturesV2()
	must(err)
	data := sigs[0].Data.(*signing.SingleSignatureData)
	md := memoOf(dec)
	setMemo := func() {
		bz, err := json.Marshal(md)
		must(err)
		b.SetMemo(string(bz))
	}
	setFee := func(f *big.Int) { b.SetFeeAmount(sdk.NewCoins(sdk.NewCoin(c.denom, math.NewIntFromBigInt(f)))) }
	other := (s.signers[0] + rapid.IntRange(1, 2).Draw(rt, "mutOther")) % 3
	if other == s.signers[0] {
		other = (other + 1) % 3
	}
	n := rapid.IntRange(0, 63).Draw(rt, "mutPos")
	switch mut {
	case "fee+1":
		setFee(new(big.Int).Add(s.fee, big.NewInt(1)))
	case "fee-1":
		if s.fee.Sign() == 0 {
			return false
		}
		setFee(new(big.Int).Sub(s.fee, big.NewInt(1)))
	case "fee-zero":
		if s.fee.Sign() == 0 {
			return false
		}
		setFee(big0())
	case "fee-double":
		setFee(new(big.Int).Add(new(big.Int).Mul(s.fee, big.NewInt(2)), big.NewInt(1000)))
	case "fee-extra-denom":
		d := "zzz"
		if c.denom != kit.FeeDenom {
			d = kit.FeeDenom
		}
		b.SetFeeAmount(tx.GetFee().Add(sdk.NewInt64Coin(d, 5)))
	case "gas+1":
		b.SetGasLimit(s.gas + 1)
	case "gas-1":
		b.SetGasLimit(s.gas - 1)
	case "gas-double":
		b.SetGasLimit(s.gas * 2)
	case "to":
		if call == nil {
			return false
		}
		a := common.HexToAddress(call.ContractAddr)
		a[19] ^= byte(n + 1)
		call.ContractAddr = a.Hex()
	case "value+1":
		if call != nil {
			call.Value = call.Value.AddRaw(1)
		} else {
			create.Value = create.Value.AddRaw(1)
		}
	case "value-zero":
		if s.parts[0].value.Sign() == 0 {
			return false
		}
		if call != nil {
			call.Value = math.ZeroInt()
		} else {
			create.Value = math.ZeroInt()
		}
	case "input", "input-append":
		f := func(h string) string {
			bz := hexutil.MustDecode(h)
			if mut == "input-append" || len(bz) == 0 {
				return hexutil.Encode(append(bz, byte(n)))
			}
			bz[n%len(bz)] ^= byte(n + 1)
			return hexutil.Encode(bz)
		}
		if call != nil {
			call.Input = f(call.Input)
		} else {
			create.Code = f(create.Code)
		}
	case "al-add":
		t := evmtypes.AccessTuple{Address: kit.Addr(n % nKeys).Hex()}
		if call != nil {
			call.AccessList = append(call.AccessList, t)
		} else {
			create.AccessList = append(create.AccessList, t)
		}
	case "al-drop":
		if call != nil && len(call.AccessList) > 0 {
			call.AccessList = call.AccessList[1:]
		} else if create != nil && len(create.AccessList) > 0 {
			create.AccessList = create.AccessList[1:]
		} else {
			return false
		}
	case "nonce+1":
		// signed for the previous nonce, declared for the current one
		sigs[0].Sequence++
		s.nonces = []uint64{s.nonces[0] + 1}
	case "type":
		md.Type = (md.Type + uint8(n%2) + 1) % 3
		setMemo()
	case "feecap":
		v, _ := new(big.Int).SetString(md.GasFeeCap, 10)
		md.GasFeeCap = v.Add(v, big.NewInt(int64(n+1))).String()
		setMemo()
	case "feecap+fee":
		v, _ := new(big.Int).SetString(md.GasFeeCap, 10)
		v.Add(v, big.NewInt(int64(n+1)))
		md.GasFeeCap = v.String()
		setMemo()
		f := new(big.Int).Mul(v, new(big.Int).SetUint64(s.gas))
		f.Div(f, c.unit())
		setFee(f.Add(f, big.NewInt(1)))
	case "tipcap":
		if md.Type != 2 {
			return false
		}
		v, _ := new(big.Int).SetString(md.GasTipCap, 10)
		md.GasTipCap = v.Add(v, big.NewInt(int64(n+1))).String()
		setMemo()
	case "sender", "sender+pubkey":
		if call != nil {
			call.Sender = kit.Acc(other).String()
		} else {
			create.Sender = kit.Acc(other).String()
		}
		if mut == "sender+pubkey" {
			sigs[0].PubKey = kit.CosmosKey(other).PubKey()
		}
		sigs[0].Sequence = kit.Seq(app, ctx, kit.Acc(other))
	case "pubkey":
		sigs[0].PubKey = kit.CosmosKey(other).PubKey()
	case "sig-flip":
		data.Signature[n] ^= 1 << uint(n%8)
	case "sig-high-s":
		sv := new(big.Int).SetBytes(data.Signature[32:64])
		sv.Sub(crypto.S256().Params().N, sv)
		sv.FillBytes(data.Signature[32:64])
		data.Signature[64] ^= 1
	case "sig-v":
		data.Signature[64] ^= 1
	case "sig-zero":
		for i := range data.Signature {
			data.Signature[i] = 0
		}
	case "sig-short":
		data.Signature = data.Signature[:n]
	case "call-create":
		if call != nil {
			msg = &evmtypes.MsgCreate{Sender: call.Sender, Code: call.Input, Value: call.Value, AccessList: call.AccessList}
		} else {
			msg = &evmtypes.MsgCall{Sender: create.Sender, ContractAddr: c.worker.Hex(), Input: create.Code, Value: create.Value, AccessList: create.AccessList}
		}
	case "create2":
		if create == nil {
			return false
		}
		msg = &evmtypes.MsgCreate2{Sender: create.Sender, Code: create.Code, Value: create.Value, Salt: uint64(n), AccessList: create.AccessList}
	case "cosmos-msg":
		msg = &banktypes.MsgSend{FromAddress: kit.Acc(s.signers[0]).String(), ToAddress: kit.Acc(other).String(), Amount: sdk.NewCoins(sdk.NewInt64Coin(c.denom, 1))}
	case "mode-direct":
		data.SignMode = signing.SignMode_SIGN_MODE_DIRECT
	case "mode-amino":
		data.SignMode = signing.SignMode_SIGN_MODE_LEGACY_AMINO_JSON
	case "two-msgs":
	case "memo-extra":
		m := tx.GetMemo()
		b.SetMemo(m[:len(m)-1] + `,"note":"x"}`)
	case "memo-empty":
		b.SetMemo("")
	case "chain":
	case "payer":
		b.SetFeePayer(kit.Acc(other))
	default:
		panic(mut)
	}
	if mut == "chain" {
		// the same content signed for another chain
		id := kit.EthChainID()
		foreign := "minievm-9"
		fid := evmtypes.ConvertCosmosChainIDToEthereumChainID(foreign)
		if fid.Cmp(id) == 0 {
			return false
		}
		ethTx, _, err := evmkeeper.NewTxUtils(app.EVMKeeper).ConvertCosmosTxToEthereumTx(ctx, dec)
		must(err)
		var td coretypes.TxData
		switch ethTx.Type() {
		case 0:
			td = &coretypes.LegacyTx{Nonce: ethTx.Nonce(), GasPrice: ethTx.GasPrice(), Gas: ethTx.Gas(), To: ethTx.To(), Value: ethTx.Value(), Data: ethTx.Data()}
		case 1:
			td = &coretypes.AccessListTx{ChainID: fid, Nonce: ethTx.Nonce(), GasPrice: ethTx.GasPrice(), Gas: ethTx.Gas(), To: ethTx.To(), Value: ethTx.Value(), Data: ethTx.Data(), AccessList: ethTx.AccessList()}
		default:
			td = &coretypes.DynamicFeeTx{ChainID: fid, Nonce: ethTx.Nonce(), GasTipCap: ethTx.GasTipCap(), GasFeeCap: ethTx.GasFeeCap(), Gas: ethTx.Gas(), To: ethTx.To(), Value: ethTx.Value(), Data: ethTx.Data(), AccessList: ethTx.AccessList()}
		}
		signed, err := coretypes.SignNewTx(kit.Key(s.signers[0]), coretypes.LatestSignerForChainID(fid), td)
		must(err)
		if _, err := evmkeeper.NewTxUtils(app.EVMKeeper).ConvertEthereumTxToCosmosTx(ctx, signed); err == nil {
			rt.Fatalf("a transaction signed for chain %s was converted on chain %s", fid, id)
		}
		sdkTx, err := evmkeeper.NewTxUtils(app.EVMKeeper).ConvertEthereumTxToCosmosTx(ctx.WithChainID(foreign), signed)
		must(err)
		s.bytes, err = app.TxEncode(sdkTx)
		must(err)
	} else {
		msgs := []sdk.Msg{msg}
		if mut == "two-msgs" {
			msgs = append(msgs, msg)
		}
		must(b.SetMsgs(msgs...))
		must(b.SetSignatures(sigs...))
		s.bytes, err = app.TxEncode(b.GetTx())
		must(err)
	}
	s.mut = mut
	s.desc += " ALTERED:" + mut
	return true
}

var cosmosMutations = []string{"sig-flip", "chainid", "accnum", "seq-signed", "msg", "fee", "gas", "memo", "wrongkey", "wrongpub", "missing-sig", "eth-mode", "mode", "swap-sigs"}

// drawCosmos generates an ordinary transaction.
func (c *config) drawCosmos(rt *rapid.T, app *minievmapp.MinitiaApp, ctx sdk.Context, i int, seq func(int) uint64, bal func(int) *big.Int, off int64, mut string) *spec {
	s := &spec{payer: i}
	j := (i + rapid.IntRange(1, nGenKey-1).Draw(rt, "second")) % nGenKey
	mk := func(from int, kind string) (part, sdk.Msg) {
		value := c.drawValue(rt, bal(from))
		switch kind {
		case "bank":
			to := rapid.IntRange(0, nKeys-1).Draw(rt, "bankTo")
			if value.Sign() == 0 {
				value = big.NewInt(1)
			}
			return part{from: from, kind: "bank", mode: -1, to: kit.Addr(to), value: value},
				&banktypes.MsgSend{FromAddress: kit.Acc(from).String(), ToAddress: kit.Acc(to).String(), Amount: sdk.NewCoins(sdk.NewCoin(c.denom, math.NewIntFromBigInt(value)))}
		case "call":
			data, p := c.input(rt, drawMode(rt))
			p.from, p.value, p.to = from, value, c.worker
			return p, &evmtypes.MsgCall{Sender: kit.Acc(from).String(), ContractAddr: c.worker.Hex(), Input: hexutil.Encode(data), Value: math.NewIntFromBigInt(value)}
		case "create":
			p := part{from: from, kind: "create", evm: true, mode: -1, value: value, code: rapid.IntRange(0, len(initCodes)-1).Draw(rt, "code")}
			return p, &evmtypes.MsgCreate{Sender: kit.Acc(from).String(), Code: hexutil.Encode(initCodes[p.code]), Value: math.NewIntFromBigInt(value)}
		default:
			p := part{from: from, kind: "create2", evm: true, mode: -1, value: value, code: rapid.IntRange(0, len(initCodes)-1).Draw(rt, "code"), salt: rapid.Uint64Range(0, 5).Draw(rt, "salt")}
			return p, &evmtypes.MsgCreate2{Sender: kit.Acc(from).String(), Code: hexutil.Encode(initCodes[p.code]), Value: math.NewIntFromBigInt(value), Salt: p.salt}
		}
	}
	shape := rapid.SampledFrom([]string{"bank", "call", "call", "create", "create2", "call,call", "create,call,create", "bank,call", "call,bank", "call|call", "bank|call", "create|bank", "call|create|call"}).Draw(rt, "shape")
	s.signers = []int{i}
	var msgs []sdk.Msg
	from := i
	kind := ""
	for k := 0; k <= len(shape); k++ {
		if k < len(shape) && shape[k] != ',' && shape[k] != '|' {
			kind += string(shape[k])
			continue
		}
		p, m := mk(from, kind)
		s.parts = append(s.parts, p)
		msgs = append(msgs, m)
		kind = ""
		if k < len(shape) && shape[k] == '|' {
			if from == i {
				from = j
			} else {
				from = i
			}
			if len(s.signers) == 1 {
				s.signers = append(s.signers, j)
			}
		}
	}
	s.gas = drawGas(rt)
	if s.gas >= 700_000 {
		s.gas += 500_000 * uint64(len(msgs))
	}
	cap := c.drawFeeCap(rt, s.gas, bal(i))
	if mut != "" {
		s.gas = 3_000_000
		cap = new(big.Int).Div(c.unit(), big.NewInt(rapid.SampledFrom([]int64{1000, 2_000_000}).Draw(rt, "calmFee")))
	}
	f := new(big.Int).Mul(cap, new(big.Int).SetUint64(s.gas))
	s.fee = f.Div(f, c.unit())
	tx := kit.CosmosTx{Msgs: msgs, Gas: s.gas, Signers: s.signers}
	if s.fee.Sign() > 0 {
		tx.Fee = sdk.NewCoins(sdk.NewCoin(c.denom, math.NewIntFromBigInt(s.fee)))
	}
	if rapid.IntRange(0, 4).Draw(rt, "useGranter") == 0 && mut == "" {
		g := rapid.IntRange(0, nGenKey-1).Draw(rt, "granter")
		for p := range granted {
			// (a grantee has at most one granter)
			if p[1] == i && g != 0 {
				g = p[0]
				break
			}
		}
		if g != i {
			tx.Granter = kit.Acc(g)
			s.payer = g
			s.granter = true
		}
	}
	if rapid.IntRange(0, 3).Draw(rt, "amino") == 0 {
		tx.Mode = signing.SignMode_SIGN_MODE_LEGACY_AMINO_JSON
	}
	memo := ""
	if rapid.IntRange(0, 3).Draw(rt, "memoKind") == 0 {
		memo = rapid.SampledFrom([]string{"hello", "{}", `{"type":0,"gas_fee_cap":"0","gas_tip_cap":"0"}`}).Draw(rt, "memo")
	}
	tx.Memo = memo
	for k, sg := range s.signers {
		s.nonces = append(s.nonces, uint64(int64(seq(sg))))
		if k == len(s.signers)-1 {
			n := int64(seq(sg)) + off
			if n < 0 {
				n = 0
			}
			s.nonces[k] = uint64(n)
		}
		acc := app.AccountKeeper.GetAccount(ctx, kit.Acc(sg))
		num := uint64(0)
		if acc != nil {
			num = acc.GetAccountNumber()
		}
		tx.AccNums = append(tx.AccNums, num)
	}
	tx.Seqs = s.nonces
	last := len(s.signers) - 1
	switch mut {
	case "":
	case "chainid":
		tx.ChainID = "minievm-8"
	case "accnum":
		tx.AccNums[last] += 1 + uint64(rapid.IntRange(0, 20).Draw(rt, "accnumOff"))
	case "missing-sig":
		if last == 0 {
			mut = "sig-flip"
		}
	case "swap-sigs":
		if last == 0 {
			mut = "sig-flip"
		}
	case "eth-mode":
	}
	switch mut {
	case "sig-flip", "wrongkey", "wrongpub", "missing-sig", "eth-mode", "mode", "swap-sigs", "seq-signed":
		pos := rapid.IntRange(0, 63).Draw(rt, "flipPos")
		tx.Mutate = func(sigs []signing.SignatureV2) {
			d := sigs[last].Data.(*signing.SingleSignatureData)
			switch mut {
			case "sig-flip":
				d.Signature[pos] ^= 1 << uint(pos%8)
			case "wrongkey", "wrongpub":
				o := (s.signers[last] + 1) % nGenKey
				bz := crypto.Keccak256([]byte{byte(pos)})
				sg, err := kit.CosmosKey(o).Sign(bz)
				must(err)
				if mut == "wrongpub" {
					sigs[last].PubKey = kit.CosmosKey(o).PubKey()
				} else {
					d.Signature = sg
				}
			case "eth-mode":
				d.SignMode = evmkeeper.SignMode_SIGN_MODE_ETHEREUM
			case "mode":
				if d.SignMode == signing.SignMode_SIGN_MODE_DIRECT {
					d.SignMode = signing.SignMode_SIGN_MODE_LEGACY_AMINO_JSON
				} else {
					d.SignMode = signing.SignMode_SIGN_MODE_DIRECT
				}
			case "swap-sigs":
				a, b := sigs[0].Data.(*signing.SingleSignatureData), sigs[1].Data.(*signing.SingleSignatureData)
				a.Signature, b.Signature = b.Signature, a.Signature
			}
		}
		if mut == "seq-signed" {
			// signed for the next sequence but declared for this one
			tx.Seqs = append([]uint64{}, s.nonces...)
			tx.Seqs[last]++
			want := s.nonces[last]
			tx.Mutate = func(sigs []signing.SignatureV2) { sigs[last].Sequence = want }
		}
	}
	bz, err := tx.Build(app)
	if err != nil {
		rt.Fatalf("building a cosmos tx: %v", err)
	}
	switch mut {
	case "msg", "fee", "gas", "memo", "missing-sig":
		dec, err := app.TxDecode(bz)
		must(err)
		b, err := app.TxConfig().WrapTxBuilder(dec)
		must(err)
		switch mut {
		case "msg":
			m := dec.GetMsgs()
			switch x := m[0].(type) {
			case *banktypes.MsgSend:
				x.Amount = x.Amount.Add(sdk.NewInt64Coin(c.denom, 1))
			case *evmtypes.MsgCall:
				x.Value = x.Value.AddRaw(1)
			case *evmtypes.MsgCreate:
				x.Code += "00"
			case *evmtypes.MsgCreate2:
				x.Salt++
			}
			must(b.SetMsgs(m...))
		case "fee":
			b.SetFeeAmount(tx.Fee.Add(sdk.NewInt64Coin(c.denom, 1)))
		case "gas":
			b.SetGasLimit(s.gas + 1)
		case "memo":
			b.SetMemo(memo + "!")
		case "missing-sig":
			sigs, err := b.GetTx().(xauthsigning.SigVerifiableTx).GetSignaturesV2()
			must(err)
			must(b.SetSignatures(sigs[:len(sigs)-1]...))
		}
		if bz, err = app.TxEncode(b.GetTx()); err != nil {
			rt.Fatalf("encoding: %v", err)
		}
	}
	s.bytes = bz
	s.mut = mut
	s.desc = fmt.Sprintf("cosmos %v nonces=%v gas=%d fee=%s payer=key%d granter=%v memo=%q", s.signers, s.nonces, s.gas, s.fee, s.payer, s.granter, memo)
	for _, p := range s.parts {
		s.desc += fmt.Sprintf(" [key%d %s value=%s]", p.from, p.describe(c), p.value)
	}
	if mut != "" {
		s.desc += " ALTERED:" + mut
	}
	return s
}
