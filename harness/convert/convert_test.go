// Package convert: the Ethereum and Cosmos forms of a transaction, and the
// ether and token units, against each other and against plain decimal strings.
package convert

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"testing"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	txv1 "github.com/cosmos/cosmos-sdk/types/tx"

	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/holiman/uint256"

	"pgregory.net/rapid"

	minievmapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/verifh/kit"
	evmante "github.com/initia-labs/minievm/x/evm/ante"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// ---------------------------------------------------------------- generators

func bigGen(maxBits int) *rapid.Generator[*big.Int] {
	return rapid.Custom(func(t *rapid.T) *big.Int {
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 0:
			return big.NewInt(rapid.Int64Range(0, 20).Draw(t, "small"))
		case 1: // near a power of ten
			e := rapid.IntRange(0, maxBits*3/10).Draw(t, "pow10")
			v := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(e)), nil)
			v.Mul(v, big.NewInt(rapid.Int64Range(1, 99).Draw(t, "mul")))
			v.Add(v, big.NewInt(rapid.Int64Range(-2, 2).Draw(t, "off")))
			return fit(v, maxBits)
		case 2: // near a power of two
			e := rapid.IntRange(0, maxBits).Draw(t, "pow2")
			v := new(big.Int).Lsh(big.NewInt(1), uint(e))
			v.Add(v, big.NewInt(rapid.Int64Range(-2, 2).Draw(t, "off")))
			return fit(v, maxBits)
		case 3: // a typical amount: mantissa times a power of ten
			v := new(big.Int).SetUint64(rapid.Uint64().Draw(t, "mantissa"))
			e := rapid.IntRange(0, 24).Draw(t, "exp")
			v.Mul(v, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(e)), nil))
			return fit(v, maxBits)
		case 4:
			return new(big.Int).SetUint64(rapid.Uint64().Draw(t, "u64"))
		default:
			n := rapid.IntRange(0, maxBits/8).Draw(t, "len")
			return new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "bytes"))
		}
	})
}

func fit(v *big.Int, maxBits int) *big.Int {
	if v.Sign() < 0 {
		return new(big.Int)
	}
	max := new(big.Int).Lsh(big.NewInt(1), uint(maxBits))
	if v.Cmp(max) >= 0 {
		return new(big.Int).Sub(max, big.NewInt(1))
	}
	return v
}

// shift moves the decimal point of v by n digits to the right, dropping what
// falls off on the left of the point, on the decimal string.
func shift(v *big.Int, n int) *big.Int {
	s := v.String()
	if n >= 0 {
		s += strings.Repeat("0", n)
	} else if -n >= len(s) {
		s = "0"
	} else {
		s = s[:len(s)+n]
	}
	r, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return r
}

// ---------------------------------------------------------------- units

func TestUnits(t *testing.T) {
	rule := "amounts of up to 320 bits (small, near powers of ten and two, mantissa times power of ten, random) and 0..60 decimals; non-trivial when digits are dropped or the decimals differ from the unit's"
	type conv struct {
		name     string
		base     uint8
		to, from func(uint8, *big.Int) *big.Int
	}
	convs := []conv{
		{"ether", 18, evmtypes.ToEthersUint, evmtypes.FromEthersUnit},
		{"gwei", 9, evmtypes.ToGweiUint, evmtypes.FromGweiUnit},
	}
	kit.Run(t, rule, func(rt *rapid.T, c *kit.Case) {
		cv := convs[rapid.IntRange(0, 1).Draw(rt, "unit")]
		dec := rapid.OneOf(rapid.Uint8Range(0, 20), rapid.Uint8Range(0, 60)).Draw(rt, "decimals")
		a := bigGen(320).Draw(rt, "a")
		b := bigGen(320).Draw(rt, "b")
		c.Logf("%s decimals=%d a=%s b=%s", cv.name, dec, a, b)
		c.NonTrivialIf(dec != cv.base)
		up, down := cv.to, cv.from // up is exact, down rounds
		n := int(cv.base) - int(dec)
		if n < 0 {
			up, down = cv.from, cv.to
			n = -n
		}
		if n > 0 && shift(shift(a, -n), n).Cmp(a) != 0 {
			c.Label("digits dropped")
		}

		a0, b0 := new(big.Int).Set(a), new(big.Int).Set(b)
		if got := up(dec, a); got.Cmp(shift(a0, n)) != 0 {
			rt.Fatalf("exact conversion of %s gives %s, want %s", a0, got, shift(a0, n))
		}
		if got := down(dec, a); got.Cmp(shift(a0, -n)) != 0 {
			rt.Fatalf("rounding conversion of %s gives %s, want %s", a0, got, shift(a0, -n))
		}
		if got := down(dec, up(dec, a)); got.Cmp(a0) != 0 {
			rt.Fatalf("round trip through the finer unit changed %s to %s", a0, got)
		}
		if got := up(dec, down(dec, a)); got.Cmp(a0) > 0 {
			rt.Fatalf("round trip through the coarser unit raised %s to %s", a0, got)
		}
		sum := new(big.Int).Add(down(dec, a), down(dec, b))
		if whole := down(dec, new(big.Int).Add(a, b)); sum.Cmp(whole) > 0 {
			rt.Fatalf("converting %s and %s separately gives %s, together %s", a0, b0, sum, whole)
		}
		if (a.Cmp(b) <= 0) != (up(dec, a).Cmp(up(dec, b)) <= 0) {
			rt.Fatalf("exact conversion reorders %s and %s", a0, b0)
		}
		if a.Cmp(b) <= 0 && down(dec, a).Cmp(down(dec, b)) > 0 {
			rt.Fatalf("rounding conversion reorders %s and %s", a0, b0)
		}
		// results are fresh values
		for _, f := range []func(uint8, *big.Int) *big.Int{up, down} {
			r := f(dec, a)
			r.Add(r, big.NewInt(7))
			if a.Cmp(a0) != 0 || b.Cmp(b0) != 0 {
				rt.Fatalf("the conversion shares its argument")
			}
		}
	})
}

// ---------------------------------------------------------------- chain

const maxDec = 30

var (
	worldOnce sync.Once
	worldApp  *minievmapp.MinitiaApp
	worldCtx  sdk.Context
	probe     common.Address
)

func feeDenom(d int) string { return fmt.Sprintf("dec%d", d) }

// world is one chain with a fee denom candidate for every number of decimals.
func world() (*minievmapp.MinitiaApp, sdk.Context) {
	worldOnce.Do(func() {
		worldApp = kit.NewApp(kit.Options{NumKeys: 3})
		worldCtx = kit.Ctx(worldApp)
		for d := 0; d <= maxDec; d++ {
			if err := worldApp.EVMKeeper.ERC20Keeper().CreateERC20(worldCtx, feeDenom(d), uint8(d)); err != nil {
				panic(err)
			}
		}
		a := kit.NewAsm()
		a.Op(vm.GASPRICE).Push(0).Op(vm.MSTORE).Op(vm.BASEFEE).Push(32).Op(vm.MSTORE).Push(64).Push(0).Op(vm.RETURN)
		_, addr, _, err := worldApp.EVMKeeper.EVMCreate(worldCtx, kit.Addr(0), kit.InitCode(nil, a.Bytes()), nil, nil)
		if err != nil {
			panic(err)
		}
		probe = addr
	})
	return worldApp, worldCtx
}

// withDecimals gives a branch of the chain whose fee denom has that many decimals.
func withDecimals(d int) (*minievmapp.MinitiaApp, sdk.Context) {
	app, ctx := world()
	ctx, _ = kit.Branch(ctx)
	p, err := app.EVMKeeper.Params.Get(ctx)
	if err != nil {
		panic(err)
	}
	p.FeeDenom = feeDenom(d)
	if err := app.EVMKeeper.Params.Set(ctx, p); err != nil {
		panic(err)
	}
	return app, ctx
}

func TestGasPriceUnits(t *testing.T) {
	rule := "a fee denom of 0..30 decimals and gas prices in token units from 1e-18 to 1e30; the base fee and GASPRICE seen by a contract against the exact value in wei; non-trivial when the price is not zero"
	kit.Run(t, rule, func(rt *rapid.T, c *kit.Case) {
		d := rapid.IntRange(0, maxDec).Draw(rt, "decimals")
		app, ctx := withDecimals(d)
		price := math.LegacyNewDecFromBigIntWithPrec(bigGen(160).Draw(rt, "price"), 18)
		c.Logf("decimals=%d gas price %s", d, price)
		c.NonTrivialIf(price.IsPositive())

		ctx = ctx.WithValue(evmante.ContextKeyGasPrices, sdk.DecCoins{sdk.NewDecCoinFromDec(feeDenom(d), price)})
		ret, _, err := app.EVMKeeper.EVMCall(ctx, kit.Addr(0), probe, nil, nil, nil)
		if err != nil {
			rt.Fatalf("call: %v", err)
		}
		// price*1e9 (whole part) tokens per 1e9 gas, in wei per gas
		nano := shift(price.BigInt(), -9)
		want := shift(nano, 9-d)
		if got := new(big.Int).SetBytes(ret[:32]); got.Cmp(want) != 0 {
			rt.Fatalf("GASPRICE is %s wei, want %s", got, want)
		}
		// never more than the exact price
		exactNum := shift(price.BigInt(), 0) // price*1e18
		exact := shift(exactNum, -d)         // price*1e18/10^d, rounded down
		if got := new(big.Int).SetBytes(ret[:32]); got.Cmp(exact) > 0 {
			rt.Fatalf("GASPRICE %s wei exceeds the price %s", got, exact)
		}
	})
}

func TestValueUnits(t *testing.T) {
	rule := "signed ethereum transactions with values and fee caps of up to 256 bits and a fee denom of 0..30 decimals; the message value and the fee against the decimal strings; non-trivial when the decimals are not 18"
	kit.Run(t, rule, func(rt *rapid.T, c *kit.Case) {
		d := rapid.OneOf(rapid.SampledFrom([]int{0, 6, 9, 18}), rapid.IntRange(0, maxDec)).Draw(rt, "decimals")
		app, ctx := withDecimals(d)
		value := bigGen(256).Draw(rt, "value")
		if d < 18 && rapid.Bool().Draw(rt, "whole") {
			value = fit(shift(shift(value, -(18-d)), 18-d), 256)
		}
		feeCap := bigGen(200).Draw(rt, "feecap")
		gas := rapid.OneOf(rapid.Uint64Range(0, 1<<24), rapid.Uint64()).Draw(rt, "gas")
		to := kit.Addr(2)
		tx := kit.EthCall(1, 0, &to, nil, value, gas, feeCap)
		c.Logf("decimals=%d value=%s feecap=%s gas=%d", d, value, feeCap, gas)
		c.NonTrivialIf(d != 18)

		wantValue := shift(value, d-18)
		wantFee := new(big.Int)
		if feeCap.Sign() > 0 {
			wantFee = shift(new(big.Int).Mul(feeCap, new(big.Int).SetUint64(gas)), d-18)
			wantFee.Add(wantFee, big.NewInt(1))
		}
		ok := shift(wantValue, 18-d).Cmp(value) == 0 && wantValue.BitLen() <= 256 && wantFee.BitLen() <= 256
		sdkTx, err := evmkeeper.NewTxUtils(app.EVMKeeper).ConvertEthereumTxToCosmosTx(ctx, tx)
		if !ok {
			c.Label("unrepresentable")
			if err == nil {
				rt.Fatalf("an amount that does not fit was accepted")
			}
			return
		}
		if err != nil {
			rt.Fatalf("conversion failed: %v", err)
		}
		msg := sdkTx.GetMsgs()[0].(*evmtypes.MsgCall)
		if msg.Value.BigInt().Cmp(wantValue) != 0 {
			rt.Fatalf("value %s wei became %s tokens, want %s", value, msg.Value, wantValue)
		}
		fee := sdkTx.(sdk.FeeTx).GetFee()
		if fee.AmountOf(feeDenom(d)).BigInt().Cmp(wantFee) != 0 || len(fee) > 1 {
			rt.Fatalf("fee %s, want %s", fee, wantFee)
		}
	})
}

// ---------------------------------------------------------------- transactions

func genAccessList(rt *rapid.T) coretypes.AccessList {
	var al coretypes.AccessList
	for i, n := 0, rapid.IntRange(0, 3).Draw(rt, "al"); i < n; i++ {
		tup := coretypes.AccessTuple{Address: genAddr(rt)}
		for j, m := 0, rapid.IntRange(0, 3).Draw(rt, "keys"); j < m; j++ {
			tup.StorageKeys = append(tup.StorageKeys, common.BigToHash(bigGen(256).Draw(rt, "key")))
		}
		al = append(al, tup)
	}
	return al
}

func genAddr(rt *rapid.T) common.Address {
	switch rapid.IntRange(0, 3).Draw(rt, "addrkind") {
	case 0:
		return kit.Addr(rapid.IntRange(0, 3).Draw(rt, "key"))
	case 1:
		return common.BigToAddress(big.NewInt(rapid.Int64Range(0, 0x100).Draw(rt, "low")))
	default:
		return common.BytesToAddress(rapid.SliceOfN(rapid.Byte(), 20, 20).Draw(rt, "addr"))
	}
}

func genData(rt *rapid.T) []byte {
	if rapid.IntRange(0, 20).Draw(rt, "big data") == 0 {
		n := rapid.IntRange(0, 5000).Draw(rt, "datalen")
		return bytes.Repeat([]byte{rapid.Byte().Draw(rt, "fill")}, n)
	}
	return rapid.SliceOfN(rapid.Byte(), 0, 68).Draw(rt, "data")
}

type ethCase struct {
	tx        *coretypes.Transaction
	supported bool
	from      common.Address
	desc      string
}

// genEth makes a signed ethereum transaction whose amounts fit decimals d.
func genEth(rt *rapid.T, d int, odd bool) ethCase {
	key := rapid.IntRange(0, 40).Draw(rt, "signer")
	nonce := rapid.OneOf(rapid.Uint64Range(0, 5), rapid.Uint64()).Draw(rt, "nonce")
	gas := rapid.OneOf(rapid.Uint64Range(0, 1<<22), rapid.Uint64()).Draw(rt, "gas")
	value := bigGen(140).Draw(rt, "value")
	if d < 18 {
		value = shift(shift(value, -(18-d)), 18-d)
	}
	feeCap := bigGen(100).Draw(rt, "feecap")
	tip := bigGen(100).Draw(rt, "tip")
	data := genData(rt)
	al := genAccessList(rt)
	chain := kit.EthChainID()
	var to *common.Address
	if rapid.IntRange(0, 3).Draw(rt, "create") > 0 {
		a := genAddr(rt)
		to = &a
	}
	if to == nil && rapid.Bool().Draw(rt, "nodata") {
		data = nil
	}
	signer := kit.Signer()
	ec := ethCase{supported: true}
	kind := rapid.IntRange(0, 2).Draw(rt, "type")
	oddity := -1
	if odd {
		oddity = rapid.IntRange(0, 5).Draw(rt, "oddity")
	}
	switch oddity {
	case 0: // another chain
		chain = new(big.Int).Add(chain, big.NewInt(rapid.Int64Range(1, 1000).Draw(rt, "chain")))
		signer = coretypes.LatestSignerForChainID(chain)
		ec.supported = false
	case 1: // unprotected legacy
		kind = 0
		signer = coretypes.HomesteadSigner{}
		ec.supported = false
	case 2: // blob
		kind = 3
		ec.supported = false
	case 3: // dust
		if d < 18 {
			value = new(big.Int).Add(value, big.NewInt(rapid.Int64Range(1, 9).Draw(rt, "dust")))
			ec.supported = false
		}
	case 4: // more than fits
		value = new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(256+64, 400).Draw(rt, "bits")))
		if kind == 3 {
			kind = 2
		}
		ec.supported = false
	}
	var td coretypes.TxData
	switch kind {
	case 0:
		td = &coretypes.LegacyTx{Nonce: nonce, GasPrice: feeCap, Gas: gas, To: to, Value: value, Data: data}
	case 1:
		td = &coretypes.AccessListTx{ChainID: chain, Nonce: nonce, GasPrice: feeCap, Gas: gas, To: to, Value: value, Data: data, AccessList: al}
	case 2:
		td = &coretypes.DynamicFeeTx{ChainID: chain, Nonce: nonce, GasFeeCap: feeCap, GasTipCap: tip, Gas: gas, To: to, Value: value, Data: data, AccessList: al}
	case 3:
		td = &coretypes.BlobTx{ChainID: uint256.MustFromBig(chain), Nonce: nonce, GasFeeCap: u256(feeCap), GasTipCap: u256(tip), Gas: gas,
			To: common.Address{1}, Value: u256(value), Data: data, AccessList: al, BlobFeeCap: uint256.NewInt(1), BlobHashes: []common.Hash{{1}}}
	}
	tx, err := coretypes.SignNewTx(kit.Key(key), signer, td)
	if err != nil {
		rt.Fatalf("sign: %v", err)
	}
	ec.from = kit.Addr(key)
	if oddity == 5 { // damage the signature
		v, r, s := tx.RawSignatureValues()
		v, r, s = new(big.Int).Set(v), new(big.Int).Set(r), new(big.Int).Set(s)
		f := []*big.Int{v, r, s}[rapid.IntRange(0, 2).Draw(rt, "field")]
		switch rapid.IntRange(0, 4).Draw(rt, "damage") {
		case 0:
			f.Add(f, big.NewInt(1))
		case 1:
			f.Xor(f, big.NewInt(1))
		case 2:
			f.SetInt64(0)
		case 3:
			f.Lsh(f, 8)
		case 4: // the other root
			n, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
			f.Sub(n, f)
			f.Abs(f)
		}
		tx = rawSig(td, v, r, s)
		from, err := safeSender(tx)
		ec.supported = err == nil && tx.Protected()
		ec.from = from
	}
	ec.tx = tx
	ec.desc = fmt.Sprintf("type=%d oddity=%d key=%d nonce=%d gas=%d to=%v value=%s feecap=%s tip=%s data=%s al=%v", tx.Type(), oddity, key, nonce, gas, to, value, feeCap, tip, short(data), al)
	return ec
}

func u256(b *big.Int) *uint256.Int {
	v, _ := uint256.FromBig(b)
	return v
}

func short(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%x..(%d)", b[:20], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func safeSender(tx *coretypes.Transaction) (a common.Address, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	return coretypes.Sender(kit.Signer(), tx)
}

func rawSig(td coretypes.TxData, v, r, s *big.Int) *coretypes.Transaction {
	switch x := td.(type) {
	case *coretypes.LegacyTx:
		y := *x
		y.V, y.R, y.S = v, r, s
		return coretypes.NewTx(&y)
	case *coretypes.AccessListTx:
		y := *x
		y.V, y.R, y.S = v, r, s
		return coretypes.NewTx(&y)
	case *coretypes.DynamicFeeTx:
		y := *x
		y.V, y.R, y.S = v, r, s
		return coretypes.NewTx(&y)
	}
	panic("type")
}

func TestRoundTrip(t *testing.T) {
	rule := "signed legacy, access-list and dynamic-fee calls and creations (plus wrongly chained, unprotected, blob, dusty, oversized and damaged ones) for fee denoms of 0..24 decimals, to cosmos, encoded, decoded and back; non-trivial when the transaction is convertible"
	kit.Run(t, rule, func(rt *rapid.T, c *kit.Case) {
		d := rapid.OneOf(rapid.SampledFrom([]int{0, 6, 18}), rapid.IntRange(0, 24)).Draw(rt, "decimals")
		app, ctx := withDecimals(d)
		ec := genEth(rt, d, rapid.IntRange(0, 2).Draw(rt, "odd") == 0)
		c.Logf("decimals=%d %s", d, ec.desc)
		u := evmkeeper.NewTxUtils(app.EVMKeeper)
		before, err := ec.tx.MarshalBinary()
		if err != nil {
			rt.Fatalf("marshal: %v", err)
		}
		sdkTx, err := u.ConvertEthereumTxToCosmosTx(ctx, ec.tx)
		if !ec.supported {
			c.Label("unsupported")
			if err == nil {
				rt.Fatalf("an unsupported transaction was converted")
			}
			return
		}
		c.NonTrivial()
		c.Label(fmt.Sprintf("type %d", ec.tx.Type()))
		if err != nil {
			rt.Fatalf("conversion failed: %v", err)
		}
		bz, err := app.TxEncode(sdkTx)
		if err != nil {
			rt.Fatalf("encode: %v", err)
		}
		dec, err := app.TxDecode(bz)
		if err != nil {
			rt.Fatalf("decode: %v", err)
		}
		back, from, err := u.ConvertCosmosTxToEthereumTx(ctx, dec)
		if err != nil || back == nil {
			rt.Fatalf("converting back: %v %v", back, err)
		}
		if *from != ec.from {
			rt.Fatalf("sender %s became %s", ec.from, from)
		}
		after, err := back.MarshalBinary()
		if err != nil {
			rt.Fatalf("marshal: %v", err)
		}
		if !bytes.Equal(before, after) || back.Hash() != ec.tx.Hash() {
			rt.Fatalf("the transaction changed:\n%x\n%x", before, after)
		}
		if s, err := coretypes.Sender(kit.Signer(), back); err != nil || s != ec.from {
			rt.Fatalf("sender of the result: %s %v", s, err)
		}
		if ok, err := u.IsEthereumTx(ctx, dec); !ok || err != nil {
			rt.Fatalf("IsEthereumTx=%v %v", ok, err)
		}
		// the content that gets executed
		checkContent(rt, app, d, dec, back)
		// and the ante handler sees the same signers
		sigs, err := dec.(authsigning.Tx).GetSigners()
		if err != nil || len(sigs) != 1 || !bytes.Equal(sigs[0], ec.from.Bytes()) {
			rt.Fatalf("signers %x %v", sigs, err)
		}
	})
}

// checkContent compares what a cosmos transaction executes with the ethereum one.
func checkContent(rt *rapid.T, app *minievmapp.MinitiaApp, d int, tx sdk.Tx, eth *coretypes.Transaction) {
	ft := tx.(authsigning.Tx)
	if ft.GetGas() != eth.Gas() {
		rt.Fatalf("gas %d, ethereum %d", ft.GetGas(), eth.Gas())
	}
	fee := new(big.Int)
	if eth.GasFeeCap().Sign() > 0 {
		fee = shift(new(big.Int).Mul(eth.GasFeeCap(), new(big.Int).SetUint64(eth.Gas())), d-18)
		fee.Add(fee, big.NewInt(1))
	}
	if got := ft.GetFee(); got.AmountOf(feeDenom(d)).BigInt().Cmp(fee) != 0 || len(got) > 1 {
		rt.Fatalf("fee %s, ethereum %s", got, fee)
	}
	sigs, err := ft.GetSignaturesV2()
	if err != nil || len(sigs) != 1 || sigs[0].Sequence != eth.Nonce() {
		rt.Fatalf("signatures %v %v, nonce %d", sigs, err, eth.Nonce())
	}
	if len(tx.GetMsgs()) != 1 {
		rt.Fatalf("%d messages", len(tx.GetMsgs()))
	}
	var value math.Int
	var input string
	var al []evmtypes.AccessTuple
	switch m := tx.GetMsgs()[0].(type) {
	case *evmtypes.MsgCall:
		if eth.To() == nil {
			rt.Fatalf("a call became a creation")
		}
		to, err := evmtypes.ContractAddressFromString(app.AccountKeeper.AddressCodec(), m.ContractAddr)
		if err != nil || to != *eth.To() {
			rt.Fatalf("recipient %s, ethereum %s", m.ContractAddr, eth.To())
		}
		value, input, al = m.Value, m.Input, m.AccessList
	case *evmtypes.MsgCreate:
		if eth.To() != nil {
			rt.Fatalf("a creation became a call")
		}
		value, input, al = m.Value, m.Code, m.AccessList
	default:
		rt.Fatalf("message %T became an ethereum transaction", m)
	}
	if data, err := hexutil.Decode(input); err != nil || !bytes.Equal(data, eth.Data()) {
		rt.Fatalf("data %s %v, ethereum %x", input, err, eth.Data())
	}
	if shift(value.BigInt(), 18-d).Cmp(eth.Value()) != 0 {
		rt.Fatalf("value %s, ethereum %s", value, eth.Value())
	}
	ethAl := eth.AccessList()
	if len(al) != len(ethAl) {
		rt.Fatalf("access list of %d, ethereum %d", len(al), len(ethAl))
	}
	for i, a := range al {
		if common.HexToAddress(a.Address) != ethAl[i].Address || len(a.StorageKeys) != len(ethAl[i].StorageKeys) {
			rt.Fatalf("access list %v, ethereum %v", al, ethAl)
		}
		for j, k := range a.StorageKeys {
			if common.HexToHash(k) != ethAl[i].StorageKeys[j] {
				rt.Fatalf("access list %v, ethereum %v", al, ethAl)
			}
		}
	}
}

// ---------------------------------------------------------------- other cosmos transactions

func nilOr(v *big.Int) *math.Int {
	if v == nil {
		return nil
	}
	i := math.NewIntFromBigInt(v)
	return &i
}

func TestOtherTxs(t *testing.T) {
	rule := "wrapped transactions with 1..3 changes of their protobuf content (messages, memo, fee, signatures, sign mode, public key, addresses, hex fields, values) or of their bytes; converting gives an error, none, or an ethereum transaction with exactly the content; non-trivial when the changed transaction decodes"
	kit.Run(t, rule, func(rt *rapid.T, c *kit.Case) {
		d := rapid.SampledFrom([]int{0, 6, 18, 20}).Draw(rt, "decimals")
		app, ctx := withDecimals(d)
		u := evmkeeper.NewTxUtils(app.EVMKeeper)
		ec := genEth(rt, d, false)
		c.Logf("decimals=%d %s", d, ec.desc)
		sdkTx, err := u.ConvertEthereumTxToCosmosTx(ctx, ec.tx)
		if err != nil {
			rt.Fatalf("conversion failed: %v", err)
		}
		bz, err := app.TxEncode(sdkTx)
		if err != nil {
			rt.Fatalf("encode: %v", err)
		}
		var raw txv1.TxRaw
		var body txv1.TxBody
		var auth txv1.AuthInfo
		must(raw.Unmarshal(bz))
		must(body.Unmarshal(raw.BodyBytes))
		must(auth.Unmarshal(raw.AuthInfoBytes))
		must(body.UnpackInterfaces(app.InterfaceRegistry()))
		must(auth.UnpackInterfaces(app.InterfaceRegistry()))

		origFee := auth.Fee.Amount
		for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "changes"); i < n; i++ {
			kind := rapid.IntRange(0, 19).Draw(rt, "change")
			c.Logf("change %d", kind)
			msg := body.Messages[0].GetCachedValue().(sdk.Msg)
			switch kind {
			case 0: // another message
				var m sdk.Msg
				if rapid.Bool().Draw(rt, "send") {
					m = banktypes.NewMsgSend(ec.from.Bytes(), kit.Acc(2), sdk.NewCoins(sdk.NewInt64Coin("dec0", 1)))
				} else {
					m = &evmtypes.MsgCreate2{Sender: sdk.AccAddress(ec.from.Bytes()).String(), Code: "0x00", Salt: 3, Value: math.ZeroInt()}
				}
				body.Messages[0] = kit.Any(m)
			case 1: // none or several messages
				if rapid.Bool().Draw(rt, "none") {
					body.Messages = append(body.Messages, body.Messages[0])
				} else {
					body.Messages = append([]*codectypes.Any{kit.Any(banktypes.NewMsgSend(ec.from.Bytes(), kit.Acc(2), nil))}, body.Messages...)
				}
			case 2: // memo
				body.Memo = rapid.SampledFrom([]string{"", "{}", "hi", "null", "[]", `{"type":2}`, `{"type":300,"gas_fee_cap":"1","gas_tip_cap":"1"}`,
					`{"type":2,"gas_fee_cap":"-1","gas_tip_cap":"1"}`, `{"type":1,"gas_fee_cap":"0x10","gas_tip_cap":"1"}`, `{"type":2,"gas_fee_cap":"","gas_tip_cap":""}`,
					`{"type":4,"gas_fee_cap":"0","gas_tip_cap":"0"}`, `{"type":3,"gas_fee_cap":"0","gas_tip_cap":"0"}`, `{"type":0,"gas_fee_cap":"0","gas_tip_cap":"0"}`,
					`{"type":2,"gas_fee_cap":"0","gas_tip_cap":"0","x":1}`, `{"type":2,"gas_fee_cap":"115792089237316195423570985008687907853269984665640564039457584007913129639936","gas_tip_cap":"0"}`}).Draw(rt, "memo")
			case 3: // fee
				auth.Fee.Amount = rapid.SampledFrom([]sdk.Coins{nil, {}, sdk.NewCoins(sdk.NewInt64Coin("dec1", 5)), origFee.Add(sdk.NewInt64Coin("aaa", 1)), origFee.Add(sdk.NewInt64Coin(feeDenom(d), 1)), {sdk.Coin{Denom: "", Amount: math.ZeroInt()}}, {sdk.Coin{Denom: feeDenom(d)}}, {sdk.Coin{Denom: feeDenom(d), Amount: math.NewInt(-3)}}}).Draw(rt, "fee")
			case 4:
				auth.Fee.GasLimit = rapid.Uint64().Draw(rt, "gas")
			case 5: // sequence
				auth.SignerInfos[0].Sequence = rapid.Uint64().Draw(rt, "seq")
			case 6: // public key
				switch rapid.IntRange(0, 4).Draw(rt, "pk") {
				case 0:
					auth.SignerInfos[0].PublicKey = nil
				case 1:
					auth.SignerInfos[0].PublicKey = anyPk(kit.CosmosKey(41).PubKey())
				case 2:
					auth.SignerInfos[0].PublicKey = anyPk(secp256k1.GenPrivKeyFromSecret([]byte("x")).PubKey())
				case 3:
					auth.SignerInfos[0].PublicKey = &codectypes.Any{TypeUrl: "/initia.crypto.v1beta1.ethsecp256k1.PubKey", Value: rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "pkbytes")}
				case 4:
					auth.SignerInfos[0].PublicKey = anyPk(&secp256k1.PubKey{})
				}
			case 7: // sign mode
				switch rapid.IntRange(0, 4).Draw(rt, "mode") {
				case 0:
					auth.SignerInfos[0].ModeInfo = nil
				case 1:
					auth.SignerInfos[0].ModeInfo = &txv1.ModeInfo{}
				case 2:
					auth.SignerInfos[0].ModeInfo = &txv1.ModeInfo{Sum: &txv1.ModeInfo_Multi_{Multi: &txv1.ModeInfo_Multi{}}}
				default:
					auth.SignerInfos[0].ModeInfo = &txv1.ModeInfo{Sum: &txv1.ModeInfo_Single_{Single: &txv1.ModeInfo_Single{Mode: signing.SignMode(rapid.SampledFrom([]int32{0, 1, 2, 127, 191, 9998}).Draw(rt, "m"))}}}
				}
			case 8: // signatures
				first := append(raw.Signatures, nil)[0]
				switch rapid.IntRange(0, 4).Draw(rt, "sig") {
				case 0:
					raw.Signatures = nil
				case 1:
					raw.Signatures = [][]byte{first, first}
				case 2:
					raw.Signatures = [][]byte{rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(rt, "sigbytes")}
				case 3:
					raw.Signatures = [][]byte{first[:min(len(first), 64)]}
				case 4:
					raw.Signatures = [][]byte{nil}
				}
			case 9: // more signer infos
				auth.SignerInfos = append(auth.SignerInfos, auth.SignerInfos[0])
			case 10:
				auth.SignerInfos = auth.SignerInfos[:0]
				auth.SignerInfos = append(auth.SignerInfos, &txv1.SignerInfo{})
			case 11: // hex fields
				s := rapid.SampledFrom([]string{"", "0x", "0x0", "zz", "00", "0xzz", "0x00", "0XAB", "0xabcd"}).Draw(rt, "hex")
				switch m := msg.(type) {
				case *evmtypes.MsgCall:
					m.Input = s
				case *evmtypes.MsgCreate:
					m.Code = s
				}
				body.Messages[0] = kit.Any(msg)
			case 12: // recipient
				if m, ok := msg.(*evmtypes.MsgCall); ok {
					m.ContractAddr = rapid.SampledFrom([]string{"", "0x", "0x1", "hello", kit.Acc(1).String(), strings.ToUpper(kit.Acc(1).String()), kit.Addr(1).Hex()[2:], kit.Addr(1).Hex() + "00",
						sdk.AccAddress(bytes.Repeat([]byte{7}, 32)).String()}).Draw(rt, "to")
					body.Messages[0] = kit.Any(m)
				}
			case 13: // value
				v := rapid.SampledFrom([]*big.Int{nil, big.NewInt(-1), big.NewInt(0), big.NewInt(5), new(big.Int).Lsh(big.NewInt(1), 255)}).Draw(rt, "value")
				iv := math.Int{}
				if p := nilOr(v); p != nil {
					iv = *p
				}
				switch m := msg.(type) {
				case *evmtypes.MsgCall:
					m.Value = iv
				case *evmtypes.MsgCreate:
					m.Value = iv
				}
				body.Messages[0] = kit.Any(msg)
			case 14: // access list strings
				al := []evmtypes.AccessTuple{{Address: rapid.SampledFrom([]string{"", "0x1", "zz", kit.Addr(3).Hex(), kit.Acc(1).String()}).Draw(rt, "aladdr"),
					StorageKeys: []string{rapid.SampledFrom([]string{"", "0x1", "qq", "0x" + strings.Repeat("ab", 40)}).Draw(rt, "alkey")}}}
				switch m := msg.(type) {
				case *evmtypes.MsgCall:
					m.AccessList = al
				case *evmtypes.MsgCreate:
					m.AccessList = al
				}
				body.Messages[0] = kit.Any(msg)
			case 15: // other body fields
				body.TimeoutHeight = rapid.Uint64().Draw(rt, "timeout")
				auth.Fee.Granter = rapid.SampledFrom([]string{"", "x", kit.Acc(1).String()}).Draw(rt, "granter")
				auth.Fee.Payer = rapid.SampledFrom([]string{"", "x", kit.Acc(1).String()}).Draw(rt, "payer")
			case 16: // sender
				switch m := msg.(type) {
				case *evmtypes.MsgCall:
					m.Sender = kit.Acc(2).String()
				case *evmtypes.MsgCreate:
					m.Sender = ""
				}
				body.Messages[0] = kit.Any(msg)
			case 17: // no fee at all
				auth.Fee = &txv1.Fee{}
			case 18:
				auth.Tip = nil
				body.Memo = strings.Replace(body.Memo, `"type":`, ` "type": `, 1)
			}
		}
		// certainly none
		notWrapped := len(body.Messages) != 1 || len(auth.SignerInfos) != 1
		if !notWrapped {
			si := auth.SignerInfos[0]
			url := body.Messages[0].TypeUrl
			notWrapped = si.PublicKey == nil || si.ModeInfo.GetSingle() == nil || si.ModeInfo.GetSingle().Mode != 9999 ||
				(url != "/minievm.evm.v1.MsgCall" && url != "/minievm.evm.v1.MsgCreate")
		}
		raw.BodyBytes, err = body.Marshal()
		must(err)
		raw.AuthInfoBytes, err = auth.Marshal()
		must(err)
		if rapid.IntRange(0, 5).Draw(rt, "bytes") == 0 {
			which := []*[]byte{&raw.BodyBytes, &raw.AuthInfoBytes}[rapid.IntRange(0, 1).Draw(rt, "which")]
			b := bytes.Clone(*which)
			for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "nbytes"); i < n && len(b) > 0; i++ {
				b[rapid.IntRange(0, len(b)-1).Draw(rt, "pos")] = rapid.Byte().Draw(rt, "byte")
			}
			*which = b
			notWrapped = false
			c.Logf("bytes changed: %x", b)
		}
		out, err := raw.Marshal()
		must(err)
		tx, err := app.TxDecode(out)
		if err != nil {
			c.Label("undecodable")
			return
		}
		c.NonTrivial()

		gctx := ctx.WithGasMeter(storetypes.NewInfiniteGasMeter())
		eth, from, err := convert(rt, u, gctx, tx)
		if err == errSDK {
			c.Label("rejected by the SDK's own signature decoding")
			return
		}
		if err != nil {
			c.Label("error")
			return
		}
		if eth == nil {
			c.Label("none")
			return
		}
		c.Label("converted")
		if notWrapped {
			rt.Fatalf("a transaction that is not a wrapped ethereum one converted to %s", eth.Hash())
		}
		checkContent(rt, app, d, tx, eth)
		if ok, err := u.IsEthereumTx(gctx, tx); !ok || err != nil {
			rt.Fatalf("converted, but IsEthereumTx=%v %v", ok, err)
		}
		sigs, _ := tx.(authsigning.Tx).GetSignaturesV2()
		if !bytes.Equal(sigs[0].PubKey.Address(), from.Bytes()) {
			rt.Fatalf("expected sender %s is not the key's address", from)
		}
		rec, serr := safeSender(eth)
		if serr != nil || rec != *from {
			c.Label("not signed by the sender")
			return
		}
		c.Label("properly signed")
		again, err := u.ConvertEthereumTxToCosmosTx(gctx, eth)
		if err != nil {
			rt.Fatalf("the ethereum transaction does not convert: %v", err)
		}
		eth2, _, err := u.ConvertCosmosTxToEthereumTx(gctx, again)
		if err != nil || eth2 == nil || eth2.Hash() != eth.Hash() {
			rt.Fatalf("unstable conversion: %v %v", eth2, err)
		}
	})
}

var errSDK = fmt.Errorf("sdk")

// convert runs the conversion. A nil public key or mode info makes the SDK's own
// GetSignaturesV2 panic, before any code of the repository runs.
func convert(rt *rapid.T, u *evmkeeper.TxUtils, ctx sdk.Context, tx sdk.Tx) (eth *coretypes.Transaction, from *common.Address, err error) {
	sdkPanics := func() (p bool) {
		defer func() { p = recover() != nil }()
		_, _ = tx.(authsigning.Tx).GetSignaturesV2()
		return
	}()
	defer func() {
		if r := recover(); r != nil {
			if sdkPanics {
				err = errSDK
				return
			}
			panic(r)
		}
	}()
	return u.ConvertCosmosTxToEthereumTx(ctx, tx)
}

func anyPk(pk cryptotypes.PubKey) *codectypes.Any {
	a, err := codectypes.NewAnyWithValue(pk)
	must(err)
	return a
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
