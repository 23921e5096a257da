package kit

import (
	"context"
	"fmt"
	"math/big"

	abci "github.com/cometbft/cometbft/abci/types"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	xauthsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"

	"github.com/ethereum/go-ethereum/common"
	coretypes "github.com/ethereum/go-ethereum/core/types"

	minievmapp "github.com/initia-labs/minievm/app"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// EthChainID is the ethereum chain id of the harness chain.
func EthChainID() *big.Int { return evmtypes.ConvertCosmosChainIDToEthereumChainID(ChainID) }

// Signer of the harness chain.
func Signer() coretypes.Signer { return coretypes.LatestSignerForChainID(EthChainID()) }

// SignEth signs tx data with the i-th key.
func SignEth(i int, data coretypes.TxData) *coretypes.Transaction {
	tx, err := coretypes.SignNewTx(Key(i), Signer(), data)
	if err != nil {
		panic(err)
	}
	return tx
}

// EthToCosmos converts a signed ethereum transaction to the bytes put in a block.
func EthToCosmos(app *minievmapp.MinitiaApp, ctx sdk.Context, tx *coretypes.Transaction) ([]byte, error) {
	sdkTx, err := evmkeeper.NewTxUtils(app.EVMKeeper).ConvertEthereumTxToCosmosTx(ctx, tx)
	if err != nil {
		return nil, err
	}
	return app.TxEncode(sdkTx)
}

// EthCall is a signed dynamic-fee transaction; to nil creates.
func EthCall(i int, nonce uint64, to *common.Address, data []byte, value *big.Int, gas uint64, feeCap *big.Int) *coretypes.Transaction {
	if value == nil {
		value = new(big.Int)
	}
	if feeCap == nil {
		feeCap = new(big.Int)
	}
	return SignEth(i, &coretypes.DynamicFeeTx{ChainID: EthChainID(), Nonce: nonce, GasTipCap: feeCap, GasFeeCap: feeCap, Gas: gas, To: to, Value: value, Data: data})
}

// CosmosTx describes an ordinary cosmos transaction.
type CosmosTx struct {
	Msgs     []sdk.Msg
	Fee      sdk.Coins
	Gas      uint64
	Memo     string
	Timeout  uint64
	Granter  sdk.AccAddress
	Payer    sdk.AccAddress
	Signers  []int // key indexes
	AccNums  []uint64
	Seqs     []uint64
	ChainID  string
	Mode     signing.SignMode
	NoPubKey bool
	// Mutate may change signatures before encoding.
	Mutate func([]signing.SignatureV2)
	// Privs overrides the signing keys.
	Privs []cryptotypes.PrivKey
}

// Build signs and encodes the transaction.
func (c CosmosTx) Build(app *minievmapp.MinitiaApp) ([]byte, error) {
	b := app.TxConfig().NewTxBuilder()
	if err := b.SetMsgs(c.Msgs...); err != nil {
		return nil, err
	}
	b.SetFeeAmount(c.Fee)
	b.SetGasLimit(c.Gas)
	b.SetMemo(c.Memo)
	b.SetTimeoutHeight(c.Timeout)
	if c.Granter != nil {
		b.SetFeeGranter(c.Granter)
	}
	if c.Payer != nil {
		b.SetFeePayer(c.Payer)
	}
	if c.ChainID == "" {
		c.ChainID = ChainID
	}
	if c.Mode == 0 {
		c.Mode = signing.SignMode_SIGN_MODE_DIRECT
	}
	privs := c.Privs
	if privs == nil {
		for _, i := range c.Signers {
			privs = append(privs, CosmosKey(i))
		}
	}
	var sigs []signing.SignatureV2
	for j, p := range privs {
		sigs = append(sigs, signing.SignatureV2{PubKey: p.PubKey(), Data: &signing.SingleSignatureData{SignMode: c.Mode}, Sequence: c.Seqs[j]})
	}
	if err := b.SetSignatures(sigs...); err != nil {
		return nil, err
	}
	sigs = nil
	for j, p := range privs {
		data := xauthsigning.SignerData{
			Address: sdk.AccAddress(p.PubKey().Address()).String(), ChainID: c.ChainID, AccountNumber: c.AccNums[j],
			Sequence: c.Seqs[j], PubKey: p.PubKey(),
		}
		bz, err := xauthsigning.GetSignBytesAdapter(context.Background(), app.TxConfig().SignModeHandler(), c.Mode, data, b.GetTx())
		if err != nil {
			return nil, err
		}
		s, err := p.Sign(bz)
		if err != nil {
			return nil, err
		}
		sig := signing.SignatureV2{PubKey: p.PubKey(), Data: &signing.SingleSignatureData{SignMode: c.Mode, Signature: s}, Sequence: c.Seqs[j]}
		if c.NoPubKey {
			sig.PubKey = nil
		}
		sigs = append(sigs, sig)
	}
	if c.Mutate != nil {
		c.Mutate(sigs)
	}
	if err := b.SetSignatures(sigs...); err != nil {
		return nil, err
	}
	return app.TxEncode(b.GetTx())
}

// Any packs a message.
func Any(m sdk.Msg) *codectypes.Any {
	a, err := codectypes.NewAnyWithValue(m)
	if err != nil {
		panic(err)
	}
	return a
}

// Seq is the committed sequence of the i-th key's account.
func Seq(app *minievmapp.MinitiaApp, ctx sdk.Context, addr sdk.AccAddress) uint64 {
	acc := app.AccountKeeper.GetAccount(ctx, addr)
	if acc == nil {
		return 0
	}
	return acc.GetSequence()
}

// Result is a short description of a tx result.
func Result(r *abci.ExecTxResult) string {
	return fmt.Sprintf("code=%d/%s gas=%d/%d %.160s", r.Code, r.Codespace, r.GasUsed, r.GasWanted, r.Log)
}
