// Package blocks models what a chain's blocks contain as Ethereum sees them.
package blocks

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"

	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/gogoproto/proto"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/trie"

	minievmapp "github.com/initia-labs/minievm/app"
	rpctypes "github.com/initia-labs/minievm/jsonrpc/types"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifh/history"
	"github.com/initia-labs/minievm/verifh/kit"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func must2[T any](v T, err error) T {
	must(err)
	return v
}

// Tx is an executed Ethereum transaction.
type Tx struct {
	Eth        *coretypes.Transaction
	CosmosHash []byte
	From       common.Address
	Block      *Block
	Index      int
	Receipt    *coretypes.Receipt
}

// Block as Ethereum sees it.
type Block struct {
	Header *coretypes.Header
	Txs    []*Tx
	// GasUsed by all transactions
	GasUsed uint64
}

// Logs of a block.
func (b *Block) Logs() []*coretypes.Log {
	var out []*coretypes.Log
	for _, t := range b.Txs {
		out = append(out, t.Receipt.Logs...)
	}
	return out
}

// Chain of blocks from the first one.
type Chain struct {
	Blocks []*Block
	maxGas uint64
	seen   map[common.Hash]bool // Ethereum transactions in the blocks
	cosmos map[[32]byte]bool    // transactions in the blocks
}

// New chain, with the empty block which every app starts with.
func New(app *minievmapp.MinitiaApp) *Chain {
	ctx := kit.Ctx(app)
	c := &Chain{seen: map[common.Hash]bool{}, cosmos: map[[32]byte]bool{}, maxGas: uint64(app.GetConsensusParams(ctx).Block.MaxGas)}
	if app.LastBlockHeight() != 1 {
		panic("not a new chain")
	}
	c.Add(app, nil, &abci.ResponseFinalizeBlock{})
	return c
}

// Last block.
func (c *Chain) Last() *Block { return c.Blocks[len(c.Blocks)-1] }

// At gives the block at a height.
func (c *Chain) At(h uint64) *Block {
	if h < 1 || h > uint64(len(c.Blocks)) {
		return nil
	}
	return c.Blocks[h-1]
}

// Find an executed transaction.
func (c *Chain) Find(h common.Hash) *Tx {
	for _, b := range c.Blocks {
		for _, t := range b.Txs {
			if t.Eth.Hash() == h {
				return t
			}
		}
	}
	return nil
}

// Absent Ethereum transactions: in a block, but rejected there.
func (c *Chain) Absent() []common.Hash {
	out := []common.Hash{}
	for h := range c.seen {
		if c.Find(h) == nil {
			out = append(out, h)
		}
	}
	return append(out, common.Hash{}, common.Hash{1})
}

// AbsentCosmos gives the hashes of transactions which are no executed Ethereum transactions.
func (c *Chain) AbsentCosmos() [][]byte {
	done := map[[32]byte]bool{}
	for _, b := range c.Blocks {
		for _, t := range b.Txs {
			done[[32]byte(t.CosmosHash)] = true
		}
	}
	out := [][]byte{make([]byte, 32)}
	for h := range c.cosmos {
		if !done[h] {
			out = append(out, h[:])
		}
	}
	return out
}

// responses of an executed transaction.
func response(data []byte, resp proto.Message) {
	var d sdk.TxMsgData
	must(proto.Unmarshal(data, &d))
	if len(d.MsgResponses) != 1 {
		panic("not one response")
	}
	must(proto.Unmarshal(d.MsgResponses[0].Value, resp))
}

// Add the block which the app has just executed and committed.
func (c *Chain) Add(app *minievmapp.MinitiaApp, txs []history.Tx, res *abci.ResponseFinalizeBlock) *Block {
	height := uint64(len(c.Blocks) + 1)
	if app.LastBlockHeight() != int64(height) {
		panic("a block was not added")
	}
	b := &Block{}
	cumulative, index := uint64(0), uint(0)
	for i, tx := range txs {
		r := res.TxResults[i]
		used := uint64(r.GasUsed)
		if r.GasWanted > 0 && used > uint64(r.GasWanted) {
			used = uint64(r.GasWanted)
		}
		b.GasUsed += used
		hash := sha256.Sum256(tx.Bytes)
		c.cosmos[hash] = true
		if tx.Eth == nil {
			continue
		}
		c.seen[tx.Eth.Hash()] = true
		if len(r.Events) == 0 {
			continue // rejected before its execution
		}
		t := &Tx{Eth: tx.Eth, CosmosHash: hash[:], Block: b, Index: len(b.Txs)}
		t.From = must2(coretypes.Sender(kit.Signer(), tx.Eth))
		cumulative += uint64(r.GasUsed)
		rec := &coretypes.Receipt{Type: tx.Eth.Type(), CumulativeGasUsed: cumulative, GasUsed: uint64(r.GasUsed), Logs: []*coretypes.Log{},
			EffectiveGasPrice: tx.Eth.GasPrice(), TransactionIndex: uint(t.Index)}
		if r.Code == 0 {
			rec.Status = coretypes.ReceiptStatusSuccessful
			var logs evmtypes.Logs
			if tx.Eth.To() == nil {
				var m evmtypes.MsgCreateResponse
				response(r.Data, &m)
				logs = m.Logs
				rec.ContractAddress = ethcrypto.CreateAddress(t.From, tx.Eth.Nonce())
			} else {
				var m evmtypes.MsgCallResponse
				response(r.Data, &m)
				logs = m.Logs
			}
			for _, l := range logs {
				e := &coretypes.Log{Address: common.HexToAddress(l.Address), Data: hexutil.MustDecode(l.Data), Topics: []common.Hash{}}
				for _, t := range l.Topics {
					e.Topics = append(e.Topics, common.HexToHash(t))
				}
				e.Index, e.BlockNumber, e.TxHash, e.TxIndex = index, height, tx.Eth.Hash(), uint(t.Index)
				index++
				rec.Logs = append(rec.Logs, e)
			}
		}
		for _, l := range rec.Logs {
			rec.Bloom.Add(l.Address.Bytes())
			for _, t := range l.Topics {
				rec.Bloom.Add(t[:])
			}
		}
		t.Receipt = rec
		b.Txs = append(b.Txs, t)
	}
	if b.GasUsed > c.maxGas {
		b.GasUsed = c.maxGas
	}
	var eths coretypes.Transactions
	var recs coretypes.Receipts
	var bloom coretypes.Bloom
	for _, t := range b.Txs {
		eths = append(eths, t.Eth)
		recs = append(recs, t.Receipt)
		for i := range bloom {
			bloom[i] |= t.Receipt.Bloom[i]
		}
	}
	ctx := kit.Ctx(app)
	b.Header = &coretypes.Header{
		UncleHash: coretypes.EmptyUncleHash, Root: coretypes.EmptyRootHash, WithdrawalsHash: &coretypes.EmptyWithdrawalsHash,
		TxHash: coretypes.DeriveSha(eths, trie.NewStackTrie(nil)), ReceiptHash: coretypes.DeriveSha(recs, trie.NewStackTrie(nil)),
		Bloom: bloom, Difficulty: new(big.Int), Number: new(big.Int).SetUint64(height), GasLimit: c.maxGas, GasUsed: b.GasUsed,
		Time: uint64(kit.BlockTime(int64(height)).Unix()), Extra: []byte{}, BaseFee: baseFee(app, ctx),
	}
	if height > 1 {
		b.Header.ParentHash = c.Blocks[height-2].Header.Hash()
	}
	hash := b.Header.Hash()
	for _, t := range b.Txs {
		for _, l := range t.Receipt.Logs {
			l.BlockHash = hash
		}
	}
	c.Blocks = append(c.Blocks, b)
	return b
}

// baseFee in wei: the minimum gas price of the fee token (which has 18 decimals).
func baseFee(app *minievmapp.MinitiaApp, ctx sdk.Context) *big.Int {
	p := must2(app.OPChildKeeper.GetParams(ctx))
	return p.MinGasPrices.AmountOf(kit.FeeDenom).TruncateInt().BigInt()
}

func text(v any) string { return string(must2(json.Marshal(v))) }

// SameTx compares a transaction with the true one.
func (t *Tx) SameTx(got *rpctypes.RPCTransaction) error {
	if got == nil {
		return fmt.Errorf("no transaction")
	}
	v, r, s := t.Eth.RawSignatureValues()
	al := t.Eth.AccessList()
	hash := t.Block.Header.Hash()
	idx := hexutil.Uint64(t.Index)
	want := &rpctypes.RPCTransaction{
		BlockHash: &hash, BlockNumber: (*hexutil.Big)(t.Block.Header.Number), From: t.From, Gas: hexutil.Uint64(t.Eth.Gas()),
		GasPrice: (*hexutil.Big)(t.Eth.GasPrice()), GasFeeCap: (*hexutil.Big)(t.Eth.GasFeeCap()), GasTipCap: (*hexutil.Big)(t.Eth.GasTipCap()),
		Hash: t.Eth.Hash(), Input: t.Eth.Data(), Nonce: hexutil.Uint64(t.Eth.Nonce()), To: t.Eth.To(), TransactionIndex: &idx,
		Value: (*hexutil.Big)(t.Eth.Value()), Type: hexutil.Uint64(t.Eth.Type()), Accesses: &al, ChainID: (*hexutil.Big)(kit.EthChainID()),
		V: (*hexutil.Big)(v), R: (*hexutil.Big)(r), S: (*hexutil.Big)(s),
	}
	if t.Eth.Type() != coretypes.LegacyTxType {
		y := hexutil.Uint64(v.Uint64())
		want.YParity = &y
	}
	if len(al) == 0 { // (no list and an empty one are the same)
		want.Accesses = nil
		c := *got
		if c.Accesses != nil && len(*c.Accesses) == 0 {
			c.Accesses = nil
		}
		got = &c
	}
	if x, y := text(got), text(want); x != y {
		return fmt.Errorf("transaction\n%s\nexpected\n%s", x, y)
	}
	if back := got.ToTransaction(); back == nil || back.Hash() != t.Eth.Hash() {
		return fmt.Errorf("transaction %s becomes another one: %v", t.Eth.Hash(), back)
	}
	return nil
}

// SameReceipt compares a stored receipt with the true one.
func (t *Tx) SameReceipt(got *coretypes.Receipt) error {
	w, g := *t.Receipt, *got
	wl, gl := w.Logs, g.Logs
	w.Logs, g.Logs = nil, nil
	// fields which no part of the statement is about
	g.TxHash, g.BlockHash, g.BlockNumber = w.TxHash, w.BlockHash, w.BlockNumber
	if x, y := text(&g), text(&w); x != y {
		return fmt.Errorf("\n%s\nexpected\n%s", x, y)
	}
	return SameLogs(gl, wl)
}

// SameLogs compares lists of logs.
func SameLogs(got, want []*coretypes.Log) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d logs, expected %d:\n%s\nexpected\n%s", len(got), len(want), text(got), text(want))
	}
	for i := range got {
		if x, y := text(got[i]), text(want[i]); x != y {
			return fmt.Errorf("log %d\n%s\nexpected\n%s", i, x, y)
		}
	}
	return nil
}
