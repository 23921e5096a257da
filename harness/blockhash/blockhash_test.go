// Package blockhash: recorded block hashes against a plain map.
package blockhash

import (
	"fmt"
	"math/big"
	"testing"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"

	"pgregory.net/rapid"

	minievmapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/verifh/kit"
)

var probe common.Address

var shared = &kit.Shared{
	Opts: kit.Options{NumKeys: 2},
	Setup: func(app *minievmapp.MinitiaApp, ctx sdk.Context) {
		a := kit.NewAsm()
		a.Push(0).Op(vm.CALLDATALOAD, vm.BLOCKHASH).Push(0).Op(vm.MSTORE).Push(32).Push(0).Op(vm.RETURN)
		_, addr, _, err := app.EVMKeeper.EVMCreate(ctx, kit.Addr(0), kit.InitCode(nil, a.Bytes()), nil, nil)
		if err != nil {
			panic(err)
		}
		probe = addr
	},
}

type model struct {
	hashes map[uint64]common.Hash
	num    uint64
}

func (m *model) track(h uint64, hash common.Hash) {
	if m.num != 0 {
		for k := range m.hashes {
			if k+m.num < h {
				delete(m.hashes, k)
			}
		}
	}
	m.hashes[h] = hash
}

// at is what BLOCKHASH(n) gives in block h.
func (m *model) at(h, n uint64) common.Hash {
	if n >= h || n+256 < h {
		return common.Hash{}
	}
	return m.hashes[n]
}

func check(rt *rapid.T, app *minievmapp.MinitiaApp, ctx sdk.Context, m *model, ns []uint64) {
	h := uint64(ctx.BlockHeight())
	seen := 0
	if err := app.EVMKeeper.EVMBlockHashes.Walk(ctx, nil, func(n uint64, bz []byte) (bool, error) {
		seen++
		if want, ok := m.hashes[n]; !ok || want != common.BytesToHash(bz) {
			return true, fmt.Errorf("block %d is recorded as %x at height %d with retention %d, want %v %s", n, bz, h, m.num, ok, want)
		}
		return false, nil
	}); err != nil {
		rt.Fatalf("%v", err)
	}
	if seen != len(m.hashes) {
		rt.Fatalf("%d hashes recorded at height %d with retention %d, want %d", seen, h, m.num, len(m.hashes))
	}
	for _, n := range ns {
		c, _ := kit.Branch(ctx)
		ret, _, err := app.EVMKeeper.EVMCall(c, kit.Addr(1), probe, common.BigToHash(new(big.Int).SetUint64(n)).Bytes(), nil, nil)
		if err != nil {
			rt.Fatalf("call: %v", err)
		}
		if got, want := common.BytesToHash(ret), m.at(h, n); got != want {
			rt.Fatalf("BLOCKHASH(%d) in block %d with retention %d is %s, want %s", n, h, m.num, got, want)
		}
	}
}

func genRetention(rt *rapid.T, valid bool) uint64 {
	if valid {
		return rapid.SampledFrom([]uint64{0, 256, 257, 258, 300, 400}).Draw(rt, "retention")
	}
	return rapid.SampledFrom([]uint64{0, 1, 2, 3, 5, 17, 254, 255, 256, 257, 258, 300}).Draw(rt, "retention")
}

func genNumbers(rt *rapid.T, h uint64, m *model) []uint64 {
	ns := []uint64{0, h, h + 1, h - 1}
	for _, d := range []uint64{2, 255, 256, 257, 258, m.num - 1, m.num, m.num + 1} {
		if d <= h {
			ns = append(ns, h-d)
		}
	}
	for i, n := 0, rapid.IntRange(0, 4).Draw(rt, "numbers"); i < n; i++ {
		ns = append(ns, rapid.OneOf(rapid.Uint64Range(0, h+2), rapid.Uint64()).Draw(rt, "n"))
	}
	return ns
}

// TestBlockHashKeeper drives the keeper's tracking directly, over long histories.
func TestBlockHashKeeper(t *testing.T) {
	rule := "histories of up to ~1500 tracked blocks with changes of the retention (0, 256.., and smaller values written directly), starting at any height; all recorded hashes and BLOCKHASH in a contract against a map; non-trivial when hashes were pruned and the retention changed"
	app := shared.Get()
	base := kit.Ctx(app)
	kit.Run(t, rule, func(rt *rapid.T, c *kit.Case) {
		ctx, _ := kit.Branch(base)
		if err := app.EVMKeeper.EVMBlockHashes.Clear(ctx, nil); err != nil {
			rt.Fatalf("clear: %v", err)
		}
		m := &model{hashes: map[uint64]common.Hash{}, num: 256}
		h := rapid.OneOf(rapid.Just(uint64(0)), rapid.Uint64Range(0, 600), rapid.Uint64Range(0, 1<<40)).Draw(rt, "start")
		pruned, changed := false, 0
		for i, n := 0, rapid.IntRange(1, 8).Draw(rt, "phases"); i < n; i++ {
			if rapid.Bool().Draw(rt, "change") {
				m.num = genRetention(rt, false)
				p, err := app.EVMKeeper.Params.Get(ctx)
				if err != nil {
					rt.Fatalf("params: %v", err)
				}
				p.NumRetainBlockHashes = m.num
				if err := app.EVMKeeper.Params.Set(ctx, p); err != nil {
					rt.Fatalf("params: %v", err)
				}
				changed++
				c.Logf("retention %d", m.num)
			}
			steps := rapid.OneOf(rapid.Uint64Range(1, 6), rapid.Uint64Range(1, 300)).Draw(rt, "blocks")
			c.Logf("from %d %d blocks", h, steps)
			for j := uint64(0); j < steps; j++ {
				h++
				hash := ethcrypto.Keccak256Hash([]byte(fmt.Sprintf("%d", h)))
				if err := app.EVMKeeper.TrackBlockHash(ctx.WithBlockHeight(int64(h)), h, hash); err != nil {
					rt.Fatalf("track: %v", err)
				}
				before := len(m.hashes)
				m.track(h, hash)
				if len(m.hashes) <= before {
					pruned = true
				}
			}
			bctx := ctx.WithBlockHeight(int64(h)).WithHeaderHash(ethcrypto.Keccak256([]byte(fmt.Sprintf("%d", h))))
			check(rt, app, bctx, m, genNumbers(rt, h, m))
		}
		c.NonTrivialIf(pruned && changed > 0)
	})
	shared.Done()
}

// TestBlockHashChain runs real blocks.
func TestBlockHashChain(t *testing.T) {
	rule := "real chains of up to ~700 blocks with valid changes of the retention by governance-free parameter writes between blocks; recorded hashes and BLOCKHASH against a map; non-trivial when the chain is longer than the retention"
	kit.Run(t, rule, func(rt *rapid.T, c *kit.Case) {
		app := shared.Get()
		m := &model{hashes: map[uint64]common.Hash{}, num: 256}
		for h := int64(1); h <= app.LastBlockHeight(); h++ {
			m.track(uint64(h), common.BytesToHash(kit.BlockHash(h)))
		}
		for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "phases"); i < n; i++ {
			if rapid.Bool().Draw(rt, "change") {
				m.num = genRetention(rt, true)
				ctx := kit.Ctx(app)
				p, err := app.EVMKeeper.Params.Get(ctx)
				if err != nil {
					rt.Fatalf("params: %v", err)
				}
				p.NumRetainBlockHashes = m.num
				if err := app.EVMKeeper.Params.Set(ctx, p); err != nil {
					rt.Fatalf("params: %v", err)
				}
				c.Logf("retention %d", m.num)
			}
			steps := rapid.OneOf(rapid.IntRange(1, 10), rapid.IntRange(100, 300)).Draw(rt, "blocks")
			c.Logf("%d blocks", steps)
			for j := 0; j < steps; j++ {
				kit.Block(app, nil)
				h := app.LastBlockHeight()
				m.track(uint64(h), common.BytesToHash(kit.BlockHash(h)))
			}
			h := uint64(app.LastBlockHeight())
			check(rt, app, kit.Ctx(app), m, genNumbers(rt, h, m))
			c.NonTrivialIf(h > 258)
		}
		shared.Done()
	})
}
