// Package accounts checks how cosmos addresses of any length act in the EVM.
package accounts

import (
	"bytes"
	"fmt"
	"slices"
	"testing"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/vm"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"
	"pgregory.net/rapid"

	minievmapp "github.com/initia-labs/minievm/app"
	"github.com/initia-labs/minievm/x/evm/contracts/i_cosmos"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifh/kit"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// recorder keeps the list of its callers.
func recorder() []byte {
	a := kit.NewAsm()
	a.Push(0).Op(vm.SLOAD).Push(1).Op(vm.ADD)     // n
	a.Op(vm.DUP1).Push(0).Op(vm.SSTORE)           // n
	a.Op(vm.CALLER, vm.SWAP1, vm.SSTORE, vm.STOP) // [n] = caller
	return a.Bytes()
}

var (
	recordAt common.Address
	creator  common.Address // a forwarder which creates contracts
	contract common.Address
	funds    = int64(1_000_000)
	shared   = &kit.Shared{Opts: kit.Options{NumKeys: 3, MaxGas: 1 << 60}, Setup: func(app *minievmapp.MinitiaApp, ctx sdk.Context) {
		create := func(runtime []byte) common.Address {
			_, a, _, err := app.EVMKeeper.EVMCreate(ctx, kit.Addr(0), kit.InitCode(nil, runtime), uint256.NewInt(0), nil)
			must(err)
			return a
		}
		recordAt, creator, contract = create(recorder()), create(kit.Forwarder()), create(kit.Forwarder())
	}}
)

// family is a set of accounts whose addresses have the same last 20 bytes.
type family struct {
	kind    string // of the account at the short address: free, keyed, module, contract, shorthand
	short   common.Address
	members []sdk.AccAddress // the other addresses
	owner   int              // the member which acts as short, when shorthand
	nonce   uint64           // of short
	bal     int64
}

func (f *family) acc() sdk.AccAddress { return f.short.Bytes() }

// acts tells whether member i (-1: the short address itself) can act, or be acted on.
func (f *family) acts(i int) bool {
	if i < 0 {
		return true
	}
	return f.kind == "free" || (f.kind == "shorthand" && f.owner == i)
}

func (f *family) act(i int) {
	if i < 0 {
		if f.kind == "free" {
			f.kind = "keyed"
		}
	} else if f.kind == "free" {
		f.kind, f.owner = "shorthand", i
	}
}

func (f *family) addr(i int) sdk.AccAddress {
	if i < 0 {
		return f.acc()
	}
	return f.members[i]
}

func (f *family) String() string {
	return fmt.Sprintf("%s %s members %x", f.kind, f.short, f.members)
}

func route(app *minievmapp.MinitiaApp, ctx sdk.Context, m sdk.Msg) (*sdk.Result, error) {
	return app.MsgServiceRouter().Handler(m)(ctx, m)
}

// attempt runs f in a branch which is kept when f succeeds.
func attempt(ctx sdk.Context, f func(ctx sdk.Context) error) (err error) {
	br, write := kit.Branch(ctx)
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	if err := f(br.WithGasMeter(storetypes.NewGasMeter(1e13))); err != nil {
		return err
	}
	write()
	return nil
}

func call(from sdk.AccAddress, to common.Address, in []byte) *evmtypes.MsgCall {
	return &evmtypes.MsgCall{Sender: from.String(), ContractAddr: to.Hex(), Input: hexutil.Encode(in), Value: math.ZeroInt()}
}

func send(from, to sdk.AccAddress, n int64) *banktypes.MsgSend {
	return &banktypes.MsgSend{FromAddress: from.String(), ToAddress: to.String(), Amount: sdk.Coins{sdk.NewInt64Coin(kit.FeeDenom, n)}}
}

// TestShorthands drives families of accounts with the same last 20 bytes, and
// compares who acts as whom with a model of the mapping.
func TestShorthands(t *testing.T) {
	cosmosABI, err := i_cosmos.ICosmosMetaData.GetAbi()
	must(err)
	kit.Run(t, "another member of a family than the registered one, or a member of a taken family, tried to act", func(rt *rapid.T, c *kit.Case) {
		app := shared.Get()
		ctx, _ := kit.Branch(kit.Ctx(app))

		// the families
		var fams []*family
		created := common.Address{}
		kinds := []string{"free", "free", "free", "empty", "sequence", "key", "module", "contract", "create", "std"}
		for i, k := 0, rapid.IntRange(1, 3).Draw(rt, "families"); i < k; i++ {
			f := &family{kind: "free", short: common.BytesToAddress(ethcrypto.Keccak256([]byte{byte(i)}))}
			how := rapid.SampledFrom(kinds).Draw(rt, "kind")
			switch how {
			case "empty":
				app.AccountKeeper.SetAccount(ctx, app.AccountKeeper.NewAccountWithAddress(ctx, f.acc()))
			case "sequence", "key":
				f.kind = "keyed"
				a := app.AccountKeeper.NewAccountWithAddress(ctx, f.acc())
				if how == "sequence" {
					must(a.SetSequence(5))
					f.nonce = 5
				} else {
					must(a.SetPubKey(kit.CosmosKey(i).PubKey()))
				}
				app.AccountKeeper.SetAccount(ctx, a)
			case "module":
				f.kind, f.short = "module", common.BytesToAddress(authtypes.NewModuleAddress("opchild"))
				app.AccountKeeper.GetModuleAccount(ctx, "opchild")
			case "contract":
				f.kind, f.short, f.nonce = "contract", contract, 1
			case "create":
				n, err := app.AccountKeeper.GetSequence(ctx, creator.Bytes())
				must(err)
				f.short = ethcrypto.CreateAddress(creator, n)
				created = f.short
			case "std": // the chain's own account, which has deployed contracts
				f.kind, f.short = "keyed", evmtypes.StdAddress
				f.nonce, _ = app.AccountKeeper.GetSequence(ctx, f.acc())
			}
			if slices.ContainsFunc(fams, func(o *family) bool { return o.short == f.short }) {
				continue
			}
			for _, n := range rapid.Permutation([]int{1, 12, 12, 44, 100, 235}).Draw(rt, "lengths")[:rapid.IntRange(1, 3).Draw(rt, "members")] {
				m := append(bytes.Repeat([]byte{byte(len(f.members)*16 + n%16)}, n), f.acc()...)
				if rapid.IntRange(0, 3).Draw(rt, "near") == 0 && len(f.members) > 0 { // differs from its sibling in one byte
					m = slices.Clone(f.members[0])
					m[rapid.IntRange(0, len(m)-21).Draw(rt, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
					if slices.ContainsFunc(f.members, func(o sdk.AccAddress) bool { return o.Equals(sdk.AccAddress(m)) }) {
						continue
					}
				}
				f.members = append(f.members, m)
			}
			f.bal = app.BankKeeper.GetBalance(ctx, f.acc(), kit.FeeDenom).Amount.Int64()
			c.Logf("family %d (%s): %s", i, how, f)
			fams = append(fams, f)
		}
		fam := func() *family { return rapid.SampledFrom(fams).Draw(rt, "family") }
		member := func(f *family) int {
			lo := -1
			if f.kind == "shorthand" || f.kind == "module" || f.kind == "contract" {
				lo = 0 // nobody can sign for these
			}
			return rapid.IntRange(lo, len(f.members)-1).Draw(rt, "member")
		}
		var callers []common.Address
		for _, f := range fams {
			if f.kind != "module" && rapid.IntRange(0, 3).Draw(rt, "funded") > 0 {
				must(attempt(ctx, func(ctx sdk.Context) error { _, err := route(app, ctx, send(kit.Acc(0), f.acc(), funds)); return err }))
				f.bal += funds
			}
		}
		key := app.BankKeeper.GetBalance(ctx, kit.Acc(1), kit.FeeDenom).Amount

		for step, steps := 0, rapid.IntRange(1, 12).Draw(rt, "steps"); step < steps; step++ {
			f := fam()
			op := rapid.SampledFrom([]string{"call", "call", "call", "create", "send", "send", "receive", "receive", "execute", "create here", "exec message", "between"}).Draw(rt, "op")
			i := member(f)
			can := f.acts(i)
			n := rapid.SampledFrom([]int64{1, 1000, funds, 50 * funds}).Draw(rt, "amount")
			c.Logf("%s by member %d of %s (%s) amount %d", op, i, f.short, f.kind, n)
			c.NonTrivialIf(!can)
			fail := func(format string, args ...any) { rt.Fatalf("%s\n%s", c.Trace(), fmt.Sprintf(format, args...)) }
			check := func(err error, want bool) bool {
				if (err == nil) != want {
					fail("result %v, expected success=%v", err, want)
				}
				if want {
					c.Label("ok " + op)
				} else {
					c.Label("refused " + op)
				}
				return want
			}
			switch op {
			case "call":
				err := attempt(ctx, func(ctx sdk.Context) error { _, err := route(app, ctx, call(f.addr(i), recordAt, nil)); return err })
				if check(err, can) {
					callers = append(callers, f.short)
					f.act(i)
					if i < 0 {
						f.nonce++
					}
				}
			case "create":
				var res *sdk.Result
				err := attempt(ctx, func(ctx sdk.Context) (err error) {
					res, err = route(app, ctx, &evmtypes.MsgCreate{Sender: f.addr(i).String(), Code: "0x6001600055600060006000f0", Value: math.ZeroInt()})
					return err
				})
				if check(err, can) {
					got := res.MsgResponses[0].GetCachedValue().(*evmtypes.MsgCreateResponse).ContractAddr
					if want := ethcrypto.CreateAddress(f.short, f.nonce); common.HexToAddress(got) != want {
						fail("contract created at %s, expected %s", got, want)
					}
					f.act(i)
					f.nonce++
				}
			case "send": // from the member
				err := attempt(ctx, func(ctx sdk.Context) error { _, err := route(app, ctx, send(f.addr(i), kit.Acc(1), n)); return err })
				if check(err, can && f.bal >= n) {
					f.bal -= n
					key = key.AddRaw(n)
					if i >= 0 {
						f.act(i) // (sending coins increments no sequence number)
					}
				}
			case "receive":
				err := attempt(ctx, func(ctx sdk.Context) error { _, err := route(app, ctx, send(kit.Acc(1), f.addr(i), n)); return err })
				if check(err, can) {
					f.bal += n
					key = key.SubRaw(n)
				}
			case "between": // members of two families
				g := fam()
				j := member(g)
				c.Logf("  to member %d of %s (%s)", j, g.short, g.kind)
				if g == f && j != i && f.kind == "free" && i >= 0 && j >= 0 {
					can = false // the sender takes the short address first
				}
				err := attempt(ctx, func(ctx sdk.Context) error { _, err := route(app, ctx, send(f.addr(i), g.addr(j), n)); return err })
				if check(err, can && g.acts(j) && f.bal >= n) {
					f.bal -= n
					g.bal += n
					if i >= 0 {
						f.act(i)
					}
				}
			case "execute", "exec message": // a message of a possibly different member through the precompile
				j := i
				if op == "execute" {
					j = rapid.IntRange(-1, len(f.members)-1).Draw(rt, "signer")
				}
				c.Logf("  signer %d", j)
				in, err := cosmosABI.Pack("execute_cosmos", msgJSON(app, send(f.addr(j), kit.Acc(1), n)))
				must(err)
				err = attempt(ctx, func(ctx sdk.Context) error {
					_, err := route(app, ctx, call(f.addr(i), common.HexToAddress("0xf1"), in))
					return err
				})
				if check(err, can && i == j && f.bal >= n) {
					f.act(i)
					f.bal -= n
					key = key.AddRaw(n)
					if i < 0 {
						f.nonce++
					}
				}
			case "create here": // a contract is created at the next address of the creator
				prog := kit.FwdProgram(kit.FwdItem{Mode: kit.FwdCreate, Data: kit.InitCode(nil, recorder())}) // a failure is ignored
				err := attempt(ctx, func(ctx sdk.Context) error {
					_, err := route(app, ctx, call(kit.Acc(2), creator, prog))
					return err
				})
				for _, g := range fams {
					if g.short != created {
						continue
					}
					c.Logf("  at %s (%s)", g.short, g.kind)
					switch {
					case g.kind == "free" && err != nil:
						fail("cannot create a contract: %v", err)
					case g.kind == "free":
						g.kind, g.nonce, created = "contract", 1, common.Address{}
					case err == nil:
						// (an account which has acted without the EVM fails the whole transaction; the
						// contract must not replace it)
						created = common.Address{}
					}
				}
			}

			// the state agrees with the model
			if got := app.BankKeeper.GetBalance(ctx, kit.Acc(1), kit.FeeDenom).Amount; !got.Equal(key) {
				fail("the other account has %s, expected %s", got, key)
			}
			if got := seen(app, ctx); !slices.Equal(got, callers) {
				fail("callers seen %v, expected %v", got, callers)
			}
			numbers := map[uint64]string{}
			app.AccountKeeper.IterateAccounts(ctx, func(a sdk.AccountI) bool {
				if o, ok := numbers[a.GetAccountNumber()]; ok {
					fail("accounts %s and %s have number %d", o, a.GetAddress(), a.GetAccountNumber())
				}
				numbers[a.GetAccountNumber()] = a.GetAddress().String()
				return false
			})
			for _, f := range fams {
				f.check(app, ctx, fail)
			}
		}
		shared.Done()
	})
}

func (f *family) check(app *minievmapp.MinitiaApp, ctx sdk.Context, fail func(string, ...any)) {
	a := app.AccountKeeper.GetAccount(ctx, f.acc())
	kind := "free"
	switch a := a.(type) {
	case nil:
	case *evmtypes.ShorthandAccount:
		kind = "shorthand"
		if o, err := a.GetOriginalAddress(app.AccountKeeper.AddressCodec()); err != nil || f.kind != "shorthand" || !o.Equals(f.members[f.owner]) {
			fail("%s belongs to %s, expected %s member %d", f.short, a.OriginalAddress, f.kind, f.owner)
		}
	case sdk.ModuleAccountI:
		kind = "module"
	case *evmtypes.ContractAccount:
		kind = "contract"
	default:
		if a.GetSequence() > 0 || a.GetPubKey() != nil {
			kind = "keyed"
		}
	}
	if kind != f.kind {
		fail("account %s is %s, expected %s", f.short, kind, f.kind)
	}
	if a != nil && a.GetSequence() != f.nonce {
		fail("%s has sequence number %d, expected %d", f.short, a.GetSequence(), f.nonce)
	}
	for i := -1; i < len(f.members); i++ {
		want := int64(0)
		ok := f.acts(i)
		if ok {
			want = f.bal
		}
		got, err := app.EVMKeeper.ERC20Keeper().GetBalance(ctx, f.addr(i), kit.FeeDenom)
		if (err == nil) != ok || (ok && got.Int64() != want) {
			fail("member %d of %s (%s) has balance %s (%v), expected %d", i, f.short, f.kind, got, err, want)
		}
	}
}

func seen(app *minievmapp.MinitiaApp, ctx sdk.Context) (out []common.Address) {
	n := kit.Slot(app, ctx, recordAt, common.Hash{}).Big().Int64()
	for i := int64(1); i <= n; i++ {
		out = append(out, common.BytesToAddress(kit.Slot(app, ctx, recordAt, common.BytesToHash([]byte{byte(i)})).Bytes()))
	}
	return
}

func msgJSON(app *minievmapp.MinitiaApp, m sdk.Msg) string {
	bz, err := app.AppCodec().MarshalInterfaceJSON(m)
	must(err)
	return string(bz)
}
