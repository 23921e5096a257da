package ledger

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"

	"github.com/ethereum/go-ethereum/common"

	evmtypes "github.com/initia-labs/minievm/x/evm/types"

	"github.com/initia-labs/minievm/verifh/kit"
)

// kinds of token
const (
	native  = iota // created and minted by the chain
	factory        // created by somebody through the ERC20 factory
	custom         // an ERC20 somebody deployed and registered
)

var kindNames = []string{"native", "factory", "custom"}

type pair struct{ a, b common.Address }

// token is one token of the plain ledger.
type token struct {
	kind   int
	denom  string
	addr   common.Address
	owner  common.Address
	supply *big.Int
	bal    map[common.Address]*big.Int
	allow  map[pair]*big.Int
}

func (t *token) balance(a common.Address) *big.Int {
	if b, ok := t.bal[a]; ok {
		return b
	}
	return new(big.Int)
}

func (t *token) allowance(a, b common.Address) *big.Int {
	if v, ok := t.allow[pair{a, b}]; ok {
		return v
	}
	return new(big.Int)
}

// ledger is the reference model: plain balances, allowances and owners.
type ledger struct {
	tokens  []*token
	blocked map[common.Address]bool // also: is a module
	fwd     map[common.Address]bool // forwarder contracts
	stake   int                     // index of the native coin of the EVM
}

func (l *ledger) clone() *ledger {
	n := &ledger{blocked: l.blocked, fwd: l.fwd, stake: l.stake}
	for _, t := range l.tokens {
		c := &token{kind: t.kind, denom: t.denom, addr: t.addr, owner: t.owner, supply: new(big.Int).Set(t.supply), bal: map[common.Address]*big.Int{}, allow: map[pair]*big.Int{}}
		for k, v := range t.bal {
			c.bal[k] = v
		}
		for k, v := range t.allow {
			c.allow[k] = v
		}
		n.tokens = append(n.tokens, c)
	}
	return n
}

func (l *ledger) byAddr(a common.Address) *token {
	for _, t := range l.tokens {
		if t.addr == a {
			return t
		}
	}
	return nil
}

func (l *ledger) byDenom(d string) *token {
	for _, t := range l.tokens {
		if t.denom == d {
			return t
		}
	}
	return nil
}

var maxU256 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))

func (t *token) move(from, to common.Address, n *big.Int) bool {
	if t.balance(from).Cmp(n) < 0 {
		return false
	}
	t.bal[from] = new(big.Int).Sub(t.balance(from), n)
	t.bal[to] = new(big.Int).Add(t.balance(to), n)
	return true
}

func (t *token) mint(to common.Address, n *big.Int) bool {
	s := new(big.Int).Add(t.supply, n)
	if s.Cmp(maxU256) > 0 {
		return false
	}
	t.supply = s
	t.bal[to] = new(big.Int).Add(t.balance(to), n)
	return true
}

func (t *token) burn(from common.Address, n *big.Int) bool {
	if t.balance(from).Cmp(n) < 0 {
		return false
	}
	t.bal[from] = new(big.Int).Sub(t.balance(from), n)
	t.supply = new(big.Int).Sub(t.supply, n)
	return true
}

func (t *token) spend(owner, spender common.Address, n *big.Int) bool {
	a := t.allowance(owner, spender)
	if a.Cmp(n) < 0 {
		return false
	}
	t.allow[pair{owner, spender}] = new(big.Int).Sub(a, n)
	return true
}

// tokenCall is a call of a token function.
type tokenCall struct {
	fn   string
	a, b common.Address
	n    *big.Int
}

func (c tokenCall) String() string {
	return fmt.Sprintf("%s(%s,%s,%s)", c.fn, short(c.a), short(c.b), c.n)
}

func short(a common.Address) string { return a.Hex()[:8] }

// functions of the standard, of the owner, of the chain, and one nobody has
var fns = []string{"transfer", "approve", "transferFrom", "mint", "burn", "burnFrom", "sudoTransfer", "sudoMint", "sudoBurn", "transferOwnership", "balanceOf", "nosuch", "truncated"}

// apply performs the call on the ledger as ERC20 permits it for this caller.
func (l *ledger) apply(t *token, caller common.Address, c tokenCall) bool {
	chain := caller == evmtypes.StdAddress
	switch c.fn {
	case "transfer":
		return !l.blocked[c.a] && t.move(caller, c.a, c.n)
	case "approve":
		t.allow[pair{caller, c.a}] = c.n
		return true
	case "transferFrom":
		return !l.blocked[c.b] && t.spend(c.a, caller, c.n) && t.move(c.a, c.b, c.n)
	case "mint":
		return !l.blocked[c.a] && caller == t.owner && t.mint(c.a, c.n)
	case "burn":
		return !l.blocked[caller] && t.burn(caller, c.n)
	case "burnFrom":
		return !l.blocked[c.a] && t.spend(c.a, caller, c.n) && t.burn(c.a, c.n)
	case "sudoTransfer":
		return chain && t.move(c.a, c.b, c.n)
	case "sudoMint":
		return t.kind != custom && chain && t.mint(c.a, c.n)
	case "sudoBurn":
		return t.kind != custom && chain && t.burn(c.a, c.n)
	case "transferOwnership":
		if caller != t.owner || c.a == (common.Address{}) {
			return false
		}
		t.owner = c.a
		return true
	case "balanceOf":
		return true
	}
	return false
}

// item is one step of a forwarder program in a form the model can follow.
type item struct {
	mode  byte
	to    common.Address
	value *big.Int
	call  *tokenCall // when to is a token
	prog  []item     // when to is a forwarder
}

func (it item) data() []byte {
	switch {
	case it.call != nil:
		return encode(*it.call)
	case it.prog != nil:
		return encodeProg(it.prog)
	}
	return nil
}

func encodeProg(prog []item) []byte {
	var items []kit.FwdItem
	for _, it := range prog {
		items = append(items, kit.FwdItem{Mode: it.mode, To: it.to, Value: it.value, Data: it.data()})
	}
	return kit.FwdProgram(items...)
}

func (it item) String() string {
	s := fmt.Sprintf("%s %s", []string{"call", "try", "static", "delegate", "revert"}[it.mode], short(it.to))
	if it.value != nil && it.value.Sign() > 0 {
		s += fmt.Sprintf(" value=%s", it.value)
	}
	if it.call != nil {
		s += " " + it.call.String()
	}
	if it.prog != nil {
		s += fmt.Sprintf(" %v", it.prog)
	}
	return s
}

// call executes a message call on the model; on failure nothing has changed.
func (l *ledger) call(caller common.Address, it item, static bool) bool {
	saved := l.clone()
	if !l.callFrame(caller, it, static) {
		*l = *saved
		return false
	}
	return true
}

func (l *ledger) callFrame(caller common.Address, it item, static bool) bool {
	if it.value != nil && it.value.Sign() > 0 {
		if !l.tokens[l.stake].move(caller, it.to, it.value) {
			return false
		}
	}
	switch {
	case it.call != nil:
		if it.value != nil && it.value.Sign() > 0 {
			return false // not payable
		}
		if static && it.call.fn != "balanceOf" {
			return false
		}
		return l.apply(l.byAddr(it.to), caller, *it.call)
	case l.fwd[it.to]:
		return l.program(it.to, it.prog, static)
	}
	return true
}

// program executes a program under the identity self.
func (l *ledger) program(self common.Address, prog []item, static bool) bool {
	for _, it := range prog {
		switch it.mode {
		case kit.FwdCall:
			if !l.call(self, it, static) {
				return false
			}
		case kit.FwdTry:
			l.call(self, it, static)
		case kit.FwdStatic:
			l.call(self, it, true)
		case kit.FwdDelegate:
			// the code of a token in this contract's own storage has no effect on any
			// token; a forwarder's code acts under this contract's identity
			if l.fwd[it.to] {
				saved := l.clone()
				if !l.program(self, it.prog, static) {
					*l = *saved
				}
			}
		case kit.FwdRevert:
			return false
		}
	}
	return true
}

func sortedAddrs(m map[common.Address]bool) []common.Address {
	var out []common.Address
	for a := range m {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i][:], out[j][:]) < 0 })
	return out
}
