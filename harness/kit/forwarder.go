package kit

import (
	"encoding/binary"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
)

// Modes of a forwarder item.
const (
	FwdCall     = 0 // call; revert this frame when it fails
	FwdTry      = 1 // call; ignore a failure
	FwdStatic   = 2 // static call; ignore a failure
	FwdDelegate = 3 // delegate call; ignore a failure
	FwdRevert   = 4 // revert this frame
	FwdCreate   = 5 // create from the data as init code; ignore a failure
	FwdInvalid  = 6 // abort this frame and burn its gas
	FwdCallCode = 7 // call the code of the target in this frame's identity; ignore a failure
)

// FwdItem is one step of a forwarder program.
type FwdItem struct {
	Mode  byte
	To    common.Address
	Value *big.Int
	Data  []byte
	Gas   uint64 // limit of the call (only in ForwarderGas programs; 0: all)
}

// FwdProgram encodes a program for a forwarder contract.
func FwdProgram(items ...FwdItem) []byte { return fwdProgram(false, items) }

// FwdGasProgram encodes a program for a ForwarderGas contract.
func FwdGasProgram(items ...FwdItem) []byte { return fwdProgram(true, items) }

func fwdProgram(gas bool, items []FwdItem) []byte {
	var out []byte
	for _, it := range items {
		out = append(out, it.Mode)
		out = append(out, it.To.Bytes()...)
		v := common.Hash{}
		if it.Value != nil {
			v = common.BigToHash(it.Value)
		}
		out = append(out, v.Bytes()...)
		out = binary.BigEndian.AppendUint32(out, uint32(len(it.Data)))
		if gas {
			g := it.Gas
			if g == 0 {
				g = 1<<63 - 1
			}
			out = binary.BigEndian.AppendUint64(out, g)
		}
		out = append(out, it.Data...)
	}
	return out
}

// Forwarder is the runtime code of a contract which performs the program in its
// calldata under its own identity and returns what the last step returned.
func Forwarder() []byte { return forwarder(false) }

// ForwarderGas is a Forwarder whose calls have gas limits.
func ForwarderGas() []byte { return forwarder(true) }

func forwarder(gas bool) []byte {
	a := NewAsm()
	forward(a, gas)
	return a.Bytes()
}

// Forward appends the code of a Forwarder.
func (a *Asm) Forward() { forward(a, false) }

func forward(a *Asm, gas bool) {
	head := uint64(57)
	if gas {
		head = 65
	}
	loop, end, rev, after := a.Label(), a.Label(), a.Label(), a.Label()
	lTry, lStatic, lDelegate, lCreate, lInvalid, lCode := a.Label(), a.Label(), a.Label(), a.Label(), a.Label(), a.Label()
	a.Push(0)
	a.Mark(loop)
	a.Op(vm.CALLDATASIZE, vm.DUP2, vm.LT, vm.ISZERO).PushLabel(end).Op(vm.JUMPI)
	a.Op(vm.DUP1, vm.CALLDATALOAD).Push(248).Op(vm.SHR)                      // ptr mode
	a.Op(vm.DUP2).Push(53).Op(vm.ADD, vm.CALLDATALOAD).Push(224).Op(vm.SHR)  // ptr mode len
	a.Op(vm.DUP1, vm.DUP4).Push(head).Op(vm.ADD).Push(0).Op(vm.CALLDATACOPY) // ptr mode len
	for _, d := range []struct {
		mode  uint64
		label int
	}{{FwdCall, lTry}, {FwdTry, lTry}, {FwdStatic, lStatic}, {FwdDelegate, lDelegate}, {FwdCreate, lCreate}, {FwdInvalid, lInvalid}, {FwdCallCode, lCode}} {
		a.Op(vm.DUP2).Push(d.mode).Op(vm.EQ).PushLabel(d.label).Op(vm.JUMPI)
	}
	a.PushLabel(rev).Op(vm.JUMP)

	value := func(ptr vm.OpCode) { a.Op(ptr).Push(21).Op(vm.ADD, vm.CALLDATALOAD) }
	to := func(ptr vm.OpCode) { a.Op(ptr).Push(1).Op(vm.ADD, vm.CALLDATALOAD).Push(96).Op(vm.SHR) }

	// limit pushes the gas of a call whose item starts at ptr
	limit := func(ptr vm.OpCode) {
		if gas {
			a.Op(ptr).Push(57).Op(vm.ADD, vm.CALLDATALOAD).Push(192).Op(vm.SHR)
		} else {
			a.Op(vm.GAS)
		}
	}

	a.Mark(lTry)
	a.Push(0).Push(0).Op(vm.DUP3).Push(0)
	value(vm.DUP7)
	to(vm.DUP8)
	limit(vm.DUP9)
	a.Op(vm.CALL).PushLabel(after).Op(vm.JUMP)

	a.Mark(lStatic)
	a.Push(0).Push(0).Op(vm.DUP3).Push(0)
	to(vm.DUP7)
	limit(vm.DUP8)
	a.Op(vm.STATICCALL).PushLabel(after).Op(vm.JUMP)

	a.Mark(lDelegate)
	a.Push(0).Push(0).Op(vm.DUP3).Push(0)
	to(vm.DUP7)
	limit(vm.DUP8)
	a.Op(vm.DELEGATECALL).PushLabel(after).Op(vm.JUMP)

	a.Mark(lCode)
	a.Push(0).Push(0).Op(vm.DUP3).Push(0)
	value(vm.DUP7)
	to(vm.DUP8)
	limit(vm.DUP9)
	a.Op(vm.CALLCODE).PushLabel(after).Op(vm.JUMP)

	a.Mark(lInvalid)
	a.Op(vm.INVALID)

	a.Mark(lCreate)
	a.Op(vm.DUP1).Push(0)
	value(vm.DUP5)
	a.Op(vm.CREATE)

	a.Mark(after) // ptr mode len ok
	a.Op(vm.ISZERO, vm.DUP3, vm.ISZERO, vm.AND).PushLabel(rev).Op(vm.JUMPI)
	a.Op(vm.SWAP1, vm.POP, vm.ADD).Push(head).Op(vm.ADD)
	a.PushLabel(loop).Op(vm.JUMP)

	a.Mark(end)
	a.Op(vm.RETURNDATASIZE).Push(0).Push(0).Op(vm.RETURNDATACOPY)
	a.Op(vm.RETURNDATASIZE).Push(0).Op(vm.RETURN)

	a.Mark(rev)
	a.Push(0).Push(0).Op(vm.REVERT)
}
