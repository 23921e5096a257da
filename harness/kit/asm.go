package kit

import (
	"encoding/binary"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/holiman/uint256"
)

// Asm is a tiny EVM assembler with labels and a data section.
type Asm struct {
	code   []byte
	fixups []fixup // 2-byte operands to patch
	labels map[int]int
	nLabel int
	data   [][]byte
}

type fixup struct {
	pos   int
	label int // >= 0: label, < 0: data section -(label+1)
}

// NewAsm gives an empty program.
func NewAsm() *Asm { return &Asm{labels: map[int]int{}} }

// Op appends opcodes.
func (a *Asm) Op(ops ...vm.OpCode) *Asm {
	for _, o := range ops {
		a.code = append(a.code, byte(o))
	}
	return a
}

// Push appends the shortest push of v.
func (a *Asm) Push(v uint64) *Asm {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	i := 0
	for i < 7 && b[i] == 0 {
		i++
	}
	return a.PushBytes(b[i:])
}

// PushBytes pushes up to 32 bytes.
func (a *Asm) PushBytes(b []byte) *Asm {
	a.code = append(a.code, byte(vm.PUSH1)+byte(len(b)-1))
	a.code = append(a.code, b...)
	return a
}

// PushInt pushes a word.
func (a *Asm) PushInt(v *uint256.Int) *Asm {
	if v.IsZero() {
		return a.Push(0)
	}
	return a.PushBytes(v.Bytes())
}

// PushAddr pushes an address.
func (a *Asm) PushAddr(addr common.Address) *Asm { return a.PushBytes(addr.Bytes()) }

// Label makes a new label.
func (a *Asm) Label() int { a.nLabel++; return a.nLabel - 1 }

// PushLabel pushes the position of a label.
func (a *Asm) PushLabel(l int) *Asm {
	a.code = append(a.code, byte(vm.PUSH2))
	a.fixups = append(a.fixups, fixup{len(a.code), l})
	a.code = append(a.code, 0, 0)
	return a
}

// Mark places a label here.
func (a *Asm) Mark(l int) *Asm {
	a.labels[l] = len(a.code)
	return a.Op(vm.JUMPDEST)
}

// Data adds a data section and gives its handle.
func (a *Asm) Data(b []byte) int {
	a.data = append(a.data, b)
	return len(a.data) - 1
}

// PushData pushes the code offset of a data section.
func (a *Asm) PushData(h int) *Asm {
	a.code = append(a.code, byte(vm.PUSH2))
	a.fixups = append(a.fixups, fixup{len(a.code), -(h + 1)})
	a.code = append(a.code, 0, 0)
	return a
}

// Bytes assembles the program.
func (a *Asm) Bytes() []byte {
	out := append([]byte{}, a.code...)
	if len(a.data) > 0 {
		out = append(out, byte(vm.INVALID))
	}
	offs := make([]int, len(a.data))
	for i, d := range a.data {
		offs[i] = len(out)
		out = append(out, d...)
	}
	for _, f := range a.fixups {
		v := 0
		if f.label >= 0 {
			v = a.labels[f.label]
		} else {
			v = offs[-f.label-1]
		}
		binary.BigEndian.PutUint16(out[f.pos:], uint16(v))
	}
	return out
}

// InitCode gives creation code which runs pre (may be nil) and returns runtime.
func InitCode(pre func(a *Asm), runtime []byte) []byte {
	a := NewAsm()
	if pre != nil {
		pre(a)
	}
	h := a.Data(runtime)
	a.Push(uint64(len(runtime))).PushData(h).Push(0).Op(vm.CODECOPY)
	a.Push(uint64(len(runtime))).Push(0).Op(vm.RETURN)
	return a.Bytes()
}
