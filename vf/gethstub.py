"""Stand-ins for the go-ethereum packages contracts.go needs for the Falcon precompile; abi.Unpack follows go-ethereum's rules for `bytes` arguments."""
MOD = {
    "go.mod": "module github.com/ethereum/go-ethereum\n\ngo 1.24\n",
    "common/c.go": '''package common

const AddressLength = 20

type Address [AddressLength]byte

func BytesToAddress(b []byte) (a Address) {
	if len(b) > AddressLength {
		b = b[len(b)-AddressLength:]
	}
	copy(a[AddressLength-len(b):], b)
	return a
}
func HexToAddress(s string) Address { panic("not provided") }
func LeftPadBytes(slice []byte, l int) []byte {
	if l <= len(slice) {
		return slice
	}
	p := make([]byte, l)
	copy(p[l-len(slice):], slice)
	return p
}
func RightPadBytes(slice []byte, l int) []byte {
	if l <= len(slice) {
		return slice
	}
	p := make([]byte, l)
	copy(p, slice)
	return p
}
func CopyBytes(b []byte) []byte { return append([]byte(nil), b...) }
''',
    "params/p.go": "package params\n\ntype Rules struct {\n\tIsHomestead, IsByzantium, IsConstantinople, IsIstanbul, IsBerlin, IsLondon, IsMerge, IsShanghai, IsCancun, IsPrague, IsOsaka, IsVerkle bool\n}\n",
    "core/tracing/t.go": "package tracing\n\ntype GasChangeReason byte\n\nconst GasChangeCallPrecompiledContract GasChangeReason = 9\n\ntype Hooks struct {\n\tOnGasChange func(old, new uint64, reason GasChangeReason)\n}\n",
    "accounts/abi/a.go": '''package abi

import (
	"errors"
	"fmt"
	"math/big"
)

type Type struct{ name string }
type ArgumentMarshaling struct{ Name, Type string }

func NewType(t string, internalType string, components []ArgumentMarshaling) (Type, error) {
	if t != "bytes" {
		return Type{}, fmt.Errorf("stand-in: type %s not provided", t)
	}
	return Type{t}, nil
}

type Argument struct {
	Name    string
	Type    Type
	Indexed bool
}
type Arguments []Argument

func (a Arguments) Unpack(data []byte) ([]any, error) {
	if len(data) == 0 {
		if len(a) != 0 {
			return nil, errors.New("abi: attempting to unmarshal an empty string while arguments are expected")
		}
		return make([]any, 0), nil
	}
	return a.UnpackValues(data)
}
func (a Arguments) UnpackValues(data []byte) ([]any, error) {
	r := make([]any, 0, len(a))
	for i := range a {
		index := i * 32
		if index+32 > len(data) {
			return nil, errors.New("abi: cannot marshal in to go type: length insufficient")
		}
		b, l, err := lengthPrefixPointsTo(index, data)
		if err != nil {
			return nil, err
		}
		r = append(r, data[b:b+l])
	}
	return r, nil
}
func lengthPrefixPointsTo(index int, output []byte) (start int, length int, err error) {
	off := new(big.Int).SetBytes(output[index : index+32])
	off.Add(off, big.NewInt(32))
	n := big.NewInt(int64(len(output)))
	if off.Cmp(n) > 0 {
		return 0, 0, errors.New("abi: cannot marshal in to go slice: offset would go over slice boundary")
	}
	if off.BitLen() > 63 {
		return 0, 0, errors.New("abi offset larger than int64")
	}
	o := int(off.Uint64())
	l := new(big.Int).SetBytes(output[o-32 : o])
	total := new(big.Int).Add(off, l)
	if total.BitLen() > 63 {
		return 0, 0, errors.New("abi: length larger than int64")
	}
	if total.Cmp(n) > 0 {
		return 0, 0, errors.New("abi: cannot marshal in to go type: length insufficient")
	}
	return o, int(l.Uint64()), nil
}
''',
}
