// Package rand replaces crypto/rand inside the transformed code: bytes come
// from the environment of the running task.
package rand

import (
	"io"
	"math/big"

	"verif.local/sim/simrt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	var v uint64
	for i := range b {
		if i%8 == 0 {
			v = simrt.E().Seed64()
		}
		b[i] = byte(v)
		v >>= 8
	}
	return len(b), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return Reader.Read(b) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		panic("crypto/rand: argument to Int is <= 0")
	}
	b := make([]byte, len(max.Bytes())+8)
	io.ReadFull(r, b)
	n := new(big.Int).SetBytes(b)
	return n.Mod(n, max), nil
}

func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	Read(b)
	for i := range b {
		b[i] = a[b[i]%32]
	}
	return string(b)
}
