// Package simrand replaces crypto/rand in instrumented code.
package simrand

import (
	"crypto/rand"
	"io"
	"math/big"

	"zntr.io/solid/zz_verif/simrt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	if len(b) != 1 { // see simrt.ReadEntropy
		simrt.Y()
	}
	return simrt.ReadEntropy(b)
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) { return rand.Int(r, max) }
func Prime(r io.Reader, bits int) (*big.Int, error)   { return rand.Prime(r, bits) }

func Text() string {
	const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	_, _ = Reader.Read(b)
	for i := range b {
		b[i] = al[b[i]%32]
	}
	return string(b)
}
