// Package simcrand stands in for crypto/rand inside the simulated code: the simulator's generator.
package simcrand

import (
	"crypto/rand"
	"io"
	"math/big"

	"github.com/amarin/query/zz_verif/simrt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(simrt.Random() >> 24)
	}
	return len(b), nil
}

// Reader stands in for rand.Reader.
var Reader io.Reader = reader{}

func Read(b []byte) (int, error)                      { return Reader.Read(b) }
func Int(r io.Reader, max *big.Int) (*big.Int, error) { return rand.Int(r, max) }
func Prime(r io.Reader, bits int) (*big.Int, error)   { return rand.Prime(r, bits) }

// Text stands in for rand.Text.
func Text() string {
	const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	_, _ = Read(b)
	for i := range b {
		b[i] = alphabet[b[i]%32]
	}
	return string(b)
}
