// Package rand replaces crypto/rand with the deterministic source of the execution.
package rand

import (
	"io"
	"math/big"

	"verif.local/zz/rt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) { rt.RandRead(b); return len(b), nil }

// Reader is the deterministic reader.
var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { rt.RandRead(b); return len(b), nil }

func Int(_ io.Reader, max *big.Int) (*big.Int, error) {
	b := make([]byte, len(max.Bytes())+8)
	rt.RandRead(b)
	return new(big.Int).Mod(new(big.Int).SetBytes(b), max), nil
}

func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	for i := range b {
		b[i] = a[rt.Rand()>>16%32]
	}
	return string(b)
}
