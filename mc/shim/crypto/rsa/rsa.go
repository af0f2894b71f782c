// Package rsa replaces crypto/rsa: key generation takes keys from a fixed pool
// and the expensive operations are memoised. Results are those of the real
// package for the same inputs.
package rsa

import (
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"hash"
	"io"
	"strconv"

	"verif.local/zz/rt"
)

// PrivateKey wraps the real key to memoise decryption.
type PrivateKey struct {
	rsa.PrivateKey
}

var pools = map[int][]*PrivateKey{}
var nextKey = "rsaNextKey"

// GenerateKey returns the next key of the pool.
func GenerateKey(_ io.Reader, bits int) (*PrivateKey, error) {
	n := 0
	if v, ok := rt.X.Locals[nextKey]; ok {
		n = v.(int)
	}
	rt.X.Locals[nextKey] = n + 1
	for len(pools[bits]) <= n {
		k, err := rsa.GenerateKey(rand.Reader, bits)
		if err != nil {
			return nil, err
		}
		pools[bits] = append(pools[bits], &PrivateKey{*k})
	}
	return pools[bits][n], nil
}

type memo struct {
	out []byte
	err error
}

var enc = map[string]memo{}
var dec = map[string]memo{}

func clip(m map[string]memo) {
	if len(m) > 200000 {
		for k := range m {
			delete(m, k)
		}
	}
}

// EncryptOAEP is deterministic per (key, message).
func EncryptOAEP(h hash.Hash, _ io.Reader, pub *rsa.PublicKey, msg, label []byte) ([]byte, error) {
	if pub == nil || pub.N == nil {
		return rsa.EncryptOAEP(h, rand.Reader, pub, msg, label)
	}
	k := string(pub.N.Bytes()) + "|" + strconv.Itoa(pub.E) + "|" + string(msg) + "|" + string(label)
	if v, ok := enc[k]; ok {
		return append([]byte(nil), v.out...), v.err
	}
	out, err := rsa.EncryptOAEP(h, rand.Reader, pub, msg, label)
	clip(enc)
	enc[k] = memo{out, err}
	return append([]byte(nil), out...), err
}

func (p *PrivateKey) Decrypt(_ io.Reader, ct []byte, opts crypto.DecrypterOpts) ([]byte, error) {
	k := string(p.N.Bytes()) + "|" + string(ct)
	if v, ok := dec[k]; ok {
		return append([]byte(nil), v.out...), v.err
	}
	out, err := p.PrivateKey.Decrypt(nil, ct, opts)
	clip(dec)
	dec[k] = memo{out, err}
	return append([]byte(nil), out...), err
}

// DecryptOAEP mirrors the real function.
func DecryptOAEP(h hash.Hash, _ io.Reader, p *PrivateKey, ct, label []byte) ([]byte, error) {
	return rsa.DecryptOAEP(h, nil, &p.PrivateKey, ct, label)
}

func EncryptPKCS1v15(_ io.Reader, pub *rsa.PublicKey, msg []byte) ([]byte, error) {
	return rsa.EncryptPKCS1v15(rand.Reader, pub, msg)
}

func DecryptPKCS1v15(_ io.Reader, p *PrivateKey, ct []byte) ([]byte, error) {
	return rsa.DecryptPKCS1v15(nil, &p.PrivateKey, ct)
}
