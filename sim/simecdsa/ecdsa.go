// Package simecdsa stands in for crypto/ecdsa in the simulated build of
// go-jose. It remembers the signatures made in this process: checking one of
// them again needs no arithmetic, which doubles the number of simulated runs.
// Everything else is decided by crypto/ecdsa.
package simecdsa

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"io"
	"math/big"

	"zntr.io/solid/zz_verif/simrt"
)

type (
	PublicKey  = ecdsa.PublicKey
	PrivateKey = ecdsa.PrivateKey
)

func GenerateKey(c elliptic.Curve, r io.Reader) (*PrivateKey, error) { return ecdsa.GenerateKey(c, r) }

type id [32]byte

var (
	made = map[id]struct{}{} // valid signatures
	good = map[id]bool{}     // private keys that belong to their public keys
)

func sum(parts ...any) (out id) {
	h := sha256.New()
	put := func(b []byte) {
		n := len(b)
		h.Write([]byte{byte(n), byte(n >> 8), byte(n >> 16)})
		h.Write(b)
	}
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			put([]byte(v))
		case []byte:
			put(v)
		case *big.Int:
			h.Write([]byte{byte(v.Sign() + 1)})
			put(v.Bytes())
		}
	}
	h.Sum(out[:0])
	return
}

func usable(k *PublicKey) bool { return k != nil && k.Curve != nil && k.X != nil && k.Y != nil }

func Sign(r io.Reader, k *PrivateKey, hash []byte) (*big.Int, *big.Int, error) {
	a, b, err := ecdsa.Sign(r, k, hash)
	if err != nil || simrt.RaceBuild || !usable(&k.PublicKey) || k.D == nil {
		return a, b, err
	}
	c := k.Curve.Params().Name
	pair := sum(c, k.X, k.Y, k.D)
	ok, seen := good[pair]
	if !seen {
		ok = ecdsa.Verify(&k.PublicKey, hash, a, b)
		if len(good) > 4096 {
			good = map[id]bool{}
		}
		good[pair] = ok
	}
	if ok {
		if len(made) > 1<<16 {
			made = map[id]struct{}{}
		}
		made[sum(c, k.X, k.Y, hash, a, b)] = struct{}{}
	}
	return a, b, err
}

func Verify(k *PublicKey, hash []byte, a, b *big.Int) bool {
	if !simrt.RaceBuild && usable(k) && a != nil && b != nil {
		if _, ok := made[sum(k.Curve.Params().Name, k.X, k.Y, hash, a, b)]; ok {
			return true
		}
	}
	return ecdsa.Verify(k, hash, a, b)
}
