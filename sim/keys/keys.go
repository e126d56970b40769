// Package keys holds the fixed key material of the simulated parties and a
// signer for hostile tokens.
package keys

import (
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"fmt"

	"github.com/go-jose/go-jose/v4"

	"zntr.io/solid/zz_verif/simecdsa"

	"zntr.io/solid/zz_verif/kit"
)

// Key is one signing key.
type Key struct {
	Name  string
	Alg   jose.SignatureAlgorithm
	Priv  jose.JSONWebKey
	Pub   jose.JSONWebKey
	Thumb string
}

func scalar(seed string, n int) []byte {
	h := sha512.Sum512([]byte("simulated key " + seed))
	b := append(h[:], h[:]...)[:n]
	b[0] = 0 // below every group order
	return b
}

// New derives a key from its name.
func New(alg jose.SignatureAlgorithm, name, use string) *Key {
	k := &Key{Name: name, Alg: alg}
	var priv any
	switch alg {
	case jose.EdDSA:
		priv = ed25519.NewKeyFromSeed(scalar(name, 32))
	case jose.ES256:
		priv = raw(elliptic.P256(), scalar(name, 32))
	case jose.ES384:
		priv = raw(elliptic.P384(), scalar(name, 48))
	case jose.ES512:
		priv = raw(elliptic.P521(), scalar(name, 66))
	default:
		panic(alg)
	}
	k.Priv = jose.JSONWebKey{Key: priv, KeyID: name, Algorithm: string(alg), Use: use}
	k.Pub = k.Priv.Public()
	t, err := k.Pub.Thumbprint(crypto.SHA256)
	if err != nil {
		panic(err)
	}
	k.Thumb = base64.RawURLEncoding.EncodeToString(t)
	return k
}

func raw(c elliptic.Curve, b []byte) *ecdsa.PrivateKey {
	k, err := ecdsa.ParseRawPrivateKey(c, b)
	if err != nil {
		panic(err)
	}
	return k
}

// JWKS encodes the public halves.
func JWKS(ks ...*Key) []byte {
	s := Set(ks...)
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	return b
}

// Set is the key set of the public halves.
func Set(ks ...*Key) *jose.JSONWebKeySet {
	s := &jose.JSONWebKeySet{}
	for _, k := range ks {
		s.Keys = append(s.Keys, k.Pub)
	}
	return s
}

// Provider provides a key, or fails when the simulation says so. NoID and nil
// results are drawn as faults as well.
func Provider(r *kit.Run, name string, k func() *Key) func(context.Context) (*jose.JSONWebKey, error) {
	return func(context.Context) (*jose.JSONWebKey, error) {
		_, err := r.GenCall(name, false, func() (string, error) { return "", nil })
		if err != nil {
			return nil, err
		}
		x := k()
		if x == nil {
			return nil, nil
		}
		c := x.Priv
		return &c, nil
	}
}

func init() { jose.RandReader = Zero{} }

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// Forge signs arbitrary header and claims without asking any library's
// permission. alg "none" and HMAC with public bytes are possible.
func Forge(header map[string]any, claims any, k *Key) string {
	hb, err := json.Marshal(header)
	if err != nil {
		panic(err)
	}
	var pb []byte
	if s, ok := claims.(string); ok {
		pb = []byte(s)
	} else if pb, err = json.Marshal(claims); err != nil {
		panic(err)
	}
	in := b64(hb) + "." + b64(pb)
	return in + "." + b64(sign(fmt.Sprint(header["alg"]), in, k))
}

func sign(alg, in string, k *Key) []byte {
	switch alg {
	case "none", "None", "NONE", "":
		return nil
	case "HS256":
		kb, _ := json.Marshal(k.Pub)
		m := hmac.New(sha256.New, kb)
		m.Write([]byte(in))
		return m.Sum(nil)
	}
	if k.Alg == jose.EdDSA {
		return ed25519.Sign(k.Priv.Key.(ed25519.PrivateKey), []byte(in))
	}
	s, err := jose.NewSigner(jose.SigningKey{Algorithm: k.Alg, Key: k.Priv.Key}, nil)
	if err != nil {
		panic(err)
	}
	_ = s
	p := k.Priv.Key.(*ecdsa.PrivateKey)
	var d []byte
	var size int
	switch k.Alg {
	case jose.ES256:
		h := sha256.Sum256([]byte(in))
		d, size = h[:], 32
	case jose.ES384:
		h := sha512.Sum384([]byte(in))
		d, size = h[:], 48
	default:
		h := sha512.Sum512([]byte(in))
		d, size = h[:], 66
	}
	r, t, err := simecdsa.Sign(Zero{}, p, d)
	if err != nil {
		panic(err)
	}
	out := make([]byte, 2*size)
	r.FillBytes(out[:size])
	t.FillBytes(out[size:])
	return out
}

// Zero is a constant entropy source; signatures of the simulated parties need
// no secrecy.
type Zero struct{}

func (Zero) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 7
	}
	return len(b), nil
}

// Damage alters a compact token; the result is never the original.
func Damage(p kit.Plan, tok string) (string, string) {
	if tok == "" {
		return "x", "junk"
	}
	const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
	switch p.N(9) {
	case 0:
		i := p.N(len(tok))
		c := al[p.N(64)]
		if tok[i] == c || tok[i] == '.' {
			c = '!'
		}
		// the last character of a part carries unused bits
		if i+1 == len(tok) || tok[i+1] == '.' || tok[i] == '.' {
			return tok[:i] + "!" + tok[i+1:], "flip"
		}
		return tok[:i] + string(c) + tok[i+1:], "flip"
	case 1:
		return tok[:p.N(len(tok))], "cut"
	case 2:
		return tok + string(al[p.N(64)]), "extend"
	case 3:
		parts := split(tok)
		if len(parts) != 3 {
			return tok + ".", "parts"
		}
		return parts[0] + "." + parts[1] + ".", "no-signature"
	case 4:
		parts := split(tok)
		if len(parts) != 3 {
			return tok + ".", "parts"
		}
		return parts[0] + "." + parts[1] + "." + parts[1], "other-signature"
	case 5:
		return tok + "." + tok, "double"
	case 6:
		parts := split(tok)
		if len(parts) != 3 {
			return tok + ".", "parts"
		}
		return b64([]byte(`{"alg":"none"}`)) + "." + parts[1] + ".", "alg-none"
	case 7:
		return []string{".", "..", "a.b.c", "{}", "null", "e30.e30.e30", "....", "\x00"}[p.N(8)], "junk"
	default:
		parts := split(tok)
		if len(parts) != 3 {
			return tok + ".", "parts"
		}
		pb, err := base64.RawURLEncoding.DecodeString(parts[1])
		var m map[string]any
		if err != nil || json.Unmarshal(pb, &m) != nil {
			return tok + ".", "parts"
		}
		m["sub"], m["extra"], m["exp"] = "mallory", true, 4102444800
		pb, _ = json.Marshal(m)
		return parts[0] + "." + b64(pb) + "." + parts[2], "payload"
	}
}

func split(s string) (l []string) {
	j := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '.' {
			l = append(l, s[j:i])
			j = i + 1
		}
	}
	return
}
