// Package vrsa mirrors the used part of crypto/rsa. In fast mode ciphertexts
// and signatures are symbolic (perfect cryptography); otherwise the real
// functions run. Key generation hands out keys from a pool.
package vrsa

import (
	"bytes"
	"crypto"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"errors"
	"hash"
	"io"
	"sync"
)

// Fast selects symbolic cryptography.
var Fast bool

// Bits of pooled keys.
var Bits = 1024

// Requested records the key sizes asked for.
var Requested []int

var (
	mu   sync.Mutex
	pool []*rsa.PrivateKey
	next int
)

// ResetPool restarts handing out keys from the beginning.
func ResetPool() { mu.Lock(); next = 0; mu.Unlock() }

// Key returns the i-th pooled key.
func Key(i int) *rsa.PrivateKey {
	mu.Lock()
	defer mu.Unlock()
	for len(pool) <= i {
		bits := Bits
		if len(pool) >= 32 {
			bits = 512 // wide clusters only need distinct keys
		}
		k, err := rsa.GenerateKey(rand.Reader, bits)
		if err != nil {
			panic(err)
		}
		pool = append(pool, k)
	}
	return pool[i]
}

func GenerateKey(random io.Reader, bits int) (*rsa.PrivateKey, error) {
	var b [1]byte
	if _, err := io.ReadFull(random, b[:]); err != nil {
		return nil, err
	}
	Requested = append(Requested, bits)
	i := next
	next++
	return Key(i), nil
}

func tag(pub *rsa.PublicKey) []byte {
	h := sha256.Sum256(pub.N.Bytes())
	return h[:16]
}

func stream(key, nonce []byte, n int) []byte {
	var out []byte
	for i := byte(0); len(out) < n; i++ {
		h := sha256.New()
		h.Write([]byte("enc"))
		h.Write(key)
		h.Write(nonce)
		h.Write([]byte{i})
		out = h.Sum(out)
	}
	return out[:n]
}

func EncryptOAEP(h hash.Hash, random io.Reader, pub *rsa.PublicKey, msg, label []byte) ([]byte, error) {
	if !Fast {
		return rsa.EncryptOAEP(h, random, pub, msg, label)
	}
	nonce := make([]byte, 16)
	if _, err := io.ReadFull(random, nonce); err != nil {
		return nil, err
	}
	k := tag(pub)
	st := stream(k, nonce, len(msg))
	ct := make([]byte, len(msg))
	for i := range msg {
		ct[i] = msg[i] ^ st[i]
	}
	m := hmac.New(sha256.New, k)
	m.Write(nonce)
	m.Write(label)
	m.Write(ct)
	out := append([]byte("VENC"), nonce...)
	out = append(out, ct...)
	return append(out, m.Sum(nil)...), nil
}

func DecryptOAEP(h hash.Hash, random io.Reader, priv *rsa.PrivateKey, ct, label []byte) ([]byte, error) {
	if !Fast {
		return rsa.DecryptOAEP(h, random, priv, ct, label)
	}
	bad := errors.New("crypto/rsa: decryption error")
	if len(ct) < 4+16+32 || !bytes.Equal(ct[:4], []byte("VENC")) {
		return nil, bad
	}
	k := tag(&priv.PublicKey)
	nonce, body, mac := ct[4:20], ct[20:len(ct)-32], ct[len(ct)-32:]
	m := hmac.New(sha256.New, k)
	m.Write(nonce)
	m.Write(label)
	m.Write(body)
	if !hmac.Equal(m.Sum(nil), mac) {
		return nil, bad
	}
	st := stream(k, nonce, len(body))
	out := make([]byte, len(body))
	for i := range body {
		out[i] = body[i] ^ st[i]
	}
	return out, nil
}

func fsig(pub *rsa.PublicKey, digest []byte) []byte {
	m := hmac.New(sha256.New, append([]byte("sig"), tag(pub)...))
	m.Write(digest)
	return m.Sum([]byte("VSIG"))
}

func SignPSS(random io.Reader, priv *rsa.PrivateKey, hash crypto.Hash, digest []byte, o *rsa.PSSOptions) ([]byte, error) {
	if !Fast {
		return rsa.SignPSS(random, priv, hash, digest, o)
	}
	return fsig(&priv.PublicKey, digest), nil
}

func VerifyPSS(pub *rsa.PublicKey, hash crypto.Hash, digest, sig []byte, o *rsa.PSSOptions) error {
	if !Fast {
		return rsa.VerifyPSS(pub, hash, digest, sig, o)
	}
	if !hmac.Equal(fsig(pub, digest), sig) {
		return rsa.ErrVerification
	}
	return nil
}
