// Package vrand mirrors crypto/rand with injectable failures.
package vrand

import (
	"crypto/rand"
	"errors"
	"io"
	"math/big"
)

// FailAfter: -1 never; otherwise the number of reads that still succeed.
var FailAfter = -1

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	if FailAfter == 0 {
		return 0, errors.New("vrand: entropy source failed")
	}
	if FailAfter > 0 {
		FailAfter--
	}
	return rand.Read(b)
}

// Reader mirrors rand.Reader.
var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) { return rand.Int(r, max) }
