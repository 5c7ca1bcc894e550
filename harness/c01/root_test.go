//go:build !386

package c01

import (
	"bytes"

	"github.com/philhofer/seth"

	"vharness/vh"
)

func rootHashes(c *vh.Case, m, want []byte) {
	hb := seth.HashBytes(m)
	hs := seth.HashString(string(m))
	if !bytes.Equal(hb[:], want) || !bytes.Equal(hs[:], want) {
		c.Fail("hashbytes", "HashBytes/HashString of %d bytes: %x %x want %x", len(m), hb, hs, want)
	}
	c.Eval(2)
}
