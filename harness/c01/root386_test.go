//go:build 386

package c01

import "vharness/vh"

// The root package does not build for 32-bit targets.
func rootHashes(c *vh.Case, m, want []byte) {}
