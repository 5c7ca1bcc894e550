// Package ref holds the independent reference models of the harness.
package ref

// Keccak is the plain Keccak sponge with the pre-standard padding (0x01),
// written from the specification with bit-by-bit table generation, so that it
// shares nothing with the code under test.
func Keccak(msg []byte, outLen int) []byte {
	rate := 200 - 2*outLen
	var a [5][5]uint64
	p := append(append([]byte{}, msg...), 0x01)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	for len(p) > 0 {
		for i := 0; i < rate/8; i++ {
			var w uint64
			for j := 7; j >= 0; j-- {
				w = w<<8 | uint64(p[8*i+j])
			}
			a[i%5][i/5] ^= w
		}
		p = p[rate:]
		f1600(&a)
	}
	var out []byte
	for i := 0; len(out) < outLen; i++ {
		w := a[i%5][i/5]
		for j := 0; j < 8; j++ {
			out = append(out, byte(w>>(8*uint(j))))
		}
	}
	return out[:outLen]
}

var rotc [5][5]uint
var rconst [24]uint64

func init() {
	// rotation offsets
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		rotc[x][y] = uint((t+1)*(t+2)/2) % 64
		x, y = y, (2*x+3*y)%5
	}
	// round constants from the LFSR x^8+x^6+x^5+x^4+1
	lfsr := byte(1)
	for i := 0; i < 24; i++ {
		for j := 0; j <= 6; j++ {
			if lfsr&1 == 1 {
				rconst[i] |= 1 << ((1 << uint(j)) - 1)
			}
			hi := lfsr & 0x80
			lfsr <<= 1
			if hi != 0 {
				lfsr ^= 0x71
			}
		}
	}
}

func rol(v uint64, n uint) uint64 { return v<<n | v>>((64-n)%64)*b2u(n != 0) }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func f1600(a *[5][5]uint64) {
	for r := 0; r < 24; r++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ rol(c[(x+1)%5], 1)
			for y := 0; y < 5; y++ {
				a[x][y] ^= d
			}
		}
		var b [5][5]uint64
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				b[y][(2*x+3*y)%5] = rol(a[x][y], rotc[x][y])
			}
		}
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				a[x][y] = b[x][y] ^ (^b[(x+1)%5][y] & b[(x+2)%5][y])
			}
		}
		a[0][0] ^= rconst[r]
	}
}
