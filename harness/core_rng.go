package main

import (
	"math/big"
	"math/bits"
)

// rng is a splitmix64 generator: one seed, one sequence.
type rng struct{ s uint64 }

func newRng(seed uint64) *rng { return &rng{seed} }

func vsMix(a, b uint64) uint64 {
	r := rng{a ^ bits.RotateLeft64(b*0x9e3779b97f4a7c15, 31)}
	r.u64()
	return r.u64() ^ b
}

func vsMixS(a uint64, s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return vsMix(a, h)
}

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}
func (r *rng) p(num, den int) bool { return r.n(den) < num }

// geo draws a geometric-ish distance with the given mean, at least 1.
func (r *rng) geo(mean float64) int64 {
	u := float64(r.u64()>>11)/(1<<53) + 1e-18
	// -mean*ln(u) without math.Log differences across platforms mattering
	x := -mean * vsLn(u)
	if x < 1 {
		return 1
	}
	if x > 1e12 {
		x = 1e12
	}
	return int64(x)
}

func (r *rng) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.u64() >> 24)
	}
	return b
}

func (r *rng) big(mod *big.Int) *big.Int {
	b := new(big.Int).SetBytes(r.bytes(48))
	return b.Mod(b, mod)
}

// special draws values that sit at edges of the field as well as random ones.
func (r *rng) special(mod *big.Int) *big.Int {
	switch r.n(11) {
	case 9: // sparse bytes, or around half of the field
		if r.n(4) == 0 {
			b := new(big.Int).Rsh(mod, 1)
			return b.Add(b, big.NewInt(int64(r.n(3)-1)))
		}
		b := r.bytes(32)
		for i := range b {
			if r.n(3) != 0 {
				b[i] = byte(0 - r.n(2))
			}
		}
		x := new(big.Int).SetBytes(b)
		return x.Mod(x, mod)
	case 0:
		return big.NewInt(0)
	case 1:
		return big.NewInt(1)
	case 2:
		return new(big.Int).Sub(mod, big.NewInt(1))
	case 3:
		return new(big.Int).Sub(mod, big.NewInt(int64(2+r.n(4))))
	case 4:
		return big.NewInt(int64(2 + r.n(300)))
	case 5:
		b := new(big.Int).Lsh(big.NewInt(1), uint(r.n(254)))
		b.Add(b, big.NewInt(int64(r.n(3)-1)))
		return b.Mod(b, mod)
	case 6:
		b := new(big.Int).SetUint64(r.u64())
		return b.Mod(b, mod)
	default:
		return r.big(mod)
	}
}

func pick[T any](r *rng, xs []T) T { return xs[r.n(len(xs))] }
