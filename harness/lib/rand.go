package lib

// Rand is a small deterministic generator (splitmix64). Not safe for
// concurrent use: fork one per goroutine.
type Rand struct{ s uint64 }

// Mix hashes values into one.
func Mix(vs ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, v := range vs {
		h = mix1(h ^ v)
	}
	return h
}

func mix1(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

// HashStr hashes a string.
func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix1(h)
}

// NewRand makes a generator from seeds.
func NewRand(vs ...uint64) *Rand { return &Rand{s: Mix(vs...)} }

// Uint64 returns the next value.
func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

// Fork makes an independent generator.
func (r *Rand) Fork() *Rand { return &Rand{s: r.Uint64()} }

// Intn returns a value in [0, n).
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Range returns a value in [a, b].
func (r *Rand) Range(a, b int) int { return a + r.Intn(b-a+1) }

// Bool returns true with probability 1/n.
func (r *Rand) OneIn(n int) bool { return r.Intn(n) == 0 }

// Pick picks one by weight.
func (r *Rand) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.Intn(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

// Bytes fills a new buffer.
func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := r.Uint64()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return b
}

// PickOf picks an element.
func PickOf[T any](r *Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// Shuffle shuffles n elements.
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}
