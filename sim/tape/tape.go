// Package tape is the single source of every choice a simulated run makes.
// A run is a pure function of its tape: either the tape is being written from
// one seed, or it is being replayed (with zero, the simplest choice, once it
// runs out).  Minimising a failure is editing its tape.
package tape

type T struct {
	Data   []uint64 // choices made, in order
	replay bool
	in     []uint64
	pos    int
	s      uint64
	Over   bool // the run asked for more choices than allowed
	Sink   func(uint64)
}

const maxLen = 400000

// TooMany is the panic of a run that draws choices without end.
type TooMany struct{}

// New starts a tape driven by one seed.
func New(seed uint64) *T { return &T{s: seed, Data: make([]uint64, 0, 256)} }

// Replay starts a tape that reproduces the given choices.
func Replay(in []uint64) *T {
	return &T{replay: true, in: in, Data: make([]uint64, 0, len(in))}
}

// Mix is splitmix64's output function, used to derive run seeds.
func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (t *T) next() uint64 {
	t.s += 0x9e3779b97f4a7c15
	x := t.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Draw returns a choice in [0,n).
func (t *T) Draw(n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	var v uint64
	if t.replay {
		if t.pos < len(t.in) {
			v = t.in[t.pos]
			t.pos++
		}
		if v >= n {
			v %= n
		}
	} else {
		v = t.next() % n
	}
	if t.Sink != nil {
		t.Sink(v)
	}
	if len(t.Data) >= maxLen {
		t.Over = true
		panic(TooMany{})
	} else {
		t.Data = append(t.Data, v)
	}
	return v
}

func (t *T) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(t.Draw(uint64(n)))
}

// Range returns a choice in [lo,hi].
func (t *T) Range(lo, hi int) int { return lo + t.Intn(hi-lo+1) }

// Chance is true with probability pct percent; the simple choice is false.
func (t *T) Chance(pct int) bool {
	if pct <= 0 {
		return false
	}
	return t.Draw(100) >= uint64(100-pct)
}

func (t *T) Bool() bool { return t.Draw(2) == 1 }

func (t *T) U64() uint64 { return t.Draw(1 << 63) }

func (t *T) U32() uint32 { return uint32(t.Draw(1 << 32)) }
func (t *T) U16() uint16 { return uint16(t.Draw(1 << 16)) }
func (t *T) U8() uint8   { return uint8(t.Draw(256)) }

// Log returns a value in [0,2^bits) whose magnitude is spread evenly over bit lengths.
func (t *T) Log(bits int) uint64 {
	k := t.Intn(bits + 1)
	if k == 0 {
		return 0
	}
	return uint64(1)<<(k-1) + t.Draw(uint64(1)<<(k-1))
}

// Pick returns an index weighted by w.
func (t *T) Pick(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	v := t.Intn(sum)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}

func (t *T) Of(s ...string) string { return s[t.Intn(len(s))] }

func (t *T) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 6 {
		v := t.Draw(1 << 48)
		for j := i; j < i+6 && j < n; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return b
}

// Shrink looks for a smaller tape on which bad still holds.  bad runs the
// tape and reports whether the same class of violation occurs, together with
// the choices that run actually consumed.
func Shrink(in []uint64, budget int, bad func([]uint64) (bool, []uint64)) ([]uint64, int) {
	best := append([]uint64(nil), in...)
	used := 0
	try := func(c []uint64) bool {
		if used >= budget {
			return false
		}
		used++
		ok, consumed := bad(c)
		if !ok {
			return false
		}
		if len(consumed) < len(c) {
			c = consumed
		}
		if less(c, best) {
			best = append([]uint64(nil), c...)
			return true
		}
		return false
	}
	for round := 0; round < 6 && used < budget; round++ {
		before := len(best)
		sum := total(best)
		// cut the tail, then blocks
		for n := len(best) / 2; n >= 1; n /= 2 {
			if len(best) > n {
				try(best[:len(best)-n])
			}
		}
		for size := 64; size >= 1; size /= 2 {
			if size > len(best) {
				continue
			}
			for i := len(best) - size; i >= 0; i -= size {
				if i+size > len(best) {
					continue
				}
				c := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				if try(c) {
					continue
				}
				c = append([]uint64(nil), best...)
				z := false
				for j := i; j < i+size; j++ {
					if c[j] != 0 {
						z = true
					}
					c[j] = 0
				}
				if z {
					try(c)
				}
				if used >= budget {
					break
				}
			}
		}
		// lower single values
		for i := 0; i < len(best) && used < budget; i++ {
			for i < len(best) && best[i] > 0 {
				v := best[i]
				done := true
				for _, nv := range []uint64{0, v / 2, v - 1} {
					if nv >= v {
						continue
					}
					c := append([]uint64(nil), best...)
					c[i] = nv
					if try(c) {
						done = false
						break
					}
				}
				if done || used >= budget {
					break
				}
			}
		}
		// delete one and lower an earlier count (typical "n items" shape)
		for i := 0; i+1 < len(best) && used < budget; i++ {
			if best[i] == 0 || best[i] > 40 {
				continue
			}
			for _, k := range []int{1, 2, 3, 4, 6, 8, 12} {
				for j := i + 1; j+k <= len(best) && j < i+40; j += k {
					c := append([]uint64(nil), best[:j]...)
					c = append(c, best[j+k:]...)
					c[i]--
					if try(c) || used >= budget {
						break
					}
				}
				if i >= len(best) || best[i] == 0 {
					break
				}
			}
		}
		if len(best) == before && total(best) == sum {
			break
		}
	}
	return best, used
}

func total(a []uint64) float64 {
	var s float64
	for _, v := range a {
		s += float64(v)
	}
	return s
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// Of1 picks one of the integers.
func (t *T) Of1(v ...int) int { return v[t.Intn(len(v))] }
