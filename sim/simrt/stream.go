package simrt

// Rand is a small deterministic generator (splitmix64).
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: seed} }

func (r *Rand) Next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

func (r *Rand) Float() float64 { return float64(r.Next()>>11) / (1 << 53) }

// Stream is a recorded sequence of choices. When Replay is set the recorded
// values are used in place of generated ones; past the end every choice is 0,
// which by convention is the simplest one.
type Stream struct {
	Name      string
	Rec       []uint32
	Replaying bool
	Replay    []uint32
	pos       int
	rng       *Rand
}

func NewStream(name string, seed uint64) *Stream {
	h := seed
	for _, c := range name {
		h = (h ^ uint64(c)) * 0x100000001b3
	}
	return &Stream{Name: name, rng: NewRand(h)}
}

func ReplayStream(name string, draws []uint32) *Stream {
	return &Stream{Name: name, Replaying: true, Replay: draws, rng: NewRand(0)}
}

func (s *Stream) take(n int, gen func(r *Rand) int) int {
	if n <= 1 {
		return 0
	}
	var v int
	if s.Replaying {
		if s.pos < len(s.Replay) {
			v = int(s.Replay[s.pos])
			if v >= n {
				v = v % n
			}
		}
		s.pos++
	} else {
		v = gen(s.rng)
		if v < 0 || v >= n {
			v = 0
		}
	}
	s.Rec = append(s.Rec, uint32(v))
	return v
}

// Intn draws uniformly from [0,n).
func (s *Stream) Intn(n int) int {
	return s.take(n, func(r *Rand) int { return r.Intn(n) })
}

// Weighted draws an index with the given weights.
func (s *Stream) Weighted(w ...int) int {
	return s.take(len(w), func(r *Rand) int {
		t := 0
		for _, x := range w {
			t += x
		}
		if t == 0 {
			return 0
		}
		k := r.Intn(t)
		for i, x := range w {
			if k < x {
				return i
			}
			k -= x
		}
		return 0
	})
}

// Chance is true with probability pct percent (0 = false is the simple choice).
func (s *Stream) Chance(pct int) bool {
	if pct <= 0 || pct >= 100 {
		return pct > 0
	}
	return s.take(2, func(r *Rand) int {
		if r.Intn(100) < pct {
			return 1
		}
		return 0
	}) == 1
}

// Permille is true with probability pm/1000.
func (s *Stream) Permille(pm int) bool {
	return s.take(2, func(r *Rand) int {
		if r.Intn(1000) < pm {
			return 1
		}
		return 0
	}) == 1
}
