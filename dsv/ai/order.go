package ai

// Order is a network of qualitative order relations between key symbols.
type Order struct {
	rel map[[2]int]uint8
	ids []int
}

const (
	LT  uint8 = 1
	EQ  uint8 = 2
	GT  uint8 = 4
	ANY uint8 = 7
)

func inv(m uint8) uint8 {
	r := m & EQ
	if m&LT != 0 {
		r |= GT
	}
	if m&GT != 0 {
		r |= LT
	}
	return r
}

func compose(a, b uint8) uint8 {
	var r uint8
	for _, x := range []uint8{LT, EQ, GT} {
		if a&x == 0 {
			continue
		}
		for _, y := range []uint8{LT, EQ, GT} {
			if b&y == 0 {
				continue
			}
			switch {
			case x == EQ:
				r |= y
			case y == EQ:
				r |= x
			case x == y:
				r |= x
			default:
				r |= ANY
			}
		}
	}
	return r
}

func newOrder() *Order { return &Order{rel: map[[2]int]uint8{}} }

func (o *Order) clone() *Order {
	n := &Order{rel: make(map[[2]int]uint8, len(o.rel)), ids: append([]int(nil), o.ids...)}
	for k, v := range o.rel {
		n.rel[k] = v
	}
	return n
}

// Get returns the possible relations of a to b.
func (o *Order) Get(a, b int) uint8 {
	if a == b {
		return EQ
	}
	if a < b {
		if m, ok := o.rel[[2]int{a, b}]; ok {
			return m
		}
		return ANY
	}
	if m, ok := o.rel[[2]int{b, a}]; ok {
		return inv(m)
	}
	return ANY
}

func (o *Order) put(a, b int, m uint8) {
	if a < b {
		o.rel[[2]int{a, b}] = m
	} else {
		o.rel[[2]int{b, a}] = inv(m)
	}
}

func (o *Order) touch(a int) {
	for _, x := range o.ids {
		if x == a {
			return
		}
	}
	o.ids = append(o.ids, a)
}

// Set intersects rel(a,b) with m and closes; false when inconsistent.
func (o *Order) Set(a, b int, m uint8) bool {
	if a == b {
		return m&EQ != 0
	}
	o.touch(a)
	o.touch(b)
	type pr struct{ a, b int }
	work := []pr{}
	cur := o.Get(a, b)
	n := cur & m
	if n == 0 {
		return false
	}
	if n == cur {
		return true
	}
	o.put(a, b, n)
	work = append(work, pr{a, b})
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		ab := o.Get(p.a, p.b)
		for _, c := range o.ids {
			if c == p.a || c == p.b {
				continue
			}
			// a-c via b
			ac := o.Get(p.a, c)
			if n := ac & compose(ab, o.Get(p.b, c)); n != ac {
				if n == 0 {
					return false
				}
				o.put(p.a, c, n)
				work = append(work, pr{p.a, c})
			}
			// c-b via a
			cb := o.Get(c, p.b)
			if n := cb & compose(o.Get(c, p.a), ab); n != cb {
				if n == 0 {
					return false
				}
				o.put(c, p.b, n)
				work = append(work, pr{c, p.b})
			}
		}
	}
	return true
}
