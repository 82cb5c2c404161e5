package main

import "fmt"

// Tables whose items all lie in a few of the slots: long slots next to long
// runs of empty ones.

func slotOf(key []byte, slots int) int {
	shift := uint(floorLog2(slots))
	i := int(fnv64a(key) & uint64(1<<(shift+1)-1))
	if i >= slots {
		i &^= 1 << shift
	}
	return i
}

// skewItems makes n items which all lie in slots chosen by in.
func skewItems(n, slots int, in func(int) bool) []Rec {
	rs := make([]Rec, 0, n)
	for i := 0; len(rs) < n; i++ {
		k := []byte(fmt.Sprintf("%07d", i))
		if i%8 == 3 {
			k = []byte(fmt.Sprintf("a key of more than 24 bytes %07d", i))
		}
		if in(slotOf(k, slots)) {
			rs = append(rs, Rec{k, fillBytes(byte(i), i%3)})
		}
	}
	return rs
}

type skewSel struct {
	name string
	in   func(slots int) func(int) bool
}

func skewSels(slots int) []skewSel {
	last := slots - 1
	low := func(i int) int { // the slot which i was split from
		if i == 0 {
			return 0
		}
		return i &^ (1 << uint(floorLog2(i)))
	}
	only := func(name string, xs ...int) skewSel {
		return skewSel{name, func(int) func(int) bool {
			return func(i int) bool {
				for _, x := range xs {
					if i == x {
						return true
					}
				}
				return false
			}
		}}
	}
	return []skewSel{
		only("the first slot", 0),
		only("the last slot", last),
		only("the slot the last one merges into", low(last)),
		only("the slot to be split next", low(slots)),
		only("the slots merged next", last, low(last)),
		only("the first and the last slot", 0, last),
		{"the first eighth", func(s int) func(int) bool { return func(i int) bool { return i <= s/8 } }},
		{"the last eighth", func(s int) func(int) bool { return func(i int) bool { return i >= s-1-s/8 } }},
	}
}

func skewX(tier string, cost int) []xp {
	sizes := [][]int{{2, 3, 5, 8, 9, 16, 17}, {63, 64, 65, 100}, {256, 257}, {1000}}
	if tier == "thorough" {
		sizes = [][]int{{2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33}, {63, 64, 65, 96, 100, 127, 128, 129}, {255, 256, 257, 384}, {1000, 1024}, {2048}, {4096}, {4098}}
	}
	var xs []xp
	for i, ss := range sizes {
		ss := ss
		env := envs[(i+2)%4]
		xs = append(xs, xp{name: fmt.Sprintf("skew/%d", ss[0]), bound: fmt.Sprintf("tables of %v slots, all items in one, two or an eighth of the slots, filled to the limit of growing and of shrinking", ss),
			run: func(t *T, m *Mon) {
				for _, sl := range ss {
					for _, sel := range skewSels(sl) {
						if t.failed() {
							return
						}
						in := sel.in(sl)
						tableGridOf(t, m, env, []int{sl}, 4, false, func(n, slots int) []Rec { return skewItems(n, slots, in) })
					}
				}
			}})
	}
	return xs
}
