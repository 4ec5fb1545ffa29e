package pbt

// Shrink minimises a failing choice list. try must report whether a candidate
// still fails, and the choices it actually consumed.
func Shrink(choices []uint64, try func([]uint64) (bool, []uint64), budget func() bool) []uint64 {
	cur := append([]uint64(nil), choices...)
	better := func(a, b []uint64) bool {
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		for i := range a {
			if a[i] != b[i] {
				return a[i] < b[i]
			}
		}
		return false
	}
	attempt := func(c []uint64) bool {
		ok, used := try(c)
		if !ok {
			return false
		}
		if len(used) < len(c) {
			c = used
		}
		if better(c, cur) {
			cur = append([]uint64(nil), c...)
			return true
		}
		return false
	}
	for improved := true; improved && budget(); {
		improved = false
		// cut the tail
		for n := len(cur) / 2; n >= 1 && budget(); {
			if n <= len(cur) && attempt(cur[:len(cur)-n]) {
				improved = true
				if n > len(cur) {
					n = len(cur)
				}
				if n == 0 {
					break
				}
				continue
			}
			n /= 2
		}
		// delete blocks
		for _, n := range []int{32, 16, 8, 4, 3, 2, 1} {
			for i := len(cur) - n; i >= 0 && budget(); i-- {
				if i+n > len(cur) {
					continue
				}
				c := append(append([]uint64(nil), cur[:i]...), cur[i+n:]...)
				if attempt(c) {
					improved = true
				}
			}
		}
		// zero blocks
		for _, n := range []int{16, 4, 1} {
			for i := 0; i+n <= len(cur) && budget(); i++ {
				z := true
				for _, v := range cur[i : i+n] {
					if v != 0 {
						z = false
					}
				}
				if z {
					continue
				}
				c := append([]uint64(nil), cur...)
				for k := i; k < i+n; k++ {
					c[k] = 0
				}
				if attempt(c) {
					improved = true
				}
			}
		}
		// lower single choices
		for i := 0; i < len(cur) && budget(); i++ {
			lo, hi := uint64(0), cur[i]
			for lo < hi && budget() {
				mid := lo + (hi-lo)/2
				c := append([]uint64(nil), cur...)
				c[i] = mid
				if attempt(c) {
					improved = true
					if i >= len(cur) {
						break
					}
					hi = cur[i]
				} else {
					lo = mid + 1
				}
			}
		}
	}
	return cur
}
