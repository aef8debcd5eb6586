package pbt

import "time"

// shrink minimises the choices of a failing case while it fails the same way.
func shrink(fn func(*T), base T, choices []uint64, kind string, budget time.Duration) ([]uint64, int) {
	deadline := time.Now().Add(budget)
	best := append([]uint64(nil), choices...)
	tries := 0
	try := func(c []uint64) bool {
		if time.Now().After(deadline) {
			return false
		}
		tries++
		t := base
		t.prefix, t.replay = c, true
		t.rec = nil
		r := runCase(fn, &t)
		if r.fail == nil || r.fail.Kind != kind {
			return false
		}
		// what was really consumed
		rec := r.rec
		for len(rec) > 0 && rec[len(rec)-1] == 0 {
			rec = rec[:len(rec)-1]
		}
		if less(rec, best) {
			best = append([]uint64(nil), rec...)
			return true
		}
		return false
	}
	for improved := true; improved && time.Now().Before(deadline); {
		improved = false
		// delete blocks
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := len(best) - size; i >= 0; {
				if i+size > len(best) {
					i = len(best) - size
					if i < 0 {
						break
					}
				}
				c := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				if try(c) {
					improved = true
					if i > len(best)-size {
						i = len(best) - size
					}
				} else {
					// also try lowering a list length in front of the block
					i -= max(1, size/2)
				}
				if time.Now().After(deadline) {
					return best, tries
				}
			}
		}
		// delete a block and decrement an earlier choice (length prefixes)
		for i := 0; i < len(best) && i < 200; i++ {
			if best[i] == 0 {
				continue
			}
			for _, size := range []int{1, 2, 3, 5, 8, 13} {
				for j := i + 1; j+size <= len(best) && j < i+40; j++ {
					c := append(append([]uint64(nil), best[:j]...), best[j+size:]...)
					c[i]--
					if try(c) {
						improved = true
						break
					}
				}
				if i >= len(best) || best[i] == 0 {
					break
				}
			}
			if time.Now().After(deadline) {
				return best, tries
			}
		}
		// lower single choices
		for i := 0; i < len(best); i++ {
			if best[i] == 0 {
				continue
			}
			c := append([]uint64(nil), best...)
			c[i] = 0
			if try(c) {
				improved = true
				continue
			}
			lo, hi := uint64(0), best[i]
			for lo+1 < hi {
				mid := lo + (hi-lo)/2
				c := append([]uint64(nil), best...)
				if i >= len(c) {
					break
				}
				c[i] = mid
				if try(c) {
					improved = true
					hi = mid
				} else {
					lo = mid
				}
				if i >= len(best) {
					break
				}
			}
			if time.Now().After(deadline) {
				return best, tries
			}
		}
	}
	return best, tries
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}
