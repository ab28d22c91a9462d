package digits

import (
	"strconv"
	"testing"
)

func TestVerifCount(t *testing.T) {
	v := vStart(t)
	one := func(u uint64) {
		v.check(Count(u) == len(strconv.FormatUint(u, 10)), "count", "Count(%d) = %d", u, Count(u))
	}
	for u := uint64(0); u < 20000; u++ {
		one(u)
		one(^u)
	}
	p := uint64(1)
	for i := 0; i < 20; i++ {
		for d := uint64(0); d < 300; d++ {
			one(p - d)
			one(p + d)
		}
		p *= 10
	}
	for i := 0; i < v.n2(20000, 1000000); i++ {
		one(v.r.Uint64() >> uint(v.r.Intn(64)))
	}
	v.done()
}
