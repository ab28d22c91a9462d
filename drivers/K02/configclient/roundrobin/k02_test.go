package roundrobin

import (
	"fmt"
	"sort"
	"strings"
	"testing"
)

func TestVerifServers(t *testing.T) {
	v := vStart(t)
	for it := 0; it < v.n2(500, 5000); it++ {
		n := v.r.Intn(8)
		var parts []string
		prio := map[string]int{}
		for i := 0; i < n; i++ {
			p := []int{0, 0, 1, 2, 10, 10, 20, 7}[v.r.Intn(8)]
			u := fmt.Sprintf("h%d.org:%d", i, v.r.Intn(100))
			prio["http://"+u] = p
			parts = append(parts, fmt.Sprintf("%d,%s", p, u))
		}
		s := strings.Join(parts, ";")
		sl := ParseServers(s)
		v.check(len(sl) == n, "parse", "%q: %d", s, len(sl))
		sort.Sort(sl)
		o := sl.Order()
		v.check(len(o) == n, "order-len", "%q: %v", s, o)
		seen := map[string]bool{}
		for i, u := range o {
			p, ok := prio[u]
			v.check(ok && !seen[u], "order-once", "%q: %v", s, o)
			seen[u] = true
			v.check(i == 0 || prio[o[i-1]] <= p, "order-prio", "%q: %v", s, o)
		}
		v.check(fmt.Sprint(len(sl.MakeStrings())) == fmt.Sprint(n), "strings", "")
	}
	v.done()
}
