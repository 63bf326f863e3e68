package zverif

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// TestC11 plays histories that must never stop the chain.
func TestC11(t *testing.T) {
	mk := func(w *world, rt *rapid.T, c *Case) watcher {
		over := false
		return watcher{func(s *step) {
			if over || s.kind == "msg" || s.kind == "send" {
				return
			}
			if s.panicked != nil && knownFinding("huge-reserve") && strings.Contains(fmt.Sprint(s.panicked), "overflow") && s.hugeReserve() {
				c.Label("known finding huge-reserve")
				over = true
				return
			}
			if s.panicked != nil {
				rt.Fatalf("%s block %d: %v", s.kind, s.mc.height, s.panicked)
			}
			if s.kind == "end" && (s.matchedAny() || s.pendingRequests()) {
				c.NonTrivial()
			}
		}, nil}
	}
	weights := map[string]int{"limit": 30, "market": 8, "mm": 6, "deposit": 8, "withdraw": 8, "cancel": 2, "cancelAll": 1, "ranged": 6, "pool": 5, "block": 20, "send": 8, "params": 2}
	histTest(t, "usual", 800, worldCfg{ops: 45, weights: weights}, mk)
	histTest(t, "small", 800, worldCfg{ops: 45, weights: weights, digits: 4, magnitude: 3}, mk)
	for _, d := range []int{25, 40, 60, 75} {
		for _, m := range []int{20, 38} {
			histTest(t, fmt.Sprintf("extreme%dx%d", d, m), 200, worldCfg{ops: 45, weights: weights, digits: min(d, 40), magnitude: m, rich: d, gifts: d}, mk)
		}
	}
	for _, d := range []int{40, 45, 60} {
		histTest(t, fmt.Sprintf("edges%d", d), 1600, worldCfg{ops: 45, weights: weights, digits: 40, magnitude: 1, expos: []int64{-17, -16, -15, -14, -13, 18, 19, 20, 21, 35, 36, 36, 37, 37, 37, 38}, edgy: true, rich: d, gifts: d}, mk)
	}
}

// hugeReserve tells whether a pool holds more than 1e50 coins of a kind, which
// only donations can bring about.
func (s *step) hugeReserve() bool {
	limit := pow10i(50)
	for _, p := range s.pre.pools {
		if p.Disabled {
			continue
		}
		rx, ry, _, _ := s.pre.poolState(p)
		if rx.Cmp(limit) > 0 || ry.Cmp(limit) > 0 {
			return true
		}
	}
	return false
}
