package zverif

import (
	"testing"

	"pgregory.net/rapid"
)

func TestProbeWorld(t *testing.T) {
	prop(t, "history", 4000, func(rt *rapid.T, c *Case) {
		w := newWorld(rt, c, worldCfg{ops: 40}, func(s *step) {
			if s.panicked != nil {
				rt.Fatalf("%s %v: panic %v", s.kind, s.msg, s.panicked)
			}
			if s.accepted != s.expOK {
				rt.Fatalf("%s %v: accepted %v (%v), expected %v", s.kind, s.msg, s.accepted, s.err, s.expOK)
			}
			if d := s.diffText(); d != "" {
				rt.Fatalf("%s %v:\n%s", s.kind, s.msg, d)
			}
		})
		w.play()
		c.NonTrivial()
	})
}
