// Package zverif is the property-based test harness of /verif. It is compiled
// as an extra package of the defund module through a go build overlay and uses
// exported API only.
package zverif

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---- configuration handed over by the runner ----

func envInt(name string, def int) int {
	if v := os.Getenv(name); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			return n
		}
	}
	return def
}

var (
	cfgShard  = envInt("VERIF_SHARD", 0)
	cfgShards = envInt("VERIF_SHARDS", 1)
	cfgScale  = envInt("VERIF_SCALE", 100) // percent of the quick case counts
	cfgSeed   = envInt("VERIF_SHARD_SEED", 1)
)

// ---- statistics ----

type stats struct {
	Evaluations int64            `json:"evaluations"`
	NonTrivial  int64            `json:"nontrivial"`
	Labels      map[string]int64 `json:"labels"`
	Samples     []string         `json:"samples"`
	hashes      map[uint64]struct{}
}

var st = stats{Labels: map[string]int64{}, hashes: map[uint64]struct{}{}}

// Case collects what one generated case was.
type Case struct {
	desc  strings.Builder
	full  bool
	hash  uint64
	nt    bool
	label map[string]int64
}

func newCase() *Case { return &Case{hash: 14695981039346656037, label: map[string]int64{}} }

// Logf appends to the description of the case; the description identifies it.
func (c *Case) Logf(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	h := fnv.New64a()
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], c.hash)
	_, _ = h.Write(b[:])
	_, _ = h.Write([]byte(s))
	c.hash = h.Sum64()
	if c.desc.Len() < 60000 {
		c.desc.WriteString(s)
		c.desc.WriteByte('\n')
	}
}

func (c *Case) String() string { return c.desc.String() }

// Label counts a class of cases.
func (c *Case) Label(l string) { c.label[l]++ }

// NonTrivial marks the case as non-trivial by the property's rule.
func (c *Case) NonTrivial() { c.nt = true }

func (c *Case) done() {
	st.Evaluations++
	for l := range c.label {
		st.Labels[l]++
	}
	if c.nt {
		st.NonTrivial++
		if _, ok := st.hashes[c.hash]; !ok {
			if len(st.hashes) < 2000000 {
				st.hashes[c.hash] = struct{}{}
			}
			if len(st.Samples) < 2 {
				s := c.String()
				if len(s) > 1500 {
					s = s[:1500] + " ..."
				}
				st.Samples = append(st.Samples, s)
			}
		}
	}
}

// prop runs one rapid property as a subtest. n is the number of cases of the
// quick tier over all shards.
func prop(t *testing.T, name string, n int, f func(rt *rapid.T, c *Case)) {
	t.Helper()
	per := (n*cfgScale/100 + cfgShards - 1) / cfgShards
	if per < 1 {
		per = 1
	}
	t.Run(name, func(t *testing.T) {
		h := fnv.New64a()
		fmt.Fprintf(h, "%d/%s/%d", cfgSeed, t.Name(), cfgShard)
		seed := h.Sum64()
		if seed == 0 {
			seed = 1
		}
		must(flag.Set("rapid.checks", strconv.Itoa(per)))
		if flag.Lookup("rapid.seed").Value.String() == "0" || os.Getenv("VERIF_SHARD_SEED") != "" {
			must(flag.Set("rapid.seed", strconv.FormatUint(seed, 10)))
		}
		rapid.Check(t, func(rt *rapid.T) {
			c := newCase()
			running.Store(&runningCase{t.Name(), time.Now(), c})
			defer running.Store(nil)
			defer func() {
				// log the case description when the property fails
				if r := recover(); r != nil {
					rt.Logf("case:\n%s", c.String())
					panic(r)
				}
				if rt.Failed() {
					rt.Logf("case:\n%s", c.String())
				}
			}()
			f(rt, c)
			c.done()
		})
	})
}

// once runs a deterministic part (exhaustive sweep, regression) on shard 0 only.
func once(t *testing.T, name string, f func(t *testing.T, c *Case)) {
	if cfgShard != 0 {
		return
	}
	t.Run(name, func(t *testing.T) {
		c := newCase()
		defer func() {
			if r := recover(); r != nil {
				fmt.Printf("VERIF-FAIL %s: panic: %v\n%s\n", t.Name(), r, c.String())
				t.Fatalf("panic: %v", r)
			}
			if t.Failed() {
				fmt.Printf("VERIF-FAIL %s\n%s\n", t.Name(), c.String())
			}
		}()
		f(t, c)
	})
}

// each counts one evaluated case of a deterministic part.
func each(desc string, nontrivial bool) {
	c := newCase()
	c.Logf("%s", desc)
	c.nt = nontrivial
	c.done()
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// known-finding support: the runner passes the ids listed in KNOWN_FINDINGS.
func knownFinding(id string) bool {
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		if k == id {
			return true
		}
	}
	return false
}

type runningCase struct {
	name  string
	start time.Time
	c     *Case
}

var running atomic.Pointer[runningCase]

// hangLimit is several thousand times what a generated case takes.
const hangLimit = 150 * time.Second

func watchdog() {
	for {
		time.Sleep(time.Second)
		if r := running.Load(); r != nil && time.Since(r.start) > hangLimit {
			fmt.Printf("VERIF-FAIL %s: a case does not end\n%s\n", r.name, r.c.String())
			os.Exit(1)
		}
	}
}

func TestMain(m *testing.M) {
	flag.Parse()
	go watchdog()
	debug.SetGCPercent(400)
	code := m.Run()
	if path := os.Getenv("VERIF_STATS"); path != "" {
		f, err := os.Create(path)
		must(err)
		must(json.NewEncoder(f).Encode(st))
		must(f.Close())
		hs := make([]uint64, 0, len(st.hashes))
		for h := range st.hashes {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
		buf := make([]byte, 8*len(hs))
		for i, h := range hs {
			binary.LittleEndian.PutUint64(buf[8*i:], h)
		}
		must(os.WriteFile(path+".hashes", buf, 0o644))
	}
	os.Exit(code)
}

// sink for failures inside helpers that have no *rapid.T at hand
type fataler interface {
	Fatalf(format string, args ...any)
}

var _ fataler = (*rapid.T)(nil)
