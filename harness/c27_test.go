package zverif

import (
	"fmt"
	"strings"
	"testing"

	abci "github.com/cometbft/cometbft/abci/types"
	"pgregory.net/rapid"

	"defund/x/dex/types"
)

var netWeights = map[string]int{"block": 22, "send": 3}

func TestC27(t *testing.T) {
	run := func(rt *rapid.T, c *Case, ops int, chaos bool) *testnet {
		n := newNet(rt, c, worldCfg{ops: ops, digits: 12, magnitude: 4, weights: netWeights}, []string{"plain", "restarted"})
		n.chaos = chaos
		n.w.play()
		if n.okTxs >= 3 && n.badTxs+n.restart > 0 {
			c.NonTrivial()
		}
		if n.restart > 0 {
			c.Label("restarted")
		}
		return n
	}
	prop(t, "nodes", 320, func(rt *rapid.T, c *Case) { run(rt, c, 40, true) })
	prop(t, "fresh process", 96, func(rt *rapid.T, c *Case) {
		n := run(rt, c, 40, true)
		k := int(uni(rt, 1, int64(len(n.reqs)-1), "from block"))
		c.Logf("a fresh process goes on from block %d of %d", k, len(n.reqs))
		n.child(k)
	})
}

// normal is the state with the heights left out.
func normal(w *W) *W {
	x := exchange(w)
	for k, o := range x.orders {
		o.MsgHeight = 0
		x.orders[k] = o
	}
	for k, r := range x.deps {
		r.MsgHeight = 0
		x.deps[k] = r
	}
	for k, r := range x.wds {
		r.MsgHeight = 0
		x.wds[k] = r
	}
	return x
}

func TestC35(t *testing.T) {
	prop(t, "signatures", 600, func(rt *rapid.T, c *Case) {
		n := newNet(rt, c, worldCfg{ops: 30, digits: 12, magnitude: 4, weights: netWeights}, nil)
		n.forgery = true
		n.lowGas = true
		n.w.play()
		if n.forged > 0 && n.okTxs > 0 {
			c.NonTrivial()
		}
	})
}

func TestC34(t *testing.T) {
	prop(t, "export", 400, func(rt *rapid.T, c *Case) {
		n := newNet(rt, c, worldCfg{ops: 40, digits: 12, magnitude: 4, weights: netWeights}, nil)
		n.w.play()
		k := int(uni(rt, 1, int64(len(n.reqs)-1), "after block"))
		zero := rapid.Bool().Draw(rt, "zero")
		c.Logf("export before block %d of %d, for height zero: %v", k+1, len(n.reqs), zero)
		src := openNode("exporter", n.dumps[k])
		before := snapshot(src.app, src.at(int64(k), n.reqs[k-1].Time))
		e, err := src.app.ExportAppStateAndValidators(zero, nil, nil)
		if err != nil {
			rt.Fatalf("export: %v", err)
		}
		want := int64(k + 1)
		if zero {
			want = 0
		}
		if e.Height != want {
			rt.Fatalf("the export is for height %d, want %d", e.Height, want)
		}
		dst := openNode("restarted", nil)
		h0 := maxI(1, e.Height)
		var vals []abci.ValidatorUpdate
		if _, err := dst.app.InitChain(&abci.RequestInitChain{ChainId: chainID, Time: n.reqs[k-1].Time, InitialHeight: h0, ConsensusParams: &e.ConsensusParams, AppStateBytes: e.AppState, Validators: vals}); err != nil {
			rt.Fatalf("starting from the export: %v", err)
		}
		// the following blocks give the same results
		same := !zero || before.prm.BatchSize == 1
		for i := k; i < len(n.reqs); i++ {
			req := *n.reqs[i]
			req.Height = h0 + int64(i-k)
			if i == k {
				req.DecidedLastCommit = abci.CommitInfo{}
			}
			out, res := finalize(dst.app, &req)
			if res == nil {
				rt.Fatalf("block %d: %s", req.Height, out)
			}
			_, err := dst.app.Commit()
			must(err)
			if !same {
				continue
			}
			for j, r := range res.TxResults {
				if ok := strings.Contains(n.digests[i], fmt.Sprintf("tx %d: code 0 ", j)); ok != (r.Code == 0) {
					rt.Fatalf("block %d, transaction %d: %s", req.Height, j, r.Log)
				}
			}
			a := snapshot(dst.app, dst.at(req.Height, req.Time))
			b := n.states[i-1]
			if zero {
				a, b = normal(a), normal(b)
			}
			if d := diffExchange(b, a); len(d) > 0 {
				rt.Fatalf("block %d after the restart differs:\n%s", req.Height, strings.Join(d, "\n"))
			}
		}
		if len(before.orders)+len(before.deps)+len(before.wds) > 0 && len(before.pools) > 0 {
			c.NonTrivial()
		}
		if zero {
			c.Label("height zero")
		}
	})
}

func maxI(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

var _ = types.ModuleName
