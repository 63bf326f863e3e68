package zverif

import (
	"strings"
	"testing"

	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"pgregory.net/rapid"

	dex "defund/x/dex/module"
	"defund/x/dex/types"
)

// gasRun is what running a message, or ending the block, on a copy of the chain gives.
type gasRun struct {
	gas uint64
	ok  bool
	err string
	w   *W
}

func (w *world) runWithGas(msg sdk.Msg, dep, wd, ord uint64) (r gasRun) {
	ctx, _ := w.ctx.CacheContext()
	prm := w.app.DexKeeper.GetParams(ctx)
	prm.DepositExtraGas, prm.WithdrawExtraGas, prm.OrderExtraGas = storetypes.Gas(dep), storetypes.Gas(wd), storetypes.Gas(ord)
	w.app.DexKeeper.SetParams(ctx, prm)
	ctx = ctx.WithGasMeter(storetypes.NewInfiniteGasMeter()).WithEventManager(sdk.NewEventManager())
	if msg == nil {
		e := tryCall(func() { dex.EndBlocker(ctx, w.app.DexKeeper) })
		if r.ok = e == nil; r.ok {
			r.gas = ctx.GasMeter().GasConsumed()
		}
	} else {
		var err error
		err, _, _, r.gas = deliver(w.app, ctx, msg)
		r.ok = err == nil
		if err != nil {
			r.err = err.Error()
		}
	}
	r.w = snapshot(w.app, ctx)
	r.w.prm = w.cur.prm
	return
}

func TestC37(t *testing.T) {
	histTest(t, "histories", 1600, worldCfg{ops: 30, weights: map[string]int{"deposit": 8, "withdraw": 8}}, func(w *world, rt *rapid.T, c *Case) watcher {
		kinds := map[string]bool{}
		w.before = func(msg sdk.Msg) {
			if !rapid.Bool().Draw(rt, "measure") {
				return
			}
			// numbers of equal length, since reading a parameter costs gas by its length
			digits := int(uni(rt, 1, 17, "digits"))
			lo := pow10i(digits - 1).Uint64()
			draw := func(l string) uint64 { return lo + uint64(uni(rt, 0, int64(9*lo)-1, l)) }
			dep, wd, ord := draw("deposit"), draw("withdraw"), draw("order")
			a, b := w.runWithGas(msg, lo, lo, lo), w.runWithGas(msg, dep, wd, ord)
			if a.ok != b.ok || a.err != b.err {
				rt.Fatalf("%v: %v %s with extra gas %d, %v %s with %d %d %d", msg, a.ok, a.err, lo, b.ok, b.err, dep, wd, ord)
			}
			if d := diffW(a.w, b.w); len(d) > 0 {
				rt.Fatalf("the effects depend on the extra gas: %s", d[0].text)
			}
			want := uint64(0)
			kind := "none"
			if a.ok {
				switch msg.(type) {
				case *types.MsgDeposit:
					want, kind = dep-lo, "deposit"
				case *types.MsgWithdraw:
					want, kind = wd-lo, "withdrawal"
				case *types.MsgLimitOrder, *types.MsgMarketOrder, *types.MsgMMOrder:
					want, kind = ord-lo, shortName(msg)
				}
			}
			if b.gas-a.gas != want && (a.ok || msg == nil) {
				what := "the end of the block"
				if msg != nil {
					what = msgString(msg)
				}
				rt.Fatalf("%s takes %d gas, and %d with %d,%d,%d instead of %d as extra gas of deposits, withdrawals and orders", what, a.gas, b.gas, dep, wd, ord, lo)
			}
			if a.ok && want > 0 {
				kinds[kind] = true
				c.Label("measured " + kind)
			}
			// the parameter is charged in full: compared with a value of one digit
			if kind != "none" {
				z := w.runWithGas(msg, 0, 0, 0)
				extra := want + lo
				digitGas := uint64(100 * (digits - 1))
				if b.gas-z.gas < extra || b.gas-z.gas > extra+digitGas {
					rt.Fatalf("%s takes %d gas without, %d with %d extra gas", msgString(msg), z.gas, b.gas, extra)
				}
			}
		}
		return watcher{step: func(s *step) {}, end: func() {
			if len(kinds) >= 2 {
				c.NonTrivial()
			}
		}}
	})
}

var _ = strings.Contains
var _ = banktypes.MsgSend{}
