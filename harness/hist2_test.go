package zverif

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"testing"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"pgregory.net/rapid"

	"defund/x/dex/keeper"
	"defund/x/dex/types"
)

// ---- C10 ----

func isPoolCoin(d string) bool { return strings.HasPrefix(d, "pool") }

// custody checks the escrow accounts of a state; donated holds what was sent to them by plain transfers.
func custody(rt *rapid.T, w *W, donated *W, where string) {
	due := &W{bal: map[string]map[string]*big.Int{}}
	for _, o := range w.orders {
		if open(o) {
			due.addBal(escrowOf(o.PairId), o.RemainingOfferCoin.Denom, o.RemainingOfferCoin.Amount.BigInt())
		}
	}
	for _, r := range w.deps {
		if r.Status == types.RequestStatusNotExecuted {
			for _, cn := range r.DepositCoins {
				due.addBal(globalEscrow, cn.Denom, cn.Amount.BigInt())
			}
		}
	}
	for _, r := range w.wds {
		if r.Status == types.RequestStatusNotExecuted {
			due.addBal(globalEscrow, r.PoolCoin.Denom, r.PoolCoin.Amount.BigInt())
		}
	}
	addrs := []string{globalEscrow}
	for id := range w.pairs {
		addrs = append(addrs, escrowOf(id))
	}
	for _, a := range addrs {
		denoms := map[string]bool{}
		for _, m := range []map[string]*big.Int{due.bal[a], donated.bal[a], w.bal[a]} {
			for d := range m {
				denoms[d] = true
			}
		}
		for _, d := range sortedS(denoms) {
			want := add(due.balOf(a, d), donated.balOf(a, d))
			if got := w.balOf(a, d); got.Cmp(want) != 0 {
				rt.Fatalf("%s: escrow %s holds %s%s, the open positions and donations are %s", where, a, got, d, want)
			}
		}
	}
	// the books of the bank add up
	sum := map[string]*big.Int{}
	for _, m := range w.bal {
		for d, x := range m {
			if sum[d] == nil {
				sum[d] = bi(0)
			}
			sum[d].Add(sum[d], x)
		}
	}
	for d := range sum {
		if sum[d].Cmp(w.supplyOf(d)) != 0 {
			rt.Fatalf("%s: balances of %s are %s, supply %s", where, d, sum[d], w.supplyOf(d))
		}
	}
}

func TestC10(t *testing.T) {
	cfg := worldCfg{ops: 45, weights: map[string]int{"limit": 32, "market": 6, "mm": 6, "deposit": 9, "withdraw": 9, "cancel": 4, "cancelAll": 2, "ranged": 4, "pool": 4, "block": 16, "send": 5}}
	histTest(t, "history", 1800, cfg, func(w *world, rt *rapid.T, c *Case) watcher {
		donated := &W{bal: map[string]map[string]*big.Int{}}
		return watcher{func(s *step) {
			if s.panicked != nil && s.kind != "msg" {
				return
			}
			if s.kind == "send" && s.accepted {
				m := s.msg.(*banktypes.MsgSend)
				donated.addBal(m.ToAddress, m.Amount[0].Denom, m.Amount[0].Amount.BigInt())
			}
			if s.matchedAny() || s.pendingRequests() {
				c.NonTrivial()
			}
			custody(rt, s.post, donated, s.kind)
			// supplies
			minted := map[string]*big.Int{}
			for id, p := range s.post.pools {
				if _, was := s.pre.pools[id]; !was {
					m := s.post.supplyOf(p.PoolCoinDenom) // created
					if m.Sign() <= 0 || s.post.balOf(p.Creator, p.PoolCoinDenom).Cmp(m) != 0 {
						rt.Fatalf("pool %d is created with %s pool coins, its creator has %s", id, m, s.post.balOf(p.Creator, p.PoolCoinDenom))
					}
					minted[p.PoolCoinDenom] = m
				}
			}
			addTo := func(d string, x *big.Int) {
				if minted[d] == nil {
					minted[d] = bi(0)
				}
				minted[d] = add(minted[d], x)
			}
			for k, b := range s.post.deps {
				if s.pre.deps[k].Status == types.RequestStatusNotExecuted && b.Status == types.RequestStatusSucceeded {
					addTo(b.MintedPoolCoin.Denom, b.MintedPoolCoin.Amount.BigInt())
				}
			}
			for k, b := range s.post.wds {
				if s.pre.wds[k].Status == types.RequestStatusNotExecuted && b.Status == types.RequestStatusSucceeded {
					addTo(b.PoolCoin.Denom, new(big.Int).Neg(b.PoolCoin.Amount.BigInt()))
				}
			}
			denoms := map[string]bool{}
			for d := range s.pre.supply {
				denoms[d] = true
			}
			for d := range s.post.supply {
				denoms[d] = true
			}
			for d := range denoms {
				want := s.pre.supplyOf(d)
				if isPoolCoin(d) && minted[d] != nil {
					want = add(want, minted[d])
				}
				if got := s.post.supplyOf(d); got.Cmp(want) != 0 {
					rt.Fatalf("%s: supply of %s goes from %s to %s, expected %s", s.kind, d, s.pre.supplyOf(d), got, want)
				}
			}
		}, func() {
			// everything can be paid out: cancel all orders and let all requests settle
			for _, u := range w.users {
				w.run(types.NewMsgCancelAllOrders(sdk.MustAccAddressFromBech32(u), nil))
			}
			for _, o := range w.cur.orders {
				if open(o) {
					rt.Fatalf("order {%s} cannot be canceled", orderString(o))
				}
			}
			for id := range w.cur.pairs {
				for d, x := range w.cur.bal[escrowOf(id)] {
					if x.Cmp(donated.balOf(escrowOf(id), d)) != 0 {
						rt.Fatalf("escrow of pair %d keeps %s%s", id, x, d)
					}
				}
			}
		}}
	})
}

func (s *step) matchedAny() bool {
	for k, o := range s.post.orders {
		if a, was := s.pre.orders[k]; was && !a.OpenAmount.Equal(o.OpenAmount) {
			return true
		}
	}
	return false
}

// ---- C17 ----

func bf(x *big.Int) *big.Float { return new(big.Float).SetPrec(400).SetInt(x) }
func bfr(x *big.Rat) *big.Float {
	return new(big.Float).SetPrec(400).SetRat(x)
}
func fmul(a, b *big.Float) *big.Float { return new(big.Float).SetPrec(400).Mul(a, b) }
func fadd(a, b *big.Float) *big.Float { return new(big.Float).SetPrec(400).Add(a, b) }
func fsub(a, b *big.Float) *big.Float { return new(big.Float).SetPrec(400).Sub(a, b) }
func fquo(a, b *big.Float) *big.Float { return new(big.Float).SetPrec(400).Quo(a, b) }
func fsqrt(a *big.Float) *big.Float   { return new(big.Float).SetPrec(400).Sqrt(a) }

func fexp(x string) *big.Float {
	e, _, _ := big.ParseFloat(x, 10, 400, big.ToNearestEven)
	return e
}

// liquidity is the size of the pool's pricing curve for its reserves: the
// geometric mean of the (virtual) reserves.
func liquidity(p types.Pool, rx, ry *big.Int) *big.Float {
	if p.Type == types.PoolTypeBasic {
		return fsqrt(fmul(bf(rx), bf(ry)))
	}
	// L^2 = (rx + L a)(ry + L b) with a = sqrt(min), b = 1/sqrt(max)
	one := bf(bi(1))
	a := fsqrt(bfr(ratDec(*p.MinPrice)))
	b := fquo(one, fsqrt(bfr(ratDec(*p.MaxPrice))))
	h := fadd(fmul(a, bf(ry)), fmul(b, bf(rx)))
	q := fsub(one, fmul(a, b))
	return fquo(fadd(h, fsqrt(fadd(fmul(h, h), fmul(fmul(bf(bi(4)), q), fmul(bf(rx), bf(ry)))))), fmul(bf(bi(2)), q))
}

func TestC17(t *testing.T) {
	cfg := worldCfg{ops: 45, weights: map[string]int{"limit": 34, "market": 6, "mm": 3, "deposit": 12, "withdraw": 12, "cancel": 1, "cancelAll": 1, "ranged": 6, "pool": 5, "block": 18, "send": 3}}
	histTest(t, "history", 1800, cfg, func(w *world, rt *rapid.T, c *Case) watcher {
		return watcher{func(s *step) {
			if s.panicked != nil && s.kind != "msg" {
				return
			}
			for _, id := range sortedU(s.pre.pools) {
				p := s.pre.pools[id]
				pair := s.pre.pairs[p.PairId]
				rx, ry, ps, _ := s.pre.poolState(p)
				sx, sy, qs, _ := s.post.poolState(p)
				if s.kind == "msg" || s.kind == "begin" {
					if rx.Cmp(sx) != 0 || ry.Cmp(sy) != 0 || ps.Cmp(qs) != 0 {
						rt.Fatalf("%s changes pool %d from %s,%s supply %s to %s,%s supply %s", msgString(s.msg), id, rx, ry, ps, sx, sy, qs)
					}
					continue
				}
				if s.kind == "send" {
					if sx.Cmp(rx) < 0 || sy.Cmp(ry) < 0 || ps.Cmp(qs) != 0 {
						rt.Fatalf("%s changes pool %d", msgString(s.msg), id)
					}
					continue
				}
				// the end of a block: what the settled requests move
				dx, dy := bi(0), bi(0)
				requests := 0
				for k, r := range s.post.deps {
					if k[0] == id && s.pre.deps[k].Status == types.RequestStatusNotExecuted && r.Status == types.RequestStatusSucceeded {
						dx, dy = add(dx, r.AcceptedCoins.AmountOf(pair.QuoteCoinDenom).BigInt()), add(dy, r.AcceptedCoins.AmountOf(pair.BaseCoinDenom).BigInt())
						requests++
					}
				}
				for k, r := range s.post.wds {
					if k[0] == id && s.pre.wds[k].Status == types.RequestStatusNotExecuted && r.Status == types.RequestStatusSucceeded {
						dx, dy = sub(dx, r.WithdrawnCoins.AmountOf(pair.QuoteCoinDenom).BigInt()), sub(dy, r.WithdrawnCoins.AmountOf(pair.BaseCoinDenom).BigInt())
						requests++
					}
				}
				// what remains are trades, as reported in events
				tx, ty := bi(0), bi(0)
				for _, e := range s.events {
					if e.Type != types.EventTypePoolOrderMatched || attr(e, types.AttributeKeyPoolId) != fmt.Sprint(id) {
						continue
					}
					for key, sign := range map[string]int64{types.AttributeKeyPaidCoin: -1, types.AttributeKeyReceivedCoin: 1} {
						cn, err := sdk.ParseCoinNormalized(attr(e, key))
						if err != nil {
							rt.Fatalf("event %v: %v", e, err)
						}
						if cn.Denom == pair.QuoteCoinDenom {
							tx = add(tx, mul(bi(sign), cn.Amount.BigInt()))
						} else {
							ty = add(ty, mul(bi(sign), cn.Amount.BigInt()))
						}
					}
				}
				if wx, wy := add(add(rx, dx), tx), add(add(ry, dy), ty); wx.Cmp(sx) != 0 || wy.Cmp(sy) != 0 {
					rt.Fatalf("pool %d goes from %s,%s to %s,%s: requests move %s,%s, trades %s,%s", id, rx, ry, sx, sy, dx, dy, tx, ty)
				}
				if tx.Sign() > 0 && ty.Sign() > 0 || tx.Sign() < 0 && ty.Sign() < 0 {
					rt.Fatalf("pool %d trades %s against %s", id, tx, ty)
				}
				fills := int64(0)
				if tx.Sign() != 0 || ty.Sign() != 0 {
					if info := s.infos[p.PairId]; info != nil {
						for i, o := range info.orders {
							if info.keys[i] == (key2{0, id}) {
								fills += int64(o.levels)
							}
						}
					}
					c.Label("trades")
				}
				if fills == 0 && requests == 0 {
					continue
				}
				c.NonTrivial()
				if qs.Sign() == 0 {
					c.Label("last pool coin") // it takes everything
				}
				// trades come first: every fill may cost up to one quote coin by
				// rounding, which a rising price leverages
				if fills > 0 && liquidity(p, rx, ry).Sign() > 0 {
					ux, uy := add(rx, tx), add(ry, ty)
					before, slack := liquidity(p, rx, ry), bi(fills)
					v := bf(bi(0))
					if p.Type == types.PoolTypeRanged {
						v = fquo(before, fsqrt(bfr(ratDec(*p.MaxPrice))))
					}
					if y0, y1 := fadd(bf(ry), v), fadd(bf(uy), v); y1.Sign() > 0 && y0.Cmp(y1) > 0 {
						f, _ := fmul(bf(slack), fquo(y0, y1)).Int(nil)
						slack = add(f, bi(1))
					}
					if r := fquo(liquidity(p, add(ux, slack), uy), before); r.Cmp(fsub(bf(bi(1)), fexp("1e-11"))) < 0 {
						q, _ := r.Float64()
						rt.Fatalf("trading lowers the value of %s pool %d by factor %v: %s,%s to %s,%s with %d fills", p.Type, id, q, rx, ry, ux, uy, fills)
					}
					rx, ry = ux, uy
				}
				if requests > 0 && ps.Sign() > 0 && qs.Sign() > 0 && liquidity(p, rx, ry).Sign() > 0 {
					if r := fquo(fmul(liquidity(p, sx, sy), bf(ps)), fmul(liquidity(p, rx, ry), bf(qs))); r.Cmp(fsub(bf(bi(1)), fexp("1e-15"))) < 0 {
						q, _ := r.Float64()
						rt.Fatalf("requests lower the value of a coin of %s pool %d by factor %v: %s,%s supply %s to %s,%s supply %s", p.Type, id, q, rx, ry, ps, sx, sy, qs)
					}
				}
			}
		}, nil}
	})
}

func attr(e sdk.Event, key string) string {
	for _, a := range e.Attributes {
		if a.Key == key {
			return a.Value
		}
	}
	return "missing"
}

// ---- C19 ----

func TestC19(t *testing.T) {
	cfg := worldCfg{ops: 45, weights: map[string]int{"limit": 32, "market": 6, "mm": 6, "deposit": 9, "withdraw": 9, "cancel": 8, "cancelAll": 3, "ranged": 4, "pool": 4, "pair": 3, "block": 16, "send": 2}}
	histTest(t, "bystanders", 1500, cfg, func(w *world, rt *rapid.T, c *Case) watcher {
		moved := 0
		return watcher{func(s *step) {
			if s.panicked != nil && s.kind != "msg" {
				return
			}
			touched := map[string]bool{}
			for a := range s.pre.bal {
				touched[a] = diffBal(s.pre, s.post, a) != ""
			}
			for a := range s.post.bal {
				touched[a] = diffBal(s.pre, s.post, a) != ""
			}
			if s.kind == "msg" && !s.accepted {
				if d := diffW(s.pre, s.post); len(d) > 0 {
					rt.Fatalf("rejected %s (%v) changes: %s", msgString(s.msg), s.err, d[0].text)
				}
				return
			}
			may := map[string]bool{}
			switch s.kind {
			case "send":
				return
			case "begin":
			case "msg":
				may[signerOf(s.msg)] = true
				var pair, pool uint64
				switch m := s.msg.(type) {
				case *types.MsgCreatePair:
					may[s.pre.prm.FeeCollectorAddress] = true
				case *types.MsgCreatePool:
					may[s.pre.prm.FeeCollectorAddress] = true
					may[s.post.pools[s.post.lastPool].ReserveAddress] = true
					pool = s.post.lastPool
				case *types.MsgCreateRangedPool:
					may[s.pre.prm.FeeCollectorAddress] = true
					may[s.post.pools[s.post.lastPool].ReserveAddress] = true
					pool = s.post.lastPool
				case *types.MsgDeposit:
					may[globalEscrow] = true
					pool = m.PoolId
				case *types.MsgWithdraw:
					may[globalEscrow] = true
					pool = m.PoolId
				case *types.MsgLimitOrder:
					pair = m.PairId
				case *types.MsgMarketOrder:
					pair = m.PairId
				case *types.MsgMMOrder:
					pair = m.PairId
				case *types.MsgCancelOrder:
					pair = m.PairId
				case *types.MsgCancelAllOrders:
					for _, id := range sortedU(s.pre.pairs) {
						if len(m.PairIds) == 0 {
							may[escrowOf(id)] = true
						}
					}
					for _, id := range m.PairIds {
						may[escrowOf(id)] = true
					}
				}
				if pair != 0 {
					may[escrowOf(pair)] = true
				}
				if _, ok := s.msg.(*types.MsgCancelAllOrders); !ok {
					for id, p := range s.post.pairs {
						if a, was := s.pre.pairs[id]; was && id != pair && a.String() != p.String() {
							rt.Fatalf("%s changes pair %d", msgString(s.msg), id)
						}
					}
				}
				for id, p := range s.post.pools {
					if a, was := s.pre.pools[id]; was && id != pool && a.String() != p.String() {
						rt.Fatalf("%s changes pool %d", msgString(s.msg), id)
					}
				}
				// the records of others
				for k, o := range s.pre.orders {
					if o.Orderer != signerOf(s.msg) && orderString(o) != orderString(s.post.orders[k]) {
						rt.Fatalf("%s changes order %v of %s", msgString(s.msg), k, userName(o.Orderer))
					}
				}
				for k, r := range s.pre.deps {
					if depString(r) != depString(s.post.deps[k]) {
						rt.Fatalf("%s changes deposit request %v", msgString(s.msg), k)
					}
				}
				for k, r := range s.pre.wds {
					if wdString(r) != wdString(s.post.wds[k]) {
						rt.Fatalf("%s changes withdraw request %v", msgString(s.msg), k)
					}
				}
				for k, n := range s.pre.mm {
					if k.addr != signerOf(s.msg) && s.post.mm[k] != n {
						rt.Fatalf("%s changes the number of orders of %s", msgString(s.msg), userName(k.addr))
					}
				}
			case "end":
				checkPayouts(rt, w, s)
				for _, u := range w.users {
					may[u] = true // as due
				}
				for id, p := range s.pre.pools {
					may[p.ReserveAddress] = !p.Disabled
					_ = id
				}
				for id := range s.pre.pairs {
					may[escrowOf(id)] = true
				}
				may[globalEscrow] = true
				may[s.pre.prm.DustCollectorAddress] = true
				for d, x := range s.pre.bal[s.pre.prm.DustCollectorAddress] {
					if s.post.balOf(s.pre.prm.DustCollectorAddress, d).Cmp(x) < 0 {
						rt.Fatalf("the dust collector pays %s", d)
					}
				}
			}
			for a, x := range touched {
				if x && !may[a] {
					rt.Fatalf("%s %s moves coins of %s: %s", s.kind, msgString(s.msg), userName(a), diffBal(s.pre, s.post, a))
				}
				if x {
					moved++
				}
			}
			if moved >= 6 {
				c.NonTrivial()
			}
		}, nil}
	})
	// leaving out everything concerning one pair does not change another pair
	prop(t, "isolation", 700, func(rt *rapid.T, c *Case) {
		cfg := worldCfg{ops: 40, twoPairs: true, noPoor: true, weights: map[string]int{"limit": 40, "market": 6, "mm": 6, "deposit": 8, "withdraw": 8, "cancel": 5, "cancelAll": 0, "ranged": 0, "pool": 0, "pair": 0, "block": 14, "send": 0}}
		var ops []*step
		w := newWorld(rt, c, cfg, func(s *step) { ops = append(ops, s) })
		w.play()
		keep := pick(rt, []uint64{1, 2}, "keep")
		app, ctx := branch()
		replay(rt, w, app, ctx, ops, func(s *step) bool {
			if s.kind != "msg" {
				return true
			}
			switch m := s.msg.(type) {
			case *types.MsgLimitOrder:
				return m.PairId == keep
			case *types.MsgMarketOrder:
				return m.PairId == keep
			case *types.MsgMMOrder:
				return m.PairId == keep
			case *types.MsgCancelOrder:
				return m.PairId == keep
			case *types.MsgDeposit:
				return w.cur.pools[m.PoolId].PairId == keep
			case *types.MsgWithdraw:
				return w.cur.pools[m.PoolId].PairId == keep
			}
			return true
		})
		got := snapshot(app, ctx)
		a, b := got.part(keep), w.cur.part(keep)
		d := diffW(b, a)
		for _, x := range d {
			rt.Fatalf("without the other pair's messages: %s", x.text)
		}
		if p := w.cur.pairs[keep]; p.LastPrice != nil && w.cur.pairs[3-keep].LastPrice != nil {
			c.NonTrivial()
			c.Label("both pairs trade")
		}
	})
}

// part is the state of one pair without balances of users.
func (w *W) part(pair uint64) *W {
	n := w.clone()
	for id := range n.pairs {
		if id != pair {
			delete(n.pairs, id)
		}
	}
	keepAddr := map[string]bool{escrowOf(pair): true}
	for id, p := range n.pools {
		if p.PairId != pair {
			delete(n.pools, id)
		} else {
			keepAddr[p.ReserveAddress] = true
		}
	}
	for k := range n.orders {
		if k[0] != pair {
			delete(n.orders, k)
		}
	}
	for k := range n.deps {
		if _, ok := n.pools[k[0]]; !ok {
			delete(n.deps, k)
		}
	}
	for k := range n.wds {
		if _, ok := n.pools[k[0]]; !ok {
			delete(n.wds, k)
		}
	}
	for k := range n.mm {
		if k.pair != pair {
			delete(n.mm, k)
		}
	}
	for a := range n.bal {
		if !keepAddr[a] {
			delete(n.bal, a)
		}
	}
	for d := range n.supply {
		ok := false
		for _, p := range n.pools {
			ok = ok || p.PoolCoinDenom == d
		}
		if !ok {
			delete(n.supply, d)
		}
	}
	return n
}

// ---- C28 ----

type invRoutes map[string]sdk.Invariant

func (r invRoutes) RegisterRoute(module, route string, inv sdk.Invariant) { r[module+"/"+route] = inv }

func TestC28(t *testing.T) {
	names := []string{"deposit-coins-escrow", "pool-coin-escrow", "remaining-offer-coin-escrow", "pool-status", "num-mm-orders"}
	cfg := worldCfg{ops: 40, weights: map[string]int{"limit": 26, "market": 4, "mm": 14, "deposit": 12, "withdraw": 12, "cancel": 4, "cancelAll": 2, "ranged": 4, "pool": 4, "pair": 2, "block": 15, "send": 4}}
	histTest(t, "history", 1400, cfg, func(w *world, rt *rapid.T, c *Case) watcher {
		routes := invRoutes{}
		keeper.RegisterInvariants(routes, w.app.DexKeeper)
		crisis := invRoutes{}
		for _, r := range w.app.CrisisKeeper.Routes() {
			crisis[r.ModuleName+"/"+r.Route] = r.Invar
		}
		for _, n := range names {
			if routes["dex/"+n] == nil {
				rt.Fatalf("invariant %s is not registered by the module", n)
			}
			if crisis["dex/"+n] == nil {
				rt.Fatalf("invariant %s is not registered with the crisis module", n)
			}
		}
		broken := func(ctx sdk.Context, n string) bool {
			msg, bad := routes["dex/"+n](ctx)
			msg2, bad2 := crisis["dex/"+n](ctx)
			if bad != bad2 || msg != msg2 {
				rt.Fatalf("invariant %s: %v %s / %v %s", n, bad, msg, bad2, msg2)
			}
			return bad
		}
		donated := &W{bal: map[string]map[string]*big.Int{}}
		corrupt := func(s *step) {
			ctx, _ := s.ctx.CacheContext()
			k := w.app.DexKeeper
			steal := func(from string, need sdk.Coins, route string) {
				if need.IsZero() {
					return
				}
				d := pick(rt, need.Denoms(), "stolen")
				// donations are not missed
				amt := add(sub(s.post.balOf(from, d), need.AmountOf(d).BigInt()), bi(1))
				if rare(rt, 3, "more") {
					amt = s.post.balOf(from, d)
				}
				must(w.app.BankKeeper.SendCoins(ctx, sdk.MustAccAddressFromBech32(from), addrN(99), sdk.NewCoins(sdk.NewCoin(d, toInt(amt)))))
				c.Logf("corrupt: take %s%s from %s", amt, d, from)
				if !broken(ctx, route) {
					rt.Fatalf("%s%s are missing in %s, %s does not report it", amt, d, from, route)
				}
				c.Label("corrupted " + route)
				c.NonTrivial()
			}
			kind := uni(rt, 0, 4, "corruption")
			switch kind {
			case 0:
				var need sdk.Coins
				for _, r := range s.post.deps {
					if r.Status == types.RequestStatusNotExecuted {
						need = need.Add(r.DepositCoins...)
					}
				}
				steal(globalEscrow, need, "deposit-coins-escrow")
			case 1:
				var need sdk.Coins
				for _, r := range s.post.wds {
					if r.Status == types.RequestStatusNotExecuted {
						need = need.Add(r.PoolCoin)
					}
				}
				steal(globalEscrow, need, "pool-coin-escrow")
			case 2:
				for _, id := range sortedU(s.post.pairs) {
					var need sdk.Coins
					for _, o := range s.post.orders {
						if o.PairId == id && open(o) {
							need = need.Add(o.RemainingOfferCoin)
						}
					}
					if !need.IsZero() {
						steal(escrowOf(id), need, "remaining-offer-coin-escrow")
						return
					}
				}
			case 3:
				ids := sortedU(s.post.pools)
				if len(ids) == 0 {
					return
				}
				p := s.post.pools[pick(rt, ids, "pool")]
				// destroy all pool coins, wherever they are
				for a, m := range s.post.bal {
					if x := m[p.PoolCoinDenom]; x != nil {
						must(w.app.BankKeeper.SendCoinsFromAccountToModule(ctx, sdk.MustAccAddressFromBech32(a), types.ModuleName, sdk.NewCoins(sdk.NewCoin(p.PoolCoinDenom, toInt(x)))))
						must(w.app.BankKeeper.BurnCoins(ctx, types.ModuleName, sdk.NewCoins(sdk.NewCoin(p.PoolCoinDenom, toInt(x)))))
					}
				}
				p.Disabled = false
				k.SetPool(ctx, p)
				c.Logf("corrupt: pool %d enabled without pool coins", p.Id)
				if !broken(ctx, "pool-status") {
					rt.Fatalf("pool %d is enabled without pool coins, pool-status does not report it", p.Id)
				}
				c.Label("corrupted pool-status")
				c.NonTrivial()
				p.Disabled = true
				k.SetPool(ctx, p)
				if broken(ctx, "pool-status") {
					rt.Fatalf("pool-status reports disabled pool %d", p.Id)
				}
			case 4:
				u, pair := sdk.MustAccAddressFromBech32(w.user("mmUser")), pick(rt, []uint64{1, 2}, "mmPair")
				n := s.post.mm[mmKey{u.String(), pair}]
				x := uint32(uni(rt, 0, int64(n)+2, "count"))
				if x == n {
					x++
				}
				if x == 0 && rapid.Bool().Draw(rt, "delete") {
					k.DeleteNumMMOrders(ctx, u, pair)
				} else {
					k.SetNumMMOrders(ctx, u, pair, x)
				}
				c.Logf("corrupt: %d market making orders of %s recorded, %d are open", x, userName(u.String()), n)
				if !broken(ctx, "num-mm-orders") {
					rt.Fatalf("%d market making orders of %s recorded, %d are open, num-mm-orders does not report it", x, userName(u.String()), n)
				}
				c.Label("corrupted num-mm-orders")
				c.NonTrivial()
			}
		}
		return watcher{func(s *step) {
			if s.panicked != nil && s.kind != "msg" {
				return
			}
			if s.kind == "send" && s.accepted {
				m := s.msg.(*banktypes.MsgSend)
				donated.addBal(m.ToAddress, m.Amount[0].Denom, m.Amount[0].Amount.BigInt())
			}
			for _, n := range names {
				msg, bad := routes["dex/"+n](s.ctx)
				if bad {
					rt.Fatalf("after %s: invariant %s: %s", s.kind, n, msg)
				}
			}
			if _, bad := keeper.AllInvariants(w.app.DexKeeper)(s.ctx); bad {
				rt.Fatalf("after %s: AllInvariants reports broken", s.kind)
			}
			if rare(rt, 7, "corrupt") {
				corrupt(s)
			}
		}, nil}
	})
}

// ---- C29 ----

func evKey(typ string, kv ...string) string {
	return typ + " " + strings.Join(kv, " ")
}

// dexEvents renders the module's own events of a step.
func dexEvents(evs []sdk.Event) (out []string) {
	for _, e := range evs {
		if !dexEventTypes[e.Type] {
			continue
		}
		var kv []string
		for _, a := range e.Attributes {
			if a.Key == "msg_index" {
				continue
			}
			kv = append(kv, a.Key+"="+a.Value)
		}
		out = append(out, evKey(e.Type, kv...))
	}
	return
}

var dexEventTypes = map[string]bool{}

func init() {
	for _, n := range []string{"create_pair", "create_pool", "create_ranged_pool", "deposit", "withdraw", "limit_order", "market_order", "mm_order", "cancel_order",
		"cancel_all_orders", "cancel_mm_order", "deposit_result", "withdrawal_result", "order_result", "user_order_matched", "pool_order_matched"} {
		dexEventTypes[n] = true
	}
}

func orderResult(o types.Order) string {
	return evKey("order_result", "order_direction="+o.Direction.String(), "orderer="+o.Orderer, fmt.Sprintf("pair_id=%d", o.PairId), fmt.Sprintf("order_id=%d", o.Id),
		"amount="+o.Amount.String(), "open_amount="+o.OpenAmount.String(), "offer_coin="+o.OfferCoin.String(), "remaining_offer_coin="+o.RemainingOfferCoin.String(),
		"received_coin="+o.ReceivedCoin.String(), "status="+o.Status.String())
}

// msgEvents is what an accepted message has to report.
func msgEvents(s *step) (out []string) {
	for _, k := range sortedK2(s.post.orders) {
		if a, was := s.pre.orders[k]; was && open(a) && !open(s.post.orders[k]) {
			out = append(out, orderResult(s.post.orders[k]))
		}
	}
	placed := func(typ string, offer sdk.Coin, demand string) string {
		for k, o := range s.post.orders {
			if _, was := s.pre.orders[k]; was {
				continue
			}
			refund := offer.Amount.Sub(o.OfferCoin.Amount)
			return evKey(typ, "orderer="+o.Orderer, fmt.Sprintf("pair_id=%d", o.PairId), "order_direction="+o.Direction.String(), "offer_coin="+o.OfferCoin.String(),
				"demand_coin_denom="+demand, "price="+o.Price.String(), "amount="+o.Amount.String(), fmt.Sprintf("order_id=%d", o.Id), fmt.Sprintf("batch_id=%d", o.BatchId),
				"expire_at="+o.ExpireAt.UTC().Format(time.RFC3339), "refunded_coins="+sdk.Coin{Denom: offer.Denom, Amount: refund}.String())
		}
		return "no order"
	}
	switch m := s.msg.(type) {
	case *types.MsgCreatePair:
		p := s.post.pairs[s.post.lastPair]
		out = append(out, evKey("create_pair", "creator="+m.Creator, "base_coin_denom="+p.BaseCoinDenom, "quote_coin_denom="+p.QuoteCoinDenom, fmt.Sprintf("pair_id=%d", p.Id), "escrow_address="+p.EscrowAddress))
	case *types.MsgCreatePool:
		p := s.post.pools[s.post.lastPool]
		out = append(out, evKey("create_pool", "creator="+p.Creator, fmt.Sprintf("pair_id=%d", p.PairId), "deposit_coins="+m.DepositCoins.String(), fmt.Sprintf("pool_id=%d", p.Id),
			"reserve_address="+p.ReserveAddress, fmt.Sprintf("minted_pool_coin=%s%s", s.post.supplyOf(p.PoolCoinDenom), p.PoolCoinDenom)))
	case *types.MsgCreateRangedPool:
		p := s.post.pools[s.post.lastPool]
		out = append(out, evKey("create_ranged_pool", "creator="+p.Creator, fmt.Sprintf("pair_id=%d", p.PairId), "deposit_coins="+m.DepositCoins.String(), fmt.Sprintf("pool_id=%d", p.Id),
			"reserve_address="+p.ReserveAddress, fmt.Sprintf("minted_pool_coin=%s%s", s.post.supplyOf(p.PoolCoinDenom), p.PoolCoinDenom)))
	case *types.MsgDeposit:
		p := s.post.pools[m.PoolId]
		r := s.post.deps[key2{p.Id, p.LastDepositRequestId}]
		out = append(out, evKey("deposit", "depositor="+r.Depositor, fmt.Sprintf("pool_id=%d", r.PoolId), "deposit_coins="+r.DepositCoins.String(), fmt.Sprintf("request_id=%d", r.Id)))
	case *types.MsgWithdraw:
		p := s.post.pools[m.PoolId]
		r := s.post.wds[key2{p.Id, p.LastWithdrawRequestId}]
		out = append(out, evKey("withdraw", "withdrawer="+r.Withdrawer, fmt.Sprintf("pool_id=%d", r.PoolId), "pool_coin="+r.PoolCoin.String(), fmt.Sprintf("request_id=%d", r.Id)))
	case *types.MsgLimitOrder:
		out = append(out, placed("limit_order", m.OfferCoin, m.DemandCoinDenom))
	case *types.MsgMarketOrder:
		out = append(out, placed("market_order", m.OfferCoin, m.DemandCoinDenom))
	case *types.MsgMMOrder:
		out = append(out, placed("mm_order", m.OfferCoin, m.DemandCoinDenom))
	case *types.MsgCancelOrder:
		out = append(out, evKey("cancel_order", "orderer="+m.Orderer, fmt.Sprintf("pair_id=%d", m.PairId), fmt.Sprintf("order_id=%d", m.OrderId)))
	case *types.MsgCancelAllOrders:
		var ids, canceled []string
		for _, id := range m.PairIds {
			ids = append(ids, strconv.FormatUint(id, 10))
		}
		for _, k := range sortedK2(s.post.orders) {
			if a, was := s.pre.orders[k]; was && open(a) && !open(s.post.orders[k]) {
				canceled = append(canceled, strconv.FormatUint(k[1], 10))
			}
		}
		out = append(out, evKey("cancel_all_orders", "orderer="+m.Orderer, "pair_ids="+strings.Join(ids, ","), "canceled_order_ids="+strings.Join(canceled, ",")))
	}
	return
}

// endEvents is what the end of a block has to report, by the actual changes
// of records and balances.
func endEvents(s *step) (out []string) {
	for _, k := range sortedK2(s.post.orders) {
		a, b := s.pre.orders[k], s.post.orders[k]
		if m := a.OpenAmount.Sub(b.OpenAmount); m.IsPositive() {
			out = append(out, evKey("user_order_matched", "order_direction="+b.Direction.String(), "orderer="+b.Orderer, fmt.Sprintf("pair_id=%d", b.PairId), fmt.Sprintf("order_id=%d", b.Id),
				"matched_amount="+m.String(), "paid_coin="+a.RemainingOfferCoin.Sub(b.RemainingOfferCoin).String(), "received_coin="+b.ReceivedCoin.Sub(a.ReceivedCoin).String()))
		}
		if open(a) && !open(b) {
			out = append(out, orderResult(b))
		}
	}
	for _, k := range sortedK2(s.post.deps) {
		a, b := s.pre.deps[k], s.post.deps[k]
		if a.Status == types.RequestStatusNotExecuted && b.Status != a.Status {
			out = append(out, evKey("deposit_result", fmt.Sprintf("request_id=%d", b.Id), "depositor="+b.Depositor, fmt.Sprintf("pool_id=%d", b.PoolId), "deposit_coins="+b.DepositCoins.String(),
				"accepted_coins="+b.AcceptedCoins.String(), "refunded_coins="+b.DepositCoins.Sub(b.AcceptedCoins...).String(), "minted_pool_coin="+b.MintedPoolCoin.String(), "status="+b.Status.String()))
		}
	}
	for _, k := range sortedK2(s.post.wds) {
		a, b := s.pre.wds[k], s.post.wds[k]
		if a.Status == types.RequestStatusNotExecuted && b.Status != a.Status {
			refund := ""
			if b.Status == types.RequestStatusFailed {
				refund = b.PoolCoin.String()
			}
			out = append(out, evKey("withdrawal_result", fmt.Sprintf("request_id=%d", b.Id), "withdrawer="+b.Withdrawer, fmt.Sprintf("pool_id=%d", b.PoolId), "pool_coin="+b.PoolCoin.String(),
				"refunded_coins="+refund, "withdrawn_coins="+b.WithdrawnCoins.String(), "status="+b.Status.String()))
		}
	}
	return
}

func sameSet(a, b []string) string {
	n := map[string]int{}
	for _, x := range a {
		n[x]++
	}
	for _, x := range b {
		n[x]--
	}
	for _, k := range sortedS(n) {
		if n[k] > 0 {
			return fmt.Sprintf("%d x reported without having happened: %s", n[k], k)
		}
		if n[k] < 0 {
			return fmt.Sprintf("%d x not reported: %s", -n[k], k)
		}
	}
	return ""
}

func TestC29(t *testing.T) {
	cfg := worldCfg{ops: 40, weights: map[string]int{"limit": 30, "market": 6, "mm": 8, "deposit": 8, "withdraw": 8, "cancel": 6, "cancelAll": 5, "ranged": 4, "pool": 4, "pair": 2, "block": 16, "send": 1}}
	histTest(t, "history", 1600, cfg, func(w *world, rt *rapid.T, c *Case) watcher {
		kinds := map[string]bool{}
		return watcher{func(s *step) {
			if s.panicked != nil {
				return
			}
			got := dexEvents(s.events)
			for _, e := range s.events {
				if dexEventTypes[e.Type] {
					kinds[e.Type] = true
				}
			}
			if len(kinds) >= 4 {
				c.NonTrivial()
			}
			switch s.kind {
			case "send", "begin":
				if len(got) > 0 {
					rt.Fatalf("%s reports %s", s.kind, got[0])
				}
			case "msg":
				if !s.accepted {
					return
				}
				if d := sameSet(got, msgEvents(s)); d != "" {
					rt.Fatalf("%s: %s\nreported %s", msgString(s.msg), d, strings.Join(got, "\n"))
				}
			case "end":
				var users, pools []string
				for _, g := range got {
					if strings.HasPrefix(g, "pool_order_matched ") {
						pools = append(pools, g)
					} else {
						users = append(users, g)
					}
				}
				if d := sameSet(users, endEvents(s)); d != "" {
					rt.Fatalf("end block: %s", d)
				}
				if !s.matchingAgrees() {
					return
				}
				// pools: by the changes of the reserves, less the requests, as matching agrees with the model
				var want []string
				for _, id := range sortedU(s.infos) {
					info := s.infos[id]
					pair := s.pre.pairs[id]
					if !info.matched {
						continue
					}
					for _, pid := range sortedU(s.pre.pools) {
						for _, buy := range []bool{true, false} {
							amt, paid, recv := bi(0), bi(0), bi(0)
							for i, o := range info.orders {
								if info.keys[i] == (key2{0, pid}) && o.buy == buy {
									amt, paid, recv = add(amt, sub(o.amt, o.open)), add(paid, o.paid), add(recv, o.recv)
								}
							}
							if amt.Sign() == 0 {
								continue
							}
							dir, of, de := types.OrderDirectionSell, pair.BaseCoinDenom, pair.QuoteCoinDenom
							if buy {
								dir, of, de = types.OrderDirectionBuy, de, of
							}
							want = append(want, evKey("pool_order_matched", "order_direction="+dir.String(), fmt.Sprintf("pair_id=%d", id), fmt.Sprintf("pool_id=%d", pid),
								"matched_amount="+amt.String(), "paid_coin="+sdk.Coin{Denom: of, Amount: toInt(paid)}.String(), "received_coin="+sdk.Coin{Denom: de, Amount: toInt(recv)}.String()))
						}
					}
				}
				if d := sameSet(pools, want); d != "" {
					rt.Fatalf("end block: %s", d)
				}
			}
		}, nil}
	})
}

var _ = math.ZeroInt
