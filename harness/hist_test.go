package zverif

import (
	"math/big"
	"sort"
	"testing"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"pgregory.net/rapid"

	dex "defund/x/dex/module"
	"defund/x/dex/types"
)

// watcher judges the steps of one history.
type watcher struct {
	step func(s *step)
	end  func()
}

// histTest runs generated histories under the watcher of a property.
func histTest(t *testing.T, name string, n int, cfg worldCfg, mk func(w *world, rt *rapid.T, c *Case) watcher) {
	prop(t, name, n, func(rt *rapid.T, c *Case) {
		var wt watcher
		w := newWorld(rt, c, cfg, func(s *step) { wt.step(s) })
		wt = mk(w, rt, c)
		w.play()
		if wt.end != nil {
			wt.end()
		}
	})
}

func (s *step) has(cats ...string) bool { return s.diffText(cats...) != "" }

// matchingAgrees tells that matching ended as the model says.
func (s *step) matchingAgrees() bool { return s.panicked == nil && !s.has("order", "pair") }

func (s *step) pendingRequests() bool {
	for _, r := range s.pre.deps {
		if r.Status == types.RequestStatusNotExecuted {
			return true
		}
	}
	for _, r := range s.pre.wds {
		if r.Status == types.RequestStatusNotExecuted {
			return true
		}
	}
	return false
}

func open(o types.Order) bool { return !finished(o.Status) }

func ofMsg[T any](s *step) (m T, ok bool) {
	if s.kind != "msg" {
		return m, false
	}
	m, ok = s.msg.(T)
	return
}

func isOrderMsg(m sdk.Msg) bool {
	switch m.(type) {
	case *types.MsgLimitOrder, *types.MsgMarketOrder, *types.MsgMMOrder:
		return true
	}
	return false
}

func signerOf(m sdk.Msg) string {
	switch m := m.(type) {
	case *types.MsgCreatePair:
		return m.Creator
	case *types.MsgCreatePool:
		return m.Creator
	case *types.MsgCreateRangedPool:
		return m.Creator
	case *types.MsgDeposit:
		return m.Depositor
	case *types.MsgWithdraw:
		return m.Withdrawer
	case *types.MsgLimitOrder:
		return m.Orderer
	case *types.MsgMarketOrder:
		return m.Orderer
	case *types.MsgMMOrder:
		return m.Orderer
	case *types.MsgCancelOrder:
		return m.Orderer
	case *types.MsgCancelAllOrders:
		return m.Orderer
	case *types.MsgUpdateParams:
		return m.Authority
	case *banktypes.MsgSend:
		return m.FromAddress
	}
	return ""
}

// judge fails when an operation's outcome differs from the model's.
func judge(rt *rapid.T, s *step, cats ...string) {
	if s.accepted != s.expOK {
		rt.Fatalf("%s: accepted %v (%v), expected %v", msgString(s.msg), s.accepted, s.err, s.expOK)
	}
	if d := s.diffText(cats...); d != "" {
		rt.Fatalf("%s:\n%s", msgString(s.msg), d)
	}
}

// ---- C12 ----

func TestC12(t *testing.T) {
	cfg := worldCfg{ops: 40, weights: map[string]int{"limit": 40, "market": 16, "mm": 16, "deposit": 1, "withdraw": 1, "ranged": 2, "pool": 2, "block": 12}}
	histTest(t, "history", 1600, cfg, func(w *world, rt *rapid.T, c *Case) watcher {
		yes, no := 0, 0
		return watcher{func(s *step) {
			if s.kind != "msg" || !isOrderMsg(s.msg) {
				return
			}
			cats := []string{"params", "ids", "pair", "pool", "order", "dep", "wd", "bal", "supply"}
			if m, ok := s.msg.(*types.MsgMMOrder); ok {
				if s.pre.mm[mmKey{m.Orderer, m.PairId}] >= s.pre.prm.MaxNumMarketMakingOrdersPerPair {
					return // C18
				}
			} else {
				cats = append(cats, "mm")
			}
			judge(rt, s, cats...)
			if s.accepted {
				yes++
			} else {
				no++
			}
			if yes >= 3 && no >= 1 {
				c.NonTrivial()
			}
		}, nil}
	})
}

// ---- C13 ----

// checkLifecycle judges how orders move from one step to the next by the
// documented life of an order, independently of the model.
func checkLifecycle(rt *rapid.T, c *Case, s *step, batchExecuted bool) {
	for _, k := range sortedK2(s.pre.orders) {
		a := s.pre.orders[k]
		b, there := s.post.orders[k]
		if !there {
			if s.kind != "begin" || open(a) {
				rt.Fatalf("order %v {%s} disappears", k, orderString(a))
			}
			c.Label("order removed")
			continue
		}
		if s.kind == "begin" && !open(a) {
			rt.Fatalf("ended order %v {%s} is still there", k, orderString(a))
		}
		if a.Type != b.Type || a.Orderer != b.Orderer || a.Direction != b.Direction || !a.OfferCoin.Equal(b.OfferCoin) || !a.Price.Equal(b.Price) ||
			!a.Amount.Equal(b.Amount) || a.BatchId != b.BatchId || !a.ExpireAt.Equal(b.ExpireAt) || a.MsgHeight != b.MsgHeight || a.Id != b.Id || a.PairId != b.PairId {
			rt.Fatalf("the terms of order %v change from {%s} to {%s}", k, orderString(a), orderString(b))
		}
		if !open(a) {
			if orderString(a) != orderString(b) {
				rt.Fatalf("ended order %v changes from {%s} to {%s}", k, orderString(a), orderString(b))
			}
			continue
		}
		filled := b.OpenAmount.LT(a.OpenAmount)
		if b.OpenAmount.GT(a.OpenAmount) || b.OpenAmount.IsNegative() || b.RemainingOfferCoin.Amount.GT(a.RemainingOfferCoin.Amount) ||
			b.ReceivedCoin.Amount.LT(a.ReceivedCoin.Amount) {
			rt.Fatalf("order %v changes from {%s} to {%s}", k, orderString(a), orderString(b))
		}
		if filled && (b.ReceivedCoin.Amount.Equal(a.ReceivedCoin.Amount) || b.RemainingOfferCoin.Amount.Equal(a.RemainingOfferCoin.Amount)) ||
			!filled && (!b.ReceivedCoin.IsEqual(a.ReceivedCoin) || !b.RemainingOfferCoin.IsEqual(a.RemainingOfferCoin)) {
			rt.Fatalf("order %v changes from {%s} to {%s}", k, orderString(a), orderString(b))
		}
		if !batchExecuted {
			ok := orderString(a) == orderString(b)
			if s.kind == "msg" && b.Status == types.OrderStatusCanceled && !filled {
				ok = true // C14
				c.Label("canceled")
			}
			if !ok {
				rt.Fatalf("order %v changes from {%s} to {%s} in %s", k, orderString(a), orderString(b), s.kind)
			}
			continue
		}
		late := !s.mc.now.Before(a.ExpireAt)
		if late && a.Status != types.OrderStatusNotExecuted {
			if filled {
				rt.Fatalf("expired order %v {%s} is matched at %s", k, orderString(a), s.mc.now)
			}
			if b.Status != types.OrderStatusExpired {
				rt.Fatalf("order %v {%s} is not expired at %s", k, orderString(b), s.mc.now)
			}
			c.Label("expired before matching")
			continue
		}
		want := types.OrderStatusNotMatched
		if filled || a.Status == types.OrderStatusPartiallyMatched {
			want = types.OrderStatusPartiallyMatched
		}
		switch {
		case b.OpenAmount.IsZero():
			want = types.OrderStatusCompleted
			c.Label("completed")
		case late:
			want = types.OrderStatusExpired
			c.Label("expired after its only batch")
		case tooSmall(b.OpenAmount, b.Price):
			want = types.OrderStatusExpired
			c.Label("rest too small")
		}
		if b.Status != want {
			rt.Fatalf("order %v {%s} at %s, expected %s", k, orderString(b), s.mc.now, want)
		}
	}
}

// payouts is what the users are due in a step by the changes of their records.
func payouts(s *step) map[string]map[string]*big.Int {
	d := &W{bal: map[string]map[string]*big.Int{}}
	for k, b := range s.post.orders {
		a, was := s.pre.orders[k]
		if !was {
			continue
		}
		d.addBal(b.Orderer, b.ReceivedCoin.Denom, sub(b.ReceivedCoin.Amount.BigInt(), a.ReceivedCoin.Amount.BigInt()))
		if open(a) && !open(b) {
			d.addBal(b.Orderer, b.RemainingOfferCoin.Denom, b.RemainingOfferCoin.Amount.BigInt())
		}
	}
	for k, b := range s.post.deps {
		if a, was := s.pre.deps[k]; !was || a.Status != types.RequestStatusNotExecuted || b.Status == types.RequestStatusNotExecuted {
			continue
		}
		for _, cn := range b.DepositCoins {
			d.addBal(b.Depositor, cn.Denom, cn.Amount.BigInt())
		}
		if b.Status == types.RequestStatusSucceeded {
			for _, cn := range b.AcceptedCoins {
				d.addBal(b.Depositor, cn.Denom, new(big.Int).Neg(cn.Amount.BigInt()))
			}
			d.addBal(b.Depositor, b.MintedPoolCoin.Denom, b.MintedPoolCoin.Amount.BigInt())
		}
	}
	for k, b := range s.post.wds {
		if a, was := s.pre.wds[k]; !was || a.Status != types.RequestStatusNotExecuted || b.Status == types.RequestStatusNotExecuted {
			continue
		}
		if b.Status == types.RequestStatusSucceeded {
			for _, cn := range b.WithdrawnCoins {
				d.addBal(b.Withdrawer, cn.Denom, cn.Amount.BigInt())
			}
		} else {
			d.addBal(b.Withdrawer, b.PoolCoin.Denom, b.PoolCoin.Amount.BigInt())
		}
	}
	return d.bal
}

// checkPayouts compares the change of the users' balances with what they are due.
func checkPayouts(rt *rapid.T, w *world, s *step) {
	due := payouts(s)
	for _, u := range w.users {
		denoms := map[string]bool{}
		for _, m := range []map[string]*big.Int{due[u], s.pre.bal[u], s.post.bal[u]} {
			for d := range m {
				denoms[d] = true
			}
		}
		for _, d := range sortedS(denoms) {
			want := bi(0)
			if x := due[u][d]; x != nil {
				want = x
			}
			if got := sub(s.post.balOf(u, d), s.pre.balOf(u, d)); got.Cmp(want) != 0 {
				rt.Fatalf("%s gets %s%s in %s, due are %s", userName(u), got, d, s.kind, want)
			}
		}
	}
}

func sortedS[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func TestC13(t *testing.T) {
	cfg := worldCfg{ops: 45, weights: map[string]int{"limit": 40, "market": 8, "mm": 10, "deposit": 1, "withdraw": 1, "cancel": 6, "cancelAll": 3, "ranged": 2, "pool": 2, "block": 22}}
	histTest(t, "history", 1600, cfg, func(w *world, rt *rapid.T, c *Case) watcher {
		var young map[key2]types.Order // how the orders fare when the new ones expire later
		w.before = func(msg sdk.Msg) {
			young = nil
			if msg != nil || w.height%int64(w.cur.prm.BatchSize) != 0 {
				return
			}
			var late []types.Order
			for _, k := range sortedK2(w.cur.orders) {
				if o := w.cur.orders[k]; o.Status == types.OrderStatusNotExecuted && !w.now.Before(o.ExpireAt) {
					late = append(late, o)
				}
			}
			if len(late) == 0 {
				return
			}
			fork, _ := w.ctx.CacheContext()
			for _, o := range late {
				o.ExpireAt = w.now.Add(time.Hour)
				w.app.DexKeeper.SetOrder(fork, o)
			}
			if tryCall(func() { dex.EndBlocker(fork, w.app.DexKeeper) }) == nil {
				young = snapshot(w.app, fork).orders
			}
		}
		return watcher{func(s *step) {
			exec := s.kind == "end" && s.mc.height%int64(s.pre.prm.BatchSize) == 0
			if s.panicked != nil && s.kind != "msg" {
				return // C11
			}
			if s.kind == "end" && young != nil {
				for _, k := range sortedK2(s.post.orders) {
					a, b := young[k], s.post.orders[k]
					if !a.OpenAmount.Equal(b.OpenAmount) || !a.ReceivedCoin.IsEqual(b.ReceivedCoin) || !a.RemainingOfferCoin.IsEqual(b.RemainingOfferCoin) {
						rt.Fatalf("order %v: {%s}; it is {%s} when the orders of this batch expire later", k, orderString(b), orderString(a))
					}
					if was := s.pre.orders[k]; was.Status == types.OrderStatusNotExecuted && !s.mc.now.Before(was.ExpireAt) && b.OpenAmount.LT(was.OpenAmount) {
						c.Label("matched in its only batch")
						if s.mc.now.After(was.ExpireAt) {
							c.Label("matched in its only batch, after the expiry time")
						}
					}
				}
			}
			checkLifecycle(rt, c, s, exec)
			if s.kind == "end" {
				checkPayouts(rt, w, s)
				if s.matchingAgrees() {
					for _, o := range s.post.orders {
						if a, was := s.pre.orders[key2{o.PairId, o.Id}]; was && open(a) && !open(o) {
							c.NonTrivial()
						}
					}
				}
			}
			if s.kind == "begin" && s.has("order") {
				rt.Fatalf("begin block:\n%s", s.diffText("order"))
			}
			for k := range s.post.orders {
				if _, was := s.pre.orders[k]; !was && s.kind != "msg" {
					rt.Fatalf("order %v appears in %s", k, s.kind)
				}
			}
		}, nil}
	})
}

// ---- C14 ----

func TestC14(t *testing.T) {
	cfg := worldCfg{ops: 45, weights: map[string]int{"limit": 30, "market": 4, "mm": 10, "deposit": 1, "withdraw": 1, "cancel": 22, "cancelAll": 10, "ranged": 1, "pool": 1, "block": 14}}
	histTest(t, "history", 1600, cfg, func(w *world, rt *rapid.T, c *Case) watcher {
		return watcher{func(s *step) {
			if s.kind != "msg" {
				return
			}
			switch s.msg.(type) {
			case *types.MsgCancelOrder, *types.MsgCancelAllOrders:
			default:
				return
			}
			judge(rt, s, "params", "ids", "pair", "pool", "order", "dep", "wd", "bal", "supply")
			n := 0
			for k, o := range s.post.orders {
				if open(s.pre.orders[k]) && !open(o) {
					n++
					if o.Orderer != signerOf(s.msg) {
						rt.Fatalf("%s ends the order %v of %s", msgString(s.msg), k, userName(o.Orderer))
					}
				}
			}
			if n > 0 {
				c.NonTrivial()
				c.Label("orders canceled")
			}
			if n > 1 {
				c.Label("several orders canceled")
			}
		}, nil}
	})
}

// ---- C15 ----

func TestC15(t *testing.T) {
	cfg := worldCfg{ops: 40, rich: 41, weights: map[string]int{"limit": 14, "market": 3, "mm": 2, "deposit": 22, "withdraw": 22, "cancel": 1, "cancelAll": 1, "ranged": 5, "pool": 4, "block": 16}}
	histTest(t, "history", 1600, cfg, func(w *world, rt *rapid.T, c *Case) watcher {
		return watcher{func(s *step) {
			switch s.kind {
			case "msg":
				switch s.msg.(type) {
				case *types.MsgDeposit, *types.MsgWithdraw:
					judge(rt, s)
				}
			case "end":
				if s.panicked != nil {
					return
				}
				checkPayouts(rt, w, s)
				for k, r := range s.post.deps {
					if a := s.pre.deps[k]; a.Status == types.RequestStatusNotExecuted && r.Status != a.Status {
						c.Label("deposit " + r.Status.String())
						c.NonTrivial()
					}
				}
				for k, r := range s.post.wds {
					if a := s.pre.wds[k]; a.Status == types.RequestStatusNotExecuted && r.Status != a.Status {
						c.Label("withdrawal " + r.Status.String())
						c.NonTrivial()
					}
				}
				if s.matchingAgrees() {
					if d := s.diffText(); d != "" {
						rt.Fatalf("end block:\n%s", d)
					}
				}
			case "begin":
				if d := s.diffText("dep", "wd", "bal", "supply", "pool"); d != "" {
					rt.Fatalf("begin block:\n%s", d)
				}
			}
		}, nil}
	})
}

// ---- C16 ----

func TestC16(t *testing.T) {
	cfg := worldCfg{ops: 45, weights: map[string]int{"limit": 8, "market": 2, "mm": 2, "deposit": 8, "withdraw": 14, "cancel": 1, "cancelAll": 1, "ranged": 16, "pool": 14, "pair": 12, "block": 12}}
	histTest(t, "history", 1600, cfg, func(w *world, rt *rapid.T, c *Case) watcher {
		created, refused := 0, 0
		return watcher{func(s *step) {
			switch s.kind {
			case "msg":
				switch s.msg.(type) {
				case *types.MsgCreatePair, *types.MsgCreatePool, *types.MsgCreateRangedPool:
					judge(rt, s)
					if s.accepted {
						created++
					} else {
						refused++
					}
					if created >= 2 && refused >= 1 {
						c.NonTrivial()
					}
				case *types.MsgDeposit, *types.MsgWithdraw:
					var id uint64
					if m, ok := s.msg.(*types.MsgDeposit); ok {
						id = m.PoolId
					} else {
						id = s.msg.(*types.MsgWithdraw).PoolId
					}
					if s.pre.pools[id].Disabled {
						c.Label("request to a disabled pool")
						if s.accepted {
							rt.Fatalf("%s: accepted by a disabled pool", msgString(s.msg))
						}
					}
				default:
					if d := s.diffText("pool", "ids"); d != "" {
						rt.Fatalf("%s:\n%s", msgString(s.msg), d)
					}
				}
			case "end":
				if s.matchingAgrees() {
					if d := s.diffText("pool", "ids"); d != "" {
						rt.Fatalf("end block:\n%s", d)
					}
				}
			default:
				if d := s.diffText("pool", "ids", "pair"); d != "" {
					rt.Fatalf("%s:\n%s", s.kind, d)
				}
			}
			for id, p := range s.post.pools {
				if a, was := s.pre.pools[id]; was && a.Disabled != p.Disabled {
					c.Label("pool disabled")
					if a.Disabled {
						rt.Fatalf("pool %d is enabled again", id)
					}
				}
				if a := s.pre.pools[id]; a.Disabled && s.kind == "end" {
					// nothing but transfers reaches a disabled pool
					if d := diffBal(s.pre, s.post, a.ReserveAddress); d != "" {
						rt.Fatalf("the reserves of disabled pool %d change: %s", id, d)
					}
				}
			}
		}, nil}
	})
}

func diffBal(a, b *W, addr string) (out string) {
	cmpMap(a.bal[addr], b.bal[addr], func(n *big.Int) string { return n.String() }, func(k string, e, v string) { out += k + ": " + e + " -> " + v + "; " })
	return
}

// ---- C18 ----

func TestC18(t *testing.T) {
	cfg := worldCfg{ops: 45, weights: map[string]int{"limit": 8, "market": 2, "mm": 40, "deposit": 1, "withdraw": 1, "cancel": 10, "cancelAll": 4, "ranged": 2, "pool": 2, "block": 14}}
	histTest(t, "history", 1600, cfg, func(w *world, rt *rapid.T, c *Case) watcher {
		count := func(x *W) map[mmKey]uint32 {
			n := map[mmKey]uint32{}
			for _, o := range x.orders {
				if o.Type == types.OrderTypeMM && open(o) {
					n[mmKey{o.Orderer, o.PairId}]++
				}
			}
			return n
		}
		return watcher{func(s *step) {
			if m, ok := ofMsg[*types.MsgMMOrder](s); ok {
				full := count(s.pre)[mmKey{m.Orderer, m.PairId}] >= s.pre.prm.MaxNumMarketMakingOrdersPerPair
				if full {
					c.Label("at the maximum")
					c.NonTrivial()
					if s.accepted {
						rt.Fatalf("%s: accepted beyond the maximum number", msgString(m))
					}
				} else if s.expOK && !s.accepted {
					rt.Fatalf("%s: refused (%v) with %d open orders", msgString(m), s.err, count(s.pre)[mmKey{m.Orderer, m.PairId}])
				}
			}
			if s.panicked != nil && s.kind != "msg" {
				return
			}
			for k, n := range count(s.post) {
				if s.post.mm[k] != n {
					rt.Fatalf("%s pair %d: %d market making orders recorded, %d open after %s", userName(k.addr), k.pair, s.post.mm[k], n, s.kind)
				}
			}
			for k, n := range s.post.mm {
				if count(s.post)[k] != n {
					rt.Fatalf("%s pair %d: %d market making orders recorded, %d open after %s", userName(k.addr), k.pair, n, count(s.post)[k], s.kind)
				}
				if n > s.post.prm.MaxNumMarketMakingOrdersPerPair {
					c.Label("above the maximum")
				}
			}
			for k, o := range s.post.orders {
				if a, was := s.pre.orders[k]; was && open(a) && !open(o) && o.Type == types.OrderTypeMM {
					c.Label("ended " + o.Status.String())
				}
			}
		}, nil}
	})
}

// ---- C30 ----

func TestC30(t *testing.T) {
	cfg := worldCfg{ops: 45, weights: map[string]int{"limit": 40, "market": 8, "mm": 8, "deposit": 1, "withdraw": 1, "cancel": 2, "cancelAll": 1, "ranged": 4, "pool": 3, "block": 15}}
	histTest(t, "history", 1800, cfg, func(w *world, rt *rapid.T, c *Case) watcher {
		return watcher{func(s *step) {
			if s.kind == "begin" {
				if d := s.diffText("pair", "order"); d != "" {
					rt.Fatalf("begin block:\n%s", d)
				}
			}
			if s.kind != "end" || s.panicked != nil {
				return
			}
			if d := s.diffText("pair", "order", "mm"); d != "" {
				rt.Fatalf("end block:\n%s", d)
			}
			if !s.pendingRequests() {
				if d := s.diffText(); d != "" {
					rt.Fatalf("end block:\n%s", d)
				}
			}
			for id, b := range s.post.pairs {
				a, info := s.pre.pairs[id], s.infos[id]
				if info == nil {
					continue
				}
				if b.CurrentBatchId != a.CurrentBatchId+1 {
					rt.Fatalf("batch of pair %d goes from %d to %d", id, a.CurrentBatchId, b.CurrentBatchId)
				}
				filled := false
				for k, o := range s.post.orders {
					x := s.pre.orders[k]
					if k[0] != id || x.OpenAmount.Equal(o.OpenAmount) {
						continue
					}
					filled = true
					if a.LastPrice != nil {
						continue
					}
				}
				if !filled && info.pools == 0 && decString(a.LastPrice) != decString(b.LastPrice) {
					rt.Fatalf("price of pair %d goes from %s to %s without a match", id, decString(a.LastPrice), decString(b.LastPrice))
				}
				if filled {
					c.NonTrivial()
					if b.LastPrice == nil {
						rt.Fatalf("pair %d has no price after a match", id)
					}
					if a.LastPrice != nil {
						lo, hi := s.pre.priceLimits(a.LastPrice)
						if p := b.LastPrice.BigInt(); p.Cmp(lo) < 0 || p.Cmp(hi) > 0 {
							// orders placed at earlier prices may trade outside
							c.Label("price outside the limits")
						}
					}
				}
			}
		}, nil}
	})
}

// ---- C32 ----

func TestC32(t *testing.T) {
	cfg := worldCfg{ops: 45, weights: map[string]int{"limit": 26, "market": 4, "mm": 6, "deposit": 7, "withdraw": 7, "cancel": 3, "cancelAll": 1, "ranged": 3, "pool": 3, "block": 24, "batchSize": 6}}
	histTest(t, "history", 1600, cfg, func(w *world, rt *rapid.T, c *Case) watcher {
		return watcher{func(s *step) {
			if s.panicked != nil && s.kind != "msg" {
				return
			}
			if s.kind == "msg" && s.accepted {
				for k, o := range s.post.orders {
					if _, was := s.pre.orders[k]; !was {
						if o.BatchId != s.pre.pairs[o.PairId].CurrentBatchId || o.MsgHeight != s.mc.height || o.Status != types.OrderStatusNotExecuted {
							rt.Fatalf("order %v {%s} does not join batch %d", k, orderString(o), s.pre.pairs[o.PairId].CurrentBatchId)
						}
					}
				}
			}
			if s.kind == "begin" {
				if d := s.diffText(); d != "" {
					rt.Fatalf("begin block:\n%s", d)
				}
				for k, o := range s.post.orders {
					if !open(o) {
						rt.Fatalf("ended order %v is kept: {%s}", k, orderString(o))
					}
				}
			}
			if s.kind != "end" {
				return
			}
			size := int64(s.pre.prm.BatchSize)
			if s.mc.height%size != 0 {
				c.Label("between batches")
				s2 := diffW(s.pre, s.post)
				if len(s2) > 0 {
					rt.Fatalf("end of block %d with batch size %d changes the state: %s", s.mc.height, size, s2[0].text)
				}
				return
			}
			c.Label("batch")
			if size > 1 && (len(s.pre.orders) > 0 || s.pendingRequests()) {
				c.NonTrivial()
			}
			for id, p := range s.post.pairs {
				if p.CurrentBatchId != s.pre.pairs[id].CurrentBatchId+1 {
					rt.Fatalf("batch of pair %d goes from %d to %d in block %d with batch size %d", id, s.pre.pairs[id].CurrentBatchId, p.CurrentBatchId, s.mc.height, size)
				}
			}
			for k, o := range s.post.orders {
				if o.Status == types.OrderStatusNotExecuted {
					rt.Fatalf("order %v is not executed in block %d: {%s}", k, s.mc.height, orderString(o))
				}
			}
			for k, r := range s.post.deps {
				if r.Status == types.RequestStatusNotExecuted {
					rt.Fatalf("deposit %v is not executed in block %d: {%s}", k, s.mc.height, depString(r))
				}
			}
			for k, r := range s.post.wds {
				if r.Status == types.RequestStatusNotExecuted {
					rt.Fatalf("withdrawal %v is not executed in block %d: {%s}", k, s.mc.height, wdString(r))
				}
			}
			checkPayouts(rt, w, s)
		}, nil}
	})
}
