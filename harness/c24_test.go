package zverif

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"cosmossdk.io/math"
	"google.golang.org/grpc/codes"
	"pgregory.net/rapid"

	"defund/x/dex/amm"
	"defund/x/dex/types"
)

// vSide is the liquidity of one side of a book: amounts at prices, the best price first.
type vLevel struct{ price, amt *big.Int }
type vSide []vLevel

func (s vSide) String() string {
	var b strings.Builder
	for _, l := range s {
		fmt.Fprintf(&b, "%s@%s ", l.amt, decOf(l.price))
	}
	return b.String()
}

// sideOf adds up amounts at equal prices.
func sideOf(m map[string]*vLevel, buy bool) vSide {
	var s vSide
	for _, l := range m {
		if l.amt.Sign() > 0 {
			s = append(s, *l)
		}
	}
	sort.Slice(s, func(i, j int) bool { return (s[i].price.Cmp(s[j].price) > 0) == buy })
	return s
}

// total is the amount at prices at least as good for the other side as p.
func (s vSide) total(p *big.Int, buy bool) *big.Int {
	t := bi(0)
	for _, l := range s {
		if cmp := l.price.Cmp(p); cmp == 0 || (cmp > 0) == buy {
			t = add(t, l.amt)
		}
	}
	return t
}

// net removes what crosses: the largest amount that can trade at a single price.
func net(buys, sells vSide) (vSide, vSide, *big.Int) {
	q := bi(0)
	for _, s := range []vSide{buys, sells} {
		for _, l := range s {
			q = maxB(q, minB(buys.total(l.price, true), sells.total(l.price, false)))
		}
	}
	drop := func(s vSide) (out vSide) {
		left := q
		for _, l := range s {
			x := minB(left, l.amt)
			left = sub(left, x)
			if rest := sub(l.amt, x); rest.Sign() > 0 {
				out = append(out, vLevel{l.price, rest})
			}
		}
		return
	}
	return drop(buys), drop(sells), q
}

// levels aggregates a side to multiples of unit.
func (s vSide) levels(unit, limit *big.Int, buy bool, n int) (out []vLevel) {
	for _, l := range s {
		at := mul(cdiv(l.price, unit), unit)
		if buy {
			at = mul(fdiv(l.price, unit), unit)
		}
		if cmp := at.Cmp(limit); cmp != 0 && (cmp < 0) == buy {
			continue
		}
		if k := len(out) - 1; k >= 0 && out[k].price.Cmp(at) == 0 {
			out[k].amt = add(out[k].amt, l.amt)
		} else {
			out = append(out, vLevel{at, l.amt})
		}
	}
	if len(out) > n {
		out = out[:n]
	}
	return
}

type bookCfg struct{ power, ticks int }

// checkBookResponse compares a reported book with the liquidity it is about.
func checkBookResponse(c *Case, res types.OrderBookPairResponse, buys, sells vSide, lo, hi *big.Int, prec int, cfgs []bookCfg) error {
	buys, sells, q := net(buys, sells)
	if q.Sign() > 0 {
		c.Label("crossed book")
	}
	if len(buys)+len(sells) == 0 {
		if !res.BasePrice.IsNil() && !res.BasePrice.IsZero() || len(res.OrderBooks) > 0 {
			return fmt.Errorf("something is reported of an empty book: %v", res)
		}
		c.Label("empty book")
		return nil
	}
	// base price
	var base *big.Int
	switch {
	case len(sells) == 0:
		base = buys[0].price
	case len(buys) == 0:
		base = sells[0].price
	default:
		sum := add(buys[0].price, sells[0].price)
		if mid, r := new(big.Int).QuoRem(sum, bi(2), new(big.Int)); r.Sign() == 0 {
			base = rRound(mid, prec)
		} else if a, b := rRound(mid, prec), rRound(add(mid, bi(1)), prec); scaled(res.BasePrice).Cmp(b) == 0 {
			base = b
		} else {
			base = a
		}
	}
	if scaled(res.BasePrice).Cmp(base) != 0 {
		return fmt.Errorf("base price %s, want %s", res.BasePrice, decOf(base))
	}
	sort.Slice(cfgs, func(i, j int) bool { return cfgs[i].power < cfgs[j].power })
	if len(res.OrderBooks) != len(cfgs) {
		return fmt.Errorf("%d books for %d units", len(res.OrderBooks), len(cfgs))
	}
	// the smallest unit: the tick gap where the finest sell levels end
	units := []*big.Int{}
	if len(sells) == 0 {
		units = append(units, rGap(buys[0].price, prec))
	} else {
		n, last := 0, sells[0].price
		for _, l := range sells {
			if l.price.Cmp(hi) > 0 {
				// the book goes on beyond the highest price
				beyond := rUp(add(hi, bi(1)), prec)
				units = append(units, rGap(beyond, prec), rGap(sells[0].price, prec))
				break
			}
			last = l.price
			if n++; n == cfgs[0].ticks {
				break
			}
		}
		units = append(units, rGap(last, prec))
	}
	var errs []string
	for _, u := range units {
		err := checkLevels(c, res, buys, sells, lo, hi, u, cfgs)
		if err == nil {
			return nil
		}
		errs = append(errs, err.Error())
	}
	return fmt.Errorf("%s\nbuys %s\nsells %s\nlimits %s %s", strings.Join(errs, "\n"), buys, sells, decOf(lo), decOf(hi))
}

func checkLevels(c *Case, res types.OrderBookPairResponse, buys, sells vSide, lo, hi, smallest *big.Int, cfgs []bookCfg) error {
	for i, cfg := range cfgs {
		ob := res.OrderBooks[i]
		unit := mul(smallest, pow10i(cfg.power))
		if scaled(ob.PriceUnit).Cmp(unit) != 0 {
			return fmt.Errorf("price unit %s, want %s", ob.PriceUnit, decOf(unit))
		}
		for _, side := range []struct {
			name  string
			ticks []types.OrderBookTickResponse
			all   vSide
			lim   *big.Int
			buy   bool
		}{{"sells", ob.Sells, sells, hi, false}, {"buys", ob.Buys, buys, lo, true}} {
			want := side.all.levels(unit, side.lim, side.buy, cfg.ticks)
			got := []vLevel{}
			for _, t := range side.ticks {
				amt := bi(0)
				for _, x := range []math.Int{t.UserOrderAmount, t.PoolOrderAmount} {
					if x.IsNegative() {
						return fmt.Errorf("negative amount %s", x)
					}
					amt = add(amt, x.BigInt())
				}
				got = append(got, vLevel{scaled(t.Price), amt})
			}
			if !side.buy { // listed from the highest price on
				for l, r := 0, len(got)-1; l < r; l, r = l+1, r-1 {
					got[l], got[r] = got[r], got[l]
				}
			}
			if g, w := vSide(got).String(), vSide(want).String(); g != w {
				return fmt.Errorf("%s in units of %s (power %d, %d ticks): %s\nwant %s", side.name, decOf(unit), cfg.power, cfg.ticks, g, w)
			}
			if len(want) > 1 {
				c.Label("several levels")
			}
			if len(want) > 0 && len(want) < len(side.all) {
				c.Label("aggregated or cut levels")
				c.NonTrivial()
			}
		}
	}
	return nil
}

// addTo adds an order; one worth less than a quote coin does not count.
func addTo(m map[string]*vLevel, price, amt *big.Int) {
	if quoFloor(price, amt).Sign() == 0 {
		return
	}
	k := price.String()
	if m[k] == nil {
		m[k] = &vLevel{price, bi(0)}
	}
	m[k].amt = add(m[k].amt, amt)
}

func drawCfgs(rt *rapid.T, same bool) (out []bookCfg) {
	n := int(uni(rt, 1, 30, "ticks"))
	for p := 0; p < 5; p++ {
		if rapid.Bool().Draw(rt, "power") {
			out = append(out, bookCfg{p, n})
			if !same {
				n = int(uni(rt, 1, 30, "ticks"))
			}
		}
	}
	if len(out) == 0 {
		out = []bookCfg{{0, n}}
	}
	// in any order
	for i := range out {
		j := int(uni(rt, 0, int64(len(out)-1), "swap"))
		out[i], out[j] = out[j], out[i]
	}
	return
}

func TestC24(t *testing.T) {
	prop(t, "books", 16000, func(rt *rapid.T, c *Case) {
		prec := pick(rt, []int{4, 4, 3, 2, 1, 5}, "prec")
		p := pow10i(prec).Int64()
		e := uni(rt, int64(18-10-prec), int64(18+8-prec), "exponent")
		center := max64(e, 0)*9*p + pick(rt, []int64{0, 9*p - 1, uni(rt, 0, 9*p-1, "mantissa"), uni(rt, 0, 9*p-1, "mantissa2")}, "position")
		spread := pick(rt, []int64{1, 3, 10, 40, 200}, "spread")
		skew := pick(rt, []int64{0, 0, spread, -spread, spread / 2}, "skew")
		at := func(shift int64) *big.Int {
			return rTick(max64(center+uni(rt, -spread, spread, "tick")+shift, 0), prec)
		}
		lo, hi := rTick(max64(center-uni(rt, 0, 3*spread, "lo"), 0), prec), rTick(max64(center+uni(rt, 0, 3*spread, "hi"), 1), prec)
		c.Logf("prec %d limits %s %s", prec, decOf(lo), decOf(hi))
		ob := amm.NewOrderBook()
		sides := [2]map[string]*vLevel{{}, {}}
		amts := pick(rt, []int64{3, 10, 1_000, 1_000_000_000}, "amounts")
		add1 := func(buy bool, price, amt *big.Int) {
			dir := amm.Sell
			i := 0
			if buy {
				dir, i = amm.Buy, 1
			}
			ob.AddOrder(amm.DefaultOrderer.Order(dir, decOf(price), toInt(amt)))
			addTo(sides[i], price, amt)
			c.Logf("%v %s @ %s", dir, amt, decOf(price))
		}
		for i, n := 0, int(uni(rt, 0, 25, "orders")); i < n; i++ {
			buy := rapid.Bool().Draw(rt, "buy")
			s := skew
			if !buy {
				s = -skew
			}
			price := at(s)
			unit := cdiv(e18, price)
			add1(buy, price, mul(unit, bi(uni(rt, 1, amts, "amount"))))
		}
		if rare(rt, 6, "level book") { // both sides are equally large
			price := at(0)
			x := mul(cdiv(e18, price), bi(uni(rt, 1, amts, "amount")))
			add1(true, price, x)
			add1(false, rTick(max64(rIndex(price, prec)-uni(rt, 0, 3, "below"), 0), prec), x)
		}
		ov := ob.MakeView()
		buys, sells := sideOf(sides[1], true), sideOf(sides[0], false)
		cfgs := drawCfgs(rt, false)
		var in []types.OrderBookConfig
		for _, x := range cfgs {
			in = append(in, types.OrderBookConfig{PriceUnitPower: x.power, MaxNumTicks: x.ticks})
		}
		c.Logf("units %v", cfgs)
		// amounts of the view before matching
		for i := 0; i < 6; i++ {
			x := at(0)
			if len(buys) > 0 {
				if g, w := ov.BuyAmountOver(decOf(x), true), buys.total(x, true); g.BigInt().Cmp(w) != 0 {
					rt.Fatalf("buy amount over %s: %s want %s", decOf(x), g, w)
				}
			}
			if len(sells) > 0 {
				if g, w := ov.SellAmountUnder(decOf(x), true), sells.total(x, false); g.BigInt().Cmp(w) != 0 {
					rt.Fatalf("sell amount under %s: %s want %s", decOf(x), g, w)
				}
			}
		}
		ov.Match()
		b, s, _ := net(buys, sells)
		if p, ok := ov.HighestBuyPrice(); ok != (len(b) > 0) || ok && scaled(p).Cmp(b[0].price) != 0 {
			rt.Fatalf("highest buy price after matching %v %v\nbuys %s\nsells %s", p, ok, buys, sells)
		}
		if p, ok := ov.LowestSellPrice(); ok != (len(s) > 0) || ok && scaled(p).Cmp(s[0].price) != 0 {
			rt.Fatalf("lowest sell price after matching %v %v\nbuys %s\nsells %s", p, ok, buys, sells)
		}
		var res types.OrderBookPairResponse
		if e := tryCall(func() { res = types.MakeOrderBookPairResponse(7, ov, decOf(lo), decOf(hi), prec, in...) }); e != nil {
			rt.Fatalf("panic: %v", e)
		}
		if res.PairId != 7 {
			rt.Fatalf("pair %d", res.PairId)
		}
		if err := checkBookResponse(c, res, buys, sells, lo, hi, prec, cfgs); err != nil {
			rt.Fatalf("%v", err)
		}
	})
	mk := func(w *world, rt *rapid.T, c *Case) watcher {
		every := int(uni(rt, 4, 12, "query every"))
		n := 0
		return watcher{func(s *step) {
			if n++; n%every == 0 {
				checkBooks(rt, c, w)
			}
		}, func() { checkBooks(rt, c, w) }}
	}
	weights := map[string]int{"limit": 50, "market": 4, "mm": 10, "deposit": 2, "withdraw": 5, "cancel": 4, "ranged": 6, "pool": 6, "block": 6, "send": 2, "params": 1}
	histTest(t, "histories", 1200, worldCfg{ops: 50, weights: weights, twoPairs: true, params: func(rt *rapid.T) types.Params {
		p := drawParams(rt)
		p.BatchSize = pick(rt, []uint32{1, 2, 3, 9}, "batch size")
		return p
	}}, mk)
}

// checkBooks asks for the order books of the pairs of w.
func checkBooks(rt *rapid.T, c *Case, w *world) {
	s := w.cur
	prec := int(s.prm.TickPrecision)
	cfgs := drawCfgs(rt, true)
	req := &types.QueryOrderBooksRequest{NumTicks: uint32(cfgs[0].ticks)}
	if rare(rt, 4, "default units") {
		cfgs = []bookCfg{{0, cfgs[0].ticks}, {1, cfgs[0].ticks}, {2, cfgs[0].ticks}}
	} else {
		for _, x := range cfgs {
			req.PriceUnitPowers = append(req.PriceUnitPowers, uint32(x.power))
		}
	}
	ok := true
	for _, id := range sortedU(s.pairs) {
		if rapid.Bool().Draw(rt, "skip pair") {
			continue
		}
		req.PairIds = append(req.PairIds, id)
		if s.pairs[id].LastPrice == nil {
			ok = false
		}
	}
	if len(req.PairIds) == 0 {
		return
	}
	if k := len(req.PairIds); k > 1 && rapid.Bool().Draw(rt, "reverse") {
		req.PairIds[0], req.PairIds[k-1] = req.PairIds[k-1], req.PairIds[0]
	}
	var res types.QueryOrderBooksResponse
	err := ask(w.app, w.ctx, "OrderBooks", req, &res)
	if !ok {
		if codeOf(err) != codes.Unavailable {
			rt.Fatalf("order book without a last price: %v", err)
		}
		c.Label("unavailable")
		return
	}
	if err != nil || len(res.Pairs) != len(req.PairIds) {
		rt.Fatalf("order books of %v: %v, %d of them", req, err, len(res.Pairs))
	}
	for i, id := range req.PairIds {
		pair := s.pairs[id]
		sides := [2]map[string]*vLevel{{}, {}}
		for _, k := range sortedK2(s.orders) {
			o := s.orders[k]
			if o.PairId != id || finished(o.Status) {
				continue
			}
			amt := o.OpenAmount.BigInt()
			price := scaled(o.Price)
			if o.Direction == types.OrderDirectionBuy {
				amt = minB(amt, fdiv(mul(o.RemainingOfferCoin.Amount.BigInt(), e18), price))
				addTo(sides[1], price, amt)
			} else {
				addTo(sides[0], price, minB(amt, o.RemainingOfferCoin.Amount.BigInt()))
			}
		}
		lo, hi := s.priceLimits(pair.LastPrice)
		for _, pid := range sortedU(s.pools) {
			p := s.pools[pid]
			rx, ry, ps, depleted := s.poolState(p)
			if p.PairId != id || p.Disabled || depleted {
				continue
			}
			for _, o := range amm.PoolOrders(p.AMMPool(toInt(rx), toInt(ry), toInt(ps)), amm.DefaultOrderer, decOf(lo), decOf(hi), prec) {
				j := 0
				if o.GetDirection() == amm.Buy {
					j = 1
				}
				addTo(sides[j], scaled(o.GetPrice()), o.GetAmount().BigInt())
				c.Label("pool orders")
			}
		}
		if res.Pairs[i].PairId != id {
			rt.Fatalf("book of pair %d instead of %d", res.Pairs[i].PairId, id)
		}
		if err := checkBookResponse(c, res.Pairs[i], sideOf(sides[1], true), sideOf(sides[0], false), lo, hi, prec, cfgs); err != nil {
			rt.Fatalf("pair %d, %v: %v", id, req, err)
		}
	}
}
