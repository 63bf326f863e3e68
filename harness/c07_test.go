package zverif

import (
	"math"
	"math/big"
	"testing"

	sdkmath "cosmossdk.io/math"
	"pgregory.net/rapid"

	"defund/x/dex/amm"
	"defund/x/dex/types"
)

// rat of a scaled price
func ratP(p *big.Int) *big.Rat { return new(big.Rat).SetFrac(p, e18) }
func ratI(x *big.Int) *big.Rat { return new(big.Rat).SetInt(x) }
func rmul(a, b *big.Rat) *big.Rat {
	return new(big.Rat).Mul(a, b)
}
func radd(a, b *big.Rat) *big.Rat { return new(big.Rat).Add(a, b) }
func rsub(a, b *big.Rat) *big.Rat { return new(big.Rat).Sub(a, b) }
func rquo(a, b *big.Rat) *big.Rat { return new(big.Rat).Quo(a, b) }
func rfloor(a *big.Rat) *big.Int {
	q, m := new(big.Int).DivMod(a.Num(), a.Denom(), new(big.Int))
	_ = m
	return q
}
func ratDec(d sdkmath.LegacyDec) *big.Rat { return ratP(d.BigInt()) }

// eps is n * 10^-k
func eps(n int64, k int) *big.Rat { return new(big.Rat).SetFrac(bi(n), pow10i(k)) }

// sqrtRat is the square root with at least 60 correct digits.
func sqrtRat(a *big.Rat) *big.Rat {
	sc := pow10i(120)
	n := new(big.Int).Quo(mul(a.Num(), sc), a.Denom())
	return new(big.Rat).SetFrac(new(big.Int).Sqrt(n), pow10i(60))
}

func radd3(a, b, c *big.Rat) *big.Rat { return radd(a, radd(b, c)) }

// sqrtInv is 1/sqrt(a), or 0 for 0
func sqrtInv(a *big.Rat) *big.Rat {
	if a.Sign() == 0 {
		return new(big.Rat)
	}
	return rquo(ratI(bi(1)), sqrtRat(a))
}

func tryCall(f func()) (panicked interface{}) {
	defer func() { panicked = recover() }()
	f()
	return nil
}

// poolSpec is a pool with its exact reference quantities.
type poolSpec struct {
	ranged bool
	r      rangeSpec
	rx, ry *big.Int
}

func (s poolSpec) make() amm.Pool {
	if s.ranged {
		return amm.NewRangedPool(toInt(s.rx), toInt(s.ry), sdkmath.NewInt(1_000_000), decOf(s.r.min), decOf(s.r.max))
	}
	return amm.NewBasicPool(toInt(s.rx), toInt(s.ry), sdkmath.NewInt(1_000_000))
}

// curve returns the exact virtual balances of a pool.
func curve(p amm.Pool) (x, y *big.Rat) {
	rx, ry := p.Balances()
	x, y = ratI(rx.BigInt()), ratI(ry.BigInt())
	if rp, ok := p.(*amm.RangedPool); ok {
		tx, ty := rp.Translation()
		x, y = radd(x, ratDec(tx)), radd(y, ratDec(ty))
	}
	return
}

func drawPoolSpec(rt *rapid.T, c *Case) poolSpec {
	var s poolSpec
	digits := rapid.SampledFrom([]int{5, 9, 15, 22, 31}).Draw(rt, "digits")
	s.ranged = rapid.Bool().Draw(rt, "ranged")
	if !s.ranged {
		s.r.prec = rapid.SampledFrom([]int{4, 4, 3, 2, 5}).Draw(rt, "prec")
		s.rx, s.ry = drawLog(rt, digits, "rx"), drawLog(rt, digits, "ry")
		c.Logf("basic pool rx=%s ry=%s", s.rx, s.ry)
		c.Label("basic")
		return s
	}
	s.r = drawRange(rt)
	c.Label("ranged")
	if rapid.IntRange(0, 3).Draw(rt, "sane") > 0 { // reserves in accordance with the range
		i := rapid.Int64Range(rIndex(s.r.min, s.r.prec), rIndex(s.r.max, s.r.prec)).Draw(rt, "init")
		x := drawLog(rt, digits, "x")
		var y *big.Int
		ex := fdiv(mul(x, e18), rTick(i, s.r.prec))
		y = add(ex, bi(rapid.Int64Range(0, 1000).Draw(rt, "dy")))
		if tryCall(func() {
			p, err := amm.CreateRangedPool(toInt(x), toInt(y), decOf(s.r.min), decOf(s.r.max), decOf(rTick(i, s.r.prec)))
			if err != nil {
				panic(err)
			}
			a, b := p.Balances()
			s.rx, s.ry = a.BigInt(), b.BigInt()
		}) == nil && (s.rx.Sign() > 0 || s.ry.Sign() > 0) && s.rx.Sign() >= 0 && s.ry.Sign() >= 0 &&
			s.rx.Cmp(pow10i(40)) <= 0 && s.ry.Cmp(pow10i(40)) <= 0 {
			c.Label("ranged created")
			c.Logf("%s rx=%s ry=%s", s.r, s.rx, s.ry)
			return s
		}
	}
	s.rx, s.ry = drawLog(rt, digits, "rx"), drawLog(rt, digits, "ry")
	switch rapid.IntRange(0, 5).Draw(rt, "one") {
	case 0:
		s.rx = bi(0)
	case 1:
		s.ry = bi(0)
	}
	c.Logf("%s rx=%s ry=%s", s.r, s.rx, s.ry)
	return s
}

func TestC07(t *testing.T) {
	prop(t, "orders", 40000, func(rt *rapid.T, c *Case) {
		s := drawPoolSpec(rt, c)
		var pool amm.Pool
		if e := tryCall(func() { pool = s.make(); pool.Price() }); e != nil {
			rt.Fatalf("pool cannot be built: %v", e)
		}
		price := pool.Price()
		// price limits near the pool price, or anywhere
		prec := s.r.prec
		lowTick := amm.LowestTick(prec).BigInt()
		at := func(p *big.Int) *big.Int {
			if p.Cmp(lowTick) < 0 {
				return lowTick
			}
			return p
		}
		i := rIndex(at(price.BigInt()), prec)
		p := pow10i(prec).Int64()
		off := rapid.SampledFrom([]int64{0, 3, 30, 300, p / 5}).Draw(rt, "off")
		i += rapid.Int64Range(-off, off).Draw(rt, "center")
		w := rapid.SampledFrom([]int64{0, 1, 10, 100, p / 10, p}).Draw(rt, "limit")
		lo, hi := i-rapid.Int64Range(0, w).Draw(rt, "below"), i+rapid.Int64Range(0, w).Draw(rt, "above")
		if lo < 1 {
			lo = 1
		}
		if hi < lo {
			hi = lo
		}
		lowest, highest := rTick(lo, prec), rTick(hi, prec)
		c.Logf("price=%s limits [%s, %s] prec %d", price, decOf(lowest), decOf(highest), prec)
		orderer := types.NewPoolOrderer(amm.Pool(pool), 7, addrN(77), "base", "quote")
		buys := amm.PoolBuyOrders(pool, orderer, decOf(lowest), decOf(highest), prec)
		sells := amm.PoolSellOrders(pool, orderer, decOf(lowest), decOf(highest), prec)
		all := amm.PoolOrders(pool, orderer, decOf(lowest), decOf(highest), prec)
		if len(all) != len(buys)+len(sells) {
			rt.Fatalf("PoolOrders places %d orders, buy and sell orders are %d and %d", len(all), len(buys), len(sells))
		}
		if brx, bry := pool.Balances(); brx.BigInt().Cmp(s.rx) != 0 || bry.BigInt().Cmp(s.ry) != 0 {
			rt.Fatalf("placing orders changed the pool's balances")
		}
		if len(buys) > 0 {
			c.Label("buys")
		}
		if len(sells) > 0 {
			c.Label("sells")
		}
		if len(buys)+len(sells) > 1 {
			c.NonTrivial()
		}
		for _, o := range all {
			po, ok := o.(*types.PoolOrder)
			if !ok {
				rt.Fatalf("order of type %T", o)
			}
			of, de := "base", "quote"
			if o.GetDirection() == amm.Buy {
				of, de = de, of
			}
			if po.PoolId != 7 || !po.ReserveAddress.Equals(addrN(77)) || po.OfferCoinDenom != of || po.DemandCoinDenom != de {
				rt.Fatalf("wrong order attributes %v %s %s", po, po.OfferCoinDenom, po.DemandCoinDenom)
			}
			if !o.GetOpenAmount().Equal(o.GetAmount()) || !o.GetOfferCoinAmount().Equal(amm.OfferCoinAmount(o.GetDirection(), o.GetPrice(), o.GetAmount())) {
				rt.Fatalf("order %v offers %s for %s", o, o.GetOfferCoinAmount(), o.GetAmount())
			}
		}
		check := func(dir amm.OrderDirection, orders []amm.Order) {
			if len(orders) > 0 {
				c.Label(dir.String())
			}
			cur := s.make()
			x0, y0 := curve(cur)
			k0, steps := rmul(x0, y0), int64(0)
			slack, yPrev := new(big.Rat), y0 // one quote coin of rounding per order, growing with the price
			prev := (*big.Int)(nil)
			rx, ry := s.rx, s.ry
			// the first price quoted for the near side, and where the next one has to be
			next := func() *big.Int {
				if prev == nil {
					if dir == amm.Buy {
						return rDown(minB(highest, cur.Price().BigInt()), prec)
					}
					m := cur.Price().BigInt()
					if m.Cmp(lowest) < 0 {
						m = lowest
					}
					return rUp(m, prec)
				}
				if dir == amm.Buy {
					return rDown(fdiv(mul(prev, bi(995)), bi(1000)), prec)
				}
				return rUp(cdiv(mul(prev, bi(1005)), bi(1000)), prec)
			}
			// complete reports liquidity left unquoted between the previous and the given price
			complete := func(price *big.Int) {
				n := next()
				if dir == amm.Buy {
					if n.Cmp(lowest) < 0 || (price != nil && n.Cmp(price) <= 0) {
						return
					}
					if a := cur.BuyAmountOver(decOf(n), true); a.GTE(amm.MinCoinAmount) {
						rt.Fatalf("nothing quoted between %v and %v although the pool buys %s at %s", prev, price, a, decOf(n))
					}
				} else {
					if n.Cmp(highest) > 0 || (price != nil && n.Cmp(price) >= 0) {
						return
					}
					if a := cur.SellAmountUnder(decOf(n), true); a.GTE(amm.MinCoinAmount) && quoFloor(n, a.BigInt()).Sign() > 0 && (prev == nil || ry.Cmp(bi(100)) > 0) {
						rt.Fatalf("nothing quoted between %v and %v although the pool sells %s at %s", prev, price, a, decOf(n))
					}
				}
			}
			for _, o := range orders {
				p, amt := o.GetPrice().BigInt(), o.GetAmount().BigInt()
				c.Logf("%s %s@%s", dir, amt, o.GetPrice())
				if o.GetDirection() != dir {
					rt.Fatalf("wrong direction %v", o)
				}
				if rDown(p, prec).Cmp(p) != 0 {
					rt.Fatalf("price %s is not on a tick", o.GetPrice())
				}
				if p.Cmp(lowest) < 0 || p.Cmp(highest) > 0 {
					rt.Fatalf("price %s out of the limits", o.GetPrice())
				}
				if amt.Cmp(bi(100)) < 0 {
					rt.Fatalf("amount %s below the minimum", amt)
				}
				// the first order moves a pool from outside the limits to the limit
				far := false
				if steps == 0 && dir == amm.Buy && price.BigInt().Cmp(highest) > 0 {
					far = cur.BuyAmountTo(decOf(highest)).GTE(amm.MinCoinAmount)
				} else if steps == 0 && dir == amm.Sell && price.BigInt().Cmp(lowest) < 0 {
					a := cur.SellAmountTo(decOf(lowest))
					far = a.GTE(amm.MinCoinAmount) && quoFloor(lowest, a.BigInt()).Sign() > 0
				}
				if far && (p.Cmp(highest) != 0 && dir == amm.Buy || p.Cmp(lowest) != 0 && dir == amm.Sell) {
					rt.Fatalf("the first quote is at %s, not at the limit", o.GetPrice())
				}
				if dir == amm.Buy && p.Cmp(price.BigInt()) >= 0 || dir == amm.Sell && p.Cmp(price.BigInt()) <= 0 {
					rt.Fatalf("%s at %s with pool price %s", dir, o.GetPrice(), price)
				}
				if prev != nil && (dir == amm.Buy && p.Cmp(prev) >= 0 || dir == amm.Sell && p.Cmp(prev) <= 0) {
					rt.Fatalf("%s at %s follows %s", dir, o.GetPrice(), decOf(prev))
				}
				if steps == 1 && prev == nil && (dir == amm.Buy && p.Cmp(highest) == 0 || dir == amm.Sell && p.Cmp(lowest) == 0) {
					c.Label("second order at the limit")
				}
				if !far {
					complete(p)
				}
				if dir == amm.Buy {
					rx, ry = sub(rx, quoCeil(p, amt)), add(ry, amt)
				} else {
					rx, ry = add(rx, quoFloor(p, amt)), sub(ry, amt)
				}
				if rx.Sign() < 0 || ry.Sign() < 0 {
					rt.Fatalf("the pool cannot pay for its orders: %s,%s left", rx, ry)
				}
				steps++
				cur.SetBalances(toInt(rx), toInt(ry), false)
				x, y := curve(cur)
				tol := eps(1, 15)
				if far {
					tol = radd(tol, rmul(eps(10, 18), radd3(sqrtInv(ratP(p)), sqrtInv(x0), sqrtInv(y0))))
				}
				if y.Sign() > 0 && y.Cmp(yPrev) < 0 {
					slack = rmul(slack, rquo(yPrev, y))
				}
				slack, yPrev = radd(slack, ratI(bi(1))), y
				if rmul(radd(x, slack), y).Cmp(rmul(k0, rsub(ratI(bi(1)), tol))) < 0 {
					kq, _ := rquo(rmul(radd(x, slack), y), k0).Float64()
					rt.Fatalf("after %d orders the pool is below its curve (by factor %v)", steps, kq)
				}
				if far && s.ranged {
					c.Label("translation derived again")
					cs := s
					cs.rx, cs.ry = rx, ry
					if rx.Sign() == 0 && ry.Sign() == 0 {
						return
					}
					cur = cs.make()
					x0, y0 = curve(cur)
					k0, slack, yPrev = rmul(x0, y0), new(big.Rat), y0
				}
				if prev = p; far {
					prev = nil
				}
			}
			if len(orders) > 0 && rx.Sign() > 0 && ry.Sign() > 0 {
				complete(nil)
			}
		}
		check(amm.Buy, buys)
		check(amm.Sell, sells)
		// no orders although there is liquidity
		if s.rx.Cmp(pow10i(25)) < 0 && s.ry.Cmp(pow10i(25)) < 0 {
			n := rDown(minB(highest, price.BigInt()), prec)
			if len(buys) == 0 && lo > 2 && s.rx.Cmp(bi(2)) > 0 && n.Cmp(lowest) >= 0 && pool.BuyAmountOver(decOf(n), true).GTE(amm.MinCoinAmount) {
				rt.Fatalf("no buy orders")
			}
			n = rUp(maxB(lowest, price.BigInt()), prec)
			if a := pool.SellAmountUnder(decOf(n), true); len(sells) == 0 && n.Cmp(highest) <= 0 && a.GTE(amm.MinCoinAmount) && quoFloor(n, a.BigInt()).Sign() > 0 {
				rt.Fatalf("no sell orders")
			}
			if len(buys) == 0 || len(sells) == 0 {
				c.Label("one side empty")
			}
		}
		// quotes are spaced, so that there are not too many however fine the ticks are
		many := func(orders []amm.Order) bool {
			if len(orders) < 2 {
				return false
			}
			a, _ := ratDec(orders[0].GetPrice()).Float64()
			b, _ := ratDec(orders[len(orders)-1].GetPrice()).Float64()
			return float64(len(orders)) > 260+math.Abs(math.Log(a/b))/0.0049
		}
		if many(buys) || many(sells) {
			rt.Fatalf("%d buy and %d sell orders", len(buys), len(sells))
		}
	})
	prop(t, "amounts", 60000, func(rt *rapid.T, c *Case) {
		s := drawPoolSpec(rt, c)
		pool := s.make()
		price := pool.Price().BigInt()
		prec := s.r.prec
		near := func(label string) *big.Int {
			switch rapid.IntRange(0, 3).Draw(rt, label+"Kind") {
			case 0:
				return rTick(drawTickIdx(rt, prec, -14, 19, label), prec)
			case 1:
				b := maxB(price, amm.LowestTick(prec).BigInt())
				return rTick(max64(rIndex(b, prec)+rapid.Int64Range(-20, 20).Draw(rt, label), 1), prec)
			case 2:
				return maxB(bi(1), add(price, bi(rapid.Int64Range(-3, 3).Draw(rt, label))))
			}
			return maxB(bi(1), fdiv(mul(price, bi(rapid.Int64Range(1, 4000).Draw(rt, label))), bi(1000)))
		}
		p1, p2 := near("p1"), near("p2")
		if p1.Cmp(p2) > 0 {
			p1, p2 = p2, p1
		}
		c.Logf("price=%s p1=%s p2=%s", decOf(price), decOf(p1), decOf(p2))
		X, Y := curve(pool)
		maxAmt := amm.MaxCoinAmount.BigInt()
		one := ratI(bi(1))
		buy := func(p *big.Int) *big.Int {
			var a *big.Int
			if e := tryCall(func() { a = pool.BuyAmountOver(decOf(p), true).BigInt() }); e != nil {
				rt.Fatalf("BuyAmountOver(%s): %v", decOf(p), e)
			}
			if a.Sign() < 0 || a.Cmp(maxAmt) > 0 {
				rt.Fatalf("buy amount %s", a)
			}
			if p.Cmp(price) >= 0 && a.Sign() != 0 {
				rt.Fatalf("buys %s at %s", a, decOf(p))
			}
			if quoCeil(p, a).Cmp(s.rx) > 0 {
				rt.Fatalf("buying %s at %s costs more than the reserve", a, decOf(p))
			}
			// floor(min(X - max(p, min)*Y, rx)/p)
			q := p
			if s.ranged {
				q = maxB(q, s.r.min)
			} else {
				q = maxB(q, bi(1000))
			}
			want := rsub(X, rmul(ratP(q), Y))
			if want.Cmp(ratI(s.rx)) > 0 {
				want = ratI(s.rx)
			}
			if p.Cmp(price) >= 0 || q.Cmp(price) >= 0 || want.Sign() < 0 {
				want = new(big.Rat)
			}
			tol := radd(one, rquo(eps(1, 18), ratP(p)))
			lo, hi := rquo(rsub(want, eps(1, 18)), ratP(p)), rquo(radd(want, eps(1, 18)), ratP(p))
			if p.Cmp(price) < 0 && ratI(a).Cmp(radd(hi, tol)) > 0 || ratI(a).Cmp(rsub(lo, tol)) < 0 && a.Cmp(maxAmt) < 0 {
				w, _ := want.Float64()
				rt.Fatalf("buy amount %s at %s spends %v expected", a, decOf(p), w)
			}
			return a
		}
		sell := func(p *big.Int) *big.Int {
			var a *big.Int
			if e := tryCall(func() { a = pool.SellAmountUnder(decOf(p), true).BigInt() }); e != nil {
				rt.Fatalf("SellAmountUnder(%s): %v", decOf(p), e)
			}
			if a.Sign() < 0 || a.Cmp(s.ry) > 0 {
				rt.Fatalf("sell amount %s of %s", a, s.ry)
			}
			if p.Cmp(price) <= 0 && a.Sign() != 0 {
				rt.Fatalf("sells %s at %s", a, decOf(p))
			}
			q := p
			if s.ranged {
				q = minB(q, s.r.max)
			} else {
				q = minB(q, pow10i(38))
			}
			want := rsub(Y, rquo(X, ratP(q)))
			if want.Cmp(ratI(s.ry)) > 0 {
				want = ratI(s.ry)
			}
			if p.Cmp(price) <= 0 || q.Cmp(price) <= 0 || want.Sign() < 0 {
				want = new(big.Rat)
			}
			if ratI(a).Cmp(radd(want, eps(2, 18))) > 0 || ratI(a).Cmp(rsub(want, radd(one, eps(2, 18)))) < 0 {
				w, _ := want.Float64()
				rt.Fatalf("sell amount %s at %s, expected %v", a, decOf(p), w)
			}
			return a
		}
		if X.Sign() < 0 || Y.Sign() < 0 {
			c.Label("out of precision")
			return
		}
		b1, b2, s1, s2 := buy(p1), buy(p2), sell(p1), sell(p2)
		if b1.Sign() > 0 || s2.Sign() > 0 {
			c.NonTrivial()
		}
		if b1.Cmp(b2) < 0 {
			rt.Fatalf("buys %s at %s and %s at %s", b1, decOf(p1), b2, decOf(p2))
		}
		if s1.Cmp(s2) > 0 {
			rt.Fatalf("sells %s at %s and %s at %s", s1, decOf(p1), s2, decOf(p2))
		}
		// the amounts that move the pool's price to p
		K := rmul(X, Y)
		for _, p := range []*big.Int{p1, p2} {
			var bt, sl *big.Int
			if e := tryCall(func() { bt, sl = pool.BuyAmountTo(decOf(p)).BigInt(), pool.SellAmountTo(decOf(p)).BigInt() }); e != nil {
				c.Label("overflow in amount to")
				continue
			}
			if bt.Sign() < 0 || sl.Sign() < 0 || sl.Cmp(s.ry) > 0 || quoCeil(p, bt).Cmp(s.rx) > 0 {
				rt.Fatalf("amounts to %s: buy %s sell %s", decOf(p), bt, sl)
			}
			if bt.Sign() > 0 && p.Cmp(price) >= 0 || sl.Sign() > 0 && p.Cmp(price) <= 0 {
				rt.Fatalf("amounts to %s: buy %s sell %s at price %s", decOf(p), bt, sl, decOf(price))
			}
			if X.Sign() == 0 || Y.Sign() == 0 {
				continue
			}
			// relative error of the square roots
			e := rmul(eps(10, 18), radd(radd(rquo(one, sqrtRat(ratP(p))), radd(rquo(one, sqrtRat(X)), rquo(one, sqrtRat(Y)))), one))
			e = radd(e, eps(1, 17))
			near := rsub(X, sqrtRat(rmul(ratP(p), K)))
			if lim := ratI(s.rx); near.Cmp(lim) > 0 {
				near = lim
			}
			if bt.Sign() > 0 {
				c.Label("amount to")
				if d := rsub(rmul(ratI(bt), ratP(p)), near); d.Cmp(radd(one, rmul(e, radd(X, one)))) > 0 {
					rt.Fatalf("buys %s until %s", bt, decOf(p))
				}
			}
			q := p
			if s.ranged {
				q = maxB(q, s.r.min)
			} else {
				q = maxB(q, bi(1000))
			}
			low := rsub(X, sqrtRat(rmul(ratP(q), K)))
			if lim := ratI(s.rx); low.Cmp(lim) > 0 {
				low = lim
			}
			if q.Cmp(price) < 0 && bt.Cmp(maxAmt) < 0 {
				if d := rsub(low, rmul(ratI(bt), ratP(p))); d.Cmp(radd(radd(ratP(p), one), rmul(e, radd(X, one)))) > 0 {
					rt.Fatalf("buys only %s until %s", bt, decOf(p))
				}
			}
			q = p
			if s.ranged {
				q = minB(q, s.r.max)
			} else {
				q = minB(q, pow10i(38))
			}
			if q.Cmp(price) > 0 {
				e = radd(e, rmul(eps(10, 18), rquo(one, sqrtRat(ratP(q)))))
				want := rsub(Y, sqrtRat(rquo(K, ratP(q))))
				if lim := ratI(s.ry); want.Cmp(lim) > 0 {
					want = lim
				}
				d := rsub(ratI(sl), want)
				m := radd(radd(one, one), rmul(e, radd(Y, one)))
				if d.Cmp(m) > 0 || new(big.Rat).Neg(d).Cmp(m) > 0 && want.Sign() > 0 {
					rt.Fatalf("sells %s until %s", sl, decOf(p))
				}
			}
		}
	})
}

func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
