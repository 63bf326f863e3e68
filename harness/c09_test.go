package zverif

import (
	"fmt"
	"math/big"
	"testing"

	"cosmossdk.io/math"
	"pgregory.net/rapid"

	"defund/x/dex/amm"
)

type rangeSpec struct {
	prec     int
	min, max *big.Int
}

// drawRange draws a valid price range of a ranged pool on ticks.
func drawRange(rt *rapid.T) rangeSpec {
	r := rangeSpec{prec: rapid.SampledFrom([]int{4, 4, 3, 5}).Draw(rt, "prec")}
	p := pow10i(r.prec).Int64()
	lo := int64(0) // the lowest tick, or 10^-15 when that is higher
	if r.prec < 3 {
		lo = rIndex(bi(1000), r.prec)
	}
	hi := rIndex(pow10i(38), r.prec) // 10^20
	loE, hiE := -9, 12
	if rapid.IntRange(0, 7).Draw(rt, "anyPrice") == 0 {
		loE, hiE = -14, 19
	}
	i := drawTickIdx(rt, r.prec, loE, hiE, "min")
	if i < lo {
		i = lo
	}
	if i > hi-p {
		i = hi - p
	}
	var w int64
	switch rapid.IntRange(0, 3).Draw(rt, "width") {
	case 0: // about the smallest gap
		w = p/1000 + rapid.Int64Range(0, 20).Draw(rt, "w")
	case 1:
		w = rapid.Int64Range(1, 2*p).Draw(rt, "w")
	case 2:
		w = rapid.Int64Range(p, 20*p).Draw(rt, "w")
	default:
		w = rapid.Int64Range(1, hi-i).Draw(rt, "w")
	}
	if w < 1 {
		w = 1
	}
	for {
		if i+w > hi {
			w = hi - i
		}
		r.min, r.max = rTick(i, r.prec), rTick(i+w, r.prec)
		// (max-min)/min >= 0.001
		if mul(sub(r.max, r.min), bi(1000)).Cmp(r.min) >= 0 {
			return r
		}
		w *= 2
	}
}

func (r rangeSpec) String() string {
	return fmt.Sprintf("range [%s, %s] prec %d", decOf(r.min), decOf(r.max), r.prec)
}

// priceTol is the relative rounding error of the price of a ranged pool with
// the given reserves: all intermediate values carry 18 digits only.
func priceTol(pool *amm.RangedPool, r rangeSpec, rx, ry *big.Int) *big.Rat {
	X, Y := curve(pool)
	one := ratI(bi(1))
	inv := func(a *big.Rat) *big.Rat {
		if a.Sign() <= 0 {
			return new(big.Rat)
		}
		return rquo(one, a)
	}
	e := radd(inv(X), inv(Y))
	e = radd(e, radd3(inv(ratP(r.min)), one, sqrtRat(ratP(r.max))))
	if rx.Sign() > 0 && ry.Sign() > 0 {
		q := rquo(ratI(rx), ratI(ry))
		// cancellation in (alpha + sqrt(alpha^2+4))/2
		e = radd(e, sqrtRat(rquo(q, ratP(r.max))))
		e = radd(e, radd(inv(q), inv(sqrtRat(q))))
		e = radd(e, rmul(sqrtRat(inv(q)), sqrtRat(ratP(r.max))))
		e = radd(e, sqrtRat(ratP(r.max)))
	}
	// ratios of the reserves below 10^-18 are taken as zero
	return radd(rmul(e, eps(100, 18)), rmul(radd(ratP(r.max), inv(ratP(r.min))), eps(2, 18)))
}

func TestC09(t *testing.T) {
	prop(t, "state", 60000, func(rt *rapid.T, c *Case) {
		r := drawRange(rt)
		digits := rapid.SampledFrom([]int{8, 20, 31, 40}).Draw(rt, "digits")
		rx, ry := drawLog(rt, digits, "rx"), drawLog(rt, digits, "ry")
		switch rapid.IntRange(0, 5).Draw(rt, "one") {
		case 0:
			rx = bi(0)
		case 1:
			ry = bi(0)
		case 2, 3: // keep it near the range
			m := add(r.min, drawBig(rt, bi(0), sub(r.max, r.min), "ratio"))
			ry = maxB(bi(1), minB(pow10i(40), fdiv(mul(rx, e18), m)))
		}
		c.Logf("%s rx=%s ry=%s", r, rx, ry)
		var pool *amm.RangedPool
		var price math.LegacyDec
		if e := tryCall(func() {
			pool = amm.NewRangedPool(toInt(rx), toInt(ry), math.NewInt(1), decOf(r.min), decOf(r.max))
			price = pool.Price()
		}); e != nil {
			rt.Fatalf("%v", e)
		}
		if a, b := pool.Balances(); a.BigInt().Cmp(rx) != 0 || b.BigInt().Cmp(ry) != 0 {
			rt.Fatalf("balances %s %s", a, b)
		}
		tol := priceTol(pool, r, rx, ry)
		if tol.Cmp(eps(1, 3)) > 0 {
			c.Label("out of precision")
			return
		}
		c.NonTrivial()
		f, _ := tol.Float64()
		lo, hi := rmul(ratP(r.min), rsub(ratI(bi(1)), tol)), rmul(ratP(r.max), radd(ratI(bi(1)), tol))
		if ratDec(price).Cmp(rsub(lo, eps(2, 18))) < 0 || ratDec(price).Cmp(radd(hi, eps(2, 18))) > 0 {
			rt.Fatalf("price %s out of the range (rounding error %g)", price, f)
		}
		if tol.Cmp(eps(1, 1)) < 0 {
			if rx.Sign() == 0 && ratDec(price).Cmp(rmul(ratP(r.min), radd(ratI(bi(1)), tol))) > 0 {
				rt.Fatalf("a pool without quote coins has price %s (%g)", price, f)
			}
			if ry.Sign() == 0 && ratDec(price).Cmp(rmul(ratP(r.max), rsub(ratI(bi(1)), tol))) < 0 {
				rt.Fatalf("a pool without base coins has price %s (%g)", price, f)
			}
		}
		// the price grows with the reserves of the quote coin and falls with those of the base coin
		tol2 := rmul(tol, ratI(bi(4)))
		if tol2.Cmp(eps(1, 2)) < 0 {
			dx := drawAmt(rt, rx, "dx")
			dy := drawAmt(rt, ry, "dy")
			p2 := amm.NewRangedPool(toInt(add(rx, dx)), toInt(ry), math.NewInt(1), decOf(r.min), decOf(r.max)).Price()
			if ratDec(p2).Cmp(rmul(ratDec(price), rsub(ratI(bi(1)), tol2))) < 0 {
				rt.Fatalf("price falls from %s to %s with %s more quote coins (%g)", price, p2, dx, f)
			}
			p3 := amm.NewRangedPool(toInt(rx), toInt(add(ry, dy)), math.NewInt(1), decOf(r.min), decOf(r.max)).Price()
			if ratDec(p3).Cmp(rmul(ratDec(price), radd(ratI(bi(1)), tol2))) > 0 {
				rt.Fatalf("price grows from %s to %s with %s more base coins (%g)", price, p3, dy, f)
			}
			c.Label("monotone")
		}
	})
	prop(t, "create", 60000, func(rt *rapid.T, c *Case) {
		r := drawRange(rt)
		digits := rapid.SampledFrom([]int{6, 12, 20, 31, 40}).Draw(rt, "digits")
		x, y := drawLog(rt, digits, "x"), drawLog(rt, digits, "y")
		lo, hi := rIndex(r.min, r.prec), rIndex(r.max, r.prec)
		min, max := r.min, r.max
		var init *big.Int
		switch rapid.IntRange(0, 6).Draw(rt, "initKind") {
		case 0:
			init = min
		case 1:
			init = max
		case 2:
			init = rTick(minB(bi(lo+1), bi(hi)).Int64(), r.prec)
		case 3:
			init = rTick(max64(hi-1, lo), r.prec)
		case 4: // any price at all
			init = drawLog(rt, 38, "init")
			if init.Cmp(min) > 0 && init.Cmp(max) < 0 { // the keeper refuses prices between ticks
				init = rDown(init, r.prec)
			}
		default:
			init = rTick(rapid.Int64Range(lo, hi).Draw(rt, "init"), r.prec)
		}
		if rapid.Bool().Draw(rt, "proportional") {
			y = maxB(bi(1), minB(pow10i(40), fdiv(mul(x, e18), init)))
		}
		switch rapid.IntRange(0, 9).Draw(rt, "bad") {
		case 0: // invalid ranges
			switch rapid.IntRange(0, 5).Draw(rt, "how") {
			case 0:
				min, max = max, min
			case 1:
				max = min
			case 2: // close prices
				max = add(min, drawBig(rt, bi(0), fdiv(min, bi(500)), "gap"))
			case 3:
				min = bi(rapid.Int64Range(-10, 2000).Draw(rt, "lowMin"))
			case 4:
				max = add(pow10i(38), bi(rapid.Int64Range(-3, 3).Draw(rt, "highMax")))
			case 5:
				init = bi(rapid.Int64Range(-1, 1).Draw(rt, "lowInit"))
			}
		case 1:
			x = bi(0)
		case 2:
			y = bi(0)
		case 3:
			x, y = bi(0), bi(0)
		}
		c.Logf("create range [%s, %s] at %s with %s,%s", decOf(min), decOf(max), decOf(init), x, y)
		var pool *amm.RangedPool
		var err error
		if e := tryCall(func() { pool, err = amm.CreateRangedPool(toInt(x), toInt(y), decOf(min), decOf(max), decOf(init)) }); e != nil {
			// amounts beyond any reserve
			rt.Fatalf("panic: %v", e)
		}
		gapOK := min.Sign() > 0 && mul(add(mul(sub(max, min), bi(1000)), fdiv(min, pow10i(15))), bi(1)).Cmp(min) >= 0
		strictGap := min.Sign() > 0 && mul(sub(max, min), bi(1000)).Cmp(min) >= 0
		base := (x.Sign() > 0 || y.Sign() > 0) && init.Sign() > 0 && min.Cmp(bi(1000)) >= 0 && max.Cmp(pow10i(38)) <= 0 &&
			max.Cmp(min) > 0 && init.Cmp(min) >= 0 && init.Cmp(max) <= 0
		if err == nil && !(base && gapOK) {
			rt.Fatalf("invalid pool created")
		}
		if err != nil {
			if base && strictGap {
				rt.Fatalf("valid pool refused: %v", err)
			}
			c.Label("refused")
			c.NonTrivial()
			return
		}
		a, b := pool.Balances()
		ax, ay := a.BigInt(), b.BigInt()
		if ax.Sign() < 0 || ay.Sign() < 0 || ax.Cmp(x) > 0 || ay.Cmp(y) > 0 {
			rt.Fatalf("takes %s,%s of the offered %s,%s", ax, ay, x, y)
		}
		if ax.Cmp(x) != 0 && ay.Cmp(y) != 0 {
			rt.Fatalf("uses no side completely: %s,%s of the offered %s,%s", ax, ay, x, y)
		}
		if init.Cmp(min) == 0 && ax.Sign() != 0 || init.Cmp(max) == 0 && ay.Sign() != 0 {
			rt.Fatalf("%s,%s for a single sided pool", ax, ay)
		}
		if !pool.MinPrice().Equal(decOf(min)) || !pool.MaxPrice().Equal(decOf(max)) {
			rt.Fatalf("range [%s, %s]", pool.MinPrice(), pool.MaxPrice())
		}
		if !pool.PoolCoinSupply().Equal(amm.InitialPoolCoinSupply(a, b)) {
			rt.Fatalf("pool coin supply %s", pool.PoolCoinSupply())
		}
		if ax.Sign() == 0 && ay.Sign() == 0 {
			c.Label("empty")
			return
		}
		c.NonTrivial()
		r.min, r.max = min, max
		tol := priceTol(pool, r, ax, ay)
		one := ratI(bi(1))
		if ax.Sign() > 0 {
			tol = radd(tol, rquo(ratI(bi(2)), ratI(ax)))
		}
		if ay.Sign() > 0 {
			tol = radd(tol, rquo(ratI(bi(2)), ratI(ay)))
		}
		if init.Cmp(min) > 0 && init.Cmp(max) < 0 {
			// cancellation in sqrt(P)-sqrt(M) and 1/sqrt(P)-1/sqrt(L)
			sp, sm, sl := sqrtRat(ratP(init)), sqrtRat(ratP(min)), sqrtRat(ratP(max))
			e := radd(rquo(one, rsub(sp, sm)), rquo(one, rsub(rquo(one, sp), rquo(one, sl))))
			tol = radd(tol, rmul(e, eps(100, 18)))
		}
		f, _ := tol.Float64()
		if tol.Cmp(eps(1, 3)) > 0 {
			c.Label("out of precision")
			return
		}
		c.Label("price checked")
		if d := rsub(rquo(ratDec(pool.Price()), ratP(init)), one); d.Abs(d).Cmp(tol) > 0 {
			rt.Fatalf("price %s, balances %s,%s (%g)", pool.Price(), ax, ay, f)
		}
	})
}
