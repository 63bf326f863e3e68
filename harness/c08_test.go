package zverif

import (
	"math/big"
	"testing"

	"cosmossdk.io/math"
	"pgregory.net/rapid"

	"defund/x/dex/amm"
)

func toInt(x *big.Int) math.Int { return math.NewIntFromBigInt(x) }

// drawAmt draws an amount between 0 and max of any magnitude.
func drawAmt(rt *rapid.T, max *big.Int, label string) *big.Int {
	if max.Sign() <= 0 {
		return bi(0)
	}
	return minB(drawLog(rt, len(max.String()), label), max)
}

func TestC08(t *testing.T) {
	maxAmt := pow10i(40)
	drawPool := func(rt *rapid.T, c *Case) (rx, ry, ps *big.Int) {
		digits := rapid.SampledFrom([]int{8, 18, 24, 40}).Draw(rt, "digits")
		rx, ry = drawLog(rt, digits, "rx"), drawLog(rt, digits, "ry")
		switch rapid.IntRange(0, 7).Draw(rt, "sided") {
		case 0:
			rx = bi(0)
			c.Label("y only")
		case 1:
			ry = bi(0)
			c.Label("x only")
		}
		switch rapid.IntRange(0, 2).Draw(rt, "psKind") {
		case 0:
			ps = amm.InitialPoolCoinSupply(toInt(rx), toInt(ry)).BigInt()
			if ps.Cmp(pow10i(12)) < 0 {
				ps = pow10i(12)
			}
		default:
			ps = drawLog(rt, 40, "ps")
		}
		return
	}
	deposit := func(rt *rapid.T, c *Case, rx, ry, ps, x, y *big.Int) (ax, ay, pc *big.Int) {
		a, b, p := amm.Deposit(toInt(rx), toInt(ry), toInt(ps), toInt(x), toInt(y))
		ax, ay, pc = a.BigInt(), b.BigInt(), p.BigInt()
		if ax.Sign() < 0 || ay.Sign() < 0 || pc.Sign() < 0 {
			rt.Fatalf("negative result %s %s %s", ax, ay, pc)
		}
		if ax.Cmp(x) > 0 || ay.Cmp(y) > 0 {
			rt.Fatalf("accepted %s,%s of offered %s,%s", ax, ay, x, y)
		}
		for _, s := range [][3]*big.Int{{rx, ax, x}, {ry, ay, y}} {
			r, a := s[0], s[1]
			if r.Sign() == 0 {
				if a.Sign() != 0 {
					rt.Fatalf("accepted %s of a coin the pool does not hold", a)
				}
				continue
			}
			// pc/ps <= a/r up to the 18 digits of the share
			if mul(mul(pc, r), e18).Cmp(mul(add(mul(a, e18), r), ps)) > 0 {
				rt.Fatalf("minted %s of %s for %s of reserve %s", pc, ps, a, r)
			}
			// a <= ceil(r*pc/ps) up to the 18 digits of the share
			if a.Cmp(add(add(cdiv(mul(r, pc), ps), fdiv(r, e18)), bi(1))) > 0 {
				rt.Fatalf("accepted %s of reserve %s for %s of %s pool coins", a, r, pc, ps)
			}
			if pc.Sign() > 0 && a.Sign() == 0 {
				rt.Fatalf("minted %s for nothing", pc)
			}
		}
		// no more than the share of the offered coins, and not less than it beyond rounding
		share := (*big.Int)(nil)
		for _, s := range [][2]*big.Int{{rx, x}, {ry, y}} {
			if s[0].Sign() == 0 {
				continue
			}
			sh := fdiv(mul(ps, s[1]), s[0])
			if share == nil || sh.Cmp(share) < 0 {
				share = sh
			}
		}
		if pc.Cmp(share) > 0 {
			rt.Fatalf("minted %s, the share of the offered coins is %s", pc, share)
		}
		if pc.Cmp(sub(share, add(fdiv(ps, e18), bi(2)))) < 0 {
			if pc.Sign() == 0 && share.Cmp(pow10i(50)) > 0 {
				c.Label("overflow")
				return // accepts nothing
			}
			rt.Fatalf("minted only %s, the share of the offered coins is %s", pc, share)
		}
		return
	}
	withdraw := func(rt *rapid.T, c *Case, rx, ry, ps, pc *big.Int, fee math.LegacyDec) (x, y *big.Int) {
		a, b := amm.Withdraw(toInt(rx), toInt(ry), toInt(ps), toInt(pc), fee)
		x, y = a.BigInt(), b.BigInt()
		if pc.Cmp(ps) == 0 {
			if x.Cmp(rx) != 0 || y.Cmp(ry) != 0 {
				rt.Fatalf("the last pool coins get %s,%s of %s,%s", x, y, rx, ry)
			}
			c.Label("last pool coins")
			return
		}
		keep := sub(e18, fee.BigInt())
		for _, s := range [][2]*big.Int{{rx, x}, {ry, y}} {
			r, got := s[0], s[1]
			exact := fdiv(mul(mul(r, pc), keep), mul(ps, e18))
			if got.Sign() < 0 || got.Cmp(exact) > 0 {
				rt.Fatalf("withdrew %s of %s for %s of %s pool coins with fee %s, the share is %s", got, r, pc, ps, fee, exact)
			}
			if got.Cmp(sub(exact, add(fdiv(mul(r, bi(2)), e18), bi(2)))) < 0 {
				rt.Fatalf("withdrew only %s of %s for %s of %s pool coins with fee %s, the share is %s", got, r, pc, ps, fee, exact)
			}
		}
		return
	}
	drawFee := func(rt *rapid.T) math.LegacyDec {
		switch rapid.IntRange(0, 2).Draw(rt, "feeKind") {
		case 0:
			return math.LegacyZeroDec()
		case 1:
			return math.LegacyNewDecWithPrec(3, 3)
		}
		return decOf(drawBig(rt, bi(0), e18, "fee"))
	}
	room := func(r *big.Int) *big.Int { return sub(maxAmt, r) }
	prop(t, "deposit", 300000, func(rt *rapid.T, c *Case) {
		rx, ry, ps := drawPool(rt, c)
		if rx.Sign() == 0 && ry.Sign() == 0 {
			rx = bi(1)
		}
		x, y := drawAmt(rt, room(rx), "x"), drawAmt(rt, room(ry), "y")
		if rapid.Bool().Draw(rt, "proportional") { // nearly proportional offers
			k := drawLog(rt, 20, "k")
			x = minB(room(rx), add(fdiv(mul(rx, k), pow10i(10)), bi(rapid.Int64Range(0, 2).Draw(rt, "dx"))))
			y = minB(room(ry), add(fdiv(mul(ry, k), pow10i(10)), bi(rapid.Int64Range(0, 2).Draw(rt, "dy"))))
			c.Label("proportional")
		}
		c.Logf("rx=%s ry=%s ps=%s deposit %s %s", rx, ry, ps, x, y)
		ax, ay, pc := deposit(rt, c, rx, ry, ps, x, y)
		if pc.Sign() > 0 {
			c.NonTrivial()
			c.Label("minted")
		}
		// depositing and withdrawing at once yields no profit
		if pc.Sign() > 0 {
			wx, wy := withdraw(rt, c, add(rx, ax), add(ry, ay), add(ps, pc), pc, drawFee(rt))
			if wx.Cmp(add(ax, fdiv(add(rx, ax), e18))) > 0 || wy.Cmp(add(ay, fdiv(add(ry, ay), e18))) > 0 {
				rt.Fatalf("deposited %s,%s and withdrew %s,%s", ax, ay, wx, wy)
			}
		}
	})
	prop(t, "withdraw", 300000, func(rt *rapid.T, c *Case) {
		rx, ry, ps := drawPool(rt, c)
		pc := drawAmt(rt, ps, "pc")
		if rapid.IntRange(0, 9).Draw(rt, "all") == 0 {
			pc = ps
		} else if rapid.IntRange(0, 5).Draw(rt, "almost") == 0 && ps.Cmp(bi(3)) > 0 {
			pc = sub(ps, bi(rapid.Int64Range(1, 2).Draw(rt, "less")))
		}
		if pc.Sign() == 0 {
			pc = bi(1)
		}
		fee := drawFee(rt)
		c.Logf("rx=%s ry=%s ps=%s withdraw %s fee %s", rx, ry, ps, pc, fee)
		x, y := withdraw(rt, c, rx, ry, ps, pc, fee)
		if x.Sign() > 0 || y.Sign() > 0 {
			c.NonTrivial()
		}
		// a sequence of two withdrawals gets no more than one of the sum
		pc2 := drawAmt(rt, sub(ps, pc), "pc2")
		if pc2.Sign() > 0 && fee.IsZero() {
			x2, y2 := withdraw(rt, c, sub(rx, x), sub(ry, y), sub(ps, pc), pc2, fee)
			tol := add(fdiv(mul(add(rx, ry), bi(2)), e18), bi(1))
			if mul(add(x, x2), ps).Cmp(mul(add(mul(rx, add(pc, pc2)), mul(tol, ps)), bi(1))) > 0 ||
				mul(add(y, y2), ps).Cmp(mul(add(mul(ry, add(pc, pc2)), mul(tol, ps)), bi(1))) > 0 {
				rt.Fatalf("two withdrawals get %s,%s and %s,%s", x, y, x2, y2)
			}
		}
	})
	prop(t, "supply", 20000, func(rt *rapid.T, c *Case) {
		x, y := drawAmt(rt, maxAmt, "x"), drawAmt(rt, maxAmt, "y")
		c.Logf("initial supply %s %s", x, y)
		ps := amm.InitialPoolCoinSupply(toInt(x), toInt(y)).BigInt()
		// 10^ceil((digits of x + digits of y)/2)
		if want := pow10i((len(x.String()) + len(y.String()) + 1) / 2); ps.Cmp(want) != 0 {
			rt.Fatalf("initial pool coin supply of %s,%s is %s, want %s", x, y, ps, want)
		}
		c.NonTrivial()
	})
}
