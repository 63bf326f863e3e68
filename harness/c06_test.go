package zverif

import (
	"fmt"
	"math/big"
	"math/rand"
	"testing"

	"pgregory.net/rapid"

	"defund/x/dex/amm"
)

// checkTicks compares every tick function at the scaled price x with the grid.
func checkTicks(x *big.Int, prec int) error {
	d := decOf(x)
	tp := amm.TickPrecision(prec)
	low := pow10i(prec)
	down, up := rDown(x, prec), rUp(x, prec)
	gap := rGap(x, prec)
	want := func(name string, got, exp *big.Int) error {
		if got.Cmp(exp) != 0 {
			return fmt.Errorf("prec %d: %s(%s) = %s, want %s", prec, name, d, decOf(got), decOf(exp))
		}
		return nil
	}
	next := add(down, gap)
	prev := down
	if down.Cmp(x) == 0 {
		prev = sub(x, rGap(sub(x, bi(1)), prec))
		if x.Cmp(bi(1)) == 0 {
			prev = nil
		}
	}
	errs := []error{
		want("PriceToDownTick", amm.PriceToDownTick(d, prec).BigInt(), down),
		want("PriceToUpTick", amm.PriceToUpTick(d, prec).BigInt(), up),
		want("UpTick", amm.UpTick(d, prec).BigInt(), next),
		want("TickGap", amm.TickGap(d, prec).BigInt(), gap),
		want("TickPrecision.PriceToDownTick", tp.PriceToDownTick(d).BigInt(), down),
		want("TickPrecision.PriceToUpTick", tp.PriceToUpTick(d).BigInt(), up),
		want("TickPrecision.UpTick", tp.UpTick(d).BigInt(), next),
		want("TickPrecision.TickGap", tp.TickGap(d).BigInt(), gap),
		// idempotent
		want("PriceToDownTick of down tick", amm.PriceToDownTick(decOf(down), prec).BigInt(), down),
		want("PriceToUpTick of up tick", amm.PriceToUpTick(decOf(up), prec).BigInt(), up),
		// inverse
		want("DownTick of UpTick", amm.DownTick(amm.UpTick(decOf(down), prec), prec).BigInt(), down),
	}
	if prev != nil {
		errs = append(errs,
			want("DownTick", amm.DownTick(d, prec).BigInt(), prev),
			want("TickPrecision.DownTick", tp.DownTick(d).BigInt(), prev))
		if prev.Sign() > 0 && down.Cmp(x) == 0 {
			errs = append(errs, want("UpTick of DownTick", amm.UpTick(amm.DownTick(d, prec), prec).BigInt(), down))
		}
	}
	if x.Cmp(low) >= 0 {
		i := rIndex(down, prec)
		if got := amm.TickToIndex(decOf(down), prec); int64(got) != i {
			errs = append(errs, fmt.Errorf("prec %d: TickToIndex(%s) = %d, want %d", prec, decOf(down), got, i))
		}
		errs = append(errs,
			want("TickFromIndex of index", amm.TickFromIndex(int(i), prec).BigInt(), down),
			want("TickFromIndex of next index", amm.TickFromIndex(int(i)+1, prec).BigInt(), next),
			want("TickPrecision.TickFromIndex", tp.TickFromIndex(tp.TickToIndex(decOf(down))).BigInt(), down),
			want("RoundPrice", amm.RoundPrice(d, prec).BigInt(), rRound(x, prec)),
			want("TickPrecision.RoundPrice", tp.RoundPrice(d).BigInt(), rRound(x, prec)))
		r := amm.RoundPrice(d, prec).BigInt()
		if r.Cmp(down) < 0 || r.Cmp(up) > 0 || rDown(r, prec).Cmp(r) != 0 {
			errs = append(errs, fmt.Errorf("prec %d: RoundPrice(%s) = %s leaves its tick interval", prec, d, decOf(r)))
		}
	}
	if d.BigInt().Cmp(x) != 0 {
		errs = append(errs, fmt.Errorf("argument modified"))
	}
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func checkEnds(prec int) error {
	low, high := amm.LowestTick(prec), amm.HighestTick(prec)
	if low.BigInt().Cmp(pow10i(prec)) != 0 || amm.TickPrecision(prec).LowestTick().BigInt().Cmp(pow10i(prec)) != 0 {
		return fmt.Errorf("lowest tick %s of prec %d", low, prec)
	}
	if amm.TickToIndex(low, prec) != 0 {
		return fmt.Errorf("index of the lowest tick %s is %d", low, amm.TickToIndex(low, prec))
	}
	lim := sub(new(big.Int).Lsh(bi(1), 300), bi(1))
	if high.BigInt().Cmp(rDown(lim, prec)) != 0 || amm.TickPrecision(prec).HighestTick().BigInt().Cmp(high.BigInt()) != 0 {
		return fmt.Errorf("highest tick %s of prec %d", high, prec)
	}
	return nil
}

func TestC06(t *testing.T) {
	once(t, "sweep", func(t *testing.T, c *Case) {
		for prec := 0; prec <= 3; prec++ {
			if err := checkEnds(prec); err != nil {
				t.Fatal(err)
			}
			p := pow10i(prec).Int64()
			n := 90 * 9 * p // every tick of 90 decades
			step := int64(1)
			if prec == 3 {
				step = 7
			}
			for i := int64(0); i < n; i += step {
				x := rTick(i, prec)
				for _, dx := range []int64{0, -1, 1} {
					y := add(x, bi(dx))
					if y.Sign() <= 0 || y.BitLen() > 300 {
						continue
					}
					if err := checkTicks(y, prec); err != nil {
						t.Fatal(err)
					}
				}
				if i%97 == 0 {
					each(fmt.Sprintf("sweep prec %d tick %s and neighbours", prec, decOf(x)), true)
				}
			}
		}
		for prec := 4; prec <= 10; prec++ {
			if err := checkEnds(prec); err != nil {
				t.Fatal(err)
			}
		}
	})
	prop(t, "grid", 400000, func(rt *rapid.T, c *Case) {
		prec := rapid.IntRange(0, 10).Draw(rt, "prec")
		var x *big.Int
		switch rapid.IntRange(0, 3).Draw(rt, "kind") {
		case 0: // anything
			x = drawLog(rt, 90, "price")
		case 1: // next to a power of ten
			x = add(pow10i(rapid.IntRange(0, 88).Draw(rt, "exp")), bi(rapid.Int64Range(-3, 3).Draw(rt, "off")))
			c.Label("next to a power of ten")
		case 2: // next to a tick
			e := rapid.IntRange(0, 70).Draw(rt, "e")
			x = mul(drawBig(rt, pow10i(prec), pow10i(prec+1), "mant"), pow10i(e))
			x = add(x, bi(rapid.Int64Range(-2, 2).Draw(rt, "off")))
			c.Label("next to a tick")
		default: // in the middle of two ticks
			e := rapid.IntRange(1, 70).Draw(rt, "e")
			x = mul(drawBig(rt, pow10i(prec), pow10i(prec+1), "mant"), pow10i(e))
			x = add(x, add(fdiv(pow10i(e), bi(2)), bi(rapid.Int64Range(-1, 1).Draw(rt, "off"))))
			c.Label("in the middle of two ticks")
		}
		if x.Sign() <= 0 {
			x = bi(1)
		}
		if x.BitLen() > 300 {
			x = sub(new(big.Int).Lsh(bi(1), 300), bi(1))
		}
		c.Logf("prec=%d price=%s", prec, decOf(x))
		if err := checkTicks(x, prec); err != nil {
			rt.Fatal(err)
		}
		// order preserving
		y := add(x, drawLog(rt, len(x.String())+1, "more"))
		if y.BitLen() <= 300 {
			if amm.PriceToDownTick(decOf(x), prec).GT(amm.PriceToDownTick(decOf(y), prec)) ||
				amm.PriceToUpTick(decOf(x), prec).GT(amm.PriceToUpTick(decOf(y), prec)) {
				rt.Fatalf("rounding of %s and %s to ticks does not keep their order", decOf(x), decOf(y))
			}
			if x.Cmp(pow10i(prec)) >= 0 {
				a, b := amm.PriceToDownTick(decOf(x), prec), amm.PriceToDownTick(decOf(y), prec)
				if ia, ib := amm.TickToIndex(a, prec), amm.TickToIndex(b, prec); ia > ib || (ia == ib) != a.Equal(b) {
					rt.Fatalf("indices %d and %d of ticks %s and %s are not in order", ia, ib, a, b)
				}
			}
		}
		if rDown(x, prec).Cmp(x) != 0 || rDigits(x) != rDigits(add(x, bi(1))) {
			c.NonTrivial()
		}
		c.Label(fmt.Sprintf("precision %d", prec))
	})
	prop(t, "randomTick", 20000, func(rt *rapid.T, c *Case) {
		prec := rapid.IntRange(1, 6).Draw(rt, "prec")
		i := drawTickIdx(rt, prec, -12, 15, "tick")
		w := rapid.Int64Range(1, 100000).Draw(rt, "width")
		lo, hi := rTick(i, prec), rTick(i+w, prec)
		seed := rapid.Int64().Draw(rt, "seed")
		c.Logf("prec=%d [%s,%s] seed %d", prec, decOf(lo), decOf(hi), seed)
		x := amm.RandomTick(rand.New(rand.NewSource(seed)), decOf(lo), decOf(hi), prec).BigInt()
		if x.Cmp(lo) < 0 || x.Cmp(hi) > 0 || rDown(x, prec).Cmp(x) != 0 {
			rt.Fatalf("random tick %s", decOf(x))
		}
		c.NonTrivial()
	})
}
