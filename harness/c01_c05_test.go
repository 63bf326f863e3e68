package zverif

import (
	"math/big"
	"testing"

	"pgregory.net/rapid"

	"defund/x/dex/amm"
)

// price at which the single price mode is run: the clearing price, the last
// price, or any tick near the orders.
func drawSinglePrice(rt *rapid.T, b book) *big.Int {
	if rapid.Bool().Draw(rt, "clearing") {
		ob, _ := b.build(nil)
		if p, ok := amm.FindMatchPrice(ob.MakeView(), b.prec); ok {
			return p.BigInt()
		}
	}
	if len(b.specs) > 0 && rapid.Bool().Draw(rt, "atOrder") {
		return b.specs[rapid.IntRange(0, len(b.specs)-1).Draw(rt, "which")].price
	}
	return b.last
}

func (b book) ratio() *big.Int { // highest over lowest price, rounded up
	hi, lo := b.last, b.last
	for _, s := range b.specs {
		if s.price.Cmp(hi) > 0 {
			hi = s.price
		}
		if s.price.Cmp(lo) < 0 {
			lo = s.price
		}
	}
	return cdiv(hi, lo)
}

// runs of one book: both modes
type matchRun struct {
	name  string
	out   outcome
	fills int64 // largest possible number of fills of one order
}

func (b book) runs(rt *rapid.T) []matchRun {
	p := drawSinglePrice(rt, b)
	prices := map[string]bool{}
	for _, s := range b.specs {
		prices[s.price.String()] = true
	}
	return []matchRun{
		{"single price " + decOf(p).String(), b.runSingle(nil, p), 1},
		{"two phases", b.runMatch(nil), int64(len(prices)) + 1},
	}
}

func anyFill(o outcome) int {
	n := 0
	for _, x := range o.orders {
		if x.filled.Sign() > 0 {
			n++
		}
	}
	return n
}

func TestC01(t *testing.T) {
	prop(t, "limits", 400000, func(rt *rapid.T, c *Case) {
		b := drawBook(rt, c)
		for _, r := range b.runs(rt) {
			for i, x := range r.out.orders {
				s := b.specs[i]
				fail := func(why string) { rt.Fatalf("%s: order #%d (%s): %s\n%s", r.name, i, s, why, r.out) }
				if x.open.Sign() < 0 || x.filled.Sign() < 0 {
					fail("filled more than its open amount or less than nothing")
				}
				if x.amt.Cmp(s.amt) > 0 {
					fail("enters the book with more than its open amount")
				}
				if x.paid.Cmp(s.rem) > 0 {
					fail("paid more than its offer")
				}
				if x.filled.Sign() == 0 {
					if x.paid.Sign() != 0 || x.recv.Sign() != 0 {
						fail("pays or receives without a fill")
					}
					continue
				}
				if x.paid.Sign() <= 0 || x.recv.Sign() <= 0 {
					fail("filled without paying or receiving")
				}
				if s.buy {
					// paid <= price*filled + one unit per fill
					if mul(x.paid, e18).Cmp(add(mul(s.price, x.filled), mul(e18, bi(r.fills)))) >= 0 {
						fail("buyer paid above its limit price")
					}
					if x.recv.Cmp(x.filled) != 0 {
						fail("buyer received another amount than filled")
					}
				} else {
					if add(mul(x.recv, e18), mul(e18, bi(r.fills))).Cmp(mul(s.price, x.filled)) <= 0 {
						fail("seller received less than its limit price")
					}
					if x.paid.Cmp(x.filled) != 0 {
						fail("seller paid another amount than filled")
					}
				}
				if r.fills == 1 {
					want := quoCeil(r.out.price, x.filled)
					got := x.paid
					if !s.buy {
						want, got = quoFloor(r.out.price, x.filled), x.recv
					}
					if want.Cmp(got) != 0 {
						fail("fill is not at the single price")
					}
				}
			}
			if n := anyFill(r.out); n > 0 {
				c.NonTrivial()
				c.Label("filled " + r.name[:6])
				if n > 2 {
					c.Label("3+ fills")
				}
			}
		}
	})
}

func TestC02(t *testing.T) {
	prop(t, "conservation", 400000, func(rt *rapid.T, c *Case) {
		b := drawBook(rt, c)
		for _, r := range b.runs(rt) {
			bought, sold, paid, recv := bi(0), bi(0), bi(0), bi(0)
			for i, x := range r.out.orders {
				if b.specs[i].buy {
					bought.Add(bought, x.recv)
					paid.Add(paid, x.paid)
				} else {
					sold.Add(sold, x.paid)
					recv.Add(recv, x.recv)
				}
			}
			if bought.Cmp(sold) != 0 {
				rt.Fatalf("%s: bought %s but sold %s\n%s", r.name, bought, sold, r.out)
			}
			if !r.out.matched {
				if anyFill(r.out) > 0 || paid.Sign() != 0 || recv.Sign() != 0 {
					rt.Fatalf("%s: reported unmatched but orders changed\n%s", r.name, r.out)
				}
				continue
			}
			if sold.Sign() == 0 {
				rt.Fatalf("%s: reported matched without a fill\n%s", r.name, r.out)
			}
			if r.out.diff.Sign() < 0 || sub(paid, recv).Cmp(r.out.diff) != 0 {
				rt.Fatalf("%s: paid %s received %s leftover %s\n%s", r.name, paid, recv, r.out.diff, r.out)
			}
			c.NonTrivial()
			if r.out.diff.Sign() > 0 {
				c.Label("leftover")
			} else {
				c.Label("no leftover")
			}
			for _, x := range r.out.orders {
				if x.filled.Sign() > 0 && x.open.Sign() > 0 {
					c.Label("partial fill")
				}
			}
		}
	})
}

// matchable amount of an order after the run at price p
func leftMatchable(s ordSpec, x outOrder, p *big.Int) *big.Int {
	m := x.open
	if s.buy {
		m = minB(m, fdiv(mul(sub(s.rem, x.paid), e18), p))
	}
	return m
}

func TestC03(t *testing.T) {
	prop(t, "priority", 400000, func(rt *rapid.T, c *Case) {
		b := drawBook(rt, c)
		for _, r := range b.runs(rt) {
			tol := mul(bi(int64(b.n)+1), b.ratio())
			for i, x := range r.out.orders {
				if x.filled.Sign() == 0 {
					continue
				}
				for j, y := range r.out.orders {
					s, o := b.specs[i], b.specs[j] // s was filled, o must not be left behind
					if i == j || s.buy != o.buy || o.ref(j).matchable(o.price).Sign() == 0 {
						continue // orders which are not worth one quote coin do not enter the book
					}
					cmp := o.price.Cmp(s.price)
					if !o.buy {
						cmp = -cmp
					}
					older := cmp == 0 && o.batch != 0 && (s.batch == 0 || o.batch < s.batch)
					if cmp <= 0 && !older {
						continue
					}
					c.NonTrivial()
					if cmp > 0 {
						c.Label("better price")
					} else {
						c.Label("older batch")
					}
					var left *big.Int
					if r.fills == 1 { // exact at the single price
						left = quoFloor(r.out.price, leftMatchable(o, y, r.out.price))
						if left.Sign() > 0 {
							rt.Fatalf("%s: #%d was filled while #%d with priority still could trade %s\n%s", r.name, i, j, left, r.out)
						}
						continue
					}
					left = quoFloor(o.price, leftMatchable(o, y, o.price))
					if left.Cmp(tol) > 0 {
						rt.Fatalf("%s: #%d was filled while #%d with priority still could trade %s\n%s", r.name, i, j, left, r.out)
					}
				}
			}
		}
	})
	prop(t, "prorata", 400000, func(rt *rapid.T, c *Case) {
		b := drawBook(rt, c)
		p := drawSinglePrice(rt, b)
		out := b.runSingle(nil, p)
		if !out.matched {
			return
		}
		rs := b.refs()
		type gkey struct {
			buy   bool
			price string
			batch uint64
		}
		groups := map[gkey][]int{}
		var keys []gkey
		for i, s := range b.specs {
			k := gkey{s.buy, s.price.String(), s.batch}
			if groups[k] == nil {
				keys = append(keys, k)
			}
			groups[k] = append(groups[k], i)
		}
		for _, k := range keys {
			g := groups[k]
			sum, sumAll, sumK, nK := bi(0), bi(0), bi(0), int64(0)
			partial := false
			for _, i := range g {
				x := out.orders[i]
				if rs[i].matchable(p).Sign() == 0 || rs[i].matchable(rs[i].price).Sign() == 0 {
					continue
				}
				sum.Add(sum, x.filled)
				sumAll.Add(sumAll, x.amt)
				if x.filled.Sign() > 0 {
					sumK.Add(sumK, x.amt)
					nK++
				}
				if x.open.Sign() > 0 {
					partial = true
				}
			}
			if sum.Sign() == 0 || !partial {
				continue
			}
			if len(g) > 1 {
				c.NonTrivial()
				c.Label("partially filled group")
			}
			round := add(bi(1), fdiv(sum, e18)) // truncation of a share
			for _, i := range g {
				x := out.orders[i]
				if rs[i].matchable(p).Sign() == 0 || rs[i].matchable(rs[i].price).Sign() == 0 {
					continue
				}
				if x.filled.Sign() == 0 {
					c.Label("dropped from group")
					share := sub(fdiv(mul(sum, x.amt), sumAll), add(round, bi(1)))
					if share.Sign() > 0 && quoFloor(p, share).Sign() > 0 {
						rt.Fatalf("#%d got nothing though its share is worth something at %s\n%s", i, decOf(p), out)
					}
					continue
				}
				share := fdiv(mul(sum, x.amt), sumK)
				// the rest of the truncation can be at most one unit (or 18 digits) per order
				lim := mul(round, bi(nK+1))
				if sub(share, lim).Cmp(x.filled) > 0 || x.filled.Cmp(add(share, lim)) > 0 {
					rt.Fatalf("#%d filled %s, its share of %s is %s\n%s", i, x.filled, sum, share, out)
				}
			}
			for _, i := range g {
				for _, j := range g {
					if i != j && rs[i].before(rs[j]) && out.orders[i].filled.Cmp(out.orders[j].filled) < 0 {
						rt.Fatalf("#%d has priority over #%d but was filled less\n%s", i, j, out)
					}
				}
			}
		}
	})
	// The two phases distribute to one group up to once per price of the other
	// side. Each time the shares are taken of the original sizes, so that the
	// totals are proportional too, apart from the indivisible rest of each step
	// and shares worth less than one quote coin.
	prop(t, "prorataTwoPhases", 200000, func(rt *rapid.T, c *Case) {
		b := drawBook(rt, c)
		out := b.runMatch(nil)
		if !out.matched {
			return
		}
		type gkey struct {
			buy   bool
			price string
			batch uint64
		}
		groups := map[gkey][]int{}
		var keys []gkey
		var low *big.Int
		prices := map[string]bool{}
		for i, s := range b.specs {
			k := gkey{s.buy, s.price.String(), s.batch}
			if groups[k] == nil {
				keys = append(keys, k)
			}
			groups[k] = append(groups[k], i)
			prices[s.price.String()] = true
			if low == nil || s.price.Cmp(low) < 0 {
				low = s.price
			}
		}
		if b.last.Cmp(low) < 0 {
			low = b.last
		}
		steps := int64(len(prices)) + 1
		for _, k := range keys {
			g := groups[k]
			if len(g) < 2 {
				continue
			}
			sum, sumAll := bi(0), bi(0)
			for _, i := range g {
				sum.Add(sum, out.orders[i].filled)
				sumAll.Add(sumAll, out.orders[i].amt)
			}
			if sum.Sign() == 0 || sum.Cmp(sumAll) == 0 {
				continue
			}
			n := int64(len(g))
			rest := add(mul(bi(n), cdiv(e18, low)), add(fdiv(sumAll, e18), bi(3)))
			tol := mul(bi(2*steps*(n+1)), rest)
			for _, i := range g {
				x := out.orders[i]
				share := fdiv(mul(sum, x.amt), sumAll)
				if mul(tol, bi(4)).Cmp(x.amt) < 0 {
					c.NonTrivial()
					c.Label("partially filled group of large orders")
				}
				if sub(share, tol).Cmp(x.filled) > 0 || x.filled.Cmp(add(share, tol)) > 0 {
					rt.Fatalf("#%d filled %s, its share of %s is %s\n%s", i, x.filled, sum, share, out)
				}
			}
		}
	})
}

func TestC04(t *testing.T) {
	prop(t, "noLastPrice", 100000, func(rt *rapid.T, c *Case) {
		b := drawBook(rt, c)
		ob, _ := b.build(nil)
		price, found := amm.FindMatchPrice(ob.MakeView(), b.prec)
		rb := newRBook(b.refs())
		crossed := len(rb.buys) > 0 && len(rb.sells) > 0 && rb.buys[0].price.Cmp(rb.sells[0].price) >= 0
		if found != crossed {
			rt.Fatalf("found=%v crossed=%v", found, crossed)
		}
		if !found {
			c.Label("not crossed")
			return
		}
		c.NonTrivial()
		p := price.BigInt()
		if rDown(p, b.prec).Cmp(p) != 0 {
			rt.Fatalf("price %s is not a tick", price)
		}
		if p.Cmp(rb.sells[0].price) < 0 || p.Cmp(rb.buys[0].price) > 0 {
			rt.Fatalf("price %s outside of the crossing quotes", price)
		}
		over, atOver, under, atUnder := bi(0), bi(0), bi(0), bi(0)
		for _, l := range rb.buys {
			if l.price.Cmp(p) > 0 {
				over.Add(over, l.total(l.price))
			}
			if l.price.Cmp(p) >= 0 {
				atOver.Add(atOver, l.total(l.price))
			}
		}
		for _, l := range rb.sells {
			if l.price.Cmp(p) < 0 {
				under.Add(under, l.total(l.price))
			}
			if l.price.Cmp(p) <= 0 {
				atUnder.Add(atUnder, l.total(l.price))
			}
		}
		if over.Cmp(atUnder) > 0 || under.Cmp(atOver) > 0 {
			rt.Fatalf("price %s does not clear: better buys %s of %s, better sells %s of %s", price, over, atOver, under, atUnder)
		}
		if atOver.Cmp(atUnder) == 0 {
			c.Label("balanced")
		}
		// nothing is left to trade at that price
		out := b.runSingle(nil, p)
		checkUncrossed(rt, c, b, out, p)
	})
	prop(t, "lastPrice", 300000, func(rt *rapid.T, c *Case) {
		b := drawBook(rt, c)
		rb := newRBook(b.refs())
		crossed := len(rb.buys) > 0 && len(rb.sells) > 0 && rb.buys[0].price.Cmp(rb.sells[0].price) >= 0
		out := b.runMatch(nil)
		if out.matched {
			if !crossed {
				rt.Fatalf("matched without a crossing\n%s", out)
			}
			if out.price.Cmp(rb.sells[0].price) < 0 || out.price.Cmp(rb.buys[0].price) > 0 {
				rt.Fatalf("price %s outside of the crossing quotes", decOf(out.price))
			}
			switch out.price.Cmp(b.last) {
			case 0:
				c.Label("price stays")
			case 1:
				c.Label("price increases")
			default:
				c.Label("price decreases")
			}
		}
		if crossed {
			c.NonTrivial()
		} else {
			c.Label("not crossed")
		}
		checkUncrossed(rt, c, b, out, nil)
	})
}

// checkUncrossed checks that no buys and sells which could still trade with
// each other are left, apart from dust.
func checkUncrossed(rt *rapid.T, c *Case, b book, out outcome, only *big.Int) {
	tol := mul(bi(int64(b.n)+1), b.ratio())
	var qs []*big.Int
	for _, s := range b.specs {
		qs = append(qs, s.price)
	}
	if only != nil {
		qs = []*big.Int{only}
	}
	for _, q := range qs {
		B, S := bi(0), bi(0)
		for i, s := range b.specs {
			if s.buy && s.price.Cmp(q) >= 0 {
				B.Add(B, leftMatchable(s, out.orders[i], s.price))
			}
			if !s.buy && s.price.Cmp(q) <= 0 {
				S.Add(S, leftMatchable(s, out.orders[i], s.price))
			}
		}
		if left := quoFloor(q, minB(B, S)); left.Cmp(tol) > 0 {
			rt.Fatalf("crossing volume worth %s is left at %s\n%s", left, decOf(q), out)
		}
	}
}

func TestC05(t *testing.T) {
	prop(t, "single", 300000, func(rt *rapid.T, c *Case) {
		b := drawBook(rt, c)
		p := drawSinglePrice(rt, b)
		compareRuns(rt, c, b, b.refSingle(p), func(perm []int) outcome { return b.runSingle(perm, p) })
	})
	prop(t, "phases", 400000, func(rt *rapid.T, c *Case) {
		b := drawBook(rt, c)
		compareRuns(rt, c, b, b.refMatch(), b.runMatch)
	})
	prop(t, "price", 100000, func(rt *rapid.T, c *Case) {
		b := drawBook(rt, c)
		want, ok := b.refFindPrice()
		idx := make([]int, b.n)
		for i := range idx {
			idx[i] = i
		}
		ob, _ := b.build(rapid.Permutation(idx).Draw(rt, "perm"))
		got, found := amm.FindMatchPrice(ob.MakeView(), b.prec)
		if found != ok || (found && got.BigInt().Cmp(want) != 0) {
			rt.Fatalf("clearing price %s (%v), rules give %v (%v)", got, found, want, ok)
		}
		if found {
			c.NonTrivial()
		}
	})
}

func compareRuns(rt *rapid.T, c *Case, b book, want outcome, run func(perm []int) outcome) {
	got := run(nil)
	if !sameOutcome(got, want) {
		rt.Fatalf("got %s\nrules give %s", got, want)
	}
	if !want.matched {
		c.Label("unmatched")
	} else {
		c.NonTrivial()
		c.Label("matched")
	}
	idx := make([]int, b.n)
	for i := range idx {
		idx[i] = i
	}
	perm := rapid.Permutation(idx).Draw(rt, "perm")
	b.canonical(&got)
	if again := b.canonical2(run(perm)); !sameOutcome(again, got) {
		rt.Fatalf("inserting in the order %v gives %s\ninstead of %s", perm, again, got)
	}
	if again := b.canonical2(run(perm)); !sameOutcome(again, got) {
		rt.Fatalf("running again gives %s\ninstead of %s", again, got)
	}
}

// canonical sorts the results of indistinguishable orders (plain orders of the
// same direction, price and amount carry no id).
func (b book) canonical(o *outcome) {
	for i := range b.specs {
		for j := i + 1; j < len(b.specs); j++ {
			x, y := b.specs[i], b.specs[j]
			if x.kind == 0 && y.kind == 0 && x.buy == y.buy && x.price.Cmp(y.price) == 0 && x.amt.Cmp(y.amt) == 0 &&
				moreFilled(o.orders[j], o.orders[i]) {
				o.orders[i], o.orders[j] = o.orders[j], o.orders[i]
			}
		}
	}
}

func (b book) canonical2(o outcome) outcome { b.canonical(&o); return o }

func moreFilled(a, b outOrder) bool {
	if c := a.filled.Cmp(b.filled); c != 0 {
		return c > 0
	}
	if c := a.paid.Cmp(b.paid); c != 0 {
		return c > 0
	}
	return a.recv.Cmp(b.recv) > 0
}
