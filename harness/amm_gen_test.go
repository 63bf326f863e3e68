package zverif

import (
	"fmt"
	"math/big"
	"math/bits"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"pgregory.net/rapid"

	"defund/x/dex/amm"
	"defund/x/dex/types"
)

// ---- generators ----

func drawBig(rt *rapid.T, lo, hi *big.Int, label string) *big.Int {
	// uniform in [lo, hi] built from 64 bit limbs so that it shrinks towards lo
	span := sub(hi, lo)
	if span.Sign() <= 0 {
		return new(big.Int).Set(lo)
	}
	x := new(big.Int)
	for i := 0; i <= span.BitLen()/63; i++ {
		x.Lsh(x, 63)
		x.Add(x, bi(rapid.Int64Min(0).Draw(rt, label)))
	}
	x.Mod(x, add(span, bi(1)))
	return add(lo, x)
}

// drawLog draws a positive integer with a uniform number of digits.
func drawLog(rt *rapid.T, maxDigits int, label string) *big.Int {
	d := rapid.IntRange(0, maxDigits-1).Draw(rt, label+"Digits")
	return drawBig(rt, pow10i(d), sub(pow10i(d+1), bi(1)), label)
}

type ordSpec struct {
	buy   bool
	price *big.Int // scaled
	amt   *big.Int // open amount
	rem   *big.Int // remaining offer coin
	kind  int
	batch uint64
	id    uint64
}

func (s ordSpec) String() string {
	d := "sell"
	if s.buy {
		d = "buy"
	}
	k := [...]string{"base", "user", "pool"}[s.kind]
	return fmt.Sprintf("%s %s id=%d batch=%d %s@%s offer=%s", k, d, s.id, s.batch, s.amt, decOf(s.price), s.rem)
}

func (s ordSpec) ref(i int) *rOrder {
	o := &rOrder{key: i, buy: s.buy, price: s.price, kind: s.kind, batch: s.batch, id: s.id,
		offer: s.rem, paid: bi(0), recv: bi(0)}
	o.amt = s.amt
	if s.buy && s.kind == 1 {
		o.amt = minB(s.amt, fdiv(mul(s.rem, e18), s.price))
	}
	o.open = o.amt
	return o
}

func addrN(n uint64) sdk.AccAddress {
	b := make([]byte, 20)
	b[0] = 7
	for i := 0; i < 8; i++ {
		b[19-i] = byte(n >> (8 * i))
	}
	return b
}

func (s ordSpec) build() amm.Order {
	dir := amm.Sell
	if s.buy {
		dir = amm.Buy
	}
	amt, rem := math.NewIntFromBigInt(s.amt), math.NewIntFromBigInt(s.rem)
	switch s.kind {
	case 0:
		return amm.NewBaseOrder(dir, decOf(s.price), amt, rem)
	case 1:
		o := types.Order{Id: s.id, PairId: 1, Orderer: addrN(s.id).String(), Price: decOf(s.price), Amount: amt.AddRaw(50),
			OpenAmount: amt, BatchId: s.batch, Status: types.OrderStatusPartiallyMatched}
		if s.buy {
			o.Direction = types.OrderDirectionBuy
			o.OfferCoin = sdk.Coin{Denom: "quote", Amount: rem}
			o.RemainingOfferCoin, o.ReceivedCoin = o.OfferCoin, sdk.NewInt64Coin("base", 0)
		} else {
			o.Direction = types.OrderDirectionSell
			o.OfferCoin = sdk.Coin{Denom: "base", Amount: rem}
			o.RemainingOfferCoin, o.ReceivedCoin = o.OfferCoin, sdk.NewInt64Coin("quote", 0)
		}
		return types.NewUserOrder(o)
	default:
		of, de := "base", "quote"
		if s.buy {
			of, de = de, of
		}
		return types.NewPoolOrder(s.id, addrN(1000+s.id), dir, decOf(s.price), amt, of, de)
	}
}

type book struct {
	prec  int
	specs []ordSpec
	last  *big.Int // scaled last price (on a tick)
	n     int
}

func drawTickIdx(rt *rapid.T, prec, loExp, hiExp int, label string) int64 {
	p := pow10i(prec).Int64()
	// exponent of the price, scaled by 10^18
	e := rapid.IntRange(loExp+18-prec, hiExp+18-prec).Draw(rt, label+"Exp")
	if e < 0 {
		e = 0
	}
	m := int64(0)
	switch rapid.IntRange(0, 3).Draw(rt, label+"Kind") {
	case 0: // at a power of ten
	case 1: // next to the following power of ten
		m = 9*p - 1 - rapid.Int64Range(0, 3).Draw(rt, label+"Off")
	default:
		m = rapid.Int64Range(0, 9*p-1).Draw(rt, label+"Mant")
	}
	return int64(e)*9*p + m
}

func drawBook(rt *rapid.T, c *Case) book {
	var b book
	b.prec = rapid.SampledFrom([]int{4, 4, 3, 2, 5}).Draw(rt, "prec")
	base := drawTickIdx(rt, b.prec, -12, 12, "base")
	spread := rapid.SampledFrom([]int64{0, 1, 2, 4, 10, 100, 1000}).Draw(rt, "spread")
	plain := rapid.IntRange(0, 3).Draw(rt, "plain") == 0
	n := rapid.IntRange(0, 12).Draw(rt, "orders")
	scale := rapid.IntRange(0, 5).Draw(rt, "scale")
	skew := rapid.Int64Range(0, 2).Draw(rt, "skew") * spread / 2 // makes crossings likely
	at := func(label string, shift int64) *big.Int {
		i := base + rapid.Int64Range(-spread, spread).Draw(rt, label) + shift
		if i < 0 {
			i = 0
		}
		return rTick(i, b.prec)
	}
	b.last = at("last", 0)
	// A crowd of orders of one side at one price, against single orders of the other side at several levels,
	// so that every order of the crowd is filled in several steps.
	crowd := rare(rt, 4, "crowd")
	crowdBuys := rapid.Bool().Draw(rt, "crowd buys")
	var crowdPrice *big.Int
	if crowd {
		n = int(uni(rt, 4, 10, "crowd size"))
		shift := spread + 1
		if !crowdBuys {
			shift = -shift
		}
		crowdPrice = at("crowd price", shift)
	}
	for i := 0; i < n; i++ {
		s := ordSpec{id: uint64(i + 1), buy: rapid.Bool().Draw(rt, "buy")}
		if crowd && s.buy == crowdBuys {
			s.price = crowdPrice
		} else if crowd {
			s.price = at("price", 0)
		} else if s.buy {
			s.price = at("price", skew)
		} else {
			s.price = at("price", -skew)
		}
		if !plain {
			s.kind = rapid.SampledFrom([]int{1, 1, 2}).Draw(rt, "kind")
			if s.kind == 1 {
				s.batch = uint64(rapid.IntRange(1, 3).Draw(rt, "batch"))
			}
		}
		unit := cdiv(e18, s.price) // amount worth about one quote coin
		switch scale {
		case 0: // around the dust limit
			s.amt = fdiv(mul(unit, bi(rapid.Int64Range(1, 40).Draw(rt, "tenths"))), bi(10))
		case 1:
			s.amt = bi(rapid.Int64Range(1, 300).Draw(rt, "amt"))
		case 2:
			s.amt = mul(unit, bi(rapid.Int64Range(1, 300).Draw(rt, "units")))
			s.amt = add(s.amt, bi(rapid.Int64Range(0, 3).Draw(rt, "extra")))
		case 3:
			s.amt = bi(rapid.Int64Range(1_000, 10_000_000).Draw(rt, "amt"))
		case 4:
			s.amt = mul(bi(rapid.Int64Range(1, 5).Draw(rt, "fives")), bi(rapid.SampledFrom([]int64{100, 1000, 12345}).Draw(rt, "five")))
		default:
			s.amt = drawLog(rt, 30, "amt")
		}
		if crowd && scale == 3 {
			s.amt = bi(uni(rt, 100, 10_000, "amt"))
		}
		if i > 0 && rapid.IntRange(0, 4).Draw(rt, "dup") == 0 {
			s.amt = b.specs[len(b.specs)-1].amt
		}
		if s.amt.Sign() == 0 {
			s.amt = bi(1)
		}
		s.rem = s.amt
		if s.buy {
			s.rem = quoCeil(s.price, s.amt)
			if s.kind == 1 {
				d := rapid.SampledFrom([]int64{0, 0, -1, -2, 1, 5, 1000}).Draw(rt, "delta")
				s.rem = add(s.rem, bi(d))
				if s.rem.Sign() < 0 {
					s.rem = bi(0)
				}
			}
		}
		b.specs = append(b.specs, s)
	}
	b.n = len(b.specs)
	c.Logf("prec=%d last=%s", b.prec, decOf(b.last))
	for _, s := range b.specs {
		c.Logf("%s", s)
	}
	return b
}

// ---- running the code under test ----

type outcome struct {
	price   *big.Int
	diff    *big.Int
	matched bool
	orders  []outOrder
}

type outOrder struct {
	amt, open, paid, recv, filled *big.Int
}

func (o outcome) String() string {
	s := fmt.Sprintf("matched=%v", o.matched)
	if o.matched {
		s += fmt.Sprintf(" price=%s diff=%s", decOf(o.price), o.diff)
	}
	for i, x := range o.orders {
		s += fmt.Sprintf("\n  #%d amt=%s open=%s paid=%s recv=%s", i, x.amt, x.open, x.paid, x.recv)
	}
	return s
}

func (b book) build(perm []int) (*amm.OrderBook, []amm.Order) {
	objs := make([]amm.Order, len(b.specs))
	for i, s := range b.specs {
		objs[i] = s.build()
	}
	ob := amm.NewOrderBook()
	for i := range objs {
		if perm != nil {
			ob.AddOrder(objs[perm[i]])
		} else {
			ob.AddOrder(objs[i])
		}
	}
	return ob, objs
}

func results(objs []amm.Order) (out []outOrder) {
	for _, o := range objs {
		out = append(out, outOrder{amt: o.GetAmount().BigInt(), open: o.GetOpenAmount().BigInt(), paid: o.GetPaidOfferCoinAmount().BigInt(),
			recv:   o.GetReceivedDemandCoinAmount().BigInt(),
			filled: o.GetAmount().Sub(o.GetOpenAmount()).BigInt()})
	}
	return
}

func (b book) runSingle(perm []int, p *big.Int) outcome {
	ob, objs := b.build(perm)
	diff, matched := ob.MatchAtSinglePrice(decOf(p))
	o := outcome{matched: matched, orders: results(objs), price: p}
	if matched {
		o.diff = diff.BigInt()
	}
	return o
}

func (b book) runMatch(perm []int) outcome {
	ob, objs := b.build(perm)
	price, diff, matched := ob.Match(decOf(b.last))
	o := outcome{matched: matched, orders: results(objs)}
	if matched {
		o.diff, o.price = diff.BigInt(), price.BigInt()
	}
	return o
}

func (b book) refs() []*rOrder {
	var rs []*rOrder
	for i, s := range b.specs {
		rs = append(rs, s.ref(i))
	}
	return rs
}

func refResults(rs []*rOrder) (out []outOrder) {
	for _, o := range rs {
		out = append(out, outOrder{amt: o.amt, open: o.open, paid: o.paid, recv: o.recv, filled: sub(o.amt, o.open)})
	}
	return
}

func (b book) refSingle(p *big.Int) outcome {
	rs := b.refs()
	d, m := newRBook(rs).single(p)
	return outcome{matched: m, diff: d, price: p, orders: refResults(rs)}
}

func (b book) refMatch() outcome {
	rs := b.refs()
	p, d, m := newRBook(rs).match(b.last)
	return outcome{matched: m, diff: d, price: p, orders: refResults(rs)}
}

func sameOutcome(a, b outcome) bool {
	if a.matched != b.matched {
		return false
	}
	if a.matched && (a.price.Cmp(b.price) != 0 || a.diff.Cmp(b.diff) != 0) {
		return false
	}
	for i := range a.orders {
		x, y := a.orders[i], b.orders[i]
		if x.open.Cmp(y.open) != 0 || x.paid.Cmp(y.paid) != 0 || x.recv.Cmp(y.recv) != 0 {
			return false
		}
	}
	return true
}

// refFindPrice is the clearing price of a book without last price.
func (b book) refFindPrice() (*big.Int, bool) {
	rb := newRBook(b.refs())
	if len(rb.buys) == 0 || len(rb.sells) == 0 || rb.buys[0].price.Cmp(rb.sells[0].price) < 0 {
		return nil, false
	}
	buyOver := func(i int64) *big.Int { // at or above tick i
		t := bi(0)
		for _, l := range rb.buys {
			if rIndex(l.price, b.prec) >= i {
				t.Add(t, l.total(l.price))
			}
		}
		return t
	}
	sellUnder := func(i int64) *big.Int {
		t := bi(0)
		for _, l := range rb.sells {
			if rIndex(l.price, b.prec) <= i {
				t.Add(t, l.total(l.price))
			}
		}
		return t
	}
	var cand []int64
	for _, ls := range [][]*rLevel{rb.buys, rb.sells} {
		for _, l := range ls {
			cand = append(cand, rIndex(l.price, b.prec))
		}
	}
	i, j := int64(-1), int64(-1)
	for _, k := range cand {
		s, o := sellUnder(k), buyOver(k+1)
		if s.Sign() > 0 && o.Cmp(s) <= 0 && (i < 0 || k < i) {
			i = k
		}
		o, s = buyOver(k), sellUnder(k-1)
		if o.Sign() > 0 && o.Cmp(s) >= 0 && k > j {
			j = k
		}
	}
	if i < 0 || j < 0 {
		return nil, false
	}
	return rRound(fdiv(add(rTick(i, b.prec), rTick(j, b.prec)), bi(2)), b.prec), true
}

// uni draws an integer between lo and hi without rapid's bias towards small values.
func uni(rt *rapid.T, lo, hi int64, label string) int64 {
	n := uint64(hi-lo) + 1
	if n <= 1 {
		return lo
	}
	x := rapid.Custom(func(t *rapid.T) uint64 {
		var x uint64
		for b := bits.Len64(n - 1); b > 0; b-- {
			x <<= 1
			if rapid.Bool().Draw(t, "") {
				x |= 1
			}
		}
		return x
	}).Draw(rt, label)
	return lo + int64(x%n)
}

// pick draws one of the values, each equally likely.
func pick[T any](rt *rapid.T, xs []T, label string) T { return xs[uni(rt, 0, int64(len(xs)-1), label)] }

// rare is true once in about n+1 draws.
func rare(rt *rapid.T, n int64, label string) bool { return uni(rt, 0, n, label) == n }

func decString(d *math.LegacyDec) string {
	if d == nil {
		return "none"
	}
	return d.String()
}
