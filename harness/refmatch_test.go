package zverif

import (
	"fmt"
	"math/big"
	"sort"

	"cosmossdk.io/math"
)

// Independent reference of the batch auction on plain big integers. Prices are
// integers scaled by 10^18.

var e18 = new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)

func bi(x int64) *big.Int { return big.NewInt(x) }

func scaled(d math.LegacyDec) *big.Int { return d.BigInt() }

func pow10i(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func fdiv(a, b *big.Int) *big.Int { // floor division of non-negative numbers
	return new(big.Int).Quo(a, b)
}
func cdiv(a, b *big.Int) *big.Int { // ceiling division of non-negative numbers
	q, r := new(big.Int).QuoRem(a, b, new(big.Int))
	if r.Sign() != 0 {
		q.Add(q, bi(1))
	}
	return q
}
func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

// quote value of an amount at a scaled price
func quoFloor(p, amt *big.Int) *big.Int { return fdiv(mul(p, amt), e18) }
func quoCeil(p, amt *big.Int) *big.Int  { return cdiv(mul(p, amt), e18) }

type rOrder struct {
	key    int // index of the original order
	buy    bool
	price  *big.Int
	amt    *big.Int // size when the batch starts
	open   *big.Int
	offer  *big.Int
	paid   *big.Int
	recv   *big.Int
	batch  uint64 // 0 is the current batch
	kind   int    // 0 plain, 1 user, 2 pool
	id     uint64 // order id or pool id
	levels int    // number of fills
}

func (o *rOrder) String() string {
	d := "Sell"
	if o.buy {
		d = "Buy"
	}
	return fmt.Sprintf("#%d %s kind=%d id=%d batch=%d price=%s amt=%s open=%s offer=%s paid=%s recv=%s", o.key, d, o.kind, o.id, o.batch,
		math.LegacyNewDecFromBigIntWithPrec(o.price, 18), o.amt, o.open, o.offer, o.paid, o.recv)
}

func (o *rOrder) matchable(p *big.Int) *big.Int {
	m := o.open
	if o.buy {
		m = minB(m, fdiv(mul(sub(o.offer, o.paid), e18), p))
	}
	if quoFloor(p, m).Sign() == 0 {
		return bi(0)
	}
	return m
}

func (o *rOrder) fill(p, amt *big.Int, dust *big.Int) {
	if o.buy {
		pay := quoCeil(p, amt)
		o.paid = add(o.paid, pay)
		o.recv = add(o.recv, amt)
		dust.Add(dust, pay)
	} else {
		rec := quoFloor(p, amt)
		o.paid = add(o.paid, amt)
		o.recv = add(o.recv, rec)
		dust.Sub(dust, rec)
	}
	o.open = sub(o.open, amt)
	o.levels++
}

// before tells whether o precedes x within one price and batch.
func (o *rOrder) before(x *rOrder) bool {
	if c := o.amt.Cmp(x.amt); c != 0 {
		return c > 0
	}
	if o.kind == 0 {
		return false
	}
	if o.kind != x.kind {
		return o.kind < x.kind
	}
	return o.id < x.id
}

type rLevel struct {
	price  *big.Int
	orders []*rOrder
}

func (l *rLevel) total(p *big.Int) *big.Int {
	t := new(big.Int)
	for _, o := range l.orders {
		t.Add(t, o.matchable(p))
	}
	return t
}

func (l *rLevel) openSum() *big.Int {
	t := new(big.Int)
	for _, o := range l.orders {
		t.Add(t, o.open)
	}
	return t
}

type rBook struct {
	buys, sells []*rLevel // best price first
}

func newRBook(orders []*rOrder) *rBook {
	b := &rBook{}
	for _, o := range orders {
		if o.matchable(o.price).Sign() == 0 {
			continue
		}
		side := &b.sells
		if o.buy {
			side = &b.buys
		}
		var lvl *rLevel
		for _, l := range *side {
			if l.price.Cmp(o.price) == 0 {
				lvl = l
			}
		}
		if lvl == nil {
			lvl = &rLevel{price: o.price}
			*side = append(*side, lvl)
		}
		lvl.orders = append(lvl.orders, o)
	}
	sort.Slice(b.buys, func(i, j int) bool { return b.buys[i].price.Cmp(b.buys[j].price) > 0 })
	sort.Slice(b.sells, func(i, j int) bool { return b.sells[i].price.Cmp(b.sells[j].price) < 0 })
	return b
}

// shareOut distributes amt at price p among orders of one price and batch.
func shareOut(orders []*rOrder, amt, p, dust *big.Int) {
	for {
		if len(orders) == 0 {
			return
		}
		total := new(big.Int)
		for _, o := range orders {
			total.Add(total, o.amt)
		}
		got := make([]*big.Int, len(orders))
		left := new(big.Int).Set(amt)
		for i, o := range orders {
			prop := fdiv(mul(o.amt, e18), total)
			got[i] = minB(o.matchable(p), fdiv(mul(prop, amt), e18))
			left.Sub(left, got[i])
		}
		for i, o := range orders {
			more := minB(left, sub(o.matchable(p), got[i]))
			got[i] = add(got[i], more)
			left = sub(left, more)
		}
		var keep []*rOrder
		for i, o := range orders {
			if got[i].Sign() > 0 && (o.buy || quoFloor(p, got[i]).Sign() > 0) {
				keep = append(keep, o)
			}
		}
		switch {
		case len(keep) == len(orders):
			for i, o := range orders {
				o.fill(p, got[i], dust)
			}
			return
		case len(keep) == 0:
			orders = orders[:len(orders)-1]
		default:
			orders = keep
		}
	}
}

func (l *rLevel) distribute(amt, p, dust *big.Int) {
	left := new(big.Int).Set(amt)
	byBatch := map[uint64][]*rOrder{}
	var batches []uint64
	for _, o := range l.orders {
		if _, ok := byBatch[o.batch]; !ok {
			batches = append(batches, o.batch)
		}
		byBatch[o.batch] = append(byBatch[o.batch], o)
	}
	sort.Slice(batches, func(i, j int) bool { return batches[i]-1 < batches[j]-1 }) // 0 is last
	for _, b := range batches {
		if left.Sign() == 0 {
			return
		}
		g := &rLevel{orders: append([]*rOrder{}, byBatch[b]...)}
		tot := g.total(p)
		if tot.Sign() == 0 {
			continue
		}
		if left.Cmp(tot) >= 0 {
			for _, o := range g.orders {
				if m := o.matchable(p); m.Sign() > 0 {
					o.fill(p, m, dust)
				}
			}
			left = sub(left, tot)
		} else {
			sort.SliceStable(g.orders, func(i, j int) bool { return g.orders[i].before(g.orders[j]) })
			shareOut(g.orders, left, p, dust)
			return
		}
	}
}

func distributeLevels(levels []*rLevel, amt, p, dust *big.Int) {
	left := new(big.Int).Set(amt)
	for _, l := range levels {
		t := l.total(p)
		if t.Cmp(left) <= 0 {
			for _, o := range l.orders {
				if m := o.matchable(p); m.Sign() > 0 {
					o.fill(p, m, dust)
				}
			}
			left = sub(left, t)
			if left.Sign() == 0 {
				return
			}
		} else {
			l.distribute(left, p, dust)
			return
		}
	}
}

func (b *rBook) sellsOpen() *big.Int {
	t := new(big.Int)
	for _, l := range b.sells {
		t.Add(t, l.openSum())
	}
	return t
}

// single matches everything possible at one price.
func (b *rBook) single(p *big.Int) (dust *big.Int, matched bool) {
	nb, ns := 0, 0
	B, S := new(big.Int), new(big.Int)
	for nb < len(b.buys) && b.buys[nb].price.Cmp(p) >= 0 {
		B.Add(B, b.buys[nb].total(p))
		nb++
	}
	for ns < len(b.sells) && b.sells[ns].price.Cmp(p) <= 0 {
		S.Add(S, b.sells[ns].total(p))
		ns++
	}
	for {
		if nb == 0 || ns == 0 {
			return nil, false
		}
		m := minB(B, S)
		bt, stt := b.buys[nb-1].total(p), b.sells[ns-1].total(p)
		if sub(B, bt).Cmp(m) >= 0 {
			B, nb = sub(B, bt), nb-1
			continue
		}
		rest := sub(S, stt)
		if rest.Cmp(m) >= 0 || quoFloor(p, sub(m, rest)).Sign() == 0 {
			S, ns = rest, ns-1
			continue
		}
		break
	}
	dust = new(big.Int)
	before := b.sellsOpen()
	distributeLevels(b.sells, minB(B, S), p, dust)
	sold := sub(before, b.sellsOpen())
	if sold.Sign() <= 0 {
		return nil, false
	}
	distributeLevels(b.buys, sold, p, dust)
	return dust, true
}

// direction of the price movement seen from the last price: 1, -1 or 0.
func (b *rBook) direction(last *big.Int) int {
	bo, ba, su, sa := new(big.Int), new(big.Int), new(big.Int), new(big.Int)
	for _, l := range b.buys {
		switch l.price.Cmp(last) {
		case 1:
			bo.Add(bo, l.total(last))
		case 0:
			ba.Add(ba, l.total(last))
		}
	}
	for _, l := range b.sells {
		switch l.price.Cmp(last) {
		case -1:
			su.Add(su, l.total(last))
		case 0:
			sa.Add(sa, l.total(last))
		}
	}
	if bo.Cmp(add(sa, su)) > 0 {
		return 1
	}
	if su.Cmp(add(ba, bo)) > 0 {
		return -1
	}
	return 0
}

// match runs the two-phase matching around the last price.
func (b *rBook) match(last *big.Int) (price, dust *big.Int, matched bool) {
	if len(b.buys) == 0 || len(b.sells) == 0 {
		return nil, nil, false
	}
	dir := b.direction(last)
	dust, matched = b.single(last)
	price = last
	if dir == 0 {
		return
	}
	if !matched {
		dust = new(big.Int)
	}
	i, j := 0, 0
	for i < len(b.buys) && j < len(b.sells) && b.buys[i].price.Cmp(b.sells[j].price) >= 0 {
		p := b.sells[j].price
		if dir < 0 {
			p = b.buys[i].price
		}
		bt, stt := b.buys[i].total(p), b.sells[j].total(p)
		if bt.Sign() == 0 {
			i++
			continue
		}
		if stt.Sign() == 0 {
			j++
			continue
		}
		bl, sl := b.buys[i], b.sells[j]
		before := sl.openSum()
		sl.distribute(minB(bt, stt), p, dust)
		sold := sub(before, sl.openSum())
		if bt.Cmp(stt) <= 0 {
			i++
		}
		if stt.Cmp(bt) <= 0 {
			j++
		}
		if sold.Sign() > 0 {
			bl.distribute(sold, p, dust)
			price, matched = p, true
		}
	}
	return
}

// ---- reference tick grid on scaled integers ----

func rDigits(b *big.Int) int { return len(b.Text(10)) - 1 }

func rGap(b *big.Int, prec int) *big.Int { // gap above the tick at or below b
	if d := rDigits(b) - prec; d > 0 {
		return pow10i(d)
	}
	return bi(1)
}

func rDown(b *big.Int, prec int) *big.Int { g := rGap(b, prec); return mul(fdiv(b, g), g) }

func rUp(b *big.Int, prec int) *big.Int { g := rGap(b, prec); return mul(cdiv(b, g), g) }

// rIndex numbers the ticks from the lowest one (10^prec scaled) upwards.
func rIndex(b *big.Int, prec int) int64 {
	d := rDigits(b) - prec
	g := pow10i(d)
	return int64(d)*9*pow10i(prec).Int64() + fdiv(b, g).Int64() - pow10i(prec).Int64()
}

func rTick(i int64, prec int) *big.Int {
	p := pow10i(prec).Int64()
	return mul(bi(p+i%(9*p)), pow10i(int(i/(9*p))))
}

func rRound(b *big.Int, prec int) *big.Int {
	d := rDown(b, prec)
	if d.Cmp(b) == 0 || rIndex(d, prec)%2 == 0 {
		return d
	}
	return add(d, rGap(d, prec))
}

func decOf(b *big.Int) math.LegacyDec { return math.LegacyNewDecFromBigIntWithPrec(b, 18) }
