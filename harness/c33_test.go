package zverif

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"
	"testing"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"pgregory.net/rapid"

	"defund/x/dex/types"
)

// The documented conditions of well-formed messages, stated on their own.

var denomRule = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9/:._-]{2,127}$`)

// maker collects a message and whether each part of it is well-formed.
type maker struct {
	rt   *rapid.T
	wild bool // each part may be malformed
	bad  []string
}

// flaw decides whether the part called name gets malformed.
func (m *maker) flaw(name string) bool {
	if m.wild && rare(m.rt, 8, "flaw "+name) {
		m.bad = append(m.bad, name)
		return true
	}
	return false
}

func (m *maker) addr() string {
	if m.flaw("address") {
		return pick(m.rt, append([]string{"DEFUND1abc", "Defund" + addrN(1).String()[6:]}, badAddrs...), "bad address")
	}
	s := randAddr(m.rt, pick(m.rt, []int{20, 32, 1, 255, 7}, "address length"))
	if rare(m.rt, 9, "upper") {
		s = strings.ToUpper(s) // bech32 is all of one case
	}
	return s
}

func (m *maker) id(name string) uint64 {
	if m.flaw(name) {
		return 0
	}
	return pick(m.rt, []uint64{1, 2, 3, 255, 256, 1 << 32, 1<<64 - 1}, name)
}

const denomChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/:._-"

func drawDenom(rt *rapid.T, label string) string {
	if rapid.Bool().Draw(rt, label+" plain") {
		return pick(rt, []string{"aaa", "bbb", "stake", "pool1", "ibc/ABC", "a:b"}, label)
	}
	n := int(pick(rt, []int64{3, 4, 10, 127, 128}, label+" length"))
	b := make([]byte, n)
	for i := range b {
		lim := len(denomChars)
		if i == 0 {
			lim = 52
		}
		b[i] = denomChars[int(uni(rt, 0, int64(lim-1), label))]
	}
	return string(b)
}

var badDenoms = []string{"", "a", "ab", "1ab", "/ab", "a b", "ab!", "aaa ", " aaa", "äaa", "aaa\n", strings.Repeat("a", 129), "aa\x00"}

func (m *maker) denom(name string) string {
	if m.flaw(name) {
		return pick(m.rt, badDenoms, "bad denom")
	}
	return drawDenom(m.rt, name)
}

// amount draws a positive number.
func drawPositive(rt *rapid.T, label string, digits int) *big.Int {
	switch pick(rt, []int{0, 1, 2}, label+" kind") {
	case 0:
		return bi(uni(rt, 1, 3, label))
	case 1:
		return add(pow10i(int(uni(rt, 0, int64(digits-1), label))), bi(uni(rt, 0, 2, label+" more")))
	}
	return add(bi(1), uniBig(rt, pow10i(int(uni(rt, 1, int64(digits), label))), label))
}

func uniBig(rt *rapid.T, n *big.Int, label string) *big.Int {
	b := rapid.SliceOfN(rapid.Byte(), 34, 34).Draw(rt, label)
	return new(big.Int).Mod(new(big.Int).SetBytes(b), n)
}

// coins draws valid or invalid coins; at most max of 1e40 is a condition if bounded.
func (m *maker) coins(min, max int, bounded bool) sdk.Coins {
	n := min
	if min < max && rapid.Bool().Draw(m.rt, "more coins") {
		n = max
	}
	if m.flaw("number of coins") {
		n = pick(m.rt, []int{0, min - 1, max + 1, max + 2}, "coins")
		if n < 0 || n >= min && n <= max {
			n = 0
		}
	}
	var cs sdk.Coins
	for len(cs) < n {
		d := drawDenom(m.rt, "coin")
		if has, _ := cs.Find(d); has {
			continue
		}
		a := drawPositive(m.rt, "coin amount", 40)
		if !bounded && rare(m.rt, 5, "huge") {
			a = add(pow10i(int(uni(m.rt, 40, 75, "huge"))), bi(1))
		}
		if rare(m.rt, 5, "largest") {
			a = pow10i(40)
		}
		cs = cs.Add(sdk.NewCoin(d, toInt(a)))
	}
	if len(cs) == 0 {
		return cs
	}
	i := int(uni(m.rt, 0, int64(len(cs)-1), "flawed coin"))
	if bounded && m.flaw("coin above the maximum") {
		cs[i].Amount = toInt(add(pow10i(40), add(bi(1), uniBig(m.rt, pow10i(int(uni(m.rt, 1, 60, "digits"))), "excess"))))
	}
	if m.flaw("coins") {
		switch pick(m.rt, []int{0, 1, 2, 3, 4}, "coin flaw") {
		case 0:
			cs[i].Amount = math.NewInt(0)
		case 1:
			cs[i].Amount = math.NewInt(-uni(m.rt, 1, 1000, "negative"))
		case 2:
			cs[i].Denom = pick(m.rt, badDenoms, "bad denom")
		case 3:
			if len(cs) == 1 {
				cs[i].Amount = math.NewInt(0)
			} else {
				cs[0], cs[1] = cs[1], cs[0] // unsorted
			}
		case 4:
			if len(cs) == 1 {
				cs[i].Denom = "1"
			} else {
				cs[1].Denom = cs[0].Denom // duplicate
			}
		}
	}
	return cs
}

func (m *maker) lifespan() time.Duration {
	if m.flaw("lifespan") {
		return pick(m.rt, []time.Duration{-1, -time.Hour, -1 << 63}, "bad lifespan")
	}
	return pick(m.rt, []time.Duration{0, 1, time.Hour, 24 * time.Hour, 1<<63 - 1}, "lifespan")
}

func (m *maker) direction() types.OrderDirection {
	if m.flaw("direction") {
		return pick(m.rt, []types.OrderDirection{0, 3, -1, 1 << 30}, "bad direction")
	}
	return pick(m.rt, []types.OrderDirection{types.OrderDirectionBuy, types.OrderDirectionSell}, "direction")
}

var (
	minAmt = bi(100)
	maxAmt = pow10i(40)
)

// drawBound draws from [100, 1e40], often its ends, or outside of it.
func (m *maker) bounded(name string) *big.Int {
	if m.flaw(name) {
		return pick(m.rt, []*big.Int{bi(99), bi(0), bi(-1), bi(-100), bi(1), add(maxAmt, bi(1)), mul(maxAmt, bi(10)), pow10i(76)}, "bad "+name)
	}
	a := drawPositive(m.rt, name, 40)
	if rare(m.rt, 6, "least") {
		a = minAmt
	}
	if rare(m.rt, 12, "most") {
		a = maxAmt
	}
	if a.Cmp(minAmt) < 0 {
		a = add(a, minAmt)
	}
	if a.Cmp(maxAmt) > 0 {
		a = maxAmt
	}
	return a
}

// rawPrice draws the atoms of a price.
func (m *maker) rawPrice(name string) *big.Int {
	if m.flaw(name) {
		return pick(m.rt, []*big.Int{bi(0), bi(-1), neg(pow10i(18)), neg(pow10i(40))}, "bad "+name)
	}
	return drawPositive(m.rt, name, 58)
}

func neg(a *big.Int) *big.Int { return new(big.Int).Neg(a) }

// order draws the common parts of orders and their conditions.
func (m *maker) order(priced bool) (orderer string, pair uint64, dir types.OrderDirection, offer sdk.Coin, demand string, price math.LegacyDec, amt math.Int, life time.Duration) {
	orderer, pair, dir = m.addr(), m.id("pair id"), m.direction()
	demand = m.denom("demand denom")
	life = m.lifespan()
	a := m.bounded("amount")
	var off *big.Int
	od := drawDenom(m.rt, "offer denom")
	for od == demand {
		od += "x"
		if len(od) > 128 {
			od = "aab"
		}
	}
	if m.flaw("same denom") {
		od = demand
		if !denomRule.MatchString(od) && !contains(m.bad, "demand denom") {
			panic("denom")
		}
	}
	if m.flaw("offer denom") {
		od = pick(m.rt, badDenoms, "bad denom")
	}
	p := pow10i(18)
	if priced {
		p = m.rawPrice("price")
	}
	off = m.bounded("offer")
	if priced && (dir == types.OrderDirectionBuy || dir == types.OrderDirectionSell) && !contains(m.bad, "offer") && !contains(m.bad, "price") {
		// the offer has to be enough for the price and the amount
		need := a
		if dir == types.OrderDirectionBuy {
			need = quoCeil(p, a)
		}
		if rapid.Bool().Draw(m.rt, "near the need") {
			off = add(need, bi(uni(m.rt, -2, 2, "off")))
		}
		if off.Cmp(minAmt) < 0 || off.Cmp(maxAmt) > 0 {
			m.bad = append(m.bad, "offer out of range")
		}
		if off.Cmp(need) < 0 {
			m.bad = append(m.bad, "insufficient offer")
		}
	}
	if off.BitLen() > 250 {
		off = pow10i(75)
	}
	return orderer, pair, dir, sdk.Coin{Denom: od, Amount: toInt(off)}, demand, decOf(p), toInt(a), life
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

type basicMsg interface {
	sdk.Msg
	ValidateBasic() error
	GetSigners() []sdk.AccAddress
	GetSignBytes() []byte
}

// message draws a message of any type.
func (m *maker) message(kind int) basicMsg {
	switch kind {
	case 0:
		msg := &types.MsgCreatePair{Creator: m.addr(), BaseCoinDenom: m.denom("base"), QuoteCoinDenom: m.denom("quote")}
		if m.flaw("same denom") {
			msg.QuoteCoinDenom = msg.BaseCoinDenom
		} else if msg.QuoteCoinDenom == msg.BaseCoinDenom {
			m.bad = append(m.bad, "same denom")
		}
		return msg
	case 1:
		return &types.MsgCreatePool{Creator: m.addr(), PairId: m.id("pair id"), DepositCoins: m.coins(2, 2, true)}
	case 2:
		msg := &types.MsgCreateRangedPool{Creator: m.addr(), PairId: m.id("pair id"), DepositCoins: m.coins(1, 2, true)}
		lo, hi, at := m.rangePrices()
		msg.MinPrice, msg.MaxPrice, msg.InitialPrice = decOf(lo), decOf(hi), decOf(at)
		return msg
	case 3:
		return &types.MsgDeposit{Depositor: m.addr(), PoolId: m.id("pool id"), DepositCoins: m.coins(1, 2, false)}
	case 4:
		msg := &types.MsgWithdraw{Withdrawer: m.addr(), PoolId: m.id("pool id")}
		a := drawPositive(m.rt, "pool coin", 75)
		if m.flaw("pool coin amount") {
			a = bi(-uni(m.rt, 0, 2, "negative"))
		}
		msg.PoolCoin = sdk.Coin{Denom: m.denom("pool coin denom"), Amount: toInt(a)}
		return msg
	case 5:
		msg := &types.MsgLimitOrder{}
		msg.Orderer, msg.PairId, msg.Direction, msg.OfferCoin, msg.DemandCoinDenom, msg.Price, msg.Amount, msg.OrderLifespan = m.order(true)
		return msg
	case 6:
		msg := &types.MsgMarketOrder{}
		msg.Orderer, msg.PairId, msg.Direction, msg.OfferCoin, msg.DemandCoinDenom, _, msg.Amount, msg.OrderLifespan = m.order(false)
		return msg
	case 7:
		msg := &types.MsgMMOrder{}
		msg.Orderer, msg.PairId, msg.Direction, msg.OfferCoin, msg.DemandCoinDenom, msg.Price, msg.Amount, msg.OrderLifespan = m.order(true)
		return msg
	case 8:
		return &types.MsgCancelOrder{Orderer: m.addr(), PairId: m.id("pair id"), OrderId: m.id("order id")}
	}
	msg := &types.MsgCancelAllOrders{Orderer: m.addr()}
	seen := map[uint64]bool{}
	for i, n := 0, int(uni(m.rt, 0, 5, "pairs")); i < n; i++ {
		id := pick(m.rt, []uint64{1, 2, 3, 4, 5, 6, 7, 8, 1 << 40, 1<<64 - 1}, "pair id")
		if rare(m.rt, 20, "zero pair") && m.wild {
			id = 0
			m.bad = append(m.bad, "zero pair id")
		}
		if seen[id] {
			if !m.wild {
				continue
			}
			m.bad = append(m.bad, "duplicate pair id")
		}
		seen[id] = true
		msg.PairIds = append(msg.PairIds, id)
	}
	return msg
}

// rangePrices draws the prices of a ranged pool: between 1e-15 and 1e20, the
// upper at least 0.1% above the lower one, the initial one in between.
func (m *maker) rangePrices() (lo, hi, at *big.Int) {
	minP, maxP := pow10i(3), pow10i(38)
	lo = add(minP, uniBig(m.rt, pow10i(int(uni(m.rt, 1, 37, "min price digits"))), "min price"))
	if rare(m.rt, 6, "lowest") {
		lo = minP
	}
	// the gap is judged with 18 decimals, half to even
	gap := quoCeilI(lo, bi(1000))
	hi = add(lo, add(gap, uniBig(m.rt, mul(lo, bi(pick(m.rt, []int64{1, 1, 10, 1000}, "width"))), "max price")))
	switch pick(m.rt, []int{0, 1, 2, 3}, "max price kind") {
	case 0:
		hi = add(lo, gap) // as narrow as can be
	case 1:
		hi = maxP
	}
	if hi.Cmp(maxP) > 0 {
		hi = maxP
	}
	at = add(lo, uniBig(m.rt, add(sub(hi, lo), bi(1)), "initial price"))
	switch pick(m.rt, []int{0, 1, 2, 3}, "initial price kind") {
	case 0:
		at = lo
	case 1:
		at = hi
	}
	if m.wild && rare(m.rt, 3, "flaw prices") {
		switch pick(m.rt, []int{0, 1, 2, 3, 4, 5, 6}, "price flaw") {
		case 0:
			lo = sub(minP, bi(uni(m.rt, 1, 1001, "below")))
		case 1:
			hi = add(maxP, bi(uni(m.rt, 1, 100, "above")))
		case 2:
			hi = lo
		case 3:
			hi = sub(lo, bi(1))
		case 4: // narrower than 0.1%
			hi = add(lo, bi(uni(m.rt, 1, 3, "narrow")))
			if rapid.Bool().Draw(m.rt, "nearly") {
				hi = sub(add(lo, gap), bi(1))
			}
		case 5:
			at = sub(lo, bi(1))
		case 6:
			at = add(hi, bi(1))
		}
	}
	// (hi-lo)/lo, rounded half to even at 18 decimals
	ok := lo.Cmp(minP) >= 0 && hi.Cmp(maxP) <= 0 && hi.Cmp(lo) > 0 && at.Cmp(lo) >= 0 && at.Cmp(hi) <= 0
	if ok {
		r := roundHalfEven(mul(sub(hi, lo), pow10i(18)), lo)
		ok = r.Cmp(pow10i(15)) >= 0
	}
	if !ok {
		m.bad = append(m.bad, "prices")
	}
	return lo, hi, at
}

func quoCeilI(a, b *big.Int) *big.Int {
	q, r := new(big.Int).QuoRem(a, b, new(big.Int))
	if r.Sign() > 0 {
		q.Add(q, bi(1))
	}
	return q
}

func roundHalfEven(a, b *big.Int) *big.Int {
	q, r := new(big.Int).QuoRem(a, b, new(big.Int))
	switch c := mul(r, bi(2)).Cmp(b); {
	case c > 0, c == 0 && q.Bit(0) == 1:
		q.Add(q, bi(1))
	}
	return q
}

func protoBytes(m sdk.Msg) string {
	b, err := m.(interface{ Marshal() ([]byte, error) }).Marshal()
	must(err)
	return string(b)
}

// TestC33 compares stateless validation with the documented conditions.
func TestC33(t *testing.T) {
	names := []string{"CreatePair", "CreatePool", "CreateRangedPool", "Deposit", "Withdraw", "LimitOrder", "MarketOrder", "MMOrder", "CancelOrder", "CancelAllOrders"}
	for k, name := range names {
		k := k
		prop(t, name, 24000, func(rt *rapid.T, c *Case) {
			m := &maker{rt: rt, wild: rapid.Bool().Draw(rt, "wild")}
			msg := m.message(k)
			text := fmt.Sprintf("%+v", msg)
			before := protoBytes(msg)
			err := tryErr(msg.ValidateBasic)
			c.Logf("%s flaws %q: %v", text, m.bad, err)
			if (err == nil) != (len(m.bad) == 0) {
				rt.Fatalf("flaws %q, validation %v: %s", m.bad, err, text)
			}
			if again := tryErr(msg.ValidateBasic); (again == nil) != (err == nil) || err != nil && err.Error() != again.Error() {
				rt.Fatalf("validation changes from %v to %v: %s", err, again, text)
			}
			if protoBytes(msg) != before || fmt.Sprintf("%+v", msg) != text {
				rt.Fatalf("validation changed the message: %s is %+v", text, msg)
			}
			if err == nil {
				c.Label("accepted")
				want := fieldAddr(msg)
				if s := msg.GetSigners(); len(s) != 1 || s[0].String() != strings.ToLower(want) {
					rt.Fatalf("signers %v of %s", s, text)
				}
				a, b := msg.GetSignBytes(), msg.GetSignBytes()
				if string(a) != string(b) {
					rt.Fatalf("sign bytes differ: %s", text)
				}
			} else {
				c.Label("refused " + m.bad[0])
			}
			if len(m.bad) == 1 || m.wild && len(m.bad) == 0 {
				c.NonTrivial()
			}
		})
	}
}

// fieldAddr is the declared signer of a message.
func fieldAddr(msg sdk.Msg) string {
	return signerOf(msg)
}
