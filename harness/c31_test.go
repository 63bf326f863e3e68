package zverif

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"testing"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	simtypes "github.com/cosmos/cosmos-sdk/types/simulation"
	"pgregory.net/rapid"

	utils "defund/types"
	"defund/x/dex/amm"
	"defund/x/dex/types"
)

type transfer struct {
	from, to string
	amt      sdk.Coins
}

// sendAll moves coins in w until a transfer lacks funds.
func (w *W) sendAll(ts []transfer) bool {
	for _, t := range ts {
		for _, c := range t.amt {
			if w.balOf(t.from, c.Denom).Cmp(c.Amount.BigInt()) < 0 {
				return false
			}
		}
		for _, c := range t.amt {
			w.move(t.from, t.to, c.Denom, c.Amount.BigInt())
		}
	}
	return true
}

func testBulkSend(t *testing.T) {
	prop(t, "transfers", 16000, func(rt *rapid.T, c *Case) {
		app, ctx := branch()
		app.DexKeeper.SetParams(ctx, types.DefaultParams())
		users := []string{}
		n := int(uni(rt, 2, 6, "users"))
		denoms := []string{"aaa", "bbb", "ccc"}
		for i := 0; i < n; i++ {
			a := addrN(uint64(500 + i))
			if i > 0 && rapid.Bool().Draw(rt, "prefix") { // an address which continues another one
				a = append(append(sdk.AccAddress{}, addrN(500)...), byte(i))
			}
			users = append(users, a.String())
			var cs sdk.Coins
			for _, d := range denoms {
				cs = cs.Add(sdk.NewCoin(d, toInt(drawLog(rt, 6, "balance"))))
			}
			fund(app, ctx, a, cs)
		}
		w := snapshot(app, ctx)
		var queued []transfer
		op := types.NewBulkSendCoinsOperation()
		for i, k := 0, int(uni(rt, 0, 12, "transfers")); i < k; i++ {
			tr := transfer{from: pick(rt, users, "from"), to: pick(rt, users, "to")}
			if len(queued) > 0 && rapid.Bool().Draw(rt, "again") { // between the same two
				tr = pick(rt, queued, "earlier")
				tr.amt = nil
				if rapid.Bool().Draw(rt, "back") {
					tr.from, tr.to = tr.to, tr.from
				}
			}
			flaw := ""
			for _, d := range denoms {
				if rapid.Bool().Draw(rt, "denom") {
					have := w.balOf(tr.from, d)
					amt := drawBig(rt, bi(1), add(maxB(have, bi(1)), bi(1)), "amount")
					if !rare(rt, 4, "much") {
						amt = add(fdiv(amt, bi(5)), bi(1))
					}
					tr.amt = append(tr.amt, sdk.NewCoin(d, toInt(amt)))
				}
			}
			switch uni(rt, 0, 9, "flaw") {
			case 0:
				flaw, tr.amt = "nothing", sdk.Coins{}
			case 1:
				if len(tr.amt) > 0 {
					flaw = "zero"
					tr.amt[0].Amount = math.ZeroInt()
				}
			case 2:
				if len(tr.amt) > 0 {
					flaw = "negative"
					tr.amt[0].Amount = math.NewInt(-5)
				}
			case 3:
				if len(tr.amt) > 1 {
					flaw = "unsorted"
					tr.amt[0], tr.amt[1] = tr.amt[1], tr.amt[0]
				}
			case 4:
				if len(tr.amt) > 0 {
					flaw = "twice"
					tr.amt = append(sdk.Coins{tr.amt[0]}, tr.amt...)
				}
			}
			if len(tr.amt) == 0 {
				flaw = "nothing"
			}
			before := fmt.Sprint(tr.amt)
			op.QueueSendCoins(sdk.MustAccAddressFromBech32(tr.from), sdk.MustAccAddressFromBech32(tr.to), tr.amt)
			c.Logf("u%d -> u%d %s %s", index(users, tr.from), index(users, tr.to), tr.amt, flaw)
			if flaw == "" {
				tr.amt = append(sdk.Coins{}, tr.amt...)
				queued = append(queued, tr)
			} else {
				c.Label("ignored: " + flaw)
			}
			if before != fmt.Sprint(tr.amt) {
				rt.Fatalf("the queued coins change")
			}
		}
		// the queue joins transfers between the same accounts at the place of the first one
		var joined []transfer
		at := map[[2]string]int{}
		for _, q := range queued {
			if i, ok := at[[2]string{q.from, q.to}]; ok {
				joined[i].amt = joined[i].amt.Add(q.amt...)
			} else {
				at[[2]string{q.from, q.to}] = len(joined)
				joined = append(joined, transfer{q.from, q.to, sdk.NewCoins(q.amt...)})
			}
		}
		a, b := w.clone(), w.clone()
		okJoined, okEach := a.sendAll(joined), b.sendAll(queued)
		if okJoined && okEach {
			if d := diffW(a, b); len(d) > 0 {
				panic("the model is wrong")
			}
		}
		rctx, _ := ctx.CacheContext()
		var err error
		if p := tryCall(func() { err = op.Run(rctx, app.BankKeeper) }); p != nil {
			rt.Fatalf("panic: %v", p)
		}
		if okJoined == okEach && (err == nil) != okJoined {
			rt.Fatalf("running them: %v, funds suffice: %v (one by one: %v)", err, okJoined, okEach)
		}
		if err == nil {
			for _, d := range diffW(a, snapshot(app, rctx)) {
				rt.Fatalf("%s: %s", d.cat, d.text)
			}
			// the coins of real transfers, one by one
			if okEach {
				ectx, _ := ctx.CacheContext()
				for _, q := range queued {
					must(app.BankKeeper.SendCoins(ectx, sdk.MustAccAddressFromBech32(q.from), sdk.MustAccAddressFromBech32(q.to), q.amt))
				}
				if d := diffW(snapshot(app, ectx), snapshot(app, rctx)); len(d) > 0 {
					rt.Fatalf("one by one differs: %s", d[0].text)
				}
			}
			if len(joined) < len(queued) {
				c.NonTrivial()
			}
			c.Label("run")
		} else {
			c.Label("funds lack")
		}
	})
}

func index(xs []string, x string) int {
	for i := range xs {
		if xs[i] == x {
			return i
		}
	}
	return -1
}

// sqrtOf tells whether r is the square root of x within a few units of the last digit.
func sqrtOf(r, x *big.Int) bool {
	if r.Sign() < 0 {
		return false
	}
	sq := func(y *big.Int) *big.Int { return mul(y, y) }
	target := mul(x, e18)
	lo := maxB(sub(r, bi(4)), bi(0))
	return sq(lo).Cmp(target) <= 0 && sq(add(r, bi(4))).Cmp(target) >= 0
}

func drawSigned(rt *rapid.T, digits int, label string) *big.Int {
	x := drawLog(rt, digits, label)
	if rapid.Bool().Draw(rt, label+" negative") {
		x.Neg(x)
	}
	return x
}

func TestC31(t *testing.T) {
	testBulkSend(t)
	prop(t, "numbers", 100000, func(rt *rapid.T, c *Case) {
		x := drawLog(rt, pick(rt, []int{1, 5, 18, 30, 58}, "digits"), "x")
		if x.Sign() > 0 {
			c.NonTrivial()
		}
		// square root
		if rare(rt, 3, "square") {
			x = fdiv(mul(fdiv(x, pow10i(20)), fdiv(x, pow10i(20))), bi(1))
		}
		c.Logf("%s", x)
		if r := utils.DecApproxSqrt(decOf(x)); !sqrtOf(scaled(r), x) {
			rt.Fatalf("the square root of %s is not %s", decOf(x), r)
		}
		// share values
		amt, ratio := drawSigned(rt, 40, "amount"), drawLog(rt, 20, "ratio")
		want := new(big.Int).Quo(mul(amt, ratio), e18) // towards zero
		if g := utils.GetShareValue(toInt(amt), decOf(ratio)); g.BigInt().Cmp(want) != 0 {
			rt.Fatalf("%s of %s is %s, want %s", decOf(ratio), amt, g, want)
		}
		// minimum
		y := drawSigned(rt, 30, "y")
		if g := utils.MinInt(toInt(amt), toInt(y)); g.BigInt().Cmp(minB(amt, y)) != 0 {
			rt.Fatalf("the minimum of %s and %s is %s", amt, y, g)
		}
		// approximately equal: within 0.1% of the larger one
		a := drawLog(rt, 40, "a")
		b := drawLog(rt, 40, "b")
		if rapid.Bool().Draw(rt, "close") {
			b = add(a, fdiv(mul(a, bi(uni(rt, -1100, 1100, "millionths"))), bi(1_000_000)))
		}
		big1, d := maxB(a, b), new(big.Int).Abs(sub(a, b))
		eq := utils.DecApproxEqual(decOf(a), decOf(b))
		if eq != utils.DecApproxEqual(decOf(b), decOf(a)) {
			rt.Fatalf("approximate equality of %s and %s depends on the order", decOf(a), decOf(b))
		}
		// the quotient is rounded to 18 decimals
		if lo, hi := mul(d, bi(1000)), add(big1, fdiv(big1, pow10i(14))); eq && lo.Cmp(hi) > 0 || !eq && lo.Cmp(big1) <= 0 {
			rt.Fatalf("%s and %s approximately equal: %v", decOf(a), decOf(b), eq)
		}
		// integers as bytes
		m, n := uint32(uni(rt, 0, 1<<32-1, "m")), uint32(uni(rt, 0, 1<<32-1, "n"))
		if rapid.Bool().Draw(rt, "near") {
			n = m + uint32(uni(rt, -2, 2, "more"))
		}
		mb, nb := utils.Uint32ToBigEndian(m), utils.Uint32ToBigEndian(n)
		if utils.BigEndianToUint32(mb) != m || len(mb) != 4 || (m < n) != (bytes.Compare(mb, nb) < 0) || utils.BigEndianToUint32(nil) != 0 {
			rt.Fatalf("%d is %x, %d is %x", m, mb, n, nb)
		}
		// division
		p, q := uni(rt, -1<<40, 1<<40, "p"), uni(rt, 1, 1<<30, "q")
		if rapid.Bool().Draw(rt, "small") {
			p, q = p%50, q%7+1
		}
		if k, r := utils.DivMod(p, q); k*q+r != p || r < 0 || r >= q {
			rt.Fatalf("%d divided by %d is %d, %d", p, q, k, r)
		}
		// order sizes
		price := drawLog(rt, 40, "price")
		size := drawLog(rt, 40, "size")
		if rapid.Bool().Draw(rt, "edge") && price.Sign() > 0 {
			size = add(fdiv(mul(bi(100), e18), price), bi(uni(rt, -1, 1, "off")))
			if size.Sign() < 0 {
				size = bi(0)
			}
		}
		if size.Cmp(pow10i(40)) <= 0 {
			if g, w := types.IsTooSmallOrderAmount(toInt(size), decOf(price)), size.Cmp(bi(100)) < 0 || mul(size, price).Cmp(mul(bi(100), e18)) < 0; g != w {
				rt.Fatalf("an order of %s at %s is too small: %v", size, decOf(price), g)
			}
			if price.Sign() > 0 {
				if g := amm.OfferCoinAmount(amm.Buy, decOf(price), toInt(size)); g.BigInt().Cmp(quoCeil(price, size)) != 0 {
					rt.Fatalf("the offer for %s at %s is %s", size, decOf(price), g)
				}
				if g := amm.OfferCoinAmount(amm.Sell, decOf(price), toInt(size)); g.BigInt().Cmp(size) != 0 {
					rt.Fatalf("the offer of %s is %s", size, g)
				}
			}
		}
	})
	prop(t, "overflow", 60000, func(rt *rapid.T, c *Case) {
		bits := func(label string) *big.Int {
			return new(big.Int).Rsh(new(big.Int).Sub(new(big.Int).Lsh(bi(1), 256), bi(1)), uint(uni(rt, 0, 255, label)))
		}
		limit := new(big.Int).Lsh(bi(1), 256) // of an integer
		dlim := new(big.Int).Lsh(bi(1), 315)  // of a decimal, scaled
		x, y := bits("x"), bits("y")
		if rapid.Bool().Draw(rt, "negative") {
			x = new(big.Int).Neg(x)
		}
		kind := pick(rt, []string{"mul", "add", "int", "decmul", "fromdec", "nothing", "other", "runtime", "error", "divide"}, "operation")
		c.Logf("%s %s %s", kind, x, y)
		var f func()
		over := false
		var thrown interface{}
		switch kind {
		case "mul":
			f = func() { toInt(x).Mul(toInt(y)) }
			over = new(big.Int).Abs(mul(x, y)).Cmp(limit) >= 0
		case "add":
			f = func() { toInt(x).Add(toInt(y)) }
			over = new(big.Int).Abs(add(x, y)).Cmp(limit) >= 0
		case "int":
			z := mul(x, y)
			f = func() { math.NewIntFromBigInt(z) }
			over = new(big.Int).Abs(z).Cmp(limit) >= 0
		case "decmul":
			a, b := new(big.Int).Rsh(x, 8), new(big.Int).Rsh(y, 8)
			f = func() { decOf(a).MulTruncate(decOf(b)) }
			over = new(big.Int).Abs(new(big.Int).Quo(mul(a, b), e18)).Cmp(dlim) >= 0
		case "fromdec":
			a := new(big.Int).Lsh(x, 58)
			f = func() { math.LegacyNewDecFromBigIntWithPrec(a, 18).TruncateInt() }
			over = new(big.Int).Abs(new(big.Int).Quo(a, e18)).Cmp(limit) >= 0
		case "nothing":
			f = func() {}
		case "other":
			thrown = pick(rt, []interface{}{"something else", 17, "bound", "over", "out of bounds of reason", struct{}{}, []byte("overflow")}, "thrown")
			f = func() { panic(thrown) }
		case "error":
			thrown = pick(rt, []interface{}{errors.New("some error"), fmt.Errorf("insufficient funds"), sdk.ErrEmptyHexAddress}, "thrown")
			f = func() { panic(thrown) }
		case "runtime":
			f = func() { var m map[string]int; m["x"] = 1 }
			thrown = "assignment to entry in nil map"
		case "divide":
			f = func() { toInt(x).Quo(math.ZeroInt()) }
			thrown = "division by zero"
		}
		called, finished := 0, false
		got := tryCall(func() { utils.SafeMath(func() { f(); finished = true }, func() { called++ }) })
		switch {
		case thrown != nil:
			if got == nil || called > 0 {
				rt.Fatalf("the panic %v was kept: %v, handler called %d times", thrown, got, called)
			}
			if kind == "other" || kind == "error" {
				if fmt.Sprintf("%#v", got) != fmt.Sprintf("%#v", thrown) {
					rt.Fatalf("the panic %v became %v", thrown, got)
				}
			}
			c.Label("other panic")
		case over:
			if got != nil || called != 1 || finished {
				rt.Fatalf("an overflow: panic %v, handler called %d times, finished %v", got, called, finished)
			}
			c.Label("overflow")
			c.NonTrivial()
		default:
			if got != nil || called != 0 || !finished {
				rt.Fatalf("no overflow: panic %v, handler called %d times, finished %v", got, called, finished)
			}
		}
	})
	prop(t, "dates and lists", 60000, func(rt *rapid.T, c *Case) {
		unit := pick(rt, []time.Duration{time.Nanosecond, time.Second, time.Hour * 24}, "unit")
		zone := time.FixedZone("z", int(uni(rt, -12, 12, "zone"))*3600)
		at := func(i int64) time.Time {
			return time.Date(2022, 2, 27, 23, 0, 0, 0, time.UTC).Add(time.Duration(i) * unit)
		}
		a := uni(rt, 0, 8, "a")
		b := a + uni(rt, 1, 5, "b")
		p := uni(rt, 0, 8, "p")
		q := p + uni(rt, 1, 5, "q")
		common := false
		for i := a; i < b; i++ {
			in := i >= p && i < q
			common = common || in
		}
		c.Logf("%d %d, %d %d %v", a, b, p, q, unit)
		if g := utils.DateRangesOverlap(at(a), at(b).In(zone), at(p).In(zone), at(q)); g != common {
			rt.Fatalf("[%d, %d) and [%d, %d) overlap: %v", a, b, p, q, g)
		}
		if common {
			c.NonTrivial()
		}
		x := uni(rt, 0, 14, "x")
		if g := utils.DateRangeIncludes(at(a), at(b).In(zone), at(x)); g != (x >= a && x < b) {
			rt.Fatalf("[%d, %d) includes %d: %v", a, b, x, g)
		}
		s := at(x).In(zone).Format(time.RFC3339)
		if g := utils.ParseTime(s); !g.Equal(at(x).Truncate(time.Second)) {
			rt.Fatalf("%s is parsed as %s", s, g)
		}
		// lists
		var xs []int
		for i, n := 0, int(uni(rt, 0, 8, "n")); i < n; i++ {
			xs = append(xs, int(uni(rt, 0, 20, "element")))
		}
		mod := int(uni(rt, 1, 4, "mod"))
		orig := append([]int{}, xs...)
		var want []int
		for _, v := range xs {
			if v%mod == 0 {
				want = append(want, v)
			}
		}
		if g := utils.Filter(xs, func(v int) bool { return v%mod == 0 }); fmt.Sprint(g) != fmt.Sprint(want) || fmt.Sprint(xs) != fmt.Sprint(orig) {
			rt.Fatalf("filtering %v by %d gives %v", orig, mod, g)
		}
		seed := uni(rt, 0, 1<<30, "seed")
		utils.Shuffle(rand.New(rand.NewSource(seed)), xs)
		g := append([]int{}, xs...)
		w := append([]int{}, orig...)
		sort.Ints(g)
		sort.Ints(w)
		if fmt.Sprint(g) != fmt.Sprint(w) {
			rt.Fatalf("shuffling %v gives %v", orig, xs)
		}
		var accs []simtypes.Account
		for _, v := range orig {
			accs = append(accs, simtypes.Account{Address: utils.TestAddress(v)})
		}
		sh := utils.ShuffleSimAccounts(rand.New(rand.NewSource(seed)), accs)
		count := map[string]int{}
		for i := range accs {
			if !accs[i].Address.Equals(utils.TestAddress(orig[i])) {
				rt.Fatalf("shuffling changes the accounts given")
			}
			count[string(accs[i].Address)]++
			count[string(sh[i].Address)]--
		}
		for _, n := range count {
			if n != 0 || len(sh) != len(accs) {
				rt.Fatalf("shuffling loses accounts")
			}
		}
		i, j := int(uni(rt, -1<<40, 1<<40, "i")), int(uni(rt, -1<<40, 1<<40, "j"))
		if x, y := utils.TestAddress(i), utils.TestAddress(j); (i == j) != x.Equals(y) || len(x) != 20 {
			rt.Fatalf("test addresses %d %d: %s %s", i, j, x, y)
		}
		// sums by key
		m := utils.StrIntMap{}
		sums := map[string]int64{}
		for i, v := range orig {
			k := fmt.Sprint(v % 3)
			m.AddOrSet(k, math.NewInt(int64(v-i)))
			sums[k] += int64(v - i)
		}
		for k, v := range sums {
			if m[k].Int64() != v || len(m) != len(sums) {
				rt.Fatalf("sums of %v: %v", orig, m)
			}
		}
		var us []uint64
		for range orig {
			us = append(us, kid(rt, "u"))
		}
		if g, w := types.FormatUint64s(us), strings.Trim(strings.ReplaceAll(fmt.Sprint(us), " ", ","), "[]"); g != w {
			rt.Fatalf("%v is formatted as %s", us, g)
		}
		aa, bb := string(kaddrsOne(rt)), string(kaddrsOne(rt))
		if len(aa) < 256 && len(bb) < 256 {
			if x, y := append(utils.LengthPrefixString(aa), utils.LengthPrefixString(bb)...), append(utils.LengthPrefixString(bb), utils.LengthPrefixString(aa)...); bytes.Equal(x, y) != (aa == bb) {
				rt.Fatalf("%q and %q: %x", aa, bb, x)
			}
		}
	})
	prop(t, "parsing", 40000, func(rt *rapid.T, c *Case) {
		under := func(s string) string {
			for i, n := 0, int(uni(rt, 0, 3, "underscores")); i < n; i++ {
				at := int(uni(rt, 0, int64(len(s)), "at"))
				s = s[:at] + "_" + s[at:]
			}
			return s
		}
		x := drawSigned(rt, 60, "x")
		if s := under(x.String()); utils.ParseInt(s).BigInt().Cmp(x) != 0 {
			rt.Fatalf("%s is parsed as %s", s, utils.ParseInt(s))
		}
		d := decOf(drawSigned(rt, 50, "d"))
		s := d.String()
		if rapid.Bool().Draw(rt, "short") && strings.Contains(s, ".") {
			s = strings.TrimRight(s, "0")
			s = strings.TrimSuffix(s, ".")
		}
		s = under(s)
		c.Logf("%s %s", x, s)
		if p := tryCall(func() {
			if !utils.ParseDec(s).Equal(d) || !utils.ParseDecP(s).Equal(d) {
				rt.Fatalf("%s is parsed as %s", s, utils.ParseDec(s))
			}
		}); p != nil {
			rt.Fatalf("%s: %v", s, p)
		}
		var cs sdk.Coins
		var ds sdk.DecCoins
		for _, denom := range kdenoms(rt)[:1] {
			denom = strings.ReplaceAll(denom, "_", "x") // underscores are left out
			cs = cs.Add(sdk.NewCoin(denom, toInt(add(drawLog(rt, 30, "coin"), bi(1)))))
		}
		cs = cs.Add(sdk.NewCoin("zzz", toInt(add(drawLog(rt, 30, "coin"), bi(1)))))
		for _, cn := range cs {
			ds = ds.Add(sdk.NewDecCoinFromDec(cn.Denom, decOf(add(cn.Amount.BigInt(), bi(1)))))
		}
		if g := utils.ParseCoins(cs.String()); g.String() != cs.String() {
			rt.Fatalf("%s is parsed as %s", cs, g)
		}
		if g := utils.ParseCoin(under(cs[0].Amount.String()) + cs[0].Denom); !g.Equal(cs[0]) {
			rt.Fatalf("%s is parsed as %s", cs[0], g)
		}
		if g := utils.ParseDecCoins(ds.String()); g.String() != ds.String() {
			rt.Fatalf("%s is parsed as %s", ds, g)
		}
		if g := utils.ParseDecCoin(ds[0].String()); !g.Equal(ds[0]) {
			rt.Fatalf("%s is parsed as %s", ds[0], g)
		}
		c.NonTrivial()
	})
	prop(t, "random", 20000, func(rt *rapid.T, c *Case) {
		seed := uni(rt, 0, 1<<40, "seed")
		lo := drawSigned(rt, 30, "lo")
		width := add(drawLog(rt, 25, "width"), bi(1))
		hi := add(lo, width)
		c.Logf("[%s, %s) seed %d", lo, hi, seed)
		r, r2 := rand.New(rand.NewSource(seed)), rand.New(rand.NewSource(seed))
		seen := map[string]bool{}
		for i := 0; i < 30; i++ {
			x := utils.RandomInt(r, toInt(lo), toInt(hi))
			if x.BigInt().Cmp(lo) < 0 || x.BigInt().Cmp(hi) >= 0 {
				rt.Fatalf("%s is not in [%s, %s)", x, lo, hi)
			}
			seen[x.String()] = true
			y := utils.RandomDec(r, decOf(lo), decOf(hi))
			if scaled(y).Cmp(lo) < 0 || scaled(y).Cmp(hi) >= 0 {
				rt.Fatalf("%s is not in [%s, %s)", y, decOf(lo), decOf(hi))
			}
			if a, b := utils.RandomInt(r2, toInt(lo), toInt(hi)), utils.RandomDec(r2, decOf(lo), decOf(hi)); !a.Equal(x) || !b.Equal(y) {
				rt.Fatalf("not a function of the source")
			}
		}
		if width.Cmp(bi(1)) > 0 {
			c.NonTrivial()
			if len(seen) == 1 { // has a chance of less than 2^-29
				rt.Fatalf("always the same number out of [%s, %s)", lo, hi)
			}
		}
		// random ticks
		prec := int(uni(rt, 1, 5, "prec"))
		a := rTick(uni(rt, 0, 40*pow10i(prec).Int64(), "tick"), prec)
		b := rTick(rIndex(a, prec)+uni(rt, 1, 1000, "more"), prec)
		x := amm.RandomTick(r, decOf(a), decOf(b), prec)
		if rDown(scaled(x), prec).Cmp(scaled(x)) != 0 || scaled(x).Cmp(a) < 0 || scaled(x).Cmp(b) > 0 {
			rt.Fatalf("random tick %s in [%s, %s] at precision %d", x, decOf(a), decOf(b), prec)
		}
	})
}

func kaddrsOne(rt *rapid.T) []byte { return kaddrs(rt)[0] }
