package zverif

import (
	"encoding/json"
	"strings"
	"testing"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"pgregory.net/rapid"

	"defund/x/dex/types"
)

var wideIDs = []uint64{1, 2, 3, 9, 10, 100, 127, 128, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, 1 << 63, 1<<64 - 2, 1<<64 - 1}

// uniqueIDs draws n distinct ids.
func uniqueIDs(rt *rapid.T, n int, label string) (out []uint64) {
	perm := rapid.Permutation(wideIDs).Draw(rt, label)
	return append(out, perm[:n]...)
}

func wideTime(rt *rapid.T, label string) time.Time {
	base := pick(rt, []time.Time{time.Unix(0, 1).UTC(), time.Date(2022, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2022, 1, 1, 0, 0, 0, 999999999, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC)}, label)
	return base
}

func widePrice(rt *rapid.T, label string) math.LegacyDec {
	return math.LegacyNewDecFromBigIntWithPrec(drawPositive(rt, label, 50), 18)
}

// drawGenesis draws a consistent state.
func drawGenesis(rt *rapid.T) *types.GenesisState {
	gs := types.DefaultGenesis()
	gs.Params = drawParams(rt)
	users := []string{}
	for i, n := 0, int(uni(rt, 1, 5, "users")); i < n; i++ {
		a := randAddr(rt, pick(rt, []int{20, 20, 32, 1, 2, 255}, "address length"))
		users = append(users, a)
		if rapid.Bool().Draw(rt, "extended") { // an address which begins with another one
			b := sdk.MustAccAddressFromBech32(a)
			if len(b) < 255 {
				users = append(users, sdk.AccAddress(append(append([]byte{}, b...), byte(uni(rt, 0, 255, "byte")))).String())
			}
		}
	}
	user := func() string { return pick(rt, users, "user") }
	denoms := []string{"aaa", "aaaa", "aab", "pool1", strings.Repeat("a", 127), strings.Repeat("a", 128), drawDenom(rt, "denom"), drawDenom(rt, "denom")}
	height := func() int64 { return pick(rt, []int64{1, 2, 1 << 40, 1<<63 - 1}, "height") }
	seen := map[string]bool{}
	for _, id := range uniqueIDs(rt, int(uni(rt, 0, 5, "pairs")), "pair ids") {
		p := types.NewPair(id, pick(rt, denoms, "base"), pick(rt, denoms, "quote"))
		if seen[p.BaseCoinDenom+" "+p.QuoteCoinDenom] || p.BaseCoinDenom == p.QuoteCoinDenom {
			continue
		}
		seen[p.BaseCoinDenom+" "+p.QuoteCoinDenom] = true
		p.LastOrderId = pick(rt, []uint64{1<<64 - 1}, "last order")
		p.CurrentBatchId = pick(rt, []uint64{1, 2, 1 << 40, 1<<64 - 1}, "batch")
		if rapid.Bool().Draw(rt, "last price") {
			x := widePrice(rt, "last price")
			p.LastPrice = &x
		}
		gs.Pairs = append(gs.Pairs, p)
		gs.LastPairId = max(gs.LastPairId, id)
	}
	if gs.LastPairId < 1<<64-1 && rapid.Bool().Draw(rt, "more pairs were made") {
		gs.LastPairId++
	}
	if len(gs.Pairs) == 0 {
		return gs
	}
	for _, id := range uniqueIDs(rt, int(uni(rt, 0, 5, "pools")), "pool ids") {
		pair := pick(rt, gs.Pairs, "pair of pool")
		creator := sdk.MustAccAddressFromBech32(user())
		p := types.NewBasicPool(id, pair.Id, creator)
		if rapid.Bool().Draw(rt, "ranged") {
			lo := add(bi(1_000), drawPositive(rt, "min price", 37))
			p = types.NewRangedPool(id, pair.Id, creator, decOf(lo), decOf(add(lo, add(cdiv(lo, bi(999)), drawPositive(rt, "more", 37)))))
		}
		p.LastDepositRequestId, p.LastWithdrawRequestId = 1<<64-1, 1<<64-1
		p.Disabled = rapid.Bool().Draw(rt, "disabled")
		gs.Pools = append(gs.Pools, p)
		gs.LastPoolId = max(gs.LastPoolId, id)
	}
	if gs.LastPoolId < 1<<64-1 && rapid.Bool().Draw(rt, "more pools were made") {
		gs.LastPoolId++
	}
	amount := func(label string) math.Int { return toInt(drawPositive(rt, label, 40)) }
	zeroOr := func(label string) math.Int {
		if rapid.Bool().Draw(rt, label+" zero") {
			return math.ZeroInt()
		}
		return amount(label)
	}
	pairOf := func(id uint64) types.Pair {
		for _, p := range gs.Pairs {
			if p.Id == id {
				return p
			}
		}
		panic("pair")
	}
	for _, pool := range gs.Pools {
		pair := pairOf(pool.PairId)
		both := func(label string) sdk.Coins {
			cs := sdk.NewCoins(sdk.NewCoin(pair.BaseCoinDenom, amount(label)), sdk.NewCoin(pair.QuoteCoinDenom, amount(label)))
			return cs
		}
		for _, id := range uniqueIDs(rt, int(uni(rt, 0, 3, "deposits")), "deposit ids") {
			r := types.DepositRequest{Id: id, PoolId: pool.Id, MsgHeight: height(), Depositor: user(), DepositCoins: both("deposit"),
				MintedPoolCoin: sdk.NewCoin(pool.PoolCoinDenom, zeroOr("minted")),
				Status:         pick(rt, []types.RequestStatus{types.RequestStatusNotExecuted, types.RequestStatusSucceeded, types.RequestStatusFailed}, "status")}
			if pool.Type == types.PoolTypeRanged && rapid.Bool().Draw(rt, "single") {
				r.DepositCoins = sdk.Coins{pick(rt, []sdk.Coin(r.DepositCoins), "side")}
			}
			if r.Status == types.RequestStatusSucceeded {
				r.AcceptedCoins = r.DepositCoins[:int(uni(rt, 0, int64(len(r.DepositCoins)), "accepted"))]
				if len(r.AcceptedCoins) == 0 {
					r.AcceptedCoins = nil
				}
			}
			gs.DepositRequests = append(gs.DepositRequests, r)
		}
		for _, id := range uniqueIDs(rt, int(uni(rt, 0, 3, "withdrawals")), "withdrawal ids") {
			r := types.WithdrawRequest{Id: id, PoolId: pool.Id, MsgHeight: height(), Withdrawer: user(), PoolCoin: sdk.NewCoin(pool.PoolCoinDenom, amount("pool coin")),
				Status: pick(rt, []types.RequestStatus{types.RequestStatusNotExecuted, types.RequestStatusSucceeded, types.RequestStatusFailed}, "status")}
			if r.Status == types.RequestStatusSucceeded {
				r.WithdrawnCoins = both("withdrawn")
			}
			gs.WithdrawRequests = append(gs.WithdrawRequests, r)
		}
	}
	for _, pair := range gs.Pairs {
		for _, id := range uniqueIDs(rt, int(uni(rt, 0, 4, "orders")), "order ids") {
			o := types.Order{Type: pick(rt, []types.OrderType{types.OrderTypeLimit, types.OrderTypeMarket, types.OrderTypeMM}, "type"), Id: id, PairId: pair.Id, MsgHeight: height(), Orderer: user(),
				Price: widePrice(rt, "price"), Amount: amount("amount"), OpenAmount: zeroOr("open"), ExpireAt: wideTime(rt, "expiry"),
				BatchId: pick(rt, []uint64{1, pair.CurrentBatchId, (pair.CurrentBatchId + 1) / 2}, "batch"),
				Status: pick(rt, []types.OrderStatus{types.OrderStatusNotExecuted, types.OrderStatusNotMatched, types.OrderStatusPartiallyMatched,
					types.OrderStatusCompleted, types.OrderStatusCanceled, types.OrderStatusExpired}, "status")}
			if o.BatchId == 0 {
				o.BatchId = pair.CurrentBatchId
			}
			offer, demand := pair.BaseCoinDenom, pair.QuoteCoinDenom
			o.Direction = types.OrderDirectionSell
			if rapid.Bool().Draw(rt, "buy") {
				offer, demand = demand, offer
				o.Direction = types.OrderDirectionBuy
			}
			o.OfferCoin = sdk.NewCoin(offer, amount("offer"))
			o.RemainingOfferCoin = sdk.NewCoin(offer, zeroOr("remaining"))
			o.ReceivedCoin = sdk.NewCoin(demand, zeroOr("received"))
			gs.Orders = append(gs.Orders, o)
		}
	}
	mm := map[mmKey]bool{}
	for i, n := 0, int(uni(rt, 0, 4, "counters")); i < n; i++ {
		k := mmKey{user(), pick(rt, gs.Pairs, "pair").Id}
		if !mm[k] {
			mm[k] = true
			gs.NumMarketMakingOrdersRecords = append(gs.NumMarketMakingOrdersRecords, types.NumMMOrdersRecord{Orderer: k.addr, PairId: k.pair, NumMarketMakingOrders: pick(rt, []uint32{1, 15, 1<<32 - 1}, "count")})
		}
	}
	return gs
}

// flaw breaks one rule at one record, if there is such a record.
type genesisFlaw struct {
	name string
	f    func(rt *rapid.T, gs *types.GenesisState) bool
}

func onPair(f func(rt *rapid.T, gs *types.GenesisState, p *types.Pair) bool) func(*rapid.T, *types.GenesisState) bool {
	return func(rt *rapid.T, gs *types.GenesisState) bool {
		return len(gs.Pairs) > 0 && f(rt, gs, &gs.Pairs[int(uni(rt, 0, int64(len(gs.Pairs)-1), "flawed pair"))])
	}
}
func onPool(f func(rt *rapid.T, gs *types.GenesisState, p *types.Pool) bool) func(*rapid.T, *types.GenesisState) bool {
	return func(rt *rapid.T, gs *types.GenesisState) bool {
		return len(gs.Pools) > 0 && f(rt, gs, &gs.Pools[int(uni(rt, 0, int64(len(gs.Pools)-1), "flawed pool"))])
	}
}
func onDep(f func(rt *rapid.T, gs *types.GenesisState, p *types.DepositRequest) bool) func(*rapid.T, *types.GenesisState) bool {
	return func(rt *rapid.T, gs *types.GenesisState) bool {
		return len(gs.DepositRequests) > 0 && f(rt, gs, &gs.DepositRequests[int(uni(rt, 0, int64(len(gs.DepositRequests)-1), "flawed deposit"))])
	}
}
func onWd(f func(rt *rapid.T, gs *types.GenesisState, p *types.WithdrawRequest) bool) func(*rapid.T, *types.GenesisState) bool {
	return func(rt *rapid.T, gs *types.GenesisState) bool {
		return len(gs.WithdrawRequests) > 0 && f(rt, gs, &gs.WithdrawRequests[int(uni(rt, 0, int64(len(gs.WithdrawRequests)-1), "flawed withdrawal"))])
	}
}
func onOrder(f func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool) func(*rapid.T, *types.GenesisState) bool {
	return func(rt *rapid.T, gs *types.GenesisState) bool {
		return len(gs.Orders) > 0 && f(rt, gs, &gs.Orders[int(uni(rt, 0, int64(len(gs.Orders)-1), "flawed order"))])
	}
}

func badAddr(rt *rapid.T) string    { return pick(rt, badAddrs, "bad address") }
func badDenom(rt *rapid.T) string   { return pick(rt, badDenoms, "bad denom") }
func negative(rt *rapid.T) math.Int { return toInt(sub(bi(0), drawPositive(rt, "negative", 40))) }

// missingID is an id that no pair or pool has.
func missingID(rt *rapid.T, has func(uint64) bool) uint64 {
	for {
		id := pick(rt, []uint64{1, 2, 3, 4, 5, 77, 1 << 20, 1<<64 - 1}, "missing id")
		if !has(id) {
			return id
		}
	}
}

func hasPair(gs *types.GenesisState) func(uint64) bool {
	return func(id uint64) bool {
		for _, p := range gs.Pairs {
			if p.Id == id {
				return true
			}
		}
		return false
	}
}
func hasPool(gs *types.GenesisState) func(uint64) bool {
	return func(id uint64) bool {
		for _, p := range gs.Pools {
			if p.Id == id {
				return true
			}
		}
		return false
	}
}

// foreign is a denom other than the given ones.
func foreign(rt *rapid.T, not ...string) string {
	for {
		d := pick(rt, []string{"aaa", "aaaa", "aab", "pool1", "pool2", "stake", "zzz", "Aaa"}, "foreign denom")
		ok := true
		for _, n := range not {
			ok = ok && n != d
		}
		if ok {
			return d
		}
	}
}

func insert[T any](rt *rapid.T, xs []T, x T) []T {
	i := int(uni(rt, 0, int64(len(xs)), "place"))
	out := append([]T{}, xs[:i]...)
	return append(append(out, x), xs[i:]...)
}

var genesisFlaws = []genesisFlaw{
	{"invalid parameters", func(rt *rapid.T, gs *types.GenesisState) bool {
		for {
			f := pick(rt, paramFields, "bad field")
			if f.bad == nil || f.name == "TickPrecision" {
				continue
			}
			p := gs.Params
			f.bad(rt, &p)
			if !jsonSafe(&p) { // not expressible in the JSON form
				continue
			}
			gs.Params = p
			return true
		}
	}},
	{"pair id zero", onPair(func(rt *rapid.T, gs *types.GenesisState, p *types.Pair) bool { p.Id = 0; return true })},
	{"pair base denom", onPair(func(rt *rapid.T, gs *types.GenesisState, p *types.Pair) bool {
		p.BaseCoinDenom = badDenom(rt)
		return true
	})},
	{"pair quote denom", onPair(func(rt *rapid.T, gs *types.GenesisState, p *types.Pair) bool {
		p.QuoteCoinDenom = badDenom(rt)
		return true
	})},
	{"pair escrow", onPair(func(rt *rapid.T, gs *types.GenesisState, p *types.Pair) bool {
		p.EscrowAddress = badAddr(rt)
		return true
	})},
	{"pair last price", onPair(func(rt *rapid.T, gs *types.GenesisState, p *types.Pair) bool {
		x := pick(rt, []math.LegacyDec{math.LegacyZeroDec(), math.LegacyNewDec(-1), math.LegacySmallestDec().Neg()}, "bad price")
		p.LastPrice = &x
		return true
	})},
	{"pair batch", onPair(func(rt *rapid.T, gs *types.GenesisState, p *types.Pair) bool { p.CurrentBatchId = 0; return true })},
	{"pair id out of range", onPair(func(rt *rapid.T, gs *types.GenesisState, p *types.Pair) bool {
		var top uint64
		for _, q := range gs.Pairs {
			top = max(top, q.Id)
		}
		gs.LastPairId = pick(rt, []uint64{top - 1, 0, top / 2}, "last pair id")
		return true
	})},
	{"duplicate pair id", onPair(func(rt *rapid.T, gs *types.GenesisState, p *types.Pair) bool {
		q := *p
		q.BaseCoinDenom, q.QuoteCoinDenom = "dup", "lic"
		gs.Pairs = insert(rt, gs.Pairs, q)
		return true
	})},
	{"pool id zero", onPool(func(rt *rapid.T, gs *types.GenesisState, p *types.Pool) bool { p.Id = 0; return true })},
	{"pool pair id zero", onPool(func(rt *rapid.T, gs *types.GenesisState, p *types.Pool) bool { p.PairId = 0; return true })},
	{"pool reserve", onPool(func(rt *rapid.T, gs *types.GenesisState, p *types.Pool) bool {
		p.ReserveAddress = badAddr(rt)
		return true
	})},
	{"pool coin denom", onPool(func(rt *rapid.T, gs *types.GenesisState, p *types.Pool) bool {
		p.PoolCoinDenom = badDenom(rt)
		return true
	})},
	{"pool id out of range", onPool(func(rt *rapid.T, gs *types.GenesisState, p *types.Pool) bool {
		var top uint64
		for _, q := range gs.Pools {
			top = max(top, q.Id)
		}
		gs.LastPoolId = pick(rt, []uint64{top - 1, 0, top / 2}, "last pool id")
		return true
	})},
	{"pool of a missing pair", onPool(func(rt *rapid.T, gs *types.GenesisState, p *types.Pool) bool {
		p.PairId = missingID(rt, hasPair(gs))
		return true
	})},
	{"duplicate pool id", onPool(func(rt *rapid.T, gs *types.GenesisState, p *types.Pool) bool {
		q := *p
		q.PairId = pick(rt, gs.Pairs, "pair of duplicate").Id
		gs.Pools = insert(rt, gs.Pools, q)
		return true
	})},
	{"deposit id zero", onDep(func(rt *rapid.T, gs *types.GenesisState, p *types.DepositRequest) bool { p.Id = 0; return true })},
	{"deposit of a missing pool", onDep(func(rt *rapid.T, gs *types.GenesisState, p *types.DepositRequest) bool {
		p.PoolId = pick(rt, []uint64{0, missingID(rt, hasPool(gs))}, "pool id")
		return true
	})},
	{"deposit height", onDep(func(rt *rapid.T, gs *types.GenesisState, p *types.DepositRequest) bool { p.MsgHeight = 0; return true })},
	{"depositor", onDep(func(rt *rapid.T, gs *types.GenesisState, p *types.DepositRequest) bool {
		p.Depositor = badAddr(rt)
		return true
	})},
	{"no deposit coins", onDep(func(rt *rapid.T, gs *types.GenesisState, p *types.DepositRequest) bool {
		p.DepositCoins, p.AcceptedCoins = nil, nil
		return true
	})},
	{"negative deposit coin", onDep(func(rt *rapid.T, gs *types.GenesisState, p *types.DepositRequest) bool {
		i := int(uni(rt, 0, int64(len(p.DepositCoins)-1), "coin"))
		cs := append(sdk.Coins{}, p.DepositCoins...)
		cs[i].Amount = pick(rt, []math.Int{math.ZeroInt(), negative(rt)}, "amount")
		p.DepositCoins = cs
		return true
	})},
	{"unsorted deposit coins", onDep(func(rt *rapid.T, gs *types.GenesisState, p *types.DepositRequest) bool {
		if len(p.DepositCoins) != 2 {
			return false
		}
		p.DepositCoins = sdk.Coins{p.DepositCoins[1], p.DepositCoins[0]}
		return true
	})},
	{"foreign deposit coin", onDep(func(rt *rapid.T, gs *types.GenesisState, p *types.DepositRequest) bool {
		i := int(uni(rt, 0, int64(len(p.DepositCoins)-1), "coin"))
		cs := append(sdk.Coins{}, p.DepositCoins...)
		base, quote := denomsOfPool(gs, p.PoolId)
		cs[i].Denom = foreign(rt, base, quote)
		p.DepositCoins, p.AcceptedCoins = cs.Sort(), nil
		return true
	})},
	{"third deposit coin", onDep(func(rt *rapid.T, gs *types.GenesisState, p *types.DepositRequest) bool {
		if len(p.DepositCoins) != 2 {
			return false
		}
		base, quote := denomsOfPool(gs, p.PoolId)
		p.DepositCoins = p.DepositCoins.Add(sdk.NewInt64Coin(foreign(rt, base, quote), 5))
		return true
	})},
	{"single-sided deposit of a basic pool", onDep(func(rt *rapid.T, gs *types.GenesisState, p *types.DepositRequest) bool {
		for _, q := range gs.Pools {
			if q.Id == p.PoolId && q.Type != types.PoolTypeBasic {
				return false
			}
		}
		p.DepositCoins = sdk.Coins{pick(rt, []sdk.Coin(p.DepositCoins), "side")}
		p.AcceptedCoins = nil
		return true
	})},
	{"accepted coin that was not deposited", onDep(func(rt *rapid.T, gs *types.GenesisState, p *types.DepositRequest) bool {
		var ds []string
		for _, c := range p.DepositCoins {
			ds = append(ds, c.Denom)
		}
		p.AcceptedCoins = sdk.NewCoins(sdk.NewInt64Coin(foreign(rt, ds...), 7))
		if rapid.Bool().Draw(rt, "also good") {
			p.AcceptedCoins = p.AcceptedCoins.Add(p.DepositCoins[0])
		}
		return true
	})},
	{"invalid accepted coins", onDep(func(rt *rapid.T, gs *types.GenesisState, p *types.DepositRequest) bool {
		c := p.DepositCoins[0]
		p.AcceptedCoins = pick(rt, []sdk.Coins{{sdk.Coin{Denom: c.Denom, Amount: math.ZeroInt()}}, {sdk.Coin{Denom: c.Denom, Amount: negative(rt)}}, {c, c}}, "accepted")
		return true
	})},
	{"minted coin of another pool", onDep(func(rt *rapid.T, gs *types.GenesisState, p *types.DepositRequest) bool {
		p.MintedPoolCoin.Denom = foreign(rt, p.MintedPoolCoin.Denom)
		return true
	})},
	{"negative minted coin", onDep(func(rt *rapid.T, gs *types.GenesisState, p *types.DepositRequest) bool {
		p.MintedPoolCoin.Amount = negative(rt)
		return true
	})},
	{"deposit status", onDep(func(rt *rapid.T, gs *types.GenesisState, p *types.DepositRequest) bool {
		p.Status = pick(rt, []types.RequestStatus{types.RequestStatusUnspecified}, "bad status")
		return true
	})},
	{"duplicate deposit", onDep(func(rt *rapid.T, gs *types.GenesisState, p *types.DepositRequest) bool {
		q := *p
		q.MsgHeight = 12345
		gs.DepositRequests = insert(rt, gs.DepositRequests, q)
		return true
	})},
	{"withdrawal id zero", onWd(func(rt *rapid.T, gs *types.GenesisState, p *types.WithdrawRequest) bool { p.Id = 0; return true })},
	{"withdrawal of a missing pool", onWd(func(rt *rapid.T, gs *types.GenesisState, p *types.WithdrawRequest) bool {
		p.PoolId = pick(rt, []uint64{0, missingID(rt, hasPool(gs))}, "pool id")
		return true
	})},
	{"withdrawal height", onWd(func(rt *rapid.T, gs *types.GenesisState, p *types.WithdrawRequest) bool { p.MsgHeight = 0; return true })},
	{"withdrawer", onWd(func(rt *rapid.T, gs *types.GenesisState, p *types.WithdrawRequest) bool {
		p.Withdrawer = badAddr(rt)
		return true
	})},
	{"pool coin amount", onWd(func(rt *rapid.T, gs *types.GenesisState, p *types.WithdrawRequest) bool {
		p.PoolCoin.Amount = pick(rt, []math.Int{math.ZeroInt(), negative(rt)}, "amount")
		return true
	})},
	{"pool coin of another pool", onWd(func(rt *rapid.T, gs *types.GenesisState, p *types.WithdrawRequest) bool {
		p.PoolCoin.Denom = foreign(rt, p.PoolCoin.Denom)
		return true
	})},
	{"invalid withdrawn coins", onWd(func(rt *rapid.T, gs *types.GenesisState, p *types.WithdrawRequest) bool {
		p.WithdrawnCoins = pick(rt, []sdk.Coins{{sdk.Coin{Denom: "aaa", Amount: math.ZeroInt()}}, {sdk.Coin{Denom: "aaa", Amount: negative(rt)}},
			{sdk.NewInt64Coin("bbb", 1), sdk.NewInt64Coin("aaa", 1)}, {sdk.NewInt64Coin("aaa", 1), sdk.NewInt64Coin("aaa", 1)},
			sdk.NewCoins(sdk.NewInt64Coin("aaa", 1), sdk.NewInt64Coin("bbb", 1), sdk.NewInt64Coin("ccc", 1))}, "withdrawn")
		return true
	})},
	{"withdrawal status", onWd(func(rt *rapid.T, gs *types.GenesisState, p *types.WithdrawRequest) bool {
		p.Status = types.RequestStatusUnspecified
		return true
	})},
	{"duplicate withdrawal", onWd(func(rt *rapid.T, gs *types.GenesisState, p *types.WithdrawRequest) bool {
		q := *p
		q.MsgHeight = 12345
		gs.WithdrawRequests = insert(rt, gs.WithdrawRequests, q)
		return true
	})},
	{"order id zero", onOrder(func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool { p.Id = 0; return true })},
	{"order of a missing pair", onOrder(func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool {
		p.PairId = pick(rt, []uint64{0, missingID(rt, hasPair(gs))}, "pair id")
		return true
	})},
	{"order height", onOrder(func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool { p.MsgHeight = 0; return true })},
	{"orderer", onOrder(func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool { p.Orderer = badAddr(rt); return true })},
	{"order direction", onOrder(func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool {
		p.Direction = types.OrderDirectionUnspecified
		return true
	})},
	{"reversed order", onOrder(func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool {
		p.Direction = types.OrderDirectionBuy + types.OrderDirectionSell - p.Direction
		return true
	})},
	{"zero offer", onOrder(func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool {
		p.OfferCoin.Amount = pick(rt, []math.Int{math.ZeroInt(), negative(rt)}, "amount")
		return true
	})},
	{"negative remaining offer", onOrder(func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool {
		p.RemainingOfferCoin.Amount = negative(rt)
		return true
	})},
	{"remaining offer of another denom", onOrder(func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool {
		p.RemainingOfferCoin.Denom = foreign(rt, p.OfferCoin.Denom)
		return true
	})},
	{"offer of another denom", onOrder(func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool {
		d := foreign(rt, p.OfferCoin.Denom)
		p.OfferCoin.Denom, p.RemainingOfferCoin.Denom = d, d
		return true
	})},
	{"negative received coin", onOrder(func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool {
		p.ReceivedCoin.Amount = negative(rt)
		return true
	})},
	{"received coin of another denom", onOrder(func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool {
		p.ReceivedCoin.Denom = foreign(rt, p.ReceivedCoin.Denom)
		return true
	})},
	{"order price", onOrder(func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool {
		p.Price = pick(rt, []math.LegacyDec{math.LegacyZeroDec(), math.LegacyNewDec(-1), math.LegacySmallestDec().Neg()}, "bad price")
		return true
	})},
	{"order amount", onOrder(func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool {
		p.Amount = pick(rt, []math.Int{math.ZeroInt(), negative(rt)}, "amount")
		return true
	})},
	{"open amount", onOrder(func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool {
		p.OpenAmount = negative(rt)
		return true
	})},
	{"order batch zero", onOrder(func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool { p.BatchId = 0; return true })},
	{"order of a later batch", onOrder(func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool {
		for _, q := range gs.Pairs {
			if q.Id == p.PairId && q.CurrentBatchId < 1<<64-1 {
				p.BatchId = q.CurrentBatchId + 1
				return true
			}
		}
		return false
	})},
	{"order without expiry", onOrder(func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool { p.ExpireAt = time.Time{}; return true })},
	{"order status", onOrder(func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool {
		p.Status = types.OrderStatusUnspecified
		return true
	})},
	{"duplicate order", onOrder(func(rt *rapid.T, gs *types.GenesisState, p *types.Order) bool {
		q := *p
		q.MsgHeight = 12345
		gs.Orders = insert(rt, gs.Orders, q)
		return true
	})},
	{"zero counter", func(rt *rapid.T, gs *types.GenesisState) bool {
		if len(gs.Pairs) == 0 {
			return false
		}
		gs.NumMarketMakingOrdersRecords = insert(rt, gs.NumMarketMakingOrdersRecords, types.NumMMOrdersRecord{Orderer: addrN(77).String(), PairId: gs.Pairs[0].Id})
		return true
	}},
}

func denomsOfPool(gs *types.GenesisState, id uint64) (base, quote string) {
	for _, p := range gs.Pools {
		if p.Id == id {
			for _, q := range gs.Pairs {
				if q.Id == p.PairId {
					return q.BaseCoinDenom, q.QuoteCoinDenom
				}
			}
		}
	}
	return
}

func jsonSafe(p *types.Params) bool {
	return !p.MinInitialPoolCoinSupply.IsNil() && !p.MinInitialDepositAmount.IsNil() && !p.MaxPriceLimitRatio.IsNil() && !p.SwapFeeRate.IsNil() && !p.WithdrawFeeRate.IsNil()
}

func TestC22(t *testing.T) {
	prop(t, "consistent", 12000, func(rt *rapid.T, c *Case) {
		app, ctx := branch()
		gs := drawGenesis(rt)
		var raw json.RawMessage
		raw, err := app.AppCodec().MarshalJSON(gs)
		must(err)
		c.Logf("%s", raw)
		if err := gs.Validate(); err != nil {
			rt.Fatalf("consistent state is refused: %v", err)
		}
		if err := dexModule(app).ValidateGenesis(app.AppCodec(), nil, raw); err != nil {
			rt.Fatalf("consistent state is refused: %v", err)
		}
		wipe(app, ctx)
		if p := tryCall(func() { dexModule(app).InitGenesis(ctx, app.AppCodec(), raw) }); p != nil {
			rt.Fatalf("import of a consistent state fails: %v", p)
		}
		if len(gs.Orders) > 1 && len(gs.Pools) > 1 && len(gs.Pairs) > 1 {
			c.NonTrivial()
		}
	})
	prop(t, "inconsistent", 60000, func(rt *rapid.T, c *Case) {
		initBase()
		app := baseApp
		gs := drawGenesis(rt)
		f := pick(rt, genesisFlaws, "flaw")
		if !f.f(rt, gs) {
			return
		}
		c.Label(f.name)
		c.NonTrivial()
		raw, err := app.AppCodec().MarshalJSON(gs)
		must(err)
		c.Logf("%s: %s", f.name, raw)
		if gs.Validate() == nil {
			rt.Fatalf("inconsistent state is accepted by validation: %s", f.name)
		}
		if dexModule(app).ValidateGenesis(app.AppCodec(), nil, raw) == nil {
			rt.Fatalf("inconsistent state is accepted by validation of its JSON form: %s", f.name)
		}
		if rare(rt, 9, "import") {
			_, ctx := branch()
			wipe(app, ctx)
			if tryCall(func() { dexModule(app).InitGenesis(ctx, app.AppCodec(), raw) }) == nil {
				rt.Fatalf("inconsistent state is imported: %s", f.name)
			}
		}
	})
}
