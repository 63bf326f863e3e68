package zverif

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	vestingtypes "github.com/cosmos/cosmos-sdk/x/auth/vesting/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	minttypes "github.com/cosmos/cosmos-sdk/x/mint/types"
	"pgregory.net/rapid"

	chain "defund/app"
	"defund/testutil"
	"defund/x/dex/amm"
	dex "defund/x/dex/module"
	"defund/x/dex/types"
)

// ---- state of the chain as far as the dex is concerned ----

type key2 [2]uint64

type mmKey struct {
	addr string
	pair uint64
}

// W is a snapshot of the chain, or the model's prediction of it.
type W struct {
	prm                types.Params
	pairs              map[uint64]types.Pair
	pools              map[uint64]types.Pool
	orders             map[key2]types.Order // pair, order
	deps               map[key2]types.DepositRequest
	wds                map[key2]types.WithdrawRequest
	mm                 map[mmKey]uint32
	bal                map[string]map[string]*big.Int
	supply             map[string]*big.Int
	lastPair, lastPool uint64
	locked             map[string]*big.Int // of every denom, by vesting account; not part of the compared state
}

func snapshot(app *chain.App, ctx sdk.Context) *W {
	k := app.DexKeeper
	w := &W{prm: k.GetParams(ctx), pairs: map[uint64]types.Pair{}, pools: map[uint64]types.Pool{}, orders: map[key2]types.Order{},
		deps: map[key2]types.DepositRequest{}, wds: map[key2]types.WithdrawRequest{}, mm: map[mmKey]uint32{},
		bal: map[string]map[string]*big.Int{}, supply: map[string]*big.Int{}}
	w.lastPair, w.lastPool = k.GetLastPairId(ctx), k.GetLastPoolId(ctx)
	must(k.IterateAllPairs(ctx, func(p types.Pair) (bool, error) { w.pairs[p.Id] = p; return false, nil }))
	must(k.IterateAllPools(ctx, func(p types.Pool) (bool, error) { w.pools[p.Id] = p; return false, nil }))
	must(k.IterateAllOrders(ctx, func(o types.Order) (bool, error) { w.orders[key2{o.PairId, o.Id}] = o; return false, nil }))
	must(k.IterateAllDepositRequests(ctx, func(r types.DepositRequest) (bool, error) {
		w.deps[key2{r.PoolId, r.Id}] = r
		return false, nil
	}))
	must(k.IterateAllWithdrawRequests(ctx, func(r types.WithdrawRequest) (bool, error) {
		w.wds[key2{r.PoolId, r.Id}] = r
		return false, nil
	}))
	k.IterateAllNumMMOrders(ctx, func(a sdk.AccAddress, pair uint64, n uint32) bool {
		w.mm[mmKey{a.String(), pair}] = n
		return false
	})
	app.BankKeeper.IterateAllBalances(ctx, func(a sdk.AccAddress, c sdk.Coin) bool {
		w.addBal(a.String(), c.Denom, c.Amount.BigInt())
		return false
	})
	app.BankKeeper.IterateTotalSupply(ctx, func(c sdk.Coin) bool { w.supply[c.Denom] = c.Amount.BigInt(); return false })
	return w
}

func (w *W) addBal(addr, denom string, amt *big.Int) {
	m := w.bal[addr]
	if m == nil {
		m = map[string]*big.Int{}
		w.bal[addr] = m
	}
	old := m[denom]
	if old == nil {
		old = bi(0)
	}
	n := add(old, amt)
	if n.Sign() == 0 {
		delete(m, denom)
	} else {
		m[denom] = n
	}
}

func (w *W) balOf(addr, denom string) *big.Int {
	if x := w.bal[addr][denom]; x != nil {
		return x
	}
	return bi(0)
}

// spendable is what addr can send.
func (w *W) spendable(addr, denom string) *big.Int {
	b := w.balOf(addr, denom)
	if l := w.locked[addr]; l != nil && len(denom) == 3 {
		b = maxB(bi(0), sub(b, minB(l, b)))
	}
	return b
}

func (w *W) supplyOf(denom string) *big.Int {
	if x := w.supply[denom]; x != nil {
		return x
	}
	return bi(0)
}

func (w *W) mint(denom string, amt *big.Int) {
	n := add(w.supplyOf(denom), amt)
	if n.Sign() == 0 {
		delete(w.supply, denom)
	} else {
		w.supply[denom] = n
	}
}

func (w *W) clone() *W {
	n := &W{prm: w.prm, locked: w.locked, lastPair: w.lastPair, lastPool: w.lastPool, pairs: map[uint64]types.Pair{}, pools: map[uint64]types.Pool{},
		orders: map[key2]types.Order{}, deps: map[key2]types.DepositRequest{}, wds: map[key2]types.WithdrawRequest{}, mm: map[mmKey]uint32{},
		bal: map[string]map[string]*big.Int{}, supply: map[string]*big.Int{}}
	for k, v := range w.pairs {
		n.pairs[k] = v
	}
	for k, v := range w.pools {
		n.pools[k] = v
	}
	for k, v := range w.orders {
		n.orders[k] = v
	}
	for k, v := range w.deps {
		n.deps[k] = v
	}
	for k, v := range w.wds {
		n.wds[k] = v
	}
	for k, v := range w.mm {
		n.mm[k] = v
	}
	for a, m := range w.bal {
		c := map[string]*big.Int{}
		for k, v := range m {
			c[k] = v
		}
		n.bal[a] = c
	}
	for k, v := range w.supply {
		n.supply[k] = v
	}
	return n
}

func sortedU[V any](m map[uint64]V) []uint64 {
	var ks []uint64
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func sortedK2[V any](m map[key2]V) []key2 {
	var ks []key2
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i][0] < ks[j][0] || ks[i][0] == ks[j][0] && ks[i][1] < ks[j][1] })
	return ks
}

// diff lists the differences between the model's state and the chain's, by category.
type diffEntry struct{ cat, text string }

func diffW(exp, act *W) (out []diffEntry) {
	d := func(cat, format string, a ...interface{}) {
		out = append(out, diffEntry{cat, fmt.Sprintf(format, a...)})
	}
	if exp.prm.String() != act.prm.String() {
		d("params", "params %s, expected %s", act.prm.String(), exp.prm.String())
	}
	if exp.lastPair != act.lastPair || exp.lastPool != act.lastPool {
		d("ids", "last pair/pool id %d/%d, expected %d/%d", act.lastPair, act.lastPool, exp.lastPair, exp.lastPool)
	}
	cmpMap(exp.pairs, act.pairs, func(p types.Pair) string { return p.String() }, func(k uint64, e, a string) { d("pair", "pair %d is {%s}, expected {%s}", k, a, e) })
	cmpMap(exp.pools, act.pools, func(p types.Pool) string { return p.String() }, func(k uint64, e, a string) { d("pool", "pool %d is {%s}, expected {%s}", k, a, e) })
	cmpMap(exp.orders, act.orders, orderString, func(k key2, e, a string) { d("order", "order %v is {%s}, expected {%s}", k, a, e) })
	cmpMap(exp.deps, act.deps, depString, func(k key2, e, a string) { d("dep", "deposit request %v is {%s}, expected {%s}", k, a, e) })
	cmpMap(exp.wds, act.wds, wdString, func(k key2, e, a string) { d("wd", "withdraw request %v is {%s}, expected {%s}", k, a, e) })
	cmpMap(exp.mm, act.mm, func(n uint32) string { return fmt.Sprint(n) }, func(k mmKey, e, a string) { d("mm", "number of MM orders of %v is %s, expected %s", k, a, e) })
	cmpMap(exp.supply, act.supply, func(n *big.Int) string { return n.String() }, func(k string, e, a string) { d("supply", "supply of %s is %s, expected %s", k, a, e) })
	addrs := map[string]bool{}
	for a := range exp.bal {
		addrs[a] = true
	}
	for a := range act.bal {
		addrs[a] = true
	}
	for a := range addrs {
		cmpMap(exp.bal[a], act.bal[a], func(n *big.Int) string { return n.String() }, func(k string, e, v string) { d("bal", "balance of %s in %s is %s, expected %s", a, k, v, e) })
	}
	return
}

func cmpMap[K comparable, V any](e, a map[K]V, str func(V) string, f func(k K, e, a string)) {
	for k, v := range e {
		if x, ok := a[k]; !ok {
			f(k, str(v), "missing")
		} else if s, t := str(v), str(x); s != t {
			f(k, s, t)
		}
	}
	for k, v := range a {
		if _, ok := e[k]; !ok {
			f(k, "none", str(v))
		}
	}
}

func orderString(o types.Order) string {
	return fmt.Sprintf("%s id=%d pair=%d height=%d orderer=%s %s offer=%s rem=%s recv=%s price=%s amt=%s open=%s batch=%d expire=%s %s",
		o.Type, o.Id, o.PairId, o.MsgHeight, o.Orderer, o.Direction, o.OfferCoin, o.RemainingOfferCoin, o.ReceivedCoin, o.Price, o.Amount, o.OpenAmount,
		o.BatchId, o.ExpireAt.UTC().Format(time.RFC3339Nano), o.Status)
}

func depString(r types.DepositRequest) string {
	return fmt.Sprintf("id=%d pool=%d height=%d %s dep=%s acc=%s minted=%s %s", r.Id, r.PoolId, r.MsgHeight, r.Depositor, r.DepositCoins, r.AcceptedCoins, r.MintedPoolCoin, r.Status)
}

func wdString(r types.WithdrawRequest) string {
	return fmt.Sprintf("id=%d pool=%d height=%d %s coin=%s wd=%s %s", r.Id, r.PoolId, r.MsgHeight, r.Withdrawer, r.PoolCoin, r.WithdrawnCoins, r.Status)
}

// ---- the model: what each operation does ----

var errModel = fmt.Errorf("refused")

func (w *W) send(from, to string, coins sdk.Coins) error {
	for _, c := range coins {
		if w.spendable(from, c.Denom).Cmp(c.Amount.BigInt()) < 0 {
			return errModel
		}
	}
	for _, c := range coins {
		w.addBal(from, c.Denom, new(big.Int).Neg(c.Amount.BigInt()))
		w.addBal(to, c.Denom, c.Amount.BigInt())
	}
	return nil
}

// move is send of a single amount that the model knows to be there.
func (w *W) move(from, to, denom string, amt *big.Int) {
	w.addBal(from, denom, new(big.Int).Neg(amt))
	w.addBal(to, denom, amt)
}

type modelCtx struct {
	height int64
	now    time.Time
}

func escrowOf(pair uint64) string { return types.PairEscrowAddress(pair).String() }

var (
	globalEscrow = types.GlobalEscrowAddress.String()
	moduleAddr   = types.DeriveAddress(types.AddressType20Bytes, "", "").String() // replaced by initWorld
)

func (w *W) createPair(m *types.MsgCreatePair) error {
	for _, p := range w.pairs {
		if p.BaseCoinDenom == m.BaseCoinDenom && p.QuoteCoinDenom == m.QuoteCoinDenom {
			return errModel
		}
	}
	if err := w.send(m.Creator, w.prm.FeeCollectorAddress, w.prm.PairCreationFee); err != nil {
		return err
	}
	w.lastPair++
	w.pairs[w.lastPair] = types.Pair{Id: w.lastPair, BaseCoinDenom: m.BaseCoinDenom, QuoteCoinDenom: m.QuoteCoinDenom,
		EscrowAddress: escrowOf(w.lastPair), LastOrderId: 0, LastPrice: nil, CurrentBatchId: 1}
	return nil
}

func (w *W) activePools(pair uint64) (n uint32, basic bool) {
	for _, p := range w.pools {
		if p.PairId == pair && !p.Disabled {
			n++
			if p.Type == types.PoolTypeBasic {
				basic = true
			}
		}
	}
	return
}

func (w *W) newPool(creator string, pair types.Pair, typ types.PoolType, min, max *math.LegacyDec, x, y math.Int, ps math.Int) error {
	id := w.lastPool + 1
	reserve := types.PoolReserveAddress(id).String()
	coins := sdk.NewCoins(sdk.NewCoin(pair.QuoteCoinDenom, x), sdk.NewCoin(pair.BaseCoinDenom, y))
	if err := w.send(creator, reserve, coins); err != nil {
		return err
	}
	if err := w.send(creator, w.prm.FeeCollectorAddress, w.prm.PoolCreationFee); err != nil {
		return err
	}
	w.lastPool = id
	w.pools[id] = types.Pool{Type: typ, Id: id, PairId: pair.Id, Creator: creator, ReserveAddress: reserve,
		PoolCoinDenom: fmt.Sprintf("pool%d", id), MinPrice: min, MaxPrice: max}
	minted := maxB(ps.BigInt(), w.prm.MinInitialPoolCoinSupply.BigInt())
	w.mint(w.pools[id].PoolCoinDenom, minted)
	w.addBal(creator, w.pools[id].PoolCoinDenom, minted)
	return nil
}

func pairCoins(coins sdk.Coins, p types.Pair) bool {
	for _, c := range coins {
		if c.Denom != p.BaseCoinDenom && c.Denom != p.QuoteCoinDenom {
			return false
		}
	}
	return true
}

func (w *W) createPool(m *types.MsgCreatePool) error {
	pair, ok := w.pairs[m.PairId]
	if !ok || !pairCoins(m.DepositCoins, pair) {
		return errModel
	}
	for _, c := range m.DepositCoins {
		if c.Amount.LT(w.prm.MinInitialDepositAmount) {
			return errModel
		}
	}
	n, basic := w.activePools(pair.Id)
	if basic || n >= w.prm.MaxNumActivePoolsPerPair {
		return errModel
	}
	x, y := m.DepositCoins.AmountOf(pair.QuoteCoinDenom), m.DepositCoins.AmountOf(pair.BaseCoinDenom)
	if x.IsZero() || y.IsZero() {
		return errModel
	}
	if p := math.LegacyNewDecFromInt(x).Quo(math.LegacyNewDecFromInt(y)).BigInt(); p.Cmp(bi(1000)) < 0 || p.Cmp(pow10i(38)) > 0 {
		return errModel
	}
	return w.newPool(m.Creator, pair, types.PoolTypeBasic, nil, nil, x, y, amm.InitialPoolCoinSupply(x, y))
}

func (w *W) createRangedPool(m *types.MsgCreateRangedPool) error {
	prec := int(w.prm.TickPrecision)
	for _, p := range []math.LegacyDec{m.MinPrice, m.MaxPrice, m.InitialPrice} {
		if s := p.BigInt(); s.Cmp(pow10i(prec)) < 0 || rDown(s, prec).Cmp(s) != 0 {
			return errModel
		}
	}
	pair, ok := w.pairs[m.PairId]
	if !ok || !pairCoins(m.DepositCoins, pair) {
		return errModel
	}
	if n, _ := w.activePools(pair.Id); n >= w.prm.MaxNumActivePoolsPerPair {
		return errModel
	}
	x, y := m.DepositCoins.AmountOf(pair.QuoteCoinDenom), m.DepositCoins.AmountOf(pair.BaseCoinDenom)
	pool, err := amm.CreateRangedPool(x, y, m.MinPrice, m.MaxPrice, m.InitialPrice)
	if err != nil {
		return errModel
	}
	ax, ay := pool.Balances()
	if ax.LT(w.prm.MinInitialDepositAmount) && ay.LT(w.prm.MinInitialDepositAmount) {
		return errModel
	}
	min, max := m.MinPrice, m.MaxPrice
	return w.newPool(m.Creator, pair, types.PoolTypeRanged, &min, &max, ax, ay, amm.InitialPoolCoinSupply(ax, ay))
}

func (w *W) poolState(p types.Pool) (rx, ry, ps *big.Int, depleted bool) {
	pair := w.pairs[p.PairId]
	rx, ry, ps = w.balOf(p.ReserveAddress, pair.QuoteCoinDenom), w.balOf(p.ReserveAddress, pair.BaseCoinDenom), w.supplyOf(p.PoolCoinDenom)
	depleted = ps.Sign() == 0
	if p.Type == types.PoolTypeBasic {
		depleted = depleted || rx.Sign() == 0 || ry.Sign() == 0
	} else {
		depleted = depleted || rx.Sign() == 0 && ry.Sign() == 0
	}
	return
}

func (w *W) deposit(m *types.MsgDeposit, mc modelCtx) error {
	pool, ok := w.pools[m.PoolId]
	if !ok || pool.Disabled {
		return errModel
	}
	pair := w.pairs[pool.PairId]
	if pool.Type == types.PoolTypeBasic && len(m.DepositCoins) != 2 || !pairCoins(m.DepositCoins, pair) {
		return errModel
	}
	rx, ry, _, _ := w.poolState(pool)
	if add(rx, m.DepositCoins.AmountOf(pair.QuoteCoinDenom).BigInt()).Cmp(pow10i(40)) > 0 || add(ry, m.DepositCoins.AmountOf(pair.BaseCoinDenom).BigInt()).Cmp(pow10i(40)) > 0 {
		return errModel
	}
	if err := w.send(m.Depositor, globalEscrow, m.DepositCoins); err != nil {
		return err
	}
	pool.LastDepositRequestId++
	w.pools[pool.Id] = pool
	w.deps[key2{pool.Id, pool.LastDepositRequestId}] = types.DepositRequest{Id: pool.LastDepositRequestId, PoolId: pool.Id, MsgHeight: mc.height,
		Depositor: m.Depositor, DepositCoins: m.DepositCoins, AcceptedCoins: nil, MintedPoolCoin: sdk.NewInt64Coin(pool.PoolCoinDenom, 0), Status: types.RequestStatusNotExecuted}
	return nil
}

func (w *W) withdraw(m *types.MsgWithdraw, mc modelCtx) error {
	pool, ok := w.pools[m.PoolId]
	if !ok || pool.Disabled || m.PoolCoin.Denom != pool.PoolCoinDenom {
		return errModel
	}
	if err := w.send(m.Withdrawer, globalEscrow, sdk.NewCoins(m.PoolCoin)); err != nil {
		return err
	}
	pool.LastWithdrawRequestId++
	w.pools[pool.Id] = pool
	w.wds[key2{pool.Id, pool.LastWithdrawRequestId}] = types.WithdrawRequest{Id: pool.LastWithdrawRequestId, PoolId: pool.Id, MsgHeight: mc.height,
		Withdrawer: m.Withdrawer, PoolCoin: m.PoolCoin, WithdrawnCoins: nil, Status: types.RequestStatusNotExecuted}
	return nil
}

// priceLimits of limit orders, scaled.
func (w *W) priceLimits(last *math.LegacyDec) (lo, hi *big.Int) {
	prec := int(w.prm.TickPrecision)
	if last == nil {
		return pow10i(prec), amm.HighestTick(prec).BigInt()
	}
	r := w.prm.MaxPriceLimitRatio
	return rUp(last.Mul(math.LegacyOneDec().Sub(r)).BigInt(), prec), rDown(last.Mul(math.LegacyOneDec().Add(r)).BigInt(), prec)
}

func (w *W) placeOrder(typ types.OrderType, orderer string, pairID uint64, dir types.OrderDirection, offer sdk.Coin, demand string,
	price *math.LegacyDec, amt math.Int, lifespan time.Duration, mc modelCtx) error {
	if w.spendable(orderer, offer.Denom).Cmp(offer.Amount.BigInt()) < 0 {
		return errModel
	}
	if lifespan > w.prm.MaxOrderLifespan {
		return errModel
	}
	pair, ok := w.pairs[pairID]
	if !ok {
		return errModel
	}
	prec := int(w.prm.TickPrecision)
	var p *big.Int
	if typ == types.OrderTypeMarket {
		if pair.LastPrice == nil {
			return errModel
		}
		lo, hi := w.priceLimits(pair.LastPrice)
		if dir == types.OrderDirectionBuy {
			p = hi
		} else {
			p = lo
		}
	} else {
		lo, hi := w.priceLimits(pair.LastPrice)
		p = price.BigInt()
		if p.Cmp(lo) < 0 || p.Cmp(hi) > 0 {
			return errModel
		}
		if dir == types.OrderDirectionBuy {
			p = rDown(p, prec)
		} else {
			p = rUp(p, prec)
		}
	}
	a := amt.BigInt()
	need := a
	of, de := pair.BaseCoinDenom, pair.QuoteCoinDenom
	if dir == types.OrderDirectionBuy {
		need = quoCeil(p, a)
		of, de = de, of
	}
	if offer.Denom != of || demand != de || offer.Amount.BigInt().Cmp(need) < 0 {
		return errModel
	}
	if a.Cmp(bi(100)) < 0 || mul(p, a).Cmp(mul(bi(100), e18)) < 0 {
		return errModel
	}
	if w.spendable(orderer, of).Cmp(need) < 0 {
		return errModel
	}
	w.move(orderer, pair.EscrowAddress, of, need)
	pair.LastOrderId++
	w.pairs[pair.Id] = pair
	oc := sdk.Coin{Denom: of, Amount: toInt(need)}
	w.orders[key2{pair.Id, pair.LastOrderId}] = types.Order{Type: typ, Id: pair.LastOrderId, PairId: pair.Id, MsgHeight: mc.height, Orderer: orderer,
		Direction: dir, OfferCoin: oc, RemainingOfferCoin: oc, ReceivedCoin: sdk.NewInt64Coin(de, 0), Price: decOf(p), Amount: amt, OpenAmount: amt,
		BatchId: pair.CurrentBatchId, ExpireAt: mc.now.Add(lifespan), Status: types.OrderStatusNotExecuted}
	return nil
}

func finished(s types.OrderStatus) bool {
	return s == types.OrderStatusCompleted || s == types.OrderStatusCanceled || s == types.OrderStatusExpired
}

func (w *W) finish(o types.Order, s types.OrderStatus) {
	if finished(o.Status) {
		return
	}
	w.move(escrowOf(o.PairId), o.Orderer, o.RemainingOfferCoin.Denom, o.RemainingOfferCoin.Amount.BigInt())
	o.Status = s
	w.orders[key2{o.PairId, o.Id}] = o
	if o.Type == types.OrderTypeMM {
		k := mmKey{o.Orderer, o.PairId}
		if w.mm[k] <= 1 {
			delete(w.mm, k)
		} else {
			w.mm[k]--
		}
	}
}

func (w *W) cancel(m *types.MsgCancelOrder) error {
	o, ok := w.orders[key2{m.PairId, m.OrderId}]
	if !ok || o.Orderer != m.Orderer || o.Status == types.OrderStatusCanceled || o.BatchId == w.pairs[o.PairId].CurrentBatchId {
		return errModel
	}
	w.finish(o, types.OrderStatusCanceled)
	return nil
}

func (w *W) cancelAll(m *types.MsgCancelAllOrders) error {
	for _, id := range m.PairIds {
		if _, ok := w.pairs[id]; !ok {
			return errModel
		}
	}
	for _, k := range sortedK2(w.orders) {
		o := w.orders[k]
		in := len(m.PairIds) == 0
		for _, id := range m.PairIds {
			in = in || id == o.PairId
		}
		if in && o.Orderer == m.Orderer && o.BatchId < w.pairs[o.PairId].CurrentBatchId {
			w.finish(o, types.OrderStatusCanceled)
		}
	}
	return nil
}

// apply is the model of one message.
func (w *W) apply(msg sdk.Msg, mc modelCtx) error {
	switch m := msg.(type) {
	case *types.MsgCreatePair:
		return w.createPair(m)
	case *types.MsgCreatePool:
		return w.createPool(m)
	case *types.MsgCreateRangedPool:
		return w.createRangedPool(m)
	case *types.MsgDeposit:
		return w.deposit(m, mc)
	case *types.MsgWithdraw:
		return w.withdraw(m, mc)
	case *types.MsgLimitOrder:
		return w.placeOrder(types.OrderTypeLimit, m.Orderer, m.PairId, m.Direction, m.OfferCoin, m.DemandCoinDenom, &m.Price, m.Amount, m.OrderLifespan, mc)
	case *types.MsgMarketOrder:
		return w.placeOrder(types.OrderTypeMarket, m.Orderer, m.PairId, m.Direction, m.OfferCoin, m.DemandCoinDenom, nil, m.Amount, m.OrderLifespan, mc)
	case *types.MsgMMOrder:
		k := mmKey{m.Orderer, m.PairId}
		if w.mm[k] >= w.prm.MaxNumMarketMakingOrdersPerPair {
			return errModel
		}
		if err := w.placeOrder(types.OrderTypeMM, m.Orderer, m.PairId, m.Direction, m.OfferCoin, m.DemandCoinDenom, &m.Price, m.Amount, m.OrderLifespan, mc); err != nil {
			return err
		}
		w.mm[k]++
		return nil
	case *types.MsgCancelOrder:
		return w.cancel(m)
	case *types.MsgCancelAllOrders:
		return w.cancelAll(m)
	case *types.MsgUpdateParams:
		if m.Authority != authority || m.Params.Validate() != nil {
			return errModel
		}
		w.prm = m.Params
		return nil
	}
	panic(fmt.Sprintf("no model of %T", msg))
}

// beginBlock removes what was finished in earlier blocks.
func (w *W) beginBlock() {
	for k, r := range w.deps {
		if r.Status != types.RequestStatusNotExecuted {
			delete(w.deps, k)
		}
	}
	for k, r := range w.wds {
		if r.Status != types.RequestStatusNotExecuted {
			delete(w.wds, k)
		}
	}
	for k, o := range w.orders {
		if finished(o.Status) {
			delete(w.orders, k)
		}
	}
}

// batchInfo tells what happened in a batch of one pair.
type batchInfo struct {
	orders  []*rOrder // in the book
	keys    []key2    // of user orders; pool id in [1] and 0 in [0] of pool orders
	last    *math.LegacyDec
	price   *big.Int
	diff    *big.Int
	matched bool
	pools   int
	fills   int
}

func (w *W) matchPair(id uint64, mc modelCtx) *batchInfo {
	info := &batchInfo{diff: bi(0)}
	pair := w.pairs[id]
	prec := int(w.prm.TickPrecision)
	info.last = pair.LastPrice
	for _, k := range sortedK2(w.orders) {
		o := w.orders[k]
		if k[0] != id || finished(o.Status) {
			continue
		}
		if o.Status != types.OrderStatusNotExecuted && !o.ExpireAt.After(mc.now) {
			w.finish(o, types.OrderStatusExpired)
			continue
		}
		spec := ordSpec{buy: o.Direction == types.OrderDirectionBuy, price: o.Price.BigInt(), amt: o.OpenAmount.BigInt(),
			rem: o.RemainingOfferCoin.Amount.BigInt(), kind: 1, batch: o.BatchId, id: o.Id}
		info.orders = append(info.orders, spec.ref(len(info.orders)))
		info.keys = append(info.keys, k)
		if o.Status == types.OrderStatusNotExecuted {
			o.Status = types.OrderStatusNotMatched
			w.orders[k] = o
		}
	}
	var pools []*types.PoolOrderer
	for _, pid := range sortedU(w.pools) {
		p := w.pools[pid]
		if p.PairId != id || p.Disabled {
			continue
		}
		rx, ry, ps, depleted := w.poolState(p)
		if depleted {
			p.Disabled = true
			w.pools[pid] = p
			continue
		}
		var ap amm.Pool
		if p.Type == types.PoolTypeBasic {
			ap = amm.NewBasicPool(toInt(rx), toInt(ry), toInt(ps))
		} else {
			ap = amm.NewRangedPool(toInt(rx), toInt(ry), toInt(ps), *p.MinPrice, *p.MaxPrice)
		}
		pools = append(pools, types.NewPoolOrderer(ap, p.Id, sdk.MustAccAddressFromBech32(p.ReserveAddress), pair.BaseCoinDenom, pair.QuoteCoinDenom))
	}
	info.pools = len(pools)
	poolOrder := func(pid uint64, buy bool, price, amt *big.Int) {
		s := ordSpec{buy: buy, price: price, amt: amt, rem: amt, kind: 2, id: pid}
		if buy {
			s.rem = quoCeil(price, amt)
		}
		info.orders = append(info.orders, s.ref(len(info.orders)))
		info.keys = append(info.keys, key2{0, pid})
	}
	if pair.LastPrice == nil {
		ob := amm.NewOrderBook()
		for _, k := range info.keys {
			ob.AddOrder(types.NewUserOrder(w.orders[k]))
		}
		views := amm.MultipleOrderViews{ob.MakeView()}
		for _, p := range pools {
			views = append(views, p)
		}
		price, found := amm.FindMatchPrice(views, prec)
		if found {
			for _, p := range pools {
				if a := p.BuyAmountOver(price, true); a.IsPositive() {
					poolOrder(p.Id, true, price.BigInt(), a.BigInt())
				}
				if a := p.SellAmountUnder(price, true); a.IsPositive() {
					poolOrder(p.Id, false, price.BigInt(), a.BigInt())
				}
			}
			info.diff, info.matched = newRBook(info.orders).single(price.BigInt())
			info.price = price.BigInt()
		}
	} else {
		lo, hi := w.priceLimits(pair.LastPrice)
		for _, p := range pools {
			for _, o := range amm.PoolOrders(p, p, decOf(lo), decOf(hi), prec) {
				poolOrder(p.Id, o.GetDirection() == amm.Buy, o.GetPrice().BigInt(), o.GetAmount().BigInt())
			}
		}
		info.price, info.diff, info.matched = newRBook(info.orders).match(pair.LastPrice.BigInt())
	}
	if info.matched {
		for i, o := range info.orders {
			if o.open.Cmp(o.amt) == 0 {
				continue
			}
			info.fills++
			of, de := pair.BaseCoinDenom, pair.QuoteCoinDenom
			if o.buy {
				of, de = de, of
			}
			if o.kind == 2 {
				reserve := w.pools[o.id].ReserveAddress
				w.move(reserve, pair.EscrowAddress, of, o.paid)
				w.move(pair.EscrowAddress, reserve, de, o.recv)
				continue
			}
			u := w.orders[info.keys[i]]
			u.OpenAmount = u.OpenAmount.Sub(toInt(sub(o.amt, o.open)))
			u.RemainingOfferCoin.Amount = u.RemainingOfferCoin.Amount.Sub(toInt(o.paid))
			u.ReceivedCoin.Amount = u.ReceivedCoin.Amount.Add(toInt(o.recv))
			u.Status = types.OrderStatusPartiallyMatched
			w.orders[info.keys[i]] = u
			w.move(pair.EscrowAddress, u.Orderer, de, o.recv)
			if u.OpenAmount.IsZero() {
				w.finish(u, types.OrderStatusCompleted)
			}
		}
		w.move(pair.EscrowAddress, w.prm.DustCollectorAddress, pair.QuoteCoinDenom, info.diff)
		p := decOf(info.price)
		pair.LastPrice = &p
	}
	pair.CurrentBatchId++
	w.pairs[id] = pair
	return info
}

func (w *W) execDeposit(k key2) {
	r := w.deps[k]
	pool := w.pools[r.PoolId]
	fail := func() {
		must(w.send(globalEscrow, r.Depositor, r.DepositCoins))
		r.Status = types.RequestStatusFailed
		w.deps[k] = r
	}
	if pool.Disabled {
		fail()
		return
	}
	pair := w.pairs[pool.PairId]
	rx, ry, ps, depleted := w.poolState(pool)
	if depleted {
		pool.Disabled = true
		w.pools[pool.Id] = pool
		fail()
		return
	}
	ax, ay, pc := amm.Deposit(toInt(rx), toInt(ry), toInt(ps), r.DepositCoins.AmountOf(pair.QuoteCoinDenom), r.DepositCoins.AmountOf(pair.BaseCoinDenom))
	if pc.IsZero() {
		fail()
		return
	}
	acc := sdk.NewCoins(sdk.NewCoin(pair.QuoteCoinDenom, ax), sdk.NewCoin(pair.BaseCoinDenom, ay))
	must(w.send(globalEscrow, pool.ReserveAddress, acc))
	w.mint(pool.PoolCoinDenom, pc.BigInt())
	w.addBal(r.Depositor, pool.PoolCoinDenom, pc.BigInt())
	must(w.send(globalEscrow, r.Depositor, r.DepositCoins.Sub(acc...)))
	r.AcceptedCoins, r.MintedPoolCoin.Amount, r.Status = acc, pc, types.RequestStatusSucceeded
	w.deps[k] = r
}

func (w *W) execWithdraw(k key2) {
	r := w.wds[k]
	pool := w.pools[r.PoolId]
	fail := func() {
		w.move(globalEscrow, r.Withdrawer, r.PoolCoin.Denom, r.PoolCoin.Amount.BigInt())
		r.Status = types.RequestStatusFailed
		w.wds[k] = r
	}
	if pool.Disabled {
		fail()
		return
	}
	pair := w.pairs[pool.PairId]
	rx, ry, ps, depleted := w.poolState(pool)
	if depleted {
		pool.Disabled = true
		w.pools[pool.Id] = pool
		fail()
		return
	}
	x, y := amm.Withdraw(toInt(rx), toInt(ry), toInt(ps), r.PoolCoin.Amount, w.prm.WithdrawFeeRate)
	if x.IsZero() && y.IsZero() {
		fail()
		return
	}
	coins := sdk.NewCoins(sdk.NewCoin(pair.QuoteCoinDenom, x), sdk.NewCoin(pair.BaseCoinDenom, y))
	w.addBal(globalEscrow, r.PoolCoin.Denom, new(big.Int).Neg(r.PoolCoin.Amount.BigInt()))
	w.mint(r.PoolCoin.Denom, new(big.Int).Neg(r.PoolCoin.Amount.BigInt()))
	must(w.send(pool.ReserveAddress, r.Withdrawer, coins))
	if r.PoolCoin.Amount.BigInt().Cmp(ps) == 0 {
		pool.Disabled = true
		w.pools[pool.Id] = pool
	}
	r.WithdrawnCoins, r.Status = coins, types.RequestStatusSucceeded
	w.wds[k] = r
}

func tooSmall(amt math.Int, price math.LegacyDec) bool {
	return amt.LT(math.NewInt(100)) || mul(price.BigInt(), amt.BigInt()).Cmp(mul(bi(100), e18)) < 0
}

// endBlock executes the batch when the block ends one.
func (w *W) endBlock(mc modelCtx) map[uint64]*batchInfo {
	if mc.height%int64(w.prm.BatchSize) != 0 {
		return nil
	}
	infos := map[uint64]*batchInfo{}
	for _, id := range sortedU(w.pairs) {
		infos[id] = w.matchPair(id, mc)
	}
	for _, k := range sortedK2(w.orders) {
		o := w.orders[k]
		if !finished(o.Status) && (!o.ExpireAt.After(mc.now) || tooSmall(o.OpenAmount, o.Price)) {
			w.finish(o, types.OrderStatusExpired)
		}
	}
	for _, k := range sortedK2(w.deps) {
		if w.deps[k].Status == types.RequestStatusNotExecuted {
			w.execDeposit(k)
		}
	}
	for _, k := range sortedK2(w.wds) {
		if w.wds[k].Status == types.RequestStatusNotExecuted {
			w.execWithdraw(k)
		}
	}
	return infos
}

// ---- running histories ----

var (
	baseOnce sync.Once
	baseApp  *chain.App
	baseCtx  sdk.Context
)

// world runs operations on a branch of the chain's state.
type world struct {
	rt         *rapid.T
	c          *Case
	cfg        worldCfg
	app        *chain.App
	ctx        sdk.Context
	now        time.Time
	height     int64
	cur        *W
	lastEvents []sdk.Event
	users      []string
	denoms     []string
	center     map[uint64]*big.Int // price level of a pair
	expo       map[uint64]int
	obs        []func(s *step)
	steps      int
	locked     map[string]*big.Int
	setup      func(app *chain.App, ctx sdk.Context)
	before     func(msg sdk.Msg) // told of every message before it is run, nil for the end of a block
	sent       func(s *step)     // told of every message
	ended      func(s *step)     // told of the end of every block
	ending     func()            // told when a block is going to end
}

// step is one executed operation.
type step struct {
	kind      string // msg, send, begin, end
	msg       sdk.Msg
	accepted  bool
	err       error
	panicked  interface{}
	pre, post *W
	exp       *W // the model's state afterwards
	expOK     bool
	basic     bool // ValidateBasic accepts the message
	diffs     []diffEntry
	events    []sdk.Event
	ctx       sdk.Context
	infos     map[uint64]*batchInfo
	mc        modelCtx
	gas       uint64
}

func (s *step) diffText(cats ...string) string {
	var out []string
	for _, d := range s.diffs {
		if len(cats) == 0 {
			out = append(out, d.text)
			continue
		}
		for _, c := range cats {
			if d.cat == c {
				out = append(out, d.text)
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

type worldCfg struct {
	ops       int            // maximal number of operations
	weights   map[string]int // overrides of the operation weights
	magnitude int            // price exponents between -magnitude and magnitude
	digits    int            // digits of amounts
	anyTicks  bool           // parameter changes include the tick precision
	rich      int            // digits of the users' balances
	twoPairs  bool           // always a second pair
	expos     []int64        // price exponents, instead of magnitude
	edgy      bool           // some amounts just below the largest one
	gifts     int            // digits of transfers, if not digits
	noPoor    bool           // leave the user with few coins out
	params    func(rt *rapid.T) types.Params
	addr      func(i int) sdk.AccAddress // of the users
	chain     func(w *world, prm types.Params, lock int64) (*chain.App, sdk.Context)
	deleg     bool   // messages are carried out in other ways, too
	ibc       bool   // coins are sent over IBC
	extra     func() // another operation
}

func initBase() {
	baseOnce.Do(func() {
		tb := &testing.T{}
		baseApp, baseCtx = testutil.TestApp(tb)
		baseCtx = baseCtx.WithEventManager(sdk.NewEventManager())
		must(baseApp.BankKeeper.SetParams(baseCtx, banktypes.DefaultParams()))
		moduleAddr = baseApp.AccountKeeper.GetModuleAddress(types.ModuleName).String()
	})
}

func branch() (*chain.App, sdk.Context) {
	initBase()
	ctx, _ := baseCtx.CacheContext()
	return baseApp, ctx
}

func fund(app *chain.App, ctx sdk.Context, addr sdk.AccAddress, coins sdk.Coins) {
	if coins.IsZero() {
		return
	}
	must(app.BankKeeper.MintCoins(ctx, minttypes.ModuleName, coins))
	must(app.BankKeeper.SendCoinsFromModuleToAccount(ctx, minttypes.ModuleName, addr, coins))
}

func drawParams(rt *rapid.T) types.Params {
	p := types.DefaultParams()
	dec := math.LegacyMustNewDecFromStr
	p.TickPrecision = pick(rt, []uint32{3, 3, 3, 2, 2, 4}, "tickPrec")
	p.BatchSize = pick(rt, []uint32{1, 1, 1, 2, 3}, "batchSize")
	p.MaxPriceLimitRatio = dec(pick(rt, []string{"0.1", "0.05", "0.2", "0.013", "0.03"}, "ratio"))
	if p.TickPrecision == 4 && p.MaxPriceLimitRatio.GT(dec("0.05")) {
		p.MaxPriceLimitRatio = dec("0.05") // quoting pools takes long
	}
	p.WithdrawFeeRate = dec(pick(rt, []string{"0", "0", "0.003", "0.5", "1", "0.000000000000000001"}, "withdrawFee"))
	p.MaxNumMarketMakingOrdersPerPair = pick(rt, []uint32{2, 1, 3, 15}, "maxMM")
	p.MaxNumActivePoolsPerPair = pick(rt, []uint32{20, 2, 3}, "maxPools")
	p.MinInitialDepositAmount = math.NewInt(pick(rt, []int64{1000, 1000000, 0, 100}, "minDeposit"))
	p.MinInitialPoolCoinSupply = math.NewInt(pick(rt, []int64{1000000000000, 1, 1000000}, "minSupply"))
	p.PairCreationFee = pick(rt, []sdk.Coins{sdk.NewCoins(sdk.NewInt64Coin("stake", 1000000)), nil, sdk.NewCoins(sdk.NewInt64Coin("aaa", 3), sdk.NewInt64Coin("stake", 5))}, "pairFee")
	p.PoolCreationFee = pick(rt, []sdk.Coins{sdk.NewCoins(sdk.NewInt64Coin("stake", 1000000)), nil, sdk.NewCoins(sdk.NewInt64Coin("bbb", 7), sdk.NewInt64Coin("stake", 11))}, "poolFee")
	p.MaxOrderLifespan = pick(rt, []time.Duration{24 * time.Hour, 24 * time.Hour, time.Hour, time.Minute}, "maxLifespan")
	p.FeeCollectorAddress = pick(rt, []string{p.FeeCollectorAddress, p.FeeCollectorAddress, p.DustCollectorAddress, addrN(901).String()}, "fee collector")
	p.DustCollectorAddress = pick(rt, []string{p.DustCollectorAddress, p.DustCollectorAddress, types.DefaultFeeCollectorAddress.String(), addrN(902).String()}, "dust collector")
	return p
}

func newWorld(rt *rapid.T, c *Case, cfg worldCfg, obs ...func(*step)) *world {
	w := &world{rt: rt, c: c, cfg: cfg, obs: obs, center: map[uint64]*big.Int{}, expo: map[uint64]int{}}
	if w.cfg.addr == nil {
		w.cfg.addr = func(i int) sdk.AccAddress { return addrN(uint64(i)) }
	}
	if w.cfg.magnitude == 0 {
		w.cfg.magnitude = 6
	}
	if w.cfg.digits == 0 {
		w.cfg.digits = 12
	}
	if w.cfg.rich == 0 {
		w.cfg.rich = 24
	}
	w.now = time.Date(2022, 1, 1, 0, 0, 0, 0, time.UTC)
	w.height = 1
	if w.cfg.params == nil {
		w.cfg.params = drawParams
	}
	prm := w.cfg.params(rt)
	w.c.Logf("params batch=%d prec=%d ratio=%s withdrawFee=%s maxMM=%d maxPools=%d minDeposit=%s minSupply=%s pairFee=%s poolFee=%s maxLifespan=%s", prm.BatchSize, prm.TickPrecision,
		prm.MaxPriceLimitRatio, prm.WithdrawFeeRate, prm.MaxNumMarketMakingOrdersPerPair, prm.MaxNumActivePoolsPerPair, prm.MinInitialDepositAmount, prm.MinInitialPoolCoinSupply, prm.PairCreationFee, prm.PoolCreationFee, prm.MaxOrderLifespan)
	w.denoms = []string{"aaa", "bbb", "ccc"}
	lock := int64(-1)
	if pick(rt, []bool{true, false}, "vesting") {
		lock = uni(rt, 1, 49_999, "locked")
		w.locked = map[string]*big.Int{w.cfg.addr(4).String(): bi(lock)}
		w.c.Logf("u4 has %d locked", lock)
	}
	for i := 1; i <= 4; i++ {
		w.users = append(w.users, w.cfg.addr(i).String())
	}
	if w.cfg.chain != nil {
		w.app, w.ctx = w.cfg.chain(w, prm, lock)
		w.ctx = w.header()
		w.cur = w.snap()
		return w
	}
	w.app, w.ctx = branch()
	w.setup = func(app *chain.App, ctx sdk.Context) {
		genState := types.DefaultGenesis()
		genState.Params = prm
		app.DexKeeper.InitGenesis(ctx, *genState)
		for i := uint64(1); i <= 4; i++ {
			addr := addrN(i)
			amt := toInt(pow10i(w.cfg.rich))
			if i == 4 { // a poor user
				amt = math.NewInt(50_000)
			}
			var coins sdk.Coins
			for _, d := range append(w.denoms, "stake") {
				coins = coins.Add(sdk.NewCoin(d, amt))
			}
			if i == 4 && lock >= 0 {
				var lc sdk.Coins
				for _, d := range w.denoms {
					lc = lc.Add(sdk.NewInt64Coin(d, lock))
				}
				acc := app.AccountKeeper.NewAccountWithAddress(ctx, addr).(*authtypes.BaseAccount)
				va, err := vestingtypes.NewDelayedVestingAccount(acc, lc, 4102444800)
				must(err)
				app.AccountKeeper.SetAccount(ctx, va)
			}
			fund(app, ctx, addr, coins)
		}
	}
	w.setup(w.app, w.ctx)
	w.ctx = w.header()
	w.cur = w.snap()
	return w
}

func (w *world) snap() *W {
	x := snapshot(w.app, w.ctx)
	x.locked = w.locked
	return x
}

func (w *world) header() sdk.Context {
	h := w.ctx.BlockHeader()
	h.Height, h.Time = w.height, w.now
	return w.ctx.WithBlockHeader(h).WithBlockHeight(w.height).WithBlockTime(w.now)
}

func (w *world) mc() modelCtx { return modelCtx{w.height, w.now} }

func (w *world) observe(s *step) {
	s.ctx = w.ctx
	w.lastEvents = s.events
	w.steps++
	if s.post == nil {
		s.post = w.snap()
	}
	s.diffs = diffW(s.exp, s.post)
	w.cur = s.post
	for _, o := range w.obs {
		o(s)
	}
}

// deliver runs a message the way a transaction would.
func deliver(app *chain.App, ctx sdk.Context, msg sdk.Msg) (err error, panicked interface{}, events []sdk.Event, gas uint64) {
	cc, write := ctx.CacheContext()
	em := sdk.NewEventManager()
	cc = cc.WithEventManager(em)
	before := cc.GasMeter().GasConsumed()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("VERIF_STACK") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
				}
				panicked = r
				err = fmt.Errorf("panic: %v", r)
			}
		}()
		if v, ok := msg.(interface{ ValidateBasic() error }); ok {
			if err = v.ValidateBasic(); err != nil {
				return
			}
		}
		h := app.MsgServiceRouter().Handler(msg)
		if h == nil {
			err = fmt.Errorf("no handler for %T", msg)
			return
		}
		var res *sdk.Result
		res, err = h(cc, msg)
		if err == nil {
			for _, e := range res.Events {
				events = append(events, sdk.Event(e))
			}
		}
	}()
	gas = cc.GasMeter().GasConsumed() - before
	if err == nil {
		write()
	}
	return
}

func (w *world) run(msg sdk.Msg) *step {
	if w.before != nil {
		w.before(msg)
	}
	s := &step{kind: "msg", msg: msg, pre: w.cur, mc: w.mc()}
	s.exp = w.cur.clone()
	// C33 decides what ValidateBasic has to accept
	s.basic = true
	if v, ok := msg.(interface{ ValidateBasic() error }); ok {
		s.basic = v.ValidateBasic() == nil
	}
	if s.basic {
		if e := tryCall(func() { s.expOK = s.exp.apply(msg, s.mc) == nil }); e != nil {
			w.c.Logf("  model: %v", e)
			s.expOK = false
		}
	}
	if !s.expOK {
		s.exp = w.cur.clone()
	}
	s.err, s.panicked, s.events, s.gas = deliver(w.app, w.ctx, msg)
	s.accepted = s.err == nil
	if w.sent != nil {
		w.sent(s)
	}
	if s.err != nil {
		w.c.Logf("  %s -> %v", msgString(msg), s.err)
		w.c.Label("refused " + shortName(msg))
	} else {
		w.c.Logf("  %s", msgString(msg))
		w.c.Label("accepted " + shortName(msg))
	}
	w.observe(s)
	return s
}

func shortName(msg sdk.Msg) string {
	return strings.TrimPrefix(fmt.Sprintf("%T", msg), "*types.Msg")
}

var nameOf = map[string]string{}

func userName(a string) string {
	if n, ok := nameOf[a]; ok {
		return n
	}
	acc, err := sdk.AccAddressFromBech32(a)
	if err == nil && len(acc) == 20 && acc[0] == 7 {
		return fmt.Sprintf("u%d", binary.BigEndian.Uint64(acc[12:]))
	}
	return a
}

func msgString(msg sdk.Msg) string {
	s := fmt.Sprint(msg)
	for i := uint64(1); i < 8; i++ {
		s = strings.ReplaceAll(s, addrN(i).String(), fmt.Sprintf("u%d", i))
	}
	for a, n := range nameOf {
		s = strings.ReplaceAll(s, a, n)
	}
	return shortName(msg) + " " + s
}

// bankSend is a plain transfer.
func (w *world) bankSend(from, to string, coin sdk.Coin) {
	s := &step{kind: "send", pre: w.cur, mc: w.mc(), exp: w.cur.clone()}
	s.expOK = to != moduleAddr && s.exp.send(from, to, sdk.NewCoins(coin)) == nil
	if !s.expOK {
		s.exp = w.cur.clone()
	}
	msg := &banktypes.MsgSend{FromAddress: from, ToAddress: to, Amount: sdk.NewCoins(coin)}
	s.msg = msg
	s.err, s.panicked, s.events, s.gas = deliver(w.app, w.ctx, msg)
	s.accepted = s.err == nil
	if w.sent != nil {
		w.sent(s)
	}
	w.c.Logf("  send %s from %s to %s: %v", coin, userName(from), to, s.err)
	w.c.Label("transfer")
	w.observe(s)
}

// endBlock ends the block and begins the next one after dt.
func (w *world) nextBlock(dt time.Duration) {
	if w.before != nil {
		w.before(nil)
	}
	if w.ending != nil {
		w.ending()
	}
	s := &step{kind: "end", pre: w.cur, mc: w.mc(), exp: w.cur.clone()}
	s.panicked = tryCall(func() { s.infos = s.exp.endBlock(s.mc) })
	if s.panicked != nil {
		w.c.Logf("  model: %v", s.panicked)
		s.exp = w.cur.clone()
	}
	em := sdk.NewEventManager()
	s.panicked = tryCall(func() { dex.EndBlocker(w.ctx.WithEventManager(em), w.app.DexKeeper) })
	s.events = em.Events()
	s.accepted = s.panicked == nil
	s.expOK = true
	w.c.Logf("end block %d at %s", w.height, w.now.Format("15:04:05"))
	if s.panicked != nil {
		w.c.Logf("  panic: %v", s.panicked)
	}
	for _, i := range s.infos {
		if i.matched {
			w.c.Label("matched")
			if i.last == nil {
				w.c.Label("first price")
			} else {
				w.c.Label("matched again")
			}
			if i.pools > 0 {
				w.c.Label("matched with pools")
			}
		}
	}
	w.observe(s)
	if w.ended != nil {
		w.ended(s)
	}
	w.height++
	w.now = w.now.Add(dt)
	w.ctx = w.header()
	b := &step{kind: "begin", pre: w.cur, mc: w.mc(), exp: w.cur.clone(), expOK: true, accepted: true}
	b.exp.beginBlock()
	em = sdk.NewEventManager()
	b.panicked = tryCall(func() { dex.BeginBlocker(w.ctx.WithEventManager(em), w.app.DexKeeper) })
	b.events = em.Events()
	w.observe(b)
}

// ---- generated operations ----

func (w *world) user(label string) string {
	if w.cfg.noPoor {
		return w.users[pick(w.rt, []int{0, 1, 2}, label)]
	}
	return w.users[pick(w.rt, []int{0, 0, 0, 1, 1, 1, 2, 2, 2, 3}, label)]
}

func (w *world) anyPair(label string) (types.Pair, bool) {
	ids := sortedU(w.cur.pairs)
	if len(ids) == 0 {
		return types.Pair{}, false
	}
	return w.cur.pairs[pick(w.rt, ids, label)], true
}

func (w *world) centerOf(p types.Pair) *big.Int {
	if p.LastPrice != nil {
		return p.LastPrice.BigInt()
	}
	if x := w.center[p.Id]; x != nil {
		return x
	}
	prec := int(w.cur.prm.TickPrecision)
	e := int(uni(w.rt, int64(-w.cfg.magnitude), int64(w.cfg.magnitude), "priceExp"))
	if len(w.cfg.expos) > 0 {
		e = int(pick(w.rt, w.cfg.expos, "expo"))
	}
	if prec > 18+e {
		e = prec - 18
	}
	m := uni(w.rt, 0, 9*pow10i(prec).Int64()-1, "priceMant")
	x := rTick(int64(e+18-prec)*9*pow10i(prec).Int64()+m, prec)
	w.center[p.Id] = x
	return x
}

// drawPrice draws a price around the level of the pair.
func (w *world) drawPrice(p types.Pair) math.LegacyDec {
	prec := int(w.cur.prm.TickPrecision)
	lo, hi := w.cur.priceLimits(p.LastPrice)
	ctr := w.centerOf(p)
	switch int(uni(w.rt, int64(0), int64(9), "priceKind")) {
	case 9: // at or beyond a limit
		x := hi
		if rapid.Bool().Draw(w.rt, "low") {
			x = lo
		}
		if p.LastPrice == nil {
			x = ctr
		}
		return decOf(maxB(bi(1), add(x, bi(uni(w.rt, -1, 1, "beyond")))))
	case 8: // between ticks
		x := fdiv(mul(ctr, bi(uni(w.rt, 900_001, 1_099_999, "ppm"))), bi(1_000_000))
		return decOf(maxB(x, bi(1)))
	case 0, 1, 2, 3: // tight
		i := rIndex(maxB(ctr, pow10i(prec)), prec) + uni(w.rt, -3, 3, "ticks")
		return decOf(rTick(max64(i, 0), prec))
	default:
		i := rIndex(maxB(ctr, pow10i(prec)), prec)
		n := max64(pow10i(prec).Int64()/25, 2)
		return decOf(rTick(max64(i+uni(w.rt, -n, n, "ticks"), 0), prec))
	}
}

func (w *world) drawAmount(price *big.Int) *big.Int {
	unit := maxB(bi(1), cdiv(mul(bi(100), e18), maxB(price, bi(1)))) // worth 100 quote coins
	unit = maxB(unit, bi(100))
	if most := fdiv(mul(pow10i(40), e18), maxB(price, bi(1))); w.cfg.edgy && most.Cmp(bi(200_000)) < 0 && rare(w.rt, 2, "affordable") {
		return drawBig(w.rt, bi(100), maxB(bi(101), most), "amt")
	}
	if w.cfg.edgy && rare(w.rt, 3, "edgy") {
		if rare(w.rt, 2, "worth") { // worth about the largest number
			x := fdiv(new(big.Int).Lsh(bi(1), 315), maxB(price, bi(1)))
			return minB(pow10i(40), fdiv(mul(x, bi(uni(w.rt, 900, 1000, "permille"))), bi(1000)))
		}
		return fdiv(pow10i(40), bi(pick(w.rt, []int64{1, 1, 2, 3, 10, 1000}, "below")))
	}
	switch int(uni(w.rt, int64(0), int64(7), "amtKind")) {
	case 6:
		return add(unit, bi(uni(w.rt, -1, 1, "edge")))
	case 1:
		return maxB(unit, bi(uni(w.rt, 90, 1000, "amt")))
	case 2:
		return maxB(unit, drawLog(w.rt, w.cfg.digits, "amt"))
	case 7:
		return drawLog(w.rt, w.cfg.digits, "amt")
	case 3: // alike amounts
		return mul(unit, bi(pick(w.rt, []int64{2, 10, 10, 1000}, "mult")))
	default:
		return add(mul(unit, bi(uni(w.rt, 1, 2000, "mult"))), bi(uni(w.rt, 0, 99, "extra")))
	}
}

func (w *world) drawLifespan() time.Duration {
	return pick(w.rt, []time.Duration{time.Hour, 0, time.Second, 5 * time.Second, 10 * time.Second, 10*time.Second + 1, time.Minute, time.Minute, time.Hour, time.Hour, time.Hour + 1, 24 * time.Hour, 24*time.Hour + 1}, "lifespan")
}

func (w *world) pairID(p types.Pair) uint64 {
	if rare(w.rt, 30, "wrongPair") {
		return w.cur.lastPair + 1
	}
	return p.Id
}

func (w *world) orderParts(p types.Pair, market bool) (dir types.OrderDirection, offer sdk.Coin, demand string, price math.LegacyDec, amt math.Int) {
	dir = types.OrderDirectionSell
	buy := rapid.Bool().Draw(w.rt, "buy")
	of, de := p.BaseCoinDenom, p.QuoteCoinDenom
	if buy {
		dir = types.OrderDirectionBuy
		of, de = de, of
	}
	price = w.drawPrice(p)
	if market {
		lo, hi := w.cur.priceLimits(p.LastPrice)
		price = decOf(lo)
		if buy {
			price = decOf(hi)
		}
		if p.LastPrice == nil {
			price = decOf(w.centerOf(p))
		}
	}
	a := maxB(bi(1), w.drawAmount(price.BigInt()))
	need := a
	if buy {
		need = quoCeil(price.BigInt(), a)
	}
	need = add(need, bi(pick(w.rt, []int64{0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 100, -1}, "offerDelta")))
	if rare(w.rt, 40, "wrongDenom") {
		switch int(uni(w.rt, int64(0), int64(2), "whichDenom")) {
		case 0:
			of, de = de, of
		case 1:
			of = pick(w.rt, w.denoms, "denom")
		default:
			de = pick(w.rt, w.denoms, "denom")
		}
	}
	return dir, sdk.Coin{Denom: of, Amount: toInt(minB(maxB(need, bi(0)), pow10i(60)))}, de, price, toInt(minB(a, pow10i(60)))
}

func (w *world) coinsOf(p types.Pair, x, y *big.Int) sdk.Coins {
	var cs sdk.Coins
	if x.Sign() > 0 {
		cs = cs.Add(sdk.NewCoin(p.QuoteCoinDenom, toInt(minB(x, pow10i(60)))))
	}
	if y.Sign() > 0 {
		cs = cs.Add(sdk.NewCoin(p.BaseCoinDenom, toInt(minB(y, pow10i(60)))))
	}
	return cs
}

var opWeights = map[string]int{"pair": 2, "pool": 3, "ranged": 4, "deposit": 5, "withdraw": 5, "limit": 30, "market": 6, "mm": 8,
	"cancel": 5, "cancelAll": 2, "send": 2, "block": 16}

var opNames = []string{"block", "limit", "mm", "market", "cancel", "cancelAll", "deposit", "withdraw", "pool", "ranged", "pair", "send", "batchSize", "params", "extra"}

var authority = authtypes.NewModuleAddress(govtypes.ModuleName).String()

func (w *world) drawOp() string {
	total := 0
	wt := func(n string) int {
		if x, ok := w.cfg.weights[n]; ok {
			return x
		}
		return opWeights[n]
	}
	for _, n := range opNames {
		total += wt(n)
	}
	x := int(uni(w.rt, int64(0), int64(total-1), "op"))
	for _, n := range opNames {
		if x -= wt(n); x < 0 {
			return n
		}
	}
	return "block"
}

func (w *world) drawDt() time.Duration {
	return pick(w.rt, []time.Duration{5 * time.Second, 5 * time.Second, time.Second, 10 * time.Second, 0, time.Minute, time.Hour, 24 * time.Hour, 4999999999}, "dt")
}

func (w *world) doCreatePair() {
	b := pick(w.rt, w.denoms, "base")
	q := pick(w.rt, append([]string{"stake"}, w.denoms...), "quote")
	if rare(w.rt, 25, "poolCoinPair") && w.cur.lastPool > 0 {
		b = fmt.Sprintf("pool%d", w.cur.lastPool)
	}
	if b == q {
		return
	}
	w.run(types.NewMsgCreatePair(sdk.MustAccAddressFromBech32(w.user("creator")), b, q))
}

func (w *world) poolAmounts(price *big.Int) (x, y *big.Int) {
	// y such that x = price*y, both of the drawn magnitude at least
	small := maxB(drawLog(w.rt, w.cfg.digits, "poolSize"), w.cur.prm.MinInitialDepositAmount.BigInt())
	if rare(w.rt, 5, "poolEdge") {
		small = maxB(bi(1), add(w.cur.prm.MinInitialDepositAmount.BigInt(), bi(uni(w.rt, -1, 1, "edge"))))
	}
	if price.Cmp(e18) < 0 {
		x = small
		y = fdiv(mul(x, e18), price)
	} else {
		y = small
		x = quoFloor(price, y)
	}
	return
}

func (w *world) doCreatePool() {
	p, ok := w.anyPair("pair")
	if !ok {
		return
	}
	x, y := w.poolAmounts(w.drawPrice(p).BigInt())
	coins := w.coinsOf(p, x, y)
	if len(coins) != 2 {
		return
	}
	if rare(w.rt, 20, "wrongDenom") {
		coins = sdk.NewCoins(coins[0], sdk.NewInt64Coin(otherDenom(coins[0].Denom), 5000000))
	}
	w.run(types.NewMsgCreatePool(sdk.MustAccAddressFromBech32(w.user("creator")), w.pairID(p), coins))
}

func (w *world) doCreateRanged() {
	p, ok := w.anyPair("pair")
	if !ok {
		return
	}
	prec := int(w.cur.prm.TickPrecision)
	at := func(x *big.Int) int64 { return rIndex(maxB(x, pow10i(prec)), prec) }
	i := at(w.drawPrice(p).BigInt())
	wide := pick(w.rt, []int64{max64(pow10i(prec).Int64()/100, 2), max64(pow10i(prec).Int64()/10, 2), 3 * pow10i(prec).Int64()}, "wide")
	lo, hi := max64(0, i-uni(w.rt, 0, wide, "below")), i+uni(w.rt, 0, wide, "above")
	if !rare(w.rt, 12, "narrow") { // at least the smallest gap
		for mul(sub(rTick(hi, prec), rTick(lo, prec)), bi(1000)).Cmp(rTick(lo, prec)) < 0 {
			hi += max64(pow10i(prec).Int64()/1000, 1)
		}
	}
	min, max, init := decOf(rTick(lo, prec)), decOf(rTick(hi, prec)), decOf(rTick(i, prec))
	if rare(w.rt, 30, "offTick") {
		switch int(uni(w.rt, int64(0), int64(2), "which")) {
		case 0:
			min = decOf(add(min.BigInt(), bi(1)))
		case 1:
			max = decOf(add(max.BigInt(), bi(1)))
		default:
			init = decOf(add(init.BigInt(), bi(1)))
		}
	}
	x, y := w.poolAmounts(init.BigInt())
	switch int(uni(w.rt, int64(0), int64(11), "sided")) {
	case 10:
		x = bi(0)
	case 11:
		y = bi(0)
	}
	coins := w.coinsOf(p, x, y)
	if len(coins) == 0 {
		return
	}
	w.run(types.NewMsgCreateRangedPool(sdk.MustAccAddressFromBech32(w.user("creator")), w.pairID(p), coins, min, max, init))
}

func (w *world) anyPool(label string) (types.Pool, bool) {
	ids := sortedU(w.cur.pools)
	if len(ids) == 0 {
		return types.Pool{}, false
	}
	return w.cur.pools[pick(w.rt, ids, label)], true
}

func (w *world) doDeposit() {
	pool, ok := w.anyPool("pool")
	if !ok {
		return
	}
	pair := w.cur.pairs[pool.PairId]
	rx, ry, _, _ := w.cur.poolState(pool)
	num := pick(w.rt, []int64{1, 1, 7, 100, 1000, 12345, 1000000, 5000000}, "share")
	part := func(r *big.Int) *big.Int {
		return add(fdiv(mul(r, bi(num)), bi(1_000_000)), bi(uni(w.rt, 0, 3, "extra")))
	}
	x, y := part(rx), part(ry)
	switch int(uni(w.rt, int64(0), int64(11), "sided")) {
	case 10:
		x = bi(0)
	case 11:
		y = bi(0)
	case 9:
		x = mul(x, bi(3))
	}
	if w.cfg.rich > 40 && rare(w.rt, 12, "limit") { // around the largest reserve
		edge := uni(w.rt, -1, 2, "edge")
		if rare(w.rt, 2, "quote") {
			x = add(sub(pow10i(40), rx), bi(edge))
		} else {
			y = add(sub(pow10i(40), ry), bi(edge))
		}
	}
	coins := w.coinsOf(pair, x, y)
	if len(coins) == 0 {
		return
	}
	if rare(w.rt, 30, "wrongDenom") {
		coins = sdk.NewCoins(coins[0], sdk.NewInt64Coin(otherDenom(coins[0].Denom), 500))
	}
	id := pool.Id
	if rare(w.rt, 30, "wrongPool") {
		id = w.cur.lastPool + 1
	}
	w.run(types.NewMsgDeposit(sdk.MustAccAddressFromBech32(w.user("depositor")), id, coins))
}

func (w *world) doWithdraw() {
	pool, ok := w.anyPool("pool")
	if !ok {
		return
	}
	// prefer a holder
	var holders []string
	for _, u := range w.users {
		if w.cur.balOf(u, pool.PoolCoinDenom).Sign() > 0 {
			holders = append(holders, u)
		}
	}
	u := w.user("withdrawer")
	if len(holders) > 0 && int(uni(w.rt, int64(0), int64(9), "holder")) > 0 {
		u = pick(w.rt, holders, "who")
	}
	has := w.cur.balOf(u, pool.PoolCoinDenom)
	var amt *big.Int
	switch int(uni(w.rt, int64(0), int64(5), "part")) {
	case 0:
		amt = has
	case 1:
		amt = sub(has, bi(uni(w.rt, 1, 3, "less")))
	case 2:
		amt = bi(uni(w.rt, 1, 1000, "few"))
	case 3:
		amt = add(has, bi(1))
	default:
		amt = fdiv(mul(has, bi(uni(w.rt, 1, 1000, "permille"))), bi(1000))
	}
	if amt.Sign() <= 0 {
		amt = bi(1)
	}
	denom := pool.PoolCoinDenom
	if rare(w.rt, 30, "wrongDenom") {
		denom = pick(w.rt, []string{"stake", "aaa", "pool1", "pool2"}, "denom")
	}
	id := pool.Id
	if rare(w.rt, 30, "wrongPool") {
		id = w.cur.lastPool + 1
	}
	w.run(types.NewMsgWithdraw(sdk.MustAccAddressFromBech32(u), id, sdk.Coin{Denom: denom, Amount: toInt(amt)}))
}

func (w *world) doCancel() {
	ks := sortedK2(w.cur.orders)
	if len(ks) == 0 {
		return
	}
	k := pick(w.rt, ks, "order")
	if !rare(w.rt, 3, "anyOrder") { // prefer what can be canceled
		var old []key2
		for _, x := range ks {
			if o := w.cur.orders[x]; open(o) && o.BatchId < w.cur.pairs[o.PairId].CurrentBatchId {
				old = append(old, x)
			}
		}
		if len(old) > 0 {
			k = pick(w.rt, old, "oldOrder")
		}
	}
	who := w.cur.orders[k].Orderer
	switch int(uni(w.rt, int64(0), int64(15), "wrong")) {
	case 15:
		who = w.user("other")
	case 1:
		k[1]++
	case 2:
		k[0]++
	}
	w.run(types.NewMsgCancelOrder(sdk.MustAccAddressFromBech32(who), k[0], k[1]))
}

func (w *world) doCancelAll() {
	var ids []uint64
	for _, id := range sortedU(w.cur.pairs) {
		if rapid.Bool().Draw(w.rt, "pair") {
			ids = append(ids, id)
		}
	}
	if rare(w.rt, 15, "wrong") {
		ids = append(ids, w.cur.lastPair+1)
	}
	w.run(types.NewMsgCancelAllOrders(sdk.MustAccAddressFromBech32(w.user("orderer")), ids))
}

func (w *world) doLimit(mm bool) {
	p, ok := w.anyPair("pair")
	if !ok {
		return
	}
	dir, offer, demand, price, amt := w.orderParts(p, false)
	u := sdk.MustAccAddressFromBech32(w.user("orderer"))
	if mm {
		w.run(types.NewMsgMMOrder(u, w.pairID(p), dir, offer, demand, price, amt, w.drawLifespan()))
		return
	}
	w.run(types.NewMsgLimitOrder(u, w.pairID(p), dir, offer, demand, price, amt, w.drawLifespan()))
}

func (w *world) doMarket() {
	p, ok := w.anyPair("pair")
	if !ok {
		return
	}
	if p.LastPrice == nil && !rare(w.rt, 7, "noPrice") {
		w.doLimit(false)
		return
	}
	dir, offer, demand, _, amt := w.orderParts(p, true)
	w.run(types.NewMsgMarketOrder(sdk.MustAccAddressFromBech32(w.user("orderer")), w.pairID(p), dir, offer, demand, amt, w.drawLifespan()))
}

func (w *world) doSend() {
	var tos []string
	for _, id := range sortedU(w.cur.pools) {
		tos = append(tos, w.cur.pools[id].ReserveAddress)
	}
	for _, id := range sortedU(w.cur.pairs) {
		tos = append(tos, w.cur.pairs[id].EscrowAddress)
	}
	tos = append(tos, globalEscrow, w.users[0], w.users[3], moduleAddr)
	to := pick(w.rt, tos, "to")
	from := w.users[int(uni(w.rt, int64(0), int64(2), "from"))]
	var ds []string
	for d := range w.cur.bal[from] {
		if d != feeDenom {
			ds = append(ds, d)
		}
	}
	if len(ds) == 0 {
		return
	}
	sort.Strings(ds)
	d := pick(w.rt, ds, "denom")
	amt := drawLog(w.rt, max(w.cfg.digits, w.cfg.gifts), "amt")
	amt = minB(amt, w.cur.balOf(from, d))
	w.bankSend(from, to, sdk.Coin{Denom: d, Amount: toInt(amt)})
}

func (w *world) do(op string) {
	switch op {
	case "pair":
		w.doCreatePair()
	case "pool":
		w.doCreatePool()
	case "ranged":
		w.doCreateRanged()
	case "deposit":
		w.doDeposit()
	case "withdraw":
		w.doWithdraw()
	case "limit":
		w.doLimit(false)
	case "mm":
		w.doLimit(true)
	case "market":
		w.doMarket()
	case "cancel":
		w.doCancel()
	case "cancelAll":
		w.doCancelAll()
	case "send":
		w.doSend()
	case "batchSize":
		prm := w.cur.prm
		prm.BatchSize = pick(w.rt, []uint32{1, 2, 3, 5}, "batchSize")
		w.run(&types.MsgUpdateParams{Authority: authority, Params: prm})
	case "params":
		prm := w.cfg.params(w.rt)
		if !w.cfg.anyTicks {
			prm.TickPrecision = w.cur.prm.TickPrecision
		}
		w.run(&types.MsgUpdateParams{Authority: authority, Params: prm})
	case "extra":
		w.cfg.extra()
	case "block":
		w.nextBlock(w.drawDt())
	}
}

// play sets up pairs and runs generated operations.
func (w *world) play() {
	w.run(types.NewMsgCreatePair(sdk.MustAccAddressFromBech32(w.users[0]), w.denoms[0], w.denoms[1]))
	if w.cfg.twoPairs || rapid.Bool().Draw(w.rt, "secondPair") {
		if rapid.Bool().Draw(w.rt, "reversed") {
			w.run(types.NewMsgCreatePair(sdk.MustAccAddressFromBech32(w.users[1]), w.denoms[1], w.denoms[0]))
		} else {
			w.run(types.NewMsgCreatePair(sdk.MustAccAddressFromBech32(w.users[1]), w.denoms[0], w.denoms[2]))
		}
	}
	for i, n := 0, int(uni(w.rt, int64(0), int64(3), "pools")); i < n; i++ {
		if rapid.Bool().Draw(w.rt, "basic") {
			w.doCreatePool()
		} else {
			w.doCreateRanged()
		}
	}
	n := int(uni(w.rt, int64(1), int64(w.cfg.ops), "ops"))
	for i := 0; i < n; i++ {
		w.do(w.drawOp())
	}
	// finish all batches
	for i := uint32(0); i < w.cur.prm.BatchSize; i++ {
		w.nextBlock(5 * time.Second)
	}
}

// replay runs recorded steps of w on another chain, leaving out what keep refuses.
func replay(rt *rapid.T, w *world, app *chain.App, ctx sdk.Context, ops []*step, keep func(s *step) bool) {
	w.setup(app, ctx)
	for _, s := range ops {
		if keep != nil && !keep(s) {
			continue
		}
		h := ctx.BlockHeader()
		h.Height, h.Time = s.mc.height, s.mc.now
		ctx = ctx.WithBlockHeader(h).WithBlockHeight(s.mc.height).WithBlockTime(s.mc.now).WithEventManager(sdk.NewEventManager())
		switch s.kind {
		case "msg", "send":
			deliver(app, ctx, s.msg)
		case "end":
			if e := tryCall(func() { dex.EndBlocker(ctx, app.DexKeeper) }); e != nil && s.panicked == nil {
				rt.Fatalf("replay: %v", e)
			}
		case "begin":
			if e := tryCall(func() { dex.BeginBlocker(ctx, app.DexKeeper) }); e != nil && s.panicked == nil {
				rt.Fatalf("replay: %v", e)
			}
		}
	}
}

func otherDenom(d string) string {
	if d == "stake" {
		return "ccc"
	}
	return "stake"
}
