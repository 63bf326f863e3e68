package zverif

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"
	"github.com/cosmos/cosmos-sdk/types/query"
	"pgregory.net/rapid"

	chain "defund/app"
	dex "defund/x/dex/module"
	"defund/x/dex/types"
)

// genesisModule is the module with the methods the chain uses for genesis.
type genesisModule interface {
	module.HasGenesis
	module.HasGenesisBasics
}

func dexModule(app *chain.App) genesisModule {
	return app.ModuleManager.Modules[types.ModuleName].(genesisModule)
}

// wipe removes everything the module stored.
func wipe(app *chain.App, ctx sdk.Context) {
	st := ctx.KVStore(app.GetKey(types.StoreKey))
	var keys [][]byte
	it := storetypes.KVStorePrefixIterator(st, nil)
	for ; it.Valid(); it.Next() {
		keys = append(keys, append([]byte{}, it.Key()...))
	}
	it.Close()
	for _, k := range keys {
		st.Delete(k)
	}
	// parameters are kept in the store of the params module
	app.DexKeeper.SetParams(ctx, types.DefaultParams())
}

func exported(app *chain.App, ctx sdk.Context) json.RawMessage {
	return dexModule(app).ExportGenesis(ctx, app.AppCodec())
}

// lookups answers every lookup for every existing and some missing object.
func lookups(app *chain.App, ctx sdk.Context, w *W, users, denoms []string) (out []string) {
	k := app.DexKeeper
	say := func(format string, args ...interface{}) { out = append(out, fmt.Sprintf(format, args...)) }
	for id := uint64(0); id <= w.lastPair+1; id++ {
		p, ok := k.GetPair(ctx, id)
		say("pair %d: %v %v", id, ok, p)
		say("orders of pair %d: %v", id, k.GetOrdersByPair(ctx, id))
		say("pools of pair %d: %v", id, k.GetPoolsByPair(ctx, id))
		for _, u := range users {
			say("mm of %s in %d: %d", u, id, k.GetNumMMOrders(ctx, sdk.MustAccAddressFromBech32(u), id))
		}
	}
	for _, a := range denoms {
		for _, b := range denoms {
			p, ok := k.GetPairByDenoms(ctx, a, b)
			say("pair %s %s: %v %v", a, b, ok, p)
			if a != b {
				res, err := k.Pairs(ctx, &types.QueryPairsRequest{Denoms: []string{a, b}, Pagination: &query.PageRequest{Limit: 1000}})
				say("pairs of %s and %s: %v %v", a, b, res, err)
			}
		}
		res, err := k.Pairs(ctx, &types.QueryPairsRequest{Denoms: []string{a}, Pagination: &query.PageRequest{Limit: 1000}})
		say("pairs of %s: %v %v", a, res, err)
	}
	for id := uint64(0); id <= w.lastPool+1; id++ {
		p, ok := k.GetPool(ctx, id)
		say("pool %d: %v %v", id, ok, p)
		p, ok = k.GetPoolByReserveAddress(ctx, types.PoolReserveAddress(id))
		say("pool at reserve %d: %v %v", id, ok, p)
	}
	for _, u := range users {
		a := sdk.MustAccAddressFromBech32(u)
		say("orders of %s: %v", u, k.GetOrdersByOrderer(ctx, a))
		say("deposits of %s: %v", u, k.GetDepositRequestsByDepositor(ctx, a))
		say("withdrawals of %s: %v", u, k.GetWithdrawRequestsByWithdrawer(ctx, a))
	}
	return
}

func firstDiff(a, b []string) string {
	for i := range a {
		if i >= len(b) {
			return "missing: " + a[i]
		}
		if a[i] != b[i] {
			return a[i] + "\nversus\n" + b[i]
		}
	}
	if len(b) > len(a) {
		return "extra: " + b[len(a)]
	}
	return ""
}

func eventStrings(evs []sdk.Event) (out []string) {
	for _, e := range evs {
		var as []string
		for _, a := range e.Attributes {
			as = append(as, a.Key+"="+a.Value)
		}
		out = append(out, e.Type+" "+strings.Join(as, " "))
	}
	return
}

// roundTrip exports the state of ctx, imports it into a chain without exchange
// records, and checks the result. It returns the imported chain.
func roundTrip(rt *rapid.T, w *world) sdk.Context {
	raw := exported(w.app, w.ctx)
	if again := exported(w.app, w.ctx); string(again) != string(raw) {
		rt.Fatalf("exporting changes the exported state")
	}
	if err := dexModule(w.app).ValidateGenesis(w.app.AppCodec(), nil, raw); err != nil {
		rt.Fatalf("exported state is invalid: %v\n%s", err, raw)
	}
	// the exported state is what the chain holds
	var gs types.GenesisState
	w.app.AppCodec().MustUnmarshalJSON(raw, &gs)
	if e := genesisVersus(&gs, w.cur); e != "" {
		rt.Fatalf("exported state differs from the chain's: %s", e)
	}
	ctx, _ := w.ctx.CacheContext()
	ctx = ctx.WithEventManager(sdk.NewEventManager())
	wipe(w.app, ctx)
	if p := tryCall(func() { dexModule(w.app).InitGenesis(ctx, w.app.AppCodec(), raw) }); p != nil {
		rt.Fatalf("import of the exported state fails: %v\n%s", p, raw)
	}
	if again := exported(w.app, ctx); string(again) != string(raw) {
		rt.Fatalf("exported after import:\n%s\nbefore:\n%s", again, raw)
	}
	post := snapshot(w.app, ctx)
	for _, d := range diffW(w.cur, post) {
		rt.Fatalf("after import: %s: %s", d.cat, d.text)
	}
	before, after := lookups(w.app, w.ctx, w.cur, w.users, append([]string{"stake"}, w.denoms...)), lookups(w.app, ctx, w.cur, w.users, append([]string{"stake"}, w.denoms...))
	if d := firstDiff(before, after); d != "" {
		rt.Fatalf("lookups before and after import: %s", d)
	}
	return ctx
}

// genesisVersus compares an exported state with a snapshot.
func genesisVersus(gs *types.GenesisState, w *W) string {
	x := &W{prm: gs.Params, pairs: map[uint64]types.Pair{}, pools: map[uint64]types.Pool{}, orders: map[key2]types.Order{},
		deps: map[key2]types.DepositRequest{}, wds: map[key2]types.WithdrawRequest{}, mm: map[mmKey]uint32{},
		bal: w.bal, supply: w.supply, lastPair: gs.LastPairId, lastPool: gs.LastPoolId, locked: w.locked}
	for _, p := range gs.Pairs {
		x.pairs[p.Id] = p
	}
	for _, p := range gs.Pools {
		x.pools[p.Id] = p
	}
	for _, o := range gs.Orders {
		x.orders[key2{o.PairId, o.Id}] = o
	}
	for _, r := range gs.DepositRequests {
		x.deps[key2{r.PoolId, r.Id}] = r
	}
	for _, r := range gs.WithdrawRequests {
		x.wds[key2{r.PoolId, r.Id}] = r
	}
	for _, r := range gs.NumMarketMakingOrdersRecords {
		x.mm[mmKey{r.Orderer, r.PairId}] = r.NumMarketMakingOrders
	}
	if n := len(gs.Pairs) + len(gs.Pools) + len(gs.Orders) + len(gs.DepositRequests) + len(gs.WithdrawRequests) + len(gs.NumMarketMakingOrdersRecords); n != len(x.pairs)+len(x.pools)+len(x.orders)+len(x.deps)+len(x.wds)+len(x.mm) {
		return "duplicate records"
	}
	if paramString(x.prm) != paramString(w.prm) {
		return "parameters " + paramString(x.prm)
	}
	for _, d := range diffW(w, x) {
		return d.cat + ": " + d.text
	}
	return ""
}

func rich(w *W) bool {
	return len(w.orders) > 0 && len(w.pools) > 0 && (len(w.deps) > 0 || len(w.wds) > 0 || len(w.mm) > 0)
}

func TestC21(t *testing.T) {
	weights := map[string]int{"limit": 30, "market": 6, "mm": 10, "deposit": 12, "withdraw": 12, "cancel": 3, "cancelAll": 1, "ranged": 6, "pool": 5, "block": 14, "params": 3}
	histTest(t, "continue", 1100, worldCfg{ops: 50, weights: weights}, func(w *world, rt *rapid.T, c *Case) watcher {
		at := int(uni(rt, 4, 40, "export step"))
		var fork sdk.Context
		forked := false
		steps := 0
		check := func(s *step, full bool) {
			if !full {
				return
			}
			for _, d := range diffW(s.post, snapshot(w.app, fork)) {
				rt.Fatalf("the imported chain differs after %s %v: %s: %s", s.kind, s.msg, d.cat, d.text)
			}
		}
		start := func() {
			fork = roundTrip(rt, w)
			w.ctx, _ = w.ctx.CacheContext() // both chains go on from here
			forked = true
			c.Logf("  ---- exported and imported ----")
			if rich(w.cur) {
				c.NonTrivial()
			}
		}
		return watcher{func(s *step) {
			steps++
			if forked {
				h := fork.BlockHeader()
				h.Height, h.Time = s.mc.height, s.mc.now
				em := sdk.NewEventManager()
				fork = fork.WithBlockHeader(h).WithBlockHeight(s.mc.height).WithBlockTime(s.mc.now).WithEventManager(em)
				switch s.kind {
				case "msg", "send":
					err, _, evs, _ := deliver(w.app, fork, s.msg)
					if fmt.Sprint(err) != fmt.Sprint(s.err) {
						rt.Fatalf("%v: %v, on the imported chain: %v", s.msg, s.err, err)
					}
					if d := firstDiff(eventStrings(s.events), eventStrings(evs)); d != "" {
						rt.Fatalf("events of %v on both chains: %s", s.msg, d)
					}
				case "end", "begin":
					p := tryCall(func() {
						if s.kind == "end" {
							dex.EndBlocker(fork, w.app.DexKeeper)
						} else {
							dex.BeginBlocker(fork, w.app.DexKeeper)
						}
					})
					if fmt.Sprint(p) != fmt.Sprint(s.panicked) {
						rt.Fatalf("%s: %v, on the imported chain %v", s.kind, s.panicked, p)
					}
					if d := firstDiff(eventStrings(s.events), eventStrings(em.Events())); d != "" {
						rt.Fatalf("events of %s on both chains: %s", s.kind, d)
					}
				}
				check(s, s.kind == "end")
			}
			if !forked && steps >= at {
				start()
			}
		}, func() {
			if !forked {
				start()
				return
			}
			a, b := exported(w.app, w.ctx), exported(w.app, fork)
			if string(a) != string(b) {
				rt.Fatalf("final state of the imported chain:\n%s\nof the original:\n%s", b, a)
			}
			roundTrip(rt, w)
		}}
	})
	// states no short history reaches: large ids, long and odd addresses and denoms
	prop(t, "wide states", 6000, func(rt *rapid.T, c *Case) {
		app, ctx := branch()
		gs := drawGenesis(rt)
		raw := app.AppCodec().MustMarshalJSON(gs)
		c.Logf("%s", raw)
		if err := dexModule(app).ValidateGenesis(app.AppCodec(), nil, raw); err != nil {
			rt.Fatalf("consistent state is refused: %v", err)
		}
		wipe(app, ctx)
		if p := tryCall(func() { dexModule(app).InitGenesis(ctx, app.AppCodec(), raw) }); p != nil {
			rt.Fatalf("import fails: %v", p)
		}
		out := exported(app, ctx)
		var back types.GenesisState
		app.AppCodec().MustUnmarshalJSON(out, &back)
		if e := genesisSame(gs, &back); e != "" {
			rt.Fatalf("exported: %s", e)
		}
		checkLookups(rt, app, ctx, gs)
		if len(gs.Orders) > 1 && len(gs.Pools) > 1 && len(gs.Pairs) > 1 {
			c.NonTrivial()
		}
	})
}

func norm(v interface{}) string {
	rv := reflect.ValueOf(v)
	var ss []string
	for i := 0; i < rv.Len(); i++ {
		ss = append(ss, fmt.Sprintf("%v", rv.Index(i).Interface()))
	}
	sort.Strings(ss)
	return strings.Join(ss, "\n")
}

func genesisSame(a, b *types.GenesisState) string {
	for _, p := range []struct {
		n    string
		x, y interface{}
	}{{"pairs", a.Pairs, b.Pairs}, {"pools", a.Pools, b.Pools}, {"deposits", a.DepositRequests, b.DepositRequests}, {"withdrawals", a.WithdrawRequests, b.WithdrawRequests},
		{"orders", a.Orders, b.Orders}, {"market making counters", a.NumMarketMakingOrdersRecords, b.NumMarketMakingOrdersRecords}} {
		if x, y := norm(p.x), norm(p.y); x != y {
			return fmt.Sprintf("%s:\n%s\nwant:\n%s", p.n, y, x)
		}
	}
	if paramString(a.Params) != paramString(b.Params) {
		return "parameters " + paramString(b.Params)
	}
	if a.LastPairId != b.LastPairId || a.LastPoolId != b.LastPoolId {
		return "last ids"
	}
	return ""
}

// checkLookups compares every lookup with a direct search of the records.
func checkLookups(rt *rapid.T, app *chain.App, ctx sdk.Context, gs *types.GenesisState) {
	k := app.DexKeeper
	pairs := map[uint64]types.Pair{}
	addrs := map[string]bool{}
	for _, p := range gs.Pairs {
		pairs[p.Id] = p
		if x, ok := k.GetPair(ctx, p.Id); !ok || fmt.Sprint(x) != fmt.Sprint(p) {
			rt.Fatalf("pair %d is found as %v %v", p.Id, ok, x)
		}
		if x, ok := k.GetPairByDenoms(ctx, p.BaseCoinDenom, p.QuoteCoinDenom); !ok || x.Id != p.Id {
			rt.Fatalf("pair of %s and %s is found as %v %v", p.BaseCoinDenom, p.QuoteCoinDenom, ok, x)
		}
	}
	for _, p := range gs.Pairs {
		var orders []types.Order
		for _, o := range gs.Orders {
			if o.PairId == p.Id {
				orders = append(orders, o)
			}
		}
		if x, y := norm(k.GetOrdersByPair(ctx, p.Id)), norm(orders); x != y {
			rt.Fatalf("orders of pair %d:\n%s\nwant\n%s", p.Id, x, y)
		}
		var pools []types.Pool
		for _, q := range gs.Pools {
			if q.PairId == p.Id {
				pools = append(pools, q)
			}
		}
		if x, y := norm(k.GetPoolsByPair(ctx, p.Id)), norm(pools); x != y {
			rt.Fatalf("pools of pair %d:\n%s\nwant\n%s", p.Id, x, y)
		}
		for _, ds := range [][]string{{p.BaseCoinDenom}, {p.QuoteCoinDenom}, {p.BaseCoinDenom, p.QuoteCoinDenom}, {p.QuoteCoinDenom, p.BaseCoinDenom}} {
			res, err := k.Pairs(ctx, &types.QueryPairsRequest{Denoms: ds, Pagination: &query.PageRequest{Limit: 1 << 30}})
			if err != nil {
				rt.Fatalf("pairs of %v: %v", ds, err)
			}
			var want []types.Pair
			for _, q := range gs.Pairs {
				if hasDenoms(q, ds) {
					want = append(want, q)
				}
			}
			if x, y := norm(res.Pairs), norm(want); x != y {
				rt.Fatalf("pairs of %v:\n%s\nwant\n%s", ds, x, y)
			}
		}
	}
	for _, p := range gs.Pools {
		if x, ok := k.GetPool(ctx, p.Id); !ok || fmt.Sprint(x) != fmt.Sprint(p) {
			rt.Fatalf("pool %d is found as %v %v", p.Id, ok, x)
		}
		if x, ok := k.GetPoolByReserveAddress(ctx, sdk.MustAccAddressFromBech32(p.ReserveAddress)); !ok || x.Id != p.Id {
			rt.Fatalf("pool at %s is found as %v %v", p.ReserveAddress, ok, x)
		}
		addrs[p.Creator] = true
	}
	for _, o := range gs.Orders {
		addrs[o.Orderer] = true
	}
	for _, r := range gs.DepositRequests {
		addrs[r.Depositor] = true
	}
	for _, r := range gs.WithdrawRequests {
		addrs[r.Withdrawer] = true
	}
	for a := range addrs {
		acc := sdk.MustAccAddressFromBech32(a)
		var orders []types.Order
		for _, o := range gs.Orders {
			if o.Orderer == a {
				orders = append(orders, o)
			}
		}
		if x, y := norm(k.GetOrdersByOrderer(ctx, acc)), norm(orders); x != y {
			rt.Fatalf("orders of %s:\n%s\nwant\n%s", a, x, y)
		}
		var deps []types.DepositRequest
		for _, r := range gs.DepositRequests {
			if r.Depositor == a {
				deps = append(deps, r)
			}
		}
		if x, y := norm(k.GetDepositRequestsByDepositor(ctx, acc)), norm(deps); x != y {
			rt.Fatalf("deposits of %s:\n%s\nwant\n%s", a, x, y)
		}
		var wds []types.WithdrawRequest
		for _, r := range gs.WithdrawRequests {
			if r.Withdrawer == a {
				wds = append(wds, r)
			}
		}
		if x, y := norm(k.GetWithdrawRequestsByWithdrawer(ctx, acc)), norm(wds); x != y {
			rt.Fatalf("withdrawals of %s:\n%s\nwant\n%s", a, x, y)
		}
	}
	for _, r := range gs.NumMarketMakingOrdersRecords {
		if n := k.GetNumMMOrders(ctx, sdk.MustAccAddressFromBech32(r.Orderer), r.PairId); n != r.NumMarketMakingOrders {
			rt.Fatalf("%s has %d market making orders in pair %d, want %d", r.Orderer, n, r.PairId, r.NumMarketMakingOrders)
		}
	}
}

func hasDenoms(p types.Pair, ds []string) bool {
	for _, d := range ds {
		if d != p.BaseCoinDenom && d != p.QuoteCoinDenom {
			return false
		}
	}
	return len(ds) < 2 || ds[0] != ds[1]
}
