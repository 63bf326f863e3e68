package zverif

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"testing"

	storetypes "cosmossdk.io/store/types"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"

	chain "defund/app"
	"defund/x/dex/amm"
	"defund/x/dex/types"
)

type pbMessage interface {
	Marshal() ([]byte, error)
	Unmarshal([]byte) error
}

// ask sends a query through the query router of the app.
func ask(app *chain.App, ctx sdk.Context, name string, req, res pbMessage) (err error) {
	h := app.GRPCQueryRouter().Route("/defund.dex.Query/" + name)
	if h == nil {
		return fmt.Errorf("no query %s", name)
	}
	bz, err := req.Marshal()
	must(err)
	if p := tryCall(func() {
		var r *abci.ResponseQuery
		r, err = h(ctx, &abci.RequestQuery{Data: bz})
		if err == nil {
			err = res.Unmarshal(r.Value)
		}
	}); p != nil {
		return fmt.Errorf("panic: %v", p)
	}
	return err
}

func codeOf(err error) codes.Code {
	if s, ok := status.FromError(err); ok {
		return s.Code()
	}
	return 99
}

func dump(app *chain.App, ctx sdk.Context) []byte {
	var b bytes.Buffer
	it := storetypes.KVStorePrefixIterator(ctx.KVStore(app.GetKey(types.StoreKey)), nil)
	defer it.Close()
	for ; it.Valid(); it.Next() {
		fmt.Fprintf(&b, "%x=%x\n", it.Key(), it.Value())
	}
	return b.Bytes()
}

// lister asks for one page; it returns the records as strings.
type lister func(p *query.PageRequest) (recs []string, page *query.PageResponse, err error)

// checkList compares a list query with the expected records under generated pages.
func checkList(rt *rapid.T, c *Case, name string, want []string, sorted bool, l lister) {
	all, page, err := l(&query.PageRequest{Limit: 1_000_000, CountTotal: true})
	if err != nil {
		rt.Fatalf("%s: %v", name, err)
	}
	if d := sameSet(all, want); d != "" {
		rt.Fatalf("%s reports\n%s\nwant\n%s\n(%s)", name, strings.Join(all, "\n"), strings.Join(want, "\n"), d)
	}
	if sorted && strings.Join(all, "\n") != strings.Join(want, "\n") {
		rt.Fatalf("%s is out of order:\n%s\nwant\n%s", name, strings.Join(all, "\n"), strings.Join(want, "\n"))
	}
	if page.Total != uint64(len(want)) {
		rt.Fatalf("%s: total %d of %d", name, page.Total, len(want))
	}
	if len(page.NextKey) != 0 {
		rt.Fatalf("%s: another page after the last", name)
	}
	if len(want) > 0 {
		c.Label(name + " with records")
	}
	rev := rapid.Bool().Draw(rt, "reverse")
	if rev {
		for i, j := 0, len(all)-1; i < j; i, j = i+1, j-1 {
			all[i], all[j] = all[j], all[i]
		}
	}
	limit := uint64(uni(rt, 1, int64(len(want))+1, "limit"))
	// following the keys
	var got []string
	req := &query.PageRequest{Limit: limit, Reverse: rev}
	for n := 0; ; n++ {
		recs, page, err := l(req)
		if err != nil {
			rt.Fatalf("%s page %d: %v", name, n, err)
		}
		if uint64(len(recs)) > limit {
			rt.Fatalf("%s: page of %d records, limit %d", name, len(recs), limit)
		}
		got = append(got, recs...)
		if len(page.NextKey) == 0 {
			break
		}
		if n > 500 {
			rt.Fatalf("%s: pages without end", name)
		}
		req = &query.PageRequest{Limit: limit, Reverse: rev, Key: page.NextKey}
	}
	if strings.Join(got, "\n") != strings.Join(all, "\n") {
		rt.Fatalf("%s in pages of %d (reverse %v):\n%s\nat once:\n%s", name, limit, rev, strings.Join(got, "\n"), strings.Join(all, "\n"))
	}
	// by offset
	off := uint64(uni(rt, 0, int64(len(want))+1, "offset"))
	recs, page, err := l(&query.PageRequest{Offset: off, Limit: limit, CountTotal: true, Reverse: rev})
	if err != nil {
		rt.Fatalf("%s at offset %d: %v", name, off, err)
	}
	lo := min(off, uint64(len(all)))
	hi := min(off+limit, uint64(len(all)))
	if strings.Join(recs, "\n") != strings.Join(all[lo:hi], "\n") || page.Total != uint64(len(all)) {
		rt.Fatalf("%s offset %d limit %d reverse %v total %d:\n%s\nwant\n%s\ntotal %d", name, off, limit, rev, page.Total, strings.Join(recs, "\n"), strings.Join(all[lo:hi], "\n"), len(all))
	}
	// without a page request: the first hundred
	recs, page, err = l(nil)
	if rev {
		for i, j := 0, len(all)-1; i < j; i, j = i+1, j-1 {
			all[i], all[j] = all[j], all[i]
		}
	}
	if err != nil || len(all) <= 100 && (strings.Join(recs, "\n") != strings.Join(all, "\n") || page.Total != uint64(len(all))) {
		rt.Fatalf("%s without pages: %v\n%s\nwant\n%s", name, err, strings.Join(recs, "\n"), strings.Join(all, "\n"))
	}
	if _, _, err := l(&query.PageRequest{Offset: 1, Key: []byte{1}, Limit: 1}); err == nil {
		rt.Fatalf("%s: offset and key together are accepted", name)
	}
	if len(want) > int(limit) {
		c.Label("several pages")
		c.NonTrivial()
	}
}

func strs[T any](xs []T) (out []string) {
	for _, x := range xs {
		out = append(out, fmt.Sprintf("%v", x))
	}
	return
}

// poolView is what queries have to say about a pool.
func (w *W) poolView(p types.Pool) types.PoolResponse {
	pair := w.pairs[p.PairId]
	rx, ry := w.balOf(p.ReserveAddress, pair.QuoteCoinDenom), w.balOf(p.ReserveAddress, pair.BaseCoinDenom)
	r := types.PoolResponse{Type: p.Type, Id: p.Id, PairId: p.PairId, Creator: p.Creator, ReserveAddress: p.ReserveAddress, PoolCoinDenom: p.PoolCoinDenom,
		PoolCoinSupply: toInt(w.supplyOf(p.PoolCoinDenom)), MinPrice: p.MinPrice, MaxPrice: p.MaxPrice,
		Balances:             types.PoolBalances{BaseCoin: sdk.NewCoin(pair.BaseCoinDenom, toInt(ry)), QuoteCoin: sdk.NewCoin(pair.QuoteCoinDenom, toInt(rx))},
		LastDepositRequestId: p.LastDepositRequestId, LastWithdrawRequestId: p.LastWithdrawRequestId, Disabled: p.Disabled}
	if p.Disabled {
		return r
	}
	switch p.Type {
	case types.PoolTypeBasic:
		if r.PoolCoinSupply.IsPositive() && rx.Sign() > 0 && ry.Sign() > 0 {
			x := toInt(rx).ToLegacyDec().Quo(toInt(ry).ToLegacyDec())
			r.Price = &x
		}
	case types.PoolTypeRanged:
		if r.PoolCoinSupply.IsPositive() && (rx.Sign() > 0 || ry.Sign() > 0) {
			x := amm.NewRangedPool(toInt(rx), toInt(ry), r.PoolCoinSupply, *p.MinPrice, *p.MaxPrice).Price()
			r.Price = &x
		}
	}
	return r
}

// checkQueries asks every query about the state of w.
func checkQueries(rt *rapid.T, c *Case, w *world) {
	s := w.cur
	ctx := w.ctx
	app := w.app
	q := func(name string, req, res pbMessage) error { return ask(app, ctx, name, req, res) }
	before := dump(app, ctx)
	// parameters
	{
		var res types.QueryParamsResponse
		if err := q("Params", &types.QueryParamsRequest{}, &res); err != nil || paramString(res.Params) != paramString(s.prm) {
			rt.Fatalf("parameters: %v %v", err, res)
		}
	}
	// pairs
	denoms := append([]string{"stake", "zzz", "aa1"}, w.denoms...)
	filter := []string{}
	switch pick(rt, []int{0, 1, 2, 2}, "denoms") {
	case 1:
		filter = []string{pick(rt, denoms, "denom")}
	case 2:
		filter = []string{pick(rt, denoms, "denom"), pick(rt, denoms, "denom2")}
	}
	var want []string
	for _, id := range sortedU(s.pairs) {
		if hasDenoms(s.pairs[id], filter) {
			want = append(want, fmt.Sprintf("%v", s.pairs[id]))
		}
	}
	checkList(rt, c, fmt.Sprintf("Pairs of %d denoms", len(filter)), want, len(filter) == 0, func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
		var res types.QueryPairsResponse
		err := q("Pairs", &types.QueryPairsRequest{Denoms: filter, Pagination: p}, &res)
		return strs(res.Pairs), res.Pagination, err
	})
	for _, bad := range [][]string{{"aaa", "bbb", "ccc"}, {pick(rt, badDenoms, "bad denom")}, {"aaa", pick(rt, badDenoms, "bad denom")}} {
		var res types.QueryPairsResponse
		if !validUTF8(bad) {
			continue
		}
		if err := q("Pairs", &types.QueryPairsRequest{Denoms: bad}, &res); codeOf(err) != codes.InvalidArgument {
			rt.Fatalf("pairs of %q: %v", bad, err)
		}
	}
	for id := uint64(0); id <= s.lastPair+1; id++ {
		var res types.QueryPairResponse
		err := q("Pair", &types.QueryPairRequest{PairId: id}, &res)
		judgeOne(rt, "Pair", id, err, id == 0, res.Pair, s.pairs, id)
	}
	// pools
	pairID := uint64(uni(rt, 0, int64(s.lastPair)+1, "pair"))
	disabled := pick(rt, []string{"", "", "true", "false", "1", "0", "T", "False"}, "disabled")
	want = nil
	for _, id := range sortedU(s.pools) {
		p := s.pools[id]
		if (pairID == 0 || p.PairId == pairID) && (disabled == "" || p.Disabled == (strings.ToLower(disabled) == "true" || disabled == "1" || disabled == "T")) {
			want = append(want, fmt.Sprintf("%v", s.poolView(p)))
		}
	}
	checkList(rt, c, "Pools"+map[bool]string{true: "", false: " of a pair"}[pairID == 0]+map[bool]string{true: "", false: " by state"}[disabled == ""], want, true, func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
		var res types.QueryPoolsResponse
		err := q("Pools", &types.QueryPoolsRequest{PairId: pairID, Disabled: disabled, Pagination: p}, &res)
		return strs(res.Pools), res.Pagination, err
	})
	{
		var res types.QueryPoolsResponse
		bad := pick(rt, []string{"maybe", " true", "2", "yes", "TrUe"}, "bad bool")
		if err := q("Pools", &types.QueryPoolsRequest{Disabled: bad}, &res); codeOf(err) != codes.InvalidArgument {
			rt.Fatalf("pools with disabled %q: %v", bad, err)
		}
	}
	views := map[uint64]types.PoolResponse{}
	for id, p := range s.pools {
		views[id] = s.poolView(p)
		if views[id].Price == nil && !p.Disabled {
			c.Label("depleted pool")
		}
	}
	for id := uint64(0); id <= s.lastPool+1; id++ {
		var res types.QueryPoolResponse
		err := q("Pool", &types.QueryPoolRequest{PoolId: id}, &res)
		judgeOne(rt, "Pool", id, err, id == 0, res.Pool, views, id)
		res = types.QueryPoolResponse{}
		err = q("PoolByReserveAddress", &types.QueryPoolByReserveAddressRequest{ReserveAddress: types.PoolReserveAddress(id).String()}, &res)
		judgeOne(rt, "PoolByReserveAddress", id, err, false, res.Pool, views, id)
		res = types.QueryPoolResponse{}
		err = q("PoolByPoolCoinDenom", &types.QueryPoolByPoolCoinDenomRequest{PoolCoinDenom: fmt.Sprintf("pool%d", id)}, &res)
		judgeOne(rt, "PoolByPoolCoinDenom", id, err, id == 0, res.Pool, views, id)
	}
	{
		var res types.QueryPoolResponse
		bad := pick(rt, badAddrs, "bad address")
		if err := q("PoolByReserveAddress", &types.QueryPoolByReserveAddressRequest{ReserveAddress: bad}, &res); codeOf(err) != codes.InvalidArgument {
			rt.Fatalf("pool at %q: %v", bad, err)
		}
		for _, u := range w.users {
			if err := q("PoolByReserveAddress", &types.QueryPoolByReserveAddressRequest{ReserveAddress: u}, &res); codeOf(err) != codes.NotFound {
				rt.Fatalf("pool at the address of a user: %v", err)
			}
		}
		bad = pick(rt, []string{"", "pool", "pool01", "pool-1", "Pool1", "pool1 ", "xpool1", "pool1x", "pool18446744073709551616", "aaa", "pool+1", "pool1.0"}, "bad pool coin")
		if err := q("PoolByPoolCoinDenom", &types.QueryPoolByPoolCoinDenomRequest{PoolCoinDenom: bad}, &res); codeOf(err) != codes.InvalidArgument {
			rt.Fatalf("pool of %q: %v", bad, err)
		}
	}
	// requests
	poolID := uint64(uni(rt, 1, int64(s.lastPool)+1, "pool"))
	want = nil
	for _, k := range sortedK2(s.deps) {
		if k[0] == poolID {
			want = append(want, fmt.Sprintf("%v", s.deps[k]))
		}
	}
	checkList(rt, c, "DepositRequests", want, true, func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
		var res types.QueryDepositRequestsResponse
		err := q("DepositRequests", &types.QueryDepositRequestsRequest{PoolId: poolID, Pagination: p}, &res)
		return strs(res.DepositRequests), res.Pagination, err
	})
	want = nil
	for _, k := range sortedK2(s.wds) {
		if k[0] == poolID {
			want = append(want, fmt.Sprintf("%v", s.wds[k]))
		}
	}
	checkList(rt, c, "WithdrawRequests", want, true, func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
		var res types.QueryWithdrawRequestsResponse
		err := q("WithdrawRequests", &types.QueryWithdrawRequestsRequest{PoolId: poolID, Pagination: p}, &res)
		return strs(res.WithdrawRequests), res.Pagination, err
	})
	for pool := uint64(0); pool <= s.lastPool+1; pool++ {
		for id := uint64(0); id <= max(s.pools[pool].LastDepositRequestId, s.pools[pool].LastWithdrawRequestId)+1; id++ {
			var d types.QueryDepositRequestResponse
			judgeOne(rt, "DepositRequest", key2{pool, id}, q("DepositRequest", &types.QueryDepositRequestRequest{PoolId: pool, Id: id}, &d), pool == 0 || id == 0, d.DepositRequest, s.deps, key2{pool, id})
			var r types.QueryWithdrawRequestResponse
			judgeOne(rt, "WithdrawRequest", key2{pool, id}, q("WithdrawRequest", &types.QueryWithdrawRequestRequest{PoolId: pool, Id: id}, &r), pool == 0 || id == 0, r.WithdrawRequest, s.wds, key2{pool, id})
		}
	}
	// orders
	pairID = uint64(uni(rt, 1, int64(s.lastPair)+1, "pair"))
	want = nil
	for _, k := range sortedK2(s.orders) {
		if k[0] == pairID {
			want = append(want, fmt.Sprintf("%v", s.orders[k]))
		}
	}
	checkList(rt, c, "Orders", want, true, func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
		var res types.QueryOrdersResponse
		err := q("Orders", &types.QueryOrdersRequest{PairId: pairID, Pagination: p}, &res)
		return strs(res.Orders), res.Pagination, err
	})
	for pair := uint64(0); pair <= s.lastPair+1; pair++ {
		for id := uint64(0); id <= s.pairs[pair].LastOrderId+1; id++ {
			var o types.QueryOrderResponse
			judgeOne(rt, "Order", key2{pair, id}, q("Order", &types.QueryOrderRequest{PairId: pair, Id: id}, &o), pair == 0 || id == 0, o.Order, s.orders, key2{pair, id})
		}
		for _, u := range append(w.users, addrN(99).String()) {
			var n types.QueryNumMMOrdersResponse
			err := q("NumMMOrders", &types.QueryNumMMOrdersRequest{Orderer: u, PairId: pair}, &n)
			if pair == 0 {
				if codeOf(err) != codes.InvalidArgument {
					rt.Fatalf("market making orders of pair 0: %v", err)
				}
			} else if err != nil || n.NumMarketMakingOrders != s.mm[mmKey{u, pair}] {
				rt.Fatalf("market making orders of %s in pair %d: %v %d want %d", u, pair, err, n.NumMarketMakingOrders, s.mm[mmKey{u, pair}])
			}
		}
	}
	u := pick(rt, append(w.users, addrN(99).String()), "orderer")
	pairID = uint64(uni(rt, 0, int64(s.lastPair)+1, "pair"))
	want = nil
	for _, k := range sortedK2(s.orders) {
		if o := s.orders[k]; o.Orderer == u && (pairID == 0 || o.PairId == pairID) {
			want = append(want, fmt.Sprintf("%v", o))
		}
	}
	checkList(rt, c, "OrdersByOrderer"+map[bool]string{true: "", false: " of a pair"}[pairID == 0], want, true, func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
		var res types.QueryOrdersResponse
		err := q("OrdersByOrderer", &types.QueryOrdersByOrdererRequest{Orderer: u, PairId: pairID, Pagination: p}, &res)
		return strs(res.Orders), res.Pagination, err
	})
	// invalid arguments
	bad := pick(rt, badAddrs, "bad address")
	for name, err := range map[string]error{
		"DepositRequests":  q("DepositRequests", &types.QueryDepositRequestsRequest{}, &types.QueryDepositRequestsResponse{}),
		"WithdrawRequests": q("WithdrawRequests", &types.QueryWithdrawRequestsRequest{}, &types.QueryWithdrawRequestsResponse{}),
		"Orders":           q("Orders", &types.QueryOrdersRequest{}, &types.QueryOrdersResponse{}),
		"OrdersByOrderer":  q("OrdersByOrderer", &types.QueryOrdersByOrdererRequest{Orderer: bad}, &types.QueryOrdersResponse{}),
		"NumMMOrders":      q("NumMMOrders", &types.QueryNumMMOrdersRequest{Orderer: bad, PairId: 1}, &types.QueryNumMMOrdersResponse{}),
		"OrderBooks":       q("OrderBooks", &types.QueryOrderBooksRequest{NumTicks: 3}, &types.QueryOrderBooksResponse{}),
		"OrderBooks 0":     q("OrderBooks", &types.QueryOrderBooksRequest{PairIds: []uint64{1}}, &types.QueryOrderBooksResponse{}),
		"OrderBooks twice": q("OrderBooks", &types.QueryOrderBooksRequest{PairIds: []uint64{1, 1}, NumTicks: 3}, &types.QueryOrderBooksResponse{}),
		"OrderBooks units": q("OrderBooks", &types.QueryOrderBooksRequest{PairIds: []uint64{1}, PriceUnitPowers: []uint32{1, 1}, NumTicks: 3}, &types.QueryOrderBooksResponse{}),
	} {
		if codeOf(err) != codes.InvalidArgument {
			rt.Fatalf("%s with an invalid argument: %v", name, err)
		}
	}
	if err := q("OrderBooks", &types.QueryOrderBooksRequest{PairIds: []uint64{s.lastPair + 1}, NumTicks: 3}, &types.QueryOrderBooksResponse{}); codeOf(err) != codes.NotFound {
		rt.Fatalf("order book of a missing pair: %v", err)
	}
	if after := dump(app, ctx); !bytes.Equal(before, after) {
		rt.Fatalf("queries change the state")
	}
	if !bytes.Equal(before, dump(app, w.ctx)) {
		rt.Fatalf("queries change the state")
	}
}

func validUTF8(ss []string) bool {
	for _, s := range ss {
		if strings.ToValidUTF8(s, "") != s {
			return false
		}
	}
	return true
}

// judgeOne judges the answer to a query for one record.
func judgeOne[K comparable, V any](rt *rapid.T, name string, id interface{}, err error, invalid bool, got V, all map[K]V, key K) {
	want, ok := all[key]
	switch {
	case invalid:
		if codeOf(err) != codes.InvalidArgument {
			rt.Fatalf("%s %v: %v, want an invalid argument", name, id, err)
		}
	case !ok:
		if codeOf(err) != codes.NotFound {
			rt.Fatalf("%s %v: %v, want not found", name, id, err)
		}
	default:
		if err != nil {
			rt.Fatalf("%s %v: %v", name, id, err)
		}
		if x, y := fmt.Sprintf("%v", got), fmt.Sprintf("%v", want); x != y {
			rt.Fatalf("%s %v is\n%s\nwant\n%s", name, id, x, y)
		}
	}
}

func TestC23(t *testing.T) {
	weights := map[string]int{"limit": 30, "market": 6, "mm": 10, "deposit": 14, "withdraw": 14, "cancel": 4, "cancelAll": 1, "ranged": 8, "pool": 8, "block": 10, "send": 4, "pair": 4}
	mk := func(w *world, rt *rapid.T, c *Case) watcher {
		every := int(uni(rt, 6, 18, "query every"))
		n := 0
		return watcher{func(s *step) {
			n++
			if n%every == 0 || s.kind == "end" && n > every && rare(rt, 3, "query") {
				checkQueries(rt, c, w)
			}
		}, func() { checkQueries(rt, c, w) }}
	}
	histTest(t, "histories", 700, worldCfg{ops: 50, weights: weights, twoPairs: true}, mk)
	histTest(t, "small pools", 400, worldCfg{ops: 50, weights: map[string]int{"limit": 20, "market": 6, "mm": 4, "deposit": 10, "withdraw": 30, "ranged": 10, "pool": 10, "block": 20, "send": 6}, digits: 4, magnitude: 2, twoPairs: true}, mk)
	// larger numbers of records with extreme ids, so that pages and prefixes matter
	prop(t, "wide states", 5000, func(rt *rapid.T, c *Case) {
		app, ctx := branch()
		gs := drawGenesis(rt)
		raw := app.AppCodec().MustMarshalJSON(gs)
		c.Logf("%s", raw)
		wipe(app, ctx)
		dexModule(app).InitGenesis(ctx, app.AppCodec(), raw)
		q := func(name string, req, res pbMessage) error { return ask(app, ctx, name, req, res) }
		if len(gs.Pairs) == 0 {
			return
		}
		before := dump(app, ctx)
		pair := pick(rt, gs.Pairs, "pair")
		pid := pick(rt, []uint64{pair.Id, pair.Id, pair.Id - 1, pair.Id + 1, pair.Id ^ 256}, "pair id")
		if pid == 0 {
			pid = pair.Id
		}
		sort.SliceStable(gs.Orders, func(i, j int) bool { return gs.Orders[i].Id < gs.Orders[j].Id })
		sort.SliceStable(gs.Orders, func(i, j int) bool { return gs.Orders[i].PairId < gs.Orders[j].PairId })
		var want []string
		var addr string
		for _, o := range gs.Orders {
			if o.PairId == pid {
				want = append(want, fmt.Sprintf("%v", o))
			}
			if addr == "" || rapid.Bool().Draw(rt, "other address") {
				addr = o.Orderer
			}
		}
		checkList(rt, c, "Orders", want, true, func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
			var res types.QueryOrdersResponse
			err := q("Orders", &types.QueryOrdersRequest{PairId: pid, Pagination: p}, &res)
			return strs(res.Orders), res.Pagination, err
		})
		if addr != "" {
			for _, of := range []uint64{0, pid} {
				want = nil
				for _, o := range gs.Orders {
					if o.Orderer == addr && (of == 0 || o.PairId == of) {
						want = append(want, fmt.Sprintf("%v", o))
					}
				}
				checkList(rt, c, "OrdersByOrderer", want, true, func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
					var res types.QueryOrdersResponse
					err := q("OrdersByOrderer", &types.QueryOrdersByOrdererRequest{Orderer: addr, PairId: of, Pagination: p}, &res)
					return strs(res.Orders), res.Pagination, err
				})
			}
		}
		ds := pick(rt, [][]string{nil, {pair.BaseCoinDenom}, {pair.QuoteCoinDenom}, {pair.BaseCoinDenom, pair.QuoteCoinDenom}, {pair.QuoteCoinDenom, pair.BaseCoinDenom}}, "denoms")
		want = nil
		for _, p := range gs.Pairs {
			if hasDenoms(p, ds) {
				want = append(want, fmt.Sprintf("%v", p))
			}
		}
		checkList(rt, c, "Pairs", want, false, func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
			var res types.QueryPairsResponse
			err := q("Pairs", &types.QueryPairsRequest{Denoms: ds, Pagination: p}, &res)
			return strs(res.Pairs), res.Pagination, err
		})
		if len(gs.Pools) > 0 {
			pool := pick(rt, gs.Pools, "pool").Id
			id := pick(rt, []uint64{pool, pool, pool - 1, pool + 1, pool ^ 256}, "pool id")
			if id == 0 {
				id = pool
			}
			sort.SliceStable(gs.DepositRequests, func(i, j int) bool { return gs.DepositRequests[i].Id < gs.DepositRequests[j].Id })
			sort.SliceStable(gs.WithdrawRequests, func(i, j int) bool { return gs.WithdrawRequests[i].Id < gs.WithdrawRequests[j].Id })
			want = nil
			for _, r := range gs.DepositRequests {
				if r.PoolId == id {
					want = append(want, fmt.Sprintf("%v", r))
				}
			}
			checkList(rt, c, "DepositRequests", want, true, func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
				var res types.QueryDepositRequestsResponse
				err := q("DepositRequests", &types.QueryDepositRequestsRequest{PoolId: id, Pagination: p}, &res)
				return strs(res.DepositRequests), res.Pagination, err
			})
			want = nil
			for _, r := range gs.WithdrawRequests {
				if r.PoolId == id {
					want = append(want, fmt.Sprintf("%v", r))
				}
			}
			checkList(rt, c, "WithdrawRequests", want, true, func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
				var res types.QueryWithdrawRequestsResponse
				err := q("WithdrawRequests", &types.QueryWithdrawRequestsRequest{PoolId: id, Pagination: p}, &res)
				return strs(res.WithdrawRequests), res.Pagination, err
			})
			// pools without reserves: depleted, unless disabled
			want = nil
			sort.Slice(gs.Pools, func(i, j int) bool { return gs.Pools[i].Id < gs.Pools[j].Id })
			var ids []string
			off := pick(rt, []string{"", "true", "false"}, "disabled")
			for _, p := range gs.Pools {
				if p.PairId == pid && (off == "" || p.Disabled == (off == "true")) {
					ids = append(ids, fmt.Sprint(p.Id))
				}
			}
			checkList(rt, c, "Pools", ids, true, func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
				var res types.QueryPoolsResponse
				err := q("Pools", &types.QueryPoolsRequest{PairId: pid, Disabled: off, Pagination: p}, &res)
				var out []string
				for _, x := range res.Pools {
					out = append(out, fmt.Sprint(x.Id))
				}
				return out, res.Pagination, err
			})
		}
		if !bytes.Equal(before, dump(app, ctx)) {
			rt.Fatalf("queries change the state")
		}
	})
}
