package zverif

import (
	"bytes"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strconv"
	"strings"
	"testing"
	"time"

	sdkerrors "cosmossdk.io/errors"
	abci "github.com/cometbft/cometbft/abci/types"
	cmtbytes "github.com/cometbft/cometbft/libs/bytes"
	rpcclient "github.com/cometbft/cometbft/rpc/client"
	coretypes "github.com/cometbft/cometbft/rpc/core/types"
	"github.com/cosmos/cosmos-sdk/client"
	"github.com/cosmos/cosmos-sdk/codec"
	"github.com/cosmos/cosmos-sdk/crypto/keyring"
	clitest "github.com/cosmos/cosmos-sdk/testutil/cli"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	authtx "github.com/cosmos/cosmos-sdk/x/auth/tx"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/gogogateway"
	gogoproto "github.com/cosmos/gogoproto/proto"
	"github.com/grpc-ecosystem/grpc-gateway/runtime"
	"github.com/spf13/cobra"
	"pgregory.net/rapid"

	chain "defund/app"
	"defund/x/dex/client/cli"
	dex "defund/x/dex/module"
	"defund/x/dex/types"
)

// asked is one question that reached the node.
type asked struct {
	path   string
	data   []byte
	height int64
	answer []byte
	err    error
}

// fakeNode answers ABCI queries from a state and keeps record of them.
type fakeNode struct {
	client.CometRPC
	app *chain.App
	ctx sdk.Context
	log []asked
}

func (n *fakeNode) ABCIQuery(c context.Context, path string, data cmtbytes.HexBytes) (*coretypes.ResultABCIQuery, error) {
	return n.ABCIQueryWithOptions(c, path, data, rpcclient.DefaultABCIQueryOptions)
}

func (n *fakeNode) ABCIQueryWithOptions(_ context.Context, path string, data cmtbytes.HexBytes, opts rpcclient.ABCIQueryOptions) (*coretypes.ResultABCIQuery, error) {
	a := asked{path: path, data: append([]byte{}, data...), height: opts.Height}
	h := n.app.GRPCQueryRouter().Route(path)
	if h == nil {
		return nil, fmt.Errorf("no route %s", path)
	}
	var r *abci.ResponseQuery
	if p := tryCall(func() { r, a.err = h(n.ctx, &abci.RequestQuery{Data: data, Path: path}) }); p != nil {
		a.err = fmt.Errorf("panic: %v", p)
	}
	if a.err == nil {
		a.answer = r.Value
	} else {
		r = sdkerrorsQueryResult(a.err)
	}
	n.log = append(n.log, a)
	return &coretypes.ResultABCIQuery{Response: *r}, nil
}

func sdkerrorsQueryResult(err error) *abci.ResponseQuery {
	space, code, text := sdkerrors.ABCIInfo(err, false)
	return &abci.ResponseQuery{Codespace: space, Code: code, Log: text}
}

func clientContext(app *chain.App, node *fakeNode) client.Context {
	cdc := app.AppCodec()
	kr := keyring.NewInMemory(cdc)
	return client.Context{}.WithCodec(cdc).WithInterfaceRegistry(app.AppCodec().InterfaceRegistry()).WithLegacyAmino(app.LegacyAmino()).
		WithTxConfig(authtx.NewTxConfig(cdc, authtx.DefaultSignModes)).WithKeyring(kr).
		WithAccountRetriever(authtypes.AccountRetriever{}).WithChainID("zverif").WithClient(node).WithOutputFormat("json")
}

// run executes a command; a panic is an error of its own.
func runCommand(cctx client.Context, cmd *cobra.Command, args []string) (out string, err error) {
	cmd.SilenceUsage, cmd.SilenceErrors = true, true
	var buf *bytes.Buffer
	if p := tryCall(func() {
		b, e := clitest.ExecTestCLICmd(cctx, cmd, args)
		err = e
		if b != nil {
			buf = b.(*bytes.Buffer)
		}
	}); p != nil {
		return "", fmt.Errorf("%w: %v", errPanicked, p)
	}
	if buf != nil {
		out = buf.String()
	}
	return out, err
}

var errPanicked = errors.New("the command panicked")

func coinsArg(rt *rapid.T, cs sdk.Coins) string {
	var l []string
	for _, c := range cs {
		l = append(l, c.Amount.String()+c.Denom)
	}
	if len(l) > 1 && rapid.Bool().Draw(rt, "other order") {
		l[0], l[1] = l[1], l[0]
	}
	return strings.Join(l, ",")
}

// decArg writes atoms of 1e-18 as a decimal number, in one of its forms.
func decArg(rt *rapid.T, a *big.Int) string {
	sign := ""
	if a.Sign() < 0 {
		sign, a = "-", neg(a)
	}
	s := a.String()
	for len(s) < 19 {
		s = "0" + s
	}
	whole, frac := s[:len(s)-18], s[len(s)-18:]
	if rapid.Bool().Draw(rt, "trim zeros") {
		frac = strings.TrimRight(frac, "0")
	}
	if frac == "" {
		return sign + whole
	}
	return sign + whole + "." + frac
}

func dirArg(rt *rapid.T, d types.OrderDirection) string {
	switch d {
	case types.OrderDirectionBuy:
		return pick(rt, []string{"buy", "b", "BUY", "B", "Buy"}, "buy")
	case types.OrderDirectionSell:
		return pick(rt, []string{"sell", "s", "SELL", "S", "Sell"}, "sell")
	}
	return pick(rt, []string{"", "hold", "buys", "1", "bs", "buy ", "unspecified", "long"}, "no direction")
}

// spaces removes bad denoms which only differ by space: coins may be written with it.
func spaces(d *string) {
	if strings.TrimSpace(*d) != *d {
		*d = "a b"
	}
}

func u64(n uint64) string { return strconv.FormatUint(n, 10) }

// txCommand writes a message as the arguments of its command.
// kinds tells what each argument is; ok is false for messages that commands cannot express.
func txCommand(rt *rapid.T, msg sdk.Msg, bad *[]string) (name string, args, flags []string, kinds string, ok bool) {
	fixCoins := func(cs sdk.Coins) bool {
		for i := range cs {
			spaces(&cs[i].Denom)
			if cs[i].Amount.IsZero() && len(cs) > 1 {
				return false // empty amounts are dropped from lists
			}
		}
		return true
	}
	order := func(pair uint64, dir types.OrderDirection, offer *sdk.Coin, demand string, life time.Duration) []string {
		spaces(&offer.Denom)
		if life != 0 || rapid.Bool().Draw(rt, "write the lifespan") {
			flags = append(flags, "--order-lifespan="+life.String())
		}
		return []string{u64(pair), dirArg(rt, dir), offer.Amount.String() + offer.Denom, demand}
	}
	switch m := msg.(type) {
	case *types.MsgCreatePair:
		return "create-pair", []string{m.BaseCoinDenom, m.QuoteCoinDenom}, nil, "dd", true
	case *types.MsgCreatePool:
		ok := fixCoins(m.DepositCoins)
		return "create-pool", []string{u64(m.PairId), coinsArg(rt, m.DepositCoins)}, nil, "ic", ok
	case *types.MsgCreateRangedPool:
		ok := fixCoins(m.DepositCoins)
		return "create-ranged-pool", []string{u64(m.PairId), coinsArg(rt, m.DepositCoins), decArg(rt, m.MinPrice.BigInt()), decArg(rt, m.MaxPrice.BigInt()), decArg(rt, m.InitialPrice.BigInt())}, nil, "icppp", ok
	case *types.MsgDeposit:
		ok := fixCoins(m.DepositCoins)
		return "deposit", []string{u64(m.PoolId), coinsArg(rt, m.DepositCoins)}, nil, "ic", ok
	case *types.MsgWithdraw:
		spaces(&m.PoolCoin.Denom)
		return "withdraw", []string{u64(m.PoolId), m.PoolCoin.Amount.String() + m.PoolCoin.Denom}, nil, "ic", true
	case *types.MsgLimitOrder:
		args = append(order(m.PairId, m.Direction, &m.OfferCoin, m.DemandCoinDenom, m.OrderLifespan), decArg(rt, m.Price.BigInt()), m.Amount.String())
		return "limit-order", args, flags, "iDcdpa", true
	case *types.MsgMarketOrder:
		args = append(order(m.PairId, m.Direction, &m.OfferCoin, m.DemandCoinDenom, m.OrderLifespan), m.Amount.String())
		return "market-order", args, flags, "iDcda", true
	case *types.MsgMMOrder:
		args = append(order(m.PairId, m.Direction, &m.OfferCoin, m.DemandCoinDenom, m.OrderLifespan), decArg(rt, m.Price.BigInt()), m.Amount.String())
		return "mm-order", args, flags, "iDcdpa", true
	case *types.MsgCancelOrder:
		return "cancel-order", []string{u64(m.PairId), u64(m.OrderId)}, nil, "ii", true
	case *types.MsgCancelAllOrders:
		if len(m.PairIds) == 0 {
			return "cancel-all-orders", nil, nil, "", true
		}
		var ids []string
		for _, id := range m.PairIds {
			ids = append(ids, u64(id))
		}
		return "cancel-all-orders", []string{strings.Join(ids, ",")}, nil, "l", true
	}
	panic("message")
}

var badArgs = map[byte][]string{
	'i': {"", "x", "-1", "1.5", "18446744073709551616", "0x1", "1 ", "1,2", "+1", "1e3"},
	'd': {"", "a", "a b", "1ab"},
	'c': {"100", "aaa", "100aaa,", ",100aaa", "-5aaa", "1..5aaa", "100a", "100aaa 5bbb", "1e5aaa!"},
	'p': {"", "abc", "1e5", "0.1234567890123456789", "1.", "1..2", "1/2", "0x1", "1,5"},
	'a': {"", "1.5", "ten", "1e5", "100aaa"},
	'D': {"", "hold", "buys", "0"},
	'l': {"", "1,", "1,x", ",1", "1,,2", "1;2", "-1"},
}

// subCommand finds the command of a name anew.
func subCommand(root *cobra.Command, name string) *cobra.Command {
	for _, c := range root.Commands() {
		if c.Name() == name {
			root.RemoveCommand(c)
			return c
		}
	}
	panic("no command " + name)
}

func testTxCommand(rt *rapid.T, c *Case, cctx client.Context, kind int) {
	m := &maker{rt: rt, wild: rapid.Bool().Draw(rt, "wild")}
	msg := m.message(kind)
	name, args, flags, kinds, ok := txCommand(rt, msg, &m.bad)
	if !ok {
		return
	}
	if contains(m.bad, "coins") {
		// commands sort the coins they are given
		for _, cs := range [][]sdk.Coin{coinsOf(msg)} {
			if len(cs) == 2 && sdk.Coins(cs).IsAnyNil() == false && cs[0].Denom > cs[1].Denom && denomRule.MatchString(cs[0].Denom) && denomRule.MatchString(cs[1].Denom) {
				cs[0], cs[1] = cs[1], cs[0]
				if sdk.Coins(cs).IsValid() {
					for i, b := range m.bad {
						if b == "coins" {
							m.bad = append(m.bad[:i:i], m.bad[i+1:]...)
							break
						}
					}
				}
			}
		}
	}
	what := append([]string{}, m.bad...)
	if len(what) == 0 && rare(rt, 3, "malformed") {
		switch w := pick(rt, []string{"argument", "argument", "argument", "missing", "extra", "lifespan"}, "malformed"); {
		case w == "argument" && len(args) > 0:
			i := int(uni(rt, 0, int64(len(args)-1), "argument"))
			args[i] = pick(rt, badArgs[kinds[i]], "bad argument")
			what = append(what, "malformed "+string(kinds[i]))
		case w == "missing" && len(args) > 0 && name != "cancel-all-orders":
			i := int(uni(rt, 0, int64(len(args)-1), "argument"))
			args = append(args[:i:i], args[i+1:]...)
			what = append(what, "missing argument")
		case w == "extra" && len(args) > 0:
			args = append(args, args[int(uni(rt, 0, int64(len(args)-1), "argument"))])
			what = append(what, "extra argument")
		case w == "lifespan" && strings.Contains(kinds, "D"):
			flags = []string{"--order-lifespan=" + pick(rt, []string{"10", "x", "", "1y", "10m5"}, "lifespan")}
			what = append(what, "malformed lifespan")
		}
	}
	from := signerField(msg)
	all := append([]string{}, flags...)
	all = append(all, "--from="+from, "--generate-only")
	all = append(all, "--")
	all = append(all, args...)
	out, err := runCommand(cctx, subCommand(cli.GetTxCmd(), name), all)
	c.Logf("%s %q: %v %v", name, all, what, err)
	if errors.Is(err, errPanicked) && !(len(m.bad) > 0 && tryCall(func() { _ = msg.ValidateBasic() }) != nil) {
		// validation refuses orders whose value overflows by a panic
		rt.Fatalf("%s %q: %v", name, all, err)
	}
	if len(what) > 0 {
		c.Label("refused " + what[0])
		c.NonTrivial()
		if err == nil {
			rt.Fatalf("%s %q is not refused in spite of %q: %s", name, all, what, out)
		}
		return
	}
	if err != nil {
		rt.Fatalf("%s %q is refused: %v", name, all, err)
	}
	tx, err := cctx.TxConfig.TxJSONDecoder()([]byte(strings.TrimSpace(out)))
	if err != nil {
		rt.Fatalf("%s %q prints %s: %v", name, all, out, err)
	}
	setSigner(msg, strings.ToLower(from))
	got := tx.GetMsgs()
	if len(got) != 1 || sdk.MsgTypeURL(got[0]) != sdk.MsgTypeURL(msg) || protoBytes(got[0]) != protoBytes(msg) {
		rt.Fatalf("%s %q builds\n%v\nwant\n%v", name, all, got, msg)
	}
	c.Label("built " + name)
	c.NonTrivial()
}

func coinsOf(msg sdk.Msg) []sdk.Coin {
	switch m := msg.(type) {
	case *types.MsgCreatePool:
		return m.DepositCoins
	case *types.MsgCreateRangedPool:
		return m.DepositCoins
	case *types.MsgDeposit:
		return m.DepositCoins
	}
	return nil
}

func signerField(msg sdk.Msg) string { return *signerPtr(msg) }

func setSigner(msg sdk.Msg, s string) { *signerPtr(msg) = s }

func signerPtr(msg sdk.Msg) *string {
	switch m := msg.(type) {
	case *types.MsgCreatePair:
		return &m.Creator
	case *types.MsgCreatePool:
		return &m.Creator
	case *types.MsgCreateRangedPool:
		return &m.Creator
	case *types.MsgDeposit:
		return &m.Depositor
	case *types.MsgWithdraw:
		return &m.Withdrawer
	case *types.MsgLimitOrder:
		return &m.Orderer
	case *types.MsgMarketOrder:
		return &m.Orderer
	case *types.MsgMMOrder:
		return &m.Orderer
	case *types.MsgCancelOrder:
		return &m.Orderer
	case *types.MsgCancelAllOrders:
		return &m.Orderer
	}
	panic("message")
}

// question is a question to the query service and the ways to ask it.
type question struct {
	method string
	req    pbMessage
	res    func() codec.ProtoMarshaler
	cmd    []string // nil: there is no command for it
	path   string   // of the REST route
	params url.Values
	bare   bool // the command prints the parameters only
}

type pageForm struct {
	page  *query.PageRequest
	flags []string
	vals  url.Values
}

func drawPage(rt *rapid.T) pageForm {
	f := pageForm{vals: url.Values{}}
	p := &query.PageRequest{Key: []byte{}}
	f.page = p
	set := func(flag, name, v string) {
		f.flags = append(f.flags, "--"+flag+"="+v)
		f.vals.Set("pagination."+name, v)
	}
	limit := uint64(uni(rt, 1, 4, "limit"))
	p.Limit = 100
	if rapid.Bool().Draw(rt, "limited") {
		p.Limit = limit
		set("limit", "limit", u64(limit))
	} else {
		f.vals.Set("pagination.limit", "100")
	}
	switch pick(rt, []int{0, 1, 2, 3}, "start") {
	case 1:
		p.Offset = uint64(uni(rt, 1, 5, "offset"))
		set("offset", "offset", u64(p.Offset))
	case 2:
		n := uint64(uni(rt, 1, 4, "page"))
		f.flags = append(f.flags, "--page="+u64(n))
		p.Offset = (n - 1) * p.Limit
		f.vals.Set("pagination.offset", u64(p.Offset))
	case 3:
		key := "\x01key/" + u64(uint64(uni(rt, 0, 9, "key")))
		p.Key = []byte(key)
		f.flags = append(f.flags, "--page-key="+key)
		f.vals.Set("pagination.key", base64.StdEncoding.EncodeToString([]byte(key)))
	}
	if rapid.Bool().Draw(rt, "count") {
		p.CountTotal = true
		set("count-total", "count_total", "true")
	}
	if rapid.Bool().Draw(rt, "reverse") {
		p.Reverse = true
		set("reverse", "reverse", "true")
	}
	return f
}

// drawQuestion draws one question and both ways to ask it.
func drawQuestion(rt *rapid.T, gs *types.GenesisState) question {
	id := func(l []uint64, name string) uint64 {
		l = append(l, 1, 255, 1<<64-1)
		return pick(rt, l, name)
	}
	var pairs, pools, orders, deposits, withdrawals []uint64
	orderer := addrN(3).String()
	reserve := addrN(4).String()
	denom := "pool1"
	base := "aaa"
	for _, p := range gs.Pairs {
		pairs = append(pairs, p.Id, p.Id)
		if rapid.Bool().Draw(rt, "denom of it") {
			base = p.BaseCoinDenom
		}
	}
	for _, p := range gs.Pools {
		pools = append(pools, p.Id, p.Id)
		if rapid.Bool().Draw(rt, "pool denom of it") {
			denom, reserve = p.PoolCoinDenom, p.ReserveAddress
		}
	}
	for _, o := range gs.Orders {
		orders = append(orders, o.Id, o.Id)
		if rapid.Bool().Draw(rt, "orderer of it") {
			orderer = o.Orderer
		}
	}
	for _, r := range gs.DepositRequests {
		deposits = append(deposits, r.Id, r.Id)
	}
	for _, r := range gs.WithdrawRequests {
		withdrawals = append(withdrawals, r.Id, r.Id)
	}
	const root = "/defund/liquidity/v1beta1/"
	q := question{params: url.Values{}}
	page := func() pageForm {
		f := drawPage(rt)
		for k, v := range f.vals {
			q.params[k] = v
		}
		return f
	}
	switch pick(rt, []string{"params", "pools", "pool", "pool by denom", "pool by address", "pairs", "pair", "deposits", "deposit", "withdrawals", "withdrawal", "orders", "order", "by orderer", "books", "mm"}, "question") {
	case "params":
		q.method, q.req, q.res = "Params", &types.QueryParamsRequest{}, func() codec.ProtoMarshaler { return &types.QueryParamsResponse{} }
		q.cmd, q.path, q.bare = []string{"params"}, root+"params", true
	case "pools":
		f := page()
		r := &types.QueryPoolsRequest{Pagination: f.page}
		q.cmd = append([]string{"pools"}, f.flags...)
		if rapid.Bool().Draw(rt, "of a pair") {
			r.PairId = id(pairs, "pair")
			q.cmd = append(q.cmd, "--pair-id="+u64(r.PairId))
			q.params.Set("pair_id", u64(r.PairId))
		}
		if rapid.Bool().Draw(rt, "by state") {
			r.Disabled = pick(rt, []string{"true", "false", "1", "0", "T", "F", "True", "FALSE"}, "disabled")
			q.cmd = append(q.cmd, "--disabled="+r.Disabled)
			q.params.Set("disabled", r.Disabled)
		}
		q.method, q.req, q.path = "Pools", r, root+"pools"
		q.res = func() codec.ProtoMarshaler { return &types.QueryPoolsResponse{} }
	case "pool":
		n := id(pools, "pool")
		q.method, q.req, q.path, q.cmd = "Pool", &types.QueryPoolRequest{PoolId: n}, root+"pools/"+u64(n), []string{"pool", u64(n)}
		q.res = func() codec.ProtoMarshaler { return &types.QueryPoolResponse{} }
	case "pool by denom":
		q.method, q.req, q.path, q.cmd = "PoolByPoolCoinDenom", &types.QueryPoolByPoolCoinDenomRequest{PoolCoinDenom: denom}, root+"pools/pool_coin_denom/"+denom, []string{"pool", "--pool-coin-denom=" + denom}
		q.res = func() codec.ProtoMarshaler { return &types.QueryPoolResponse{} }
	case "pool by address":
		q.method, q.req, q.path, q.cmd = "PoolByReserveAddress", &types.QueryPoolByReserveAddressRequest{ReserveAddress: reserve}, root+"pools/reserve_address/"+reserve, []string{"pool", "--reserve-address=" + reserve}
		q.res = func() codec.ProtoMarshaler { return &types.QueryPoolResponse{} }
	case "pairs":
		f := page()
		r := &types.QueryPairsRequest{Pagination: f.page}
		q.cmd = append([]string{"pairs"}, f.flags...)
		switch pick(rt, []int{0, 1, 2, 3}, "denoms") {
		case 1:
			r.Denoms = []string{base}
			q.cmd = append(q.cmd, "--denoms="+base)
		case 2:
			r.Denoms = []string{base, "stake"}
			q.cmd = append(q.cmd, "--denoms="+base+",stake")
		case 3:
			r.Denoms = []string{"stake", base}
			q.cmd = append(q.cmd, "--denoms=stake", "--denoms="+base)
		}
		q.params["denoms"] = r.Denoms
		q.method, q.req, q.path = "Pairs", r, root+"pairs"
		q.res = func() codec.ProtoMarshaler { return &types.QueryPairsResponse{} }
	case "pair":
		n := id(pairs, "pair")
		q.method, q.req, q.path, q.cmd = "Pair", &types.QueryPairRequest{PairId: n}, root+"pairs/"+u64(n), []string{"pair", u64(n)}
		q.res = func() codec.ProtoMarshaler { return &types.QueryPairResponse{} }
	case "deposits":
		f := page()
		n := id(pools, "pool")
		q.method, q.req, q.path, q.cmd = "DepositRequests", &types.QueryDepositRequestsRequest{PoolId: n, Pagination: f.page}, root+"pools/"+u64(n)+"/deposit_requests", append([]string{"deposit-requests", u64(n)}, f.flags...)
		q.res = func() codec.ProtoMarshaler { return &types.QueryDepositRequestsResponse{} }
	case "deposit":
		n, k := id(pools, "pool"), id(deposits, "request")
		if len(gs.DepositRequests) > 0 && rapid.Bool().Draw(rt, "existing") {
			r := pick(rt, gs.DepositRequests, "request")
			n, k = r.PoolId, r.Id
		}
		q.method, q.req, q.path, q.cmd = "DepositRequest", &types.QueryDepositRequestRequest{PoolId: n, Id: k}, root+"pools/"+u64(n)+"/deposit_requests/"+u64(k), []string{"deposit-request", u64(n), u64(k)}
		q.res = func() codec.ProtoMarshaler { return &types.QueryDepositRequestResponse{} }
	case "withdrawals":
		f := page()
		n := id(pools, "pool")
		q.method, q.req, q.path, q.cmd = "WithdrawRequests", &types.QueryWithdrawRequestsRequest{PoolId: n, Pagination: f.page}, root+"pools/"+u64(n)+"/withdraw_requests", append([]string{"withdraw-requests", u64(n)}, f.flags...)
		q.res = func() codec.ProtoMarshaler { return &types.QueryWithdrawRequestsResponse{} }
	case "withdrawal":
		n, k := id(pools, "pool"), id(withdrawals, "request")
		if len(gs.WithdrawRequests) > 0 && rapid.Bool().Draw(rt, "existing") {
			r := pick(rt, gs.WithdrawRequests, "request")
			n, k = r.PoolId, r.Id
		}
		q.method, q.req, q.path, q.cmd = "WithdrawRequest", &types.QueryWithdrawRequestRequest{PoolId: n, Id: k}, root+"pools/"+u64(n)+"/withdraw_requests/"+u64(k), []string{"withdraw-request", u64(n), u64(k)}
		q.res = func() codec.ProtoMarshaler { return &types.QueryWithdrawRequestResponse{} }
	case "orders":
		f := page()
		n := id(pairs, "pair")
		q.method, q.req, q.path, q.cmd = "Orders", &types.QueryOrdersRequest{PairId: n, Pagination: f.page}, root+"pairs/"+u64(n)+"/orders", append([]string{"orders", "--pair-id=" + u64(n)}, f.flags...)
		q.res = func() codec.ProtoMarshaler { return &types.QueryOrdersResponse{} }
	case "order":
		n, k := id(pairs, "pair"), id(orders, "order")
		if len(gs.Orders) > 0 && rapid.Bool().Draw(rt, "existing") {
			r := pick(rt, gs.Orders, "order")
			n, k = r.PairId, r.Id
		}
		q.method, q.req, q.path, q.cmd = "Order", &types.QueryOrderRequest{PairId: n, Id: k}, root+"pairs/"+u64(n)+"/orders/"+u64(k), []string{"order", u64(n), u64(k)}
		q.res = func() codec.ProtoMarshaler { return &types.QueryOrderResponse{} }
	case "by orderer":
		f := page()
		r := &types.QueryOrdersByOrdererRequest{Orderer: orderer, Pagination: f.page}
		q.cmd = append([]string{"orders", orderer}, f.flags...)
		if rapid.Bool().Draw(rt, "of a pair") {
			r.PairId = id(pairs, "pair")
			q.cmd = append(q.cmd, "--pair-id="+u64(r.PairId))
			q.params.Set("pair_id", u64(r.PairId))
		}
		q.method, q.req, q.path = "OrdersByOrderer", r, root+"orders/"+orderer
		q.res = func() codec.ProtoMarshaler { return &types.QueryOrdersResponse{} }
	case "books":
		r := &types.QueryOrderBooksRequest{NumTicks: 20}
		var l []string
		for i, n := 0, int(uni(rt, 1, 3, "pairs")); i < n; i++ {
			r.PairIds = append(r.PairIds, id(pairs, "pair"))
			l = append(l, u64(r.PairIds[i]))
		}
		q.cmd = []string{"order-books", strings.Join(l, ",")}
		if rapid.Bool().Draw(rt, "ticks") {
			r.NumTicks = uint32(uni(rt, 0, 50, "number of ticks"))
			q.cmd = append(q.cmd, pick(rt, []string{"--num-ticks=", "-n="}, "flag")+u64(uint64(r.NumTicks)))
		}
		q.params["pair_ids"] = l
		q.params.Set("num_ticks", u64(uint64(r.NumTicks)))
		q.method, q.req, q.path = "OrderBooks", r, root+"order_books"
		q.res = func() codec.ProtoMarshaler { return &types.QueryOrderBooksResponse{} }
	case "mm":
		n := id(pairs, "pair")
		q.method, q.req, q.path = "NumMMOrders", &types.QueryNumMMOrdersRequest{Orderer: orderer, PairId: n}, root+"num_mm_orders/"+orderer+"/"+u64(n)
		q.res = func() codec.ProtoMarshaler { return &types.QueryNumMMOrdersResponse{} }
	}
	return q
}

// requestString is the encoding of a request or an answer.
func requestString(m pbMessage) string {
	bz, err := m.Marshal()
	must(err)
	return string(bz)
}

func TestC36(t *testing.T) {
	for k, name := range []string{"create-pair", "create-pool", "create-ranged-pool", "deposit", "withdraw", "limit-order", "market-order", "mm-order", "cancel-order", "cancel-all-orders"} {
		k := k
		prop(t, name, 1200, func(rt *rapid.T, c *Case) {
			app, _ := branch()
			testTxCommand(rt, c, clientContext(app, nil), k)
		})
	}
	prop(t, "questions", 3000, func(rt *rapid.T, c *Case) {
		app, ctx := branch()
		gs := drawGenesis(rt)
		raw := app.AppCodec().MustMarshalJSON(gs)
		wipe(app, ctx)
		dexModule(app).InitGenesis(ctx, app.AppCodec(), raw)
		node := &fakeNode{app: app, ctx: ctx}
		cctx := clientContext(app, node)
		mux := runtime.NewServeMux(runtime.WithMarshalerOption(runtime.MIMEWildcard, &gateway.JSONPb{EmitDefaults: true, OrigName: true, AnyResolver: app.AppCodec().InterfaceRegistry()}), runtime.WithProtoErrorHandler(runtime.DefaultHTTPProtoErrorHandler))
		dex.AppModuleBasic{}.RegisterGRPCGatewayRoutes(cctx, mux)
		for i, n := 0, int(uni(rt, 2, 6, "questions")); i < n; i++ {
			q := drawQuestion(rt, gs)
			c.Logf("%s %+v: %q %s?%s", q.method, q.req, q.cmd, q.path, q.params.Encode())
			height := int64(0)
			judge := func(way, out string, failed bool) {
				if len(node.log) != 1 {
					rt.Fatalf("%s asks %d questions: %s", way, len(node.log), out)
				}
				a := node.log[0]
				node.log = nil
				if a.path != "/defund.dex.Query/"+q.method || string(a.data) != requestString(q.req) || a.height != height {
					rt.Fatalf("%s asks %s at %d, %x\nwant %s %x at %d %v", way, a.path, a.height, a.data, q.method, requestString(q.req), height, q.req)
				}
				if failed != (a.err != nil) {
					rt.Fatalf("%s fails %v, the service %v: %s", way, failed, a.err, out)
				}
				if failed {
					c.Label("error " + q.method)
					return
				}
				var x gogoproto.Message
				want := a.answer
				res := q.res()
				x = res
				if q.bare && strings.HasPrefix(way, "command") {
					var full types.QueryParamsResponse
					must(full.Unmarshal(a.answer))
					want, _ = full.Params.Marshal()
					x = &types.Params{}
				}
				if err := app.AppCodec().UnmarshalJSON([]byte(out), x); err != nil {
					rt.Fatalf("%s answers %s: %v", way, out, err)
				}
				if got := requestString(x.(pbMessage)); got != string(want) {
					rt.Fatalf("%s answers\n%s\nwhich is %v", way, out, x)
				}
				c.Label("answered " + q.method)
				if len(want) > 8 {
					c.NonTrivial()
				}
			}
			if q.cmd != nil {
				args := append([]string{}, q.cmd[1:]...)
				args = append(args, "--output=json")
				if rare(rt, 4, "height") {
					height = uni(rt, 1, 1<<40, "height")
					args = append(args, fmt.Sprintf("--height=%d", height))
				}
				out, err := runCommand(cctx, subCommand(cli.GetQueryCmd(), q.cmd[0]), args)
				if errors.Is(err, errPanicked) {
					rt.Fatalf("%q: %v", q.cmd, err)
				}
				if err != nil {
					out = err.Error()
				}
				judge(fmt.Sprintf("command %q", q.cmd), out, err != nil)
			}
			height = 0
			rec := httptest.NewRecorder()
			mux.ServeHTTP(rec, httptest.NewRequest("GET", q.path+"?"+q.params.Encode(), nil))
			judge(fmt.Sprintf("route %s?%s", q.path, q.params.Encode()), rec.Body.String(), rec.Code != http.StatusOK)
			// a malformed question does not reach the service
			if rare(rt, 3, "malformed") {
				var bad []string
				switch q.method {
				case "Params":
					bad = []string{"params", "1"}
				case "Pools":
					bad = pick(rt, [][]string{{"pools", "--pair-id=x"}, {"pools", "--disabled=yes"}, {"pools", "--pair-id=-1"}, {"pools", "1"}, {"pools", "--page=2", "--offset=1"}, {"pools", "--limit=x"}}, "bad")
				case "Pool", "PoolByPoolCoinDenom", "PoolByReserveAddress":
					bad = pick(rt, [][]string{{"pool"}, {"pool", "x"}, {"pool", "1", "2"}, {"pool", "1", "--pool-coin-denom=pool1"}, {"pool", "1", "--reserve-address=x"}, {"pool", "--pool-coin-denom=pool1", "--reserve-address=x"}, {"pool", "1", "--pool-coin-denom=pool1", "--reserve-address=x"}}, "bad")
				case "Pairs":
					bad = pick(rt, [][]string{{"pairs", "aaa"}, {"pairs", "--page=2", "--offset=1"}}, "bad")
				case "Pair":
					bad = pick(rt, [][]string{{"pair"}, {"pair", "x"}, {"pair", "1", "1"}, {"pair", "1.0"}}, "bad")
				case "DepositRequests":
					bad = pick(rt, [][]string{{"deposit-requests"}, {"deposit-requests", "pool1"}, {"deposit-requests", "1", "2"}}, "bad")
				case "DepositRequest":
					bad = pick(rt, [][]string{{"deposit-request", "1"}, {"deposit-request", "1", "x"}, {"deposit-request", "x", "1"}}, "bad")
				case "WithdrawRequests":
					bad = pick(rt, [][]string{{"withdraw-requests"}, {"withdraw-requests", "pool1"}, {"withdraw-requests", "1", "2"}}, "bad")
				case "WithdrawRequest":
					bad = pick(rt, [][]string{{"withdraw-request", "1"}, {"withdraw-request", "1", "x"}, {"withdraw-request", "x", "1"}}, "bad")
				case "Orders", "OrdersByOrderer":
					bad = pick(rt, [][]string{{"orders"}, {"orders", "--pair-id=0"}, {"orders", "--pair-id=x"}, {"orders", "a", "b"}}, "bad")
				case "Order":
					bad = pick(rt, [][]string{{"order", "1"}, {"order", "1", "x"}, {"order", "x", "1"}, {"order", "1", "2", "3"}}, "bad")
				case "OrderBooks":
					bad = pick(rt, [][]string{{"order-books"}, {"order-books", "1,"}, {"order-books", "1,x"}, {"order-books", "1", "2"}, {"order-books", "1", "--num-ticks=-1"}}, "bad")
				}
				if bad != nil {
					out, err := runCommand(cctx, subCommand(cli.GetQueryCmd(), bad[0]), bad[1:])
					if err == nil || errors.Is(err, errPanicked) || len(node.log) > 0 {
						rt.Fatalf("%q: %v %s, asked %v", bad, err, out, node.log)
					}
				}
				for _, path := range []string{"pools/x", "pairs/x/orders", "pairs/1/orders/x", "pools/1/deposit_requests/x", "pools/-1/withdraw_requests", "pools/1/withdraw_requests/1.5", "nothing", "pairs/1/2", "orders", "pools?pair_id=x", "order_books?num_ticks=-1", "num_mm_orders/" + addrN(3).String()} {
					if !rare(rt, 4, "bad route") {
						continue
					}
					rec := httptest.NewRecorder()
					mux.ServeHTTP(rec, httptest.NewRequest("GET", "/defund/liquidity/v1beta1/"+path, nil))
					if rec.Code < 400 || rec.Code >= 500 && rec.Code != http.StatusNotImplemented || len(node.log) > 0 {
						rt.Fatalf("route %s: %d %s, asked %v", path, rec.Code, rec.Body.String(), node.log)
					}
				}
			}
		}
	})
}
