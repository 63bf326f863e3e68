package zverif

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/bech32"
	"pgregory.net/rapid"

	chain "defund/app"
	"defund/x/dex/types"
)

// TestC20 checks who can change the parameters, to what, and what comes of it.
func TestC20(t *testing.T) {
	prop(t, "updates", 16000, func(rt *rapid.T, c *Case) {
		app, ctx := branch()
		start := types.DefaultParams()
		start.BatchSize = 7
		app.DexKeeper.SetParams(ctx, start)
		for i, n := 0, int(uni(rt, 1, 4, "updates")); i < n; i++ {
			prm, bad := drawAnyParams(rt)
			signer := pick(rt, []string{authority, authority, authority, authority, addrN(1).String(), "", moduleAddr, strings.ToUpper(authority), authority[:len(authority)-1]}, "signer")
			before := app.DexKeeper.GetParams(ctx)
			want := signer == authority && bad == ""
			verr := tryErr(func() error { return prm.Validate() })
			if (verr == nil) != (bad == "") {
				rt.Fatalf("validation of parameters with %q: %v\n%s", bad, verr, paramString(prm))
			}
			err, _, _, _ := deliver(app, ctx, &types.MsgUpdateParams{Authority: signer, Params: prm})
			c.Logf("signer %q, invalid %q: %v\n%s", signer, bad, err, paramString(prm))
			if (err == nil) != want {
				rt.Fatalf("update signed by %q with invalid field %q: %v\n%s", signer, bad, err, paramString(prm))
			}
			exp := before
			if want {
				exp = prm
				c.Label("accepted")
			} else {
				c.Label("refused")
			}
			if got := app.DexKeeper.GetParams(ctx); paramString(got) != paramString(exp) {
				rt.Fatalf("parameters after the update (accepted %v):\n%s\nwant\n%s", want, paramString(got), paramString(exp))
			}
			res, err := app.DexKeeper.Params(ctx, &types.QueryParamsRequest{})
			if err != nil || paramString(res.Params) != paramString(exp) {
				rt.Fatalf("reported parameters: %v %v\nwant\n%s", res, err, paramString(exp))
			}
			if used := paramsInUse(app, ctx); paramString(used) != paramString(normalCollectors(exp)) {
				rt.Fatalf("parameters the exchange works with:\n%s\nwant\n%s", paramString(used), paramString(exp))
			}
			if paramString(exp) != paramString(before) || !want {
				c.NonTrivial()
			}
		}
	})
	mk := func(w *world, rt *rapid.T, c *Case) watcher {
		updates := 0
		return watcher{func(s *step) {
			if m, ok := ofMsg[*types.MsgUpdateParams](s); ok {
				if !s.accepted {
					rt.Fatalf("update to valid parameters is refused: %v\n%s", s.err, paramString(m.Params))
				}
				updates++
				return
			}
			if s.panicked != nil {
				rt.Fatalf("%s %v: %v", s.kind, s.msg, s.panicked)
			}
			if updates > 0 && s.kind == "end" && (s.matchedAny() || s.pendingRequests()) {
				c.NonTrivial()
			}
		}, nil}
	}
	weights := map[string]int{"limit": 30, "market": 8, "mm": 6, "deposit": 8, "withdraw": 8, "cancel": 2, "cancelAll": 1, "ranged": 6, "pool": 5, "block": 20, "send": 3, "params": 12}
	histTest(t, "consequences", 1200, worldCfg{ops: 45, weights: weights, params: drawWildParams, anyTicks: true}, mk)
	histTest(t, "consequences-edges", 800, worldCfg{ops: 45, weights: weights, params: drawWildParams, anyTicks: true, digits: 30, magnitude: 1, rich: 45, expos: []int64{-17, -16, -15, -14, -12, 17, 19, 20, 25, 30, 36}}, mk)
}

// paramsInUse reads each parameter the way the rest of the exchange does.
func paramsInUse(app *chain.App, ctx sdk.Context) types.Params {
	k := app.DexKeeper
	p := k.GetParams(ctx)
	p.BatchSize = k.GetBatchSize(ctx)
	p.TickPrecision = k.GetTickPrecision(ctx)
	p.FeeCollectorAddress = k.GetFeeCollector(ctx).String()
	p.DustCollectorAddress = k.GetDustCollector(ctx).String()
	p.MinInitialPoolCoinSupply = k.GetMinInitialPoolCoinSupply(ctx)
	p.PairCreationFee = k.GetPairCreationFee(ctx)
	p.PoolCreationFee = k.GetPoolCreationFee(ctx)
	p.MinInitialDepositAmount = k.GetMinInitialDepositAmount(ctx)
	p.MaxPriceLimitRatio = k.GetMaxPriceLimitRatio(ctx)
	p.MaxNumMarketMakingOrderTicks = k.GetMaxNumMarketMakingOrderTicks(ctx)
	p.MaxNumMarketMakingOrdersPerPair = k.GetMaxNumMarketMakingOrdersPerPair(ctx)
	p.MaxOrderLifespan = k.GetMaxOrderLifespan(ctx)
	p.WithdrawFeeRate = k.GetWithdrawFeeRate(ctx)
	p.DepositExtraGas = k.GetDepositExtraGas(ctx)
	p.WithdrawExtraGas = k.GetWithdrawExtraGas(ctx)
	p.OrderExtraGas = k.GetOrderExtraGas(ctx)
	p.MaxNumActivePoolsPerPair = k.GetMaxNumActivePoolsPerPair(ctx)
	return p
}

func normalCollectors(p types.Params) types.Params {
	p.FeeCollectorAddress, p.DustCollectorAddress = strings.ToLower(p.FeeCollectorAddress), strings.ToLower(p.DustCollectorAddress)
	return p
}

func tryErr(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return f()
}

func paramString(p types.Params) string {
	p2 := p
	return p2.String()
}

func randAddr(rt *rapid.T, n int) string {
	b := rapid.SliceOfN(rapid.Byte(), n, n).Draw(rt, "address")
	return sdk.AccAddress(b).String()
}

// drawCollector draws any address, often one that plays a role already.
func drawCollector(rt *rapid.T) string {
	switch pick(rt, []int{0, 1, 2, 3, 4, 5}, "collector") {
	case 0:
		return types.DefaultFeeCollectorAddress.String()
	case 1:
		return types.DefaultDustCollectorAddress.String()
	case 2:
		return addrN(uint64(uni(rt, 1, 6, "user"))).String()
	case 3:
		return pick(rt, []string{authority, moduleAddr, types.PairEscrowAddress(1).String(), types.PoolReserveAddress(1).String(), types.GlobalEscrowAddress.String(), strings.ToUpper(authority)}, "known")
	}
	return randAddr(rt, pick(rt, []int{20, 32, 1, 255}, "length"))
}

// field is a parameter with its valid and its invalid values.
type field struct {
	name  string
	valid func(rt *rapid.T, p *types.Params)
	bad   func(rt *rapid.T, p *types.Params)
}

func drawDecRange(rt *rapid.T, lo, hi int64, label string) math.LegacyDec {
	switch pick(rt, []int{0, 1, 2, 3, 4}, label+" kind") {
	case 0:
		return math.LegacyNewDec(lo)
	case 1:
		return math.LegacyNewDec(hi)
	case 2:
		return math.LegacyNewDec(lo).Add(math.LegacySmallestDec())
	case 3:
		return math.LegacyNewDec(hi).Sub(math.LegacySmallestDec())
	}
	return math.LegacyNewDec(lo).Add(math.LegacyNewDecWithPrec(uni(rt, 0, (hi-lo)*1_000_000, label), 6))
}

func badDecs(hi int64) []math.LegacyDec {
	out := []math.LegacyDec{{}, math.LegacyNewDec(-1), math.LegacySmallestDec().Neg()}
	if hi > 0 {
		out = append(out, math.LegacyNewDec(hi).Add(math.LegacySmallestDec()), math.LegacyNewDec(hi*100))
	}
	return out
}

var badAddrs = []string{"", "defund", "defund1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqsxlsdf", "cosmos1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqnrql8a", " "}

func init() {
	other, _ := bech32.ConvertAndEncode("osmo", make([]byte, 20))
	badAddrs = append(badAddrs, other)
}

var badCoins = []sdk.Coins{
	{{Denom: "stake", Amount: math.NewInt(0)}},
	{{Denom: "stake", Amount: math.NewInt(-1)}},
	{{Denom: "bbb", Amount: math.NewInt(1)}, {Denom: "aaa", Amount: math.NewInt(1)}},
	{{Denom: "aaa", Amount: math.NewInt(1)}, {Denom: "aaa", Amount: math.NewInt(1)}},
	{{Denom: "1a", Amount: math.NewInt(1)}},
	{{Denom: "", Amount: math.NewInt(1)}},
}

func drawCoinsParam(rt *rapid.T) sdk.Coins {
	return pick(rt, []sdk.Coins{nil, sdk.NewCoins(sdk.NewInt64Coin("stake", 1)), sdk.NewCoins(sdk.NewInt64Coin("stake", 1000000)),
		sdk.NewCoins(sdk.NewInt64Coin("aaa", 3), sdk.NewInt64Coin("bbb", 1), sdk.NewInt64Coin("stake", 5)), sdk.NewCoins(sdk.NewCoin("ibc/ABCDEF0123", toInt(pow10i(60))))}, "fee")
}

func u32s(rt *rapid.T, lo uint32, label string) uint32 {
	return pick(rt, []uint32{lo, lo + 1, 3, 10, 100, 65536, 4294967295}, label)
}

const maxTickPrecision = 16

var paramFields = []field{
	{"BatchSize", func(rt *rapid.T, p *types.Params) { p.BatchSize = u32s(rt, 1, "batch size") }, func(rt *rapid.T, p *types.Params) { p.BatchSize = 0 }},
	{"TickPrecision", func(rt *rapid.T, p *types.Params) {
		p.TickPrecision = uint32(uni(rt, 0, maxTickPrecision, "precision"))
	},
		func(rt *rapid.T, p *types.Params) {
			p.TickPrecision = pick(rt, []uint32{maxTickPrecision + 1, 18, 19, 20, 64, 4294967295}, "bad precision")
		}},
	{"FeeCollectorAddress", func(rt *rapid.T, p *types.Params) {
		p.FeeCollectorAddress = drawCollector(rt)
	},
		func(rt *rapid.T, p *types.Params) { p.FeeCollectorAddress = pick(rt, badAddrs, "bad address") }},
	{"DustCollectorAddress", func(rt *rapid.T, p *types.Params) {
		p.DustCollectorAddress = drawCollector(rt)
	},
		func(rt *rapid.T, p *types.Params) { p.DustCollectorAddress = pick(rt, badAddrs, "bad address") }},
	{"MinInitialPoolCoinSupply", func(rt *rapid.T, p *types.Params) {
		p.MinInitialPoolCoinSupply = toInt(add(pow10i(int(uni(rt, 0, 70, "supply"))), bi(uni(rt, 0, 1, "supply more"))))
	}, func(rt *rapid.T, p *types.Params) {
		p.MinInitialPoolCoinSupply = pick(rt, []math.Int{{}, math.NewInt(0), math.NewInt(-1)}, "bad supply")
	}},
	{"PairCreationFee", func(rt *rapid.T, p *types.Params) { p.PairCreationFee = drawCoinsParam(rt) }, func(rt *rapid.T, p *types.Params) { p.PairCreationFee = pick(rt, badCoins, "bad fee") }},
	{"PoolCreationFee", func(rt *rapid.T, p *types.Params) { p.PoolCreationFee = drawCoinsParam(rt) }, func(rt *rapid.T, p *types.Params) { p.PoolCreationFee = pick(rt, badCoins, "bad fee") }},
	{"MinInitialDepositAmount", func(rt *rapid.T, p *types.Params) {
		p.MinInitialDepositAmount = pick(rt, []math.Int{math.NewInt(0), math.NewInt(1), math.NewInt(1000000), toInt(pow10i(70))}, "min deposit")
	}, func(rt *rapid.T, p *types.Params) {
		p.MinInitialDepositAmount = pick(rt, []math.Int{{}, math.NewInt(-1)}, "bad min deposit")
	}},
	{"MaxPriceLimitRatio", func(rt *rapid.T, p *types.Params) {
		p.MaxPriceLimitRatio = drawDecRange(rt, 0, 1, "ratio")
		if p.MaxPriceLimitRatio.GTE(math.LegacyOneDec()) {
			p.MaxPriceLimitRatio = math.LegacyNewDecWithPrec(1, 1)
		}
	}, func(rt *rapid.T, p *types.Params) {
		p.MaxPriceLimitRatio = pick(rt, append(badDecs(1), math.LegacyOneDec()), "bad ratio")
	}},
	{"MaxNumMarketMakingOrderTicks", func(rt *rapid.T, p *types.Params) { p.MaxNumMarketMakingOrderTicks = u32s(rt, 1, "ticks") }, func(rt *rapid.T, p *types.Params) { p.MaxNumMarketMakingOrderTicks = 0 }},
	{"MaxNumMarketMakingOrdersPerPair", func(rt *rapid.T, p *types.Params) { p.MaxNumMarketMakingOrdersPerPair = u32s(rt, 1, "orders") }, func(rt *rapid.T, p *types.Params) { p.MaxNumMarketMakingOrdersPerPair = 0 }},
	{"MaxOrderLifespan", func(rt *rapid.T, p *types.Params) {
		p.MaxOrderLifespan = pick(rt, []time.Duration{0, 1, time.Hour, 1<<63 - 1}, "lifespan")
	}, func(rt *rapid.T, p *types.Params) {
		p.MaxOrderLifespan = pick(rt, []time.Duration{-1, -1 << 63}, "bad lifespan")
	}},
	{"SwapFeeRate", func(rt *rapid.T, p *types.Params) { p.SwapFeeRate = drawDecRange(rt, 0, 1, "swap fee") }, func(rt *rapid.T, p *types.Params) { p.SwapFeeRate = pick(rt, badDecs(0), "bad swap fee") }},
	{"WithdrawFeeRate", func(rt *rapid.T, p *types.Params) { p.WithdrawFeeRate = drawDecRange(rt, 0, 1, "withdraw fee") }, func(rt *rapid.T, p *types.Params) { p.WithdrawFeeRate = pick(rt, badDecs(1), "bad withdraw fee") }},
	{"DepositExtraGas", func(rt *rapid.T, p *types.Params) { p.DepositExtraGas = drawGas(rt) }, nil},
	{"WithdrawExtraGas", func(rt *rapid.T, p *types.Params) { p.WithdrawExtraGas = drawGas(rt) }, nil},
	{"OrderExtraGas", func(rt *rapid.T, p *types.Params) { p.OrderExtraGas = drawGas(rt) }, nil},
	{"MaxNumActivePoolsPerPair", func(rt *rapid.T, p *types.Params) { p.MaxNumActivePoolsPerPair = u32s(rt, 0, "pools") }, nil},
}

func drawGas(rt *rapid.T) uint64 { return pick(rt, []uint64{0, 1, 60000, 1 << 32, 1<<64 - 1}, "gas") }

// drawAnyParams draws parameters of which at most one is invalid.
func drawAnyParams(rt *rapid.T) (types.Params, string) {
	p := types.DefaultParams()
	all := rapid.Bool().Draw(rt, "all")
	for _, f := range paramFields {
		if all || rare(rt, 4, "field") {
			f.valid(rt, &p)
		}
	}
	if rapid.Bool().Draw(rt, "valid") {
		return p, ""
	}
	f := pick(rt, paramFields, "bad field")
	if f.bad == nil {
		return p, ""
	}
	f.bad(rt, &p)
	return p, f.name
}

// drawWildParams draws valid parameters of a running exchange.
func drawWildParams(rt *rapid.T) types.Params {
	p := drawParams(rt)
	for _, f := range paramFields {
		if rare(rt, 3, "wild") {
			f.valid(rt, &p)
		}
	}
	// the number of ticks within the limits decides how long quoting pools takes
	p.TickPrecision = uint32(uni(rt, 0, 5, "precision"))
	if p.TickPrecision > 3 {
		p.MaxPriceLimitRatio = math.LegacyMinDec(p.MaxPriceLimitRatio, math.LegacyNewDec(1000).Quo(math.LegacyNewDec(10).Power(uint64(p.TickPrecision))))
	}
	// batches have to be reached, orders have to be affordable
	p.BatchSize = pick(rt, []uint32{1, 1, 2, 4}, "batch size")
	p.DepositExtraGas, p.WithdrawExtraGas, p.OrderExtraGas = p.DepositExtraGas%1_000_000, p.WithdrawExtraGas%1_000_000, p.OrderExtraGas%1_000_000
	return p
}
