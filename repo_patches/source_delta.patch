From 921299139ddefff792da8e02538dec1c970d401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 01/20] fix: keep the logger and authority passed to the dex
 keeper

NewKeeper dropped both, so no account could pass the authority check of
MsgUpdateParams and Logger() dereferenced a nil logger.
---
 x/dex/keeper/keeper.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/dex/keeper/keeper.go b/x/dex/keeper/keeper.go
index a784a46..b806e6e 100644
--- a/x/dex/keeper/keeper.go
+++ b/x/dex/keeper/keeper.go
@@ -46,6 +46,8 @@ func NewKeeper(
 	return Keeper{
 		cdc:           cdc,
 		storeService:  storeService,
+		logger:        logger,
+		authority:     authority,
 		paramSpace:    paramSpace,
 		accountKeeper: accountKeeper,
 		bankKeeper:    bankKeeper,
-- 
2.43.0


From 47369c83199eacef5c63113c816e0050e3445b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 02/20] fix: buy exactly the base coin amount that is sold when
 matching orders

A sell order is never filled for zero quote coin, so the sell side could take
less than the matchable amount while the buy side took all of it. The missing
base coin was then taken from other orders' escrow (or made EndBlock panic).
---
 x/dex/amm/match.go | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/x/dex/amm/match.go b/x/dex/amm/match.go
index af58cfb..cab87a9 100644
--- a/x/dex/amm/match.go
+++ b/x/dex/amm/match.go
@@ -181,8 +181,8 @@ func (ob *OrderBook) MatchAtSinglePrice(matchPrice sdk.LegacyDec) (quoteCoinDiff
 		return sdk.Int{}, false
 	}
 	quoteCoinDiff = sdk.ZeroInt()
-	distributeToTicks := func(ticks []*orderBookTick) {
-		remainingAmt := matchableAmt
+	distributeToTicks := func(ticks []*orderBookTick, amt sdk.Int) {
+		remainingAmt := amt
 		for _, tick := range ticks {
 			tickAmt := TotalMatchableAmount(tick.orders, matchPrice)
 			if tickAmt.LTE(remainingAmt) {
@@ -197,12 +197,31 @@ func (ob *OrderBook) MatchAtSinglePrice(matchPrice sdk.LegacyDec) (quoteCoinDiff
 			}
 		}
 	}
-	distributeToTicks(ob.buys.ticks)
-	distributeToTicks(ob.sells.ticks)
+	// Sell orders may take less than the matchable amount, since a sell order
+	// is never filled for zero quote coin. Only the amount which is actually
+	// sold can be bought.
+	openAmt := totalOpenAmount(ob.sells.ticks...)
+	distributeToTicks(ob.sells.ticks, matchableAmt)
+	soldAmt := openAmt.Sub(totalOpenAmount(ob.sells.ticks...))
+	if !soldAmt.IsPositive() {
+		return sdk.Int{}, false
+	}
+	distributeToTicks(ob.buys.ticks, soldAmt)
 	matched = true
 	return
 }
 
+// totalOpenAmount returns total open amount of orders at the ticks.
+func totalOpenAmount(ticks ...*orderBookTick) sdk.Int {
+	amt := sdk.ZeroInt()
+	for _, tick := range ticks {
+		for _, order := range tick.orders {
+			amt = amt.Add(order.GetOpenAmount())
+		}
+	}
+	return amt
+}
+
 // PriceDirection returns the estimated price direction within this batch
 // considering the last price.
 func (ob *OrderBook) PriceDirection(lastPrice sdk.LegacyDec) PriceDirection {
@@ -280,18 +299,22 @@ func (ob *OrderBook) Match(lastPrice sdk.LegacyDec) (matchPrice sdk.LegacyDec, q
 			si++
 			continue
 		}
+		// Only the amount which is actually sold can be bought.
+		// See MatchAtSinglePrice for details.
+		openAmt := totalOpenAmount(sellTick)
+		quoteCoinDiff = quoteCoinDiff.Add(
+			DistributeOrderAmountToTick(sellTick, sdk.MinInt(buyTickOpenAmt, sellTickOpenAmt), p))
+		soldAmt := openAmt.Sub(totalOpenAmount(sellTick))
 		if buyTickOpenAmt.LTE(sellTickOpenAmt) {
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(buyTick, buyTickOpenAmt, p))
 			bi++
-		} else {
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(buyTick, sellTickOpenAmt, p))
 		}
 		if sellTickOpenAmt.LTE(buyTickOpenAmt) {
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(sellTick, sellTickOpenAmt, p))
 			si++
-		} else {
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(sellTick, buyTickOpenAmt, p))
 		}
+		if !soldAmt.IsPositive() {
+			continue
+		}
+		quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(buyTick, soldAmt, p))
 		matchPrice = p
 		matched = true
 	}
-- 
2.43.0


From a37fb1f2112f7b1f17278ee359414fdbd8cbdaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 03/20] fix: do not overflow a byte when parsing
 length-prefixed index keys

Offsets were computed in byte arithmetic, so a pair whose two denoms are
together longer than 252 bytes could not be looked up by its denoms.
---
 x/dex/types/keys.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/x/dex/types/keys.go b/x/dex/types/keys.go
index aa2d840..302d93a 100644
--- a/x/dex/types/keys.go
+++ b/x/dex/types/keys.go
@@ -158,9 +158,9 @@ func ParsePairsByDenomsIndexKey(key []byte) (denomA, denomB string, pairId uint6
 		panic("key does not have proper prefix")
 	}
 
-	denomALen := key[1]
+	denomALen := int(key[1])
 	denomA = string(key[2 : 2+denomALen])
-	denomBLen := key[2+denomALen]
+	denomBLen := int(key[2+denomALen])
 	denomB = string(key[3+denomALen : 3+denomALen+denomBLen])
 	pairId = sdk.BigEndianToUint64(key[3+denomALen+denomBLen:])
 
@@ -184,7 +184,7 @@ func ParseDepositRequestIndexKey(key []byte) (depositor sdk.AccAddress, poolId,
 		panic("key does not have proper prefix")
 	}
 
-	addrLen := key[1]
+	addrLen := int(key[1])
 	depositor = key[2 : 2+addrLen]
 	poolId = sdk.BigEndianToUint64(key[2+addrLen : 2+addrLen+8])
 	reqId = sdk.BigEndianToUint64(key[2+addrLen+8:])
@@ -197,7 +197,7 @@ func ParseWithdrawRequestIndexKey(key []byte) (withdrawer sdk.AccAddress, poolId
 		panic("key does not have proper prefix")
 	}
 
-	addrLen := key[1]
+	addrLen := int(key[1])
 	withdrawer = key[2 : 2+addrLen]
 	poolId = sdk.BigEndianToUint64(key[2+addrLen : 2+addrLen+8])
 	reqId = sdk.BigEndianToUint64(key[2+addrLen+8:])
@@ -210,7 +210,7 @@ func ParseOrderIndexKey(key []byte) (orderer sdk.AccAddress, pairId, orderId uin
 		panic("key does not have proper prefix")
 	}
 
-	addrLen := key[1]
+	addrLen := int(key[1])
 	orderer = key[2 : 2+addrLen]
 	pairId = sdk.BigEndianToUint64(key[2+addrLen : 2+addrLen+8])
 	orderId = sdk.BigEndianToUint64(key[2+addrLen+8:])
@@ -223,7 +223,7 @@ func ParseNumMMOrdersKey(key []byte) (ordererAddr sdk.AccAddress, pairId uint64)
 		panic("key does not have proper prefix")
 	}
 
-	addrLen := key[1]
+	addrLen := int(key[1])
 	ordererAddr = key[2 : 2+addrLen]
 	pairId = sdk.BigEndianToUint64(key[2+addrLen:])
 	return
-- 
2.43.0


From c9af9ba246075ee47c4a203a0de878e58e52bbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 04/20] fix: import and export the whole dex state in the
 module genesis

The module's InitGenesis and ExportGenesis only handled the params, so pairs,
pools, orders and requests (and the coins escrowed for them) were lost on an
export and restart.
---
 x/dex/module/genesis.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/x/dex/module/genesis.go b/x/dex/module/genesis.go
index 1686aed..b304af8 100644
--- a/x/dex/module/genesis.go
+++ b/x/dex/module/genesis.go
@@ -10,15 +10,11 @@ import (
 // InitGenesis initializes the module's state from a provided genesis state.
 func InitGenesis(ctx sdk.Context, k keeper.Keeper, genState types.GenesisState) {
 	// this line is used by starport scaffolding # genesis/module/init
-	k.SetParams(ctx, genState.Params)
+	k.InitGenesis(ctx, genState)
 }
 
 // ExportGenesis returns the module's exported genesis.
 func ExportGenesis(ctx sdk.Context, k keeper.Keeper) *types.GenesisState {
-	genesis := types.DefaultGenesis()
-	genesis.Params = k.GetParams(ctx)
-
 	// this line is used by starport scaffolding # genesis/module/export
-
-	return genesis
+	return k.ExportGenesis(ctx)
 }
-- 
2.43.0


From 31f6691519a346055eccfce5bbbfe3769f02617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 05/20] fix: accept single-sided deposit requests of ranged
 pools in genesis

A deposit of one coin is allowed for ranged pools, but the exported genesis
containing such a request failed the genesis validation on import.
---
 x/dex/types/genesis.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/x/dex/types/genesis.go b/x/dex/types/genesis.go
index 024ccab..a48a04a 100644
--- a/x/dex/types/genesis.go
+++ b/x/dex/types/genesis.go
@@ -67,10 +67,15 @@ func (genState GenesisState) Validate() error {
 			return fmt.Errorf("deposit request at index %d has wrong minted pool coin: %s", i, req.MintedPoolCoin)
 		}
 		pair := pairMap[pool.PairId]
-		if req.DepositCoins.AmountOf(pair.BaseCoinDenom).IsZero() ||
-			req.DepositCoins.AmountOf(pair.QuoteCoinDenom).IsZero() {
+		// A ranged pool can have a single-sided deposit.
+		if pool.Type == PoolTypeBasic && len(req.DepositCoins) != 2 {
 			return fmt.Errorf("deposit request at index %d has wrong deposit coins: %s", i, req.DepositCoins)
 		}
+		for _, coin := range req.DepositCoins {
+			if coin.Denom != pair.BaseCoinDenom && coin.Denom != pair.QuoteCoinDenom {
+				return fmt.Errorf("deposit request at index %d has wrong deposit coins: %s", i, req.DepositCoins)
+			}
+		}
 		if set, ok := depositReqSet[req.PoolId]; ok {
 			if _, ok := set[req.Id]; ok {
 				return fmt.Errorf("deposit request at index %d has a duplicate id: %d", i, req.Id)
-- 
2.43.0


From dd5d4b971af91e312185b3ea4311e19664a5797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 06/20] fix: register the dex module's invariants

The module's RegisterInvariants was empty, so none of the dex invariants was
ever known to the crisis module.
---
 x/dex/module/module.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/dex/module/module.go b/x/dex/module/module.go
index e1be265..5f07847 100644
--- a/x/dex/module/module.go
+++ b/x/dex/module/module.go
@@ -122,7 +122,9 @@ func (am AppModule) RegisterServices(cfg module.Configurator) {
 }
 
 // RegisterInvariants registers the invariants of the module. If an invariant deviates from its predicted value, the InvariantRegistry triggers appropriate logic (most often the chain will be halted)
-func (am AppModule) RegisterInvariants(_ sdk.InvariantRegistry) {}
+func (am AppModule) RegisterInvariants(ir sdk.InvariantRegistry) {
+	keeper.RegisterInvariants(ir, am.keeper)
+}
 
 // InitGenesis performs the module's genesis initialization. It returns no validator updates.
 func (am AppModule) InitGenesis(ctx sdk.Context, cdc codec.JSONCodec, gs json.RawMessage) {
-- 
2.43.0


From c28ac8e53506937ffceaf2ff611d4a9f21ec9fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 07/20] fix: do not divide by zero for ranged pools at the end
 of their range

DeriveTranslation divided by the difference of two inverse square roots,
which can be zero due to the limited decimal precision when a pool holds
almost only quote coins. Likewise, the price of a single x asset pool
was a division by zero when transY is less than the decimal precision.
Both are called from EndBlock without recovering from panics.
---
 x/dex/amm/pool.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/x/dex/amm/pool.go b/x/dex/amm/pool.go
index de2e851..c04e28d 100644
--- a/x/dex/amm/pool.go
+++ b/x/dex/amm/pool.go
@@ -332,6 +332,9 @@ func (pool *RangedPool) Price() sdk.LegacyDec {
 	if pool.rx.IsZero() && pool.ry.IsZero() {
 		panic("pool price is not defined for a depleted pool")
 	}
+	if pool.yComp.IsZero() { // x asset single pool, with transY less than the decimal precision
+		return pool.maxPrice
+	}
 	return pool.xComp.Quo(pool.yComp) // (rx + transX) / (ry + transY)
 }
 
@@ -563,9 +566,11 @@ func DeriveTranslation(rx, ry sdk.Int, minPrice, maxPrice sdk.LegacyDec) (transX
 		// sqrtK = sqrt(K) = rx / (sqrt(P) - sqrt(M))
 		sqrtK = rxDec.Quo(sqrtP.Sub(sqrtM))
 	}
-	if !sqrtP.Equal(sqrtL) {
+	// The inverses can be equal even if sqrtP and sqrtL are not, due to the
+	// limited decimal precision.
+	if invDiff := inv(sqrtP).Sub(inv(sqrtL)); !invDiff.IsZero() {
 		// sqrtK2 = sqrt(K') = ry / (1/sqrt(P) - 1/sqrt(L))
-		sqrtK2 := ryDec.Quo(inv(sqrtP).Sub(inv(sqrtL)))
+		sqrtK2 := ryDec.Quo(invDiff)
 		if sqrtK.IsNil() { // P == M
 			sqrtK = sqrtK2
 		} else {
-- 
2.43.0


From f5f4bed52e1f1d0c488a59ca5499ad80757d13ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 08/20] fix: block transfers to the dex module account

The module account is created when the first pool coins are minted. A
transfer to its address before that created a plain account there, and every
pool creation panicked from then on.
---
 app/app_config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/app_config.go b/app/app_config.go
index cc96fdf..d571a84 100644
--- a/app/app_config.go
+++ b/app/app_config.go
@@ -169,6 +169,7 @@ var (
 		stakingtypes.BondedPoolName,
 		stakingtypes.NotBondedPoolName,
 		nft.ModuleName,
+		dexmoduletypes.ModuleName,
 		// We allow the following module accounts to receive funds:
 		// govtypes.ModuleName
 	}
-- 
2.43.0


From 9b5d0c2b6c39116f2f1e5e4a431328c07de462a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 09/20] fix: report missing counts of market making orders in
 the invariant

---
 x/dex/keeper/invariants.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/x/dex/keeper/invariants.go b/x/dex/keeper/invariants.go
index 35c7fc0..ea1ebd5 100644
--- a/x/dex/keeper/invariants.go
+++ b/x/dex/keeper/invariants.go
@@ -177,6 +177,14 @@ func NumMMOrdersInvariant(k Keeper) sdk.Invariant {
 			}
 			return false
 		})
+		_ = k.IterateAllOrders(ctx, func(order types.Order) (stop bool, err error) {
+			if order.Type == types.OrderTypeMM && !order.Status.ShouldBeDeleted() &&
+				k.GetNumMMOrders(ctx, order.GetOrdererAcc(), order.PairId) == 0 {
+				count++
+				msg += fmt.Sprintf("\torderer %s has no number of mm orders in pair %d\n", order.Orderer, order.PairId)
+			}
+			return false, nil
+		})
 		broken := count != 0
 		return sdk.FormatInvariant(
 			types.ModuleName, "num-mm-orders",
-- 
2.43.0


From e04f2b6017f622248d5aa44d28e61b61d07b311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:20 +0000
Subject: [PATCH 10/20] fix: quote each tick of a pool once at prices next to
 the decimal precision

---
 x/dex/amm/pool.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/x/dex/amm/pool.go b/x/dex/amm/pool.go
index c04e28d..6937e56 100644
--- a/x/dex/amm/pool.go
+++ b/x/dex/amm/pool.go
@@ -630,7 +630,11 @@ func PoolBuyOrders(pool Pool, orderer Orderer, lowestPrice, highestPrice sdk.Leg
 		if !rx.IsPositive() {
 			break
 		}
-		tick = PriceToDownTick(tick.Mul(oneDec.Sub(poolOrderPriceGapRatio(poolPrice, tick))), tickPrec)
+		nextTick := PriceToDownTick(tick.Mul(oneDec.Sub(poolOrderPriceGapRatio(poolPrice, tick))), tickPrec)
+		if !nextTick.LT(tick) { // the gap is less than the decimal precision
+			nextTick = DownTick(tick, tickPrec)
+		}
+		tick = nextTick
 	}
 	return orders
 }
@@ -671,7 +675,11 @@ func PoolSellOrders(pool Pool, orderer Orderer, lowestPrice, highestPrice sdk.Le
 		if !ry.GT(MinCoinAmount) {
 			break
 		}
-		tick = PriceToUpTick(tick.Mul(oneDec.Add(poolOrderPriceGapRatio(poolPrice, tick))), tickPrec)
+		nextTick := PriceToUpTick(tick.Mul(oneDec.Add(poolOrderPriceGapRatio(poolPrice, tick))), tickPrec)
+		if !nextTick.GT(tick) { // the gap is less than the decimal precision
+			nextTick = UpTick(tick, tickPrec)
+		}
+		tick = nextTick
 	}
 	return orders
 }
-- 
2.43.0


From 1a80754cf083e623f51be45b4d7317b3a186309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 11/20] fix: do not overflow when checking the worth of a large
 order

---
 x/dex/amm/util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/dex/amm/util.go b/x/dex/amm/util.go
index 6f914b3..98cb136 100644
--- a/x/dex/amm/util.go
+++ b/x/dex/amm/util.go
@@ -41,7 +41,8 @@ func MatchableAmount(order Order, price sdk.LegacyDec) (matchableAmt sdk.Int) {
 	case Sell:
 		matchableAmt = order.GetOpenAmount()
 	}
-	if price.MulInt(matchableAmt).TruncateInt().IsZero() {
+	// The worth can only be below one with a price below one.
+	if price.LT(oneDec) && price.MulInt(matchableAmt).LT(oneDec) {
 		matchableAmt = zeroInt
 	}
 	return
-- 
2.43.0


From 55c42419aa35f09ea34a9822dcee3b7ac55089ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 12/20] fix: refuse parameter values that break block
 processing

---
 x/dex/types/params.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/x/dex/types/params.go b/x/dex/types/params.go
index 140c184..6c3ce21 100644
--- a/x/dex/types/params.go
+++ b/x/dex/types/params.go
@@ -39,6 +39,10 @@ var (
 
 // General constants
 const (
+	// MaxTickPrecision is the highest tick precision with which the indices of
+	// all ticks fit in 64 bit integers.
+	MaxTickPrecision uint32 = 16
+
 	PoolReserveAddressPrefix  = "PoolReserveAddress"
 	PairEscrowAddressPrefix   = "PairEscrowAddress"
 	ModuleAddressNameSplitter = "|"
@@ -170,11 +174,15 @@ func validateBatchSize(i interface{}) error {
 }
 
 func validateTickPrecision(i interface{}) error {
-	_, ok := i.(uint32)
+	v, ok := i.(uint32)
 	if !ok {
 		return fmt.Errorf("invalid parameter type: %T", i)
 	}
 
+	if v > MaxTickPrecision {
+		return fmt.Errorf("tick precision must not be greater than %d: %d", MaxTickPrecision, v)
+	}
+
 	return nil
 }
 
@@ -253,6 +261,10 @@ func validateMinInitialDepositAmount(i interface{}) error {
 		return fmt.Errorf("invalid parameter type: %T", i)
 	}
 
+	if v.IsNil() {
+		return fmt.Errorf("minimum initial deposit amount must not be nil")
+	}
+
 	if v.IsNegative() {
 		return fmt.Errorf("minimum initial deposit amount must not be negative: %s", v)
 	}
@@ -266,10 +278,19 @@ func validateMaxPriceLimitRatio(i interface{}) error {
 		return fmt.Errorf("invalid parameter type: %T", i)
 	}
 
+	if v.IsNil() {
+		return fmt.Errorf("max price limit ratio must not be nil")
+	}
+
 	if v.IsNegative() {
 		return fmt.Errorf("max price limit ratio must not be negative: %s", v)
 	}
 
+	// The lowest price limit must be positive.
+	if v.GTE(math.LegacyOneDec()) {
+		return fmt.Errorf("max price limit ratio must be less than 1: %s", v)
+	}
+
 	return nil
 }
 
@@ -318,6 +339,10 @@ func validateSwapFeeRate(i interface{}) error {
 		return fmt.Errorf("invalid parameter type: %T", i)
 	}
 
+	if v.IsNil() {
+		return fmt.Errorf("swap fee rate must not be nil")
+	}
+
 	if v.IsNegative() {
 		return fmt.Errorf("swap fee rate must not be negative: %s", v)
 	}
@@ -331,10 +356,18 @@ func validateWithdrawFeeRate(i interface{}) error {
 		return fmt.Errorf("invalid parameter type: %T", i)
 	}
 
+	if v.IsNil() {
+		return fmt.Errorf("withdraw fee rate must not be nil")
+	}
+
 	if v.IsNegative() {
 		return fmt.Errorf("withdraw fee rate must not be negative: %s", v)
 	}
 
+	if v.GT(math.LegacyOneDec()) {
+		return fmt.Errorf("withdraw fee rate must not be greater than 1: %s", v)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 4ac8fb4afed7e6e6edebe8869e20412a7e053b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 13/20] fix: do not panic for a lower price limit which is
 rounded to zero

---
 x/dex/amm/tick.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/dex/amm/tick.go b/x/dex/amm/tick.go
index 9e7e274..1302bde 100644
--- a/x/dex/amm/tick.go
+++ b/x/dex/amm/tick.go
@@ -108,6 +108,9 @@ func PriceToDownTick(price sdk.LegacyDec, prec int) sdk.LegacyDec {
 // PriceToUpTick returns the lowest price tick greater or equal than
 // the price.
 func PriceToUpTick(price sdk.LegacyDec, prec int) sdk.LegacyDec {
+	if price.IsZero() { // the lower limit of a very low price is rounded to zero
+		return sdk.LegacySmallestDec()
+	}
 	tick := PriceToDownTick(price, prec)
 	if !tick.Equal(price) {
 		return UpTick(tick, prec)
-- 
2.43.0


From 614406b5573839a9a97ccbcc9295b5d8bbc0b079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:35 +0000
Subject: [PATCH 14/20] fix: recognize the overflow errors integers panic with

---
 types/utils.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/types/utils.go b/types/utils.go
index 8eb6d23..90a24f0 100644
--- a/types/utils.go
+++ b/types/utils.go
@@ -235,12 +235,17 @@ func SafeMath(f, onOverflow func()) {
 
 // IsOverflow returns true if the panic value can be interpreted as an overflow.
 func IsOverflow(r interface{}) bool {
+	var s string
 	switch r := r.(type) {
 	case string:
-		s := strings.ToLower(r)
-		return strings.Contains(s, "overflow") || strings.HasSuffix(s, "out of bound")
+		s = r
+	case error: // sdk.Int and sdk.Uint panic with an error
+		s = r.Error()
+	default:
+		return false
 	}
-	return false
+	s = strings.ToLower(s)
+	return strings.Contains(s, "overflow") || strings.HasSuffix(s, "out of bound") || strings.HasSuffix(s, "out of bounds")
 }
 
 // LengthPrefixString returns length-prefixed bytes representation of a string.
-- 
2.43.0


From 8fd23e702e2ea05c3ee0e271fefa6d7d2b9194ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:59 +0000
Subject: [PATCH 15/20] fix: answer pool queries for depleted pools

The price of a depleted pool which is not disabled yet is undefined, and
computing it for the response panicked, failing also the list of all pools.
---
 x/dex/types/util.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/x/dex/types/util.go b/x/dex/types/util.go
index 970011c..de453a0 100644
--- a/x/dex/types/util.go
+++ b/x/dex/types/util.go
@@ -65,8 +65,11 @@ func (op *BulkSendCoinsOperation) Run(ctx sdk.Context, bankKeeper BankKeeper) er
 func NewPoolResponse(pool Pool, rx, ry sdk.Coin, poolCoinSupply math.Int) PoolResponse {
 	var price *math.LegacyDec
 	if !pool.Disabled {
-		p := pool.AMMPool(rx.Amount, ry.Amount, math.Int{}).Price()
-		price = &p
+		ammPool := pool.AMMPool(rx.Amount, ry.Amount, poolCoinSupply)
+		if !ammPool.IsDepleted() { // a depleted pool has no price
+			p := ammPool.Price()
+			price = &p
+		}
 	}
 	return PoolResponse{
 		Type:           pool.Type,
-- 
2.43.0


From 2fd9048df8e8fe2f7911327dcdcb34261d03ff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:59 +0000
Subject: [PATCH 16/20] fix: net an order book whose levels all cross exactly

The view of an order book was left crossed when every buy and every sell
level takes part in the match.
---
 x/dex/amm/view.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/x/dex/amm/view.go b/x/dex/amm/view.go
index 3d40472..a1662b8 100644
--- a/x/dex/amm/view.go
+++ b/x/dex/amm/view.go
@@ -67,9 +67,6 @@ func (view *OrderBookView) Match() {
 		return view.SellAmountUnder(view.sellAmtAccSums[i].price, true).GT(
 			view.BuyAmountOver(view.sellAmtAccSums[i].price, true))
 	})
-	if buyIdx == len(view.buyAmtAccSums) && sellIdx == len(view.sellAmtAccSums) {
-		return
-	}
 	matchAmt := sdk.ZeroInt()
 	if buyIdx > 0 {
 		matchAmt = view.buyAmtAccSums[buyIdx-1].sum
-- 
2.43.0


From 9e8a5affc2525cfdbd30bf80168ee8cdf82880a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 17/20] fix: ask for the deposit or withdraw request by its own
 id

---
 x/dex/client/cli/query.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/dex/client/cli/query.go b/x/dex/client/cli/query.go
index 5c17dc7..292c49f 100644
--- a/x/dex/client/cli/query.go
+++ b/x/dex/client/cli/query.go
@@ -396,7 +396,7 @@ $ %s query %s deposit-requests 1 1
 				return err
 			}
 
-			id, err := strconv.ParseUint(args[0], 10, 64)
+			id, err := strconv.ParseUint(args[1], 10, 64)
 			if err != nil {
 				return err
 			}
@@ -501,7 +501,7 @@ $ %s query %s withdraw-requests 1 1
 				return err
 			}
 
-			id, err := strconv.ParseUint(args[0], 10, 64)
+			id, err := strconv.ParseUint(args[1], 10, 64)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From ff1863ad38f4bed9d43ba4fa8179135c7cd870e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 18/20] fix: accept cancel-all-orders without pair ids

---
 x/dex/client/cli/tx.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/x/dex/client/cli/tx.go b/x/dex/client/cli/tx.go
index f9dd1a5..8429d9a 100644
--- a/x/dex/client/cli/tx.go
+++ b/x/dex/client/cli/tx.go
@@ -589,12 +589,14 @@ $ %s tx %s cancel-all-orders 1,3 --from mykey
 			}
 
 			var pairIds []uint64
-			for _, pairIdStr := range strings.Split(args[0], ",") {
-				pairId, err := strconv.ParseUint(pairIdStr, 10, 64)
-				if err != nil {
-					return fmt.Errorf("parse pair id: %w", err)
+			if len(args) > 0 {
+				for _, pairIdStr := range strings.Split(args[0], ",") {
+					pairId, err := strconv.ParseUint(pairIdStr, 10, 64)
+					if err != nil {
+						return fmt.Errorf("parse pair id: %w", err)
+					}
+					pairIds = append(pairIds, pairId)
 				}
-				pairIds = append(pairIds, pairId)
 			}
 
 			msg := types.NewMsgCancelAllOrders(clientCtx.GetFromAddress(), pairIds)
-- 
2.43.0


From 86e3bb46634cc050fd00320c8d9221b0bb5b309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:38 +0000
Subject: [PATCH 19/20] fix: create the dex module account at genesis

---
 x/dex/keeper/genesis.go         | 3 +++
 x/dex/types/expected_keepers.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/x/dex/keeper/genesis.go b/x/dex/keeper/genesis.go
index 4016079..069d456 100644
--- a/x/dex/keeper/genesis.go
+++ b/x/dex/keeper/genesis.go
@@ -12,6 +12,9 @@ func (k Keeper) InitGenesis(ctx sdk.Context, genState types.GenesisState) {
 	if err := genState.Validate(); err != nil {
 		panic(err)
 	}
+	// Create the module account before any coin can be sent to its address:
+	// a plain account in its place would make minting pool coins panic.
+	k.accountKeeper.GetModuleAccount(ctx, types.ModuleName)
 	k.SetParams(ctx, genState.Params)
 	k.SetLastPairId(ctx, genState.LastPairId)
 	k.SetLastPoolId(ctx, genState.LastPoolId)
diff --git a/x/dex/types/expected_keepers.go b/x/dex/types/expected_keepers.go
index c5be110..4cfd40e 100644
--- a/x/dex/types/expected_keepers.go
+++ b/x/dex/types/expected_keepers.go
@@ -10,6 +10,7 @@ import (
 // AccountKeeper is the expected account keeper
 type AccountKeeper interface {
 	GetModuleAddress(name string) sdk.AccAddress
+	GetModuleAccount(ctx context.Context, name string) sdk.ModuleAccountI
 	GetAccount(ctx context.Context, addr sdk.AccAddress) sdk.AccountI
 }
 
-- 
2.43.0


From 7e4042fc24406f33f89a0a435bb5c9cab5c88fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:35 +0000
Subject: [PATCH 20/20] fix: let the circuit breaker disable messages

---
 app/app.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/app.go b/app/app.go
index a6f48f9..aaa96be 100644
--- a/app/app.go
+++ b/app/app.go
@@ -338,6 +338,10 @@ func New(
 
 	app.App = appBuilder.Build(db, traceStore, baseAppOptions...)
 
+	// Building the app replaces the message router which the circuit breaker
+	// module has been set on.
+	app.SetCircuitBreaker(&app.CircuitBreakerKeeper)
+
 	// Register legacy modules
 	if err := app.registerIBCModules(appOpts); err != nil {
 		panic(err)
-- 
2.43.0

