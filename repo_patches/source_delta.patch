From 7b3b2e28d53bb92b1a0237d024a2fa8c31acdcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:51 +0000
Subject: [PATCH 1/8] fix: cap repeated payments in one debt token by what is
 still owed

A liquidator sending the same debt token twice had every payment capped by the
whole debt, so the seizure was computed for more debt than is repaid.
---
 controller/src/positions/liquidation.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/controller/src/positions/liquidation.rs b/controller/src/positions/liquidation.rs
index 42fe9f1..deb0a97 100644
--- a/controller/src/positions/liquidation.rs
+++ b/controller/src/positions/liquidation.rs
@@ -548,7 +548,13 @@ pub trait PositionLiquidationModule:
         >,
     ) {
         let mut total_repaid = self.ray_zero();
-        let mut repaid_tokens = ManagedVec::new();
+        let mut repaid_tokens: ManagedVec<
+            MultiValue3<
+                EgldOrEsdtTokenPayment,
+                ManagedDecimal<Self::Api, NumDecimals>,
+                PriceFeedShort<Self::Api>,
+            >,
+        > = ManagedVec::new();
         for payment_ref in repayments {
             let token_price_feed = self.token_price(&payment_ref.token_identifier, cache);
             let original_borrow_position =
@@ -560,8 +566,23 @@ pub trait PositionLiquidationModule:
                 self.token_egld_value_ray(&payment_amount_decimal, &token_price_feed.price_wad);
 
             let outstanding_debt_ray = self.total_amount_ray(&original_borrow_position, cache);
-            let outstanding_debt_egld_ray =
+            let mut outstanding_debt_egld_ray =
                 self.token_egld_value_ray(&outstanding_debt_ray, &token_price_feed.price_wad);
+
+            // The same debt token can be sent more than once: only what the earlier payments
+            // leave open is still outstanding.
+            for earlier in repaid_tokens.iter() {
+                let (earlier_payment, earlier_egld_value_ray, _) = earlier.clone().into_tuple();
+                if earlier_payment.token_identifier == payment_ref.token_identifier {
+                    outstanding_debt_egld_ray -= earlier_egld_value_ray;
+                }
+            }
+
+            if outstanding_debt_egld_ray == self.ray_zero() {
+                refunds.push(payment_ref.clone());
+                continue;
+            }
+
             let mut adjusted_payment = payment_ref.clone();
             if payment_egld_value_ray > outstanding_debt_egld_ray {
                 let excess_egld_ray = payment_egld_value_ray - outstanding_debt_egld_ray.clone();
-- 
2.43.0


From f40b1e33c27ba4321073520c489d55b4a86ae7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:55 +0000
Subject: [PATCH 2/8] fix: refuse a liquidation whose payments are worth
 nothing

A payment rounding to a value of zero was taken for an estimation without
payments, and the largest possible seizure was executed for it.
---
 controller/src/positions/liquidation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/controller/src/positions/liquidation.rs b/controller/src/positions/liquidation.rs
index deb0a97..cdf46d7 100644
--- a/controller/src/positions/liquidation.rs
+++ b/controller/src/positions/liquidation.rs
@@ -107,6 +107,12 @@ pub trait PositionLiquidationModule:
             cache,
         );
 
+        // Payments worth nothing would otherwise be treated as an estimation of the maximum
+        require!(
+            debt_payments.is_empty() || debt_payment_in_egld_ray > self.ray_zero(),
+            ERROR_NO_DEBT_PAYMENTS_TO_PROCESS
+        );
+
         let (liquidation_collateral, total_collateral, _) =
             self.calculate_collateral_values(&deposit_positions, cache);
         let (proportional_weighted, bonus_weighted) =
-- 
2.43.0


From a51b5b613dc5b6150d653efca882ee8a5c6a3236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:49 +0000
Subject: [PATCH 3/8] fix: start the isolated debt tracker at the USD scale

The tracker kept the scale of the collateral token, so every increase was cut
to that many decimals.
---
 controller/src/router.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller/src/router.rs b/controller/src/router.rs
index 722bd17..65a525c 100644
--- a/controller/src/router.rs
+++ b/controller/src/router.rs
@@ -200,7 +200,7 @@ pub trait RouterModule:
 
         // Init ManagedDecimal for future usage and avoiding storage decode errors for checks
         self.isolated_asset_debt_usd(&base_asset)
-            .set(self.to_decimal(BigUint::zero(), asset_decimals));
+            .set(self.wad_zero());
 
         require!(
             liquidation_threshold_bps > ltv,
-- 
2.43.0


From 7b51bdf7844bfde97f4b6c62fe9daf7048aea173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:49 +0000
Subject: [PATCH 4/8] fix: borrowing power never exceeds the liquidation
 threshold of a position

A deposit refreshes the loan to value of a position but keeps its threshold, so
after both were raised a loan within the limit was liquidatable at once.
---
 controller/src/utils.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/controller/src/utils.rs b/controller/src/utils.rs
index bb7cb6b..e294b8d 100644
--- a/controller/src/utils.rs
+++ b/controller/src/utils.rs
@@ -215,8 +215,13 @@ pub trait LendingUtilsModule:
                 &position.liquidation_threshold_bps,
                 RAY_PRECISION,
             );
-            ltv_collateral +=
-                self.mul_half_up(&amount_egld, &position.loan_to_value_bps, RAY_PRECISION);
+            // A position's loan to value may be refreshed while its threshold is kept:
+            // borrowing power never exceeds what keeps the account safe.
+            let borrowable_bps = self.min(
+                position.loan_to_value_bps.clone(),
+                position.liquidation_threshold_bps.clone(),
+            );
+            ltv_collateral += self.mul_half_up(&amount_egld, &borrowable_bps, RAY_PRECISION);
         }
 
         (weighted_collateral, total_collateral, ltv_collateral)
-- 
2.43.0


From 04b52df1b836898d5882a7bde4a0ae7df74a9f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 5/8] fix: cap the base liquidation bonus

The weighted bonus of an account holding only assets at the cap can round above
it, and an asset may be configured above it: every liquidation then reverted on
the negative bonus range.
---
 controller/src/helpers/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/controller/src/helpers/mod.rs b/controller/src/helpers/mod.rs
index 812e7c1..3ea1173 100644
--- a/controller/src/helpers/mod.rs
+++ b/controller/src/helpers/mod.rs
@@ -681,6 +681,13 @@ pub trait MathsModule: common_math::SharedMathModule {
     ) {
         let ray = self.ray();
 
+        // The base bonus never exceeds the cap: neither through the rounding of the collateral
+        // weights nor through the configuration of an asset.
+        let max_bonus = self
+            .to_decimal_bps(BigUint::from(MAX_LIQUIDATION_BONUS))
+            .rescale(RAY_PRECISION);
+        let min_bonus = &self.min(min_bonus.clone(), max_bonus);
+
         let target_health_factor_primary_ray =
             ray.clone().into_raw_units() / 50u32 + ray.into_raw_units(); // 1.02 RAY
 
-- 
2.43.0


From b4063901bb78a41da57966e404eb88a519193911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 6/8] fix: announce a market's cash after a strategy loan left
 it

createStrategy emitted the market state before paying the loan out, so its
reserves were too high by the loan.
---
 liquidity_layer/src/liquidity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liquidity_layer/src/liquidity.rs b/liquidity_layer/src/liquidity.rs
index ef2de53..221df2f 100644
--- a/liquidity_layer/src/liquidity.rs
+++ b/liquidity_layer/src/liquidity.rs
@@ -467,11 +467,11 @@ pub trait LiquidityModule:
 
         self.internal_add_protocol_revenue(&mut cache, strategy_fee.clone());
 
-        self.emit_market_update(&cache, price);
-
         // Send the net amount (after fee deduction) to the user
         self.send_asset(&cache, &amount_to_send, &self.blockchain().get_caller());
 
+        self.emit_market_update(&cache, price);
+
         position
     }
 
-- 
2.43.0


From cc9345a34d268202c208f01d5492549051d7f0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 7/8] fix: liquidations no longer move zero amounts of a token

The chain refuses token transfers of nothing, so a liquidation whose excess rounded to zero
units (for example a payment of exactly the estimated amount, rounded up) was reverted.
---
 controller/src/positions/liquidation.rs | 32 +++++++++++++++++--------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/controller/src/positions/liquidation.rs b/controller/src/positions/liquidation.rs
index cdf46d7..bd8bfdb 100644
--- a/controller/src/positions/liquidation.rs
+++ b/controller/src/positions/liquidation.rs
@@ -607,6 +607,11 @@ pub trait PositionLiquidationModule:
                     ));
                 }
 
+                // Nothing of this payment is left after rounding
+                if adjusted_payment.amount == BigUint::zero() {
+                    continue;
+                }
+
                 total_repaid += &outstanding_debt_egld_ray;
                 repaid_tokens.push(
                     (
@@ -907,18 +912,25 @@ pub trait PositionLiquidationModule:
 
             if egld_asset_amount_ray >= remaining_excess {
                 let excess_in_original = self.convert_egld_to_tokens(&remaining_excess, &feed);
-                debt_payment.amount -= excess_in_original.into_raw_units();
+                let excess_units = excess_in_original.into_raw_units().clone();
+                debt_payment.amount -= &excess_units;
                 egld_asset_amount_ray -= &remaining_excess;
 
-                refunds.push(EgldOrEsdtTokenPayment::new(
-                    debt_payment.token_identifier.clone(),
-                    0,
-                    excess_in_original.into_raw_units().clone(),
-                ));
-                let _ = repaid_tokens.set(
-                    current_index,
-                    (debt_payment, egld_asset_amount_ray, feed).into(),
-                );
+                if excess_units > BigUint::zero() {
+                    refunds.push(EgldOrEsdtTokenPayment::new(
+                        debt_payment.token_identifier.clone(),
+                        0,
+                        excess_units,
+                    ));
+                }
+                if debt_payment.amount > BigUint::zero() {
+                    let _ = repaid_tokens.set(
+                        current_index,
+                        (debt_payment, egld_asset_amount_ray, feed).into(),
+                    );
+                } else {
+                    repaid_tokens.remove(current_index);
+                }
 
                 remaining_excess = self.ray_zero();
             } else {
-- 
2.43.0


From c168eb32040474cdec76c95217d984257019a378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:44 +0000
Subject: [PATCH 8/8] fix: keep a market usable after a total write-off

A write-off of at least the whole supply floors the supply index at 1e-27, so a
non-zero scaled supply can be worth nothing; the utilisation of such a market
divided by zero and every operation on it, and on accounts holding it, aborted
for good. Guard the value of the supply, as the views already do.
---
 common/rates/src/rates.rs        | 4 ++++
 liquidity_layer/src/cache/mod.rs | 5 +++--
 liquidity_layer/src/utils.rs     | 5 +++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/common/rates/src/rates.rs b/common/rates/src/rates.rs
index 9dc0e35..395ee3d 100644
--- a/common/rates/src/rates.rs
+++ b/common/rates/src/rates.rs
@@ -203,6 +203,10 @@ pub trait InterestRates: common_math::SharedMathModule {
         if supplied != self.ray_zero() && rewards_increase != self.ray_zero() {
             let total_supplied_with_interest =
                 self.mul_half_up(&supplied, &old_supply_index, RAY_PRECISION);
+            // After a total write-off a non-zero scaled supply can be worth nothing
+            if total_supplied_with_interest == self.ray_zero() {
+                return old_supply_index;
+            }
             let rewards_ratio = self.div_half_up(
                 &rewards_increase,
                 &total_supplied_with_interest,
diff --git a/liquidity_layer/src/cache/mod.rs b/liquidity_layer/src/cache/mod.rs
index d899b48..19ba765 100644
--- a/liquidity_layer/src/cache/mod.rs
+++ b/liquidity_layer/src/cache/mod.rs
@@ -134,11 +134,12 @@ where
     ///
     /// **Security Tip**: Handles division-by-zero by returning 0 when `supplied` is zero.
     pub fn calculate_utilization(&self) -> ManagedDecimal<C::Api, NumDecimals> {
-        if self.supplied_ray == self.sc_ref.ray_zero() {
+        // After a total write-off a non-zero scaled supply can be worth nothing
+        let total_supplied = self.calculate_original_supply_ray(&self.supplied_ray);
+        if total_supplied == self.sc_ref.ray_zero() {
             self.sc_ref.ray_zero()
         } else {
             let total_borrowed = self.calculate_original_borrow_ray(&self.borrowed_ray);
-            let total_supplied = self.calculate_original_supply_ray(&self.supplied_ray);
             self.sc_ref
                 .div_half_up(&total_borrowed, &total_supplied, RAY_PRECISION)
         }
diff --git a/liquidity_layer/src/utils.rs b/liquidity_layer/src/utils.rs
index e9305d3..15c7e1d 100644
--- a/liquidity_layer/src/utils.rs
+++ b/liquidity_layer/src/utils.rs
@@ -75,6 +75,11 @@ pub trait UtilsModule:
         // Calculate remaining value after bad debt
         let remaining_value_ray = total_supplied_value_ray.clone() - capped_bad_debt_ray;
 
+        // Nothing of value is left to share the loss
+        if total_supplied_value_ray == self.ray_zero() {
+            return;
+        }
+
         // Calculate reduction factor: remaining_value / total_value
         let reduction_factor_ray = self.div_half_up(
             &remaining_value_ray,
-- 
2.43.0

