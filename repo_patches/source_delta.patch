From b6de9570475afb5c895e92f8a1b125b46744bef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 01/12] fix: count liquidity ticks of the last bitmap chunk

---
 src/invariant_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/invariant_storage.rs b/src/invariant_storage.rs
index a38a977..74fa58a 100644
--- a/src/invariant_storage.rs
+++ b/src/invariant_storage.rs
@@ -307,7 +307,7 @@ impl Invariant {
 
     pub fn liquidity_ticks_count(&self, pool_key: PoolKey) -> u32 {
         let mut sum = 0;
-        for chunk_index in 0..get_max_chunk(pool_key.fee_tier.tick_spacing) {
+        for chunk_index in 0..=get_max_chunk(pool_key.fee_tier.tick_spacing) {
             if let Some(chunk) = self.tickmap.bitmap.get(&(chunk_index, pool_key)) {
                 sum += chunk.count_ones()
             }
-- 
2.43.0


From 91431814514ed0c2fd4da0251dacc5f8e414e758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 02/12] fix: treat every error reply of a token as a failed
 transfer

---
 src/invariant_service.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/invariant_service.rs b/src/invariant_service.rs
index 84828a8..3564b91 100644
--- a/src/invariant_service.rs
+++ b/src/invariant_service.rs
@@ -1223,8 +1223,11 @@ fn reply_with_err_and_leave(err: InvariantError) {
 
 pub fn reply_handler(token: ActorId, msg_id: MessageId) {
     let invariant = InvariantStorage::as_mut();
+    // the transfer failed, whatever the payload of the error reply is
+    if msg::reply_code().is_ok_and(|code| code.is_error()) {
+        handle_panic(invariant, token, msg_id)
     // message is a valid reply
-    if let Ok(msg) = msg::load::<(String, String, bool)>() {
+    } else if let Ok(msg) = msg::load::<(String, String, bool)>() {
         if msg.0 == "Vft" && msg.1 == "TransferFrom" {
             handle_valid_reply(invariant, token, msg_id, msg.2)
         } else {
-- 
2.43.0


From 1b9b0c4306b3948afcee6a871f4c235d17b00dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 03/12] fix: keep a timed out transfer so that its late reply
 is accounted

---
 src/invariant_service.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/invariant_service.rs b/src/invariant_service.rs
index 3564b91..5b8553e 100644
--- a/src/invariant_service.rs
+++ b/src/invariant_service.rs
@@ -1189,11 +1189,20 @@ where
         token: ActorId,
         transfer_type: TransferType,
     ) -> Result<(), InvariantError> {
-        if invariant
-            .awaiting_transfers
-            .remove(&(message_id, token))
-            .is_some()
-        {
+        // after a timeout the reply may still arrive, `reply_handler` needs the entry then
+        let timeout = matches!(&message, Err(err) if err.timed_out());
+        let is_awaiting = if timeout {
+            invariant
+                .awaiting_transfers
+                .contains_key(&(message_id, token))
+        } else {
+            invariant
+                .awaiting_transfers
+                .remove(&(message_id, token))
+                .is_some()
+        };
+
+        if is_awaiting {
             return Err(InvariantError::ReplyHandlingFailed);
         }
 
-- 
2.43.0


From e979eb09ebca0342651f558429e5053ca1a25642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 04/12] fix: cross the tick lying on the price limit of an
 upward swap

---
 sdk/src/wasm/collections/tickmap.rs  | 3 ++-
 src/contracts/collections/tickmap.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdk/src/wasm/collections/tickmap.rs b/sdk/src/wasm/collections/tickmap.rs
index 3841b9e..ee7b922 100644
--- a/sdk/src/wasm/collections/tickmap.rs
+++ b/sdk/src/wasm/collections/tickmap.rs
@@ -258,8 +258,9 @@ impl Tickmap {
             Some(index) => {
                 let sqrt_price = calculate_sqrt_price(index).unwrap();
 
+                // a tick lying exactly on the limit has to be crossed when the price goes up
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, true))))
                 } else {
diff --git a/src/contracts/collections/tickmap.rs b/src/contracts/collections/tickmap.rs
index c0cfbae..5e2ed09 100644
--- a/src/contracts/collections/tickmap.rs
+++ b/src/contracts/collections/tickmap.rs
@@ -195,8 +195,9 @@ impl Tickmap {
             Some(index) => {
                 let sqrt_price = calculate_sqrt_price(index).unwrap();
 
+                // a tick lying exactly on the limit has to be crossed when the price goes up
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, true))))
                 } else {
-- 
2.43.0


From d04647a575ed4febb882b3ca25c173d761ecf1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 05/12] fix: do not step back over a tick crossed downwards
 when the price stays on it

---
 sdk/src/wasm/storage/pool.rs  | 9 ++++++++-
 src/contracts/storage/pool.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/sdk/src/wasm/storage/pool.rs b/sdk/src/wasm/storage/pool.rs
index d081737..05aeb09 100644
--- a/sdk/src/wasm/storage/pool.rs
+++ b/sdk/src/wasm/storage/pool.rs
@@ -50,11 +50,18 @@ impl Pool {
         let mut total_amount = TokenAmount::new(U256::from(0));
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            self.current_tick_index = unwrap!(get_tick_at_sqrt_price(
+            let tick_index = unwrap!(get_tick_at_sqrt_price(
                 result.next_sqrt_price,
                 fee_tier.tick_spacing as u16
             )) as i64;
 
+            // the price may still lie on a tick which was already crossed downwards
+            self.current_tick_index = if x_to_y {
+                tick_index.min(self.current_tick_index)
+            } else {
+                tick_index
+            };
+
             return Ok((total_amount, remaining_amount, has_crossed));
         };
 
diff --git a/src/contracts/storage/pool.rs b/src/contracts/storage/pool.rs
index f8ecacf..62693ae 100644
--- a/src/contracts/storage/pool.rs
+++ b/src/contracts/storage/pool.rs
@@ -156,11 +156,18 @@ impl Pool {
         let mut total_amount = TokenAmount::new(U256::from(0));
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            self.current_tick_index = unwrap!(get_tick_at_sqrt_price(
+            let tick_index = unwrap!(get_tick_at_sqrt_price(
                 result.next_sqrt_price,
                 fee_tier.tick_spacing
             ));
 
+            // the price may still lie on a tick which was already crossed downwards
+            self.current_tick_index = if x_to_y {
+                tick_index.min(self.current_tick_index)
+            } else {
+                tick_index
+            };
+
             return (total_amount, remaining_amount, has_crossed);
         };
 
-- 
2.43.0


From d271c92d7a262feb4eab207ba766b12dad8e7cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 06/12] fix: reject wide integers with a small lowest limb when
 downcasting

---
 calc/decimal/decimal_core/src/uint_casts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calc/decimal/decimal_core/src/uint_casts.rs b/calc/decimal/decimal_core/src/uint_casts.rs
index 191dcf7..b1c9064 100644
--- a/calc/decimal/decimal_core/src/uint_casts.rs
+++ b/calc/decimal/decimal_core/src/uint_casts.rs
@@ -253,7 +253,7 @@ pub fn impl_primitive_casts(
             expanded.append_all(quote! {
               impl #checked_cast_trait_name <#uint> for #primitive {
                 fn #checked_cast_function_name(#param_name: #uint)-> Result<#primitive, String> {
-                  if #param_name.0[0] > #primitive::MAX as u64 {
+                  if #param_name > #uint::from(#primitive::MAX) {
                     return Err(#down_cast_error.to_string());
                   }
 
-- 
2.43.0


From 4b8cc327afbf2432121b294181a0632620114c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 07/12] fix: return the offered amount of the limiting token
 from get_liquidity

---
 src/contracts/logic/liquidity_result.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contracts/logic/liquidity_result.rs b/src/contracts/logic/liquidity_result.rs
index 985ce59..7642d29 100644
--- a/src/contracts/logic/liquidity_result.rs
+++ b/src/contracts/logic/liquidity_result.rs
@@ -81,12 +81,12 @@ pub fn get_liquidity(
     Ok(if result_by_y.l < result_by_x.l {
         LiquidityResult {
             x: result_by_y.amount,
-            y: result_by_x.amount,
+            y,
             l: result_by_y.l,
         }
     } else {
         LiquidityResult {
-            x: result_by_y.amount,
+            x,
             y: result_by_x.amount,
             l: result_by_x.l,
         }
-- 
2.43.0


From 3c07fa0066dfaa046b73a629a10ede6ceb67b789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 08/12] fix: refuse liquidity of a token unusable at the price
 instead of dividing by zero

---
 sdk/src/wasm/math.rs                    | 4 ++--
 src/contracts/logic/liquidity_result.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sdk/src/wasm/math.rs b/sdk/src/wasm/math.rs
index 98c1011..58e43bd 100644
--- a/sdk/src/wasm/math.rs
+++ b/sdk/src/wasm/math.rs
@@ -58,7 +58,7 @@ pub fn get_liquidity_by_x_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> TrackableResult<SingleTokenLiquidity> {
-    if upper_sqrt_price < current_sqrt_price {
+    if upper_sqrt_price <= current_sqrt_price {
         return Err(err!("Upper Sqrt Price < Current Sqrt Price"));
     }
 
@@ -133,7 +133,7 @@ pub fn get_liquidity_by_y_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> TrackableResult<SingleTokenLiquidity> {
-    if current_sqrt_price < lower_sqrt_price {
+    if current_sqrt_price <= lower_sqrt_price {
         return Err(err!("Current Sqrt Price < Lower Sqrt Price"));
     }
 
diff --git a/src/contracts/logic/liquidity_result.rs b/src/contracts/logic/liquidity_result.rs
index 7642d29..4e5a1c3 100644
--- a/src/contracts/logic/liquidity_result.rs
+++ b/src/contracts/logic/liquidity_result.rs
@@ -35,7 +35,7 @@ pub fn get_liquidity(
     let lower_sqrt_price = ok_or_mark_trace!(calculate_sqrt_price(lower_tick))?;
     let upper_sqrt_price = ok_or_mark_trace!(calculate_sqrt_price(upper_tick))?;
 
-    if upper_sqrt_price < current_sqrt_price {
+    if upper_sqrt_price <= current_sqrt_price {
         // single token y
         let result_by_y = ok_or_mark_trace!(get_liquidity_by_y_sqrt_price(
             y,
@@ -49,7 +49,7 @@ pub fn get_liquidity(
             y,
             l: result_by_y.l,
         });
-    } else if current_sqrt_price < lower_sqrt_price {
+    } else if current_sqrt_price <= lower_sqrt_price {
         // single token x
         let result_by_x = ok_or_mark_trace!(get_liquidity_by_x_sqrt_price(
             x,
@@ -124,7 +124,7 @@ pub fn get_liquidity_by_x_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> TrackableResult<SingleTokenLiquidity> {
-    if upper_sqrt_price < current_sqrt_price {
+    if upper_sqrt_price <= current_sqrt_price {
         return Err(err!("Upper Sqrt Price < Current Sqrt Price"));
     }
 
@@ -199,7 +199,7 @@ pub fn get_liquidity_by_y_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> TrackableResult<SingleTokenLiquidity> {
-    if current_sqrt_price < lower_sqrt_price {
+    if current_sqrt_price <= lower_sqrt_price {
         return Err(err!("Current Sqrt Price < Lower Sqrt Price"));
     }
 
-- 
2.43.0


From 2477a8aa222920612b4c14ccbdc108f63d603c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:28 +0000
Subject: [PATCH 09/12] fix: keep full precision when computing the token
 amounts of a liquidity

---
 sdk/src/wasm/math.rs                    | 44 ++++++++++++-------------
 src/contracts/logic/liquidity_result.rs | 44 ++++++++++++-------------
 2 files changed, 44 insertions(+), 44 deletions(-)

diff --git a/sdk/src/wasm/math.rs b/sdk/src/wasm/math.rs
index 58e43bd..2805835 100644
--- a/sdk/src/wasm/math.rs
+++ b/sdk/src/wasm/math.rs
@@ -183,16 +183,18 @@ pub fn calculate_x(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> TrackableResult<TokenAmount> {
-    let common = liquidity.big_mul(nominator).big_div(denominator).get();
-
-    Ok(if rounding_up {
-        TokenAmount::new(
-            (common + Liquidity::from_integer(1).get() - U256::from(1))
-                / Liquidity::from_integer(1).get(),
-        )
+    let amount = liquidity.cast::<U512>() * nominator.cast::<U512>();
+    let one = denominator.cast::<U512>() * Liquidity::from_integer(1).cast::<U512>();
+    let amount = if rounding_up {
+        (amount + one - U512::from(1)) / one
     } else {
-        TokenAmount::new(common / Liquidity::from_integer(1).get())
-    })
+        amount / one
+    };
+
+    Ok(TokenAmount::new(
+        TokenAmount::checked_from_value(amount)
+            .map_err(|_| err!("Overflow in calculating amount"))?,
+    ))
 }
 
 pub fn calculate_y(
@@ -200,18 +202,16 @@ pub fn calculate_y(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> TrackableResult<TokenAmount> {
-    let shifted_liquidity = liquidity.get() / Liquidity::from_integer(1).get();
-    Ok(if rounding_up {
-        TokenAmount::new(
-            (sqrt_price_diff.cast::<U256>() * shifted_liquidity
-                + SqrtPrice::from_integer(1).cast::<U256>()
-                - 1)
-                / SqrtPrice::from_integer(1).cast::<U256>(),
-        )
+    let amount = sqrt_price_diff.cast::<U512>() * liquidity.cast::<U512>();
+    let one = SqrtPrice::from_integer(1).cast::<U512>() * Liquidity::from_integer(1).cast::<U512>();
+    let amount = if rounding_up {
+        (amount + one - U512::from(1)) / one
     } else {
-        TokenAmount::new(
-            sqrt_price_diff.cast::<U256>() * shifted_liquidity
-                / SqrtPrice::from_integer(1).cast::<U256>(),
-        )
-    })
+        amount / one
+    };
+
+    Ok(TokenAmount::new(
+        TokenAmount::checked_from_value(amount)
+            .map_err(|_| err!("Overflow in calculating amount"))?,
+    ))
 }
diff --git a/src/contracts/logic/liquidity_result.rs b/src/contracts/logic/liquidity_result.rs
index 4e5a1c3..4b1d429 100644
--- a/src/contracts/logic/liquidity_result.rs
+++ b/src/contracts/logic/liquidity_result.rs
@@ -249,16 +249,18 @@ pub fn calculate_x(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> TrackableResult<TokenAmount> {
-    let common = liquidity.big_mul(nominator).big_div(denominator).get();
-
-    Ok(if rounding_up {
-        TokenAmount::new(
-            (common + Liquidity::from_integer(1).get() - U256::from(1))
-                / Liquidity::from_integer(1).get(),
-        )
+    let amount = liquidity.cast::<U512>() * nominator.cast::<U512>();
+    let one = denominator.cast::<U512>() * Liquidity::from_integer(1).cast::<U512>();
+    let amount = if rounding_up {
+        (amount + one - U512::from(1)) / one
     } else {
-        TokenAmount::new(common / Liquidity::from_integer(1).get())
-    })
+        amount / one
+    };
+
+    Ok(TokenAmount::new(
+        TokenAmount::checked_from_value(amount)
+            .map_err(|_| err!("Overflow in calculating amount"))?,
+    ))
 }
 
 pub fn calculate_y(
@@ -266,20 +268,18 @@ pub fn calculate_y(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> TrackableResult<TokenAmount> {
-    let shifted_liquidity = liquidity.get() / Liquidity::from_integer(1).get();
-    Ok(if rounding_up {
-        TokenAmount::new(
-            (sqrt_price_diff.cast::<U256>() * shifted_liquidity
-                + SqrtPrice::from_integer(1).cast::<U256>()
-                - 1)
-                / SqrtPrice::from_integer(1).cast::<U256>(),
-        )
+    let amount = sqrt_price_diff.cast::<U512>() * liquidity.cast::<U512>();
+    let one = SqrtPrice::from_integer(1).cast::<U512>() * Liquidity::from_integer(1).cast::<U512>();
+    let amount = if rounding_up {
+        (amount + one - U512::from(1)) / one
     } else {
-        TokenAmount::new(
-            sqrt_price_diff.cast::<U256>() * shifted_liquidity
-                / SqrtPrice::from_integer(1).cast::<U256>(),
-        )
-    })
+        amount / one
+    };
+
+    Ok(TokenAmount::new(
+        TokenAmount::checked_from_value(amount)
+            .map_err(|_| err!("Overflow in calculating amount"))?,
+    ))
 }
 
 #[cfg(test)]
-- 
2.43.0


From b84e5ecc3f77cfa16d15f1185a93e679671024c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 10/12] fix: let a swap cross a tick when the remaining amount
 exceeds what the price range holds

---
 src/contracts/storage/pool.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/contracts/storage/pool.rs b/src/contracts/storage/pool.rs
index 62693ae..cb013b3 100644
--- a/src/contracts/storage/pool.rs
+++ b/src/contracts/storage/pool.rs
@@ -171,14 +171,16 @@ impl Pool {
             return (total_amount, remaining_amount, has_crossed);
         };
 
-        let is_enough_amount_to_cross = unwrap!(is_enough_amount_to_change_price(
+        // an amount which would move the price out of its range is enough to change it
+        let is_enough_amount_to_cross = is_enough_amount_to_change_price(
             remaining_amount,
             result.next_sqrt_price,
             self.liquidity,
             fee_tier.fee,
             by_amount_in,
             x_to_y,
-        ));
+        )
+        .unwrap_or(true);
 
         let tick_index = match tick {
             UpdatePoolTick::TickInitialized(tick) => {
-- 
2.43.0


From 670b51e505c0a4704012f8ed6621d16519517f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:01 +0000
Subject: [PATCH 11/12] fix: stop a swap step at its target price when rounding
 would push the price past it

---
 calc/math/clamm.rs    | 10 +++++++++-
 sdk/src/wasm/clamm.rs | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/calc/math/clamm.rs b/calc/math/clamm.rs
index 3eacc5a..73e7357 100644
--- a/calc/math/clamm.rs
+++ b/calc/math/clamm.rs
@@ -48,12 +48,20 @@ pub fn compute_swap_step(
         if amount_after_fee >= amount_in {
             next_sqrt_price = target_sqrt_price
         } else {
-            next_sqrt_price = ok_or_mark_trace!(get_next_sqrt_price_from_input(
+            let reached_sqrt_price = ok_or_mark_trace!(get_next_sqrt_price_from_input(
                 current_sqrt_price,
                 liquidity,
                 amount_after_fee,
                 x_to_y,
             ))?;
+            // amount_in is rounded up, so less than it may be enough to get to the target,
+            // the price must never go past it
+            if x_to_y && reached_sqrt_price < target_sqrt_price {
+                amount_in = amount_after_fee;
+                next_sqrt_price = target_sqrt_price;
+            } else {
+                next_sqrt_price = reached_sqrt_price;
+            }
         };
     } else {
         amount_out = ok_or_mark_trace!(if x_to_y {
diff --git a/sdk/src/wasm/clamm.rs b/sdk/src/wasm/clamm.rs
index 92e7278..ef38880 100644
--- a/sdk/src/wasm/clamm.rs
+++ b/sdk/src/wasm/clamm.rs
@@ -77,12 +77,20 @@ pub fn compute_swap_step(
         if amount_after_fee >= amount_in {
             next_sqrt_price = target_sqrt_price
         } else {
-            next_sqrt_price = ok_or_mark_trace!(get_next_sqrt_price_from_input(
+            let reached_sqrt_price = ok_or_mark_trace!(get_next_sqrt_price_from_input(
                 current_sqrt_price,
                 liquidity,
                 amount_after_fee,
                 x_to_y,
             ))?;
+            // amount_in is rounded up, so less than it may be enough to get to the target,
+            // the price must never go past it
+            if x_to_y && reached_sqrt_price < target_sqrt_price {
+                amount_in = amount_after_fee;
+                next_sqrt_price = target_sqrt_price;
+            } else {
+                next_sqrt_price = reached_sqrt_price;
+            }
         };
     } else {
         amount_out = ok_or_mark_trace!(if x_to_y {
-- 
2.43.0


From 48e434140582a0e806f7ccd108234f744b32bddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:07 +0000
Subject: [PATCH 12/12] fix: never take more than the amount after fee in an
 exact-input swap step

---
 calc/math/clamm.rs    | 8 +++++++-
 sdk/src/wasm/clamm.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/calc/math/clamm.rs b/calc/math/clamm.rs
index 73e7357..eaae9e6 100644
--- a/calc/math/clamm.rs
+++ b/calc/math/clamm.rs
@@ -31,6 +31,7 @@ pub fn compute_swap_step(
 
     let x_to_y = current_sqrt_price >= target_sqrt_price;
     let next_sqrt_price: SqrtPrice;
+    let mut max_amount_in = amount;
     let (mut amount_in, mut amount_out) = (
         TokenAmount::new(U256::from(0)),
         TokenAmount::new(U256::from(0)),
@@ -38,6 +39,7 @@ pub fn compute_swap_step(
 
     if by_amount_in {
         let amount_after_fee = amount.big_mul(Percentage::from_integer(1u8) - fee);
+        max_amount_in = amount_after_fee;
 
         amount_in = ok_or_mark_trace!(if x_to_y {
             get_delta_x(target_sqrt_price, current_sqrt_price, liquidity, true)
@@ -57,7 +59,6 @@ pub fn compute_swap_step(
             // amount_in is rounded up, so less than it may be enough to get to the target,
             // the price must never go past it
             if x_to_y && reached_sqrt_price < target_sqrt_price {
-                amount_in = amount_after_fee;
                 next_sqrt_price = target_sqrt_price;
             } else {
                 next_sqrt_price = reached_sqrt_price;
@@ -120,6 +121,11 @@ pub fn compute_swap_step(
         };
     }
 
+    // Amount in can not exceed amount after fee, it is rounded up more than necessary for low prices
+    if by_amount_in && amount_in > max_amount_in {
+        amount_in = max_amount_in;
+    }
+
     // Amount out can not exceed amount
     if !by_amount_in && amount_out > amount {
         amount_out = amount;
diff --git a/sdk/src/wasm/clamm.rs b/sdk/src/wasm/clamm.rs
index ef38880..dd0ab4f 100644
--- a/sdk/src/wasm/clamm.rs
+++ b/sdk/src/wasm/clamm.rs
@@ -60,6 +60,7 @@ pub fn compute_swap_step(
 
     let x_to_y = current_sqrt_price >= target_sqrt_price;
     let next_sqrt_price: SqrtPrice;
+    let mut max_amount_in = amount;
     let (mut amount_in, mut amount_out) = (
         TokenAmount::new(U256::from(0)),
         TokenAmount::new(U256::from(0)),
@@ -67,6 +68,7 @@ pub fn compute_swap_step(
 
     if by_amount_in {
         let amount_after_fee = amount.big_mul(Percentage::from_integer(1u8) - fee);
+        max_amount_in = amount_after_fee;
 
         amount_in = ok_or_mark_trace!(if x_to_y {
             get_delta_x(target_sqrt_price, current_sqrt_price, liquidity, true)
@@ -86,7 +88,6 @@ pub fn compute_swap_step(
             // amount_in is rounded up, so less than it may be enough to get to the target,
             // the price must never go past it
             if x_to_y && reached_sqrt_price < target_sqrt_price {
-                amount_in = amount_after_fee;
                 next_sqrt_price = target_sqrt_price;
             } else {
                 next_sqrt_price = reached_sqrt_price;
@@ -149,6 +150,11 @@ pub fn compute_swap_step(
         };
     }
 
+    // Amount in can not exceed amount after fee, it is rounded up more than necessary for low prices
+    if by_amount_in && amount_in > max_amount_in {
+        amount_in = max_amount_in;
+    }
+
     // Amount out can not exceed amount
     if !by_amount_in && amount_out > amount {
         amount_out = amount;
-- 
2.43.0

