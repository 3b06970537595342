From 60500d11cb8f520c270754119a857da3fcc990f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 1/6] fix: round the numerator up when the x amount is rounded
 up

get_delta_x(.., rounding_up = true) floored delta_price * liquidity before the
rounded-up division, so an amount owed to the pool could be one unit lower
than the exact value (e.g. price delta 1, liquidity 1 gave 0). get_delta_y
already rounds its numerator up.
---
 calc/math/clamm.rs    | 5 ++---
 sdk/src/wasm/clamm.rs | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/calc/math/clamm.rs b/calc/math/clamm.rs
index 3eacc5a..7b01acf 100644
--- a/calc/math/clamm.rs
+++ b/calc/math/clamm.rs
@@ -142,15 +142,14 @@ pub fn get_delta_x(
     } else {
         sqrt_price_b - sqrt_price_a
     };
-    let nominator = delta_price.big_mul_to_value(liquidity);
 
     ok_or_mark_trace!(match rounding_up {
         true => SqrtPrice::big_div_values_to_token_up(
-            nominator,
+            delta_price.big_mul_to_value_up(liquidity),
             sqrt_price_a.big_mul_to_value(sqrt_price_b),
         ),
         false => SqrtPrice::big_div_values_to_token(
-            nominator,
+            delta_price.big_mul_to_value(liquidity),
             sqrt_price_a.big_mul_to_value_up(sqrt_price_b),
         ),
     })
diff --git a/sdk/src/wasm/clamm.rs b/sdk/src/wasm/clamm.rs
index 92e7278..8c49673 100644
--- a/sdk/src/wasm/clamm.rs
+++ b/sdk/src/wasm/clamm.rs
@@ -172,15 +172,14 @@ pub fn get_delta_x(
     } else {
         sqrt_price_b - sqrt_price_a
     };
-    let nominator = delta_price.big_mul_to_value(liquidity);
 
     ok_or_mark_trace!(match rounding_up {
         true => SqrtPrice::big_div_values_to_token_up(
-            nominator,
+            delta_price.big_mul_to_value_up(liquidity),
             sqrt_price_a.big_mul_to_value(sqrt_price_b),
         ),
         false => SqrtPrice::big_div_values_to_token(
-            nominator,
+            delta_price.big_mul_to_value(liquidity),
             sqrt_price_a.big_mul_to_value_up(sqrt_price_b),
         ),
     })
-- 
2.43.0


From 13da9227b0a465861e03716b14335163f970ccbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 2/6] fix: count the ticks of the last bitmap chunk

liquidity_ticks_count stopped before the chunk of the highest ticks, which
get_tickmap includes.
---
 src/invariant_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/invariant_storage.rs b/src/invariant_storage.rs
index a38a977..74fa58a 100644
--- a/src/invariant_storage.rs
+++ b/src/invariant_storage.rs
@@ -307,7 +307,7 @@ impl Invariant {
 
     pub fn liquidity_ticks_count(&self, pool_key: PoolKey) -> u32 {
         let mut sum = 0;
-        for chunk_index in 0..get_max_chunk(pool_key.fee_tier.tick_spacing) {
+        for chunk_index in 0..=get_max_chunk(pool_key.fee_tier.tick_spacing) {
             if let Some(chunk) = self.tickmap.bitmap.get(&(chunk_index, pool_key)) {
                 sum += chunk.count_ones()
             }
-- 
2.43.0


From ba5fb41f70932e667724356c7f85903df1a79759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 3/6] fix: do not let the number of pools wrap around

In the release profile the 65536th pool wrapped the u16 length to 0, after
which new pools overwrote the registry entries of existing ones.
---
 src/contracts/collections/pool_keys.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/contracts/collections/pool_keys.rs b/src/contracts/collections/pool_keys.rs
index db858e9..a1cfec0 100644
--- a/src/contracts/collections/pool_keys.rs
+++ b/src/contracts/collections/pool_keys.rs
@@ -18,10 +18,12 @@ impl PoolKeys {
             return Err(InvariantError::PoolKeyAlreadyExist);
         }
 
+        let new_length = self.pool_keys_length.checked_add(1).unwrap();
+
         self.pool_keys.insert(*pool_key, self.pool_keys_length);
         self.pool_keys_by_index
             .insert(self.pool_keys_length, *pool_key);
-        self.pool_keys_length += 1;
+        self.pool_keys_length = new_length;
 
         Ok(())
     }
-- 
2.43.0


From 027f2dd688e17c6f70d9e9c9fe81312e1358df9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:39 +0000
Subject: [PATCH 4/6] fix: cross a tick when the rest is more than the active
 liquidity can take or give

Pool::update_tick unwrapped is_enough_amount_to_change_price, which has no
next price to compare when the remaining amount exceeds what the active
liquidity holds. A swap by output that starts in a range of little liquidity
and continues into a larger one was refused with a panic; such an amount
is enough to cross the tick.
---
 src/contracts/storage/pool.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/contracts/storage/pool.rs b/src/contracts/storage/pool.rs
index f8ecacf..b2278d6 100644
--- a/src/contracts/storage/pool.rs
+++ b/src/contracts/storage/pool.rs
@@ -164,14 +164,16 @@ impl Pool {
             return (total_amount, remaining_amount, has_crossed);
         };
 
-        let is_enough_amount_to_cross = unwrap!(is_enough_amount_to_change_price(
+        // there is no next price for more than the active liquidity can take or give, which is enough to cross
+        let is_enough_amount_to_cross = is_enough_amount_to_change_price(
             remaining_amount,
             result.next_sqrt_price,
             self.liquidity,
             fee_tier.fee,
             by_amount_in,
             x_to_y,
-        ));
+        )
+        .unwrap_or(true);
 
         let tick_index = match tick {
             UpdatePoolTick::TickInitialized(tick) => {
-- 
2.43.0


From 209e91ab422aba5faef6b14d48bd43b66b2de506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:36 +0000
Subject: [PATCH 5/6] fix: SDK liquidity helpers refuse a range that takes none
 of the token instead of dividing by zero

---
 sdk/src/wasm/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/src/wasm/math.rs b/sdk/src/wasm/math.rs
index 98c1011..58e43bd 100644
--- a/sdk/src/wasm/math.rs
+++ b/sdk/src/wasm/math.rs
@@ -58,7 +58,7 @@ pub fn get_liquidity_by_x_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> TrackableResult<SingleTokenLiquidity> {
-    if upper_sqrt_price < current_sqrt_price {
+    if upper_sqrt_price <= current_sqrt_price {
         return Err(err!("Upper Sqrt Price < Current Sqrt Price"));
     }
 
@@ -133,7 +133,7 @@ pub fn get_liquidity_by_y_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> TrackableResult<SingleTokenLiquidity> {
-    if current_sqrt_price < lower_sqrt_price {
+    if current_sqrt_price <= lower_sqrt_price {
         return Err(err!("Current Sqrt Price < Lower Sqrt Price"));
     }
 
-- 
2.43.0


From 6245b2359eaf688ba178853925ffb665e509ee81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:51 +0000
Subject: [PATCH 6/6] fix: the SDK client's getUserPositionAmount asks for the
 owner's positions instead of encoding a pool key as the owner

---
 sdk/src/invariant.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sdk/src/invariant.ts b/sdk/src/invariant.ts
index fe50b45..e71aabb 100644
--- a/sdk/src/invariant.ts
+++ b/sdk/src/invariant.ts
@@ -383,10 +383,8 @@ export class Invariant {
     return new Map(result)
   }
 
-  async getUserPositionAmount(key: PoolKey, owner: ActorId): Promise<TokenAmount> {
-    return BigInt(
-      await this.contract.service.getUserPositionAmount(key as any, owner as any, DEFAULT_ADDRESS)
-    )
+  async getUserPositionAmount(owner: ActorId): Promise<bigint> {
+    return BigInt(await this.contract.service.getUserPositionAmount(owner as any, DEFAULT_ADDRESS))
   }
 
   async getPositionTicks(owner: ActorId, offset: bigint): Promise<PositionTick[]> {
-- 
2.43.0

