From 4f2cf89c127f068874fa35983bc12734d242d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 1/7] fix: don't divide by zero when every backstop share is
 queued for withdrawal

With all of a pool's shares queued, updating the emission index divided by
zero, so deposit, queue, dequeue and claim for that pool, and gulp_emissions
for every pool in the reward zone, failed until the emissions expired.
---
 backstop/src/emissions/distributor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/backstop/src/emissions/distributor.rs b/backstop/src/emissions/distributor.rs
index cff6de4..4c2354f 100644
--- a/backstop/src/emissions/distributor.rs
+++ b/backstop/src/emissions/distributor.rs
@@ -81,8 +81,9 @@ pub fn update_emission_data_with_config(
         || e.ledger().timestamp() == emis_data.last_time
         || emis_config.eps == 0
         || pool_balance.shares == 0
+        || pool_balance.shares == pool_balance.q4w
     {
-        // emis_data already updated or expired
+        // emis_data already updated or expired, or there are no shares eligible for emissions
         return emis_data;
     }
 
-- 
2.43.0


From bda6f365305dc3cd4f143700a61e836407625182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 2/7] fix: credit backstop claims that list a pool more than
 once

The second entry overwrote the claimed amount with zero, so the LP tokens
bought with the first claim were never credited to anyone.
---
 backstop/src/emissions/claim.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/backstop/src/emissions/claim.rs b/backstop/src/emissions/claim.rs
index 3218655..04e8539 100644
--- a/backstop/src/emissions/claim.rs
+++ b/backstop/src/emissions/claim.rs
@@ -21,7 +21,9 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
         let claim_amt = claim_emissions(e, &pool_id, &pool_balance, from, &user_balance);
 
         claimed += claim_amt;
-        claims.set(pool_id, claim_amt);
+        // a pool can be listed more than once
+        let prev_claim = claims.get(pool_id.clone()).unwrap_or(0);
+        claims.set(pool_id, prev_claim + claim_amt);
     }
 
     if claimed > 0 {
@@ -52,8 +54,7 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
             &0,
             &e.current_contract_address(),
         );
-        for pool_id in pool_addresses.iter() {
-            let claim_amount = claims.get(pool_id.clone()).unwrap();
+        for (pool_id, claim_amount) in claims.iter() {
             let deposit_amount = lp_tokens_out
                 .fixed_mul_floor(claim_amount, claimed)
                 .unwrap();
-- 
2.43.0


From 3436aa817597780ee1f363f7d77e32c4760bc654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 3/7] fix: settle the recipient's emissions before a backstop
 claim adds shares

Claiming to another address increased that address's shares without first
settling its emissions, so the new shares also earned all emissions since the
recipient's last update.
---
 backstop/src/emissions/claim.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backstop/src/emissions/claim.rs b/backstop/src/emissions/claim.rs
index 04e8539..1322d99 100644
--- a/backstop/src/emissions/claim.rs
+++ b/backstop/src/emissions/claim.rs
@@ -5,7 +5,7 @@ use soroban_sdk::{
     panic_with_error, vec, Address, Env, IntoVal, Map, Symbol, Val, Vec,
 };
 
-use super::distributor::claim_emissions;
+use super::distributor::{claim_emissions, update_emissions};
 
 /// Perform a claim for backstop deposit emissions by a user from the backstop module
 pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to: &Address) -> i128 {
@@ -61,6 +61,9 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
             let mut pool_balance = storage::get_pool_balance(e, &pool_id);
             let mut user_balance = storage::get_user_balance(e, &pool_id, to);
 
+            // settle `to`'s emissions before their shares change
+            update_emissions(e, &pool_id, &pool_balance, to, &user_balance);
+
             // Deposit LP tokens into pool backstop
             let to_mint = pool_balance.convert_to_shares(deposit_amount);
             pool_balance.deposit(deposit_amount, to_mint);
-- 
2.43.0


From 9f2b69da2c9629f8758bae415458f521219434fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:21 +0000
Subject: [PATCH 4/7] fix: allow an interest auction to be filled once its bid
 has scaled to zero

---
 pool/src/auctions/backstop_interest_auction.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pool/src/auctions/backstop_interest_auction.rs b/pool/src/auctions/backstop_interest_auction.rs
index 396683f..76dc06d 100644
--- a/pool/src/auctions/backstop_interest_auction.rs
+++ b/pool/src/auctions/backstop_interest_auction.rs
@@ -83,13 +83,15 @@ pub fn fill_interest_auction(
     }
     let backstop_client = BackstopClient::new(&e, &backstop);
     let backstop_token: Address = backstop_client.backstop_token();
-    let backstop_token_bid_amount = auction_data.bid.get_unchecked(backstop_token);
-
-    backstop_client.donate(
-        &filler,
-        &e.current_contract_address(),
-        &backstop_token_bid_amount,
-    );
+    // the bid is empty once it has scaled down to zero
+    let backstop_token_bid_amount = auction_data.bid.get(backstop_token).unwrap_or(0);
+    if backstop_token_bid_amount > 0 {
+        backstop_client.donate(
+            &filler,
+            &e.current_contract_address(),
+            &backstop_token_bid_amount,
+        );
+    }
 
     // lot contains underlying tokens, but the backstop credit must be updated on the reserve
     for (res_asset_address, lot_amount) in auction_data.lot.iter() {
-- 
2.43.0


From 6589971300fcce10e5d000c64fffd74142fd26c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:21 +0000
Subject: [PATCH 5/7] fix: allow a bad debt auction to be filled while its lot
 is scaled to zero

---
 pool/src/auctions/bad_debt_auction.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pool/src/auctions/bad_debt_auction.rs b/pool/src/auctions/bad_debt_auction.rs
index d01d043..d1b20ee 100644
--- a/pool/src/auctions/bad_debt_auction.rs
+++ b/pool/src/auctions/bad_debt_auction.rs
@@ -87,12 +87,15 @@ pub fn fill_bad_debt_auction(
 
     let backstop_client = BackstopClient::new(e, &backstop_address);
     let backstop_token_id = backstop_client.backstop_token();
-    let lot_amount = auction_data.lot.get(backstop_token_id).unwrap_optimized();
-    backstop_client.draw(
-        &e.current_contract_address(),
-        &lot_amount,
-        &filler_state.address,
-    );
+    // the lot is empty while it has not scaled above zero
+    let lot_amount = auction_data.lot.get(backstop_token_id).unwrap_or(0);
+    if lot_amount > 0 {
+        backstop_client.draw(
+            &e.current_contract_address(),
+            &lot_amount,
+            &filler_state.address,
+        );
+    }
 
     // If the backstop still has liabilities and less than 10% of the backstop threshold burn bad debt
     if !backstop_state.positions.liabilities.is_empty() {
-- 
2.43.0


From fca3a90a8bed11f1c545c719c4f294f820cf1550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:21 +0000
Subject: [PATCH 6/7] fix: count an asset listed twice in an interest auction
 only once

---
 pool/src/auctions/backstop_interest_auction.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pool/src/auctions/backstop_interest_auction.rs b/pool/src/auctions/backstop_interest_auction.rs
index 76dc06d..605a1c5 100644
--- a/pool/src/auctions/backstop_interest_auction.rs
+++ b/pool/src/auctions/backstop_interest_auction.rs
@@ -29,7 +29,9 @@ pub fn create_interest_auction_data(
     for res_asset_address in assets.iter() {
         // don't store updated reserve data back to ledger. This will occur on the the auction's fill.
         let reserve = pool.load_reserve(e, &res_asset_address, false);
-        if reserve.backstop_credit > 0 {
+        // an asset listed twice is only auctioned once
+        if reserve.backstop_credit > 0 && !auction_data.lot.contains_key(res_asset_address.clone())
+        {
             let asset_to_base = pool.load_price(e, &res_asset_address);
             interest_value += i128(asset_to_base)
                 .fixed_mul_floor(reserve.backstop_credit, reserve.scalar)
-- 
2.43.0


From 93fdcbc9dd6a9543f35de003b7cdec0f0c59a7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 7/7] fix: refuse an auction fill percentage that does not fit
 in 64 bits

---
 pool/src/pool/actions.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pool/src/pool/actions.rs b/pool/src/pool/actions.rs
index 5a1845f..c05b9f7 100644
--- a/pool/src/pool/actions.rs
+++ b/pool/src/pool/actions.rs
@@ -1,5 +1,8 @@
+use cast::u64;
 use soroban_sdk::Map;
-use soroban_sdk::{contracttype, panic_with_error, Address, Env, Symbol, Vec};
+use soroban_sdk::{
+    contracttype, panic_with_error, unwrap::UnwrapOptimized, Address, Env, Symbol, Vec,
+};
 
 use crate::{auctions, errors::PoolError, validator::require_nonnegative};
 
@@ -245,7 +248,7 @@ pub fn build_actions_from_request(
                     0,
                     &request.address,
                     &mut from_state,
-                    request.amount as u64,
+                    u64(request.amount).unwrap_optimized(),
                 );
                 check_health = true;
 
@@ -266,7 +269,7 @@ pub fn build_actions_from_request(
                     1,
                     &request.address,
                     &mut from_state,
-                    request.amount as u64,
+                    u64(request.amount).unwrap_optimized(),
                 );
                 check_health = true;
 
@@ -287,7 +290,7 @@ pub fn build_actions_from_request(
                     2,
                     &request.address,
                     &mut from_state,
-                    request.amount as u64,
+                    u64(request.amount).unwrap_optimized(),
                 );
                 e.events().publish(
                     (
-- 
2.43.0

