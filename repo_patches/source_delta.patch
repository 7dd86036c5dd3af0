From 42f92ae082ade08fa0948599ea130165b8e2d0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 01/10] fix: oracle records the state in force before an
 operation, on top of the last observation

The ring size returned by ObservationState::update was assigned to
observation_cardinality_next, a new slot was extrapolated from its own stale
contents instead of the last observation, and swaps accumulated the tick they
moved to and never advanced observation_index.
---
 programs/core/src/lib.rs           | 12 +++++++++---
 programs/core/src/states/oracle.rs | 15 +++++++++++----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 6c2171a..671d215 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1276,6 +1276,7 @@ pub mod cyclos_core {
         }
         let partition_current_timestamp = cache.block_timestamp / 14;
         let partition_last_timestamp = latest_observation.block_timestamp / 14;
+        let last_observation = *latest_observation;
         drop(latest_observation);
 
         // update tick and write an oracle entry if the tick changes
@@ -1301,14 +1302,17 @@ pub mod cyclos_core {
             } else {
                 last_observation_state.load_mut()?
             };
-            pool.tick = state.tick;
-            pool.observation_cardinality_next = next_observation.update(
+            // the tick and liquidity before the swap were in force until now
+            pool.observation_cardinality = next_observation.update(
+                last_observation,
                 cache.block_timestamp,
                 pool.tick,
                 cache.liquidity_start,
                 pool.observation_cardinality,
                 pool.observation_cardinality_next,
             );
+            pool.observation_index = next_observation.index;
+            pool.tick = state.tick;
         }
         pool.sqrt_price_x32 = state.sqrt_price_x32;
 
@@ -2206,6 +2210,7 @@ pub fn _modify_position<'info>(
             let timestamp = oracle::_block_timestamp();
             let partition_current_timestamp = timestamp / 14;
             let partition_last_timestamp = latest_observation.block_timestamp / 14;
+            let last_observation = *latest_observation;
             drop(latest_observation);
 
             let next_observation_state;
@@ -2224,7 +2229,8 @@ pub fn _modify_position<'info>(
                 last_observation_state.load_mut()?
             };
 
-            pool_state.observation_cardinality_next = new_observation.update(
+            pool_state.observation_cardinality = new_observation.update(
+                last_observation,
                 timestamp,
                 pool_state.tick,
                 pool_state.liquidity,
diff --git a/programs/core/src/states/oracle.rs b/programs/core/src/states/oracle.rs
index 8614b3a..7c0a5ea 100644
--- a/programs/core/src/states/oracle.rs
+++ b/programs/core/src/states/oracle.rs
@@ -78,7 +78,8 @@ impl ObservationState {
     ///
     /// # Arguments
     ///
-    /// * `self` - The observation account to write in
+    /// * `self` - The observation account to write in. Either the last one, or the one that follows it
+    /// * `last` - The most recently written observation
     /// * `block_timestamp` - The timestamp of the new observation
     /// * `tick` - The active tick at the time of the new observation
     /// * `liquidity` - The total in-range liquidity at the time of the new observation
@@ -87,19 +88,25 @@ impl ObservationState {
     ///
     pub fn update(
         &mut self,
+        last: ObservationState,
         block_timestamp: u32,
         tick: i32,
         liquidity: u64,
         cardinality: u16,
         cardinality_next: u16,
     ) -> u16 {
-        if self.block_timestamp == block_timestamp {
+        if last.block_timestamp == block_timestamp {
             return cardinality;
         }
 
-        *self = self.transform(block_timestamp, tick, liquidity);
+        let opens_slot = self.index != last.index;
+        *self = ObservationState {
+            bump: self.bump,
+            index: self.index,
+            ..last.transform(block_timestamp, tick, liquidity)
+        };
 
-        if cardinality_next > cardinality && self.index == (cardinality - 1) {
+        if opens_slot && cardinality_next > cardinality && last.index == (cardinality - 1) {
             cardinality_next
         } else {
             cardinality
-- 
2.43.0


From 610bae2dd7873689807bcbc00dd7dc9db40a82ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:46 +0000
Subject: [PATCH 02/10] fix: BurnEvent reports the upper tick

---
 programs/core/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 671d215..58563c9 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -794,7 +794,7 @@ pub mod cyclos_core {
             pool_state: ctx.accounts.pool_state.key(),
             owner: ctx.accounts.owner.key(),
             tick_lower: tick_lower.tick,
-            tick_upper: tick_lower.tick,
+            tick_upper: tick_upper.tick,
             amount,
             amount_0,
             amount_1,
-- 
2.43.0


From 155fcfbe9eabeadbca6d2932167e396ef71798fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 03/10] fix: exact_input_internal returns the output of the
 swap, not its input

The minimum-output checks compared against the input amount and every later
hop was fed the input of the previous one.
---
 programs/core/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 58563c9..e7cfa9c 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -2097,7 +2097,7 @@ pub fn exact_input_internal<'info>(
     let pool_state = AccountLoader::<PoolState>::try_from(&accounts.pool_state)?;
     let zero_for_one = accounts.input_vault.mint == pool_state.load()?.token_0;
 
-    let balance_before = accounts.input_vault.amount;
+    let balance_before = accounts.output_vault.amount;
     swap(
         Context::new(&ID, accounts, remaining_accounts, BTreeMap::default()),
         i64::try_from(amount_in).unwrap(),
@@ -2112,8 +2112,8 @@ pub fn exact_input_internal<'info>(
         },
     )?;
 
-    accounts.input_vault.reload()?;
-    Ok(accounts.input_vault.amount - balance_before)
+    accounts.output_vault.reload()?;
+    Ok(balance_before - accounts.output_vault.amount)
 }
 
 /// Common checks for a valid tick input.
-- 
2.43.0


From e6481f30bd780e9140d03d4d4fd2f0b56e3e19e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 04/10] fix: decrease_liquidity credits only the burned amounts
 besides the fees of the NFT itself

The fees which the burn credits to the shared core position, including those of
other NFTs on the range, were counted as proceeds of the burned liquidity: they
were credited to the caller, counted for the minimum amounts and reported in
the event.
---
 programs/core/src/lib.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index e7cfa9c..e55c0a5 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1751,8 +1751,7 @@ pub mod cyclos_core {
         let position_state = AccountLoader::<PositionState>::try_from(
             &ctx.accounts.core_position_state.to_account_info(),
         )?;
-        let tokens_owed_0_before = position_state.load()?.tokens_owed_0;
-        let tokens_owed_1_before = position_state.load()?.tokens_owed_1;
+        let core_position_before = *position_state.load()?.deref();
 
         let mut core_position_owner = ctx.accounts.factory_state.to_account_info();
         core_position_owner.is_signer = true;
@@ -1776,8 +1775,20 @@ pub mod cyclos_core {
             liquidity,
         )?;
         let updated_core_position = accounts.position_state.load()?;
-        let amount_0 = updated_core_position.tokens_owed_0 - tokens_owed_0_before;
-        let amount_1 = updated_core_position.tokens_owed_1 - tokens_owed_1_before;
+        // Burning also credits the core position with the fees of every tokenized position on this
+        // range. These are not part of the withdrawn liquidity
+        let fees_0 = (updated_core_position.fee_growth_inside_0_last_x32
+            - core_position_before.fee_growth_inside_0_last_x32)
+            .mul_div_floor(core_position_before.liquidity, fixed_point_32::Q32)
+            .unwrap();
+        let fees_1 = (updated_core_position.fee_growth_inside_1_last_x32
+            - core_position_before.fee_growth_inside_1_last_x32)
+            .mul_div_floor(core_position_before.liquidity, fixed_point_32::Q32)
+            .unwrap();
+        let amount_0 =
+            updated_core_position.tokens_owed_0 - core_position_before.tokens_owed_0 - fees_0;
+        let amount_1 =
+            updated_core_position.tokens_owed_1 - core_position_before.tokens_owed_1 - fees_1;
         require!(
             amount_0 >= amount_0_min && amount_1 >= amount_1_min,
             ErrorCode::PriceSlippageCheck
-- 
2.43.0


From d7a2a9fc60a03f8e318cff1b766b7f1d43c7d897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 05/10] fix: decrease_liquidity is bounded by the liquidity of
 the NFT

The burn is only bounded by the core position, which is shared by all NFTs on the
range, and the subtraction wraps around in release builds.
---
 programs/core/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index e55c0a5..a36b43d 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1799,6 +1799,7 @@ pub mod cyclos_core {
         let fee_growth_inside_1_last_x32 = updated_core_position.fee_growth_inside_1_last_x32;
 
         let mut tokenized_position = ctx.accounts.tokenized_position_state.load_mut()?;
+        assert!(liquidity <= tokenized_position.liquidity);
         tokenized_position.tokens_owed_0 += amount_0
             + (fee_growth_inside_0_last_x32 - tokenized_position.fee_growth_inside_0_last_x32)
                 .mul_div_floor(tokenized_position.liquidity, fixed_point_32::Q32)
-- 
2.43.0


From aa12fd70abf9f2163f20aa170f9d728c465ba068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 06/10] fix: NFT operations require the pool and ticks of the
 NFT

increase_liquidity, decrease_liquidity and collect_from_tokenized never compared
the presented pool and range with those of the tokenized position, so that an
NFT of one range could be used on the pooled liquidity of another.
---
 programs/core/src/lib.rs | 51 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index a36b43d..dd64043 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1703,6 +1703,12 @@ pub mod cyclos_core {
 
         // Update tokenized position metadata
         let mut position = ctx.accounts.tokenized_position_state.load_mut()?;
+        check_tokenized_position(
+            position.deref(),
+            ctx.accounts.pool_state.key(),
+            tick_lower,
+            tick_upper,
+        )?;
         position.tokens_owed_0 += (fee_growth_inside_0_last_x32
             - position.fee_growth_inside_0_last_x32)
             .mul_div_floor(position.liquidity, fixed_point_32::Q32)
@@ -1799,6 +1805,16 @@ pub mod cyclos_core {
         let fee_growth_inside_1_last_x32 = updated_core_position.fee_growth_inside_1_last_x32;
 
         let mut tokenized_position = ctx.accounts.tokenized_position_state.load_mut()?;
+        check_tokenized_position(
+            tokenized_position.deref(),
+            ctx.accounts.pool_state.key(),
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_lower_state)?
+                .load()?
+                .tick,
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_upper_state)?
+                .load()?
+                .tick,
+        )?;
         assert!(liquidity <= tokenized_position.liquidity);
         tokenized_position.tokens_owed_0 += amount_0
             + (fee_growth_inside_0_last_x32 - tokenized_position.fee_growth_inside_0_last_x32)
@@ -1842,6 +1858,16 @@ pub mod cyclos_core {
         assert!(amount_0_max > 0 || amount_1_max > 0);
 
         let mut tokenized_position = ctx.accounts.tokenized_position_state.load_mut()?;
+        check_tokenized_position(
+            tokenized_position.deref(),
+            ctx.accounts.pool_state.key(),
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_lower_state)?
+                .load()?
+                .tick,
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_upper_state)?
+                .load()?
+                .tick,
+        )?;
         let mut tokens_owed_0 = tokenized_position.tokens_owed_0;
         let mut tokens_owed_1 = tokenized_position.tokens_owed_1;
 
@@ -2128,6 +2154,31 @@ pub fn exact_input_internal<'info>(
     Ok(balance_before - accounts.output_vault.amount)
 }
 
+/// Ensures that a tokenized position belongs to the presented pool and ticks. The ticks are
+/// in turn validated against the pool by the core instructions.
+///
+/// # Arguments
+///
+/// * `position` - The tokenized position
+/// * `pool` - The pool presented for it
+/// * `tick_lower` - The lower tick presented for it
+/// * `tick_upper` - The upper tick presented for it
+///
+pub fn check_tokenized_position(
+    position: &states::tokenized_position::TokenizedPositionState,
+    pool: Pubkey,
+    tick_lower: i32,
+    tick_upper: i32,
+) -> Result<()> {
+    require!(
+        position.pool_id == pool
+            && position.tick_lower == tick_lower
+            && position.tick_upper == tick_upper,
+        ErrorCode::NotApproved
+    );
+    Ok(())
+}
+
 /// Common checks for a valid tick input.
 /// A tick is valid iff it lies within tick boundaries and it is a multiple
 /// of tick spacing.
-- 
2.43.0


From 34e9f54342e52d70043bccff0b37e7b2e46531e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 07/10] fix: collect verifies the vaults

Any other token account of the pool was accepted as its vault.
---
 programs/core/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index dd64043..f4b2636 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -854,6 +854,15 @@ pub mod cyclos_core {
             tick_upper.tick,
         )?;
 
+        assert!(
+            ctx.accounts.vault_0.key()
+                == get_associated_token_address(&ctx.accounts.pool_state.key(), &pool.token_0)
+        );
+        assert!(
+            ctx.accounts.vault_1.key()
+                == get_associated_token_address(&ctx.accounts.pool_state.key(), &pool.token_1)
+        );
+
         require!(pool.unlocked, ErrorCode::LOK);
         pool.unlocked = false;
 
-- 
2.43.0


From 46df146b272a1dc63352d375e1a4f628f99e9531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 08/10] fix: the payment check of mint cannot wrap around

In release builds a sufficiently large amount due made the required balance wrap
to a small number.
---
 programs/core/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index f4b2636..936cc4a 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -667,13 +667,13 @@ pub mod cyclos_core {
 
         if amount_0 > 0 {
             require!(
-                balance_0_before + amount_0 <= ctx.accounts.vault_0.amount,
+                balance_0_before.checked_add(amount_0).unwrap() <= ctx.accounts.vault_0.amount,
                 ErrorCode::M0
             );
         }
         if amount_1 > 0 {
             require!(
-                balance_1_before + amount_1 <= ctx.accounts.vault_1.amount,
+                balance_1_before.checked_add(amount_1).unwrap() <= ctx.accounts.vault_1.amount,
                 ErrorCode::M1
             );
         }
-- 
2.43.0


From ec7b043d4bc6076306b998726ef6714570370b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 09/10] fix: the input of a swap step cannot wrap around

In release builds the sum of input and fee of a step could exceed 64 bits and wrap
to a small positive amount due.
---
 programs/core/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 936cc4a..66c6d25 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1190,7 +1190,7 @@ pub mod cyclos_core {
 
             if exact_input {
                 state.amount_specified_remaining -=
-                    i64::try_from(step.amount_in + step.fee_amount).unwrap();
+                    i64::try_from(step.amount_in.checked_add(step.fee_amount).unwrap()).unwrap();
                 state.amount_calculated = state
                     .amount_calculated
                     .checked_sub(i64::try_from(step.amount_out).unwrap())
@@ -1199,7 +1199,7 @@ pub mod cyclos_core {
                 state.amount_specified_remaining += i64::try_from(step.amount_out).unwrap();
                 state.amount_calculated = state
                     .amount_calculated
-                    .checked_add(i64::try_from(step.amount_in + step.fee_amount).unwrap())
+                    .checked_add(i64::try_from(step.amount_in.checked_add(step.fee_amount).unwrap()).unwrap())
                     .unwrap();
             }
 
-- 
2.43.0


From e8d3821e2852df24cbbdb5bdb65eda013661d1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 10/10] fix: lamports sent to the address of the next
 observation account block the oracle's growth

---
 programs/core/src/lib.rs | 58 ++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 66c6d25..e4ba3e1 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -18,7 +18,7 @@ use crate::{
 };
 use anchor_lang::prelude::*;
 use anchor_lang::solana_program;
-use anchor_lang::solana_program::system_instruction::create_account;
+use anchor_lang::solana_program::system_instruction::{allocate, assign, create_account, transfer};
 use anchor_lang::{solana_program::instruction::Instruction, InstructionData};
 use anchor_spl::associated_token::get_associated_token_address;
 use anchor_spl::token;
@@ -225,23 +225,47 @@ pub mod cyclos_core {
             let space = 8 + size_of::<ObservationState>();
             let rent = Rent::get()?;
             let lamports = rent.minimum_balance(space);
-            let ix = create_account(
-                ctx.accounts.payer.key,
-                &ctx.remaining_accounts[i].key,
-                lamports,
-                space as u64,
-                ctx.program_id,
-            );
+            let payer = &ctx.accounts.payer;
+            let observation_account = &ctx.remaining_accounts[i];
+            let account_infos = [
+                payer.to_account_info(),
+                observation_account.to_account_info(),
+                ctx.accounts.system_program.to_account_info(),
+            ];
 
-            solana_program::program::invoke_signed(
-                &ix,
-                &[
-                    ctx.accounts.payer.to_account_info(),
-                    ctx.remaining_accounts[i].to_account_info(),
-                    ctx.accounts.system_program.to_account_info(),
-                ],
-                &[&observation_account_seeds[..]],
-            )?;
+            // Lamports may have been sent to the address beforehand. `create_account` would fail,
+            // letting anyone block the pool's next observation account
+            let balance = observation_account.lamports();
+            if balance == 0 {
+                solana_program::program::invoke_signed(
+                    &create_account(
+                        payer.key,
+                        observation_account.key,
+                        lamports,
+                        space as u64,
+                        ctx.program_id,
+                    ),
+                    &account_infos,
+                    &[&observation_account_seeds[..]],
+                )?;
+            } else {
+                if balance < lamports {
+                    solana_program::program::invoke(
+                        &transfer(payer.key, observation_account.key, lamports - balance),
+                        &account_infos,
+                    )?;
+                }
+                solana_program::program::invoke_signed(
+                    &allocate(observation_account.key, space as u64),
+                    &account_infos,
+                    &[&observation_account_seeds[..]],
+                )?;
+                solana_program::program::invoke_signed(
+                    &assign(observation_account.key, ctx.program_id),
+                    &account_infos,
+                    &[&observation_account_seeds[..]],
+                )?;
+            }
 
             let observation_state_loader = AccountLoader::<ObservationState>::try_from_unchecked(
                 &cyclos_core::id(),
-- 
2.43.0

