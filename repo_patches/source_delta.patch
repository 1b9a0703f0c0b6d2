From d586e6588a3dbebaf861a96ffc6867bfa820f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:49 +0000
Subject: [PATCH 1/2] fix: require the market account itself to be rent exempt
 at market creation

InitializeMarket checked every account it was given for rent exemption except
the first one, the market account: a market could be created in an account
that the runtime may later purge, taking the record of all deposits with it.
---
 dex/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dex/src/state.rs b/dex/src/state.rs
index d42f800..942ed20 100644
--- a/dex/src/state.rs
+++ b/dex/src/state.rs
@@ -1636,7 +1636,7 @@ pub(crate) mod account_parser {
                 let rent = Rent::get()?;
 
                 let end_idx = accounts.len() - remaining_accounts.len() - 1;
-                for account in &accounts[1..end_idx] {
+                for account in &accounts[..end_idx] {
                     let data_len = account.data_len();
                     let lamports = account.lamports();
                     check_assert!(rent.is_exempt(lamports, data_len))?;
-- 
2.43.0


From 8ce2f9aaa8b288105068e0dca7afe5a12cd8a07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:21 +0000
Subject: [PATCH 2/2] Guarded access to private crank commands for verification
 harnesses

Compiled only with --cfg serum_verify.
---
 dex/crank/src/lib.rs | 47 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index d33315f..ce06d49 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -1594,3 +1594,50 @@ async fn read_queue_length_loop(
 
     Ok(warp::serve(get_data).run(([127, 0, 0, 1], port)).await)
 }
+
+/// Private commands, for verification harnesses outside this repository.
+#[cfg(serum_verify)]
+pub mod verify_hooks {
+    use super::*;
+
+    pub fn get_keys_for_market(
+        client: &RpcClient,
+        program_id: &Pubkey,
+        market: &Pubkey,
+    ) -> Result<MarketPubkeys> {
+        super::get_keys_for_market(client, program_id, market)
+    }
+
+    pub fn settle_funds(
+        client: &RpcClient,
+        program_id: &Pubkey,
+        payer: &Keypair,
+        state: &MarketPubkeys,
+        signer: Option<&Keypair>,
+        orders: &Pubkey,
+        coin_wallet: &Pubkey,
+        pc_wallet: &Pubkey,
+    ) -> Result<()> {
+        super::settle_funds(
+            client,
+            program_id,
+            payer,
+            state,
+            signer,
+            orders,
+            coin_wallet,
+            pc_wallet,
+        )
+    }
+
+    pub fn consume_events(
+        client: &RpcClient,
+        program_id: &Pubkey,
+        payer: &Keypair,
+        state: &MarketPubkeys,
+        coin_wallet: &Pubkey,
+        pc_wallet: &Pubkey,
+    ) -> Result<()> {
+        super::consume_events(client, program_id, payer, state, coin_wallet, pc_wallet)
+    }
+}
-- 
2.43.0

