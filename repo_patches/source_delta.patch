From 6cadd0786a60b434903be84a874e117f4548879f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:36 +0000
Subject: [PATCH 01/13] fix: list pending withdraws even when an unused address
 holds lamports

fetch_pending_withdraws_for_staker decoded every existing account at the searched addresses, so a
transfer of lamports to any unused pending withdraw address of a staker made the whole listing fail.
---
 rust-client/src/utils/mod.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/rust-client/src/utils/mod.rs b/rust-client/src/utils/mod.rs
index 47bcbba..c1be92b 100644
--- a/rust-client/src/utils/mod.rs
+++ b/rust-client/src/utils/mod.rs
@@ -1,7 +1,7 @@
-use crate::generated::accounts::{fetch_all_maybe_pending_withdraw, fetch_state};
-use crate::generated::shared;
+use crate::generated::accounts::fetch_state;
 use crate::{
     find_orca_vault_address, find_pending_withdraw_pda, find_state_address, PendingWithdraw, State,
+    XORCA_STAKING_PROGRAM_ID,
 };
 use anyhow::Context;
 use solana_client::rpc_client::RpcClient;
@@ -90,16 +90,18 @@ pub fn fetch_pending_withdraws_for_staker(
     }
 
     // Fetch all accounts (including non-existent ones)
-    let maybe_accounts = fetch_all_maybe_pending_withdraw(rpc, &addresses)?;
+    let maybe_accounts = rpc
+        .get_multiple_accounts(&addresses)
+        .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e.to_string()))?;
 
-    // Filter out non-existent accounts and extract the data
-    let pending_withdraws: Vec<PendingWithdraw> = maybe_accounts
+    // Anyone can send lamports to a pending withdraw address that is not in use, so only accounts
+    // owned by the program are pending withdraws
+    let pending_withdraws = maybe_accounts
         .into_iter()
-        .filter_map(|maybe_account| match maybe_account {
-            shared::MaybeAccount::Exists(decoded) => Some(decoded.data),
-            shared::MaybeAccount::NotFound(_) => None,
-        })
-        .collect();
+        .flatten()
+        .filter(|account| account.owner == XORCA_STAKING_PROGRAM_ID)
+        .map(|account| PendingWithdraw::from_bytes(&account.data))
+        .collect::<Result<Vec<PendingWithdraw>, std::io::Error>>()?;
 
     Ok(pending_withdraws)
 }
-- 
2.43.0


From c86a3f40bf2156e0aa6830850bfb8e8250eec881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:56 +0000
Subject: [PATCH 02/13] fix: search more than 100 pending withdraw indices

RPC nodes refuse getMultipleAccounts requests for more than MAX_MULTIPLE_ACCOUNTS (100) addresses,
so searching more than 100 indices always failed.
---
 rust-client/src/utils/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rust-client/src/utils/mod.rs b/rust-client/src/utils/mod.rs
index c1be92b..0dca81f 100644
--- a/rust-client/src/utils/mod.rs
+++ b/rust-client/src/utils/mod.rs
@@ -5,6 +5,7 @@ use crate::{
 };
 use anyhow::Context;
 use solana_client::rpc_client::RpcClient;
+use solana_client::rpc_request::MAX_MULTIPLE_ACCOUNTS;
 use solana_program_error::ProgramError;
 use solana_program_pack::Pack;
 use solana_pubkey::Pubkey;
@@ -90,9 +91,13 @@ pub fn fetch_pending_withdraws_for_staker(
     }
 
     // Fetch all accounts (including non-existent ones)
-    let maybe_accounts = rpc
-        .get_multiple_accounts(&addresses)
-        .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e.to_string()))?;
+    let mut maybe_accounts = Vec::new();
+    for chunk in addresses.chunks(MAX_MULTIPLE_ACCOUNTS) {
+        let accounts = rpc
+            .get_multiple_accounts(chunk)
+            .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e.to_string()))?;
+        maybe_accounts.extend(accounts);
+    }
 
     // Anyone can send lamports to a pending withdraw address that is not in use, so only accounts
     // owned by the program are pending withdraws
-- 
2.43.0


From e3f64342607318b704516f78280ec5cbb8797742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:15 +0000
Subject: [PATCH 03/13] fix: ask for at most 100 accounts per RPC call in the
 JS pending-withdraw listing

---
 js-client/src/utils/index.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/js-client/src/utils/index.ts b/js-client/src/utils/index.ts
index ba17fb8..d4ff841 100644
--- a/js-client/src/utils/index.ts
+++ b/js-client/src/utils/index.ts
@@ -25,6 +25,7 @@ const XORCA_MINT_ADDRESS = 'xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N' as Addr
 
 const DEFAULT_MAX_WITHDRAWALS_TO_SEARCH = 15;
 const WITHDRAW_INDEX_MAX_UINT = 255;
+const MAX_MULTIPLE_ACCOUNTS = 100; // RPC nodes refuse getMultipleAccounts requests for more keys
 
 export async function findStateAddress(): Promise<ProgramDerivedAddress> {
   return await getProgramDerivedAddress({
@@ -95,11 +96,14 @@ export async function fetchPendingWithdrawsForStaker(
       findPendingWithdrawAddress(staker, index).then(([address]) => address)
     )
   );
-  const accounts = await rpc
-    .getMultipleAccounts(pendingWithdrawAddresses, { encoding: 'base64' })
-    .send();
+  const accounts = [];
+  for (let i = 0; i < pendingWithdrawAddresses.length; i += MAX_MULTIPLE_ACCOUNTS) {
+    const chunk = pendingWithdrawAddresses.slice(i, i + MAX_MULTIPLE_ACCOUNTS);
+    const { value } = await rpc.getMultipleAccounts(chunk, { encoding: 'base64' }).send();
+    accounts.push(...value);
+  }
   const [pendingWithdrawDecoder, base64Encoder] = [getPendingWithdrawDecoder(), getBase64Encoder()];
-  const pendingWithdraws = accounts.value
+  const pendingWithdraws = accounts
     .filter((account): account is NonNullable<typeof account> => Boolean(account))
     .map((account) => {
       const dataBytes = base64Encoder.encode(account.data[0]);
-- 
2.43.0


From b9f935fafa4be8d2fa3bb3bc3481e3a501b22da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:46 +0000
Subject: [PATCH 04/13] fix: refuse a withdraw index that is no byte in the
 unstake and withdraw scripts

---
 ts-scripts/unstake.ts  | 6 +++++-
 ts-scripts/withdraw.ts | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ts-scripts/unstake.ts b/ts-scripts/unstake.ts
index 55f9df2..f586246 100644
--- a/ts-scripts/unstake.ts
+++ b/ts-scripts/unstake.ts
@@ -32,7 +32,11 @@ if (args.length < 3) {
 
 const [stakerKeypairPath, xorcaAmountStr, withdrawIndexStr] = args;
 const xorcaAmount = BigInt(xorcaAmountStr);
-const withdrawIndex = parseInt(withdrawIndexStr, 10);
+if (!/^\d+$/.test(withdrawIndexStr) || Number(withdrawIndexStr) > 255) {
+  console.error('❌ Invalid withdraw index! Must be an integer from 0 to 255.');
+  process.exit(1);
+}
+const withdrawIndex = Number(withdrawIndexStr);
 
 console.log('🚀 Starting unstake transaction...');
 console.log(`Staker keypair: ${stakerKeypairPath}`);
diff --git a/ts-scripts/withdraw.ts b/ts-scripts/withdraw.ts
index 8360c3e..a70cb84 100644
--- a/ts-scripts/withdraw.ts
+++ b/ts-scripts/withdraw.ts
@@ -31,7 +31,11 @@ if (args.length < 2) {
 }
 
 const [stakerKeypairPath, withdrawIndexStr] = args;
-const withdrawIndex = parseInt(withdrawIndexStr, 10);
+if (!/^\d+$/.test(withdrawIndexStr) || Number(withdrawIndexStr) > 255) {
+  console.error('❌ Invalid withdraw index! Must be an integer from 0 to 255.');
+  process.exit(1);
+}
+const withdrawIndex = Number(withdrawIndexStr);
 
 console.log('🚀 Starting withdraw transaction...');
 console.log(`Staker keypair: ${stakerKeypairPath}`);
-- 
2.43.0


From 6c3062c43db802ba3a722170b70cb26ee6f87c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:46 +0000
Subject: [PATCH 05/13] fix: read the cool down period exactly in the
 initialize and set scripts

---
 ts-scripts/initialize.ts | 8 ++++++--
 ts-scripts/set.ts        | 6 +++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ts-scripts/initialize.ts b/ts-scripts/initialize.ts
index 410d99d..f2a452d 100644
--- a/ts-scripts/initialize.ts
+++ b/ts-scripts/initialize.ts
@@ -30,7 +30,11 @@ if (args.length < 3) {
 }
 
 const [deployerKeypairPath, updateAuthorityKeypairPath, coolDownPeriodStr] = args;
-const coolDownPeriod = parseInt(coolDownPeriodStr);
+if (!/^-?\d+$/.test(coolDownPeriodStr)) {
+  console.error('❌ Invalid cooldown period! Must be an integer number of seconds.');
+  process.exit(1);
+}
+const coolDownPeriod = BigInt(coolDownPeriodStr);
 
 console.log('🚀 Starting initialize transaction...');
 console.log(`Deployer keypair: ${deployerKeypairPath}`);
@@ -92,7 +96,7 @@ async function main() {
 
     // Write the cool down period as i64 (little-endian)
     const coolDownBuffer = Buffer.alloc(8);
-    coolDownBuffer.writeBigInt64LE(BigInt(coolDownPeriod), 0);
+    coolDownBuffer.writeBigInt64LE(coolDownPeriod, 0);
     instructionData.set(coolDownBuffer, 1);
 
     // Create the initialize instruction
diff --git a/ts-scripts/set.ts b/ts-scripts/set.ts
index 257d103..1cd4dd3 100644
--- a/ts-scripts/set.ts
+++ b/ts-scripts/set.ts
@@ -69,11 +69,11 @@ async function main() {
     let instructionData: Buffer;
 
     if (operation === 'update-cooldown') {
-      const cooldownSeconds = parseInt(value);
-      if (isNaN(cooldownSeconds) || cooldownSeconds < 0) {
+      if (!/^\d+$/.test(value)) {
         console.error('❌ Invalid cooldown period! Must be a non-negative integer.');
         process.exit(1);
       }
+      const cooldownSeconds = BigInt(value);
 
       // Create instruction data for UpdateCoolDownPeriod
       // Discriminator for Set instruction: 4 (based on the enum order: Stake=0, Unstake=1, Withdraw=2, Initialize=3, Set=4)
@@ -81,7 +81,7 @@ async function main() {
       instructionData = Buffer.alloc(10); // 1 byte for Set discriminator + 1 byte for StateUpdateInstruction discriminator + 8 bytes for i64
       instructionData.writeUInt8(4, 0); // Set instruction discriminator
       instructionData.writeUInt8(0, 1); // UpdateCoolDownPeriod discriminator
-      instructionData.writeBigInt64LE(BigInt(cooldownSeconds), 2); // new_cool_down_period_s as little-endian i64
+      instructionData.writeBigInt64LE(cooldownSeconds, 2); // new_cool_down_period_s as little-endian i64
 
       console.log(`Setting cooldown period to: ${cooldownSeconds} seconds`);
     } else if (operation === 'update-authority') {
-- 
2.43.0


From 50ff1777b29de9439b5e384dc34991cbdb157bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:46 +0000
Subject: [PATCH 06/13] fix: read the amount exactly in the
 transfer-orca-to-vault script

---
 ts-scripts/transfer-orca-to-vault.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts-scripts/transfer-orca-to-vault.ts b/ts-scripts/transfer-orca-to-vault.ts
index c01f825..d7fd554 100644
--- a/ts-scripts/transfer-orca-to-vault.ts
+++ b/ts-scripts/transfer-orca-to-vault.ts
@@ -27,7 +27,7 @@ if (args.length < 2) {
 }
 
 const [senderKeypairPath, orcaAmountStr] = args;
-const orcaAmount = BigInt(parseInt(orcaAmountStr));
+const orcaAmount = BigInt(orcaAmountStr);
 
 console.log('🚀 Starting ORCA transfer to vault...');
 console.log(`Sender keypair: ${senderKeypairPath}`);
-- 
2.43.0


From b0b1ce65b9f35a57e38a83d37857591ffb3319a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:46 +0000
Subject: [PATCH 07/13] fix: report what the vault received, not twice the
 amount

---
 ts-scripts/transfer-orca-to-vault.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts-scripts/transfer-orca-to-vault.ts b/ts-scripts/transfer-orca-to-vault.ts
index d7fd554..573bf28 100644
--- a/ts-scripts/transfer-orca-to-vault.ts
+++ b/ts-scripts/transfer-orca-to-vault.ts
@@ -133,7 +133,7 @@ async function main() {
     console.log(`Final sender ORCA balance: ${finalSenderBalance.toString()}`);
     console.log(`Final vault ORCA balance: ${finalVaultBalance.toString()}`);
     console.log(`ORCA transferred: ${orcaAmount.toString()}`);
-    console.log(`Vault received: ${finalVaultBalance - (vaultAccount.amount - orcaAmount)} ORCA`);
+    console.log(`Vault received: ${finalVaultBalance - vaultAccount.amount} ORCA`);
 
     console.log('🎉 Transfer to vault completed successfully!');
   } catch (error) {
-- 
2.43.0


From 736f2de93d70cb87c315e21048d4f81dc6fcee95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:46 +0000
Subject: [PATCH 08/13] fix: show the ORCA to xORCA rate and its inverse the
 right way round in the status script

---
 ts-scripts/README.md | 4 ++--
 ts-scripts/status.ts | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ts-scripts/README.md b/ts-scripts/README.md
index a9cfc31..cbb0203 100644
--- a/ts-scripts/README.md
+++ b/ts-scripts/README.md
@@ -89,8 +89,8 @@ Non-Escrowed ORCA: 498200
 xORCA Total Supply: 150000
 
 🔄 Exchange Rates:
-ORCA → xORCA Rate: 3.3197868088 (1 ORCA = 3.3197868088 xORCA)
-xORCA → ORCA Rate: 0.3012241622 (1 xORCA = 0.3012241622 ORCA)
+ORCA → xORCA Rate: 0.3012241622 (1 ORCA = 0.3012241622 xORCA)
+xORCA → ORCA Rate: 3.3197868088 (1 xORCA = 3.3197868088 ORCA)
 ```
 
 ### 2. Transfer ORCA to Vault Script (`transfer-orca-to-vault.ts`)
diff --git a/ts-scripts/status.ts b/ts-scripts/status.ts
index e02808e..1822250 100644
--- a/ts-scripts/status.ts
+++ b/ts-scripts/status.ts
@@ -109,8 +109,9 @@ async function main() {
       const numerator = nonEscrowedAmount + VIRTUAL_NON_ESCROWED_ORCA_AMOUNT;
       const denominator = xorcaSupply + VIRTUAL_XORCA_SUPPLY;
 
-      const exchangeRate = Number(numerator) / Number(denominator);
-      const inverseExchangeRate = Number(denominator) / Number(numerator);
+      // 1 xORCA redeems for numerator / denominator ORCA
+      const exchangeRate = Number(denominator) / Number(numerator);
+      const inverseExchangeRate = Number(numerator) / Number(denominator);
 
       console.log('🔄 Exchange Rates:');
       console.log(
-- 
2.43.0


From ad724f4e023e21ece4b83a12a621f56334e1ce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:22 +0000
Subject: [PATCH 09/13] fix: label withdrawable amounts as ORCA in the
 pending-withdraws script

---
 ts-scripts/README.md            | 10 +++++-----
 ts-scripts/pending-withdraws.ts |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ts-scripts/README.md b/ts-scripts/README.md
index cbb0203..b96f2e6 100644
--- a/ts-scripts/README.md
+++ b/ts-scripts/README.md
@@ -155,7 +155,7 @@ yarn pending-withdraws BQGjVjG8ZJW4m4hXybjLRB367idYyAHWbyjPBeL2w1hq
 
 #### What the script displays
 
-- **Pending Withdraw Details**: Each pending withdraw with its index, address, and xORCA amount
+- **Pending Withdraw Details**: Each pending withdraw with its index, address, and ORCA amount
 - **Timing Information**: Creation timestamp, time elapsed, and cooldown status
 - **Withdrawal Status**: Whether each withdraw is ready or still in cooldown
 - **Time Calculations**: How long until ready (if in cooldown) or how long since ready (if ready)
@@ -178,7 +178,7 @@ Cool down period: 350000 seconds
 
 1. Pending Withdraw #0
    Address: 7xK8vQ9mN2pL3rT5sW6uY1zA4bC7dE9fG2hJ5kM8nP
-   xORCA Amount: 1000000000
+   ORCA Amount: 1000000000
    Created: 2024-01-15T10:30:00.000Z
    Time Elapsed: 2d 5h 30m
    ✅ Status: READY TO WITHDRAW
@@ -186,7 +186,7 @@ Cool down period: 350000 seconds
 
 2. Pending Withdraw #1
    Address: 9yL7wR8nO3qM4sT6uV2xZ5bD8eF1gH4jK6lN9oQ3rS
-   xORCA Amount: 500000000
+   ORCA Amount: 500000000
    Created: 2024-01-16T14:45:00.000Z
    Time Elapsed: 1d 1h 15m
    ⏳ Status: COOLDOWN ACTIVE
@@ -196,8 +196,8 @@ Cool down period: 350000 seconds
 Total Pending Withdraws: 2
 Ready to Withdraw: 1
 In Cooldown: 1
-Total xORCA Ready: 1000000000
-Total xORCA in Cooldown: 500000000
+Total ORCA Ready: 1000000000
+Total ORCA in Cooldown: 500000000
 ```
 
 ### 4. Initialize Script (`initialize.ts`)
diff --git a/ts-scripts/pending-withdraws.ts b/ts-scripts/pending-withdraws.ts
index 99bae1a..a6edaa5 100644
--- a/ts-scripts/pending-withdraws.ts
+++ b/ts-scripts/pending-withdraws.ts
@@ -139,7 +139,7 @@ async function main() {
     pendingWithdraws.forEach((withdraw, index) => {
       console.log(`\n${index + 1}. Pending Withdraw #${withdraw.index}`);
       console.log(`   Address: ${withdraw.address.toString()}`);
-      console.log(`   xORCA Amount: ${withdraw.xorcaAmount.toString()}`);
+      console.log(`   ORCA Amount: ${withdraw.xorcaAmount.toString()}`);
       // Handle timestamp display safely - show when withdraw was created
       try {
         const createdAtTimestamp = withdraw.timestamp - coolDownPeriodS;
@@ -174,12 +174,12 @@ async function main() {
 
     if (readyWithdraws.length > 0) {
       const totalReadyXorca = readyWithdraws.reduce((sum, w) => sum + w.xorcaAmount, 0n);
-      console.log(`Total xORCA Ready: ${totalReadyXorca.toString()}`);
+      console.log(`Total ORCA Ready: ${totalReadyXorca.toString()}`);
     }
 
     if (cooldownWithdraws.length > 0) {
       const totalCooldownXorca = cooldownWithdraws.reduce((sum, w) => sum + w.xorcaAmount, 0n);
-      console.log(`Total xORCA in Cooldown: ${totalCooldownXorca.toString()}`);
+      console.log(`Total ORCA in Cooldown: ${totalCooldownXorca.toString()}`);
     }
   } catch (error) {
     console.error('❌ Error fetching pending withdraws:', error);
-- 
2.43.0


From 0ba21a7bae67fce73d7f32bac2e13b5a316b8bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:22 +0000
Subject: [PATCH 10/13] fix: do not list pending withdraws as missing when the
 node fails

---
 ts-scripts/pending-withdraws.ts | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/ts-scripts/pending-withdraws.ts b/ts-scripts/pending-withdraws.ts
index a6edaa5..5f4521e 100644
--- a/ts-scripts/pending-withdraws.ts
+++ b/ts-scripts/pending-withdraws.ts
@@ -66,19 +66,19 @@ async function main() {
     const pendingWithdraws = [];
 
     for (let withdrawIndex = 0; withdrawIndex < maxWithdrawalsToSearch; withdrawIndex++) {
+      // Derive pending withdraw account address
+      const [pendingWithdrawAddress] = PublicKey.findProgramAddressSync(
+        [
+          Buffer.from(PENDING_WITHDRAW_SEED),
+          stakerPublicKey.toBuffer(),
+          Buffer.from([withdrawIndex]),
+        ],
+        XORCA_STAKING_PROGRAM_ID
+      );
+
+      // Fetch the account; a failed request must not pass for a missing account
+      const accountInfo = await connection.getAccountInfo(pendingWithdrawAddress);
       try {
-        // Derive pending withdraw account address
-        const [pendingWithdrawAddress] = PublicKey.findProgramAddressSync(
-          [
-            Buffer.from(PENDING_WITHDRAW_SEED),
-            stakerPublicKey.toBuffer(),
-            Buffer.from([withdrawIndex]),
-          ],
-          XORCA_STAKING_PROGRAM_ID
-        );
-
-        // Try to fetch the account
-        const accountInfo = await connection.getAccountInfo(pendingWithdrawAddress);
         if (accountInfo) {
           // Parse pending withdraw data according to the Rust struct:
           // - discriminator: 1 byte
@@ -122,7 +122,7 @@ async function main() {
           });
         }
       } catch (error) {
-        // Account doesn't exist or parsing error, continue searching
+        // Parsing error, continue searching
         continue;
       }
     }
-- 
2.43.0


From 8536afad2f1d91e7cc3fa729809abc697964e98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:24 +0000
Subject: [PATCH 11/13] fix: stake script reports the xORCA it received, not
 the whole balance

---
 ts-scripts/stake.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ts-scripts/stake.ts b/ts-scripts/stake.ts
index d6aa818..79ee464 100644
--- a/ts-scripts/stake.ts
+++ b/ts-scripts/stake.ts
@@ -99,12 +99,15 @@ async function main() {
     console.log('🔍 Checking staker xORCA ATA...');
     const xorcaAtaInfo = await connection.getAccountInfo(stakerXorcaAta);
     let needsXorcaAtaCreation = false;
+    let initialXorcaBalance = BigInt(0);
 
     if (!xorcaAtaInfo) {
       console.log('📝 Staker xORCA ATA does not exist, will be created during transaction');
       needsXorcaAtaCreation = true;
     } else {
       console.log('✅ Staker xORCA ATA exists');
+      const xorcaBalance = await connection.getTokenAccountBalance(stakerXorcaAta);
+      initialXorcaBalance = BigInt(xorcaBalance.value.amount);
     }
 
     // Create the stake instruction manually
@@ -179,7 +182,8 @@ async function main() {
 
     const orcaStaked = BigInt(orcaBalance.value.amount) - BigInt(finalOrcaBalance.value.amount);
     console.log(`ORCA staked: ${orcaStaked.toString()}`);
-    console.log(`xORCA received: ${finalXorcaBalance.value.amount}`);
+    const xorcaReceived = BigInt(finalXorcaBalance.value.amount) - initialXorcaBalance;
+    console.log(`xORCA received: ${xorcaReceived.toString()}`);
   } catch (error) {
     console.error('❌ Error staking ORCA:', error);
     process.exit(1);
-- 
2.43.0


From 0dba5929846fba18f8cd7629f68309003c91a43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:24 +0000
Subject: [PATCH 12/13] fix: unstake script reports the ORCA it received, not
 the whole balance

---
 ts-scripts/unstake.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ts-scripts/unstake.ts b/ts-scripts/unstake.ts
index f586246..b3b9190 100644
--- a/ts-scripts/unstake.ts
+++ b/ts-scripts/unstake.ts
@@ -118,12 +118,15 @@ async function main() {
     console.log('🔍 Checking staker ORCA ATA...');
     const orcaAtaInfo = await connection.getAccountInfo(stakerOrcaAta);
     let needsOrcaAtaCreation = false;
+    let initialStakerOrcaBalance = BigInt(0);
 
     if (!orcaAtaInfo) {
       console.log('📝 Staker ORCA ATA does not exist, will be created during transaction');
       needsOrcaAtaCreation = true;
     } else {
       console.log('✅ Staker ORCA ATA exists');
+      const orcaBalance = await connection.getTokenAccountBalance(stakerOrcaAta);
+      initialStakerOrcaBalance = BigInt(orcaBalance.value.amount);
     }
 
     // Derive pending withdraw account
@@ -217,7 +220,7 @@ async function main() {
     console.log(`Staker's final ORCA balance: ${finalStakerOrcaBalance}`);
 
     const xorcaUnstaked = stakerXorcaBalance - finalStakerXorcaBalance;
-    const orcaReceived = finalStakerOrcaBalance - (stakerXorcaBalance > 0 ? BigInt(0) : BigInt(0));
+    const orcaReceived = finalStakerOrcaBalance - initialStakerOrcaBalance;
     console.log(`xORCA unstaked: ${xorcaUnstaked}`);
     console.log(`ORCA received: ${orcaReceived}`);
   } catch (error) {
-- 
2.43.0


From 946092218a8c100218c48e138bf4a524e9d9eaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:36 +0000
Subject: [PATCH 13/13] fix: unstake script asks for the vault read-only, as
 the program declares it

---
 ts-scripts/unstake.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts-scripts/unstake.ts b/ts-scripts/unstake.ts
index b3b9190..011b3e9 100644
--- a/ts-scripts/unstake.ts
+++ b/ts-scripts/unstake.ts
@@ -158,7 +158,7 @@ async function main() {
         { pubkey: stakerXorcaAta, isSigner: false, isWritable: true }, // unstaker_xorca_ata
         { pubkey: XORCA_MINT_ADDRESS, isSigner: false, isWritable: true }, // xorca_mint_account
         { pubkey: ORCA_MINT_ADDRESS, isSigner: false, isWritable: false }, // orca_mint_account
-        { pubkey: vaultAccount, isSigner: false, isWritable: true }, // vault_account
+        { pubkey: vaultAccount, isSigner: false, isWritable: false }, // vault_account
         { pubkey: SystemProgram.programId, isSigner: false, isWritable: false }, // system_program_account
         { pubkey: TOKEN_PROGRAM_ID, isSigner: false, isWritable: false }, // token_program_account
       ],
-- 
2.43.0

