From 5a33547e47d599c4340be59e728a8248e563da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 01/50] fix: load_phonebook returns the entries stored in the
 phonebook file

---
 src/config/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index 09e2001..802cad1 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -629,18 +629,12 @@ struct PhonebookBlackWhiteList {
 /// Returns a phonebook loaded from the provided directory, if it exists.
 // NOTE: We no longer use phonebook for anything but tests, but users should be able to use it
 pub fn load_phonebook(datadir: &str) -> io::Result<Vec<String>> {
-    let entries = Vec::new();
     let path = Path::new(datadir).join(PHONEBOOK_FILENAME);
     let content = fs::read_to_string(path)?;
-    //if os.IsNotExist(rootErr) {
-    //	//don't return error
-    //} else {
-    //phonebook := PhonebookBlackWhiteList{}
-    serde_json::from_str(&content)?;
-    //entries = phonebook.include
+    let phonebook: PhonebookBlackWhiteList = serde_json::from_str(&content)?;
 
     // get an initial list of peers
-    Ok(entries)
+    Ok(phonebook.include)
 }
 
 /// Writes the phonebook into a root/PhonebookFilename file.
-- 
2.43.0


From b2ee8316c13fc63c0ca301ec54924901b36005b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:35 +0000
Subject: [PATCH 02/50] fix: fee_credit requires the minimum fee of every
 transaction except compact certs

---
 src/data/transactions/signed_tx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/transactions/signed_tx.rs b/src/data/transactions/signed_tx.rs
index 9186ff9..d0e743d 100644
--- a/src/data/transactions/signed_tx.rs
+++ b/src/data/transactions/signed_tx.rs
@@ -109,7 +109,7 @@ pub fn fee_credit(tx_group: &[SignedTx], min_fee: u64) -> Result<u64, ()> {
     let mut min_fee_count = 0;
     let mut fees_paid = 0_u64;
     for stxn in tx_group {
-        if let TxFields::CompactCert(_) = stxn.tx.fields {
+        if !matches!(stxn.tx.fields, TxFields::CompactCert(_)) {
             min_fee_count += 1;
         }
         fees_paid = fees_paid.saturating_add(stxn.tx.header.fee.0);
-- 
2.43.0


From 6e69064229dfcfa243c7fd491500184e4af6fe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:36 +0000
Subject: [PATCH 03/50] fix: accept transactions paying exactly the minimum fee

---
 src/data/transactions/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/transactions/transaction.rs b/src/data/transactions/transaction.rs
index abdcaea..ecec9fb 100644
--- a/src/data/transactions/transaction.rs
+++ b/src/data/transactions/transaction.rs
@@ -448,7 +448,7 @@ impl Transaction {
         }
         */
 
-        if !proto.enable_fee_pooling && self.header.fee <= basics::MicroAlgos(proto.min_tx_fee) {
+        if !proto.enable_fee_pooling && self.header.fee < basics::MicroAlgos(proto.min_tx_fee) {
             if let TxFields::CompactCert(_) = &self.fields {
                 // Zero fee allowed for compact cert txn.
             } else {
-- 
2.43.0


From 18efe04acedd82999bfc53f979c684770c030df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 04/50] fix: reject transactions sent by the rewards pool
 instead of panicking

---
 src/data/transactions/errors.rs      | 2 ++
 src/data/transactions/transaction.rs | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/transactions/errors.rs b/src/data/transactions/errors.rs
index e7c4234..8844222 100644
--- a/src/data/transactions/errors.rs
+++ b/src/data/transactions/errors.rs
@@ -44,6 +44,8 @@ pub enum InvalidTx {
     FeeLessThanMin(basics::MicroAlgos, basics::MicroAlgos),
     #[error("transaction sender not set (set to zero)")]
     ZeroSender,
+    #[error("transaction from incentive pool is invalid")]
+    SenderIsRewardsPool,
 
     #[error("bad validty range of {0}-{1}")]
     BadValidityRange(basics::Round, basics::Round),
diff --git a/src/data/transactions/transaction.rs b/src/data/transactions/transaction.rs
index ecec9fb..f43c881 100644
--- a/src/data/transactions/transaction.rs
+++ b/src/data/transactions/transaction.rs
@@ -501,8 +501,8 @@ impl Transaction {
         }
 
         if self.header.sender == spec.rewards_pool {
-            // this check is just to be safe, but reaching here seems impossible, since it requires computing a preimage of rwpool
-            unreachable!("transaction from incentive pool");
+            // A transaction claiming to come from the rewards pool can be submitted by anyone.
+            Err(InvalidTx::SenderIsRewardsPool)
         } else if self.header.sender.is_zero() {
             Err(InvalidTx::ZeroSender)
         } else if !proto.support_transaction_leases && (self.header.lease != [0; 32]) {
-- 
2.43.0


From f50d774a563e56a952ac75a686fb9f8da07f0de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:39 +0000
Subject: [PATCH 05/50] fix: keyreg coherency check does not overflow on the
 largest last valid round

---
 src/data/transactions/keyreg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/transactions/keyreg.rs b/src/data/transactions/keyreg.rs
index ec6c419..149d7a2 100644
--- a/src/data/transactions/keyreg.rs
+++ b/src/data/transactions/keyreg.rs
@@ -45,7 +45,7 @@ impl KeyregFields {
             // going online
             if self.vote_last == basics::Round(0) {
                 return Err(InvalidTx::KeyregGoingOnlineWithZeroVoteLast);
-            } else if self.vote_first.0 > header.last_valid.0 + 1 {
+            } else if self.vote_first.0 > header.last_valid.0.saturating_add(1) {
                 return Err(InvalidTx::KeyregGoingOnlineWithFirstVoteAfterLastValid);
             }
         }
-- 
2.43.0


From d00bb562f2ee0c4a85a2b41c5bb33921caa49493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 06/50] fix: report the expected genesis hash in
 GenesisHashMismatch

---
 src/data/transactions/errors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/transactions/errors.rs b/src/data/transactions/errors.rs
index 8844222..49ca882 100644
--- a/src/data/transactions/errors.rs
+++ b/src/data/transactions/errors.rs
@@ -19,7 +19,7 @@ pub enum InvalidTx {
     },
     #[error("provided genesis ID {0} does not match, expected {1}")]
     GenesisIdMismatch(String, String),
-    #[error("provided genesis hash {0} does not match, expected {0}")]
+    #[error("provided genesis hash {0} does not match, expected {1}")]
     GenesisHashMismatch(CryptoHash, CryptoHash),
     #[error("genesis hash required but missing")]
     GenesisHashMissing,
-- 
2.43.0


From ca44cc5b24729aab631533152e3d31963c508f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:14 +0000
Subject: [PATCH 07/50] fix: applying an upgrade vote no longer modifies the
 previous header

---
 src/data/bookkeeping/block.rs | 54 ++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 692859d..e468bc1 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -232,7 +232,7 @@ impl Block {
 
     /// Constructs a new valid block with an empty payset and an unset seed.
     // TODO document panics or work around unwraps
-    pub fn new(prev: &mut BlockHeader) -> Block {
+    pub fn new(prev: &BlockHeader) -> Block {
         let (upgrade_vote, upgrade_state) = process_upgrade_params(prev).unwrap();
 
         let params = &config::CONSENSUS.0[&upgrade_state.current_protocol];
@@ -353,7 +353,7 @@ impl BlockHeader {
     ///
     /// # Errors
     // TODO document possible errors
-    pub fn pre_check(&self, prev: &mut BlockHeader) -> Result<(), InvalidBlock> {
+    pub fn pre_check(&self, prev: &BlockHeader) -> Result<(), InvalidBlock> {
         // check protocol
         let params = &config::CONSENSUS.0[&self.upgrade_state.current_protocol];
 
@@ -621,13 +621,15 @@ impl UpgradeState {
     /// that is, if UpgradePropose shows up when there is already an active proposal,
     /// or if UpgradeApprove shows up if there is no active proposal being voted on.
     fn apply_upgrade_vote(
-        &mut self,
+        &self,
         round: basics::Round,
         vote: &UpgradeVote,
     ) -> Result<UpgradeState, InvalidBlock> {
         // Locate the config parameters for current protocol
         let params = &config::CONSENSUS.0[&self.current_protocol];
 
+        let mut next_state = self.clone();
+
         // Apply proposal of upgrade to new protocol
         if vote.upgrade_propose != self.current_protocol {
             if self.next_protocol != Some(self.current_protocol) {
@@ -653,10 +655,11 @@ impl UpgradeState {
                 upgrade_delay = params.default_upgrade_wait_rounds;
             }
 
-            self.next_protocol = Some(vote.upgrade_propose);
-            self.next_protocol_approvals = 0;
-            self.next_protocol_vote_before = basics::Round(round.0 + params.upgrade_vote_rounds);
-            self.next_protocol_switch_on =
+            next_state.next_protocol = Some(vote.upgrade_propose);
+            next_state.next_protocol_approvals = 0;
+            next_state.next_protocol_vote_before =
+                basics::Round(round.0 + params.upgrade_vote_rounds);
+            next_state.next_protocol_switch_on =
                 basics::Round(round.0 + params.upgrade_vote_rounds + upgrade_delay);
         } else if vote.upgrade_delay != basics::Round(0) {
             return Err(InvalidBlock::NonZeroDelayWithoutProposal);
@@ -664,47 +667,46 @@ impl UpgradeState {
 
         // Apply approval of existing protocol upgrade
         if vote.upgrade_approve {
-            if self.next_protocol == Some(self.current_protocol) {
+            if next_state.next_protocol == Some(self.current_protocol) {
                 return Err(InvalidBlock::ApprovalNoneActive);
             }
 
-            if round >= self.next_protocol_vote_before {
+            if round >= next_state.next_protocol_vote_before {
                 return Err(InvalidBlock::ApprovalAfterDeadline(
                     round,
-                    self.next_protocol_vote_before,
+                    next_state.next_protocol_vote_before,
                 ));
             }
 
-            self.next_protocol_approvals += 1;
+            next_state.next_protocol_approvals += 1;
         }
 
         // Clear out failed proposal
-        if round == self.next_protocol_vote_before
-            && self.next_protocol_approvals < params.upgrade_threshold
+        if round == next_state.next_protocol_vote_before
+            && next_state.next_protocol_approvals < params.upgrade_threshold
         {
-            self.next_protocol = None;
-            self.next_protocol_approvals = 0;
-            self.next_protocol_vote_before = basics::Round(0);
-            self.next_protocol_switch_on = basics::Round(0);
+            next_state.next_protocol = None;
+            next_state.next_protocol_approvals = 0;
+            next_state.next_protocol_vote_before = basics::Round(0);
+            next_state.next_protocol_switch_on = basics::Round(0);
         }
 
         // Switch over to new approved protocol
-        if round == self.next_protocol_switch_on {
-            self.current_protocol = self.next_protocol.unwrap();
-            self.next_protocol = None;
-            self.next_protocol_approvals = 0;
-            self.next_protocol_vote_before = basics::Round(0);
-            self.next_protocol_switch_on = basics::Round(0);
+        if round == next_state.next_protocol_switch_on {
+            next_state.current_protocol = next_state.next_protocol.unwrap();
+            next_state.next_protocol = None;
+            next_state.next_protocol_approvals = 0;
+            next_state.next_protocol_vote_before = basics::Round(0);
+            next_state.next_protocol_switch_on = basics::Round(0);
         }
 
-        Ok(self.clone())
+        Ok(next_state)
     }
 }
 
 /// Determines our upgrade vote, applies it, and returns the generated `UpgradeVote` and the new `UpgradeState`.
-// TODO should `prev` be mut, ref, or mut ref
 pub fn process_upgrade_params(
-    prev: &mut BlockHeader,
+    prev: &BlockHeader,
 ) -> Result<(UpgradeVote, UpgradeState), InvalidBlock> {
     // Find parameters for current protocol; panic if not supported
     let prev_params = &config::CONSENSUS.0[&prev.upgrade_state.current_protocol];
-- 
2.43.0


From 891659663cceec044c491dc531a5c3c9c02acb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 08/50] fix: an absent upgrade proposal is represented by None
 throughout the upgrade state machine

---
 src/data/bookkeeping/block.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index e468bc1..a1eaeeb 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -632,7 +632,7 @@ impl UpgradeState {
 
         // Apply proposal of upgrade to new protocol
         if vote.upgrade_propose != self.current_protocol {
-            if self.next_protocol != Some(self.current_protocol) {
+            if self.next_protocol.is_some() {
                 return Err(InvalidBlock::CompetingProposal);
             }
 
@@ -667,7 +667,7 @@ impl UpgradeState {
 
         // Apply approval of existing protocol upgrade
         if vote.upgrade_approve {
-            if next_state.next_protocol == Some(self.current_protocol) {
+            if next_state.next_protocol.is_none() {
                 return Err(InvalidBlock::ApprovalNoneActive);
             }
 
@@ -692,12 +692,14 @@ impl UpgradeState {
         }
 
         // Switch over to new approved protocol
-        if round == next_state.next_protocol_switch_on {
-            next_state.current_protocol = next_state.next_protocol.unwrap();
-            next_state.next_protocol = None;
-            next_state.next_protocol_approvals = 0;
-            next_state.next_protocol_vote_before = basics::Round(0);
-            next_state.next_protocol_switch_on = basics::Round(0);
+        if let Some(next_protocol) = next_state.next_protocol {
+            if round == next_state.next_protocol_switch_on {
+                next_state.current_protocol = next_protocol;
+                next_state.next_protocol = None;
+                next_state.next_protocol_approvals = 0;
+                next_state.next_protocol_vote_before = basics::Round(0);
+                next_state.next_protocol_switch_on = basics::Round(0);
+            }
         }
 
         Ok(next_state)
@@ -726,9 +728,10 @@ pub fn process_upgrade_params(
     // If there is a proposal being voted on, see if we approve it
     let round = prev.round + basics::Round(1);
     if round < prev.upgrade_state.next_protocol_vote_before {
-        upgrade_vote.upgrade_approve = prev_params
-            .approved_upgrades
-            .contains_key(&prev.upgrade_state.next_protocol.unwrap());
+        upgrade_vote.upgrade_approve = prev
+            .upgrade_state
+            .next_protocol
+            .map_or(false, |next| prev_params.approved_upgrades.contains_key(&next));
     }
 
     let upgrade_state = prev
-- 
2.43.0


From f4b6d5ea6fcbf9c8531a2247aa9484d5f503fd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:17 +0000
Subject: [PATCH 09/50] fix: a vote without a proposal names the current
 protocol, not the newest one

---
 src/data/bookkeeping/block.rs   | 7 +++++--
 src/data/bookkeeping/genesis.rs | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index a1eaeeb..f0db463 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -713,8 +713,11 @@ pub fn process_upgrade_params(
     // Find parameters for current protocol; panic if not supported
     let prev_params = &config::CONSENSUS.0[&prev.upgrade_state.current_protocol];
 
-    // Decide on the votes for protocol upgrades
-    let mut upgrade_vote = UpgradeVote::default();
+    // Decide on the votes for protocol upgrades (voting for the current protocol proposes nothing)
+    let mut upgrade_vote = UpgradeVote {
+        upgrade_propose: prev.upgrade_state.current_protocol,
+        ..UpgradeVote::default()
+    };
 
     // If there is no upgrade proposal, see if we can make one
     if prev.upgrade_state.next_protocol.is_none() {
diff --git a/src/data/bookkeeping/genesis.rs b/src/data/bookkeeping/genesis.rs
index 12b0b70..6b61d49 100644
--- a/src/data/bookkeeping/genesis.rs
+++ b/src/data/bookkeeping/genesis.rs
@@ -106,7 +106,10 @@ impl Genesis {
                     current_protocol: proto,
                     ..Default::default()
                 },
-                upgrade_vote: UpgradeVote::default(),
+                upgrade_vote: UpgradeVote {
+                    upgrade_propose: proto,
+                    ..Default::default()
+                },
                 ..Default::default()
             },
             payset: transactions::Payset::default(),
-- 
2.43.0


From 34b1644905a95e0105ee051b00965b4b2ace95de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 10/50] fix: the rewards rate is computed from the pool balance
 above the minimum, not the sum of both

---
 src/data/bookkeeping/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index f0db463..ceb2759 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -567,7 +567,7 @@ impl RewardsState {
             }
 
             // it is time to refresh the rewards rate
-            let new_rate = match incentive_pool_balance.0.checked_add(max_spent_over) {
+            let new_rate = match incentive_pool_balance.0.checked_sub(max_spent_over) {
                 Some(n) => n,
                 None => {
                     error!(
-- 
2.43.0


From b100a7537e57aff7e13375480b621ad07097f4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 11/50] fix: the block digest commits to the upgrade state

---
 src/data/bookkeeping/block.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index ceb2759..2211bc4 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -96,7 +96,6 @@ pub struct BlockHeader {
     /// Once a block proposer determines its UpgradeVote, then UpdateState
     /// is updated deterministically based on the previous UpdateState and
     /// the new block's UpgradeVote.
-    #[serde(skip)]
     pub upgrade_state: UpgradeState,
     pub upgrade_vote: UpgradeVote,
 
@@ -155,7 +154,7 @@ pub struct UpgradeVote {
 /// strictly speaking, computable from the history of all UpgradeVotes
 /// but we keep it in the block for explicitness and convenience
 /// (instead of materializing it separately, like balances).
-#[derive(Clone, Default, PartialEq, Eq)]
+#[derive(Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
 pub struct UpgradeState {
     pub current_protocol: protocol::ConsensusVersion,
     pub next_protocol: Option<protocol::ConsensusVersion>,
-- 
2.43.0


From eb4e723b8942fefcc35729c891129fb8c5ee364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:49 +0000
Subject: [PATCH 12/50] fix: a payset that cannot be decoded or committed to is
 an error, not a panic

---
 src/crypto/merklearray/merkle.rs | 8 +++++---
 src/data/bookkeeping/block.rs    | 9 +++++----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/crypto/merklearray/merkle.rs b/src/crypto/merklearray/merkle.rs
index ca72f2c..94f74f3 100644
--- a/src/crypto/merklearray/merkle.rs
+++ b/src/crypto/merklearray/merkle.rs
@@ -42,7 +42,7 @@ impl Tree {
             .0
             .par_iter()
             .map(|stib| {
-                let stad = block.header.decode_signed_tx(stib).unwrap();
+                let stad = block.header.decode_signed_tx(stib).map_err(|_| ())?;
                 let txid = stad.tx.tx.id();
                 let stib = hash_obj(stib);
 
@@ -50,9 +50,11 @@ impl Tree {
                 buf[..HASH_LEN].copy_from_slice(&txid.0 .0);
                 buf[HASH_LEN..].copy_from_slice(&stib.0);
 
-                hash(&[protocol::TX_MERKLE_LEAF.as_bytes(), &buf].concat())
+                Ok(hash(
+                    &[protocol::TX_MERKLE_LEAF.as_bytes(), &buf].concat(),
+                ))
             })
-            .collect();
+            .collect::<Result<Vec<_>, ()>>()?;
 
         let mut tree = Self {
             levels: vec![Layer(leaves)],
diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 2211bc4..34f17fe 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -275,14 +275,15 @@ impl Block {
     /// Computes the commitment to the payset,
     /// using the appropriate commitment plan based on the block's protocol.
     pub fn payset_commit(&self) -> Result<CryptoHash, ()> {
-        let params = &config::CONSENSUS.0[&self.header.upgrade_state.current_protocol];
+        let params = config::CONSENSUS
+            .0
+            .get(&self.header.upgrade_state.current_protocol)
+            .ok_or(())?;
 
         match params.payset_commit {
             config::PaysetCommitType::Flat => Ok(self.payset.commit_flat()),
             config::PaysetCommitType::Merkle => Ok(self.tx_merkle_tree()?.root()),
-            config::PaysetCommitType::Unsupported => {
-                panic!("encountered unsuppported payset commit type")
-            }
+            config::PaysetCommitType::Unsupported => Err(()),
         }
     }
 
-- 
2.43.0


From e4e0709e27c8357dffabd8b3dc62678e756c7f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:51 +0000
Subject: [PATCH 13/50] fix: headers naming an unsupported protocol are
 rejected instead of panicking

---
 src/data/bookkeeping/block.rs  | 28 ++++++++++++++++++----------
 src/data/bookkeeping/errors.rs |  3 +++
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 34f17fe..f2e8ed8 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -275,10 +275,8 @@ impl Block {
     /// Computes the commitment to the payset,
     /// using the appropriate commitment plan based on the block's protocol.
     pub fn payset_commit(&self) -> Result<CryptoHash, ()> {
-        let params = config::CONSENSUS
-            .0
-            .get(&self.header.upgrade_state.current_protocol)
-            .ok_or(())?;
+        let params =
+            consensus_params(&self.header.upgrade_state.current_protocol).map_err(|_| ())?;
 
         match params.payset_commit {
             config::PaysetCommitType::Flat => Ok(self.payset.commit_flat()),
@@ -355,7 +353,7 @@ impl BlockHeader {
     // TODO document possible errors
     pub fn pre_check(&self, prev: &BlockHeader) -> Result<(), InvalidBlock> {
         // check protocol
-        let params = &config::CONSENSUS.0[&self.upgrade_state.current_protocol];
+        let params = consensus_params(&self.upgrade_state.current_protocol)?;
 
         // check round
         let round = basics::Round(prev.round.0 + 1);
@@ -456,7 +454,7 @@ impl BlockHeader {
     ) -> Result<transactions::SignedTxWithAD, InvalidBlock> {
         let mut stad = stb.tx.clone();
 
-        let proto = &config::CONSENSUS.0[&self.upgrade_state.current_protocol];
+        let proto = consensus_params(&self.upgrade_state.current_protocol)?;
         if !proto.support_signed_tx_in_block {
             return Ok(stad);
         }
@@ -494,7 +492,7 @@ impl BlockHeader {
         let mut has_genesis_id = false;
         let mut has_genesis_hash = false;
 
-        let proto = &config::CONSENSUS.0[&self.upgrade_state.current_protocol];
+        let proto = consensus_params(&self.upgrade_state.current_protocol)?;
         if !proto.support_signed_tx_in_block {
             let stad = transactions::SignedTxWithAD { tx: st, ad };
             return Ok(transactions::SignedTxInBlock {
@@ -626,7 +624,7 @@ impl UpgradeState {
         vote: &UpgradeVote,
     ) -> Result<UpgradeState, InvalidBlock> {
         // Locate the config parameters for current protocol
-        let params = &config::CONSENSUS.0[&self.current_protocol];
+        let params = consensus_params(&self.current_protocol)?;
 
         let mut next_state = self.clone();
 
@@ -706,12 +704,22 @@ impl UpgradeState {
     }
 }
 
+/// Looks up the parameters of a protocol version, which may be one this node does not support.
+fn consensus_params(
+    version: &protocol::ConsensusVersion,
+) -> Result<&'static config::ConsensusParams, InvalidBlock> {
+    config::CONSENSUS
+        .0
+        .get(version)
+        .ok_or(InvalidBlock::UnsupportedProtocol(*version))
+}
+
 /// Determines our upgrade vote, applies it, and returns the generated `UpgradeVote` and the new `UpgradeState`.
 pub fn process_upgrade_params(
     prev: &BlockHeader,
 ) -> Result<(UpgradeVote, UpgradeState), InvalidBlock> {
-    // Find parameters for current protocol; panic if not supported
-    let prev_params = &config::CONSENSUS.0[&prev.upgrade_state.current_protocol];
+    // Find parameters for current protocol
+    let prev_params = consensus_params(&prev.upgrade_state.current_protocol)?;
 
     // Decide on the votes for protocol upgrades (voting for the current protocol proposes nothing)
     let mut upgrade_vote = UpgradeVote {
diff --git a/src/data/bookkeeping/errors.rs b/src/data/bookkeeping/errors.rs
index 7fc2aef..6663187 100644
--- a/src/data/bookkeeping/errors.rs
+++ b/src/data/bookkeeping/errors.rs
@@ -5,6 +5,7 @@ use thiserror::Error;
 
 use crate::crypto::CryptoHash;
 use crate::data::basics;
+use crate::protocol::ConsensusVersion;
 
 #[derive(Debug, PartialEq, Eq, Error)]
 pub enum InvalidBlock {
@@ -16,6 +17,8 @@ pub enum InvalidBlock {
         last_valid: basics::Round,
     },
 
+    #[error("protocol version {0} is not supported")]
+    UnsupportedProtocol(ConsensusVersion),
     #[error("block is for round {0}, expected round {1}")]
     WrongRound(basics::Round, basics::Round),
     #[error("block is following block with hash {0}, expected prev to be {1}")]
-- 
2.43.0


From 595d364e95601b99fd5946360965efb654154a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:07 +0000
Subject: [PATCH 14/50] fix: currency, reward and round arithmetic no longer
 wraps around in release builds

---
 src/data/basics/units.rs        | 15 +++++++--
 src/data/basics/user_balance.rs | 58 +++++++++++++--------------------
 2 files changed, 34 insertions(+), 39 deletions(-)

diff --git a/src/data/basics/units.rs b/src/data/basics/units.rs
index 3be9100..56fb045 100644
--- a/src/data/basics/units.rs
+++ b/src/data/basics/units.rs
@@ -56,8 +56,13 @@ impl fmt::Display for MicroAlgos {
 impl Add for MicroAlgos {
     type Output = Self;
 
+    /// Panics on overflow, in every build profile.
     fn add(self, other: Self) -> Self {
-        Self(self.0 + other.0)
+        Self(
+            self.0
+                .checked_add(other.0)
+                .expect("overflow adding MicroAlgos"),
+        )
     }
 }
 
@@ -88,15 +93,19 @@ impl Round {
 
     /// Rounds up round number to the next multiple of r.
     fn round_up_to_multiple_of(&self, r: Self) -> Self {
-        Self((self.0 + r.0 - 1) / r.0 * r.0)
+        match self.0 % r.0 {
+            0 => *self,
+            rem => *self + Self(r.0 - rem),
+        }
     }
 }
 
 impl Add for Round {
     type Output = Self;
 
+    /// Panics on overflow, in every build profile.
     fn add(self, other: Self) -> Self {
-        Self(self.0 + other.0)
+        Self(self.0.checked_add(other.0).expect("overflow adding Rounds"))
     }
 }
 
diff --git a/src/data/basics/user_balance.rs b/src/data/basics/user_balance.rs
index 26ae790..2781060 100644
--- a/src/data/basics/user_balance.rs
+++ b/src/data/basics/user_balance.rs
@@ -385,8 +385,14 @@ impl AccountData {
         rewards_level: u64,
     ) -> MicroAlgos {
         let rewards_units = micro_algos.reward_units(&proto);
-        let rewards_delta = rewards_level - rewards_base;
-        MicroAlgos(rewards_units * rewards_delta)
+        let rewards_delta = rewards_level
+            .checked_sub(rewards_base)
+            .expect("rewards level below the account's rewards base");
+        MicroAlgos(
+            rewards_units
+                .checked_mul(rewards_delta)
+                .expect("overflow computing pending rewards"),
+        )
     }
 
     /// Returns an updated number of algos in an `AccountData` to reflect rewards up to some rewards level.
@@ -399,9 +405,15 @@ impl AccountData {
         let mut ad = self.clone();
         if ad.status != Status::NotParticipating {
             let rewards_units = ad.micro_algos.reward_units(proto);
-            let rewards_delta = rewards_level - ad.rewards_base;
-            let rewards = MicroAlgos(rewards_units * rewards_delta);
-            ad.micro_algos = MicroAlgos(ad.micro_algos.0 + rewards.0);
+            let rewards_delta = rewards_level
+                .checked_sub(ad.rewards_base)
+                .expect("rewards level below the account's rewards base");
+            let rewards = MicroAlgos(
+                rewards_units
+                    .checked_mul(rewards_delta)
+                    .expect("overflow computing rewards"),
+            );
+            ad.micro_algos = ad.micro_algos + rewards;
             ad.rewards_base = rewards_level;
             // The total reward over the lifetime of the account could exceed a 64-bit value. As a result
             // this reward_algos counter could potentially roll over.
@@ -497,42 +509,16 @@ impl AccountData {
 
         // If this account had one RewardUnit of microAlgos in round 0,
         // it would have per_reward_unit microAlgos at the account's current rewards level.
-        let per_reward_unit = self.rewards_base + proto.reward_unit;
+        let per_reward_unit = u128::from(self.rewards_base) + u128::from(proto.reward_unit);
 
         // To normalize, we compute, mathematically,
         // `u.MicroAlgos / perRewardUnit * proto.RewardUnit`, as
         // `(u.MicroAlgos * proto.RewardUnit) / perRewardUnit`.
-        //norm, overflowed = Muldiv(self.micro_algos.to_u64(), proto.reward_unit, per_reward_unit)?
-        let norm = self.micro_algos.to_u64().checked_mul(proto.reward_unit);
-
-        // Mathematically should be impossible to overflow because `per_reward_unit >= proto.reward_unit`,
-        // as long as `self.reward_base` isn't huge enough to cause overflow.
-        if norm.is_none() {
-            // TODO use logger
-            panic!(
-                "overflow computing normalized balance {} * {} / ({} + {})",
-                self.micro_algos.to_u64(),
-                proto.reward_unit,
-                self.rewards_base,
-                proto.reward_unit
-            );
-        }
+        let norm = u128::from(self.micro_algos.to_u64()) * u128::from(proto.reward_unit)
+            / per_reward_unit;
 
-        match norm.unwrap().checked_div(per_reward_unit) {
-            // Mathematically should be impossible to overflow because `per_reward_unit >= proto.reward_unit`,
-            // as long as `self.reward_base` isn't huge enough to cause overflow.
-            None => {
-                // TODO use logger
-                panic!(
-                    "overflow computing normalized balance {} * {} / ({} + {})",
-                    self.micro_algos.to_u64(),
-                    proto.reward_unit,
-                    self.rewards_base,
-                    proto.reward_unit
-                );
-            }
-            Some(n) => n,
-        }
+        // Mathematically impossible to overflow because `per_reward_unit >= proto.reward_unit`.
+        u64::try_from(norm).expect("overflow computing normalized balance")
     }
 }
 
-- 
2.43.0


From 1da533a2f25ab25f87350c5226dc2c08535e6ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:07 +0000
Subject: [PATCH 15/50] fix: header arithmetic does not overflow on extreme
 rounds and timestamps

---
 src/data/bookkeeping/block.rs  | 31 +++++++++++++++++++++----------
 src/data/bookkeeping/errors.rs |  2 ++
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index f2e8ed8..435cf03 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -243,15 +243,18 @@ impl Block {
         if prev.timestamp > 0 {
             if timestamp < prev.timestamp {
                 timestamp = prev.timestamp;
-            } else if timestamp > prev.timestamp + params.max_timestamp_increment {
-                timestamp = prev.timestamp + params.max_timestamp_increment;
+            } else {
+                let latest = prev
+                    .timestamp
+                    .saturating_add(params.max_timestamp_increment);
+                timestamp = timestamp.min(latest);
             }
         }
 
         // the merkle root of TXs will update when fillpayset is called
         let mut blk = Block {
             header: BlockHeader {
-                round: basics::Round(prev.round.0 + 1),
+                round: prev.round + basics::Round(1),
                 branch: hash_obj(prev),
                 upgrade_vote,
                 upgrade_state,
@@ -356,7 +359,10 @@ impl BlockHeader {
         let params = consensus_params(&self.upgrade_state.current_protocol)?;
 
         // check round
-        let round = basics::Round(prev.round.0 + 1);
+        let round = match prev.round.0.checked_add(1) {
+            Some(round) => basics::Round(round),
+            None => return Err(InvalidBlock::NoNextRound(prev.round)),
+        };
         if round != self.round {
             return Err(InvalidBlock::WrongRound(round, self.round));
         }
@@ -387,7 +393,11 @@ impl BlockHeader {
                     self.timestamp,
                     prev.timestamp,
                 ));
-            } else if self.timestamp > prev.timestamp + params.max_timestamp_increment {
+            } else if self.timestamp
+                > prev
+                    .timestamp
+                    .saturating_add(params.max_timestamp_increment)
+            {
                 return Err(InvalidBlock::BadLateTimestamp(
                     self.timestamp,
                     prev.timestamp,
@@ -441,7 +451,7 @@ impl BlockHeader {
         } else {
             (
                 Some(self.upgrade_state.current_protocol),
-                basics::Round(self.round.0 + 1),
+                self.round + basics::Round(1),
                 true,
             )
         }
@@ -655,10 +665,10 @@ impl UpgradeState {
 
             next_state.next_protocol = Some(vote.upgrade_propose);
             next_state.next_protocol_approvals = 0;
-            next_state.next_protocol_vote_before =
-                basics::Round(round.0 + params.upgrade_vote_rounds);
+            let vote_before = round.0.saturating_add(params.upgrade_vote_rounds);
+            next_state.next_protocol_vote_before = basics::Round(vote_before);
             next_state.next_protocol_switch_on =
-                basics::Round(round.0 + params.upgrade_vote_rounds + upgrade_delay);
+                basics::Round(vote_before.saturating_add(upgrade_delay));
         } else if vote.upgrade_delay != basics::Round(0) {
             return Err(InvalidBlock::NonZeroDelayWithoutProposal);
         }
@@ -676,7 +686,8 @@ impl UpgradeState {
                 ));
             }
 
-            next_state.next_protocol_approvals += 1;
+            next_state.next_protocol_approvals =
+                next_state.next_protocol_approvals.saturating_add(1);
         }
 
         // Clear out failed proposal
diff --git a/src/data/bookkeeping/errors.rs b/src/data/bookkeeping/errors.rs
index 6663187..2f5c897 100644
--- a/src/data/bookkeeping/errors.rs
+++ b/src/data/bookkeeping/errors.rs
@@ -21,6 +21,8 @@ pub enum InvalidBlock {
     UnsupportedProtocol(ConsensusVersion),
     #[error("block is for round {0}, expected round {1}")]
     WrongRound(basics::Round, basics::Round),
+    #[error("no round can follow round {0}")]
+    NoNextRound(basics::Round),
     #[error("block is following block with hash {0}, expected prev to be {1}")]
     WrongBranch(CryptoHash, CryptoHash),
     #[error("invalid upgrade state")]
-- 
2.43.0


From efda3bc767f7fb3201f57a92c562239c000d180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:15 +0000
Subject: [PATCH 16/50] fix: encode field names so that objects differing in
 one field never share an encoding

---
 src/protocol/codec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protocol/codec.rs b/src/protocol/codec.rs
index c8cabef..eff33bb 100644
--- a/src/protocol/codec.rs
+++ b/src/protocol/codec.rs
@@ -3,8 +3,10 @@
 
 use serde::{Deserialize, Serialize};
 
+/// Encodes structs as maps from field names to values,
+/// so that leaving out default values does not make the encoding ambiguous.
 pub fn encode(x: &impl Serialize) -> Vec<u8> {
-    rmp_serde::to_vec(x).unwrap()
+    rmp_serde::to_vec_named(x).unwrap()
 }
 
 pub fn decode<'a, T: Deserialize<'a>>(bytes: &'a [u8]) -> Result<T, rmp_serde::decode::Error> {
-- 
2.43.0


From e8fe0366f42c7e9f9503c7f87335ef500fe92261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:17 +0000
Subject: [PATCH 17/50] fix: the hashed credential commits to the raw VRF
 output

---
 src/crypto/vrf.rs                | 8 +++++++-
 src/data/committee/credential.rs | 5 ++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/crypto/vrf.rs b/src/crypto/vrf.rs
index aa0477e..9691055 100644
--- a/src/crypto/vrf.rs
+++ b/src/crypto/vrf.rs
@@ -15,7 +15,7 @@ use curve25519_dalek::{
 use data_encoding::BASE64;
 use ed25519_dalek::{ExpandedSecretKey, PublicKey, SecretKey};
 use generic_array::GenericArray;
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Serialize, Serializer};
 use sha2::{Digest, Sha512};
 use thiserror::Error;
 
@@ -196,6 +196,12 @@ impl AsRef<[u8]> for VrfProof {
     }
 }
 
+impl Serialize for VrfOutput {
+    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+        serializer.serialize_bytes(&self.0)
+    }
+}
+
 impl Default for VrfOutput {
     fn default() -> Self {
         VrfOutput([0; 64])
diff --git a/src/data/committee/credential.rs b/src/data/committee/credential.rs
index fe2db50..75e9842 100644
--- a/src/data/committee/credential.rs
+++ b/src/data/committee/credential.rs
@@ -2,7 +2,7 @@
 // Distributed under terms of the MIT license.
 
 use num::bigint::{BigInt, Sign};
-use serde::{Deserialize, Serialize};
+use serde::Serialize;
 use thiserror::Error;
 
 use super::{sortition, Membership, Selector};
@@ -46,10 +46,9 @@ pub struct Credential {
     inner: UnauthenticatedCredential,
 }
 
-#[derive(Serialize, Deserialize)]
+#[derive(Serialize)]
 struct HashableCredential {
     //_struct struct{}         `codec:",omitempty,omitemptyarray"`
-    #[serde(skip)]
     raw_out: crypto::VrfOutput,
     member: basics::Address,
     iter: u64,
-- 
2.43.0


From b3e4c73fe383a608a64e22df0d64e156d19d2d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:19 +0000
Subject: [PATCH 18/50] fix: lowest_output considers every iteration up to the
 weight

---
 src/data/committee/credential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/committee/credential.rs b/src/data/committee/credential.rs
index 75e9842..897fdea 100644
--- a/src/data/committee/credential.rs
+++ b/src/data/committee/credential.rs
@@ -169,7 +169,7 @@ impl Credential {
         // significant disadvantage because UnauthenticatedCredential.Verify
         // wants the hash to be large but tiebreaking between proposals wants
         // the hash to be small.
-        for i in 1..self.weight {
+        for i in 1..=self.weight {
             let h: crypto::CryptoHash;
             if self.domain_separation_enabled {
                 self.hashable.as_mut().unwrap().iter = i;
-- 
2.43.0


From b88b1a58717a83e37af6a56f5c921bb856b3c5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:42 +0000
Subject: [PATCH 19/50] fix: the balance record digest commits to the record

---
 src/data/basics/user_balance.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/data/basics/user_balance.rs b/src/data/basics/user_balance.rs
index 2781060..da16c69 100644
--- a/src/data/basics/user_balance.rs
+++ b/src/data/basics/user_balance.rs
@@ -531,9 +531,7 @@ struct BalanceRecord {
 
 impl Hashable for BalanceRecord {
     fn to_be_hashed(&self) -> (protocol::HashID, Vec<u8>) {
-        // TODO implement protocol::codec
-        //(protocol::BALANCE_RECORD, protocol::encode(&self))
-        (protocol::BALANCE_RECORD, Vec::new())
+        (protocol::BALANCE_RECORD, protocol::encode(&self))
     }
 }
 
-- 
2.43.0


From cf6c2073a14231176b1bb46a738432553a6a0a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 20/50] fix: maps in hashed structures are encoded in key order

---
 src/data/basics/teal.rs         |  6 +++---
 src/data/basics/user_balance.rs | 14 ++++++++------
 src/data/bookkeeping/block.rs   |  4 ++--
 src/data/transactions/teal.rs   |  4 ++--
 src/protocol/mod.rs             |  4 +++-
 5 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/data/basics/teal.rs b/src/data/basics/teal.rs
index 542a050..c717f27 100644
--- a/src/data/basics/teal.rs
+++ b/src/data/basics/teal.rs
@@ -1,7 +1,7 @@
 // Copyright (C) 2021 Quentin M. Kniep <hello@quentinkniep.com>
 // Distributed under terms of the MIT license.
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::fmt;
 
 use data_encoding::HEXLOWER;
@@ -45,7 +45,7 @@ impl ValueDelta {
 /// Map from key/value store keys to `ValueDelta`s, indicating what should happen for that key.
 //msgp:allocbound StateDelta config.MaxStateDeltaKeys
 #[derive(Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
-pub struct StateDelta(HashMap<String, ValueDelta>);
+pub struct StateDelta(BTreeMap<String, ValueDelta>);
 
 /*
 /// Equal checks whether two StateDeltas are equal. We don't check for nilness
@@ -235,7 +235,7 @@ impl fmt::Display for TealValue {
 /// Represents a key/value store for use in an application's local or global state.
 //msgp:allocbound TealKeyValue EncodedMaxKeyValueEntries
 #[derive(Clone, Serialize, Deserialize)]
-pub struct TealKeyValue(HashMap<String, TealValue>);
+pub struct TealKeyValue(BTreeMap<String, TealValue>);
 
 impl TealKeyValue {
     /// Calculates the number of each value type in a `TealKeyValue` and represents the result as a `StateSchema`.
diff --git a/src/data/basics/user_balance.rs b/src/data/basics/user_balance.rs
index da16c69..a999da1 100644
--- a/src/data/basics/user_balance.rs
+++ b/src/data/basics/user_balance.rs
@@ -1,7 +1,7 @@
 // Copyright (C) 2021 Quentin M. Kniep <hello@quentinkniep.com>
 // Distributed under terms of the MIT license.
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::convert::TryFrom;
 use std::fmt;
 
@@ -151,7 +151,7 @@ pub struct AccountData {
     /// NOTE: do not modify this value in-place in existing AccountData
     /// structs; allocate a copy and modify that instead. AccountData
     /// is expected to have copy-by-value semantics.
-    pub asset_params: HashMap<AssetIndex, AssetParams>,
+    pub asset_params: BTreeMap<AssetIndex, AssetParams>,
 
     /// Set of assets that can be held by this account.
     /// Assets (i.e., slots in this map) are explicitly
@@ -168,7 +168,7 @@ pub struct AccountData {
     /// NOTE: do not modify this value in-place in existing AccountData
     /// structs; allocate a copy and modify that instead.  AccountData
     /// is expected to have copy-by-value semantics.
-    pub assets: HashMap<AssetIndex, AssetHolding>,
+    pub assets: BTreeMap<AssetIndex, AssetHolding>,
 
     /// Address against which signatures/multisigs/logicsigs should be checked.
     /// If empty, the address of the account whose AccountData this is is used.
@@ -177,10 +177,10 @@ pub struct AccountData {
     pub auth_addr: Address,
 
     /// Stores the local states associated with any applications that this account has opted in to.
-    pub app_local_states: HashMap<AppIndex, AppLocalState>,
+    pub app_local_states: BTreeMap<AppIndex, AppLocalState>,
 
     /// Stores the global parameters and state associated with any applications that this account has created.
-    pub app_params: HashMap<AppIndex, AppParams>,
+    pub app_params: BTreeMap<AppIndex, AppParams>,
 
     /// Stores the sum of all of the local `StateSchema`s and global `StateSchema`s in this account
     /// (global for applications we created, local for applications we opted in to),
@@ -268,7 +268,9 @@ pub type AssetIndex = u64;
 
 /// Unique integer index of an application that can be used to look up the creator of the application,
 /// whose balance record contains the `AppParams`.
-#[derive(Clone, Copy, Debug, Default, Hash, PartialEq, Eq, Serialize, Deserialize)]
+#[derive(
+    Clone, Copy, Debug, Default, Hash, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize,
+)]
 pub struct AppIndex(pub u64);
 
 /// Represents either an `AssetIndex` or `AppIndex`, which come from the same namespace of indices as each other
diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 435cf03..9187c77 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -1,7 +1,7 @@
 // Copyright (C) 2021 Quentin M. Kniep <hello@quentinkniep.com>
 // Distributed under terms of the MIT license.
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::time::SystemTime;
 
 use serde::{Deserialize, Serialize};
@@ -108,7 +108,7 @@ pub struct BlockHeader {
 
     /// Tracks the state of compact certs, potentially for multiple types of certs.
     //msgp:sort protocol.CompactCertType protocol.SortCompactCertType
-    pub compact_certs: HashMap<protocol::CompactCertType, CompactCertState>,
+    pub compact_certs: BTreeMap<protocol::CompactCertType, CompactCertState>,
 }
 
 /// RewardsState represents the global parameters controlling the rate at which accounts accrue rewards.
diff --git a/src/data/transactions/teal.rs b/src/data/transactions/teal.rs
index 3444e8c..2450fdf 100644
--- a/src/data/transactions/teal.rs
+++ b/src/data/transactions/teal.rs
@@ -1,7 +1,7 @@
 // Copyright (C) 2021 Quentin M. Kniep <hello@quentinkniep.com>
 // Distributed under terms of the MIT license.
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use serde::{Deserialize, Serialize};
 
@@ -16,7 +16,7 @@ pub struct EvalDelta {
 
     /// When decoding EvalDeltas, the integer key represents an offset into
     /// `[txn.Sender, txn.Accounts[0], txn.Accounts[1], ...]`.
-    pub local_deltas: HashMap<u64, basics::StateDelta>,
+    pub local_deltas: BTreeMap<u64, basics::StateDelta>,
 
     pub logs: Vec<String>,
 
diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 5022a86..b58bed7 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -17,7 +17,9 @@ pub use txtype::*;
 
 pub type NetworkID = String;
 
-#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
+#[derive(
+    Clone, Copy, Debug, Hash, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize,
+)]
 pub enum CompactCertType {
     /// Initial compact cert setup, using Ed25519 ephemeral-key signatures and SHA512/256 hashes.
     Basic,
-- 
2.43.0


From 2b49822e1110952c2cd87c5fdf1541e4b85124a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:07 +0000
Subject: [PATCH 21/50] fix: Root::import derives the key pair from the seed
 instead of panicking

---
 src/data/account.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index 5d145b2..97f6d67 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -3,6 +3,7 @@
 
 use std::convert::TryInto;
 
+use ed25519_dalek::SecretKey;
 use lazy_static::lazy_static;
 use rand::{rngs::OsRng, RngCore};
 use sled::Db;
@@ -74,7 +75,9 @@ impl Root {
 
     /// Instantiate a key based on the given seed.
     fn import(seed: [u8; 32]) -> Result<Root, Error> {
-        let kp = crypto::Keypair::from_bytes(&seed).unwrap();
+        let secret = SecretKey::from_bytes(&seed).expect("a seed has the length of a secret key");
+        let public = (&secret).into();
+        let kp = crypto::Keypair { secret, public };
         let raw = protocol::encode(&kp);
 
         KEY_STORE.insert("root", raw)?;
-- 
2.43.0


From 9f21b3b59ed2556db57fddc0eb075a254c1f2525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:08 +0000
Subject: [PATCH 22/50] fix: failing to persist participation keys is reported,
 not a panic

---
 src/data/account.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index 97f6d67..d5fd2de 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -266,8 +266,7 @@ impl Participation {
             key_dilution,
         };
         // Persist the Participation into the database
-        // TODO pass Error up
-        part.persist().unwrap();
+        part.persist()?;
         Ok(part)
     }
 
-- 
2.43.0


From 2c1d1aaea04c58f65c9dfcba4499fdda5f5cadfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:09 +0000
Subject: [PATCH 23/50] fix: missing or truncated participation entries are an
 error when restoring

---
 src/data/account.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index d5fd2de..f9c323e 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -62,6 +62,8 @@ pub enum Error {
     StorageError(#[from] sled::Error),
     #[error("failed to decode data type")]
     DecodeError(#[from] rmp_serde::decode::Error),
+    #[error("stored entry has the wrong length")]
+    WrongLength(#[from] std::array::TryFromSliceError),
 }
 
 impl Root {
@@ -179,20 +181,23 @@ impl Participation {
     }
 
     pub fn restore() -> Result<Self, Error> {
-        let raw_parent = KEY_STORE.get("part-parent")?;
-        let raw_vrf = KEY_STORE.get("part-vrf")?;
-        let raw_voting = KEY_STORE.get("part-voting")?;
-        let raw_first_valid = KEY_STORE.get("part-first_valid")?;
-        let raw_last_valid = KEY_STORE.get("part-last_valid")?;
-        let raw_key_dilution = KEY_STORE.get("part-key_dilution")?;
-
-        let parent = raw_parent.unwrap().as_ref().try_into().unwrap();
-        let vrf = protocol::decode(&raw_vrf.unwrap())?;
-        let voting = protocol::decode(&raw_voting.unwrap())?;
-        let first_valid = u64::from_be_bytes(raw_first_valid.unwrap().as_ref().try_into().unwrap());
-        let last_valid = u64::from_be_bytes(raw_last_valid.unwrap().as_ref().try_into().unwrap());
-        let key_dilution =
-            u64::from_be_bytes(raw_key_dilution.unwrap().as_ref().try_into().unwrap());
+        let raw_parent = KEY_STORE.get("part-parent")?.ok_or(Error::NotFound)?;
+        let raw_vrf = KEY_STORE.get("part-vrf")?.ok_or(Error::NotFound)?;
+        let raw_voting = KEY_STORE.get("part-voting")?.ok_or(Error::NotFound)?;
+        let raw_first_valid = KEY_STORE
+            .get("part-first_valid")?
+            .ok_or(Error::NotFound)?;
+        let raw_last_valid = KEY_STORE.get("part-last_valid")?.ok_or(Error::NotFound)?;
+        let raw_key_dilution = KEY_STORE
+            .get("part-key_dilution")?
+            .ok_or(Error::NotFound)?;
+
+        let parent = raw_parent.as_ref().try_into()?;
+        let vrf = protocol::decode(&raw_vrf)?;
+        let voting = protocol::decode(&raw_voting)?;
+        let first_valid = u64::from_be_bytes(raw_first_valid.as_ref().try_into()?);
+        let last_valid = u64::from_be_bytes(raw_last_valid.as_ref().try_into()?);
+        let key_dilution = u64::from_be_bytes(raw_key_dilution.as_ref().try_into()?);
 
         Ok(Self {
             parent: basics::Address(parent),
-- 
2.43.0


From 635b8ace4e334d9e3ebdf2f6384ae0c7e8b3aed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:11 +0000
Subject: [PATCH 24/50] fix: deleting old keys does not require compact cert
 state or signatures for every account

---
 src/data/account_manager.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/data/account_manager.rs b/src/data/account_manager.rs
index 2bcdbe2..adaf666 100644
--- a/src/data/account_manager.rs
+++ b/src/data/account_manager.rs
@@ -110,20 +110,23 @@ impl AccountManager {
             // We need a key for round r+1 for agreement.
             let mut next_round = latest_header.round + basics::Round(1);
 
-            if latest_header.compact_certs[&protocol::CompactCertType::Basic].compactcert_next_round
-                > basics::Round(0)
-            {
+            let compactcert_next_round = latest_header
+                .compact_certs
+                .get(&protocol::CompactCertType::Basic)
+                .map_or(basics::Round(0), |cc| cc.compactcert_next_round);
+            if compactcert_next_round > basics::Round(0) {
                 // We need a key for the next compact cert round.
                 // This would be CompactCertNextRound+1 (+1 because compact
                 // cert code uses the next round's ephemeral key), except
                 // if we already used that key to produce a signature (as
                 // reported in ccSigs).
-                let mut next_cc = latest_header.compact_certs[&protocol::CompactCertType::Basic]
-                    .compactcert_next_round
-                    + basics::Round(1);
-                if cc_sigs.get(&part.parent).unwrap() >= &next_cc {
-                    next_cc = *cc_sigs.get(&part.parent).unwrap()
-                        + basics::Round(latest_proto.compact_cert_rounds + 1);
+                let mut next_cc = compactcert_next_round + basics::Round(1);
+                let latest_sig = cc_sigs
+                    .get(&part.parent)
+                    .copied()
+                    .unwrap_or(basics::Round(0));
+                if latest_sig >= next_cc {
+                    next_cc = latest_sig + basics::Round(latest_proto.compact_cert_rounds + 1);
                 }
 
                 if next_cc < next_round {
-- 
2.43.0


From 3fe99d17f7596b1f6319756fc53ae89f94f89ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:11 +0000
Subject: [PATCH 25/50] fix: algokey sign derives the key pair from the seed
 instead of panicking

---
 src/bin/algokey/sign.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bin/algokey/sign.rs b/src/bin/algokey/sign.rs
index 1abe857..2092c6f 100644
--- a/src/bin/algokey/sign.rs
+++ b/src/bin/algokey/sign.rs
@@ -6,7 +6,7 @@ use std::io::{self, Read};
 use std::path::Path;
 
 use clap::{AppSettings, Parser};
-use ed25519_dalek::{Keypair, SECRET_KEY_LENGTH};
+use ed25519_dalek::{Keypair, SecretKey, SECRET_KEY_LENGTH};
 
 use algorsand::crypto::mnemonic;
 use algorsand::data::{basics, transactions::Transaction};
@@ -31,7 +31,9 @@ pub struct SignCmd {
 impl SignCmd {
     pub fn entrypoint(&self) {
         let seed = load_keyfile_or_mnemonic(&self.sk_file, &self.mnemonic);
-        let kp = Keypair::from_bytes(&seed).unwrap();
+        let secret = SecretKey::from_bytes(&seed).unwrap();
+        let public = (&secret).into();
+        let kp = Keypair { secret, public };
 
         // load tx from file
         let in_f = fs::File::open(&self.tx_file).unwrap();
-- 
2.43.0


From 0a4a7220100ae220047ec59704b2316da99cd246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:12 +0000
Subject: [PATCH 26/50] fix: algokey sign writes the output file instead of
 opening it for reading

---
 src/bin/algokey/sign.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/algokey/sign.rs b/src/bin/algokey/sign.rs
index 2092c6f..f8df2f1 100644
--- a/src/bin/algokey/sign.rs
+++ b/src/bin/algokey/sign.rs
@@ -46,7 +46,7 @@ impl SignCmd {
         }
 
         // write signed tx back to file
-        let mut out_f = fs::File::open(&self.out_file).unwrap();
+        let mut out_f = fs::File::create(&self.out_file).unwrap();
         rmp_serde::encode::write(&mut out_f, &sig_tx).unwrap();
     }
 }
-- 
2.43.0


From 0324f25f39df3c0e7fbe2ec9caf09c3df26c7026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:12 +0000
Subject: [PATCH 27/50] fix: algokey import stops at an invalid mnemonic

---
 src/bin/algokey/import.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bin/algokey/import.rs b/src/bin/algokey/import.rs
index 799d009..e5a6952 100644
--- a/src/bin/algokey/import.rs
+++ b/src/bin/algokey/import.rs
@@ -28,12 +28,12 @@ pub struct ImportCmd {
 
 impl ImportCmd {
     pub fn entrypoint(&self) {
-        let seed = mnemonic::phrase_to_key(&self.mnemonic);
-        if let Err(e) = seed.as_ref() {
-            println!("[Error] Invalid mnemonic provided: {}", e);
-        }
+        let seed = mnemonic::phrase_to_key(&self.mnemonic).unwrap_or_else(|e| {
+            eprintln!("[Error] Invalid mnemonic provided: {}", e);
+            std::process::exit(1);
+        });
 
-        let key = SecretKey::from_bytes(seed.as_ref().unwrap()).unwrap();
+        let key = SecretKey::from_bytes(&seed).unwrap();
         let pk: PublicKey = (&key).into();
         let pk_chk = Address(*pk.as_bytes()).to_string();
 
@@ -41,7 +41,7 @@ impl ImportCmd {
         println!("Public key: {}", pk_chk);
 
         if !self.sk_file.is_empty() {
-            if let Err(e) = write_sk(&self.sk_file, seed.as_ref().unwrap()) {
+            if let Err(e) = write_sk(&self.sk_file, &seed) {
                 println!("[Error] Could not write private key to file: {}", e);
             }
         }
-- 
2.43.0


From de27f031f4ce711dee05b740ec794b6d9f1fc6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:12 +0000
Subject: [PATCH 28/50] fix: algokey reports a key file that cannot be written
 through its exit status

---
 src/bin/algokey/export.rs   | 3 ++-
 src/bin/algokey/generate.rs | 6 ++++--
 src/bin/algokey/import.rs   | 6 ++++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/bin/algokey/export.rs b/src/bin/algokey/export.rs
index 83bbe99..c0b5d2e 100644
--- a/src/bin/algokey/export.rs
+++ b/src/bin/algokey/export.rs
@@ -37,7 +37,8 @@ impl ExportCmd {
 
         if !self.pk_file.is_empty() {
             if let Err(e) = write_pk(&self.pk_file, pk_chk.as_bytes()) {
-                println!("[Error] Could not write public key to file: {}", e);
+                eprintln!("[Error] Could not write public key to file: {}", e);
+                std::process::exit(1);
             }
         }
     }
diff --git a/src/bin/algokey/generate.rs b/src/bin/algokey/generate.rs
index b77e96d..2ac3c22 100644
--- a/src/bin/algokey/generate.rs
+++ b/src/bin/algokey/generate.rs
@@ -41,13 +41,15 @@ impl GenerateCmd {
 
         if !self.sk_file.is_empty() {
             if let Err(e) = write_sk(&self.sk_file, &seed) {
-                println!("[Error] Could not write private key to file: {}", e);
+                eprintln!("[Error] Could not write private key to file: {}", e);
+                std::process::exit(1);
             }
         }
 
         if !self.pk_file.is_empty() {
             if let Err(e) = write_pk(&self.pk_file, pk_chk.as_bytes()) {
-                println!("[Error] Could not write public key to file: {}", e);
+                eprintln!("[Error] Could not write public key to file: {}", e);
+                std::process::exit(1);
             }
         }
     }
diff --git a/src/bin/algokey/import.rs b/src/bin/algokey/import.rs
index e5a6952..8c9ab56 100644
--- a/src/bin/algokey/import.rs
+++ b/src/bin/algokey/import.rs
@@ -42,13 +42,15 @@ impl ImportCmd {
 
         if !self.sk_file.is_empty() {
             if let Err(e) = write_sk(&self.sk_file, &seed) {
-                println!("[Error] Could not write private key to file: {}", e);
+                eprintln!("[Error] Could not write private key to file: {}", e);
+                std::process::exit(1);
             }
         }
 
         if !self.pk_file.is_empty() {
             if let Err(e) = write_pk(&self.pk_file, pk_chk.as_bytes()) {
-                println!("[Error] Could not write public key to file: {}", e);
+                eprintln!("[Error] Could not write public key to file: {}", e);
+                std::process::exit(1);
             }
         }
     }
-- 
2.43.0


From 6b07e580381b8053e5d581ab8faade323819faa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 29/50] fix: Trie::add passes a storage error of the first
 insertion on and leaves the trie empty

---
 src/crypto/merkletrie/trie.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypto/merkletrie/trie.rs b/src/crypto/merkletrie/trie.rs
index ff0e65e..47bd552 100644
--- a/src/crypto/merkletrie/trie.rs
+++ b/src/crypto/merkletrie/trie.rs
@@ -78,10 +78,10 @@ impl Trie {
     pub fn add(&mut self, d: &[u8]) -> Result<bool, TrieError> {
         if self.root == None {
             let (mut pnode, id) = self.cache.allocate_new_node();
+            pnode.hash = d.to_vec();
+            self.cache.set_node(id, pnode)?;
             self.root = Some(id);
             //self.cache.commit_transaction();
-            pnode.hash = d.to_vec();
-            self.cache.set_node(id, pnode).unwrap();
             self.element_length = d.len() as u32;
             return Ok(true);
         }
-- 
2.43.0


From 8e41391fcd477dc9dee2fdfbd68cb5fff31ac773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:15 +0000
Subject: [PATCH 30/50] fix: Trie::add rejects elements of a different length

---
 src/crypto/merkletrie/trie.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypto/merkletrie/trie.rs b/src/crypto/merkletrie/trie.rs
index 47bd552..a3e1666 100644
--- a/src/crypto/merkletrie/trie.rs
+++ b/src/crypto/merkletrie/trie.rs
@@ -84,6 +84,8 @@ impl Trie {
             //self.cache.commit_transaction();
             self.element_length = d.len() as u32;
             return Ok(true);
+        } else if d.len() != self.element_length as usize {
+            return Err(TrieError::ElementLengthMismatch);
         }
 
         let pnode = self.cache.get_node(self.root.unwrap())?;
-- 
2.43.0


From 537e3f3475c6774e6c61b65a64f54519dc5b19ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:16 +0000
Subject: [PATCH 31/50] fix: a trie node's hash length is bounded by its
 encoding

---
 src/crypto/merkletrie/node.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/crypto/merkletrie/node.rs b/src/crypto/merkletrie/node.rs
index 4a70297..565d810 100644
--- a/src/crypto/merkletrie/node.rs
+++ b/src/crypto/merkletrie/node.rs
@@ -235,7 +235,10 @@ impl Node {
     pub fn deserialize(buf: &[u8]) -> Option<Node> {
         let mut cursor = std::io::Cursor::new(buf);
         let mut n = Node::default();
-        let hash_length = cursor.read_varint().ok()?;
+        let hash_length: usize = cursor.read_varint().ok()?;
+        if hash_length > buf.len() {
+            return None;
+        }
         n.hash = vec![0; hash_length];
         cursor.read_exact(&mut n.hash).ok()?;
         let mut is_inner = 0_u8;
-- 
2.43.0


From 7d50d7faac47a6460f829b2b186f222c8bd3ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:17 +0000
Subject: [PATCH 32/50] fix: trie nodes with trailing bytes, unknown kinds or
 unordered children are rejected

---
 src/crypto/merkletrie/node.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/crypto/merkletrie/node.rs b/src/crypto/merkletrie/node.rs
index 565d810..de06d48 100644
--- a/src/crypto/merkletrie/node.rs
+++ b/src/crypto/merkletrie/node.rs
@@ -245,13 +245,22 @@ impl Node {
         cursor
             .read_exact(std::slice::from_mut(&mut is_inner))
             .ok()?;
+        if is_inner > 1 || (is_inner == 0 && cursor.position() < buf.len() as u64) {
+            return None;
+        }
         if is_inner == 1 {
             n.children = Some([None; 256]);
             let mut child_index = 0_u8;
+            let mut prev_index = None;
             while cursor.position() < buf.len() as u64 {
                 cursor
                     .read_exact(std::slice::from_mut(&mut child_index))
                     .ok()?;
+                // children are stored in strictly increasing order of their index.
+                if prev_index >= Some(child_index) {
+                    return None;
+                }
+                prev_index = Some(child_index);
                 let id = cursor.read_varint().ok()?;
                 n.children.as_mut().unwrap()[usize::from(child_index)] = Some(id);
             }
-- 
2.43.0


From 25217c808ca137042ad77cd8d0caf59c6b3859fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:19 +0000
Subject: [PATCH 33/50] fix: addresses of the wrong length are rejected

---
 src/data/basics/address.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/basics/address.rs b/src/data/basics/address.rs
index 563888c..9f92f1b 100644
--- a/src/data/basics/address.rs
+++ b/src/data/basics/address.rs
@@ -85,7 +85,7 @@ impl FromStr for Address {
         };
 
         let mut short = Address([0; 32]);
-        if decoded.len() < short.0.len() {
+        if decoded.len() != short.0.len() + CHECKSUM_LEN {
             return Err(AddressError::WrongLength);
         }
 
-- 
2.43.0


From dc211f444615b78069a61de51a7c2adc5601704f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:20 +0000
Subject: [PATCH 34/50] fix: a non-canonical address string is an error, not a
 panic

---
 src/data/basics/address.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/basics/address.rs b/src/data/basics/address.rs
index 9f92f1b..cc5e463 100644
--- a/src/data/basics/address.rs
+++ b/src/data/basics/address.rs
@@ -21,6 +21,8 @@ pub enum AddressError {
     WrongLength,
     #[error("invalid checksum")]
     InvalidChecksum,
+    #[error("address is not in its canonical form")]
+    NotCanonical,
 }
 
 #[derive(Clone, Copy, Debug, Default, Hash, PartialEq, Eq, Deserialize)]
@@ -100,7 +102,7 @@ impl FromStr for Address {
 
         // Validate that we had a canonical string representation
         if short.to_string() != addr {
-            unreachable!();
+            return Err(AddressError::NotCanonical);
         }
 
         Ok(short)
-- 
2.43.0


From c16ee6e2aa2a3f37d1148da6659e39e5be2d68e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:21 +0000
Subject: [PATCH 35/50] fix: root key file names are recognised by their own
 suffix

---
 src/config/keyfile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/keyfile.rs b/src/config/keyfile.rs
index ca2a63e..46f6af0 100644
--- a/src/config/keyfile.rs
+++ b/src/config/keyfile.rs
@@ -33,7 +33,7 @@ pub fn matches_part_key_filename(account: &str, filename: &str) -> bool {
 
 /// Returns true iff the given filename is a valid root key filename.
 pub fn is_root_key_filename(filename: &str) -> bool {
-    let n = account_name_from_part_key_filename(filename);
+    let n = account_name_from_root_key_filename(filename);
     matches_root_key_filename(&n, filename)
 }
 
-- 
2.43.0


From bd8754e12ce2ac534cb6b92bf60a4ea187e580c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:22 +0000
Subject: [PATCH 36/50] fix: only one suffix is removed from a key file name

---
 src/config/keyfile.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/config/keyfile.rs b/src/config/keyfile.rs
index 46f6af0..268bac2 100644
--- a/src/config/keyfile.rs
+++ b/src/config/keyfile.rs
@@ -47,7 +47,10 @@ pub fn is_part_key_filename(filename: &str) -> bool {
 ///
 /// If filename is not a valid root key filename, this returns the filename unchanged.
 pub fn account_name_from_root_key_filename(filename: &str) -> String {
-    filename.trim_end_matches(".rootkey").to_owned()
+    filename
+        .strip_suffix(".rootkey")
+        .unwrap_or(filename)
+        .to_owned()
 }
 
 /// Returns the account name given a participation key filename.
@@ -56,7 +59,10 @@ pub fn account_name_from_root_key_filename(filename: &str) -> String {
 pub fn account_name_from_part_key_filename(filename: &str) -> String {
     if let Some((first, last)) = extract_part_valid_interval(filename) {
         let suffix = format!(".{}.{}.partkey", first.0, last.0);
-        filename.trim_end_matches(&suffix).to_owned()
+        filename
+            .strip_suffix(suffix.as_str())
+            .unwrap_or(filename)
+            .to_owned()
     } else {
         filename.to_owned()
     }
-- 
2.43.0


From 8f285d105a352da27d6aa050ec5d85491aaed63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 37/50] fix: VRF verification rejects invalid and small-order
 public keys instead of panicking

---
 src/crypto/vrf.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/crypto/vrf.rs b/src/crypto/vrf.rs
index 9691055..f8256ce 100644
--- a/src/crypto/vrf.rs
+++ b/src/crypto/vrf.rs
@@ -53,6 +53,10 @@ pub enum VrfError {
     #[error("The proof length is invalid")]
     InvalidPiLength,
 
+    /// The public key is not the encoding of a curve point, or that point is of small order.
+    #[error("The public key is invalid")]
+    InvalidPublicKey,
+
     /// The proof is invalid.
     #[error("The proof is invalid")]
     InvalidProof,
@@ -136,6 +140,7 @@ impl VrfPublicKey {
     /// Validates a proof for a given message against this public key, as specified in:
     /// https://tools.ietf.org/pdf/draft-irtf-cfrg-vrf-03 (section 5.3).
     pub fn verify_bytes(&self, proof: &VrfProof, bytes: &[u8]) -> Result<VrfOutput, VrfError> {
+        let key_point = self.to_point().ok_or(VrfError::InvalidPublicKey)?;
         let decoded = proof.decode();
         if decoded.is_none() {
             return Err(VrfError::InvalidProof);
@@ -144,7 +149,7 @@ impl VrfPublicKey {
         let (gamma, c, s) = decoded.unwrap();
         let hash_point = hash_to_curve(self, bytes);
 
-        let u = s * constants::ED25519_BASEPOINT_POINT - c * self.to_point();
+        let u = s * constants::ED25519_BASEPOINT_POINT - c * key_point;
         let v = s * hash_point - c * gamma;
         let c_calculated = hash_points(&[hash_point, gamma, u, v]);
 
@@ -156,11 +161,12 @@ impl VrfPublicKey {
     }
 
     /// Converts the public key, which is a compressed point representation, to the curve point.
-    /// Panics if the public key does not correspond to a valid curve point.
-    fn to_point(&self) -> EdwardsPoint {
+    /// Returns None if the public key does not correspond to a valid curve point,
+    /// or if that point is of small order.
+    fn to_point(&self) -> Option<EdwardsPoint> {
         CompressedEdwardsY::from_slice(&self.0)
             .decompress()
-            .unwrap()
+            .filter(|point| !point.is_small_order())
     }
 }
 
-- 
2.43.0


From 0d541d1b640913997e988ad5b69aa70168715db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:47 +0000
Subject: [PATCH 38/50] fix: VRF key pairs can no longer be printed with their
 private key

---
 src/crypto/vrf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto/vrf.rs b/src/crypto/vrf.rs
index f8256ce..4107e31 100644
--- a/src/crypto/vrf.rs
+++ b/src/crypto/vrf.rs
@@ -27,7 +27,7 @@ const SUITE_STRING: [u8; 1] = [0x04];
 /// A single byte string identifying ECVRF-ED25519-SHA512-Elligator2.
 const COFACTOR: u32 = 8;
 
-#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
+#[derive(Clone, PartialEq, Eq, Serialize, Deserialize)]
 pub struct VrfKeypair {
     private: [u8; 32],
     public: VrfPublicKey,
-- 
2.43.0


From c145254b88280ca0c064e8d11f3ae2aa0aa113ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 39/50] fix: addresses can be decoded from their own encoding

---
 src/data/basics/address.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/data/basics/address.rs b/src/data/basics/address.rs
index cc5e463..ee77872 100644
--- a/src/data/basics/address.rs
+++ b/src/data/basics/address.rs
@@ -1,11 +1,13 @@
 // Copyright (C) 2021 Quentin M. Kniep <hello@quentinkniep.com>
 // Distributed under terms of the MIT license.
 
+use std::convert::TryInto;
 use std::fmt;
 use std::str::FromStr;
 
 use data_encoding::BASE32_NOPAD;
-use serde::{Deserialize, Serialize, Serializer};
+use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};
+use serde_bytes::ByteBuf;
 use sha2::{Digest, Sha512Trunc256};
 use thiserror::Error;
 
@@ -25,7 +27,7 @@ pub enum AddressError {
     NotCanonical,
 }
 
-#[derive(Clone, Copy, Debug, Default, Hash, PartialEq, Eq, Deserialize)]
+#[derive(Clone, Copy, Debug, Default, Hash, PartialEq, Eq)]
 pub struct Address(pub [u8; 32]);
 
 impl Serialize for Address {
@@ -34,6 +36,16 @@ impl Serialize for Address {
     }
 }
 
+impl<'de> Deserialize<'de> for Address {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        let bytes = ByteBuf::deserialize(deserializer)?;
+        match bytes.as_slice().try_into() {
+            Ok(addr) => Ok(Address(addr)),
+            Err(_) => Err(D::Error::invalid_length(bytes.len(), &"32 bytes")),
+        }
+    }
+}
+
 impl Address {
     pub fn new(hash: crypto::CryptoHash) -> Self {
         Self(hash.0)
-- 
2.43.0


From 94faccf01e10ed7113a951e03a44dbfafabfa964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:14 +0000
Subject: [PATCH 40/50] fix: a signed transaction without a plain signature can
 be decoded

---
 src/data/transactions/signed_tx.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data/transactions/signed_tx.rs b/src/data/transactions/signed_tx.rs
index d0e743d..eb7fb24 100644
--- a/src/data/transactions/signed_tx.rs
+++ b/src/data/transactions/signed_tx.rs
@@ -16,13 +16,17 @@ fn is_empty(s: &crypto::Signature) -> bool {
     s.to_bytes() == [0; crypto::SIGNATURE_LENGTH]
 }
 
+fn empty_signature() -> crypto::Signature {
+    crypto::Signature::new([0; crypto::SIGNATURE_LENGTH])
+}
+
 /// Wraps a transaction and a signature.
 /// It exposes a `verify()` method that verifies the signature
 /// and checks that the underlying transaction is well-formed.
 // TODO: update this documentation now that there's multisig
 #[derive(Clone, PartialEq, Eq, Serialize, Deserialize)]
 pub struct SignedTx {
-    #[serde(skip_serializing_if = "is_empty")]
+    #[serde(default = "empty_signature", skip_serializing_if = "is_empty")]
     pub sig: crypto::Signature,
     #[serde(default, skip_serializing_if = "is_default")]
     pub msig: Option<crypto::MultisigSignature>,
-- 
2.43.0


From 15a52e0768709c2a711600fa776b10dafd71f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:15 +0000
Subject: [PATCH 41/50] fix: saving an empty set of configurable protocols
 removes the file and leaves it removed

---
 src/config/consensus.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config/consensus.rs b/src/config/consensus.rs
index 08e3ba0..f9fc3ae 100644
--- a/src/config/consensus.rs
+++ b/src/config/consensus.rs
@@ -496,7 +496,10 @@ pub fn save_configurable_consensus(data_dir: &str, params: ConsensusProtocols) -
     if params.is_empty() {
         // We have no consensus params to write.
         // In this case, delete the existing file (if any).
-        std::fs::remove_file(&consensus_protocol_path)?;
+        return match std::fs::remove_file(&consensus_protocol_path) {
+            Err(e) if e.kind() != std::io::ErrorKind::NotFound => Err(e.into()),
+            _ => Ok(()),
+        };
     }
     let f = std::fs::OpenOptions::new()
         .write(true)
-- 
2.43.0


From 7802d1d1e9715fc3a4713d72c5c8b416c2d7ff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:16 +0000
Subject: [PATCH 42/50] fix: an existing global configuration directory is not
 an error

---
 src/config/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index 802cad1..a1b26a7 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -676,7 +676,7 @@ pub fn get_global_config_file_root() -> io::Result<PathBuf> {
     if gcfr.as_os_str().is_empty() {
         *gcfr = get_default_config_file_path()?;
         // TODO use permissions 0o777
-        fs::create_dir(gcfr.clone())?;
+        fs::create_dir_all(&*gcfr)?;
     }
     Ok(gcfr.clone())
 }
-- 
2.43.0


From 909d126147834248c505a3a361a2a54d750c0ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:18 +0000
Subject: [PATCH 43/50] fix: decoding a mnemonic no longer prints part of the
 decoded bytes

---
 src/crypto/mnemonic.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/crypto/mnemonic.rs b/src/crypto/mnemonic.rs
index 7fff7e6..379fba4 100644
--- a/src/crypto/mnemonic.rs
+++ b/src/crypto/mnemonic.rs
@@ -99,7 +99,6 @@ pub fn mnemonic_to_key(mnemonic: &[String]) -> Result<[u8; KEY_LEN_BYTES], Mnemo
     }
 
     if bytes[KEY_LEN_BYTES] != 0 {
-        println!("bytes[KEY_LEN_BYTES] = {} != 0", bytes[KEY_LEN_BYTES]);
         return Err(MnemonicError::WrongChecksum);
     }
 
-- 
2.43.0


From ecf261ddd10097c67cd3dc57fe2817068d0ffb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:19 +0000
Subject: [PATCH 44/50] fix: a configuration file is merged over the defaults
 instead of having to name every setting

---
 src/config/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index a1b26a7..09818df 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -522,7 +522,12 @@ impl Local {
     }
 
     fn load(&mut self, content: &str) -> io::Result<()> {
-        *self = serde_json::from_str(content)?;
+        let overrides: serde_json::Map<String, serde_json::Value> = serde_json::from_str(content)?;
+        let mut merged = serde_json::to_value(&*self)?;
+        if let serde_json::Value::Object(settings) = &mut merged {
+            settings.extend(overrides);
+        }
+        *self = serde_json::from_value(merged)?;
         Ok(())
     }
 
-- 
2.43.0


From 4f3f07616b0a617da19da080105374da25bbc7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:53 +0000
Subject: [PATCH 45/50] fix: an unusable genesis configuration is an error, not
 a panic

---
 src/data/bookkeeping/genesis.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/data/bookkeeping/genesis.rs b/src/data/bookkeeping/genesis.rs
index 6b61d49..c8215ee 100644
--- a/src/data/bookkeeping/genesis.rs
+++ b/src/data/bookkeeping/genesis.rs
@@ -73,7 +73,7 @@ impl Genesis {
         id: &str,
         hash: crypto::CryptoHash,
     ) -> Result<Block, ()> {
-        let params = &config::CONSENSUS.0[&proto];
+        let params = config::CONSENSUS.0.get(&proto).ok_or(())?;
 
         let mut genesis_rewards_state = RewardsState {
             fee_sink: gen_bal.fee_sink,
@@ -84,7 +84,8 @@ impl Genesis {
             rewards_recalculation_round: basics::Round(params.rewards_rate_refresh_interval),
         };
 
-        let initial_rewards = gen_bal.balances[&gen_bal.rewards_pool].micro_algos.0;
+        let rewards_pool_data = gen_bal.balances.get(&gen_bal.rewards_pool).ok_or(())?;
+        let initial_rewards = rewards_pool_data.micro_algos.0;
         if params.initial_rewards_rate_calculation {
             genesis_rewards_state.rewards_rate = initial_rewards.saturating_sub(params.min_balance)
                 / params.rewards_rate_refresh_interval;
@@ -126,9 +127,8 @@ impl Genesis {
     // TODO update once actual JSON encoding is implemented
     fn load_from_file<P: AsRef<std::path::Path>>(genesis_file: P) -> Result<Genesis, ()> {
         // Load genesis.json
-        let file = std::fs::File::open(&genesis_file).unwrap();
-        let genesis: Genesis = rmp_serde::decode::from_read(file).unwrap();
-        Ok(genesis)
+        let file = std::fs::File::open(&genesis_file).map_err(|_| ())?;
+        rmp_serde::decode::from_read(file).map_err(|_| ())
     }
 
     /// ID is the effective Genesis identifier - the combination
-- 
2.43.0


From cf7afe5626807830ed906d09b082b2408a2cd25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:38 +0000
Subject: [PATCH 46/50] fix: key dilution, batch counts and compact cert rounds
 do not wrap around

---
 src/bin/algokey/part.rs     | 2 +-
 src/data/account.rs         | 2 +-
 src/data/account_manager.rs | 4 +++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bin/algokey/part.rs b/src/bin/algokey/part.rs
index e83a3d3..cc6d5e9 100644
--- a/src/bin/algokey/part.rs
+++ b/src/bin/algokey/part.rs
@@ -78,7 +78,7 @@ impl PartCmd {
 impl PartGenerateCmd {
     pub fn entrypoint(&self) {
         let key_dilution = match self.dilution {
-            0 => 1 + ((self.last - self.first) as f64).sqrt() as u64,
+            0 => 1 + (self.last.saturating_sub(self.first) as f64).sqrt() as u64,
             _ => self.dilution,
         };
 
diff --git a/src/data/account.rs b/src/data/account.rs
index f9c323e..f7254a4 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -250,7 +250,7 @@ impl Participation {
         // Compute how many distinct participation keys we should generate
         let first_id = first_valid.ots_id(key_dilution);
         let last_id = last_valid.ots_id(key_dilution);
-        let num_batches = last_id.batch - first_id.batch + 1;
+        let num_batches = (last_id.batch - first_id.batch).saturating_add(1);
 
         // Generate them
         let voting = crypto::OTSSecrets::generate(first_id.batch, num_batches);
diff --git a/src/data/account_manager.rs b/src/data/account_manager.rs
index adaf666..95e5722 100644
--- a/src/data/account_manager.rs
+++ b/src/data/account_manager.rs
@@ -126,7 +126,9 @@ impl AccountManager {
                     .copied()
                     .unwrap_or(basics::Round(0));
                 if latest_sig >= next_cc {
-                    next_cc = latest_sig + basics::Round(latest_proto.compact_cert_rounds + 1);
+                    next_cc = latest_sig
+                        + basics::Round(latest_proto.compact_cert_rounds)
+                        + basics::Round(1);
                 }
 
                 if next_cc < next_round {
-- 
2.43.0


From 03a80c7c02f1b033f6e5234811bea697af5ab717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:09 +0000
Subject: [PATCH 47/50] fix: algokey sign writes a file that decodes as the
 signed transaction

---
 src/bin/algokey/sign.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/algokey/sign.rs b/src/bin/algokey/sign.rs
index f8df2f1..2e075b9 100644
--- a/src/bin/algokey/sign.rs
+++ b/src/bin/algokey/sign.rs
@@ -47,7 +47,7 @@ impl SignCmd {
 
         // write signed tx back to file
         let mut out_f = fs::File::create(&self.out_file).unwrap();
-        rmp_serde::encode::write(&mut out_f, &sig_tx).unwrap();
+        rmp_serde::encode::write_named(&mut out_f, &sig_tx).unwrap();
     }
 }
 
-- 
2.43.0


From dd03c4add6a29052dd3ec7d60d3b04c3b7ce1b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:27 +0000
Subject: [PATCH 48/50] fix: trie element length kept in full width

---
 src/crypto/merkletrie/trie.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crypto/merkletrie/trie.rs b/src/crypto/merkletrie/trie.rs
index a3e1666..bbf0c9d 100644
--- a/src/crypto/merkletrie/trie.rs
+++ b/src/crypto/merkletrie/trie.rs
@@ -44,7 +44,7 @@ pub struct Trie {
     pub cache: MerkleTrieCache,
     /// Size of the node values in bytes, all values must be the same size.
     /// This is set automatically upon insertion of the first node.
-    element_length: u32,
+    element_length: usize,
 }
 
 impl Trie {
@@ -82,9 +82,9 @@ impl Trie {
             self.cache.set_node(id, pnode)?;
             self.root = Some(id);
             //self.cache.commit_transaction();
-            self.element_length = d.len() as u32;
+            self.element_length = d.len();
             return Ok(true);
-        } else if d.len() != self.element_length as usize {
+        } else if d.len() != self.element_length {
             return Err(TrieError::ElementLengthMismatch);
         }
 
@@ -113,7 +113,7 @@ impl Trie {
     pub fn delete(&mut self, d: &[u8]) -> Result<bool, TrieError> {
         if self.root.is_none() {
             return Ok(false);
-        } else if d.len() != self.element_length as usize {
+        } else if d.len() != self.element_length {
             return Err(TrieError::ElementLengthMismatch);
         }
         let pnode = self.cache.get_node(self.root.unwrap())?;
-- 
2.43.0


From 4e6a10194e004f1c861f33c93a77bbd20020642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:04 +0000
Subject: [PATCH 49/50] fix: merging consensus overrides neither panics nor
 depends on map order

---
 src/config/consensus.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/config/consensus.rs b/src/config/consensus.rs
index f9fc3ae..43ba79a 100644
--- a/src/config/consensus.rs
+++ b/src/config/consensus.rs
@@ -525,24 +525,21 @@ impl ConsensusProtocols {
     pub fn merge(&mut self, configurable_consensus: Self) -> Self {
         let mut static_consensus = self.clone();
 
-        for (version, params) in configurable_consensus.0 {
+        // if we were provided with an empty ConsensusParams,
+        // delete the existing reference to this consensus version
+        // (before any entry is added, as overrides are visited in no particular order)
+        for (version, params) in &configurable_consensus.0 {
             if params.approved_upgrades.is_empty() {
-                // if we were provided with an empty ConsensusParams,
-                // delete the existing reference to this consensus version
-                for (ver, par) in &self.0 {
-                    if *ver == version {
-                        static_consensus.0.remove(ver);
-                    } else if par.approved_upgrades.contains_key(&version) {
-                        // delete upgrade to deleted version
-                        static_consensus
-                            .0
-                            .get_mut(ver)
-                            .unwrap()
-                            .approved_upgrades
-                            .remove(&version);
-                    }
+                static_consensus.0.remove(version);
+                for par in static_consensus.0.values_mut() {
+                    // delete upgrade to deleted version
+                    par.approved_upgrades.remove(version);
                 }
-            } else {
+            }
+        }
+
+        for (version, params) in configurable_consensus.0 {
+            if !params.approved_upgrades.is_empty() {
                 // need to add/update entry
                 static_consensus.0.insert(version, params);
             }
-- 
2.43.0


From 8311b352dac2df3172a6ea7c5ac42b3471690285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:07 +0000
Subject: [PATCH 50/50] fix: saving the local settings writes them instead of
 reporting success

---
 src/config/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index 09818df..9756aab 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -567,16 +567,17 @@ impl Local {
     }
 
     /// Saves the config to a specific filename, allowing overriding the default name.
-    // TODO actually write to file once util/codecs is implemented
+    // TODO write only the non-default values once util/codecs is implemented
     pub fn save_to_file(&self, filename: &str) -> io::Result<()> {
+        let f = fs::OpenOptions::new()
+            .write(true)
+            .read(false)
+            .create(true)
+            .truncate(true)
+            .mode(0o600)
+            .open(filename)?;
+        serde_json::to_writer_pretty(f, self)?;
         Ok(())
-        /*return codecs.SaveNonDefaultValuesToFile(
-            filename,
-            cfg,
-            DEFAULT_LOCAL,
-            vec!["Version".to_owned()],
-            true,
-        );*/
     }
 
     /// Returns true iff SRV response verification enforced.
-- 
2.43.0

