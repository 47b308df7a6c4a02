From 26ef88a3c1ba157168562b90db8a6506c03f5ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 01/11] fix: mass_cancel_orders instruction builder uses its
 own opcode

---
 program/src/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/program/src/instruction.rs b/program/src/instruction.rs
index 4861b63..d31c959 100644
--- a/program/src/instruction.rs
+++ b/program/src/instruction.rs
@@ -215,7 +215,7 @@ pub fn mass_cancel_orders(
 ) -> Instruction {
     let mut i = accounts.get_instruction(
         crate::id(),
-        AgnosticOrderbookInstruction::CloseMarket as u8,
+        AgnosticOrderbookInstruction::MassCancelOrders as u8,
         params,
     );
     i.accounts.push(AccountMeta {
-- 
2.43.0


From 1bcafdeb198a04ab78925d48b83cf03b7b8ed1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 02/11] fix: removing an unknown key from a slab holding a
 single order returns None

---
 program/src/state/critbit.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/program/src/state/critbit.rs b/program/src/state/critbit.rs
index 336b0a0..0d1f601 100644
--- a/program/src/state/critbit.rs
+++ b/program/src/state/critbit.rs
@@ -344,13 +344,14 @@ impl<'a, C> Slab<'a, C> {
                 Node::Leaf => {
                     let leaf = &self.leaf_nodes[parent_h as usize];
                     #[cfg(target_os = "solana")]
-                    if leaf.key == search_key {
-                        remove_root = Some(*leaf);
+                    if leaf.key != search_key {
+                        return None;
                     }
                     #[cfg(not(target_os = "solana"))]
-                    if leaf.order_id() == search_key {
-                        remove_root = Some(*leaf);
+                    if leaf.order_id() != search_key {
+                        return None;
                     }
+                    remove_root = Some(*leaf);
                 }
                 Node::Inner => {
                     let node = self.inner_nodes[(!parent_h) as usize];
-- 
2.43.0


From 8e6bed3b23cf552c582389ca186d0acd3056a031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 03/11] fix: create_market validates the size of the bids and
 asks accounts before writing anything

---
 program/src/processor/create_market.rs |  2 ++
 program/src/state/critbit.rs           | 19 ++++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/program/src/processor/create_market.rs b/program/src/processor/create_market.rs
index 4df4a09..29bd573 100644
--- a/program/src/processor/create_market.rs
+++ b/program/src/processor/create_market.rs
@@ -91,6 +91,8 @@ pub fn process<'a, 'b: 'a, C: Pod>(
     }
 
     EventQueue::<C>::check_buffer_size(&accounts.event_queue.data.borrow()).unwrap();
+    Slab::<C>::check_buffer_size(&accounts.bids.data.borrow())?;
+    Slab::<C>::check_buffer_size(&accounts.asks.data.borrow())?;
 
     let mut market_data = accounts.market.data.borrow_mut();
 
diff --git a/program/src/state/critbit.rs b/program/src/state/critbit.rs
index 0d1f601..194e1b8 100644
--- a/program/src/state/critbit.rs
+++ b/program/src/state/critbit.rs
@@ -3,7 +3,7 @@ use crate::error::AoError;
 use crate::state::AccountTag;
 use borsh::{BorshDeserialize, BorshSerialize};
 use bytemuck::{Pod, Zeroable};
-use solana_program::program_error::ProgramError;
+use solana_program::{entrypoint::ProgramResult, msg, program_error::ProgramError};
 // A Slab contains the data for a slab header and two type-split arrays of inner nodes and leaves arranger in a critbit tree
 // whose leaves contain data referencing an order of the orderbook.
 
@@ -135,6 +135,23 @@ impl<'slab, C> Slab<'slab, C> {
 }
 
 impl<'a, C: Pod> Slab<'a, C> {
+    pub(crate) fn check_buffer_size(buffer: &[u8]) -> ProgramResult {
+        let callback_info_len = std::mem::size_of::<C>();
+        let account_len = buffer.len();
+        let min_len = Self::compute_allocation_size(1);
+        if account_len < min_len {
+            msg!("The slab account is too small!");
+            return Err(ProgramError::InvalidAccountData);
+        }
+        // Any excess space must amount to a whole number of callback infos
+        let excess = (account_len - min_len) % (LeafNode::LEN + InnerNode::LEN + callback_info_len);
+        if callback_info_len != 0 && excess % callback_info_len != 0 {
+            msg!("Slab account size is invalid!");
+            return Err(ProgramError::InvalidAccountData);
+        }
+        Ok(())
+    }
+
     pub fn from_buffer(buf: &'a mut [u8], expected_tag: AccountTag) -> Result<Self, ProgramError> {
         let callback_info_len = std::mem::size_of::<C>();
         let leaf_size = LeafNode::LEN + callback_info_len;
-- 
2.43.0


From d045d3352d559c2bdbfb4988223f412e0ae30976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 04/11] fix: js parseFill reads the events from the head of the
 queue

---
 js/src/event_queue.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/event_queue.ts b/js/src/event_queue.ts
index 396195a..b91d8e9 100644
--- a/js/src/event_queue.ts
+++ b/js/src/event_queue.ts
@@ -266,7 +266,7 @@ export class EventQueue {
       ? Math.min(limit, this.header.count.toNumber())
       : this.header.count.toNumber();
     return [...Array(n).keys()]
-      .map((e) => this.parseEvent(e))
+      .map((e) => this.peekAt(e))
       .filter((e) => e instanceof EventFill);
   }
 
-- 
2.43.0


From a9e024af678326df0111f28d000df02e9a646b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 05/11] fix: js Slab rounds its capacity down like the program
 before locating the nodes

---
 js/src/slab.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/js/src/slab.ts b/js/src/slab.ts
index c416a06..7d60858 100644
--- a/js/src/slab.ts
+++ b/js/src/slab.ts
@@ -160,9 +160,10 @@ export class Slab {
     this.callBackInfoLen = arg.callBackInfoLen;
     const leafSize = LeafNode.LEN + arg.callBackInfoLen;
 
-    const capacity =
+    const capacity = Math.floor(
       (arg.buffer.length - SlabHeader.LEN - leafSize) /
-      (leafSize + InnerNode.LEN);
+        (leafSize + InnerNode.LEN)
+    );
     let innerNodesBufferOffset = SlabHeader.LEN + (capacity + 1) * LeafNode.LEN;
     let leavesBuffer = arg.buffer.slice(SlabHeader.LEN, innerNodesBufferOffset);
     let callbackInfoBufferOffset =
@@ -172,7 +173,7 @@ export class Slab {
       callbackInfoBufferOffset
     );
     let callbackInfoBuffer = arg.buffer.slice(callbackInfoBufferOffset);
-    this.orderCapacity = Math.floor(capacity);
+    this.orderCapacity = capacity;
     this.leafBuffer = leavesBuffer;
     this.innerNodeBuffer = innerNodeBuffer;
     this.callbackInfoBuffer = callbackInfoBuffer;
-- 
2.43.0


From a750e2eab844fee56e370cfb5e3143919a97c3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:03 +0000
Subject: [PATCH 06/11] fix: the entry point refuses to write its result over
 an account of a market

---
 program/src/entrypoint.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/program/src/entrypoint.rs b/program/src/entrypoint.rs
index f1bc66e..a739888 100644
--- a/program/src/entrypoint.rs
+++ b/program/src/entrypoint.rs
@@ -1,4 +1,4 @@
-use crate::{error::AoError, processor};
+use crate::{error::AoError, processor, state::AccountTag};
 use borsh::BorshSerialize;
 use num_traits::FromPrimitive;
 use solana_program::{
@@ -27,6 +27,12 @@ pub fn process_instruction(
         }
         Ok(r) => {
             let mut a: &mut [u8] = &mut register_account.data.borrow_mut();
+            // The result must not overwrite the state of a market
+            let market_tags = AccountTag::Market as u8..=AccountTag::Disabled as u8;
+            if a.first().map_or(false, |tag| market_tags.contains(tag)) {
+                msg!("The register account belongs to a market!");
+                return Err(AoError::AccountTagMismatch.into());
+            }
             r.serialize(&mut a).unwrap();
         }
     }
-- 
2.43.0


From 5c431e199fbdf2bbbd303164ccc306b5ffe35be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:03 +0000
Subject: [PATCH 07/11] fix: round_price does not overflow on ask prices close
 to the top of the range

---
 program/src/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/program/src/utils.rs b/program/src/utils.rs
index 753c0db..b74452d 100644
--- a/program/src/utils.rs
+++ b/program/src/utils.rs
@@ -56,7 +56,10 @@ pub fn round_price(tick_size: u64, limit_price: u64, side: Side) -> u64 {
         // Round down
         Side::Bid => tick_size * (limit_price / tick_size),
         // Round up
-        Side::Ask => tick_size * ((limit_price + tick_size - 1) / tick_size),
+        Side::Ask => {
+            let partial_tick = (limit_price % tick_size != 0) as u64;
+            tick_size * (limit_price / tick_size + partial_tick)
+        }
     }
 }
 
-- 
2.43.0


From b11b5eff80af0f12b3d04ec19def8356655dfa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 08/11] fix: js createMarket builds the instruction the program
 expects

---
 js/src/bindings.ts         |  4 ----
 js/src/raw_instructions.ts | 21 +--------------------
 2 files changed, 1 insertion(+), 24 deletions(-)

diff --git a/js/src/bindings.ts b/js/src/bindings.ts
index e08ae93..e33bc7c 100644
--- a/js/src/bindings.ts
+++ b/js/src/bindings.ts
@@ -108,12 +108,8 @@ export const createMarket = async (
 
   // Create market
   const createMarket = new createMarketInstruction({
-    callerAuthority: callerAuthority.toBuffer(),
-    callbackInfoLen: new BN(callbackInfoLen),
-    callbackIdLen,
     minBaseOrderSize,
     tickSize,
-    crankerReward: new BN(0),
   }).getInstruction(
     programId,
     market.publicKey,
diff --git a/js/src/raw_instructions.ts b/js/src/raw_instructions.ts
index daa0fdd..4013fd3 100644
--- a/js/src/raw_instructions.ts
+++ b/js/src/raw_instructions.ts
@@ -197,12 +197,8 @@ export class cancelOrderInstruction {
 }
 export class createMarketInstruction {
   tag: number;
-  callerAuthority: Uint8Array;
-  callbackInfoLen: BN;
-  callbackIdLen: BN;
   minBaseOrderSize: BN;
   tickSize: BN;
-  crankerReward: BN;
   static schema: Schema = new Map([
     [
       createMarketInstruction,
@@ -210,31 +206,16 @@ export class createMarketInstruction {
         kind: "struct",
         fields: [
           ["tag", "u8"],
-          ["callerAuthority", [32]],
-          ["callbackInfoLen", "u64"],
-          ["callbackIdLen", "u64"],
           ["minBaseOrderSize", "u64"],
           ["tickSize", "u64"],
-          ["crankerReward", "u64"],
         ],
       },
     ],
   ]);
-  constructor(obj: {
-    callerAuthority: Uint8Array;
-    callbackInfoLen: BN;
-    callbackIdLen: BN;
-    minBaseOrderSize: BN;
-    tickSize: BN;
-    crankerReward: BN;
-  }) {
+  constructor(obj: { minBaseOrderSize: BN; tickSize: BN }) {
     this.tag = 0;
-    this.callerAuthority = obj.callerAuthority;
-    this.callbackInfoLen = obj.callbackInfoLen;
-    this.callbackIdLen = obj.callbackIdLen;
     this.minBaseOrderSize = obj.minBaseOrderSize;
     this.tickSize = obj.tickSize;
-    this.crankerReward = obj.crankerReward;
   }
   serialize(): Uint8Array {
     return serialize(createMarketInstruction.schema, this);
-- 
2.43.0


From c47da3f7346f0cb4476bfa5982ce6f6e84cf504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:37 +0000
Subject: [PATCH 09/11] fix: TypeScript AccountTag carries the tags the program
 writes

---
 js/src/event_queue.ts  |  4 ++--
 js/src/market_state.ts | 11 ++++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/js/src/event_queue.ts b/js/src/event_queue.ts
index b91d8e9..9e557dc 100644
--- a/js/src/event_queue.ts
+++ b/js/src/event_queue.ts
@@ -41,8 +41,8 @@ export class EventQueueHeader {
     ],
   ]);
 
-  constructor(arg: { tag: number; head: BN; count: BN; seqNum: BN }) {
-    this.tag = arg.tag as AccountTag;
+  constructor(arg: { tag: BN; head: BN; count: BN; seqNum: BN }) {
+    this.tag = arg.tag.toNumber() as AccountTag;
     this.head = arg.head;
     this.count = arg.count;
     this.seqNum = arg.seqNum;
diff --git a/js/src/market_state.ts b/js/src/market_state.ts
index f6cc42e..5121e39 100644
--- a/js/src/market_state.ts
+++ b/js/src/market_state.ts
@@ -9,11 +9,12 @@ import BN from "bn.js";
 
 /** @enum {number} */
 export enum AccountTag {
-  Initialized = 0,
-  Market = 1,
-  EventQueue = 2,
-  Bids = 3,
-  Asks = 4,
+  Uninitialized = 0,
+  Market = 128,
+  EventQueue = 129,
+  Bids = 130,
+  Asks = 131,
+  Disabled = 132,
 }
 
 /** @enum {number} */
-- 
2.43.0


From 872b7ce4079dbb5f6a9c8dd1faff4669aa71dc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:37 +0000
Subject: [PATCH 10/11] fix: TypeScript Slab.orderCapacity counts the last
 order too

---
 js/src/slab.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/slab.ts b/js/src/slab.ts
index 7d60858..c1c75ae 100644
--- a/js/src/slab.ts
+++ b/js/src/slab.ts
@@ -173,7 +173,7 @@ export class Slab {
       callbackInfoBufferOffset
     );
     let callbackInfoBuffer = arg.buffer.slice(callbackInfoBufferOffset);
-    this.orderCapacity = capacity;
+    this.orderCapacity = capacity + 1;
     this.leafBuffer = leavesBuffer;
     this.innerNodeBuffer = innerNodeBuffer;
     this.callbackInfoBuffer = callbackInfoBuffer;
-- 
2.43.0


From 0037e95ed624b66164757555fcf20bd3471dda35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:11 +0000
Subject: [PATCH 11/11] fix: create_market refuses accounts whose header was
 written through a register

---
 program/src/processor/create_market.rs | 7 ++++++-
 program/src/state/critbit.rs           | 9 ++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/program/src/processor/create_market.rs b/program/src/processor/create_market.rs
index 29bd573..5291321 100644
--- a/program/src/processor/create_market.rs
+++ b/program/src/processor/create_market.rs
@@ -109,7 +109,12 @@ pub fn process<'a, 'b: 'a, C: Pod>(
 
     let mut event_queue_data = accounts.event_queue.data.borrow_mut();
 
-    EventQueue::<C>::from_buffer(&mut event_queue_data, AccountTag::Uninitialized)?;
+    let event_queue =
+        EventQueue::<C>::from_buffer(&mut event_queue_data, AccountTag::Uninitialized)?;
+    // The header may have been written to by using the account as a register
+    if bytemuck::bytes_of(event_queue.header).iter().any(|b| *b != 0) {
+        return Err(ProgramError::AccountAlreadyInitialized);
+    }
 
     Slab::<C>::initialize(
         &mut accounts.asks.data.borrow_mut(),
diff --git a/program/src/state/critbit.rs b/program/src/state/critbit.rs
index 194e1b8..aa493bf 100644
--- a/program/src/state/critbit.rs
+++ b/program/src/state/critbit.rs
@@ -115,9 +115,12 @@ impl Node {
 
 impl<'slab, C> Slab<'slab, C> {
     pub fn initialize(asks_data: &mut [u8], bids_data: &mut [u8]) -> Result<(), ProgramError> {
-        if asks_data[0] != AccountTag::Uninitialized as u8
-            || bids_data[0] != AccountTag::Uninitialized as u8
-        {
+        // Neither tag nor header may have been written to, e.g. by using the account as a register
+        let header_end = 8 + SlabHeader::LEN;
+        let mut headers = asks_data[..header_end]
+            .iter()
+            .chain(&bids_data[..header_end]);
+        if headers.any(|b| *b != AccountTag::Uninitialized as u8) {
             return Err(ProgramError::AccountAlreadyInitialized);
         }
         asks_data[0] = AccountTag::Asks as u8;
-- 
2.43.0

