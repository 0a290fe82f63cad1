From 1003bc1a74f3c2b0becf3127d4af209d9e2725f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:17 +0000
Subject: [PATCH 01/45] fix: reject malformed account blocks and event logs
 when decoding

AccountBlock.Deserialize dropped the error of DeProto, DeProto ignored
malformed block hashes, and VmLogList ignored malformed topics, so bytes
that are not a well-formed block or log list were accepted.
---
 interfaces/core/account_block.go | 11 +++++++----
 interfaces/core/vm_log_list.go   |  5 ++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/interfaces/core/account_block.go b/interfaces/core/account_block.go
index 93b08a9..debd542 100644
--- a/interfaces/core/account_block.go
+++ b/interfaces/core/account_block.go
@@ -316,12 +316,16 @@ func (ab *AccountBlock) DeProto(pb *vitepb.AccountBlock) error {
 	// 1
 	ab.BlockType = byte(pb.BlockType)
 	// 2
-	ab.Hash, _ = types.BytesToHash(pb.Hash)
+	if ab.Hash, err = types.BytesToHash(pb.Hash); err != nil {
+		return err
+	}
 	// 3
 	ab.Height = pb.Height
 	// 4
 	if ab.Height > 1 {
-		ab.PrevHash, _ = types.BytesToHash(pb.PrevHash)
+		if ab.PrevHash, err = types.BytesToHash(pb.PrevHash); err != nil {
+			return err
+		}
 	}
 	// 5
 	if ab.AccountAddress, err = types.BytesToAddress(pb.AccountAddress); err != nil {
@@ -411,8 +415,7 @@ func (ab *AccountBlock) Deserialize(buf []byte) error {
 	if err := proto.Unmarshal(buf, pb); err != nil {
 		return err
 	}
-	ab.DeProto(pb)
-	return nil
+	return ab.DeProto(pb)
 }
 
 func (ab *AccountBlock) IsSendBlock() bool {
diff --git a/interfaces/core/vm_log_list.go b/interfaces/core/vm_log_list.go
index e8f1210..3f67dd4 100644
--- a/interfaces/core/vm_log_list.go
+++ b/interfaces/core/vm_log_list.go
@@ -93,7 +93,10 @@ func (vll *VmLogList) DeProto(pb *vitepb.VmLogList) error {
 
 		var topics []types.Hash
 		for _, topicPb := range vmLogPb.Topics {
-			topic, _ := types.BytesToHash(topicPb)
+			topic, err := types.BytesToHash(topicPb)
+			if err != nil {
+				return err
+			}
 			topics = append(topics, topic)
 		}
 
-- 
2.43.0


From ddafa3b0f42cbd08a2741dac741e3c60da91492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:17 +0000
Subject: [PATCH 02/45] fix: let addresses and token ids unmarshal the text
 they marshal to

UnmarshalText demanded a JSON-quoted string, so the output of MarshalText
(and any JSON object keyed by an address or token id) was rejected.
---
 common/types/address.go     | 4 ----
 common/types/tokentypeid.go | 6 +-----
 2 files changed, 1 insertion(+), 9 deletions(-)

diff --git a/common/types/address.go b/common/types/address.go
index dcb6ca0..5a60674 100644
--- a/common/types/address.go
+++ b/common/types/address.go
@@ -250,10 +250,6 @@ func (a Address) MarshalText() ([]byte, error) {
 
 // UnmarshalText implements encoding.TextUnmarshaler.
 func (a *Address) UnmarshalText(input []byte) error {
-	if !isString(input) {
-		return ErrJsonNotString
-	}
-
 	addresses, e := HexToAddress(strings.Trim(string(input), "\""))
 	if e != nil {
 		return e
diff --git a/common/types/tokentypeid.go b/common/types/tokentypeid.go
index 6573323..cf50fcf 100644
--- a/common/types/tokentypeid.go
+++ b/common/types/tokentypeid.go
@@ -117,11 +117,7 @@ func (tid TokenTypeId) MarshalText() ([]byte, error) {
 
 // UnmarshalText implements encoding.TextUnmarshaler.
 func (tid *TokenTypeId) UnmarshalText(input []byte) error {
-	if !isString(input) {
-		return ErrJsonNotString
-	}
-
-	tti, e := HexToTokenTypeId(string(trimLeftRightQuotation(input)))
+	tti, e := HexToTokenTypeId(strings.Trim(string(input), "\""))
 	if e != nil {
 		return e
 	}
-- 
2.43.0


From 799a5679a8989ace0f908952e93d8c0c02ca0c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:09 +0000
Subject: [PATCH 03/45] fix: refuse event logs with too few topics instead of
 panicking

---
 vm/abi/error.go | 3 +++
 vm/abi/event.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/vm/abi/error.go b/vm/abi/error.go
index 7bda8a2..d5f5365 100644
--- a/vm/abi/error.go
+++ b/vm/abi/error.go
@@ -71,6 +71,9 @@ func errWrongPackedLength(marshalledValues []interface{}) error {
 func errArgLengthMismatch(args []interface{}, abiArgs Arguments) error {
 	return fmt.Errorf("argument count mismatch: %d for %d", len(args), len(abiArgs))
 }
+func errTopicCountMismatch(got, want int) error {
+	return fmt.Errorf("topic count mismatch: %d for %d", got, want)
+}
 
 // unpack errors
 func errInvalidStruct(v interface{}) error {
diff --git a/vm/abi/event.go b/vm/abi/event.go
index a9a808d..f969f41 100644
--- a/vm/abi/event.go
+++ b/vm/abi/event.go
@@ -80,6 +80,9 @@ func (e Event) Pack(args ...interface{}) ([]types.Hash, []byte, error) {
 }
 
 func (e Event) DirectUnPack(topics []types.Hash, data []byte) ([]interface{}, error) {
+	if len(topics) < len(e.IndexedInputs)+1 {
+		return nil, errTopicCountMismatch(len(topics), len(e.IndexedInputs)+1)
+	}
 	nonIndexedParams, err := e.NonIndexedInputs.DirectUnpack(data)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 1863e3d206e36fcc95c68494e208b6a5eea64d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:21 +0000
Subject: [PATCH 04/45] fix: don't crash on contract calls whose data lies
 outside the memory

gasCall read the call data before the memory was expanded (or paid for), so a
contract could make the node allocate up to 1 TB or slice out of range, and
CALL2 did not expand the memory at all.
---
 vm/gas_table.go  | 5 +++++
 vm/jump_table.go | 2 ++
 vm/memory.go     | 3 ++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/vm/gas_table.go b/vm/gas_table.go
index bceddd5..2375c8b 100644
--- a/vm/gas_table.go
+++ b/vm/gas_table.go
@@ -440,6 +440,11 @@ func gasCall(vm *VM, c *contract, stack *stack, mem *memory, memorySize uint64)
 	if err != nil {
 		return 0, true, err
 	}
+	if gas > c.quotaLeft {
+		// The memory expansion can't be paid for, which is reported as out of quota by the caller.
+		// Don't read (and allocate) the data.
+		return gas, true, nil
+	}
 	toAddrBig, tokenIDBig, amount, inOffset, inSize := stack.back(0), stack.back(1), stack.back(2), stack.back(3), stack.back(4)
 	toAddress, _ := types.BigToAddress(toAddrBig)
 	tokenID, _ := types.BigToTokenTypeId(tokenIDBig)
diff --git a/vm/jump_table.go b/vm/jump_table.go
index 4ea8494..81ab8eb 100644
--- a/vm/jump_table.go
+++ b/vm/jump_table.go
@@ -44,6 +44,7 @@ func newEarthInstructionSet() [256]operation {
 		execute:       opCall2,
 		gasCost:       gasCall2,
 		validateStack: makeStackFunc(5, 1),
+		memorySize:    memoryCall,
 		valid:         true,
 	}
 	return instructionSet
@@ -54,6 +55,7 @@ func newEarthOffchainInstructionSet() [256]operation {
 		execute:       opOffchainCall2,
 		gasCost:       gasCall2,
 		validateStack: makeStackFunc(5, 1),
+		memorySize:    memoryCall,
 		valid:         true,
 	}
 	return instructionSet
diff --git a/vm/memory.go b/vm/memory.go
index 2f79437..69cee1b 100644
--- a/vm/memory.go
+++ b/vm/memory.go
@@ -37,8 +37,9 @@ func (m *memory) get(offset, size int64) (cpy []byte) {
 	}
 
 	if len(m.store) > int(offset) {
+		// bytes beyond the end of the memory read as zero
 		cpy = make([]byte, size)
-		copy(cpy, m.store[offset:offset+size])
+		copy(cpy, m.store[offset:])
 
 		return cpy
 	}
-- 
2.43.0


From 7adfcca859c1dd482784285ae6d96ce9c2df2c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:23 +0000
Subject: [PATCH 05/45] fix: discovery closet keeps the nearest nodes when it
 is full (C25)

---
 net/discovery/table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/net/discovery/table.go b/net/discovery/table.go
index 60a35ce..1ea993c 100644
--- a/net/discovery/table.go
+++ b/net/discovery/table.go
@@ -662,8 +662,9 @@ func (c *closet) push(n *Node) {
 
 	// closest Nodes list is full.
 	if length >= cap(c.nodes) {
-		// replace the further one.
+		// drop the furthest one, keep the others.
 		if further < length {
+			copy(c.nodes[further+1:], c.nodes[further:length-1])
 			c.nodes[further] = n
 		}
 	} else {
-- 
2.43.0


From 4014ee1423b4fe117bba9761c8f10ada723c2c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:23 +0000
Subject: [PATCH 06/45] fix: discovery replaces the pinged node only if it is
 still in the table and the new one is not (C25)

---
 net/discovery/table.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/net/discovery/table.go b/net/discovery/table.go
index 1ea993c..a7336a3 100644
--- a/net/discovery/table.go
+++ b/net/discovery/table.go
@@ -455,9 +455,14 @@ func (tab *table) checkReplace(bkt bucket, oldNode, newNode *Node) {
 	tab.socket.ping(oldNode, func(err error) {
 		if err != nil {
 			tab.rw.Lock()
-			if bkt.replace(oldNode.ID, newNode) {
-				delete(tab.nodeMap, oldNode.Address())
-				tab.nodeMap[newNode.Address()] = newNode
+			// the table may have changed while waiting for the pong
+			if bkt.resolve(oldNode.ID) == oldNode {
+				if bkt.resolve(newNode.ID) != nil || tab.nodeMap[newNode.Address()] != nil {
+					tab.removeLocked(oldNode.ID)
+				} else if bkt.replace(oldNode.ID, newNode) {
+					delete(tab.nodeMap, oldNode.Address())
+					tab.nodeMap[newNode.Address()] = newNode
+				}
 			}
 			tab.rw.Unlock()
 			discvLog.Warn("replace %s to %s", oldNode, newNode)
-- 
2.43.0


From 03c25d3beedf0a9f9a40f424b0aea1a6a9221284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:23 +0000
Subject: [PATCH 07/45] fix: discovery table looks a node up and adds it in one
 critical section (C25)

---
 net/discovery/table.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/net/discovery/table.go b/net/discovery/table.go
index a7336a3..efd5531 100644
--- a/net/discovery/table.go
+++ b/net/discovery/table.go
@@ -398,20 +398,20 @@ func (tab *table) add(node *Node) (toCheck *Node) {
 
 	addr := node.Address()
 
+	// look up and insert in one critical section, so that two concurrent additions cannot both miss the other
+	tab.rw.Lock()
+	defer tab.rw.Unlock()
+
 	bkt := tab.getBucket(node.ID)
 	old := bkt.resolve(node.ID)
 	if old == nil {
-		tab.rw.Lock()
 		old = tab.nodeMap[addr]
-		tab.rw.Unlock()
 	}
 
 	if old != nil {
 		// nothing change
 		if old.Equal(&node.Node) {
-			tab.rw.Lock()
 			bkt.bubble(node.ID)
-			tab.rw.Unlock()
 			return nil
 		}
 
@@ -425,8 +425,6 @@ func (tab *table) add(node *Node) (toCheck *Node) {
 	}
 
 	// no nodes with the same id and address, and net is the same
-	tab.rw.Lock()
-	defer tab.rw.Unlock()
 	toCheck = bkt.add(node)
 	if toCheck == nil {
 		// bucket not full
-- 
2.43.0


From b7aa265c6b8f6f68785b1fc57776920b71c5acc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:42 +0000
Subject: [PATCH 08/45] fix: wallet lock event listeners no longer overwrite
 each other (C26)

---
 wallet/manager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wallet/manager.go b/wallet/manager.go
index fc78e87..c5fd9cc 100644
--- a/wallet/manager.go
+++ b/wallet/manager.go
@@ -337,7 +337,7 @@ func (m *Manager) Stop() {
 	m.entropyStoreManager = nil
 }
 
-func (m Manager) AddLockEventListener(lis func(event entropystore.UnlockEvent)) int {
+func (m *Manager) AddLockEventListener(lis func(event entropystore.UnlockEvent)) int {
 	m.mutex.Lock()
 	defer m.mutex.Unlock()
 
@@ -346,7 +346,7 @@ func (m Manager) AddLockEventListener(lis func(event entropystore.UnlockEvent))
 	return m.unlockChangedIndex
 }
 
-func (m Manager) RemoveUnlockChangeChannel(id int) {
+func (m *Manager) RemoveUnlockChangeChannel(id int) {
 	m.mutex.Lock()
 	defer m.mutex.Unlock()
 	delete(m.unlockChangedLis, id)
-- 
2.43.0


From 67ae8bbd868bbd060e70542ece8416f54e94a2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:42 +0000
Subject: [PATCH 09/45] fix: wallet removes an entropy store given by its
 relative name (C26)

---
 wallet/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/manager.go b/wallet/manager.go
index c5fd9cc..f7935b5 100644
--- a/wallet/manager.go
+++ b/wallet/manager.go
@@ -272,7 +272,7 @@ func (m *Manager) RemoveEntropyStore(entropyStore string) {
 	manager, ok := m.entropyStoreManager[absPath]
 	if ok {
 		manager.Lock()
-		delete(m.entropyStoreManager, entropyStore)
+		delete(m.entropyStoreManager, absPath)
 	}
 }
 
-- 
2.43.0


From d5999057c582cb2ae142a76f67b6fc2de59b6eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:55 +0000
Subject: [PATCH 10/45] fix: report an error for an entropy file with a bad
 nonce length or bad scrypt parameters (C26)

---
 crypto/crypto.go                    | 4 ++++
 wallet/entropystore/crypto_store.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index 8d08c14..99173e4 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -135,6 +135,10 @@ func AesGCMDecrypt(key, cipherText, nonce []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(nonce) != stream.NonceSize() {
+		return nil, errors.New("crypto: incorrect nonce length given to GCM")
+	}
+
 	outText, err := stream.Open(nil, nonce, cipherText, []byte(gcmAdditionData))
 	if err != nil {
 		return nil, err
diff --git a/wallet/entropystore/crypto_store.go b/wallet/entropystore/crypto_store.go
index 1965c99..42296e4 100644
--- a/wallet/entropystore/crypto_store.go
+++ b/wallet/entropystore/crypto_store.go
@@ -131,6 +131,10 @@ func DecryptEntropy(entropyJson []byte, passphrase string) ([]byte, error) {
 	}
 	scryptParams := k.Crypto.ScryptParams
 
+	if scryptParams.R <= 0 || scryptParams.P <= 0 || scryptParams.KeyLen < 32 {
+		return nil, walleterrors.ErrDecryptEntropy
+	}
+
 	// begin decrypt
 	derivedKey, err := scrypt.Key([]byte(passphrase), salt, scryptParams.N, scryptParams.R, scryptParams.P, scryptParams.KeyLen)
 	if err != nil {
-- 
2.43.0


From 412878624a9353908573889085a7b4bc9c3b4474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:41 +0000
Subject: [PATCH 11/45] fix: reject a handshake whose key has a wrong length
 instead of crashing (C24)

---
 net/handshaker.go | 2 +-
 net/sync_conn.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/handshaker.go b/net/handshaker.go
index aab1a03..a422215 100644
--- a/net/handshaker.go
+++ b/net/handshaker.go
@@ -214,7 +214,7 @@ func (h *handshaker) verifyHandshake(their *HandshakeMsg, secret []byte) (err er
 	hash := crypto.Hash256(t)
 	token := xor(hash, secret)
 	if len(their.Key) != 0 {
-		if false == ed25519.Verify(their.Key, token, their.Token) {
+		if len(their.Key) != ed25519.PublicKeySize || false == ed25519.Verify(their.Key, token, their.Token) {
 			err = PeerInvalidSignature
 			return
 		}
diff --git a/net/sync_conn.go b/net/sync_conn.go
index cac0284..e20d4ef 100644
--- a/net/sync_conn.go
+++ b/net/sync_conn.go
@@ -271,7 +271,7 @@ func (d *defaultSyncConnectionFactory) receive(conn net2.Conn) (*syncConn, error
 	hash := crypto.Hash256(t)
 	token := xor(hash, secret)
 	if len(hk.key) != 0 {
-		if false == ed25519.Verify(hk.key, token, hk.token) {
+		if len(hk.key) != ed25519.PublicKeySize || false == ed25519.Verify(hk.key, token, hk.token) {
 			_ = c.c.WriteMsg(Msg{
 				Code:    CodeDisconnect,
 				Payload: []byte{byte(PeerInvalidSignature)},
-- 
2.43.0


From cf727aa342f97d1dcfa2559be54080d1ca84dc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:41 +0000
Subject: [PATCH 12/45] fix: keep compressed message payloads within the
 payload limit (C24)

---
 net/codec.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/net/codec.go b/net/codec.go
index 79a6d32..5c36689 100644
--- a/net/codec.go
+++ b/net/codec.go
@@ -238,6 +238,10 @@ func (t *transport) ReadMsg() (msg Msg, err error) {
 			err = fmt.Errorf("failed to decode message length: %v", err)
 			return
 		}
+		if payloadReadLength > maxPayloadSize {
+			err = errMsgPayloadTooLarge
+			return
+		}
 
 		payloadUncompressed := make([]byte, payloadReadLength)
 		payloadUncompressed, err = snappy.Decode(payloadUncompressed, msg.Payload)
@@ -254,6 +258,10 @@ func (t *transport) ReadMsg() (msg Msg, err error) {
 
 // WriteMsg is NOT thread-safe
 func (t *transport) WriteMsg(msg Msg) (err error) {
+	if len(msg.Payload) > maxPayloadSize {
+		return errMsgPayloadTooLarge
+	}
+
 	_ = t.SetWriteDeadline(time.Now().Add(t.writeTimeout))
 
 	head := t.writeHeadBuf[:]
-- 
2.43.0


From f9bdc246691cf8dd705d1b62d5721142eb751757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:42 +0000
Subject: [PATCH 13/45] fix: bound the node count a findnode request makes the
 table allocate (C24)

---
 net/discovery/table.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/net/discovery/table.go b/net/discovery/table.go
index efd5531..dd93bf1 100644
--- a/net/discovery/table.go
+++ b/net/discovery/table.go
@@ -510,6 +510,13 @@ func (tab *table) bubble(id vnode.NodeID) bool {
 }
 
 func (tab *table) findNeighbors(target vnode.NodeID, count int) (nodes []*Node) {
+	if count < 0 {
+		count = 0
+	}
+	if max := tab.max(); count > max {
+		count = max
+	}
+
 	ns := &closet{
 		nodes: make([]*Node, 0, count),
 		pivot: target,
-- 
2.43.0


From 084d89dcb4de89952aa6c91580cd8f810398e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:42 +0000
Subject: [PATCH 14/45] fix: answer a hash list request with step 0 by an
 exception instead of crashing (C24)

---
 net/msghandler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/msghandler.go b/net/msghandler.go
index 5c93c67..9d8cd4f 100644
--- a/net/msghandler.go
+++ b/net/msghandler.go
@@ -230,6 +230,9 @@ func (c *checkHandler) handleGetHashHeightList(get *GetHashHeightList) (code Cod
 	}
 
 	step := get.Step
+	if step == 0 {
+		return CodeException, ExpOther
+	}
 	start := (block.Height + 1) / step * step
 	if start < block.Height+1 {
 		start = block.Height + 1
-- 
2.43.0


From 71c81ebe1ed60849295d12076045a5c4bd962b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:42 +0000
Subject: [PATCH 15/45] fix: serve block queries chunk by chunk, so that a huge
 count cannot exhaust the memory (C24)

---
 net/msghandler.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/net/msghandler.go b/net/msghandler.go
index 9d8cd4f..14d849d 100644
--- a/net/msghandler.go
+++ b/net/msghandler.go
@@ -346,11 +346,13 @@ func (s *getSnapshotBlocksHandler) handle(msg Msg) (err error) {
 		}
 	}
 
-	chunks := splitChunk(from, to, syncTaskSize)
-
 	var blocks []*ledger.SnapshotBlock
-	for _, c := range chunks {
-		blocks, err = s.chain.GetSnapshotBlocksByHeight(c[0], true, c[1]-c[0]+1)
+	for end := uint64(0); to > 0 && from <= to; from = end + 1 {
+		if end = from + syncTaskSize - 1; end > to {
+			end = to
+		}
+
+		blocks, err = s.chain.GetSnapshotBlocksByHeight(from, true, end-from+1)
 		if err != nil || len(blocks) == 0 {
 			netLog.Warn(fmt.Sprintf("handle %s from %s error: %v", req, msg.Sender, err))
 			return msg.Sender.send(CodeException, msg.Id, ExpMissing)
@@ -429,11 +431,13 @@ func (a *getAccountBlocksHandler) handle(msg Msg) (err error) {
 		}
 	}
 
-	chunks := splitChunk(from, to, syncTaskSize)
-
 	var blocks []*ledger.AccountBlock
-	for _, c := range chunks {
-		blocks, err = a.chain.GetAccountBlocksByHeight(address, c[1], c[1]-c[0]+1)
+	for end := uint64(0); to > 0 && from <= to; from = end + 1 {
+		if end = from + syncTaskSize - 1; end > to {
+			end = to
+		}
+
+		blocks, err = a.chain.GetAccountBlocksByHeight(address, end, end-from+1)
 		if err != nil || len(blocks) == 0 {
 			netLog.Warn(fmt.Sprintf("handle %s from %s error: %v", req, msg.Sender, err))
 			return msg.Sender.send(CodeException, msg.Id, ExpMissing)
-- 
2.43.0


From cd9eb0fb3a1a350ee2eac34f9fb94d112ac64d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:43 +0000
Subject: [PATCH 16/45] fix: reject an empty exception message instead of
 crashing (C24)

---
 net/peer_error.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/peer_error.go b/net/peer_error.go
index de442dd..11af78f 100644
--- a/net/peer_error.go
+++ b/net/peer_error.go
@@ -125,6 +125,9 @@ func (exp Exception) Serialize() ([]byte, error) {
 }
 
 func (exp *Exception) Deserialize(buf []byte) error {
+	if len(buf) == 0 {
+		return errDeserialize
+	}
 	*exp = Exception(buf[0])
 	return nil
 }
-- 
2.43.0


From aa77c99c8b3e4415b5bfa0d9ef04f2c217f3a842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:11 +0000
Subject: [PATCH 17/45] fix: keep neighbors packets within the packet length
 (C24)

---
 net/discovery/socket.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/net/discovery/socket.go b/net/discovery/socket.go
index 0944506..f8addf2 100644
--- a/net/discovery/socket.go
+++ b/net/discovery/socket.go
@@ -259,11 +259,13 @@ func (a *agent) sendNodes(eps []*vnode.EndPoint, to *net.UDPAddr) (err error) {
 func splitEndPoints(eps []*vnode.EndPoint) (ept [][]*vnode.EndPoint) {
 	var sent, bytes int
 	for i, ep := range eps {
-		bytes += ep.Length()
+		// every endpoint takes 2 more bytes (tag and length) in the message
+		length := ep.Length() + 2
+		bytes += length
 
 		if bytes+300 > maxPayloadLength {
 			ept = append(ept, eps[sent:i])
-			bytes = 0
+			bytes = length
 			sent = i
 		}
 	}
-- 
2.43.0


From 3a56f7e248f8805a37dfff62a22bd32ebabb8022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:03 +0000
Subject: [PATCH 18/45] fix: a peer's heartbeat removes the disconnected
 neighbor, not the one added before it (C24)

---
 net/peer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/net/peer.go b/net/peer.go
index 15b3522..7958ce6 100644
--- a/net/peer.go
+++ b/net/peer.go
@@ -421,11 +421,11 @@ func (p *Peer) setPeers(ps []peerConn, patch bool) {
 	}
 
 	for _, c := range ps {
+		id, err = vnode.Bytes2NodeID(c.id)
+		if err != nil {
+			continue
+		}
 		if c.add {
-			id, err = vnode.Bytes2NodeID(c.id)
-			if err != nil {
-				continue
-			}
 			p.m[id] = struct{}{}
 		} else {
 			delete(p.m, id)
-- 
2.43.0


From 5f567d33aa89e40c268a3b03fa0c4d03b9d04a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:09 +0000
Subject: [PATCH 19/45] fix: do not reuse the file number of a discarded
 transaction's table (C27)

---
 common/db/xleveldb/db_transaction.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/db/xleveldb/db_transaction.go b/common/db/xleveldb/db_transaction.go
index a4b2bb2..23bf899 100644
--- a/common/db/xleveldb/db_transaction.go
+++ b/common/db/xleveldb/db_transaction.go
@@ -248,9 +248,9 @@ func (tr *Transaction) discard() {
 	// Discard transaction.
 	for _, t := range tr.tables {
 		tr.db.logf("transaction@discard @%d", t.fd.Num)
-		if err1 := tr.db.s.stor.Remove(t.fd); err1 == nil {
-			tr.db.s.reuseFileNum(t.fd.Num)
-		}
+		// The table may be open, cached or in use by an iterator. Its number is
+		// not reused, so that none of that is mistaken for another table.
+		tr.db.s.tops.remove(t)
 	}
 }
 
-- 
2.43.0


From a40dedaecb02afcca46e9ca566771e47f68325a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:09 +0000
Subject: [PATCH 20/45] fix: a transaction waits for a memdb that is already
 being flushed (C27)

---
 common/db/xleveldb/db_transaction.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/db/xleveldb/db_transaction.go b/common/db/xleveldb/db_transaction.go
index 23bf899..344b8d5 100644
--- a/common/db/xleveldb/db_transaction.go
+++ b/common/db/xleveldb/db_transaction.go
@@ -307,6 +307,12 @@ func (db *DB) OpenTransaction() (*Transaction, error) {
 		if _, err := db.rotateMem(0, true); err != nil {
 			return nil, err
 		}
+	} else if db.hasFrozenMem() {
+		// The last write has already rotated the memdb. Its entries are older
+		// than the transaction's, they must reach the tables first.
+		if err := db.compTriggerWait(db.mcompCmdC); err != nil {
+			return nil, err
+		}
 	}
 
 	// Wait compaction when certain threshold reached.
-- 
2.43.0


From 6e4f3eed7a0637f428b272957eda195d52d5da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:32 +0000
Subject: [PATCH 21/45] fix: block log rollback over files that are not cached
 (C18)

---
 ledger/chain/file_manager/fd_manager.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ledger/chain/file_manager/fd_manager.go b/ledger/chain/file_manager/fd_manager.go
index 72bca48..b51c9a9 100644
--- a/ledger/chain/file_manager/fd_manager.go
+++ b/ledger/chain/file_manager/fd_manager.go
@@ -158,8 +158,14 @@ func (fdSet *fdManager) DeleteTo(location *Location) error {
 			fdSet.writeFd = nil
 		}
 
-		cacheItem := fdSet.fileCache.Back().Value.(*fileCacheItem)
-		if cacheItem != nil {
+		// files that were not written since the start may not be cached
+		back := fdSet.fileCache.Back()
+		if back == nil {
+			break
+		}
+
+		cacheItem := back.Value.(*fileCacheItem)
+		if cacheItem != nil && cacheItem.FileId == i {
 
 			delete(fdSet.fileFdCache, cacheItem.FileId)
 
@@ -170,7 +176,7 @@ func (fdSet *fdManager) DeleteTo(location *Location) error {
 			cacheItem.BufferLen = 0
 			cacheItem.Mu.Unlock()
 
-			fdSet.fileCache.Remove(fdSet.fileCache.Back())
+			fdSet.fileCache.Remove(back)
 		}
 	}
 
-- 
2.43.0


From 91c53b811d6edd97b7a8d8fffc6444df733be79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:32 +0000
Subject: [PATCH 22/45] fix: range read of a cut block log file returns an
 error (C18)

---
 ledger/chain/file_manager/file_manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ledger/chain/file_manager/file_manager.go b/ledger/chain/file_manager/file_manager.go
index e55c8c7..22672cc 100644
--- a/ledger/chain/file_manager/file_manager.go
+++ b/ledger/chain/file_manager/file_manager.go
@@ -283,6 +283,10 @@ func (fm *FileManager) GetCacheStatusList() []interfaces.DBStatus {
 }
 
 func (fm *FileManager) readFile(fd *fileDescription, fromLocation *Location, toLocation *Location) ([]byte, error) {
+	if toLocation.Offset < fromLocation.Offset {
+		// the file is shorter than expected
+		return nil, io.EOF
+	}
 	buf := make([]byte, toLocation.Offset-fromLocation.Offset)
 
 	readN, rErr := fd.ReadAt(buf, fromLocation.Offset)
-- 
2.43.0


From 09961d56588d9fe69999c38e0d305d803a0ed717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:32 +0000
Subject: [PATCH 23/45] fix: reading a block log file that does not exist
 returns nil (C18)

---
 ledger/chain/file_manager/fd_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ledger/chain/file_manager/fd_manager.go b/ledger/chain/file_manager/fd_manager.go
index b51c9a9..7d18c9c 100644
--- a/ledger/chain/file_manager/fd_manager.go
+++ b/ledger/chain/file_manager/fd_manager.go
@@ -109,7 +109,7 @@ func (fdSet *fdManager) GetFd(fileId uint64) (*fileDescription, error) {
 	}
 
 	fd, err := fdSet.getFileFd(fileId)
-	if err != nil {
+	if err != nil || fd == nil {
 		return nil, err
 	}
 
-- 
2.43.0


From e58ea5076eb554ef237e24c83885d8494350d139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:32 +0000
Subject: [PATCH 24/45] fix: block log flush keeps the flushed part of an
 existing file (C18)

---
 ledger/chain/file_manager/fd.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ledger/chain/file_manager/fd.go b/ledger/chain/file_manager/fd.go
index bd02062..3bec1bc 100644
--- a/ledger/chain/file_manager/fd.go
+++ b/ledger/chain/file_manager/fd.go
@@ -98,14 +98,20 @@ func (fd *fileDescription) Flush(startOffset int64, buf []byte) (int, error) {
 	}
 
 	if cacheItem.FileWriter == nil {
-		fd, err := fd.fdSet.createNewFile(cacheItem.FileId)
+		// keep what an existing file has before startOffset
+		file, err := fd.fdSet.getFileFd(cacheItem.FileId)
 		if err != nil {
-			return 0, fmt.Errorf("fdSet.createNewFile failed, fileId is %d. Error: %s,", cacheItem.FileId, err)
+			return 0, fmt.Errorf("fdSet.getFileFd failed, fileId is %d. Error: %s,", cacheItem.FileId, err)
 		}
-		if fd == nil {
+		if file == nil {
+			if file, err = fd.fdSet.createNewFile(cacheItem.FileId); err != nil {
+				return 0, fmt.Errorf("fdSet.createNewFile failed, fileId is %d. Error: %s,", cacheItem.FileId, err)
+			}
+		}
+		if file == nil {
 			return 0, errors.New("fd is nil")
 		}
-		cacheItem.FileWriter = fd
+		cacheItem.FileWriter = file
 	}
 
 	file := cacheItem.FileWriter
-- 
2.43.0


From 2512ce55d903caafec3961299c79c25de7f37c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:32 +0000
Subject: [PATCH 25/45] fix: block log keeps files cached until their flush is
 done (C18)

---
 ledger/chain/file_manager/fd_manager.go   | 10 ++++-----
 ledger/chain/file_manager/file_manager.go | 26 +++++++++++++++++++++++
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/ledger/chain/file_manager/fd_manager.go b/ledger/chain/file_manager/fd_manager.go
index 7d18c9c..470b792 100644
--- a/ledger/chain/file_manager/fd_manager.go
+++ b/ledger/chain/file_manager/fd_manager.go
@@ -284,17 +284,17 @@ func (fdSet *fdManager) resetWriteFd(location *Location) error {
 		}
 	}
 
-	nextFlushStartLocation := fdSet.fileManager.NextFlushStartLocation()
+	flushedLocation := fdSet.fileManager.FlushedLocation()
 
 	var newItem *fileCacheItem
 
-	if nextFlushStartLocation != nil {
-		nextFlushStartFileId := nextFlushStartLocation.FileId
+	if flushedLocation != nil {
+		flushedFileId := flushedLocation.FileId
 
 		// remove stale cache
 		for fdSet.fileCache.Len() > fdSet.fileCacheLength {
 			item := fdSet.fileCache.Front().Value.(*fileCacheItem)
-			if item.FileId >= nextFlushStartFileId {
+			if item.FileId >= flushedFileId {
 				break
 			}
 
@@ -305,7 +305,7 @@ func (fdSet *fdManager) resetWriteFd(location *Location) error {
 		// ring buffer. reuse cache
 		if fdSet.fileCache.Len() >= fdSet.fileCacheLength {
 			newItem = fdSet.fileCache.Front().Value.(*fileCacheItem)
-			if newItem.FileId < nextFlushStartFileId {
+			if newItem.FileId < flushedFileId {
 				fdSet.fileCache.MoveToBack(fdSet.fileCache.Front())
 
 				delete(fdSet.fileFdCache, newItem.FileId)
diff --git a/ledger/chain/file_manager/file_manager.go b/ledger/chain/file_manager/file_manager.go
index 22672cc..3368c04 100644
--- a/ledger/chain/file_manager/file_manager.go
+++ b/ledger/chain/file_manager/file_manager.go
@@ -17,6 +17,10 @@ type FileManager struct {
 	nextFlushStartLocation *Location
 	prevFlushLocation      *Location
 
+	// everything before this location is on disk
+	flushedLocation *Location
+	flushedMu       sync.Mutex
+
 	fSyncWg sync.WaitGroup
 	log     log15.Logger
 }
@@ -35,6 +39,7 @@ func NewFileManager(dirName string, fileSize int64, cacheCount int) (*FileManage
 	fm.fdSet = fdSet
 	fm.nextFlushStartLocation = fm.fdSet.LatestLocation()
 	fm.prevFlushLocation = fm.nextFlushStartLocation
+	fm.flushedLocation = fm.nextFlushStartLocation
 
 	return fm, nil
 }
@@ -50,6 +55,14 @@ func (fm *FileManager) SetNextFlushStartLocation(location *Location) {
 	fm.nextFlushStartLocation = NewLocation(location.FileId, location.Offset)
 }
 
+// FlushedLocation returns the location before which everything is on disk. While a flush is running it is
+// before NextFlushStartLocation.
+func (fm *FileManager) FlushedLocation() *Location {
+	fm.flushedMu.Lock()
+	defer fm.flushedMu.Unlock()
+	return fm.flushedLocation
+}
+
 func (fm *FileManager) LatestLocation() *Location {
 	return fm.fdSet.LatestLocation()
 }
@@ -82,9 +95,14 @@ func (fm *FileManager) DeleteTo(location *Location) error {
 		return err
 	}
 
+	fm.flushedMu.Lock()
 	if location.Compare(fm.nextFlushStartLocation) < 0 {
 		fm.nextFlushStartLocation = location
 	}
+	if location.Compare(fm.flushedLocation) < 0 {
+		fm.flushedLocation = location
+	}
+	fm.flushedMu.Unlock()
 
 	// FOR DEBUG
 	//fm.log.Info(fmt.Sprintf("file manager delete to %+v, fm.nextFlushStartLocation is %+v, latest location is %+v", location, fm.nextFlushStartLocation, fm.LatestLocation()), "method", "DeleteTo")
@@ -150,6 +168,14 @@ func (fm *FileManager) Flush(startLocation *Location, targetLocation *Location,
 
 	fm.prevFlushLocation = targetLocation
 
+	// what was deleted during the flush has to be flushed again
+	fm.flushedMu.Lock()
+	fm.flushedLocation = targetLocation
+	if fm.nextFlushStartLocation.Compare(targetLocation) < 0 {
+		fm.flushedLocation = fm.nextFlushStartLocation
+	}
+	fm.flushedMu.Unlock()
+
 	return nil
 }
 func (fm *FileManager) GetNextLocation(location *Location) (*Location, error) {
-- 
2.43.0


From 783e23b20bb53364451599af1c6ad17e6cb4aa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:13 +0000
Subject: [PATCH 26/45] fix: sync cache keeps its chunk files when it is opened
 (C20)

---
 ledger/chain/sync_cache/sync_cache.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ledger/chain/sync_cache/sync_cache.go b/ledger/chain/sync_cache/sync_cache.go
index 7a3e295..3e67f7e 100644
--- a/ledger/chain/sync_cache/sync_cache.go
+++ b/ledger/chain/sync_cache/sync_cache.go
@@ -120,8 +120,9 @@ func (cache *syncCache) loadCaches() (err error) {
 			// a file not a dir
 			if false == file.IsDir() {
 				// remove useless file, like a unfinished writer file
-				if _, ok := keepFiles[file.Name()]; !ok {
-					_ = os.Remove(path.Join(cache.dirName, file.Name()))
+				filename := path.Join(cache.dirName, file.Name())
+				if _, ok := keepFiles[filename]; !ok {
+					_ = os.Remove(filename)
 				}
 			}
 		}
-- 
2.43.0


From 9928410d7e4ed376a318ead8f31a6a472ecfef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:13 +0000
Subject: [PATCH 27/45] fix: sync cache reader fails on a short record (C20)

---
 ledger/chain/sync_cache/reader.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ledger/chain/sync_cache/reader.go b/ledger/chain/sync_cache/reader.go
index c5dfbca..0aad5c5 100644
--- a/ledger/chain/sync_cache/reader.go
+++ b/ledger/chain/sync_cache/reader.go
@@ -65,7 +65,7 @@ func (reader *Reader) Read() (ab *ledger.AccountBlock, sb *ledger.SnapshotBlock,
 
 	// 4 bytes for payload length size
 	buf := reader.readBuffer[:4]
-	if _, err = fd.Read(buf); err != nil {
+	if _, err = io.ReadFull(fd, buf); err != nil {
 		return
 	}
 
@@ -79,14 +79,13 @@ func (reader *Reader) Read() (ab *ledger.AccountBlock, sb *ledger.SnapshotBlock,
 	}
 
 	buf = reader.readBuffer[:size]
-	if _, err = fd.Read(buf); err != nil {
+	if _, err = io.ReadFull(fd, buf); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return
 	}
 
-	if len(buf) != int(size) {
-		return nil, nil, errors.New("error size length")
-	}
-
 	// first payload byte is code
 	// rest is data
 	code := buf[0]
-- 
2.43.0


From 01c5aadc370d2f4f8dbc19048b85ec3f46b420c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:13 +0000
Subject: [PATCH 28/45] fix: sync cache does not store a deleted chunk in its
 index again (C20)

---
 ledger/chain/sync_cache/sync_cache.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ledger/chain/sync_cache/sync_cache.go b/ledger/chain/sync_cache/sync_cache.go
index 3e67f7e..a3312d1 100644
--- a/ledger/chain/sync_cache/sync_cache.go
+++ b/ledger/chain/sync_cache/sync_cache.go
@@ -179,6 +179,14 @@ func (cache *syncCache) updateIndex(item *cacheItem) (err error) {
 		return
 	}
 
+	cache.mu.RLock()
+	defer cache.mu.RUnlock()
+
+	if !cache.contains(item) {
+		// deleted
+		return
+	}
+
 	err = cache.indexDB.Put(item.dbKey(), data, nil)
 	if err != nil {
 		cache.log.Warn(fmt.Sprintf("failed to store item: %v", err))
@@ -186,6 +194,15 @@ func (cache *syncCache) updateIndex(item *cacheItem) (err error) {
 	return
 }
 
+func (cache *syncCache) contains(item *cacheItem) bool {
+	for _, c := range cache.caches {
+		if c == item {
+			return true
+		}
+	}
+	return false
+}
+
 func (cache *syncCache) NewReader(segment interfaces.Segment) (interfaces.ChunkReader, error) {
 	item, ok := cache.findSeg(segment)
 
-- 
2.43.0


From fef15fb6e7763ce612c98cafeb57b0066dda07eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:38 +0000
Subject: [PATCH 29/45] fix: keep the branch a switch goes to when pruning
 empties it (C21)

SwitchMainTo prunes its target first. When all of the target's blocks were
held by its parent as well, prune took the target out of the branch list and
the tree went on with a main branch it does not list.
---
 ledger/pool/tree/branch.go    | 18 ++++++++++++------
 ledger/pool/tree/tree_impl.go |  4 ++--
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/ledger/pool/tree/branch.go b/ledger/pool/tree/branch.go
index 8502c0d..1eb9bcf 100644
--- a/ledger/pool/tree/branch.go
+++ b/ledger/pool/tree/branch.go
@@ -78,6 +78,17 @@ func (self *branch) Type() BranchType {
 }
 
 func (self *branch) prune(t *tree) {
+	if self.pruneTail(t) && self.ID() != t.main.ID() && self.Size() == 0 {
+		err := t.removeBranch(self)
+		if err != nil {
+			t.log.Error("remove branch fail.", "id", self.ID())
+		}
+	}
+}
+
+// pruneTail prunes the parents and drops the knots the parents hold as well,
+// the branch itself stays in the tree even if it gets empty.
+func (self *branch) pruneTail(t *tree) bool {
 	if self.root.Type() == Normal {
 		self.root.(*branch).prune(t)
 	}
@@ -100,13 +111,8 @@ func (self *branch) prune(t *tree) {
 
 	if removed {
 		self.updateChildrenForRemoveTail(self.root, t)
-		if self.ID() != t.main.ID() && self.Size() == 0 {
-			err := t.removeBranch(self)
-			if err != nil {
-				t.log.Error("remove branch fail.", "id", self.ID())
-			}
-		}
 	}
+	return removed
 }
 
 func (self *branch) updateChildrenForRemoveTail(root Branch, t *tree) {
diff --git a/ledger/pool/tree/tree_impl.go b/ledger/pool/tree/tree_impl.go
index b858659..5c5df79 100644
--- a/ledger/pool/tree/tree_impl.go
+++ b/ledger/pool/tree/tree_impl.go
@@ -188,8 +188,8 @@ func (self *tree) SwitchMainTo(b Branch) error {
 	}
 	target := b.(*branch)
 
-	// first prune
-	target.prune(self)
+	// first prune, but keep the target
+	target.pruneTail(self)
 
 	// second modify
 	err := target.exchangeAllRoot(self)
-- 
2.43.0


From e0e74a2c632be13091654a005a309682a67c3d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:50 +0000
Subject: [PATCH 30/45] fix: track the callers of pending transactions per
 contract (C23)

The set of callers was shared by all contracts of a pool. Receiving a
caller's last transaction to one contract took the caller out of the set, and
its transactions to other contracts were no longer listed.
---
 ledger/onroad/pool/storage.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/ledger/onroad/pool/storage.go b/ledger/onroad/pool/storage.go
index 553b189..7d7dd3c 100644
--- a/ledger/onroad/pool/storage.go
+++ b/ledger/onroad/pool/storage.go
@@ -40,7 +40,13 @@ type onroadStorage struct {
 	db *leveldb.DB
 
 	mu      sync.RWMutex
-	callers sync.Map
+	callers sync.Map // callerKey
+}
+
+// callerKey is a caller which has pending transactions to a contract.
+type callerKey struct {
+	toAddr   types.Address
+	fromAddr types.Address
 }
 
 func newOnroadStorage(db *leveldb.DB) *onroadStorage {
@@ -50,12 +56,12 @@ func newOnroadStorage(db *leveldb.DB) *onroadStorage {
 	}
 }
 
-func (storage *onroadStorage) addCaller(caller types.Address) error {
-	storage.callers.Store(caller, 0)
+func (storage *onroadStorage) addCaller(toAddr, caller types.Address) error {
+	storage.callers.Store(callerKey{toAddr: toAddr, fromAddr: caller}, 0)
 	return nil
 }
-func (storage *onroadStorage) removeCaller(caller types.Address) {
-	storage.callers.Delete(caller)
+func (storage *onroadStorage) removeCaller(toAddr, caller types.Address) {
+	storage.callers.Delete(callerKey{toAddr: toAddr, fromAddr: caller})
 }
 
 func (storage *onroadStorage) insertOnRoadTx(tx OnroadTx) error {
@@ -64,7 +70,7 @@ func (storage *onroadStorage) insertOnRoadTx(tx OnroadTx) error {
 
 	// fmt.Println("add on road tx", tx.String())
 
-	storage.addCaller(tx.FromAddr)
+	storage.addCaller(tx.ToAddr, tx.FromAddr)
 	// batch.Put(tx.toOnroadHeightKey().Bytes(), tx.toOnroadHeightValue())
 	return storage.db.Put(tx.toOnroadHeightKey().Bytes(), tx.toOnroadHeightValue(), nil)
 }
@@ -85,7 +91,7 @@ func (storage *onroadStorage) deleteOnRoadTx(tx OnroadTx) error {
 		return err
 	}
 	if len(txs) == 0 {
-		storage.removeCaller(tx.FromAddr)
+		storage.removeCaller(tx.ToAddr, tx.FromAddr)
 	}
 	return nil
 }
@@ -112,7 +118,10 @@ func (storage *onroadStorage) GetAllFirstOnroadTx(addr types.Address) (map[types
 	var resultErr error
 
 	storage.callers.Range(func(key interface{}, val interface{}) bool {
-		caller := key.(types.Address)
+		if key.(callerKey).toAddr != addr {
+			return true
+		}
+		caller := key.(callerKey).fromAddr
 		txs, err := storage.getFirstOnroadTx(addr, caller)
 		if err != nil {
 			resultErr = err
-- 
2.43.0


From 6e58d7ec33bc9169ebaf7de120a1fbfda48b19a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:29 +0000
Subject: [PATCH 31/45] fix: handle the other contracts of an event when one
 has no onroad pool (C23)

---
 ledger/onroad/chain_events.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ledger/onroad/chain_events.go b/ledger/onroad/chain_events.go
index 72b8179..91ed4e7 100644
--- a/ledger/onroad/chain_events.go
+++ b/ledger/onroad/chain_events.go
@@ -55,7 +55,7 @@ func (manager *Manager) InsertAccountBlocks(blocks []*interfaces.VmAccountBlock)
 		}
 		orPool, exist := manager.onRoadPools.Load(gid)
 		if !exist || orPool == nil {
-			return nil
+			continue
 		}
 		// insert into OnRoadPool
 		if err := orPool.(onroad_pool.OnRoadPool).InsertAccountBlocks(addr, list); err != nil {
@@ -86,7 +86,7 @@ func (manager *Manager) PrepareDeleteAccountBlocks(blocks []*ledger.AccountBlock
 		}
 		orPool, exist := manager.onRoadPools.Load(meta.Gid)
 		if !exist || orPool == nil {
-			return nil
+			continue
 		}
 		// delete from OnRoadPool
 		if err := orPool.(onroad_pool.OnRoadPool).DeleteAccountBlocks(addr, list); err != nil {
@@ -149,7 +149,7 @@ func (manager *Manager) PrepareDeleteSnapshotBlocks(chunks []*ledger.SnapshotChu
 		}
 		orPool, exist := manager.onRoadPools.Load(meta.Gid)
 		if !exist || orPool == nil {
-			return nil
+			continue
 		}
 		// delete from OnRoadPool
 		if err := orPool.(onroad_pool.OnRoadPool).DeleteAccountBlocks(addr, list); err != nil {
-- 
2.43.0


From 1df4a755279f3feb2e64207e3535a53bd9bbcdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:51 +0000
Subject: [PATCH 32/45] fix: quota of recent snapshots is wrong on a fresh
 ledger and after a rebuild (C16)

---
 ledger/chain/cache/quota_list.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ledger/chain/cache/quota_list.go b/ledger/chain/cache/quota_list.go
index 5625588..425b5ec 100644
--- a/ledger/chain/cache/quota_list.go
+++ b/ledger/chain/cache/quota_list.go
@@ -223,6 +223,8 @@ func (ql *quotaList) build() (returnError error) {
 			return
 		}
 		if ql.list.Len() <= 0 {
+			ql.usedStart = nil
+			ql.globalUsed = types.QuotaInfo{}
 			return
 		}
 		ql.backElement = ql.list.Back().Value.(map[types.Address]*quotaInfo)
@@ -291,7 +293,8 @@ func (ql *quotaList) build() (returnError error) {
 			ql.list.PushBack(newItem)
 		}
 	} else {
-		snapshotSegments, err = ql.chain.GetSubLedger(startSbHeight, endSbHeight)
+		// the list already holds the snapshot block of endSbHeight
+		snapshotSegments, err = ql.chain.GetSubLedger(startSbHeight, endSbHeight-1)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 75033bc3ff46f2ee55b1c17f78e5d59000abaee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:51 +0000
Subject: [PATCH 33/45] fix: contract list of a group keeps rolled back
 contracts (C16)

---
 ledger/chain/state/delete.go | 12 ++++++++++++
 ledger/chain/state/write.go  |  9 ++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/ledger/chain/state/delete.go b/ledger/chain/state/delete.go
index 2445ad5..df8a15a 100644
--- a/ledger/chain/state/delete.go
+++ b/ledger/chain/state/delete.go
@@ -630,6 +630,18 @@ func (sDB *StateDB) compactHistoryStorage() {
 }
 
 func (sDB *StateDB) deleteContractMeta(batch interfaces.Batch, key []byte) {
+	// delete the entry in the contract list of the group, the value starts with the gid and the key ends with the address
+	metaBytes, err := sDB.store.Get(key)
+	if err != nil {
+		sDB.log.Error(fmt.Sprintf("sDB.store.Get failed, key is %d. Error: %s", key, err), "method", "deleteContractMeta")
+	} else if len(metaBytes) >= types.GidSize {
+		gidContractKey := make([]byte, 0, 1+types.GidSize+types.AddressSize)
+		gidContractKey = append(gidContractKey, chain_utils.GidContractKeyPrefix)
+		gidContractKey = append(gidContractKey, metaBytes[:types.GidSize]...)
+		gidContractKey = append(gidContractKey, key[1:]...)
+		batch.Delete(gidContractKey)
+	}
+
 	batch.Delete(key)
 
 	sDB.cache.Delete(contractAddrPrefix + string(key))
diff --git a/ledger/chain/state/write.go b/ledger/chain/state/write.go
index 036b0ad..3ef69c8 100644
--- a/ledger/chain/state/write.go
+++ b/ledger/chain/state/write.go
@@ -158,14 +158,13 @@ func (sDB *StateDB) WriteByRedo(blockHash types.Hash, addr types.Address, redoLo
 	for addr, metaBytes := range unsavedContractMeta {
 		contractKey := chain_utils.CreateContractMetaKey(addr)
 
-		gidContractKey := make([]byte, 0, 1+types.AddressSize+types.GidSize)
-		gidContractKey = append(gidContractKey, chain_utils.GidContractKeyPrefix)
-		gidContractKey = append(gidContractKey, addr.Bytes()...)
-		gidContractKey = append(gidContractKey, metaBytes[:types.GidSize]...)
+		var gid types.Gid
+		copy(gid[:], metaBytes[:types.GidSize])
+		gidContractKey := chain_utils.CreateGidContractKey(gid, &addr)
 
 		sDB.writeContractMeta(batch, contractKey.Bytes(), metaBytes)
 
-		batch.Put(gidContractKey, nil)
+		batch.Put(gidContractKey.Bytes(), nil)
 		// set
 	}
 
-- 
2.43.0


From 21fde803619d7f143a8b430aed445d92924f6d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:51 +0000
Subject: [PATCH 34/45] fix: rollback without redo logs leaves storage of an
 account as it was (C16)

---
 ledger/chain/state/delete.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/ledger/chain/state/delete.go b/ledger/chain/state/delete.go
index df8a15a..aaf57a5 100644
--- a/ledger/chain/state/delete.go
+++ b/ledger/chain/state/delete.go
@@ -480,16 +480,9 @@ func (sDB *StateDB) recoverStorageToSnapshot(batch *leveldb.Batch, height uint64
 
 		prevOk := iter.Prev()
 		prevKey := chain_utils.StorageHistoryKey{}.Construct(iter.Key())
-		if prevKey == nil {
-			sDB.log.Error("prevKey is nil.")
-			break
-		}
-		if prevKey.ExtraAddress() != addr {
-			sDB.log.Error("address is different.")
-			break
-		}
 
-		if prevOk && bytes.Equal(seekTemplateKey.ExtraKeyAndLen(), prevKey.ExtraKeyAndLen()) {
+		// there is no previous key when the first key of the address was written after the snapshot
+		if prevOk && prevKey != nil && bytes.Equal(seekTemplateKey.ExtraKeyAndLen(), prevKey.ExtraKeyAndLen()) {
 			if len(iter.Value()) > 0 {
 				batch.Put(storageTemplateKey.Bytes(), iter.Value())
 			} else {
-- 
2.43.0


From b2144cbfe74b191583cac0846aed1eafcf628ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:51 +0000
Subject: [PATCH 35/45] fix: account of a deleted first block is lost when the
 block comes again (C16)

---
 ledger/chain/index/account.go | 13 +++++++++++++
 ledger/chain/index/delete.go  |  7 +++++++
 2 files changed, 20 insertions(+)

diff --git a/ledger/chain/index/account.go b/ledger/chain/index/account.go
index f6fe846..28432e4 100644
--- a/ledger/chain/index/account.go
+++ b/ledger/chain/index/account.go
@@ -82,6 +82,19 @@ func (iDB *IndexDB) createAccount(batch interfaces.Batch, addr *types.Address) u
 	return newAccountId
 }
 
+func (iDB *IndexDB) deleteAccount(batch interfaces.Batch, addr *types.Address) error {
+	accountId, err := iDB.GetAccountId(addr)
+	if err != nil {
+		return err
+	}
+	if accountId > 0 {
+		batch.Delete(chain_utils.CreateAccountAddressKey(addr).Bytes())
+		batch.Delete(chain_utils.CreateAccountIdKey(accountId).Bytes())
+	}
+	iDB.accountCache.Remove(*addr)
+	return nil
+}
+
 func (iDB *IndexDB) queryLatestAccountId() (uint64, error) {
 	startKey := chain_utils.CreateAccountIdKey(1)
 	endKey := chain_utils.CreateAccountIdKey(helper.MaxUint64)
diff --git a/ledger/chain/index/delete.go b/ledger/chain/index/delete.go
index 6a10fe4..1b63e84 100644
--- a/ledger/chain/index/delete.go
+++ b/ledger/chain/index/delete.go
@@ -87,6 +87,13 @@ func (iDB *IndexDB) deleteAccountBlocks(batch *leveldb.Batch, blocks []*ledger.A
 		// delete account block height index
 		iDB.deleteAccountBlockHeight(batch, block.AccountAddress, block.Height)
 
+		// delete account, it is created by its first block
+		if block.Height <= 1 {
+			if err := iDB.deleteAccount(batch, &block.AccountAddress); err != nil {
+				return err
+			}
+		}
+
 		if block.IsReceiveBlock() {
 			// if in send
 			if _, ok := sendBlockHashMap[block.FromBlockHash]; ok {
-- 
2.43.0


From fc350f6ac0917c792bb7f9c83c62cb3a27ab3450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:51 +0000
Subject: [PATCH 36/45] fix: round cache applies redo logs in reverse order
 after a restart (C16)

---
 ledger/chain/state/round_cache.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ledger/chain/state/round_cache.go b/ledger/chain/state/round_cache.go
index 0442517..3163cc8 100644
--- a/ledger/chain/state/round_cache.go
+++ b/ledger/chain/state/round_cache.go
@@ -3,6 +3,7 @@ package chain_state
 import (
 	"fmt"
 	"math/big"
+	"sort"
 	"sync"
 
 	leveldb "github.com/vitelabs/go-vite/v2/common/db/xleveldb"
@@ -649,7 +650,12 @@ func (cache *RoundCache) queryRedoLogs(roundIndex uint64) (returnRedoLogs *Round
 
 	roundRedoLogs := NewRoundCacheRedoLogs()
 
-	// assume snapshot blocks is sorted by height asc, query redoLog by snapshot block height
+	// the redo logs are applied in the order of height, but the snapshot blocks queried are sorted by height desc
+	sort.Slice(snapshotBlocks, func(i, j int) bool {
+		return snapshotBlocks[i].Height < snapshotBlocks[j].Height
+	})
+
+	// query redoLog by snapshot block height
 	for _, snapshotBlock := range snapshotBlocks {
 		redoLog, hasRedoLog, err := cache.stateDB.Redo().QueryLog(snapshotBlock.Height)
 		if err != nil {
-- 
2.43.0


From 093350f902e198267e7e9541f72a429794e698ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:51 +0000
Subject: [PATCH 37/45] fix: DeleteSnapshotBlocks panics on an unknown hash
 (C16)

---
 ledger/chain/delete.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ledger/chain/delete.go b/ledger/chain/delete.go
index da67a19..3a4c3eb 100644
--- a/ledger/chain/delete.go
+++ b/ledger/chain/delete.go
@@ -18,7 +18,7 @@ func (c *chain) DeleteSnapshotBlocks(toHash types.Hash) ([]*ledger.SnapshotChunk
 		return nil, cErr
 	}
 	if height <= 1 {
-		cErr := fmt.Errorf("height <= 1, snapshotHash is %s. Error: %s", toHash, err.Error())
+		cErr := fmt.Errorf("height <= 1, snapshotHash is %s", toHash)
 		c.log.Error(cErr.Error(), "method", "DeleteSnapshotBlocks")
 		return nil, cErr
 	}
-- 
2.43.0


From 9ff67745cb1d3833c790e640aa4945775993d2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:51 +0000
Subject: [PATCH 38/45] fix: GetSnapshotHeadersAfterOrEqualTime returns nothing
 for a producer (C16)

---
 ledger/chain/snapshot_block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ledger/chain/snapshot_block.go b/ledger/chain/snapshot_block.go
index 8ea8531..e136544 100644
--- a/ledger/chain/snapshot_block.go
+++ b/ledger/chain/snapshot_block.go
@@ -407,7 +407,7 @@ func (c *chain) GetSnapshotHeadersAfterOrEqualTime(endHashHeight *ledger.HashHei
 		var result = make([]*ledger.SnapshotBlock, 0, len(snapshotHeaders)/75+3)
 		for _, snapshotHeader := range snapshotHeaders {
 			if snapshotHeader.Producer() == *producer {
-				result = append(result)
+				result = append(result, snapshotHeader)
 			}
 		}
 		return result, nil
-- 
2.43.0


From 58bd7c437d86af688feb1ce52746ad6b7649be2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:28 +0000
Subject: [PATCH 39/45] fix: a flush whose redo log cannot be written leaves
 the stores prepared, the next flush panics (C19)

---
 ledger/chain/flusher/flusher.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ledger/chain/flusher/flusher.go b/ledger/chain/flusher/flusher.go
index a57d547..11535c4 100644
--- a/ledger/chain/flusher/flusher.go
+++ b/ledger/chain/flusher/flusher.go
@@ -216,7 +216,9 @@ func (flusher *Flusher) flush() {
 
 	// write redo log
 	//flusher.log.Info("start write redo log")
+	// if write redo log failed, stop flushing and cancel prepare
 	if err := flusher.writeRedoLog(); err != nil {
+		flusher.cancelPrepare()
 		return
 	}
 	//flusher.log.Info("finish writing redo log")
@@ -438,6 +440,12 @@ func (flusher *Flusher) syncRedoLog() bool {
 
 	flusher.log.Error(fmt.Sprintf("sync failed. Error: %s", err.Error()), "method", "Flush")
 
+	flusher.cancelPrepare()
+
+	return false
+}
+
+func (flusher *Flusher) cancelPrepare() {
 	// cancel prepare, lock write
 	flusher.mu.Lock()
 
@@ -452,8 +460,6 @@ func (flusher *Flusher) syncRedoLog() bool {
 	if err := flusher.cleanRedoLog(); err != nil {
 		flusher.log.Error(err.Error(), "method", "Flush")
 	}
-
-	return false
 }
 
 func (flusher *Flusher) commit() error {
-- 
2.43.0


From 3b9ff823de34f270ab21201effb93d7f187bc609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:11 +0000
Subject: [PATCH 40/45] fix: a request block keeps whatever log hash its sender
 claims (C29)

RunV2 recomputes the log hash of receive blocks only, so a request block with
any log hash passed verification, and storing it overwrote the log list kept
under that hash.
---
 vm/vm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vm/vm.go b/vm/vm.go
index 999e8d0..8b09005 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -202,6 +202,8 @@ func (vm *VM) RunV2(db interfaces.VmDb, block *ledger.AccountBlock, sendBlock *l
 	vm.gasTable = util.QuotaTableByHeight(sb.Height)
 	// In case vm will update some fields of block, make a copy of block.
 	blockCopy := block.Copy()
+	// The log hash is a result of the execution, do not take it over.
+	blockCopy.LogHash = nil
 	if blockCopy.IsSendBlock() {
 		if blockCopy.BlockType == ledger.BlockTypeSendCreate {
 			quotaTotal, quotaAddition, err := quota.GetQuotaForBlock(
-- 
2.43.0


From c3d60486ed7f67cad8d893f2d9bbccf9de98208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:56 +0000
Subject: [PATCH 41/45] fix: the search for the irreversible block panics in
 the first period (C32)

---
 ledger/pool/pool_fork_checker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ledger/pool/pool_fork_checker.go b/ledger/pool/pool_fork_checker.go
index 28ea7c5..3e34dde 100644
--- a/ledger/pool/pool_fork_checker.go
+++ b/ledger/pool/pool_fork_checker.go
@@ -268,6 +268,10 @@ func (pl *pool) getLatestIrreversible(lastIdx uint64, nodeCnt int, ti core.TimeI
 		if err != nil {
 			return nil, err
 		}
+		if block == nil {
+			// the first period, no block is older
+			return &irreversibleInfo{point: nil, proofPoint: head, rollbackV: pl.rollbackVersion.Val()}, nil
+		}
 		point, err := pl.bc.GetSnapshotBlockByHeight(block.Height + 1)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From c6bac2cc12ce342523c72dd23c106b3ebf2a7e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:01 +0000
Subject: [PATCH 42/45] fix: a fork that fails on an invalid block panics if
 its valid part has become irreversible (C32)

---
 ledger/pool/pool_fork_checker.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ledger/pool/pool_fork_checker.go b/ledger/pool/pool_fork_checker.go
index 3e34dde..6caa379 100644
--- a/ledger/pool/pool_fork_checker.go
+++ b/ledger/pool/pool_fork_checker.go
@@ -37,6 +37,11 @@ func (pl *pool) checkFork() {
 	if err != nil {
 		pl.log.Error(fmt.Sprintf("fork snapshot fail. targetId:%s, targetHeight:%d, switch to current[%s].", longest.ID(), longestH, current.ID()), "err", err)
 		err = pl.snapshotFork(current, curTailHeight)
+		if errors.Cause(err) == errIrreversible {
+			// the part of the longest chain that was inserted is irreversible by now, stay on it
+			pl.log.Error(fmt.Sprintf("can't switch back to current[%s].", current.ID()), "err", err)
+			return
+		}
 		if err != nil {
 			panic(err)
 		}
@@ -164,6 +169,8 @@ func (irreversible irreversibleInfo) String() string {
 	return result
 }
 
+var errIrreversible = errors.New("check Irreversible Principle Fail")
+
 func (pl *pool) checkIrreversiblePrinciple(keyPoint *snapshotPoolBlock) error {
 	info := pl.pendingSc.irreversible
 	if info == nil {
@@ -186,7 +193,7 @@ func (pl *pool) checkIrreversiblePrinciple(keyPoint *snapshotPoolBlock) error {
 	if info.point.Height < keyPoint.Height() {
 		return nil
 	}
-	return errors.Errorf("check Irreversible Principle Fail, %s, keyPoint:%d", info.String(), keyPoint.Height())
+	return errors.WithMessage(errIrreversible, fmt.Sprintf("%s, keyPoint:%d", info.String(), keyPoint.Height()))
 }
 
 func (pl *pool) updateIrreversibleBlock() error {
-- 
2.43.0


From 3bdc0fa4cee2cefe9d301795238dc9aa548a7194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:01 +0000
Subject: [PATCH 43/45] fix: a branch of invalid snapshot blocks keeps the node
 from the valid one (C32)

---
 ledger/pool/pool.go          | 10 +++++-----
 ledger/pool/snapshot_pool.go |  4 ++++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ledger/pool/pool.go b/ledger/pool/pool.go
index e7502be..4457325 100644
--- a/ledger/pool/pool.go
+++ b/ledger/pool/pool.go
@@ -612,12 +612,12 @@ func (pl *pool) accountsCompact(filterDirty bool) int {
 	return sum
 }
 
+func (pl *pool) isFailed(block *snapshotPoolBlock) bool {
+	return block.failStat.isFail() || pl.hashBlacklist.Exists(block.Hash())
+}
+
 func (pl *pool) checkBlock(block *snapshotPoolBlock) bool {
-	fail := block.failStat.isFail()
-	if fail {
-		return false
-	}
-	if pl.hashBlacklist.Exists(block.Hash()) {
+	if pl.isFailed(block) {
 		return false
 	}
 	var result = true
diff --git a/ledger/pool/snapshot_pool.go b/ledger/pool/snapshot_pool.go
index 5cd9c2c..ce89f72 100644
--- a/ledger/pool/snapshot_pool.go
+++ b/ledger/pool/snapshot_pool.go
@@ -150,6 +150,10 @@ func (sp *snapshotPool) checkFork() (tree.Branch, uint64, error) {
 		return nil, 0, nil
 	}
 	curHeadH, _ := current.HeadHH()
+	if next := current.GetKnot(minHeight+1, false); next != nil && sp.pool.isFailed(next.(*snapshotPoolBlock)) {
+		// the current chain can't grow beyond a block that failed
+		curHeadH = minHeight
+	}
 	if longestH-sp.limitLongestNum < curHeadH {
 		return nil, 0, nil
 	}
-- 
2.43.0


From bcd8cde69c6f05ecdaeef5c3ec9214d5c1e02bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:31 +0000
Subject: [PATCH 44/45] fix: stopping the RPC server closes only one of its
 connections (C33)

---
 rpc/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpc/server.go b/rpc/server.go
index 41ecd3b..2715d07 100644
--- a/rpc/server.go
+++ b/rpc/server.go
@@ -263,7 +263,7 @@ func (s *Server) Stop() {
 		defer s.codecsMu.Unlock()
 		s.codecs.Each(func(c interface{}) bool {
 			c.(ServerCodec).Close()
-			return true
+			return false
 		})
 	}
 }
-- 
2.43.0


From f96d634c5a463d350592a99d64927556ef046f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:09 +0000
Subject: [PATCH 45/45] fix: a longer branch below the irreversible block keeps
 the node from every other branch (C32)

---
 ledger/pool/pool_fork_checker.go | 17 +++++++++++++++++
 ledger/pool/snapshot_pool.go     |  4 ++++
 2 files changed, 21 insertions(+)

diff --git a/ledger/pool/pool_fork_checker.go b/ledger/pool/pool_fork_checker.go
index 6caa379..eae218b 100644
--- a/ledger/pool/pool_fork_checker.go
+++ b/ledger/pool/pool_fork_checker.go
@@ -196,6 +196,23 @@ func (pl *pool) checkIrreversiblePrinciple(keyPoint *snapshotPoolBlock) error {
 	return errors.WithMessage(errIrreversible, fmt.Sprintf("%s, keyPoint:%d", info.String(), keyPoint.Height()))
 }
 
+// undoesIrreversible tells whether a switch to the branch is ruled out by the irreversible block.
+func (pl *pool) undoesIrreversible(branch tree.Branch) bool {
+	_, forked, err := pl.pendingSc.chainpool.tree.FindForkPointFromMain(branch)
+	if err != nil || forked == nil {
+		return false
+	}
+	keyPoint := forked.(*snapshotPoolBlock)
+	tailH, _ := pl.pendingSc.CurrentChain().TailHH()
+	if keyPoint.Height() > tailH {
+		return false
+	}
+	if err := pl.updateIrreversibleBlock(); err != nil {
+		return false
+	}
+	return errors.Cause(pl.checkIrreversiblePrinciple(keyPoint)) == errIrreversible
+}
+
 func (pl *pool) updateIrreversibleBlock() error {
 	nodeCnt := pl.sbpStatReader.GetNodeCount()
 	if nodeCnt < 3 {
diff --git a/ledger/pool/snapshot_pool.go b/ledger/pool/snapshot_pool.go
index ce89f72..d5b7847 100644
--- a/ledger/pool/snapshot_pool.go
+++ b/ledger/pool/snapshot_pool.go
@@ -136,6 +136,10 @@ func (sp *snapshotPool) checkFork() (tree.Branch, uint64, error) {
 		lH := sp.pool.realSnapshotHeight(l)
 		sp.log.Debug("find chain.", "id", l.ID(), "realH", lH, "headH", headHeight)
 		if lH > longestH {
+			if l.ID() != current.ID() && sp.pool.undoesIrreversible(l) {
+				// it must not keep the node from the longest of the others
+				continue
+			}
 			longestH = lH
 			longest = l
 			sp.log.Info("find more longer chain.", "id", l.ID(), "realH", lH, "headH", headHeight, "tailH", l.SprintTail())
-- 
2.43.0

