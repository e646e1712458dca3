From fa3ae91563950613b6fea788ffb1f88d753562df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 01/88] fix: refuse negative and overflowing lengths when
 reading from a buffer

A var-length prefix of 2^63 or more became a negative length, which passed
the bounds check and made ReadBytes panic; a large one overflowed seek+l.
---
 xbase/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xbase/buffer.go b/xbase/buffer.go
index 806d153..e6274bb 100644
--- a/xbase/buffer.go
+++ b/xbase/buffer.go
@@ -30,7 +30,7 @@ func NewBufferReader(data []byte) *Buffer {
 }
 
 func (b *Buffer) check(l int) error {
-	if (b.seek + l) > b.length {
+	if l < 0 || l > b.length-b.seek {
 		return fmt.Errorf("error.seek[%v].required[%v].length[%v]", b.seek, l, b.length)
 	}
 	return nil
-- 
2.43.0


From f7334699e790b0fa0f15937c17e99e4799a0c929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 02/88] fix: do not write the bech32 checksum into the caller's
 slice

---
 xbase/bech32.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xbase/bech32.go b/xbase/bech32.go
index 5cb92b2..1c756d5 100644
--- a/xbase/bech32.go
+++ b/xbase/bech32.go
@@ -79,7 +79,7 @@ func Bech32Decode(bech string) (string, []byte, error) {
 func Bech32Encode(hrp string, data []byte) (string, error) {
 	// Calculate the checksum of the data and append it at the end.
 	checksum := bech32Checksum(hrp, data)
-	combined := append(data, checksum...)
+	combined := append(append([]byte{}, data...), checksum...)
 
 	// The resulting bech32 string is the concatenation of the hrp, the
 	// separator 1, data and checksum. Everything after the separator is
-- 
2.43.0


From fa60c42f96b205ea8cd91ad4a186f0231101077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 03/88] fix: refuse segwit addresses without a version or with
 an illegal version or program length

An address whose data part is empty made WitnessDecode panic.
---
 xbase/witness.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xbase/witness.go b/xbase/witness.go
index a868b18..da20a40 100644
--- a/xbase/witness.go
+++ b/xbase/witness.go
@@ -15,10 +15,20 @@ func WitnessDecode(addr string) (string, byte, []byte, error) {
 	if err != nil {
 		return "", 0, nil, err
 	}
+	if len(data) == 0 {
+		return "", 0, nil, fmt.Errorf("missing witness version")
+	}
+	if data[0] > 16 {
+		return "", 0, nil, fmt.Errorf("invalid witness version %d", data[0])
+	}
 	res, err := convertBits(data[1:], 5, 8, false)
 	if err != nil {
 		return "", 0, nil, err
 	}
+	// BIP173: 2 to 40 bytes, and 20 or 32 bytes for version 0.
+	if len(res) < 2 || len(res) > 40 || (data[0] == 0 && len(res) != 20 && len(res) != 32) {
+		return "", 0, nil, fmt.Errorf("invalid witness program length %d", len(res))
+	}
 	return hrp, data[0], res, nil
 }
 
-- 
2.43.0


From 6f6d1ff43bb2f99c3efcf86dda5f135c8debd521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 04/88] fix: run the locking script separately from the
 unlocking script

The two were concatenated and conditionals were neither reset nor required
to be balanced, so the unlocking script OP_0 OP_IF skipped any locking
script and verified. Concatenation also wrote into spare capacity of the
unlocking slice.
---
 xvm/engine.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/xvm/engine.go b/xvm/engine.go
index b6f20b6..22ce57c 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -88,15 +88,14 @@ func (vm *Engine) Execute(program []byte) error {
 // Verify -- verify the unlocking and locking.
 func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 	// Unlocking.
+	vm.reset()
 	if err := vm.execute(unlocking, false); err != nil {
 		return err
 	}
 	copyStk := vm.dstack.Copy()
 
-	// Reset.
-	vm.reset()
-	script := append(unlocking, locking...)
-	if err := vm.execute(script, true); err != nil {
+	// Locking, runs as a separate script on the stack left by the unlocking.
+	if err := vm.execute(locking, true); err != nil {
 		return err
 	}
 
@@ -143,7 +142,7 @@ func (vm *Engine) execute(program []byte, final bool) error {
 		}
 
 		cur := vm.dstack.String()
-		if vm.debug && final && vm.instruction != nil {
+		if vm.debug && vm.instruction != nil {
 			trace := Trace{
 				Step:      vm.pc,
 				Executed:  vm.instruction.op.name,
@@ -156,6 +155,10 @@ func (vm *Engine) execute(program []byte, final bool) error {
 		vm.lastOp = vm.instruction.op.name
 	}
 
+	if len(vm.cstack) > 0 {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "unbalanced.conditional.at.end.of.script.execution")
+	}
+
 	if final {
 		if vm.dstack.Depth() > 0 {
 			v, err := vm.dstack.PopBool()
@@ -184,5 +187,6 @@ func (vm *Engine) branchShouldSkip() bool {
 
 func (vm *Engine) reset() {
 	vm.pc = 0
+	vm.cstack = nil
 	vm.dstack.Clean()
 }
-- 
2.43.0


From a9b5b8ebe4fe2db0fe146b581c389cbff6736911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 05/88] fix: execute the redeem script of every script-hash
 output

P2SH was recognised by leftover stack items, so an unlocking script that
pushed only the redeem script verified without running it, and leftovers
made other outputs run their top item as a script.
---
 xvm/engine.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xvm/engine.go b/xvm/engine.go
index 22ce57c..6d51183 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -100,7 +100,7 @@ func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 	}
 
 	// P2SH.
-	if vm.dstack.Depth() > 1 {
+	if isScriptHash(locking) {
 		vm.dstack = copyStk
 		redeem, err := vm.dstack.PopByteArray()
 		if err != nil {
@@ -185,6 +185,11 @@ func (vm *Engine) branchShouldSkip() bool {
 	return vm.cstack[len(vm.cstack)-1] != OpCondTrue
 }
 
+// isScriptHash -- returns whether the locking script is OP_HASH160 <20 bytes> OP_EQUAL.
+func isScriptHash(locking []byte) bool {
+	return len(locking) == 23 && locking[0] == OP_HASH160 && locking[1] == OP_DATA_20 && locking[22] == OP_EQUAL
+}
+
 func (vm *Engine) reset() {
 	vm.pc = 0
 	vm.cstack = nil
-- 
2.43.0


From ffbd2f3847e07c1fa56c05dd01d7e75db4a4ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 06/88] fix: refuse invalid key and signature counts and empty
 signatures in OP_CHECKMULTISIG

Negative or huge counts made the allocation panic, an empty signature was
indexed out of range and missing handlers were called.
---
 xvm/instruction_crypto.go | 40 ++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/xvm/instruction_crypto.go b/xvm/instruction_crypto.go
index 43901c1..6454027 100644
--- a/xvm/instruction_crypto.go
+++ b/xvm/instruction_crypto.go
@@ -12,6 +12,9 @@ import (
 	"github.com/keyfuse/tokucore/xerror"
 )
 
+// maxPubKeysPerMultiSig -- the maximum number of public keys of a multisig operation.
+const maxPubKeysPerMultiSig = 20
+
 // Stack:
 // [... signature pubkey] -> [... bool]
 func opHash160(vm *Engine) error {
@@ -74,12 +77,22 @@ func opCheckSigVerify(vm *Engine) error {
 // Stack:
 // [... dummy [sig ...] numsigs [pubkey ...] numpubkeys] -> [... bool]
 func opCheckMultiSig(vm *Engine) error {
+	if vm.sigHasher == nil {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "opCheckMultiSig:vm.signature.hasher.func.is.nil")
+	}
+	if vm.sigVerifier == nil {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "opCheckMultiSig:vm.signature.verifier.func.is.nil")
+	}
+
 	// pubkeys.
 	numKeys, err := vm.dstack.PopInt()
 	if err != nil {
 		return err
 	}
 	n := int(numKeys.Int32())
+	if n < 0 || n > maxPubKeysPerMultiSig {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:invalid.pubkeys.number[%v]", n))
+	}
 	pubKeys := make([][]byte, n)
 	for i := 0; i < n; i++ {
 		pubKey, err := vm.dstack.PopByteArray()
@@ -95,6 +108,9 @@ func opCheckMultiSig(vm *Engine) error {
 		return err
 	}
 	m := int(numSignatures.Int32())
+	if m < 0 {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:invalid.signatures.number[%v]", m))
+	}
 	if m > n {
 		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:more.signatures[%v].than.pubkeys[%v]", m, n))
 	}
@@ -121,17 +137,19 @@ func opCheckMultiSig(vm *Engine) error {
 	// Signature verify.
 	success := true
 	for sigIdx, pubKeyIdx := 0, 0; success && (sigIdx < m) && (pubKeyIdx < n); {
-		sig := signatures[sigIdx]
-		hashType := sig[len(sig)-1]
-		sigDER := sig[:len(sig)-1]
-
-		hash, err := vm.sigHasher(hashType)
-		if err != nil {
-			return err
-		}
-
-		if err := vm.sigVerifier(hash, sigDER, pubKeys[pubKeyIdx]); err == nil {
-			sigIdx++
+		// An empty signature never matches.
+		if sig := signatures[sigIdx]; len(sig) > 0 {
+			hashType := sig[len(sig)-1]
+			sigDER := sig[:len(sig)-1]
+
+			hash, err := vm.sigHasher(hashType)
+			if err != nil {
+				return err
+			}
+
+			if err := vm.sigVerifier(hash, sigDER, pubKeys[pubKeyIdx]); err == nil {
+				sigIdx++
+			}
 		}
 		pubKeyIdx++
 		if (n - pubKeyIdx) < (m - sigIdx) {
-- 
2.43.0


From 9765c304f20b51477bcf26a77ee061e83b531180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 07/88] fix: encode the smallest script number without
 panicking

---
 xvm/scriptnum.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xvm/scriptnum.go b/xvm/scriptnum.go
index 3ee6217..a292c7d 100644
--- a/xvm/scriptnum.go
+++ b/xvm/scriptnum.go
@@ -38,9 +38,9 @@ func (n ScriptNum) Bytes() []byte {
 		return nil
 	}
 	neg := n < 0
-	absvalue := n
+	absvalue := uint64(n)
 	if neg {
-		absvalue = -n
+		absvalue = -absvalue
 	}
 
 	// Encode to little endian.
-- 
2.43.0


From 5bddce85375133fd461c6f7548595fc17f54ef0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 08/88] fix: execute OP_1NEGATE, which the script builder emits
 for -1

---
 xvm/instruction.go          | 1 +
 xvm/instruction_pushdata.go | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/xvm/instruction.go b/xvm/instruction.go
index fd2a7d4..699777c 100644
--- a/xvm/instruction.go
+++ b/xvm/instruction.go
@@ -172,6 +172,7 @@ var opcodes = map[byte]opcode{
 	OP_PUSHDATA1: {OP_PUSHDATA1, "OP_PUSHDATA1", -1, opPushData},
 	OP_PUSHDATA2: {OP_PUSHDATA2, "OP_PUSHDATA2", -2, opPushData},
 	OP_PUSHDATA4: {OP_PUSHDATA4, "OP_PUSHDATA4", -4, opPushData},
+	OP_1NEGATE:   {OP_1NEGATE, "OP_1NEGATE", 1, op1Negate},
 	OP_TRUE:      {OP_TRUE, "OP_1", 1, opN},
 	OP_2:         {OP_2, "OP_2", 1, opN},
 	OP_3:         {OP_3, "OP_3", 1, opN},
diff --git a/xvm/instruction_pushdata.go b/xvm/instruction_pushdata.go
index d8f66a4..140764e 100644
--- a/xvm/instruction_pushdata.go
+++ b/xvm/instruction_pushdata.go
@@ -18,3 +18,9 @@ func opN(vm *Engine) error {
 	vm.dstack.PushInt(ScriptNum((vm.instruction.op.value - (OP_1 - 1))))
 	return nil
 }
+
+// op1Negate -- pushes -1 to the data stack.
+func op1Negate(vm *Engine) error {
+	vm.dstack.PushInt(ScriptNum(-1))
+	return nil
+}
-- 
2.43.0


From def7baecc7d3a9b8979c6d62854a61eb0fd09a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 09/88] fix: refuse variable-length integers that are not in
 canonical form

---
 xbase/buffer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xbase/buffer.go b/xbase/buffer.go
index e6274bb..08873e4 100644
--- a/xbase/buffer.go
+++ b/xbase/buffer.go
@@ -157,18 +157,27 @@ func (b *Buffer) ReadVarInt() (uint64, error) {
 			return 0, err
 		}
 		v = uint64(v1)
+		if v < 0xfd {
+			return 0, fmt.Errorf("buffer.varint[%v].not.canonical", v)
+		}
 	case 0xfe:
 		v1, err := b.ReadU32()
 		if err != nil {
 			return 0, err
 		}
 		v = uint64(v1)
+		if v <= 0xffff {
+			return 0, fmt.Errorf("buffer.varint[%v].not.canonical", v)
+		}
 	case 0xff:
 		v1, err := b.ReadU64()
 		if err != nil {
 			return 0, err
 		}
 		v = v1
+		if v <= 0xffffffff {
+			return 0, fmt.Errorf("buffer.varint[%v].not.canonical", v)
+		}
 	default:
 		v = uint64(first)
 	}
-- 
2.43.0


From 69fba61b4481bf45ea9c27b5bb999ec1b1829c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 10/88] fix: decode transactions without trusting their counts
 or keeping earlier inputs and outputs

---
 xcore/transaction.go | 111 +++++++++++++++++++++----------------------
 1 file changed, 53 insertions(+), 58 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index b2c8b11..64674c7 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -522,24 +522,23 @@ func (tx *Transaction) Deserialize(data []byte) error {
 	if ins, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
-	if ins > 0 {
-		tx.inputs = make([]*TxIn, ins)
-		for i := 0; i < int(ins); i++ {
-			txIn := &TxIn{}
-			if txIn.Hash, err = buffer.ReadBytes(hashSize); err != nil {
-				return err
-			}
-			if txIn.Index, err = buffer.ReadU32(); err != nil {
-				return err
-			}
-			if txIn.RawUnlockingScript, err = buffer.ReadVarBytes(); err != nil {
-				return err
-			}
-			if txIn.Sequence, err = buffer.ReadU32(); err != nil {
-				return err
-			}
-			tx.inputs[i] = txIn
+	// The counts are not trusted, so nothing is reserved for them.
+	tx.inputs = nil
+	for i := uint64(0); i < ins; i++ {
+		txIn := &TxIn{}
+		if txIn.Hash, err = buffer.ReadBytes(hashSize); err != nil {
+			return err
 		}
+		if txIn.Index, err = buffer.ReadU32(); err != nil {
+			return err
+		}
+		if txIn.RawUnlockingScript, err = buffer.ReadVarBytes(); err != nil {
+			return err
+		}
+		if txIn.Sequence, err = buffer.ReadU32(); err != nil {
+			return err
+		}
+		tx.inputs = append(tx.inputs, txIn)
 	}
 
 	// Outputs.
@@ -547,18 +546,16 @@ func (tx *Transaction) Deserialize(data []byte) error {
 	if outs, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
-	if outs > 0 {
-		tx.outputs = make([]*TxOut, outs)
-		for i := 0; i < int(outs); i++ {
-			txOut := &TxOut{}
-			if txOut.Value, err = buffer.ReadU64(); err != nil {
-				return err
-			}
-			if txOut.Script, err = buffer.ReadVarBytes(); err != nil {
-				return err
-			}
-			tx.outputs[i] = txOut
+	tx.outputs = nil
+	for i := uint64(0); i < outs; i++ {
+		txOut := &TxOut{}
+		if txOut.Value, err = buffer.ReadU64(); err != nil {
+			return err
 		}
+		if txOut.Script, err = buffer.ReadVarBytes(); err != nil {
+			return err
+		}
+		tx.outputs = append(tx.outputs, txOut)
 	}
 
 	// If the transaction's flag byte isn't 0x00 at this point, then one or
@@ -570,11 +567,12 @@ func (tx *Transaction) Deserialize(data []byte) error {
 				return err
 			}
 
-			in.Witness = make([][]byte, witCount)
 			for j := uint64(0); j < witCount; j++ {
-				if in.Witness[j], err = buffer.ReadVarBytes(); err != nil {
+				wit, err := buffer.ReadVarBytes()
+				if err != nil {
 					return err
 				}
+				in.Witness = append(in.Witness, wit)
 			}
 		}
 	}
@@ -634,24 +632,23 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 	if ins, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
-	if ins > 0 {
-		tx.inputs = make([]*TxIn, ins)
-		for i := 0; i < int(ins); i++ {
-			txIn := &TxIn{}
-			if txIn.Hash, err = buffer.ReadBytes(hashSize); err != nil {
-				return err
-			}
-			if txIn.Index, err = buffer.ReadU32(); err != nil {
-				return err
-			}
-			if txIn.RawUnlockingScript, err = buffer.ReadVarBytes(); err != nil {
-				return err
-			}
-			if txIn.Sequence, err = buffer.ReadU32(); err != nil {
-				return err
-			}
-			tx.inputs[i] = txIn
+	// The counts are not trusted, so nothing is reserved for them.
+	tx.inputs = nil
+	for i := uint64(0); i < ins; i++ {
+		txIn := &TxIn{}
+		if txIn.Hash, err = buffer.ReadBytes(hashSize); err != nil {
+			return err
+		}
+		if txIn.Index, err = buffer.ReadU32(); err != nil {
+			return err
 		}
+		if txIn.RawUnlockingScript, err = buffer.ReadVarBytes(); err != nil {
+			return err
+		}
+		if txIn.Sequence, err = buffer.ReadU32(); err != nil {
+			return err
+		}
+		tx.inputs = append(tx.inputs, txIn)
 	}
 
 	// Outputs.
@@ -659,18 +656,16 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 	if outs, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
-	if outs > 0 {
-		tx.outputs = make([]*TxOut, outs)
-		for i := 0; i < int(outs); i++ {
-			txOut := &TxOut{}
-			if txOut.Value, err = buffer.ReadU64(); err != nil {
-				return err
-			}
-			if txOut.Script, err = buffer.ReadVarBytes(); err != nil {
-				return err
-			}
-			tx.outputs[i] = txOut
+	tx.outputs = nil
+	for i := uint64(0); i < outs; i++ {
+		txOut := &TxOut{}
+		if txOut.Value, err = buffer.ReadU64(); err != nil {
+			return err
+		}
+		if txOut.Script, err = buffer.ReadVarBytes(); err != nil {
+			return err
 		}
+		tx.outputs = append(tx.outputs, txOut)
 	}
 
 	// Lock time.
-- 
2.43.0


From f694a1a8fdfb09b727f1f3b79a7868213d394a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 11/88] fix: keep the witness data of a decoded transaction
 when serialising it

---
 xcore/transaction.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 64674c7..8fa0bbc 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -434,7 +434,7 @@ func (tx *Transaction) WitnessSignature(idx int, hashType SigHashType, prv *xcry
 // HasWitness -- returns whether the inputs contain witness datas.
 func (tx *Transaction) HasWitness() bool {
 	for _, in := range tx.inputs {
-		if in.HasWitness() {
+		if len(in.Witness) > 0 {
 			return true
 		}
 	}
@@ -575,6 +575,9 @@ func (tx *Transaction) Deserialize(data []byte) error {
 				in.Witness = append(in.Witness, wit)
 			}
 		}
+		if !tx.HasWitness() {
+			return fmt.Errorf("witness.data.empty")
+		}
 	}
 
 	// Lock time.
-- 
2.43.0


From 3f0398e4b9216370caed30615f5c9f6197abb958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 12/88] fix: compute the signature hash of every hash type as
 Bitcoin does

---
 xcore/transaction.go | 66 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 15 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 8fa0bbc..98d53b5 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -279,35 +279,71 @@ func (tx *Transaction) EmbedIdxEcdsaSignature(idx int, pubkey *xcrypto.PubKey, e
 
 // RawSignatureHash -- returns transaction hash used to get signed/verified.
 func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
+	anyOneCanPay := (hashType & SigHashAnyOneCanPay) != 0
+	none := (hashType & sigHashMask) == SigHashNone
+	single := (hashType & sigHashMask) == SigHashSingle
+
+	// An input out of range, or a single type without the output of the same index,
+	// signs the number one.
+	if idx < 0 || idx >= len(tx.inputs) || (single && idx >= len(tx.outputs)) {
+		one := make([]byte, hashSize)
+		one[0] = 0x01
+		return one
+	}
+
 	buffer := xbase.NewBuffer()
 
 	// version
 	buffer.WriteU32(tx.version)
-	switch hashType {
-	case SigHashAll:
-		buffer.WriteVarInt(uint64(len(tx.inputs)))
-		for i, in := range tx.inputs {
-			buffer.WriteBytes(in.Hash)
-			buffer.WriteU32(in.Index)
-			if i == idx {
-				if in.RedeemScript != nil {
-					buffer.WriteVarBytes(in.RedeemScript)
-				} else {
-					script := xvm.RemoveOpcode(in.FinalLockingScript, byte(xvm.OP_CODESEPARATOR))
-					buffer.WriteVarBytes(script)
-				}
-			} else {
-				buffer.WriteVarBytes(nil)
+
+	// inputs
+	first, last := 0, len(tx.inputs)
+	if anyOneCanPay {
+		first, last = idx, idx+1
+	}
+	buffer.WriteVarInt(uint64(last - first))
+	for i := first; i < last; i++ {
+		in := tx.inputs[i]
+		buffer.WriteBytes(in.Hash)
+		buffer.WriteU32(in.Index)
+		if i == idx {
+			script := in.FinalLockingScript
+			if in.RedeemScript != nil {
+				script = in.RedeemScript
 			}
+			buffer.WriteVarBytes(xvm.RemoveOpcode(script, byte(xvm.OP_CODESEPARATOR)))
+		} else {
+			buffer.WriteVarBytes(nil)
+		}
+		// The other inputs may be updated when not all outputs are signed.
+		if i != idx && (none || single) {
+			buffer.WriteU32(0)
+		} else {
 			buffer.WriteU32(in.Sequence)
 		}
+	}
 
+	// outputs
+	switch {
+	case none:
+		buffer.WriteVarInt(0)
+	case single:
+		// The outputs before the one of the same index are blanked.
+		buffer.WriteVarInt(uint64(idx + 1))
+		for i := 0; i < idx; i++ {
+			buffer.WriteU64(0xffffffffffffffff)
+			buffer.WriteVarBytes(nil)
+		}
+		buffer.WriteU64(tx.outputs[idx].Value)
+		buffer.WriteVarBytes(tx.outputs[idx].Script)
+	default:
 		buffer.WriteVarInt(uint64(len(tx.outputs)))
 		for _, out := range tx.outputs {
 			buffer.WriteU64(out.Value)
 			buffer.WriteVarBytes(out.Script)
 		}
 	}
+
 	// Lock time
 	buffer.WriteU32(tx.lockTime)
 	// Hash type.
-- 
2.43.0


From ffd550b23213f5b3e542bbfcf11ce0d12ee5d72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 13/88] fix: sign the locking script of a key hash coin that
 was given a redeem script

---
 xcore/script_p2pkh.go | 6 ++++++
 xcore/transaction.go  | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/xcore/script_p2pkh.go b/xcore/script_p2pkh.go
index 6925d9a..749e285 100644
--- a/xcore/script_p2pkh.go
+++ b/xcore/script_p2pkh.go
@@ -92,3 +92,9 @@ func isPubkeyHash(instrs []xvm.Instruction) bool {
 		instrs[3].OpCode() == xvm.OP_EQUALVERIFY &&
 		instrs[4].OpCode() == xvm.OP_CHECKSIG
 }
+
+// isPubkeyHashScript -- returns true if the locking script bytes are a pay-to-pubkey-hash.
+func isPubkeyHashScript(script []byte) bool {
+	instrs, err := xvm.NewScriptReader(script).AllInstructions()
+	return err == nil && isPubkeyHash(instrs)
+}
diff --git a/xcore/transaction.go b/xcore/transaction.go
index 98d53b5..f3fba71 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -308,7 +308,7 @@ func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
 		buffer.WriteU32(in.Index)
 		if i == idx {
 			script := in.FinalLockingScript
-			if in.RedeemScript != nil {
+			if in.RedeemScript != nil && !isPubkeyHashScript(script) {
 				script = in.RedeemScript
 			}
 			buffer.WriteVarBytes(xvm.RemoveOpcode(script, byte(xvm.OP_CODESEPARATOR)))
-- 
2.43.0


From 2388ce869baa713433db912483c5a2e7b58b1ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 14/88] fix: compute BIP143 signature hashes from the current
 transaction, for every hash type

---
 xcore/transaction.go | 95 ++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 53 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index f3fba71..16ab279 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -111,13 +111,10 @@ func NewTxOut(value uint64, script []byte) *TxOut {
 
 // Transaction -- the bitcoin transaction.
 type Transaction struct {
-	version      uint32
-	lockTime     uint32
-	inputs       []*TxIn
-	outputs      []*TxOut
-	hashPrevouts []byte
-	hashSequence []byte
-	hashOutputs  []byte
+	version  uint32
+	lockTime uint32
+	inputs   []*TxIn
+	outputs  []*TxOut
 }
 
 // NewTransaction -- creates a new Transaction.
@@ -353,67 +350,59 @@ func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
 
 // WitnessV0SignatureHash -- returns transaction witness V0 signature hash.
 func (tx *Transaction) WitnessV0SignatureHash(idx int, hashType SigHashType) []byte {
-	var zeroHash [32]byte
 	txIn := tx.inputs[idx]
+	hashPrevouts := make([]byte, hashSize)
+	hashSequence := make([]byte, hashSize)
+	hashOutputs := make([]byte, hashSize)
+	anyOneCanPay := (hashType & SigHashAnyOneCanPay) != 0
+	none := (hashType & sigHashMask) == SigHashNone
+	single := (hashType & sigHashMask) == SigHashSingle
 
-	// hashPrevouts.
-	// If anyone can pay isn't active, then we can use the cached
-	// hashPrevOuts, otherwise we just write zeroes for the prev outs.
-	if (hashType & SigHashAnyOneCanPay) == 0 {
-		if tx.hashPrevouts == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, in := range tx.inputs {
-				hashBuffer.WriteBytes(in.Hash[:])
-				hashBuffer.WriteU32(in.Index)
-			}
-			tx.hashPrevouts = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	// hashPrevouts, zeroes if anyone can pay.
+	if !anyOneCanPay {
+		hashBuffer := xbase.NewBuffer()
+		for _, in := range tx.inputs {
+			hashBuffer.WriteBytes(in.Hash)
+			hashBuffer.WriteU32(in.Index)
 		}
-	} else {
-		tx.hashPrevouts = zeroHash[:]
+		hashPrevouts = xcrypto.DoubleSha256(hashBuffer.Bytes())
 	}
 
-	// If the sighash isn't anyone can pay, single, or none, the use the
-	// cached hash sequences, otherwise write all zeroes for the
-	// hashSequence.
-	if (hashType&SigHashAnyOneCanPay) == 0 && (hashType&sigHashMask) != SigHashSingle && (hashType&sigHashMask) != SigHashNone {
-		if tx.hashSequence == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, in := range tx.inputs {
-				hashBuffer.WriteU32(in.Sequence)
-			}
-			tx.hashSequence = xcrypto.DoubleSha256(hashBuffer.Bytes())
-		}
-	} else {
-		tx.hashSequence = zeroHash[:]
-	}
-
-	// If the current signature mode isn't single, or none, then we can
-	// re-use the pre-generated hashoutputs sighash fragment. Otherwise,
-	// we'll serialize and add only the target output index to the signature
-	// pre-image.
-	if hashType&SigHashSingle != SigHashSingle && hashType&SigHashNone != SigHashNone {
-		if tx.hashOutputs == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, out := range tx.outputs {
-				hashBuffer.WriteU64(out.Value)
-				hashBuffer.WriteVarBytes(out.Script)
-			}
-			tx.hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	// hashSequence, zeroes if anyone can pay, none or single.
+	if !anyOneCanPay && !none && !single {
+		hashBuffer := xbase.NewBuffer()
+		for _, in := range tx.inputs {
+			hashBuffer.WriteU32(in.Sequence)
+		}
+		hashSequence = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	}
+
+	// hashOutputs, all outputs, or the one of the same index if single,
+	// zeroes if none or single without such an output.
+	outputs := tx.outputs
+	if single && idx < len(tx.outputs) {
+		outputs = tx.outputs[idx : idx+1]
+		single = false
+	}
+	if !none && !single {
+		hashBuffer := xbase.NewBuffer()
+		for _, out := range outputs {
+			hashBuffer.WriteU64(out.Value)
+			hashBuffer.WriteVarBytes(out.Script)
 		}
-	} else {
-		tx.hashOutputs = zeroHash[:]
+		hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
 	}
 
 	buffer := xbase.NewBuffer()
 	buffer.WriteU32(tx.version)
-	buffer.WriteBytes(tx.hashPrevouts)
-	buffer.WriteBytes(tx.hashSequence)
+	buffer.WriteBytes(hashPrevouts)
+	buffer.WriteBytes(hashSequence)
 	buffer.WriteBytes(txIn.Hash)
 	buffer.WriteU32(txIn.Index)
 	buffer.WriteVarBytes(txIn.WitnessScriptCode)
 	buffer.WriteU64(txIn.Value)
 	buffer.WriteU32(txIn.Sequence)
-	buffer.WriteBytes(tx.hashOutputs)
+	buffer.WriteBytes(hashOutputs)
 	buffer.WriteU32(tx.lockTime)
 	buffer.WriteU32(uint32(hashType))
 	return xcrypto.DoubleSha256(buffer.Bytes())
-- 
2.43.0


From eaf14dcaf367b8fc828bd8815fd3c3820d9e2dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 15/88] fix: report the error when an unlocking script cannot
 be built

---
 xcore/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 16ab279..5f258db 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -256,7 +256,7 @@ func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
 	}
 	// Raw unlocking.
 	if txIn.RawUnlockingScript, err = scriptInstance.GetRawUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
-		return nil
+		return err
 	}
 	// Witness unlocking.
 	if txIn.Witness, err = scriptInstance.GetWitnessUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
-- 
2.43.0


From 424feb3cdbe21fa729dbe183103f0659609a62b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 16/88] fix: do not write the hash type into the caller's
 signature

---
 xcore/transaction.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 5f258db..fcba1e6 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -269,7 +269,9 @@ func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
 func (tx *Transaction) EmbedIdxEcdsaSignature(idx int, pubkey *xcrypto.PubKey, ecdsaSig []byte, hashType SigHashType) error {
 	var signs []PubKeySign
 
-	finalsig := append(ecdsaSig, byte(hashType))
+	finalsig := make([]byte, 0, len(ecdsaSig)+1)
+	finalsig = append(finalsig, ecdsaSig...)
+	finalsig = append(finalsig, byte(hashType))
 	signs = append(signs, PubKeySign{PubKey: pubkey.SerializeCompressed(), Signature: finalsig})
 	return tx.EmbedIdxSignature(idx, signs)
 }
-- 
2.43.0


From 7862dad138f32a45f75f62650306b130896c42cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 17/88] fix: refuse input indexes out of range

---
 xcore/transaction.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index fcba1e6..9f1812b 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -137,6 +137,9 @@ func (tx *Transaction) SetLockTime(time uint32) {
 // SetTxIn -- set the txin tuples.
 // Used for deserialize the transaction and verify.
 func (tx *Transaction) SetTxIn(idx int, amount uint64, script []byte, redeemScript []byte) error {
+	if err := tx.checkIndex(idx); err != nil {
+		return err
+	}
 	txIn := tx.inputs[idx]
 	scriptInstance, err := ParseLockingScript(script)
 	if err != nil {
@@ -172,6 +175,15 @@ func (tx *Transaction) SetTxIn(idx int, amount uint64, script []byte, redeemScri
 	return nil
 }
 
+// checkIndex -- check that the transaction has the input.
+func (tx *Transaction) checkIndex(idx int) error {
+	inputs := len(tx.inputs)
+	if idx < 0 || idx >= inputs {
+		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
+	}
+	return nil
+}
+
 // AddInput -- add a TxIn.
 func (tx *Transaction) AddInput(in *TxIn) {
 	tx.inputs = append(tx.inputs, in)
@@ -204,10 +216,12 @@ func (tx *Transaction) WitnessID() string {
 
 // SignIndex -- sign specified transaction input with pubkey format.
 func (tx *Transaction) SignIndex(idx int, compressed bool, hashType SigHashType, keys ...*xcrypto.PrvKey) error {
+	// Sanity check.
+	if err := tx.checkIndex(idx); err != nil {
+		return err
+	}
 	txIn := tx.inputs[idx]
 	signs := make([]PubKeySign, 0)
-
-	// Sanity check.
 	if len(keys) > 1 && txIn.RedeemScript == nil {
 		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_REDEEM_EMPTY, idx, len(keys))
 	}
@@ -243,9 +257,11 @@ func (tx *Transaction) SignIndex(idx int, compressed bool, hashType SigHashType,
 
 // EmbedIdxSignature -- build the unlocking with signs for the idx.
 func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
-	txIn := tx.inputs[idx]
-
 	// Sanity check.
+	if err := tx.checkIndex(idx); err != nil {
+		return err
+	}
+	txIn := tx.inputs[idx]
 	if len(signs) > 1 && txIn.RedeemScript == nil {
 		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_REDEEM_EMPTY, idx, len(signs))
 	}
@@ -413,9 +429,8 @@ func (tx *Transaction) WitnessV0SignatureHash(idx int, hashType SigHashType) []b
 // RawSignature -- sign the idx input and return the signature.
 func (tx *Transaction) RawSignature(idx int, hashType SigHashType, prv *xcrypto.PrvKey) ([]byte, error) {
 	// Sanity Check
-	inputs := len(tx.inputs)
-	if idx >= inputs {
-		return nil, xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
+	if err := tx.checkIndex(idx); err != nil {
+		return nil, err
 	}
 
 	txIn := tx.inputs[idx]
@@ -433,9 +448,8 @@ func (tx *Transaction) WitnessSignature(idx int, hashType SigHashType, prv *xcry
 	var signature []byte
 
 	// Sanity Check
-	inputs := len(tx.inputs)
-	if idx >= inputs {
-		return nil, xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
+	if err := tx.checkIndex(idx); err != nil {
+		return nil, err
 	}
 
 	in := tx.inputs[idx]
-- 
2.43.0


From b783bb74aaa35dea020c2a368ccec1b3c4092b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 18/88] fix: refuse to unlock a key hash coin without a
 signature

---
 xcore/error.go              | 2 ++
 xcore/script_p2pkh.go       | 4 ++++
 xcore/script_p2wpkh_v0.go   | 7 +++++++
 xcore/transactionbuilder.go | 2 +-
 4 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/xcore/error.go b/xcore/error.go
index 8a8e250..6f320dd 100644
--- a/xcore/error.go
+++ b/xcore/error.go
@@ -21,6 +21,7 @@ const (
 	ER_SCRIPT_STANDARD_ADDRESS_TYPE_UNSUPPORTED    int = 4105
 	ER_SCRIPT_STANDARD_PUBKEYS_LE_NREQUIRED        int = 4106
 	ER_SCRIPT_SIGNATURE_TYPE_UNKNOW                int = 4107
+	ER_SCRIPT_SIGNATURE_EMPTY                      int = 4108
 	ER_TRANSACTION_SIGN_OUT_INDEX                  int = 5000
 	ER_TRANSACTION_SIGN_REDEEM_EMPTY               int = 5001
 	ER_TRANSACTION_VERIFY_FAILED                   int = 5002
@@ -48,6 +49,7 @@ var Errors = map[int]*xerror.Error{
 	ER_SCRIPT_STANDARD_ADDRESS_TYPE_UNSUPPORTED:    {Num: ER_SCRIPT_STANDARD_ADDRESS_TYPE_UNSUPPORTED, State: "TS000", Message: "script.standard.unsupported.address.type[%v]"},
 	ER_SCRIPT_STANDARD_PUBKEYS_LE_NREQUIRED:        {Num: ER_SCRIPT_STANDARD_PUBKEYS_LE_NREQUIRED, State: "TS000", Message: "script.standard.pubkeys[%v].less.than.nrequired[%v]"},
 	ER_SCRIPT_SIGNATURE_TYPE_UNKNOW:                {Num: ER_SCRIPT_SIGNATURE_TYPE_UNKNOW, State: "TS000", Message: "script.signature.type.unknow[%v]"},
+	ER_SCRIPT_SIGNATURE_EMPTY:                      {Num: ER_SCRIPT_SIGNATURE_EMPTY, State: "TS000", Message: "script.signature.is.empty"},
 	ER_TRANSACTION_SIGN_OUT_INDEX:                  {Num: ER_TRANSACTION_SIGN_OUT_INDEX, State: "TTX00", Message: "transaction.sign.idx[%v].out.index[%v]"},
 	ER_TRANSACTION_SIGN_REDEEM_EMPTY:               {Num: ER_TRANSACTION_SIGN_REDEEM_EMPTY, State: "TTX00", Message: "transaction.sign.idx[%v].redeem.can.not.be.nil.since.keys[%v]>1"},
 	ER_TRANSACTION_VERIFY_FAILED:                   {Num: ER_TRANSACTION_VERIFY_FAILED, State: "TTX00", Message: "transaction.verify.for.input[%v].referencing[%v].at[%v].failed"},
diff --git a/xcore/script_p2pkh.go b/xcore/script_p2pkh.go
index 749e285..6795b54 100644
--- a/xcore/script_p2pkh.go
+++ b/xcore/script_p2pkh.go
@@ -6,6 +6,7 @@
 package xcore
 
 import (
+	"github.com/keyfuse/tokucore/xerror"
 	"github.com/keyfuse/tokucore/xvm"
 )
 
@@ -56,6 +57,9 @@ func (s *PayToPubKeyHashScript) GetFinalLockingScriptBytes(redeem []byte) ([]byt
 // unlocking: <sig> <pubkey>
 // witness:   (empty)
 func (s *PayToPubKeyHashScript) GetRawUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([]byte, error) {
+	if len(signs) == 0 {
+		return nil, xerror.NewError(Errors, ER_SCRIPT_SIGNATURE_EMPTY)
+	}
 	builder := xvm.NewScriptBuilder()
 	unlocking, err := builder.AddData(signs[0].Signature).AddData(signs[0].PubKey).Script()
 	return unlocking, err
diff --git a/xcore/script_p2wpkh_v0.go b/xcore/script_p2wpkh_v0.go
index 335a8a9..8800a54 100644
--- a/xcore/script_p2wpkh_v0.go
+++ b/xcore/script_p2wpkh_v0.go
@@ -6,6 +6,7 @@
 package xcore
 
 import (
+	"github.com/keyfuse/tokucore/xerror"
 	"github.com/keyfuse/tokucore/xvm"
 )
 
@@ -50,12 +51,18 @@ func (s *PayToWitnessV0PubKeyHashScript) GetFinalLockingScriptBytes(redeem []byt
 
 // GetRawUnlockingScriptBytes -- used to get raw unlocking script bytes.
 func (s *PayToWitnessV0PubKeyHashScript) GetRawUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([]byte, error) {
+	if len(signs) == 0 {
+		return nil, xerror.NewError(Errors, ER_SCRIPT_SIGNATURE_EMPTY)
+	}
 	builder := xvm.NewScriptBuilder()
 	return builder.AddData(signs[0].Signature).AddData(signs[0].PubKey).Script()
 }
 
 // GetWitnessUnlockingScriptBytes -- used to get witness script bytes.
 func (s *PayToWitnessV0PubKeyHashScript) GetWitnessUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([][]byte, error) {
+	if len(signs) == 0 {
+		return nil, xerror.NewError(Errors, ER_SCRIPT_SIGNATURE_EMPTY)
+	}
 	var witness [][]byte
 	witness = append(witness, signs[0].Signature)
 	witness = append(witness, signs[0].PubKey)
diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index 31d5a01..c6302da 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -318,7 +318,7 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 	// Sign.
 	if b.sign {
 		for i, input := range inputs {
-			if input.keys == nil {
+			if len(input.keys) == 0 {
 				return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY, i)
 			}
 			if err := transaction.SignIndex(i, input.compressed, input.sigHashType, input.keys...); err != nil {
-- 
2.43.0


From ecc70eb6ea13dcda04f6207ce6d055cad1349f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 19/88] fix: restore the unlocking of every witness program
 from its witness, without crashing on a short one

---
 xcore/error.go            |  2 ++
 xcore/script_multsig.go   | 52 ---------------------------------------
 xcore/script_p2wpkh_v0.go |  8 ++++++
 xcore/script_p2wsh_v0.go  | 20 ++++++---------
 4 files changed, 18 insertions(+), 64 deletions(-)

diff --git a/xcore/error.go b/xcore/error.go
index 6f320dd..77079b3 100644
--- a/xcore/error.go
+++ b/xcore/error.go
@@ -22,6 +22,7 @@ const (
 	ER_SCRIPT_STANDARD_PUBKEYS_LE_NREQUIRED        int = 4106
 	ER_SCRIPT_SIGNATURE_TYPE_UNKNOW                int = 4107
 	ER_SCRIPT_SIGNATURE_EMPTY                      int = 4108
+	ER_SCRIPT_WITNESS_SIZE_MALFORMED               int = 4109
 	ER_TRANSACTION_SIGN_OUT_INDEX                  int = 5000
 	ER_TRANSACTION_SIGN_REDEEM_EMPTY               int = 5001
 	ER_TRANSACTION_VERIFY_FAILED                   int = 5002
@@ -50,6 +51,7 @@ var Errors = map[int]*xerror.Error{
 	ER_SCRIPT_STANDARD_PUBKEYS_LE_NREQUIRED:        {Num: ER_SCRIPT_STANDARD_PUBKEYS_LE_NREQUIRED, State: "TS000", Message: "script.standard.pubkeys[%v].less.than.nrequired[%v]"},
 	ER_SCRIPT_SIGNATURE_TYPE_UNKNOW:                {Num: ER_SCRIPT_SIGNATURE_TYPE_UNKNOW, State: "TS000", Message: "script.signature.type.unknow[%v]"},
 	ER_SCRIPT_SIGNATURE_EMPTY:                      {Num: ER_SCRIPT_SIGNATURE_EMPTY, State: "TS000", Message: "script.signature.is.empty"},
+	ER_SCRIPT_WITNESS_SIZE_MALFORMED:               {Num: ER_SCRIPT_WITNESS_SIZE_MALFORMED, State: "TS000", Message: "script.witness.size[%v].malformed"},
 	ER_TRANSACTION_SIGN_OUT_INDEX:                  {Num: ER_TRANSACTION_SIGN_OUT_INDEX, State: "TTX00", Message: "transaction.sign.idx[%v].out.index[%v]"},
 	ER_TRANSACTION_SIGN_REDEEM_EMPTY:               {Num: ER_TRANSACTION_SIGN_REDEEM_EMPTY, State: "TTX00", Message: "transaction.sign.idx[%v].redeem.can.not.be.nil.since.keys[%v]>1"},
 	ER_TRANSACTION_VERIFY_FAILED:                   {Num: ER_TRANSACTION_VERIFY_FAILED, State: "TTX00", Message: "transaction.verify.for.input[%v].referencing[%v].at[%v].failed"},
diff --git a/xcore/script_multsig.go b/xcore/script_multsig.go
index 972865e..08d3694 100644
--- a/xcore/script_multsig.go
+++ b/xcore/script_multsig.go
@@ -73,55 +73,3 @@ func (s *PayToMultiSigScript) Sha256() ([]byte, error) {
 	}
 	return xcrypto.Sha256(datas), nil
 }
-
-// isSmallInt returns whether or not the opcode is considered a small integer,
-// which is an OP_0, or OP_1 through OP_16.
-func isSmallInt(op *xvm.Instruction) bool {
-	if op.OpCode() == xvm.OP_0 || (op.OpCode() >= xvm.OP_1 && op.OpCode() <= xvm.OP_16) {
-		return true
-	}
-	return false
-}
-
-// asSmallInt returns the passed opcode, which must be true according to
-// isSmallInt(), as an integer.
-func asSmallInt(op *xvm.Instruction) int {
-	if op.OpCode() == xvm.OP_0 {
-		return 0
-	}
-	return int(op.OpCode() - (xvm.OP_1 - 1))
-}
-
-func isMultiSig(instrs []xvm.Instruction) bool {
-	l := len(instrs)
-
-	// The absolute minimum is 1 pubkey:
-	// OP_0/OP_1-16 <pubkey> OP_1 OP_CHECKMULTISIG
-	if l < 4 {
-		return false
-	}
-
-	if !isSmallInt(&instrs[0]) {
-		return false
-	}
-	if !isSmallInt(&instrs[l-2]) {
-		return false
-	}
-	if instrs[l-1].OpCode() != xvm.OP_CHECKMULTISIG {
-		return false
-	}
-
-	// Verify the number of pubkeys specified matches the actual number
-	// of pubkeys provided.
-	if l-2-1 != asSmallInt(&instrs[l-2]) {
-		return false
-	}
-
-	for _, instr := range instrs[1 : l-2] {
-		// Valid pubkeys are either 33 or 65 bytes.
-		if len(instr.Data()) != 33 && len(instr.Data()) != 65 {
-			return false
-		}
-	}
-	return true
-}
diff --git a/xcore/script_p2wpkh_v0.go b/xcore/script_p2wpkh_v0.go
index 8800a54..027da98 100644
--- a/xcore/script_p2wpkh_v0.go
+++ b/xcore/script_p2wpkh_v0.go
@@ -87,6 +87,14 @@ func (s *PayToWitnessV0PubKeyHashScript) GetScriptVersion() ScriptVersion {
 // WitnessToUnlockingScriptBytes -- converts witness slice to unlocking script.
 // For txn deserialize from hex.
 func (s *PayToWitnessV0PubKeyHashScript) WitnessToUnlockingScriptBytes(witness [][]byte) ([]byte, error) {
+	if len(witness) == 0 {
+		return nil, nil
+	}
+
+	// The witness of a key hash is exactly the signature and the pubkey.
+	if len(witness) != 2 {
+		return nil, xerror.NewError(Errors, ER_SCRIPT_WITNESS_SIZE_MALFORMED, len(witness))
+	}
 	builder := xvm.NewScriptBuilder()
 	return builder.AddData(witness[0]).AddData(witness[1]).Script()
 }
diff --git a/xcore/script_p2wsh_v0.go b/xcore/script_p2wsh_v0.go
index 4aba5d0..0aa9cdc 100644
--- a/xcore/script_p2wsh_v0.go
+++ b/xcore/script_p2wsh_v0.go
@@ -99,19 +99,15 @@ func (s *PayToWitnessV0ScriptHashScript) GetScriptVersion() ScriptVersion {
 // WitnessToUnlockingScriptBytes -- converts witness slice to unlocking script.
 // For txn deserialize from hex.
 func (s *PayToWitnessV0ScriptHashScript) WitnessToUnlockingScriptBytes(witness [][]byte) ([]byte, error) {
-	l := len(witness)
-	if l > 1 {
-		redeem := witness[len(witness)-1]
-		instrs, _ := xvm.NewScriptReader(redeem).AllInstructions()
-		if isMultiSig(instrs) {
-			builder := xvm.NewScriptBuilder()
-			for i := 0; i < l-1; i++ {
-				builder.AddData(witness[i])
-			}
-			return builder.AddData(redeem).Script()
-		}
+	if len(witness) == 0 {
+		return nil, nil
+	}
+
+	builder := xvm.NewScriptBuilder()
+	for _, wit := range witness {
+		builder.AddData(wit)
 	}
-	return nil, nil
+	return builder.Script()
 }
 
 // isWitnessV0ScriptHash --
-- 
2.43.0


From 34f61d8fbbc195d08153e4a8944dbcbd0daacb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 20/88] fix: verify that the redeem script is the one committed
 by a witness script hash

---
 xcore/transaction.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 9f1812b..0d2e458 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -6,6 +6,7 @@
 package xcore
 
 import (
+	"bytes"
 	"fmt"
 	"strings"
 
@@ -728,6 +729,12 @@ func (tx *Transaction) Verify() error {
 		if err != nil {
 			return err
 		}
+		// The redeem script of a witness script hash must be the committed one.
+		if wsh, ok := script.(*PayToWitnessV0ScriptHashScript); ok {
+			if !bytes.Equal(xcrypto.Sha256(in.RedeemScript), wsh.hash) {
+				return xerror.NewError(Errors, ER_TRANSACTION_VERIFY_FAILED, i, xbase.NewIDToString(in.Hash), in.Index)
+			}
+		}
 		scriptVersion := script.GetScriptVersion()
 		// Set engine handler.
 		{
-- 
2.43.0


From 3fb5f55861527a81a212c6a716f3dd51d055ef5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 21/88] fix: refuse a scriptSig on an input that spends a
 witness program

---
 xcore/error.go       |  2 ++
 xcore/transaction.go | 11 ++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/xcore/error.go b/xcore/error.go
index 77079b3..c8e797c 100644
--- a/xcore/error.go
+++ b/xcore/error.go
@@ -23,6 +23,7 @@ const (
 	ER_SCRIPT_SIGNATURE_TYPE_UNKNOW                int = 4107
 	ER_SCRIPT_SIGNATURE_EMPTY                      int = 4108
 	ER_SCRIPT_WITNESS_SIZE_MALFORMED               int = 4109
+	ER_SCRIPT_WITNESS_UNLOCKING_NOT_EMPTY          int = 4110
 	ER_TRANSACTION_SIGN_OUT_INDEX                  int = 5000
 	ER_TRANSACTION_SIGN_REDEEM_EMPTY               int = 5001
 	ER_TRANSACTION_VERIFY_FAILED                   int = 5002
@@ -52,6 +53,7 @@ var Errors = map[int]*xerror.Error{
 	ER_SCRIPT_SIGNATURE_TYPE_UNKNOW:                {Num: ER_SCRIPT_SIGNATURE_TYPE_UNKNOW, State: "TS000", Message: "script.signature.type.unknow[%v]"},
 	ER_SCRIPT_SIGNATURE_EMPTY:                      {Num: ER_SCRIPT_SIGNATURE_EMPTY, State: "TS000", Message: "script.signature.is.empty"},
 	ER_SCRIPT_WITNESS_SIZE_MALFORMED:               {Num: ER_SCRIPT_WITNESS_SIZE_MALFORMED, State: "TS000", Message: "script.witness.size[%v].malformed"},
+	ER_SCRIPT_WITNESS_UNLOCKING_NOT_EMPTY:          {Num: ER_SCRIPT_WITNESS_UNLOCKING_NOT_EMPTY, State: "TS000", Message: "script.witness.input[%v].unlocking.is.not.empty"},
 	ER_TRANSACTION_SIGN_OUT_INDEX:                  {Num: ER_TRANSACTION_SIGN_OUT_INDEX, State: "TTX00", Message: "transaction.sign.idx[%v].out.index[%v]"},
 	ER_TRANSACTION_SIGN_REDEEM_EMPTY:               {Num: ER_TRANSACTION_SIGN_REDEEM_EMPTY, State: "TTX00", Message: "transaction.sign.idx[%v].redeem.can.not.be.nil.since.keys[%v]>1"},
 	ER_TRANSACTION_VERIFY_FAILED:                   {Num: ER_TRANSACTION_VERIFY_FAILED, State: "TTX00", Message: "transaction.verify.for.input[%v].referencing[%v].at[%v].failed"},
diff --git a/xcore/transaction.go b/xcore/transaction.go
index 0d2e458..6f783c0 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -58,6 +58,7 @@ type TxIn struct {
 	RawLockingScript   []byte   // Previous tx output script(locking script).
 	FinalLockingScript []byte   // The scriptPubKey for verify.
 	RawUnlockingScript []byte   // scriptSig.
+	unlockingIsWitness bool     // RawUnlockingScript is built from the witness, not a scriptSig.
 }
 
 // NewTxIn -- build a TxIn.
@@ -159,15 +160,22 @@ func (tx *Transaction) SetTxIn(idx int, amount uint64, script []byte, redeemScri
 		return err
 	}
 
+	// The scriptSig of a witness program must be empty.
+	isWitness := scriptInstance.GetScriptVersion() == WITNESS_V0
+	if isWitness && !txIn.unlockingIsWitness && len(txIn.RawUnlockingScript) > 0 {
+		return xerror.NewError(Errors, ER_SCRIPT_WITNESS_UNLOCKING_NOT_EMPTY, idx)
+	}
+
 	// If is witness, we must read rawUnlocking from the witness.
 	rawUnlocking, err := scriptInstance.WitnessToUnlockingScriptBytes(txIn.Witness)
 	if err != nil {
 		return err
 	}
-	if rawUnlocking != nil {
+	if isWitness {
 		txIn.RawUnlockingScript = rawUnlocking
 	}
 
+	txIn.unlockingIsWitness = isWitness
 	txIn.Value = amount
 	txIn.RedeemScript = redeemScript
 	txIn.WitnessScriptCode = witnessScriptCode
@@ -275,6 +283,7 @@ func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
 	if txIn.RawUnlockingScript, err = scriptInstance.GetRawUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
 		return err
 	}
+	txIn.unlockingIsWitness = scriptInstance.GetScriptVersion() == WITNESS_V0
 	// Witness unlocking.
 	if txIn.Witness, err = scriptInstance.GetWitnessUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
 		return err
-- 
2.43.0


From a566f04aa7e8fa3033a4b3e1a0e16757f83fc0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 22/88] fix: print a transaction whose witness inputs are not
 signed yet

---
 xcore/transaction.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 6f783c0..935feab 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -889,7 +889,11 @@ func (tx *Transaction) ToString() string {
 		lines = append(lines, fmt.Sprintf("      \"script\":\t\"%s\",", xvm.DisasmString(in.RawUnlockingScript)))
 		lines = append(lines, fmt.Sprintf("      \"sighash\":\t\"%x\",", in.SignatureHash))
 		if in.HasWitness() {
-			lines = append(lines, fmt.Sprintf("      \"witness\":\t\"%x\",", in.Witness[0]))
+			var witness []byte
+			if len(in.Witness) > 0 {
+				witness = in.Witness[0]
+			}
+			lines = append(lines, fmt.Sprintf("      \"witness\":\t\"%x\",", witness))
 			lines = append(lines, fmt.Sprintf("      \"scriptcode\":\t\"%x\"", in.WitnessScriptCode))
 		}
 		if i == (len(tx.inputs) - 1) {
-- 
2.43.0


From c5e72f3e76b2fd71650d2229421df586eb19983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 23/88] fix: report the sizes of the serialised transaction

---
 xcore/transaction.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 935feab..e8cdebd 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -801,8 +801,13 @@ func (tx *Transaction) BaseSize() int {
 	for _, in := range tx.inputs {
 		size += len(in.Hash)
 		size += 4
-		size += xbase.VarIntSerializeSize(uint64(len(in.RawUnlockingScript)))
-		size += len(in.RawUnlockingScript)
+		if in.HasWitness() {
+			// The unlocking is in the witness.
+			size += xbase.VarIntSerializeSize(0)
+		} else {
+			size += xbase.VarIntSerializeSize(uint64(len(in.RawUnlockingScript)))
+			size += len(in.RawUnlockingScript)
+		}
 		size += 4
 	}
 
@@ -824,6 +829,8 @@ func (tx *Transaction) WitnessSize() int {
 	size := 0
 
 	if tx.HasWitness() {
+		// marker and flag
+		size += 2
 		for _, in := range tx.inputs {
 			wits := in.Witness
 			size += xbase.VarIntSerializeSize(uint64(len(wits)))
@@ -845,7 +852,7 @@ func (tx *Transaction) Weight() int {
 
 // Vsize -- defined as Transaction weight / 4 (rounded up to the next integer).
 func (tx *Transaction) Vsize() int {
-	return tx.Weight() / witnessScaleFactor
+	return (tx.Weight() + witnessScaleFactor - 1) / witnessScaleFactor
 }
 
 // Size -- size in bytes serialized as described in BIP144, including base data and witness data.
-- 
2.43.0


From 4322a499bc9af3a1c147bef7dc679e1a0dd8a886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 24/88] fix: refuse multisig policies without required
 signatures or with too many keys

---
 xcore/error.go          | 2 ++
 xcore/script_multsig.go | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/xcore/error.go b/xcore/error.go
index c8e797c..b7a1ea3 100644
--- a/xcore/error.go
+++ b/xcore/error.go
@@ -24,6 +24,7 @@ const (
 	ER_SCRIPT_SIGNATURE_EMPTY                      int = 4108
 	ER_SCRIPT_WITNESS_SIZE_MALFORMED               int = 4109
 	ER_SCRIPT_WITNESS_UNLOCKING_NOT_EMPTY          int = 4110
+	ER_SCRIPT_MULTISIG_POLICY_INVALID              int = 4111
 	ER_TRANSACTION_SIGN_OUT_INDEX                  int = 5000
 	ER_TRANSACTION_SIGN_REDEEM_EMPTY               int = 5001
 	ER_TRANSACTION_VERIFY_FAILED                   int = 5002
@@ -54,6 +55,7 @@ var Errors = map[int]*xerror.Error{
 	ER_SCRIPT_SIGNATURE_EMPTY:                      {Num: ER_SCRIPT_SIGNATURE_EMPTY, State: "TS000", Message: "script.signature.is.empty"},
 	ER_SCRIPT_WITNESS_SIZE_MALFORMED:               {Num: ER_SCRIPT_WITNESS_SIZE_MALFORMED, State: "TS000", Message: "script.witness.size[%v].malformed"},
 	ER_SCRIPT_WITNESS_UNLOCKING_NOT_EMPTY:          {Num: ER_SCRIPT_WITNESS_UNLOCKING_NOT_EMPTY, State: "TS000", Message: "script.witness.input[%v].unlocking.is.not.empty"},
+	ER_SCRIPT_MULTISIG_POLICY_INVALID:              {Num: ER_SCRIPT_MULTISIG_POLICY_INVALID, State: "TS000", Message: "script.multisig.policy.required[%v].of.pubkeys[%v].invalid"},
 	ER_TRANSACTION_SIGN_OUT_INDEX:                  {Num: ER_TRANSACTION_SIGN_OUT_INDEX, State: "TTX00", Message: "transaction.sign.idx[%v].out.index[%v]"},
 	ER_TRANSACTION_SIGN_REDEEM_EMPTY:               {Num: ER_TRANSACTION_SIGN_REDEEM_EMPTY, State: "TTX00", Message: "transaction.sign.idx[%v].redeem.can.not.be.nil.since.keys[%v]>1"},
 	ER_TRANSACTION_VERIFY_FAILED:                   {Num: ER_TRANSACTION_VERIFY_FAILED, State: "TTX00", Message: "transaction.verify.for.input[%v].referencing[%v].at[%v].failed"},
diff --git a/xcore/script_multsig.go b/xcore/script_multsig.go
index 08d3694..9291233 100644
--- a/xcore/script_multsig.go
+++ b/xcore/script_multsig.go
@@ -11,6 +11,9 @@ import (
 	"github.com/keyfuse/tokucore/xvm"
 )
 
+// maxPubKeysPerMultiSig -- the maximum number of public keys of a multisig script.
+const maxPubKeysPerMultiSig = 20
+
 // PayToMultiSigScript --
 // returns a valid script for a multi-signature redemption where n-required of
 // keys in pubkeys are required to have signed the transaction for success.
@@ -46,6 +49,10 @@ func GenMultiSigScript(nrequired int, pkDatas ...[]byte) ([]byte, error) {
 	if len(pkDatas) < nrequired {
 		return nil, xerror.NewError(Errors, ER_SCRIPT_STANDARD_PUBKEYS_LE_NREQUIRED, len(pkDatas), nrequired)
 	}
+	// At least one signature, and no more keys than OP_CHECKMULTISIG takes.
+	if nrequired < 1 || len(pkDatas) > maxPubKeysPerMultiSig {
+		return nil, xerror.NewError(Errors, ER_SCRIPT_MULTISIG_POLICY_INVALID, nrequired, len(pkDatas))
+	}
 	builder := xvm.NewScriptBuilder()
 	builder.AddInt64(int64(nrequired))
 	for _, key := range pkDatas {
-- 
2.43.0


From 2641eccc7c5d1e3810e778dd4194bcf3619db6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:23 +0000
Subject: [PATCH 25/88] fix: decode upper case segwit addresses

---
 xcore/address.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcore/address.go b/xcore/address.go
index 16cf908..e6c5a9a 100644
--- a/xcore/address.go
+++ b/xcore/address.go
@@ -34,7 +34,8 @@ func DecodeAddress(addr string, net *network.Network) (Address, error) {
 	// Bech32 encoded segwit addresses start with a human-readable part (hrp) followed by '1'(bc or tb)
 	oneIndex := strings.IndexByte(addr, '1')
 	if oneIndex == 2 {
-		prefix := addr[:oneIndex]
+		// Bech32 addresses are all lower case or all upper case.
+		prefix := strings.ToLower(addr[:oneIndex])
 		if prefix == net.Bech32HRPSegwit {
 			_, version, witnessProgram, err := xbase.WitnessDecode(addr)
 			if err != nil {
-- 
2.43.0


From dd36529e275ee51767b7703340ac23c0e63b9215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:21 +0000
Subject: [PATCH 26/88] fix: refuse amounts and fees that overflow when
 building a transaction

---
 xcore/error.go              |  2 ++
 xcore/transactionbuilder.go | 26 +++++++++++++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/xcore/error.go b/xcore/error.go
index b7a1ea3..c7ddc29 100644
--- a/xcore/error.go
+++ b/xcore/error.go
@@ -35,6 +35,7 @@ const (
 	ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY          int = 5105
 	ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH      int = 5106
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH            int = 5107
+	ER_TRANSACTION_BUILDER_AMOUNT_OVERFLOW         int = 5108
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH        int = 5201
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH              int = 5301
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH           int = 5302
@@ -66,6 +67,7 @@ var Errors = map[int]*xerror.Error{
 	ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY:          {Num: ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY, State: "TTB00", Message: "transaction.builder.sign.but.key.is.empty.at.input.idx[%v]"},
 	ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH:      {Num: ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH, State: "TTB00", Message: "transaction.builder.min.fee[%v].not.enough.from.change.value[%v]"},
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH:            {Num: ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, State: "TTB00", Message: "transaction.builder.fee[%v].too.high.than.max.fee[%v]"},
+	ER_TRANSACTION_BUILDER_AMOUNT_OVERFLOW:         {Num: ER_TRANSACTION_BUILDER_AMOUNT_OVERFLOW, State: "TTB00", Message: "transaction.builder.amount.total[%v].overflows.with.value[%v]"},
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH:        {Num: ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH, State: "TTP00", Message: "transaction.partially.request.magic.mismatch.want[%x].got[%x]"},
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH:              {Num: ER_MICROPAYMENT_LOCKTIME_MISMATCH, State: "TM000", Message: "micropayment.locktime.mismatch.want[%v].got[%v]"},
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH:           {Num: ER_MICROPAYMENT_REFUND_BOND_MISMATCH, State: "TM000", Message: "micropayment.refund.bond.mismatch"},
diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index c6302da..e32bc61 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -7,6 +7,7 @@ package xcore
 
 import (
 	"encoding/hex"
+	"math"
 
 	"github.com/keyfuse/tokucore/xbase"
 	"github.com/keyfuse/tokucore/xcrypto"
@@ -50,7 +51,7 @@ type TransactionBuilder struct {
 	idx           int
 	sign          bool
 	maxFees       int64
-	sendFees      int64
+	sendFees      uint64
 	relayFeePerKb int64
 	lockTime      uint32
 	change        *change
@@ -118,7 +119,7 @@ func (b *TransactionBuilder) SetChange(addr Address) *TransactionBuilder {
 
 // SendFees -- set the amount fee of this send.
 func (b *TransactionBuilder) SendFees(fees uint64) *TransactionBuilder {
-	b.sendFees = int64(fees)
+	b.sendFees = fees
 	return b
 }
 
@@ -161,6 +162,14 @@ func (b *TransactionBuilder) Then() *TransactionBuilder {
 	return b
 }
 
+// addAmount -- adds the value to the total, refusing an overflow.
+func addAmount(total int64, value uint64) (int64, error) {
+	if value > uint64(math.MaxInt64-total) {
+		return 0, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_AMOUNT_OVERFLOW, total, value)
+	}
+	return total + int64(value), nil
+}
+
 // BuildTransaction -- build the transaction.
 func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 	var totalIn int64
@@ -195,7 +204,9 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 					return nil, err
 				}
 				txins = append(txins, txin)
-				totalIn += int64(grpinput.value)
+				if totalIn, err = addAmount(totalIn, grpinput.value); err != nil {
+					return nil, err
+				}
 
 				// inputs.
 				input := &input{
@@ -228,7 +239,9 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 				}
 				txout := NewTxOut(grpoutput.value, script)
 				txouts = append(txouts, txout)
-				totalOut += int64(grpoutput.value)
+				if totalOut, err = addAmount(totalOut, grpoutput.value); err != nil {
+					return nil, err
+				}
 			}
 		}
 	}
@@ -245,7 +258,10 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 	}
 
 	// Estimate fee.
-	fees := b.sendFees
+	if b.sendFees > math.MaxInt64 {
+		return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, b.sendFees, b.maxFees)
+	}
+	fees := int64(b.sendFees)
 	if b.relayFeePerKb > 0 {
 		// Pushdata size.
 		pushDataSize := 0
-- 
2.43.0


From 48d32bd76688030e058904759ea574aed3e20781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 27/88] fix: refuse to build outputs without a destination

---
 xcore/transactionbuilder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index e32bc61..087c3f7 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -224,6 +224,10 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 				var err error
 				var script []byte
 
+				// An output without a destination could be spent by anyone.
+				if grpoutput.addr == nil && grpoutput.script == "" {
+					return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_SENDTO_EMPTY)
+				}
 				if grpoutput.addr != nil {
 					script, err = grpoutput.addr.LockingScript()
 					if err != nil {
@@ -289,7 +293,7 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 	// Change.
 	{
 		if changeAmount > 0 {
-			if b.change == nil {
+			if b.change == nil || b.change.addr == nil {
 				return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_CHANGETO_EMPTY)
 			}
 			script, err := b.change.addr.LockingScript()
-- 
2.43.0


From 47b61d64976006a05b8c195b650fb1607c0e5e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 28/88] fix: refuse coins whose transaction id is not 32 bytes

---
 xcore/error.go              | 2 ++
 xcore/transactionbuilder.go | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/xcore/error.go b/xcore/error.go
index c7ddc29..d777e92 100644
--- a/xcore/error.go
+++ b/xcore/error.go
@@ -36,6 +36,7 @@ const (
 	ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH      int = 5106
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH            int = 5107
 	ER_TRANSACTION_BUILDER_AMOUNT_OVERFLOW         int = 5108
+	ER_TRANSACTION_BUILDER_TXID_MALFORMED          int = 5109
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH        int = 5201
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH              int = 5301
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH           int = 5302
@@ -68,6 +69,7 @@ var Errors = map[int]*xerror.Error{
 	ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH:      {Num: ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH, State: "TTB00", Message: "transaction.builder.min.fee[%v].not.enough.from.change.value[%v]"},
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH:            {Num: ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, State: "TTB00", Message: "transaction.builder.fee[%v].too.high.than.max.fee[%v]"},
 	ER_TRANSACTION_BUILDER_AMOUNT_OVERFLOW:         {Num: ER_TRANSACTION_BUILDER_AMOUNT_OVERFLOW, State: "TTB00", Message: "transaction.builder.amount.total[%v].overflows.with.value[%v]"},
+	ER_TRANSACTION_BUILDER_TXID_MALFORMED:          {Num: ER_TRANSACTION_BUILDER_TXID_MALFORMED, State: "TTB00", Message: "transaction.builder.txid[%v].malformed"},
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH:        {Num: ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH, State: "TTP00", Message: "transaction.partially.request.magic.mismatch.want[%x].got[%x]"},
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH:              {Num: ER_MICROPAYMENT_LOCKTIME_MISMATCH, State: "TM000", Message: "micropayment.locktime.mismatch.want[%v].got[%v]"},
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH:           {Num: ER_MICROPAYMENT_REFUND_BOND_MISMATCH, State: "TM000", Message: "micropayment.refund.bond.mismatch"},
diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index 087c3f7..cd476d7 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -194,6 +194,9 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 				if err != nil {
 					return nil, err
 				}
+				if len(txid) != hashSize {
+					return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_TXID_MALFORMED, grpinput.txID)
+				}
 				// Hex to script.
 				script, err := hex.DecodeString(grpinput.script)
 				if err != nil {
-- 
2.43.0


From e1605339bd2b15cd0b26b73cee09d81d500a8eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:08 +0000
Subject: [PATCH 29/88] fix: count the script length of each output in the
 normal size estimate

---
 xcore/estimate.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xcore/estimate.go b/xcore/estimate.go
index bc27edf..c0cc16b 100644
--- a/xcore/estimate.go
+++ b/xcore/estimate.go
@@ -31,6 +31,10 @@ const (
 	//   - 4 bytes sequence
 	inputP2PKHSize = 32 + 4 + 1 + inputP2PKHSigScriptSize + 4
 
+	// inputP2PKHLowSSize is inputP2PKHSize with the low-S signatures
+	// produced here, whose DER is at most 71 bytes.
+	inputP2PKHLowSSize = inputP2PKHSize - 1
+
 	// Witness datas.
 	inputWitnessSignatureSize = 73 // <signature> - 72 bytes DER signature + 1 byte sighash
 	inputWitnessPubKeySize    = 33 // <pubkey>    - 33 bytes serialized compressed pubkey
@@ -109,15 +113,16 @@ func EstimateNormalSize(ins int, outs int) int64 {
 		// Input size.
 		{
 			baseSize += xbase.VarIntSerializeSize(uint64(ins))
-			baseSize += inputP2PKHSize * ins
+			baseSize += inputP2PKHLowSSize * ins
 		}
 
 		// Output size.
 		{
 			baseSize += xbase.VarIntSerializeSize(uint64(outs))
 			// 8 value size.
+			// 1 byte compact int encoding value 25.
 			// 25 is the p2pkh script length.
-			baseSize += (8 + 25) * outs
+			baseSize += (8 + 1 + 25) * outs
 		}
 		// Locktime.
 		baseSize += 4
-- 
2.43.0


From 648f6c8c9368281ea4c085350e3955200ca8f0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:23 +0000
Subject: [PATCH 30/88] fix: compute fees exactly and without overflow

---
 xcore/estimate.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/xcore/estimate.go b/xcore/estimate.go
index c0cc16b..cc5fe3a 100644
--- a/xcore/estimate.go
+++ b/xcore/estimate.go
@@ -6,6 +6,9 @@
 package xcore
 
 import (
+	"math"
+	"math/bits"
+
 	"github.com/keyfuse/tokucore/xbase"
 )
 
@@ -132,9 +135,17 @@ func EstimateNormalSize(ins int, outs int) int64 {
 
 // EstimateFees -- estimate the fee.
 func EstimateFees(estimateSize int64, relayFeePerKb int64) int64 {
-	fees := 0.0
-	if relayFeePerKb > 0 {
-		fees = (float64(relayFeePerKb) / float64(1000)) * float64(estimateSize)
+	if relayFeePerKb <= 0 || estimateSize <= 0 {
+		return 0
+	}
+
+	hi, lo := bits.Mul64(uint64(relayFeePerKb), uint64(estimateSize))
+	if hi >= 1000 {
+		return math.MaxInt64
+	}
+	fees, _ := bits.Div64(hi, lo, 1000)
+	if fees > math.MaxInt64 {
+		return math.MaxInt64
 	}
 	return int64(fees)
 }
-- 
2.43.0


From e42b52ab41787971e8bb56a7333fa021a1398a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 31/88] fix: refuse schnorr signatures with r = P or s = N

---
 xcrypto/schnorr/schnorr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcrypto/schnorr/schnorr.go b/xcrypto/schnorr/schnorr.go
index f86a4d1..0a9ab81 100644
--- a/xcrypto/schnorr/schnorr.go
+++ b/xcrypto/schnorr/schnorr.go
@@ -89,7 +89,8 @@ func Verify(pub *ecdsa.PublicKey, m []byte, r *big.Int, s *big.Int) bool {
 	P := curve.Params().P
 	N := curve.Params().N
 
-	if r.Cmp(P) > 0 || s.Cmp(N) > 0 {
+	// r is a coordinate and s a scalar.
+	if r.Sign() < 0 || s.Sign() < 0 || r.Cmp(P) >= 0 || s.Cmp(N) >= 0 {
 		return false
 	}
 
-- 
2.43.0


From 59c2bfc3afb5f370ae0b2619ec643e7eba2440d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 32/88] fix: refuse schnorr signatures that are not 64 bytes

---
 xcrypto/signature_schnorr.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xcrypto/signature_schnorr.go b/xcrypto/signature_schnorr.go
index dd194c5..45d6074 100644
--- a/xcrypto/signature_schnorr.go
+++ b/xcrypto/signature_schnorr.go
@@ -13,6 +13,9 @@ import (
 	"github.com/keyfuse/tokucore/xcrypto/schnorr"
 )
 
+// signatureSchnorrSize -- the length in bytes of a serialized schnorr signature.
+const signatureSchnorrSize = 64
+
 // SignatureSchnorr -- a type representing an schnorr signature.
 type SignatureSchnorr struct {
 	R *big.Int
@@ -34,6 +37,9 @@ func (sig *SignatureSchnorr) Serialize() ([]byte, error) {
 
 // Deserialize -- used to deserialize the signature to struct.
 func (sig *SignatureSchnorr) Deserialize(sign []byte) error {
+	if len(sign) != signatureSchnorrSize {
+		return fmt.Errorf("schnorr.signature.size[%v].invalid", len(sign))
+	}
 	sig.R = new(big.Int).SetBytes(sign[:32])
 	sig.S = new(big.Int).SetBytes(sign[32:])
 	return nil
-- 
2.43.0


From 0fb78ee375807162f18063d1f9b841485482c65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 33/88] fix: leave the arguments of the schnorr helpers alone

---
 xcrypto/schnorr/schnorr.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/xcrypto/schnorr/schnorr.go b/xcrypto/schnorr/schnorr.go
index 0a9ab81..5a3cac0 100644
--- a/xcrypto/schnorr/schnorr.go
+++ b/xcrypto/schnorr/schnorr.go
@@ -65,6 +65,7 @@ func Sign(prv *ecdsa.PrivateKey, m []byte) (*big.Int, *big.Int, error) {
 	// Clean.
 	zeroSlice(d)
 	k.SetInt64(0)
+	k0.SetInt64(0)
 
 	return Rx, s, nil
 }
@@ -111,7 +112,10 @@ func Verify(pub *ecdsa.PublicKey, m []byte, r *big.Int, s *big.Int) bool {
 
 // GetK0 -- used get k0 under schnorr BIP.
 func GetK0(m []byte, d []byte, N *big.Int) (*big.Int, error) {
-	hash := sha256.Sum256(append(d, m[:]...))
+	data := make([]byte, 0, len(d)+len(m))
+	data = append(data, d...)
+	data = append(data, m...)
+	hash := sha256.Sum256(data)
 	i := new(big.Int).SetBytes(hash[:])
 	k0 := i.Mod(i, N)
 	if k0.Sign() == 0 {
@@ -128,14 +132,17 @@ func GetK(curve elliptic.Curve, Ry, k0 *big.Int) *big.Int {
 	if big.Jacobi(Ry, P) == 1 {
 		return k0
 	}
-	return k0.Sub(N, k0)
+	return new(big.Int).Sub(N, k0)
 }
 
 // GetE -- used get e under schnorr BIP.
 func GetE(curve elliptic.Curve, m []byte, Px, Py *big.Int, rX []byte) *big.Int {
 	N := curve.Params().N
-	r := append(rX, secp256k1.SecMarshal(curve, Px, Py)...)
-	r = append(r, m[:]...)
+	pub := secp256k1.SecMarshal(curve, Px, Py)
+	r := make([]byte, 0, len(rX)+len(pub)+len(m))
+	r = append(r, rX...)
+	r = append(r, pub...)
+	r = append(r, m...)
 	h := sha256.Sum256(r)
 	i := new(big.Int).SetBytes(h[:])
 	return i.Mod(i, N)
-- 
2.43.0


From 8d30e976741a6ea5fbd969d292cf65c173b701c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 34/88] fix: use the shared nonce point in the schnorr party
 challenge

---
 xcrypto/mpc_schnorr.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xcrypto/mpc_schnorr.go b/xcrypto/mpc_schnorr.go
index 584dd33..b8f40eb 100644
--- a/xcrypto/mpc_schnorr.go
+++ b/xcrypto/mpc_schnorr.go
@@ -85,11 +85,10 @@ func (party *SchnorrParty) Phase4(sharePub *PubKey, shareR *secp256k1.Scalar) ([
 	prv := party.prv
 	pub := sharePub
 	curve := party.curve
-	scalarR := party.r
 	shareScalarR := shareR
 
 	// e = int(hash(bytes(x(R)) || bytes(dG) || m)) mod n
-	e := schnorr.GetE(curve, m, pub.X, pub.Y, schnorr.IntToByte(scalarR.X))
+	e := schnorr.GetE(curve, m, pub.X, pub.Y, schnorr.IntToByte(shareScalarR.X))
 
 	// ed
 	ed := new(big.Int)
-- 
2.43.0


From e5b1bd239ecc5dce5a209f5df4c08595e6f6eef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 35/88] fix: refuse ecdsa signatures with surplus bytes or
 elements

---
 xcrypto/signature_ecdsa.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xcrypto/signature_ecdsa.go b/xcrypto/signature_ecdsa.go
index 8321685..7f65337 100644
--- a/xcrypto/signature_ecdsa.go
+++ b/xcrypto/signature_ecdsa.go
@@ -6,6 +6,7 @@
 package xcrypto
 
 import (
+	"bytes"
 	"crypto/ecdsa"
 	"encoding/asn1"
 	"fmt"
@@ -36,8 +37,20 @@ func (sig *SignatureEcdsa) Serialize() ([]byte, error) {
 
 // Deserialize -- used to deserialize the signature to struct.
 func (sig *SignatureEcdsa) Deserialize(sign []byte) error {
-	_, err := asn1.Unmarshal(sign, sig)
-	return err
+	var dec SignatureEcdsa
+	if _, err := asn1.Unmarshal(sign, &dec); err != nil {
+		return err
+	}
+	// Bytes after the signature, or more elements in it, are not part of the encoding.
+	der, err := dec.Serialize()
+	if err != nil {
+		return err
+	}
+	if !bytes.Equal(der, sign) {
+		return fmt.Errorf("ecdsa.signature.encoding.invalid")
+	}
+	*sig = dec
+	return nil
 }
 
 // EcdsaSign -- used get the ecdsa signature.
-- 
2.43.0


From 1bb8cf91b76f2a77592a015594dabb64b21c2abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 36/88] fix: refuse compressed points that do not exist

---
 xcrypto/secp256k1/sec.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xcrypto/secp256k1/sec.go b/xcrypto/secp256k1/sec.go
index 77ee42f..325ff5f 100644
--- a/xcrypto/secp256k1/sec.go
+++ b/xcrypto/secp256k1/sec.go
@@ -37,16 +37,22 @@ func SecUnmarshal(curve elliptic.Curve, data []byte) (*big.Int, *big.Int) {
 	curveParams := curve.Params()
 
 	// Check format.
-	if (data[0] &^ 1) != 2 {
+	byteLen := (curveParams.BitSize + 7) >> 3
+	if len(data) != 1+byteLen || (data[0]&^1) != 2 {
 		return nil, nil
 	}
 
 	// y^2 = x^3 + b
 	X.SetBytes(data[1:])
+	if X.Cmp(curveParams.P) >= 0 {
+		return nil, nil
+	}
 	ySquared := big.NewInt(0)
 	ySquared.Exp(X, three, nil)
 	ySquared.Add(ySquared, curveParams.B)
-	Y.ModSqrt(ySquared, curveParams.P)
+	if Y.ModSqrt(ySquared, curveParams.P) == nil {
+		return nil, nil
+	}
 
 	// Y is odd or even.
 	if Y.Bit(0) != uint(data[0]&1) {
-- 
2.43.0


From 5846cbca6536ff89efaf8b2505078a1a7ce3ab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 37/88] fix: multiply the point at infinity

---
 xcrypto/secp256k1/secp256k1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcrypto/secp256k1/secp256k1.go b/xcrypto/secp256k1/secp256k1.go
index 3dc49ed..696537b 100644
--- a/xcrypto/secp256k1/secp256k1.go
+++ b/xcrypto/secp256k1/secp256k1.go
@@ -241,7 +241,7 @@ func (curve *secp256k1Curve) doubleJacobian(x, y, z *big.Int) (*big.Int, *big.In
 
 // ScalarMult -- returns k*(Bx,By) where k is a number in big-endian form.
 func (curve *secp256k1Curve) ScalarMult(Bx, By *big.Int, k []byte) (*big.Int, *big.Int) {
-	Bz := new(big.Int).SetInt64(1)
+	Bz := zForAffine(Bx, By)
 	x, y, z := new(big.Int), new(big.Int), new(big.Int)
 
 	for _, byte := range k {
-- 
2.43.0


From 364de05abc7401fedefe46f081a554463e332353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 38/88] fix: refuse out of range coordinates as curve points

---
 xcrypto/secp256k1/secp256k1.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcrypto/secp256k1/secp256k1.go b/xcrypto/secp256k1/secp256k1.go
index 696537b..b2cab7e 100644
--- a/xcrypto/secp256k1/secp256k1.go
+++ b/xcrypto/secp256k1/secp256k1.go
@@ -47,6 +47,11 @@ func (curve *secp256k1Curve) Params() *elliptic.CurveParams {
 
 // IsOnCurve -- check the point (x,y) is on the curve or not.
 func (curve *secp256k1Curve) IsOnCurve(x, y *big.Int) bool {
+	// The coordinates are field elements.
+	if x.Sign() < 0 || x.Cmp(curve.P) >= 0 || y.Sign() < 0 || y.Cmp(curve.P) >= 0 {
+		return false
+	}
+
 	// y² = x³ + b
 	var y2, x3 big.Int
 
-- 
2.43.0


From 63917792680a972bc9edd2c667e557d053908e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 39/88] fix: refuse public keys with the unknown prefix 5

---
 xcrypto/pubkey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcrypto/pubkey.go b/xcrypto/pubkey.go
index 622da2a..aa232c8 100644
--- a/xcrypto/pubkey.go
+++ b/xcrypto/pubkey.go
@@ -49,7 +49,7 @@ func PubKeyFromBytes(key []byte) (*PubKey, error) {
 	switch pkLen {
 	case pubKeyBytesLenUncompressed:
 		// Format invalid.
-		if format != pubkeyUncompressed && format != pubkeyHybrid {
+		if (format != pubkeyUncompressed || ybit) && format != pubkeyHybrid {
 			return nil, fmt.Errorf("pubkey.format.invalid:%v", format)
 		}
 
-- 
2.43.0


From 37c1f026a4661376a3ecee42975fc33b058377ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 40/88] fix: generate usable paillier keys and randomness

---
 xcrypto/paillier/paillier.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/xcrypto/paillier/paillier.go b/xcrypto/paillier/paillier.go
index 07f964c..fda6016 100644
--- a/xcrypto/paillier/paillier.go
+++ b/xcrypto/paillier/paillier.go
@@ -13,6 +13,9 @@ import (
 	"crypto/rand"
 )
 
+// minBitlen -- the smallest modulus for which there are two primes of half its length.
+const minBitlen = 10
+
 var (
 	one  = big.NewInt(1)
 	zero = big.NewInt(0)
@@ -34,6 +37,10 @@ type PrvKey struct {
 
 // GenerateKeyPair -- returns a Paillier key pair.
 func GenerateKeyPair(bitlen int) (*PubKey, *PrvKey, error) {
+	// Smaller primes of equal length are not unique.
+	if bitlen < minBitlen {
+		return nil, nil, fmt.Errorf("bitlen.invalid")
+	}
 	p, err := getPrimer(bitlen / 2)
 	if err != nil {
 		return nil, nil, err
@@ -42,6 +49,12 @@ func GenerateKeyPair(bitlen int) (*PubKey, *PrvKey, error) {
 	if err != nil {
 		return nil, nil, err
 	}
+	// The primes must differ.
+	for p.Cmp(q) == 0 {
+		if q, err = getPrimer(bitlen / 2); err != nil {
+			return nil, nil, err
+		}
+	}
 
 	n := new(big.Int).Mul(p, q)
 	nn := new(big.Int).Mul(n, n)
@@ -121,5 +134,14 @@ func getPrimer(bits int) (*big.Int, error) {
 // TODO(BohuTANG): ensure {gcd(r,n)=1}
 // https://en.wikipedia.org/wiki/Paillier_cryptosystem#Encryption
 func getRandom(n *big.Int) (*big.Int, error) {
-	return rand.Int(rand.Reader, n)
+	// The random value must be invertible.
+	for {
+		r, err := rand.Int(rand.Reader, n)
+		if err != nil {
+			return nil, err
+		}
+		if new(big.Int).GCD(nil, nil, r, n).Cmp(one) == 0 {
+			return r, nil
+		}
+	}
 }
-- 
2.43.0


From 44b52124d80545605b54fa232832b8fccc62216e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 41/88] fix: refuse invalid paillier operands

---
 xcrypto/paillier/homomorphism.go | 18 ++++++++++++------
 xcrypto/paillier/paillier.go     | 11 ++++++++++-
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/xcrypto/paillier/homomorphism.go b/xcrypto/paillier/homomorphism.go
index f0cc373..f4d64ac 100644
--- a/xcrypto/paillier/homomorphism.go
+++ b/xcrypto/paillier/homomorphism.go
@@ -14,7 +14,7 @@ import (
 // MultPlaintext -- returns the ciphertext the will decipher to multiplication
 // of the plaintexts (i.e. if ct = Enc(m1), then Dec(MultPlaintext(ct, m2)) = m1 * m2 mod N).
 func (pk *PubKey) MultPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
-	if ct == nil || ct.Cmp(zero) != 1 {
+	if !pk.isCiphertext(ct) || msg == nil {
 		return nil, fmt.Errorf("input.invalid")
 	}
 	m := new(big.Int).Set(msg)
@@ -24,7 +24,7 @@ func (pk *PubKey) MultPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
 // AddPlaintext -- returns the ciphertext the will decipher to addition
 // of the plaintexts (i.e if ct = Enc(m1), then Dec(AddPlaintext(ct, m2)) = m1 + m2 mod N)
 func (pk *PubKey) AddPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
-	if ct == nil || ct.Cmp(zero) != 1 {
+	if !pk.isCiphertext(ct) || msg == nil {
 		return nil, fmt.Errorf("input.invalid")
 	}
 	m := new(big.Int).Set(msg)
@@ -36,18 +36,21 @@ func (pk *PubKey) AddPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
 // DivPlaintext -- returns the ciphertext the will decipher to division of the plaintexts
 // (i.e if ct = Enc(m1), then Dec(DivPlaintext(ct, m2)) = m1 / m2 mod N)
 func (pk *PubKey) DivPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
-	if ct == nil || ct.Cmp(zero) != 1 {
+	if !pk.isCiphertext(ct) || msg == nil {
 		return nil, fmt.Errorf("input.invalid")
 	}
-	m := new(big.Int).Set(msg)
-	return new(big.Int).Exp(ct, m.ModInverse(m, pk.NN), pk.NN), nil
+	m := new(big.Int)
+	if m.ModInverse(msg, pk.NN) == nil {
+		return nil, fmt.Errorf("plaintext.not.invertible")
+	}
+	return new(big.Int).Exp(ct, m, pk.NN), nil
 }
 
 // Add -- returns a ciphertext `ct3` that will decipher to the sum of
 // the corresponding plaintext messages (`m1`, `m2`) ciphered to (`ct1`, `ct2`)
 // (i.e if ct1 = Enc(m1) and ct2 = Enc(m2), then Dec(Add(ct1, ct2)) = m1 + m2 mod N)
 func (pk *PubKey) Add(ct1, ct2 *big.Int) (*big.Int, error) {
-	if ct1 == nil || ct2 == nil || ct1.Cmp(zero) != 1 || ct2.Cmp(zero) != 1 {
+	if !pk.isCiphertext(ct1) || !pk.isCiphertext(ct2) {
 		return nil, fmt.Errorf("input.invalid")
 	}
 	z := new(big.Int).Mul(ct1, ct2)
@@ -60,6 +63,9 @@ func (pk *PubKey) Add(ct1, ct2 *big.Int) (*big.Int, error) {
 // and ct2 = Enc(m2), and m1 > m2, then Dec(Sub(ct1, ct2)) = ct1 - ct2 mod N.
 // Note that the ciphertext produced by this operation will only make sense if m1>m2.
 func (pk *PubKey) Sub(ct1, ct2 *big.Int) *big.Int {
+	if !pk.isCiphertext(ct1) || !pk.isCiphertext(ct2) {
+		return nil
+	}
 	neg := new(big.Int).ModInverse(ct2, pk.NN)
 	neg.Mul(ct1, neg)
 	return neg.Mod(neg, pk.NN)
diff --git a/xcrypto/paillier/paillier.go b/xcrypto/paillier/paillier.go
index fda6016..4532c19 100644
--- a/xcrypto/paillier/paillier.go
+++ b/xcrypto/paillier/paillier.go
@@ -79,6 +79,9 @@ func GenerateKeyPair(bitlen int) (*PubKey, *PrvKey, error) {
 
 // Encrypt -- returns a IND-CPA secure ciphertext for the message `msg`.
 func (pk *PubKey) Encrypt(msg *big.Int) (*big.Int, error) {
+	if msg == nil {
+		return nil, fmt.Errorf("plaintext.invalid")
+	}
 	m := new(big.Int).Set(msg)
 	if m.Cmp(zero) == -1 || m.Cmp(pk.N) != -1 {
 		return nil, fmt.Errorf("plaintext.invalid")
@@ -98,7 +101,7 @@ func (pk *PubKey) Encrypt(msg *big.Int) (*big.Int, error) {
 
 // Decrypt -- returns the plaintext corresponding to the ciphertext (ct).
 func (sk *PrvKey) Decrypt(ct *big.Int) (*big.Int, error) {
-	if ct == nil || ct.Cmp(zero) != 1 {
+	if !sk.pk.isCiphertext(ct) {
 		return nil, fmt.Errorf("ciphertext.invalid")
 	}
 
@@ -110,6 +113,12 @@ func (sk *PrvKey) Decrypt(ct *big.Int) (*big.Int, error) {
 	return m, nil
 }
 
+// isCiphertext -- returns whether ct is an invertible element modulo n^2.
+func (pk *PubKey) isCiphertext(ct *big.Int) bool {
+	return ct != nil && ct.Cmp(zero) == 1 && ct.Cmp(pk.NN) == -1 &&
+		new(big.Int).GCD(nil, nil, ct, pk.N).Cmp(one) == 0
+}
+
 // phi -- computes Euler's totient function `φ(p,q) = (p-1)*(q-1)`.
 func phi(x, y *big.Int) *big.Int {
 	p1 := new(big.Int).Sub(x, one)
-- 
2.43.0


From 67fc40d1e6dd4c836db7d2113f21587990b75d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 42/88] fix: build a merkle tree without leaves

---
 xcrypto/merkle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcrypto/merkle.go b/xcrypto/merkle.go
index de5f23b..8b4a0ee 100644
--- a/xcrypto/merkle.go
+++ b/xcrypto/merkle.go
@@ -41,6 +41,10 @@ type Merkle struct {
 // If the right is nil(the size is not power of 2), hashed with itself.
 func NewMerkle(hashs [][]byte) *Merkle {
 	n := len(hashs)
+	// No leaves, no root.
+	if n == 0 {
+		return &Merkle{levels: [][][]byte{{nil}}}
+	}
 	depth := int(math.Ceil(math.Log2(float64(n))))
 	pow2 := int(math.Pow(2, float64(depth)))
 	levels := make([][][]byte, depth+1)
-- 
2.43.0


From 595565b09fe50dc0ad1c1e6b7e9d08cefffce02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 43/88] fix: refuse merkle proofs of oversized and absent
 leaves

---
 xcrypto/merkle.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xcrypto/merkle.go b/xcrypto/merkle.go
index 8b4a0ee..c5f3f41 100644
--- a/xcrypto/merkle.go
+++ b/xcrypto/merkle.go
@@ -91,7 +91,8 @@ func (m *Merkle) Proofs(leaf []byte) []Node {
 	index := -1
 	depth := len(m.levels) - 1
 	for i, le := range m.levels[depth] {
-		if bytes.Equal(leaf, le) {
+		// The padding is not a leaf.
+		if le != nil && bytes.Equal(leaf, le) {
 			index = i
 			break
 		}
@@ -125,8 +126,15 @@ func (m *Merkle) Proofs(leaf []byte) []Node {
 
 // Verify -- used to verify the leaf contained in the merkle tree.
 func (m *Merkle) Verify(leaf []byte, root []byte, path []Node) bool {
+	// Bytes beyond the size of a hash are not part of the tree.
+	if len(path) > 0 && len(leaf) > merkleHashSize {
+		return false
+	}
 	hash := leaf
 	for _, node := range path {
+		if len(node.Hash) > merkleHashSize {
+			return false
+		}
 		switch node.Position {
 		case positionLeft:
 			hash = merkleNode(node.Hash, hash)
-- 
2.43.0


From 641d354af534d180488f8199f1ec5fa2d90081e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 44/88] fix: refuse non-invertible scriptless secrets and
 signatures

---
 xcrypto/scriptless_ecdsa.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xcrypto/scriptless_ecdsa.go b/xcrypto/scriptless_ecdsa.go
index 3e3866a..6f9b994 100644
--- a/xcrypto/scriptless_ecdsa.go
+++ b/xcrypto/scriptless_ecdsa.go
@@ -63,6 +63,9 @@ func (alice *EcdsaAlice) ScriptlessPhase6(alicesig *big.Int, bobsig *big.Int) *b
 	N := alice.N
 	t := new(big.Int).Set(alicesig)
 	bobsiginv := new(big.Int).ModInverse(bobsig, N)
+	if bobsiginv == nil {
+		return nil
+	}
 	t = t.Mul(t, bobsiginv).Mod(t, N)
 	return t
 }
@@ -116,6 +119,9 @@ func (bob *EcdsaBob) ScriptlessPhase5(shareR *secp256k1.Scalar, sign2 *big.Int)
 	encprv := bob.encprv
 	secret := bob.secret
 	tinv := new(big.Int).ModInverse(secret, N)
+	if tinv == nil {
+		return nil, errors.New("secret is not invertible")
+	}
 
 	sig, err := encprv.Decrypt(sign2)
 	if err != nil {
-- 
2.43.0


From 2bc496ba8d06d64c3394dc67663a61a290eb7130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 45/88] fix: refuse incomplete paillier public keys

---
 xcrypto/paillier/paillier.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcrypto/paillier/paillier.go b/xcrypto/paillier/paillier.go
index 4532c19..bd09096 100644
--- a/xcrypto/paillier/paillier.go
+++ b/xcrypto/paillier/paillier.go
@@ -115,7 +115,8 @@ func (sk *PrvKey) Decrypt(ct *big.Int) (*big.Int, error) {
 
 // isCiphertext -- returns whether ct is an invertible element modulo n^2.
 func (pk *PubKey) isCiphertext(ct *big.Int) bool {
-	return ct != nil && ct.Cmp(zero) == 1 && ct.Cmp(pk.NN) == -1 &&
+	return pk != nil && pk.G != nil && pk.N != nil && pk.NN != nil &&
+		ct != nil && ct.Cmp(zero) == 1 && ct.Cmp(pk.NN) == -1 &&
 		new(big.Int).GCD(nil, nil, ct, pk.N).Cmp(one) == 0
 }
 
-- 
2.43.0


From ed8bcef2ba77e356c67578ac96595093f1f7514f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 46/88] fix: do not hash the padding of a merkle tree into its
 root

---
 xcrypto/merkle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcrypto/merkle.go b/xcrypto/merkle.go
index c5f3f41..13300ff 100644
--- a/xcrypto/merkle.go
+++ b/xcrypto/merkle.go
@@ -59,6 +59,10 @@ func NewMerkle(hashs [][]byte) *Merkle {
 		for j := 0; j < len(level); j += 2 {
 			left := level[j]
 			right := level[j+1]
+			if left == nil {
+				// Only padding is left on this level.
+				break
+			}
 			if right == nil {
 				next[offset] = merkleNode(left, left)
 				break
-- 
2.43.0


From 067af7b085c0a52a524114315fb6fc9c2beeb248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 47/88] fix: remove an opcode from scripts with unknown opcodes

---
 xvm/scriptreader.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/xvm/scriptreader.go b/xvm/scriptreader.go
index 7b5f4e0..be79216 100644
--- a/xvm/scriptreader.go
+++ b/xvm/scriptreader.go
@@ -132,22 +132,21 @@ func DisasmString(script []byte) string {
 	return strings.Join(line, " ")
 }
 
-// RemoveOpcode -- remove the opcode.
+// RemoveOpcode -- remove the opcode, the opcodes are not required to be known.
 func RemoveOpcode(buf []byte, opcode byte) []byte {
 	reader := NewScriptReader(buf)
-	instrs, err := reader.AllInstructions()
-	if err != nil {
-		return buf
-	}
-
+	buffer := reader.buffer
 	rets := make([]byte, 0, len(buf))
-	for _, instr := range instrs {
-		if instr.op.value != opcode {
-			instrBytes, err := instr.bytes()
-			if err != nil {
+	for !buffer.End() {
+		start := buffer.Seek()
+		if _, err := reader.NextInstruction(); err != nil {
+			// An unknown opcode has no datas.
+			if _, ok := opcodes[buf[start]]; ok {
 				return buf
 			}
-			rets = append(rets, instrBytes...)
+		}
+		if buf[start] != opcode {
+			rets = append(rets, buf[start:buffer.Seek()]...)
 		}
 	}
 	return rets
-- 
2.43.0


From a6f429d46b6485d7d49118addbae86df386960f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 48/88] fix: do not read segwit addresses of other prefixes

---
 xcore/address.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xcore/address.go b/xcore/address.go
index e6c5a9a..fec4543 100644
--- a/xcore/address.go
+++ b/xcore/address.go
@@ -32,8 +32,9 @@ type Address interface {
 // DecodeAddress -- decode the string address and returns the Address with a known address type.
 func DecodeAddress(addr string, net *network.Network) (Address, error) {
 	// Bech32 encoded segwit addresses start with a human-readable part (hrp) followed by '1'(bc or tb)
-	oneIndex := strings.IndexByte(addr, '1')
-	if oneIndex == 2 {
+	// The last '1' is the separator, it may be part of the hrp too.
+	oneIndex := strings.LastIndexByte(addr, '1')
+	if oneIndex > 0 {
 		// Bech32 addresses are all lower case or all upper case.
 		prefix := strings.ToLower(addr[:oneIndex])
 		if prefix == net.Bech32HRPSegwit {
-- 
2.43.0


From 232408284fbb161874df606784f839dcff2689c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:58 +0000
Subject: [PATCH 49/88] fix: refuse derivation paths with an empty step

---
 xcore/bip32/hdkey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index 1203804..7de79a8 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -178,7 +178,7 @@ func (k *HDKey) DeriveByPath(path string) (*HDKey, error) {
 	for i := 1; i < len(steps); i++ {
 		var isHardened bool
 		step := steps[i]
-		if step[len(step)-1] == '\'' {
+		if strings.HasSuffix(step, "'") {
 			isHardened = true
 			step = step[:len(step)-1]
 		}
-- 
2.43.0


From f1f47534472c7c86fd4fa94378830fbb49cb487b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:12 +0000
Subject: [PATCH 50/88] fix: refuse hardened path indexes out of range

---
 xcore/bip32/hdkey.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index 7de79a8..2d1af3f 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -188,6 +188,9 @@ func (k *HDKey) DeriveByPath(path string) (*HDKey, error) {
 			return nil, fmt.Errorf("hdkey.derive.path.invalid[%v]", path)
 		}
 		if isHardened {
+			if idx >= HardenedKeyStart {
+				return nil, fmt.Errorf("hdkey.derive.path.invalid[%v]", path)
+			}
 			idx += HardenedKeyStart
 		}
 		hd, err = hd.Derive(uint32(idx))
-- 
2.43.0


From 6f6921d4b2182ca61184a478bbb2fb374675fb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 51/88] fix: refuse to derive children below depth 255

---
 xcore/bip32/hdkey.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index 2d1af3f..f83669e 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -45,6 +45,9 @@ const (
 	// fingerprint, 4 bytes child number, 32 bytes chain code, and 33 bytes
 	// public/private key data.
 	serializedKeyLen = 4 + 1 + 4 + 4 + 32 + 33 // 78 bytes
+
+	// maxDepth is the depth of the deepest key, the depth is serialized in one byte.
+	maxDepth = 255
 )
 
 // HDKey -- a BIP32 Hierarchically Derived key.
@@ -125,6 +128,11 @@ func (k *HDKey) Derive(childIdx uint32) (*HDKey, error) {
 		return nil, fmt.Errorf("hdkey.derive.a.hardened.key.from.public.key.erro")
 	}
 
+	// The depth is one byte, a key of the maximum depth has no children.
+	if k.depth == maxDepth {
+		return nil, fmt.Errorf("hdkey.derive.depth.exceeds[%v]", maxDepth)
+	}
+
 	// Split "I" into two 32-byte sequences Il and Ir where:
 	//   Il = intermediate key used to derive the child
 	//   Ir = child chain code
-- 
2.43.0


From 1cac143927b0150908f1b44ba13a33fbf008fd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 52/88] fix: refuse extended private keys out of range

---
 xcore/bip32/hdkey.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index f83669e..d729778 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"crypto/rand"
 	"fmt"
+	"math/big"
 	"strconv"
 	"strings"
 
@@ -19,6 +20,7 @@ import (
 	"github.com/keyfuse/tokucore/network"
 	"github.com/keyfuse/tokucore/xbase"
 	"github.com/keyfuse/tokucore/xcrypto"
+	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
 )
 
 // Formulas:
@@ -310,6 +312,10 @@ func NewHDKeyFromString(wif string) (*HDKey, error) {
 	k.chainCode = data[13:45]
 
 	if data[45] == byte(0) {
+		d := new(big.Int).SetBytes(data[46:78])
+		if d.Sign() == 0 || d.Cmp(secp256k1.SECP256K1().Params().N) >= 0 {
+			return nil, fmt.Errorf("hdkey.private.key.out.of.range")
+		}
 		k.isPrivate = true
 		k.prvkey = xcrypto.PrvKeyFromBytes(data[46:78])
 	} else {
-- 
2.43.0


From 7cc3e0114b83ed01fcff238e3410207b0c74065d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:52 +0000
Subject: [PATCH 53/88] fix: refuse extended keys whose version does not match
 the key

---
 xcore/bip32/hdkey.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index d729778..a4ad6cd 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -305,13 +305,20 @@ func NewHDKeyFromString(wif string) (*HDKey, error) {
 	// The serialized format is:
 	//   version (4) || depth (1) || parent fingerprint (4)) ||
 	//   child num (4) || chain code (32) || key data (33) || checksum (4)
+	isPrivate := data[45] == byte(0)
+	for _, net := range []*network.Network{network.MainNet, network.TestNet} {
+		if (isPrivate && bytes.Equal(data[:4], net.HDPublicKeyID)) || (!isPrivate && bytes.Equal(data[:4], net.HDPrivateKeyID)) {
+			return nil, fmt.Errorf("hdkey.version.and.key.mismatch")
+		}
+	}
+
 	var k = &HDKey{}
 	k.depth = data[4]
 	k.parentFP = data[5:9]
 	k.childNum = data[9:13]
 	k.chainCode = data[13:45]
 
-	if data[45] == byte(0) {
+	if isPrivate {
 		d := new(big.Int).SetBytes(data[46:78])
 		if d.Sign() == 0 || d.Cmp(secp256k1.SECP256K1().Params().N) >= 0 {
 			return nil, fmt.Errorf("hdkey.private.key.out.of.range")
-- 
2.43.0


From fa7a571361cd3da2f8a839fe9b72b18d2098aaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:07 +0000
Subject: [PATCH 54/88] fix: refuse extended master keys with a parent

---
 xcore/bip32/hdkey.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index a4ad6cd..e34255a 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -317,6 +317,9 @@ func NewHDKeyFromString(wif string) (*HDKey, error) {
 	k.parentFP = data[5:9]
 	k.childNum = data[9:13]
 	k.chainCode = data[13:45]
+	if k.depth == 0 && !bytes.Equal(data[5:13], make([]byte, 8)) {
+		return nil, fmt.Errorf("hdkey.master.key.with.parent")
+	}
 
 	if isPrivate {
 		d := new(big.Int).SetBytes(data[46:78])
-- 
2.43.0


From 7ab524e70b9c4dc813995b03ba05dfcd719c8fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 55/88] fix: generate mnemonic entropy from the system random
 source

---
 xcore/bip39/bip39.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index 8f3e035..a3c22c2 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -7,15 +7,14 @@
 package bip39
 
 import (
+	"crypto/rand"
 	"crypto/sha256"
 	"crypto/sha512"
 	"encoding/binary"
 	"errors"
 	"fmt"
 	"math/big"
-	"math/rand"
 	"strings"
-	"time"
 
 	"github.com/keyfuse/tokucore/xcore/bip39/words"
 	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
@@ -106,9 +105,10 @@ func NewEntropy(bitSize int) ([]byte, error) {
 	}
 
 	entropy := make([]byte, bitSize/8)
-	random := rand.New(rand.NewSource(time.Now().UnixNano()))
-	_, err = random.Read(entropy)
-	return entropy, err
+	if _, err = rand.Read(entropy); err != nil {
+		return nil, err
+	}
+	return entropy, nil
 }
 
 // EntropyFromMnemonic takes a mnemonic generated by this library,
-- 
2.43.0


From d8de479dd442704d4c73735e8fe201173ae08edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:30 +0000
Subject: [PATCH 56/88] fix: split mnemonics alike in all operations

---
 xcore/bip39/bip39.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index a3c22c2..9e4a7af 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -211,7 +211,7 @@ func NewMnemonic(entropy []byte) (string, error) {
 // An error is returned if the mnemonic is invalid.
 func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 	var (
-		mnemonicSlice    = strings.Split(mnemonic, " ")
+		mnemonicSlice    = strings.Fields(mnemonic)
 		entropyBitSize   = len(mnemonicSlice) * 11
 		checksumBitSize  = entropyBitSize % 32
 		fullByteSize     = (entropyBitSize-checksumBitSize)/8 + 1
@@ -261,7 +261,8 @@ func NewSeedWithErrorChecking(mnemonic string, password string) ([]byte, error)
 	if err != nil {
 		return nil, err
 	}
-	return NewSeed(mnemonic, password), nil
+	// The words of the sentence are separated by single spaces.
+	return NewSeed(strings.Join(strings.Fields(mnemonic), " "), password), nil
 }
 
 // NewSeed creates a hashed seed output given a provided string and password.
-- 
2.43.0


From 047c477b9857ae803e9f2a3137f57b07512dc7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 57/88] fix: judge mnemonics with a wrong checksum invalid

---
 xcore/bip39/bip39.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index 9e4a7af..bdc96b2 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -220,7 +220,7 @@ func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 
 	// Pre validate that the mnemonic is well formed and only contains words that
 	// are present in the word list.
-	if !IsMnemonicValid(mnemonic) {
+	if !isMnemonicWellFormed(mnemonic) {
 		return nil, ErrInvalidMnemonic
 	}
 
@@ -272,9 +272,17 @@ func NewSeed(mnemonic string, password string) []byte {
 }
 
 // IsMnemonicValid attempts to verify that the provided mnemonic is valid.
-// Validity is determined by both the number of words being appropriate,
-// and that all the words in the mnemonic are present in the word list.
+// Validity is determined by the number of words being appropriate,
+// that all the words in the mnemonic are present in the word list and that the
+// checksum of the words is correct.
 func IsMnemonicValid(mnemonic string) bool {
+	_, err := EntropyFromMnemonic(mnemonic)
+	return err == nil
+}
+
+// isMnemonicWellFormed verifies the number of words of the mnemonic and
+// that all of them are present in the word list.
+func isMnemonicWellFormed(mnemonic string) bool {
 	// Create a list of all the words in the mnemonic sentence
 	words := strings.Fields(mnemonic)
 
-- 
2.43.0


From 1fbd4d116c1ccf0b9fee3898a8166db70f30436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:19 +0000
Subject: [PATCH 58/88] fix: deliver received ping and pong messages

---
 xprotocol/message.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xprotocol/message.go b/xprotocol/message.go
index d475a4e..7e2aa9b 100644
--- a/xprotocol/message.go
+++ b/xprotocol/message.go
@@ -31,6 +31,10 @@ func makeEmptyMessage(command string) Message {
 		return &MsgHeaders{}
 	case CommandReject:
 		return &MsgReject{}
+	case CommandPing:
+		return &MsgPing{}
+	case CommandPong:
+		return &MsgPong{}
 	}
 	return &MsgUnhandle{command: command}
 }
-- 
2.43.0


From 882f264b1ff17e6b4e64241bf0bda533c7f580e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 59/88] fix: encoding a getheaders message must not change it

---
 xprotocol/msggetheaders.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index 78e3125..59d5898 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -30,19 +30,21 @@ func (m *MsgGetHeaders) AddBlockLocatorHash(hash []byte) error {
 	return nil
 }
 
-// Encode -- encoding MsgGetHeaders.
-func (m *MsgGetHeaders) Encode() []byte {
+// locators -- the locator hashes on the wire, a zero one if there are none.
+func (m *MsgGetHeaders) locators() [][]byte {
 	if len(m.blockLocatorHashes) == 0 {
-		var zero [32]byte
-		if err := m.AddBlockLocatorHash(zero[:]); err != nil {
-			return nil
-		}
+		return [][]byte{make([]byte, 32)}
 	}
+	return m.blockLocatorHashes
+}
 
+// Encode -- encoding MsgGetHeaders.
+func (m *MsgGetHeaders) Encode() []byte {
+	locators := m.locators()
 	buffer := xbase.NewBuffer()
 	buffer.WriteU32(m.protocolVersion)
-	buffer.WriteVarInt(uint64(len(m.blockLocatorHashes)))
-	for _, locator := range m.blockLocatorHashes {
+	buffer.WriteVarInt(uint64(len(locators)))
+	for _, locator := range locators {
 		buffer.WriteBytes(locator[:])
 	}
 	buffer.WriteBytes(m.blockStopHash[:])
@@ -75,9 +77,10 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgGetHeaders) Size() int {
+	locators := m.locators()
 	size := 4
-	size += xbase.VarIntSerializeSize(uint64(len(m.blockLocatorHashes)))
-	for _, hdr := range m.blockLocatorHashes {
+	size += xbase.VarIntSerializeSize(uint64(len(locators)))
+	for _, hdr := range locators {
 		size += len(hdr)
 	}
 	size += len(m.blockStopHash)
-- 
2.43.0


From 44669f21de6647137631bbacc7d8244bc2cd09d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 60/88] fix: decode the stop hash of a getheaders message and
 refuse false counts

---
 xprotocol/msggetheaders.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index 59d5898..b253e93 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -6,6 +6,8 @@
 package xprotocol
 
 import (
+	"fmt"
+
 	"github.com/keyfuse/tokucore/network"
 	"github.com/keyfuse/tokucore/xbase"
 )
@@ -63,6 +65,10 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 	if err != nil {
 		return err
 	}
+	if count > uint64(len(data)/32) {
+		return fmt.Errorf("msggetheaders.locator.count[%v].beyond.payload", count)
+	}
+	m.blockLocatorHashes = nil
 	for i := 0; i < int(count); i++ {
 		var hash []byte
 		if hash, err = buffer.ReadBytes(32); err != nil {
@@ -72,6 +78,11 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 			return err
 		}
 	}
+	stop, err := buffer.ReadBytes(32)
+	if err != nil {
+		return err
+	}
+	copy(m.blockStopHash[:], stop)
 	return nil
 }
 
-- 
2.43.0


From 780dba299dfe5c2f09f603e6759d6f05c2e05f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:55 +0000
Subject: [PATCH 61/88] fix: count all elements added against the message
 limits

---
 xprotocol/msgheaders.go | 2 +-
 xprotocol/msginv.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xprotocol/msgheaders.go b/xprotocol/msgheaders.go
index 66baf0e..3e709bb 100644
--- a/xprotocol/msgheaders.go
+++ b/xprotocol/msgheaders.go
@@ -27,7 +27,7 @@ func NewMsgHeaders() *MsgHeaders {
 
 // AddBlockHeader -- adds a new block header to the message.
 func (m *MsgHeaders) AddBlockHeader(headers ...*BlockHeader) error {
-	if len(m.Headers)+1 > MaxBlockHeadersPerMsg {
+	if len(m.Headers)+len(headers) > MaxBlockHeadersPerMsg {
 		return fmt.Errorf("too.many.block.headers.in.message[max:%v]", MaxBlockHeadersPerMsg)
 	}
 	m.Headers = append(m.Headers, headers...)
diff --git a/xprotocol/msginv.go b/xprotocol/msginv.go
index f54c3fa..6ba6787 100644
--- a/xprotocol/msginv.go
+++ b/xprotocol/msginv.go
@@ -23,7 +23,7 @@ func NewMsgInv() *MsgInv {
 
 // AddInvVect -- adds an inventory vector to the message.
 func (m *MsgInv) AddInvVect(iv ...*InvVect) error {
-	if len(m.Invs)+1 > MaxInvPerMsg {
+	if len(m.Invs)+len(iv) > MaxInvPerMsg {
 		return fmt.Errorf("too.many.invvect.in.message[max:%v]", MaxInvPerMsg)
 	}
 	m.Invs = append(m.Invs, iv...)
-- 
2.43.0


From 844e12dd4143e33210afa14d342f7f990072315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:09 +0000
Subject: [PATCH 62/88] fix: limit the number of headers when decoding

---
 xprotocol/msgheaders.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xprotocol/msgheaders.go b/xprotocol/msgheaders.go
index 3e709bb..1234c2c 100644
--- a/xprotocol/msgheaders.go
+++ b/xprotocol/msgheaders.go
@@ -59,6 +59,9 @@ func (m *MsgHeaders) Decode(data []byte) error {
 	if err != nil {
 		return err
 	}
+	if count > MaxBlockHeadersPerMsg {
+		return fmt.Errorf("too.many.block.headers.in.message[max:%v]", MaxBlockHeadersPerMsg)
+	}
 
 	for i := 0; i < int(count); i++ {
 		header := &BlockHeader{}
-- 
2.43.0


From e192b95e1f81316ac6ff4d04b578cd861ca92e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 63/88] fix: decoding replaces the elements of a message

---
 xprotocol/msggetdata.go | 1 +
 xprotocol/msgheaders.go | 1 +
 xprotocol/msginv.go     | 1 +
 3 files changed, 3 insertions(+)

diff --git a/xprotocol/msggetdata.go b/xprotocol/msggetdata.go
index 4253f16..796ea88 100644
--- a/xprotocol/msggetdata.go
+++ b/xprotocol/msggetdata.go
@@ -51,6 +51,7 @@ func (m *MsgGetData) Decode(data []byte) error {
 	if count > MaxInvPerMsg {
 		return fmt.Errorf("too.many.invvect.in.message[max:%v]", MaxInvPerMsg)
 	}
+	m.InvList = nil
 	for i := 0; i < int(count); i++ {
 		var typ uint32
 		var hash []byte
diff --git a/xprotocol/msgheaders.go b/xprotocol/msgheaders.go
index 1234c2c..245ad2b 100644
--- a/xprotocol/msgheaders.go
+++ b/xprotocol/msgheaders.go
@@ -63,6 +63,7 @@ func (m *MsgHeaders) Decode(data []byte) error {
 		return fmt.Errorf("too.many.block.headers.in.message[max:%v]", MaxBlockHeadersPerMsg)
 	}
 
+	m.Headers = nil
 	for i := 0; i < int(count); i++ {
 		header := &BlockHeader{}
 		if header.Version, err = buffer.ReadU32(); err != nil {
diff --git a/xprotocol/msginv.go b/xprotocol/msginv.go
index 6ba6787..bb56404 100644
--- a/xprotocol/msginv.go
+++ b/xprotocol/msginv.go
@@ -51,6 +51,7 @@ func (m *MsgInv) Decode(data []byte) error {
 	if count > MaxInvPerMsg {
 		return fmt.Errorf("too.many.invvect.in.message[max:%v]", MaxInvPerMsg)
 	}
+	m.Invs = nil
 	for i := 0; i < int(count); i++ {
 		var typ uint32
 		var hash []byte
-- 
2.43.0


From 5b77f9be16d25589d3e443bbf5e9d787f55e33e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:36 +0000
Subject: [PATCH 64/88] fix: report the encoded size of reject, verack and
 unhandled messages

---
 xprotocol/msgreject.go   | 7 ++++++-
 xprotocol/msgunhandle.go | 2 +-
 xprotocol/msgverack.go   | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/xprotocol/msgreject.go b/xprotocol/msgreject.go
index 9a50602..995ad2b 100644
--- a/xprotocol/msgreject.go
+++ b/xprotocol/msgreject.go
@@ -77,7 +77,12 @@ func (m *MsgReject) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgReject) Size() int {
-	return len(m.Cmd) + 1 + len(m.Reason) + len(m.Hash)
+	size := xbase.VarIntSerializeSize(uint64(len(m.Cmd))) + len(m.Cmd) + 1
+	size += xbase.VarIntSerializeSize(uint64(len(m.Reason))) + len(m.Reason)
+	if m.Cmd == CommandBlock || m.Cmd == CommandTx {
+		size += len(m.Hash)
+	}
+	return size
 }
 
 // Command -- returns the protocal command string of this message.
diff --git a/xprotocol/msgunhandle.go b/xprotocol/msgunhandle.go
index d8c31b1..19b7728 100644
--- a/xprotocol/msgunhandle.go
+++ b/xprotocol/msgunhandle.go
@@ -29,7 +29,7 @@ func (m *MsgUnhandle) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgUnhandle) Size() int {
-	return len(m.command)
+	return 0
 }
 
 // Command -- returns the protocol command of this message.
diff --git a/xprotocol/msgverack.go b/xprotocol/msgverack.go
index ceddcf9..d9fb118 100644
--- a/xprotocol/msgverack.go
+++ b/xprotocol/msgverack.go
@@ -25,7 +25,7 @@ func (m *MsgVerAck) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgVerAck) Size() int {
-	return len(CommandVersionAck)
+	return 0
 }
 
 // Command -- returns the protocol command of this message.
-- 
2.43.0


From 99da6909de458f548bd122abd6aad6b751321758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:50 +0000
Subject: [PATCH 65/88] fix: ports of version messages are in network byte
 order

---
 xprotocol/msgversion.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/xprotocol/msgversion.go b/xprotocol/msgversion.go
index 7dc8c0e..c03424d 100644
--- a/xprotocol/msgversion.go
+++ b/xprotocol/msgversion.go
@@ -77,6 +77,21 @@ func NewMsgVersion(network *network.Network) *MsgVersion {
 	}
 }
 
+// writePort -- writes a port, in network byte order unlike the other fields.
+func writePort(buffer *xbase.Buffer, port uint32) {
+	buffer.WriteU8(byte(port >> 8))
+	buffer.WriteU8(byte(port))
+}
+
+// readPort -- reads a port, in network byte order unlike the other fields.
+func readPort(buffer *xbase.Buffer) (uint32, error) {
+	port, err := buffer.ReadBytes(2)
+	if err != nil {
+		return 0, err
+	}
+	return uint32(port[0])<<8 | uint32(port[1]), nil
+}
+
 // Encode -- encoding to bitcoin protocol format.
 func (m *MsgVersion) Encode() []byte {
 	buffer := xbase.NewBuffer()
@@ -85,10 +100,10 @@ func (m *MsgVersion) Encode() []byte {
 	buffer.WriteU64(m.Timestamp)
 	buffer.WriteU64(m.ServicesYou)
 	buffer.WriteBytes(m.AddressYou)
-	buffer.WriteU16(m.PortYou)
+	writePort(buffer, m.PortYou)
 	buffer.WriteU64(m.ServicesMe)
 	buffer.WriteBytes(m.AddressMe)
-	buffer.WriteU16(m.PortMe)
+	writePort(buffer, m.PortMe)
 	buffer.WriteU64(m.Nonce)
 	buffer.WriteVarString(m.UserAgent)
 	buffer.WriteU32((m.LastBlock))
@@ -116,7 +131,7 @@ func (m *MsgVersion) Decode(data []byte) error {
 	if m.AddressYou, err = buffer.ReadBytes(16); err != nil {
 		return err
 	}
-	if m.PortYou, err = buffer.ReadU16(); err != nil {
+	if m.PortYou, err = readPort(buffer); err != nil {
 		return err
 	}
 	if m.ServicesMe, err = buffer.ReadU64(); err != nil {
@@ -125,7 +140,7 @@ func (m *MsgVersion) Decode(data []byte) error {
 	if m.AddressMe, err = buffer.ReadBytes(16); err != nil {
 		return err
 	}
-	if m.PortMe, err = buffer.ReadU16(); err != nil {
+	if m.PortMe, err = readPort(buffer); err != nil {
 		return err
 	}
 	if m.Nonce, err = buffer.ReadU64(); err != nil {
-- 
2.43.0


From 126c62cee571d466e6bc00094e9b81511072b9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 66/88] fix: version messages carry the binary form of the
 address

---
 xprotocol/msgversion.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xprotocol/msgversion.go b/xprotocol/msgversion.go
index c03424d..491efed 100644
--- a/xprotocol/msgversion.go
+++ b/xprotocol/msgversion.go
@@ -6,6 +6,7 @@
 package xprotocol
 
 import (
+	"net"
 	"time"
 
 	"github.com/keyfuse/tokucore/network"
@@ -68,9 +69,9 @@ func NewMsgVersion(network *network.Network) *MsgVersion {
 	return &MsgVersion{
 		Version:    network.ProtocolVersion,
 		Timestamp:  uint64(time.Now().Unix()),
-		AddressYou: []byte(ip),
+		AddressYou: net.ParseIP(ip).To16(),
 		PortYou:    network.Port,
-		AddressMe:  []byte(ip),
+		AddressMe:  net.ParseIP(ip).To16(),
 		PortMe:     network.Port,
 		UserAgent:  network.UserAgent,
 		LastBlock:  1,
-- 
2.43.0


From 04832a0052e248648bca265acd891818ef16cd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 67/88] fix: accept unreduced paillier ciphertexts again

---
 xcrypto/paillier/paillier.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcrypto/paillier/paillier.go b/xcrypto/paillier/paillier.go
index bd09096..0785b6a 100644
--- a/xcrypto/paillier/paillier.go
+++ b/xcrypto/paillier/paillier.go
@@ -113,10 +113,10 @@ func (sk *PrvKey) Decrypt(ct *big.Int) (*big.Int, error) {
 	return m, nil
 }
 
-// isCiphertext -- returns whether ct is an invertible element modulo n^2.
+// isCiphertext -- returns whether ct stands for an invertible element modulo n^2.
 func (pk *PubKey) isCiphertext(ct *big.Int) bool {
 	return pk != nil && pk.G != nil && pk.N != nil && pk.NN != nil &&
-		ct != nil && ct.Cmp(zero) == 1 && ct.Cmp(pk.NN) == -1 &&
+		ct != nil && ct.Cmp(zero) == 1 &&
 		new(big.Int).GCD(nil, nil, ct, pk.N).Cmp(one) == 0
 }
 
-- 
2.43.0


From ab35b37e325c8288a7fece2f26084e8949a8c31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:48 +0000
Subject: [PATCH 68/88] fix: a reader waiting for a message must not keep
 others from writing

---
 xprotocol/stream.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index e5b1ca1..5ec6a82 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -44,7 +44,8 @@ const (
 type Stream struct {
 	magic  []byte
 	conn   net.Conn
-	mutex  sync.Mutex
+	rmutex sync.Mutex
+	wmutex sync.Mutex
 	reader *bufio.Reader
 	writer *bufio.Writer
 }
@@ -61,8 +62,8 @@ func NewStream(conn net.Conn, magic []byte) *Stream {
 
 // ReadMessage -- read a message from the network.
 func (s *Stream) ReadMessage() (Message, error) {
-	s.mutex.Lock()
-	defer s.mutex.Unlock()
+	s.rmutex.Lock()
+	defer s.rmutex.Unlock()
 	if err := s.conn.SetReadDeadline(time.Now().Add(readTimeout)); err != nil {
 		return nil, err
 	}
@@ -101,8 +102,8 @@ func (s *Stream) ReadMessage() (Message, error) {
 
 // WriteMessage -- write the message to the network.
 func (s *Stream) WriteMessage(msg Message) error {
-	s.mutex.Lock()
-	defer s.mutex.Unlock()
+	s.wmutex.Lock()
+	defer s.wmutex.Unlock()
 	if err := s.conn.SetWriteDeadline(time.Now().Add(writeTimeout)); err != nil {
 		return err
 	}
-- 
2.43.0


From 8ce22f064f93225956a2ca2a576f0ae4912a1732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 69/88] fix: refuse messages of other networks

---
 xprotocol/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index 5ec6a82..786f16e 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -72,6 +72,9 @@ func (s *Stream) ReadMessage() (Message, error) {
 	if _, err := io.ReadFull(s.reader, magic); err != nil {
 		return nil, err
 	}
+	if !bytes.Equal(magic, s.magic) {
+		return nil, fmt.Errorf("stream.read.magic.mismatch")
+	}
 	command := make([]byte, 12)
 	if _, err := io.ReadFull(s.reader, command); err != nil {
 		return nil, err
-- 
2.43.0


From 7bd19b963f75c0f0c5933f8955059f0ff4a4c987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:13 +0000
Subject: [PATCH 70/88] fix: limit the payload of a message

---
 xprotocol/stream.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index 786f16e..f3722f1 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -38,6 +38,7 @@ const (
 	bufferSize   = 32 * 1024
 	readTimeout  = 30 * time.Second
 	writeTimeout = 20 * time.Second
+	maxPayload   = 32 * 1024 * 1024
 )
 
 // Stream --
@@ -87,6 +88,9 @@ func (s *Stream) ReadMessage() (Message, error) {
 	if _, err := io.ReadFull(s.reader, check); err != nil {
 		return nil, err
 	}
+	if size > maxPayload {
+		return nil, fmt.Errorf("stream.read.payload.too.large[%v]", size)
+	}
 	data := make([]byte, size)
 	if _, err := io.ReadFull(s.reader, data); err != nil {
 		return nil, err
@@ -118,6 +122,9 @@ func (s *Stream) WriteMessage(msg Message) error {
 	b.Write(command)
 
 	datas := msg.Encode()
+	if len(datas) > maxPayload {
+		return fmt.Errorf("stream.write.payload.too.large[%v]", len(datas))
+	}
 	if err := binary.Write(&b, binary.LittleEndian, uint32(len(datas))); err != nil {
 		return err
 	}
-- 
2.43.0


From 15db01ad6b504ae5005aa94a189d96ac1a0eff78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:25 +0000
Subject: [PATCH 71/88] fix: report a stream that ends inside a message as
 truncated

---
 xprotocol/stream.go | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index f3722f1..d3700aa 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -38,6 +38,7 @@ const (
 	bufferSize   = 32 * 1024
 	readTimeout  = 30 * time.Second
 	writeTimeout = 20 * time.Second
+	headerSize   = 24
 	maxPayload   = 32 * 1024 * 1024
 )
 
@@ -69,32 +70,26 @@ func (s *Stream) ReadMessage() (Message, error) {
 		return nil, err
 	}
 
-	magic := make([]byte, 4)
-	if _, err := io.ReadFull(s.reader, magic); err != nil {
+	header := make([]byte, headerSize)
+	if _, err := io.ReadFull(s.reader, header); err != nil {
 		return nil, err
 	}
+	magic, command, check := header[:4], header[4:16], header[20:]
 	if !bytes.Equal(magic, s.magic) {
 		return nil, fmt.Errorf("stream.read.magic.mismatch")
 	}
-	command := make([]byte, 12)
-	if _, err := io.ReadFull(s.reader, command); err != nil {
-		return nil, err
-	}
-	var size uint32
-	if err := binary.Read(s.reader, binary.LittleEndian, &size); err != nil {
-		return nil, err
-	}
-	check := make([]byte, 4)
-	if _, err := io.ReadFull(s.reader, check); err != nil {
-		return nil, err
-	}
+	size := binary.LittleEndian.Uint32(header[16:])
 	if size > maxPayload {
 		return nil, fmt.Errorf("stream.read.payload.too.large[%v]", size)
 	}
-	data := make([]byte, size)
-	if _, err := io.ReadFull(s.reader, data); err != nil {
+	// The memory grows with the bytes that arrive, not with the size promised.
+	data, err := io.ReadAll(io.LimitReader(s.reader, int64(size)))
+	if err != nil {
 		return nil, err
 	}
+	if uint32(len(data)) < size {
+		return nil, io.ErrUnexpectedEOF
+	}
 	if !bytes.Equal(check, checksum(data)) {
 		return nil, fmt.Errorf("stream.read.payload.checksum.mismatch")
 	}
-- 
2.43.0


From 2256cf1a9b0290d1900b6d9bff4df962e1df7579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:37 +0000
Subject: [PATCH 72/88] fix: refuse to write commands longer than 12 bytes

---
 xprotocol/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index d3700aa..39becbb 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -113,6 +113,9 @@ func (s *Stream) WriteMessage(msg Message) error {
 	var b bytes.Buffer
 	b.Write(s.magic)
 	command := make([]byte, 12)
+	if len(msg.Command()) > len(command) {
+		return fmt.Errorf("stream.write.command.too.long[%v]", msg.Command())
+	}
 	copy(command, []byte(msg.Command()))
 	b.Write(command)
 
-- 
2.43.0


From 4a4f2d77ef2f75b1cf0d346a49775ac84130ab34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 73/88] fix: report replies without a result

---
 xrpc/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xrpc/client.go b/xrpc/client.go
index b8b63d4..24bffba 100644
--- a/xrpc/client.go
+++ b/xrpc/client.go
@@ -87,5 +87,8 @@ func (c *Client) call(method string, params ...interface{}) (*Response, error) {
 	if resp.Error != nil {
 		return nil, fmt.Errorf("%v", resp.Error)
 	}
+	if resp.Result == nil {
+		return nil, fmt.Errorf("rpc.%s.result.missing", method)
+	}
 	return resp, nil
 }
-- 
2.43.0


From e11ed9d1def63e43b43c2bba2ef444bf2e70852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 74/88] fix: report HTTP failures

---
 xrpc/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xrpc/client.go b/xrpc/client.go
index 24bffba..56ce6fd 100644
--- a/xrpc/client.go
+++ b/xrpc/client.go
@@ -87,6 +87,9 @@ func (c *Client) call(method string, params ...interface{}) (*Response, error) {
 	if resp.Error != nil {
 		return nil, fmt.Errorf("%v", resp.Error)
 	}
+	if rawResp.StatusCode != http.StatusOK {
+		return nil, fmt.Errorf("rpc.%s.http.status[%s]", method, rawResp.Status)
+	}
 	if resp.Result == nil {
 		return nil, fmt.Errorf("rpc.%s.result.missing", method)
 	}
-- 
2.43.0


From c29492b3517048cc448b6bc7a262bf7316ad2c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 75/88] fix: send an empty array of parameters instead of null

---
 xrpc/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xrpc/client.go b/xrpc/client.go
index 56ce6fd..aefb705 100644
--- a/xrpc/client.go
+++ b/xrpc/client.go
@@ -54,6 +54,9 @@ func NewClient(host string, user string, pass string) *Client {
 
 func (c *Client) call(method string, params ...interface{}) (*Response, error) {
 	url := fmt.Sprintf("http://%v/", c.rpcHost)
+	if params == nil {
+		params = []interface{}{}
+	}
 	param := &Request{
 		Method: method,
 		Params: params,
-- 
2.43.0


From d4c231369cfe55c155a3db1d203b94a9b6ed8b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 76/88] fix: return the neighbours of a block header as the
 hashes sent

---
 xrpc/models.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xrpc/models.go b/xrpc/models.go
index 55f7c20..1875df4 100644
--- a/xrpc/models.go
+++ b/xrpc/models.go
@@ -19,8 +19,8 @@ type BlockHeaderResult struct {
 	Bits              string  `json:"bits"`
 	Difficulty        float64 `json:"difficulty"`
 	ChainWork         string  `json:"chainwork"`
-	PreviousBlockHash []byte  `json:"previousblockhash"`
-	NextBlockHash     []byte  `json:"nextblockhash"`
+	PreviousBlockHash string  `json:"previousblockhash"`
+	NextBlockHash     string  `json:"nextblockhash"`
 }
 
 // BlockResult --
-- 
2.43.0


From 101c5bc9baaa354a7fce3eb0a76c5c407312b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 77/88] fix: get blocks that are not in the main chain

---
 xrpc/models.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrpc/models.go b/xrpc/models.go
index 1875df4..3fcbb7f 100644
--- a/xrpc/models.go
+++ b/xrpc/models.go
@@ -26,7 +26,7 @@ type BlockHeaderResult struct {
 // BlockResult --
 type BlockResult struct {
 	Hash          string              `json:"hash"`
-	Confirmations uint64              `json:"confirmations"`
+	Confirmations int64               `json:"confirmations"`
 	StrippedSize  int32               `json:"strippedsize"`
 	Size          int32               `json:"size"`
 	Weight        int32               `json:"weight"`
-- 
2.43.0


From 3614ae864466c3a18f5f0a2f84f5208838f12ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 78/88] fix: create a new error for an unknown number

---
 xerror/error.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xerror/error.go b/xerror/error.go
index 11b93b0..b09d889 100644
--- a/xerror/error.go
+++ b/xerror/error.go
@@ -23,7 +23,13 @@ type Error struct {
 func NewError(table map[int]*Error, number int, args ...interface{}) *Error {
 	errn, ok := table[number]
 	if !ok {
-		return Errors[ER_UNKNOWN]
+		errn = Errors[ER_UNKNOWN]
+		return &Error{
+			Num:     errn.Num,
+			State:   errn.State,
+			Message: errn.Message,
+			stack:   caller(),
+		}
 	}
 	return &Error{
 		Num:     errn.Num,
-- 
2.43.0


From 5109fd19274d8a2716aeb1af9df50a112187d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 79/88] fix: print errors without a stack

---
 xerror/stack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xerror/stack.go b/xerror/stack.go
index 518222a..3fe3c94 100644
--- a/xerror/stack.go
+++ b/xerror/stack.go
@@ -17,6 +17,9 @@ type stack struct {
 }
 
 func (s *stack) trace() string {
+	if s == nil {
+		return ""
+	}
 	buf := bytes.Buffer{}
 	for _, stack := range s.stacks {
 		fn := runtime.FuncForPC(stack)
-- 
2.43.0


From 83aabae62e77828150f33f58065387c402a37ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 80/88] fix: print errors with every format verb

---
 xerror/error.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xerror/error.go b/xerror/error.go
index b09d889..dd0e49a 100644
--- a/xerror/error.go
+++ b/xerror/error.go
@@ -62,6 +62,10 @@ func (e *Error) Format(s fmt.State, verb rune) {
 				return
 			}
 		}
+	case 'q':
+		_, _ = fmt.Fprintf(s, "%q", e.Error())
+	default:
+		_, _ = io.WriteString(s, e.Error())
 	}
 }
 
-- 
2.43.0


From f8774168d5df01ad755414b2dab63e2f16721603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 81/88] fix: do not overwrite bytes already handed out when a
 buffer is reset

---
 xbase/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xbase/buffer.go b/xbase/buffer.go
index 08873e4..01c5002 100644
--- a/xbase/buffer.go
+++ b/xbase/buffer.go
@@ -290,5 +290,5 @@ func (b *Buffer) End() bool {
 func (b *Buffer) Reset() {
 	b.seek = 0
 	b.length = 0
-	b.data = b.data[0:0]
+	b.data = nil
 }
-- 
2.43.0


From ab9e729057192806dbdb27696f39a87e1a6e0c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 82/88] fix: do not write behind the bytes given to a buffer
 reader

---
 xbase/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xbase/buffer.go b/xbase/buffer.go
index 01c5002..9b56f7e 100644
--- a/xbase/buffer.go
+++ b/xbase/buffer.go
@@ -24,7 +24,7 @@ func NewBuffer() *Buffer {
 // NewBufferReader -- creates a new buffer with data initialize.
 func NewBufferReader(data []byte) *Buffer {
 	return &Buffer{
-		data:   data,
+		data:   data[:len(data):len(data)],
 		length: len(data),
 	}
 }
-- 
2.43.0


From bd5b50e6d33a6920719cfe0769628e05090b1519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 83/88] fix: refuse inconsistent paillier public keys

---
 xcrypto/paillier/paillier.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcrypto/paillier/paillier.go b/xcrypto/paillier/paillier.go
index 0785b6a..ab56ada 100644
--- a/xcrypto/paillier/paillier.go
+++ b/xcrypto/paillier/paillier.go
@@ -116,6 +116,7 @@ func (sk *PrvKey) Decrypt(ct *big.Int) (*big.Int, error) {
 // isCiphertext -- returns whether ct stands for an invertible element modulo n^2.
 func (pk *PubKey) isCiphertext(ct *big.Int) bool {
 	return pk != nil && pk.G != nil && pk.N != nil && pk.NN != nil &&
+		pk.N.Cmp(zero) == 1 && pk.NN.Cmp(new(big.Int).Mul(pk.N, pk.N)) == 0 &&
 		ct != nil && ct.Cmp(zero) == 1 &&
 		new(big.Int).GCD(nil, nil, ct, pk.N).Cmp(one) == 0
 }
-- 
2.43.0


From e5ba592e00fbc682203578fa63e0f53900156949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:19 +0000
Subject: [PATCH 84/88] fix: keep a zero byte of a P2WSH witness as it is

---
 xcore/script_p2wsh_v0.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcore/script_p2wsh_v0.go b/xcore/script_p2wsh_v0.go
index 0aa9cdc..d3ee632 100644
--- a/xcore/script_p2wsh_v0.go
+++ b/xcore/script_p2wsh_v0.go
@@ -105,6 +105,11 @@ func (s *PayToWitnessV0ScriptHashScript) WitnessToUnlockingScriptBytes(witness [
 
 	builder := xvm.NewScriptBuilder()
 	for _, wit := range witness {
+		// AddData pushes a zero byte as the empty element, but a witness element is kept as it is.
+		if len(wit) == 1 && wit[0] == 0 {
+			builder.AddOp(xvm.OP_DATA_1).AddOp(wit[0])
+			continue
+		}
 		builder.AddData(wit)
 	}
 	return builder.Script()
-- 
2.43.0


From 20012675d6216e2cc184bc36f0bfc6cfaf728f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:41 +0000
Subject: [PATCH 85/88] fix: an input read from the witness stays a witness
 input without a redeem script

---
 xcore/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index e8cdebd..1607a31 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -94,7 +94,7 @@ func NewTxIn(txHash []byte, n uint32, value uint64, script []byte, redeemScript
 
 // HasWitness -- check the TxIn is a witness program.
 func (txin *TxIn) HasWitness() bool {
-	return txin.WitnessScriptCode != nil
+	return txin.WitnessScriptCode != nil || txin.unlockingIsWitness
 }
 
 // TxOut -- the info of output transaction.
-- 
2.43.0


From 805306be013dedf71a50d0360e3711d6f2c8470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:26 +0000
Subject: [PATCH 86/88] fix: registering another spent output leaves no
 scriptSig made from the witness

---
 xcore/transaction.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 1607a31..e8109f1 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -171,8 +171,12 @@ func (tx *Transaction) SetTxIn(idx int, amount uint64, script []byte, redeemScri
 	if err != nil {
 		return err
 	}
-	if isWitness {
+	switch {
+	case isWitness:
 		txIn.RawUnlockingScript = rawUnlocking
+	case txIn.unlockingIsWitness:
+		// What an earlier witness program read is no scriptSig.
+		txIn.RawUnlockingScript = nil
 	}
 
 	txIn.unlockingIsWitness = isWitness
-- 
2.43.0


From 950ab3cdacc2666256a9d8d4c52e5da1c2108654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:35 +0000
Subject: [PATCH 87/88] fix: a failed embedding leaves the unlocking data as it
 was

---
 xcore/transaction.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index e8109f1..1508221 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -284,14 +284,18 @@ func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
 		return err
 	}
 	// Raw unlocking.
-	if txIn.RawUnlockingScript, err = scriptInstance.GetRawUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
+	rawUnlocking, err := scriptInstance.GetRawUnlockingScriptBytes(signs, txIn.RedeemScript)
+	if err != nil {
 		return err
 	}
-	txIn.unlockingIsWitness = scriptInstance.GetScriptVersion() == WITNESS_V0
 	// Witness unlocking.
-	if txIn.Witness, err = scriptInstance.GetWitnessUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
+	witness, err := scriptInstance.GetWitnessUnlockingScriptBytes(signs, txIn.RedeemScript)
+	if err != nil {
 		return err
 	}
+	txIn.RawUnlockingScript = rawUnlocking
+	txIn.Witness = witness
+	txIn.unlockingIsWitness = scriptInstance.GetScriptVersion() == WITNESS_V0
 	return nil
 }
 
-- 
2.43.0


From 3ebd3da550c9f29adf8e528615d451079b24595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:33 +0000
Subject: [PATCH 88/88] fix: a version message announces the last block of its
 network

---
 xprotocol/msgversion.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xprotocol/msgversion.go b/xprotocol/msgversion.go
index 491efed..bfcea7c 100644
--- a/xprotocol/msgversion.go
+++ b/xprotocol/msgversion.go
@@ -74,7 +74,7 @@ func NewMsgVersion(network *network.Network) *MsgVersion {
 		AddressMe:  net.ParseIP(ip).To16(),
 		PortMe:     network.Port,
 		UserAgent:  network.UserAgent,
-		LastBlock:  1,
+		LastBlock:  network.LastBlock,
 	}
 }
 
-- 
2.43.0

