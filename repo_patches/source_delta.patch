From 3345f2e16361e46f02c5a49603650e1912c9b651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:59 +0000
Subject: [PATCH 01/22] fix: refuse negative byte counts when reading TL data

---
 tl/1_tl_reader.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tl/1_tl_reader.ts b/tl/1_tl_reader.ts
index 07d6983..50e743e 100644
--- a/tl/1_tl_reader.ts
+++ b/tl/1_tl_reader.ts
@@ -50,7 +50,7 @@ export class TLReader {
   }
 
   #readView(byteCount: number): Uint8Array<ArrayBufferLike> {
-    if (this._buffer.byteLength - this.#offset < byteCount) {
+    if (byteCount < 0 || this._buffer.byteLength - this.#offset < byteCount) {
       throw new TLError("No data remaining", this.#path);
     }
 
-- 
2.43.0


From 480221ea2408810b1e70c864fc99005409e36052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 02/22] fix: list web storage entries when other keys share the
 prefix

---
 storage/2_storage_local_storage.node.ts | 4 ++--
 storage/2_storage_local_storage.ts      | 4 ++--
 storage/2_storage_session_storage.ts    | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/storage/2_storage_local_storage.node.ts b/storage/2_storage_local_storage.node.ts
index 5ced7f1..6320dbf 100644
--- a/storage/2_storage_local_storage.node.ts
+++ b/storage/2_storage_local_storage.node.ts
@@ -20,7 +20,7 @@
 
 import { LocalStorage } from "node-localstorage";
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
-import { compareKeys, fromString, isInRange, toString } from "./1_utilities.ts";
+import { compareKeys, fromString, isInRange, toString, ValueType } from "./1_utilities.ts";
 
 export class StorageLocalStorage implements Storage {
   #prefix: string;
@@ -72,7 +72,7 @@ export class StorageLocalStorage implements Storage {
 
   *getMany<T>(filter: GetManyFilter, params?: { limit?: number; reverse?: boolean }): Generator<[readonly StorageKeyPart[], T]> {
     const entries = Object.entries(this.#storage)
-      .filter(([key]) => key.startsWith(this.prefix))
+      .filter(([key]) => key.startsWith(this.prefix + ValueType.Array))
       .sort(([a], [b]) =>
         compareKeys(
           fromString<StorageKeyPart[]>(a.slice(this.prefix.length)),
diff --git a/storage/2_storage_local_storage.ts b/storage/2_storage_local_storage.ts
index 1908bc2..727b758 100644
--- a/storage/2_storage_local_storage.ts
+++ b/storage/2_storage_local_storage.ts
@@ -19,7 +19,7 @@
  */
 
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
-import { compareKeys, fromString, isInRange, toString } from "./1_utilities.ts";
+import { compareKeys, fromString, isInRange, toString, ValueType } from "./1_utilities.ts";
 
 export class StorageLocalStorage implements Storage {
   readonly #prefix: string;
@@ -72,7 +72,7 @@ export class StorageLocalStorage implements Storage {
 
   *getMany<T>(filter: GetManyFilter, params?: { limit?: number; reverse?: boolean }): Generator<[readonly StorageKeyPart[], T]> {
     const entries = Object.entries(localStorage)
-      .filter(([key]) => key.startsWith(this.prefix))
+      .filter(([key]) => key.startsWith(this.prefix + ValueType.Array))
       .sort(([a], [b]) =>
         compareKeys(
           fromString<StorageKeyPart[]>(a.slice(this.prefix.length)),
diff --git a/storage/2_storage_session_storage.ts b/storage/2_storage_session_storage.ts
index eea0c55..94b802c 100644
--- a/storage/2_storage_session_storage.ts
+++ b/storage/2_storage_session_storage.ts
@@ -20,7 +20,7 @@
 
 import type { MaybePromise } from "../1_utilities.ts";
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
-import { compareKeys, fromString, isInRange, toString } from "./1_utilities.ts";
+import { compareKeys, fromString, isInRange, toString, ValueType } from "./1_utilities.ts";
 
 export class StorageSessionStorage implements Storage {
   readonly #prefix: string;
@@ -73,7 +73,7 @@ export class StorageSessionStorage implements Storage {
 
   *getMany<T>(filter: GetManyFilter, params?: { limit?: number; reverse?: boolean }): Generator<[readonly StorageKeyPart[], T]> {
     const entries = Object.entries(sessionStorage)
-      .filter(([key]) => key.startsWith(this.prefix))
+      .filter(([key]) => key.startsWith(this.prefix + ValueType.Array))
       .sort(([a], [b]) =>
         compareKeys(
           fromString<StorageKeyPart[]>(a.slice(this.prefix.length)),
-- 
2.43.0


From 7ab778e606d88d15485a42786ce77cb7b8f4b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:49 +0000
Subject: [PATCH 03/22] fix: skip web storage keys shorter than the listed
 prefix

---
 storage/2_storage_local_storage.node.ts | 2 +-
 storage/2_storage_local_storage.ts      | 2 +-
 storage/2_storage_session_storage.ts    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/storage/2_storage_local_storage.node.ts b/storage/2_storage_local_storage.node.ts
index 6320dbf..f6dbd05 100644
--- a/storage/2_storage_local_storage.node.ts
+++ b/storage/2_storage_local_storage.node.ts
@@ -93,7 +93,7 @@ export class StorageLocalStorage implements Storage {
       if (Array.isArray(parts)) {
         if ("prefix" in filter) {
           for (const [i, p] of filter.prefix.entries()) {
-            if (toString(p) !== toString(parts[i])) {
+            if (i >= parts.length || toString(p) !== toString(parts[i])) {
               continue entries;
             }
           }
diff --git a/storage/2_storage_local_storage.ts b/storage/2_storage_local_storage.ts
index 727b758..40a0f87 100644
--- a/storage/2_storage_local_storage.ts
+++ b/storage/2_storage_local_storage.ts
@@ -93,7 +93,7 @@ export class StorageLocalStorage implements Storage {
       if (Array.isArray(parts)) {
         if ("prefix" in filter) {
           for (const [i, p] of filter.prefix.entries()) {
-            if (toString(p) !== toString(parts[i])) {
+            if (i >= parts.length || toString(p) !== toString(parts[i])) {
               continue entries;
             }
           }
diff --git a/storage/2_storage_session_storage.ts b/storage/2_storage_session_storage.ts
index 94b802c..5dc4c78 100644
--- a/storage/2_storage_session_storage.ts
+++ b/storage/2_storage_session_storage.ts
@@ -94,7 +94,7 @@ export class StorageSessionStorage implements Storage {
       if (Array.isArray(parts)) {
         if ("prefix" in filter) {
           for (const [i, p] of filter.prefix.entries()) {
-            if (toString(p) !== toString(parts[i])) {
+            if (i >= parts.length || toString(p) !== toString(parts[i])) {
               continue entries;
             }
           }
-- 
2.43.0


From c394f11fbe1cbbde3e9c507ababd87d924986e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:39 +0000
Subject: [PATCH 04/22] fix: list only keys that start with the prefix's parts
 in IndexedDB

---
 storage/1_utilities.ts | 57 ++----------------------------------------
 1 file changed, 2 insertions(+), 55 deletions(-)

diff --git a/storage/1_utilities.ts b/storage/1_utilities.ts
index 3a5ab42..6867137 100644
--- a/storage/1_utilities.ts
+++ b/storage/1_utilities.ts
@@ -128,66 +128,13 @@ export function restoreKey(key: readonly IDBValidKey[]): StorageKeyPart[] {
   });
 }
 
-// Source: https://gist.github.com/inexorabletash/5462871
 // deno-lint-ignore no-explicit-any
 export function getPrefixKeyRange(prefix: any): IDBKeyRange {
   // Ensure prefix is a valid key itself:
   if (indexedDB.cmp(prefix, prefix) !== 0) throw new TypeError();
 
-  const upperKey = successor(prefix);
-  if (upperKey === undefined) return IDBKeyRange.lowerBound(prefix);
-  return IDBKeyRange.bound(prefix, upperKey, false, true);
-}
-const MAX_DATE_VALUE = 8640000000000000;
-const UPPER_BOUND = {
-  NUMBER: new Date(-MAX_DATE_VALUE),
-  DATE: "",
-  STRING: [],
-  ARRAY: undefined,
-};
-// deno-lint-ignore no-explicit-any
-function successor(key: any) {
-  if (typeof key === "number") {
-    if (key === Infinity) return UPPER_BOUND.NUMBER;
-    if (key === -Infinity) return -Number.MAX_VALUE;
-    if (key === 0) return Number.MIN_VALUE;
-    let epsilon = Math.abs(key);
-    while (key + epsilon / 2 !== key) epsilon = epsilon / 2;
-    return key + epsilon;
-  }
-
-  if (key instanceof Date) {
-    if (key.valueOf() + 1 > MAX_DATE_VALUE) return UPPER_BOUND.DATE;
-    return new Date(key.valueOf() + 1);
-  }
-
-  if (typeof key === "string") {
-    let len = key.length;
-    while (len > 0) {
-      const head = key.substring(0, len - 1),
-        tail = key.charCodeAt(len - 1);
-      if (tail !== 0xffff) return head + String.fromCharCode(tail + 1);
-      key = head;
-      --len;
-    }
-    return UPPER_BOUND.STRING;
-  }
-
-  if (Array.isArray(key)) {
-    key = key.slice(); // Operate on a copy.
-    let len = key.length;
-    while (len > 0) {
-      const tail = successor(key.pop());
-      if (tail !== undefined) {
-        key.push(tail);
-        return key;
-      }
-      --len;
-    }
-    return UPPER_BOUND.ARRAY;
-  }
-
-  throw new TypeError();
+  // An array that holds an array comes after every key part, fixed bigints included.
+  return IDBKeyRange.bound(prefix, [...prefix, [[]]], false, true);
 }
 
 export function compareKeys(left: readonly StorageKeyPart[], right: readonly StorageKeyPart[]): number {
-- 
2.43.0


From 1cba4357658dc8fd821d948faa645f22cd7db8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 05/22] fix: a value set while it is being read from storage is
 not overwritten by the stored one

---
 client/0_storage_operations.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 556ca19..c1d6c9a 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -759,6 +759,10 @@ class StorageMap<K extends StorageKeyPart[], V> {
     let value = this.#cache.get(key_);
     if (value === undefined) {
       value = await this.#storage.get<V>([this.#path, ...key]);
+      const current = this.#cache.get(key_);
+      if (current !== undefined) {
+        return current;
+      }
       this.#cache.set(key_, value);
     }
     return value;
@@ -819,7 +823,10 @@ class StorageValue<T> {
 
   async get(): Promise<T | null> {
     if (this.#value === undefined) {
-      this.#value = await this.#storage.get(this.#key);
+      const value = await this.#storage.get<T>(this.#key);
+      if (this.#value === undefined) {
+        this.#value = value;
+      }
     }
     return this.#value;
   }
-- 
2.43.0


From e0d99f4ea6fdc6f5bc4ea7e38ada76764fa85589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 06/22] fix: concurrent downloads of a file do not mix their
 parts in the cache

---
 client/2_file_manager.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index 39ec677..0fbca36 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -390,6 +390,7 @@ export class FileManager {
     return { size: params?.fileSize ? params.fileSize : size, name, contents };
   }
 
+  #cachingIds = new Set<bigint>();
   // deno-lint-ignore no-explicit-any
   async *downloadInner(location: Api.InputFileLocation, dcId: number, params: DownloadParams | undefined): AsyncGenerator<Uint8Array<ArrayBuffer>, void, any> {
     const signal = params?.signal;
@@ -440,7 +441,10 @@ export class FileManager {
     const limit = chunkSize;
     const requestedOffset = params?.offset ?? 0;
     let offset = decryptionInformation ? 0n : BigInt(requestedOffset);
-    const cacheId = offset === 0n ? id : null;
+    const cacheId = offset === 0n && id !== null && !this.#cachingIds.has(id) ? id : null;
+    if (cacheId !== null) {
+      this.#cachingIds.add(cacheId);
+    }
     let bytesToSkip = decryptionInformation ? requestedOffset : 0;
     let part = 0;
 
@@ -517,6 +521,9 @@ export class FileManager {
         }
       }
     } finally {
+      if (cacheId !== null) {
+        this.#cachingIds.delete(cacheId);
+      }
       signal?.removeEventListener("abort", abortRequests);
       requestController.abort();
     }
-- 
2.43.0


From 01c0f68e2b10081e17e6cb0173d592580a85c1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 07/22] fix: store the number of a secret message before
 sending it

---
 client/3_secret_chat_manager.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 351a9ca..19e79f3 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -796,6 +796,8 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     const key = (out_seq_no - (isCreator ? 1 : 0)) / 2;
     const state = this.#getSecretChatState(encryptedChat.id);
     state.outgoingMessages.set(key, { data, file, isService, isSilent });
+    // The number must be known to be taken before the message can reach the other side.
+    await state.commit(this.#c.messageStorage.storage);
     if (file) {
       const result = await this.#c.invoke({
         _: "messages.sendEncryptedFile",
-- 
2.43.0


From 4f12b9074c4b20c5a25b0ea073fcd47586007cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 08/22] fix: install the new key of a secret chat before
 sending its commit

---
 client/3_secret_chat_manager.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 19e79f3..fe0d649 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1110,9 +1110,12 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       exchange_id: state.rekeyId,
       key_fingerprint: authKeyId,
     };
-    await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
+    const currentAuthKey = state.authKey;
+    const currentAuthKeyId_ = state.authKeyId_;
+    // The other side may use the new key as soon as it receives the commit, which can happen even if sending it appears to fail.
     this.#installNewKey(state, authKey, authKeyId, authKeyId_, true);
     this.#clearInitiatedRekey(state);
+    await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, currentAuthKey, currentAuthKeyId_, undefined, true);
   }
 
   async #processDecryptedMessageActionRequestKey(chatId: number, action_: SecretChats.decryptedMessageActionRequestKey) {
-- 
2.43.0


From 0e845e5557b0f7d47e9248aa7e320b7fbe56adee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 09/22] fix: keep a secret chat key exchange when sending one
 of its messages appears to fail

---
 client/3_secret_chat_manager.ts | 43 ++++++++++++---------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index fe0d649..9642e44 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1173,16 +1173,8 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     state.toCommitAuthKey = authKey;
     state.toCommitAuthKeyId = authKeyId;
     state.toCommitAuthKeyId_ = authKeyId_;
-    try {
-      await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
-    } catch (err) {
-      state.toCommitId = 0n;
-      state.toCommitAuthKey = new Uint8Array();
-      state.toCommitAuthKeyId = 0n;
-      state.toCommitAuthKeyId_ = new Uint8Array();
-      await state.commit(this.#c.messageStorage.storage);
-      throw err;
-    }
+    // Even if sending appears to fail, the other side may have received the message, or may ask for it again.
+    await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
   }
 
   async #processDecryptedMessageActionCommitKey(chatId: number, action: SecretChats.decryptedMessageActionCommitKey) {
@@ -1382,24 +1374,19 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       exchange_id,
       g_a,
     };
-    try {
-      await this.#sendMessage(
-        {
-          _: "decryptedMessageService",
-          random_id,
-          action,
-        },
-        encryptedChat,
-        authKey,
-        authKeyId,
-        undefined,
-        true,
-      );
-    } catch (err) {
-      this.#clearInitiatedRekey(state);
-      await state.commit(this.#c.messageStorage.storage);
-      throw err;
-    }
+    // Even if sending appears to fail, the other side may have received the message, or may ask for it again.
+    await this.#sendMessage(
+      {
+        _: "decryptedMessageService",
+        random_id,
+        action,
+      },
+      encryptedChat,
+      authKey,
+      authKeyId,
+      undefined,
+      true,
+    );
   }
 
   async #maybeStartRekey(state: SecretChatState) {
-- 
2.43.0


From e04b64f1cf2fc05641acad886538464364311660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:11 +0000
Subject: [PATCH 10/22] fix: do not create an auth key with the answer to
 another resPQ request

---
 client/1_client_plain.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/client/1_client_plain.ts b/client/1_client_plain.ts
index 919b23a..6df3125 100644
--- a/client/1_client_plain.ts
+++ b/client/1_client_plain.ts
@@ -60,10 +60,11 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     for (let i = 0; i < 10; i++) {
       try {
         LcreateAuthKey.debug(`req_pq_multi [${i + 1}]`);
-        resPq = await this.invoke({ _: "req_pq_multi", nonce });
+        const result = await this.invoke({ _: "req_pq_multi", nonce });
 
-        assert(Mtproto.is("resPQ", resPq));
-        assertEquals(resPq.nonce, nonce);
+        assert(Mtproto.is("resPQ", result));
+        assertEquals(result.nonce, nonce);
+        resPq = result;
         LcreateAuthKey.debug("got res_pq");
         break;
       } catch (err) {
-- 
2.43.0


From 36057230afa230b10ff30b04bb8f63ff37965eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:11 +0000
Subject: [PATCH 11/22] fix: verify the nonces and hashes of the server's
 answers when creating an auth key

---
 client/1_client_plain.ts | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/client/1_client_plain.ts b/client/1_client_plain.ts
index 6df3125..ae60db5 100644
--- a/client/1_client_plain.ts
+++ b/client/1_client_plain.ts
@@ -18,9 +18,9 @@
  * along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
-import { assert, assertEquals, concat, ige256Decrypt, ige256Encrypt, unreachable } from "../0_deps.ts";
+import { assert, assertEquals, concat, equals, ige256Decrypt, ige256Encrypt, unreachable } from "../0_deps.ts";
 import { factorize, getLogger, getRandomInt, intFromBytes, intToBytes, modExp, rsaPad, sha1 } from "../1_utilities.ts";
-import { Mtproto } from "../2_tl.ts";
+import { Mtproto, TLReader } from "../2_tl.ts";
 import { type DC, getDcId } from "../3_transport.ts";
 import { PUBLIC_KEYS, type PublicKeys, TEMPORARY_AUTH_KEY_TTL } from "../4_constants.ts";
 import { PublicKeyError } from "../4_errors.ts";
@@ -142,6 +142,8 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     });
 
     assert(Mtproto.is("server_DH_params_ok", dhParams));
+    assertEquals(dhParams.nonce, nonce);
+    assertEquals(dhParams.server_nonce, serverNonce);
     LcreateAuthKey.debug("got server_DH_params_ok");
 
     const newNonce_ = intToBytes(newNonce, 32);
@@ -155,7 +157,13 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     const tmpAesIv = concat([sha1ServerNonceNewNonce.subarray(12, 20), sha1NewNonce, newNonce_.subarray(0, 4)]);
     const answerWithHash = ige256Decrypt(dhParams.encrypted_answer, tmpAesKey, tmpAesIv);
 
-    const dhInnerData = Mtproto.deserializeType("server_DH_inner_data", answerWithHash.slice(20));
+    const answerReader = new TLReader(answerWithHash.slice(20));
+    const dhInnerData = Mtproto.deserializeType("server_DH_inner_data", answerReader);
+    const paddingLength = answerReader.buffer.byteLength;
+    assert(paddingLength < 16);
+    assert(equals(await sha1(answerWithHash.slice(20, answerWithHash.byteLength - paddingLength)), answerWithHash.slice(0, 20)));
+    assertEquals(dhInnerData.nonce, nonce);
+    assertEquals(dhInnerData.server_nonce, serverNonce);
     const { g, g_a: gA_, dh_prime: dhPrime_ } = dhInnerData;
     const gA = intFromBytes(gA_, { byteOrder: "big", isSigned: false });
     const dhPrime = intFromBytes(dhPrime_, { byteOrder: "big", isSigned: false });
@@ -186,6 +194,8 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
       encrypted_data: encryptedData,
     });
     assert(Mtproto.is("dh_gen_ok", dhGenOk));
+    assertEquals(dhGenOk.nonce, nonce);
+    assertEquals(dhGenOk.server_nonce, serverNonce);
     LcreateAuthKey.debug("got dh_gen_ok");
 
     const serverNonceSlice = serverNonce_.subarray(0, 8);
@@ -194,6 +204,10 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     const authKey_ = modExp(gA, b, dhPrime);
     const authKey = intToBytes(authKey_, 256, { byteOrder: "big", isSigned: false });
 
+    const authKeyAuxHash = (await sha1(authKey)).subarray(0, 8);
+    const newNonceHash1 = (await sha1(concat([newNonce_, new Uint8Array([1]), authKeyAuxHash]))).subarray(4, 20);
+    assertEquals(dhGenOk.new_nonce_hash1, intFromBytes(newNonceHash1));
+
     LcreateAuthKey.debug("auth key created");
 
     return [authKey, intFromBytes(salt)];
-- 
2.43.0


From e9bd95fd29a69ebf11be35926e1747d1e3cf2d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:11 +0000
Subject: [PATCH 12/22] fix: check the group and the public numbers when
 creating an auth key

---
 client/1_client_plain.ts | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/client/1_client_plain.ts b/client/1_client_plain.ts
index ae60db5..f20d50b 100644
--- a/client/1_client_plain.ts
+++ b/client/1_client_plain.ts
@@ -26,6 +26,7 @@ import { PUBLIC_KEYS, type PublicKeys, TEMPORARY_AUTH_KEY_TTL } from "../4_const
 import { PublicKeyError } from "../4_errors.ts";
 import { type SessionParams, SessionPlain } from "../4_session.ts";
 import { ClientAbstract } from "./0_client_abstract.ts";
+import { isGoodModExpFirst, isSafePrime } from "./0_password.ts";
 
 const L = getLogger("ClientPlain");
 const LcreateAuthKey = L.branch("createAuthKey");
@@ -168,8 +169,15 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     const gA = intFromBytes(gA_, { byteOrder: "big", isSigned: false });
     const dhPrime = intFromBytes(dhPrime_, { byteOrder: "big", isSigned: false });
 
-    const b = getRandomInt(256, false);
-    const gB = modExp(BigInt(g), b, dhPrime);
+    assert(isSafePrime(dhPrime_, g));
+    assert(isGoodModExpFirst(gA, dhPrime));
+
+    let b: bigint;
+    let gB: bigint;
+    do {
+      b = getRandomInt(256, false);
+      gB = modExp(BigInt(g), b, dhPrime);
+    } while (!isGoodModExpFirst(gB, dhPrime));
 
     const data = Mtproto.serializeObject({
       _: "client_DH_inner_data",
-- 
2.43.0


From 9bf10e180ff1d8f8aff965fa6ae508280f333928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:11 +0000
Subject: [PATCH 13/22] fix: do not take a longer number that starts like the
 known prime for it

---
 client/0_password.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/0_password.ts b/client/0_password.ts
index f5eddbc..33329dd 100644
--- a/client/0_password.ts
+++ b/client/0_password.ts
@@ -48,7 +48,7 @@ export function isSafePrime(primeBytes: Uint8Array, g: number) {
       0x6F, 0x4F, 0xAD, 0xF0, 0x34, 0xB1, 0x04, 0x03, 0x11, 0x9C, 0xD8, 0xE3,
       0xB9, 0x2F, 0xCC, 0x5B,
   ]);
-  if (goodPrime.every((v, i) => v === primeBytes[i])) {
+  if (primeBytes.byteLength === goodPrime.byteLength && goodPrime.every((v, i) => v === primeBytes[i])) {
     if ([3, 4, 5, 7].includes(g)) {
       return true;
     }
-- 
2.43.0


From de40a834e81a81de7bde2d91df888460b2e1f66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 14/22] fix: refuse a public number outside the group when
 checking a password

---
 client/0_password.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/0_password.ts b/client/0_password.ts
index 33329dd..da528e2 100644
--- a/client/0_password.ts
+++ b/client/0_password.ts
@@ -136,6 +136,9 @@ export async function checkPassword(password_: string, ap: Api.account_Password)
 
   // g_b := srp_B
   const gB = intFromBytes(srpB, { byteOrder: "big", isSigned: false });
+  if (gB <= 0n || gB >= p) {
+    throw new TypeError("Received invalid srpB.");
+  }
 
   // k := H(p | g)
   const k = intFromBytes(await h(concat([pad(p), pad(g)])), { byteOrder: "big", isSigned: false });
-- 
2.43.0


From 8641b74519272c33b281a9f8a45e697771dc5dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:01 +0000
Subject: [PATCH 15/22] fix: keep each client's own invoke function and error
 handlers

---
 client/6_client.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index ac7871a..21047ca 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -1433,7 +1433,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     <T extends Api.AnyFunction | Mtproto.ping, R = T extends Mtproto.ping ? Mtproto.pong : T extends Api.AnyGenericFunction<infer X> ? Api.ReturnType<X> : T["_"] extends keyof Api.Functions ? Api.ReturnType<T> extends never ? Api.ReturnType<Api.Functions[T["_"]]> : never : never>(function_: T, params?: InvokeParams): Promise<R>;
     use: (handler: InvokeErrorHandler<Client<C>>) => void;
   } = Object.assign(
-    this.#invoke,
+    this.#invoke.bind(this),
     {
       use: (handler: InvokeErrorHandler<Client<C>>) => {
         const handle = this.#handleInvokeError;
-- 
2.43.0


From 0a01ba3b6033361298cdd34281e1e32c9fd4828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 16/22] fix: do not take a missing account for the account 0

---
 client/0_storage_operations.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index c1d6c9a..dbddb5f 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -326,7 +326,7 @@ export class StorageOperations {
     if (this.#accountId !== null) {
       return this.#accountId;
     } else {
-      return this.#accountId = (await this.auth.get())?.userId ?? null;
+      return this.#accountId = (await this.auth.get())?.userId || null;
     }
   }
 
-- 
2.43.0


From 384c68ff9e3a328ee5446243f042bc3c1e413b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 17/22] fix: do not wait in the receive loop for a response
 that it has to receive

---
 client/2_client_encrypted.ts | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index cfa0480..70618bd 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -347,18 +347,31 @@ export class ClientEncrypted extends ClientAbstract {
     return await sentRequest.promiseWithResolvers.promise as R;
   }
 
-  async #onTransportError(transportError: TransportError) {
+  #onTransportError(transportError: TransportError) {
     this.#L.error("transport error:", transportError);
     if (!this.#isPerfectForwardSecrecyEnabled) {
       return;
     }
     if (transportError.code === -404) {
       this.#L.debug("reconnecting with a new temporary auth key");
-      this.disconnect();
-      await this.connect();
+      drop(this.#reconnect());
     }
   }
 
+  // The session's handlers must not wait for this: it is their loop that receives the responses #connect() waits for.
+  async #reconnect() {
+    const connectPromise = this.#connectPromise;
+    this.disconnect();
+    if (connectPromise !== undefined) {
+      try {
+        return await connectPromise;
+      } catch {
+        // it was waiting for a response
+      }
+    }
+    await this.connect();
+  }
+
   async #onUpdate(body: Uint8Array) {
     let type: Api.DeserializedType;
     try {
@@ -395,8 +408,7 @@ export class ClientEncrypted extends ClientAbstract {
   async #onRpcError(msgId: bigint, error: Mtproto.rpc_error) {
     if (error.error_message === "AUTH_KEY_PERM_EMPTY" || error.error_message === "ENCRYPTED_MESSAGE_INVALID") {
       this.#L.debug("reconnecting with a new temporary auth key because of", error.error_message);
-      this.disconnect();
-      await this.connect();
+      drop(this.#reconnect());
     }
 
     const request = this.#sentRequests.get(msgId);
-- 
2.43.0


From ba682ca977a2ec66e99228c4c966426d50c75f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 18/22] fix: bind temporary auth keys with the ID of the
 message that is sent

---
 client/2_client_encrypted.ts   | 29 ++++++++++++++++++-----------
 session/2_session_encrypted.ts |  9 ++++++---
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index 70618bd..23661c1 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -160,27 +160,31 @@ export class ClientEncrypted extends ClientAbstract {
     const nonce = getRandomId();
     const expires_at = toUnixTimestamp(new Date()) + TEMPORARY_AUTH_KEY_TTL;
     this.#temporaryAuthKeyExpiresAt = fromUnixTimestamp(expires_at).getTime();
-    const object: Mtproto.bind_auth_key_inner = {
-      _: "bind_auth_key_inner",
+    await this.invoke({
+      _: "auth.bindTempAuthKey",
       perm_auth_key_id: this.#authKeyId,
       nonce,
+      encrypted_message: new Uint8Array(), // depends on the ID of the message it is sent in
       expires_at,
+    }), this.#isAuthKeyBound = true;
+  }
+
+  async #serializeBindTempAuthKey(function_: Api.auth_bindTempAuthKey, msg_id: bigint) {
+    const object: Mtproto.bind_auth_key_inner = {
+      _: "bind_auth_key_inner",
+      perm_auth_key_id: function_.perm_auth_key_id,
+      nonce: function_.nonce,
+      expires_at: function_.expires_at,
       temp_auth_key_id: this.session.authKeyId,
       temp_session_id: this.session.id,
     };
     const encrypted_message = await this.#encryptMessage({
       _: "message",
       seqno: 0,
-      msg_id: this.session.previewNextMessageId(),
+      msg_id,
       body: Mtproto.serializeObject(object),
     });
-    await this.invoke({
-      _: "auth.bindTempAuthKey",
-      perm_auth_key_id: this.#authKeyId,
-      nonce,
-      encrypted_message,
-      expires_at,
-    }), this.#isAuthKeyBound = true;
+    return Api.serializeObject({ ...function_, encrypted_message });
   }
 
   #temporaryAuthKeyRefreshLoop = new AbortableLoop(async (_loop, signal) => {
@@ -274,9 +278,12 @@ export class ClientEncrypted extends ClientAbstract {
   lastRequest?: Date;
   async #send(function_: Api.AnyFunction | Mtproto.ping, onMessageId: (messageId: bigint) => () => void) {
     this.lastRequest = new Date();
-    let body: Uint8Array<ArrayBuffer>;
+    let body: Uint8Array<ArrayBuffer> | ((messageId: bigint) => Promise<Uint8Array<ArrayBuffer>>);
     if (Mtproto.is("ping", function_)) {
       body = Mtproto.serializeObject(function_);
+    } else if (this.#isPerfectForwardSecrecyEnabled && Api.is("auth.bindTempAuthKey", function_)) {
+      const bindTempAuthKey = function_;
+      body = (messageId) => this.#serializeBindTempAuthKey(bindTempAuthKey, messageId);
     } else {
       if (this.#isAuthKeyBound && this.#params?.disableUpdates && !isMediaFunction(function_)) {
         function_ = { _: "invokeWithoutUpdates", query: function_ };
diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index bb479c0..c22d969 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -36,7 +36,10 @@ const RPC_ERROR = Mtproto.schema.definitions["rpc_error"][0];
 const COMPRESSION_THRESHOLD = 0.9;
 const LARGE_PACKET_SIZE = 16384;
 
-type PendingMessage = { body: Uint8Array<ArrayBuffer>; onMessageId: (messageId: bigint) => () => void; promiseWithResolvers: PromiseWithResolvers<void> };
+// a function if it depends on the ID of the message
+type MessageBody = Uint8Array<ArrayBuffer> | ((messageId: bigint) => Promise<Uint8Array<ArrayBuffer>>);
+
+type PendingMessage = { body: MessageBody; onMessageId: (messageId: bigint) => () => void; promiseWithResolvers: PromiseWithResolvers<void> };
 
 type PendingPing = { call: Mtproto.ping_delay_disconnect; promiseWithResolvers: PromiseWithResolvers<Mtproto.pong> };
 
@@ -212,7 +215,7 @@ export class SessionEncrypted extends Session implements Session {
     drop(this.handlers.onNewServerSalt?.(newServerSalt));
   }
 
-  async send(body: Uint8Array<ArrayBuffer>, onMessageId: (messageId: bigint) => () => void) {
+  async send(body: MessageBody, onMessageId: (messageId: bigint) => () => void) {
     if (!this.isDisconnected && !this.isConnected) {
       await super.waitUntilConnected();
     }
@@ -357,7 +360,7 @@ export class SessionEncrypted extends Session implements Session {
       unregister = pendingMessage.onMessageId(msg_id);
 
       let shouldGzip = false;
-      let body = pendingMessage.body;
+      let body = typeof pendingMessage.body === "function" ? await pendingMessage.body(msg_id) : pendingMessage.body;
       if (body.byteLength > 1024) {
         this.#L.debug("gzipping message", msg_id);
         shouldGzip = true;
-- 
2.43.0


From cfa6cfc89266668f7677c5ebb48f75fa08f47e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 19/22] fix: do not take the binding of a temporary auth key
 for the initialization of the connection

---
 client/2_client_encrypted.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index 23661c1..c573de3 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -451,7 +451,7 @@ export class ClientEncrypted extends ClientAbstract {
         this.#sentRequests.delete(msgId);
       }
     }
-    if (!this.#isConnectionInitialized) {
+    if (this.#isAuthKeyBound && !this.#isConnectionInitialized) {
       this.#isConnectionInitialized = true;
     }
   }
-- 
2.43.0


From faa2247ecee8254204e4e1fed7c6283bbbe8b966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 20/22] fix: do not send requests with a temporary auth key
 that is not bound yet

---
 client/2_client_encrypted.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index c573de3..5822251 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -139,6 +139,9 @@ export class ClientEncrypted extends ClientAbstract {
   }
 
   async #connect() {
+    if (this.#isPerfectForwardSecrecyEnabled) {
+      this.#isAuthKeyBound = false;
+    }
     if (!this.authKey.byteLength) {
       await this.#createAuthKey();
     } else if (this.#isPerfectForwardSecrecyEnabled) {
@@ -148,7 +151,6 @@ export class ClientEncrypted extends ClientAbstract {
     await super.connect();
 
     if (this.#isPerfectForwardSecrecyEnabled) {
-      this.#isAuthKeyBound = false;
       await this.#bindTemporaryAuthKey();
       this.#refreshTemporaryAuthKey();
     } else {
@@ -345,6 +347,12 @@ export class ClientEncrypted extends ClientAbstract {
   }
 
   async invoke<T extends Api.AnyFunction | Mtproto.ping, R = T extends Mtproto.ping ? Mtproto.pong : T extends Api.AnyGenericFunction<infer X> ? Api.ReturnType<X> : T["_"] extends keyof Api.Functions ? Api.ReturnType<T> extends never ? Api.ReturnType<Api.Functions[T["_"]]> : never : never>(function_: T): Promise<R> {
+    if (this.#isPerfectForwardSecrecyEnabled && function_._ !== "auth.bindTempAuthKey") {
+      await this.#connectPromise;
+      if (!this.#isAuthKeyBound && !this.isDisconnected) {
+        await this.connect();
+      }
+    }
     const sentRequest: SentRequest = { call: function_, promiseWithResolvers: Promise.withResolvers() };
     await this.#send(function_, (messageId) => {
       this.#L.debug("sending", function_._, "with msg_id", messageId);
-- 
2.43.0


From 5323475b58b5c05bdb276e8ecbba72a24b7eda17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 21/22] fix: replace temporary auth keys before they expire

---
 client/2_client_encrypted.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index 5822251..408c247 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -192,7 +192,8 @@ export class ClientEncrypted extends ClientAbstract {
   #temporaryAuthKeyRefreshLoop = new AbortableLoop(async (_loop, signal) => {
     await delay(60 * SECOND, { signal });
     signal.throwIfAborted();
-    if (this.#temporaryAuthKeyExpiresAt - Date.now() > 5 * SECOND) {
+    // it must not expire before it is next checked
+    if (this.#temporaryAuthKeyExpiresAt - Date.now() > 65 * SECOND) {
       return;
     }
     this.#L.debug("reconnecting with a new temporary auth key");
-- 
2.43.0


From 3389671543819262017f51b84885048cfc8afe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:12 +0000
Subject: [PATCH 22/22] fix: let sessions be type-checked with bodies that
 depend on the message ID

---
 session/2_session_encrypted.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index c22d969..df7a21d 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -37,7 +37,7 @@ const COMPRESSION_THRESHOLD = 0.9;
 const LARGE_PACKET_SIZE = 16384;
 
 // a function if it depends on the ID of the message
-type MessageBody = Uint8Array<ArrayBuffer> | ((messageId: bigint) => Promise<Uint8Array<ArrayBuffer>>);
+type MessageBody = Uint8Array | ((messageId: bigint) => Promise<Uint8Array<ArrayBuffer>>);
 
 type PendingMessage = { body: MessageBody; onMessageId: (messageId: bigint) => () => void; promiseWithResolvers: PromiseWithResolvers<void> };
 
-- 
2.43.0

