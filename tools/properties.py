# Writes /verif/properties.jsonl (run with python3-vt).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","Values written to a TL message are read back identical",
  "A byte string or a 32-, 64- or 128-bit integer appended to a TL buffer after any earlier content is read back as exactly the value written. Byte strings occupy a multiple of four bytes, content written before stays intact, and reading resumes exactly behind the value.",
  ["inputs"],"all byte strings up to the 24-bit length limit, all integers in range of their width and signedness, all earlier contents",
  "The tests serialise a few fixed values from an empty buffer; lengths around the one- and four-byte headers, buffer growth at arbitrary fill levels and all sign boundaries need every input.",
  ["tl/1_tl_writer.ts","tl/1_tl_reader.ts"],[("buffer growth","tl/1_tl_writer.ts: #ensureCapacity"),("byte string layout","tl/1_tl_writer.ts: writeBytes, tl/1_tl_reader.ts: readBytes"),("integers","tl/1_tl_writer.ts: writeInt32, writeInt64, writeInt128")])
p("C02","Reading a TL message never leaves it and consumes exactly what it returns",
  "Reading from a TL message returns exactly the next encoded bytes or integer and consumes nothing else, whatever piece of a larger memory the message occupies. A read past the end of the message (a negative count included) is refused with a TL error instead of returning memory outside it or moving the position. Bytes that were read can be put back, and no more than those.",
  ["inputs"],"all messages, all positions in them, all requested counts, aligned or not within their memory",
  "Tests read well-formed messages; truncated and hostile lengths, and messages that are views into larger buffers, are unbounded families.",
  ["tl/1_tl_reader.ts"],[("bounds","tl/1_tl_reader.ts: read, readView, unread"),("integers","tl/1_tl_reader.ts: readInt24, readInt32, readInt64, readDouble, readInt128, readInt256"),("byte strings","tl/1_tl_reader.ts: readBytes")])
p("C03","Integers of any width survive their byte representation",
  "Encoding an integer into a given number of bytes is two's complement in the requested byte order, and decoding returns the same integer; decoding any bytes and encoding again returns the same bytes. Integers that do not fit the requested width are refused, and random integers always fit it.",
  ["inputs"],"all integers, 25 widths from 1 to 64 bytes, both byte orders, both signednesses",
  "Tests check a handful of numbers; carries, sign bits and range limits of every width are not reachable by samples.",
  ["utilities/0_int.ts"],[("encoding","utilities/0_int.ts: intToBytes"),("decoding","utilities/0_int.ts: intFromBytes"),("random integers","utilities/0_int.ts: getRandomInt")])
p("C04","Key-exchange arithmetic is exact",
  "The modular power, greatest common divisor and residue used by the key exchange equal their mathematical definitions for every operand. The factors found for a composite are proper, in ascending order, and multiply to it.",
  ["inputs"],"all non-negative operands of any size; moduli greater than one; for factors, every number from four on and every random choice, whenever an answer is given",
  "A few sample exponentiations cannot show that repeated squaring is right for every exponent bit pattern.",
  ["utilities/0_int.ts","utilities/1_math.ts"],[("modular power","utilities/0_int.ts: modExp"),("gcd","utilities/0_int.ts: gcd"),("residue","utilities/0_int.ts: mod"),("factors","utilities/1_math.ts: factorize")])
p("C05","Run-length coding is lossless",
  "Decoding the run-length encoding of a byte string gives back exactly that byte string. This includes runs of zeros longer than one counter can hold and zeros at either end.",
  ["inputs"],"all byte strings; verified for all strings of up to five bytes and for zero runs around every counter limit, executed beyond",
  "The tests encode two fixed strings.",
  ["utilities/0_rle.ts"],[("encode","utilities/0_rle.ts: rleEncode"),("decode","utilities/0_rle.ts: rleDecode")])
p("C06","File identifiers denote exactly the file they were made from",
  "Decoding a file identifier gives back the file's type, data centre, id, access hash, file reference, photo source or URL, all unchanged. The unique identifier of a file does not depend on access hashes, file references or the data centre, and different files of one class, as well as different sizes of one photo, have different unique identifiers.",
  ["inputs"],"all file types and photo sources, all ids and hashes, all file reference lengths, all URLs up to the 24-bit limit",
  "The tests decode a few recorded identifiers; each combination of source kind, reference length and integer range has its own encoding path.",
  ["types/_file_id.ts"],[("encoding","types/_file_id.ts: serializeFileId"),("decoding","types/_file_id.ts: deserializeFileId"),("identity","types/_file_id.ts: toUniqueFileId")])
p("C07","Chat identifiers and Telegram peers correspond one to one",
  "Converting a user, group, channel or secret-chat peer to a chat identifier and back gives the same peer kind and number for every number in the kind's range. Identifiers of different peers never coincide, and every form of a peer yields the same identifier.",
  ["inputs"],"all peer kinds and all ids within the documented ranges",
  "Tests convert a few fixed ids; overlapping ranges between kinds only show at the range borders.",
  ["tl/2_telegram.ts"],[("peer to chat id","tl/2_telegram.ts: peerToChatId"),("chat id to peer","tl/2_telegram.ts: chatIdToPeer, chatIdToPeerId, getChatIdPeerType")])
p("C08","Every data centre maps to its own id and address",
  "A data centre name and its numeric id determine each other, test and production centres have different ids, and every centre has at least one address for every connection kind offered.",
  ["configurations"],"all data centre names",
  "No test enumerates the centres.",
  ["transport/1_transport_provider.ts"],[("ids","transport/1_transport_provider.ts: getDcId, getRawDcId, getDc"),("addresses","transport/1_transport_provider.ts: getDcIps")])
p("C09","Transport framing delivers each payload intact",
  "A payload sent through the abridged or intermediate transport is received unchanged whatever its length, the next payload follows without loss or leftovers, and a padded payload is followed by less than sixteen bytes of padding. The protocol is announced once with its own tag and each frame's header states the length of what follows.",
  ["inputs"],"all payloads up to the header limits (multiples of four for abridged), two in a row",
  "The tests frame short payloads; header switches at 127 words and multi-byte lengths need every length.",
  ["transport/1_transport_abridged.ts","transport/1_transport_intermediate.ts"],[("abridged frames","transport/1_transport_abridged.ts: send, receive"),("intermediate frames","transport/1_transport_intermediate.ts: send, receive")])
p("C10","Received bytes are consumed in order, exactly once",
  "The bytes of a connection are handed out in the order in which they arrived, each exactly once, however arrivals and reads are cut. The reported length is always what arrived and was not read, and a read of more than that is refused without losing anything.",
  ["histories","inputs"],"all sizes and cuts; three arrivals and reads of any sizes proved, histories of about a hundred steps enumerated or executed",
  "Tests push and read a few chunks; the housekeeping of consumed chunks only shows in long histories.",
  ["connection/0_byte_queue.ts"],[("queue","connection/0_byte_queue.ts: push, read, clear")],[("chunks","arrived chunks, the first one partly consumed","connection/0_byte_queue.ts: #chunks, #head, #headOffset")])
p("C11","Uploads are cut into parts without losing or reordering bytes",
  "Cutting a stream into parts keeps every byte in order; all parts but the last are full, parts are numbered consecutively, and only the last one announces the total and whether the file is small. Parts keep their bytes when the source later reuses its buffer.",
  ["inputs","histories"],"all part sizes, all chunk boundaries; up to three parts and two chunks proved, longer streams executed",
  "Tests cut a few streams; boundaries that coincide with part boundaries need every cut.",
  ["utilities/0_part_stream.ts"],[("cutting","utilities/0_part_stream.ts: PartStream")])
p("C12","Message identifiers strictly increase and sequence numbers count content",
  "The identifiers a session gives its messages strictly increase and are multiples of four, however the clock and the time correction move, and the upper half of the first one is the corrected time in seconds. Previewing an identifier never consumes one. The n-th content-related message gets sequence number 2n-1 and any other message twice the number of content-related messages before it, counting anew after a reset.",
  ["histories","inputs"],"all sequences of messages, previews and time corrections, every clock",
  "Tests take a few identifiers under one clock; a clock that jumps back or stands still between any two messages is out of their reach.",
  ["session/0_session_state.ts"],[("identifiers","session/0_session_state.ts: nextMessageId, previewNextMessageId"),("sequence numbers","session/0_session_state.ts: nextSeqNo")],[("last identifier","greatest identifier given so far","session/0_session_state.ts: #lastMsgId")])
p("C13","Protocol messages and containers come back from their encoding",
  "A protocol message, be it a body or a container of messages (containers within containers included), is read back with the identifiers, sequence numbers, bodies and order it was written with, and exactly its own bytes are consumed. The announced length is that of the body in bytes. A body is confined to its announced length, and a truncated message is refused.",
  ["inputs"],"all identifiers, sequence numbers and bodies; containers of up to two messages of any size, four small ones, one level of nesting",
  "Tests encode one message and one container; lengths and nesting at every size need all inputs.",
  ["tl/2_message.ts"],[("messages","tl/2_message.ts: writeMessage, deserializeMessage"),("containers","tl/2_message.ts: writeMsgContainer, deserializeMsgContainer")])
p("C14","The stream cipher does not depend on how the stream is cut",
  "Encrypting or decrypting a stream piece by piece gives the same bytes as in one piece, wherever the cuts fall and also when the calls are made without waiting for one another, and decrypting gives back what was encrypted. The counter advances by one for every sixteen bytes processed, as AES-CTR with a 128-bit big-endian counter prescribes. The caller's buffers are left unchanged.",
  ["inputs","schedules"],"all keys, initial vectors, byte strings and cuts, two calls under way at once",
  "Tests encrypt fixed buffers in one or two pieces; partial blocks at every offset and carries through the whole counter are not sampled.",
  ["utilities/1_crypto.ts"],[("cipher","utilities/1_crypto.ts: CTR")],[("state","position within the block and counter","utilities/1_crypto.ts: CTR._state")])
p("C15","Session packets are sealed for the server and only the server's are delivered",
  "What a session sends opens, under the server's half of MTProto 2.0, to the session's salt, its identifier, the announced message identifier, sequence number and length, the unchanged body, and twelve to 1024 bytes of padding up to a multiple of sixteen, under the identifier of the authorization key and the matching message key. A packet the server sealed for the session is delivered once and unchanged. A packet with a wrong message key, one sealed for another session, or one sealed in the other direction is not delivered and does not disturb what follows.",
  ["inputs"],"all authorization keys, salts, bodies, paddings and packets, with SHA and AES as ideal functions",
  "Tests cannot sample keys and forgeries; a check that covers only part of the message key, or a wrong slice of the key, passes any self-made round trip.",
  ["session/2_session_encrypted.ts"],[("sealing","session/2_session_encrypted.ts: #encryptMessage"),("opening","session/2_session_encrypted.ts: #decryptMessage"),("delivery","session/2_session_encrypted.ts: #receiveLoopBody, #onMessage")])
p("C16","TL objects come back from their encoding as they went in",
  "An object of a schema, with any fields (integers, byte strings, text, doubles, booleans, vectors, nested objects) and any combination of optional fields, is read back equal, whichever way its type is named to the reader, and exactly its own bytes are consumed. Fields are encoded in the order of their declaration and the flags announce exactly the optional fields that are present. A missing required field, a value of another type or range, an unknown or unexpected constructor, and an encoding of another kind are refused with a TL error.",
  ["inputs"],"all field values and flag combinations over a family of constructors with every kind of field; every constructor of the real schemas executed",
  "Tests encode a handful of objects; combinations of flags, field kinds and nesting are not sampled.",
  ["tl/1_tl_writer.ts","tl/1_tl_reader.ts","tl/0_utilities.ts"],[("writing","tl/1_tl_writer.ts: writeObject"),("reading","tl/1_tl_reader.ts: readType"),("flags","tl/0_utilities.ts: analyzeOptionalParam")])
p("C17","The schemas are those of the protocol",
  "In each of the three schemas the identifier of a constructor is the CRC-32 of its declaration (apart from the few the protocol fixes otherwise), no identifier is used twice, and the table of identifiers leads back to exactly the constructors. Every type a field mentions exists, and the flags of an optional field precede it and have its bit. Constructors precede functions and each of them is known by its identifier.",
  ["inputs"],"all constructors of the MTProto, Telegram and secret-chat schemas",
  "The existing tests use a few constructors; an altered field or identifier among thousands still encodes and decodes with itself.",
  ["tl/1_telegram_api.ts","tl/1_mtproto_api.ts","tl/1_secret_chats_api.ts"],[("definitions","tl/1_telegram_api.ts: schema"),("secret chats","tl/1_secret_chats_api.ts: schema")])
p("C18","An obfuscated connection is set up and used as the server derives it",
  "The header of an obfuscated connection takes 64 bytes, is not mistaken for the start of another protocol, and decrypts with the keys derived from it (mixed with the secret, if any) to the tag of the framing and the data centre that was asked for. Everything sent afterwards decrypts at the server, under those keys, to the framed payloads in order. What the server encrypts with the keys of the reversed header is received as the payloads it framed.",
  ["inputs"],"all random headers, secrets, data centres and payloads, for the three framings, with SHA-256 and AES-CTR as ideal functions",
  "There are no tests of the handshake, and a retry condition or a derived slice that is wrong shows only for rare random headers or with a real server.",
  ["transport/0_obfuscation.ts","transport/0_transport.ts","transport/1_transport_intermediate.ts","transport/1_transport_abridged.ts"],[("handshake","transport/0_obfuscation.ts: getObfuscationParameters"),("use","transport/0_transport.ts: encrypt, decrypt")])
p("C19","Every numbered update is delivered exactly once and in order",
  "Updates the server numbers (per account, per queue, per channel, per container) reach the update handler exactly once and in the order of their numbers, whatever updates are lost, repeated or reordered on the way: an update already covered by the client's state is not delivered, the next one is delivered and advances the state by exactly its count, and one beyond the next makes the client fetch and deliver what is missing from exactly its own state. With guaranteed delivery, at every point between two writes an update that the saved state covers is either handled or still kept in the store, and what is kept is delivered on the next start. The counters of other sequences are left alone.",
  ["inputs","histories","crash_points"],"every local state and update number (one-step contracts), and all orders of loss, repetition and reordering of up to three updates, over a storage and a server written from the protocol description",
  "The update logic has no tests; a wrong comparison or order of two writes duplicates or loses updates only for particular interleavings of gaps and restarts.",
  ["client/2_update_manager.ts","utilities/2_queue.ts","utilities/0_mutex.ts"],[("counters","client/2_update_manager.ts: processPtsUpdateInner, processQtsUpdateInner, processChannelPtsUpdateInner, processUpdates"),("recovery","client/2_update_manager.ts: recoverUpdateGap, recoverChannelUpdateGapInner"),("storage","client/2_update_manager.ts: handleStoredUpdates, replayStoredUpdates")])
p("C20","Every request is settled exactly once, by its own reply",
  "A request resolves to the value of the reply that names it, or is rejected with the code and message of the error that names it, and no reply, repeated reply or error settles another request. A message the server rejects (bad salt, bad identifier, rejected container, missing introduction) is sent again unchanged under a new identifier with the state the server asked for, and its request stays pending until answered; what the server sends is acknowledged exactly once, again if the acknowledgement was rejected. When the client is disconnected or the connection is lost, every unanswered request is rejected, and requests made after connecting again are answered.",
  ["inputs","histories"],"all reply values, error codes and salts, over one or two outstanding requests, both orders of replies, containers or not, every rejection code, disconnection and loss of the connection, and any number of failed sends",
  "No test runs a session against a server; lost or doubly settled requests show only for particular orders of rejections, containers and reconnections.",
  ["session/2_session_encrypted.ts","client/2_client_encrypted.ts","session/1_session.ts","client/0_abortable_loop.ts"],[("requests","client/2_client_encrypted.ts: invoke, onRpcResult, onRpcError, onMessageFailed, resend"),("messages","session/2_session_encrypted.ts: sendLoopBody, onMessageFailed, rejectAllPending, onBadServerSalt, onBadMsgNotification"),("acknowledgements","session/2_session_encrypted.ts: toAcknowledge, pendingAcks")])
p("C21","A store gives back what was put, in the order of its keys",
  "A value stored under a key is returned unchanged until it is replaced or deleted, no other key is affected, counters add up, and the branches of a store do not see each other's entries. Listing by prefix or by an inclusive range returns exactly the matching entries with their values, in ascending order of their keys or in descending order if asked, and at most as many as asked for. Values and keys survive the forms in which the stores keep them, and different keys stay different.",
  ["inputs","histories"],"all integers, big integers, texts, dates and byte strings as values and key parts (memory, text form); the listed keys, filters and missing entries over stand-ins of web storage, Deno KV and IndexedDB",
  "Tests round-trip a few values; negative numbers, keys that share a beginning, entries of other stores and limits in reverse order are not sampled.",
  ["storage/1_utilities.ts","storage/2_storage_memory.ts","storage/2_storage_local_storage.ts","storage/2_storage_session_storage.ts","storage/1_storage_deno_kv.ts","storage/2_storage_indexed_db.ts"],[("text form","storage/1_utilities.ts: toString, fromString"),("keys","storage/1_utilities.ts: compareKeys, isInRange, fixKey, restoreKey, getPrefixKeyRange"),("listing","storage/2_storage_memory.ts: getMany; storage/2_storage_local_storage.ts: getMany")])
p("C22","What the client remembers is read back at once and survives a commit",
  "A value the client has set (a peer, a user name, a channel's position, the account) is what every later read gives, also when a read of the stored one was under way, and the next start finds it once a commit made after it has succeeded. A commit that fails loses nothing: reads are unaffected and the next commit saves everything it did not, in its newest form. Stored updates come back in the order they came, messages, objects and file parts under their own key and whole, and a reset leaves nothing behind, in memory or in storage.",
  ["schedules","fault_sequences","inputs"],"all keys and values; a set before, during or after a storage read; a failure of any write of a commit; changes before, during and after it; all clock readings, clocks set back included",
  "Tests use storages that answer at once and never fail; the interleavings of reads, sets and commits, failing writes and clock changes are unbounded.",
  ["client/0_storage_operations.ts"],[("remembered values","client/0_storage_operations.ts: StorageMap, StorageValue, StorageAuth"),("commit","client/0_storage_operations.ts: StorageOperations.commit, StorageMap.commit, StorageValue.commit"),("update queue","client/0_storage_operations.ts: setUpdate, getFirstUpdate, #getUpdateId"),("keys","client/0_storage_operations.ts: K")])
p("C23","A file that is uploaded or downloaded arrives whole, in order and once",
  "The parts the server has accepted for an uploaded buffer or stream are exactly the file, each once, at its place, of the announced number and kind (small or big), and, when encrypted, decrypt with the given key and vector to the file; an upload is over only when all are accepted, parts that fail are sent again and a cancelled upload sends nothing more. A download gives exactly the bytes of the file from the requested offset, in order, whatever the order of the answers, and fails rather than give a part of it when cancelled. A later download of the same file from the local cache gives the same bytes, from any offset.",
  ["inputs","schedules","fault_sequences"],"all contents, lengths, part sizes, offsets and encryption keys within the listed numbers of parts; answers oldest first, newest first and interleaved between readers; failing and refused requests, cancellation at every step",
  "Tests cover one cached read and the validation of a part size; boundaries of part and file sizes, the order of concurrent answers, retries and cancellation are unbounded families.",
  ["client/2_file_manager.ts","utilities/0_part_stream.ts"],[("upload of buffers","client/2_file_manager.ts: upload, #uploadBuffer, #uploadPart"),("upload of streams","client/2_file_manager.ts: #uploadStream"),("download","client/2_file_manager.ts: downloadInner, #downloadPart"),("retries","client/2_file_manager.ts: #handleError"),("sizes","client/2_file_manager.ts: validateChunkSize, validateOffset")])
p("C24","Queued tasks run one at a time, in order, each exactly once",
  "A queue starts its tasks in the order they were added, each exactly once and never before the one in front of it is over, whether that one succeeds, fails, takes time or adds further tasks, and a queue never stops while a task waits. A mutex has at most one holder, passes to whoever asked first, and is free again once everyone has let go. A queue that waits does not hold up another.",
  ["schedules","histories"],"three tasks of seven behaviours (and the tasks they add) with every pause between them; three holders of four behaviours; longer random histories on the running code",
  "The order of updates, of commits and of encrypted packets rests on these two classes, which have no tests of their own.",
  ["utilities/2_queue.ts","utilities/0_mutex.ts"],[("queue","utilities/2_queue.ts: add, #check"),("mutex","utilities/0_mutex.ts: lock")])
p("C25","Each update passes through the middleware in order, as far as next is called",
  "A middleware runs at most once per update, in the order of registration, and exactly when every middleware before it has called next; awaiting next waits for all that follow, and an error reaches the middleware that awaits it and otherwise the caller. A branch takes the side its predicate says for that update, a filter lets through to its own middleware exactly the updates its condition describes, and updates not matching go on to what follows. Every middleware sees the update itself and the account it was received for, which is not fetched again once known.",
  ["programs","schedules","inputs"],"trees of middleware of the listed shapes with every behaviour (pass on, pass on twice, stop, fail, wait) at each place; filter queries of the listed kinds over all texts",
  "Tests check one chain and a few commands; orders of nested composers, repeated next calls and failures form an unbounded family.",
  ["client/5_composer.ts","client/4_context.ts","client/3_filters.ts"],[("chain","client/5_composer.ts: concat, flatten, Composer.use"),("branches","client/5_composer.ts: branch, filter"),("conditions","client/3_filters.ts: createMatch, matchParsed; client/4_context.ts: staticHas"),("account","client/5_composer.ts: handleUpdate")])
p("C26","Secret messages are sealed for the other side only, and nothing else is accepted",
  "A message, setting or file key given for sending in a secret chat is what the other side reads when it opens the message with the key of the chat as the protocol describes (MTProto 2.0: key identifier, message key over the padded text, key and vector by direction, padding of 12 to 1024 bytes), and what the other side made is delivered as it was. A message whose message key is not that of its text, that was made for the other direction or under another key, that is not whole, or that lacks its padding is refused. What is refused is not delivered and changes neither the counts nor the chat.",
  ["inputs"],"both sides of a chat, all keys, texts, settings, counts and incoming bytes; ideal digests and ciphers",
  "Tests do not cover secret chats at all; keys, texts and forged messages are unbounded.",
  ["client/3_secret_chat_manager.ts"],[("sealing","client/3_secret_chat_manager.ts: #encryptMessage"),("opening","client/3_secret_chat_manager.ts: #decryptMessage"),("sending","client/3_secret_chat_manager.ts: sendSecretMessage, #sendMessageUnlocked"),("files","client/3_secret_chat_manager.ts: sendSecretDocument and others")])
p("C27","Secret messages are delivered once, in order, across gaps, restarts and crashes",
  "Messages of the other side are delivered exactly once and in the order they were written, whatever the order they arrive in, what is repeated and when the program restarts; what is missing is asked for, and impossible numbers or a count that goes back end the chat. Messages written here carry consecutive numbers in the order they were written even when some fail, a number is stored before it is used and not used again after a crash, and each can be sent again as it was when the other side asks. A request for messages that were never sent ends the chat.",
  ["schedules","crash_points","histories"],"three messages in every order with repeats, restart after each; all numbers in the listed ranges; failures and crashes at each message",
  "Tests do not cover secret chats at all; arrival orders, restarts and crash points multiply.",
  ["client/3_secret_chat_manager.ts","client/0_secret_chat_state.ts"],[("gaps","client/3_secret_chat_manager.ts: #checkGap"),("resending","client/3_secret_chat_manager.ts: #resendMessages"),("numbering","client/3_secret_chat_manager.ts: #sendMessageInner, #sendMessageUnlocked, #getNextOutSeqNo"),("state","client/0_secret_chat_state.ts: commit, load")])
p("C28","Both sides of a secret chat have the same checked key, also while it is replaced",
  "Requesting and accepting a secret chat gives both sides the same 256-byte key, the one that follows from the exchanged numbers, with its fingerprint checked; an unchecked group, a number that is not a good one or a fingerprint that does not match is refused, and the chat is ended and cannot be used. A key that was used more than a hundred times or for a week is replaced, and while it is, everything either side says is read by the other once and in order, whichever side asks, both at once, with slow sends, overtaking messages, failing or lost sends and restarts. In the end both have the same new key, keep nothing of the old one, and the exchange stops.",
  ["schedules","crash_points","fault_sequences"],"the listed interleavings of one exchange between two real managers, with the real arithmetic and digests on small exponents",
  "Tests do not cover secret chats at all; the interleavings of two peers with failures, restarts and slow sends cannot be sampled.",
  ["client/3_secret_chat_manager.ts","client/0_secret_chat_state.ts","client/0_password.ts"],[("agreement","client/3_secret_chat_manager.ts: requestSecretChat, acceptSecretChat, handleUpdate"),("checks","client/3_secret_chat_manager.ts: #checkDhConfig; client/0_password.ts: isSafePrime, isGoodModExpFirst"),("replacement","client/3_secret_chat_manager.ts: #startRekey, #processDecryptedMessageActionRequestKey, #processDecryptedMessageActionAcceptKey, #processDecryptedMessageActionCommitKey, #installNewKey, #clearPreviousKey")])
p("C29","An auth key comes only of an exchange with a server that has a known key",
  "Creating an authorization key, permanent or temporary, for any data center, ends with the 256-byte key and the first salt that the server computes too, having sent it correct factors, nonces, digests and numbers in the safe range, encrypted to a known public key. Answers with another nonce, parameters whose digest, nonces, group or number are not good, a confirmation that does not prove the server has the key, and a server without a known public key are refused, and nothing more is sent to such a server. A first answer meant for somebody else is ignored and the request repeated.",
  ["inputs","fault_sequences"],"every changed byte of the nonces and of the proof with any value; the listed groups, numbers, paddings, data centers and key sets, with the real arithmetic and digests",
  "Tests need a network for it; what an attacker on the line can change is every byte of every answer.",
  ["client/1_client_plain.ts","utilities/1_auth.ts","client/0_password.ts","session/2_session_plain.ts"],[("exchange","client/1_client_plain.ts: createAuthKey"),("encryption to the server","utilities/1_auth.ts: rsaPad"),("group and range","client/0_password.ts: isSafePrime, isGoodModExpFirst"),("plain messages","session/2_session_plain.ts: send, receive")])
p("C30","The proof of a password is accepted exactly when the password is right",
  "The answer to a password question carries a number in the safe range and a proof that a server holding only the verifier of the account's password computes too, for any text and salts of the password, also when numbers are short; with another password the proof is not the server's. Nothing is computed for an unknown algorithm, a group other than the known one, or a number of the server that is missing, zero or outside the group.",
  ["inputs"],"the listed passwords, salts, generators and numbers, with the real arithmetic and digests",
  "The repository's test has one example of it; the groups and numbers a hostile server can choose are not tried.",
  ["client/0_password.ts"],[("proof","client/0_password.ts: checkPassword, ph1, ph2, pbkdf2, pad"),("group","client/0_password.ts: isSafePrime, isGoodModExpFirst")])
p("C31","A request is answered by the data center it is for, as the account",
  "Every request is answered once, by the data center and over the kind of connection it is for, with the key of the account or one made and authorized for that data center once, and used again later and by the next program. A request that fails with a lost connection or an unregistered key elsewhere is repeated; a short wait asked for by the server is kept; any other failure is decided by the error handlers of this very client, in their order, or else reported, and nothing is repeated.",
  ["inputs","schedules","fault_sequences"],"requests one after another and at once, failures once and twice, chains of two handlers, waits, and a second program on the same storage",
  "The repository has no test of it: the client needs a server.",
  ["client/6_client.ts","client/1_invoke_middleware.ts","client/0_storage_operations.ts"],[("routing","client/6_client.ts: #getClient, #setupClient, #importAuthorization"),("failures","client/6_client.ts: #invoke, invoke.use; client/1_invoke_middleware.ts: skipInvoke")])
p("C32","Who signs in is that account, later and elsewhere; who signs out is nobody",
  "After a sign-in by code, password, registration or bot token, with wrong answers on the way and whatever the account's data center, the client acts as that account over its key, and so does the next program and any client that takes the exported auth string; with a refused answer nobody is signed in, and errors are reported without asking again. After signing out nothing of the account is kept, also when the server fails, and somebody else can sign in.",
  ["inputs","histories","fault_sequences"],"accounts in two data centers, with and without password and name, with each answer wrong once or not at all; every auth string",
  "The repository has no test of it: the client needs a server.",
  ["client/6_client.ts","client/3_account_manager.ts","client/2_sign_in.ts","client/0_storage_operations.ts"],[("sign-in","client/2_sign_in.ts: signIn; client/3_account_manager.ts: sendCode, checkCode, signUp, checkPassword, checkBotToken; client/6_client.ts: handleMigrationError"),("sign-out","client/6_client.ts: signOut, #resetStorages; client/0_storage_operations.ts: reset"),("auth string","client/0_storage_operations.ts: exportAuthString, importAuthString, getAccountId")])
p("C33","With forward secrecy, requests travel over bound temporary keys only",
  "With perfect forward secrecy, connecting makes a temporary key and binds it to the account's key by a message that the server accepts, also when the clock ticks or is wrong, when the salt is old, or when making the key fails a few times. Every other request is sent over a key that is bound and has not expired, introducing the client first, and waits while a key is being bound; nothing is sealed with the account's key itself. A key that the server has lost, or does not know as bound, or that is about to expire is replaced by another one, and the client goes on.",
  ["inputs","schedules","histories","fault_sequences"],"every permanent key, clock and random number for the message; a clock tick at any moment, the listed refusals and losses, and every phase of the refresh for the rest",
  "No test connects with a temporary key: it needs a server that checks the binding, and a day.",
  ["client/2_client_encrypted.ts","session/2_session_encrypted.ts"],[("binding","client/2_client_encrypted.ts: #bindTemporaryAuthKey, #serializeBindTempAuthKey, #encryptMessage"),("replacement","client/2_client_encrypted.ts: #temporaryAuthKeyRefreshLoop, #reconnect, #onTransportError, #onRpcError"),("order","client/2_client_encrypted.ts: #connect, invoke, #onRpcResult")])
#MORE
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,S)
    assert x["statement"].count('. ')<=2, x['id']
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
