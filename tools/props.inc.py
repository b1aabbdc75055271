# ---------------------------------------------------------------- messages
P('M01', 'Delivered messages decrypt to exactly what was sent',
  'For two users holding each other\'s published keys, every message encrypted for a user, of any content up to the maximum size, signed or not, decrypts at that user to exactly the original content, and reports the true sender identity, the enclosed reply address and the signature that was made. This holds at every step of any conversation in which both sides send in any interleaving and each side receives the other\'s messages in the order they were sent, however long one side keeps sending, whether the two sides start simultaneously or not, and whether session state lives in memory or in the key database that is closed and reopened.',
  ['histories', 'inputs'],
  'all contents (length 0..max, arbitrary bytes), all interleavings of send/receive of two or more parties with in-order delivery per direction, all placements of store reopen',
  'msg tests do not even compile in the baseline and only replay a handful of fixed conversations with an in-memory store; the database-backed store is never driven by a conversation.',
  ['msg/encrypt.go', 'msg/decrypt.go', 'msg/session.go', 'msg/keys.go', 'keydb/session.go', 'cryptengine/keystore.go'],
  [('double ratchet / session creation', 'msg/encrypt.go, msg/decrypt.go'), ('message key derivation', 'msg/keys.go'), ('key storage', 'keydb/session.go')],
  [('session state', 'ratchet counters and ephemeral keys per peer', 'msg/session'), ('message keys', 'pre-derived keys per session', 'keydb MessageKeys table')],
  ['msg.Encrypt', 'msg.Decrypt'])
P('M02', 'Altered, replayed or misdirected messages are never accepted',
  'Decrypting anything other than a genuine, not yet received message for this recipient returns an error without crashing: a message with any bit changed, truncated, extended, spliced from two messages, replayed, or addressed to someone else is never accepted with a content, sender or signature different from what its sender produced, and the sender reported is the identity of the enclosed self-signed user ID whose key authenticated the message. A rejected message leaves the recipient able to decrypt the genuine ones.',
  ['inputs', 'histories'],
  'all single and multiple byte mutations, truncations, extensions and splices of genuine ciphertexts at any point of a conversation; all replays; all wrong recipients',
  'Existing tests cover no mutation of an encrypted message; the failure behaviour is quantified over every byte position and every mutation.',
  ['msg/decrypt.go', 'msg/header.go', 'msg/preheader.go', 'msg/outer.go', 'msg/inner.go'],
  [('HMAC over the whole message', 'msg/decrypt.go'), ('header box', 'msg/header.go'), ('inner signature', 'msg/decrypt.go')],
  observe=['msg.Decrypt'])
P('M03', 'Encrypted messages have one size and never repeat',
  'Every encrypted message has the same length whatever its content, sender, recipient, signature, or position in the conversation, and content beyond the maximum is refused with an error. Encrypting twice, even the same content, never yields related ciphertext: no two encrypted messages share visible bytes beyond the fixed version, ciphersuite and packet framing, and a failing random source yields an error instead of a message.',
  ['inputs', 'histories'],
  'all contents, identities, signature settings and conversation positions',
  'The fixed-size guarantee is a claim about every content and header combination; tests check one or two sizes.',
  ['msg/encrypt.go', 'msg/padding/padding.go', 'msg/header.go', 'msg/preheader.go'],
  [('padding packets', 'msg/encrypt.go'), ('header padding', 'msg/header.go'), ('fresh randomness per message', 'cipher/rand.go')],
  observe=['msg.Encrypt output'])
P('M04', 'Received messages cannot be decrypted again from later state',
  'Once a message has been decrypted, decrypting it again with the recipient\'s remaining key state fails, at that time and at every later point of the conversation, the message key is gone from the stored state of the recipient, and the session keys it replaced are removed. Every message in a history is protected by its own key, never used for another message.',
  ['histories'],
  'all conversation histories; every earlier ciphertext against every later state',
  'Forward secrecy is a statement about all past ciphertexts against all later states; no test keeps both.',
  ['msg/decrypt.go', 'msg/session.go', 'keydb/session.go'],
  [('message key deletion after use', 'msg/decrypt.go, keydb/session.go'), ('ratchet', 'msg/encrypt.go, msg/decrypt.go')],
  observe=['msg.Decrypt on recorded ciphertexts', 'key store contents'])
P('M05', 'Conversations renew their session keys and reply addresses',
  'After any history of a conversation of two users (any interleaving of messages sent and received in order, started by one side or by both at once), when all messages arrive and the two sides then keep answering each other, the session keys are renewed: once both offer new session keys, no side sends under the session key it used two of its turns before, and neither delivers to a reply address older than that. A renewal announced by both sides at once does not get stuck, and messages keep decrypting throughout.',
  ['histories'],
  'all histories of sends and in-order receives before the exchange, all lengths of turns during it, memory and database stores',
  'Renewal is a liveness property of two state machines over all interleavings, including both sides announcing at once; a test replays one order.',
  ['msg/decrypt.go', 'msg/encrypt.go', 'msg/session.go', 'keydb/sessionstate.go'],
  [('session refresh', 'msg/decrypt.go'), ('random start of a new session', 'msg/encrypt.go')],
  observe=['session keys and reply addresses in the headers of msg.Encrypt output'])
# ---------------------------------------------------------------- uid
P('U01', 'User ID messages verify iff unmodified and signed by the right key',
  'A freshly created user ID message, and every update made from it with the previous key, passes verification and survives JSON encoding unchanged. Any change to its signed content, any signature by another key, and any update not signed by the predecessor\'s key or not directly following it, is rejected by verification.',
  ['inputs', 'histories'],
  'all identities, key material, update chains, and all mutations of any field of the JSON form',
  'Unit tests check one valid UID and a couple of hand-broken ones; the claim covers every field and every mutation.',
  ['uid/uid.go'],
  [('self, user and escrow signatures over canonical JSON', 'uid/uid.go'), ('structural checks', 'uid/uid.go')],
  observe=['uid.Create', 'Message.Check', 'Message.VerifySelfSig', 'Message.VerifyUserSig', 'Message.Update'])
P('U02', 'Key-init messages are accepted only when genuine, current and unmodified',
  'A key-init message created with a user ID key verifies with exactly that key, for a known domain and until its expiry, and yields to the holder of the sender UID exactly the session anchor and key entry that were put in. Any change of its content, another signing key, an unknown domain, an expired or empty validity period makes verification or extraction fail with an error, without crashing, and creating one that is expired, has an empty validity period or lies more than 90 days ahead is refused.',
  ['inputs'],
  'all validity windows and clock positions around the boundaries, fallback flags, domains, and all field mutations',
  'Tests create one key-init message; the acceptance predicate ranges over times, domains, keys and every mutated field.',
  ['uid/keyinit.go', 'uid/keyentry.go', 'cryptengine/keyinit.go'],
  [('signature and sign-nonce checks', 'uid/keyinit.go'), ('session anchor hash and encryption', 'uid/keyinit.go')],
  observe=['uid.KeyInit', 'KeyInit.Verify', 'KeyInit.SessionAnchor', 'KeyInit.KeyEntryECDHE25519'])
P('U03', 'Key server replies bind index, identity and user ID together',
  'A key server reply for an identity is decrypted only under that identity\'s chain index and returns exactly the user ID message and the index it was created with. Its server signature is accepted only for the exact entry, index, user ID message and server key it was made for; any altered or exchanged part is rejected with an error and never a crash.',
  ['inputs'],
  'all user IDs, hash chain positions, and all mutations or exchanges of parts of the reply',
  'Tests round-trip one reply; the rejection side quantifies over every part and mutation.',
  ['uid/uid.go', 'keyserver/hashchain/hashchain.go'],
  [('index encryption and UID hash', 'uid/uid.go'), ('server signature', 'uid/uid.go')],
  observe=['Message.Encrypt', 'MessageReply.Decrypt', 'MessageReply.VerifySrvSig'])
P('U04', 'Identity mapping is a canonical form',
  'Mapping any string either fails or yields a canonical identity: exactly one @ between a local part of the allowed form and a lower-case domain, within the length limits, and unchanged by mapping it again. An identity is reported as mapped exactly when mapping leaves it unchanged, and identities differing only in case, spaces around the local part, or the look-alike characters 0/o, 1/l and j/i of the local part map to the same result while no two different canonical identities do.',
  ['inputs'],
  'all Unicode strings, biased to near-valid identities, case and look-alike variants and length boundaries',
  'A table of examples cannot show idempotence, agreement of Map with IsMapped, or collision behaviour over all strings.',
  ['uid/identity/identity.go'],
  [('mapping and character table', 'uid/identity/identity.go')],
  observe=['identity.Map', 'identity.MapPlus', 'identity.IsMapped', 'identity.Split'])
# ---------------------------------------------------------------- key server client
P('H01', 'The local key hash chain only grows by server entries; breaks are detected',
  'Synchronising with a key server appends exactly the entries the server added after those already stored, in order and at their positions; entries once stored never change, and other domains are not affected. A reply that is malformed or incomplete in any way (missing or wrongly typed parts, too few entries, entries that do not start right after the stored ones), or a failure to store entries, is reported as an error, without a crash and without changing, skipping or repeating any position. Validation succeeds exactly when every stored entry is well-formed and correctly linked from the first one on and the entries recorded for own user IDs are in the chain.',
  ['histories', 'inputs', 'fault_sequences'],
  'all honest and malicious reply sequences (tampered, rewritten, reordered, short, long, wrong types) over repeated syncs of several domains, and storage failures at any entry',
  'There is no test of the client side hash chain at all; the guarantee is about every possible server behaviour.',
  ['cryptengine/hashchain.go', 'keyserver/hashchain/hashchain.go', 'keydb/keydb.go'],
  [('reply parsing and appending', 'cryptengine/hashchain.go syncHashChain'), ('hash link check', 'cryptengine/hashchain.go validateHashChain'), ('entry splitting', 'keyserver/hashchain/hashchain.go')],
  [('chain copy', 'entries by domain and position', 'keydb Hashchains table')],
  observe=['cryptengine hashchain sync/validate/show/delete', 'keydb hash chain'])
P('H02', 'Key lookup accepts only chain-backed, server-signed keys of that identity',
  'Looking up or searching an identity stores and reports a user ID message only if the stored hash chain contains a matching entry, the server reply decrypts under that entry, the contained user ID is for exactly that identity and correctly self-signed, and the reply carries the signature of the newest key server key known for that position (the first user ID of the key server itself is exempt from the latter); otherwise it reports an error and stores nothing for that entry. With an honest server all versions are stored and the one found is the latest. A fetched key-init message is stored only if it is genuine and valid for the newest user ID of that identity.',
  ['inputs', 'fault_sequences', 'histories'],
  'all chains with any number of matching and non-matching entries and key changes of the server, and all tampered, exchanged or malformed server replies',
  'The lookup path has no tests; it must hold for every reply a malicious server can construct.',
  ['cryptengine/hashchain.go', 'cryptengine/keyinit.go', 'uid/uid.go', 'keydb/keydb.go'],
  [('entry matching by identity hash', 'cryptengine/hashchain.go searchHashChain, lookupHashChain'), ('reply verification', 'cryptengine/hashchain.go verifyServerSig, uid/uid.go VerifySrvSig'), ('key-init verification', 'uid/keyinit.go Verify')],
  [('known public user IDs', 'by identity and chain position', 'keydb PublicUIDs table'), ('known key-init messages', 'by signature key hash', 'keydb PublicKeyInits table')],
  observe=['cryptengine hashchain search/lookup', 'cryptengine keyinit fetch'])
# ---------------------------------------------------------------- storage
P('D01', 'An encrypted database opens only with its current passphrase and keeps data',
  'After any history of create, write, close, reopen and rekey, opening with the current passphrase succeeds and shows exactly the data written, and opening with any other passphrase, including every earlier one, or with a damaged key file fails with an error and changes nothing. Creating never overwrites an existing database, and a rekey that fails, at whatever point, leaves the database usable with the old or the new passphrase.',
  ['histories', 'fault_sequences', 'inputs'],
  'all operation histories, passphrases (arbitrary bytes) and iteration counts; write failures at every size boundary; all truncations and byte changes of the key file',
  'Tests run one create/open/rekey sequence with one passphrase pair and no faults.',
  ['encdb/encdb.go', 'encdb/keyfile.go'],
  [('key file encryption with derived key', 'encdb/keyfile.go'), ('atomic replacement of key file', 'encdb/encdb.go')],
  [('key file', 'database key encrypted under passphrase', '<db>.key'), ('database', 'sqlcipher file', '<db>.db')],
  ['encdb.Create', 'encdb.Open', 'encdb.Rekey'])
P('D02', 'Stored secrets never appear in clear on disk',
  'No file written by the key database, message database or their key files contains any stored message text, private key, identity, contact, passphrase or database key in clear, at any point of any history of operations. Two databases made with the same passphrase and content share no key material.',
  ['histories', 'inputs'],
  'all operation histories and contents; every file in the database directory after every step',
  'No test looks at the files; the claim is about every stored value and all files, including journals.',
  ['encdb/encdb.go', 'encdb/keyfile.go', 'keydb/keydb.go', 'msgdb/msgdb.go'],
  [('sqlcipher with random key', 'encdb/encdb.go'), ('key file encryption', 'encdb/keyfile.go')],
  observe=['files of the database directory'])
P('D03', 'The key database returns exactly what was stored, per key',
  'Under any sequence of additions, updates, deletions, queries and reopenings, the key database agrees with a simple map: each query returns the most recent value stored for exactly that identity, session, domain or key and nothing else, deletions affect only their target, and one-time message keys can be fetched until deleted and never after. Positions in the hash chain and message keys keep their order and index.',
  ['histories'],
  'all operation sequences over several identities, peers, sessions and domains, with reopening at any point',
  'Tests use one identity and one session at a time, so cross-talk between keys and long sessions is never seen.',
  ['keydb/keydb.go', 'keydb/session.go'],
  [('prepared SQL statements', 'keydb/keydb.go')],
  observe=['keydb exported methods'])
P('D04', 'Queued and stored messages are never lost, duplicated or reordered',
  'Under any sequence of message database operations, including reopening, an outgoing message is at each moment in exactly one of the states to-send, queued, or sent, and an incoming one in exactly one of queued as envelope, queued as message, or delivered; retracting returns it to to-send, resending keeps it queued, and removal marks it sent with the given time. Queues are worked first-in first-out per user, and each query reports exactly the messages a simple reference model predicts, with unchanged content and metadata.',
  ['histories', 'crash_points'],
  'all sequences of add, queue, envelope, resend, retract, remove, read and delete for several users, with close/reopen between any two steps',
  'msgdb tests do not compile in the baseline and walk a single message through one path.',
  ['msgdb/messages.go', 'msgdb/outqueue.go', 'msgdb/inqueue.go', 'msgdb/cache.go', 'msgdb/msgdb.go'],
  [('transactions moving messages between tables', 'msgdb/outqueue.go, msgdb/inqueue.go')],
  observe=['msgdb exported methods'])
P('D05', 'User IDs, contacts and accounts stay separate and are removed together',
  'Every message database operation on one user ID reads and changes only that user ID\'s contacts, accounts, cached message IDs, messages and settings, and agrees with a simple reference model for any operation history. Deleting a user ID removes everything belonging to it, including its queues, and nothing else, and list queries return exactly the entries of the requested kind.',
  ['histories'],
  'all operation sequences over several user IDs sharing contact names, with reopening',
  'Isolation is a claim over all pairs of users and operations; tests use one user.',
  ['msgdb/nyms.go', 'msgdb/contacts.go', 'msgdb/accounts.go', 'msgdb/cache.go', 'msgdb/keyvalue.go'],
  [('foreign keys with cascade', 'msgdb/msgdb.go'), ('queries by owner', 'msgdb/*.go')],
  observe=['msgdb exported methods'])
# ---------------------------------------------------------------- mix
P('X01', 'A message sent to a nym address reaches exactly its owner, unchanged',
  'For every address template and message, the mix that owns the address key can open a message sent to the resulting nym address, learns the intended mailbox and the delays the sender chose within the permitted range, and what it delivers is decrypted by the address owner to exactly the sent message and nym. Neither the sender-visible address nor the mail it produces contains the mailbox, nym or owner secret in clear.',
  ['inputs'],
  'all messages, secrets, nyms, mailboxes, delays, expiry times, single-use flags and mix key sets',
  'The mix tests do not compile in the baseline and use one fixed template.',
  ['mix/nymaddr/addr.go', 'mix/mixcrypt/clientmix.go', 'mix/mixcrypt/envelope.go', 'util/nymaddr.go'],
  [('nym address encryption', 'mix/nymaddr/addr.go'), ('mix header and body encryption', 'mix/mixcrypt')],
  observe=['nymaddr.NewAddress', 'mixcrypt.NewForwardMessage/NewRelayMessage', 'mixcrypt.ReceiveMessage', 'mixcrypt.Send', 'mixcrypt.ReceiveFromMix'])
P('X02', 'Mix messages and nym addresses cannot be altered, redirected or misused',
  'A mix never accepts, and never crashes on, a message or nym address that is truncated, made for another mix, expired, or altered so that the message, mailbox or delivery options it yields differ from those it was made with; an owner never accepts a delivery whose content was altered or that is meant for another nym, mailbox or secret. A message built for a nym address without that address\'s data is refused, and arbitrary bytes given to any of these entry points produce an error.',
  ['inputs'],
  'all byte mutations and truncations of messages, addresses and deliveries, all wrong keys and secrets, arbitrary inputs',
  'Rejection quantifies over all mutations; existing tests exercise the accepting path.',
  ['mix/nymaddr/addr.go', 'mix/mixcrypt/clientmix.go', 'mix/mixcrypt/envelope.go'],
  [('MACs and boxes on address, header, body', 'mix/nymaddr, mix/mixcrypt')],
  observe=['nymaddr.GetMixData', 'mixcrypt.ReceiveMessage', 'mixcrypt.ReceiveFromMix'])
P('X03', 'Mix address statements are authentic, current and consistent',
  'A statement of mix addresses verifies only with the signing key and content it was made with, and survives encoding unchanged. The key list behind it hands out private keys exactly for its unexpired public keys: after any history of additions and expiries, every advertised address has its private key available, expired keys are gone, and the addresses returned for use are valid and unexpired.',
  ['histories', 'inputs'],
  'all histories of adding and expiring keys, all expiry times around the current time, all mutations of an encoded statement',
  'The mixaddr tests do not compile in the baseline; the claim is over histories and mutations.',
  ['mix/mixaddr/privkey.go', 'mix/mixaddr/addrlist.go'],
  [('statement signature', 'mix/mixaddr'), ('expiry', 'mix/mixaddr')],
  observe=['mixaddr.New', 'KeyList.AddKey', 'KeyList.Expire', 'AddressList', 'AddressStatement.Verify'])
P('X04', 'Prepared mix envelopes keep their content and are classified correctly',
  'Every prepared outgoing envelope survives its text encoding unchanged, the mail built from it yields exactly the enclosed message and sender again when read back, and damaged input is refused with an error. When a CA certificate is given, mail is handed over only on a TLS connection it verifies. Delivery reports success exactly when the mail server accepted the whole message for the recipient, asks for a retry when the server or the connection to it failed temporarily, and otherwise fails finally.',
  ['inputs', 'fault_sequences'],
  'all envelopes, all mail texts, and all reply codes of the mail server at every step of the dialogue',
  'The delivery test needs the internet and is excluded; error classification ranges over all server replies at all steps.',
  ['mix/client/io.go', 'mix/client/send.go', 'mix/smtpclient/client.go'],
  [('marshalling', 'mix/client'), ('SMTP dialogue', 'mix/smtpclient/client.go')],
  observe=['client.MessageInput.Create', 'MessageOutput.Marshal/Unmarshal', 'client.WriteMail/ReadMail', 'smtpclient.MailClient.SendMail'])
P('X05', 'Mailbox account operations act on the right server, account and message',
  'Account registration, extension, status, listing, fetching and deletion talk to exactly the server the account lives on (the default server only when none is known), authenticate with the account key and a fresh counter, and return exactly what that server holds. A server that answers with an error, a replay notice or malformed data leads to a correct retry or an error, never to a crash or to silently missing messages.',
  ['inputs', 'fault_sequences'],
  'all account states and message lists, all sequences of server errors, replay replies and malformed replies',
  'Account code is only testable against a live server upstream; no test drives it.',
  ['mix/client/accountrpc.go', 'serviceguard/common/walletauth/walletauth.go'],
  [('authenticated JSON-RPC calls with replay retry', 'mix/client')],
  observe=['client.PayAccount', 'client.AccountStat', 'client.ListMessages', 'client.FetchMessage', 'client.DeleteAccount'])
# ---------------------------------------------------------------- service guard
P('S01', 'Only tokens signed by the issuer for this owner and usage are accepted',
  'A token obtained through the blind-signature exchange verifies under the issuer key and carries the owner and key it was requested for; the issuer never sees the token itself. No altered token, parameter, blinded message, signature or key, and no result for another request, is accepted, and malformed data is refused without a crash.',
  ['inputs'],
  'all owners, usages, key sets and all mutations of every message of the exchange',
  'Packages under serviceguard/client do not compile their tests in the baseline; the claim covers every mutation.',
  ['serviceguard/common/token/types.go', 'serviceguard/client/packetproto/methods.go', 'serviceguard/common/types/types.go'],
  [('blind signature', 'packetproto, jjm'), ('token hash and ownership', 'token')],
  observe=['packetproto requests', 'token.Marshal/Unmarshal', 'packets verification'])
P('S02', 'Token spending and reissue requests are bound to owner and content',
  'A reissue or spend request is accepted by verification exactly when it carries the unmodified token, parameters, blinded token and, for an owned token, a signature by its owner\'s key. Encoding and decoding any request or token is lossless and rejects malformed bytes with an error.',
  ['inputs'],
  'all packets, with and without owners, and all mutations of encoded requests',
  'Only one fixed packet is ever built by tests; binding concerns every field.',
  ['serviceguard/common/types/types.go', 'serviceguard/common/token/types.go'],
  [('owner signature over packet image', 'serviceguard/common/types')],
  observe=['types packets Marshal/Unmarshal/VerifySignature', 'token.Token'])
P('S03', 'The key pool only hands out genuine, current keys of the right usage',
  'A verification key enters the pool only if it is signed by a trusted signer, is inside its validity, and has the pool\'s usage; lookups return exactly the key stored under that ID and report unknown, expired or foreign keys as errors. Saving and reloading a pool preserves its keys, the current key is always one that is stored and has at least half of its configured life left, and concurrent lookups, loads and generation never corrupt the pool.',
  ['histories', 'schedules', 'inputs'],
  'all sequences of load, lookup, rotation, expiry, save and reload, all key mutations, and concurrent use',
  'Key pool tests do not compile in the baseline; expiry, usage and concurrency quantify over times and schedules.',
  ['serviceguard/common/keypool/generator.go', 'serviceguard/common/keypool/keydir/filestorage.go', 'serviceguard/common/keypool/keydb/dbstorage.go', 'serviceguard/common/signkeys/keys.go'],
  [('signature and expiry checks on load', 'keypool'), ('locks', 'keypool')],
  observe=['KeyPool.LoadPubKey', 'KeyPool.Lookup', 'KeyPool.Current', 'KeyPool.SaveKey', 'signkeys'])
P('S04', 'Authentication tokens are genuine, ordered and never accepted twice',
  'An authentication token is accepted exactly when it was made by the holder of the account key and its time and counter are newer than those last seen, and verification returns the key and counters it was made with. Altered, reordered, replayed or malformed tokens are refused without a crash, and a replay answer tells the client the values to continue from.',
  ['histories', 'inputs'],
  'all sequences of token creation and presentation, all times and counters up to the integer limits, all mutations',
  'Walletauth tests do not compile in the baseline; ordering is a property of histories.',
  ['serviceguard/common/walletauth/walletauth.go'],
  [('signature and counters', 'walletauth')],
  observe=['walletauth.CreateToken', 'walletauth.AuthToken', 'walletauth.IsReplay'])
P('S05', 'Wallet tokens are never lost, shared or spent while locked',
  'Under any history of storing, locking, unlocking, selecting, deleting and expiring tokens, with restarts, the wallet agrees with a simple reference model: a locked token is not selected or locked again until it is unlocked or its lock has aged out when the store is opened or cleaned, reading a token under a lock number needs the lock held, and a deleted token never returns. Selection takes the matching token that expires first, selection and balance respect usage, owner and renewability, and stored tokens, keys and authentication data read back unchanged. A failed write is reported and leaves what was stored.',
  ['histories'],
  'all operation sequences over several usages and owners, with reopening of the store at any point',
  'The wallet store tests do not compile in the baseline; the model agreement quantifies over all histories.',
  ['serviceguard/client/walletstore/store.go', 'serviceguard/client/walletstore/types.go', 'serviceguard/client/clientlib.go'],
  [('SQL statements with lock IDs', 'walletstore')],
  observe=['walletstore exported methods'])
P('S06', 'The token client never loses or gives away tokens when servers misbehave',
  'For any sequence of wallet client operations and server answers, including failures and malformed replies at every step, each token the client owned is afterwards still held by the client, replaced by its reissued successor, or was explicitly spent or deleted, and tokens handed to the caller are locked, valid, and of the requested usage and owner. A token the wallet server gave out whose answer was lost on the way is asked for again by the next request, not abandoned for another one. Operations end with a token or a classified error, never a crash or a stuck client.',
  ['histories', 'fault_sequences'],
  'all operation sequences against a reference issuer that fails at any call',
  'Client tests do not compile in the baseline and need live servers; the guarantee is over fault sequences.',
  ['serviceguard/client/clientlib.go', 'serviceguard/client/reissue.go', 'serviceguard/client/walletrpc/client.go', 'serviceguard/client/guardrpc/client.go', 'serviceguard/client/keylookup/impl.go'],
  [('parameter store for in-flight reissues', 'client'), ('lock protocol', 'client')],
  observe=['client.Client methods'])
# ---------------------------------------------------------------- config
P('F01', 'Signed configuration maps verify only for exactly their content, never older',
  'A signed configuration map verifies exactly when its signature was made by the trusted key over exactly these entries and signing time, independently of entry order. An update is accepted only if it verifies, is not older than the one already held and is not too old, so a configuration can never be rolled back, altered or merged from several.',
  ['inputs', 'histories'],
  'all maps with arbitrary keys and values, all mutations of entries, dates and signatures, all sequences of offered updates',
  'The sortedmap tests do not compile in the baseline; binding is over all maps and mutations.',
  ['configclient/sortedmap/map.go', 'configclient/sortedmap/signedmap.go'],
  [('canonical serialisation and signature', 'sortedmap')],
  observe=['sortedmap.StringMap.Sort/Sign', 'sortedmap.SortedMap.Verify', 'SignedMap.Certify'])
P('F02', 'Configuration updates fail over between servers and change nothing on failure',
  'Updating the configuration tries the listed servers in priority order until one delivers a valid signed configuration, then the servers until one delivers the CA certificate whose hash that configuration pins, and then holds exactly these. If none does, it reports an error, keeps the previous configuration and certificate, and a later update works again; no server behaviour makes it crash or accept unpinned data.',
  ['fault_sequences', 'inputs', 'histories'],
  'all server lists with priorities, and all combinations and sequences of server failures, stale, unsigned, altered or truncated answers',
  'Existing tests run one server that succeeds or fails; fail-over is over all combinations and repeated updates.',
  ['configclient/client.go', 'configclient/roundrobin/roundrobin.go', 'configclient/cahash/hash.go'],
  [('server ordering', 'roundrobin'), ('certification', 'sortedmap'), ('CA hash pinning', 'cahash')],
  observe=['configclient.Config.Update'])
# ---------------------------------------------------------------- formats
P('P01', 'Composed mail messages parse back to the same message',
  'Any message composed from a header, text and attachments parses back to the same sender, recipients, subject, text and attachments, in the same order and with identical bytes. Splitting a message into subject and body is the inverse of joining them.',
  ['inputs'],
  'all Unicode subjects and texts, all attachment names, contents and kinds, all numbers of recipients',
  'Tests compose two fixed mails; the round trip must hold for all texts and file names.',
  ['msg/mime/mime.go', 'ctrlengine/mail/mail.go'],
  [('MIME writer and parser', 'msg/mime')],
  observe=['mime.New', 'mime.Parse', 'mime.SplitMessage', 'mime chunk functions', 'mail.Parse'])
P('P02', 'Malformed external data is always refused cleanly',
  'No input from outside, whatever its bytes, crashes or hangs any of the decoders of user IDs, key-init messages, server replies, encodings, MIME parts, mail, message IDs, nym addresses, tokens, configuration and key files: each returns a value or an error. A value that a decoder accepts encodes back to an equivalent value.',
  ['inputs'],
  'all byte strings, structured mutations of valid encodings, and arbitrary JSON shapes',
  'Robustness is over all inputs; unit tests feed a few malformed ones.',
  ['uid/uid.go', 'uid/keyinit.go', 'msg/mime/mime.go', 'msg/msgid/msgid.go', 'encode/base64/base64.go', 'encode/convert.go', 'ctrlengine/mail/mail.go', 'mix/nymaddr/addr.go', 'keyserver/capabilities/capabilities.go', 'keyserver/hashchain/hashchain.go'],
  [('length and type checks before use', 'decoders')],
  observe=['exported decode functions'])
P('P03', 'Encodings and cryptographic wrappers are inverses and match their references',
  'Every encoder/decoder and encrypt/decrypt pair of the base packages is lossless for all inputs and keys, refuses keys and inputs of wrong length, agrees with an independent implementation of the standard it names, and reports a failing random source instead of producing output. Key agreement gives both sides the same secret, and reflected or equal keys are refused.',
  ['inputs', 'fault_sequences'],
  'all inputs, key sizes, iv values and points of failure of the random source',
  'Tests check a few vectors; losslessness and agreement are universally quantified.',
  ['cipher/aes256/aes256.go', 'cipher/ckdf.go', 'cipher/curve25519.go', 'cipher/ed25519.go', 'cipher/hmac.go', 'cipher/naclbox.go', 'cipher/sha.go', 'cipher/nonce.go', 'cipher/randpass.go', 'encode/convert.go', 'encode/base64/base64.go', 'util/digits/digits.go', 'msg/padding/padding.go', 'msg/msgid/msgid.go'],
  [('thin wrappers over standard primitives', 'cipher, encode, util')],
  observe=['exported functions'])
P('P04', 'The text editor buffer keeps the text and its coordinates consistent',
  'Loading any valid UTF-8 text into the editor buffer and reading it back gives the same text (a line that starts with a combining or other zero-width character gets a space put in front of it, as documented), and every cell, bound and line the buffer reports agrees with a simple reference layout of that text for all coordinates, inside or outside the text. Cursor movements never leave the buffer\'s bounds and never crash.',
  ['inputs', 'histories'],
  'all valid UTF-8 texts including wide, combining and control characters, and all sequences of cursor movements',
  'Unit tests use a few short texts; the layout claim is over all texts and coordinates.',
  ['tui/textbuffer/textbuffer.go', 'tui/editor/model.go', 'tui/editor/view.go'],
  [('cell grid', 'tui/textbuffer'), ('cursor limits', 'tui/editor')],
  observe=['textbuffer.TextBuffer methods', 'editor model'])
# ---------------------------------------------------------------- control engine
P('E01', 'Each composed message is delivered, once, despite tool and network failures',
  'Every message a user adds for an accepted contact is, after any sequence of send attempts in which encryption, token retrieval, envelope creation or delivery fail at any point or the process is restarted, eventually handed to delivery with exactly its content, delays and recipient, and is reported sent once, and only if, its delivery is known to have succeeded; a message known to be delivered is never delivered again, and no token pays for two messages. Messages to unknown, unaccepted or blocked contacts are refused.',
  ['histories', 'fault_sequences', 'crash_points'],
  'all sequences of add and send with every combination of failing helper steps and restarts in between, for several users',
  'There are no tests of the control engine\'s send path.',
  ['ctrlengine/msg.go', 'msgdb/outqueue.go', 'msgdb/messages.go'],
  [('out queue state machine', 'ctrlengine/msg.go procOutQueue, msgdb/outqueue.go')],
  observe=['ctrlengine msg add/send/list with stand-in helper programs'])
P('E02', 'Each message in the mailbox arrives once, whatever fails while fetching',
  'Every message held by the mailbox server is, after any sequence of fetch attempts in which the transfer or decryption fails or stops at any point or the process is restarted, eventually shown to the user exactly once with its exact content and sender, except those from blocked senders, for other users, or undecryptable, which are dropped without affecting others. Senders not yet known are recorded as not yet accepted contacts, and blocking, unblocking and removing contacts take effect for all later messages.',
  ['histories', 'fault_sequences', 'crash_points'],
  'all mailbox contents and arrival orders, all interruption points of the transfer, all contact states',
  'There are no tests of the control engine\'s fetch path.',
  ['ctrlengine/msg.go', 'ctrlengine/contact.go', 'msgdb/inqueue.go', 'msgdb/cache.go', 'protoengine/fetch.go'],
  [('message ID cache and in queue', 'ctrlengine/msg.go muteprotoFetch/procInQueue')],
  observe=['ctrlengine msg fetch/list/read with stand-in helper programs'])
P('E03', 'The crypto command line keeps users\' keys and messages consistent end to end',
  'For any sequence of crypto engine commands (create, open and rekey databases, generate, register, edit and delete user IDs, publish and fetch key-init messages, sync and search the hash chain, encrypt and decrypt), every command either completes with its documented effect or reports an error and leaves the user\'s keys and earlier messages usable. Messages encrypted by one user\'s engine decrypt in the other\'s with the right sender, and no command works with a wrong passphrase.',
  ['histories', 'fault_sequences'],
  'all command sequences of several users against a reference key server that may fail',
  'cryptengine has no tests.',
  ['cryptengine/cryptengine.go', 'cryptengine/uid.go', 'cryptengine/keyinit.go', 'cryptengine/encrypt.go', 'cryptengine/decrypt.go', 'cryptengine/db.go', 'cryptengine/keystore.go'],
  [('command handlers over keydb', 'cryptengine')],
  observe=['cryptengine commands'])
P('E04', 'Administering user IDs and accounts loses no user IDs, keys or tokens',
  'For any sequence of user ID and account commands of the control engine (new, edit, active, switch, delete, list, upkeep, wallet balance), every command either completes with its documented effect or reports an error and changes nothing that the user relies on: a user ID that was registered is usable and is listed with its account, one that failed can be repeated, another person\'s user ID is never taken, each payment uses exactly one token of the right kind, and failing or interrupted commands neither lose tokens nor pay twice when they are repeated.',
  ['histories', 'fault_sequences', 'crash_points'],
  'all sequences of user ID and account commands, all points where a helper process, the key server or the account server fails, refuses, or mutectrl is killed, all token stocks',
  'There are no tests of the control engine\'s user ID and account commands.',
  ['ctrlengine/uid.go', 'ctrlengine/upkeep.go', 'ctrlengine/wallet.go', 'msgdb/nyms.go', 'msgdb/accounts.go', 'cryptengine/uid.go', 'serviceguard/client/client.go'],
  [('registration order of account, token and user ID', 'ctrlengine/uid.go'), ('token locks', 'serviceguard/client')],
  observe=['mutectrl uid, account and upkeep commands with stand-in servers'])
P('E05', 'Contacts, messages and databases stay as the user arranged them',
  'For any sequence of contact, message and database commands of the control engine, given one by one or within an interactive session, every command completes with its documented effect or reports an error and changes nothing: contact lists and block states, stored messages with their content, direction, read state and date, and the active user ID are always those that the commands so far produced, for each user ID separately. After a rekey only the new passphrase opens the databases, and an interrupted or failed rekey can be repeated without loss.',
  ['histories', 'fault_sequences', 'crash_points'],
  'all sequences of contact, msg and db commands and sessions, all spellings of identities, all message texts and passphrases, all points where a helper process or the key server fails',
  'There are no tests of the control engine\'s contact, message or database commands.',
  ['ctrlengine/contact.go', 'ctrlengine/msg.go', 'ctrlengine/db.go', 'ctrlengine/ctrlengine.go', 'msgdb/contacts.go', 'msgdb/messages.go', 'msgdb/nyms.go', 'cryptengine/db.go'],
  [('contact and message tables', 'msgdb'), ('two databases with one passphrase', 'ctrlengine/db.go')],
  observe=['mutectrl contact, msg and db commands, interactive sessions'])
