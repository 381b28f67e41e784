import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A built bundle conserves value; unrepresentable totals are refused",
"Whenever construction of a bundle succeeds, the value balance it declares (and the balance the builder reports beforehand) is exactly the sum of the requested spend values minus the sum of the requested output values, padding contributing nothing. The value commitments of its actions together with that balance determine a binding key under which the bundle's own binding signature verifies. If the net total does not fit the balance type the caller gets an overflow error, never a wrapped, truncated or panicking result, and totals that do fit are never refused as long as the spend total and the output total each fit in 64 bits.",
["inputs","histories"],"every multiset of spend and output values (each any u64, including zero and the extremes), every bundle type, every balance integer type the caller picks, every order of additions",
"The tests build a handful of bundles with values like 5000 or random values capped by a generator; carries, sign changes, the i64 and u64 boundaries, narrower balance types and many-action sums are never combined.",
["src/builder.rs","src/value.rs","src/bundle.rs"],
[("value sum with range check","src/value.rs ValueSum Add"),("net value and i64 conversion","src/builder.rs bundle, Builder::value_balance"),("binding key derivation and consistency assertion","src/builder.rs bundle; src/bundle.rs binding_validating_key")],
["builder build result","bundle value balance","bundle binding validating key","binding signature of the authorized bundle"])

p("C02","Requested spends and outputs appear exactly once, where reported",
"Every requested spend and every requested output is carried by exactly one action of the built bundle, at the index the construction metadata reports, each with the note, recipient, value and memo (or the default empty memo) that was asked for, and recoverable with the outgoing viewing key given with the request and no other (with none if none was given); distinct requests get distinct actions. All other positions are zero-valued padding that belongs to none of the requester's keys, the number of actions follows the documented padding rule of the bundle type, and the bundle carries the requested flags and anchor. A request set for which no bundle is required yields no bundle.",
["inputs","histories"],"every sequence of add-spend and add-output requests over keys, scopes, notes (including zero-valued and repeated recipients), memos, optional outgoing keys, bundle types, and every random stream used for shuffling and padding",
"The tests check one or two fixed bundles with one spend or one output and never compare the reported indices with the actual contents after padding and shuffling.",
["src/builder.rs","src/bundle.rs","src/action.rs"],
[("padding and shuffling with index bookkeeping","src/builder.rs bundle"),("number of actions","src/builder.rs BundleType::num_actions"),("output note construction","src/builder.rs ActionInfo::build")],
["bundle actions","bundle metadata indices","decryption of each action with the recipient's and sender's keys"])

p("C03","The builder refuses exactly the requests its rules forbid",
"A spend is accepted if and only if the bundle type enables spends, the given viewing key owns the note's recipient address (in either scope) and the note is zero-valued or its authentication path leads from the note's commitment to the builder's anchor; an output is accepted if and only if outputs are enabled. A refused request reports its own cause (distinguishable both as a value and in its message) and leaves the builder's contents, reported balance and eventual bundle unaffected. The lower-level construction entry points apply the same rules.",
["inputs","histories"],"every interleaving of valid and invalid add-spend and add-output requests against every bundle type and anchor, including wrong keys, wrong paths, single corrupted path elements, wrong positions and zero-valued notes",
"Existing tests only add one valid spend, or none; no refusal path is exercised with state observed afterwards.",
["src/builder.rs","src/tree.rs","src/keys.rs"],
[("spend admission checks","src/builder.rs Builder::add_spend, SpendInfo::new, has_matching_anchor"),("output admission check","src/builder.rs Builder::add_output"),("re-checks at build","src/builder.rs bundle")],
["result of each add call","builder spends/outputs views and value balance","bundle built afterwards"])

p("C04","Only a fully and correctly signed bundle can be finalized",
"Over every order of preparing, signing with keys, appending external signatures and finalizing, finalization succeeds exactly when every real spend has received a signature valid for it (padding spends are signed automatically), and then every spend signature verifies under its action's randomized key, and the binding signature under the bundle's binding key, for the prepared message and no other. A signing key signs exactly the not-yet-signed spends it controls; an external signature that is valid for no unsigned spend, or for more than one, is rejected with an error. Signing never changes anything else in the bundle, and the one-call signing helper agrees with the step-by-step path.",
["histories","inputs"],"every sequence of sign / append / finalize operations with right, wrong, repeated, reordered keys and signatures (valid, for another message, for another spend, corrupted), over bundles with several spends per key and several keys",
"The tests sign once with the one right key; partial, wrong, duplicate and external-signature histories are not sampled.",
["src/builder.rs","src/primitives/redpallas.rs","src/keys.rs"],
[("signing state machine","src/builder.rs prepare, sign, append_signatures, finalize, apply_signatures"),("key randomization","src/keys.rs SpendAuthorizingKey::randomize")],
["finalize result","signatures in the authorized bundle","errors returned"],None,
[("maybe-signed action","either signing parts or a signature","src/builder.rs MaybeSigned")])

p("C05","Every honestly built bundle can be proven and verifies",
"For every valid action (any owned note of any value in any position of the tree, in either key scope, any recipient, any output value, any blinding values, and any flags that the values respect) the prover produces a proof which the verifier accepts for the bundle's own public data. This includes boundary values, maximal positions, zero-valued and padding notes, and bundles with many actions. The action's witness satisfies every constraint of the statement.",
["inputs"],"every honest action context: keys and scope, note values in 0..2^64-1 on both sides, tree positions 0..2^32-1, arbitrary paths and anchors, blinding scalars including 0 and order-1, and the flag combinations allowed",
"One test proves random values with one fixed shape and one bundle chain; witness generation for boundary field encodings, signs, positions and scopes is not sampled.",
["src/circuit.rs","src/circuit/gadget.rs","src/circuit/note_commit.rs","src/circuit/commit_ivk.rs","src/builder.rs"],
[("witness assembly","src/circuit.rs Circuit::from_action_context"),("witness assignment","src/circuit.rs synthesize; src/circuit/note_commit.rs; src/circuit/commit_ivk.rs"),("public inputs","src/circuit.rs to_halo2_instance")],
["constraint satisfaction of the synthesized circuit","proof verification result"])

p("C06","No action that breaks the spending rules satisfies the action statement",
"A witness that violates any single rule of the action statement does not satisfy the circuit: spending a note not in the tree of the stated anchor (unless zero-valued), a nullifier, value commitment, randomized key or output commitment that does not match the witnessed notes and keys, a recipient address not derived from the spend key, a nonzero spend or output while it is disabled, or an output whose uniqueness value is not the spent note's nullifier. An action context whose output is not chained to the spent note is refused when it is assembled.",
["inputs"],"every honest action context combined with every single-component corruption of the witness or the public data",
"Soundness is a statement about all witnesses; the tests only ever prove correct ones (the pinned verifying key freezes the circuit but does not show that it rejects).",
["src/circuit.rs","src/circuit/gadget.rs","src/circuit/note_commit.rs","src/circuit/commit_ivk.rs"],
[("circuit constraints","src/circuit.rs configure and synthesize"),("chaining check","src/circuit.rs Circuit::from_action_context")],
["constraint satisfaction of the synthesized circuit"],"constructor of a circuit from individually chosen witness values (cfg verif_hooks, src/circuit.rs)")

p("C07","A proof is accepted only for the exact public data it was made for",
"A bundle's proof verifies if and only if the anchor, flags, and each action's nullifier, randomized key, output commitment and value commitment, and the number and order of actions, are exactly those it was created for: changing any of them, or changing, removing or adding any byte of the proof, makes verification fail. The library's verdict coincides with that of the underlying proof system run on independently encoded public inputs. Verifying through the bundle and through standalone instances gives the same verdict.",
["inputs"],"every proven bundle and every single or combined alteration of its public fields (including both coordinates' signs, swaps between actions, flag flips, dropped or repeated actions) and of its proof bytes",
"The tests verify proofs only with their matching public inputs; no test alters a public input.",
["src/circuit.rs","src/bundle.rs"],
[("public input encoding","src/circuit.rs to_halo2_instance, src/bundle.rs Action::to_instance"),("proof verification","src/circuit.rs Proof::verify; src/bundle.rs Bundle::verify_proof")],
["verification results"])

p("C08","Verifying or scanning untrusted bundles never panics",
"For every bundle assembled from fields that individually decode (any curve point including the identity, any field element, any proof and signature bytes, any ciphertext bytes, any balance), proof verification, batch validation, binding-key computation, digest computation and note scanning return a verdict without panicking. Such a bundle is rejected unless it genuinely verifies.",
["inputs","fault_sequences"],"every combination of decodable field values in adversarial bundles, including degenerate points, truncated, extended, empty and bit-flipped proofs",
"Tests only process honestly built bundles; adversarial field values that decode but that no honest prover emits are not sampled.",
["src/circuit.rs","src/bundle.rs","src/bundle/batch.rs","src/note_encryption.rs","src/value.rs"],
[("instance encoding of points","src/circuit.rs to_halo2_instance; src/value.rs ValueCommitment x/y"),("batch queueing","src/bundle/batch.rs"),("decryption entry points","src/bundle.rs decrypt_*, recover_*")],
["return values and absence of panics"])

p("C09","Batch validation accepts exactly when every bundle in it is valid",
"Validating a batch of bundles, each with its message hash, succeeds if and only if each bundle's proof, every spend signature and the binding signature would be accepted individually, regardless of the order, number or repetition of the bundles; an empty batch is valid. One invalid component anywhere in the batch makes the whole batch fail.",
["inputs","histories"],"every sequence of valid and corrupted bundles added to a batch, with every kind and position of corruption (proof, one spend signature among many, binding signature, balance, message hash, public field)",
"The batch validator is called in a few tests with one valid bundle; no test adds a bad bundle, several bundles, or compares verdicts.",
["src/bundle/batch.rs","src/circuit.rs","src/primitives/redpallas.rs"],
[("queueing of signatures and proofs","src/bundle/batch.rs BatchValidator::add_bundle"),("final verdict","src/bundle/batch.rs BatchValidator::validate")],
["batch verdict versus individual verdicts"])

p("C10","All keys and addresses derive from the spending key as the protocol says",
"For every spending key, the authorizing key, full viewing key, incoming and outgoing viewing keys of both scopes, diversifiers and addresses at every index equal the values the Zcash protocol specification defines; spending keys the specification calls invalid are refused. The authorizing key always corresponds to the viewing key's validating point with even sign. Hierarchical derivation from a seed yields, for every coin type and account, the specified child key, and out-of-range coin types are refused with an error.",
["inputs"],"every 32-byte spending key, every 88-bit diversifier index, both scopes, every seed of permitted length, every coin type and account",
"Ten fixed test vectors with small indices; sign normalization, internal scope, large indices and derivation paths are sampled at a few points only.",
["src/keys.rs","src/zip32.rs","src/spec.rs","src/address.rs"],
[("key derivation","src/keys.rs"),("ZIP 32 derivation","src/zip32.rs ExtendedSpendingKey"),("spec primitives","src/spec.rs commit_ivk, diversify_hash, to_base, to_scalar")],
["encoded keys and addresses"])

p("C11","Key and address encodings round-trip and reject everything else",
"Encoding then decoding a full viewing key, incoming viewing key, spend validating key, address, spending key or diversifier returns an equal value with the same derived keys, addresses and decryption ability. Decoding an arbitrary byte string succeeds exactly when it is the canonical encoding of a valid value, and then re-encoding gives the same bytes; non-canonical field elements, identity or off-curve points, wrong sign bits, zero keys and truncated streams are refused, without panicking.",
["inputs"],"every byte string of the encoding's length: valid encodings, random bytes, boundary field values, bit-flips of valid encodings, short and long streams",
"The tests decode only valid vectors (and a few random keys); the rejection side and canonicity are not exercised.",
["src/keys.rs","src/address.rs","src/spec.rs"],
[("full viewing key codec","src/keys.rs FullViewingKey::to_bytes/from_bytes/read/write"),("incoming viewing key codec","src/keys.rs IncomingViewingKey::to_bytes/from_bytes"),("address codec","src/address.rs"),("point and scalar checks","src/spec.rs NonIdentityPallasPoint, NonZeroPallasBase")],
["decode results and re-encodings"])

p("C12","Address ownership, scope and diversifier index are decided exactly",
"For every key, scope and diversifier index, the address derived at that index is recognised by that key's viewing keys with exactly that index and scope, and distinct indices give distinct addresses. An address of the other scope, of another key, or with any altered byte is never attributed to the key and scope. Addresses made from a chosen diversifier agree with those made from its index.",
["inputs"],"every pair of keys, both scopes, every 88-bit index and every 11-byte diversifier, including mutated and foreign addresses",
"Tests look at the default address and a few small indices of one key.",
["src/keys.rs","src/address.rs"],
[("diversifier permutation","src/keys.rs DiversifierKey"),("ownership test","src/keys.rs IncomingViewingKey::diversifier_index, FullViewingKey::scope_for_address")],
["diversifier_index, scope_for_address, address derivation results"])

p("C13","Signatures verify only for the right key and message, and randomize",
"A spend-authorization or binding signature made with a non-zero signing key verifies under that key's public key for that message, and not for any other message, other key, or altered signature; verdicts agree with the protocol's verification equation. Randomizing a signing key and randomizing its public key with the same scalar give matching keys. Verifying signatures in a batch gives the same verdict as verifying each one.",
["inputs","histories"],"every signing key (including sign-normalized ones), randomizer (including 0 and extremes), message of any length, signature bytes, and batch composition",
"The crate's own tests do not exercise randomized keys, altered signatures or mixed batches over generated inputs.",
["src/primitives/redpallas.rs","src/keys.rs"],
[("signature wrapper","src/primitives/redpallas.rs"),("batch items","src/primitives/redpallas.rs create_batch_item"),("authorizing key randomization","src/keys.rs")],
["verification verdicts, encoded keys"])

p("C14","Note commitments and nullifiers follow the protocol and bind every part",
"A note's commitment equals the specified commitment to its recipient, value, uniqueness value and seed, and its nullifier under a viewing key equals the specified nullifier; rebuilding a note from its exposed components reproduces both. Changing any single component changes the commitment, and changing any component or the nullifier-deriving part of the viewing key changes the nullifier. In every built action the output note's uniqueness value is the nullifier the action reveals, and each action's nullifier and commitment belong to its notes.",
["inputs"],"every recipient, 64-bit value, field-element uniqueness value, 32-byte seed and viewing key, and every built bundle",
"Tests use fixed vectors for one construction path; sensitivity of the commitment to each component and the rebuilt-note path are not quantified.",
["src/note.rs","src/note/commitment.rs","src/note/nullifier.rs","src/spec.rs"],
[("commitment","src/note/commitment.rs NoteCommitment::derive"),("nullifier","src/note/nullifier.rs Nullifier::derive"),("seed expansion","src/note.rs RandomSeed"),("chaining","src/builder.rs ActionInfo::build")],
["commitment, nullifier and equality of notes"])

p("C15","Recipient and sender recover exactly what was sent; nobody else does",
"For every note, memo and optional outgoing key, the ciphertexts of an action let the holder of the recipient's incoming viewing key of the right scope recover exactly the note, address and memo, the compact form recover exactly the note and address, and the holder of the outgoing viewing key recover the same. Keys of the other scope, unrelated keys, and any outgoing key when none was given recover nothing. The ciphertext format is the one the protocol specifies, so an independent implementation decrypts it and vice versa.",
["inputs"],"every note (value, recipient in either scope, uniqueness value, seed), every 512-byte memo, every outgoing key or none, full and compact forms, and unrelated keys",
"Fixed vectors plus one random round trip; memo contents, scopes, zero and maximal values and non-recipients are not quantified.",
["src/note_encryption.rs","src/keys.rs","src/bundle.rs"],
[("plaintext encoding and parsing","src/note_encryption.rs OrchardDomain"),("key agreement and KDF","src/keys.rs SharedSecret, ka_*"),("outgoing cipher key","src/note_encryption.rs prf_ock_orchard")],
["decryption and recovery results"])

p("C16","Altered or maliciously encrypted outputs are never accepted as notes",
"Decryption and recovery return a note only if everything about it is consistent with the action: the plaintext has the required version, the ephemeral key is the one the note's seed implies, and the note's commitment equals the one in the action. Any alteration of the ciphertexts, ephemeral key, commitment, nullifier or value commitment that these cover, and any sender-made inconsistency (wrong version, wrong seed, wrong recipient key or value, foreign ephemeral key) yields no note, without panicking. What is returned is always what an independent implementation of the protocol's decryption rules returns.",
["inputs","fault_sequences"],"every byte-level alteration and every malicious-sender construction of an action's output fields, for full, compact and outgoing decryption",
"No test feeds tampered or malicious ciphertexts.",
["src/note_encryption.rs","src/keys.rs","src/note.rs"],
[("plaintext validation","src/note_encryption.rs orchard_parse_note_plaintext_without_memo"),("ephemeral key and commitment checks","zcash_note_encryption via src/note_encryption.rs"),("point decoding","src/keys.rs EphemeralPublicKey::from_bytes, DiversifiedTransmissionKey::from_bytes")],
["decryption and recovery results"])

p("C17","Bulk scanning gives the same results as scanning one action at a time",
"Batched trial decryption (full and compact) of any list of outputs with any list of keys returns, position by position, exactly what decrypting each output with each key alone returns, including which key matched. Scanning a whole bundle with viewing keys reports exactly the actions that decrypt, with their index, the first matching key and the same contents as decrypting that action alone; out-of-range indices yield nothing.",
["inputs"],"every list of actions (some undecryptable, some with invalid ephemeral keys, in any position) and every list of keys (repeated, irrelevant, empty)",
"The tests call the batch functions with one action and one key.",
["src/note_encryption.rs","src/keys.rs","src/bundle.rs"],
[("batched key derivation","src/note_encryption.rs batch_kdf; src/keys.rs SharedSecret::batch_to_affine"),("bundle scanning","src/bundle.rs decrypt_outputs_with_keys, recover_outputs_with_ovks and single-action forms")],
["batch versus single results"])

p("C18","Merkle roots, paths and empty subtrees match the protocol's tree",
"For every list of leaves and every position, the root computed from a leaf and its authentication path equals the root of the depth-32 tree with those leaves, as defined by the protocol's level-tagged hash with the specified empty leaf, and empty-subtree roots of all levels and the empty-tree anchor are those of the same definition. A path gives that root for no other leaf, position or altered sibling. Node, anchor and path encodings round-trip and non-canonical node encodings are refused.",
["inputs","histories"],"every leaf sequence and append/witness history, every 32-bit position, every sibling value including 0 and the field maximum, every level",
"Tests use fixed vectors of a small tree and low positions; high positions, wrong siblings, arbitrary sibling values are not sampled.",
["src/tree.rs","src/constants/sinsemilla.rs"],
[("node hash","src/tree.rs Hashable::combine"),("path folding","src/tree.rs MerklePath::root"),("empty roots","src/tree.rs EMPTY_ROOTS")],
["roots, anchors, encodings"])

p("C19","Bundle digests commit to every effecting and authorizing field",
"The transaction-identifier digest and the authorizing-data digest of a bundle equal those ZIP 244 defines, also for absent bundles. Changing any effecting field (any action field, action order or count, flags, balance, anchor) changes the identifier digest; changing the proof or any signature changes the authorizing digest and never the identifier digest. The identifier digest is the same before and after proving and signing.",
["inputs","histories"],"every bundle with every field value, every single-field and single-byte alteration, every authorization state",
"The crate has no test comparing digests with an independent computation over generated bundles, nor sensitivity to each field.",
["src/bundle/commitments.rs","src/bundle.rs"],
[("identifier digest","src/bundle/commitments.rs hash_bundle_txid_data"),("authorizing digest","src/bundle/commitments.rs hash_bundle_auth_data")],
["digests"])

p("C20","Bundle and action transformations change only what they are asked to",
"Mapping a bundle's or an action's authorization, or a bundle's value balance, visits every action exactly once in order, hands the caller the existing authorization data, and leaves every other field of every action and of the bundle (nullifiers, keys, commitments, ciphertexts, order, count, flags, balance, anchor) unchanged. If the caller's transformation fails, the first failure is returned and nothing is visited after it; otherwise it succeeds. Fields given when assembling a bundle or action are returned unchanged by its accessors, in full and compact form.",
["inputs","histories"],"every bundle of any size with any field values, every sequence of transformations, and failures injected at every action or step",
"Transformations are only used incidentally in tests with one or two actions; no test compares all the fields or injects failures.",
["src/bundle.rs","src/action.rs","src/note_encryption.rs"],
[("bundle maps","src/bundle.rs map_authorization, try_map_authorization, try_map_value_balance"),("action maps","src/action.rs map, try_map"),("compact conversion","src/note_encryption.rs CompactAction")],
["all accessor values before and after"])

p("C21","Value arithmetic is exact and value commitments add up",
"Differences of note values and sums of value sums are the exact integers, or a reported overflow when a running total leaves the permitted range of plus or minus 2^64-1, and conversion to a 64-bit signed balance succeeds exactly when the value fits. A value commitment equals the specified Pedersen commitment; sums and differences of commitments commit to the sums and differences of values and blinding factors. Equal values with different blinding, and different values with the same blinding, give different commitments.",
["inputs"],"every pair and sequence of 64-bit note values, every blinding scalar including 0 and order-1, every sign and magnitude up to 2^64-1",
"One property test covers sums within a bounded range; extremes, overflow points, orders of summation and the independent value of the commitment are not covered.",
["src/value.rs"],
[("checked arithmetic","src/value.rs NoteValue Sub, ValueSum Add/Sum"),("commitment","src/value.rs ValueCommitment::derive, Add, Sub, Sum")],
["arithmetic results, encoded commitments"])

p("C22","On-chain field encodings are canonical, exact and reject invalid bytes",
"For nullifiers, output commitments, uniqueness values, anchors, tree nodes, value commitments, blinding factors, note seeds, flags, signatures and their keys, decoding a byte string succeeds exactly when it is the canonical encoding of a valid value, and re-encoding returns the same bytes; everything else is refused without panicking. Flag bytes decode if and only if all reserved bits are zero. Equality of decoded values coincides with equality of their encodings.",
["inputs"],"every byte string of each encoding's length, with emphasis on values around the field modulus, sign bits, reserved bits, the identity encoding and off-curve coordinates",
"Tests parse only encodings of valid values.",
["src/note.rs","src/note/commitment.rs","src/note/nullifier.rs","src/tree.rs","src/value.rs","src/bundle.rs","src/primitives/redpallas.rs"],
[("codecs","from_bytes/to_bytes of each type"),("flags","src/bundle.rs Flags::from_byte/to_byte")],
["decode results and re-encodings"])

p("C23","Built bundles are freshly randomized and shuffled",
"Within a bundle and across builds from different randomness, no two actions share a randomized key, value commitment, ephemeral key, output commitment, nullifier of padding, or padding recipient, even for identical requests, and a repeated spend of the same note gets different randomized keys. The positions of requested spends and of requested outputs are each uniformly random and independent of the order of requests and of each other. Values and blinding are never unblinded: no action's value commitment equals the unblinded commitment to its value, and no randomized key equals the unrandomized one.",
["inputs","histories"],"every set of requests, repeated many times under different randomness streams",
"Randomness reuse and biased positions are invisible to tests that build one bundle and check that it verifies.",
["src/builder.rs","src/note.rs","src/keys.rs"],
[("shuffle","src/builder.rs bundle"),("blinding","src/builder.rs ActionInfo::new/build"),("seed generation","src/note.rs RandomSeed::random, Note::dummy")],
["public action fields across builds; positions from metadata"])

p("C24","Results depend only on the arguments and the caller's randomness",
"Every operation of the library (key derivation, address ownership, note commitments and nullifiers, encryption and decryption, tree hashing, value commitments, signing and verification, building, proving, batch validation) gives the same result for the same arguments and the same randomness stream, whatever was computed before it, however often, in whatever order, and on whatever threads at the same time. A bundle built, proven and signed twice from equal requests and equal randomness is the same byte for byte; no operation draws randomness other than from the caller's generator (batch validation's private mixing excepted, which never changes a verdict).",
["inputs","histories","schedules"],"every history of earlier operations with related or unrelated arguments, every order, every assignment of operations to threads",
"Each test runs one operation in one order on one thread; a result that depends on a cache, on shared state or on earlier inputs cannot show.",
["src/keys.rs","src/note.rs","src/note_encryption.rs","src/tree.rs","src/spec.rs","src/builder.rs","src/circuit.rs","src/primitives/redpallas.rs"],
[("precomputed and lazily initialized tables","src/constants; src/tree.rs EMPTY_ROOTS; src/circuit.rs ProvingKey/VerifyingKey"),("randomness taken from the caller","src/builder.rs, src/note.rs, src/value.rs random functions")],
["results of queries repeated in other orders and threads","bytes of bundles built twice"])

p("C25","Values are equal exactly when they encode the same; orders are total orders",
"For every public type that can be compared (spending, full viewing, incoming viewing, spend validating and verification keys, diversifiers, addresses, notes, uniqueness values, note commitments, nullifiers, anchors, tree nodes, values and their sums, flags, bundle types and metadata), two values are equal exactly when they denote the same thing, that is, when all their encoded or observable parts agree; equality is reflexive, symmetric and transitive, agrees with its constant-time form, and any ordering offered is a total order consistent with equality. Conditional selection returns one of its two arguments unchanged.",
["inputs"],"every pair and triple of values, in particular values differing in a single part, byte or sign bit, and equal values obtained in different ways",
"Tests compare a handful of values for equality and never look for different values that compare equal or for order inconsistencies.",
["src/keys.rs","src/address.rs","src/note.rs","src/note/commitment.rs","src/note/nullifier.rs","src/tree.rs","src/value.rs","src/bundle.rs","src/primitives/redpallas.rs"],
[("hand-written and derived comparisons","PartialEq, Eq, PartialOrd, Ord, ConstantTimeEq, ConditionallySelectable impls")],
["results of comparisons"])

p("C26","Reported memory use is the heap memory actually held",
"The dynamic memory use reported for authorized bundles, their actions and proofs, decryption domains and prepared viewing keys equals the heap memory those values actually hold, for any number of actions, any proof length and any unused capacity, and lies within the bounds reported with it; reading it allocates nothing that stays.",
["inputs"],"every bundle size, proof length and spare capacity, every prepared key",
"No test measures memory; wallets that bound their queues by this figure rely on it for every size.",
["src/bundle.rs","src/circuit.rs","src/action.rs","src/note_encryption.rs","src/keys.rs"],
[("memory accounting","src/bundle.rs DynamicUsage for Bundle; src/circuit.rs Proof; src/keys.rs PreparedIncomingViewingKey")],
["reported use against a counting allocator"])

p("C27","The published generators of test data produce what they promise",
"The generators this crate publishes for downstream property tests produce, for every seed and at every step of shrinking, values with the properties their documentation and types state: notes, keys, values and flags in their ranges and consistent with one another, sums that stay within the stated bounds, unauthorized and authorized bundles with the requested numbers of actions, full bundles that verify (proof, signatures, balance) under their own public data, and compact actions that the given recipient's key decrypts to the given value.",
["inputs"],"every seed, every parameter of the generators, every shrinking step",
"The generators are only used as inputs by tests that would pass on a much weaker distribution, and the one for complete bundles is used by no test at all.",
["src/builder.rs","src/bundle.rs","src/note.rs","src/keys.rs","src/value.rs","src/action.rs","src/note_encryption.rs"],
[("published generators","the testing modules behind the test-dependencies feature")],
["generated values"])
p("C28","Over any history of transactions, wallets and ledger stay in agreement",
"Over every history of issuing, transferring (from any of several wallets, from either key scope, against the latest or an older anchor, with change) and undone blocks: each wallet, from its exported viewing keys alone, finds exactly the notes sent to it and nothing else; the nullifier it computes for a found note is the one its spend reveals, so that a note is spendable exactly once and every second spend repeats a revealed nullifier; every unspent note stays spendable with the wallet's own tree witness, at the latest and at older anchors containing it, while notes of undone blocks are refused; bundles stay equal and valid when decoded from bytes; the total of unspent notes is always the negated sum of the value balances; and a wallet restored from its keys finds the same notes.",
["histories","inputs"],"every sequence of issue, transfer, foreign append and undo operations over several wallets, any starting position in the tree, any picked notes (including spent ones), values, memos, scopes and anchor depths",
"The one end-to-end test spends a single note once; no test spends a note received in a transfer, an internal-scope note, uses an older anchor, or compares wallets with a ledger over a history.",
["src/builder.rs","src/bundle.rs","src/note.rs","src/note_encryption.rs","src/tree.rs","src/keys.rs"],
[("spending found notes","src/builder.rs add_spend, build; src/note.rs Note::nullifier"),("scanning","src/bundle.rs decrypt_outputs_with_keys, recover_outputs_with_ovks"),("tree integration","src/tree.rs MerklePath, MerkleHashOrchard, Anchor")],
["bundles, scan results, nullifiers, tree roots and witnesses, after every operation"],None,
[("ledger","note commitment tree, revealed nullifiers and balances","harness model"),("wallet","found notes with positions and witnesses","harness model")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
