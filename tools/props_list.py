prop("C01", "Only ring members can authorize a message, and hostile bytes never crash a node",
 "A ring signature that a node accepts for a message was made by the holder of one of the private keys of exactly that ring, for exactly that message; whatever bytes the network delivers, decoding and verifying end in an acceptance, a refusal or an error, never in a crash. A signature made by a member verifies on every node, at every position, ring size and message, also after the signer reloads its key from storage. Verification against a list of key hashes accepts if and only if the signature is valid for the message and the ring is exactly that list in that order.",
 ["inputs", "schedules", "fault_sequences", "crash_points"],
 "for every ring (size, duplicates, signer position), message, encoding delivered by a lossy and hostile network, forged signature an outsider can build without a key, list of key hashes, and crash and reload of a signer",
 "The tests sign three fixed messages with small honest rings in one process; they never deliver damaged or hostile encodings, keys of small order, mismatched amounts of responses, or altered hash lists.",
 [SIG+"ringsignature.go", SIG+"ringsignature_adapter.go", SIG+"privatekey.go", SIG+"helper.go"],
 [("ring verification loop", SIG+"ringsignature.go: Verify"), ("decoding", SIG+"ringsignature_adapter.go: ToSignature"), ("comparison with the key hashes", SIG+"ringsignature_adapter.go: ToVerification"), ("ring signing", SIG+"privatekey.go: RingSign")],
 "Explores random schedules, deliveries and a fixed repertoire of keyless forgeries against a model of who signed what; assumes discrete logarithm and SHA-256 hardness. Not exhaustive.",
 ["RingSignatureAdapter.ToSignature/ToVerification", "RingSignature.Verify"], technique="authorization history model over a hostile network")

prop("C02", "A signature means the same key and verdict on every node and on every retry",
 "For a given encoded signature and message, every node and every repetition derives the same verdict and the same public key, whatever else runs in between and whatever random numbers the node draws. A signature made by a key is accepted everywhere and attributed to that key for the signed message; it is attributed to no holder's key for a message that this holder did not sign. Encoding an accepted signature again does not change what it means.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "for every key, message, encoding (genuine, damaged, or crafted on unusual points and scalars), set of nodes with their own random numbers, and interleaving of evaluations",
 "The tests verify fresh honest signatures once in one process; the verdict depends on a random number, and only crafted points, non-canonical scalars and several evaluations reveal a disagreement.",
 [SIG+"signature.go", SIG+"adapter.go", SIG+"helper.go", SIG+"privatekey.go"],
 [("public key recovery", SIG+"signature.go: PublicKey"), ("verification with a random message", SIG+"signature.go: Verify"), ("decoding of points and scalars", SIG+"helper.go")],
 "Explores random messages, schedules and crafted signatures and compares all evaluations of the same bytes; assumes discrete logarithm and SHA-256 hardness. Not exhaustive.",
 ["Signature.PublicKey", "Signature.Verify", "Adapter.ToSignature"], technique="differential verdicts across simulated nodes")

prop("C03", "Published signatures never reveal a private key",
 "From everything a holder ever publishes (plain and ring signatures, over any messages and rings, with retries, crashes and restarts, and with repeated, failing or missing entropy), nobody can compute the private key: no secret nonce is ever used for two different challenges, and no nonce is a value that is published or that anyone can compute. Without entropy no key is created.",
 ["histories", "fault_sequences", "crash_points", "schedules"],
 "for every history of signing requests of a holder, with message and ring collisions, crash and re-sign, restored snapshots and entropy failures",
 "Key recovery needs at least two related signatures of the same holder; the tests look at single signatures and never at the algebra of a history.",
 [SIG+"privatekey.go", SIG+"helper.go", SIG+"privatekey_factory.go"],
 [("deterministic nonce", SIG+"helper.go: genK, genRingK"), ("signing", SIG+"privatekey.go: Sign, RingSign"), ("key generation", SIG+"privatekey_factory.go: Create")],
 "An attacker model solves every pair of published equations for equal, opposite, shifted (up to 3) and small nonces and tries all published and publicly computable scalars; other relations between nonces are not tried.",
 ["PrivateKey.Sign", "PrivateKey.RingSign", "PrivateKeyFactory.Create"], technique="attacker model over the published history")

prop("C04", "A ring signature does not tell which member signed",
 "Whatever else has been published by the members (ring signatures over the same or other messages with overlapping rings, and plain signatures), the responses, commitments and challenges of ring signatures are never shared between two different signatures, never shared with a plain signature, and never computable from public values, so that no observer can link a signature to one of its members.",
 ["histories", "schedules", "crash_points"],
 "for every history of plain and ring signatures of several members over related messages and overlapping rings, with retries and restarts",
 "Linkability shows only when several signatures of the same member are compared; the tests never compare two signatures.",
 [SIG+"privatekey.go", SIG+"helper.go", SIG+"ringsignature.go"],
 [("derivation of decoy responses and of the nonce", SIG+"helper.go: genRingK"), ("closing of the ring", SIG+"privatekey.go: RingSign")],
 "An observer model compares all pairs of published values and the listed public derivations; a statistical bias it does not list would go unnoticed.",
 ["PrivateKey.RingSign", "RingSignature.String"], technique="observer model over the published history")

prop("C07", "Blocks received in any order are put back in the original order, or refused",
 "Whatever subset, order, duplication, corruption or substitution of blocks a replica received, ordering them with the hash tree returns exactly the given blocks, each once, in the order of the original, when every one of them is a block of the original (no more often than the original has it), and an error otherwise; a complete delivery gives the original back. The head, length, height, compact form and leaves of a tree are those of the binary hash tree over its blocks padded with empty blocks, and stay the same whatever operations and tasks use the tree. Two lists of the same number of blocks have the same head only if they are equal, and building or ordering never changes the caller's blocks.",
 ["inputs", "fault_sequences", "schedules", "histories"],
 "for every list of blocks (number, duplicates, empty blocks, blocks that look like hashes, shared buffers), every delivery over a lossy and hostile network, and every interleaving of readers",
 "The tests shuffle eight texts of distinct non-empty blocks and always deliver all of them; duplicates, empty blocks, substitutions, losses and shared buffers are never tried.",
 ["domain/hashtree/block.go", "domain/hashtree/hashtree.go", "domain/hashtree/leaves.go", "domain/hashtree/leaf.go", "domain/hashtree/parentleaf.go", "domain/hashtree/compact.go", "domain/hashtree/builder.go"],
 [("leaf hashing and padding", "domain/hashtree/block.go"), ("ordering", "domain/hashtree/hashtree.go: Order"), ("tree construction", "domain/hashtree/leaves.go: HashTree")],
 "Explores random block lists and deliveries against an independent hash tree and a multiset model; assumes SHA-512 has no collisions among the blocks used. Not exhaustive.",
 ["Builder.Now", "HashTree.Order/Compact/Head/Length/Height"], technique="reference tree and multiset model over block transfers")

prop("C05", "Encrypted messages open only, and always, with their password",
 "Whatever is encrypted with a password, of any size, opens to exactly the same bytes with that password, on any node, after a restart, and whatever other messages the same cipher handles at the same time; it never opens to the message with another password. No two ciphertexts share an initial vector or key stream, none contains its message or the password, and nothing is encrypted without fresh entropy: when entropy fails the answer is an error without a ciphertext. Truncated, spliced or foreign bytes give an error or another message, never a crash, and never the whole original message when they are damaged.",
 ["inputs", "schedules", "fault_sequences", "crash_points", "histories"],
 "for every message and password, history of encryptions on shared ciphers, entropy failure or short read, crash and restart, and damaged or spliced ciphertext",
 "The tests encrypt one text with one password; repeated vectors, entropy failures, interleaved callers and damaged ciphertexts need a history and faults.",
 ["domain/cryptography/encryption.go", "domain/cryptography/builder.go"],
 [("encryption with a fresh vector", "domain/cryptography/encryption.go: Encrypt"), ("decryption of untrusted bytes", "domain/cryptography/encryption.go: Decrypt")],
 "Explores random histories against an independent reader of the ciphertext format and a comparison of all vectors and key streams; assumes AES and SHA-256. The format has no integrity, so damage may open to another message.",
 ["Cipher.Encrypt/Decrypt"], technique="history of ciphertexts against an independent reader, with entropy faults")

prop("C06", "Encryption keys survive storage and concurrency, and only their owner decrypts",
 "Importing, exporting, storing and reloading a private or public encryption key gives back exactly that key, whatever other tasks import at the same time on the same adapter; a message encrypted to a public key decrypts with its private key to the same bytes, anywhere, and with no other key; damaged messages, torn key files and foreign bytes give an error, never a crash, a partial result or somebody else's key; without entropy nothing is encrypted or generated.",
 ["inputs", "schedules", "fault_sequences", "crash_points"],
 "for every key, message size, interleaving of tasks that share adapters and builders, torn or corrupted key file, lossy and corrupting network, and entropy failure",
 "The tests use one key in one goroutine; mixed up keys appear only when two imports interleave inside a shared builder, and torn files only after a crash.",
 ["domain/cryptography/keys/encryption/adapter.go", "domain/cryptography/keys/encryption/privatekey.go", "domain/cryptography/keys/encryption/publickey.go", "domain/cryptography/keys/encryption/publickey_adapter.go", "domain/cryptography/keys/encryption/builder.go", "domain/cryptography/keys/encryption/publickey_builder.go"],
 [("import of private keys", "domain/cryptography/keys/encryption/adapter.go: FromBytes, FromEncoded"), ("encryption to a public key", "domain/cryptography/keys/encryption/publickey.go"), ("decryption", "domain/cryptography/keys/encryption/privatekey.go")],
 "Explores random interleavings, damage and crashes over a set of fixture keys (the prime search runs in few runs); assumes RSA-OAEP and the standard library.",
 ["Adapter.FromBytes/FromEncoded/ToBytes/ToEncoded", "PublicKey.Encrypt", "PrivateKey.Decrypt"], technique="key and message model over shared adapters, storage faults and a hostile network")

prop("C08", "A ledger object's hash identifies its content on every replica",
 "Two replicas that build the same ledger object (ring, genesis, block, chain, unit, identity, transaction, secret, private transaction, receipt) from the same field values compute the same hash, whatever their time zone, the order of the setters, what else they built before or at the same time; and two objects of one kind with different contents never have the same hash, however digits, parts or lists are moved between neighbouring fields. Hashes are never empty and survive their encodings.",
 ["inputs", "schedules", "histories"],
 "for every pair of contents of every kind of object, every replica (time zone, setter order, history) and every adversarial reframing of the fields",
 "The tests build one object per kind and never compare the hashes of two of them.",
 ["domain/hash/adapter.go", "domain/rings", "domain/genesis", "domain/transactions", "domain/receipts", "domain/chains", "domain/identities"],
 [("hash of several rows", "domain/hash/adapter.go: FromMultiBytes"), ("hash of each object", "domain/*/builder.go: Now")],
 "Explores random objects with targeted reframings; equality of contents is judged by an independent canonical form; assumes SHA-512 has no collisions among the objects built. Times of contents, blocks and chains count to the second.",
 ["Hash() of all entities", "hash.Adapter"], technique="replica agreement and injectivity over adversarial field values")

prop("C09", "Every replica admits exactly the same ledger objects, by their rules only",
 "A ledger object is admitted if and only if its fields follow the rules of its kind (mandatory fields, amounts of members and units, order of times, duration limits), judged from the values that travel between nodes: every replica gives the same verdict for the same values, on every retry, whatever its own clock, time zone and history, and although wall clocks jump while monotonic clocks do not. What is refused is never partially built.",
 ["inputs", "schedules", "histories"],
 "for every combination of present, missing, empty and boundary values, every clock skew, jump and drift, every time zone, and every order of judging on shared builders",
 "The tests build one valid object per kind and a few with one missing field, with times taken from one clock in one process.",
 ["domain/rings", "domain/genesis", "domain/transactions", "domain/receipts", "domain/chains", "domain/identities"],
 [("admission rules", "domain/*/builder.go: Now"), ("comparison of times", "domain/genesis/builder.go, domain/genesis/privates")],
 "Explores random field values with weight on the boundaries against independently written rules. Not exhaustive.",
 ["Now() of the builders of all entities"], technique="reference admission rules under skewed and jumping clocks")

prop("C10", "Builders that are shared never mix the values of two callers",
 "Whatever tasks use one application's builders, adapters and factories at the same time, each starting from Create(), every value built, its accessors, and every refusal are those that the task would get alone; a builder that is reused after Create(), also after a refused attempt, keeps nothing of its former values; and a value that was built never changes afterwards, whatever is built or read later.",
 ["schedules", "histories", "inputs"],
 "for every interleaving, at every statement, of any number of tasks over any of the builders of the repository, and every history of successful and refused attempts",
 "The tests build values one after another in one goroutine; shared state between builders shows only when two uses overlap or follow each other.",
 ["domain", "applications/languages/parsers", "domain/languages/lexers"],
 [("Create() of each builder", "**/builder.go: Create"), ("Now() of each builder", "**/builder.go: Now")],
 "Explores random interleavings of generated calls on all builders found in the repository, compared with the same calls alone. Values of interface parameters come from the harness's fixtures.",
 ["Create/With*/Now of every builder"], technique="interleaved executions compared with solo executions")

prop("C12", "Every node reads the same script as the same tree, the one its grammar means",
 "For given patterns, rules, tokens, channels and script, every node and every retry gives the same answer (tree, instance, mistake, paths, tests, references), whatever order its maps iterate in and whatever other scripts its lexer reads at the same time; a script is read as the grammar means it: a token is the longest of its alternatives (the first of those), its elements occur as often as their cardinality and the specifiers say, and never what its not block reads; so a script made from the grammar is accepted with exactly the tree it was made from, with channel text allowed where channels are on and not where they are off; a reserved or foreign script, or one that lacks a mandatory element, is refused; the tests written in a grammar pass or fail as written; instances mirror their trees and scanning always finds the closest element. Damaged scripts give an answer, never a crash or an endless loop.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "for every grammar of the generated families (alternatives that may begin alike, nesting and recursion, repetition, options, specifiers, channels and switches, not-blocks, tests), every script derived from it or damaged in transit, every order of map iteration and every interleaving of readers on one lexer",
 "The tests read fixed scripts of one grammar with one goroutine and the map order of that run; disagreement needs another map order, another interleaving, or another grammar.",
 ["applications/languages/lexers/application.go", "domain/languages/lexers/asts/adapter.go", "domain/languages/lexers/asts/tokens/adapter.go", "domain/languages/lexers/asts/results/adapter.go", "domain/languages/lexers/asts/mistakes/adapter.go", "domain/languages/lexers/roots/adapter.go", "domain/languages/lexers/roots/nodes.go", "domain/languages/lexers/containers/tokens/adapter.go", "domain/languages/lexers/suites/application.go"],
 [("matching of lines and channels", "domain/languages/lexers/asts/tokens/adapter.go"), ("instances", "domain/languages/lexers/roots/adapter.go"), ("scanning", "domain/languages/lexers/roots/nodes.go: Scan")],
 "Agreement is checked for all inputs; the expected tree for scripts derived from generated grammars in which every alternative starts with its own constant, and for all scripts of freely drawn grammars without left recursion that a reference reader reads in bounded work. Not exhaustive.",
 ["Application.AST/Root/Path/Tokens/Tests/References"], technique="agreement of nodes with seeded map orders, a derivation oracle and a reference reader")

prop("C11", "One lexer serves many grammars and callers as if each were alone",
 "Every answer of a shared lexer (tree, instance, path, tokens, tests, references) is the answer a fresh lexer would give to that call alone, whatever it was asked before or at the same time: other grammars that use the same names for their tokens, rules, libraries and replacements, other scripts, with or without channels and legal prefixes, and calls that failed half way. An answer that was given never changes afterwards.",
 ["schedules", "histories", "inputs", "fault_sequences"],
 "for every set of grammars that reuse each other's names, every history of calls on one lexer and every interleaving of them, including calls that fail on a file",
 "The tests create one lexer per call; what one call leaves behind, or what two overlapping calls share, shows only in a history on one lexer.",
 ["applications/languages/lexers/application.go", "applications/languages/lexers/builder.go", "domain/languages/lexers/asts", "domain/languages/lexers/containers", "domain/languages/lexers/references/adapter.go"],
 [("calls of the application", "applications/languages/lexers/application.go"), ("replacements and includes", "applications/languages/lexers/application.go: createNotFoundAndReplacementFuncs")],
 "Explores random grammars, histories and interleavings and compares each answer with a fresh lexer's. Not exhaustive.",
 ["Application.AST/Root/Path/Tokens/Tests/References"], technique="shared executions compared with solo executions")

prop("C13", "Included files are read as they are on the disk, or the call fails",
 "A grammar that includes others (nested, under several names, with replaced tokens, with the same rule names) reads scripts as if the included tokens, with their own rules, stood in it; every call uses the files as the disk delivers them to that call, never an earlier version; a file that cannot be read makes the call fail with an error, and damaged, torn, swapped or missing files of patterns, rules and tokens never crash it or make it hang; once the disk works again, so does the same lexer. A file that includes itself is refused.",
 ["fault_sequences", "histories", "inputs", "schedules"],
 "for every graph of included grammars, every fault of the disk (missing, torn, corrupted, swapped and upgraded files, errors and short reads) before and during calls, and every interleaving of calls on one lexer",
 "The tests never include a file, and no test can make a read fail between two others.",
 ["applications/languages/lexers/application.go", "domain/languages/lexers/references/adapter.go", "domain/languages/lexers/asts/paths/adapter.go", "domain/languages/lexers/containers/rules/adapter.go", "domain/languages/lexers/containers/tokens/adapter.go", "domain/languages/lexers/containers/patterns/adapter.go"],
 [("reading of includes", "applications/languages/lexers/application.go: linkToPathFromFile"), ("replacements", "applications/languages/lexers/application.go: fetchReplacementPaths"), ("references in scripts", "domain/languages/lexers/references/adapter.go")],
 "Explores random grammars and disk faults against the derivation oracle and against a fresh lexer that is given the same deliveries. Files that use the same names are only explored without recursion and replacements (see the known findings).",
 ["Application.AST/Root/Path/Tests"], technique="disk faults against a derivation oracle and a replay of the delivered reads")

prop("C14", "Instances are computed by exactly the events of their elements, in their order",
 "Executing events over an instance calls the events of an element in the order they were given, each with that element, until the first that succeeds, whose value (or list) is the value; events that fail are skipped; when none succeeds, or there is none, the answer is an error. Triggering an element gives its values, one for each occurrence in the order of the script, or its text when it is a rule, and an error when it is absent or one of its occurrences has no value; the element is the instance's own, or else the first one of that name in what its elements contain, taken in the order of their names, and looking it up anywhere in an instance finds exactly what is there. Executions that share the application, a manager or instances never see each other's events or values, and no execution changes an instance.",
 ["schedules", "fault_sequences", "inputs", "histories"],
 "for every instance of the generated family, every table of events (missing, failing for ever or for a while, before or after they triggered others, slow, with single values and lists) and every interleaving of executions",
 "The tests execute one event per element, none of which fails, one execution at a time.",
 ["applications/languages/parsers/application.go", "applications/languages/parsers/manager.go", "applications/languages/parsers/manager_builder.go", "applications/languages/parsers/result.go", "applications/languages/parsers/result_builder.go", "domain/languages/lexers/roots/nodes.go"],
 [("events of an element", "applications/languages/parsers/manager.go: executeEvents"), ("triggering", "applications/languages/parsers/manager.go: Trigger"), ("results", "applications/languages/parsers/result_builder.go")],
 "Explores random tables of events and interleavings against a recorder of every call. An event that panics is out of scope.",
 ["Application.Execute", "Manager.Execute/Trigger", "Result"], technique="recorded history of failing and slow events against a reference model")

prop("C15", "Programs of the base language mean what they say, on every node",
 "A program written in the base language is read, and turned into a program value that says exactly what the text says: the same instructions in the same order, the same names, literals (numbers of the size that was asked for, texts with their exact characters), operators with their operands, lists with all their items in order, slices, headers, cases and bodies, and types that compare equal exactly when they are the same, whatever white space and remarks stand between its words. Numbers that do not fit in the size are refused, and a text that is spoilt at a name, a bracket or an operator never says what the right one says. Every node, every repetition and every interleaving of callers that share a parser, its events and builders gives the same value, for every size of numbers used at the same time; the value never depends on a program that was read before. Damaged programs give the same answer everywhere and never crash.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "for every program of the language (instructions, headers, conditions, loops, lists, slices, operations, texts, numbers at the limits of their size), every placement of white space and remarks, every map order, and every interleaving of readers that share one parser and one table of events",
 "The tests read some fifty fixed programs, most of them of one element, with 64 bits, one at a time; what a part means inside of another, next to another caller, or with another size shows only for other inputs and schedules.",
 ["domain/languages/scripts/base/parsers", "domain/languages/scripts/resources/base", "applications/languages/parsers", "applications/languages/lexers/application.go"],
 [("events of the base language", "domain/languages/scripts/base/parsers/sdk.go: NewEvents"), ("its grammar", "domain/languages/scripts/resources/base/tokens.alex"), ("program values", "domain/languages/scripts/base/parsers: sdk.go")],
 "Explores generated programs whose meaning is known against the values that are computed. Nesting is bounded, because the reading of nested lists takes exponential time. Not exhaustive.",
 ["Lexer.Root + Parser.Execute with NewEvents(8/16/32/64)"], technique="generated programs with known meaning, interleaved on nodes that share parsers")

prop("C16", "Peer addresses arrive as they were announced, or not at all",
 "A peer that is built and announced as a string is read by every node, after any number of hops and restarts, as exactly the same host and port; what cannot be announced unambiguously is not built; damaged or foreign strings give an error or a peer that reads back as itself, with exactly the host and port the string spells, never a crash, a wrapped port or an empty host.",
 ["inputs", "fault_sequences", "crash_points", "schedules"],
 "for every host, port and delimiter, every gossip path over a network that loses, duplicates, corrupts, truncates and splices addresses, and every interleaving of tasks on shared builders",
 "The tests convert one well formed address with one delimiter.",
 ["domain/peers/peer_builder.go", "domain/peers/peer.go", "domain/peers/peers.go", "domain/peers/builder.go", "domain/peers/sdk.go"],
 [("building a peer", "domain/peers/peer_builder.go")],
 "Explores random addresses, delimiters and damage against an independent reader. Not exhaustive.",
 ["PeerBuilder.WithString/Now", "Peer.String"], technique="gossip over a hostile network against an independent reader")
