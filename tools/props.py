I = ["inputs"]
IC = ["inputs", "configurations"]
P("C01", "Plaintext recovery phrase round trip",
  "For every 128-bit seed and every creation offset below 2^31 seconds, encoding a plaintext recovery phrase succeeds, and decoding it yields exactly that seed and creation offset. Recovering a key object from its own plaintext phrase with the same options yields the same fingerprints, creation time, user ID and unprotected export.",
  I, "all 2^128 seeds x 2^31 offsets, all user IDs and subkey indices",
  "the tests sample a handful of seeds and offsets; the round trip must hold for the whole domain, including leading zero bits and boundary offsets",
  ["encoding.go", "recovery.go", "bit_buffer.go", "mnemonic/encode.go", "mnemonic/decode.go"],
  [("EncodeMnemonicPlaintext", "encoding.go"), ("DecodeMnemonic", "recovery.go"), ("RecoverPlaintext", "recovery.go")])
P("C02", "Encrypted recovery phrase round trip",
  "For every seed, creation offset below 2^31 and non-empty password, encoding an encrypted phrase fails only if the random source fails; decoding it yields the same creation offset and an encrypted phrase, and decrypting it any number of times with the same password yields exactly the seed. Recovering a key object from its own encrypted phrase with the same options yields the same fingerprints, creation time, user ID and unprotected export.",
  I, "all seeds, offsets, passwords and random salts",
  "tests sample a few seeds and passwords; wrong results for particular salts, offsets or verification bits would go unseen",
  ["encoding.go", "recovery.go", "derive.go", "bit_buffer.go"],
  [("EncodeMnemonicEncrypted", "encoding.go"), ("DecryptSeed", "recovery.go")])
P("C03", "Phrases have exactly the published layout, in both directions",
  "Every phrase consists of 12-bit words spelling, most significant bit first, the published fields: version, (encrypted) seed, for encrypted phrases the 19-bit salt and 5-bit password verification, 31-bit creation offset, and a 5-bit CRC32 checksum of everything before it; encryption is AES-128 under the published Argon2id parameters. Offsets which need more than 31 bits are refused. The decoder reads the same fields at the same places.",
  I, "all seeds, offsets, passwords, salts and all 14- and 16-word inputs",
  "an encoder and decoder changed together still round-trip and only fixed vectors would notice; vectors pin a few bit patterns, not all positions and carries",
  ["encoding.go", "recovery.go", "derive.go", "parameters.go", "version.go"],
  [("field widths and order", "encoding.go, recovery.go, parameters.go"), ("deriveSeedEncryptionKey", "derive.go")])
P("C04", "The decoder accepts exactly the valid phrases",
  "A list of words is accepted as a phrase if and only if every word is in the word list (in any letter case), the version named by its first word is known, the number of words is right for that version, and the checksum matches. A result is returned exactly when there is no error. The version reported for a first word, its phrase length and whether it is encrypted follow the published table.",
  I, "all word lists of up to 40 words (quick: up to 28 at selected lengths)",
  "acceptance of invalid phrases is a statement about all the inputs that tests do not contain",
  ["recovery.go", "version.go", "mnemonic/decode.go"],
  [("length, word and checksum checks", "recovery.go DecodeMnemonic"), ("ParseMnemonicVersion", "version.go")])
P("C07", "Keys are derived exactly as published",
  "The secret and public part of the exported master key and of each exported subkey are exactly those prescribed by the published derivation from seed, creation second and that subkey's type and index; indices default to zero. A key recovered from a phrase is derived from the seed and creation offset that the phrase spells.",
  IC, "all seeds, creation times, 16-bit indices and subkey selections",
  "a phrase must regenerate the same key in any later version, for every seed; tests compare against a few recorded keys",
  ["derive.go", "mnemonikey.go", "pgp/ecc_key.go", "pgp/ed25519_subkey.go", "pgp/encryption_subkey.go"],
  [("root key and HKDF expansion", "derive.go"), ("key construction", "mnemonikey.go, pgp/*.go")])
P("C10", "Creation time: accepted range, flooring and consistency",
  "A key is created exactly when the requested instant lies between 2023-01-01T00:00:00Z and 2^31-1 seconds later; otherwise an error and no key is returned. The instant is floored to the second, and that same second is shown by the key object, by every exported key and signature packet, protected or not, and by the key's recovery phrase.",
  I, "all creation instants at nanosecond resolution, both sides of both bounds",
  "off-by-one at the bounds and sub-second or disagreeing copies of the time appear only for particular instants",
  ["mnemonikey.go", "parameters.go", "pgp/key_set.go", "pgp/signature.go"],
  [("range checks and truncation", "mnemonikey.go New")])
P("C11", "Key lifetime: accepted range and agreement everywhere",
  "A lifetime is accepted exactly when it is zero (no expiry) or between one second and 2^32-1 seconds. Zero puts no expiration in any signature; otherwise the key object's expiry is the creation second plus the lifetime in whole seconds, and the self-certification and every subkey binding sign exactly that lifetime.",
  I, "all lifetimes representable as a duration, including negative ones",
  "overflow and rounding of lifetimes only show at extreme or fractional values, which no test uses",
  ["mnemonikey.go", "key_options.go", "pgp/signature.go"],
  [("TTL check and expiry", "mnemonikey.go New"), ("key expiration subpacket", "pgp/signature.go")])
P("C13", "Exported keys are well-formed OpenPGP packet sequences",
  "Every binary export is a sequence of correctly framed version 4 packets in the order secret primary key, user ID, self-certification, then each selected subkey exactly once followed by its binding signature; all length fields match what follows, all integers are canonical, unprotected secrets carry the right checksum, and the user ID is the name, the email, or \"name <email>\" as given. This holds for every user ID length and every subkey selection and order, and the armored export carries exactly those bytes.",
  IC, "all keys, user IDs (up to 2^20 bytes), subkey selections, subkey orders, with and without lifetime",
  "length encodings and integer canonicalisation fail only for particular key values or user ID lengths (leading zero bits, 192- and 8384-byte boundaries)",
  ["pgp/packet.go", "pgp/mpi.go", "pgp/key_set.go", "pgp/user_id.go", "pgp/signature.go", "pgp/ecc_key.go"],
  [("packet framing", "pgp/packet.go"), ("MPI encoding", "pgp/mpi.go"), ("subkey order", "pgp/key_set.go")])
P("C14", "Every signature commits to the right keys, user ID and flags",
  "Each signature in an export is made by the exported key it names as issuer over the digest of exactly the exported public keys (and user ID) it is about together with its own hashed attributes, and its short hash prefix matches. The key flags are certify for the master key, encrypt, authenticate or sign for the respective subkey; a signing subkey's binding embeds a valid back-signature by that subkey.",
  IC, "all keys, user IDs, subkey selections and orders, with and without lifetime",
  "no test verifies signatures for more than a few keys, and a signature over the wrong data is only noticed by other software",
  ["pgp/sign.go", "pgp/signature.go", "pgp/key_set.go", "pgp/user_id.go"],
  [("signature hashing", "pgp/sign.go"), ("binding signatures and flags", "pgp/key_set.go, pgp/signature.go")])
P("C15", "Password-protected exports reveal secrets only under the password",
  "In an export made with a non-empty password every secret key packet is encrypted with AES-256 in the standard iterated-and-salted OpenPGP form (SHA-256, maximum iteration count), decrypting to exactly the secret of the unprotected export followed by its SHA-1 digest; everything else equals the unprotected export. Every packet's salt and initialisation vector consists of fresh bytes of the system random generator not shared with any other packet or export.",
  IC, "all keys, all non-empty passwords up to 2^20 bytes, all random values, full and subkey-only exports",
  "reuse of salts or leakage of secret bits cannot be seen in sampled outputs",
  ["pgp/s2k.go", "pgp/ecc_key.go", "pgp/key_set.go"],
  [("EncryptS2K", "pgp/s2k.go")])
P("C16", "Subkey-only export never contains the master secret",
  "The subkey-only export never contains the master key's secret, whatever the password and self-certification choice: the master key appears only as a secret-less stub, and no byte depends on the master secret other than through its public key, signatures or one-way digests. A self-certification is present exactly when requested, and every other packet equals its counterpart in the full export.",
  IC, "all keys, passwords, self-certification choices, subkey selections and orders",
  "absence of a secret from every possible output is not something sampled outputs can show",
  ["pgp/key_set.go", "mnemonikey.go", "pgp/ecc_key.go"],
  [("EncodeSubkeysPGP", "mnemonikey.go, pgp/key_set.go")])
P("C17", "Reported fingerprints are those of the exported keys",
  "The fingerprint reported for a key and for each of its subkeys is the SHA-1 version 4 fingerprint of the corresponding exported public key packet, for every subkey selection; for a subkey that was not selected no fingerprint is reported. The list of subkey types reported is exactly the selection.",
  IC, "all keys, indices, subkey selections",
  "agreement between two code paths for all keys; tests compare a few recorded fingerprints",
  ["mnemonikey.go", "pgp/ecc_key.go", "pgp/key_set.go"],
  [("FingerprintV4", "pgp/ecc_key.go"), ("SubkeyFingerprint", "mnemonikey.go")])

P("C05", "Library calls return errors instead of panicking or hanging",
  "No public function or method of the library panics or loops forever, whatever seed, integer, creation time, options, password, word list or random-source failure it is given: unusable input is reported as an error. This covers word lists of any content and the wrong length (including empty ones), negative and oversized integers, offsets and lifetimes, and empty or absent passwords.",
  I, "every public operation with arbitrary arguments; word lists of length 0-17 at selected lengths (thorough: 0-40)",
  "a panic or endless loop is triggered by inputs no test thought of; the analysis accounts for every bounds check, dereference, explicit panic and loop",
  ["bit_buffer.go", "recovery.go", "encoding.go", "mnemonic/encode.go", "mnemonic/decode.go", "pgp/s2k.go"],
  [("explicit panics", "bit_buffer.go"), ("index expressions", "recovery.go, mnemonic/*.go, pgp/*.go")])
P("C06", "An encrypted phrase gives the seed only to its password",
  "The words of an encrypted phrase depend on the seed only through encryption under a key derived from the password and a salt which is drawn anew from the given random source for every phrase, and never show the password itself. An empty or absent password is refused. A decoded encrypted phrase hands out a seed only when given a password whose derived verification bits match, and is never recovered as a plaintext phrase.",
  I, "all seeds, offsets, passwords, salts and 16-word phrases",
  "confidentiality is about every output for every seed; tests only see that decryption works",
  ["encoding.go", "recovery.go"],
  [("EncodeMnemonicEncrypted", "encoding.go"), ("DecryptSeed, Seed", "recovery.go")])
P("C08", "Options never alter key material; every key is separate",
  "For one seed and creation time, changing name, email, lifetime or the selection of subkeys changes no key, and changing one subkey's index changes no other key. No two keys of a set, and no two indices of one subkey type, share a derivation input.",
  IC, "all seeds, times, pairs of option values, all subkey selections, all pairs of 16-bit indices",
  "recovering with other options must give back the same keys for all seeds; tests compare single examples",
  ["derive.go", "key_options.go", "mnemonikey.go"],
  [("derivation info strings", "derive.go keyExpandInfoSubkey"), ("subkey selection", "key_options.go")])
P("C09", "Keys, phrases and exports are deterministic",
  "Fingerprints, times, user ID, plaintext phrase and unprotected exports (including the order of subkeys) are a function of seed, creation time and options alone; decoding and decrypting a phrase is a function of words and password alone. No clock, random generator, environment, map iteration order or number of earlier calls influences them.",
  ["inputs", "histories"], "all inputs; two derivations compared, with opposite map iteration orders",
  "nondeterminism may show once in many runs or only on other machines",
  ["derive.go", "pgp/key_set.go", "pgp/sign.go", "mnemonikey.go"],
  [("subkey shuffle", "pgp/key_set.go"), ("signature times", "pgp/sign.go")])
P("C12", "Seeds: exact domain, faithful, immutable, fully random",
  "A seed is made from exactly the known era and integers from 0 to 2^128-1, and always shows that integer and its 16 big-endian bytes, whatever the caller does later to the integer it passed in or to values it got back. A generated seed takes all 128 bits from the given random source, shares none with another seed, and is refused if the source fails.",
  ["inputs", "histories"], "all eras and integers of any sign and size; all random streams",
  "leading zero bytes, negative numbers and aliasing are not covered by sampled seeds",
  ["seed.go", "version.go"],
  [("NewSeed", "seed.go"), ("GenerateSeed", "seed.go")])
P("C18", "Operations leave shared state and existing objects unchanged",
  "No library operation changes package-level data or any seed, decoded phrase or key object that existed before, so that operations may be repeated in any order, and used from several goroutines at once, with the same results as in isolation.",
  ["inputs", "schedules", "histories"], "every public operation from arbitrary inputs",
  "races and order dependence need particular interleavings or call sequences to show",
  ["mnemonikey.go", "recovery.go", "seed.go", "mnemonic/encode.go", "pgp/ecc_key.go", "pgp/key_set.go"],
  [("accessors and exports", "mnemonikey.go, pgp/*.go")])
P("C19", "Caller's data is never modified and never aliased",
  "No library operation modifies a password, word list, options struct, integer or byte buffer passed to it, including a buffer's spare capacity. Overwriting such inputs or returned values afterwards does not change what keys, seeds and decoded phrases show, nor later phrases.",
  ["inputs", "histories"], "every public operation from arbitrary inputs; arbitrary overwriting afterwards",
  "aliasing shows only in a later step of a sequence of calls",
  ["mnemonikey.go", "recovery.go", "encoding.go", "mnemonic/decode.go", "pgp/encryption_subkey.go", "pgp/s2k.go"],
  [("inputs kept by reference", "mnemonikey.go New, pgp/*.go"), ("password handling", "recovery.go, pgp/s2k.go")])
P("C20", "An error comes without a result, a result without an error",
  "Every library operation that can fail returns a usable result exactly when it returns no error. A failing random source always makes seed generation and phrase encryption report an error and return nothing.",
  ["inputs", "fault_sequences"], "every public operation that returns an error, arbitrary inputs and random-source failures",
  "dropped errors only matter on fault paths the tests do not provoke",
  ["seed.go", "encoding.go", "recovery.go", "mnemonikey.go", "pgp/s2k.go"],
  [("error returns", "all packages")])
P("C32", "Integers, indices and words convert exactly both ways",
  "A non-negative integer of at most the given number of bits, and no other, is converted into the fewest 12-bit indices that hold that many bits, most significant first, without changing the integer; converting back returns the integer. Indices are accepted exactly when below 4096 and words exactly when listed, in any letter case; index and word correspond as in the word list.",
  I, "all integers at 8 phrase sizes between 0 and 168 bits (thorough: 60+ sizes), index and word lists of up to 14 (thorough: 16) arbitrary entries",
  "digit order, leading zeros and range limits must hold for every value",
  ["mnemonic/encode.go", "mnemonic/decode.go"],
  [("EncodeToIndices", "mnemonic/encode.go"), ("DecodeIndices, DecodeWords", "mnemonic/decode.go")])

# ---- the command-line program
CLI = "abstract interpretation of Go SSA from main (process model of terminal, files and clock)"
CMD = "cmd/mnemonikey/"
P("C21", "Standard output is exactly one armored key, or nothing",
  "When generating or recovering succeeds, standard output holds exactly one armored OpenPGP private key block and a final newline, whatever flags are given. In every other case - conversion, help, usage errors, invalid phrases and failures of the random source, files or terminal - nothing is written there; prompts, phrases and messages go elsewhere.",
  ["inputs", "configurations", "fault_sequences"], "over 20 ways to call the program (some with every flag at once) with arbitrary seeds, phrases, flag values, passwords and clock, with and without every combination of file and random-source faults; about 60 usage errors; about 75 invalid inputs",
  "output is piped into other programs; a stray or missing line on one fault or flag path escapes tests, which never run the program",
  [CMD+"main.go", CMD+"generate.go", CMD+"recover.go", CMD+"convert.go"],
  [("key output", CMD+"generate.go, "+CMD+"recover.go"), ("messages", CMD+"terminal.go")], technique=CLI)
P("C22", "Secrets leave the program only where the user asked",
  "The phrase is displayed only when generating or converting without an output file, and is otherwise written only to the output file that was named. Apart from that, the key on standard output and the echo of words while they are typed in, neither seed, private keys, passwords nor phrase words reach the terminal, a file, a file name, the environment, another program or the network, on success or failure, with or without verbose output.",
  ["inputs", "configurations", "fault_sequences"], "all flag scenarios, arbitrary secrets, faults, invalid phrases and wrong passwords",
  "a secret in an error message or verbose line shows only on particular paths, and no test inspects output",
  [CMD+"generate.go", CMD+"recover.go", CMD+"convert.go", CMD+"terminal.go", CMD+"word_input.go"],
  [("verbose output", CMD+"terminal.go printKeyDebugInfo"), ("error messages", CMD+"main.go")], technique=CLI)
P("C23", "The word file: new, private, complete, or an error",
  "The output word file is always newly created, readable and writable only by its owner; a file that already exists is never opened for writing, truncated, replaced or removed, and no other file is written. It holds exactly the words of the phrase separated by single spaces and ended by a newline. If it cannot be created, written or closed, the command fails and prints no key.",
  ["inputs", "configurations", "fault_sequences"], "all scenarios; any of existing file, open, write and close failures",
  "losing the only copy of a phrase needs a full disk or an existing file; the tests have neither",
  [CMD+"common_opts.go", CMD+"generate.go", CMD+"convert.go"],
  [("saveMnemonic", CMD+"generate.go")], technique=CLI)
P("C24", "The printed key is the one the flags ask for",
  "The key printed by generating or recovering is the library's key for the phrase's (or the new) seed and creation time and exactly the given name, email (both trimmed, name \"anonymous\" if not given), validity, selection of master key and subkeys, subkey indices, self-certification and key password. Index values above 65535 and unknown key types are refused.",
  ["inputs", "configurations"], "arbitrary phrase, name, email, validity, password and 16-bit indices, separately and all at once; 10 key selections and 17 malformed ones; positional arguments; any environment; plaintext and encrypted phrases",
  "a swapped or dropped flag silently gives another valid key; the tests never run the commands",
  [CMD+"common_opts.go", CMD+"generate.go", CMD+"recover.go"],
  [("flag definitions", CMD+"common_opts.go"), ("index checks", CMD+"recover.go"), ("key selection", CMD+"common_opts.go")], technique=CLI)
P("C25", "A validity period is taken exactly or refused",
  "A validity period given as a positive whole number and a unit - day, week, month of 730 hours, or year of 365 days, in either letter case - gives the key exactly that validity. Periods that do not fit the 32-bit number of seconds OpenPGP allows, however large the number, and texts of any other form are refused and no key is printed.",
  I, "all numbers from 1 to 2^64-1 with each unit; 22 malformed texts and arbitrary non-numeric ones",
  "overflow occurs only for particular magnitudes",
  [CMD+"expiry.go", CMD+"common_opts.go"], [("parseTTL", CMD+"expiry.go")], technique=CLI)
P("C26", "Every failure is reported by exit status and message",
  "The program ends with status 0 exactly if it did what was asked: any usage error, invalid phrase, failure of the random source, of reading input or of writing files gives a non-zero status and a message on standard error. It never panics or hangs, and a given phrase is accepted exactly if the library accepts it.",
  ["inputs", "configurations", "fault_sequences"], "201 contexts: all scenarios with and without faults, about 60 usage errors including any unknown command name, about 75 invalid inputs, arbitrary files of 14 and 16 words",
  "errors dropped on fault paths are invisible in tests without faults",
  [CMD+"main.go", CMD+"command.go", CMD+"generate.go", CMD+"recover.go", CMD+"convert.go", CMD+"common_opts.go", CMD+"word_input.go"],
  [("error returns", CMD+"*.go"), ("exit status", CMD+"main.go")], technique=CLI)
P("C27", "Passwords: hidden, confirmed, never empty; terminal restored",
  "Passwords are read without echo; a new password is used only after it was typed twice identically, and an empty one is asked for again or refused. When the program ends - normally, by an error, at the end of input or by Ctrl-C at any prompt - the terminal is in the mode it was found in, and interrupting prints no key and writes no file.",
  ["inputs", "histories", "crash_points"], "every scenario with passwords, Ctrl-C and end of input at each prompt, faults, 7 sequences of mistyped and empty passwords",
  "leaving a terminal without echo, or encrypting with a mistyped password, needs interaction no test performs",
  [CMD+"terminal.go", CMD+"common_opts.go", CMD+"word_input.go"],
  [("password prompts and interrupts", CMD+"word_input.go userInputPassword")], technique=CLI)
P("C28", "Interactive entry takes exactly the words entered",
  "When a phrase is typed in, the words used are exactly those the user submitted, in order, as completed on screen; going back with the left arrow replaces the previous words, corrections and ignored keys leave no trace, and unknown words or an unsupported version are refused and asked for again. Entry ends when the version of the first word says so, and giving up uses nothing and restores the terminal.",
  ["inputs", "histories"], "22 typing scripts with arbitrary letters (thorough: 113), giving up by Ctrl-C, Ctrl-D and end of input after any number of words, line input of 9 kinds with arbitrary lines",
  "the editor is driven by sequences of keys; no test drives it",
  [CMD+"word_input.go", CMD+"terminal.go"],
  [("raw-mode editor", CMD+"word_input.go"), ("line input", CMD+"word_input.go")], technique=CLI)
P("C29", "Help names every option and fits every terminal",
  "Asking for help prints the description of the command with every option it takes and ends with status 0, on a terminal of any width, zero included, and when the width is unknown. Descriptions are wrapped to the width of the terminal as far as single words allow, and no width makes the program panic or loop.",
  ["configurations"], "4 help texts, usage errors and the phrase display at 16 widths and unknown width (thorough: widths 0-260 and larger)",
  "widths at which wrapping never ends or divides by zero are rare",
  [CMD+"command.go", CMD+"terminal.go"],
  [("justifyWidth", CMD+"terminal.go"), ("usage text", CMD+"command.go")], technique=CLI)
P("C30", "The phrase handed out restores the key that was printed",
  "The phrase displayed or saved by generating encodes the seed and creation time of the very key that is printed, encrypted with the phrase password if one was asked for and in plaintext otherwise. Converting hands out a phrase of the kind asked for with the same seed and creation time as the phrase given. Displayed words are numbered from 1 in order.",
  ["inputs", "configurations"], "all generate and convert scenarios with arbitrary seeds, times, passwords and salts",
  "a phrase that restores another key is noticed only when the key is lost",
  [CMD+"generate.go", CMD+"convert.go", CMD+"common_opts.go"],
  [("phrase output", CMD+"generate.go printMnemonic, saveMnemonic"), ("conversion", CMD+"convert.go")], technique=CLI)
P("C31", "Randomness comes from the system unless explicitly replaced",
  "New seeds, phrase salts and key-encryption salts are drawn from the operating system's secure random source only. If another entropy source is explicitly named, the seed, and nothing else, comes from it; a source that cannot be opened or read makes the command fail.",
  ["inputs", "configurations", "fault_sequences"], "all generate scenarios with system source, entropy file and standard input; any failure of each draw",
  "weak randomness is indistinguishable from good in tests",
  [CMD+"generate.go", "seed.go", "encoding.go", "pgp/s2k.go"],
  [("entropy source selection", CMD+"generate.go")], technique=CLI)

# ---- not decided by this technique
N("C33", "Wrong passwords and mistyped words are noticed with good odds",
  "A phrase with one mistyped or two swapped words is rejected with probability at least 31/32, and so is a wrong phrase password.",
  I, "all phrases, all single-word errors and wrong passwords", "a probability over all errors, not a fact about examples",
  ["encoding.go", "recovery.go"], [("5-bit checksum and verification bits", "encoding.go")],
  "A statement about the distribution of CRC-32 and Argon2id outputs. No dataflow or lattice argument over the source bounds a collision probability; what can be decided statically (which bits enter the checksum, where it is compared, that a mismatch is refused) is decided under C03, C04 and C06.")
N("C34", "Guessing a seed or password is infeasible",
  "Recovering the seed from public keys or an encrypted phrase costs an attacker at least the work of guessing 128 bits or of one 512 MB Argon2id evaluation per password.",
  I, "all attackers", "computational hardness is not observable in tests",
  ["derive.go", "encoding.go"], [("Argon2id parameters", "derive.go"), ("HKDF", "derive.go")],
  "Computational hardness of Argon2id, HKDF, AES and elliptic curves is outside any static analysis of this source; that exactly these primitives are used with the specified parameters is decided under C02, C06 and C07.")
N("C35", "Exported keys are accepted by GnuPG and other implementations",
  "Every exported key can be imported and used by other OpenPGP implementations.",
  IC, "all keys, all implementations", "tests import a few keys into one implementation",
  ["pgp/packet.go", "pgp/key_set.go"], [("packet encoding", "pgp/*.go")],
  "The other side of the property is third-party software that is not part of the source analysed. Conformance of every packet to RFC 4880 as written is decided under C13-C17.")
N("C36", "Secrets do not stay in memory after use",
  "Seeds, passwords and private keys are erased from process memory once no longer needed.",
  ["histories"], "all executions", "memory contents after use are not visible to tests",
  ["seed.go", "derive.go"], [("big.Int and byte slices", "all packages")],
  "The library makes no attempt to erase (math/big and strings cannot be wiped) and does not promise to, so there is nothing to hold; what the Go runtime leaves in memory is not determined by the source.")
