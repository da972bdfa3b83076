#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Deciphering an enciphered file gives back the original bytes",
  "For every file and every supported choice of cipher, mode, entropy coder and level, message authentication hash, chunk size, key length and embedded or separate content properties, the encipher utility succeeds and the decipher utility run with the same keyring and passphrase recreates a file with exactly the original bytes and exits successfully (for a file that is itself gzip or bzip2 compressed, with automatic decompression turned off). This holds for every length, including empty files, exact multiples of the chunk and block sizes and files of several chunks, and for several files enciphered into one keyring.",
  ["inputs", "configurations", "histories"], "all file contents and lengths x all option combinations x sequences of files sharing one keyring",
  "The .tap tests encipher one README with each cipher or mode and then compare a file with itself; no other length, chunk size, MAC, key length or content is tried.",
  ["utilities/encipher.c", "utilities/decipher.c", "utilities/content.c", "wizard/cipher.c", "wizard/entropy.c"],
  [("chunk loop of encipher", "utilities/encipher.c EncipherFiles"), ("chunk loop of decipher", "utilities/decipher.c DecipherFiles"), ("content properties", "utilities/content.c GetContentInfo/PrintContentInfo")],
  ["bytes of the deciphered file", "exit status of both utilities"])
p("C02", "Altered ciphertext is never passed off as authentic plaintext",
  "When a file is enciphered with a message authentication hash and any bytes of the result are then changed, inserted, removed, moved or repeated or the file is cut short anywhere, deciphering with the right key either reports failure through a nonzero exit status or produces exactly the original plaintext; it never exits successfully having produced different content. The same holds when the embedded or separate content properties are altered.",
  ["inputs", "fault_sequences"], "all single and multiple byte changes, deletions, truncations, insertions and rearrangements of any enciphered file under any configuration",
  "No existing test alters a ciphertext.",
  ["utilities/decipher.c", "utilities/content.c", "wizard/hmac.c", "wizard/entropy.c"],
  [("per-chunk message authentication code", "utilities/decipher.c HMAC comparison"), ("digest over the content properties", "utilities/content.c GetContentInfo")],
  ["exit status", "deciphered bytes"])
p("C03", "Only the right passphrase with the right keyring opens a content",
  "Deciphering with any passphrase (without NUL bytes) other than the one used to encipher, or with a keyring that does not hold the content's key, fails with a nonzero exit status and does not reproduce the plaintext. Two encipherments of the same file never produce the same ciphertext.",
  ["inputs", "histories"], "all pairs of distinct passphrases, keyrings and enciphered files",
  "Tests only ever use the one right passphrase.",
  ["wizard/secret.c", "wizard/authenticate.c", "utilities/decipher.c", "utilities/encipher.c"],
  [("key derivation from passphrase and stored nonce", "wizard/secret.c AuthenticateSecretKey"), ("content digest", "wizard/authenticate.c AuthenticateKey")],
  ["exit status", "deciphered bytes", "ciphertext bytes"])
p("C04", "A utility that could not store its output reports failure",
  "When any write of the encipher, decipher or digest utilities fails or is cut short (device full, file size limit) at any offset of the output, keyring or content properties file, the utility exits with a nonzero status. A zero exit status always means the complete result is on disk: the original can be recovered by deciphering it.",
  ["fault_sequences", "crash_points", "inputs"], "all files and configurations x all offsets at which the file system refuses further bytes",
  "No test injects a write failure.",
  ["utilities/encipher.c", "utilities/decipher.c", "wizard/blob.c", "wizard/keyring.c", "wizard/file.c"],
  [("write result checks", "utilities/encipher.c WriteBlobChunk/WriteBlob callers"), ("close status", "wizard/blob.c DestroyBlob/CloseBlob")],
  ["exit status", "file contents"])
p("C05", "The digest utility authenticates unchanged files and detects any change",
  "A digest document written for any set of files records, for every supported hash, the published hash of each file's contents. Authenticating it succeeds and lists nothing while every listed file still has the same bytes; otherwise it lists exactly the files whose bytes differ, with the recorded and the current digest, and it ends with a nonzero exit status when a listed file has disappeared.",
  ["inputs", "histories", "configurations"], "all sets of files, contents and hashes x all later modifications",
  "The .tap tests record and check unchanged files only, with exit status only.",
  ["utilities/digest.c", "wizard/hash.c", "wizard/xml-tree.c"],
  [("digest document writer and reader", "utilities/digest.c DigestFiles/AuthenticateDigest")],
  ["digest document", "exit status"])
p("C06", "Message digests equal the published functions however the input is fed",
  "For every message, the CRC-64, MD5, SHA-1, SHA-2 and Keccak/SHA-3 digests equal the published definition (for SHA-3 the original Keccak padding this library documents by its test vectors). The result does not depend on how the message is split into updates, on copies or resets of the digest object, or on other digest objects in use.",
  ["inputs", "histories", "configurations"], "all messages of every length x all splits into updates x all hashes",
  "Fixed vectors of a few dozen short messages fed in one update; one SHA-2 variant and all padding boundaries are not covered.",
  ["wizard/hash.c", "wizard/crc64.c", "wizard/md5.c", "wizard/sha1.c", "wizard/sha2224.c", "wizard/sha2256.c", "wizard/sha2384.c", "wizard/sha2512.c", "wizard/sha3.c", "wizard/signature.c"],
  [("buffering of partial blocks and length counters", "Update*/Finalize* of each hash"), ("dispatch", "wizard/hash.c")],
  ["digest bytes", "digest and block size queries"])
p("C07", "Keyed message authentication codes equal the published HMAC construction",
  "For every hash, key of any length and message fed in any pieces, the code equals the HMAC construction over that hash with its block size. Reinitialising gives the same result again, and changing a byte of key or message changes the code.",
  ["inputs", "histories", "configurations"], "all keys (shorter, equal, longer than a block) x all messages x all splits x all hashes",
  "Fixed vectors for three hashes and one-shot updates.",
  ["wizard/hmac.c", "wizard/hash.c"], [("inner/outer key pads and long-key hashing", "wizard/hmac.c InitializeHMAC")],
  ["code bytes"])
p("C08", "Ciphers compute the published algorithms in every mode",
  "For every key, nonce and plaintext, the ciphertext of the AES, Serpent and Twofish ciphers equals the published block cipher applied in the chosen mode (ECB, CBC, CFB with 8-bit feedback, OFB, CTR with big-endian counter), and Chacha equals its published 20-round block function. Keys of other than a published size are always padded or cut to one in the same way, whatever key was set before.",
  ["inputs", "configurations"], "all keys, nonces and plaintexts x ciphers x modes",
  "Fixed vectors for CBC/CTR/ECB on a handful of plaintexts; CFB, OFB, counter carry and most key sizes are never reached.",
  ["wizard/aes.c", "wizard/serpent.c", "wizard/twofish.c", "wizard/chacha.c", "wizard/cipher.c"],
  [("block functions and key schedules", "wizard/aes.c, serpent.c, twofish.c, chacha.c"), ("mode chaining", "wizard/cipher.c Encipher*Mode/Decipher*Mode")],
  ["ciphertext bytes"])
p("C09", "Deciphering inverts enciphering for every cipher object and history",
  "For every cipher, mode, key, nonce and message length, deciphering what was enciphered under the same key and nonce returns the original message, on the same cipher object or another one, in any interleaving with other operations. Enciphering under the same key and nonce is deterministic and leaves the key and nonce of the object unchanged.",
  ["inputs", "histories", "configurations"], "all cipher/mode/key/nonce/length combinations x all operation histories over several cipher objects",
  "Existing tests round-trip a few fixed vectors with a fresh object each.",
  ["wizard/cipher.c"], [("padding, chaining registers and restart from the nonce", "wizard/cipher.c EncipherCipher/DecipherCipher")],
  ["message bytes", "returned nonce"])
p("C10", "Entropy coders restore exactly the data they reduced",
  "For every data and every level, restoring with the same coder the output of increasing its entropy (ZIP, BZIP, LZMA or none) returns exactly the original data. The recorded chaos/length information is consistent with the data.",
  ["inputs", "configurations"], "all byte strings (empty, tiny, incompressible, highly repetitive, hundreds of kilobytes) x coders x levels",
  "One fixed text at one level per coder.",
  ["wizard/entropy.c", "wizard/zip.c", "wizard/bzip.c", "wizard/lzma.c"],
  [("compress/uncompress wrappers", "wizard/zip.c, bzip.c, lzma.c"), ("chaos length", "wizard/entropy.c")],
  ["restored bytes", "status"])
p("C11", "A damaged compressed stream is reported, never silently accepted",
  "Restoring a truncated or altered compressed stream with the ZIP, BZIP or LZMA coder either returns a failure status or returns exactly the original data, and never touches memory outside its buffers.",
  ["inputs", "fault_sequences"], "all truncations and byte changes of any compressed stream, and arbitrary bytes presented as one",
  "No test presents a damaged stream.",
  ["wizard/zip.c", "wizard/bzip.c", "wizard/lzma.c", "wizard/entropy.c"],
  [("stream end and checksum status checks", "RestoreZIP/RestoreBZIP/RestoreLZMA")],
  ["status", "restored bytes"])
p("C12", "Random keys are fresh, of the requested size, and never repeat",
  "Every key drawn from a random generator has exactly the requested length and, across any history of draws, sizes, generator objects and seeding, neither a whole key nor any 8-byte window of one repeats an earlier one, and the bits are balanced. A generator given an explicit secret seed yields the same pseudo-random values each time, within [0,1].",
  ["histories", "inputs", "configurations"], "all sequences of key requests and sizes over several generators, hashes and saved reservoirs",
  "Tests draw a few values and check only that calls succeed.",
  ["wizard/random.c"], [("reservoir and HMAC counter output", "wizard/random.c SetRandomKey"), ("pseudo-random generator", "wizard/random.c GetPseudoRandomValue")],
  ["key bytes", "pseudo-random values"])
p("C13", "A stored secret key is recovered only with its id and passphrase",
  "A key generated for a passphrase and stored in a keyring is returned identically by every later authentication with the same keyring, id and passphrase, in this or another process, whatever other keys were added since. Authentication with another passphrase, an unknown id, or an altered stored key fails, distinct generated secrets are distinct, and the keyring never holds a key in the clear or two keys under one keystream.",
  ["histories", "inputs"], "all sequences of generate/authenticate operations with several passphrases and ids over one keyring",
  "One generate/authenticate pair with one passphrase.",
  ["wizard/secret.c", "wizard/authenticate.c", "wizard/keyring.c"],
  [("nonce and id stored in the keyring", "wizard/secret.c GenerateSecretKey"), ("key derivation", "wizard/secret.c AuthenticateSecretKey")],
  ["derived key", "status"])
p("C14", "A keyring file returns every key ever added to it, unchanged",
  "After any history of importing keys into a keyring file, exporting by an id returns exactly the id, key and nonce imported under it, exporting an id that was never imported fails, importing an id already present is refused and changes nothing, and the listing names each key once. This holds whatever the bytes and lengths of ids, keys and nonces, and when the file is reopened.",
  ["histories", "inputs"], "all sequences of import/export/list with arbitrary ids, keys and nonces",
  "The utilities' tests add keys and check exit status.",
  ["wizard/keyring.c", "wizard/file.c"], [("record format", "wizard/keyring.c ImportKeyringKey/ExportKeyringKey"), ("chunk primitives", "wizard/file.c")],
  ["exported id, key, nonce", "status", "listing"])
p("C15", "A damaged keyring or random reservoir file is an error, not a crash",
  "Whatever bytes a keyring file or random reservoir file holds (truncated, altered, foreign, empty), opening, exporting from, importing into and listing it terminate with a status and never crash, hang or read outside memory. A key is never returned for an id whose record was cut off.",
  ["inputs", "fault_sequences"], "all byte contents of keyring and reservoir files, in particular all truncations and byte changes of valid ones",
  "Tests only read files they wrote.",
  ["wizard/keyring.c", "wizard/random.c", "wizard/file.c"], [("header, signature and length checks", "wizard/keyring.c ExportKeyringKey"), ("reservoir reader", "wizard/random.c ReadRandomReservoir")],
  ["status", "process exit"])
p("C16", "Concurrent processes sharing a keyring lose and corrupt nothing",
  "When several processes import keys into the same keyring file at the same time, every import that reported success is found afterwards with its exact key and the file stays well formed. At any moment at most one process holds the file, a waiting process gets it when it is released, and a lock left by a dead process does not block later users for good.",
  ["schedules", "histories", "crash_points"], "all interleavings of several processes' imports and exports, including processes killed while holding the file",
  "All tests are sequential.",
  ["wizard/file.c", "wizard/keyring.c"], [("lock file", "wizard/file.c AcquireFileLock/RelinquishFileLock")],
  ["exported keys", "status of imports"])
p("C17", "The in-memory key map returns exactly the keys put into it",
  "After any history of setting keys under ids in a key map, getting an id returns exactly the latest key set for it, whatever the bytes and lengths of ids and keys, and ids that differ only partly are never confused.",
  ["histories", "inputs"], "all sequences of set/get with arbitrary ids and keys",
  "One key is set and read back.",
  ["wizard/key.c", "wizard/hashmap.c"], [("session-key enciphered hash map", "wizard/key.c SetKeyInfo/GetKeyInfo")],
  ["returned key bytes"])
p("C18", "Counted strings behave as byte sequences under every operation history",
  "Any sequence of creating, setting, concatenating, splitting, resizing, resetting, cloning and comparing counted byte strings gives the lengths, bytes and ordering that the same operations give on plain byte sequences, with clones independent of their originals and no access outside the buffers.",
  ["histories", "inputs"], "all operation sequences over several strings with arbitrary bytes and lengths",
  "One test of string creation.",
  ["wizard/string.c"], [("length/capacity bookkeeping", "wizard/string.c StringInfo functions")],
  ["bytes", "length", "comparison result"])
p("C19", "Text string utilities follow their definitions and stay within buffers",
  "Bounded copy and concatenation never write beyond the given size, always terminate, and keep exactly the longest fitting prefix; case-insensitive comparison is a consistent total order; substitution, stripping, joining and splitting into words give the result their definition gives, for all strings.",
  ["inputs"], "all strings, buffer sizes, delimiters and replacement texts",
  "No test covers them.",
  ["wizard/string.c", "wizard/locale.c"], [("CopyWizardString, ConcatenateWizardString, SubstituteString, StringToArgv, LocaleCompare ...", "wizard/string.c")],
  ["resulting strings"])
p("C20", "Hex and base64 text encodings restore the encoded bytes",
  "Decoding the hexadecimal or base64 text of any byte string returns exactly those bytes; the base64 text equals the standard encoding and decoding tolerates embedded white space; base64 text that is malformed (foreign characters, wrong padding, left over bits) is refused, and decoding arbitrary text stays within its buffers.",
  ["inputs"], "all byte strings and all texts",
  "Only exercised indirectly on fixed test vectors.",
  ["wizard/utility.c", "wizard/string.c"], [("Base64Encode/Base64Decode", "wizard/utility.c"), ("StringInfoToHexString/HexStringToStringInfo", "wizard/string.c")],
  ["encoded and decoded bytes"])
p("C21", "Linked lists behave as sequences under every operation history",
  "Any history of appending, inserting at a position or in order, removing by position or value, reading, iterating, clearing and copying to an array gives the values, order and element count the same operations give on a sequence, respecting the capacity limit.",
  ["histories", "inputs"], "all operation sequences and list sizes",
  "Lists are exercised only by the library's own appends.",
  ["wizard/hashmap.c"], [("head/tail/next links and count", "wizard/hashmap.c *LinkedList functions")],
  ["returned values", "count", "iteration order"])
p("C22", "Hash maps behave as key-to-value maps under every operation history",
  "Any history of putting, replacing, getting, removing and iterating gives the values, entry count and set of entries that a key-to-value map gives, across growth of the table and for every key type; replaced and removed keys and values are released exactly once.",
  ["histories", "inputs"], "all operation sequences, key sets (with colliding keys) and initial capacities",
  "Only the key map test uses a map, with one entry.",
  ["wizard/hashmap.c"], [("bucket lists, growth, entry count", "wizard/hashmap.c PutEntryInHashmap/RemoveEntryFromHashmap/IncreaseHashmapCapacity")],
  ["returned values", "count", "iteration"])
p("C23", "Splay trees behave as ordered maps under every operation history",
  "Any history of adding, replacing, getting, deleting, removing by key or value, cloning, resetting and iterating gives the values, node count and ascending iteration order that an ordered map gives, for every tree shape and size; keys and values are released exactly once.",
  ["histories", "inputs"], "all operation sequences, key orders (ascending, descending, random) and sizes beyond the balancing depth",
  "Exercised only through the locale cache with a few keys.",
  ["wizard/splay-tree.c"], [("rotation, balancing, iterator", "wizard/splay-tree.c Splay/BalanceSplayTree/IterateOverSplayTree")],
  ["returned values", "count", "iteration order"])
p("C24", "XML documents parse to their elements and survive a round trip",
  "A well-formed document parses to a tree with exactly its elements, order, attributes, character data and processing instructions, with references and CDATA expanded, and malformed nesting is rejected. Writing a tree of ASCII text out and parsing it again gives the same tree, and building, inserting, moving and pruning elements keep the sibling order and lookups consistent.",
  ["inputs", "histories"], "all well-formed documents over the supported syntax and all tree editing histories",
  "No XML test exists.",
  ["wizard/xml-tree.c"], [("parser", "wizard/xml-tree.c NewXMLTree"), ("writer", "wizard/xml-tree.c XMLTreeInfoToXML"), ("sibling/ordered links", "wizard/xml-tree.c InsertTagIntoXMLTree/PruneTagFromXMLTree")],
  ["tree content, attributes, order", "serialised text"])
p("C25", "XML parsing of arbitrary text terminates without memory errors",
  "Parsing any text, whatever its bytes and declarations (entities that multiply by nesting aside), ends with a tree or a reported error and never crashes, hangs or accesses memory outside its buffers; the same holds for escaping and unescaping arbitrary content and for path lookups.",
  ["inputs"], "all byte strings as documents, contents and paths",
  "Only well-formed configuration files are parsed.",
  ["wizard/xml-tree.c"], [("bounds and nesting checks", "wizard/xml-tree.c ParseEntities/ParseInternalDoctype/NewXMLTree")],
  ["process exit"])
p("C26", "Blob streams read back exactly what was written at every position",
  "For plain, mapped and compressed files, any history of writing, reserving room, reading in pieces and asking for size, offset and end of file gives the bytes and positions of a plain byte file; compressed streams restore the written bytes; whole-file helpers return exactly the leading bytes of the file or FIFO up to the given limit.",
  ["histories", "inputs", "configurations"], "all sequences of reads, writes and seeks over every stream type and size (including the mapping threshold)",
  "Only used through the utilities on one file.",
  ["wizard/blob.c"], [("stream dispatch and offsets", "wizard/blob.c OpenBlob/ReadBlob/WriteBlob"), ("mapping of large files", "wizard/blob.c MapBlob")],
  ["bytes", "offset", "EOF flag"])
p("C27", "Binary file primitives store integers and chunks portably and exactly",
  "A sequence of 16-, 32- and 64-bit values, counted chunks and raw bytes written to a file is read back identically in the same order, in the documented little-endian layout, also when the system moves fewer bytes than asked or interrupts. A read that meets the end of the file or an error reports failure instead of a value, and files created this way are private to their owner.",
  ["histories", "inputs"], "all sequences of values and chunks and all truncations of the file",
  "Only exercised by keyring tests.",
  ["wizard/file.c"], [("byte order and short read handling", "wizard/file.c ReadFile*/WriteFile*")],
  ["values", "bytes on disk", "status"])
p("C28", "Time stamps survive formatting and parsing in every time zone",
  "Formatting any time and parsing the text again gives the same time, in every time zone including those with minute offsets, and the formatted text denotes that instant. A deciphered file carries the modification time the content properties record.",
  ["inputs", "configurations"], "all representable times x all time zones",
  "No test covers time stamps.",
  ["wizard/string.c", "wizard/utility.c", "utilities/decipher.c"], [("FormatWizardTime", "wizard/string.c"), ("ParseWizardTime", "wizard/utility.c")],
  ["formatted text", "parsed time", "file modification time"])
p("C29", "Glob patterns match exactly the texts they denote",
  "For every pattern made of literals, '?', '*', character sets with ranges and brace alternatives, and every text, the matcher answers true exactly when the text is in the language the pattern denotes, with letter case ignored only on request; matching arbitrary pattern bytes terminates without memory errors. A file name is taken for a pattern exactly when it holds a pattern character and no such file exists.",
  ["inputs"], "all patterns and texts",
  "No test covers patterns.",
  ["wizard/token.c"], [("matcher", "wizard/token.c GlobExpression")], ["match result"])
p("C30", "MIME lookups follow the type map for every name and content",
  "For any type map, file name and leading bytes, the reported type is that of the entry whose name pattern (when a name is given) or else whose signature matches, the lowest priority number winning and the later entry on a tie, and the answer does not depend on earlier lookups. Signatures match text within a range or numbers in their byte order under a mask; lookups never read beyond the given bytes, and maps may be spread over several and included files.",
  ["inputs", "histories"], "all file names, leading bytes and lookup histories",
  "A few fixed names and magics.",
  ["wizard/mime.c", "config/mime.xml"], [("pattern and magic evaluation", "wizard/mime.c GetMimeInfo")], ["reported type"])
p("C31", "Path components reassemble to the path they came from",
  "For every path, the reported root, head, tail, base name and extension are the parts POSIX path syntax defines (a bracketed sub-node suffix and an existing file system prefix before a colon reported apart), and head, tail, base name and extension join to the path again. Chopping components or appending an extension affects only that part, and results never exceed the fixed path size.",
  ["inputs"], "all paths, including dots, repeated and trailing separators and over-long ones",
  "No test covers path handling.",
  ["wizard/utility.c"], [("GetPathComponent, AppendFileExtension, ChopPathComponents", "wizard/utility.c")], ["components"])
p("C32", "Option names and values convert both ways without ambiguity",
  "Every option name listed for a table parses to its value, ignoring letter case and hyphens or underscores within it, and the name printed for a value parses back to it. Comma separated lists parse to the union of their members in order, with '!' taking a member out again; a word that is no name of the table is rejected as unknown, and a table's listing holds exactly its public names.",
  ["inputs", "configurations"], "all tables, spellings, lists and arbitrary texts",
  "Utilities use a dozen spellings.",
  ["wizard/option.c"], [("ParseWizardOption and mnemonics", "wizard/option.c")], ["parsed value", "printed name"])
p("C33", "Resource accounting is exact and temporary files never outlive their use",
  "Over any history of acquiring and relinquishing resources, the reported usage equals the outstanding amount, a request is granted exactly when it keeps the usage below the limit (the area limit holds for each request alone), and refused requests change nothing. Every temporary file is unique and exists until released; it is gone after release or shutdown, unless it was released to be kept.",
  ["histories", "inputs", "fault_sequences"], "all sequences of acquire/relinquish/limit changes and temporary file operations",
  "No test covers resource limits.",
  ["wizard/resource.c"], [("usage counters and limits", "wizard/resource.c AcquireWizardResource/RelinquishWizardResource"), ("temporary file registry", "wizard/resource.c AcquireUniqueFileResource/RelinquishUniqueFileResource")],
  ["usage", "grant status", "files on disk"])
p("C34", "Memory requests are overflow safe, aligned and preserve contents",
  "An allocation request whose count times size overflows fails cleanly instead of returning a short block; granted blocks are fully usable, aligned when requested, keep their contents when resized, and overlapping copies move the right bytes; large virtual requests obey the resource limits and give back what they took.",
  ["inputs", "histories", "fault_sequences"], "all counts, sizes and sequences of allocation, resizing, copying and release under any limits",
  "Two allocations of fixed size.",
  ["wizard/memory.c", "wizard/resource.c"], [("overflow check and virtual memory accounting", "wizard/memory.c")], ["pointer, contents, resource usage"])
p("C35", "Exceptions are recorded, inherited and delivered exactly once and in order",
  "Every warning or error thrown is recorded with its severity, reason and description, repeated identical ones once; inheriting copies all records to the other exception object; catching delivers each record to the warning, error or fatal handler of its own severity, once and in order, and leaves the object empty.",
  ["histories", "inputs"], "all sequences of throw, inherit, catch and clear over several exception objects",
  "No test covers exceptions.",
  ["wizard/exception.c"], [("exception list", "wizard/exception.c ThrowException/CatchException/InheritException")], ["handler calls", "severity"])
p("C36", "Tokenizing makes progress, stays in bounds and loses no characters",
  "Scanning any text token by token reaches its end in finitely many steps, and every token fits the given size. Numbers, words, quoted texts with escapes, punctuation and parenthesised words are returned as exactly that, one after the other, and looking ahead consumes nothing.",
  ["inputs"], "all texts, token sizes and break/quote/escape sets",
  "No test covers the tokenizers.",
  ["wizard/token.c"], [("GetNextToken, Tokenizer", "wizard/token.c")], ["tokens", "position"])
p("C37", "Utilities given arbitrary files end with a status, not a crash or hang",
  "Whatever bytes an input file holds (random, foreign, truncated or altered enciphered files, crafted content properties, digest documents or keyrings), every utility terminates with an exit status and an error report and never crashes, loops forever or accesses memory outside its buffers.",
  ["inputs", "configurations"], "all input files x utilities x options",
  "Utilities are only run on well-formed inputs.",
  ["utilities/decipher.c", "utilities/cipher-info.c", "utilities/content.c", "utilities/digest.c", "utilities/keyring.c"],
  [("content property parser", "utilities/content.c GetContentInfo"), ("digest document parser", "utilities/digest.c AuthenticateDigest")],
  ["exit status", "signals"])
p("C38", "Concurrent use of shared containers and services gives serial results",
  "When several threads use the same list, map, tree, random generator, resource counters, temporary files or lookup tables at once, no operation is lost, duplicated or torn: the final contents, counts and results are those of some serial order.",
  ["schedules", "histories"], "all interleavings of several threads' operations",
  "All tests are single threaded.",
  ["wizard/hashmap.c", "wizard/splay-tree.c", "wizard/random.c", "wizard/resource.c", "wizard/mime.c", "wizard/locale.c", "wizard/semaphore.c"],
  [("semaphores around shared state", "wizard/semaphore.c and each module")], ["final contents and counts"])
p("C39", "Numbers are formatted and read the same in every locale",
  "Formatting and interpreting numbers gives the same text and value whatever locale the application has set, formatted text fits the given size and is terminated, the text of a size or number reads back to the same value, and SI and binary prefixes scale by their power.",
  ["inputs", "configurations"], "all numbers, precisions, prefixes, buffer sizes and locales",
  "Tests run in the C locale with fixed values.",
  ["wizard/locale.c", "wizard/string.c"], [("C locale formatting", "wizard/locale.c FormatLocaleStringList/InterpretLocaleValue"), ("InterpretSiPrefixValue, FormatWizardSize", "wizard/string.c")], ["text", "value"])
p("C40", "Log events are written once when enabled and never when disabled",
  "An event whose type is in the current log mask is written exactly once with its text, file, function, line and domain as the format asks, one outside the mask is not written, changing mask, format or destination takes effect for the following events, and texts of any length and content are handled without memory errors.",
  ["histories", "inputs", "configurations"], "all sequences of mask, format and event calls with arbitrary texts",
  "One log initialisation test.",
  ["wizard/log.c"], [("event mask test and format translation", "wizard/log.c LogWizardEventList/TranslateEvent")], ["log output"])
p("C41", "Configuration values and messages are what the searched files define",
  "A configuration value is that of the first definition in search order (environment path, user directories, included files before their includer), whatever was looked up before; a message tag yields the text the active locale's files define, or the tag itself when none does. Lists hold each visible entry matching the pattern, sorted, and no damaged file crashes the lookup.",
  ["inputs", "histories", "configurations"], "all search paths, configuration and locale files, includes and lookup histories",
  "Tests look at a few known entries in the shipped files.",
  ["wizard/configure.c", "wizard/locale.c"],
  [("search path", "wizard/configure.c GetConfigurePaths"), ("configuration cache", "wizard/configure.c LoadConfigureCache/GetConfigureInfo"), ("locale cache", "wizard/locale.c LoadLocaleCache/GetLocaleMessage")], ["values", "lists", "messages"])
p("C42", "The keyring and cipher-info utilities report exactly what files hold",
  "For each enciphered file named, the report states the cipher, mode, key and authentication settings, nonce, key id and dates it was made with, independent of other files; a keyring listing names each key once with its keyring and nonce, and exporting adds exactly the requested key, usable to decipher, without changing the source. The exit status is zero only when every file was sound and the key was found.",
  ["histories", "inputs", "configurations"], "all enciphered files, options, keyrings and sequences of reports and exports",
  "The utilities' tests only check that they run.",
  ["utilities/cipher-info.c", "utilities/keyring.c", "utilities/content.c", "wizard/keyring.c"],
  [("report", "utilities/content.c GetContentInfo/PrintCipherProperties"), ("listing and export", "utilities/keyring.c, wizard/keyring.c")], ["report", "listing", "exported keyring", "exit status"])
p("C43", "Destroyed objects leave no memory and no open descriptors behind",
  "Whatever sequence of operations lists, maps, trees, strings, XML documents, digests, ciphers, coders, random generators, keys, keyrings, secrets, streams, exceptions and lookups go through, including operations that fail and input that is missing, malformed or damaged, destroying what was handed out gives back all memory and closes all descriptors. Repeating the same work therefore does not make the process grow, also when the library is ended and started again.",
  ["histories", "inputs", "fault_sequences"], "all histories of operations on all objects, with sound and damaged input",
  "Tests run each operation once in a process that ends; nothing measures what stays allocated.",
  ["wizard/hashmap.c", "wizard/string.c", "wizard/xml-tree.c", "wizard/hash.c", "wizard/cipher.c", "wizard/entropy.c", "wizard/zip.c", "wizard/bzip.c", "wizard/lzma.c", "wizard/keyring.c", "wizard/secret.c", "wizard/blob.c", "wizard/file.c", "wizard/exception.c"],
  [("destroy functions", "Destroy* of every module"), ("early returns", "error paths of wizard/keyring.c, wizard/xml-tree.c, wizard/zip.c, wizard/bzip.c, wizard/blob.c")], ["memory in use", "open descriptors"])
p("C44", "Enciphered files reveal neither their content nor repetitions in it",
  "Under a secret cipher and in every mode but ECB, no two blocks of a file, nor of two files enciphered with the same keyring and passphrase, are enciphered with the same keystream, so that equal stretches of plaintext at different places never show as equal stretches of ciphertext or as equal authentication codes. No part of the plaintext or of the passphrase occurs in the enciphered file, its content properties, the keyring or the random reservoir.",
  ["inputs", "histories", "configurations"], "all contents, repetitive ones above all, under every cipher, mode, chunk size and coder, and all sequences of files of one keyring",
  "Tests encipher and decipher; none looks at the enciphered bytes.",
  ["utilities/encipher.c", "utilities/content.c", "wizard/cipher.c", "wizard/keyring.c", "wizard/random.c", "wizard/hmac.c"],
  [("nonce of each chunk", "utilities/content.c SetContentNonce"), ("nonce of each content", "utilities/encipher.c"), ("mode chaining", "wizard/cipher.c Encipher*Mode")], ["enciphered bytes", "authentication codes", "keyring and reservoir files"])
p("C45", "A typed passphrase is taken exactly, never shown, and the terminal restored",
  "A passphrase typed at the terminal is the bytes of the line, asked for until two lines in succession agree; while it is typed the echo is off, and nothing typed is ever shown. Whether the phrase is given, no terminal is there (an error), or typing is stopped or ended by a signal at any point, the terminal's settings, signal handling, memory and open descriptors are afterwards as before, and a terminating signal ends the process. Typing a passphrase and keeping it in a file are interchangeable.",
  ["inputs", "histories", "schedules"], "all lines typed, all sequences of differing lines, all terminal settings, and signals at any prompt",
  "The tests have no terminal; they always name a passphrase file.",
  ["wizard/passphrase.c", "utilities/encipher.c", "utilities/decipher.c"],
  [("reading a line", "wizard/passphrase.c GetPhrase"), ("asking twice", "wizard/passphrase.c GetPassphrase")], ["phrase returned", "what the terminal shows", "terminal settings", "signal handling", "exit status"])
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(root, "properties.jsonl")
P = [x for x in P if os.path.exists(root + "/props/%s.cc" % x["id"])]   # in step with the claims
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
