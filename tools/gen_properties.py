import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
K="signify/key.go";S="signify/signature.go";C="signify/common.go";X="crypto/crypto.go";B="base64/coding.go";M="cmd/psignify/main.go";E="signify/internal/edwards25519/edwards25519.go"

p("C01","Every signature that signing produces verifies",
 "For every message (any bytes, any length, including empty) and every key pair made by key generation, with or without a passphrase, signing succeeds and verification with the matching public key accepts the result. This holds through the library and the command, for the default <message>.sig path and for an explicit signature path, for any file and directory names (also with spaces, line breaks or bytes that are no text), and when the signature file replaces an older, longer one.",
 ["inputs","configurations"],"all message contents and lengths x plain/passphrase keys and round counts x passphrases x path spellings x pre-existing output files x library/CLI",
 "TestSign signs one 1 KB text file once with one fixed passphrase-protected key at the default path; nothing covers other lengths, keys, paths or a replaced output.",
 [K,S,C,M],[("Sign reads the whole message, signs and encodes",K+":Sign"),("Verify re-reads the three files and checks",K+":Verify"),("data file encoder/decoder",C)],
 observe=["signify.Sign / signify.Verify return values","exit status of psignify -S / -V","bytes of the .sig file"])

p("C02","Verification accepts only authentic signatures on the exact message",
 "Verification succeeds only if the public key and the signature both carry the Ed25519 tag, their key numbers are equal, and the 64-byte signature is a valid Ed25519 signature under that public key over exactly the message file's bytes. Any change to the message, to the tag, key number or signature bytes, or the use of another public key makes verification fail; the text of the untrusted comment has no influence on the verdict.",
 ["inputs"],"all triples (public key file, message file, signature file), in particular every single-bit change, splice, extension and truncation of a genuine triple",
 "No existing test contains a signature that must be rejected: TestLoadKey and TestSign only check that good ones pass, so an accept-everything verifier passes the suite.",
 [K,S,C],[("tag, key number and Ed25519 checks",K+":verifyEd25519"),("signature record decoding",S+":readSignatureData")],
 observe=["signify.Verify return value","exit status and stdout of psignify -V"])

p("C03","Keys and signatures are exchangeable with OpenBSD signify, both ways",
 "Every key and signature file written consists of exactly one 'untrusted comment: ' line and one line of standard base64 encoding signify's fixed record (Ed tag, then for secret keys BK tag, big-endian KDF rounds, 16-byte salt, first 8 bytes of SHA-512 of the 64-byte key, 8-byte key number, key XORed with bcrypt_pbkdf of the passphrase if rounds > 0); a signature holds the secret key's key number and the deterministic Ed25519 signature of the raw message bytes, and its comment reads 'verify with <secret key file name without .sec>.pub' (where that name has line breaks, with something else in their place). Conversely files laid out this way by any other implementation, with any round count and any comment text, are understood identically.",
 ["inputs","configurations"],"all keys, salts, round counts, key numbers, comments, messages and file names; both directions (files written here read by an independent implementation and vice versa)",
 "The suite reads one public key, one secret key and one signature from OpenBSD and never looks at a written file's bytes; it would pass if both reader and writer changed format together.",
 [K,S,C],[("record encoders",K+":Private.encode, Public.encode; "+S+":Signature.encode"),("record decoders",K+":readPrivateKeyData, readPublicKeyData; "+S+":readSignatureData"),("comment + base64 file layout",C+":writeDataFile, readDataFileBytes")],
 observe=["bytes of .sec, .pub and .sig files","results of Sign, Verify, Open on independently constructed files"])

p("C04","A passphrase-protected key works with its exact passphrase and no other",
 "A secret key generated with a passphrase (any non-empty byte string) signs and decrypts when given exactly that passphrase and refuses every other one with an error, yielding neither a signature nor plaintext. A refused attempt leaves the key, on disk and already loaded in memory, fully usable with the right passphrase afterwards. The passphrase is asked for exactly when the key is protected, and a protected key file never contains the unmasked key.",
 ["inputs","histories"],"all passphrases (1 byte to long, binary, shared prefixes, case and whitespace variants), all round counts, all sequences of right and wrong attempts on one key",
 "TestSign uses the one right passphrase; no test supplies a wrong one, retries, or looks into a protected file.",
 [K],[("xor mask from bcrypt_pbkdf",K+":GenerateKeypair, Private.decrypt"),("checksum test after unmasking",K+":Private.Check"),("prompt only if rounds > 0",K+":Sign, ToBox")],
 state=[("loaded secret key","masked until the first successful passphrase, then clear",K+":Private")],
 observe=["signify.Sign, crypto.Open, Private.ToBox, Private.Check results","calls of signify.PassphrasePrompt","bytes of the .sec file"])

p("C05","A damaged secret key is never used",
 "If the algorithm tag, KDF tag, checksum or key bytes of a secret key file have been altered in any way, or (for a protected key) its salt or rounds have been, or its record has been shortened or extended, then signing and decrypting with it fail with an error. No signature file and no plaintext is produced from such a key, whether or not the key is passphrase-protected.",
 ["inputs"],"every bit position of the integrity-relevant fields and every record length other than the right one, for plain and protected keys, with the right passphrase supplied",
 "No test uses a corrupted key; the checksum field is exercised only on intact keys.",
 [K],[("SHA-512/8 checksum of the clear key",K+":Private.Check"),("record decoding",K+":readPrivateKeyData")],
 observe=["signify.Sign and crypto.Open return values","existence and content of the output files"])

p("C06","No file content can crash, hang or blow up the program",
 "Whatever bytes a public key, secret key, signature or encrypted file contains, loading it and running any operation on it terminates with success or an error: it never panics, hangs, or uses memory out of proportion to the files involved (apart from the KDF work that a protected key's own round count demands). Key and signature records of the wrong length, with an unknown algorithm tag, or in invalid base64 are refused with an error by signing, verifying, encrypting and decrypting alike.",
 ["inputs"],"all byte strings in each of the four file roles (random, structured, truncated, extended, mutated, with extreme header counts and very long lines)",
 "Every file in the suite is well-formed; no test feeds an empty, short or corrupt file.",
 [K,S,C,X,B],[("length checks on decoded records",K+":readPublicKeyData, readPrivateKeyData; "+S+":readSignatureData"),("scanner over the data file",C+":readDataFileBytes"),("header check before chunks are processed",X+":open")],
 observe=["return or panic of LoadPublicKey, LoadPrivateKey, Sign, Verify, Seal, Open","exit status / signal and CPU use of the command"])

p("C07","Decrypting an encrypted file returns exactly the original message",
 "For every message (any bytes and any length, including empty and lengths around the internal chunk size and its multiples) and every generated key pair, plain or passphrase-protected, encrypting to the public key succeeds and decrypting with the secret key writes a file identical to the message. This holds through the library and the command, for the default <message>.enc path and explicit paths, when output files already exist and are longer, and when the message is read from a pipe.",
 ["inputs","configurations"],"all messages and lengths x key kinds x path choices x regular file or pipe x library/CLI",
 "The two round-trip tests use one 400 KB text; empty messages, exact multiples of the chunk size, tiny and multi-megabyte messages are never tried, nor protected keys.",
 [X,B,K],[("chunk loop and header count",X+":seal"),("chunk loop",X+":open"),("base64 layer",B)],
 observe=["crypto.Seal / crypto.Open return values and output bytes","exit status of psignify -E / -D"])

p("C08","Decryption never yields anything but the sealed message",
 "If an encrypted file has been altered in any way (bits flipped, bytes inserted or removed, chunks reordered, repeated, dropped or taken from another file, header fields changed, file cut short) or is opened with another key, decryption either fails or still yields exactly the message that was sealed. Even when decryption fails, the output file never holds anything other than a prefix of that message (or, where an older file was not touched at all, that file).",
 ["inputs","fault_sequences"],"all alterations of all sealed files at bit, byte, base64, chunk and file level; all wrong keys",
 "No existing test opens an altered file or uses a wrong key: an implementation without any authentication passes.",
 [X,B],[("header authenticator",X+":open (auth.Verify)"),("authenticated chunks under counter nonces",X+":open (box.OpenAfterPrecomputation, incrementNonce)"),("chunk count in the header",X+":open")],
 state=[("nonce counter","position of the chunk in the message",X+":incrementNonce")],
 observe=["crypto.Open return value","bytes of the output file after success and after failure"])

p("C09","Every encryption uses fresh keys and no nonce twice",
 "Each encryption draws a new random ephemeral key, and each chunk of a message is sealed under a nonce of its own. Hence, over any history of encryptions, also of identical messages to the same key, no two chunks share keystream, no ciphertext repeats, and encrypted files contain no recognisable part of the message.",
 ["histories","inputs"],"all sequences of encryptions in one process, in many processes and in parallel; all messages up to many hundreds of chunks, so that the nonce counter carries",
 "A round trip succeeds just as well with a constant ephemeral key or a constant nonce; no test compares two ciphertexts or two chunks.",
 [X],[("ephemeral key from the system CSPRNG",X+":seal (box.GenerateKey)"),("192-bit big-endian nonce counter",X+":incrementNonce")],
 state=[("nonce counter","strictly increasing within one message",X+":seal")],
 observe=["decoded bytes of encrypted files: ephemeral key field, chunk ciphertext XOR known plaintext"])

p("C10","The encrypted file format is stable and independently readable",
 "An encrypted file is one 'untrusted comment: ' line followed by standard base64 in 72-character lines (the last may be shorter) of: the big-endian 64-bit number of chunks, the 32-byte ephemeral public key, the 32-byte HMAC-SHA-512-256 of these 40 bytes under the shared NaCl box key, then the NaCl boxes of consecutive 16385-byte pieces of the message (the last may be shorter) under the big-endian counter nonces 0, 1, 2, ... Any implementation of this layout can decrypt every file written here, and every file such an implementation writes is decrypted here.",
 ["inputs"],"all messages and keys, both directions between this code and an independent implementation, with any comment text and LF or CRLF line ends when reading",
 "Tests only feed the writer's output to its own reader, so any change made to both sides at once (chunk size, header order, nonce scheme, line length) passes while making every stored archive unreadable.",
 [X,B],[("header layout and chunking",X+":seal, open"),("72-column base64",B+":Encoder")],
 observe=["bytes of encrypted files","crypto.Open on independently built files"])

p("C11","The Ed25519 to Curve25519 key conversion is correct for every key",
 "For every key pair the encryption keys derived from the public and from the secret key belong together: the public one is the birational image u = (1+y)/(1-y) mod 2^255-19 of the signing key, the secret one is the clamped first half of SHA-512 of the seed (as in libsodium), and base-point multiplication of the latter gives the former. A public key that does not encode a curve point is refused, and converting a key twice or after other operations gives the same result.",
 ["inputs"],"all 2^255 canonical encodings with both sign bits, including those for which field elements have extreme limbs or the result is close to 0 or p; all seeds",
 "The suite tries three random keys; carry bugs in 10-limb field arithmetic show on inputs of probability 2^-20 or less.",
 [K,E],[("point decompression",E+":ExtendedGroupElement.FromBytes"),("field arithmetic",E+":FeMul, FeSquare, FeInvert, FeAdd, FeSub, FeFromBytes, FeToBytes, fePow22523"),("conversion formulas",K+":Public.ToBox, Private.ToBox")],
 observe=["Public.ToBox and Private.ToBox results"])

p("C12","The base64 encoder is exact however its input is split",
 "For every byte sequence and every division of it into Write calls (including empty ones), the text written up to and including Close is, line breaks removed, the standard padded base64 of the sequence, broken into lines of exactly 72 characters with a shorter last one, and ends with a newline. Every successful Write reports exactly the number of bytes it was given and never modifies or retains its argument, and a failure of the underlying writer at any point is reported by that Write or by Close.",
 ["inputs","fault_sequences"],"all byte sequences, all partitions into writes, all points at which the underlying writer fails",
 "TestEncodeDecode does one 72-byte write and never calls Close, so padding, split groups, the return count on split groups and writer errors are unseen.",
 [B],[("three-byte group buffer and column counter",B+":Encoder.Write, Close")],
 state=[("pending group and column","0-2 bytes not yet encoded and bytes on the current line",B+":Encoder")],
 observe=["bytes received by the underlying writer","return values of Write and Close"])

p("C13","The base64 decoder is exact however it is read and fed",
 "For every base64 text, with LF or CRLF line breaks at any position, read through any sequence of buffer sizes from a source that delivers its bytes in any fragmentation (including data together with EOF), the decoder returns exactly the encoded bytes and then io.EOF, obeying the io.Reader contract. Invalid or truncated base64 ends in an error and never in a clean io.EOF, bytes returned before that are correct, and an error of the source is passed on rather than turned into success or an endless loop.",
 ["inputs","fault_sequences"],"all texts, buffer-size sequences and source behaviours (short reads, one byte at a time, data with EOF, zero-byte reads, errors at any point)",
 "TestEncodeDecode does a single 72-byte read from a bytes.Buffer: no second read, no EOF, no odd buffer size, no fragmentation.",
 [B],[("newline-skipping reader in front of encoding/base64",B+":Decoder.Read")],
 observe=["(n, err) sequence of Read","number of calls made to the source"])

p("C14","Generated key pairs are consistent, fresh and unpredictable",
 "Every key generation yields a matching pair: the public key is the Ed25519 public key of the secret key's seed, both files carry the same key number and the Ed tag, the checksum is right, and the protection is exactly what the passphrase and rounds asked for. Over any number of generations, sequential, parallel or in separate processes, with or without passphrase, seeds, key numbers and salts are pairwise distinct and every one of their bytes varies.",
 ["histories","configurations"],"all generation options and passphrases; all histories of generations",
 "Tests generate four key pairs in memory and never compare two; a constant salt or key number or a seed with few random bytes passes.",
 [K],[("system CSPRNG for seed, salt and key number",K+":GenerateKeypair"),("pair written by one call",K+":GenerateKey")],
 observe=["decoded fields of the .sec and .pub files","GenerateKeypair results through ToBox/Check"])

p("C15","Secret key files are never accessible to other users",
 "Key generation creates the secret key file so that at no moment, from its creation on, group or others may read, write or execute it, whatever the umask. The public key file stays an ordinary file that others may read under the usual umask.",
 ["configurations","schedules"],"all umasks, directories, key kinds, library and command, and all moments between creation and exit",
 "No test generates a key file on disk, and none looks at file modes; a create-then-chmod window is invisible to any test that looks afterwards.",
 [C,K],[("file creation mode",C+":writeDataFile")],
 observe=["mode argument and umask at the creating system call (strace)","file mode after return"])

p("C16","Key generation never overwrites keys nor strands a public key",
 "If a file exists at either of the two target paths (also as a link), key generation fails, leaves every existing file exactly as it was and leaves no file of its own behind. If key generation is interrupted at any point by a crash or an I/O error, a public key file written by it is never left on disk without the complete, matching secret key file.",
 ["histories","crash_points","fault_sequences"],"all pre-existing combinations of the two files and file kinds; all system-call boundaries at which the process is killed or a call fails",
 "GenerateKey is not called by any test.",
 [K,C],[("order secret before public",K+":GenerateKey"),("file creation flags",C+":writeDataFile")],
 observe=["contents of the key directory before and after, and after a kill or injected error at every system call"])

p("C17","Success is reported only when the complete output has been stored",
 "Signing, encrypting, decrypting and key generation report success only if every byte of their output has been accepted by the operating system. If writing or closing the output fails or is cut short at any byte (disk full, file size limit, I/O error), or an input cannot be read to its end, the library returns an error and the command exits non-zero without printing OK.",
 ["fault_sequences"],"every byte offset at which the output may stop growing and every write, close and read call that may fail, for each operation",
 "No test injects an I/O error; all outputs fit on disk.",
 [X,B,C,K,M],[("error propagation from Write and Close",X+":Seal, Open, seal, open; "+B+":Encoder; "+C+":writeDataFile"),("exit status",M)],
 observe=["return values and exit status under RLIMIT_FSIZE, /dev/full and injected EIO/ENOSPC","bytes actually stored"])

p("C18","The command's exit status and OK line tell the truth",
 "The command exits with status 0 exactly when the requested operation was carried out (for -V: when the signature is valid), prints an OK line (the name given for the file, then ': OK') on standard output only in that case, and otherwise writes a diagnostic to standard error and exits non-zero; unknown or malformed flags, a missing mode or a missing required argument are failures. Each mode has the same effect as the corresponding library call, and a key pair generated without -p is the one that the other modes use when -s or -p is omitted.",
 ["inputs","configurations"],"all flag combinations, spellings and missing/extra arguments, all outcomes of each mode, prompts answered on a terminal or impossible",
 "cmd/psignify has no tests at all.",
 [M,K,X],[("flag handling and exit codes",M+":main"),("default key base",M+":defaultKeyBase"),("terminal prompt with confirmation",K+":PassphrasePrompt")],
 observe=["exit status, stdout, stderr of the command","files created"])

p("C19","Inputs are never harmed and nothing else is written",
 "No operation modifies, truncates, renames or deletes any of its input files, in success or failure, even if the output path names the same file as an input (same path, other spelling, symbolic or hard link): then the operation fails. An operation creates or changes no file other than its documented output, verification changes nothing, and a signing attempt refused because of its key, passphrase or message leaves an existing signature file as it was.",
 ["inputs","histories","fault_sequences"],"all operations x outcomes x aliasing between output and input paths",
 "Tests never look at the directory or the inputs after an operation, and never alias paths.",
 [K,X,C],[("output opened only at its own path",K+":Sign; "+X+":Seal, Open; "+C+":writeDataFile")],
 observe=["snapshot (content, mode, inode, link target) of the whole directory tree before and after"])

p("C20","Passphrases and secret keys leak nowhere",
 "The buffer in which the prompt returned a passphrase is wiped by the time signing, decrypting or a key conversion returns, whether it succeeded or failed. Neither the passphrase nor the secret key (seed, or the derived decryption key) nor the key derived from the passphrase, in raw, hex or base64 form, ever appears in any file, standard output, error text or terminal echo, except the key inside an unprotected secret key file.",
 ["inputs","histories"],"all operations and outcomes with protected and plain keys; all passphrases of 8 bytes and more",
 "No test looks at the passphrase buffer or scans outputs.",
 [K,C,X,M],[("zero on the passphrase",K+":Sign, ToBox; "+C+":zero"),("no-echo terminal read",K+":PassphrasePrompt")],
 observe=["the slice returned by the PassphrasePrompt hook after the call","all output files, streams, error strings and the terminal transcript"])

p("C21","Concurrent operations neither race nor influence each other",
 "Any number of goroutines may at the same time generate keys, sign, verify, encrypt, decrypt and convert keys, sharing key files, loaded public keys and loaded unprotected secret keys, as long as they write different outputs. Each call then gives the result it would give alone, there is no data race, and no call waits until another one's passphrase has been entered.",
 ["schedules","histories"],"all interleavings of all operations on shared keys and distinct outputs",
 "The suite is purely sequential and is not run with the race detector.",
 [K,X,B,C,S],[("no shared mutable package state",K+", "+X+", "+B),("read-only use of loaded keys",K+":Public.ToBox, verify; Private.ToBox on a clear key")],
 state=[("package variables","default options and the prompt hook, never written by operations",K)],
 observe=["race detector reports","result of every concurrent call against the result computed by an independent implementation"])

p("C22","Every operation depends only on its inputs, not on history",
 "The outcome of each operation in any sequence of key generations, signings, verifications, encryptions, decryptions, conversions and failed attempts is determined by the contents of the files and objects passed to it at that moment: it is what a stateless reference model predicts. In particular loading, checking, converting or failing with a key any number of times does not change what it does later, replaced or edited files take effect at once, and the passphrase and options passed to key generation stay as they were.",
 ["histories"],"all finite sequences of operations over a shared set of keys, messages, signatures and encrypted files, including edits, deletions and failures in between",
 "Each existing test performs one or two operations on fixed files; none replaces a file or reuses an object after an error.",
 [K,X,S,C],[("files re-read on each call",K+":LoadPrivateKey, LoadPublicKey; "+S+":readSignaturePath"),("loaded key state",K+":Private.decrypt")],
 observe=["history of calls and results compared step by step with a reference model"])
p("C23","Operations leave nothing behind in the process or on the terminal",
 "When a library call has returned, successfully or with any error, it has closed every file it opened, ended every goroutine and process it started, released every lock and removed every temporary file; the process's current directory, file creation mask, environment, signal handling and resource limits are as before, and the terminal is back in the mode it had before each passphrase prompt that returned. Hence any number of operations can follow each other in one process, even with few free file descriptors and without garbage collection.",
 ["inputs","histories","fault_sequences"],"all operations x outcomes (every kind of failure) x repetitions, in one process and through the command",
 "Tests perform one or two operations per process, nearly all successful, and never look at descriptors, goroutines or the terminal; a leak on an error path shows only after thousands of calls.",
 [K,C,X,B,M],[("deferred Close of all files",X+":Seal, Open; "+C+":createDataFile"),("terminal modes",K+":PassphrasePrompt")],
 observe=["/proc/self/fd, status, locks, maps and the goroutine count before and after each call, garbage collection off","terminal settings of the pty before and after a command"])

p("C24","Memory and time stay in proportion to the message",
 "Encrypting a regular file and decrypting stream: the memory they need does not grow with the message. Signing and verifying need memory of a small multiple of the message. The time of every operation grows no faster than in proportion to the sizes of its input files, whatever their content and line structure (apart from the KDF work of a protected key).",
 ["inputs"],"all message sizes and contents, encrypted files of any line structure, key and signature files with any comments",
 "Test messages are a few KB, where reading everything at once or quadratic work goes unnoticed.",
 [X,B,C,K],[("chunked sealing and opening",X+":seal, open"),("incremental encoder and decoder",B),("linear comment scan",C+":readDataFileBytes")],
 observe=["peak resident memory and processor time of processes that perform one operation, over growing inputs"])

p("C25","Pipes, devices and links serve as inputs and outputs like files",
 "Each input of signing, verifying, encrypting and decrypting (key, message, signature, encrypted file) may be a regular file, a FIFO or pipe that delivers its bytes at any pace and in any pieces, a character device, or a symbolic link to one of these, and each output may be an existing or new regular file, a FIFO or pipe, a device, or a symbolic link to one of these, also a dangling one: the result is the same as with regular files of the same content. Writing through a link leaves the link in place and changes its target; an output file that exists keeps its mode and its other links and is replaced completely. An output pipe whose reader leaves before the end makes the operation fail; it is never reported as written.",
 ["inputs","schedules","configurations"],"all operations x kinds of input and output files x pacings and fragmentations of pipes",
 "Tests read and write regular files in the working directory only.",
 [X,K,C,M],[("reads until end of file rather than by size",X+":Seal; "+K+":Sign, Verify"),("outputs opened in place and truncated",X+":Seal, Open; "+C+":writeDataFile")],
 observe=["return values, bytes read from output pipes, targets and link state of output links"])
p("C26","The passphrase prompt returns exactly the line that is typed",
 "Each passphrase prompt reads one line from the terminal and returns exactly the bytes entered before the end of the line: any bytes the terminal passes on, in any number of pieces and at any pace, also pushed through in parts, while the window is resized or the process is stopped and continued, and whether the terminal was in line mode or raw mode before. Lines entered at later prompts, or for the next program, are unaffected by earlier ones. While a prompt waits, the terminal shows nothing of what is typed. A confirming prompt asks for two lines and succeeds only if they are equal. When the lines differ, or the terminal is gone before the end of the line, the prompt returns an error, and generating a key, signing or decrypting does not go ahead.",
 ["inputs","schedules","fault_sequences"],"all lines x ways and paces of entering them x terminal modes x series of prompts x points of hangup",
 "Every test replaces the prompt by a function; the real one, which needs a terminal, is never run.",
 [K,M],[("the prompt",K+":PassphrasePrompt"),("its users",K+":Sign, Private.ToBox; "+M)],
 observe=["what the shipped prompt returns in a process on a pseudo terminal, and all that this terminal shows","exit status and outputs of the command at such a terminal"])
p("C27","32-bit platforms make no difference",
 "Built for a 32-bit platform, library and command give the same results as on a 64-bit one: every operation has the same outcome for the same inputs, keys, signatures and encrypted files made on either are good on the other, and all the other guarantees hold there, too. In particular no size, count or position is cut to 31 or 32 bits: a message file of 2 GiB or more is encrypted with all its chunks announced and in order, and an encrypted file that announces more chunks than it holds is refused, however large the number.",
 ["inputs","configurations"],"all inputs and operations on builds with 32-bit int, message sizes and chunk counts around 2^31 and 2^32",
 "The tests are run on the developer's 64-bit machine with messages of a few KB.",
 [X,K,B,"signify/internal/edwards25519/edwards25519.go"],[("64-bit length and chunk arithmetic",X+":sealStream, open"),("32-bit limbs","signify/internal/edwards25519"),("range of the rounds",K+":GenerateKeypair")],
 observe=["outcomes and files of 32-bit and 64-bit processes over the same inputs","the monitors of the other properties, run inside a 32-bit process"])
p("C28","Interrupted operations do no harm and can be repeated",
 "When signing, encrypting or decrypting ends early, by a crash, a signal or an I/O error at any point, then every input is as it was, the run is not reported as successful unless its output is complete, and what is found at the output path is the older file as it was, nothing, or what has been written so far: never a mixture of new and old content, an incomplete signature that is accepted, an encrypted file that decrypts successfully to anything but the whole message, or a decrypted file that is not a beginning of the message. Whatever has been left behind by any number of interrupted runs, the same operation and all others on the same files then succeed with the usual results, and an interrupted key generation can be repeated under another name, or under the same one once its own two files have been removed.",
 ["fault_sequences","inputs","histories"],"all points at which an operation can be interrupted x faults x older outputs x sequences of interruptions and repetitions",
 "No test interrupts an operation.",
 [X,K,C,M],[("outputs written in place from the start",X+":createOutput, Seal, Open; "+C+":writeDataFile"),("no state besides the outputs",X+":Seal, Open; "+K+":Sign, GenerateKey")],
 observe=["inputs and output files after the death or failure of the process","outcome and output of the operations performed afterwards"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch)
print(len(P))
