#!/usr/bin/env python3
"""Writes MANIFEST.json; one entry per property."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": ("exploration", "round-trip monitor over the real sign/verify code, API and command", "Every length 0-130, chunk and power-of-two neighbours up to MBs, content classes, key kinds, path spellings, pre-existing outputs. Nothing is claimed for inputs not generated; the generator is deterministic in the seed."),
 "C02": ("exploration", "mutation workload judged by an independent verifier (differential oracle)", "All single-bit changes of the records and of short messages, splices, lengths, malleability and degenerate points; verdicts compared with an independent parser plus crypto/ed25519 of the standard library, which is trusted."),
 "C03": ("exploration", "strict independent parser/builder of the signify formats as differential oracle, both directions", "Independent encoder/decoder written from OpenBSD signify's layout; bcrypt_pbkdf is checked against the fixture files and the signify test vectors rather than a second implementation."),
 "C04": ("exploration", "passphrase history monitor: result of each attempt against the model", "Hooked prompt; near-miss variants of each passphrase, random right/wrong sequences on one loaded key, API and command on a pty."),
 "C05": ("exploration", "exhaustive single-bit and length damage of key records, refusal oracle", "Every bit of tags, checksum, key bytes (salt and low rounds bits if protected) and every length 0-160 for signing, opening and converting."),
 "C06": ("exploration", "structure-aware fuzzing in disposable workers with panic, watchdog, memory and allocation monitors", "Generated and mutated files in all four roles against all operations; a hang is a case that does not finish in a generous number of watchdog ticks; memory is judged by allocated bytes relative to the input."),
 "C07": ("exploration", "round-trip monitor over the real seal/open code, API, command and pipes", "Sizes around the chunk and line lengths, several hundred chunks, pipes delivering fragments, replaced outputs."),
 "C08": ("exploration", "tampering workload with exact-message and prefix-of-plaintext oracle", "All bits of short files, all truncations, chunk-level surgery, wrong keys; every output (also of failed runs) compared with prefixes of the sealed message."),
 "C09": ("exploration", "offline checker over recorded ciphertexts: keystream, nonce and ephemeral key reuse", "Keystream recovered with the known message; distinctness over all recorded encryptions of the run, several processes and goroutines; counts of random bytes an ephemeral key depends on."),
 "C10": ("exploration", "independent implementation of the encrypted format as differential oracle, both directions", "NaCl box primitives of x/crypto are trusted; everything around them (header, HMAC, nonces, base64 columns) is independent."),
 "C11": ("exploration", "big-integer reference model of the birational map as differential oracle", "Random and limb-extreme points, off-curve values, repeated conversions, base point consistency."),
 "C12": ("exploration", "io.Writer contract monitor against encoding/base64 over all short partitions and fault positions", "All partitions of up to 11 bytes, all failing positions of the underlying writer, random longer ones."),
 "C13": ("exploration", "io.Reader contract monitor against encoding/base64 over scripted sources", "All fragmentations of short texts, buffer-size sequences, endings, truncations, invalid characters; logical step bound instead of time for endless loops."),
 "C14": ("exploration", "offline uniqueness, variability and entropy checker over the log of generated keys", "Each pair checked by independent code; statistical checks are set so that a sound generator fails with negligible probability (below 1e-12)."),
 "C15": ("fault_enumeration", "system call trace monitor plus kill at each file system call with mode inspection", "Creation and mode changes judged from strace; kill points enumerate the file system calls of the traced process."),
 "C16": ("fault_enumeration", "kill and errno injection at each file system call, snapshot oracle", "A crash is the death of the process (no power loss: page cache survives); one injected fault at a time."),
 "C17": ("fault_enumeration", "file size limit at every byte, /dev/full and errno injection, report compared with the stored output", "RLIMIT_FSIZE at every byte of the outputs, error injection at every write, close and read call of the traced command."),
 "C18": ("exploration", "outcome model of the command line over generated argument lists and terminal dialogues", "Run as an unprivileged user; effect compared with the library call on a twin directory or independent code."),
 "C19": ("exploration", "whole-directory snapshots before/after over aliased and failing operations", "Content, mode, owner, inode, links, times; the directory is also current, home and temporary directory, and a strace monitor watches for paths outside."),
 "C20": ("exploration", "hooked prompt buffer inspected after return; search of all outputs for secret pieces", "Memory other than the prompt's buffer is not inspected; secrets are searched raw, hex, decimal and base64 in 8-byte pieces."),
 "C21": ("exploration", "Go race detector plus result oracle over concurrent mixed workloads with seen overlaps", "Schedules are those that occurred under stress (pairs of operation kinds seen to overlap are counted), not all."),
 "C22": ("exploration", "stateless reference model judging each step of random operation histories", "The model sees present files and the record each object was loaded from; files are edited between steps keeping size and times."),
 "C23": ("exploration", "process state monitor (descriptors, goroutines, limits, signals, locks, terminal modes) around every operation and failure", "Garbage collection is off, so that finalizers hide nothing; long runs with a handful of free descriptors. A prompt interrupted by a fatal signal is out of scope."),
 "C24": ("exploration", "peak memory and processor time of one-operation processes over growing inputs", "Bounds have a wide margin (memory: a constant 24 MiB of growth for streams; time: a factor 4 beyond proportionality over a 16-fold growth), so slow constant factors are not judged."),
 "C25": ("exploration", "differential workload: pipes, devices and links against regular files of the same content", "Pacing is scripted (pieces, pauses, lazy readers, readers that leave early), all combinations of kinds are sampled; judged by the independent implementations of the formats."),
 "C26": ("exploration", "scripted typist on a pseudo terminal: returned line compared with the typed one, terminal output searched for it", "The kernel's line discipline is trusted: what it interprets (corrections, end of file on an empty line) is not judged; type-ahead before the prompt is left open."),
 "C27": ("exploration", "the other monitors inside a GOARCH=386 process, and differential exchange between 32-bit and 64-bit processes", "GOARCH=386 stands for all 32-bit platforms; parts of the other monitors in the quick tier; big-endian machines cannot be run here."),
 "C28": ("fault_enumeration", "kill, signal and errno injection at system calls and at random moments; inputs and remains judged, then the operations repeated in the same directory", "A crash is the death of the process; one fault per run, several interrupted runs in a row. Messages of a few chunks have their write calls sampled, small ones are interrupted at every call."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
assert ids == sorted(T), (ids, sorted(T))
m = {
 "version": 1,
 "setup_cmd": "bash tools/setup.sh",
 "checks": [{
   "property": i,
   "quick_cmd": "./check.sh " + i,
   "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
   "evidence_file": "evidence/%s.json" % i,
   "technique": "runtime monitoring: " + T[i][1],
   "level": T[i][0],
   "level_note": T[i][2],
 } for i in ids],
 "not_applicable": [],
 "notes": "No hooks in /repo: everything is observed through the public API, the linked command, files and system calls. The prompt is replaced through the exported variable signify.PassphrasePrompt.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
