#!/usr/bin/env python3
"""Writes DESIGN.md from the text below, properties.jsonl, techniques.json, the
rules stated in props/*.cc and the planted changes under seeded/."""
import glob, json, os, re, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property: (oracle, what stays outside and precautions)
N = {
"C01": ("The original bytes. `encipher` must exit 0 and `decipher` with the same keyring must recreate the file exactly; the original stays untouched.",
        "The programs are the real ones, built with AddressSanitizer. Contents that are themselves gzip or bzip2 data are enciphered with automatic decompression off, as the statement says. Names starting with `|` are never generated: the library would run them as commands."),
"C02": ("After an alteration either a nonzero exit status or exactly the original bytes.",
        "Cutting between two chunks is excluded in the statement: the format has no chunk count, so that loss is not detectable."),
"C03": ("Every other passphrase or keyring gives a nonzero exit status and no plaintext; two encipherments share no chunk.",
        "Passphrases with NUL bytes are excluded, because HMAC pads its key with zeros: phrases that differ only in trailing zeros are one key by construction."),
"C04": ("A zero exit status must leave a result that deciphers to the original; a full device must give a nonzero status.",
        "Faults are file size limits (setrlimit) at offsets around the real sizes, and /dev/full. Faults the system does not report are out of reach."),
"C05": ("Reference hashes and a model of which files changed since the document was written.", "Mismatches are listed with exit status 0, as documented; only missing files give a nonzero one."),
"C06": ("Independent implementations in harness/ref.cc, themselves checked against published vectors and Python's hashlib when they were written.", "Messages around 512 MiB reach the carry of the 32-bit bit counters."),
"C07": ("The published construction over the reference hashes.", ""),
"C08": ("Reference AES, Serpent, Twofish and Chacha with straightforward modes in harness/ref.cc.", "Nonces are biased to counters about to carry in one or several bytes."),
"C09": ("Round trip and determinism; a model of key and nonce for each object.", ""),
"C10": ("Round trip, and decoding by zlib, bzip2 and liblzma directly.", ""),
"C11": ("A failure status or exactly the message, under AddressSanitizer.", ""),
"C12": ("No window of eight bytes repeats in the whole history, bit balance within eight standard deviations (a false alarm is practically impossible), exact lengths; equal seeds give equal values.",
        "The kernel's entropy calls are replaced by a deterministic stand-in (harness/entropy_shim.c) so that a case replays; it can also be made to fail."),
"C13": ("A model of the generated secrets; exact keys come back, altered phrases, ids and stored records are refused; no two records share a keystream.", "Phrases that differ only in trailing zero bytes are one key for HMAC and are not counted as different."),
"C14": ("A map model, an independent reader and writer of the file format (props/keyring_gen.h), both record versions.", ""),
"C15": ("An independent parser decides which answers the bytes of a damaged file support.", ""),
"C16": ("After concurrent or crashed imports the file parses and holds exactly the keys whose import reported success.",
        "Three harnesses: real processes racing, scripted lock polls under virtual time, and an import ended before or after each of its file operations (the file operations are interposed in the test process). Only scratch keyrings are used and only processes the test itself forked are killed."),
"C17": ("An ordered map.", ""),
"C18": ("Byte vectors; AddressSanitizer.", ""),
"C19": ("Direct definitions on std::string; exactly sized heap buffers under AddressSanitizer.", ""),
"C20": ("Standard encodings and a strict reference decoder.", ""),
"C21": ("std::vector with ownership counting (each element released exactly once).", ""),
"C22": ("std::map with ownership counting; constant and colliding hashes.", ""),
"C23": ("std::map with ownership counting; monotone insertions of thousands of keys give the deepest trees.", ""),
"C24": ("The generated tree itself; an editing model; write and parse again.", "Round trip is claimed for ASCII text."),
"C25": ("Termination and no memory error (AddressSanitizer), coverage guided.", "Entities that multiply exponentially by nesting are excluded in the statement."),
"C26": ("A byte-file model; zlib and bzip2 decode what was written and write what is read.", "Pipes to commands (`|command` names) are never opened."),
"C27": ("An independent byte layout; injected short, interrupted and failing system calls.", ""),
"C28": ("Civil-calendar arithmetic independent of the C library's time zone code.", ""),
"C29": ("A position-set matcher over the generated syntax tree.", ""),
"C30": ("A model of the type map that has no history.", ""),
"C31": ("An independent path grammar; joining the parts.", "Dot files keep their leading period as part of the base name. Sub-node suffixes and file system prefixes are as stated."),
"C32": ("The option tables as compiled in, and set arithmetic for lists.", ""),
"C33": ("Wide-integer accounting; the files on disk.", "Temporary files live in a fresh scratch directory per case; signals are only sent to processes the test forked."),
"C34": ("128-bit arithmetic; a shadow copy of every block; an allocator that knows every block.", "Mappings and disk space are refused by interposed calls, not by exhausting the machine."),
"C35": ("A list model with recording handlers; the error output of a subprocess.", ""),
"C36": ("The generated token list.", ""),
"C37": ("Exit status rather than signal, within a CPU limit, under AddressSanitizer.", "Content properties are sealed with a valid digest so that the parser behind the digest is reached. `|` is replaced in generated documents and paths."),
"C38": ("Some serial order of the operations explains all results and the final state (searched exhaustively over orders that keep each thread's own order).",
        "props/interleave.h runs one thread at a time; library code is compiled with -fsanitize-coverage style access callbacks (conf.json \"access\") so that the generated plan can switch threads at any memory access or lock operation. Sleeps and file-lock polls use virtual time. Weak memory orders are not explored."),
"C39": ("The C library in the C locale.", "Two compiled locales with a comma and a two-byte decimal point are part of the check (config/locale), so nothing depends on the installed ones."),
"C40": ("A model of mask, format, destinations and generations.", "fopen is replaced within the check so that a log file can only be made in the scratch directory, whatever the damaged configuration names."),
"C41": ("A model of the search order, includes, hidden entries and sorting.", "A file that includes itself several times takes exponential time; such files are not generated."),
"C43": ("Memory in use (allocator statistics) and entries of /proc/self/fd before and after each replay of a history; growth counts only when it continues through six replays, so that caches filled once are no alarm.", ""),
"C44": ("Metamorphic: equal plaintext at different places must give different ciphertext (the exclusive or of plaintext and ciphertext differs between blocks in the stream modes); no stretch of plaintext or passphrase occurs in any file written.", "Stretches compared are long enough (at least 8 bytes) that chance equality is out of the question."),
"C45": ("The plan of what is typed and when; the settings of the pseudo terminal before and after; the bytes its other side shows.", "Every case has a pseudo terminal and a session of its own. A line is sent only when a prompt was seen, and a signal only when the process waits for input, so a case does not depend on timing."),
"C42": ("The options each file was made with; the ids and nonces in the files' own properties; deciphering with the exported key.", ""),
}
def wrap(s, ind=''):
    return '\n'.join(textwrap.wrap(' '.join(s.split()), 78, initial_indent=ind, subsequent_indent=ind))
out = [open(V + '/tools/design_head.md').read().rstrip()]
tech = json.load(open(V + '/tools/techniques.json'))
seeds = {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(m)); seeds.setdefault(j['property'], []).append((os.path.basename(os.path.dirname(m)), j))
marks = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
out.append('## Properties')
for line in open(V + '/properties.jsonl'):
    p = json.loads(line); i = p['id']
    o = ['### %s  %s' % (i, p['title']), wrap(p['statement']), wrap('*Why tests cannot settle it:* ' + p['why_tests_cant'] + ' Needed: ' + p['quantifier']['text'] + '.'),
         wrap('*Decided by:* ' + tech[i][0] + '. *Bounds:* ' + tech[i][1])]
    src = open(V + '/props/%s.cc' % i).read()
    rows = []
    for m in re.finditer(r'PBT_TEST\((\w+), \{(.*?)\}\)', src, re.S):
        r = re.search(r'\.rule\s*=\s*"(.*?)"', m.group(2), re.S)
        q, t = re.search(r'quick = (\d+)', m.group(2)), re.search(r'thorough = (\d+)', m.group(2))
        rows.append(wrap('- `%s` (%s cases quick, %s thorough): %s.' % (m.group(1), q.group(1) if q else '?', t.group(1) if t else '?', r.group(1) if r else '')))
    o.append('\n'.join(rows))
    if i in N:
        o.append(wrap('*Oracle:* ' + N[i][0]))
        if N[i][1]: o.append(wrap('*Notes:* ' + N[i][1]))
    if i in seeds:
        o.append('\n'.join(wrap('- planted `%s`: %s Needs %s. %s' % (n, j['what_it_breaks'].rstrip('.') + '.', j['needs'].rstrip('.'), {True: 'Caught.', False: 'Missed.'}.get(marks.get(n), ''))) for n, j in seeds[i]))
    out.append('\n\n'.join(o))
out.append(open(V + '/tools/design_tail.md').read().strip())
open(V + '/DESIGN.md', 'w').write('\n\n'.join(out) + '\n')
