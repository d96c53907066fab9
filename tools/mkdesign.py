import json,os,glob,re,sys
head = r'''# Deciding the semantic properties of binread by deterministic simulation

Contents: [the system](#the-system-and-its-nondeterminism) · [architecture](#architecture) ·
[properties](#per-property) · [not applicable](#not-applicable) · [defects found](#defects-found) ·
[false alarms corrected](#false-alarms-corrected) · [limits](#limits) ·
[planted bugs](#planted-bugs) · [use](#use)

## The system and its nondeterminism

binread is a single-process parsing library. It has no timers, clocks, network or
randomness; what it is exposed to in a deployment is

* the **reader** argument (`Read + Seek`): how many bytes a `read` delivers, `Interrupted`,
  hard errors on any read or seek (including the seeks of clean-up paths), unreadable
  sectors, and the end of the data at any byte (the writer crashed);
* the **caller's threads**: several parses in progress, nested parses, panics, all sharing
  the process-wide debug-template output;
* the **template output** (`Write`): short writes, errors, panics, being replaced at any moment;
* the **allocator** and the step budget under hostile data.

All of these sit behind seams the crate already has (generic reader, writer), except the
template's `Mutex`/`AtomicUsize`, for which a guarded hook in /repo (`--cfg binread_sim`,
commit 770235f) lets the simulator decide who runs at each lock and counter access. Simulated
time does not exist (there is no clock to simulate); progress is measured in reader calls.

## Architecture

`check.py` builds `/verif/sim` (a crate with a path dependency on /repo's `binread`) in up to
four configurations — `std`, `all` features, `nostd` (no features), `hook` (all features and the
scheduling hook) — runs seeded batches, merges their reports, writes the evidence, minimises and
writes replay files. One run is a pure function of (VERIF_SEED, zoo seed, case, sub-case); every
check repeats one part with another number of workers and compares the fingerprints.

* **Formats** (`gen.rs`, `schema.rs`, `emit.rs`). binread is a *language* for formats, so the
  unit of simulation is a generated format. `gen.rs` draws a "zoo" (240 root formats per build
  in the quick tier, other ones in every build except where builds are compared) from an IR with
  all field, variant and type directives, containers, strings, helpers and entry points; of four
  candidates it takes the one that combines most pairs of constructs for the first time. A
  profile per property biases it. `build.rs` emits the IR as annotated Rust (with spelling
  variations of the attributes), and the derive macro from the working tree compiles it. A format
  that no longer compiles is left out and named in the evidence.
  Roots are derived structs and enums, generic ones among them, variants read through `map` /
  `try_map`, and types of the crate read *directly* (`FilePtr`, `PosValue`, `Option`, `Box`, tuples,
  arrays, strings through `read`, `read_args` and every reader method). Custom errors are values
  of three types, so that a lost or replaced error value is seen.
* **Simulated reader** (`rt.rs`). An image in memory placed anywhere in the 64-bit stream (an
  image at 2^53 is a few bytes in memory), delivered by a schedule: short reads, `Interrupted`
  (storms of up to 95 %), hard errors of 14 kinds with identity (13 kinds with a payload, one OS
  error code, and, where nothing gives that kind a meaning, an error of kind `UnexpectedEof`),
  transient end of file, a device that is gone (every later call fails), unreadable sectors (ending a read early, then failing), panics, and a
  nested parse inside any call. Decisions come from a seed or from a recorded list; after a run
  everything decided is written out, which is the replay file.
* **Reference interpreter** (`model.rs`). An independent interpreter of the IR over a byte
  array, with no fast paths: what the documentation says each directive does. It gives result
  (value or error with positions, messages, variant errors), final position, the set of
  evaluated assertion messages/alternates, reader ticks. It is also run with *one failure at
  tick t* for every t, which gives the set of outcomes a single failure may have ("one fault
  set"); and in *fill mode*, where it invents the bytes it reads, which makes images that parse.
* **Spies and probes** (`rt.rs`): parsers placed in formats that observe nested parses from
  inside (position at begin and after failure), probes in messages/alternates that record
  evaluation, parsers that receive options and arguments and fold them into their value,
  parsers that parse something else meanwhile.
* **Scheduler** (`conc.rs`, `template.rs`). For C16/C17 every run is a forked process with real
  threads of which one runs at a time; at every reader call, lock, counter, output write and
  output switch the seed picks the next. Blocking outside its control is detected. The bytes each
  output got are parsed back and compared with what each parse writes alone, which in turn is
  compared with the interpreter's log of reads.
* **Memory** (`alloc.rs`): counting allocator around each hostile parse.
* **Minimisation** (`tools/shrink.py`): removes faults, actors, bytes, scheduling decisions while
  the violation class stays; the replay file carries format source, image, acts.
  `check.py --replay FILE` rebuilds and re-executes it, printing each reader call.

### What is attributed to which property

The properties overlap (a wrong byte order would also be a wrong value in C12). A difference
between code and interpreter is reported by the property whose profile met it, and the profiles
are biased accordingly; but C01, C02, C03, C14, C15, C16, C17 do not use the interpreter to
judge: they compare real executions with real executions (C02: with the start position), so they
stay right even if the interpreter were wrong, and a bug of plain semantics does not raise them.
C04 and C05 consult the interpreter only where it agrees with the undisturbed real parse of the
same image, so that only wrong *fault handling* is reported there.

'''
props = [
('C01','How the reader delivers','The real parse under a seeded schedule of short reads / interruptions against the same real parse delivered at once: result and position equal. Images: parsing, corrupted, cut, unreadable sectors. Also one interruption or one-byte read at each operation in turn.','any format, std/all/nostd. Tests only use cursors that deliver everything.'),
('C02','Position after failure','Every reader call of a sampled parse fails in turn (plus bursts, so that clean-up fails too; plus damaged data). After `Err` the reader stands at the start, unless the last call was a failing seek — and if that seek was the *first* failure and no failure had been absorbed, even that excuse is refused (it cannot have been a repositioning one). Same for every spied nested parse.','`restored` in oracle.rs.'),
('C03','Retries','A stream of 2–9 records of formats without declared alternatives on one image; up to 12 transient faults, also while retrying, also in bursts; the client retries (seeking itself only after a failed repositioning seek). Records, positions equal the undisturbed real history; bounded reader calls after the last fault.','formats for which a failed attempt may be repeated.'),
('C04','Error identity','Every call fails in turn with an error carrying an identity. Opaque formats (no try, data enum, until_eof): the result must be exactly that error. Others: every reported `Io` must be one that happened; and with a single failure the outcome must be in the one-fault set.','the set is exact about *where* alternatives absorb failures.'),
('C05','Truncation','Every cut point (all for short images) of an image that parses. Opaque formats: exactly an end-of-file error; others equal the interpreter on the cut image.',''),
('C06','Numbers and byte order','Refinement against the interpreter: result, position, evaluated expressions; nested endianness (type, variant, field, conditional, inherited), all widths, magic constants, maps.',''),
('C07','Positioning','Refinement; pads, aligns, seeks (three origins), pad_size_to, restore_position, their order, computed arguments, far images.',''),
('C08','Optional fields','Refinement; `if` (with and without alternate), `try`, `Option`; probes see whether alternates are evaluated; consumption seen by position.',''),
('C09','Enums','Refinement; data enums, unit enums with magics / repr (also at the ends of the range), pre-assertions, variant magics, nested errors, both error modes, up to 9 variants (24 unit variants).',''),
('C10','File pointers','Refinement; pointers of all integer types, offsets (`offset`, `offset_after`, inherited), `deref_now`, `FilePtr::parse`, pointers in containers, pointers to pointers, absent/null.',''),
('C11','Validation','Refinement; magics of every type at every level, assertions with messages/errors, pre-assertions, try_map returning custom or io errors of any kind; probes see whether messages are evaluated lazily; error positions and texts.',''),
('C12','Sequences','Refinement; Vec/VecDeque/arrays/tuples/Punctuated/strings/helpers; lengths 0…65536+, counts beyond 2^32, terminators inside/at the end.',''),
('C13','Hostile input','Lengths, counts, pointers, alignments straight from the data, extreme patterns, extreme start/options, up to 40 faults. No panic, no abort, no hang; calls ≤ 200 + 8 × what the interpreter needs; peak memory ≤ 64 KiB + 1 KiB per reader call + 64 × image.','bounds far above what was measured on the repaired tree.'),
('C14','no_std I/O','Histories of 3–16 operations on the no_std cursor (Vec, slice, Box) and adaptors over a failing simulated reader, step by step beside std::io running the same text; parses from the no_std cursor beside the same parse from the simulated reader.','only the nostd build.'),
('C15','Feature sets','The same runs in 7 variants (std; nostd; all features with no / live / failing / short / full template): digests of (result, position) equal run by run. Errors are compared as far as all sets can express them.','no model involved.'),
('C16','Debug template','See scheduler above: bytes whole, by one thread, in order, equal to the same parse alone; automatic names unique; header first; output switches; failing / panicking outputs.','hook build; falls back to reader-call scheduling if the hook does not compile.'),
('C17','Independence','2–7 (up to 260) parses on 1–4 threads, nested and interleaved at every reader call, with panics; each must return what it returns alone in a fresh process.',''),
('C18','Data flow','Refinement; arguments, calc, temp, map, options as seen by a custom parser, imports, PosValue, counts, conditional everything.',''),
]
def table(rows, h):
    return '| '+' | '.join(h)+' |\n|'+'---|'*len(h)+'\n'+''.join('| '+' | '.join(x.replace('|','\\|') for x in r)+' |\n' for r in rows)
out = head + '## Per property\n\n' + table(props, ['id','subject','decided by','notes']) + r'''
Why this reaches what tests cannot: the existing tests use in-memory cursors that deliver
everything, never fail and stand at 0, on about a hundred hand-written formats, in one build per
run. A quick check executes 10^5–10^6 distinct (format, image, schedule, fault) combinations.
Bounds: formats of nesting depth ≤ 3 (+ containers), ≤ 6 fields per type, ≤ 12 types; images
mostly 64–1200 bytes, some up to 150 kB; sampled, so a clean batch is evidence, not proof. The
thorough tier runs up to 40 further zoos (other formats, other images) of 6 × as many cases each,
for 25 minutes per property.

Cost: a quick check takes 30–110 s on 8 cores, of which 10–35 s is compiling the zoo with the
working tree; 10^8 runs per hour (C16/C17: 10^6, because each is a process).

## Not applicable

* **C19** (contradictory or unknown directives are rejected at compile time): decided by the
  compiler running the macro once on a token stream; no schedule, I/O, fault or time takes part.
* **C20** (text conversions): pure functions of a value in memory; nothing to schedule or to fail.
  One genuine defect met on the way (`NullString::to_string` panicked) was repaired all the same.

## Defects found

All were shown by a failing run on the original code, are small, and were repaired in /repo by one
`fix:` commit each (list in KNOWN_FINDINGS.txt; none is left unrepaired):

'''
for l in open('/verif/KNOWN_FINDINGS.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: out+='* %s, %s: %s\n'%m.groups()
out += r'''
## False alarms corrected

* *Position after a failing seek*: C02 first demanded the start position also when the
  repositioning seek itself failed. The property excuses that; the check now excuses exactly the
  case in which the last thing that happened is a failing seek.
* *A failing last seek that was not a repositioning one* was excused at first (too weak): now
  refused when it is the only failure.
* *Transient end of file inside until_eof* is indistinguishable from a genuine one; the one-fault
  set contains the shortened list.
* *Errors of kind `UnexpectedEof` returned by a reader*: until_eof takes them for the end of the
  data (it looks at the kind; documented). They are only injected where no until_eof is around.
* *no_std*: errors have no payload, so a fault and an io::Error returned by a map function of the
  same kind cannot be told apart; the identity rule steps back there.
* *Positions the interpreter cannot know* (e.g. after a cut inside an element read by several
  reader calls): `pos_any`.
* *Order of virtual operations*: whether a failure can strike "where the model needs no reader
  operation" (e.g. a redundant seek) is the code's business; the set includes failures at such
  points, so an extra or missing harmless seek raises nothing.
* *C17 "deadlock" of a long parse*: the scheduler took 400 000 scheduling points for a deadlock;
  three parses of a 66 375-byte block delivered byte by byte need that many. Now only 20 000
  consecutive points at which threads find a lock taken count, nothing of it while a thread is off
  the scheduler's hands (a busy machine), and what is judged by the clock must happen three times.
* *io14 beyond-the-end reads*: std leaves the position after a failed `read_exact` beyond the end
  unspecified; such steps are skipped.
* *Behaviour-preserving edits*: a combined refactoring of the helpers, impls, pointers, strings,
  cursor, template writer and both derive back ends (same behaviour, different calls) was swept
  with every check: quiet.

## Limits

* Formats are generated and non-recursive; generic formats have one type parameter, used as the
  type of a field.
* A cyclic self-referential format (a pointer to itself) recurses as deep as its data says; that
  is the format's declaration, and not judged here.
* Lists of zero-sized elements with a count from hostile data are not generated: the time they
  take is what the format declares.
* The interpreter is trusted for C06–C12, C18 (and, gated, C04, C05, C13); it was written from the
  documentation and agrees with the repaired code on ~10^9 runs.
* C16 judges the template's structure and content, not that 010 Editor accepts it.
* Weak memory effects are not explored: one thread runs at a time (the only shared state is a
  mutex and sequentially consistent/relaxed counters).

'''
rows=[]
res={}
# python3 tools/mkdesign.py [LOG...]: lines 'ID PROPERTY rc=N ...' of runs against planted bugs
for log in sys.argv[1:]:
    for l in open(log):
        m=re.match(r'(\S+) (C\d\d) rc=(\d+)',l)
        if m: res[m.group(1)]=(m.group(2),m.group(3))
if os.path.exists('/verif/tools/bugresults.json'):
    old=json.load(open('/verif/tools/bugresults.json'))
else: old={}
old.update({k:list(v) for k,v in res.items()})
json.dump(old,open('/verif/tools/bugresults.json','w'),indent=0,sort_keys=True)
for d in sorted(glob.glob('/verif/seeded/*/')):
    i=os.path.basename(d[:-1]); m=json.load(open(d+'meta.json'))
    r=old.get(i)
    rows.append((i,m['what_it_breaks'],m['needs'],('caught by '+r[0] if r[1]=='1' else 'missed') if r else '?'))
out += '''## Planted bugs

Each was written from a property's text and the code, passes the existing tests, and comes with a
demonstration. "Caught" is the quick check of its own property with VERIF_SEED=1.

''' + table(rows,['id','what it breaks','needs','quick check']) + r'''
What the misses taught (all caught since, unless the table says otherwise): readers that fail with the kind of
an end of file (C14), counts beyond 32 bits (C18), io errors of particular kinds returned by maps
(C11), far images (positions beyond 32 bits), blocks longer than internal buffers (C05), strings
with long runs, all 14 kinds of error (C03/C04), enum-level assertions, `args_tuple`/`import_tuple`
spellings, several retries of one record, element-wise post-processing of tuples.

## Use

    python3 check.py C02                    # quick (VERIF_SEED=1 by default)
    python3 check.py C02 --tier thorough
    python3 check.py --replay replays/C02-position-0.run

`tools/setup.py` warms the build caches; `tools/mkprops.py`, `tools/mkmanifest.py` write
properties.jsonl and MANIFEST.json; `tools/mkdesign.py` this file (with `tools/bugresults.json`).
Hook: `binread/src/binary_template.rs`, `#[cfg(binread_sim)]` only; absent from any build that does
not pass that cfg.
'''
open('/verif/DESIGN.md','w').write(out)
