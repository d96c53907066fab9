"""What each check runs: builds, zoos, numbers of cases, and how the evidence describes it."""

REAL = ['binread (library, compiled from /repo)', 'binread_derive (the derive macro, run on every generated format)', 'core/alloc/std']
STUBS = ['the reader: sim/src/rt.rs SimReader (image in memory, seeded delivery and faults)', 'the formats: generated types (sim/src/gen.rs), not user code']
ASSUME = ['samples schedules, faults and formats; a clean batch is evidence, not proof',
          'formats are non-recursive and drawn from the generator in sim/src/gen.rs',
          'the reference interpreter sim/src/model.rs says what a format means']

# cases per batch in the quick tier: (std, all, nostd)
QUICK = {
    'C01': (48000, 24000, 32000),
    'C02': (24000, 12000, 12000),
    'C03': (24000, 12000, 12000),
    'C04': (22000, 11000, 11000),
    'C05': (48000, 24000, 24000),
    'C06': (16000, 10000, 8000),
    'C07': (16000, 10000, 8000),
    'C08': (10000, 6000, 5000),
    'C09': (14000, 8000, 6000),
    'C10': (11000, 7000, 6000),
    'C11': (18000, 11000, 10000),
    'C12': (14000, 9000, 7000),
    'C13': (18000, 9000, 9000),
    'C14': (0, 0, 120000),
    'C15': (24000, 24000, 24000),
    'C16': (0, 2400, 0),
    'C17': (4800, 2400, 1600),
    'C18': (14000, 9000, 7000),
}

RULES = {
    'C01': 'a case is a generated format, an image it parses (also corrupted, cut, with unreadable sectors), a start and options; each run delivers it under another seeded schedule of short reads and interruptions, and its result and final position are compared with those of the same real parse on a reader delivering everything at once. Non-trivial: at least one fault fired or the parse made more than 3 reader calls.',
    'C02': 'each run makes one reader call (every call of the undisturbed parse in turn), several calls in bursts, the data (corruption, cut, unreadable sectors) or nothing fail; after Err the reader must stand where the parse began, also for nested parses observed by spy parsers. Non-trivial: a fault fired, data ended, or more than 3 reader calls.',
    'C04': 'each run fails one reader call (every call in turn) or several; the error must be exactly the injected one where the format declares no alternative, otherwise the outcome must be one the reference interpreter gives for a single failure somewhere. Non-trivial as for C02.',
    'C05': 'each run cuts a valid image at one byte (all cut points of short images) and compares with the reference interpreter and, where the format declares no alternative, demands an end-of-file error. Non-trivial: the parse met the end of the data.',
}
RULES['C03'] = 'a case is a stream of 2-9 records of formats without declared alternatives on one image; each run injects up to 12 transient faults (also in bursts, also on seeks, also while a record is being retried) and retries like a client; the history of records must equal the undisturbed real run. Non-trivial: at least one retry happened.'
RULES['C13'] = 'each run parses hostile data (all-ones and sign-bit patterns over lengths, counts, pointers; noise; cuts), hostile options and start positions, on a reader failing up to 40 times, and is monitored for panics, aborts, hangs, reader calls and peak memory. Non-trivial: a fault fired or data ended.'
RULES['C14'] = 'a case is a history of 3-16 operations on the no_std cursor (three buffer types) or on a failing simulated reader through the crate\'s adaptors, executed step by step beside std::io; or a parse from the no_std cursor beside the same parse from the simulated reader. Non-trivial: more than two operations, a fault or the end of data.'
RULES['C15'] = 'each run executes in 7 variants (std; no_std; all features with no, a live, a failing, a short-writing and a full template output) from the simulated reader or the build\'s own cursor; digests of result and position must agree run by run. Every run counts as non-trivial; distinct counts digests of (format, result, position) over the variants.'
RULES['C16'] = 'each run is a fresh process with 1-4 real threads parsing 2-7 (in long histories up to 100) (format, image, options, faults) combinations while a template is written; a seeded scheduler picks the thread at every reader call, lock, counter, output write and output switch. The bytes every output received are parsed back: records whole, by one thread, in order, equal to those of the same parse alone (itself checked against the reference interpreter), names unique. Non-trivial: at least two switches between threads, or more than one parse on one thread.'
RULES['C17'] = 'each run is a fresh process with 2-7 (in long histories up to 260) (format, image, options, faults, injected panics) combinations on 1-4 real threads, some nested inside a reader call of another; a seeded scheduler picks the thread at every reader call. Every parse must return the value or error, position and evaluated expressions it has alone (in a process of its own). Non-trivial: at least two switches, a nested parse, or more than one parse on one thread.'
GENERAL = 'each run executes a generated format biased to this property on an image that parses, is corrupted, cut or has unreadable sectors, under seeded delivery (short reads, interruptions) and at most one hard failure per judged run; result, final position and evaluated message/alternate expressions must equal the reference interpreter\'s (with a failure: one of the outcomes it gives for a failure somewhere). Non-trivial: a fault fired, data ended, or more than 3 reader calls.'

LEVEL = {'C02': 'fault_enumeration', 'C04': 'fault_enumeration', 'C05': 'fault_enumeration'}


def cfg_of(prop, feat):
    return 'hook' if prop == 'C16' else feat


def plan(prop, tier, seed):
    p = {'rule': RULES.get(prop, GENERAL), 'level': LEVEL.get(prop, 'exploration'), 'real': REAL, 'stubs': STUBS, 'assumptions': ASSUME}
    cases = QUICK[prop]
    if prop == 'C15':
        p['compare'] = True
    roots = 240
    if prop in ('C16', 'C17'):
        p['procs'] = True
        roots = 80
        p['measure'] = 'distinct digests of (every reader call of every parse with its outcome, every scheduling decision, every byte written to an output)'
        p['stubs'] = STUBS + ['the scheduler: real threads, one running at a time, chosen by the seed (sim/src/conc.rs)'] + (['the template output: in memory, with short, interrupted, failing and panicking writes'] if prop == 'C16' else [])

    def stage(z, mult, roots):
        # every build gets formats of its own, except where the builds are compared
        return [{'prop': prop, 'profile': prop, 'cfg': c, 'zoo': 3 * z + (0 if prop == 'C15' else k), 'roots': roots, 'cases': int(n * mult)}
                for k, (c, n) in enumerate(zip(('std', cfg_of(prop, 'all'), 'nostd'), cases)) if n]
    if tier == 'quick':
        p['stages'] = [stage(seed, 1, roots)]
    else:
        p['stages'] = [stage(seed * 1000 + k, 6, 200) for k in range(40)]
        p['seconds'] = 1500
    return p
