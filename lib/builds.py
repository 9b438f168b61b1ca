"""C05, C06, C23: properties of builds."""
import itertools
import os
import re

from engine import CPUS, HarnessError, REPO, TARGET, VERIF, WIDTHS, base_env, tail_of  # noqa: F401

# ---------------------------------------------------------------- C05, C06: the width setting

PROGRAM = r'''
use tagged_box::discriminant::*;
use tagged_box::TaggedPointer;
fn refused(f: impl FnOnce() -> TaggedPointer + std::panic::UnwindSafe) -> bool { std::panic::catch_unwind(f).is_err() }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let width: u64 = std::env::args().nth(1).unwrap().parse().unwrap();
    let free = 64 - width;
    let mut bad = Vec::new();
    let mut is = |what: &str, got: u64, want: u64| {
        println!("{what} {got:#x}");
        if got != want { bad.push(format!("{what} is {got:#x} and should be {want:#x}")) }
    };
    let max_pointer = u64::MAX >> free;
    let max_discriminant = u64::MAX >> width;
    is("POINTER_WIDTH", POINTER_WIDTH as u64, width);
    is("MAX_POINTER_VALUE", MAX_POINTER_VALUE as u64, max_pointer);
    is("MAX_DISCRIMINANT", MAX_DISCRIMINANT as u64, max_discriminant);
    is("DISCRIMINANT_MASK", DISCRIMINANT_MASK as u64, max_pointer);
    is("DISCRIMINANT_BITS", DISCRIMINANT_BITS as u64, free);
    // What the split does, whatever is published about it.
    let all = TaggedPointer::new(max_pointer, max_discriminant as Discriminant);
    is("the address of the largest pair", all.as_u64(), max_pointer);
    is("the discriminant of the largest pair", all.discriminant() as u64, max_discriminant);
    is("the word of the largest pair", all.as_raw_u64(), u64::MAX);
    is("the word of the smallest pair", TaggedPointer::new(0, 0).as_raw_u64(), 0);
    is("the word of discriminant 1", TaggedPointer::new(0, 1).as_raw_u64(), if width == 64 { 0 } else { 1 << width });
    for b in 0..free {
        let d = 1u64 << b;
        is("the word of a discriminant bit", TaggedPointer::new(0, d as Discriminant).as_raw_u64(), d << width);
    }
    for b in 0..64 {
        let a = 1u64 << b;
        if b < width { is("the word of an address bit", TaggedPointer::new(a, 0).as_raw_u64(), a) }
        is("the refusal of an address bit", refused(move || TaggedPointer::new(a, 0)) as u64, (b >= width) as u64);
        is("what strip leaves of a bit", TaggedPointer::strip_discriminant(a), a & max_pointer);
        is("what fetch finds of a bit", TaggedPointer::fetch_discriminant(a) as u64, a >> width);
    }
    let excess = max_discriminant + 1;
    if excess <= Discriminant::MAX as u64 {
        is("the refusal of an excess discriminant", refused(move || TaggedPointer::new(0, excess as Discriminant)) as u64, 1);
    }
    for b in &bad { println!("WRONG {b}") }
    std::process::exit(!bad.is_empty() as i32)
}
'''
CARGO = '''[package]
name = "w"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
tagged-box = { path = "%s" }
[profile.dev]
debug = 0
[profile.release]
debug = 0
opt-level = 1
'''

# None: not set.
UNKNOWN = ['', '60', 'bits', '47bits', '64bits', '0bits', '32bits', '60bit', '60 bits', ' 60bits', '60BITS', '63bitss', '61,62', 'default', '48-bits', '\u00e9']
SETTINGS = [None] + ['%dbits' % w for w in WIDTHS] + UNKNOWN


def width_of(s):
    return int(s[:2]) if s in ['%dbits' % w for w in WIDTHS] else 60


def show(s):
    return 'unset' if s is None else '"%s"' % s


def project(c, name):
    d = os.path.join(c.dir, name)
    os.makedirs(os.path.join(d, 'src'))
    open(os.path.join(d, 'Cargo.toml'), 'w').write(CARGO % REPO)
    open(os.path.join(d, 'src/main.rs'), 'w').write(PROGRAM)
    return d


def build_and_run(c, d, setting, profile, target):
    """Returns (None or what is wrong, output)."""
    env = base_env(width=setting)
    built, msgs, err, rc = c.cargo(d, ['build'] + (['--release'] if profile == 'release' else []), env, target)
    if rc != 0 or 'w' not in built:
        return 'it does not build: %s' % ((msgs[0]['text'] if msgs else err[-300:])), err
    log = c.path('run')
    rc = c.run_once([built['w'], str(width_of(setting))], base_env(), c.dir, 60, log)
    text = open(log, errors='replace').read()
    if rc == 0:
        return None, text
    wrong = re.findall(r'WRONG (.*)', text)
    return ('; '.join(wrong[:4]) if wrong else 'it ends with %s' % rc), text


def c05(c):
    d = project(c, 'w')
    control = build_and_run(c, d, None, 'dev', os.path.join(TARGET, 'w-unset'))
    facts = []

    def one(s, profile):
        target = os.path.join(TARGET, 'w-%d' % SETTINGS.index(s))
        wrong, text = build_and_run(c, d, s, profile, target)
        c.count('evaluations', max(1, len(text.splitlines()) if not wrong else 1))
        c.count('builds')
        with c.lock:
            facts.append((width_of(s), s is None, text))
        if wrong:
            c.violation('%s/%s' % (show(s), profile), 'with the width setting %s (%d bits): %s' % (
                show(s) if s is None or s in SETTINGS[:17] else 'unrecognised', width_of(s), wrong),
                'cd %s && %s cargo build --offline && target/debug/w %d' % (d, '' if s is None else 'TAGGED_BOX_RESERVED_WIDTH=%s' % show(s), width_of(s)), show(s))
    if control[0] and control[0].startswith('it does not build') and len({build_and_run(c, d, s, 'dev', os.path.join(TARGET, 'w-unset2'))[0] for s in ('48bits', '63bits')}) == 1:
        raise HarnessError('the crate does not build at all: %s' % control[1][-2000:])
    todo = [(s, p) for s in SETTINGS for p in ('dev', 'release')]
    for f in [c.runs.submit(one, s, p) for s, p in todo]:
        f.result()
    c.configs.append('%d settings x debug, release' % len(SETTINGS))
    c.sample('unset: ' + ' '.join(control[1].splitlines()[:5]))
    # The whole range of the constants and of the pointer operations, at the split each setting has.
    for w in (WIDTHS if c.thorough else ()):
        c.harness('ptr', w, 'dev', prop='C01')
    c.wait()
    settings = len({(a, b) for a, b, _ in facts})

    def cov(c):
        return dict(evaluations=c.counters.get('evaluations', 0), distinct_nontrivial=settings, builds=c.counters.get('builds', 0),
                    rule='every documented setting, no setting and %d unrecognised values, debug and release: five constants and the effect on every single bit of the word; '
                         'distinct_nontrivial: different splits (and unset)' % len(UNKNOWN))
    return 'exploration', cov, ['the 16 documented settings are 48bits to 63bits; anything else means 60 bits']


def tour(n):
    """A closed walk over the complete directed graph with loops on n nodes that uses every edge once."""
    edges = {a: list(range(n)) for a in range(n)}
    stack, path = [0], []
    while stack:
        v = stack[-1]
        if edges[v]:
            stack.append(edges[v].pop())
        else:
            path.append(stack.pop())
    return path[::-1]


def c06(c):
    d = project(c, 'w')
    c.count('histories', 0)
    pairs = set()

    def history(seq, profile, name, reset=False):
        """One build directory, one build after the other."""
        import shutil
        target = os.path.join(c.dir, 'target-' + name)
        past = []
        for s in seq:
            wrong, text = build_and_run(c, d, s, profile, target)
            c.count('transitions')
            if past:
                with c.lock:
                    pairs.add((past[-1], s))
            past.append(s)
            if wrong:
                # Whether it is the history that matters, or the setting on its own.
                alone, _ = build_and_run(c, d, s, profile, os.path.join(c.dir, 'alone-' + name))
                shutil.rmtree(os.path.join(c.dir, 'alone-' + name), ignore_errors=True)
                if alone is None:
                    last = past[-2:]
                    c.violation(' then '.join(show(x) for x in last), 'a build with another width setting keeps what an earlier build used: %s' % wrong,
                                'cd %s; for each of %s: set TAGGED_BOX_RESERVED_WIDTH so, cargo build --offline, run it with the width' % (d, [show(x) for x in past]), profile)
                else:
                    c.error('the setting %s alone is wrong: %s' % (show(s), alone))
                break
        shutil.rmtree(target, ignore_errors=True)
        c.count('histories')
        c.sample('%s: %s' % (profile, ' -> '.join(show(s) for s in past[:8]) + (' ...' if len(past) > 8 else '')))

    jobs = []
    if c.thorough:
        sets = [SETTINGS[:9], SETTINGS[:1] + SETTINGS[9:17], [None, '', '60bits', 'default', '48bits', '63bits', '47bits', '60BITS'],
                [None, '50bits', '56bits', '58bits', '61bits', '62bits', '52bits', '53bits'], [None, '49bits', '63bits', '51bits', '59bits', '54bits', '57bits', '60']]
        for i, s in enumerate(sets):
            walk = tour(len(s))
            # Long walks are cut to be run side by side.
            for j in range(0, len(walk) - 1, 12):
                jobs.append(([s[k] for k in walk[j:j + 13]], 'dev', 'a%d_%d' % (i, j)))
        for i, t in enumerate(itertools.product([None, '48bits', '63bits', 'x'], repeat=4)):
            jobs.append((list(t), 'dev', 't%d' % i))
        s = SETTINGS[:1] + SETTINGS[1:17:3] + ['x']
        walk = tour(len(s))
        for j in range(0, len(walk) - 1, 12):
            jobs.append(([s[k] for k in walk[j:j + 13]], 'release', 'r%d' % j))
    else:
        s = [None, '48bits', '60bits', '63bits', 'x']
        walk = tour(len(s))
        for j in range(0, len(walk) - 1, 5):
            jobs.append(([s[k] for k in walk[j:j + 6]], 'dev', 'a%d' % j))
        jobs.append((['%dbits' % w for w in WIDTHS[::2]] + ['%dbits' % w for w in WIDTHS[1::2]], 'dev', 'up'))
        jobs.append((['%dbits' % w for w in reversed(WIDTHS)], 'dev', 'down'))
        jobs.append(([None, '52bits', None, '61bits', '52bits', '', '56bits', 'default'], 'release', 'rel'))
    c.configs.append('%d histories' % len(jobs))
    for f in [c.runs.submit(history, *j) for j in jobs]:
        f.result()

    def cov(c):
        return dict(states=len({s for p in pairs for s in p}), transitions=c.counters.get('transitions', 0), traces_validated_against_impl=c.counters.get('histories', 0),
                    ordered_pairs_of_settings=len(pairs),
                    explanation='state: the setting the build directory was last used with; transition: cargo build and run under a setting; the model (last setting wins) is '
                                'compared with what the program built prints')
    return 'model_checking', cov, ['cargo and rustc as installed; one project, one build directory per history']


# ---------------------------------------------------------------- C23: other targets, no std

def c23(c):
    import nostd
    return nostd.c23(c)
