#!/usr/bin/env python3
"""Mutation campaign (a development tool, no check uses it).

usage: mutate.py LIST OUT     LIST: lines "file<TAB>line<TAB>new text"; run where /repo and /verif are scratch copies
       mutate.py --gen N SEED > LIST
Each mutant that builds and passes the library's tests is run against the checks of C01-C29 (in one
program, reduced volume) until one reports a violation."""
import os, random, re, subprocess, sys, glob

REL = {
    'stream': 'c01 c02 c29 c16 c15 c03 c05'.split(), 'connection/': 'c04 c01 c10 c08 c02 c05 c03 c11 c12'.split(),
    'auth': 'c12 c13 c14 c28'.split(), 'crypt': 'c28 c12 c13'.split(), 'pool': 'c17 c18 c20 c19'.split(),
    'model': 'c27 c26'.split(), 'macros': 'c26 c27'.split(), 'migrator': ['c25'], 'types/value': 'c21 c06 c07 c09 c23'.split(),
    'handshake': 'c14 c12 c10 c15'.split(), 'escape': ['c22'], 'hex': ['c24'], 'ok.rs': 'c11 c08'.split(), 'err': ['c10'],
    'packets': 'c15 c14 c10 c09 c07 c11'.split(), 'types': 'c06 c07 c09 c21 c23'.split(), 'error': ['c15', 'c10'],
}
ALL = ['c%02d' % i for i in range(1, 30)]


def files():
    out = []
    for base in ('/repo/src', '/repo/macros/src'):
        for f in glob.glob(base + '/**/*.rs', recursive=True):
            if 'test' not in os.path.basename(f):
                out.append(f)
    return sorted(out)


def mutants(f):
    src = open(f).read().split('\n')
    in_test = False
    for i, l in enumerate(src):
        s = l.strip()
        if '#[cfg(test)]' in l:
            in_test = True
        if in_test or not s or s.startswith(('//', 'use ', '#', 'pub use', 'mod ', 'pub mod', '*', 'extern')):
            continue
        code = l.split('//')[0]
        subs = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
                (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '),
                (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' / '), (r'<<', '>>'), (r'>> ', '<< '), (r' & ', ' | '), (r' \| ', ' & '),
                (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bif !', 'if '), (r'\.min\(', '.max('), (r'\.max\(', '.min('),
                (r'\bbreak\b', 'continue'), (r'\bcontinue\b', 'break'), (r'\bSome\(', 'None.or('), (r'\.is_some\(', '.is_none('), (r'\.is_none\(', '.is_some('),
                (r'\.is_empty\(\)', '.len() == 1'), (r'\bOk\(Some\(.*\)\)$', 'Ok(None)'), (r'\.\.=', '..'),
                (r' as u16', ' as u8 as u16'), (r' as u32', ' as u16 as u32'), (r' as u64', ' as u32 as u64'), (r' as usize', ' as u16 as usize'), (r'\.first\(', '.last('), (r'\.last\(', '.first('),
                (r'checked_', 'wrapping_'), (r'\.rev\(\)', ''), (r'\.take\(\)', '.clone()'), (r'\?;', ';'), (r'\.is_ok\(', '.is_err('), (r'\.any\(', '.all('), (r'\.all\(', '.any(')]
        for a, b in subs:
            for m in re.finditer(a, code):
                yield i, code[:m.start()] + b + code[m.end():]
        for m in re.finditer(r'(?<![\w.])(0x[0-9A-Fa-f_]+|\d[\d_]*)(?![\w.])', code):
            t = m.group(1).replace('_', '')
            v = int(t, 16) if t.startswith('0x') else int(t)
            yield i, code[:m.start()] + str(v + 1) + code[m.end():]
            if v > 0:
                yield i, code[:m.start()] + str(v - 1) + code[m.end():]
        m = re.match(r'^(\s*)(\} else )?if (?!let )(.*) \{$', code)
        if m:
            for t in ('true || ', 'false && '):
                yield i, '%s%sif %s(%s) {' % (m[1], m[2] or '', t, m[3])
        if re.match(r'^\s*[\w.:&*<>]+.*\);?$', code) and s.endswith(';') and not s.startswith(('let', 'return', 'const', 'static', 'type', 'fn', 'pub')):
            yield i, ''


def gen(n, seed):
    rng = random.Random(seed)
    allm = []
    for f in files():
        if f.endswith(('bitflags.rs', 'error/mod.rs')):
            continue
        ms = [(f, i, t) for i, t in mutants(f)]
        rng.shuffle(ms)
        allm.append(ms)
    # files in proportion to the square root of their mutants
    pool = []
    for ms in allm:
        k = max(3, int(len(ms) ** 0.75))
        pool += ms[:k]
    rng.shuffle(pool)
    for f, i, t in pool[:n]:
        print('%s\t%d\t%s' % (f, i, t))


def order(f):
    o = []
    for k, v in REL.items():
        if k in f:
            o += v
    return list(dict.fromkeys(o + ALL))


def run(lst, out):
    env = dict(os.environ, CARGO_NET_OFFLINE='true', VH_EVIDENCE='0', VH_ROOT='/verif', VH_SHARE='150', VH_GROUP_MS='2500', VERIF_SEED='1', VERIF_TIER='quick', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_INCREMENTAL='true', CARGO_PROFILE_DEV_OPT_LEVEL='0', VH_TMP='/verif/target/mutrun', RUSTUP_TOOLCHAIN='stable')
    os.makedirs(env['VH_TMP'], exist_ok=True)
    T = '/verif/target/mutate'
    def sh(a, t, **k):
        try:
            r = subprocess.run(a, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **k)
            return r.returncode, r.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            return 'timeout', ''
    for line in open(lst):
        f, i, new = line.rstrip('\n').split('\t', 2)
        i = int(i)
        src = open(f).read()
        ls = src.split('\n')
        old = ls[i]
        ls[i] = new
        open(f, 'w').write('\n'.join(ls))
        res = ''
        try:
            rc, o = sh(['cargo', 'test', '--offline', '--workspace', '--all-features', '--lib', '--target-dir', T + '/t'], 600, cwd='/repo')
            if rc != 0:
                res = 'tests' if 'test result: FAILED' in o or rc == 'timeout' else 'nobuild'
            else:
                rc, o = sh(['cargo', 'build', '--offline', '--manifest-path', '/verif/harness/Cargo.toml', '--target-dir', T + '/m', '--features', 'models,plainalloc', '--bin', 'many'], 900)
                if rc != 0:
                    res = 'nobuild-harness'
                else:
                    odd = []
                    for c in order(f):
                        rc, o = sh([T + '/m/debug/many', c], 300)
                        if rc == 1 and 'VIOLATION' in o:
                            res = 'killed ' + c
                            break
                        if rc != 0:
                            odd.append('%s:%s' % (c, rc))
                    if not res:
                        res = 'SURVIVED ' + ' '.join(odd)
        finally:
            open(f, 'w').write(src)
        with open(out, 'a') as h:
            h.write('%s\t%s:%d\t%s\t=>\t%s\n' % (res, f.replace('/repo/', ''), i + 1, old.strip(), new.strip()))


if sys.argv[1] == '--gen':
    gen(int(sys.argv[2]), int(sys.argv[3]))
else:
    run(sys.argv[1], sys.argv[2])
