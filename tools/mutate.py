#!/usr/bin/env python3
"""Development tool (no check uses it): plant small mutations in a scratch copy of /repo, keep those that pass the
tests, and see which checks notice.   mutate.py SCRATCH OUT.jsonl FILE-REGEX COUNT [SALT]"""
import re, os, sys, subprocess, json, random, shutil, time
scratch, out, filt, count = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
salt = sys.argv[5] if len(sys.argv) > 5 else '1'
repo, verif = scratch + '/repo', scratch + '/verif'
MAP = [
    (r'src/solver\.rs', 'C01 C02 C03'),
    (r'src/generator\.rs', 'C12 C11 C13 C14'),
    (r'canonicalization', 'C15 C16 C17 C14'),
    (r'positions\.rs', 'C25 C23 C18 C19 C20'),
    (r'bitset\.rs', 'C24 C23 C20'),
    (r'src/strategy', 'C20 C19 C18 C21 C22 C23 C26'),
    (r'board/sudoku\.rs', 'C05 C06 C07 C08 C09 C10 C12 C14 C03 C17 C13 C02'),
    (r'errors\.rs', 'C05 C06 C07 C09'),
    (r'src/helper', 'C20 C01 C23'),
    (r'.', 'C23 C25 C08 C24'),
]
def setup():
    os.makedirs(scratch, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '/repo/', repo + '/'], check=True) if shutil.which('rsync') else subprocess.run(f'mkdir -p {repo} && cp -a /repo/. {repo}/', shell=True, check=True)
    os.makedirs(verif, exist_ok=True)
    subprocess.run(f'cp -a /verif/mc /verif/vendor /verif/tools /verif/check.sh /verif/known_findings.json {verif}/', shell=True, check=True)
ENV = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TARGET_DIR=repo + '/target', RUSTC_WRAPPER='')
def sh(cmd, cwd, t):
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, ''
SUBS = [(r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r'&&', '||'), (r'\|\|', '&&'),
        (r' \+ ', ' - '), (r' - ', ' + '), (r' % ', ' / '), (r' / ', ' % '), (r' \* ', ' + '), (r'\|=', '^='), (r'\|=', '&='), (r'&=', '|='), (r'\^=', '|='), (r' & ', ' | '), (r' \| ', ' & '), (r' \^ ', ' | '),
        (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bcontinue\b', 'break'), (r'\bbreak\b', 'continue'), (r'&!', '&'), (r'(?<=[ (])!(?=[a-z(])', ''), (r'<<', '>>'), (r'>>', '<<'), (r'\.\.=', '..'), (r'0\.\.', '1..'), (r'\.min\(', '.max('), (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'Ok\(\(\)\)', 'Err(Unsolvable)'), (r'Err\(Unsolvable\)', 'Ok(())'), (r'\?;', ';')]
def mutants():
    v = []
    for root, _, fs in os.walk(repo + '/src'):
        for f in sorted(fs):
            p = os.path.join(root, f)
            rel = os.path.relpath(p, repo)
            if not re.search(filt, rel):
                continue
            lines = open(p).read().split('\n')
            for n, l in enumerate(lines):
                if re.match(r'\s*#\[cfg\(test\)\]', l):
                    break
                if re.match(r'\s*(//|#\[|#!\[|use |pub use|mod |pub mod|macro_rules)', l) or not l.strip():
                    continue
                code = l.split('//')[0]
                if re.fullmatch(r'[\s0-9a-fA-Fxo_,()\[\]]*', code) or 'debug_assert' in code:
                    continue  # a row of a table, or no effect
                for a, b in SUBS:
                    for m in re.finditer(a, code):
                        v.append((rel, n, l[:m.start()] + b + l[m.end():]))
                for m in re.finditer(r'(?<![\w.])(0[xo][0-9a-fA-F_]+|\d[\d_]*)(?![\w.]*:)', code):
                    t = m.group(0)
                    try:
                        x = int(t.replace('_', ''), 0)
                    except ValueError:
                        continue
                    if t[:2] in ('0x', '0o'):
                        b = random.Random(f'{salt}{rel}{n}{m.start()}').randrange(max(1, x.bit_length()))
                        y = x ^ (1 << b)
                        v.append((rel, n, l[:m.start()] + (hex(y) if t[1] == 'x' else oct(y)) + l[m.end():]))
                    else:
                        v.append((rel, n, l[:m.start()] + str(x + 1) + l[m.end():]))
                        if x:
                            v.append((rel, n, l[:m.start()] + str(x - 1) + l[m.end():]))
                if re.match(r'\s*[a-z_.()\[\]*&]+.*;\s*$', code) and not re.match(r'\s*(let|return|use|break|continue)\b', code):
                    v.append((rel, n, re.match(r'\s*', l).group(0) + '// removed'))
    return v
setup()
ms = [m for m in mutants()]
random.Random(salt).shuffle(ms)
# no more than 3 per line
seen, sel = {}, []
for m in ms:
    k = m[:2]
    if seen.get(k, 0) < 2:
        seen[k] = seen.get(k, 0) + 1
        sel.append(m)
sel = sel[:count]
print(len(ms), 'mutants,', len(sel), 'selected', flush=True)
stat = {}
for rel, n, new in sel:
    p = os.path.join(repo, rel)
    orig = open('/repo/' + rel).read()
    lines = orig.split('\n')
    old = lines[n]
    lines[n] = new
    open(p, 'w').write('\n'.join(lines))
    rec = dict(file=rel, line=n + 1, old=old.strip(), new=new.strip())
    t0 = time.time()
    sh(['bash', '-c', 'rm -rf target/debug/.fingerprint/sudoku-*'], repo, 20)
    rc, o = sh(['cargo', 'test', '--workspace', '--no-run', '--offline', '--locked'], repo, 200)
    if rc:
        rec['result'] = 'does not build'
    else:
        rc, o = sh(['cargo', 'test', '--workspace', '--offline', '--locked'], repo, 60)
        if rc:
            rec['result'] = 'killed by the tests'
        else:
            rec['result'] = 'NOT CAUGHT'
            rec['tried'] = []
            # one build only (release, with debug assertions); check.sh also explores a second one
            rc, o = sh(['bash', '-c', '. tools/env.sh; export CARGO_TARGET_DIR=%s/.build/target-release; rm -rf $CARGO_TARGET_DIR/release/.fingerprint/sudoku-*; cd mc && cargo build --profile release --offline --locked && mkdir -p ../.build/release && cp -f $CARGO_TARGET_DIR/release/sudoku-mc ../.build/release/' % verif], verif, 400)
            if rc:
                rec['result'] = 'the harness does not build'
            for c in [] if rc else next(v for k, v in MAP if re.search(k, rel)).split():
                os.makedirs(verif + '/evidence', exist_ok=True)
                ENV['VERIF_ROOT'] = verif
                rc, o = sh(['.build/release/sudoku-mc', 'run', c, 'quick'], verif, 900)
                rec['tried'].append([c, rc])
                if rc == 1:
                    rec['result'] = 'caught'
                    rec['by'] = c
                    break
                if rc not in (0, 1):
                    rec['result'] = f'check error {rc}'
                    rec['out'] = o[-500:]
                    break
    rec['s'] = round(time.time() - t0)
    stat[rec['result']] = stat.get(rec['result'], 0) + 1
    open(p, 'w').write(orig)
    open(out, 'a').write(json.dumps(rec) + '\n')
    print(rec['result'], rel, n + 1, '|', old.strip()[:80], '->', new.strip()[:80], flush=True)
print(stat)
