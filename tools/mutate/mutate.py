"""Development aid: small mechanical changes of the code under test, to see which the simulation
leaves undetected. mutate.py list | run WORKER WORKERS OUT [PATTERN] (the latter inside a mount
namespace in which /repo is a scratch copy, see mutate.sh)."""
import hashlib, json, os, re, subprocess, sys

FILES = ['program/src/' + f for f in ('address.rs', 'duplicate_block_proof.rs', 'error.rs', 'instruction.rs',
         'lib.rs', 'processor.rs', 'shred.rs', 'sigverify.rs', 'state.rs', 'entrypoint.rs')] + \
        ['clients/cli/src/' + f for f in ('cli.rs', 'config.rs', 'main.rs', 'output.rs')]
S = [f'S{i:02}' for i in range(1, 15)]
C = [f'C{i:02}' for i in range(1, 10)]

def body(text):
    return text.split('#[cfg(test)]')[0]

def mutants(path):
    text = body(open('/repo/' + path).read())
    lines = text.split('\n')
    out = []
    def add(a, b, new, what):
        if text[a:b] != new:
            out.append((path, a, b, new, text[:a].count('\n') + 1, what))
    pos = 0
    depth_attr = False
    for n, line in enumerate(lines):
        code = line.split('//')[0]
        start = pos
        pos += len(line) + 1
        t = code.strip()
        if not t or t.startswith(('#', 'use ', 'pub use', 'mod ', 'pub mod')):
            continue
        for pat, news in ((r'(?<![<>=!+\-*/&|])<=(?!=)', ['<']), (r'(?<![<>=\-])>=', ['>']),
                          (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']),
                          (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|(?= )', ['&&']),
                          (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' + ']), (r' / ', [' * ']),
                          (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
                          (r'\bsaturating_add\b', ['saturating_sub', 'wrapping_add']), (r'\bsaturating_sub\b', ['saturating_add', 'wrapping_sub']),
                          (r'\bchecked_add\b', ['checked_sub']), (r'\bchecked_sub\b', ['checked_add']),
                          (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']), (r'\bany\(', ['all(']), (r'\ball\(', ['any(']),
                          (r'\bis_some\b', ['is_none']), (r'\bis_none\b', ['is_some']), (r'\bis_ok\b', ['is_err']), (r'\bis_err\b', ['is_ok']),
                          (r'\bfirst\(\)', ['last()']), (r'\blast\(\)', ['first()']),
                          (r'\.skip\(1\)', ['']), (r'\.rev\(\)', ['']), (r'\bbreak;', ['continue;']), (r'\bcontinue;', ['break;']),
                          (r'(?<=[ (])!(?=[a-z(])', ['']), (r'\.\.=', ['..']), (r'_le_bytes', ['_be_bytes']),
                          (r'\bshred1\b', ['shred2']), (r'\bshred2\b', ['shred1']), (r'\breporter\b(?!:)', ['destination']),
                          (r'\bdestination\b(?!:)', ['reporter'])):
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2:
                    continue
                for new in news:
                    add(start + m.start(), start + m.end(), new, f'{m.group().strip()} -> {new.strip()}')
        for m in re.finditer(r'(?<![\w.#])(0x[0-9a-f]+|\d[\d_]*)(?![\w.]|\.\d)', code):
            if code[:m.start()].count('"') % 2:
                continue
            v = int(m.group().replace('_', ''), 0)
            for w in (v + 1, v - 1):
                if w >= 0:
                    add(start + m.start(), start + m.end(), str(w), f'{m.group()} -> {w}')
        m = re.match(r'\s*(?:\} else )?if (?!let\b)(.*) \{$', code)
        if m:
            a, b = start + m.start(1), start + m.end(1)
            add(a, b, 'true || (' + m.group(1) + ')', 'if true')
            add(a, b, 'false && (' + m.group(1) + ')', 'if false')
    # statements
    for m in re.finditer(r'(?<=[;{}]\n)( +)(?!let |return|use |//|#|fn |pub |const |static |if |for |while |loop|match |else|impl |struct |enum |mod |\}|\.|break|continue)([^;{}]*(?:\{[^{}]*\}[^;{}]*)*);\n', text):
        if m.group(2).startswith(('msg!', 'solana_program::msg')):
            continue
        if re.match(r'[A-Za-z_*]', m.group(2)) and not re.match(r'[a-z_0-9]+: ', m.group(2)):
            add(m.start(2), m.end() - 1, '', 'delete ' + ' '.join(m.group(2).split())[:60])
    # whole if-statements that only refuse
    return out

def everything():
    return [m for f in FILES for m in mutants(f)]

def ident(m):
    return hashlib.sha256(repr(m[:4]).encode()).hexdigest()[:10]

if sys.argv[1] == 'list':
    for m in everything():
        print(ident(m), m[0], m[4], m[5])
    sys.exit()

worker, workers, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
pattern = sys.argv[5] if len(sys.argv) > 5 else ''
base = f'/tmp/mut/{worker}'
env = dict(os.environ, RUSTUP_TOOLCHAIN='1.86.0', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=base + '/target')
done = set()
if os.path.exists(out):
    done = {json.loads(l)['id'] for l in open(out)}
todo = [m for i, m in enumerate(everything()) if i % workers == worker and re.search(pattern, f'{m[0]} {m[4]} {m[5]}')]
for m in todo:
    path, a, b, new, line, what = m
    if ident(m) in done:
        continue
    full = '/repo/' + path
    text = open(full).read()
    open(full, 'w').write(text[:a] + new + text[b:])
    res = {'id': ident(m), 'file': path, 'line': line, 'what': what}
    try:
        r = subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet', '-j', '3'], cwd='/tmp/mutsim', env=env,
                           capture_output=True, text=True)
        if r.returncode:
            res['result'] = 'does not build'
        else:
            props = (S + ['C01', 'C05', 'C07'] if path.startswith('program') else C)
            n = '40'
            with open(base + '/out', 'w') as f:
                try:
                    r = subprocess.run([base + '/target/release/slashsim', 'hunt', n] + props, stdout=f, stderr=subprocess.DEVNULL, timeout=400)
                    code = r.returncode
                except subprocess.TimeoutExpired:
                    code = 'timeout'
            tail = open(base + '/out', errors='replace').read()[-2000:].strip().split('\n')[-1]
            res['result'] = 'survived' if code == 0 else 'caught'
            res['by'] = tail[:200] if code == 1 else f'exit {code}'
    finally:
        open(full, 'w').write(text)
    with open(out, 'a') as f:
        f.write(json.dumps(res) + '\n')
