#!/usr/bin/env python3
"""Small random changes to /repo's sources, kept where the tests do not notice, and put to
the checks, all in scratch copies. mutants.py OUT.jsonl [COUNT [SEED [WORKERS]]]
A line per change: what it is, and which checks noticed it at a tenth of their work."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading
out = sys.argv[1]
count = int(sys.argv[2]) if len(sys.argv) > 2 else 100
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
workers = int(sys.argv[4]) if len(sys.argv) > 4 else 3
ORDER = 'C03 C05 C04 C02 C12 C18 C09 C10 C15 C16 C11 C23 C06 C07 C08 C13 C17 C20 C19 C25 C24 C01 C21 C26 C27'.split()
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
if os.environ.get('CHECKS'): ORDER = os.environ['CHECKS'].split()

def source_spans(text):
    """offsets outside comments and test modules"""
    cut = text.find('#[cfg(test)]')
    return len(text) if cut < 0 else cut

def close(s, i):
    """offset after the bracket that closes the one at i"""
    d = 0; q = None
    while i < len(s):
        c = s[i]
        if q:
            if c == '\\': i += 1
            elif c == q: q = None
        elif c == '"': q = c
        elif c == "'" and re.match(r"'(\\.|[^\\])'", s[i:]): i += re.match(r"'(\\.[^']*|[^\\])'", s[i:]).end() - 1
        elif c in '([{': d += 1
        elif c in ')]}':
            d -= 1
            if d == 0: return i + 1
        i += 1
    return len(s)

SWAPS = [(' == ', ' != '), (' != ', ' == '), (' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '),
 (' && ', ' || '), (' || ', ' && '), ('true', 'false'), ('false', 'true'), (' + ', ' - '), (' - ', ' + '),
 (' += ', ' -= '), (' -= ', ' += '), (' += ', ' = '), ('many1(', 'many('), ('many(', 'many1('), ('sep_by1(', 'sep_by('),
 ('saturating_sub', 'saturating_add'), ('saturating_add', 'saturating_sub'), ('trim_start', 'trim_end'), ('trim_end', 'trim_start'),
 ('starts_with', 'ends_with'), ('ends_with', 'starts_with'), ('.find(', '.rfind('), ('.min(', '.max('), ('.max(', '.min('),
 ('.any(', '.all('), ('.all(', '.any('), ('.is_empty()', '.len() == 1'), ('..=', '..'), ('is_none()', 'is_some()'), ('is_some()', 'is_none()'),
 ('if let Some', 'if let None'), ('.first()', '.last()'), ('.last()', '.first()'), ('.is_ascii_digit()', '.is_ascii_hexdigit()'),
 ('.is_ascii_hexdigit()', '.is_ascii_digit()'), ('is_alphanumeric', 'is_alphabetic'), ('continue', 'break'), ('.rev()', ''), ('.trim()', ''),
 ('char_indices', 'char_indices().skip(1)'), ('.chars()', '.chars().skip(1)'), ('lines()', "split('\\n')"), ('Int', 'Float'), ('attempt(', '('),
 ('string_value(', 'name('), ('kind(T::Name)', 'kind(T::StringValue)'), ('parse_value', 'default_value'), ('default_value', 'value'),
 ('Name', 'IntValue'), ('to_lowercase', 'to_uppercase'), ('Query', 'Mutation'), ('Object', 'Interface'), ('Interface', 'Object'),
 ('InputObject', 'Interface'), ('Variable', 'Enum'), ('u32', 'u16'), ('i64', 'i32'), ('f64', 'f32'), ('usize', 'u8'), ('.as_ref()', ''), ('.skip(', '.with('), ('.with(', '.skip('),
 ('?;', '.ok();'), ('ListType', 'NonNullType'), ('indent()', 'margin()'), ('margin()', 'endline()'), ('endline()', 'margin()'), ('.write(" ")', '.write("")'), ('column', 'line'), ('line', 'column'), ('name', 'description'), ('.position', '.position.clone()')]
PUNCT = ['!', '$', '(', ')', '...', ':', '=', '@', '[', ']', '{', '|', '}', '&']

def mutants():
    res = []
    for root, _, files in os.walk(REPO + '/src'):
        for f in sorted(files):
            if not f.endswith('.rs'): continue
            p = os.path.relpath(os.path.join(root, f), REPO)
            s = open(REPO + '/' + p).read()
            end = source_spans(s)
            def add(a, b, new, what):
                if a >= end or s[a:b] == new: return
                ls = s.rfind('\n', 0, a) + 1
                if s[ls:a].lstrip().startswith(('//', '#[')) or s[ls:].lstrip(' ').startswith(('//', 'use ', 'pub use')): return
                res.append((p, a, b, new, what))
            for x, y in SWAPS:
                for m in re.finditer(re.escape(x), s):
                    if x.isalnum() and (s[m.start() - 1].isalnum() or s[m.end()].isalnum() or s[m.end()] == '_'): continue
                    add(m.start(), m.end(), y, f'{x.strip()} -> {y.strip()}')
            for m in re.finditer(r'(?<![\w.])\d+(?![\w.])', s):
                n = int(m[0])
                for k in {n + 1, max(n - 1, 0), 2 * n, 0}: add(m.start(), m.end(), str(k), f'{n} -> {k}')
            for m in re.finditer(r"'(\\[^']+|[^\\'])'", s):
                for k in ["' '", "'\\t'", "'x'", "'\\n'"]: add(m.start(), m.end(), k, f'{m[0]} -> {k}')
            for m in re.finditer(r'"([^"\\\n]|\\.)*"', s):
                add(m.start(), m.end(), '""', f'{m[0]} -> ""')
                add(m.start(), m.end(), m[0][:-1] + ' "', f'{m[0]} + space')
                add(m.start(), m.end(), '"' + m[0][2:], f'{m[0]} without its first character')
                if m[0][1:-1] in PUNCT:
                    for k in PUNCT: add(m.start(), m.end(), f'"{k}"', f'{m[0]} -> {k}')
            for m in re.finditer(r'\n[^\n]*[;,](?=\n)', s):
                t = m[0].strip()
                if t.startswith(('let ', 'use ', 'pub ', 'type ', 'return ', '//')) or not t or t[0] in '})': continue
                add(m.start() + 1, m.end() + 1, '', f'without line: {t}')
            lines = [(m.start(), m.end(), m[0]) for m in re.finditer(r'[^\n]*\n', s)]
            for (a, _, x), (_, d, y) in zip(lines, lines[1:]):
                if x.strip().endswith((';', ',', ')')) and y.strip().endswith((';', ',', ')')) and x != y and not (re.match(r'\s*(pub )?[\w]+(: [^()]*)?,$', x) or re.match(r'\s*(pub )?[\w]+(: [^()]*)?,$', y)): add(a, d, y + x, f'swapped lines: {x.strip()} / {y.strip()}')
            for w in ['.skip(', '.or(', '.map(', '.filter(', '.with(', '.and_then(', '.unwrap_or(', '.skip_while(', '.take(', '.chain(', '.trim_start_matches(']:
                for m in re.finditer(re.escape(w), s):
                    add(m.start(), close(s, m.end() - 1), '', f'without {w}')
            for m in re.finditer(r'\b(if|while) ((?!let)[^{\n]*) \{', s):
                add(m.start(2), m.end(2), f'!({m[2]})', f'negated {m[2]}')
                if m[1] == 'if':
                    add(m.start(2), m.end(2), f'true || {m[2]}', f'always {m[2]}')
                    add(m.start(2), m.end(2), f'false && {m[2]}', f'never {m[2]}')
    random.Random(seed).shuffle(res)
    return res

lock = threading.Lock()
done = {json.loads(l)['key'] for l in open(out)} if os.path.exists(out) else set()
todo = [m for m in mutants() if f'{m[0]}:{m[1]}:{m[2]}:{m[3]}' not in done]
print(len(todo), 'to choose from', flush=True)
kept = [0]

def run(cmd, cwd, t, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 124, 'timeout'

def work(k):
    S = tempfile.mkdtemp(prefix=f'mut{k}-')
    try:
        R, V = S + '/repo', S + '/verif'
        os.mkdir(V)
        subprocess.run(['cp', '-a', REPO, R], check=True)
        for f in ['harness', 'corpus', 'check.sh', 'build.sh', 'known-findings.txt', 'MANIFEST.json', 'properties.jsonl']:
            subprocess.run(['cp', '-a', HOME + '/' + f, V + '/' + f], check=True)
        c = open(V + '/harness/Cargo.toml').read().replace(f'path = "{REPO}"', f'path = "{R}"')
        open(V + '/harness/Cargo.toml', 'w').write(c)
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=R)
        env = dict(os.environ, CARGO_TARGET_DIR=S + '/t', CARGO_NET_OFFLINE='true', CARGO_BUILD_JOBS='3', GQLV_SCALE=os.environ.get('GQLV_SCALE', '0.1'), GQLV_HOME=V, VERIF_SEED='1')
        env.pop('RUSTFLAGS', None)
        while True:
            with lock:
                if not todo or kept[0] >= count: return
                p, a, b, new, what = todo.pop()
            s = open(REPO + '/' + p).read()
            open(R + '/' + p, 'w').write(s[:a] + new + s[b:])
            rec = {'key': f'{p}:{a}:{b}:{new}', 'at': f"{p}:{s.count(chr(10), 0, a) + 1}", 'what': what}
            rc, o = run(['cargo', 'test', '--offline', '-q', '--lib', '--tests'], R, 120, dict(env, RUSTFLAGS='-Awarnings'))
            if rc != 0:
                rec['out'] = o[-600:]; rec['state'] = 'hang in tests' if rc == 124 else 'no build' if 'could not compile' in o else 'tests'
            else:
                with lock: kept[0] += 1
                rc, o = run(['cargo', 'build', '--offline', '--locked', '--release', '--manifest-path', V + '/harness/Cargo.toml'], S, 400, env)
                if rc != 0: rec['state'] = 'harness does not build'; rec['out'] = o[-500:]
                else:
                    rec['state'] = 'survived'; rec['rc'] = {}
                    for c in ORDER:
                        rc, o = run(['bash', '-c', f'ulimit -v 6000000; exec {S}/t/release/gqlv run {c} quick'], S, 200, env)
                        if rc: rec['rc'][c] = rc
                        if rc == 1:
                            rec['state'] = 'caught'
                            if not os.environ.get('ALL'): break
            open(R + '/' + p, 'w').write(s)
            with lock: open(out, 'a').write(json.dumps(rec) + '\n')
    finally:
        shutil.rmtree(S, ignore_errors=True)

ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
