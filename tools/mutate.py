#!/usr/bin/env python3
"""Plants small changes one by one and runs the checks against each.

mutate.py PROPS FILES... [-j N] [-n MAX] [-o OUT]
  PROPS: comma-separated checks, FILES: paths relative to /repo.
Every worker has copies of /repo and /verif, shown at /repo and /verif in a mount namespace of its own, so the real trees
are never changed. A change counts as caught when one of the checks exits with 1. Survivors are written to OUT with the
result of the existing tests of the crate ("tests: pass" are those that matter).
"""
import argparse, json, multiprocessing as mp, os, re, shutil, subprocess, sys, time

BASE = '/tmp/mw'
TOKEN = re.compile(r'''
  (?P<comment>//[^\n]*|/\*.*?\*/)|(?P<str>b?r?\#*"(?:\\.|[^"\\])*"\#*)|(?P<chr>b?'(?:\\.[^']*|[^'\\])')
 |(?P<num>0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?P<suf>[iu](?:8|16|32|64|size))?
 |(?P<id>[A-Za-z_][A-Za-z_0-9]*)
 |(?P<op><<=|>>=|\.\.=|\.\.|->|=>|::|<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\|=|\^=|[-+*/%&|^!<>=])
 |(?P<nl>\n)|(?P<other>.)''', re.X | re.S)

SWAP = {'<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&'],
        '+': ['-'], '-': ['+'], '*': ['+'], '/': ['*'], '%': ['/'], '<<': ['>>'], '>>': ['<<'], '&': ['|'], '|': ['&'], '^': ['|'],
        '+=': ['-='], '-=': ['+='], '*=': ['+='], '/=': ['*='], '|=': ['&='], '&=': ['|='], '^=': ['|='], '<<=': ['>>='], '>>=': ['<<='],
        '..': ['..='], '..=': ['..']}


def strip(src):
    """Blanks what is not code under test: tests, debug output, texts of errors."""
    i = src.find('#[cfg(test)]')
    return src if i < 0 else src[:i]


def skip_ranges(src):
    out = []
    for m in re.finditer(r'(if\s+(?:self\.)?mediator\.debug_output\s*\{|if\s+\w*\.?debug_output\s*\{|keramics_core::error_trace\w*!\s*\(|error_trace\w*!\s*\(|format!\s*\(|write!\s*\(|fn fmt\s*\([^{]*\{|impl\s+(?:std::)?fmt::\w+ for [^{]*\{|fn debug_\w+\s*\([^{]*\{|#\[[^\]]*\])', src):
        o = m.end() - 1
        ch = src[o]
        if ch not in '{(':
            out.append((m.start(), m.end()))
            continue
        close = {'{': '}', '(': ')'}[ch]
        d, k = 0, o
        while k < len(src):
            if src[k] == ch: d += 1
            elif src[k] == close:
                d -= 1
                if d == 0: break
            k += 1
        out.append((m.start(), k + 1))
    return out


def mutants(path, debug=False):
    src = open('/repo/' + path).read()
    code = strip(src)
    skips = [] if debug else skip_ranges(code)
    res = []
    toks = list(TOKEN.finditer(code))
    def skipped(p): return any(a <= p < b for a, b in skips)
    in_use = False
    for n, t in enumerate(toks):
        if skipped(t.start()): continue
        line_start = code.rfind('\n', 0, t.start()) + 1
        line = code[line_start:code.find('\n', t.start())]
        ls = line.strip()
        if ls.startswith(('use ', 'pub use ', 'mod ', 'pub mod ', '#', '//')): continue
        k = t.lastgroup
        if t.group('num'):
            v = t.group('num')
            try: x = int(v.replace('_', ''), 0)
            except ValueError: continue
            alts = [x + 1] + ([x - 1] if x > 0 else [])
            if t.end() < len(code) and code[t.end()] == '.' and code[t.end()+1:t.end()+2].isdigit(): continue
            for a in alts:
                s = (hex(a) if v.startswith('0x') else str(a)) + (t.group('suf') or '')
                res.append((t.start(), t.end(), s))
        elif t.group('op'):
            op = t.group('op')
            before = code[:t.start()].rstrip()[-1:]
            after = code[t.end():t.end() + 1]
            if op in ('<', '>', '&', '*', '-', '|', '..', '>>', '<<') and not (code[t.start() - 1] == ' ' and after == ' ') and op not in ('..',):
                if op == '-' and before in '(=,<>+*/{' : pass
                continue
            if op == '!' :
                if after not in ' (=' and re.match(r'[A-Za-z_(]', after or ' ') and not re.match(r'[A-Za-z_]', code[t.start()-1]):
                    res.append((t.start(), t.end(), ''))
                continue
            if op in ('&&', '||') and op == '||' and before in '(,=': continue
            if op == '..' and before in '[({,' and after in '])': continue
            for a in SWAP.get(op, []):
                if op == '..' and not after.strip(')]} ;'): continue
                res.append((t.start(), t.end(), a))
        elif t.group('id') in ('true', 'false'):
            res.append((t.start(), t.end(), 'false' if t.group('id') == 'true' else 'true'))
        elif t.group('id') in ('break', 'continue'):
            if code[t.end():t.end() + 1] == ';':
                res.append((t.start(), t.end() + 1, 'continue;' if t.group('id') == 'break' else 'break;'))
                res.append((t.start(), t.end() + 1, '();'))
    # Statements taken out.
    for m in re.finditer(r'^[ \t]+((?:self\.|\*)?[a-z_][A-Za-z_0-9.\[\]]*\s*(?:[-+*/|&^%]|<<|>>)?=\s[^;{}]*;|[a-z_][a-z_0-9.]*\.(?:push|insert|clear|extend\w*|truncate|reset|update|seek|remove|resize|sort\w*|reverse|fill|copy_from_slice)\([^;{}]*\)\??;)', code, re.M):
        if not skipped(m.start(1)) and not m.group(1).startswith('let '):
            res.append((m.start(1), m.end(1), ''))
    out = []
    for a, b, s in sorted(set(res)):
        line = src.count('\n', 0, a) + 1
        out.append(dict(file=path, line=line, a=a, b=b, new=s, old=src[a:b], text=src[src.rfind('\n', 0, a) + 1:src.find('\n', a)].strip()))
    return out


def setup(w):
    d = f'{BASE}/{w}'
    os.makedirs(d, exist_ok=True)
    for name, src in (('repo', '/repo'), ('verif', '/verif')):
        if not os.path.exists(f'{d}/{name}'):
            subprocess.run(['cp', '-a', src, f'{d}/{name}'], check=True)
        else:
            subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', f'{src}/', f'{d}/{name}/'], check=False)
    return d


def inside(d, cmd, timeout):
    full = ['unshare', '-Urm', 'bash', '-c', f'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && {cmd}']
    p = subprocess.Popen(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, ''


def work(args):
    m, props, test = args
    w = mp.current_process()._identity[0]
    d = f'{BASE}/{w}'
    f = f'{d}/repo/{m["file"]}'
    src = open('/repo/' + m['file']).read()
    try:
        with open(f, 'w') as o: o.write(src[:m['a']] + m['new'] + src[m['b']:])
        m['result'] = 'survived'
        for p in props:
            rc, out = inside(d, f'VERIF_TIER=quick ./check.sh {p}', 400)
            if rc == 1:
                m['result'] = 'caught'; m['by'] = p
                break
            if rc != 0:
                m['result'] = 'nobuild' if 'build failed' in out or 'error' in out else f'rc{rc}'
                break
        if m['result'] != 'caught' and m['result'] != 'nobuild' and test:
            rc, out = inside(d, f'cd /repo && CARGO_NET_OFFLINE=true timeout 300 cargo test --offline -q {test} 2>&1 | tail -5; exit ${{PIPESTATUS[0]}}', 400)
            m['tests'] = 'pass' if rc == 0 else 'fail'
    except Exception as e:
        m['result'] = f'error {e}'
    finally:
        with open(f, 'w') as o: o.write(src)
    return m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('props'); ap.add_argument('files', nargs='+')
    ap.add_argument('-j', type=int, default=7); ap.add_argument('-n', type=int, default=0)
    ap.add_argument('-o', default='/tmp/w/mut.json'); ap.add_argument('--list', action='store_true')
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('--lines', default='')
    a = ap.parse_args()
    ms = [m for f in a.files for m in mutants(f, a.debug)]
    if a.lines:
        lo, hi = map(int, a.lines.split('-')); ms = [m for m in ms if lo <= m['line'] <= hi]
    if a.n and len(ms) > a.n:
        ms = [ms[i * len(ms) // a.n] for i in range(a.n)]
    if a.list:
        for m in ms: print(f"{m['file']}:{m['line']}: {m['old']!r} -> {m['new']!r}   {m['text']}")
        print(len(ms)); return
    crates = {f.split('/')[0] for f in a.files}
    buildable = {'keramics-core', 'keramics-checksums', 'keramics-hashes', 'keramics-datetime', 'keramics-encodings', 'keramics-types', 'keramics-sigscan', 'keramics-layout-map'}
    test = ' '.join(f'-p {c}' for c in crates & buildable)
    t0 = time.time()
    for w in range(1, a.j + 1): setup(w)
    done = []
    with mp.Pool(a.j) as pool:
        for m in pool.imap_unordered(work, [(m, a.props.split(','), test) for m in ms]):
            done.append(m)
            if m['result'] not in ('caught', 'nobuild'):
                print(f"{m['file']}:{m['line']}: {m['old']!r} -> {m['new']!r} {m['result']} tests={m.get('tests')}   {m['text']}", flush=True)
    json.dump(done, open(a.o, 'w'), indent=1)
    from collections import Counter
    print(Counter(m['result'] for m in done), f'{time.time() - t0:.0f}s')


main()
