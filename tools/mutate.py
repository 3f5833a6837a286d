#!/usr/bin/env python3
"""Mutation campaign (dev tool, no check uses it): applies small random changes
to copies of /repo and looks whether the checks notice them.
usage: mutate.py N [SEED] [FILE-SUBSTRING]     results in /tmp/mut/results.jsonl
       mutate.py --list
"""
import sys, os, re, json, random, subprocess, pathlib, shutil, threading, queue, time
R = '/repo'
OUT = pathlib.Path('/tmp/mut')
SLOTS = int(os.environ.get('SLOTS', '4'))
SCALE = os.environ.get('MON_SCALE', '0.12')
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', MON_SCALE=SCALE, MON_WORKERS='2')
RELEVANT = [
 ('events/tick_beam', ['C23']),
 ('events/', ['C22', 'C15']),
 ('views/list_view', ['C12', 'C11', 'C26', 'C29', 'C27']),
 ('views/input_field_content', ['C13', 'C15', 'C14']),
 ('views/pos', ['C13', 'C15', 'C14']),
 ('views/input_field', ['C14', 'C15', 'C13', 'C26', 'C29']),
 ('views/progress', ['C25', 'C26']),
 ('views/', ['C08', 'C09', 'C10', 'C26', 'C29', 'C27']),
 ('ask', ['C21']),
 ('macros', ['C20', 'C21', 'C29']),
 ('area', ['C24', 'C10', 'C08', 'C11', 'C14', 'C29', 'C26']),
 ('rect', ['C24', 'C26']),
 ('serde/', ['C16', 'C17']),
 ('parse/', ['C17', 'C16']),
 ('color', ['C17', 'C18', 'C16']),
 ('styled_char', ['C18', 'C16', 'C08', 'C04', 'C07', 'C24']),
 ('compound_style', ['C04', 'C18', 'C17', 'C19', 'C07', 'C26']),
 ('line_style', ['C05', 'C18', 'C17', 'C01', 'C16']),
 ('scrollbar_style', ['C16', 'C18', 'C08', 'C11']),
 ('table_border', ['C03', 'C16', 'C19']),
 ('tbl', ['C03', 'C28', 'C01', 'C26']),
 ('fit/tbl_fit', ['C03', 'C01', 'C26']),
 ('fit/wrap', ['C02', 'C01', 'C03', 'C26', 'C28', 'C05']),
 ('tokens', ['C02', 'C01', 'C03', 'C26']),
 ('fit/', ['C06', 'C07', 'C11', 'C03', 'C26', 'C02']),
 ('spacing', ['C05', 'C07', 'C03', 'C06', 'C11', 'C26', 'C14']),
 ('code', ['C05', 'C01', 'C28', 'C02', 'C26']),
 ('', ['C04', 'C05', 'C01', 'C02', 'C03', 'C28', 'C06', 'C19', 'C18', 'C08', 'C20', 'C29', 'C26', 'C16', 'C17', 'C21']),
]
def relevant(f):
    f = f.replace('src/', '', 1)
    for k, v in RELEVANT:
        if f.startswith(k): return v
OPS = [
 (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r' % ', ' * '),
 (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
 (r' < ', ' > '), (r' > ', ' < '),
 (r' && ', ' || '), (r' \|\| ', ' && '), (r'\bif !', 'if '), (r'\bif (?!let|!)', 'if !'),
 (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
 (r' \+= ', ' -= '), (r' -= ', ' += '), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b1\b', '0'), (r'\b2\b', '3'), (r'\b([3-9]|\d\d+)\b', lambda m: str(int(m.group(0)) + 1)),
 (r'\bSome\(([^()]*)\)', 'None'), (r'saturating_sub', 'wrapping_sub'), (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'),
 (r'\.\.=', '..'), (r'\bLeft\b', 'Right'), (r'\bRight\b', 'Left'), (r'\bfirst\b', 'last'), (r'\bmin_width\b', 'max_width'), (r'\bwidth\b', 'height'), (r'\bheight\b', 'width'),
 (r'\btop\b', 'left'), (r'\bleft\b', 'top'), (r'\bright_margin\b', 'left_margin'), (r'\bleft_margin\b', 'right_margin'),
 (r'\bitalic\b', 'bold'), (r'\bbold\b', 'italic'), (r'\bforeground\b', 'background'), (r'\bbackground\b', 'foreground'), (r'\bfg\b', 'bg'), (r'\bbg\b', 'fg'),
 (r'\.rev\(\)', ''), (r'\.skip\((\w+)\)', ''), (r'\bstart\b', 'end'), (r'\bend\b', 'start'), (r'\bx\b', 'y'), (r'\by\b', 'x'),
]
def code_lines(f):
    t = open(f).read().split('\n')
    intest = False
    for i, l in enumerate(t):
        if '#[cfg(test)]' in l or re.match(r'\s*mod \w*test', l): intest = True
        s = l.strip()
        if intest or not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('///'): continue
        if re.match(r'(pub )?(use|mod|fn|struct|enum|impl|static|const)\b', s) and '=' not in s: continue
        if re.match(r'[\w{}, ]+,?$', s) and '(' not in s and '=' not in s: continue
        yield i, l
def mutants():
    out = []
    for f in sorted(pathlib.Path(R, 'src').rglob('*.rs')):
        rel = str(f.relative_to(R))
        if rel == 'src/lib.rs' or rel.endswith('mod.rs') and 'fit' not in rel and 'parse' not in rel: continue
        for i, l in code_lines(f):
            body = l.split(' // ')[0]
            for k, (pat, rep) in enumerate(OPS):
                for m in re.finditer(pat, body):
                    new = body[:m.start()] + m.expand(rep) if isinstance(rep, str) else body[:m.start()] + rep(m)
                    new += body[m.end():]
                    out.append((rel, i, new))
            s = body.strip()
            if s.endswith(';') and not re.match(r'(let|return|use|pub|const|static|type|break|continue)\b', s) and body.count('(') == body.count(')') and '}' not in s:
                out.append((rel, i, '// deleted'))
    return out
def sh(cmd, cwd=None, env=None, timeout=None):
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired as e:
        sh("true")
        class X: returncode = 124; stdout = 'timeout'
        return X
def slot(n, q, lock):
    d = OUT / f's{n}'
    if not (d/'repo').is_dir():
        d.mkdir(parents=True, exist_ok=True)
        sh(f'git clone -q {R} {d}/repo && cp {R}/Cargo.lock {d}/repo/')
    sh(f'git fetch -q && git reset -q --hard origin/HEAD', cwd=d/'repo')
    shutil.rmtree(d/'harness', ignore_errors=True)
    sh(f'cp -a /verif/harness {d}/harness && rm -rf {d}/harness/target && sed -i "s#\\"/repo\\"#\\"{d}/repo\\"#" {d}/harness/Cargo.toml && cp /verif/known_findings.json {d}/')
    env = dict(ENV, VERIF_DIR=str(d), CARGO_TARGET_DIR=str(d/'target'), MON_TSAN_EXE=str(d/'target/debug/mon'))
    tenv = dict(ENV, CARGO_TARGET_DIR=str(d/'ttarget'))
    b = sh(f'cargo build --offline --manifest-path {d}/harness/Cargo.toml', env=env)
    assert b.returncode == 0, b.stdout[-2000:]
    while True:
        try: rel, i, new = q.get_nowait()
        except queue.Empty: return
        p = d/'repo'/rel
        orig = p.read_text()
        lines = orig.split('\n')
        old = lines[i]
        lines[i] = new
        p.write_text('\n'.join(lines))
        t0 = time.time()
        res = {'file': rel, 'line': i + 1, 'old': old.strip(), 'new': new.strip()}
        try:
            b = sh(f'cargo build --offline --manifest-path {d}/harness/Cargo.toml', env=env)
            if b.returncode: res['r'] = 'nobuild'; continue
            res['r'] = 'survived'
            errs = []
            for c in relevant(rel):
                t = sh(f'timeout 300 {d}/target/debug/mon {c} quick', env=env)
                if t.returncode == 1 and f'VIOLATION property={c} ' in t.stdout:
                    res['r'] = 'caught'; res['by'] = c; break
                if t.returncode not in (0, 1) and 'never observed' not in t.stdout:
                    errs.append(c + ': ' + ' '.join(l for l in t.stdout.split('\n') if l.startswith('ERROR'))[:300])
            if res['r'] == 'survived':
                if errs: res['errs'] = errs
                t = sh(f'timeout 200 cargo test --offline -q', cwd=d/'repo', env=tenv)
                if t.returncode: res['r'] = 'tests'
        finally:
            p.write_text(orig)
            res['s'] = round(time.time() - t0)
            with lock:
                with open(OUT/'results.jsonl', 'a') as o: o.write(json.dumps(res) + '\n')
if __name__ == '__main__':
    ms = mutants()
    if sys.argv[1] == '--list':
        from collections import Counter
        print(len(ms), Counter(m[0] for m in ms)); sys.exit()
    n = int(sys.argv[1]); seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    if len(sys.argv) > 3: ms = [m for m in ms if sys.argv[3] in m[0]]
    done = set()
    if (OUT/'results.jsonl').exists():
        for l in open(OUT/'results.jsonl'):
            r = json.loads(l); done.add((r['file'], r['line'], r['new']))
    ms = [m for m in ms if (m[0], m[1] + 1, m[2].strip()) not in done]
    random.Random(seed).shuffle(ms)
    # at most a mutant for each line first
    seen, a, b = set(), [], []
    for m in ms: (b if (m[0], m[1]) in seen else a).append(m); seen.add((m[0], m[1]))
    ms = (a + b)[:n]
    q = queue.Queue(); [q.put(m) for m in ms]
    lock = threading.Lock(); OUT.mkdir(exist_ok=True)
    ts = [threading.Thread(target=slot, args=(k, q, lock)) for k in range(SLOTS)]
    [t.start() for t in ts]; [t.join() for t in ts]
