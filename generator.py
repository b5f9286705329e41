"""C28: runs the character table generator of tools/ and judges what it prints."""
import concurrent.futures as cf
import os, random, re, shutil, signal, subprocess

SOURCE = 'tools/iso8859-parser.rs'
PARTS = {1: 'Western European', 2: 'Central European', 3: 'South European', 4: 'North European', 5: 'Cyrillic', 6: 'Arabic', 7: 'Greek', 8: 'Hebrew', 9: 'Turkish',
         10: 'Nordic', 11: 'Thai', 13: 'Baltic Rim', 14: 'Celtic', 15: 'Western European', 16: 'South-Eastern European'}
WORKLOADS = (('official', 16, 16), ('one_row', 96, 96), ('values', 512, 4096), ('random', 2500, 40000), ('empty', 64, 256))


class Wrong(Exception):
    pass


def official(part):
    t = {}
    for c in range(256):
        try:
            t[c] = ord(bytes([c]).decode('iso8859_%d' % part))
        except UnicodeDecodeError:
            pass
    return t


def rows_of(table, r, order):
    """the lines of a mapping file"""
    ks = sorted(table)
    if order == 1:
        ks.reverse()
    elif order == 2:
        r.shuffle(ks)
    style = r.randrange(4)
    out = []
    for k in ks:
        f = '0x%02X\t0x%04X' if style != 1 else '0x%02x\t0x%04x'
        s = f % (k, table[k])
        s += r.choice(['', '\t#\tSOME LETTER', '\t#', '  ', '\t# 0xA0\t0x1234', ' # ÄÖ', '\t#\tLETTER # 2', '\t##', '\t#\tNAME (0x%02X), "quoted"; // , ]' % k, '\t\t', '\tname', ' 0x0041', '\t#' + 'x' * 9000, '\t#\t' + 'LONG NAME ' * r.randrange(1, 30)])
        if style == 2:
            s = r.choice(['', ' ', '\t', '  \t']) + s
        out.append(s)
    for _ in range(r.choice([0, 0, 1, 3, 20])):
        out.insert(r.randrange(len(out) + 1), r.choice(['', '   ', '\t', '#', '# comment', '#0xA1\t0x4141', '  # 0xB0\t0x4242', '\t#\t0xFF\t0x0001']))
    return out


def case(workload, index, seed):
    """files of one data directory and the tables that have to come out"""
    r = random.Random('%s/%s/%s' % (seed if workload != 'official' else 0, workload, index))
    files, want = {}, []
    def put(part, table, order=0, name=None, nl='\n', end=True, head=()):
        name = name or '8859-%d.TXT' % part
        text = nl.join(list(head) + rows_of(table, r, order))
        files[name] = (text + (nl if end else '')).encode()
        want.append((part, [table.get(c, 0) for c in range(0xA0, 0x100)]))
    if workload == 'official':
        head = ['#', '#\tName:             ISO/IEC 8859 to Unicode', '#\tFormat:  Three tab-separated columns', '#\t\t Column #1 is the ISO/IEC 8859 code (in hex as 0xXX)', '#']
        for part in (sorted(PARTS) if index == 15 else [sorted(PARTS)[index]]):
            put(part, official(part), head=head)
    elif workload == 'one_row':
        put(r.choice(sorted(PARTS)), {0xA0 + index: r.randrange(1, 0x10000)})
    elif workload == 'values':
        base = index * 96
        put(r.choice(sorted(PARTS)), {0xA0 + i: (base + i * 7 + 1) & 0xFFFF for i in range(96)}, r.randrange(3))
    else:
        k = 1 if workload == 'empty' else r.choice([1, 1, 2, 3, 5, 15])
        parts = r.sample(sorted(PARTS), k)
        ext = r.choice(['.TXT', '.TXT', '.txt', '', '.MAP.TXT'])
        for part in parts:
            t = {}
            if workload != 'empty':
                keep = r.choice([1.0, 0.9, 0.5, 0.05])
                for c in range(r.choice([0, 0x20, 0x9F, 0xA0]), 0x100):
                    if r.random() < keep:
                        t[c] = r.choice([r.randrange(0x10000), r.randrange(0x10000), c, 0xFFFF, 0])
            elif r.random() < 0.3:
                t = {c: c for c in range(0xA0)}
            put(part, t, r.randrange(3), '8859-%d%s' % (part, ext), r.choice(['\n', '\n', '\r\n']), r.random() < 0.8)
        if r.random() < 0.3:
            files['.hidden'] = bytes(r.randrange(256) for _ in range(50))
        if r.random() < 0.2:
            files['.8859-12.TXT'] = b'0xA1\t0x1111\n'
        if workload == 'empty' and r.random() < 0.3:
            files = {n: d for n, d in files.items() if n.startswith('.')}
            want = []
    want.sort()
    order = list(files)
    r.shuffle(order)
    return [(n, files[n]) for n in order], [(PARTS[p], 'ISO8859_%d' % p, t) for p, t in want]


TABLE = re.compile(r'\s*///[ \t]*([^\n]*?)[ \t]*\n\s*pub static (\w+)\s*:\s*\[\s*u16\s*;\s*(\d+|0x[0-9a-fA-F]+)\s*\]\s*=\s*\[([^\]]*)\]\s*;')


def read_output(text):
    out, at = [], 0
    while text[at:].strip():
        m = TABLE.match(text, at)
        if not m:
            raise Wrong('prints something that is not a table: %r' % text[at:at + 80])
        vals = [v.strip() for v in m.group(4).split(',')]
        if vals and vals[-1] == '':
            vals.pop()
        try:
            vals = [int(v, 0) for v in vals]
        except ValueError:
            raise Wrong('%s holds something that is not a number' % m.group(2))
        if int(m.group(3), 0) != len(vals):
            raise Wrong('%s announces %s values and holds %d' % (m.group(2), m.group(3), len(vals)))
        out.append((m.group(1), m.group(2), vals))
        at = m.end()
    return out


def judge(exe, workload, index, seed, top):
    """runs one case; returns (what is wrong or None, tables printed, codes compared)"""
    files, want = case(workload, index, seed)
    d = os.path.join(top, '%s-%d' % (workload, index))
    os.makedirs(os.path.join(d, 'data'))
    try:
        for n, data in files:
            with open(os.path.join(d, 'data', n), 'wb') as fh:
                fh.write(data)
        p = subprocess.run([exe], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        names = ', '.join(n for n, _ in files)
        if p.returncode:
            return 'files %s: ends with %s: %s' % (names, p.returncode, p.stderr.decode(errors='replace')[-300:]), 0, 0
        try:
            got = read_output(p.stdout.decode(errors='replace'))
        except Wrong as w:
            return 'files %s: %s' % (names, w), 0, 0
        if [g[:2] for g in got] != [w[:2] for w in want]:
            return 'files %s: prints %s, want %s' % (names, [g[:2] for g in got], [w[:2] for w in want]), 0, 0
        for (_, name, g), (_, _, w) in zip(got, want):
            if g != w:
                if len(g) != len(w):
                    return '%s has %d values' % (name, len(g)), 0, 0
                i = [x != y for x, y in zip(g, w)].index(True)
                return 'files %s: %s: code %02X is %04X, want %04X' % (names, name, 0xA0 + i, g[i], w[i]), 0, 0
        for n, data in files:
            with open(os.path.join(d, 'data', n), 'rb') as fh:
                if fh.read() != data:
                    return 'file %s was changed' % n, 0, 0
        if sorted(os.listdir(d)) != ['data'] or sorted(os.listdir(os.path.join(d, 'data'))) != sorted(n for n, _ in files):
            return 'files were added or removed', 0, 0
        return None, len(got), sum(len(g[2]) for g in got)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def missing_directory(exe, top):
    """without its input the generator reports an error and prints no table"""
    d = os.path.join(top, 'none')
    os.makedirs(d)
    try:
        p = subprocess.run([exe], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        if p.returncode == 0:
            return 'no data directory: reports success'
        if p.stdout.strip():
            return 'no data directory: prints %r' % p.stdout[:80]
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def compiles(exe, rustc, env, seed, top):
    """the tables of all parts are accepted by the compiler"""
    files, want = case('official', 15, seed)
    d = os.path.join(top, 'compile')
    os.makedirs(os.path.join(d, 'data'))
    try:
        for n, data in files:
            with open(os.path.join(d, 'data', n), 'wb') as fh:
                fh.write(data)
        p = subprocess.run([exe], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        with open(os.path.join(d, 'tables.rs'), 'wb') as fh:
            fh.write(p.stdout)
        q = subprocess.run([rustc, '--crate-type', 'lib', '--emit', 'metadata', '--cap-lints', 'allow', '-o', 'tables.rmeta', 'tables.rs'], cwd=d, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        if q.returncode:
            return 'what is printed does not compile: ' + q.stdout.decode(errors='replace')[-400:]
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def build(repo, where, rustc, env, checked):
    os.makedirs(where, exist_ok=True)
    exe = os.path.join(where, 'generator-' + ('checked' if checked else 'plain'))
    flags = ['-C', 'opt-level=1', '-C', 'overflow-checks=on', '-C', 'debug-assertions=on'] if checked else ['-O']
    p = subprocess.run([rustc, '--edition', '2015', '--cap-lints', 'allow', '-o', exe] + flags + [os.path.join(repo, SOURCE)], cwd=where, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise RuntimeError('building the generator failed:\n' + p.stdout.decode(errors='replace')[-3000:])
    return exe
