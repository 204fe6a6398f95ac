"""random one-token mutations of the files of a property; lists the ones its check does not report.  usage: automut.py OUT N PROP... (environment: VF_REPO, AM_JOBS)
A survivor is either an equivalent change, outside the property, or a gap."""
import ast, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
SWAP = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}
CMP = {ast.Lt: '>=', ast.LtE: '>', ast.Gt: '<=', ast.GtE: '<', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in'}


def candidates(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []
    doc = set()
    skip = re.compile(r'tex|description|taxonomy|citations|warn|raise|assert|import|plt\.|title|^\s*#|print')
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef,)):
            continue
        if re.match(r'(plot|test|_test|__repr|_repr|get_yaml_|info|_gene)', f.name):
            continue
        if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant):
            doc.add(f.body[0].value)
        for n in ast.walk(f):
            if not hasattr(n, 'lineno') or n in doc or skip.search(lines[n.lineno - 1]):
                continue
            if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
                s, e = pos(n.left)[1], pos(n.right)[0]
                seg = b[s:e].decode()
                m = re.search(r'\*\*|[-+*/]', seg)
                if m:
                    out.append((f.name, n.lineno, s + m.start(), s + m.end(), SWAP[type(n.op)]))
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                s, e = pos(n.left)[1], pos(n.comparators[0])[0]
                out.append((f.name, n.lineno, s, e, ' %s ' % CMP[type(n.ops[0])]))
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                s, e = pos(n)
                out.append((f.name, n.lineno, s, e, repr(n.value + 1)))
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                s, e = pos(n)
                out.append((f.name, n.lineno, s, e, repr(not n.value)))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                s, e = pos(n)
                out.append((f.name, n.lineno, s, s + 1, '+'))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('conjugate', 'conj') and not n.args:
                s, e = pos(n)
                out.append((f.name, n.lineno, pos(n.func.value)[1], e, ''))
            elif isinstance(n, ast.Attribute) and n.attr in ('real', 'imag'):
                s, e = pos(n)
                out.append((f.name, n.lineno, e - 4, e, 'imag' if n.attr == 'real' else 'real'))
            elif isinstance(n, ast.If):
                s, e = pos(n.test)
                out.append((f.name, n.lineno, s, e, 'not (%s)' % b[s:e].decode()))
    return b, sorted(set(out))


def run(job):
    i, prop, rel, (fn, line, s, e, new) = job
    b = open(os.path.join(REPO, rel), 'rb').read()
    d = '/tmp/work/am/%d' % i
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', REPO, d], check=True)
    m = b[:s] + new.encode() + b[e:]
    try:
        compile(m, rel, 'exec')
    except SyntaxError:
        shutil.rmtree(d, ignore_errors=True)
        return
    open(os.path.join(d, rel), 'wb').write(m)
    ln = m.decode().split('\n')[line - 1].strip()
    try:
        r = subprocess.run([sys.executable, 'check.py', prop], cwd=V, env=dict(os.environ, VF_REPO=d, VF_JOBS='3'), capture_output=True, text=True, timeout=900)
        res = 'caught' if r.returncode == 1 and 'VIOLATION' in r.stdout else 'SURVIVED rc=%d' % r.returncode
        w = re.findall(r'obligation failed: \S+/(\S+):', r.stdout)
    except subprocess.TimeoutExpired:
        res, w = 'TIMEOUT', []
    shutil.rmtree(d, ignore_errors=True)
    with open(sys.argv[1], 'a') as f:
        f.write('%-9s %s %s:%s:%d  [%s] -> [%s]  | %s | %s\n' % (res.split()[0], prop, rel.replace('flavio/', ''), fn, line, b[s:e].decode().strip(), new.strip(), ln[:150], ','.join(w)[:80]))


if __name__ == '__main__':
    n, props = int(sys.argv[2]), sys.argv[3:]
    rng = random.Random(int(os.environ.get('AM_SEED', '1')))
    files = {}
    for l in open(os.path.join(V, 'CONTRACTS.md')):
        pass
    sys.path.insert(0, os.path.join(V, 'tools'))
    import meta
    jobs = []
    for p in props:
        fs = [f for f in meta_files(p)] if 'meta_files' in globals() else json.loads([l for l in open(os.path.join(V, 'properties.jsonl')) if '"%s"' % p in l][0])
        if isinstance(fs, dict):
            fs = sorted(set(re.findall(r'flavio/[\w/]+\.py', json.dumps(fs))))
        c = [(f, x) for f in fs if os.path.exists(os.path.join(REPO, f)) for x in candidates(os.path.join(REPO, f))[1]]
        rng.shuffle(c)
        jobs += [(p, f, x) for f, x in c[:n]]
    jobs = [(i, ) + j for i, j in enumerate(jobs)]
    with ThreadPoolExecutor(int(os.environ.get('AM_JOBS', '2'))) as ex:
        list(ex.map(run, jobs))
