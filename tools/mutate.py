"""Mutation campaign: single-edit mutants of pyNTM that the test-suite does not notice, to measure the checks with.

python tools/mutate.py gen OUT.json [file ...]        list mutants
python tools/mutate.py test IN.json OUT.json [jobs]   keep those on which the repository's tests still pass
Work happens in copies of /repo under /tmp/mut, which the caller removes."""
import ast
import json
import os
import subprocess
import sys
import threading
import queue

REPO = '/repo'
FILES = ['circuit.py', 'demand.py', 'flex_model.py', 'interface.py', 'master_model.py', 'node.py', 'performance_model.py',
         'rsvp.py', 'srlg.py', 'utilities.py', 'weathermap.py']
SWAP = {'source_node_object': 'dest_node_object', 'dest_node_object': 'source_node_object', 'node_object': 'remote_node_object',
        'remote_node_object': 'node_object', 'interface_a': 'interface_b', 'interface_b': 'interface_a',
        'reservable_bandwidth': 'capacity', 'setup_bandwidth': 'reserved_bandwidth', 'reserved_bandwidth': 'setup_bandwidth',
        'union': 'intersection', 'add': 'discard', 'append': 'count', 'cost': 'capacity', 'lat': 'lon', 'lon': 'lat'}
CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
OPS = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*']}


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln))
    assert src.isascii()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    out = []

    def put(n, new, kind, s=None):
        a, b = s or span(n)
        out.append({'file': os.path.relpath(path, REPO), 'line': n.lineno, 'a': a, 'b': b, 'old': src[a:b], 'new': new, 'kind': kind,
                    'func': '.'.join(stack)})
    stack = []

    def walk(n):
        named = isinstance(n, (ast.FunctionDef, ast.ClassDef))
        if named:
            stack.append(n.name)
            if n.name in ('__repr__', '__str__'):
                stack.pop()
                return
        seg = lambda x: ast.get_source_segment(src, x)
        if isinstance(n, ast.Raise):
            put(n, 'pass', 'raise')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            f = n.value.func
            if isinstance(f, ast.Name) and f.id in ('print', 'pprint'):
                return
            put(n, 'pass', 'delcall')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            put(n, 'pass', 'delassign')
        elif isinstance(n, ast.AugAssign):
            put(n, 'pass', 'delaug')
        elif isinstance(n, (ast.Continue, ast.Break)):
            put(n, 'pass', 'delctl')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                put(n, '%s %s %s' % (seg(n.left), o, seg(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS and not isinstance(n.left, ast.Constant):
            for o in OPS[type(n.op)]:
                put(n, '%s %s %s' % (seg(n.left), o, seg(n.right)), 'arith')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(%s)' % o.join('(%s)' % seg(v) for v in n.values), 'bool')
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                put(n, '(%s)' % (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % seg(v) for v in rest), 'dropcond')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, seg(n.operand), 'not')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, str(not n.value), 'const')
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), 'const')
                if n.value:
                    put(n, str(n.value - 1), 'const')
            elif n.value is None:
                pass
        elif isinstance(n, ast.Attribute) and n.attr in SWAP:
            a, b = span(n)
            put(n, seg(n.value) + '.' + SWAP[n.attr], 'attr')
        elif isinstance(n, ast.Name) and n.id in ('min', 'max') and isinstance(n.ctx, ast.Load):
            put(n, 'max' if n.id == 'min' else 'min', 'minmax')
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                for c in g.ifs:
                    put(c, 'True', 'filter')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            put(n, seg(n.value), 'slice')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'round':
            put(n, '(%s)' % seg(n.args[0]), 'round')
        elif isinstance(n, (ast.If, ast.IfExp)):
            put(n.test, 'True', 'iftrue')
            put(n.test, 'False', 'iffalse')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, (ast.Constant, ast.Name)):
            pass
        elif isinstance(n, ast.JoinedStr):
            return
        for c in ast.iter_child_nodes(n):
            walk(c)
        if named:
            stack.pop()
    walk(ast.parse(src))
    seen, res = set(), []
    for m in out:
        k = (m['a'], m['b'], m['new'])
        if k in seen or m['old'] == m['new']:
            continue
        try:
            ast.parse(src[:m['a']] + m['new'] + src[m['b']:])
        except SyntaxError:
            continue
        seen.add(k)
        res.append(m)
    return res


def apply(m, root):
    p = os.path.join(root, m['file'])
    s = open(os.path.join(REPO, m['file'])).read()
    open(p, 'w').write(s[:m['a']] + m['new'] + s[m['b']:])


def restore(m, root):
    open(os.path.join(root, m['file']), 'w').write(open(os.path.join(REPO, m['file'])).read())


def tests_pass(root):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', HOME='/root')
    try:
        p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'test', '-x', '-q', '--no-cov', '-p', 'no:cacheprovider',
                            '-o', 'addopts=', '--timeout=60'], cwd=root, env=env, capture_output=True, text=True, timeout=150)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 0


def main():
    if sys.argv[1] == 'gen':
        ms = []
        for f in sys.argv[3:] or FILES:
            ms += mutants(os.path.join(REPO, 'pyNTM', f))
        for i, m in enumerate(ms):
            m['id'] = i
        json.dump(ms, open(sys.argv[2], 'w'))
        print(len(ms))
    elif sys.argv[1] == 'test':
        ms = json.load(open(sys.argv[2]))
        jobs = int(sys.argv[4]) if len(sys.argv) > 4 else 6
        q = queue.Queue()
        for m in ms:
            q.put(m)
        keep, lock, done = [], threading.Lock(), [0]

        def run(w):
            root = '/tmp/mut/w%d' % w
            subprocess.run(['rm', '-rf', root])
            subprocess.run(['cp', '-a', REPO, root], check=True)
            while True:
                try:
                    m = q.get_nowait()
                except queue.Empty:
                    return
                apply(m, root)
                ok = tests_pass(root)
                restore(m, root)
                with lock:
                    done[0] += 1
                    if ok:
                        keep.append(m)
                    if done[0] % 20 == 0:
                        print(done[0], len(keep), flush=True)
                        json.dump(keep, open(sys.argv[3], 'w'))
        ts = [threading.Thread(target=run, args=(w,)) for w in range(jobs)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        json.dump(keep, open(sys.argv[3], 'w'))
        print('survivors', len(keep), 'of', len(ms))


if __name__ == '__main__':
    main()
