"""Mutants of the code under test: what do the checks not notice? (a tool to find gaps, no check uses it)

mutate.py gen FILE.json             - list of mutants
mutate.py tests FILE.json           - which of them survive the tests of the repository
mutate.py checks FILE.json [SCALE]  - which of these are reported by the checks
mutate.py show FILE.json            - those reported by none
"""
import ast
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = '/dev/shm/mutate'

CHECKS = {
    'bead/bead.py': '06 08 16 20',
    'bead/tech/timestamp.py': '15 14 10 20',
    'bead/tech/fs.py': '13 09 04 11 12',
    'bead/tech/persistence.py': '12 11 24 20',
    'bead/tech/securehash.py': '02 03',
    'bead/tech/identifier.py': '20',
    'bead/ziparchive.py': '03 01 04 08 02 20 09 22 05 13',
    'bead/zipopener.py': '22 13 25 01',
    'bead/box.py': '06 05 08 07 10 25 14 21 26 13 22',
    'bead/box_index.py': '07 26 08 25 06 13 12 21',
    'bead/box_rawfs.py': '06 08 21 07 22',
    'bead/box_query.py': '06 07',
    'bead/meta.py': '20 08 03 01 02',
    'bead/layouts.py': '01 02 20',
    'bead/workspace.py': '01 28 05 11 09 20 13 23 02 21',
    'bead_cli/box.py': '12 07 26 24',
    'bead_cli/common.py': '10 21 06 23 08 24',
    'bead_cli/cmdparse.py': '24 10 23',
    'bead_cli/environment.py': '12 24',
    'bead_cli/input.py': '09 10 11 20 13 27 24',
    'bead_cli/main.py': '24 23',
    'bead_cli/workspace.py': '28 05 01 10 27 13 23 20 21 24',
    'bead_cli/web/cluster.py': '16 17 18 19',
    'bead_cli/web/dummy.py': '16 17 18 19',
    'bead_cli/web/freshness.py': '16 17 19',
    'bead_cli/web/graph.py': '18 17 16 19',
    'bead_cli/web/graphviz.py': '19 21',
    'bead_cli/web/io.py': '16 17 24',
    'bead_cli/web/commands.py': '29 18 16 17 19 24 13',
    'bead_cli/web/sketch.py': '18 17 16 19 08',
}
SWAP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in',
        ast.Is: 'is not', ast.IsNot: 'is'}


class Gen(ast.NodeVisitor):
    def __init__(self, path):
        self.path = path
        self.source = open(os.path.join(REPO, path), 'rb').read()
        self.lines = [0]
        for line in self.source.splitlines(True):
            self.lines.append(self.lines[-1] + len(line))
        self.out = []
        self.function = ''

    def at(self, node):
        return self.lines[node.lineno - 1] + node.col_offset, self.lines[node.end_lineno - 1] + node.end_col_offset

    def text(self, node):
        a, b = self.at(node)
        return self.source[a:b].decode()

    def add(self, node, new, what):
        a, b = self.at(node)
        self.out.append(dict(file=self.path, a=a, b=b, new=new, what=what, line=node.lineno, function=self.function, old=self.source[a:b].decode()))

    def visit_FunctionDef(self, node):
        if node.name in ('__repr__', '__str__', 'declare'):
            return
        outer, self.function = self.function, node.name
        for d in node.body:
            self.visit(d)
        self.function = outer

    def visit_Call(self, node):
        name = self.text(node.func)
        if name in ('print', 'die', 'warning', 'tree', 'ValueError', 'KeyError', 'Argument', 'arg') or name.endswith('Error') or '.add_argument' in name or name.endswith('InvalidArchive'):
            return
        if name in ('sorted', 'reversed', 'set', 'list', 'tuple', 'frozenset', 'os.path.realpath', 'os.path.abspath', 'str', 'max', 'min') and len(node.args) == 1 and not isinstance(node.args[0], ast.Starred):
            if name in ('max', 'min'):
                a = 'min' if name == 'max' else 'max'
                self.add(node.func, a, name + ' -> ' + a)
            else:
                arg = self.text(node.args[0])
                self.add(node, f'list({arg})' if name == 'sorted' else f'({arg})', 'without ' + name)
        for k in node.keywords:
            if k.arg:
                rest = [self.text(a) for a in node.args] + [self.text(x) for x in node.keywords if x is not k]
                self.add(node, f'{name}({", ".join(rest)})', f'without argument {k.arg}')
        if len(node.args) == 2 and not any(isinstance(a, ast.Starred) for a in node.args) and not node.keywords:
            self.add(node, f'{name}({self.text(node.args[0])})', 'without second argument')
        if isinstance(node.func, ast.Attribute) and not node.args and not node.keywords and node.func.attr in ('resolve', 'absolute', 'strip', 'lower', 'upper', 'keys', 'copy'):
            self.add(node, self.text(node.func.value), 'without .' + node.func.attr)
        self.generic_visit(node)

    def visit_Raise(self, node):
        self.add(node, 'pass', 'no raise')

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            l, r = self.text(node.left), self.text(node.comparators[0])
            op = type(node.ops[0])
            self.add(node, f'({l} {SWAP[op]} {r})', f'other comparison {SWAP[op]}')
            if op in (ast.Lt, ast.Gt):
                self.add(node, f'({l} {"<" if op is ast.Gt else ">"} {r})', 'reversed comparison')
            if op in (ast.Eq, ast.NotEq, ast.In, ast.NotIn):
                self.add(node, 'True', 'always')
                self.add(node, 'False', 'never')
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        vs = [f'({self.text(v)})' for v in node.values]
        mine, other = ('and', 'or') if isinstance(node.op, ast.And) else ('or', 'and')
        self.add(node, '(' + f' {other} '.join(vs) + ')', 'other operator')
        for i in range(len(vs)):
            self.add(node, '(' + f' {mine} '.join(vs[:i] + vs[i + 1:]) + ')', f'without operand {i}')
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            self.add(node, self.text(node.operand), 'no not')
        if isinstance(node.op, ast.USub):
            self.add(node, self.text(node.operand), 'no minus')
        self.generic_visit(node)

    def visit_BinOp(self, node):
        l, r = self.text(node.left), self.text(node.right)
        if isinstance(node.op, (ast.Add, ast.Sub)):
            self.add(node, f'({l} {"-" if isinstance(node.op, ast.Add) else "+"} {r})', 'other sign')
            if isinstance(node.op, ast.Add):
                self.add(node, f'({l})', 'only left')
                self.add(node, f'({r})', 'only right')
        elif not isinstance(node.left, (ast.Constant, ast.JoinedStr)):
            self.add(node, f'({l})', 'only left')
        self.generic_visit(node)

    def visit_If(self, node):
        if not isinstance(node.test, (ast.Compare, ast.Name)) or isinstance(node.test, ast.Name):
            if self.text(node.test) != 'TYPE_CHECKING':
                self.add(node.test, 'True', 'if True')
                self.add(node.test, 'False', 'if False')
        self.generic_visit(node)

    def visit_While(self, node):
        self.add(node.test, 'False', 'while False')
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.add(node, self.text(node.body), 'if of expression')
        self.add(node, self.text(node.orelse), 'else of expression')
        self.generic_visit(node)

    def visit_For(self, node):
        t = self.text(node.iter)
        self.add(node.iter, f'list({t})[:1]', 'first only')
        self.add(node.iter, f'list({t})[1:]', 'without first')
        self.add(node.iter, f'list({t})[::-1]', 'reversed')
        self.generic_visit(node)

    def visit_comprehension(self, node):
        t = self.text(node.iter)
        self.add(node.iter, f'list({t})[:1]', 'first only')
        for i in node.ifs:
            self.add(i, 'True', 'no condition')
        self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if v is True or v is False:
            self.add(node, str(not v), 'other truth')
        elif isinstance(v, int):
            self.add(node, str(v + 1), 'plus 1')
        elif isinstance(v, str) and v in ('w', 'wb', 'x', 'a'):
            self.add(node, repr({'w': 'a', 'wb': 'ab', 'x': 'w', 'a': 'w'}[v]), 'file mode')

    def visit_JoinedStr(self, node):
        pass

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        if isinstance(node.value, ast.Call):
            name = self.text(node.value.func)
            if name in ('print', 'warning', 'arg') or name.startswith('super'):
                return
            self.add(node, 'pass', 'statement dropped')
        self.generic_visit(node)

    def visit_Assign(self, node):
        if self.function and isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(node, 'pass', 'assignment dropped')
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.add(node, 'pass', 'assignment dropped')
        self.generic_visit(node)

    def visit_Delete(self, node):
        self.add(node, 'pass', 'del dropped')

    def visit_Continue(self, node):
        self.add(node, 'pass', 'no continue')
        self.add(node, 'break', 'break for continue')

    def visit_Break(self, node):
        self.add(node, 'continue', 'continue for break')

    def visit_Return(self, node):
        if node.value is None:
            self.add(node, 'pass', 'no return')
        else:
            self.generic_visit(node)

    def visit_ExceptHandler(self, node):
        if isinstance(node.type, ast.Tuple):
            ts = [self.text(e) for e in node.type.elts]
            for i in range(len(ts)):
                self.add(node.type, '(' + ''.join(t + ', ' for t in ts[:i] + ts[i + 1:]) + ')', 'not caught: ' + ts[i])
        elif node.type is not None:
            self.add(node.type, '()', 'nothing caught')
        self.generic_visit(node)

    def visit_Slice(self, node):
        if node.lower or node.upper:
            self.add(node, ':', 'all of it')
        self.generic_visit(node)


def generate():
    res = []
    for path in sorted(CHECKS):
        g = Gen(path)
        g.visit(ast.parse(g.source))
        seen = set()
        for m in g.out:
            new = g.source[:m['a']] + m['new'].encode() + g.source[m['b']:]
            if new == g.source or new in seen:
                continue
            seen.add(new)
            try:
                ast.parse(new)
            except SyntaxError:
                continue
            m['id'] = len(res)
            res.append(m)
    return res


def copy_of_repo(n):
    d = os.path.join(WORK, str(n))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in glob.glob(REPO + '/*'):
        if os.path.isdir(x):
            shutil.copytree(x, os.path.join(d, os.path.basename(x)), ignore=shutil.ignore_patterns('__pycache__'))
        else:
            shutil.copy(x, d)
    return d


def apply(m, d):
    source = open(os.path.join(REPO, m['file']), 'rb').read()
    with open(os.path.join(d, m['file']), 'wb') as f:
        f.write(source[:m['a']] + m['new'].encode() + source[m['b']:])


def restore(m, d):
    shutil.copy(os.path.join(REPO, m['file']), os.path.join(d, m['file']))


def run_tests(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', LC_ALL='C.UTF-8', PYTHONPATH=d)
    try:
        p = subprocess.run(
            ['setpriv', '--inh-caps=-dac_override', '--bounding-set=-dac_override', '/opt/venv/bin/python', '-m', 'pytest', '-x', '-q',
             '-p', 'no:cacheprovider', '--timeout=60', '--basetemp', d + '-tmp'], cwd=d, env=env, capture_output=True, timeout=180)
        return p.returncode == 0, p.stdout.decode(errors='replace')[-300:]
    except subprocess.TimeoutExpired:
        return False, 'timeout'


def save(file, ms):
    with open(file + '.tmp', 'w') as f:
        json.dump(ms, f, indent=0)
    os.rename(file + '.tmp', file)


def tests(file):
    ms = json.load(open(file))
    local, lock = threading.local(), threading.Lock()
    count = [0]

    def one(m):
        if 'survives' in m:
            return
        if not hasattr(local, 'd'):
            with lock:
                count[0] += 1
                n = count[0]
            local.d = copy_of_repo(n)
        apply(m, local.d)
        m['survives'], _ = run_tests(local.d)
        restore(m, local.d)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for i, _ in enumerate(ex.map(one, ms)):
            if i % 50 == 0:
                save(file, ms)
                print(i, sum(m.get('survives', False) for m in ms), flush=True)
    save(file, ms)
    print(len(ms), sum(m['survives'] for m in ms))


def checks(file, scale, part):
    ms = json.load(open(file))
    d = copy_of_repo('checks' + part.replace('/', '_'))
    i, n = map(int, part.split('/'))
    file = f'{file}.{i}'
    for m in ms:
        if not m.get('survives') or m['id'] % n != i:
            continue
        apply(m, d)
        m['by'] = None
        for c in CHECKS[m['file']].split():
            env = dict(os.environ, VERIF_REPO=d, VERIF_SCALE=scale, VERIF_SEED='1')
            p = subprocess.run(['timeout', '200', os.path.join(VERIF, 'check.sh'), 'C' + c, 'quick'], env=env, capture_output=True)
            if p.returncode:
                m['by'] = f'C{c}' + ('' if p.returncode == 1 else f' exit {p.returncode}')
                break
        restore(m, d)
        print(m['id'], m['by'], m['file'], m['line'], m['what'], repr(m['old'][:80]), flush=True)
    save(file, [m for m in ms if 'by' in m])


def show(file):
    for f in sorted(glob.glob(file + '.*')):
        for m in json.load(open(f)):
            if not m['by']:
                print(f"#{m['id']} {m['file']}:{m['line']} {m['function']}: {m['what']}\n    {m['old'][:150]!r}\n -> {m['new'][:150]!r}")


if __name__ == '__main__':
    cmd, file = sys.argv[1:3]
    if cmd == 'gen':
        ms = generate()
        save(file, ms)
        print(len(ms))
    elif cmd == 'tests':
        tests(file)
    elif cmd == 'checks':
        checks(file, sys.argv[3] if sys.argv[3:] else '0.2', sys.argv[4] if sys.argv[4:] else '0/1')
    elif cmd == 'show':
        show(file)
