"""Where the tree under test differs from the recorded one: a hint for the search.

A change to e3x can only break a property through the functions it changed, so
part of the runs are spent on the calls that reach them and pre-emption and
aborts strike more often around the changed statements.  This decides only where
runs are spent: what a run is judged by does not depend on it, and on the
recorded tree it changes nothing.

  python -m simx.direct      (records /repo's tree in reference.json)
"""
import ast
import collections
import hashlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PATH = os.path.join(HERE, 'reference.json')


def _h(*nodes):
  return hashlib.sha256('\n'.join(ast.dump(n) for n in nodes).encode()).hexdigest()[:10]


def _undocumented(tree):
  for n in ast.walk(tree):
    if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)) and n.body:
      b = n.body[0]
      if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) and isinstance(b.value.value, str):
        n.body[0] = ast.copy_location(ast.Pass(), b)
  return tree


def units(tree):
  """{name: (hash, nodes)} of functions, methods, class bodies and the module body."""
  out = {}
  rest = []
  for n in tree.body:
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
      out[n.name] = (_h(n), [n])
    elif isinstance(n, ast.ClassDef):
      body = []
      for m in n.body:
        if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)):
          q = '%s.%s' % (n.name, m.name)
          old = out.get(q, ('', []))
          out[q] = (_h(*old[1], m), old[1] + [m])
        else:
          body.append(m)
      body += n.bases + n.decorator_list
      out[n.name] = (_h(*body), body)
    else:
      rest.append(n)
  out['<module>'] = (_h(*rest), rest)
  return out


def statements(nodes):
  """[(hash, first line)] of simple statements and the heads of compound ones, in order."""
  out = []

  def visit(n):
    if isinstance(n, ast.stmt):
      head = [v for k, v in ast.iter_fields(n) if k not in ('body', 'orelse', 'finalbody', 'handlers', 'cases')]
      h = '%s %s' % (type(n).__name__, [ast.dump(x) if isinstance(x, ast.AST) else [ast.dump(y) if isinstance(y, ast.AST) else y for y in x]
                                        if isinstance(x, list) else x for x in head])
      out.append((hashlib.sha256(h.encode()).hexdigest()[:6], n.lineno))
    for k, v in ast.iter_fields(n):
      if k in ('body', 'orelse', 'finalbody', 'handlers', 'cases') and isinstance(v, list):
        for x in v:
          visit(x)

  for n in nodes:
    visit(n)
  return out


def sources(root):
  for d, dirs, files in sorted(os.walk(os.path.join(root, 'e3x'))):
    dirs.sort()
    for f in sorted(files):
      if f.endswith('.py') and not f.endswith('_test.py'):
        p = os.path.join(d, f)
        try:
          with open(p, encoding='utf-8') as s:
            yield os.path.relpath(p, os.path.join(root, 'e3x')), _undocumented(ast.parse(s.read()))
        except (OSError, SyntaxError, ValueError):
          continue


def qual(name):
  return name.split('.<locals>')[0].split('.<lambda>')[0]


class Direction:
  """changed: {(file, function)}; lines: {file: [changed lines]}; calls: names that reach them."""

  def __init__(self, root):
    self.changed, self.lines, self.calls, self.tables = set(), collections.defaultdict(set), [], []
    try:
      with open(PATH, encoding='utf-8') as f:
        ref = json.load(f)
    except (OSError, ValueError):
      return
    for f, tree in sources(root):
      old = ref['units'].get(f, {})
      for q, (h, nodes) in units(tree).items():
        if old.get(q) == h:
          continue
        self.changed.add((f, q))
        was = collections.Counter(ref['statements'].get(f, {}).get(q, ()))
        st = statements(nodes)
        new = set()
        after = False
        for i, (s, line) in enumerate(st):
          if after:
            new.add(line)
          after = not was[s]
          if after:
            new.add(line)
        self.lines[f] |= new if new else {line for _, line in st}
    names = ref['names']
    functions = {fq for fq in self.changed if ref['units'].get(fq[0], {}).get(fq[1]) and fq[1] != '<module>'}
    wide = set()
    for f, q in self.changed - functions:  # a module body counts only if no function of the file says more
      if q == '<module>' and not any(g == f for g, _ in self.changed - {(f, q)}):
        wide.add(f)
    gone = {(f, q) for f, us in ref['units'].items() for q in us} - {(f, q) for f, t in sources(root) for q in units(t)}
    if functions or wide or gone:
      for name, reach in sorted(ref['reach'].items()):
        rs = [tuple(names[i]) for i in reach]
        if any(x in functions or x in gone or x[0] in wide or any(x[0] == f and x[1].startswith(q + '.') for f, q in functions) for x in rs):
          self.calls.append(name)
    self.tables = [n[6:] for n in self.calls if n.startswith('table.')]


_direction = {}


def of(root):
  if root not in _direction:
    _direction[root] = Direction(root) if os.environ.get('SIMX_UNDIRECTED') is None else Direction(os.devnull)
  return _direction[root]


def record():
  from . import world
  world.WORLD.setup()
  from . import catalog as K
  from . import lib as L
  from . import storage as S
  mon = sys.monitoring
  tool = 4
  mon.use_tool_id(tool, 'reach')
  seen = set()
  root = world.E3X + os.sep

  def start(code, _):
    if code.co_filename.startswith(root):
      seen.add((os.path.relpath(code.co_filename, world.E3X), code.co_qualname))

  mon.register_callback(tool, mon.events.PY_START, start)
  mon.set_events(tool, mon.events.PY_START)
  for name in ('so3.wigner_d', 'nn.model'):  # whatever happens only once
    L.ref(dict(do='lib', fn=name, v=7, ctx='eager', x64=False, conf={}))
  reach = {}
  for name in K.NAMES:
    got = set()
    for v in range(6):
      for ctx in ('eager', 'grad', 'vmap') if v == 0 else ('eager',):
        seen.clear()
        op = dict(do='lib', fn=name, v=v, ctx=ctx, x64=False)
        if name in K.CONFIGURED:
          op['conf'] = {}
        try:
          r = L.ref(op)
          if v == 0 and ctx == 'eager' and r[0] != 'ok':
            print(name, r[3])
        except Exception as e:  # pylint: disable=broad-except
          print(name, v, ctx, repr(e))
        got |= {x for x in seen if x[1] != '<module>'}
    reach[name] = got
    print(name, len(got), file=sys.stderr, flush=True)
  for t in S.TABLES:  # generating and storing
    seen.clear()
    plan = S.golden_plan(t, 3)
    plan['env'] = dict(pkg={x: 'none' for x in S.TABLES})
    S.StorageRun(plan).execute()
    reach['table.' + t] = {x for x in seen if x[1] != '<module>'}
    print(t, len(seen), file=sys.stderr, flush=True)
  mon.set_events(tool, 0)
  # whatever every call does (imports, class bodies) says nothing
  common = set.intersection(*reach.values())
  reach = {k: {(f, qual(q)) for f, q in v - common} for k, v in reach.items()}
  names = sorted(set.union(*reach.values()))
  idx = {n: i for i, n in enumerate(names)}
  us, st = {}, {}
  for f, tree in sources(world.REPO):
    u = units(tree)
    us[f] = {q: h for q, (h, _) in u.items()}
    st[f] = {q: [s for s, _ in statements(nodes)] for q, (_, nodes) in u.items()}
  with open(PATH, 'w', encoding='utf-8') as f:
    json.dump(dict(units=us, statements=st, names=names, reach={k: sorted(idx[x] for x in v) for k, v in sorted(reach.items())}), f, separators=(',', ':'))
    f.write('\n')


if __name__ == '__main__':
  record()
