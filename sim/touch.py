"""Where does the code under test touch state that outlives a call or is shared between threads?

A static look at the sources (not a judgement: it only tells the scheduler and the fault injector where switching or
failing is most telling).  For each code object: the source lines, and the instruction offsets, at or right after an
access to a module global that functions rebind or mutate, or to an attribute that is set or mutated outside
constructors."""
import ast
import dis

MUTATORS = {'append', 'extend', 'pop', 'popitem', 'insert', 'remove', 'clear', 'update', 'setdefault', 'add', 'discard', 'sort', 'reverse',
            'write', 'appendleft', 'popleft', 'rotate', 'move_to_end', 'push', 'fill', 'seek', 'truncate', 'send', 'acquire', 'release'}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def root(e):
    """('name', n) or ('attr', a) that an expression reaches into"""
    while True:
        if isinstance(e, ast.Attribute):
            if e.attr in ('get', 'setdefault', 'values', 'items', 'keys', 'copy'):
                e = e.value
                continue
            return 'attr', e.attr
        if isinstance(e, ast.Name):
            return 'name', e.id
        if isinstance(e, (ast.Subscript, ast.Starred)):
            e = e.value
        elif isinstance(e, ast.Call):
            e = e.func
        else:
            return None, None


def functions(tree):
    """(function, its own statements' nodes without those of functions nested in it)"""
    for f in ast.walk(tree):
        if isinstance(f, FUNCS):
            own, todo = [], list(ast.iter_child_nodes(f))
            while todo:
                n = todo.pop()
                own.append(n)
                if not isinstance(n, FUNCS):
                    todo += list(ast.iter_child_nodes(n))
            yield f, own


def targets(t):
    if isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from targets(x)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)
    else:
        yield t


def stores(own):
    """(target expression, value) of every binding, deletion and in-place change"""
    for n in own:
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in targets(t):
                    yield x, n.value
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            yield n.target, n.value
        elif isinstance(n, ast.NamedExpr):
            yield n.target, n.value
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                yield t, None
        elif isinstance(n, ast.For):
            for x in targets(n.target):
                yield x, n.iter


class Package:
    def __init__(self, sources):
        """sources: {module: text}"""
        self.attrs = {m: {'__dict__'} for m in sources}        # per module: names recur in unrelated classes
        self.globals = {m: set() for m in sources}
        self.lines, self.strong = {}, {}
        trees = {m: ast.parse(s) for m, s in sources.items()}
        local = {}
        for m, tree in trees.items():
            for f, own in functions(tree):
                a = f.args
                params = {x.arg for x in a.args + a.kwonlyargs + getattr(a, 'posonlyargs', []) + [y for y in (a.vararg, a.kwarg) if y]}
                glob = {x for n in own if isinstance(n, ast.Global) for x in n.names}
                st = list(stores(own))
                names = {t.id for t, _ in st if isinstance(t, ast.Name)} - glob
                init = getattr(f, 'name', '') in ('__init__', '__new__', 'prepare')    # prepare: constructor of the error classes
                part = lambda v: isinstance(v, (ast.Subscript, ast.Attribute)) or (
                    isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('get', 'setdefault'))
                alias = {t.id for t, v in st if isinstance(t, ast.Name) and part(v)
                         and (root(v)[0] == 'attr' or root(v)[0] == 'name' and root(v)[1] not in params | names)}
                pos = a.args[len(a.args) - len(a.defaults):] if a.defaults else []
                alias |= {p.arg for p, d in zip(pos, a.defaults) if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call))}
                changed = [t for t, _ in st if isinstance(t, (ast.Subscript, ast.Attribute))]
                changed += [n.func for n in own if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS]
                aug = {n.target.id for n in own if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
                self.globals[m] |= {t.id for t, _ in st if isinstance(t, ast.Name) and t.id in glob}
                mutated = set()
                for c in changed:
                    if isinstance(c, ast.Attribute) and isinstance(c.ctx, (ast.Store, ast.Del)):
                        if not init:
                            self.attrs[m].add(c.attr)
                        continue
                    kind, name = root(c.value)
                    if kind == 'attr':
                        self.attrs[m].add(name)
                    elif kind == 'name':
                        if name in names or name in params:
                            mutated.add(name)
                        else:
                            self.globals[m].add(name)
                local[id(f)] = (m, own, (mutated | aug) & alias, names | params)
        for f_id, (m, own, shared, loc) in local.items():
            L, S = self.lines.setdefault(m, set()), self.strong.setdefault(m, set())
            for n in own:
                if isinstance(n, ast.Attribute) and n.attr in self.attrs[m]:
                    L.add(n.lineno)
                    if n.attr == '__dict__':
                        S.add(n.lineno)
                elif isinstance(n, ast.Name) and (n.id in shared or n.id in self.globals[m] and n.id not in loc):
                    L.add(n.lineno)
                    S.add(n.lineno)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr', 'next'):
                    L.add(n.lineno)

    def points(self, module, code):
        """(lines, offsets, whether module state is among what is touched) of a code object"""
        touched = self.lines.get(module, set())
        if not touched or code.co_name == '<module>':
            return frozenset(), frozenset(), False
        lines, offs = set(), set()
        prev_line, prev = None, None
        for i in dis.get_instructions(code):
            line = i.positions.lineno if i.positions else None
            if line is None:
                line = prev_line
            if line != prev_line and (line in touched or prev_line in touched):
                lines.add(line)
            if prev is not None and prev_line in touched and prev.opname.startswith(('LOAD_GLOBAL', 'LOAD_ATTR', 'STORE_', 'DELETE_', 'CALL', 'BINARY_', 'CONTAINS', 'COMPARE')):
                offs.add(i.offset)
            prev, prev_line = i, line
        return frozenset(lines), frozenset(offs), bool(lines & self.strong.get(module, set()))
