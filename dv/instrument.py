"""Mechanical instrumentation of the code under verification.

The text that is verified is the text of /repo/lunar_python, read from disk on every
run.  The transformation is purely syntactic, is applied to every module in the same
way, and keeps every statement.  It

  * routes `%`, f-strings, `in`/`not in`, subscript loads, and calls of methods with the
    name of a str method through the runtime (rt.py), which does what CPython does when
    no operand is symbolic;
  * shadows some builtins (int, str, len, range, min, max, round, ...) by module globals
    which do the same for symbolic arguments;
  * adds to each `while` loop, and to each `for ... in range(...)` loop, a second copy
    which runs the body once from an arbitrary state satisfying the loop invariant (used
    only when a loop's bound is symbolic and the unit supplies invariants);
  * turns a bare `except:` into `except Exception:` so that the verifier's control
    signals pass through;
  * replaces `threading` and `datetime` imports by stand-ins from the runtime.

What it drops: docstring and line numbers are kept; nothing else is dropped.
"""
import ast
import copy
import importlib.abc
import importlib.util
import os
import sys

PKG = "lunar_dv"
ORIG = "lunar_python"

STR_METHODS = {n for n in dir(str) if not n.startswith("_")} - {"index", "count"} | {"index", "count"}
BUILTINS = ["int", "str", "len", "range", "min", "max", "round", "isinstance", "float", "abs", "sum", "sorted",
            "divmod", "bool", "print", "repr", "hash", "any", "all"]


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _rt(fn, *args, keywords=None):
    return ast.Call(func=ast.Attribute(value=_name("dv_rt"), attr=fn, ctx=ast.Load()), args=list(args),
                    keywords=keywords or [])


def _stored(nodes):
    """(names assigned in the statements, names of lists they add to, whether nothing else may be mutated by them)"""
    out = set()
    adds = set()
    ok = True
    for node in nodes:
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                ok = False
            elif isinstance(n, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Yield,
                                ast.YieldFrom, ast.With, ast.Try)):
                ok = False
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "append", "extend") and isinstance(n.func.value, ast.Name):
                adds.add(n.func.value.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "append", "extend", "insert", "pop", "remove", "clear", "update", "sort", "reverse", "add",
                    "discard", "setdefault", "popitem"):
                ok = False
    return out, adds, ok


def _exits(body):
    """tests of the conditional statements that leave the loop"""
    out = []
    for s in body:
        if isinstance(s, ast.If):
            if any(isinstance(n, (ast.Break, ast.Return)) for b in s.body + s.orelse for n in ast.walk(b)):
                out.append(s.test)
                out += _exits(s.body) + _exits(s.orelse)
    return out


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.loopno = [0]

    # scopes
    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.bases = [self.visit(b) for b in node.bases]
        node.body = [self._flat(s) for s in node.body]
        node.body = self._splice(node.body)
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.loopno.append(0)
        # defaults are evaluated at definition time; annotations dropped from evaluation
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        node.body = self._splice([self._flat(s) for s in node.body])
        if len(self.loopno) == 2:
            note = ast.Expr(value=_rt("entered", ast.Constant(".".join(self.stack))))
            node.body.insert(1 if ast.get_docstring(node) is not None else 0, ast.copy_location(note, node.body[0]))
        self.loopno.pop()
        self.stack.pop()
        return node

    def _flat(self, s):
        return self.visit(s)

    @staticmethod
    def _splice(ss):
        out = []
        for s in ss:
            if isinstance(s, list):
                out.extend(s)
            elif s is not None:
                out.append(s)
        return out

    def infun(self):
        return len(self.loopno) > 1

    # expressions
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_rt("mod", node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(targets=[node.target], value=_rt(
                "mod", _name(node.target.id), node.value)), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(_rt("fstr", ast.List(elts=parts, ctx=ast.Load())), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = _rt("contains", node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Constant):
            if isinstance(node.slice, ast.Slice):
                return node
            return ast.copy_location(_rt("getitem", node.value, node.slice), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in STR_METHODS:
            return ast.copy_location(_rt("method", f.value, ast.Constant(f.attr), *node.args,
                                         keywords=node.keywords), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not node.keys and not self.infun():
            return ast.copy_location(_rt("GhostDict"), node)
        return node

    # statements
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = _name("Exception")
        return node

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module and (node.module == ORIG or node.module.startswith(ORIG + ".")):
            node.module = PKG + node.module[len(ORIG):]
        if node.level == 0 and node.module in ("threading", "datetime", "functools"):
            return [ast.copy_location(ast.Assign(targets=[_name(a.asname or a.name, ast.Store())],
                                                 value=_rt("shim", ast.Constant(node.module), ast.Constant(a.name))),
                                      node) for a in node.names]
        return node

    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name in ("threading", "datetime", "functools"):
                out.append(ast.copy_location(ast.Assign(targets=[_name(a.asname or a.name, ast.Store())],
                                                        value=_rt("shim", ast.Constant(a.name), ast.Constant(None))),
                                             node))
            else:
                n = a.name
                if n == ORIG or n.startswith(ORIG + "."):
                    a = ast.alias(name=PKG + n[len(ORIG):], asname=a.asname)
                out.append(ast.copy_location(ast.Import(names=[a]), node))
        return out

    def _key(self):
        self.loopno[-1] += 1
        return "%s:%s#%d" % (self.mod, ".".join(self.stack), self.loopno[-1])

    def _cutform(self, key, pre, test, body, stored):
        """statements running one arbitrary iteration"""
        k = ast.Constant(key)
        loc = ast.Call(func=_name("locals"), args=[], keywords=[])
        out = list(pre)
        out.append(ast.Assign(targets=[_name("dv_h", ast.Store())], value=_rt(
            "havoc", k, ast.Constant(tuple(sorted(stored))), loc)))
        for s in sorted(stored):
            out.append(ast.If(test=ast.Compare(left=ast.Constant(s), ops=[ast.In()], comparators=[_name("dv_h")]),
                              body=[ast.Assign(targets=[_name(s, ast.Store())], value=ast.Subscript(
                                  value=_name("dv_h"), slice=ast.Constant(s), ctx=ast.Load()))], orelse=[]))
        inner = [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test), body=[ast.Break()], orelse=[])] + body
        out.append(ast.While(test=_rt("head", k, copy.deepcopy(loc)), body=inner, orelse=[]))
        return out

    def visit_While(self, node):
        if not self.infun():
            return self.generic_visit(node)
        key = self._key()
        stored, adds, ok = _stored(node.body)
        stored = stored | adds
        tnames = sorted({n.id for t in [node.test] + _exits(node.body) for n in ast.walk(t) if isinstance(n, ast.Name)})
        cutbody = copy.deepcopy(node.body)
        cuttest = copy.deepcopy(node.test)
        save = list(self.loopno)
        self.generic_visit(node)
        node.body = self._splice(node.body)
        if not ok or node.orelse:
            node.body.insert(0, ast.Expr(_rt("tick", ast.Constant(key))))
            return node
        self.loopno[:] = save
        cutbody = self._splice([self.visit(s) for s in cutbody])
        cut = self._cutform(key, [], self.visit(cuttest), cutbody, stored)
        node.body.insert(0, ast.Expr(_rt("tick", ast.Constant(key))))
        r = ast.If(test=_rt("is_cut", ast.Constant(key), ast.Constant(tuple(tnames)), ast.Constant(tuple(sorted(adds))),
                            ast.Call(func=_name("locals"), args=[], keywords=[])), body=cut, orelse=[node])
        return ast.copy_location(r, node)

    def visit_For(self, node):
        if not self.infun():
            return self.generic_visit(node)
        isr = (isinstance(node.iter, ast.Call) and isinstance(node.iter.func, ast.Name) and node.iter.func.id == "range"
               and not node.iter.keywords and len(node.iter.args) in (1, 2, 3) and isinstance(node.target, ast.Name))
        if not isr:
            self.generic_visit(node)
            node.body = self._splice(node.body)
            return node
        key = self._key()
        stored, adds, ok = _stored(node.body)
        stored = stored | adds
        cutbody = copy.deepcopy(node.body)
        args = copy.deepcopy(node.iter.args)
        save = list(self.loopno)
        self.generic_visit(node)
        node.body = self._splice(node.body)
        if not ok or node.orelse:
            return node
        self.loopno[:] = save
        cutbody = self._splice([self.visit(s) for s in cutbody])
        n = len(self.loopno) * 100 + self.loopno[-1]
        rv, iv = "dv_r%d" % n, "dv_i%d" % n
        args = [self.visit(a) for a in args]
        bounds = ast.Assign(targets=[_name(rv, ast.Store())], value=_rt("range3", *args))
        # the real loop iterates over the same evaluated bounds
        node.iter = ast.Call(func=_name("range"), args=[ast.Starred(value=_name(rv), ctx=ast.Load())], keywords=[])
        pre = [ast.Assign(targets=[_name(iv, ast.Store())], value=ast.Subscript(
            value=_name(rv), slice=ast.Constant(0), ctx=ast.Load()))]
        test = ast.Compare(left=_name(iv), ops=[ast.Lt()], comparators=[ast.Subscript(
            value=_name(rv), slice=ast.Constant(1), ctx=ast.Load())])
        body = [ast.Assign(targets=[_name(node.target.id, ast.Store())], value=_name(iv)),
                ast.Assign(targets=[_name(iv, ast.Store())], value=ast.BinOp(
                    left=_name(iv), op=ast.Add(), right=ast.Subscript(
                        value=_name(rv), slice=ast.Constant(2), ctx=ast.Load())))] + cutbody
        cut = self._cutform(key, pre, test, body, stored | {iv, node.target.id})
        r = ast.If(test=_rt("is_cut_range", ast.Constant(key), _name(rv), ast.Constant(tuple(sorted(adds))),
                            ast.Call(func=_name("locals"), args=[], keywords=[])), body=cut, orelse=[node])
        return [ast.copy_location(bounds, node), ast.copy_location(r, node)]


def _fix_bodies(tree):
    """splice statement lists produced inside nested blocks"""
    class F(ast.NodeTransformer):
        pass
    for node in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list):
                setattr(node, f, Tr._splice(b))
    return tree


def instrument(source, modname, filename):
    tree = ast.parse(source, filename)
    tr = Tr(modname)
    tree.body = Tr._splice([tr.visit(s) for s in tree.body])
    _fix_bodies(tree)
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.abc.Loader):
    def __init__(self, path, rt):
        self.path = path
        self.rt = rt

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        tree = instrument(src, module.__name__, self.path)
        code = compile(tree, self.path, "exec", dont_inherit=True)
        module.__dict__["dv_rt"] = self.rt
        for b in BUILTINS:
            module.__dict__[b] = getattr(self.rt, "b_" + b)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, rt):
        self.root = root
        self.rt = rt

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        rel = name[len(PKG):].replace(".", "/")
        base = self.root + rel
        if os.path.isdir(base) and os.path.exists(base + "/__init__.py"):
            p = base + "/__init__.py"
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, self.rt),
                                                          submodule_search_locations=[base])
        p = base + ".py"
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, self.rt))
        return None


def load_instrumented(repo, rt):
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]:
        del sys.modules[k]
    sys.meta_path.insert(0, Finder(os.path.join(repo, ORIG), rt))
    return importlib.import_module(PKG)
