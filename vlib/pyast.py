"""Python source -> the JSON tree engine/py.cpp interprets abstractly. Names are resolved to frame slots here. Nothing is executed."""
import ast, json, os
from .run import CheckError

BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}
UN = {ast.Not: "not", ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}

class Scope:
    def __init__(self, kind, parent, names=()):
        self.kind, self.parent, self.slots = kind, parent, {}
        self.comp = []          # stack of {name: slot} for comprehension variables
        self.n = 0
        self.globals = set(); self.nonlocals = set()
        for x in names: self.add(x)
    def add(self, x):
        if x not in self.slots: self.slots[x] = self.n; self.n += 1
        return self.slots[x]
    def fresh(self):
        self.n += 1
        return self.n - 1

def assigned(body):
    """names bound in a function body, not descending into nested functions or comprehensions"""
    out, gl, nl = [], set(), set()
    def tgt(t):
        if isinstance(t, ast.Name): out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)): [tgt(e) for e in t.elts]
        elif isinstance(t, ast.Starred): tgt(t.value)
    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)): out.append(n.name); return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr): tgt(c.target)
            return
        if isinstance(n, ast.Global): gl.update(n.names)
        if isinstance(n, ast.Nonlocal): nl.update(n.names)
        if isinstance(n, ast.Assign): [tgt(t) for t in n.targets]
        if isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)): tgt(n.target)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names: out.append((a.asname or a.name).split(".")[0])
        if isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None: tgt(i.optional_vars)
        if isinstance(n, ast.ExceptHandler) and n.name: out.append(n.name)
        if isinstance(n, ast.Delete): [tgt(t) for t in n.targets]
        for c in ast.iter_child_nodes(n): walk(c)
    for s in body: walk(s)
    return [x for x in dict.fromkeys(out) if x not in gl and x not in nl], gl, nl

def always(l):
    """the list always ends in a return"""
    if not l: return False
    s = l[-1]
    return isinstance(s, ast.Return) or (isinstance(s, ast.If) and always(s.body) and always(s.orelse))

def exits(l, kinds=(ast.Break, ast.Continue)):
    """break/continue of this loop under (nested) ifs"""
    for s in l:
        if isinstance(s, kinds): return True
        if isinstance(s, ast.If) and (exits(s.body, kinds) or exits(s.orelse, kinds)): return True
    return False

class Export:
    def __init__(self, path):
        self.path = path
        self.cls = []
    def bad(self, n, what=None):
        raise CheckError("%s:%d: Python construct outside the analysed subset: %s" % (os.path.basename(self.path), getattr(n, "lineno", 0), what or type(n).__name__))
    def mangle(self, x):
        if x.startswith("__") and not x.endswith("__") and self.cls: return "_" + self.cls[-1].lstrip("_") + x
        return x
    def name(self, id, sc):
        depth, s = 0, sc
        for c in reversed(sc.comp):
            if id in c: return ["L", c[id]]
        while s is not None:
            if s.kind == "function" and id not in s.globals:
                if s is not sc:
                    for c in reversed(s.comp):
                        if id in c: return ["U", depth, c[id]]
                if id in s.slots: return ["L", s.slots[id]] if s is sc else ["U", depth, s.slots[id]]
                depth += 1
            elif s.kind == "class" and s is sc: return ["C", id]
            elif s.kind == "module":
                if s is not sc:
                    pass
            s = s.parent
        return ["G", id]
    # ------------------------------------------------------------ expressions
    def es(self, l, sc): return [self.e(x, sc) for x in l]
    def e(self, n, sc):
        L = n.lineno
        if isinstance(n, ast.Constant):
            v = n.value
            if v is None: return ["None", L]
            if v is True or v is False: return ["Bool", L, int(v)]
            if isinstance(v, int): return ["Int", L, str(v)]
            if isinstance(v, float): return ["Float", L, v]
            if isinstance(v, str): return ["Str", L, v]
            if isinstance(v, bytes): return ["Bytes", L, v.hex()]
            if v is Ellipsis: return ["None", L]
            self.bad(n)
        if isinstance(n, ast.Name): return ["Name", L] + self.name(self.mangle(n.id), sc)
        if isinstance(n, ast.BinOp): return ["Bin", L, BIN.get(type(n.op)) or self.bad(n), self.e(n.left, sc), self.e(n.right, sc)]
        if isinstance(n, ast.UnaryOp): return ["Un", L, UN[type(n.op)], self.e(n.operand, sc)]
        if isinstance(n, ast.BoolOp): return ["And" if isinstance(n.op, ast.And) else "Or", L, self.es(n.values, sc)]
        if isinstance(n, ast.Compare): return ["Cmp", L, [CMP[type(o)] for o in n.ops], self.es([n.left] + n.comparators, sc)]
        if isinstance(n, ast.IfExp): return ["IfExp", L, self.e(n.test, sc), self.e(n.body, sc), self.e(n.orelse, sc)]
        if isinstance(n, ast.Attribute): return ["Attr", L, self.e(n.value, sc), self.mangle(n.attr)]
        if isinstance(n, ast.Subscript):
            if isinstance(n.slice, ast.Slice): return ["Slice", L, self.e(n.value, sc)] + [self.e(x, sc) if x is not None else ["None", L] for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            return ["Sub", L, self.e(n.value, sc), self.e(n.slice, sc)]
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ("sum", "any", "all", "len") and self.name(n.func.id, sc)[0] == "G" and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and any(g.ifs for g in n.args[0].generators):
                # a filter inside a total: the element counts when the filter holds
                c = n.args[0]
                f = ast.BoolOp(op=ast.And(), values=[i for g in c.generators for i in g.ifs])
                if len(f.values) == 1: f = f.values[0]
                el = ast.Constant(value=1) if n.func.id == "len" else c.elt
                alt = ast.Constant(value={"sum": 0, "len": 0, "any": False, "all": True}[n.func.id])
                if len(c.generators) == 1:
                    new = ast.GeneratorExp(elt=ast.IfExp(test=f, body=el, orelse=alt), generators=[ast.comprehension(target=g.target, iter=g.iter, ifs=[], is_async=0) for g in c.generators])
                    n = ast.fix_missing_locations(ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id="sum" if n.func.id == "len" else n.func.id, ctx=ast.Load()), n), args=[ast.copy_location(new, c)], keywords=[]), n))
            args = [["Star", L, self.e(a.value, sc)] if isinstance(a, ast.Starred) else self.e(a, sc) for a in n.args]
            kw = []
            for k in n.keywords:
                if k.arg is None: self.bad(n, "** argument")
                kw.append([k.arg, self.e(k.value, sc)])
            return ["Call", L, self.e(n.func, sc), args, kw]
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            return ["Tuple" if isinstance(n, ast.Tuple) else "List", L, [["Star", L, self.e(x.value, sc)] if isinstance(x, ast.Starred) else self.e(x, sc) for x in n.elts]]
        if isinstance(n, ast.Dict): return ["Dict", L, self.es(n.keys, sc), self.es(n.values, sc)]
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)): return self.comp(n, sc, "ListComp")
        if isinstance(n, ast.DictComp): return self.comp(n, sc, "DictComp")
        if isinstance(n, ast.Lambda): return self.func(n, sc, "<lambda>", [ast.copy_location(ast.Return(value=n.body), n.body)])
        if isinstance(n, ast.JoinedStr): return ["JoinedStr", L, [self.e(v.value if isinstance(v, ast.FormattedValue) else v, sc) for v in n.values]]
        if isinstance(n, ast.NamedExpr): return ["Walrus", L, self.target(n.target, sc), self.e(n.value, sc)]
        if isinstance(n, ast.Yield): return ["Yield", L, self.e(n.value, sc) if n.value else ["None", L]]
        if isinstance(n, ast.Starred): self.bad(n)
        self.bad(n)
    def comp(self, n, sc, kind):
        gens, base = [], len(sc.comp)
        if sc.kind == "class" : pass
        for g in n.generators:
            it = self.e(g.iter, sc)
            names = {}
            for t in ast.walk(g.target):
                if isinstance(t, ast.Name): names[t.id] = sc.fresh()
            sc.comp.append(names)
            gens.append([self.target(g.target, sc), it, self.es(g.ifs, sc)])
        el = [self.e(n.key, sc), self.e(n.value, sc)] if kind == "DictComp" else [self.e(n.elt, sc)]
        del sc.comp[base:]
        return [kind, n.lineno, el, gens]
    def target(self, t, sc):
        L = t.lineno
        if isinstance(t, ast.Name): return ["Name", L] + self.name(self.mangle(t.id), sc)
        if isinstance(t, (ast.Tuple, ast.List)): return ["Tuple", L, [self.target(x, sc) for x in t.elts]]
        if isinstance(t, (ast.Attribute, ast.Subscript)): return self.e(t, sc)
        self.bad(t)
    # ------------------------------------------------------------ statements
    def func(self, n, sc, name, body):
        a = n.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        f = Scope("function", sc, [self.mangle(x) for x in ps] + ([a.vararg.arg] if a.vararg else []))
        if a.kwarg: self.bad(n, "** parameter")
        loc, gl, nl = assigned(body)
        for x in loc: f.add(self.mangle(x))
        f.globals, f.nonlocals = gl, nl
        npos = len(a.posonlyargs + a.args)
        defs = [None] * (npos - len(a.defaults)) + list(a.defaults) + list(a.kw_defaults)
        dv = [self.e(d, sc) if d is not None else 0 for d in defs]
        b = self.body(body, f)
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for s in body for x in ast.walk(s)) if name != "<lambda>" else False
        return ["Func", n.lineno, name, ps, dv, 1 if a.vararg else 0, f, b, 1 if gen else 0]
    def body(self, l, sc): return [x for s in self.early(l) for x in [self.s(s, sc)] if x]
    def early(self, l):
        """if c: ...return  followed by more  ->  if/else"""
        for i, s in enumerate(l):
            if isinstance(s, ast.If) and i + 1 < len(l) and always(s.body) and not always(s.orelse):
                return list(l[:i]) + [ast.copy_location(ast.If(test=s.test, body=s.body, orelse=list(s.orelse) + list(l[i + 1:])), s)]
        return l
    def loop(self, n, sc):
        """continue and break under a condition -> if/else and a flag"""
        if not exits(n.body): return n.body, None
        flag = None
        if isinstance(n, ast.For) and not n.orelse and exits(n.body, ast.Break): flag = sc.fresh()
        def T(l):
            out = []
            for i, s in enumerate(l):
                if isinstance(s, ast.Continue): return out
                if isinstance(s, ast.Break): return out + [("flag", s.lineno) if flag is not None else s]
                if isinstance(s, (ast.Return, ast.Raise)): return out + [s]
                if isinstance(s, ast.If) and exits([s]):
                    b, o = T(s.body + l[i + 1:]), T(s.orelse + l[i + 1:])
                    return out + [("if", s.lineno, s.test, b, o)]
                out.append(s)
            return out
        return T(n.body), flag
    def tbody(self, l, sc, flag):
        out = []
        for s in l:
            if isinstance(s, tuple) and s[0] == "flag": out.append(["Assign", s[1], [["Name", s[1], "L", flag]], ["Bool", s[1], 1]])
            elif isinstance(s, tuple): out.append(["If", s[1], self.e(s[2], sc), self.tbody(s[3], sc, flag), self.tbody(s[4], sc, flag)])
            else:
                x = self.s(s, sc)
                if x: out.append(x)
        return out
    def forloop(self, n, sc):
        L = n.lineno
        b, flag = self.loop(n, sc)
        if flag is None:
            return ["For", L, self.target(n.target, sc), self.e(n.iter, sc), self.tbody(b, sc, None), self.body(n.orelse, sc)]
        item = sc.fresh()
        F, I = ["Name", L, "L", flag], ["Name", L, "L", item]
        inner = ["If", L, F, [], [["Assign", L, [self.target(n.target, sc)], I]] + self.tbody(b, sc, flag)]
        return ["Block", L, [["Assign", L, [F], ["Bool", L, 0]], ["For", L, I, self.e(n.iter, sc), [["BrkIf", L, F], inner], []]]]
    def s(self, n, sc):
        L = n.lineno
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant): return None
            return ["Expr", L, self.e(n.value, sc)]
        if isinstance(n, ast.Assign): return ["Assign", L, [self.target(t, sc) for t in n.targets], self.e(n.value, sc)]
        if isinstance(n, ast.AnnAssign): return ["Assign", L, [self.target(n.target, sc)], self.e(n.value, sc)] if n.value is not None else None
        if isinstance(n, ast.AugAssign): return ["Aug", L, BIN.get(type(n.op)) or self.bad(n), self.target(n.target, sc), self.e(n.value, sc)]
        if isinstance(n, ast.For): return self.forloop(n, sc)
        if isinstance(n, ast.While): return ["While", L, self.e(n.test, sc), self.tbody(self.loop(n, sc)[0], sc, None), self.body(n.orelse, sc)]
        if isinstance(n, ast.If): return ["If", L, self.e(n.test, sc), self.body(n.body, sc), self.body(n.orelse, sc)]
        if isinstance(n, ast.Return): return ["Return", L, self.e(n.value, sc) if n.value is not None else ["None", L]]
        if isinstance(n, ast.Pass): return None
        if isinstance(n, ast.Break): return ["Break", L]
        if isinstance(n, ast.Continue): return ["Continue", L]
        if isinstance(n, ast.Assert): return ["Assert", L, self.e(n.test, sc)]
        if isinstance(n, ast.Raise): return ["Raise", L]
        if isinstance(n, (ast.Global, ast.Nonlocal)): return None
        if isinstance(n, ast.FunctionDef):
            f = self.func(n, sc, n.name, n.body)
            d = [self.e(x, sc) for x in n.decorator_list]
            return ["Def", L, ["Name", L] + self.name(self.mangle(n.name), sc), f, d]
        if isinstance(n, ast.ClassDef):
            c = Scope("class", sc)
            self.cls.append(n.name)
            b = self.body(n.body, c)
            self.cls.pop()
            return ["Class", L, ["Name", L] + self.name(n.name, sc), n.name, self.es(n.bases, sc), b, c]
        if isinstance(n, ast.Import):
            return ["Import", L, [[a.name, ["Name", L] + self.name((a.asname or a.name.split(".")[0]), sc), 1 if a.asname else 0] for a in n.names]]
        if isinstance(n, ast.ImportFrom):
            return ["From", L, n.module or "", [[a.name, ["Name", L] + self.name(a.asname or a.name, sc)] for a in n.names]]
        if isinstance(n, ast.Try): return ["Try", L, self.body(n.body, sc), self.body(n.orelse, sc), self.body(n.finalbody, sc)]
        if isinstance(n, ast.With):
            return ["With", L, [[self.e(i.context_expr, sc), self.target(i.optional_vars, sc) if i.optional_vars is not None else 0] for i in n.items], self.body(n.body, sc)]
        if isinstance(n, ast.Delete): return None
        self.bad(n)
    def module(self, tree, name):
        # "if __name__ == '__main__'" parts are not part of the library
        body = [s for s in tree.body if not (isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == "__name__")]
        sc = Scope("module", None)
        b = self.body(body, sc)
        return [name, b, sc]

def fix(x):
    if isinstance(x, Scope): return x.n
    if isinstance(x, list): return [fix(y) for y in x]
    return x

def export(pydir, main="frodokem.py"):
    mods, todo, seen = [], [main], set()
    while todo:
        f = todo.pop()
        if f in seen: continue
        seen.add(f)
        p = os.path.join(pydir, f)
        try: tree = ast.parse(open(p, encoding="utf-8").read(), p)
        except SyntaxError as e: raise CheckError("%s does not parse: %s" % (f, e))
        for n in ast.walk(tree):
            names = [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module] if isinstance(n, ast.ImportFrom) and n.module else []
            for m in names:
                if os.path.exists(os.path.join(pydir, m.split(".")[0] + ".py")): todo.append(m.split(".")[0] + ".py")
        mods.append(Export(p).module(tree, f[:-3]))
    return json.dumps(fix(mods))
