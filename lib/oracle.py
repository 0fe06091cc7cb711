"""Independent tracing oracle.

`instrument(source)` rewrites a script so that, run by plain Python, it logs
which calls happened (tree and order), which values were computed at which
source position, and where each value came from.  It shares nothing with
noWorkflow's own transformer: positions are the ones of the standard `ast`
module and values are logged right after Python computed them.

Run as driver: oracle.py <script> <out.json> -- executed with cwd = script dir.
"""
import ast
import functools
import inspect
import json
import os
import sys
import types

A = "NOWA_"
T = "NOWT_"


class Node(object):
    __slots__ = ("id", "type", "pos", "text", "mode", "kids", "ctrl", "scope", "fn", "tkids")

    def __init__(self, id_, type_, pos, mode):
        self.id, self.type, self.pos, self.mode = id_, type_, pos, mode
        self.kids = []
        self.tkids = []


def pos_of(node):
    return (node.lineno, node.col_offset, node.end_lineno, node.end_col_offset)


class Scope(object):
    """Static scope: which names are local, and how to get to the parent"""

    def __init__(self, parent, kind):
        self.parent, self.kind = parent, kind
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()

    def resolve(self, name):
        """-> number of function levels to go up, or -1 for module level"""
        if self.kind == "module":
            return -1
        if name in self.globals:
            return -1
        if name in self.locals:
            return 0
        level, scope = 1, self.parent
        while scope is not None and scope.kind != "module":
            if scope.kind != "class" and name in scope.locals:
                return level
            level, scope = level + 1, scope.parent
        return -1


class Locals(ast.NodeVisitor):
    def __init__(self, scope):
        self.s = scope

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.s.locals.add(node.id)

    def visit_FunctionDef(self, node):
        self.s.locals.add(node.name)
        for dec in node.decorator_list:
            self.visit(dec)
        for dft in node.args.defaults + [d for d in node.args.kw_defaults if d]:
            self.visit(dft)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.s.locals.add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_Global(self, node):
        self.s.globals.update(node.names)

    def visit_Nonlocal(self, node):
        self.s.nonlocals.update(node.names)

    def visit_ExceptHandler(self, node):
        if node.name:
            self.s.locals.add(node.name)
        self.generic_visit(node)

    def visit_Import(self, node):
        for al in node.names:
            self.s.locals.add((al.asname or al.name).split(".")[0])

    visit_ImportFrom = visit_Import


def scope_of(node, parent, kind):
    scope = Scope(parent, kind)
    if kind in ("function", "lambda"):
        args = node.args
        for a in args.posonlyargs + args.args + args.kwonlyargs + [x for x in (args.vararg, args.kwarg) if x]:
            scope.locals.add(a.arg)
    col = Locals(scope)
    body = node.body if isinstance(node.body, list) else [node.body]
    for stmt in body:
        col.visit(stmt)
    scope.locals -= scope.globals | scope.nonlocals
    return scope


class Instrument(ast.NodeTransformer):
    def __init__(self):
        self.nodes = []
        self.scope = None
        self.tmp = 0
        self.actname = A
        self.ctrl = []
        self.infstr = 0
        self.docs = []

    # -- helpers
    def node(self, type_, pos, mode="r"):
        n = Node(len(self.nodes), type_, pos, mode)
        n.ctrl = list(self.ctrl)
        self.nodes.append(n)
        return n

    def name(self, ident, ctx=None):
        return ast.Name(ident, ctx or ast.Load())

    def t(self, method, *args):
        return ast.Call(ast.Attribute(self.name(T), method, ast.Load()),
                        [a if isinstance(a, ast.AST) else ast.Constant(a) for a in args], [])

    def act(self):
        return self.name(self.actname)

    def temp(self):
        self.tmp += 1
        return "NOWV_%d" % self.tmp

    def wrap(self, type_, node, new, kids=(), method="v", extra=()):
        n = self.node(type_, pos_of(node))
        n.kids = [k for k in kids if k is not None]
        res = ast.copy_location(self.t(method, n.id, self.act(), new, *extra), node)
        res.nid = n.id
        return res

    def x(self, node):
        """Visit an expression, return the new one (with .nid if logged)"""
        return self.visit(node)

    @staticmethod
    def nid(new):
        return getattr(new, "nid", None)

    # -- expressions
    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Load):
            return self.wrap("name", node, node, method="n", extra=(node.id, self.scope.resolve(node.id)))
        return node

    def visit_Constant(self, node):
        if self.infstr or node.value is Ellipsis:
            return node
        return self.wrap("literal", node, node)

    def visit_BinOp(self, node):
        l, r = self.x(node.left), self.x(node.right)
        return self.wrap(type(node.op).__name__.lower(), node, ast.BinOp(l, node.op, r), [self.nid(l), self.nid(r)])

    def visit_BoolOp(self, node):
        vals = [self.x(v) for v in node.values]
        return self.wrap(type(node.op).__name__.lower(), node, ast.BoolOp(node.op, vals), [self.nid(v) for v in vals])

    def visit_UnaryOp(self, node):
        v = self.x(node.operand)
        return self.wrap(type(node.op).__name__.lower(), node, ast.UnaryOp(node.op, v), [self.nid(v)])

    def visit_Compare(self, node):
        l = self.x(node.left)
        cs = [self.x(c) for c in node.comparators]
        type_ = ".".join(type(o).__name__.lower() for o in node.ops)
        return self.wrap(type_, node, ast.Compare(l, node.ops, cs), [self.nid(v) for v in [l] + cs])

    def visit_IfExp(self, node):
        test = self.x(node.test)
        start = len(self.nodes)
        body, orelse = self.x(node.body), self.x(node.orelse)
        for n in self.nodes[start:]:
            if self.nid(test) is not None:
                n.ctrl.append(self.nid(test))
        n = self.wrap("ifexp", node, ast.IfExp(test, body, orelse), [self.nid(body), self.nid(orelse), self.nid(test)])
        return n

    def visit_Subscript(self, node):
        v, s = self.x(node.value), self.x(node.slice)
        if not isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Subscript(v, s, node.ctx), node)
        return self.wrap("subscript", node, self.t("item", v, s), [self.nid(v), self.nid(s)], method="vi")

    def visit_Slice(self, node):
        parts = [self.x(p) if p else None for p in (node.lower, node.upper, node.step)]
        new = ast.Call(self.name("slice"), [p or ast.Constant(None) for p in parts], [])
        return self.wrap("slice", node, new, [self.nid(p) for p in parts if p])

    def visit_Attribute(self, node):
        v = self.x(node.value)
        if not isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Attribute(v, node.attr, node.ctx), node)
        attr = node.attr
        keep = ast.Attribute(self.t("base", v), attr, ast.Load())
        return self.wrap("attribute", node, keep, [self.nid(v)], method="va", extra=(attr,))

    def seq(self, node, cls, type_):
        if not isinstance(getattr(node, "ctx", ast.Load()), ast.Load):
            return self.generic_visit(node)
        elts = [self.x(e) for e in node.elts]
        kids = []
        for e, old in zip(elts, node.elts):
            kids.append(self.nid(e.value) if isinstance(old, ast.Starred) else self.nid(e))
        new = cls(elts, ast.Load()) if cls is not ast.Set else cls(elts)
        star = any(isinstance(e, ast.Starred) for e in node.elts)
        res = self.wrap(type_, node, new, kids, method="vs" if not star else "v")
        return res

    def visit_List(self, node):
        return self.seq(node, ast.List, "list")

    def visit_Tuple(self, node):
        return self.seq(node, ast.Tuple, "tuple")

    def visit_Set(self, node):
        return self.seq(node, ast.Set, "set")

    def visit_Starred(self, node):
        return ast.copy_location(ast.Starred(self.x(node.value), node.ctx), node)

    def visit_Dict(self, node):
        keys, vals, kids = [], [], []
        for k, v in zip(node.keys, node.values):
            nk = self.x(k) if k else None
            nv = self.x(v)
            if k:
                n = self.node("key_value", (k.lineno, k.col_offset, v.end_lineno, v.end_col_offset))
                n.kids = [i for i in (self.nid(nk), self.nid(nv)) if i is not None]
                nk = self.t("kvk", n.id, self.act(), nk)
                nv = self.t("v", n.id, self.act(), nv)
                kids.append(n.id)
            else:
                kids.append(self.nid(nv))
            keys.append(nk)
            vals.append(nv)
        return self.wrap("dict", node, ast.Dict(keys, vals), kids, method="vd" if None not in node.keys else "v")

    def comp(self, node, type_, elts):
        gens = []
        gkids = []
        ctrl = list(self.ctrl)
        for g in node.generators:
            it = self.x(g.iter)
            gkids.append(self.nid(it))
            conds = []
            for nm in ast.walk(g.target):
                if isinstance(nm, ast.Name):
                    n = self.node("name", pos_of(nm), "w")
                    n.kids = [self.nid(it)] if self.nid(it) is not None else []
                    self.scope.locals.add(nm.id)
                    conds.append(self.t("cw", n.id, self.act(), self.name(nm.id), nm.id))
            for c in g.ifs:
                nc = self.x(c)
                conds.append(nc)
                if self.nid(nc) is not None:
                    self.ctrl.append(self.nid(nc))
            gens.append(ast.comprehension(g.target, it, conds, g.is_async))
        new = [self.x(e) for e in elts]
        self.ctrl = ctrl
        kids = [self.nid(e) for e in new]
        return new, gens, kids + gkids

    def celt(self, new):
        """Element of the comprehension that is wrapped next"""
        nid = self.nid(new)
        res = self.t("ce", len(self.nodes), self.act(), new, -1 if nid is None else nid)
        return res

    def visit_ListComp(self, node):
        (e,), gens, kids = self.comp(node, "listcomp", [node.elt])
        e = self.celt(e)
        return self.wrap("listcomp", node, ast.ListComp(e, gens), kids, method="vc")

    def visit_SetComp(self, node):
        (e,), gens, kids = self.comp(node, "setcomp", [node.elt])
        e = self.celt(e)
        return self.wrap("setcomp", node, ast.SetComp(e, gens), kids, method="vc")

    def visit_GeneratorExp(self, node):
        (e,), gens, kids = self.comp(node, "genexpcomp", [node.elt])
        return self.wrap("genexpcomp", node, ast.GeneratorExp(e, gens), kids, method="vg")

    def visit_DictComp(self, node):
        (k, v), gens, kids = self.comp(node, "dictcomp", [node.key, node.value])
        n = self.node("key_value", (node.key.lineno, node.key.col_offset, node.value.end_lineno, node.value.end_col_offset))
        n.kids = [i for i in (self.nid(k), self.nid(v)) if i is not None]
        k = self.t("kvk", n.id, self.act(), k)
        v = self.t("v", n.id, self.act(), v)
        v.nid = n.id
        v = self.celt(v)
        return self.wrap("dictcomp", node, ast.DictComp(k, v, gens), kids + [n.id], method="vc")

    def visit_JoinedStr(self, node):
        vals, kids = [], []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                inner = self.x(v.value)
                kids.append(self.nid(inner))
                spec = v.format_spec
                if spec is not None:
                    self.infstr += 1
                    spec = ast.JoinedStr([self.visit(s) if isinstance(s, ast.FormattedValue) else s for s in spec.values])
                    self.infstr -= 1
                vals.append(ast.FormattedValue(inner, v.conversion, spec))
            else:
                vals.append(v)
        return self.wrap("fstring", node, ast.JoinedStr(vals), kids)

    def visit_NamedExpr(self, node):
        val = self.x(node.value)
        n = self.node("name", pos_of(node.target), "w")
        n.kids = [i for i in [self.nid(val)] if i is not None]
        res = ast.NamedExpr(node.target, self.t("walrus", n.id, self.act(), val, node.target.id,
                                                self.scope.resolve(node.target.id)))
        res.nid = n.id
        return ast.copy_location(res, node)

    def visit_Lambda(self, node):
        n = self.node("lambda_def", pos_of(node), "w")
        args = self.defaults(node.args)
        old, oldctrl, oldact = self.scope, self.ctrl, self.actname
        self.scope, self.ctrl, self.actname = scope_of(node, old, "lambda"), [], A
        body = self.x(node.body)
        ret = self.t("ret", self.act(), body, self.nid(body) if self.nid(body) is not None else -1)
        params = self.params(node.args)
        self.scope, self.ctrl, self.actname = old, oldctrl, oldact
        inner = ast.Lambda(ast.arguments([], [ast.arg(A)], None, [], [], None, []), ret)
        new = ast.Lambda(args, ast.Call(inner, [self.t("enter")], []))
        res = ast.copy_location(self.t("fn", n.id, self.act(), ast.Constant(params), new), node)
        res.nid = n.id
        return res

    def visit_Call(self, node):
        f = self.x(node.func)
        args = [self.x(a) for a in node.args]
        kws = [ast.keyword(k.arg, self.x(k.value)) for k in node.keywords]
        n = self.node("call", pos_of(node))
        kids = [self.nid(f)]
        kinds = []
        for a, old in zip(args, node.args):
            if isinstance(old, ast.Starred):
                kids.append(self.nid(a.value))
            else:
                kids.append(self.nid(a))
        for k in kws:
            kids.append(self.nid(k.value))
        n.kids = [k for k in kids if k is not None]
        del kinds
        res = ast.Call(self.t("call", n.id, self.act(), f), args, kws)
        res = ast.copy_location(res, node)
        res.nid = n.id
        return res

    def visit_Yield(self, node):
        v = self.x(node.value) if node.value else None
        if v is not None:
            v = self.t("yielded", self.act(), v, self.nid(v) if self.nid(v) is not None else -1)
        return self.wrap("yield", node, ast.Yield(v), [], method="vy")

    def visit_Await(self, node):
        raise NotImplementedError("await")

    # -- functions and classes
    def defaults(self, args):
        return ast.arguments(args.posonlyargs, args.args, args.vararg, args.kwonlyargs,
                             [self.x(d) if d else None for d in args.kw_defaults], args.kwarg,
                             [self.x(d) for d in args.defaults])

    def params(self, args):
        """static description: 'name:nid,…' in signature order"""
        res = []
        for a in args.posonlyargs + args.args + ([args.vararg] if args.vararg else []) + args.kwonlyargs + (
                [args.kwarg] if args.kwarg else []):
            n = self.node("param", (a.lineno, a.col_offset, a.lineno, a.col_offset + len(a.arg)), "w")
            res.append("%s:%d" % (a.arg, n.id))
        return ",".join(res)

    def body(self, stmts):
        res = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                res.extend(r)
            elif r is not None:
                res.append(r)
        return res

    def stmt(self, call, like):
        return ast.copy_location(ast.Expr(call), like)

    def visit_FunctionDef(self, node):
        line, col = node.lineno, node.col_offset
        if node.decorator_list:
            line, col = node.decorator_list[0].lineno, node.decorator_list[0].col_offset - 1
        n = self.node("function_def", (line, col, node.end_lineno, node.end_col_offset), "w")
        n.fn = node.name
        decs = [self.x(d) for d in node.decorator_list]
        args = self.defaults(node.args)
        old, oldctrl, oldact = self.scope, self.ctrl, self.actname
        self.scope, self.ctrl, self.actname = scope_of(node, old, "function"), [], A
        params = self.params(node.args)
        stmts = list(node.body)
        pre = []
        if isinstance(stmts[0], ast.Expr) and isinstance(stmts[0].value, ast.Constant) and isinstance(stmts[0].value.value, str):
            self.docs.append(pos_of(stmts[0].value))
            pre = [stmts.pop(0)]
        glob = [s for s in stmts if isinstance(s, (ast.Global, ast.Nonlocal))]
        rest = [s for s in stmts if not isinstance(s, (ast.Global, ast.Nonlocal))]
        enter = ast.copy_location(ast.Assign([self.name(A, ast.Store())], self.t("enter"), lineno=node.lineno), node)
        new_body = pre + glob + [enter] + self.body(rest)
        self.scope, self.ctrl, self.actname = old, oldctrl, oldact
        if isinstance(node, ast.AsyncFunctionDef):
            raise NotImplementedError("async")
        fn = self.t("deco", n.id, self.act(), ast.Constant(params))
        new = ast.FunctionDef(node.name, args, new_body, decs + [fn], None, None)
        if hasattr(node, "type_params"):
            new.type_params = []
        new = ast.copy_location(new, node)
        ws = self.t("defw", n.id, self.act(), node.name, self.scope.resolve(node.name))
        return [new, self.stmt(ws, node)]

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        line, col = node.lineno, node.col_offset
        if node.decorator_list:
            line, col = node.decorator_list[0].lineno, node.decorator_list[0].col_offset - 1
        n = self.node("class_def", (line, col, node.end_lineno, node.end_col_offset), "w")
        decs = [self.x(d) for d in node.decorator_list]
        bases = [self.x(b) for b in node.bases]
        n.kids = [self.nid(b) for b in bases if self.nid(b) is not None]
        kws = [ast.keyword(k.arg, self.x(k.value)) for k in node.keywords]
        old, oldctrl, oldact = self.scope, self.ctrl, self.actname
        self.scope, self.ctrl = scope_of(node, old, "class"), []
        inner = "NOWC_%d" % n.id
        enter = ast.Assign([self.name(inner, ast.Store())], self.t("enter_class", n.id, self.act(), node.name), lineno=node.lineno)
        self.actname = inner
        stmts = list(node.body)
        pre = []
        if isinstance(stmts[0], ast.Expr) and isinstance(stmts[0].value, ast.Constant) and isinstance(stmts[0].value.value, str):
            self.docs.append(pos_of(stmts[0].value))
            pre = [stmts.pop(0)]
        body = pre + [ast.copy_location(enter, node)] + self.body(stmts) + [
            self.stmt(self.t("exit_class", self.act()), node),
            ast.copy_location(ast.Delete([self.name(inner, ast.Del())]), node)]
        self.scope, self.ctrl, self.actname = old, oldctrl, oldact
        new = ast.ClassDef(node.name, bases, kws, body, decs)
        if hasattr(node, "type_params"):
            new.type_params = []
        new = ast.copy_location(new, node)
        done = self.t("class_done", n.id, self.act(), self.name(node.name), node.name, self.scope.resolve(node.name))
        return [new, self.stmt(done, node)]

    # -- statements
    def target(self, tgt, src, out, vid, like):
        """Assign the python expression `src` (a Name) to target, log it"""
        if isinstance(tgt, ast.Name):
            out.append(ast.copy_location(ast.Assign([self.name(tgt.id, ast.Store())], src, lineno=like.lineno), like))
            n = self.node("name", pos_of(tgt), "w")
            n.kids = [vid] if vid is not None else []
            out.append(self.stmt(self.t("w", n.id, self.act(), self.name(tgt.id), tgt.id, self.scope.resolve(tgt.id),
                                        vid if vid is not None else -1), like))
        elif isinstance(tgt, ast.Attribute):
            base = self.x(tgt.value)
            b = self.temp()
            out.append(ast.copy_location(ast.Assign([self.name(b, ast.Store())], base, lineno=like.lineno), like))
            out.append(ast.copy_location(ast.Assign([ast.Attribute(self.name(b), tgt.attr, ast.Store())], src, lineno=like.lineno), like))
            n = self.node("attribute", pos_of(tgt), "r")
            n.kids = [k for k in (vid,) if k is not None]
            n.tkids = [self.nid(base)]
            out.append(self.stmt(self.t("wa", n.id, self.act(), src, self.name(b), tgt.attr, vid if vid is not None else -1), like))
        elif isinstance(tgt, ast.Subscript):
            base = self.x(tgt.value)
            idx = self.x(tgt.slice)
            b, i = self.temp(), self.temp()
            out.append(ast.copy_location(ast.Assign([self.name(b, ast.Store())], base, lineno=like.lineno), like))
            out.append(ast.copy_location(ast.Assign([self.name(i, ast.Store())], idx, lineno=like.lineno), like))
            out.append(ast.copy_location(ast.Assign([ast.Subscript(self.name(b), self.name(i), ast.Store())], src, lineno=like.lineno), like))
            n = self.node("subscript", pos_of(tgt), "r")
            n.kids = [k for k in (vid,) if k is not None]
            n.tkids = [self.nid(base), self.nid(idx)]
            out.append(self.stmt(self.t("wi", n.id, self.act(), src, self.name(b), self.name(i), vid if vid is not None else -1), like))
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            temps = []
            elts = []
            for e in tgt.elts:
                tmp = self.temp()
                star = isinstance(e, ast.Starred)
                inner = e.value if star else e
                temps.append((inner, tmp))
                st = self.name(tmp, ast.Store())
                elts.append(ast.Starred(st, ast.Store()) if star else st)
            out.append(ast.copy_location(ast.Assign([ast.Tuple(elts, ast.Store())], src, lineno=like.lineno), like))
            for inner, tmp in temps:
                self.target(inner, self.name(tmp), out, vid, like)
        else:
            raise NotImplementedError(type(tgt).__name__)

    def visit_Assign(self, node):
        val = self.x(node.value)
        tmp = self.temp()
        out = [ast.copy_location(ast.Assign([self.name(tmp, ast.Store())], val, lineno=node.lineno), node)]
        for tgt in node.targets:
            vid = self.nid(val)
            self.target(tgt, self.name(tmp), out, vid, node)
        return out

    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.copy_location(ast.AnnAssign(node.target, ast.Constant(None), None, node.simple), node)
        val = self.x(node.value)
        tmp = self.temp()
        out = [ast.copy_location(ast.Assign([self.name(tmp, ast.Store())], val, lineno=node.lineno), node)]
        self.target(node.target, self.name(tmp), out, self.nid(val), node)
        return out

    def visit_AugAssign(self, node):
        tgt = node.target
        out = []
        v = self.temp()
        load = ast.copy_location
        if isinstance(tgt, ast.Name):
            # noWorkflow records the value read by the target after the one of the expression
            b, tmp = self.temp(), self.temp()
            out.append(load(ast.Assign([self.name(b, ast.Store())], self.name(tgt.id), lineno=node.lineno), node))
            val = self.x(node.value)
            out.append(load(ast.Assign([self.name(tmp, ast.Store())], val, lineno=node.lineno), node))
            vid = self.nid(val)
            old = self.wrap("name", tgt, self.name(b), method="n", extra=(tgt.id, self.scope.resolve(tgt.id)))
        elif isinstance(tgt, ast.Attribute):
            base = self.x(tgt.value)
            b = self.temp()
            out.append(load(ast.Assign([self.name(b, ast.Store())], base, lineno=node.lineno), node))
            old = self.wrap("attribute", tgt, ast.Attribute(self.t("base", self.name(b)), tgt.attr, ast.Load()), [self.nid(base)],
                            method="va", extra=(tgt.attr,))
        else:
            base, idx = self.x(tgt.value), self.x(tgt.slice)
            b, i = self.temp(), self.temp()
            out.append(load(ast.Assign([self.name(b, ast.Store())], base, lineno=node.lineno), node))
            out.append(load(ast.Assign([self.name(i, ast.Store())], idx, lineno=node.lineno), node))
            old = self.wrap("subscript", tgt, self.t("item", self.name(b), self.name(i)), [self.nid(base), self.nid(idx)], method="vi")
        out.append(load(ast.Assign([self.name(v, ast.Store())], old, lineno=node.lineno), node))
        if isinstance(tgt, ast.Name):
            val = self.name(tmp)
        else:
            val = self.x(node.value)
            vid = self.nid(val)
        out.append(load(ast.AugAssign(self.name(v, ast.Store()), node.op, val), node))
        oid = self.nid(old)
        like = node
        if isinstance(tgt, ast.Name):
            out.append(load(ast.Assign([self.name(tgt.id, ast.Store())], self.name(v), lineno=node.lineno), node))
            n = self.node("name", pos_of(tgt), "w")
            n.kids = [k for k in (vid, oid) if k is not None]
            out.append(self.stmt(self.t("w", n.id, self.act(), self.name(v), tgt.id, self.scope.resolve(tgt.id), -2), like))
        elif isinstance(tgt, ast.Attribute):
            out.append(load(ast.Assign([ast.Attribute(self.name(b), tgt.attr, ast.Store())], self.name(v), lineno=node.lineno), node))
            n = self.node("attribute", pos_of(tgt), "r")
            n.kids = [k for k in (vid, oid) if k is not None]
            n.tkids = [self.nid(base)]
            out.append(self.stmt(self.t("wa", n.id, self.act(), self.name(v), self.name(b), tgt.attr, -2), like))
        else:
            out.append(load(ast.Assign([ast.Subscript(self.name(b), self.name(i), ast.Store())], self.name(v), lineno=node.lineno), node))
            n = self.node("subscript", pos_of(tgt), "r")
            n.kids = [k for k in (vid, oid) if k is not None]
            n.tkids = [self.nid(base), self.nid(idx)]
            out.append(self.stmt(self.t("wi", n.id, self.act(), self.name(v), self.name(b), self.name(i), -2), like))
        return out

    def loop_targets(self, target, iter_id, like):
        out = []
        for nm in ast.walk(target):
            if isinstance(nm, ast.Name) and isinstance(nm.ctx, ast.Store):
                n = self.node("name", pos_of(nm), "w")
                n.kids = []
                out.append(self.stmt(self.t("lw", n.id, self.act(), self.name(nm.id), nm.id, self.scope.resolve(nm.id),
                                            iter_id if iter_id is not None else -1), like))
            elif isinstance(nm, (ast.Attribute, ast.Subscript)):
                raise NotImplementedError("loop target")
        return out

    def visit_For(self, node):
        it = self.x(node.iter)
        pre = self.loop_targets(node.target, self.nid(it), node)
        if self.nid(it) is not None:
            self.ctrl.append(self.nid(it))
        body = self.body(node.body)
        if self.nid(it) is not None:
            self.ctrl.pop()
        it = self.t("iter", self.act(), it, self.nid(it) if self.nid(it) is not None else -1)
        return ast.copy_location(ast.For(node.target, it, pre + body, self.body(node.orelse), lineno=node.lineno), node)

    def visit_While(self, node):
        start = len(self.nodes)
        test = self.x(node.test)
        if self.nid(test) is not None:
            for n in self.nodes[start:]:
                n.ctrl.append(self.nid(test))
            self.ctrl.append(self.nid(test))
        body = self.body(node.body)
        orelse = self.body(node.orelse)
        if self.nid(test) is not None:
            self.ctrl.pop()
        return ast.copy_location(ast.While(test, body, orelse), node)

    def visit_If(self, node):
        test = self.x(node.test)
        if self.nid(test) is not None:
            self.ctrl.append(self.nid(test))
        body, orelse = self.body(node.body), self.body(node.orelse)
        if self.nid(test) is not None:
            self.ctrl.pop()
        return ast.copy_location(ast.If(test, body, orelse), node)

    def visit_With(self, node):
        items, pre = [], []
        for it in node.items:
            ctx = self.x(it.context_expr)
            items.append(ast.withitem(ctx, it.optional_vars))
            if it.optional_vars is not None:
                pre += self.loop_targets(it.optional_vars, self.nid(ctx), node)
        return ast.copy_location(ast.With(items, pre + self.body(node.body)), node)

    def visit_Try(self, node):
        handlers = []
        for h in node.handlers:
            body = []
            if h.name:
                n = self.node("exception", pos_of(h), "w")
                body.append(self.stmt(self.t("w", n.id, self.act(), self.name(h.name), h.name, self.scope.resolve(h.name), -1), h))
            else:
                n = self.node("exception", pos_of(h), "w")
                body.append(self.stmt(self.t("v", n.id, self.act(), self.t("exc")), h))
            typ = h.type
            handlers.append(ast.copy_location(ast.ExceptHandler(typ, h.name, body + self.body(h.body)), h))
        return ast.copy_location(ast.Try(self.body(node.body), handlers, self.body(node.orelse), self.body(node.finalbody)), node)

    def visit_Return(self, node):
        if node.value is None:
            return node
        v = self.x(node.value)
        return ast.copy_location(ast.Return(self.t("ret", self.act(), v, self.nid(v) if self.nid(v) is not None else -1)), node)

    def visit_Raise(self, node):
        return ast.copy_location(ast.Raise(self.x(node.exc) if node.exc else None, self.x(node.cause) if node.cause else None), node)

    def visit_Assert(self, node):
        return ast.copy_location(ast.Assert(self.x(node.test), self.x(node.msg) if node.msg else None), node)

    def visit_Expr(self, node):
        return ast.copy_location(ast.Expr(self.x(node.value)), node)

    def visit_Delete(self, node):
        return node

    def visit_Global(self, node):
        return node

    visit_Nonlocal = visit_Pass = visit_Break = visit_Continue = visit_Global

    def visit_Import(self, node):
        return node

    visit_ImportFrom = visit_Import

    def visit_Match(self, node):
        raise NotImplementedError("match")

    def visit_Module(self, node):
        self.scope = scope_of(node, None, "module")
        stmts = list(node.body)
        pre = []
        if stmts and isinstance(stmts[0], ast.Expr) and isinstance(stmts[0].value, ast.Constant) and isinstance(stmts[0].value.value, str):
            self.docs.append(pos_of(stmts[0].value))
            pre = [stmts.pop(0)]
        return ast.Module(pre + self.body(stmts), [])


# ---------------------------------------------------------------- runtime
class Act(object):
    def __init__(self, id_, name, parent, kind, nid, func, closure=None):
        self.id, self.name, self.parent, self.kind, self.nid, self.func = id_, name, parent, kind, nid, func
        self.entered = None
        self.closure = closure
        self.names = {}
        self.latest = {}
        self.ret = None
        self.repr = None
        self.args = []
        self.yields = []
        self.kv = {}
        self.ce = {}
        self.depth = parent.depth + 1 if parent else 0
        self.children = []


class Runtime(object):
    def __init__(self, nodes):
        self.nodes = nodes
        self.acts = []
        self.evs = []          # [nid, act id, repr, deps, act created or None]
        self.stack = []
        self.off = 0
        self.mem = {}          # (serial of container, key) -> event
        self.serials = {}
        self.content = {}      # serial -> events put into it
        self.may = {}
        self.fndefaults = {}
        self.reads = []
        self.moved = set()
        self.keep = []
        self.gens = {}
        self.entering = None
        self.iters = {}
        self.members = []      # (event of container, key, value repr, event or None, kind)
        self.cap = 200000

    # -- logging
    def rep(self, value):
        self.off += 1
        try:
            return repr(value)
        except Exception:
            return object.__repr__(value)
        finally:
            self.off -= 1

    def log(self, nid, act, value, deps, created=None):
        ev = len(self.evs)
        if ev > self.cap:
            raise MemoryError("trace too long")
        self.evs.append([nid, act.id, self.rep(value), sorted(set(d for d in deps if d is not None and d >= 0)), created,
                         self.serial(value)])
        act.latest[nid] = ev
        return ev

    def kids(self, nid, act):
        res = []
        for k in self.nodes[nid].kids:
            ev = act.latest.get(k)
            if ev is not None:
                res.append(ev)
        return res

    def consume(self, nid, act):
        res = []
        for k in self.nodes[nid].kids:
            ev = act.latest.pop(k, None)
            if ev is not None:
                res.append(ev)
        return res

    def new_act(self, name, parent, kind, nid, func=None):
        act = Act(len(self.acts), name, parent, kind, nid, func)
        self.acts.append(act)
        if parent:
            parent.children.append(act)
        return act

    def scope_act(self, act, level):
        if level < 0:
            return self.acts[0]
        while level and act.closure is not None:
            act, level = act.closure, level - 1
        return act

    # -- expressions
    def v(self, nid, act, value):
        if not self.off:
            self.log(nid, act, value, self.consume(nid, act))
        return value

    def vs(self, nid, act, value):
        if not self.off:
            kids = [act.latest.get(k) for k in self.nodes[nid].kids]
            ev = self.log(nid, act, value, self.consume(nid, act))
            if isinstance(value, (list, tuple)) and len(kids) == len(value):
                for i, k in enumerate(kids):
                    self.put(value, i, k, ev)
            elif isinstance(value, set) and None not in kids:
                for k in kids:
                    self.members.append((self.serial(value), "[%s]" % self.evs[k][2], self.evs[k][2], k, ev))
        return value

    def serial(self, obj):
        """Identity of a value that stays unique"""
        if id(obj) not in self.serials:
            self.serials[id(obj)] = len(self.serials)
            self.keep.append(obj)
        return self.serials[id(obj)]

    def put(self, obj, key, member, ev):
        """obj[key] receives the value of the event `member`; ev: event of the display, or None"""
        addr = "[%s]" % self.rep(key)
        self.mem[(self.serial(obj), addr)] = member
        self.content.setdefault(self.serial(obj), []).append(member)
        self.members.append((self.serial(obj), addr, self.evs[member][2] if member is not None else None, member, ev))

    def kvk(self, nid, act, key):
        act.kv[nid] = key
        return key

    def ce(self, cid, act, value, nid):
        if not self.off:
            ev = act.latest.get(nid)
            act.ce.setdefault(cid, []).append((ev, act.kv.get(nid)))
        return value

    def vd(self, nid, act, value):
        if not self.off:
            kids = [(act.latest.get(k), act.kv.get(k)) for k in self.nodes[nid].kids]
            ev = self.log(nid, act, value, self.consume(nid, act))
            for k, key in kids:
                self.put(value, key, k, ev)
        return value

    def vc(self, nid, act, value):
        if not self.off:
            elts = act.ce.pop(nid, [])
            kids = self.consume(nid, act)
            ev = self.log(nid, act, value, [k for k, _ in elts])
            self.more(ev, kids)
            if isinstance(value, list) and len(elts) == len(value):
                for i, (k, _) in enumerate(elts):
                    self.put(value, i, k, ev)
            elif isinstance(value, dict):
                for k, key in elts:
                    self.put(value, key, k, ev)
            elif isinstance(value, set):
                for k, _ in elts:
                    if k is not None:
                        self.members.append((self.serial(value), "[%s]" % self.evs[k][2], self.evs[k][2], k, ev))
            for k, _ in elts:
                self.more(ev, [k])
        return value

    def more(self, ev, deps):
        """Possible (not required) dependencies"""
        self.may.setdefault(ev, set()).update(d for d in deps if d is not None and d >= 0)

    def vg(self, nid, act, value):
        if not self.off:
            self.log(nid, act, value, self.consume(nid, act))
        return value

    def vy(self, nid, act, value):
        if not self.off:
            self.log(nid, act, value, [])
        return value

    def n(self, nid, act, value, name, level):
        if not self.off:
            dep = self.scope_act(act, level).names.get(name)
            if dep is None and level == -1:
                dep = None
            self.log(nid, act, value, [dep] if dep is not None else [])
        return value

    def item(self, base, index):
        value = base[index]
        self.last_item = (base, index)
        return value

    def base(self, obj):
        self.last_base = obj
        self.bases.append(obj)
        return obj
    bases = []

    def vi(self, nid, act, value):
        if not self.off:
            base, index = self.last_item
            deps = self.consume(nid, act)
            ser = self.serial(base)
            member = None
            if isinstance(base, (list, tuple)) and isinstance(index, int) and not isinstance(index, bool):
                addr = "[%d]" % (index if index >= 0 else len(base) + index)
                member = self.mem.get((ser, addr))
            elif type(base) is dict:
                addr = "[%s]" % self.rep(index)
                member = self.mem.get((ser, addr))
            deps.append(member)
            ev = self.log(nid, act, value, deps)
            if member is not None and self.evs[member][5] == self.evs[ev][5]:
                self.reads.append((ev, ser, addr, member))
            self.more(ev, self.content.get(ser, ()))
        return value

    def va(self, nid, act, value, attr):
        if not self.off:
            base = self.bases.pop() if self.bases else None
            del self.bases[:]
            deps = self.consume(nid, act)
            deps.append(self.mem.get((id(base), "." + attr)))
            self.log(nid, act, value, deps)
        return value

    def walrus(self, nid, act, value, name, level):
        self.w(nid, act, value, name, level, -1)
        return value

    # -- assignments
    def sources(self, nid, act, value, vid):
        """Events that an assigned value came from -> (required, possible)"""
        if vid == -2:
            return self.consume(nid, act), []
        kids = self.kids(nid, act)
        if len(kids) != 1 or self.evs[kids[0]][5] == self.serial(value):
            return kids, []
        # unpacking
        inside = self.inside(self.evs[kids[0]][5])
        same = [e for e in inside if self.evs[e][5] == self.serial(value)]
        if len(same) == 1:
            return same, kids + inside
        return ([], kids + inside) if same else (kids, inside)

    def inside(self, serial):
        """Events put into a container, and into the ones inside it"""
        res, seen, todo = [], set(), [serial]
        while todo:
            ser = todo.pop()
            if ser in seen:
                continue
            seen.add(ser)
            for e in self.content.get(ser, ()):
                if e is not None:
                    res.append(e)
                    todo.append(self.evs[e][5])
        return sorted(set(res))

    def w(self, nid, act, value, name, level, vid):
        if not self.off:
            deps, may = self.sources(nid, act, value, vid)
            ev = self.log(nid, act, value, deps)
            self.more(ev, may)
            self.scope_act(act, level).names[name] = ev

    def wa(self, nid, act, value, base, attr, vid):
        if not self.off:
            deps, may = self.sources(nid, act, value, vid)
            ev = self.log(nid, act, value, deps)
            self.more(ev, may)
            self.more(ev, [act.latest.get(k) for k in self.nodes[nid].tkids])
            self.keep.append(base)
            self.mem[(id(base), "." + attr)] = ev

    def wi(self, nid, act, value, base, index, vid):
        if not self.off:
            deps, may = self.sources(nid, act, value, vid)
            ev = self.log(nid, act, value, deps)
            self.more(ev, may)
            self.more(ev, [act.latest.get(k) for k in self.nodes[nid].tkids])
            if isinstance(base, list) and isinstance(index, int) and not isinstance(index, bool):
                self.put(base, index if index >= 0 else len(base) + index, ev, None)
            elif type(base) is dict:
                self.put(base, index, ev, None)
            elif isinstance(base, list):
                # slice assignments move the items
                self.moved.add(self.serial(base))
                self.content.setdefault(self.serial(base), []).append(ev)

    def exc(self):
        return sys.exc_info()[1]

    def iter(self, act, value, vid):
        if not self.off and vid >= 0:
            act.names["NOWITER%d" % vid] = act.latest.get(vid)
        return value

    def lw(self, nid, act, value, name, level, vid):
        if not self.off:
            dep = act.names.get("NOWITER%d" % vid) if vid >= 0 else None
            if dep is None and vid >= 0:
                dep = act.latest.get(vid)
            ev = self.log(nid, act, value, [dep])
            if dep is not None:
                self.more(ev, self.content.get(self.evs[dep][5], ()))
            self.scope_act(act, level).names[name] = ev

    def cw(self, nid, act, value, name):
        if not self.off:
            ev = self.log(nid, act, value, self.kids(nid, act))
            for k in self.kids(nid, act):
                self.more(ev, self.inside(self.evs[k][5]))
            act.names[name] = ev
        return True

    def defw(self, nid, act, name, level):
        ev = act.latest.get(nid)
        if ev is not None and not self.off:
            self.scope_act(act, level).names[name] = ev

    # -- calls
    def call(self, nid, act, func):
        if self.off:
            return func
        return functools.partial(self.do_call, nid, act, func)

    def do_call(*args, **kwargs):
        self, nid, act, func = args[:4]
        args = args[4:]
        name = getattr(func, "__name__", type(func).__name__)
        deps = self.consume(nid, act)
        new = self.new_act(name, act, "call", nid, func)
        new.args = deps
        return self.run(new, nid, act, func, args, kwargs, deps)

    def run(self, new, nid, act, func, args, kwargs, deps):
        ev = len(self.evs)
        self.evs.append([nid, act.id, "None", deps, new.id, self.serial(None)])
        new.ev = ev
        self.stack.append(new)
        depth = len(self.stack)
        try:
            if func in FRAMED:
                result = framed(func, args, kwargs)
            else:
                result = func(*args, **kwargs)
            self.evs[ev][2] = new.repr = self.rep(result)
            self.evs[ev][5] = self.serial(result)
            return result
        finally:
            del self.stack[depth - 1:]
            black = new.entered is None
            if new.ret is not None:
                extra = [new.ret]
            else:
                extra = []
            self.evs[ev][3] = sorted(set(
                ([d for d in deps if d is not None] if black else deps[:0]) + extra + [
                    c.ev for c in new.children if c.kind == "internal" and c.parent is new and hasattr(c, "ev")]))
            act.latest[nid] = ev
            self.more(ev, deps)
            self.more(ev, new.yields)

    def deco(self, nid, act, params):
        def dec(fn):
            return self.fn(nid, act, params, fn)
        return dec

    def fn(self, nid, act, params, fn):
        if self.off:
            return fn
        plist = [(p.split(":")[0], int(p.split(":")[1])) for p in params.split(",") if p]
        sig = inspect.signature(fn)
        isgen = inspect.isgeneratorfunction(fn)
        rt = self
        closure = act

        @functools.wraps(fn)
        def wrapper(*args, **kwargs):
            if rt.off:
                rt.entering = Act(-1, "off", None, "off", nid, None)
                rt.entering.closure = closure
                return fn(*args, **kwargs)
            top = rt.stack[-1]
            target = getattr(top.func, "__func__", top.func)
            if top.kind == "call" and top.entered is None and target is wrapper:
                return rt.enter_fn(top, closure, nid, plist, sig, isgen, fn, args, kwargs)
            new = rt.new_act(fn.__name__, top, "internal", nid, wrapper)

            def body(*args, **kwargs):
                return rt.enter_fn(new, closure, nid, plist, sig, isgen, fn, args, kwargs)
            return rt.run(new, nid, top, body, args, kwargs, [])
        ev = self.log(nid, act, wrapper, [])
        self.fndefaults[nid] = [e for e in act.latest.values() if e < ev]
        wrapper.NOWev = ev
        return wrapper

    def enter_fn(self, act, closure, nid, plist, sig, isgen, fn, args, kwargs):
        act.entered = nid
        act.closure = closure
        try:
            bound = sig.bind(*args, **kwargs)
        except TypeError:
            bound = None
        if bound is not None:
            given = set(bound.arguments)
            bound.apply_defaults()
            for pname, pnid in plist:
                value = bound.arguments[pname]
                same = [a for a in act.args if self.evs[a][5] == self.serial(value)]
                alike = [g for g in given if self.serial(bound.arguments[g]) == self.serial(value)]
                ev = self.log(pnid, act, value, same if len(same) == 1 and alike == [pname] else [])
                self.more(ev, act.args)
                if act.kind == "internal":
                    self.more(ev, act.parent.latest.values())
                    self.more(ev, act.parent.args)
                    if act.parent.parent:
                        self.more(ev, act.parent.parent.latest.values())
                self.more(ev, self.fndefaults.get(nid, ()))
                act.names[pname] = ev
        self.entering = act
        if isgen:
            gen = fn(*args, **kwargs)
            self.gens[id(gen.gi_frame)] = (act, gen.gi_frame)
            return gen
        return fn(*args, **kwargs)

    def enter(self):
        frame = sys._getframe(1)
        if id(frame) in self.gens:
            return self.gens[id(frame)][0]
        act = self.entering
        return act

    def ret(self, act, value, vid):
        if not self.off:
            act.ret = act.latest.get(vid)
        return value

    def yielded(self, act, value, vid):
        if not self.off:
            ev = act.latest.get(vid)
            if ev is not None:
                act.yields.append(ev)
        return value

    def enter_class(self, nid, act, name):
        new = self.new_act(name, act, "class", nid)
        new.closure = act
        new.entered = nid
        if not self.off:
            new.ev = len(self.evs)
            self.evs.append([nid, act.id, None, self.consume(nid, act), new.id, self.serial(None)])
            self.stack.append(new)
        return new

    def exit_class(self, act):
        if not self.off and act in self.stack:
            del self.stack[self.stack.index(act):]

    def class_done(self, nid, act, value, name, level):
        if self.off:
            return
        for c in reversed(act.children):
            if c.kind == "class" and c.nid == nid:
                self.evs[c.ev][2] = self.rep(value)
                self.evs[c.ev][5] = self.serial(value)
                act.latest[nid] = c.ev
                self.scope_act(act, level).names[name] = c.ev
                break


FRAMED = (super, locals, vars, dir, globals, eval, exec)


def framed(func, args, kwargs):
    frame = sys._getframe(3)
    if func is super and not args:
        first = frame.f_code.co_varnames[0]
        return super(frame.f_locals["__class__"], frame.f_locals[first])
    if func is globals:
        return frame.f_globals
    raise NotImplementedError(func)


def super_fix(tree):
    """zero-argument super() needs __class__ in the instrumented method"""
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef):
            if any(isinstance(n, ast.Name) and n.id == "super" for n in ast.walk(fn)):
                pos = 0
                if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant):
                    pos = 1
                fn.body.insert(pos, ast.Expr(ast.Name("__class__", ast.Load())))


DOCS = []


def prepare(source, filename="script.py"):
    tree = ast.parse(source)
    cls_funcs = set()
    for c in ast.walk(tree):
        if isinstance(c, ast.ClassDef):
            for f in c.body:
                if isinstance(f, ast.FunctionDef):
                    cls_funcs.add((f.lineno, f.col_offset))
    ins = Instrument()
    new = ins.visit(tree)
    for f in ast.walk(new):
        if isinstance(f, ast.FunctionDef) and (f.lineno, f.col_offset) in cls_funcs:
            if any(isinstance(n, ast.Name) and n.id == "super" for n in ast.walk(f)):
                pos = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
                f.body.insert(pos, ast.copy_location(ast.Expr(ast.Name("__class__", ast.Load())), f))
    ast.fix_missing_locations(new)
    DOCS[:] = ins.docs
    return new, ins.nodes


def trace(source, filename="script.py"):
    tree, nodes = prepare(source)
    code = compile(tree, filename, "exec")
    rt = Runtime(nodes)
    main = rt.new_act("__main__", None, "script", -1)
    main.entered = -1
    rt.stack.append(main)
    mod = types.ModuleType("__main__")
    mod.__file__ = filename
    ns = mod.__dict__
    ns["__builtins__"] = __builtins__
    ns[A] = main
    ns[T] = rt
    sys.modules["__main__"] = mod
    error = None
    try:
        exec(code, ns)
    except BaseException as exc:  # noqa
        error = "%s: %s" % (type(exc).__name__, exc)
        if isinstance(exc, NotImplementedError):
            raise
    return rt, nodes, error


def dump(rt, nodes, error):
    return {
        "nodes": [[n.type, list(n.pos), n.mode, n.ctrl, n.kids] for n in nodes],
        "acts": [[a.id, a.name, a.parent.id if a.parent else None, a.kind, a.nid, a.depth, a.entered,
                  getattr(a, "ev", None), a.ret, a.yields] for a in rt.acts],
        "evs": rt.evs,
        "members": rt.members, "reads": rt.reads, "moved": sorted(rt.moved),
        "may": [[k, sorted(v)] for k, v in rt.may.items()],
        "error": error, "docs": [list(d) for d in DOCS],
    }


def main(argv):
    script, out = argv[:2]
    sys.argv = [script] + argv[2:]
    with open(script) as fil:
        src = fil.read()
    sys.path.insert(0, os.getcwd())
    real = sys.stdout
    rt, nodes, error = trace(src, script)
    real.flush()
    with open(out, "w") as fil:
        json.dump(dump(rt, nodes, error), fil)


if __name__ == "__main__":
    main(sys.argv[1:])
elif __name__ == "verif_exec":
    main(ARGS)  # noqa
