"""Random generator of small deterministic, terminating Python programs.

`program(rng, profile)` -> {"files": {name: text}, "stdin": str, "args": [str]}.
Everything printed/recorded is deterministic and free of object addresses.

Profiles select constructs (see FEATURES): "general" uses everything the capture
claims to support; "trace" leaves out what the tracing oracle does not model;
"flow" keeps to constructs with well defined data flow.
"""

INT, STR, LIST, DICT, TUP, BOOL, OBJ = "int str list dict tup bool obj".split()


class Feat(object):
    GENERAL = dict(
        classes=1, operators=1, generators=1, lambdas=1, closures=1, decorators=1, recursion=1,
        tryexc=1, raising=1, withs=1, files=1, stdin=1, comps=1, nested_comps=1, fstr=1, match=1, walrus=1,
        starred=1, slices=1, aug=1, kwargs=1, ifexp=1, boolop=1, compare=1, whiles=1, loopelse=1,
        delete=1, asserts=1, globals_=1, modules=1, dicts=1, sets=1, callbacks=1, properties=1, nested_fn=1,
        blank_lines=1, multiline=1, unicode_=1, badcalls=1, annotations=1, attr=1, chained=1, genexp=1,
        implicit=1, args=1, inherit=1, cond=1, loops=1, calls=1, methods=1, unpack=1, kwonly=1, defaults=1,
        containers=1, deepexc=1)


def features(**over):
    feat = dict(Feat.GENERAL)
    feat.update(over)
    return feat


PROFILES = {
    "general": features(),
    # what oracle.py models
    "trace": features(match=0, modules=0, badcalls=0, asserts=0),
    "flow": features(match=0, modules=0, badcalls=0, asserts=0, classes=0, operators=0, generators=0, decorators=0,
                     tryexc=0, raising=0, withs=0, files=0, stdin=0, delete=0, sets=0,
                     properties=0, genexp=0, implicit=0, deepexc=0, args=0, fstr=1, starred=0, callbacks=0),
}


class Scope(object):
    def __init__(self, kind, parent=None):
        self.kind = kind            # module / function / method
        self.parent = parent
        self.vars = {}              # name -> type (only definitely assigned)
        self.loop = 0
        self.in_finally = False

    def names(self, type_):
        return [n for n, t in self.vars.items() if t == type_]


class Fn(object):
    def __init__(self, name, params, ret, vararg=None, kwarg=None, kwonly=(), posonly=0, ndef=0, kw_ok=True):
        self.name, self.params, self.ret = name, params, ret     # params: [(name, type)]
        self.vararg, self.kwarg, self.kwonly, self.posonly, self.ndef = vararg, kwarg, kwonly, posonly, ndef
        self.kw_ok = kw_ok


class Cls(object):
    def __init__(self, name):
        self.name = name
        self.attrs = ["v"]
        self.methods = []   # Fn (without self)
        self.props = []
        self.ops = set()
        self.base = None


class Gen(object):
    def __init__(self, rng, feat, size=1.0, avoid_exc=False):
        self.r = rng
        self.f = feat
        self.size = size
        self.lines = []
        self.ind = 0
        self.n = 0
        self.funcs = []      # callable at module level
        self.gens = []
        self.classes = []
        self.scope = Scope("module")
        self.budget = int(30 * size)
        self.stdin_lines = 0
        self.in_func = False
        self.cur_ret = None
        self.avoid_exc = avoid_exc
        self.nfiles = 0
        self.pure_depth = 0
        self.no_calls = 0

    # -- helpers
    def name(self, prefix="v"):
        self.n += 1
        return "%s%d" % (prefix, self.n)

    def emit(self, text):
        for line in text.split("\n"):
            self.lines.append("    " * self.ind + line)

    def chance(self, p):
        return self.r.random() < p

    def on(self, key, p=1.0):
        return self.f.get(key) and self.r.random() < p

    def pick(self, seq):
        return seq[self.r.randrange(len(seq))]

    # -- expressions
    def expr(self, t, d=2):
        return getattr(self, "e_" + t)(d)

    def var(self, t):
        names = self.scope.names(t)
        return self.pick(names) if names else None

    def call(self, fn, d):
        args = []
        kws = []
        npos = len(fn.params)
        given = npos
        if fn.ndef and self.chance(0.5):
            given = npos - self.r.randint(1, fn.ndef)
        switch = given
        if self.on("kwargs", 0.4) and fn.kw_ok:
            switch = self.r.randint(fn.posonly, given) if given >= fn.posonly else given
        for i in range(given):
            name, t = fn.params[i]
            val = self.expr(t, d - 1)
            if i < switch:
                args.append(val)
            else:
                kws.append("%s=%s" % (name, val))
        if fn.vararg and switch == npos and self.chance(0.6):
            for _ in range(self.r.randint(0, 2)):
                args.append(self.expr(INT, d - 1))
            if self.on("starred", 0.3):
                args.append("*" + self.expr(LIST, 0))
        for name, t in fn.kwonly:
            kws.append("%s=%s" % (name, self.expr(t, d - 1)))
        if fn.kwarg and self.chance(0.6):
            kws.append("%s=%s" % (self.name("k"), self.expr(INT, d - 1)))
        if self.on("starred", 0.12) and kws and fn.kw_ok:
            key, val = kws.pop().split("=", 1)
            kws.append('**{"%s": %s}' % (key, val))
        elif self.on("starred", 0.08) and len(args) >= 2 and not fn.vararg:
            args = args[:-2] + ["*(%s, %s)" % (args[-2], args[-1])]
        return "%s(%s)" % (fn.name, ", ".join(args + kws))

    def wvar(self, t):
        """Variable that may be assigned in this scope"""
        ro = getattr(self.scope, "readonly", ())
        names = [n for n in self.scope.names(t) if n not in ro]
        return self.pick(names) if names else None

    def callable_fns(self, ret):
        return [f for f in self.funcs if f.ret == ret]

    def e_int(self, d):
        r = self.r
        opts = ["lit", "var", "var", "var"]
        if d > 0:
            opts += ["bin", "bin", "bin", "un", "len", "idx"]
            if self.f.get("calls") and not self.no_calls:
                opts += ["call", "call", "call"]
            if self.on("ifexp", 0.5):
                opts.append("ifexp")
            if self.f.get("dicts"):
                opts.append("dget")
            if self.f.get("classes") and self.classes and self.scope.names(OBJ):
                opts += ["attr", "meth", "meth"]
            if self.on("lambdas", 0.3):
                opts.append("lam")
            if self.on("walrus", 0.15):
                opts.append("walrus")
            if self.on("genexp", 0.3):
                opts.append("gensum")
            if self.on("boolop", 0.3):
                opts.append("boolop")
            if self.on("callbacks", 0.2):
                opts.append("callback")
        o = self.pick(opts)
        if o == "var":
            v = self.var(INT)
            if v:
                return v
            o = "lit"
        if o == "lit":
            return str(r.randint(0, 20))
        if o == "bin":
            op = self.pick(["+", "-", "*", "+", "%", "//"])
            a, b = self.e_int(d - 1), self.e_int(d - 1)
            if op in "%//":
                return "(%s %s %d)" % (a, op, r.randint(2, 9))
            if op == "*":
                return "(%s * %s %% 1000)" % (a, b)
            return "(%s %s %s)" % (a, op, b)
        if o == "un":
            return "(-%s)" % self.e_int(d - 1)
        if o == "len":
            t = self.pick([LIST, STR])
            return "len(%s)" % self.expr(t, d - 1)
        if o == "idx":
            v = self.var(LIST)
            if v and self.f.get("containers"):
                return "(%s + [%d])[%s]" % (v, r.randint(0, 9), self.pick(["0", "-1"]))
            v = self.var(TUP)
            if v:
                return "%s[%d]" % (v, r.randint(0, 1))
            return "[%s, %s][%d]" % (self.e_int(d - 1), self.e_int(d - 1), r.randint(0, 1))
        if o == "call":
            fns = self.callable_fns(INT)
            if fns:
                return self.call(self.pick(fns), d)
            return "abs(%s)" % self.e_int(d - 1)
        if o == "ifexp":
            return "(%s if %s else %s)" % (self.e_int(d - 1), self.e_bool(d - 1), self.e_int(d - 1))
        if o == "dget":
            v = self.var(DICT)
            if v:
                return '%s.get("%s", %s)' % (v, self.pick("abc"), self.e_int(d - 1))
            return '{"a": %s, "b": %s}["%s"]' % (self.e_int(d - 1), self.e_int(d - 1), self.pick("ab"))
        if o == "attr":
            v = self.var(OBJ)
            cls = self.classes[0]
            if cls.props and self.on("properties", 0.5):
                return "%s.%s" % (v, self.pick(cls.props))
            return "%s.v" % v
        if o == "meth":
            v = self.var(OBJ)
            cls = self.classes[0]
            if cls.methods and not self.no_calls:
                fn = self.pick(cls.methods)
                return v + "." + self.call(fn, d)
            return "%s.v" % v
        if o == "lam":
            p = self.name("q")
            self.scope.vars[p] = INT
            body = self.e_int(d - 1)
            del self.scope.vars[p]
            return "(lambda %s: %s)(%s)" % (p, body, self.e_int(d - 1))
        if o == "walrus":
            if self.scope.kind == "comp":
                return self.e_int(0)
            w = self.name("w")
            val = self.e_int(d - 1)
            return "(%s := %s)" % (w, val)
        if o == "gensum":
            p = self.name("g")
            it = self.e_list(0)
            self.push_comp(p)
            body = self.e_int(d - 1)
            self.pop_comp()
            return "sum(%s for %s in %s)" % (body, p, it)
        if o == "boolop":
            return "(%s %s %s)" % (self.e_int(d - 1), self.pick(["and", "or"]), self.e_int(d - 1))
        if o == "callback":
            p = self.name("q")
            self.scope.vars[p] = INT
            body = self.e_int(d - 1)
            del self.scope.vars[p]
            return "max([%s, %s], key=lambda %s: %s)" % (self.e_int(d - 1), self.e_int(d - 1), p, body)
        return "1"

    def push_comp(self, p):
        self.scope = Scope("comp", self.scope)
        self.scope.vars = dict(self.scope.parent.vars)
        self.scope.vars[p] = INT

    def pop_comp(self):
        self.scope = self.scope.parent

    def e_bool(self, d):
        opts = ["cmp", "cmp", "in", "lit"]
        if d > 0:
            opts += ["not", "and", "or"]
            if self.on("chained", 0.3):
                opts.append("chain")
        o = self.pick(opts)
        if o == "cmp":
            return "%s %s %s" % (self.e_int(d - 1), self.pick(["<", ">", "<=", ">=", "==", "!="]), self.e_int(d - 1))
        if o == "in":
            return "%s %s %s" % (self.e_int(d - 1), self.pick(["in", "not in"]), self.e_list(d - 1))
        if o == "lit":
            return self.pick(["True", "False", "%s > 3" % self.e_int(0)])
        if o == "not":
            return "not (%s)" % self.e_bool(d - 1)
        if o == "chain":
            return "%s < %s <= %s" % (self.e_int(d - 1), self.e_int(d - 1), self.e_int(d - 1))
        return "(%s %s %s)" % (self.e_bool(d - 1), o, self.e_bool(d - 1))

    def e_str(self, d):
        opts = ["lit", "var", "var"]
        if d > 0:
            opts += ["cat", "str", "upper", "join"]
            if self.on("fstr", 0.8):
                opts.append("f")
            if self.on("slices", 0.5):
                opts.append("slice")
        o = self.pick(opts)
        if o == "var":
            v = self.var(STR)
            if v:
                return v
            o = "lit"
        if o == "lit":
            if self.on("unicode_", 0.1):
                return '"%s"' % self.pick(["\\u00e9t\\u00e9", "\\u4f60\\u597d", "a\\n b", "q'q", '\\"dq\\"', "back\\\\s"])
            return '"%s"' % self.pick(["x", "abc", "", "hello world", "Z9", "a,b"])
        if o == "cat":
            return "(%s + %s)" % (self.e_str(d - 1), self.e_str(d - 1))
        if o == "str":
            return "str(%s)" % self.e_int(d - 1)
        if o == "upper":
            return "%s.%s()" % (self.e_str(0), self.pick(["upper", "lower", "strip", "title"]))
        if o == "join":
            return '"-".join([str(%s), %s])' % (self.e_int(d - 1), self.e_str(0))
        if o == "f":
            v = self.var(INT) or "3"
            return "f'%s{%s}%s{%s:>3}'" % (self.pick(["", "p "]), v, self.pick(["", "="]), v)
        if o == "slice":
            return "%s[%s:%s]" % (self.e_str(0), self.pick(["", "0", "1"]), self.pick(["", "2", "-1"]))

    def e_list(self, d):
        opts = ["lit", "var", "var"]
        if d > 0:
            opts += ["lit", "range", "cat"]
            if self.f.get("comps"):
                opts += ["comp", "comp"]
            if self.f.get("calls") and not self.no_calls:
                opts += ["call", "sorted"]
            if self.on("slices", 0.5):
                opts.append("slice")
            if self.on("callbacks", 0.4):
                opts.append("callback")
            if self.gens and self.on("generators", 0.5) and not self.no_calls:
                opts.append("gen")
            if self.on("starred", 0.2):
                opts.append("star")
            if self.on("nested_comps", 0.15):
                opts.append("ncomp")
        o = self.pick(opts)
        if o == "var":
            v = self.var(LIST)
            if v:
                return v
            o = "lit"
        if o == "lit":
            return "[%s]" % ", ".join(self.e_int(d - 1) for _ in range(self.r.randint(1, 4)))
        if o == "range":
            return "list(range(%d))" % self.r.randint(0, 5)
        if o == "cat":
            return "(%s + %s)" % (self.e_list(d - 1), self.e_list(0))
        if o == "comp":
            p = self.name("c")
            it = self.e_list(d - 1)
            self.push_comp(p)
            body = self.e_int(d - 1)
            cond = " if %s" % self.e_bool(0) if self.chance(0.4) else ""
            self.pop_comp()
            return "[%s for %s in %s%s]" % (body, p, it, cond)
        if o == "ncomp":
            p, q = self.name("c"), self.name("c")
            return "[%s + %s for %s in %s for %s in %s]" % (p, q, p, self.e_list(0), q, self.e_list(0))
        if o == "call":
            fns = self.callable_fns(LIST)
            if fns:
                return self.call(self.pick(fns), d)
            return "list(%s)" % self.e_list(d - 1)
        if o == "sorted":
            return "sorted(%s)" % self.e_list(d - 1)
        if o == "slice":
            return "%s[%s:%s]" % (self.e_list(0), self.pick(["", "0", "1", "-2"]), self.pick(["", "2", "3", "-1"]))
        if o == "callback":
            fns = [f for f in self.funcs if f.ret == INT and len(f.params) - f.ndef <= 1 <= len(f.params)
                   and f.params[0][1] == INT and not f.kwonly and f.params]
            if fns and self.chance(0.6):
                return "list(map(%s, %s))" % (self.pick(fns).name, self.e_list(d - 1))
            p = self.name("q")
            self.scope.vars[p] = INT
            body = self.e_int(d - 1)
            del self.scope.vars[p]
            if self.chance(0.5):
                return "sorted(%s, key=lambda %s: %s)" % (self.e_list(d - 1), p, body)
            return "list(filter(lambda %s: %s > 2, %s))" % (p, body, self.e_list(d - 1))
        if o == "gen":
            return "list(%s)" % self.call(self.pick(self.gens), d)
        if o == "star":
            return "[%s, *%s]" % (self.e_int(0), self.e_list(0))

    def e_dict(self, d):
        opts = ["lit", "var", "var"]
        if d > 0 and self.on("comps", 0.5):
            opts.append("comp")
        o = self.pick(opts)
        if o == "var":
            v = self.var(DICT)
            if v:
                return v
            o = "lit"
        if o == "lit":
            return "{%s}" % ", ".join('"%s": %s' % (k, self.e_int(d - 1)) for k in "abc"[:self.r.randint(1, 3)])
        p = self.name("c")
        self.push_comp(p)
        body = self.e_int(d - 1)
        self.pop_comp()
        return '{"k%%d" %% %s: %s for %s in %s}' % (p, body, p, self.e_list(0))

    def e_tup(self, d):
        v = self.var(TUP)
        if v and self.chance(0.5):
            return v
        return "(%s, %s)" % (self.e_int(d - 1), self.e_int(d - 1))

    def e_obj(self, d):
        v = self.var(OBJ)
        cls = self.pick(self.classes) if self.classes else None
        if v and (self.chance(0.5) or not cls):
            if cls and "add" in self.classes[0].ops and self.on("operators", 0.5) and d > 0 and not self.no_calls:
                return "(%s + %s)" % (v, self.e_obj(d - 1))
            return v
        return "%s(%s)" % (cls.name, self.e_int(d - 1))

    # -- statements
    def block(self, n, **kw):
        """Emit an indented block (at least one statement); the assigned variables
        inside do not survive (not definitely assigned)"""
        self.ind += 1
        saved = dict(self.scope.vars)
        count = self.r.randint(1, max(1, n))
        before = len(self.lines)
        for _ in range(count):
            self.stmt()
        if len(self.lines) == before:
            self.emit("pass")
        keep = {k: v for k, v in self.scope.vars.items() if k in saved}
        self.scope.vars = keep
        self.ind -= 1

    def newvar(self, t, prefix=None):
        """Target of type t: a fresh name or an existing one"""
        names = self.scope.names(t)
        if names and self.chance(0.35):
            name = self.pick(names)
            if name not in getattr(self.scope, "readonly", ()):
                return name
        return self.name(prefix or {INT: "i", STR: "s", LIST: "l", DICT: "d", TUP: "t", OBJ: "o", BOOL: "b"}[t])

    def assign(self):
        types = [INT, INT, INT, STR, LIST, LIST]
        if self.f.get("dicts"):
            types.append(DICT)
        types += [TUP, BOOL]
        if self.f.get("classes") and self.classes:
            types += [OBJ, OBJ]
        t = self.pick(types)
        d = self.r.randint(1, 3)
        val = self.expr(t, d)
        name = self.newvar(t)
        if self.on("multiline", 0.05) and t == LIST:
            val = "(\n    %s\n)" % val
        if self.on("chained", 0.1):
            other = self.newvar(t)
            self.emit("%s = %s = %s" % (name, other, val))
            self.scope.vars[other] = t
        elif self.on("annotations", 0.05) and t in (INT, STR):
            if name in getattr(self.scope, "globals", ()):
                self.emit("%s = %s" % (name, val))
            else:
                self.emit("%s: %s = %s" % (self.name("n"), t, val))
                self.emit("%s = %s" % (name, val))
        else:
            self.emit("%s = %s" % (name, val))
        self.scope.vars[name] = t

    def stmt(self):
        self.budget -= 1
        depth = self.ind
        opts = ["assign"] * 6 + ["print"] * 2
        if self.f.get("aug"):
            opts += ["aug"]
        if self.f.get("unpack"):
            opts += ["unpack"]
        if self.f.get("containers"):
            opts += ["setitem", "setitem"]
        if self.f.get("classes") and self.classes and self.scope.names(OBJ):
            opts += ["setattr", "methcall"]
        if self.f.get("calls"):
            opts += ["callstmt"]
        if depth < 4 and self.budget > 0:
            if self.f.get("cond"):
                opts += ["if", "if"]
            if self.f.get("loops"):
                opts += ["for", "for"]
            if self.on("whiles", 0.5):
                opts += ["while"]
            if self.on("tryexc", 0.7):
                opts += ["try"]
            if self.on("withs", 0.3) and self.f.get("classes") and self.classes:
                opts += ["with"]
            if self.on("files", 0.3):
                opts += ["file"]
            if self.on("match", 0.3):
                opts += ["match"]
            if self.on("nested_fn", 0.3):
                opts += ["nested"]
        if self.on("delete", 0.2):
            opts += ["del"]
        if self.on("asserts", 0.2):
            opts += ["assert"]
        if self.on("stdin", 0.15):
            opts += ["input"]
        if self.gens and self.on("generators", 0.4):
            opts += ["genfor"]
        if self.scope.loop and self.chance(0.3):
            opts += ["brk"]
        if self.in_func and self.chance(0.15):
            opts += ["return"]
        if self.on("sets", 0.1):
            opts += ["set"]
        getattr(self, "s_" + self.pick(opts))()

    def s_assign(self):
        self.assign()

    def s_print(self):
        n = self.r.randint(1, 3)
        args = []
        for _ in range(n):
            t = self.pick([INT, STR, LIST, DICT, TUP, BOOL] if self.f.get("dicts") else [INT, STR, LIST])
            args.append(self.expr(t, self.r.randint(0, 2)))
        self.emit("print(%s)" % ", ".join(args))

    def s_aug(self):
        o = self.r.randrange(4)
        v = self.wvar(INT)
        if o == 0 and self.wvar(LIST):
            lst = self.wvar(LIST)
            self.emit("%s += %s" % (lst, self.e_list(1)))
        elif o == 1 and self.scope.names(OBJ) and self.f.get("classes"):
            self.emit("%s.v += %s" % (self.var(OBJ), self.e_int(1)))
        elif o == 2 and self.var(DICT):
            self.emit('%s["a"] = %s' % (self.var(DICT), self.e_int(1)))
            self.emit('%s["a"] %s %s' % (self.lines[-1].strip().split("[")[0], self.pick(["+=", "-="]), self.e_int(1)))
        elif v:
            self.emit("%s %s %s" % (v, self.pick(["+=", "-=", "+=", "*="]), self.e_int(1)))
            self.emit("%s %%= 1000" % v)

    def s_unpack(self):
        a, b = self.name("i"), self.name("i")
        o = self.r.randrange(4)
        if o == 0:
            self.emit("%s, %s = %s, %s" % (a, b, self.e_int(1), self.e_int(1)))
        elif o == 1:
            self.emit("(%s, %s) = %s" % (a, b, self.e_tup(1)))
        elif o == 2 and self.f.get("starred"):
            c = self.name("l")
            self.emit("%s, *%s, %s = [%s, %s, %s, %s]" % ((a, c, b) + tuple(self.e_int(0) for _ in range(4))))
            self.scope.vars[c] = LIST
        else:
            x, y = self.wvar(INT), self.wvar(INT)
            if x and y and x != y:
                self.emit("%s, %s = %s, %s" % (x, y, y, x))
                return
            self.emit("%s, (%s, %s) = %s, %s" % (self.name("i"), a, b, self.e_int(0), self.e_tup(1)))
        self.scope.vars[a] = self.scope.vars[b] = INT

    def s_setitem(self):
        v = self.wvar(LIST)
        if v and self.chance(0.6):
            if self.chance(0.5):
                self.emit("%s.append(%s)" % (v, self.e_int(1)))
                if self.chance(0.7):
                    self.emit("%s[%s] = %s" % (v, self.pick(["0", "-1", "len(%s) - 1" % v]), self.e_int(1)))
            else:
                self.emit("%s = %s + [%s]" % (v, v, self.e_int(1)))
                self.emit("%s[0] = %s" % (v, self.e_int(1)))
            return
        v = self.var(DICT)
        if v:
            self.emit('%s["%s"] = %s' % (v, self.pick("abcd"), self.e_int(2)))

    def s_setattr(self):
        self.emit("%s.v = %s" % (self.var(OBJ), self.e_int(1)))

    def s_methcall(self):
        v = self.var(OBJ)
        cls = self.classes[0]
        if cls.methods:
            self.emit(v + "." + self.call(self.pick(cls.methods), 2))

    def s_callstmt(self):
        fns = self.funcs
        if fns:
            self.emit(self.call(self.pick(fns), 2))

    def s_if(self):
        self.emit("if %s:" % self.e_bool(2))
        self.block(2)
        for _ in range(self.r.choice([0, 0, 1, 2])):
            self.emit("elif %s:" % self.e_bool(1))
            self.block(2)
        if self.chance(0.5):
            self.emit("else:")
            self.block(2)

    def s_for(self):
        o = self.r.randrange(6)
        a = self.name("i")
        new = {a: INT}
        if o == 0:
            head = "for %s in range(%d):" % (a, self.r.randint(0, 4))
        elif o == 1:
            b = self.name("i")
            new[b] = INT
            head = "for %s, %s in enumerate(%s):" % (a, b, self.e_list(1))
        elif o == 2 and self.f.get("dicts"):
            k = self.name("s")
            new = {k: STR, a: INT}
            head = "for %s, %s in sorted(%s.items()):" % (k, a, self.e_dict(1))
        elif o == 3:
            b = self.name("i")
            new[b] = INT
            head = "for %s, %s in [(%s, %s), (%s, %s)]:" % ((a, b) + tuple(self.e_int(0) for _ in range(4)))
        elif o == 4:
            new = {}
            a = self.name("s")
            new[a] = STR
            head = 'for %s in "%s":' % (a, self.pick(["ab", "xyz"]))
        else:
            head = "for %s in list(%s)[:5]:" % (a, self.e_list(1))
        self.emit(head)
        saved = dict(self.scope.vars)
        self.scope.vars.update(new)
        self.scope.loop += 1
        self.block(2)
        self.scope.loop -= 1
        self.scope.vars = saved
        if self.on("loopelse", 0.15):
            self.emit("else:")
            self.block(1)

    def s_while(self):
        c = self.name("n")
        self.emit("%s = %d" % (c, self.r.randint(1, 3)))
        self.emit("while %s > 0:" % (c if self.chance(0.7) else "(%s - 0)" % c))
        self.ind += 1
        self.emit("%s -= 1" % c)
        self.ind -= 1
        self.scope.loop += 1
        self.block(2)
        self.scope.loop -= 1
        if self.on("loopelse", 0.2):
            self.emit("else:")
            self.block(1)

    def raising_stmt(self):
        o = self.r.randrange(7)
        if o == 0:
            self.emit('raise ValueError("e%d")' % self.r.randint(0, 9))
        elif o == 1:
            self.emit("%s = %s // 0" % (self.name("i"), self.e_int(1)))
        elif o == 2:
            self.emit('%s = {"a": 1}["zz"]' % self.name("i"))
        elif o == 3:
            self.emit('print(%s, int("x%d"))' % (self.e_int(1), self.r.randint(0, 9)))
        elif o == 4:
            self.emit("%s = [%s, [1][%d]]" % (self.name("l"), self.e_int(1), self.r.randint(2, 9)))
        elif o == 5 and self.f.get("deepexc"):
            self.emit("fail(%s, depth=%d)" % (self.e_int(1), self.r.randint(0, 2)))
            self.uses_fail = True
        else:
            self.emit("%s = (%s).missing" % (self.name("i"), self.e_int(0)))
    uses_fail = False

    def s_try(self):
        raising = self.on("raising", 0.6)
        self.emit("try:")
        self.ind += 1
        saved = dict(self.scope.vars)
        for _ in range(self.r.randint(0, 2)):
            self.stmt()
        if raising:
            self.raising_stmt()
        else:
            self.assign()
        self.ind -= 1
        self.scope.vars = {k: v for k, v in self.scope.vars.items() if k in saved}
        e = self.name("e")
        style = self.r.randrange(4)
        if style == 0:
            self.emit("except (ValueError, ZeroDivisionError) as %s:" % e)
            self.ind += 1
            self.emit('print("caught", type(%s).__name__, %s)' % (e, e))
            self.ind -= 1
            self.emit("except Exception as %s:" % e)
        elif style == 1:
            self.emit("except Exception as %s:" % e)
        elif style == 2:
            self.emit("except:")
            e = None
        else:
            self.emit("except Exception:")
            e = None
        self.block(2)
        if e:
            self.ind += 1
            self.emit('print(type(%s).__name__)' % e)
            self.ind -= 1
        if not raising and self.chance(0.4):
            self.emit("else:")
            self.block(1)
        if self.chance(0.35):
            self.emit("finally:")
            loop, self.scope.loop = self.scope.loop, 0
            inf, self.in_func = self.in_func, False
            self.block(1)
            self.scope.loop, self.in_func = loop, inf

    def s_with(self):
        c = self.classes[0]
        if "with" not in c.ops:
            return
        w = self.name("o")
        self.emit("with %s(%s) as %s:" % (c.name, self.e_int(1), w))
        saved = dict(self.scope.vars)
        self.scope.vars[w] = OBJ
        self.block(2)
        self.scope.vars = saved

    def s_file(self):
        o = self.r.randrange(3)
        name = self.pick(["out1.txt", "out2.txt", "sub/o.txt"])
        if o == 0:
            h = self.name("h")
            self.emit('with open("%s", "%s") as %s:' % (name, self.pick(["w", "a"]), h))
            self.ind += 1
            self.emit("%s.write(str(%s) + '\\n')" % (h, self.e_int(1)))
            if self.chance(0.3):
                self.stmt()
            self.ind -= 1
        elif o == 1:
            h = self.name("h")
            self.emit('%s = open("%s", "%s")' % (h, name, self.pick(["w", "a", "w+"])))
            self.emit("%s.write(%s)" % (h, self.e_str(1)))
            self.emit("%s.close()" % h)
        else:
            h, s = self.name("h"), self.newvar(STR)
            self.emit('with open("in.txt") as %s:' % h)
            self.ind += 1
            self.emit("%s = %s.read()" % (s, h))
            self.ind -= 1
            self.scope.vars[s] = STR

    def s_match(self):
        self.emit("match %s:" % self.pick([self.e_int(1), self.e_tup(1)]))
        self.ind += 1
        self.emit("case %d:" % self.r.randint(0, 9))
        self.block(1)
        a = self.name("i")
        self.emit("case (%s, _):" % a)
        saved = dict(self.scope.vars)
        self.scope.vars[a] = INT
        self.block(1)
        self.scope.vars = saved
        self.emit("case _:")
        self.block(1)
        self.ind -= 1

    def s_nested(self):
        if self.ind > 2:
            return
        self.function(nested=True)

    def s_del(self):
        v = self.var(DICT)
        if v and self.chance(0.5):
            self.emit('%s["zz"] = 1' % v)
            self.emit('del %s["zz"]' % v)
        else:
            t = self.name("x")
            self.emit("%s = %s" % (t, self.e_int(0)))
            self.emit("del %s" % t)

    def s_assert(self):
        self.emit("assert %s or True, 'no'" % self.e_bool(1))

    def s_input(self):
        if self.stdin_lines > 5 or self.in_func or self.scope.loop:
            return
        self.stdin_lines += 1
        s = self.newvar(STR)
        self.emit("%s = input()" % s)
        self.scope.vars[s] = STR

    def s_genfor(self):
        a = self.name("i")
        self.emit("for %s in %s:" % (a, self.call(self.pick(self.gens), 1)))
        saved = dict(self.scope.vars)
        self.scope.vars[a] = INT
        self.scope.loop += 1
        self.block(1)
        self.scope.loop -= 1
        self.scope.vars = saved

    def s_brk(self):
        if self.chance(0.5):
            self.emit("if %s:" % self.e_bool(1))
            self.ind += 1
            self.emit(self.pick(["break", "continue"]))
            self.ind -= 1
        else:
            self.emit("if %s: %s" % (self.e_bool(0), self.pick(["break", "continue"])))

    def s_return(self):
        self.emit("if %s:" % self.e_bool(1))
        self.ind += 1
        self.emit("return %s" % self.expr(self.cur_ret, 1))
        self.ind -= 1

    def s_set(self):
        s = self.name("z")
        self.emit("%s = {%s, %s}" % (s, self.e_int(0), self.e_int(0)))
        self.emit("print(sorted(%s))" % s)

    # -- definitions
    def function(self, nested=False, method=None, generator=False):
        f = self.f
        name = self.name("f" if not generator else "gen")
        params = []
        for _ in range(self.r.randint(0 if method else 1, 3)):
            t = self.pick([INT, INT, INT, LIST, STR])
            params.append((self.name("p"), t))
        ret = self.pick([INT, INT, INT, LIST]) if not generator else LIST
        fn = Fn(name, params, ret)
        defs = [p for p, _ in params]
        if self.on("defaults", 0.35) and params:
            fn.ndef = self.r.randint(1, len(params))
            for i in range(len(params) - fn.ndef, len(params)):
                nocalls, self.no_calls = self.no_calls, 1
                defs[i] = "%s=%s" % (params[i][0], self.expr(params[i][1], 0))
                self.no_calls = nocalls
        if self.on("args", 0.12):
            fn.vararg = self.name("a")
            defs.append("*" + fn.vararg)
        if self.on("kwonly", 0.12):
            k = self.name("k")
            fn.kwonly = [(k, INT)]
            if not fn.vararg:
                defs.append("*")
            defs.append(k)
        if self.on("args", 0.1):
            fn.kwarg = self.name("kw")
            defs.append("**" + fn.kwarg)
        if self.on("args", 0.06) and len(params) >= 2 and not method:
            fn.posonly = 1
            defs.insert(1, "/")
        if method:
            defs.insert(0, "self")
        recursive = (not method and not nested and not generator and self.on("recursion", 0.2)
                     and params and params[0][1] == INT and not fn.kwonly and fn.ndef == 0 and not fn.posonly)
        decor = not method and not generator and not nested and self.on("decorators", 0.15)
        if decor:
            self.emit("@%s" % self.pick(["deco", "deco_arg(2)"]))
            self.uses_deco = True
        self.emit("def %s(%s):" % (name, ", ".join(defs)))
        old_scope, old_in, old_ret = self.scope, self.in_func, self.cur_ret
        old_funcs = list(self.funcs)
        old_loop = self.scope.loop
        self.scope = Scope("function", old_scope)
        outer = dict(old_scope.vars)
        if not f.get("closures") or method:
            outer = {} if method else outer
        # readable outer variables (never assigned in here unless declared)
        self.scope.vars = {}
        if self.f.get("closures") and not method:
            self.scope.vars = {k: v for k, v in list(outer.items())[:4] if old_scope.kind != "comp"}
        readonly = set(self.scope.vars)
        self.scope.readonly = readonly
        for p, t in params:
            self.scope.vars[p] = t
        if method:
            self.scope.vars["self"] = OBJ
            self.scope.readonly = readonly | {"self"}
        if fn.vararg:
            self.scope.vars[fn.vararg] = "vararg"
        for k, t in fn.kwonly:
            self.scope.vars[k] = t
        self.in_func, self.cur_ret = True, ret
        self.ind += 1
        if self.chance(0.15):
            self.emit('"""Doc of %s"""' % name)
        if self.on("globals_", 0.15) and not method and not nested and not generator:
            self.emit("global G0")
            self.emit("G0 = G0 + 1")
        if recursive:
            self.emit("if %s <= 0 or %s > 4:" % (params[0][0], params[0][0]))
            self.ind += 1
            self.emit("return %s" % self.expr(ret, 1))
            self.ind -= 1
            rest = ", ".join(self.expr(t, 0) for _, t in params[1:])
            v = self.name("r")
            self.emit("%s = %s(%s - 1%s)" % (v, name, params[0][0], ", " + rest if rest else ""))
            self.scope.vars[v] = ret
        if nested and self.f.get("closures") and self.chance(0.4) and old_scope.kind == "function":
            cand = [k for k, v in outer.items() if v == INT and k not in getattr(old_scope, "readonly", ())
                    and k not in dict(params)]
            if cand:
                k = self.pick(cand)
                self.emit("nonlocal %s" % k)
                self.scope.vars.pop(k, None)
                self.emit("%s = %s" % (k, self.e_int(1)))
        nbody = self.r.randint(1, 3)
        if method:
            self.no_calls += 1      # avoids unbounded mutual recursion of methods
        if generator:
            self.in_func = False
            for _ in range(self.r.randint(1, 2)):
                self.assign()
            if self.chance(0.7):
                i = self.name("i")
                self.emit("for %s in range(%d):" % (i, self.r.randint(1, 4)))
                self.ind += 1
                self.scope.vars[i] = INT
                nocalls, self.no_calls = self.no_calls, 0
                self.assign()
                self.emit("yield %s" % self.e_int(1))
                self.no_calls = nocalls
                self.ind -= 1
                del self.scope.vars[i]
            else:
                for _ in range(self.r.randint(1, 3)):
                    self.emit("yield %s" % self.e_int(1))
        else:
            for _ in range(nbody):
                self.stmt()
            if method and self.chance(0.5):
                self.emit("self.v = %s" % self.e_int(1))
            self.emit("return %s" % self.expr(ret, 1))
        if method:
            self.no_calls -= 1
        self.ind -= 1
        self.scope, self.in_func, self.cur_ret = old_scope, old_in, old_ret
        self.scope.loop = old_loop
        self.funcs = old_funcs
        if method:
            method.methods.append(fn)
        elif generator:
            self.gens.append(fn)
        elif nested:
            if self.scope.kind == "function":
                # only callable in this function: call it right away
                for _ in range(self.r.randint(1, 2)):
                    v = self.newvar(ret)
                    self.emit("%s = %s" % (v, self.call(fn, 1)))
                    self.scope.vars[v] = ret
            else:
                v = self.newvar(ret)
                self.emit("%s = %s" % (v, self.call(fn, 1)))
                self.scope.vars[v] = ret
        else:
            self.funcs.append(fn)
        return fn
    uses_deco = False

    def class_(self):
        cls = Cls("C%d" % (len(self.classes) + 1))
        base = ""
        if self.classes and self.on("inherit", 0.7):
            cls.base = self.classes[0]
            base = "(%s)" % cls.base.name
        self.emit("class %s%s:" % (cls.name, base))
        self.ind += 1
        if self.chance(0.3):
            self.emit('"""Class doc"""')
        if self.chance(0.4):
            self.emit("K = %s" % self.r.randint(0, 9))
        if cls.base:
            self.emit("def __init__(self, v):")
            self.emit("    super().__init__(v + 1)" if self.chance(0.6) else "    %s.__init__(self, v)" % cls.base.name)
            self.emit("    self.extra = v")
            if self.chance(0.5) and cls.base.methods:
                fn = self.pick(cls.base.methods)
                names = ", ".join([p for p, _ in fn.params])
                if not (fn.kwonly or fn.vararg or fn.kwarg):
                    self.emit("def %s(self%s):" % (fn.name, ", " + names if names else ""))
                    self.emit("    return super().%s(%s)" % (fn.name, names))
                    # overridden without defaults
                    fn.ndef = 0
        else:
            self.emit("def __init__(self, v):")
            self.emit("    self.v = v")
            if self.chance(0.5):
                self.emit("    self.items = [v]")
            self.emit("def __repr__(self):")
            self.emit('    return "<%s>"' % cls.name)
            if self.on("operators", 0.7):
                cls.ops.add("add")
                self.emit("def __add__(self, other):")
                self.emit("    return %s((self.v + other.v) %% 100)" % cls.name)
            if self.on("operators", 0.4):
                self.emit("def __lt__(self, other):")
                self.emit("    return self.v < other.v")
            if self.on("withs", 0.6):
                cls.ops.add("with")
                self.emit("def __enter__(self):")
                self.emit("    self.v += 1")
                self.emit("    return self")
                self.emit("def __exit__(self, *exc):")
                self.emit('    print("exit", exc[0] is None)')
                self.emit("    return %s" % self.pick(["False", "None"]))
            if self.on("properties", 0.5):
                pname = self.name("prop")
                cls.props.append(pname)
                self.emit("@property")
                self.emit("def %s(self):" % pname)
                self.emit("    return self.v * 2 % 100")
            if self.on("methods", 0.5):
                self.emit("@staticmethod")
                self.emit("def st(x):")
                self.emit("    return x + 1")
                self.emit("@classmethod")
                self.emit("def mk(cls, x):")
                self.emit("    return cls(x)")
            for _ in range(self.r.randint(1, 2)):
                self.function(method=cls)
        self.ind -= 1
        self.classes.append(cls)

    def build(self):
        f = self.f
        r = self.r
        self.emit("G0 = %d" % r.randint(0, 5))
        for t in (INT, INT, LIST, STR):
            v = self.name({INT: "i", LIST: "l", STR: "s"}[t])
            self.emit("%s = %s" % (v, self.expr(t, 0)))
            self.scope.vars[v] = t
        header = len(self.lines)
        if f.get("classes") and self.chance(0.6):
            self.class_()
            if self.chance(0.4):
                self.class_()
            o = self.name("o")
            self.emit("%s = %s(%s)" % (o, self.pick(self.classes).name, self.e_int(0)))
            self.scope.vars[o] = OBJ
        for _ in range(r.randint(1, 3)):
            self.function()
        if f.get("generators") and self.chance(0.4):
            self.function(generator=True)
        mods = {}
        if f.get("modules") and self.chance(0.25):
            mods = self.modules()
        while self.budget > 0:
            if self.on("blank_lines", 0.1):
                self.emit("# comment")
                self.lines.append("")
            self.stmt()
        self.emit("print(G0, %s)" % ", ".join(sorted(
            n for n, t in self.scope.vars.items() if t in (INT, STR, LIST, TUP, DICT))[:8]) if self.scope.vars else "print(G0)")
        head = []
        if self.uses_deco:
            head += ["def deco(fn):", "    def inner(*args, **kwargs):", "        res = fn(*args, **kwargs)",
                     "        return res", "    return inner",
                     "def deco_arg(n):", "    def wrap(fn):", "        def inner2(*args, **kwargs):",
                     "            return fn(*args, **kwargs)", "        return inner2", "    return wrap"]
        if self.uses_fail:
            head += ["def fail(x, depth=0):", "    if depth > 0:", "        y = [x, fail(x + 1, depth=depth - 1)]",
                     "        return y", "    raise KeyError(x)"]
        self.lines = self.lines[:header] + head + self.lines[header:]
        files = {"script.py": "\n".join(self.lines) + "\n",
                 "in.txt": "line one\nline two\n", "sub/keep": "x"}
        files.update(mods)
        stdin = "".join("input %d\n" % i for i in range(self.stdin_lines + 2))
        return {"files": files, "stdin": stdin, "args": []}

    def modules(self):
        kind = self.r.randrange(3)
        body = "VALUE = %d\n\n\ndef helper(x, y=2):\n    z = x + y\n    return z\n" % self.r.randint(0, 9)
        if kind == 0:
            self.emit("import localmod")
            self.emit("from localmod import helper as hlp")
            self.emit("print(localmod.VALUE, hlp(%s), localmod.helper(1, y=%s))" % (self.e_int(1), self.e_int(0)))
            self.funcs.append(Fn("hlp", [("x", INT), ("y", INT)], INT, ndef=1))
            return {"localmod.py": body}
        if kind == 1:
            self.emit("from pkg.inner import helper")
            self.emit("import pkg")
            self.emit("print(pkg.NAME, helper(%s))" % self.e_int(1))
            self.funcs.append(Fn("helper", [("x", INT), ("y", INT)], INT, ndef=1))
            return {"pkg/__init__.py": "from . import inner\nNAME = 'pk'\n", "pkg/inner.py": "from .low import VALUE\n" + body.split("\n", 1)[1],
                    "pkg/low.py": "VALUE = 4\n"}
        self.emit("import sys, os.path")
        self.emit("print(len(sys.argv), os.path.join('a', 'b'))")
        return {}


def program(rng, profile="general", size=1.0, feat=None):
    feat = feat or PROFILES[profile]
    return Gen(rng, feat, size).build()


if __name__ == "__main__":
    import random
    import sys
    p = program(random.Random(sys.argv[1]), sys.argv[2] if len(sys.argv) > 2 else "general")
    for n, t in p["files"].items():
        if n.endswith(".py"):
            print("#", n)
            print(t)
