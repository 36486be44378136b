"""Lowers Cython sources to the Python `ast` used by the analyser.

The parse is Cython's own (the same front end that builds the extension), nothing is compiled or run.
C-only constructs become marker calls: `&x` -> __addr__(x), `<T>x` -> __cast__("T", x),
`sizeof(T)` -> __sizeof__("T"), `new T(a)` -> __new__("T", a), `with nogil:` -> `with __nogil__():`.
C declarations become annotated assignments and are also collected in `func.ctypes`.
"""
import ast
import io
import contextlib

from Cython.Compiler import Errors, Options
from Cython.Compiler.Main import CompilationOptions, Context
from Cython.Compiler.Scanning import FileSourceDescriptor
from Cython.Compiler import Nodes, ExprNodes


def parse_tree(path):
    opts = CompilationOptions(Options.default_options, cplus=True, language_level=3)
    ctx = Context.from_options(opts)
    Errors.init_thread()
    sd = FileSourceDescriptor(path, path)
    with contextlib.redirect_stderr(io.StringIO()):
        scope = ctx.find_module("m", pos=(sd, 1, 0), need_pxd=False)
        return ctx.parse(sd, scope, pxd=0, full_module_name="m")


BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv, "%": ast.Mod, "**": ast.Pow,
       "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor, "<<": ast.LShift, ">>": ast.RShift, "@": ast.MatMult}
CMP = {"==": ast.Eq, "!=": ast.NotEq, "<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "is": ast.Is,
       "is_not": ast.IsNot, "in": ast.In, "not_in": ast.NotIn}


class Lower:
    def __init__(self, path):
        self.path = path
        self.func_types = []

    # ---- helpers
    def loc(self, new, node):
        pos = getattr(node, "pos", None)
        new.lineno = pos[1] if pos else 0
        new.col_offset = pos[2] if pos else 0
        new.end_lineno = new.lineno
        new.end_col_offset = new.col_offset
        return new

    def name(self, ident, node, ctx=None):
        return self.loc(ast.Name(id=str(ident), ctx=ctx or ast.Load()), node)

    def const(self, v, node):
        return self.loc(ast.Constant(value=v), node)

    def call(self, fname, args, node):
        return self.loc(ast.Call(func=self.name(fname, node), args=args, keywords=[]), node)

    # ---- C types
    def ctype(self, base, decl=None):
        t = self._base(base)
        while decl is not None and not isinstance(decl, Nodes.CNameDeclaratorNode):
            if isinstance(decl, Nodes.CPtrDeclaratorNode):
                t += "*"
            elif isinstance(decl, Nodes.CReferenceDeclaratorNode):
                t += "&"
            elif isinstance(decl, Nodes.CArrayDeclaratorNode):
                t += "[]"
            decl = getattr(decl, "base", None)
        return t

    def _base(self, b):
        if b is None:
            return "object"
        if isinstance(b, Nodes.CSimpleBaseTypeNode):
            n = str(b.name) if b.name is not None else "object"
            if getattr(b, "module_path", None):
                n = ".".join(map(str, b.module_path)) + "." + n
            if getattr(b, "is_basic_c_type", False):
                pre = {0: "unsigned ", 1: "", 2: ""}.get(getattr(b, "signed", 1), "")
                l = getattr(b, "longness", 0)
                n = pre + ("short " if l < 0 else "long " * l if n == "int" and l > 0 else "") + n
                if n.endswith("long int"):
                    n = n[:-4]
                elif n.endswith("short int"):
                    n = n[:-4]
            return n.strip()
        if isinstance(b, Nodes.MemoryViewSliceTypeNode):
            return self._base(b.base_type_node) + "[%s]" % ",".join(":" * len(b.axes))
        if isinstance(b, Nodes.TemplatedTypeNode):
            args = []
            for a in b.positional_args or []:
                args.append(self._typearg(a))
            return self._base(b.base_type_node) + "<%s>" % ",".join(args)
        if isinstance(b, Nodes.CComplexBaseTypeNode):
            return self.ctype(b.base_type, b.declarator)
        if isinstance(b, Nodes.CConstOrVolatileTypeNode):
            return self._base(b.base_type)
        return type(b).__name__

    def _typearg(self, a):
        if isinstance(a, (Nodes.CComplexBaseTypeNode, Nodes.CSimpleBaseTypeNode, Nodes.TemplatedTypeNode)):
            return self._base(a)
        if isinstance(a, ExprNodes.NameNode):
            return str(a.name)
        return "?"

    def declname(self, d):
        while d is not None:
            if isinstance(d, Nodes.CNameDeclaratorNode):
                return str(d.name)
            d = getattr(d, "base", None)
        return ""

    def declnode(self, d):
        while d is not None and not isinstance(d, Nodes.CNameDeclaratorNode):
            d = getattr(d, "base", None)
        return d

    # ---- module
    def module(self):
        tree = parse_tree(self.path)
        body = self.block(tree.body)
        m = ast.Module(body=body, type_ignores=[])
        return m

    def block(self, n):
        if n is None:
            return []
        out = self.stat(n)
        return out

    def body(self, n):
        b = self.block(n)
        if not b:
            b = [ast.Pass(lineno=getattr(n, "pos", (0, 0, 0))[1] if getattr(n, "pos", None) else 0, col_offset=0)]
        return b

    def stat(self, n):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            for cls in type(n).__mro__[1:]:
                m = getattr(self, "s_" + cls.__name__, None)
                if m:
                    break
        if m is None:
            return [self.loc(ast.Expr(value=self.call("__opaque__", [self.const(type(n).__name__, n)], n)), n)]
        r = m(n)
        if r is None:
            return []
        return r if isinstance(r, list) else [r]

    def s_StatListNode(self, n):
        out = []
        for s in n.stats:
            out.extend(self.stat(s))
        return out

    def s_PassStatNode(self, n):
        return self.loc(ast.Pass(), n)

    def s_CDefExternNode(self, n):
        return []

    def s_CppClassNode(self, n):
        return []

    def s_FromCImportStatNode(self, n):
        mod = str(n.module_name)
        names = []
        for it in n.imported_names:
            # (pos, name, as_name, ...) tuples
            names.append(ast.alias(name=str(it[1]), asname=str(it[2]) if it[2] else None))
        return self.loc(ast.ImportFrom(module=mod, names=names, level=getattr(n, "relative_level", 0) or 0), n)

    def s_CImportStatNode(self, n):
        return self.loc(ast.Import(names=[ast.alias(name=str(n.module_name), asname=str(n.as_name) if n.as_name else None)]), n)

    def s_FromImportStatNode(self, n):
        mod = str(n.module.module_name.value) if n.module.module_name is not None else ""
        level = n.module.level or 0
        if level < 0:
            level = 0
        names = []
        for nm, target in n.items:
            names.append(ast.alias(name=str(nm), asname=str(target.name) if str(target.name) != str(nm) else None))
        return self.loc(ast.ImportFrom(module=mod, names=names, level=level), n)

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            if isinstance(d, Nodes.CFuncDeclaratorNode):
                continue
            t = self.ctype(n.base_type, d)
            dn = self.declnode(d)
            nm = self.declname(d)
            if self.func_types:
                self.func_types[-1][nm] = t
            default = getattr(dn, "default", None)
            out.append(self.loc(ast.AnnAssign(target=self.name(nm, n, ast.Store()), annotation=self.const(t, n),
                                              value=self.expr(default) if default is not None else None, simple=1), n))
        return out

    def s_SingleAssignmentNode(self, n):
        if isinstance(n.rhs, ExprNodes.ImportNode):
            imp = n.rhs
            mod = str(imp.module_name.value)
            tgt = str(n.lhs.name)
            return self.loc(ast.Import(names=[ast.alias(name=mod, asname=tgt if tgt != mod.split(".")[0] or "." in mod and tgt != mod.split(".")[0] else None)]), n)
        return self.loc(ast.Assign(targets=[self.expr(n.lhs, ast.Store())], value=self.expr(n.rhs)), n)

    def s_CascadedAssignmentNode(self, n):
        return self.loc(ast.Assign(targets=[self.expr(l, ast.Store()) for l in n.lhs_list], value=self.expr(n.rhs)), n)

    def s_ParallelAssignmentNode(self, n):
        ts, vs = [], []
        for s in n.stats:
            ts.append(self.expr(s.lhs, ast.Store()))
            vs.append(self.expr(s.rhs))
        return self.loc(ast.Assign(targets=[self.loc(ast.Tuple(elts=ts, ctx=ast.Store()), n)],
                                   value=self.loc(ast.Tuple(elts=vs, ctx=ast.Load()), n)), n)

    def s_InPlaceAssignmentNode(self, n):
        return self.loc(ast.AugAssign(target=self.expr(n.lhs, ast.Store()), op=BIN[n.operator](), value=self.expr(n.rhs)), n)

    def s_ExprStatNode(self, n):
        if isinstance(n.expr, ExprNodes.ImportNode):
            return self.loc(ast.Import(names=[ast.alias(name=str(n.expr.module_name.value), asname=None)]), n)
        return self.loc(ast.Expr(value=self.expr(n.expr)), n)

    def s_ReturnStatNode(self, n):
        return self.loc(ast.Return(value=self.expr(n.value) if n.value is not None else None), n)

    def s_RaiseStatNode(self, n):
        return self.loc(ast.Raise(exc=self.expr(n.exc_type) if n.exc_type is not None else None, cause=None), n)

    def s_ReraiseStatNode(self, n):
        return self.loc(ast.Raise(exc=None, cause=None), n)

    def s_AssertStatNode(self, n):
        return self.loc(ast.Assert(test=self.expr(getattr(n, "condition", None) or n.cond), msg=None), n)

    def s_BreakStatNode(self, n):
        return self.loc(ast.Break(), n)

    def s_ContinueStatNode(self, n):
        return self.loc(ast.Continue(), n)

    def s_DelStatNode(self, n):
        return self.loc(ast.Delete(targets=[self.expr(a, ast.Del()) for a in n.args]), n)

    def s_GlobalNode(self, n):
        return self.loc(ast.Global(names=[str(x) for x in n.names]), n)

    def s_IfStatNode(self, n):
        orelse = self.block(n.else_clause) if n.else_clause else []
        for cl in reversed(n.if_clauses):
            node = self.loc(ast.If(test=self.expr(cl.condition), body=self.body(cl.body), orelse=orelse), cl)
            orelse = [node]
        return orelse

    def s_WhileStatNode(self, n):
        return self.loc(ast.While(test=self.expr(n.condition), body=self.body(n.body),
                                  orelse=self.block(n.else_clause) if n.else_clause else []), n)

    def s_ForInStatNode(self, n):
        it = n.iterator
        seq = it.sequence if hasattr(it, "sequence") else it
        return self.loc(ast.For(target=self.expr(n.target, ast.Store()), iter=self.expr(seq), body=self.body(n.body),
                                orelse=self.block(n.else_clause) if n.else_clause else []), n)

    def s_ForFromStatNode(self, n):
        lo, hi = self.expr(n.bound1), self.expr(n.bound2)
        if n.relation1 == "<":
            lo = self.loc(ast.BinOp(left=lo, op=ast.Add(), right=self.const(1, n)), n)
        if n.relation2 == "<=":
            hi = self.loc(ast.BinOp(left=hi, op=ast.Add(), right=self.const(1, n)), n)
        return self.loc(ast.For(target=self.expr(n.target, ast.Store()), iter=self.call("range", [lo, hi], n),
                                body=self.body(n.body), orelse=[]), n)

    def s_GILStatNode(self, n):
        ctx = self.call("__%s__" % n.state, [], n)
        return self.loc(ast.With(items=[ast.withitem(context_expr=ctx, optional_vars=None)], body=self.body(n.body)), n)

    def s_WithStatNode(self, n):
        item = ast.withitem(context_expr=self.expr(n.manager),
                            optional_vars=self.expr(n.target, ast.Store()) if n.target is not None else None)
        return self.loc(ast.With(items=[item], body=self.body(n.body)), n)

    def s_TryFinallyStatNode(self, n):
        body = self.body(n.body)
        fin = self.body(n.finally_clause)
        return self.loc(ast.Try(body=body, handlers=[], orelse=[], finalbody=fin), n)

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            pat = c.pattern
            ty = None
            if pat:
                ty = self.expr(pat[0]) if isinstance(pat, list) and len(pat) == 1 else (
                    self.loc(ast.Tuple(elts=[self.expr(x) for x in pat], ctx=ast.Load()), c) if isinstance(pat, list) else self.expr(pat))
            hs.append(self.loc(ast.ExceptHandler(type=ty, name=str(c.target.name) if c.target is not None else None,
                                                 body=self.body(c.body)), c))
        return self.loc(ast.Try(body=self.body(n.body), handlers=hs,
                                orelse=self.block(n.else_clause) if n.else_clause else [], finalbody=[]), n)

    # ---- functions and classes
    def args(self, n, arglist, star=None, starstar=None):
        a = ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
        types = {}
        for arg in arglist:
            nm = self.declname(arg.declarator)
            t = self.ctype(arg.base_type, arg.declarator)
            if not nm:  # untyped "name" parses as type
                nm = str(arg.base_type.name) if hasattr(arg.base_type, "name") else "_"
                t = "object"
            types[nm] = t
            x = ast.arg(arg=nm, annotation=self.const(t, arg) if t != "object" else None)
            self.loc(x, arg)
            if getattr(arg, "kw_only", 0):
                a.kwonlyargs.append(x)
                a.kw_defaults.append(self.expr(arg.default) if arg.default is not None else None)
            else:
                a.args.append(x)
                if arg.default is not None:
                    a.defaults.append(self.expr(arg.default))
        if star is not None:
            a.vararg = ast.arg(arg=str(star.name), annotation=None)
        if starstar is not None:
            a.kwarg = ast.arg(arg=str(starstar.name), annotation=None)
        return a, types

    def func(self, n, name, arglist, star, starstar, body, decorators, cfunc):
        self.func_types.append({})
        a, types = self.args(n, arglist, star, starstar)
        self.func_types[-1].update(types)
        b = self.body(body)
        f = self.loc(ast.FunctionDef(name=name, args=a, body=b, decorator_list=decorators, returns=None, type_comment=None), n)
        f.ctypes = self.func_types.pop()
        f.argtypes = types
        f.cfunc = cfunc
        return f

    def decos(self, n):
        return [self.expr(d.decorator) for d in (n.decorators or [])]

    def s_DefNode(self, n):
        return self.func(n, str(n.name), n.args, n.star_arg, n.starstar_arg, n.body, self.decos(n), False)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while not isinstance(d, Nodes.CFuncDeclaratorNode):
            d = d.base
        f = self.func(n, self.declname(d), d.args, None, None, n.body, self.decos(n), True)
        base = getattr(n.base_type, "name", None)
        # an exception raised inside is printed and dropped instead of reaching the caller
        f.noexcept = not getattr(d, "exception_check", True) and getattr(d, "exception_value", None) is None and base not in (None, "object", "list", "dict", "tuple")
        return f

    def s_PyClassDefNode(self, n):
        bases = []
        if n.bases is not None and hasattr(n.bases, "args"):
            bases = [self.expr(b) for b in n.bases.args]
        return self.loc(ast.ClassDef(name=str(n.name), bases=bases, keywords=[], body=self.body(n.body), decorator_list=[]), n)

    def s_CClassDefNode(self, n):
        bases = []
        bs = getattr(n, "bases", None)
        if bs is not None and hasattr(bs, "args"):
            bases = [self.expr(b) for b in bs.args]
        c = self.loc(ast.ClassDef(name=str(n.class_name), bases=bases, keywords=[], body=self.body(n.body), decorator_list=[]), n)
        c.cclass = True
        return c

    # ---- expressions
    def expr(self, n, ctx=None):
        if n is None:
            return None
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            for cls in type(n).__mro__[1:]:
                m = getattr(self, "e_" + cls.__name__, None)
                if m:
                    break
        if m is None:
            return self.call("__opaque__", [self.const(type(n).__name__, n)], n)
        r = m(n)
        if ctx is not None and hasattr(r, "ctx"):
            r.ctx = ctx
        return r

    def e_NameNode(self, n):
        return self.name(n.name, n)

    def e_AttributeNode(self, n):
        return self.loc(ast.Attribute(value=self.expr(n.obj), attr=str(n.attribute), ctx=ast.Load()), n)

    def e_NoneNode(self, n):
        return self.const(None, n)

    def e_NullNode(self, n):
        return self.call("__null__", [], n)

    def e_BoolNode(self, n):
        return self.const(bool(n.value), n)

    def e_IntNode(self, n):
        s = str(n.value)
        try:
            v = int(s.rstrip("uUlL"), 0)
        except ValueError:
            v = 0
        return self.const(v, n)

    def e_FloatNode(self, n):
        return self.const(float(n.value), n)

    def e_StrLike(self, n):
        return self.const(str(n.value), n)

    e_UnicodeNode = e_StrLike
    e_StringNode = e_StrLike
    e_IdentifierStringNode = e_StrLike
    e_EncodedString = e_StrLike

    def e_BytesNode(self, n):
        return self.const(bytes(n.value), n)

    def e_CharNode(self, n):
        return self.const(str(n.value), n)

    def e_EllipsisNode(self, n):
        return self.const(Ellipsis, n)

    def e_JoinedStrNode(self, n):
        vals = []
        for v in n.values:
            if isinstance(v, ExprNodes.FormattedValueNode):
                vals.append(self.loc(ast.FormattedValue(value=self.expr(v.value), conversion=-1, format_spec=None), n))
            else:
                vals.append(self.expr(v))
        return self.loc(ast.JoinedStr(values=vals), n)

    def e_FormattedValueNode(self, n):
        return self.expr(n.value)

    def e_TupleNode(self, n):
        return self.loc(ast.Tuple(elts=[self.expr(a) for a in n.args], ctx=ast.Load()), n)

    def e_ListNode(self, n):
        return self.loc(ast.List(elts=[self.expr(a) for a in n.args], ctx=ast.Load()), n)

    def e_SetNode(self, n):
        return self.loc(ast.Set(elts=[self.expr(a) for a in n.args]), n)

    def e_DictNode(self, n):
        return self.loc(ast.Dict(keys=[self.expr(i.key) for i in n.key_value_pairs],
                                 values=[self.expr(i.value) for i in n.key_value_pairs]), n)

    def e_MergedDictNode(self, n):
        keys, vals = [], []
        for d in n.keyword_args:
            if isinstance(d, ExprNodes.DictNode):
                for i in d.key_value_pairs:
                    keys.append(self.expr(i.key))
                    vals.append(self.expr(i.value))
            else:
                keys.append(None)
                vals.append(self.expr(d))
        return self.loc(ast.Dict(keys=keys, values=vals), n)

    def e_AsTupleNode(self, n):
        return self.expr(n.arg)

    def e_SimpleCallNode(self, n):
        return self.loc(ast.Call(func=self.expr(n.function), args=[self.expr(a) for a in (n.args or [])], keywords=[]), n)

    def e_GeneralCallNode(self, n):
        args = []
        pos = n.positional_args
        if isinstance(pos, ExprNodes.TupleNode):
            args = [self.expr(a) for a in pos.args]
        elif pos is not None:
            args = [self.loc(ast.Starred(value=self.expr(pos), ctx=ast.Load()), n)]
        kws = []
        kw = n.keyword_args
        if isinstance(kw, ExprNodes.DictNode):
            for i in kw.key_value_pairs:
                kws.append(ast.keyword(arg=str(i.key.value), value=self.expr(i.value)))
        elif isinstance(kw, ExprNodes.MergedDictNode):
            for d in kw.keyword_args:
                if isinstance(d, ExprNodes.DictNode):
                    for i in d.key_value_pairs:
                        kws.append(ast.keyword(arg=str(i.key.value), value=self.expr(i.value)))
                else:
                    kws.append(ast.keyword(arg=None, value=self.expr(d)))
        elif kw is not None:
            kws.append(ast.keyword(arg=None, value=self.expr(kw)))
        return self.loc(ast.Call(func=self.expr(n.function), args=args, keywords=kws), n)

    def e_IndexNode(self, n):
        # memoryview indexing X[u, 0] has a TupleNode index
        return self.loc(ast.Subscript(value=self.expr(n.base), slice=self.expr(n.index), ctx=ast.Load()), n)

    def e_SliceIndexNode(self, n):
        sl = self.loc(ast.Slice(lower=self.expr(n.start), upper=self.expr(n.stop), step=None), n)
        return self.loc(ast.Subscript(value=self.expr(n.base), slice=sl, ctx=ast.Load()), n)

    def e_SliceNode(self, n):
        f = lambda x: None if x is None or isinstance(x, ExprNodes.NoneNode) else self.expr(x)
        return self.loc(ast.Slice(lower=f(n.start), upper=f(n.stop), step=f(n.step)), n)

    def e_BinopNode(self, n):
        op = BIN.get(n.operator)
        if op is None:
            return self.call("__opaque__", [self.expr(n.operand1), self.expr(n.operand2)], n)
        return self.loc(ast.BinOp(left=self.expr(n.operand1), op=op(), right=self.expr(n.operand2)), n)

    def e_BoolBinopNode(self, n):
        op = ast.And() if n.operator == "and" else ast.Or()
        return self.loc(ast.BoolOp(op=op, values=[self.expr(n.operand1), self.expr(n.operand2)]), n)

    def e_NotNode(self, n):
        return self.loc(ast.UnaryOp(op=ast.Not(), operand=self.expr(n.operand)), n)

    def e_UnaryMinusNode(self, n):
        return self.loc(ast.UnaryOp(op=ast.USub(), operand=self.expr(n.operand)), n)

    def e_UnaryPlusNode(self, n):
        return self.expr(n.operand)

    def e_TildeNode(self, n):
        return self.loc(ast.UnaryOp(op=ast.Invert(), operand=self.expr(n.operand)), n)

    def e_PrimaryCmpNode(self, n):
        ops, comps = [CMP[n.operator]()], [self.expr(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(CMP[c.operator]())
            comps.append(self.expr(c.operand2))
            c = c.cascade
        return self.loc(ast.Compare(left=self.expr(n.operand1), ops=ops, comparators=comps), n)

    def e_CondExprNode(self, n):
        return self.loc(ast.IfExp(test=self.expr(n.test if hasattr(n, "test") else n.condition),
                                  body=self.expr(n.true_val), orelse=self.expr(n.false_val)), n)

    def e_AmpersandNode(self, n):
        return self.call("__addr__", [self.expr(n.operand)], n)

    def e_TypecastNode(self, n):
        return self.call("__cast__", [self.const(self.ctype(n.base_type, n.declarator), n), self.expr(n.operand)], n)

    def e_SizeofVarNode(self, n):
        return self.call("__sizeof__", [self.const(str(getattr(n.operand, "name", "?")), n)], n)

    def e_SizeofTypeNode(self, n):
        return self.call("__sizeof__", [self.const(self.ctype(n.base_type, n.declarator), n)], n)

    def e_NewExprNode(self, n):
        # the call itself is a SimpleCallNode whose function is NewExprNode
        return self.loc(ast.Attribute(value=self.name("__new__", n), attr=self._base(n.cppclass), ctx=ast.Load()), n)

    def e_LambdaNode(self, n):
        d = n.def_node if hasattr(n, "def_node") and n.def_node else None
        args = n.args if hasattr(n, "args") else []
        a, _ = self.args(n, args)
        return self.loc(ast.Lambda(args=a, body=self.expr(n.result_expr)), n)

    def e_ComprehensionNode(self, n):
        return self._comp(n, n.loop, n.append)

    def e_GeneratorExpressionNode(self, n):
        loop = getattr(n, "loop", None)
        return self._comp(n, loop, None)

    def _comp(self, n, loop, append):
        gens = []
        node = loop
        elt = None
        ifs = []
        while node is not None:
            if isinstance(node, Nodes.StatListNode):
                node = node.stats[0] if node.stats else None
            elif isinstance(node, (Nodes.ForInStatNode,)):
                seq = node.iterator.sequence if hasattr(node.iterator, "sequence") else node.iterator
                gens.append(ast.comprehension(target=self.expr(node.target, ast.Store()), iter=self.expr(seq), ifs=[], is_async=0))
                node = node.body
            elif isinstance(node, Nodes.IfStatNode):
                gens[-1].ifs.append(self.expr(node.if_clauses[0].condition))
                node = node.if_clauses[0].body
            elif isinstance(node, Nodes.ExprStatNode):
                node = node.expr
            elif isinstance(node, ExprNodes.DictComprehensionAppendNode):
                elt = (self.expr(node.key_expr), self.expr(node.value_expr))
                break
            elif isinstance(node, ExprNodes.ComprehensionAppendNode):
                elt = self.expr(node.expr)
                break
            elif isinstance(node, ExprNodes.YieldExprNode):
                elt = self.expr(node.arg)
                break
            else:
                break
        if elt is None or not gens:
            return self.call("__opaque__", [self.const("comprehension", n)], n)
        if isinstance(elt, tuple):
            return self.loc(ast.DictComp(key=elt[0], value=elt[1], generators=gens), n)
        return self.loc(ast.ListComp(elt=elt, generators=gens), n)


def lower(path):
    return Lower(path).module()


if __name__ == "__main__":
    import sys
    for p in sys.argv[1:]:
        m = lower(p)
        ast.fix_missing_locations(m)
        print(ast.unparse(m))
