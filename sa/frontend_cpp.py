"""Lowers the C++ headers of the native code (via clang's typed AST) to the Python `ast` of the analyser.

Each template is instantiated once (that is all clang needs to type it); nothing is executed.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import tempfile

TU = """
#include "implicit/cpu/select.h"
#include "implicit/nearest_neighbours.h"
template void implicit::select<float>(const float*, int, int, int, int*, float*);
template struct implicit::TopK<int, double>;
template class implicit::SparseMatrixMultiplier<int, double>;
template void implicit::SparseMatrixMultiplier<int, double>::foreach<implicit::TopK<int, double>>(implicit::TopK<int, double>&);
"""


def clang():
    for c in ("/usr/bin/clang++", "/usr/bin/clang++-18", shutil.which("clang++"), shutil.which("clang++-18")):
        if c and os.path.exists(c):
            return c
    raise RuntimeError("clang++ not found")


def dump(repo):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "tu.cpp")
        with open(p, "w") as f:
            f.write(TU)
        out = subprocess.run([clang(), "-fsyntax-only", "-std=c++17", "-I", repo, "-Xclang", "-ast-dump=json",
                              "-Xclang", "-ast-dump-filter=implicit::", p], capture_output=True, text=True)
        if out.returncode != 0:
            raise RuntimeError("clang failed: " + out.stderr[-2000:])
    dec = json.JSONDecoder()
    s = out.stdout
    i = 0
    docs = []
    while True:
        while i < len(s) and s[i].isspace():
            i += 1
        if i >= len(s):
            break
        d, i = dec.raw_decode(s, i)
        docs.append(d)
    return docs


SKIP = {"ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr",
        "ConstantExpr", "SubstNonTypeTemplateParmExpr", "FullExpr"}
BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "%": ast.Mod, "&": ast.BitAnd, "|": ast.BitOr,
       "^": ast.BitXor, "<<": ast.LShift, ">>": ast.RShift}
CMP = {"==": ast.Eq, "!=": ast.NotEq, "<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE}


class Lower:
    def __init__(self):
        self.line = 0
        self.types = [{}]

    def at(self, n, j):
        b = j.get("range", {}).get("begin", {})
        b = b.get("expansionLoc", b)
        ln = b.get("line")
        if ln:
            self.line = ln
        n.lineno = self.line
        n.col_offset = b.get("col", 0) or 0
        n.end_lineno = n.lineno
        n.end_col_offset = n.col_offset
        return n

    def nm(self, s, j, ctx=None):
        return self.at(ast.Name(id=s, ctx=ctx or ast.Load()), j)

    def call(self, f, args, j):
        return self.at(ast.Call(func=self.nm(f, j), args=args, keywords=[]), j)

    def kids(self, j):
        return [k for k in j.get("inner", []) if isinstance(k, dict) and k.get("kind")]

    # ---- expressions
    def e(self, j):
        k = j["kind"]
        if k in SKIP:
            ks = self.kids(j)
            return self.e(ks[0]) if ks else self.call("__opaque__", [], j)
        m = getattr(self, "e_" + k, None)
        if m:
            return m(j)
        return self.call("__opaque__", [self.e(x) for x in self.kids(j)], j)

    def e_IntegerLiteral(self, j):
        return self.at(ast.Constant(value=int(j["value"])), j)

    def e_FloatingLiteral(self, j):
        return self.at(ast.Constant(value=float(j["value"])), j)

    def e_CXXBoolLiteralExpr(self, j):
        return self.at(ast.Constant(value=bool(j["value"])), j)

    def e_CXXNullPtrLiteralExpr(self, j):
        return self.call("__null__", [], j)

    def e_DeclRefExpr(self, j):
        return self.nm(j["referencedDecl"]["name"], j)

    def e_CXXThisExpr(self, j):
        return self.nm("self", j)

    def e_MemberExpr(self, j):
        ks = self.kids(j)
        return self.at(ast.Attribute(value=self.e(ks[0]), attr=j.get("name", "?"), ctx=ast.Load()), j)

    def e_ArraySubscriptExpr(self, j):
        a, b = self.kids(j)
        return self.at(ast.Subscript(value=self.e(a), slice=self.e(b), ctx=ast.Load()), j)

    def e_BinaryOperator(self, j):
        op = j["opcode"]
        a, b = self.kids(j)
        if op in BIN:
            return self.at(ast.BinOp(left=self.e(a), op=BIN[op](), right=self.e(b)), j)
        if op in CMP:
            return self.at(ast.Compare(left=self.e(a), ops=[CMP[op]()], comparators=[self.e(b)]), j)
        if op in ("&&", "||"):
            return self.at(ast.BoolOp(op=ast.And() if op == "&&" else ast.Or(), values=[self.e(a), self.e(b)]), j)
        return self.call("__opaque__", [self.e(a), self.e(b)], j)

    def e_UnaryOperator(self, j):
        op = j["opcode"]
        a = self.e(self.kids(j)[0])
        if op == "!":
            return self.at(ast.UnaryOp(op=ast.Not(), operand=a), j)
        if op == "-":
            return self.at(ast.UnaryOp(op=ast.USub(), operand=a), j)
        if op == "+":
            return a
        if op == "&":
            return self.call("__addr__", [a], j)
        if op == "*":
            return self.call("dereference", [a], j)
        return self.call("__opaque__", [a], j)

    def e_ConditionalOperator(self, j):
        c, a, b = self.kids(j)
        return self.at(ast.IfExp(test=self.e(c), body=self.e(a), orelse=self.e(b)), j)

    def cast(self, j):
        t = j.get("type", {}).get("qualType", "?")
        ks = self.kids(j)
        return self.call("__cast__", [self.at(ast.Constant(value=t), j), self.e(ks[0])], j)

    e_CXXStaticCastExpr = cast
    e_CStyleCastExpr = cast
    e_CXXFunctionalCastExpr = cast
    e_CXXReinterpretCastExpr = cast

    def e_CXXConstructExpr(self, j):
        ks = self.kids(j)
        if len(ks) == 1:
            return self.e(ks[0])
        c = self.call("__construct__", [self.e(x) for x in ks], j)
        t = j.get("type", {})
        c.keywords = [ast.keyword(arg=k, value=self.at(ast.Constant(value=v), j)) for k, v in
                      (("type", t.get("desugaredQualType") or t.get("qualType", "?")), ("at", j.get("range", {}).get("begin", {}).get("offset", 0)))]
        return c

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    e_InitListExpr = e_CXXConstructExpr

    def e_CallExpr(self, j):
        ks = self.kids(j)
        return self.at(ast.Call(func=self.e(ks[0]), args=[self.e(x) for x in ks[1:] if x["kind"] != "CXXDefaultArgExpr"], keywords=[]), j)

    e_CXXMemberCallExpr = e_CallExpr

    def e_CXXOperatorCallExpr(self, j):
        ks = self.kids(j)
        f = ks[0]
        while f["kind"] in SKIP:
            f = self.kids(f)[0]
        op = f.get("referencedDecl", {}).get("name", "")
        args = [self.e(x) for x in ks[1:]]
        if op == "operator[]":
            return self.at(ast.Subscript(value=args[0], slice=args[1], ctx=ast.Load()), j)
        if op == "operator()":
            return self.at(ast.Call(func=args[0], args=args[1:], keywords=[]), j)
        o = op.replace("operator", "")
        if o in BIN and len(args) == 2:
            return self.at(ast.BinOp(left=args[0], op=BIN[o](), right=args[1]), j)
        if o in CMP:
            return self.at(ast.Compare(left=args[0], ops=[CMP[o]()], comparators=[args[1]]), j)
        return self.call("__opaque__", args, j)

    # ---- statements
    def store(self, t):
        if hasattr(t, "ctx"):
            t.ctx = ast.Store()
        return t

    def s(self, j):
        k = j["kind"]
        while k in SKIP:
            j = self.kids(j)[0]
            k = j["kind"]
        m = getattr(self, "s_" + k, None)
        if m:
            r = m(j)
            return r if isinstance(r, list) else [r]
        return [self.at(ast.Expr(value=self.e(j)), j)]

    def blk(self, j):
        out = self.s(j)
        return out or [self.at(ast.Pass(), j)]

    def s_CompoundStmt(self, j):
        out = []
        for x in self.kids(j):
            out += self.s(x)
        return out

    def s_NullStmt(self, j):
        return [self.at(ast.Pass(), j)]

    def s_DeclStmt(self, j):
        out = []
        for v in self.kids(j):
            if v["kind"] != "VarDecl":
                continue
            t = v["type"]["qualType"]
            self.types[-1][v["name"]] = t
            if v.get("storageClass") == "static" and not v.get("tls") and not t.startswith("const ") and not v.get("constexpr"):
                self.statics.append((v["name"], t))
            ks = self.kids(v)
            val = self.e(ks[0]) if ks else None
            out.append(self.at(ast.AnnAssign(target=self.nm(v["name"], v, ast.Store()), annotation=self.at(ast.Constant(value=t), v),
                                             value=val, simple=1), v))
        return out

    def s_BinaryOperator(self, j):
        if j["opcode"] == "=":
            a, b = self.kids(j)
            return self.at(ast.Assign(targets=[self.store(self.e(a))], value=self.e(b)), j)
        if j["opcode"] == ",":
            a, b = self.kids(j)
            return self.s(a) + self.s(b)
        return self.at(ast.Expr(value=self.e(j)), j)

    def s_CompoundAssignOperator(self, j):
        a, b = self.kids(j)
        return self.at(ast.AugAssign(target=self.store(self.e(a)), op=BIN[j["opcode"][:-1]](), value=self.e(b)), j)

    def s_UnaryOperator(self, j):
        if j["opcode"] in ("++", "--"):
            a = self.e(self.kids(j)[0])
            return self.at(ast.AugAssign(target=self.store(a), op=ast.Add() if j["opcode"] == "++" else ast.Sub(),
                                         value=self.at(ast.Constant(value=1), j)), j)
        return self.at(ast.Expr(value=self.e(j)), j)

    def s_CXXOperatorCallExpr(self, j):
        ks = self.kids(j)
        f = ks[0]
        while f["kind"] in SKIP:
            f = self.kids(f)[0]
        op = f.get("referencedDecl", {}).get("name", "").replace("operator", "")
        if op == "=":
            return self.at(ast.Assign(targets=[self.store(self.e(ks[1]))], value=self.e(ks[2])), j)
        if op.endswith("=") and op[:-1] in BIN:
            return self.at(ast.AugAssign(target=self.store(self.e(ks[1])), op=BIN[op[:-1]](), value=self.e(ks[2])), j)
        return self.at(ast.Expr(value=self.e(j)), j)

    def s_IfStmt(self, j):
        ks = self.kids(j)
        return self.at(ast.If(test=self.e(ks[0]), body=self.blk(ks[1]), orelse=self.s(ks[2]) if len(ks) > 2 else []), j)

    def s_WhileStmt(self, j):
        ks = self.kids(j)
        return self.at(ast.While(test=self.e(ks[0]), body=self.blk(ks[-1]), orelse=[]), j)

    def s_DoStmt(self, j):
        ks = self.kids(j)
        body = self.blk(ks[0])
        return body + [self.at(ast.While(test=self.e(ks[1]), body=copy.deepcopy(body), orelse=[]), j)]

    def s_ForStmt(self, j):
        inner = j.get("inner", [])
        init, _cv, cond, inc, body = inner
        has = lambda x: isinstance(x, dict) and x.get("kind")
        pre = self.s(init) if has(init) else []
        c = self.e(cond) if has(cond) else self.at(ast.Constant(value=True), j)
        b = self.blk(body)
        step = self.s(inc) if has(inc) else []
        # canonical counting loop
        at = pre[0].target if len(pre) == 1 and isinstance(pre[0], ast.AnnAssign) else pre[0].targets[0] if len(pre) == 1 and isinstance(pre[0], ast.Assign) else None
        if (isinstance(at, ast.Name) and isinstance(c, ast.Compare) and isinstance(c.ops[0], ast.Lt)
                and isinstance(c.left, ast.Name) and c.left.id == at.id and len(step) == 1
                and isinstance(step[0], ast.AugAssign) and isinstance(step[0].op, ast.Add) and isinstance(step[0].value, ast.Constant)
                and step[0].value.value == 1):
            return self.at(ast.For(target=self.nm(c.left.id, j, ast.Store()), iter=self.call("range", [pre[0].value, c.comparators[0]], j),
                                   body=b, orelse=[]), j)

        class T(ast.NodeTransformer):
            def visit_For(self, n): return n
            def visit_While(self, n): return n
            def visit_Continue(self, n): return copy.deepcopy(step) + [n]
        b2 = [T().visit(x) for x in b]
        flat = []
        for x in b2:
            flat += x if isinstance(x, list) else [x]
        return pre + [self.at(ast.While(test=c, body=flat + step, orelse=[]), j)]

    def s_CXXForRangeStmt(self, j):
        ks = [x for x in j.get("inner", []) if isinstance(x, dict) and x.get("kind")]
        rng = var = None
        for d in ks[:-1]:
            if d["kind"] == "DeclStmt":
                v = self.kids(d)[0]
                if v.get("name", "").startswith("__range"):
                    rng = self.e(self.kids(v)[0])
                elif not v.get("name", "").startswith("__"):
                    var = v["name"]
                    self.types[-1][var] = v["type"]["qualType"]
        return self.at(ast.For(target=self.nm(var or "_", j, ast.Store()), iter=rng or self.call("__opaque__", [], j),
                               body=self.blk(ks[-1]), orelse=[]), j)

    def s_ReturnStmt(self, j):
        ks = self.kids(j)
        return self.at(ast.Return(value=self.e(ks[0]) if ks else None), j)

    def s_BreakStmt(self, j):
        return self.at(ast.Break(), j)

    def s_ContinueStmt(self, j):
        return self.at(ast.Continue(), j)

    # ---- functions
    def func(self, j, method):
        self.types.append({})
        self.statics = []
        a = ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
        if method:
            a.args.append(self.at(ast.arg(arg="self", annotation=None), j))
        argtypes = {}
        body = []
        inits = []
        for k in self.kids(j):
            if k["kind"] == "ParmVarDecl":
                t = k["type"]["qualType"]
                argtypes[k.get("name", "_")] = t
                a.args.append(self.at(ast.arg(arg=k.get("name", "_"), annotation=self.at(ast.Constant(value=t), k)), k))
            elif k["kind"] == "CXXCtorInitializer":
                fld = k.get("anyInit", {}).get("name", "?")
                ks = self.kids(k)
                inits.append(self.at(ast.Assign(targets=[self.at(ast.Attribute(value=self.nm("self", j), attr=fld, ctx=ast.Store()), j)],
                                                value=self.e(ks[0]) if ks else self.at(ast.Constant(value=None), j)), j))
            elif k["kind"] == "CompoundStmt":
                body = self.s(k)
        self.types[-1].update(argtypes)
        nm = j["name"]
        if nm == "operator()":
            nm = "__call__"
        f = self.at(ast.FunctionDef(name=nm, args=a, body=inits + body or [ast.Pass(lineno=0, col_offset=0)], decorator_list=[], returns=None), j)
        f.ctypes = self.types.pop()
        f.argtypes = argtypes
        f.cfunc = True
        f.statics = self.statics
        return f

    def record(self, j):
        out = []
        fields = {}
        for k in self.kids(j):
            if k["kind"] == "FieldDecl":
                fields[k["name"]] = k["type"]["qualType"]
            if k["kind"] in ("CXXMethodDecl", "CXXConstructorDecl") and not k.get("isImplicit") and any(x["kind"] == "CompoundStmt" for x in self.kids(k)):
                f = self.func(k, True)
                if k["kind"] == "CXXConstructorDecl":
                    f.name = "__init__"
                out.append(f)
            if k["kind"] == "FunctionTemplateDecl":
                insts = [x for x in self.kids(k) if x["kind"] == "CXXMethodDecl" and any(y["kind"] == "CompoundStmt" for y in self.kids(x))]
                if insts:
                    out.append(self.func(insts[-1], True))
        c = self.at(ast.ClassDef(name=j["name"], bases=[], keywords=[], body=out or [ast.Pass(lineno=0, col_offset=0)], decorator_list=[]), j)
        c.fields = fields
        return c


def lower(repo):
    """returns {name: ast node} for the native helpers: select, TopK, SparseMatrixMultiplier"""
    out = {}
    for d in dump(repo):
        k = d["kind"]
        inner = d.get("inner", [])
        if k == "FunctionTemplateDecl":
            fs = [x for x in inner if isinstance(x, dict) and x.get("kind") == "FunctionDecl" and any(y.get("kind") == "CompoundStmt" for y in x.get("inner", []) if isinstance(y, dict))]
            if fs:
                out.setdefault(d["name"], Lower().func(fs[-1], False))
        elif k == "ClassTemplateDecl":
            rs = [x for x in inner if isinstance(x, dict) and x.get("kind") == "ClassTemplateSpecializationDecl" and x.get("inner")]
            if rs:
                out.setdefault(d["name"], Lower().record(rs[-1]))
        elif k in ("ClassTemplateSpecializationDecl", "CXXRecordDecl") and inner:
            out.setdefault(d["name"], Lower().record(d))
        elif k == "FunctionDecl" and any(isinstance(y, dict) and y.get("kind") == "CompoundStmt" for y in inner):
            out.setdefault(d["name"], Lower().func(d, False))
    return out


if __name__ == "__main__":
    for k, v in lower("/repo").items():
        ast.fix_missing_locations(v)
        print("#", k, getattr(v, "fields", ""))
        print(ast.unparse(v))
