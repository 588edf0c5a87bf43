"""Loads LLVM bitcode through the LLVM-C API (ctypes) into plain Python objects.

Nothing here depends on the code being analysed; it is a thin reader.
"""
import ctypes as C
import os

_LIBS = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1",
         "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "libLLVM-18.so.1"]


def _load():
    for p in _LIBS:
        try:
            return C.CDLL(p)
        except OSError:
            continue
    raise RuntimeError("libLLVM-18 not found")


L = _load()
P = C.c_void_p
_sig = {
    "LLVMCreateMemoryBufferWithContentsOfFile": (C.c_int, [C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p)]),
    "LLVMParseIRInContext": (C.c_int, [P, P, C.POINTER(P), C.POINTER(C.c_char_p)]),
    "LLVMParseBitcodeInContext2": (C.c_int, [P, P, C.POINTER(P)]),
    "LLVMGetGlobalContext": (P, []),
    "LLVMGetModuleDataLayout": (P, [P]),
    "LLVMGetFirstFunction": (P, [P]), "LLVMGetNextFunction": (P, [P]),
    "LLVMGetFirstGlobal": (P, [P]), "LLVMGetNextGlobal": (P, [P]),
    "LLVMGetFirstBasicBlock": (P, [P]), "LLVMGetNextBasicBlock": (P, [P]),
    "LLVMGetFirstInstruction": (P, [P]), "LLVMGetNextInstruction": (P, [P]),
    "LLVMCountParams": (C.c_uint, [P]), "LLVMGetParam": (P, [P, C.c_uint]),
    "LLVMIsDeclaration": (C.c_int, [P]),
    "LLVMGetValueName2": (C.POINTER(C.c_char), [P, C.POINTER(C.c_size_t)]),
    "LLVMGetInstructionOpcode": (C.c_int, [P]),
    "LLVMGetICmpPredicate": (C.c_int, [P]), "LLVMGetFCmpPredicate": (C.c_int, [P]),
    "LLVMGetNumOperands": (C.c_int, [P]), "LLVMGetOperand": (P, [P, C.c_uint]),
    "LLVMTypeOf": (P, [P]), "LLVMGetTypeKind": (C.c_int, [P]),
    "LLVMGetIntTypeWidth": (C.c_uint, [P]),
    "LLVMABISizeOfType": (C.c_ulonglong, [P, P]),
    "LLVMStoreSizeOfType": (C.c_ulonglong, [P, P]),
    "LLVMOffsetOfElement": (C.c_ulonglong, [P, P, C.c_uint]),
    "LLVMGetGEPSourceElementType": (P, [P]),
    "LLVMGetElementType": (P, [P]), "LLVMGetArrayLength2": (C.c_uint64, [P]),
    "LLVMStructGetTypeAtIndex": (P, [P, C.c_uint]), "LLVMCountStructElementTypes": (C.c_uint, [P]),
    "LLVMGetAllocatedType": (P, [P]),
    "LLVMIsConstant": (C.c_int, [P]), "LLVMIsAConstantInt": (P, [P]), "LLVMIsAConstantFP": (P, [P]),
    "LLVMIsAConstantPointerNull": (P, [P]), "LLVMIsUndef": (C.c_int, [P]), "LLVMIsPoison": (C.c_int, [P]),
    "LLVMIsAFunction": (P, [P]), "LLVMIsAGlobalVariable": (P, [P]), "LLVMIsAConstantExpr": (P, [P]),
    "LLVMIsAConstantAggregateZero": (P, [P]), "LLVMIsAInstruction": (P, [P]), "LLVMIsAArgument": (P, [P]),
    "LLVMIsABasicBlock": (P, [P]), "LLVMIsNull": (C.c_int, [P]),
    "LLVMIsAConstantDataSequential": (P, [P]), "LLVMIsAConstantArray": (P, [P]), "LLVMIsAConstantStruct": (P, [P]),
    "LLVMGetConstOpcode": (C.c_int, [P]),
    "LLVMConstIntGetSExtValue": (C.c_longlong, [P]), "LLVMConstIntGetZExtValue": (C.c_ulonglong, [P]),
    "LLVMConstRealGetDouble": (C.c_double, [P, C.POINTER(C.c_int)]),
    "LLVMCountIncoming": (C.c_uint, [P]), "LLVMGetIncomingValue": (P, [P, C.c_uint]), "LLVMGetIncomingBlock": (P, [P, C.c_uint]),
    "LLVMGetNumSuccessors": (C.c_uint, [P]), "LLVMGetSuccessor": (P, [P, C.c_uint]),
    "LLVMIsConditional": (C.c_int, [P]), "LLVMGetCondition": (P, [P]),
    "LLVMGetBasicBlockTerminator": (P, [P]),
    "LLVMGetCalledValue": (P, [P]), "LLVMGetNumArgOperands": (C.c_uint, [P]),
    "LLVMGetCalledFunctionType": (P, [P]),
    "LLVMGetDebugLocLine": (C.c_uint, [P]), "LLVMGetDebugLocColumn": (C.c_uint, [P]), "LLVMGetDebugLocFilename": (C.POINTER(C.c_char), [P, C.POINTER(C.c_uint)]),
    "LLVMGetInitializer": (P, [P]), "LLVMIsGlobalConstant": (C.c_int, [P]), "LLVMGetLinkage": (C.c_int, [P]),
    "LLVMGetAsString": (C.POINTER(C.c_char), [P, C.POINTER(C.c_size_t)]), "LLVMIsConstantString": (C.c_int, [P]),
    "LLVMGetAggregateElement": (P, [P, C.c_uint]),
    "LLVMGlobalGetValueType": (P, [P]), "LLVMGetReturnType": (P, [P]),
    "LLVMGetNumIndices": (C.c_uint, [P]), "LLVMGetIndices": (C.POINTER(C.c_uint), [P]),
    "LLVMPrintValueToString": (C.c_char_p, [P]),
    "LLVMGetEnumAttributeKindForName": (C.c_uint, [C.c_char_p, C.c_size_t]),
    "LLVMGetEnumAttributeAtIndex": (P, [P, C.c_uint, C.c_uint]),
    "LLVMGetTypeAttributeValue": (P, [P]),
}
for _n, (_r, _a) in _sig.items():
    f = getattr(L, _n, None)
    if f is not None:
        f.restype = _r
        f.argtypes = _a

OPC = {1: "ret", 2: "br", 3: "switch", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub", 11: "fsub",
       12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem",
       20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp",
       44: "phi", 45: "call", 46: "select", 53: "extractvalue", 54: "insertvalue", 60: "addrspacecast",
       66: "fneg", 68: "freeze", 49: "va_arg"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq",
        10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}


class Ty:
    __slots__ = ("kind", "bits", "size", "elem", "length", "fields", "offsets")

    def __repr__(self):
        return f"{self.kind}{self.bits or ''}"


class Const:
    """constant operand: kind in int, fp, null, undef, func, global, expr, zero, agg, str"""
    __slots__ = ("kind", "val", "ty", "ops")

    def __init__(self, kind, val, ty, ops=None):
        self.kind, self.val, self.ty, self.ops = kind, val, ty, ops

    def __repr__(self):
        return f"C({self.kind},{self.val})"


class Ref:
    """reference to an SSA value (argument or instruction) by id"""
    __slots__ = ("id", "ty")

    def __init__(self, id, ty):
        self.id, self.ty = id, ty

    def __repr__(self):
        return f"%{self.id}"


class Inst:
    __slots__ = ("id", "op", "ty", "ops", "x", "line", "col", "file", "fn", "block")

    def __repr__(self):
        return f"<{self.id} {self.op} {self.ops} {self.x} @{self.file}:{self.line}>"


class Block:
    __slots__ = ("idx", "insts", "succs", "preds", "fn")


class Func:
    __slots__ = ("name", "params", "blocks", "decl", "ret", "rpo", "loops", "loop_of", "module", "live_in", "byval",
                 "internal", "nvals", "cache")


class Module:
    def __init__(self):
        self.funcs = {}
        self.globals = {}


class GlobalVar:
    __slots__ = ("name", "const", "size", "init", "internal", "ty")


class Loader:
    def __init__(self, path):
        self.ctx = L.LLVMGetGlobalContext()
        buf = P()
        err = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError(f"cannot read {path}: {err.value}")
        mod = P()
        if path.endswith(".ll"):
            if L.LLVMParseIRInContext(self.ctx, buf, C.byref(mod), C.byref(err)):
                raise RuntimeError(f"cannot parse {path}: {err.value}")
        elif L.LLVMParseBitcodeInContext2(self.ctx, buf, C.byref(mod)):
            raise RuntimeError(f"cannot parse {path}")
        self.mod = mod
        self.dl = L.LLVMGetModuleDataLayout(mod)
        self.tycache = {}

    def name(self, v):
        n = C.c_size_t()
        p = L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    def ty(self, t):
        if t in self.tycache:
            return self.tycache[t]
        r = Ty()
        self.tycache[t] = r
        k = L.LLVMGetTypeKind(t)
        r.bits = 0
        r.size = 0
        r.elem = None
        r.length = 0
        r.fields = None
        r.offsets = None
        if k == 0:
            r.kind = "void"
        elif k == 8:
            r.kind = "int"
            r.bits = L.LLVMGetIntTypeWidth(t)
            r.size = L.LLVMABISizeOfType(self.dl, t)
        elif k in (2, 3):
            r.kind = "fp"
            r.bits = 32 if k == 2 else 64
            r.size = L.LLVMABISizeOfType(self.dl, t)
        elif k == 4:
            r.kind = "fp"
            r.bits = 80
            r.size = 16
        elif k == 12:
            r.kind = "ptr"
            r.size = 8
        elif k == 10:
            r.kind = "struct"
            r.size = L.LLVMABISizeOfType(self.dl, t)
            n = L.LLVMCountStructElementTypes(t)
            r.fields = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            r.offsets = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
        elif k in (11, 13):
            r.kind = "array" if k == 11 else "vector"
            r.size = L.LLVMABISizeOfType(self.dl, t)
            r.elem = self.ty(L.LLVMGetElementType(t))
            r.length = L.LLVMGetArrayLength2(t) if k == 11 else 0
        elif k == 9:
            r.kind = "func"
        elif k == 16:
            r.kind = "metadata"
        else:
            r.kind = f"other{k}"
        return r

    def const(self, v):
        ty = self.ty(L.LLVMTypeOf(v))
        if L.LLVMIsAConstantInt(v):
            if ty.bits > 64:
                return Const("int", 0, ty)
            return Const("int", L.LLVMConstIntGetSExtValue(v), ty)
        if L.LLVMIsAConstantFP(v):
            li = C.c_int()
            return Const("fp", L.LLVMConstRealGetDouble(v, C.byref(li)), ty)
        if L.LLVMIsAConstantPointerNull(v):
            return Const("null", 0, ty)
        if L.LLVMIsAFunction(v):
            return Const("func", self.name(v), ty)
        if L.LLVMIsAGlobalVariable(v):
            return Const("global", self.name(v), ty)
        if L.LLVMIsUndef(v) or L.LLVMIsPoison(v):
            return Const("undef", None, ty)
        if L.LLVMIsAConstantAggregateZero(v):
            return Const("zero", None, ty)
        if L.LLVMIsAConstantExpr(v):
            oc = OPC.get(L.LLVMGetConstOpcode(v), "?")
            n = L.LLVMGetNumOperands(v)
            ops = [self.const(L.LLVMGetOperand(v, i)) for i in range(n)]
            x = None
            if oc == "gep":
                x = self.ty(L.LLVMGetGEPSourceElementType(v))
            return Const("expr", (oc, x), ty, ops)
        if L.LLVMIsAConstantDataSequential(v) and L.LLVMIsConstantString(v):
            n = C.c_size_t()
            p = L.LLVMGetAsString(v, C.byref(n))
            return Const("str", C.string_at(p, n.value), ty)
        if ty.kind in ("array", "struct", "vector"):
            n = len(ty.fields) if ty.kind == "struct" else ty.length
            ops = []
            for i in range(min(n, 4096)):
                e = L.LLVMGetAggregateElement(v, i)
                ops.append(self.const(e))
            return Const("agg", None, ty, ops)
        return Const("unknown", None, ty)

    def run(self):
        m = Module()
        g = L.LLVMGetFirstGlobal(self.mod)
        while g:
            gv = GlobalVar()
            gv.name = self.name(g)
            gv.const = bool(L.LLVMIsGlobalConstant(g))
            gv.ty = self.ty(L.LLVMGlobalGetValueType(g))
            gv.size = gv.ty.size
            gv.internal = L.LLVMGetLinkage(g) in (8, 9)
            ini = L.LLVMGetInitializer(g) if not L.LLVMIsDeclaration(g) else None
            gv.init = self.const(ini) if ini else None
            m.globals[gv.name] = gv
            g = L.LLVMGetNextGlobal(g)
        f = L.LLVMGetFirstFunction(self.mod)
        byval_kind = L.LLVMGetEnumAttributeKindForName(b"byval", 5)
        while f:
            fn = Func()
            fn.name = self.name(f)
            fn.module = m
            fn.decl = bool(L.LLVMIsDeclaration(f))
            fty = L.LLVMGlobalGetValueType(f)
            fn.ret = self.ty(L.LLVMGetReturnType(fty))
            fn.internal = L.LLVMGetLinkage(f) in (8, 9)
            fn.params = []
            fn.byval = {}
            fn.blocks = []
            fn.cache = {}
            ids = {}
            np_ = L.LLVMCountParams(f)
            for i in range(np_):
                p = L.LLVMGetParam(f, i)
                ids[p] = i
                fn.params.append(Ref(i, self.ty(L.LLVMTypeOf(p))))
                a = L.LLVMGetEnumAttributeAtIndex(f, i + 1, byval_kind)
                if a:
                    fn.byval[i] = self.ty(L.LLVMGetTypeAttributeValue(a))
            if not fn.decl:
                self._body(f, fn, ids)
            m.funcs[fn.name] = fn
            f = L.LLVMGetNextFunction(f)
        return m

    def _body(self, f, fn, ids):
        blocks = []
        b = L.LLVMGetFirstBasicBlock(f)
        bidx = {}
        nid = len(fn.params)
        raw = []
        while b:
            bidx[b] = len(blocks)
            bl = Block()
            bl.idx = len(blocks)
            bl.insts = []
            bl.fn = fn
            blocks.append(bl)
            i = L.LLVMGetFirstInstruction(b)
            ri = []
            while i:
                ids[i] = nid
                nid += 1
                ri.append(i)
                i = L.LLVMGetNextInstruction(i)
            raw.append((b, ri))
            b = L.LLVMGetNextBasicBlock(b)
        fn.nvals = nid

        def operand(v):
            if v in ids:
                return Ref(ids[v], self.ty(L.LLVMTypeOf(v)))
            if v in bidx:
                return bidx[v]
            if L.LLVMIsConstant(v):
                return self.const(v)
            ty = self.ty(L.LLVMTypeOf(v))
            return Const("meta", None, ty)

        for bl, (b, ri) in zip(blocks, raw):
            term = L.LLVMGetBasicBlockTerminator(b)
            bl.succs = [bidx[L.LLVMGetSuccessor(term, k)] for k in range(L.LLVMGetNumSuccessors(term))] if term else []
            for i in ri:
                ins = Inst()
                ins.id = ids[i]
                ins.fn = fn.name
                ins.block = bl.idx
                oc = L.LLVMGetInstructionOpcode(i)
                ins.op = OPC.get(oc, f"op{oc}")
                ins.ty = self.ty(L.LLVMTypeOf(i))
                ins.line = L.LLVMGetDebugLocLine(i)
                ins.col = L.LLVMGetDebugLocColumn(i)
                n = C.c_uint()
                p = L.LLVMGetDebugLocFilename(i, C.byref(n))
                ins.file = os.path.basename(C.string_at(p, n.value).decode()) if p else ""
                ins.x = None
                if ins.op == "phi":
                    ins.ops = [(bidx[L.LLVMGetIncomingBlock(i, k)], operand(L.LLVMGetIncomingValue(i, k)))
                               for k in range(L.LLVMCountIncoming(i))]
                elif ins.op == "br":
                    if L.LLVMIsConditional(i):
                        ins.ops = [operand(L.LLVMGetCondition(i))]
                    else:
                        ins.ops = []
                elif ins.op == "switch":
                    no = L.LLVMGetNumOperands(i)
                    ins.ops = [operand(L.LLVMGetOperand(i, 0))]
                    cases = []
                    for k in range(2, no, 2):
                        cases.append((operand(L.LLVMGetOperand(i, k)).val, bidx[L.LLVMGetOperand(i, k + 1)]))
                    # operand 1 is the default destination
                    ins.x = (bidx[L.LLVMGetOperand(i, 1)], cases)
                elif ins.op == "call":
                    cv = L.LLVMGetCalledValue(i)
                    na = L.LLVMGetNumArgOperands(i)
                    ins.ops = [operand(L.LLVMGetOperand(i, k)) for k in range(na)]
                    ins.x = operand(cv) if not L.LLVMIsAFunction(cv) else Const("func", self.name(cv), None)
                else:
                    no = L.LLVMGetNumOperands(i)
                    ins.ops = [operand(L.LLVMGetOperand(i, k)) for k in range(no)]
                    if ins.op == "icmp":
                        ins.x = ICMP[L.LLVMGetICmpPredicate(i)]
                    elif ins.op == "fcmp":
                        ins.x = FCMP[L.LLVMGetFCmpPredicate(i)]
                    elif ins.op == "gep":
                        ins.x = self.ty(L.LLVMGetGEPSourceElementType(i))
                    elif ins.op == "alloca":
                        ins.x = self.ty(L.LLVMGetAllocatedType(i))
                    elif ins.op in ("extractvalue", "insertvalue"):
                        nn = L.LLVMGetNumIndices(i)
                        pp = L.LLVMGetIndices(i)
                        ins.x = [pp[k] for k in range(nn)]
                bl.insts.append(ins)
        for bl in blocks:
            bl.preds = []
        for bl in blocks:
            for s in bl.succs:
                if bl.idx not in blocks[s].preds:
                    blocks[s].preds.append(bl.idx)
        fn.blocks = blocks
        analyse_cfg(fn)


def analyse_cfg(fn):
    """RPO, natural loops (nested), live-in sets."""
    n = len(fn.blocks)
    seen = [False] * n
    post = []
    stack = [(0, iter(fn.blocks[0].succs))]
    seen[0] = True
    while stack:
        b, it = stack[-1]
        for s in it:
            if not seen[s]:
                seen[s] = True
                stack.append((s, iter(fn.blocks[s].succs)))
                break
        else:
            post.append(b)
            stack.pop()
    rpo = post[::-1]
    fn.rpo = rpo
    order = {b: i for i, b in enumerate(rpo)}
    # dominators
    idom = {rpo[0]: rpo[0]}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for p in fn.blocks[b].preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while order[x] > order[y]:
                                x = idom[x]
                            while order[y] > order[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == rpo[0]:
                return False
            b = idom[b]

    fn.cache["dom"] = dom
    loops = {}
    for b in rpo:
        for s in fn.blocks[b].succs:
            if s in idom and dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(p for p in fn.blocks[x].preds if p in order)
            elif order[s] <= order[b]:
                raise RuntimeError(f"irreducible control flow in {fn.name}")
    fn.loops = loops
    fn.loop_of = {}
    for b in rpo:
        inner = None
        for h, body in loops.items():
            if b in body and (inner is None or len(body) < len(loops[inner])):
                inner = h
        fn.loop_of[b] = inner
    # liveness
    use = {}
    deff = {}
    phi_use = {}
    for b in rpo:
        u, d = set(), set()
        for ins in fn.blocks[b].insts:
            if ins.op == "phi":
                for (pb, v) in ins.ops:
                    if isinstance(v, Ref):
                        phi_use.setdefault(pb, set()).add(v.id)
                d.add(ins.id)
                continue
            ops = list(ins.ops)
            if ins.op == "call" and isinstance(ins.x, Ref):
                ops.append(ins.x)
            for o in ops:
                if isinstance(o, Ref) and o.id not in d:
                    u.add(o.id)
            d.add(ins.id)
        use[b], deff[b] = u, d
    live_in = {b: set() for b in rpo}
    changed = True
    while changed:
        changed = False
        for b in reversed(rpo):
            out = set(phi_use.get(b, ()))
            for s in fn.blocks[b].succs:
                out |= live_in[s]
            li = use[b] | (out - deff[b])
            if li != live_in[b]:
                live_in[b] = li
                changed = True
    # a phi's own id is live at block entry once evaluated on the edge
    fn.live_in = {}
    for b in rpo:
        s = set(live_in[b])
        for ins in fn.blocks[b].insts:
            if ins.op == "phi":
                s.add(ins.id)
        fn.live_in[b] = s


def load(path):
    return Loader(path).run()
