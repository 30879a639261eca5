"""Loads LLVM bitcode into plain Python objects through the LLVM 18 C API (ctypes).

Only facts about the program text are read; nothing is executed."""
import ctypes as C, ctypes.util, re

_L = C.CDLL('/usr/lib/llvm-18/lib/libLLVM.so.18.1')
P = C.c_void_p


def _fn(name, res, *args):
    f = getattr(_L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


U = C.c_uint
UP = C.POINTER(C.c_uint)
STR = C.c_char_p
SZP = C.POINTER(C.c_size_t)

_g = {}
for n, r, a in [
    ('LLVMContextCreate', P, ()),
    ('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, (STR, C.POINTER(P), C.POINTER(C.c_char_p))),
    ('LLVMParseBitcodeInContext2', C.c_int, (P, P, C.POINTER(P))),
    ('LLVMGetModuleDataLayout', P, (P,)),
    ('LLVMGetFirstFunction', P, (P,)), ('LLVMGetNextFunction', P, (P,)),
    ('LLVMGetFirstGlobal', P, (P,)), ('LLVMGetNextGlobal', P, (P,)),
    ('LLVMGetFirstGlobalAlias', P, (P, )), ('LLVMGetNextGlobalAlias', P, (P,)), ('LLVMAliasGetAliasee', P, (P,)),
    ('LLVMGetInitializer', P, (P,)), ('LLVMIsGlobalConstant', C.c_int, (P,)),
    ('LLVMGlobalGetValueType', P, (P,)),
    ('LLVMGetValueName2', C.c_void_p, (P, SZP)),
    ('LLVMIsDeclaration', C.c_int, (P,)),
    ('LLVMGetLinkage', C.c_int, (P,)),
    ('LLVMCountParams', U, (P,)), ('LLVMGetParam', P, (P, U)),
    ('LLVMGetFirstBasicBlock', P, (P,)), ('LLVMGetNextBasicBlock', P, (P,)),
    ('LLVMGetFirstInstruction', P, (P,)), ('LLVMGetNextInstruction', P, (P,)),
    ('LLVMGetInstructionOpcode', C.c_int, (P,)),
    ('LLVMGetNumOperands', C.c_int, (P,)), ('LLVMGetOperand', P, (P, U)),
    ('LLVMTypeOf', P, (P,)), ('LLVMGetTypeKind', C.c_int, (P,)),
    ('LLVMGetIntTypeWidth', U, (P,)),
    ('LLVMCountStructElementTypes', U, (P,)), ('LLVMStructGetTypeAtIndex', P, (P, U)),
    ('LLVMGetArrayLength2', C.c_uint64, (P,)), ('LLVMGetElementType', P, (P,)),
    ('LLVMGetVectorSize', U, (P,)),
    ('LLVMABISizeOfType', C.c_ulonglong, (P, P)), ('LLVMStoreSizeOfType', C.c_ulonglong, (P, P)),
    ('LLVMOffsetOfElement', C.c_ulonglong, (P, P, U)),
    ('LLVMTypeIsSized', C.c_int, (P,)),
    ('LLVMGetICmpPredicate', C.c_int, (P,)), ('LLVMGetFCmpPredicate', C.c_int, (P,)),
    ('LLVMGetOrdering', C.c_int, (P,)), ('LLVMGetVolatile', C.c_int, (P,)),
    ('LLVMGetCmpXchgSuccessOrdering', C.c_int, (P,)), ('LLVMGetCmpXchgFailureOrdering', C.c_int, (P,)),
    ('LLVMGetAtomicRMWBinOp', C.c_int, (P,)),
    ('LLVMGetGEPSourceElementType', P, (P,)),
    ('LLVMGetAllocatedType', P, (P,)),
    ('LLVMGetNumIndices', U, (P,)), ('LLVMGetIndices', UP, (P,)),
    ('LLVMCountIncoming', U, (P,)), ('LLVMGetIncomingValue', P, (P, U)), ('LLVMGetIncomingBlock', P, (P, U)),
    ('LLVMGetNumSuccessors', U, (P,)), ('LLVMGetSuccessor', P, (P, U)),
    ('LLVMGetCalledValue', P, (P,)), ('LLVMGetNumArgOperands', U, (P,)),
    ('LLVMGetNormalDest', P, (P,)), ('LLVMGetUnwindDest', P, (P,)),
    ('LLVMGetCalledFunctionType', P, (P,)),
    ('LLVMIsAConstantInt', P, (P,)), ('LLVMIsAConstant', P, (P,)), ('LLVMIsAConstantExpr', P, (P,)),
    ('LLVMIsAConstantPointerNull', P, (P,)), ('LLVMIsUndef', C.c_int, (P,)), ('LLVMIsPoison', C.c_int, (P,)),
    ('LLVMIsAConstantAggregateZero', P, (P,)), ('LLVMIsAConstantFP', P, (P,)),
    ('LLVMIsAGlobalValue', P, (P,)), ('LLVMIsAFunction', P, (P,)), ('LLVMIsABasicBlock', P, (P,)),
    ('LLVMIsAInlineAsm', P, (P,)), ('LLVMIsAGlobalAlias', P, (P,)),
    ('LLVMConstIntGetZExtValue', C.c_ulonglong, (P,)),
    ('LLVMGetConstOpcode', C.c_int, (P,)),
    ('LLVMGetAggregateElement', P, (P, U)),
    ('LLVMPrintValueToString', P, (P,)), ('LLVMPrintTypeToString', P, (P,)), ('LLVMDisposeMessage', None, (P,)),
    ('LLVMGetDebugLocLine', U, (P,)), ('LLVMGetDebugLocFilename', P, (P, UP)), ('LLVMGetDebugLocDirectory', P, (P, UP)),
    ('LLVMGetSubprogram', P, (P,)), ('LLVMDISubprogramGetLine', U, (P,)), ('LLVMDIScopeGetFile', P, (P,)),
    ('LLVMDIFileGetFilename', P, (P, UP)), ('LLVMDIFileGetDirectory', P, (P, UP)),
    ('LLVMConstRealGetDouble', C.c_double, (P, C.POINTER(C.c_int))),
    ('LLVMGetNSW', C.c_int, (P,)), ('LLVMGetNUW', C.c_int, (P,)),
    ('LLVMIsGlobalConstant', C.c_int, (P,)),
    ('LLVMGetThreadLocalMode', C.c_int, (P,)),
    ('LLVMGetFirstUse', P, (P,)), ('LLVMGetNextUse', P, (P,)), ('LLVMGetUser', P, (P,)),
    ('LLVMIsAInstruction', P, (P,)),
    ('LLVMGlobalCopyAllMetadata', P, (P, SZP)), ('LLVMValueMetadataEntriesGetMetadata', P, (P, U)), ('LLVMDisposeValueMetadataEntries', None, (P,)),
    ('LLVMDIGlobalVariableExpressionGetVariable', P, (P,)), ('LLVMDIVariableGetFile', P, (P,)),
]:
    try:
        _g[n] = _fn(n, r, *a)
    except AttributeError:
        _g[n] = None
globals().update(_g)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 67: 'callbr',
       66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv',
       16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or',
       25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext',
       33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint',
       40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call',
       46: 'select', 47: 'userop1', 48: 'userop2', 49: 'vaarg', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg',
       57: 'atomicrmw', 58: 'resume', 59: 'landingpad', 61: 'cleanupret', 62: 'catchret', 63: 'catchpad',
       64: 'cleanuppad', 65: 'catchswitch'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
ORD = {0: 'na', 1: 'unordered', 2: 'monotonic', 4: 'acquire', 5: 'release', 6: 'acq_rel', 7: 'seq_cst'}
RMW = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 4: 'nand', 5: 'or', 6: 'xor', 7: 'max', 8: 'min', 9: 'umax', 10: 'umin'}
TERMS = ('ret', 'br', 'switch', 'invoke', 'unreachable', 'resume', 'indirectbr')


class Ty:
    """kind: i,p,f,s,a,v(oid),o(ther)"""
    __slots__ = ('k', 'w', 'elems', 'n', 'size', 'store')

    def __init__(self, k, w=0, elems=(), n=0, size=0, store=0):
        self.k, self.w, self.elems, self.n, self.size, self.store = k, w, elems, n, size, store

    def __repr__(self):
        return {'i': 'i%d' % self.w, 'p': 'ptr', 'f': 'f%d' % self.w, 'v': 'void'}.get(
            self.k, '%s%r' % (self.k, list(self.elems) if self.k == 's' else self.n))


class Ins:
    __slots__ = ('op', 'id', 'ty', 'ops', 'x', 'file', 'line', 'fn', 'blk', 'idx')

    def __repr__(self):
        return '%%%s = %s %s %s %s' % (self.id, self.op, self.ty, self.ops, self.x)


class Blk:
    __slots__ = ('i', 'phis', 'ins', 'loophead', 'inloop', 'counters')


class Fn:
    __slots__ = ('name', 'dem', 'ref', 'mod', 'nparams', 'blocks', 'params', 'file', 'line', 'decl', 'linkage', '_heads', 'live')


def _s(ptr, n=None):
    if not ptr:
        return ''
    return (C.string_at(ptr, n) if n is not None else C.string_at(ptr)).decode('utf8', 'replace')


_cxa = None


def demangle(n):
    global _cxa
    if not n.startswith('_Z'):
        return n
    if _cxa is None:
        lib = C.CDLL('libstdc++.so.6')
        _cxa = lib.__cxa_demangle
        _cxa.restype = P
        _cxa.argtypes = [STR, P, P, C.POINTER(C.c_int)]
    st = C.c_int(0)
    r = _cxa(n.encode(), None, None, C.byref(st))
    if st.value != 0 or not r:
        return n
    return C.string_at(r).decode()


class Module:
    def __init__(self, path):
        self.path = path
        self.ctx = LLVMContextCreate()
        buf = P()
        err = C.c_char_p()
        if LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError('cannot read %s: %s' % (path, err.value))
        m = P()
        if LLVMParseBitcodeInContext2(self.ctx, buf, C.byref(m)):
            raise RuntimeError('cannot parse ' + path)
        self.m = m
        self.td = LLVMGetModuleDataLayout(m)
        self._ty = {}
        self.fns = {}
        self.globals = {}
        self._mem = {}
        self.aliases = {}
        f = LLVMGetFirstFunction(m)
        while f:
            fn = Fn()
            fn.name = self._name(f)
            fn.dem = demangle(fn.name)
            fn.ref = f
            fn.mod = self
            fn.nparams = LLVMCountParams(f)
            fn.decl = bool(LLVMIsDeclaration(f))
            fn.blocks = None
            fn._heads = None
            fn.file, fn.line = '', 0
            sp = LLVMGetSubprogram(f)
            if sp:
                fn.line = LLVMDISubprogramGetLine(sp)
                fl = LLVMDIScopeGetFile(sp)
                if fl:
                    n = C.c_uint()
                    d = _s(LLVMDIFileGetDirectory(fl, C.byref(n)), n.value)
                    fnm = LLVMDIFileGetFilename(fl, C.byref(n))
                    fn.file = self._path(d, _s(fnm, n.value))
            self.fns[fn.name] = fn
            f = LLVMGetNextFunction(f)
        g = LLVMGetFirstGlobal(m)
        while g:
            self.globals[self._name(g)] = g
            g = LLVMGetNextGlobal(g)
        g = LLVMGetFirstGlobalAlias(m)
        while g:
            self.aliases[self._name(g)] = self._name(LLVMAliasGetAliasee(g))
            g = LLVMGetNextGlobalAlias(g)
        self._loc = {}

    @staticmethod
    def _path(d, f):
        if f.startswith('/') or not d:
            p = f
        else:
            p = d + '/' + f
        import os
        return os.path.normpath(p)

    def _name(self, v):
        n = C.c_size_t()
        p = LLVMGetValueName2(v, C.byref(n))
        return _s(p, n.value)

    # ---- types
    def ty(self, t):
        r = self._ty.get(t)
        if r is not None:
            return r
        k = LLVMGetTypeKind(t)
        size = store = 0
        if LLVMTypeIsSized(t):
            size = LLVMABISizeOfType(self.td, t)
            store = LLVMStoreSizeOfType(self.td, t)
        if k == 8:
            r = Ty('i', LLVMGetIntTypeWidth(t), size=size, store=store)
        elif k == 12:
            r = Ty('p', 64, size=8, store=8)
        elif k == 0:
            r = Ty('v')
        elif k in (1, 2, 3, 4, 5, 6):
            r = Ty('f', {1: 16, 2: 32, 3: 64, 4: 80, 5: 128, 6: 128}[k], size=size, store=store)
        elif k == 10:
            n = LLVMCountStructElementTypes(t)
            el = []
            for i in range(n):
                et = self.ty(LLVMStructGetTypeAtIndex(t, i))
                el.append((LLVMOffsetOfElement(self.td, t, i), et))
            r = Ty('s', elems=tuple(el), n=n, size=size, store=store)
        elif k == 11:
            n = LLVMGetArrayLength2(t)
            r = Ty('a', elems=(self.ty(LLVMGetElementType(t)),), n=n, size=size, store=store)
        elif k == 13:
            n = LLVMGetVectorSize(t)
            r = Ty('x', elems=(self.ty(LLVMGetElementType(t)),), n=n, size=size, store=store)
        else:
            r = Ty('o')
        self._ty[t] = r
        return r

    # ---- constants / operands
    def const(self, v):
        """constant -> ('c',int,w) ('g',name,off) ('undef',ty) ('zero',ty) ('agg',ty,[..]) ('f',) ('asm',)"""
        t = self.ty(LLVMTypeOf(v))
        if LLVMIsAConstantInt(v):
            if t.w <= 64:
                return ('c', LLVMConstIntGetZExtValue(v), t.w)
            s = LLVMPrintValueToString(v)
            txt = _s(s)
            LLVMDisposeMessage(s)
            return ('c', int(txt.split()[-1]) & ((1 << t.w) - 1), t.w)
        if LLVMIsAConstantPointerNull(v):
            return ('c', 0, 64)
        if LLVMIsUndef(v):
            return ('undef', t)
        if LLVMIsAInlineAsm(v):
            return ('asm',)
        if LLVMIsAGlobalValue(v):
            n = self._name(v)
            seen = set()
            while n in self.aliases and n not in seen:
                seen.add(n)
                n = self.aliases[n]
            return ('g', n, 0)
        if LLVMIsAConstantAggregateZero(v):
            return ('zero', t)
        if LLVMIsAConstantFP(v):
            li = C.c_int()
            return ('f', LLVMConstRealGetDouble(v, C.byref(li)), t.w)
        if LLVMIsAConstantExpr(v):
            op = OPC.get(LLVMGetConstOpcode(v))
            if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return self.const(LLVMGetOperand(v, 0))
            if op == 'gep':
                base = self.const(LLVMGetOperand(v, 0))
                off = self._gep_const(v)
                if base[0] == 'g':
                    return ('g', base[1], base[2] + off)
                if base[0] == 'c':
                    return ('c', (base[1] + off) & ((1 << 64) - 1), 64)
            if op in ('add', 'sub'):
                a = self.const(LLVMGetOperand(v, 0))
                b = self.const(LLVMGetOperand(v, 1))
                s = 1 if op == 'add' else -1
                if a[0] == 'g' and b[0] == 'c':
                    return ('g', a[1], a[2] + s * b[1])
            return ('undef', t)
        n = LLVMGetNumOperands(v)
        if t.k in ('s', 'a', 'x'):
            cnt = t.n
            return ('agg', t, [self.const(LLVMGetAggregateElement(v, i)) for i in range(cnt)])
        return ('undef', t)

    def _gep_const(self, v):
        t = LLVMGetGEPSourceElementType(v)
        n = LLVMGetNumOperands(v)
        off = 0
        cur = t
        for i in range(1, n):
            c = self.const(LLVMGetOperand(v, i))
            val = c[1]
            if val >= 1 << (c[2] - 1):
                val -= 1 << c[2]
            if i == 1:
                off += val * LLVMABISizeOfType(self.td, cur)
            elif LLVMGetTypeKind(cur) == 10:
                off += LLVMOffsetOfElement(self.td, cur, val)
                cur = LLVMStructGetTypeAtIndex(cur, val)
            else:
                cur = LLVMGetElementType(cur)
                off += val * LLVMABISizeOfType(self.td, cur)
        return off

    def global_file(self, name):
        """where a global is defined, if it says so"""
        g = self.globals.get(name)
        n = C.c_size_t()
        es = LLVMGlobalCopyAllMetadata(g, C.byref(n)) if g else None
        if not es:
            return ''
        p = ''
        for i in range(n.value):
            v = LLVMDIGlobalVariableExpressionGetVariable(LLVMValueMetadataEntriesGetMetadata(es, i))
            f = LLVMDIVariableGetFile(v) if v else None
            if f:
                k = C.c_uint()
                d = _s(LLVMDIFileGetDirectory(f, C.byref(k)), k.value)
                p = self._path(d, _s(LLVMDIFileGetFilename(f, C.byref(k)), k.value))
        LLVMDisposeValueMetadataEntries(es)
        return p

    def written(self, v, depth=0):
        """may anything be stored into the global, as far as its uses tell"""
        u = LLVMGetFirstUse(v)
        while u:
            w = LLVMGetUser(u)
            if LLVMIsAInstruction(w):
                op = OPC.get(LLVMGetInstructionOpcode(w))
                if op in ('getelementptr', 'bitcast', 'addrspacecast'):
                    if depth > 4 or self.written(w, depth + 1):
                        return True
                elif op not in ('load', 'icmp'):
                    return True
            elif LLVMIsAConstantExpr(w) and (depth > 4 or self.written(w, depth + 1)):
                return True
            u = LLVMGetNextUse(u)
        return False

    def numeric(self, t):
        if t.k in ('i', 'f'):
            return True
        if t.k == 's':
            return all(self.numeric(e) for _, e in t.elems)
        return t.k == 'a' and self.numeric(t.elems[0])

    def remembers(self, name, src):
        """numbers that functions of the library keep between calls: any value is possible when an analysis starts"""
        r = self._mem.get(name)
        if r is None:
            g = self.globals[name]
            k = '_Z' + name[4:] if name.startswith('_ZGV') else name
            r = self._mem[name] = bool(k in self.globals and not LLVMIsGlobalConstant(g) and LLVMGetInitializer(g) and self.global_file(k).startswith(src)
                                       and self.numeric(self.ty(LLVMGlobalGetValueType(g))) and self.written(g))
        return r

    def global_init(self, name):
        """-> (Ty, const-descriptor or None, is_constant)"""
        g = self.globals[name]
        t = self.ty(LLVMGlobalGetValueType(g))
        i = LLVMGetInitializer(g)
        return t, (self.const(i) if i else None), bool(LLVMIsGlobalConstant(g))

    # ---- function bodies
    def body(self, fn):
        if fn.blocks is not None:
            return fn.blocks
        if fn.decl:
            fn.blocks = []
            return fn.blocks
        ids = {}
        fn.params = []
        for i in range(fn.nparams):
            p = LLVMGetParam(fn.ref, i)
            ids[p] = len(ids)
            fn.params.append((ids[p], self.ty(LLVMTypeOf(p))))
        bidx = {}
        blks = []
        b = LLVMGetFirstBasicBlock(fn.ref)
        while b:
            bidx[b] = len(blks)
            blks.append(b)
            i = LLVMGetFirstInstruction(b)
            while i:
                ids[i] = len(ids)
                i = LLVMGetNextInstruction(i)
            b = LLVMGetNextBasicBlock(b)

        def operand(v):
            r = ids.get(v)
            if r is not None:
                return ('r', r)
            if LLVMIsABasicBlock(v):
                return ('b', bidx[v])
            if LLVMIsAConstant(v) or LLVMIsAInlineAsm(v):
                return self.const(v)
            return ('meta',)
        out = []
        for bi, b in enumerate(blks):
            bl = Blk()
            bl.i = bi
            bl.phis = []
            bl.ins = []
            bl.loophead = False
            i = LLVMGetFirstInstruction(b)
            while i:
                ins = Ins()
                ins.id = ids[i]
                ins.op = OPC.get(LLVMGetInstructionOpcode(i), '?')
                ins.ty = self.ty(LLVMTypeOf(i))
                ins.x = None
                ins.fn = fn
                ins.blk = bi
                ins.line = LLVMGetDebugLocLine(i)
                ln = C.c_uint()
                fp = LLVMGetDebugLocFilename(i, C.byref(ln)) if ins.line else None
                if fp:
                    key = _s(fp, ln.value)
                    dp = LLVMGetDebugLocDirectory(i, C.byref(ln))
                    ins.file = self._path(_s(dp, ln.value), key)
                else:
                    ins.file = fn.file
                    if not ins.line:
                        ins.line = 0
                op = ins.op
                if op == 'phi':
                    ins.ops = {}
                    for k in range(LLVMCountIncoming(i)):
                        ins.ops[bidx[LLVMGetIncomingBlock(i, k)]] = operand(LLVMGetIncomingValue(i, k))
                    bl.phis.append(ins)
                    i = LLVMGetNextInstruction(i)
                    continue
                if op in ('call', 'invoke'):
                    n = LLVMGetNumArgOperands(i)
                    ins.ops = [operand(LLVMGetOperand(i, k)) for k in range(n)]
                    ins.x = [operand(LLVMGetCalledValue(i)), [self.ty(LLVMTypeOf(LLVMGetOperand(i, k))) for k in range(n)], None, None]
                    if op == 'invoke':
                        ins.x[2] = bidx[LLVMGetNormalDest(i)]
                        ins.x[3] = bidx[LLVMGetUnwindDest(i)]
                elif op == 'br':
                    n = LLVMGetNumSuccessors(i)
                    succ = [bidx[LLVMGetSuccessor(i, k)] for k in range(n)]
                    ins.ops = [operand(LLVMGetOperand(i, 0))] if n == 2 else []
                    ins.x = succ
                elif op == 'switch':
                    n = LLVMGetNumSuccessors(i)
                    ins.ops = [operand(LLVMGetOperand(i, 0))]
                    cases = []
                    for k in range(1, n):
                        cases.append((self.const(LLVMGetOperand(i, 2 * k))[1], bidx[LLVMGetSuccessor(i, k)]))
                    ins.x = (bidx[LLVMGetSuccessor(i, 0)], cases, self.ty(LLVMTypeOf(LLVMGetOperand(i, 0))).w)
                else:
                    n = LLVMGetNumOperands(i)
                    ins.ops = [operand(LLVMGetOperand(i, k)) for k in range(n)]
                    if op == 'icmp':
                        t0 = self.ty(LLVMTypeOf(LLVMGetOperand(i, 0)))
                        ins.x = (PRED[LLVMGetICmpPredicate(i)], t0.w or 64)
                    elif op == 'load':
                        ins.x = (ORD.get(LLVMGetOrdering(i), '?'), bool(LLVMGetVolatile(i)))
                    elif op == 'store':
                        ins.x = (ORD.get(LLVMGetOrdering(i), '?'), self.ty(LLVMTypeOf(LLVMGetOperand(i, 0))), bool(LLVMGetVolatile(i)))
                    elif op == 'cmpxchg':
                        ins.x = (ORD[LLVMGetCmpXchgSuccessOrdering(i)], ORD[LLVMGetCmpXchgFailureOrdering(i)],
                                 self.ty(LLVMTypeOf(LLVMGetOperand(i, 1))))
                    elif op == 'atomicrmw':
                        ins.x = (ORD[LLVMGetOrdering(i)], RMW.get(LLVMGetAtomicRMWBinOp(i), '?'), self.ty(LLVMTypeOf(LLVMGetOperand(i, 1))))
                    elif op == 'alloca':
                        ins.x = self.ty(LLVMGetAllocatedType(i))
                    elif op == 'gep':
                        ins.x = self._gep(i, ins)
                    elif op in ('extractvalue', 'insertvalue'):
                        k = LLVMGetNumIndices(i)
                        p = LLVMGetIndices(i)
                        ins.x = [p[q] for q in range(k)]
                    elif op in ('trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr') or op.startswith('fp') or op.endswith('fp'):
                        ins.x = self.ty(LLVMTypeOf(LLVMGetOperand(i, 0)))
                    elif op in ('add', 'sub', 'mul', 'shl'):
                        ins.x = bool(LLVMGetNSW(i))
                    elif op == 'ret':
                        ins.x = n
                if op == 'call' and ins.x[0][0] == 'g' and ins.x[0][1].startswith(('llvm.dbg.', 'llvm.lifetime.', 'llvm.assume', 'llvm.experimental.noalias')):
                    i = LLVMGetNextInstruction(i)
                    continue
                ins.idx = len(bl.ins)
                bl.ins.append(ins)
                i = LLVMGetNextInstruction(i)
            out.append(bl)
        fn.blocks = out
        self._loopheads(fn)
        return out

    def _gep(self, i, ins):
        """-> (const offset, [(scale, operand-index, width)], array) where array is None or
        (const offset of the innermost indexed array, number of variable terms before it, its size in bytes)"""
        cur = LLVMGetGEPSourceElementType(i)
        n = LLVMGetNumOperands(i)
        off = 0
        var = []
        arr = None
        for k in range(1, n):
            o = LLVMGetOperand(i, k)
            t = self.ty(LLVMTypeOf(o))
            if k == 1:
                sc = LLVMABISizeOfType(self.td, cur)
            elif LLVMGetTypeKind(cur) == 10:
                val = LLVMConstIntGetZExtValue(o)
                off += LLVMOffsetOfElement(self.td, cur, val)
                cur = LLVMStructGetTypeAtIndex(cur, val)
                continue
            else:
                lim = LLVMGetArrayLength2(cur) if LLVMGetTypeKind(cur) == 11 else None
                cur = LLVMGetElementType(cur)
                sc = LLVMABISizeOfType(self.td, cur)
                if lim:
                    arr = (off, len(var), lim * sc)
            if LLVMIsAConstantInt(o):
                val = LLVMConstIntGetZExtValue(o)
                if val >= 1 << (t.w - 1):
                    val -= 1 << t.w
                off += val * sc
            else:
                var.append((sc, k, t.w))
        return (off, var, arr)

    def _loopheads(self, fn):
        succ = {}
        for b in fn.blocks:
            t = b.ins[-1]
            if t.op == 'br':
                s = t.x
            elif t.op == 'switch':
                s = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == 'invoke':
                s = [t.x[2], t.x[3]]
            else:
                s = []
            succ[b.i] = s
        color = {}
        back = []
        st = [(0, iter(succ[0]))]
        color[0] = 1
        while st:
            n, it = st[-1]
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1
                    st.append((s, iter(succ[s])))
                    break
                elif color[s] == 1:
                    fn.blocks[s].loophead = True
                    back.append((n, s))
            else:
                color[n] = 2
                st.pop()
        preds = {}
        for b, ss in succ.items():
            for q in ss:
                preds.setdefault(q, []).append(b)
        for b in fn.blocks:
            b.inloop = None
        for u, h in back:
            body = fn.blocks[h].inloop or {h}
            wl = [u]
            while wl:
                x = wl.pop()
                if x in body:
                    continue
                body.add(x)
                wl.extend(preds.get(x, ()))
            fn.blocks[h].inloop = body
        # registers that only count
        by = {i.id: i for b in fn.blocks for i in b.ins}
        for b in fn.blocks:
            b.counters = set()
            for p in b.phis:
                for pb, o in p.ops.items():
                    d = by.get(o[1]) if o[0] == 'r' and b.inloop and pb in b.inloop else None
                    if d is not None and d.op in ('add', 'sub') and ('r', p.id) in [x[:2] for x in d.ops] and any(x[0] == 'c' for x in d.ops):
                        b.counters.add(p.id)
        # liveness of registers at loop heads (for joins)
        use = {}
        dfn = {}
        phiuse = {}
        for b in fn.blocks:
            u, d = set(), set()
            for p in b.phis:
                d.add(p.id)
                for pb, o in p.ops.items():
                    if o[0] == 'r':
                        phiuse.setdefault(pb, set()).add(o[1])
            for i in b.ins:
                for o in i.ops:
                    if o[0] == 'r' and o[1] not in d:
                        u.add(o[1])
                if i.op in ('call', 'invoke') and i.x[0][0] == 'r' and i.x[0][1] not in d:
                    u.add(i.x[0][1])
                d.add(i.id)
            use[b.i], dfn[b.i] = u, d
        live_in = {b.i: set(use[b.i]) for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.blocks):
                out = set(phiuse.get(b.i, ()))
                for s in succ[b.i]:
                    out |= live_in[s]
                n = use[b.i] | (out - dfn[b.i])
                if not n <= live_in[b.i]:
                    live_in[b.i] |= n
                    ch = True
        fn.live = live_in
