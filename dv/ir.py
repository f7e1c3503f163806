"""LLVM IR of /repo's sources, through libLLVM's C API, decoded into plain Python objects."""
import ctypes as C
import os
import subprocess
import tempfile
import hashlib

L = None


REPO = os.environ.get('DV_REPO', '/repo')


class IRError(Exception):
    pass


def _lib():
    global L
    if L is not None:
        return L
    for p in ('/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM.so', 'libLLVM-18.so', 'libLLVM.so.18.1'):
        try:
            L = C.CDLL(p)
            break
        except OSError:
            continue
    if L is None:
        raise IRError('libLLVM not found')
    P = C.c_void_p
    U = C.c_uint
    for n, res, args in [
        ('LLVMContextCreate', P, []),
        ('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, [C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p)]),
        ('LLVMParseIRInContext', C.c_int, [P, P, C.POINTER(P), C.POINTER(C.c_char_p)]),
        ('LLVMGetModuleDataLayout', P, [P]),
        ('LLVMABISizeOfType', C.c_ulonglong, [P, P]),
        ('LLVMStoreSizeOfType', C.c_ulonglong, [P, P]),
        ('LLVMSizeOfTypeInBits', C.c_ulonglong, [P, P]),
        ('LLVMABIAlignmentOfType', U, [P, P]),
        ('LLVMOffsetOfElement', C.c_ulonglong, [P, P, U]),
        ('LLVMGetFirstFunction', P, [P]), ('LLVMGetNextFunction', P, [P]),
        ('LLVMGetFirstGlobal', P, [P]), ('LLVMGetNextGlobal', P, [P]),
        ('LLVMGetFirstGlobalAlias', P, [P]), ('LLVMGetNextGlobalAlias', P, [P]), ('LLVMAliasGetAliasee', P, [P]),
        ('LLVMGetValueName2', C.c_void_p, [P, C.POINTER(C.c_size_t)]),
        ('LLVMIsDeclaration', C.c_int, [P]),
        ('LLVMGetInitializer', P, [P]), ('LLVMIsGlobalConstant', C.c_int, [P]),
        ('LLVMGlobalGetValueType', P, [P]), ('LLVMGetLinkage', C.c_int, [P]),
        ('LLVMCountParams', U, [P]), ('LLVMGetParam', P, [P, U]),
        ('LLVMGetFirstBasicBlock', P, [P]), ('LLVMGetNextBasicBlock', P, [P]),
        ('LLVMGetFirstInstruction', P, [P]), ('LLVMGetNextInstruction', P, [P]),
        ('LLVMGetInstructionOpcode', C.c_int, [P]), ('LLVMTypeOf', P, [P]), ('LLVMGetTypeKind', C.c_int, [P]),
        ('LLVMGetIntTypeWidth', U, [P]), ('LLVMGetNumOperands', C.c_int, [P]), ('LLVMGetOperand', P, [P, U]),
        ('LLVMGetValueKind', C.c_int, [P]), ('LLVMConstIntGetZExtValue', C.c_ulonglong, [P]),
        ('LLVMIsConstantString', C.c_int, [P]), ('LLVMGetAsString', C.c_void_p, [P, C.POINTER(C.c_size_t)]),
        ('LLVMGetElementAsConstant', P, [P, U]), ('LLVMGetAggregateElement', P, [P, U]),
        ('LLVMGetArrayLength', U, [P]), ('LLVMGetElementType', P, [P]), ('LLVMGetVectorSize', U, [P]),
        ('LLVMCountStructElementTypes', U, [P]), ('LLVMStructGetTypeAtIndex', P, [P, U]),
        ('LLVMGetConstOpcode', C.c_int, [P]), ('LLVMGetGEPSourceElementType', P, [P]),
        ('LLVMGetICmpPredicate', C.c_int, [P]), ('LLVMCountIncoming', U, [P]),
        ('LLVMGetIncomingValue', P, [P, U]), ('LLVMGetIncomingBlock', P, [P, U]),
        ('LLVMGetAllocatedType', P, [P]), ('LLVMGetCalledValue', P, [P]), ('LLVMGetNumArgOperands', U, [P]),
        ('LLVMIsConditional', C.c_int, [P]), ('LLVMGetCondition', P, [P]), ('LLVMGetNumSuccessors', U, [P]),
        ('LLVMGetSuccessor', P, [P, U]), ('LLVMGetDebugLocLine', U, [P]), ('LLVMGetNumMaskElements', U, [P]),
        ('LLVMGetMaskValue', C.c_int, [P, U]), ('LLVMGetNumIndices', U, [P]), ('LLVMGetIndices', C.POINTER(U), [P]),
        ('LLVMGetReturnType', P, [P]), ('LLVMIsUndef', C.c_int, [P]), ('LLVMIsPoison', C.c_int, [P]), ('LLVMIsNull', C.c_int, [P]),
        ('LLVMValueAsBasicBlock', P, [P]), ('LLVMGetBasicBlockParent', P, [P]),
        ('LLVMPrintValueToString', C.c_char_p, [P]), ('LLVMGetIntrinsicID', U, [P]),
    ]:
        f = getattr(L, n)
        f.restype = res
        f.argtypes = args
    return L


OPC = {1: 'ret', 2: 'br', 3: 'switch', 7: 'unreachable', 8: 'add', 10: 'sub', 12: 'mul', 14: 'udiv', 15: 'sdiv',
       17: 'urem', 18: 'srem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca',
       27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 42: 'icmp', 44: 'phi', 45: 'call', 46: 'select', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 56: 'cmpxchg', 57: 'atomicrmw'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
# type kinds
TK = {0: 'void', 8: 'int', 9: 'func', 10: 'struct', 11: 'array', 12: 'ptr', 13: 'vector', 7: 'label', 14: 'metadata', 2: 'float', 3: 'double'}


class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'size', 'align', 'offs')

    def __repr__(self):
        return '%s%s' % (self.k, self.w)


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'ops', 'x', 'line', 'uid')

    def __repr__(self):
        return '%s=%s %r %r L%d' % (self.dst, self.op, self.ops, self.x, self.line)


class Block:
    __slots__ = ('i', 'insts', 'succ', 'pred', 'phis', 'name')


class Fn:
    def __init__(self):
        self.name = None
        self.args = []
        self.blocks = []
        self.mod = None
        self.ret = None


class Global:
    __slots__ = ('name', 'size', 'const', 'init', 'relocs', 'decl', 'linkage', 'mod')


class Module:
    """init: bytes or None; relocs: {off: operand}"""

    def __init__(self, path):
        lib = _lib()
        self.path = path
        ctx = lib.LLVMContextCreate()
        buf = C.c_void_p()
        err = C.c_char_p()
        if lib.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise IRError('cannot read ' + path)
        m = C.c_void_p()
        if lib.LLVMParseIRInContext(ctx, buf, C.byref(m), C.byref(err)):
            raise IRError('cannot parse %s: %s' % (path, err.value))
        self.m = m
        self.td = lib.LLVMGetModuleDataLayout(m)
        self.tys = {}
        self.fns = {}
        self.globals = {}
        self._fnv = {}
        g = lib.LLVMGetFirstGlobal(m)
        gl = []
        while g:
            gl.append(g)
            g = lib.LLVMGetNextGlobal(g)
        self._gl = {}
        for g in gl:
            self._gl[self._name(g)] = g
        f = lib.LLVMGetFirstFunction(m)
        while f:
            self._fnv[self._name(f)] = f
            f = lib.LLVMGetNextFunction(f)
        self.aliases = {}
        a = lib.LLVMGetFirstGlobalAlias(m)
        while a:
            self.aliases[self._name(a)] = self._name(lib.LLVMAliasGetAliasee(a))
            a = lib.LLVMGetNextGlobalAlias(a)

    def _name(self, v):
        n = C.c_size_t()
        p = L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode() if p else ''

    def fn_names(self):
        return [n for n, f in self._fnv.items() if not L.LLVMIsDeclaration(f)]

    def is_defined(self, name):
        f = self._fnv.get(name)
        return f is not None and not L.LLVMIsDeclaration(f)

    def fn(self, name):
        r = self.fns.get(name)
        if r is None:
            r = self.fns[name] = self._decode_fn(name)
        return r

    # ---- types
    def ty(self, t):
        r = self.tys.get(t)
        if r is not None:
            return r
        lib = L
        k = TK.get(lib.LLVMGetTypeKind(t), 'other')
        r = Ty()
        self.tys[t] = r
        r.k = k
        r.w = None
        r.n = 0
        r.el = None
        r.offs = None
        r.size = 0
        r.align = 1
        if k == 'int':
            r.w = lib.LLVMGetIntTypeWidth(t)
        elif k == 'ptr':
            r.w = 64
        elif k == 'vector':
            r.n = lib.LLVMGetVectorSize(t)
            r.el = self.ty(lib.LLVMGetElementType(t))
            r.w = r.n * (r.el.w or 0)
        elif k == 'array':
            r.n = lib.LLVMGetArrayLength(t)
            r.el = self.ty(lib.LLVMGetElementType(t))
        elif k == 'struct':
            r.n = lib.LLVMCountStructElementTypes(t)
            r.el = [self.ty(lib.LLVMStructGetTypeAtIndex(t, i)) for i in range(r.n)]
            r.offs = [lib.LLVMOffsetOfElement(self.td, t, i) for i in range(r.n)]
        if k in ('int', 'ptr', 'vector', 'array', 'struct'):
            r.size = lib.LLVMABISizeOfType(self.td, t)
            r.align = lib.LLVMABIAlignmentOfType(self.td, t)
        return r

    def tyof(self, v):
        return self.ty(L.LLVMTypeOf(v))

    # ---- constants / operands
    def _gep(self, v):
        """-> base operand value, const offset, [(value, stride)]"""
        lib = L
        n = lib.LLVMGetNumOperands(v)
        ty = self.ty(lib.LLVMGetGEPSourceElementType(v))
        off = 0
        var = []
        for i in range(1, n):
            ix = lib.LLVMGetOperand(v, i)
            ck = lib.LLVMGetValueKind(ix)
            if i == 1:
                stride = ty.size
            elif ty.k == 'struct':
                j = lib.LLVMConstIntGetZExtValue(ix)
                off += ty.offs[j]
                ty = ty.el[j]
                continue
            elif ty.k in ('array', 'vector'):
                ty = ty.el
                stride = ty.size
            else:
                raise IRError('gep')
            if ck == 18:   # ConstantInt
                w = self.tyof(ix).w
                c = lib.LLVMConstIntGetZExtValue(ix) & ((1 << w) - 1)
                if c >> (w - 1):
                    c -= 1 << w
                off += c * stride
            else:
                var.append((ix, stride))
        return lib.LLVMGetOperand(v, 0), off, var

    def operand(self, v, names=None):
        lib = L
        k = lib.LLVMGetValueKind(v)
        if names is not None:
            r = names.get(v)
            if r is not None:
                return ('r', r)
        ty = self.tyof(v)
        if k == KIND['ConstantInt']:
            w = ty.w
            if w > 64:
                s = lib.LLVMPrintValueToString(v).decode().split()[-1]
                return ('c', int(s), w)
            return ('c', lib.LLVMConstIntGetZExtValue(v) & ((1 << w) - 1), w)
        if k == KIND['ConstantPointerNull']:
            return ('null',)
        if k in (KIND['Undef'], KIND['Poison']):
            return ('undef', ty)
        if k == KIND['Function']:
            return ('f', self._name(v))
        if k == KIND['GlobalVariable']:
            return ('g', self._name(v), 0)
        if k == KIND['GlobalAlias']:
            return ('f', self.aliases.get(self._name(v), self._name(v)))
        if k == KIND['ConstantExpr']:
            op = OPC.get(lib.LLVMGetConstOpcode(v))
            if op == 'gep':
                b, off, var = self._gep(v)
                if var:
                    raise IRError('constexpr gep with variable')
                o = self.operand(b)
                if o[0] == 'g':
                    return ('g', o[1], o[2] + off)
                if o[0] == 'null':
                    return ('c', off, 64)
                raise IRError('constexpr gep base')
            if op in ('bitcast', 'inttoptr', 'ptrtoint'):
                return self.operand(lib.LLVMGetOperand(v, 0))
            raise IRError('constexpr ' + str(op))
        if k == KIND['ConstantAggregateZero']:
            return ('zero', ty)
        if k in (KIND['ConstantVector'], KIND['ConstantDataVector'], KIND['ConstantStruct'], KIND['ConstantArray'], KIND['ConstantDataArray']):
            n = ty.n
            return ('agg', ty, tuple(self.operand(lib.LLVMGetAggregateElement(v, i)) for i in range(n)))
        if k == KIND['MetadataAsValue']:
            return ('md',)
        if k == KIND['InlineAsm']:
            return ('asm',)
        raise IRError('operand kind %d' % k)

    def glob(self, name):
        r = self.globals.get(name)
        if r is not None:
            return r
        lib = L
        g = self._gl.get(name)
        if g is None:
            raise IRError('no global ' + name)
        r = Global()
        self.globals[name] = r
        r.name = name
        r.mod = self
        t = lib.LLVMGlobalGetValueType(g)
        r.size = self.ty(t).size
        r.const = bool(lib.LLVMIsGlobalConstant(g))
        r.decl = bool(lib.LLVMIsDeclaration(g))
        r.linkage = lib.LLVMGetLinkage(g)
        r.relocs = {}
        if r.decl:
            r.init = None
        else:
            b = bytearray(r.size)
            self._fill(b, 0, lib.LLVMGetInitializer(g), r.relocs)
            r.init = bytes(b)
        return r

    def _fill(self, b, off, v, rel):
        lib = L
        k = lib.LLVMGetValueKind(v)
        ty = self.tyof(v)
        if k in (KIND['ConstantAggregateZero'], KIND['Undef'], KIND['Poison'], KIND['ConstantPointerNull']):
            return
        if k == KIND['ConstantInt']:
            if ty.w > 64:
                s = int(lib.LLVMPrintValueToString(v).decode().split()[-1]) & ((1 << ty.w) - 1)
            else:
                s = lib.LLVMConstIntGetZExtValue(v)
            n = (ty.w + 7) // 8
            b[off:off + n] = (s & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')
            return
        if k == KIND['ConstantDataArray'] and ty.el.w == 8:
            n = C.c_size_t()
            p = lib.LLVMGetAsString(v, C.byref(n))
            b[off:off + n.value] = C.string_at(p, n.value)
            return
        if k in (KIND['ConstantArray'], KIND['ConstantDataArray'], KIND['ConstantVector'], KIND['ConstantDataVector']):
            st = ty.el.size
            if k == KIND['ConstantDataArray'] and ty.el.k == 'int':
                for i in range(ty.n):
                    e = lib.LLVMGetElementAsConstant(v, i)
                    b[off:off + st] = lib.LLVMConstIntGetZExtValue(e).to_bytes(8, 'little')[:st]
                    off += st
                return
            for i in range(ty.n):
                self._fill(b, off + i * st, lib.LLVMGetAggregateElement(v, i), rel)
            return
        if k == KIND['ConstantStruct']:
            for i in range(ty.n):
                self._fill(b, off + ty.offs[i], lib.LLVMGetAggregateElement(v, i), rel)
            return
        rel[off] = self.operand(v)

    # ---- functions
    def _decode_fn(self, name):
        lib = L
        fv = self._fnv[name]
        f = Fn()
        f.name = name
        f.mod = self
        names = {}
        n = [0]

        def reg(v):
            names[v] = n[0]
            n[0] += 1
            return n[0] - 1
        f.args = []
        f.argty = []
        for i in range(lib.LLVMCountParams(fv)):
            p = lib.LLVMGetParam(fv, i)
            f.args.append(reg(p))
            f.argty.append(self.tyof(p))
        bbs = []
        b = lib.LLVMGetFirstBasicBlock(fv)
        while b:
            bbs.append(b)
            b = lib.LLVMGetNextBasicBlock(b)
        bidx = {b: i for i, b in enumerate(bbs)}
        raw = []
        for b in bbs:
            ins = []
            i = lib.LLVMGetFirstInstruction(b)
            while i:
                ins.append(i)
                ty = self.tyof(i)
                if ty.k != 'void':
                    reg(i)
                i = lib.LLVMGetNextInstruction(i)
            raw.append(ins)
        f.nregs = n[0]
        uid = 0
        for bi, ins in enumerate(raw):
            B = Block()
            B.i = bi
            B.insts = []
            B.phis = []
            B.succ = []
            B.pred = []
            B.name = str(bi)
            for iv in ins:
                I = Inst()
                uid += 1
                I.uid = uid
                oc = lib.LLVMGetInstructionOpcode(iv)
                I.op = OPC.get(oc)
                if I.op is None:
                    I.op = 'unsupported%d' % oc
                I.ty = self.tyof(iv)
                I.dst = names.get(iv)
                I.line = lib.LLVMGetDebugLocLine(iv)
                I.x = None
                I.ops = ()
                try:
                    self._decode_inst(I, iv, names, bidx, f)
                except IRError as e:
                    I.op = 'bad'
                    I.x = str(e)
                if I.op == 'phi':
                    B.phis.append(I)
                elif I.op == 'skip':
                    pass
                else:
                    B.insts.append(I)
            f.blocks.append(B)
            t = B.insts[-1]
            if t.op == 'br':
                B.succ = list(t.x)
            elif t.op == 'switch':
                B.succ = [t.x[0]] + [c[1] for c in t.x[1]]
        for B in f.blocks:
            for s in B.succ:
                f.blocks[s].pred.append(B.i)
        f.ret = self.ty(lib.LLVMGetReturnType(lib.LLVMGlobalGetValueType(fv)))
        analyse(f)
        return f

    def _decode_inst(self, I, iv, names, bidx, f):
        lib = L
        op = I.op
        O = lambda v: self.operand(v, names)
        if op == 'br':
            if lib.LLVMIsConditional(iv):
                I.ops = (O(lib.LLVMGetCondition(iv)),)
                I.x = (bidx[lib.LLVMGetSuccessor(iv, 0)], bidx[lib.LLVMGetSuccessor(iv, 1)])
            else:
                I.x = (bidx[lib.LLVMGetSuccessor(iv, 0)],)
        elif op == 'switch':
            n = lib.LLVMGetNumOperands(iv)
            I.ops = (O(lib.LLVMGetOperand(iv, 0)),)
            cases = []
            for j in range(2, n, 2):
                c = O(lib.LLVMGetOperand(iv, j))
                cases.append((c[1], bidx[lib.LLVMValueAsBasicBlock(lib.LLVMGetOperand(iv, j + 1))]))
            I.x = (bidx[lib.LLVMGetSuccessor(iv, 0)], cases)
        elif op == 'phi':
            I.x = {}
            for j in range(lib.LLVMCountIncoming(iv)):
                I.x[bidx[lib.LLVMGetIncomingBlock(iv, j)]] = O(lib.LLVMGetIncomingValue(iv, j))
        elif op == 'call':
            cv = lib.LLVMGetCalledValue(iv)
            c = O(cv)
            I.x = c
            if c[0] == 'f' and c[1].startswith(('llvm.dbg.', 'llvm.lifetime.', 'llvm.assume', 'llvm.experimental.noalias')):
                I.op = 'skip'
                return
            I.ops = tuple(O(lib.LLVMGetOperand(iv, j)) for j in range(lib.LLVMGetNumArgOperands(iv)))
        elif op == 'gep':
            b, off, var = self._gep(iv)
            I.ops = (O(b),)
            I.x = (off, [(O(v), self.tyof(v).w, s) for v, s in var])
        elif op == 'alloca':
            t = self.ty(lib.LLVMGetAllocatedType(iv))
            I.ops = (O(lib.LLVMGetOperand(iv, 0)),)
            I.x = t
        elif op == 'icmp':
            I.ops = (O(lib.LLVMGetOperand(iv, 0)), O(lib.LLVMGetOperand(iv, 1)))
            I.x = (PRED[lib.LLVMGetICmpPredicate(iv)], self.tyof(lib.LLVMGetOperand(iv, 0)))
        elif op == 'shufflevector':
            I.ops = (O(lib.LLVMGetOperand(iv, 0)), O(lib.LLVMGetOperand(iv, 1)))
            I.x = ([lib.LLVMGetMaskValue(iv, j) for j in range(lib.LLVMGetNumMaskElements(iv))], self.tyof(lib.LLVMGetOperand(iv, 0)))
        elif op in ('extractvalue', 'insertvalue'):
            n = lib.LLVMGetNumIndices(iv)
            p = lib.LLVMGetIndices(iv)
            I.ops = tuple(O(lib.LLVMGetOperand(iv, j)) for j in range(lib.LLVMGetNumOperands(iv)))
            I.x = ([p[j] for j in range(n)], self.tyof(lib.LLVMGetOperand(iv, 0)))
        elif op == 'store':
            v = lib.LLVMGetOperand(iv, 0)
            I.ops = (O(v), O(lib.LLVMGetOperand(iv, 1)))
            I.x = self.tyof(v)
        else:
            I.ops = tuple(O(lib.LLVMGetOperand(iv, j)) for j in range(lib.LLVMGetNumOperands(iv)))
            I.x = [self.tyof(lib.LLVMGetOperand(iv, j)) for j in range(lib.LLVMGetNumOperands(iv))]


KIND = {'Function': 5, 'GlobalAlias': 6, 'GlobalVariable': 8, 'ConstantExpr': 10, 'ConstantArray': 11, 'ConstantStruct': 12, 'ConstantVector': 13,
        'Undef': 14, 'ConstantAggregateZero': 15, 'ConstantDataArray': 16, 'ConstantDataVector': 17, 'ConstantInt': 18,
        'ConstantFP': 19, 'ConstantPointerNull': 20, 'MetadataAsValue': 22, 'InlineAsm': 23, 'Instruction': 24, 'Poison': 25}


def analyse(f):
    """immediate postdominators, loop headers (with their bodies)"""
    n = len(f.blocks)
    EXIT = n
    succ = [list(dict.fromkeys(b.succ)) or [EXIT] for b in f.blocks] + [[]]
    # postdominators by iteration (unreachable terminators lead to EXIT too)
    allb = (1 << (n + 1)) - 1
    pd = [allb] * (n + 1)
    pd[EXIT] = 1 << EXIT
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            x = allb
            for s in succ[i]:
                x &= pd[s]
            x |= 1 << i
            if x != pd[i]:
                pd[i] = x
                ch = True
    f.ipdom = [None] * n
    cnt = [bin(x).count('1') for x in pd]
    for i in range(n):
        best = None
        x = pd[i] & ~(1 << i)
        # the closest: the one with the largest postdominator set
        j = 0
        while x:
            if x & 1 and j != EXIT:
                if best is None or cnt[j] > cnt[best]:
                    best = j
            x >>= 1
            j += 1
        f.ipdom[i] = best
    # dominators
    pred = [list(dict.fromkeys(b.pred)) for b in f.blocks]
    dom = [(1 << n) - 1] * n
    dom[0] = 1
    ch = True
    while ch:
        ch = False
        for i in range(1, n):
            x = (1 << n) - 1
            for p in pred[i]:
                x &= dom[p]
            x |= 1 << i
            if x != dom[i]:
                dom[i] = x
                ch = True
    f.loops = {}
    for i in range(n):
        for s in succ[i]:
            if s < n and dom[i] >> s & 1:
                body = f.loops.setdefault(s, {s})
                st = [i]
                while st:
                    y = st.pop()
                    if y not in body:
                        body.add(y)
                        st.extend(pred[y])
    f.dom = dom


# ---------------------------------------------------------------- building
DEFS = ['-DL_ENDIAN', '-DHAVE_ADDCARRY_U64', '-DOPENSSL_NO_DYNAMIC_ENGINE', '-DENGINE_DIR="/x"']
PASSES = 'always-inline,sroa,instsimplify,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>,loop-simplify,sroa'


def compile_ir(src, out, repo=REPO, extra=()):
    tmp = out + '.0.bc'
    r = subprocess.run(['clang-18', '-std=gnu90', '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-w', '-emit-llvm', '-c',
                        '-I' + repo] + DEFS + list(extra) + [src, '-o', tmp], capture_output=True, text=True, timeout=300)
    if r.returncode:
        raise IRError('clang failed on %s: %s' % (src, r.stderr[-2000:]))
    r = subprocess.run(['opt-18' if os.path.exists('/usr/bin/opt-18') else 'opt', '-passes=' + PASSES, tmp, '-o', out], capture_output=True, text=True, timeout=300)
    if r.returncode:
        raise IRError('opt failed on %s: %s' % (src, r.stderr[-2000:]))
    os.unlink(tmp)
    return out


class Program:
    """several modules; functions are resolved in their own module first"""

    def __init__(self, srcs, repo=REPO, workdir=None, extra=(), probes=None):
        self.dir = workdir or tempfile.mkdtemp(prefix='dv.')
        self.mods = {}
        self.repo = repo
        from concurrent.futures import ThreadPoolExecutor
        jobs = []
        for s in srcs:
            p = s if s.startswith('/') else os.path.join(repo, s)
            o = os.path.join(self.dir, os.path.basename(s) + '.bc')
            jobs.append((s, p, o))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: compile_ir(j[1], j[2], repo, extra), jobs))
        for s, p, o in jobs:
            self.mods[os.path.basename(s)] = Module(o)

    def find_fn(self, name, mod=None):
        if mod is not None:
            name = mod.aliases.get(name, name)
            if mod.is_defined(name):
                return mod.fn(name)
        for m in self.mods.values():
            if m.is_defined(name):
                return m.fn(name)
        return None

    def find_glob(self, name, mod=None):
        if mod is not None and name in mod._gl:
            g = mod.glob(name)
            if not g.decl:
                return g
        for m in self.mods.values():
            if name in m._gl:
                g = m.glob(name)
                if not g.decl:
                    return g
        return None


def probe(includes, exprs, repo=REPO, workdir=None, extra=()):
    """evaluate integer constant expressions in C (offsets, sizes, macro values)"""
    d = workdir or tempfile.mkdtemp(prefix='dvp.')
    src = os.path.join(d, 'probe%d.c' % os.getpid())
    with open(src, 'w') as f:
        f.write('#include <stddef.h>\n')
        for i in includes:
            f.write('#include "%s"\n' % i if not i.startswith('<') else '#include %s\n' % i)
        for i, e in enumerate(exprs):
            f.write('const long dv_probe_%d = (long)(%s);\n' % (i, e))
    o = compile_ir(src, os.path.join(d, 'probe%d.bc' % os.getpid()), repo, extra)
    m = Module(o)
    res = {}
    for i, e in enumerate(exprs):
        g = m.glob('dv_probe_%d' % i)
        res[e] = int.from_bytes(g.init, 'little', signed=True)
    return res
