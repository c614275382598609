"""x86-64 instruction decoding through libLLVM's disassembler (independent of the code under test)."""
import ctypes, glob, re

_lib = None


def _load():
    global _lib
    if _lib is not None:
        return _lib
    cands = glob.glob('/usr/lib/llvm-18/lib/libLLVM.so*') + glob.glob('/usr/lib/x86_64-linux-gnu/libLLVM*.so*') + \
        glob.glob('/usr/lib/llvm-*/lib/libLLVM*.so*')
    err = None
    for c in cands:
        try:
            l = ctypes.CDLL(c)
            l.LLVMInitializeX86Disassembler
            break
        except (OSError, AttributeError) as e:
            err = e
    else:
        raise RuntimeError('no libLLVM: %s' % err)
    l.LLVMInitializeX86TargetInfo()
    l.LLVMInitializeX86TargetMC()
    l.LLVMInitializeX86Disassembler()
    l.LLVMCreateDisasmCPUFeatures.restype = ctypes.c_void_p
    l.LLVMCreateDisasmCPUFeatures.argtypes = [ctypes.c_char_p] * 3 + [ctypes.c_void_p, ctypes.c_int, ctypes.c_void_p,
                                                                    ctypes.c_void_p]
    l.LLVMSetDisasmOptions.argtypes = [ctypes.c_void_p, ctypes.c_uint64]
    l.LLVMDisasmInstruction.restype = ctypes.c_size_t
    l.LLVMDisasmInstruction.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_uint64, ctypes.c_uint64,
                                        ctypes.c_char_p, ctypes.c_size_t]
    _lib = l
    return l


class Dis:
    def __init__(self):
        self.l = _load()
        self.ctx = self.l.LLVMCreateDisasmCPUFeatures(
            b'x86_64-unknown-linux-gnu', b'x86-64-v3', b'', None, 0, None, None)
        assert self.ctx
        assert self.l.LLVMSetDisasmOptions(self.ctx, 4 | 2)  # intel syntax, hex immediates
        self.buf = ctypes.create_string_buffer(256)

    def one(self, code, addr):
        """(length, text) of the instruction at the start of `code`; length 0 if invalid."""
        n = self.l.LLVMDisasmInstruction(self.ctx, bytes(code), len(code), addr, self.buf, 256)
        return n, self.buf.value.decode().strip()


REG64 = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + ['r%d' % i for i in range(8, 16)]
REGS = {}
for _i, _n in enumerate(REG64):
    REGS[_n] = (_i, 64, 0)
for _i, _n in enumerate(['eax', 'ecx', 'edx', 'ebx', 'esp', 'ebp', 'esi', 'edi'] + ['r%dd' % i for i in range(8, 16)]):
    REGS[_n] = (_i, 32, 0)
for _i, _n in enumerate(['ax', 'cx', 'dx', 'bx', 'sp', 'bp', 'si', 'di'] + ['r%dw' % i for i in range(8, 16)]):
    REGS[_n] = (_i, 16, 0)
for _i, _n in enumerate(['al', 'cl', 'dl', 'bl', 'spl', 'bpl', 'sil', 'dil'] + ['r%db' % i for i in range(8, 16)]):
    REGS[_n] = (_i, 8, 0)
for _i, _n in enumerate(['ah', 'ch', 'dh', 'bh']):
    REGS[_n] = (_i, 8, 8)
XMM = {'xmm%d' % i: i for i in range(16)}
YMM = {'ymm%d' % i: i for i in range(16)}
SIZES = {'byte': 8, 'word': 16, 'dword': 32, 'qword': 64, 'xmmword': 128, 'ymmword': 256, 'tbyte': 80, 'opaque': 0}
_memre = re.compile(r'^(?:(\w+) ptr )?(?:(fs|gs|cs|ds|es|ss):)?\[(.*)\]$')
_segabs = re.compile(r'^(?:(\w+) ptr )?(fs|gs):(0x[0-9a-f]+|\d+)$')


def parse_operand(s):
    s = s.strip()
    if s in REGS:
        return ('r',) + REGS[s]
    if s in XMM:
        return ('x', XMM[s])
    if s in YMM:
        return ('y', YMM[s])
    m = _segabs.match(s)
    if m:
        return ('m', SIZES.get(m.group(1), 0), None, None, 1, int(m.group(3), 0), m.group(2))
    m = _memre.match(s)
    if m:
        size = SIZES.get(m.group(1), 0) if m.group(1) else 0
        base = idx = None
        scale, disp, sz32 = 1, 0, False
        body = m.group(3).replace(' - ', ' + -')
        for part in body.split(' + '):
            part = part.strip()
            neg = False
            if part.startswith('-'):
                neg, part = True, part[1:]
            if '*' in part:
                a, b = part.split('*')
                scale = int(a, 0)
                idx = REGS.get(b, None)
                if b in ('riz', 'eiz'):
                    idx = None
                elif idx is None:
                    raise ValueError(s)
            elif part in REGS:
                if base is None:
                    base = REGS[part]
                else:
                    idx = REGS[part]
            elif part in ('rip', 'eip'):
                base = ('rip',)
            elif part in ('riz', 'eiz'):
                pass
            else:
                v = int(part, 0)
                disp += -v if neg else v
        if m.group(2) in ('fs', 'gs'):
            seg = m.group(2)
        else:
            seg = None
        if (base and base != ('rip',) and base[1] == 32) or (idx and idx[1] == 32):
            sz32 = True
        return ('m', size, base, idx, scale, disp, seg, sz32)
    neg = s.startswith('-')
    try:
        v = int(s[1:] if neg else s, 0)
    except ValueError:
        raise ValueError('operand ' + s)
    return ('i', -v if neg else v)


def parse(text):
    """mnemonic, prefixes, operands"""
    text = text.split('#')[0].strip()
    text = text.replace('\t', ' ')
    pre = []
    parts = text.split(None, 1)
    while parts and parts[0] in ('rep', 'repe', 'repne', 'repz', 'repnz', 'lock', 'notrack', 'data16', 'bnd', 'rex64'):
        pre.append(parts[0])
        text = parts[1] if len(parts) > 1 else 'nop'
        parts = text.split(None, 1)
    mn = parts[0]
    if mn in ('nop',):
        return mn, pre, []
    ops = []
    if len(parts) > 1 and not mn.startswith(('stos', 'movs', 'scas', 'cmps', 'lods')) or \
            (len(parts) > 1 and mn in ('movss', 'movsx', 'movsxd', 'movsd', 'movshdup', 'movsldup')
             and 'es:' not in parts[1]):
        cur, depth = '', 0
        for c in parts[1]:
            if c == '[':
                depth += 1
            if c == ']':
                depth -= 1
            if c == ',' and depth == 0:
                ops.append(cur)
                cur = ''
            else:
                cur += c
        ops.append(cur)
        ops = [parse_operand(o) for o in ops]
    elif len(parts) > 1:
        ops = [parts[1]]
    return mn, pre, ops


if __name__ == '__main__':
    d = Dis()
    for h in ['4889e5', 'f20f5805 10000000', '64488b042528000000', 'e810000000', '75f0', 'f3ab', 'f348a5', 'c4e17958c1',
              '67 8b00', '8b84cd10000000', '0fb6c4', 'f30fbcc0', 'f30f10c1', 'f2 0f 10 c1', 'a5', 'f30f1efa', '660f6ec0', '66480f6ec0', '41ffd3', 'ff25 00000000','480fc7f0']:
        n, t = d.one(bytes.fromhex(h.replace(' ', '')), 0x1000)
        print(n, repr(t), parse(t))
