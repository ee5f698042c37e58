#!/usr/bin/env python3
"""Rewrite rustc's LLVM IR so that floating-point arithmetic becomes symbolic (see symrt/src/lib.rs).

Every float instruction, float intrinsic and libm call of the given module is replaced by a call into the runtime
crate `symrt`; nothing else changes.  Unknown float operations that look at the bits of a float get their operand
pinned first (`sym_pin*`), which the explorer reports as a loss of completeness instead of mis-modelling it.
"""
import re, json

W = {'double': '64', 'float': '32'}
BIN = {'fadd': 'sym_fadd', 'fsub': 'sym_fsub', 'fmul': 'sym_fmul', 'fdiv': 'sym_fdiv', 'frem': 'sym_frem'}
PRED = {'oeq': 1, 'ogt': 2, 'oge': 3, 'olt': 4, 'ole': 5, 'one': 6, 'ord': 7, 'uno': 8, 'ueq': 9, 'ugt': 10,
        'uge': 11, 'ult': 12, 'ule': 13, 'une': 14}
INTR = {'fabs': 'fabs', 'sqrt': 'sqrt', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'asin': 'asin', 'acos': 'acos',
        'atan': 'atan', 'atan2': 'atan2', 'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh', 'exp': 'exp',
        'exp2': 'exp2', 'log': 'log', 'log2': 'log2', 'log10': 'log10', 'pow': 'pow', 'floor': 'floor',
        'ceil': 'ceil', 'trunc': 'trunc', 'rint': 'roundeven', 'nearbyint': 'roundeven', 'round': 'round',
        'roundeven': 'roundeven', 'minnum': 'minnum', 'maxnum': 'maxnum', 'minimum': 'minimum',
        'maximum': 'maximum', 'minimumnum': 'minnum', 'maximumnum': 'maxnum', 'copysign': 'copysign', 'fma': 'fma',
        'fmuladd': 'fma'}
ARITY = {'atan2': 2, 'pow': 2, 'minnum': 2, 'maxnum': 2, 'minimum': 2, 'maximum': 2, 'copysign': 2, 'fma': 3,
         'hypot': 2, 'frem': 2}
LIBM = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'asin': 'asin', 'acos': 'acos', 'atan': 'atan', 'atan2': 'atan2',
        'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh', 'exp': 'exp', 'exp2': 'exp2', 'expm1': 'expm1', 'log': 'log',
        'log2': 'log2', 'log10': 'log10', 'log1p': 'log1p', 'pow': 'pow', 'cbrt': 'cbrt', 'hypot': 'hypot',
        'fmod': 'frem', 'sqrt': 'sqrt', 'fabs': 'fabs', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc',
        'round': 'round', 'fma': 'fma'}
FLAGS = r'(?:(?:nnan|ninf|nsz|arcp|contract|afn|reassoc|fast) )*'
ASSIGN = re.compile(r'^(\s*)(%\S+) = (.*)$')
RE_BIN = re.compile(r'^(fadd|fsub|fmul|fdiv|frem) ' + FLAGS + r'(\S+) ([^,]+), ([^,]+)(.*)$')
RE_NEG = re.compile(r'^fneg ' + FLAGS + r'(\S+) ([^,]+)(.*)$')
RE_CMP = re.compile(r'^fcmp ' + FLAGS + r'(\w+) (\S+) ([^,]+), ([^,]+)(.*)$')
RE_TR = re.compile(r'^fptrunc ' + FLAGS + r'double ([^,]+) to float(.*)$')
RE_EX = re.compile(r'^fpext ' + FLAGS + r'float ([^,]+) to double(.*)$')
RE_TOI = re.compile(r'^(fptosi|fptoui|bitcast) (double|float) ([^,]+) to (\S+)(.*)$')
RE_INTR = re.compile(r'@llvm\.([a-z0-9.]+?)\.f(32|64)\b(\.i32)?\(')
RE_SAT = re.compile(r'@llvm\.fpto[su]i\.sat\.(\S+?)\.f(32|64)\((double|float) ([^)]*)\)')
RE_LIBM = re.compile(r'@(' + '|'.join(sorted(LIBM, key=len, reverse=True)) + r')(f?)\(')
RE_GEMM = re.compile(r'@"?[\w$.]*matrixmultiply4gemm5([ds])gemm\w*"?\(')
RE_LOCK = re.compile(r'@"?[\w$.]*Mutex14lock_contended\w*"?\(')
RE_LOCKFN = re.compile(r'^<std::sync::(?:\w+::)*mutex::Mutex<.*>>::(lock|try_lock)$')
RE_UNLOCKFN = re.compile(r'^<std::sync::(?:\w+::)*mutex::MutexGuard<.*> as core::ops::drop::Drop>::drop$')
RE_DEF = re.compile(r'^define .*?@("?[\w$.]+"?)\(')

FP_HINT = re.compile(r'\b(fadd|fsub|fmul|fdiv|frem|fneg|fcmp|fptrunc|fpext|fptosi|fptoui)\b|\.f(32|64)\b|'
                     r'bitcast (double|float)|lock_contended|gemm5')


class RewriteError(Exception):
    pass


def decls():
    o = []
    for w, t in (('64', 'double'), ('32', 'float')):
        for n in sorted(set(list(INTR.values()) + list(LIBM.values()) + ['fneg', 'fadd', 'fsub', 'fmul', 'fdiv',
                                                                         'frem'])):
            k = 2 if n in ('fadd', 'fsub', 'fmul', 'fdiv') else ARITY.get(n, 1)
            o.append('declare %s @sym_%s%s(%s)' % (t, n, w, ', '.join([t] * k)))
        o.append('declare zeroext i1 @sym_fcmp%s(i32, %s, %s)' % (w, t, t))
        o.append('declare zeroext i1 @sym_isclass%s(%s, i32)' % (w, t))
        o.append('declare %s @sym_pin%s(%s)' % (t, w, t))
        o.append('declare %s @sym_powi%s(%s, i32)' % (t, w, t))
    o.append('declare float @sym_fptrunc(double)')
    o.append('declare double @sym_fpext(float)')
    o.append('declare void @sym_dgemm(i64, i64, i64, double, ptr, i64, i64, ptr, i64, i64, double, ptr, i64, i64)')
    o.append('declare void @sym_sgemm(i64, i64, i64, float, ptr, i64, i64, ptr, i64, i64, float, ptr, i64, i64)')
    o.append('declare void @sym_lock_contended(ptr)')
    o.append('declare void @sym_fn(i32)')
    o.append('declare void @sym_lock(ptr)')
    o.append('declare void @sym_trylock(ptr)')
    o.append('declare void @sym_unlock(ptr)')
    return o


def rewrite(text, fn_ids, stats, crate):
    """fn_ids: dict demangled k function -> id (extended here).  stats: dict of counters."""
    out = []
    n_pin = 0
    comment = None
    entry = None
    lockfn = None
    cur = None
    for line in text.split('\n'):
        s = line
        if s.startswith('; ') and not s.startswith('; Function Attrs'):
            comment = s[2:].strip()
        elif s.startswith('define '):
            cur = comment
            m = RE_DEF.match(s)
            if cur and (cur.startswith('k::') or cur.startswith('<k::') or re.match(r'<[^>]* as k::', cur) or ' as k::' in cur):
                if 'drop_' not in cur:
                    entry = fn_ids.setdefault(cur, len(fn_ids))
            lockfn = None
            if cur and ' %self' in s:
                if RE_LOCKFN.match(cur):
                    lockfn = 'try' if cur.endswith('try_lock') else 'lock'
                elif RE_UNLOCKFN.match(cur):
                    lockfn = 'unlock'
            stats['functions'] = stats.get('functions', 0) + 1
        elif s.startswith('attributes #'):
            s = s.replace(' nounwind ', ' ').replace(' nounwind ', ' ')
            s = re.sub(r' memory\([^)]*\)', '', s)
            s = re.sub(r'\{ *\}', '{ "vt" }', s)
        elif s.startswith('declare'):
            if RE_LOCK.search(s):
                pass
        elif s.startswith('  ') or s.startswith('\t'):
            if '=' in s or 'call ' in s or 'invoke ' in s:
                s2 = instr(s, stats)
                if s2 is None and cur and 'is_zero::IsZero' in cur:
                    # only chooses calloc for a vector of zeros; a symbolic float is never the all-zero bit pattern
                    s2 = s
                if s2 is None:
                    m = ASSIGN.match(s)
                    r = RE_TOI.match(m.group(3))
                    op, ty, x, to, rest = r.groups()
                    n_pin += 1
                    v = '%%sympin%d' % n_pin
                    out.append('  %s = call %s @sym_pin%s(%s %s)' % (v, ty, W[ty], ty, x))
                    s2 = '%s%s = %s %s %s to %s%s' % (m.group(1), m.group(2), op, ty, v, to, rest)
                elif isinstance(s2, list):
                    out.extend(s2[:-1])
                    s2 = s2[-1]
                s = s2
        out.append(s)
        if entry is not None and (s.endswith(':') or re.match(r'^[\w.$"-]+:(\s*;.*)?$', s)):
            # first label of the function body
            out.append('  call void @sym_fn(i32 %d)' % entry)
            entry = None
        if lockfn is not None and (s.endswith(':') or re.match(r'^[\w.$"-]+:(\s*;.*)?$', s)):
            bump(stats, 'lock_points')
            if lockfn == 'unlock':
                out.append('  %symguard = load ptr, ptr %self, align 8')
                out.append('  call void @sym_unlock(ptr %symguard)')
            else:
                out.append('  call void @sym_%s(ptr %%self)' % ('lock' if lockfn == 'lock' else 'trylock'))
            lockfn = None
    have = set(re.findall(r'^declare .*@(sym_\w+)\(', text, re.M))
    for d in decls():
        n = re.search(r'@(\w+)\(', d).group(1)
        if n not in have:
            out.append(d)
    return '\n'.join(out)


def bump(stats, k):
    stats[k] = stats.get(k, 0) + 1


def instr(s, stats):
    m = ASSIGN.match(s)
    if m:
        ind, dst, rhs = m.groups()
        r = RE_BIN.match(rhs)
        if r:
            op, ty, a, b, rest = r.groups()
            if ty not in W:
                raise RewriteError('vector float op: ' + s)
            bump(stats, 'fp_instrs')
            return '%s%s = call %s @%s%s(%s %s, %s %s)' % (ind, dst, ty, BIN[op], W[ty], ty, a, ty, b)
        r = RE_NEG.match(rhs)
        if r:
            ty, a, rest = r.groups()
            if ty not in W:
                raise RewriteError('vector float op: ' + s)
            bump(stats, 'fp_instrs')
            return '%s%s = call %s @sym_fneg%s(%s %s)' % (ind, dst, ty, W[ty], ty, a)
        r = RE_CMP.match(rhs)
        if r:
            p, ty, a, b, rest = r.groups()
            if p in ('true', 'false'):
                return s
            if ty not in W:
                raise RewriteError('vector float op: ' + s)
            bump(stats, 'fp_instrs')
            return '%s%s = call zeroext i1 @sym_fcmp%s(i32 %d, %s %s, %s %s)' % (ind, dst, W[ty], PRED[p], ty, a, ty, b)
        r = RE_TR.match(rhs)
        if r:
            bump(stats, 'fp_instrs')
            return '%s%s = call float @sym_fptrunc(double %s)' % (ind, dst, r.group(1))
        r = RE_EX.match(rhs)
        if r:
            bump(stats, 'fp_instrs')
            return '%s%s = call double @sym_fpext(float %s)' % (ind, dst, r.group(1))
        r = RE_TOI.match(rhs)
        if r:
            bump(stats, 'pins')
            return None
    if '@' in s and ('call ' in s or 'invoke ' in s):
        if 'llvm.' in s:
            r = RE_SAT.search(s)
            if r:
                bump(stats, 'pins')
                w = r.group(2)
                ty = r.group(3)
                x = r.group(4)
                tmp = '%%symsat%d' % stats['pins']
                return ['  %s = call %s @sym_pin%s(%s %s)' % (tmp, ty, w, ty, x),
                        s.replace('(%s %s)' % (ty, x), '(%s %s)' % (ty, tmp))]
            r = RE_INTR.search(s)
            if r:
                n, w = r.group(1), r.group(2)
                if n == 'is.fpclass':
                    bump(stats, 'fp_instrs')
                    s = re.sub(r'i32 immarg ', 'i32 ', s)
                    s = re.sub(r'\bcall i1 ', 'call zeroext i1 ', s)
                    return s.replace(r.group(0), '@sym_isclass%s(' % w)
                if n == 'powi':
                    bump(stats, 'fp_instrs')
                    return re.sub(r'\b(tail |musttail |notail )?call ' + FLAGS, 'call ', s).replace(r.group(0), '@sym_powi%s(' % w)
                if n in INTR:
                    bump(stats, 'fp_instrs')
                    s = re.sub(r'\bcall ' + FLAGS, 'call ', s)
                    return s.replace(r.group(0), '@sym_%s%s(' % (INTR[n], w))
                raise RewriteError('float intrinsic: ' + s)
        r = RE_LIBM.search(s)
        if r and ('double' in s or 'float' in s):
            w = '32' if r.group(2) else '64'
            bump(stats, 'fp_instrs')
            return s.replace(r.group(0), '@sym_%s%s(' % (LIBM[r.group(1)], w))
        if 'gemm5' in s:
            r = RE_GEMM.search(s)
            if r:
                bump(stats, 'gemm')
                return s.replace(r.group(0), '@sym_%sgemm(' % r.group(1))
        if 'lock_contended' in s:
            r = RE_LOCK.search(s)
            if r:
                bump(stats, 'locks')
                return s.replace(r.group(0), '@sym_lock_contended(')
    return s
