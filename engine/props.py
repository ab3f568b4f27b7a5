"""What is run for each property."""
import os, re
from runner import Job
COMMON = [
 'rustc/LLVM translate the source to the IR that is executed symbolically (opt-level 0 or 1 with overflow checks and debug assertions on, panic=abort, x86-64); the native code of other profiles is outside the claim',
 'allocation never fails; printing has no effect',
 'the symbolic executor and its word-level normal form are trusted; every counterexample and one witness run per harness are replayed on the natively compiled code',
]
PROPS = {}
class Prop:
    std = False; o0 = False; assumptions = []; limit = 780
    technique = 'symbolic execution of the compiled LLVM IR; assertions decided by SMT (z3, cvc5, bit-vectors)'
    def __init__(s): s.feature = s.id.lower()
def prop(c):
    PROPS[c.id] = c(); return c
INTS = ['u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128']
UINTS = INTS[:5]

def brief(l):
    l = sorted(l); out = []; i = 0
    while i < len(l):
        j = i
        while j + 1 < len(l) and l[j + 1] == l[j] + 1: j += 1
        out.append('%d-%d' % (l[i], l[j]) if j > i + 1 else ', '.join(map(str, l[i:j + 1]))); i = j + 1
    return ', '.join(out)

@prop
class C01(Prop):
    id = 'C01'; o0 = True
    def jobs(s, tier):
        r = []
        for t in INTS:
            r.append(Job('h_c01_arith_' + t)); r.append(Job('h_c01_rot_' + t, weight=5))
            for k in range(3): r.append(Job('h_c01_ovf_' + t, [k]))
            for k in range(4): r.append(Job('h_c01_shift_' + t, [k]))
        return r
    def bounds(s, tier): return 'none: all operand values, shift and rotation amounts (any u32) of the ten secret integer types'
UW = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16}
IW = {t: int(t[1:]) // 8 for t in INTS}
@prop
class C02(Prop):
    id = 'C02'; o0 = True
    def jobs(s, tier):
        r = []
        for k in range(6):
            for t in UINTS: r += [Job('h_c02_comp_' + t, [k]), Job('h_c02_sbm_' + t, [k])]
            for t in INTS: r += [Job('h_c02_pbm_' + t, [k]), Job('h_c02_bool_' + t, [k])]
        return r
    def bounds(s, tier): return 'none for the numeric types: all pairs of values of the 20 types'

def names(prop, rx):
    src = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'src', prop.lower() + '.rs')).read()
    return re.findall(rx, src)
@prop
class C03(Prop):
    id = 'C03'; o0 = True
    def jobs(s, tier):
        r = [Job(n) for n in names('c03', r'hx!\("(h_c03_\w+_\w+)";')]
        for t in INTS: r += [Job('h_c03_basic_' + t), Job('h_c03_literal_' + t)]
        return r + [Job('h_c03_arrays')]
    def bounds(s, tier): return 'none: all values of every source type of all 79 From conversions, classify/declassify and literals; arrays of 3 and 5 elements for the element-wise conversions'

@prop
class C05(Prop):
    id = 'C05'
    def jobs(s, tier):
        r = []
        N = range(0, 4) if tier == 'quick' else range(0, 17)
        for t in INTS:
            w = IW[t]
            for be in (0, 1):
                for n in N: r.append(Job('h_c05_slice_' + t, [n, be]))
                for m in sorted(set(range(0, 3 * w + 2)) if tier != 'quick' else {0, 1, w - 1, w, w + 1, 2 * w - 1, 2 * w, 2 * w + 1, 3 * w}): r.append(Job('h_c05_slicefrom_' + t, [m, be]))
                if t in UINTS:
                    r.append(Job('h_c05_trait_' + t, [be]))
                    for m in range(0, 2 * w + 2) if tier != 'quick' else sorted({0, 1, w - 1, w, w + 1, 2 * w}):
                        for sc in (0, 1): r.append(Job('h_c05_traitfrom_' + t, [be, m, sc]))
        for t in UINTS[1:]: r.append(Job('h_c05_word_' + t))
        for b in ('B32', 'B16', 'B48', 'B18', 'B12', 'B24'):
            for w in (4, 8, 16):
                for be in (0, 1):
                    for sc in (0, 1): r.append(Job('h_c05_view_' + b, [w, be, sc]))
        for a in ('A8', 'A16', 'A32', 'A64', 'A128'):
            for be in (0, 1): r.append(Job('h_c05_array_' + a, [be]))
        return r
    def bounds(s, tier): return ('all element values; slices of 0..%d elements, byte strings of lengths around 0..3 times the element width, byte arrays of 12, 16, 18, 24, 32 and 48 bytes, integer arrays of 2 or 3 elements' % (3 if tier == 'quick' else 16))

@prop
class C08(Prop):
    id = 'C08'; o0 = True
    def jobs(s, tier):
        r = []
        for t in INTS:
            for k in range(6): r += [Job('h_c08_bit_' + t, [k]), Job('h_c08_rot_' + t, [k])]
            for k in range(4): r.append(Job('h_c08_badrot_' + t, [k]))
        for t in UINTS: r.append(Job('h_c08_byte_' + t))
        return r
    def bounds(s, tier): return 'none: all values, all bit, byte and rotation indices within the type, of the 20 integer types'

@prop
class C09(Prop):
    id = 'C09'; o0 = True
    def jobs(s, tier):
        r = []
        for t in INTS:
            for k in range(6): r += [Job('h_c09_pub_' + t, [k]), Job('h_c09_sec_' + t, [k])]
            r.append(Job('h_c09_div_' + t, cap=800, solver=300, mode=dict(feas=1), weight=IW[t]))
            if t in UINTS:
                r.append(Job('h_c09_sdiv_' + t, [0], cap=800, solver=300, mode=dict(feas=1), weight=IW[t]))
                if t != 'u128' or tier != 'quick': r.append(Job('h_c09_sdiv_' + t, [1], cap=800, solver=300, mode=dict(feas=1), weight=IW[t], opt=t == 'u128'))
        return r + [Job('h_c09_char_u8'), Job('h_c09_step')]
    def bounds(s, tier): return 'none: all operand values, both conditions, all bit positions, of the 20 integer types; ct_div for all operands with a non-zero (signed: positive, with non-negative dividend) divisor, except the remainder of the secret 128-bit ct_div (attempted in the thorough tier only)'

@prop
class C15(Prop):
    id = 'C15'
    LENS = dict(quick=[0, 1, 2, 15, 31, 63, 64, 65, 127, 128, 129, 191, 192, 193, 200, 255, 256, 257, 320, 385, 512, 1024, 1100], thorough=list(range(0, 258)) + [319, 320, 321, 383, 384, 385, 511, 512, 513, 1024, 1025, 2047, 2048, 4096])
    def jobs(s, tier):
        return [Job('h_c15_block'), Job('h_c15_kat')] + [Job('h_c15_msg', [l], weight=l) for l in s.LENS[tier]] + [Job('h_c15_inv', [l], weight=l) for l in s.LENS[tier][::3]]
    def bounds(s, tier): return 'block function: none (every key, nonce, counter); messages: all contents of lengths %s; counters 1.. as the code starts them' % brief(s.LENS[tier])

@prop
class C18(Prop):
    id = 'C18'
    LENS = dict(quick=[0, 1, 15, 16, 17, 32, 33, 47, 48], thorough=list(range(0, 66)) + [80, 96, 127, 128])
    def jobs(s, tier):
        r = [Job('h_c18_kat')]
        for k in (128, 256):
            r.append(Job('h_c18_block', [k], weight=50))
            r += [Job('h_c18_ctr', [k, l], weight=20 * l) for l in s.LENS[tier]]
            r += [Job('h_c18_long', [k, l, c], weight=l) for l in ((79, 160, 256, 330) if tier == 'quick' else (64, 79, 80, 81, 95, 96, 97, 111, 112, 128, 144, 160, 255, 256, 257, 330, 512, 1024, 4100)) for c in (0, 1, 2, 0xfffffffe)]
        return r
    def bounds(s, tier): return 'block function and key schedule: none (every key and block, both key sizes); counter mode: every key, nonce, 32-bit counter (including wrap-around) and content, message lengths %s; longer messages (up to %d bytes, any content) under one fixed key and nonce, starting from counters 0, 1, 2 and 2^32-2' % (brief(s.LENS[tier]), 330 if tier == 'quick' else 4100)

@prop
class C20(Prop):
    id = 'C20'
    LENS = dict(quick=[0, 1, 3, 31, 54, 55, 56, 57, 62, 63, 64, 65, 118, 119, 120, 127, 128, 129, 191, 192, 247, 248, 255, 256, 257, 311, 312, 320, 512], thorough=list(range(0, 258)) + [311, 312, 319, 320, 321, 383, 384, 385, 511, 512, 513, 639, 640, 1024])
    # (length, fixed leading bytes)
    LONG = dict(quick=[(449, 384), (503, 448), (504, 448), (575, 512), (576, 512), (640, 576), (1023, 896), (1024, 960), (4096, 4032), (8193, 8128)], thorough=[(64 * b + o, 64 * b - 64) for b in (5, 6, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 512, 1024) for o in (0, 1, 55, 56, 63)])
    def jobs(s, tier): return [Job('h_c20_kat')] + [Job('h_c20_msg', [l], weight=2 * l) for l in s.LENS[tier]] + [Job('h_c20_msg', [l, c], weight=l / 8) for l, c in s.LONG[tier]]
    def bounds(s, tier): return 'all message contents, message lengths %s bytes; messages of %s bytes that differ in their last one or two blocks from one fixed message' % (brief(s.LENS[tier]), ', '.join(str(l) for l, c in s.LONG[tier]))

@prop
class C22(Prop):
    id = 'C22'
    R = {224: 144, 256: 136, 384: 104, 512: 72, 128: 168, 1256: 136}
    def jobs(s, tier):
        r = [Job('h_c22_kat')]
        for v, rate in s.R.items():
            ls = [0, 1, 8, rate - 1, rate, rate + 1, 2 * rate - 1, 2 * rate, 2 * rate + 1, 3 * rate - 1, 4 * rate + 1, 5 * rate] if tier == 'quick' else list(range(0, 2 * rate + 3)) + [k * rate + d for k in (3, 4, 5, 8, 9, 16) for d in (-1, 0, 1)]
            outs = [32]
            for l in ls: r.append(Job('h_c22_msg', [v, l, 32], weight=l))
            if v in (128, 1256):
                for o in ([0, 1, rate - 1, rate, rate + 1, 2 * rate, 2 * rate + 1, 3 * rate, 3 * rate + 1, 5 * rate - 1] if tier == 'quick' else list(range(0, 2 * rate + 3, 3)) + [k * rate + d for k in (1, 2, 3, 4, 5, 8, 16) for d in (-1, 0, 1)]): r.append(Job('h_c22_msg', [v, 5, o], weight=o))
        return r
    def bounds(s, tier): return 'all message contents; lengths 0, 1, 8 and around one to five times the rate of each function (thorough: every length up to twice the rate, and around 3, 4, 5, 8, 9 and 16 times); SHAKE output lengths around one to five times the rate (thorough: 16 times)'

@prop
class C23(Prop):
    id = 'C23'
    LENS = dict(quick=[0, 1, 3, 64, 127, 128, 129, 200, 255, 256, 257, 383, 384, 385, 512, 513, 600, 640, 1024, 1100, 2049], thorough=list(range(0, 260)) + [128 * b + d for b in (3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 32) for d in (-1, 0, 1, 60)])
    def jobs(s, tier): return [Job('h_c23_kat')] + [Job('h_c23_msg', [l], weight=l) for l in s.LENS[tier]]
    def bounds(s, tier): return 'all message contents, message lengths %s bytes' % brief(s.LENS[tier])

@prop
class C21(Prop):
    id = 'C21'
    def jobs(s, tier):
        q = tier == 'quick'
        r = [Job('h_c21_kat')]
        for k in ([0, 1, 32, 63, 64, 65, 127, 128, 129] if q else list(range(0, 131)) + [191, 192, 193]):
            for t in ([0, 1, 55, 56, 64] if q and k in (1, 64, 65) else [3]) if q else [0, 3, 55, 56, 64]: r.append(Job('h_c21_hmac', [k, t], weight=k + t))
        for k, t, c, d in ((16, 300, 0, 256), (32, 1000, 0, 950), (300, 20, 256, 0), (1000, 3, 960, 0), (64, 192, 0, 130)): r.append(Job('h_c21_hmac', [k, t, c, d], weight=100))
        for k, t in ([(0, 0), (0, 22), (13, 22), (32, 64), (64, 1), (65, 3), (80, 80)] if q else [(a, b) for a in (0, 1, 13, 31, 32, 33, 63, 64, 65, 80, 128) for b in (0, 1, 22, 63, 64, 65, 80)]): r.append(Job('h_c21_extract', [k, t], weight=k + t))
        for l in ([0, 1, 31, 32, 33, 42, 63, 64, 65, 82, 96, 97, 127, 128, 129, 161] if q else list(range(0, 131)) + [160, 255, 256, 257, 1000]): r.append(Job('h_c21_expand', [32, 10 if l % 2 else 0, l, 0], weight=3 * l))
        for n in ([23, 24, 80, 152, 170, 260] if q else list(range(0, 90)) + [127, 128, 129, 152, 170, 255, 256, 257, 300, 500]): r.append(Job('h_c21_expand', [32, n, 65, 0], weight=200))
        for l in [] if q else [254 * 32, 255 * 32 - 1, 255 * 32]: r.append(Job('h_c21_expand', [32, 1, l, 0], weight=9999, cap=780, mode=dict(acap=1000)))
        r.append(Job('h_c21_expand', [32, 1, 255 * 32, 1], weight=9999, cap=600))
        for l in [255 * 32 + 1, 256 * 32, 256 * 32 + 1, 257 * 32, 511 * 32, 513 * 32]: r.append(Job('h_c21_long', [32, 1, l]))
        return r
    def bounds(s, tier): return 'all contents; keys, salts and texts up to 129 bytes around the block size, output lengths up to 97 bytes (255 blocks only for one fixed key), six refused lengths' if tier == 'quick' else 'all contents; key lengths 0-130 and 191-193, texts around block boundaries, info lengths 0-89, output lengths 0-130, 160, 255-257, 1000, 254 and 255 blocks, six refused lengths'

@prop
class C07(Prop):
    id = 'C07'
    VAR = (0, 1, 2); LEN = {3: 1, 4: 5, 5: 8, 6: 5, 7: 8, 8: 3, 9: 4, 10: 4, 11: 4}
    def jobs(s, tier):
        q = tier == 'quick'
        N = [0, 1, 2, 5] if q else range(0, 13)
        r = [Job('h_c07_clen5'), Job('h_c07_clen8')]
        for k in range(15):
            vn, vm = k in (0, 1, 2, 3, 5, 12), k in (0, 1, 2, 3, 4, 8, 9, 10, 11)
            for n in (N if vn else [0]):
                for m in (([0, 1, 3, 6] if q else range(0, 11)) if vm else [0]):
                    if q and vn and vm and (n + m) % 2 and (n, m) != (5, 6): continue
                    for f in ('update_sub', 'update', 'update_start'): r.append(Job('h_c07_' + f, [k, n, m], weight=n + m))
        for k in range(12):
            var = k in s.VAR
            for n in (N if var else [0]):
                L = n if var else s.LEN[k]
                for f in ('sub', 'subr', 'chunk', 'all'): r.append(Job('h_c07_' + f, [k, n], weight=L))
                for m in ({0, 1, L // 2, max(L - 1, 0), L, L + 1} if q else range(0, L + 2)): r.append(Job('h_c07_set', [k, n, m], weight=L))
                if n == 0 or not var:
                    for m in ((0, 4, 6, 9) if q else range(0, 13)): r += [Job('h_c07_from', [k, 0 if var else L, m, (0 if var else 1) + h], weight=m) for h in (0, 2)]
        return r
    def bounds(s, tier): return 'all contents; offsets: all 64-bit values; range lengths: all 64-bit values for update_sub, up to one more than the source for the allocating functions; chunk sizes 1-255 and chunk numbers 0-255; sequence lengths up to %d, arrays of 1, 3, 4, 5 and 8 elements' % (6 if tier == 'quick' else 12)

@prop
class C11(Prop):
    id = 'C11'
    def jobs(s, tier):
        r = []; q = tier == 'quick'
        for t in UINTS:
            for n in (1, 3, 6):
                for op in range(7): r += [Job('h_c11_sec_' + t, [n, op]), Job('h_c11_pub_' + t, [n, op])]
                r += [Job('h_c11_pub_' + t, [n, 7]), Job('h_c11_cmp_' + t, [n])]
            for n in ((0, 4) if q else range(13)):
                for op in range(3):
                    for m in ({n, n + 1} if q else {n, max(0, n - 1), n + 1, 2 * n}): r.append(Job('h_c11_vec_' + t, [n, op, m]))
        for t in INTS:
            for n in ((0, 1, 5) if q else range(13)):
                for op in range(7):
                    for m in ({n, n + 1, max(0, n - 2)} if q else {n, max(0, n - 1), n + 1, 2 * n}): r.append(Job('h_c11_seq_' + t, [n, op, m]))
        for n in ((0, 1, 4, 17) if q else range(34)):
            for m in {n, n + 1, max(0, n - 1)}: r.append(Job('h_c11_eqseq', [n, m]))
        return r
    def bounds(s, tier): return 'all contents; arrays of 1, 3 and 6 elements of each unsigned type; public sequences of %s elements (all ten integer types), equal and unequal lengths; byte sequences up to %d bytes for equality' % (('0, 1 and 5', 17) if tier == 'quick' else ('0 to 12', 33))

@prop
class C06(Prop):
    id = 'C06'; std = True
    def jobs(s, tier):
        q = tier == 'quick'; r = []
        for k in range(5):
            for n in ((0, 1, 2, 3, 8) if q else range(0, 33)): r.append(Job('h_c06_parse', [k, n], weight=n))
        for k, L in ((5, 2), (6, 8), (7, 40), (8, 2), (9, 8), (10, 40)):
            for n in {0, L - 1, L, L + 1, L + 2}: r.append(Job('h_c06_parse', [k, n], weight=n))
        for k in (0, 1):
            for n in ((0, 1, 2, 5) if q else range(0, 17)): r.append(Job('h_c06_print', [k, n], weight=9 * n))
        for k, n in ((2, 1), (3, 4), (4, 1), (5, 4)): r.append(Job('h_c06_print', [k, n], weight=9 * n))
        return r
    def bounds(s, tier): return 'all ASCII strings of %s characters without "+" (any character in any position) and 0 to 42 for byte arrays of 1, 4 and 20 bytes; printing: all byte strings of up to %d bytes' % (('0-3 and 8', 5) if tier == 'quick' else ('0-32', 16))

@prop
class C13(Prop):
    id = 'C13'; std = True
    UN = dict(P8=8, P20=20, P64=64, P130=130, P256=256, L128=128, Q8=8, Q64=64, Q272=272); SG = dict(S8=8, S64=64, S136=136, R64=64)
    def jobs(s, tier):
        q = tier == 'quick'; r = []
        for t, b in list(s.UN.items()) + list(s.SG.items()):
            n = (b + 7) // 8; sg = t in s.SG
            for e in ((0, 1) if q else (0, 1, 2, 9)): r.append(Job('h_c13_from_' + t, [e], weight=b))
            for op in range(3): r.append(Job('h_c13_bin_' + t, [op], weight=2 * b))
            for k in range(4): r.append(Job('h_c13_lit_' + t, [k], weight=b))
            for k in sorted({0, 1, b // 2, b - 1, b, b + 1, b + 9} if q else range(b + 10)): r.append(Job('h_c13_pow2_' + t, [k]))
            if not sg:
                for k in sorted({0, 7, b // 2, b - 1, 8 * n - 1, 8 * n, 8 * n + 3} if q else range(8 * n + 10)): r.append(Job('h_c13_bit_' + t, [k]))
                for k in sorted(({0, 1, n - 1, n, n + 1} if b < 200 else {0, 1, 8, n}) if q else range(n + 3)): r.append(Job('h_c13_bytes_' + t, [k], weight=k)); r.append(Job('h_c13_hex_' + t, [2 * k], weight=k))
            if t[0] in 'PLS':
                for k in range(2): r.append(Job('h_c13_div_' + t, [k], weight=b))
                r.append(Job('h_c13_cmp_' + t))
            if t in ('P8', 'P64', 'P130', 'P256', 'L128'): r += [Job('h_c13_pow_' + t, [k]) for k in range(3)]
        return r
    def bounds(s, tier): return 'types of 8, 20, 64, 128, 130, 256 and 272 bits (unsigned, public and secret) and 8, 64 and 136 bits (signed); every pair of values; every integer of the type\'s width plus %s bytes; bit and power positions %s' % (('1', 'around the ends') if tier == 'quick' else ('9', 'all, and past the end'))
