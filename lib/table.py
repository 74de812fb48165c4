"""Queries per property."""
from engine import Query as Q

class Prop:
    def __init__(self, queries, functions, outside, assumptions=(), exhaustive=False):
        self.queries = queries
        self.meta = dict(functions=functions, outside=outside, assumptions=list(assumptions), exhaustive=exhaustive)

PROPS = {}

# ---------------------------------------------------------------- bits
PROPS['R01'] = Prop([Q('bitops', 'bits.c', dict(T_BIT=1), shift=True, bound='all 2^32 values x 256 positions'),
                     Q('inplace', 'bits.c', dict(T_BIT_ALIAS=1), shift=True, bound='all 2^32 values x 32 positions')],
                    ['BitManipulation_bitSet', 'BitManipulation_setBit', 'BitManipulation_clearBit', 'BitManipulation_toggleBit'],
                    'nothing: the whole input space is decided', exhaustive=True)
PROPS['R02'] = Prop([Q('reflect', 'bits.c', dict(T_REFLECT=1), unwind=300, shift=True, bound='all 2^32 values, widths 0-32')],
                    ['BitManipulation_reflect'], 'widths above 32 (no meaning for a 32-bit value)', exhaustive=True)
PROPS['R03'] = Prop([Q('rotl', 'bits.c', dict(T_ROTL=1), shift=True, bound='all 2^32 values, amounts 0-32')],
                    ['BitManipulation_rotl32'], 'amounts above 32 (the interface leaves them open)', exhaustive=True)

# ---------------------------------------------------------------- utils
PROPS['U01'] = Prop([Q('ser%d%s' % (b, 'be' if o else 'le'), 'utils.c', dict(T_SER=1, BITS=b, ORDER=o), bound='all values, all byte contents')
                     for b in (8, 16, 24, 32) for o in ((0,) if b == 8 else (0, 1))],
                    ['Utils_serialize*', 'Utils_deserialize*'], 'nothing: the whole input space is decided', exhaustive=True)
PROPS['U02'] = Prop([Q('blob%d_m%d' % (n, m), 'utils.c', dict(T_BLOB=1, SIZE=n, MODE=m), bound='all contents of %d bytes' % n)
                     for m in range(4) for n in (0, 1, 2, 3, 5, 8)] +
                    [Q('blob%d_m%d' % (n, m), 'utils.c', dict(T_BLOB=1, SIZE=n, MODE=m, SPARSE=sp), unwind=n + 80, fs=n + 64, tier=t,
                       bound='%d bytes, every %dth symbolic' % (n, sp))
                     for m in range(4) for n, sp, t in ((300, 16, 'quick'), (1030, 64, 'thorough'))],
                    ['Utils_serializeBlobBE', 'Utils_serializeBlobLE', 'Utils_deserializeBlobBE', 'Utils_deserializeBlobLE'],
                    'sizes other than those listed')
PROPS['U03'] = Prop([Q('str%d' % n, 'utils.c', dict(T_STR=1, LEN=n), unwind=n + 2, solver=['kissat'], alts=[{}, dict(REF_SUM=1)] if n > 4 else [{}], bound='all strings of %d characters' % n)
                     for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 100, 255)],
                    ['Utils_stringToUint32', 'Utils_quickUint32Pow10'], 'lengths other than those listed')
PROPS['U04'] = Prop([Q('pow10', 'utils.c', dict(T_POW=1), bound='all 256 exponents'), Q('chars', 'utils.c', dict(T_CHARS=1), bound='all 256 characters')],
                    ['Utils_quickUint32Pow10', 'Utils_isUpperChar', 'Utils_isLowerChar', 'Utils_isAlpha'],
                    'nothing: the whole input space is decided', exhaustive=True)
PROPS['U05'] = Prop([Q('swap%d%s' % (n, k), 'utils.c', dict(T_SWAP=1, SIZE=n, **({k: 1} if k else {})), bound='all contents of two %d-byte elements' % n)
                     for n in (0, 1, 2, 3, 4, 7, 8, 9) for k in ('', 'SELF', 'REV')] +
                    [Q('swap%d%s' % (n, k), 'utils.c', dict(T_SWAP=1, SIZE=n, SPARSE=16, **({k: 1} if k else {})), unwind=2 * n + 80, fs=2 * n + 64,
                       bound='two %d-byte elements, every 16th byte symbolic' % n) for n in (64, 300) for k in ('', 'SELF')],
                    ['Utils_swapElements'], 'sizes other than those listed; partially overlapping elements')

# ---------------------------------------------------------------- base64
PROPS['B01'] = Prop([Q('enc%d_x%d' % (n, x), 'b64.c', dict(T_ENC=1, LEN=n, CAPX=x), unwind=60, bound='all contents of %d bytes, capacity %d beyond the exact fit' % (n, x))
                     for n in range(0, 13) for x in (0, 1, 5)] +
                    [Q('enc%d' % n, 'b64.c', dict(T_ENC=1, LEN=n, CAPX=0, SPARSE=sp), unwind=2 * n + 80, fs=2 * n + 64, bound='%d bytes, every %dth and the last four symbolic' % (n, sp))
                     for n, sp in ((48, 1), (191, 9), (192, 9), (193, 9), (300, 17))],
                    ['Base64_encode'], 'lengths other than those listed')
PROPS['B02'] = Prop([Q('dec%d_p%d_v%d_x%d' % (n, p, v, x), 'b64.c', dict(T_DEC=1, LEN=n, PAD=p, VIA=v, CAPX=x), unwind=n // 3 + 3, bound='all contents of %d bytes' % n)
                     for n in range(1, 11) for p in (0, 1) for v, x in ((0, 0), (1, 3))] +
                    [Q('dec%d_p%d' % (n, p), 'b64.c', dict(T_DEC=1, LEN=n, CAPX=0, PAD=p, VIA=0, SPARSE=sp), unwind=n // 3 + 3, fs=2 * n + 64, bound='%d bytes, every %dth and the last four symbolic' % (n, sp))
                     for n, sp in ((48, 1), (49, 1), (193, 17), (257, 31), (300, 31)) for p in (0, 1)],
                    ['Base64_decode', 'Base64_encode'], 'lengths other than those listed')
PROPS['B03'] = Prop([Q('encsafe%d' % n, 'b64.c', dict(T_ENC_SAFE=1, LEN=n), unwind=60, bound='all contents of %d bytes, all capacities 0..text+3' % n) for n in range(0, 9)] +
                    [Q('encexact%d_%d' % (n, c), 'b64.c', dict(T_ENC_SAFE=1, LEN=n, CAP=c), unwind=60, bound='all contents of %d bytes, exact object of %d bytes' % (n, c))
                     for n in (0, 1, 3, 4, 6) for c in range(0, 4 * ((n + 2) // 3) + 2)] +
                    [Q('decsafe%d' % n, 'b64.c', dict(T_DEC_SAFE=1, LEN=n), unwind=n // 4 + 3, bound='arbitrary %d input bytes, all capacities' % n) for n in range(0, 13)] +
                    [Q('decexact%d_%d' % (n, c), 'b64.c', dict(T_DEC_SAFE=1, LEN=n, CAP=c), unwind=n // 4 + 3, bound='arbitrary %d input bytes, exact output object of %d bytes' % (n, c))
                     for n in (0, 1, 2, 3, 4, 5, 6, 7, 8) for c in range(0, ((n + 3) // 4) * 3 + 1)] +
                    [Q('deccap%d_p%d' % (n, p), 'b64.c', dict(T_DEC_CAP=1, LEN=n, PAD=p), unwind=n // 3 + 3, bound='valid text of %d bytes, all smaller capacities' % n)
                     for n in range(1, 10) for p in (0, 1)],
                    ['Base64_encode', 'Base64_decode'], 'lengths other than those listed')

# ---------------------------------------------------------------- CRC
# published parameters (RevEng catalogue): file, function, width, poly, init, reflected, xorout
CRC = [
    ('crc8', 'Crc8', 8, 0x07, 0x00, 0, 0x00), ('crc8_8h2f', 'Crc8_8h2f', 8, 0x2F, 0xFF, 0, 0xFF),
    ('crc8_cdma2000', 'Crc8_cdma2000', 8, 0x9B, 0xFF, 0, 0x00), ('crc8_darc', 'Crc8_darc', 8, 0x39, 0x00, 1, 0x00),
    ('crc8_dvb_s2', 'Crc8_dvbS2', 8, 0xD5, 0x00, 0, 0x00), ('crc8_ebu', 'Crc8_ebu', 8, 0x1D, 0xFF, 1, 0x00),
    ('crc8_icode', 'Crc8_icode', 8, 0x1D, 0xFD, 0, 0x00), ('crc8_itu', 'Crc8_itu', 8, 0x07, 0x00, 0, 0x55),
    ('crc8_maxim', 'Crc8_maxim', 8, 0x31, 0x00, 1, 0x00), ('crc8_rohc', 'Crc8_rohc', 8, 0x07, 0xFF, 1, 0x00),
    ('crc8_sae_j1850', 'Crc8_saeJ1850', 8, 0x1D, 0xFF, 0, 0xFF), ('crc8_sae_j1850_zero', 'Crc8_saeJ1850Zero', 8, 0x1D, 0x00, 0, 0x00),
    ('crc8_wcdma', 'Crc8_wcdma', 8, 0x9B, 0x00, 1, 0x00),
    ('crc16_a', 'Crc16_a', 16, 0x1021, 0xC6C6, 1, 0), ('crc16_arc', 'Crc16_arc', 16, 0x8005, 0, 1, 0),
    ('crc16_aug_ccit', 'Crc16_augCcit', 16, 0x1021, 0x1D0F, 0, 0), ('crc16_buypass', 'Crc16_buypass', 16, 0x8005, 0, 0, 0),
    ('crc16_ccit_false', 'Crc16_ccitFalse', 16, 0x1021, 0xFFFF, 0, 0), ('crc16_ccit_zero', 'Crc16_ccitZero', 16, 0x1021, 0, 0, 0),
    ('crc16_cdma2000', 'Crc16_cdma2000', 16, 0xC867, 0xFFFF, 0, 0), ('crc16_dds110', 'Crc16_dds110', 16, 0x8005, 0x800D, 0, 0),
    ('crc16_dect_r', 'Crc16_dectR', 16, 0x0589, 0, 0, 1), ('crc16_dect_x', 'Crc16_dectX', 16, 0x0589, 0, 0, 0),
    ('crc16_dnp', 'Crc16_dnp', 16, 0x3D65, 0, 1, 0xFFFF), ('crc16_en_13757', 'Crc16_en13757', 16, 0x3D65, 0, 0, 0xFFFF),
    ('crc16_genibus', 'Crc16_genibus', 16, 0x1021, 0xFFFF, 0, 0xFFFF), ('crc16_kermit', 'Crc16_kermit', 16, 0x1021, 0, 1, 0),
    ('crc16_maxim', 'Crc16_maxim', 16, 0x8005, 0, 1, 0xFFFF), ('crc16_mcrf4xx', 'Crc16_mcrf4xx', 16, 0x1021, 0xFFFF, 1, 0),
    ('crc16_modbus', 'Crc16_modbus', 16, 0x8005, 0xFFFF, 1, 0), ('crc16_riello', 'Crc16_riello', 16, 0x1021, 0xB2AA, 1, 0),
    ('crc16_t10_dif', 'Crc16_t10Dif', 16, 0x8BB7, 0, 0, 0), ('crc16_teledisk', 'Crc16_teledisk', 16, 0xA097, 0, 0, 0),
    ('crc16_tms37157', 'Crc16_tms37157', 16, 0x1021, 0x89EC, 1, 0), ('crc16_usb', 'Crc16_usb', 16, 0x8005, 0xFFFF, 1, 0xFFFF),
    ('crc16_x_25', 'Crc16_x25', 16, 0x1021, 0xFFFF, 1, 0xFFFF),
    ('crc32', 'Crc32', 32, 0x04C11DB7, 0xFFFFFFFF, 1, 0xFFFFFFFF), ('crc32_bzip2', 'Crc32_bzip2', 32, 0x04C11DB7, 0xFFFFFFFF, 0, 0xFFFFFFFF),
    ('crc32_c', 'Crc32_c', 32, 0x1EDC6F41, 0xFFFFFFFF, 1, 0xFFFFFFFF), ('crc32_d', 'Crc32_d', 32, 0xA833982B, 0xFFFFFFFF, 1, 0xFFFFFFFF),
    ('crc32_jamcrc', 'Crc32_jamcrc', 32, 0x04C11DB7, 0xFFFFFFFF, 1, 0), ('crc32_mpeg2', 'Crc32_mpeg2', 32, 0x04C11DB7, 0xFFFFFFFF, 0, 0),
    ('crc32_posix', 'Crc32_posix', 32, 0x04C11DB7, 0, 0, 0xFFFFFFFF), ('crc32_q', 'Crc32_q', 32, 0x814141AB, 0, 0, 0),
    ('crc32_xfer', 'Crc32_xfer', 32, 0xAF, 0, 0, 0)]


def crcdefs(v, **kw):
    f, fn, w, poly, init, refl, xo = v
    return dict(HDR='"%s.h"' % f, FN=fn, W=w, POLY='0x%XU' % poly, INIT='0x%XU' % init, REFIN=refl, REFOUT=refl, XOROUT='0x%XU' % xo, **({} if refl or xo else dict(NOFINAL=1)), **kw)


PROPS['C01'] = Prop(
    [Q('%s_0_%d' % (v[0], h), 'crc.c', crcdefs(v, T_MSG=1, LO=0, HI=h), unwind=70, prio=v[2], solver=['cadical'] if v[2] == 32 else ['minisat'],
       bound='all messages of 0..%d bytes' % h) for v in CRC for h in [{8: 4, 16: 3, 32: 2}[v[2]]]] +
    [Q('%s_long%d' % (v[0], n), 'crc.c', crcdefs(v, T_LONG=1, LEN=n, SYM=1), unwind=n + 20, fs=n + 64, prio=v[2],
       bound='%d bytes, fixed prefix, last byte arbitrary' % n) for v in CRC for n in (270,)] +
    [Q('%s_%d' % (v[0], h), 'crc.c', crcdefs(v, T_MSG=1, LO=h, HI=h), tier='thorough', core=False, timeout=700, solver=['cadical', 'kissat'],
       bound='all messages of %d bytes' % h) for v in CRC for h in [{8: 6, 16: 4, 32: 3}[v[2]]]] +
    [Q('%s_long%d' % (v[0], n), 'crc.c', crcdefs(v, T_LONG=1, LEN=n, SYM=2), unwind=n + 20, fs=n + 64, tier='thorough', core=False, timeout=300,
       bound='%d bytes, fixed prefix, last two bytes arbitrary' % n) for v in CRC for n in (259, 1030)],
    ['Crc8*', 'Crc16*', 'Crc32* (45 variants)', 'Crc8Base', 'Crc16Base', 'Crc32Base', 'BitManipulation_reflect'],
    'message lengths other than those listed; contents of the fixed prefix of the long messages')

UF = ['cadical-uf', 'minisat']
PROPS['C02'] = Prop(
    [Q('%s_%d_%d_%d' % (v[0], n, a, b), 'crc.c', crcdefs(v, T_CHUNK=1, N=n, A=a, B=b), solver=UF,
       bound='all messages of %d bytes cut at %d and %d' % (n, a, b)) for v in CRC for n, a, b in ((3, 0, 2), (4, 1, 4), (8, 4, 4), (9, 4, 6))] +
    [Q('%s_bytewise%d' % (v[0], n), 'crc.c', crcdefs(v, T_CHUNKS_BYTEWISE=1, N=n), solver=UF, bound='all messages of %d bytes, %d one-byte and %d empty chunks' % (n, n, n + 1))
     for v in CRC for n in (5,)] +
    [Q('%s_inter' % v[0], 'crc.c', crcdefs(v, T_INTER=1), solver=UF, bound='two interleaved messages of 2 bytes') for v in CRC] +
    [Q('%s_long_%d' % (v[0], c), 'crc.c', crcdefs(v, T_CHUNK_LONG=1, LEN=270, SYM=2, CUT=c), solver=UF, unwind=290, fs=334, bound='270 bytes cut at %d, last two arbitrary' % c)
     for i, v in enumerate(CRC) for c in ((8, 258)[i % 2],)] +
    [Q('%s_%d_%d_%d' % (v[0], n, a, b), 'crc.c', crcdefs(v, T_CHUNK=1, N=n, A=a, B=b), solver=UF, tier='thorough',
       bound='all messages of %d bytes cut at %d and %d' % (n, a, b)) for v in CRC for n in (5, 12) for a in range(n + 1) for b in range(a, n + 1) if (a + b) % 3 == 0],
    ['Crc8*', 'Crc16*', 'Crc32* (45 variants)', 'Crc8Base', 'Crc16Base', 'Crc32Base', 'BitManipulation_reflect'],
    'message lengths and cut positions other than those listed')

PROPS['C03'] = Prop(
    [Q('gen%d_%d' % (w, f), 'crcbase.c', dict(T_TABLE=1, W=w, FROM=f, TO=f + 32), unwind=260, fs=300, solver=['kissat'], alts=[{}, dict(ITE=1)] if w > 8 else [{}],
       bound='all 2^%d polynomials, entries %d..%d' % (w, f, f + 31)) for w in (8, 16, 32) for f in range(0, 256, 32)] +
    [Q('exact%d' % w, 'crcbase.c', dict(T_TABLE_EXACT=1, W=w), unwind=260, fs=300, solver=['kissat'], bound='all 2^%d polynomials, table object of exactly 256 entries' % w) for w in (8, 16, 32)] +
    [Q('use%d_%x' % (w, p), 'crcbase.c', dict(T_GENUSE=1, W=w, POLY='0x%XU' % p, N=n), unwind=260, fs=300, solver=['kissat', 'cadical'], bound='polynomial %x, all messages of %d bytes, all initial values' % (p, n))
     for w, p, n in ((8, 0x9B, 2), (16, 0x3D65, 2), (32, 0x04C11DB7, 1), (32, 0xAF, 1))],
    ['Crc8Base_tableCalculator', 'Crc16Base_tableCalculator', 'Crc32Base_tableCalculator', 'Crc8Base', 'Crc16Base', 'Crc32Base'],
    'nothing for the generators (all polynomials, all entries); for the use of a generated table: polynomials and lengths other than those listed')

PROPS['C04'] = Prop(
    [Q('engine%d_%d' % (w, n), 'crcbase.c', dict(T_ENGINE=1, W=w, PRE=0, N=n), unwind=70, fs=300, solver=['cadical'], prio=n,
       bound='all tables, all %d-byte messages, all initial and XOR values, all switches' % n) for w in (8, 16, 32) for n in (0, 1, 2, 3, 4)] +
    [Q('long%d_r%d' % (w, ri), 'crcbase.c', dict(T_ENGINE=1, FIXTAB=1, RI=ri, W=w, PRE=298, N=2), unwind=370, fs=420, solver=['cadical'],
       bound='one fixed table and initial value, 298 fixed and 2 arbitrary message bytes, all XOR values, output switches') for w in (8, 16, 32) for ri in (0, 1)] +
    [Q('engine%d_%d' % (w, n), 'crcbase.c', dict(T_ENGINE=1, W=w, PRE=0, N=n), unwind=70, fs=300, solver=['cadical', 'kissat'], tier='thorough', core=False, timeout=700,
       bound='all tables, all %d-byte messages, all initial and XOR values, all switches' % n) for w in (8, 16, 32) for n in (6, 8)],
    ['Crc8Base', 'Crc16Base', 'Crc32Base', 'BitManipulation_reflect'], 'message lengths other than those listed')

# ---------------------------------------------------------------- ciphers
SYM = dict(SYMK=0, SYMKN=8, SYMN=1, SYMC=1)
CF = ['Chacha20_crypt', 'Block', 'QuarterRound', 'BitManipulation_rotl32', 'Utils_deserialize32LE', 'Utils_serialize32LE']
PROPS['K01'] = Prop(
    [Q('fixed%d_%x' % (n, c), 'chacha.c', dict(T_SPEC=1, LEN=n, CTR='0x%XU' % c), unwind=70, fs=n + 64, bound='one key, nonce and counter %x, all messages of %d bytes' % (c, n))
     for n, c in ((0, 0), (1, 1), (64, 0), (65, 0xFFFFFFFF), (129, 0x7FFFFFFF), (200, 0xFFFFFFFE), (300, 0xFF))] +
    [Q('all%d' % n, 'chacha.c', dict(T_SPEC=1, LEN=n, **SYM), solver=['cvc5', 'kissat', 'cadical'] if n <= 64 else ['cvc5'], core=False, prio=n, timeout=300,
       bound='all keys, nonces, counters and messages of %d bytes' % n) for n in (1, 33, 64, 65, 130)] +
    [Q('all%d' % n, 'chacha.c', dict(T_SPEC=1, LEN=n, **SYM), solver=['cvc5'], core=False, tier='thorough', timeout=600,
       bound='all keys, nonces, counters and messages of %d bytes' % n) for n in (3, 63, 66, 127, 128, 129, 192, 193, 256, 300)],
    CF, 'message lengths other than those listed')
PROPS['K02'] = Prop(
    [Q('fblocks%d_%x' % (n, c), 'chacha.c', dict(T_BLOCKS=1, OTHER=1, LEN=n, CTR='0x%XU' % c), unwind=70, fs=n + 64, bound='one key, nonce and counter %x, all messages of %d bytes' % (c, n))
     for n, c in ((1, 0xFFFFFFFF), (63, 9), (64, 0), (65, 0xFFFFFFFF), (127, 0), (128, 255), (192, 0xFFFFFFFE), (200, 0xFFFFFFFD), (300, 0xFFFF))] +
    [Q('finvol%d' % n, 'chacha.c', dict(T_INVOL=1, LEN=n), unwind=70, fs=n + 64, bound='one key, nonce and counter, all messages of %d bytes' % n) for n in (1, 2, 63, 64, 65, 128, 200)] +
    [Q('fspec%d' % n, 'chacha.c', dict(T_SPEC=1, LEN=n, CTR=7), unwind=70, fs=n + 64, bound='one key, nonce and counter, all messages of %d bytes; exact write count' % n) for n in (2, 62, 63, 66, 100, 127, 191)] +
    [Q('blocks%d' % n, 'chacha.c', dict(T_BLOCKS=1, LEN=n, **SYM, **o), solver=['cvc5', 'z3'], core=False, timeout=250, prio=n,
       bound='all keys, nonces, counters and messages of %d bytes' % n) for n, o in ((65, {}), (130, dict(OTHER=1)))] +
    [Q('prefix%d_%d' % (n, k), 'chacha.c', dict(T_PREFIX=1, LEN=n, MORE=k, **SYM), solver=['cvc5', 'z3'], core=False, timeout=250, prio=k,
       bound='all keys, nonces, counters and messages of %d bytes, prefix of %d' % (k, n)) for n, k in ((1, 64), (5, 10), (65, 90))] +
    [Q('invol%d' % n, 'chacha.c', dict(T_INVOL=1, LEN=n, **SYM), solver=['cvc5', 'z3'], core=False, timeout=250, prio=n,
       bound='all keys, nonces, counters and messages of %d bytes' % n) for n in (1, 64, 65)] +
    [Q('blocks%d' % n, 'chacha.c', dict(T_BLOCKS=1, LEN=n, OTHER=1, **SYM), solver=['cvc5', 'z3'], core=False, timeout=600, tier='thorough',
       bound='all keys, nonces, counters and messages of %d bytes' % n) for n in (64, 128, 129, 200, 256, 300)],
    CF, 'message lengths other than those listed; partially overlapping message and result')
PROPS['K03'] = Prop(
    [Q('caesar%d' % n, 'cipher.c', dict(T_CAESAR=1, LEN=n), unwind=n + 5, bound='all strings of up to %d characters, all shifts' % n) for n in (0, 1, 2, 3, 4, 6)] +
    [Q('caesarback%d' % n, 'cipher.c', dict(T_CAESAR=1, DEC_FIRST=1, LEN=n), unwind=n + 5, bound='all strings of up to %d characters, all shifts' % n) for n in (1, 3)] +
    [Q('caesar%d' % n, 'cipher.c', dict(T_CAESAR=1, NONUL=1, SPARSE=sp, FILL='32U', LEN=n), unwind=n + 20, fs=n + 64, bound='strings of %d characters, every %dth and the last two arbitrary, all shifts' % (n, sp))
     for n, sp in ((40, 8), (300, 150))] +
    [Q('caesar%d' % n, 'cipher.c', dict(T_CAESAR=1, LEN=n), unwind=n + 5, core=False, tier='thorough', timeout=600, solver=['kissat', 'minisat'], bound='all strings of up to %d characters, all shifts' % n) for n in (10, 16, 24)],
    ['CaesarCipher_encrypt', 'CaesarCipher_decrypt', 'Utils_isAlpha', 'Utils_isUpperChar'], 'lengths other than those listed')
PROPS['K04'] = Prop(
    [Q('vernam%d' % n, 'cipher.c', dict(T_VERNAM=1, LEN=n), unwind=n + 5, bound='all messages and keys of %d characters' % n) for n in (0, 1, 2, 3, 4, 6)] +
    [Q('vernam%d' % n, 'cipher.c', dict(T_VERNAM=1, LEN=n, SPARSE=sp), unwind=n + 20, fs=n + 64, bound='messages and keys of %d characters, every %dth and the last two arbitrary' % (n, sp))
     for n, sp in ((40, 8), (300, 100))] +
    [Q('shift', 'cipher.c', dict(T_VERNAM_SHIFT=1), bound='all pairs of letters, all 256 key characters')] +
    [Q('len%d_%d' % (n, k), 'cipher.c', dict(T_VERNAM_LEN=1, LEN=n, KEYOBJ=k), unwind=n + 5, bound='all messages of up to %d characters, all other stated key lengths' % n) for n, k in ((0, 1), (1, 0), (3, 0), (5, 2))] +
    [Q('len%d' % n, 'cipher.c', dict(T_VERNAM_LEN=1, LEN=n, KEYOBJ=0, SPARSE=50), unwind=n + 20, fs=n + 64, bound='messages of %d characters (an earlier NUL may shorten them), all other stated key lengths' % n) for n in (300,)] +
    [Q('vernam%d' % n, 'cipher.c', dict(T_VERNAM=1, LEN=n), unwind=n + 5, core=False, tier='thorough', timeout=600, solver=['kissat', 'minisat'], bound='all messages and keys of %d characters' % n) for n in (10, 16, 24)],
    ['VernamCipher_encrypt', 'VernamCipher_decrypt', 'GetKeyShift', 'Utils_isAlpha', 'Utils_isUpperChar', 'Utils_isLowerChar'], 'lengths other than those listed')

# ---------------------------------------------------------------- JSON
def build(n, kv, cap, **kw):
    kv = list(kv) + [(0, 0)] * (3 - len(kv))
    d = dict(T_BUILD=1, NPAIR=n, MAXCAP=cap, **kw)
    for i, (k, v) in enumerate(kv):
        d['K%d' % i], d['V%d' % i] = k, v
    return d


def textlen(kv):
    return 2 + sum(5 + k + v for k, v in kv) + max(0, len(kv) - 1)


J1 = [[], [(0, 0)], [(1, 1)], [(2, 3)], [(1, 0), (0, 1)], [(1, 2), (2, 1)], [(3, 1), (1, 4)], [(1, 1), (1, 1), (1, 1)], [(0, 1), (2, 0), (1, 2)]]
PROPS['J01'] = Prop(
    [Q('build_' + '_'.join('%d.%d' % t for t in kv) + ('s%d' % st), 'json.c', build(len(kv), kv, textlen(kv) + 3, SYMCH=2, **({'STALE': 1} if st else {})),
       unwind=textlen(kv) + 6, prio=len(kv), bound='pairs of lengths %s, first two characters of each string arbitrary, all capacities 0..%d%s' % (kv, textlen(kv) + 3, ', stale buffer' if st else ''))
     for kv in J1 for st in (0, 1)] +
    [Q('exact_%s_%d' % ('_'.join('%d.%d' % t for t in kv), c), 'json.c', build(len(kv), kv, c, SYMCH=1, CAP=c), unwind=textlen(kv) + 6,
       bound='pairs of lengths %s, first character of each arbitrary, buffer object of exactly %d bytes' % (kv, c))
     for kv in ([(1, 1)], [(2, 1), (0, 2)]) for c in range(1, textlen(kv) + 2)] +
    [Q('long_' + '_'.join('%d.%d' % t for t in kv), 'json.c', build(len(kv), kv, textlen(kv) + 2, SYMCH=0, MAXTEXT=textlen(kv) + 8), unwind=textlen(kv) + 20, fs=textlen(kv) + 64,
       bound='fixed strings of lengths %s, all capacities 0..%d' % (kv, textlen(kv) + 2))
     for kv in ([(10, 130), (5, 130)], [(140, 6), (2, 2)], [(270, 3)])],
    ['Json_startString', 'Json_addData', 'Json_endString'], 'string lengths and numbers of pairs other than those listed')


def find(kv, ws='0000000', key=1, nul=0, sym=2, **kw):
    d = dict(T_FIND=1, NF=len(kv), KEYLEN=key, NUL_INCLUDED=nul, SYMCH=sym, MAXV=max([v for _, v in kv] + [0]) + 1, **kw)
    kv = list(kv) + [(0, 0)] * (4 - len(kv))
    for i, (k, v) in enumerate(kv):
        d['N%d' % i], d['V%d' % i] = k, v
    for i, c in enumerate(ws):
        d['WS%d' % i] = int(c)
    return d


def doclen(kv, ws, nul):
    w = [int(c) for c in ws]
    return w[0] + 1 + w[1] + sum(5 + k + v + w[3] + w[4] + w[5] for k, v in kv) + (len(kv) - 1) * (1 + w[2]) + 1 + w[6] + nul


def findq(name, kv, ws, key, nul, tier='quick', core=True, timeout=240, **kw):
    n = doclen(kv, ws, nul)
    return Q(name, 'json.c', find(kv, ws, key, nul, **dict(dict(MAXDOC=n + 4), **kw)), unwind=n + 3, fs=n + 64, prio=n, tier=tier, core=core, timeout=timeout,
             bound='document of %d bytes, field lengths %s, whitespace %s, key of %d characters, all capacities' % (n, kv, ws, key))


PROPS['J02'] = Prop(
    [findq('one%d' % i, *c, SYMWS=1) for i, c in enumerate([
        ([(1, 1)], '0000000', 1, 0), ([(0, 1)], '0000000', 0, 1), ([(1, 0)], '0000000', 1, 1), ([(2, 1)], '0000000', 1, 0), ([(1, 2)], '0000000', 2, 0),
        ([(1, 1)], '0001000', 1, 0), ([(1, 1)], '0000100', 1, 0), ([(1, 1)], '1100011', 1, 0), ([(2, 2)], '0001100', 2, 1), ([(1, 1)], '0002200', 1, 0),
        ([(3, 1)], '0000000', 2, 0), ([(2, 1)], '0000000', 3, 0), ([(1, 1)], '0002000', 1, 0), ([(1, 1)], '0000200', 1, 0), ([(3, 1)], '0000000', 3, 0)])] +
    [findq('two%d' % i, *c) for i, c in enumerate([
        ([(1, 1), (1, 1)], '0000000', 1, 0), ([(2, 1), (1, 2)], '0000000', 1, 0), ([(1, 2), (2, 0)], '0000000', 2, 1), ([(0, 1), (1, 1)], '0000000', 0, 0),
        ([(1, 1), (1, 1)], '0010000', 1, 0), ([(1, 1), (1, 1)], '0001100', 1, 1), ([(1, 0), (1, 1)], '0000010', 1, 0), ([(1, 3), (3, 1)], '0000000', 3, 0)])] +
    [findq('three', [(1, 1), (1, 0), (1, 1)], '0000000', 1, 0, sym=1)] +
    [findq('long%d' % i, *c, sym=0, FIXKEY=fk) for i, (c, fk) in enumerate([
        (([(3, 260), (2, 2)], '0000000', 3, 0), 0), (([(3, 260), (2, 2)], '0000000', 2, 1), 1), (([(270, 3)], '0000000', 270, 0), 0), (([(3, 3), (140, 140), (2, 7)], '1111111', 2, 0), 2),
        (([(3, 5), (4, 140), (4, 9)], '0000000', 4, 1), 1)])] +
    [findq('more%d' % i, *c, tier='thorough', core=False, timeout=700) for i, c in enumerate([
        ([(1, 1), (1, 1), (1, 1)], '0000000', 1, 1), ([(2, 2), (1, 2), (2, 1)], '0000000', 2, 0), ([(1, 1), (1, 1)], '1111111', 1, 0), ([(2, 3), (3, 2)], '0011100', 3, 0),
        ([(1, 1), (1, 1), (1, 1), (1, 1)], '0000000', 1, 0)])],
    ['Json_findByKey', 'SkipSpaces', 'FindQuote'],
    'documents of other shapes and lengths; names or values containing double quotes', ['names and values contain no double quote and no NUL'])

PROPS['J03'] = Prop(
    [Q('wild%d_k%d' % (n, k), 'json.c', dict(T_WILD=1, SIZE=n, KEYLEN=k), unwind=n + 4, prio=n, bound='all %d-byte buffers, all keys of up to %d characters, all capacities' % (n, k))
     for n, k in ((0, 0), (0, 1), (1, 1), (2, 0), (3, 1), (4, 0), (5, 1), (6, 2), (7, 0), (8, 1), (9, 3), (10, 1), (12, 2))] +
    [Q('cap%d_k%d_c%d' % (n, k, c), 'json.c', dict(T_WILD=1, SIZE=n, KEYLEN=k, CAP=c), unwind=n + 4, bound='all %d-byte buffers, all keys of up to %d characters, output object of exactly %d bytes' % (n, k, c))
     for n, k, c in ((7, 0, 0), (8, 1, 0), (8, 1, 1), (8, 1, 2), (9, 1, 2), (7, 0, 1))] +
    [Q('keylong%d_k%d' % (n, k), 'json.c', dict(T_WILD=1, SIZE=n, KEYLEN=k), unwind=max(n, k) + 4, bound='all %d-byte buffers, all keys of up to %d characters, all capacities' % (n, k)) for n, k in ((5, 8), (3, 12))] +
    [Q('wild%d_k%d' % (n, k), 'json.c', dict(T_WILD=1, SIZE=n, KEYLEN=k), unwind=n + 4, tier='thorough', core=False, timeout=700,
       bound='all %d-byte buffers, all keys of up to %d characters, all capacities' % (n, k)) for n, k in ((14, 1), (16, 2), (20, 1))],
    ['Json_findByKey', 'SkipSpaces', 'FindQuote'], 'buffer and key lengths other than those listed')

# ---------------------------------------------------------------- containers
PROPS['M01'] = Prop(
    [Q('ops_c%d_k%d_v%d_n%d_m%d' % (c, k, v, n, m), 'map.c', dict(T_OPS=1, NMAPS=m, CAP=c, KS=k, VS=v, NOPS=n), unwind=max(c, k, v) + 4, prio=n * m * c,
       bound='%d map(s) of %d keys, key size %d, value size %d: all sequences of %d operations' % (m, c, k, v, n))
     for c, k, v, n, m in ((1, 1, 1, 4, 1), (2, 1, 1, 6, 1), (2, 2, 3, 5, 1), (3, 1, 2, 6, 1), (3, 3, 1, 5, 1), (2, 1, 2, 5, 2), (4, 1, 1, 6, 1), (2, 4, 5, 4, 1))] +
    [Q('big_c%d_k%d_v%d_f%d%s' % (c, k, v, f, 's' if s else ''), 'map.c', dict(T_BIG=1, CAP=c, KS=k, VS=v, FILL=f, **({'SYMKEY': 1} if s else {})), unwind=max(c, k, v) + 4, fs=c * max(k, v) + 64, prio=50,
       bound='map of %d keys holding %d fixed ones, key size %d, value size %d' % (c, f, k, v))
     for c, k, v, f, s in ((2, 300, 300, 1, 0), (3, 300, 3, 3, 0), (3, 1, 300, 2, 0), (30, 20, 30, 20, 0), (40, 2, 1, 40, 1))] +
    [Q('big_c%d_k%d_v%d_f%d' % (c, k, v, f), 'map.c', dict(T_BIG=1, CAP=c, KS=k, VS=v, FILL=f), unwind=max(c, k, v) + 4, fs=c * max(k, v) + 64, tier='thorough', core=False, timeout=700,
       bound='map of %d keys holding %d fixed ones, key size %d, value size %d' % (c, f, k, v)) for c, k, v, f in ((300, 2, 2, 300), (140, 3, 2, 139))] +
    [Q('ops_c%d_k%d_v%d_n%d_m%d' % (c, k, v, n, m), 'map.c', dict(T_OPS=1, NMAPS=m, CAP=c, KS=k, VS=v, NOPS=n), unwind=max(c, k, v) + 4, tier='thorough', core=False, timeout=700, solver=['minisat', 'cadical'],
       bound='%d map(s) of %d keys, key size %d, value size %d: all sequences of %d operations' % (m, c, k, v, n)) for c, k, v, n, m in ((3, 2, 2, 8, 1), (4, 1, 1, 8, 1), (2, 2, 2, 7, 2), (5, 1, 1, 7, 1))],
    ['Map_init', 'Map_insert', 'Map_getValue', 'GetIndex'], 'longer sequences, other sizes')

PROPS['Q01'] = Prop(
    [Q('ops_c%d_e%d_n%d_k%d_q%d' % (c, e, n, k, q), 'queue.c', dict(T_OPS=1, NQ=q, CAP=c, ES=e, NOPS=n, KINDS=k), unwind=max(c, e) + 4, prio=n * q,
       bound='%d queue(s) of %d elements of %d bytes: all sequences of %d operations%s' % (q, c, e, n, ', missing arguments included' if k > 3 else ''))
     for c, e, n, k, q in ((1, 1, 6, 9, 1), (2, 1, 9, 3, 1), (3, 1, 10, 3, 1), (2, 3, 7, 9, 1), (4, 2, 9, 3, 1), (3, 2, 7, 9, 1), (2, 1, 7, 3, 2), (5, 1, 11, 3, 1))] +
    [Q('big_c%d_e%d_r%d_f%d' % (c, e, r, f), 'queue.c', dict(T_BIG=1, CAP=c, ES=e, ROT=r, FILL=f, PROBE=p, **({'DRAIN': d} if d else {})), unwind=max(c, e, f) + 4, fs=c * e + 64, prio=50,
       bound='queue of %d elements of %d bytes: %d pass through, %d stored' % (c, e, r, f))
     for c, e, r, f, p, d in ((260, 1, 3, 260, 2, 4), (3, 300, 2, 3, 1, 0), (270, 2, 265, 20, 12, 0), (130, 3, 0, 130, 129, 0))] +
    [Q('ops_c%d_e%d_n%d_k%d_q%d' % (c, e, n, k, q), 'queue.c', dict(T_OPS=1, NQ=q, CAP=c, ES=e, NOPS=n, KINDS=k), unwind=max(c, e) + 4, tier='thorough', core=False, timeout=700, solver=['minisat', 'cadical'],
       bound='%d queue(s) of %d elements of %d bytes: all sequences of %d operations' % (q, c, e, n)) for c, e, n, k, q in ((3, 1, 16, 3, 1), (4, 2, 14, 9, 1), (3, 2, 12, 3, 2), (7, 1, 16, 3, 1))],
    ['Queue_init', 'Queue_enqueue', 'Queue_dequeue', 'Queue_front', 'Queue_rear', 'Queue_empty', 'Queue_full'], 'longer sequences, other sizes')

PQF = ['PriorityQueue_init', 'PriorityQueue_enqueue', 'PriorityQueue_dequeue', 'PriorityQueue_empty', 'GetHighestPriorityIndex', 'GetLowestPriorityIndex', 'Full']


def pqbig(tier, cs):
    return [Q('big_c%d_e%d_r%d_%d' % (c, e, r, i), 'pqueue.c', dict(T_BIG=1, CAP=c, ES=e, READ=r, PRI=pri), unwind=max(c, e) + 4, fs=4 * c * e + 64, prio=50, tier=tier, core=(tier == 'quick'), timeout=700,
              bound='queue of %d elements of %d bytes with fixed priorities, an enqueue below and above the lowest, %d dequeued' % (c, e, r))
            for i, (c, e, r, pri) in enumerate(cs)]


PROPS['P01'] = Prop(
    [Q('ops_c%d_e%d_n%d_q%d' % (c, e, n, q), 'pqueue.c', dict(T_OPS=1, NQ=q, CAP=c, ES=e, NOPS=n), unwind=max(c, e) + 4, prio=n * q * c, solver=['minisat', 'cadical'],
       bound='%d queue(s) of %d elements of %d bytes: all sequences of %d operations, then all dequeued' % (q, c, e, n))
     for c, e, n, q in ((1, 1, 4, 1), (2, 1, 5, 1), (2, 3, 4, 1), (3, 1, 5, 1), (3, 2, 4, 1), (4, 1, 5, 1), (2, 1, 4, 2))] +
    pqbig('quick', [(3, 300, 3, '(i * 3U) % 7U'), (40, 2, 6, '(i * 37U) % 23U'), (20, 20, 3, '(i / 2U)')]) +
    pqbig('thorough', [(300, 1, 3, '(i == 280U) ? 500U : ((i == 270U) ? 0U : 20U)'), (270, 2, 2, 'i')]) +
    [Q('ops_c%d_e%d_n%d_q%d' % (c, e, n, q), 'pqueue.c', dict(T_OPS=1, NQ=q, CAP=c, ES=e, NOPS=n), unwind=max(c, e) + 4, tier='thorough', core=False, timeout=700, solver=['minisat', 'cadical', 'kissat'],
       bound='%d queue(s) of %d elements of %d bytes: all sequences of %d operations, then all dequeued' % (q, c, e, n)) for c, e, n, q in ((3, 1, 7, 1), (4, 1, 7, 1), (2, 2, 7, 1), (3, 1, 5, 2))],
    PQF, 'longer sequences, other sizes')
PROPS['P02'] = Prop(
    [Q('evict_c%d_e%d_%d_%d_%d' % (c, e, a, d, b), 'pqueue.c', dict(T_EVICT=1, NQ=1, CAP=c, ES=e, PRE=a, DEQ=d, POST=b), unwind=max(c, e) + 4, prio=c * (a + b), solver=['minisat', 'cadical'],
       bound='queue of %d elements of %d bytes, all priorities: %d enqueued, %d dequeued, %d enqueued' % (c, e, a, d, b))
     for c, e, a, d, b in ((1, 1, 1, 0, 2), (1, 3, 2, 1, 2), (2, 2, 2, 0, 2), (2, 1, 3, 1, 2), (3, 2, 3, 0, 2), (3, 1, 3, 1, 2), (3, 1, 4, 2, 3), (4, 1, 4, 0, 1), (4, 3, 5, 1, 1), (2, 2, 1, 0, 1), (5, 1, 5, 0, 1))] +
    pqbig('quick', [(3, 300, 0, '(i * 3U) % 7U'), (300, 1, 0, '(i == 270U) ? 0U : 20U'), (140, 2, 1, '(i == 133U) ? 0U : 20U'), (20, 20, 1, '(19U - i / 2U)')]) +
    [Q('evict_c%d_e%d_%d_%d_%d' % (c, e, a, d, b), 'pqueue.c', dict(T_EVICT=1, NQ=1, CAP=c, ES=e, PRE=a, DEQ=d, POST=b), unwind=max(c, e) + 4, tier='thorough', core=False, timeout=700, solver=['minisat', 'cadical', 'kissat'],
       bound='queue of %d elements of %d bytes, all priorities: %d enqueued, %d dequeued, %d enqueued' % (c, e, a, d, b)) for c, e, a, d, b in ((3, 2, 5, 2, 4), (4, 1, 5, 1, 3), (5, 2, 5, 1, 2), (6, 1, 6, 0, 1))],
    PQF, 'longer sequences, other sizes')

PROPS['I01'] = Prop(
    [Q('map_init', 'map.c', dict(T_INIT=1), bound='all 2^96 size combinations, all combinations of missing storage, all previous states'),
     Q('queue_init', 'queue.c', dict(T_INIT=1), bound='all size combinations, missing storage or not, all previous states'),
     Q('pq_init', 'pqueue.c', dict(T_INIT=1), bound='all size combinations, missing arguments or not, all previous states')] +
    [Q('map_fresh_c%d_k%d_v%d' % t, 'map.c', dict(T_FRESH=1, CAP=t[0], KS=t[1], VS=t[2]), unwind=12, bound='all previous states, %d keys of %d bytes, values of %d' % t) for t in ((1, 1, 1), (2, 1, 2), (3, 2, 1), (5, 1, 1))] +
    [Q('queue_fresh_c%d_e%d' % t, 'queue.c', dict(T_FRESH=1, CAP=t[0], ES=t[1]), unwind=12, bound='all previous states, %d elements of %d bytes' % t) for t in ((1, 1), (2, 3), (3, 1), (5, 2))] +
    [Q('pq_fresh_c%d_e%d' % t, 'pqueue.c', dict(T_FRESH=1, CAP=t[0], ES=t[1]), unwind=12, bound='all previous states, %d elements of %d bytes' % t) for t in ((1, 1), (2, 3), (3, 1), (5, 2))],
    ['Map_init', 'Queue_init', 'PriorityQueue_init', 'Map_insert', 'Map_getValue', 'Queue_*', 'PriorityQueue_*'],
    'use after set-up for capacities other than those listed (the set-up decision itself is covered completely)')

# ---------------------------------------------------------------- sorts
SORTS = [('bubble', 'BubbleSort_sort'), ('heap', 'HeapSort_sort'), ('insertion', 'InsertionSort_sort'), ('selection', 'SelectionSort_sort')]


def sortq(chk, sorts, shapes, big, stable=False):
    qs = []
    for nm, fn in SORTS:
        if nm not in sorts:
            continue
        base = dict(HDR='"%s_sort.h"' % nm, FN=fn)
        for n, es, tier in shapes:
            if nm == 'insertion' and es > 64:
                continue
            if nm == 'heap' and n > (5 if tier == 'quick' else 6):
                continue
            if es >= 64 and nm in ('heap', 'selection'):
                # positions of the exchanged elements would be symbolic: one fixed order instead
                qs.append(Q('%s_n%d_e%d' % (nm, n, es), 'sort.c', dict(T_SORT=1, N=n, ES=es, CHK=chk, RANK='((i * 2U + 1U) %% %dU)' % n, **base), unwind=max(n * n, es, 4) + 6, fs=(n + 4) * es + 64, tier=tier,
                            bound='%d elements of %d bytes, one fixed order' % (n, es)))
                continue
            qs.append(Q('%s_n%d_e%d' % (nm, n, es), 'sort.c', dict(T_SORT=1, N=n, ES=es, CHK=chk, **base), unwind=max(n * n, es, 4) + 6, prio=n * (3 if nm == 'heap' else 1) + es // 64, fs=(n + 4) * es + 64,
                        tier=tier, core=tier == 'quick', timeout=240 if tier == 'quick' else 700, solver=['minisat'] if tier == 'quick' else ['minisat', 'cadical', 'kissat'],
                        bound='%d elements of %d bytes, every ranking (all weak orders, all input orders)' % (n, es)))
        for n, es, key, tier in big.get(nm, []):
            qs.append(Q('%s_big_n%d_e%d' % (nm, n, es), 'sort.c', dict(T_BIG=1, N=n, ES=es, KEY=key, **({'STABLE': 1} if stable else {}), **base), unwind=max(n, es) + 20, fs=n * es + 64, prio=60,
                        tier=tier, core=tier == 'quick', timeout=240 if tier == 'quick' else 700, bound='%d elements of %d bytes, one fixed order' % (n, es)))
    return qs


ALL4 = ('bubble', 'heap', 'insertion', 'selection')
SHAPES = [(0, 1, 'quick'), (0, 4, 'quick'), (1, 1, 'quick'), (1, 3, 'quick'), (2, 1, 'quick'), (2, 2, 'quick'), (2, 5, 'quick'), (3, 1, 'quick'), (3, 4, 'quick'), (3, 8, 'quick'), (4, 3, 'quick'), (5, 2, 'quick'), (6, 2, 'quick'),
          (2, 64, 'quick'), (3, 65, 'quick'), (2, 300, 'quick'), (7, 2, 'thorough'), (8, 1, 'thorough'), (5, 16, 'thorough')]
NEAR = '((i == 3U) ? 290U : ((i == 280U) ? 2U : i))'
NEARS = '((i == 3U) ? 7U : ((i == 266U) ? 262U : i))'
BIGS = {'bubble': [(300, 2, '((i == 3U) ? 7U : i)', 'quick')], 'insertion': [(270, 2, NEARS, 'quick'), (300, 2, NEAR, 'thorough')], 'selection': [(132, 2, '((i * 5U) % 132U)', 'quick'), (300, 2, NEAR, 'thorough')],
        'heap': [(140, 2, '((i * 3U) % 100U)', 'quick'), (300, 2, NEAR, 'thorough')]}
SF = ['BubbleSort_sort', 'HeapSort_sort', 'Heapify', 'InsertionSort_sort', 'SelectionSort_sort', 'Utils_swapElements']
PROPS['S01'] = Prop(
    sortq(1, ALL4, SHAPES, BIGS) +
    [Q('%s_values_n%d_e%d%s' % (nm, n, es, 'd' if d else ''), 'sort.c', dict(T_VALUES=1, N=n, ES=es, HDR='"%s_sort.h"' % nm, FN=fn, **({'DESC': 1} if d else {})), unwind=30,
       bound='%d arbitrary %d-byte elements (equal ones included), %s' % (n, es, 'descending' if d else 'ascending')) for nm, fn in SORTS for n, es, d in ((1, 2, 0), (3, 1, 0), (3, 2, 1), (4, 1, 0))],
    SF, 'more elements, other element sizes; insertion sort with elements above its documented 64 bytes')
PROPS['S02'] = Prop(
    sortq(2, ALL4, SHAPES, BIGS) +
    [Q('%s_exact_n%d_e%d' % (nm, n, es), 'sort.c', dict(T_SORT=1, NOGUARD=1, N=n, ES=es, CHK=2, HDR='"%s_sort.h"' % nm, FN=fn), unwind=max(n * n, es) + 8, bound='%d elements of %d bytes in an object of exactly that size, every ranking' % (n, es))
     for nm, fn in SORTS for n, es in ((0, 1), (1, 1), (1, 4), (2, 2), (3, 2), (4, 1))],
    SF, 'more elements, other element sizes; insertion sort with elements above its documented 64 bytes')
PROPS['S03'] = Prop(
    sortq(3, ('bubble', 'insertion'), [s for s in SHAPES if s[0] > 1], {'bubble': [(300, 2, '((i == 3U) ? 7U : (i / 4U) * 4U)', 'quick')], 'insertion': [(270, 2, '((i == 266U) ? 65U : (i / 4U))', 'quick')]}, stable=True),
    ['BubbleSort_sort', 'InsertionSort_sort', 'Utils_swapElements'], 'more elements, other element sizes; insertion sort with elements above its documented 64 bytes')

# ---------------------------------------------------------------- scheduler
PROPS['T01'] = Prop(
    [Q('run%d_m%d' % (n, m), 'sched.c', dict(T_RUN=1, N=n, MUT=m), unwind=n + 4, prio=n * (1 + m), solver=['minisat', 'cadical'] if n > 2 else ['minisat'],
       bound='all tables of %d slots over six task functions%s' % (n, ', each able to rewrite any slot' if m else '')) for n, m in ((0, 0), (1, 0), (1, 1), (2, 1), (3, 0), (3, 1), (4, 1), (5, 0))] +
    [Q('runbig%d_%d' % (n, s), 'sched.c', dict(T_RUNBIG=1, N=n, STEP=s), unwind=n + 10, fs=n + 64, bound='%d slots, every %dth holds a function, one arbitrary slot inactive' % (n, s)) for n, s in ((300, 7), (300, 1))] +
    [Q('run%d_m%d' % (n, m), 'sched.c', dict(T_RUN=1, N=n, MUT=m), unwind=n + 4, tier='thorough', core=False, timeout=700, solver=['minisat', 'cadical', 'kissat'],
       bound='all tables of %d slots over six task functions%s' % (n, ', each able to rewrite any slot' if m else '')) for n, m in ((5, 1), (6, 1), (8, 0))],
    ['Scheduler_run'], 'tables of other sizes; tasks that call the scheduler themselves')
PROPS['T02'] = Prop(
    [Q('add%d_%d%s' % (n, a, 'i' if i else ''), 'sched.c', dict(T_ADD=1, N=n, ADDS=a, **({'INIT': 1} if i else {})), unwind=n + 4, bound='all tables of %d slots, %d additions%s' % (n, a, ' after initialisation' if i else ''))
     for n, a in ((0, 1), (1, 2), (2, 3), (3, 4), (5, 3), (6, 7)) for i in (0, 1)] +
    [Q('addbig%d' % n, 'sched.c', dict(T_ADDBIG=1, N=n), unwind=n + 10, fs=n + 64, bound='%d slots, four chosen ones freed and refilled' % n) for n in (270,)],
    ['Scheduler_init', 'Scheduler_addTask'], 'tables of other sizes')

# ---------------------------------------------------------------- properties across functions
def roundq(name, kv, cap, key, sym, whole=0, old='', oldsym=0, tier='quick', **kw):
    d = dict(T_ROUND=1, NPAIR=len(kv), CAP=cap, KEYLEN=key, SYMCH=sym, MAXV=max([v for _, v in kv] + [0]) + 1)
    for i, (k, v) in enumerate(list(kv) + [(0, 0)] * (3 - len(kv))):
        d['K%d' % i], d['V%d' % i] = k, v
    if whole:
        d['WHOLE'] = 1
    if old:
        d['OLD'], d['OLDSYM'] = '"%s"' % old.replace('"', '\\"'), oldsym
    return Q(name, 'json.c', d, unwind=cap + 8, fs=cap + 64, prio=cap, tier=tier, core=tier == 'quick', timeout=240 if tier == 'quick' else 700,
             bound='pairs of lengths %s into a buffer of %d bytes%s, lookup of a key of %d characters, first %d characters of every string arbitrary, size given: %s'
             % (kv, cap, ' that held other text and %d arbitrary bytes' % oldsym if old else '', key, sym, 'whole buffer' if whole else 'text length'), **kw)


OLDTEXT = '{"a":"old","aa":"b"}'
PROPS['J04'] = Prop(
    [roundq('round%d_%d' % (i, w), kv, textlen(kv) + 1 + x, key, 2, whole=w) for i, (kv, x, key) in enumerate([
        ([(1, 1)], 0, 1), ([(2, 1)], 2, 2), ([(0, 1)], 0, 0), ([(1, 0)], 1, 1), ([(1, 1), (1, 1)], -2, 1)]) for w in (0, 1)] +
    [roundq('old0', [], 12, 1, 1, whole=1, old=OLDTEXT, oldsym=9)] +
    [roundq('more%d' % i, kv, textlen(kv) + 1, key, 3, tier='thorough', solver=['minisat', 'cadical', 'kissat']) for i, (kv, key) in enumerate([([(3, 3), (3, 2)], 3), ([(1, 3), (2, 2), (1, 1)], 1), ([(2, 3), (3, 3)], 2)])],
    ['Json_startString', 'Json_addData', 'Json_endString', 'Json_findByKey'], 'string lengths and numbers of pairs other than those listed', ['keys and values contain no double quote'])

PROPS['C05'] = Prop(
    [Q('%s_n%d_p%d' % (v[0], n, p), 'crc.c', crcdefs(v, T_BURST=1, N=n, P=p), prio=v[2], solver=['kissat'] if v[2] == 32 else ['minisat'], bound='all messages of %d bytes, all bursts of up to %d bits from bit %d on' % (n, v[2], p))
     for v in CRC for n, ps in [{8: (3, (0, 5, 11, 16)), 16: (3, (0, 3, 8)), 32: (3, (0,))}[v[2]]] for p in ps] +
    [Q('%s_n%d_p%d' % (v[0], n, p), 'crc.c', crcdefs(v, T_BURST=1, N=n, P=p), solver=['cadical', 'minisat'], tier='thorough', core=False, timeout=700, bound='all messages of %d bytes, all bursts of up to %d bits from bit %d on' % (n, v[2], p))
     for v in CRC for n, ps in [{8: (6, (0, 20)), 16: (5, (4, 24)), 32: (5, (0, 8))}[v[2]]] for p in ps],
    ['Crc8*', 'Crc16*', 'Crc32* (45 variants)', 'Crc8Base', 'Crc16Base', 'Crc32Base', 'BitManipulation_reflect'], 'message lengths and burst positions other than those listed')

PROPS['T03'] = Prop(
    [Q('life%d_%d' % (n, o), 'sched.c', dict(T_LIFE=1, N=n, OPS=o), unwind=n + o + 4, prio=n * o, bound='table of %d slots, all sequences of %d operations (add, remove, switch on or off, run)' % (n, o))
     for n, o in ((1, 5), (2, 5), (3, 6), (4, 5))] +
    [Q('life%d_%d' % (n, o), 'sched.c', dict(T_LIFE=1, N=n, OPS=o), unwind=n + o + 4, tier='thorough', core=False, timeout=700, solver=['minisat', 'cadical', 'kissat'],
       bound='table of %d slots, all sequences of %d operations (add, remove, switch on or off, run)' % (n, o)) for n, o in ((2, 8), (3, 8), (4, 8), (6, 7))],
    ['Scheduler_init', 'Scheduler_addTask', 'Scheduler_run'], 'tables of other sizes, longer histories')

PROPS['N01'] = Prop(
    [Q('%s_in_%s' % (b, a), 'nested.c', dict(T_SORTS=1, N=3, ES=2, M=m, ES2=3, HDR='"%s_sort.h"' % a, FN=fa, HDR2='"%s_sort.h"' % b, FN2=fb), unwind=12, prio=20, bound='outer array of 3 elements in every ranking, inner array of %d arbitrary elements sorted in any one of the comparisons' % m)
     for a, fa in SORTS for b, fb in SORTS for m in (2,)] +
    [Q('pass%d_%d' % (n, m), 'nested.c', dict(T_PASS=1, N=n, M=m), unwind=n + m + 6, bound='all outer tables of %d slots whose tasks run another table of %d slots or add to a third' % (n, m)) for n, m in ((1, 2), (2, 2), (3, 2), (3, 3))],
    SF + ['Scheduler_run', 'Scheduler_addTask'], 'other sizes; more than one level of nesting')

# ---------------------------------------------------------------- long inputs, decided by the executor of LLVM IR (lib/irx.py)
def ir(prop, name, harness, defs, bound, tier='quick', timeout=400, prio=30):
    PROPS[prop].queries.append(Q('ir_' + name, harness, defs, solver=['irx'], core=False, tier=tier, timeout=timeout, prio=prio, bound=bound))


N16 = 65536
for i, (kv, cap, key, os) in enumerate([([(1, 0)], 40, 2, 0), ([(1, 1), (1, 0)], 48, 1, 0), ([(2, 1)], 60, 1, 3), ([(1, 2), (1, 1), (2, 1)], 64, 1, 0), ([(1, 1)], 66000, 1, 0), ([(3, 66000)], 66020, 3, 2)]):
    q = roundq('x', kv, cap, key, 1, whole=1, old=OLDTEXT, oldsym=os)
    ir('J04', 'old%d' % i, 'json.c', q.defs, q.bound)
for i, (kv, x, key) in enumerate([([(1, 1), (1, 1)], 0, 1), ([(1, 2), (2, 1)], 0, 2), ([(2, 1), (1, 2)], -3, 1), ([(1, 1), (1, 1), (1, 1)], 0, 1), ([(3, 3), (3, 2)], 0, 3), ([(1, 3), (2, 2), (1, 1)], 0, 1), ([(2, 3), (3, 3)], 0, 2), ([(0, 3), (1, 3), (0, 2)], 0, 0), ([(1, 3), (1, 2), (1, 3)], -4, 1), ([(3, 6)], 5, 3)]):
    for w in (0, 1):
        q = roundq('x', kv, textlen(kv) + 1 + x, key, 6, whole=w)
        ir('J04', 'round%d_%d' % (i, w), 'json.c', q.defs, q.bound)
for n, x in ((70003, 0), (65538, 1), (33000, 0)):
    ir('B01', 'enc%d' % n, 'b64.c', dict(T_ENC=1, LEN=n, CAPX=x, SPOT=n * 15 // 16), '%d bytes, two symbolic' % n)
for n, p in ((70001, 0), (70001, 1), (65537, 0), (49153, 1), (24577, 0)):
    ir('B02', 'dec%d_p%d' % (n, p), 'b64.c', dict(T_DEC=1, LEN=n, CAPX=0, PAD=p, VIA=0, SPOT=n * 15 // 16), '%d bytes, two symbolic' % n)
for n, c in ((50001, 65537), (50001, 66668), (70000, 1000), (24600, 32769), (300, 270), (300, 400)):
    ir('B03', 'encexact%d_%d' % (n, c), 'b64.c', dict(T_ENC_SAFE=1, LEN=n, CAP=c, SPOT=n * 15 // 16), '%d bytes (few symbolic), exact object of %d bytes' % (n, c))
for n, p, c in ((70001, 0, 65537), (70001, 1, 70000), (300, 0, 299), (300, 1, 260), (33000, 1, 32769)):
    ir('B03', 'deccap%d_p%d_%d' % (n, p, c), 'b64.c', dict(T_DEC_CAP=1, LEN=n, PAD=p, CAP=c, SPOT=n * 15 // 16), 'valid text of %d bytes, capacity %d' % (n, c))
for v in CRC:
    ir('C01', '%s_65545' % v[0], 'crc.c', crcdefs(v, T_LONG=1, LEN=65545, SYM=1), '65545 bytes, fixed prefix, last byte arbitrary')
    ir('C02', '%s_66000' % v[0], 'crc.c', crcdefs(v, T_CHUNK_LONG=1, LEN=66000, SYM=1, CUT=65540), '66000 bytes cut at 65540, last byte arbitrary')
for w in (8, 16, 32):
    for ri in (0, 1):
        ir('C04', 'long%d_r%d' % (w, ri), 'crcbase.c', dict(T_ENGINE=1, FIXTAB=1, RI=ri, W=w, PRE=65540, N=1), 'one fixed table and initial value, 65540 fixed and one arbitrary message byte, all XOR values, output switches')
for n, c in ((16453, 5), (65800, 0xFFFFFFF0), (65536, 0)):
    ir('K02', 'tail%d' % n, 'chacha.c', dict(T_TAIL=1, LEN=n, CTR='0x%XU' % c), '%d bytes, last full block and tail partly arbitrary' % n)
for n, c in ((1100, 0xFFFFFFFE), (16453, 9)):
    ir('K01', 'spec%d' % n, 'chacha.c', dict(T_SPEC=1, LEN=n, CTR='0x%XU' % c), 'one key, nonce and counter %x, all messages of %d bytes' % (c, n))
for n in (70001, 65536, 33000):
    ir('K03', 'caesar%d' % n, 'cipher.c', dict(T_CAESAR=1, NONUL=1, SPOT=n - 1, FILL='32U', LEN=n), 'strings of %d characters, the last one arbitrary, all shifts' % n)
    ir('K04', 'vernam%d' % n, 'cipher.c', dict(T_VERNAM=1, LEN=n, SPOT=n - 1), 'messages and keys of %d characters, the last one of each arbitrary' % n)
    ir('K04', 'len%d' % n, 'cipher.c', dict(T_VERNAM_LEN=1, LEN=n, KEYOBJ=0, SPOT=n // 2, FILL='90U'), 'messages of %d characters, all other stated key lengths' % n)
for kv, d in (([(3, 66000), (5, 3)], 0), ([(3, 66000), (5, 3)], 1), ([(66000, 2)], 0), ([(66000, 2)], 1), ([(3, 32770), (2, 33000)], 0)):
    n = textlen(kv)
    ir('J01', 'long%d_%d' % (n, d), 'json.c', build(len(kv), kv, n + 1 - d, CAP=n + 1 - d, SYMCH=1, MAXTEXT=n + 8), 'strings of lengths %s, the first character of each arbitrary, capacity %d' % (kv, n + 1 - d))
for i, (kv, k, fk, room) in enumerate((([(3, 66000), (2, 2)], 2, 1, 3), ([(3, 66000), (2, 2)], 3, 0, 66001), ([(3, 66000), (2, 2)], 3, 0, 66000), ([(66000, 5)], 66000, 0, 6), ([(66000, 5), (65999, 2)], 65999, 1, 3), ([(3, 33000), (4, 33000), (2, 2)], 2, 2, 3))):
    n = doclen(kv, '0000000', 0)
    ir('J02', 'long%d' % i, 'json.c', find(kv, '0000000', k, 0, 1, FIXKEY=fk, ROOM=room, MAXDOC=n + 4), 'document of %d bytes, field lengths %s, the first character of each string arbitrary' % (n, kv))
for i, (pre, n, k, tail, room) in enumerate((('{"k":"', 66000, 1, 3, 65994), ('{"k":"', 66000, 1, 3, 66002), ('{"k', 66000, 1, 3, 5), ('{"kkk":"v","', 66000, 2, 3, 5), ('{"k"    ', 300, 1, 3, 5), ('{"k":"', 300, 1, 4, 296))):
    ir('J03', 'wild%d' % i, 'json.c', dict(T_WILD=1, SIZE=n, KEYLEN=k, TAIL=tail, ROOM=room, PREFIX='"%s"' % pre.replace('"', '\\"')), 'buffer of %d bytes starting with %s, last %d arbitrary' % (n, pre, tail))
for c, k, v, f in ((2, 66000, 66000, 1), (3, 66000, 3, 3), (3, 1, 66000, 2), (300, 2, 2, 300), (300, 2, 300, 290), (140, 3, 2, 140)):
    ir('M01', 'big_c%d_k%d_v%d_f%d' % (c, k, v, f), 'map.c', dict(T_BIG=1, CAP=c, KS=k, VS=v, FILL=f), 'map of %d keys holding %d fixed ones, key size %d, value size %d' % (c, f, k, v))
for c, e, r, f, p in ((66000, 1, 3, 66000, 65990), (66000, 3, 65990, 20, 12), (2, 66000, 1, 2, 1), (33000, 2, 0, 33000, 32999)):
    ir('Q01', 'big_c%d_e%d_r%d_f%d' % (c, e, r, f), 'queue.c', dict(T_BIG=1, CAP=c, ES=e, ROT=r, FILL=f, PROBE=p), 'queue of %d elements of %d bytes: %d pass through, %d stored' % (c, e, r, f))
for c, e, r, pri in ((66000, 1, 2, '(i == 65600U) ? 500U : ((i == 65570U) ? 0U : 20U)'), (300, 2, 300, '(i * 7U) % 31U'), (3, 66000, 3, '(i * 3U) % 7U'), (33000, 2, 2, '(i == 32780U) ? 0U : ((i == 32770U) ? 500U : 20U)')):
    for p in ('P01', 'P02'):
        ir(p, 'big_c%d_e%d_r%d' % (c, e, r), 'pqueue.c', dict(T_BIG=1, CAP=c, ES=e, READ=r, PRI=pri), 'queue of %d elements of %d bytes with fixed priorities, %d dequeued' % (c, e, r))
for nm, fn in SORTS:
    for p, chk in (('S01', 1), ('S02', 2), ('S03', 3)):
        if p == 'S03' and nm not in ('bubble', 'insertion'):
            continue
        for n, es, key, pr in {'bubble': [(66000, 4, '((i == 65560U) ? 32780U : i / 2U)', 65560), (300, 64, '((i == 3U) ? 290U : ((i == 280U) ? 2U : i))', 270)],
                               'insertion': [(66000, 4, '((i == 65600U) ? 32790U : i / 2U)', 65600), (300, 64, '((i * 7U) % 40U)', 280)],
                               'selection': [(300, 4, '((i * 7U) % 40U)', 290), (270, 300, '((i * 5U) % 270U)', 265)],
                               'heap': [(33000, 4, '((i * 7U) % 30011U)', 32900), (300, 300, '((i * 7U) % 40U)', 290)]}[nm]:
            ir(p, '%s_n%d_e%d' % (nm, n, es), 'sort.c', dict(T_BIG=1, N=n, ES=es, KEY=key, PROBEAT='%dU' % pr, KEYMASK=7 if nm in ('bubble', 'insertion') else 0, HDR='"%s_sort.h"' % nm, FN=fn, CHK=chk, **({'STABLE': 1} if p == 'S03' else {})),
               '%d elements of %d bytes in one fixed order, %s of element %d arbitrary' % (n, es, 'one of eight keys and a byte' if nm in ('bubble', 'insertion') else 'a byte', pr))
for n, s, o in ((66000, 7, 65992), (66000, 1, 65990), (33000, 1, 5)):
    ir('T01', 'runbig%d_%d' % (n, s), 'sched.c', dict(T_RUNBIG=1, N=n, STEP=s, OFFSLOT=o), '%d slots, every %dth holds a function, one of four slots from %d on inactive' % (n, s, o))
for n in (66000, 33000):
    ir('T02', 'addbig%d' % n, 'sched.c', dict(T_ADDBIG=1, N=n), '%d slots, four chosen ones freed and refilled' % n)
for n in (70001, 65536, 33001):
    for m in range(4):
        ir('U02', 'blob%d_m%d' % (n, m), 'utils.c', dict(T_BLOB=1, SIZE=n, MODE=m, SPARSE=20011), '%d bytes, every 20011th and the last three symbolic' % n)
    for k in ('', 'SELF'):
        ir('U05', 'swap%d%s' % (n, k), 'utils.c', dict(T_SWAP=1, SIZE=n, SPARSE=20011, **({k: 1} if k else {})), 'two %d-byte elements, every 20011th byte symbolic' % n)


# ---------------------------------------------------------------- whole ranges of sizes in one query
def sweep(prop, name, harness, lo, hi, defs, bound, m=None, tier='quick', timeout=400):
    """vp_n runs over lo..hi, vp_m (m = (lo, hi), expressions in vp_n allowed) over its range"""
    d = dict(defs, VP_PICK='%d,%d' % (lo, hi))
    if m:
        d['VP_PICK2_LO'], d['VP_PICK2'] = m
    ir(prop, 'sweep_' + name, harness, d, bound, tier=tier, timeout=timeout, prio=40)


for a, b in ((0, 50), (51, 80), (81, 110), (111, 128)):
    sweep('B01', 'enc%d' % a, 'b64.c', a, b, dict(T_ENC=1, LEN='vp_n', CAPX=0, SPARSE=5), 'every length from %d to %d, every 5th and the last four bytes symbolic' % (a, b))
    for p in (0, 1):
        sweep('B02', 'dec%d_p%d' % (a, p), 'b64.c', max(a, 1), b, dict(T_DEC=1, LEN='vp_n', CAPX=0, PAD=p, VIA=0, SPARSE=5), 'every length from %d to %d, every 5th and the last four bytes symbolic' % (a, b))
for kv, d in (([(3, 65530)], 65490), ([(3, 65530), (2, 2)], 40), ([(2, 3), (3, 65520)], 65500)):
    n = textlen(kv)
    ir('J01', 'short%d_%d' % (n, d), 'json.c', build(len(kv), kv, n + 1 - d, CAP=n + 1 - d, SYMCH=1, MAXTEXT=n + 8), 'strings of lengths %s, the first character of each arbitrary, capacity %d' % (kv, n + 1 - d))

# sweeps: every size of a range
for v in CRC:
    sweep('C01', v[0], 'crc.c', 3, 140, crcdefs(v, T_LONG=1, LEN='vp_n', SYM=1), 'every length from 3 to 140, fixed prefix, last byte arbitrary')
    sweep('C02', v[0], 'crc.c', 1, 16, crcdefs(v, T_CHUNK_LONG=1, LEN='vp_n', CUT='vp_m', SYM=1), 'every length from 1 to 16 cut at every position, last byte arbitrary', m=(0, 'vp_n'))
for w in (8, 16, 32):
    for ri in (0, 1):
        sweep('C04', 'long%d_r%d' % (w, ri), 'crcbase.c', 3, 140, dict(T_ENGINE=1, FIXTAB=1, RI=ri, W=w, PRE='vp_n', N=1), 'one fixed table and initial value, every number of fixed bytes from 3 to 140 and one arbitrary byte')
for a, b in ((0, 200), (201, 300), (301, 390)):
    sweep('K01', 'spec%d' % a, 'chacha.c', a, b, dict(T_SPEC=1, LEN='vp_n', CTR='0xFFFFFFFEU', SPARSE=9), 'one key, nonce and counter, every length from %d to %d, every 9th byte arbitrary' % (a, b))
    sweep('K02', 'blocks%d' % a, 'chacha.c', max(a, 1), b, dict(T_BLOCKS=1, LEN='vp_n', CTR='0xFFFFFFFEU', SPARSE=9), 'one key, nonce and counter, every length from %d to %d, every 9th byte arbitrary' % (a, b))
    sweep('K02', 'invol%d' % a, 'chacha.c', max(a, 1), b, dict(T_INVOL=1, LEN='vp_n', CTR='0xFFFFFFFEU', SPARSE=9), 'one key, nonce and counter, every length from %d to %d, every 9th byte arbitrary' % (a, b))
sweep('K03', 'caesar', 'cipher.c', 1, 140, dict(T_CAESAR=1, NONUL=1, SPOT='(vp_n - 1U)', FILL='32U', LEN='vp_n', SHIFT='vp_n * 7U'), 'every length from 1 to 140, the last character arbitrary, one shift per length')
sweep('K04', 'vernam', 'cipher.c', 1, 140, dict(T_VERNAM=1, LEN='vp_n', SPOT='(vp_n - 1U)', FIXKEY=1), 'every length from 1 to 140, the last character of the message arbitrary, one key')
sweep('K04', 'len', 'cipher.c', 1, 90, dict(T_VERNAM_LEN=1, LEN='vp_n', KEYOBJ=0, SPOT='(vp_n / 2U)', FILL='90U'), 'every length from 1 to 90, all other stated key lengths')
for a, b in ((0, 200), (201, 300), (301, 380)):
    for mode in range(4):
        sweep('U02', 'blob%d_m%d' % (a, mode), 'utils.c', a, b, dict(T_BLOB=1, SIZE='(uint32_t)vp_n', MODE=mode, SPARSE=9), 'every size from %d to %d, every 9th and the last three bytes symbolic' % (a, b))
    for k in ('', 'SELF', 'REV'):
        sweep('U05', 'swap%d%s' % (a, k), 'utils.c', a, b, dict(T_SWAP=1, SIZE='(uint32_t)vp_n', SPARSE=9, **({k: 1} if k else {})), 'every element size from %d to %d, every 9th byte symbolic' % (a, b))
for a, b in ((0, 24), (25, 36)):
    sweep('B03', 'enc%d' % a, 'b64.c', a, b, dict(T_ENC_SAFE=1, LEN='vp_n', CAP='vp_m', SPOT='(vp_n / 2U)'), 'every length from %d to %d with every capacity up to the text + 3, two bytes symbolic' % (a, b), m=(0, '4U * ((vp_n + 2U) / 3U) + 3U'))
    for p in (0, 1):
        sweep('B03', 'deccap%d_p%d' % (a, p), 'b64.c', max(a, 1), b, dict(T_DEC_CAP=1, LEN='vp_n', PAD=p, CAP='vp_m', SPOT='(vp_n / 2U)'), 'valid text of every length from %d to %d, every smaller capacity' % (a, b), m=(0, 'vp_n - 1U'))
for nm, fn in SORTS:
    for p, chk in (('S01', 1), ('S02', 2), ('S03', 3)):
        if p == 'S03' and nm not in ('bubble', 'insertion'):
            continue
        for i, key in enumerate(('(uint32_t)(vp_n - i)', '((i * 7U) % 13U)', '(i ^ 5U)')):
            sweep(p, '%s%d' % (nm, i), 'sort.c', 2, 40, dict(T_BIG=1, N='(uint32_t)vp_n', ES=4, KEY=key, PROBEAT='(uint32_t)(vp_n / 2U)', KEYMASK=7 if nm in ('bubble', 'insertion') else 0, HDR='"%s_sort.h"' % nm, FN=fn, CHK=chk, **({'STABLE': 1} if p == 'S03' else {})),
                  'every number of 4-byte elements from 2 to 40 with keys %s, a byte of the middle element and for bubble and insertion sort its key (one of eight) arbitrary' % key)
        for i, key in enumerate(('(i + 1U == N) ? 0U : i + 1U', '(i == 0U) ? N : i', '(i * 101U) % N')):
            for a in (126, 254):
                sweep(p, '%s_far%d_%d' % (nm, i, a), 'sort.c', a, a + 6, dict(T_BIG=1, N='(uint32_t)vp_n', ES=3, KEY='(%s)' % key, PROBEAT='(uint32_t)(vp_n / 2U)', KEYMASK=0, HDR='"%s_sort.h"' % nm, FN=fn, CHK=chk, **({'STABLE': 1} if p == 'S03' else {})),
                      'every number of 3-byte elements from %d to %d with keys %s, a byte of the middle element arbitrary' % (a, a + 6, key))
        sweep(p, '%s_es' % nm, 'sort.c', 2, 64, dict(T_BIG=1, N=5, ES='(uint32_t)vp_n', KEY='((i * 7U) % 4U)', PROBEAT='2U', KEYMASK=3 if nm in ('bubble', 'insertion') else 0, HDR='"%s_sort.h"' % nm, FN=fn, CHK=chk, **({'STABLE': 1} if p == 'S03' else {})),
              'five elements of every size from 2 to 64, a byte of the middle element and for bubble and insertion sort its key (one of four) arbitrary')
sweep('T01', 'run', 'sched.c', 1, 100, dict(T_RUNBIG=1, N='(uint32_t)vp_n', STEP=3, OFFSLOT='((uint32_t)vp_n / 2U)'), 'every table size from 1 to 100, one of four slots from the middle on inactive')
sweep('T02', 'add', 'sched.c', 2, 100, dict(T_ADDBIG=1, N='(uint32_t)vp_n'), 'every table size from 2 to 100, all taken, some freed and refilled')
sweep('M01', 'cap', 'map.c', 1, 24, dict(T_BIG=1, CAP='(uint32_t)vp_n', KS=2, VS=3, FILL='(uint32_t)vp_m'), 'every capacity from 1 to 24 with every number of keys', m=(1, 'vp_n'))
sweep('M01', 'sizes', 'map.c', 1, 40, dict(T_BIG=1, CAP=4, KS='(uint32_t)vp_n', VS='(uint32_t)vp_m', FILL=3), 'every key size from 1 to 40 with every value size from 1 to 12', m=(1, '12U'))
sweep('Q01', 'cap', 'queue.c', 1, 20, dict(T_BIG=1, CAP='(uint32_t)vp_n', ES=2, ROT='(uint32_t)vp_m', FILL='(uint32_t)vp_n', PROBE=0), 'every capacity from 1 to 20, the storage turned by every number of elements, filled', m=(0, 'vp_n + 1U'))
sweep('Q01', 'sizes', 'queue.c', 1, 140, dict(T_BIG=1, CAP=3, ES='(uint32_t)vp_n', ROT=2, FILL=3, PROBE=1), 'every element size from 1 to 140')
for p in ('P01', 'P02'):
    for i, pri in enumerate(('(i * 7U) % 11U', 'i', '(100U - i) / 2U')):
        sweep(p, 'cap%d' % i, 'pqueue.c', 1, 80, dict(T_BIG=1, CAP='(uint32_t)vp_n', ES=2, READ='(uint32_t)vp_n', PRI=pri), 'every capacity from 1 to 80 with priorities %s' % pri)
    sweep(p, 'sizes', 'pqueue.c', 1, 140, dict(T_BIG=1, CAP=4, ES='(uint32_t)vp_n', READ=4, PRI='(i * 7U) % 3U'), 'every element size from 1 to 140')
for a, b in ((0, 12), (13, 20)):
    sweep('J01', 'value%d' % a, 'json.c', a, b, build(2, [('2', 'vp_n'), ('1', '(vp_n / 2U)')], 'vp_m', CAP='vp_m', SYMCH=1, MAXTEXT=128), 'pairs of lengths 2:n and 1:n/2 for every n from %d to %d, every capacity up to the text + 2, the first character of each arbitrary' % (a, b), m=(1, '18U + vp_n + vp_n / 2U'))
    sweep('J01', 'key%d' % a, 'json.c', a, b, build(2, [('vp_n', '1'), ('(vp_n / 2U)', '2')], 'vp_m', CAP='vp_m', SYMCH=1, MAXTEXT=128), 'pairs of lengths n:1 and n/2:2 for every n from %d to %d, every capacity up to the text + 2, the first character of each arbitrary' % (a, b), m=(1, '18U + vp_n + vp_n / 2U'))
for i, (kv, key, fk) in enumerate((([('2U', '(uint32_t)vp_n'), ('1U', '3U')], 1, 1), ([('2U', '(uint32_t)vp_n'), ('1U', '3U')], 2, 0), ([('(uint32_t)vp_n', '2U'), ('3U', '3U')], 3, 1), ([('(uint32_t)vp_n', '2U'), ('3U', '3U')], '(uint32_t)vp_n', 0))):
    d = dict(T_FIND=1, NF=2, KEYLEN=key, NUL_INCLUDED=0, SYMCH=1, FIXKEY=fk, ROOM='(uint32_t)vp_m', MAXV='(uint32_t)(vp_n + 3U)', MAXDOC=200, N2=0, N3=0, V2=0, V3=0, **{'WS%d' % j: 1 if j in (2, 4) else 0 for j in range(7)})
    for j, (k, v) in enumerate(kv):
        d['N%d' % j], d['V%d' % j] = k, v
    sweep('J02', 'find%d' % i, 'json.c', 0, 60, d, 'documents of two fields of lengths %s for every vp_n from 0 to 60, rooms around the fit' % (kv,), m=('0', '5U') if i != 1 else ('vp_n', 'vp_n + 2U'))
sweep('J03', 'wild', 'json.c', 8, 60, dict(T_WILD=1, SIZE='(uint32_t)vp_n', KEYLEN=1, TAIL=2, ROOM='(uint32_t)vp_m', PREFIX='"{\\"k\\":\\""'), 'buffers of every length from 8 to 60 starting with {"k":", last two bytes arbitrary, capacities around the fit', m=('(vp_n > 12U) ? vp_n - 12U : 0U', 'vp_n'))
