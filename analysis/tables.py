"""What the numerals of each system are, written down independently of the repository: digits come
from the Unicode character database, the other tables from the definitions of the systems."""
import unicodedata

BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}


def uni_digits(first):
    out = [chr(first + i) for i in range(10)]
    for i, c in enumerate(out):
        assert unicodedata.decimal(c) == i, (hex(first), i)
    return "".join(out)


# name: (digits, has a zero digit, fixed, first value counted from zero, fallback)
POSITIONAL = {
    "Decimal": uni_digits(0x30),
    "EasternArabic": uni_digits(0x660),
    "Persian": uni_digits(0x6F0),
    "Bengali": uni_digits(0x9E6),
    "Cambodian": uni_digits(0x17E0),
    "CjkDecimal": "〇一二三四五六七八九",
    "Devanagari": uni_digits(0x966),
    "Gujarati": uni_digits(0xAE6),
    "Gurmukhi": uni_digits(0xA66),
    "Kannada": uni_digits(0xCE6),
    "Lao": uni_digits(0xED0),
    "Malayalam": uni_digits(0xD66),
    "Mongolian": uni_digits(0x1810),
    "Myanmar": uni_digits(0x1040),
    "Oriya": uni_digits(0xB66),
    "Tamil": uni_digits(0xBE6),
    "Telugu": uni_digits(0xC66),
    "Thai": uni_digits(0xE50),
    "Tibetan": uni_digits(0xF20),
    "HexUpper": "0123456789ABCDEF",
    "HexLower": "0123456789abcdef",
}
IROHA = "いろはにほへとちりぬるをわかよたれそつねならむうゐのおくやまけふこえてあさきゆめみしゑひもせす"
GOJUON = "あいうえおかきくけこさしすせそたちつてとなにぬねのはひふへほまみむめもやゆよらりるれろわをん"


def katakana(s):
    return "".join(chr(ord(c) + 0x60) for c in s)


ALPHABETIC = {
    "LetterUpper": "".join(chr(0x41 + i) for i in range(26)),
    "LetterLower": "".join(chr(0x61 + i) for i in range(26)),
    "GreekUpper": "".join(chr(0x391 + i) for i in range(25) if i != 17),
    "GreekLower": "".join(chr(0x3B1 + i) for i in range(25) if i != 17),
    "Hiragana": GOJUON,
    "HiraganaIroha": IROHA,
    "Katakana": katakana(GOJUON),
    "KatakanaIroha": katakana(IROHA),
    "HangeulJamo": "ㄱㄴㄷㄹㅁㅂㅅㅇㅈㅊㅋㅌㅍㅎ",
    "HangeulSyllable": "".join(chr(0xAC00 + 588 * i) for i in (0, 2, 3, 5, 6, 7, 9, 11, 12, 14, 15, 16, 17, 18)),
}
assert [len(ALPHABETIC[x]) for x in ("GreekUpper", "Hiragana", "HiraganaIroha", "HangeulJamo")] == [24, 46, 47, 14]
FIXED = {"CjkHeavenlyStem": "甲乙丙丁戊己庚辛壬癸", "CjkEarthlyBranch": "子丑寅卯辰巳午未申酉戌亥"}
DOC_DIGITS = {}


def roman(upper):
    base = {1: "I", 5: "V", 10: "X", 50: "L", 100: "C", 500: "D", 1000: "M"}
    over = lambda s: "".join(c + "\u0305" for c in s)
    pairs = {}
    sub = {4: (1, 5), 9: (1, 10), 40: (10, 50), 90: (10, 100), 400: (100, 500), 900: (100, 1000)}
    for v, s in base.items():
        pairs[v] = s
    for v, (a, b) in sub.items():
        pairs[v] = base[a] + base[b]
    out = dict(pairs)
    for v, s in pairs.items():
        if v > 1 and v * 1000 not in out:
            out[v * 1000] = None
    res = dict(pairs)
    # from 4000 on, with a line above that multiplies by 1000
    for v, s in pairs.items():
        if v * 1000 >= 4000:
            res[v * 1000] = over(s)
    res[0] = "N"
    # 1000 itself is M, but 9000 is the subtractive pair below 10000
    t = sorted(((v, s if upper else s.lower()) for v, s in res.items()), reverse=True)
    return [(s, v) for v, s in t]


def series(letters, top):
    """letters for 1..9, 10..90, 100..900, ..."""
    out = []
    for i, c in enumerate(letters):
        out.append((c, (i % 9 + 1) * 10 ** (i // 9)))
    return out[::-1]


def cjk_additive(digits, units, zero, omit_one):
    out = []
    for p in (3, 2, 1, 0):
        for d in range(9, 0, -1):
            s = digits[d]
            if p and d == 1 and omit_one:
                s = ""
            out.append((s + (units[p - 1] if p else ""), d * 10**p))
    return out + [(zero, 0)]


GEORGIAN = dict(
    zip(
        "ჵჰჯჴხჭწძცჩშყღქფჳტსრჟპოჲნმლკითჱზვედგბა",
        [10000]
        + [k * 1000 for k in range(9, 0, -1)]
        + [k * 100 for k in range(9, 0, -1)]
        + [k * 10 for k in range(9, 0, -1)]
        + list(range(9, 0, -1)),
    )
)
ADDITIVE = {
    "RomanUpper": roman(True),
    "RomanLower": roman(False),
    "ArmenianUpper": series([chr(0x531 + i) for i in range(36)], 0),
    "ArmenianLower": series([chr(0x561 + i) for i in range(36)], 0),
    "Georgian": list(GEORGIAN.items()),
    "JapaneseFormal": cjk_additive("零壱弐参四伍六七八九", "拾百阡", "零", False),
    "JapaneseInformal": cjk_additive("〇一二三四五六七八九", "十百千", "〇", True),
    "HangeulFormal": cjk_additive("영일이삼사오육칠팔구", "십백천", "영", False),
    "HanjaFormal": cjk_additive("零壹貳參四五六七八九", "拾百仟", "零", False),
    "HanjaInformal": cjk_additive("零一二三四五六七八九", "十百千", "零", True),
}
HEBREW = [
    ("ת", 400), ("ש", 300), ("ר", 200), ("ק", 100), ("צ", 90), ("פ", 80), ("ע", 70), ("ס", 60), ("נ", 50),
    ("מ", 40), ("ל", 30), ("כ", 20), ("י", 10), ("ט", 9), ("ח", 8), ("ז", 7), ("ו", 6), ("ה", 5), ("ד", 4),
    ("ג", 3), ("ב", 2), ("א", 1),
]
GERESH, GERSHAYIM = "\u05f3", "\u05f4"
HEBREW_15, HEBREW_16 = "ט״ו", "ט״ז"


def uni_numeric(first, value):
    c = chr(first)
    assert unicodedata.numeric(c) == value
    return c


ETHIOPIC_ONES = [None] + [uni_numeric(0x1369 + i, i + 1) for i in range(9)]
ETHIOPIC_TENS = [None] + [uni_numeric(0x1372 + i, 10 * (i + 1)) for i in range(9)]
ETHIOPIC_100, ETHIOPIC_10000 = uni_numeric(0x137B, 100), uni_numeric(0x137C, 10000)

CIRCLED = {}
for _c in range(0x2460, 0x3300):
    _n = unicodedata.name(chr(_c), "")
    if _n.startswith(("CIRCLED DIGIT", "CIRCLED NUMBER")) and " ON " not in _n:
        CIRCLED[int(unicodedata.numeric(chr(_c)))] = chr(_c)
DOUBLE = {}
for _c in range(0x2460, 0x2500):
    _n = unicodedata.name(chr(_c), "")
    if _n.startswith("DOUBLE CIRCLED"):
        DOUBLE[int(unicodedata.numeric(chr(_c)))] = chr(_c)
assert sorted(CIRCLED) == list(range(51)) and sorted(DOUBLE) == list(range(1, 11))
ENUMERATED = {
    "CircledNumber": ([CIRCLED[i] for i in range(51)], True),
    "DoubleCircledNumber": ([DOUBLE[i] for i in range(1, 11)], False),
}

# Chinese: digits 0-9, then 10, 100, 1000
CHINESE_CHARS = {
    ("Simplified", "ordinary"): "零一二三四五六七八九十百千",
    ("Simplified", "financial"): "零壹贰叁肆伍陆柒捌玖拾佰仟",
    ("Traditional", "ordinary"): "零一二三四五六七八九十百千",
    ("Traditional", "financial"): "零壹貳參肆伍陸柒捌玖拾佰仟",
}
CHINESE_LARGE = {"Simplified": "万亿兆京垓秭穰沟涧正载", "Traditional": "萬億兆京垓秭穰溝澗正載"}
CHINESE_SCALES = {
    "myriad": [4 * k for k in range(1, 10)],
    "mid": [4, 8, 16, 24, 32],
    "long": [4, 8, 16, 32],
    "short": list(range(4, 15)),
}
ALL_SYSTEMS = list(POSITIONAL) + list(ALPHABETIC) + list(FIXED) + list(ADDITIVE) + ["Hebrew", "Ethiopic"] + list(ENUMERATED)
