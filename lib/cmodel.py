"""a small reference model of C integer arithmetic (LP64, two's complement); used to keep
undefined operations out of generated programs and as an independent oracle"""
class T:
    __slots__ = ("n", "bits", "sg")
    def __init__(s, n, bits, sg): s.n, s.bits, s.sg = n, bits, sg
    def lo(s): return -(1 << (s.bits - 1)) if s.sg else 0
    def hi(s): return (1 << (s.bits - 1)) - 1 if s.sg else (1 << s.bits) - 1
    def wrap(s, v):
        if s.n == "_Bool": return 1 if v else 0
        v &= (1 << s.bits) - 1
        if s.sg and v >> (s.bits - 1): v -= 1 << s.bits
        return v
    def fits(s, v): return s.lo() <= v <= s.hi()
BOOL, CHAR, UCHAR, SHORT, USHORT = T("_Bool", 1, 0), T("char", 8, 1), T("unsigned char", 8, 0), T("short", 16, 1), T("unsigned short", 16, 0)
INT, UINT, LONG, ULONG = T("int", 32, 1), T("unsigned", 32, 0), T("long", 64, 1), T("unsigned long", 64, 0)
ALLT = [BOOL, CHAR, UCHAR, SHORT, USHORT, INT, UINT, LONG, ULONG]
def promote(t): return INT if t.bits < 32 else t
def common(a, b):
    a, b = promote(a), promote(b)
    if a.bits != b.bits: return a if a.bits > b.bits else b
    return a if not a.sg else b
def trunc_div(x, y):
    q = abs(x) // abs(y)
    return -q if (x < 0) != (y < 0) else q
def binop(op, ta, x, tb, y):
    """(type, value) of x op y, or None when undefined"""
    if op in ("&&", "||"):
        return INT, int((x != 0 and y != 0) if op == "&&" else (x != 0 or y != 0))
    if op in ("<<", ">>"):
        t = promote(ta)
        if not 0 <= y < t.bits: return None
        if op == "<<":
            if t.sg and (x < 0 or not t.fits(x << y)): return None
            return t, t.wrap(x << y)
        return t, x >> y
    t = common(ta, tb)
    x, y = t.wrap(x), t.wrap(y)
    if op in ("==", "!=", "<", "<=", ">", ">="):
        return INT, int({"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op])
    if op in "/%":
        if y == 0: return None
        q = trunc_div(x, y)
        if not t.fits(q): return None
        r = q if op == "/" else x - q * y
    else:
        r = {"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y, "^": x ^ y}[op]
    if t.sg and not t.fits(r): return None
    return t, t.wrap(r)
def lit(t, v):
    """a constant of type t and value v"""
    if t is INT and v == -(1 << 31): return "(-2147483647-1)"
    if t is LONG and v == -(1 << 63): return "(-9223372036854775807L-1)"
    suf = {INT: "", UINT: "U", LONG: "L", ULONG: "UL"}.get(t)
    if suf is not None: return f"({v}{suf})" if v < 0 else f"{v}{suf}"
    return f"(({t.n}){v})"
