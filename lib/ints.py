"""shared integer type alphabet, boundary values and undefined-behaviour guards"""
TYPES = [  # name, C type, bits, signed
    ("b", "_Bool", 1, 0), ("c", "char", 8, 1), ("uc", "unsigned char", 8, 0), ("s", "short", 16, 1),
    ("us", "unsigned short", 16, 0), ("e", "enum vfe", 32, 1), ("i", "int", 32, 1), ("u", "unsigned", 32, 0),
    ("l", "long", 64, 1), ("ul", "unsigned long", 64, 0)]
ENUM = "enum vfe { VFE_A = -1, VFE_B = 1000000 };\n"
IDX = {t[0]: i for i, t in enumerate(TYPES)}

def values(bits, signed, small=False):
    if bits == 1:
        return [0, 1]
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    v = [0, 1, 2, 3, 7, hi, hi - 1, lo, lo + 1, hi // 2 + 1, hi // 3]
    if signed:
        v += [-1, -2, -3, lo // 2, lo // 3]
    else:
        v += [hi // 2, hi // 2 + 2]
    for b in (8, 16, 32):
        if bits > b:
            v += [(1 << b) - 1, 1 << b, (1 << (b - 1)), (1 << (b - 1)) - 1]
            if signed:
                v += [-(1 << (b - 1)), -(1 << b), -(1 << (b - 1)) - 1]
    if small:
        v = [0, 1, 5, hi, lo if lo else hi - 1] + ([-1] if signed else [hi // 2 + 1])
    if signed and bits == 64:
        pass
    r = []
    for x in v:
        if lo <= x <= hi and x not in r:
            r.append(x)
    return r

def clit(x):
    """a 64-bit constant both compilers spell the same way"""
    if x == -(1 << 63):
        return "(-9223372036854775807L-1)"
    if x > (1 << 63) - 1:
        return f"{x}UL"
    return f"{x}L"

def helper(small=False):
    """C text (for gcc): value tables and the guard vf_ok(op, ta, tb, x, y): is 'x op y' defined?"""
    o = []
    for t, ct, bits, sg in TYPES:
        v = values(bits, sg, small)
        o.append(f"long VF_{t}[] = {{{', '.join('(long)' + clit(x) for x in v)}}}; int VFN_{t} = {len(v)};")
    o.append("""
static const int bits_[] = {%s}, sg_[] = {%s};
typedef __int128 W;
static W wid(int t, long v) { return sg_[t] ? (W)v : bits_[t] == 64 ? (W)(unsigned long)v : (W)(v & ((1L << bits_[t]) - 1)); }
static int fits(W v, int b, int s) { return s ? v >= -((W)1 << (b - 1)) && v <= ((W)1 << (b - 1)) - 1 : 1; }
static W conv(W v, int b, int s) { W m = ((W)1 << b) - 1; v &= m; if (s && (v >> (b - 1) & 1)) v -= (W)1 << b; return v; }
/* op: 0+ 1- 2* 3/ 4%% 5<< 6>> 7 anything always defined */
int vf_ok(int op, int ta, int tb, long xx, long yy)
{
	W x = wid(ta, xx), y = wid(tb, yy);
	int ba = bits_[ta] < 32 ? 32 : bits_[ta], sa = bits_[ta] < 32 ? 1 : sg_[ta];
	int bb = bits_[tb] < 32 ? 32 : bits_[tb], sb = bits_[tb] < 32 ? 1 : sg_[tb];
	if (op == 5 || op == 6) {
		if (y < 0 || y >= ba) return 0;
		if (op == 5 && sa) return x >= 0 && fits(x << (int)y, ba, 1);
		if (op == 6 && sa && x < 0) return 1;   /* implementation-defined: arithmetic shift, checked */
		return 1;
	}
	int b = ba > bb ? ba : bb, s = ba > bb ? sa : bb > ba ? sb : (sa && sb);
	x = conv(x, b, s); y = conv(y, b, s);
	switch (op) {
	case 0: return fits(x + y, b, s);
	case 1: return fits(x - y, b, s);
	case 2: if (!s) return 1; if (x == 0 || y == 0) return 1;
		{ W p; if (__builtin_mul_overflow(x, y, &p)) return 0; return fits(p, b, 1); }
	case 3: case 4: return y != 0 && !(s && y == -1 && x == -((W)1 << (b - 1)));
	}
	return 1;
}
""" % (", ".join(str(t[2]) for t in TYPES), ", ".join(str(t[3]) for t in TYPES)))
    return "\n".join(o)

EXTERN = "\n".join(f"extern long VF_{t[0]}[]; extern int VFN_{t[0]};" for t in TYPES) + \
    "\nint vf_ok(int,int,int,long,long);\n"
OPID = {"+": 0, "-": 1, "*": 2, "/": 3, "%": 4, "<<": 5, ">>": 6}
BIN = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "&&", "||"]
ASG = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"]
NAME = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "rem", "&": "and", "|": "or", "^": "xor", "<<": "shl",
        ">>": "shr", "==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge", "&&": "land", "||": "lor",
        "~": "not", "!": "lnot"}
