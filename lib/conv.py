"""arithmetic conversion alphabet shared by C02/C03/C05"""
from ints import TYPES, IDX, ENUM, values, clit
FT = [("f", "float"), ("d", "double"), ("q", "long double")]
ALL = [(t[0], t[1]) for t in TYPES] + FT
FVALS = ["0.0", "-0.0", "0.25", "-0.25", "0.5", "0.999999", "-0.999999", "1.0", "-1.0", "1.5", "-1.5", "2.0", "3.0", "100.25", "-100.75", "126.9", "127.0", "127.9", "128.0",
         "-128.0", "-128.9", "-129.0", "254.9", "255.0", "255.9", "256.0", "32767.0", "32767.75", "32768.0", "-32768.0", "-32768.5", "65535.0", "65535.5", "65536.0",
         "16777215.0", "16777216.0", "16777217.0", "16777219.0", "2147483583.0", "2147483647.0", "2147483647.5", "2147483648.0", "-2147483648.0", "-2147483648.5", "-2147483904.0",
         "4294967040.0", "4294967295.0", "4294967295.5", "4294967296.0", "9007199254740991.0", "9007199254740993.0", "9223371487098961920.0", "9223372036854774784.0", "9223372036854775808.0",
         "-9223372036854775808.0", "18446742974197923840.0", "18446744073709549568.0", "18446744073709551616.0", "1e-40", "1e-320", "1e-45", "1e30", "-1e30", "3.4028234e38", "3.5e38", "1e300", "-1e300", "0.1", "-0.3"]
# values of long double that no double holds: both sides of every boundary of the other types, at its own precision
QVALS = ["0x1.0000000000000000000000000001p0", "0x1.ffffffffffffffffffffffffffffp-1", "-0x1.ffffffffffffffffffffffffffffp-1", "0x1.0000010000000000000000000001p0", "0x1.000001p0", "0x1.0000030000000000000000000000p0", "0x1.00000000000008p0", "0x1.0000000000000800000000000001p0",
         "0x1.0000000000001800000000000000p0", "0x1.00000100000000p-130", "0x1.fffffefffffffffffffffffffffp127", "0x1.fffffffffffff7ffffffffffffffp1023", "127.99999999999999999999999999", "-128.9999999999999999999999999", "255.99999999999999999999999", "32767.9999999999999999999999", "65535.9999999999999999999999",
         "2147483647.99999999999999999999", "-2147483648.9999999999999999", "4294967295.999999999999999999", "9223372036854775807.0", "9223372036854775807.5", "-9223372036854775808.5", "9223372036854775809.0", "18446744073709551615.0", "18446744073709551615.75", "0x1p-1075", "0x1.0000000000000000000000000001p-1075", "0x1p-149", "0x1.8p-150", "0x1p-16382", "0x1p-16494", "0x1.ffffffffffffffffffffffffffffp16383", "1e4000", "-1e-4900", "0.1", "1e-300"]
SPECIAL = ["__builtin_inf()", "-__builtin_inf()", "__builtin_nan(\"\")"]

def helper(small=False):
    o = []
    for t, ct, bits, sg in TYPES:
        v = values(bits, sg, small)
        o.append(f"long VF_{t}[] = {{{', '.join('(long)' + clit(x) for x in v)}}}; int VFN_{t} = {len(v)};")
    fv = FVALS if not small else FVALS[::4]
    o.append(f"float VF_f[] = {{{', '.join('(float)' + x for x in fv + SPECIAL)}}}; int VFN_f = {len(fv) + 3};")
    o.append(f"double VF_d[] = {{{', '.join(fv + SPECIAL)}}}; int VFN_d = {len(fv) + 3};")
    qv = (QVALS if not small else QVALS[::2]) + fv[::2]
    o.append(f"long double VF_q[] = {{{', '.join([x + 'L' for x in qv] + SPECIAL)}}}; int VFN_q = {len(qv) + 3};")
    o.append("""
void OB(const void *, long);
void OQ(long double v) { if (v != v) OB("nan", 3); else OB(&v, sizeof v); }
typedef __int128 W;
static const int bits_[] = {%s}, sg_[] = {%s};
static int cur_t; static W iv; static long double dv;
void vf_startl(int t, long v) { cur_t = t; iv = sg_[t] ? (W)v : bits_[t] == 64 ? (W)(unsigned long)v : (W)(v & ((1L << bits_[t]) - 1)); }
void vf_startd(int t, long double v) { cur_t = t; dv = v; }
int vf_step(int t)      /* is converting the tracked value to type t defined? if so do it */
{
	if (cur_t >= 10) {
		if (t == 10) { if (dv == dv && dv - dv == 0 && (dv > 3.4028235677973366e38 || dv < -3.4028235677973366e38)) return 0; dv = (float)dv; }
		else if (t == 11) dv = (double)dv;
		else if (t == 12) ;
		else if (t == 0) iv = dv != 0;
		else {
			if (dv != dv || dv - dv != 0) return 0;
			W lo = sg_[t] ? -((W)1 << (bits_[t] - 1)) : 0, hi = sg_[t] ? ((W)1 << (bits_[t] - 1)) - 1 : ((W)1 << bits_[t]) - 1;
			if (dv >= 1e30 || dv <= -1e30) return 0;
			W x = (W)dv;
			if (x < lo || x > hi) return 0;
			iv = x;
		}
	} else if (t >= 10) { dv = t == 10 ? (float)iv : t == 11 ? (double)iv : (long double)iv; }
	else if (t == 0) iv = iv != 0;
	else { W m = ((W)1 << bits_[t]) - 1; iv &= m; if (sg_[t] && (iv >> (bits_[t] - 1) & 1)) iv -= (W)1 << bits_[t]; }
	cur_t = t;
	return 1;
}
""" % (", ".join(str(t[2]) for t in TYPES), ", ".join(str(t[3]) for t in TYPES)))
    return "\n".join(o)

EXTERN = "\n".join(f"extern long VF_{t[0]}[]; extern int VFN_{t[0]};" for t in TYPES) + \
    "\nextern float VF_f[]; extern double VF_d[]; extern long double VF_q[]; void OQ(long double); extern int VFN_f, VFN_d, VFN_q; void vf_startl(int,long); void vf_startd(int,long double); int vf_step(int);\n"
TID = {t: i for i, (t, _) in enumerate(ALL)}

def start(t, idx):
    return (f"vf_startd({TID[t]},VF_{t}[{idx}])" if t in "fdq" else f"vf_startl({TID[t]},VF_{t}[{idx}])")

def obs(t, e):
    return f"OF({e});" if t == "f" else f"OD({e});" if t == "d" else f"OQ({e});" if t == "q" else f"O((long)({e}));"
