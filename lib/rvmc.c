/* rvmc: an explicit-state explorer for RV64GC programs.
 *
 *   rvmc run ELF [-v]            run every vf_cases[] function alone, under several fill patterns of everything the
 *                                ABI leaves undefined, checking the machine-level invariants after every instruction
 *   rvmc mt ELF [-s N] [-m N]    explore every interleaving of mt_threads[] (sequential consistency, at the granularity
 *                                of accesses to memory outside the thread's own stack), with up to N spurious
 *                                store-conditional failures per thread; prints the set of final values of mt_out[];
 *                                -w: accesses to mt_weak[] also show the stale reads RVWMO allows
 *
 * The program is a static, non-PIC, -nostdlib ELF linked at 0x10000.
 */
#include <elf.h>
#include <errno.h>
#include <math.h>
#include <fenv.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32; typedef uint16_t u16; typedef uint8_t u8;

#define BASE 0x10000UL
#define SENT 0x8000UL                 /* return address of a thread's first function */
#define MAXT 4

static u8 *mem;
static u64 memsz, text_lo, text_hi, data_lo, data_hi;
static u64 stk_lo[MAXT], stk_hi[MAXT];

struct cpu {
	u64 pc, x[32];
	u64 f[32];
	u64 resv;                     /* reserved address + 1, 0 if none */
	u64 resv_val;
	u8 done, spur, steps_pad[6];
};
static struct cpu T[MAXT];
static int nthreads = 1, cur;
static int multi;
static char fault[400];
static u64 nsteps;

#define FAULT(...) do { if (!fault[0]) snprintf(fault, sizeof fault, __VA_ARGS__); return 0; } while (0)

/* ---------------------------------------------------------------- checks in run mode */
struct frame { u64 ra, sp, s[12], fs[12]; };
static struct frame shadow[20000];
static int nshadow;
static u8 fillb;
static u64 entry_sp;
static int checks = 1;
static u64 lowest;               /* how far down the stack was used since it was last filled */
static const int SREG[12] = {8, 9, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27};

static const char *where(u64 pc);

static int acc(struct cpu *c, u64 a, int n, int st)
{
	if (a < BASE || a + n > BASE + memsz || a + n < a)
		FAULT("%s of %d bytes at %#lx outside memory, at %s", st ? "store" : "load", n, (long)a, where(c->pc));
	if (a % n)
		FAULT("misaligned %s of %d bytes at %#lx, at %s", st ? "store" : "load", n, (long)a, where(c->pc));
	if (st && a < text_hi && a + n > text_lo)
		FAULT("store to text at %#lx, at %s", (long)a, where(c->pc));
	if (!multi && checks) {
		if (a >= stk_lo[0] && a < stk_hi[0]) {
			if (a < c->x[2])
				FAULT("%s %ld bytes below the stack pointer, at %s", st ? "store" : "load", (long)(c->x[2] - a), where(c->pc));
			if (a >= entry_sp && a < stk_hi[0] - 128)        /* the thread's own block lies on top */
				FAULT("%s above the frame of the outermost function, at %s", st ? "store" : "load", where(c->pc));
		}
	}
	return 1;
}

/* everything below the stack pointer may be overwritten by a signal handler at any time */
static void scribble(u64 lo, u64 hi)
{
	if (lo < stk_lo[0]) lo = stk_lo[0];
	if (hi > stk_hi[0]) hi = stk_hi[0];
	for (u64 a = lo; a < hi; a++)
		mem[a - BASE] = (u8)(fillb ^ (a * 29));
}

static u64 rnd(int r) { return 0x0101010101010101UL * (u8)(fillb + r * 7); }

static int on_call(struct cpu *c, u64 ra)
{
	if (multi || !checks) return 1;
	if (c->x[2] % 16)
		FAULT("the stack pointer is not aligned to 16 bytes at the call at %s", where(c->pc));
	if (nshadow >= 20000)
		FAULT("call depth");
	struct frame *f = &shadow[nshadow++];
	f->ra = ra; f->sp = c->x[2];
	for (int i = 0; i < 12; i++) { f->s[i] = c->x[SREG[i]]; f->fs[i] = c->f[SREG[i]]; }
	return 1;
}

static int on_return(struct cpu *c, u64 to)
{
	if (multi || !checks || !nshadow) return 1;
	int k;
	for (k = nshadow - 1; k >= 0; k--) if (shadow[k].ra == to && shadow[k].sp == c->x[2]) break;
	if (k < 0) {
		if (shadow[nshadow - 1].ra != to) return 1;       /* an ordinary indirect jump */
		FAULT("sp changed by %ld across a call, at %s", (long)(c->x[2] - shadow[nshadow - 1].sp), where(c->pc));
	}
	struct frame *f = &shadow[k];
	int direct = k == nshadow - 1;        /* otherwise a longjmp out of several frames */
	nshadow = k;
	for (int i = 0; i < 12 && direct; i++) {
		if (f->s[i] != c->x[SREG[i]])
			FAULT("callee-saved register s%d changed across a call, at %s", i, where(c->pc));
		if (f->fs[i] != c->f[SREG[i]])
			FAULT("callee-saved register fs%d changed across a call, at %s", i, where(c->pc));
	}
	return 1;
}

/* ---------------------------------------------------------------- observations */
static u64 oh, on;
static int verbose;
static void put(u64 v) { oh = (oh ^ v) * 0x9E3779B97F4A7C15UL; oh ^= oh >> 29; on++; if (verbose && on < 4000) printf(" %lx", (long)v); }

static int hypercall(struct cpu *c)
{
	switch (c->x[17]) {
	case 1: put(c->x[10]); break;
	case 2: { double d; memcpy(&d, &c->f[10], 8); put(d != d ? 0x7ff8000000000000UL : c->f[10]); break; }
	case 3: { float f; u32 w = c->f[10]; memcpy(&f, &w, 4); put(f != f ? 0x7fc00000UL : w); break; }
	case 4: for (i64 i = 0; i < (i64)c->x[11]; i++) { u64 a = c->x[10] + i; if (a < BASE || a >= BASE + memsz) FAULT("observed object at %#lx outside memory", (long)a); put(mem[a - BASE]); } break;
	case 5: put(c->x[2] % 16); break;
	case 6: /* hostile callee: everything it may clobber is clobbered */
		break;
	default: FAULT("unknown hypercall %ld", (long)c->x[17]);
	}
	/* a callee may leave anything in the registers it need not preserve */
	if (!multi) {
		static const int tmp[] = {5, 6, 7, 10, 11, 12, 13, 14, 15, 16, 17, 28, 29, 30, 31};
		for (unsigned i = 0; i < sizeof tmp / sizeof *tmp; i++) c->x[tmp[i]] = rnd(tmp[i]);
		for (int i = 0; i < 32; i++) if (!(i == 8 || i == 9 || (i >= 18 && i <= 27))) c->f[i] = rnd(32 + i);
	}
	return 1;
}

/* ---------------------------------------------------------------- compressed instructions -> 32-bit ones */
static u32 enc_i(int op, int f3, int rd, int rs1, i32 imm) { return (u32)(imm & 0xfff) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op; }
static u32 enc_s(int op, int f3, int rs1, int rs2, i32 imm) { return (u32)(imm >> 5 & 0x7f) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (imm & 31) << 7 | op; }
static u32 enc_r(int op, int f3, int f7, int rd, int rs1, int rs2) { return (u32)f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op; }
static u32 enc_j(int rd, i32 imm) { return (u32)(imm >> 20 & 1) << 31 | (imm >> 1 & 0x3ff) << 21 | (imm >> 11 & 1) << 20 | (imm >> 12 & 0xff) << 12 | rd << 7 | 0x6f; }
static u32 enc_b(int f3, int rs1, int rs2, i32 imm) { return (u32)(imm >> 12 & 1) << 31 | (imm >> 5 & 0x3f) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (imm >> 1 & 15) << 8 | (imm >> 11 & 1) << 7 | 0x63; }
#define B(h, l) (w >> (l) & ((1u << ((h) - (l) + 1)) - 1))
static u32 expand(u32 w)
{
	int rd = B(11, 7), rs2 = B(6, 2), rdp = B(4, 2) + 8, rs1p = B(9, 7) + 8;
	i32 imm6 = (i32)(B(12, 12) << 5 | B(6, 2)) << 26 >> 26;
	i32 jimm = (i32)(B(12, 12) << 11 | B(8, 8) << 10 | B(10, 9) << 8 | B(6, 6) << 7 | B(7, 7) << 6 | B(2, 2) << 5 | B(11, 11) << 4 | B(5, 3) << 1) << 20 >> 20;
	i32 bimm = (i32)(B(12, 12) << 8 | B(6, 5) << 6 | B(2, 2) << 5 | B(11, 10) << 3 | B(4, 3) << 1) << 23 >> 23;
	int lw = B(5, 5) << 6 | B(12, 10) << 3 | B(6, 6) << 2, ld = B(6, 5) << 6 | B(12, 10) << 3;
	switch ((w & 3) << 3 | B(15, 13)) {
	case 0: { int n = B(10, 7) << 6 | B(12, 11) << 4 | B(5, 5) << 3 | B(6, 6) << 2; return n ? enc_i(0x13, 0, rdp, 2, n) : 0; }
	case 1: return enc_i(0x07, 3, rdp, rs1p, ld);
	case 2: return enc_i(0x03, 2, rdp, rs1p, lw);
	case 3: return enc_i(0x03, 3, rdp, rs1p, ld);
	case 5: return enc_s(0x27, 3, rs1p, rdp, ld);
	case 6: return enc_s(0x23, 2, rs1p, rdp, lw);
	case 7: return enc_s(0x23, 3, rs1p, rdp, ld);
	case 8: return enc_i(0x13, 0, rd, rd, imm6);
	case 9: return enc_i(0x1b, 0, rd, rd, imm6);
	case 10: return enc_i(0x13, 0, rd, 0, imm6);
	case 11:
		if (rd == 2) { i32 n = (i32)(B(12, 12) << 9 | B(4, 3) << 7 | B(5, 5) << 6 | B(2, 2) << 5 | B(6, 6) << 4) << 22 >> 22; return enc_i(0x13, 0, 2, 2, n); }
		return (u32)imm6 << 12 | rd << 7 | 0x37;
	case 12: {
		int sh = B(12, 12) << 5 | B(6, 2);
		switch (B(11, 10)) {
		case 0: return enc_i(0x13, 5, rs1p, rs1p, sh);
		case 1: return enc_i(0x13, 5, rs1p, rs1p, sh | 0x400);
		case 2: return enc_i(0x13, 7, rs1p, rs1p, imm6);
		}
		static const int f3[] = {0, 4, 6, 7};
		if (!B(12, 12)) return enc_r(0x33, f3[B(6, 5)], B(6, 5) ? 0 : 0x20, rs1p, rs1p, rdp);
		return enc_r(0x3b, 0, B(6, 5) ? 0 : 0x20, rs1p, rs1p, rdp);
	}
	case 13: return enc_j(0, jimm);
	case 14: return enc_b(0, rs1p, 0, bimm);
	case 15: return enc_b(1, rs1p, 0, bimm);
	case 16: return enc_i(0x13, 1, rd, rd, B(12, 12) << 5 | B(6, 2));
	case 17: return enc_i(0x07, 3, rd, 2, B(4, 2) << 6 | B(12, 12) << 5 | B(6, 5) << 3);
	case 18: return enc_i(0x03, 2, rd, 2, B(3, 2) << 6 | B(12, 12) << 5 | B(6, 4) << 2);
	case 19: return enc_i(0x03, 3, rd, 2, B(4, 2) << 6 | B(12, 12) << 5 | B(6, 5) << 3);
	case 20:
		if (!B(12, 12)) return rs2 ? enc_r(0x33, 0, 0, rd, 0, rs2) : enc_i(0x67, 0, 0, rd, 0);
		if (!rs2) return rd ? enc_i(0x67, 0, 1, rd, 0) : 0x00100073;
		return enc_r(0x33, 0, 0, rd, rd, rs2);
	case 21: return enc_s(0x27, 3, 2, rs2, B(9, 7) << 6 | B(12, 10) << 3);
	case 22: return enc_s(0x23, 2, 2, rs2, B(8, 7) << 6 | B(12, 9) << 2);
	case 23: return enc_s(0x23, 3, 2, rs2, B(9, 7) << 6 | B(12, 10) << 3);
	}
	return 0;
}

/* ---------------------------------------------------------------- execution */
static u64 ldm(u64 a, int n) { u64 v = 0; memcpy(&v, mem + (a - BASE), n); return v; }
static void stm(u64 a, u64 v, int n)
{
	memcpy(mem + (a - BASE), &v, n);
	for (int t = 0; t < nthreads; t++)      /* a store by anyone else ends a reservation */
		if (t != cur && T[t].resv && a < T[t].resv - 1 + 8 && a + n > T[t].resv - 1) T[t].resv = 0;
}
/* weak memory (-w), for the words of mt_weak[]: stores wait in a buffer and reach memory in any order (per word in
 * program order); the words keep the history of their values, and a load may be satisfied at any earlier time that fences,
 * acquire/release and coherence leave open to it.  Every behaviour is one RVWMO allows; load-to-store reordering is not
 * produced.  Times are ranks among the messages still readable, so the state space is finite. */
#define NG 8
#define NM 12
#define NB 4
static struct wm {
	u64 val[NG][NM]; u16 tm[NG][NM], n[NG];
	u16 F[MAXT], A[MAXT], L[MAXT], coh[MAXT][NG], now, nb[MAXT], pad[3];
	struct { u64 a, v, n; } buf[MAXT][NB];
} W;
static int weak, choice; static u64 weak_lo, weak_hi, vaddr; static int vlen, vinstr;
static int wk(u64 a) { return weak && a >= weak_lo && a < weak_hi; }
#define MAX(a, b) ((a) > (b) ? (a) : (b))
static int wbuffered(int t, int g) { int k = 0; for (int i = 0; i < W.nb[t]; i++) k += (int)(W.buf[t][i].a - weak_lo) / 8 == g; return k; }
static void wfence(int t, int pred, int succ)      /* with pred W the caller has waited for an empty buffer */
{
	if (succ & 2) {
		if (pred & 2) W.F[t] = MAX(W.F[t], W.A[t]);
		if (pred & 1) W.F[t] = MAX(W.F[t], W.L[t]);
	}
}
static int wfloor(int t, int g) { return MAX(W.F[t], W.coh[t][g]); }
static int wfirst(int t, int g) { int k = 0, f = wfloor(t, g); while (k + 1 < W.n[g] && W.tm[g][k + 1] <= f) k++; return k; }
static u64 wload(int t, u64 a, int n, int latest)
{
	int g = (a - weak_lo) / 8;
	u64 r = 0;
	for (int i = W.nb[t] - 1; !latest && i >= 0; i--)
		if (W.buf[t][i].a == a) { memcpy(&r, &W.buf[t][i].v, n); return r; }
	int k = latest ? W.n[g] - 1 : wfirst(t, g) + choice, f = wfloor(t, g);
	u64 v = W.val[g][k] >> (a & 7) * 8;
	int p = latest ? W.now : MAX(W.tm[g][k], f);
	W.coh[t][g] = MAX(W.coh[t][g], p);
	W.A[t] = MAX(W.A[t], p);
	memcpy(&r, &v, n);
	return r;
}
static int wcommit(int t, u64 a, u64 v, int n)
{
	int g = (a - weak_lo) / 8, k = W.n[g];
	if (k >= NM) FAULT("too many messages for a weak word");
	cur = t;
	stm(a, v, n);
	W.val[g][k] = ldm(weak_lo + 8 * g, 8);
	W.tm[g][k] = W.coh[t][g] = W.L[t] = ++W.now;
	W.n[g]++;
	return 1;
}
static void wbuffer(int t, u64 a, u64 v, int n)
{
	int i = W.nb[t]++;
	W.buf[t][i].a = a; W.buf[t][i].v = v; W.buf[t][i].n = n;
}
static int wdrain(int t, int i)
{
	u64 a = W.buf[t][i].a, v = W.buf[t][i].v; int n = W.buf[t][i].n;
	for (int j = i; j + 1 < W.nb[t]; j++) W.buf[t][j] = W.buf[t][j + 1];
	memset(&W.buf[t][--W.nb[t]], 0, sizeof W.buf[t][0]);
	return wcommit(t, a, v, n);
}
/* may thread t perform its visible instruction now, or must its buffer drain first? */
static int wready(int t, int vis)
{
	int rl = vinstr >> 25 & 1, g = (vaddr - weak_lo) / 8;
	if (vis == 5) return !W.nb[t];
	if (vis >= 3) return rl ? !W.nb[t] : !wk(vaddr) || !wbuffered(t, g);
	if (!wk(vaddr)) return 1;
	if (vis == 2) return W.nb[t] < NB;
	if (wbuffered(t, g))             /* forwarding needs the newest buffered store of the word to match exactly */
		for (int i = W.nb[t] - 1; i >= 0; i--)
			if ((int)(W.buf[t][i].a - weak_lo) / 8 == g) return W.buf[t][i].a == vaddr && (int)W.buf[t][i].n == vlen;
	return 1;
}
static void wcanon(void)
{
	for (int g = 0; g < NG; g++) {
		int min = 0xffff;
		for (int t = 0; t < nthreads; t++) if (!T[t].done) min = wfloor(t, g) < min ? wfloor(t, g) : min;
		for (int k = 0; k + 1 < W.n[g]; )
			if (W.tm[g][k + 1] <= min || W.val[g][k] == W.val[g][k + 1]) {
				if (W.val[g][k] == W.val[g][k + 1]) W.tm[g][k + 1] = W.tm[g][k];
				for (int j = k; j + 1 < W.n[g]; j++) { W.val[g][j] = W.val[g][j + 1]; W.tm[g][j] = W.tm[g][j + 1]; }
				W.n[g]--; W.val[g][W.n[g]] = W.tm[g][W.n[g]] = 0;
			} else k++;
	}
	u8 used[1024] = {1}; u16 rank[1024];
	for (int g = 0; g < NG; g++) for (int k = 0; k < W.n[g]; k++) used[W.tm[g][k]] = 1;
	for (int i = 0, r = -1; i <= W.now; i++) rank[i] = r += used[i];
	for (int g = 0; g < NG; g++) for (int k = 0; k < W.n[g]; k++) W.tm[g][k] = rank[W.tm[g][k]];
	for (int t = 0; t < nthreads; t++) {
		W.F[t] = rank[W.F[t]]; W.A[t] = MAX(rank[W.A[t]], W.F[t]); W.L[t] = MAX(rank[W.L[t]], W.F[t]);
		for (int g = 0; g < NG; g++) W.coh[t][g] = MAX(rank[W.coh[t][g]], W.F[t]);
		if (T[t].done) { W.F[t] = W.A[t] = W.L[t] = 0; memset(W.coh[t], 0, sizeof W.coh[t]); }
	}
	W.now = rank[W.now];
}
static float getf(struct cpu *c, int r) { u64 v = c->f[r]; u32 w = v >> 32 == 0xffffffff ? (u32)v : 0x7fc00000; float f; memcpy(&f, &w, 4); return f; }
static double getd(struct cpu *c, int r) { double d; memcpy(&d, &c->f[r], 8); return d; }
static void setf(struct cpu *c, int r, float f) { u32 w; memcpy(&w, &f, 4); if (f != f) w = 0x7fc00000; c->f[r] = 0xffffffff00000000UL | w; }
static void setd(struct cpu *c, int r, double d) { if (d != d) c->f[r] = 0x7ff8000000000000UL; else memcpy(&c->f[r], &d, 8); }
static u64 sx32(u64 v) { return (u64)(i64)(i32)v; }

static double rint_mode(double d, int rm) { switch (rm) { case 1: return trunc(d); case 2: return floor(d); case 3: return ceil(d); default: return nearbyint(d); } }
static u64 cvt_int(double d, int which, int rm)
{
	double r = rint_mode(d, rm);
	switch (which) {
	case 0: return d != d || r >= 2147483648.0 ? 0x7fffffff : r < -2147483648.0 ? sx32(0x80000000u) : (u64)(i64)(i32)r;
	case 1: return d != d || r >= 4294967296.0 ? ~0UL : r <= -1 ? 0 : sx32((u32)r);
	case 2: return d != d || r >= 9223372036854775808.0 ? 0x7fffffffffffffffUL : r < -9223372036854775808.0 ? 1UL << 63 : (u64)(i64)r;
	default: return d != d || r >= 18446744073709551616.0 ? ~0UL : r <= -1 ? 0 : (u64)r;
	}
}

/* does the next instruction of this thread touch memory that others can see? 1 load, 2 store, 3 atomic; 4 SC */
static u32 fetch(struct cpu *c, int *len)
{
	u64 pc = c->pc;
	if (pc < text_lo || pc + 2 > text_hi || pc & 1) return 0;
	u32 w = ldm(pc, 2);
	if ((w & 3) == 3) { if (pc + 4 > text_hi) return 0; *len = 4; return ldm(pc, 4); }
	*len = 2;
	return expand(w);
}

static int visible(struct cpu *c, int t)
{
	int len; u32 i = fetch(c, &len);
	int op = i & 0x7f;
	u64 a;
	if (op == 0x03 || op == 0x07) a = c->x[i >> 15 & 31] + (i64)((i32)i >> 20);
	else if (op == 0x23 || op == 0x27) a = c->x[i >> 15 & 31] + (i64)((i32)(i & 0xfe000000) >> 20 | (i >> 7 & 31));
	else if (op == 0x2f) a = c->x[i >> 15 & 31];
	else if (op == 0x0f && weak && !(i >> 12 & 7) && i >> 24 & 1 && W.nb[t]) return 5;
	else return 0;
	vaddr = a; vinstr = i; vlen = 1 << (i >> 12 & 3);
	if (a >= stk_lo[t] && a < stk_hi[t]) return 0;     /* its own stack: nobody else looks there */
	if (op == 0x2f) return (i >> 27) == 3 ? 4 : 3;
	return op == 0x03 || op == 0x07 ? 1 : 2;
}

static int step(struct cpu *c, int fail_sc)
{
	int len;
	u32 i = fetch(c, &len);
	if (!i) FAULT("jump to %#lx, not an instruction", (long)c->pc);
	int op = i & 0x7f, rd = i >> 7 & 31, f3 = i >> 12 & 7, rs1 = i >> 15 & 31, rs2 = i >> 20 & 31, f7 = i >> 25;
	i64 iimm = (i32)i >> 20, simm = (i32)(i & 0xfe000000) >> 20 | rd;
	u64 a = c->x[rs1], b = c->x[rs2], v = 0, npc = c->pc + len, osp = c->x[2];
	nsteps++;
	switch (op) {
	case 0x37: v = sx32(i & 0xfffff000); goto wr;
	case 0x17: v = c->pc + sx32(i & 0xfffff000); goto wr;
	case 0x6f: {
		i64 o = (i64)(i32)((i & 0x80000000) >> 11 | (i & 0xff000) | (i >> 9 & 0x800) | (i >> 20 & 0x7fe)) << 43 >> 43;
		v = npc;
		if (rd == 1 && !on_call(c, npc)) return 0;
		npc = c->pc + o; goto wr; }
	case 0x67:
		v = npc; npc = (a + iimm) & ~1UL;
		if (rd == 1) { if (!on_call(c, v)) return 0; }
		else if (!on_return(c, npc)) return 0;
		goto wr;
	case 0x63: {
		i64 o = (i64)((i32)((i & 0x80000000) >> 19 | (i << 4 & 0x800) | (i >> 20 & 0x7e0) | (i >> 7 & 0x1e)) << 19 >> 19);
		int t;
		switch (f3) { case 0: t = a == b; break; case 1: t = a != b; break; case 4: t = (i64)a < (i64)b; break; case 5: t = (i64)a >= (i64)b; break; case 6: t = a < b; break; case 7: t = a >= b; break; default: goto bad; }
		if (t) npc = c->pc + o;
		break; }
	case 0x03: {
		static const int sz[] = {1, 2, 4, 8, 1, 2, 4, 0};
		u64 ad = a + iimm; int n = sz[f3];
		if (!n) goto bad;
		if (!acc(c, ad, n, 0)) return 0;
		v = wk(ad) ? wload(c - T, ad, n, 0) : ldm(ad, n);
		if (f3 == 0) v = (i64)(int8_t)v; else if (f3 == 1) v = (i64)(int16_t)v; else if (f3 == 2) v = sx32(v);
		goto wr; }
	case 0x23: {
		u64 ad = a + simm; int n = 1 << f3;
		if (f3 > 3) goto bad;
		if (!acc(c, ad, n, 1)) return 0;
		if (wk(ad)) wbuffer(c - T, ad, b, n);
		else stm(ad, b, n);
		break; }
	case 0x07: {
		u64 ad = a + iimm; int n = 1 << f3;
		if (f3 != 2 && f3 != 3) goto bad;
		if (!acc(c, ad, n, 0)) return 0;
		v = wk(ad) ? wload(c - T, ad, n, 0) : ldm(ad, n); c->f[rd] = n == 4 ? 0xffffffff00000000UL | v : v; break; }
	case 0x27: {
		u64 ad = a + simm; int n = 1 << f3;
		if (f3 != 2 && f3 != 3) goto bad;
		if (!acc(c, ad, n, 1)) return 0;
		if (wk(ad)) wbuffer(c - T, ad, c->f[rs2], n);
		else stm(ad, c->f[rs2], n);
		break; }
	case 0x13: {
		int sh = iimm & 63;
		switch (f3) {
		case 0: v = a + iimm; break; case 2: v = (i64)a < iimm; break; case 3: v = a < (u64)iimm; break;
		case 4: v = a ^ iimm; break; case 6: v = a | iimm; break; case 7: v = a & iimm; break;
		case 1: v = a << sh; break; case 5: v = iimm & 0x400 ? (u64)((i64)a >> sh) : a >> sh; break; }
		goto wr; }
	case 0x1b: {
		int sh = iimm & 31;
		switch (f3) { case 0: v = sx32(a + iimm); break; case 1: v = sx32(a << sh); break; case 5: v = iimm & 0x400 ? (u64)(i64)((i32)a >> sh) : sx32((u32)a >> sh); break; default: goto bad; }
		goto wr; }
	case 0x33:
		if (f7 == 1) switch (f3) {
		case 0: v = a * b; goto wr;
		case 1: v = (u64)((__int128)(i64)a * (i64)b >> 64); goto wr;
		case 2: v = (u64)((__int128)(i64)a * (__int128)b >> 64); goto wr;
		case 3: v = (u64)((unsigned __int128)a * b >> 64); goto wr;
		case 4: v = !b ? ~0UL : (a == 1UL << 63 && b == ~0UL) ? a : (u64)((i64)a / (i64)b); goto wr;
		case 5: v = b ? a / b : ~0UL; goto wr;
		case 6: v = !b ? a : (a == 1UL << 63 && b == ~0UL) ? 0 : (u64)((i64)a % (i64)b); goto wr;
		case 7: v = b ? a % b : a; goto wr; }
		if (f7 != 0 && f7 != 0x20) goto bad;
		switch (f3) {
		case 0: v = f7 ? a - b : a + b; break; case 1: v = a << (b & 63); break; case 2: v = (i64)a < (i64)b; break; case 3: v = a < b; break;
		case 4: v = a ^ b; break; case 5: v = f7 ? (u64)((i64)a >> (b & 63)) : a >> (b & 63); break; case 6: v = a | b; break; case 7: v = a & b; break; }
		goto wr;
	case 0x3b: {
		i32 x = a, y = b;
		if (f7 == 1) switch (f3) {
		case 0: v = sx32((u32)x * (u32)y); goto wr;
		case 4: v = !y ? ~0UL : (x == INT32_MIN && y == -1) ? sx32(x) : sx32(x / y); goto wr;
		case 5: v = y ? sx32((u32)x / (u32)y) : ~0UL; goto wr;
		case 6: v = !y ? sx32(x) : (x == INT32_MIN && y == -1) ? 0 : sx32(x % y); goto wr;
		case 7: v = y ? sx32((u32)x % (u32)y) : sx32(x); goto wr;
		default: goto bad; }
		switch (f3) { case 0: v = sx32(f7 ? (u32)x - (u32)y : (u32)x + (u32)y); break; case 1: v = sx32((u32)x << (y & 31)); break; case 5: v = f7 ? (u64)(i64)(x >> (y & 31)) : sx32((u32)x >> (y & 31)); break; default: goto bad; }
		goto wr; }
	case 0x0f: if (weak && !f3) wfence(c - T, i >> 24 & 15, i >> 20 & 15); break;
	case 0x73:
		if (i == 0x73) { c->pc = npc; return hypercall(c); }
		if (f3 & 3) { v = 0; goto wr; }      /* floating-point status: always clear */
		goto bad;
	case 0x2f: {
		int n = f3 == 2 ? 4 : f3 == 3 ? 8 : 0, fn = i >> 27;
		if (!n) goto bad;
		if (!acc(c, a, n, 1)) return 0;
		int w = wk(a), aq = i >> 26 & 1, t = c - T;
		u64 old = w ? wload(t, a, n, 1) : ldm(a, n);
		if (weak && aq) W.F[t] = W.now;
		if (n == 4) old = sx32(old);
		if (fn == 2) { c->resv = a + 1; v = old; goto wr; }
		if (fn == 3) {
			int ok = c->resv == a + 1 && !fail_sc;
			c->resv = 0;
			if (ok) { if (!w) stm(a, b, n); else if (!wcommit(t, a, b, n)) return 0; }
			if (weak && aq) W.F[t] = W.now;
			v = !ok; goto wr;
		}
		u64 nv;
		i64 so = old, sb = n == 4 ? (i64)(i32)b : (i64)b;
		u64 uo = n == 4 ? (u32)old : old, ub = n == 4 ? (u32)b : b;
		switch (fn) {
		case 0: nv = old + b; break; case 1: nv = b; break; case 4: nv = old ^ b; break; case 8: nv = old | b; break; case 12: nv = old & b; break;
		case 16: nv = so < sb ? old : b; break; case 20: nv = so > sb ? old : b; break; case 24: nv = uo < ub ? old : b; break; case 28: nv = uo > ub ? old : b; break;
		default: goto bad; }
		if (!w) stm(a, nv, n);
		else if (!wcommit(t, a, nv, n)) return 0;
		if (weak && aq) W.F[t] = W.now;
		v = old; goto wr; }
	case 0x43: case 0x47: case 0x4b: case 0x4f: {
		int rs3 = i >> 27, neg_p = op == 0x4b || op == 0x4f, neg_c = op == 0x47 || op == 0x4f;
		if ((f7 & 3) == 0) { float p = getf(c, rs1); setf(c, rd, fmaf(neg_p ? -p : p, getf(c, rs2), neg_c ? -getf(c, rs3) : getf(c, rs3))); }
		else { double p = getd(c, rs1); setd(c, rd, fma(neg_p ? -p : p, getd(c, rs2), neg_c ? -getd(c, rs3) : getd(c, rs3))); }
		break; }
	case 0x53: {
		int dbl = f7 & 1;
		if ((f7 & 3) > 1) goto bad;
		switch (f7 >> 2) {
		case 0: dbl ? setd(c, rd, getd(c, rs1) + getd(c, rs2)) : setf(c, rd, getf(c, rs1) + getf(c, rs2)); goto out;
		case 1: dbl ? setd(c, rd, getd(c, rs1) - getd(c, rs2)) : setf(c, rd, getf(c, rs1) - getf(c, rs2)); goto out;
		case 2: dbl ? setd(c, rd, getd(c, rs1) * getd(c, rs2)) : setf(c, rd, getf(c, rs1) * getf(c, rs2)); goto out;
		case 3: dbl ? setd(c, rd, getd(c, rs1) / getd(c, rs2)) : setf(c, rd, getf(c, rs1) / getf(c, rs2)); goto out;
		case 11: dbl ? setd(c, rd, sqrt(getd(c, rs1))) : setf(c, rd, sqrtf(getf(c, rs1))); goto out;
		case 4:
			if (dbl) { u64 s = 1UL << 63, y = c->f[rs2]; c->f[rd] = (c->f[rs1] & ~s) | (f3 == 0 ? y & s : f3 == 1 ? ~y & s : (c->f[rs1] ^ y) & s); }
			else { u32 s = 1u << 31, x = c->f[rs1], y = c->f[rs2]; if (c->f[rs1] >> 32 != 0xffffffff) x = 0x7fc00000; if (c->f[rs2] >> 32 != 0xffffffff) y = 0x7fc00000; c->f[rd] = 0xffffffff00000000UL | (x & ~s) | (f3 == 0 ? y & s : f3 == 1 ? ~y & s : (x ^ y) & s); }
			goto out;
		case 5:
			if (dbl) { double x = getd(c, rs1), y = getd(c, rs2); setd(c, rd, f3 ? fmax(x, y) : fmin(x, y)); }
			else { float x = getf(c, rs1), y = getf(c, rs2); setf(c, rd, f3 ? fmaxf(x, y) : fminf(x, y)); }
			goto out;
		case 8: if (dbl) setd(c, rd, getf(c, rs1)); else setf(c, rd, getd(c, rs1)); goto out;
		case 20: {
			double x = dbl ? getd(c, rs1) : getf(c, rs1), y = dbl ? getd(c, rs2) : getf(c, rs2);
			v = f3 == 2 ? x == y : f3 == 1 ? x < y : x <= y; goto wr; }
		case 24: v = cvt_int(dbl ? getd(c, rs1) : getf(c, rs1), rs2, f3); goto wr;
		case 26:
			if (dbl) setd(c, rd, rs2 == 0 ? (double)(i32)a : rs2 == 1 ? (double)(u32)a : rs2 == 2 ? (double)(i64)a : (double)a);
			else setf(c, rd, rs2 == 0 ? (float)(i32)a : rs2 == 1 ? (float)(u32)a : rs2 == 2 ? (float)(i64)a : (float)a);
			goto out;
		case 28:
			if (f3 == 0) { v = dbl ? c->f[rs1] : sx32(c->f[rs1]); goto wr; }
			{ double x = dbl ? getd(c, rs1) : getf(c, rs1); int k = isnan(x) ? 9 : isinf(x) ? (x < 0 ? 0 : 7) : x == 0 ? (signbit(x) ? 3 : 4) : (dbl ? fabs(x) >= 0x1p-1022 : fabs(x) >= 0x1p-126) ? (x < 0 ? 1 : 6) : (x < 0 ? 2 : 5); v = 1UL << k; goto wr; }
		case 30: c->f[rd] = dbl ? a : 0xffffffff00000000UL | (u32)a; goto out;
		}
		goto bad; }
	default: goto bad;
	}
	goto out;
wr:
	if (rd) c->x[rd] = v;
out:
	c->pc = npc;
	if (!multi && checks && c->x[2] > osp)
		scribble(osp, c->x[2]);       /* released: a handler may already have used it */
	else if (!multi && checks && c->x[2] < osp) {
		if (c->x[2] < stk_lo[0]) FAULT("stack overflow at %s", where(c->pc));
		if (c->x[2] < lowest) lowest = c->x[2];
	}
	return 1;
bad:
	FAULT("unsupported instruction %08x at %s", i, where(c->pc));
}

/* ---------------------------------------------------------------- loading */
static struct { u64 a; const char *n; } syms[200000];
static int nsyms;
static const char *where(u64 pc)
{
	static char buf[4][200]; static int k;
	char *o = buf[k++ & 3];
	int best = -1;
	for (int i = 0; i < nsyms; i++) if (syms[i].a <= pc && (best < 0 || syms[i].a >= syms[best].a)) best = i;
	snprintf(o, 200, "%s+%ld", best < 0 ? "?" : syms[best].n, best < 0 ? (long)pc : (long)(pc - syms[best].a));
	return o;
}
static u64 sym(const char *n) { for (int i = 0; i < nsyms; i++) if (!strcmp(syms[i].n, n)) return syms[i].a; return 0; }

static void load(const char *path, u64 stksz)
{
	FILE *f = fopen(path, "rb");
	if (!f) { perror(path); exit(2); }
	fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f);
	u8 *d = malloc(n);
	if (fread(d, 1, n, f) != (size_t)n) exit(2);
	fclose(f);
	Elf64_Ehdr *e = (void *)d;
	Elf64_Phdr *p = (void *)(d + e->e_phoff);
	u64 end = BASE; text_lo = ~0UL; data_lo = ~0UL;
	for (int i = 0; i < e->e_phnum; i++) if (p[i].p_type == PT_LOAD && p[i].p_vaddr + p[i].p_memsz > end) end = p[i].p_vaddr + p[i].p_memsz;
	end = (end + 4095) & ~4095UL;
	u64 total = end - BASE + stksz * MAXT;
	mem = calloc(1, total); memsz = total;
	for (int i = 0; i < e->e_phnum; i++) if (p[i].p_type == PT_LOAD) {
		memcpy(mem + (p[i].p_vaddr - BASE), d + p[i].p_offset, p[i].p_filesz);
		if (p[i].p_flags & PF_X) { if (p[i].p_vaddr < text_lo) text_lo = p[i].p_vaddr; if (p[i].p_vaddr + p[i].p_memsz > text_hi) text_hi = p[i].p_vaddr + p[i].p_memsz; }
		if (p[i].p_flags & PF_W) { if (p[i].p_vaddr < data_lo) data_lo = p[i].p_vaddr; if (p[i].p_vaddr + p[i].p_memsz > data_hi) data_hi = p[i].p_vaddr + p[i].p_memsz; }
	}
	if (data_lo == ~0UL) data_lo = data_hi = end;
	for (int t = 0; t < MAXT; t++) { stk_lo[t] = end + t * stksz; stk_hi[t] = end + (t + 1) * stksz; }
	Elf64_Shdr *s = (void *)(d + e->e_shoff);
	for (int i = 0; i < e->e_shnum; i++) if (s[i].sh_type == SHT_SYMTAB) {
		Elf64_Sym *y = (void *)(d + s[i].sh_offset);
		const char *str = (char *)d + s[s[i].sh_link].sh_offset;
		for (u64 k = 0; k < s[i].sh_size / sizeof *y && nsyms < 200000; k++)
			if (str[y[k].st_name] && str[y[k].st_name] != '$' && ELF64_ST_TYPE(y[k].st_info) != STT_FILE && ELF64_ST_TYPE(y[k].st_info) != STT_SECTION) { syms[nsyms].a = y[k].st_value; syms[nsyms++].n = str + y[k].st_name; }
	}
}

static u8 *img;
static void reset_thread(int t, u64 fn)
{
	struct cpu *c = &T[t];
	memset(c, 0, sizeof *c);
	for (int i = 1; i < 32; i++) c->x[i] = multi ? 0 : rnd(i);
	for (int i = 0; i < 32; i++) c->f[i] = multi ? 0 : rnd(64 + i);
	c->x[1] = SENT; c->x[2] = stk_hi[t] - 256;
	c->x[3] = sym("__global_pointer$"); c->x[4] = stk_hi[t] - 128;
	c->pc = fn;
}

static int run_all(int argc, char **argv)
{
	static const u8 fills[] = {0x00, 0xa5, 0xff};
	u64 limit = 100000000, tab = sym("vf_cases"), n = ldm(sym("vf_ncases"), 8);
	(void)argc; (void)argv;
	lowest = stk_lo[0];
	if (sym("vf_init")) {
		checks = 0; entry_sp = stk_hi[0];
		reset_thread(0, sym("vf_init"));
		while (T[0].pc != SENT && step(&T[0], 0)) ;
		if (fault[0]) { fprintf(stderr, "vf_init: %s\n", fault); return 2; }
		checks = 1;
	}
	img = malloc(data_hi - data_lo);
	memcpy(img, mem + (data_lo - BASE), data_hi - data_lo);
	for (u64 i = 0; i < n; i++) {
		u64 h0 = 0, n0 = 0, st = nsteps;
		char why[500] = "";
		printf("%ld", (long)i);
		for (unsigned k = 0; k < sizeof fills && !why[0]; k++) {
			memcpy(mem + (data_lo - BASE), img, data_hi - data_lo);
			fillb = fills[k]; fault[0] = 0; oh = on = 0; nshadow = 0;
			scribble(lowest, stk_hi[0]);
			lowest = stk_hi[0];
			reset_thread(0, ldm(tab + 8 * i, 8));
			entry_sp = T[0].x[2];
			struct cpu *c = &T[0], in = *c;
			u64 lim = nsteps + limit;
			while (c->pc != SENT && nsteps < lim) if (!step(c, 0)) break;
			if (!fault[0] && c->pc != SENT) snprintf(fault, sizeof fault, "did not return within %ld instructions", (long)limit);
			if (!fault[0]) {
				if (c->x[2] != in.x[2]) snprintf(fault, sizeof fault, "sp not restored");
				for (int j = 0; j < 12 && !fault[0]; j++) {
					if (c->x[SREG[j]] != in.x[SREG[j]]) snprintf(fault, sizeof fault, "s%d not restored", j);
					if (c->f[SREG[j]] != in.f[SREG[j]]) snprintf(fault, sizeof fault, "fs%d not restored", j);
				}
				if (c->x[3] != in.x[3] || c->x[4] != in.x[4]) snprintf(fault, sizeof fault, "gp or tp changed");
			}
			if (fault[0]) snprintf(why, sizeof why, "%s", fault);
			else if (!k) { h0 = oh; n0 = on; }
			else if (oh != h0 || on != n0) snprintf(why, sizeof why, "result depends on the initial contents of registers or stack (fill %#x)", fills[k]);
		}
		if (why[0]) printf(" BAD %s\n", why);
		else printf(" OK %ld %016lx %ld\n", (long)n0, (long)h0, (long)(nsteps - st));
	}
	return 0;
}

/* ---------------------------------------------------------------- interleavings */
struct key { u64 a, b; };
static struct key *set; static u64 cap = 1 << 16, used;
static u64 mix(u64 h, u64 v) { h = (h ^ v) * 0x9E3779B97F4A7C15UL; return h ^ h >> 31; }
static u64 dsz, ssz;
static u64 *outv; static u64 nout, capout; static int outn;
static u64 transitions, states, maxstates = 3000000, finals;
static int spur_max;

static int seen(void)
{
	u64 h = 1, g = 0xabcdef;
	for (int t = 0; t < nthreads; t++) {
		u64 *w = (u64 *)&T[t];
		if (T[t].done) { h = mix(h, 77); g = mix(g, 99); continue; }
		for (unsigned i = 0; i < sizeof T[t] / 8; i++) { h = mix(h, w[i]); g = mix(g, w[i] * 3 + 1); }
		for (u64 a = T[t].x[2] & ~7UL; a < stk_hi[t]; a += 8) { u64 v = ldm(a, 8); h = mix(h, v); g = mix(g, v * 5 + 1); }
	}
	for (u64 a = data_lo & ~7UL; a < data_hi; a += 8) { u64 v = ldm(a, 8); h = mix(h, v); g = mix(g, v * 7 + 1); }
	if (weak) for (unsigned k = 0; k < sizeof W / 8; k++) { u64 v = ((u64 *)&W)[k]; if (v) { h = mix(h, v + k); g = mix(g, v * 9 + k); } }
	if (!h) h = 1;
	if (used * 2 > cap) {
		struct key *o = set; u64 oc = cap; cap *= 2; set = calloc(cap, sizeof *set);
		for (u64 i = 0; i < oc; i++) if (o[i].a) { u64 j = o[i].a & (cap - 1); while (set[j].a) j = (j + 1) & (cap - 1); set[j] = o[i]; }
		free(o);
	}
	u64 j = h & (cap - 1);
	while (set[j].a) { if (set[j].a == h && set[j].b == g) return 1; j = (j + 1) & (cap - 1); }
	set[j].a = h; set[j].b = g; used++;
	return 0;
}

struct snap { struct cpu T[MAXT]; struct wm W; u8 m[]; };
static struct snap *save(void)
{
	struct snap *s = malloc(sizeof *s + dsz + ssz * nthreads);
	memcpy(s->T, T, sizeof T);
	if (weak) s->W = W;
	memcpy(s->m, mem + (data_lo - BASE), dsz);
	memcpy(s->m + dsz, mem + (stk_lo[0] - BASE), ssz * nthreads);
	return s;
}
static void restore(struct snap *s)
{
	memcpy(T, s->T, sizeof T);
	if (weak) W = s->W;
	memcpy(mem + (data_lo - BASE), s->m, dsz);
	memcpy(mem + (stk_lo[0] - BASE), s->m + dsz, ssz * nthreads);
}

static int run_alone(u64 fn)        /* before the threads start, or after they have ended */
{
	struct cpu k = T[0];
	int w = weak;
	weak = 0; cur = 0;
	reset_thread(0, fn);
	for (int n = 0; T[0].pc != SENT; n++) { if (!step(&T[0], 0)) return 0; if (n > 1000000) FAULT("init or fini does not end"); }
	T[0] = k; weak = w;
	return 1;
}

static u64 fini;
static int final(u64 out)
{
	u64 v[64];
	finals++;
	if (fini && !run_alone(fini)) return 0;
	for (int i = 0; i < outn; i++) v[i] = ldm(out + 8 * i, 8);
	for (u64 k = 0; k < nout; k++) if (!memcmp(outv + k * outn, v, 8 * outn)) return 1;
	if (nout == capout) { capout = capout ? capout * 2 : 64; outv = realloc(outv, capout * outn * 8); }
	memcpy(outv + nout++ * outn, v, 8 * outn);
	return 1;
}

static int advance(int t)       /* local steps up to the next visible access, or the end */
{
	struct cpu *c = &T[t];
	u64 lim = 200000;
	cur = t;
	while (!c->done) {
		if (c->pc == SENT) { memset(c->x, 0, sizeof c->x); memset(c->f, 0, sizeof c->f); c->done = 1; c->resv = 0; break; }
		if (visible(c, t)) break;
		if (!step(c, 0)) return 0;
		if (!lim--) FAULT("thread %d runs forever without touching shared memory", t);
	}
	return 1;
}

static int explore(u64 out, int depth)
{
	if (weak) wcanon();
	if (seen()) return 1;
	if (++states > maxstates) FAULT("more than %ld states", (long)maxstates);
	if (depth > 4000) FAULT("a run of more than 4000 shared accesses");
	int live = 0;
	for (int t = 0; t < nthreads; t++) live += !T[t].done || (weak && W.nb[t]);
	if (!live) return final(out);
	struct snap *s = save();
	for (int t = 0; t < nthreads; t++) {
		if (weak) for (int i = 0; i < s->W.nb[t]; i++) {
			restore(s);
			int j = 0;
			while ((W.buf[t][j].a ^ W.buf[t][i].a) >> 3) j++;
			if (j != i) continue;            /* an older store to the same word comes first */
			transitions++;
			if (!wdrain(t, i) || !advance(t) || !explore(out, depth + 1)) { free(s); return 0; }
		}
		if (s->T[t].done) continue;
		restore(s);
		int vis = visible(&T[t], t), kinds = 1;
		if (vis == 5 || (weak && !wready(t, vis))) continue;
		if (vis == 4 && T[t].spur < spur_max) kinds = 2;
		if (vis == 1 && wk(vaddr) && !wbuffered(t, (vaddr - weak_lo) / 8)) { int g = (vaddr - weak_lo) / 8; kinds = W.n[g] - wfirst(t, g); }
		for (int k = 0; k < kinds; k++) {
			if (k) restore(s);
			cur = t;
			choice = vis == 1 ? k : 0;
			if (vis == 4 && k) T[t].spur++;
			transitions++;
			if (!step(&T[t], vis == 4 && k) || !advance(t) || !explore(out, depth + 1)) { free(s); return 0; }
		}
	}
	free(s);
	return 1;
}

static int run_mt(int argc, char **argv)
{
	for (int i = 0; i < argc; i++) {
		if (!strcmp(argv[i], "-s")) spur_max = atoi(argv[++i]);
		else if (!strcmp(argv[i], "-w")) weak = 1;
		else if (!strcmp(argv[i], "-m")) maxstates = atol(argv[++i]);
	}
	multi = 1;
	u64 tab = sym("mt_threads"), ntab = sym("mt_ncases"), out = sym("mt_out"), width = sym("mt_nthreads"), outw = sym("mt_nout");
	u64 ncases = ldm(ntab, 8);
	if (weak) { weak_lo = sym("mt_weak"); weak_hi = weak_lo + 8 * NG; if (!weak_lo) return 2; }
	dsz = data_hi - data_lo; ssz = stk_hi[0] - stk_lo[0];
	img = malloc(dsz);
	memcpy(img, mem + (data_lo - BASE), dsz);
	for (u64 i = 0; i < ncases; i++) {
		memcpy(mem + (data_lo - BASE), img, dsz);
		nthreads = ldm(width + 8 * i, 8);
		outn = ldm(outw + 8 * i, 8);
		fault[0] = 0; states = transitions = finals = nout = used = 0; nsteps = 0;
		free(set); cap = 1 << 12; set = calloc(cap, sizeof *set);
		int ok = 1;
		memset(T, 0, sizeof T);
		memset(&W, 0, sizeof W);
		u64 it = sym("mt_init"), ft = sym("mt_fini"), init = it ? ldm(it + 8 * i, 8) : 0;
		fini = ft ? ldm(ft + 8 * i, 8) : 0;
		if (init) ok = run_alone(init);
		for (int g = 0; weak && g < NG; g++) { W.n[g] = 1; W.val[g][0] = ldm(weak_lo + 8 * g, 8); }
		for (int t = 0; t < nthreads; t++) reset_thread(t, ldm(tab + 8 * (i * MAXT + t), 8));
		memset(mem + (stk_lo[0] - BASE), 0, ssz * nthreads);
		for (int t = 0; t < nthreads && ok; t++) ok = advance(t);
		if (ok) ok = explore(out, 0);
		printf("%ld %s %ld %ld %ld", (long)i, fault[0] ? "BAD" : "OK", (long)states, (long)transitions, (long)nsteps);
		if (fault[0]) printf(" %s", fault);
		else for (u64 k = 0; k < nout; k++) { printf(k ? ";" : " "); for (int j = 0; j < outn; j++) printf("%s%ld", j ? "," : "", (long)outv[k * outn + j]); }
		printf("\n");
	}
	return 0;
}

int main(int argc, char **argv)
{
	if (argc < 3) return 2;
	int mt = !strcmp(argv[1], "mt");
	load(argv[2], mt ? 4096 : 1 << 20);
	for (int i = 3; i < argc; i++) { if (!strcmp(argv[i], "-v")) verbose = 1; if (!strcmp(argv[i], "-u")) checks = 0; }
	return mt ? run_mt(argc - 3, argv + 3) : run_all(argc, argv);
}
