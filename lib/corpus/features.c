#include <stddef.h>
#include <stdarg.h>
#define N 3
#define CAT(a, b) a ## b
#define STR(x) #x
#define V(f, ...) f(0, ## __VA_ARGS__)
#define OPT(x, ...) x __VA_OPT__(+ __VA_ARGS__)
#if defined(N) && (N > 2 ? 1 : 0) || !0xFFu
typedef unsigned long ulong;
#elif N == 'a'
# error no
#else
typedef int bad;
#endif
#ifndef Q
#undef Q
#line 40 "other.c"
#pragma once
#endif
enum E { A, B = 4, C = B + A, };
struct S { int a; char b[4]; struct { short c, d : 3; unsigned : 0; } ; union { float f; long l; } u; struct S *next; };
union U { int i; double d; unsigned char raw[8]; };
typedef struct S T;
typedef int (*Fn)(int, const char *, ...);
static int sum(int n, ...) { va_list ap; va_start(ap, n); int r = 0; while (n-- > 0) r += va_arg(ap, int); va_end(ap); return r; }
extern int ext[], printf(const char *fmt, ...);
_Thread_local int tl = 5;
static const char *names[] = { "one", [2] = "t" "hree", STR(a b "c"), [4 ... 5] = "\x41\n\0" };
T s0 = { 1, "abc", { .d = 1 }, .u.l = 7, .next = &s0 }, sa[2] = { [1].a = 3, { 4, { 'x' } } };
int mat[2][N] = { { 1, 2 }, 3, 4 }, *pm = &mat[1][0] + 1, (*pa)[N] = mat;
long big = 0x7fffffffffffffff; unsigned char uc = '\377'; float ff = 1.5e3f; double dd = 0x1p-3; long double ld = 2.5L; _Bool bb = 3;
int *wl = L"x"; char wide[] = u8"é"; unsigned short u16[] = u"a\u00e9"; unsigned u32[] = U"z";
_Alignas(16) char al; int szs[sizeof(struct S) + _Alignof(double) - offsetof(T, u)];
inline static int inl(register int x, int arr[static 3], int fn(int)) { return x ? fn(arr[0]) : -x; }
int flex(int n, char *p) { int vla[n][2]; vla[n - 1][1] = sizeof vla; typeof(vla[0][0]) t = vla[n - 1][1]; return t + *p; }
struct P { char a; int b; } __attribute__((packed)) pk; struct F { int n; char tail[]; };
int generic(void) { return _Generic(1.0f, float: 1, int: 2, default: 3) + _Generic(&pk, struct P *: 1, default: 0); }
int stmts(int n, ulong m)
{
	static int st = N * 2; int i, j = 0, *p = &j; void *tab[] = { &&out, &&again };
	for (int k = 0, q; k < n; k++) { if (k == 2) continue; else if (k > 5) break; j += k, q = j; }
	do { i = n ? m ? 1 : 2 : 3; } while (--n > 0 && !(i & 1) || i ^ 3);
	switch (n % 4) { case 0: j++; case 1 ... 2: { break; } default: j--; case B: ; }
again:
	*p += (char)j << 2 >> 1 | ~i; *p -= j *= 2; j /= 3; j %= 7; j <<= 1; j >>= 1; j &= 255; j |= 1; j ^= 2;
	if (j == 1000) goto *tab[0]; if (st++ < 0) goto again;
	({ int z = j; z + 1; }); p = (int[]){ 1, 2, N }; T loc = s0, *lp = &loc; loc = *lp; lp->u.f = -ff; loc.d = 3; (void)loc.b[1];
	Fn f = (Fn)sum; j = f(2, "a", 1, 2) + (*f)(0, ""); asm("nop"); asm volatile ("nop");
	return V(sum, 1, 2) + OPT(1, 2) + CAT(j, ) + sizeof(T) + sizeof j - (p[1] != 2) + lp->b[0] + (*lp).a + !j - +j;
out:
	return __LINE__ + __COUNTER__ + sizeof(__FILE__) + sizeof __func__ + names[0][0];
}
double fl(float a, double b, long double c) { ld = c * 2; return a * b + (a < b) - (float)c / 3 + (b ? a : 1) + __builtin_types_compatible_p(int, long); }
struct S ret(struct S x, union U u) { x.a = u.i + __builtin_atomic_exchange(&tl, 5); return x; }
_Noreturn void stop(void); void *alloca(unsigned long); int main(int argc, char **argv) { char *q = alloca(argc); *q = 0; return stmts(1, 2) + ret(s0, (union U){ .d = 1 }).a; }
