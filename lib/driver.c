/* Runs every case of a batch under a register-checking trampoline and prints
   one line per case.  Always compiled by the cross gcc, never by toycc. */
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <unistd.h>

extern void (*vf_cases[])(void);
extern const long vf_ncases;
extern long vf_checked_call(void (*fn)(void));   /* tramp.S: bitmask of clobbered registers */

static unsigned long h, n, out_cap = 2000000;
static int verbose, sreg;
static sigjmp_buf jb;
static volatile int cur;

static void put(unsigned long v)
{
	h = (h ^ v) * 0x9E3779B97F4A7C15UL;
	h ^= h >> 29;
	n++;
	if (verbose && n < 4000)
		printf(" %lx", v);
	if (n > out_cap)
		raise(SIGXFSZ);
}
void O(long v) { put((unsigned long)v); }
void OD(double d)
{
	unsigned long u;
	if (d != d) { put(0x7ff8000000000000UL); return; }
	memcpy(&u, &d, 8);
	put(u);
}
void OF(float f)
{
	unsigned u;
	if (f != f) { put(0x7fc00000UL); return; }
	memcpy(&u, &f, 4);
	put(u);
}
void OB(const void *p, long len)
{
	const unsigned char *b = p;
	for (long i = 0; i < len; i++)
		put(b[i]);
}
void OS(const char *s) { OB(s, strlen(s) + 1); }

static void onsig(int s) { siglongjmp(jb, s); }

int main(int argc, char **argv)
{
	static char alt[65536];
	stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
	long lo = 0, hi = vf_ncases, limit = 10;
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "-v")) verbose = 1;
		else if (!strcmp(argv[i], "-r")) sreg = 1;
		else if (argv[i][0] == 't') limit = atol(argv[i] + 1);
	}
	sigaltstack(&ss, 0);
	int sigs[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGALRM, SIGABRT, SIGTRAP, SIGXFSZ };
	for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) {
		struct sigaction sa;
		memset(&sa, 0, sizeof sa);
		sa.sa_handler = onsig;
		sa.sa_flags = SA_ONSTACK | SA_NODEFER;
		sigaction(sigs[i], &sa, 0);
	}
	for (cur = lo; cur < hi; cur++) {
		h = n = 0;
		printf("%d", cur);
		struct itimerval it = { {0, 0}, {limit, 0} };
		setitimer(ITIMER_REAL, &it, 0);
		int s = sigsetjmp(jb, 1);
		long m = 0;
		if (!s)
			m = vf_checked_call(vf_cases[cur]);
		if (verbose)
			printf(" |");
		if (s)
			printf(" SIGNAL %d after %lu", s, n);
		else
			printf(" %lu %016lx", n, h);
		if (sreg && m)
			printf(" REGS %lx", m);
		printf("\n");
		if (s || (cur & 255) == 0)
			fflush(stdout);
	}
	return 0;
}
