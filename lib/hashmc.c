/* All histories of put, delete and get up to a depth, from every starting fill, against a plain association list.
   Only the interface of hashmap.h is used.  argv: depth nkeys first_fill last_fill */
#include <toycc.h>
#include <hashmap.h>

static char keys[8][16], fill[200][16];
static int nkeys, depth, nfill;
static long states, transitions;

static unsigned long fnv(const char *s) { unsigned long h = 0xcbf29ce484222325; for (; *s; s++) { h *= 0x100000001b3; h ^= (unsigned char)*s; } return h; }

static void find_keys(void)
{
	/* keys that fall into one bucket for every small capacity, and the last two into the next ones */
	int n = 0;
	for (int want = 0; n < 8; want = n < 6 ? 0 : n - 5)
		for (long i = n * 1000003; ; i++) {
			char b[32];
			sprintf(b, "k%lx", i);
			if ((fnv(b) & 255) == (14 + want) % 256 && strlen(b) < 15) { strcpy(keys[n++], b); break; }
		}
	for (int i = 0; i < 200; i++) sprintf(fill[i], "fill%d", i);
}

static void fail(int *ops, int n, const char *what)
{
	printf("FAIL fill=%d ", nfill);
	for (int i = 0; i < n; i++) {
		int k = ops[i] / 3, o = ops[i] % 3;
		printf("%s(key%d) ", o == 0 ? "put1" : o == 1 ? "put2" : "delete", k);
	}
	printf(": %s\n", what);
	exit(3);
}

static void run(int *ops, int n)
{
	struct HashMap map;
	long val[8] = {0};
	memset(&map, 0, sizeof map);
	for (int i = 0; i < nfill; i++) hashmap_put(&map, fill[i], (void *)(long)(i + 100));
	for (int i = 0; i < n; i++) {
		int k = ops[i] / 3, o = ops[i] % 3;
		/* keys are passed from different addresses and not always terminated */
		static char pool[16][32];
		char *copy = pool[i];
		sprintf(copy, "%sZZ", keys[k]);
		int len = strlen(keys[k]);
		if (o == 2) { hashmap_delete2(&map, copy, len); val[k] = 0; memset(copy, 'X', 32); }
		else { hashmap_put2(&map, copy, len, (void *)(long)(o + 1)); val[k] = o + 1; }
		transitions++;
	}
	for (int k = 0; k < nkeys; k++)
		if ((long)hashmap_get2(&map, keys[k], strlen(keys[k])) != val[k]) {
			char b[100];
			sprintf(b, "key%d holds %ld instead of %ld", k, (long)hashmap_get(&map, keys[k]), val[k]);
			fail(ops, n, b);
		}
	for (int i = 0; i < nfill; i++)
		if ((long)hashmap_get(&map, fill[i]) != i + 100) fail(ops, n, "a key that was not touched changed");
	if (hashmap_get(&map, "absent")) fail(ops, n, "a key that was never put is found");
	states++;
	free(map.buckets);
}

static void explore(int *ops, int n)
{
	if (n) run(ops, n);
	if (n == depth) return;
	for (int o = 0; o < 3 * nkeys; o++) { ops[n] = o; explore(ops, n + 1); }
}

int main(int argc, char **argv)
{
	int ops[16];
	depth = atoi(argv[1]); nkeys = atoi(argv[2]);
	find_keys();
	for (nfill = atoi(argv[3]); nfill <= atoi(argv[4]); nfill++) explore(ops, 0);
	printf("DONE %ld %ld\n", states, transitions);
	return 0;
}
