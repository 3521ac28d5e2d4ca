// Runs the compiler proper on many inputs: one forked child per input, calling
// the compiler's own main (renamed toycc_main at build time).
// With an absolute path as ARGS[0] the child executes that program instead.
//   inproc CASES RESULTS SCRATCHFILE TIMEOUT ARGS...    ("@" in ARGS stands for the input file)
// CASES and RESULTS hold records: u32 length, bytes; a result is "<status> <message>".
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>

int toycc_main(int argc, const char **argv);

// plain descriptors: a child's exit() must not flush or rewind shared streams
static void put(int fd, const void *p, uint32_t n)
{
	if (write(fd, &n, 4) != 4 || write(fd, p, n) != n)
		_exit(3);
}

static int get(int fd, void *p, uint32_t n)
{
	uint32_t k = 0;

	while (k < n) {
		ssize_t r = read(fd, (char *)p + k, n - k);
		if (r <= 0)
			return k ? -1 : 0;
		k += r;
	}
	return 1;
}

int main(int argc, const char **argv)
{
	int in = open(argv[1], O_RDONLY), out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0600);
	const char *path = argv[3];
	int limit = atoi(argv[4]);
	uint32_t n;
	static char buf[1 << 22], msg[4096];
	char errpath[4096];

	snprintf(errpath, sizeof errpath, "%s.err", path);
	for (int i = 5; i < argc; i++)
		if (!strcmp(argv[i], "@"))
			argv[i] = path;

	struct rlimit core = {0, 0};
	setrlimit(RLIMIT_CORE, &core);
	int err = open(errpath, O_RDWR | O_CREAT | O_TRUNC, 0600);
	int fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);

	while (get(in, &n, 4) == 1) {
		if (n > sizeof buf || (n && get(in, buf, n) != 1))
			return 3;
		if (ftruncate(fd, 0) || pwrite(fd, buf, n, 0) != n || ftruncate(err, 0))
			return 3;
		lseek(err, 0, SEEK_SET);
		pid_t pid = fork();
		if (pid < 0)
			return 3;
		if (pid == 0) {
			struct rlimit cpu = {limit, limit + 1};
			setrlimit(RLIMIT_CPU, &cpu);
			alarm(limit * 20);
			dup2(err, 2);
			int nul = open("/dev/null", O_WRONLY);
			dup2(nul, 1);
			if (argv[5][0] == '/') {
				execv(argv[5], (char **)argv + 5);
				_exit(127);
			}
			exit(toycc_main(argc - 5, argv + 5));
		}
		int st;
		waitpid(pid, &st, 0);
		int len = snprintf(msg, sizeof msg, "%d ", WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st));
		int k = pread(err, msg + len, sizeof msg - len, 0);
		put(out, msg, len + (k > 0 ? k : 0));
	}
	return close(out) ? 3 : 0;
}
