/* forksrv: runs the real main() of muon in a process of its own (fork) for each request.
 * Request: u32 length, directory and arguments, each ended by a NUL.
 * Answer: i32 wait status, u32 length of stdout, u32 length of stderr, both.
 */
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

int muon_main(int argc, char **argv);

static int
full(int fd, void *p, size_t n, int w)
{
	size_t k = 0;
	while (k < n) {
		ssize_t r = w ? write(fd, (char *)p + k, n - k) : read(fd, (char *)p + k, n - k);
		if (r <= 0) {
			return 0;
		}
		k += r;
	}
	return 1;
}

int
main(void)
{
	static char buf[65536], out[4 << 20];
	char *argv[64];
	uint32_t n;
	int o = memfd_create("out", 0), e = memfd_create("err", 0), fd[2] = { o, e };
	if (o < 0 || e < 0) {
		return 3;
	}

	while (full(0, &n, 4, 0)) {
		if (n >= sizeof(buf) || !full(0, buf, n, 0)) {
			return 3;
		}
		int argc = 0;
		for (char *p = buf; p < buf + n; p += strlen(p) + 1) {
			if (argc < 63) {
				argv[argc++] = p;
			}
		}
		argv[argc] = 0;
		for (int i = 0; i < 2; ++i) {
			if (ftruncate(fd[i], 0) || lseek(fd[i], 0, SEEK_SET)) {
				return 3;
			}
		}

		pid_t p = fork();
		if (!p) {
			int in = open("/dev/null", O_RDONLY);
			dup2(in, 0);
			dup2(o, 1);
			dup2(e, 2);
			alarm(30);
			if (chdir(argv[0])) {
				_exit(90);
			}
			exit(muon_main(argc - 1, argv + 1));
		}
		int st = 0;
		waitpid(p, &st, 0);

		int32_t h[3] = { st };
		for (int i = 0; i < 2; ++i) {
			off_t l = lseek(fd[i], 0, SEEK_END);
			h[1 + i] = l > (off_t)sizeof(out) / 2 ? sizeof(out) / 2 : l;
		}
		full(1, h, sizeof(h), 1);
		for (int i = 0; i < 2; ++i) {
			if (pread(fd[i], out, h[1 + i], 0) != h[1 + i] || !full(1, out, h[1 + i], 1)) {
				return 3;
			}
		}
	}
	return 0;
}
