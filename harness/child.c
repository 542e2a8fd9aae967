/* child SCRIPT [ARG...]: does what SCRIPT says, steps separated by ','
 *   oN eN   write the next N bytes of the pattern to standard output / error
 *   N n     write a NUL byte to standard output / error
 *   O E     close standard output / error
 *   zN      sleep N ms
 *   i       copy standard input to standard output
 *   a       write the further arguments to standard output, each followed by '|'
 *   v       write the values of the environment variables named by the further arguments, each followed by '|'
 *   fN      fork: the parent exits with N, the child goes on after a moment
 *   xN kN   exit with N / die of signal N
 */
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

static long at[3];

static void
put(int fd, const char *b, long n)
{
	while (n > 0) {
		ssize_t r = write(fd, b, n);
		if (r <= 0) {
			return;
		}
		b += r;
		n -= r;
	}
}

static void
zzz(long ms)
{
	struct timespec t = { ms / 1000, (ms % 1000) * 1000000 };
	nanosleep(&t, 0);
}

int
main(int argc, char **argv)
{
	char *p = argc > 1 ? argv[1] : "";
	static char b[1 << 20];
	while (*p) {
		char op = *p++;
		char *e;
		long n = strtol(p, &e, 10);
		p = e;
		if (*p == ',') {
			++p;
		}
		switch (op) {
		case 'o':
		case 'e': {
			int fd = op == 'o' ? 1 : 2;
			for (long i = 0; i < n; ++i) {
				long j = at[fd]++;
				b[i] = j % 61 == 60 ? '\n' : "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[(j + j / 61 + fd) % 62];
			}
			put(fd, b, n);
			break;
		}
		case 'N': put(1, "", 1); break;
		case 'n': put(2, "", 1); break;
		case 'O': close(1); break;
		case 'E': close(2); break;
		case 'z': zzz(n); break;
		case 'i': {
			ssize_t r;
			while ((r = read(0, b, sizeof b)) > 0) {
				put(1, b, r);
			}
			break;
		}
		case 'a':
		case 'v':
			for (int i = 2; i < argc; ++i) {
				const char *v = op == 'a' ? argv[i] : getenv(argv[i]);
				v = v ? v : "(unset)";
				put(1, v, strlen(v));
				put(1, "|", 1);
			}
			break;
		case 'f':
			if (fork()) {
				_exit(n);
			}
			zzz(30);
			break;
		case 'x': _exit(n);
		case 'k': signal(n, SIG_DFL); kill(getpid(), n); zzz(1000); break;
		}
	}
	return 0;
}
