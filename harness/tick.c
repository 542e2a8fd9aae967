/* tick FILE NAME MS [STATUS]: appends "+NAME\n" to FILE, sleeps, appends "-NAME\n", exits with STATUS (negative: dies of that signal) */
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

int
main(int argc, char **argv)
{
	char b[256];
	int fd = open(argv[1], O_WRONLY | O_APPEND | O_CREAT, 0644);
	if (fd < 0) {
		return 111;
	}
	long ms = atol(argv[3]);
	int st = argc > 4 ? atoi(argv[4]) : 0;
	write(fd, b, snprintf(b, sizeof(b), "+%s\n", argv[2]));
	struct timespec t = { ms / 1000, (ms % 1000) * 1000000 };
	nanosleep(&t, 0);
	write(fd, b, snprintf(b, sizeof(b), "-%s\n", argv[2]));
	if (st < 0) {
		raise(-st);
	}
	return st;
}
