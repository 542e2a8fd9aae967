/* runcmd_mc: exhaustive exploration of muon's process runner (run_cmd, run_cmd_collect).
 *
 *   runcmd_mc LEN MODE PART PARTS [SCRIPT CHOICES]
 *
 * The system calls run_cmd makes for its pipes and its child (pipe, fork, read, waitpid, ...) are answered
 * here by a simulated child: a script of writes, closes, one exit, and what a descendant that keeps the
 * pipes does after that exit.  Before every call of the parent the explorer chooses how many steps the
 * child takes first; all choices are enumerated by replaying the real code from the start.
 * MODE: s (run to completion), a (async: run_cmd + polling run_cmd_collect)
 */
#include "compat.h"

#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "log.h"
#include "platform/init.h"
#include "platform/run_cmd.h"

enum { CAP = 5000, PID = 4000001, FD0 = 1000, MAXFD = 64 };
static const int sizes[] = { 1, 4096, 6000 };
/* ops: 0-2 write sizes[] to out, 3-5 to err, 6 close out, 7 close err, 8 exit 0, 9 exit 3, 10 killed */
static const char *opname[] = { "o1", "o4096", "o6000", "e1", "e4096", "e6000", "O", "E", "x0", "x3", "k9" };
enum { NOPS = 11, OP_X = 8 };

static int on; /* the simulation answers */

struct pipe_s {
	int rfd, wfd;           /* parent's ends; 0 when closed by the parent */
	int writers;            /* the child side still holds it open */
	long produced, consumed;
};
static struct pipe_s P[2];
static int npipes, forked, reaped, exited, wstatus;
static int fd_open[MAXFD], nfd;

static int script[16], nscript, pc;
static long left; /* of the write in progress */
static int deadlock, badcall;

/* choices */
static int ch[4096], lim[4096], nch, depth;
static int idle;
static int pruned;
static unsigned long long hist;        /* the parent's last calls and what they returned */
enum { VIS = 1 << 16 };
static unsigned long long vis[VIS];
static unsigned vis_n;
static unsigned long long states;

static int
seen(unsigned long long h)
{
	unsigned i = h % VIS;
	h |= 1;
	while (vis[i]) {
		if (vis[i] == h) {
			return 1;
		}
		i = (i + 1) % VIS;
	}
	if (vis_n < VIS - VIS / 4) {
		vis[i] = h;
		++vis_n;
		++states;
	}
	return 0;
}

static void
remember(int what, long r)
{
	/* the last eight calls */
	hist = (hist << 8) | ((what * 4 + (r > 0 ? 1 : r == 0 ? 2 : 3)) & 0xff);
}
static unsigned long long steps_total, calls_total;

static int
choose(int n)
{
	if (depth >= 4096) {
		badcall = 1;
		return 0;
	}
	if (depth == nch) {
		ch[nch] = 0;
		++nch;
	}
	lim[depth] = n;
	int c = ch[depth++];
	return c < n ? c : n - 1;
}

static char
pat(int s, long i)
{
	return s * 64 + (i * 7 + i / 251) % 63;
}

/* one step of the child side; false when it cannot move */
static int
child_step(void)
{
	if (!forked || pc > nscript) {
		return 0;
	}
	++steps_total;
	if (pc == nscript) {
		/* the last holder goes away */
		P[0].writers = P[1].writers = 0;
		++pc;
		return 1;
	}
	int op = script[pc];
	if (op < 6) {
		struct pipe_s *p = &P[op / 3];
		if (!p->writers) {
			++pc; /* EBADF in the child: nothing is written */
			return 1;
		}
		if (!left) {
			left = sizes[op % 3];
		}
		long room = CAP - (p->produced - p->consumed);
		if (room <= 0) {
			return 0;
		}
		long n = left < room ? left : room;
		p->produced += n;
		left -= n;
		if (!left) {
			++pc;
		}
		return 1;
	}
	if (op == 6 || op == 7) {
		P[op - 6].writers = 0;
	} else {
		exited = 1;
		wstatus = op == 8 ? 0 : op == 9 ? 3 << 8 : 9;
	}
	++pc;
	return 1;
}

static int
steps_left(void)
{
	return forked && pc <= nscript ? nscript + 1 - pc : 0;
}

/* the child side may move before a call of the parent */
static void
sched(int what, int force)
{
	++calls_total;
	int r = steps_left();
	if (!r) {
		if (++idle > 200) {
			badcall = 2; /* the parent does not end though nothing is left to happen */
		}
		return;
	}
	int min = force || idle >= 6;
	if (!pruned && depth >= nch) {
		unsigned long long h = 1469598103934665603ull;
		long v[] = { pc, left, P[0].produced, P[0].consumed, P[1].produced, P[1].consumed, idle, force, what, (long)hist,
			reaped };
		for (unsigned i = 0; i < sizeof v / sizeof *v; ++i) {
			h = (h ^ (unsigned long)v[i]) * 1099511628211ull;
			h ^= h >> 29;
		}
		pruned = seen(h);
	}
	int k = min + choose(pruned && depth >= nch ? 1 : r + 1 - min), any = 0;
	for (int i = 0; i < k; ++i) {
		if (!child_step()) {
			break;
		}
		any = 1;
	}
	if (k && !any && ++idle > 200) {
		deadlock = 1;
	} else if (any) {
		idle = 0;
	} else {
		++idle;
	}
}

static void
abort_if_stuck(void)
{
	if (deadlock || badcall) {
		printf("STUCK %s\n", deadlock ? "the child waits for room in a pipe and the parent does not read"
			: "the parent polls on after the child and its pipes are gone");
		fflush(stdout);
		_exit(7);
	}
}

static int
mkfd(void)
{
	int f = FD0 + nfd++;
	fd_open[f - FD0] = 1;
	return f;
}

int __real_pipe(int *);
int
__wrap_pipe(int *fds)
{
	if (!on) {
		return __real_pipe(fds);
	}
	struct pipe_s *p = &P[npipes++];
	*p = (struct pipe_s){ .writers = 1 };
	fds[0] = p->rfd = mkfd();
	fds[1] = p->wfd = mkfd();
	return 0;
}

int
__wrap_pipe2(int *fds, int flags)
{
	return __wrap_pipe(fds);
}

int __real_fcntl(int, int, ...);
int
__wrap_fcntl(int fd, int cmd, ...)
{
	va_list ap;
	va_start(ap, cmd);
	long a = va_arg(ap, long);
	va_end(ap);
	return fd >= FD0 ? 0 : __real_fcntl(fd, cmd, a);
}

int
__wrap_fcntl64(int fd, int cmd, ...)
{
	va_list ap;
	va_start(ap, cmd);
	long a = va_arg(ap, long);
	va_end(ap);
	return fd >= FD0 ? 0 : __real_fcntl(fd, cmd, a);
}

int __real_close(int);
int
__wrap_close(int fd)
{
	if (fd < FD0) {
		return __real_close(fd);
	}
	if (fd >= FD0 + nfd || !fd_open[fd - FD0]) {
		errno = EBADF;
		return -1;
	}
	fd_open[fd - FD0] = 0;
	return 0;
}

pid_t __real_fork(void);
pid_t
__wrap_fork(void)
{
	if (!on) {
		return __real_fork();
	}
	forked = 1;
	return PID;
}

ssize_t __real_read(int, void *, size_t);
ssize_t
__wrap_read(int fd, void *buf, size_t n)
{
	if (fd < FD0) {
		return __real_read(fd, buf, n);
	}
	sched(fd == P[0].rfd ? 1 : 2, 0);
	abort_if_stuck();
	int s = fd == P[0].rfd ? 0 : 1;
	struct pipe_s *p = &P[s];
	if (fd != p->rfd || !fd_open[fd - FD0]) {
		errno = EBADF;
		return -1;
	}
	long av = p->produced - p->consumed;
	if (!av) {
		/* end of file only once no writer is left: neither the child side nor the parent's own end */
		if (!p->writers && !fd_open[p->wfd - FD0]) {
			remember(1 + s, 0);
			return 0;
		}
		errno = EAGAIN;
		remember(1 + s, -1);
		return -1;
	}
	if ((long)n > av) {
		n = av;
	}
	for (size_t i = 0; i < n; ++i) {
		((char *)buf)[i] = pat(s, p->consumed + i);
	}
	p->consumed += n;
	idle = 0;
	remember(1 + s, 1);
	return n;
}

pid_t __real_waitpid(pid_t, int *, int);
pid_t
__wrap_waitpid(pid_t pid, int *st, int opt)
{
	if (!on || (pid != PID && pid != -1)) {
		return __real_waitpid(pid, st, opt);
	}
	if (!(opt & WNOHANG)) {
		while (!exited) {
			sched(3, 1);
			abort_if_stuck();
		}
	}
	sched(3, 0);
	abort_if_stuck();
	if (reaped) {
		errno = ECHILD;
		return -1;
	}
	if (!exited) {
		remember(3, 0);
		return 0;
	}
	reaped = 1;
	remember(3, 1);
	*st = wstatus;
	return PID;
}

static void
pause_(void)
{
	sched(4, 1);
	abort_if_stuck();
}

int __real_nanosleep(const struct timespec *, struct timespec *);
int
__wrap_nanosleep(const struct timespec *a, struct timespec *b)
{
	if (!on) {
		return __real_nanosleep(a, b);
	}
	pause_();
	return 0;
}

int
__wrap_usleep(unsigned us)
{
	pause_();
	return 0;
}

int __real_poll(struct pollfd *, nfds_t, int);
int
__wrap_poll(struct pollfd *f, nfds_t n, int to)
{
	if (!on) {
		return __real_poll(f, n, to);
	}
	for (int round = 0;; ++round) {
		int r = 0;
		sched(5, round > 0);
		abort_if_stuck();
		for (nfds_t i = 0; i < n; ++i) {
			f[i].revents = 0;
			for (int s = 0; s < 2; ++s) {
				if (f[i].fd == P[s].rfd) {
					if (P[s].produced > P[s].consumed) {
						f[i].revents |= POLLIN;
					}
					if (!P[s].writers) {
						f[i].revents |= POLLHUP;
					}
				}
			}
			r += !!f[i].revents;
		}
		if (r || to >= 0) {
			return r;
		}
	}
}

static void
show(void)
{
	printf("script");
	for (int i = 0; i < nscript; ++i) {
		printf(" %s", opname[script[i]]);
	}
	printf(" choices");
	for (int i = 0; i < depth; ++i) {
		printf(" %d", ch[i]);
	}
	printf("\n");
}

static int bads;
static void
bad(const char *what)
{
	printf("BAD %s; ", what);
	show();
	++bads;
}

static unsigned long long runs, scripts, nontrivial;

static void
one(int async)
{
	memset(P, 0, sizeof P);
	npipes = forked = reaped = exited = wstatus = nfd = pc = 0;
	left = 0;
	idle = 0;
	deadlock = badcall = 0;
	depth = 0;
	pruned = 0;
	hist = 0;
	++runs;

	struct run_cmd_ctx ctx = { 0 };
	if (async) {
		ctx.flags |= run_cmd_ctx_flag_async;
	}
	char *argv[] = { "/bin/true", "x", NULL };
	on = 1;
	bool ok = run_cmd_argv(&ctx, argv, NULL, 0);
	enum run_cmd_state st = run_cmd_finished;
	if (async) {
		if (!ok) {
			bad("run_cmd_argv failed");
		}
		while ((st = run_cmd_collect(&ctx)) == run_cmd_running) {
			pause_();
		}
		ok = st == run_cmd_finished;
	}
	on = 0;

	int code = -1;
	long want[2] = { 0, 0 };
	int open_[2] = { 1, 1 };
	for (int i = 0; i < nscript; ++i) {
		int o = script[i];
		if (o < 6) {
			if (open_[o / 3]) {
				want[o / 3] += sizes[o % 3];
			}
		} else if (o < 8) {
			open_[o - 6] = 0;
		} else {
			code = o - 8;
		}
	}
	if (code == 2) {
		if (ok) {
			bad("a killed command counts as finished");
		}
	} else {
		if (!ok) {
			bad("failed");
		} else {
			if (ctx.status != (code ? 3 : 0)) {
				bad("wrong status");
			}
			struct sbuf *b[2] = { &ctx.out, &ctx.err };
			for (int s = 0; s < 2; ++s) {
				if (b[s]->len != want[s]) {
					bad(s ? "standard error incomplete" : "standard output incomplete");
					continue;
				}
				for (long i = 0; i < want[s]; ++i) {
					if (b[s]->buf[i] != pat(s, i)) {
						bad("output differs");
						break;
					}
				}
				if (b[s]->buf && b[s]->buf[want[s]]) {
					bad("output not terminated");
				}
			}
		}
	}
	if (!reaped) {
		bad("the child is never waited for");
	}
	on = 1;
	run_cmd_ctx_destroy(&ctx);
	on = 0;
	for (int i = 0; i < nfd; ++i) {
		if (fd_open[i]) {
			bad("a pipe is left open");
			break;
		}
	}
}

/* next choice vector in depth first order; false when exhausted */
static int
next(void)
{
	nch = depth;
	while (nch > 0) {
		if (ch[nch - 1] + 1 < lim[nch - 1]) {
			++ch[nch - 1];
			return 1;
		}
		--nch;
	}
	return 0;
}

int
main(int argc, char **argv)
{
	int len = atoi(argv[1]), async = argv[2][0] == 'a', part = atoi(argv[3]), parts = atoi(argv[4]);
	platform_init();
	log_init();
	log_set_file(stderr);
	long idx[8] = { 0 };
	unsigned long long maxd = 0;
	if (argc > 5) {
		/* replay: ops... -- choices... */
		int i = 5;
		for (; i < argc && strcmp(argv[i], "--"); ++i) {
			for (int o = 0; o < NOPS; ++o) {
				if (!strcmp(opname[o], argv[i])) {
					script[nscript++] = o;
				}
			}
		}
		for (++i; i < argc; ++i) {
			ch[nch++] = atoi(argv[i]);
		}
		one(async);
		return bads ? 1 : 0;
	}
	/* all scripts of `n` ops with exactly one exit */
	unsigned long long count = 0;
	for (int n = 1; n <= len; ++n) {
		for (int i = 0; i < n; ++i) {
			script[i] = 0;
		}
		for (;;) {
			int x = 0;
			for (int i = 0; i < n; ++i) {
				x += script[i] >= OP_X;
			}
			if (x == 1 && (int)(count++ % parts) == part) {
				nscript = n;
				++scripts;
				nch = 0;
				memset(vis, 0, sizeof vis);
				vis_n = 0;
				unsigned long long r0 = runs;
				do {
					one(async);
					if (depth > (int)maxd) {
						maxd = depth;
					}
				} while (bads < 5 && next());
				if (runs - r0 > 1) {
					++nontrivial;
				}
				if (bads >= 5) {
					break;
				}
			}
			int i = n - 1;
			while (i >= 0 && ++script[i] == NOPS) {
				script[i--] = 0;
			}
			if (i < 0) {
				break;
			}
		}
		if (bads >= 5) {
			break;
		}
	}
	printf("STAT %llu %llu %llu %llu %llu %llu\n", scripts, runs, steps_total, calls_total, maxd, states);
	return 0;
}
