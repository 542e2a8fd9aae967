/* misuse: configures the project in the current directory into ../b with the
 * real code, and then evaluates each program it is sent in a process of its
 * own that starts from that state (fork), generating the build files if the
 * program succeeds.  Request: u32 length, program.  Answer: i32 wait status,
 * u32 length, what was printed.
 */
#include "compat.h"

#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include "args.h"
#include "backend/backend.h"
#include "lang/eval.h"
#include "lang/interpreter.h"
#include "lang/workspace.h"
#include "log.h"
#include "options.h"
#include "compilers.h"
#include "platform/path.h"
#include "platform/init.h"

static int
rd(int fd, void *p, size_t n)
{
	size_t k = 0;
	while (k < n) {
		ssize_t r = read(fd, (char *)p + k, n - k);
		if (r <= 0) {
			return 0;
		}
		k += r;
	}
	return 1;
}

static void
wr(int fd, const void *p, size_t n)
{
	while (n) {
		ssize_t r = write(fd, p, n);
		if (r <= 0) {
			_exit(3);
		}
		p = (const char *)p + r;
		n -= r;
	}
}

int
main(int argc, char **argv)
{
	/* argv: log file, uid or 0, argv0 for muon */
	int in = dup(0), out = dup(1), uid = atoi(argv[2]);
	int lf = open(argv[1], O_RDWR | O_CREAT | O_TRUNC, 0666);
	int nul = open("/dev/null", O_RDONLY);
	fcntl(in, F_SETFD, FD_CLOEXEC);
	fcntl(out, F_SETFD, FD_CLOEXEC);
	dup2(nul, 0);
	dup2(lf, 1);
	dup2(lf, 2);
	if (uid) {
		if (setresgid(uid, uid, uid) || setresuid(uid, uid, uid)) {
			return 4;
		}
	}
	struct rlimit rl = { 0, 0 };
	setrlimit(RLIMIT_CORE, &rl);

	platform_init();
	log_init();
	log_set_lvl(log_info);
	path_init();
	compilers_init();

	struct workspace wk;
	workspace_init(&wk);
	char *av[] = { "setup", "../b", NULL };
	uint32_t id;
	if (!workspace_setup_paths(&wk, "../b", argv[3], 2, av)
	    || !eval_project(&wk, NULL, wk.source_root, wk.build_root, &id)) {
		fflush(stdout);
		return 2;
	}
	wk.cur_project = 0;
	int32_t zero = 0;
	uint32_t n = 0;
	fflush(stdout);
	wr(out, &zero, 4);
	wr(out, &n, 4);

	char *prog = NULL;
	while (rd(in, &n, 4)) {
		prog = realloc(prog, n + 1);
		if (!rd(in, prog, n)) {
			return 3;
		}
		prog[n] = 0;
		ftruncate(lf, 0);
		lseek(lf, 0, SEEK_SET);
		pid_t p = fork();
		if (!p) {
			obj res;
			alarm(30);
			setpgid(0, 0);
			bool ok = eval_str(&wk, prog, eval_mode_default, &res) && backend_output(&wk);
			fflush(stdout);
			fflush(stderr);
			_exit(ok ? 0 : 1);
		}
		int st = 0;
		while (waitpid(p, &st, 0) < 0) {
		}
		static char buf[1 << 16];
		lseek(lf, 0, SEEK_SET);
		ssize_t k = read(lf, buf, sizeof buf);
		n = k < 0 ? 0 : k;
		int32_t s = st;
		wr(out, &s, 4);
		wr(out, &n, 4);
		wr(out, buf, n);
	}
	return 0;
}
