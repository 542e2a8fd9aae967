/* cliworld: run the muon command line (the real main, in a forked child) over
 * scratch trees, as an unprivileged user, many times a second.
 *
 * usage: cliworld scratch-dir muon-path uid
 * request 's': u32 nops, ops:
 *   'w' path u16 mode, u32 len, content     write a file (parents are made)
 *   'l' path target                         symbolic link
 *   'd' path                                directory
 *   'x' path                                remove, recursively
 *   'c' path u16 mode                       chmod
 *   'u' path i64 ns                         set the time stamp
 *   'm' from to                             rename
 *   'r' cwd u16 nenv {str} u16 argc {str} u16 timeout   run muon argv
 *   'e' the same, but exec argv[0]
 *   'p' the same as 'r', then u8 mode u8 set u32 k u16 errno: run under ptrace, and at the k-th system call
 *       of the set ('w': those that change files, 'a': also those that read, and make processes) fail it with errno (mode 'e'), die
 *       before it ('k') or after half of a write ('t'); 's' cuts a read or write in half; 'c' only counts
 *   't' path                                dump a tree
 *   'f' path                                dump a file
 * strings are u16 length + bytes. The scratch directory is emptied before every
 * request ('k': kept).  response: per r/e: i32 wait status, u32 len, output; per t: u32
 * count {u8 type, path, u16 mode, i64 ns, u32 len, content or target}; per f: i32 len (-1: none), content; per p:
 * as r, then u32 number of calls seen, str the call hit
 */
#define _GNU_SOURCE
#include "compat.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <poll.h>
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/user.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

int muon_main(int argc, char *argv[]);

struct buf { char *b; size_t n, cap; };
static struct buf O;

static void
bn(struct buf *o, const void *p, size_t n)
{
	if (o->n + n + 1 > o->cap) {
		o->cap = (o->n + n + 1) * 2;
		o->b = realloc(o->b, o->cap);
	}
	memcpy(o->b + o->n, p, n);
	o->n += n;
	o->b[o->n] = 0;
}
static void b16(uint16_t v) { bn(&O, &v, 2); }
static void b32(uint32_t v) { bn(&O, &v, 4); }
static void b64(int64_t v) { bn(&O, &v, 8); }

static uint8_t *rp;
static uint64_t r_n(int n) { uint64_t v = 0; memcpy(&v, rp, n); rp += n; return v; }
static char *r_b(int lenbytes, uint32_t *len)
{
	uint32_t n = r_n(lenbytes);
	char *s = malloc(n + 1);
	memcpy(s, rp, n);
	s[n] = 0;
	rp += n;
	if (len) {
		*len = n;
	}
	return s;
}
static char *r_s(void) { return r_b(2, 0); }

static int
namecmp(const void *a, const void *b)
{
	return strcmp(*(char *const *)a, *(char *const *)b);
}

static int
list(const char *dir, char ***out)
{
	DIR *d = opendir(dir);
	struct dirent *e;
	int n = 0, cap = 0;
	char **v = NULL;
	while (d && (e = readdir(d))) {
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) {
			continue;
		}
		if (n == cap) {
			v = realloc(v, sizeof(*v) * (cap = cap ? cap * 2 : 16));
		}
		v[n++] = strdup(e->d_name);
	}
	if (d) {
		closedir(d);
	}
	if (n) {
		qsort(v, n, sizeof(*v), namecmp);
	}
	*out = v;
	return n;
}

static void
wipe(const char *path, bool self)
{
	struct stat st;
	if (lstat(path, &st)) {
		return;
	}
	if (S_ISDIR(st.st_mode)) {
		if ((st.st_mode & 0700) != 0700) {
			chmod(path, 0755);
		}
		char **v;
		int i, n = list(path, &v);
		for (i = 0; i < n; ++i) {
			char *p;
			asprintf(&p, "%s/%s", path, v[i]);
			wipe(p, true);
			free(p);
			free(v[i]);
		}
		free(v);
		if (self) {
			rmdir(path);
		}
	} else {
		unlink(path);
	}
}

static void
slurp(const char *path, struct buf *b, size_t cap)
{
	int fd = open(path, O_RDONLY);
	char tmp[65536];
	ssize_t n;
	bn(b, "", 0);
	if (fd < 0) {
		return;
	}
	while (b->n < cap && (n = read(fd, tmp, sizeof tmp)) > 0) {
		bn(b, tmp, n);
	}
	close(fd);
}

static uint32_t count;

static void
dump(const char *path)
{
	struct stat st;
	if (lstat(path, &st)) {
		return;
	}
	char t = S_ISDIR(st.st_mode) ? 'd' : S_ISLNK(st.st_mode) ? 'l' : S_ISREG(st.st_mode) ? 'f' : '?';
	++count;
	bn(&O, &t, 1);
	b16(strlen(path));
	bn(&O, path, strlen(path));
	b16(st.st_mode & 07777);
	b64((int64_t)st.st_mtim.tv_sec * 1000000000ll + st.st_mtim.tv_nsec);
	struct buf c = { 0 };
	if (t == 'f') {
		slurp(path, &c, 1 << 22);
	} else if (t == 'l') {
		char tmp[4096];
		ssize_t n = readlink(path, tmp, sizeof tmp);
		bn(&c, tmp, n > 0 ? n : 0);
	}
	b32(c.n);
	bn(&O, c.b ? c.b : "", c.n);
	free(c.b);
	if (t == 'd') {
		char **v;
		int i, n = list(path, &v);
		for (i = 0; i < n; ++i) {
			char *p;
			if (!strcmp(path, ".")) {
				p = strdup(v[i]);
			} else {
				asprintf(&p, "%s/%s", path, v[i]);
			}
			dump(p);
			free(p);
			free(v[i]);
		}
		free(v);
	}
}

static void
mkparents(const char *path)
{
	char *p = strdup(path), *s = p;
	if (*s == '/') {
		++s;
	}
	while ((s = strchr(s, '/'))) {
		*s = 0;
		mkdir(p, 0755);
		*s++ = '/';
	}
	free(p);
}

static bool
rd(void *p, size_t n)
{
	while (n) {
		ssize_t r = read(0, p, n);
		if (r <= 0) {
			return false;
		}
		p = (char *)p + r;
		n -= r;
	}
	return true;
}

static void
peek(pid_t pid, unsigned long a, char *out, size_t n)
{
	char f[64];
	snprintf(f, sizeof f, "/proc/%d/mem", pid);
	int fd = open(f, O_RDONLY);
	ssize_t r = fd >= 0 ? pread(fd, out, n - 1, a) : -1;
	out[r > 0 ? r : 0] = 0;
	if (fd >= 0) {
		close(fd);
	}
}

/* is this a call that can be hit? describe it */
static bool
wanted(pid_t pid, struct user_regs_struct *u, char set, char *desc, size_t n)
{
	long a = u->rdi, b = u->rsi, c = u->rdx;
	char path[256] = "";
	*desc = 0;
#define NAMED(x, arg) peek(pid, arg, path, sizeof path); snprintf(desc, n, "%s %s", x, path); return true
	switch (u->orig_rax) {
	case SYS_write: case SYS_pwrite64: case SYS_writev:
		if (a <= 2) {
			return false;
		}
		snprintf(desc, n, "write %ld", a);
		return true;
	case SYS_openat:
		if (!(c & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) && set == 'w') {
			return false;
		}
		NAMED(c & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR) ? "openw" : "open", b);
	case SYS_mkdir: NAMED("mkdir", a);
	case SYS_mkdirat: NAMED("mkdir", b);
	case SYS_rename: NAMED("rename", b);
	case SYS_renameat: case SYS_renameat2: NAMED("rename", u->r10);
	case SYS_unlink: case SYS_rmdir: NAMED("unlink", a);
	case SYS_unlinkat: NAMED("unlink", b);
	case SYS_symlink: NAMED("symlink", b);
	case SYS_symlinkat: NAMED("symlink", c);
	case SYS_link: NAMED("link", b);
	case SYS_chmod: NAMED("chmod", a);
	case SYS_fchmodat: NAMED("chmod", b);
	case SYS_fchmod: NAMED("fchmod", 0);
	case SYS_ftruncate: NAMED("ftruncate", 0);
	case SYS_utimensat: NAMED("utimensat", b);
	default: break;
	}
	if (set == 'w') {
		return false;
	}
	switch (u->orig_rax) {
	case SYS_read: case SYS_pread64: {
		/* polling an empty pipe is not an event */
		char l[64];
		snprintf(l, sizeof l, "/proc/%d/fd/%ld", pid, a);
		struct stat st;
		if (!stat(l, &st) && S_ISFIFO(st.st_mode)) {
			int fd = open(l, O_RDONLY | O_NONBLOCK);
			struct pollfd pf = { .fd = fd, .events = POLLIN };
			bool ready = fd < 0 || (poll(&pf, 1, 0) > 0 && pf.revents);
			if (fd >= 0) {
				close(fd);
			}
			if (!ready) {
				return false;
			}
		}
		snprintf(desc, n, "read %ld", a);
		return true;
	}
	case SYS_close:
		if (a <= 3) {
			return false;
		}
		snprintf(desc, n, "close %ld", a);
		return true;
	case SYS_chdir: NAMED("chdir", a);
	case SYS_getcwd: NAMED("getcwd", 0);
	case SYS_getdents64: NAMED("getdents", 0);
	case SYS_readlink: NAMED("readlink", a);
	case SYS_readlinkat: NAMED("readlink", b);
	case SYS_pipe: case SYS_pipe2: NAMED("pipe", 0);
	case SYS_fork: case SYS_vfork: case SYS_clone: NAMED("fork", 0);
	case SYS_lseek:
		snprintf(desc, n, "lseek %ld", a);
		return true;
	default: break;
	}
	return false;
}

static uint32_t seen;
static char hit[300];

static int
trace(pid_t pid, char mode, char set, uint32_t k, int err)
{
	int st;
	bool entry = true, fail = false, half = false;
	seen = 0;
	hit[0] = 0;
	while (waitpid(pid, &st, 0) == pid) {
		if (WIFEXITED(st) || WIFSIGNALED(st)) {
			return st;
		}
		int sig = WSTOPSIG(st);
		if (sig == (SIGTRAP | 0x80)) {
			struct user_regs_struct u;
			ptrace(PTRACE_GETREGS, pid, 0, &u);
			if (entry) {
				char d[300];
				if (wanted(pid, &u, set, d, sizeof d) && ++seen == k && mode != 'c') {
					strcpy(hit, d);
					if (mode == 'k' || (mode == 't' && strncmp(d, "write", 5))) {
						kill(pid, SIGKILL);
						continue;
					} else if (mode == 's') {
						if (u.rdx > 1 && (!strncmp(d, "write", 5) || !strncmp(d, "read ", 5))) {
							u.rdx /= 2;
						} else {
							hit[0] = 0;
						}
					} else if (mode == 't') {
						u.rdx /= 2;
						half = true;
					} else {
						// close() releases the descriptor even if it fails
						if (strncmp(d, "close", 5)) {
							u.orig_rax = -1;
						}
						fail = true;
					}
					ptrace(PTRACE_SETREGS, pid, 0, &u);
				}
			} else if (fail) {
				u.rax = -(long)err;
				ptrace(PTRACE_SETREGS, pid, 0, &u);
				fail = false;
			} else if (half) {
				kill(pid, SIGKILL);
				continue;
			}
			entry = !entry;
			sig = 0;
		} else if (sig == SIGSTOP || sig == SIGTRAP) {
			sig = 0;
		}
		ptrace(PTRACE_SYSCALL, pid, 0, sig);
	}
	return st;
}

static int outfd, nullfd;
static const char *muonpath;

static void
run(char kind)
{
	char *cwd = r_s();
	int i, nenv = r_n(2);
	char *env[64];
	for (i = 0; i < nenv; ++i) {
		env[i] = r_s();
	}
	int argc = r_n(2);
	char **av = calloc(argc + 2, sizeof(*av));
	int ac = 0;
	if (kind != 'e') {
		av[ac++] = (char *)muonpath;
	}
	for (i = 0; i < argc; ++i) {
		av[ac++] = r_s();
	}
	int timeout = r_n(2);
	char mode = 0, set = 0;
	uint32_t k = 0;
	int err = 0;
	if (kind == 'p') {
		mode = r_n(1);
		set = r_n(1);
		k = r_n(4);
		err = r_n(2);
	}

	ftruncate(outfd, 0);
	lseek(outfd, 0, SEEK_SET);
	fflush(NULL);
	pid_t pid = fork();
	if (!pid) {
		setpgid(0, 0);
		dup2(nullfd, 0);
		dup2(outfd, 1);
		dup2(outfd, 2);
		close(3);
		for (i = 0; i < nenv; ++i) {
			putenv(env[i]);
		}
		if (chdir(cwd)) {
			_exit(120);
		}
		alarm(timeout);
		if (kind == 'p') {
			if (ptrace(PTRACE_TRACEME, 0, 0, 0)) {
				_exit(122);
			}
			raise(SIGSTOP);
		}
		if (kind != 'e') {
			exit(muon_main(ac, av));
		} else {
			execvp(av[0], av);
			_exit(121);
		}
	}
	int st = 0;
	if (kind == 'p') {
		waitpid(pid, &st, 0);
		if (!WIFEXITED(st)) {
			ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
			ptrace(PTRACE_SYSCALL, pid, 0, 0);
			st = trace(pid, mode, set, k, err);
		}
	} else {
		waitpid(pid, &st, 0);
	}
	kill(-pid, SIGKILL);
	bn(&O, &st, 4);
	off_t end = lseek(outfd, 0, SEEK_END);
	if (end > (1 << 20)) {
		end = 1 << 20;
	}
	char *c = malloc(end + 1);
	ssize_t n = pread(outfd, c, end, 0);
	b32(n > 0 ? n : 0);
	bn(&O, c, n > 0 ? n : 0);
	free(c);
	free(av);
	if (kind == 'p') {
		b32(seen);
		b16(strlen(hit));
		bn(&O, hit, strlen(hit));
	}
}

int
main(int argc, char **argv)
{
	if (argc < 4) {
		return 2;
	}
	muonpath = argv[2];
	uid_t uid = atoi(argv[3]);
	umask(022);
	if (uid && (setgroups(0, NULL) || setgid(uid) || setuid(uid))) {
		perror("setuid");
		return 3;
	}
	prctl(PR_SET_DUMPABLE, 1);
	if (chdir(argv[1])) {
		perror("chdir");
		return 2;
	}
	signal(SIGPIPE, SIG_DFL);
	outfd = memfd_create("out", 0);
	nullfd = open("/dev/null", O_RDWR);
	setenv("HOME", argv[1], 1);
	char hdr[5];
	while (rd(hdr, 5)) {
		uint32_t len;
		memcpy(&len, hdr + 1, 4);
		uint8_t *req = malloc(len + 1);
		if (!rd(req, len)) {
			break;
		}
		if (hdr[0] != 'k') {
			wipe(".", false);
		}
		O.n = 0;
		rp = req;
		uint32_t nops = r_n(4);
		while (nops--) {
			char op = r_n(1);
			if (op == 'r' || op == 'e' || op == 'p') {
				run(op);
				continue;
			}
			char *path = r_s();
			switch (op) {
			case 'w': {
				int mode = r_n(2);
				uint32_t n;
				char *c = r_b(4, &n);
				mkparents(path);
				int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, mode);
				if (fd >= 0) {
					write(fd, c, n);
					fchmod(fd, mode);
					close(fd);
				}
				free(c);
				break;
			}
			case 'l': {
				char *t = r_s();
				mkparents(path);
				symlink(t, path);
				free(t);
				break;
			}
			case 'd':
				mkparents(path);
				mkdir(path, 0755);
				break;
			case 'x':
				wipe(path, true);
				break;
			case 'c':
				chmod(path, r_n(2));
				break;
			case 'm': {
				char *t = r_s();
				rename(path, t);
				free(t);
				break;
			}
			case 'u': {
				int64_t ns = (int64_t)r_n(8);
				struct timespec ts[2] = { { ns / 1000000000ll, ns % 1000000000ll }, { ns / 1000000000ll, ns % 1000000000ll } };
				utimensat(AT_FDCWD, path, ts, AT_SYMLINK_NOFOLLOW);
				break;
			}
			case 't': {
				size_t at = O.n;
				count = 0;
				b32(0);
				dump(path);
				memcpy(O.b + at, &count, 4);
				break;
			}
			case 'f': {
				struct stat st;
				if (stat(path, &st) || !S_ISREG(st.st_mode)) {
					b32(-1);
				} else {
					struct buf c = { 0 };
					slurp(path, &c, 1 << 24);
					b32(c.n);
					bn(&O, c.b, c.n);
					free(c.b);
				}
				break;
			}
			default:
				return 4;
			}
			free(path);
		}
		struct buf R = { 0 };
		uint8_t z = 0;
		uint32_t ol = O.n;
		bn(&R, &z, 1);
		bn(&R, &ol, 4);
		bn(&R, O.b ? O.b : "", O.n);
		size_t off = 0;
		while (off < R.n) {
			ssize_t k = write(3, R.b + off, R.n - off);
			if (k <= 0) {
				return 0;
			}
			off += k;
		}
		free(R.b);
		free(req);
	}
	return 0;
}
