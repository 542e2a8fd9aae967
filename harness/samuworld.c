/* samuworld: run muon's embedded ninja (samu_main, the real code) over a small
 * virtual world.
 *
 * The file system is real (a private scratch directory) but every file time
 * stamp is decided by the driver; processes are virtual: run_cmd_argv and
 * run_cmd_collect are interposed at link time, so that the driver decides which
 * running job finishes when, which jobs fail, and where the build dies.
 *
 * request:  u16 argc, argv strings (u16 len)
 *           u16 nfiles { u16 path len, path, i64 mtime, u32 len, content }
 *           u16 nfail  { u16 len, output name, u8 kind }   1 fail, 2 write then fail, 3 fails to start
 *           u16 nchoice, u8 choices[]
 *           i32 crash event (-1: never), u8 crash mode, i64 clock, u8 reads-at (0 start, 1 end)
 * response: status byte 0; i32 wait status, i64 clock, u32 events len, events,
 *           u16 nwidth, u8 widths[], u16 nfiles {as above}, u32 stderr len, stderr
 */
#include "compat.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include "external/samurai.h"
#include "log.h"
#include "platform/run_cmd.h"

#define BASE 1000000000000000000ll

struct shared {
	int64_t clock;
	uint32_t nev, nwidth, evn;
	uint8_t width[4096];
	char ev[1 << 18];
};
static struct shared *S;

struct fail { char *name; int kind; };
static struct fail *fails;
static int nfails;
static uint8_t *choices;
static int nchoices;
static int crash_at, crash_mode, reads_at;

struct buf { char *b; size_t n, cap; };

static void
bn(struct buf *o, const void *p, size_t n)
{
	if (o->n + n + 1 > o->cap) {
		o->cap = (o->n + n + 1) * 2;
		o->b = realloc(o->b, o->cap);
	}
	memcpy(o->b + o->n, p, n);
	o->n += n;
	o->b[o->n] = 0;
}
static void bs(struct buf *o, const char *s) { bn(o, s, strlen(s)); }

static void
event(const char *kind, const char *what)
{
	int n = snprintf(S->ev + S->evn, sizeof(S->ev) - S->evn, "%s %s\n", kind, what);
	if (S->evn + n >= sizeof(S->ev)) {
		_exit(98);
	}
	S->evn += n;
	if ((int)S->nev++ == crash_at) {
		if (crash_mode) {
			fflush(NULL);
		}
		_exit(99);
	}
}

static int
choose(int width)
{
	if (width < 2) {
		return 0;
	}
	if (S->nwidth >= sizeof(S->width)) {
		_exit(98);
	}
	int i = S->nwidth++;
	S->width[i] = width;
	int c = i < nchoices ? choices[i] : 0;
	if (c >= width) {
		_exit(96);
	}
	return c;
}

static bool
slurp(const char *path, struct buf *b)
{
	int fd = open(path, O_RDONLY);
	if (fd < 0) {
		return false;
	}
	char tmp[65536];
	ssize_t n;
	bn(b, "", 0);
	while ((n = read(fd, tmp, sizeof tmp)) > 0) {
		bn(b, tmp, n);
	}
	close(fd);
	return true;
}

static void
set_mtime(const char *path, int64_t t)
{
	struct timespec ts[2];
	t += BASE;
	ts[0].tv_sec = ts[1].tv_sec = t / 1000000000ll;
	ts[0].tv_nsec = ts[1].tv_nsec = t % 1000000000ll;
	if (utimensat(AT_FDCWD, path, ts, 0)) {
		_exit(95);
	}
}

static bool
spew(const char *path, const char *b, size_t n, int64_t t)
{
	int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd < 0) {
		return false;
	}
	if (write(fd, b, n) != (ssize_t)n) {
		_exit(95);
	}
	close(fd);
	set_mtime(path, t);
	return true;
}

/* ------------------------------------------------------------ virtual jobs */

#define MAXW 64
struct job {
	bool used, decided;
	int outcome; /* exit status */
	char *cmd;
	char *w[MAXW];
	int nw;
	char *out[MAXW], *in[MAXW];
	int nout, nin;
	char *tag, *depfile, *rsp;
	bool restat, pass, trunc, nodepfile, onlyhdr;
	bool inputs_ok;
	struct buf text;  /* what the outputs are computed from */
	struct buf first; /* the first input */
	struct buf deps;  /* discovered dependencies */
	char *seen[MAXW];
	int nseen;
};
static struct job jobs[64];
static int running;
static int pick = -1, remaining;
static bool just_finished;

static void
include_scan(struct job *j, const char *content)
{
	if (strncmp(content, "#inc:", 5)) {
		return;
	}
	const char *p = content + 5;
	while (*p && *p != '\n') {
		size_t n = strcspn(p, ",\n");
		if (n) {
			char *name = strndup(p, n);
			int i;
			for (i = 0; i < j->nseen; ++i) {
				if (!strcmp(j->seen[i], name)) {
					break;
				}
			}
			if (i == j->nseen) {
				j->seen[j->nseen++] = name;
				struct buf b = { 0 };
				if (!slurp(name, &b)) {
					j->inputs_ok = false;
				} else {
					bs(&j->text, "<");
					bs(&j->text, name);
					bs(&j->text, "=");
					bn(&j->text, b.b, b.n);
					bs(&j->text, ">");
					bs(&j->deps, " ");
					bs(&j->deps, name);
					include_scan(j, b.b);
				}
			}
		}
		p += n;
		if (*p == ',') {
			++p;
		}
	}
}

static void
read_inputs(struct job *j)
{
	int i;
	j->inputs_ok = true;
	bs(&j->text, j->tag);
	bs(&j->text, "(");
	for (i = 0; i < j->nin; ++i) {
		struct buf b = { 0 };
		if (!slurp(j->in[i], &b)) {
			j->inputs_ok = false;
			continue;
		}
		if (!i) {
			bn(&j->first, b.b, b.n);
		}
		bn(&j->text, b.b, b.n);
		bs(&j->text, ";");
		if (j->depfile) {
			if (!j->onlyhdr) {
				bs(&j->deps, " ");
				bs(&j->deps, j->in[i]);
			}
			include_scan(j, b.b);
		}
	}
	if (j->rsp) {
		struct buf b = { 0 };
		if (!slurp(j->rsp, &b)) {
			j->inputs_ok = false;
		} else {
			bs(&j->text, "@");
			bn(&j->text, b.b, b.n);
		}
	}
	bs(&j->text, ")");
}

static uint64_t
fnv(const char *s, size_t n)
{
	uint64_t h = 0xcbf29ce484222325ull;
	while (n--) {
		h = (h ^ (uint8_t)*s++) * 0x100000001b3ull;
	}
	return h;
}

static void
finish(struct job *j)
{
	int i, kind = 0;
	for (i = 0; i < nfails; ++i) {
		if (!strcmp(fails[i].name, j->out[0])) {
			kind = fails[i].kind;
		}
	}
	if (reads_at) {
		read_inputs(j);
	}
	if (!j->inputs_ok || kind == 1) {
		j->outcome = 1;
		event("fail", j->out[0]);
		return;
	}
	event("kill", j->out[0]); /* a crash here: the job wrote nothing */
	for (i = 0; i < j->nout; ++i) {
		char text[64];
		struct buf c = { 0 };
		if (kind == 2) {
			bs(&c, "garbage");
		} else if (j->pass) {
			bn(&c, j->first.b, j->first.n);
		} else if (j->trunc) {
			size_t n = strcspn(j->first.b, "\n");
			if (i) {
				/* later outputs take the following lines */
				const char *p = j->first.b;
				int k;
				for (k = 0; k < i && *p; ++k) {
					p += strcspn(p, "\n");
					if (*p) {
						++p;
					}
				}
				bn(&c, p, strcspn(p, "\n"));
			} else {
				bn(&c, j->first.b, n);
			}
		} else {
			snprintf(text, sizeof text, "%016" PRIx64 ".%d", fnv(j->text.b, j->text.n), i);
			bs(&c, text);
		}
		if (j->restat) {
			struct buf old = { 0 };
			if (slurp(j->out[i], &old) && old.n == c.n && !memcmp(old.b, c.b, c.n)) {
				event("keep", j->out[i]);
				continue;
			}
		}
		if (!spew(j->out[i], c.b ? c.b : "", c.n, ++S->clock)) {
			j->outcome = 1;
			event("fail", j->out[0]);
			return;
		}
		event("write", j->out[i]);
	}
	if (j->depfile && !j->nodepfile) {
		struct buf d = { 0 };
		bs(&d, j->out[0]);
		bs(&d, ":");
		bs(&d, j->deps.b ? j->deps.b : "");
		bs(&d, "\n");
		spew(j->depfile, d.b, d.n, S->clock);
		event("depfile", j->depfile);
	}
	j->outcome = kind == 2 ? 1 : 0;
	event(kind == 2 ? "fail" : "done", j->out[0]);
}

bool
__wrap_run_cmd_argv(struct run_cmd_ctx *ctx, char *const *argv, const char *envstr, uint32_t envc)
{
	int i, id;
	for (id = 0; id < 64 && jobs[id].used; ++id) {
	}
	if (id == 64) {
		_exit(94);
	}
	struct job *j = &jobs[id];
	*j = (struct job){ 0 };
	j->cmd = strdup(argv[2]);
	char *p = strtok(j->cmd, " \n");
	while (p && j->nw < MAXW) {
		j->w[j->nw++] = p;
		p = strtok(NULL, " \n");
	}
	char sect = 0;
	j->tag = j->nw > 1 ? j->w[1] : "";
	for (i = 2; i < j->nw; ++i) {
		char *w = j->w[i];
		if (w[0] == '-' && w[1] && !w[2]) {
			sect = w[1];
			switch (sect) {
			case 'r': j->restat = true; break;
			case 'P': j->pass = true; break;
			case 't': j->trunc = true; break;
			case 'N': j->nodepfile = true; break;
			case 'Q': j->onlyhdr = true; break;
			}
			continue;
		}
		switch (sect) {
		case 'o': j->out[j->nout++] = w; break;
		case 'i': j->in[j->nin++] = w; break;
		case 'd': j->depfile = w; break;
		case 'R': j->rsp = w; break;
		}
	}
	if (!j->nout) {
		event("bad", argv[2]);
		_exit(93);
	}
	for (i = 0; i < nfails; ++i) {
		if (fails[i].kind == 3 && !strcmp(fails[i].name, j->out[0])) {
			event("nostart", j->out[0]);
			ctx->err_msg = "cannot start";
			return false;
		}
	}
	j->used = true;
	if (!reads_at) {
		read_inputs(j);
	}
	ctx->pid = id + 1;
	++running;
	pick = -1;
	just_finished = false;
	event("start", j->out[0]);
	event((ctx->flags & run_cmd_ctx_flag_dont_capture) ? "console" : "capture", j->out[0]);
	return true;
}

/* Each decision is how many polls are answered "still running" before the next
 * job finishes.  Right after a job finished, one more answer is possible: refuse
 * everybody, so that jobs that became ready are started first (which asks again). */

enum run_cmd_state
__wrap_run_cmd_collect(struct run_cmd_ctx *ctx)
{
	int id = ctx->pid - 1;
	struct job *j = &jobs[id];
	if (id < 0 || id >= 64 || !j->used) {
		_exit(92);
	}
	if (!(ctx->flags & run_cmd_ctx_flag_async)) {
		_exit(91);
	}

	if (pick < 0) {
		event("poll", "");
		remaining = choose(running + (just_finished ? 1 : 0));
		pick = 0;
		just_finished = false;
	}
	if (remaining > 0) {
		--remaining;
		return run_cmd_running;
	}
	just_finished = true;
	pick = -1;
	event("collect", j->out[0]);
	finish(j);
	ctx->status = j->outcome;
	j->used = false;
	--running;
	return run_cmd_finished;
}

void
__wrap_run_cmd_ctx_destroy(struct run_cmd_ctx *ctx)
{
}

/* ------------------------------------------------------------ the server */

static uint8_t *rp;
static uint64_t r_n(int n) { uint64_t v = 0; memcpy(&v, rp, n); rp += n; return v; }
static char *r_s(int lenbytes, uint32_t *len)
{
	uint32_t n = r_n(lenbytes);
	char *s = malloc(n + 1);
	memcpy(s, rp, n);
	s[n] = 0;
	rp += n;
	if (len) {
		*len = n;
	}
	return s;
}

static struct buf O;
static uint16_t nf;

static void
walk(const char *dir, bool wipe)
{
	DIR *d = opendir(*dir ? dir : ".");
	struct dirent *e;
	char path[4096];
	char *names[4096];
	int n = 0, i;
	while (d && (e = readdir(d))) {
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) {
			continue;
		}
		if (n < 4096) {
			names[n++] = strdup(e->d_name);
		}
	}
	if (d) {
		closedir(d);
	}
	for (i = 0; i < n; ++i) {
		snprintf(path, sizeof path, "%s%s%s", dir, *dir ? "/" : "", names[i]);
		free(names[i]);
		struct stat st;
		if (lstat(path, &st)) {
			continue;
		}
		if (S_ISDIR(st.st_mode)) {
			char *c = strdup(path);
			walk(c, wipe);
			if (wipe) {
				rmdir(c);
			}
			free(c);
		} else if (wipe) {
			unlink(path);
		} else {
			struct buf b = { 0 };
			slurp(path, &b);
			uint16_t l = strlen(path);
			bn(&O, &l, 2);
			bn(&O, path, l);
			int64_t t = (int64_t)st.st_mtim.tv_sec * 1000000000ll + st.st_mtim.tv_nsec - BASE;
			bn(&O, &t, 8);
			uint32_t cl = b.n;
			bn(&O, &cl, 4);
			bn(&O, b.b ? b.b : "", b.n);
			free(b.b);
			++nf;
		}
	}
}

static void
mkparents(const char *path)
{
	char *p = strdup(path), *s = p;
	while ((s = strchr(s, '/'))) {
		*s = 0;
		mkdir(p, 0755);
		*s++ = '/';
	}
	free(p);
}

static bool
rd(void *p, size_t n)
{
	while (n) {
		ssize_t r = read(0, p, n);
		if (r <= 0) {
			return false;
		}
		p = (char *)p + r;
		n -= r;
	}
	return true;
}

int
main(int argc, char **argv)
{
	if (argc < 2 || chdir(argv[1])) {
		return 2;
	}
	S = mmap(NULL, sizeof(*S), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	int errfd = memfd_create("err", 0);
	int nullfd = open("/dev/null", O_RDWR);
	setenv("NINJA_STATUS", "[%s/%t] ", 1);
	unsetenv("SAMUFLAGS");
	char hdr[5];
	while (rd(hdr, 5)) {
		uint32_t len, i;
		memcpy(&len, hdr + 1, 4);
		uint8_t *req = malloc(len + 1);
		if (!rd(req, len)) {
			break;
		}
		rp = req;
		char *av[64] = { "samu" };
		int ac = 1, n;
		n = r_n(2);
		while (n--) {
			av[ac++] = r_s(2, 0);
		}
		av[ac] = 0;
		n = r_n(2);
		while (n--) {
			char *path = r_s(2, 0);
			int64_t t = (int64_t)r_n(8);
			uint32_t cl;
			char *c = r_s(4, &cl);
			if (strchr(path, '/')) {
				mkparents(path);
			}
			spew(path, c, cl, t);
			free(path);
			free(c);
		}
		nfails = r_n(2);
		fails = calloc(nfails + 1, sizeof(*fails));
		for (i = 0; (int)i < nfails; ++i) {
			fails[i].name = r_s(2, 0);
			fails[i].kind = r_n(1);
		}
		nchoices = r_n(2);
		choices = rp;
		rp += nchoices;
		crash_at = (int32_t)r_n(4);
		crash_mode = r_n(1);
		S->clock = (int64_t)r_n(8);
		reads_at = r_n(1);
		S->nev = S->nwidth = S->evn = 0;

		ftruncate(errfd, 0);
		lseek(errfd, 0, SEEK_SET);
		fflush(NULL);
		pid_t pid = fork();
		if (!pid) {
			dup2(nullfd, 0);
			dup2(nullfd, 1);
			dup2(errfd, 2);
			close(3);
			alarm(4);
			log_init();
			bool ok = samu_main(ac, av, NULL);
			exit(ok ? 0 : 1);
		}
		int st = 0;
		waitpid(pid, &st, 0);

		O.n = 0;
		bn(&O, &st, 4);
		bn(&O, &S->clock, 8);
		bn(&O, &S->evn, 4);
		bn(&O, S->ev, S->evn);
		uint16_t w = S->nwidth;
		bn(&O, &w, 2);
		bn(&O, S->width, w);
		size_t at = O.n;
		nf = 0;
		bn(&O, &nf, 2);
		walk("", false);
		memcpy(O.b + at, &nf, 2);
		char eb[2048];
		off_t end = lseek(errfd, 0, SEEK_END);
		lseek(errfd, end > (off_t)sizeof(eb) ? end - (off_t)sizeof(eb) : 0, SEEK_SET);
		ssize_t er = read(errfd, eb, sizeof eb);
		uint32_t el = er > 0 ? er : 0;
		bn(&O, &el, 4);
		bn(&O, eb, el);
		walk("", true);

		uint8_t stt = 0;
		uint32_t ol = O.n;
		struct buf R = { 0 };
		bn(&R, &stt, 1);
		bn(&R, &ol, 4);
		bn(&R, O.b, O.n);
		size_t off = 0;
		while (off < R.n) {
			ssize_t k = write(3, R.b + off, R.n - off);
			if (k <= 0) {
				return 0;
			}
			off += k;
		}
		free(R.b);
		for (i = 1; (int)i < ac; ++i) {
			free(av[i]);
		}
		for (i = 0; (int)i < nfails; ++i) {
			free(fails[i].name);
		}
		free(fails);
		free(req);
	}
	return 0;
}
