/* mserve: a small request/response server around muon's own functions.
 *
 * Every request is evaluated by the real code (linked from /repo's objects).
 * Protocol (stdin/stdout fds 0/3): u8 mode, u32 len, payload -> u8 status,
 * u32 len, payload.  A crash of the code under test ends the process, which
 * the driver observes as the verdict for the request in flight.
 */
#include "compat.h"

#include <ctype.h>
#include <errno.h>
#include <inttypes.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "coerce.h"
#include "compilers.h"
#include "error.h"
#include "functions/common.h"
#include "lang/analyze.h"
#include "lang/eval.h"
#include "lang/fmt.h"
#include "lang/interpreter.h"
#include "lang/parser.h"
#include "lang/serial.h"
#include "lang/workspace.h"
#include "log.h"
#include "options.h"
#include "platform/filesystem.h"
#include "platform/init.h"
#include "platform/path.h"

struct out { char *b; size_t n, cap; };
static struct out O;

void
out_n(const void *p, size_t n)
{
	if (O.n + n + 1 > O.cap) {
		O.cap = (O.n + n + 1) * 2;
		O.b = realloc(O.b, O.cap);
	}
	memcpy(O.b + O.n, p, n);
	O.n += n;
	O.b[O.n] = 0;
}

void out_s(const char *s) { out_n(s, strlen(s)); }
void out_c(char c) { out_n(&c, 1); }

void
out_f(const char *fmt, ...)
{
	char buf[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	out_s(buf);
}

void
out_json_str(const char *s, size_t n)
{
	size_t i;
	out_c('"');
	for (i = 0; i < n; ++i) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') {
			out_c('\\');
			out_c(c);
		} else if (c < 0x20 || c >= 0x7f) {
			out_f("\\u%04x", c);
		} else {
			out_c(c);
		}
	}
	out_c('"');
}

static void dump(struct workspace *wk, obj o, int depth);

struct dctx { int depth; bool first; };

static enum iteration_result
dump_arr_iter(struct workspace *wk, void *_c, obj v)
{
	struct dctx *c = _c;
	if (!c->first) {
		out_c(',');
	}
	c->first = false;
	dump(wk, v, c->depth + 1);
	return ir_cont;
}

static enum iteration_result
dump_dict_iter(struct workspace *wk, void *_c, obj k, obj v)
{
	struct dctx *c = _c;
	if (!c->first) {
		out_c(',');
	}
	c->first = false;
	out_c('[');
	dump(wk, k, c->depth + 1);
	out_c(',');
	dump(wk, v, c->depth + 1);
	out_c(']');
	return ir_cont;
}

static void
dump(struct workspace *wk, obj o, int depth)
{
	if (depth > 30) {
		out_s("{\"t\":\"CYCLE\"}");
		return;
	}
	if (!o) {
		out_s("null");
		return;
	}
	struct dctx c = { .depth = depth, .first = true };
	switch (get_obj_type(wk, o)) {
	case obj_bool: out_s(get_obj_bool(wk, o) ? "true" : "false"); break;
	case obj_number: out_f("%" PRId64, get_obj_number(wk, o)); break;
	case obj_string: {
		const struct str *s = get_str(wk, o);
		out_json_str(s->s, s->len);
		break;
	}
	case obj_file: {
		const char *s = get_file_path(wk, o);
		out_s("{\"f\":");
		out_json_str(s, strlen(s));
		out_c('}');
		break;
	}
	case obj_array:
		out_c('[');
		obj_array_foreach(wk, o, &c, dump_arr_iter);
		out_c(']');
		break;
	case obj_dict:
		out_s("{\"d\":[");
		obj_dict_foreach(wk, o, &c, dump_dict_iter);
		out_s("]}");
		break;
	default:
		out_f("{\"t\":\"%s\"}", obj_type_to_s(get_obj_type(wk, o)));
	}
}

static FILE *logf_;
static char *logb;
static size_t logn;

static void
log_begin(void)
{
	logb = NULL;
	logn = 0;
	logf_ = open_memstream(&logb, &logn);
	log_set_file(logf_);
}

static void
log_end(void)
{
	fclose(logf_);
	log_set_file(stderr);
}

/* payload: <lang mode char><var>,<var>\n<program> */
static int
do_eval(char *p, size_t n, bool with_log)
{
	char lm = p[0];
	char *nl = memchr(p, '\n', n);
	size_t plen = n - (nl + 1 - p);
	char *vars = strndup(p + 1, nl - p - 1);
	/* exact-size heap copy, NUL terminated like fs_read_entire_file's buffers */
	char *prog = malloc(plen + 1);
	memcpy(prog, nl + 1, plen);
	prog[plen] = 0;

	/* one workspace serves up to 64 successful programs, each in a project
	 * (scope) of its own; 'E' (confirmation) always starts from nothing */
	static struct workspace wk;
	static int uses;
	uint32_t id;
	obj res;

	log_begin();
	if (with_log && uses) {
		workspace_destroy(&wk);
		uses = 0;
	}
	if (!uses) {
		workspace_init(&wk);
	}
	++uses;
	make_project(&wk, &id, "dummy", wk.source_root, wk.build_root);
	wk.cur_project = id;
	wk.lang_mode = lm == 'i' ? language_internal : (lm == 'x' ? language_extended : language_external);

	struct source src = { .label = "case", .src = prog, .len = plen };
	bool ok = eval(&wk, &src, eval_mode_default, &res);

	out_s("{\"v\":{");
	if (ok) {
		char *save = 0, *v;
		bool first = true;
		for (v = strtok_r(vars, ",", &save); v; v = strtok_r(NULL, ",", &save)) {
			obj o;
			if (wk.get_variable(&wk, v, &o, wk.cur_project)) {
				if (!first) {
					out_c(',');
				}
				first = false;
				out_f("\"%s\":", v);
				dump(&wk, o, 0);
			}
		}
	}
	out_s("}");
	log_end();
	if (with_log) {
		out_s(",\"log\":");
		out_json_str(logb, logn);
	}
	out_s("}");
	free(logb);
	free(vars);
	if (!ok || uses >= 64 || with_log) {
		workspace_destroy(&wk);
		uses = 0;
	}
	free(prog);
	return ok ? 0 : 1;
}

/* ---- AST printing (mode-independent structural dump) ---- */

static void
ast_dump(struct ast *ast, uint32_t id, int d)
{
	struct node *n = get_node(ast, id);
	out_f("(%s", node_type_to_s(n->type));
	switch (n->type) {
	case node_id:
	case node_string:
		out_c(' ');
		out_json_str(n->dat.s, n->type == node_id ? strlen(n->dat.s) : n->subtype);
		break;
	case node_number:
		out_f(" %" PRId64, n->dat.n);
		break;
	default: break;
	}
	(void)d;
	uint32_t i;
	for (i = 0; i < 4; ++i) {
		if (n->chflg & (1 << i)) {
			out_f(" %u", i);
			ast_dump(ast, *get_node_child(n, i), d + 1);
		}
	}
	out_c(')');
}

static int
do_parse(char *p, size_t n, enum parse_mode mode)
{
	char *prog = malloc(n + 1);
	memcpy(prog, p, n);
	prog[n] = 0;
	struct source src = { .label = "case", .src = prog, .len = n };
	struct ast ast = { 0 };
	struct source_data sdata = { 0 };
	log_begin();
	bool ok = parser_parse(NULL, &ast, &sdata, &src, mode);
	log_end();
	if (ok) {
		ast_dump(&ast, ast.root, 0);
		ast_destroy(&ast);
	} else {
		out_n(logb, logn);
	}
	free(logb);
	source_data_destroy(&sdata);
	free(prog);
	return ok ? 0 : 1;
}

/* payload: <cfg path or empty>\n<source> */
static int
do_fmt(char *p, size_t n)
{
	char *nl = memchr(p, '\n', n);
	*nl = 0;
	size_t plen = n - (nl + 1 - p);
	char *prog = malloc(plen + 1);
	memcpy(prog, nl + 1, plen);
	prog[plen] = 0;
	struct source src = { .label = "case", .src = prog, .len = plen };
	char *b = NULL;
	size_t bn = 0;
	FILE *f = open_memstream(&b, &bn);
	log_begin();
	bool ok = fmt(&src, f, *p ? p : NULL, false, false);
	log_end();
	fclose(f);
	if (ok) {
		out_n(b, bn);
	} else {
		out_n(logb, logn);
	}
	free(logb);
	free(b);
	free(prog);
	return ok ? 0 : 1;
}

extern int mserve_ext(char mode, char *p, size_t n);

static void
rd(void *p, size_t n)
{
	char *c = p;
	while (n) {
		ssize_t r = read(0, c, n);
		if (r <= 0) {
			_exit(0);
		}
		c += r;
		n -= r;
	}
}

static void
wr(const void *p, size_t n)
{
	const char *c = p;
	while (n) {
		ssize_t r = write(3, c, n);
		if (r <= 0) {
			_exit(0);
		}
		c += r;
		n -= r;
	}
}

int
main(int argc, char *argv[])
{
	platform_init();
	log_init();
	log_set_lvl(log_info);
	path_init();
	compilers_init();
	disable_fuzz_unsafe_functions = true;
	if (argc > 1 && argv[1][0] == 'u') {
		disable_fuzz_unsafe_functions = false;
	}
	static char wbuf[1 << 20];
	size_t wn = 0;

	while (true) {
		unsigned char mode;
		uint32_t len;
		rd(&mode, 1);
		rd(&len, 4);
		char *p = malloc(len + 1);
		rd(p, len);
		p[len] = 0;
		alarm(10);
		O.n = 0;
		int st;
		switch (mode) {
		case 'e': st = do_eval(p, len, false); break;
		case 'E': st = do_eval(p, len, true); break;
		case 'p': st = do_parse(p, len, pm_quiet); break;
		case 'P': st = do_parse(p, len, pm_quiet | pm_functions); break;
		case 'k': st = do_parse(p, len, pm_quiet | pm_keep_formatting | pm_functions); break;
		case 'f': st = do_fmt(p, len); break;
		case '.': st = 0; out_s("pong"); break;
		default: st = mserve_ext(mode, p, len); break;
		}
		alarm(0);
		free(p);
		uint32_t ol = O.n;
		(void)wbuf;
		(void)wn;
		unsigned char hdr[5];
		hdr[0] = st;
		memcpy(hdr + 1, &ol, 4);
		wr(hdr, 5);
		if (ol) {
			wr(O.b, ol);
		}
	}
}
