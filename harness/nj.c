/* nj: conformance driver for the Noja library.
 *
 * Reads a job file of scenarios, runs every scenario in a forked child that
 * uses only the public API of the library, and writes one JSON line per
 * scenario.  All strings in the output are byte-escaped (\u00XX); the Python
 * side re-assembles them as UTF-8.
 *
 * Job format (repeated):
 *   "S key=val key=val ... len=N inlen=M\n" N bytes "\n" M bytes "\n"
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <math.h>
#include <ctype.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include "runtime.h"
#include "run.h"
#include "compiler/compile.h"
#include "assembler/assemble.h"
#include "diagram.h"

/* ---------------------------------------------------------------- streams */
/* bytes allocated by the host (in the build with the sanitizer) */
extern size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));

static long n_fopen, n_fclose, n_opendir, n_closedir, n_dbl;
FILE *__real_fopen(const char *p, const char *m);
int   __real_fclose(FILE *f);
DIR  *__real_opendir(const char *p);
int   __real_closedir(DIR *d);
#define MAXH 4096
static void *openh[MAXH]; static int nopenh;
static void h_add(void *p) { if (nopenh < MAXH) openh[nopenh++] = p; }
static bool h_del(void *p) {
	for (int i = 0; i < nopenh; i++) if (openh[i] == p) { openh[i] = openh[--nopenh]; return true; }
	return false;
}
static bool counting = false;
FILE *__wrap_fopen(const char *p, const char *m) {
	FILE *f = __real_fopen(p, m);
	if (f && counting) { n_fopen++; h_add(f); }
	return f;
}
int __wrap_fclose(FILE *f) {
	if (h_del(f)) n_fclose++;
	return __real_fclose(f);
}
DIR *__wrap_opendir(const char *p) {
	DIR *d = __real_opendir(p);
	if (d && counting) { n_opendir++; h_add(d); }
	return d;
}
int __wrap_closedir(DIR *d) {
	if (h_del(d)) n_closedir++;
	return __real_closedir(d);
}

/* ---------------------------------------------------------------- scenario */
typedef struct Scn Scn;
struct Scn {
	char hdr[2048];
	char *body; long len;
	char *in;   long inlen;
};

static const char *opt(const Scn *s, const char *key, const char *def, char *buf, size_t n)
{
	size_t kl = strlen(key);
	const char *p = s->hdr;
	while ((p = strstr(p, key))) {
		if ((p == s->hdr || p[-1] == ' ') && p[kl] == '=') {
			p += kl + 1;
			size_t i = 0;
			while (p[i] && p[i] != ' ' && p[i] != '\n' && i + 1 < n) { buf[i] = p[i]; i++; }
			buf[i] = 0;
			return buf;
		}
		p += kl;
	}
	return def;
}
static long optl(const Scn *s, const char *key, long def)
{
	char b[64];
	const char *v = opt(s, key, NULL, b, sizeof b);
	return v ? atol(v) : def;
}

static Scn **scns; static int nscn;

static void load(const char *path)
{
	FILE *f = __real_fopen(path, "rb");
	if (!f) { perror(path); exit(2); }
	char line[2048];
	while (fgets(line, sizeof line, f)) {
		if (line[0] != 'S') continue;
		Scn *s = calloc(1, sizeof *s);
		strcpy(s->hdr, line + 2);
		s->hdr[strcspn(s->hdr, "\n")] = 0;
		s->len = optl(s, "len", 0);
		s->inlen = optl(s, "inlen", 0);
		s->body = malloc(s->len + 1);
		if (fread(s->body, 1, s->len, f) != (size_t) s->len) exit(2);
		s->body[s->len] = 0;
		fgetc(f);
		s->in = malloc(s->inlen + 1);
		if (fread(s->in, 1, s->inlen, f) != (size_t) s->inlen) exit(2);
		s->in[s->inlen] = 0;
		fgetc(f);
		scns = realloc(scns, sizeof(Scn*) * (nscn + 1));
		scns[nscn++] = s;
	}
	__real_fclose(f);
}

/* ---------------------------------------------------------------- JSON */
static void jstr(FILE *o, const char *s, size_t n)
{
	fputc('"', o);
	for (size_t i = 0; i < n; i++) {
		unsigned char c = s[i];
		if (c < 32 || c >= 127 || c == '"' || c == '\\') fprintf(o, "\\u%04x", c);
		else fputc(c, o);
	}
	fputc('"', o);
}
static void jcstr(FILE *o, const char *s) { jstr(o, s, strlen(s)); }

/* ------------------------------------------------- canonical value dump */
typedef struct { FILE *o; Heap *scratch; Object *seen[4096]; int nseen; int nodes; int refs; } Dump;

static void dump(Dump *d, Object *x);

static int dump_mark(Dump *d, Object *x)   /* <0: already seen (-id) */
{
	for (int i = 0; i < d->nseen; i++) if (d->seen[i] == x) return -(i + 1);
	if (d->nseen == 4096) return 0;
	d->seen[d->nseen++] = x;
	return d->nseen;
}

static void dump(Dump *d, Object *x)
{
	FILE *o = d->o;
	if (++d->nodes > 6000) { fprintf(o, "[\"...\"]"); return; }
	if (x == NULL) { fprintf(o, "[\"NULL\"]"); return; }
	const TypeObject *t = Object_GetType(x);
	if (Object_IsNone(x)) { fprintf(o, "[\"n\"]"); return; }
	if (Object_IsBool(x)) { fprintf(o, "[\"b\",%s]", Object_GetBool(x) ? "true" : "false"); return; }
	if (Object_IsInt(x)) { fprintf(o, "[\"i\",%lld]", Object_GetInt(x)); return; }
	if (Object_IsFloat(x)) {
		double v = Object_GetFloat(x), w = v * 64;
		if (v == 0 && signbit(v)) fprintf(o, "[\"f\",\"-0\"]");
		else if (fabs(w) < 1e15 && w == floor(w)) fprintf(o, "[\"f\",%.0f]", w);
		else fprintf(o, "[\"F\",\"%.17g\"]", v);
		return;
	}
	if (Object_IsString(x)) {
		size_t n; const char *s = Object_GetString(x, &n);
		fprintf(o, "[\"s\","); jstr(o, s, n); fprintf(o, "]");
		return;
	}
	if (Object_IsList(x)) {
		int id = dump_mark(d, x);
		if (id < 0) { fprintf(o, "[\"r\",%d]", -id); return; }
		Error e; Error_Init(&e);
		int n = Object_Count(x, &e);
		fprintf(o, "[\"L\",%d,[", id);
		for (int i = 0; i < n; i++) {
			Object *k = Object_FromInt(i, d->scratch, &e);
			Object *v = Object_Select(x, k, d->scratch, &e);
			if (i) fputc(',', o);
			dump(d, v);
		}
		fprintf(o, "]]");
		Error_Free(&e);
		return;
	}
	if (Object_IsMap(x)) {
		int id = dump_mark(d, x);
		if (id < 0) { fprintf(o, "[\"r\",%d]", -id); return; }
		Error e; Error_Init(&e);
		int n = Object_Count(x, &e);
		Object *ks = Object_KeysOf(x, d->scratch, &e);
		int nk = ks && Object_IsList(ks) ? Object_Count(ks, &e) : -1;
		fprintf(o, "[\"M\",%d,%d,[", id, n);
		for (int i = 0; i < nk; i++) {
			Object *ik = Object_FromInt(i, d->scratch, &e);
			Object *k = Object_Select(ks, ik, d->scratch, &e);
			if (i) fputc(',', o);
			fputc('[', o);
			dump(d, k);
			fputc(',', o);
			Error e2; Error_Init(&e2);
			Object *v = Object_Select(x, k, d->scratch, &e2);
			dump(d, v);
			fputc(']', o);
			Error_Free(&e2);
		}
		fprintf(o, "]]");
		Error_Free(&e);
		return;
	}
	if (Object_IsBuffer(x)) {
		int id = dump_mark(d, x);
		if (id < 0) { fprintf(o, "[\"r\",%d]", -id); return; }
		size_t n; unsigned char *p = Object_GetBuffer(x, &n);
		fprintf(o, "[\"B\",%d,[", id);
		for (size_t i = 0; i < n && i < 4096; i++) fprintf(o, "%s%d", i ? "," : "", p[i]);
		fprintf(o, "]]");
		return;
	}
	if (Object_IsFile(x)) { fprintf(o, "[\"File\"]"); return; }
	if (Object_IsDir(x))  { fprintf(o, "[\"Dir\"]"); return; }
	if (t == Object_GetTypeType()) { fprintf(o, "[\"T\","); jcstr(o, ((TypeObject*) x)->name); fprintf(o, "]"); return; }
	if (t == Object_GetNullableType() || t == Object_GetSumType() || t == Object_GetAnyType()) {
		char *b = NULL; size_t n = 0;
		FILE *m = open_memstream(&b, &n);
		Object_Print(x, m); __real_fclose(m);
		fprintf(o, "[\"t\","); jstr(o, b, n); fprintf(o, "]");
		free(b);
		return;
	}
	fprintf(o, "[\"x\","); jcstr(o, Object_GetName(x)); fprintf(o, "]");
}

static Dump *newdump(FILE *o)
{
	Dump *d = calloc(1, sizeof *d);
	d->o = o;
	d->scratch = Heap_New(1 << 20);
	return d;
}
static void freedump(Dump *d) { Heap_Free(d->scratch); free(d); }

/* ---------------------------------------------------------------- runs */
typedef struct {
	Scn *s;
	Runtime *rt;
	bool on;
	long steps;             /* callbacks so far, the entry ones included */
	int gcmode; long gck; uint64_t rng; long gcat[32]; int ngcat;
	long abort_at, intr_at, max;
	size_t out0;
	long collections;
	long nest_at;
	bool trace;
	FILE *tr; long nev, maxev;
	Executable *exes[256]; int nexe; char exn[256][64];
	bool gcfail; char gcmsg[256];
	bool counts; FILE *cnt; long ncnt;
	char *out; size_t outn; FILE *outf;
	long stopped; bool aborted;
	size_t hi_used; int hi_depth;
	bool mark; size_t seen; long marks[1024], mopen[1024]; int nmarks;   /* live objects whenever the output has grown */
	char *inner;
} Run;

static int depth_of(Runtime *rt)
{
	char *b = NULL; size_t n = 0;
	FILE *m = open_memstream(&b, &n);
	Runtime_PrintStackTrace(rt, m);
	__real_fclose(m);
	int d = -1;
	for (size_t i = 0; i < n; i++) if (b[i] == '\n') d++;
	free(b);
	return d;
}

static int exe_id(Run *r, Executable *e)
{
	for (int i = 0; i < r->nexe; i++) if (r->exes[i] == e) return i + 1;
	if (r->nexe == 256) return 0;
	Source *src = Executable_GetSource(e);
	snprintf(r->exn[r->nexe], sizeof r->exn[0], "%s", src && Source_GetName(src) ? Source_GetName(src) : "");
	r->exes[r->nexe++] = Executable_Copy(e);    /* keep it alive */
	return r->nexe;
}

static void run_scn(Scn *s, FILE *o, int idx);
static int cur_idx;

static void shallow(FILE *o, Object *x)
{
	if (x == NULL) { fprintf(o, "[\"NULL\"]"); return; }
	if (Object_IsList(x)) { Error e; Error_Init(&e); fprintf(o, "[\"L\",%d]", Object_Count(x, &e)); return; }
	if (Object_IsMap(x))  { Error e; Error_Init(&e); fprintf(o, "[\"M\",%d]", Object_Count(x, &e)); return; }
	if (Object_IsBuffer(x)) { size_t n; Object_GetBuffer(x, &n); fprintf(o, "[\"B\",%d]", (int) n); return; }
	Dump d = { .o = o };
	dump(&d, x);
}

static void event(Run *r)
{
	Runtime *rt = r->rt;
	if (!r->tr) return;
	if (r->nev >= r->maxev) { r->nev++; return; }
	Executable *e = Runtime_GetCurrentExecutable(rt);
	if (!e) return;
	int used = (int) Runtime_GetFrameStackUsage(rt);
	Error er; Error_Init(&er);
	int nloc = Object_Count(Runtime_GetLocals(rt), &er);
	Error_Free(&er);
	int pc = Runtime_GetCurrentIndex(rt);
	fflush(r->outf);
	if (r->nev) fputc(',', r->tr);
	fprintf(r->tr, "[%d,%d,%d,%d,%zu,[", depth_of(rt), exe_id(r, e), pc, nloc, r->outn);
	for (int k = used - 1; k >= 0; k--) { shallow(r->tr, Runtime_Top(rt, -k)); if (k) fputc(',', r->tr); }
	fprintf(r->tr, "],");
	Opcode op;
	if (pc > 0 && Executable_Fetch(e, pc - 1, &op, NULL, NULL) && op == OPCODE_ASS) {   /* the variables, in order */
		Heap *h = Heap_New(1 << 15);
		Error e2; Error_Init(&e2);
		Object *ks = Object_KeysOf(Runtime_GetLocals(rt), h, &e2);
		int nk = ks && Object_IsList(ks) ? Object_Count(ks, &e2) : -1;
		fputc('[', r->tr);
		for (int i = 0; i < nk && i < 40; i++) {
			Object *k = Object_Select(ks, Object_FromInt(i, h, &e2), h, &e2);
			fprintf(r->tr, i ? ",[" : "[");
			shallow(r->tr, k); fputc(',', r->tr);
			shallow(r->tr, k ? Object_Select(Runtime_GetLocals(rt), k, h, &e2) : NULL);
			fputc(']', r->tr);
		}
		fprintf(r->tr, "]]");
		Error_Free(&e2);
		Heap_Free(h);
	} else fprintf(r->tr, "0]");
	r->nev++;
}

static bool cb(Runtime *rt, void *p)
{
	Run *r = p;
	if (!r->on) return true;
	r->rt = rt;
	r->steps++;
	event(r);
	if (r->trace || r->counts) {
		size_t u = Runtime_GetFrameStackUsage(rt);
		if (u > r->hi_used) r->hi_used = u;
	}
	bool gc = false, mark = false;
	if (r->mark) {
		fflush(r->outf);
		if (r->outn != r->seen) { r->seen = r->outn; gc = mark = true; }
	}
	switch (r->gcmode) {
	case 1: gc = true; break;
	case 2: gc = r->steps % r->gck == 0; break;
	case 3:
		r->rng ^= r->rng << 13; r->rng ^= r->rng >> 7; r->rng ^= r->rng << 17;
		gc = (r->rng >> 20) % r->gck == 0;
		break;
	case 4:
		for (int i = 0; i < r->ngcat; i++) if (r->gcat[i] == r->steps) gc = true;
		break;
	}
	if (gc) {
		Error e; Error_Init(&e);
		r->collections++;
		bool ok = Runtime_CollectGarbage(rt, &e);
		if (!ok || e.occurred) {
			if (!r->gcfail) snprintf(r->gcmsg, sizeof r->gcmsg, "%s", e.occurred ? e.message : "(collection failed)");
			r->gcfail = true;
		}
		Error_Free(&e);
		if (r->gcfail) return false;
		if (mark && r->nmarks < 1024) { r->mopen[r->nmarks] = nopenh; r->marks[r->nmarks++] = Heap_GetObjectCount(Runtime_GetHeap(rt)); }
	}
	if (r->nest_at && r->steps == r->nest_at && cur_idx + 1 < nscn) {
		/* run the next scenario to completion in the middle of this one */
		char *b = NULL; size_t n = 0;
		FILE *m = open_memstream(&b, &n);
		bool c = counting;
		run_scn(scns[cur_idx + 1], m, cur_idx + 1);
		counting = c;
		__real_fclose(m);
		r->inner = b;
	}
	if (r->intr_at && r->steps == r->intr_at) Runtime_Interrupt(rt);
	if (r->abort_at && r->steps >= r->abort_at) { r->stopped = r->steps; r->aborted = true; return false; }
	if (r->max && r->steps >= r->max) { r->stopped = -1; return false; }
	return true;
}

static void dump_exe(FILE *o, Executable *e)
{
	fputc('[', o);
	for (int i = 0; i < 100000; i++) {
		Opcode op; Operand ops[3]; int n = 3;
		if (!Executable_Fetch(e, i, &op, ops, &n)) break;
		if (i) fputc(',', o);
		fputc('[', o);
		jcstr(o, Executable_GetOpcodeName(op) ? Executable_GetOpcodeName(op) : "?");
		for (int j = 0; j < n; j++) {
			fputc(',', o);
			switch (ops[j].type) {
			case OPTP_IDX: case OPTP_INT: fprintf(o, "%lld", ops[j].as_int); break;
			case OPTP_FLOAT: {
				double v = ops[j].as_float, w = v * 64;
				if (fabs(w) < 1e9 && w == floor(w)) fprintf(o, "%.0f", w); else fprintf(o, "\"%.17g\"", v);
				break; }
			case OPTP_STRING: jcstr(o, ops[j].as_string); break;
			case OPTP_PROMISE: fprintf(o, "\"?\""); break;
			}
		}
		fputc(']', o);
	}
	fputc(']', o);
}

static const char *etname(Error *e)
{
	switch ((int) e->type) {
	case ErrorType_SYNTAX: return "Syntax";
	case ErrorType_SEMANTIC: return "Semantic";
	case ErrorType_RUNTIME: return "Runtime";
	case ErrorType_INTERNAL: return "Internal";
	}
	return "?";
}

static void run_scn(Scn *s, FILE *o, int idx)
{
	char b[1024], id[256], lang[32];
	opt(s, "id", "?", id, sizeof id); if (!strstr(s->hdr, "id=")) strcpy(id, "?");
	strcpy(lang, opt(s, "lang", "noja", b, sizeof b));
	fprintf(o, "{\"id\":"); jcstr(o, id);

	const char *cwd = opt(s, "cwd", NULL, b, sizeof b);
	if (cwd && chdir(cwd)) { fprintf(o, ",\"st\":\"harness\"}"); return; }

	if (!strcmp(lang, "diagram")) {
		Error e; Error_Init(&e); int off = -1;
		char *r = diagramStringAST(s->body, &e, &off);
		fprintf(o, ",\"st\":\"%s\",\"out\":", r ? "ok" : "cerr");
		if (r) jcstr(o, r); else { jcstr(o, ""); fprintf(o, ",\"etype\":\"%s\",\"msg\":", etname(&e)); jcstr(o, e.message ? e.message : ""); }
		fprintf(o, "}");
		return;
	}
	if (!strcmp(lang, "compile") || !strcmp(lang, "assemble")) {
		Error e; Error_Init(&e); int off = -1;
		Source *src = Source_FromString("t", s->body, s->len, &e);
		Executable *x = lang[0] == 'c' ? compile(src, &e, &off) : assemble(src, &e, &off);
		if (x) { fprintf(o, ",\"st\":\"ok\",\"code\":"); dump_exe(o, x); }
		else { fprintf(o, ",\"st\":\"cerr\",\"occ\":%d,\"etype\":\"%s\",\"off\":%d,\"msg\":", e.occurred, etname(&e), off); jcstr(o, e.message ? e.message : ""); }
		fprintf(o, "}");
		return;
	}

	Run *r = calloc(1, sizeof *r);
	r->s = s;
	const char *gc = opt(s, "gc", "nat", b, sizeof b);
	r->gcmode = 0;
	if (!strcmp(gc, "all")) r->gcmode = 1;
	else if (!strncmp(gc, "every:", 6)) { r->gcmode = 2; r->gck = atol(gc + 6); if (r->gck < 1) r->gck = 1; }
	else if (!strncmp(gc, "rnd:", 4)) { char *q; r->gcmode = 3; r->rng = strtoul(gc + 4, &q, 10) * 2654435761u + 88172645463325252ull; r->gck = *q == ':' ? atol(q + 1) : 3; if (r->gck < 1) r->gck = 1; }
	else if (!strncmp(gc, "at:", 3)) { r->gcmode = 4; const char *q = gc + 3; while (*q && r->ngcat < 32) { r->gcat[r->ngcat++] = strtol(q, (char**) &q, 10); if (*q == ',') q++; } }
	r->abort_at = optl(s, "abort", 0);
	r->intr_at  = optl(s, "intr", 0);
	r->nest_at  = optl(s, "nest", 0);
	r->max      = optl(s, "max", 2000000);
	r->trace    = optl(s, "trace", 0);
	r->maxev    = r->trace ? optl(s, "maxev", 4000) : 0;
	char *trb = NULL; size_t trn = 0;
	if (r->trace) r->tr = open_memstream(&trb, &trn);

	FILE *outf = open_memstream(&r->out, &r->outn);
	r->outf = outf;
	r->mark = optl(s, "mark", 0);
	char *errb = NULL; size_t errn = 0;
	FILE *errf = open_memstream(&errb, &errn);
	FILE *inf = s->inlen ? fmemopen(s->in, s->inlen, "rb") : __real_fopen("/dev/null", "rb");

	RuntimeConfig cfg = Runtime_GetDefaultConfigs();
	cfg.heap  = optl(s, "heap", 1 << 26);
	cfg.stack = optl(s, "stack", cfg.stack);
	cfg.time  = optl(s, "time", 0);
	cfg.stdin = inf; cfg.stdout = outf; cfg.stderr = errf;
	cfg.callback.func = cb; cfg.callback.data = r;
	size_t mem0 = optl(s, "mem", 0) && __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
	Runtime *rt = Runtime_New(cfg);
	if (!rt) { fprintf(o, ",\"st\":\"harness\"}"); return; }
	r->rt = rt;

	Error err;
	Error_Init(&err);
	Error *e = &err;
	if (optl(s, "noboot", 0) == 0 && !Runtime_plugDefaultBuiltins(rt, e)) {
		fprintf(o, ",\"st\":\"boot\",\"msg\":"); jcstr(o, e->message ? e->message : ""); fprintf(o, "}");
		return;
	}
	counting = true;
	r->on = true;
	Object *rets[MAX_RETS] = {0};
	char name[256]; strcpy(name, opt(s, "name", "main", b, sizeof b));
	int retc;
	if (!strcmp(lang, "file")) {
		char path[1024]; snprintf(path, sizeof path, "%s", opt(s, "path", "?", b, sizeof b));
		retc = runFileEx(rt, path, rets, e);
	} else {
		/* a source buffer of exactly the given size (it may hold NULs) */
		long blen = s->len; char *body = s->body;
		if (optl(s, "seq", 0)) {
			/* sources separated by \001, run one after the other in this runtime, whichever way they end */
			char *z;
			fprintf(o, ",\"seq\":[");
			int k = 0;
			while ((z = memchr(body, 1, blen))) {
				fflush(outf);
				size_t out0 = r->outn;
				Source *one = Source_FromString(name, body, z - body, e);
				retc = one ? runSource(rt, one, rets, e) : -1;
				if (one) Source_Free(one);
				fflush(outf);
				fprintf(o, "%s{", k++ ? "," : "");
				if (e->occurred || retc < 0) {
					fprintf(o, "\"st\":\"%s\",\"etype\":\"%s\",\"msg\":", e->occurred ? "err" : "failed", etname(e));
					jcstr(o, e->message ? e->message : "");
					char *tb = NULL; size_t tn = 0;
					FILE *m = open_memstream(&tb, &tn);
					Runtime_PrintStackTrace(rt, m); __real_fclose(m);
					fprintf(o, ",\"bt\":"); jstr(o, tb, tn); free(tb);
					Error_Free(e); Error_Init(e);
					while (Runtime_PopFrame(rt));
				} else {
					fprintf(o, "\"st\":\"ok\",\"rets\":[");
					Dump *d = newdump(o);
					for (int i = 0; i < retc && i < MAX_RETS; i++) { if (i) fputc(',', o); dump(d, rets[i]); }
					freedump(d);
					fputc(']', o);
				}
				fprintf(o, ",\"out\":"); jstr(o, r->out + out0, r->outn - out0);
				fputc('}', o);
				blen -= z + 1 - body; body = z + 1;
			}
			fflush(outf);
			r->out0 = r->outn;
			fprintf(o, "]");
		}
		Source *src = e->occurred ? NULL : Source_FromString(name, body, blen, e);
		retc = src ? (!strcmp(lang, "asm") ? runBytecodeSource(rt, src, rets, e) : runSource(rt, src, rets, e)) : -1;
		if (src) Source_Free(src);
	}
	r->on = false;
	counting = false;
	fflush(outf); fflush(errf);

	const char *st = retc >= 0 && !e->occurred ? "ok" : "err";
	if (r->gcfail) st = "gcfail";
	else if (r->stopped < 0) st = "max";
	fprintf(o, ",\"st\":\"%s\",\"retc\":%d,\"occ\":%d", st, retc, e->occurred);
	if (r->gcfail) { fprintf(o, ",\"gcmsg\":"); jcstr(o, r->gcmsg); }
	if (e->occurred) {
		fprintf(o, ",\"etype\":\"%s\",\"msg\":", etname(e));
		jcstr(o, e->message ? e->message : "");
	}
	fprintf(o, ",\"steps\":%ld,\"gcs\":%ld,\"out\":", r->steps, r->collections);
	jstr(o, r->out + r->out0, r->outn - r->out0);
	if (errn) { fprintf(o, ",\"errout\":"); jstr(o, errb, errn); }
	if (retc >= 0 && !e->occurred) {
		Dump *d = newdump(o);
		fprintf(o, ",\"rets\":[");
		for (int i = 0; i < retc && i < MAX_RETS; i++) { if (i) fputc(',', o); dump(d, rets[i]); }
		fprintf(o, "]");
		freedump(d);
	} else {
		char *tb = NULL; size_t tn = 0;
		FILE *m = open_memstream(&tb, &tn);
		Runtime_PrintStackTrace(rt, m); __real_fclose(m);
		fprintf(o, ",\"bt\":"); jstr(o, tb, tn); free(tb);
		if (optl(s, "full", 0)) {
			m = open_memstream(&tb, &tn);
			Error_Print(&err, ErrorType_RUNTIME, m); __real_fclose(m);
			fprintf(o, ",\"perr\":"); jstr(o, tb, tn); free(tb);
		}
	}
	if (cfg.time) {
		char *tb = NULL; size_t tn = 0;
		FILE *m = open_memstream(&tb, &tn);
		Runtime_SerializeProfilingResultsToStream(rt, m); __real_fclose(m);
		fprintf(o, ",\"prof\":"); jstr(o, tb, tn); free(tb);
	}
	if (r->trace) {
		__real_fclose(r->tr); r->tr = NULL;
		fprintf(o, ",\"nev\":%ld,\"ev\":[%s],\"exes\":[", r->nev, trb);
		for (int i = 0; i < r->nexe; i++) { if (i) fputc(',', o); dump_exe(o, r->exes[i]); Executable_Free(r->exes[i]); }
		fprintf(o, "],\"exn\":[");
		for (int i = 0; i < r->nexe; i++) { if (i) fputc(',', o); jcstr(o, r->exn[i]); }
		fprintf(o, "]");
		free(trb);
	}
	if (r->inner) fprintf(o, ",\"inner\":%s", r->inner);
	if (r->mark) {
		fprintf(o, ",\"marks\":[");
		for (int i = 0; i < r->nmarks; i++) fprintf(o, "%s%ld", i ? "," : "", r->marks[i]);
		fprintf(o, "],\"mopen\":[");
		for (int i = 0; i < r->nmarks; i++) fprintf(o, "%s%ld", i ? "," : "", r->mopen[i]);
		fputc(']', o);
	}
	if (optl(s, "final", 0)) {
		/* collect with nothing but the builtins reachable */
		long h = nopenh;
		Error e2; Error_Init(&e2);
		unsigned c0 = Heap_GetObjectCount(Runtime_GetHeap(rt));
		bool ok = Runtime_CollectGarbage(rt, &e2);
		fprintf(o, ",\"final\":{\"ok\":%s,\"before\":%u,\"after\":%u,\"open0\":%ld,\"open\":%d}", ok ? "true" : "false",
			c0, Heap_GetObjectCount(Runtime_GetHeap(rt)), h, nopenh);
	}
	Error_Free(&err);
	Runtime_Free(rt);
	if (mem0) fprintf(o, ",\"mem\":%ld", (long) __sanitizer_get_current_allocated_bytes() - (long) mem0);
	fprintf(o, ",\"h\":[%ld,%ld,%ld,%ld,%d]}", n_fopen, n_fclose, n_opendir, n_closedir, nopenh);
	__real_fclose(outf); __real_fclose(errf); __real_fclose(inf);
	free(r->out); free(errb); free(r->inner); free(r);
}

int main(int argc, char **argv)
{
	if (argc < 2) return 2;
	load(argv[1]);
	FILE *res = argc > 2 ? __real_fopen(argv[2], "w") : stdout;
	int only = argc > 3 ? atoi(argv[3]) : -1;
	for (int i = 0; i < nscn; ) {
		if (only >= 0 && i != only) { i++; continue; }
		int chain = (int) optl(scns[i], "chain", 1);   /* how many scenarios this process runs in a row */
		if (chain < 1) chain = 1;
		int hide = (int) optl(scns[i], "skip", 0);     /* scenarios consumed by nesting */
		int p[2]; if (pipe(p)) return 2;
		int efd = memfd_create("err", 0);
		fflush(res);
		pid_t pid = fork();
		if (pid == 0) {
			close(p[0]);
			dup2(efd, 2);
			struct rlimit rl = { 64u << 20, 64u << 20 };
			setrlimit(RLIMIT_FSIZE, &rl);
#if !defined(__SANITIZE_ADDRESS__)
			struct rlimit as = { 6ull << 30, 6ull << 30 };
			setrlimit(RLIMIT_AS, &as);
#endif
			FILE *o = fdopen(p[1], "w");
			for (int k = 0; k < chain && i + k < nscn; k++) {
				cur_idx = i + k;
				run_scn(scns[i + k], o, i + k);
				fputc('\n', o); fflush(o);
			}
			_exit(0);
		}
		close(p[1]);
		long tmo = optl(scns[i], "tmo", 20) * 1000;
		char *buf = NULL; size_t n = 0, cap = 0; bool to = false;
		for (;;) {
			struct pollfd pf = { p[0], POLLIN, 0 };
			int pr = poll(&pf, 1, tmo);
			if (pr == 0) { to = true; kill(pid, SIGKILL); break; }
			if (pr < 0) { if (errno == EINTR) continue; break; }
			if (cap - n < 65536) { cap = cap * 2 + 131072; buf = realloc(buf, cap); }
			ssize_t k = read(p[0], buf + n, cap - n);
			if (k <= 0) break;
			n += k;
		}
		close(p[0]);
		int status; waitpid(pid, &status, 0);
		/* keep the complete lines only */
		int lines = 0; size_t end = 0;
		for (size_t j = 0; j < n; j++) if (buf[j] == '\n') { lines++; end = j + 1; }
		fwrite(buf, 1, end, res);
		for (int k = lines; k < chain && i + k < nscn; k++) {
			char id[256], b[8192];
			opt(scns[i + k], "id", "?", id, sizeof id);
			fprintf(res, "{\"id\":"); jcstr(res, id);
			ssize_t en = pread(efd, b, sizeof b - 1, 0); if (en < 0) en = 0; b[en] = 0;
			char *su = strstr(b, "SUMMARY:"); if (!su) su = b;
			fprintf(res, ",\"st\":\"%s\",\"code\":%d,\"sig\":%d,\"why\":", to ? "timeout" : k == lines ? "crash" : "lost",
				WIFEXITED(status) ? WEXITSTATUS(status) : -1, WIFSIGNALED(status) ? WTERMSIG(status) : 0);
			jstr(res, su, strlen(su) > 800 ? 800 : strlen(su));
			fprintf(res, ",\"log\":"); jstr(res, b, strlen(b) > 1500 ? 1500 : strlen(b));
			fprintf(res, "}\n");
		}
		free(buf); close(efd);
		i += chain + hide;
	}
	fflush(res);
	return 0;
}
