/* ============ C12: regex matching under fragmentation, interleaving and faults ============ */
#include "props.h"
#include "regexJIT.h"

enum { T_CHAR, T_DOT, T_OPEN, T_CLOSE, T_ALT, T_STAR, T_PLUS, T_QM, T_ITER, T_RANGE, T_ID, T_CARET, T_DOLLAR, T_LIT, T_COUNT, T_PAD };
enum { A12_FEED, A12_NEW, A12_RESET, A12_GET, A12_FREE, A12_OOM_COMPILE, A12_OOM_MATCH, A12_REST, A12_RECOMPILE };
#define NMACH 3
#define NMATCH 4
static const char alpha[] = "abcab\nc\rxa-b";

static void c12_gen(Plan *p, Rng *r)
{
	int m, i, n, nm = 1 + (int)rn(r, NMACH);
	for (m = 0; m < nm; m++) {
		int style = (int)rn(r, 4), nt = 1 + (int)rn(r, chance(r, 20) ? 40 : 12);
		plan_add(p, 'P', PA_SIG + 100 + m, 1, (int64_t)(chance(r, 50) ? 0 : rn(r, 16)));
		if (chance(r, 25)) plan_add(p, 'O', T_CARET, 9, 0ll, 0ll, 0ll, 0ll, 0ll, 0ll, 0ll, 0ll, (int64_t)m);
		/* fills the parser's stack fragment so that an allocation happens somewhere inside the pattern proper */
		if (chance(r, 30)) plan_add(p, 'O', T_PAD, 9, 0ll, (int64_t)(40 + rn(r, 28)), 0ll, 0ll, 0ll, 0ll, 0ll, 0ll, (int64_t)m);
		for (i = 0; i < nt; i++) {
			static const unsigned char w[4][T_COUNT] = { { 40, 6, 8, 8, 5, 6, 6, 6, 5, 8, 6, 0, 0, 3 }, { 50, 2, 4, 4, 3, 3, 10, 4, 8, 3, 0, 0, 0, 1 }, { 30, 3, 14, 12, 12, 6, 6, 10, 8, 6, 14, 0, 0, 1 }, { 60, 0, 3, 3, 4, 2, 3, 3, 1, 20, 2, 0, 0, 8 } };
			int x, k, tot = 0;
			for (k = 0; k < T_COUNT; k++) tot += w[style][k];
			x = (int)rn(r, (uint32_t)tot);
			for (k = 0; x >= w[style][k]; k++) x -= w[style][k];
			plan_add(p, 'O', k, 9, (int64_t)rn(r, 12), (int64_t)rn(r, 5), (int64_t)rn(r, 5), (int64_t)(rnd(r) >> 3), 0ll, 0ll, 0ll, 0ll, (int64_t)m);
		}
		if (chance(r, 25)) plan_add(p, 'O', T_DOLLAR, 9, 0ll, 0ll, 0ll, 0ll, 0ll, 0ll, 0ll, 0ll, (int64_t)m);
	}
	for (i = 0; i < 3; i++) plan_add(p, 'S', i, 2, (int64_t)(rnd(r) >> 3), (int64_t)(2 + rn(r, chance(r, 20) ? 200 : 40)));
	n = 4 + (int)rn(r, 60);
	for (i = 0; i < n; i++) {
		uint32_t x = rn(r, 100); int s = (int)rn(r, NMATCH);
		if (i < 2 || x < 8) plan_add(p, 'A', A12_NEW, 3, (int64_t)(i < 2 ? i : s), (int64_t)rn(r, NMACH), (int64_t)rn(r, 3));
		else if (x < 60) plan_add(p, 'A', A12_FEED, 3, (int64_t)s, (int64_t)(chance(r, 10) ? 0 : chance(r, 50) ? 1 : rn(r, 9)), (int64_t)rn(r, 2));
		else if (x < 70) plan_add(p, 'A', A12_GET, 1, (int64_t)s);
		else if (x < 79) plan_add(p, 'A', A12_REST, 1, (int64_t)s);
		else if (x < 87) plan_add(p, 'A', A12_RESET, 2, (int64_t)s, (int64_t)rn(r, 3));
		else if (x < 90) plan_add(p, 'A', A12_FREE, 1, (int64_t)s);
		else if (x < 96) plan_add(p, 'A', A12_OOM_COMPILE, 3, (int64_t)rn(r, NMACH), (int64_t)(chance(r, 50) ? rn(r, 6) : rnd(r) >> 3), (int64_t)rn(r, 4));
		else if (x < 98) plan_add(p, 'A', A12_OOM_MATCH, 1, (int64_t)rn(r, NMACH));
		else plan_add(p, 'A', A12_RECOMPILE, 2, (int64_t)rn(r, NMACH), (int64_t)(rnd(r) >> 3));
	}
}

static int rx_pattern(const Plan *p, int m, char *out)
{
	int nlb = ((int)plan_par(p, PA_SIG + 100 + m, 0) & REGEX_NEWLINE) != 0; /* see DESIGN.md: regexJIT asserts on NEWLINE with ^ and a top level | */
	int n = 0, depth = 0, begin = 1, dollar = 0, iters = 0, i;
	for (i = 0; i < p->n && n < 400; i++) {
		const Line *l = p->l + i; char c;
		if (l->k != 'O' || (int)l->a[8] != m) continue;
		c = alpha[(uint64_t)l->a[0] % 12];
		switch (l->op) {
		case T_CHAR: out[n++] = c; begin = 0; break;
		case T_LIT: if (((uint64_t)l->a[3] & 3) == 0) { out[n++] = '\\'; out[n++] = "[].*"[(uint64_t)l->a[1] % 4]; } else out[n++] = (char)(((uint64_t)l->a[3] & 4) ? 200 + l->a[1] : '-'); begin = 0; break;
		case T_DOT: out[n++] = '.'; begin = 0; break;
		case T_OPEN: if (depth > 6) break; out[n++] = '('; depth++; begin = 1; break;
		case T_CLOSE: if (!depth) break; out[n++] = ')'; depth--; begin = 0; break;
		case T_ALT: if (!depth && nlb) break; out[n++] = '|'; begin = 1; break;
		case T_STAR: case T_PLUS: case T_QM: if (begin) break; out[n++] = "*+?"[l->op - T_STAR]; break;
		case T_ITER: {
			int a = (int)((uint64_t)l->a[1] % 5), b = (int)((uint64_t)l->a[2] % 5);
			if (begin || iters >= 4) break;
			iters++;
			if (((uint64_t)l->a[3] & 7) == 0) n += sprintf(out + n, "{%d,}", a);
			else if (((uint64_t)l->a[3] & 7) == 1) n += sprintf(out + n, "{,%d}", b);
			else if (((uint64_t)l->a[3] & 7) < 4) n += sprintf(out + n, "{%d}", a);
			else n += sprintf(out + n, "{%d,%d}", a < b ? a : b, a < b ? b : a);
			break; }
		case T_RANGE: {
			int k, cnt = 1 + (int)((uint64_t)l->a[1] % 4); uint64_t x = (uint64_t)l->a[3];
			out[n++] = '[';
			if (x & 1) out[n++] = '^';
			for (k = 0; k < cnt; k++) { x = x * 6364136223846793005ull + 1442695040888963407ull; if (x >> 60 & 1) { out[n++] = "abx"[(x >> 40) % 3]; out[n++] = '-'; out[n++] = "bcz"[(x >> 30) % 3]; } else out[n++] = "abcx\n"[(x >> 40) % 5]; }
			out[n++] = ']'; begin = 0;
			break; }
		case T_ID: n += sprintf(out + n, "{%d!}", 1 + (int)((uint64_t)l->a[1] % 5)); break;
		case T_CARET: if (n == 0) out[n++] = '^'; break;
		case T_DOLLAR: dollar = 1; break;
		case T_PAD: { int k = (int)((uint64_t)l->a[1] % 70); if (n > 300) break; if (k & 1) { n += sprintf(out + n, ".?"); k -= 3; } for (; k > 1; k -= 2) n += sprintf(out + n, "%c?", "ab"[k >> 1 & 1]); begin = 0; break; }
		}
	}
	while (depth--) out[n++] = ')';
	if (n == 0) out[n++] = 'a';
	if (dollar) out[n++] = '$';
	out[n] = 0;
	return n;
}
static char rx_in[3][256]; static int rx_len[3];
typedef struct { struct regex_match *m; int mach, str, pos; } Rx;
static struct regex_machine *rx_m[NMACH]; static Rx rx[NMATCH];
static unsigned char *rx_page;
static const char *rx_guarded(const char *s, int n) { memcpy(rx_page + 65536 - n, s, (size_t)n); return (const char *)rx_page + 65536 - n; }
static void rx_feed(struct regex_match *m, const char *s, int n, int dbg)
{
	const char *ph = sim_phase; int a = os_armed;
	const char *g = rx_guarded(s, n);
	os_armed = 0; sim_phase = "match";
	(void)dbg;
	regex_continue_match(m, g, n);
	sim_phase = ph; os_armed = a;
}
static void rx_check(Rx *x, const char *where)
{
	struct regex_match *f; int b, e = 0, id = 0, fb, fe = 0, fid = 0, fin, ffin;
	sim_phase = "reference";
	faults_reset();
	f = regex_begin_match(rx_m[x->mach]);
	if (!f) sim_viol("spurious-null", "regex_begin_match failed");
	rx_feed(f, rx_in[x->str], x->pos, 0);
	fb = regex_get_result(f, &fe, &fid); ffin = regex_is_match_finished(f);
	b = regex_get_result(x->m, &e, &id); fin = regex_is_match_finished(x->m);
	regex_free_match(f);
	sim_ev((uint64_t)b * 65536 + (uint64_t)e * 256 + (uint64_t)id); sim_state((uint64_t)(b + 1) * 1000003 + (uint64_t)e * 1009 + (uint64_t)id * 31 + (uint64_t)x->pos * 77 + (uint64_t)(uintptr_t)rx_m[x->mach]);
	if (b != fb || (b >= 0 && (e != fe || id != fid))) sim_viol("fragmentation", "%s: result (%d,%d,%d) after %d characters in fragments, (%d,%d,%d) at once", where, b, e, id, x->pos, fb, fe, fid);
	if (!fin != !ffin) sim_viol("finished", "%s: finished is %d in fragments, %d at once", where, fin, ffin);
}
static struct regex_machine *rx_compile(const Plan *p, int m, int *err)
{
	char pat[1024]; int n = rx_pattern(p, m, pat);
	return regex_compile(pat, n, (int)plan_par(p, PA_SIG + 100 + m, 0) & 15, err);
}
static int sig_rx(int s) { return s < 0 ? 0 : s; }
static void c12_exec(Plan *p)
{
	int i, m, err, errs[NMACH]; uint64_t ncalls[NMACH], nmm[NMACH];
	os_armed = 1; memset(rx, 0, sizeof rx); memset(rx_m, 0, sizeof rx_m); memset(rx_len, 0, sizeof rx_len);
	rx_page = sim_map_anon(0, 131072, 0); if (!rx_page) sim_harness_error("no memory");
	sim_protect(rx_page, 65536, 3);
	for (i = 0; i < p->n; i++) if (p->l[i].k == 'S' && p->l[i].op >= 0 && p->l[i].op < 3) {
		Rng r; int k, n = sig_rx((int)(p->l[i].a[1] % 250)); r.s = (uint64_t)p->l[i].a[0];
		rx_len[p->l[i].op] = n;
		for (k = 0; k < n; k++) rx_in[p->l[i].op][k] = chance(&r, 2) ? (char)(200 + rn(&r, 5)) : alpha[rn(&r, chance(&r, 70) ? 4 : 12)];
	}
	faults_reset();
	for (m = 0; m < NMACH; m++) {
		uint64_t c0 = fk_calls[FK_MALLOC], c1 = fk_calls[FK_MMAP];
		sim_phase = "regex_compile";
		errs[m] = 77;
		rx_m[m] = rx_compile(p, m, &errs[m]);
		ncalls[m] = fk_calls[FK_MALLOC] - c0; nmm[m] = fk_calls[FK_MMAP] - c1;
		if (rx_m[m] && errs[m] != REGEX_NO_ERROR) sim_viol("error-mismatch", "machine returned with error %d", errs[m]);
		if (!rx_m[m] && errs[m] != REGEX_INVALID_REGEX) sim_viol("error-mismatch", "no machine, error %d", errs[m]);
		STAT(ST_PROGRAMS);
	}
	for (i = 0; i < p->n; i++) {
		Line *l = p->l + i; Rx *x; long live;
		if (l->k != 'A') continue;
		STAT(ST_ACTIONS);
		x = rx + ((uint64_t)l->a[0] % NMATCH); m = (int)((uint64_t)l->a[0] % NMACH);
		live = heap_live();
		switch (l->op) {
		case A12_NEW:
			if (x->m) { rx_check(x, "at free"); sim_phase = "free_match"; regex_free_match(x->m); x->m = NULL; }
			x->mach = (int)((uint64_t)l->a[1] % NMACH); x->str = (int)((uint64_t)l->a[2] % 3); x->pos = 0;
			if (!rx_m[x->mach]) break;
			faults_reset(); sim_phase = "begin_match";
			x->m = regex_begin_match(rx_m[x->mach]);
			if (!x->m) sim_viol("spurious-null", "regex_begin_match failed");
			break;
		case A12_REST: case A12_FEED: {
			int n = l->op == A12_REST ? 250 : (int)((uint64_t)l->a[1] % 16);
			if (!x->m) break;
			if (n > rx_len[x->str] - x->pos) n = rx_len[x->str] - x->pos;
			STAT(ST_FRAGMENTS);
			rx_feed(x->m, rx_in[x->str] + x->pos, n, (int)l->a[2]);
			x->pos += n;
			if (l->op == A12_REST) rx_check(x, "all fed");
			break; }
		case A12_GET: if (x->m) rx_check(x, "in between"); break;
		case A12_RESET: if (x->m) { sim_phase = "reset_match"; regex_reset_match(x->m); x->pos = 0; x->str = (int)((uint64_t)l->a[1] % 3); } break;
		case A12_FREE: if (x->m) { rx_check(x, "at free"); sim_phase = "free_match"; regex_free_match(x->m); x->m = NULL; } break;
		case A12_OOM_COMPILE: {
			struct regex_machine *q; uint64_t f0; int kind = (l->a[2] & 3) == 3 ? FK_MMAP : FK_MALLOC; uint64_t tot = kind == FK_MMAP ? nmm[m] : ncalls[m];
			faults_reset();
			faults_add(kind, 1 + (int64_t)((uint64_t)l->a[1] % (tot + 1)), (l->a[2] & 3) == 2 ? 1000000 : 1);
			f0 = fk_fired_total; err = 77;
			sim_phase = "regex_compile_oom";
			q = rx_compile(p, m, &err);
			if (q) { if (err) sim_viol("error-mismatch", "machine returned with error %d", err); if (!rx_m[m]) sim_viol("invalid-accepted", "a pattern was refused before"); 
				if (fk_fired_total != f0 && rx_m[m]) { /* it coped with the failure: then it has to be the same machine */
					int k; faults_reset(); sim_phase = "survivor";
					for (k = 0; k < 3; k++) {
						struct regex_match *f1 = regex_begin_match(rx_m[m]), *f2 = regex_begin_match(q); int b1, b2, e1 = 0, e2 = 0, i1 = 0, i2 = 0;
						if (!f1 || !f2) sim_viol("spurious-null", "regex_begin_match failed");
						rx_feed(f1, rx_in[k], rx_len[k], 0); rx_feed(f2, rx_in[k], rx_len[k], 0);
						b1 = regex_get_result(f1, &e1, &i1); b2 = regex_get_result(f2, &e2, &i2);
						if (b1 != b2 || (b1 >= 0 && (e1 != e2 || i1 != i2))) sim_viol("oom-ignored", "a machine compiled in spite of a failed allocation gives (%d,%d,%d) instead of (%d,%d,%d)", b2, e2, i2, b1, e1, i1);
						regex_free_match(f1); regex_free_match(f2);
					}
				}
				sim_phase = "free_machine"; regex_free_machine(q); }
			else {
				STAT(ST_FAIL_SEEN);
				if (err == REGEX_NO_ERROR || err == 77) sim_viol("error-mismatch", "no machine, error %d", err);
				if (err == REGEX_MEMORY_ERROR && fk_fired_total == f0) sim_viol("spurious-error", "memory error without a fault");
				if (rx_m[m] && err == REGEX_INVALID_REGEX) sim_viol("error-mismatch", "a valid pattern was called invalid because of a failed allocation");
			}
			faults_reset();
			if (heap_live() != live) sim_viol("leak", "regex_compile leaked %ld blocks", heap_live() - live);
			heap_check("regex_compile");
			break; }
		case A12_OOM_MATCH: {
			struct regex_match *q;
			if (!rx_m[m]) break;
			faults_reset(); faults_add(FK_MALLOC, 1, 1);
			sim_phase = "begin_match_oom";
			q = regex_begin_match(rx_m[m]);
			if (q) sim_viol("oom-ignored", "regex_begin_match succeeded without memory");
			faults_reset();
			if (heap_live() != live) sim_viol("leak", "regex_begin_match leaked %ld blocks", heap_live() - live);
			break; }
		case A12_RECOMPILE: { /* another machine of the same pattern, placed elsewhere */
			struct regex_machine *q; int k;
			if (!rx_m[m]) break;
			for (k = 0; k < NMATCH; k++) if (rx[k].m && rx[k].mach == m) break;
			if (k < NMATCH) break;
			sim_phase = "regex_compile"; faults_reset();
			q = rx_compile(p, m, &err);
			if (!q) sim_viol("spurious-error", "error %d", err);
			sim_phase = "free_machine"; regex_free_machine(rx_m[m]); rx_m[m] = q;
			break; }
		}
	}
	faults_reset();
	for (i = 0; i < NMATCH; i++) if (rx[i].m) { rx_check(rx + i, "final"); rx_feed(rx[i].m, rx_in[rx[i].str] + rx[i].pos, rx_len[rx[i].str] - rx[i].pos, 0); rx[i].pos = rx_len[rx[i].str]; rx_check(rx + i, "end"); sim_phase = "free_match"; regex_free_match(rx[i].m); rx[i].m = NULL; }
	sim_phase = "free_machine";
	for (m = 0; m < NMACH; m++) if (rx_m[m]) regex_free_machine(rx_m[m]);
	sim_unmap(rx_page, 131072);
	world_clean("regex");
}
