/* Controller: runs a simulator under qemu's debug stub and owns its processor: single steps generated code,
   overwrites everything below the protected stack area after every instruction (C09), or keeps several register files
   and decides after every instruction which of the simulated processors goes on (C08).

   ctl CONFIG QEMU [qemu options] -- BINARY ARGS... */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <elf.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/wait.h>
#include "ctl.h"

#define EM_LOONGARCH_ 258
static void die(const char *s) { printf("HERR controller: %s\n", s); fflush(stdout); exit(11); }
static int is64, be, machine; static uint64_t a_ctl, a_stop, a_exit, a_clr;
static uint64_t rd(const unsigned char *p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)p[i] << 8 * (be ? n - 1 - i : i); return v; }
static void wr(unsigned char *p, uint64_t v, int n) { for (int i = 0; i < n; i++) p[be ? n - 1 - i : i] = (unsigned char)(v >> 8 * i); }

static void elf_read(const char *fn)
{
	FILE *f = fopen(fn, "rb"); long n; unsigned char *b, *sh; int i, shn, shs; uint64_t j;
	if (!f) die("no binary");
	fseek(f, 0, SEEK_END); n = ftell(f); rewind(f); b = malloc((size_t)n); if (fread(b, 1, (size_t)n, f) != (size_t)n) die("read"); fclose(f);
	is64 = b[4] == 2; be = b[5] == 2; machine = (int)rd(b + 18, 2);
	sh = b + (is64 ? rd(b + 40, 8) : rd(b + 32, 4)); shs = (int)rd(b + (is64 ? 58 : 46), 2); shn = (int)rd(b + (is64 ? 60 : 48), 2);
	for (i = 0; i < shn; i++) {
		unsigned char *s = sh + i * shs, *st, *sy; uint64_t off, size, ent; unsigned link;
		if (rd(s + 4, 4) != SHT_SYMTAB) continue;
		off = is64 ? rd(s + 24, 8) : rd(s + 16, 4); size = is64 ? rd(s + 32, 8) : rd(s + 20, 4); link = (unsigned)rd(s + (is64 ? 40 : 24), 4); ent = is64 ? 24 : 16;
		sy = b + off; st = sh + link * (unsigned)shs; st = b + (is64 ? rd(st + 24, 8) : rd(st + 16, 4));
		for (j = 0; j < size / ent; j++) {
			unsigned char *y = sy + j * ent; const char *nm = (char *)st + rd(y, 4); uint64_t v = is64 ? rd(y + 8, 8) : rd(y + 4, 4);
			if (machine == EM_ARM) v &= ~(uint64_t)1;
			if (!strcmp(nm, "sim_ctl")) a_ctl = v; else if (!strcmp(nm, "sim_ctl_stop")) a_stop = v; else if (!strcmp(nm, "sim_ctl_exit")) a_exit = v; else if (!strcmp(nm, "sim_ctl_clr")) a_clr = v;
		}
	}
	if (!a_ctl || !a_stop || !a_exit || !a_clr) die("symbols missing");
	free(b);
}

/* ---------------- remote protocol ---------------- */
static int sk; static char rb[1 << 16]; static int rlen, rpos; static pid_t child; static char sockname[128];
static void cleanup(void) { if (sockname[0]) unlink(sockname); if (child > 0) kill(child, 9); }
static int getb(void)
{
	if (rpos == rlen) { rlen = (int)read(sk, rb, sizeof rb); rpos = 0; if (rlen <= 0) return -1; }
	return (unsigned char)rb[rpos++];
}
static char pk[1 << 16]; static int pkn, noack;
static void put(const char *s)
{
	static char b[1 << 16]; unsigned char c = 0; int n = 0, i;
	b[n++] = '$';
	for (; *s; s++) { b[n++] = *s; c = (unsigned char)(c + (unsigned char)*s); }
	n += sprintf(b + n, "#%02x", c);
	for (i = 0; i < n; ) { int k = (int)write(sk, b + i, (size_t)(n - i)); if (k <= 0) die("write"); i += k; }
}
static int get(void)
{
	int c;
	do { c = getb(); if (c < 0) return -1; } while (c != '$');
	for (pkn = 0; (c = getb()) != '#'; ) {
		if (c < 0) return -1;
		if (c == '}') { c = getb() ^ 0x20; }
		if (c == '*' && pkn) { int k = getb() - 29; while (k-- > 0 && pkn < (int)sizeof pk - 1) { pk[pkn] = pk[pkn - 1]; pkn++; } continue; }
		if (pkn < (int)sizeof pk - 1) pk[pkn++] = (char)c;
	}
	getb(); getb(); pk[pkn] = 0;
	if (!noack && write(sk, "+", 1) != 1) die("ack");
	return pkn;
}
static void req(const char *s) { put(s); if (get() < 0) die("connection lost"); }
static int hex(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static int unhex(const char *s, unsigned char *o, int max) { int n = 0; while (s[0] && s[1] && n < max) { o[n++] = (unsigned char)(hex(s[0]) << 4 | hex(s[1])); s += 2; } return n; }
static void mem_write(uint64_t a, const unsigned char *p, int n)
{
	static char b[1 << 15]; int k = sprintf(b, "M%llx,%x:", (unsigned long long)a, n);
	for (int i = 0; i < n; i++) { b[k++] = "0123456789abcdef"[p[i] >> 4]; b[k++] = "0123456789abcdef"[p[i] & 15]; }
	b[k] = 0; req(b); if (strcmp(pk, "OK")) die("memory write refused");
}
static void mem_read(uint64_t a, unsigned char *p, int n)
{
	char b[64]; sprintf(b, "m%llx,%x", (unsigned long long)a, n); req(b);
	if (unhex(pk, p, n) != n) die("memory read refused");
}
static int mem_try(uint64_t a, unsigned char *p, int n)
{
	char b[64]; sprintf(b, "m%llx,%x", (unsigned long long)a, n); req(b);
	return pk[0] != 'E' && unhex(pk, p, n) == n;
}
static uint64_t ctl_get(int i) { unsigned char b[8]; mem_read(a_ctl + 8u * (unsigned)i, b, 8); return rd(b, 8); }
static void ctl_set(int i, uint64_t v) { unsigned char b[8]; wr(b, v, 8); mem_write(a_ctl + 8u * (unsigned)i, b, 8); }
static void bp(int set, uint64_t a, int thumb) { char b[64]; sprintf(b, "%c0,%llx,%d", set ? 'Z' : 'z', (unsigned long long)a, machine == EM_X86_64 || machine == EM_386 ? 1 : thumb ? 2 : machine == EM_S390 ? 2 : 4); req(b); if (strcmp(pk, "OK")) die("breakpoint refused"); }

/* ---------------- registers ---------------- */
static struct { char name[20]; int num, size, off; } reg[400]; static int nreg, r_pc, r_sp, r_lr;
static int reg_of(const char *n) { for (int i = 0; i < nreg; i++) if (!strcmp(reg[i].name, n)) return i; return -1; }
static char *xfer(const char *doc)
{
	static char o[1 << 16]; int n = 0; char b[200];
	for (;;) {
		sprintf(b, "qXfer:features:read:%s:%x,7f0", doc, n); req(b);
		if (pk[0] != 'm' && pk[0] != 'l') return NULL;
		memcpy(o + n, pk + 1, (size_t)pkn - 1); n += pkn - 1;
		if (pk[0] == 'l') break;
	}
	o[n] = 0; return strdup(o);
}
static int regnum_next;
static int attr(const char *tag, const char *end, const char *name, char *out, int max)
{
	char k[32]; const char *p; int n = 0; sprintf(k, " %s=\"", name);
	p = strstr(tag, k); if (!p || p > end) return 0;
	for (p += strlen(k); *p != '"' && n < max - 1; p++) out[n++] = *p;
	out[n] = 0; return 1;
}
static void xml_regs(const char *x)
{
	for (const char *p = strstr(x, "<reg "); p; p = strstr(p + 1, "<reg ")) {
		const char *e = strchr(p, '>'); char v[64];
		if (nreg == 400) return;
		if (attr(p, e, "regnum", v, 64)) regnum_next = atoi(v);
		attr(p, e, "name", reg[nreg].name, 20); attr(p, e, "bitsize", v, 64);
		reg[nreg].size = atoi(v) / 8; reg[nreg].num = regnum_next++; nreg++;
	}
}
static void regs_init(void)
{
	char *t = NULL; const char *p; int i;
	if (machine != EM_MIPS) t = xfer("target.xml");
	if (t) {
		if (strstr(t, "<reg ")) xml_regs(t);
		for (p = strstr(t, "href=\""); p; p = strstr(p + 1, "href=\"")) { char n[100]; int k = 0; for (p += 6; *p != '"' && k < 99; p++) n[k++] = *p; n[k] = 0; char *x = xfer(n); if (x) { xml_regs(x); free(x); } }
	} else for (i = 0; i < 70; i++) { sprintf(reg[nreg].name, i < 32 ? "g%d" : i < 38 ? "c%d" : "f%d", i < 38 ? i : i - 38); reg[nreg].num = i; reg[nreg].size = is64 ? 8 : 4; nreg++; }
	switch (machine) {
	case EM_X86_64: r_pc = reg_of("rip"); r_sp = reg_of("rsp"); r_lr = -1; break;
	case EM_386: r_pc = reg_of("eip"); r_sp = reg_of("esp"); r_lr = -1; break;
	case EM_AARCH64: r_pc = reg_of("pc"); r_sp = reg_of("sp"); r_lr = reg_of("x30"); break;
	case EM_ARM: r_pc = reg_of("pc"); r_sp = reg_of("sp"); r_lr = reg_of("lr"); break;
	case EM_RISCV: r_pc = reg_of("pc"); r_sp = reg_of("sp"); r_lr = reg_of("ra"); break;
	case EM_S390: r_pc = reg_of("pswa"); r_sp = reg_of("r15"); r_lr = reg_of("r14"); break;
	case EM_PPC: case EM_PPC64: r_pc = reg_of("pc"); r_sp = reg_of("r1"); r_lr = reg_of("lr"); break;
	case EM_MIPS: r_pc = reg_of("c37"); r_sp = reg_of("g29"); r_lr = reg_of("g31"); break;
	default: /* LoongArch */ r_pc = reg_of("pc"); r_sp = reg_of("r3"); r_lr = reg_of("r1"); break;
	}
	if (r_pc < 0 || r_sp < 0) die("registers not found");
}
static int get_raw(int r, unsigned char *o) { char b[32]; sprintf(b, "p%x", reg[r].num); req(b); if (pk[0] == 'E' || !pk[0]) return 0; return unhex(pk, o, 64); }
static uint64_t get_reg(int r) { unsigned char b[64]; int n = get_raw(r, b); if (!n) die("register read refused"); return rd(b, n > 8 ? 8 : n); }
static int set_raw(int r, const unsigned char *v, int n) { char b[200]; int k = sprintf(b, "P%x=", reg[r].num); for (int i = 0; i < n; i++) k += sprintf(b + k, "%02x", v[i]); req(b); return !strcmp(pk, "OK"); }
static void set_reg(int r, uint64_t v) { unsigned char b[64]; int n = get_raw(r, b); if (n > 8) n = 8; wr(b, v, n); if (!set_raw(r, b, n)) die("register write refused"); }

/* ---------------- running ---------------- */
static void finish(void)
{
	int st = 0; /* pk holds W.. / X.. */
	if (pk[0] == 'W') st = (int)strtol(pk + 1, NULL, 16); else st = 128 + (int)strtol(pk + 1, NULL, 16);
	noack = 1; close(sk); waitpid(child, NULL, 0); child = 0;
	exit(st);
}
/* resume with "s" or "c"; returns only after a trap; a crash of the guest is delivered and ends it */
static void resume(const char *how)
{
	put(how);
	for (;;) {
		int sig;
		if (get() < 0) { int st; waitpid(child, &st, 0); child = 0; cleanup(); exit(WIFEXITED(st) ? WEXITSTATUS(st) : 139); }
		if (pk[0] == 'W' || pk[0] == 'X') finish();
		if (pk[0] != 'T' && pk[0] != 'S') continue;
		sig = hex(pk[1]) << 4 | hex(pk[2]);
		if (sig == 5) return;
		{ char b[8]; sprintf(b, "C%02x", sig); put(b); how = "c"; }
	}
}
static uint64_t mask(uint64_t v) { return is64 ? v : v & 0xffffffffu; }
static uint64_t ret_addr(void)
{
	unsigned char b[8]; uint64_t v;
	if (r_lr >= 0) { v = get_reg(r_lr); if (machine == EM_ARM) v &= ~(uint64_t)1; return mask(v); }
	mem_read(get_reg(r_sp), b, is64 ? 8 : 4); return rd(b, is64 ? 8 : 4);
}
static const char *saved_names(void)
{
	switch (machine) {
	case EM_X86_64: return "rbx rbp r12 r13 r14 r15";
	case EM_386: return "ebx esi edi ebp";
	case EM_AARCH64: return "x19 x20 x21 x22 x23 x24 x25 x26 x27 x28 x29 v8 v9 v10 v11 v12 v13 v14 v15";
	case EM_ARM: return "r4 r5 r6 r7 r8 r9 r10 r11 d8 d9 d10 d11 d12 d13 d14 d15";
	case EM_RISCV: return "fp s0 s1 s2 s3 s4 s5 s6 s7 s8 s9 s10 s11 fs0 fs1 fs2 fs3 fs4 fs5 fs6 fs7 fs8 fs9 fs10 fs11";
	case EM_S390: return "r6 r7 r8 r9 r10 r11 r12 r13 f8 f9 f10 f11 f12 f13 f14 f15";
	case EM_PPC: case EM_PPC64: return "r14 r15 r16 r17 r18 r19 r20 r21 r22 r23 r24 r25 r26 r27 r28 r29 r30 r31 f14 f15 f16 f17 f18 f19 f20 f21 f22 f23 f24 f25 f26 f27 f28 f29 f30 f31";
	case EM_MIPS: return is64 ? "g16 g17 g18 g19 g20 g21 g22 g23 g30 f24 f25 f26 f27 f28 f29 f30 f31" : "g16 g17 g18 g19 g20 g21 g22 g23 g30 f20 f21 f22 f23 f24 f25 f26 f27 f28 f29 f30 f31";
	default: return "r22 r23 r24 r25 r26 r27 r28 r29 r30 r31 f24 f25 f26 f27 f28 f29 f30 f31";
	}
}
/* never changed by a function (or only with the value kept) */
static const char *fixed_names(void)
{
	switch (machine) {
	case EM_RISCV: return "gp tp"; case EM_PPC: return "r2 r13"; case EM_PPC64: return "r2 r13"; case EM_MIPS: return is64 ? "g28 g26" : "g26"; case EM_LOONGARCH_: return "r2 r21";
	default: return "";
	}
}
/* bytes above the stack pointer at the call that belong to the called function */
static int callee_area(void)
{
	switch (machine) {
	case EM_X86_64: return 8; case EM_386: return 4 + 32; case EM_S390: return 160; case EM_PPC64: return 96; case EM_PPC: return 8; case EM_MIPS: return is64 ? 0 : 32; case EM_ARM: return 16; default: return 0;
	}
}
static int red_zone(void) { return machine == EM_X86_64 ? 128 : machine == EM_PPC64 ? 288 : 0; }
static uint64_t rs; static uint64_t rnd64(void) { uint64_t z = (rs += 0x9e3779b97f4a7c15ull); z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; return z ^ z >> 31; }

static int thumb_cfg;
/* qemu drops a reservation at every debug stop on these two: the store-conditional is done here, by the same rule as on
   hardware (it succeeds when this processor's reservation still holds) */
static int ll_on; static uint64_t ll_addr;
static int llsc_step(uint64_t pc)
{
	unsigned char b[8]; uint32_t w; uint64_t a; int n, ll = 0, sc = 0, rn, rt, rm = -1, rd_ = 0; char nm[8];
	if (machine != EM_AARCH64 && machine != EM_PPC && machine != EM_PPC64) return 0;
	mem_read(pc, b, 4); w = (uint32_t)rd(b, 4);
	if (machine == EM_AARCH64) {
		ll = (w & 0x3fff7c00u) == 0x085f7c00u; sc = (w & 0x3fe07c00u) == 0x08007c00u;
		if (!ll && !sc) return 0;
		n = 1 << (w >> 30); rn = (int)(w >> 5 & 31); rt = (int)(w & 31); rd_ = (int)(w >> 16 & 31);
		if (rn == 31) strcpy(nm, "sp"); else sprintf(nm, "x%d", rn);
		a = get_reg(reg_of(nm));
	} else {
		uint32_t x = w & 0xfc0007ffu & ~1u;
		n = x == 0x7c000028u || x == 0x7c00012cu ? 4 : x == 0x7c0000a8u || x == 0x7c0001acu ? 8 : x == 0x7c000068u || x == 0x7c00056cu ? 1 : x == 0x7c0000e8u || x == 0x7c0005acu ? 2 : 0;
		if (!n) return 0;
		ll = x == 0x7c000028u || x == 0x7c0000a8u || x == 0x7c000068u || x == 0x7c0000e8u; sc = !ll;
		rt = (int)(w >> 21 & 31); rn = (int)(w >> 16 & 31); rm = (int)(w >> 11 & 31);
		sprintf(nm, "r%d", rm); a = get_reg(reg_of(nm));
		if (rn) { sprintf(nm, "r%d", rn); a += get_reg(reg_of(nm)); }
		a = mask(a);
	}
	if (ll) { ll_on = 1; ll_addr = a; return 0; }
	if (!ll_on || ll_addr != a) { ll_on = 0; return 0; } /* fails by itself */
	ll_on = 0;
	if (machine == EM_AARCH64) { uint64_t v = 0; if (rt != 31) { sprintf(nm, "x%d", rt); v = get_reg(reg_of(nm)); } wr(b, v, n); mem_write(a, b, n); if (rd_ != 31) { sprintf(nm, "x%d", rd_); set_reg(reg_of(nm), 0); } }
	else { sprintf(nm, "r%d", rt); wr(b, get_reg(reg_of(nm)), n); mem_write(a, b, n); set_reg(reg_of("cr"), (get_reg(reg_of("cr")) & 0x0fffffffu) | 0x20000000u); }
	set_reg(r_pc, pc + 4);
	return 1;
}
/* no interrupt is taken between a branch and its delay slot */
static int delay_slot(uint64_t pc)
{
	unsigned char b[4]; uint32_t w, op;
	if (machine != EM_MIPS || !mem_try(pc, b, 4)) return 0;
	w = (uint32_t)rd(b, 4); op = w >> 26;
	return (op >= 1 && op <= 7) || (op >= 20 && op <= 23) || (op == 0 && ((w & 63) == 8 || (w & 63) == 9)) || (op == 17 && (w >> 21 & 31) == 8);
}
static void step_one(uint64_t pc) { if (!llsc_step(pc)) resume("s"); }
static void do_step(void)
{
	uint64_t code = ctl_get(CT_CODE), size = ctl_get(CT_SIZE), entry = ctl_get(CT_ENTRY), max = ctl_get(CT_MAX), steps = 0, inj = 0, calls = 0, pc, sp, sp0, ret, low; int i, n = 0, k, status = CS_OK, A = 0;
	struct { int r, n; unsigned char orig[64], pat[64]; int fixed; } sv[64]; char names[400], *tok; unsigned char frame[256], frame2[256]; int fa = callee_area(); unsigned char junk[512]; int rz = red_zone(), jl = 192, align;
	if (machine == EM_ARM) entry &= ~(uint64_t)1, code &= ~(uint64_t)1;
	align = machine == EM_386 ? 4 : machine == EM_ARM || machine == EM_S390 || (machine == EM_MIPS && !is64) ? 8 : 16;
	rs = ctl_get(CT_SEED);
	bp(1, entry, thumb_cfg);
	resume("c");
	bp(0, entry, thumb_cfg);
	pc = mask(get_reg(r_pc)); if (pc != entry) die("did not reach the entry");
	sp0 = mask(get_reg(r_sp)); ret = ret_addr(); low = sp0;
	if (!mem_try(sp0 + (unsigned)fa, frame, 256)) fa = -1;
	strcpy(names, fixed_names());
	for (tok = strtok(names, " "); tok; tok = strtok(NULL, " ")) { int r = reg_of(tok); if (r >= 0 && (sv[n].n = get_raw(r, sv[n].pat)) != 0) { memcpy(sv[n].orig, sv[n].pat, 64); sv[n].fixed = 1; sv[n++].r = r; } }
	strcpy(names, saved_names());
	for (tok = strtok(names, " "); tok; tok = strtok(NULL, " ")) {
		int r = reg_of(tok), q;
		if (r < 0 || n == 64) continue;
		sv[n].r = r; sv[n].fixed = 0; sv[n].n = get_raw(r, sv[n].orig); if (!sv[n].n) continue;
		for (q = 0; q < sv[n].n; q++) sv[n].pat[q] = (unsigned char)(rnd64() >> 20 & 0x7f);
		if (machine == EM_RISCV && tok[0] == 'f' && tok[1] == 's') memset(sv[n].pat + 8, 0, 8);
		if (machine == EM_AARCH64 && tok[0] == 'v') sv[n].n = 16;
		if (!set_raw(r, sv[n].pat, sv[n].n)) continue;
		if (get_raw(r, sv[n].pat) == 0) continue; /* what the register really kept */
		n++;
	}
	for (k = 0; k < 512; k++) junk[k] = (unsigned char)(rnd64() >> 30);
	for (;;) {
		/* the interrupt before the instruction at pc */
		if (sp > 0 || 1) { sp = mask(get_reg(r_sp)); }
		if (sp > sp0) { status = CS_SP_ABOVE; break; }
		if (sp0 - sp > (1u << 20)) { status = CS_SP_FAR; break; }
		if (sp & (is64 ? 7 : 3)) { status = CS_SP_ALIGN; break; }
		if (sp < low) low = sp;
		mem_write(sp - (unsigned)rz - (unsigned)jl, junk + (steps * 8 & 255), jl); inj++;
		if (++steps > max) { status = CS_LIMIT; break; }
		step_one(pc);
		pc = mask(get_reg(r_pc));
		if (pc - code < size) continue;
		if (pc != ret) {
			uint64_t r2, sp2 = mask(get_reg(r_sp)); int guard = 0;
			/* outside of the generated code: let the called function run */
			calls++;
			if ((machine == EM_X86_64 ? sp2 + 8 : sp2) & (unsigned)(align - 1)) { status = CS_SP_CALL; A = (int)(sp2 & 0xfff); break; }
			r2 = ret_addr();
			bp(1, r2, thumb_cfg);
			do { resume("c"); pc = mask(get_reg(r_pc)); } while (pc != r2 && ++guard < 4);
			bp(0, r2, thumb_cfg);
			if (pc != r2) die("a called function did not return");
			if (pc - code < size) continue;
		}
		if (pc == ret) {
			sp = mask(get_reg(r_sp));
			if (sp != (r_lr < 0 ? mask(sp0 + (is64 ? 8 : 4)) : sp0)) { status = CS_SP_RETURN; break; }
			if (fa >= 0 && mem_try(sp0 + (unsigned)fa, frame2, 256) && memcmp(frame, frame2, 256)) { for (k = 0; frame[k] == frame2[k]; k++) ; status = CS_FRAME; A = fa + k; mem_write(sp0 + (unsigned)fa, frame, 256); }
			for (k = 0; k < n; k++) {
				unsigned char now[64]; int cmp = sv[k].n; get_raw(sv[k].r, now);
				if (machine == EM_AARCH64 && reg[sv[k].r].name[0] == 'v') cmp = 8; /* only the low half is preserved */
				if (machine == EM_RISCV && cmp > 8) cmp = 8;
				if (memcmp(now, sv[k].pat, (size_t)cmp) && status == CS_OK) { status = CS_REG; A = sv[k].r; }
			}
			break;
		}
		die("lost control of the program");
	}
	/* 386: pops its arguments? no: cdecl */
	for (i = 0; i < n; i++) if (pc == ret && !sv[i].fixed) set_raw(sv[i].r, sv[i].orig, sv[i].n);
	ctl_set(CT_STATUS, (uint64_t)status); ctl_set(CT_STEPS, steps); ctl_set(CT_INJ, inj); ctl_set(CT_CALLS, calls); ctl_set(CT_DEPTH, sp0 - low); ctl_set(CT_A, (uint64_t)A); ctl_set(CT_B, pc - code);
	if (status == CS_REG || status == CS_OK || status == CS_FRAME) { unsigned char nm[16]; memset(nm, 0, 16); if (status == CS_REG) strncpy((char *)nm, reg[A].name, 15); mem_write(a_ctl + 8 * CT_REGS, nm, 16); return; }
	/* the program cannot be resumed: let it report */
	set_reg(r_sp, sp0 - 65536 - 4096); if (r_lr >= 0) set_reg(r_lr, a_exit);
	{ int t9 = machine == EM_MIPS ? reg_of("g25") : machine == EM_PPC64 ? reg_of("r12") : -1; if (t9 >= 0) set_reg(t9, a_exit); }
	set_reg(r_pc, a_exit);
}

/* ---------------- several processors ---------------- */
static char *g_get(void) { req("g"); return strdup(pk); }
static void g_set(const char *g)
{
	char *b = malloc(strlen(g) + 2); b[0] = 'G';
	if (machine == EM_LOONGARCH_) { /* qemu's writer has no place for registers 32 and 34 (orig_a0, badv) */ memcpy(b + 1, g, 512); memcpy(b + 513, g + 512 + 16, 16); strcpy(b + 529, g + 512 + 48); }
	else strcpy(b + 1, g);
	 req(b); free(b); if (strcmp(pk, "OK")) die("registers refused");
}
static int arg_reg(void)
{
	switch (machine) {
	case EM_X86_64: return reg_of("rdi"); case EM_386: return -1; case EM_AARCH64: return reg_of("x0"); case EM_ARM: return reg_of("r0"); case EM_RISCV: return reg_of("a0");
	case EM_S390: return reg_of("r2"); case EM_PPC: case EM_PPC64: return reg_of("r3"); case EM_MIPS: return reg_of("g4"); default: return reg_of("r4");
	}
}
static void set_pc(uint64_t a)
{
	int t9 = machine == EM_MIPS ? reg_of("g25") : machine == EM_PPC64 ? reg_of("r12") : -1;
	if (t9 >= 0) set_reg(t9, a);
	set_reg(r_pc, machine == EM_ARM ? a & ~(uint64_t)1 : a);
}
/* An x86 read-modify-write without LOCK is a load and a store with a gap in between; where is its memory operand? */
static int x86_unlocked(uint64_t pc, uint64_t *addr, int *len)
{
	unsigned char b[20]; int i = 0, rex = 0, op, mod, rm, base = -1, idx = -1, sc = 0, w = 4; int64_t d = 0; uint64_t a = 0; char n[8];
	static const char *r64[] = { "rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15" };
	static const char *r32[] = { "eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi" };
	if (machine != EM_X86_64 && machine != EM_386) return 0;
	memset(b, 0x90, 16);
	for (i = 15; i > 0 && !mem_try(pc, b, i); ) i--;
	i = 0;
	for (;; i++) { if (b[i] == 0xf0) return 0; if (b[i] == 0x66) { w = 2; continue; } if (b[i] == 0xf2 || b[i] == 0xf3 || b[i] == 0x2e || b[i] == 0x3e) continue; if (is64 && (b[i] & 0xf0) == 0x40) { rex = b[i]; continue; } break; }
	if (rex & 8) w = 8;
	if (b[i] == 0x0f && (b[i + 1] == 0xb0 || b[i + 1] == 0xc0)) w = 1;
	else if (b[i] == 0x0f && (b[i + 1] == 0xb1 || b[i + 1] == 0xc1)) ;
	else if (b[i] != 0x0f && (b[i] & 7) < 2 && b[i] < 0x38) { if (!(b[i] & 1)) w = 1; i--; } /* add/or/adc/sbb/and/sub/xor to memory */
	else return 0;
	i += 2; op = b[i++]; mod = op >> 6; rm = op & 7;
	(void)n;
	if (mod == 3) return 0;
	if (rm == 4) { int s = b[i++]; base = s & 7; idx = (s >> 3 & 7); sc = s >> 6; if (idx == 4 && !(rex & 2)) idx = -1; if (base == 5 && mod == 0) { base = -1; d = (int32_t)rd(b + i, 4); i += 4; } }
	else if (rm == 5 && mod == 0) { d = (int32_t)rd(b + i, 4); i += 4; if (is64) return 0; }
	else base = rm;
	if (mod == 1) d = (int8_t)b[i]; else if (mod == 2) d = (int32_t)rd(b + i, 4);
	if (base >= 0) a += get_reg(reg_of(is64 ? r64[base + (rex & 1 ? 8 : 0)] : r32[base]));
	if (idx >= 0) a += get_reg(reg_of(is64 ? r64[idx + (rex & 2 ? 8 : 0)] : r32[idx])) << sc;
	*addr = mask(a + (uint64_t)d); *len = w;
	return 1;
}
typedef struct { char *g; int done; uint64_t steps; } Cpu;
static Cpu cpu[8]; static int ncpu; static uint64_t nsw, nsplit, allsteps; static char *g0; static uint64_t clr_sp;
static void cpu_load(int c, int llsc)
{
	if (llsc) { /* what a context switch does: any reservation is lost */
		g_set(g0); set_reg(r_sp, clr_sp);
		if (r_lr >= 0) set_reg(r_lr, a_exit); else { unsigned char b[8]; wr(b, a_exit, 8); mem_write(clr_sp, b, is64 ? 8 : 4); }
		set_pc(a_clr);
		bp(1, a_exit, thumb_cfg); resume("c"); bp(0, a_exit, thumb_cfg);
	}
	g_set(cpu[c].g); nsw++; ll_on = 0;
}
static void cpu_save(int c) { free(cpu[c].g); cpu[c].g = g_get(); }
static void cpu_run(int c, uint64_t n, int depth, uint64_t max);
static uint64_t sched[2 * 200]; static int nsched, si;
static int llsc_arch(void) { return machine != EM_X86_64 && machine != EM_386 && machine != EM_S390; }
static void cpu_run(int c, uint64_t n, int depth, uint64_t max)
{
	if (cpu[c].done || n == 0) return;
	cpu_load(c, llsc_arch());
	while (n--) {
		uint64_t pc = mask(get_reg(r_pc)), a; int len;
		if (delay_slot(pc)) n++;
		if (pc == a_exit) { cpu[c].done = 1; break; }
		if (++allsteps > max) break;
		if (getenv("CTL_TRACE")) { unsigned char w[4]; mem_try(pc, w, 4); fprintf(stderr, "cpu %d pc %llx %02x%02x%02x%02x sp %llx\n", c, (unsigned long long)pc, w[3], w[2], w[1], w[0], (unsigned long long)get_reg(r_sp)); }
		if (depth < 2 && x86_unlocked(pc, &a, &len) && len <= 8) {
			/* load ... somebody else ... store */
			unsigned char old[8], now[8], aft[8]; int other = -1;
			mem_read(a, old, len);
			cpu_save(c);
			if (si < nsched) { other = (int)sched[2 * si]; }
			if (other < 0 || other == c) other = (c + 1) % ncpu;
			cpu_run(other, si < nsched ? sched[2 * si + 1] : 7, depth + 1, max);
			g_set(cpu[c].g);
			mem_read(a, now, len);
			if (memcmp(now, old, (size_t)len)) {
				unsigned char b[16]; mem_write(a, old, len);
				resume("s");
				mem_read(a, aft, len);
				/* a compare-exchange that failed writes back what it read */
				(void)b; (void)aft;
				nsplit++;
				cpu[c].steps++;
				continue;
			}
		}
		step_one(pc); cpu[c].steps++;
	}
	if (mask(get_reg(r_pc)) == a_exit) cpu[c].done = 1;
	cpu_save(c);
}
static void do_cpus(void)
{
	uint64_t max = ctl_get(CT_MAX); int i, left; char *gorig;
	ncpu = (int)ctl_get(CT_NCPU); nsched = (int)ctl_get(CT_NSCHED); if (nsched > 200) nsched = 200;
	for (i = 0; i < 2 * nsched; i++) sched[i] = ctl_get(CT_SCHED + i);
	gorig = g_get(); nsw = nsplit = allsteps = 0;
	clr_sp = ctl_get(CT_CPU + 3 * ncpu + 1);
	g0 = gorig;
	for (i = 0; i < ncpu; i++) {
		uint64_t e = ctl_get(CT_CPU + 3 * i), sp = ctl_get(CT_CPU + 3 * i + 1), arg = ctl_get(CT_CPU + 3 * i + 2); unsigned char b[8];
		g_set(gorig);
		if (arg_reg() >= 0) set_reg(arg_reg(), arg);
		if (r_lr >= 0) set_reg(r_lr, machine == EM_ARM && thumb_cfg ? a_exit | 1 : a_exit);
		else { if (machine == EM_386) { sp -= 4; wr(b, arg, 4); mem_write(sp, b, 4); sp -= 4; wr(b, a_exit, 4); mem_write(sp, b, 4); } else { sp -= 8; wr(b, a_exit, 8); mem_write(sp, b, 8); } }
		set_reg(r_sp, sp); set_pc(e);
		cpu[i].g = g_get(); cpu[i].done = 0; cpu[i].steps = 0;
	}
	for (si = 0; si < nsched && allsteps <= max; si++) cpu_run((int)(sched[2 * si] % (unsigned)ncpu), sched[2 * si + 1], 0, max);
	/* interference ends: one after the other */
	for (left = 1, i = 0; left && allsteps <= max && i < 50; i++) { left = 0; for (int c = 0; c < ncpu; c++) { if (!cpu[c].done) cpu_run(c, 100000, 0, max); if (!cpu[c].done) left = 1; } }
	g_set(gorig);
	ctl_set(CT_STATUS, left ? CS_LIMIT : CS_OK); ctl_set(CT_STEPS, allsteps); ctl_set(CT_SW, nsw); ctl_set(CT_SPLITS, nsplit);
	for (i = 0; i < ncpu; i++) { free(cpu[i].g); cpu[i].g = NULL; }
	free(gorig);
}

int main(int argc, char **argv)
{
	int i, sep = 0, n = 0; char *av[64]; struct sockaddr_un un; char dir[64] = "/tmp/simctl.XXXXXX";
	for (i = 2; i < argc; i++) if (!strcmp(argv[i], "--")) { sep = i; break; }
	if (!sep || sep + 1 >= argc || argc > 50) { fprintf(stderr, "usage\n"); return 2; }
	thumb_cfg = strstr(argv[1], "armt2") != NULL;
	elf_read(argv[sep + 1]);
	if (!mkdtemp(dir)) die("mkdtemp");
	snprintf(sockname, sizeof sockname, "%s/s", dir);
	av[n++] = argv[2]; av[n++] = "-g"; av[n++] = sockname;
	for (i = 3; i < sep; i++) av[n++] = argv[i];
	for (i = sep + 1; i < argc; i++) av[n++] = argv[i];
	av[n] = NULL;
	signal(SIGPIPE, SIG_IGN);
	child = fork();
	if (child == 0) { execvp(av[0], av); _exit(127); }
	atexit(cleanup);
	memset(&un, 0, sizeof un); un.sun_family = AF_UNIX; strcpy(un.sun_path, sockname);
	for (i = 0; ; i++) {
		sk = socket(AF_UNIX, SOCK_STREAM, 0);
		if (connect(sk, (struct sockaddr *)&un, sizeof un) == 0) break;
		close(sk); if (i > 5000) die("qemu does not listen"); usleep(2000);
		if (waitpid(child, NULL, WNOHANG) == child) { child = 0; die("qemu ended"); }
	}
	unlink(sockname); rmdir(dir); sockname[0] = 0;
	req("qSupported:xmlRegisters=i386,arm,mips;swbreak+"); req("QStartNoAckMode"); noack = !strcmp(pk, "OK");
	req("?");
	regs_init();
	bp(1, a_stop, thumb_cfg);
	for (;;) {
		uint64_t cmd;
		resume("c");
		if (mask(get_reg(r_pc)) != a_stop) continue;
		cmd = ctl_get(CT_CMD);
		bp(0, a_stop, thumb_cfg);
		resume("s"); /* leave the breakpoint's address */
		if (cmd == CC_STEP) do_step(); else if (cmd == CC_CPUS) do_cpus();
		bp(1, a_stop, thumb_cfg);
	}
}
