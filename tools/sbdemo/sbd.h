/* Little helpers for sideband demonstrations: perf records in, code at an address out. */
#include "libipt-sb.h"
#include "intel-pt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define KERNEL 0xffff800000000000ull
static char dir[256];

struct st { char name[300]; unsigned char b[65536]; unsigned n; };

static void put(struct st *s, const void *p, unsigned n) { memcpy(s->b + s->n, p, n); s->n += n; }
static void p16(struct st *s, unsigned v) { unsigned short x = (unsigned short) v; put(s, &x, 2); }
static void p32(struct st *s, unsigned v) { put(s, &v, 4); }
static void p64(struct st *s, unsigned long long v) { put(s, &v, 8); }
/* sample type: TID | TIME, or TIME */
static unsigned stype = 2 | 4;
static unsigned begin(struct st *s, unsigned type, unsigned misc) { unsigned at = s->n; p32(s, type); p16(s, misc); p16(s, 0); return at; }
static void end(struct st *s, unsigned at, unsigned pid, unsigned long long time)
{ unsigned short sz; if (stype & 2) { p32(s, pid); p32(s, pid); } p64(s, time); sz = (unsigned short) (s->n - at); memcpy(s->b + at + 6, &sz, 2); }

static void r_mmap(struct st *s, unsigned long long t, unsigned pid, unsigned long long addr, const char *file)
{
	char fn[320]; unsigned at = begin(s, 1, 2); memset(fn, 0, sizeof(fn)); snprintf(fn, sizeof(fn), "%s/%s", dir, file);
	p32(s, pid); p32(s, pid); p64(s, addr); p64(s, 0x1000); p64(s, 0); put(s, fn, (unsigned) ((strlen(fn) + 8) & ~7u)); end(s, at, pid, t);
}
static void r_fork(struct st *s, unsigned long long t, unsigned pid, unsigned ppid)
{ unsigned at = begin(s, 7, 0); p32(s, pid); p32(s, ppid); p32(s, pid); p32(s, ppid); p64(s, t); end(s, at, ppid, t); }
static void r_exec(struct st *s, unsigned long long t, unsigned pid)
{ unsigned at = begin(s, 3, 1 << 13); p32(s, pid); p32(s, pid); put(s, "x\0\0\0\0\0\0", 8); end(s, at, pid, t); }
static void r_switch(struct st *s, unsigned long long t, unsigned pid)
{ unsigned at = begin(s, 14, 0); end(s, at, pid, t); }
static void r_switch_out(struct st *s, unsigned long long t, unsigned pid, unsigned to)
{ unsigned at = begin(s, 15, 1 << 13); p32(s, to); p32(s, to); end(s, at, pid, t); }
static void r_switch_in(struct st *s, unsigned long long t, unsigned pid, unsigned from)
{ unsigned at = begin(s, 15, 0); p32(s, from); p32(s, from); end(s, at, pid, t); }
static void r_start(struct st *s, unsigned long long t, unsigned pid)
{ unsigned at = begin(s, 12, 0); p32(s, pid); p32(s, pid); end(s, at, pid, t); }

static void code(const char *name, unsigned marker)
{
	char fn[320]; FILE *f; unsigned i; snprintf(fn, sizeof(fn), "%s/%s", dir, name);
	f = fopen(fn, "wb"); if (!f) exit(2);
	for (i = 0; i < 0x1000; i += 8) { unsigned char b[8] = { 0xb8, 0, 0, 0, 0, 0x90, 0xff, 0xe0 }; memcpy(b + 1, &marker, 4); fwrite(b, 1, 8, f); }
	fclose(f);
}

static void load(struct pt_sb_session *se, struct st *s, int primary)
{
	struct pt_sb_pevent_config c; FILE *f; int e;
	snprintf(s->name, sizeof(s->name), "%s/stream%d-%p", dir, primary, (void *) s);
	f = fopen(s->name, "wb"); if (!f) exit(2); fwrite(s->b, 1, s->n, f); fclose(f);
	memset(&c, 0, sizeof(c)); c.size = sizeof(c); c.filename = s->name; c.sample_type = stype; c.kernel_start = KERNEL;
	c.time_mult = 1; c.time_shift = 0; c.primary = primary ? 1 : 0;
	e = pt_sb_alloc_pevent_decoder(se, &c); if (e < 0) { printf("decoder: %d\n", e); exit(2); }
}

/* an event in kernel (or user) space at the given time */
static void ev(struct pt_sb_session *se, struct pt_image **im, unsigned long long tsc, int kernel)
{
	struct pt_event e; int r; memset(&e, 0, sizeof(e)); e.type = ptev_async_branch; e.has_tsc = 1; e.tsc = tsc;
	e.variant.async_branch.from = kernel ? 0x1000 : KERNEL + 0x1000; e.variant.async_branch.to = kernel ? KERNEL + 0x1000 : 0x1000;
	r = pt_sb_event(se, im, &e, sizeof(e), NULL, 0); if (r < 0) { printf("event: %d\n", r); exit(1); }
}

/* the marker in the code at @ip, 0 if there is none */
static unsigned at(struct pt_image *im, unsigned long long ip)
{
	unsigned char t[64]; unsigned n = 0, i, m = 0; struct pt_config c; struct pt_insn_decoder *d; struct pt_insn in; int s;
	if (!im) return 0;
	for (i = 0; i < 8; ++i) { t[n++] = 2; t[n++] = 0x82; }
	t[n++] = 0x99; t[n++] = 1; t[n++] = 0x7d; memcpy(t + n, &ip, 6); n += 6; t[n++] = 2; t[n++] = 0x23;
	memset(t + n, 0, 8); n += 8;
	pt_config_init(&c); c.begin = t; c.end = t + n; d = pt_insn_alloc_decoder(&c); if (!d) exit(2);
	pt_insn_set_image(d, im); s = pt_insn_sync_forward(d);
	while (s >= 0 && (s & pts_event_pending)) { struct pt_event e; s = pt_insn_event(d, &e, sizeof(e)); }
	memset(&in, 0, sizeof(in)); s = pt_insn_next(d, &in, sizeof(in)); (void) s;
	if (in.iclass && in.ip == ip && in.raw[0] == 0xb8) memcpy(&m, in.raw + 1, 4);
	pt_insn_free_decoder(d); return m;
}
static int bad;
static void want(const char *what, struct pt_image *im, unsigned long long ip, unsigned m)
{ unsigned g = at(im, ip); printf("%s: %x at %llx\n", what, g, ip); if (g != m) { printf("  but %x is mapped there\n", m); bad = 1; } }

static struct pt_sb_session *session(void)
{ struct pt_image_section_cache *c = pt_iscache_alloc(NULL); struct pt_sb_session *s = pt_sb_alloc(c); if (!s) exit(2); return s; }
