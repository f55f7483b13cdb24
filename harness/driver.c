/*
 * Generic driver around code generated by pbtools.  Knows a schema only
 * through the tables in tables.h/tables.c, which the harness derives from its
 * own description of the schema and which use nothing but the public API of
 * the generated header: struct members, X_new, X_encode, X_decode, X_f_alloc,
 * X_f_init.
 *
 * Reads commands (one per line) from a script file and writes one JSON event
 * per command.  Every buffer is an exactly sized heap block.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <pthread.h>
#include <sys/mman.h>
#include "tables.h"

#define NSES 6
#define MAXPATH 64

/* from this size on, memory is mapped lazily, in front of a guard page */
#define HUGE ((size_t)1 << 27)
#define PIECE ((size_t)1 << 21)

struct reg { long off; long size; long align; };

struct ses {
    uint8_t *block_p;         /* malloc block, NULL if mapped */
    uint8_t *map_p;
    size_t map_size;
    uint8_t *ws_p;            /* workspace inside it */
    size_t ws_size;
    int m;
    void *root_p;
    int poison;
    uint8_t *out_p;           /* last successful encoding */
    int out_len;
    void *own[65536];         /* user data */
    int nown;
};

struct ctx {
    FILE *fin, *fout;
    struct ses ses[NSES];
    char *line_p;
    size_t cap;
    struct reg *regs;
    int nregs, capregs;
    int ext;
    const char *cp;           /* value parse position */
};

/* ---- memory ---- */

/* size bytes that end at a guard page; all zero unless fd is given, else copies
   of its first PIECE bytes */
static uint8_t *huge_new(size_t size, int fd, uint8_t **map_pp, size_t *map_size_p)
{
    size_t body = (size + PIECE - 1) / PIECE * PIECE, pos;
    uint8_t *map;
    *map_size_p = body + 4096;
    map = mmap(NULL, *map_size_p, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (map == MAP_FAILED) exit(5);
    if (fd < 0) {
        if (mprotect(map, body, PROT_READ | PROT_WRITE) != 0) exit(5);
    } else {
        for (pos = 0; pos < body; pos += PIECE) {
            if (mmap(map + pos, PIECE, PROT_READ, MAP_PRIVATE | MAP_FIXED, fd, 0) == MAP_FAILED) exit(5);
        }
    }
    *map_pp = map;
    return map + body - size;
}

static void new_ws(struct ses *s, size_t size, size_t mis)
{
    s->block_p = s->map_p = NULL;
    s->ws_size = size;
    if (size >= HUGE) {
        s->ws_p = huge_new(size, -1, &s->map_p, &s->map_size);
    } else {
        s->block_p = malloc(size + mis + (size + mis == 0));
        s->ws_p = s->block_p + mis;
    }
}

/* ---- output ---- */

static void out_bytes(struct ctx *c, const uint8_t *p, size_t n)
{
    size_t i;
    fputc('[', c->fout);
    for (i = 0; i < n; i++) {
        fprintf(c->fout, i ? ",%d" : "%d", p[i]);
    }
    fputc(']', c->fout);
}

static int ssize(int kind)
{
    switch (kind) {
    case K_int64: case K_uint64: case K_sint64: case K_fixed64:
    case K_sfixed64: case K_double: return 8;
    case K_bool: return 1;
    default: return 4;
    }
}

static void dump_msg(struct ctx *c, int m, const void *p);

static void dump_bool(struct ctx *c, const void *p)
{
    unsigned char b;
    memcpy(&b, p, 1);
    fprintf(c->fout, "[%d]", b);
}

static void dump_value(struct ctx *c, const fld_t *f, const void *p)
{
    switch (f->kind) {
    case K_string: {
        char *s;
        memcpy(&s, p, sizeof(s));
        out_bytes(c, (const uint8_t *)s, strlen(s));
        break;
    }
    case K_bytes: {
        struct pbtools_bytes_t b;
        memcpy(&b, p, sizeof(b));
        out_bytes(c, b.buf_p, b.size);
        break;
    }
    case K_message: {
        void *q;
        memcpy(&q, p, sizeof(q));
        dump_msg(c, f->ref, q);
        break;
    }
    case K_bool:
        dump_bool(c, p);
        break;
    default:
        out_bytes(c, p, (size_t)ssize(f->kind));
    }
}

static void *rep_items(const fld_t *f, const char *p)
{
    void *items;
    memcpy(&items, p + f->items_off, sizeof(items));
    return items;
}

static int rep_len(const fld_t *f, const char *p)
{
    int n;
    memcpy(&n, p + f->off, sizeof(n));
    return n;
}

static void dump_msg(struct ctx *c, int m, const void *vp)
{
    const msg_t *d = &msgs[m];
    const char *p = vp;
    int i, j;
    fputc('[', c->fout);
    for (i = 0; i < d->nf; i++) {
        const fld_t *f = &d->flds[i];
        if (i) fputc(',', c->fout);
        if (f->label == 's') {
            if (f->kind == K_message) {
                void *q;
                memcpy(&q, p + f->off, sizeof(q));
                fputc('[', c->fout);
                if (q != NULL) dump_msg(c, f->ref, q);
                fputc(']', c->fout);
            } else {
                dump_value(c, f, p + f->off);
            }
        } else if (f->label == 'o') {
            unsigned char pres;
            memcpy(&pres, p + f->pres_off, 1);
            fputc('[', c->fout);
            if (pres > 1) fprintf(c->fout, "[-7,%d]", pres);
            else if (pres) dump_value(c, f, p + f->off);
            fputc(']', c->fout);
        } else {
            int n = rep_len(f, p);
            char *items = n > 0 ? rep_items(f, p) : NULL;
            fputc('[', c->fout);
            for (j = 0; j < n; j++) {
                if (j) fputc(',', c->fout);
                if (f->kind == K_message) {
                    dump_msg(c, f->ref, items + (size_t)j * f->isz);
                } else {
                    dump_value(c, f, items + (size_t)j * f->isz);
                }
            }
            fputc(']', c->fout);
        }
    }
    for (i = 0; i < d->no; i++) {
        const one_t *o = &d->ones[i];
        int cs;
        if (d->nf + i) fputc(',', c->fout);
        memcpy(&cs, p + o->off, sizeof(cs));
        for (j = 0; j < o->n; j++) {
            if (o->mem[j].cval == cs) break;
        }
        if (cs == o->none) {
            fprintf(c->fout, "[0,[]]");
        } else if (j == o->n) {
            fprintf(c->fout, "[-1,[]]");
        } else {
            fprintf(c->fout, "[%d,", j + 1);
            dump_value(c, &o->mem[j], p + o->mem[j].off);
            fputc(']', c->fout);
        }
    }
    fputc(']', c->fout);
}

/* ---- regions ---- */

static void add_reg(struct ctx *c, struct ses *s, const void *p, size_t n, long align, int lit)
{
    const uint8_t *q = p;
    if (n == 0) return;
    if (q >= s->ws_p && q < s->ws_p + s->ws_size) {
        if (c->nregs == c->capregs) {
            c->capregs = c->capregs ? 2 * c->capregs : 256;
            c->regs = realloc(c->regs, sizeof(c->regs[0]) * (size_t)c->capregs);
        }
        c->regs[c->nregs].off = (long)(q - s->ws_p);
        c->regs[c->nregs].size = (long)n;
        c->regs[c->nregs].align = align;
        c->nregs++;
    } else if (!lit) {
        c->ext++;
    }
}

static void walk_msg(struct ctx *c, struct ses *s, int m, const void *vp);

static void walk_value(struct ctx *c, struct ses *s, const fld_t *f, const void *p)
{
    if (f->kind == K_string) {
        char *q;
        memcpy(&q, p, sizeof(q));
        add_reg(c, s, q, strlen(q) + 1, 1, strlen(q) == 0);
    } else if (f->kind == K_bytes) {
        struct pbtools_bytes_t b;
        memcpy(&b, p, sizeof(b));
        add_reg(c, s, b.buf_p, b.size, 1, 0);
    } else if (f->kind == K_message) {
        void *q;
        memcpy(&q, p, sizeof(q));
        add_reg(c, s, q, msgs[f->ref].size, (long)msgs[f->ref].align, 0);
        walk_msg(c, s, f->ref, q);
    }
}

static void walk_msg(struct ctx *c, struct ses *s, int m, const void *vp)
{
    const msg_t *d = &msgs[m];
    const char *p = vp;
    int i, j;
    for (i = 0; i < d->nf; i++) {
        const fld_t *f = &d->flds[i];
        if (f->label == 's') {
            if (f->kind == K_message) {
                void *q;
                memcpy(&q, p + f->off, sizeof(q));
                if (q != NULL) walk_value(c, s, f, p + f->off);
            } else {
                walk_value(c, s, f, p + f->off);
            }
        } else if (f->label == 'o') {
            unsigned char pres;
            memcpy(&pres, p + f->pres_off, 1);
            if (pres) walk_value(c, s, f, p + f->off);
        } else {
            int n = rep_len(f, p);
            if (n > 0) {
                char *items = rep_items(f, p);
                add_reg(c, s, items, (size_t)n * f->isz, (long)f->ialign, 0);
                for (j = 0; j < n; j++) {
                    if (f->kind == K_message) walk_msg(c, s, f->ref, items + (size_t)j * f->isz);
                    else walk_value(c, s, f, items + (size_t)j * f->isz);
                }
            }
        }
    }
    for (i = 0; i < d->no; i++) {
        const one_t *o = &d->ones[i];
        int cs;
        memcpy(&cs, p + o->off, sizeof(cs));
        for (j = 0; j < o->n; j++) {
            if (o->mem[j].cval == cs && cs != o->none) {
                walk_value(c, s, &o->mem[j], p + o->mem[j].off);
            }
        }
    }
}

static int cmp_reg(const void *a, const void *b)
{
    const struct reg *x = a, *y = b;
    return x->off < y->off ? -1 : x->off > y->off;
}

static void out_regs(struct ctx *c, struct ses *s)
{
    int i;
    c->nregs = 0;
    c->ext = 0;
    add_reg(c, s, s->root_p, msgs[s->m].size, (long)msgs[s->m].align, 0);
    walk_msg(c, s, s->m, s->root_p);
    qsort(c->regs, (size_t)c->nregs, sizeof(c->regs[0]), cmp_reg);
    fprintf(c->fout, ",\"ext\":%d,\"regs\":[", c->ext);
    for (i = 0; i < c->nregs; i++) {
        fprintf(c->fout, "%s[%ld,%ld,%ld]", i ? "," : "", c->regs[i].off, c->regs[i].size,
                c->regs[i].align);
    }
    fputc(']', c->fout);
}

static void out_val(struct ctx *c, struct ses *s)
{
    fprintf(c->fout, ",\"val\":");
    dump_msg(c, s->m, s->root_p);
}

/* ---- values ---- */

static void die(struct ctx *c, const char *why)
{
    fprintf(stderr, "driver: bad script: %s at '%.60s' in '%.200s'\n", why, c->cp ? c->cp : "",
            c->line_p);
    exit(3);
}

static void expect(struct ctx *c, char ch)
{
    if (*c->cp != ch) die(c, "value syntax");
    c->cp++;
}

static void *keep(struct ctx *c, struct ses *s, void *p)
{
    if (s->nown >= 65536) die(c, "too much user data");
    s->own[s->nown++] = p;
    return p;
}

/* [b,b,...] into an exactly sized block */
static uint8_t *parse_bytes(struct ctx *c, struct ses *s, size_t *n_p, int zero)
{
    size_t n = 0, cap = 16;
    uint8_t *tmp = malloc(cap), *res;
    expect(c, '[');
    while (*c->cp != ']') {
        char *e;
        long v = strtol(c->cp, &e, 10);
        if (n == cap) tmp = realloc(tmp, cap *= 2);
        tmp[n++] = (uint8_t)v;
        c->cp = e;
        if (*c->cp == ',') c->cp++;
    }
    c->cp++;
    res = keep(c, s, malloc(n + (size_t)zero + (n + (size_t)zero == 0)));
    memcpy(res, tmp, n);
    if (zero) res[n] = 0;
    free(tmp);
    *n_p = n;
    return res;
}

static int build_msg(struct ctx *c, struct ses *s, int m, void *vp);

/* stores a non-message value at p */
static void store_value(struct ctx *c, struct ses *s, const fld_t *f, void *p)
{
    size_t n;
    uint8_t *b;
    if (f->kind == K_string) {
        b = parse_bytes(c, s, &n, 1);
        memcpy(p, &b, sizeof(b));
    } else if (f->kind == K_bytes) {
        struct pbtools_bytes_t v;
        v.buf_p = parse_bytes(c, s, &n, 0);
        v.size = n;
        memcpy(p, &v, sizeof(v));
    } else {
        b = parse_bytes(c, s, &n, 0);
        if (n != (size_t)ssize(f->kind)) die(c, "scalar size");
        if (f->kind == K_bool) *(bool *)p = b[0] != 0;
        else memcpy(p, b, n);
    }
}

static void *get_ptr(const void *p)
{
    void *q;
    memcpy(&q, p, sizeof(q));
    return q;
}

/* all slots of a message from the value at c->cp; 0 or -1 (no workspace left) */
static int build_msg(struct ctx *c, struct ses *s, int m, void *vp)
{
    const msg_t *d = &msgs[m];
    char *p = vp;
    int i, j;
    expect(c, '[');
    for (i = 0; i < d->nf; i++) {
        const fld_t *f = &d->flds[i];
        if (i) expect(c, ',');
        if (f->label == 's' && f->kind != K_message) {
            store_value(c, s, f, p + f->off);
        } else if (f->label == 's') {
            expect(c, '[');
            if (*c->cp != ']') {
                if (f->alloc1(p) != 0) return -1;
                if (build_msg(c, s, f->ref, get_ptr(p + f->off)) != 0) return -1;
            }
            expect(c, ']');
        } else if (f->label == 'o') {
            expect(c, '[');
            if (*c->cp != ']') {
                *(bool *)(p + f->pres_off) = true;
                store_value(c, s, f, p + f->off);
            }
            expect(c, ']');
        } else {
            int n = 0, depth = 0;
            const char *q;
            expect(c, '[');
            for (q = c->cp; depth > 0 || *q != ']'; q++) {
                if (*q == '[' && depth++ == 0) n++;
                if (*q == ']') depth--;
            }
            if (n > 0) {
                char *items;
                if (f->allocn(p, n) != 0) return -1;
                items = rep_items(f, p);
                for (j = 0; j < n; j++) {
                    if (j) expect(c, ',');
                    if (f->kind == K_message) {
                        if (build_msg(c, s, f->ref, items + (size_t)j * f->isz) != 0) return -1;
                    } else {
                        store_value(c, s, f, items + (size_t)j * f->isz);
                    }
                }
            }
            expect(c, ']');
        }
    }
    for (i = 0; i < d->no; i++) {
        const one_t *o = &d->ones[i];
        char *e;
        long cs;
        if (d->nf + i) expect(c, ',');
        expect(c, '[');
        cs = strtol(c->cp, &e, 10);
        c->cp = e;
        expect(c, ',');
        if (cs == 0) {
            expect(c, '[');
            expect(c, ']');
        } else {
            const fld_t *f = &o->mem[cs - 1];
            if (f->kind == K_message) {
                if (f->alloc1(p) != 0) return -1;
                if (build_msg(c, s, f->ref, get_ptr(p + f->off)) != 0) return -1;
            } else {
                f->init(p);
                store_value(c, s, f, p + f->off);
            }
        }
        expect(c, ']');
    }
    expect(c, ']');
    return 0;
}

/* ---- paths: "-" or "slot:idx/slot:idx" (both 1-based, idx 0 for singular) ---- */

static void *follow(struct ctx *c, struct ses *s, const char *path, int *m_p)
{
    char *p = s->root_p;
    int m = s->m;
    while (*path && *path != '-') {
        char *e;
        long slot = strtol(path, &e, 10), idx;
        idx = strtol(e + 1, &e, 10);
        path = *e == '/' ? e + 1 : e;
        if (slot <= msgs[m].nf) {
            const fld_t *f = &msgs[m].flds[slot - 1];
            if (f->kind != K_message) die(c, "path through scalar");
            if (f->label == 'r') {
                if (idx < 1 || idx > rep_len(f, p)) return NULL;
                p = (char *)rep_items(f, p) + (size_t)(idx - 1) * f->isz;
            } else {
                p = get_ptr(p + f->off);
            }
            m = f->ref;
        } else {
            const one_t *o = &msgs[m].ones[slot - 1 - msgs[m].nf];
            int cs, j;
            memcpy(&cs, p + o->off, sizeof(cs));
            for (j = 0; j < o->n && o->mem[j].cval != cs; j++) {
            }
            if (j == o->n || o->mem[j].kind != K_message) return NULL;
            p = get_ptr(p + o->mem[j].off);
            m = o->mem[j].ref;
        }
        if (p == NULL) return NULL;
    }
    *m_p = m;
    return p;
}

static void out_path(struct ctx *c, const char *path)
{
    int first = 1;
    fprintf(c->fout, ",\"path\":[");
    while (*path && *path != '-') {
        char *e;
        long a = strtol(path, &e, 10), b = strtol(e + 1, &e, 10);
        fprintf(c->fout, "%s[%ld,%ld]", first ? "" : ",", a, b);
        first = 0;
        path = *e == '/' ? e + 1 : e;
    }
    fputc(']', c->fout);
}

/* ---- commands ---- */

static void drop_user_data(struct ses *s)
{
    while (s->nown > 0) free(s->own[--s->nown]);
}

static void free_ses(struct ses *s)
{
    drop_user_data(s);
    free(s->block_p);
    if (s->map_p != NULL) munmap(s->map_p, s->map_size);
    s->block_p = s->map_p = s->ws_p = NULL;
    free(s->out_p);
    s->out_p = NULL;
    s->out_len = 0;
    s->root_p = NULL;
    s->poison = 0;
}

static int hexval(char ch)
{
    return ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10;
}

/* everything that encoding must not change */
static char *snapshot(struct ctx *c, struct ses *s, size_t *n_p)
{
    char *buf = NULL;
    FILE *save = c->fout;
    c->fout = open_memstream(&buf, n_p);
    dump_msg(c, s->m, s->root_p);
    fclose(c->fout);
    c->fout = save;
    return buf;
}

static void do_decode(struct ctx *c, struct ses *s, const uint8_t *src_p, size_t n)
{
    uint8_t *in_p = malloc(n ? n : 1), *ref_p = malloc(n ? n : 1);
    int res;
    memcpy(in_p, src_p, n);
    memcpy(ref_p, src_p, n);
    res = msgs[s->m].dec(s->root_p, n ? in_p : in_p + 1, n);
    fprintf(c->fout, ",\"res\":%d,\"insame\":%d", res, memcmp(in_p, ref_p, n) == 0);
    free(in_p);                 /* the message must not refer to the input */
    free(ref_p);
    if (res >= 0) {
        out_val(c, s);
        out_regs(c, s);
    } else {
        s->poison = 1;
    }
}

static int do_encode(struct ctx *c, struct ses *s, int a, long size)
{
    int res, same;
    uint8_t *buf, *ws, *map = NULL;
    char *before, *after;
    size_t nb, na, map_size, wsn = s->ws_size < HUGE ? s->ws_size : 0;
    if ((size_t)size >= HUGE) {
        buf = huge_new((size_t)size, -1, &map, &map_size);
    } else {
        buf = malloc((size_t)size + (size == 0));
        memset(buf, 0xEE, (size_t)size);
    }
    ws = malloc(wsn + 1);
    memcpy(ws, s->ws_p, wsn);
    before = snapshot(c, s, &nb);
    res = msgs[s->m].enc(s->root_p, size ? buf : buf + 1, (size_t)size);
    after = snapshot(c, s, &na);
    same = nb == na && memcmp(before, after, na) == 0
        && memcmp(ws, s->ws_p, wsn) == 0;
    free(before);
    free(after);
    free(ws);
    fprintf(c->fout, "{\"op\":\"enc\",\"s\":%d,\"size\":%ld,\"res\":%d,\"same\":%d,\"out\":", a, size,
            res, same);
    if (res >= 0 && res <= size && (size_t)res < HUGE) {
        out_bytes(c, buf, (size_t)res);
        free(s->out_p);
        s->out_p = malloc((size_t)res + 1);
        memcpy(s->out_p, buf, (size_t)res);
        s->out_len = res;
    } else {
        fprintf(c->fout, "[]");
    }
    fprintf(c->fout, "}\n");
    if (map != NULL) munmap(map, map_size);
    else free(buf);
    return res;
}

/* an input of size bytes that starts with the given ones and goes on with zeros */
static void do_dechuge(struct ctx *c, struct ses *s, int a, long size)
{
    uint8_t *map, *in_p;
    size_t map_size, n = 0;
    int res;
    in_p = huge_new((size_t)size, -1, &map, &map_size);
    while (*c->cp == ' ') c->cp++;
    while (c->cp[0] > ' ' && c->cp[0] != '-') {
        in_p[n++] = (uint8_t)(hexval(c->cp[0]) * 16 + hexval(c->cp[1]));
        c->cp += 2;
    }
    res = msgs[s->m].dec(s->root_p, in_p, (size_t)size);
    s->poison = 1;
    munmap(map, map_size);
    fprintf(c->fout, "{\"op\":\"dechuge\",\"s\":%d,\"size\":%ld,\"res\":%d}\n", a, size, res);
}

/* encodes with the string or bytes at p (a pointer or a pbtools_bytes_t) replaced by
   one of size bytes, into a buffer of room bytes */
static void do_encover(struct ctx *c, struct ses *s, int a, void *p, int str, size_t size, size_t room)
{
    uint8_t *map, *data, *buf;
    uint8_t fill[4096];
    size_t map_size, i;
    int res, fd = memfd_create("piece", 0);
    struct pbtools_bytes_t b, oldb;
    char *q, *oldq;
    memset(fill, 'A', sizeof(fill));
    for (i = 0; i < PIECE; i += sizeof(fill)) {
        if (write(fd, fill, sizeof(fill)) != (ssize_t)sizeof(fill)) exit(5);
    }
    data = huge_new(size + 1, fd, &map, &map_size);
    if (mmap(map + map_size - 4096, 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) exit(5);
    data++;                    /* size bytes and then a page of zeros */
    buf = malloc(room + (room == 0));
    if (str) {
        q = (char *)data;
        memcpy(&oldq, p, sizeof(q));
        memcpy(p, &q, sizeof(q));
    } else {
        memcpy(&oldb, p, sizeof(b));
        b.buf_p = data;
        b.size = size;
        memcpy(p, &b, sizeof(b));
    }
    res = msgs[s->m].enc(s->root_p, room ? buf : buf + 1, room);
    if (str) memcpy(p, &oldq, sizeof(oldq));
    else memcpy(p, &oldb, sizeof(oldb));
    free(buf);
    munmap(map, map_size);
    close(fd);
    s->poison = 1;
    fprintf(c->fout, "{\"op\":\"encover\",\"s\":%d,\"size\":%ld,\"res\":%d}\n", a, (long)room, res);
}

#define END 400

/* long s path f n t: field f of the message p gets n bytes, or n elements of the
   default value; the message is encoded, and decoded in session t */
static void do_long(struct ctx *c, struct ses *s, int a, const char *path, int m, char *p,
                    int fi, size_t n, int ti, size_t room)
{
    const fld_t *f = &msgs[m].flds[fi - 1], *g;
    struct ses *t = &c->ses[ti];
    uint8_t *buf, *again = NULL, *in_p;
    char *data = NULL, *q;
    int res, exact = -1, exactsame = 0, shorter = 0, mid = 1, dres = -1, resame = 0, m2;
    long count = -1;
    size_t i, len;
    if (f->label == 'r') {
        if (f->allocn(p, (int)n) != 0) die(c, "long: no room");
    } else {
        char *v = p + f->off;
        data = malloc(n + 1);
        memset(data, 'A', n);
        data[n] = 0;
        if (f->label == 'o') *(bool *)(p + f->pres_off) = true;
        if (f->kind == K_string) {
            memcpy(v, &data, sizeof(data));
        } else {
            struct pbtools_bytes_t b;
            b.buf_p = (uint8_t *)data;
            b.size = n;
            memcpy(v, &b, sizeof(b));
        }
    }
    buf = malloc(room);
    res = msgs[s->m].enc(s->root_p, buf, room);
    fprintf(c->fout, "{\"op\":\"long\",\"s\":%d,\"t\":%d,\"f\":%d,\"n\":%ld,\"res\":%d", a, ti, fi, (long)n, res);
    fflush(c->fout);
    if (res > 0 && (size_t)res <= room) {
        len = (size_t)res;
        buf = realloc(buf, len);
        for (i = END; i + END + 120 < len && mid; i++) mid = buf[i] == buf[i + 120];
        again = malloc(len);
        exact = msgs[s->m].enc(s->root_p, again, len);
        exactsame = exact == res && memcmp(buf, again, len) == 0;
        free(again);
        again = malloc(len - 1 + (len == 1));
        shorter = msgs[s->m].enc(s->root_p, len == 1 ? again + 1 : again, len - 1);
        free(again);
        in_p = malloc(len);
        memcpy(in_p, buf, len);
        dres = msgs[t->m].dec(t->root_p, in_p, len);
        free(in_p);                 /* the message must not refer to the input */
        if (dres >= 0 && t->m == s->m) {
            q = follow(c, t, path, &m2);
            g = &msgs[m].flds[fi - 1];
            if (q != NULL && m2 == m) {
                if (g->label == 'r') count = rep_len(g, q);
                else if (g->kind == K_bytes) {
                    struct pbtools_bytes_t b;
                    memcpy(&b, q + g->off, sizeof(b));
                    count = (long)b.size;
                } else {
                    count = (long)strlen(get_ptr(q + g->off));
                }
            }
            again = malloc(len + 1);
            resame = msgs[t->m].enc(t->root_p, again, len + 1) == res && memcmp(buf, again, len) == 0;
            free(again);
        }
        fprintf(c->fout, ",\"head\":");
        out_bytes(c, buf, len < END ? len : END);
        fprintf(c->fout, ",\"tail\":");
        out_bytes(c, buf + (len < END ? 0 : len - END), len < END ? len : END);
    }
    free(buf);
    fprintf(c->fout, ",\"mid\":%d,\"exact\":%d,\"exactsame\":%d,\"short\":%d,\"dres\":%d,\"count\":%ld,\"resame\":%d",
            mid, exact, exactsame, shorter, dres, count, resame);
    if (dres >= 0 && t->m != s->m) out_val(c, t);
    else fprintf(c->fout, ",\"val\":[]");
    out_path(c, path);
    fprintf(c->fout, "}\n");
    free(data);
    s->poison = t->poison = 1;
    s->root_p = NULL;
}

static void run_line(struct ctx *c, char *line)
{
    char op[16], path[1024];
    int a = 0, n1 = 0, n2 = 0, pos = 0;
    struct ses *s;
    if (sscanf(line, "%15s %d%n", op, &a, &pos) < 1) return;
    if (strcmp(op, "case") == 0) {
        int i;
        for (i = 0; i < NSES; i++) free_ses(&c->ses[i]);
        fprintf(c->fout, "{\"op\":\"case\",\"c\":%d}\n", a);
        fflush(c->fout);
        alarm(20);
        return;
    }
    s = &c->ses[a];
    line += pos;
    c->cp = line;
    if (strcmp(op, "ws") == 0) {
        long size, mis, fill;
        uint8_t *old = s->ws_p;
        size_t oldn = s->ws_size;
        sscanf(line, "%ld %ld %ld", &size, &mis, &fill);
        s->ws_p = NULL;
        {
            struct ses t;
            size_t i;
            new_ws(&t, (size_t)size, (size_t)mis);
            for (i = 0; i < (size_t)size && (size_t)size < HUGE; i++) {
                uint8_t b = 0;
                if (fill == 1) b = 0xff;
                else if (fill == 2) b = (uint8_t)(i * 37 + 11);
                else if (fill == 3 && old != NULL && i < oldn) b = old[i];
                else if (fill == 4) b = 1;
                t.ws_p[i] = b;
            }
            free_ses(s);
            s->block_p = t.block_p;
            s->map_p = t.map_p;
            s->map_size = t.map_size;
            s->ws_p = t.ws_p;
            s->ws_size = (size_t)size;
        }
        fprintf(c->fout, "{\"op\":\"ws\",\"s\":%d,\"size\":%ld,\"mib\":%ld,\"base\":%d}\n", a, size,
                (size >> 20) + 1, (int)((uintptr_t)s->ws_p & 63));
    } else if (strcmp(op, "new") == 0) {
        sscanf(line, "%d", &n1);
        s->m = n1;
        s->poison = 0;
        s->root_p = msgs[n1].newf(s->ws_p, s->ws_size);
        drop_user_data(s);
        fprintf(c->fout, "{\"op\":\"new\",\"s\":%d,\"m\":%d,\"ok\":%d", a, n1 + 1, s->root_p != NULL);
        if (s->root_p != NULL) {
            fprintf(c->fout, ",\"off\":%ld", (long)((uint8_t *)s->root_p - s->ws_p));
            out_val(c, s);
            out_regs(c, s);
        }
        fprintf(c->fout, "}\n");
    } else if (s->root_p == NULL || s->poison) {
        fprintf(c->fout, "{\"op\":\"skip\",\"s\":%d}\n", a);
    } else if (strcmp(op, "build") == 0) {
        int res;
        while (*c->cp == ' ') c->cp++;
        res = build_msg(c, s, s->m, s->root_p);
        fprintf(c->fout, "{\"op\":\"build\",\"s\":%d,\"ok\":%d,\"want\":%s", a, res == 0, line + 1);
        if (res == 0) {
            out_val(c, s);
            out_regs(c, s);
        } else {
            s->poison = 1;
        }
        fprintf(c->fout, "}\n");
    } else if (strcmp(op, "enc") == 0) {
        long size;
        sscanf(line, "%ld", &size);
        do_encode(c, s, a, size);
    } else if (strcmp(op, "dechuge") == 0) {
        long size = strtol(line, (char **)&c->cp, 10);
        do_dechuge(c, s, a, size);
    } else if (strcmp(op, "encall") == 0) {
        /* every buffer size from 0 to two more than needed, largest first */
        int n;
        sscanf(line, "%d", &n1);
        n = do_encode(c, s, a, n1);
        for (n1 = n + 2; n >= 0 && n1 >= 0; n1--) do_encode(c, s, a, n1);
    } else if (strcmp(op, "dec") == 0) {
        size_t n = 0;
        uint8_t *in_p;
        while (*c->cp == ' ') c->cp++;
        in_p = malloc(strlen(c->cp) / 2 + 1);
        if (*c->cp != '-') {
            while (c->cp[0] > ' ') {
                in_p[n++] = (uint8_t)(hexval(c->cp[0]) * 16 + hexval(c->cp[1]));
                c->cp += 2;
            }
        }
        fprintf(c->fout, "{\"op\":\"dec\",\"s\":%d,\"in\":", a);
        out_bytes(c, in_p, n);
        fflush(c->fout);
        do_decode(c, s, in_p, n);
        free(in_p);
        fprintf(c->fout, "}\n");
    } else if (strcmp(op, "redec") == 0) {
        struct ses *t;
        sscanf(line, "%d", &n1);
        t = &c->ses[n1];
        if (t->out_p == NULL) {
            fprintf(c->fout, "{\"op\":\"skip\",\"s\":%d}\n", a);
            return;
        }
        fprintf(c->fout, "{\"op\":\"redec\",\"s\":%d,\"src\":%d,\"in\":", a, n1);
        out_bytes(c, t->out_p, (size_t)t->out_len);
        fflush(c->fout);
        do_decode(c, s, t->out_p, (size_t)t->out_len);
        fprintf(c->fout, "}\n");
    } else if (strcmp(op, "dump") == 0) {
        fprintf(c->fout, "{\"op\":\"dump\",\"s\":%d", a);
        out_val(c, s);
        out_regs(c, s);
        fprintf(c->fout, "}\n");
    } else {
        int m;
        char *p;
        const fld_t *f;
        sscanf(line, "%1023s %d%n", path, &n1, &pos);
        line += pos;
        c->cp = line;
        while (*c->cp == ' ') c->cp++;
        p = follow(c, s, path, &m);
        if (p == NULL) {
            fprintf(c->fout, "{\"op\":\"skip\",\"s\":%d}\n", a);
            return;
        }
        if (strcmp(op, "encover") == 0) {
            /* encover s path f size room: f is a (repeated, optional) string or bytes */
            size_t size, room;
            char *v;
            sscanf(c->cp, "%zu %zu", &size, &room);
            f = &msgs[m].flds[n1 - 1];
            v = p + f->off;
            if (f->label == 'r') {
                v = rep_len(f, p) > 0 ? rep_items(f, p) : NULL;
            } else if (f->label == 'o') {
                *(bool *)(p + f->pres_off) = true;
            }
            if (v == NULL) {
                fprintf(c->fout, "{\"op\":\"skip\",\"s\":%d}\n", a);
                return;
            }
            do_encover(c, s, a, v, f->kind == K_string, size, room);
            return;
        }
        if (strcmp(op, "long") == 0) {
            size_t n, size;
            int t;
            sscanf(c->cp, "%zu %d %zu", &n, &t, &size);
            do_long(c, s, a, path, m, p, n1, n, t, size);
            return;
        }
        if (strcmp(op, "set") == 0) {
            /* set s path f value (scalar, string, bytes, optional; or [] to drop a
               sub-message, clear a repeated field or an optional) */
            const char *v = c->cp;
            f = &msgs[m].flds[n1 - 1];
            if (f->label == 's' && f->kind == K_message) {
                memset(p + f->off, 0, sizeof(void *));
            } else if (f->label == 's') {
                store_value(c, s, f, p + f->off);
            } else if (f->label == 'r') {
                memset(p + f->off, 0, sizeof(int));
            } else {
                expect(c, '[');
                if (*c->cp == ']') {
                    *(bool *)(p + f->pres_off) = false;
                } else {
                    *(bool *)(p + f->pres_off) = true;
                    store_value(c, s, f, p + f->off);
                }
            }
            fprintf(c->fout, "{\"op\":\"set\",\"s\":%d,\"f\":%d,\"v\":%s", a, n1, v);
        } else if (strcmp(op, "seti") == 0) {
            const char *v;
            n2 = (int)strtol(c->cp, (char **)&c->cp, 10);
            while (*c->cp == ' ') c->cp++;
            v = c->cp;
            f = &msgs[m].flds[n1 - 1];
            if (n2 > rep_len(f, p) || n2 < 1) {
                fprintf(c->fout, "{\"op\":\"skip\",\"s\":%d}\n", a);
                return;
            }
            store_value(c, s, f, (char *)rep_items(f, p) + (size_t)(n2 - 1) * f->isz);
            fprintf(c->fout, "{\"op\":\"seti\",\"s\":%d,\"f\":%d,\"i\":%d,\"v\":%s", a, n1, n2, v);
        } else if (strcmp(op, "alloc") == 0) {
            /* alloc s path f n: repeated field of n elements, or sub-message (n = -9) */
            int res;
            long off = -1, size = 0, align = 1;
            n2 = (int)strtol(c->cp, NULL, 10);
            f = &msgs[m].flds[n1 - 1];
            if (f->label == 'r') {
                res = f->allocn(p, n2);
                align = (long)f->ialign;
                if (res == 0 && n2 > 0) {
                    off = (long)((uint8_t *)rep_items(f, p) - s->ws_p);
                    size = n2 * (long)f->isz;
                }
            } else {
                res = f->alloc1(p);
                align = (long)msgs[f->ref].align;
                if (res == 0) {
                    off = (long)((uint8_t *)get_ptr(p + f->off) - s->ws_p);
                    size = (long)msgs[f->ref].size;
                }
            }
            fprintf(c->fout,
                    "{\"op\":\"alloc\",\"s\":%d,\"f\":%d,\"n\":%d,\"res\":%d,\"ok\":%d,"
                    "\"off\":%ld,\"size\":%ld,\"align\":%ld",
                    a, n1, n2, res, res == 0, off, size, align);
        } else if (strcmp(op, "sel") == 0) {
            /* sel s path oneof member: X_m_init or X_m_alloc */
            const one_t *o = &msgs[m].ones[n1 - 1];
            int res = 0;
            long off = -1, size = 0;
            n2 = (int)strtol(c->cp, (char **)&c->cp, 10);
            f = &o->mem[n2 - 1];
            if (f->kind == K_message) {
                res = f->alloc1(p);
                if (res == 0) {
                    off = (long)((uint8_t *)get_ptr(p + f->off) - s->ws_p);
                    size = (long)msgs[f->ref].size;
                }
            } else {
                f->init(p);
            }
            fprintf(c->fout,
                    "{\"op\":\"sel\",\"s\":%d,\"o\":%d,\"mem\":%d,\"res\":%d,\"ok\":%d,"
                    "\"off\":%ld,\"size\":%ld,\"align\":%d",
                    a, n1, n2, res, res == 0, off, size,
                    f->kind == K_message ? (int)msgs[f->ref].align : 1);
            {
                int cs, j;
                memcpy(&cs, p + o->off, sizeof(cs));
                for (j = 0; j < o->n && o->mem[j].cval != cs; j++) {
                }
                fprintf(c->fout, ",\"cs\":%d", cs == o->none ? 0 : j == o->n ? -1 : j + 1);
            }
            if (res != 0) s->poison = 1;
        } else if (strcmp(op, "setu") == 0) {
            /* setu s path oneof value: value of the selected (non-message) member */
            const one_t *o = &msgs[m].ones[n1 - 1];
            int cs, j;
            const char *v = c->cp;
            memcpy(&cs, p + o->off, sizeof(cs));
            for (j = 0; j < o->n && o->mem[j].cval != cs; j++) {
            }
            if (j == o->n || o->mem[j].kind == K_message) die(c, "setu");
            store_value(c, s, &o->mem[j], p + o->mem[j].off);
            fprintf(c->fout, "{\"op\":\"setu\",\"s\":%d,\"o\":%d,\"v\":%s", a, n1, v);
        } else {
            die(c, "op");
        }
        out_path(c, path);
        if (!s->poison) {
            out_val(c, s);
            out_regs(c, s);
        }
        fprintf(c->fout, "}\n");
    }
    fflush(c->fout);
}

static void *run_script(void *arg)
{
    struct ctx *c = arg;
    ssize_t n;
    int i;
    while ((n = getline(&c->line_p, &c->cap, c->fin)) > 0) {
        while (n > 0 && (c->line_p[n - 1] == '\n' || c->line_p[n - 1] == ' ')) c->line_p[--n] = 0;
        run_line(c, c->line_p);
    }
    for (i = 0; i < NSES; i++) free_ses(&c->ses[i]);
    fclose(c->fin);
    fclose(c->fout);
    free(c->line_p);
    free(c->regs);
    return NULL;
}

static void on_alarm(int sig)
{
    static const char text[] = "driver: TIMEOUT\n";
    (void)sig;
    (void)!write(2, text, sizeof(text) - 1);
    _exit(9);
}

/* driver info | driver SCRIPT OUT [SCRIPT OUT ...] (one thread per pair) */
int main(int argc, char **argv)
{
    int n = (argc - 1) / 2, i, j, m;
    if (argc == 2) {
        printf("{\"heap\":%d,\"msgs\":[", (int)sizeof(struct pbtools_heap_t));
        for (m = 0; m < nmsgs; m++) {
            printf("%s{\"size\":%d,\"align\":%d,\"isz\":[", m ? "," : "", (int)msgs[m].size,
                   (int)msgs[m].align);
            for (j = 0; j < msgs[m].nf; j++) {
                printf("%s%d", j ? "," : "", (int)msgs[m].flds[j].isz);
            }
            printf("]}");
        }
        printf("],\"errors\":[");
        for (i = -10; i <= 10; i++) printf("%s\"%s\"", i > -10 ? "," : "", pbtools_error_code_to_string(i));
        printf("]}\n");
        return 0;
    }
    struct ctx *cs = calloc((size_t)n, sizeof(*cs));
    pthread_t *ts = calloc((size_t)n, sizeof(*ts));
    signal(SIGALRM, on_alarm);
    for (i = 0; i < n; i++) {
        cs[i].fin = fopen(argv[1 + 2 * i], "r");
        cs[i].fout = fopen(argv[2 + 2 * i], "w");
        if (!cs[i].fin || !cs[i].fout) return 4;
        setvbuf(cs[i].fout, NULL, _IOFBF, 1 << 16);
    }
    if (n == 1) {
        run_script(&cs[0]);
    } else {
        for (i = 0; i < n; i++) pthread_create(&ts[i], NULL, run_script, &cs[i]);
        for (i = 0; i < n; i++) pthread_join(ts[i], NULL);
    }
    free(cs);
    free(ts);
    return 0;
}
