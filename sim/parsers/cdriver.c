/* Drives the C parser library through a script of commands; its file and memory operations are simulated
 * (linked with --wrap).  Results go to the file given as argument 2, one line per fact, values percent-encoded. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include "cparserlib.h"

/* ------------------------------------------------------------------ seam */
static uint64_t rng_state = 1;
static long eio_at = -1, chunk_max = 0, malloc_fail = -1, malloc_count = 0;
static int eintr_every = 0, poison = -1;
static long fired_eio, fired_short, fired_alloc, fired_eintr, poisoned, reads;
static uint64_t rnd(void) { rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17; return rng_state; }

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
FILE *__real_fopen(const char *, const char *); ssize_t __real_read(int, void *, size_t); char *__real_strdup(const char *);
static int alloc_fails(void) { malloc_count++; if (malloc_fail >= 0 && malloc_count - 1 == malloc_fail) { fired_alloc++; errno = ENOMEM; return 1; } return 0; }
static void fill(void *p, size_t n) {
    if (!p || poison < 0) return;
    poisoned++;
    if (poison < 256) memset(p, poison, n);
    else for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)rnd();
}
void *__wrap_malloc(size_t n) { if (alloc_fails()) return NULL; void *p = __real_malloc(n); fill(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (alloc_fails()) return NULL; return __real_calloc(a, b); }
void *__wrap_realloc(void *o, size_t n) { if (alloc_fails()) return NULL; return __real_realloc(o, n); }
char *__wrap_strdup(const char *s) { if (alloc_fails()) return NULL; return __real_strdup(s); }

/* one simulated read(2): short, interrupted or failing */
static ssize_t sim_read(int fd, void *buf, size_t n, int can_eintr) {
    reads++;
    off_t pos = lseek(fd, 0, SEEK_CUR);
    if (can_eintr && eintr_every && rnd() % eintr_every == 0) { fired_eintr++; errno = EINTR; return -1; }
    if (eio_at >= 0 && pos >= eio_at) { fired_eio++; errno = EIO; return -1; }
    if (eio_at >= 0 && pos + (off_t)n > eio_at) n = eio_at - pos;
    if (chunk_max > 0 && n > 1) { size_t m = 1 + rnd() % chunk_max; if (m < n) { n = m; fired_short++; } }
    return __real_read(fd, buf, n);
}
ssize_t __wrap_read(int fd, void *b, size_t n) { return fd > 2 ? sim_read(fd, b, n, 1) : __real_read(fd, b, n); }
static ssize_t ck_read(void *c, char *b, size_t n) { return sim_read((int)(intptr_t)c, b, n, 0); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    size_t d = 0;
    while (d < n) { ssize_t k = write((int)(intptr_t)c, b + d, n - d); if (k <= 0) break; d += k; }
    return d;
}
static int ck_seek(void *c, off64_t *o, int w) { off64_t r = lseek64((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return close((int)(intptr_t)c); }
FILE *__wrap_fopen(const char *path, const char *mode) {
    int fl = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY;
    if (mode[0] == 'w') fl |= O_CREAT | O_TRUNC;
    if (mode[0] == 'a') fl |= O_CREAT | O_APPEND;
    int fd = open(path, fl | O_CLOEXEC, 0644);
    if (fd < 0) return NULL;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie((void *)(intptr_t)fd, mode, io);
    if (f && mode[0] == 'r' && chunk_max == 1) setvbuf(f, NULL, _IONBF, 0);
    return f;
}

/* ------------------------------------------------------------------ output */
static FILE *out;
static void enc(const char *s) {
    fputc(' ', out);
    if (!s) { fputs("-", out); return; }
    fputc('=', out);
    for (; *s; s++) { unsigned char c = *s; if (c > 32 && c < 127 && c != '%') fputc(c, out); else fprintf(out, "%%%02X", c); }
}
static long *nodes; static int nnodes, cap;
static const char *tname(int t) {
    switch (t) { case SENSOR: return "sensor"; case ACTUATOR: return "actuator"; case ATTRIBUTE: return "attribute"; case BRANCH: return "branch"; case STRUCT: return "struct"; case PROPERTY: return "property"; }
    return "unknown";
}
static void walk(long n, int parent, int show) {
    int me = nnodes;
    if (nnodes == cap) { cap = cap ? 2 * cap : 1024; nodes = __real_realloc(nodes, cap * sizeof(long)); }
    nodes[nnodes++] = n;
    if (show) {
        fprintf(out, "N %d %d %s %d %d", me, parent, tname(VSSgetType(n)), VSSgetValidation(n), VSSgetNumOfChildren(n));
        /* a caller may hold several results at a time */
        const char *na = VSSgetName(n), *uu = VSSgetUUID(n), *de = VSSgetDescr(n), *da = VSSgetDatatype(n), *un = VSSgetUnit(n);
        if (parent >= 0) { VSSgetName(nodes[parent]); VSSgetUUID(nodes[parent]); VSSgetDescr(nodes[parent]); VSSgetDatatype(nodes[parent]); VSSgetUnit(nodes[parent]); }
        enc(na); enc(uu); enc(de); enc(da); enc(un);
#ifndef NO_FIELDS
        node_t *t = (node_t *)(intptr_t)n;
        enc(t->min); enc(t->max); enc(t->defaultAllowed);
#endif
        fputc('\n', out);
        const char *last = NULL;
        for (int i = 0; i < VSSgetNumOfAllowedElements(n); i++) {
            const char *v = VSSgetAllowedElement(n, i);
            if (i) { fprintf(out, "A %d", me); enc(last); fputc('\n', out); }
            last = v;
        }
        if (last) { fprintf(out, "A %d", me); enc(last); fputc('\n', out); }
        if (me > 0 && (parent < 0 || VSSgetParent(n) != nodes[parent])) fprintf(out, "E wrong parent of node %d\n", me);
        if (me == 0 && VSSgetParent(n) != 0) fprintf(out, "E root has a parent\n");
        if (VSSgetChild(n, VSSgetNumOfChildren(n)) != 0) fprintf(out, "E child beyond the last one of node %d\n", me);
    }
    for (int i = 0; i < VSSgetNumOfChildren(n); i++) walk(VSSgetChild(n, i), me, show);
}
static int index_of(long n) { for (int i = 0; i < nnodes; i++) if (nodes[i] == n) return i; return -1; }

int main(int argc, char **argv) {
    FILE *in = __real_fopen(argv[1], "r");
    out = __real_fopen(argv[2], "w");
    if (!in || !out) return 90;
    static char line[1 << 16];
    static char buf[64][4096];
    long root = 0;
    int cmd = 0;
    while (fgets(line, sizeof line, in)) {
        line[strcspn(line, "\n")] = 0;
        int na = 0;
        char *save, *w = strtok_r(line, "\t", &save);
        for (; w && na < 64; w = strtok_r(NULL, "\t", &save)) snprintf(buf[na++], 4096, "%s", w);
        if (!na) continue;
        char *c = buf[0];
        if (strcmp(c, "set") != 0) { fprintf(out, "C %d %s\n", cmd++, c); fflush(out); }
        if (!strcmp(c, "set")) {
            long v = na > 2 ? atol(buf[2]) : 0;
            if (!strcmp(buf[1], "eio")) eio_at = v;
            else if (!strcmp(buf[1], "chunk")) chunk_max = v;
            else if (!strcmp(buf[1], "eintr")) eintr_every = v;
            else if (!strcmp(buf[1], "poison")) poison = v;
            else if (!strcmp(buf[1], "seed")) rng_state = v | 1;
            else if (!strcmp(buf[1], "mallocfail")) { malloc_fail = v; malloc_count = 0; }
        } else if (!strcmp(c, "read")) {
            long f0 = fired_alloc + fired_eio;
            long r = VSSReadTree(buf[1]);
            fprintf(out, "R %d %ld\n", r != 0, fired_alloc + fired_eio - f0);
            malloc_fail = -1; eio_at = -1;
            if (r) { root = r; nnodes = 0; walk(root, -1, 1); }
        } else if (!strcmp(c, "walk")) {
            if (root) { nnodes = 0; walk(root, -1, 1); }
        } else if (!strcmp(c, "search") && root) {   /* search path any leaf max noscope... */
            static searchData_t sd[4001];
            static noScopeList_t ns[40];
            int max = atoi(buf[4]), n = 0, val = -1;
            for (int i = 5; i < na; i++) snprintf(ns[n++].path, MAXCHARSPATH, "%s", buf[i]);
            char *copy = __real_strdup(buf[1]);
            searchData_t *arr = __real_malloc(sizeof(searchData_t) * (max ? max : 1));   /* exactly what the caller promised */
            int k = VSSSearchNodes(copy, root, max, arr, atoi(buf[2]), atoi(buf[3]), n, n ? ns : NULL, &val);
            fprintf(out, "S %d %d\n", k, val);
            for (int i = 0; i < k && i < max; i++) { fprintf(out, "M %d", index_of(arr[i].foundNodeHandles)); enc(arr[i].responsePaths); fputc('\n', out); }
            free(copy); free(arr);
        } else if (!strcmp(c, "leaflist") && root) { fprintf(out, "L %d\n", VSSGetLeafNodesList(root, buf[1]));
        } else if (!strcmp(c, "uuidlist") && root) { fprintf(out, "L %d\n", VSSGetUuidList(root, buf[1]));
        } else if (!strcmp(c, "write") && root) { VSSWriteTree(buf[1], root); fprintf(out, "W\n");
        }
    }
    fprintf(out, "Z %ld %ld %ld %ld %ld %ld\n", fired_short, fired_eio, fired_alloc, fired_eintr, poisoned, reads);
    fclose(out);
    return 0;
}
