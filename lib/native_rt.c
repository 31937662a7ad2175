/* run-time of a native replay */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
int vp_quiet;
static uint8_t *buf; static size_t len, pos; static int loaded;
static void load(void)
{
    const char *p = getenv("VP_REPLAY");
    loaded = 1;
    FILE *f = p ? fopen(p, "r") : NULL;
    if (!f) { fprintf(stderr, "VP-NOINPUT\n"); exit(78); }
    size_t cap = 1 << 16; buf = malloc(cap);
    int c, hi = -1;
    while ((c = fgetc(f)) != EOF) {
        int v;
        if (c == '#') { while (c != '\n' && c != EOF) c = fgetc(f); continue; }
        if (c >= '0' && c <= '9') v = c - '0'; else if (c >= 'a' && c <= 'f') v = c - 'a' + 10; else continue;
        if (hi < 0) { hi = v; continue; }
        if (len == cap) { cap *= 2; buf = realloc(buf, cap); }
        buf[len++] = (uint8_t)(hi << 4 | v); hi = -1;
    }
    fclose(f);
}
void vp_next(void *dst, size_t n)
{
    if (!loaded) load();
    if (pos + n > len) { fprintf(stderr, "VP-EXHAUSTED\n"); memset(dst, 0, n); pos = len; return; }
    memcpy(dst, buf + pos, n); pos += n;
}
void vp_fail(const char *l) { printf("VP-FAIL %s\n", l); fflush(stdout); exit(1); }
void vp_invalid(const char *l) { printf("VP-INVALID %s\n", l); fflush(stdout); exit(77); }
void VP_ENTRY(void);
int main(void) { VP_ENTRY(); printf("VP-OK\n"); return 0; }
