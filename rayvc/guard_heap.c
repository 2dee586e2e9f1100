// guard-page heap used by the replay: every block ends at an inaccessible page, freed blocks are unmapped, fresh blocks hold a pattern
#define _GNU_SOURCE
#include <sys/mman.h>
#include <string.h>
#include <stdint.h>
#include <stdlib.h>
extern char __NULL_OBJ[], __ERR_OBJ[];
typedef struct { char *base; size_t total; int64_t size; uint64_t magic; } hdr;
#define MAGIC 0x7261797663677561ull
int rayvc_guard_on = 0;
long rayvc_live = 0;
void *__real_heap_alloc(int64_t); void __real_heap_free(void *); void *__real_heap_realloc(void *, int64_t);
static int is_guard(void *p) { return (((uintptr_t)p) & 15) == 0 && (((uintptr_t)p) & 4095) >= 32 && ((hdr *)((char *)p - 32))->magic == MAGIC; }
void *__wrap_heap_alloc(int64_t size) {
    if (!rayvc_guard_on) return __real_heap_alloc(size);
    if (size < 0) abort();
    if (size > (1ll << 31)) return __real_heap_alloc(size);
    size_t pay = ((size_t)size + 15) & ~15ull, total = ((pay + 32 + 4095 + 16) & ~4095ull) + 4096;
    char *b = mmap(0, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) abort();
    mprotect(b + total - 4096, 4096, PROT_NONE);
    char *p = b + total - 4096 - pay;
    if ((((uintptr_t)p) & 4095) < 32) { /* header would straddle: keep the rule checkable */ }
    memset(p, 0xC5, pay);
    hdr *h = (hdr *)(p - 32); h->base = b; h->total = total; h->size = size; h->magic = MAGIC;
    __sync_fetch_and_add(&rayvc_live, 1);
    return p;
}
static int guarded(void *p) {
    // blocks of the real heap are at 32-byte offsets from their own header; the word 8 bytes before the block is never MAGIC there
    return ((uintptr_t)p & 15) == 0 && ((hdr *)((char *)p - 32))->magic == MAGIC;
}
void __wrap_heap_free(void *p) {
    if (p == 0 || p == __NULL_OBJ || p == __ERR_OBJ) return;
    if (!guarded(p)) { __real_heap_free(p); return; }
    hdr h = *(hdr *)((char *)p - 32);
    __sync_fetch_and_sub(&rayvc_live, 1);
    munmap(h.base, h.total);
}
void *__wrap_heap_realloc(void *p, int64_t size) {
    if (p == 0) return __wrap_heap_alloc(size);
    if (!guarded(p)) return __real_heap_realloc(p, size);
    hdr h = *(hdr *)((char *)p - 32);
    void *q = __wrap_heap_alloc(size);
    memcpy(q, p, h.size < size ? h.size : size);
    __wrap_heap_free(p);
    return q;
}

// stand-in kernels of the parallel drivers: record the sub-range they are given
#include <pthread.h>
typedef struct { uint8_t mmod, order; int8_t type; uint8_t attrs; uint32_t rc; int64_t len; } vobj;
long rayvc_rec[3 * 4096], rayvc_nrec, rayvc_rx, rayvc_ry;
static pthread_mutex_t rmx = PTHREAD_MUTEX_INITIALIZER;
extern void *i64(int64_t);
static void rlog(int64_t len, int64_t off, int k) {
    pthread_mutex_lock(&rmx);
    if (rayvc_nrec < 4096) { rayvc_rec[3 * rayvc_nrec] = len; rayvc_rec[3 * rayvc_nrec + 1] = off; rayvc_rec[3 * rayvc_nrec + 2] = k; }
    rayvc_nrec++;
    pthread_mutex_unlock(&rmx);
}
void *rayvc_rec3(vobj *x, int64_t len, int64_t off) {
    if ((long)x == rayvc_rx) { rlog(len, off, 0); return i64(len); }
    int64_t s = 0; rlog(len, off, 1);
    for (int64_t k = 0; k < x->len; k++) s += ((int64_t *)(x + 1))[k];
    return i64(s);
}
void *rayvc_rec3f(vobj *x, vobj *y, int64_t len, int64_t off) {
    if ((long)y != rayvc_ry) { rlog(len, off, 2); return i64(-1); }
    return rayvc_rec3(x, len, off);
}
void *rayvc_rec4(vobj *x, int64_t len, int64_t off, void *out) { rlog(len, off, (long)x == rayvc_rx ? 0 : 2); return __NULL_OBJ; }
void *rayvc_rec5(vobj *x, vobj *y, int64_t len, int64_t off, void *out) { rlog(len, off, (long)x == rayvc_rx && (long)y == rayvc_ry ? 0 : 2); return __NULL_OBJ; }
void *rayvc_recm(int64_t len, int64_t off, void *ctx) { rlog(len, off, (long)ctx == rayvc_rx ? 0 : 2); return __NULL_OBJ; }
