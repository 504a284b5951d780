/* Simulated allocator for numpy array data: every block handed out by malloc/realloc is
 * filled with seeded garbage (what uninitialised memory of a real process may hold), every
 * freed block is overwritten, and the n-th allocation can be made to fail. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

static int mode = 0;              /* 0: leave as is, 1: constant byte, 2: random bytes, 3: small doubles, 4: NaN, 5: small ints */
static uint64_t seed = 1;
static int constant = 0;
static long fail_at = -1, n_alloc = 0, n_failed = 0, n_filled = 0;
static long fail_min = 0;         /* only allocations of at least this many bytes are counted */
static long fail_span = 1;        /* this many consecutive allocations fail */

static uint64_t rnd(uint64_t *s) { uint64_t x = *s; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return *s = x; }

static void fill(char *p, size_t from, size_t size) {
    if (!mode || from >= size) return;
    n_filled++;
    if (mode == 1) { memset(p + from, constant, size - from); return; }
    uint64_t s = seed * 0x9E3779B97F4A7C15ull + (uint64_t) n_alloc * 0xBF58476D1CE4E5B9ull + 1;
    size_t i = from;
    while (i < size) {
        uint64_t w;
        double d;
        switch (mode) {
            case 2: w = rnd(&s); break;
            case 3: d = (double) (int64_t) (rnd(&s) % 2000) / 100. - 10.; memcpy(&w, &d, 8); break;
            case 4: d = (rnd(&s) & 3) ? __builtin_nan("") : (rnd(&s) & 1 ? __builtin_inf() : 1e300); memcpy(&w, &d, 8); break;
            default: w = rnd(&s) % 7; break;
        }
        size_t n = size - i < 8 ? size - i : 8;
        memcpy(p + i, &w, n);
        i += n;
    }
}

static int fails(size_t size) {
    if ((long) size < fail_min) return 0;
    n_alloc++;
    if (fail_at >= 0 && n_alloc >= fail_at && n_alloc - fail_at < fail_span) { n_failed++; return 1; }
    return 0;
}

/* each block carries its size in a 16-byte header */
static void *ms_malloc(void *ctx, size_t size) {
    if (fails(size)) return NULL;
    char *p = malloc(size + 16);
    if (!p) return NULL;
    *(size_t *) p = size;
    fill(p + 16, 0, size);
    return p + 16;
}
static void *ms_calloc(void *ctx, size_t n, size_t e) {
    if (fails(n * e)) return NULL;
    char *p = calloc(1, n * e + 16);
    if (!p) return NULL;
    *(size_t *) p = n * e;
    return p + 16;
}
static void *ms_realloc(void *ctx, void *q, size_t size) {
    if (!q) return ms_malloc(ctx, size);
    if (fails(size)) return NULL;
    char *b = (char *) q - 16;
    size_t old = *(size_t *) b;
    char *p = realloc(b, size + 16);
    if (!p) return NULL;
    *(size_t *) p = size;
    fill(p + 16, old, size);
    return p + 16;
}
static void ms_free(void *ctx, void *q, size_t size) {
    if (!q) return;
    char *b = (char *) q - 16;
    if (mode) memset(q, 0xDB, *(size_t *) b);
    free(b);
}

static PyDataMem_Handler handler = {
    "jpt_memsim", 1, { NULL, ms_malloc, ms_calloc, ms_realloc, ms_free }
};

static PyObject *capsule = NULL;

int ms_install(void) {
    if (PyArray_API == NULL) {
        if (_import_array() < 0) return -1;
    }
    if (!capsule) capsule = PyCapsule_New(&handler, "mem_handler", NULL);
    PyObject *old = PyDataMem_SetHandler(capsule);
    if (!old) return -2;
    Py_DECREF(old);
    return 0;
}
int ms_uninstall(void) {
    PyObject *old = PyDataMem_SetHandler(NULL);
    if (!old) return -2;
    Py_DECREF(old);
    return 0;
}
void ms_config(int mode_, uint64_t seed_, int constant_, long fail_at_, long fail_min_) {
    mode = mode_; seed = seed_; constant = constant_; fail_at = fail_at_; fail_min = fail_min_;
    n_alloc = n_failed = n_filled = 0;
    fail_span = 1;
}
void ms_span(long n) { fail_span = n; }
long ms_allocs(void) { return n_alloc; }
long ms_failed(void) { return n_failed; }
long ms_filled(void) { return n_filled; }
