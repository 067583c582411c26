/* Array data of numpy allocated while this handler is installed: the plan says which allocations fail. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>

static long count, live, failed, nfail, from = -1, which[64];
static PyObject *old;
static int fill = -1; /* what new memory contains */

static int
fails(void)
{
    long k = count++;
    int f = from >= 0 && k >= from;
    for (long i = 0; i < nfail; ++i) {
        f |= which[i] == k;
    }
    failed += f;
    return f;
}

static void *
h_malloc(void *ctx, size_t s)
{
    void *p = fails() ? NULL : malloc(s ? s : 1);
    live += p != NULL;
    if (p && fill >= 0) {
        memset(p, fill, s);
    }
    return p;
}

static void *
h_calloc(void *ctx, size_t n, size_t s)
{
    void *p = fails() ? NULL : calloc(n ? n : 1, s ? s : 1);
    live += p != NULL;
    return p;
}

static void *
h_realloc(void *ctx, void *q, size_t s)
{
    void *p = fails() ? NULL : realloc(q, s ? s : 1);
    live += p != NULL && q == NULL;
    return p;
}

static void
h_free(void *ctx, void *p, size_t s)
{
    live -= p != NULL;
    free(p);
}

static PyDataMem_Handler handler = {"sim_mem", 1, {NULL, h_malloc, h_calloc, h_realloc, h_free}};

int
simnp_init(void)
{
    return _import_array();
}

int
simnp_install(void)
{
    PyObject *c = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!c) {
        return -1;
    }
    old = PyDataMem_SetHandler(c);
    Py_DECREF(c);
    return old ? 0 : -1;
}

int
simnp_restore(void)
{
    PyObject *mine = PyDataMem_SetHandler(old);
    Py_XDECREF(old);
    old = NULL;
    Py_XDECREF(mine);
    return 0;
}

void
simnp_arm(long n, const long *fail, long start)
{
    count = failed = 0;
    nfail = n > 64 ? 64 : n;
    for (long i = 0; i < nfail; ++i) {
        which[i] = fail[i];
    }
    from = start;
}

void simnp_fill(int f) { fill = f; }
long simnp_count(void) { return count; }
long simnp_failed(void) { return failed; }
long simnp_live(void) { return live; }
