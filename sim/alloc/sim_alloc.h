/* Simulated allocator in front of the compiled extensions (malloc and friends in C, operator new in C++): the plan says which allocations fail. */
#ifndef SIM_ALLOC_H
#define SIM_ALLOC_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#ifdef __cplusplus
#include <new>
extern "C" {
#endif

#define SIM_EXPORT __attribute__((weak, visibility("default"), used))

SIM_EXPORT long sim_count = 0;         /* allocations since armed */
SIM_EXPORT long sim_live = 0;          /* blocks given out and not yet returned */
SIM_EXPORT long sim_failed = 0;        /* allocations made to fail */
SIM_EXPORT long sim_fail[64];          /* numbers of the allocations that fail */
SIM_EXPORT long sim_nfail = 0;
SIM_EXPORT long sim_from = -1;         /* all allocations from this one on fail */
SIM_EXPORT int sim_quiet = 0;          /* suppress messages to stderr (unused by the code under test) */

SIM_EXPORT int
sim_fails(void)
{
    long k = sim_count++;
    int fail = sim_from >= 0 && k >= sim_from;
    for (long i = 0; i < sim_nfail && i < 64; ++i) {
        fail |= sim_fail[i] == k;
    }
    sim_failed += fail;
    return fail;
}

SIM_EXPORT void
sim_arm(long n, const long *fail, long from)
{
    sim_count = sim_failed = 0;
    sim_nfail = n > 64 ? 64 : n;
    for (long i = 0; i < sim_nfail; ++i) {
        sim_fail[i] = fail[i];
    }
    sim_from = from;
}

#ifdef __cplusplus
}

/* linked with -Bsymbolic, so that each library uses its own */
__attribute__((used)) void *
operator new(std::size_t s)
{
    void *p = sim_fails() ? NULL : malloc(s ? s : 1);
    if (!p) {
        throw std::bad_alloc();
    }
    ++sim_live;
    return p;
}

__attribute__((used)) void
operator delete(void *p) noexcept
{
    sim_live -= p != NULL;
    free(p);
}

__attribute__((used)) void
operator delete(void *p, std::size_t) noexcept
{
    operator delete(p);
}
#else
SIM_EXPORT void *
sim_calloc(size_t n, size_t s)
{
    void *p = sim_fails() ? NULL : (calloc)(n, s);
    sim_live += p != NULL;
    return p;
}

SIM_EXPORT void *
sim_malloc(size_t s)
{
    void *p = sim_fails() ? NULL : (malloc)(s);
    sim_live += p != NULL;
    return p;
}

SIM_EXPORT void *
sim_realloc(void *q, size_t s)
{
    void *p = sim_fails() ? NULL : (realloc)(q, s);
    sim_live += p != NULL && q == NULL;
    return p;
}

SIM_EXPORT char *
sim_strdup(const char *q)
{
    char *p = sim_malloc(strlen(q) + 1);
    return p ? strcpy(p, q) : NULL;
}

SIM_EXPORT void
sim_free(void *p)
{
    sim_live -= p != NULL;
    (free)(p);
}

#define calloc(n, s)  sim_calloc(n, s)
#define malloc(s)     sim_malloc(s)
#define realloc(p, s) sim_realloc(p, s)
#undef strdup
#define strdup(s)     sim_strdup(s)
#define free(p)       sim_free(p)
#endif
#endif
