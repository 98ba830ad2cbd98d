/* Linked into the sanitized build, compiled with -Dmalloc=mc_malloc: the n-th
   plain malloc of the extension fails if mc_fail_at is n. */
#include <stdlib.h>
#undef malloc
long mc_fail_at = -1;
long mc_mallocs = 0;
void *mc_malloc(size_t n)
{
    if (mc_mallocs++ == mc_fail_at) return NULL;
    return malloc(n);
}
