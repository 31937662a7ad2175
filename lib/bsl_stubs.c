/* Assumed contracts of the BSL services every part of the library calls (logging, error stack, heap).
 * Listed as trusted in every evidence file. Allocation failure is explored when a unit asks for it. */
#include "vp.h"
#include "bsl_sal.h"

void BSL_LOG_BinLogFixLen(uint32_t logId, uint32_t logLevel, uint32_t logType, void *format, void *p1, void *p2,
    void *p3, void *p4) { (void)logId; (void)logLevel; (void)logType; (void)format; (void)p1; (void)p2; (void)p3; (void)p4; }
void BSL_LOG_BinLogVarLen(uint32_t logId, uint32_t logLevel, uint32_t logType, void *format, void *para)
{ (void)logId; (void)logLevel; (void)logType; (void)format; (void)para; }
void BSL_ERR_PushError(int32_t err, const char *file, uint32_t lineNo) { (void)err; (void)file; (void)lineNo; }

#ifdef VP_ALLOC_FAIL
#define MAYFAIL() do { if (vp_bool()) return NULL; } while (0)
#else
#define MAYFAIL() do { } while (0)
#endif
#ifndef VP_OWN_SAL_MEM
void *BSL_SAL_Malloc(uint32_t size)
{
    if (size == 0) return NULL;
    MAYFAIL();
    void *p = malloc(size);
    VP_ASSUME(p != NULL);
    return p;
}
void *BSL_SAL_Calloc(uint32_t num, uint32_t size)
{
    if (num == 0 || size == 0) return NULL;
    MAYFAIL();
    void *p = calloc(1, (size_t)num * size);
    VP_ASSUME(p != NULL);
    return p;
}
void *BSL_SAL_Dump(const void *src, uint32_t size)
{
    if (src == NULL || size == 0) return NULL;
    MAYFAIL();
    void *p = malloc(size);
    VP_ASSUME(p != NULL);
    memcpy(p, src, size);
    return p;
}
#if defined(VP_CBMC) && !defined(VP_REAL_FREE)
#define VP_FREE(p) (void)(p) /* deallocation itself is outside the contracts of most units */
#else
#define VP_FREE(p) free(p)
#endif
void BSL_SAL_Free(void *value) { VP_FREE(value); }
void BSL_SAL_ClearFree(void *ptr, uint32_t size) { (void)size; VP_FREE(ptr); }
void *BSL_SAL_Realloc(void *addr, uint32_t newSize, uint32_t oldSize)
{
    if (newSize == 0) return NULL;
    MAYFAIL();
    void *p = malloc(newSize);
    VP_ASSUME(p != NULL);
    if (addr != NULL) {
        memcpy(p, addr, newSize < oldSize ? newSize : oldSize);
        VP_FREE(addr);
    }
    return p;
}
#endif
#ifndef VP_OWN_CLEANSE
void BSL_SAL_CleanseData(void *ptr, uint32_t size) { if (ptr != NULL) memset(ptr, 0, size); }
#endif
