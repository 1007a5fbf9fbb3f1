/* linked into the instrumented extension with -Wl,--wrap */
#include <stddef.h>
void *ompmc_malloc(size_t); void ompmc_free(void *); void *ompmc_calloc(size_t, size_t); void *ompmc_realloc(void *, size_t);
void *ompmc_memcpy(void *, const void *, size_t); void *ompmc_memmove(void *, const void *, size_t); void *ompmc_memset(void *, int, size_t);
int ompmc_gil_ensure(int (*)(void)); void ompmc_gil_release(void (*)(int), int);
int __real_PyGILState_Ensure(void); void __real_PyGILState_Release(int);
void *__wrap_malloc(size_t n) { return ompmc_malloc(n); }
void __wrap_free(void *p) { ompmc_free(p); }
void *__wrap_calloc(size_t a, size_t b) { return ompmc_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return ompmc_realloc(p, n); }
void *__wrap_memcpy(void *d, const void *s, size_t n) { return ompmc_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { return ompmc_memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) { return ompmc_memset(d, v, n); }
int __wrap_PyGILState_Ensure(void) { return ompmc_gil_ensure(__real_PyGILState_Ensure); }
void __wrap_PyGILState_Release(int s) { ompmc_gil_release(__real_PyGILState_Release, s); }
void *ompmc_gil_save(void *(*)(void)); void ompmc_gil_restore(void (*)(void *), void *);
void *__real_PyEval_SaveThread(void); void __real_PyEval_RestoreThread(void *);
void *__wrap_PyEval_SaveThread(void) { return ompmc_gil_save(__real_PyEval_SaveThread); }
void __wrap_PyEval_RestoreThread(void *s) { ompmc_gil_restore(__real_PyEval_RestoreThread, s); }
