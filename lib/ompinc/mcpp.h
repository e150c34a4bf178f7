#include <nanobind/nanobind.h>
#include <nanobind/ndarray.h>
#include <cstdlib>
#include <cstring>
#include <math.h>
#include <stdint.h>
extern "C" {
void *mc_malloc(size_t);
void *mc_calloc(size_t, size_t);
void *mc_realloc(void *, size_t);
void mc_free(void *);
}
#define malloc(n) mc_malloc(n)
#define calloc(n, m) mc_calloc(n, m)
#define realloc(p, n) mc_realloc(p, n)
#define free(p) mc_free(p)
