// Shared parts of the conformance harness: guarded buffers, guarded calls, codec table, SIMD levels.
#ifndef HRK_H
#define HRK_H
#define _GNU_SOURCE
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include "rle.h"
#include "simd_platform.h"

typedef uint32_t (*codec_fn)(const uint8_t *, const uint32_t, uint8_t *, const uint32_t);
typedef uint32_t (*bound_fn)(const uint32_t);

typedef struct { const char *name; codec_fn comp, dec; bound_fn bounds; int unit; } codec_t_;
extern const codec_t_ codecs[];
extern const int codecN;
// name, or name:parameter (number of sections; or run symbols as a bitmap in hex, then the listed symbols in hex)
int codec_by_name(const char *n);
extern uint32_t param_sections;
extern rle8_low_entropy_compress_info_t param_table;

// ---- SIMD levels (same cut points as the command line tool's --max-simd) -------------------
enum { LV_AVX512F, LV_AVX2, LV_AVX, LV_SSE42, LV_SSE41, LV_SSSE3, LV_SSE3, LV_SSE2, LV_NONE, LV_COUNT };
extern const char *levelName[LV_COUNT];
void levels_init(void);
bool level_available(int lv);
void set_level(int lv);

// ---- guarded memory --------------------------------------------------------------------------
typedef struct { uint8_t *lo, *hi; const char *name; } region_t; // [lo,hi) accessible, guard pages around
region_t region_make(const char *name, size_t cap);
void region_ensure(region_t *r, size_t cap);

// ---- guarded calls ---------------------------------------------------------------------------
// A call that faults, hangs or hits an illegal instruction returns to the caller; `fault` says how.
typedef struct { char text[64]; int sig; uintptr_t addr; bool write; } fault_t;
void guard_init(void);
extern sigjmp_buf guard_jmp;
extern volatile sig_atomic_t guard_armed;
extern fault_t guard_fault;
#define GUARDED(seconds, stmt) (guard_arm(seconds), (sigsetjmp(guard_jmp, 0) == 0) ? (guard_armed = 1, (stmt), guard_disarm(), true) : (guard_disarm(), false))
void guard_arm(int seconds);
void guard_disarm(void);

// ---- growing pack of buffers, referenced from the trace as [offset, length] ------------------
typedef struct { uint8_t *p; size_t n, cap; } pack_t;
size_t pack_add(pack_t *k, const uint8_t *p, size_t n);

uint64_t rng_next(uint64_t *s);
// materialise the input a plan describes; returns malloc'd bytes
uint8_t *plan_build(const char *plan, size_t *n);
#endif
