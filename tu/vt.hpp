// Helpers for harness translation units: field offsets are exported as constants that the contract scripts read.
#pragma once
#include <stdint.h>
#include <stddef.h>
#define FIELD(name, T, f) extern "C" { extern const size_t off_##name; const size_t off_##name = __builtin_offsetof(T, f); }
#define SIZEOF(name, T) extern "C" { extern const size_t sz_##name; const size_t sz_##name = sizeof(T); }
