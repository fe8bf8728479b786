#ifndef VT_MORE_H
#define VT_MORE_H
#include <stdint.h>
typedef struct { uint8_t a; uint64_t b; } other;
#endif
