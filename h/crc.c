/* CRC-32 of an address against the bitwise definition of the IEEE polynomial. */
#include "vp.h"
#include "vp_world.h"
#include "crc.h"
#ifndef LEN
#define LEN 2
#endif
static uint32_t ref(const unsigned char* p, int n) {
    uint32_t c = 0xFFFFFFFFu;
    for (int i = 0; i < n; i++) {
        c ^= p[i];
        for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1u)));
    }
    return c ^ 0xFFFFFFFFu;
}
void vp_main(void) {
    unsigned char b[LEN + 1];
#ifdef ONE
    for (int i = 0; i < LEN; i++) b[i] = (unsigned char)(i * 37 + 2);
    b[vp_pick(0, LEN - 1)] = vp_u8();
#elif defined(TAIL) /* any last byte, and one of four values at any other place */
    static const unsigned char vals[] = { 0, 1, 0x80, 0xff };
    for (int i = 0; i < LEN; i++) b[i] = (unsigned char)(i * 37 + 2);
    int at = (int)vp_pick(0, LEN - 1);
    b[at] = at == LEN - 1 ? vp_u8() : vals[vp_pick(0, 3)];
#else
    for (int i = 0; i < LEN; i++) b[i] = vp_u8();
#endif
    uint32_t got = crc32_generate(b, LEN);
    VP_ASSERT(got == ref(b, LEN), "the identity of an address is the CRC-32 of its bytes");
    VP_ASSERT(got == crc32_generate(b, LEN), "the same address always has the same identity");
    VP_WITNESS_IF(got != 0, "nonzero identity");
}
