/* Contract of KOS_fix_index: a negative index counts from the end, and the result
 * is clamped to [0, length], for every index and length. */
#include "kv.h"
void harness(void)
{
    const int64_t  idx = kv_i64();
    const uint32_t len = kv_u32();
    int64_t        got = KOS_fix_index(idx, len), want;
    if (idx >= 0) want = (uint64_t)idx < len ? idx : (int64_t)len;
    else          want = (uint64_t)0 - (uint64_t)idx > len ? 0 : (int64_t)len - (int64_t)((uint64_t)0 - (uint64_t)idx);
    KV_REACH("end");
    KV_ASSERT(got == want, "a negative index counts from the end and the result is clamped to the sequence");
}
