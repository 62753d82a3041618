/* Force-included in every goto-cc compilation: lengths given to the trailing
 * "[1]" arrays of heap structures (see DESIGN.md, "Extraction"). */
#ifndef KV_ITEMS
#define KV_ITEMS 1
#endif
#ifndef KV_ARR
#define KV_ARR 1
#endif
#ifndef KV_BUF
#define KV_BUF 1
#endif
#ifndef KV_STR
#define KV_STR 1
#endif
#ifndef KV_BC
#define KV_BC 1
#endif
#ifndef KV_STK
#define KV_STK 1
#endif
