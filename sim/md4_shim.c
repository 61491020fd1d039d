/* Size of the opaque MD4 state, taken from the library's own header. */
#include "config.h"
#include <stddef.h>
#include "librsync.h"
#include "mdfour.h"
size_t sim_md4_size(void);
size_t sim_md4_size(void) { return sizeof(struct rs_mdfour); }
