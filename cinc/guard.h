/* force-included when the extension is built for replay: allocations get
   guard zones, are counted, and can be made to fail */
#ifndef VP_GUARD_H
#define VP_GUARD_H
#include <stdlib.h>
void *vg_malloc(size_t);
void *vg_calloc(size_t, size_t);
void vg_free(void *);
#define malloc vg_malloc
#define calloc vg_calloc
#define free vg_free
#endif
