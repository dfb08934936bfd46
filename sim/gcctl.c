/* the collection threshold is the existing seam of the collector */
#ifndef NO_GC_CONTROL
#include "vm/vm.h"
void gc_set(DictuVM *vm, size_t n) { vm->nextGC = n; }
#else
#include <stddef.h>
void gc_set(void *vm, size_t n) { (void)vm; (void)n; }
#endif
