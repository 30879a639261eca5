#include "all.h"
void vf_root() { use_ring(); }
