/* The header as a C compiler sees it, included twice */
#include "gphrx.h"
#include "gphrx.h"

GphrxGraph mc_c_new(int undirected) { return undirected ? gphrx_new_undirected() : gphrx_new_directed(); }
