// Stand-in for the generated config.h of the build directory.
#ifndef VERIF_CONFIG_H
#define VERIF_CONFIG_H
#define HAVE_DUNE_COMMON 1
#define HAVE_DUNE_GEOMETRY 1
#include <dune-geometry-config.hh>
#endif
