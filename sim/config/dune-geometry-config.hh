#ifndef DUNE_GEOMETRY_CONFIG_HH
#define DUNE_GEOMETRY_CONFIG_HH
#ifndef HAVE_DUNE_GEOMETRY
#define HAVE_DUNE_GEOMETRY 1
#endif
#define DUNE_GEOMETRY_VERSION "2.12-git"
#define DUNE_GEOMETRY_VERSION_MAJOR 2
#define DUNE_GEOMETRY_VERSION_MINOR 12
#define DUNE_GEOMETRY_VERSION_REVISION 0
#include <dune-common-config.hh>
#endif
