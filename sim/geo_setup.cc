#include "vals.hh"
namespace sim {
void geo_setup_storage(); void geo_setup_mapped(); void geo_setup_lfe(); void geo_setup_real(); void geo_setup_more();
void geo_setup() { geo_setup_storage(); geo_setup_mapped(); geo_setup_lfe(); geo_setup_real(); geo_setup_more(); }
}
