#ifndef VERIF_PLANS_HH
#define VERIF_PLANS_HH
#include "sim.hh"
#include <initializer_list>
namespace sim {
// Everything about run `seed` of a property except the faults, which need the
// cost of each operation and are drawn by gen_faults afterwards.
struct PlanBuilder {
  Plan& p; Rng rng; int uid = 0;
  PlanBuilder(Plan& p_, std::uint64_t seed) : p(p_), rng(seed) {}
  Op& add(int thread, int kind, std::initializer_list<std::int64_t> a = {});
};
bool known_property(const char* prop);
void gen_plan(Plan& p, const char* prop, std::uint64_t seed);
// called once expected results are known
void estimate_steps(Plan& p);
bool wants_rehearsal(const Plan& p);            // should the plan be run without faults first
void gen_faults(Plan& p, const Result* seen);
}
#endif
