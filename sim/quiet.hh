// No error is injected while one of these exists on the current thread.
#ifndef VERIF_QUIET_HH
#define VERIF_QUIET_HH
#include <type_traits>
void sim_quiet_enter();
void sim_quiet_leave();
struct sim_quiet {
  constexpr sim_quiet() { if (!std::is_constant_evaluated()) sim_quiet_enter(); }
  constexpr ~sim_quiet() { if (!std::is_constant_evaluated()) sim_quiet_leave(); }
};
#endif
