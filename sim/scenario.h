#pragma once
#include "world.h"
typedef void (*ScenarioFn)();
struct Scenario { const char* id; ScenarioFn fn; };
void addScenario(const char* id, ScenarioFn fn);
struct Reg { Reg(const char* id, ScenarioFn fn) { addScenario(id, fn); } };
#define SCENARIO(ID) static void scenario_##ID(); static Reg reg_##ID(#ID, scenario_##ID); static void scenario_##ID()
inline void nontrivial() { R->nontrivial = 1; }
void aliasHistory();      // C16 directly against the simulated memory
