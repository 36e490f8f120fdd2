#pragma once
#include "engine.h"
// Build the plan of one run: everything follows from (property, seed).
Plan gen_plan(const std::string &prop, u64 seed);
bool known_prop(const std::string &prop);
bool prop_is_mt(const std::string &prop);
// executes a plan with the world the property needs
void exec_plan(Plan &p);
// one complete run including set-up and tear-down of R
void run_once(Plan &p, Run &r, bool keep_log = false, bool profiling = false);
