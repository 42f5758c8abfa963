// What a property harness provides to the driver (sim_main.cpp).
#ifndef VERIF_HARNESS_H
#define VERIF_HARNESS_H
#include "simrt.h"
#include <string>
#include <vector>

// Called once per process, before any run, on the boot arena.
void harnessBoot(const char *mode);
// Generates the workload of one run: one droppable item per line.
std::string harnessGenerate(sim::Rng &rng, const char *mode);
// Executes a workload inside the simulated main task and checks it.
// Returns false when the workload is not meaningful (shrinking artefact).
bool harnessExecute(const std::string &workload, const char *mode);
// Lets a harness adapt the scheduling configuration drawn for a run.
void harnessConfig(sim::Config &cfg, sim::Rng &rng, const char *mode);
// Names of probes and user faults for the evidence file.
extern const char *const harnessProbes[];
extern const char *const harnessFaults[];
#endif
