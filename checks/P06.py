from vmon import lawcheck
ID = "P06"
RULE = lawcheck.RULE
TECHNIQUE = "online step monitor (independent one-step law, shadow state) over generated workloads on both engines"
LEVEL_NOTE = "Exploration: holds on every step of the executions generated; unobserved scenarios are not covered. Trusts the step law in vmon/stepmon.py, cross-checked on both engines."
ASSUME = ["the monitor reads the live state through public attributes at the end of every step", "the extension is compiled by the check from the current tree with g++ -O1 instead of -O3"]
REQUIRED = ['signal-state', 'single-phase-passed', 'signal-log', 'crossing-signalised', 'scenarios-python', 'scenarios-cpp']


def jobs(tier, seed):
    P = [(40, False, {}), (140, False, dict(mix=[("cross", 3), ("grid", 2)])), (100, False, dict(topo="cross", events=6, event_kinds=["signal", "phase"])), (30, False, dict(mix=[("cross", 3), ("grid", 2)], odd_dt=1.0)),
         (40, True, {}), (40, True, dict(single_phase=1)), (40, False, dict(single_phase=1)), (140, True, dict(mix=[("cross", 3), ("grid", 2)])), (100, True, dict(topo="cross", events=6, event_kinds=["signal", "phase"]))]
    return lawcheck.jobs_from(P, tier, seed, ID)


def run(job):
    return lawcheck.run_law(job, ID)
