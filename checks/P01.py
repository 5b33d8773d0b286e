from vmon import lawcheck
ID = "P01"
RULE = lawcheck.RULE
TECHNIQUE = "online step monitor (independent one-step law, shadow state) over generated workloads on both engines"
LEVEL_NOTE = "Exploration: holds on every step of the executions generated; unobserved scenarios are not covered. Trusts the step law in vmon/stepmon.py, cross-checked on both engines."
ASSUME = ["the monitor reads the live state through public attributes at the end of every step", "the extension is compiled by the check from the current tree with g++ -O1 instead of -O3"]
REQUIRED = ['vehicle-states', 'transitions', 'trip-end', 'generated', 'scenarios-python', 'scenarios-cpp', 'curves']


def jobs(tier, seed):
    X = dict(vex=1, p_vehicles=1.0, events=3, event_kinds=["veh_avoid", "veh_prefer", "veh_route", "addveh", "adddem", "u", "signal", "node_cap"])
    P = [(50, False, X), (50, True, X), (150, False, {}), (60, False, dict(events=6, parallel=True)), (40, False, dict(mix=[("trap", 1), ("ring", 2), ("random", 2)], load=2.5)),
         (30, False, dict(odd_dt=1.0)), (30, False, dict(frac_tmax=True, topo="random")),
         (150, True, {}), (60, True, dict(hard=False, load=2.5, parallel=True)), (40, True, dict(mix=[("trap", 1), ("ring", 2)])), (30, True, dict(odd_dt=1.0))]
    return lawcheck.jobs_from(P, tier, seed, ID)


def run(job):
    return lawcheck.run_law(job, ID)
