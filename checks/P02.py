from vmon import lawcheck
ID = "P02"
RULE = lawcheck.RULE
TECHNIQUE = "online step monitor (independent one-step law, shadow state) over generated workloads on both engines"
LEVEL_NOTE = "Exploration: holds on every step of the executions generated; unobserved scenarios are not covered. Trusts the step law in vmon/stepmon.py, cross-checked on both engines."
ASSUME = ["the monitor reads the live state through public attributes at the end of every step", "the extension is compiled by the check from the current tree with g++ -O1 instead of -O3"]
REQUIRED = ['motion', 'spacing', 'transferred', 'scenarios-python', 'scenarios-cpp']


def jobs(tier, seed):
    P = [(160, False, {}), (60, False, dict(events=8, event_kinds=["u", "u", "kappa"])), (60, False, dict(mix=[("corridor", 2), ("merge", 2), ("ring", 2)], load=2.5)),
         (30, False, dict(odd_dt=1.0)), (160, True, {}), (60, True, dict(events=8, event_kinds=["u", "u", "kappa"])), (60, True, dict(topo="ring", load=2.5)), (30, True, dict(odd_dt=1.0))]
    return lawcheck.jobs_from(P, tier, seed, ID)


def run(job):
    return lawcheck.run_law(job, ID)
