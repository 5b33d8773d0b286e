from vmon import lawcheck
ID = "P03"
RULE = lawcheck.RULE
TECHNIQUE = "online step monitor (independent one-step law, shadow state) over generated workloads on both engines"
LEVEL_NOTE = "Exploration: holds on every step of the executions generated; unobserved scenarios are not covered. Trusts the step law in vmon/stepmon.py, cross-checked on both engines."
ASSUME = ["the monitor reads the live state through public attributes at the end of every step", "the extension is compiled by the check from the current tree with g++ -O1 instead of -O3"]
REQUIRED = ['fifo', 'lane-assigned', 'admission', 'spacing', 'scenarios-python', 'scenarios-cpp']


def jobs(tier, seed):
    P = [(160, False, {}), (80, False, dict(mix=[("corridor", 2), ("merge", 2), ("ring", 2), ("cross", 2)], load=2.5)), (40, False, dict(events=6, event_kinds=["u", "kappa", "cap_out"])),
         (30, False, dict(odd_dt=1.0)), (160, True, {}), (80, True, dict(mix=[("corridor", 2), ("merge", 2), ("ring", 2)], load=2.5)), (40, True, dict(events=6, event_kinds=["u", "kappa", "cap_out"]))]
    return lawcheck.jobs_from(P, tier, seed, ID)


def run(job):
    return lawcheck.run_law(job, ID)
