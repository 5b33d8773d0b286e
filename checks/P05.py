from vmon import lawcheck
ID = "P05"
RULE = lawcheck.RULE
TECHNIQUE = "online step monitor (independent one-step law, shadow state) over generated workloads on both engines"
LEVEL_NOTE = "Exploration: holds on every step of the executions generated; unobserved scenarios are not covered. Trusts the step law in vmon/stepmon.py, cross-checked on both engines."
ASSUME = ["the monitor reads the live state through public attributes at the end of every step", "the extension is compiled by the check from the current tree with g++ -O1 instead of -O3"]
REQUIRED = ['node-capacity', 'crossing', 'scenarios-python', 'scenarios-cpp']


def jobs(tier, seed):
    P = [(60, False, {}), (100, False, dict(mix=[("merge", 2), ("cross", 2), ("random", 2)], load=2.5)), (100, False, dict(world=dict(adjust_node_capacity=True), load=2.5)),
         (60, False, dict(events=6, event_kinds=["node_cap"], mix=[("merge", 2), ("cross", 1), ("random", 1)], load=2.5)),
         (60, True, {}), (100, True, dict(mix=[("merge", 2), ("cross", 2), ("random", 2)], load=2.5)), (60, True, dict(world=dict(adjust_node_capacity=True), load=2.5)),
         (60, True, dict(events=6, event_kinds=["node_cap"], mix=[("merge", 2), ("cross", 1), ("random", 1)], load=2.5))]
    return lawcheck.jobs_from(P, tier, seed, ID)


def run(job):
    return lawcheck.run_law(job, ID)
