import math
from vmon import lawcheck
ID = "P07"
RULE = lawcheck.RULE
TECHNIQUE = "online step monitor for obligations (work conservation, chosen link, priority order) plus a sequential z-test of every observed merge draw against the priorities"
LEVEL_NOTE = "Exploration: every node crossing and every held head of the executions generated is judged. The proportionality of merge draws is a statistical test (|z|>5.5 over thousands of draws; false alarm < 1e-7, seed fixed)."
ASSUME = ["the monitor reads the live state through public attributes at the end of every step", "the extension is compiled by the check from the current tree with g++ -O1 instead of -O3"]
REQUIRED = ['served-head', 'second-head', 'blocked-head', 'merge-contest', 'crossing', 'scenarios-python', 'scenarios-cpp', 'merge-draws']

MERGEY = dict(mix=[("merge", 3), ("ring", 1), ("cross", 1), ("random", 1)], load=2.5)


def jobs(tier, seed):
    P = [(60, False, {}), (110, False, dict(topo="merge", hard=False, load=2.5, steps=220, deltan=1)), (60, False, dict(MERGEY, hard=True)), (40, False, dict(MERGEY, hard=False)),
         (30, False, dict(topo="cross", events=6)), (60, True, {}), (160, True, dict(topo="merge", hard=False, load=2.5, steps=220, deltan=1)), (60, True, dict(MERGEY, hard=True)), (40, True, dict(MERGEY, hard=False)),
         (30, True, dict(topo="cross", events=6)), (40, False, dict(MERGEY, events=8, event_kinds=["prio", "prio", "cap_out"])), (40, True, dict(MERGEY, events=8, event_kinds=["prio", "prio", "cap_out"]))]
    return lawcheck.jobs_from(P, tier, seed, ID)


def run(job):
    def extra(m, spec, r):
        eng = "cpp" if job["cpp"] else "python"
        for key, d, v in m.merge_stat:
            r["count"]["merge-draws"] = r["count"].get("merge-draws", 0) + 1
            k = f"z-{eng}-{key}"
            r["count"][k + "-sum"] = r["count"].get(k + "-sum", 0.0) + d
            r["count"][k + "-var"] = r["count"].get(k + "-var", 0.0) + v
    return lawcheck.run_law(job, ID, extra)


def final(res, count):
    out, zs = [], {}
    for k in [k for k in count if k.startswith("z-") and k.endswith("-sum")]:
        var = count[k[:-4] + "-var"]
        if var > 20:
            z = count[k] / math.sqrt(var)
            zs[k[2:-4]] = round(z, 3)
            if abs(z) > 5.5:
                out.append(("merge-proportion", f"{k[2:-4]}: the inlink with the highest priority was served {count[k]:+.0f} times compared with the proportional share ({z:+.1f} standard deviations over draws of variance {var:.0f})", None))
    return dict(viol=out, merge_z=zs)
