"""C17: entity groups.

Workload: random programs dominated by group operations (add, remove, select,
drop, filter, extend, subtract, intersect, copy, clear, assignment, swap, +=,
-=, to_single, size, is_empty, has, for-in, ExternEngroup and resolve), with
groups as variables, arguments, results and struct members.  Monitor: groups
as Python sets in the entity world model; members of every live group listed
at observation points by an iteration that names each member."""
from acv import ent, runner

PROPERTY = "C17"
RULE = ("one evaluation = one program compiled and executed, size and members "
        "of the groups compared with sets at every observation point; "
        "non-trivial = at least one group operation, distinct by source text "
        "and world")
ASSUME = ["entities are not killed or unloaded while the program runs",
          "players are alive (selectors skip dead ones)"]
LEVEL = "exploration"
KNOBS = [
    dict(templates=2, templates2=0, methods=.5, groups=3, ent_stmts=.85,
         tags=1, n_top=14, funcs=1, inlines=1, limits=.35),
    dict(templates=2, templates2=0, methods=.7, groups=1, externs=5,
         ent_stmts=.85, tags=1, n_top=16, funcs=1, inlines=1,
         limits=.2),
    dict(templates=3, templates2=0, methods=.3, groups=5, ent_stmts=.9,
         tags=1.5, creates=.6, n_top=20, funcs=0, inlines=0, reruns=.4,
         limits=.3),
    dict(templates=2, templates2=1, methods=.5, groups=3, ent_stmts=.7,
         tags=1, n_top=12, funcs=2, inlines=2, estructs=1, ifaces=1,
         swaps=1),
]


def cases(tier, seed):
    n = 2600 if tier == "quick" else 24000
    return [(i % len(KNOBS), s) for i, s in
            enumerate(runner.spread(seed, "C17", n))]


def run_case(case, mon):
    ent.run_case(mon, KNOBS[case[0]], case[1], need="groupops")


MIN = {"programs": 1000, "groupops": 6000, "members": 2000, "resolved": 50,
       "limits": 600}
