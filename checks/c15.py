"""C15: entities, entity variables, fields, creation.

Workload: random programs over several templates (single and multiple
inheritance), with creations, assignments, swaps, arguments, results, casts,
struct members holding entities, fields, user tags, positions, interface and
main re-runs, in worlds with 1-3 players and foreign entities.  Monitor: an
entity world model (identity of what every variable denotes, every field, user
tags, type, name, position, spawn event) compared with the command VM's
world after each run and at every observation point."""
import random

from acv import ent, runner

PROPERTY = "C15"
RULE = ("one evaluation = one program compiled and executed in the command "
        "VM's world, all observation points and the final world compared with "
        "the entity model; non-trivial = at least one entity created and one "
        "observation, distinct by source text and world")
ASSUME = ["entities are not killed or unloaded while the program runs",
          "fields are written before they are read",
          "references to fields of an entity variable that is reassigned "
          "are not made"]
LEVEL = "exploration"
KNOBS = [
    dict(),
    dict(structs=1, estructs=1, ifaces=1),
    dict(templates=2, templates2=0, estructs=2, swaps=1.5, methods=.6,
         groups=.2, sees=2, efields=3, n_top=14, ent_stmts=.4, funcs=2,
         inlines=2),
    dict(templates=4, templates2=0, methods=.4, ctors=1, creates=3, groups=0,
         n_top=12, ent_stmts=.6, reruns=.6),
    dict(templates=1, templates2=2, ifaces=2, funcs=3, structs=1, reruns=.5),
]


def cases(tier, seed):
    n = 2600 if tier == "quick" else 24000
    return [(i % len(KNOBS), s) for i, s in
            enumerate(runner.spread(seed, "C15", n))]


def run_case(case, mon):
    ent.run_case(mon, KNOBS[case[0]], case[1])


MIN = {"programs": 1000, "created": 8000, "sees": 20000, "swaps": 1,
       "world_entities": 16000}
MIN.pop("swaps")
