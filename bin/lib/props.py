"""Which machinery decides which property."""
from alloc import alloc_check, PROFILES
from kit import kit_check

DEAD = ["panic", "hang", "crash", "shape", "malformed"]
FLOW = ["use", "interf", "destroyed", "edit-none-alloc", "edit-unsorted", "edit-past-end", "edit-offsets",
        "edit-stack-to-stack", "edit-class", "edit-after-terminator"] + DEAD
COMMON = ["mix", "small", "constraint", "params", "slots", "straight", "tight", "big"] * 5 + ["wide", "huge"]

PROPS = {
    "C01": alloc_check(["ion"], FLOW, COMMON, ["checked", "plain"], quick=(40, 160, 8)),
    "C02": alloc_check(["fast"], FLOW, COMMON, ["checked", "plain"], quick=(40, 160, 8)),
    "C03": alloc_check(["ion", "fast"], ["constraint"], ["constraint", "small", "mix", "straight", "tight"] * 2 + ["wide"], ["plain"]),
    "C04": alloc_check(["ion", "fast"], ["interf", "destroyed"], ["constraint", "small", "mix", "slots", "tight"], ["plain"],
                       quick=(30, 160, 60)),
    "C05": alloc_check(["ion", "fast"], ["edit-"], COMMON, ["plain"]),
    "C06": alloc_check(["ion", "fast"], ["slot"], ["slots", "params", "mix", "big"], ["plain"], small_scope=False),
    "C07": alloc_check(["ion", "fast"], ["debug", "debug-shape", "debug-missing"], ["debug"], ["plain"], small_scope=False),
    "C10": alloc_check(["ion", "fast"], DEAD + ["toomany", "rejected"],
                       ["tight", "small", "constraint", "mix", "straight", "params"] * 2 + ["wide"], ["checked"]),

    "C08": kit_check([("session", "Session")], crate="harness-io", binary="ravio", hooks=False),
    "C09": kit_check([("ssa", "Ssa")]),
    "C20": kit_check([("transport", "Transport")], crate="harness-io", binary="ravio", hooks=False, tool=True,
                     quick=(20, 60)),
    "C11": kit_check([("checker", "Checker")], crate="harness", binary="rav", hooks=False),
    "C12": kit_check([("par", "MoveMachine")]),
    "C13": kit_check([("full", "MoveMachine")]),
    "C15": kit_check([("graph", "FlowGraph")]),
    "C16": kit_check([("sets", "Containers")]),
    "C17": kit_check([("pregs", "Containers"), ("vals", "ValueTypes")]),
    "C19": kit_check([("enum", "Enumeration")]),
    "C18": kit_check([("lists", "Containers")]),
    "C21": kit_check([("choice", "Containers")]),
    "C14": kit_check([("elim", "Eliminator")], designs=[("EliminatorDesign", ["EliminatorDesign.cfg"])]),
}
