"""Known findings of the engine: an indicator that is due inside the text of a rule is lost.

The specification describes the engine as it is (LouisClaims.Lost); these are the histories that show it."""
import run
from rules import cps

BASE = "space \\s 0\nlowercase a 1\nlowercase b 12\nlowercase c 14\nuppercase A 17\nuppercase B 127\nuppercase C 147\ndigit 1 2\ndigit 2 23\nlitdigit 1 2\nlitdigit 2 23\n"
A, B, C, N2, X = 0x2801, 0x2803, 0x2809, 0x2806, 0x2838     # X: dots 456, what the rule gives
# property: (name, table, input, spans, what is observed)
LOST = {
    "P10": ("numsign", BASE + "numsign 3456\nalways a1 456\n", "a12", [], [X, N2]),
    "P11": ("endcaps", BASE + "begcaps 6\nendcaps 6-3\nalways bc 456\n", "ABc", [], [0x2820, 0x2841, X]),
    "P12": ("endemph", BASE + "begemph italic 46\nendemph italic 46-3\nalways ab 456\n", "ab", [{"class": "italic", "s": 0, "e": 1}], [0x2828, X]),
    "P14": ("begcomp", BASE + "begcomp 46\nendcomp 46-3\ncompbrl bc\nalways a\\sb 456\n", "a bc", [], [X, C, 0x2828, 0x2804]),
}


def still(pid, binary, work):
    if pid not in LOST:
        return ()
    name, src, text, spans, seen = LOST[pid]
    j = {"id": 1, "src": src, "runs": [{"dir": "f", "inp": cps(text), "spans": spans}]}
    run.observe(binary, [j], work)
    return (name,) if j["obs"][0].get("v") == seen else ()
