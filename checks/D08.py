"""D08: utility containers of the C++ interface have value semantics."""
from vplib import B, Exe

PID = "D08"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of operation histories on variants, optionals, spans and iterators with instance-counting values, failures at every construction, and a reference model"
NOTE = "All sequences of four (thorough: five) operations over 33 on two variants and 29 on two optionals, with values that count their instances, and each construction of the last operation of shorter sequences (three; thorough four) failing; values containing themselves to depth four; all spans over three values up to length four through every constructor; all sequences of three (thorough: four) operations on pairs of each kind of iterator (theory atoms, elements and terms, configuration and statistics keys and arrays, syntax-tree strings and nodes, trail and assignment) against positions."
RULE = ""
BUILD = ["sys/drv/cppval", "eng/drv/cppval"]
ASSUMPTIONS = ["the state of moved-from objects is unspecified but valid"]


def tasks(tier):
    k = 2 if tier == "quick" else 8
    out = [Exe([f"{B}/eng/drv/cppval", w, str(i), str(k)], lib="eng", name="%s-%d" % (w, i)) for w in ("variant", "optional") for i in range(k)]
    out.append(Exe([f"{B}/eng/drv/cppval", "nested"], lib="eng", name="nested"))
    out += [Exe([f"{B}/{l}/drv/cppval", "iterators"], lib=l, name="iterators-" + l) for l in ("sys", "eng")]
    return out
