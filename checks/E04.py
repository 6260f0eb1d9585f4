"""E04: failing library calls and raising callbacks in Lua."""
import os
import tempfile

from vplib import B, VERIF, Exe

PID = "E04"
LEVEL = "fault_injection"
TECHNIQUE = "exhaustive single fault and raising callback enumeration on the real Lua binding through an interposed C API"
NOTE = "Every library call made by every operation of the scenario catalogue fails once, with each error code, with and without a message and with format characters, and every invocation of every callback raises each kind of Lua error; the error must reach the caller, handles must be closed and controls freed exactly once, queries answer as before. Every ordered pair of a catalogue of 160 invalid calls (control, backend, configuration, symbolic and theory atoms, symbols, models and their contexts, propagator initialisation) raises errors and leaves the objects and the control as they were. Only one failure per execution."
RULE = "one evaluation per (scenario, operation, failing call or callback invocation, kind of error); distinct_nontrivial counts distinct call sites and invocations"
BUILD = ["engine", "eng/lua/clingo.so", "lib/vpilua.so", "lib/vpi.so"]
ASSUMPTIONS = ["the library reports failures through its boolean results and error code as documented in clingo.h", "single failures only"]
VPI = [f"{B}/lib/vpi.so"]
SCEN = "symbols control solve conf stats backend theory context observer observer_backend propagator".split()
MIS = "ctl be conf sa m init th sym".split()


def tasks(tier):
    return [Exe(["lua5.4", f"{VERIF}/checks/luascen.lua", n, f"{VERIF}/checks/luafile.lp"], lib="eng", preload=VPI, name="lua " + n) for n in SCEN] + [
        Exe(["lua5.4", f"{VERIF}/checks/luamis.lua", n], lib="eng", preload=VPI, name="misuse " + n) for n in MIS]
