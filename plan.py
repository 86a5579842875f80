"""What each check runs."""

ASSUMPTIONS = [
    "regular expressions, strings, host names and percent-encodings of the vocabulary in harness/gen.go and harness/profiles.go",
    "net/http, net/url and regexp of the installed Go",
]

CONSTANTS = """CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
CONSTANT Pats <- MCPats
CONSTANT EscTable <- MCEsc
CONSTANT Impls <- MCImpls
CONSTANT MethodOrder <- MCMethods
"""


def model(name, quick, thorough, invariants=""):
    """A bounded model: spec/MC<name>.tla explored to a depth with a vocabulary."""
    def bounds(b, timeout, workers):
        return {"consts": {"Depth": b[0], "Wide": "TRUE" if b[1] else "FALSE"},
                "timeout": timeout, "workers": workers}
    return {"name": name, "module": "MC%s.tla" % name,
            "cfg": CONSTANTS + "".join("CONSTANT %s <- %s%s\n" % (k, name, k) for k in ("Setup", "Menu", "Probes"))
            + "INVARIANT Shape Judged %s\n" % invariants,
            "quick": bounds(quick, 240, 1), "thorough": bounds(thorough, 7200, 2)}


MODELS = {
    "Route": model("Route", (2, True), (3, True)),
    "Conf": model("Conf", (2, False), (2, True)),
    "Reg": model("Reg", (4, True), (4, True)),
    "Mw": model("Mw", (1, False), (1, True), "Adapters"),
    "Meth": model("Meth", (2, True), (3, True)),
    "Tmpl": model("Tmpl", (3, False), (3, True), "Templates"),
    "Pool": {"name": "Pool", "module": "MCPool.tla",
             "cfg": CONSTANTS + "INVARIANT Exclusive Undisturbed Emit\n",
             "quick": {"consts": {"Count": 2, "Kinds": "{1, 2, 3, 4, 7}"}, "timeout": 240, "workers": 1},
             "thorough": {"consts": {"Count": 2, "Kinds": "1..8"}, "timeout": 7200, "workers": 2}},
}

PROPS = {}
for k in range(1, 21):
    PROPS["C%02d" % k] = {"profile": "C%02d" % k, "quick": {"n": 2000}, "thorough": {"n": 40000}}
for k, n in {"C04": 3600, "C05": 3600, "C06": 1800, "C11": 2200, "C12": 2200, "C13": 2600,
             "C16": 2600, "C17": 2600, "C18": 2600, "C19": 2200}.items():
    PROPS[k]["quick"]["n"] = n
for k in ("C06", "C11", "C12", "C19"):
    PROPS[k]["thorough"]["n"] = 24000
PROPS["C06"]["parallel"] = True
PROPS["C19"]["parallel"] = True

for m, ps in {"Route": "C01 C02 C03", "Conf": "C07 C08 C09 C16", "Reg": "C13 C14 C15 C20",
              "Mw": "C11 C12 C17 C18 C19", "Meth": "C10 C18", "Tmpl": "C03 C04 C05", "Pool": "C06"}.items():
    for k in ps.split():
        PROPS[k].setdefault("models", []).append(m)
