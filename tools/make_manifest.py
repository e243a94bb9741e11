"""Writes /verif/MANIFEST.json from the checks that exist. Run by hand after adding a check."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": "every schema of the bounded schema space x every value of the bounded value space x both byte orders, encoded by the real Python codec and compared with an independent reference encoder",
    "C02": "every schema x value of the bounded space encoded and decoded back by the real Python codec, values compared strictly",
    "C03": "canonical bytes of every schema x value decoded and re-encoded by the compiled C++ codec and by the Python codec",
    "C04": "layout numbers of every type of the bounded schema space in prophyc's model, in Python classes and in C++ constants compared with an independent reference layout",
    "C05": "sizes reported and bytes written by the compiled C++ encoders for every schema x value, in exact heap blocks under AddressSanitizer",
    "C06": "every single fault (and every double fault on short ones) of the encodings of the bounded space, plus all short strings, fed to the Python decoder",
    "C07": "every single fault (and every double fault on short ones) of the encodings of the bounded space, plus all short strings, fed to the C++ decoder under ASan and UBSan",
    "C08": "offsetof/sizeof of every member, part and union of the bounded schema space compiled into static assertions against the reference layout",
    "C09": "every schema x value of the bounded space: foreign-endian buffer swapped in place by the compiled code and compared with the native buffer",
    "C10": "breadth-first exploration of API operation histories on real messages against a reference model of the state",
    "C11": "every pair of values of the bounded space copied, every mutation applied afterwards to either side",
    "C12": "every valid schema of a bounded space and every single rule-breaking edit of it, run through prophyc, the interpreter and the compiler",
    "C13": "every token- and structure-level corruption of a set of schemas, includes, patches and options, run in fresh processes with a deadline",
    "C14": "every expression up to a bounded size through both evaluators and all back-ends against integer arithmetic",
    "C15": "every small acyclic definition graph x every permutation of the input",
    "C16": "every partition of small schemas into files x directory and working-directory arrangements",
    "C17": "every dimension form and patch script of a bounded set through the isar front-end against the same type in the prophy language",
    "C18": "text of every schema x value of the bounded space rendered by Python and by compiled C++ against a reference rendering",
    "C19": "little-, big- and native-endian encodings of every schema x value compared scalar by scalar",
    "C20": "every combination of hash seed, working directory and input order for a set of schemas, outputs compared byte by byte",
}
LEVEL = "model_checking"


def main():
    props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    have = [p for p in props if os.path.exists(os.path.join(HERE, "mc", "checks", p.lower() + ".py"))]
    manifest = {
        "version": 1,
        "setup_cmd": "cd /verif && ./setup.sh",
        "checks": [{
            "property": p,
            "quick_cmd": "cd /verif && ./check %s" % p,
            "thorough_cmd": "cd /verif && ./check %s --tier thorough" % p,
            "evidence_file": "/verif/evidence/%s.json" % p,
            "technique": "bounded exhaustive exploration of the real code: " + NOTES[p],
            "level": LEVEL,
            "level_note": "explicit enumeration of a bounded space on the implementation itself; oracle and bounds are in DESIGN.md",
        } for p in have],
        "not_applicable": [{"property": p, "reason": "the check for this property is not built yet"}
                           for p in props if p not in have],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
