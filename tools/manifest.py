"""writes MANIFEST.json (run by hand after a check is added)"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing: "
CLAIMED = {
    "C01": (PBT + "generated types and values, differential oracle zod schema vs serde_json",
            "Search over generated type expressions and values; no exhaustiveness. Trusts zod 3, serde_json, "
            "and the value model (canonical values serde refuses are counted, not judged)."),
    "C02": (PBT + "generated struct definitions and values, differential oracle zod schema vs serde_json",
            "Search over generated definitions, attributes and values (with structural mutants); trusts zod 3, "
            "serde and the rendering of definitions. flatten is judged with a stand-in for extend() (finding)."),
    "C03": (PBT + "generated enum definitions and values, differential oracle zod schema vs serde_json",
            "Search over generated enums in all four representations; trusts zod 3 and serde."),
    "C04": (PBT + "generated type definitions and values, TypeScript compiler vs zod, value by value",
            "Search; the compiler judges literals of accepted values and of values of the wrong shape. Structural "
            "holes of TypeScript itself ({} types, integer-like keys) are excluded for the negative half."),
    "C05": (PBT + "generated legal programs and illegal definitions with legal twins, judged by the compiler",
            "Search over programs; why an illegal one is refused is not judged, its legal twin must compile. "
            "Generic types and cfg'd service methods are outside the documented feature set."),
    "C06": (PBT + "generated type graphs; values against serde, and marker values that only qualified names accept",
            "Search over cyclic and acyclic graphs over several namespaces; laziness is observed by evaluating each "
            "definition before the others exist. One definition may take 60 s and 4 GB to generate."),
    "C07": (PBT + "generated programs, the module of each backend taken apart and compared with the declarations",
            "Search over generated programs (namespaces, types and services in several modules); TypeScript's parser "
            "and checker and Node judge the module. Names that collide in TypeScript are not generated (findings)."),
    "C08": (PBT + "generated documentation, and the same program without it (metamorphic)",
            "Search over documentation texts and where they stand; how the end of a comment inside the text is made "
            "harmless is left open."),
    "C09": (PBT + "generated services, the generated client called with valid and wrong arguments against the real "
            "server, end to end",
            "Search over generated services and arguments; a wrong argument is one zod, the compiler or the server "
            "has to refuse. Results are compared as JSON; None, sets and maps as results are findings."),
    "C10": (PBT + "histories of requests on several connections against a sequential reference model",
            "Search over histories under a paused clock (every delay decided by the model) and over thread schedules "
            "of a real runtime; one hand-written backend of three namespaces (C09 generates services)."),
    "C11": (PBT + "histories of streams against a reference model in virtual time",
            "Search; items are judged one by one with their virtual time. With real threads only order, "
            "completeness and ownership are judged."),
    "C12": (PBT + "histories of streams, cancellations and teardown against a reference model in virtual time",
            "Search; dropping of server-side streams is observed with guards. An always ready stream counts as "
            "unstoppable when it emits 400000 items after its cancellation was sent."),
    "C13": (PBT + "malformed and unserviceable messages and disconnections between valid histories, reference model",
            "Search; the wire text is decoded as the WebSocket handler does (the handler itself: C14)."),
    "C14": (PBT + "histories of frames on several sockets against the reference model of direct submission",
            "Search over frame sequences on in-memory connections under a paused clock (full model), and over TCP "
            "loopback with real threads (order, completeness, ownership). Frames up to some 500 kB."),
    "C18": (PBT + "generated envelopes, bodies and payloads; round trips and an independent reading of the text",
            "Search; floats are compared as serde_json rereads them (its parser is off in the last digit); NaN is "
            "null by serde_json's convention; array forms of envelopes are not judged."),
    "C15": (PBT + "histories of calls, subscriptions and frames in the generated client, against a reference model",
            "Search with fast-check over a scripted WebSocket that follows the standard's rules; subscribers act "
            "while they are called. Error responses are ignored by the client by design; kinds are not crossed."),
    "C16": (PBT + "histories of calls, subscriptions, socket events and time in the generated client, against a "
            "reference model",
            "Search with fast-check; every socket, frame and timer is compared with the model after every step. "
            "Unsubscribing twice is generated only while somebody else listens."),
    "C17": (PBT + "generated programs, every listing of the registry compared with the declarations",
            "Search over generated programs; the schema and type texts of an entry are compared with what the type "
            "itself answers (C01-C06 judge those)."),
}
PENDING = "the check for it is still being built"


def main():
    checks, na = [], []
    for line in open(os.path.join(VERIF, "properties.jsonl")):
        p = json.loads(line)["id"]
        if p in CLAIMED:
            t, note = CLAIMED[p]
            checks.append({
                "property": p,
                "quick_cmd": "python3 tools/check.py %s" % p,
                "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p,
                "evidence_file": "evidence/%s.json" % p,
                "technique": t,
                "level": "exploration",
                "level_note": note,
            })
        else:
            na.append({"property": p, "reason": PENDING})
    out = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "checks": checks,
        "not_applicable": na,
        "notes": "checks build what they need from /repo's working tree into .target/; .work/ holds "
                 "generated crates and replay files. Exit 2 means the check could not give an answer.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
