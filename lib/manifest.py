"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "TLA+ Recognizer (RFC 5646 ABNF by derivatives, whole state graph, TLC) -> W-method replay on the real parser; recorded histories validated by TLC",
 "C02": "TLA+ Recognizer of all 15 productions, whole state graph -> W-method replay; recorded histories validated by TLC",
 "C03": "TLA+ Recognizer/Session -> every constructor replayed on model texts; recorded histories validated by TLC",
 "C04": "TLA+ Structure/Registry (Kind, registry) -> replay; generated behaviours and recorded histories (TLC)",
 "C05": "TLA+ ParseTree (unambiguous parse graph) -> component extraction compared on all subtag shapes; histories validated by TLC",
 "C06": "TLA+ ParseTree/Equivalence (Lossless, Closed) -> partition and closure replayed on all subtag shapes",
 "C07": "TLA+ ParseTree -> language split replayed; generated behaviours and recorded histories (TLC)",
 "C08": "TLA+ Iteration (two cursors, all interleavings, TLC) -> every interleaving replayed; recorded histories validated by TLC",
 "C09": "TLA+ ParseTree/Structure (ExtensionGet) -> replay on extension lists; recorded histories validated by TLC",
 "C10": "TLA+ ParseTree -> private use subtags replayed; recorded histories validated by TLC",
 "C11": "TLA+ Compare (lock-step comparator, TLC) -> every transition in every context replayed; recorded histories validated by TLC",
 "C12": "TLA+ Compare (total order laws, TLC) -> transitions and laws replayed; recorded histories validated by TLC",
 "C13": "TLA+ Collections/Session -> every edge replayed on hash/tree sets and maps; recorded histories validated by TLC",
 "C14": "TLA+ Conversion graph (all paths, TLC) -> conversion paths replayed; recorded histories validated by TLC",
 "C15": "TLA+ Recognizer/Session (ser, de) -> both serde directions replayed; recorded histories validated by TLC",
 "C16": "TLA+ Registry -> whole registry and its neighbourhood replayed; recorded histories validated by TLC",
 "C17": "TLA+ Registry (singleton table) -> all bytes, chars and pairs replayed; recorded histories validated by TLC",
 "C18": "TLA+ Recognizer graph -> literals compiled by rustc, accepted set compared with the model",
 "C19": "TLA+ Equivalence (CaseBlind) -> case-permuted twins of model texts compared structurally",
 "C21": "TLA+ Sharing (threads, buffers, questions; all interleavings, TLC) -> schedules drawn by TLC executed by threads; what they saw validated by TLC; fresh processes as reference",
 "C22": "TLA+ Compose (parts to text; TLC proves acceptance and recovery) -> every composition replayed on the real code",
 "C20": "all TLA+ graphs replayed under each feature set; observations compared",
}
NOTE = ("The specification is explored completely by TLC within the stated bounds; conformance of the code is established on the "
        "cases generated from it (and on recorded histories), not for every input. Trusts TLC, rustc, and the harness's projection.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{
   "property": p["id"], "quick_cmd": f"VERIF_TIER=quick ./check {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
   "technique": TECH[p["id"]], "level": "model_checking", "level_note": NOTE} for p in props],
 "not_applicable": [],
 "notes": "No hooks: the harness uses the public API only. Language: TLA+ (TLC). Known findings: known-findings.txt.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
