#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification (Verus) of functions extracted from the real code"
BASE = "Verus discharges, for all inputs, every contract on the extracted functions that carries this property; assumed: contracts/shim.rs (std, serde_json, AES-GCM, HMAC, scrypt, base64, enumset, wildmatch, terminal I/O) and the extraction (DESIGN.md). A bounded run of the real code (labelled bounded) tests these assumptions. "
N = {
"C01": "to_password, derive_password, get: shape of the password proved for every byte string, class selection and length >= 1.",
"C02": "to_password, derive_bits, salt, get: equal to the documented spec function; scrypt itself is assumed.",
"C06": "set_stored/set_generated/get/has and the encryption and JSON layers below; AES-GCM and serde round trips assumed.",
"C07": "frame postconditions over the whole key-value map of the storage for every operation; HMAC collision freedom on the names in use is a premise.",
"C08": "normalisation, alias resolution, revision folding and key construction; injectivity lemma under HMAC collision freedom.",
"C09": "set_alias/remove_alias/get_alias contracts and the invariant alias_wf preserved by every operation.",
"C10": "set_notes/get_notes contracts; the command line part is bounded.",
"C11": "locked clause in the postcondition of every operation; lock, unlock and reset.",
"C12": "unlock and reset contracts against key derivation and decryption.",
"C13": "encrypt_data, keys and reset contracts: every value written is a fresh encryption; randomness of the generator assumed.",
"C14": "saved() ghost state of the storage: every operation's success implies saved() == data(); refusals leave both unchanged; flush contract of LocalStorageIO.",
"C15": "load and flush contracts against the file grammar; serde's derived (de)serialisers are assumed and exercised by the bounded run.",
"C16": "list and list_sites return exactly the selection of the entries, each once; wildmatch assumed.",
"C17": "no-panic obligations and error clauses of every function reading stored values.",
}
EX = json.load(open(f"{V}/tools/manifest_extra.json")) if os.path.exists(f"{V}/tools/manifest_extra.json") else {"notes": {}, "na": {}}
N.update(EX["notes"])
checks = [{"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}", "evidence_file": f"evidence/{p}.json",
           "technique": TECH, "level": "proof", "level_note": BASE + N[p]} for p in sorted(N)]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
           "not_applicable": [{"property": p, "reason": r} for p, r in sorted(EX["na"].items())],
           "notes": "No hooks in /repo: the functions are extracted from its current sources on every run."}, open(f"{V}/MANIFEST.json", "w"), indent=1)
