import json
T="contract-based deductive verification of the real code (Kani proof harnesses with contracts, CBMC back end)"
notes={
"C01":"Proved for all inputs, modularly: introspection (which bytes the precompile verified), proof verification (against the contract of merkle_root), report and instruction level, each over symbolic buffers of unbounded length. Assumes the precompile's and the instructions sysvar's documented behaviour; both are compared with the runtime's own code, bounded (two entries, one account).",
"C02":"Proved for all pairs of payloads against a specification of conflicts written from the wire format; merkle_root is used by its contract (C05).",
"C03":"Proved for all conflicting pairs with well formed coding headers, all transaction positions; the runtime's own failures (sysvar or system program calls failing) are excluded explicitly.",
"C04":"Proved for all payloads of every length.",
"C05":"Proved for all payloads, variants and proof sizes 0..15 with a ghost observer of every hashed stream; SHA-256 itself is assumed.",
"C06":"Proved for all buffers of every length.",
"C07":"Proved for all clocks, schedules and slots, for a kind of proof of which only the trait is known.",
"C08":"Proved byte by byte (one arbitrary byte) for all reports, proofs and earlier account contents.",
"C09":"Proved for all account states, with address derivation as an uninterpreted function of the seeds; includes that another report leaves a recorded one as it is.",
"C10":"Proved for all account contents, clocks and destinations.",
"C11":"Proved for all balances and contents, including the same account passed twice.",
"C12":"Proved for all field values and all instruction data.",
"C13":"Proved for all field values, funders and rent parameters; the rent formula is an uninterpreted function of the length.",
"C14":"Proved for all account lists of up to five accounts (the instructions take at most four; the rest are ignored).",
"C15":"All panic, overflow and memory safety obligations of every function under contract, over symbolic buffers of every length.",
"C16":"A Verus lemma over contracts that Kani discharges on the code in the same run; assumes a monotone clock and epochs of the schedule's normal length.",
"C17":"Proved for all bytes, strings and error codes.",
"C19":"The contract of verify_proof (accepted exactly if in conflict, C01-C03) and a lemma that conflicts have no direction; where the contract is broken, and in the thorough run, a relational proof runs both orders on the same symbolic inputs.",
"C20":"Proved for all nodes, slots and kinds, with address derivation as an uninterpreted function of the seeds.",
}
checks=[]
for p,n in notes.items():
    c={"property":p,"quick_cmd":"python3 check.py %s --tier quick"%p,"thorough_cmd":"python3 check.py %s --tier thorough"%p,
       "evidence_file":"evidence/%s.json"%p,"technique":T+(" plus a Verus lemma" if p=="C16" else ""),"level":"proof","level_note":n}
    if p=="C16": c["theorems"]=["once::epochs_apart","once::never_reported_again"]
    checks.append(c)
import subprocess
commits=subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
m={"version":1,"setup_cmd":"python3 check.py --setup","hooks":{"guard":"cfg(kani)","enable":"cargo kani in /repo/program with SLASHING_VERIF_DIR=/verif/contracts (check.py does this)","source_commits":[c.split()[0] for c in commits if "verif hooks" in c]},
"checks":checks,
"not_applicable":[{"property":"C18","reason":"The client is asynchronous RPC and RocksDB ledger code (tokio, solana-client, solana-ledger); neither Kani nor Verus takes it, and its effects are on a remote cluster, outside any contract on the code."}],
"notes":"exit 2 = no answer (tool trouble). Violations carry a native failing case when the search finds one (replay/), else the verifier's output."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
