import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
D="program/src/"
HK="cfg(kani) modules at the end of the source files (private items are under contract)"
p("C01","Only shreds signed by the accused node can be reported",
 "A duplicate block report is recorded only if, in the same transaction, the ed25519 precompile verified for each of the two submitted shreds a signature by the accused node, over exactly that shred's merkle root, and it is the signature the shred carries. The verification must be the instruction right before the slashing instruction and must really have covered the slashing instruction's own data. Nothing that a transaction's author controls (offsets, counts, padding, instruction indexes, extra entries, cross program invocation) makes an unsigned shred pass.",
 ["inputs","programs"],"every transaction: all instruction data, all contents of the precompile instruction and of the proof account, every current instruction index",
 "The tests try a handful of mutated offsets, keys and signatures; an attacker chooses all offsets, counts and positions freely and only needs one combination that passes.",
 [D+"sigverify.rs",D+"duplicate_block_proof.rs",D+"processor.rs",D+"state.rs"],
 [("instruction introspection",D+"sigverify.rs SignatureVerification::inspect_verifications, get_data_slice"),("both keys equal, both messages are 32 byte roots",D+"duplicate_block_proof.rs DuplicateBlockProofContext::unpack_context"),("key, roots, signatures compared with the shreds'",D+"duplicate_block_proof.rs sigverify_shreds"),("the accused node is the reported node",D+"processor.rs verify_proof_data")],
 observe=["result of the instruction","contents of the report account"],hook=HK)
p("C02","Only genuinely conflicting shreds can be reported",
 "A report is recorded only for two complete merkle shreds of the reported slot with the same shred version that no honest leader would both produce: different merkle roots for one erasure batch, overlapping erasure batches, a shred beyond the one marked last in the slot, inconsistent erasure configurations, or different leader-produced contents at the same index and type. Two copies of one shred, even with different retransmitter signatures or different bytes after the shred, are never a violation, and neither are any two shreds of one honest block.",
 ["inputs"],"every pair of payloads of any length and contents, every reported slot",
 "The tests build pairs with the real shredder from random data; they cannot enumerate the header combinations, lengths and variants for which the conflict rules must say no.",
 [D+"duplicate_block_proof.rs",D+"shred.rs",D+"processor.rs"],
 [("conflict rules",D+"duplicate_block_proof.rs check_shreds"),("payload comparison without the retransmitter signature",D+"shred.rs Shred::is_shred_duplicate"),("erasure configuration",D+"shred.rs erasure_meta, check_erasure_consistency, next_fec_set_index"),("verification before storing",D+"processor.rs verify_proof_data")],
 observe=["result of the instruction"],hook=HK)
p("C03","Every genuine violation can be reported",
 "If two shreds of the reported slot that were both signed by the accused node conflict, the signatures were verified by the precompile right before the report with its data in the report instruction, the slot is within the statute of limitations, the violation was not reported before and the report account is prefunded, then the report is accepted. This holds in whichever order the shreds are given, at any position in the transaction, and however the instruction and account data happen to be aligned in memory.",
 ["inputs","programs"],"every conflicting pair of well formed merkle shreds of all variants, in both orders, every position in the transaction",
 "The tests cover a few pairs per kind of conflict in one position; a rule that is too strict for some header combination, variant or order is not sampled.",
 [D+"duplicate_block_proof.rs",D+"shred.rs",D+"sigverify.rs",D+"processor.rs",D+"state.rs"],
 [("conflict rules",D+"duplicate_block_proof.rs check_shreds"),("instruction introspection",D+"sigverify.rs inspect_verifications"),("report instruction",D+"processor.rs process_instruction, verify_proof_data")],
 observe=["result of the instruction"],hook=HK)
p("C04","Shred headers are decoded exactly",
 "For every payload, exactly the merkle variants (data and coding; plain, chained, and chained with retransmitter signature) are decoded, and legacy and unknown variants are rejected. Slot, index, version, erasure batch, signature, last-in-slot flag and the coding header's numbers are the little-endian values at their wire positions, or an error if the payload is too short for them.",
 ["inputs"],"every byte string of every length",
 "The tests compare against the ledger's implementation on randomly generated well formed shreds only; truncated, mistyped and extreme headers are a different part of the input space.",
 [D+"shred.rs"],[("variant",D+"shred.rs ShredVariant::try_from"),("field layout",D+"shred.rs common_header!/data_header!/coding_header! getters")],observe=["decoded fields"],hook=HK)
p("C05","The merkle root commits to everything the leader produced",
 "The root computed for a shred is the result of hashing, with the leaf prefix, exactly the bytes from the end of the signature up to the merkle proof, and then, with the node prefix and in the order given by the leaf's place in its erasure batch, each of the proof's 20 byte entries. A root exists only if the payload is complete and the leaf's place fits the proof; for every other payload there is an error.",
 ["inputs"],"every payload of every length, every variant and all proof sizes from 0 to 15",
 "The tests compare roots of valid shreds of one batch size; wrong prefixes, truncated proofs, out of range leaf places and other proof sizes are not reachable from the shredder.",
 [D+"shred.rs"],[("proof and leaf offsets",D+"shred.rs proof_offset, capacity"),("leaf",D+"shred.rs merkle_node"),("fold over the proof",D+"shred.rs get_merkle_root, join_nodes"),("place in the batch",D+"shred.rs erasure_shard_index")],observe=["the root compared with the signed message"],hook=HK)
p("C06","Proof buffers are packed and unpacked exactly",
 "Packing two shreds gives their length-prefixed concatenation of the announced size, and unpacking gives back exactly the two shreds, whatever follows them in the buffer. A buffer that is too short for the lengths it announces is rejected, and no other is.",
 ["inputs"],"every buffer of every length and every pair of shreds up to 4 GiB",
 "The tests round-trip a few pairs; announced lengths near the end of the buffer or of the integer range are not tried.",
 [D+"duplicate_block_proof.rs"],[("unpacking",D+"duplicate_block_proof.rs DuplicateBlockProofData::unpack_proof"),("packing",D+"duplicate_block_proof.rs pack_proof, packed_len")],observe=["unpacked shreds","packed bytes"],hook=HK)
p("C07","Statute of limitations",
 "A violation is recorded only if its slot is not in the future and at most one epoch's number of slots (by the epoch schedule) before the current slot, for every clock, schedule and slot.",
 ["inputs"],"all 64 bit values of the clock's slot, the schedule's slots per epoch and the reported slot",
 "One test tries three clocks with the default schedule; boundaries and extreme values are not sampled.",
 [D+"processor.rs"],[("elapsed slots",D+"processor.rs verify_proof_data")],observe=["result of the instruction"],hook=HK)
p("C08","The stored report says exactly what was proved",
 "After a successful report, the report account belongs to the slashing program and contains exactly the format version, reporter, destination, current epoch, accused node, slot, kind of violation, and then the proof's two shreds, packed, and nothing else. No lamports move.",
 ["inputs"],"every submitted instruction, proof and clock, whatever the report account contained before",
 "The tests look at a few fields for one size of proof; they cannot see a byte that is wrong for other contents, lengths or earlier account contents.",
 [D+"processor.rs",D+"state.rs"],[("report assembled from the instruction",D+"processor.rs process_instruction"),("account resized and written",D+"state.rs store_violation_report, write_violation_report")],[("ViolationReport","stored report: 114 bytes, then the packed proof",D+"state.rs")],["contents of the report account"],HK)
p("C09","A violation is reported at most once, at its own funded account",
 "A report is recorded only in the account at the address derived from the accused node, the slot and the kind of violation, only if that account does not already hold a report, only if it holds at least the rent-exempt minimum for the report with its proof, and only if it is not itself the destination of the refund. A failed or repeated report never changes an existing report.",
 ["inputs","histories"],"every node, slot, destination and state of the report account",
 "The tests report once and repeat once; other account states (foreign owner, prefunded to just below the minimum, stale data) are not covered.",
 [D+"state.rs",D+"address.rs"],[("address check, duplicate check, destination check, prefund check",D+"state.rs store_violation_report, violation_account_exists"),("seeds",D+"address.rs ViolationReportAddress")],[("violation report account","at most one report per node, slot and kind",D+"state.rs")],["result of the instruction","contents of the report account"],HK)
p("C10","Reports are closed only after three epochs and only to their destination",
 "A report can be closed only if it is a report of this program that was created at least three epochs before the current epoch, and only into the destination account it names, for all epochs and all contents of the account.",
 ["inputs","histories"],"every account content, every clock epoch, every destination",
 "The tests close at a few epochs with one destination; extreme epochs, short accounts and foreign accounts are a different matter.",
 [D+"processor.rs",D+"state.rs"],[("owner and data checks",D+"processor.rs process_instruction"),("age and destination",D+"state.rs close_violation_report")],observe=["result of the instruction"],hook=HK)
p("C11","Closing conserves lamports and empties the report",
 "Closing a report moves all of its lamports, and no others, to the destination, leaves the report account empty and owned by the system program, and touches nothing else of the destination; a report that is old enough can always be closed to its destination. No lamports are created or lost, even if an account is passed twice.",
 ["inputs"],"all balances and account contents, including the same account passed twice",
 "The tests close one report with ordinary balances.",
 [D+"state.rs"],[("transfer, resize and reassignment",D+"state.rs close_violation_report")],observe=["balances, owner and data of both accounts"],hook=HK)
p("C12","Instructions are encoded and decoded exactly",
 "The instruction builders produce exactly the documented bytes and account lists (keys, signer and writable flags, order), and the program reads back from the bytes exactly what the builder was given. Empty and unknown instructions, and reports that are too short or too long, are rejected, and the proof is read at the given offset of the proof account or rejected if that lies outside it.",
 ["inputs"],"all instruction data, all field values, all proof offsets",
 "The tests encode one constant instruction per type and decode a few bad ones.",
 [D+"instruction.rs",D+"processor.rs"],[("encoding",D+"instruction.rs encode_instruction, duplicate_block_proof, close_violation_report"),("decoding",D+"instruction.rs decode_instruction_type, decode_instruction_data")],observe=["built instructions","result of the instruction"],hook=HK)
p("C13","The client's prebuilt instructions verify and prefund the report",
 "The three instructions that the library builds for a reporter are, for all field values, a transfer to the report account of the rent-exempt minimum for the largest possible report, a precompile instruction that verifies exactly the two signatures over the two roots with the accused node's key as they stand in the third instruction, and the report itself. Together they satisfy what the program demands of the transaction.",
 ["inputs","configurations"],"all field values, with and without a separate funder, all rent parameters",
 "The tests run the builder on a few random proofs; offsets and amounts are never compared with what the program needs for the largest proof.",
 [D+"instruction.rs",D+"sigverify.rs",D+"state.rs"],[("prefund, sigverify and report",D+"instruction.rs duplicate_block_proof_with_sigverify_and_prefund"),("offsets",D+"sigverify.rs Ed25519SignatureOffsets::to_instruction, "+D+"instruction.rs sigverify_data_offset"),("size of the largest report",D+"state.rs ViolationReport::size")],observe=["built instructions"],hook=HK)
p("C14","Accounts are validated before they are trusted",
 "An instruction takes effect only if all its accounts are given, the instructions sysvar and the system program are the real ones, and an account that is closed is a complete report owned by this program. Missing accounts, impostors and short accounts lead to an error without effects.",
 ["inputs"],"every list of accounts (any number, keys, owners, lengths)",
 "The tests substitute a wrong account here and there; combinations and short accounts are not covered.",
 [D+"state.rs",D+"processor.rs"],[("account list",D+"state.rs SlashingAccounts::new"),("closed account",D+"processor.rs process_instruction")],observe=["result of the instruction"],hook=HK)
p("C15","Malformed input is an error, never a crash",
 "Whatever bytes the instruction, the proof account, the precompile instruction and the report account contain, the program returns success or an error; it never panics, overflows, or reads outside its buffers.",
 ["inputs"],"all byte strings of all lengths in every input, all account states",
 "Panics need particular lengths or header values (an account of one byte, indexes near the end of the integer range); tests with well formed data never meet them.",
 [D+"processor.rs",D+"state.rs",D+"duplicate_block_proof.rs",D+"shred.rs",D+"sigverify.rs",D+"instruction.rs"],[("checked arithmetic and slicing",D+"shred.rs, "+D+"sigverify.rs, "+D+"state.rs")],observe=["termination of the instruction"],hook=HK)
p("C16","A closed report can never be recorded again",
 "Once a report has been recorded and closed, no later transaction can record the same violation again, because by then the statute of limitations has passed; so closing a report cannot be used to reset the once-per-violation rule.",
 ["histories"],"every history of report, close and report, for every length of epoch, with epochs of the normal length",
 "It is a relation between three instructions executed epochs apart, which depends on the statute, the recorded epoch and the waiting time together.",
 [D+"processor.rs",D+"state.rs"],[("statute",D+"processor.rs verify_proof_data"),("recorded epoch",D+"processor.rs process_instruction"),("waiting time",D+"state.rs close_violation_report")],observe=["results of the instructions"],hook=HK)
p("C17","Kinds of violation and error codes are stable",
 "The kind of violation is encoded as 1 for a duplicate block and 0 for an invalid kind, every other byte is read as invalid, names are printed and parsed consistently, and every error is reported to the caller as its own distinct custom code.",
 ["inputs"],"all 256 bytes, all strings, all errors",
 "No test covers the encoding of kinds, their names, or the error codes other than through equality of the same constants.",
 [D+"state.rs",D+"error.rs"],[("kinds",D+"state.rs ProofType"),("errors",D+"error.rs SlashingError")],observe=["stored kind of violation","returned error codes"],hook=HK)
p("C18","The command line client reports what it is asked to report",
 "The command line client submits exactly one report for the violation it is given (from a proof account, or from the shreds of a local ledger), writes the whole proof to the proof account before referring to it, and closes only the reports it is asked to close.",
 ["configurations","fault_sequences"],"all command lines, all RPC failures, all ledger contents",
 "The client has no tests that reach the network paths.",
 ["clients/cli/src/main.rs"],[("commands","clients/cli/src/main.rs")],observe=["submitted transactions"])
p("C19","Verdict and storage do not depend on the order of the shreds",
 "Exchanging the two shreds (and their verified signatures) of a proof with well formed headers never changes whether the proof is accepted.",
 ["inputs"],"every pair of payloads with well formed coding headers, every slot",
 "A relation between two executions; the tests swap a few sampled pairs.",
 [D+"duplicate_block_proof.rs"],[("conflict rules in both directions",D+"duplicate_block_proof.rs check_shreds")],observe=["result of the instruction"],hook=HK)
p("C20","One address per violation",
 "The address of a report is derived from the accused node, the slot and the kind of violation alone; the library, the instruction builders and the program derive the same one, with seeds that differ for different violations.",
 ["inputs"],"all nodes, slots and kinds of violation",
 "The tests derive a few addresses with the same function on both sides.",
 [D+"address.rs",D+"lib.rs",D+"instruction.rs",D+"state.rs"],[("seeds",D+"address.rs ViolationReportAddress, "+D+"lib.rs get_violation_report_address")],observe=["account keys of built instructions","result of the instruction"],hook=HK)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import re
for x in P:
    n=len(re.findall(r'[.!?](\s|$)',x['statement'])); assert len(x['title'])<=80,x['id']
    if n>3: print(x['id'],n)
