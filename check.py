#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] | check.py --setup | check.py --list

Decides one property: runs the Kani proof harnesses (contracts) that carry it over
the current source of /repo, and for C16 the Verus lemma over those contracts.

A failed obligation is a violation of the property it is tagged with ("[C02] ...");
untagged obligations (panics, overflows, memory safety) belong to C15.  What the
verifier rejects is then searched for natively (replay/): a case found is the replay
file, otherwise the replay file carries the failed obligations and the verifier's
output.

exit 0: every obligation discharged;  1: violation;  2: no answer (tool trouble).
Where the verifier gives no answer for some harness (the source no longer has a private
function that the harness names, or a solver ran out of time), a bounded stand-in takes
its place: a longer native search on the real code.  If that finds nothing the exit code
is 0, the output says that the property was NOT PROVED on this tree, and the evidence
file's level is "exploration".
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SLASHING_REPO", "/repo")
CACHE = os.environ.get("SLASHING_CACHE", os.path.join(VERIF, ".cache"))
T0 = time.time()
BUDGET = 850.0
CORES = max(2, min(8, os.cpu_count() or 8))

# harness -> (contract file, functions of /repo that it puts under contract)
H = {
    "shred::verif::decode": ("Shred::new_from_payload", "ShredVariant::try_from", "Shred getters (slot, index, version, fec_set_index, signature, last_in_slot, num_data_shreds, num_coding_shreds, position, shred_type)", "Shred::erasure_meta", "Shred::next_fec_set_index"),
    "duplicate_block_proof::verif::verify_proof": ("DuplicateBlockProofData::verify_proof", "sigverify_shreds", "check_shreds", "Shred::is_shred_duplicate", "Shred::check_erasure_consistency", "Shred::erasure_meta", "Shred::next_fec_set_index"),
    "duplicate_block_proof::verif::verify_proof_swapped": ("DuplicateBlockProofData::verify_proof",),
    "duplicate_block_proof::verif::conflicts_are_symmetric": (),
    "duplicate_block_proof::verif::honest_blocks_have_no_conflicts": (),
    "duplicate_block_proof::verif::unpack_proof": ("DuplicateBlockProofData::unpack_proof",),
    "duplicate_block_proof::verif::pack_proof": ("DuplicateBlockProofData::pack_proof", "DuplicateBlockProofData::packed_len"),
    "duplicate_block_proof::verif::introspection_any_caller": ("DuplicateBlockProofData::unpack_proof_and_context", "DuplicateBlockProofContext::unpack_context", "SignatureVerification::inspect_verifications", "SignatureVerification::get_data_slice", "SignatureVerification::new"),
    "duplicate_block_proof::verif::introspection_top_level": ("DuplicateBlockProofData::unpack_proof_and_context", "DuplicateBlockProofContext::unpack_context", "SignatureVerification::inspect_verifications", "SignatureVerification::get_data_slice"),
    "duplicate_block_proof::verif::ed25519_precompile": (),
    "processor::verif::report": ("verify_proof_data", "store_violation_report", "SlashingAccounts::violation_account_exists", "SlashingAccounts::write_violation_report", "ViolationReportAddress::new", "ViolationReportAddress::seeds", "ViolationReport::packed_len"),
    "processor::verif::report_header": ("store_violation_report", "SlashingAccounts::write_violation_report"),
    "processor::verif::report_proof": ("store_violation_report", "SlashingAccounts::write_violation_report"),
    "processor::verif::report_repeated": ("verify_proof_data", "store_violation_report"),
    "processor::verif::instruction_report": ("process_instruction", "SlashingAccounts::new", "decode_instruction_type", "decode_instruction_data", "DuplicateBlockProofInstructionData::offset"),
    "processor::verif::instruction_report_lamports": ("process_instruction", "decode_instruction_type", "decode_instruction_data"),
    "processor::verif::instruction_close": ("process_instruction", "close_violation_report (processor)"),
    "processor::verif::instruction_close_to_itself": ("process_instruction", "close_violation_report (processor)"),
    "instruction::verif::encode_report": ("duplicate_block_proof", "encode_instruction"),
    "instruction::verif::encode_close": ("close_violation_report (instruction)", "encode_instruction"),
    "instruction::verif::decode": ("decode_instruction_type", "decode_instruction_data"),
    "instruction::verif::build_transaction": ("duplicate_block_proof_with_sigverify_and_prefund", "Ed25519SignatureOffsets::to_instruction", "DuplicateBlockProofInstructionData::sigverify_data_offset"),
    "instruction::verif::client_transaction": ("duplicate_block_proof_with_sigverify_and_prefund", "Ed25519SignatureOffsets::to_instruction", "DuplicateBlockProofData::unpack_proof_and_context", "SignatureVerification::inspect_verifications"),
    "address::verif::public_address": ("get_violation_report_address",),
    "state::verif::report_fields": ("ViolationReport::version", "ViolationReport::epoch", "ViolationReport::slot", "ViolationReport::violation_type", "ViolationReport::size", "ViolationReport::packed_len"),
    "state::verif::proof_type": ("ProofType::from(u8)", "u8::from(ProofType)", "ProofType::proof_account_length"),
    "state::verif::proof_type_names": ("ProofType::from_str", "ProofType::violation_str"),
    "state::verif::system_instructions": (),
    "state::verif::instructions_sysvar": (),
    "state::verif::error_codes": ("ProgramError::from(SlashingError)",),
}
for k in range(16):  # call k of the hash function is observed
    H["shred::verif::merkle_root_%02d" % k] = (
        "Shred::merkle_root", "Shred::proof_offset", "Shred::capacity", "Shred::merkle_node", "Shred::erasure_shard_index",
        "Shred::merkle_proof", "Shred::get_merkle_root", "Shred::join_nodes")
INTRO = ["duplicate_block_proof::verif::introspection_any_caller"]
INTRO_OK = ["duplicate_block_proof::verif::introspection_top_level"]
VERIFY = ["duplicate_block_proof::verif::verify_proof"]
REPORT = ["processor::verif::report", "processor::verif::instruction_report"]
STORED = ["processor::verif::report_header", "processor::verif::report_proof"]
CLOSE = ["processor::verif::instruction_close", "processor::verif::instruction_close_to_itself"]
MERKLE = [h for h in H if "merkle_root" in h]
DECODE = ["shred::verif::decode"]
PACK = ["duplicate_block_proof::verif::unpack_proof", "duplicate_block_proof::verif::pack_proof"]
# the runtime's part, for a bounded number of entries and accounts
RUNTIME = ["duplicate_block_proof::verif::ed25519_precompile", "state::verif::instructions_sysvar"]
BOUNDED = {RUNTIME[0]: "precompile instructions of at most 2 entries, 3 top level instructions",
           RUNTIME[1]: "instructions with at most 1 account"}
INSTR = [h for h in H if h.startswith("instruction::")]

# property -> (obligations that carry it: a regex over their descriptions,
#              harnesses (quick), further harnesses (thorough) and their regex)
PROPS = {
    "C01": (r"\[C01\]", INTRO + VERIFY + REPORT + RUNTIME[:1], MERKLE + DECODE + RUNTIME[1:], r"\[C0[15]\]|\[C04\] signature"),
    "C02": (r"\[C02\]", VERIFY + ["duplicate_block_proof::verif::honest_blocks_have_no_conflicts"] + REPORT, MERKLE + DECODE + PACK, r"\[C0[456]\]"),
    "C03": (r"\[C03\]", INTRO_OK + VERIFY + REPORT, MERKLE + PACK + RUNTIME, r"\[C0[356]\]"),
    "C04": (r"\[C04\]", DECODE, [], None),
    "C05": (r"\[C05\]", MERKLE, [], None),
    "C06": (r"\[C06\]", PACK + INTRO, [], None),
    "C07": (r"\[C07\]", REPORT[:1], REPORT[1:] + STORED, r"\[C08\]"),
    "C08": (r"\[C08\]", REPORT + STORED + ["state::verif::report_fields"], PACK + ["processor::verif::instruction_report_lamports"], r"\[C06\]"),
    "C09": (r"\[C09\]|\[C20\] the address", REPORT[:1] + ["processor::verif::report_repeated", "address::verif::public_address", "state::verif::system_instructions"], REPORT[1:] + STORED, r"\[C08\]"),
    "C10": (r"\[C10\]", CLOSE, [], None),
    "C11": (r"\[C11\]", CLOSE, [], None),
    "C12": (r"\[C12\]", INSTR[:4] + REPORT[1:], [], None),
    "C13": (r"\[C13\]|\[C12\]|\[C20\]", INSTR[3:] + ["state::verif::report_fields", "state::verif::system_instructions"], INTRO_OK + REPORT + RUNTIME[:1], r"\[C03\]"),
    "C14": (r"\[C14\]", REPORT[1:] + CLOSE, [], None),
    "C15": (r"^(?!\[C\d\d\])", DECODE + MERKLE + VERIFY + PACK + INTRO + REPORT + STORED + CLOSE + ["instruction::verif::decode"], [h for h in H], r"^(?!\[C\d\d\])"),
    "C16": (r"\[C16\]", REPORT + STORED[:1] + CLOSE, [], None),
    "C17": (r"\[C17\]", [h for h in H if h.startswith("state::") and "sys" not in h], [], None),
    # accepted exactly if in conflict (the contract), and conflicts are symmetric (the lemma)
    "C19": (r"\[C(01|02|03|19)\]", VERIFY + ["duplicate_block_proof::verif::conflicts_are_symmetric"], ["duplicate_block_proof::verif::verify_proof_swapped"], r"\[C19\]"),
    "C20": (r"\[C20\]", ["address::verif::public_address", "instruction::verif::encode_report", "instruction::verif::build_transaction", "processor::verif::report"], [], None),
}
# what the native search can judge for a property
NATIVE = {p: p for p in PROPS}
NATIVE.update({"C16": "C07,C10,C08", "C19": "C02,C03", "C20": "C09", "C17": "C08"})
LEMMA = {"C16": "once.rs"}


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def left():
    return BUDGET - (time.time() - T0)


def env(**kw):
    e = {k: v for k, v in os.environ.items() if k != "RUSTUP_TOOLCHAIN" and not k.startswith("CARGO_TARGET")}
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e.update(kw)
    return e


def run(cmd, cwd, e, timeout):
    """returns (code or None on timeout, output)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out


def precompile():
    """the source of the runtime's ed25519 precompile, in the version of Cargo.lock"""
    m = re.search(r'name = "agave-precompiles"\nversion = "(.*)"', open(os.path.join(REPO, "Cargo.lock")).read())
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    f = glob.glob(os.path.join(home, "registry", "src", "*", "agave-precompiles-%s" % (m.group(1) if m else "*"), "src", "ed25519.rs"))
    return f[0] if f else os.path.join(VERIF, "contracts", "no_precompile.rs")


def kani_cmd(contracts, extra):
    return ["cargo", "kani", "--target-dir", os.path.join(CACHE, "kani"),
            "-Z", "stubbing", "-Z", "function-contracts", "-Z", "unstable-options", "-Z", "c-ffi",
            "--c-lib", os.path.join(contracts, "memcmp.c"), "--no-assertion-reach-checks",
            "--output-format", "terse"] + extra


# as kani-driver calls it, but without --json-ui: there CBMC builds a trace for every
# satisfied cover and failed assertion, which takes minutes for these memory layouts
CBMC = ["--no-malloc-may-fail", "--no-undefined-shift-check", "--no-signed-overflow-check", "--nan-check",
        "--no-self-loops-to-assumptions", "--no-pointer-primitive-check", "--object-bits", "16"]
GOTO = {}  # harness -> (goto program, unwind, solver)


def generate(harnesses, contracts, timeout):
    """compiles the source and the harnesses, and has Kani make their goto programs (it gets
    a second for deciding them, cbmc is called below); fills GOTO, -> output"""
    GOTO.clear()
    t = time.time() - 2
    args = ["-j", str(CORES), "--keep-temps", "--output-into-files", "--exact", "--harness-timeout", "1s"]
    for h in harnesses:
        args += ["--harness", h]
    code, out = run(kani_cmd(contracts, args), os.path.join(REPO, "program"),
                    env(SLASHING_VERIF_DIR=contracts, SLASHING_PRECOMPILE=precompile()), timeout)
    for f in glob.glob(os.path.join(CACHE, "kani", "kani", "**", "*.kani-metadata.json"), recursive=True):
        for h in json.load(open(f))["proof_harnesses"]:
            g = re.sub(r"\.symtab\.out$", ".out", h["goto_file"])
            if h["pretty_name"] in harnesses and os.path.isfile(g) and os.path.getmtime(g) >= t:
                a = h["attributes"]
                GOTO[h["pretty_name"]] = (g, a["unwind_value"] or 1, "minisat2" if a["solver"] == "Minisat" else "cadical")
    return out


def cbmc_exe():
    home = os.environ.get("KANI_HOME", os.path.expanduser("~/.kani"))
    f = sorted(glob.glob(os.path.join(home, "kani-*", "bin", "cbmc")))
    return f[-1] if f else "cbmc"


# these first, they take longest
HEAVY = ["instructions_sysvar", "instruction_report", "client_transaction", "introspection", "report", "verify_proof",
         "build_transaction", "precompile", "close", "merkle"]
SECOND = 40  # a second solver joins after this many seconds: running times can have a heavy tail


def solve(harnesses, timeout, unwind=None):
    """decides the goto programs; -> {harness: {"checks": [...], "covers": [...], "time": s, ...}}"""
    end = time.time() + timeout
    rank = lambda h: min([i for i, w in enumerate(HEAVY) if w in h] or [99])
    todo = sorted((h for h in harnesses if h in GOTO), key=rank)
    res, running, tried, pause = {}, [], {}, {}
    exe = cbmc_exe()

    def start(h, solver):
        g, n, _ = GOTO[h]
        o = tempfile.TemporaryFile("w+", dir=CACHE, errors="replace")
        p = subprocess.Popen([exe] + CBMC + ["--unwind", str(unwind or n), "--sat-solver", solver, "--slice-formula", g,
                                             "--verbosity", "8"], stdout=o, stderr=subprocess.DEVNULL, env=env(), start_new_session=True)
        running.append((h, solver, p, o, time.time()))
        tried.setdefault(h, []).append(solver)

    def stop(x):
        if x[2].poll() is None:
            x[2].kill()
            x[2].wait()
        x[3].close()

    try:
        while (todo or running) and time.time() < end:
            for x in list(running):
                h, solver, p, o, t = x
                if x not in running or p.poll() is None:
                    continue
                running.remove(x)
                o.seek(0)
                r = parse(o.read())
                o.close()
                if r and h not in res:
                    r.update(time=round(time.time() - t, 1), solver=solver)
                    res[h] = r
                    for y in [y for y in running if y[0] == h]:
                        running.remove(y)
                        stop(y)
                elif h not in res and p.returncode in (-9, 137) and pause.get(h, 0) < 1:
                    pause[h] = 1  # out of memory: again, when less is running
                    tried[h].remove(solver)
                    todo.append(h)
            while todo and len(running) < CORES:
                h = todo.pop(0)
                start(h, GOTO[h][2])
            if not todo and len(running) < CORES:
                for h, solver, p, o, t in list(running):
                    if len(tried[h]) == 1 and time.time() - t > SECOND and len(running) < CORES:
                        start(h, "cadical" if solver == "minisat2" else "minisat2")
            time.sleep(0.1)
    finally:
        for x in running:
            stop(x)
    return res


CHECK = re.compile(r"^\[(?P<id>[^\n]+?\.\d+)\] (?:line (?P<line>\d+) )?(?P<desc>(?:.|\n(?!\[))*?): (?P<status>SUCCESS|FAILURE|UNKNOWN|ERROR)$|^(?P<file>\S.*) function (?P<fn>.*)$", re.M)


def parse(text):
    """cbmc's results, or None if it did not come to an end"""
    m = re.search(r"^VERIFICATION (SUCCESSFUL|FAILED)$", text, re.M)
    at = text.find("** Results:")
    if not m or at < 0:
        return None
    checks, covers, where = [], [], ""
    for c in CHECK.finditer(text, at):
        if c.group("file"):
            where = c.group("file")
            continue
        d = {"id": c.group("id"), "desc": c.group("desc").strip('"'), "status": c.group("status"),
             "loc": where + (":" + c.group("line") if c.group("line") else "")}
        kind = d["id"].split(".")[-2]
        if kind == "cover":
            d["status"] = "SATISFIED" if d["status"] == "FAILURE" else "UNSATISFIABLE"
            covers.append(d)
        elif kind not in ("pointer_arithmetic", "pointer_primitives", "sanity_check"):  # Kani leaves these out, too
            checks.append(d)
    n = re.search(r"^\*\* (\d+) of (\d+) failed", text, re.M)
    if not checks or not n or len(re.findall(r"^\[.*\.\d+\] ", text[at:], re.M)) != int(n.group(2)):
        return None
    return {"ok": all(c["status"] == "SUCCESS" for c in checks), "checks": checks, "covers": covers, "time": 0.0,
            "text": "\n".join(l for l in text.splitlines() if not l.endswith(": SUCCESS"))}


def run_kani(harnesses, timeout):
    """generate() and solve(), tolerating contract files that do not fit the current source: those are
    left out, and the harnesses in them get no answer."""
    src = os.path.join(VERIF, "contracts")
    contracts, tmp = src, None
    try:
        for _ in range(6):
            out = generate(harnesses, contracts, min(300, left() - 60))
            if GOTO:
                return out, solve(harnesses, min(timeout, left() - 130))
            at = re.findall(r"^error(?:\[E\d+\])?:.*\n(?:.*\n){0,3}? *--> " + re.escape(contracts) + r"/(\w+)\.rs:(\d+)", out, re.M)
            at = {(f, int(n)) for f, n in at if f != "lib"}
            if not at:
                return out, {}
            if tmp is None:
                tmp = tempfile.mkdtemp(prefix="contracts.", dir=CACHE)
                contracts = os.path.join(tmp, "c")
                shutil.copytree(src, contracts)
            gone = set()
            for f in {f for f, _ in at}:
                gone |= cut(os.path.join(contracts, f + ".rs"), f, [n for g, n in at if g == f])
            log("contracts that do not fit the source:", ", ".join(sorted(gone)))
            harnesses = [h for h in harnesses if h not in gone and h.split("::")[0] not in gone]
            if not harnesses:
                return out, {}
        return out, {}
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


def cut(path, mod, lines):
    """removes the harnesses around these lines, or everything if one lies outside of the
    harnesses; returns what is gone"""
    text = open(path).read().split("\n")
    gone, drop = set(), set()
    for n in lines:
        a = n - 1
        while a >= 0 and text[a] != "}" and not (text[a] == "#[kani::proof]" and (a == 0 or text[a - 1] != "#[kani::proof]")):
            a -= 1
        b = n - 1
        while b < len(text) and text[b] != "}":
            b += 1
        block = "\n".join(text[max(a, 0):b])
        m = re.search(r"^(?:unsafe )?fn check_(\w+)\(|^macro_rules! (\w+)", block, re.M)
        if a >= 0 and m:  # the harnesses that a macro makes of it
            for i, l in enumerate(text):
                x = re.match(re.escape(m.group(1) or m.group(2)) + r"!\((\w+)", l)
                if x:
                    gone.add("%s::verif::%s" % (mod, x.group(1)))
                    drop.add(i)
            drop |= set(range(a + (text[a] == "}"), b + 1))
            continue
        name = [re.match(r"(?:pub(?:\(crate\))? )?fn (\w+)\(", l) for l in text[max(a, 0):b]]
        name = [m.group(1) for m in name if m]
        if a < 0 or text[a] != "#[kani::proof]" or len(name) != 1:
            open(path, "w").write("")
            return {mod}
        gone.add("%s::verif::%s" % (mod, name[0]))
        drop |= set(range(a, b + 1))
    # line numbers stay as they are
    open(path, "w").write("\n".join("" if i in drop else l for i, l in enumerate(text)))
    return gone


# ---- native executable specification ------------------------------------------
def build_replay():
    code, out = run(["cargo", "build", "--target-dir", os.path.join(CACHE, "replay")], os.path.join(VERIF, "replay"),
                    env(RUSTUP_TOOLCHAIN="1.86.0"), min(600, left()))
    exe = os.path.join(CACHE, "replay", "debug", "slashing-replay")
    if code != 0 or not os.path.isfile(exe):
        return None, out
    return exe, out


def literals():
    """integer literals of the source under test, and their neighbours"""
    v = set()
    for f in glob.glob(os.path.join(REPO, "program", "src", "*.rs")):
        s = open(f, errors="replace").read()
        for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?\b", s):
            try:
                n = int(m.group(1).replace("_", ""), 0)
            except ValueError:
                continue
            if n < 1 << 64:
                v |= {max(0, n - 1), n, min(n + 1, (1 << 64) - 1)}
    return sorted(v)


def search(exe, prop, seed, seconds, procs, work, more=()):
    d = os.path.join(work, "dict")
    open(d, "w").write("\n".join(str(x) for x in list(literals()) + list(more)))

    def one(i):
        out = os.path.join(work, "case.%d.json" % i)
        code, o = run([exe, "search", "--properties", NATIVE[prop], "--seconds", str(seconds), "--seed",
                       str(seed * 1000 + i), "--dict", d, "--out", out], work, env(), seconds + 60)
        n = re.search(r"(?:after|searched) (\d+) cases", o)
        return code, out, int(n.group(1)) if n else 0, o

    with cf.ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(one, range(procs)))
    found = [r for r in rs if r[0] == 1 and os.path.isfile(r[1])]
    ok = [re.search(r"(\d+) distinct accepted, e.g. (.*)", r[3]) for r in rs]
    return (found[0][1] if found else None), sum(r[2] for r in rs), \
        sum(int(m.group(1)) for m in ok if m), sorted({m.group(2) for m in ok if m})


def stubs_of(harnesses):
    """mechanical scan for what the proofs assume: stubs and assumptions in the contract files"""
    st, assumes = set(), 0
    for f in glob.glob(os.path.join(VERIF, "contracts", "*.rs")):
        s = open(f).read()
        mod = os.path.basename(f)[:-3]
        if mod != "lib" and not any(h.startswith(mod + "::") for h in harnesses):
            continue
        st |= {"%s => %s" % (a.strip(), b.strip()) for a, b in re.findall(r"kani::stub\((.*),\s*(\w+|[\w:]+)\)\]", s)}
        assumes += len(re.findall(r"kani::assume\(", s))
    return sorted(st), assumes


ASSUMPTIONS = [
    "hashv: the digest is an arbitrary function value of each call (collision resistance is assumed of SHA-256 when roots are compared)",
    "the ed25519 precompile verified exactly the data[0] entries of its instruction, over the transaction's top level instructions",
    "the instructions sysvar reports the transaction's instructions; Clock, EpochSchedule and Rent are arbitrary but constant within one instruction",
    "find_program_address is a function of program and concatenated seeds",
    "invoke_signed of the system program's assign changes the owner of the signed-for system account and nothing else (that the interface crate builds this instruction, and the client's transfer, is proved)",
    "accounts are laid out as the loader does it: 10 KiB of room after the data, lengths before key and data, at most 10 MiB; distinct accounts have distinct keys",
    "buffers have any length up to 2^40 bytes (more than the runtime can pass)",
    "memcmp/bcmp as in the C standard (contracts/memcmp.c), alloc::fmt::format and sol_log have no effect on results",
    "Kani/CBMC's translation of Rust (MIR of the nightly toolchain Kani ships, 64 bit little endian, debug assertions on), and its unwinding assertions; termination is not proved",
]


def main():
    if "--list" in sys.argv:
        print(json.dumps({p: v[1] for p, v in PROPS.items()}, indent=1))
        return 0
    os.makedirs(CACHE, exist_ok=True)
    if "--setup" in sys.argv:
        with cf.ThreadPoolExecutor(2) as ex:
            b = ex.submit(build_replay)
            out = generate(["state::verif::proof_type"], os.path.join(VERIF, "contracts"), 900)
            res = solve(["state::verif::proof_type"], 60)
            exe, bout = b.result()
        print(out[-3000:] if not res else "kani ready", "\n", bout[-3000:] if not exe else "replay ready")
        return 0 if res and exe else 2
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pat, hs, more, more_pat = PROPS[prop]
    rx = {h: re.compile(pat) for h in hs}
    if tier == "thorough":
        for h in more:
            rx[h] = re.compile(pat + "|" + more_pat) if h in rx else re.compile(more_pat)
    harnesses = list(rx)
    work = tempfile.mkdtemp(prefix="check.%s." % prop, dir=CACHE)
    try:
        return decide(prop, tier, seed, harnesses, rx, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def lemma(prop):
    f = LEMMA.get(prop)
    if not f:
        return None
    with tempfile.TemporaryDirectory(dir=CACHE) as d:
        code, out = run(["verus", os.path.join(VERIF, "contracts", f), "--output-json", "--time"], d, env(), 120)
    try:
        j = json.loads(out[out.index("{"):])
        r = j["verification-results"]
        return {"ok": bool(r["success"]) and r["errors"] == 0 and r["verified"] > 0, "verified": r["verified"],
                "errors": r["errors"], "out": out, "ms": j["times-ms"]["total"]}
    except (ValueError, KeyError):
        return {"ok": False, "verified": 0, "errors": 1, "out": out, "ms": 0}


def decide(prop, tier, seed, harnesses, rx, work):
    log("property", prop, "tier", tier, "harnesses", len(harnesses))
    with cf.ThreadPoolExecutor(3) as ex:
        b = ex.submit(build_replay)
        lem = ex.submit(lemma, prop)
        out, res = run_kani(harnesses, 600)
        lem = lem.result()
        exe, bout = b.result()
    for h in harnesses:
        if h in res:
            log("%-55s %6.1fs %d obligations%s" % (h, res[h]["time"], len(res[h]["checks"]),
                                                 "" if res[h]["ok"] else "  NOT ALL DISCHARGED"))
        else:
            log("%-55s no answer" % h)
    # loops that need more iterations than before: once more, with a higher bound
    again = [h for h in res if any("unwinding assertion" in c["desc"] and c["status"] == "FAILURE" for c in res[h]["checks"])
             and not failures(res[h], rx[h])]
    if again and left() > 150:
        log("more iterations needed:", ", ".join(again))
        for h in again:
            if left() < 120:
                break
            r2 = rerun(h, 70)
            if r2 and not any("unwinding assertion" in c["desc"] and c["status"] == "FAILURE" for c in r2["checks"]):
                res[h] = r2
    failed, trouble, n_ob, n_ok = [], [], 0, 0
    tagged = 0
    for h in harnesses:
        if h not in res:
            trouble.append("%s: no answer (timeout, or it does not compile against the current source)" % h)
            continue
        r = res[h]
        n_ob += len(r["checks"])
        n_ok += sum(c["status"] in ("SUCCESS", "UNREACHABLE") for c in r["checks"])
        tagged += sum(bool(rx[h].search(c["desc"])) for c in r["checks"])
        f = failures(r, rx[h])
        failed += [(h, c) for c in f]
        if f:
            continue
        if any(c["status"] == "FAILURE" and hard(c) for c in r["checks"]):
            trouble.append("%s: unwinding or unsupported construct" % h)
        elif any(rx[h].search(c["desc"]) and c["status"] not in ("SUCCESS", "UNREACHABLE") for c in r["checks"]):
            trouble.append("%s: undetermined obligations" % h)
        elif not r["checks"]:
            trouble.append("%s: no obligations" % h)
        elif r["ok"] and any(c["status"] != "SATISFIED" for c in r["covers"]):
            trouble.append("%s: vacuous (%s)" % (h, [c["desc"] for c in r["covers"] if c["status"] != "SATISFIED"]))
    if prop == "C16":
        failed = still_once(failed)
    if prop == "C19" and failed and not any("[C19]" in c["desc"] for _, c in failed):
        # the contract is broken: compare the verdicts of both orders directly
        log("contract broken, comparing both orders")
        h = SWAPPED
        harnesses = harnesses + ([h] if h not in harnesses else [])
        rx[h] = re.compile(r"\[C19\]")
        failed = []
        if h not in res:
            r2 = rerun(h)
            if r2:
                res[h] = r2
        if h not in res or any(c["status"] == "FAILURE" and hard(c) for c in res[h]["checks"]):
            trouble.append("%s: no answer" % h)
        else:
            failed = [(h, c) for c in failures(res[h], rx[h])]
            n_ob += len(res[h]["checks"])
            n_ok += sum(c["status"] in ("SUCCESS", "UNREACHABLE") for c in res[h]["checks"])
    if lem is not None:
        n_ob += lem["verified"] + lem["errors"]
        n_ok += lem["verified"]
        if not lem["ok"]:
            trouble.append("the lemma was not proved: " + lem["out"][-500:])
    if not tagged and not trouble:
        trouble.append("no obligation carries the property")

    # native replay: a failing case for what the verifier rejected
    cases, found, distinct, samples = 0, None, 0, []
    if exe:
        secs = 5
        if failed or trouble:
            secs = max(10, min(60 if failed else 120, int(left() - 30)))
        found, cases, distinct, samples = search(exe, prop, seed, secs, CORES if (failed or trouble) else 2, work)
    rdir = os.path.join(VERIF, ".cache", "replays")
    os.makedirs(rdir, exist_ok=True)
    line = None
    if found:
        p = os.path.join(rdir, "%s.json" % prop)
        j = json.load(open(found))
        j["failed_obligations"] = [{"harness": h, "obligation": c["desc"], "location": c["loc"]} for h, c in failed]
        json.dump(j, open(p, "w"), indent=1)
        line = "VIOLATION property=%s replay=%s" % (prop, p)
        log("failing case:", j.get("message"))
    elif failed:
        p = os.path.join(rdir, "%s.txt" % prop)
        with open(p, "w") as f:
            f.write("property %s: obligations the verifier rejected\n" % prop)
            for h, c in failed:
                f.write("\n%s\n  obligation: %s\n  at: %s\n  check: %s\n" % (h, c["desc"], c["loc"], c["id"]))
            f.write("\nverifier output\n")
            for h in sorted({h for h, _ in failed}):
                f.write("\n==== %s\n" % h)
                f.write("\n".join(l for l in res[h]["text"].splitlines()[-60:]))
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p)
    for h, c in failed[:20]:
        log("FAILED %s: %s (%s)" % (h, c["desc"], c["loc"]))
    st, assumes = stubs_of(harnesses)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": n_ob, "discharged": n_ok,
            "obligations_stating_the_property": tagged,
            "checker_cmd": " ".join(kani_cmd("/verif/contracts", ["--exact"] + sum((["--harness", h] for h in harnesses), [])))
            + (" ; verus contracts/%s" % LEMMA[prop] if prop in LEMMA else ""),
            "back_end": "Kani 0.68.0 / CBMC 6.11.0 with CaDiCaL and MiniSat" + (", Verus / Z3" if prop in LEMMA else ""),
            "trusted_base": ["Kani 0.68.0", "CBMC 6.11.0", "CaDiCaL", "MiniSat"] + (["Verus", "Z3"] if prop in LEMMA else []) + ["stub (assumed or separately proved contract): " + s for s in st],
            "harnesses": {h: {"verifier_seconds": res[h]["time"], "solver": res[h]["solver"], "obligations": len(res[h]["checks"]),
                              "covers_satisfied": sum(c["status"] == "SATISFIED" for c in res[h]["covers"]),
                              "covers": len(res[h]["covers"])} for h in harnesses if h in res},
            "verifier_seconds": round(sum(r["time"] for r in res.values()) + (lem["ms"] / 1000 if lem else 0), 2),
            "functions_under_contract": sorted({f for h in harnesses for f in H[h]}),
            "kani_assume_statements_in_contract_files": assumes,
            "native_cases_run_besides": cases,
            "bounded_checks_of_the_runtime": {h: b for h, b in BOUNDED.items() if h in harnesses},
            "lemma": None if lem is None else {"verified": lem["verified"], "errors": lem["errors"]},
            "no_answer": trouble,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 1),
        "violations": 1 if line else 0,
    }
    if trouble and not line:
        ev["level"] = "exploration"
        ev["coverage"].update(
            evaluations=cases, distinct_nontrivial=distinct,
            rule="randomly generated and mutated cases of the native executable specification (replay/); "
                 "distinct_nontrivial counts those in which the code under test accepted the input",
            samples=samples, bounded_stand_in_for=trouble)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if line:
        print(line, flush=True)
        return 1
    if trouble:
        for t in trouble:
            log("NO ANSWER:", t)
        if not res:
            print(out[-4000:])
        if not exe or not cases:
            print(bout[-2000:])
            return 2
        log("property %s: NOT PROVED on this tree (%d obligations discharged); bounded stand-in: %d native cases, no violation found"
            % (prop, n_ok, cases))
        return 0
    log("property %s: %d obligations discharged, %d of them state it; %d native cases" % (prop, n_ok, tagged, cases))
    return 0


def still_once(failed):
    """the lemmas of contracts/once.rs need a report within one epoch and a wait of two, or a
    report within two epochs and a wait of three"""
    bad = lambda text: any(text in c["desc"] for _, c in failed)
    rest = [x for x in failed if not re.search("at most|at least", x[1]["desc"])]
    if not rest and (not (bad("at most an epoch") or bad("at least 2 epochs")) or not (bad("at most two epochs") or bad("at least 3 epochs"))):
        return []
    return failed


SWAPPED = "duplicate_block_proof::verif::verify_proof_swapped"


def hard(c):
    """failures that say nothing about the code's behaviour"""
    return "unwinding assertion" in c["desc"] or "is not currently supported by Kani" in c["desc"] \
        or "unsupported" in c["id"] or "recursion unwinding" in c["desc"]


def failures(r, rx):
    return [c for c in r["checks"] if c["status"] == "FAILURE" and not hard(c) and rx.search(c["desc"])]


def rerun(h, unwind=None):
    if h not in GOTO:
        generate([h], os.path.join(VERIF, "contracts"), left() - 90)
    return solve([h], left() - 90, unwind).get(h)


sys.exit(main())
