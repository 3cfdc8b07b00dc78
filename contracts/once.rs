// C16, a lemma over contracts that Kani discharges on the code:
//   report_ok:  processor::verif::report             "[C07][C16] reports are at most an epoch ..."
//   recorded:   processor::verif::instruction_report "[C08][C16] the report is dated by the clock"
//               and processor::verif::report         "[C08][C16] the epoch is stored"
//   close_ok:   processor::verif::instruction_close* "[C10][C16] reports are closed at least 3 epochs ..."
// Assumed of the runtime: slots do not go backwards, and epochs have the schedule's
// normal length (`len` slots each, the first of them number `e0` from slot `s0`).
use vstd::prelude::*;
verus! {

pub struct Schedule {
    pub s0: nat,
    pub e0: nat,
    pub len: nat,
}

/// `slot` lies in `epoch`
pub open spec fn in_epoch(c: Schedule, slot: nat, epoch: nat) -> bool {
    &&& c.len > 0
    &&& epoch >= c.e0
    &&& c.s0 + (epoch - c.e0) * c.len <= slot
    &&& slot < c.s0 + (epoch - c.e0 + 1) * c.len
}

/// Contract of recording a violation of `slot` when the clock is at `now`: at most
/// `epochs` epochs later
pub open spec fn report_ok(c: Schedule, slot: nat, now: nat, epochs: nat) -> bool {
    slot <= now && now - slot <= epochs * c.len
}

/// Contract of closing, in `epoch`, a report recorded in epoch `created`.  The
/// code's saturating addition makes no difference below the last epoch number.
pub open spec fn close_ok(created: nat, epoch: nat, wait: nat) -> bool {
    epoch >= created + wait
}

pub proof fn epochs_apart(c: Schedule, a: nat, ea: nat, b: nat, eb: nat, wait: nat)
    requires
        in_epoch(c, a, ea),
        in_epoch(c, b, eb),
        wait > 0,
        eb >= ea + wait,
    ensures
        b - a > (wait - 1) * c.len,
{
    let l = c.len as int;
    let x = ea - c.e0;
    let y = eb - c.e0;
    assert(y * l >= (x + wait) * l) by (nonlinear_arith)
        requires y >= x + wait, l > 0;
    assert((x + wait) * l == (x + 1) * l + (wait - 1) * l) by (nonlinear_arith);
}

/// Reported at `t1`, closed at `t2`: at any `t3` from then on the violation cannot
/// be reported.  The code has epochs = 1 and wait = 3; any wait longer than the
/// statute will do.
pub proof fn never_reported_again(
    c: Schedule,
    slot: nat,
    t1: nat,
    e1: nat,
    t2: nat,
    e2: nat,
    t3: nat,
    epochs: nat,
    wait: nat,
)
    requires
        wait > epochs,
        in_epoch(c, t1, e1),
        in_epoch(c, t2, e2),
        t3 >= t2,
        report_ok(c, slot, t1, epochs),
        close_ok(e1, e2, wait),
    ensures
        !report_ok(c, slot, t3, epochs),
{
    epochs_apart(c, t1, e1, t2, e2, wait);
    assert((wait - 1) * c.len >= epochs * c.len) by (nonlinear_arith)
        requires wait - 1 >= epochs, c.len > 0;
}

/// The premises can be met (the lemma is not vacuous)
pub proof fn not_vacuous() {
    let c = Schedule { s0: 0, e0: 0, len: 432000 };
    assert(in_epoch(c, 10, 0)) by (nonlinear_arith)
        requires c.s0 == 0, c.e0 == 0, c.len == 432000;
    assert(in_epoch(c, 3 * 432000, 3)) by (nonlinear_arith)
        requires c.s0 == 0, c.e0 == 0, c.len == 432000;
    assert(report_ok(c, 5, 10, 1) && close_ok(0, 3, 3));
}

} // verus!
fn main() {}
