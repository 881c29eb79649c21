//! Which oracles decide which property.
use crate::oracle::Ck;
pub fn judge(ck: &mut Ck) {
    match ck.plan.prop.as_str() {
        "P01" => ck.durable(),
        "P02" => ck.db_sound(),
        "P03" => ck.exclusive(),
        "P04" => ck.drained(),
        "P05" => ck.completion(),
        "P06" => ck.monotonic(false),
        "P07" => ck.retries(),
        "P08" => ck.cancels(),
        "P09" => ck.waking(2500 * crate::kernel::MS),
        "P10" => ck.order(false),
        "P11" => ck.order(true),
        "P12" => ck.retention(),
        "P14" => ck.beats(),
        "P15" => {
            ck.disk_errors();
            if ck.plan.opts["patient"] == true {
                ck.waking(2500 * crate::kernel::MS);
            }
        }
        "P16" => ck.expiry(),
        "P17" => ck.calls(),
        "P13" => ck.contents(),
        "P18" => ck.objects(),
        "P19" => {
            ck.exclusive();
            ck.monotonic(false);
            if ck.plan.drain_ms > 0 {
                ck.drained();
            }
        }
        "P20" => ck.power(),
        "P21" => ck.reports(),
        "P22" => ck.shutdown(),
        p => panic!("no oracle for {p}"),
    }
}
