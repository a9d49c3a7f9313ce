use crate::util::*;
use model::gen::Opts;
use rt::{chance, d, note, range, Cfg};
use subject::{Fault, FmtSink, IoSink};

pub fn run() -> R {
    let kind = d(4);
    let sweep = chance(1, 2);
    let mut o = if sweep { Opts::small() } else { Opts::any() };
    o.ids |= chance(1, 2);
    let m = some_cal(o);
    let cfg = Cfg { tick_ns: *rt::pick(&[1000, 0, 300_000_000]), ..Cfg::default() };
    inc(cfg, || {
        let obj = make_obj(kind, &m);
        let h = Healthy::of(&obj)?;
        obj.check_doc(&m, &h.a)?;
        let mut probe = FmtSink::new(Fault::None);
        obj.to_fmt(&mut probe).ok();
        let (len, calls) = (h.a.len(), probe.calls);
        note(|| format!("{} of {} bytes, written in {} calls", obj.kind(), len, calls));
        if sweep && len <= 1200 {
            for k in 0..calls {
                one_fmt(&obj, &h, Fault::Call(k), u64::MAX)?;
            }
            let partial = chance(1, 2);
            let stride = 1 + len / 400;
            for at in (0..len).step_by(stride) {
                one_fmt(&obj, &h, Fault::Byte { at, partial }, u64::MAX)?;
            }
            let chunk = *rt::pick(&[0, 7]);
            for at in (0..len).step_by(stride) {
                let mut s = IoSink::new();
                s.chunk = chunk;
                s.fail_at = Some(at);
                one_io(&obj, &h, s)?;
            }
        }
        for _ in 0..range(1, 8) {
            if d(2) == 0 {
                one_fmt(&obj, &h, gen_fault(len, calls), if chance(1, 2) { range(1, 3) } else { u64::MAX })?;
            } else {
                let mut s = choppy();
                s.kind = io_kind();
                s.zero = chance(1, 4);
                s.fail_at = Some(d(len as u64 + 2) as usize);
                if chance(1, 2) {
                    s.recover = range(1, 2);
                }
                one_io(&obj, &h, s)?;
            }
        }
        Ok(())
    })
    .map(|_| ())
}

fn one_fmt(obj: &Obj, h: &Healthy, fault: Fault, recover: u64) -> R {
    let mut s = FmtSink::new(fault);
    s.recover = recover;
    let r = obj.to_fmt(&mut s);
    rt::ev(20, s.got.len() as u64, s.refusals * 4 + r.is_ok() as u64);
    note(|| format!("{:?} recover after {}: {:?}, {} bytes accepted, {} refusals", fault, recover as i64, r, s.got.len(), s.refusals));
    judge(obj, h, r.is_ok(), s.refusals, &s.got, s.bytes_after, &format!("{:?}", fault))
}
fn one_io(obj: &Obj, h: &Healthy, mut s: IoSink) -> R {
    let r = match obj.to_io(&mut s) {
        Some(r) => r.map_err(|_| ()),
        None => return Ok(()),
    };
    rt::ev(21, s.got.len() as u64, s.failures * 4 + r.is_ok() as u64);
    note(|| format!("stream failing at {:?} with {:?} (Ok(0): {}): {:?}, {} bytes accepted, {} failures", s.fail_at, s.kind, s.zero, r, s.got.len(), s.failures));
    judge(obj, h, r.is_ok(), s.failures, &s.got, s.calls_after, &format!("stream failing at byte {:?}", s.fail_at))
}

fn judge(obj: &Obj, h: &Healthy, ok: bool, refusals: u64, got: &[u8], after: u64, what: &str) -> R {
    if refusals == 0 {
        if !ok {
            return fail("failure-without-refusal", format!("writing a {} reports failure although nothing was refused ({})", obj.kind(), what));
        }
        return match h.whole(got) {
            Ok(()) => Ok(()),
            Err(e) => fail("incomplete-without-refusal", format!("a {} is delivered incompletely although nothing was refused ({}): {}", obj.kind(), what, e)),
        };
    }
    rt::nontrivial();
    if ok {
        return fail("success-despite-refusal", format!("writing a {} reports success although the destination refused a write ({}, after {} of {} bytes)", obj.kind(), what, got.len(), h.a.len()));
    }
    if after > 0 {
        return fail("written-after-refusal", format!("writing a {} goes on after the destination refused a write ({}, after {} bytes)", obj.kind(), what, got.len()));
    }
    match h.prefix(got) {
        Ok(()) => Ok(()),
        Err(e) => fail("no-clean-prefix", format!("what the destination accepted of a {} is not the leading part of the document ({}): {}", obj.kind(), what, e)),
    }
}
