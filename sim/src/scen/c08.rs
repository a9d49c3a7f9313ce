use crate::util::*;
use model::gen::Opts;
use model::{rfc, Cal, Inv};
use rt::{chance, d, file_get, file_put, note, range};
use subject as sub;

pub fn run() -> R {
    let mut o = Opts::any();
    o.ids |= chance(1, 2);
    let m = some_cal(o);
    let as_comp = chance(1, 5);
    let own = chance(2, 3);
    let mut truth = if as_comp { m.comps[0].clone() } else { m.as_comp() };
    let mut cfg = world(false);
    cfg.tick_ns = 1000;
    if own {
        inc(cfg.clone(), || {
            let doc = if as_comp { sub::write_comp(&sub::build_comp(&m.comps[0]), d(3)) } else { sub::write_cal(&sub::build_cal(&m), d(6)) };
            match doc {
                Ok(doc) => {
                    check_doc(&truth, &doc, Inv::Yes)?;
                    file_put(0, doc.as_bytes());
                    Ok(())
                }
                Err(e) => fail("write-failed", e),
            }
        })?;
        let roots = rfc::read(file_get(0)).unwrap_or_default();
        if let Some(r) = roots.first() {
            super::c05::sub_adopt(&mut truth, r);
        }
    } else {
        let st = rfc::Style::gen();
        if chance(1, 2) {
            // others have other forms for durations
            truth.walk_mut(&mut |c| {
                for p in &mut c.props {
                    if let ("REFRESH-INTERVAL" | "X-PUBLISHED-TTL", Some(n)) = (p.name.as_str(), sub::dur_secs(&p.val)) {
                        p.val = model::gen::dur_other(n);
                    }
                    if let Some(model::Typed::Duration(n) | model::Typed::TriggerDur(n, _)) = p.typed {
                        p.val = model::gen::dur_other(n);
                    }
                }
            });
        }
        if chance(1, 3) {
            // others say what is understood anyway
            truth.walk_mut(&mut |c| {
                for p in &mut c.props {
                    if let (Some(t), false) = (rfc::default_type(&p.name), p.params.iter().any(|(k, _)| k == "VALUE")) {
                        if chance(1, 3) {
                            p.params.push(("VALUE".into(), t.into()));
                        }
                    }
                }
            });
        }
        note(|| format!("a foreign document: {:?}", st));
        let t = rfc::write(&truth, &st);
        file_put(0, t.as_bytes());
        rt::nontrivial();
    }
    // gateways on the way
    for h in 0..range(if own { 1 } else { 0 }, 4) {
        let doc = super::c05::file_text(0)?;
        let st = rfc::Style::gen();
        let t = rfc::reframe(&doc, &st);
        rt::hit("fault.document_reframed");
        note(|| format!("hop {}: {:?}", h, st));
        file_put(0, t.as_bytes());
        rt::nontrivial();
    }
    let exp = Cal { props: truth.props.clone(), comps: truth.children.clone() };
    inc(cfg, || {
        let doc = super::c05::file_text(0)?;
        rt::ev_bytes(28, doc.as_bytes());
        note(|| format!("what arrives:\n{}", cut(&doc)));
        if as_comp {
            match sub::read_comp(&doc) {
                Ok(c) => {
                    let got = sub::ex_comp(&c);
                    if let Err(e) = rt::quiet(|| model::compare(&truth, &got, Inv::No, "", &mut vec![])) {
                        return fail("read-differently", format!("CalendarComponent::from_str: {}\n{}", e, cut(&doc)));
                    }
                    if let Err(e) = sub::check_typed(&c, &truth) {
                        return fail("accessor-differs", format!("{}\n{}", e, cut(&doc)));
                    }
                }
                Err(e) => return fail("rejected", format!("CalendarComponent::from_str: {}\n{}", e, cut(&doc))),
            }
            for r in [2, 3, 4] {
                match sub::read_doc(&doc, r) {
                    Ok(sub::Got::Roots(v)) if v.len() == 1 => {
                        if let Err(e) = rt::quiet(|| model::compare(&truth, &v[0], Inv::No, "", &mut vec![])) {
                            return fail("read-differently", format!("{}: {}\n{}", sub::read_route_name(r), e, cut(&doc)));
                        }
                    }
                    Ok(_) => return fail("read-differently", format!("{}: not one component\n{}", sub::read_route_name(r), cut(&doc))),
                    Err(e) => return fail("rejected", format!("{}: {}\n{}", sub::read_route_name(r), e, cut(&doc))),
                }
            }
            return Ok(());
        }
        for r in 0..sub::READ_ROUTES {
            if r == 7 {
                continue;
            }
            match sub::read_doc(&doc, r) {
                Ok(g) => {
                    if let Err(e) = rt::quiet(|| g.check(&exp)) {
                        return fail("read-differently", format!("{}: {}\n{}", sub::read_route_name(r), e, cut(&doc)));
                    }
                }
                Err(e) => return fail("rejected", format!("{}: {}\n{}", sub::read_route_name(r), e, cut(&doc))),
            }
        }
        // and so do the accessors
        match (sub::read_cal(&doc), sub::read_parsed(&doc)) {
            (Ok(c), Ok(p)) => {
                if let Err(e) = sub::check_typed_cal(&c, &exp) {
                    return fail("accessor-differs", format!("{}\n{}", e, cut(&doc)));
                }
                for (c, m) in p.components.iter().zip(&exp.comps) {
                    if let Err(e) = sub::check_parsed_dates(c, m) {
                        return fail("accessor-differs", format!("{} in the parsed representation\n{}", e, cut(&doc)));
                    }
                }
                Ok(())
            }
            (Err(e), _) | (_, Err(e)) => fail("rejected", e),
        }
    })
    .map(|_| ())
}
