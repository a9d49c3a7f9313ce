use crate::util::*;
use model::gen::{Opts, Swarm};
use model::{rfc, Cal, Inv};
use rt::{chance, d, note, range};
use subject as sub;
use subject::{Fault, FmtSink};

pub fn run() -> R {
    let hosts = range(1, 2);
    let m = some_cal(Opts::any());
    for hn in 0..hosts {
        let (z, at) = (zone(), Some(start_instant()));
        let cfg = world(false);
        note(|| format!("host {}: zone {:?}", hn, ZONES[z]));
        let m = &m;
        inc(cfg, move || {
            host(z, at);
            one(m)
        })?;
    }
    Ok(())
}

fn text<T>(r: Result<T, String>) -> R<T> {
    match r {
        Ok(s) => Ok(s),
        Err(e) => fail("write-failed", e),
    }
}

fn one(m: &Cal) -> R {
    let cal = sub::build_cal(m);
    for _ in 0..range(1, 2) {
        let r = d(sub::CAL_ROUTES);
        let doc = text(sub::write_cal(&cal, r))?;
        rt::ev_bytes(27, doc.as_bytes());
        note(|| format!("{}: {} bytes", sub::cal_route_name(r), doc.len()));
        check_doc(&m.as_comp(), &doc, Inv::Yes)?;
        rt::nontrivial();
    }
    if chance(1, 2) {
        let mut f = FmtSink::new(Fault::None);
        sub::cal_to_fmt(&cal, &mut f).ok();
        check_doc(&m.as_comp(), &String::from_utf8_lossy(&f.got), Inv::Yes)?;
    }
    let i = d(m.comps.len() as u64) as usize;
    let c = sub::build_comp(&m.comps[i]);
    let doc = text(sub::write_comp(&c, d(sub::COMP_ROUTES)))?;
    note(|| format!("component {}: {} bytes", m.comps[i].kind, doc.len()));
    check_doc(&m.comps[i], &doc, Inv::Yes)?;
    for (ch, (_, doc)) in m.comps[i].children.iter().zip(sub::write_children(&c)) {
        check_doc(ch, &doc, Inv::Yes)?;
    }
    // single properties
    for p in m.comps[i].props.iter().filter(|p| p.typed.is_none()).take(4) {
        let l = text(sub::write_prop(&sub::build_prop(p)))?;
        let mut w = String::from("BEGIN:X-N\r\n");
        w.push_str(&l);
        w.push_str("END:X-N\r\n");
        check_doc(&model::Comp { kind: "X-N".into(), props: vec![p.clone()], children: vec![] }, &w, Inv::No)?;
        let mut w = String::from("BEGIN:X-N\r\n");
        let pp = sub::to_parsed_prop(p);
        let mut f = FmtSink::new(Fault::None);
        sub::parsed_prop_to_fmt(&pp, &mut f).ok();
        w.push_str(&String::from_utf8_lossy(&f.got));
        w.push_str("END:X-N\r\n");
        check_doc(&model::Comp { kind: "X-N".into(), props: vec![p.clone()], children: vec![] }, &w, Inv::No)?;
    }
    // the parsed representation
    let p = sub::to_parsed_cal(m);
    let doc = sub::parsed_string(&p);
    check_doc(&m.as_comp(), &doc, Inv::No)?;
    // what was read from someone else, written again, and changed in between
    if chance(1, 2) {
        let st = rfc::Style::gen();
        let foreign = rfc::write(&m.as_comp(), &st);
        let r = d(sub::READ_CAL_ROUTES);
        let mut c = text(sub::read_cal_by(&foreign, r))?;
        let mut m2 = m.clone();
        let mut sw = Swarm::gen(Opts::small());
        let k = d(m2.comps.len() as u64) as usize;
        let p = model::Prop { typed: Some(model::Typed::Text), ..model::Prop::new("SUMMARY", &sw.text(false, false)) };
        if !m2.comps[k].props.iter().any(|q| q.multi && q.name == "SUMMARY") {
            m2.comps[k].set(p.clone());
            sub::edit_comp(&mut c.components[k], &p);
        }
        let doc = text(sub::write_cal(&c, d(5)))?;
        note(|| format!("read from a foreign document by route {}, changed and written: {} bytes", r, doc.len()));
        check_doc(&m2.as_comp(), &doc, Inv::Yes)?;
    }
    Ok(())
}
