//! Processes that author, edit, store, send, lose, receive and merge.
use crate::util::*;
use model::gen::{Opts, Swarm};
use model::{rfc, Cal, Comp, Inv, Prop, Typed};
use rt::{chance, d, file_append, file_get, file_put, logish, note, range};
use std::collections::BTreeMap;
use subject as sub;

type Key = (String, u32);

/// What happens in the life of one process, planned by the parent.
#[derive(Clone, Debug)]
enum Ev {
    Author(Comp),
    /// number of the component, its next version, and how it comes about
    Edit { uid: String, next: Comp, set: Vec<Prop>, child: Option<Comp> },
    Deliver { slot: usize, msg: Msg, how: How },
    Send { slot: usize, only: Option<usize>, parsed: bool },
    Persist,
}
#[derive(Clone, Debug)]
enum How {
    Plain,
    Reframed,
    Foreign,
    Relayed(u64),
    Truncated(u64),
}
/// What a message holds, for the checks.
#[derive(Clone, Debug)]
struct Msg {
    from: usize,
    keys: Vec<Key>,
}
#[derive(Clone)]
struct Node {
    props: Vec<Prop>,
    durable: Vec<Key>,
    volatile: Vec<Key>,
    exists: bool,
}
type Truth = BTreeMap<Key, Comp>;

const LOG: usize = 60;
const PROGRESS: usize = 61;
const SLOT0: usize = 8;
const SLOTS: usize = 40;

fn merge(have: &mut Vec<Key>, got: &[Key]) {
    for k in got {
        match have.iter_mut().find(|h| h.0 == k.0) {
            Some(h) if h.1 < k.1 => *h = k.clone(),
            Some(_) => {}
            None => have.push(k.clone()),
        }
    }
}
fn expected(props: &[Prop], keys: &[Key], truth: &Truth) -> Cal {
    Cal { props: props.to_vec(), comps: keys.iter().map(|k| truth[k].clone()).collect() }
}
fn seq_prop(n: u32) -> Prop {
    Prop { name: "SEQUENCE".into(), params: vec![], val: n.to_string(), multi: false, typed: Some(Typed::Int(n)) }
}

struct World {
    nodes: Vec<Node>,
    truth: Truth,
    /// owner and latest version of every component
    owned: Vec<(usize, Key)>,
    flight: Vec<(usize, Msg)>,
    free: Vec<usize>,
    sw: Swarm,
}

pub fn run() -> R {
    let mut opts = Opts::small();
    opts.max_depth = *rt::pick(&[1, 2, 2, 4]);
    let n = range(2, 4) as usize;
    let mut w = World {
        nodes: (0..n)
            .map(|_| {
                let mut sw = Swarm::gen(Opts::small());
                Node { props: sw.cal_props(), durable: vec![], volatile: vec![], exists: false }
            })
            .collect(),
        truth: BTreeMap::new(),
        owned: vec![],
        flight: vec![],
        free: (0..SLOTS).rev().collect(),
        sw: Swarm::gen(opts),
    };
    // some links are down for a while
    let mut cut: Option<(usize, u64)> = None;
    for epoch in 0..range(3, 9) {
        if chance(1, 6) {
            cut = Some((d(n as u64) as usize, epoch + range(1, 3)));
            rt::hit("fault.partition");
        }
        if let Some((_, until)) = cut {
            if epoch >= until {
                cut = None;
            }
        }
        let node = d(n as u64) as usize;
        let evs = plan(&mut w, node, cut.map(|c| c.0));
        let crash = chance(1, 4);
        epoch_of(&mut w, node, evs, crash, true)?;
    }
    // nothing is lost any more: everyone tells everyone
    note(|| "the network is healthy from here".into());
    for round in 0..2 {
        for a in 0..n {
            let mut evs = vec![];
            let from: Vec<usize> = (0..n).filter(|b| *b != a).collect();
            if round > 0 {
                for (slot, msg) in w.flight.clone() {
                    if from.contains(&msg.from) {
                        evs.push(Ev::Deliver { slot, msg, how: transform() });
                    }
                }
                evs.push(Ev::Persist);
            } else {
                if a == 0 {
                    let old: Vec<usize> = w.flight.drain(..).map(|f| f.0).collect();
                    w.free.extend(old);
                }
                let slot = w.free.pop().unwrap();
                evs.push(Ev::Send { slot, only: None, parsed: chance(1, 3) });
            }
            epoch_of(&mut w, a, evs, false, false)?;
        }
    }
    // everyone holds the last version of everything, as its author put it in
    let mut latest: Vec<Key> = w.owned.iter().map(|o| o.1.clone()).collect();
    latest.sort();
    for a in 0..n {
        let mut have = w.nodes[a].durable.clone();
        have.sort();
        if have != latest {
            return fail("harness", "the model did not converge");
        }
        let exp = expected(&w.nodes[a].props, &w.nodes[a].durable, &w.truth);
        let exp = &exp;
        inc(world(false), move || {
            host(zone(), None);
            let doc = super::c05::file_text(a)?;
            let r = d(sub::READ_CAL_ROUTES);
            let c = load(&doc, r)?;
            holds(&c, exp, "after convergence")?;
            Ok(())
        })?;
    }
    if latest.len() > 1 {
        rt::nontrivial();
    }
    Ok(())
}

fn transform() -> How {
    match d(6) {
        0 | 1 => How::Plain,
        2 => How::Reframed,
        3 => How::Foreign,
        _ => How::Relayed(d(sub::RELAYS)),
    }
}

/// Plan what a node does while it is up. Parent side: only the model changes.
fn plan(w: &mut World, node: usize, cut: Option<usize>) -> Vec<Ev> {
    let mut evs = vec![];
    let mut have = w.nodes[node].durable.clone();
    let mut next_of: BTreeMap<String, Key> = BTreeMap::new();
    for i in 0..range(1, 5) {
        let kind = if w.owned.is_empty() && i == 0 { 0 } else { d(9) };
        match kind {
            0 | 1 => {
                let kind = w.sw.top_kind();
                let mut c = w.sw.comp(kind, 1);
                if c.get("UID").is_none() {
                    let u = w.sw.uid();
                    c.set(Prop { typed: Some(Typed::Text), ..Prop::new("UID", &u) });
                }
                let seq = logish(9) as u32;
                c.set(seq_prop(seq));
                let k = (c.get("UID").unwrap().val.clone(), seq);
                if k.0.is_empty() || w.owned.iter().any(|o| o.1 .0 == k.0) || next_of.contains_key(&k.0) {
                    continue;
                }
                have.push(k.clone());
                next_of.insert(k.0.clone(), k);
                evs.push(Ev::Author(c));
            }
            2 | 3 => {
                // only components authored here in an earlier life, once per life:
                // what was invented for them is known by then
                let mine: Vec<Key> = w.owned.iter().filter(|o| o.0 == node && !next_of.contains_key(&o.1 .0)).map(|o| o.1.clone()).collect();
                if mine.is_empty() {
                    continue;
                }
                let k = rt::pick(&mine).clone();
                let mut next = w.truth[&k].clone();
                let mut set = vec![];
                for _ in 0..range(1, 3) {
                    let p = w.sw.typed_prop(&next.kind.clone());
                    if p.name != "SEQUENCE" && !next.props.iter().any(|q| q.name == p.name && q.multi) {
                        next.set(p.clone());
                        set.push(p);
                    }
                }
                if chance(1, 4) {
                    let mut t = Comp::default();
                    w.sw.multi_props(&mut t);
                    for p in t.props {
                        if !next.props.iter().any(|q| q.name == p.name && !q.multi) {
                            next.props.push(p.clone());
                            set.push(p);
                        }
                    }
                }
                let child = if chance(1, 4) {
                    let kind = *rt::pick(&["VALARM", "X-N"]);
                    Some(w.sw.comp(kind, 9))
                } else {
                    None
                };
                if let Some(c) = &child {
                    next.children.push(c.clone());
                }
                let seq = k.1 + 1 + d(3) as u32;
                next.set(seq_prop(seq));
                set.push(seq_prop(seq));
                next_of.insert(k.0.clone(), (k.0.clone(), seq));
                evs.push(Ev::Edit { uid: k.0, next, set, child });
            }
            4 | 5 => {
                let ready: Vec<usize> = (0..w.flight.len()).filter(|i| w.flight[*i].1.from != node && cut != Some(node) && cut != Some(w.flight[*i].1.from)).collect();
                if ready.is_empty() {
                    continue;
                }
                // any of them, not the oldest: reordered and delayed
                let i = *rt::pick(&ready);
                if i != ready[0] {
                    rt::hit("fault.message_reordered");
                }
                let (slot, msg) = w.flight[i].clone();
                let how = if chance(1, 8) {
                    rt::hit("fault.message_truncated");
                    How::Truncated(d(100_000))
                } else {
                    transform()
                };
                if chance(1, 3) {
                    rt::hit("fault.message_duplicated");
                    evs.push(Ev::Deliver { slot, msg: msg.clone(), how: transform() });
                }
                evs.push(Ev::Deliver { slot, msg, how });
            }
            6 | 8 => {
                if evs.iter().any(|e| matches!(e, Ev::Send { .. })) || have.is_empty() {
                    continue;
                }
                let slot = match w.free.pop() {
                    Some(s) => s,
                    None => continue,
                };
                evs.push(Ev::Persist);
                evs.push(Ev::Send { slot, only: if chance(1, 3) { Some(d(8) as usize) } else { None }, parsed: chance(1, 3) });
            }
            _ => evs.push(Ev::Persist),
        }
    }
    evs
}

/// Run the life of a node to its end, over crashes, and account for it in the model.
fn epoch_of(w: &mut World, node: usize, evs: Vec<Ev>, crash: bool, lossy: bool) -> R {
    let mut from = 0usize;
    let mut tries = 0;
    while from < evs.len() || tries == 0 {
        let mut cfg = world(false);
        if crash && tries == 0 {
            cfg.crash_at = 1 + logish(2_000_000);
        }
        tries += 1;
        file_put(PROGRESS, &(from as u32).to_le_bytes());
        file_put(LOG, b"");
        let (truth, me, rest) = (&w.truth, &w.nodes[node], &evs[from..]);
        let (z, at) = (zone(), if chance(1, 2) { Some(start_instant()) } else { None });
        note(|| format!("process {} starts ({} events to go)", node, rest.len()));
        let done = inc(cfg, move || {
            host(z, at);
            life(node, me.clone(), truth.clone(), rest, from)
        })?;
        // what it did before it ended
        let p = file_get(PROGRESS);
        let upto = if done { evs.len() } else { u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as usize };
        account(w, node, &evs, from, upto)?;
        if !done {
            rt::hit("fault.process_restarted");
            note(|| format!("process {} was killed after event {}", node, upto));
            // messages it was about to read are gone; deliveries it had not stored, too
            w.nodes[node].volatile = w.nodes[node].durable.clone();
            from = upto;
        } else {
            from = evs.len();
        }
    }
    // leaving the process behind: only what is stored stays
    w.nodes[node].volatile = w.nodes[node].durable.clone();
    // some messages get lost
    let mut i = 0;
    while i < w.flight.len() {
        if lossy && w.flight.len() > 1 && chance(1, 12) {
            let (slot, _) = w.flight.remove(i);
            w.free.push(slot);
            rt::hit("fault.message_lost");
        } else {
            i += 1;
        }
    }
    Ok(())
}

/// What the events did to the model.
fn account(w: &mut World, node: usize, evs: &[Ev], from: usize, upto: usize) -> R {
    // invented values, from the log the process wrote when it stored its work
    let log = file_get(LOG).to_vec();
    let mut docs: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    let mut i = 0;
    while i + 8 <= log.len() {
        let n = u32::from_le_bytes(log[i..i + 4].try_into().unwrap()) as usize;
        let l = u32::from_le_bytes(log[i + 4..i + 8].try_into().unwrap()) as usize;
        docs.insert(n, log[i + 8..i + 8 + l].to_vec());
        i += 8 + l;
    }
    for n in from..upto {
        match &evs[n] {
            Ev::Author(c) | Ev::Edit { next: c, .. } => {
                let mut c = c.clone();
                let k = key_of(&c);
                let doc = match docs.get(&n) {
                    Some(d) => d,
                    None => return fail("harness", "an event left no log"),
                };
                adopt_from(&mut c, &k, doc)?;
                w.truth.insert(k.clone(), c);
                merge(&mut w.nodes[node].volatile, &[k.clone()]);
                w.nodes[node].durable = w.nodes[node].volatile.clone();
                w.nodes[node].exists = true;
                match w.owned.iter_mut().find(|o| o.1 .0 == k.0) {
                    Some(o) => o.1 = k,
                    None => w.owned.push((node, k)),
                }
            }
            Ev::Deliver { msg, how, .. } => {
                if !matches!(how, How::Truncated(_)) {
                    merge(&mut w.nodes[node].volatile, &msg.keys);
                }
            }
            Ev::Send { slot, only, .. } => {
                let v = &w.nodes[node].volatile;
                let keys = select(v, *only);
                w.flight.push((*slot, Msg { from: node, keys }));
            }
            Ev::Persist => {
                w.nodes[node].durable = w.nodes[node].volatile.clone();
                w.nodes[node].exists = true;
            }
        }
    }
    Ok(())
}
fn select(v: &[Key], only: Option<usize>) -> Vec<Key> {
    match only {
        Some(i) if !v.is_empty() => vec![v[i % v.len()].clone()],
        _ => v.to_vec(),
    }
}
fn key_of(c: &Comp) -> Key {
    (c.get("UID").map_or(String::new(), |p| p.val.clone()), c.get("SEQUENCE").and_then(|p| p.val.parse().ok()).unwrap_or(0))
}
/// Take over what the library invented for component `k`.
fn adopt_from(c: &mut Comp, k: &Key, doc: &[u8]) -> R {
    let roots = match rt::quiet(|| rfc::read(doc)) {
        Ok(r) if r.len() == 1 => r,
        Ok(r) => return fail("malformed-document", format!("{} roots", r.len())),
        Err(e) => return fail("malformed-document", e),
    };
    match roots[0].children.iter().find(|g| g.get("UID").map(|p| p.val.as_str()) == Some(&k.0)) {
        Some(g) => {
            super::c05::sub_adopt(c, g);
            Ok(())
        }
        None => fail("component-lost", format!("a stored calendar does not hold component {:?} its author just put in:\n{}", k.0, cut(&String::from_utf8_lossy(doc)))),
    }
}

fn load(doc: &str, route: u64) -> R<sub::Calendar> {
    match sub::read_cal_by(doc, route) {
        Ok(c) => Ok(c),
        Err(e) => fail("unreadable", format!("a calendar one process wrote cannot be read by another (route {}): {}\n{}", route, e, cut(doc))),
    }
}
fn holds(c: &sub::Calendar, exp: &Cal, when: &str) -> R {
    let seen = sub::ex_cal(c);
    if let Err(e) = rt::quiet(|| model::compare_cal(exp, &seen, Inv::No)) {
        return fail("content-differs", format!("{}: {}", when, e));
    }
    if let Err(e) = sub::check_typed_cal(c, exp) {
        return fail("accessor-differs", format!("{}: {}", when, e));
    }
    Ok(())
}

fn store(node: usize, cal: &sub::Calendar, n: usize, log: bool) -> R<String> {
    let doc = match sub::write_cal(cal, d(sub::CAL_ROUTES)) {
        Ok(d) => d,
        Err(e) => return fail("write-failed", e),
    };
    rt::seam(31, doc.len() as u64, 0);
    rt::quiet(|| {
        file_put(node, doc.as_bytes());
        if log {
            file_append(LOG, &(n as u32).to_le_bytes());
            file_append(LOG, &(doc.len() as u32).to_le_bytes());
            file_append(LOG, doc.as_bytes());
        }
    });
    Ok(doc)
}

/// One life of a process. `exists`, `durable` and the truth are what it starts from.
fn life(node: usize, mut me: Node, mut truth: Truth, evs: &[Ev], from: usize) -> R {
    let mut cal;
    if me.exists {
        let doc = super::c05::file_text(node)?;
        cal = load(&doc, d(sub::READ_CAL_ROUTES))?;
        holds(&cal, &expected(&me.props, &me.durable, &truth), "restarting from the stored calendar")?;
    } else {
        cal = sub::build_cal(&Cal { props: me.props.clone(), comps: vec![] });
    }
    me.volatile = me.durable.clone();
    for (j, ev) in evs.iter().enumerate() {
        let n = from + j;
        rt::seam(40, n as u64, 0);
        match ev {
            Ev::Author(c) => {
                let k = key_of(c);
                note(|| format!("process {} authors {} {:?} version {}", node, c.kind, k.0, k.1));
                cal.push(sub::build_comp(c));
                merge(&mut me.volatile, &[k.clone()]);
                let doc = store(node, &cal, n, true)?;
                progress(n + 1);
                let mut c = c.clone();
                adopt_from(&mut c, &k, doc.as_bytes())?;
                truth.insert(k, c);
                // go on from what is stored: what was invented is fixed now
                cal = load(&doc, d(sub::READ_CAL_ROUTES))?;
                holds(&cal, &expected(&me.props, &me.volatile, &truth), "reading back what was just stored")?;
                rt::nontrivial();
            }
            Ev::Edit { uid, next, set, child } => {
                let k = key_of(next);
                note(|| format!("process {} edits {:?}: version {}, {} properties set", node, uid, k.1, set.len()));
                let i = match me.volatile.iter().position(|q| q.0 == *uid) {
                    Some(i) => i,
                    None => return fail("harness", "editing something that is not there"),
                };
                for p in set {
                    sub::edit_comp(&mut cal.components[i], p);
                }
                if let Some(ch) = child {
                    sub::add_child_to(&mut cal.components[i], ch);
                }
                merge(&mut me.volatile, &[k.clone()]);
                let doc = store(node, &cal, n, true)?;
                progress(n + 1);
                let mut c = next.clone();
                adopt_from(&mut c, &k, doc.as_bytes())?;
                truth.insert(k, c);
                cal = load(&doc, d(sub::READ_CAL_ROUTES))?;
                holds(&cal, &expected(&me.props, &me.volatile, &truth), "reading back an edited component")?;
            }
            Ev::Persist => {
                let doc = store(node, &cal, n, false)?;
                progress(n + 1);
                if chance(1, 2) {
                    cal = load(&doc, d(sub::READ_CAL_ROUTES))?;
                }
                holds(&cal, &expected(&me.props, &me.volatile, &truth), "after storing the calendar")?;
            }
            Ev::Send { slot, only, parsed } => {
                let keys = select(&me.volatile, *only);
                let mut out = sub::build_cal(&Cal { props: me.props.clone(), comps: vec![] });
                for k in &keys {
                    let i = me.volatile.iter().position(|q| q == k).unwrap();
                    out.push(cal.components[i].clone());
                }
                let doc = if *parsed {
                    // through the parsed representation
                    let t = sub::write_cal(&out, d(5));
                    t.and_then(|t| sub::relay(&t, 1))
                } else {
                    sub::write_cal(&out, d(sub::CAL_ROUTES))
                };
                let doc = match doc {
                    Ok(d) => d,
                    Err(e) => return fail("write-failed", e),
                };
                note(|| format!("process {} sends {} components, {} bytes", node, keys.len(), doc.len()));
                check_doc(&expected(&me.props, &keys, &truth).as_comp(), &doc, Inv::No)?;
                rt::seam(41, doc.len() as u64, *slot as u64);
                file_put(SLOT0 + slot, doc.as_bytes());
                rt::hit("net.message_sent");
                progress(n + 1);
            }
            Ev::Deliver { slot, msg, how } => {
                deliver(node, &mut cal, &mut me, &truth, *slot, msg, how)?;
                progress(n + 1);
            }
        }
    }
    Ok(())
}
fn progress(n: usize) {
    rt::quiet(|| file_put(PROGRESS, &(n as u32).to_le_bytes()));
}

fn deliver(node: usize, cal: &mut sub::Calendar, me: &mut Node, truth: &Truth, slot: usize, msg: &Msg, how: &How) -> R {
    let sent = super::c05::file_text(SLOT0 + slot)?;
    let exp_comps: Vec<Comp> = msg.keys.iter().map(|k| truth[k].clone()).collect();
    rt::hit("net.message_delivered");
    let text = match how {
        How::Plain => sent.clone(),
        How::Reframed => {
            rt::hit("net.message_reframed");
            rfc::reframe(&sent, &rfc::Style::gen())
        }
        How::Foreign => {
            // read and written by somebody else's software
            rt::hit("net.message_rewritten_by_other_software");
            match rt::quiet(|| rfc::read(sent.as_bytes())) {
                Ok(r) if r.len() == 1 => rfc::write(&r[0], &rfc::Style::gen()),
                Ok(_) => return fail("malformed-document", "a message with several roots"),
                Err(e) => return fail("malformed-document", e),
            }
        }
        How::Relayed(r) => {
            rt::hit("net.message_relayed");
            match sub::relay(&sent, *r) {
                Ok(t) => t,
                Err(e) => return fail("unreadable", format!("{}: {}\n{}", sub::relay_name(*r), e, cut(&sent))),
            }
        }
        How::Truncated(x) => {
            let full = sent.trim_end_matches(['\r', '\n']).len();
            let at = 7 + (*x as usize) % (full - 7);
            let part = String::from_utf8_lossy(&sent.as_bytes()[..at]).into_owned();
            let r = d(sub::READ_CAL_ROUTES);
            note(|| format!("process {} receives only {} of {} bytes", node, at, sent.len()));
            return match sub::read_cal_by(&part, r) {
                Err(_) => Ok(()),
                Ok(_) => fail("truncated-message-accepted", format!("a message cut after byte {} of {} is accepted (route {})", at, sent.len(), r)),
            };
        }
    };
    let r = d(sub::READ_CAL_ROUTES);
    note(|| format!("process {} receives {} components from process {} ({:?}, read by route {})", node, msg.keys.len(), msg.from, how, r));
    let got = load(&text, r)?;
    let seen = sub::ex_cal(&got);
    let when = format!("a calendar received from process {} ({:?}, read by route {})", msg.from, how, r);
    let exp = Cal { props: seen.props.clone(), comps: exp_comps };
    if let Err(e) = rt::quiet(|| model::compare_cal(&exp, &seen, Inv::No)) {
        return fail("content-differs", format!("{}: {}\n{}", when, e, cut(&text)));
    }
    for (c, m) in got.components.iter().zip(&exp.comps) {
        if let Err(e) = sub::check_typed(c, m) {
            return fail("accessor-differs", format!("{}: {}\n{}", when, e, cut(&text)));
        }
    }
    if chance(1, 3) {
        match sub::read_parsed(&text) {
            Ok(p) => {
                for (c, m) in p.components.iter().zip(&exp.comps) {
                    if let Err(e) = sub::check_parsed_dates(c, m) {
                        return fail("accessor-differs", format!("{} in the parsed representation: {}", when, e));
                    }
                }
            }
            Err(e) => return fail("unreadable", e),
        }
    }
    // merge by UID and SEQUENCE, as the library reports them
    for c in got.components {
        let (u, s) = match (sub::comp_uid(&c), sub::comp_sequence(&c)) {
            (Some(u), Some(s)) => (u, s),
            x => return fail("accessor-differs", format!("{}: UID and SEQUENCE are {:?}", when, x)),
        };
        let mut at = None;
        for (i, h) in cal.components.iter().enumerate() {
            if sub::comp_uid(h).as_deref() == Some(&u) {
                at = Some(i);
            }
        }
        match at {
            Some(i) if sub::comp_sequence(&cal.components[i]).map_or(true, |o| o < s) => cal.components[i] = c,
            Some(_) => {}
            None => {
                cal.push(c);
            }
        }
    }
    merge(&mut me.volatile, &msg.keys);
    holds(cal, &expected(&me.props, &me.volatile, truth), "after merging a message")
}
