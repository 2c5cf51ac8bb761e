//! C26: update lists.
use crate::c01::tail;
use crate::gmodel::*;
use crate::rt::*;
use graphannis_core::graph::update::{GraphUpdate, UpdateEvent};
use serde_json::json;

pub fn run(ctx: &mut Ctx) {
    ctx.cases("ops", ctx.n(700, 30000), ops_case);
    ctx.cases("large", ctx.n(40, 1000), large_case);
    ctx.cases("damage", ctx.n(160, 8000), damage_case);
}

fn big_text(rng: &mut Rng) -> String {
    let n = *rng.pick(&[0, 1, 100, 4095, 4096, 4097, 70_000, 1_000_000]);
    match rng.below(3) {
        0 => "x".repeat(n),
        1 => (0..n).map(|_| char::from_u32(rng.range(0x20, 0x2fff) as u32).unwrap_or('\u{0}')).collect(),
        _ => (0..n.min(5000)).map(|_| *rng.pick(&['\u{0}', '\u{10ffff}', '\n', '"', '\\', 'é', 'a'])).collect(),
    }
}

fn event(rng: &mut Rng, gc: &GenCfg, big: bool) -> UpdateEvent {
    let mut e = gen_event(rng, gc);
    if big && rng.chance(10) {
        let t = big_text(rng);
        match &mut e {
            UpdateEvent::AddNode { node_type, .. } => *node_type = t,
            UpdateEvent::DeleteNode { node_name } => *node_name = t,
            UpdateEvent::AddNodeLabel { anno_value, .. } | UpdateEvent::AddEdgeLabel { anno_value, .. } => *anno_value = t,
            UpdateEvent::DeleteNodeLabel { anno_name, .. } | UpdateEvent::DeleteEdgeLabel { anno_name, .. } => *anno_name = t,
            UpdateEvent::AddEdge { component_name, .. } => *component_name = t,
            UpdateEvent::DeleteEdge { layer, .. } => *layer = t,
        }
    }
    e
}

fn short(e: &UpdateEvent) -> String {
    let s = format!("{e:?}");
    if s.len() > 200 { format!("{}…({} bytes)", s.chars().take(120).collect::<String>(), s.len()) } else { s }
}

fn read(u: &GraphUpdate, what: &str) -> Result<Vec<(u64, UpdateEvent)>, Violation> {
    let it = match u.iter() {
        Ok(it) => it,
        Err(e) => return viol("iter-failed", format!("{what}: {e}")),
    };
    let hint = it.size_hint();
    let mut r = vec![];
    for x in it {
        match x {
            Ok(x) => r.push(x),
            Err(e) => return viol("event-unreadable", format!("{what}: event {}: {e}", r.len())),
        }
    }
    check!(hint.0 <= r.len() && hint.1.is_none_or(|h| h >= r.len()), "size-hint", "{what}: hint {hint:?}, {} events", r.len());
    Ok(r)
}

fn compare(u: &GraphUpdate, expected: &[UpdateEvent], what: &str) -> Case {
    check!(u.len().ok() == Some(expected.len()), "wrong-length", "{what}: len() = {:?}, {} events were added", u.len().ok(), expected.len());
    check!(u.is_empty().ok() == Some(expected.is_empty()), "wrong-is-empty", "{what}: is_empty() = {:?}, {} events", u.is_empty().ok(), expected.len());
    let got = read(u, what)?;
    for (i, e) in expected.iter().enumerate() {
        match got.get(i) {
            None => return viol("event-lost", format!("{what}: only {} of {} events are returned", got.len(), expected.len())),
            Some((_, g)) if g != e => return viol("event-changed", format!("{what}: event {i} is {} but {} was added", short(g), short(e))),
            _ => {}
        }
    }
    check!(got.len() == expected.len(), "event-invented", "{what}: {} events returned, {} added; first additional: {}", got.len(), expected.len(), short(&got[expected.len()].1));
    check!(got.windows(2).all(|w| w[0].0 < w[1].0), "ids-not-increasing", "{what}: {:?}", got.iter().map(|x| x.0).take(50).collect::<Vec<_>>());
    Ok(())
}

fn ops_case(ctx: &mut Ctx, rng: &mut Rng) -> Case {
    let gc = gen_cfg(rng, false);
    let mut u = if rng.chance(50) { GraphUpdate::new() } else { GraphUpdate::default() };
    let mut model: Vec<UpdateEvent> = vec![];
    let mut log: Vec<String> = vec![];
    let mut open_iters = vec![];
    for _ in 0..rng.range(1, 25) {
        match rng.below(10) {
            0..=3 => {
                let n = *rng.pick(&[1, 1, 2, 5, 20, 100]);
                for _ in 0..n {
                    let e = event(rng, &gc, true);
                    if let Err(x) = u.add_event(e.clone()) {
                        return viol("add-failed", format!("add_event: {x}; {}", tail(&log)));
                    }
                    model.push(e);
                }
                log.push(format!("add {n}"));
                ctx.count("events_added", n);
            }
            4 | 5 => {
                log.push("iter".into());
                compare(&u, &model, &format!("list after {}", tail(&log)))?;
                ctx.count("full_reads", 1);
            }
            6 => {
                // an iterator which is used while events are added
                let mut it = u.iter().map_err(|e| Violation { sig: "iter-failed".into(), detail: format!("{e}; {}", tail(&log)) })?;
                let k = rng.below(model.len() + 2);
                for i in 0..k {
                    match it.next() {
                        None => check!(i >= model.len(), "event-lost", "partial iteration ended at {i} of {}; {}", model.len(), tail(&log)),
                        Some(Err(e)) => return viol("event-unreadable", format!("partial iteration: event {i}: {e}; {}", tail(&log))),
                        Some(Ok((_, e))) => check!(model.get(i) == Some(&e), "event-changed", "partial iteration: event {i} is {}; {}", short(&e), tail(&log)),
                    }
                }
                log.push(format!("iter partially {k}"));
                open_iters.push((it, k.min(model.len()), model.clone()));
            }
            7 => {
                let bytes = match bincode::serialize(&u) {
                    Ok(b) => b,
                    Err(e) => return viol("serialize-failed", format!("{e}; {}", tail(&log))),
                };
                log.push("bincode".into());
                compare(&u, &model, &format!("list after it was serialized; {}", tail(&log)))?;
                let again: GraphUpdate = match if rng.chance(50) { bincode::deserialize(&bytes) } else { bincode::deserialize_from(&bytes[..]) } {
                    Ok(u) => u,
                    Err(e) => return viol("deserialize-failed", format!("bincode: {e}; {}", tail(&log))),
                };
                compare(&again, &model, &format!("deserialized (bincode) after {}", tail(&log)))?;
                let b2 = bincode::serialize(&again).unwrap_or_default();
                check!(b2 == bytes, "serialization-differs", "serializing the deserialized list gives other data; {}", tail(&log));
                ctx.count("round_trips", 1);
                if rng.chance(70) {
                    u = again;
                }
            }
            8 => {
                let s = match serde_json::to_string(&u) {
                    Ok(b) => b,
                    Err(e) => return viol("serialize-failed", format!("json: {e}; {}", tail(&log))),
                };
                log.push("json".into());
                let again: GraphUpdate = match serde_json::from_str(&s) {
                    Ok(u) => u,
                    Err(e) => return viol("deserialize-failed", format!("json: {e}; {}", tail(&log))),
                };
                compare(&again, &model, &format!("deserialized (json) after {}", tail(&log)))?;
                ctx.count("round_trips", 1);
                if rng.chance(70) {
                    u = again;
                }
            }
            _ => {
                check!(u.len().ok() == Some(model.len()), "wrong-length", "len() = {:?}, {} events were added; {}", u.len().ok(), model.len(), tail(&log));
                check!(u.is_empty().ok() == Some(model.is_empty()), "wrong-is-empty", "{}", tail(&log));
            }
        }
    }
    compare(&u, &model, &format!("at the end: {}", tail(&log)))?;
    for (it, k, m) in open_iters {
        let rest: Result<Vec<_>, _> = it.collect();
        match rest {
            Err(e) => return viol("event-unreadable", format!("iteration continued after changes: {e}; {}", tail(&log))),
            Ok(r) => check!(r.len() == m.len() - k && r.iter().zip(&m[k..]).all(|(a, b)| a.1 == *b), "event-lost", "iterator continued after changes returns {} events instead of {}; {}", r.len(), m.len() - k, tail(&log)),
        }
    }
    if model.len() > 1 {
        ctx.distinct(&format!("{log:?}{}", model.len()));
    }
    ctx.max("events_in_list", model.len() as u64);
    ctx.sample(json!({"operations": log.iter().take(8).collect::<Vec<_>>(), "events": model.len()}));
    Ok(())
}

fn large_case(ctx: &mut Ctx, rng: &mut Rng) -> Case {
    let gc = gen_cfg(rng, false);
    let mut u = GraphUpdate::new();
    let mut model = vec![];
    for _ in 0..rng.range(1, 3) {
        // around the limits of single and two byte counters
        let n = *rng.pick(&[254, 255, 256, 257, 4096, 65_535, 65_536, 66_000]);
        for _ in 0..n {
            let e = event(rng, &gc, false);
            u.add_event(e.clone()).map_err(|e| Violation { sig: "add-failed".into(), detail: e.to_string() })?;
            model.push(e);
        }
        ctx.count("events_added", n);
        if rng.chance(50) {
            compare(&u, &model, "large list")?;
        }
        if rng.chance(50) {
            let bytes = bincode::serialize(&u).map_err(|e| Violation { sig: "serialize-failed".into(), detail: e.to_string() })?;
            u = bincode::deserialize(&bytes).map_err(|e| Violation { sig: "deserialize-failed".into(), detail: e.to_string() })?;
            ctx.count("round_trips", 1);
        }
    }
    compare(&u, &model, "large list")?;
    ctx.max("events_in_list", model.len() as u64);
    ctx.distinct(&format!("large {} {:?}", model.len(), model.first()));
    Ok(())
}

fn damage_case(ctx: &mut Ctx, rng: &mut Rng) -> Case {
    let gc = gen_cfg(rng, false);
    let n = rng.range(0, 12);
    let evs: Vec<_> = (0..n).map(|_| gen_event(rng, &gc)).collect();
    let u = events_to_update(&evs);
    let bytes = bincode::serialize(&u).map_err(|e| Violation { sig: "serialize-failed".into(), detail: e.to_string() })?;
    let json = serde_json::to_string(&u).map_err(|e| Violation { sig: "serialize-failed".into(), detail: e.to_string() })?;
    let load = |b: &[u8], stream: bool| -> Result<Result<GraphUpdate, String>, Violation> {
        match guarded(|| if stream { bincode::deserialize_from(b).map_err(|e| e.to_string()) } else { bincode::deserialize(b).map_err(|e| e.to_string()) }) {
            Ok(r) => Ok(r),
            Err((l, m)) => viol(format!("panic:{}", short_loc(&l)), format!("deserializing damaged data: {m}; events {evs:?}")),
        }
    };
    // every truncation
    for k in 0..bytes.len() {
        ctx.count("truncations", 1);
        if let Ok(x) = load(&bytes[..k], k % 2 == 0)? {
            return viol("truncation-unnoticed", format!("the first {k} of {} bytes are accepted as list with {:?} instead of {n} events", bytes.len(), x.len().ok()));
        }
    }
    for k in 0..json.len() {
        if json.is_char_boundary(k) && serde_json::from_str::<GraphUpdate>(&json[..k]).is_ok() {
            return viol("truncation-unnoticed", format!("the first {k} of {} JSON characters are accepted", json.len()));
        }
    }
    // permuted, repeated and missing ids
    let mut ids: Vec<u64> = (1..=n as u64).collect();
    match rng.below(4) {
        0 => rng.shuffle(&mut ids),
        1 if n > 1 => {
            let i = rng.below(n - 1);
            ids[i + 1] = ids[i];
        }
        2 if n > 0 => {
            let i = rng.below(n);
            ids[i] = *rng.pick(&[0, 1, u64::MAX, 1 << 40]);
        }
        _ => {}
    }
    let text = format!("{{{}}}", ids.iter().zip(&evs).map(|(i, e)| format!("\"{i}\":{}", serde_json::to_string(e).unwrap())).collect::<Vec<_>>().join(","));
    match guarded(|| serde_json::from_str::<GraphUpdate>(&text).map_err(|e| e.to_string())) {
        Err((l, m)) => return viol(format!("panic:{}", short_loc(&l)), format!("deserializing a list with the ids {ids:?}: {m}")),
        Ok(Err(_)) => {
            ctx.count("damaged_rejected", 1);
            check!(!ids.windows(2).all(|w| w[0] < w[1]), "valid-list-rejected", "ids {ids:?}");
        }
        Ok(Ok(mut u)) => {
            // accepted: nothing may be lost
            let what = format!("list deserialized with the ids {ids:?}");
            let got = read(&u, &what)?;
            check!(got.len() == evs.len(), "event-lost", "{what}: {} of {} events", got.len(), evs.len());
            check!(u.len().ok() == Some(got.len()), "wrong-length", "{what}: len() = {:?}", u.len().ok());
            if ids.last() != Some(&u64::MAX) {
                let e = gen_event(rng, &gc);
                u.add_event(e.clone()).map_err(|x| Violation { sig: "add-failed".into(), detail: format!("{what}: {x}") })?;
                let got = read(&u, &what)?;
                check!(got.last().map(|x| &x.1) == Some(&e) && got.len() == evs.len() + 1, "event-lost", "{what}: after adding an event");
            }
        }
    }
    // random damage: no panic, and what is accepted can be read
    for _ in 0..60 {
        let mut b = bytes.clone();
        for _ in 0..rng.range(1, 3) {
            if b.is_empty() {
                break;
            }
            let i = rng.below(b.len());
            match rng.below(4) {
                0 => b[i] ^= 1 << rng.below(8),
                1 => b[i] = *rng.pick(&[0, 1, 0x7f, 0x80, 0xff]),
                2 => {
                    b.remove(i);
                }
                _ => b.insert(i, rng.below(256) as u8),
            }
        }
        ctx.count("damaged_inputs", 1);
        match load(&b, false)? {
            Err(_) => ctx.count("damaged_rejected", 1),
            Ok(u) => {
                let got = read(&u, "list from changed data")?;
                check!(u.len().ok() == Some(got.len()), "wrong-length", "list from changed data: len() = {:?}, {} events; original events: {evs:?}", u.len().ok(), got.len());
            }
        }
    }
    if n > 0 {
        ctx.distinct(&format!("damage {evs:?}"));
    }
    Ok(())
}
