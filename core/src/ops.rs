//! O01..O06: chains of scheduler-free operators against the reference model

use pbt::{CaseResult, Failure, Report, Src, fail};
use rx_core::prelude::*;
use rx_core_common::ErasedSubscription;
use std::sync::{Arc, Mutex};

use crate::base::*;
use crate::sync::*;

pub const EFFECTS: usize = 1000;

/// Subscribes an observer of a generated kind
pub fn subscribe_kind(o: &mut BoxObs, world: &World, who: usize, kind: usize) -> ErasedSubscription {
	match kind {
		0 => o.subscribe(UserObserver::new(world, who)),
		1 => o.subscribe(Probe::new(world, who)),
		2 => {
			let (a, b, c) = (world.clone(), world.clone(), world.clone());
			o.subscribe(DynFnObserver::default().with_next(move |v| a.push(who, Seen::Ev(Ev::Next(v)))).with_error(move |e| b.push(who, Seen::Ev(Ev::Error(e)))).with_complete(move || c.push(who, Seen::Ev(Ev::Complete))))
		}
		_ => {
			// a subject as the destination, observed in turn
			let mut subject = PublishSubject::<V, Er>::default();
			let inner = subject.subscribe(UserObserver::new(world, who));
			let mut s = o.subscribe(subject);
			s.add_teardown(inner.into());
			s
		}
	}
}

#[derive(Clone, Debug)]
pub enum Act {
	Subscribe(usize),
	Unsubscribe(usize),
	DropIt(usize),
	Next(V),
	Error(Er),
	Complete,
	SubjectUnsub,
}

pub struct Live {
	pub sub: Option<ErasedSubscription>,
	pub model: ChainM,
	pub unsub: bool,
	/// a bare subscriber right behind an operator that ends by itself, which
	/// has to keep everything that follows from it
	pub shielded: bool,
	/// the library's type erased subscriptions only report an explicit close
	pub erased: bool,
}

impl Live {
	/// A handle that reports closed while its destination is still open (take
	/// or element_at completed by themselves and the operators after them did
	/// not) cannot be released: the known finding "closed_handle_is_inert".
	pub fn inert(&self) -> bool {
		!self.model.closed
			&& (self.sub.as_ref().is_some_and(|s| s.is_closed())
				|| (self.erased && self.model.maybe_closed && self.model.has_self_completing()))
	}
}

fn run_group(s: &mut Src, g: Group) -> CaseResult {
	let world = World::new();
	let mut tag = 0;
	let depth = 1 + (s.size as usize / 5).min(3);
	let kinds: Vec<K> = s.list(1, depth, |s| gen_kind(s, g, &mut tag, 0));
	// the group under test is always represented
	let kinds: Vec<K> = {
		let mut k = kinds;
		let i = s.idx(k.len() + 1);
		let mut kk = gen_kind(s, g, &mut tag, 0);
		if let K::Nested(v) = &kk {
			kk = v[0].clone();
		}
		k.insert(i, kk);
		k
	};
	let style = *s.pick(&STYLES);
	let hot = s.chance(1, 2);
	// sometimes many values at once, with parameters to match
	let folding = |k: &K| format!("{k:?}").matches("Scan").count() + format!("{k:?}").matches("Reduce").count();
	let bulk = hot && s.size > 8 && kinds.iter().map(folding).sum::<usize>() <= 1 && s.chance(1, 150);
	let kinds: Vec<K> = if bulk {
		let mut scale = |n: usize| if s.chance(1, 2) { n * 53 + s.usize(0, 30) } else { n };
		kinds
			.into_iter()
			.map(|k| match k {
				K::Take(n) => K::Take(scale(n)),
				K::Skip(n) => K::Skip(scale(n)),
				K::ElementAt(n) => K::ElementAt(scale(n)),
				K::ElementAtOr(n, d) => K::ElementAtOr(scale(n), d),
				K::BufferCount(n) => K::BufferCount(scale(n)),
				K::FilterIdx(n) => K::FilterIdx(scale(n)),
				k => k,
			})
			.collect()
	} else {
		kinds
	};
	let ctx = Ctx { world: world.clone(), who: EFFECTS };
	let mut subject = PublishSubject::<V, Er>::default();
	let cold = if hot { Cold::Never } else { gen_cold(s, 0) };
	let source = if hot { BoxObs::cloneable(subject.clone()) } else { build_cold(&cold) };
	let polite = hot || !format!("{cold:?}").contains("false");
	let mut obs = build_chain(source, &kinds, style, &ctx);
	s.note(|| format!("operators {kinds:?} style {style:?} source {}", if hot { "subject".to_string() } else { format!("{cold:?}") }));

	let max = if hot { s.size as usize + 4 } else { 4 };
	let steps = s.usize(1, max);
	let mut lives: Vec<Live> = Vec::new();
	let mut finished: Option<MEv> = None;
	let ended_taps: Arc<Mutex<std::collections::HashSet<i64>>> = Arc::default();
	let mut fed = 0usize;
	let mut checks = 0usize;
	for step in 0..steps {
		world.set_step(step);
		let act = if lives.is_empty() && (step == 0 || s.chance(1, 2)) {
			Act::Subscribe(s.idx(4))
		} else if hot {
			match s.weighted(&[14, 2, 1, 1, 1, 1, 1]) {
				0 => Act::Next(gen_value(s)),
				1 => Act::Subscribe(s.idx(4)),
				2 if !lives.is_empty() => Act::Unsubscribe(s.idx(lives.len())),
				3 if !lives.is_empty() => Act::DropIt(s.idx(lives.len())),
				4 => Act::Error(Er(s.range(1, 9))),
				5 => Act::Complete,
				6 => Act::SubjectUnsub,
				_ => Act::Next(gen_value(s)),
			}
		} else {
			match s.weighted(&[2, 1, 1]) {
				1 if !lives.is_empty() => Act::Unsubscribe(s.idx(lives.len())),
				2 if !lives.is_empty() => Act::DropIt(s.idx(lives.len())),
				_ => Act::Subscribe(s.idx(4)),
			}
		};
		s.note(|| format!("  step {step}: {act:?}"));
		for l in lives.iter_mut() {
			l.model.step = step;
		}
		let feed = |lives: &mut Vec<Live>, e: MEv| {
			for l in lives.iter_mut() {
				l.model.source(e.clone());
			}
		};
		match act {
			Act::Subscribe(kind) => {
				if lives.len() >= 4 {
					continue;
				}
				let who = lives.len();
				let mut model = ChainM::new(&kinds);
				model.ended_taps = ended_taps.clone();
				model.step = step;
				model.subscribe();
				if hot {
					if let Some(f) = &finished {
						model.source(f.clone());
					}
				} else {
					for e in cold_script(&cold) {
						model.source(e);
						fed += 1;
					}
				}
				let sub = subscribe_kind(&mut obs, &world, who, kind);
				let shielded = kind == 1 && kinds.len() == 1 && matches!(kinds.last(), Some(K::Take(_) | K::First | K::Find(..) | K::FindIndex(..) | K::IsEmpty | K::ElementAt(_) | K::ElementAtOr(..)));
				lives.push(Live { sub: Some(sub), model, unsub: false, shielded, erased: style == Style::Erased });
			}
			Act::Unsubscribe(i) | Act::DropIt(i) if lives[i].inert() => {}
			Act::Unsubscribe(i) => {
				if let Some(sub) = lives[i].sub.as_mut() {
					sub.unsubscribe();
				}
				lives[i].model.source(MEv::Unsub);
				lives[i].unsub = true;
			}
			Act::DropIt(i) => {
				lives[i].sub = None;
				lives[i].model.source(MEv::Unsub);
				lives[i].unsub = true;
			}
			Act::Next(v) => {
				let times = if bulk && s.chance(1, 2) { s.usize(100, 300) } else { 1 };
				if times > 1 {
					s.note(|| format!("    and {} more", times - 1));
				}
				for i in 0..times {
					let v = if i == 0 { v.clone() } else { V::I(i as i64 % 10) };
					subject.next(v.clone());
					if finished.is_none() {
						fed += 1;
						feed(&mut lives, MEv::Next(v));
					}
				}
			}
			Act::Error(e) => {
				subject.error(e);
				if finished.is_none() {
					fed += 1;
					finished = Some(MEv::Error(e));
					feed(&mut lives, MEv::Error(e));
				}
			}
			Act::Complete => {
				subject.complete();
				if finished.is_none() {
					fed += 1;
					finished = Some(MEv::Complete);
					feed(&mut lives, MEv::Complete);
				}
			}
			Act::SubjectUnsub => {
				subject.unsubscribe();
				if finished.is_none() {
					finished = Some(MEv::Unsub);
					feed(&mut lives, MEv::Unsub);
				}
			}
		}
		checks += compare(&world, &lives, polite)?;
	}
	// end: release everything, all finalizers must have run
	let end = steps;
	let mut inert = false;
	world.set_step(end);
	for l in lives.iter_mut() {
		l.model.step = end;
		if l.inert() {
			inert = true;
		}
		l.sub = None;
		l.model.source(MEv::Unsub);
		l.unsub = true;
	}
	if inert {
		return Ok(Report::new(false).checks(checks));
	}
	checks += compare(&world, &lives, polite)?;
	let got: usize = lives.iter().map(|l| l.model.out.len()).sum();
	let term = lives.iter().any(|l| matches!(l.model.out.last(), Some((_, Ev::Error(_) | Ev::Complete))));
	Ok(Report::new(fed >= 2 && got >= 1)
		.checks(checks)
		.label(hot, "hot")
		.label(lives.len() > 1, "several_subscriptions")
		.label(term, "terminal_delivered")
		.label(kinds.len() > 2, "3+_operators")
		.label(got >= 4, "4+_events")
		.label(bulk && got > 100, "100+_events"))
}

pub fn compare(world: &World, lives: &[Live], polite: bool) -> Result<usize, Failure> {
	let log = world.log();
	let mut checks = 0;
	for (who, l) in lives.iter().enumerate() {
		let real: Vec<(usize, Ev)> = log
			.iter()
			.filter(|r| r.who == who)
			.filter_map(|r| match &r.seen {
				Seen::Ev(e) => Some((r.step, e.clone())),
				_ => None,
			})
			.collect();
		checks += real.len() + 2;
		if l.shielded
			&& let Some(r) = log.iter().find(|r| r.who == who && matches!(r.seen, Seen::Late(_)))
		{
			fail!("late", "the operator ended by itself but passed something on after that: {r}");
		}
		if real != l.model.out {
			let f = |v: &[(usize, Ev)]| v.iter().map(|(s, e)| format!("@{s} {e}")).collect::<Vec<_>>().join("  ");
			fail!("events", "observer {who} saw      {}\nexpected by model {}", f(&real), f(&l.model.out));
		}
		if let Some(sub) = &l.sub
			&& !l.model.maybe_closed
			&& sub.is_closed() != l.model.closed
			&& !(l.erased && !sub.is_closed())
		{
			fail!("closed", "subscription {who}: is_closed() = {} but the model says {}", sub.is_closed(), l.model.closed);
		}
	}
	// side effects
	let pick = |fin: bool| {
		let mut real: Vec<(usize, &'static str, i64)> = log
			.iter()
			.filter(|r| r.who == EFFECTS)
			.filter_map(|r| match &r.seen {
				Seen::Note(t, n) if (*t == "fin") == fin => Some((r.step, *t, *n)),
				_ => None,
			})
			.collect();
		let mut model: Vec<(usize, &'static str, i64)> =
			lives.iter().flat_map(|l| l.model.notes.iter().filter(|n| (n.1 == "fin") == fin).cloned()).collect();
		if lives.len() > 1 || fin {
			real.sort();
			model.sort();
		}
		(real, model)
	};
	{
		let (mut real, mut model) = pick(true);
		checks += real.len();
		if lives.iter().any(|l| l.model.maybe_closed) {
			// when is up to the source, but in the end exactly once
			if lives.iter().all(|l| l.unsub) {
				real.iter_mut().chain(model.iter_mut()).for_each(|n| n.0 = 0);
				real.sort();
				model.sort();
			} else {
				model.clear();
				real.clear();
			}
		}
		if real != model {
			fail!("finalizers", "finalizers ran at {real:?}, expected {model:?}");
		}
	}
	{
		let (real, model) = pick(false);
		checks += model.len();
		let tag_of = |n: &(usize, &'static str, i64)| if n.1 == "tapc" { n.2 } else { n.2 / 1_000_000 };
		let mut tags: Vec<i64> = real.iter().chain(&model).map(tag_of).collect();
		tags.sort();
		tags.dedup();
		for t in tags {
			let mut r: Vec<_> = real.iter().filter(|n| tag_of(n) == t).cloned().collect();
			let m: Vec<_> = model.iter().filter(|n| tag_of(n) == t).cloned().collect();
			// Once closed, a callback in the middle of the chain may or may not
			// be reached by a producer that goes on.
			if !(polite && lives.iter().all(|l| l.model.tag_open(t))) {
				if lives.len() == 1 {
					r.truncate(m.len());
				} else if m.iter().chain(&r).any(|n| n.1.starts_with("tap") && n.1 != "tapn") {
					// one shared destination, possibly ended by the first
					continue;
				} else {
					let mut rest = m.clone();
					r.retain(|x| match rest.iter().position(|y| y == x) {
						Some(i) => {
							rest.remove(i);
							true
						}
						None => false,
					});
				}
			}
			if r != m {
				fail!("side_effects", "callbacks of operator {t} ran {r:?}, expected {m:?} (everything: {real:?})");
			}
		}
	}
	// a callback runs before the notification is delivered further
	if polite && lives.len() == 1 {
		let real: Vec<Seen> = log
			.iter()
			.filter(|r| (r.who == 0 || r.who == EFFECTS) && matches!(r.seen, Seen::Ev(_) | Seen::Note(..)))
			.filter(|r| !matches!(r.seen, Seen::Note("fin", _)))
			.map(|r| r.seen.clone())
			.collect();
		// closed in the middle: the producer may go on into the callbacks before that
		let n = lives[0].model.seq.len().min(real.len());
		if real[..n] != lives[0].model.seq[..n] {
			fail!("order", "callbacks and deliveries happened in the order {}, expected {}", show(&real), show(&lives[0].model.seq));
		}
		checks += n;
	}
	Ok(checks)
}

pub fn transform(s: &mut Src) -> CaseResult {
	run_group(s, Group::Transform)
}
pub fn select(s: &mut Src) -> CaseResult {
	run_group(s, Group::Select)
}
pub fn accumulate(s: &mut Src) -> CaseResult {
	run_group(s, Group::Accumulate)
}
pub fn errors(s: &mut Src) -> CaseResult {
	run_group(s, Group::Errors)
}
pub fn effects(s: &mut Src) -> CaseResult {
	run_group(s, Group::Effects)
}
