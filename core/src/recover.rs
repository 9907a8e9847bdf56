//! O05: catch and retry against a model of one source after the other

use pbt::{CaseResult, Report, Src, fail};
use rx_core::prelude::*;
use rx_core_common::ErasedSubscription;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};

use crate::base::*;
use crate::ho::simple_kinds;
use crate::ops::subscribe_kind;
use crate::sync::*;

/// What one subscription to the source (or to a recovery observable) brings
#[derive(Clone, Debug)]
enum Att {
	Cold(Cold),
	/// values right away, then whatever the subject does, through the operators
	Hot { h: usize, imm: Vec<V>, kinds: Vec<K> },
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum RK {
	Retry(usize),
	Catch,
}

struct Cur {
	def: usize,
	chain: ChainM,
	taken: usize,
}

struct RecM {
	kind: RK,
	atts: Vec<Att>,
	suffix: ChainM,
	cur: Option<Cur>,
	/// subscriptions to the source so far
	subs: usize,
	step: usize,
	notes: Vec<(usize, &'static str, i64)>,
	/// being subscribed to right now
	subscribing: bool,
	/// an attempt that failed later than its subscription exhausted the retries
	overrun: bool,
	beyond: bool,
}

impl RecM {
	fn set_step(&mut self, step: usize) {
		self.step = step;
		self.suffix.step = step;
		if let Some(c) = &mut self.cur {
			c.chain.step = step;
		}
	}
	fn subscribe(&mut self, hots: &[Option<MEv>]) {
		self.suffix.subscribe();
		if !self.suffix.closed {
			self.subscribing = true;
			self.start(0, hots);
			self.drain(hots);
			self.subscribing = false;
		}
		self.release_if_closed();
	}
	fn start(&mut self, def: usize, hots: &[Option<MEv>]) {
		self.subs += 1;
		self.notes.push((self.step, "asub", def as i64));
		let (kinds, imm) = match &self.atts[def] {
			Att::Cold(c) => (vec![], cold_script(c)),
			Att::Hot { h, imm, kinds } => {
				let mut v: Vec<MEv> = imm.iter().map(|v| MEv::Next(v.clone())).collect();
				v.extend(hots[*h].clone());
				(kinds.clone(), v)
			}
		};
		let mut chain = ChainM::new(&kinds);
		chain.step = self.step;
		chain.subscribe();
		for e in imm {
			chain.source(e);
		}
		self.cur = Some(Cur { def, chain, taken: 0 });
	}
	fn release(&mut self) {
		if let Some(c) = self.cur.take() {
			self.notes.push((self.step, "arel", c.def as i64));
		}
	}
	fn release_if_closed(&mut self) {
		if self.suffix.closed {
			self.release();
		}
	}
	fn drain(&mut self, hots: &[Option<MEv>]) {
		loop {
			if self.suffix.closed {
				break;
			}
			let Some(c) = &mut self.cur else { break };
			let Some((_, e)) = c.chain.out.get(c.taken).cloned() else {
				if c.chain.closed {
					// closed without a notification
					self.suffix.source(MEv::Unsub);
				}
				break;
			};
			c.taken += 1;
			match (e, self.kind) {
				(Ev::Error(_), RK::Retry(max)) if self.subs <= max => {
					self.release();
					let def = self.subs.min(self.atts.len() - 1);
					self.start(def, hots);
				}
				(Ev::Error(e), RK::Retry(_)) if self.overrun && self.beyond => {
					self.suffix.source(MEv::Error(e));
				}
				(Ev::Error(e), RK::Retry(_)) if !self.subscribing => {
					// The library subscribes once more before it gives up, its
					// own tests rely on it (see the known findings)
					self.release();
					let def = self.subs.min(self.atts.len() - 1);
					self.overrun = true;
					self.beyond = true;
					self.start(def, hots);
					let mut last = e;
					// values it brings right away get through, then it ends
					let c = self.cur.as_ref().unwrap();
					let closes = c.chain.closed && !c.chain.out.iter().any(|o| !matches!(o.1, Ev::Next(_)));
					let early: Vec<Ev> = c.chain.out.iter().map(|o| o.1.clone()).collect();
					for e in early {
						match e {
							Ev::Error(e) => last = e,
							e => self.suffix.source(MEv::from_ev(&e)),
						}
					}
					self.suffix.source(if closes { MEv::Unsub } else { MEv::Error(last) });
				}
				(Ev::Error(e), RK::Catch) if self.subs == 1 => {
					self.release();
					let def = 1 + e.0.rem_euclid(self.atts.len() as i64 - 1) as usize;
					self.start(def, hots);
				}
				(e, _) => self.suffix.source(MEv::from_ev(&e)),
			}
		}
		self.release_if_closed();
	}
	fn hot(&mut self, h: usize, e: MEv, hots: &[Option<MEv>]) {
		let Some(c) = &mut self.cur else { return };
		if matches!(&self.atts[c.def], Att::Hot { h: x, .. } if *x == h) {
			c.chain.source(e);
			self.drain(hots);
		}
	}
	fn unsubscribe(&mut self) {
		self.suffix.source(MEv::Unsub);
		self.release_if_closed();
	}
}

struct RecLive {
	sub: Option<ErasedSubscription>,
	m: RecM,
}

fn gen_att(s: &mut Src, n_hot: usize) -> Att {
	if s.chance(2, 5) {
		let mut c = gen_cold(s, 1);
		if let Cold::Create(v, _) = &mut c {
			v.truncate(4);
			if s.chance(2, 3) && !matches!(v.last(), Some(Ev::Error(_))) {
				v.retain(|e| matches!(e, Ev::Next(_)));
				v.push(Ev::Error(Er(s.range(1, 9))));
			}
		}
		return Att::Cold(c);
	}
	let kinds = s.list(0, 2, |s| match s.idx(4) {
		0 => K::LiftResult(s.range(0, 3)),
		1 => K::Map(s.range(0, 3)),
		2 => K::MapError(s.range(0, 3)),
		_ => K::Skip(s.usize(0, 2)),
	});
	Att::Hot { h: s.idx(n_hot), imm: s.list(0, 2, gen_value), kinds }
}

fn run(s: &mut Src, kind: RK) -> CaseResult {
	let world = World::new();
	let n_hot = s.usize(1, 3);
	let mut hots: Vec<PublishSubject<V, Er>> = (0..n_hot).map(|_| PublishSubject::default()).collect();
	let mut hstate: Vec<Option<MEv>> = vec![None; n_hot];
	let several = kind == RK::Catch || s.chance(1, 4);
	let n_atts = match kind {
		RK::Catch => s.usize(2, 4),
		RK::Retry(_) if several => 1,
		RK::Retry(_) => s.usize(1, 6),
	};
	let mut atts: Vec<Att> = (0..n_atts).map(|_| gen_att(s, n_hot)).collect();
	if kind == RK::Catch
		&& let Att::Cold(c) = &mut atts[0]
		&& !matches!(c, Cold::Create(..))
	{
		// sources that are finished when subscribed to are the business of failed_source
		*c = Cold::Create(cold_script(c).into_iter().filter_map(|e| e.to_ev()).collect(), true);
	}
	let atts = atts;
	let suffix = if s.chance(1, 2) { vec![] } else { simple_kinds(s, 2, true) };
	// whether a source is subscribed to at all for nobody is not specified
	let suffix: Vec<K> = suffix.into_iter().map(|k| if k == K::Take(0) { K::Take(1) } else { k }).collect();
	s.note(|| format!("{kind:?} over {atts:?}, then {suffix:?}"));
	let build = {
		let (world, hots, atts) = (world.clone(), hots.clone(), Arc::new(atts.clone()));
		move |def: usize| {
			let (world, hots, atts) = (world.clone(), hots.clone(), atts.clone());
			let ctx = Ctx { world: world.clone(), who: 8888 };
			world.note(9000, "asub", def as i64);
			let src = match &atts[def] {
				Att::Cold(c) => build_cold(c),
				Att::Hot { h, imm, kinds } => {
					let hot = imm.iter().rev().fold(BoxObs::cloneable(hots[*h].clone()), |o, v| BoxObs::new(o.start_with(v.clone())));
					build_chain(hot, kinds, Style::Pipe, &ctx)
				}
			};
			BoxObs::new(src.finalize(move || world.note(9000, "arel", def as i64)))
		}
	};
	let counter = Arc::new(AtomicUsize::new(0));
	let last = n_atts - 1;
	let mut obs = match kind {
		RK::Retry(max) => {
			let b = build.clone();
			let source = deferred_observable(move || b(counter.fetch_add(1, Ordering::SeqCst).min(last)));
			BoxObs::new(source.retry(max))
		}
		RK::Catch => {
			let (b, b2) = (build.clone(), build);
			let source = deferred_observable(move || b(0));
			let on_error = move |e: Er| {
				let def = 1 + e.0.rem_euclid(last as i64) as usize;
				let b2 = b2.clone();
				BoxObs::new(deferred_observable(move || b2(def)))
			};
			if s.chance(1, 3) {
				BoxObs::new(source.pipe(compose_operator::<V, Er>().catch(on_error)))
			} else {
				BoxObs::new(source.catch(on_error))
			}
		}
	};
	let ctx = Ctx { world: world.clone(), who: 8888 };
	obs = build_chain(obs, &suffix, Style::Pipe, &ctx);
	let mut lives: Vec<RecLive> = vec![];
	let steps = s.usize(1, s.size as usize + 6);
	let mut checks = 0;
	let mut fed = 0;
	for step in 0..steps {
		world.set_step(step);
		lives.iter_mut().for_each(|l| l.m.set_step(step));
		let sel = if lives.is_empty() { 0 } else { s.weighted(&[1, 14, 2, 5, 1, 1, 1]) };
		match sel {
			0 => {
				let finished = kind == RK::Catch && matches!(&atts[0], Att::Hot { h, .. } if hstate[*h].is_some());
				if finished || lives.len() >= if several { 3 } else { 1 } {
					continue;
				}
				let k = s.idx(4);
				s.note(|| format!("  step {step}: subscribe {} kind {k}", lives.len()));
				let mut m = RecM { kind, atts: atts.clone(), suffix: ChainM::new(&suffix), cur: None, subs: 0, step, notes: vec![], subscribing: false, overrun: false, beyond: false };
				m.set_step(step);
				m.subscribe(&hstate);
				if m.subs == 0 {
					// closed before anything is subscribed to
					return Ok(Report::new(false));
				}
				let sub = subscribe_kind(&mut obs, &world, lives.len(), k);
				lives.push(RecLive { sub: Some(sub), m });
			}
			1..=4 => {
				let h = s.idx(n_hot);
				let e = match sel {
					1 => MEv::Next(gen_value(s)),
					2 => MEv::Complete,
					3 => MEv::Error(Er(s.range(1, 9))),
					// giving up a subject that has failed takes everybody along by hand
					_ if hstate[h].is_some() => continue,
					_ if kind == RK::Catch
						&& lives.iter().any(|l| l.m.subs > 1)
						&& matches!(&atts[0], Att::Hot { h: x, .. } if *x == h) =>
					{
						continue;
					}
					_ => MEv::Unsub,
				};
				s.note(|| format!("  step {step}: subject {h} {e:?}"));
				let was_open = hstate[h].is_none();
				if was_open && !matches!(e, MEv::Next(_)) {
					hstate[h] = Some(e.clone());
				}
				match e.clone() {
					MEv::Next(v) => hots[h].next(v),
					MEv::Complete => hots[h].complete(),
					MEv::Error(e) => hots[h].error(e),
					MEv::Unsub => hots[h].unsubscribe(),
				}
				if was_open {
					fed += 1;
					lives.iter_mut().for_each(|l| l.m.hot(h, e.clone(), &hstate));
				}
			}
			_ => {
				let i = s.idx(lives.len());
				s.note(|| format!("  step {step}: {} {i}", if sel == 5 { "unsubscribe" } else { "drop" }));
				if sel == 5 {
					if let Some(x) = lives[i].sub.as_mut() {
						x.unsubscribe()
					}
				} else {
					lives[i].sub = None;
				}
				lives[i].m.unsubscribe();
			}
		}
		checks += compare(&world, &lives)?;
	}
	world.set_step(steps);
	for l in lives.iter_mut() {
		l.m.set_step(steps);
		l.sub = None;
		l.m.unsubscribe();
	}
	checks += compare(&world, &lives)?;
	let subs = lives.iter().map(|l| l.m.subs).max().unwrap_or(0);
	let got: usize = lives.iter().map(|l| l.m.suffix.out.len()).sum();
	Ok(Report::new(subs >= 2 && got >= 1)
		.checks(checks)
		.label(subs > 2, "3+_source_subscriptions")
		.label(lives.iter().any(|l| l.m.overrun), "one_attempt_too_many")
		.label(fed > 1, "2+_subject_notifications")
		.label(lives.len() > 1, "several_subscriptions")
		.label(lives.iter().any(|l| matches!(l.m.suffix.out.last(), Some((_, Ev::Error(_))))), "errored")
		.label(lives.iter().any(|l| matches!(l.m.suffix.out.last(), Some((_, Ev::Complete)))), "completed"))
}

fn compare(world: &World, lives: &[RecLive]) -> Result<usize, pbt::Failure> {
	let log = world.log();
	let mut checks = 0;
	for (who, l) in lives.iter().enumerate() {
		let real: Vec<(usize, Ev)> = log
			.iter()
			.filter(|r| r.who == who)
			.filter_map(|r| match &r.seen {
				Seen::Ev(e) => Some((r.step, e.clone())),
				_ => None,
			})
			.collect();
		checks += real.len() + 1;
		if real != l.m.suffix.out {
			let f = |v: &[(usize, Ev)]| v.iter().map(|(s, e)| format!("@{s} {e}")).collect::<Vec<_>>().join("  ");
			fail!("events", "observer {who} saw      {}\nexpected by model {}", f(&real), f(&l.m.suffix.out));
		}
		if let Some(sub) = &l.sub
			&& sub.is_closed() != l.m.suffix.closed
		{
			fail!("closed", "subscription {who}: is_closed() = {} but the model says {}", sub.is_closed(), l.m.suffix.closed);
		}
	}
	for tag in ["asub", "arel"] {
		if tag == "arel" && lives.iter().any(|l| l.m.kind == RK::Catch) {
			// what failed is let go between its error and the end of the whole
			let seen = |def: i64| log.iter().filter(|r| r.seen == Seen::Note("arel", def)).count();
			for def in 0..lives[0].m.atts.len() as i64 {
				let most: usize = lives.iter().map(|l| l.m.notes.iter().filter(|n| n.1 == tag && n.2 == def).count()).sum();
				let least: usize =
					lives.iter().filter(|l| l.m.suffix.closed).map(|l| l.m.notes.iter().filter(|n| n.1 == tag && n.2 == def).count()).sum();
				checks += 1;
				if !(least..=most).contains(&seen(def)) {
					fail!(tag, "source {def} was released {} times, expected {least} to {most}", seen(def));
				}
			}
			continue;
		}
		let mut real: Vec<(usize, i64)> = log
			.iter()
			.filter_map(|r| match &r.seen {
				Seen::Note(t, n) if *t == tag => Some((r.step, *n)),
				_ => None,
			})
			.collect();
		let mut model: Vec<(usize, i64)> = lives.iter().flat_map(|l| l.m.notes.iter().filter(|n| n.1 == tag).map(|n| (n.0, n.2))).collect();
		checks += real.len();
		if lives.len() > 1 || tag == "arel" {
			real.sort();
			model.sort();
		}
		if real != model {
			let what = if tag == "asub" { "sources were subscribed" } else { "subscriptions to sources were released" };
			fail!(tag, "{what} at (step, source) {real:?}, expected {model:?}");
		}
	}
	Ok(checks)
}

pub fn retry(s: &mut Src) -> CaseResult {
	let max = s.usize(0, 4);
	run(s, RK::Retry(max))
}
pub fn catch(s: &mut Src) -> CaseResult {
	run(s, RK::Catch)
}

/// A source that has already failed when it is subscribed to must not take the
/// recovery observable along (a known finding)
pub fn failed_source(s: &mut Src) -> CaseResult {
	let world = World::new();
	let source = s.idx(2);
	let names = ["throw", "failed subject"];
	let n = s.usize(1, 4);
	s.note(|| format!("catch over {} ({n} values for the recovery)", names[source]));
	let src = match source {
		0 => build_cold(&Cold::Throw(1)),
		_ => {
			let mut subject = PublishSubject::<V, Er>::default();
			subject.error(Er(1));
			BoxObs::cloneable(subject)
		}
	};
	let mut recovery = PublishSubject::<V, Er>::default();
	let r2 = recovery.clone();
	let mut obs = src.catch(move |_| BoxObs::cloneable(r2.clone()));
	let _sub = obs.subscribe(UserObserver::new(&world, 0));
	for i in 0..n {
		recovery.next(V::I(i as i64));
	}
	recovery.complete();
	let evs = world.evs(0);
	let mut want: Vec<Ev> = (0..n).map(|i| Ev::Next(V::I(i as i64))).collect();
	want.push(Ev::Complete);
	if evs.is_empty() {
		fail!(format!("recovery_cancelled:{}", names[source].replace(' ', "_")), "nothing of the recovery observable was delivered, expected {}", show(&want));
	}
	if evs != want {
		fail!("events", "saw {}, expected {}", show(&evs), show(&want));
	}
	Ok(Report::new(true))
}

/// `retry(n)` subscribes to its source n + 1 times at most (a known finding)
pub fn retry_limit(s: &mut Src) -> CaseResult {
	let world = World::new();
	let max = s.usize(0, 4);
	let late = s.chance(1, 2);
	s.note(|| format!("retry({max}) of a source that always fails, {}", if late { "after its subscription" } else { "right away" }));
	let subs = Arc::new(AtomicUsize::new(0));
	let current: Arc<std::sync::Mutex<PublishSubject<V, Er>>> = Arc::default();
	let (n, c) = (subs.clone(), current.clone());
	let mut obs = deferred_observable(move || {
		n.fetch_add(1, Ordering::SeqCst);
		if late {
			let subject = PublishSubject::default();
			*lk(&c) = subject.clone();
			BoxObs::cloneable(subject)
		} else {
			build_cold(&Cold::Throw(1))
		}
	})
	.retry(max);
	let _sub = obs.subscribe(UserObserver::new(&world, 0));
	for _ in 0..max + 3 {
		let mut subject = lk(&current).clone();
		subject.error(Er(1));
	}
	if world.evs(0) != vec![Ev::Error(Er(1))] {
		fail!("events", "saw {}, expected the error", show(&world.evs(0)));
	}
	let n = subs.load(Ordering::SeqCst);
	if n == max + 2 && late {
		fail!("one_attempt_too_many", "{n} subscriptions to the source, expected {}", max + 1);
	}
	if n != max + 1 {
		fail!("attempts", "{n} subscriptions to the source, expected {}", max + 1);
	}
	Ok(Report::new(true))
}
