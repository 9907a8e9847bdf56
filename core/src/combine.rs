//! C01..C04: observables and operators that combine two sources, against a
//! model of the pair

use pbt::{CaseResult, Report, Src, fail};
use rx_core::prelude::*;
use rx_core_common::ErasedSubscription;
use rx_core_notification_store::{QueueOverflowBehavior, QueueOverflowOptions};
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

use crate::base::*;
use crate::ho::simple_kinds;
use crate::ops::subscribe_kind;
use crate::sync::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum CK {
	Latest,
	Changes,
	/// queue length and whether the newest is ignored on overflow
	Zip(Option<(usize, bool)>),
	Join,
	WithLatest(bool),
}

#[derive(Clone, Debug)]
enum In {
	Hot(usize),
	Cold(Cold),
}

#[derive(Clone, Debug, Default)]
struct InM {
	last: Option<V>,
	queue: VecDeque<V>,
	completed: bool,
	closed: bool,
}

struct CombM {
	kind: CK,
	prefix: [ChainM; 2],
	taken: [usize; 2],
	unsubbed: [bool; 2],
	st: [InM; 2],
	suffix: ChainM,
	pairs: usize,
	/// what the subjects ended with
	hots: Vec<Option<MEv>>,
	hot_busy: Vec<Option<VecDeque<MEv>>>,
	inputs: [In; 2],
	/// at its nth notification the observer does this
	react: Option<(usize, Vec<(usize, MEv)>)>,
	/// the input is being processed, or the output delivered
	busy: bool,
	pending: VecDeque<(usize, MEv)>,
	/// an end that waits for the delivery in progress
	ending: bool,
	fed: [usize; 2],
	overflowed: bool,
	reacted: bool,
}

impl CombM {
	fn set_step(&mut self, s: usize) {
		self.prefix[0].step = s;
		self.prefix[1].step = s;
		self.suffix.step = s;
	}
	fn release(&mut self) {
		if self.suffix.closed {
			self.prefix[0].source(MEv::Unsub);
			self.prefix[1].source(MEv::Unsub);
		}
	}
	fn subscribe(&mut self) {
		let (inputs, hots) = (self.inputs.clone(), self.hots.clone());
		self.suffix.subscribe();
		let order = if matches!(self.kind, CK::WithLatest(_)) { [1, 0] } else { [0, 1] };
		for i in order {
			self.prefix[i].subscribe();
			self.drain(i);
			match &inputs[i] {
				In::Hot(h) => {
					if let Some(e) = hots[*h].clone() {
						self.source(i, e);
					}
				}
				In::Cold(c) => {
					for e in cold_script(c) {
						self.source(i, e);
					}
				}
			}
		}
		self.release();
	}
	fn source(&mut self, i: usize, e: MEv) {
		self.prefix[i].source(e);
		self.drain(i);
		self.release();
	}
	fn drain(&mut self, i: usize) {
		while self.taken[i] < self.prefix[i].out.len() {
			let e = MEv::from_ev(&self.prefix[i].out[self.taken[i]].1);
			self.taken[i] += 1;
			self.input(i, e);
		}
		if self.prefix[i].closed && !self.unsubbed[i] {
			self.unsubbed[i] = true;
			self.input(i, MEv::Unsub);
		}
	}
	fn down(&mut self, e: MEv) {
		if self.suffix.closed || self.ending {
			return;
		}
		if matches!(self.kind, CK::WithLatest(_)) && self.busy {
			self.ending = !matches!(e, MEv::Next(_));
			self.pending.push_back((9, e));
			return;
		}
		self.deliver(e);
	}
	fn deliver(&mut self, e: MEv) {
		if self.suffix.closed {
			return;
		}
		if matches!(e, MEv::Next(_)) {
			self.pairs += 1;
		}
		let before = self.suffix.out.len();
		self.suffix.source(e);
		if let Some((n, acts)) = self.react.clone()
			&& before <= n
			&& n < self.suffix.out.len()
		{
			self.react = None;
			self.reacted = true;
			let outer = std::mem::replace(&mut self.busy, true);
			for a in acts {
				self.feed(a.0, a.1);
			}
			self.busy = outer;
		}
		while matches!(self.kind, CK::WithLatest(_))
			&& !self.busy
			&& let Some((_, e)) = self.pending.pop_front()
		{
			self.ending = false;
			self.deliver(e);
		}
	}
	/// A signal of a subject. If it is sent while the subject is busy, it waits.
	fn feed(&mut self, h: usize, e: MEv) {
		if let Some(q) = &mut self.hot_busy[h] {
			q.push_back(e);
			return;
		}
		self.hot_busy[h] = Some(VecDeque::new());
		let mut next = Some(e);
		while let Some(e) = next {
			if self.hots[h].is_none() {
				if !matches!(e, MEv::Next(_)) {
					self.hots[h] = Some(e.clone());
				}
				for i in 0..2 {
					if matches!(self.inputs[i], In::Hot(x) if x == h) {
						self.fed[i] += 1;
						self.source(i, e.clone());
					}
				}
			}
			next = self.hot_busy[h].as_mut().unwrap().pop_front();
		}
		self.hot_busy[h] = None;
	}
	/// The combining subscriber works on one input at a time
	fn input(&mut self, i: usize, e: MEv) {
		if matches!(self.kind, CK::WithLatest(_)) {
			return self.process(i, e);
		}
		self.pending.push_back((i, e));
		if self.busy {
			return;
		}
		self.busy = true;
		while let Some((i, e)) = self.pending.pop_front() {
			self.process(i, e);
		}
		self.busy = false;
	}
	fn process(&mut self, i: usize, e: MEv) {
		if self.suffix.closed || (self.st[i].closed && e == MEv::Unsub) {
			return;
		}
		if let MEv::Error(e) = e {
			self.st[i].closed = true;
			self.down(MEv::Error(e));
			return;
		}
		let o = 1 - i;
		let was_next = matches!(e, MEv::Next(_));
		match e {
			MEv::Next(v) => {
				if let CK::Zip(opt) = self.kind {
					let (max, ignore) = opt.unwrap_or((100, false));
					if self.st[i].queue.len() >= max {
						self.overflowed = true;
						if ignore {
							return;
						}
						self.st[i].queue.pop_front();
					}
					self.st[i].queue.push_back(v.clone());
				}
				self.st[i].last = Some(v);
			}
			MEv::Complete => {
				self.st[i].completed = true;
				self.st[i].closed = true;
			}
			_ => self.st[i].closed = true,
		}
		let pair = |a: &V, b: &V| if i == 0 { V::p(a.clone(), b.clone()) } else { V::p(b.clone(), a.clone()) };
		match self.kind {
			CK::Latest => {
				if was_next {
					if let (Some(a), Some(b)) = (&self.st[i].last, &self.st[o].last) {
						let v = pair(a, b);
						self.down(MEv::Next(v));
					}
				} else if self.st[0].completed && self.st[1].completed {
					self.down(MEv::Complete);
				} else if self.st[i].completed && self.st[i].last.is_none() && self.st[o].last.is_some() {
					// nothing can ever be emitted
					self.down(MEv::Complete);
				} else if (self.st[0].closed && self.st[1].closed) || (self.st[i].last.is_none() && self.st[o].last.is_none()) {
					self.down(MEv::Unsub);
				}
			}
			CK::Changes => {
				if was_next {
					let ch = |j: usize| match &self.st[j].last {
						None => V::None,
						Some(v) if j == i => V::Some(Box::new(v.clone())),
						Some(v) => V::Ok(Box::new(v.clone())),
					};
					let v = V::p(ch(0), ch(1));
					self.down(MEv::Next(v));
				} else if self.st[0].completed && self.st[1].completed {
					self.down(MEv::Complete);
				} else if self.st[0].closed && self.st[1].closed {
					self.down(MEv::Unsub);
				}
			}
			CK::Zip(_) => {
				if !self.st[0].queue.is_empty() && !self.st[1].queue.is_empty() {
					let (a, b) = (self.st[0].queue.pop_front().unwrap(), self.st[1].queue.pop_front().unwrap());
					self.down(MEv::Next(V::p(a, b)));
				}
				let drained = |s: &InM| s.queue.is_empty() && s.closed;
				if self.st.iter().any(|s| drained(s) && s.completed) {
					self.down(MEv::Complete);
				} else if self.st.iter().any(drained) {
					self.down(MEv::Unsub);
				}
			}
			CK::Join => {
				if self.st[0].completed && self.st[1].completed {
					if let (Some(a), Some(b)) = (self.st[0].last.clone(), self.st[1].last.clone()) {
						self.down(MEv::Next(V::p(a, b)));
					}
					self.down(MEv::Complete);
				} else if self.st[0].closed && self.st[1].closed {
					self.down(MEv::Unsub);
				}
			}
			CK::WithLatest(_) => {
				if i == 0 {
					if was_next {
						if let (Some(a), Some(b)) = (&self.st[0].last, &self.st[1].last) {
							let v = V::p(a.clone(), b.clone());
							self.down(MEv::Next(v));
						}
					} else if self.st[0].completed {
						self.down(MEv::Complete);
					} else {
						self.down(MEv::Unsub);
					}
				} else if self.st[1].completed && self.st[1].last.is_none() {
					self.down(MEv::Complete);
				}
			}
		}
	}
}

pub fn change(c: Change<V>) -> V {
	match c {
		Change::JustUpdated(v) => V::Some(Box::new(v)),
		Change::Latest(v) => V::Ok(Box::new(v)),
		Change::None => V::None,
	}
}

struct Live {
	sub: Arc<Mutex<Option<ErasedSubscription>>>,
	m: CombM,
}

fn compare(world: &World, lives: &[Live]) -> Result<usize, pbt::Failure> {
	let log = world.log();
	let mut checks = 0;
	for (who, l) in lives.iter().enumerate() {
		let real: Vec<(usize, Ev)> = log
			.iter()
			.filter(|r| r.who == who)
			.filter_map(|r| match &r.seen {
				Seen::Ev(e) => Some((r.step, e.clone())),
				_ => None,
			})
			.collect();
		checks += real.len() + 1;
		if real != l.m.suffix.out {
			let f = |v: &[(usize, Ev)]| v.iter().map(|(s, e)| format!("@{s} {e}")).collect::<Vec<_>>().join("  ");
			fail!("events", "observer {who} saw      {}\nexpected by model {}", f(&real), f(&l.m.suffix.out));
		}
		if let Some(sub) = lk(&l.sub).as_ref()
			&& sub.is_closed() != l.m.suffix.closed
		{
			fail!("closed", "subscription {who}: is_closed() = {} but the model says {}", sub.is_closed(), l.m.suffix.closed);
		}
	}
	// A source is released at the latest together with the whole, and never
	// before it ended. Who released it cannot be told apart, so count.
	for (i, tag) in [10i64, 11, 12].into_iter().enumerate() {
		let real = log.iter().filter(|r| r.seen == Seen::Note("fin", tag)).count();
		let least = lives.iter().filter(|l| l.m.suffix.closed).count();
		let most = if i == 2 { least } else { lives.iter().filter(|l| l.m.prefix[i].closed).count() };
		checks += 1;
		if real < least || real > most {
			let what = ["first source", "second source", "combined observable"][i];
			fail!("released", "the finalizer of the {what} ran {real} times, expected {least} to {most} times");
		}
	}
	Ok(checks)
}

fn run(s: &mut Src, kind: CK) -> CaseResult {
	let world = World::new();
	let n_hot = 2;
	let mut input = |s: &mut Src, i: usize| {
		if s.chance(1, 4) {
			let c = gen_cold(s, 1);
			In::Cold(c)
		} else {
			In::Hot(if s.chance(1, 40) { 0 } else { i })
		}
	};
	let inputs = [input(s, 0), input(s, 1)];
	let chain = |s: &mut Src, tag: usize| {
		let mut k = vec![K::Finalize(tag)];
		if s.chance(1, 2) {
			k.extend(simple_kinds(s, 2, true));
		}
		k
	};
	let prefix = [chain(s, 10), chain(s, 11)];
	let suffix = {
		let mut k = if s.chance(1, 2) { vec![] } else { simple_kinds(s, 2, true) };
		k.insert(0, K::Finalize(12));
		k
	};
	s.note(|| format!("{kind:?} of {:?} {:?} and {:?} {:?}, then {suffix:?}", inputs[0], prefix[0], inputs[1], prefix[1]));
	let mut hots: Vec<PublishSubject<V, Er>> = (0..n_hot).map(|_| PublishSubject::default()).collect();
	let same = matches!((&inputs[0], &inputs[1]), (In::Hot(a), In::Hot(b)) if a == b);
	let mut hstate: Vec<Option<MEv>> = vec![None; n_hot];
	let react: Option<(usize, Vec<(usize, MEv)>)> = (!same && s.chance(1, 3)).then(|| {
		let n = s.usize(0, 3);
		let acts = s.list(1, 3, |s| match s.weighted(&[12, 2, 1, 1]) {
			0 => (s.idx(2), MEv::Next(gen_value(s))),
			1 => (s.idx(2), MEv::Complete),
			2 => (s.idx(2), MEv::Error(Er(s.range(1, 9)))),
			_ => (s.idx(2), MEv::Unsub),
		});
		(n, acts)
	});
	if react.is_some() {
		s.note(|| format!("  the observer reacts: {react:?}"));
	}
	let ctx = Ctx { world: world.clone(), who: 8888 };
	let mut built = (0..2).map(|i| {
		let src = match &inputs[i] {
			In::Hot(h) => BoxObs::cloneable(hots[*h].clone()),
			In::Cold(c) => build_cold(c),
		};
		build_chain(src, &prefix[i], Style::Pipe, &ctx)
	});
	let (a, b) = (built.next().unwrap(), built.next().unwrap());
	drop(built);
	let tup = |(a, b): (V, V)| V::p(a, b);
	let combined = match kind {
		CK::Latest => BoxObs::new(combine_latest(a, b).map(tup)),
		CK::Changes => BoxObs::new(combine_changes(a, b).map(|(a, b)| V::p(change(a), change(b)))),
		CK::Zip(None) => BoxObs::new(zip(a, b).map(tup)),
		CK::Zip(Some((max_queue_length, ignore))) => BoxObs::new(
			zip(a, b)
				.with_options(QueueOverflowOptions {
					max_queue_length,
					overflow_behavior: if ignore { QueueOverflowBehavior::IgnoreNext } else { QueueOverflowBehavior::DropOldest },
				})
				.map(tup),
		),
		CK::Join => BoxObs::new(join(a, b).map(tup)),
		CK::WithLatest(false) => BoxObs::new(a.with_latest_from(b).map(tup)),
		CK::WithLatest(true) => BoxObs::new(a.pipe(compose_operator::<V, Er>().with_latest_from(b)).map(tup)),
	};
	let mut obs = build_chain(combined, &suffix, Style::Pipe, &ctx);

	let mut lives: Vec<Live> = vec![];
	let steps = s.usize(1, s.size as usize + 8);
	let mut checks = 0;
	let max_lives = if react.is_some() { 1 } else { 2 };
	for step in 0..steps {
		world.set_step(step);
		lives.iter_mut().for_each(|l| l.m.set_step(step));
		let sel = if lives.is_empty() { 0 } else { s.weighted(&[1, 24, 3, 1, 1, 1, 1]) };
		match sel {
			0 => {
				if lives.len() >= max_lives {
					continue;
				}
				let k = s.idx(4);
				s.note(|| format!("  step {step}: subscribe {} kind {k}", lives.len()));
				let mut m = CombM {
					kind,
					prefix: [ChainM::new(&prefix[0]), ChainM::new(&prefix[1])],
					taken: [0; 2],
					unsubbed: [false; 2],
					st: Default::default(),
					suffix: ChainM::new(&suffix),
					pairs: 0,
					hots: hstate.clone(),
					hot_busy: vec![None; n_hot],
					inputs: inputs.clone(),
					react: None,
					busy: false,
					pending: VecDeque::new(),
					ending: false,
					fed: [0; 2],
					overflowed: false,
					reacted: false,
				};
				m.set_step(step);
				m.subscribe();
				// what it sees while it is being subscribed is not reacted to
				let skip = m.suffix.out.len();
				m.react = react.clone().map(|(n, acts)| (n + skip, acts));
				let own: Arc<Mutex<Option<ErasedSubscription>>> = Arc::default();
				let sub = match &m.react {
					None => subscribe_kind(&mut obs, &world, lives.len(), k),
					Some((n, acts)) => {
						let (n, acts) = (*n, acts.clone());
						let hots = Mutex::new(hots.clone());
						let r: Reaction = Arc::new(move |i, _| {
							if i != n {
								return;
							}
							for (h, e) in acts.clone() {
								let mut hot = lk(&hots)[h].clone();
								match e {
									MEv::Next(v) => hot.next(v),
									MEv::Complete => hot.complete(),
									MEv::Error(e) => hot.error(e),
									MEv::Unsub => hot.unsubscribe(),
								}
							}
						});
						if k % 2 == 0 { obs.subscribe(UserObserver::new(&world, 0).reacting(r)) } else { obs.subscribe(Probe::new(&world, 0).reacting(r)) }
					}
				};
				*lk(&own) = Some(sub);
				lives.push(Live { sub: own, m });
			}
			1..=4 => {
				let h = s.idx(n_hot);
				let e = match sel {
					1 => MEv::Next(gen_value(s)),
					2 => MEv::Complete,
					3 => MEv::Error(Er(s.range(1, 9))),
					_ => MEv::Unsub,
				};
				// both halves of a combination of one subject with itself are
				// notified in an unspecified order
				if same {
					return Ok(Report::new(false).label(true, "same_source_skipped"));
				}
				s.note(|| format!("  step {step}: source {h} {e:?}"));
				match e.clone() {
					MEv::Next(v) => hots[h].next(v),
					MEv::Complete => hots[h].complete(),
					MEv::Error(e) => hots[h].error(e),
					MEv::Unsub => hots[h].unsubscribe(),
				}
				for l in lives.iter_mut() {
					l.m.feed(h, e.clone());
				}
				hstate = match lives.first() {
					Some(l) => l.m.hots.clone(),
					None => hstate,
				};
			}
			_ => {
				let i = s.idx(lives.len());
				s.note(|| format!("  step {step}: {} {i}", if sel == 5 { "unsubscribe" } else { "drop" }));
				if sel == 5 {
					if let Some(x) = lk(&lives[i].sub).as_mut() {
						x.unsubscribe()
					}
				} else {
					lk(&lives[i].sub).take();
				}
				lives[i].m.suffix.source(MEv::Unsub);
				lives[i].m.release();
			}
		}
		checks += compare(&world, &lives)?;
	}
	world.set_step(steps);
	for l in lives.iter_mut() {
		l.m.set_step(steps);
		lk(&l.sub).take();
		l.m.suffix.source(MEv::Unsub);
		l.m.release();
	}
	checks += compare(&world, &lives)?;
	let fed: usize = lives.iter().map(|l| l.m.fed.iter().sum::<usize>()).sum();
	let overflowed = lives.iter().any(|l| l.m.overflowed);
	let pairs: usize = lives.iter().map(|l| l.m.pairs).sum();
	Ok(Report::new(pairs >= 1 && fed >= 2)
		.checks(checks)
		.label(pairs > 2, "3+_emissions")
		.label(overflowed, "overflowed")
		.label(lives.iter().any(|l| l.m.reacted), "the observer reacted")
		.label(lives.len() > 1, "several_subscriptions")
		.label(lives.iter().any(|l| matches!(l.m.suffix.out.last(), Some((_, Ev::Complete)))), "completed")
		.label(lives.iter().any(|l| matches!(l.m.suffix.out.last(), Some((_, Ev::Error(_))))), "errored"))
}

pub fn latest(s: &mut Src) -> CaseResult {
	let k = if s.chance(1, 2) { CK::Latest } else { CK::Changes };
	run(s, k)
}
pub fn zips(s: &mut Src) -> CaseResult {
	let opt = if s.chance(1, 2) { None } else { Some((s.usize(1, 4), s.chance(1, 2))) };
	run(s, CK::Zip(opt))
}
pub fn joins(s: &mut Src) -> CaseResult {
	run(s, CK::Join)
}
pub fn with_latest(s: &mut Src) -> CaseResult {
	let c = s.chance(1, 3);
	run(s, CK::WithLatest(c))
}
