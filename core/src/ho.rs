//! H01..H03: higher order operators against a model of concurrently
//! subscribed inner observables

use pbt::{CaseResult, Report, Src, fail};
use rx_core::prelude::*;
use rx_core_common::ErasedSubscription;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

use crate::base::*;
use crate::ops::subscribe_kind;
use crate::sync::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum HK {
	Merge(usize),
	Concat,
	Switch,
	Exhaust,
}

#[derive(Clone, Debug)]
enum Inner {
	Hot(usize),
	Cold(Cold),
}

#[derive(Clone, Debug, PartialEq)]
enum HotState {
	Open,
	Done(MEv),
}

/// One subscription to `prefix -> higher order operator -> suffix`
pub struct HoM {
	kind: HK,
	inners: Vec<Inner>,
	prefix: ChainM,
	taken: usize,
	pub suffix: ChainM,
	active: Vec<(usize, usize)>,
	queue: VecDeque<usize>,
	next_id: usize,
	outer_done: bool,
	/// (step, tag, inner)
	pub notes: Vec<(usize, &'static str, i64)>,
	step: usize,
	released: bool,
	pub max_active: usize,
	/// Inner observables that completed and that closed without completing in this step
	ended: (usize, usize),
	/// Everything ended by inner observables of both kinds in one step: which
	/// of them counts as the last is nobody's business
	pub ambiguous: bool,
	/// the subjects: the inner ones, then the outer one
	hots: Vec<HotState>,
	hot_busy: Vec<Option<VecDeque<(MEv, usize)>>>,
	/// at its nth notification the observer sends these
	react: Option<(usize, Vec<(usize, MEv)>)>,
	reacted: bool,
	/// a delivery is in progress, what comes meanwhile waits for it
	busy: bool,
	pending: VecDeque<MEv>,
	ending: bool,
	mid: bool,
	fed: usize,
	/// the outer subject was completed from within its own notification: the
	/// known finding inner_cancelled:subject_completed_in_a_callback
	known: bool,
	/// switched away from an inner subject while that one notified: see the
	/// known finding completion_lost:busy_inner
	late: bool,
}

impl HoM {
	fn new(kind: HK, inners: Vec<Inner>, prefix: &[K], suffix: &[K], hots: Vec<HotState>) -> Self {
		HoM {
			kind,
			inners,
			prefix: ChainM::new(prefix),
			taken: 0,
			suffix: ChainM::new(suffix),
			active: vec![],
			queue: VecDeque::new(),
			next_id: 0,
			outer_done: false,
			notes: vec![],
			step: 0,
			released: false,
			max_active: 0,
			ended: (0, 0),
			ambiguous: false,
			hot_busy: vec![None; hots.len()],
			hots,
			react: None,
			reacted: false,
			busy: false,
			pending: VecDeque::new(),
			ending: false,
			mid: false,
			fed: 0,
			known: false,
			late: false,
		}
	}
	fn set_step(&mut self, s: usize) {
		self.step = s;
		self.ended = (0, 0);
		self.late = false;
		self.prefix.step = s;
		self.suffix.step = s;
	}
	fn subscribe(&mut self) {
		self.suffix.subscribe();
		self.check_release();
		self.prefix.subscribe();
		self.drain_prefix();
	}
	fn note(&mut self, t: &'static str, n: i64) {
		self.notes.push((self.step, t, n));
	}
	pub fn closed(&self) -> bool {
		self.suffix.closed && !self.mid
	}
	/// Everything is let go once downstream is closed
	fn check_release(&mut self) {
		if self.closed() && !self.released {
			self.released = true;
			for (_, j) in std::mem::take(&mut self.active) {
				self.note("irel", j as i64);
			}
			self.queue.clear();
			self.note("orel", 0);
		}
	}
	fn down(&mut self, e: MEv) {
		self.ambiguous |= self.late && e == MEv::Unsub;
		if self.ending || self.closed() {
			return;
		}
		if self.busy {
			self.ending = !matches!(e, MEv::Next(_));
			self.pending.push_back(e);
			return;
		}
		self.deliver(e);
		while let Some(e) = self.pending.pop_front() {
			self.deliver(e);
		}
	}
	fn deliver(&mut self, e: MEv) {
		if self.closed() {
			return;
		}
		self.ending = !matches!(e, MEv::Next(_));
		let before = self.suffix.out.len();
		self.suffix.source(e);
		if let Some((n, acts)) = self.react.clone()
			&& before <= n
			&& n < self.suffix.out.len()
		{
			self.react = None;
			self.reacted = true;
			self.busy = true;
			// nobody in front of the operators knows yet that they ended it
			self.mid = !self.ending;
			for (h, e) in acts {
				self.feed(h, e);
			}
			self.busy = false;
			self.mid = false;
		}
		self.check_release();
	}
	/// A signal of a subject. If it is sent while the subject is busy, it waits.
	fn feed(&mut self, h: usize, e: MEv) {
		if let Some(q) = &mut self.hot_busy[h] {
			self.known |= h + 1 == self.hots.len() && e == MEv::Complete;
			q.push_back((e, self.next_id));
			return;
		}
		self.hot_busy[h] = Some(VecDeque::new());
		let mut next = Some((e, self.next_id));
		while let Some((e, before)) = next {
			if self.hots[h] == HotState::Open {
				if !matches!(e, MEv::Next(_)) {
					self.hots[h] = HotState::Done(e.clone());
				}
				if h + 1 == self.hots.len() {
					self.fed += 1;
					if e == MEv::Unsub {
						self.down(e);
					} else {
						self.outer(e);
					}
				} else {
					self.hot(h, e, before);
				}
			}
			next = self.hot_busy[h].as_mut().unwrap().pop_front();
		}
		self.hot_busy[h] = None;
	}
	fn outer(&mut self, e: MEv) {
		if e == MEv::Unsub {
			self.down(MEv::Unsub);
			return;
		}
		self.prefix.source(e);
		self.drain_prefix();
	}
	fn drain_prefix(&mut self) {
		while self.taken < self.prefix.out.len() {
			let e = self.prefix.out[self.taken].1.clone();
			self.taken += 1;
			if self.closed() || self.ending || self.outer_done {
				continue;
			}
			match e {
				Ev::Next(v) => {
					let j = v.num().rem_euclid(self.inners.len() as i64) as usize;
					self.outer_next(j);
				}
				Ev::Error(e) => self.down(MEv::Error(Er(e.0.wrapping_add(40)))),
				Ev::Complete => {
					self.outer_done = true;
					if self.active.is_empty() && self.queue.is_empty() {
						self.down(MEv::Complete);
					}
				}
			}
		}
	}
	fn outer_next(&mut self, j: usize) {
		match self.kind {
			HK::Merge(n) => {
				if self.active.len() < n.max(1) {
					self.start(j)
				} else {
					self.queue.push_back(j)
				}
			}
			HK::Concat => {
				if self.active.is_empty() {
					self.start(j)
				} else {
					self.queue.push_back(j)
				}
			}
			HK::Switch => {
				for (_, j) in std::mem::take(&mut self.active) {
					if let Inner::Hot(h) = self.inners[j]
						&& self.hot_busy[h].as_ref().is_some_and(|q| !q.is_empty())
					{
						// what was sent before is still on its way to the old one
						self.known = true;
					}
					if let Inner::Hot(h) = self.inners[j] {
						self.late |= self.hot_busy[h].is_some();
					}
					self.note("irel", j as i64);
				}
				self.start(j)
			}
			HK::Exhaust => {
				if self.active.is_empty() {
					self.start(j)
				}
			}
		}
	}
	fn start(&mut self, j: usize) {
		let id = self.next_id;
		self.next_id += 1;
		self.active.push((id, j));
		self.max_active = self.max_active.max(self.active.len());
		self.note("isub", j as i64);
		match self.inners[j].clone() {
			Inner::Hot(h) => {
				// a subject is over as soon as it was told so
				let told = self.hot_busy[h].as_ref().and_then(|q| q.iter().find(|(e, _)| !matches!(e, MEv::Next(_)))).map(|(e, _)| HotState::Done(e.clone()));
				let state = if self.hots[h] == HotState::Open { told.unwrap_or(HotState::Open) } else { self.hots[h].clone() };
				if let HotState::Done(e) = state {
					self.inner(id, e);
				}
			}
			Inner::Cold(c) => {
				for e in cold_script(&c) {
					self.inner(id, e);
				}
			}
		}
	}
	fn inner(&mut self, id: usize, e: MEv) {
		let Some(p) = self.active.iter().position(|a| a.0 == id) else { return };
		match e {
			MEv::Complete => self.ended.0 += 1,
			MEv::Unsub => self.ended.1 += 1,
			_ => {}
		}
		match e {
			MEv::Next(_) => self.down(e),
			MEv::Error(_) => self.down(e),
			MEv::Complete => {
				// the next one starts while this one still counts, so that a
				// next one that is closed right away does not end the whole
				if !self.ending
					&& let Some(n) = self.queue.pop_front()
				{
					self.start(n);
				}
				if let Some(p) = self.active.iter().position(|a| a.0 == id) {
					let (_, j) = self.active.remove(p);
					self.note("irel", j as i64);
				}
				// a slot may have become free while this one still counted
				if self.active.len() < self.limit()
					&& !self.ending
					&& let Some(n) = self.queue.pop_front()
				{
					self.start(n);
				}
				if self.active.is_empty() && self.queue.is_empty() && self.outer_done && !self.closed() {
					self.end(e);
				}
			}
			MEv::Unsub => {
				let (_, j) = self.active.remove(p);
				self.note("irel", j as i64);
				if !self.ending
					&& self.active.len() < self.limit()
					&& let Some(n) = self.queue.pop_front()
				{
					self.start(n);
				} else if self.active.is_empty() && self.outer_done {
					self.end(e);
				}
			}
		}
	}
	fn limit(&self) -> usize {
		match self.kind {
			HK::Merge(n) => n.max(1),
			_ => 1,
		}
	}
	fn end(&mut self, e: MEv) {
		self.ambiguous |= self.ended.0 > 0 && self.ended.1 > 0;
		self.down(e);
	}
	/// A notification of the hot source
	fn hot(&mut self, h: usize, e: MEv, before: usize) {
		let ids: Vec<usize> = self
			.active
			.iter()
			.filter(|(id, j)| matches!(self.inners[*j], Inner::Hot(x) if x == h) && *id < before)
			.map(|a| a.0)
			.collect();
		for id in ids {
			self.inner(id, e.clone());
		}
	}
}

pub fn simple_kinds(s: &mut Src, max: usize, ends: bool) -> Vec<K> {
	s.list(0, max, |s| {
		if ends && s.chance(1, 3) {
			return match s.idx(4) {
				0 => K::Take(s.usize(0, 5)),
				1 => K::Find(s.range(1, 5), s.range(0, 4)),
				2 => K::First,
				_ => K::ElementAt(s.usize(0, 4)),
			};
		}
		match s.idx(9) {
			0 => K::Identity,
			1 => K::Map(s.range(0, 5)),
			2 => K::Filter(s.range(1, 4), s.range(0, 3)),
			3 => K::Enumerate,
			4 => K::Skip(s.usize(0, 3)),
			5 => K::Scan(s.range(0, 9)),
			6 => K::StartWith(s.range(200, 202)),
			7 => K::EndWith(s.range(300, 302)),
			_ => K::MapError(s.range(0, 5)),
		}
	})
}

pub fn apply(source: BoxObs, kind: HK, all: bool, compose: bool, f: impl Fn(V) -> BoxObs + Clone + Send + Sync + 'static) -> BoxObs {
	let em = |e: Er| Er(e.0.wrapping_add(40));
	if compose {
		let op = compose_operator::<V, Er>();
		return match (kind, all) {
			(HK::Merge(n), false) => BoxObs::new(source.pipe(op.merge_map(f, n, em))),
			(HK::Merge(n), true) => BoxObs::new(source.pipe(op.map(f).merge_all(n, em))),
			(HK::Concat, false) => BoxObs::new(source.pipe(op.concat_map(f, em))),
			(HK::Concat, true) => BoxObs::new(source.pipe(op.map(f).concat_all(em))),
			(HK::Switch, false) => BoxObs::new(source.pipe(op.switch_map(f, em))),
			(HK::Switch, true) => BoxObs::new(source.pipe(op.map(f).switch_all(em))),
			(HK::Exhaust, false) => BoxObs::new(source.pipe(op.exhaust_map(f, em))),
			(HK::Exhaust, true) => BoxObs::new(source.pipe(op.map(f).exhaust_all(em))),
		};
	}
	match (kind, all) {
		(HK::Merge(n), false) => BoxObs::new(source.merge_map(f, n, em)),
		(HK::Merge(n), true) => BoxObs::new(source.map(f).merge_all(n, em)),
		(HK::Concat, false) => BoxObs::new(source.concat_map(f, em)),
		(HK::Concat, true) => BoxObs::new(source.map(f).concat_all(em)),
		(HK::Switch, false) => BoxObs::new(source.switch_map(f, em)),
		(HK::Switch, true) => BoxObs::new(source.map(f).switch_all(em)),
		(HK::Exhaust, false) => BoxObs::new(source.exhaust_map(f, em)),
		(HK::Exhaust, true) => BoxObs::new(source.map(f).exhaust_all(em)),
	}
}

pub struct HoLive {
	pub sub: Option<ErasedSubscription>,
	pub m: HoM,
}

fn compare(world: &World, lives: &[HoLive], tags: &[&'static str]) -> Result<usize, pbt::Failure> {
	let log = world.log();
	let mut checks = 0;
	for (who, l) in lives.iter().enumerate() {
		let real: Vec<(usize, Ev)> = log
			.iter()
			.filter(|r| r.who == who)
			.filter_map(|r| match &r.seen {
				Seen::Ev(e) => Some((r.step, e.clone())),
				_ => None,
			})
			.collect();
		checks += real.len() + 1;
		if real != l.m.suffix.out {
			let f = |v: &[(usize, Ev)]| v.iter().map(|(s, e)| format!("@{s} {e}")).collect::<Vec<_>>().join("  ");
			fail!("events", "observer {who} saw      {}\nexpected by model {}", f(&real), f(&l.m.suffix.out));
		}
		if let Some(sub) = &l.sub
			&& sub.is_closed() != l.m.closed()
		{
			fail!("closed", "subscription {who}: is_closed() = {} but the model says {}", sub.is_closed(), l.m.closed());
		}
	}
	// the previous inner observable is let go before the next one is subscribed to
	if lives.len() == 1 && lives[0].m.kind == HK::Switch && !lives[0].m.reacted {
		let real: Vec<(&str, i64)> = log
			.iter()
			.filter_map(|r| match &r.seen {
				Seen::Note(t, n) if *t == "isub" || *t == "irel" => Some((*t, *n)),
				_ => None,
			})
			.collect();
		let model: Vec<(&str, i64)> = lives[0].m.notes.iter().filter(|n| n.1 != "orel").map(|n| (n.1, n.2)).collect();
		if real != model {
			fail!("release_order", "inner observables were subscribed to and released in the order {real:?}, expected {model:?}");
		}
		checks += real.len();
	}
	for tag in tags {
		let mut real: Vec<(usize, i64)> = log
			.iter()
			.filter_map(|r| match &r.seen {
				Seen::Note(t, n) if t == tag => Some((r.step, *n)),
				_ => None,
			})
			.collect();
		let mut model: Vec<(usize, i64)> = lives.iter().flat_map(|l| l.m.notes.iter().filter(|n| n.1 == *tag).map(|n| (n.0, n.2))).collect();
		checks += real.len();
		if lives.len() > 1 || *tag != "isub" {
			real.sort();
			model.sort();
		}
		if real != model {
			let what = match *tag {
				"isub" => "inner observables were subscribed",
				"irel" => "inner subscriptions were released",
				_ => "the outer subscription was released",
			};
			fail!(*tag, "{what} at (step, inner) {real:?}, expected {model:?}");
		}
	}
	Ok(checks)
}

fn run(s: &mut Src, kind: HK, tuple: bool) -> CaseResult {
	let world = World::new();
	let all = s.chance(1, 2);
	let compose = s.chance(1, 4);
	let n_hot = s.usize(1, 3);
	let hots: Vec<PublishSubject<V, Er>> = (0..n_hot).map(|_| PublishSubject::default()).collect();
	// the outer subject is the last one
	let mut hstate = vec![HotState::Open; n_hot + 1];
	let mut inners: Vec<Inner> = (0..n_hot).map(Inner::Hot).collect();
	inners.extend(s.list(0, 3, |s| {
		let mut c = gen_cold(s, 1);
		if let Cold::Create(v, _) = &mut c {
			v.truncate(4);
		}
		Inner::Cold(c)
	}));
	let prefix = if tuple || s.chance(1, 2) { vec![] } else { simple_kinds(s, 2, false) };
	let suffix = if s.chance(1, 2) { vec![] } else { simple_kinds(s, 2, true) };
	let hot_outer = !tuple && s.chance(4, 5);
	let n_inputs = s.usize(1, 5);
	// sources that hand out an inert subscription are the business of finite_sources
	let outer_cold = if hot_outer {
		Cold::Never
	} else if tuple {
		// the observables themselves, in order
		Cold::Create((0..n_inputs as i64).map(|i| Ev::Next(V::I(i))).chain([Ev::Complete]).collect(), false)
	} else {
		let max = s.size as usize;
		Cold::Create(gen_script(s, max), s.chance(1, 2))
	};
	s.note(|| format!("{kind:?} {} inners {inners:?} prefix {prefix:?} suffix {suffix:?} outer {}", if all { "all" } else { "map" }, if hot_outer { "subject".into() } else { format!("{outer_cold:?}") }));
	let ctx = Ctx { world: world.clone(), who: 8888 };
	let mut outer = PublishSubject::<V, Er>::default();
	let source = if hot_outer { BoxObs::cloneable(outer.clone()) } else { build_cold(&outer_cold) };
	let source = build_chain(source, &prefix, Style::Pipe, &ctx);
	let w = world.clone();
	let source = BoxObs::new(source.finalize(move || w.note(9000, "orel", 0)));
	let (w, h2, i2) = (world.clone(), hots.clone(), Arc::new(inners.clone()));
	let mapper = move |v: V| {
		let j = v.num().rem_euclid(i2.len() as i64) as usize;
		let (w, h, i) = (w.clone(), h2.clone(), i2.clone());
		BoxObs::new(deferred_observable(move || {
			w.note(9000, "isub", j as i64);
			let src = match &i[j] {
				Inner::Hot(k) => BoxObs::cloneable(h[*k].clone()),
				Inner::Cold(c) => build_cold(c),
			};
			let w = w.clone();
			BoxObs::new(src.finalize(move || w.note(9000, "irel", j as i64)))
		}))
	};
	let merged = if tuple {
		let inputs = |n: usize| (0..n as i64).map(|i| mapper(V::I(i))).collect::<Vec<BoxObs>>();
		macro_rules! sized {
			($n:expr) => {{
				let Ok(a): Result<[BoxObs; $n], _> = inputs($n).try_into() else { unreachable!() };
				match kind {
					HK::Merge(n) => BoxObs::cloneable(merge(a, n)),
					_ => BoxObs::cloneable(concat(a)),
				}
			}};
		}
		match n_inputs {
			1 => sized!(1),
			2 => sized!(2),
			3 => sized!(3),
			4 => sized!(4),
			_ => sized!(5),
		}
	} else {
		apply(source, kind, all, compose, mapper)
	};
	let mut obs = build_chain(merged, &suffix, Style::Pipe, &ctx);

	let tags: &[&'static str] = if tuple { &["isub", "irel"] } else { &["isub", "irel", "orel"] };
	let mut lives: Vec<HoLive> = vec![];
	let react: Option<(usize, Vec<(usize, MEv)>)> = s.chance(1, 3).then(|| {
		let n = s.usize(0, 3);
		let acts = s.list(1, 3, |s| {
			let h = s.idx(n_hot + hot_outer as usize);
			let e = match s.weighted(&[9, 2, 1, 1]) {
				0 => MEv::Next(gen_value(s)),
				1 => MEv::Complete,
				2 => MEv::Error(Er(s.range(1, 9))),
				_ if h < n_hot => MEv::Unsub,
				_ => MEv::Complete,
			};
			(h, e)
		});
		(n, acts)
	});
	if react.is_some() {
		s.note(|| format!("  the observer reacts: {react:?}"));
	}
	let max_lives = if react.is_some() { 1 } else { 2 };
	let steps = s.usize(1, s.size as usize + 6);
	let mut hots = hots;
	let mut checks = 0;
	let mut fed = 0;
	for step in 0..steps {
		world.set_step(step);
		lives.iter_mut().for_each(|l| l.m.set_step(step));
		let sel = if lives.is_empty() { 0 } else { s.weighted(&[1, 10, 12, 5, 1, 2, 1, 1, 1, 1]) };
		match sel {
			0 => {
				let late_start = hot_outer && hstate[n_hot] != HotState::Open && prefix.iter().any(|k| matches!(k, K::StartWith(_) | K::EndWith(_)));
				if lives.len() >= max_lives || late_start {
					continue;
				}
				let k = s.idx(4);
				s.note(|| format!("  step {step}: subscribe {} kind {k}", lives.len()));
				let mut m = HoM::new(kind, inners.clone(), &prefix, &suffix, hstate.clone());
				m.set_step(step);
				m.subscribe();
				if hot_outer {
					if let HotState::Done(e) = hstate[n_hot].clone() {
						m.outer(e);
					}
				} else {
					for e in cold_script(&outer_cold) {
						m.outer(e);
						fed += 1;
					}
				}
				// what it sees while it is being subscribed is not reacted to
				let skip = m.suffix.out.len();
				m.react = react.clone().map(|(n, acts)| (n + skip, acts));
				let sub = match m.react.clone() {
					None => subscribe_kind(&mut obs, &world, lives.len(), k),
					Some((n, acts)) => {
						let all = Mutex::new(hots.iter().cloned().chain([outer.clone()]).collect::<Vec<_>>());
						let r: Reaction = Arc::new(move |i, _| {
							if i != n {
								return;
							}
							for (h, e) in acts.clone() {
								let mut hot = lk(&all)[h].clone();
								match e {
									MEv::Next(v) => hot.next(v),
									MEv::Complete => hot.complete(),
									MEv::Error(e) => hot.error(e),
									MEv::Unsub => hot.unsubscribe(),
								}
							}
						});
						if k % 2 == 0 { obs.subscribe(UserObserver::new(&world, 0).reacting(r)) } else { obs.subscribe(Probe::new(&world, 0).reacting(r)) }
					}
				};
				lives.push(HoLive { sub: Some(sub), m });
			}
			1 if hot_outer => {
				let v = gen_value(s);
				s.note(|| format!("  step {step}: outer next {v} (inner {})", v.num() as usize % inners.len()));
				outer.next(v.clone());
				lives.iter_mut().for_each(|l| l.m.feed(n_hot, MEv::Next(v.clone())));
			}
			2 | 3 | 4 | 9 => {
				let h = s.idx(n_hot);
				let e = match sel {
					2 => MEv::Next(gen_value(s)),
					3 => MEv::Complete,
					4 => MEv::Error(Er(s.range(1, 9))),
					_ => MEv::Unsub,
				};
				s.note(|| format!("  step {step}: hot inner {h} {e:?}"));
				match e.clone() {
					MEv::Next(v) => hots[h].next(v),
					MEv::Complete => hots[h].complete(),
					MEv::Error(e) => hots[h].error(e),
					MEv::Unsub => hots[h].unsubscribe(),
				}
				lives.iter_mut().for_each(|l| l.m.feed(h, e.clone()));
			}
			k @ (5 | 6) if hot_outer => {
				let e = if k == 5 { MEv::Complete } else { MEv::Error(Er(s.range(1, 9))) };
				s.note(|| format!("  step {step}: outer {e:?}"));
				match e.clone() {
					MEv::Error(e) => outer.error(e),
					_ => outer.complete(),
				}
				lives.iter_mut().for_each(|l| l.m.feed(n_hot, e.clone()));
			}
			7 | 8 => {
				let i = s.idx(lives.len());
				s.note(|| format!("  step {step}: {} {i}", if sel == 7 { "unsubscribe" } else { "drop" }));
				if sel == 7 {
					if let Some(x) = lives[i].sub.as_mut() {
						x.unsubscribe()
					}
				} else {
					lives[i].sub = None;
				}
				lives[i].m.outer(MEv::Unsub);
			}
			_ => {}
		}
		if let Some(l) = lives.first() {
			hstate = l.m.hots.clone();
		}
		if lives.iter().any(|l| l.m.ambiguous) {
			return Ok(Report::new(false).label(true, "ambiguous_end"));
		}
		if lives.iter().any(|l| l.m.known) {
			return Ok(Report::new(false).label(true, "known_finding"));
		}
		checks += compare(&world, &lives, tags)?;
	}
	world.set_step(steps);
	for l in lives.iter_mut() {
		l.m.set_step(steps);
		l.sub = None;
		l.m.outer(MEv::Unsub);
	}
	checks += compare(&world, &lives, tags)?;
	let fed = fed + lives.iter().map(|l| l.m.fed).sum::<usize>();
	let subs = lives.iter().map(|l| l.m.notes.iter().filter(|n| n.1 == "isub").count()).max().unwrap_or(0);
	let got: usize = lives.iter().map(|l| l.m.suffix.out.len()).sum();
	Ok(Report::new(fed >= 2 && subs >= 2 && got >= 1)
		.checks(checks)
		.label(hot_outer, "hot_outer")
		.label(lives.iter().any(|l| l.m.reacted), "the observer reacted")
		.label(lives.iter().any(|l| l.m.max_active > 1), "concurrent_inners")
		.label(subs > 3, "4+_inner_subscriptions")
		.label(lives.len() > 1, "several_subscriptions")
		.label(lives.iter().any(|l| matches!(l.m.suffix.out.last(), Some((_, Ev::Complete)))), "completed"))
}

/// The observables `merge` and `concat`
pub fn merge_inputs(s: &mut Src) -> CaseResult {
	let k = if s.chance(1, 3) { HK::Concat } else { HK::Merge(s.usize(0, 6)) };
	run(s, k, true)
}
pub fn merge_operators(s: &mut Src) -> CaseResult {
	let k = if s.chance(1, 3) { HK::Concat } else { HK::Merge(s.usize(0, 4)) };
	run(s, k, false)
}
pub fn switch(s: &mut Src) -> CaseResult {
	run(s, HK::Switch, false)
}
pub fn exhaust(s: &mut Src) -> CaseResult {
	run(s, HK::Exhaust, false)
}

/// An outer observable that is already finished when it is subscribed to must
/// not take the inner observable it started along (a known finding)
pub fn finished_outer(s: &mut Src) -> CaseResult {
	let world = World::new();
	let kind = *s.pick(&[HK::Merge(2), HK::Concat, HK::Switch, HK::Exhaust]);
	let source = s.idx(9);
	let names = ["just", "iterator", "completed subject", "subject completed in a callback", "merge", "combine_latest", "zip", "retry", "map"];
	let n = s.usize(1, 4);
	s.note(|| format!("{kind:?} over {} ({n} values for the inner observable)", names[source]));
	let mut busy = PublishSubject::<V, Er>::default();
	let outer = match source {
		0 => BoxObs::new(just(V::I(0)).map_error(|e: Never| -> Er { match e {} })),
		1 => BoxObs::new([V::I(0)].into_observable().map_error(|e: Never| -> Er { match e {} })),
		2 => {
			let mut subject = PublishSubject::<V, Er>::default();
			subject.complete();
			BoxObs::new(subject.start_with(V::I(0)))
		}
		4 => BoxObs::new(merge([BoxObs::cloneable(busy.clone()), BoxObs::cloneable(busy.clone())], 2)),
		5 => BoxObs::new(combine_latest(busy.clone(), busy.clone()).map(|(a, _)| a)),
		6 => BoxObs::new(zip(busy.clone(), busy.clone()).map(|(a, _)| a)),
		7 => BoxObs::new(busy.clone().retry(1)),
		8 => BoxObs::new(busy.clone().map(|v| v)),
		_ => BoxObs::cloneable(busy.clone()),
	};
	let mut inner = PublishSubject::<V, Er>::default();
	let i2 = inner.clone();
	let mut obs = apply(outer, kind, false, false, move |_| BoxObs::cloneable(i2.clone()));
	let _sub = obs.subscribe(UserObserver::new(&world, 0));
	let again = busy.clone();
	if source > 3 {
		busy.next(V::I(0));
		busy.complete();
	}
	let _other = busy.subscribe(UserObserver::new(&world, 1).reacting(Arc::new(move |_, e| {
		if matches!(e, Ev::Next(_)) {
			again.clone().complete();
		}
	})));
	if source == 3 {
		busy.next(V::I(0));
	}
	for i in 0..n {
		inner.next(V::I(i as i64));
	}
	inner.complete();
	let evs = world.evs(0);
	let mut want: Vec<Ev> = (0..n).map(|i| Ev::Next(V::I(i as i64))).collect();
	want.push(Ev::Complete);
	if evs.is_empty() {
		fail!(format!("inner_cancelled:{}", names[source].replace(' ', "_")), "nothing of the inner observable was delivered, expected {}", show(&want));
	}
	// the combinations may start more than one
	if source > 3 && source < 8 && evs.contains(&Ev::Next(V::I(0))) {
		return Ok(Report::new(true));
	}
	if evs != want {
		fail!("events", "saw {}, expected {}", show(&evs), show(&want));
	}
	Ok(Report::new(true))
}
