//! Plain sources (just, iterators, empty, never, throw, closed, create,
//! deferred) and the wrappers an observable can be put in.

use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, RwLock, Weak};

use pbt::{CaseResult, Failure, Report, Src, fail};
use rx_core::prelude::*;
use rx_core_common::{ErasedSubscribeObservableExtension, ErasedSubscription, SharedSubscription};

use crate::base::*;

#[derive(Clone, Debug)]
enum Say {
	Next(V),
	Error(Er),
	Complete,
	Unsubscribe,
	Look,
	Teardown(i64),
}

#[derive(Clone, Debug)]
enum Sx {
	Just(i64),
	Array(Vec<i64>),
	/// An iterator that counts how often it was asked, `None` is endless
	Iter(Option<usize>),
	Empty,
	Never,
	Throw(i64),
	Closed,
	Create(Vec<Say>),
	Deferred(Box<Sx>),
	/// A different observable for every subscription
	Turns(Vec<Sx>),
	Erased(Box<Sx>),
	ErasedSubscribe(Box<Sx>),
	Opt(Option<Box<Sx>>),
	ArcMutex(Box<Sx>),
	ArcRwLock(Box<Sx>),
	Weak(Box<Sx>, bool),
}

impl Sx {
	fn clones(&self) -> bool {
		match self {
			Sx::Deferred(_) | Sx::Turns(_) | Sx::ErasedSubscribe(_) => false,
			Sx::Opt(Some(x)) => x.clones(),
			_ => true,
		}
	}
	fn endless(&self) -> bool {
		match self {
			Sx::Iter(None) => true,
			Sx::Turns(l) => l.iter().any(|x| x.endless()),
			Sx::Deferred(x) | Sx::Erased(x) | Sx::ErasedSubscribe(x) | Sx::Opt(Some(x)) | Sx::ArcMutex(x) | Sx::ArcRwLock(x) | Sx::Weak(x, _) => x.endless(),
			_ => false,
		}
	}
	/// Subscriptions of erased observables are only closed by their handle
	fn erased(&self) -> bool {
		match self {
			Sx::Erased(_) | Sx::ErasedSubscribe(_) => true,
			Sx::Turns(l) => l.iter().any(|x| x.erased()),
			Sx::Deferred(x) | Sx::Opt(Some(x)) | Sx::ArcMutex(x) | Sx::ArcRwLock(x) | Sx::Weak(x, _) => x.erased(),
			_ => false,
		}
	}
}

fn say(s: &mut Src, notes: &mut i64) -> Say {
	match s.weighted(&[8, 1, 1, 1, 2, 2]) {
		0 => Say::Next(V::I(s.range(0, 9))),
		1 => Say::Error(Er(s.range(0, 9))),
		2 => Say::Complete,
		3 => Say::Unsubscribe,
		4 => Say::Look,
		_ => {
			*notes += 1;
			Say::Teardown(*notes - 1)
		}
	}
}

fn source(s: &mut Src, depth: u32, notes: &mut i64) -> Sx {
	let wrap = if depth == 0 { 0 } else { 1 };
	let sub = |s: &mut Src, notes: &mut i64| Box::new(source(s, depth.saturating_sub(1), notes));
	match s.weighted(&[3, 3, 4, 1, 1, 2, 1, 8, 3 * wrap, 2 * wrap, 3 * wrap, wrap, 3 * wrap, 2 * wrap, 2 * wrap, 2 * wrap]) {
		0 => Sx::Just(s.range(0, 9)),
		1 => Sx::Array(s.list(0, 5, |s| s.range(0, 9))),
		2 => Sx::Iter(if s.chance(1, 3) { None } else { Some(s.usize(0, 6)) }),
		3 => Sx::Empty,
		4 => Sx::Never,
		5 => Sx::Throw(s.range(0, 9)),
		6 => Sx::Closed,
		7 => Sx::Create(s.list(0, 8, |s| say(s, notes))),
		8 => Sx::Deferred(sub(s, notes)),
		9 => Sx::Turns(s.list(1, 3, |s| source(s, depth.saturating_sub(1), notes))),
		10 => Sx::Erased(sub(s, notes)),
		11 => Sx::ErasedSubscribe(sub(s, notes)),
		12 => Sx::Opt(if s.chance(3, 4) { Some(sub(s, notes)) } else { None }),
		13 => Sx::ArcMutex(sub(s, notes)),
		14 => Sx::ArcRwLock(sub(s, notes)),
		_ => Sx::Weak(sub(s, notes), s.chance(3, 4)),
	}
}

#[derive(Clone)]
struct Counting {
	at: usize,
	limit: Option<usize>,
	asked: Arc<AtomicUsize>,
}
impl Iterator for Counting {
	type Item = V;
	fn next(&mut self) -> Option<V> {
		if self.asked.fetch_add(1, Ordering::SeqCst) > 5000 {
			panic!("runaway: the iterator is asked on and on");
		}
		if self.limit.is_some_and(|l| self.at >= l) {
			return None;
		}
		self.at += 1;
		Some(V::I(100 + self.at as i64))
	}
}

#[derive(Clone, Default)]
struct Env {
	world: World,
	asked: Arc<AtomicUsize>,
	created: Arc<AtomicUsize>,
	deferred: Arc<AtomicUsize>,
	keep: Arc<Mutex<Vec<Arc<Mutex<BoxObs>>>>>,
}

/// Subscribes through `erased_subscribe`
#[derive(rx_core_macro_observable_derive::RxObservable)]
#[rx_out(V)]
#[rx_out_error(Er)]
struct ByErasedSubscribe(BoxObs);
impl Observable for ByErasedSubscribe {
	type Subscription<Destination>
		= rx_core_common::SubscriptionData
	where
		Destination: 'static + Subscriber<In = Self::Out, InError = Self::OutError>;
	fn subscribe<Destination>(&mut self, destination: Destination) -> Self::Subscription<Destination::Upgraded>
	where
		Destination: 'static + rx_core_common::UpgradeableObserver<In = Self::Out, InError = Self::OutError> + Send + Sync,
	{
		self.0.erased_subscribe(Box::new(destination.upgrade()))
	}
}

fn never<T>(e: rx_core_common::Never) -> T {
	match e {}
}

fn build(x: &Sx, e: &Env) -> BoxObs {
	match x {
		Sx::Just(v) => BoxObs::cloneable(just(V::I(*v)).map_error(never::<Er>)),
		Sx::Array(l) => BoxObs::cloneable(l.iter().map(|v| V::I(*v)).collect::<Vec<_>>().into_observable().map_error(never::<Er>)),
		Sx::Iter(limit) => BoxObs::cloneable(Counting { at: 0, limit: *limit, asked: e.asked.clone() }.into_observable().map_error(never::<Er>)),
		Sx::Empty => BoxObs::cloneable(empty().map(never::<V>).map_error(never::<Er>)),
		Sx::Never => BoxObs::cloneable(rx_core::prelude::never().map(never::<V>).map_error(never::<Er>)),
		Sx::Throw(v) => BoxObs::cloneable(throw(Er(*v)).map(never::<V>)),
		Sx::Closed => BoxObs::cloneable(closed().map(never::<V>).map_error(never::<Er>)),
		Sx::Create(script) => {
			let (script, e) = (script.clone(), e.clone());
			BoxObs::cloneable(create_observable::<V, Er, _>(move |d: &mut dyn Subscriber<In = V, InError = Er>| {
				e.created.fetch_add(1, Ordering::SeqCst);
				for s in script {
					match s {
						Say::Next(v) => d.next(v),
						Say::Error(v) => d.error(v),
						Say::Complete => d.complete(),
						Say::Unsubscribe => {
							if !d.is_closed() {
								d.unsubscribe()
							}
						}
						Say::Look => e.world.note(usize::MAX, "look", d.is_closed() as i64),
						Say::Teardown(n) => {
							let w = e.world.clone();
							d.add_teardown(Teardown::new(move || w.note(usize::MAX, "inner", n)));
						}
					}
				}
			}))
		}
		Sx::Deferred(x) => {
			let (x, e) = (x.clone(), e.clone());
			let count = e.deferred.clone();
			BoxObs::new(deferred_observable(move || {
				count.fetch_add(1, Ordering::SeqCst);
				build(&x, &e)
			}))
		}
		Sx::Turns(l) => {
			let (l, e) = (l.clone(), e.clone());
			let count = e.deferred.clone();
			let mut turn = 0;
			BoxObs::new(deferred_observable(move || {
				count.fetch_add(1, Ordering::SeqCst);
				turn += 1;
				build(&l[(turn - 1) % l.len()], &e)
			}))
		}
		Sx::Erased(x) => BoxObs::cloneable(build(x, e).erase()),
		Sx::ErasedSubscribe(x) => BoxObs::new(ByErasedSubscribe(build(x, e))),
		Sx::Opt(Some(x)) => {
			if x.clones() {
				BoxObs::cloneable(Some(build(x, e)))
			} else {
				BoxObs::new(Some(build(x, e)))
			}
		}
		Sx::Opt(None) => BoxObs::cloneable(None::<BoxObs>),
		Sx::ArcMutex(x) => BoxObs::cloneable(Arc::new(Mutex::new(build(x, e)))),
		Sx::ArcRwLock(x) => BoxObs::cloneable(Arc::new(RwLock::new(build(x, e)))),
		Sx::Weak(x, alive) => {
			let strong = Arc::new(Mutex::new(build(x, e)));
			let weak: Weak<Mutex<BoxObs>> = Arc::downgrade(&strong);
			if *alive {
				lk(&e.keep).push(strong);
			}
			BoxObs::cloneable(weak)
		}
	}
}

#[derive(Clone, Copy, Debug)]
enum Dest {
	Probe,
	/// Closes itself while it handles its n-th value
	Closing(usize),
	/// Closed before anything arrives
	Closed,
	User,
	Fn,
	DynFn,
	/// `take(n)` in front of a probe
	Take(usize),
}

struct M {
	evs: Vec<Ev>,
	looks: Vec<i64>,
	inner: Vec<(usize, i64)>,
	pending: Vec<i64>,
	closed: bool,
	/// The subscription handle itself was closed
	released: bool,
	asked: usize,
	slack: usize,
	created: usize,
	deferred: usize,
	values: usize,
	stop_at: Option<(usize, bool)>,
}

impl M {
	fn close(&mut self, step: usize) {
		self.closed = true;
		let p = std::mem::take(&mut self.pending);
		self.inner.extend(p.into_iter().map(|n| (step, n)));
	}
	fn next(&mut self, v: V, step: usize) {
		if self.closed {
			return;
		}
		self.evs.push(Ev::Next(v));
		self.values += 1;
		if let Some((n, completes)) = self.stop_at
			&& self.values == n
		{
			if completes {
				self.evs.push(Ev::Complete);
			}
			self.close(step);
		}
	}
	fn end(&mut self, e: Ev, step: usize) {
		if !self.closed {
			self.evs.push(e);
			self.close(step);
		}
	}
	/// `turns` counts the subscriptions to every `Turns` node, in the order of
	/// the nodes
	fn run(&mut self, x: &Sx, step: usize, turns: &mut Turns) {
		match x {
			Sx::Just(v) => {
				self.next(V::I(*v), step);
				self.end(Ev::Complete, step);
			}
			Sx::Array(l) => {
				for v in l {
					self.next(V::I(*v), step);
				}
				self.end(Ev::Complete, step);
			}
			Sx::Iter(limit) => {
				let mut i = 0;
				while !self.closed && limit.is_none_or(|l| i < l) {
					i += 1;
					self.next(V::I(100 + i as i64), step);
				}
				// what it needs to ask for, it may look one further ahead
				self.asked += i;
				self.slack += 1;
				self.end(Ev::Complete, step);
			}
			Sx::Empty => self.end(Ev::Complete, step),
			Sx::Never => {}
			Sx::Throw(e) => self.end(Ev::Error(Er(*e)), step),
			Sx::Closed => {
				if !self.closed {
					self.close(step);
				}
			}
			Sx::Create(script) => {
				self.created += 1;
				for s in script {
					match s {
						Say::Next(v) => self.next(v.clone(), step),
						Say::Error(e) => self.end(Ev::Error(*e), step),
						Say::Complete => self.end(Ev::Complete, step),
						Say::Unsubscribe => {
							if !self.closed {
								self.close(step);
							}
						}
						Say::Look => self.looks.push(self.closed as i64),
						Say::Teardown(n) => {
							if self.closed {
								self.inner.push((step, *n));
							} else {
								self.pending.push(*n);
							}
						}
					}
				}
			}
			Sx::Deferred(x) => {
				self.deferred += 1;
				// built anew: what is inside starts over
				self.run(x, step, &mut Turns::default());
			}
			Sx::Turns(l) => {
				self.deferred += 1;
				let turn = turns.turn(l);
				self.run(&l[turn], step, &mut Turns::default());
			}
			Sx::Erased(x) | Sx::ErasedSubscribe(x) | Sx::Opt(Some(x)) | Sx::ArcMutex(x) | Sx::ArcRwLock(x) | Sx::Weak(x, true) => self.run(x, step, turns),
			Sx::Opt(None) | Sx::Weak(_, false) => {
				// the destination is let go
				if !self.closed {
					self.close(step);
				}
			}
		}
	}
}

/// There is at most one `Turns` node on the way from the root that is not
/// below a `deferred`, as these are all linear
#[derive(Default)]
struct Turns(usize);
impl Turns {
	fn turn(&mut self, l: &[Sx]) -> usize {
		self.0 += 1;
		(self.0 - 1) % l.len()
	}
}

enum Sub {
	Open(ErasedSubscription),
	Gone,
}

pub fn programs(s: &mut Src) -> CaseResult {
	let mut notes = 0;
	let x = source(s, 4, &mut notes);
	s.note(|| format!("source {x:?}"));
	let e = Env::default();
	let world = e.world.clone();
	let mut obs = vec![build(&x, &e)];
	let mut turns = Turns::default();
	let mut lives: Vec<(Sub, M, Dest, SharedSubscription)> = vec![];
	let mut downs: Vec<(usize, i64, bool)> = vec![]; // owner, note, ran
	let steps = s.usize(1, 8);
	let mut checks = 0;
	for step in 0..steps + 1 {
		world.set_step(step);
		let open: Vec<usize> = (0..lives.len()).filter(|i| matches!(lives[*i].0, Sub::Open(_))).collect();
		let op = if step == steps {
			9
		} else if open.is_empty() {
			0
		} else {
			s.weighted(&[4, 3, 1, 1, 1])
		};
		match op {
			0 => {
				if x.clones() && s.chance(1, 3) {
					let c = obs[0].clone();
					obs.push(c);
				}
				let from = s.idx(obs.len());
				let endless = x.endless();
				let dest = match s.weighted(&[if endless { 0 } else { 3 }, 4, 1, if endless { 0 } else { 2 }, if endless { 0 } else { 2 }, if endless { 0 } else { 2 }, 3]) {
					0 => Dest::Probe,
					1 => Dest::Closing(s.usize(1, 4)),
					2 => Dest::Closed,
					3 => Dest::User,
					4 => Dest::Fn,
					5 => Dest::DynFn,
					_ => Dest::Take(s.usize(1, 4)),
				};
				let who = lives.len();
				s.note(|| format!("  step {step}: subscribe {dest:?} to clone {from} (subscription {who})"));
				let mut m = M {
					evs: vec![],
					looks: vec![],
					inner: vec![],
					pending: vec![],
					closed: false,
					released: false,
					asked: 0,
					slack: 0,
					created: 0,
					deferred: 0,
					values: 0,
					stop_at: match dest {
						Dest::Closing(n) => Some((n, false)),
						Dest::Take(n) => Some((n, true)),
						_ => None,
					},
				};
				let mut p = Probe::new(&world, who);
				let handle = p.teardown.clone();
				let w = world.clone();
				p.add_teardown(Teardown::new(move || w.note(who, "end", 0)));
				let o = &mut obs[from];
				let before = world.count("look", 0) + world.count("look", 1);
				let counts = (e.asked.load(Ordering::SeqCst), e.created.load(Ordering::SeqCst), e.deferred.load(Ordering::SeqCst));
				let sub = match dest {
					Dest::Probe => o.subscribe(p),
					Dest::Closing(k) => {
						let h = handle.clone();
						o.subscribe(p.reacting(Arc::new(move |n, _| {
							if n + 1 == k {
								h.clone().unsubscribe();
							}
						})))
					}
					Dest::Closed => {
						m.closed = true;
						p.teardown.unsubscribe();
						o.subscribe(p)
					}
					Dest::User => o.subscribe(UserObserver::new(&world, who)),
					Dest::Fn => {
						let (a, b, c) = (world.clone(), world.clone(), world.clone());
						o.subscribe(FnObserver::new(
							move |v| a.push(who, Seen::Ev(Ev::Next(v))),
							move |x| b.push(who, Seen::Ev(Ev::Error(x))),
							move || c.push(who, Seen::Ev(Ev::Complete)),
						))
					}
					Dest::DynFn => {
						let (a, b, c) = (world.clone(), world.clone(), world.clone());
						let ob = DynFnObserver::default()
							.with_next(move |v| a.push(who, Seen::Ev(Ev::Next(v))))
							.with_error(move |x| b.push(who, Seen::Ev(Ev::Error(x))))
							.with_complete(move || c.push(who, Seen::Ev(Ev::Complete)));
						o.subscribe(ob)
					}
					Dest::Take(n) => {
						// a fresh pipe over the same source, by the shared way
						let shared = Shared(Arc::new(Mutex::new(std::mem::replace(o, BoxObs::new(None::<BoxObs>)))));
						let sub = ErasedSubscription::new(shared.clone().take(n).subscribe(p));
						*o = BoxObs::new(None::<BoxObs>);
						std::mem::swap(o, &mut *lk(&shared.0));
						sub
					}
				};
				m.run(&x, step, &mut turns);
				checks += 4;
				let asked = e.asked.load(Ordering::SeqCst) - counts.0;
				if asked < m.asked || asked > m.asked + m.slack {
					fail!("lazy", "step {step}: the iterator was asked {asked} times for {} values", m.asked);
				}
				if e.created.load(Ordering::SeqCst) - counts.1 != m.created {
					fail!("producer", "step {step}: the producer of create ran {} times for one subscription", e.created.load(Ordering::SeqCst) - counts.1);
				}
				if e.deferred.load(Ordering::SeqCst) - counts.2 != m.deferred {
					fail!("creator", "step {step}: the functions of deferred ran {} times, expected {}", e.deferred.load(Ordering::SeqCst) - counts.2, m.deferred);
				}
				let looks: Vec<i64> = world
					.of(usize::MAX)
					.iter()
					.filter_map(|r| match r.seen {
						Seen::Note("look", n) => Some(n),
						_ => None,
					})
					.skip(before)
					.collect();
				if looks != m.looks {
					fail!("look", "step {step}: the producer saw is_closed {looks:?} of its destination, expected {:?}", m.looks);
				}
				lives.push((Sub::Open(sub), m, dest, handle));
			}
			1 => {
				let i = *s.pick(&open);
				let n = downs.len() as i64;
				s.note(|| format!("  step {step}: add teardown {n} to subscription {i}"));
				let w = world.clone();
				if let Sub::Open(sub) = &mut lives[i].0 {
					sub.add_teardown(Teardown::new(move || w.note(usize::MAX - 1, "down", n)));
				}
				downs.push((i, n, false));
			}
			2 | 3 => {
				let i = *s.pick(&open);
				s.note(|| format!("  step {step}: {} subscription {i}", if op == 2 { "unsubscribe" } else { "drop" }));
				let l = &mut lives[i];
				if op == 2 {
					if let Sub::Open(sub) = &mut l.0 {
						sub.unsubscribe();
					}
				} else {
					l.0 = Sub::Gone;
				}
				l.1.released = true;
				if !l.1.closed {
					l.1.close(step);
				}
			}
			4 => {
				// closing the destination closes the subscription's source too,
				// not observable before the next signal: nothing to see here
				s.note(|| format!("  step {step}: nothing"));
			}
			_ => {
				s.note(|| format!("  step {step}: drop everything"));
				for l in &mut lives {
					l.0 = Sub::Gone;
					l.1.released = true;
					if !l.1.closed {
						l.1.close(step);
					}
				}
			}
		}
		// compare
		let log = world.log();
		for (who, (sub, m, dest, _)) in lives.iter().enumerate() {
			let got: Vec<Ev> = log
				.iter()
				.filter(|r| r.who == who)
				.filter_map(|r| match &r.seen {
					Seen::Ev(e) => Some(e.clone()),
					_ => None,
				})
				.collect();
			checks += got.len() + 2;
			if got != m.evs {
				return Err(Failure::new("events", format!("subscription {who} ({dest:?}) saw {}\nexpected {}", show(&got), show(&m.evs))));
			}
			if let Sub::Open(sub) = sub
				&& (!x.erased() || m.released)
				&& sub.is_closed() != (m.closed || m.released)
				&& !matches!(dest, Dest::Closed)
			{
				fail!("closed", "step {step}: subscription {who} says is_closed() = {}, expected {}", sub.is_closed(), m.closed);
			}
			if !matches!(dest, Dest::User | Dest::Fn | Dest::DynFn) {
				let ends = log.iter().filter(|r| r.who == who && r.seen == Seen::Note("end", 0)).count();
				if ends != m.closed as usize {
					fail!("end", "step {step}: the teardown of destination {who} ran {ends} times, closed: {}", m.closed);
				}
			}
		}
		let mut inner: Vec<(usize, i64)> = log
			.iter()
			.filter_map(|r| match r.seen {
				Seen::Note("inner", n) => Some((r.step, n)),
				_ => None,
			})
			.collect();
		let mut want: Vec<(usize, i64)> = lives.iter().flat_map(|l| l.1.inner.clone()).collect();
		inner.sort();
		want.sort();
		checks += want.len() + downs.len();
		if inner != want {
			fail!("inner", "step {step}: teardowns added by the producer ran (step, which) {inner:?}, expected {want:?}");
		}
		for d in &mut downs {
			let ran = world.count("down", d.1);
			let (_, m, dest, _) = &lives[d.0];
			let must = m.released || (m.closed && !x.erased() && !matches!(dest, Dest::Closed));
			if ran > 1 || (must && ran == 0) || (ran > 0 && !m.closed && !m.released) {
				fail!("down", "step {step}: teardown {} of subscription {} ran {ran} times, closed: {}, released: {}", d.1, d.0, m.closed, m.released);
			}
		}
	}
	let values: usize = lives.iter().map(|l| l.1.evs.len()).sum();
	Ok(Report::new(values >= 1)
		.checks(checks)
		.label(lives.len() > 1, "several_subscriptions")
		.label(obs.len() > 1, "cloned_source")
		.label(x.endless(), "endless")
		.label(lives.iter().any(|l| matches!(l.2, Dest::Closing(n) if l.1.values == n)), "closed_by_the_destination")
		.label(!matches!(x, Sx::Just(_) | Sx::Array(_) | Sx::Iter(_) | Sx::Empty | Sx::Never | Sx::Throw(_) | Sx::Closed | Sx::Create(_)), "wrapped"))
}

/// Hands out the same source again and again without asking it to be cloned
#[derive(Clone, rx_core_macro_observable_derive::RxObservable)]
#[rx_out(V)]
#[rx_out_error(Er)]
struct Shared(Arc<Mutex<BoxObs>>);
impl Observable for Shared {
	type Subscription<Destination>
		= ErasedSubscription
	where
		Destination: 'static + Subscriber<In = Self::Out, InError = Self::OutError>;
	fn subscribe<Destination>(&mut self, destination: Destination) -> Self::Subscription<Destination::Upgraded>
	where
		Destination: 'static + rx_core_common::UpgradeableObserver<In = Self::Out, InError = Self::OutError> + Send + Sync,
	{
		lk(&self.0).subscribe(destination)
	}
}
