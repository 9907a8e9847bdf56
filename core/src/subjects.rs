//! U01..U03: subjects against a multicast model

use pbt::{CaseResult, Report, Src, fail};
use rx_core::prelude::*;
use rx_core_common::{ErasedSubscription, SubjectLike};
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

use crate::base::*;
use crate::ops::subscribe_kind;
use crate::sync::*;

// ---------------------------------------------------------------- uniform access

pub trait DynSubject: Send + Sync {
	fn next(&mut self, v: V);
	fn error(&mut self, e: Er);
	fn complete(&mut self);
	fn unsubscribe(&mut self);
	fn is_closed(&self) -> bool;
	fn subscribe(&mut self, world: &World, who: usize, kind: usize) -> ErasedSubscription;
	fn subscribe_reacting(&mut self, o: UserObserver) -> ErasedSubscription;
	fn obs(&self) -> BoxObs;
	fn feed(&mut self, source: &mut BoxObs) -> ErasedSubscription;
	fn dup(&self) -> Box<dyn DynSubject>;
	fn stored(&self) -> Option<Vec<V>>;
}

pub trait Stored {
	fn stored_values(&self) -> Option<Vec<V>> {
		None
	}
}
impl Stored for PublishSubject<V, Er> {}
impl Stored for BehaviorSubject<V, Er> {
	fn stored_values(&self) -> Option<Vec<V>> {
		Some(vec![self.value()])
	}
}
impl<const CAP: usize> Stored for ReplaySubject<CAP, V, Er> {
	fn stored_values(&self) -> Option<Vec<V>> {
		Some(self.values())
	}
}
impl<F: FnMut(V, V) -> V + Send + Sync + Clone + 'static> Stored for AsyncSubject<V, Er, F> {
	fn stored_values(&self) -> Option<Vec<V>> {
		Some(self.value().into_iter().collect())
	}
}

struct SubjBox<S>(S);

impl<S> DynSubject for SubjBox<S>
where
	S: SubjectLike<In = V, InError = Er, Out = V, OutError = Er> + Clone + Send + Sync + Stored + 'static,
{
	fn next(&mut self, v: V) {
		self.0.next(v)
	}
	fn error(&mut self, e: Er) {
		self.0.error(e)
	}
	fn complete(&mut self) {
		self.0.complete()
	}
	fn unsubscribe(&mut self) {
		self.0.unsubscribe()
	}
	fn is_closed(&self) -> bool {
		self.0.is_closed()
	}
	fn subscribe(&mut self, world: &World, who: usize, kind: usize) -> ErasedSubscription {
		match kind {
			0 => ErasedSubscription::new(self.0.subscribe(UserObserver::new(world, who))),
			1 => ErasedSubscription::new(self.0.subscribe(Probe::new(world, who))),
			2 => ErasedSubscription::new(self.0.clone().map(|v| v).subscribe(UserObserver::new(world, who))),
			k => subscribe_kind(&mut BoxObs::cloneable(self.0.clone()), world, who, k - 3),
		}
	}
	fn subscribe_reacting(&mut self, o: UserObserver) -> ErasedSubscription {
		ErasedSubscription::new(self.0.subscribe(o))
	}
	fn obs(&self) -> BoxObs {
		BoxObs::cloneable(self.0.clone())
	}
	fn feed(&mut self, source: &mut BoxObs) -> ErasedSubscription {
		source.subscribe(self.0.clone())
	}
	fn dup(&self) -> Box<dyn DynSubject> {
		Box::new(SubjBox(self.0.clone()))
	}
	fn stored(&self) -> Option<Vec<V>> {
		self.0.stored_values()
	}
}

// ---------------------------------------------------------------- model

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SK {
	Publish,
	Behavior(i64),
	Replay(usize),
	Async,
	/// sum of the values as pairs
	AsyncFold,
}

pub fn make(k: SK) -> Box<dyn DynSubject> {
	match k {
		SK::Publish => Box::new(SubjBox(PublishSubject::<V, Er>::default())),
		SK::Behavior(i) => Box::new(SubjBox(BehaviorSubject::<V, Er>::new(V::I(i)))),
		SK::Replay(1) => Box::new(SubjBox(ReplaySubject::<1, V, Er>::default())),
		SK::Replay(2) => Box::new(SubjBox(ReplaySubject::<2, V, Er>::default())),
		SK::Replay(3) => Box::new(SubjBox(ReplaySubject::<3, V, Er>::default())),
		SK::Replay(_) => Box::new(SubjBox(ReplaySubject::<5, V, Er>::default())),
		SK::Async => Box::new(SubjBox(AsyncSubject::<V, Er>::default())),
		SK::AsyncFold => Box::new(SubjBox(AsyncSubject::<V, Er, fn(V, V) -> V>::new(V::p))),
	}
}

#[derive(Clone, Debug)]
enum N {
	Next(V),
	Error(Er),
	Complete,
	Unsub,
	UnsubSub(usize),
	Add(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum A {
	Next(V),
	Error(Er),
	Complete,
	Unsub,
	UnsubSub(usize),
	DropSub(usize),
	Subscribe(usize),
}

#[derive(Clone, Debug, Default)]
struct SubM {
	open: bool,
	added: bool,
	evs: Vec<(usize, Ev)>,
	teardowns: Vec<i64>,
	/// the user let go of it
	released: bool,
}

/// Multicast with a queue of notifications made while one is being delivered
pub struct SubjM {
	kind: SK,
	store: Vec<V>,
	terminal: Option<Ev>,
	unsub: bool,
	applied_closed: bool,
	subs: Vec<SubM>,
	slots: std::collections::BTreeMap<usize, usize>,
	notes: Vec<(usize, i64)>,
	queue: VecDeque<N>,
	busy: bool,
	step: usize,
	/// (reacting sub, plan, next firing)
	react: Option<(usize, Vec<Vec<A>>)>,
	fired: usize,
	armed: bool,
	rtear: Option<(usize, Vec<A>)>,
}

impl SubjM {
	fn new(kind: SK) -> Self {
		SubjM {
			kind,
			store: match kind {
				SK::Behavior(i) => vec![V::I(i)],
				_ => vec![],
			},
			terminal: None,
			unsub: false,
			applied_closed: false,
			subs: vec![],
			slots: Default::default(),
			notes: vec![],
			queue: VecDeque::new(),
			busy: false,
			step: 0,
			react: None,
			fired: 0,
			armed: false,
			rtear: None,
		}
	}
	fn closed(&self) -> bool {
		self.terminal.is_some() || self.unsub
	}
	fn deliver(&mut self, i: usize, e: Ev) {
		if !self.subs[i].open {
			return;
		}
		let st = self.step;
		self.subs[i].evs.push((st, e.clone()));
		if self.armed
			&& let Some((who, plan)) = &self.react
			&& *who == i
		{
			let k = self.fired;
			self.fired += 1;
			if let Some(acts) = plan.get(k).cloned() {
				for a in acts {
					self.act(&a);
				}
			}
		}
		if !matches!(e, Ev::Next(_)) {
			self.close_sub(i);
		}
	}
	fn close_sub(&mut self, i: usize) {
		if self.subs[i].open {
			self.subs[i].open = false;
			let st = self.step;
			for t in std::mem::take(&mut self.subs[i].teardowns) {
				self.notes.push((st, t));
			}
			if self.rtear.as_ref().is_some_and(|(w, _)| *w == i) {
				let (_, acts) = self.rtear.take().unwrap();
				for a in acts {
					self.act(&a);
				}
			}
		}
	}
	fn submit(&mut self, n: N) {
		self.queue.push_back(n);
		if self.busy {
			return;
		}
		self.busy = true;
		while let Some(n) = self.queue.pop_front() {
			self.apply(n);
		}
		self.busy = false;
	}
	fn apply(&mut self, n: N) {
		match n {
			N::Add(i) => {
				if self.applied_closed {
					self.close_sub(i);
				} else {
					self.subs[i].added = true;
				}
				return;
			}
			_ if self.applied_closed => return,
			_ => {}
		}
		let all = |s: &Self| (0..s.subs.len()).filter(|i| s.subs[*i].added).collect::<Vec<_>>();
		match n {
			N::Next(v) => {
				for i in all(self) {
					self.deliver(i, Ev::Next(v.clone()));
				}
			}
			N::Error(e) => {
				for i in all(self) {
					self.deliver(i, Ev::Error(e));
				}
			}
			N::Complete => {
				for i in all(self) {
					self.deliver(i, Ev::Complete);
				}
			}
			N::Unsub => {
				self.applied_closed = true;
				for i in all(self) {
					self.close_sub(i);
				}
			}
			N::UnsubSub(i) => self.close_sub(i),
			N::Add(_) => unreachable!(),
		}
	}
	fn next(&mut self, v: V) {
		if self.closed() {
			return;
		}
		match self.kind {
			SK::Publish => {}
			SK::Behavior(_) | SK::Async => self.store = vec![v.clone()],
			SK::Replay(n) => {
				self.store.push(v.clone());
				if self.store.len() > n {
					self.store.remove(0);
				}
			}
			SK::AsyncFold => {
				let a = self.store.pop();
				self.store.push(match a {
					Some(a) => V::p(a, v.clone()),
					None => v.clone(),
				});
			}
		}
		if !matches!(self.kind, SK::Async | SK::AsyncFold) {
			self.submit(N::Next(v));
		}
	}
	fn act(&mut self, a: &A) {
		match a {
			A::Next(v) => self.next(v.clone()),
			A::Error(e) => {
				if !self.closed() {
					self.terminal = Some(Ev::Error(*e));
					self.submit(N::Error(*e));
				}
			}
			A::Complete => {
				if !self.closed() {
					if matches!(self.kind, SK::Async | SK::AsyncFold)
						&& let Some(v) = self.store.first().cloned()
					{
						self.submit(N::Next(v));
					}
					if !self.closed() {
						self.terminal = Some(Ev::Complete);
						self.submit(N::Complete);
					}
				}
			}
			A::Unsub => {
				if !self.unsub {
					self.unsub = true;
					self.submit(N::Unsub);
				}
			}
			A::UnsubSub(slot) | A::DropSub(slot) => {
				if let Some(i) = self.slots.get(slot).copied()
					&& !self.subs[i].released
				{
					self.subs[i].released = true;
					if self.subs[i].open {
						self.submit(N::UnsubSub(i));
					}
				}
			}
			A::Subscribe(slot) => {
				let i = self.subs.len();
				self.slots.insert(*slot, i);
				self.subs.push(SubM { open: true, ..Default::default() });
				let replay = match self.kind {
					SK::Publish => vec![],
					SK::Behavior(_) | SK::Replay(_) if !matches!(self.terminal, Some(Ev::Error(_))) => self.store.clone(),
					SK::Async | SK::AsyncFold if self.terminal == Some(Ev::Complete) => self.store.clone(),
					_ => vec![],
				};
				for v in replay {
					self.deliver(i, Ev::Next(v));
				}
				if let Some(t) = self.terminal.clone() {
					self.deliver(i, t);
				}
				if self.closed() {
					self.close_sub(i);
				} else {
					self.submit(N::Add(i));
				}
			}
		}
	}
}

// ---------------------------------------------------------------- driver

type Handles = Arc<Mutex<std::collections::BTreeMap<usize, Option<ErasedSubscription>>>>;

fn real_act(a: &A, subject: &mut dyn DynSubject, handles: &Handles, world: &World, kind: usize) {
	match a {
		A::Next(v) => subject.next(v.clone()),
		A::Error(e) => subject.error(*e),
		A::Complete => subject.complete(),
		A::Unsub => subject.unsubscribe(),
		A::UnsubSub(slot) => {
			let h = lk(handles).get_mut(slot).and_then(|h| h.take());
			if let Some(mut h) = h {
				h.unsubscribe();
			}
		}
		A::DropSub(slot) => {
			let h = lk(handles).get_mut(slot).and_then(|h| h.take());
			drop(h);
		}
		A::Subscribe(slot) => {
			let h = subject.subscribe(world, *slot, kind);
			lk(handles).insert(*slot, Some(h));
		}
	}
}

fn gen_subject(s: &mut Src, publish: bool) -> SK {
	if publish {
		return SK::Publish;
	}
	match s.idx(5) {
		0 => SK::Behavior(s.range(50, 52)),
		1 | 2 => SK::Replay([1, 2, 3, 5][s.idx(4)]),
		3 => SK::Async,
		_ => SK::AsyncFold,
	}
}

fn check_all(world: &World, m: &SubjM, subject: &dyn DynSubject, handles: &Handles) -> Result<usize, pbt::Failure> {
	let mut checks = 0;
	let log = world.log();
	for (slot, i) in &m.slots {
		let real: Vec<(usize, Ev)> = log
			.iter()
			.filter(|r| r.who == *slot)
			.filter_map(|r| match &r.seen {
				Seen::Ev(e) => Some((r.step, e.clone())),
				_ => None,
			})
			.collect();
		checks += real.len() + 2;
		if let Some(l) = log.iter().find(|r| r.who == *slot && matches!(r.seen, Seen::Late(_))) {
			fail!("late", "subscriber {slot} was notified after it was closed: {l}");
		}
		if real != m.subs[*i].evs {
			let f = |v: &[(usize, Ev)]| v.iter().map(|(s, e)| format!("@{s} {e}")).collect::<Vec<_>>().join("  ");
			fail!("events", "subscriber {slot} saw      {}\nexpected by the model {}", f(&real), f(&m.subs[*i].evs));
		}
		if let Some(Some(h)) = lk(handles).get(slot)
			&& h.is_closed() == m.subs[*i].open
		{
			fail!("closed", "subscription {slot}: is_closed() = {} but the model says open = {}", h.is_closed(), m.subs[*i].open);
		}
	}
	let mut real: Vec<(usize, i64)> = log
		.iter()
		.filter_map(|r| match &r.seen {
			Seen::Note("td", n) => Some((r.step, *n)),
			_ => None,
		})
		.collect();
	let mut model = m.notes.clone();
	real.sort();
	model.sort();
	checks += real.len() + 1;
	if real != model {
		fail!("teardowns", "teardowns ran at (step, tag) {real:?}, expected {model:?}");
	}
	if subject.is_closed() != m.closed() {
		fail!("subject_closed", "the subject reports is_closed() = {}, expected {}", subject.is_closed(), m.closed());
	}
	if let Some(v) = subject.stored()
		&& v != m.store
	{
		fail!("stored", "the subject stores {}, expected {}", show(&v), show(&m.store));
	}
	Ok(checks)
}

/// Sequential histories
fn history(s: &mut Src, publish: bool) -> CaseResult {
	let world = World::new();
	let kind = gen_subject(s, publish);
	s.note(|| format!("subject {kind:?}"));
	let mut m = SubjM::new(kind);
	let mut clones: Vec<Box<dyn DynSubject>> = vec![make(kind)];
	let handles: Handles = Arc::default();
	// subscriptions that feed the subject
	let mut feeds: Vec<(PublishSubject<V, Er>, ErasedSubscription, bool)> = vec![];
	let steps = s.usize(2, s.size as usize + 6);
	let (mut slot, mut tag, mut fed, mut checks) = (0usize, 0i64, 0usize, 0usize);
	for step in 0..steps {
		world.set_step(step);
		m.step = step;
		let c = s.idx(clones.len());
		match s.weighted(&[12, 6, 2, 2, 1, 1, 1, 2, 1, 2, 2]) {
			0 => {
				let v = gen_value(s);
				s.note(|| format!("  step {step}: handle {c} next {v}"));
				clones[c].next(v.clone());
				fed += !m.closed() as usize;
				m.act(&A::Next(v));
			}
			1 => {
				if m.subs.len() >= 6 {
					continue;
				}
				let k = s.idx(7);
				s.note(|| format!("  step {step}: subscribe {slot} through handle {c}, kind {k}"));
				let h = clones[c].subscribe(&world, slot, k);
				lk(&handles).insert(slot, Some(h));
				m.act(&A::Subscribe(slot));
				slot += 1;
			}
			2 if slot > 0 => {
				let i = s.idx(slot);
				s.note(|| format!("  step {step}: unsubscribe {i}"));
				real_act(&A::UnsubSub(i), &mut *clones[c], &handles, &world, 0);
				m.act(&A::UnsubSub(i));
			}
			3 if slot > 0 => {
				let i = s.idx(slot);
				s.note(|| format!("  step {step}: drop {i}"));
				real_act(&A::DropSub(i), &mut *clones[c], &handles, &world, 0);
				m.act(&A::DropSub(i));
			}
			4 => {
				s.note(|| format!("  step {step}: complete through {c}"));
				clones[c].complete();
				m.act(&A::Complete);
			}
			5 => {
				let e = Er(s.range(1, 9));
				s.note(|| format!("  step {step}: error {e:?} through {c}"));
				clones[c].error(e);
				m.act(&A::Error(e));
			}
			6 => {
				s.note(|| format!("  step {step}: unsubscribe the subject through {c}"));
				clones[c].unsubscribe();
				m.act(&A::Unsub);
			}
			7 => {
				if clones.len() > 2 {
					s.note(|| format!("  step {step}: drop handle {c}"));
					clones.remove(c);
				} else {
					s.note(|| format!("  step {step}: clone handle {c}"));
					let d = clones[c].dup();
					clones.push(d);
				}
			}
			8 => {
				// a finite source subscribed with the subject as its destination
				let cold = gen_cold(s, 1);
				s.note(|| format!("  step {step}: feed {cold:?} through {c}"));
				let mut src = build_cold(&cold);
				let h = clones[c].feed(&mut src);
				drop(h);
				for e in cold_script(&cold) {
					match e {
						MEv::Next(v) => m.act(&A::Next(v)),
						MEv::Error(e) => m.act(&A::Error(e)),
						MEv::Complete => m.act(&A::Complete),
						MEv::Unsub => {}
					}
				}
			}
			9 => {
				// another subject whose subscription ends without ending this one
				if feeds.len() < 2 && s.chance(1, 2) {
					s.note(|| format!("  step {step}: connect source {}", feeds.len()));
					let src = PublishSubject::<V, Er>::default();
					let h = clones[c].feed(&mut BoxObs::cloneable(src.clone()));
					feeds.push((src, h, true));
				} else if !feeds.is_empty() {
					let f = s.idx(feeds.len());
					if s.chance(1, 3) {
						s.note(|| format!("  step {step}: disconnect source {f}"));
						feeds[f].1.unsubscribe();
						feeds[f].2 = false;
					} else {
						let v = gen_value(s);
						s.note(|| format!("  step {step}: source {f} next {v}"));
						feeds[f].0.next(v.clone());
						if feeds[f].2 {
							m.act(&A::Next(v));
						}
					}
				}
			}
			10 if slot > 0 => {
				let i = s.idx(slot);
				tag += 1;
				let t = tag;
				let mut g = lk(&handles);
				if let Some(Some(h)) = g.get_mut(&i) {
					s.note(|| format!("  step {step}: add teardown {t} to {i}"));
					let w = world.clone();
					h.add_teardown(Teardown::new(move || w.note(9999, "td", t)));
					let im = m.slots[&i];
					if m.subs[im].open {
						m.subs[im].teardowns.push(t);
					} else {
						m.notes.push((step, t));
					}
				}
			}
			_ => {}
		}
		checks += check_all(&world, &m, &*clones[0], &handles)?;
	}
	world.set_step(steps);
	m.step = steps;
	for i in 0..slot {
		real_act(&A::DropSub(i), &mut *clones[0], &handles, &world, 0);
		m.act(&A::DropSub(i));
	}
	checks += check_all(&world, &m, &*clones[0], &handles)?;
	let delivered: usize = m.subs.iter().map(|x| x.evs.len()).sum();
	Ok(Report::new(fed >= 2 && delivered >= 1)
		.checks(checks)
		.label(m.subs.len() > 1, "several_subscribers")
		.label(m.subs.iter().any(|x| x.evs.len() > 2), "3+_events_to_one")
		.label(m.terminal.is_some(), "terminated")
		.label(!feeds.is_empty(), "subject_as_destination"))
}

pub fn publish(s: &mut Src) -> CaseResult {
	history(s, true)
}
pub fn storing(s: &mut Src) -> CaseResult {
	history(s, false)
}

fn gen_action(s: &mut Src, slots: usize, next_slot: &mut usize) -> A {
	match s.weighted(&[8, 3, 3, 1, 1, 1, 1]) {
		0 => A::Next(gen_value(s)),
		1 => {
			*next_slot += 1;
			A::Subscribe(*next_slot)
		}
		2 if slots > 0 => A::UnsubSub(s.idx(slots)),
		3 if slots > 0 => A::DropSub(s.idx(slots)),
		4 => A::Complete,
		5 => A::Error(Er(s.range(1, 9))),
		6 => A::Unsub,
		_ => A::Next(gen_value(s)),
	}
}

/// One observer (or a teardown of its subscription) uses the subject while
/// the subject is delivering
pub fn reentrant(s: &mut Src) -> CaseResult {
	let world = World::new();
	let publish = s.chance(1, 2);
	let kind = gen_subject(s, publish);
	let mut m = SubjM::new(kind);
	let subject = make(kind);
	let mut drive = subject.dup();
	let handles: Handles = Arc::default();
	let n = s.usize(1, 4);
	let who = s.idx(n);
	let mut next_slot = 99;
	// at most five firings: the library gives up on deeper recursion by design
	let plan: Vec<Vec<A>> = s.list(0, 5, |s| s.list(0, 3, |s| gen_action(s, n, &mut next_slot)));
	let tear: Option<Vec<A>> = if s.chance(1, 2) { Some(s.list(0, 3, |s| gen_action(s, n, &mut next_slot))) } else { None };
	s.note(|| format!("subject {kind:?}, {n} subscribers, subscriber {who} reacts with {plan:?}, its teardown does {tear:?}"));
	let fired = Arc::new(AtomicUsize::new(0));
	let armed = Arc::new(AtomicBool::new(false));
	let kinds = s.idx(3);
	let mut checks = 0;
	let mut keep: Option<Reaction> = None;
	for i in 0..n {
		m.act(&A::Subscribe(i));
		let h = if i == who {
			let inner = Mutex::new(subject.dup());
			let (plan, fired, armed) = (plan.clone(), fired.clone(), armed.clone());
			let (hs, w) = (handles.clone(), world.clone());
			let r: Reaction = Arc::new(move |_, _| {
				if !armed.load(Ordering::SeqCst) {
					return;
				}
				let k = fired.fetch_add(1, Ordering::SeqCst);
				if let Some(acts) = plan.get(k) {
					for a in acts {
						let mut d = lk(&inner).dup();
						real_act(a, &mut *d, &hs, &w, kinds);
					}
				}
			});
			// dropping a handle of the subject would flush it
			keep = Some(r.clone());
			let mut h = drive.subscribe_reacting(UserObserver::new(&world, i).reacting(r));
			if let Some(acts) = tear.clone() {
				let mut d = subject.dup();
				let (hs, w) = (handles.clone(), world.clone());
				h.add_teardown(Teardown::new(move || {
					for a in acts {
						real_act(&a, &mut *d, &hs, &w, kinds);
					}
				}));
			}
			h
		} else {
			let mut h = drive.subscribe(&world, i, kinds);
			let w = world.clone();
			h.add_teardown(Teardown::new(move || w.note(9999, "td", i as i64)));
			m.subs[i].teardowns.push(i as i64);
			h
		};
		lk(&handles).insert(i, Some(h));
	}
	m.react = Some((who, plan.clone()));
	m.rtear = tear.map(|t| (who, t));
	m.armed = true;
	armed.store(true, Ordering::SeqCst);
	let steps = s.usize(1, 6);
	for step in 0..steps {
		world.set_step(step);
		m.step = step;
		let a = gen_action(s, n, &mut next_slot);
		s.note(|| format!("  step {step}: {a:?}"));
		real_act(&a, &mut *drive, &handles, &world, kinds);
		m.act(&a);
		checks += check_all(&world, &m, &*drive, &handles)?;
	}
	world.set_step(steps);
	m.step = steps;
	// without the possibility to react any longer, let go of everything
	let all: Vec<usize> = m.slots.keys().copied().collect();
	armed.store(false, Ordering::SeqCst);
	m.armed = false;
	for i in all {
		real_act(&A::DropSub(i), &mut *drive, &handles, &world, kinds);
		m.act(&A::DropSub(i));
	}
	checks += check_all(&world, &m, &*drive, &handles)?;
	let delivered: usize = m.subs.iter().map(|x| x.evs.len()).sum();
	// break the cycle handles -> subscription -> closure -> handles
	lk(&handles).clear();
	drop(keep);
	Ok(Report::new(m.fired > 0 && delivered > 1 && !plan.is_empty())
		.checks(checks)
		.label(n > 1, "several_subscribers")
		.label(m.slots.keys().any(|k| *k > 99), "subscribed_while_delivering")
		.label(m.fired > 1, "2+_reactions"))
}

/// Threads use one subject at once: nothing is lost, duplicated or reordered
/// within a thread, everybody sees the same end
pub fn threads(s: &mut Src) -> CaseResult {
	let world = World::new();
	let n = s.usize(1, 3);
	let t = s.usize(2, 3);
	// fewer notifications than the recursion limit of the subject
	let per = s.usize(1, 3);
	let kind = [SK::Publish, SK::Replay(5), SK::Behavior(50)][s.idx(3)];
	let subject = make(kind);
	let mut main = subject.dup();
	let mut subs = vec![];
	for i in 0..n {
		subs.push(main.subscribe(&world, i, s.idx(3)));
	}
	s.note(|| format!("{kind:?}: {t} threads, {per} values each, {n} subscribers"));
	let barrier = Arc::new(std::sync::Barrier::new(t));
	let hs: Vec<_> = (0..t)
		.map(|k| {
			let mut d = subject.dup();
			let b = barrier.clone();
			std::thread::spawn(move || {
				b.wait();
				for j in 0..per {
					d.next(V::I((k * 10 + j) as i64));
				}
				d
			})
		})
		.collect();
	let mut kept = vec![];
	for h in hs {
		match h.join() {
			Ok(d) => kept.push(d),
			Err(_) => fail!("thread_panic", "a thread feeding the subject panicked"),
		}
	}
	let base = if matches!(kind, SK::Behavior(_)) { 1 } else { 0 };
	// everything has arrived, before anything else happens to the subject
	for i in 0..n {
		let evs = world.evs(i);
		if evs.len() != base + t * per {
			fail!("lost", "subscriber {i} saw {} after all threads fed their values, expected {} values", show(&evs), base + t * per);
		}
	}
	main.complete();
	drop(kept);
	for i in 0..n {
		let evs = world.evs(i);
		let vals: Vec<i64> = evs.iter().filter_map(|e| if let Ev::Next(V::I(v)) = e { Some(*v) } else { None }).skip(base).collect();
		if evs.last() != Some(&Ev::Complete) || vals.len() != t * per {
			fail!("lost", "subscriber {i} saw {}, expected {} values and completion", show(&evs), t * per);
		}
		for k in 0..t as i64 {
			let mine: Vec<i64> = vals.iter().copied().filter(|v| v / 10 == k).collect();
			let want: Vec<i64> = (0..per as i64).map(|j| k * 10 + j).collect();
			if mine != want {
				fail!("order", "subscriber {i} saw thread {k}'s values as {mine:?}");
			}
		}
	}
	for i in 1..n {
		if world.evs(i)[..] != world.evs(0)[..] {
			fail!("agreement", "subscribers saw different orders: {} and {}", show(&world.evs(0)), show(&world.evs(i)));
		}
	}
	Ok(Report::new(t * per > 2).checks(n * t * per).label(n > 1, "several_subscribers"))
}

/// Threads that feed a subject while it notifies (a known finding: more than
/// ten values fed by other threads in the meantime panic)
pub fn cross_thread_rounds(s: &mut Src) -> CaseResult {
	let world = World::new();
	let rounds = s.usize(8, 14);
	let subject = PublishSubject::<V, Er>::default();
	let (to_feeder, asked) = std::sync::mpsc::channel::<()>();
	let (fed, answered) = std::sync::mpsc::channel::<()>();
	s.note(|| format!("another thread feeds one value during each of the first {rounds} notifications"));
	let (to_feeder, answered) = (Arc::new(Mutex::new(to_feeder)), Arc::new(Mutex::new(answered)));
	let mut d = subject.clone();
	let feeder = std::thread::spawn(move || {
		let mut i = 0;
		while asked.recv().is_ok() {
			i += 1;
			d.next(V::I(i));
			let _ = fed.send(());
		}
	});
	let mut main = subject.clone();
	let send = to_feeder.clone();
	let sub = main.subscribe(UserObserver::new(&world, 0).reacting(Arc::new(move |n, _| {
		if n < rounds {
			let _ = lk(&send).send(());
			let _ = lk(&answered).recv();
		}
	})));
	let panicked = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| main.next(V::I(0)))).is_err();
	*lk(&to_feeder) = std::sync::mpsc::channel().0;
	let _ = feeder.join();
	if panicked {
		// the subject still holds what was fed: giving it up would panic again
		std::mem::forget((sub, main, subject));
	}
	if panicked && rounds >= 10 {
		fail!("depth_panic", "the thread that was notifying panicked because another thread kept feeding values");
	}
	let want: Vec<Ev> = (0..=rounds as i64).map(|i| Ev::Next(V::I(i))).collect();
	if panicked || world.evs(0) != want {
		fail!("events", "saw {}, expected {}", show(&world.evs(0)), show(&want));
	}
	Ok(Report::new(true))
}

// ---------------------------------------------------------------- provenance

pub fn provenance(s: &mut Src) -> CaseResult {
	let world = World::new();
	let init = (V::I(s.range(50, 52)), s.range(0, 2));
	let subject = ProvenanceSubject::<i64, V, Er>::new(init.0.clone(), init.1);
	let mut cur = init;
	let mut drive = subject.clone();
	let mut other = subject.clone();
	let steps = s.usize(2, s.size as usize + 6);
	struct P {
		view: usize,
		prov: i64,
		open: bool,
		h: Option<ErasedSubscription>,
		evs: Vec<(usize, Ev)>,
	}
	let mut subs: Vec<P> = vec![];
	let mut terminal: Option<Ev> = None;
	let mut unsub = false;
	let (mut fed, mut checks) = (0, 0);
	for step in 0..steps {
		world.set_step(step);
		let d = if s.chance(1, 3) { &mut other } else { &mut drive };
		match s.weighted(&[10, 5, 2, 1, 1, 1]) {
			0 => {
				let v = (gen_value(s), s.range(0, 2));
				s.note(|| format!("  step {step}: next {v:?}"));
				d.next(v.clone());
				if terminal.is_none() && !unsub {
					fed += 1;
					cur = v.clone();
					for p in subs.iter_mut().filter(|p| p.open) {
						match p.view {
							0 => p.evs.push((step, Ev::Next(v.0.clone()))),
							3 => p.evs.push((step, Ev::Next(V::p(v.0.clone(), V::I(v.1))))),
							_ if p.prov == v.1 => p.evs.push((step, Ev::Next(v.0.clone()))),
							_ => {}
						}
					}
				}
			}
			1 if subs.len() < 6 => {
				let (view, prov) = (s.idx(4), s.range(0, 2));
				let who = subs.len();
				s.note(|| format!("  step {step}: subscribe {who} view {view} provenance {prov}"));
				let o = UserObserver::new(&world, who);
				let h = match view {
					0 => ErasedSubscription::new(d.all().subscribe(o)),
					1 => ErasedSubscription::new(d.replay_then_by_provenance(prov).subscribe(o)),
					2 => ErasedSubscription::new(d.only_by_provenance(prov).subscribe(o)),
					_ => ErasedSubscription::new(d.clone().map(|(v, p): (V, i64)| V::p(v, V::I(p))).subscribe(o)),
				};
				let mut evs = vec![];
				if !matches!(terminal, Some(Ev::Error(_))) {
					match view {
						0 | 1 => evs.push((step, Ev::Next(cur.0.clone()))),
						2 if prov == cur.1 => evs.push((step, Ev::Next(cur.0.clone()))),
						2 => {}
						_ => evs.push((step, Ev::Next(V::p(cur.0.clone(), V::I(cur.1))))),
					}
				}
				if let Some(t) = terminal.clone() {
					evs.push((step, t));
				}
				subs.push(P { view, prov, open: terminal.is_none() && !unsub, h: Some(h), evs });
			}
			2 if !subs.is_empty() => {
				let i = s.idx(subs.len());
				s.note(|| format!("  step {step}: drop {i}"));
				subs[i].h = None;
				subs[i].open = false;
			}
			k @ (3 | 4) => {
				let e = if k == 3 { Ev::Complete } else { Ev::Error(Er(s.range(1, 9))) };
				s.note(|| format!("  step {step}: {e:?}"));
				match &e {
					Ev::Error(e) => d.error(*e),
					_ => d.complete(),
				}
				if terminal.is_none() && !unsub {
					terminal = Some(e.clone());
					for p in subs.iter_mut().filter(|p| p.open) {
						p.evs.push((step, e.clone()));
						p.open = false;
					}
				}
			}
			5 => {
				s.note(|| format!("  step {step}: unsubscribe the subject"));
				d.unsubscribe();
				unsub = true;
				subs.iter_mut().for_each(|p| p.open = false);
			}
			_ => {}
		}
		let log = world.log();
		for (i, p) in subs.iter().enumerate() {
			let real: Vec<(usize, Ev)> = log
				.iter()
				.filter(|r| r.who == i)
				.filter_map(|r| match &r.seen {
					Seen::Ev(e) => Some((r.step, e.clone())),
					_ => None,
				})
				.collect();
			checks += real.len() + 1;
			if real != p.evs {
				fail!("events", "subscriber {i} (view {}, provenance {}) saw {real:?}, expected {:?}", p.view, p.prov, p.evs);
			}
			if p.h.as_ref().is_some_and(|h| h.is_closed() == p.open) {
				fail!("closed", "subscription {i} open {} but the model says {}", !p.open, p.open);
			}
		}
		if drive.value() != cur || drive.is_closed() != (terminal.is_some() || unsub) {
			fail!("stored", "stores {:?}, expected {cur:?}", drive.value());
		}
	}
	let delivered: usize = subs.iter().map(|p| p.evs.len()).sum();
	Ok(Report::new(fed > 1 && delivered > 1).checks(checks).label(subs.len() > 1, "several_subscribers"))
}
