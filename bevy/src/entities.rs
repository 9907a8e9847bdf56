//! B02: observables and subjects on entities, subscriptions as entities

use bevy_app::AppExit;
use bevy_ecs::prelude::*;
use bevy_ecs::system::SystemState;
use pbt::{CaseResult, Report, Src, fail};
use rx_bevy::prelude::*;
use rx_core_common::{Never, SubscriptionLike, Teardown, TeardownCollection};
use std::sync::{Arc, Mutex};

use crate::base::{BoxObs, Er, Ev, Probe, Reaction, Seen, V, World as Log, lk, show};
use crate::rig::{H, Rig, Script};

type Subject = PublishSubject<V, Er>;
type Slot = Arc<Mutex<Option<EntitySubscription>>>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Comp {
	Subject(usize),
	/// a subject behind an observable, with a limit
	Hot(usize, Option<usize>),
	/// values from, how many
	Cold(i64, i64),
	Never,
	Throw(i64),
	/// of the first entity
	Proxy,
}

impl Comp {
	/// The types of the component
	fn class(self) -> u8 {
		match self {
			Comp::Subject(_) => 0,
			Comp::Proxy => 2,
			_ => 1,
		}
	}
	fn satellites(self) -> i64 {
		if self.class() == 0 { 2 } else { 1 }
	}
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
	Commands,
	EntityCommands,
	AsObservable,
	Query,
	/// a subscription of an observable that is on no entity
	With(Comp),
}

#[derive(Clone, Debug)]
enum A {
	Insert(usize, Comp),
	Remove(usize),
	Despawn(usize),
	Feed(usize, Ev),
	Signal(usize, Ev),
	Subscribe { e: usize, via: Via, limit: Option<usize>, leave: Option<usize> },
	/// despawn its entity, by a command
	Despawned(usize),
	Unsubscribe(usize),
	/// remove its component
	Stripped(usize),
	/// drop what `subscribe` returned
	Dropped(usize),
	Exit,
}

struct Held {
	entity: Option<Entity>,
	slot: Slot,
}

/// Everything an action needs
#[derive(Resource)]
struct Ctx {
	targets: Vec<Entity>,
	subjects: Vec<Subject>,
	subs: Vec<Held>,
	h: H,
	log: Log,
}

fn observable(ctx: &Ctx, c: Comp) -> BoxObs {
	match c {
		Comp::Hot(s, None) => BoxObs::new(ctx.subjects[s].clone()),
		Comp::Hot(s, Some(n)) => BoxObs::new(ctx.subjects[s].clone().take(n)),
		Comp::Cold(from, n) => BoxObs::new(IteratorObservable::new((from..from + n).map(V::I).collect::<Vec<_>>()).map_error(|e| match e {})),
		Comp::Never => BoxObs::new(NeverObservable::default().map(|e: Never| -> V { match e {} }).map_error(|e: Never| -> Er { match e {} })),
		Comp::Throw(n) => BoxObs::new(ThrowObservable::<Er>::new(Er(n)).map(|e: Never| -> V { match e {} })),
		_ => unreachable!(),
	}
}

fn alive(world: &World, e: Entity) -> bool {
	world.get_entity(e).is_ok()
}

fn strip(world: &mut World, e: Entity) {
	let mut e = world.entity_mut(e);
	if e.contains::<SubjectComponent<Subject>>() {
		e.remove::<SubjectComponent<Subject>>();
	} else if e.contains::<ObservableComponent<BoxObs>>() {
		e.remove::<ObservableComponent<BoxObs>>();
	} else if e.contains::<ObservableComponent<ProxyObservable<V, Er>>>() {
		e.remove::<ObservableComponent<ProxyObservable<V, Er>>>();
	}
}

fn act(world: &mut World, a: &A) {
	world.resource_scope(|world, mut ctx: Mut<Ctx>| {
		let ctx = &mut *ctx;
		match a {
			A::Insert(i, c) => {
				let e = ctx.targets[*i];
				if alive(world, e) {
					let r = world.entity(e);
					let same = match c.class() {
						0 => r.contains::<SubjectComponent<Subject>>(),
						1 => r.contains::<ObservableComponent<BoxObs>>(),
						_ => r.contains::<ObservableComponent<ProxyObservable<V, Er>>>(),
					};
					if !same {
						strip(world, e);
						world.flush();
					}
					let mut e = world.entity_mut(e);
					match *c {
						Comp::Subject(s) => e.insert(ctx.subjects[s].clone().into_component()),
						Comp::Proxy => e.insert(ProxyObservable::<V, Er>::new(ctx.targets[0], ctx.h.clone()).into_component()),
						c => e.insert(observable(ctx, c).into_component()),
					};
				}
			}
			A::Remove(i) => {
				let e = ctx.targets[*i];
				if alive(world, e) {
					strip(world, e);
				}
			}
			A::Despawn(i) => {
				let e = ctx.targets[*i];
				if alive(world, e) {
					world.despawn(e);
				}
			}
			A::Feed(s, ev) => {
				let s = &mut ctx.subjects[*s];
				match ev.clone() {
					Ev::Next(v) => s.next(v),
					Ev::Error(e) => s.error(e),
					Ev::Complete => s.complete(),
				}
			}
			A::Signal(i, ev) => {
				let e = ctx.targets[*i];
				if alive(world, e) {
					world.trigger(match ev.clone() {
						Ev::Next(v) => RxSignal::<V, Er>::new_next(v, e),
						Ev::Error(x) => RxSignal::<V, Er>::new_error(x, e),
						Ev::Complete => RxSignal::<V, Er>::new_complete(e),
					});
				}
			}
			A::Subscribe { e, via, limit, leave } => {
				let i = ctx.subs.len();
				let target = ctx.targets[*e];
				let slot: Slot = Arc::default();
				let (me, leave) = (slot.clone(), *leave);
				let reaction: Reaction = Arc::new(move |k, _| {
					if leave == Some(k) {
						let h = lk(&me).take();
						if let Some(mut h) = h {
							h.unsubscribe();
						}
					}
				});
				let mut probe = Probe::new(&ctx.log, i).reacting(reaction);
				let l = ctx.log.clone();
				probe.add_teardown(Teardown::new(move || l.note(100 + i, "down", 0)));
				let there = alive(world, target);
				let entity = match via {
					Via::EntityCommands if there => Some(world.commands().entity(target).subscribe_destination(probe)),
					Via::AsObservable if there => {
						let mut c = world.commands();
						let mut c = c.entity(target);
						let o = &mut c.as_observable::<V, Er>(ctx.h.clone());
						let sub = match limit {
							Some(n) => {
								// pipes need an observable without borrows
								let e = c.id();
								let _ = e;
								let mut c2 = c.reborrow();
								c2.as_observable::<V, Er>(ctx.h.clone()).take(*n).subscribe(probe)
							}
							None => o.subscribe(probe),
						};
						let e = sub.entity();
						*lk(&slot) = Some(sub);
						Some(e)
					}
					Via::Query => {
						let mut state = SystemState::<ObservableQuery<V, Er>>::new(world);
						let r = state.get_mut(world).try_subscribe_to(target, probe);
						state.apply(world);
						r.ok()
					}
					Via::With(c) => {
						let o = observable(ctx, *c);
						let sub = world.commands().with_observable(o, ctx.h.clone()).subscribe(probe);
						let e = sub.entity();
						*lk(&slot) = Some(sub);
						Some(e)
					}
					_ => Some(world.commands().subscribe(target, probe)),
				};
				ctx.subs.push(Held { entity, slot });
			}
			A::Despawned(i) => {
				if let Some(e) = ctx.subs[*i].entity {
					world.commands().unsubscribe(e);
				}
			}
			A::Unsubscribe(i) => {
				let h = lk(&ctx.subs[*i].slot).take();
				if let Some(mut h) = h {
					h.unsubscribe();
				}
			}
			A::Stripped(i) => {
				if let Some(mut e) = ctx.subs[*i].entity.and_then(|e| world.get_entity_mut(e).ok()) {
					e.remove::<SubscriptionComponent>();
				}
			}
			A::Dropped(i) => {
				let h = lk(&ctx.subs[*i].slot).take();
				drop(h);
			}
			A::Exit => {
				world.write_message(AppExit::Success);
			}
		}
		world.flush();
	});
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
	/// the proxied entity is subscribed to in the next Update
	Proxying,
	/// nothing was there to subscribe to yet
	Waiting { inner: bool },
	/// the reserved entity is gone
	GivenUp { inner: bool },
	/// to a subject, to another entity
	Open { subject: Option<usize>, inner: bool },
	Closed,
}

struct Sub {
	e: usize,
	st: St,
	limit: Option<usize>,
	leave: Option<usize>,
	/// what `subscribe` returned is still held
	held: bool,
	got: usize,
	/// the completion may be missing
	either: bool,
	/// updates it was closed during or before
	gone_for: usize,
	entity: bool,
}

struct M {
	alive: [bool; 2],
	comp: [Option<Comp>; 2],
	/// what ended it: Err(()) when unsubscribed
	subjects: Vec<Option<Result<Ev, ()>>>,
	subs: Vec<Sub>,
	out: Vec<Vec<Ev>>,
	exit: bool,
}

impl M {
	fn close(&mut self, i: usize) {
		self.subs[i].st = St::Closed;
	}
	fn deliver(&mut self, i: usize, ev: Ev) {
		let s = &mut self.subs[i];
		if s.st == St::Closed {
			return;
		}
		let end = !matches!(ev, Ev::Next(_));
		let k = s.got;
		s.got += 1;
		self.out[i].push(ev);
		if end {
			s.st = St::Closed;
		} else if s.limit == Some(s.got) {
			// left by the very call that reached the limit: either comes first
			s.either = s.leave == Some(k) && s.held;
			self.out[i].push(Ev::Complete);
			s.st = St::Closed;
		} else if s.leave == Some(k) && s.held {
			s.st = St::Closed;
		}
	}
	fn feed(&mut self, s: usize, ev: &Ev) {
		if self.subjects[s].is_some() {
			return;
		}
		if !matches!(ev, Ev::Next(_)) {
			self.subjects[s] = Some(Ok(ev.clone()));
		}
		for i in 0..self.subs.len() {
			if matches!(self.subs[i].st, St::Open { subject: Some(x), .. } if x == s) {
				self.deliver(i, ev.clone());
			}
		}
	}
	fn end(&mut self, s: usize) {
		if self.subjects[s].is_none() {
			self.subjects[s] = Some(Err(()));
			for i in 0..self.subs.len() {
				if matches!(self.subs[i].st, St::Open { subject: Some(x), .. } if x == s) {
					self.close(i);
				}
			}
		}
	}
	/// Subscribes to what is in the component
	fn attach(&mut self, i: usize, c: Comp, inner: bool) {
		if self.subs[i].st == St::Closed {
			return;
		}
		self.subs[i].st = St::Open { subject: None, inner };
		match c {
			Comp::Subject(s) | Comp::Hot(s, _) => {
				if let Comp::Hot(_, Some(n)) = c {
					let l = &mut self.subs[i].limit;
					*l = Some(l.map_or(n, |l| l.min(n)));
				}
				match self.subjects[s].clone() {
					None => self.subs[i].st = St::Open { subject: Some(s), inner },
					Some(Ok(ev)) => self.deliver(i, ev),
					Some(Err(())) => self.close(i),
				}
			}
			Comp::Cold(from, n) => {
				for v in from..from + n {
					self.deliver(i, Ev::Next(V::I(v)));
				}
				self.deliver(i, Ev::Complete);
			}
			Comp::Never => {}
			Comp::Throw(n) => self.deliver(i, Ev::Error(Er(n))),
			Comp::Proxy => self.subs[i].st = St::Proxying,
		}
	}
	/// One attempt to find an observable on the entity
	fn attempt(&mut self, i: usize, inner: bool) {
		let e = if inner { 0 } else { self.subs[i].e };
		match self.comp[e] {
			Some(c) => self.attach(i, c, inner),
			None => self.subs[i].st = St::Waiting { inner },
		}
	}
	fn retry(&mut self) {
		for i in 0..self.subs.len() {
			if let St::Waiting { inner } = self.subs[i].st {
				self.attempt(i, inner);
			}
		}
	}
	fn strip(&mut self, e: usize) {
		if let Some(Comp::Subject(s)) = self.comp[e].take() {
			self.end(s);
		}
	}
	fn act(&mut self, a: &A) {
		match a {
			A::Insert(e, c) if self.alive[*e] => {
				if self.comp[*e].is_some_and(|x| x.class() != c.class()) {
					self.strip(*e);
				}
				self.comp[*e] = Some(*c);
			}
			A::Remove(e) => self.strip(*e),
			A::Despawn(e) => {
				self.strip(*e);
				self.alive[*e] = false;
			}
			A::Feed(s, ev) => self.feed(*s, ev),
			A::Signal(e, ev) => {
				if let Some(Comp::Subject(s)) = self.comp[*e] {
					self.feed(s, ev);
				}
			}
			A::Subscribe { e, via, limit, leave } => {
				let i = self.subs.len();
				let slot = matches!(via, Via::With(_)) || *via == Via::AsObservable && self.alive[*e];
				let limit = limit.filter(|_| *via == Via::AsObservable && self.alive[*e]);
				self.subs.push(Sub { e: *e, st: St::Waiting { inner: false }, limit, leave: *leave, held: slot, got: 0, either: false, gone_for: 0, entity: true });
				self.out.push(vec![]);
				match via {
					Via::With(c) => {
						// what comes during the call comes before its result
						self.subs[i].held = false;
						self.attach(i, *c, false);
						self.subs[i].held = true;
					}
					Via::Query if self.comp[*e].is_none() => {
						self.subs[i].entity = false;
						self.close(i);
					}
					_ => self.attempt(i, false),
				}
			}
			A::Despawned(i) => match self.subs[*i].st {
				St::Waiting { inner: false } => self.subs[*i].st = St::GivenUp { inner: false },
				St::GivenUp { inner: false } => {}
				_ if self.subs[*i].entity => self.close(*i),
				_ => {}
			},
			A::Unsubscribe(i) if self.subs[*i].held => {
				self.close(*i);
				self.subs[*i].held = false;
			}
			A::Stripped(i) if matches!(self.subs[*i].st, St::Open { .. } | St::Proxying | St::Waiting { inner: true } | St::GivenUp { inner: true }) => self.close(*i),
			A::Dropped(i) => self.subs[*i].held = false,
			A::Exit => self.exit = true,
			_ => {}
		}
	}
}

pub fn histories(s: &mut Src) -> CaseResult {
	let mut rig = Rig::new(act);
	rig.start();
	let log = Log::new();
	let targets: Vec<Entity> = (0..2).map(|_| rig.world().spawn_empty().id()).collect();
	let h = rig.h.clone();
	rig.world().insert_resource(Ctx { targets: targets.clone(), subjects: (0..2).map(|_| Subject::default()).collect(), subs: vec![], h, log: log.clone() });
	let mut m = M { alive: [true; 2], comp: [None; 2], subjects: vec![None; 2], subs: vec![], out: vec![], exit: false };
	let proxies = s.chance(1, 3);
	let steps = s.usize(4, 2 * s.size as usize + 12);
	let mut n = 0;
	let (mut checks, mut delivered, mut updates, mut retried, mut replaced, mut exits) = (0, 0, 0, 0, 0, 0);
	let mut by_proxy = 0;
	let gen_comp = |s: &mut Src, n: &mut i64, subject: bool| {
		*n += 10;
		match s.weighted(&[if subject { 5 } else { 0 }, 3, 1, 1, 1]) {
			0 => Comp::Subject(s.idx(2)),
			1 => Comp::Hot(s.idx(2), if s.chance(1, 3) { Some(s.usize(1, 3)) } else { None }),
			2 => Comp::Cold(*n, s.idx(4) as i64),
			3 => Comp::Never,
			_ => Comp::Throw(*n),
		}
	};
	for step in 0..=steps {
		log.set_step(step);
		m.out = vec![vec![]; m.subs.len()];
		let was_open: Vec<bool> = m.subs.iter().map(|s| s.st != St::Closed).collect();
		let mut subs_by_now = m.subs.len();
		let mut gen_action = |s: &mut Src, n: &mut i64, retried: &mut usize| {
			*n += 1;
			let ev = |s: &mut Src, n: i64| match s.weighted(&[14, 1, 1]) {
				0 => Ev::Next(V::I(n)),
				1 => Ev::Error(Er(n)),
				_ => Ev::Complete,
			};
			let old = |s: &mut Src, k: usize| if k > 0 { Some(s.idx(k)) } else { None };
			match s.weighted(&[5, 1, 1, 8, 5, if subs_by_now < 6 { 7 } else { 0 }, 1, 1, 1, 1]) {
				0 => {
					let e = s.idx(2);
					if e == 1 && proxies && s.chance(1, 2) { A::Insert(1, Comp::Proxy) } else { A::Insert(e, gen_comp(s, n, true)) }
				}
				1 => A::Remove(s.idx(2)),
				2 => A::Despawn(s.idx(2)),
				3 => {
					let x = s.idx(2);
					A::Feed(x, ev(s, *n))
				}
				4 => {
					let e = s.idx(2);
					A::Signal(e, ev(s, *n))
				}
				5 => {
					let e = s.idx(2);
					let via = match s.idx(5) {
						0 => Via::Commands,
						1 => Via::EntityCommands,
						2 => Via::AsObservable,
						3 => Via::Query,
						_ => Via::With(gen_comp(s, n, false)),
					};
					let limit = if s.chance(1, 3) { Some(s.usize(1, 4)) } else { None };
					let leave = if s.chance(1, 3) { Some(s.idx(3)) } else { None };
					subs_by_now += 1;
					let _ = &retried;
					A::Subscribe { e, via, limit, leave }
				}
				k => match old(s, subs_by_now) {
					Some(i) => match k {
						6 => A::Despawned(i),
						7 => A::Unsubscribe(i),
						8 => A::Stripped(i),
						_ => A::Dropped(i),
					},
					None => A::Remove(s.idx(2)),
				},
			}
		};
		let updating = s.chance(2, 5);
		let mut pre: Vec<A> = vec![];
		let mut post: Vec<A> = vec![];
		if updating {
			updates += 1;
			if s.chance(1, 4) {
				pre = s.list(1, 2, |s| gen_action(s, &mut n, &mut retried));
			}
			if s.chance(1, 4) {
				post = s.list(1, 2, |s| gen_action(s, &mut n, &mut retried));
			}
			if step == steps && s.chance(1, 3) {
				post.push(A::Exit);
				exits += 1;
			}
			s.note(|| format!("  step {step}: update, before {pre:?}, after {post:?}"));
			{
				let mut script = rig.world().resource_mut::<Script<A>>();
				script.pre = pre.clone();
				script.post = post.clone();
			}
			// First
			for i in 0..m.subs.len() {
				if matches!(m.subs[i].st, St::GivenUp { .. }) {
					m.close(i);
				}
			}
			let waiting = m.subs.iter().filter(|s| matches!(s.st, St::Waiting { .. })).count();
			m.retry();
			retried += waiting - m.subs.iter().filter(|s| matches!(s.st, St::Waiting { .. })).count();
			for a in &pre {
				m.act(a);
			}
			// Update
			for i in 0..m.subs.len() {
				if m.subs[i].st == St::Proxying {
					m.attempt(i, true);
					by_proxy += 1;
				}
			}
			for a in &post {
				m.act(a);
			}
			// Last
			let waiting = m.subs.iter().filter(|s| matches!(s.st, St::Waiting { .. })).count();
			m.retry();
			let still = m.subs.iter().filter(|s| matches!(s.st, St::Waiting { .. })).count();
			retried += waiting - still;
			for i in 0..m.subs.len() {
				match m.subs[i].st {
					St::GivenUp { .. } => m.close(i),
					St::Waiting { inner } => m.subs[i].st = St::GivenUp { inner },
					_ => {}
				}
			}
			if m.exit {
				// but what found nothing goes with the app
				for i in 0..m.subs.len() {
					if m.subs[i].st != (St::GivenUp { inner: false }) {
						m.close(i);
					}
				}
			}
			rig.app.update();
		} else {
			let a = gen_action(s, &mut n, &mut retried);
			s.note(|| format!("  step {step}: {a:?}"));
			if let A::Insert(e, c) = &a {
				replaced += m.comp[*e].is_some_and(|x| x.class() == c.class()) as usize;
			}
			act(rig.world(), &a);
			m.act(&a);
		}
		checks += 1;
		let mut closed_now = 0;
		for i in 0..m.subs.len() {
			let recs = log.of(i);
			let got: Vec<Ev> = recs.iter().filter(|r| r.step == step).filter_map(|r| if let Seen::Ev(e) = &r.seen { Some(e.clone()) } else { None }).collect();
			delivered += got.len();
			if let Some(r) = recs.iter().find(|r| matches!(r.seen, Seen::Late(_))) {
				fail!("late", "subscription {i}: {r}");
			}
			let either = m.subs[i].either && m.out[i].split_last().is_some_and(|(_, l)| got == l);
			if got != m.out[i] && !either {
				fail!("deliveries", "subscription {i} got {} instead of {}", show(&got), show(&m.out[i]));
			}
			let closed = m.subs[i].st == St::Closed;
			let down = log.of(100 + i).len();
			// a subscription given up on is let go of by the next frame
			if down != closed as usize && !(matches!(m.subs[i].st, St::GivenUp { .. }) && down == 1) {
				fail!("released", "the destination of subscription {i} ({:?}) was released {down} times", m.subs[i].st);
			}
			if closed && was_open.get(i).copied().unwrap_or(true) {
				closed_now += 1;
			}
			// its entity
			let entity = rig.world().resource::<Ctx>().subs[i].entity;
			if let Some(e) = entity {
				let there = alive(rig.world(), e);
				let has = there && rig.world().entity(e).contains::<SubscriptionComponent>();
				match m.subs[i].st {
					St::Closed => {
						if updating {
							m.subs[i].gone_for += 1;
						}
						let over = m.subs[i].gone_for >= 2 || updating && !was_open.get(i).copied().unwrap_or(true);
						if over && there {
							fail!("entity_stays", "subscription {i} is over, its entity is still there");
						}
					}
					St::Waiting { inner: false } if !there || has => fail!("reserved", "subscription {i} waits, its entity {}", if there { "has a subscription" } else { "is gone" }),
					St::GivenUp { inner: false } if updating && there => fail!("entity_stays", "subscription {i} found nothing, its entity is still there"),
					St::Open { .. } | St::Proxying | St::Waiting { inner: true } | St::GivenUp { inner: true } if !has => {
						fail!("entity_gone", "subscription {i} is open, its entity {}", if there { "has no subscription" } else { "is gone" })
					}
					_ => {}
				}
			}
		}
		if updating {
			let mut expected = m.alive.iter().filter(|a| **a).count() as i64;
			for c in m.comp.iter().flatten() {
				expected += c.satellites();
			}
			for s in &m.subs {
				expected += match s.st {
					St::Open { inner: false, .. } | St::Proxying | St::Waiting { inner: false } | St::GivenUp { inner: true } => 1,
					St::Open { inner: true, .. } | St::Waiting { inner: true } => 2,
					_ => 0,
				};
			}
			let extra = rig.extra();
			let open_proxies = m.subs.iter().filter(|s| matches!(s.st, St::GivenUp { .. })).count() as i64;
			if extra < expected || extra > expected + 2 * closed_now + open_proxies {
				fail!("entities", "{extra} entities instead of {expected}: {}", rig.names());
			}
		}
		if m.exit {
			break;
		}
	}
	// everything goes, nothing may stay
	let down: Vec<A> = (0..2).map(A::Despawn).chain((0..m.subs.len()).map(A::Despawned)).collect();
	for a in down {
		act(rig.world(), &a);
	}
	for _ in 0..3 {
		rig.app.update();
	}
	for i in 0..m.subs.len() {
		let down = log.of(100 + i).len();
		if down != 1 {
			fail!("released", "in the end the destination of subscription {i} was released {down} times");
		}
	}
	let extra = rig.extra();
	if extra != 0 {
		fail!("entities_left", "{extra} entities are left: {}", rig.names());
	}
	if rig.work_left() {
		fail!("work_left", "work is left in an executor");
	}
	Ok(Report::new(updates >= 1 && delivered >= 1)
		.checks(checks)
		.label(delivered >= 4, "4+_deliveries")
		.label(retried > 0, "retried")
		.label(replaced > 0, "replaced")
		.label(by_proxy > 0, "proxied")
		.label(exits > 0, "exit"))
}
