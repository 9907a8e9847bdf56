//! B03: schedulers and destinations of the world, subscriptions as components

use bevy_app::prelude::*;
use bevy_ecs::prelude::*;
use bevy_ecs::schedule::ScheduleLabel;
use bevy_ecs::system::SystemState;
use bevy_time::prelude::*;
use pbt::{CaseResult, Report, Src, fail};
use rx_bevy::prelude::*;
use rx_core_common::{ErasedSubscription, Never, ObserverNotification, Scheduler, SchedulerHandle, SharedSubscription, SubscriptionLike, Teardown, TeardownCollectionExtension, WorkExecutor};
use rx_core_scheduler_ticking::Tick;
use rx_core_testing::MockExecutor;

use crate::base::{BoxObs, Er, Ev, Seen, UserObserver, V, World as Log, show};
use crate::rig::{H, Rig, Script, ms};

type Subject = PublishSubject<V, Er>;

/// A clock of the user
#[derive(Clone, Copy, Default)]
struct Own;

/// First/Own, Update/Virtual, Last/Virtual, in the order of a frame
const SCHEDULES: usize = 3;

fn handle<S: ScheduleLabel, C: Clock>(world: &mut World) -> H {
	SystemState::<RxSchedule<S, C>>::new(world).get_mut(world).handle()
}

fn rig<A: Send + Sync + 'static>(run: fn(&mut World, &A)) -> (Rig, Vec<H>) {
	let mut rig = Rig::new(run);
	rig.app.init_resource::<Time<Own>>();
	rig.app.add_plugins(RxSchedulerPlugin::<First, Own>::default());
	rig.start();
	let w = rig.world();
	let h = vec![handle::<First, Own>(w), handle::<Update, Virtual>(w), handle::<Last, Virtual>(w)];
	(rig, h)
}

fn work_left(rig: &Rig) -> bool {
	rig.work_left() || !rig.app.world().resource::<RxBevyExecutor<First, Own>>().is_empty()
}

// -------------------------------------------------------------- schedules

#[derive(Clone, Copy, Debug)]
enum Stage {
	Interval { every: u64, max: usize, start: bool },
	Timer(u64),
	OnTick { n: usize, nth: usize, start: bool },
	Delay(u64),
	ObserveOn,
	SubscribeOn(u64),
	Debounce(u64),
	Throttle(u64),
	Fallback,
}

fn stage<S: 'static + Scheduler<Tick = Tick> + Send + Sync>(k: Stage, source: BoxObs, h: SchedulerHandle<S>) -> BoxObs {
	let never = |e: Never| -> Er { match e {} };
	match k {
		Stage::Interval { every, max, start } => {
			let o = IntervalObservableOptions { duration: ms(every), max_emissions_per_tick: max, start_on_subscribe: start };
			BoxObs::new(IntervalObservable::new(o, h).map(|i| V::I(i as i64)).map_error(never))
		}
		Stage::Timer(d) => BoxObs::new(TimerObservable::new(ms(d), h).map(|_| V::I(77)).map_error(never)),
		Stage::OnTick { n, nth, start } => {
			let v: Vec<V> = (0..n).map(|i| V::I(i as i64)).collect();
			let o = OnTickObservableOptions { start_on_subscribe: start, emit_at_every_nth_tick: nth };
			BoxObs::new(v.into_observable_on_every_nth_tick(o, h).map_error(never))
		}
		Stage::Delay(d) => BoxObs::new(source.delay(ms(d), h)),
		Stage::ObserveOn => BoxObs::new(source.observe_on(h)),
		Stage::SubscribeOn(d) => BoxObs::new(source.subscribe_on_with_delay(ms(d), h)),
		Stage::Debounce(d) => BoxObs::new(source.debounce_time(ms(d), h)),
		Stage::Throttle(d) => BoxObs::new(source.throttle_time(ThrottleTimeOptions::new(ms(d)), h)),
		Stage::Fallback => BoxObs::new(source.fallback_when_silent(|_, _, i| V::I(9000 + i as i64), h)),
	}
}
type Pipe = Vec<(Stage, usize)>;

#[derive(Clone, Debug)]
enum SA {
	/// part of the frame
	Phase(usize),
	Feed(Ev),
	Subscribe(Pipe),
	Unsubscribe(usize),
	/// of the clocks
	Advance(u64, u64),
}

/// One of the two sides compared
struct Side<S: Scheduler> {
	log: Log,
	who: usize,
	h: Vec<SchedulerHandle<S>>,
	subject: Subject,
	subs: Vec<ErasedSubscription>,
}

impl<S: 'static + Scheduler<Tick = Tick> + Send + Sync> Side<S> {
	fn act(&mut self, a: &SA) {
		match a {
			SA::Feed(Ev::Next(v)) => self.subject.next(v.clone()),
			SA::Feed(Ev::Error(e)) => self.subject.error(*e),
			SA::Feed(Ev::Complete) => self.subject.complete(),
			SA::Subscribe(pipe) => {
				let i = self.subs.len();
				let l = self.log.clone();
				let who = self.who;
				let mut o = BoxObs::new(self.subject.clone().finalize(move || l.note(who + 100 + i, "down", 0)));
				for (k, s) in pipe {
					o = stage(*k, o, self.h[*s].clone());
				}
				let sub = o.subscribe(UserObserver::new(&self.log, self.who + i));
				self.subs.push(sub);
			}
			SA::Unsubscribe(i) => self.subs[*i].unsubscribe(),
			_ => {}
		}
	}
}

#[derive(Resource)]
struct Real(Side<RxBevyScheduler>);

fn act_schedules(world: &mut World, a: &SA) {
	match a {
		SA::Phase(p) => world.resource::<Real>().0.log.set_step(*p),
		SA::Advance(virt, own) => {
			world.resource_mut::<Time<Virtual>>().advance_by(ms(*virt));
			world.resource_mut::<Time<Own>>().advance_by(ms(*own));
		}
		a => world.resource_mut::<Real>().0.act(a),
	}
}

pub fn schedules(s: &mut Src) -> CaseResult {
	let (mut rig, h) = rig(act_schedules);
	let log = Log::new();
	rig.world().insert_resource(Real(Side { log: log.clone(), who: 0, h, subject: Subject::default(), subs: vec![] }));
	let mut executors: Vec<MockExecutor> = (0..SCHEDULES).map(|_| MockExecutor::default()).collect();
	let mut twin = Side { log: Log::new(), who: 0, h: executors.iter_mut().map(|e| e.get_scheduler_handle()).collect(), subject: Subject::default(), subs: vec![] };
	let (mut virt, mut own) = (0u64, 0u64);
	let steps = s.usize(4, 2 * s.size as usize + 12);
	let (mut n, mut subs, mut updates, mut ended) = (0i64, 0, 0, false);
	for step in 0..steps {
		let gen_action = |s: &mut Src, n: &mut i64, subs: &mut usize, ended: &mut bool| {
			*n += 1;
			match s.weighted(&[if *ended { 1 } else { 8 }, if *subs < 4 { 4 } else { 0 }, if *subs > 0 { 1 } else { 0 }]) {
				0 => SA::Feed(match s.weighted(&[20, 1, 1]) {
					0 => Ev::Next(V::I(*n)),
					1 => {
						*ended = true;
						Ev::Error(Er(*n))
					}
					_ => {
						*ended = true;
						Ev::Complete
					}
				}),
				1 => {
					*subs += 1;
					let d = |s: &mut Src| s.idx(7) as u64;
					let mut pipe: Pipe = s.list(1, 2, |s| {
						let k = match s.idx(6) {
							0 => Stage::Delay(d(s)),
							1 => Stage::ObserveOn,
							2 => Stage::SubscribeOn(d(s)),
							3 => Stage::Debounce(d(s)),
							4 => Stage::Throttle(d(s)),
							_ => Stage::Fallback,
						};
						(k, s.idx(SCHEDULES))
					});
					if s.chance(2, 5) {
						let k = match s.idx(3) {
							0 => Stage::Interval { every: d(s), max: s.usize(1, 3), start: s.chance(1, 2) },
							1 => Stage::Timer(d(s)),
							_ => Stage::OnTick { n: s.usize(0, 4), nth: s.usize(0, 2), start: s.chance(1, 2) },
						};
						if s.chance(1, 2) {
							pipe.clear();
						}
						pipe.insert(0, (k, s.idx(SCHEDULES)));
					}
					SA::Subscribe(pipe)
				}
				_ => SA::Unsubscribe(s.idx(*subs)),
			}
		};
		if s.chance(3, 5) {
			updates += 1;
			let mut pre = vec![SA::Phase(step * 4 + 1)];
			let mut post = vec![SA::Phase(step * 4 + 2)];
			if s.chance(1, 3) {
				pre.extend(s.list(1, 2, |s| gen_action(s, &mut n, &mut subs, &mut ended)));
			}
			if s.chance(1, 3) {
				post.extend(s.list(1, 2, |s| gen_action(s, &mut n, &mut subs, &mut ended)));
			}
			let (dv, d_own) = (s.idx(5) as u64, s.idx(5) as u64);
			s.note(|| format!("  step {step}: clocks +{dv} +{d_own}, update, before {:?}, after {:?}", &pre[1..], &post[1..]));
			act_schedules(rig.world(), &SA::Advance(dv, d_own));
			virt += dv;
			own += d_own;
			{
				let mut script = rig.world().resource_mut::<Script<SA>>();
				script.pre = pre.clone();
				script.post = post.clone();
			}
			log.set_step(step * 4);
			rig.app.update();
			for phase in 0..SCHEDULES {
				twin.log.set_step(step * 4 + phase);
				let l = match phase {
					1 => &pre[..],
					2 => &post[..],
					_ => &[],
				};
				for a in l {
					twin.act(a);
				}
				executors[phase].tick_to(Tick::new(ms(if phase == 0 { own } else { virt })));
			}
		} else {
			let a = gen_action(s, &mut n, &mut subs, &mut ended);
			s.note(|| format!("  step {step}: {a:?}"));
			log.set_step(step * 4 + 3);
			twin.log.set_step(step * 4 + 3);
			act_schedules(rig.world(), &a);
			twin.act(&a);
		}
		for i in 0..subs {
			for who in [i, 100 + i] {
				let f = |l: &Log| l.of(who).iter().map(|r| format!("@{}.{} {}", r.step / 4, ["first", "update", "last", "direct"][r.step % 4], r.seen)).collect::<Vec<_>>();
				let (a, b) = (f(&log), f(&twin.log));
				if a != b {
					fail!("differs", "{} {i}: in the world {} by its own executor {}", if who == i { "subscription" } else { "source of" }, show(&a), show(&b));
				}
			}
			let (a, b) = (rig.world().resource::<Real>().0.subs[i].is_closed(), twin.subs[i].is_closed());
			if a != b {
				fail!("closed", "subscription {i} is {} in the world", if a { "closed" } else { "open" });
			}
		}
	}
	let delivered = log.log().iter().filter(|r| matches!(r.seen, Seen::Ev(_))).count();
	for i in 0..subs {
		act_schedules(rig.world(), &SA::Unsubscribe(i));
	}
	// what was delayed may only find out once it is due
	for _ in 0..2 {
		act_schedules(rig.world(), &SA::Advance(20, 20));
		rig.app.update();
	}
	rig.app.update();
	if work_left(&rig) {
		fail!("work_left", "work is left in an executor");
	}
	Ok(Report::new(updates >= 1 && delivered >= 1).checks(updates + subs).label(delivered >= 4, "4+_deliveries"))
}

// ----------------------------------------------------------- destinations

#[derive(Resource)]
struct Res(i64);

#[derive(Clone, Copy, Debug, PartialEq)]
enum To {
	/// an entity of its own
	Entity,
	Resource,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
	/// the subject itself, not through an entity
	Direct,
	/// the entity of the subject subscribes another one
	Subscribe,
	/// an entity subscribes to the one of the subject
	SubscribesTo,
}

#[derive(Clone, Debug)]
enum DA {
	Feed(Ev),
	Subscribe { to: To, how: How, sched: usize, react: Option<usize> },
	Unsubscribe(usize),
	DespawnTarget(usize),
	Insert,
	Remove,
}

enum HeldD {
	Sub(Option<ErasedSubscription>),
	Entity(Entity),
}

#[derive(Resource)]
struct DCtx {
	log: Log,
	h: Vec<H>,
	subject: Subject,
	subject_entity: Entity,
	targets: Vec<Option<Entity>>,
	subs: Vec<HeldD>,
}

fn act_destinations(world: &mut World, a: &DA) {
	world.resource_scope(|world, mut ctx: Mut<DCtx>| {
		let ctx = &mut *ctx;
		match a {
			DA::Feed(ev) => match ev.clone() {
				Ev::Next(v) => ctx.subject.next(v),
				Ev::Error(e) => ctx.subject.error(e),
				Ev::Complete => ctx.subject.complete(),
			},
			DA::Subscribe { to, how, sched, react } => {
				let i = ctx.subs.len();
				let (h, log, mut subject, react) = (ctx.h[*sched].clone(), ctx.log.clone(), ctx.subject.clone(), *react);
				let mut seen = 0;
				let mut take = move |n: &ObserverNotification<V, Er>| {
					let ev = match n {
						ObserverNotification::Next(v) => Ev::Next(v.clone()),
						ObserverNotification::Error(e) => Ev::Error(*e),
						ObserverNotification::Complete => Ev::Complete,
					};
					log.push(i, Seen::Ev(ev));
					if react == Some(seen) {
						subject.next(V::I(1000 + i as i64));
					}
					seen += 1;
				};
				let mut target = None;
				let held = match to {
					To::Entity => {
						let t = world.spawn_empty().observe(move |on: On<RxSignal<V, Er>>| take(on.event().signal())).id();
						target = Some(t);
						match how {
							How::Direct => HeldD::Sub(Some(ErasedSubscription::new(ctx.subject.subscribe(EntityDestination::<V, Er>::new(t, h))))),
							How::Subscribe => HeldD::Entity(world.commands().entity(ctx.subject_entity).subscribe::<V, Er>(t, h)),
							How::SubscribesTo => HeldD::Entity(world.commands().entity(t).subscribes_to_observable_entity::<V, Er>(ctx.subject_entity, h)),
						}
					}
					To::Resource => {
						let writer = move |mut r: Mut<'_, Res>, n: ObserverNotification<V, Er>| {
							r.0 += 1;
							take(&n);
						};
						let d = ResourceDestination::<V, Er, Res, _, _>::new(writer, h);
						match how {
							How::Direct => HeldD::Sub(Some(ErasedSubscription::new(ctx.subject.subscribe(d)))),
							_ => HeldD::Entity(world.commands().subscribe(ctx.subject_entity, d)),
						}
					}
				};
				ctx.targets.push(target);
				ctx.subs.push(held);
			}
			DA::Unsubscribe(i) => match &mut ctx.subs[*i] {
				HeldD::Sub(s) => {
					if let Some(mut s) = s.take() {
						s.unsubscribe();
					}
				}
				HeldD::Entity(e) => world.commands().unsubscribe(*e),
			},
			DA::DespawnTarget(i) => {
				if let Some(t) = ctx.targets[*i] {
					world.try_despawn(t).ok();
				}
			}
			DA::Insert => world.insert_resource(Res(0)),
			DA::Remove => {
				world.remove_resource::<Res>();
			}
		}
		world.flush();
	});
}

struct DSub {
	to: To,
	sched: usize,
	react: Option<usize>,
	open: bool,
	target: bool,
	queue: Vec<Ev>,
	seen: usize,
}

struct DM {
	res: bool,
	over: Option<Ev>,
	subs: Vec<DSub>,
	out: Vec<Vec<Ev>>,
}

impl DM {
	fn feed(&mut self, ev: &Ev) {
		if self.over.is_some() {
			return;
		}
		for s in self.subs.iter_mut().filter(|s| s.open) {
			s.queue.push(ev.clone());
			s.open = matches!(ev, Ev::Next(_));
		}
		if !matches!(ev, Ev::Next(_)) {
			self.over = Some(ev.clone());
		}
	}
	/// The work of one schedule. What a resource is written leads to can come
	/// in any order, it is compared as a set.
	fn tick(&mut self, sched: usize) {
		let mut fed = vec![];
		loop {
			let mut more = false;
			for i in 0..self.subs.len() {
				if self.subs[i].sched != sched {
					continue;
				}
				for ev in std::mem::take(&mut self.subs[i].queue) {
					let s = &mut self.subs[i];
					let there = match s.to {
						To::Entity => s.target,
						To::Resource => self.res,
					};
					if there {
						self.out[i].push(ev);
						let k = s.seen;
						s.seen += 1;
						if s.react == Some(k) {
							let v = Ev::Next(V::I(1000 + i as i64));
							match s.to {
								// triggered at the end of the system
								To::Entity => fed.push(v),
								To::Resource => {
									self.feed(&v);
									more = true;
								}
							}
						}
					}
				}
			}
			if !more {
				break;
			}
		}
		for v in fed {
			self.feed(&v);
		}
	}
	fn act(&mut self, a: &DA) {
		match a {
			DA::Feed(ev) => self.feed(ev),
			DA::Subscribe { to, sched, react, .. } => {
				let queue = self.over.iter().cloned().collect();
				self.subs.push(DSub { to: *to, sched: *sched, react: *react, open: self.over.is_none(), target: true, queue, seen: 0 });
				self.out.push(vec![]);
			}
			DA::Unsubscribe(i) => self.subs[*i].open = false,
			DA::DespawnTarget(i) => self.subs[*i].target = false,
			DA::Insert => self.res = true,
			DA::Remove => self.res = false,
		}
	}
}

pub fn destinations(s: &mut Src) -> CaseResult {
	let (mut rig, h) = rig(act_destinations);
	let log = Log::new();
	let subject = Subject::default();
	let subject_entity = rig.world().spawn(subject.clone().into_component()).id();
	rig.world().flush();
	rig.world().insert_resource(DCtx { log: log.clone(), h, subject, subject_entity, targets: vec![], subs: vec![] });
	let mut m = DM { res: false, over: None, subs: vec![], out: vec![] };
	let steps = s.usize(4, 2 * s.size as usize + 12);
	// what is fed by a destination gets there in an order of its own
	let reacting = s.chance(1, 3);
	let (mut n, mut subs, mut updates, mut delivered, mut checks) = (0i64, 0, 0, 0, 0);
	for step in 0..steps {
		log.set_step(step);
		m.out = vec![vec![]; m.subs.len()];
		let gen_action = |s: &mut Src, n: &mut i64, subs: &mut usize| {
			*n += 1;
			match s.weighted(&[12, if *subs < 4 { 5 } else { 0 }, if *subs > 0 { 1 } else { 0 }, if *subs > 0 { 1 } else { 0 }, 2, 1]) {
				0 => DA::Feed(match s.weighted(&[20, 1, 1]) {
					0 => Ev::Next(V::I(*n)),
					1 => Ev::Error(Er(*n)),
					_ => Ev::Complete,
				}),
				1 => {
					*subs += 1;
					let to = if s.chance(3, 5) { To::Entity } else { To::Resource };
					let how = [How::Direct, How::Subscribe, How::SubscribesTo][s.idx(3)];
					DA::Subscribe { to, how, sched: s.idx(SCHEDULES), react: if reacting && s.chance(1, 3) { Some(s.idx(2)) } else { None } }
				}
				2 => DA::Unsubscribe(s.idx(*subs)),
				3 => DA::DespawnTarget(s.idx(*subs)),
				4 => DA::Insert,
				_ => DA::Remove,
			}
		};
		if s.chance(2, 5) {
			updates += 1;
			let pre: Vec<DA> = if s.chance(1, 3) { s.list(1, 2, |s| gen_action(s, &mut n, &mut subs)) } else { vec![] };
			let post: Vec<DA> = if s.chance(1, 3) { s.list(1, 2, |s| gen_action(s, &mut n, &mut subs)) } else { vec![] };
			s.note(|| format!("  step {step}: update, before {pre:?}, after {post:?}"));
			{
				let mut script = rig.world().resource_mut::<Script<DA>>();
				script.pre = pre.clone();
				script.post = post.clone();
			}
			rig.app.update();
			m.tick(0);
			for a in &pre {
				m.act(a);
			}
			m.tick(1);
			for a in &post {
				m.act(a);
			}
			m.tick(2);
		} else {
			let a = gen_action(s, &mut n, &mut subs);
			s.note(|| format!("  step {step}: {a:?}"));
			act_destinations(rig.world(), &a);
			m.act(&a);
		}
		for i in 0..m.subs.len() {
			let got: Vec<Ev> = log.of(i).into_iter().filter(|r| r.step == step).filter_map(|r| if let Seen::Ev(e) = r.seen { Some(e) } else { None }).collect();
			checks += 1;
			delivered += got.len();
			let key = |l: &[Ev]| {
				let mut v: Vec<String> = l.iter().map(|e| e.to_string()).collect();
				v.sort();
				v
			};
			if got != m.out[i] && !(reacting && key(&got) == key(&m.out[i])) {
				fail!("deliveries", "destination {i} ({:?}) got {} instead of {}", m.subs[i].to, show(&got), show(&m.out[i]));
			}
		}
	}
	let all: Vec<DA> = (0..subs).flat_map(|i| [DA::Unsubscribe(i), DA::DespawnTarget(i)]).collect();
	for a in &all {
		act_destinations(rig.world(), a);
	}
	rig.world().despawn(subject_entity);
	rig.app.update();
	rig.app.update();
	// the observers of the targets are entities, too, and go with them
	let extra = rig.extra();
	if extra != 0 {
		fail!("entities_left", "{extra} entities are left: {}", rig.names());
	}
	if work_left(&rig) {
		fail!("work_left", "work is left in an executor");
	}
	Ok(Report::new(updates >= 1 && delivered >= 1).checks(checks).label(delivered >= 4, "4+_deliveries").label(reacting, "reacting"))
}

// ------------------------------------------------------------- components

#[derive(Clone, Debug)]
enum CA {
	/// on an entity of its own
	Spawn(usize),
	/// with a teardown of its own
	SpawnOwn,
	/// on a satellite of an entity
	Satellite(usize, usize),
	/// a satellite with a teardown
	SatelliteOwn(usize),
	Add(usize),
	AddToComponent(usize),
	UnsubscribeComponent(usize),
	Unsubscribe(usize),
	Replace(usize, usize),
	RemoveComponent(usize),
	Detach(usize),
	DespawnHost(usize),
	Despawn(usize),
	Drop(usize),
}

#[derive(Resource)]
struct CCtx {
	log: Log,
	subs: Vec<Option<SharedSubscription>>,
	hosts: Vec<Entity>,
	entities: Vec<Entity>,
	teardowns: usize,
}

impl CCtx {
	fn teardown(&mut self) -> Teardown {
		let (l, n) = (self.log.clone(), self.teardowns);
		self.teardowns += 1;
		Teardown::new(move || l.note(n, "down", 0))
	}
}

fn act_components(world: &mut World, a: &CA) {
	world.resource_scope(|world, mut ctx: Mut<CCtx>| {
		let ctx = &mut *ctx;
		match *a {
			CA::Spawn(s) => {
				if let Some(sub) = ctx.subs[s].clone() {
					ctx.entities.push(world.spawn(SubscriptionComponent::new(sub)).id());
				}
			}
			CA::SpawnOwn => {
				let t = ctx.teardown();
				let mut c = SubscriptionComponent::default();
				c.add(t);
				ctx.entities.push(world.spawn(c).id());
			}
			CA::Satellite(h, s) => {
				let h = ctx.hosts[h];
				if let (Some(sub), true) = (ctx.subs[s].clone(), world.get_entity(h).is_ok()) {
					ctx.entities.push(world.spawn(SubscriptionSatellite::new(h, sub)).id());
				}
			}
			CA::SatelliteOwn(h) => {
				let h = ctx.hosts[h];
				if world.get_entity(h).is_ok() {
					let t = ctx.teardown();
					ctx.entities.push(world.spawn(SubscriptionSatellite::new_with_teardown(h, t)).id());
				}
			}
			CA::Add(s) => {
				if let Some(mut sub) = ctx.subs[s].clone() {
					let t = ctx.teardown();
					sub.add(t);
				}
			}
			CA::AddToComponent(e) => {
				let e = ctx.entities[e];
				if world.get::<SubscriptionComponent>(e).is_some() {
					let t = ctx.teardown();
					world.get_mut::<SubscriptionComponent>(e).unwrap().add(t);
				}
			}
			CA::UnsubscribeComponent(e) => {
				let e = ctx.entities[e];
				if let Some(mut c) = world.get_mut::<SubscriptionComponent>(e) {
					c.unsubscribe();
				}
			}
			CA::Unsubscribe(s) => {
				if let Some(sub) = &mut ctx.subs[s] {
					sub.unsubscribe();
				}
			}
			CA::Replace(e, s) => {
				let e = ctx.entities[e];
				if let (Some(sub), true) = (ctx.subs[s].clone(), world.get::<SubscriptionComponent>(e).is_some()) {
					world.entity_mut(e).insert(SubscriptionComponent::new(sub));
				}
			}
			CA::RemoveComponent(e) => {
				if let Ok(mut e) = world.get_entity_mut(ctx.entities[e]) {
					e.remove::<SubscriptionComponent>();
				}
			}
			CA::Detach(e) => {
				if let Ok(mut e) = world.get_entity_mut(ctx.entities[e]) {
					e.remove::<SubscriptionSatelliteOf>();
				}
			}
			CA::DespawnHost(h) => {
				world.try_despawn(ctx.hosts[h]).ok();
			}
			CA::Despawn(e) => {
				world.try_despawn(ctx.entities[e]).ok();
			}
			CA::Drop(s) => ctx.subs[s] = None,
		}
		world.flush();
	});
}

/// A subscription of the model
#[derive(Default)]
struct CSub {
	closed: bool,
	/// handles of the test, components
	handles: usize,
	teardowns: Vec<usize>,
}

struct CEnt {
	alive: bool,
	sub: Option<usize>,
	host: Option<usize>,
}

struct CM {
	subs: Vec<CSub>,
	/// whether the test holds a handle
	held: Vec<bool>,
	ents: Vec<CEnt>,
	hosts: Vec<bool>,
	down: Vec<usize>,
}

impl CM {
	fn close(&mut self, s: usize) {
		if !self.subs[s].closed {
			self.subs[s].closed = true;
			for t in std::mem::take(&mut self.subs[s].teardowns) {
				self.down[t] += 1;
			}
		}
	}
	fn add(&mut self, s: usize) {
		let t = self.down.len();
		self.down.push(0);
		if self.subs[s].closed {
			self.down[t] += 1;
		} else {
			self.subs[s].teardowns.push(t);
		}
	}
	fn release(&mut self, s: usize) {
		self.subs[s].handles -= 1;
		if self.subs[s].handles == 0 {
			self.close(s);
		}
	}
	fn remove(&mut self, e: usize) {
		if let Some(s) = self.ents[e].sub.take() {
			self.close(s);
			self.release(s);
		}
	}
	fn spawn(&mut self, s: usize, host: Option<usize>) {
		self.subs[s].handles += 1;
		self.ents.push(CEnt { alive: true, sub: Some(s), host });
	}
	fn spawn_own(&mut self, host: Option<usize>) {
		self.subs.push(CSub::default());
		let s = self.subs.len() - 1;
		self.add(s);
		self.spawn(s, host);
	}
	fn act(&mut self, a: &CA) {
		match *a {
			CA::Spawn(s) if self.held[s] => self.spawn(s, None),
			CA::SpawnOwn => self.spawn_own(None),
			CA::Satellite(h, s) if self.held[s] && self.hosts[h] => self.spawn(s, Some(h)),
			CA::SatelliteOwn(h) if self.hosts[h] => self.spawn_own(Some(h)),
			CA::Add(s) if self.held[s] => self.add(s),
			CA::AddToComponent(e) => {
				if let Some(s) = self.ents[e].sub {
					self.add(s);
				}
			}
			CA::UnsubscribeComponent(e) => {
				if let Some(s) = self.ents[e].sub {
					self.close(s);
				}
			}
			CA::Unsubscribe(s) if self.held[s] => self.close(s),
			CA::Replace(e, s) if self.held[s] => {
				if let Some(old) = self.ents[e].sub {
					self.subs[s].handles += 1;
					self.ents[e].sub = Some(s);
					// the old component is dropped
					self.close(old);
					self.release(old);
				}
			}
			CA::RemoveComponent(e) => self.remove(e),
			CA::Detach(e) if self.ents[e].host.take().is_some() => self.remove(e),
			CA::DespawnHost(h) => {
				self.hosts[h] = false;
				for e in 0..self.ents.len() {
					if self.ents[e].host == Some(h) {
						self.ents[e].host = None;
						self.remove(e);
					}
				}
			}
			CA::Despawn(e) => {
				self.remove(e);
				self.ents[e].host = None;
				self.ents[e].alive = false;
			}
			CA::Drop(s) if std::mem::take(&mut self.held[s]) => self.release(s),
			_ => {}
		}
	}
}

pub fn components(s: &mut Src) -> CaseResult {
	let mut rig = Rig::new(act_components);
	rig.start();
	let log = Log::new();
	let hosts: Vec<Entity> = (0..2).map(|_| rig.world().spawn_empty().id()).collect();
	rig.world().insert_resource(CCtx { log: log.clone(), subs: (0..3).map(|_| Some(SharedSubscription::default())).collect(), hosts, entities: vec![], teardowns: 0 });
	let mut m = CM { subs: (0..3).map(|_| CSub { handles: 1, ..Default::default() }).collect(), held: vec![true; 3], ents: vec![], hosts: vec![true; 2], down: vec![] };
	let steps = s.usize(4, 2 * s.size as usize + 12);
	let mut checks = 0;
	for step in 0..steps {
		log.set_step(step);
		let k = m.ents.len();
		let old = if k > 0 { 1 } else { 0 };
		let e = |s: &mut Src| s.idx(k.max(1));
		let a = match s.weighted(&[3, 2, 4, 3, 5, 3 * old, old, 1, 2 * old, 2 * old, old, 1, 2 * old, 1]) {
			0 => CA::Spawn(s.idx(3)),
			1 => CA::SpawnOwn,
			2 => CA::Satellite(s.idx(2), s.idx(3)),
			3 => CA::SatelliteOwn(s.idx(2)),
			4 => CA::Add(s.idx(3)),
			5 => CA::AddToComponent(e(s)),
			6 => CA::UnsubscribeComponent(e(s)),
			7 => CA::Unsubscribe(s.idx(3)),
			8 => CA::Replace(e(s), s.idx(3)),
			9 => CA::RemoveComponent(e(s)),
			10 => CA::Detach(e(s)),
			11 => CA::DespawnHost(s.idx(2)),
			12 => CA::Despawn(e(s)),
			_ => CA::Drop(s.idx(3)),
		};
		s.note(|| format!("  step {step}: {a:?}"));
		if s.chance(1, 5) {
			rig.world().resource_mut::<Script<CA>>().pre = vec![a.clone()];
			rig.app.update();
		} else {
			act_components(rig.world(), &a);
		}
		m.act(&a);
		for (t, want) in m.down.iter().enumerate() {
			let got = log.of(t).len();
			checks += 1;
			if got != *want {
				fail!("teardowns", "teardown {t} was executed {got} times instead of {want}");
			}
		}
		for (i, e) in m.ents.iter().enumerate() {
			let entity = rig.world().resource::<CCtx>().entities[i];
			let has = rig.world().get::<SubscriptionComponent>(entity).map(|c| c.is_closed());
			let want = e.sub.map(|s| m.subs[s].closed);
			if has != want || rig.world().get_entity(entity).is_ok() != e.alive {
				fail!("component", "entity {i}: its subscription is closed: {has:?} instead of {want:?}");
			}
		}
	}
	let done = m.down.iter().filter(|n| **n == 1).count();
	Ok(Report::new(done >= 1).checks(checks).label(done >= 3, "3+_teardowns").label(m.hosts.contains(&false), "host_despawned"))
}
