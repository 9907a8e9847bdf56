//! B01: observables over the world (events, messages, resources, keys)

use bevy_ecs::prelude::*;
use bevy_input::{ButtonInput, keyboard::KeyCode};
use pbt::{CaseResult, Report, Src, fail};
use rx_bevy::prelude::*;
use rx_core_common::{ErasedSubscription, Never};
use std::sync::{Arc, Mutex};

use crate::base::{BoxObs, Er, Ev, Reaction, Seen, UserObserver, V, World as Log, lk, show};
use crate::rig::{Rig, Script};

#[derive(EntityEvent, Clone, Debug)]
struct Evt {
	entity: Entity,
	n: i64,
}
#[derive(Message, Clone, Debug)]
struct Msg(i64);
#[derive(Resource, Clone, Debug)]
struct Res(i64);
#[derive(Resource, Default)]
struct Targets(Vec<Entity>);

const KEYS: [KeyCode; 4] = [KeyCode::KeyA, KeyCode::KeyB, KeyCode::KeyC, KeyCode::KeyD];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
	Event(usize),
	Message,
	Resource { added: bool, changed: bool },
	/// just pressed, while pressed, just released
	Keys(u8),
}

#[derive(Clone, Debug)]
enum A {
	Trigger(usize, i64),
	Despawn(usize),
	Message(i64),
	Insert(i64),
	/// mutable access through a reference
	Mutate(i64),
	Remove,
	Press(usize),
	Release(usize),
	ClearKeys,
}

fn act(world: &mut World, a: &A) {
	match *a {
		A::Trigger(i, n) => {
			let entity = world.resource::<Targets>().0[i];
			if world.get_entity(entity).is_ok() {
				world.trigger(Evt { entity, n });
			}
		}
		A::Despawn(i) => {
			let entity = world.resource::<Targets>().0[i];
			if world.get_entity(entity).is_ok() {
				world.despawn(entity);
			}
		}
		A::Message(n) => {
			world.write_message(Msg(n));
		}
		A::Insert(n) => world.insert_resource(Res(n)),
		A::Mutate(n) => {
			if let Some(mut r) = world.get_resource_mut::<Res>() {
				r.0 = n;
			}
		}
		A::Remove => {
			world.remove_resource::<Res>();
		}
		A::Press(k) => world.resource_mut::<ButtonInput<KeyCode>>().press(KEYS[k]),
		A::Release(k) => world.resource_mut::<ButtonInput<KeyCode>>().release(KEYS[k]),
		A::ClearKeys => world.resource_mut::<ButtonInput<KeyCode>>().clear(),
	}
}

/// One subscription of the model
#[derive(Clone)]
struct Sub {
	kind: Kind,
	limit: Option<usize>,
	/// unsubscribes at this notification
	leave: Option<usize>,
	got: usize,
	closed: bool,
	/// the scheduler has run since
	active: bool,
	/// messages not read yet: (n, written before the subscription)
	unread: Vec<(i64, bool)>,
	existed: bool,
	/// changed since the subscription, before its first tick
	fresh: bool,
}

impl Sub {
	fn emit(&mut self, v: i64, out: &mut Vec<Ev>) {
		if self.closed {
			return;
		}
		let k = self.got;
		self.got += 1;
		out.push(Ev::Next(V::I(v)));
		if self.leave == Some(k) {
			self.closed = true;
		} else if self.limit == Some(self.got) {
			out.push(Ev::Complete);
			self.closed = true;
		}
	}
	fn end(&mut self, out: &mut Vec<Ev>) {
		if !self.closed {
			self.closed = true;
			out.push(Ev::Complete);
		}
	}
}

/// Model of the world
struct M {
	alive: [bool; 2],
	res: Option<i64>,
	/// touched since the last tick
	changed: bool,
	/// removed and inserted again since the last tick
	replaced: bool,
	subs: Vec<Sub>,
	/// expected notifications of each subscription in this step
	out: Vec<Vec<Ev>>,
}

impl M {
	fn act(&mut self, a: &A) {
		match *a {
			A::Trigger(i, n) if self.alive[i] => {
				for (s, out) in self.subs.iter_mut().zip(&mut self.out) {
					if s.kind == Kind::Event(i) && s.active {
						s.emit(n, out);
					}
				}
			}
			A::Despawn(i) if self.alive[i] => {
				self.alive[i] = false;
				for (s, out) in self.subs.iter_mut().zip(&mut self.out) {
					if s.kind == Kind::Event(i) && s.active {
						s.end(out);
					}
				}
			}
			A::Message(n) => {
				for s in self.subs.iter_mut().filter(|s| s.kind == Kind::Message) {
					s.unread.push((n, false));
				}
			}
			A::Insert(n) => {
				self.replaced |= self.res.is_none();
				self.res = Some(n);
				self.touch();
			}
			A::Mutate(n) if self.res.is_some() => {
				self.res = Some(n);
				self.touch();
			}
			A::Remove => self.res = None,
			_ => {}
		}
	}
	fn touch(&mut self) {
		self.changed = true;
		for s in &mut self.subs {
			s.fresh = true;
		}
	}
}

fn key_number(k: KeyCode) -> i64 {
	KEYS.iter().position(|x| *x == k).map_or(-1, |i| i as i64)
}

type Slot = Arc<Mutex<Option<ErasedSubscription>>>;

pub fn histories(s: &mut Src) -> CaseResult {
	let mut rig = Rig::new(act);
	rig.app.add_message::<Msg>();
	rig.app.init_resource::<ButtonInput<KeyCode>>();
	rig.start();
	let targets: Vec<Entity> = (0..2).map(|_| rig.world().spawn_empty().id()).collect();
	rig.world().insert_resource(Targets(targets.clone()));
	let log = Log::new();
	let mut m = M { alive: [true; 2], res: None, changed: false, replaced: false, subs: vec![], out: vec![] };
	let mut slots: Vec<Slot> = vec![];
	// written since the beginning of the last frame: still there for a new cursor
	let mut recent: Vec<i64> = vec![];
	let keys_are_cleared = s.chance(3, 4);
	let kinds: Vec<Kind> = s.list(1, 2, |s| match s.idx(4) {
		0 => Kind::Event(s.idx(2)),
		1 => Kind::Message,
		2 => Kind::Resource { added: s.chance(2, 3), changed: s.chance(2, 3) },
		_ => Kind::Keys(s.idx(3) as u8),
	});
	s.note(|| format!("kinds {kinds:?}{}", if keys_are_cleared { "" } else { " (keys never cleared)" }));
	let steps = s.usize(3, s.size as usize + 8);
	let (mut checks, mut delivered, mut updates, mut n) = (0, 0, 0, 0i64);
	let mut left_inside = false;
	for step in 0..steps {
		log.set_step(step);
		m.out = vec![vec![]; m.subs.len()];
		let gen_action = |s: &mut Src, n: &mut i64| {
			*n += 1;
			match kinds[s.idx(kinds.len())] {
				Kind::Event(_) => {
					let i = s.idx(2);
					if s.chance(1, 8) { A::Despawn(i) } else { A::Trigger(i, *n) }
				}
				Kind::Message => A::Message(*n),
				Kind::Resource { .. } => match s.weighted(&[3, 3, 1]) {
					0 => A::Insert(*n),
					1 => A::Mutate(*n),
					_ => A::Remove,
				},
				Kind::Keys(_) => {
					let k = s.idx(KEYS.len());
					if s.chance(1, 2) { A::Press(k) } else { A::Release(k) }
				}
			}
		};
		let what = if m.subs.is_empty() { 0 } else { s.weighted(&[if m.subs.len() < 4 { 2 } else { 0 }, 6, 1, 1, 8]) };
		let mut batches: Vec<Vec<(Sub, Vec<Ev>)>> = vec![];
		match what {
			0 => {
				let i = m.subs.len();
				let kind = kinds[s.idx(kinds.len())];
				let limit = if s.chance(1, 3) { Some(s.usize(1, 4)) } else { None };
				let leave = if s.chance(1, 3) { Some(s.idx(4)).filter(|l| limit.is_none_or(|n| l + 1 < n)) } else { None };
				s.note(|| format!("  step {step}: subscription {i} to {kind:?}, limit {limit:?}, unsubscribes at {leave:?}"));
				let h = rig.h.clone();
				let never = |e: Never| -> Er { match e {} };
				let source = match kind {
					Kind::Event(t) => BoxObs::new(EventObservable::<Evt>::new(targets[t], h).map(|e| V::I(e.n)).map_error(never)),
					Kind::Message => BoxObs::new(MessageObservable::<Msg>::new(h).map(|m| V::I(m.0)).map_error(never)),
					Kind::Resource { added, changed } => BoxObs::new(
						ResourceObservable::<Res, _, i64>::new(|r: &Res| r.0, if added && changed { Default::default() } else { ResourceObservableOptions { trigger_on_is_added: added, trigger_on_is_changed: changed } }, h).map(V::I).map_error(never),
					),
					Kind::Keys(k) => BoxObs::new(
						KeyboardObservable::new(
							KeyboardObservableOptions { emit: [KeyboardObservableEmit::JustPressed, KeyboardObservableEmit::WhilePressed, KeyboardObservableEmit::JustReleased][k as usize].clone() },
							h,
						)
						.map(|k| V::I(key_number(k)))
						.map_error(never),
					),
				};
				let l = log.clone();
				let source = source.finalize(move || l.note(100 + i, "down", 0));
				let mut source = match limit {
					Some(n) => BoxObs::new(source.take(n)),
					None => BoxObs::new(source),
				};
				let slot: Slot = Arc::default();
				let me = slot.clone();
				let reaction: Reaction = Arc::new(move |k, _| {
					if leave == Some(k) {
						let h = lk(&me).take();
						if let Some(mut h) = h {
							h.unsubscribe();
						}
					}
				});
				let sub = source.subscribe(UserObserver::new(&log, i).reacting(reaction));
				*lk(&slot) = Some(sub);
				slots.push(slot);
				m.subs.push(Sub { kind, limit, leave, got: 0, closed: false, active: false, unread: recent.iter().map(|n| (*n, true)).collect(), existed: false, fresh: false });
				m.out.push(vec![]);
			}
			1 => {
				let a = gen_action(s, &mut n);
				s.note(|| format!("  step {step}: {a:?}"));
				act(rig.world(), &a);
				if let A::Message(n) = a {
					recent.push(n);
				}
				m.act(&a);
			}
			2 | 3 => {
				let i = s.idx(m.subs.len());
				s.note(|| format!("  step {step}: {} {i}", if what == 2 { "unsubscribe" } else { "drop" }));
				let h = lk(&slots[i]).take();
				if let Some(mut h) = h {
					if what == 2 {
						h.unsubscribe();
					}
					drop(h);
				}
				m.subs[i].closed = true;
			}
			_ => {
				updates += 1;
				let pre: Vec<A> = if s.chance(1, 4) { s.list(1, 2, |s| gen_action(s, &mut n)) } else { vec![] };
				let mut post: Vec<A> = if s.chance(1, 4) { s.list(1, 2, |s| gen_action(s, &mut n)) } else { vec![] };
				s.note(|| format!("  step {step}: update, before {pre:?}, after {post:?}"));
				if keys_are_cleared {
					post.push(A::ClearKeys);
				}
				{
					let mut script = rig.world().resource_mut::<Script<A>>();
					script.pre = pre.clone();
					script.post = post.clone();
				}
				for a in &pre {
					m.act(a);
				}
				// what the keys are like when the scheduler runs
				let keys = {
					let mut k = rig.world().resource::<ButtonInput<KeyCode>>().clone();
					for a in &pre {
						match *a {
							A::Press(i) => k.press(KEYS[i]),
							A::Release(i) => k.release(KEYS[i]),
							_ => {}
						}
					}
					let f = |v: Vec<KeyCode>| {
						let mut v: Vec<i64> = v.into_iter().map(key_number).collect();
						v.sort();
						v
					};
					[f(k.get_just_pressed().copied().collect()), f(k.get_pressed().copied().collect()), f(k.get_just_released().copied().collect())]
				};
				// everything one tick may do to a subscription
				for (i, s) in m.subs.iter().enumerate() {
					let mut ways: Vec<(Sub, Vec<Ev>)> = vec![];
					let mut way = |f: &dyn Fn(&mut Sub, &mut Vec<Ev>)| {
						let (mut s, mut out) = (s.clone(), m.out[i].clone());
						f(&mut s, &mut out);
						s.active = true;
						s.unread.clear();
						s.existed = m.res.is_some();
						ways.push((s, out));
					};
					match s.kind {
						_ if s.closed => way(&|_, _| {}),
						Kind::Event(t) => {
							way(&|s, out| {
								if !s.active && !m.alive[t] {
									s.end(out);
								}
							});
						}
						Kind::Message => {
							let unread = s.unread.clone();
							way(&|s, out| unread.iter().for_each(|(n, _)| s.emit(*n, out)));
							if unread.iter().any(|(_, before)| *before) {
								way(&|s, out| unread.iter().filter(|(_, before)| !before).for_each(|(n, _)| s.emit(*n, out)));
							}
						}
						Kind::Resource { added, changed } => {
							let is_added = m.res.is_some() && !s.existed;
							let yes = if is_added { added } else { changed && m.changed };
							if let (true, Some(v)) = (yes, m.res) {
								way(&move |s, out| s.emit(v, out));
							} else {
								way(&|_, _| {});
							}
							// removed and inserted again between two ticks counts as
							// added or as changed; the same for a resource that was there
							// before the subscription but was touched since
							let unclear = m.res.is_some() && (m.replaced && s.existed || is_added && !s.active && s.fresh) && added != changed;
							if let (true, Some(v)) = (unclear, m.res) {
								way(&move |s, out| s.emit(v, out));
								way(&|_, _| {});
							}
						}
						// in any order, compared sorted below
						Kind::Keys(k) => {
							let now = keys[k as usize].clone();
							way(&move |s, out| now.iter().for_each(|n| s.emit(*n, out)));
						}
					}
					batches.push(ways);
				}
				rig.app.update();
				// messages are kept until the second beginning of a frame after them
				recent = pre.iter().chain(&post).filter_map(|a| if let A::Message(n) = a { Some(*n) } else { None }).collect();
				// which of the ways was taken
				for (i, ways) in batches.iter().enumerate() {
					let got: Vec<Ev> = log.of(i).into_iter().filter(|r| r.step == step).filter_map(|r| if let Seen::Ev(e) = r.seen { Some(e) } else { None }).collect();
					let set = matches!(m.subs[i].kind, Kind::Keys(_));
					// what happens after the tick may add to it
					let fits = |out: &Vec<Ev>| {
						if set {
							// a limit cuts the set off anywhere
							let values = |l: &[Ev]| l.iter().filter(|e| matches!(e, Ev::Next(_))).count();
							values(out) == values(&got)
						} else {
							got.starts_with(out)
						}
					};
					let best = ways.iter().filter(|(_, out)| fits(out)).max_by_key(|(_, out)| out.len()).or(ways.first()).unwrap();
					m.subs[i] = best.0.clone();
					m.out[i] = best.1.clone();
					if set && let Kind::Keys(k) = m.subs[i].kind {
						let mut values: Vec<i64> = got.iter().filter_map(|e| if let Ev::Next(v) = e { Some(v.num()) } else { None }).collect();
						let n = values.len();
						values.sort();
						values.dedup();
						if values.len() != n || !values.iter().all(|v| keys[k as usize].contains(v)) {
							fail!("keys", "subscription {i} got {} while the keys are {:?}", show(&got), keys[k as usize]);
						}
						if fits(&m.out[i]) {
							// same number, right values: take over the order
							let mut l = got.iter().filter(|e| matches!(e, Ev::Next(_)));
							for e in m.out[i].iter_mut().filter(|e| matches!(e, Ev::Next(_))) {
								*e = l.next().unwrap().clone();
							}
						}
					}
				}
				m.changed = false;
				m.replaced = false;
				for s in &mut m.subs {
					s.fresh = false;
				}
				for a in &post {
					m.act(a);
				}
			}
		}
		for i in 0..m.subs.len() {
			let got: Vec<Ev> = log.of(i).into_iter().filter(|r| r.step == step).filter_map(|r| if let Seen::Ev(e) = r.seen { Some(e) } else { None }).collect();
			checks += 1;
			delivered += got.len();
			if got != m.out[i] {
				fail!("deliveries", "subscription {i} ({:?}) got {} instead of {}", m.subs[i].kind, show(&got), show(&m.out[i]));
			}
			let down = log.of(100 + i).len();
			if down != m.subs[i].closed as usize {
				fail!("released", "subscription {i} ({:?}) is {}, its source was released {down} times", m.subs[i].kind, if m.subs[i].closed { "over" } else { "open" });
			}
			left_inside |= m.subs[i].leave.is_some() && m.subs[i].closed;
		}
	}
	// everything goes, nothing may stay
	for slot in &slots {
		let h = lk(slot).take();
		if let Some(mut h) = h {
			h.unsubscribe();
		}
	}
	if s.chance(1, 2) {
		// what was observed stays, whatever was put there to observe it goes
		rig.world().flush();
		rig.app.update();
		rig.app.update();
		let alive = targets.iter().filter(|t| rig.world().get_entity(**t).is_ok()).count() as i64;
		let extra = rig.extra();
		if extra != alive {
			fail!("observers_left", "{extra} entities are left, {alive} of them observed ones: {}", rig.names());
		}
		if rig.work_left() {
			fail!("work_left", "work is left in an executor");
		}
	}
	for t in targets {
		rig.world().try_despawn(t).ok();
	}
	rig.world().flush();
	rig.app.update();
	rig.app.update();
	checks += 1;
	let extra = rig.extra();
	if extra != 0 {
		fail!("entities_left", "{extra} entities are left: {}", rig.names());
	}
	if rig.work_left() {
		fail!("work_left", "work is left in an executor");
	}
	Ok(Report::new(updates >= 1 && delivered >= 1)
		.checks(checks)
		.label(delivered >= 4, "4+_deliveries")
		.label(left_inside, "left_inside_a_callback")
		.label(m.subs.iter().any(|s| s.limit.is_some() && s.closed), "limit_reached")
		.label(!m.alive[0] || !m.alive[1], "despawned"))
}
