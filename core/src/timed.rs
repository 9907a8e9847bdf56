//! T02..T05: observables and operators driven by a scheduler, against models
//! over the time of the executor

use pbt::{CaseResult, Report, Src, fail};
use rx_core::prelude::*;
use rx_core_common::{ErasedSubscription, SchedulerHandle, WorkExecutor};
use rx_core_scheduler_ticking::TickingScheduler;
use rx_core_testing::{MockContextProvider, MockExecutor};
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use crate::base::*;
use crate::ho::simple_kinds;
use crate::ops::subscribe_kind;
use crate::sync::*;

pub type Handle = SchedulerHandle<TickingScheduler<MockContextProvider>>;

pub fn ms(n: u64) -> Duration {
	Duration::from_millis(n)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TK {
	Delay(u64),
	ObserveOn,
	SubscribeOn(Option<u64>),
	Debounce(u64),
	Throttle(u64, ThrottleOutputBehavior),
	Fallback,
	Interval { every: u64, max: usize, start: bool },
	Timer(u64),
	OnTick { n: usize, nth: usize, start: bool },
}

impl TK {
	fn is_source(&self) -> bool {
		matches!(self, TK::Interval { .. } | TK::Timer(_) | TK::OnTick { .. })
	}
}

#[derive(Clone, Debug)]
enum RAct {
	Feed(V),
	Complete,
	Error(Er),
	SubjectUnsub,
	Unsub,
	/// ask whether the subscription is closed
	Query,
}

#[derive(Clone, Debug)]
enum In {
	Hot,
	Cold(Cold),
}

// ------------------------------------------------------------------ model

struct TM {
	kind: TK,
	input: In,
	prefix: ChainM,
	taken: usize,
	prefix_told: bool,
	suffix: ChainM,
	now: u64,
	/// subscribed to the source
	attached: bool,
	up_closed: bool,
	up_completed: bool,
	unsubbed: bool,
	pending: VecDeque<(u64, V)>,
	deadline: Option<u64>,
	ticked: bool,
	/// work that repeats: executions left in this tick
	left: usize,
	consumed: u64,
	count: usize,
	fired: bool,
	last_seen: u64,
	/// a window opened while idle counts from the last tick the operator saw
	/// (the known finding "idle_throttle")
	stale: bool,
	delivering: bool,
	react: Option<(usize, Vec<RAct>)>,
	queue: VecDeque<RAct>,
	seen: usize,
	fed: usize,
	/// the source did not care that nobody listens
	went_on: bool,
}

impl TM {
	fn down(&mut self, e: MEv) {
		if self.suffix.closed {
			return;
		}
		self.suffix.source(e);
		if let Some((n, acts)) = &self.react
			&& self.seen <= *n
			&& *n < self.suffix.out.len()
		{
			self.queue.extend(acts.iter().cloned());
		}
		self.seen = self.suffix.out.len();
		self.settle();
	}
	fn settle(&mut self) {
		if self.suffix.closed {
			self.pending.clear();
			self.deadline = None;
			self.left = 0;
			if !self.prefix.closed {
				self.prefix.source(MEv::Unsub);
			}
			self.prefix_told = true;
		}
	}
	fn subscribe(&mut self, hot: &Option<MEv>) {
		self.suffix.subscribe();
		self.seen = self.suffix.out.len();
		match self.kind {
			TK::SubscribeOn(d) => self.deadline = Some(self.now + d.unwrap_or(0)),
			TK::Interval { start, .. } => {
				self.consumed = self.now;
				if start {
					self.down(MEv::Next(V::I(0)));
					self.count = 1;
				}
			}
			TK::Timer(d) => self.deadline = Some(self.now + d),
			TK::OnTick { n, nth, start } => {
				if nth == 0 {
					for i in 0..n {
						self.down(MEv::Next(V::I(i as i64)));
					}
					self.down(MEv::Complete);
				} else if start {
					if n > 0 {
						self.down(MEv::Next(V::I(0)));
						self.count = 1;
					}
					if n <= 1 {
						self.down(MEv::Complete);
					}
				} else if n == 0 {
					self.down(MEv::Complete);
				}
			}
			_ => self.attach(hot),
		}
		self.settle();
	}
	fn attach(&mut self, hot: &Option<MEv>) {
		self.attached = true;
		self.prefix.subscribe();
		self.drain();
		let evs = match &self.input {
			In::Hot => hot.iter().cloned().collect(),
			In::Cold(c) => cold_script(c),
		};
		for e in evs {
			self.source(e);
		}
	}
	fn source(&mut self, e: MEv) {
		if !self.attached {
			return;
		}
		self.prefix.source(e);
		self.drain();
	}
	fn drain(&mut self) {
		while self.taken < self.prefix.out.len() {
			let e = MEv::from_ev(&self.prefix.out[self.taken].1);
			self.taken += 1;
			self.up(e);
		}
		if self.prefix.closed && !self.prefix_told {
			self.prefix_told = true;
			if !self.up_closed {
				self.up(MEv::Unsub);
			}
		}
	}
	fn unsub(&mut self) {
		self.unsubbed = true;
		if self.kind.is_source() || !self.attached {
			self.down(MEv::Unsub);
		} else if let TK::SubscribeOn(_) = self.kind {
			self.down(MEv::Unsub);
		} else if !self.prefix.closed {
			self.source(MEv::Unsub);
		}
	}
	fn holds(&self) -> bool {
		match self.kind {
			TK::Throttle(_, o) => o.emits_trailing() && !self.pending.is_empty(),
			_ => !self.pending.is_empty(),
		}
	}
	/// a notification reaches the operator
	fn up(&mut self, e: MEv) {
		if self.suffix.closed || self.up_closed {
			self.went_on = true;
			return;
		}
		match e {
			MEv::Next(v) => {
				self.fed += 1;
				match self.kind {
					TK::Delay(d) => self.pending.push_back((self.now + d, v)),
					TK::ObserveOn => self.pending.push_back((self.now, v)),
					TK::Debounce(d) => {
						self.pending.clear();
						self.pending.push_back((self.now + d, v));
					}
					TK::Fallback => {
						self.pending.clear();
						self.pending.push_back((0, v));
					}
					TK::Throttle(d, o) => match self.deadline {
						None => {
							self.deadline = Some(if self.stale { self.last_seen } else { self.now } + d);
							if !self.delivering {
								self.ticked = false;
							}
							if o.emits_leading() {
								self.down(MEv::Next(v));
							} else {
								self.pending.push_back((0, v));
							}
						}
						Some(until) => {
							let now = if self.stale { self.last_seen } else { self.now };
							if until <= now {
								self.deadline = Some(now + d);
							}
							if o.emits_trailing() {
								self.pending.clear();
								self.pending.push_back((0, v));
							}
						}
					},
					TK::SubscribeOn(_) => self.down(MEv::Next(v)),
					_ => unreachable!(),
				}
			}
			MEv::Error(e) => {
				self.up_closed = true;
				self.pending.clear();
				self.deadline = None;
				self.down(MEv::Error(e));
			}
			MEv::Complete => {
				self.up_closed = true;
				self.up_completed = true;
				if !self.holds() || self.immediate() {
					self.down(MEv::Complete);
				}
			}
			MEv::Unsub => {
				self.up_closed = true;
				if !self.holds() || self.immediate() {
					self.down(MEv::Unsub);
				}
			}
		}
	}
	/// the end is not held back by values that wait
	fn immediate(&self) -> bool {
		matches!(self.kind, TK::Fallback | TK::SubscribeOn(_))
	}
	fn tick_start(&mut self, now: u64) {
		self.now = now;
		self.ticked = false;
		if self.suffix.closed {
			return;
		}
		match self.kind {
			TK::Interval { every, max, .. } => {
				let n = if every == 0 { usize::MAX } else { ((now - self.consumed) / every) as usize };
				if every > 0 {
					self.consumed += n as u64 * every;
				}
				self.left = n.min(max.max(1));
			}
			TK::Fallback | TK::OnTick { .. } => self.left = 1,
			_ => {}
		}
	}
	/// at most one execution, true if there was one
	fn tick_step(&mut self, hot: &Option<MEv>) -> bool {
		if self.suffix.closed {
			return false;
		}
		match self.kind {
			TK::Delay(_) | TK::ObserveOn | TK::Debounce(_) => {
				if self.pending.front().is_none_or(|p| p.0 > self.now) {
					return false;
				}
				let v = self.pending.pop_front().unwrap().1;
				self.down(MEv::Next(v));
			}
			TK::Throttle(..) => {
				if self.ticked {
					return false;
				}
				let Some(until) = self.deadline else { return false };
				self.ticked = true;
				self.last_seen = self.now;
				if self.now >= until {
					match self.pending.pop_front() {
						Some((_, v)) => {
							self.delivering = true;
							self.down(MEv::Next(v));
						}
						None => self.deadline = None,
					}
				}
			}
			TK::SubscribeOn(_) | TK::Timer(_) => {
				if self.deadline.is_none_or(|d| d > self.now) {
					return false;
				}
				self.deadline = None;
				if let TK::Timer(_) = self.kind {
					self.down(MEv::Next(V::I(77)));
					self.fired = true;
				} else {
					self.attach(hot);
				}
			}
			TK::Interval { .. } => {
				if self.left == 0 {
					return false;
				}
				self.left -= 1;
				let n = self.count;
				self.count += 1;
				self.down(MEv::Next(V::I(n as i64)));
			}
			TK::Fallback => {
				if self.left == 0 {
					return false;
				}
				self.left = 0;
				let v = self.pending.pop_front().map(|p| p.1).unwrap_or(V::I(9000 + self.count as i64));
				self.count += 1;
				self.down(MEv::Next(v));
			}
			TK::OnTick { n, nth, .. } => {
				if self.left == 0 {
					return false;
				}
				self.left = 0;
				self.consumed += 1;
				if self.consumed % nth as u64 == 0 {
					let i = self.count;
					self.count += 1;
					self.down(MEv::Next(V::I(i as i64)));
					self.fired = i + 1 == n;
				}
			}
		}
		true
	}
	/// after what the delivered value made the destination do
	fn tick_after(&mut self) {
		self.delivering = false;
		if self.suffix.closed {
			return;
		}
		match self.kind {
			TK::Delay(_) | TK::ObserveOn | TK::Debounce(_) | TK::Throttle(..) => {
				if self.up_closed && self.pending.is_empty() {
					self.down(if self.up_completed { MEv::Complete } else { MEv::Unsub });
				}
			}
			TK::Timer(_) | TK::OnTick { .. } if self.fired => self.down(MEv::Complete),
			_ => {}
		}
	}
	/// whether work has to be left in the executor
	fn works(&self) -> bool {
		if self.suffix.closed {
			return false;
		}
		match self.kind {
			TK::Delay(_) | TK::ObserveOn | TK::Debounce(_) => !self.pending.is_empty(),
			TK::Throttle(..) | TK::SubscribeOn(_) | TK::Timer(_) => self.deadline.is_some(),
			TK::Fallback | TK::Interval { .. } | TK::OnTick { .. } => true,
		}
	}
}

// ------------------------------------------------------------------- real

pub fn build(kind: TK, source: BoxObs, h: &Handle, compose: bool) -> BoxObs {
	let op = || compose_operator::<V, Er>();
	let h = h.clone();
	match kind {
		TK::Delay(d) if compose => BoxObs::new(source.pipe(op().delay(ms(d), h))),
		TK::Delay(d) => BoxObs::new(source.delay(ms(d), h)),
		TK::ObserveOn if compose => BoxObs::new(source.pipe(op().observe_on(h))),
		TK::ObserveOn => BoxObs::new(source.observe_on(h)),
		TK::SubscribeOn(None) => BoxObs::new(source.subscribe_on(h)),
		TK::SubscribeOn(Some(d)) => BoxObs::new(source.subscribe_on_with_delay(ms(d), h)),
		TK::Debounce(d) if compose => BoxObs::new(source.pipe(op().debounce_time(ms(d), h))),
		TK::Debounce(d) => BoxObs::new(source.debounce_time(ms(d), h)),
		TK::Throttle(d, o) => {
			let opt = ThrottleTimeOptions::new(ms(d)).with_output(o);
			if compose { BoxObs::new(source.pipe(op().throttle_time(opt, h))) } else { BoxObs::new(source.throttle_time(opt, h)) }
		}
		TK::Fallback if compose => BoxObs::new(source.pipe(op().fallback_when_silent(|_, _, i| V::I(9000 + i as i64), h))),
		TK::Fallback => BoxObs::new(source.fallback_when_silent(|_, _, i| V::I(9000 + i as i64), h)),
		TK::Interval { every, max, start } => {
			let o = IntervalObservableOptions { duration: ms(every), max_emissions_per_tick: max, start_on_subscribe: start };
			BoxObs::new(MapNeverErrorOperator::<V, Er>::default().operate(interval(o, h).map(|i| V::I(i as i64))))
		}
		TK::Timer(d) => BoxObs::new(MapNeverErrorOperator::<V, Er>::default().operate(timer(ms(d), h).map(|_| V::I(77)))),
		TK::OnTick { n, nth, start } => {
			let v: Vec<V> = (0..n).map(|i| V::I(i as i64)).collect();
			let o = OnTickObservableOptions { start_on_subscribe: start, emit_at_every_nth_tick: nth };
			BoxObs::new(MapNeverErrorOperator::<V, Er>::default().operate(v.into_observable_on_every_nth_tick(o, h)))
		}
	}
}

struct Live {
	bare: bool,
	sub: Arc<Mutex<Option<ErasedSubscription>>>,
	m: TM,
}

fn unsub(slot: &Arc<Mutex<Option<ErasedSubscription>>>) {
	let h = lk(slot).take();
	if let Some(mut h) = h {
		if !h.is_closed() {
			h.unsubscribe();
		}
		*lk(slot) = Some(h);
	}
}

fn compare(world: &World, lives: &[Live], idle: Option<bool>) -> Result<usize, pbt::Failure> {
	let log = world.log();
	let mut checks = 0;
	if let Some(empty) = idle {
		let left = lives.iter().any(|l| l.m.works());
		if empty == left && (left || !lives.iter().any(|l| l.m.went_on)) {
			fail!(if left { "work missing" } else { "work left" }, "executor is_empty() = {empty} but work is{} pending", if left { "" } else { " not" });
		}
	}
	for (who, l) in lives.iter().enumerate() {
		let mine: Vec<_> = log.iter().filter(|r| r.who == who).collect();
		// a bare subscriber is not shielded from the ends of the operators before it
		if let Some(r) = mine.iter().find(|r| !l.bare && matches!(r.seen, Seen::Late(_))) {
			fail!("late", "observer {who} was notified after its end: {r}");
		}
		let real: Vec<(usize, Ev)> = mine
			.iter()
			.filter_map(|r| match &r.seen {
				Seen::Ev(e) => Some((r.step, e.clone())),
				_ => None,
			})
			.collect();
		checks += real.len() + 1;
		if real != l.m.suffix.out {
			let f = |v: &[(usize, Ev)]| v.iter().map(|(s, e)| format!("@{s} {e}")).collect::<Vec<_>>().join("  ");
			fail!("events", "observer {who} saw      {}\nexpected by model {}", f(&real), f(&l.m.suffix.out));
		}
		if let Some(sub) = &*lk(&l.sub) {
			let closed = sub.is_closed();
			if l.m.suffix.closed && !closed {
				fail!("closed", "subscription {who} ended but is not closed");
			}
			if closed && !l.m.suffix.closed && !l.m.prefix.closed && !l.m.unsubbed && !l.m.up_closed {
				fail!("closed", "subscription {who} is closed but did not end");
			}
		}
	}
	for (tag, what) in [(10i64, "source"), (12, "whole")] {
		let real = log.iter().filter(|r| r.seen == Seen::Note("fin", tag)).count();
		let least = lives.iter().filter(|l| l.m.suffix.closed && (tag == 12 || l.m.attached)).count();
		let most = if tag == 12 { least } else { lives.iter().filter(|l| l.m.prefix.closed || l.m.up_closed || l.m.suffix.closed).count() };
		checks += 1;
		if real < least || real > most {
			fail!("released", "the finalizer of the {what} ran {real} times, expected {least} to {most} times");
		}
	}
	Ok(checks)
}

/// What may have happened: as specified, or the way a known finding has it
struct Variant {
	lives: Vec<Live>,
	hot: Option<MEv>,
	acts: Vec<String>,
	wrong: Option<pbt::Failure>,
}

impl Variant {
	fn feed(&mut self, e: MEv) {
		feed(&mut self.lives, &mut self.hot, e);
		do_acts(&mut self.lives, &mut self.hot, &mut self.acts);
	}
}

fn do_acts(lives: &mut [Live], hot: &mut Option<MEv>, log: &mut Vec<String>) {
	// what the reacting observer did, after the notification it reacted to
	loop {
		let Some(i) = lives.iter().position(|l| !l.m.queue.is_empty()) else { return };
		let a = lives[i].m.queue.pop_front().unwrap();
		log.push(format!("{a:?}"));
		match a {
			RAct::Unsub => lives[i].m.unsub(),
			RAct::Query => {}
			a => feed(lives, hot, match a {
				RAct::Feed(v) => MEv::Next(v),
				RAct::Complete => MEv::Complete,
				RAct::Error(e) => MEv::Error(e),
				_ => MEv::Unsub,
			}),
		}
	}
}

fn feed(lives: &mut [Live], hot: &mut Option<MEv>, e: MEv) {
	if hot.is_some() {
		return;
	}
	if !matches!(e, MEv::Next(_)) {
		*hot = Some(e.clone());
	}
	for l in lives.iter_mut() {
		if matches!(l.m.input, In::Hot) {
			l.m.source(e.clone());
		}
	}
}

fn run(s: &mut Src, kind: TK) -> CaseResult {
	let world = World::new();
	let mut ex = MockExecutor::default();
	let h: Handle = ex.get_scheduler_handle();
	let input = if s.chance(1, 5) { In::Cold(gen_cold(s, 1)) } else { In::Hot };
	let chain = |s: &mut Src, tag: usize| {
		let mut k = vec![K::Finalize(tag)];
		if s.chance(1, 3) {
			k.extend(simple_kinds(s, 2, true));
		}
		k
	};
	let mut prefix = if kind.is_source() { vec![] } else { chain(s, 10) };
	let suffix = chain(s, 12);
	let compose = s.chance(1, 2);
	// what a reaction does to a source that emits while it is subscribed to is not modelled
	let busy = matches!((kind, &input), (TK::SubscribeOn(_), In::Cold(_)));
	let react = if !busy && s.chance(1, 2) {
		let n = s.usize(0, 3);
		let acts = match s.idx(8) {
			0 => vec![RAct::Unsub],
			1 => vec![RAct::Complete],
			2 => vec![RAct::Error(Er(s.range(1, 9)))],
			3 => vec![RAct::SubjectUnsub],
			4 => vec![RAct::Feed(gen_value(s)), RAct::Complete],
			5 => vec![RAct::Query, RAct::Unsub],
			6 => vec![RAct::Feed(gen_value(s)), RAct::Feed(gen_value(s))],
			_ => vec![RAct::Feed(gen_value(s))],
		};
		Some((n, acts))
	} else {
		None
	};
	if react.is_some() && matches!(kind, TK::SubscribeOn(_)) {
		// unsubscribing takes effect between two notifications of one operator
		prefix.truncate(1);
	}
	s.note(|| format!("{} {prefix:?} {kind:?} {suffix:?}, the observer reacts: {react:?}", if kind.is_source() { String::new() } else { format!("{input:?}") }));
	let mut subject = PublishSubject::<V, Er>::default();
	let ctx = Ctx { world: world.clone(), who: 8888 };
	let source = match &input {
		In::Hot => BoxObs::cloneable(subject.clone()),
		In::Cold(c) => build_cold(c),
	};
	let source = build_chain(source, &prefix, Style::Pipe, &ctx);
	let mut obs = build_chain(build(kind, source, &h, compose), &suffix, Style::Pipe, &ctx);
	let mut vs: Vec<Variant> = (0..if matches!(kind, TK::Throttle(..)) { 2 } else { 1 })
		.map(|_| Variant { lives: vec![], hot: None, acts: vec![], wrong: None })
		.collect();
	let mut slots: Vec<Arc<Mutex<Option<ErasedSubscription>>>> = vec![];
	let mut now = 0u64;
	let steps = s.usize(2, s.size as usize + 12);
	let max_lives = if react.is_some() { 1 } else { 2 };
	let (mut checks, mut ticks) = (0, 0);
	// in the end everything is released
	for step in 0..steps + 3 {
		world.set_step(step);
		for l in vs.iter_mut().flat_map(|v| &mut v.lives) {
			l.m.suffix.step = step;
			l.m.prefix.step = step;
		}
		let sel = if step >= steps {
			if step == steps { 7 } else { 2 }
		} else if slots.is_empty() { 0 } else { s.weighted(&[1, 12, 10, 2, 1, 1, 1]) };
		let mut ticked = false;
		match sel {
			0 => {
				if slots.len() >= max_lives {
					continue;
				}
				let who = slots.len();
				let ok = s.idx(3);
				s.note(|| format!("step {step}: subscribe {who}"));
				let slot: Arc<Mutex<Option<ErasedSubscription>>> = Arc::default();
				slots.push(slot.clone());
				let mut skip = 0;
				for (i, v) in vs.iter_mut().enumerate() {
					let mut m = TM {
						kind,
						input: input.clone(),
						prefix: ChainM::new(&prefix),
						taken: 0,
						prefix_told: false,
						suffix: ChainM::new(&suffix),
						now,
						attached: false,
						up_closed: false,
						up_completed: false,
						unsubbed: false,
						pending: VecDeque::new(),
						deadline: None,
						ticked: false,
						left: 0,
						consumed: 0,
						count: 0,
						fired: false,
						last_seen: 0,
						stale: i > 0,
						delivering: false,
						react: None,
						queue: VecDeque::new(),
						seen: 0,
						fed: 0,
						went_on: false,
					};
					m.prefix.step = step;
					m.suffix.step = step;
					m.subscribe(&v.hot);
					// what it sees while it is being subscribed is not reacted to
					skip = m.suffix.out.len();
					m.react = react.clone().map(|(n, acts)| (n + skip, acts));
					let bare = if react.is_some() { ok == 0 } else { ok == 1 };
					v.lives.push(Live { bare, sub: slot.clone(), m });
				}
				let sub = if let Some((n, acts)) = &react {
					let (n, acts, slot, subject) = (*n, acts.clone(), slot.clone(), Mutex::new(subject.clone()));
					let r: Reaction = Arc::new(move |i, _| {
						if i != n + skip {
							return;
						}
						for a in &acts {
							let mut sj = lk(&subject).clone();
							match a {
								RAct::Feed(v) => sj.next(v.clone()),
								RAct::Complete => sj.complete(),
								RAct::Error(e) => sj.error(*e),
								RAct::SubjectUnsub => sj.unsubscribe(),
								RAct::Unsub => unsub(&slot),
								RAct::Query => {
									let h = lk(&slot).take();
									if let Some(h) = h {
										let _ = h.is_closed();
										*lk(&slot) = Some(h);
									}
								}
							}
						}
					});
					if ok == 0 { obs.subscribe(Probe::new(&world, who).reacting(r)) } else { obs.subscribe(UserObserver::new(&world, who).reacting(r)) }
				} else {
					subscribe_kind(&mut obs, &world, who, ok)
				};
				*lk(&slot) = Some(sub);
			}
			1 => {
				let v = gen_value(s);
				s.note(|| format!("step {step}: next {v}"));
				subject.next(v.clone());
				vs.iter_mut().for_each(|x| x.feed(MEv::Next(v.clone())));
			}
			2 => {
				let d = if step > steps { 1000 } else { *s.pick(&[5u64, 0, 1, 10, 3, 20, 2, 50]) };
				s.note(|| format!("step {step}: tick {d}"));
				now += d;
				ticks += 1;
				ticked = true;
				ex.tick(ms(d));
				for v in &mut vs {
					for l in &mut v.lives {
						l.m.tick_start(now);
					}
					// works of different subscriptions do not influence each other
					loop {
						let mut any = false;
						for i in 0..v.lives.len() {
							while v.lives[i].m.tick_step(&v.hot) {
								any = true;
								do_acts(&mut v.lives, &mut v.hot, &mut v.acts);
								v.lives[i].m.tick_after();
								do_acts(&mut v.lives, &mut v.hot, &mut v.acts);
							}
						}
						if !any {
							break;
						}
					}
				}
			}
			3 | 4 => {
				let e = match (sel, s.idx(3)) {
					(3, _) => MEv::Complete,
					(_, 0) => MEv::Unsub,
					_ => MEv::Error(Er(s.range(1, 9))),
				};
				s.note(|| format!("step {step}: {e:?}"));
				match &e {
					MEv::Complete => subject.complete(),
					MEv::Error(er) => subject.error(*er),
					_ => subject.unsubscribe(),
				}
				vs.iter_mut().for_each(|x| x.feed(e.clone()));
			}
			5 => {
				let i = s.idx(slots.len());
				s.note(|| format!("step {step}: unsubscribe {i}"));
				unsub(&slots[i]);
				for v in &mut vs {
					if !v.lives[i].m.unsubbed {
						v.lives[i].m.unsub();
					}
				}
			}
			7 => {
				for (i, slot) in slots.iter().enumerate() {
					unsub(slot);
					for v in &mut vs {
						if !v.lives[i].m.unsubbed {
							v.lives[i].m.unsub();
						}
					}
				}
			}
			_ => {
				let i = s.idx(slots.len());
				if let Some(h) = &*lk(&slots[i]) {
					let _ = h.is_closed();
				}
			}
		}
		for v in vs.iter_mut().filter(|v| v.wrong.is_none()) {
			match compare(&world, &v.lives, ticked.then(|| ex.is_empty())) {
				Ok(n) => checks += n,
				Err(f) => v.wrong = Some(f),
			}
		}
		if vs.iter().all(|v| v.wrong.is_some()) {
			return Err(vs.swap_remove(0).wrong.unwrap());
		}
	}
	let v = vs.iter().find(|v| v.wrong.is_none()).unwrap();
	let delivered: usize = v.lives.iter().map(|l| l.m.suffix.out.len()).sum();
	let fed: usize = v.lives.iter().map(|l| l.m.fed).sum();
	Ok(Report::new(ticks > 0 && delivered > 0 && (fed > 1 || kind.is_source()))
		.label(!v.acts.is_empty(), "the observer reacted")
		.label(v.lives.iter().any(|l| l.m.suffix.closed), "ended")
		.label(vs[0].wrong.is_some(), "only explained by idle_throttle")
		.checks(checks))
}

fn dur(s: &mut Src) -> u64 {
	*s.pick(&[10u64, 5, 1, 0, 20, 7])
}

pub fn sources(s: &mut Src) -> CaseResult {
	let kind = match s.idx(3) {
		0 => TK::Interval { every: dur(s), max: s.usize(0, 6), start: s.chance(1, 2) },
		1 => TK::Timer(dur(s)),
		_ => TK::OnTick { n: s.usize(0, 5), nth: s.usize(0, 3), start: s.chance(1, 2) },
	};
	run(s, kind)
}
pub fn delays(s: &mut Src) -> CaseResult {
	let kind = match s.idx(3) {
		0 => TK::Delay(dur(s)),
		1 => TK::ObserveOn,
		_ => TK::SubscribeOn(if s.chance(1, 2) { None } else { Some(dur(s)) }),
	};
	run(s, kind)
}
pub fn limits(s: &mut Src) -> CaseResult {
	let kind = match s.idx(2) {
		0 => TK::Debounce(dur(s)),
		_ => TK::Throttle(
			dur(s),
			*s.pick(&[ThrottleOutputBehavior::LeadingAndTrailing, ThrottleOutputBehavior::LeadingOnly, ThrottleOutputBehavior::TrailingOnly]),
		),
	};
	run(s, kind)
}
pub fn fallback(s: &mut Src) -> CaseResult {
	run(s, TK::Fallback)
}

/// A throttle window that opens while nothing was throttled lasts as long as
/// any other (a known finding)
pub fn idle_throttle(s: &mut Src) -> CaseResult {
	let world = World::new();
	let mut ex = MockExecutor::default();
	let h: Handle = ex.get_scheduler_handle();
	let wait = s.range(1, 10) as u64 * 10;
	s.note(|| format!("throttle_time(50 ms), two values after {wait} ms of silence, then a tick of 1 ms"));
	let mut subject = PublishSubject::<V, Er>::default();
	let mut obs = BoxObs::new(subject.clone().throttle_time(ThrottleTimeOptions::new(ms(50)), h));
	let _sub = obs.subscribe(UserObserver::new(&world, 0));
	ex.tick(ms(wait));
	subject.next(V::I(1));
	subject.next(V::I(2));
	ex.tick(ms(1));
	let seen = world.log().iter().filter(|r| matches!(r.seen, Seen::Ev(_))).count();
	if wait + 1 >= 50 && seen == 2 {
		fail!("window_shortened", "the second value was emitted 1 ms after the first one");
	}
	if seen != 1 {
		fail!("events", "{seen} values were emitted, expected 1");
	}
	Ok(Report::new(true).checks(1))
}
