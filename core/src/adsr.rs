//! T05: the envelope generator against a model over the time since activation

use bevy_math::curve::EaseFunction;
use pbt::{CaseResult, Report, Src, fail};
use rx_core::prelude::*;
use rx_core_common::{SchedulerHandle, SubscriptionLike, WorkExecutor};
use rx_core_macro_observer_derive::RxObserver;
use rx_core_scheduler_ticking::TickingScheduler;
use rx_core_testing::{MockContextProvider, MockExecutor};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use crate::base::{Er, lk};
use crate::timed::ms;

type Phase = AdsrEnvelopePhase;
type Tr = AdsrEnvelopePhaseTransition;
type Log = Arc<Mutex<Vec<(usize, Ev)>>>;
type React = Arc<dyn Fn(usize) + Send + Sync>;

#[derive(Clone, Debug)]
enum Ev {
	Signal(AdsrSignal),
	Error(Er),
	Complete,
}

fn same(a: &Ev, b: &Ev) -> bool {
	match (a, b) {
		(Ev::Signal(a), Ev::Signal(b)) => {
			a.adsr_envelope_phase == b.adsr_envelope_phase && a.phase_transition == b.phase_transition && a.t == b.t && (a.value - b.value).abs() < 2e-3
		}
		(Ev::Error(a), Ev::Error(b)) => a == b,
		(Ev::Complete, Ev::Complete) => true,
		_ => false,
	}
}

#[derive(RxObserver)]
#[rx_in(AdsrSignal)]
#[rx_in_error(Er)]
struct Obs {
	log: Log,
	step: Arc<Mutex<usize>>,
	react: Option<React>,
}
impl Obs {
	fn take(&mut self, e: Ev) {
		let n = {
			let mut log = lk(&self.log);
			log.push((*lk(&self.step), e));
			log.len() - 1
		};
		if let Some(r) = &self.react {
			r(n);
		}
	}
}
impl rx_core_common::RxObserver for Obs {
	fn next(&mut self, next: AdsrSignal) {
		self.take(Ev::Signal(next));
	}
	fn error(&mut self, error: Er) {
		self.take(Ev::Error(error));
	}
	fn complete(&mut self) {
		self.take(Ev::Complete);
	}
}

#[derive(Clone, Copy, Debug)]
struct Env {
	a: u64,
	ae: u8,
	d: u64,
	de: u8,
	s: f32,
	r: u64,
	re: u8,
}

fn ease(n: u8) -> Option<EaseFunction> {
	match n {
		0 => None,
		1 => Some(EaseFunction::Linear),
		2 => Some(EaseFunction::QuadraticIn),
		_ => Some(EaseFunction::CubicIn),
	}
}
fn curve(n: u8, from: f32, to: f32, p: f32) -> f32 {
	let p = p.clamp(0.0, 1.0);
	let f = match n {
		0 | 1 => p,
		2 => p * p,
		_ => p * p * p,
	};
	from + (to - from) * f
}

fn order(p: Phase) -> usize {
	[Phase::None, Phase::Attack, Phase::Decay, Phase::Sustain, Phase::Release].iter().position(|x| *x == p).unwrap()
}

/// What has to be announced when going from one phase to another
fn announced(from: Phase, to: Phase) -> Tr {
	if from == to {
		return Tr::empty();
	}
	if to == Phase::None {
		return Tr::Stop;
	}
	if order(to) < order(from) {
		return Tr::Stop | Tr::Restart;
	}
	// every phase on the way was passed, only sustaining is optional
	let mut t = Tr::empty();
	for (p, e) in [(Phase::Attack, Tr::Start), (Phase::Decay, Tr::Fire), (Phase::Sustain, Tr::Sustain), (Phase::Release, Tr::Release)] {
		if order(p) > order(from) && order(p) <= order(to) && (p != Phase::Sustain || to == Phase::Sustain) {
			t |= e;
		}
	}
	t
}

struct M {
	env: Env,
	always: bool,
	reset: bool,
	input: bool,
	was: bool,
	/// time the activation was first seen
	origin: u64,
	/// the tick before that
	last_t: u64,
	release: Option<(u64, f32)>,
	phase: Phase,
	value: f32,
	silent: bool,
	closed: bool,
	out: Vec<(usize, Ev)>,
}

impl M {
	fn phase_at(&self, env: &Env, t: u64) -> Phase {
		if t < env.a {
			Phase::Attack
		} else if t < env.a + env.d {
			Phase::Decay
		} else {
			Phase::Sustain
		}
	}
	fn tick(&mut self, now: u64, step: usize) {
		if self.closed {
			return;
		}
		if self.input && !self.was {
			self.origin = now;
			self.release = None;
		} else if !self.input && self.was {
			self.release = Some((self.last_t, self.value));
		}
		let t = now - self.origin;
		let s = self.env.s.clamp(0.0, 1.0);
		let (phase, value) = if self.input {
			let p = self.phase_at(&self.env, t);
			let part = |from: u64, len: u64| (t - from) as f32 / (len as f32).max(f32::EPSILON);
			let v = match p {
				Phase::Attack => curve(self.env.ae, 0.0, 1.0, part(0, self.env.a)),
				Phase::Decay => curve(self.env.de, 1.0, s, part(self.env.a, self.env.d)),
				_ => s,
			};
			(p, v)
		} else if let Some((from, v)) = self.release.filter(|r| t < r.0 + self.env.r) {
			(Phase::Release, curve(self.env.re, v, 0.0, (t - from) as f32 / self.env.r as f32))
		} else {
			self.release = None;
			(Phase::None, 0.0)
		};
		let e = AdsrSignal {
			adsr_envelope_phase: phase,
			phase_transition: announced(self.phase, phase),
			value,
			t: if phase == Phase::None { Duration::ZERO } else { ms(t) },
		};
		self.last_t = t;
		self.was = self.input;
		self.phase = phase;
		self.value = value;
		if self.reset {
			self.input = false;
		}
		let none = phase == Phase::None;
		if self.always || !none || !self.silent {
			self.out.push((step, Ev::Signal(e)));
		}
		self.silent = none;
	}
	fn end(&mut self, step: usize, e: Option<Ev>) {
		if !self.closed {
			self.closed = true;
			self.out.extend(e.map(|e| (step, e)));
		}
	}
}

fn gen_time(s: &mut Src) -> u64 {
	*s.pick(&[10u64, 0, 20, 5, 35])
}
fn gen_env(s: &mut Src) -> Env {
	Env {
		a: gen_time(s),
		ae: s.idx(4) as u8,
		d: gen_time(s),
		de: s.idx(4) as u8,
		s: *s.pick(&[0.5f32, 0.0, 1.0, 0.25, 1.5, -1.0]),
		r: gen_time(s),
		re: s.idx(4) as u8,
	}
}
fn change(s: &mut Src, e: &mut Env) -> AdsrEnvelopeChange {
	let mut c = AdsrEnvelopeChange::default();
	let n = gen_env(s);
	if s.chance(1, 2) {
		e.a = n.a;
		c.attack_time = Some(ms(n.a));
	}
	if s.chance(1, 2) {
		e.d = n.d;
		c.decay_time = Some(ms(n.d));
	}
	if s.chance(1, 2) {
		e.r = n.r;
		c.release_time = Some(ms(n.r));
	}
	if s.chance(1, 2) {
		e.s = n.s;
		c.sustain_volume = Some(n.s);
	}
	if n.ae > 0 && s.chance(1, 2) {
		e.ae = n.ae;
		c.attack_easing = ease(n.ae);
	}
	if n.de > 0 && s.chance(1, 2) {
		e.de = n.de;
		c.decay_easing = ease(n.de);
	}
	if n.re > 0 && s.chance(1, 2) {
		e.re = n.re;
		c.release_easing = ease(n.re);
	}
	c
}

#[derive(Clone, Debug)]
enum RAct {
	Feed(bool),
	Complete,
	Error(Er),
	Unsub,
}

pub fn adsr(s: &mut Src) -> CaseResult {
	let mut ex = MockExecutor::default();
	let h: SchedulerHandle<TickingScheduler<MockContextProvider>> = ex.get_scheduler_handle();
	let env = gen_env(s);
	let always = s.chance(1, 4);
	let reset = s.chance(1, 4);
	let react: Option<(usize, RAct)> = s.chance(1, 3).then(|| {
		let n = s.usize(0, 4);
		let a = match s.idx(4) {
			0 => RAct::Feed(s.chance(1, 2)),
			1 => RAct::Complete,
			2 => RAct::Error(Er(s.range(1, 9))),
			_ => RAct::Unsub,
		};
		(n, a)
	});
	let composed = s.chance(1, 2);
	s.note(|| format!("{env:?} always_emit_none={always} reset_input_on_tick={reset} the observer reacts: {react:?}"));
	let options = AdsrOperatorOptions {
		always_emit_none: always,
		reset_input_on_tick: reset,
		envelope: AdsrEnvelope {
			attack_time: ms(env.a),
			attack_easing: ease(env.ae),
			decay_time: ms(env.d),
			decay_easing: ease(env.de),
			sustain_volume: env.s,
			release_time: ms(env.r),
			release_easing: ease(env.re),
		},
	};
	let mut m = M {
		env,
		always,
		reset,
		input: false,
		was: false,
		origin: 0,
		last_t: 0,
		release: None,
		phase: Phase::None,
		value: 0.0,
		silent: false,
		closed: false,
		out: vec![],
	};
	let mut subject = PublishSubject::<AdsrTrigger, Er>::default();
	let log: Log = Arc::default();
	let stepc: Arc<Mutex<usize>> = Arc::default();
	let slot: Arc<Mutex<Option<Box<dyn SubscriptionLike + Send + Sync>>>> = Arc::default();
	let r: Option<React> = react.clone().map(|(n, a)| {
		let (slot, subject) = (slot.clone(), Mutex::new(subject.clone()));
		Arc::new(move |i: usize| {
			if i != n {
				return;
			}
			let mut sj = lk(&subject).clone();
			match &a {
				RAct::Feed(on) => sj.next((*on).into()),
				RAct::Complete => sj.complete(),
				RAct::Error(e) => sj.error(*e),
				RAct::Unsub => {
					let h = lk(&slot).take();
					if let Some(mut h) = h {
						h.unsubscribe();
						*lk(&slot) = Some(h);
					}
				}
			}
		}) as React
	});
	let obs = Obs { log: log.clone(), step: stepc.clone(), react: r };
	let sub: Box<dyn SubscriptionLike + Send + Sync> = if composed {
		Box::new(subject.clone().pipe(compose_operator::<AdsrTrigger, Er>().adsr(options, h)).subscribe(obs))
	} else {
		Box::new(subject.clone().adsr(options, h).subscribe(obs))
	};
	*lk(&slot) = Some(sub);
	let mut now = 0;
	let mut finished = false;
	let (mut ticks, mut checks) = (0, 0);
	let steps = s.usize(2, s.size as usize * 2 + 12);
	for step in 0..steps {
		*lk(&stepc) = step;
		match s.weighted(&[8, 12, 1, 1]) {
			0 => {
				let on = s.chance(2, 3);
				let mut t: AdsrTrigger = on.into();
				let mut env = m.env;
				// changing an envelope that is running may restart it, that is not modelled
				if !finished && m.phase == Phase::None && !m.was && s.chance(1, 4) {
					t.envelope_changes = Some(change(s, &mut env));
				}
				s.note(|| format!("step {step}: {t:?}"));
				subject.next(t);
				if !finished && !m.closed {
					m.input = on;
					m.env = env;
				}
			}
			1 => {
				let d = *s.pick(&[5u64, 0, 1, 10, 3, 20, 50]);
				s.note(|| format!("step {step}: tick {d}"));
				now += d;
				ticks += 1;
				ex.tick(ms(d));
				let before = m.out.len();
				m.tick(now, step);
				if let Some((n, a)) = &react
					&& m.out.len() == n + 1
					&& before == *n
				{
					match a {
						RAct::Feed(on) if !finished => m.input = *on,
						RAct::Complete if !finished => {
							finished = true;
							m.end(step, Some(Ev::Complete));
						}
						RAct::Error(e) if !finished => {
							finished = true;
							m.end(step, Some(Ev::Error(*e)));
						}
						RAct::Unsub => m.end(step, None),
						_ => {}
					}
				}
				checks += 1;
				if ex.is_empty() != m.closed {
					fail!("work", "step {step}: executor is_empty() = {}, but the subscription is closed: {}", ex.is_empty(), m.closed);
				}
			}
			2 if s.chance(1, 3) => {
				let e = match s.idx(2) {
					0 => Ev::Complete,
					_ => Ev::Error(Er(s.range(1, 9))),
				};
				s.note(|| format!("step {step}: {e:?}"));
				match &e {
					Ev::Error(er) => subject.error(*er),
					_ => subject.complete(),
				}
				if !finished {
					finished = true;
					m.end(step, Some(e));
				}
			}
			3 if s.chance(1, 3) => {
				s.note(|| format!("step {step}: unsubscribe"));
				let h = lk(&slot).take();
				if let Some(mut h) = h {
					h.unsubscribe();
					*lk(&slot) = Some(h);
				}
				m.end(step, None);
			}
			_ => {}
		}
		let real = lk(&log);
		checks += real.len();
		if real.len() != m.out.len() || !real.iter().zip(&m.out).all(|(a, b)| a.0 == b.0 && same(&a.1, &b.1)) {
			let n = real.iter().zip(&m.out).position(|(a, b)| !(a.0 == b.0 && same(&a.1, &b.1))).unwrap_or(real.len().min(m.out.len()));
			fail!("signals", "signal {n} is {:?}, expected {:?}", real.get(n), m.out.get(n));
		}
	}
	let active = m.out.iter().filter(|e| matches!(&e.1, Ev::Signal(x) if x.adsr_envelope_phase != Phase::None)).count();
	Ok(Report::new(ticks > 2 && active > 1)
		.label(m.out.iter().any(|e| matches!(&e.1, Ev::Signal(x) if x.phase_transition.contains(Tr::Restart))), "restarted")
		.label(m.out.iter().any(|e| matches!(&e.1, Ev::Signal(x) if x.phase_transition.contains(Tr::Release))), "released")
		.checks(checks))
}
