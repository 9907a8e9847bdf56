//! S01, S03, S04: what has to hold for every pipeline whatsoever. Pipelines are
//! generated trees over all operators and sources of the library.

use pbt::{CaseResult, Report, Src, fail};
use rx_core::prelude::*;
use rx_core_common::{ErasedSubscription, WorkExecutor};
use rx_core_testing::MockExecutor;
use std::sync::{Arc, Mutex};

use crate::base::*;
use crate::ho::{self, HK};
use crate::ops::subscribe_kind;
use crate::subjects::{self, DynSubject, SK};
use crate::sync::*;
use crate::timed::{self, Handle, TK, ms};

#[derive(Clone, Copy, Debug, PartialEq)]
enum CK {
	Latest,
	Changes,
	Zip(usize, bool),
	Join,
	WithLatest,
	Merge(usize),
	Concat,
}

#[derive(Clone, Debug)]
enum T {
	Hot(usize),
	Cold(Cold),
	/// a source driven by time
	Clock(TK),
	Chain(Box<T>, Vec<K>),
	Timed(Box<T>, TK),
	Ho(HK, bool, Box<T>, Vec<T>),
	Comb(CK, Box<T>, Box<T>),
	Catch(Box<T>, Box<T>),
	Retry(Box<T>, usize),
	Share(Box<T>, u8),
}

impl std::fmt::Display for T {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		match self {
			T::Hot(i) => write!(f, "hot{i}"),
			T::Cold(c) => write!(f, "{c:?}"),
			T::Clock(k) => write!(f, "{k:?}"),
			T::Chain(t, k) => write!(f, "{t} > {k:?}"),
			T::Timed(t, k) => write!(f, "({t}) > {k:?}"),
			T::Ho(k, all, t, inner) => {
				write!(f, "({t}) > {k:?}{}[", if *all { " all" } else { "" })?;
				for (i, t) in inner.iter().enumerate() {
					write!(f, "{}{t}", if i > 0 { "; " } else { "" })?;
				}
				write!(f, "]")
			}
			T::Comb(k, a, b) => write!(f, "{k:?}({a}, {b})"),
			T::Catch(a, b) => write!(f, "({a}) > catch({b})"),
			T::Retry(t, n) => write!(f, "({t}) > retry({n})"),
			T::Share(t, o) => write!(f, "({t}) > share({o:b})"),
		}
	}
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
	/// signal grammar, anything goes
	Grammar,
	/// everything upstream is released with the end
	Release,
	/// the same pipeline built differently, subscriptions compared with fresh ones
	Twin,
}

struct Gen {
	mode: Mode,
	hots: usize,
	tag: usize,
	timed: bool,
	/// under a retry: an erased observable (merge and concat use them) cannot be
	/// subscribed to from within its own subscribe (known finding reentrant_erased)
	retried: bool,
	/// nothing ends by itself
	calm: bool,
}

impl Gen {
	fn leaf(&mut self, s: &mut Src) -> T {
		match s.weighted(&[8, if self.calm { 0 } else { 2 }, if self.timed && !self.calm { 2 } else { 0 }]) {
			0 => {
				// in twin mode two leaves never depend on the order of one multicast;
				// a subject that is subscribed to while it emits may release that
				// subscription only with its next emission
				if self.mode == Mode::Grammar && self.hots > 0 && s.chance(1, 2) {
					return T::Hot(s.idx(self.hots));
				}
				self.hots += 1;
				T::Hot(self.hots - 1)
			}
			1 => T::Cold(gen_cold(s, 1)),
			_ => T::Clock(match s.idx(3) {
				0 => TK::Interval { every: s.range(1, 20) as u64, max: s.usize(1, 3), start: s.chance(1, 2) },
				1 => TK::Timer(s.range(0, 30) as u64),
				_ => TK::OnTick { n: s.usize(0, 4), nth: s.usize(0, 2), start: s.chance(1, 2) },
			}),
		}
	}
	fn kinds(&mut self, s: &mut Src) -> Vec<K> {
		let mode = self.mode;
		let n = s.usize(1, 3);
		(0..n)
			.map(|_| {
				let k = gen_kind(s, Group::All, &mut self.tag, 1);
				let k = strip(k, mode == Mode::Twin);
				if self.calm && ends(&k) { K::Identity } else { k }
			})
			.collect()
	}
	fn tree(&mut self, s: &mut Src, depth: u32) -> T {
		if depth == 0 {
			return self.leaf(s);
		}
		let d = depth - 1;
		let share = self.mode != Mode::Twin;
		match s.weighted(&[2, 6, if self.timed { 3 } else { 0 }, 4, 4, 1, 1, if share { 2 } else { 0 }]) {
			0 => self.leaf(s),
			1 => {
				let t = Box::new(self.tree(s, d));
				T::Chain(t, self.kinds(s))
			}
			2 => {
				let t = Box::new(self.tree(s, d));
				T::Timed(
					t,
					match s.idx(6) {
						0 => TK::Delay(s.range(0, 20) as u64),
						1 => TK::ObserveOn,
						2 => TK::SubscribeOn(if s.chance(1, 2) { Some(s.range(0, 20) as u64) } else { None }),
						3 => TK::Debounce(s.range(0, 20) as u64),
						4 => TK::Throttle(s.range(1, 20) as u64, *s.pick(&[ThrottleOutputBehavior::LeadingOnly, ThrottleOutputBehavior::TrailingOnly, ThrottleOutputBehavior::LeadingAndTrailing])),
						_ => TK::Fallback,
					},
				)
			}
			3 => {
				let t = Box::new(self.tree(s, d));
				let n = s.usize(1, 3);
				let inner = (0..n).map(|_| if self.mode == Mode::Twin { self.leaf(s) } else { self.tree(s, d) }).collect();
				let kind = match s.idx(4) {
					0 => HK::Merge(s.usize(1, 3)),
					1 => HK::Concat,
					2 => HK::Switch,
					_ => HK::Exhaust,
				};
				T::Ho(kind, s.chance(1, 2), t, inner)
			}
			4 => {
				let (a, b) = (Box::new(self.tree(s, d)), Box::new(self.tree(s, d)));
				let k = match s.idx(if self.retried { 5 } else { 7 }) {
					3 if self.calm => CK::Latest,
					0 => CK::Latest,
					1 => CK::Changes,
					2 => CK::Zip(s.usize(1, 3), s.chance(1, 2)),
					3 => CK::Join,
					4 => CK::WithLatest,
					5 => CK::Merge(s.usize(1, 2)),
					_ => CK::Concat,
				};
				T::Comb(k, a, b)
			}
			5 => T::Catch(Box::new(self.tree(s, d)), Box::new(self.tree(s, d))),
			6 => {
				let before = std::mem::replace(&mut self.retried, true);
				let t = Box::new(self.tree(s, d));
				self.retried = before;
				T::Retry(t, s.usize(0, 2))
			}
			_ => T::Share(Box::new(self.tree(s, d)), s.idx(16) as u8),
		}
	}
}

fn strip(k: K, twin: bool) -> K {
	match k {
		// one destination for all subscriptions
		K::Tap(t) if twin => K::TapNext(t),
		// callbacks that complete downstream while the source goes on: that
		// nothing follows is up to them
		K::OnNext(t, m) => K::OnNext(t, m % 3),
		K::OnSubscribe(n, _) => K::OnSubscribe(n, false),
		K::Nested(v) => K::Nested(v.into_iter().map(|k| strip(k, twin)).collect()),
		k => k,
	}
}

/// ends by itself
fn ends(k: &K) -> bool {
	match k {
		K::Take(_) | K::First | K::Find(..) | K::FindIndex(..) | K::ElementAt(_) | K::ElementAtOr(..) | K::IsEmpty | K::LiftResult(_) | K::Remap(_) => true,
		K::Nested(v) => v.iter().any(ends),
		_ => false,
	}
}
/// has something to say, or is over, as soon as it is subscribed to
fn begins(k: &K) -> bool {
	match k {
		K::StartWith(_) | K::Take(0) => true,
		K::Nested(v) => v.iter().any(begins),
		_ => false,
	}
}
/// stays open after its source ended
fn keeps_open(k: &K) -> bool {
	match k {
		K::IntoResult | K::MatDemat | K::Materialize | K::Boundary => true,
		K::Nested(v) => v.iter().any(keeps_open),
		_ => false,
	}
}

/// its handle lets go of nothing once it has ended
fn closes(t: &T) -> bool {
	matches!(t, T::Clock(_) | T::Timed(_, TK::SubscribeOn(_)) | T::Comb(..) | T::Retry(..) | T::Share(..) | T::Ho(..) | T::Catch(..))
}
/// something behind a part of it may go on after that part ended
fn continues(t: &T) -> bool {
	match t {
		T::Ho(_, _, t, _) | T::Catch(t, _) => contains(t, &closes),
		T::Retry(..) | T::Share(..) | T::Comb(..) => true,
		T::Chain(t, k) => k.iter().any(keeps_open) && contains(t, &closes),
		_ => false,
	}
}
/// nothing in it ends by itself
fn calm(t: &T) -> bool {
	!contains(t, &|t| match t {
		T::Hot(_) => false,
		T::Cold(c) => !matches!(c, Cold::Never),
		T::Clock(_) => true,
		T::Chain(_, k) => k.iter().any(ends),
		T::Comb(CK::Join, ..) => true,
		_ => false,
	})
}

fn contains(t: &T, f: &dyn Fn(&T) -> bool) -> bool {
	f(t) || match t {
		T::Hot(_) | T::Cold(_) | T::Clock(_) => false,
		T::Chain(t, _) | T::Timed(t, _) | T::Retry(t, _) | T::Share(t, _) => contains(t, f),
		T::Ho(_, _, t, i) => contains(t, f) || i.iter().any(|t| contains(t, f)),
		T::Comb(_, a, b) | T::Catch(a, b) => contains(a, f) || contains(b, f),
	}
}

#[derive(Clone)]
struct Env {
	ctx: Ctx,
	hots: Arc<Mutex<Vec<Box<dyn DynSubject>>>>,
	ex: Handle,
	mode: Mode,
	/// how it is put together
	variant: usize,
}

const LEAVES: usize = 3000;

fn watched(leaf: usize, world: &World, make: impl Fn() -> BoxObs + Clone + Send + Sync + 'static) -> BoxObs {
	let world = world.clone();
	BoxObs::new(deferred_observable(move || {
		world.note(LEAVES, "up", leaf as i64);
		let w = world.clone();
		BoxObs::new(make().finalize(move || w.note(LEAVES, "down", leaf as i64)))
	}))
}

fn build(t: &T, e: &Env) -> BoxObs {
	let o = match t {
		T::Hot(i) => {
			let (hots, i) = (e.hots.clone(), *i);
			watched(i, &e.ctx.world, move || lk(&hots)[i].obs())
		}
		T::Cold(c) => {
			let c = c.clone();
			watched(100, &e.ctx.world, move || build_cold(&c))
		}
		T::Clock(k) => {
			let (k, h) = (*k, e.ex.clone());
			watched(200, &e.ctx.world, move || timed::build(k, build_cold(&Cold::Never), &h, false))
		}
		T::Chain(t, kinds) => build_chain(build(t, e), kinds, [Style::Pipe, Style::Compose, Style::Mixed, Style::Erased][e.variant % 4], &e.ctx),
		T::Timed(t, k) => timed::build(*k, build(t, e), &e.ex, e.variant % 2 == 1),
		T::Ho(k, all, t, inner) => {
			let e2 = e.clone();
			let inner = inner.clone();
			ho::apply(build(t, e), *k, *all, e.variant % 2 == 1, move |v| {
				let i = v.num().rem_euclid(inner.len() as i64) as usize;
				build(&inner[i], &e2)
			})
		}
		T::Comb(k, a, b) => {
			let (a, b) = (build(a, e), build(b, e));
			let tup = |(a, b): (V, V)| V::p(a, b);
			match *k {
				CK::Latest => BoxObs::new(combine_latest(a, b).map(tup)),
				CK::Changes => BoxObs::new(combine_changes(a, b).map(|(a, b)| V::p(crate::combine::change(a), crate::combine::change(b)))),
				CK::Zip(max_queue_length, ignore) => BoxObs::new(
					zip(a, b)
						.with_options(QueueOverflowOptions {
							max_queue_length,
							overflow_behavior: if ignore { QueueOverflowBehavior::IgnoreNext } else { QueueOverflowBehavior::DropOldest },
						})
						.map(tup),
				),
				CK::Join => BoxObs::new(join(a, b).map(tup)),
				CK::WithLatest if e.variant % 2 == 1 => BoxObs::new(a.pipe(compose_operator::<V, Er>().with_latest_from(b)).map(tup)),
				CK::WithLatest => BoxObs::new(a.with_latest_from(b).map(tup)),
				CK::Merge(n) => BoxObs::new(merge([a, b], n)),
				CK::Concat => BoxObs::new(concat([a, b])),
			}
		}
		T::Catch(a, b) => {
			let (e2, b) = (e.clone(), b.clone());
			BoxObs::new(build(a, e).catch(move |_| {
				e2.ctx.world.note(LEAVES, "recovered", 0);
				build(&b, &e2)
			}))
		}
		T::Retry(t, n) => BoxObs::new(build(t, e).retry(*n)),
		T::Share(t, o) => {
			let options = ConnectableOptions {
				connector_provider: ProvideWithDefault::<PublishSubject<V, Er>>::default(),
				disconnect_when_ref_count_zero: o & 1 != 0 || e.mode == Mode::Release,
				reset_connector_on_disconnect: o & 2 != 0,
				reset_connector_on_error: o & 4 != 0,
				reset_connector_on_complete: o & 8 != 0,
			};
			BoxObs::cloneable(build(t, e).share(options))
		}
	};
	if e.variant == 3 { BoxObs::new(o.erase()) } else { o }
}

// ---------------------------------------------------------------- driver

type Slot = Arc<Mutex<Option<ErasedSubscription>>>;

#[derive(Clone, Debug)]
enum R {
	Feed(usize, V),
	Complete(usize),
	Error(usize),
	SubjectUnsub(usize),
	UnsubSelf,
	UnsubFirst,
	Subscribe,
	Query,
}

struct Obs {
	slot: Slot,
	/// let go of by the test
	released: bool,
	/// index into the log after which nothing may come any more
	silent: Option<usize>,
	erased: bool,
	kind: usize,
}

fn unsub(slot: &Slot) -> Option<bool> {
	let h = lk(slot).take();
	h.map(|mut h| {
		h.unsubscribe();
		h.is_closed()
	})
}

/// An observer's records with the end of its subscription
fn check_grammar(world: &World, who: usize, o: &Obs, inert: bool) -> Result<usize, pbt::Failure> {
	let log = world.log();
	let mut ended = None;
	let mut n = 0;
	for (i, r) in log.iter().enumerate().filter(|(_, r)| r.who == who) {
		match &r.seen {
			Seen::Late(e) => fail!("grammar", "observer {who} got {e} after {}", ended.map(|e: &Ev| e.to_string()).unwrap_or_default()),
			Seen::Ev(e) => {
				n += 1;
				if let Some(t) = ended {
					fail!("grammar", "observer {who} got {e} after {t}");
				}
				if !matches!(e, Ev::Next(_)) {
					ended = Some(e);
				}
				if let Some(s) = o.silent
					&& i >= s && !inert
				{
					fail!("after_unsubscribe", "observer {who} got {e} after it was unsubscribed: {}", show(&world.of(who)));
				}
			}
			_ => {}
		}
	}
	if let (Some(t), Some(h)) = (ended, lk(&o.slot).as_ref())
		&& !h.is_closed()
		&& !o.erased
	{
		fail!("open_after_end", "observer {who} got {t} but its subscription is still open");
	}
	Ok(n + 1)
}

fn settle(ex: &mut MockExecutor, delays: bool) {
	ex.tick(ms(0));
	for _ in 0..if delays { 8 } else { 0 } {
		ex.tick(ms(100));
	}
}

fn run(s: &mut Src, mode: Mode) -> CaseResult {
	let world = World::new();
	let mut ex = MockExecutor::default();
	let mut g = Gen { mode, hots: 0, tag: 0, timed: s.chance(2, 3), retried: false, calm: s.chance(1, 2) };
	let depth = 1 + (s.size / 5).min(2);
	let tree = g.tree(s, depth as u32);
	let kinds: Vec<SK> = (0..g.hots)
		.map(|_| match s.weighted(&[6, 1, 1, 1]) {
			0 => SK::Publish,
			1 => SK::Behavior(3),
			2 => SK::Replay(2),
			_ => SK::Async,
		})
		.collect();
	let retries = contains(&tree, &|t| matches!(t, T::Retry(..)));
	let variant = s.idx(if retries { 3 } else { 4 });
	s.note(|| format!("{tree}\n  variant {variant} sources {kinds:?}"));
	let env = Env {
		ctx: Ctx { world: world.clone(), who: 8888 },
		hots: Arc::new(Mutex::new(kinds.iter().map(|k| subjects::make(*k)).collect())),
		ex: ex.get_scheduler_handle(),
		mode,
		variant,
	};
	// Once a part of it ended while something behind that part goes on, letting
	// go of the whole does not reach what goes on: known finding inert
	let goes_on = contains(&tree, &continues);
	let calm = calm(&tree);
	let behind = contains(&tree, &|t| match t {
		T::Timed(_, k) => !matches!(k, TK::SubscribeOn(_)),
		T::Ho(..) | T::Catch(..) => true,
		T::Chain(_, k) => k.iter().any(keeps_open),
		t => continues(t),
	});
	// the same for a part that another part lets go of
	let parts = |f: &dyn Fn(&T) -> bool| {
		contains(&tree, &|t| match t {
			T::Comb(_, a, b) => contains(a, f) || contains(b, f),
			T::Ho(_, _, _, i) => i.iter().any(|t| contains(t, f)),
			T::Catch(a, b) => contains(a, f) || contains(b, f),
			T::Share(a, _) | T::Retry(a, _) => contains(a, f),
			_ => false,
		})
	};
	let inert_part = parts(&continues);
	let ended_part = parts(&|t| continues(t) && !self::calm(t));
	// A combination that failed believes that it is closed, even if downstream goes
	// on without the error: known finding inert:swallowed_error
	let combines = |t: &T| contains(t, &|t| matches!(t, T::Comb(..) | T::Ho(..)));
	let swallows = contains(&tree, &|t| match t {
		T::Catch(t, _) | T::Retry(t, _) => combines(t),
		T::Chain(t, k) => k.iter().any(keeps_open) && combines(t),
		_ => false,
	});
	// A stage that is over before what subscribes to it got its handle: whoever
	// holds that handle drops it, as it is closed, and it lets go of nothing then.
	// Known findings inert_early, inert_drop
	let early = |t: &T| {
		!self::calm(t)
			&& contains(t, &|t| match t {
				T::Hot(i) => kinds[*i] != SK::Publish,
				T::Cold(c) => !matches!(c, Cold::Never),
				T::Chain(_, k) => k.iter().any(begins),
				T::Timed(_, TK::Fallback) => true,
				_ => false,
			})
	};
	let early_part = mode != Mode::Twin
		&& (parts(&early)
			|| contains(&tree, &|t| match t {
				T::Chain(t, k) => k.iter().any(keeps_open) && early(t),
				_ => false,
			}));
	// these take their time to end: what is pending is delivered even if it is an
	// unsubscription that arrives from downstream
	let delays = contains(&tree, &|t| matches!(t, T::Timed(_, TK::Delay(_) | TK::ObserveOn | TK::Debounce(_) | TK::Throttle(..))));
	let obs = Arc::new(Mutex::new(build(&tree, &env)));
	let plain = Env { variant: 0, ..env.clone() };
	let observers: Arc<Mutex<Vec<Obs>>> = Arc::default();
	let reactive = mode == Mode::Grammar && s.chance(1, 3);
	let erased = variant == 3;
	// subscribing from within the pipeline's own subscribe: known findings
	let locks = erased || contains(&tree, &|t| matches!(t, T::Retry(..) | T::Comb(CK::Merge(_) | CK::Concat, ..)));
	let plan: Vec<(usize, R)> = if reactive {
		s.list(1, 3, |s| {
			let at = s.usize(0, 3);
			let h = if g.hots > 0 { s.idx(g.hots) } else { 0 };
			let r = match s.idx(8) {
				7 if locks => R::Query,
				_ if g.hots == 0 && s.chance(1, 2) => R::UnsubSelf,
				0 | 1 if g.hots > 0 => R::Feed(h, gen_value(s)),
				2 if g.hots > 0 => R::Complete(h),
				3 if g.hots > 0 => R::Error(h),
				4 if g.hots > 0 => R::SubjectUnsub(h),
				5 => R::UnsubSelf,
				6 => R::UnsubFirst,
				7 => R::Subscribe,
				_ => R::Query,
			};
			(at, r)
		})
	} else {
		vec![]
	};
	if reactive {
		s.note(|| format!("  reactions {plan:?}"));
	}
	let steps = s.usize(2, s.size as usize + 6);
	let (mut checks, mut fed, mut time, mut ticks) = (0, 0, 0u64, 0);
	let mut inert = false;
	let mut hot_ended = reactive;
	let mut twins: Vec<Slot> = vec![];
	let limit = match mode {
		Mode::Release => 1,
		// two subscriptions share the inputs, which one of them would subscribe
		// to while the other does: the same findings
		Mode::Grammar if reactive && locks => 1,
		_ => 3,
	};
	for step in 0..steps {
		world.set_step(step);
		let n = lk(&observers).len();
		let act = if n == 0 { 0 } else { s.weighted(&[1, if g.hots > 0 { 12 } else { 0 }, if g.hots > 0 { if g.calm { 1 } else { 2 } } else { 0 }, if g.hots > 0 && !g.calm { 1 } else { 0 }, 1, 1, if g.timed { 6 } else { 0 }]) };
		match act {
			0 if n < limit => {
				let kind = [0, 0, 2, if delays || mode == Mode::Twin { 0 } else { 3 }][s.idx(4)];
				s.note(|| format!("  step {step}: subscribe observer {n} ({kind})"));
				let pos = n;
				let main_world = world.clone();
				let slot: Slot = Arc::default();
				lk(&observers).push(Obs { slot: slot.clone(), released: false, silent: None, erased: variant == 3, kind });
				let sub = if reactive && n == 0 {
					let (plan, hots, observers, world, obs2, me) = (plan.clone(), env.hots.clone(), observers.clone(), world.clone(), Arc::downgrade(&obs), slot.clone());
					let extra = Arc::new(Mutex::new(0));
					let reaction: Reaction = Arc::new(move |k, _| {
						for (_, r) in plan.iter().filter(|(at, _)| *at == k) {
							let hot = |i: usize| lk(&hots)[i].dup();
							match r {
								R::Feed(i, v) => hot(*i).next(v.clone()),
								R::Complete(i) => hot(*i).complete(),
								R::Error(i) => hot(*i).error(Er(5)),
								R::SubjectUnsub(i) => hot(*i).unsubscribe(),
								R::UnsubSelf | R::UnsubFirst => {
									unsub(&me);
								}
								R::Subscribe => {
									// the pipeline may be in the middle of being subscribed to
									let Some(o) = obs2.upgrade() else { continue };
									let Ok(mut o) = o.try_lock() else { continue };
									if std::mem::replace(&mut *lk(&extra), 1) == 0 {
										let slot: Slot = Arc::default();
										let who = {
											let mut l = lk(&observers);
											l.push(Obs { slot: slot.clone(), released: false, silent: None, erased, kind: 9 });
											l.len() - 1
										};
										let sub = o.subscribe(UserObserver::new(&world, who));
										*lk(&slot) = Some(sub);
									}
								}
								R::Query => {
									if let Some(h) = lk(&me).as_ref() {
										let _ = h.is_closed();
									}
								}
							}
						}
					});
					lk(&obs).subscribe(UserObserver::new(&main_world, 0).reacting(reaction))
				} else {
					subscribe_kind(&mut lk(&obs), &world, pos, kind)
				};
				*lk(&slot) = Some(sub);
				if mode == Mode::Twin {
					// its twin, built anew and plainly
					let mut o = build(&tree, &plain);
					let sub = subscribe_kind(&mut o, &world, 50 + pos, 0);
					let twin: Slot = Arc::new(Mutex::new(Some(sub)));
					lk(&observers)[pos].kind = 0;
					twins.push(twin);
				}
			}
			4 | 5 => {
				let i = s.idx(n);
				let how = if act == 4 { "unsubscribe" } else { "drop" };
				s.note(|| format!("  step {step}: {how} {i}"));
				let slot = lk(&observers)[i].slot.clone();
				let ended = world.evs(i).last().is_some_and(|e| !matches!(e, Ev::Next(_)));
				inert |= !ended && goes_on && (!calm || hot_ended);
				// a handle that is closed lets go of nothing when it is dropped:
				// known finding inert_drop
				inert |= !ended && act == 5 && lk(&slot).as_ref().is_some_and(|h| h.is_closed());
				if inert && mode == Mode::Twin {
					break;
				}
				if act == 4 {
					unsub(&slot);
				} else {
					let h = lk(&slot).take();
					drop(h);
				}
				let len = world.log().len();
				let mut l = lk(&observers);
				l[i].released = true;
				if l[i].silent.is_none() && !inert && !delays {
					l[i].silent = Some(len);
				}
				drop(l);
				if mode == Mode::Release && delays {
					settle(&mut ex, true);
				}
				if mode == Mode::Twin {
					unsub(&twins[i]);
				}
			}
			6 => {
				let d = s.range(0, 15) as u64;
				s.note(|| format!("  step {step}: tick {d} ms"));
				time += d;
				ticks += 1;
				ex.tick(ms(d));
			}
			2 | 3 if g.hots > 0 => {
				let i = s.idx(g.hots);
				let how = if act == 3 { 2 } else { s.idx(2) };
				s.note(|| format!("  step {step}: hot{i} {}", ["completes", "errors", "is unsubscribed"][how]));
				let mut h = lk(&env.hots)[i].dup();
				hot_ended = true;
				match how {
					0 => h.complete(),
					1 => h.error(Er(s.range(1, 9))),
					_ => h.unsubscribe(),
				}
				fed += 1;
			}
			_ if g.hots > 0 => {
				let i = s.idx(g.hots);
				let v = gen_value(s);
				s.note(|| format!("  step {step}: hot{i} emits {v}"));
				let mut h = lk(&env.hots)[i].dup();
				h.next(v);
				fed += 1;
			}
			_ => {}
		}
		inert |= swallows && (!calm || hot_ended) || ended_part || inert_part && hot_ended || early_part;
		// a stage that is over before it is subscribed to, erased: known finding
		// inert_early
		inert |= mode != Mode::Twin && erased && behind && (!calm || hot_ended);
		if mode == Mode::Twin && (inert || erased && behind && (!calm || hot_ended)) {
			// an erased handle lets go of everything, a plain one may not
			break;
		}
		let l = lk(&observers);
		for (who, o) in l.iter().enumerate() {
			checks += check_grammar(&world, who, o, inert)?;
		}
		match mode {
			Mode::Twin => {
				for (who, o) in l.iter().enumerate() {
					let pick = |w: usize| world.of(w).into_iter().filter(|r| matches!(r.seen, Seen::Ev(_))).map(|r| (r.step, r.seen)).collect::<Vec<_>>();
					let (a, b) = (pick(who), pick(50 + who));
					checks += 1 + a.len();
					if a != b {
						let f = |v: &[(usize, Seen)]| v.iter().map(|(s, e)| format!("@{s} {e}")).collect::<Vec<_>>().join("  ");
						fail!("twin", "subscription {who} saw  {}\nits twin saw  {}", f(&a), f(&b));
					}
					if variant != 3
						&& let (Some(a), Some(b)) = (lk(&o.slot).as_ref(), lk(&twins[who]).as_ref())
						&& a.is_closed() != b.is_closed()
					{
						fail!("twin_closed", "subscription {who}: is_closed() = {}, its twin's is {}", a.is_closed(), b.is_closed());
					}
				}
			}
			Mode::Release if !l.is_empty() && !inert => {
				let ended = l[0].released || world.evs(0).last().is_some_and(|e| !matches!(e, Ev::Next(_)));
				if ended && delays {
					settle(&mut ex, true);
				}
				let hots = (0..g.hots).map(|i| i as i64).chain([100, 200]);
				for leaf in hots {
					let (up, down) = (world.count("up", leaf), world.count("down", leaf));
					checks += 1;
					if down > up {
						fail!("released_twice", "source {leaf} was subscribed to {up} times but released {down} times");
					}
					if ended && up != down {
						if std::env::var("VLOG").is_ok() {
							for r in world.log() {
								eprintln!("{} @{} {}", r.who, r.step, r.seen);
							}
						}
						fail!("kept", "the subscription ended but source {leaf} was subscribed to {up} times and released {down} times");
					}
				}
			}
			_ => {}
		}
	}
	let ended_early = {
		let l = lk(&observers);
		l.iter().enumerate().any(|(i, _)| world.evs(i).last().is_some_and(|e| !matches!(e, Ev::Next(_))))
	};
	// let everything go
	for (i, o) in lk(&observers).iter().enumerate() {
		let ended = world.evs(i).last().is_some_and(|e| !matches!(e, Ev::Next(_)));
		inert |= !o.released && !ended && goes_on && (!calm || hot_ended);
	}
	let slots: Vec<Slot> = lk(&observers).iter().map(|o| o.slot.clone()).collect();
	for s in slots {
		unsub(&s);
		let h = lk(&s).take();
		drop(h);
	}
	if mode == Mode::Twin {
		twins.clear();
	}
	if mode == Mode::Release && !inert {
		settle(&mut ex, delays);
		if !ex.is_empty() {
			fail!("work_left", "the subscription is gone but work is left in the executor");
		}
	}
	let got = (0..lk(&observers).len()).map(|i| world.evs(i).len()).sum::<usize>();
	let _ = time;
	Ok(Report::new((fed >= 2 || ticks >= 2) && got >= 1)
		.checks(checks)
		.label(g.hots > 1, "several_sources")
		.label(ticks > 0, "ticked")
		.label(ended_early, "terminal_delivered")
		.label(reactive, "reacting")
		.label(got >= 4, "4+_events")
		.label(contains(&tree, &|t| matches!(t, T::Ho(..))), "higher_order")
		.label(contains(&tree, &|t| matches!(t, T::Comb(..))), "combination")
		.label(contains(&tree, &|t| matches!(t, T::Timed(..) | T::Clock(_))), "timed"))
}

fn limited(s: &mut Src, mode: Mode) -> CaseResult {
	// the library limits by design how many operations on a subject may be made
	// while it emits, and panics with that message beyond
	match pbt::catching(|| run(s, mode)) {
		Ok(r) => r,
		Err(p) if p.contains("queue depth have exceeded") => Ok(Report::new(false).label(true, "recursion_limit")),
		Err(p) => {
			let f: String = p.chars().map(|c| if c.is_ascii_digit() { ' ' } else { c }).collect();
			fail!(format!("panic:{}", f.split_whitespace().collect::<Vec<_>>().join(" ")), "the code under test panicked: {p}")
		}
	}
}
pub fn grammar(s: &mut Src) -> CaseResult {
	limited(s, Mode::Grammar)
}
pub fn release(s: &mut Src) -> CaseResult {
	limited(s, Mode::Release)
}
pub fn twins(s: &mut Src) -> CaseResult {
	limited(s, Mode::Twin)
}

/// A stage that is over while what it started goes on: letting go of the whole
/// has to end that too (partly known findings)
pub fn ended_stage(s: &mut Src) -> CaseResult {
	let world = World::new();
	let mut ex = MockExecutor::default();
	let h = ex.get_scheduler_handle();
	let names = [
		"subject", "map", "delay", "observe_on", "debounce_time", "with_latest_from", "timer", "interval", "iterator_on_tick", "subscribe_on",
		"merge", "combine_latest", "zip", "concat_map", "switch_map", "catch", "retry", "share", "fallback_when_silent", "throttle_time", "erased",
	];
	let which = s.idx(names.len());
	let after = s.idx(3);
	let how = s.idx(2);
	// it is over before it was subscribed to
	let early = s.chance(1, 2);
	let start = if early { "start_with > " } else { "" };
	s.note(|| format!("{} > {start}take(1), then {} goes on; the handle is {}", names[which], ["switch_map", "concat_map", "exhaust_map"][after], ["unsubscribed", "dropped"][how]));
	let mut hot = PublishSubject::<V, Er>::default();
	let inner = PublishSubject::<V, Er>::default();
	let deferred = s.chance(1, 2);
	if deferred {
		s.note(|| "(deferred)".into());
	}
	let b = || {
		let o = BoxObs::cloneable(hot.clone());
		if deferred { BoxObs::new(deferred_observable(move || o.clone())) } else { o }
	};
	let c = Ctx { world: world.clone(), who: 8888 };
	let chain = |o: BoxObs, k: Vec<K>| build_chain(o, &k, Style::Pipe, &c);
	let unit = || V::I(0);
	let source = match which {
		0 => b(),
		1 => chain(b(), vec![K::Identity]),
		2 => timed::build(TK::Delay(1), b(), &h, false),
		3 => timed::build(TK::ObserveOn, b(), &h, false),
		4 => timed::build(TK::Debounce(1), b(), &h, false),
		5 => BoxObs::new(b().with_latest_from(build_cold(&Cold::Create(vec![Ev::Next(unit())], false))).map(|(a, _)| a)),
		6 => timed::build(TK::Timer(1), b(), &h, false),
		7 => timed::build(TK::Interval { every: 1, max: 1, start: false }, b(), &h, false),
		8 => timed::build(TK::OnTick { n: 3, nth: 1, start: false }, b(), &h, false),
		9 => timed::build(TK::SubscribeOn(None), build_cold(&Cold::Create(vec![Ev::Next(unit())], false)), &h, false),
		10 => BoxObs::new(merge([b(), b()], 2)),
		11 => BoxObs::new(combine_latest(b(), b()).map(|(a, _)| a)),
		12 => BoxObs::new(zip(b(), b()).map(|(a, _)| a)),
		13 => ho::apply(BoxObs::new(b().start_with(unit())), HK::Concat, false, false, { let hot = hot.clone(); move |_| BoxObs::cloneable(hot.clone()) }),
		14 => ho::apply(BoxObs::new(b().start_with(unit())), HK::Switch, false, false, { let hot = hot.clone(); move |_| BoxObs::cloneable(hot.clone()) }),
		15 => BoxObs::new(b().catch(|_| build_cold(&Cold::Never))),
		16 => BoxObs::new(b().retry(1)),
		20 => BoxObs::new(chain(b(), if early { vec![K::StartWith(9), K::Take(1)] } else { vec![K::Take(1)] }).erase()),
		18 => timed::build(TK::Fallback, b(), &h, false),
		19 => timed::build(TK::Throttle(1, ThrottleOutputBehavior::LeadingOnly), b(), &h, false),
		_ => BoxObs::cloneable(b().share(ConnectableOptions {
			connector_provider: ProvideWithDefault::<PublishSubject<V, Er>>::default(),
			disconnect_when_ref_count_zero: true,
			reset_connector_on_disconnect: true,
			reset_connector_on_error: true,
			reset_connector_on_complete: true,
		})),
	};
	let i2 = inner.clone();
	let mut whole = ho::apply(chain(source, if early { vec![K::StartWith(9), K::Take(1)] } else { vec![K::Take(1)] }), [HK::Switch, HK::Concat, HK::Exhaust][after], false, false, move |_| BoxObs::cloneable(i2.clone()));
	let sub = whole.subscribe(UserObserver::new(&world, 0));
	if which == 14 {
		// the first value comes from what it switched to
		hot.next(V::I(1));
	}
	hot.next(V::I(1));
	for _ in 0..3 {
		ex.tick(ms(1));
	}
	inner.clone().next(V::I(7));
	if world.evs(0) != [Ev::Next(V::I(7))] {
		fail!(format!("started{}:{}", if early { "_early" } else { "" }, names[which]), "saw {} instead of one value of the inner observable", show(&world.of(0).iter().filter_map(|r| match &r.seen { Seen::Ev(e) => Some(e.clone()), _ => None }).collect::<Vec<_>>()));
	}
	let mut sub = Some(sub);
	// a closed handle lets go of nothing when it is dropped, whatever it is of
	let closed = sub.as_ref().is_some_and(|h| h.is_closed());
	if how == 0 {
		let mut h = sub.take().unwrap();
		h.unsubscribe();
	}
	drop(sub);
	inner.clone().next(V::I(8));
	if world.evs(0).len() > 1 {
		let what = if how == 1 && closed { "closed_handle" } else { names[which] };
		fail!(format!("inert{}{}:{what}", if early { "_early" } else { "" }, if how == 1 { "_drop" } else { "" }), "a value was delivered after the subscription was let go of");
	}
	Ok(Report::new(true))
}

/// Subscribing to a pipeline from within its own subscribe (partly known findings)
pub fn within_subscribe(s: &mut Src) -> CaseResult {
	let names = ["create", "map", "erased", "merge", "concat", "retry", "catch", "share", "switch_map"];
	let which = s.idx(names.len());
	s.note(|| format!("an observer subscribes to the same {} again at its first value, which it gets while it subscribes", names[which]));
	let (tx, rx) = std::sync::mpsc::channel();
	std::thread::spawn(move || {
		let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
			let world = World::new();
			macro_rules! go {
				($o:expr) => {{
					let o = $o;
					let again = Mutex::new(o.clone());
					let w = world.clone();
					let kept = Mutex::new(None);
					let reaction: Reaction = Arc::new(move |n, _| {
						if n == 0 {
							let mut o = again.try_lock().unwrap().clone();
							let again = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| o.subscribe(UserObserver::new(&w, 1))));
							match again {
								Ok(sub) => *lk(&kept) = Some(sub),
								Err(_) => w.note(7, "panicked", 0),
							}
						}
					});
					let mut o = o;
					let _sub = o.subscribe(UserObserver::new(&world, 0).reacting(reaction));
					(world.count("panicked", 0), world.evs(0).len(), world.evs(1).len())
				}};
			}
			let cold = || create_observable::<V, Er, _>(|d: &mut dyn Subscriber<In = V, InError = Er>| d.next(V::I(1)));
			match which {
				0 => go!(cold()),
				1 => go!(cold().map(|v| v)),
				2 => go!(cold().erase()),
				3 => go!(merge([cold(), cold()], 1)),
				4 => go!(concat([cold(), cold()])),
				5 => go!(cold().retry(1)),
				6 => go!(cold().catch(|_| just(V::I(2)).map_error(|e: Never| -> Er { match e {} }))),
				7 => go!(cold().share(ConnectableOptions {
					connector_provider: ProvideWithDefault::<PublishSubject<V, Er>>::default(),
					disconnect_when_ref_count_zero: true,
					reset_connector_on_disconnect: true,
					reset_connector_on_error: true,
					reset_connector_on_complete: true,
				})),
				_ => go!(cold().switch_map(|v| just(v).map_error(|e: Never| -> Er { match e {} }), |e| e)),
			}
		}));
		let _ = tx.send(got.ok());
	});
	match rx.recv_timeout(std::time::Duration::from_secs(5)) {
		Ok(Some((0, 1, 1))) => Ok(Report::new(true)),
		Ok(Some((0, a, b))) => fail!(format!("lost:{}", names[which]), "the observers got {a} and {b} values instead of one each"),
		Ok(_) => fail!(format!("panic:{}", names[which]), "subscribing again panicked"),
		Err(_) => fail!(format!("deadlock:{}", names[which]), "subscribing again did not return"),
	}
}

/// An observer that unsubscribes from within a notification: what the same
/// signal of the source would still bring must not arrive.
pub fn self_unsubscribe(s: &mut Src) -> CaseResult {
	let names = [
		"subject", "map", "filter", "scan", "take", "end_with", "count", "buffer_count", "merge_map", "concat_map", "switch_map", "exhaust_map", "combine_latest", "with_latest_from", "merge", "into_result", "tap", "materialize",
	];
	let which = s.idx(names.len());
	let name = names[which];
	s.note(|| format!("an observer of {name} unsubscribes from within the first value it gets"));
	let world = World::new();
	let mut source = PublishSubject::<V, Er>::default();
	let mut other = PublishSubject::<V, Er>::default();
	let b = || BoxObs::cloneable(source.clone());
	let three = |_: V| build_cold(&Cold::Create((0..3).map(|i| Ev::Next(V::I(i))).collect(), true));
	let id = |e: Er| e;
	let tup = |(a, b): (V, V)| V::p(a, b);
	let mut obs = match name {
		"subject" => b(),
		"map" => BoxObs::new(b().map(|v| v)),
		"filter" => BoxObs::new(b().filter(|_, _| true)),
		"scan" => BoxObs::new(b().scan(|_, v| v, V::I(0))),
		"take" => BoxObs::new(b().take(1)),
		"end_with" => BoxObs::new(b().filter(|_, _| false).end_with(V::I(1))),
		"count" => BoxObs::new(b().count().map(|n| V::I(n as i64))),
		"buffer_count" => BoxObs::new(b().buffer_count(5).map(V::L)),
		"merge_map" => BoxObs::new(b().merge_map(three, 2, id)),
		"concat_map" => BoxObs::new(b().concat_map(three, id)),
		"switch_map" => BoxObs::new(b().switch_map(three, id)),
		"exhaust_map" => BoxObs::new(b().exhaust_map(three, id)),
		"combine_latest" => BoxObs::new(combine_latest(source.clone(), other.clone()).map(tup)),
		"with_latest_from" => BoxObs::new(b().with_latest_from(other.clone()).map(tup)),
		"merge" => BoxObs::new(merge([b(), BoxObs::cloneable(other.clone())], 2)),
		"into_result" => BoxObs::new(b().into_result().map(|r| V::Ok(Box::new(r.unwrap_or_else(V::Err)))).map_error(|e: Never| -> Er { match e {} })),
		"tap" => BoxObs::new(b().tap_next(|_| {})),
		_ => BoxObs::new(b().materialize().map(|_| V::I(1)).map_error(|e: Never| -> Er { match e {} })),
	};
	let slot: Slot = Arc::default();
	let (me, s2, o2) = (slot.clone(), Mutex::new(source.clone()), Mutex::new(other.clone()));
	let nested = s.chance(1, 2);
	let reaction: Reaction = Arc::new(move |n, _| {
		if n == 0 {
			unsub(&me);
			if nested {
				let (mut a, mut b) = (lk(&s2).clone(), lk(&o2).clone());
				b.next(V::I(8));
				b.error(Er(1));
				a.next(V::I(9));
			}
		}
	});
	let sub = obs.subscribe(UserObserver::new(&world, 0).reacting(reaction));
	*lk(&slot) = Some(sub);
	other.next(V::I(1));
	source.next(V::I(1));
	source.next(V::I(2));
	source.complete();
	let evs = world.evs(0);
	if evs.len() > 1 {
		fail!(format!("after_unsubscribe:{name}"), "after it had unsubscribed, the observer still got {}", show(&evs[1..]));
	}
	if evs.is_empty() {
		fail!(format!("nothing:{name}"), "the observer got nothing");
	}
	Ok(Report::new(true))
}
