//! Scheduler-free operators: construction from a generated description, and an
//! independent reference model (one small state machine per operator).

use std::sync::Arc;

use rx_core::prelude::*;
use rx_core_operator_first::FirstOperatorError;
use pbt::Src;

use crate::base::*;

#[derive(Clone, Debug, PartialEq)]
pub enum K {
	Identity,
	Map(i64),
	Filter(i64, i64),
	FilterIdx(usize),
	FilterMap(i64),
	Enumerate,
	MapInto,
	LiftOption(i64),
	LiftResult(i64),
	MapError(i64),
	OptionSome(i64),
	OptionNone,
	Nested(Vec<K>),
	Take(usize),
	Skip(usize),
	First,
	Find(i64, i64),
	FindIndex(i64, i64),
	ElementAt(usize),
	ElementAtOr(usize, i64),
	IsEmpty,
	StartWith(i64),
	EndWith(i64),
	Scan(i64),
	Reduce(i64),
	Count,
	BufferCount(usize),
	Pairwise,
	IntoResult,
	MatDemat,
	Materialize,
	/// materialize, turn some notifications into others, dematerialize
	Remap(i64),
	/// error boundary after into_result, then map_never
	Boundary,
	Tap(usize),
	TapNext(usize),
	/// 0: observe and pass, 1: drop odd, 2: emit an extra value first, 3: complete when num%3==0
	OnNext(usize, u8),
	/// number of values emitted on subscribe, then complete?
	OnSubscribe(usize, bool),
	Finalize(usize),
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Group {
	Transform,
	Select,
	Accumulate,
	Errors,
	Effects,
	All,
}

pub fn gen_kind(s: &mut Src, g: Group, tag: &mut usize, depth: u32) -> K {
	let g = if g == Group::All || s.chance(1, 4) {
		[Group::Transform, Group::Select, Group::Accumulate, Group::Errors, Group::Effects][s.idx(5)]
	} else {
		g
	};
	let mut next_tag = || {
		*tag += 1;
		*tag
	};
	match g {
		Group::Transform | Group::All => match s.idx(14) {
			0 => K::Identity,
			1 | 2 => K::Map(s.range(0, 5)),
			3 => K::Filter(s.range(1, 4), s.range(0, 3)),
			4 => K::FilterIdx(s.usize(1, 4)),
			5 => K::FilterMap(s.range(1, 4)),
			6 | 7 => K::Enumerate,
			8 => K::MapInto,
			9 => K::LiftOption(s.range(1, 4)),
			10 => K::LiftResult(s.range(2, 6)),
			11 => K::MapError(s.range(0, 5)),
			12 => {
				if s.chance(1, 2) {
					K::OptionSome(s.range(0, 5))
				} else {
					K::OptionNone
				}
			}
			_ => {
				if depth < 2 {
					let n = s.usize(1, 3);
					let v = (0..n).map(|_| gen_kind(s, Group::All, tag, depth + 1)).collect();
					K::Nested(v)
				} else {
					K::Identity
				}
			}
		},
		Group::Select => match s.idx(12) {
			0 | 1 => K::Take(s.usize(0, 5)),
			2 | 3 => K::Skip(s.usize(0, 4)),
			4 => K::First,
			5 => K::Find(s.range(1, 5), s.range(0, 4)),
			6 => K::FindIndex(s.range(1, 5), s.range(0, 4)),
			7 => K::ElementAt(s.usize(0, 5)),
			8 => K::ElementAtOr(s.usize(0, 5), s.range(100, 102)),
			9 => K::IsEmpty,
			10 => K::StartWith(s.range(200, 202)),
			_ => K::EndWith(s.range(300, 302)),
		},
		Group::Accumulate => match s.idx(6) {
			0 => K::Scan(s.range(0, 9)),
			1 => K::Reduce(s.range(0, 9)),
			2 => K::Count,
			3 | 4 => K::BufferCount(s.usize(0, 5)),
			_ => K::Pairwise,
		},
		Group::Errors => match s.idx(8) {
			0 => K::IntoResult,
			1 => K::MatDemat,
			2 => K::Materialize,
			3 | 4 => K::Remap(s.range(2, 7)),
			5 => K::Boundary,
			6 => K::LiftResult(s.range(2, 6)),
			_ => K::MapError(s.range(0, 5)),
		},
		Group::Effects => match s.idx(6) {
			0 => K::Tap(next_tag()),
			1 => K::TapNext(next_tag()),
			2 => {
				let t = next_tag();
				K::OnNext(t, s.idx(4) as u8)
			}
			3 => K::OnSubscribe(s.usize(0, 2), s.chance(1, 5)),
			_ => K::Finalize(next_tag()),
		},
	}
}

// ---------------------------------------------------------------- real construction

#[derive(Clone, Debug)]
pub struct W(pub V);
impl From<V> for W {
	fn from(v: V) -> Self {
		W(v)
	}
}
impl From<W> for V {
	fn from(v: W) -> Self {
		V::W(Box::new(v.0))
	}
}
#[derive(Clone, Debug)]
pub struct WEr(pub Er);
impl From<Er> for WEr {
	fn from(v: Er) -> Self {
		WEr(v)
	}
}
impl From<WEr> for Er {
	fn from(v: WEr) -> Self {
		Er(v.0.0.wrapping_add(1000))
	}
}

pub fn find_err(e: FindOperatorError<Er>) -> Er {
	match e {
		FindOperatorError::NoNextObservedBeforeComplete => Er(-1),
		FindOperatorError::NoMatchObserved => Er(-2),
		FindOperatorError::Upstream(e) => e,
	}
}
pub fn find_index_err(e: FindIndexOperatorError<Er>) -> Er {
	match e {
		FindIndexOperatorError::NoNextObservedBeforeComplete => Er(-3),
		FindIndexOperatorError::NoMatchObserved => Er(-4),
		FindIndexOperatorError::Upstream(e) => e,
	}
}
pub fn first_err(e: FirstOperatorError<Er>) -> Er {
	match e {
		FirstOperatorError::NoNextObservedBeforeComplete => Er(-5),
		FirstOperatorError::Upstream(e) => e,
	}
}
pub fn element_err(e: ElementAtOperatorError<Er>) -> Er {
	match e {
		ElementAtOperatorError::IndexOutOfRange { requested_index, observed_nexts } => {
			Er(-10_000 - (requested_index as i64) * 100 - observed_nexts as i64)
		}
		ElementAtOperatorError::Upstream(e) => e,
	}
}
fn res(r: Result<V, Er>) -> V {
	match r {
		Ok(v) => V::Ok(Box::new(v)),
		Err(e) => V::Err(e),
	}
}
fn notif(n: ObserverNotification<V, Er>) -> V {
	match n {
		ObserverNotification::Next(v) => V::NNext(Box::new(v)),
		ObserverNotification::Error(e) => V::NError(e),
		ObserverNotification::Complete => V::NComplete,
	}
}
fn md(v: i64, m: i64) -> i64 {
	v.rem_euclid(m)
}
fn remap(k: i64, n: ObserverNotification<V, Er>) -> ObserverNotification<V, Er> {
	match n {
		ObserverNotification::Next(v) => match md(v.num(), k + 3) {
			0 => ObserverNotification::Complete,
			1 => ObserverNotification::Error(Er(v.num())),
			_ => ObserverNotification::Next(v),
		},
		ObserverNotification::Error(e) if md(e.0, 2) == 0 => ObserverNotification::Complete,
		ObserverNotification::Complete if md(k, 2) == 0 => ObserverNotification::Error(Er(k)),
		n => n,
	}
}

#[derive(Clone)]
pub struct Ctx {
	pub world: World,
	/// identity under which side effects are logged
	pub who: usize,
}

macro_rules! build_kind {
	($base:expr, $wrap:path, $compose:expr, $map_never:path, $kind:expr, $ctx:expr) => {{
		let base = $base;
		match $kind.clone() {
			K::Identity => $wrap(base.with_op(IdentityOperator::<V, Er>::default())),
			K::Map(k) => $wrap(base.map(move |v| V::p(V::I(k), v))),
			K::Filter(m, r) => $wrap(base.filter(move |v, _| md(v.num(), m + 1) != r)),
			K::FilterIdx(m) => $wrap(base.filter(move |_, i| i % (m + 1) != 0)),
			K::FilterMap(m) => $wrap(base.filter_map(move |v| if md(v.num(), m + 1) == 0 { None } else { Some(V::Some(Box::new(v))) })),
			K::Enumerate => $wrap(base.enumerate().map(|(v, i)| V::p(v, V::I(i as i64)))),
			K::MapInto => $wrap(base.map_into::<W, WEr>().map_into::<V, Er>()),
			K::LiftOption(m) => $wrap(base.map(move |v| if md(v.num(), m + 1) == 0 { None } else { Some(v) }).lift_option()),
			K::LiftResult(m) => $wrap(
				base.into_result()
					.map(move |r: Result<V, Er>| match r {
						Ok(v) if md(v.num(), m + 2) == 0 => Err(Er(v.num())),
						r => r,
					})
					.lift_result(),
			),
			K::MapError(k) => $wrap(base.map_error(move |e: Er| Er(e.0.wrapping_mul(10).wrapping_add(k)))),
			K::OptionSome(k) => $wrap(base.with_op(Some(BoxOp::new(MapOperator::<V, Er, _, V>::new(move |v| V::p(V::I(k), v)))))),
			K::OptionNone => $wrap(base.with_op(None::<BoxOp>)),
			K::Nested(v) => {
				let mut op = BoxOp::new(compose_operator::<V, Er>());
				for k in v {
					op = build_op(op, &k, $ctx);
				}
				$wrap(base.with_op(op))
			}
			K::Take(n) => $wrap(base.take(n)),
			K::Skip(n) => $wrap(base.skip(n)),
			K::First => $wrap(base.first().map_error(first_err)),
			K::Find(m, r) => $wrap(base.find(move |v| md(v.num(), m + 1) == r).map_error(find_err)),
			K::FindIndex(m, r) => $wrap(base.find_index(move |v| md(v.num(), m + 1) == r).map_error(find_index_err).map(|i| V::I(i as i64))),
			K::ElementAt(i) => $wrap(base.element_at(i).map_error(element_err)),
			K::ElementAtOr(i, d) => $wrap(base.element_at_or_else(i, ProvideWithCloneOf(V::I(d))).map_error(element_err)),
			K::IsEmpty => $wrap(base.is_empty().map(V::B)),
			K::StartWith(v) => $wrap(base.start_with(V::I(v))),
			K::EndWith(v) => $wrap(base.end_with(V::I(v))),
			K::Scan(seed) => $wrap(base.scan(|a: &V, v: V| V::p(a.clone(), v), V::I(seed))),
			K::Reduce(seed) => $wrap(base.reduce(|a: &V, v: V| V::p(a.clone(), v), V::I(seed))),
			K::Count => $wrap(base.count().map(|n| V::I(n as i64))),
			K::BufferCount(n) => $wrap(base.buffer_count(n).map(V::L)),
			K::Pairwise => $wrap(base.pairwise().map(|[a, b]| V::p(a, b))),
			K::IntoResult => $wrap($map_never(base.into_result().map(res))),
			K::MatDemat => $wrap(base.materialize().dematerialize()),
			K::Materialize => $wrap($map_never(base.materialize().map(notif))),
			K::Remap(k) => $wrap(base.materialize().map(move |n| remap(k, n)).dematerialize()),
			K::Boundary => $wrap($map_never(base.into_result().error_boundary().map(res))),
			K::Tap(t) => {
				let c = $ctx.clone();
				$wrap(base.tap(TapObs { ctx: c, tag: t }))
			}
			K::TapNext(t) => {
				let c = $ctx.clone();
				$wrap(base.tap_next(move |v: &V| c.world.push(c.who, Seen::Note("tapn", (t as i64) * 1_000_000 + md(v.num(), 1_000_000)))))
			}
			K::OnNext(t, mode) => {
				let c = $ctx.clone();
				$wrap(base.on_next(move |v: &V, d: &mut dyn Subscriber<In = V, InError = Er>| {
					c.world.push(c.who, Seen::Note("onn", (t as i64) * 1_000_000 + md(v.num(), 1_000_000)));
					match mode {
						0 => true,
						1 => md(v.num(), 2) == 0,
						2 => {
							d.next(V::I(-7));
							true
						}
						_ => {
							if md(v.num(), 3) == 0 {
								d.complete();
								false
							} else {
								true
							}
						}
					}
				}))
			}
			K::OnSubscribe(n, c) => $wrap(base.on_subscribe(move |d: &mut dyn Subscriber<In = V, InError = Er>| {
				for i in 0..n {
					d.next(V::I(500 + i as i64));
				}
				if c {
					d.complete();
				}
			})),
			K::Finalize(t) => {
				let c = $ctx.clone();
				$wrap(base.finalize(move || c.world.push(c.who, Seen::Note("fin", t as i64))))
			}
		}
	}};
}

/// Uniform way to put a ready made operator behind either kind of base
trait WithOp: Sized {
	type R<Op: ComposableOperator<In = V, InError = Er, Out = V, OutError = Er> + Send + Sync + 'static>;
	fn with_op<Op: ComposableOperator<In = V, InError = Er, Out = V, OutError = Er> + Send + Sync + 'static>(self, op: Op) -> Self::R<Op>;
}
impl WithOp for BoxObs {
	type R<Op: ComposableOperator<In = V, InError = Er, Out = V, OutError = Er> + Send + Sync + 'static> = rx_core_common::Pipe<BoxObs, Op>;
	fn with_op<Op: ComposableOperator<In = V, InError = Er, Out = V, OutError = Er> + Send + Sync + 'static>(self, op: Op) -> Self::R<Op> {
		self.pipe(op)
	}
}
impl WithOp for BoxOp {
	type R<Op: ComposableOperator<In = V, InError = Er, Out = V, OutError = Er> + Send + Sync + 'static> = CompositeOperator<BoxOp, Op>;
	fn with_op<Op: ComposableOperator<In = V, InError = Er, Out = V, OutError = Er> + Send + Sync + 'static>(self, op: Op) -> Self::R<Op> {
		self.compose_with(op)
	}
}

fn obs_map_never<O: 'static + Observable<Out = V, OutError = Never> + Send + Sync>(
	o: O,
) -> impl Observable<Out = V, OutError = Er> + Send + Sync + 'static {
	MapNeverErrorOperator::<V, Er>::default().operate(o)
}
fn op_map_never<O: 'static + ComposableOperator<In = V, InError = Er, Out = V, OutError = Never> + Send + Sync>(
	o: O,
) -> impl ComposableOperator<In = V, InError = Er, Out = V, OutError = Er> + Send + Sync + 'static {
	o.compose_with(MapNeverErrorOperator::<V, Er>::default())
}

pub fn build_obs(base: BoxObs, k: &K, ctx: &Ctx) -> BoxObs {
	build_kind!(base, BoxObs::new, false, obs_map_never, k, ctx)
}
pub fn build_op(base: BoxOp, k: &K, ctx: &Ctx) -> BoxOp {
	build_kind!(base, BoxOp::new, true, op_map_never, k, ctx)
}

#[derive(Clone, rx_core_macro_observer_derive::RxObserver)]
#[rx_in(V)]
#[rx_in_error(Er)]
pub struct TapObs {
	pub ctx: Ctx,
	pub tag: usize,
}
impl rx_core_common::RxObserver for TapObs {
	fn next(&mut self, v: V) {
		self.ctx.world.push(self.ctx.who, Seen::Note("tap", (self.tag as i64) * 1_000_000 + md(v.num(), 1_000_000)));
	}
	fn error(&mut self, e: Er) {
		self.ctx.world.push(self.ctx.who, Seen::Note("tape", (self.tag as i64) * 1_000_000 + md(e.0, 1_000_000)));
	}
	fn complete(&mut self) {
		self.ctx.world.push(self.ctx.who, Seen::Note("tapc", self.tag as i64));
	}
}

/// How a list of operators is turned into an observable
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
	/// every operator applied on the observable
	Pipe,
	/// all operators composed first, then applied at once
	Compose,
	/// alternating
	Mixed,
	/// like Pipe but type-erased by the library between every step
	Erased,
}
pub const STYLES: [Style; 4] = [Style::Pipe, Style::Compose, Style::Mixed, Style::Erased];

pub fn build_chain(source: BoxObs, kinds: &[K], style: Style, ctx: &Ctx) -> BoxObs {
	match style {
		Style::Pipe => kinds.iter().fold(source, |o, k| build_obs(o, k, ctx)),
		Style::Erased => kinds.iter().fold(BoxObs::new(source.erase()), |o, k| BoxObs::new(build_obs(o, k, ctx).erase())),
		Style::Compose => {
			let op = kinds.iter().fold(BoxOp::new(compose_operator::<V, Er>()), |o, k| build_op(o, k, ctx));
			BoxObs::new(source.pipe(op))
		}
		Style::Mixed => {
			let mut o = source;
			let mut it = kinds.chunks(2);
			let mut flip = false;
			while let Some(c) = it.next() {
				if flip {
					let op = c.iter().fold(BoxOp::new(compose_operator::<V, Er>()), |o, k| build_op(o, k, ctx));
					o = BoxObs::new(op.operate(o));
				} else {
					o = c.iter().fold(o, |o, k| build_obs(o, k, ctx));
				}
				flip = !flip;
			}
			o
		}
	}
}

// ---------------------------------------------------------------- reference model

#[derive(Clone, Debug, PartialEq)]
pub enum MEv {
	Next(V),
	Error(Er),
	Complete,
	/// closed without a terminal notification
	Unsub,
}
impl MEv {
	pub fn to_ev(&self) -> Option<Ev> {
		match self {
			MEv::Next(v) => Some(Ev::Next(v.clone())),
			MEv::Error(e) => Some(Ev::Error(*e)),
			MEv::Complete => Some(Ev::Complete),
			MEv::Unsub => None,
		}
	}
	pub fn from_ev(e: &Ev) -> Self {
		match e {
			Ev::Next(v) => MEv::Next(v.clone()),
			Ev::Error(e) => MEv::Error(*e),
			Ev::Complete => MEv::Complete,
		}
	}
}

#[derive(Clone, Debug)]
pub struct StageM {
	kind: K,
	open: bool,
	n: usize,
	acc: V,
	buf: Vec<V>,
	started: bool,
}

#[derive(Clone, Debug)]
pub struct ChainM {
	stages: Vec<StageM>,
	/// everything delivered to the final observer: (step, event)
	pub out: Vec<(usize, Ev)>,
	/// side effects (step, tag, number)
	pub notes: Vec<(usize, &'static str, i64)>,
	/// deliveries and side effects in the order they happen, without finalizers
	pub seq: Vec<Seen>,
	pub closed: bool,
	/// taps share one destination between all subscriptions: those that ended
	pub ended_taps: Arc<std::sync::Mutex<std::collections::HashSet<i64>>>,
	pub step: usize,
	/// an error was turned into a value: whether the source releases the
	/// subscription afterwards is up to the source
	pub maybe_closed: bool,
}

fn flatten(kinds: &[K], out: &mut Vec<K>) {
	for k in kinds {
		match k {
			K::Nested(v) => flatten(v, out),
			k => out.push(k.clone()),
		}
	}
}

impl ChainM {
	pub fn new(kinds: &[K]) -> Self {
		let mut flat = Vec::new();
		flatten(kinds, &mut flat);
		ChainM {
			stages: flat
				.into_iter()
				.map(|kind| {
					let acc = match &kind {
						K::Scan(s) | K::Reduce(s) => V::I(*s),
						_ => V::None,
					};
					StageM { kind, open: true, n: 0, acc, buf: vec![], started: false }
				})
				.collect(),
			out: vec![],
			notes: vec![],
			seq: Vec::new(),
			closed: false,
			ended_taps: Arc::default(),
			step: 0,
			maybe_closed: false,
		}
	}

	/// What happens on the way of a subscription, before the source is reached
	pub fn subscribe(&mut self) {
		for i in (0..self.stages.len()).rev() {
			match self.stages[i].kind.clone() {
				K::StartWith(v) => self.push(i + 1, MEv::Next(V::I(v))),
				K::OnSubscribe(n, c) => {
					for j in 0..n {
						self.push(i + 1, MEv::Next(V::I(500 + j as i64)));
					}
					if c {
						self.push(i + 1, MEv::Complete);
					}
				}
				K::Take(0) => self.push(i + 1, MEv::Complete),
				_ => {}
			}
			self.stages[i].started = true;
		}
	}

	/// Whether the side effect operator with this tag may still be notified
	pub fn tag_open(&self, tag: i64) -> bool {
		self.stages.iter().any(|s| s.open && matches!(s.kind, K::Tap(t) | K::TapNext(t) | K::OnNext(t, _) if t as i64 == tag))
	}

	pub fn has_self_completing(&self) -> bool {
		self.stages.iter().any(|s| matches!(s.kind, K::Take(_) | K::ElementAt(_) | K::ElementAtOr(..)))
	}

	fn close(&mut self) {
		if !self.closed {
			self.closed = true;
			for i in 0..self.stages.len() {
				self.stages[i].open = false;
			}
			for s in &self.stages {
				if let K::Finalize(t) = s.kind {
					self.notes.push((self.step, "fin", t as i64));
				}
			}
		}
	}

	pub fn source(&mut self, e: MEv) {
		self.push(0, e);
	}

	fn note(&mut self, tag: &'static str, n: i64) {
		let st = self.step;
		self.notes.push((st, tag, n));
		self.seq.push(Seen::Note(tag, n));
	}

	fn push(&mut self, i: usize, e: MEv) {
		if self.closed {
			return;
		}
		if i == self.stages.len() {
			match &e {
				MEv::Next(v) => self.seq.push(Seen::Ev(Ev::Next(v.clone()))),
				MEv::Error(er) => self.seq.push(Seen::Ev(Ev::Error(*er))),
				MEv::Complete => self.seq.push(Seen::Ev(Ev::Complete)),
				MEv::Unsub => {}
			}
			match e {
				MEv::Next(v) => self.out.push((self.step, Ev::Next(v))),
				MEv::Error(er) => {
					self.out.push((self.step, Ev::Error(er)));
					self.close();
				}
				MEv::Complete => {
					self.out.push((self.step, Ev::Complete));
					self.close();
				}
				MEv::Unsub => self.close(),
			}
			return;
		}
		if !self.stages[i].open {
			if e == MEv::Unsub {
				self.close();
			}
			return;
		}
		let kind = self.stages[i].kind.clone();
		let mut out: Vec<MEv> = Vec::new();
		let mut swallowed = false;
		if e == MEv::Unsub {
			out.push(MEv::Unsub);
		} else {
			let s = &mut self.stages[i];
			match (&kind, e) {
				(K::Identity | K::OptionNone | K::MatDemat | K::Finalize(_) | K::StartWith(_) | K::OnSubscribe(..), e) => out.push(e),
				(K::Nested(_), _) => unreachable!(),
				(K::Map(k) | K::OptionSome(k), MEv::Next(v)) => out.push(MEv::Next(V::p(V::I(*k), v))),
				(K::Filter(m, r), MEv::Next(v)) => {
					if md(v.num(), m + 1) != *r {
						out.push(MEv::Next(v))
					}
				}
				(K::FilterIdx(m), MEv::Next(v)) => {
					let i = s.n;
					s.n += 1;
					if i % (m + 1) != 0 {
						out.push(MEv::Next(v));
					}
				}
				(K::FilterMap(m), MEv::Next(v)) => {
					if md(v.num(), m + 1) != 0 {
						out.push(MEv::Next(V::Some(Box::new(v))))
					}
				}
				(K::Enumerate, MEv::Next(v)) => {
					out.push(MEv::Next(V::p(v, V::I(s.n as i64))));
					s.n += 1;
				}
				(K::MapInto, MEv::Next(v)) => out.push(MEv::Next(V::W(Box::new(v)))),
				(K::MapInto, MEv::Error(e)) => out.push(MEv::Error(Er(e.0.wrapping_add(1000)))),
				(K::LiftOption(m), MEv::Next(v)) => {
					if md(v.num(), m + 1) != 0 {
						out.push(MEv::Next(v))
					}
				}
				(K::LiftResult(m), MEv::Next(v)) => {
					if md(v.num(), m + 2) == 0 {
						out.push(MEv::Error(Er(v.num())))
					} else {
						out.push(MEv::Next(v))
					}
				}
				(K::MapError(k), MEv::Error(e)) => out.push(MEv::Error(Er(e.0.wrapping_mul(10).wrapping_add(*k)))),
				(K::Take(n), e) => match e {
					MEv::Next(v) => {
						if s.n < *n {
							s.n += 1;
							out.push(MEv::Next(v));
							if s.n == *n {
								out.push(MEv::Complete);
							}
						}
					}
					e => out.push(e),
				},
				(K::Skip(n), MEv::Next(v)) => {
					if s.n < *n {
						s.n += 1;
					} else {
						out.push(MEv::Next(v));
					}
				}
				(K::First, MEv::Next(v)) => out.extend([MEv::Next(v), MEv::Complete]),
				(K::First, MEv::Complete) => out.push(MEv::Error(Er(-5))),
				(K::Find(m, r), MEv::Next(v)) => {
					s.n += 1;
					if md(v.num(), m + 1) == *r {
						out.extend([MEv::Next(v), MEv::Complete]);
					}
				}
				(K::Find(..), MEv::Complete) => out.push(MEv::Error(Er(if s.n == 0 { -1 } else { -2 }))),
				(K::FindIndex(m, r), MEv::Next(v)) => {
					let i = s.n;
					s.n += 1;
					if md(v.num(), m + 1) == *r {
						out.extend([MEv::Next(V::I(i as i64)), MEv::Complete]);
					}
				}
				(K::FindIndex(..), MEv::Complete) => out.push(MEv::Error(Er(if s.n == 0 { -3 } else { -4 }))),
				(K::ElementAt(i) | K::ElementAtOr(i, _), MEv::Next(v)) => {
					if s.n == *i {
						out.extend([MEv::Next(v), MEv::Complete]);
					}
					s.n += 1;
				}
				(K::ElementAt(i), MEv::Complete) => out.push(MEv::Error(Er(-10_000 - (*i as i64) * 100 - s.n as i64))),
				(K::ElementAtOr(_, d), MEv::Complete) => out.extend([MEv::Next(V::I(*d)), MEv::Complete]),
				(K::IsEmpty, MEv::Next(_)) => out.extend([MEv::Next(V::B(false)), MEv::Complete]),
				(K::IsEmpty, MEv::Complete) => out.extend([MEv::Next(V::B(true)), MEv::Complete]),
				(K::EndWith(v), MEv::Complete) => out.extend([MEv::Next(V::I(*v)), MEv::Complete]),
				(K::Scan(_), MEv::Next(v)) => {
					s.acc = V::p(s.acc.clone(), v);
					out.push(MEv::Next(s.acc.clone()));
				}
				(K::Reduce(_), MEv::Next(v)) => s.acc = V::p(s.acc.clone(), v),
				(K::Reduce(_), MEv::Complete) => out.extend([MEv::Next(s.acc.clone()), MEv::Complete]),
				(K::Count, MEv::Next(_)) => s.n += 1,
				(K::Count, MEv::Complete) => out.extend([MEv::Next(V::I(s.n as i64)), MEv::Complete]),
				(K::BufferCount(n), MEv::Next(v)) => {
					s.buf.push(v);
					if s.buf.len() == (*n).max(1) {
						out.push(MEv::Next(V::L(std::mem::take(&mut s.buf))));
					}
				}
				(K::BufferCount(_), MEv::Complete) => {
					if !s.buf.is_empty() {
						out.push(MEv::Next(V::L(std::mem::take(&mut s.buf))));
					}
					out.push(MEv::Complete);
				}
				(K::Pairwise, MEv::Next(v)) => {
					if let Some(last) = s.buf.pop() {
						out.push(MEv::Next(V::p(last, v.clone())));
					}
					s.buf.push(v);
				}
				(K::IntoResult | K::Boundary, MEv::Next(v)) => out.push(MEv::Next(V::Ok(Box::new(v)))),
				(K::IntoResult | K::Boundary, MEv::Error(e)) => {
					swallowed = true;
					out.push(MEv::Next(V::Err(e)))
				},
				(K::Materialize, MEv::Next(v)) => out.push(MEv::Next(V::NNext(Box::new(v)))),
				(K::Materialize, MEv::Error(e)) => out.extend([MEv::Next(V::NError(e)), MEv::Complete]),
				(K::Materialize, MEv::Complete) => out.extend([MEv::Next(V::NComplete), MEv::Complete]),
				(K::Remap(k), e) => {
					let n = match e {
						MEv::Next(v) => ObserverNotification::Next(v),
						MEv::Error(e) => ObserverNotification::Error(e),
						_ => ObserverNotification::Complete,
					};
					out.push(match remap(*k, n) {
						ObserverNotification::Next(v) => MEv::Next(v),
						ObserverNotification::Error(e) => MEv::Error(e),
						ObserverNotification::Complete => MEv::Complete,
					});
				}
				(K::Tap(t), e) => {
					let t = *t as i64;
					let ended = lk(&self.ended_taps).contains(&t);
					match &e {
						_ if ended => {}
						MEv::Next(v) => self.note("tap", t * 1_000_000 + md(v.num(), 1_000_000)),
						MEv::Error(e) => {
							lk(&self.ended_taps).insert(t);
							self.note("tape", t * 1_000_000 + md(e.0, 1_000_000))
						}
						_ => {
							lk(&self.ended_taps).insert(t);
							self.note("tapc", t)
						}
					}
					out.push(e);
				}
				(K::TapNext(t), MEv::Next(v)) => {
					let t = *t as i64;
					self.note("tapn", t * 1_000_000 + md(v.num(), 1_000_000));
					out.push(MEv::Next(v));
				}
				(K::OnNext(t, mode), MEv::Next(v)) => {
					let t = *t as i64;
					self.note("onn", t * 1_000_000 + md(v.num(), 1_000_000));
					match mode {
						0 => out.push(MEv::Next(v)),
						1 => {
							if md(v.num(), 2) == 0 {
								out.push(MEv::Next(v))
							}
						}
						2 => out.extend([MEv::Next(V::I(-7)), MEv::Next(v)]),
						_ => {
							if md(v.num(), 3) == 0 {
								out.push(MEv::Complete)
							} else {
								out.push(MEv::Next(v))
							}
						}
					}
				}
				// everything else passes through
				(_, e) => out.push(e),
			}
		}
		for o in out {
			if !self.stages[i].open || self.closed {
				break;
			}
			if !matches!(o, MEv::Next(_)) {
				for j in 0..=i {
					self.stages[j].open = false;
				}
			}
			self.push(i + 1, o);
		}
		if swallowed {
			// the upstream is over, but nobody is told
			self.maybe_closed = !self.closed;
			for j in 0..=i {
				self.stages[j].open = false;
			}
		}
	}
}

// ---------------------------------------------------------------- sources

#[derive(Clone, Debug, PartialEq)]
pub enum Cold {
	/// events pushed by a producer, `polite` producers stop when closed
	Create(Vec<Ev>, bool),
	Iter(Vec<i64>),
	Just(i64),
	Empty,
	Throw(i64),
	Never,
	Closed,
	Deferred(Box<Cold>),
	OptionSome(Box<Cold>),
}

pub fn gen_value(s: &mut Src) -> V {
	V::I(s.range(0, 12))
}

/// Events of a well behaved producer: nexts, then maybe a terminal
pub fn gen_script(s: &mut Src, max: usize) -> Vec<Ev> {
	let mut v: Vec<Ev> = s.list(0, max, |s| Ev::Next(gen_value(s)));
	match s.weighted(&[5, 2, 2]) {
		0 => v.push(Ev::Complete),
		1 => v.push(Ev::Error(Er(s.range(1, 9)))),
		_ => {}
	}
	v
}

pub fn gen_cold(s: &mut Src, depth: u32) -> Cold {
	match s.weighted(&[8, 3, 1, 1, 1, 1, 1, if depth < 2 { 1 } else { 0 }, if depth < 2 { 1 } else { 0 }]) {
		0 => {
			let max = s.size as usize;
			let sc = gen_script(s, max);
			Cold::Create(sc, s.chance(1, 2))
		}
		1 => Cold::Iter(s.list(0, 8, |s| s.range(0, 12))),
		2 => Cold::Just(s.range(0, 12)),
		3 => Cold::Empty,
		4 => Cold::Throw(s.range(1, 9)),
		5 => Cold::Never,
		6 => Cold::Closed,
		7 => Cold::Deferred(Box::new(gen_cold(s, depth + 1))),
		_ => Cold::OptionSome(Box::new(gen_cold(s, depth + 1))),
	}
}

pub fn build_cold(c: &Cold) -> BoxObs {
	match c {
		Cold::Create(script, polite) => {
			let (script, polite) = (Arc::new(script.clone()), *polite);
			BoxObs::cloneable(create_observable::<V, Er, _>(move |d: &mut dyn Subscriber<In = V, InError = Er>| {
				for e in script.iter() {
					if polite && d.is_closed() {
						break;
					}
					match e.clone() {
						Ev::Next(v) => d.next(v),
						Ev::Error(e) => d.error(e),
						Ev::Complete => d.complete(),
					}
				}
			}))
		}
		Cold::Iter(v) => {
			let v: Vec<V> = v.iter().map(|i| V::I(*i)).collect();
			BoxObs::cloneable(MapNeverErrorOperator::<V, Er>::default().operate(v.into_observable()))
		}
		Cold::Just(v) => BoxObs::cloneable(MapNeverErrorOperator::<V, Er>::default().operate(just(V::I(*v)))),
		Cold::Empty => BoxObs::cloneable(MapNeverBothOperator::<V, Er>::default().operate(empty())),
		Cold::Throw(e) => BoxObs::cloneable(MapNeverNextOperator::<V, Er>::default().operate(throw(Er(*e)))),
		Cold::Never => BoxObs::cloneable(MapNeverBothOperator::<V, Er>::default().operate(never())),
		Cold::Closed => BoxObs::cloneable(MapNeverBothOperator::<V, Er>::default().operate(closed())),
		Cold::Deferred(c) => {
			let c = c.clone();
			BoxObs::new(deferred_observable(move || build_cold(&c)))
		}
		Cold::OptionSome(c) => BoxObs::new(Some(build_cold(c))),
	}
}

/// The notifications a single subscription to the source brings
pub fn cold_script(c: &Cold) -> Vec<MEv> {
	match c {
		Cold::Create(s, _) => s.iter().map(MEv::from_ev).collect(),
		Cold::Iter(v) => v.iter().map(|i| MEv::Next(V::I(*i))).chain([MEv::Complete]).collect(),
		Cold::Just(v) => vec![MEv::Next(V::I(*v)), MEv::Complete],
		Cold::Empty => vec![MEv::Complete],
		Cold::Throw(e) => vec![MEv::Error(Er(*e))],
		Cold::Never => vec![],
		Cold::Closed => vec![MEv::Unsub],
		Cold::Deferred(c) | Cold::OptionSome(c) => cold_script(c),
	}
}
