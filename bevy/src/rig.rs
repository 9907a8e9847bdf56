//! An app with the schedulers under test, and what is used to look into it.

use bevy_app::prelude::*;
use bevy_ecs::prelude::*;
use bevy_ecs::system::SystemState;
use bevy_time::prelude::*;
use rx_bevy::prelude::*;
use rx_core_common::SchedulerHandle;
use std::time::Duration;

pub type H = SchedulerHandle<RxBevyScheduler>;

pub fn ms(n: u64) -> Duration {
	Duration::from_millis(n)
}

/// What is done to the world, directly or by a system at some point of the frame
#[derive(Resource)]
pub struct Script<A: Send + Sync + 'static> {
	pub run: fn(&mut World, &A),
	pub pre: Vec<A>,
	pub post: Vec<A>,
}

fn pre<A: Send + Sync + 'static>(world: &mut World) {
	let (run, l) = {
		let mut s = world.resource_mut::<Script<A>>();
		(s.run, std::mem::take(&mut s.pre))
	};
	for a in l {
		run(world, &a);
	}
}
fn post<A: Send + Sync + 'static>(world: &mut World) {
	let (run, l) = {
		let mut s = world.resource_mut::<Script<A>>();
		(s.run, std::mem::take(&mut s.post))
	};
	for a in l {
		run(world, &a);
	}
}

pub struct Rig {
	pub app: App,
	pub h: H,
	entities: usize,
}

impl Rig {
	pub fn new<A: Send + Sync + 'static>(run: fn(&mut World, &A)) -> Self {
		let mut app = App::new();
		app.init_resource::<Time<Virtual>>();
		app.add_plugins((RxPlugin, RxSchedulerPlugin::<Update, Virtual>::default()));
		app.insert_resource(Script { run, pre: vec![], post: vec![] });
		app.add_systems(PreUpdate, pre::<A>).add_systems(PostUpdate, post::<A>);
		let h = SystemState::<RxSchedule<Update, Virtual>>::new(app.world_mut()).get_mut(app.world_mut()).handle();
		Rig { app, h, entities: 0 }
	}
	/// After everything the app comes with was set up
	pub fn start(&mut self) {
		self.app.update();
		self.app.update();
		self.entities = self.count();
	}
	pub fn world(&mut self) -> &mut World {
		self.app.world_mut()
	}
	pub fn count(&mut self) -> usize {
		let w = self.app.world_mut();
		w.query::<Entity>().iter(w).count()
	}
	/// Entities more than in the beginning
	pub fn extra(&mut self) -> i64 {
		self.count() as i64 - self.entities as i64
	}
	pub fn advance(&mut self, by: Duration) {
		self.app.world_mut().resource_mut::<Time<Virtual>>().advance_by(by);
	}
	pub fn work_left(&self) -> bool {
		let w = self.app.world();
		!w.resource::<RxBevyExecutor<Update, Virtual>>().is_empty() || !w.resource::<RxBevyExecutor<Last, Virtual>>().is_empty()
	}
	pub fn names(&mut self) -> String {
		let w = self.app.world_mut();
		let mut v: Vec<String> = w.query::<(Entity, Option<&Name>)>().iter(w).map(|(e, n)| format!("{e}:{}", n.map(|n| n.as_str().to_string()).unwrap_or_default())).collect();
		v.sort();
		v.join(", ")
	}
}
