#[allow(dead_code)]
#[path = "../../core/src/base.rs"]
mod base;
mod entities;
mod rig;
mod sources;
mod world;

use pbt::{Family, Property};

fn main() {
	pbt::main(vec![Property {
		id: "B01",
		title: "observables over the world",
		families: vec![Family::new("world_histories", "at least one update and one delivered notification", 400_000, 8_000_000, sources::histories)],
		assumptions: &[],
	}, Property {
		id: "B02",
		title: "entities as observables and subscriptions",
		families: vec![Family::new("entity_histories", "at least one update and one delivered notification", 200_000, 4_000_000, entities::histories)],
		assumptions: &[],
	}, Property {
		id: "B03",
		title: "schedulers, destinations and subscription components",
		families: vec![
			Family::new("schedules", "at least one update and one delivered notification", 120_000, 2_000_000, world::schedules),
			Family::new("destinations", "at least one update and one delivered notification", 120_000, 2_000_000, world::destinations),
			Family::new("components", "at least one teardown executed", 100_000, 2_000_000, world::components),
		],
		assumptions: &[],
	}]);
}
