use crate::engine::Property;

pub mod blocks;
pub mod codes;
pub mod files;
pub mod generic;
pub mod global;
pub mod id3v2;
pub mod model;
pub mod preserve;
pub mod refused;
pub mod resave;
pub mod read;
pub mod robust;
pub mod roundtrip;
pub mod sizes;
pub mod small;
pub mod tagged;
pub mod equal;
pub mod transfer;

pub fn all() -> Vec<Property> {
	let mut v = vec![];
	v.extend(robust::props());
	v.extend(preserve::props());
	v.extend(roundtrip::props());
	v.extend(id3v2::props());
	v.extend(model::props());
	v.extend(read::props());
	v.extend(small::props());
	v.extend(generic::props());
	v.extend(files::props());
	v.extend(global::props());
	v.extend(tagged::props());
	v.extend(blocks::props());
	v.extend(sizes::props());
	v.extend(transfer::props());
	v.extend(equal::props());
	v.extend(refused::props());
	v.extend(resave::props());
	v.extend(codes::props());
	v
}
