pub mod abi;
pub mod cli;
pub mod codec;
pub mod events;
pub mod history;
pub mod mem;
pub mod text;
pub mod types;

use crate::runner::Prop;

pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = vec![];
    v.extend(codec::PROPS.iter());
    v.extend(mem::PROPS.iter());
    v.extend(types::PROPS.iter());
    v.extend(abi::PROPS.iter());
    v.extend(events::PROPS.iter());
    v.extend(text::PROPS.iter());
    v.extend(history::PROPS.iter());
    v.extend(cli::PROPS.iter());
    v.extend(crate::derive::PROPS.iter());
    v
}
