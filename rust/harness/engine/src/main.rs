mod engine;
mod evaluate;
mod extra;
mod groups;
mod history;
mod long;
mod progress;
mod recognize;
mod reference;
mod spec;
mod tables;
mod utils;

fn main() {
    let mut properties = vec![];
    properties.extend(recognize::properties());
    properties.extend(evaluate::properties());
    properties.extend(groups::properties());
    properties.extend(history::properties());
    properties.extend(progress::properties());
    properties.extend(tables::properties());
    properties.extend(utils::properties());
    properties.extend(extra::properties());
    pbt::main_with(properties)
}
