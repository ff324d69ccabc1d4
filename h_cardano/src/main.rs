mod source;
mod stack;
mod world;

use mclib::{Check, Level};

fn main() {
    let assumptions = vec!["cardano-net and CML are stand-ins with a model of a node: the node serves a range it has begun even if its chain changes, answers with the first of the points that is on its chain, and a connection that failed stays dead", "one exchange with the node happens at a time"];
    let c = |property, rule, scenarios| Check { property, level: Level::ModelChecking, rule, assumptions: assumptions.clone(), scenarios };
    mclib::main(vec![c("B08", "each execution is one interleaving of a consumer, the real source and its task, and a node; a state is the node's blocks and what of the current request was delivered", source::b08), c("B09", "each execution is one run of the real stack, from a node to a consumer; a state is the node's blocks and what the consumer has", stack::b09)])
}
