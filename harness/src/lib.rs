// The crate under test is a binary crate, so it cannot be linked as a dependency.
// Its real sources are compiled in here instead, exactly as /repo/src/main.rs
// composes them; the harness modules below sit next to its modules.
#![allow(dead_code, unused_imports, unconditional_recursion, unexpected_cfgs, unused_variables)]

include!(concat!(env!("SYMCHECK_SRC"), "/main.rs"));

pub mod engine;
pub mod oracle;
pub mod parse;
pub mod props;
pub mod sched;
pub mod spec;

/// The limit entry points (private to their module, hence the hook in the repository).
#[cfg(symbolic_rust_verif)]
pub(crate) use crate::compute::limit::verif_hook;

/// Without the hook everything but limits can still be explored.
#[cfg(not(symbolic_rust_verif))]
pub mod verif_hook {
    use crate::ast::{op::operand::Variable, tree::Expression};
    use crate::compute::limit::limit_expression::{LimitExpression, NoValidLimitFound};
    type L = Result<LimitExpression, NoValidLimitFound>;
    pub fn limit_of_variable(_: Expression, _: &Variable, _: Expression, _: u64) -> L {
        panic!("built without the hook")
    }
    pub fn limit_of_expression(_: Expression, _: Expression, _: Expression, _: u64) -> L {
        panic!("built without the hook")
    }
}

/// The repository's own program.
pub fn run_program() {
    let _ = main();
}
