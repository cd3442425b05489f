pub mod dd;
pub mod engine;
pub mod gen;
pub mod props;
pub mod refm;
pub mod src;

/// Calls a macro with the list of all properties.
#[macro_export]
macro_rules! all_props {
    ($m:ident) => {
        $m! {
            eval::C01, eval::C02, eval::C03, eval::C04, eval::C05, eval::C06,
            edit::C07, edit::C08, edit::C09, edit::C10, edit::C11, edit::C30,
            merge::C12, merge::C13, merge::C14, merge::C15, merge::C16,
            knots::C17, knots::C18, knots::C25, knots::C26,
            generate::C19, generate::C20, generate::C21, generate::C22, generate::C23,
            generate::C28, generate::C29, history::C24, meta::C27,
            extra::C31, extra::C32, extra::C33,
        }
    };
}
