pub mod answers;
pub mod chain;
pub mod conc;
pub mod decode;
pub mod robust;
pub mod routing;
pub mod statics;

/// Evaluates `$e` with `$c` bound to the check of the given id.
macro_rules! with_check {
    ($id:expr, $c:ident => $e:expr, $other:expr) => {{
        use $crate::checks::*;
        match $id {
            "C01" => { let $c = &routing::C01; $e }
            "C02" => { let $c = &routing::C02; $e }
            "C03" => { let $c = &routing::C03; $e }
            "C04" => { let $c = &routing::C04; $e }
            "C05" => { let $c = &routing::C05; $e }
            "C06" => { let $c = &chain::C06; $e }
            "C07" => { let $c = &routing::C07; $e }
            "C08" => { let $c = &routing::C08; $e }
            "C09" => { let $c = &decode::C09; $e }
            "C10" => { let $c = &decode::C10; $e }
            "C11" => { let $c = &decode::C11; $e }
            "C12" => { let $c = &decode::C12; $e }
            "C13" => { let $c = &robust::C13; $e }
            "C14" => { let $c = &answers::C14; $e }
            "C15" => { let $c = &answers::C15; $e }
            "C16" => { let $c = &answers::C16; $e }
            "C17" => { let $c = &conc::C17; $e }
            "C18" => { let $c = &conc::C18; $e }
            "C19" => { let $c = &statics::C19; $e }
            "C20" => { let $c = &statics::C20; $e }
            "C21" => { let $c = &answers::C21; $e }
            _ => $other,
        }
    }};
}
pub(crate) use with_check;
