use crate::*;
pub static ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_deposit", ops::h_deposit),
    ("h_withdraw", ops::h_withdraw),
    ("h_extend", ops::h_extend),
    ("h_change", ops::h_change),
    ("h_slash", ops::h_slash),
    ("h_decrease", ops::h_decrease),
    ("h_distribute", flow::h_distribute),
    ("h_books", story::h_books),
    ("h_leave", story::h_leave),
    ("h_schedule", flow::h_schedule),
    ("h_fill", flow::h_fill),
    ("h_claim", flow::h_claim),
    ("h_close", flow::h_close),
    ("h_init_pool", flow::h_init_pool),
    ("h_init_pool_bad", flow::h_init_pool_bad),
    ("h_init_mining", flow::h_init_mining),
    ("h_newcomer", flow::h_newcomer),
    ("h_auth", auth::h_auth),
    ("h_missing", auth::h_missing),
    ("h_strict", auth::h_strict),
    ("h_kind", auth::h_kind),
    ("h_iso", iso::h_iso),
    ("h_iso_change", iso::h_iso_change),
    ("h_capacity", deep::h_capacity),
    ("h_capacity_history", deep::h_capacity_history),
    ("h_deep", deep::h_deep),
    ("h_solvent", solvent::h_solvent),
    ("h_lockup", wire::h_lockup),
    ("h_builders", wire::h_builders),
    ("h_address", wire::h_address),
    ("h_decode", wire::h_decode),
    ("h_client", wire::h_client),
    ("h_client_codes", wire::h_client_codes),
    ("h_entry", entry::h_entry),
    ("h_idl", idl::h_idl),
    ("h_idl_state", idl::h_idl_state),
    ("h_idl_codes", idl::h_idl_codes),
    ("h_layout_pool", wire::h_layout_pool),
    ("h_layout_mining", wire::h_layout_mining),
];
