use symrt::Harness;
pub mod util;
macro_rules! h {
    ($($m:ident : $($f:ident)*;)*) => {
        $(pub mod $m;)*
        pub static HARNESSES: &[Harness] = &[$($(Harness { name: concat!(stringify!($m), "::", stringify!($f)), run: $m::$f }),*),*];
    };
}
h! {
    c01: symbolic_trees iterations many_rows precision neighbours sizes exact_sums;
    c02: fit_symbolic_x fit_symbolic_y many_rows many_bins infinite stumps missing_rows sizes scales exact_sums columns;
    c03: fit_symbolic_y fit_symbolic_x tree_symbolic_gradients deep large sampled;
    c04: symbolic_parameters symbolic_x larger sampled;
    c05: fit_symbolic_x fit_symbolic_y constrained_root leaf_limit constrained_missing missing_rows sizes scales;
    c06: columns long_column splits_are_cuts precision many_bins sizes;
    c08: tree_methods shapley_three probability_change probability_change_uf trained iterations deep sizes;
    c09: definitions sizes;
    c10: expectation one_feature sizes;
    c11: definitions trained sizes;
    c12: rows_anywhere any_course several_sets long stumps;
    c13: random_rows goss columns same_seed drawn_anew sizes;
    c14: squared log_loss log_loss_uf initial_score initial_score_uf sizes;
    c15: auc losses losses_uf comparison auc_special sizes;
    c16: fit_symbolic_x fit_symbolic_y custom_missing larger sampled;
    c17: round_trip trained absent_options file one_class;
    c18: parameters fit_data feature_nan metric_names nothing_to_learn;
    c19: fits sizes;
    c20: row_order monotone_transform weight_is_repetition useless_column zero_weight weight_scale sizes;
    c21: constructor defaults setters metadata;
    c28: fit_symbolic_x fit_symbolic_y constrained larger imputed sampled;
}
