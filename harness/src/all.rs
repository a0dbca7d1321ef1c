#![allow(unused)]
use crate::sym;
#[path = "real.rs"]
pub mod real;
#[path = "spec.rs"]
pub mod spec;
#[path = "geom.rs"]
pub mod geom;
#[path = "text.rs"]
pub mod text;

macro_rules! entries {
    ($($m:ident :: $n:ident),* $(,)?) => {
        $(#[cfg(not(feature = "native"))] #[no_mangle] pub extern "C" fn $n() { $m::$n() })*
        pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($n), $m::$n)),*];
    };
}

entries! {
    text::c01_free,
    text::c01_wide,
    text::c01_num,
    text::c01_bignum,
    text::c01_tokens,
    text::c01_options,
    text::c01_params,
    text::c01_lists,
    text::c01_names,
    text::c01_blocks,
    text::c01_long,
    text::c02_free,
    text::c02_wide,
    text::c02_scene,
    text::c02_far,
    text::c02_any,
    text::c03_chars,
    text::c03_int,
    text::c03_limit,
    text::c03_exp,
    text::c03_bigexp,
    text::c03_float,
    text::c03_manydigits,
    text::c03_scene,
    text::c03_wideint,
    text::c04_free,
    text::c04_wide,
    text::c04_len,
    text::c04_long,
    text::c04_any,
    text::c04_scene,
    text::c05_blanks,
    text::c05_comment,
    text::c05_words,
    text::c05_mixed,
    text::c05_crlf,
    text::c05_long,
    text::c05_scene,
    text::c06_free,
    text::c06_wide,
    text::c06_any,
    text::c06_num,
    text::c06_scene,
    text::c07_one,
    text::c07_many,
    text::c07_long,
    text::c07_names,
    text::c07_len,
    text::c07_count,
    text::c07_decl,
    text::c07_strings,
    text::c08_values,
    text::c08_decl,
    text::c08_place,
    text::c08_count,
    text::c08_long,
    text::c09_words,
    text::c09_nest,
    text::c09_deep,
    text::c09_wide,
    text::c10_word,
    text::c10_args,
    text::c10_seq,
    text::c10_strings,
    text::c10_names,
    text::c10_long,
    text::c11_word,
    text::c11_arity,
    text::c11_kinds,
    text::c11_args,
    text::c11_strings,
    text::c11_seq,
    text::c11_names,
    text::c11_ident,
    text::c24_free,
    text::c24_wide,
    text::c24_edit,
    text::c24_tokens,
    text::c24_params,
    text::c24_decl,
    text::c24_args,
    text::c24_arity,
    text::c24_far,
    text::c12_tokens,
    text::c12_before,
    text::c12_after,
    text::c12_stray,
    text::c12_cut,
    text::c12_edit,
    text::c12_free,
    text::c12_long,
    text::c12_twice,
    geom::c13_affine,
    geom::c13_line,
    geom::c13_block,
    geom::c13_dep,
    geom::c13_int,
    geom::c13_range,
    geom::c13_one,
    geom::c13_perm,
    geom::c13_two,
    geom::c13_zero,
    geom::c14_add_f,
    geom::c14_add_i,
    geom::c14_eq_f,
    geom::c14_eq_i,
    geom::c14_laws,
    geom::c14_mul_f,
    geom::c14_mul_i,
    geom::c14_shape_f,
    geom::c14_shape_i,
    geom::c15_apply_f,
    geom::c15_apply_i,
    geom::c15_has_scale,
    geom::c15_identity,
    geom::c15_matrix,
    geom::c15_pair,
    geom::c15_scale,
    geom::c15_scaling,
    geom::c15_translate,
    geom::c16_intersect_f,
    geom::c16_intersect_i,
    geom::c16_new_f,
    geom::c16_new_i,
    geom::c16_overlaps_f,
    geom::c16_overlaps_i,
    geom::c16_union_f,
    geom::c16_union_i,
    geom::c16_union_pt_f,
    geom::c16_union_pt_i,
    geom::c17_corner_f,
    geom::c17_corner_i,
    geom::c17_expand_f,
    geom::c17_expand_i,
    geom::c17_extent_f,
    geom::c17_extent_i,
    geom::c17_lerp,
    geom::c17_measure_f,
    geom::c17_measure_i,
    geom::c17_offset_f,
    geom::c17_offset_i,
    geom::c17_sphere,
    geom::c18_edge,
    geom::c18_iter,
    geom::c18_long,
    geom::c19_algebra_f,
    geom::c19_algebra_i,
    geom::c19_div_f,
    geom::c19_div_i,
    geom::c19_face_f,
    geom::c19_face_i,
    geom::c19_minmax_f,
    geom::c19_minmax_i,
    geom::c19_ortho,
    geom::c19_overall_f,
    geom::c19_overall_i,
    geom::c19_select_f,
    geom::c19_select_i,
    geom::c19_two_f,
    geom::c19_two_i,
    geom::c20_algebra_f,
    geom::c20_algebra_i,
    geom::c20_convert_f,
    geom::c20_convert_i,
    geom::c20_div_f,
    geom::c20_div_i,
    geom::c20_face_f,
    geom::c20_face_i,
    geom::c20_floor,
    geom::c20_lerp,
    geom::c20_minmax_f,
    geom::c20_minmax_i,
    geom::c20_nan,
    geom::c20_overall_f,
    geom::c20_overall_i,
    geom::c20_pdiv_f,
    geom::c20_pdiv_i,
    geom::c20_pminmax_f,
    geom::c20_pminmax_i,
    geom::c20_points_f,
    geom::c20_points_i,
    geom::c20_select_f,
    geom::c20_select_i,
    geom::c21_frame,
    geom::c22_at,
    geom::c22_new,
    geom::c22_scale,
}
