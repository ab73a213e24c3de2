//! Hand written bindings for the part of the Z3 C API the engine uses.
#![allow(dead_code, non_camel_case_types, clippy::upper_case_acronyms)]
use std::os::raw::{c_char, c_int, c_uint, c_void};

pub type Ctx = *mut c_void;
pub type Cfg = *mut c_void;
pub type Ast = *mut c_void;
pub type Sort = *mut c_void;
pub type Sym = *mut c_void;
pub type Solver = *mut c_void;
pub type Model = *mut c_void;
pub type Params = *mut c_void;
pub type FuncDecl = *mut c_void;

pub const L_FALSE: c_int = -1;
pub const L_UNDEF: c_int = 0;
pub const L_TRUE: c_int = 1;

extern "C" {
    pub fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    pub fn Z3_get_full_version() -> *const c_char;
    pub fn Z3_mk_config() -> Cfg;
    pub fn Z3_del_config(c: Cfg);
    pub fn Z3_mk_context(c: Cfg) -> Ctx;
    pub fn Z3_del_context(c: Ctx);
    pub fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    pub fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    pub fn Z3_mk_real_sort(c: Ctx) -> Sort;
    pub fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    pub fn Z3_mk_func_decl(c: Ctx, s: Sym, n: c_uint, d: *const Sort, r: Sort) -> FuncDecl;
    pub fn Z3_mk_app(c: Ctx, f: FuncDecl, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    pub fn Z3_mk_true(c: Ctx) -> Ast;
    pub fn Z3_mk_add(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_sub(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_mul(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_div(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_unary_minus(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_mk_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_le(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    pub fn Z3_mk_is_int(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_simplify(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_get_bool_value(c: Ctx, a: Ast) -> c_int;
    pub fn Z3_is_numeral_ast(c: Ctx, a: Ast) -> bool;
    pub fn Z3_is_algebraic_number(c: Ctx, a: Ast) -> bool;
    pub fn Z3_get_algebraic_number_lower(c: Ctx, a: Ast, p: c_uint) -> Ast;
    pub fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    pub fn Z3_get_numeral_decimal_string(c: Ctx, a: Ast, p: c_uint) -> *const c_char;
    pub fn Z3_mk_solver(c: Ctx) -> Solver;
    pub fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    pub fn Z3_mk_solver_for_logic(c: Ctx, l: Sym) -> Solver;
    pub fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    pub fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    pub fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    pub fn Z3_solver_push(c: Ctx, s: Solver);
    pub fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    pub fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    pub fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    pub fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    pub fn Z3_mk_params(c: Ctx) -> Params;
    pub fn Z3_params_inc_ref(c: Ctx, p: Params);
    pub fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
    pub fn Z3_model_inc_ref(c: Ctx, m: Model);
    pub fn Z3_model_dec_ref(c: Ctx, m: Model);
    pub fn Z3_model_eval(c: Ctx, m: Model, a: Ast, completion: bool, out: *mut Ast) -> bool;
    pub fn Z3_ast_to_string(c: Ctx, a: Ast) -> *const c_char;
}
