// generated from the tables of clingo 5.6/5.7 (see g_clingo_ast_constructors)
#ifndef AST_TABLES_HPP
#define AST_TABLES_HPP
#include <clingo.h>
namespace asttab {
static char const *const names[] = {"argument", "arguments", "arity", "atom", "atoms", "atom_type", "bias", "body", "code", "coefficient", "comparison", "condition", "elements", "external", "external_type", "function", "guard", "guards", "head", "is_default", "left", "left_guard", "literal", "location", "modifier", "name", "node_u", "node_v", "operator_name", "operator_type", "operators", "parameters", "positive", "priority", "right", "right_guard", "sequence_type", "sign", "symbol", "term", "terms", "value", "variable", "weight"};
static clingo_ast_argument_t const a0[] = {{23, 2}, {25, 3}}; // id
static clingo_ast_argument_t const a1[] = {{23, 2}, {25, 3}}; // variable
static clingo_ast_argument_t const a2[] = {{23, 2}, {38, 1}}; // symbolic_term
static clingo_ast_argument_t const a3[] = {{23, 2}, {29, 0}, {0, 4}}; // unary_operation
static clingo_ast_argument_t const a4[] = {{23, 2}, {29, 0}, {20, 4}, {34, 4}}; // binary_operation
static clingo_ast_argument_t const a5[] = {{23, 2}, {20, 4}, {34, 4}}; // interval
static clingo_ast_argument_t const a6[] = {{23, 2}, {25, 3}, {1, 7}, {13, 0}}; // function
static clingo_ast_argument_t const a7[] = {{23, 2}, {1, 7}}; // pool
static clingo_ast_argument_t const a8[] = {{41, 0}}; // boolean_constant
static clingo_ast_argument_t const a9[] = {{38, 4}}; // symbolic_atom
static clingo_ast_argument_t const a10[] = {{39, 4}, {17, 7}}; // comparison
static clingo_ast_argument_t const a11[] = {{10, 0}, {39, 4}}; // guard
static clingo_ast_argument_t const a12[] = {{23, 2}, {22, 4}, {11, 7}}; // conditional_literal
static clingo_ast_argument_t const a13[] = {{23, 2}, {21, 5}, {12, 7}, {35, 5}}; // aggregate
static clingo_ast_argument_t const a14[] = {{40, 7}, {11, 7}}; // body_aggregate_element
static clingo_ast_argument_t const a15[] = {{23, 2}, {21, 5}, {15, 0}, {12, 7}, {35, 5}}; // body_aggregate
static clingo_ast_argument_t const a16[] = {{40, 7}, {11, 4}}; // head_aggregate_element
static clingo_ast_argument_t const a17[] = {{23, 2}, {21, 5}, {15, 0}, {12, 7}, {35, 5}}; // head_aggregate
static clingo_ast_argument_t const a18[] = {{23, 2}, {12, 7}}; // disjunction
static clingo_ast_argument_t const a19[] = {{23, 2}, {36, 0}, {40, 7}}; // theory_sequence
static clingo_ast_argument_t const a20[] = {{23, 2}, {25, 3}, {1, 7}}; // theory_function
static clingo_ast_argument_t const a21[] = {{30, 6}, {39, 4}}; // theory_unparsed_term_element
static clingo_ast_argument_t const a22[] = {{23, 2}, {12, 7}}; // theory_unparsed_term
static clingo_ast_argument_t const a23[] = {{28, 3}, {39, 4}}; // theory_guard
static clingo_ast_argument_t const a24[] = {{40, 7}, {11, 7}}; // theory_atom_element
static clingo_ast_argument_t const a25[] = {{23, 2}, {39, 4}, {12, 7}, {16, 5}}; // theory_atom
static clingo_ast_argument_t const a26[] = {{23, 2}, {37, 0}, {3, 4}}; // literal
static clingo_ast_argument_t const a27[] = {{23, 2}, {25, 3}, {33, 0}, {29, 0}}; // theory_operator_definition
static clingo_ast_argument_t const a28[] = {{23, 2}, {25, 3}, {30, 7}}; // theory_term_definition
static clingo_ast_argument_t const a29[] = {{30, 6}, {39, 3}}; // theory_guard_definition
static clingo_ast_argument_t const a30[] = {{23, 2}, {5, 0}, {25, 3}, {2, 0}, {39, 3}, {16, 5}}; // theory_atom_definition
static clingo_ast_argument_t const a31[] = {{23, 2}, {18, 4}, {7, 7}}; // rule
static clingo_ast_argument_t const a32[] = {{23, 2}, {25, 3}, {41, 4}, {19, 0}}; // definition
static clingo_ast_argument_t const a33[] = {{23, 2}, {25, 3}, {2, 0}, {32, 0}}; // show_signature
static clingo_ast_argument_t const a34[] = {{23, 2}, {39, 4}, {7, 7}}; // show_term
static clingo_ast_argument_t const a35[] = {{23, 2}, {43, 4}, {33, 4}, {40, 7}, {7, 7}}; // minimize
static clingo_ast_argument_t const a36[] = {{23, 2}, {25, 3}, {8, 3}}; // script
static clingo_ast_argument_t const a37[] = {{23, 2}, {25, 3}, {31, 7}}; // program
static clingo_ast_argument_t const a38[] = {{23, 2}, {3, 4}, {7, 7}, {14, 4}}; // external
static clingo_ast_argument_t const a39[] = {{23, 2}, {26, 4}, {27, 4}, {7, 7}}; // edge
static clingo_ast_argument_t const a40[] = {{23, 2}, {3, 4}, {7, 7}, {6, 4}, {33, 4}, {24, 4}}; // heuristic
static clingo_ast_argument_t const a41[] = {{23, 2}, {3, 4}, {7, 7}}; // project_atom
static clingo_ast_argument_t const a42[] = {{23, 2}, {25, 3}, {2, 0}, {32, 0}}; // project_signature
static clingo_ast_argument_t const a43[] = {{23, 2}, {25, 3}, {2, 0}, {32, 0}}; // defined
static clingo_ast_argument_t const a44[] = {{23, 2}, {25, 3}, {40, 7}, {4, 7}}; // theory_definition
static clingo_ast_constructor_t const cons[] = {
    {"id", a0, 2},
    {"variable", a1, 2},
    {"symbolic_term", a2, 2},
    {"unary_operation", a3, 3},
    {"binary_operation", a4, 4},
    {"interval", a5, 3},
    {"function", a6, 4},
    {"pool", a7, 2},
    {"boolean_constant", a8, 1},
    {"symbolic_atom", a9, 1},
    {"comparison", a10, 2},
    {"guard", a11, 2},
    {"conditional_literal", a12, 3},
    {"aggregate", a13, 4},
    {"body_aggregate_element", a14, 2},
    {"body_aggregate", a15, 5},
    {"head_aggregate_element", a16, 2},
    {"head_aggregate", a17, 5},
    {"disjunction", a18, 2},
    {"theory_sequence", a19, 3},
    {"theory_function", a20, 3},
    {"theory_unparsed_term_element", a21, 2},
    {"theory_unparsed_term", a22, 2},
    {"theory_guard", a23, 2},
    {"theory_atom_element", a24, 2},
    {"theory_atom", a25, 4},
    {"literal", a26, 3},
    {"theory_operator_definition", a27, 4},
    {"theory_term_definition", a28, 3},
    {"theory_guard_definition", a29, 2},
    {"theory_atom_definition", a30, 6},
    {"rule", a31, 3},
    {"definition", a32, 4},
    {"show_signature", a33, 4},
    {"show_term", a34, 3},
    {"minimize", a35, 5},
    {"script", a36, 3},
    {"program", a37, 3},
    {"external", a38, 4},
    {"edge", a39, 4},
    {"heuristic", a40, 6},
    {"project_atom", a41, 3},
    {"project_signature", a42, 4},
    {"defined", a43, 4},
    {"theory_definition", a44, 4},
};
} // namespace asttab
#endif
