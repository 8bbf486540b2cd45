prop('P01', 'Operators compute exactly the specified value for every operand',
     'Every unary and binary operator (comparison, equality, arithmetic, power, dot, not, negation) returns, for every pair of operand values, exactly the value its definition gives: IEEE arithmetic on f64, component-wise arithmetic on vec4 and mat4, lexicographic order and concatenation on strings, structural equality on arrays, objects and options, never-true ordering with NaN. The secret attached to the left operand is carried to the result, and operand types without a definition give an error, never a panic or a wrong value.',
     ['inputs'], 'all pairs of operand values of all types, including NaN, infinities, nested containers of any size and values with secrets',
     'The test scripts apply each operator to a handful of literals; no test covers NaN ordering, secrets, mixed mat4/vec4/f64 operands or containers of different shape.',
     ['src/dyon_std/mod.rs', 'src/ast/mod.rs'],
     [('less, less_or_equal, greater, greater_or_equal, equal, not_equal, add, sub, mul, div, rem, pow, not, neg, dot', 'src/dyon_std/mod.rs')],
     note='Functions under contract: all operator functions. The recursion of equality is discharged by induction: the recursive call is replaced by its contract.')
prop('P02', 'A link is an immutable sequence of its items',
     'A link behaves as a finite sequence of bool, f64 and str items: pushing appends one item, adding concatenates, head, tip, tail, neck and is_empty read or drop the first or last item, and each item reads back with the type and value it was pushed with. No operation on one link changes the items of any other link, however many links share storage and however long they are; values of other types are rejected without changing the link.',
     ['inputs', 'histories'], 'all links of any length, all items, and all sequences of link operations over links that share storage',
     'The benchmarks and scripts push a few items; block boundaries (124 items), type tags left over from dropped items and shared blocks are not sampled.',
     ['src/link.rs'],
     [('Block::push, Block::var, Block::clone, Link::{push, add, head, tip, tail, neck, is_empty}', 'src/link.rs')],
     state=[('slices', 'non-empty ranges into shared blocks', 'src/link.rs'), ('tys', 'two type bits per item', 'src/link.rs')],
     note='Every operation is proved over a symbolic position of a link of arbitrary length.',
     bounded='pushing a link onto a link, reference counts of str items and whole histories (random histories of up to 80 operations over 5 links).')
prop('P03', 'Collection functions change exactly the collection they are given',
     'push, push_ref, insert, insert_ref, pop, remove, reverse, clear and swap perform the documented sequence operation on the array they are given and change nothing else on the stack; len, min, max, has, keys and chars report the collection without changing it. min and max give the least and the greatest number (NaN for an empty array), keys lists every key once, an index out of range, an empty array or a value of the wrong type is an error and never a panic or a silent change.',
     ['inputs'], 'all arrays, objects and strings of any size, all indices (including fractional, negative and out of range) and all values, with arguments given by value or by reference to any stack slot',
     'Scripts in the test suite use two or three elements; no test covers indices out of range, aliasing of the array with other slots, or values of the wrong type.',
     ['src/dyon_std/mod.rs', 'src/module.rs'],
     [('push, push_ref, insert, insert_ref, pop, remove, reverse, clear, swap, len, min, max, has, keys, chars', 'src/dyon_std/mod.rs'), ('registration of the functions', 'src/module.rs')],
     state=[('Runtime::stack', 'values and references to lower slots', 'src/runtime/mod.rs')],
     note='Each function is proved against its sequence operation with a frame condition over the whole stack; deep_clone of an item is taken from its own contract (P10).',
     bounded='chars, and scripts calling the functions by name (random scripts and values).')
prop('P04', 'Option, result, secret and lazy logic functions obey their laws',
     'some, ok and err wrap a copy of their argument; unwrap, unwrap_or, unwrap_err, is_ok and is_err observe exactly what was wrapped, and unwrapping none or err is an error. explain_why and explain_where attach a secret in front of the secrets already carried, why and where give the secrets back in order and are an error when there is none; && and || give the logical value, carry the secret of the operand that decides it, and do not evaluate the right operand when the left one decides. No call changes any other value on the stack.',
     ['inputs'], 'all values, all nesting depths of options and results, all lists of secrets, arguments by value or by reference to any stack slot',
     'Tests use some(1) and a single secret; order of several secrets, wrong kinds and short-circuiting with side effects are not sampled.',
     ['src/dyon_std/mod.rs', 'src/runtime/mod.rs', 'src/module.rs'],
     [('some, ok, err, is_err, is_ok, unwrap, unwrap_or, unwrap_err, why, where, explain_why, explain_where, and_also, or_else', 'src/dyon_std/mod.rs'), ('call_lazy', 'src/runtime/mod.rs')],
     note='Every function is proved for every argument with a frame condition over the stack.',
     bounded='short-circuit evaluation by scripts, and scripts calling the functions by name.')
prop('P05', 'Vector, matrix and number functions compute their definitions',
     'x, y, z, w, s and the row and column functions of mat4 read exactly the addressed component; mov, scale, ortho, proj and mvp build the documented matrices; cross, norm, dir and the number functions (sqrt, sin, asin, cos, acos, tan, atan, atan2, exp, ln, log2, log10, round, abs, floor, ceil) return the mathematical function of their argument; det and inv are the determinant and the inverse, rot the rotation about the axis. An index outside 0..3 or an argument of the wrong type is an error, never a panic.',
     ['inputs'], 'all vectors, matrices, numbers (NaN and infinities included) and indices, arguments by value or by reference to any stack slot',
     'Tests check a few literals with mostly equal components, so swapped components, wrong columns and wrong-type arguments go unnoticed.',
     ['src/dyon_std/mod.rs', 'src/mat4.rs', 'src/vec4.rs', 'src/embed.rs'],
     [('x, y, z, w, s, rx..rw, rv, cx..cw, cv, mov, scale, ortho, proj, mvp, cross, norm, dir and the number functions', 'src/dyon_std/mod.rs'), ('argument conversion by the dyon_fn macro', 'src/macros.rs')],
     note='Component-exact contracts; transcendental functions are uninterpreted (the right one must be applied to the right argument).',
     bounded='det, inv, rot (numeric companion) and scripts calling the functions by name.')
prop('P06', 'The type checker accepts a script exactly when its types are compatible',
     'A value is accepted as an argument, result, condition, branch, vector component or swizzled component exactly when its type is compatible with the required one: compatibility is decided structurally on arrays, options, results, threads and closures, `any` goes with everything but void, a secret goes where the plain type goes but not the reverse, ad-hoc types keep apart what carries different names; extra signatures refine a result to the first one that goes with the arguments. A value computed by an accepted expression has the type the checker gave to the expression, a result must be used, and a function with a result must return it.',
     ['inputs'], 'all pairs of types of any depth; scripts with arguments, results, conditions and branches of all types',
     'The typechk test scripts list about a hundred fixed programs; they do not vary the types, nesting and positions.',
     ['src/ty.rs', 'src/lifetime/typecheck.rs', 'src/lifetime/typecheck/refine.rs', 'src/module.rs'],
     [('Type::{goes_with, ambiguous, add_assign, closure_ret_ty, insert_var, insert_none_var}', 'src/ty.rs'), ('typecheck::run, check_fn, check_if, refine::{declaration, prelude}', 'src/lifetime/typecheck.rs')],
     note='The relations on types are proved by structural induction against a table.',
     bounded='the propagation of types over a program (typecheck::run, refine): random scripts whose acceptance is predicted from the types, and soundness of inferred types against computed values.')
prop('P07', 'An accepted script never holds a reference to a value that is gone',
     'A reference is accepted in a variable, in a part of a value, in a result or through a call only when the value it refers to is known to outlive the place: variables outlive those declared after them, arguments outlive exactly what their declared lifetimes lead to, a value made of several references lives as short as the shortest. Everything else is rejected when the script is loaded, and a value that is known to outlive its place is accepted, so no script that loads ever reads or writes through a reference to a stack slot that is gone.',
     ['inputs', 'histories'], 'all scripts; all declared lifetimes of arguments, nesting of blocks and orders of declaration',
     'The test scripts hold a few dozen fixed programs with one or two arguments each.',
     ['src/lifetime/lt.rs', 'src/lifetime/node.rs', 'src/lifetime/mod.rs'],
     [('Lifetime::partial_cmp, compare_argument_outlives, unify, compare_lifetimes', 'src/lifetime/lt.rs'), ('Node::lifetime', 'src/lifetime/node.rs'), ('check_core', 'src/lifetime/mod.rs')],
     note='The order of lifetimes and the decision to accept a store are proved for all lifetimes (argument lists of any length).',
     bounded='which lifetime an expression has (Node::lifetime, check_core): random functions and calls with predicted acceptance, run with a check of every reference on the stack after each statement.')
prop('P08', 'An expression has the value its operands, order and scope give it',
     'A loaded script computes what the language says. The operands of an operator, the arguments of a call and the items of an array, object, vec4, mat4 or link are evaluated once each, from left to right, and an operand that returns or fails ends the whole expression; `&&`, `||` and functions with lazy invariants skip exactly the arguments they may skip; `if` runs the first branch whose condition is true; a block has the value of its last expression and removes what it declared; a call runs the function with its own variables, gives what the function returns, and leaves the variables of the caller as they were except through references it was given; a closure sees the values that were grabbed when it was made; `return` leaves the function with its value, `?` unwraps a success and returns the error of a failure with one more line of trace, `try` turns an error into err. A name stands for the innermost declaration in scope.',
     ['inputs', 'histories'], 'all scripts, all nestings of expressions, all values and all outcomes of the parts',
     'Tests sample a few dozen scripts; which part of a nested expression returns, fails or changes a variable first is a matter of every combination.',
     ['src/runtime/mod.rs', 'src/ast/mod.rs', 'src/ast/replace.rs', 'src/dyon_std/mod.rs'],
     [('Runtime::expression, call_internal, block, if_expr, array, object, link, vec4, mat4, try_expr, swizzle', 'src/runtime/mod.rs'), ('call_closure', 'src/runtime/mod.rs'), ('the conversion to the syntax tree', 'src/ast/mod.rs')],
     note='Each form is proved for any parts against the contract of Runtime::expression (outcome and next variables are any function of the part and the variables it starts from); the condition on the stacks closes the induction.',
     bounded='sequences in arrays, objects, links, blocks and calls are proved in full for two parts (vc_n_*) and in the condition on the stacks for any number; the conversion of source text to the syntax tree: random programs against an independent evaluator.')
prop('P09', 'A loop runs its body for each step and gives the value of its form',
     'A loop over a range runs its body for the counter going up by one from the start (0 when there is none) while it is below the end, each time with the variables the previous iteration left; sum, prod, min, max, any, all, sift, link, and their vec4 forms give exactly that combination of the values of the iterations that were finished (min, max, any and all with the counter as reason of the value), any and all stop at the first iteration that decides them; `for` with a first part, condition and step evaluates them in that order; `break` and `continue` act on the loop with their label, or the innermost one; `return` and errors leave at once; afterwards the counter and everything the body declared is gone, and no other variable is changed.',
     ['inputs', 'histories'], 'all bodies, ranges, labels and numbers of iterations',
     'Tests run a few loops with fixed bodies and small ranges.',
     ['src/runtime/for_n.rs', 'src/runtime/mod.rs', 'src/runtime/for_in.rs'],
     [('for_n_expr, sum_n_expr, prod_n_expr, min_n_expr, max_n_expr, any_n_expr, all_n_expr, sift_n_expr, sum_vec4_n_expr, prod_vec4_n_expr, link_for_n_expr', 'src/runtime/for_n.rs'), ('for_expr', 'src/runtime/mod.rs')],
     note='Proved for any number of iterations with ghost state: the contract of the body checks the state it is run in and advances the specification by one iteration.',
     bounded='`link` loops, loops over several indices and loops over the length of a list: random programs against an independent evaluator.')
prop('P10', 'Assignment changes exactly the variable or part it names',
     'Reading a name or a part (an index, a key, a computed index or key, nested) gives the value stored there last, a missing part is an error; `:=` adds a variable or a key, `=` and the operators with `=` change exactly the variable or part they name to the value of the operation, never another variable, another part or another copy of the same array, object, text or link, whatever copies share it; an operator the types do not have is an error and changes nothing; copies (`clone`, some, ok, err, results of functions) are independent of what they were made from.',
     ['inputs', 'histories'], 'all values, nestings, orders of copying and changing',
     'Arrays, objects and texts are shared until they are changed: which copies exist when a part is written depends on the whole history.',
     ['src/runtime/mod.rs', 'src/lib.rs'],
     [('Runtime::assign, Runtime::item, item_lookup', 'src/runtime/mod.rs'), ('Variable::deep_clone', 'src/lib.rs')],
     note='Names, declaration, operators with `=`, reading and writing of one part, reading of nested parts and copies of arrays are proved for all values.',
     bounded='longer paths, `?` in paths, lists of indices, links: random programs against an independent evaluator that copies values in full.')
prop('P11', 'Values cross between a script and its host unchanged',
     'An argument a script passes to a Rust function and a value a Rust function or host gives to a script arrive as the same value, in the same order, in every type the host can name (numbers, texts, booleans, vectors, matrices, options, results, arrays, tuples, lists, objects by field name, current objects, Rust objects); vectors of fewer components are padded with zero. A value of another type, an array that is too short, a missing field or a call with the wrong number of arguments is an error, never a panic or another value. After a call from the host, returning or failing in a Rust function, the stack holds what it held, and a current object is the innermost one declared with the name, restored when the host is done with it.',
     ['inputs', 'histories'], 'all values and host types, by value or by reference to any stack slot, all calls of loaded functions from the host',
     'Only a few examples use the embedding interface, with one type each; no test varies types, order or lengths.',
     ['src/embed.rs', 'src/macros.rs', 'src/vec4.rs', 'src/mat4.rs', 'src/runtime/mod.rs'],
     [('PopVariable and PushVariable of every type, obj_field, ConvertVec4, ConvertMat4', 'src/embed.rs'), ('Vec4, Mat4 conversions', 'src/vec4.rs'), ('dyon_fn, dyon_obj', 'src/macros.rs'), ('Runtime::{pop, var, push, push_vec4, pop_vec4, var_vec4, push_mat4, pop_mat4, var_mat4, push_rust, current_object, call, call_str, call_str_ret}', 'src/runtime/mod.rs')],
     note='Every conversion is proved for every value; the host calls against the contract of call_internal (P08).',
     bounded='scripts calling Rust functions and hosts calling loaded functions by name (nc_host), current objects beyond the last two entries.')
prop('P12', 'The text of a value reads back as the value',
     'str, print and println give a number, bool, vec4, mat4, option, result, array or object as its literal: items in order and separated by commas, entries as key, colon and value, vectors with all components that matter, texts inside other values quoted and escaped so that they stand for themselves; a text on its own is given as it is. For data (numbers, bools, texts, vec4, options, arrays, objects and links of these), load_data on that text gives the data back, and the same text in a script is an expression with that value. Space and comments between the parts of a text change nothing; load_data reads one value from the start of a text, and an array, object or link ends at its bracket; a missing comma between items or entries, a missing colon, key, value or bracket is an error, never a panic or other data.',
     ['inputs'], 'all values of any nesting and size, all texts',
     'Tests print fixed values and read one file; no test reads back what was written, varies spacing and comments, or tries broken texts.',
     ['src/write.rs', 'src/dyon_std/data.rs', 'src/dyon_std/mod.rs'],
     [('write_variable', 'src/write.rs'), ('load_data, expr, array, object, link, vec4, comma, opt_w', 'src/dyon_std/data.rs'), ('str, json_string, load_data, save', 'src/dyon_std/mod.rs')],
     note='Each form is proved with its items abstract (the text of an item, and the token at a position, are unknown functions), so for items of any kind and any number of them.',
     bounded='links as text, quoting of texts, spelling of numbers (compared up to the last place of the reader; NaN and infinities have no literal), colours, and the whole way from value to text and back by load_data and by a script (random data of depth up to 3, random spacing and comments, random damage).')
prop('P13', 'A name refers to the function its module, imports and namespaces give it',
     'The name of a function stands for the last function with that name among those the module was given by the modules it imports, in order, and its own; then for the last external function with the name. A name with an alias stands for the function the `use` clauses give it: a whole namespace gives all functions of that namespace under their names, a named import gives the function under its name, or under its new name with the same mutable arguments, and comes before whole namespaces. Calls, threads started by `go`, `in`, calls in closures and calls from the host are bound to that function, with its laziness, wherever the module is loaded or imported; the type checker sees the signature of the same function. A name nothing gives, a call with another number of arguments, or with arguments of other types, is rejected when the module is loaded. Importing loses and reorders nothing, and functions reach the modules a module loads exactly when they are transitive.',
     ['inputs', 'histories'], 'all modules, orders of import, namespaces, aliases and renamings',
     'Only two test programs load a module with imports; no test has two functions with the same name, a renamed import or a call by an alias.',
     ['src/module.rs', 'src/ast/mod.rs', 'src/prelude.rs', 'src/lifetime/mod.rs', 'src/dyon_std/mod.rs'],
     [('Module::{find_function, import, import_ext_prelude, import_tr_prelude, make_transitive, add, add_str, add_binop, add_unop}', 'src/module.rs'), ('UseLookup::{from_uses_module, from_uses_prelude}, Call::get_locals, Go::get_locals, In::get_locals', 'src/ast/mod.rs'), ('Prelude::insert', 'src/prelude.rs'), ('load, module, call_ret', 'src/dyon_std/mod.rs')],
     note='Lookup and imports are proved for any number of functions; the binding of calls, threads and `in` for any table of aliases; the `use` clauses for one or two clauses over one or two functions.',
     bounded='more clauses and functions, renaming of functions with mutable arguments, the last external function beyond the last two, and everything from loading modules to calling them (nc_modules, nc_transitive: up to four random modules against an independent lookup).')
