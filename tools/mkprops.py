"""Writes /verif/properties.jsonl (kept as a script so that the file stays uniform)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
MS='src/macro_set/mod.rs'
p('C01','No input makes the library panic',
  'Defining, undefining and expanding macros, parsing the expanded tokens and generating code never panics, whatever tokens, names, arguments and context answers are supplied: every failure is reported as an error value. This covers out-of-range indexing, arithmetic overflow, unwrapping of absent values, unreachable markers and library calls that panic on bad arguments.',
  ['inputs','programs'],'every sequence of token strings given to define/expand, every token slice produced by expansion and given to parse, every generate call',
  'A test samples a few dozen macros; a panic needs one particular token next to one particular operator (for instance a comment after `##`).',
  [MS,'src/fn_macro.rs','src/ast/expr.rs','src/ast/literal/string.rs'],
  [('argument count check before indexing arguments',MS+': expand_fn_macro_body'),('unreachable!/unwrap/index sites',' all of src')])
p('C02','Macro expansion never re-expands a macro inside its own expansion',
  'While the replacement of a macro is rescanned, the name of that macro and of every macro whose replacement encloses it is not replaced again, and an occurrence that was skipped for this reason is never replaced later. Therefore expansion terminates for every macro set, including self-referential and mutually recursive definitions.',
  ['programs','inputs'],'every set of definitions and every macro in it','Tests contain a handful of recursive macros; the ban must hold for every chain of nested object-like and function-like expansions.',
  [MS],[('set of names that are not replaced',MS+': expand_macro_body, expand_var_macro_body, expand_fn_macro_body'),('non-replacable token marker',MS+': Token::NonReplacable')])
p('C03','Malformed parameter lists and wrong argument counts are reported',
  'Expanding a function-like macro reports an error if its parameter list contains anything but distinct identifiers, comments and one final `...`, if it is invoked with a number of arguments its parameter list does not admit (the ellipsis admits any number, a macro without parameters admits one empty argument), or if `__VA_ARGS__` occurs in the body of a macro without `...`. A macro that satisfies these rules is not rejected on these grounds.',
  ['programs','inputs'],'every parameter list, body and invocation','Each rule has one or two example tests; combinations (variadic with too few arguments, comments between parameters) are not enumerated.',
  [MS],[('parameter list validation',MS+': tokenize_arg_names'),('arity check',MS+': expand_fn_macro_body')])
p('C04','Arguments are substituted according to the C rules for # and ##',
  'Substituting arguments into a body, a parameter after `#` is replaced by the string of its unexpanded argument, a parameter next to `##` by its unexpanded argument (or an empty placeholder if there is none), and any other parameter by its completely expanded argument. `__VA_ARGS__` stands for all remaining arguments separated by commas, `#` not followed by a parameter is an error, and `#`/`##` coming from an argument are not operators. The string of an argument spells its tokens in order, separated by at most single spaces; comments count as white space. Where an argument contains names whose values are only known to the user (parameters of the macro being generated, `__LINE__`, `__FILE__`), they stay `#` operands of a string concatenation in the same order.',
  ['programs','inputs'],'every body and every list of arguments','The outcome depends on the neighbours of each parameter occurrence; tests cover single neighbours.',
  [MS],[('argument substitution',MS+': expand_arguments'),('stringification',MS+': stringify')])
p('C05','## only ever produces the tokens C defines',
  'Concatenating two punctuators yields a punctuator only for the pairs C defines and otherwise an error, concatenating an identifier with anything that does not continue it is an error, and nothing can be appended to a string or character literal. `##` at the start or end of a body is an error, an empty operand leaves the other operand unchanged, and the operands are joined in source order.',
  ['inputs'],'every ordered pair of token kinds and every pair of punctuators','The table has thousands of pairs; tests check about a dozen.',
  [MS,'src/ast/punctuation.rs'],[('concatenation of two tokens',MS+': Token::concat'),('concatenation of punctuators','src/ast/punctuation.rs: concat'),('scan for ##',MS+': expand_concat')])
p('C06','Redefinition is reported exactly when the definition changed',
  'Defining a macro reports a redefinition exactly if a macro of either kind with that name existed and its parameters or body differ in a token other than whitespace and comments, or it was of the other kind. After a definition the name denotes only the new macro, of the new kind, and undefining reports whether a macro of that kind existed and removes only that one.',
  ['histories','inputs'],'every sequence of define/undefine calls','Depends on the history of the set; tests use one pair of definitions each.',
  [MS],[('define/undefine',MS+': define_var_macro, define_fn_macro, undefine_var_macro, undefine_fn_macro')])
p('C07','Input is accepted only as a whole',
  'A token string is classified as an identifier, literal, punctuator or comment only if the complete string is one, and a macro is parsed successfully only if its complete parameter list and complete body were understood. Trailing input is never silently dropped.',
  ['inputs'],'every token string and every token sequence','Rejecting a suffix must hold for every suffix; tests try a few.',
  ['src/macro_body.rs','src/fn_macro.rs','src/ast/literal.rs','src/ast/identifier.rs','src/ast/comment.rs'],[('all_consuming around every entry point','MacroBody::parse, FnMacro::parse_args, TryFrom<&str> implementations')])
p('C08','Expressions are parsed with the operator precedence and grouping of C',
  'For every supported operator, parsing recognises exactly its C spelling, binds operators in the C precedence order and groups binary operators of one level from left to right, prefix operators, casts, assignment and the conditional operator from right to left. Operands keep their source order.',
  ['inputs'],'every expression over the supported operators','There are far more operator combinations than tests; one swapped level or spelling changes meaning silently.',
  ['src/ast/expr.rs'],[('one parser per precedence level','src/ast/expr.rs: parse_term_prec1 to parse_term_prec14')])
p('C09','Every operator is generated as the Rust operator with the same meaning',
  'For each unary and binary operator the generated Rust code applies the operator with the same meaning to the code of the same operands in the same order; assignments evaluate to the assigned value, prefix increments to the new and postfix increments to the old value, and `a[b]` becomes pointer arithmetic on `a`.',
  ['inputs'],'every operator with every kind of operand','Tests generate a few operators; the rest of the table is only ever exercised by users.',
  ['src/ast/binary_expr.rs','src/ast/unary_expr.rs'],[('operator table','src/ast/binary_expr.rs: ToTokens for BinaryOp'),('special cases','src/ast/unary_expr.rs: to_token_stream')])
p('C10','Generated code keeps the grouping of the parsed expression',
  'Whenever an operand of a generated operator is itself an operator expression that Rust would otherwise group differently, the operand is enclosed in parentheses or a block (the conditional operator generates a self-delimiting `if`). A cast that ends the left operand of `<` or `<<` is always enclosed.',
  ['inputs'],'every pair of nested operators, on either side','Around a thousand parent/child/side combinations; tests check about ten. (An unparenthesised conditional operand is required by the fixtures and excluded.)',
  ['src/ast/binary_expr.rs','src/ast/unary_expr.rs','src/ast/cast.rs','src/ast/expr.rs'],[('precedence tables','BinaryOp::precedence, UnaryOp::precedence, Expr::precedence'),('parenthesisation','BinaryExpr::to_token_stream, UnaryExpr::to_token_stream, Cast::to_tokens')])
p('C11','C type names denote the C type they spell',
  'Parsing a type maps every accepted combination of `signed`/`unsigned`, `char`/`short`/`int`/`long`/`long long`, `float`, `double`, `long double`, `bool` and `void` to exactly that C type, keeps `const`/`volatile` qualifiers wherever they are written, and applies one pointer level per `*`.',
  ['inputs'],'every order of specifiers and qualifiers','The specifiers can be permuted; tests use one or two orders per type.',
  ['src/ast/ty.rs'],[('specifier parsing','src/ast/ty.rs: int_ty, ty, const_volatile_qualifier, Type::parse')])
p('C12','Built-in C types and Rust type names correspond one to one',
  'Each built-in C type is emitted as its own Rust type name, and reading that Rust type name back with the same prefix yields the same C type (except for the documented merge of `long double` with `double` and `size_t` resolution). Pointers keep their mutability and pointee in both directions.',
  ['inputs','configurations'],'every built-in type with and without a prefix','A pairwise table over all types and prefixes; tests read back `c_int` only.',
  ['src/ast/ty.rs'],[('type tables','BuiltInType::to_rust_ty, BuiltInType::from_rust_ty'),('pointers','Type::to_tokens, Type::from_rust_ty')])
p('C13','Generated string constants are NUL-terminated with a matching length',
  'Every generated string literal contains exactly the code units of the C string followed by one zero unit, the generated array length is the number of units emitted, and the element type matches the prefix of the literal. A `CStr` is generated only for strings without interior zero bytes. Strings joined with parameters or `__FILE__` keep their content and their place, and strings that cannot be joined are rejected.',
  ['inputs','configurations'],'every string literal, prefix and target','Interior zeros, prefixes and both output forms multiply; tests cover a few strings.',
  ['src/ast/literal/string.rs'],[('string generation','LitString::to_token_stream')])
p('C14','Literal spellings denote the C value and type',
  'Integer literals are read in the base their prefix denotes and get the type their suffix denotes, with values that do not fit rejected rather than wrapped; floating-point suffixes select float, double or long double; escape sequences denote the C code; string and character prefixes select the C character type, and characters that do not fit it are rejected.',
  ['inputs'],'every literal spelling','Each table entry needs its own test, and overflow needs very long literals.',
  ['src/ast/literal.rs','src/ast/literal/int.rs','src/ast/literal/float.rs','src/ast/literal/char.rs','src/ast/literal/string.rs'],[('literal parsers','LitInt::parse_str, LitFloat::parse_str, LitChar::parse_str, LitString::parse_str, escaped_char')])
p('C15','Integer constants never lose bits when generated',
  'Whenever an integer constant is written into generated code with an explicit Rust type, the value fits that type; otherwise it is written in full. Character constants are emitted with their complete code.',
  ['inputs'],'every integer constant in every cast','The boundaries of ten integer types; tests use a few small values.',
  ['src/ast/cast.rs','src/ast/literal/int.rs','src/ast/literal/char.rs'],[('range-selected suffix','Cast::to_tokens'),('unsuffixed output','LitInt::to_tokens')])
p('C16','Volatile pointers are only accessed through volatile operations',
  'Reading, assigning, compound-assigning, incrementing or decrementing through a dereferenced cast to a pointer to a volatile type is always generated as a volatile read and/or a volatile write of that pointer, each exactly once, and never as a plain dereference.',
  ['inputs'],'every access operator on a volatile pointer','Hardware register macros depend on it; tests cover plain reads and assignments.',
  ['src/ast/binary_expr.rs','src/ast/unary_expr.rs'],[('volatile special cases','BinaryExpr::to_token_stream, UnaryExpr::to_token_stream')])
p('C17','Variable-like macros only become constants if they are constant',
  'Generating a variable-like macro fails if its body is a statement or contains a function call, a dereference, `__LINE__`, `__FILE__` or a name that is neither a built-in limit nor a known enum variant. It never yields code for such a macro.',
  ['inputs'],'every expression as body of a variable-like macro','The construct can be nested arbitrarily deep; tests check it at the top level.',
  ['src/var_macro.rs','src/ast/var.rs','src/ast/function_call.rs','src/ast/unary_expr.rs','src/ast/stringify.rs'],[('non-constant flag','LocalContext::export_as_macro, is_variable_macro')])
p('C18','A function is generated only if its complete signature is known',
  'A function-like macro is generated as a function only if it is not variadic, every parameter and the result have a known type, no function of the same name exists, and nothing in the body requires a macro; otherwise it is generated as a Rust macro with the same parameters in the same order. Parameters are referenced in the form the chosen kind requires.',
  ['inputs','configurations'],'every macro and every set of context answers','The decision is a conjunction whose cases tests sample one at a time.',
  ['src/fn_macro.rs','src/ast/macro_arg.rs'],[('decision','FnMacro::generate'),('parameter reference','MacroArg::to_tokens')])
p('C19','No part of a macro is skipped when it is checked or generated',
  'Every sub-expression, type, name and statement of a parsed macro is type-checked before code generation and is part of the generated code, in source order; generation never drops an operand, argument, branch or statement.',
  ['inputs'],'every kind of syntax tree node and every child of it','A dropped child shows only in macros using that child; the tree has about fifty child positions.',
  ['src/ast'],[('finish/to_tokens of every node','src/ast/*.rs')])
p('C20','Context answers are passed through unchanged',
  'Every query generation makes reaches the context supplied by the user with the same arguments, and its answer is returned unchanged, whether the context is passed by value or by reference. Defaults answer nothing.',
  ['configurations'],'every query of every context','Tests implement one or two queries and pass the context by value.',
  ['src/context.rs'],[('delegation','src/context.rs')])
p('C21','Language features are generated only for targets that have them',
  'Elided static lifetimes are generated only if the target is at least Rust 1.17 and `CStr` constants only if it is at least 1.59, for variable-like and function-like macros and for every kind of string; without a target or for a target that is not a version the newest features are used.',
  ['configurations'],'every target version','Needs a run per version and literal kind; no test sets a target.',
  ['src/context.rs','src/codegen/mod.rs','src/ast/literal/string.rs'],[('version gates','LocalContext::new, quote_static_ref')])
p('C22','No error is swallowed',
  'If expanding, checking or converting any part of a macro fails, the whole operation fails with that error; generated code is never returned for a macro part of which was rejected. Only the documented fallbacks (treating an unsupported cast of a product as a multiplication, leaving a name that is not a complete invocation as it is) turn a failure into a result.',
  ['inputs'],'every fallible internal operation','Error paths of inner operations are rarely reached by tests.',
  ['src'],[('error propagation','every call returning Result')])
p('C23','Constant expressions are folded with their own operator',
  'Folding an operator over constant operands applies that operator to these operands in source order with the C result type rules for mixed integer and floating-point operands (long double results may have double precision), and division or remainder by a constant zero is reported instead of evaluated. Operators without a folding rule are left in place.',
  ['inputs'],'every operator and kind of constant operand','Tests fold a few sums and products.',
  ['src/ast/expr.rs','src/ast/literal/int.rs','src/ast/literal/float.rs','src/ast/binary_expr.rs'],[('folding','Expr::finish'),('arithmetic','operators on LitInt and LitFloat')])
p('C24','Statements keep their control structure',
  'Conditions, branches, loops and blocks are parsed and generated with the same structure: the condition guards the first branch, the else branch is generated only if present, a do-while body runs before its condition is tested and repeats while it is true, and statements keep their order. Conditions that are not boolean are compared with zero.',
  ['inputs'],'every statement','Nesting and optional parts multiply; tests contain one example of each.',
  ['src/ast/statement.rs','src/ast/ternary_expr.rs','src/ast/expr.rs'],[('statement parser and generator','Statement::parse_single, Statement::to_tokens'),('conditions','Expr::finish_condition')])
p('C25','Macros keep the name, parameters and body they were given',
  'Parsing a macro succeeds only for a name that is an identifier and keeps the name, the parameter names in order and the body; the accessors return exactly these, and comments between parameters do not count as parameters.',
  ['inputs'],'every name and parameter list','Names range over all strings.',
  ['src/fn_macro.rs','src/var_macro.rs','src/ast/identifier.rs'],[('name check','is_identifier'),('accessors','FnMacro, VarMacro')])
p('C26','Results depend on nothing but the inputs',
  'Expanding, parsing and generating read no files, environment, clock, randomness or global state, do not modify the macro set, and do not let the iteration order of unordered collections reach the result. Equal inputs therefore give equal results.',
  ['histories','configurations'],'every call at any time in any process','A single run cannot show that two runs agree in every environment.',
  ['src'],[('effect freedom','whole crate')])
p('C27','Copies with a longer lifetime are identical to the original',
  'Converting a token, literal, identifier or type to an owned form keeps its kind and all of its content.',
  ['inputs'],'every value','Only some variants are converted in tests.',
  ['src/ast/identifier.rs','src/ast/literal.rs','src/ast/literal/string.rs','src/ast/ty.rs'],[('conversions','to_static, into_static')])
p('C28','Inline assembly keeps its operands, directions and clobbers',
  'Generated assembly lists every template line, output and input of the source in order, and every clobber, with operand direction and register class; an input tied to an output is passed in with that output and is not listed again. Literal braces are escaped, every `%N` of the template refers to the same operand as in the source, AT&T syntax is requested if the template uses it, and memory or flags are declared untouched only if the source does not list them as clobbered.',
  ['inputs'],'every assembly statement','Operands and clobbers combine freely; tests use three assembly macros.',
  ['src/ast/asm.rs','src/macro_body.rs','src/ast/statement.rs'],[('assembly','Asm::parse, Asm::to_tokens'),('statements','Statement::parse, MacroBody::parse')])
p('C29','Macro parameters get the fragment kind their use requires',
  'A parameter used as a member name, declared name or part of a concatenated identifier becomes an identifier fragment, one that is stringified stays an identifier fragment or becomes an expression fragment, the parameters of `offsetof` become type and token fragments, and a parameter passed to a known function gets the type of that function parameter. The kind is recorded for the parameter that is used and for no other.',
  ['inputs'],'every use of every parameter','Each use position is a separate case.',
  ['src/ast/identifier_expr.rs','src/ast/binary_expr.rs','src/ast/function_call.rs','src/ast/stringify.rs','src/fn_macro.rs'],[('fragment inference','LocalContext::arg_type_mut')])
p('C30','Generated paths carry the configured prefixes',
  'Every C type name in generated code is prefixed with the configured FFI prefix and every reference to a core library item with the configured trait prefix; without a prefix the bare name is generated.',
  ['configurations','inputs'],'every generated path','Requires a prefixed run of every code path; fixtures run without prefixes.',
  ['src/ast','src/codegen/mod.rs'],[('prefix insertion','trait_prefix and ffi_prefix users')])
p('C31','The inferred type of an expression follows the C rules',
  'Comparisons and negations are boolean, casts have the type they cast to, `sizeof` has type size_t, taking an address adds and dereferencing removes one pointer level, floating-point, character and string literals have the type of their suffix or prefix (integer literals have none of their own), calls the result type of the called function, and any other operator has the type its operands agree on. A type is inferred only from these rules and otherwise left open.',
  ['inputs','configurations'],'every expression','The type of a generated constant or function is wrong silently; tests look at a few expressions.',
  ['src/ast/expr.rs','src/ast/unary_expr.rs','src/ast/binary_expr.rs','src/ast/var.rs','src/ast/literal/char.rs','src/ast/literal/float.rs','src/ast/literal/string.rs'],[('inference','finish of every expression node')])
p('C32','Macro invocations are recognised and replaced as in C',
  'During expansion a name defined as an object-like macro is replaced by its expanded body. A name defined as a function-like macro is replaced if a complete, balanced argument list follows it immediately, with arguments split at top-level commas, and is left as it is otherwise; the result is rescanned together with the tokens that follow. Every other token is kept, in order, also when tokens are read from strings and when the expansion is given to the user.',
  ['programs','inputs'],'every macro set, every body and every list of arguments',
  'Which tokens make up an invocation depends on the nesting of parentheses and on what follows; tests contain a dozen invocations.',
  [MS],[('rescanning',MS+': expand_macro_body'),('argument collection',MS+': collect_args'),('reading tokens',MS+': Token::from_str'),('tokens for the user',MS+': detokenize')])
# Not decidable by static analysis here (see DESIGN.md)
p('C90','Generated code computes the value the C preprocessor and compiler would',
  'For every macro the value of the generated Rust expression equals the value of the C macro.',
  ['inputs','programs'],'every macro and every argument value','Needs both semantics for all values.',
  ['src'],[('whole pipeline','src')])
p('C91','Generated code always compiles',
  'All code returned without an error is accepted by the Rust compiler in a context that defines the referenced items.',
  ['inputs'],'every macro','Acceptance depends on the Rust type system and on user items.',
  ['src'],[('whole pipeline','src')])
p('C92','Comments and whitespace never change the result',
  'Inserting comments between the tokens of a definition does not change its expansion or generated code.',
  ['inputs'],'every comment position','Every position of every construct.',
  ['src'],[('meta parser','src/ast/tokens.rs')])
p('C93','Expansion time is polynomial in the size of the macro set',
  'Expanding a macro takes time polynomial in the size of the definitions and of the result.',
  ['inputs'],'every macro set','Worst cases are not in the tests.',
  [MS],[('rescanning',MS)])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
