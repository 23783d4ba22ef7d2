prop("C08", "Bound operations are fresh, well scoped and immune to handlers",
     "A term that binds operations (a function, let, stream or any signature declaring a scope) binds exactly the occurrences in the scope its signature declares: each constructed binder uses operations used nowhere else, no handler can change what a bound occurrence means, and substituting terms with free operations under a binder never captures them.",
     ["programs", "inputs"], "all expressions of depth 2 over 7 node kinds with re-used variables and shadowing, built under and without handlers; all substitutions of 4 replacement kinds",
     "freshness and capture are properties of all combinations of nested and shared binders; tests build a few fixed terms",
     [SYN, TYP], [("Scoped annotations", SYN + ":Scoped"), ("defdata renames bound operations", SYN + ":defdata"), ("deffn", SYN + ":deffn")],
     "bounded symbolic execution of construction and substitution; result compared in locally nameless form with an independent translation of the program text")
PN = "effectful/internals/product_n.py"
prop("C10", "Components of a product of interpretations compute what they compute alone",
     "In a product of several interpretations every component sees the arguments, handlers and defaults it would see if it ran alone; a component may consult the values or the arguments of the others, a shared intermediate result is computed once per component, and only when needed.",
     ["programs", "inputs"], "2 (thorough: 3) components, each drawn from 5 operation sets and 4 handler shapes incl. generic application, defaults and nested calls; 14 argument structures; all values",
     "independence holds over all pairs of interpretations and call structures; tests run a few fixed analyses together",
     [PN], [("productN", PN + ":productN"), ("argsof", PN + ":argsof")],
     "bounded symbolic execution; product components compared with solo runs over uninterpreted handler functions")
prop("C13", "Handler objects answer operations with their own methods and state",
     "An object with methods marked as implementing operations handles exactly those operations: each call goes to the method of the nearest class, in method resolution order, that declares one, bound to that object. Two objects never share state, and re-installing an object keeps its state.",
     ["programs", "inputs", "histories"], "4 class diagrams incl. diamond and mixin with every assignment of 2 operations to classes; 2 objects x 5 installations x 6 method behaviours; all values",
     "tests use one class or one level of inheritance",
     [SYN], [("ObjectInterpretation.__init_subclass__ collects implementations", SYN + ":ObjectInterpretation"), ("implements", SYN + ":implements")],
     "bounded symbolic execution; methods are uninterpreted functions, the class of each answer is decided by the solver over all inputs")
prop("C14", "Arithmetic and comparison syntax on terms means what it means on numbers",
     "Building an expression from numeric terms with Python's operators, in either operand position, and evaluating it after giving the free operations values yields what the operators yield on those values, including the exception they raise. Comparing or converting a term never yields a made-up truth value or number.",
     ["inputs", "programs"], "17 binary operators x 6 placements, 9 unary, trees of depth 2 over 8 constructors; all integers (|.|<=50 for ** and shifts), 4 non-integers",
     "tests check a few operators at a few values; operator and reflection mix-ups agree on symmetric inputs",
     [SYN], [("number terms build operator terms", SYN + ":_NumberTerm")],
     "bounded symbolic execution over z3 integers; semantics of each operator encoded in linear/nonlinear arithmetic and replayed concretely")
prop("C15", "Tracing a function into a term preserves its meaning",
     "Turning a Python function into a term and calling or evaluating the term gives what the function gives, for every body built from its parameters, free operations and inner traced functions, with its parameter names and kinds; the trace never leaks its placeholder operations.",
     ["programs", "inputs"], "functions of 1-2 parameters with bodies of depth 2 (thorough 3) over 6 constructors, 5 parameter-kind patterns; all values",
     "tests trace a few fixed functions",
     [SYN], [("trace", SYN + ":trace"), ("deffn", SYN + ":deffn")],
     "bounded symbolic execution; the function and its trace compared by z3 over uninterpreted operations")
prop("C30", "Operations of classes and instances are found, shared and separated correctly",
     "An operation declared in a class answers through its class for every instance; handling the instance's operation affects that instance only, handling the class's affects all instances without their own handler. Overriding, class, static and dispatching methods follow Python's rules. Distinct operations are never equal; copies are new.",
     ["programs", "inputs", "configurations"], "2 instances x class/subclass x default/free x handlers of either (absent, answering, forwarding) x nestings; 7 kinds of declaration; all values",
     "tests handle one instance at a time with fixed values",
     [TYP], [("Operation.__get__ and instance operations", TYP + ":Operation"), ("Operation.define", TYP + ":Operation.define")],
     "bounded symbolic execution; handler bodies uninterpreted, values symbolic")
UNI = "effectful/internals/unification.py"
prop("C11", "The reported type of an expression follows from the operations' signatures",
     "The type reported for an expression is the declared result type of its outermost operation, with each type parameter replaced by what the argument types determine, at any nesting depth; arguments that cannot fit the signature are rejected with TypeError when the term is built. Evaluating with well-typed handlers gives values of that type, finding a type runs no handler, and the term's class matches its type.",
     ["programs", "inputs"], "18 polymorphic signatures x 11 argument types, nested to depth 2 (thorough 3); the subclass relation of user classes is a solver variable",
     "tests check one or two hierarchies and fixed nestings",
     [SEM, UNI, SYN], [("typeof", SEM + ":typeof"), ("Operation.__type_rule__ infers the result type by unification", TYP + ":Operation.__type_rule__")],
     "bounded symbolic execution; the subclass relation is an uninterpreted preorder, results compared with an independent first-order matcher")
prop("C12", "Matching type parameters is sound and deterministic for every class hierarchy",
     "Matching a pattern type against an actual type binds every type parameter so that, after substitution, the actual type is a subtype of the pattern, respects bindings made earlier, and fails exactly when no such binding exists. Substitution follows chained bindings, changes nothing else and leaves no bound parameter free.",
     ["inputs", "configurations"], "13 pattern kinds x 10 subject kinds with nested children, 6 earlier substitutions, over every subclass preorder on 3 classes (symbolic)",
     "tests use Python's fixed builtin hierarchy; soundness quantifies over all hierarchies",
     [UNI], [("unify", UNI + ":unify"), ("substitute / freetypevars", UNI + ":substitute")],
     "bounded symbolic execution; subclass relation uninterpreted, verdict compared with an independent matcher by z3")
COM, TPL = "effectful/handlers/llm/completions.py", "effectful/handlers/llm/template.py"
prop("C20", "Model conversations are well formed, and committed whole or not at all",
     "Each request to the language model starts with one system message, contains every tool call answered exactly once, directly after the message that made it, and in order, and grows only at its end. An agent's history is the conversations of its completed outermost calls, in order, without rejected attempts, and is unchanged by a call that fails, whatever raises. Agents share no history.",
     ["inputs", "programs", "histories", "fault points"], "scripts whose first 2 (thorough 3) turns are any of 10 kinds (good, undecodable, unknown tool, raising, nested, provider failure, interrupt), 1-3 calls on 2 agents, 3 retry settings; all values",
     "tests script a few fixed conversations, the rule quantifies over every script and fault point",
     [COM, TPL], [("call_assistant / call_tool / call_user append messages", COM + ":call_assistant"), ("_call commits the history", COM + ":LiteLLMProvider._call")],
     "bounded symbolic execution against a scripted model; turn kinds are solver-split selectors, every value is a symbolic integer carried through JSON as an opaque token; conversation compared with an independent reference")
prop("C21", "Retrying a model call repairs what it says and nothing else",
     "With retries enabled, an undecodable answer or tool call is reported back to the model and asked again exactly as long as the configured policy allows; then the decoding error is raised. Tool exceptions of the configured types become tool messages, all others propagate; interrupts always do. A rejected message runs none of its tool calls.",
     ["inputs", "programs", "fault points"], "no retry, 1-3 attempts, any stopping policy (uninterpreted); first 3 (thorough 4) turns of 9 kinds of answer or 8 kinds of tool outcome; all values",
     "tests use one limit and one or two failures",
     [COM], [("RetryLLMHandler", COM + ":RetryLLMHandler")],
     "bounded symbolic execution against a scripted model compared with an independent reference of the retry policy")
prop("C22", "Tools run exactly once per model call, in order, with the decoded arguments",
     "Every tool call the model makes runs that tool exactly once, in the order given, with the arguments decoded to the declared types, and its encoded result goes back under that call's id. A failing call stops the later ones unless its failure is reported to the model. The template returns the decoded final answer, and the model is asked again only after all calls were answered.",
     ["inputs", "programs"], "first 2-3 (thorough 3-4) turns of 11 kinds with up to 3 calls over 6 tools incl. nested template calls, agent methods, keyword and defaulted parameters; all values",
     "order, repetition and pairing hold over all scripts; tests have one or two calls",
     [COM], [("call_assistant decodes tool calls", COM + ":call_assistant"), ("call_tool", COM + ":call_tool"), ("the loop", COM + ":LiteLLMProvider._call")],
     "bounded symbolic execution against a scripted model; argument and result values symbolic, tool bodies uninterpreted functions")
prop("C23", "A template is offered exactly the tools in its lexical scope, each once",
     "A template's tools are the tools, templates and agents' tool methods (most derived override) visible where it is defined or passed as argument, inner names hiding outer ones, never from class bodies or mere callers. Each is offered once, under one name, calling that name runs that very tool, and the template itself is offered only if recursive. Readers show plain values.",
     ["programs", "inputs", "configurations"], "9 nestings of functions and classes x bindings at each level x 6 kinds of caller; 10 kinds of visible value under 2 names with shadowing, 2 agent classes, recursion, readers; all values",
     "visibility depends on the combination of nesting, shadowing and caller; tests have single examples",
     [TPL, COM], [("Template.define captures lexical context", TPL + ":Template.define"), ("collect_tools", COM + ":collect_tools"), ("LexicalReaders", COM + ":LexicalReaders")],
     "bounded symbolic execution; scopes are generated from solver-split selectors and compared with Python's own scoping rules, values symbolic")
ENC = "effectful/handlers/llm/encoding.py"
prop("C24", "Rendering a prompt inserts every value in place and changes nothing else",
     "The message sent for a template call is its prompt with each field replaced, in place and in order, by its argument or lexical variable after the field's attribute, item, conversion and format steps, encoded by its type; content blocks such as images stay whole blocks at their position, in any container. Surrounding text, escaped braces and line structure are kept.",
     ["inputs", "programs"], "JSON trees of depth 2 with arbitrary texts (symbolic, compared by the solver with every literal of the code); 2 fields x 11 kinds of value x attribute/item x 4 conversions x 4 specs x 4 literals; 3 forms of template",
     "tests render fixed prompts; a text that looks like a block's type, a block deep in a container or a repeated field needs all combinations",
     [ENC, COM, TPL], [("to_content_blocks flattens values", ENC + ":to_content_blocks"), ("_OpenAIPromptFormatter / call_user", COM + ":call_user")],
     "bounded symbolic execution; texts are opaque symbolic strings whose comparisons the solver decides, result compared with an independent renderer")
prop("C25", "Values sent to and read from the model keep their type and value",
     "Encoding a value under its declared type and decoding the result gives an equal value of the same type, for every supported type and nesting. A reply that is not an encoding of the type is rejected, not coerced. A tool call decodes to exactly the arguments its parameter types allow, and decoding the encoding of a tool call gives it back.",
     ["inputs", "programs"], "18 kinds of type nested to depth 2 (thorough 3) with containers up to length 2; one change of 6 kinds at any position of an encoding; 7 parameter lists x 3 types x 4 malformations; all integers",
     "tests round-trip listed examples; nesting kinds in one another is where types are lost",
     [ENC], [("TypeToPydanticType / Encodable", ENC + ":Encodable"), ("DecodedToolCall", ENC)],
     "bounded symbolic execution; structure is solver-split, values cross pydantic as opaque tokens and are compared by z3")
EVA = "effectful/handlers/llm/evaluation.py"
prop("C26", "A synthesized function is the function its source denotes, and encodes as it",
     "Decoding source as a function gives what that module defines, run in the given names and nothing else, under every provider; other functions decoded before or after do not affect it, and encoding gives source that decodes to the same function. Source that is not a function of the required parameters is rejected; restricted code never reaches private attributes or unrestricted builtins.",
     ["inputs", "programs"], "modules of 16 shapes x 5 expression forms, 2 providers, pairs of functions; 17 parameter lists x 5 signatures; 25 forbidden accesses x 9 places x 4 contexts; all integers",
     "tests decode a few fixed sources, one at a time",
     [ENC, EVA], [("Encodable[Callable] decodes and encodes functions", ENC + ":_pydantic_callable"), ("RestrictedEvalProvider", EVA + ":RestrictedEvalProvider")],
     "bounded symbolic execution of the generated code over symbolic arguments, compared by z3 with an independent interpreter of the source")
prop("C27", "A session is one namespace for all its snippets, isolated from everything else",
     "Names a snippet binds, rebinds or deletes, at top level or from functions, are so for all code of the session, earlier functions included, also when the snippet raises. A snippet's output is exactly what it printed, then its traceback. Sessions share nothing, leave their seed unchanged, live for one template call, and behave alike under every provider.",
     ["histories", "programs", "inputs"], "sequences of 2-3 (thorough 4) snippets of 17 kinds in 2 sessions, 2 providers; template calls whose model runs up to 5 snippets, nested calls; all values",
     "persistence depends on the order of bindings, failures and later uses; tests run one or two snippets",
     [EVA, COM], [("ReplSession", EVA + ":ReplSession"), ("PythonRepl", COM + ":PythonRepl"), ("exec of the providers", EVA + ":RestrictedEvalProvider.exec")],
     "bounded symbolic execution; printed values are opaque tokens compared by z3 with an independent interpreter")
prop("C28", "Generated code is type checked where it will run, as exactly that code, first",
     "Code synthesized for a template, and each session snippet after those before it, is checked as the body of that template's own definition in its real module, everything else unchanged, before it runs. It is refused exactly when the checker reports an error on its own lines, decorators included; errors elsewhere never count. Tool arguments are not checked against the template.",
     ["inputs", "programs", "histories"], "up to 3 diagnostics at any line, any region; 7 places x 5 decorations x 3 signatures x 3 bodies x 7 generated modules; up to 2 earlier snippets of 9 kinds; template calls of up to 3 steps",
     "tests check a few fixed regions; line arithmetic is for all lines and layouts",
     [EVA, ENC, COM], [("splice_into_source / _splice_repl", EVA + ":splice_into_source"), ("_mypy_check_region", EVA + ":_mypy_check_region")],
     "bounded symbolic execution; line numbers and region bounds are symbolic integers, mypy is replaced by a model of its interface, layouts compared as syntax trees")
