#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
A = 'src/hypertag/core/ast.py'; D = 'src/hypertag/core/dom.py'; T = 'src/hypertag/core/tag.py'
R = 'src/hypertag/core/runtime.py'; S = 'src/hypertag/core/structs.py'; G = 'src/hypertag/core/grammar.py'
E = 'src/hypertag/core/errors.py'; B = 'src/hypertag/std/builtins.py'; H = 'src/hypertag/std/html.py'
P = 'src/hypertag/nifty/parsing.py'; U = 'src/hypertag/nifty/util.py'; DJ = 'src/hypertag/django/backend.py'
RG = 'src/hypertag/std/registry.py'; RH = 'src/hypertag/core/run_html.py'
props = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

prop('C01', 'Plain text is HTML-escaped exactly once; markup and verbatim never',
 "Everything that reaches the output of HyperHTML through a plain-text block (|), whether literal script text or a value embedded with $x, {x} or a string expression, appears with every &, < and > replaced by its entity exactly once, so that unescaping gives back the original characters and no raw < or > from the text survives. "
 "Text of markup (/) blocks, values embedded in them and verbatim (!) blocks are passed through without any escaping, and verbatim blocks leave $, { and } uninterpreted. "
 "The position of the block (headline, tail lines, nested tag, hypertag body, loop, branch, try, @-embedded body) makes no difference.",
 ['inputs', 'programs'], "every character sequence (full Unicode) for literal text and embedded values, in every kind of text block and every position of the block",
 "tests compare a few fixed strings; whether some character, some order of special characters or some position slips through unescaped or is escaped twice quantifies over all strings and positions",
 [A, H, RH, D], [('xline_normal.render_inline applies runtime.escape to the rendered line', A), ('html_escape', H), ('xline_markup / xline_verbat', A), ('HyperHTML.escape', RH)],
 ['HyperHTML().render(script, **context)'])

prop('C02', 'Attribute values survive the round trip into HTML markup',
 "For a built-in tag, a Markup tag or a custom element, every named attribute whose value is not a boolean is written once as name=\"value\" (or single-quoted) such that reading the tag back with an HTML attribute reader yields exactly str(value); True gives the bare name, False omits the attribute. "
 "Attributes appear in order of first use, shortcuts .x and #y are class and id, and repeated occurrences of a name are joined with a single space in order. "
 "No attribute value can end the quoted string or open another attribute or tag.",
 ['inputs', 'programs'], "all strings, integers and booleans as attribute values, given literally, as {expression}, as $variable or as a default, in any number and order of attributes up to the bound, on void and non-void tags",
 "tests use a handful of benign values; injection through quotes, entity handling and the joining of repeated names quantify over all values",
 [T, A, G, H], [('Markup._render_attr / quoteattr', T), ('xtag_expand._eval_attrs', A), ('xattr_short', A), ('CustomTag.expand', H)],
 ['HyperHTML().render', 'Markup(...).expand', 'tag(...) call'])

prop('C03', 'Output layout follows script layout: indentation and blank lines',
 "Each outline block of a script is rendered at the indentation it has in the script (tabs and spaces kept), relative to the tag it is nested in, the number of blank lines before it is preserved, inline (headline) bodies stay on the tag's line, and a tag's closing markup goes on its own line at the tag's indentation exactly when its body has no headline but has outline children. "
 "Control blocks, definitions, assignments and comments add no output lines of their own; the blocks nested directly in a control block are rendered at the indentation of the control block itself. "
 "The modifiers '<' (drop one level) and '...' (append to the previous line) change only the position of the block they prefix.",
 ['programs'], "every tree of text, tag, control and hypertag blocks up to the bound, with every choice of indentation characters and widths, blank-line counts and modifiers",
 "the layout tests check some twenty fixed documents; the guarantee is over all nestings and indentations and the absolute/relative indentation arithmetic is stateful",
 [A, D, S, T], [('Grammar.preprocess', A), ('DOM.Node.set_indent/relative_indent/render, add_indent', D), ('State.indent/dedent', S), ('xblock.translate', A), ('Markup._expand newline', T)],
 ['HyperHTML().render', 'translate().dom.render()'],
 [('state.indentation', 'absolute indentation of the block being translated', S)])

prop('C04', 'Names are resolved lexically',
 "A variable or tag reference denotes the nearest preceding declaration in its own block or an enclosing block: an assignment inside a tag's body or a hypertag definition creates a variable local to that body and leaves the outer one unchanged and visible again afterwards, whereas control blocks (if, for, while, try) share the namespace of the block that contains them, so an assignment executed there is seen by later siblings. "
 "Variables and tags live in separate namespaces and never shadow each other. "
 "A reference to a name that is declared nowhere visible is reported as a Hypertag name error before any output is produced, and one that is declared but not assigned on the executed path raises an unbound-local error instead of yielding another variable's value.",
 ['programs', 'inputs'], "every choice of identifiers (so every aliasing pattern between the names used) in every program skeleton up to the bound, with every outcome of the conditions",
 "tests use a few programs with fixed names; the guarantee is over all coincidences of names, nesting patterns and executed branches",
 [A, S], [('Context/MultiDict push, reset, pushnew', S), ('variable.analyse, xvar_def', A), ('control_block._analyse_branches', A), ('xblock_struct/xblock_def analyse', A), ('Slot', S)],
 ['HyperHTML().render', 'translate().symbols'],
 [('Context.lookup', 'symbol -> slot visible at this point of analysis', S), ('State.values', 'slot -> value', S)])

prop('C05', 'Control blocks execute exactly the branches their conditions select',
 "An if/elif/else block renders the body of the first clause whose condition is true, evaluating no later condition, or else the else-body, or nothing; a for block renders its body once per item in order with the targets bound to that item and its else-body exactly when the sequence is empty; a while block repeats its body while the condition is true and renders its else-body exactly when the body never ran. "
 "Side effects happen exactly once per executed block in document order. "
 "All of this holds at every nesting of control blocks in tags, hypertags and other control blocks and regardless of whether bodies are inline text, struct blocks or empty.",
 ['inputs', 'programs'], "all truth values of the conditions, all sequence lengths up to the bound, all values, all nestings up to the bound",
 "tests fix the conditions and sequences; the claim is over all combinations of conditions, lengths and forms of the bodies",
 [A, G], [('xblock_if._select_branch', A), ('xblock_for.translate', A), ('xblock_while.translate', A), ('tail_for/tail_if/clause_else', G)],
 ['HyperHTML().render'])

prop('C06', 'Expressions evaluate like Python under the documented precedence',
 "An expression built from literals, variables, arithmetic, shift, bitwise, comparison, membership, identity and logical operators, parentheses and the conditional evaluates to the value Python gives to the same expression, with the documented deviations only (unary minus binds weaker than * / // % and gives None for None, a missing else of the conditional yields the empty string). "
 "Parenthesised sub-expressions are evaluated first. "
 "Operators accept every operand Python accepts and errors raised by operands propagate.",
 ['inputs', 'programs'], "all integer, boolean and string operand values and all operator sequences up to the bound",
 "tests evaluate some fixed constant expressions; precedence/associativity errors show only for particular operator combinations and operand values",
 [A, G], [('chain_expression / simple_chain_expression', A), ('static_operator.ops', A), ('xarith_expr neg', A), ('xcomparison', A), ('xpow_expr', A), ('expression productions', G)],
 ['HyperHTML().render', "translate().symbols['$r']"])

prop('C07', 'Try blocks and qualifiers contain failures without leaking',
 "A try block renders its first alternative that is translated without an exception (any Exception; external tags run later, when the whole document is rendered, so their failures are not contained) and nothing if all fail; the output of a failed alternative is dropped entirely and it leaves indentation and layout of everything rendered afterwards as if it had not been tried. "
 "An expression marked '?' yields the empty string when it raises or is false and its value otherwise; one marked '!' raises an error when its value is false and yields its value otherwise; the mark applies to exactly the (sub)expression it follows. "
 "Exceptions outside try blocks and '?' expressions always reach the caller of render().",
 ['inputs', 'fault_sequences', 'programs'], "every subset of failing expressions (exception or false value) at every position of nested try/else alternatives, tags and hypertags up to the bound",
 "tests fail at one chosen point; the guarantee quantifies over the point of failure and over the content that has been partly rendered by then",
 [A], [('xblock_try._select_branch', A), ('body.translate restores indentation', A), ('block_text.render finally', A), ('evaluate_with_qualifier', A)],
 ['HyperHTML().render'], [('state.indentation', 'must be restored after a failed alternative', S)])

prop('C08', 'Hypertag attributes bind like Python parameters',
 "When a native hypertag is used, positional values go to its regular attributes left to right, named ones by name, and missing ones take their default, evaluated at each use; inside the definition each attribute name denotes the bound value. "
 "Too many positional values, an unknown name, a name given both positionally and by name, a missing attribute without default, an explicit value for the body attribute, and a non-empty body for a hypertag without body attribute are each reported as a Hypertag error and produce no output; a string attribute given by name several times gets the values joined by spaces. "
 "Calling a tag inside an expression (%H(body, args)) binds in the same way and gives the same text as using it as a block.",
 ['programs', 'inputs'], "all attribute names (every aliasing), values, counts and orders of positional and named values up to the bound",
 "tests call a few hypertags with matching arguments; binding quantifies over all combinations of names and positions",
 [A], [('xblock_def._append_attrs', A), ('xtag_expand._eval_attrs', A), ('EmbeddedHypertag', A), ('xblock_def.setup uniqueness', A)],
 ['HyperHTML().render'])

prop('C09', 'Bodies are passed as DOM and embedded without loss or interference',
 "The body of a hypertag occurrence is translated in the scope of the occurrence and embedded wherever the definition says @body, complete, in order, as many times as it is embedded (zero or more) and at the indentation of the place of embedding, each copy rendering as it would on its own. "
 "Embedding a DOM, a node, a sequence of nodes, or a part of a body selected by index, slice or query inserts exactly those nodes; embedding anything else is an error. "
 "A chain of tags 'a : b : c' nests exactly as the tags written one inside another.",
 ['programs', 'inputs'], "all bodies up to the bound, all numbers and places of embedding, all chains of native, external and built-in tags up to the bound",
 "tests embed each body once or twice in fixed definitions; sharing of nodes between embeddings shows only for certain combinations of body layout and place",
 [A, D], [('xblock_embed', A), ('xblock_def.expand', A), ('DOM.Node.set_indent', D), ('xtags_expand.apply_tags', A)],
 ['HyperHTML().render', 'translate().dom'])

prop('C10', 'DOM traversal and selection return exactly the matching nodes in order',
 "walk() yields every node of a DOM exactly once, parents before (preorder) or after (postorder) their descendants, siblings in order, omitting exactly the subtrees whose root satisfies skip. "
 "select() returns exactly the nodes that satisfy all given constraints (tag object or name, presence or value of attributes) in that order, and indexing a DOM with a number, slice or tag name is consistent with that; nothing is modified. "
 "None of these fails on any node kind, including text nodes and nodes without attributes.",
 ['inputs', 'programs'], "all DOM trees up to the bound, with all assignments of tags, attribute names and values, and all constraints",
 "there is one test for select/skip with one document; the guarantee is over all trees and constraint combinations",
 [D], [('DOM.walk/select/_test/__getitem__', D), ('Node.walk', D)], ['DOM.select, DOM.walk, dom[...] on constructed DOMs and inside scripts'])

prop('C11', 'DOM copying and transformation are exact and isolated',
 "copy() gives a DOM that renders identically and shares no mutable node, node list or attribute container with the original, so any change to one is invisible in the other; skip() returns such a copy without exactly the subtrees whose root matches and leaves the original unmodified. "
 "alter() replaces, in every nested DOM, each child by what the transform returns for it, in order, calling the transform on parents before descendants when order='preorder' and after them when 'postorder', not descending into nodes that satisfy skip, and returns the DOM itself.",
 ['inputs', 'histories'], "all DOM trees up to the bound, all transforms that drop, keep, duplicate or replace nodes, both orders, and all later mutations of either copy",
 "one test skips one tag; isolation and visiting order quantify over all trees and subsequent mutations",
 [D], [('DOM.copy / Node.copy', D), ('DOM.alter / Node.alter', D), ('DOM.skip', D), ('DOM._flatten', D)], ['DOM.copy, DOM.skip, DOM.alter'])

prop('C12', 'Imports and context bring in exactly the named symbols from the right module',
 "'from M import ...' makes each named symbol (renamed with 'as') or, with *, every public symbol of the module available with the value it has in the module, as a variable or tag according to its mark, and 'context ...' does so for the values passed to render(); a missing module, symbol or context entry is an import error. "
 "An absolute path is looked up first by the resolve function, then as a Python package path, then from the current folder, then from the importing script's folder, a relative one only from the importing script's folder, and Python modules when no script is found; the lookup falls through every place where the script does not exist. "
 "Imported hypertags work as in their own module: names inside them refer to that module, and importing the same script twice gives the same module.",
 ['programs', 'configurations', 'inputs'], "all symbol names, renames and orders; all combinations of presence of the script in the candidate places; relative paths of any depth; both script and Python modules",
 "tests import one sample script and one Python module in one configuration; resolution order and fall-through quantify over file-system configurations",
 [R, A], [('HyLoader.load / PyLoader / join_path', R), ('Runtime.import_module', R), ('xname_import/xwild_import/xcntx_import', A), ('ImportedHypertag', A), ('make_context', A)],
 ['HyperHTML(...).render with files in a scratch folder'], [('Loader.cache', 'location -> module', R)])

prop('C13', 'Renderings are independent of history',
 "The result of render() depends only on the script, the context and the imported modules: rendering any scripts before on the same or another HyperHTML instance, successfully or with an error, rendering the same script again, or rendering one translated DOM several times never changes an output. "
 "Objects passed as context are not modified unless the script itself does so. "
 "translate(...).dom.render() equals render(...).",
 ['histories', 'inputs'], "all sequences of renderings (successful and failing) up to the bound over the set of script skeletons, with all values",
 "tests render each document once; leakage between renderings needs particular sequences and values",
 [R, A, D, S], [('Runtime.import_builtins cache', R), ('HypertagAST.translate creates Context and State per run', A), ('Loader.cache', R), ('State', S), ('DOM.Node.render is read-only', D)],
 ['HyperHTML().render / translate in sequence'], [('Runtime._builtins', 'cached built-in symbols', R)])

prop('C14', 'Any Unicode text in a script is reproduced faithfully',
 "Every character other than the line feed, including those the parser uses internally to encode indentation, may occur in any text block, quoted string or comment without affecting parsing, and it is reproduced unchanged (up to escaping) at the same place. "
 "Escape sequences $$, {{ and }} in text produce $, { and }; in verbatim blocks nothing is interpreted. "
 "Trailing whitespace of lines is dropped, all other whitespace inside a line of text is preserved, and sub-indentation of multi-line text is preserved relative to the block.",
 ['inputs', 'programs'], "all Unicode characters at every position of the text holes of the skeletons up to the bound",
 "tests contain ASCII and two fixed special characters; that no character or combination collides with the internal encoding quantifies over all of Unicode",
 [A, G, D], [('Grammar.get_parser chooses unused special characters', A), ('Grammar.preprocess', A), ('block_text.render with get_indent/del_indent', A), ('xescape', A), ('verbatim/text productions', G)],
 ['HyperHTML().render'])

prop('C15', 'Malformed scripts are rejected with the right location',
 "A script that violates the syntax is rejected with a SyntaxErrorEx naming the first line that cannot be parsed, incompatible indentation (tabs against spaces) with an IndentationError naming the line, and Hypertag errors raised while the script is analysed or translated (undefined names and tags, wrong attributes, failed imports, unpacking) name the line and column (and file) where the offending node begins in the original script; errors of external and markup tags, which run when the document is rendered, carry no location. "
 "No malformed script is rendered in part and no well-formed script is rejected. "
 "Blank lines, comments and indentation before the error do not disturb the reported line.",
 ['programs', 'inputs'], "all positions of the offending line among valid lines up to the bound, with all blank-line counts, indentations and nestings before it, and all offending characters",
 "tests check that some errors are raised for a few scripts; the reported location is a function of everything before the error",
 [A, E, P], [('HypertagAST._locate_error bisection', A), ('Grammar.preprocess', A), ('HError.make_msg', E), ('ParserError', P)],
 ['exceptions from HyperHTML().render'])

prop('C16', 'Built-in text filters and tags meet their documented contracts',
 "For every text: unique keeps the first occurrence of each (stripped, non-empty) line in order, merge yields the words separated by single spaces, inline replaces exactly the newlines, dedent removes line indentation (all of it, or the longest common one), lower/upper equal str.lower/str.upper, and crop returns the text unchanged when it fits (length plus leeway) and otherwise a prefix plus the end mark, not longer than the limit, cut at a word boundary unless that drops too much. "
 "As a tag, as a function and as a pipeline filter each gives the same result.",
 ['inputs'], "all strings up to the bound over full Unicode (or the stated alphabet) and all parameter values up to the bound",
 "tests try one or two strings each; boundary behaviour (empty text, only whitespace, limits equal to lengths) quantifies over all strings and limits",
 [B, D, U], [('unique, merge, inline, dedent, lower, upper, crop', B), ('del_indent/get_indent', D), ('unique/merge_spaces', U)],
 ['hypertag.builtins functions', 'tags and filters in scripts'])

prop('C17', 'The Django backend renders what HyperHTML renders',
 "A template obtained from the Django backend, from a string or a file, renders to exactly what HyperHTML renders for the same script and the entries of the given context, with request, csrf_input and csrf_token added when a request is given and __file__ set for file templates unless the context has its own. "
 "Templates are looked up in the configured directories in order and a missing one raises TemplateDoesNotExist. "
 "Rendering does not depend on templates rendered before.",
 ['inputs', 'configurations', 'histories'], "all context values, with and without request, all directory configurations up to the bound, template names and sequences of renderings",
 "no test covers the backend",
 [DJ], [('Template.render', DJ), ('Hypertag.get_template/from_string', DJ)], ['hypertag.django.backend.Hypertag'])

prop('C18', 'Literals denote the values Python gives them',
 "Integer and float literals, True, False, None, and string literals in single or double quotes that Python accepts evaluate to the value of the same Python literal, with $, {...} and $$ {{ }} in formatted strings treated as embeddings and escapes and Python escape sequences decoded; raw strings (r'...') are taken literally. "
 "List, tuple, set and dict displays, with or without trailing comma, evaluate to the corresponding collections in order; string expressions placed side by side are concatenated.",
 ['inputs', 'programs'], "all characters at all positions of string literals, all digit sequences up to the bound, and all collection displays up to the bound",
 "tests use a few literals; decoding quantifies over all characters and escape sequences",
 [A, G], [('decode_escapes', A), ('xnumber/xboolean/xnone/xstring_raw/xstring_format', A), ('xlist/xtuple/xset/xdict/xconcat_expr', A), ('literal productions', G)],
 ['HyperHTML().render', "translate().symbols['$r']"])

prop('C19', 'Comments, pass and null tags have no effect on the result',
 "Inserting a comment line or block (# or --), an end-of-line comment, a 'pass' or wrapping a block in the null tag '.' at any place where a block may stand (in the prolog, before the last context block, only comments may) changes nothing in the output apart from the layout the construct itself documents (comments disappear, null keeps its body in place). "
 "Whatever a comment contains, including tag syntax, expressions and indented continuation lines, is never executed, evaluated or printed. "
 "The comment tag, in contrast, renders its body between <!-- and -->.",
 ['programs', 'inputs'], "all comment texts up to the bound and all insertion points of the program skeletons",
 "tests contain a few comments at fixed places",
 [A, G, H, T], [('xblock_comment', A), ('inline_comment ignored in rewriting', A), ('xpass/xnull', A), ('Null.expand', T), ('comment tag', H)],
 ['HyperHTML().render'])

prop('C20', 'Calls, pipelines, indexing and member access behave like Python',
 "f(args), obj[i], obj[i:j:k] and obj.member inside expressions pass exactly the given positional and named arguments, in order, to the Python object and give its result; x : f(a, b) calls f(x, a, b), x : f calls f(x), and a chain applies left to right. "
 "Operands, arguments and conditions are evaluated at most once each, left to right, and the right operand of 'and'/'or', the unselected branches of a conditional and anything after a failing operand are not evaluated at all.",
 ['inputs', 'programs'], "all argument values and counts up to the bound, all truth values of operands, all index and slice values within the bound, all chains up to the bound",
 "tests call a few functions; order, multiplicity and laziness of evaluation are visible only with side effects and particular truth values",
 [A], [('xcall/xpartial_call/partial', A), ('xindex/xmember', A), ('xpipeline', A), ('xand_test/xor_test/xifelse_test', A)],
 ['HyperHTML().render with recording functions in the context'])

prop('C21', 'The symbol stack restores bindings exactly',
 "After any sequence of push, pop, pushall, pushnew and reset operations, looking up a name in the symbol table (by index, get, membership, items) gives the most recently pushed binding that is still on the stack, or none; reset(position()) undoes exactly the pushes made since, and pop returns the last binding. "
 "A copy is unaffected by later operations on the original and vice versa.",
 ['histories', 'inputs'], "all sequences of operations up to the bound with all names (every aliasing) and values",
 "one doctest runs one sequence; the guarantee is over all histories and coincidences of names",
 [S], [('MultiDict.push/pop/reset/pushnew/asdict/copy', S)], ['hypertag.core.structs.MultiDict'], [('lookup/stack', 'index of the latest binding; linked list of previous bindings', S)])

prop('C22', 'Tags produce well-formed elements around exactly their body',
 "A non-void markup tag renders as <name attrs>body</name> with its body unchanged inside and the closing tag present exactly once; a void tag renders as <name attrs /> and rejects any non-empty body with a Hypertag error; names come out as the tag was declared. "
 "Markup tags reject positional attributes (custom takes exactly one, the element name). "
 "An external tag function receives the rendered body as its first argument followed by exactly the positional and named attributes given, or the DOM itself if registered so, and its return value is inserted as is.",
 ['inputs', 'programs'], "all bodies, attributes, tag kinds (built-in void and non-void, custom, user Markup, TagFunction, Tag subclass) and chains up to the bound",
 "tests render some tags with fixed bodies; void handling, empty bodies and argument passing quantify over bodies and attributes",
 [T, H, RG, A], [('Markup.expand/_expand', T), ('TagFunction.expand', T), ('CustomTag', H), ('Registry.tag', RG), ('xtag_expand.translate_tag', A)],
 ['HyperHTML().render', 'Tag.__call__'])

prop('C23', 'Assignments bind exactly their targets',
 "An assignment evaluates its right side once and binds it to the target; with several targets (nested, with or without parentheses or trailing comma) it unpacks the value like Python, item by item, and reports an error when the numbers differ, also for loop targets. "
 "An augmented assignment (+= -= *= /= //= %= <<= >>= &= |= ^=) gives the target the value of the corresponding binary operation of its current value and the right side; other names of the old value keep seeing it unchanged. "
 "No other variable changes, and top-level bindings are the script's output symbols.",
 ['inputs', 'programs'], "all values, target shapes up to the bound, lengths of the unpacked value, and operators",
 "tests contain a few assignments; unpacking errors and operator mapping need particular shapes and values",
 [A, G], [('xblock_assign', A), ('xtargets.assign', A), ('xvar_def', A), ('op_inplace', G)],
 ['HyperHTML().translate(...).symbols', 'HyperHTML().render'])

prop('C24', 'Iteration helpers cycle and changes produce the documented streams',
 "changes(seq) yields each item of seq in order paired with whether it differs from the previous item (and with 'first' for the first one); cycle(...) yields tuples taking one item from each sequence, repeating exhausted sequences, and stops after the length of the first (default), of the longest, or never, as requested. "
 "Both accept any iterable and give empty streams for empty input.",
 ['inputs'], "all sequences of values (every pattern of equal neighbours) and all lengths up to the bound, all stop modes",
 "no test covers cycle; changes is run on one list",
 [B], [('cycle', B), ('changes', B)], ['hypertag.builtins.cycle/changes', 'for loops in scripts'])

prop('C25', 'The document object model mirrors the document',
 "translate() yields a Root whose nodes mirror the document: exactly one node for every executed occurrence of a tag (every tag of a chain, the null tag and each use of a hypertag included) in document order under the node of the tag it lies in, and one text node for every executed text block; control blocks, definitions, assignments, imports and comments leave no nodes of their own, repeated and selected branches appear as they are executed, failed alternatives do not appear, blank lines are margin texts. "
 "A node carries the very tag object its name stands for and the very attribute values given: positional ones of external tags in attrs, those of hypertags under the declared names, named ones, class and id shortcuts in kwattrs in the order given, nothing else. tree() prints exactly those nodes and rendering the DOM gives the output of render().",
 ['programs', 'inputs'], "every kind of block in every kind of enclosing block up to the bound, all texts and attribute values up to the bound",
 "the tests compare rendered text only, of a few documents; nodes that render to nothing and attributes that a tag ignores are never seen",
 [A, D], [('NODES.xblock_struct.translate / _translate_body', A), ('NODES.xblock_def.expand / _append_attrs', A), ('DOM.Node, DOM.Root, DOM.Text, tree()', D), ('xtext blocks, margins', A)], ['translate().dom', 'DOM.tree()', 'DOM.Root.render()'])

prop('C26', 'A runtime behaves as its configuration says',
 "The escape function of a Runtime (or subclass) is applied exactly once to the content of every executed plain-text block, embedded values included, of the script and of its modules alike, and to nothing else; without one text is not changed. The built-in symbols are those of the modules listed in BUILTINS, later ones overriding earlier ones, and any declaration of the script overrides them. Loaders, given as classes or instances, are asked in the order of the list, and the first one that has a module provides it; ModuleNotFoundEx is raised if there is none; a loader of the base class reads each location once. "
 "Every script and module sees its own __file__ and __package__, None if not given. Runtimes share no loaders made from classes, no modules and no built-in symbols.",
 ['inputs', 'programs', 'configurations', 'histories'], "all texts and values up to the bound at every kind of place, all aliasing of names among built-in, declared and used symbols, every distribution of modules over loaders",
 "the tests use one runtime class with default loaders",
 [R, A], [('Runtime.import_builtins', R), ('Runtime.import_module', R), ('Loader.load', R), ('Runtime.translate', R), ('xblock_text escape', A)], ['Runtime subclasses: render(), translate(), loaders'])

for p in props:
    assert len(p['title']) <= 80, p['id']
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in props: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(props))
