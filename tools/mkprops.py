#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long records stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or [], hook_needed=hook)))

prop("C01", "Concurrent renders of shared templates are isolated and exact",
 "When any number of callers render the same shared node trees at the same time, each with its own context and writer, every caller's writer receives exactly the markup its tree declares for its own data: the elements, merged attributes, escaped values, conditionals, iterations and imperative output of a render that ran alone. No byte of one caller's data ever appears in another caller's output, and the library makes no unsynchronised conflicting access to memory shared between renders.",
 ["schedules", "programs", "inputs"],
 "every interleaving (down to single statements of the library) of 2..5 renders over every tree built from the public node types and every per-render data map",
 "No existing test renders from more than one goroutine; each test renders one fixed tree once into one buffer, so state shared between renders (a scratch buffer, a cached evaluation, an append into a shared backing array) is never seen.",
 ["aitch.go", "element.go", "attribute.go", "value.go", "text.go", "comment.go", "pi.go", "fragment.go", "collection.go", "conditional.go", "iterate.go", "imperative.go", "html/document.go", "context/context.go"],
 [("all per-render state lives in the Context or on the stack", "every Render method"), ("scratch delimitedAttribute is local to one renderAttributes call", "element.go renderAttributes"), ("imperativeContext allocated per Render", "imperative.go imperative.Render"), ("iteration context allocated per Render", "iterate.go")],
 [("node tree", "immutable after construction, shared by every render", "element.go, attribute.go, text.go"), ("Context", "owned by one render", "context/context.go")],
 ["bytes received by each context's io.Writer", "returned error", "race detector (memory accesses under simulated schedules)"])

prop("C02", "After the first failure nothing more is written",
 "Once a write to the context's writer fails (error, short write), or a user callback or custom node reports an error, that render hands nothing more to the writer, even if the writer would accept it again. What the writer accepted up to then is exactly a leading part of the fault-free output, cut at the point of failure.",
 ["fault_sequences", "programs"],
 "every position of a failing write (before, inside or after the bytes of any write call; transient or permanent), every position of a reported callback error, over every tree and every node type, including templates",
 "The existing tests use one writer that fails on every call and look only at the returned error; they never let the writer recover, fail at a later write, or compare what was delivered with a prefix.",
 ["context/context.go", "value.go", "element.go", "attribute.go", "collection.go", "conditional.go", "iterate.go", "imperative.go", "template.go", "html/document.go"],
 [("Context.Write is a no-op once Context.Error is set", "context/context.go Context.Write"), ("values check Context.Error before writing", "value.go Value.render")],
 [("Context.Error", "first error met by this render", "context/context.go")],
 ["sequence of Write calls and their results at the context's writer"])

prop("C03", "No failure is swallowed: the first error is what Render reports",
 "If any write fails or any callback or custom node reports an error while a tree is rendered, Render returns a non-nil error and the context's Error is set, both to the error that happened first, whatever node the failure struck in and whatever rendered after it. If nothing failed, Render returns nil, the context's Error is nil and the whole output was delivered.",
 ["fault_sequences", "programs"],
 "every single fault and every sequence of faults (write errors, short writes, full writes with an error, imperative errors, errors set on the context, custom node errors) at every position in every tree",
 "The existing tests fail every write, so the last error always looks like the first; a transient failure followed by successful writes, or a failure followed by a node that returns nil, is never produced.",
 ["context/context.go", "value.go", "element.go", "collection.go", "conditional.go", "iterate.go", "imperative.go", "html/document.go", "template.go"],
 [("errors propagate through Context.Error and the Render result", "every Render method"), ("iteration copies the child context's error to the parent", "iterate.go")],
 [("Context.Error", "the first encountered error", "context/context.go")],
 ["error returned by Render / Execute", "Context.Error after the call"])

prop("C04", "An aborted render leaves no trace in the shared tree",
 "If a render is cut off at any point, by a failing writer, a reported error, or a panic raised by the writer or by a user callback, then later and concurrent renders of the same trees through other contexts still deliver exactly their declared output, no lock or resource stays held, and a panic reaches the caller unchanged. A callback that recovers from a panic of something it rendered may go on with the same context.",
 ["crash_points", "schedules", "histories"],
 "every abort point (before, in or after any write; in any callback) of any render, in any history of further and concurrent renders of the same trees",
 "No existing test renders a tree again after a failed or panicking render, or lets a callback panic at all.",
 ["element.go", "value.go", "conditional.go", "iterate.go", "imperative.go", "collection.go", "template.go"],
 [("no state of a render is kept in nodes", "every Render method"), ("imperative element stack is per invocation", "imperative.go imperativeContext")],
 [("node tree", "must not be left half-updated", "element.go"), ("imperativeContext.openedStack", "open elements of one invocation", "imperative.go")],
 ["output and error of renders after and during the aborted one", "panic value seen by the caller"])

prop("C05", "Composing a node never changes what it, or any other tree, renders",
 "Nodes, values and argument slices may be reused freely: placing the same attribute, value, element or collection into any number of elements, in any order and from any number of concurrently building callers, never changes what the reused node or any tree built before or after renders. The library never writes into a slice the caller passed in or into bytes it handed out earlier, and what a node renders does not depend on what becomes of a slice of arguments, contents or nodes once the constructor has returned.",
 ["histories", "schedules", "programs"],
 "every history and interleaving of tree constructions over shared component nodes and shared argument slices (with and without spare capacity)",
 "Existing tests build each node once from literals and use it in one place; no test shares a component between two elements or spreads a slice with spare capacity.",
 ["element.go", "attribute.go", "value.go", "imperative.go", "css/units.go", "css/properties.go", "text.go", "collection.go", "conditional.go"],
 [("merging of repeated delimited attributes at construction", "element.go addAttributes (both)"), ("conditions accumulated for nested conditionals", "element.go attributesAndContents"), ("css units append their suffix to the arguments", "css/units.go")],
 [("delimitedAttribute.values", "values of an attribute node the caller may share", "attribute.go"), ("caller's argument slice", "backing array owned by the caller", "css/units.go")],
 ["output of every tree that shares a component, before and after other constructions", "caller's slices after the call"])

prop("C06", "The same tree and data always give the same bytes, in declared order",
 "Rendering a tree with equal data delivers identical bytes every time, in every process, whatever was rendered before or is rendering alongside. Attributes appear in the order in which they were first declared, with attributes contributed only by conditions after them in declaration order.",
 ["histories", "schedules", "programs"],
 "every map iteration order, every history of earlier renders and every interleaving, over trees with repeated, delimited and conditional attributes and maps passed to helpers",
 "Tests render each tree once; an order that differs from run to run passes whenever the sampled order is the expected one (the one test with two attributes and a condition accepts whatever order its tiny map happens to give).",
 ["element.go", "conditional.go", "htmx/attributes.go", "imperative.go"],
 [("attributes are kept in a slice in first-declared order", "element.go addAttributes"), ("conditional attributes are grouped by name at render", "element.go renderAttributes, conditional.go evaluate"), ("header map keys are sorted", "htmx/attributes.go HeadersMap.serialize")],
 [("attIndices / evaluated", "Go maps whose iteration order is random", "element.go, conditional.go")],
 ["bytes received by the writer over repeated renders"])

prop("C07", "Conditions are judged afresh by each render, in its own context",
 "A node or attribute placed inside conditions appears in a render exactly when every condition that encloses it holds for the context of that render (inside an iteration: of that item) at that time; sibling and cousin conditions never influence it. No outcome is carried over from an earlier render, another concurrent render or another item, however often the data flips in between.",
 ["histories", "schedules", "programs"],
 "every nesting of conditions over elements, void elements, collections and iterations, and every history and interleaving of renders with changing condition values",
 "The existing cases use constant conditions nested at most four deep, one render each (one test flips a variable between two renders of a bare condition); concurrent renders with different data and siblings below three levels never occur.",
 ["conditional.go", "element.go", "iterate.go"],
 [("condition functions are called with the current context", "conditional.go Render, evaluate"), ("enclosing conditions are collected at construction", "element.go attributesAndContents"), ("When looks up Context.Data", "conditional.go When")],
 [("conditionalAttribute.conditions", "the enclosing conditions of an attribute", "conditional.go")],
 ["presence of each conditional node and attribute in the output of each render"])

prop("C08", "Iteration scopes each item to itself and restores the outer context",
 "While the nodes of an iteration are rendered for an item, the context's Cargo is that item, its Data is the item when the item is a map[string]any and otherwise the Data of the enclosing context, and Parent is the enclosing context; nothing of an earlier item, of a nested iteration or of a concurrent render is visible. After the iteration, completed or cut short by a failure or a panic, the enclosing context has its own Data, Cargo, Parent and Writer, and the failure.",
 ["histories", "schedules", "fault_sequences"],
 "every sequence of items (maps, scalars, nil, mixed, empty) for all three iteration forms, nested to any depth, with interleaved renders and failures at any item",
 "Tests iterate over one homogeneous list of three items per form; mixed item kinds, nesting, failures in the middle and concurrent iteration of one tree are not exercised.",
 ["iterate.go", "context/context.go", "value.go"],
 [("a child context per Render", "iterate.go iterator.Render, yieldIterator.Render"), ("Cargo/Data assigned per item", "iterate.go")],
 [("child Context", "Cargo, Data, Parent, Error of the current item", "iterate.go")],
 ["context fields seen by callbacks for each item", "rendered values of '.' and keys", "outer context after Render"])

prop("C09", "Each imperative invocation keeps its own element stack",
 "Within one invocation of an imperative function, End closes the most recently started element still open in that invocation and EndAll closes all of them in reverse order; elements started as void are never on the stack and extra End calls write nothing. Neither concurrent renders of the same node, nested imperative nodes, iterations, nor invocations that were aborted with elements still open ever affect which elements another invocation closes or which attributes it writes.",
 ["schedules", "histories", "programs"],
 "every sequence of Start/End/EndAll/Write operations, every nesting and every interleaving of invocations of shared imperative nodes, including aborted ones",
 "The existing table runs one fixed sequence per case on a fresh stack and never runs two invocations of one node, concurrently or after an abort.",
 ["imperative.go"],
 [("stack of opened names in a per-invocation object", "imperative.go imperativeContext.openedStack"), ("attribute merging into local slices", "imperative.go Start")],
 [("openedStack", "elements started and not yet ended", "imperative.go")],
 ["markup written by each invocation"])

prop("C10", "A shared Template may be executed in parallel and under faults",
 "Concurrent Execute calls on one Template each deliver to their own writer exactly the template text with every marker replaced by what its node renders for that call's data and cargo. A failure of the writer or of a node stops that execution, is returned to its caller as (or wrapping) the first error, is followed by no further write, and affects no other execution. What a template renders does not depend on what becomes of the node map once it has been made.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of 2..4 executions of shared templates (including the first execution of a template), every fault position in the text or in a node",
 "The one existing test executes sequentially into a buffer that cannot fail.",
 ["template.go", "context/context.go", "value.go"],
 [("a fresh Context per Execute", "template.go Template.Execute"), ("nodes are bound as template functions that render to the context's writer and return the error", "template.go contextFunc")],
 [("Template.template", "shared parsed template", "template.go")],
 ["bytes at each writer", "error returned by Execute"])

prop("C11", "Code generation does not depend on how its input arrives",
 "For the same input bytes, the HTML and SVG code generators emit the same code however the reader delivers them: in any chunking, with empty reads, with the last bytes and the end of input together or apart, and whatever other generations run at the same time. If the reader fails, that error is returned and the code emitted is exactly what the delivered input calls for, without the closing of the generated expression.",
 ["schedules", "fault_sequences", "inputs"],
 "every chunking of the input, every read-error position, every interleaving of concurrent generations",
 "The existing tests read one fixed document from an in-memory reader in one piece and never fail a read.",
 ["html/generator.go", "svg/generator.go"],
 [("token loop over a streaming tokenizer", "html/generator.go GenerateCode, svg/generator.go GenerateCode"), ("name tables built per call", "html/generator.go mappings, svg/generator.go mappings")],
 [("indent, err, eof", "generator state, local to one call", "html/generator.go, svg/generator.go")],
 ["bytes at the output writer", "error returned by GenerateCode"])

prop("C12", "Code generation reports write failures and stops at them",
 "If any write of generated code fails or is short, the HTML and SVG code generators return that first error and write nothing afterwards, and what was accepted is exactly a leading part of the fault-free code. They return nil only if all of the code was delivered.",
 ["fault_sequences"],
 "every write at which the output can fail (transient or permanent; nothing, part or all of the bytes accepted), alone or together with read failures, for every input",
 "The existing tests write to a buffer that cannot fail.",
 ["html/generator.go", "svg/generator.go"],
 [("write errors recorded and checked by the token loop", "html/generator.go write, writeElementStart; svg/generator.go write, writeElementStart")],
 [("err", "first failure of the call", "html/generator.go, svg/generator.go")],
 ["Write calls and results at the output writer", "error returned by GenerateCode"])

prop("C13", "Dynamic parts are evaluated exactly once, in order, as output streams",
 "In a render that does not fail, every reached dynamic value (including functions and Stringers found in the data), iteration source, content collector, imperative function and custom node is invoked exactly once (once per item inside an iteration), in document order; in one that fails, each at most once and in that order. When it is invoked, all output that precedes the innermost node containing it has already been handed to the writer and none that follows it has, so output streams rather than being withheld until the end; and when control returns to a callback from yielding an item, or from writing through an imperative or rendering context, what it yielded or wrote has been rendered completely.",
 ["schedules", "histories", "fault_sequences", "programs"],
 "every tree, interleaving and fault position; counters and identifiers taken by callbacks with side effects",
 "One README example has side-effecting values, no test counts invocations, and no test looks at what the writer holds when a callback runs.",
 ["value.go", "element.go", "iterate.go", "imperative.go", "collection.go", "conditional.go", "text.go", "comment.go", "fragment.go"],
 [("values are called at the point of writing", "value.go Value.render"), ("no output buffer between nodes and the writer", "context/context.go Context.Write")],
 [("position in the output stream", "bytes accepted so far", "context writer")],
 ["order and count of callback invocations against bytes received by the writer"])

prop("C14", "Context lookups have no memory and never fail the render",
 "A typed lookup (Get) returns the entry of the given context's own Data if it exists with the requested type, else the string-keyed map entry or exported struct field of its Cargo (also through a pointer) with that type, else the zero value and false, and it never panics; MustGet returns the same value or panics with the key. The result depends only on that context and key at the time of the call, never on earlier or concurrent lookups through other contexts, types or keys.",
 ["histories", "schedules", "inputs"],
 "every history and interleaving of lookups over contexts with all shapes of Data and Cargo (nil, maps with plain or named string keys, structs with exported, unexported and promoted fields, nil and non-nil pointers)",
 "The existing tests make a handful of lookups on fresh contexts, one after another, with three cargo shapes.",
 ["context/context.go"],
 [("reflection over Cargo per call, nothing cached", "context/context.go Get"), ("MustGet wraps Get", "context/context.go MustGet")],
 [("Data, Cargo", "inputs of a lookup", "context/context.go")],
 ["results of Get and MustGet"])

prop("C15", "Rendering and generation always finish; failure cuts them short",
 "Every render, template execution and code generation completes within an amount of work proportional to the tree, items and input it covers, under every fault and interleaving: no failing, stalled or short-writing writer, unproductive reader or aborted neighbour makes it loop, retry for ever or deadlock. Once a render has failed, an iteration starts no further item, and no further iteration starts.",
 ["schedules", "fault_sequences"],
 "every interleaving and fault sequence, including permanently failing writers, readers that return nothing, and neighbours that panic in the middle of a render; progress measured in simulated steps",
 "Tests use writers that succeed at once or fail at once, readers that never stall, and never count work after a failure.",
 ["iterate.go", "element.go", "context/context.go", "value.go", "html/generator.go", "svg/generator.go", "template.go"],
 [("no retries; iteration returns at the first error", "iterate.go iterator.Render, yieldIterator.Render"), ("generator loop ends at EOF or error", "html/generator.go, svg/generator.go")],
 [("Context.Error", "ends iteration", "iterate.go")],
 ["simulated steps until each operation returns", "callbacks of items after a failure"])

prop("C16", "Named helpers build independent nodes, whoever builds what when",
 "Each helper of the html, svg, css and htmx packages yields a node with that helper's own markup name and exactly the values passed to it (including names composed at run time: data-, aria-, hx-on:, css properties and units, header maps), and keeps rendering so. Calls before, after or concurrent with it, of the same or any other helper, never alter it.",
 ["histories", "schedules", "inputs"],
 "every history and interleaving of helper calls from several callers, with composed names of all lengths, followed by renders of all nodes built",
 "Each helper has one test that builds and renders one node; nodes are never kept while further ones are built, and never built concurrently.",
 ["html/elements.go", "html/attributes.go", "svg/elements.go", "svg/attributes.go", "css/properties.go", "css/units.go", "htmx/attributes.go", "attribute.go", "text.go"],
 [("names are package-level byte slices that must never be written", "html/attributes.go, svg/attributes.go, htmx/attributes.go"), ("composed names are built by append", "html/attributes.go Aria, Data; htmx/attributes.go On")],
 [("attrAria, attrData, attrOn, unit suffixes", "package-level byte slices shared by every caller", "html/attributes.go, htmx/attributes.go, css/units.go")],
 ["output of each node, rendered after all constructions"])

prop("C17", "A context carries one output stream and its first error to the end",
 "Rendering several trees one after another through the same context delivers their outputs in that order, each as if rendered alone with that context's data at that time. Once the context has an error, however it arose, every later render through it writes nothing, invokes no dynamic value, starts no iteration and returns that same error, while other contexts sharing the trees are unaffected.",
 ["histories", "fault_sequences", "schedules"],
 "every sequence of renders through one context with data changed between them, with a failure at any point of any of them, alongside renders through other contexts",
 "Apart from two iteration tests that start from an errored context, every test makes a fresh context for each render.",
 ["context/context.go", "value.go", "element.go", "collection.go", "conditional.go", "iterate.go", "imperative.go", "html/document.go"],
 [("Context.Error is sticky", "context/context.go Context.Write; value.go Value.render")],
 [("Context.Error", "first error of the stream", "context/context.go")],
 ["bytes at the writer over the sequence", "errors returned by each render"])

prop("C18", "String data is always escaped",
 "A string supplied as text, attribute value, dynamic value or imperative text never introduces markup: the characters & < > \" ' are written as references and NUL is dropped, and all other bytes are written unchanged.",
 ["inputs"], "every string",
 "Two fixed strings are tested.",
 ["value.go", "imperative.go"],
 [("htmlEscapeString", "value.go")], None, ["bytes written for a string"])
prop("C19", "Names are checked when markup is named at run time",
 "Constructors that take element or attribute names as strings refuse every name that could break out of a tag: they return nil, or panic when so configured, and accept exactly the names that start with a letter and continue with letters, digits, dot, underscore, hyphen or colon.",
 ["inputs", "configurations"], "every name, both settings of the panic switch",
 "One bad name is tested.",
 ["aitch.go", "element.go", "attribute.go"],
 [("htmlTagRegex", "aitch.go")], None, ["nil / panic / node returned"])
prop("C20", "Scalar values are formatted exactly",
 "Booleans, integers of every width, and floats render as their shortest exact decimal form, so that parsing the output gives the value back.",
 ["inputs"], "every value of every supported type",
 "One value per type is tested.",
 ["value.go"], [("valueToBytes", "value.go")], None, ["bytes written for a value"])
prop("C21", "Generated code rebuilds the markup it was generated from",
 "The code emitted for well-formed markup compiles and, when run, renders markup equivalent to the input, up to insignificant white space and letter case of names.",
 ["inputs", "programs"], "every well-formed document",
 "Two fixed documents are compared with fixed text; the code is never compiled.",
 ["html/generator.go", "svg/generator.go"], [("token loop and name tables", "html/generator.go, svg/generator.go")], None, ["emitted code"])
prop("C22", "Static trees render without allocating",
 "Rendering a tree without dynamic parts performs no heap allocation per render.",
 ["programs"], "every static tree",
 "Only benchmarks, which assert nothing.",
 ["value.go", "element.go", "context/context.go"], [("bytes prepared at construction", "value.go newValue")], None, ["allocations per render"])

prop("C23", "Rendering only reads what the caller owns",
 "No render, template execution or template construction ever modifies what the caller supplied: the context's Data map, its Cargo, the list and the items of an iteration (including spare capacity), byte slices returned by functions or found in the data, the node map of a template. Nor does it close the writer it writes to or the reader it reads from. This holds at every moment and for every outcome, failed and aborted ones included, so several contexts may share one Data map and Cargo while they are rendered at the same time. Only the user's own callbacks change them.",
 ["schedules", "histories", "fault_sequences", "programs"],
 "every tree, data and cargo shape, every interleaving of renders whose contexts share their Data and Cargo, every fault position",
 "No existing test looks at Data, Cargo or items after a render, or shares them between contexts; a temporary change that is undone before the render returns is only visible to a concurrent render or a callback.",
 ["iterate.go", "context/context.go", "value.go", "conditional.go", "imperative.go", "template.go"],
 [("Data and Cargo are assigned to the child context, never written through", "iterate.go"), ("values are read from Data by key", "value.go"), ("conditions look up Context.Data", "conditional.go When")],
 [("Context.Data, Context.Cargo", "the caller's own values", "context/context.go")],
 ["deep comparison of everything the caller owns, after the run", "Data as seen by callbacks", "race detector on shared Data"])

prop("C24", "A render is over when it returns, and does one thing at a time",
 "When Render, Execute or GenerateCode returns or panics, in whatever way it ends, nothing it started goes on: nothing more is written to the writer or read from the reader on its behalf, no callback is invoked, and nothing is left waiting for ever. Until then it never enters the writer, the reader or a callback of the user from two places at once, so none of them has to be safe for concurrent use.",
 ["schedules", "fault_sequences", "histories"],
 "every tree, template and input, every interleaving with other callers, every fault position (a failing, stalling or panicking writer, reader or callback), long histories of failing operations",
 "The existing tests check results when the call returns and never look at what happens afterwards, nor at whether calls to the writer and callbacks overlap.",
 ["aitch.go", "element.go", "collection.go", "iterate.go", "imperative.go", "template.go", "context/context.go", "html/generator.go", "svg/generator.go"],
 [("everything happens on the caller's goroutine", "every Render method; html/generator.go, svg/generator.go GenerateCode")],
 [("Context", "used by one render at a time", "context/context.go")],
 ["calls at writer, reader and callbacks after the return", "overlapping calls", "goroutines of the library left at the end of a run"])

prop("C25", "The library keeps nothing of what its callers have let go of",
 "However many renders, template executions, code generations, typed lookups and constructions of trees and templates there have been, with whatever contents and outcome (completed, failed, aborted by a panic) and in whatever interleaving: once the callers have dropped their contexts, data, cargo, writers, readers and trees, the memory the library holds on to is bounded, independent of how many operations there were. This also holds for a tree or template that lives on and is rendered again and again. Nor does an operation take longer because of those that went before it.",
 ["histories", "fault_sequences", "schedules", "programs"],
 "every sequence of operations, with contents that are new each time, every fault position, every interleaving; at most a bounded amount may be kept (a cache of limited size, something per tree, per name or per type)",
 "Each existing test carries out a handful of operations and none looks at memory afterwards.",
 ["value.go", "element.go", "conditional.go", "iterate.go", "imperative.go", "template.go", "context/context.go", "html/generator.go", "svg/generator.go"],
 [("a render keeps its state in the context and on the stack", "every Render method; context/context.go"), ("open elements and tokens belong to one call", "imperative.go imperativeContext; html/generator.go, svg/generator.go GenerateCode")],
 [("nodes", "immutable once constructed", "element.go, conditional.go, iterate.go, value.go")],
 ["heap objects and bytes in use after garbage collection, round after round", "steps per round"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
