"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
S = "src/fastforward/"
def p(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=[S + f for f in files],
                     mechanism=[dict(name=n, where=S + w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "Affine quantization puts every element on its own tile's integer grid",
  """Quantizing any tensor with scale s, offset o and b bits stores, for every element, the integer
  clamp(round(x/s - round(o)), -2^(b-1), 2^(b-1)-1) (ties to even, missing offset is 0) using the parameters of
  exactly the tile the element lies in, and dequantizing gives (code + round(o)) * s in the original shape and dtype.
  Dequantized values are fixed points of quantize-dequantize, and a storage dtype that cannot hold b bits is refused rather than silently wrapped.""",
  ["inputs", "configurations"],
  "All data, scales, offsets, bit widths 1..8(+), granularities (per tensor, channel(s), block, tile) and shapes.",
  "Tests sample a few shapes and compare against a re-implementation; off-grid values, ties, clipping corners and multi-axis granularities are an infinite input space.",
  ["quantization/_quantizer_impl.py", "quantization/affine/function.py", "quantization/affine/static.py", "quantization/tiled_tensor.py", "nn/linear_quantizer.py"],
  [("quantize_by_tile / dequantize_by_tile", "quantization/_quantizer_impl.py"), ("StaticAffineQuantParams", "quantization/affine/static.py")],
  ["raw_data and dequantize() of quantize_affine / LinearQuantizer results"])

p("C02", "Gradients through quantization are straight-through inside the clip range",
  """Differentiating quantize-then-dequantize passes the output gradient unchanged to every element whose rounded code lies inside the b-bit range and zero to
  every clipped element. The scale gradient of a tile is the sum over its elements of grad*(code-unrounded code) inside and grad*(clip bound + round(offset)) outside the range,
  and the offset gradient is the sum of grad*scale over its clipped elements. Elements inside the clip range of dynamically determined parameters receive their output
  gradient unchanged too, as do the inputs of functions wrapped as straight-through estimators.""",
  ["inputs", "configurations"],
  "All data, output gradients, scales, offsets, bit widths and tilings.",
  "Tests check a handful of tensors; the clip boundary and per-tile accumulation interact with every shape/granularity/gradient combination.",
  ["quantization/_quantizer_impl.py", "quantization/ste.py", "quantization/affine/function.py"],
  [("quantize_by_tile_backward", "quantization/_quantizer_impl.py")], ["autograd gradients of data, scale and offset"])

p("C03", "Tiling is a bijection that groups exactly the elements of one tile per row",
  """For every shape and every tile that divides it, splitting a tensor into tile rows and reassembling is the identity (both ways), row r
  holds exactly the elements of the r-th tile in row-major tile order, and tiles not dividing the shape are refused.
  Every granularity resolves to a tile whose number of tiles equals the number of quantization parameters it announces for the shape, and
  granularities compare equal exactly when their settings are equal.""",
  ["inputs", "configurations"],
  "All shapes, tile sizes and granularities (including negative axes, multiple channels, blocks).",
  "Tests cover a fixed list of shapes; reshape/permute index arithmetic can be right on square or low-rank samples and wrong elsewhere.",
  ["quantization/tiled_tensor.py", "quantization/granularity.py"],
  [("tiles_to_rows / rows_to_tiles", "quantization/tiled_tensor.py"), ("Granularity.tile_size", "quantization/granularity.py")])

p("C04", "Quantization parameters derived from a range represent that range",
  """For any per-tile range (min<=max) and bit width, the derived scale is positive and the representable interval covers the range up to half a step: asymmetric
  parameters span exactly max-min over 2^b-1 steps and keep the range's lower end at the lowest code, symmetric parameters use a grid
  centred on zero wide enough for max(|min|,|max|), and one-sided symmetric parameters are used only when permitted and no range is negative.
  Setting a quantizer's range and reading it back returns the range its parameters represent, and dynamic quantization uses exactly the parameters of the observed tile ranges.""",
  ["inputs", "configurations"],
  "All ranges (positive, negative, straddling, degenerate), bit widths, symmetric/one-sided choices, granularities.",
  "Tests pin a few ranges; the formula has mode-dependent corner cases that only appear for particular sign patterns across tiles.",
  ["quantization/affine/function.py", "quantization/affine/__init__.py", "nn/linear_quantizer.py", "nn/dynamic_linear_quantizer.py"],
  [("parameters_for_range", "quantization/affine/__init__.py"), ("LinearQuantizer.quantization_range", "nn/linear_quantizer.py")])

p("C05", "Shape and copy operations on quantized tensors commute with dequantization",
  """Any composition of supported tensor operations (reshape, view, transpose, permute, flatten, (un)squeeze, indexing, slicing, concatenation, splitting, clone, detach, contiguous, copy)
  on quantized tensors denotes the same values as performing the operations on the dequantized tensors. If the result is still quantized it
  dequantizes to exactly those values with the right shape; otherwise it is an ordinary tensor with those values, and operands are never modified.""",
  ["inputs", "programs"],
  "All programs over these operations, for all shapes and granularities.",
  "Tests sample single operations on per-tensor quantized data; parameter/axis bookkeeping errors need particular granularity, axis and composition.",
  ["quantization/_linear_quantized_ops.py", "quantized_tensor.py", "quantization/affine/static.py"],
  [("dispatched linear-quantized kernels", "quantization/_linear_quantized_ops.py"), ("QuantizedTensor.__torch_function__", "quantized_tensor.py")])

p("C06", "Strict quantization never computes on silently dequantized data",
  """With strict quantization on, a torch operation on a quantized tensor without quantized implementation, and a quantized operator or module without output quantizer or with non-quantized
  operands, raises a quantization error; with it off the same call returns what the operation returns on dequantized operands, passed through the output quantizer
  when there is one. Explicit casts to another data type return the cast dequantized values in either mode. The per-call option takes precedence over the ambient flag.""",
  ["programs", "configurations"],
  "All operators, operand mixes (quantized, plain, nested, keyword), presence of output quantizers, and flag/argument settings.",
  "Tests exercise a few operators in one mode; each of ~70 generated operators has its own copy of the checks and of its argument plumbing.",
  ["_gen/fallback.py", "_gen/operators.py", "quantized_tensor.py", "nn/functional/__init__.py", "flags.py"],
  [("fallback operators", "_gen/fallback.py"), ("operator front ends", "_gen/operators.py"), ("QuantizedTensor.__torch_function__", "quantized_tensor.py")])

p("C07", "Dispatch selects the newest matching kernel of the strongest priority",
  """After any history of registrations (permanent, scoped, decorated, any priority) and scope exits, dispatching an operation returns the most recently registered still
  active kernel whose predicate accepts the arguments, considering regular kernels before fallbacks, and no kernel if none accepts. Leaving a registration scope (normally or by exception) removes exactly
  that registration and leaves every other registration and its order untouched.""",
  ["histories"],
  "All interleavings of register / enter / exit / dispatch over operations, priorities and predicates.",
  "Tests use a couple of registrations; ordering and removal errors need particular multi-step histories.",
  ["dispatcher.py"], [("register / dispatch / DispatcherRegistrationHook", "dispatcher.py")])

p("C08", "Global flag settings are scoped and restored",
  """After any nesting of flag contexts, setters and decorated calls, ended normally or by exceptions, each flag has the value it had before the construct was entered, and
  inside it has the value requested; different flags never influence each other. A setter used without a context changes the flag until the next change.""",
  ["histories"],
  "All well-nested histories of set/enter/exit/raise/call over all flags (strict quantization, export mode, compile flag) and values.",
  "Tests check single enter/exit pairs.",
  ["flags.py"], [("flag contexts", "flags.py")])

p("C09", "Quantizer overrides stack, remove and restore exactly",
  """A quantizer call runs its active overrides newest first, each seeing the next one (finally the quantizer itself) as callback; removing a handle
  removes just that override in any removal order. Disabling quantization for a model makes all its quantizers identities and relaxes strictness for
  exactly the scope's duration (also when it ends by exception or is nested with re-enabling), and copies of a quantizer keep overrides independently of the original.""",
  ["histories"],
  "All histories of register / remove / call / copy / disable / enable / raise over several quantizers.",
  "Tests check single overrides and single scopes; leaks show only in interleavings and exceptional exits.",
  ["overrides.py", "forward_override.py", "nn/quantizer.py"],
  [("OverrideRegistry / OverrideHandle", "forward_override.py"), ("disable_quantization / enable_quantization", "overrides.py")])

p("C10", "Per-module strictness applies exactly while that module runs",
  """A strictness setting attached to a module holds during that module's forward (including code before and after calls to submodules with other settings), the innermost setting wins, and after the
  forward ends, by return or exception, the ambient setting is what it was before. Removing the setting restores default behaviour.""",
  ["histories", "programs"],
  "All module trees, nestings, re-entrant calls, repeated settings, handle removals and raising forwards.",
  "Tests run one nested model without failures or recursion.",
  ["quantization/strict_quantization.py", "flags.py"], [("strict_quantization_for_module", "quantization/strict_quantization.py")])

p("C11", "Converting a model to quantized form preserves the model",
  """Converting a model to its quantized form changes in place exactly the modules that have a quantized counterpart (honouring skips, custom and partial maps, recursion choice), keeps every
  parameter, buffer, hook, mode and submodule name, adds only quantizer stubs, and the converted model computes the same function. If some module
  has no counterpart the conversion fails before modifying anything.""",
  ["inputs", "configurations"],
  "All module trees (shared modules, subclasses, skips), extra conversion maps and options.",
  "Tests convert a few models; in-place class swapping interacts with module sharing, nesting and failure ordering.",
  ["nn/quantized_module.py", "nn/linear.py", "nn/conv.py", "nn/activations.py", "nn/normalization.py", "nn/embedding.py", "nn/container.py"],
  [("quantize_model", "nn/quantized_module.py")])

p("C12", "Module path queries select exactly the modules their pattern denotes",
  """A search with any query selects exactly the modules for which some path from the root spells a word of the query (names, *, **, regular expressions, alternatives, tag and class conditions, extensions, aliases),
  each module once and never the root itself. Parsing a query string and building it from fragments, simplification, and splitting a query at any point never change what is selected.""",
  ["inputs", "programs"],
  "All module trees (shared modules included) and all queries.",
  "Tests run fixed queries on one tree; wildcard/alternative interplay and simplification need structural enumeration.",
  ["mpath/_search.py", "mpath/_parser.py", "mpath/fragments.py", "mpath/selector.py", "mpath/__init__.py"],
  [("search", "mpath/_search.py"), ("parser", "mpath/_parser.py"), ("selectors", "mpath/selector.py")])

p("C13", "Module collections behave as sets and update models safely",
  """Unions, intersections, differences and symmetric differences of module collections contain exactly the modules of the set-theoretic result, and filtering or mapping visits each exactly once.
  Updating modules through a collection replaces exactly the selected modules at their locations in the model and refuses inconsistent updates before changing anything.""",
  ["inputs", "histories"],
  "All pairs/sequences of collections over a model and all update functions.",
  "Tests use two or three hand-made collections.",
  ["mpath/_search.py"], [("MPathCollection", "mpath/_search.py")])

p("C14", "Quantizer initialization applies the winning rule to exactly the selected stubs",
  """When a configuration is applied, every selected quantizer gets a quantizer made by the last added among the most specific matching rules, unselected
  quantizers are untouched, and existing quantizers are handled as the overwrite policy says (error before any change, skip, or replace).
  Shared quantizers stay shared and tags of the replaced quantizer carry over.""",
  ["configurations", "histories"],
  "All rule lists, rule orders, models, overwrite policies and repeated applications.",
  "Tests use single rules on tiny models; precedence needs combinations of overlapping rules.",
  ["quantization/quant_init.py", "quantization/quantizer_annotations.py", "nn/quantizer.py"],
  [("QuantizationConfig.initialize", "quantization/quant_init.py"), ("QuantizerCollection.initialize", "quantization/quant_init.py")])

p("C15", "Quantizer tags form a hierarchy that queries respect",
  """A tag matches another exactly if it equals it or is one of its ancestors in the '/'-hierarchy; selecting quantizers by tag returns exactly those carrying such a tag,
  and adding or removing tags, aliases and metadata affects only the quantizer concerned. Annotating a model with its operators tags every quantizer with exactly the operators
  that produce its input ("after") and use its output ("before").""",
  ["inputs", "histories"], "All tag sets and hierarchies, all queries.",
  "Tests use a few literal tags.",
  ["quantization/quantizer_annotations.py", "nn/quantizer.py", "mpath/selector.py"],
  [("Tag / QuantizerMetadata", "nn/quantizer.py")])

p("C16", "Range estimation equals the fold of its estimator over the observed data",
  """After running any sequence of batches under range estimation, each participating quantizer represents exactly the range its estimator defines on the data that reached it
  (running minimum/maximum, exponential smoothing, minimal-error grid candidate) per tile; other quantizers are untouched. On leaving the scope, by return or exception, quantizer behaviour
  and gradients modes are restored and no estimation continues.""",
  ["histories", "inputs"],
  "All batch sequences, estimators, granularities, nesting, skips, exceptional exits.",
  "Tests feed one or two batches to one quantizer.",
  ["range_setting/common.py", "range_setting/minmax.py", "range_setting/min_error.py"],
  [("estimate_ranges", "range_setting/common.py"), ("RunningMinMax / SmoothedMinMax / MinErrorGrid", "range_setting/minmax.py")])

p("C17", "Saved quantization state restores an equivalent model",
  """Saving the quantization state (or a whole quantized model) and loading it into a fresh instance of the base model yields, for every quantizer location, a quantizer with the
  same type, settings, parameters, uninitialized/stub status and sharing structure, and identical model outputs; locations not saved are untouched. Mismatching locations, names or existing quantizers
  are reported as the chosen policy states instead of being loaded partially.""",
  ["inputs", "histories"],
  "All models with arbitrary mixtures of initialized, lazy, stub and shared quantizers, and save/modify/load histories.",
  "Tests round-trip a few small models; sharing, laziness and name collisions combine.",
  ["quantization/save_load.py", "serialization.py"],
  [("save/load quantization state", "quantization/save_load.py")])

p("C18", "Fusing and freezing weight quantizers preserves what the model computes",
  """Fusing quantize-dequantize into weights, or freezing parameters, replaces selected weights by their own quantized-dequantized (or quantized) values
  exactly once and stubs exactly their quantizers, so that the model's output is unchanged; a second application changes nothing. Unselected weights and all activation
  quantizers stay as they were and temporary machinery is removed afterwards.""",
  ["inputs", "histories"],
  "All models, selections of weight/activation quantizers, sharing, repeated application.",
  "Tests fuse single layers.",
  ["quantization/fuse.py", "quantization/freeze.py"],
  [("fuse_qdq_weights", "quantization/fuse.py"), ("freeze_parameters", "quantization/freeze.py")])

p("C19", "GPTQ yields weights on the quantizer's grid following the sequential update",
  """GPTQ replaces a weight by values that all lie on its quantizer's grid, quantizing columns in order and compensating each column's
  error on the not yet quantized columns through the inverse Hessian, independently of the block size chosen; with uncorrelated inputs it equals plain rounding.""",
  ["inputs", "configurations"], "All weights, Hessians, block sizes and granularities.",
  "Tests compare error norms on random data.",
  ["quantization/gptq.py"], [("gptq", "quantization/gptq.py")])

p("C20", "Executing a graph computes the composition its data flow describes",
  """Running a graph module, whatever the order nodes and nested subgraphs were added in, calls every node once per batch with exactly the values its references
  denote (inputs, node outputs, attributes/elements of them, constants, batch broadcasting) and returns the declared outputs in order.
  Later modifications of the graph are reflected by the next run, and invalid additions are refused leaving the graph unchanged.""",
  ["programs", "histories"],
  "All acyclic graphs with nesting, fan-out, attribute references, multiple inputs/outputs, batches, and all build/run interleavings.",
  "Tests run a dozen hand-built graphs.",
  ["_orchestration/graph_module.py", "_orchestration/instruction_engine.py", "_orchestration/scheduler.py", "_orchestration/data_flow.py"],
  [("GraphModule", "_orchestration/graph_module.py"), ("InstructionEngine", "_orchestration/instruction_engine.py")])

p("C21", "Graph analyses agree with the graph's edges",
  """For every graph, topological order lists each node once after everything it depends on, a cycle is reported iff one exists and is a real cycle, the
  ancestors of a reference are exactly the nodes it transitively depends on, and an extracted subgraph contains exactly the nodes needed between its inputs and outputs and computes the same values.""",
  ["inputs"], "All graphs (including cyclic, disconnected and nested ones).",
  "Tests use a few DAGs.",
  ["_orchestration/graph_module.py", "_orchestration/data_flow.py"],
  [("topological_sort / find_cycle / create_subgraph", "_orchestration/graph_module.py")])

p("C22", "Schedule passes never change results or drop optimization steps",
  """Lifetime management deletes every intermediate exactly once, after its last use and never a returned value; restricting a schedule to optimization keeps
  every optimization step with everything it needs, in an order where each sees the effects of the earlier ones, and nothing else. Passes in any valid order leave the values delivered to optimizers and
  outputs unchanged.""",
  ["programs", "schedules"], "All graphs with delegates and contexts, all pass combinations.",
  "Tests apply passes to small programs.",
  ["_orchestration/instruction_engine.py", "_orchestration/scheduler.py"],
  [("lifetime_management_pass / optimization_only_pass", "_orchestration/instruction_engine.py")])

p("C23", "Offloading keeps modules and activations where computation needs them",
  """With offloading enabled, whenever a module is called or optimized its parameters and its input activations are on the compute device, results equal those without offloading,
  and when the run ends every module is back on its original device. Removing redundant transfers never changes this.""",
  ["programs", "schedules"], "All graphs, schedules with repeated use of modules and activations, and pass orders.",
  "No second device in CI; tests inspect a few instruction lists.",
  ["_orchestration/instruction_engine.py"], [("offloading passes", "_orchestration/instruction_engine.py")])

p("C24", "Reducing a graph's resolution preserves its input-output behaviour",
  """Coarsening a graph to the requested targets (modules, spans, groups) yields a graph that computes the same outputs for all inputs, in which every requested target is one node with its delegate
  attached and every original operation is executed exactly once. Overlapping, unknown, or cyclic requests are refused.""",
  ["programs", "configurations"], "All graphs and all target specifications.",
  "Tests cover chains and a few diamonds.",
  ["_orchestration/graph_module.py", "_orchestration/registry.py"],
  [("reduce_resolution", "_orchestration/graph_module.py")])

p("C25", "Layer-wise optimization visits each layer once with up-to-date inputs",
  """Layer-wise optimization invokes every algorithm exactly once for each module that its targets select, in data-flow order, with the module and for each batch of the data exactly the arguments the module's
  first call would receive given that all earlier selected modules are already optimized. Unselected modules and the model structure are unchanged. Selections without modules, and selections in which a module is selected twice or lies
  inside another selected module, are refused before anything is changed.""",
  ["programs", "schedules"], "All models, delegate sets, contexts and datasets.",
  "Tests run two or three sequential models.",
  ["orchestration.py", "_orchestration/registry.py", "_orchestration/trace.py", "_orchestration/scheduler.py", "_orchestration/instruction_engine.py"],
  [("layerwise_optimize", "orchestration.py")])

p("C26", "Export pipelines run stages in dependency order with inputs in declared order",
  """After any sequence of edits (register, insert before/after, replace, add/remove dependency), running a pipeline executes every needed stage once, after all its dependencies,
  each receiving its dependencies' results in declared order, and reports results and metrics in stage order. Edits preserve the position and wiring of everything not edited, and cyclic or unknown
  references are refused leaving the pipeline unchanged.""",
  ["histories", "programs"], "All edit histories and pipeline graphs.",
  "Tests edit small linear pipelines.",
  ["export/pipeline/core.py"], [("Pipeline", "export/pipeline/core.py")])

p("C27", "Exported encodings describe exactly the quantizer they were made from",
  """For every quantizer setting, each encoding schema's entry decodes (by the schema's own definition of scale, offset/zero point, bit width, axis and block) to the same real interval and grid as the quantizer, with
  one entry per quantized tensor (the first one that is added for a name) and symmetric marked exactly when every tile is. A quantizer that a schema cannot express is refused and leaves the other entries unchanged.""",
  ["inputs", "configurations"], "All scales, offsets, bit widths, granularities and schemas.",
  "Tests pin a few dictionaries.",
  ["export/_export_schemas.py", "export/_lpbq.py"], [("SchemaHandler.add_encoding", "export/_export_schemas.py")])

p("C28", "Exported models compute the quantized model's codes",
  """Exporting a quantized model to ONNX or packing quantized weights for GGUF represents exactly the model's integer codes and parameters: decoding the packed or lowered form gives
  the same values as dequantizing in the library.""",
  ["inputs", "configurations"], "All supported weights, scales, offsets, granularities and formats.",
  "Tests compare single examples with tolerances.",
  ["export/stages"], [("QDQ lowering / GGUF packing", "export/stages")])

p("C29", "Quantizer lifecycle keeps identity, parameters and settings consistent",
  """A quantizer stub is the identity, an uninitialized quantizer refuses to quantize, and after any history of initialization, range setting, parameter loading, copying and
  pickling a quantizer's parameters, settings and behaviour are those implied by the last applicable operation, with copies independent of the original.""",
  ["histories"], "All operation histories on all quantizer kinds.",
  "Tests check single steps.",
  ["nn/quantizer.py", "nn/linear_quantizer.py", "nn/dynamic_linear_quantizer.py"], [("Quantizer / LinearQuantizer", "nn/linear_quantizer.py")])

p("C30", "Tracing a model yields a graph that computes the model",
  """Tracing a supported model into an orchestration graph yields a graph whose execution returns what the model returns (values and structure) for all inputs of the traced structure, given by position or
  keyword, in which each submodule call whose result is used appears as a node of that submodule, which keeps reflecting the model's current parameters, and whose creation leaves the model unchanged. Tracing again
  returns the same graph, unless modules, training mode or the structure of the inputs changed, and then a graph of the changed model. Quantized modules quantize in the graph as in the model (quantizers a module without children uses itself; quantizers used directly by a container module
  are outside the traced calls). Modules called with several differing argument structures may be refused.""",
  ["programs"], "All models built from modules, containers, reuse, multiple/nested outputs and constants.",
  "Tests trace about ten fixed models.",
  ["_orchestration/trace.py"], [("trace", "_orchestration/trace.py")])

p("C31", "Operator tables resolve names and overloads consistently",
  """After any history of adding operators and aliases, looking up by operator, alias or fallback returns exactly the operators added under it (latest overload first), collisions are refused
  without changing the table. Argument binding assigns every argument of a call to one parameter, accepting exactly the calls valid for the declared signature; signatures keep parameter order,
  defaults and types (unions compare as sets of their members), and every operator of the default table has the parameters of the function it dispatches to.""",
  ["histories", "inputs"], "All histories and all call shapes.",
  "Tests use the default table.",
  ["_quantops/optable.py", "_quantops/operator.py"], [("OperatorTable", "_quantops/optable.py")])

p("C33", "The quantizers of a model are listed completely, once and by name",
  """Listing the quantizers of any model gives every quantizer (and, when asked for, every stub) exactly once under its first location, or once per location, in order of registration and with the
  prefix put before it; without recursion only the direct children. The quantizer state of a model holds the state of exactly its initialized quantizers, and loading it into another instance
  restores those quantizers and changes nothing else. Summaries group the listed quantizers by their settings, largest group first, and count every location once.""",
  ["inputs"], "All module trees with shared modules and quantizers, nested and uninitialized quantizers, options and name patterns.",
  "Tests list the quantizers of one small model without sharing.",
  ["nn/quantized_module.py"], [("named_quantizers, quantizer_state_dict, summarize_quantizers", "nn/quantized_module.py")])

p("C32", "Autoquantized code computes what the original code computes",
  """For every supported module, the generated quantized module with stub quantizers returns what the original returns for all inputs, inserts one
  output quantizer per quantized operator occurrence, and leaves unquantizable code unchanged.""",
  ["programs"], "All supported Python forward functions (control flow, comprehensions, helpers, reassignments).",
  "Tests compare source text for fixed snippets.",
  ["_autoquant/autoquant.py", "_autoquant/convert.py"], [("autoquantize", "_autoquant/autoquant.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
