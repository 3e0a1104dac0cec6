#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json, sys
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

p("C01", "The strongest active layer's opinion wins",
  "In a graph composed from several layers, every attribute, and every opinion on a node's code, comment, enabled state, execute-in, start-point flag and instance path, has the value stated by the strongest active layer that states one, and reports that layer as its source. A layer that says nothing about a node or attribute never changes it, and a node exists in the composite exactly when an active layer, or something composed into the graph, defines it.",
  ["inputs", "configurations"],
  "every stack of layers, every assignment of nodes/attributes/opinions to layers",
  "tests compose a handful of two or three layer sample files; the rule quantifies over every assignment of opinions to layers",
  ["nxt/stage.py", "nxt/nxt_node.py", "nxt/nxt_layer.py"],
  [("comp_pre_proxies: spec bases strong to weak, overload attrs weak to strong", "nxt/stage.py"), ("create_spec_node / get_opinion", "nxt/nxt_node.py")],
  [("comp layer", "node path -> composed node", "nxt/nxt_layer.py CompLayer")],
  ["Stage.build_stage", "Stage.get_node_attr_value", "Stage.get_node_attr_source", "Stage.get_node_code_lines"])

p("C02", "Only active layers contribute: mute, solo and parent overrides",
  "A layer contributes to the composite exactly when it is not muted and, if any layer of the graph is soloed, is itself soloed; a mute, solo, alias, color or lock override given by a referencing layer beats the layer's own setting, setting by setting, and the override of the outermost referencing layer that gives one beats inner ones. Building the composite from a given layer downwards uses only that layer and the weaker ones. Changing or clearing an override leaves every other layer and setting as it was and survives save and reload.",
  ["configurations", "histories"],
  "every reference tree, every combination of local mute/solo/alias/color/lock and overrides, every target layer",
  "tests mute one layer of one file; override precedence through nested references is never exercised",
  ["nxt/nxt_layer.py", "nxt/stage.py"],
  [("get_active_layers, get_comped_layer_overs, set_mute_over/set_solo_over/set_alias_over/set_color_over", "nxt/nxt_layer.py"), ("build_stage layer selection", "nxt/stage.py")],
  [("comp_overrides", "per-parent overrides of sub layer meta", "nxt/nxt_layer.py SpecLayer")],
  ["SpecLayer.get_muted", "SpecLayer.get_soloed", "SpecLayer.get_alias", "SpecLayer.get_color", "get_active_layers", "Stage.build_stage"])

p("C03", "Inheritance: local, then parent chain, then instance source",
  "An attribute a node does not define itself is inherited from the nearest ancestor that has it, and otherwise from the node it instances (an ancestor that the instanced node inherits from as well is consulted after the instanced node); a definition on the node itself, in any active layer, always beats an inherited one. Code, comment and enabled state pass from an instance source to its instance when the instance states none, but never from a parent to its children. The reported source of an inherited attribute value is the node and layer that really defines it.",
  ["inputs", "configurations"],
  "every tree of nodes, attribute placement, instance arcs and missing intermediate nodes",
  "tests look at one or two fixed inheritance chains",
  ["nxt/stage.py", "nxt/nxt_node.py"],
  [("post_proxy_comp / _safe_mro_add_base_class / update_inherited_attrs", "nxt/stage.py"), ("INHERITANCE_MAP", "nxt/stage.py CompArc")],
  [("node bases", "class MRO realises the arcs", "nxt/nxt_node.py")],
  ["Stage.get_node_attr_value", "Stage.get_node_attr_source", "Stage.get_node_inherited_attr_names", "Stage.get_node_instanced_attr_names"])

p("C04", "Instances mirror the whole source subtree; bad instances are refused",
  "A node that instances another gains, at the matching relative paths, a counterpart of every descendant of the source, including descendants the source itself gains by instancing and those below intermediate paths that exist only by implication, while anything defined locally at those paths is kept and wins. An instance that points at itself, an ancestor, a missing node, the world node or anything that depends on the instancing node is refused. Which member of a cycle of instances is refused is not specified. In every case building the graph terminates and the rest of the graph is composed as if the refused instance were absent; a graph whose inheritance orders contradict each other is reported as such.",
  ["inputs", "configurations"],
  "every instance topology: chains, nested and mutual instances, instances across layers, implied parents",
  "tests check a few hand-made instance files; cycles and nesting combine without bound",
  ["nxt/stage.py"],
  [("discover_proxies / comp_proxies / create_instance_node / namespace_merger / instance_is_possible", "nxt/stage.py")],
  [("proxies", "composed nodes with no local definition", "nxt/stage.py")],
  ["Stage.build_stage", "CompLayer.descendants", "Stage.get_node_attr_value"])

p("C05", "Children: complete, without duplicates, and in declared order",
  "The children reported for a node are exactly the nodes whose nearest existing ancestor it is, each once, whatever result form is asked for; the children of the world, or of a path that is no node, are the nodes directly below it. Descendants are the children, their children and so on, each once. In the ordered form, names listed by an explicit order come out in that order; when several layers state orders, the strongest layer's relative order is preserved and children only weaker layers or an instance source know are merged in without loss or repetition.",
  ["inputs", "configurations"],
  "every set of layers with child orders naming present, missing and repeated children",
  "tests compare a few fixed orders on sample files",
  ["nxt/nxt_layer.py", "nxt/nxt_node.py", "nxt/stage.py"],
  [("SpecLayer.children / descendants", "nxt/nxt_layer.py"), ("list_merger", "nxt/nxt_node.py"), ("comp_pre_proxies child order", "nxt/stage.py")],
  [("child_order", "explicit order of a node", "nxt/nxt_node.py")],
  ["CompLayer.children", "CompLayer.descendants", "CompLayer.ancestors", "list_merger"])

p("C06", "Execution order is the declared one: chained roots, depth-first",
  "The execution order from a start path lists the start node's remaining tree depth-first, parents before children and children in declared order, then follows the execute-in chain root by root in the same way. Disabled nodes are left out together with everything below them, and no node is listed twice. Computing it terminates for every graph, including ones whose execute-in links form a cycle.",
  ["inputs", "configurations"],
  "every tree, child order, disabled set, execute-in linkage and start path",
  "tests check one order file from a few starts",
  ["nxt/nxt_layer.py"],
  [("get_exec_order / get_root_exec_order", "nxt/nxt_layer.py")],
  [("execute_in", "root to root chain", "nxt/nxt_node.py")],
  ["CompLayer.get_exec_order", "CompLayer.get_root_exec_order"])

p("C07", "Execution runs each ordered node once and stops exactly when it should",
  "Executing a graph runs the code of each enabled node in execution order, once each, after the world code; a request to leave a node (or the world code) ends only that node's code, a request to leave the graph ends the whole run cleanly, keeping the values computed so far, and any other error (interrupts by the user aside) ends the run as a graph error naming the failing node, with no later node run. Asking to run a missing node is an error; nodes that ran before it keep their effects, and disabled nodes are never run. Every node that started has its start and end time recorded, end not before start, whichever way it ended.",
  ["programs", "fault_sequences"],
  "every graph whose nodes succeed, leave the node, leave the graph, raise or fail to compile, from any start or node list",
  "tests run a few fixed graphs and never a failure at each possible position",
  ["nxt/stage.py", "nxt/runtime.py", "nxt/nxt_layer.py"],
  [("Stage.execute / execute_nodes / run", "nxt/stage.py"), ("Console.runcode, GraphError", "nxt/runtime.py"), ("CacheLayer times", "nxt/nxt_layer.py")],
  [("cache layer", "nodes run and their enter/exit times", "nxt/nxt_layer.py CacheLayer")],
  ["Stage.execute", "Stage.execute_nodes", "CacheLayer"])

p("C08", "Values computed while running flow to later nodes, and nothing else leaks",
  "While a graph runs, a node that assigns to an attribute it has (own or inherited) makes the new value, once its code ends without an error, what every later reader sees: itself, its children that inherit it, and other nodes' attribute references and code. A name its code introduces that is not an attribute of the node disappears when the code ends unless declared global. Parameters given to the run replace the named attributes before any code runs, and running more nodes against an already executed layer continues from the values it holds.",
  ["programs", "histories"],
  "every sequence of node codes reading and writing attributes, globals and parameters",
  "tests run fixed graphs; data flow depends on the whole order of reads and writes",
  ["nxt/stage.py", "nxt/runtime.py"],
  [("run: attribute push back, clean_globals", "nxt/stage.py"), ("set_runtime_parameters / setup_runtime_layer", "nxt/stage.py")],
  [("runtime layer", "composed layer plus cached values", "nxt/stage.py")],
  ["Stage.execute", "Stage.execute_nodes", "CacheLayer.nodes", "Stage.get_node_attr_value"])

p("C09", "Building, querying and executing never change the saved graph",
  "Building composites, reading anything from them and executing them leave the data every layer would save exactly as it was. Building again from the same layers gives the same composite, regardless of what was built, read or executed before. Changes made to a composite while running never show up in a composite built later.",
  ["histories", "programs"],
  "every interleaving of builds, queries and executions",
  "tests never compare layer data before and after, nor repeat builds after executions",
  ["nxt/stage.py", "nxt/nxt_layer.py", "nxt/nxt_node.py"],
  [("CompNode.new as subclass of spec nodes", "nxt/nxt_node.py"), ("setup_runtime_layer", "nxt/stage.py"), ("get_save_data", "nxt/nxt_layer.py")],
  [("spec layers", "the saved graph", "nxt/nxt_layer.py SpecLayer")],
  ["SpecLayer.get_save_data", "Stage.build_stage", "Stage.execute"])

p("C10", "Saving and loading loses nothing",
  "A layer that is saved and loaded again has the same nodes, attributes with their values (those JSON can express), types and comments, code, orders, flags, references, overrides, alias, color, positions and unknown meta data, and saving that again gives the same file. A save that fails because some data cannot be written leaves the existing file as it was.",
  ["inputs", "histories", "fault_sequences"],
  "every layer content, including empty strings, unicode, falsy values and unknown meta data",
  "tests round-trip a sample file; the rule is over all contents",
  ["nxt/nxt_layer.py", "nxt/nxt_node.py", "nxt/nxt_io.py", "nxt/clean_json.py"],
  [("get_save_data / save", "nxt/nxt_layer.py"), ("get_node_as_dict / create_spec_node", "nxt/nxt_node.py"), ("save_file_data / load_file_data", "nxt/nxt_io.py")],
  [("file", "saved JSON", "nxt/nxt_io.py")],
  ["SpecLayer.save", "SpecLayer.load_from_filepath", "Stage.load_from_filepath"])

p("C11", "Every edit history keeps a layer consistent and does only what was asked",
  "After any sequence of adding, deleting, renaming, re-parenting, duplicating and instancing nodes and of setting their attributes, code, order and flags, a layer still has unique legal node paths, its lookups by path and by node agree, and no child order in that layer still names a node the edit renamed, moved or deleted (a deleted node whose descendants stay keeps its place). Renaming or re-parenting takes a node's descendants and all their data along, duplicating copies the data and leaves the original alone, and deleting removes exactly the requested node (and its descendants when asked). No edit changes the nodes of a layer other than its target.",
  ["histories"],
  "every finite sequence of edits through the stage API, with and without a composite being kept up to date",
  "tests do one edit at a time on fresh stages",
  ["nxt/stage.py", "nxt/nxt_layer.py", "nxt/nxt_node.py"],
  [("add_node, delete_node, set_node_name, parent_nodes, duplicate_node, transfer_node_data, set_node_child_order", "nxt/stage.py")],
  [("layer tables", "path->node, node->path, ordered table", "nxt/nxt_layer.py SpecLayer")],
  ["Stage edit methods", "SpecLayer.get_save_data", "SpecLayer.descendants"])

p("C12", "Edits show in composites already built as if they were rebuilt",
  "After an attribute is added, set (value or comment), renamed or deleted on a node of any layer, every composite of the graph built before, of all layers or only the weaker ones, shows what one built from scratch would: the same attributes with the same values, types, comments and sources on the node and on everything that inherits from it or instances it, and nothing else has changed. In a graph of one layer without instances, whose nodes' parents all exist, this holds as well for adding and deleting nodes, switching them on and off and setting their code with the composite on show: its nodes, their data, children, child order and execution order are those of a rebuilt one after every edit of any sequence of edits.",
  ["histories"],
  "every finite sequence of edits of any graph with composites already built",
  "tests update one composite once; staleness shows only in combinations of edits with inheritance and instancing",
  ["nxt/stage.py", "nxt/nxt_layer.py"],
  [("targeted_comp_pre_proxies / targeted_comp_proxies / targeted_comp_post_proxies / targeted_uncomp / ripple_delete / propagate_child_order", "nxt/stage.py"),
   ("node_setattr_data, add_node_attr, rename_node_attr, delete_node_attr, update_inherited_attrs", "nxt/stage.py")],
  [("comp layer", "composite kept up to date", "nxt/nxt_layer.py CompLayer")],
  ["Stage edit methods with a composite", "Stage.build_stage"])

p("C13", "Tokens resolve to the referenced values, everything else is untouched",
  "Resolving a text replaces every reference to an attribute, node path or other token, nested ones innermost first and relative ones from the node that owns the text, by the value it denotes at that node, and leaves all other characters as they were. Text without well-formed tokens, and unbalanced token markers, come back unchanged. Resolving has no side effects and always terminates, also for unknown references (which denote nothing) and references that form a cycle.",
  ["inputs"],
  "every text over token markers, path characters and ordinary characters, in every graph of attribute references",
  "tests resolve a dozen fixed strings",
  ["nxt/stage.py", "nxt/tokens.py"],
  [("get_standalone_tokens / atomic_token_partition", "nxt/tokens.py"), ("resolve / resolve_attr_ref_token / get_node_code_lines", "nxt/stage.py")],
  [],
  ["Stage.resolve", "Stage.get_node_attr_value", "Stage.get_node_code_lines", "tokens.get_standalone_tokens", "tokens.get_atomic_tokens"])

p("C14", "Node path arithmetic is consistent",
  "For every node path: splitting into names and joining gives it back; its ancestors are exactly the proper prefixes nearest first, its parent is the first of them and its root the last; replacing an ancestor changes only that whole-name prefix; and trimming keeps exactly the requested depth. A path is below another only at a name boundary. A relative path expanded at a node names the same node as stepping it name by name, and an attribute path splits into exactly the node path and attribute it was made from.",
  ["inputs"],
  "every node path, relative path, attribute path and pair of paths",
  "tests check a few fixed paths; look-alike name prefixes and relative steps are what breaks",
  ["nxt/nxt_path.py"],
  [("expand_relative_node_path, str_path_to_node_namespace, all_ancestor_paths, replace_ancestor, is_ancestor, trim_to_depth, path_attr_partition", "nxt/nxt_path.py")],
  [],
  ["nxt_path functions"])

p("C15", "Layer files load as declared, and broken references do not break the rest",
  "Loading a file loads the files it references, recursively, as weaker layers: each after the layer that references it and before that layer's next reference, found relative to the referencing file, with environment variables expanded. A reference that is missing or unreadable is skipped while all others load; loading leaves the process's working directory as it was, also when it fails, and terminates for every reference graph. Adding a sub layer that is not above itself, or removing one, adds or removes exactly that layer and what it references, and saving keeps the reference list, including entries that could not be loaded.",
  ["configurations", "fault_sequences"],
  "every directory layout and reference graph with missing, corrupt, too new and cyclic references",
  "tests load sample files with at most a few references",
  ["nxt/stage.py", "nxt/nxt_path.py", "nxt/nxt_io.py", "nxt/nxt_layer.py"],
  [("load_from_file / new_sublayer / remove_sublayer", "nxt/stage.py"), ("full_file_expand", "nxt/nxt_path.py")],
  [("layer list", "strong to weak", "nxt/stage.py _sub_layers")],
  ["Stage.load_from_filepath", "Stage.new_sublayer", "Stage.remove_sublayer", "SpecLayer.get_references"])

p("C16", "Files of every version: newer ones refused, older ones converted faithfully",
  "A file written by a newer or unsupported format version is refused with an error, and refused files are never partly loaded; a file of any supported older version loads with all node names, parents, attributes, code, instances, orders and flags it expresses, as the current version would (in the pre-release format: the nodes its parents list). Converting a file always terminates, gives a file of the current version, and converting again changes nothing.",
  ["inputs", "configurations"],
  "every version number and every graph content expressible in each legacy format",
  "tests convert one sample per old version",
  ["nxt/legacy.py", "nxt/nxt_io.py", "nxt/cli.py"],
  [("FileConverter and per-version converters", "nxt/legacy.py"), ("load_file_data", "nxt/nxt_io.py")],
  [],
  ["nxt_io.load_file_data", "legacy converters", "nxt convert"])

p("C17", "File references fall back in the documented order",
  "A file token resolves, for each layer from the composite's first to its last, as the graph would read without the layers above: references inside it take the values they have there, and the path is looked for in the configured file roots, first root first, then in the directory of the strongest active layer left. The first existing file or directory found wins; if there is none anywhere the token resolves to nothing rather than an error. A list token gives every distinct existing candidate once, strongest first; a path token gives the path in the first root, or else beside the strongest active layer, whether it exists or not. Resolving terminates and changes nothing.",
  ["configurations", "inputs"],
  "every combination of file roots, layer directories and existing files",
  "tests use one directory layout",
  ["nxt/plugins/file_fallbacks.py", "nxt/stage.py", "nxt/nxt_path.py"],
  [("file_fallbacks token handlers", "nxt/plugins/file_fallbacks.py"), ("resolve_file_token / resolve_file_path_token / resolve_contents_token", "nxt/stage.py")],
  [],
  ["Stage.resolve", "Stage.get_node_attr_value"])

p("C18", "A session keeps its files apart and always cleans up what it started",
  "A session hands out distinct names for new graphs and keeps every loaded file's stage separate until it is unloaded: asking for a loaded file gives that stage again, and saving writes that graph alone. Executing a graph starts the command server only when the graph needs it and none is running, and shuts it down again on every outcome of the run, successful or not, only if this execution started it. Nested or repeated executions leave the server as they found it, and the same errors reach the caller as without a server.",
  ["histories", "fault_sequences"],
  "every sequence of load/new/unload/execute calls with failures at every step of an execution",
  "tests run one sub-graph file; failures between start and shutdown are not tested",
  ["nxt/session.py", "nxt/remote/contexts.py", "nxt/remote/server.py"],
  [("start_rpc_if_needed / shutdown_rpc_server / execute_graph / execute_nodes", "nxt/session.py")],
  [("rpc_server", "the server this session owns", "nxt/session.py Session")],
  ["Session.execute_graph", "Session.execute_nodes", "Session.new_file", "Session.load_file", "Session.unload_file"])

p("C19", "The change-impact map names every node an edit can affect",
  "For every node, the composite's impact set contains every node that instances it, directly or through others, including the counterparts instancing brings about, and nothing that does not; changing an opinion on a node never changes the composed data of a node other than itself, the nodes its impact set names, their descendants, and so on. The opinion history of an attribute lists exactly the layers that state it, strongest first, and the composite seen from the weaker layers is what building without the stronger ones gives.",
  ["histories", "inputs"],
  "every graph and every single edit of it",
  "tests query one fixed graph",
  ["nxt/nxt_layer.py", "nxt/stage.py"],
  [("get_node_dirties / extend_dirty_map", "nxt/nxt_layer.py, nxt/stage.py"), ("get_historical_opinions / get_layers_with_opinion / infer_lower_comp", "nxt/stage.py")],
  [("_dirty_map", "node -> dependants", "nxt/nxt_layer.py CompLayer")],
  ["CompLayer.get_node_dirties", "get_historical_opinions", "Stage.get_layers_with_opinion"])

p("C20", "Names the system makes up are legal and unique; attribute edits are exact",
  "Any requested node name is turned into a legal one (letters, digits and underscore, not starting with a digit) and made unique among the names it would collide with, leaving a name that is already legal and free as it is; unique attribute names never collide with the node's own attributes or with reserved names. Adding, renaming or deleting an attribute affects that attribute alone, and a rename carries value, type and comment over.",
  ["inputs", "histories"],
  "every requested name and every set of existing names",
  "tests try a handful of names",
  ["nxt/stage.py", "nxt/nxt_node.py"],
  [("legalize_name / get_unique_node_name / get_unique_attr_name / add_node_attr / rename_node_attr / delete_node_attr", "nxt/stage.py")],
  [],
  ["Stage.add_node", "Stage.set_node_name", "Stage.get_unique_attr_name", "Stage.rename_node_attr"])

p("C21", "Headless runs and sub-graphs take parameters and give back their results",
  "Running a graph from the command line, through a session, in a remote context or as a sub-graph sets exactly the named node attributes to the given values, starts where asked, and ends with a failure status or error whenever the graph fails, and only then: a graph whose code exits it early has not failed. Malformed parameter lists and start paths that are not there are rejected before anything runs. A node that runs a sub-graph hands its own attributes to the world node of that graph and is given back what the world node holds at the end. The results of a run can be saved and loaded back with the values of every node that ran.",
  ["inputs", "fault_sequences"],
  "every parameter list, start path, graph outcome and set of result values",
  "tests run two sample sub-graphs and one command line",
  ["nxt/cli.py", "nxt/session.py", "nxt/runtime.py", "nxt/nxt_layer.py", "nxt/stage.py", "nxt/builtin/sub_graph.nxt"],
  [("cli execute and parameter parsing", "nxt/cli.py"), ("CacheLayer save/load", "nxt/nxt_layer.py"), ("execute_graph", "nxt/session.py")],
  [],
  ["nxt.cli.main", "Session.execute_graph", "CacheLayer.save / load_from_layer_data"])

for x in P:
    assert len(x["title"]) <= 80, x["id"]
    sys.stdout.write(json.dumps(x, ensure_ascii=False) + "\n")
