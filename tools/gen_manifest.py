#!/usr/bin/env python3
"""Source of MANIFEST.json (run: python3 tools/gen_manifest.py > MANIFEST.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = "TLA+ specification checked with TLC; "
COMP = (T + "graphs enumerated by the composition model (MCComp) and seeded random ones are built by the code and every read of the composite is validated by TLC against NxtComp (TraceComp)")
COMPN = "exhaustive small graphs in the model, a seeded sample of them plus random graphs (<=4 layers, depth<=4) replayed in the code; graphs whose instances depend on each other are judged only where all resolutions agree; "
RUN = (T + "every combination of small node programs on a small graph (MCRun) and random programs on random graphs are executed by the code; the events the node code reports, outcomes, times and values left are validated step by step by TLC against the execution machine NxtRun (TraceRun)")
RUNN = "exhaustive for four nodes with menus of 5-10 programs each, two runs; a seeded sample of these and random programs (<=6 statements, nested execution, <=3 runs) replayed; values are texts"
CLAIMS = {
 "C01": (COMP, COMPN + "trusts the TLA+ composition rules and TLC"),
 "C02": (T + "every short history of setting flags and overrides (MCFlags), replayed on stages loaded from files, and random histories with save/reload; every state read back is validated by TLC (TraceFlags, TraceComp)",
         "histories of <=2 actions on a four layer reference tree exhaustively in the model, sampled in replay; random histories of <=7 actions on nine reference trees; trusts TLC"),
 "C03": (COMP, COMPN + "inheritance order is C3 over parent and source, stated explicitly in the model"),
 "C04": (COMP, COMPN + "which member of an instance cycle is refused is left open"),
 "C05": (COMP, COMPN + "all result forms of children/descendants/ancestors are read for every node and implied path"),
 "C06": (COMP, COMPN + "the order is recomputed in the model from the observed ordered children, which C05 judges"),
 "C19": (COMP + "; edits are applied, rebuilt and diffed, lower composites inferred and built", COMPN + "inferring lower composites is judged on graphs without instances"),
 "C14": (T + "model-generated relative-step behaviours replayed in the code, every recorded call validated by a TLC trace spec",
         "exhaustive over the model's universe (names a/ab, depth<=4, <=4 relative steps) and seeded random paths; trusts the TLA+ path algebra and TLC"),
 "C09": (T + "every short history of building, reading, running, dropping and editing (MCPure) and random ones are replayed on random graphs; after each step digests of what every layer saves and every composite shows are validated by TLC against NxtPure (TracePure)",
         "histories of <=4 steps over two layers exhaustively in the model, sampled in replay; random histories of <=9 steps; code that reaches for spec layers through __stage__ on purpose is out of scope"),
 "C10": (T + "every content of a small layer (MCFile) and random layers are written to files, loaded, edited, saved, saved again and made impossible to save by the code; the layer in memory and the files on disk are validated by TLC against the load/save relation NxtFile (TraceFile)",
         "exhaustive over the contents of one attribute, one node and the layer settings in the model, sampled in replay; random layers of <=7 nodes, histories of <=7 steps; values are JSON values"),
 "C11": (T + "every short history of edits of a small layer below a stronger one (MCEdit) and random histories on random graphs are performed through the stage API; after every edit each layer's nodes, lookups and settings are validated by TLC against the edit functions of NxtEdit (TraceEdit)",
         "two edits exhaustively over 108 small layers in the model (133k states), sampled in replay; random histories of <=9 edits on <=3 layers; letters of names are ASCII; where a moved node is shown in the editor is open"),
 "C13": (T + "every short text of token markers, names and paths in every small graph of references (MCTokens) and random texts, values, code and file contents are scanned and resolved by the code; each result is validated by TLC against the token grammar and resolution of NxtTokens (TraceTokens)",
         "texts of <=3 pieces (4 in thorough) exhaustively in 60 graphs in the model, sampled in replay; random texts of <=7 pieces or <=3 nested references; attribute, path and contents tokens (file tokens are C17's); what a cyclic reference denotes is open; the empty token is left out"),
 "C15": (T + "every small world of files that reference each other, with edits of the layer list (MCLoad), and random worlds (missing, corrupt, too new and cyclic files, links, environment variables, roots) are written to disk and loaded by the code; layers, parents, references and the working directory are validated by TLC against NxtLoad (TraceLoad)",
         "seven files with menus of references and one edit exhaustively in the model, sampled in replay; random worlds of <=9 files and <=4 edits; putting a layer above itself, directories named like files and references leading above the file system's root are left out"),
 "C16": (T + "every version number and every small content in each legacy format (MCLegacy) and random contents are written as files of that version, loaded and converted by the code; composites, layers and converted files are validated by TLC against the meaning of the formats in NxtLegacy (TraceLegacy)",
         "contents of two or three nodes exhaustively in the model, sampled in replay; random contents of <=6 nodes; files without version and pre-release children their parent does not list are left open"),
 "C17": (T + "every small graph of three layers in directories of their own with every small set of files and roots (MCFallback) and random graphs, files, links, roots and environment variables are written to disk; file, list, path and contents tokens resolved on the composites by the code are validated by TLC against NxtFallback (TraceFallback)",
         "15840 graphs with their files in the model, a seeded sample replayed; random graphs of <=4 layers; judged where instances are the same at every depth and none is refused, and no node appears only in weaker composites (solo); other tokens inside file tokens are open"),
 "C07": (RUN, RUNN), "C08": (RUN, RUNN),
 "C18": (T + "every short history of new, load, unload, save and execute calls with a failure at every step of an execution (MCSession) and random ones are performed by a real session with a stand-in for the server process; the graphs held, the calls made to the server and the errors that reach the caller are validated by TLC against NxtSession (TraceSession)",
         "histories of <=3 calls exhaustively in the model, sampled in replay; random histories of <=9 calls; the server process and its port are a stand-in that can refuse, hang or die; the names new graphs are given are only required to be distinct"),
 "C12": (T + "every short history of attribute edits of small graphs of two layers with instances, and of node edits in one layer (MCShown), and random ones on random graphs are performed through the stage API on composites built before; after the edits every read of each composite is validated by TLC against the composition of the layers as they are then (TraceComp)",
         "two edits exhaustively over small graphs in the model (three edits of nodes, 336 graphs in thorough), sampled in replay; random histories of <=6 edits; adding, deleting, ordering, switching and coding nodes with a composite on show is claimed for graphs of one layer without instances and implied parents only"),
 "C20": (T + "every short requested name against every small set of existing names, and every short history of attribute edits (MCNames), and random ones are performed through the stage API; names and attributes of all layers are validated by TLC against NxtNames (TraceNames)",
         "names of <=3 characters over a small alphabet and histories of <=2 edits exhaustively in the model, sampled in replay; random histories; letters are ASCII; overriding an inherited attribute is not a collision"),
 "C21": (T + "every run of small graphs with every short parameter list, start and outcome (MCHeadless) and random ones are performed through the command line, sessions, remote contexts and nodes of other graphs; what the node code sees, exit status, results saved and values given back are validated by TLC against NxtHeadless over the execution machine NxtRun (TraceHeadless)",
         "exhaustive over the model's menus of programs and arguments, sampled in replay; the processes of remote runs are played in-process by a stand-in, a few runs use real processes; world attributes nothing changed and the names the remote graph uses itself are open"),
}
NOT_YET = "check under construction: no verdict is claimed yet"
m = dict(version=1, setup_cmd="bash tools/setup.sh",
         checks=[dict(property=p["id"], quick_cmd="./check " + p["id"],
                      thorough_cmd="VERIF_TIER=thorough ./check " + p["id"],
                      technique=CLAIMS[p["id"]][0], level="model_checking", level_note=CLAIMS[p["id"]][1])
                 for p in props if p["id"] in CLAIMS],
         not_applicable=[dict(property=p["id"], reason=NOT_YET) for p in props if p["id"] not in CLAIMS])
print(json.dumps(m, indent=1))
