"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
ED = "spine_json_lib/spine_animation_editor.py"
DATA = "spine_json_lib/data/spine_anim_data.py"
BASE = "spine_json_lib/data/data_types/base_type.py"
SKIN = "spine_json_lib/data/data_types/skin.py"
SLOT = "spine_json_lib/data/data_types/slot.py"
ANIM = "spine_json_lib/data/data_types/animation.py"
DRAW = "spine_json_lib/data/data_types/draworder.py"
BONE = "spine_json_lib/data/data_types/bone.py"
NODES = "spine_json_lib/deserializer/spine_nodes.py"
CONT = "spine_json_lib/spine_graph_container.py"
DAG = "spine_json_lib/graph/dagraph.py"
SPAM = "spine_json_lib/graph/spamnode.py"
UTILS = "spine_json_lib/utils.py"

prop("C01", "An acknowledged save is complete, current and reopenable",
     "When saving a document or its image index returns normally, the file at the requested path holds, complete and readable by anyone, exactly the session's content at that moment: every edit made so far and nothing else. "
     "It keeps holding that content if the process is killed at any later instant, until something saves to that path again. "
     "A fresh process can always reopen a saved document, and the reopened session exports the same document.",
     ["histories", "crash_points", "inputs"],
     "every document, every history of edits, exports and saves (to new or existing paths) and every instant after the save at which the process is killed",
     "No test saves a file at all; only in-memory export of three fixed documents is compared. A handle left unflushed, a stale cached export, a missing truncation or a document that cannot be reopened (for example after its last slot was removed) goes unnoticed.",
     [ED, BASE, DATA],
     [("SpineAnimationEditor.to_json / save_images_json", ED), ("SpineData.to_json default omission", BASE), ("SpineAnimationData.__init__", DATA)],
     [("output file", "the only durable state the library has", ED)], ["file content at every system call", "re-opened session's export"])
prop("C02", "An interrupted save never damages the file it replaces",
     "At every instant during a save of a document or image index, whatever is at the target path is either its complete previous content (or nothing, if there was none) or the complete new content. "
     "This remains true if the process is killed, the machine loses power, an exception or Ctrl-C interrupts the save, or the disk returns an error or runs full at any point.",
     ["crash_points", "fault_sequences", "inputs"],
     "every point at which a save can be killed, interrupted, lose power (un-synced data and renames lost or torn) or get a disk error, and every previous content of the target",
     "No test writes a file, injects an I/O error or kills a save.",
     [ED, UTILS], [("to_json / save_images_json write path", ED)],
     [("target path", "previous or next version of the document", ED)], ["target path content after every file-system event", "content after simulated power loss"])
prop("C03", "A save that fails says so, does no harm, and works when retried",
     "A save that could not put the complete new content in place raises an error. "
     "A failed or interrupted save leaves the session's document and image index unchanged and leaves no stray files next to the target (as long as the process lives and deleting files works). "
     "As soon as the fault is gone, saving succeeds at the first attempt, to any writable path: bare file name, existing directory, or directories that do not exist yet.",
     ["fault_sequences", "histories"],
     "every sequence of open, mkdir, write, sync, close and rename errors, full disks and short writes during saves, followed by a fault-free retry; every form of target path",
     "No test saves; error handling of the write path is never exercised.",
     [ED, UTILS], [("to_json / save_images_json error paths and directory creation", ED)], (), ["exceptions", "directory listing after a failed save", "export before/after"])
prop("C04", "Opening a file is faithful or fails outright",
     "Opening an intact, supported document file yields a session whose export carries everything that is in the file, differing at most in attributes that hold the Spine format's default value; any other file yields exactly what it says in the same way or is refused with an error. "
     "A truncated, unreadable, corrupted or concurrently replaced file never yields a session holding only part of, or a mixture of, file contents, and opening always terminates. "
     "Opening never writes to disk.",
     ["inputs", "fault_sequences", "schedules"],
     "every supported document and every read error, short read, truncation point, flipped stored byte and interleaving with another process that replaces the file",
     "Tests open three intact fixed files; none truncates, corrupts or replaces the file or fails a read, and most attribute kinds never occur in them.",
     [ED, DATA, BASE, SKIN, NODES], [("from_json_file / SpineAnimationData parsing", DATA), ("default handling", BASE)], (), ["exception or export of the opened session"])
prop("C05", "Concurrent saves act as indivisible writes and do not get in each other's way",
     "Any number of threads or processes saving at the same time, to different or identical paths, in existing or not yet existing shared directories, all succeed. "
     "Each file behaves as one indivisible register: every open returns the complete document of a save that was in progress or the latest finished one, consistent with real-time order, and no mixture of two saves is ever visible.",
     ["schedules"], "every interleaving, at source-line and system-call granularity, of concurrent saves and opens",
     "No test is concurrent.", [ED, UTILS], [("to_json / save_images_json, directory creation", ED)], (), ["save/open history (linearizability)", "final file content"])
prop("C06", "Editing sessions are isolated from each other and from the caller's data",
     "Any number of sessions, in any number of threads of one process, created from separate files or from one shared input structure, behave exactly as if each ran alone, whatever the interleaving and even if another session fails or is interrupted mid-operation. "
     "The caller's input structure is never modified, and exported data is a snapshot: changing it afterwards, or changing the input, has no effect on any session.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of the operations of several sessions at source-line granularity, with interrupts injected into some of them",
     "Every test uses one session at a time in one thread; state shared through class attributes, module globals, default tables or aliased structures shows only with several live sessions.",
     [DATA, BASE, ED, SKIN, NODES], [("deep copies of input and default tables", DATA), ("default_values", BASE), ("SpineNodeData deep copy", NODES)], (), ["per-session results compared with a solo run"])
prop("C07", "Reading a session has no side effects, even concurrently or when interrupted",
     "Exporting, saving, computing image references, finding unused slots and attachments, and querying the node graph never change a session. "
     "Any number of threads doing these at once on the same session, some of them interrupted at arbitrary points, each get the same answer as if they ran alone, and later edits behave as if the reads had never happened.",
     ["schedules", "fault_sequences", "histories"],
     "every interleaving of read operations on one session at source-line granularity, interrupts at any line, followed by further edits",
     "Tests read each session once, single-threaded, never followed by more edits.",
     [ED, DATA, BASE, SLOT, CONT, DAG], [("to_json_data / traverse_spine_data", BASE), ("get_images_references", ED), ("get_unused_slots_and_attachments", DATA), ("DAGraph queries", DAG)], (), ["results and session export compared with a run without the reads"])
prop("C08", "The same history gives the same result in every process environment",
     "The same operations on the same files give byte-identical saved documents and image indexes and the same sets of reported removals in every process: the result does not depend on string-hash randomisation, hence on set or dictionary hashing order, nor on the host's locale or default text encoding.",
     ["configurations", "histories"],
     "every string-hash seed and default text encoding of the process, for every document and history of edits",
     "The test command pins PYTHONHASHSEED=0 and runs under one locale, and compares results order-insensitively.",
     [ED, DATA, CONT, BASE, NODES], [("set-valued bookkeeping in cleanup", DATA), ("open() in from_json_file", ED)], (), ["bytes of saved files across processes"])
prop("C09", "Crashing and reopening is transparent to editing",
     "For any history of edits with saves in between, killing the process at any instant, reopening the newest saved document and continuing from that point ends with exactly the document and image index that an uninterrupted session produces. "
     "No state that influences later edits lives only in memory.",
     ["crash_points", "histories", "inputs"],
     "every document, every history of edits and saves, and every set of crash points (inside edits, inside saves, between operations)",
     "No test performs two edits in one session, saves, or reopens.",
     [ED, DATA, BASE, NODES], [("spine_graph rebuilt or kept between operations", ED), ("default omission/restoration pair", BASE)],
     [("spine_graph", "derived copy of bones/slots/ik/attachments kept in memory", ED), ("images_references", "derived index kept in memory", ED)], ["final export and image index of crashed vs uninterrupted run"])
prop("C10", "Every edit is all-or-nothing",
     "An edit (erasing animations or skins, cleaning up, scaling) that raises, for whatever reason - an unknown name in strict mode, a wrong argument, a failing standard output, exhausted memory or Ctrl-C at any point (a single failure per call) - leaves the session's document and image index exactly as they were before the call. "
     "The session stays usable: repeating the edit without the fault, and all later operations, give the same result as if the failed attempt had never happened.",
     ["fault_sequences", "histories"],
     "every point inside an edit at which an exception can surface, every rejected request, in every history",
     "Tests never provoke a failing edit; the only error test concerns parsing.",
     [ED, DATA], [("erase_animations / erase_skins / clean_animation / scale_animation", ED), ("remove_skin", DATA)],
     [("document, image index, node graph", "updated step by step by an edit", ED)], ["export and index before/after a failed edit", "results of the retry and later operations"])
prop("C11", "The image index always matches the document",
     "After any history of edits, failed edits, saves and restarts, the session's image index lists exactly the images that the attachments of the current document refer to, each with its path under the skeleton's image folder and its custom scale, no more and no fewer. "
     "A saved image index and a freshly opened session show the same index.",
     ["histories", "fault_sequences", "crash_points", "inputs"],
     "every document and every history of edits, with faults and restarts in between",
     "Two tests compare the index after one operation on one fixed file each; shared attachment names, unnamed attachments, unusual image names and operation sequences are not covered.",
     [ED, DATA, NODES, CONT], [("images_references maintenance", ED), ("remove_skin image list", DATA), ("image nodes in the graph", NODES)],
     [("images_references", "incrementally maintained index", ED)], ["images_references vs. independent computation from the export"])
prop("C12", "No edit history leaves a dangling reference",
     "After any history of edits, failed edits and restarts, every reference that was valid in the opened document is either still valid or gone: no skin entry, slot timeline, draw-order entry, deform timeline or path constraint belongs to or follows a slot that an edit removed, no deform timeline names a skin or attachment that an edit removed, no slot keeps as its default an attachment that cleanup removed, and no remaining linked mesh has lost its parent mesh or skin. (The names in attachment keys are looked up in whichever skin is active; a skin need not have them.) "
     "Slots and constraints keep referring to existing bones.",
     ["histories", "fault_sequences", "inputs"],
     "every document with intact references and every history of edits, including failing ones and restarts",
     "Two single-edit comparisons on fixed files; no general reference check exists.",
     [ED, ANIM, DATA, CONT, NODES], [("remove_slots / remove_attachments clean-up", ED), ("remove_skin linked mesh and deform handling", DATA), ("_to_base_id", NODES)], (), ["exported document after every operation"])
prop("C13", "Edits never change the draw order of the slots that remain",
     "After any history of edits, failed edits and restarts, at the setup pose and at every draw-order key of every remaining animation, the remaining slots are drawn in the same relative order as in the originally opened document. "
     "Every remaining draw-order key is still well formed: it names existing slots in slot order, with positions inside the slot list.",
     ["histories", "fault_sequences", "inputs"],
     "every document with draw-order keys (any permutation) and every history that removes slots in one or several steps, with faults and restarts in between",
     "One fixed file with a handful of keys and a single edit is compared.",
     [DRAW, ED], [("remove_offsets_with_ids", DRAW)], (), ["draw order decoded from the export by an independent decoder after every operation"])
prop("C14", "Edits change nothing they were not asked to change",
     "Erasing animations or skins removes exactly the named ones; whatever an edit leaves in the document - bones, remaining slots, skins and attachments, constraints, events, skeleton header, and every key of the remaining animations that does not belong to a removed slot or attachment - keeps its content and order. "
     "In safe mode nothing but the named animations or skins (and deform timelines of those skins) disappears, and a linked mesh whose parent skin is erased keeps its geometry and its own appearance. "
     "Faults, failed edits and restarts in between make no difference.",
     ["histories", "fault_sequences", "inputs"],
     "every document and every history of edits with faults and restarts",
     "Two single-edit comparisons against golden files; attribute kinds, linked meshes across skins, safe mode and sequences of edits are not covered.",
     [ED, DATA, ANIM, BASE, BONE, SKIN], [("erase_animations / erase_skins / clean_animation", ED), ("remove_skin", DATA), ("rebuild from graph", NODES)], (), ["relation between exports before and after every edit"])
prop("C15", "Cleanup removes exactly what no remaining animation can show",
     "Cleanup (on its own or as part of a non-safe erase) never removes a slot or attachment that some remaining animation can show: slots visible in the setup pose and not hidden for the whole animation, or made visible by the animation, with their default and keyed attachments; meshes of such slots stay too, and so do the slots that path constraints follow, with their paths. "
     "It does remove every slot that all remaining animations keep hidden or that has no attachment left (unless a path constraint needs it) and every non-mesh attachment name no remaining animation uses, and it reports exactly the slots it removed. "
     "This holds at every step of every history, including after failed edits and restarts.",
     ["histories", "fault_sequences", "inputs"],
     "every document with at least one remaining animation and every history of edits with faults and restarts",
     "One golden file each for two operations; the visibility rules (alpha, two-colour, hidden from time zero, keyed later) have many combinations no test reaches.",
     [DATA, SLOT, ED, CONT], [("get_unused_slots_and_attachments / get_visible_slots_and_attachments", DATA), ("SlotTimeline.is_empty", SLOT), ("remove_leafs_of_type", CONT)], (), ["removed/kept sets vs an independent visibility model"])
prop("C16", "Scaling takes effect exactly once and is never lost",
     "After any history, the scale of the root bone and of every bone whose transform mode does not inherit scale (noScale, noScaleOrReflection, onlyTranslation) is its original scale times the product of all completed scalings, and every other bone's scale is untouched. "
     "Other edits, failed edits, saves, crashes and reopenings in between neither lose, repeat nor alter it.",
     ["histories", "fault_sequences", "crash_points"],
     "every order of scalings, other edits, failed edits, saves and restarts",
     "Scaling is not tested at all.",
     [ED, BONE, NODES], [("scale_animation", ED), ("Bone.scale", BONE), ("bones rebuilt from the graph in clean_animation", ED)], (), ["bone scales in the export after every operation vs a per-bone product"])
prop("C17", "A node graph stays consistent through every accepted, rejected or failed call",
     "After any history of adding and removing nodes and edges, including calls that are rejected and calls whose node factory fails, every edge is recorded at both of its ends and connects existing nodes, ids are unique, and looked-up nodes, heads and tails match the accepted operations. "
     "A rejected or failed call changes nothing. Graphs built concurrently in several threads do not influence each other.",
     ["histories", "fault_sequences", "schedules"],
     "every history of graph calls with valid and invalid arguments and node-factory failures at any call, interleaved with other graphs' histories in other threads",
     "Tests try each rejection once on a graph of at most seven nodes and never remove a connected node or an edge.",
     [DAG, SPAM, "spine_json_lib/graph/factories.py", NODES], [("add_node / add_edge / remove_edge / remove_node_by_id", DAG), ("_add_child / _add_parent", SPAM)], (), ["full node/edge dump after every call vs a model graph"])
prop("C18", "Spine versions compare in version order",
     "Comparing two Spine versions (or a version and a string) orders them by major, then minor, then patch number.",
     ["inputs"], "every pair of versions", "No test compares versions.",
     ["spine_json_lib/data/spine_version_type.py"], [("SpineVersion comparison operators", "spine_json_lib/data/spine_version_type.py")])
prop("C19", "Scale tags in names are read exactly or rejected",
     "A name carrying well-formed scale tags yields the tagged number; an unknown or repeated tag or a non-numeric value is rejected; any other text yields no tag.",
     ["inputs"], "every name", "A handful of names are tested.",
     [UTILS], [("get_tags_from_name", UTILS)])
prop("C20", "Graph path, order and cycle queries are exact",
     "On an acyclic graph the enumerated paths between two nodes are all simple paths within the depth limit, the execution order respects every edge, and a cycle is reported exactly when one exists.",
     ["inputs"], "every graph", "A few graphs of at most seven nodes are tested.",
     [DAG, "spine_json_lib/graph/graph_validator.py"], [("get_all_paths / sequential_order_of_execution", DAG), ("get_circular_dependencies", "spine_json_lib/graph/graph_validator.py")])
prop("C21", "Unsupported or incomplete documents are rejected with a clear error",
     "A document containing an attribute or attachment type the library does not support, or lacking a required attribute, is refused with an error naming it; every supported attachment type is accepted.",
     ["inputs"], "every document", "One missing attribute is tested.",
     [BASE, SKIN], [("SpineData.__init__ attribute check", BASE), ("parse_skin_attachment_data", SKIN)])
prop("C22", "What an edit reports is what it did",
     "After any history of edits, failed edits, saves and restarts, the result of an edit is the truth: erasing animations returns exactly the session's new document; the slots reported as removed are exactly those that disappeared; "
     "every attachment name reported as removed existed and is gone from all skins, and every attachment that disappeared from a remaining slot is reported; safe mode reports nothing removed. "
     "The images reported by erasing skins are exactly those that attachments of the erased skins used and that no attachment of the remaining skins uses. "
     "A request that names an unknown skin or, in strict mode, an unknown animation is refused with an error; a valid request is not refused, and outside strict mode unknown animations are skipped.",
     ["histories", "fault_sequences", "crash_points", "inputs"],
     "every document and every history of edits with faults and restarts in between",
     "One test compares the reported sets of one operation on one fixed file in which every attachment is explicitly named and a single edit is made.",
     [ED, DATA, CONT], [("return values of erase_animations / erase_skins / clean_animation", ED), ("remove_skin image list", DATA)], (), ["returned sets and document vs exports before and after every edit"])
prop("C23", "Long use does not wear a process out",
     "However long a session or process is used: no call - successful, rejected, failed or interrupted at any point - leaves a file open or a lock held when it has ended, and every call ends. "
     "Repeating operations that leave the document as it is (reads, saves to the same places, idempotent edits, opening and dropping sessions, rejected or interrupted requests) takes no more memory, files on disk or steps per operation after many repetitions than after the first few.",
     ["histories", "fault_sequences"],
     "every cycle of operations that leaves the document as it is, with interrupts, allocation failures and disk errors at any point of some of them, repeated",
     "Every test performs one or two operations on a fresh session and exits; nothing is ever repeated and open files or memory are never looked at.",
     [ED, DATA, UTILS, NODES], [("from_json_file / to_json / save_images_json file handling", ED), ("state kept by sessions and modules", ED)], (), ["open descriptors and locks after every call", "objects reachable from sessions and modules after n repetitions", "simulated steps and system calls per operation"])
prop("C24", "Graphs loaded from document files are faithful, or loading fails outright",
     "Loading an intact document file as a node graph (SpineGraphParser.create_from_json_file, or DAGraph.create_from_json_file with that parser and SpineNodeFactory) yields exactly one node for each bone, slot and IK constraint, for each name of an attachment that some skin gives a slot, and for each image these use, linked as the file says: bones to their parents, slots to their bones and attachments, attachments to their images, IK constraints to their bones and target. "
     "Writing the graph back as JSON yields the file's bones, slots and IK constraints in the file's order with every attribute as it was, each time it is written. "
     "A truncated, corrupted, unreadable or concurrently replaced file never yields a graph of a part or a mixture of file contents, and loading always terminates; loads that fail or are interrupted, and loads in other threads, leave no trace in graphs loaded at the same time or later. Loading never writes to disk.",
     ["inputs", "fault_sequences", "schedules"],
     "every supported document and every read error, short read, truncation, flipped stored byte, replacement by another process, and interleaving with other loads",
     "One test loads one intact file once and compares three sections; nothing is ever truncated, replaced, interrupted or loaded twice.",
     [NODES, DAG, SPAM], [("create_from_json_file / create_from_json_data / to_json_data", NODES), ("DAGraph.create_from_json_file / to_json", DAG)], (), ["exception, or nodes, edges and JSON of the loaded graph"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
