#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description (run by hand after editing)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from table import CHECKS
AX = "FColladaPlugins/FArchiveXML/"
D = "FCollada/FCDocument/"
U = "FCollada/FUtils/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None, technique="", note="", na=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, state=state, hook=hook, technique=technique, note=note, na=na))


RT_WHY = ("The existing tests save and load a few fixed documents within one process on a healthy disk; they never cross a process boundary, never chain generations with edits in between "
          "and cover a small part of the combinations of content a document can hold.")
RT_TECH = "deterministic simulation: seeded edit/save/kill/restart/load histories on a simulated disk, compared with a canonical description"
RT_NOTE = ("Sampled histories of up to four generations; every generation is saved, the process is killed or shut down, and a new process life loads the file from the simulated disk and compares every described value. "
           "The real library, libxml2 and stdio run; disk, clock and process lifetime are simulated. Values are drawn so that decimal text keeps them (2e-4 relative tolerance).")
RT_OVER = ["histories", "crash_points", "inputs"]


def rt(id, title, what, files, mech, extra=""):
    prop(id, title,
         "After a save of a document is acknowledged, a new process that loads the file gets " + what + ", and this stays true over any number of save, restart, load and edit generations."
         + (" " + extra if extra else ""),
         RT_OVER, "every history of edits, saves, process deaths after an acknowledged save, restarts and loads, whatever the content, heap layout, wall clock and read sizes",
         RT_WHY, files, mech, observe=["contents of the document after loading, through the public accessors", "errors reported while saving and loading"],
         technique=RT_TECH, note=RT_NOTE)


rt("S03", "Document information, cameras, lights and effects fields survive restarts",
   "the same document and library information (contributors, titles, units, up axis, creation date), the same user-defined extra trees, and the same cameras, lights, emitters and force fields with all their settings",
   [AX + "FAXCameraExport.cpp", AX + "FAXCameraImport.cpp", AX + "FAXLightExport.cpp", AX + "FAXLightImport.cpp", AX + "FAXEntityExport.cpp", AX + "FAXEntityImport.cpp",
    AX + "FAXForceFieldExport.cpp", AX + "FAXEmitterExport.cpp", U + "FUXmlWriter.cpp", U + "FUXmlParser.cpp"],
   [{"name": "write and load functions for each element", "where": AX + "FAX*Export.cpp / FAX*Import.cpp"}, {"name": "text escaping and parsing", "where": U + "FUXmlWriter.cpp, FUXmlParser.cpp"}])
rt("S04", "The scene graph survives restarts",
   "the same visual scenes: the same node hierarchy with names, identifiers, flags, visibility and transform stacks in order, the same instances of cameras, lights, geometries, controllers, emitters and force fields with their material bindings, the same shared nodes, targets and layers",
   [AX + "FAXSceneExport.cpp", AX + "FAXSceneImport.cpp", AX + "FAXInstanceExport.cpp", AX + "FAXInstanceImport.cpp", D + "FCDSceneNode.cpp", D + "FCDTransform.cpp"],
   [{"name": "scene node, transform and instance writers and loaders", "where": AX + "FAXScene*.cpp, FAXInstance*.cpp"}, {"name": "deferred linking of instances and targets", "where": AX + "FArchiveXML.cpp Import"}])
rt("S05", "Geometry survives restarts",
   "the same meshes (vertex data sources, polygon sets with their inputs, indices, face sizes, holes and material symbols, convex hull settings) and the same splines (type, control points, weights, knots, closed flags)",
   [AX + "FAXGeometryExport.cpp", AX + "FAXGeometryImport.cpp", D + "FCDGeometryMesh.cpp", D + "FCDGeometryPolygons.cpp", D + "FCDGeometrySource.cpp", D + "FCDGeometrySpline.cpp"],
   [{"name": "mesh, source, polygons and spline writers and loaders", "where": AX + "FAXGeometry*.cpp"}])
rt("S06", "Controllers survive restarts",
   "the same skins (target, bind-shape matrix, joints with their bind poses, influences with their weights) and morphs (base, method, targets with weights), and controller instances bound to the same skeleton joints",
   [AX + "FAXControllerExport.cpp", AX + "FAXControllerImport.cpp", AX + "FAXInstanceExport.cpp", AX + "FAXInstanceImport.cpp", D + "FCDSkinController.cpp", D + "FCDMorphController.cpp", D + "FCDControllerInstance.cpp"],
   [{"name": "controller writers, loaders and link pass", "where": AX + "FAXController*.cpp"}])
rt("S07", "Materials, effects and images survive restarts",
   "the same materials, effects, profiles, techniques, passes, states, shaders, parameters and images, with the same values and the same links between them",
   [AX + "FAXMaterialExport.cpp", AX + "FAXMaterialImport.cpp", AX + "FAXImportLinking.cpp", D + "FCDEffectStandard.cpp", D + "FCDTexture.cpp"],
   [{"name": "material, effect, parameter and image writers and loaders", "where": AX + "FAXMaterial*.cpp"}])
rt("S08", "Animations survive restarts",
   "the same animation tree, the same animated values, each with the same curves, keys, interpolation, tangents and infinities bound to the same component of the same value, and the same animation clips",
   [AX + "FAXAnimationExport.cpp", AX + "FAXAnimationImport.cpp", D + "FCDAnimated.cpp", D + "FCDAnimationCurve.cpp", D + "FCDAnimationChannel.cpp", D + "FCDAnimationClip.cpp"],
   [{"name": "channel targeting and curve merging", "where": AX + "FAXAnimation*.cpp"}, {"name": "animated value pointers and qualifiers", "where": D + "FCDAnimated.cpp"}])
rt("S09", "Physics content survives restarts",
   "the same physics materials, models, rigid bodies, constraints, shapes and scenes, with the same parameters and the same links between instances and what they instantiate",
   [AX + "FAXPhysicsExport.cpp", AX + "FAXPhysicsImport.cpp", D + "FCDPhysicsModel.cpp", D + "FCDPhysicsRigidBody.cpp", D + "FCDPhysicsScene.cpp", D + "FCDPhysicsShape.cpp", D + "FCDPhysicsAnalyticalGeometry.cpp"],
   [{"name": "physics writers and loaders", "where": AX + "FAXPhysics*.cpp"}])

prop("S01", "An acknowledged save is complete; a save that failed says so",
     "When a save answers success and reports no error, the file holds the complete document. When the disk refuses or loses part of the write (full disk, failed write, failed open, failed close), the save answers failure. Nothing but the target file is changed and the document in memory is unharmed, so that a retry on a healthy disk succeeds.",
     ["fault_sequences", "crash_points", "inputs"], "every sequence of saves of any document with any single or repeated disk fault at any byte or call of the write",
     "The tests only write to a healthy disk; where exactly a write can fail is a space of thousands of points per document.",
     ["FCollada/FCollada.cpp", AX + "FArchiveXML.cpp", U + "FUXmlDocument.cpp", D + "FCDocument.cpp"],
     [{"name": "writing of the XML tree and reporting of the outcome", "where": U + "FUXmlDocument.cpp Write"}, {"name": "export answer", "where": AX + "FArchiveXML.cpp ExportFile"}],
     ["answer of the save", "errors reported", "bytes on the simulated disk"],
     technique="deterministic simulation with disk fault injection at seeded bytes and calls of the save, crash and retry", note="Fault points are sampled over the whole write stream. Durability is judged at the level of what was handed to the file system (the library never asks for a sync).")
prop("S02", "Loading a damaged file or from a failing disk never harms the process",
     "Loading a file that was cut short, torn, lost or could not be read to its end returns an answer: it does not crash, hang, exhaust memory or leave a file open. A file whose text is no longer complete is refused with an error. The process stays fully usable: the intact file then loads with its full content.",
     ["fault_sequences", "crash_points", "inputs"], "every document, every cut, torn tail or read failure at any byte, and any sequence of such loads",
     "Tests load well-formed files from a healthy disk.",
     ["FCollada/FCollada.cpp", AX + "FArchiveXML.cpp", U + "FUXmlDocument.cpp", U + "FUFile.cpp", U + "FUXmlParser.cpp"],
     [{"name": "reading and parsing of the file", "where": U + "FUXmlDocument.cpp, FUFile.cpp"}, {"name": "import with error handling", "where": AX + "FArchiveXML.cpp ImportFile"}],
     ["answer of the load", "errors reported", "open files", "later loads"],
     technique="deterministic simulation with read faults, truncation and torn files at seeded points, AddressSanitizer as invariant", note="Files damaged in ways storage produces (cuts, lost tails, zeroed blocks, read errors), not adversarial XML.")
prop("S10", "Saving does not change the document and is repeatable",
     "Saving a document, successfully or not, any number of times and in any order with other documents, leaves everything observable in it unchanged apart from its modification date and file location. Two saves of the same unchanged document at the same time of day write the same bytes, also from another process with another memory layout that loaded the same file.",
     ["histories", "fault_sequences", "inputs"], "every sequence of saves, with and without disk faults, interleaved with saves of other documents, under any heap layout",
     "Tests never compare a document before and after a save, nor two outputs of the same document under different memory layouts.",
     [AX + "FArchiveXML.cpp", AX + "FAXSceneExport.cpp", AX + "FAXAnimationExport.cpp", D + "FCDocument.cpp"],
     [{"name": "temporary extra data added during export and removed afterwards", "where": AX + "FAX*Export.cpp"}, {"name": "export bookkeeping keyed by object address", "where": AX + "FAXStructures.h"}],
     ["description of the document before and after", "bytes on the simulated disk"],
     technique="deterministic simulation: repeated, failed and interleaved saves with perturbed heap layouts, byte and description comparison", note="Sampled histories.")
prop("S11", "A load's result depends only on the file, not on what was loaded before",
     "Loading a file gives the same document whatever the process loaded, failed to load, cancelled or saved before, from a file or from memory, and however many other documents are open. A refused or cancelled load leaves every other open document untouched.",
     ["histories", "fault_sequences"], "every sequence of loads, failing loads, cancelled loads and saves before the load",
     "The tests load a handful of files in a fixed order and never after a failed or cancelled load.",
     ["FCollada/FCollada.cpp", AX + "FArchiveXML.cpp", AX + "FAXStructures.h", D + "FCDocument.cpp"],
     [{"name": "link data kept per document and cleared after the load", "where": AX + "FAXStructures.h DocumentLinkData"}, {"name": "count of loaded documents and clearing of intermediate data", "where": AX + "FArchiveXML.cpp"}],
     ["description of the loaded document"],
     technique="deterministic simulation: random histories of loads, cancellations and disk faults; each load compared with the same load in a fresh process life", note="Sampled histories.")
prop("S12", "External references resolve to the right entity or to none",
     "A reference from one document into another gives exactly the entity with that identifier in the target document once that document is available, and nothing while it is not. This holds for every order of opening, closing, saving and reopening the documents, when targets are missing, cyclic or unreadable, and the reference itself survives a save whether or not it was resolved.",
     ["histories", "fault_sequences"], "every order of opening, saving and closing linked documents, with missing or unreadable targets",
     "The tests open one fixed pair of linked documents.",
     [D + "FCDExternalReferenceManager.cpp", D + "FCDPlaceHolder.cpp", D + "FCDEntityReference.cpp", D + "FCDEntityInstance.cpp", AX + "FArchiveXML.cpp"],
     [{"name": "place holders for documents and their loading and unloading", "where": D + "FCDPlaceHolder.cpp"}, {"name": "references from instances", "where": D + "FCDEntityReference.cpp"}],
     ["entity reached through an instance", "reference text in the saved file"],
     technique="deterministic simulation: histories over several linked files against a small model of which document is open", note="Sampled histories.")
prop("S13", "Closing documents leaves nothing dangling and nothing leaked",
     "Releasing any document or entity, in any order, never leaves an object that touches freed memory: whatever pointed to it either follows to nothing or goes with it. Repeating the same open, edit, save, close cycle does not grow the memory the process holds.",
     ["histories"], "every order of releasing entities, instances and documents, and repeated life cycles",
     "Tests release one document at the end; whether any order of releases is safe and whether memory is returned is never checked.",
     [D + "FCDocument.cpp", D + "FCDObject.cpp", U + "FUObject.cpp", U + "FUTracker.cpp", D + "FCDLibrary.hpp"],
     [{"name": "ownership containers and tracked pointers", "where": U + "FUObject.h, FUTracker.h"}],
     ["memory errors", "live heap bytes after repeated cycles"],
     technique="deterministic simulation: seeded release orders and cycles, AddressSanitizer and a live-heap meter as invariants", note="Sampled histories.")
prop("S15", "Tracked pointers, lists and owned containers agree with a simple model",
     "Under any sequence of insertions, removals, assignments, copies and object deaths, a tracked pointer is null exactly when its object has died, a tracked list holds exactly the live objects put in it in order, an owning container destroys each of its objects exactly once, and the library's vector, list, map and tree containers hold what the same operations leave in the standard containers.",
     ["histories"], "every sequence of operations over pointers, lists and containers with objects dying at any moment",
     "Tests exercise a few fixed sequences.",
     [U + "FUTracker.h", U + "FUTracker.cpp", U + "FUObject.h", U + "FUObject.cpp", "FCollada/FMath/FMArray.h", "FCollada/FMath/FMTree.h"],
     [{"name": "tracker lists kept by each trackable object", "where": U + "FUTracker.cpp"}, {"name": "ownership back pointers", "where": U + "FUObject.h"}],
     ["contents and liveness"],
     technique="deterministic simulation: object deaths injected at seeded points of operation histories, checked step by step against a reference model", note="Sampled histories.")
prop("S16", "Events reach exactly the handlers registered at that moment",
     "Every handler registered for an event is called exactly once per trigger, the latest registered first, with the arguments of the trigger, and a removed handler is never called again. Each removal takes away one registration of the given owner, the oldest, and no other. A handler registered during a delivery is called from the next trigger on. This holds when handlers add or remove handlers, themselves included, or trigger the event again while it is being delivered.",
     ["histories", "schedules"], "every history of registration, removal and triggering, including from inside handlers",
     "Tests register and trigger in straight lines.",
     [U + "FUEvent.h"],
     [{"name": "handler list and its traversal", "where": U + "FUEvent.h"}],
     ["sequence of calls seen by handlers"],
     technique="deterministic simulation: seeded re-entrant delivery histories against a reference model", note="Sampled histories.")
prop("S17", "Every error reaches every registered listener exactly once",
     "Each error, warning or debug message raised by the library is delivered exactly once to every listener registered for its level and to no other, with its own code and line, from whatever thread it was raised, while listeners come and go on other threads. The log file and the simple error collector hold each message they were meant to receive, and text in messages is never interpreted. Listeners may themselves raise errors and add or remove listeners.",
     ["schedules", "histories"], "every interleaving of threads raising errors and adding or removing listeners",
     "Tests are single threaded.",
     [U + "FUError.cpp", U + "FUErrorLog.cpp", U + "FULogFile.cpp"],
     [{"name": "listener lists under a critical section", "where": U + "FUError.cpp"}],
     ["calls seen by listeners", "log file on the simulated disk"],
     technique="deterministic simulation: seeded thread scheduler that can switch at every lock operation and every compiled edge of the error, log and file code; delivery history checked against the registration history", note="Sampled schedules; only the error, log and file code is preempted at every edge.")
prop("S18", "Identifiers stay unique and resolvable",
     "No two entities of a document ever have the same identifier and no two animatable siblings of a node the same sub-identifier after a save, whatever names are requested, added, removed, renamed or loaded. Looking up an identifier gives exactly the live entity that carries it, and an identifier given up by a dead entity can be used again.",
     ["histories"], "every history of creating, renaming, releasing, loading and saving entities",
     "Tests request a handful of names.",
     [D + "FCDObjectWithId.cpp", U + "FUUniqueStringMap.h", D + "FCDLibrary.hpp", D + "FCDEntity.cpp"],
     [{"name": "per-document map of used names", "where": U + "FUUniqueStringMap.h, " + D + "FCDObjectWithId.cpp"}],
     ["identifiers of all entities", "lookups", "identifiers in the saved file"],
     technique="deterministic simulation: naming histories over document lives, against a reference model of the names in use", note="Sampled histories.")
prop("S19", "Custom URI transports are used exactly once and with complete data",
     "When an application registers its own transport for a URI scheme, opening such a URI uses that transport alone and the library sees exactly the bytes delivered, whether the transport answers at once, later, with a local copy, or not at all. After the transport is removed, or for other schemes, the ordinary file system is used.",
     ["schedules", "fault_sequences"], "every order and delay of transport answers, failures and registrations",
     "Tests use the local file system only.",
     [U + "FUFileManager.cpp", U + "FUFile.cpp", "FCollada/FCollada.cpp"],
     [{"name": "scheme callbacks", "where": U + "FUFileManager.h"}],
     ["requests seen by the transport", "document loaded"],
     technique="deterministic simulation: simulated transport with seeded answers, failures and delays", note="Sampled histories.")
prop("S20", "The archive plug-in that handles a file is the one that is used",
     "A document is read and written by the registered plug-in that handles its extension and by no other, independent of registration order and of plug-ins registered or removed before. Extra techniques with a registered profile are given to their plug-in complete and once per load.",
     ["histories", "configurations"], "every history of registering, using and removing plug-ins",
     "Tests use one plug-in.",
     ["FCollada/FColladaPlugin.cpp", U + "FUPluginManager.cpp", "FCollada/FCollada.cpp"],
     [{"name": "plug-in registry and dispatch", "where": "FCollada/FColladaPlugin.cpp"}],
     ["calls seen by plug-ins", "answers of load and save"],
     technique="deterministic simulation: stub plug-ins registered and removed in seeded histories", note="Sampled histories.")
prop("S21", "Time stamps come from the clock and are kept",
     "A new document and a saved document carry the wall-clock time of their creation and of their last save, for every date and under clock jumps in either direction. Saving never changes the creation time, and the times read back from a file are the times written.",
     ["histories", "inputs"], "every instant between 1970 and 2100, every clock jump and history of saves",
     "Tests cannot choose the clock.",
     [D + "FCDAsset.cpp", U + "FUDateTime.cpp", AX + "FAXEntityExport.cpp", AX + "FAXEntityImport.cpp", U + "FUStringConversion.cpp"],
     [{"name": "clock reads", "where": U + "FUDateTime.cpp"}, {"name": "stamp on save", "where": AX + "FAXEntityExport.cpp"}],
     ["time stamps in memory and in the file"],
     technique="deterministic simulation: simulated wall clock with jumps over save/load histories", note="Sampled instants.")
prop("S22", "Animation evaluation does not depend on evaluation history",
     "Evaluating an animated value or curve at a time gives the same result whatever was evaluated before, in any order of times, in a clone, and before and after saving and loading. Between two keys the result follows the interpolation of the keys and passes through them (a stepped interval may answer with either key at its end); outside of the keys it follows the infinity mode, in both directions. Merging straight-line curves, or curves with the same key times, into one multi-dimensional curve keeps what they evaluate to, and a merged curve has every key time. Evaluation, cloning and merging never change the stored curves.",
     ["histories"], "every order of evaluation times over any set of curves",
     "Tests evaluate at a few increasing times.",
     [D + "FCDAnimationCurve.cpp", D + "FCDAnimated.cpp", D + "FCDAnimationMultiCurve.cpp", D + "FCDAnimationCurveTools.cpp"],
     [{"name": "curve evaluation and its caches", "where": D + "FCDAnimationCurve.cpp"}],
     ["evaluated values"],
     technique="deterministic simulation: seeded evaluation histories with clock jumps in animation time against a fresh process life", note="Sampled histories.")
prop("S23", "Piecewise export and import keep the pieces",
     "Entities exported one by one between the start and the end of an export arrive, in memory or on disk, in that order and exactly as a whole-document save writes them, and importing one that needs no other entity gives what loading it with a document gives. The end of an export to a file answers success exactly when the disk took all of it. An export that was started and abandoned, or failed on disk, leaves no trace in later exports, saves and loads.",
     ["histories", "fault_sequences"], "every order and subset of exported objects, with abandoned or failed exports in between",
     "No test uses piecewise export.",
     [AX + "FArchiveXML.cpp", "FCollada/FCollada.cpp"],
     [{"name": "piecewise export state", "where": AX + "FArchiveXML.cpp StartExport, ExportObject, EndExport"}],
     ["file on the simulated disk", "objects imported"],
     technique="deterministic simulation: seeded piecewise export histories with faults, compared with a whole-document save", note="Sampled histories.")
prop("S24", "The file and log wrappers report what the disk did",
     "Reading and writing through the library's file object moves exactly the bytes asked for or reports failure, for any mix of reads, writes, seeks and length queries and any disk fault, and closing releases the file once. A log file holds every message in order, complete, whatever its text.",
     ["fault_sequences", "histories"], "every history of file operations with any disk fault",
     "Tests only read through the file object a little on a healthy disk.",
     [U + "FUFile.cpp", U + "FULogFile.cpp", U + "FUErrorLog.cpp"],
     [{"name": "file wrapper", "where": U + "FUFile.cpp"}, {"name": "log writer", "where": U + "FULogFile.cpp"}],
     ["answers of the calls", "bytes on the simulated disk"],
     technique="deterministic simulation: operation histories on the simulated disk with faults, against a byte-array model", note="Sampled histories.")
prop("S25", "Equivalent texts of a document load as the same document",
     "However a COLLADA document is written down - white space and line ends, comments and processing instructions, attribute order and quotes, character references, CDATA, namespace prefix, character encoding and byte-order mark, spacing and notation of numbers, truth values and dates, left-out default values, the order and splitting of libraries, the layout of indices in primitives, channel target notation - and however the disk hands over its bytes, loading it from a file or from memory gives the same document and the same report, and saving what was loaded gives the same file.",
     ["inputs", "fault_sequences"], "every equivalent text of every document, delivered by the disk in pieces of any size",
     "Tests load a handful of files, nearly all written by this library itself.",
     [U + "FUXmlDocument.cpp", U + "FUXmlParser.cpp", U + "FUStringConversion.cpp", AX + "FAXGeometryImport.cpp", AX + "FAXEntityImport.cpp", AX + "FAXAnimationImport.cpp"],
     [{"name": "text reader", "where": U + "FUXmlParser.cpp, " + U + "FUStringConversion.cpp"}, {"name": "document loader", "where": AX + "FArchiveXML.cpp"}],
     ["loaded document", "errors reported", "file saved again"],
     technique="deterministic simulation: documents rewritten by seeded chains of meaning-preserving changes on the simulated disk with short reads, compared with the plain text's load", note="Sampled documents and changes.")
prop("S26", "Every saved file is a consistent COLLADA document",
     "Whatever the document and its history - built, loaded, edited, its earlier saves refused by the disk - a file the library reports as saved is XML with a COLLADA 1.4 root, its parts in the prescribed order, dates in the prescribed form and every identifier once; every reference reaches an element of the kind it needs, every animation target exists; and every count, stride, component list and index agrees with the values beside it, so that another program can read it.",
     ["histories", "fault_sequences"], "every document that can be built, edited and saved, after any earlier failed saves",
     "Tests read back with this library, which ignores most of what other programs rely on.",
     [AX + "FAXColladaWriter.cpp", AX + "FAXGeometryExport.cpp", AX + "FAXControllerExport.cpp", AX + "FAXAnimationExport.cpp", AX + "FAXEntityExport.cpp", AX + "FArchiveXML.cpp"],
     [{"name": "document writer", "where": AX + "FAXColladaWriter.cpp"}, {"name": "entity writers", "where": AX + "FAX*Export.cpp"}],
     ["file on the simulated disk"],
     technique="deterministic simulation: seeded build, edit, save and load histories with failed saves and restarts; an independent structural check of each saved file", note="Sampled documents and histories; elements and attributes are checked for consistency, not against the full schema.")
prop("S27", "A clone has the content of its original and a life of its own",
     "A clone, with its children, of a geometry, image, effect, material, physics material, force field, emitter, scene node tree without node instances or (materials, constraints and targets aside) physics model - in the same document, or in another one for all but the physics model and scenes with instances - carries every value of its original, identifiers, asset and animation aside. From then on neither sees what is done to the other: editing or releasing one, in any order, through any chain of further clones, leaves the others as they were, and clones that point at nothing in the original's document outlive it. A document with clones is saved and loaded like any other.",
     ["histories"], "every history of building, cloning, editing, releasing, saving and restarting",
     "One test clones a scene and looks at a few values of a healthy document.",
     [D + "FCDGeometryMesh.cpp", D + "FCDGeometryPolygons.cpp", D + "FCDEffect.cpp", D + "FCDEffectStandard.cpp", D + "FCDEffectProfile.cpp", D + "FCDTexture.cpp", D + "FCDMaterial.cpp", D + "FCDImage.cpp", D + "FCDSceneNode.cpp", D + "FCDTransform.cpp", D + "FCDExtra.cpp", D + "FCDForceField.cpp", D + "FCDEmitter.cpp", D + "FCDPhysicsMaterial.cpp"],
     [{"name": "Clone methods", "where": D + "FCD*.cpp ::Clone"}],
     ["described content of original and clone", "saved document after restart"],
     technique="deterministic simulation: seeded clone, edit, release, save and restart histories, every known entity compared with its recorded content after every step", note="Sampled histories; animation of cloned values and the links between the parts of a cloned physics model are not compared.")
for pid, title, st in [
    ("N01", "Vector, matrix and quaternion arithmetic is correct", "Vector, matrix, quaternion and angle operations give the mathematically defined results within floating-point error."),
    ("N02", "Text conversions are inverse to each other", "Converting numbers, matrices, dates and colours to text and back gives the same value."),
    ("N03", "URIs are parsed and resolved by the rules", "Splitting, joining and making URIs relative follows the URI rules and is inverse where it should be."),
    ("N04", "Mesh tools keep the surface", "Triangulation, tangent generation and index optimisation keep positions, faces and attributes of a mesh."),
    ("N06", "Checksums and base64 follow their definitions", "Checksums and base64 coding give the defined output for every input.")]:
    prop(pid, title, st, ["inputs"], "every input", "Tests sample a few inputs.", ["FCollada/FMath/", U, D + "FCDGeometryPolygonsTools.cpp"], [{"name": "pure functions", "where": "FCollada/FMath, " + U}],
         na="A pure function of its input: no schedule, clock, fault, storage or second party to simulate, so deterministic simulation would only be input generation under another name.")

GUARD = json.load(open(os.path.join(HERE, "hooks.json"))) if os.path.exists(os.path.join(HERE, "hooks.json")) else None
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": p["mech"]}
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        if p["state"]:
            a["state"] = list(p["state"])
        a["hook_needed"] = p["hook"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": []}
if GUARD:
    m["hooks"] = GUARD
for p in sorted(P, key=lambda p: p["id"]):
    if p["id"] in CHECKS:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py check %s --tier quick" % p["id"], "thorough_cmd": "python3 run.py check %s --tier thorough" % p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": CHECKS[p["id"]].get("level", "exploration"), "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "Not claimed: no check has been built for it yet."})
m["notes"] = "Every check builds /repo's current tree with the simulator (vbuild.py) and runs seeded simulations; see DESIGN.md."
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
