"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                  "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": list(observe), "hook_needed": None}})
H="hyperstate/hyperstate.py"; S="hyperstate/serde.py"; L="hyperstate/lazy.py"; SC="hyperstate/schedule.py"
RR="hyperstate/schema/rewrite_rule.py"; CH="hyperstate/schema/schema_change.py"; CK="hyperstate/schema/schema_checker.py"
TY="hyperstate/schema/types.py"; VE="hyperstate/schema/versioned.py"; HE="hyperstate/schema/help.py"; CO="hyperstate/command.py"; MT="hyperstate/msgpack_torch.py"

prop("C01","Dumping a config and loading it back gives the same config",
 "For every value of every supported config type (nested dataclasses, lists, tuples, dictionaries, optionals, literals, enums, ints, floats, strings, booleans, lists of alternative dataclasses), dumping it and loading the text or the file as the same type yields an object equal to the original with the same types at every level. Dumping never changes the object that is dumped.",
 ["inputs","programs"],"all supported config classes and all their values",
 "Tests round-trip a handful of fixed objects; the claim is over every type shape and every leaf value (the existing enum test happens to use a member whose name equals its value).",
 [S,H],[("structure-directed encoder","hyperstate/serde.py:asdict"),("type-directed decoder","hyperstate/serde.py:from_dict")],
 observe=["hyperstate.dumps","hyperstate.dump","hyperstate.loads","hyperstate.load"])
prop("C02","Leaving defaults out of a dump never changes what it loads as",
 "For every config and every subset of its fields that happens to equal the declared default, a dump that elides defaults loads back as an object equal to the original, at every nesting depth. A field whose value differs from its default is always written out, and a field that has no default is always written out. A dump that is not asked to leave defaults out writes every field.",
 ["inputs","programs"],"all config values, in particular every combination of fields at and away from their defaults",
 "Only upgrade-config uses elision and no test calls it.",
 [H,S],[("default elision","hyperstate/hyperstate.py:ElideDefaults"),("default construction","hyperstate/serde.py:_try_create_defaults")],
 observe=["hyperstate.dumps(elide_defaults=True)","hyperstate.loads"])
prop("C03","What load returns always conforms to the declared types",
 "For every document and every config class, loading either raises an error or returns an object in which every field value conforms to its declared type at every depth. Reading a number keeps its numeric value as far as the field's type can represent it (a boolean counts as a number, as it does in Python), and a value that does not fit its field (wrong kind, fraction for an integer, wrong tuple length, literal or enum value outside the declared set) is rejected rather than stored.",
 ["inputs","programs"],"all documents (well-typed or not) against all supported field types",
 "Tests only load documents that fit their class; the malformed space and the coercion corner cases are unbounded.",
 [S],[("type-directed decoder and its coercions","hyperstate/serde.py:from_dict")],observe=["hyperstate.loads"])
prop("C04","Unknown fields are never silently dropped, missing ones never invented",
 "A document containing a field its class does not declare, at any depth, is rejected, and with extra fields ignored it loads exactly as if those fields had been removed at every depth. A field that is absent takes its declared default (nested dataclasses without a default are built from the defaults of their own fields), and if there is none, loading is rejected.",
 ["inputs","programs"],"all subsets of declared fields present, all extra fields, at every nesting position including inside lists, dictionaries, tuples, optionals and alternatives",
 "One test loads one top-level extra field; absence and excess are combinatorial in depth and position.",
 [S,H],[("field matching","hyperstate/serde.py:from_dict"),("default construction","hyperstate/serde.py:_try_create_defaults")],observe=["hyperstate.loads(ignore_extra_fields=...)","hyperstate.StateManager"])
prop("C05","An override sets exactly the field it names, and nothing else",
 "Loading with overrides gives the same object as loading without them and then setting each named field (dotted paths through nested and optional dataclasses) to the given value, later overrides winning over earlier ones and over the file. The value is taken verbatim for plain string fields, including any '=' or '.' in it. An override that names no declared field, lacks '=', or whose value does not fit the field is an error, never ignored or replaced by another value, and all unknown names are reported together.",
 ["inputs","histories"],"all override lists over all fields, values and prior file contents",
 "One test applies five well-formed overrides to an empty file.",
 [H,TY],[("override application","hyperstate/hyperstate.py:OverridesDeserializer"),("path resolution","hyperstate/schema/types.py:Struct.find_field")],observe=["hyperstate.load","hyperstate.loads"])
prop("C06","Overrides win whatever version the config file was written at",
 "When a config file of an older version is loaded with overrides, the overrides name fields of the current class and the result equals upgrading the file first and then applying the overrides. No upgrade rule rewrites, renames, rejects or discards an overriding value.",
 ["inputs","configurations"],"all old files, all upgrade rules and all overrides",
 "No test combines overrides with an upgrade.",
 [H,VE,RR],[("order of override and upgrade processing","hyperstate/hyperstate.py:_typed_load")],observe=["hyperstate.load","hyperstate.loads"])
prop("C07","A config is upgraded through exactly the versions it has missed",
 "Loading a file recorded at version k with a class at version n applies the upgrade rules of versions k, k+1, ..., n-1, each exactly once and in order, and of no other version, also for versioned objects nested inside others. Every dump of a versioned object records its class's current version, so a dump loads back without any rule being applied. A file that carries no version is never taken for one written at the current version.",
 ["inputs","histories","programs"],"all file versions, class versions, rule tables (including gaps) and contents",
 "Tests load at most one version step; the claim is over version pairs and rule sequences.",
 [VE,H],[("upgrade loop","hyperstate/schema/versioned.py:Versioned._apply_upgrades"),("version field handling","hyperstate/schema/versioned.py:VersionedDeserializer, VersionedSerializer")],observe=["hyperstate.loads","hyperstate.load","hyperstate.dumps","hyperstate.StateManager"])
prop("C08","Each rewrite rule does its one edit and leaves the rest alone",
 "Applied to any config contents, renaming moves the value of one field to its new (possibly nested) path, deleting removes it, mapping replaces a present value by the function of it, changing or adding a default fills the field in only when it is absent, and checking or rejecting values raises exactly for the disallowed values and otherwise keeps the value. Every other field keeps its value, a rule whose field is absent, or whose parent object is absent or null, changes nothing it is not meant to fill in (a value moved into an object that is null is dropped with it), and no rule crashes on contents its own version could have produced.",
 ["inputs"],"all nested contents, presence patterns, null parents, field paths and values",
 "Tests exercise each rule on one or two fixed contents, and one rule not at all.",
 [RR],[("rule application","hyperstate/schema/rewrite_rule.py:RewriteRule.apply and subclasses"),("path edits","hyperstate/schema/rewrite_rule.py:_remove, _get, _insert")],observe=["RewriteRule.apply","hyperstate.loads"])
prop("C09","Old configs keep the default values they were written under",
 "If a default of a field changes or is removed between versions and the corresponding upgrade rule is declared, then an old config that does not mention the field (or does not mention the nested object containing it) still loads with the old default, while explicitly recorded values are kept and objects that are null or defaulted as a whole stay as they were.",
 ["inputs","histories"],"all presence patterns of nested objects and fields, at every depth",
 "One test covers a fixed pattern; whether the containing object is absent, null, present-but-partial or defaulted as a whole are separate paths.",
 [RR,S],[("default rules and weak references","hyperstate/schema/rewrite_rule.py:ChangeDefault, AddDefault"),("construction from weak references","hyperstate/serde.py:_try_create_defaults")],observe=["hyperstate.loads"])
prop("C10","Upgrade rules act the same way on schemas and on configs",
 "For every schema, config conforming to it and upgrade rule, the config obtained by applying the rule conforms to the schema obtained by applying the rule, with the same set of fields at the same paths, and a value that a rule refuses does not fit that schema. Applying a rule to a schema whose field it describes never fails.",
 ["inputs","programs"],"all schemas, conforming contents and rules",
 "No test compares the two sides; schema checks after an upgrade are only as good as this agreement.",
 [RR,VE],[("schema-level rule application","hyperstate/schema/rewrite_rule.py:apply_to_schema"),("schema path edits","hyperstate/schema/rewrite_rule.py:_remove_schema, _insert_schema")],observe=["RewriteRule.apply","RewriteRule.apply_to_schema","SchemaChecker"])
prop("C11","A schema reported compatible really loads every old config",
 "Whenever the schema checker reports severity INFO for an old schema against a config class, every config written under the old schema (in full or with its defaults left out) loads under the new class without error, with every field that existed before keeping its value. A backwards-incompatible change (removed field, changed type, changed or removed default, removed or re-valued enum member, removed literal value, new required field) is therefore always reported as WARN or ERROR.",
 ["programs","inputs"],"all pairs of old and new schemas and all configs of the old one",
 "The test suite compares six hand-written pairs; the guarantee is over all pairs and all values.",
 [CK,CH,TY],[("change detection","hyperstate/schema/schema_checker.py:SchemaChecker"),("severity of a change","hyperstate/schema/schema_change.py"),("subtype relation","hyperstate/schema/types.py:is_subtype")],observe=["SchemaChecker.severity","SchemaChecker.changes","hyperstate.loads"])
prop("C12","An unchanged class is always reported compatible with its own schema",
 "For every supported config class, checking the class against its own schema, directly or after dumping the schema to a file and loading it, reports no change and severity INFO. Loading a dumped schema gives back the same schema.",
 ["programs"],"all supported config classes and defaults",
 "No test loads a dumped schema, and the fixtures use neither tuples nor dictionaries with the checker.",
 [CK,TY],[("schema dump and load","hyperstate/schema/types.py:materialize_type, schema_from_namedtuple"),("change detection","hyperstate/schema/schema_checker.py:SchemaChecker")],observe=["SchemaChecker","dump-schema","check-schema"])
prop("C13","The upgrade rules proposed for a change do migrate old configs",
 "When a field (at the top or inside nested dataclasses) is renamed or moved, its default changes or is removed, a value of a plain or optional enum field changes, values of a literal type are no longer allowed, an optional or list field is added, a field is deleted, or a value becomes a list of values, the rules the checker proposes, once declared, make every old config (in full or with defaults left out) load under the new class (unless it holds a value that is no longer allowed, when it is refused), and make the schema check pass (except for the change to a list of values, whose rule does not describe the new type). Old values, including old defaults, are preserved at their new place.",
 ["programs","inputs"],"all single changes of these kinds in schemas within the bound, and all old configs",
 "The tests apply proposed rules to four fixed objects.",
 [CK,CH,RR,VE],[("proposed fixes","hyperstate/schema/schema_change.py:proposed_fix"),("rename detection","hyperstate/schema/schema_checker.py:_find_renames")],observe=["SchemaChecker.proposed_fixes","hyperstate.loads"])
prop("C14","A type accepted as a subtype accepts no value the other would refuse",
 "Whenever one schema type is considered a subtype of another, every value that a config field of the first type can hold also loads, unchanged in value, as a field of the second type. Every type is a subtype of itself and of the optional of itself.",
 ["programs","inputs"],"all pairs of types up to the nesting bound and all values of the first",
 "Tests reach subtyping through three concrete pairs.",
 [TY],[("subtype relation","hyperstate/schema/types.py:is_subtype")],observe=["schema types is_subtype","hyperstate.loads"])
prop("C15","A schedule takes the value its points and interpolators describe",
 "A schedule's value is that of the first point before it, that of the last point from it on, exactly that of a point at that point, and in between follows the named interpolation: linear is the straight line, cosine moves monotonically between the two neighbouring points, never leaves their range and is halfway at the middle, step holds the earlier value until the next point is reached. This holds for any number of points at non-decreasing positions, including a single point and a jump (two points at the same position, the later one wins).",
 ["inputs"],"all point lists, interpolators and positions of the progress variable",
 "One test evaluates one linear schedule at one position.",
 [SC],[("schedule parser","hyperstate/schedule.py:_parse_schedule"),("piecewise evaluation","hyperstate/schedule.py:PiecewiseFunction.get_value")],observe=["config fields after StateManager.state / step"])
prop("C16","Every scheduled field follows its schedule at every step, no other changes",
 "After the state is first loaded and after every step, each config field given as a schedule, at any nesting depth and inside list and dictionary elements, holds the schedule's value at the current value of the state field it is keyed on, converted to the field's type. Config fields that are not scheduled keep their values.",
 ["inputs","histories"],"all placements of schedules in the config (container keys without '.' or '['), all state values and step sequences",
 "One test has one schedule one level deep and a single step.",
 [H,SC],[("schedule registration","hyperstate/hyperstate.py:ScheduleDeserializer"),("schedule application","hyperstate/hyperstate.py:_apply_schedules, StateManager.step")],observe=["StateManager.config","StateManager.step"])
prop("C17","Schedules are saved as schedules, not as their current value",
 "A checkpoint or upgraded config of a config with schedules records every schedule in its original form at its place, and every unscheduled field by value, so that a program resumed from it evaluates the same schedules at all later steps. This holds at any nesting depth and inside list and dictionary elements.",
 ["inputs","histories"],"all placements of schedules, all schedule texts and steps before and after the save",
 "The checkpoint test compares the config after restore at one step only.",
 [H],[("schedule persistence","hyperstate/hyperstate.py:ScheduleSerializer, StateManager.checkpoint")],observe=["config.ron in a checkpoint","StateManager.config after restore"])
prop("C18","A crash at any moment leaves the last completed checkpoint usable",
 "If the process is killed at any point during or after a step, on the same or on different filesystems for temporary and checkpoint directories, a later run with the same checkpoint directory resumes from a complete checkpoint: either the one of the interrupted step or the one completed before it, never a partial one, and never from scratch once a step has completed. A checkpoint directory never exposes a partially written checkpoint as the latest.",
 ["crash_points","histories"],"every file-system operation during every step as the crash point, for all step histories and both filesystem layouts",
 "Tests never interrupt a step.",
 [H],[("write to a temporary directory then rename","hyperstate/hyperstate.py:StateManager.checkpoint, atomic_move"),("old checkpoint removed after new one is in place","hyperstate/hyperstate.py:StateManager.step"),("latest checkpoint selection","hyperstate/hyperstate.py:find_latest_checkpoint")],
 state=[("last checkpoint","the directory to delete after the next step","hyperstate/hyperstate.py:StateManager._last_checkpoint")],observe=["contents of the checkpoint directory","StateManager.state after restart"])
prop("C19","Resuming restores exactly the state and config last checkpointed",
 "A new manager on a checkpoint directory ignores the initial path and restores the state and config of the checkpoint with the highest key (keys being unique, a repeated key keeps the checkpoint first written under it), equal to what was in effect when the last step completed, whatever unrelated entries the directory contains. Without any checkpoint it starts from the initial config, or resumes from the initial path if that is a checkpoint, and it leaves that initial checkpoint untouched.",
 ["inputs","histories"],"all step histories, key values, state and config contents, and directory contents",
 "One test does one step and one restore.",
 [H,L],[("latest checkpoint selection","hyperstate/hyperstate.py:find_latest_checkpoint"),("state and config loading","hyperstate/hyperstate.py:StateManager._load_state, _load_config")],observe=["StateManager.state","StateManager.config"])
prop("C20","Repeated or failed steps never cost the existing checkpoint",
 "After any sequence of steps, including steps that repeat the same key and steps on a manager that has just resumed, the checkpoint directory holds the checkpoint of the last completed step (for a repeated key, the one first written under that key). A step that fails because a file operation reports an error leaves the previous checkpoint in place and usable, no partial one visible, and a later step succeeds.",
 ["fault_sequences","histories"],"all step histories with repeated keys and resumes, and a failure at any file operation",
 "Tests call step once per run and never inject an error.",
 [H],[("checkpoint rotation","hyperstate/hyperstate.py:StateManager.step"),("atomic publication","hyperstate/hyperstate.py:StateManager.checkpoint")],observe=["contents of the checkpoint directory","exceptions from StateManager.step"])
prop("C21","Lazy fields load once on first use, and assignments to them stick",
 "A field of a lazily loaded state holding a serializable object is read from disk on its first access only, later accesses return the same object, and a missing file matters only when its field is accessed. A value assigned to such a field before or after its first access is the value read back and the value checkpointed next. Serializable objects always come back as the objects that were saved, never silently as nothing or as another field's object, also when the upgrade rules of a versioned state have renamed or moved their fields, and each is loaded with its state, the config in effect and the context values set by then.",
 ["histories","inputs"],"all sequences of reads, assignments, dumps and reloads over the lazy fields",
 "One test reads one lazy field once.",
 [L,H],[("load on access","hyperstate/lazy.py:Lazy.__getattribute__"),("registration of unloaded fields","hyperstate/lazy.py:LazyDeserializer, hyperstate/hyperstate.py:_typed_load")],observe=["attribute access on the loaded state","files written by dump"])
prop("C22","Binary objects come back from a checkpoint exactly as they were saved",
 "Every object made of primitives, lists, dictionaries and arrays of numbers, text, bytes or records that a serializable field writes comes back with the same structure and contents, and arrays with the same element type, shape and elements in the same order whatever their memory layout. Restored arrays can be modified in place like the originals, independently of each other.",
 ["inputs"],"all array element types, shapes, layouts and contents, nested in all supported structures",
 "One test stores one contiguous float array.",
 [MT,L],[("array encoding and decoding","hyperstate/msgpack_torch.py:encode, decode"),("blob files","hyperstate/lazy.py:LazySerializer")],observe=["state fields after dump and load"])
prop("C23","Field search ranks by true similarity and always finds an exact name",
 "The similarity of two names is symmetric, highest exactly for equal names, next for names that differ only in underscores or are each other's initials, and otherwise one minus the case-aware edit distance over the longer length. Help for a query always shows every field with exactly that name, at any depth of nested, optional and listed dataclasses, before any other, then others in order of their similarity. Help without a query shows every field with its type and its default, if it has one other than null.",
 ["inputs","programs"],"all name pairs up to the length bound and all placements of fields",
 "One test prints help for one class without a query.",
 [CK,HE],[("similarity","hyperstate/schema/schema_checker.py:name_similarity, levenshtein"),("search and printing","hyperstate/schema/help.py:help, find_fields, print_schema")],observe=["hyperstate.help output"])
prop("C24","upgrade-config preserves what a config means",
 "Running upgrade-config on a config file leaves a file that records the current version and loads as the same config and schedules as the original did, with or without eliding defaults. Running it again changes nothing, a dry run writes nothing, and a file that cannot be upgraded is left as it was.",
 ["inputs","histories"],"all old files, rule tables and options",
 "No test runs upgrade-config.",
 [CK,H],[("upgrade-config","hyperstate/schema/schema_checker.py:_upgrade_config")],observe=["schema_evolution_cli upgrade-config","the config file"])
prop("C25","The command line gives the program the config that load would give",
 "A program started through the command decorators receives exactly the config that loading the given file with the given overrides produces, and for stateful commands a manager resuming from the given checkpoint directory or path. If the config cannot be loaded, an override is malformed or an option conflicts, the program's own code never runs with a different config.",
 ["inputs"],"all combinations of config file, overrides and checkpoint options",
 "No test invokes the command decorators.",
 [CO,H],[("argument handling","hyperstate/command.py:command, stateful_command, _parse_args, _check_overrides")],observe=["the decorated function's argument","process exit"])
prop("C26","Loading is independent of what was loaded or dumped before",
 "Loading the same text with the same class always gives an equal, freshly built object, whatever was loaded, upgraded, dumped or modified before, and modifying one loaded object never affects another (apart from objects the class itself shares between instances as its defaults), the declared upgrade rules or the caller's override list.",
 ["histories"],"all sequences of loads, dumps and in-place modifications of results",
 "Each test loads once from a fresh state.",
 [S,RR,VE,H],[("default construction","hyperstate/serde.py:_try_create_defaults"),("rule application","hyperstate/schema/rewrite_rule.py:_insert")],observe=["hyperstate.loads","hyperstate.dumps"])
prop("C27","Files never run code unless unpickling was asked for",
 "Loading a checkpoint or state file and using its objects never unpickles anything or takes bytes of a file for addresses unless the environment variable UNSAFE_DESERIALIZE_PICKLE is set: objects that were saved as pickles are refused at their first use, before their files are read, while the rest of the state stays usable and they can be replaced. With the variable set, they come back from their own places, and objects in the current format are still never unpickled.",
 ["inputs","histories"],"all file contents, formats, places of objects and moments at which the variable changes",
 "No test loads a legacy object or a file that was not written by the library.",
 [L,H,MT],[("choice of the decoder","hyperstate/lazy.py:_load_blob, LazyDeserializer.deserialize"),("array decoding","hyperstate/msgpack_torch.py:decode")],observe=["attribute access on the loaded state","side effects of files"])
prop("C28","The schema commands write exactly what they say",
 "dump-schema writes a file that reads back as the schema of the class: every field with its type, default and order, and the version. check-schema never changes a file and says compatible exactly if no difference is worse than informational. upgrade-schema replaces the file by the current schema exactly in that case and leaves it untouched otherwise; with the needed rules declared it does replace it, doing so again changes nothing, and the upgraded file has no differences. A file that is not a schema is refused and left as it is.",
 ["programs","histories"],"all classes, differences between them, and sequences of schema commands",
 "Tests dump and check one schema each and never run upgrade-schema.",
 [CK,TY],[("schema commands","hyperstate/schema/schema_checker.py:dump_schema, check_schema, upgrade_schema, _upgrade_schema"),("schema files","hyperstate/schema/types.py:load_schema, schema_from_namedtuple")],observe=["schema_evolution_cli","the schema file"])
prop("C29","The checker reports every difference once, where it is",
 "For any two versions of a class, the schema checker reports each difference exactly once, under the path of the field where it is and with its severity, and nothing that did not change. A field reported as renamed was removed under the old path and added under the new one with a type and default that fit, no fitting pair of similar names is left as a removal and an addition, and a field that kept its name is preferred over one that did not. The proposed rules are those of the reported warnings, the overall severity is that of the worst difference, and the printed report names every difference truthfully.",
 ["programs"],"all pairs of classes within the bounds, at every place a nested dataclass can have",
 "Tests check about ten pairs of schemas with one kind of difference each.",
 [CK,CH],[("comparison","hyperstate/schema/schema_checker.py:SchemaChecker._find_changes, _find_renames"),("severity and proposals","hyperstate/schema/schema_change.py")],observe=["SchemaChecker.changes, severity, proposed_fixes","printed report"])
prop("C30","config_dict is the config in effect, as plain values",
 "At any point of a run, StateManager.config_dict gives the config then in effect as nested dictionaries, lists and tuples of plain values: upgraded and overridden, with the current values of scheduled fields, the user's assignments, and the version of each versioned object, the top one's first. It shares nothing with the config, so that changing either never changes the other.",
 ["histories","inputs"],"all configs, sources and histories of steps and assignments",
 "No test calls config_dict.",
 [H,S,VE],[("config_dict","hyperstate/hyperstate.py:StateManager.config_dict"),("conversion","hyperstate/serde.py:asdict")],observe=["StateManager.config_dict"])
prop("C31","A manager makes its config and its state once and keeps them",
 "A state manager has one config and one state. Each is loaded or made when it is first used, and every later access gives the same object, with what the program has assigned to it, whatever is read, stepped or checkpointed in between and whatever happens to the source file (only scheduled fields are set, when the state is first loaded and by step). The initial state is made at most once, from that config and the context values given before, and not at all if there is a checkpoint to resume from. Managers of the same source share nothing.",
 ["histories","inputs"],"all sequences of accesses, assignments, steps and checkpoints within the bounds, for every source of a config",
 "The one test with a manager reads each property in one order.",
 [H],[("config and state","hyperstate/hyperstate.py:StateManager.config, state, _load_config, _load_state"),("step and checkpoint","hyperstate/hyperstate.py:StateManager.step, checkpoint")],observe=["StateManager.config, state, config_dict","calls of initial_state"])
prop("C32","Equal configs have the same text, in the order of the class",
 "Dumping equal configs gives the same text, whether in full or with defaults left out: dumping an object again, an equal object, or what the dump loads as makes no difference. Every object is named after its class and lists its fields in the order of the class, its version first if it has one, and dictionaries keep the order of their entries. A dump to a file leaves exactly that text in the file, whatever the file held before, and touches no other file.",
 ["inputs","programs"],"all config values of the supported types",
 "Tests compare the text of one dumped config.",
 [S,H,VE],[("conversion","hyperstate/serde.py:asdict, to_namedtuple"),("dump","hyperstate/hyperstate.py:_typed_dump, ElideDefaults")],observe=["hyperstate.dumps","hyperstate.dump"])
prop("C33","Readers of checkpoints that are being replaced see all of one or fail",
 "While a program steps in a checkpoint directory, another one that resumes from that directory, or from a checkpoint in it by its path, gets the config, the state and the binary fields of one checkpoint, completed when it started looking or later, or an error if that checkpoint was removed before it had read everything - whenever each of its reads happens. It never gets a part of one, a mix of two, or a state made afresh although the directory held a complete checkpoint all the time. If nothing changes while it reads, it succeeds.",
 ["schedules","inputs"],"all interleavings of the file operations of one writer with the reads of one reader",
 "Tests read checkpoints only after the program that wrote them is done.",
 [H,L],[("reading","hyperstate/hyperstate.py:StateManager._load_config, _load_state, find_latest_checkpoint"),("replacing","hyperstate/hyperstate.py:StateManager.step, atomic_move")],observe=["hyperstate.StateManager"])
prop("C34","A text given for a number is a well-formed schedule or refused",
 "A text in the place of a number of a config is either a schedule - the name of a field of the state, a colon, and one or more points of finite numbers at positions that never decrease, with at most one known interpolation named between two neighbouring points and nothing else - or it is refused: when the config is loaded, or when the state is if only the name is wrong. It is never taken for a number, a constant or another schedule, whatever is missing, misspelt, doubled or out of order, and a well-formed schedule is never refused.",
 ["inputs"],"all sequences of words up to the bound, all orders of positions, every place a number can have",
 "Tests use two well-formed schedules.",
 [SC,H],[("parsing","hyperstate/schedule.py:_parse_schedule"),("recognising schedules","hyperstate/hyperstate.py:ScheduleDeserializer")],observe=["hyperstate.load","hyperstate.StateManager.state"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P: assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
