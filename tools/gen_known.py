import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F=[l.split("|") for l in """C15|251c13b|step schedules never reached the value of their last point (step: 0@0 step 1@10 at 10 gave 0)
C15|9add09a|a schedule with one point failed, and a jump at the last position divided by zero
C01|a39bb3d|enums were dumped by member name but loaded by value
C16|a048de4|schedules nested three or more levels deep failed to apply
C05|d236e4b|an override of a boolean field that is not a boolean was taken for False
C20|0966924|a step repeating its key deleted the only checkpoint
C19|4916c27|an unrelated directory named like a checkpoint hid the latest checkpoint
C07|8bf64f4|StateManager took config files without a version for current ones
C24|972dc6e|upgrade-config did not close the file it wrote
C04|ba49409|ignore_extra_fields was ignored inside lists, dictionaries, tuples and nested objects
C03|40a3142|tuples of the wrong length were accepted
C03|912fc99|integers given as strings lost digits beyond 2**53
C03|5793ae9|Literal fields stored values that only compare equal to a declared one (True for 1)
C03|a2c59d5|dictionary keys were not checked against the key type
C08|12e098b|RejectValues rejected every value (and dropped the field)
C08|cfbf479|CheckValue and RejectValues failed when a parent object is null
C26|f527ccb|loaded configs shared mutable defaults held by upgrade rules
C16|4c3c383|schedules inside lists and dictionaries were never applied, and C17 saved by value
C21|8168293|a value assigned to an unloaded lazy field was replaced by the stored one on first access
C21|57a4992|serializable objects nested or in non-lazy states came back as None
C22|808a2ef|restored arrays were read-only
C20|8a41d3e|after the previous checkpoint could not be removed every later step failed
C11|0b4078d|an enum variant removed from one field and one added to another were reported as a rename (INFO)
C14|1f1a0f9|subtyping of Optional and nested dataclasses was inverted
C12|c097012|schemas with tuples, dictionaries or unions failed to load or to be checked
C12|6bfa053|dataclass and enum defaults differed after dumping the schema, or could not be dumped
C09|999abb1|old defaults of fields inside absent nested objects were lost or failed to load
C09|ca9dafc|a later rule turned filled-in defaults of an absent object into recorded values
C13|ab27e5a|filled-in old defaults were not mapped by the proposed enum value rule
C13|d517a2c|deleting or moving all fields of a nested object left an empty object that failed to load
C05|5c23a98|values of union-typed list fields could not be given as overrides
C06|420eaf8|versioned structs given as overrides were not upgraded
C06|3be82fc|overrides were applied before upgrade rules, and overriding one field of an absent nested object dropped the other fields of its default
C05|3a88183|overrides on a class with an unsupported field type started a debugger
C01|2163a86|fields of Literal types whose values are not type expressions failed to load
C01|1f62ac3|None failed to load for a union of several types with None
C03|a8fea62|a struct given for a dictionary field loaded as a dictionary containing its class name
C09|8564234|a removed default of an object was not restored when the default of one of its fields changed as well
C01|0980ec7|dictionaries with enum keys could not be dumped
C12|84c1fb9|unions of several types with None had no schema
C14|9c0b2f9|a literal type of True counted as a subtype of one of 1, whose fields refuse True
C11|11141c9|changed or removed defaults inside a list that became optional were reported compatible
C11|beb23e2|a nested object that became versioned was reported compatible although its configs carry no version
C13|0c01b1e|the rule proposed for a removed default left the schema check failing
C13|10f4105|the rules proposed for an object that becomes a list of objects had old configs refused
C18|82513c7|a checkpoint with a key of more than 12 digits was taken for an older one, and the last completed checkpoint was not resumed
C21|818de6e|a field of a copy of a lazily loaded object was None after the field of the original had been read
C23|a98e8b4|a help query does not find fields of dataclasses inside Optional or List fields
C25|a5941a4|a stateful command with an empty --config path runs with the default config
C16|16811cf|a schedule given for an element of a tuple was refused
C21|16811cf|a state with a serializable object directly inside a tuple could not be loaded
C16|dd9396c|schedules under dictionary keys with dots or brackets were refused or set another field
C21|dd9396c|serializable objects under dictionary keys with dots, brackets or slashes could not be loaded back
C27|14e3d94|a file holding an array of Python objects had its bytes taken for addresses and ended the process
C22|14e3d94|arrays of Python objects were saved as addresses
C29|e88e59f|the report of a renamed enum variant gave the new name twice
C29|03d8fe0|new fields with a default were reported as fields without default
C22|1cffab6|arrays of records came back without their field names and types
C01|c4d7250|strings in unions were refused or taken for numbers, and lists and dictionaries in unions failed to load
C01|7193351|configs with fields whose names start with an underscore could be loaded but not dumped or checkpointed
C33|ec76093|a manager whose initial checkpoint is removed after its config was read silently made a fresh state
C33|df9290d|a manager that looked for the latest checkpoint while another process replaced it silently started from scratch
C01|b205cd8|texts with apostrophes or unprintable characters were dumped in a form that could not be loaded
C12|b205cd8|a schema with an apostrophe in a default or a docstring was dumped in a form that could not be loaded
C21|f4ed6f7|serializable objects of versioned states whose fields upgrade rules had moved were looked for under the new name: not found, or another object
C34|2cb8202|schedules with points out of order or not finite, without a colon, or with an interpolation after the last point were taken for other schedules
""".splitlines()]
d={"findings":[],"fixed":["fixed: property=%s %s %s"%tuple(x) for x in F]}
json.dump(d,open(root+"/known_findings.json","w"),indent=1)
